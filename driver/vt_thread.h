// VT->threads($tasks : Callback-like object[]): run each task's method "" on its own thread with its own stack.
#define VT_THREAD_DECL "  native static method threads : int ($tasks : object[]);\n"
typedef struct { SPVM_ENV* env; void* task; int32_t err; pthread_barrier_t* bar; } VTT;
static void* vt_thread_main(void* p) {
  VTT* t = p; SPVM_ENV* env = t->env;
  SPVM_VALUE* stack = env->new_stack(env);
  int32_t scope = env->enter_scope(env, stack);
  pthread_barrier_wait(t->bar);
  void* m = env->get_instance_method(env, stack, t->task, "");
  if (!m) t->err = -1;
  else {
    stack[0].oval = t->task;
    t->err = env->call_method(env, stack, m, 1);
    if (t->err) { env->print_exception_to_stderr(env, stack); }
  }
  env->leave_scope(env, stack, scope);
  env->free_stack(env, stack);
  return NULL;
}
int32_t SPVM__VT__threads(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* a = stack[0].oval; int32_t n = env->length(env, stack, a);
  pthread_t th[64]; VTT t[64]; if (n > 64) n = 64;
  pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, n);
  for (int i = 0; i < n; i++) { t[i].env = env; t[i].task = env->get_elem_object(env, stack, a, i); t[i].err = 0; t[i].bar = &bar; }
  for (int i = 0; i < n; i++) pthread_create(&th[i], NULL, vt_thread_main, &t[i]);
  int32_t bad = 0;
  for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); if (t[i].err) bad++; }
  pthread_barrier_destroy(&bar);
  stack[0].ival = bad;
  return 0;
}
