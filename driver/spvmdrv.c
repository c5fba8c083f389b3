// SPVM check driver: a small server around the SPVM core built from /repo's working tree.
// Requests on fd 3 (dup of stdin) as frames: u32 nfields, then per field u32 length + bytes.
// Replies in the same format on the dup of stdout. fd 1/2 are captured files.
#define _GNU_SOURCE
#include "spvm_native.h"
#include <stdlib.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <pthread.h>
#include <inttypes.h>
#include <time.h>

SPVM_ENV* SPVM_NATIVE_new_env(void);

static int g_in, g_out;

// ---------- buffers
typedef struct { char* p; size_t n, cap; } Buf;
static void bput(Buf* b, const void* d, size_t n) {
  if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2 + 256; b->p = realloc(b->p, b->cap); }
  if (n) memcpy(b->p + b->n, d, n);
  b->n += n; b->p[b->n] = 0;
}
static void bu32(Buf* b, uint32_t v) { bput(b, &v, 4); }
static void bu64(Buf* b, uint64_t v) { bput(b, &v, 8); }
static void bch(Buf* b, char c) { bput(b, &c, 1); }
static void bstr(Buf* b, const char* s) { bput(b, s, strlen(s)); }

static void wr_all(int fd, const void* d, size_t n) {
  const char* p = d;
  while (n) { ssize_t r = write(fd, p, n); if (r < 0) { if (errno == EINTR) continue; _exit(90); } p += r; n -= r; }
}
static int rd_all(int fd, void* d, size_t n) {
  char* p = d;
  while (n) { ssize_t r = read(fd, p, n); if (r < 0) { if (errno == EINTR) continue; return -1; } if (r == 0) return -1; p += r; n -= r; }
  return 0;
}

typedef struct { uint32_t n; char** f; uint32_t* len; } Req;
static Req g_req;
static int read_req(void) {
  uint32_t n;
  for (uint32_t i = 0; i < g_req.n; i++) free(g_req.f[i]);
  free(g_req.f); free(g_req.len); memset(&g_req, 0, sizeof g_req);
  if (rd_all(g_in, &n, 4)) return -1;
  g_req.f = calloc(n + 1, sizeof(char*)); g_req.len = calloc(n + 1, 4); g_req.n = n;
  for (uint32_t i = 0; i < n; i++) {
    uint32_t l;
    if (rd_all(g_in, &l, 4)) return -1;
    g_req.f[i] = malloc(l + 1); g_req.len[i] = l;
    if (rd_all(g_in, g_req.f[i], l)) return -1;
    g_req.f[i][l] = 0;
  }
  return 0;
}
#define MAXREP 4096
static Buf g_rep; static uint32_t g_rep_n;
static void rep_begin(void) { g_rep.n = 0; g_rep_n = 0; bu32(&g_rep, 0); }
static void rep_field(const void* d, size_t n) { bu32(&g_rep, (uint32_t)n); bput(&g_rep, d, n); g_rep_n++; }
static void rep_str(const char* s) { rep_field(s, strlen(s)); }
static void rep_i64(int64_t v) { char t[32]; int n = snprintf(t, sizeof t, "%" PRId64, v); rep_field(t, n); }
static void rep_end(void) { memcpy(g_rep.p, &g_rep_n, 4); wr_all(g_out, g_rep.p, g_rep.n); }

// ---------- captured output
static int g_cap1 = -1, g_cap2 = -1;
static void rep_capture(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  if (n <= 0) { rep_field("", 0); return; }
  if (n > (64 << 20)) n = 64 << 20;
  char* p = malloc(n);
  ssize_t r = pread(fd, p, n, 0);
  rep_field(p, r < 0 ? 0 : r);
  free(p);
  if (ftruncate(fd, 0)) {}
  lseek(fd, 0, SEEK_SET);
}

// ---------- state
static SPVM_ENV* g_boot;
static void* g_compiler;
static SPVM_ENV* g_env;
static SPVM_VALUE* g_stack;
static Buf g_trace;
static pthread_mutex_t g_trace_mutex = PTHREAD_MUTEX_INITIALIZER;
typedef struct { char* cls; void* h; } So;
static So g_so[1024]; static int g_so_n, g_so_std_n;
static int g_mode_pre; // 0: every precompile method runs on the VM; 1: precompiled code where available
static Buf g_missing;

static void* so_for(const char* cls) {
  for (int i = g_so_n - 1; i >= 0; i--) if (!strcmp(g_so[i].cls, cls)) return g_so[i].h;
  return NULL;
}

static void cname(char* out, size_t cap, const char* prefix, const char* cls, const char* m) {
  snprintf(out, cap, "%s%s__%s", prefix, cls, m);
  for (char* p = out + strlen(prefix); *p; p++) if (*p == ':') *p = '_';
}

static int g_bind_from; // basic types already bound (grows with repeated compiles)
static void bind_methods(void* runtime, SPVM_ENV* api_env) {
  SPVM_ENV_API* api = api_env->api;
  int32_t n = api->runtime->get_basic_types_length(runtime);
  for (int32_t id = 0; id < n; id++) {
    void* bt = api->runtime->get_basic_type_by_id(runtime, id);
    if (!bt) continue;
    const char* bname = api->basic_type->get_name(runtime, bt);
    int32_t mn = api->basic_type->get_methods_length(runtime, bt);
    for (int32_t mi = 0; mi < mn; mi++) {
      void* m = api->basic_type->get_method_by_index(runtime, bt, mi);
      const char* mname = api->method->get_name(runtime, m);
      char sym[4096];
      if (api->method->is_native(runtime, m)) {
        if (api->method->get_native_address(runtime, m)) continue;
        cname(sym, sizeof sym, "SPVM__", bname, mname);
        void* a = dlsym(RTLD_DEFAULT, sym);
        if (a) api->method->set_native_address(runtime, m, a);
        else { bstr(&g_missing, sym); bch(&g_missing, '\n'); }
      }
      else if (api->method->is_precompile(runtime, m)) {
        void* a = NULL;
        if (g_mode_pre) {
          char top[4096]; snprintf(top, sizeof top, "%s", bname);
          char* an = strstr(top, "::anon::"); if (an) *an = 0;
          void* h = so_for(top);
          if (h) {
            cname(sym, sizeof sym, "SPVMPRECOMPILE__", bname, mname);
            a = dlsym(h, sym);
            if (!a) { bstr(&g_missing, sym); bch(&g_missing, '\n'); }
          }
        }
        if (a) { api->method->set_precompile_address(runtime, m, a); api->method->set_is_precompile_fallback(runtime, m, 0); }
        else api->method->set_is_precompile_fallback(runtime, m, 1);
      }
    }
  }
}

// ---------- value serialisation: prefix form, self-delimiting binary
static void ser(SPVM_ENV* env, SPVM_VALUE* stack, Buf* b, void* o, int depth) {
  if (!o) { bch(b, 'u'); return; }
  if (env->is_string(env, stack, o)) {
    int32_t n = env->length(env, stack, o);
    bch(b, 's'); bu32(b, n); bput(b, env->get_chars(env, stack, o), n); return;
  }
  if (depth > 12) { bch(b, '!'); return; }
  int32_t scope = env->enter_scope(env, stack);
  if (env->is_array(env, stack, o)) {
    void* tn = env->get_type_name(env, stack, o);
    int32_t n = env->length(env, stack, o);
    int32_t tl = env->length(env, stack, tn);
    if (env->is_object_array(env, stack, o)) {
      bch(b, 'A'); bu32(b, tl); bput(b, env->get_chars(env, stack, tn), tl); bu32(b, n);
      for (int32_t i = 0; i < n; i++) ser(env, stack, b, env->get_elem_object(env, stack, o, i), depth + 1);
    }
    else {
      int32_t sz = env->get_elem_size(env, stack, o);
      bch(b, 'N'); bu32(b, tl); bput(b, env->get_chars(env, stack, tn), tl); bu32(b, n); bu32(b, sz);
      bput(b, env->get_elems_byte(env, stack, o), (size_t)n * sz);
    }
  }
  else {
    const char* tn = env->get_object_basic_type_name(env, stack, o);
    int32_t id = env->get_object_basic_type_id(env, stack, o);
    switch (id) {
      case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE_CLASS: bch(b, 'B'); bch(b, 'b'); bu64(b, (int64_t)(int8_t)env->get_byte_object_value(env, stack, o)); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT_CLASS: bch(b, 'B'); bch(b, 'h'); bu64(b, (int64_t)(int16_t)env->get_short_object_value(env, stack, o)); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_INT_CLASS: bch(b, 'B'); bch(b, 'i'); bu64(b, (int64_t)env->get_int_object_value(env, stack, o)); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG_CLASS: bch(b, 'B'); bch(b, 'l'); bu64(b, (int64_t)env->get_long_object_value(env, stack, o)); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT_CLASS: { float f = env->get_float_object_value(env, stack, o); uint32_t u; memcpy(&u, &f, 4); bch(b, 'B'); bch(b, 'f'); bu64(b, u); break; }
      case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE_CLASS: { double f = env->get_double_object_value(env, stack, o); uint64_t u; memcpy(&u, &f, 8); bch(b, 'B'); bch(b, 'd'); bu64(b, u); break; }
      default: bch(b, 'O'); bu32(b, strlen(tn)); bstr(b, tn); break;
    }
  }
  env->leave_scope(env, stack, scope);
}

// ---------- the VT class's natives: trace records
#define TR(code) do { pthread_mutex_lock(&g_trace_mutex); code; pthread_mutex_unlock(&g_trace_mutex); } while (0)
int32_t SPVM__VT__i(SPVM_ENV* env, SPVM_VALUE* stack) { int64_t v = stack[0].lval; TR(bch(&g_trace, 'i'); bu64(&g_trace, v)); return 0; }
int32_t SPVM__VT__f(SPVM_ENV* env, SPVM_VALUE* stack) { float v = stack[0].fval; uint32_t u; memcpy(&u, &v, 4); TR(bch(&g_trace, 'f'); bu32(&g_trace, u)); return 0; }
int32_t SPVM__VT__d(SPVM_ENV* env, SPVM_VALUE* stack) { double v = stack[0].dval; uint64_t u; memcpy(&u, &v, 8); TR(bch(&g_trace, 'd'); bu64(&g_trace, u)); return 0; }
int32_t SPVM__VT__o(SPVM_ENV* env, SPVM_VALUE* stack) { void* o = stack[0].oval; TR(ser(env, stack, &g_trace, o, 0)); return 0; }
int32_t SPVM__VT__ro(SPVM_ENV* env, SPVM_VALUE* stack) { void* o = stack[0].oval; stack[0].ival = o ? env->is_read_only(env, stack, o) : 0; return 0; }
int32_t SPVM__VT__refcnt(SPVM_ENV* env, SPVM_VALUE* stack) { void* o = stack[0].oval; stack[0].ival = o ? env->api->internal->get_ref_count(env, stack, o) : 0; return 0; }
int32_t SPVM__VT__blocks(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = env->get_memory_blocks_count(env, stack); return 0; }
int32_t SPVM__VT__addr(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].lval = (int64_t)(intptr_t)stack[0].oval; return 0; }
int32_t SPVM__VT__tname(SPVM_ENV* env, SPVM_VALUE* stack) { void* o = stack[0].oval; stack[0].oval = o ? env->get_type_name(env, stack, o) : NULL; return 0; }
int32_t SPVM__VT__call0(SPVM_ENV* env, SPVM_VALUE* stack) { // call a Callback-like object's method "" with no args from native code
  void* o = stack[0].oval;
  if (!o) return env->die(env, stack, "undef", __func__, __FILE__, __LINE__);
  void* m = env->get_instance_method(env, stack, o, "");
  if (!m) return env->die(env, stack, "no method", __func__, __FILE__, __LINE__);
  return env->call_method(env, stack, m, 1);
}
#include "vt_native.h"
#include "vt_thread.h"

static const char* VT_SRC =
  "class VT {\n"
  "  native static method i : void ($v : long);\n"
  "  native static method f : void ($v : float);\n"
  "  native static method d : void ($v : double);\n"
  "  native static method o : void ($v : object);\n"
  "  native static method ro : int ($v : string);\n"
  "  native static method refcnt : int ($v : object);\n"
  "  native static method blocks : int ();\n"
  "  native static method addr : long ($v : object);\n"
  "  native static method tname : string ($v : object);\n"
  "  native static method call0 : void ($v : object);\n"
  VT_NATIVE_DECL
  VT_THREAD_DECL
  "}\n";

static void close_env(void) {
  if (g_env) {
    g_env->destroy_class_vars(g_env, g_stack);
    g_env->free_stack(g_env, g_stack);
    g_env->free_env(g_env);
    g_env = NULL; g_stack = NULL;
  }
}
static void close_compiler(void) {
  close_env();
  if (g_compiler) { g_boot->api->compiler->free_instance(g_compiler); g_compiler = NULL; }
  while (g_so_n > g_so_std_n) { g_so_n--; free(g_so[g_so_n].cls); dlclose(g_so[g_so_n].h); }
}
static char* g_inc;
static void add_class(const char* name, const char* src, int32_t len) {
  SPVM_ENV_API* api = g_boot->api;
  api->compiler->add_class_file(g_compiler, name);
  void* cf = api->compiler->get_class_file(g_compiler, name);
  char rel[4096]; size_t k = 0;
  for (const char* p = name; *p && k < sizeof rel - 8; p++) { if (p[0] == ':' && p[1] == ':') { rel[k++] = '/'; p++; } else rel[k++] = *p; }
  strcpy(rel + k, ".spvm");
  api->class_file->set_rel_file(g_compiler, cf, rel);
  api->class_file->set_content(g_compiler, cf, src);
  api->class_file->set_content_length(g_compiler, cf, len);
}
static void open_compiler(void) {
  close_compiler();
  SPVM_ENV_API* api = g_boot->api;
  g_compiler = api->compiler->new_instance();
  if (g_inc) api->compiler->add_include_dir(g_compiler, g_inc);
  add_class("VT", VT_SRC, strlen(VT_SRC));
}
static void rep_errors(void) {
  SPVM_ENV_API* api = g_boot->api;
  int32_t n = api->compiler->get_error_messages_length(g_compiler);
  for (int32_t i = 0; i < n; i++) rep_str(api->compiler->get_error_message(g_compiler, i));
}
static int open_env(void) {
  SPVM_ENV_API* api = g_boot->api;
  void* runtime = api->compiler->get_runtime(g_compiler);
  g_missing.n = 0; bput(&g_missing, "", 0);
  bind_methods(runtime, g_boot);
  if (!g_env) {
    g_env = g_boot->new_env(); g_env->runtime = runtime;
    g_stack = g_env->new_stack(g_env);
    void* pn = g_env->new_string(g_env, g_stack, "drv", 3);
    g_env->set_command_info_program_name(g_env, g_stack, pn);
    void* av = g_env->new_string_array(g_env, g_stack, 0);
    g_env->set_command_info_argv(g_env, g_stack, av);
    g_env->set_command_info_base_time(g_env, g_stack, 1000);
  }
  return g_env->call_init_methods(g_env, g_stack);
}

// typed argument -> stack slots. Field text: first char kind, rest payload.
static int put_arg(SPVM_ENV* env, SPVM_VALUE* stack, int si, const char* f, uint32_t len, int32_t btid, int32_t dim, int32_t flag) {
  switch (f[0]) {
    case 'u': stack[si].oval = NULL; return 1;
    case 'i': { // decimal; slot by declared type
      int64_t v = strtoll(f + 1, NULL, 10);
      if (dim == 0 && !(flag & 2)) switch (btid) {
        case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: stack[si].bval = v; break;
        case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: stack[si].sval = v; break;
        case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: stack[si].ival = v; break;
        default: stack[si].lval = v; break;
      } return 1; }
    case 'f': { uint32_t u = strtoul(f + 1, NULL, 16); memcpy(&stack[si].fval, &u, 4); return 1; }
    case 'd': { uint64_t u = strtoull(f + 1, NULL, 16); memcpy(&stack[si].dval, &u, 8); return 1; }
    case 's': stack[si].oval = env->new_string(env, stack, f + 1, len - 1); return 1;
    case 'a': { // numeric array: kind char then raw elements
      uint32_t n; void* a = NULL; const char* raw = f + 2; uint32_t rl = len - 2;
      switch (f[1]) {
        case 'b': n = rl; a = env->new_byte_array(env, stack, n); break;
        case 'h': n = rl / 2; a = env->new_short_array(env, stack, n); break;
        case 'i': n = rl / 4; a = env->new_int_array(env, stack, n); break;
        case 'l': n = rl / 8; a = env->new_long_array(env, stack, n); break;
        case 'f': n = rl / 4; a = env->new_float_array(env, stack, n); break;
        default: n = rl / 8; a = env->new_double_array(env, stack, n); break;
      }
      memcpy(env->get_elems_byte(env, stack, a), raw, rl);
      stack[si].oval = a; return 1; }
    case 'S': { // string array: u32 count, then i32 len (-1 undef) + bytes
      uint32_t n; memcpy(&n, f + 1, 4); const char* p = f + 5;
      void* a = env->new_string_array(env, stack, n);
      for (uint32_t i = 0; i < n; i++) { int32_t l; memcpy(&l, p, 4); p += 4; if (l >= 0) { env->set_elem_string(env, stack, a, i, env->new_string(env, stack, p, l)); p += l; } }
      stack[si].oval = a; return 1; }
  }
  return 1;
}

static void do_call(void) {
  // CALL class method args...
  SPVM_ENV* env = g_env; SPVM_VALUE* stack = g_stack; SPVM_ENV_API* api = env->api;
  void* rt = env->runtime;
  g_trace.n = 0; bput(&g_trace, "", 0);
  rep_begin();
  void* bt = api->runtime->get_basic_type_by_name(rt, g_req.f[1]);
  void* m = bt ? api->basic_type->get_method_by_name(rt, bt, g_req.f[2]) : NULL;
  if (!m) { rep_str("nomethod"); rep_end(); return; }
  int32_t scope = env->enter_scope(env, stack);
  int32_t before = env->get_memory_blocks_count(env, stack);
  int32_t scope2 = env->enter_scope(env, stack);
  int32_t an = api->method->get_args_length(rt, m);
  int si = 0;
  for (uint32_t i = 3; i < g_req.n; i++) {
    int32_t bid = 0, dim = 0, flag = 0;
    if ((int)(i - 3) < an) {
      void* a = api->method->get_arg_by_index(rt, m, i - 3);
      bid = api->basic_type->get_id(rt, api->arg->get_basic_type(rt, a));
      dim = api->arg->get_type_dimension(rt, a); flag = api->arg->get_type_flag(rt, a);
    }
    si += put_arg(env, stack, si, g_req.f[i], g_req.len[i], bid, dim, flag);
  }
  int32_t e = env->call_method(env, stack, m, si);
  Buf ret = {0}; bput(&ret, "", 0);
  SPVM_VALUE r = stack[0];
  if (e == 0) {
    int32_t bid = api->basic_type->get_id(rt, api->method->get_return_basic_type(rt, m));
    int32_t dim = api->method->get_return_type_dimension(rt, m);
    if (dim > 0) ser(env, stack, &ret, r.oval, 0);
    else switch (bid) {
      case SPVM_NATIVE_C_BASIC_TYPE_ID_VOID: bch(&ret, 'v'); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: bch(&ret, 'i'); bu64(&ret, (int64_t)r.bval); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: bch(&ret, 'i'); bu64(&ret, (int64_t)r.sval); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: bch(&ret, 'i'); bu64(&ret, (int64_t)r.ival); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG: bch(&ret, 'i'); bu64(&ret, r.lval); break;
      case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT: { uint32_t u; memcpy(&u, &r.fval, 4); bch(&ret, 'f'); bu32(&ret, u); break; }
      case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE: { uint64_t u; memcpy(&u, &r.dval, 8); bch(&ret, 'd'); bu64(&ret, u); break; }
      default: ser(env, stack, &ret, r.oval, 0); break;
    }
    rep_str("ok"); rep_field(ret.p, ret.n);
  }
  else {
    void* ex = env->get_exception(env, stack);
    const char* bn = NULL;
    void* ebt = api->runtime->get_basic_type_by_id(rt, e);
    if (ebt) bn = api->basic_type->get_name(rt, ebt);
    rep_str("die");
    if (ex) rep_field(env->get_chars(env, stack, ex), env->length(env, stack, ex)); else rep_str("");
    rep_str(bn ? bn : "?");
  }
  env->set_exception(env, stack, NULL);
  free(ret.p);
  env->leave_scope(env, stack, scope2);
  int32_t after = env->get_memory_blocks_count(env, stack);
  env->leave_scope(env, stack, scope);
  fflush(env->spvm_stdout(env, stack)); fflush(env->spvm_stderr(env, stack)); fflush(NULL);
  if (g_rep_n == 2) rep_field("", 0); // pad: ok,ret,"" / die,msg,errname
  rep_field(g_trace.p, g_trace.n);
  rep_i64(after - before);
  rep_capture(g_cap1); rep_capture(g_cap2);
  rep_end();
}

int main(int argc, char** argv) {
  // argv: stdout-capture-file stderr-capture-file include-dir [class=so ...]
  signal(SIGPIPE, SIG_DFL);
  g_in = dup(0); g_out = dup(1);
  fcntl(g_in, F_SETFD, FD_CLOEXEC); fcntl(g_out, F_SETFD, FD_CLOEXEC);
  int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); close(nul);
  g_cap1 = open(argv[1], O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  g_cap2 = open(argv[2], O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  dup2(g_cap1, 1); dup2(g_cap2, 2);
  g_inc = argc > 3 && argv[3][0] ? argv[3] : NULL;
  for (int i = 4; i < argc; i++) {
    char* eq = strchr(argv[i], '='); if (!eq) continue; *eq = 0;
    void* h = dlopen(eq + 1, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", eq + 1, dlerror()); _exit(91); }
    g_so[g_so_n].cls = strdup(argv[i]); g_so[g_so_n++].h = h;
  }
  g_so_std_n = g_so_n;
  g_boot = SPVM_NATIVE_new_env();
  while (read_req() == 0) {
    if (g_req.n == 0) break;
    const char* op = g_req.f[0];
    if (!strcmp(op, "NEW")) { // NEW mode
      g_mode_pre = g_req.n > 1 && g_req.f[1][0] == 'p';
      open_compiler(); rep_begin(); rep_str("ok"); rep_end();
    }
    else if (!strcmp(op, "CLASS")) { add_class(g_req.f[1], g_req.f[2], g_req.len[2]); rep_begin(); rep_str("ok"); rep_end(); }
    else if (!strcmp(op, "INC")) { g_boot->api->compiler->prepend_include_dir(g_compiler, g_req.f[1]); rep_begin(); rep_str("ok"); rep_end(); }
    else if (!strcmp(op, "COMPILE")) {
      SPVM_ENV_API* api = g_boot->api;
      api->compiler->set_start_file(g_compiler, "START"); api->compiler->set_start_line(g_compiler, 1);
      int32_t e = api->compiler->compile(g_compiler, g_req.f[1]);
      rep_begin(); rep_i64(e); rep_i64(api->runtime->get_basic_types_length(api->compiler->get_runtime(g_compiler))); rep_errors(); rep_end();
    }
    else if (!strcmp(op, "ANON")) {
      const char* nm = NULL;
      SPVM_ENV_API* api = g_boot->api;
      api->compiler->set_start_file(g_compiler, "START"); api->compiler->set_start_line(g_compiler, 1);
      int32_t e = api->compiler->compile_anon_class(g_compiler, g_req.f[1], &nm);
      rep_begin(); rep_i64(e); rep_str(e == 0 && nm ? nm : ""); rep_errors(); rep_end();
    }
    else if (!strcmp(op, "DELCLASS")) { g_boot->api->compiler->delete_class_file(g_compiler, g_req.f[1]); rep_begin(); rep_str("ok"); rep_end(); }
    else if (!strcmp(op, "ENV")) {
      g_trace.n = 0; bput(&g_trace, "", 0);
      int e = open_env();
      rep_begin(); rep_i64(e);
      if (e) { void* ex = g_env->get_exception(g_env, g_stack); if (ex) rep_field(g_env->get_chars(g_env, g_stack, ex), g_env->length(g_env, g_stack, ex)); else rep_str(""); }
      else rep_field(g_missing.p, g_missing.n);
      rep_field(g_trace.p, g_trace.n);
      rep_end();
    }
    else if (!strcmp(op, "CALL")) do_call();
    else if (!strcmp(op, "SO")) {
      void* h = dlopen(g_req.f[2], RTLD_NOW | RTLD_LOCAL);
      rep_begin();
      if (!h || g_so_n >= 1024) rep_str(dlerror()); else { g_so[g_so_n].cls = strdup(g_req.f[1]); g_so[g_so_n++].h = h; rep_str("ok"); }
      rep_end();
    }
    else if (!strcmp(op, "GENSRC")) {
      SPVM_ENV_API* api = g_boot->api;
      void* rt = api->compiler->get_runtime(g_compiler);
      void* bt = api->runtime->get_basic_type_by_name(rt, g_req.f[1]);
      rep_begin();
      if (!bt) { rep_str("none"); rep_str(""); }
      else {
        void* al = api->allocator->new_instance();
        void* sb = api->string_buffer->new_instance(al, 0);
        api->runtime->build_precompile_class_source(rt, sb, bt);
        rep_str("ok"); rep_field(api->string_buffer->get_string(sb), api->string_buffer->get_length(sb));
        api->string_buffer->free_instance(sb);
        api->allocator->free_instance(al);
      }
      rep_end();
    }
    else if (!strcmp(op, "META")) { meta_reply(g_boot, g_boot->api->compiler->get_runtime(g_compiler)); }
    else if (!strcmp(op, "REFL")) { refl_reply(g_boot, g_boot->api->compiler->get_runtime(g_compiler), g_req.n - 1, g_req.f + 1); }
    else if (!strcmp(op, "DONE")) { // destroy class vars; report remaining blocks and output
      rep_begin();
      if (g_env) {
        g_trace.n = 0; bput(&g_trace, "", 0);
        g_env->destroy_class_vars(g_env, g_stack);
        int32_t rest = g_env->get_memory_blocks_count(g_env, g_stack);
        g_env->free_stack(g_env, g_stack);
        g_env->free_env(g_env); g_env = NULL; g_stack = NULL;
        fflush(NULL);
        rep_i64(rest); rep_field(g_trace.p, g_trace.n);
      } else { rep_i64(0); rep_str(""); }
      close_compiler();
      rep_capture(g_cap1); rep_capture(g_cap2);
      rep_end();
    }
    else if (!strcmp(op, "PING")) { rep_begin(); rep_str("pong"); rep_capture(g_cap1); rep_capture(g_cap2); rep_end(); }
    else { rep_begin(); rep_str("badop"); rep_end(); }
  }
  close_compiler();
  g_boot->free_env(g_boot);
  for (uint32_t i = 0; i < g_req.n; i++) free(g_req.f[i]);
  free(g_req.f); free(g_req.len); free(g_rep.p); free(g_trace.p); free(g_missing.p);
  for (int i = 0; i < g_so_n; i++) free(g_so[i].cls);
  return 0;
}
