// Extra natives of the VT class, and the metadata dump.
#define VT_NATIVE_DECL ""
static void meta_reply(SPVM_ENV* boot, void* rt) {
  SPVM_ENV_API* api = boot->api; Buf b = {0}; bput(&b, "", 0); char t[4096];
  int32_t n = api->runtime->get_basic_types_length(rt);
  for (int32_t id = 0; id < n; id++) {
    void* bt = api->runtime->get_basic_type_by_id(rt, id);
    if (!bt) continue;
    void* p = api->basic_type->get_parent(rt, bt);
    snprintf(t, sizeof t, "T %d %s cat=%d parent=%s anon=%d\n", id, api->basic_type->get_name(rt, bt), api->basic_type->get_category(rt, bt), p ? api->basic_type->get_name(rt, p) : "-", api->basic_type->is_anon(rt, bt)); bstr(&b, t);
    int32_t k = api->basic_type->get_fields_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* f = api->basic_type->get_field_by_index(rt, bt, i);
      snprintf(t, sizeof t, "F %s %s dim=%d flag=%d cur=%s\n", api->field->get_name(rt, f), api->basic_type->get_name(rt, api->field->get_basic_type(rt, f)), api->field->get_type_dimension(rt, f), api->field->get_type_flag(rt, f), api->basic_type->get_name(rt, api->field->get_current_basic_type(rt, f))); bstr(&b, t); }
    k = api->basic_type->get_class_vars_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* f = api->basic_type->get_class_var_by_index(rt, bt, i);
      snprintf(t, sizeof t, "V %s %s dim=%d flag=%d\n", api->class_var->get_name(rt, f), api->basic_type->get_name(rt, api->class_var->get_basic_type(rt, f)), api->class_var->get_type_dimension(rt, f), api->class_var->get_type_flag(rt, f)); bstr(&b, t); }
    k = api->basic_type->get_methods_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* m = api->basic_type->get_method_by_index(rt, bt, i);
      snprintf(t, sizeof t, "M %s ret=%s dim=%d flag=%d args=%d req=%d cls=%d native=%d pre=%d enum=%d\n", api->method->get_name(rt, m), api->basic_type->get_name(rt, api->method->get_return_basic_type(rt, m)), api->method->get_return_type_dimension(rt, m), api->method->get_return_type_flag(rt, m), api->method->get_args_length(rt, m), api->method->get_required_args_length(rt, m), api->method->is_class_method(rt, m), api->method->is_native(rt, m), api->method->is_precompile(rt, m), api->method->is_enum(rt, m)); bstr(&b, t);
      int32_t an = api->method->get_args_length(rt, m);
      for (int32_t j = 0; j < an; j++) { void* a = api->method->get_arg_by_index(rt, m, j);
        snprintf(t, sizeof t, "A %s %s dim=%d flag=%d opt=%d idx=%d\n", api->arg->get_name(rt, a), api->basic_type->get_name(rt, api->arg->get_basic_type(rt, a)), api->arg->get_type_dimension(rt, a), api->arg->get_type_flag(rt, a), api->arg->is_optional(rt, a), api->arg->get_index(rt, a)); bstr(&b, t); } }
  }
  rep_begin(); rep_field(b.p, b.n); rep_end(); free(b.p);
}

// Everything the runtime API tells about the named classes; lookups by name and by index are compared here.
static void refl_reply(SPVM_ENV* boot, void* rt, int n, char** names) {
  SPVM_ENV_API* api = boot->api; Buf b = {0}; bput(&b, "", 0); char t[8192];
#define L(...) do { snprintf(t, sizeof t, __VA_ARGS__); bstr(&b, t); } while (0)
#define N0(x) ((x) ? (x) : "-")
  for (int c = 0; c < n; c++) {
    void* bt = api->runtime->get_basic_type_by_name(rt, names[c]);
    if (!bt) { L("U %s\n", names[c]); continue; }
    int32_t id = api->basic_type->get_id(rt, bt);
    void* p = api->basic_type->get_parent(rt, bt);
    L("T %s %d cat=%d ptr=%d anon=%d parent=%s version=%s dir=%s rel=%s file=%s\n", api->basic_type->get_name(rt, bt), api->runtime->get_basic_type_by_id(rt, id) == bt, api->basic_type->get_category(rt, bt),
      api->basic_type->is_pointer(rt, bt), api->basic_type->is_anon(rt, bt), p ? api->basic_type->get_name(rt, p) : "-", N0(api->basic_type->get_version_string(rt, bt)), N0(api->basic_type->get_class_dir(rt, bt)),
      N0(api->basic_type->get_class_rel_file(rt, bt)), N0(api->basic_type->get_file(rt, bt)));
    int32_t k = api->basic_type->get_fields_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* f = api->basic_type->get_field_by_index(rt, bt, i); const char* nm = api->field->get_name(rt, f);
      L("F %d %s %s dim=%d flag=%d off=%d cur=%s %d\n", api->field->get_index(rt, f), nm, api->basic_type->get_name(rt, api->field->get_basic_type(rt, f)), api->field->get_type_dimension(rt, f), api->field->get_type_flag(rt, f),
        api->field->get_offset(rt, f), api->basic_type->get_name(rt, api->field->get_current_basic_type(rt, f)), api->basic_type->get_field_by_name(rt, bt, nm) == f); }
    k = api->basic_type->get_class_vars_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* f = api->basic_type->get_class_var_by_index(rt, bt, i); const char* nm = api->class_var->get_name(rt, f);
      L("V %d %s %s dim=%d flag=%d cur=%s %d\n", api->class_var->get_index(rt, f), nm, api->basic_type->get_name(rt, api->class_var->get_basic_type(rt, f)), api->class_var->get_type_dimension(rt, f), api->class_var->get_type_flag(rt, f),
        api->basic_type->get_name(rt, api->class_var->get_current_basic_type(rt, f)), api->basic_type->get_class_var_by_name(rt, bt, nm) == f); }
    k = api->basic_type->get_methods_length(rt, bt);
    for (int32_t i = 0; i < k; i++) { void* m = api->basic_type->get_method_by_index(rt, bt, i); const char* nm = api->method->get_name(rt, m);
      L("M %d %s ret=%s dim=%d flag=%d args=%d req=%d cls=%d anon=%d native=%d pre=%d enum=%d cur=%s %d\n", api->method->get_index(rt, m), nm, api->basic_type->get_name(rt, api->method->get_return_basic_type(rt, m)), api->method->get_return_type_dimension(rt, m),
        api->method->get_return_type_flag(rt, m), api->method->get_args_length(rt, m), api->method->get_required_args_length(rt, m), api->method->is_class_method(rt, m), api->method->is_anon(rt, m), api->method->is_native(rt, m),
        api->method->is_precompile(rt, m), api->method->is_enum(rt, m), api->basic_type->get_name(rt, api->method->get_current_basic_type(rt, m)), api->basic_type->get_method_by_name(rt, bt, nm) == m);
      int32_t an = api->method->get_args_length(rt, m);
      for (int32_t j = 0; j < an; j++) { void* a = api->method->get_arg_by_index(rt, m, j); const char* ty = api->basic_type->get_name(rt, api->arg->get_basic_type(rt, a)); int32_t dim = api->arg->get_type_dimension(rt, a);
        char dv[64] = "-";
        if (api->arg->is_optional(rt, a)) { SPVM_VALUE v = api->arg->get_default_value(rt, a);
          if (dim) snprintf(dv, sizeof dv, "%s", v.oval ? "obj" : "undef");
          else if (!strcmp(ty, "byte")) snprintf(dv, sizeof dv, "%d", v.bval); else if (!strcmp(ty, "short")) snprintf(dv, sizeof dv, "%d", v.sval); else if (!strcmp(ty, "int")) snprintf(dv, sizeof dv, "%d", v.ival);
          else if (!strcmp(ty, "long")) snprintf(dv, sizeof dv, "%lld", (long long)v.lval); else if (!strcmp(ty, "float")) snprintf(dv, sizeof dv, "%a", v.fval); else if (!strcmp(ty, "double")) snprintf(dv, sizeof dv, "%a", v.dval);
          else snprintf(dv, sizeof dv, "%s", v.oval ? "obj" : "undef"); }
        L("A %d %s %s dim=%d flag=%d stack=%d opt=%d def=%s %d\n", api->arg->get_index(rt, a), api->arg->get_name(rt, a), ty, dim, api->arg->get_type_flag(rt, a), api->arg->get_stack_index(rt, a), api->arg->is_optional(rt, a), dv,
          api->arg->get_current_method(rt, a) == m); } }
    k = api->basic_type->get_anon_basic_types_length(rt, bt);
    for (int32_t i = 0; i < k; i++) L("N %s\n", api->basic_type->get_name(rt, api->basic_type->get_anon_basic_type_by_index(rt, bt, i)));
    for (int q = 0; q < n; q++) { void* o = api->runtime->get_basic_type_by_name(rt, names[q]); if (!o) continue;
      int32_t s = api->basic_type->is_super_class(rt, o, bt), h = api->basic_type->has_interface(rt, bt, o);
      if (s || h) L("R %s super=%d if=%d\n", names[q], s, h); }
    static const char* absent[] = {"", "nothing", "$nothing", "INIT2", "$", "a", "x", "$X", "f0", "m0"};
    for (int q = 0; q < 10; q++) { void* f = api->basic_type->get_field_by_name(rt, bt, absent[q]); void* v = api->basic_type->get_class_var_by_name(rt, bt, absent[q]); void* m = api->basic_type->get_method_by_name(rt, bt, absent[q]);
      if ((f && strcmp(api->field->get_name(rt, f), absent[q])) || (v && strcmp(api->class_var->get_name(rt, v), absent[q])) || (m && strcmp(api->method->get_name(rt, m), absent[q]))) L("W %s\n", absent[q]); }
  }
#undef L
  rep_begin(); rep_field(b.p, b.n); rep_end(); free(b.p);
}
