// The NA class's native method: interprets a list of native API calls on a pool of objects (see lib/props/p24.py).
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include "spvm_native.h"

int32_t SPVM__VT__i(SPVM_ENV* env, SPVM_VALUE* stack);
int32_t SPVM__VT__o(SPVM_ENV* env, SPVM_VALUE* stack);

static const char* FILE_NAME = "vtapi.c";

#define NSLOT 12
#define X (__func__), FILE_NAME, __LINE__

static void tr(SPVM_ENV* env, SPVM_VALUE* stack, int64_t v) { SPVM_VALUE s0 = stack[0]; stack[0].lval = v; SPVM__VT__i(env, stack); stack[0] = s0; }
static void tro(SPVM_ENV* env, SPVM_VALUE* stack, void* o) { SPVM_VALUE s0 = stack[0]; stack[0].oval = o; SPVM__VT__o(env, stack); stack[0] = s0; }
static int64_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return (int64_t)u; }
static int64_t db(double d) { int64_t u; memcpy(&u, &d, 8); return u; }
static float bf(int64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static double bd(int64_t v) { double d; memcpy(&d, &v, 8); return d; }

// an error ID is traced as 1 with the first line of the exception's presence, then the exception is dropped
static void err(SPVM_ENV* env, SPVM_VALUE* stack, int32_t e) {
  tr(env, stack, e ? 1 : 0);
  if (e) {
    int32_t base = env->get_basic_type_id(env, stack, "Error");
    tr(env, stack, e == base);
    tr(env, stack, env->get_exception(env, stack) != NULL);
    env->set_exception(env, stack, NULL);
  }
}

int32_t SPVM__NA__run(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* ops_o = stack[0].oval; void* strs = stack[1].oval;
  int64_t* p = env->get_elems_long(env, stack, ops_o);
  int64_t* end = p + env->length(env, stack, ops_o);
  void* slot[NSLOT] = {0};
  void* blocks[8] = {0};
  int32_t scopes[64]; int32_t nsc = 0;
  int32_t n = 0, ret = 0;
#define A (*p++)
#define STR(i) (env->get_elem_string(env, stack, strs, (int32_t)(i)))
#define CH(i) (env->get_chars(env, stack, STR(i)))
#define PUT(k, o) env->assign_object(env, stack, &slot[k], (o))
#define T(v) tr(env, stack, (int64_t)(v))
#define BT(i) env->get_basic_type(env, stack, CH(i))
  while (p < end) {
    int32_t op = (int32_t)A;
    T(7770000 + n++);
    int32_t e = 0;
    switch (op) {
      case 1: { // numeric array: slot, type, length, no_mortal
        int64_t k = A, t = A, len = A, nm = A; void* o = NULL;
        switch (t) {
          case 0: o = nm ? env->new_byte_array_no_mortal(env, stack, len) : env->new_byte_array(env, stack, len); break;
          case 1: o = nm ? env->new_short_array_no_mortal(env, stack, len) : env->new_short_array(env, stack, len); break;
          case 2: o = nm ? env->new_int_array_no_mortal(env, stack, len) : env->new_int_array(env, stack, len); break;
          case 3: o = nm ? env->new_long_array_no_mortal(env, stack, len) : env->new_long_array(env, stack, len); break;
          case 4: o = nm ? env->new_float_array_no_mortal(env, stack, len) : env->new_float_array(env, stack, len); break;
          case 5: o = nm ? env->new_double_array_no_mortal(env, stack, len) : env->new_double_array(env, stack, len); break;
        }
        PUT(k, o); break;
      }
      case 2: { // string: slot, string, variant
        int64_t k = A, s = A, v = A; void* so = STR(s); const char* c = CH(s); int32_t len = env->length(env, stack, so); void* o = NULL;
        switch (v) {
          case 0: o = env->new_string(env, stack, c, len); break;
          case 1: o = env->new_string_no_mortal(env, stack, c, len); break;
          case 2: o = env->new_string_nolen(env, stack, c); break;
          case 3: o = env->new_string_nolen_no_mortal(env, stack, c); break;
          case 4: o = env->new_string(env, stack, NULL, len); break;
        }
        PUT(k, o); break;
      }
      case 3: { // object array: slot, type name, length, variant
        int64_t k = A, b = A, len = A, v = A; void* o = NULL;
        if (v == 2) { o = env->new_object_array_by_name(env, stack, CH(b), len, &e, X); err(env, stack, e); if (e) break; }
        else if (v == 3) o = env->new_string_array(env, stack, len);
        else o = v ? env->new_object_array_no_mortal(env, stack, BT(b), len) : env->new_object_array(env, stack, BT(b), len);
        PUT(k, o); break;
      }
      case 4: { // multi-dimensional array: slot, type name, dimension, length, variant
        int64_t k = A, b = A, d = A, len = A, v = A; void* o = NULL;
        if (v == 2) { o = env->new_muldim_array_by_name(env, stack, CH(b), d, len, &e, X); err(env, stack, e); if (e) break; }
        else o = v ? env->new_muldim_array_no_mortal(env, stack, BT(b), d, len) : env->new_muldim_array(env, stack, BT(b), d, len);
        PUT(k, o); break;
      }
      case 5: { // multi-numeric array: slot, type name, length, variant
        int64_t k = A, b = A, len = A, v = A; void* o = NULL;
        if (v == 2) { o = env->new_mulnum_array_by_name(env, stack, CH(b), len, &e, X); err(env, stack, e); if (e) break; }
        else o = v ? env->new_mulnum_array_no_mortal(env, stack, BT(b), len) : env->new_mulnum_array(env, stack, BT(b), len);
        PUT(k, o); break;
      }
      case 6: { // prototype array: slot, prototype, length, variant
        int64_t k = A, s = A, len = A, v = A; void* o = NULL;
        switch (v) {
          case 0: o = env->new_array_proto(env, stack, slot[s], len); break;
          case 1: o = env->new_array_proto_no_mortal(env, stack, slot[s], len); break;
          case 2: o = env->new_array_proto_element(env, stack, slot[s], len); break;
          case 3: o = env->new_array_proto_element_no_mortal(env, stack, slot[s], len); break;
        }
        T(o != NULL); PUT(k, o); break;
      }
      case 7: { // object: slot, class name, variant, id
        int64_t k = A, b = A, v = A, id = A; void* o = NULL;
        if (v == 2) { o = env->new_object_by_name(env, stack, CH(b), &e, X); err(env, stack, e); if (e) break; }
        else o = v ? env->new_object_no_mortal(env, stack, BT(b)) : env->new_object(env, stack, BT(b));
        PUT(k, o);
        env->set_field_int_by_name(env, stack, slot[k], "id", (int32_t)id, &e, X); err(env, stack, e); break;
      }
      case 8: { int64_t a = A, i = A, s = A, v = A; if (v) env->set_elem_string(env, stack, slot[a], i, slot[s]); else env->set_elem_object(env, stack, slot[a], i, slot[s]); break; }
      case 9: { int64_t k = A, a = A, i = A, v = A; PUT(k, v ? env->get_elem_string(env, stack, slot[a], i) : env->get_elem_object(env, stack, slot[a], i)); break; }
      case 10: { // numeric element: array, type, index, set?, bits
        int64_t a = A, t = A, i = A, w = A, b = A;
        switch (t) {
          case 0: { int8_t* q = env->get_elems_byte(env, stack, slot[a]); if (w) q[i] = (int8_t)b; else T(q[i]); break; }
          case 1: { int16_t* q = env->get_elems_short(env, stack, slot[a]); if (w) q[i] = (int16_t)b; else T(q[i]); break; }
          case 2: { int32_t* q = env->get_elems_int(env, stack, slot[a]); if (w) q[i] = (int32_t)b; else T(q[i]); break; }
          case 3: { int64_t* q = env->get_elems_long(env, stack, slot[a]); if (w) q[i] = (int64_t)b; else T(q[i]); break; }
          case 4: { float* q = env->get_elems_float(env, stack, slot[a]); if (w) q[i] = bf(b); else T(fb(q[i])); break; }
          case 5: { double* q = env->get_elems_double(env, stack, slot[a]); if (w) q[i] = bd(b); else T(db(q[i])); break; }
        }
        break;
      }
      case 11: { // everything the API says about an object's type
        void* o = slot[A];
        T(env->is_string(env, stack, o)); T(env->is_class(env, stack, o)); T(env->is_pointer_class(env, stack, o)); T(env->is_array(env, stack, o));
        T(env->is_object_array(env, stack, o)); T(env->is_numeric_array(env, stack, o)); T(env->is_mulnum_array(env, stack, o)); T(env->is_read_only(env, stack, o));
        if (o) {
          T(env->length(env, stack, o)); T(env->get_object_type_dimension(env, stack, o));
          int32_t sc = env->enter_scope(env, stack);
          tro(env, stack, env->get_type_name(env, stack, o));
          tro(env, stack, env->new_string_nolen(env, stack, env->get_object_basic_type_name(env, stack, o)));
          env->leave_scope(env, stack, sc);
          void* nm = env->get_type_name_no_mortal(env, stack, o); void* h = NULL; env->assign_object(env, stack, &h, nm); tro(env, stack, h); env->assign_object(env, stack, &h, NULL);
          T(env->get_basic_type_by_id(env, stack, env->get_object_basic_type_id(env, stack, o)) == env->get_object_basic_type(env, stack, o));
          T(env->get_basic_type_id(env, stack, env->get_object_basic_type_name(env, stack, o)) == env->get_object_basic_type_id(env, stack, o));
          if (env->is_array(env, stack, o)) T(env->get_elem_size(env, stack, o));
        }
        break;
      }
      case 12: { // isa: slot, type name, dimension
        int64_t s = A, b = A, d = A; void* bt = BT(b);
        T(env->isa_by_name(env, stack, slot[s], CH(b), d));
        T(slot[s] ? env->is_type_by_name(env, stack, slot[s], CH(b), d) : 0);
        T(bt ? env->isa(env, stack, slot[s], bt, d) : -1);
        T(bt && slot[s] ? env->is_type(env, stack, slot[s], bt, d) : -1);
        break;
      }
      case 13: { int64_t a = A, s = A; T(env->elem_isa(env, stack, slot[a], slot[s])); break; }
      case 14: { int64_t k = A, a = A, b = A, nm = A; PUT(k, nm ? env->concat_no_mortal(env, stack, slot[a], slot[b]) : env->concat(env, stack, slot[a], slot[b])); break; }
      case 15: { int64_t s = A, len = A; env->shorten(env, stack, slot[s], len); break; }
      case 16: { env->make_read_only(env, stack, slot[A]); break; }
      case 17: { int64_t k = A, s = A, nm = A; PUT(k, nm ? env->copy_no_mortal(env, stack, slot[s]) : env->copy(env, stack, slot[s])); break; }
      case 18: { // dump: slot, source, variant; traced as the length being positive (P17 judges the text)
        int64_t s = A, v = A; int32_t sc = env->enter_scope(env, stack);
        if (v == 0) T(env->length(env, stack, env->dump(env, stack, slot[s])) > 0);
        else if (v == 1) { void* h = NULL; env->assign_object(env, stack, &h, env->dump_no_mortal(env, stack, slot[s])); T(env->length(env, stack, h) > 0); env->assign_object(env, stack, &h, NULL); }
        else T(strlen(env->dumpc(env, stack, slot[s])) > 0);
        env->leave_scope(env, stack, sc); break;
      }
      case 19: { // get a numeric field by name: object, name, type
        int64_t s = A, f = A, t = A; int64_t v = 0; void* o = slot[s]; const char* c = CH(f);
        switch (t) {
          case 0: v = env->get_field_byte_by_name(env, stack, o, c, &e, X); break;
          case 1: v = env->get_field_short_by_name(env, stack, o, c, &e, X); break;
          case 2: v = env->get_field_int_by_name(env, stack, o, c, &e, X); break;
          case 3: v = env->get_field_long_by_name(env, stack, o, c, &e, X); break;
          case 4: v = fb(env->get_field_float_by_name(env, stack, o, c, &e, X)); break;
          case 5: v = db(env->get_field_double_by_name(env, stack, o, c, &e, X)); break;
        }
        err(env, stack, e); if (!e) T(v); break;
      }
      case 20: { // set a numeric field by name: object, name, type, bits
        int64_t s = A, f = A, t = A, b = A; void* o = slot[s]; const char* c = CH(f);
        switch (t) {
          case 0: env->set_field_byte_by_name(env, stack, o, c, (int8_t)b, &e, X); break;
          case 1: env->set_field_short_by_name(env, stack, o, c, (int16_t)b, &e, X); break;
          case 2: env->set_field_int_by_name(env, stack, o, c, (int32_t)b, &e, X); break;
          case 3: env->set_field_long_by_name(env, stack, o, c, b, &e, X); break;
          case 4: env->set_field_float_by_name(env, stack, o, c, bf(b), &e, X); break;
          case 5: env->set_field_double_by_name(env, stack, o, c, bd(b), &e, X); break;
        }
        err(env, stack, e); break;
      }
      case 21: { // numeric field through its field object: object, name, type, set?, bits
        int64_t s = A, f = A, t = A, w = A, b = A; void* o = slot[s]; void* fd = env->get_field(env, stack, o, CH(f));
        T(fd != NULL);
        T(env->get_field_static(env, stack, env->get_object_basic_type_name(env, stack, o), CH(f)) == fd);
        if (!fd) break;
        switch (t) {
          case 0: if (w) env->set_field_byte(env, stack, o, fd, (int8_t)b); else T(env->get_field_byte(env, stack, o, fd)); break;
          case 1: if (w) env->set_field_short(env, stack, o, fd, (int16_t)b); else T(env->get_field_short(env, stack, o, fd)); break;
          case 2: if (w) env->set_field_int(env, stack, o, fd, (int32_t)b); else T(env->get_field_int(env, stack, o, fd)); break;
          case 3: if (w) env->set_field_long(env, stack, o, fd, b); else T(env->get_field_long(env, stack, o, fd)); break;
          case 4: if (w) env->set_field_float(env, stack, o, fd, bf(b)); else T(fb(env->get_field_float(env, stack, o, fd))); break;
          case 5: if (w) env->set_field_double(env, stack, o, fd, bd(b)); else T(db(env->get_field_double(env, stack, o, fd))); break;
        }
        break;
      }
      case 22: { // object field: object, name, variant, slot (set)
        int64_t s = A, f = A, v = A, k = A; void* o = slot[s]; const char* c = CH(f);
        switch (v) {
          case 0: { void* r = env->get_field_object_by_name(env, stack, o, c, &e, X); err(env, stack, e); if (!e) PUT(k, r); break; }
          case 1: { void* r = env->get_field_string_by_name(env, stack, o, c, &e, X); err(env, stack, e); if (!e) PUT(k, r); break; }
          case 2: env->set_field_object_by_name(env, stack, o, c, slot[k], &e, X); err(env, stack, e); break;
          case 3: env->set_field_string_by_name(env, stack, o, c, slot[k], &e, X); err(env, stack, e); break;
          case 4: PUT(k, env->get_field_object(env, stack, o, env->get_field(env, stack, o, c))); break;
          case 5: env->set_field_object(env, stack, o, env->get_field(env, stack, o, c), slot[k]); break;
          case 6: { const char* r = env->get_field_string_chars_by_name(env, stack, o, c, &e, X); err(env, stack, e); if (!e) { int32_t sc = env->enter_scope(env, stack); tro(env, stack, r ? env->new_string_nolen(env, stack, r) : NULL); env->leave_scope(env, stack, sc); } break; }
          case 7: { void** r = env->get_field_object_ref_by_name(env, stack, o, c, &e, X); err(env, stack, e); if (!e) env->assign_object(env, stack, r, slot[k]); break; }
        }
        break;
      }
      case 23: { // class variable: class, name, type, set?, bits or slot
        int64_t b = A, f = A, t = A, w = A, v = A; const char* cn = CH(b); const char* c = CH(f); int64_t r = 0;
        switch (t) {
          case 0: if (w) env->set_class_var_byte_by_name(env, stack, cn, c, (int8_t)v, &e, X); else r = env->get_class_var_byte_by_name(env, stack, cn, c, &e, X); break;
          case 1: if (w) env->set_class_var_short_by_name(env, stack, cn, c, (int16_t)v, &e, X); else r = env->get_class_var_short_by_name(env, stack, cn, c, &e, X); break;
          case 2: if (w) env->set_class_var_int_by_name(env, stack, cn, c, (int32_t)v, &e, X); else r = env->get_class_var_int_by_name(env, stack, cn, c, &e, X); break;
          case 3: if (w) env->set_class_var_long_by_name(env, stack, cn, c, v, &e, X); else r = env->get_class_var_long_by_name(env, stack, cn, c, &e, X); break;
          case 4: if (w) env->set_class_var_float_by_name(env, stack, cn, c, bf(v), &e, X); else r = fb(env->get_class_var_float_by_name(env, stack, cn, c, &e, X)); break;
          case 5: if (w) env->set_class_var_double_by_name(env, stack, cn, c, bd(v), &e, X); else r = db(env->get_class_var_double_by_name(env, stack, cn, c, &e, X)); break;
          case 6: if (w) env->set_class_var_object_by_name(env, stack, cn, c, slot[v], &e, X); else { void* o = env->get_class_var_object_by_name(env, stack, cn, c, &e, X); if (!e) PUT(v, o); } break;
          case 7: if (w) env->set_class_var_string_by_name(env, stack, cn, c, slot[v], &e, X); else { void* o = env->get_class_var_string_by_name(env, stack, cn, c, &e, X); if (!e) PUT(v, o); } break;
        }
        err(env, stack, e); if (!e && !w && t < 6) T(r); break;
      }
      case 24: { // class variable through its object: class, name, type, set?, bits or slot
        int64_t b = A, f = A, t = A, w = A, v = A; void* cv = env->get_class_var(env, stack, CH(b), CH(f)); T(cv != NULL); if (!cv) break;
        switch (t) {
          case 0: if (w) env->set_class_var_byte(env, stack, cv, (int8_t)v); else T(env->get_class_var_byte(env, stack, cv)); break;
          case 1: if (w) env->set_class_var_short(env, stack, cv, (int16_t)v); else T(env->get_class_var_short(env, stack, cv)); break;
          case 2: if (w) env->set_class_var_int(env, stack, cv, (int32_t)v); else T(env->get_class_var_int(env, stack, cv)); break;
          case 3: if (w) env->set_class_var_long(env, stack, cv, v); else T(env->get_class_var_long(env, stack, cv)); break;
          case 4: if (w) env->set_class_var_float(env, stack, cv, bf(v)); else T(fb(env->get_class_var_float(env, stack, cv))); break;
          case 5: if (w) env->set_class_var_double(env, stack, cv, bd(v)); else T(db(env->get_class_var_double(env, stack, cv))); break;
          case 6: if (w) env->set_class_var_object(env, stack, cv, slot[v]); else PUT(v, env->get_class_var_object(env, stack, cv)); break;
          case 7: if (w) env->set_class_var_string(env, stack, cv, slot[v]); else PUT(v, env->get_class_var_string(env, stack, cv)); break;
        }
        break;
      }
      case 25: scopes[nsc++] = env->enter_scope(env, stack); break;
      case 26: env->leave_scope(env, stack, scopes[--nsc]); break;
      case 27: T(env->push_mortal(env, stack, slot[A]) == 0); break;
      case 28: { int64_t k = A, s = A; PUT(k, s < 0 ? NULL : slot[s]); break; }
      case 29: { // weak field: object, name, operation
        int64_t s = A, f = A, v = A; void** r = env->get_field_object_ref(env, stack, slot[s], env->get_field(env, stack, slot[s], CH(f)));
        if (v == 0) T(env->weaken(env, stack, r) == 0);
        else if (v == 1) T(env->isweak(env, stack, r));
        else env->unweaken(env, stack, r);
        break;
      }
      case 30: { // ND->calc(byte, int, long, double, float, short): a long
        int64_t b = A, i = A, l = A, d = A, f = A, h = A, v = A;
        stack[0].bval = (int8_t)b; stack[1].ival = (int32_t)i; stack[2].lval = l; stack[3].dval = bd(d); stack[4].fval = bf(f); stack[5].sval = (int16_t)h;
        if (v) { void* m = env->get_class_method(env, stack, "ND", "calc"); e = env->call_method(env, stack, m, 6); }
        else env->call_class_method_by_name(env, stack, "ND", "calc", 6, &e, X);
        int64_t r = stack[0].lval; err(env, stack, e); if (!e) T(r); break;
      }
      case 31: { // class method object -> object: slot, class, method, argument slot, variant
        int64_t k = A, b = A, m = A, s = A, v = A; stack[0].oval = slot[s]; const char* cn = CH(b); const char* mn = CH(m);
        void* r = NULL;
        if (v == 0) { env->call_class_method_by_name(env, stack, cn, mn, 1, &e, X); r = stack[0].oval; err(env, stack, e); if (!e) PUT(k, r); }
        else {
          void* me = env->get_class_method(env, stack, cn, mn); T(me != NULL); if (!me) break;
          e = v == 1 ? env->call_method(env, stack, me, 1) : env->call_method_no_mortal(env, stack, me, 1); r = stack[0].oval; err(env, stack, e); if (!e) PUT(k, r);
        }
        break;
      }
      case 32: { // instance method -> int: object, method, class (static) or -1, variant
        int64_t s = A, m = A, b = A, v = A; stack[0].oval = slot[s]; const char* mn = CH(m);
        if (b >= 0) {
          if (v) { void* me = env->get_instance_method_static(env, stack, CH(b), mn); T(me != NULL); if (!me) break; e = env->call_method(env, stack, me, 1); }
          else env->call_instance_method_static_by_name(env, stack, CH(b), mn, 1, &e, X);
        }
        else if (v) { void* me = env->get_instance_method(env, stack, slot[s], mn); T(me != NULL); if (!me) break; stack[0].oval = slot[s]; e = env->call_method(env, stack, me, 1); }
        else env->call_instance_method_by_name(env, stack, mn, 1, &e, X);
        int32_t r = stack[0].ival; err(env, stack, e); if (!e) T(r); break;
      }
      case 33: { // exceptions: kind, slot
        int64_t v = A, s = A;
        if (v == 0) env->set_exception(env, stack, slot[s]);
        else if (v == 1) PUT(s, env->get_exception(env, stack));
        else if (v == 2) { e = env->die(env, stack, "n=%d s=%s", (int32_t)s, "abc", X); T(e == env->get_basic_type_id(env, stack, "Error")); }
        else env->set_exception(env, stack, NULL);
        break;
      }
      case 34: { // a method that throws: class, method, then what it left is put into a slot
        int64_t b = A, m = A, s = A; stack[0].oval = NULL; env->call_class_method_by_name(env, stack, CH(b), CH(m), 1, &e, X);
        T(e == env->get_basic_type_id(env, stack, "Error") ? 1 : e == env->get_basic_type_id(env, stack, "NErr") ? 2 : e ? 3 : 0);
        PUT(s, env->get_exception(env, stack)); env->set_exception(env, stack, NULL); break;
      }
      case 35: { // memory blocks: index, size
        int64_t i = A, size = A; int32_t c = env->get_memory_blocks_count(env, stack);
        if (blocks[i]) { env->free_memory_block(env, stack, blocks[i]); blocks[i] = NULL; T(env->get_memory_blocks_count(env, stack) - c); }
        else {
          uint8_t* q = env->new_memory_block(env, stack, size); blocks[i] = q; T(q != NULL); T(env->get_memory_blocks_count(env, stack) - c);
          if (q) { int ok = 1; for (int64_t j = 0; j < size; j++) { if (q[j]) ok = 0; q[j] = (uint8_t)(i + j); } T(ok); }
        }
        break;
      }
      case 36: { int64_t x = A; const char* c = env->strerror_nolen(env, stack, x); const char* d = env->strerror(env, stack, x, 0); int32_t sc = env->enter_scope(env, stack); tro(env, stack, env->new_string_nolen(env, stack, c)); T(strcmp(c, d)); tro(env, stack, env->strerror_string(env, stack, x, 0)); env->leave_scope(env, stack, sc); break; }
      case 37: tro(env, stack, slot[A]); break;
      case 38: { // a second runtime stack
        SPVM_VALUE* st2 = env->new_stack(env); int32_t sc2 = env->enter_scope(env, st2); st2[0].oval = slot[A]; env->call_class_method_by_name(env, st2, "ND", "echo", 1, &e, X); int same = st2[0].oval == slot[p[-1]]; T(e); T(same);
        st2[0].oval = NULL; env->call_class_method_by_name(env, st2, "ND", "boom", 1, &e, X); T(e != 0); T(env->get_exception(env, st2) != NULL); T(env->get_exception(env, stack) != NULL);
        env->leave_scope(env, st2, sc2); env->free_stack(env, st2); break;
      }
      case 39: { // pointer object: slot, value, variant
        int64_t k = A, v = A, w = A; void* o;
        if (w == 0) o = env->new_pointer_object(env, stack, env->get_basic_type(env, stack, "NP"), (void*)(intptr_t)v);
        else if (w == 1) o = env->new_pointer_object_no_mortal(env, stack, env->get_basic_type(env, stack, "NP"), (void*)(intptr_t)v);
        else { o = env->new_pointer_object_by_name(env, stack, w == 3 ? "ND" : "NP", (void*)(intptr_t)v, &e, X); if (w == 3) break; }
        PUT(k, o); T((intptr_t)env->get_pointer(env, stack, slot[k])); break;
      }
      case 40: { int64_t s = A, v = A; env->set_pointer(env, stack, slot[s], (void*)(intptr_t)v); T((intptr_t)env->get_pointer(env, stack, slot[s])); break; }
      case 41: { int32_t c = 0; T(env->get_basic_type(env, stack, CH(A)) != NULL); int64_t b = p[-1]; env->get_basic_type_by_name(env, stack, CH(b), &e, X); err(env, stack, e); T(env->get_basic_type_id(env, stack, CH(b)) >= 0); env->get_basic_type_id_by_name(env, stack, CH(b), &e, X); err(env, stack, e); (void)c; break; }
      case 42: { // compile-time type name: name, dimension, flag
        int64_t b = A, d = A, fl = A; int32_t sc = env->enter_scope(env, stack); tro(env, stack, env->get_compile_type_name(env, stack, CH(b), d, fl)); env->leave_scope(env, stack, sc); break;
      }
      case 43: { // ends the method with an exception
        int64_t s = A; ret = env->die(env, stack, "end %d", (int32_t)s, X); p = end; break;
      }
      case 44: { // a box: slot, type, bits: the value through the object value functions
        int64_t t = A, b = A; void* o;
        static const char* N[] = {"Byte", "Short", "Int", "Long", "Float", "Double", "Bool"};
        int32_t sc = env->enter_scope(env, stack);
        switch (t) { case 0: stack[0].ival = (int8_t)b; break; case 1: stack[0].ival = (int16_t)b; break; case 2: stack[0].ival = (int32_t)b; break; case 3: stack[0].lval = b; break; case 4: stack[0].fval = bf(b); break; case 5: stack[0].dval = bd(b); break; }
        env->call_class_method_by_name(env, stack, N[t], "new", 1, &e, X); o = stack[0].oval; err(env, stack, e);
        if (!e) switch (t) {
          case 0: T(env->get_byte_object_value(env, stack, o)); break; case 1: T(env->get_short_object_value(env, stack, o)); break; case 2: T(env->get_int_object_value(env, stack, o)); break;
          case 3: T(env->get_long_object_value(env, stack, o)); break; case 4: T(fb(env->get_float_object_value(env, stack, o))); break; case 5: T(db(env->get_double_object_value(env, stack, o))); break;
        }
        env->leave_scope(env, stack, sc); break;
      }
      case 45: { int64_t k = A, s = A, f = A; void* r = env->get_field_object_defined_and_has_pointer_by_name(env, stack, slot[s], CH(f), &e, X); err(env, stack, e); if (!e) PUT(k, r); break; }
      case 46: { // versions: class name
        void* bt = BT(A); const char* v = env->get_version_string(env, stack, bt); int32_t sc = env->enter_scope(env, stack);
        tro(env, stack, v ? env->new_string_nolen(env, stack, v) : NULL); env->leave_scope(env, stack, sc); T(db(env->get_version_number(env, stack, bt))); break;
      }
      case 47: { // a field or a class variable through its field object, as a string: object, name, set?, slot
        int64_t s = A, f = A, w = A, k = A; void* fd = env->get_field(env, stack, slot[s], CH(f));
        if (w) env->set_field_string(env, stack, slot[s], fd, slot[k]); else PUT(k, env->get_field_string(env, stack, slot[s], fd)); break;
      }
      case 48: { // methods: class, method: found, a class method, an instance method
        int64_t b = A, m = A; T(env->get_method(env, stack, CH(b), CH(m)) != NULL); T(env->get_class_method(env, stack, CH(b), CH(m)) != NULL); T(env->get_instance_method_static(env, stack, CH(b), CH(m)) != NULL); break;
      }
      case 49: { // a reference to a class variable: class, name, slot, weak operation
        int64_t b = A, f = A, k = A; void** r = env->get_class_var_object_ref(env, stack, env->get_class_var(env, stack, CH(b), CH(f))); env->assign_object(env, stack, r, slot[k]); T(env->isweak(env, stack, r)); break;
      }
      case 50: { // an object that is not freed: slot, flag
        int64_t s = A; T(env->no_free(env, stack, slot[s])); T(env->is_binary_compatible_object(env, stack, slot[s])); T(env->is_binary_compatible_stack(env, stack)); T(env->args_width(env, stack)); break;
      }
      case 51: { // many temporary objects: count
        int64_t n = A; for (int64_t i = 0; i < n; i++) { if (!env->new_byte_array(env, stack, 1)) T(-1); } T(n); break;
      }
      default: fprintf(stderr, "vtapi: op %d\n", op); abort();
    }
  }
  T(7779999);
  for (int i = 0; i < 8; i++) if (blocks[i]) env->free_memory_block(env, stack, blocks[i]);
  for (int i = 0; i < NSLOT; i++) PUT(i, NULL);
  stack[0].ival = 3;
  return ret;
}
