// Native methods of the class MCNat: the native API, callable from a program.
static char NB[1 << 16]; static int NBL;
static void np(const char* f, ...) { va_list a; va_start(a, f); NBL += vsnprintf(NB + NBL, sizeof NB - NBL, f, a); va_end(a); }
static const char* nstr(SPVM_ENV* env, SPVM_VALUE* stack, void* o) { return o ? env->get_chars(env, stack, o) : NULL; }
static int nret(SPVM_ENV* env, SPVM_VALUE* stack, int e) {
  if (e) {
    void* x = env->get_exception(env, stack);
    NBL = 0; np("E%s", e == env->get_basic_type_id_by_name(env, stack, "Error", &(int32_t){0}, __func__, __FILE__, __LINE__) ? "" : "?"); np(":%s", x ? env->get_chars(env, stack, x) : "(no exception)");
    char* nl = strchr(NB, '\n'); if (nl) *nl = 0, NBL = nl - NB;
    env->set_exception(env, stack, NULL);
  }
  stack[0].oval = env->new_string(env, stack, NB, NBL);
  return 0;
}
#define NTYPES(X) X(byte, int8_t, "%d") X(short, int16_t, "%d") X(int, int32_t, "%d") X(long, int64_t, "%" PRId64) X(float, float, "%a") X(double, double, "%a")
// getf(type, object, name), getc(type, class, name)
int32_t SPVM__MCNat__getf(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* t = nstr(env, stack, stack[0].oval); void* o = stack[1].oval; const char* n = nstr(env, stack, stack[2].oval); int32_t e = -7; NBL = 0;
#define X(T, C, F) if (!strcmp(t, #T)) { C v = env->get_field_##T##_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__); np(F, v); }
  NTYPES(X)
#undef X
  if (!strcmp(t, "object") || !strcmp(t, "string")) { void* v = *t == 'o' ? env->get_field_object_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__) : env->get_field_string_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__);
    if (!e) { if (!v) np("undef"); else if (env->is_string(env, stack, v)) np("\"%s\"", env->get_chars(env, stack, v)); else np("%s", env->get_chars(env, stack, env->get_type_name(env, stack, v))); } }
  if (!strcmp(t, "chars")) { const char* v = env->get_field_string_chars_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__); if (!e) { if (v) np("\"%s\"", v); else np("undef"); } }
  return nret(env, stack, e);
}
int32_t SPVM__MCNat__getc(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* t = nstr(env, stack, stack[0].oval); const char* o = nstr(env, stack, stack[1].oval); const char* n = nstr(env, stack, stack[2].oval); int32_t e = -7; NBL = 0;
#define X(T, C, F) if (!strcmp(t, #T)) { C v = env->get_class_var_##T##_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__); np(F, v); }
  NTYPES(X)
#undef X
  if (!strcmp(t, "object") || !strcmp(t, "string")) { void* v = *t == 'o' ? env->get_class_var_object_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__) : env->get_class_var_string_by_name(env, stack, o, n, &e, __func__, __FILE__, __LINE__);
    if (!e) { if (!v) np("undef"); else if (env->is_string(env, stack, v)) np("\"%s\"", env->get_chars(env, stack, v)); else np("%s", env->get_chars(env, stack, env->get_type_name(env, stack, v))); } }
  return nret(env, stack, e);
}
// setf(type, object, name, long, double, object), setc(type, class, name, long, double, object)
int32_t SPVM__MCNat__setf(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* t = nstr(env, stack, stack[0].oval); void* o = stack[1].oval; const char* n = nstr(env, stack, stack[2].oval); int64_t l = stack[3].lval; double d = stack[4].dval; void* v = stack[5].oval; int32_t e = -7; NBL = 0;
#define X(T, C, F) if (!strcmp(t, #T)) env->set_field_##T##_by_name(env, stack, o, n, #T[0] == 'f' || #T[0] == 'd' ? (C)d : (C)l, &e, __func__, __FILE__, __LINE__);
  NTYPES(X)
#undef X
  if (*t == 'o') env->set_field_object_by_name(env, stack, o, n, v, &e, __func__, __FILE__, __LINE__);
  if (!strcmp(t, "string")) env->set_field_string_by_name(env, stack, o, n, v, &e, __func__, __FILE__, __LINE__);
  np("ok"); return nret(env, stack, e);
}
int32_t SPVM__MCNat__setc(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* t = nstr(env, stack, stack[0].oval); const char* o = nstr(env, stack, stack[1].oval); const char* n = nstr(env, stack, stack[2].oval); int64_t l = stack[3].lval; double d = stack[4].dval; void* v = stack[5].oval; int32_t e = -7; NBL = 0;
#define X(T, C, F) if (!strcmp(t, #T)) env->set_class_var_##T##_by_name(env, stack, o, n, #T[0] == 'f' || #T[0] == 'd' ? (C)d : (C)l, &e, __func__, __FILE__, __LINE__);
  NTYPES(X)
#undef X
  if (*t == 'o') env->set_class_var_object_by_name(env, stack, o, n, v, &e, __func__, __FILE__, __LINE__);
  if (!strcmp(t, "string")) env->set_class_var_string_by_name(env, stack, o, n, v, &e, __func__, __FILE__, __LINE__);
  np("ok"); return nret(env, stack, e);
}
// direct access through the field or class variable found by name
int32_t SPVM__MCNat__direct(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* t = nstr(env, stack, stack[0].oval); void* o = stack[1].oval; const char* n = nstr(env, stack, stack[2].oval); int64_t l = stack[3].lval; double d = stack[4].dval; NBL = 0;
  void* f = n[0] == '$' ? env->get_class_var(env, stack, nstr(env, stack, stack[5].oval), n) : env->get_field(env, stack, o, n);
  if (!f) { np("none"); return nret(env, stack, 0); }
#define X(T, C, F) if (!strcmp(t, #T)) { C v = #T[0] == 'f' || #T[0] == 'd' ? (C)d : (C)l; C w; if (n[0] == '$') { env->set_class_var_##T(env, stack, f, v); w = env->get_class_var_##T(env, stack, f); } else { env->set_field_##T(env, stack, o, f, v); w = env->get_field_##T(env, stack, o, f); } np(F, w); }
  NTYPES(X)
#undef X
  return nret(env, stack, 0);
}
// what is known of an object: predicates, sizes, names
int32_t SPVM__MCNat__kind(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval; NBL = 0;
  np("%d%d%d%d%d%d%d", env->is_string(env, stack, o), env->is_class(env, stack, o), env->is_pointer_class(env, stack, o), env->is_array(env, stack, o), env->is_object_array(env, stack, o), env->is_numeric_array(env, stack, o), env->is_mulnum_array(env, stack, o));
  if (o) np(" %s %s %d %d %d", env->get_chars(env, stack, env->get_type_name(env, stack, o)), env->get_object_basic_type_name(env, stack, o), env->get_object_type_dimension(env, stack, o), env->length(env, stack, o), env->is_array(env, stack, o) ? env->get_elem_size(env, stack, o) : 0);
  return nret(env, stack, 0);
}
// isa(object, basic type name, dimension)
int32_t SPVM__MCNat__isa(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval; const char* n = nstr(env, stack, stack[1].oval); int d = stack[2].ival; NBL = 0;
  void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, n);
  np("%d%d", env->isa_by_name(env, stack, o, n, d), o && env->is_type_by_name(env, stack, o, n, d));
  if (bt) { np("%d", env->isa(env, stack, o, bt, d)); if (o) np("%d", env->is_type(env, stack, o, bt, d)); }
  return nret(env, stack, 0);
}
int32_t SPVM__MCNat__elem_isa(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = env->elem_isa(env, stack, stack[0].oval, stack[1].oval); return 0; }
int32_t SPVM__MCNat__ctn(SPVM_ENV* env, SPVM_VALUE* stack) { const char* n = nstr(env, stack, stack[0].oval); int d = stack[1].ival, f = stack[2].ival; stack[0].oval = env->get_compile_type_name(env, stack, n, d, f); return 0; }
// find(how, class, object, name): whether a method or field is found
int32_t SPVM__MCNat__find(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* c = nstr(env, stack, stack[0].oval); void* o = stack[1].oval; const char* n = nstr(env, stack, stack[2].oval); NBL = 0;
  void* v[4] = { env->get_method(env, stack, c, n), env->get_class_method(env, stack, c, n), env->get_instance_method_static(env, stack, c, n), o ? env->get_instance_method(env, stack, o, n) : NULL };
  for (int i = 0; i < 4; i++) np("%s ", v[i] ? env->api->basic_type->get_name(env->runtime, env->api->method->get_current_basic_type(env->runtime, v[i])) : "-");
  void* f = env->get_field_static(env, stack, c, n); void* g = o ? env->get_field(env, stack, o, n) : NULL;
  np("%d%d%d", !!f, !!g, !!env->get_class_var(env, stack, c, n));
  return nret(env, stack, 0);
}
// call(how, class, invocant, method, argument): how is c, s or i
int32_t SPVM__MCNat__call(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* h = nstr(env, stack, stack[0].oval); const char* c = nstr(env, stack, stack[1].oval); void* o = stack[2].oval; const char* n = nstr(env, stack, stack[3].oval); int a = stack[4].ival, w = stack[5].ival; int32_t e = -7; NBL = 0;
  if (*h == 'c') { stack[0].ival = a; env->call_class_method_by_name(env, stack, c, n, w, &e, __func__, __FILE__, __LINE__); }
  else {
    stack[0].oval = o; stack[1].ival = a;
    if (*h == 's') env->call_instance_method_static_by_name(env, stack, c, n, w + 1, &e, __func__, __FILE__, __LINE__);
    else env->call_instance_method_by_name(env, stack, n, w + 1, &e, __func__, __FILE__, __LINE__);
  }
  if (!e) np("%d", stack[0].ival);
  return nret(env, stack, e);
}
// arrays, strings: make(what, type, dimension, length)
int32_t SPVM__MCNat__make(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* h = nstr(env, stack, stack[0].oval); const char* c = nstr(env, stack, stack[1].oval); int d = stack[2].ival, l = stack[3].ival; int32_t e = 0; void* r = NULL; NBL = 0;
#define X(T, C, F) if (!strcmp(h, #T)) r = env->new_##T##_array(env, stack, l);
  NTYPES(X)
#undef X
  if (!strcmp(h, "object")) r = env->new_object_array_by_name(env, stack, c, l, &e, __func__, __FILE__, __LINE__);
  if (!strcmp(h, "mulnum")) r = env->new_mulnum_array_by_name(env, stack, c, l, &e, __func__, __FILE__, __LINE__);
  if (!strcmp(h, "muldim")) r = env->new_muldim_array_by_name(env, stack, c, d, l, &e, __func__, __FILE__, __LINE__);
  if (!strcmp(h, "string")) r = env->new_string_array(env, stack, l);
  if (!strcmp(h, "new")) r = env->new_object_by_name(env, stack, c, &e, __func__, __FILE__, __LINE__);
  if (e) { nret(env, stack, e); return 0; }
  stack[0].oval = r; return 0;
}
// elements through the native pointer
int32_t SPVM__MCNat__elems(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* a = stack[0].oval; int i = stack[1].ival; int64_t l = stack[2].lval; double d = stack[3].dval; NBL = 0;
  const char* t = env->get_object_basic_type_name(env, stack, a);
#define X(T, C, F) if (!strcmp(t, #T)) { C* p = env->get_elems_##T(env, stack, a); p[i] = #T[0] == 'f' || #T[0] == 'd' ? (C)d : (C)l; for (int k = 0; k < env->length(env, stack, a); k++) np(F ",", p[k]); }
  NTYPES(X)
#undef X
  return nret(env, stack, 0);
}
int32_t SPVM__MCNat__proto(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].oval = stack[2].ival ? env->new_array_proto_element(env, stack, stack[0].oval, stack[1].ival) : env->new_array_proto(env, stack, stack[0].oval, stack[1].ival); return 0; }
int32_t SPVM__MCNat__set_elem(SPVM_ENV* env, SPVM_VALUE* stack) { env->set_elem_object(env, stack, stack[0].oval, stack[1].ival, stack[2].oval); return 0; }
int32_t SPVM__MCNat__get_elem(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].oval = env->get_elem_object(env, stack, stack[0].oval, stack[1].ival); return 0; }
int32_t SPVM__MCNat__cut(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval; int l = stack[1].ival; NBL = 0; env->shorten(env, stack, o, l);
  if (o && env->is_string(env, stack, o)) { int k = env->length(env, stack, o); np("%d:", k); for (int i = 0; i <= k; i++) np("%02x", env->get_chars(env, stack, o)[i] & 255); }
  return nret(env, stack, 0);
}
int32_t SPVM__MCNat__ro(SPVM_ENV* env, SPVM_VALUE* stack) { void* o = stack[0].oval; int a = env->is_read_only(env, stack, o); env->make_read_only(env, stack, o); stack[0].ival = a * 2 + env->is_read_only(env, stack, o); return 0; }
int32_t SPVM__MCNat__cat(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].oval = env->concat(env, stack, stack[0].oval, stack[1].oval); return 0; }
int32_t SPVM__MCNat__str(SPVM_ENV* env, SPVM_VALUE* stack) { int l = stack[1].ival; void* o = stack[0].oval; stack[0].oval = l < 0 ? env->new_string_nolen(env, stack, env->get_chars(env, stack, o)) : env->new_string(env, stack, env->get_chars(env, stack, o), l); return 0; }
int32_t SPVM__MCNat__value(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval; const char* t = env->get_object_basic_type_name(env, stack, o); NBL = 0;
  if (!strcmp(t, "Bool")) np("%d", env->get_bool_object_value(env, stack, o));
  if (!strcmp(t, "Byte")) np("%d", env->get_byte_object_value(env, stack, o));
  if (!strcmp(t, "Short")) np("%d", env->get_short_object_value(env, stack, o));
  if (!strcmp(t, "Int")) np("%d", env->get_int_object_value(env, stack, o));
  if (!strcmp(t, "Long")) np("%" PRId64, env->get_long_object_value(env, stack, o));
  if (!strcmp(t, "Float")) np("%a", env->get_float_object_value(env, stack, o));
  if (!strcmp(t, "Double")) np("%a", env->get_double_object_value(env, stack, o));
  return nret(env, stack, 0);
}
// scope(program): a history of scopes, mortals, assignments and weak references; prints the number of live objects after each operation
int32_t SPVM__MCNat__scope(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* ps = stack[0].oval; char prog[64]; snprintf(prog, sizeof prog, "%s", env->get_chars(env, stack, ps));
  NBL = 0; char log[1024]; int ll = 0; int32_t tops[32], n = 0; void* cur = NULL; int32_t e = 0;
  void* g = env->get_class_var(env, stack, "NK", "$G"); void** gr = env->get_class_var_object_ref(env, stack, g); void* live = env->get_class_var(env, stack, "NK", "$LIVE");
  void* make = env->get_class_method(env, stack, "NK", "make"); void* fail = env->get_class_method(env, stack, "NK", "fail");
  tops[n++] = env->enter_scope(env, stack);
  for (char* p = prog; *p; p++) {
    void** link = *gr ? env->get_field_object_ref(env, stack, *gr, env->get_field(env, stack, *gr, "link")) : NULL;
    switch (*p) {
      case 'e': tops[n++] = env->enter_scope(env, stack); break;
      case 'l': env->leave_scope(env, stack, tops[--n]); break;
      case 'L': n -= 2; env->leave_scope(env, stack, tops[n]); break;
      case 'n': cur = env->new_object_by_name(env, stack, "NK", &e, __func__, __FILE__, __LINE__); env->set_class_var_int(env, stack, live, env->get_class_var_int(env, stack, live) + 1); break;
      case 'p': env->push_mortal(env, stack, cur); break;
      case 'g': env->assign_object(env, stack, gr, cur); break;
      case 'G': env->set_class_var_object(env, stack, g, cur); break;
      case 'c': env->assign_object(env, stack, gr, NULL); break;
      case 't': cur = *gr; break;
      case 'm': stack[0].ival = 3; e = env->call_method(env, stack, make, 1); if (!e) cur = stack[0].oval; break;
      case 'x': e = env->call_method(env, stack, fail, 0); ll += sprintf(log + ll, e && env->get_exception(env, stack) ? "!" : "?"); env->set_exception(env, stack, NULL); e = 0; break;
      case 'f': env->assign_object(env, stack, link, cur); break;
      case 'z': env->set_field_object(env, stack, *gr, env->get_field(env, stack, *gr, "link"), NULL); break;
      case 'w': env->weaken(env, stack, link); break;
      case 'u': env->unweaken(env, stack, link); break;
      case 'i': ll += sprintf(log + ll, "%d%d", !!*link, env->isweak(env, stack, link)); break;
    }
    ll += sprintf(log + ll, "%d,", env->get_class_var_int(env, stack, live));
    if (e) break;
  }
  env->assign_object(env, stack, gr, NULL);
  env->leave_scope(env, stack, tops[0]);
  ll += sprintf(log + ll, "%d", env->get_class_var_int(env, stack, live));
  np("%s", log);
  return nret(env, stack, e);
}
