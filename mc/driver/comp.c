// Explores every sequence of compilations on one compiler: each node of the tree is a fork of its parent.
// usage: comp DEPTH FIRST(-1 all) JOBS LIVE incdir...      JOBS: lines "c NAME", "a SOURCE" or "d INCLUDE-DIR"
#define main mcrun_main
#include "mcrun.c"
#undef main
#include "spvm_opcode.h"

static char* jobs[256]; static int njobs, depth, show_dump;
static SPVM_ENV* boot; static void* comp; static SPVM_ENV* env; static SPVM_VALUE* stack; static int base; static char skip[256];
static char path[256];

static void pf(const char* f, ...) { char b[1024]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); tput(b, n < 1024 ? n : 1023); }

static void dump(void* rt) {
  SPVM_API_BASIC_TYPE* B = boot->api->basic_type; SPVM_API_METHOD* M = boot->api->method;
  int n = boot->api->runtime->get_basic_types_length(rt);
  for (int i = 0; i < n; i++) {
    void* bt = boot->api->runtime->get_basic_type_by_id(rt, i);
    if (!bt) { pf("%d none\n", i); continue; }
    void* p = B->get_parent(rt, bt);
    const char* name = B->get_name(rt, bt);
    void* again = boot->api->runtime->get_basic_type_by_name(rt, name);
    pf("%d %s %d %d %s %s anon%d same%d an%d cf%d\n", i, name, B->get_id(rt, bt), B->get_category(rt, bt), p ? B->get_name(rt, p) : "-", B->get_version_string(rt, bt) ? B->get_version_string(rt, bt) : "-",
      B->is_anon(rt, bt), again == bt, B->get_anon_basic_types_length(rt, bt), boot->api->compiler->get_class_file(comp, name) != NULL);
    for (int j = 0; j < B->get_class_vars_length(rt, bt); j++) { void* v = B->get_class_var_by_index(rt, bt, j); void* t = boot->api->class_var->get_basic_type(rt, v); pf(" v %s %s %d\n", boot->api->class_var->get_name(rt, v), B->get_name(rt, t), boot->api->class_var->get_type_dimension(rt, v)); }
    for (int j = 0; j < B->get_fields_length(rt, bt); j++) { void* v = B->get_field_by_index(rt, bt, j); void* t = boot->api->field->get_basic_type(rt, v); pf(" f %s %s %d %d\n", boot->api->field->get_name(rt, v), B->get_name(rt, t), boot->api->field->get_type_dimension(rt, v), boot->api->field->get_offset(rt, v)); }
    for (int j = 0; j < B->get_methods_length(rt, bt); j++) {
      void* m = B->get_method_by_index(rt, bt, j); void* t = M->get_return_basic_type(rt, m); int k = M->get_opcodes_length(rt, m);
      pf(" m %s %s %d %d", M->get_name(rt, m), t ? B->get_name(rt, t) : "-", M->get_args_length(rt, m), k);
      uint64_t h = 14695981039346656037ULL;
      for (int q = 0; q < k; q++) { unsigned char* o = boot->api->method->get_opcode_by_index(rt, m, q); if (o) for (size_t z = 0; z < sizeof(SPVM_OPCODE); z++) h = (h ^ o[z]) * 1099511628211ULL; }
      pf(" %016llx\n", (unsigned long long)h);
    }
  }
}

static int perform(int j, const char** an) {
  if (jobs[j][0] == 'd') { boot->api->compiler->add_include_dir(comp, jobs[j] + 2); return 0; }
  return jobs[j][0] == 'a' ? boot->api->compiler->compile_anon_class(comp, jobs[j] + 2, an) : boot->api->compiler->compile(comp, jobs[j] + 2);
}
static void node(int d, int first);
static void visit(int d, int j) {
  char* keep = strdup(path);
  snprintf(path + strlen(path), sizeof path - strlen(path), "%s%d", *path ? "," : "", j);
  cur = path;
  alarm(60);
  printf("N %s ", path);
  TL = 0; tput("", 0);
  const char* an = NULL;
  int e = perform(j, &an);
  printf("%d ", e);
  int n = jobs[j][0] == 'd' ? 0 : boot->api->compiler->get_error_messages_length(comp);
  for (int i = 0; i < n; i++) { const char* m = boot->api->compiler->get_error_message(comp, i); tesc(m, strlen(m)); tput(";", 1); }
  if (an) { tesc(an, strlen(an)); }
  printf("%s ", TL ? T : "-");
  void* rt = boot->api->compiler->get_runtime(comp);
  TL = 0; tput("", 0);
  if (rt && !env && !e) { env = boot->new_env(); env->runtime = rt; stack = env->new_stack(env); base = env->get_memory_blocks_count(env, stack); }
  if (env) {
    bind_natives(env);
    // INIT of the new classes and the value of every class of the alphabet that exists
    if (!e) { int x = env->call_init_methods(env, stack); if (x) pf("INIT-ERROR;"); }
    for (int i = 0; i < njobs; i++) {
      if (jobs[i][0] != 'c') continue;
      void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, jobs[i] + 2);
      if (!bt) continue;
      void* me = env->api->basic_type->get_method_by_name(env->runtime, bt, "value");
      if (!me) continue;
      int scope = env->enter_scope(env, stack);
      stack[0].ival = -77;
      int x = env->call_method(env, stack, me, 0);
      pf("%d=", i);
      if (x) pf("e%d", x);
      else if (!stack[0].oval) pf("undef");
      else tesc(env->get_chars(env, stack, stack[0].oval), env->length(env, stack, stack[0].oval));
      pf(";");
      env->leave_scope(env, stack, scope);
    }
    if (an) {
      void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, an);
      void* me = bt ? env->api->basic_type->get_method_by_name(env->runtime, bt, "value") : NULL;
      if (me) { int scope = env->enter_scope(env, stack); int x = env->call_method(env, stack, me, 0); pf("anon="); if (x || !stack[0].oval) pf("e%d", x); else tesc(env->get_chars(env, stack, stack[0].oval), env->length(env, stack, stack[0].oval)); env->leave_scope(env, stack, scope); }
    }
    pf("m%d", env->get_memory_blocks_count(env, stack));
  }
  printf("%s ", TL ? T : "-");
  TL = 0; tput("", 0);
  if (rt) dump(rt);
  uint64_t h = 14695981039346656037ULL;
  for (size_t i = 0; i < TL; i++) h = (h ^ (unsigned char)T[i]) * 1099511628211ULL;
  printf("%016llx\n", rt ? (unsigned long long)h : 0ULL);
  if (show_dump) fputs(T, stdout);
  fflush(stdout);
  node(d + 1, -1);
  // the end of this history
  int left = 0;
  if (env) { env->destroy_class_vars(env, stack); left = env->get_memory_blocks_count(env, stack) - base; env->free_stack(env, stack); env->free_env(env); }
  boot->api->compiler->free_instance(comp); boot->free_env(boot);
  printf("E %s %d\n", path, left); fflush(stdout);
  strcpy(path, keep);
}
static void node(int d, int first) {
  if (d >= depth) return;
  for (int j = 0; j < njobs; j++) {
    if (first >= 0 ? j != first : skip[j]) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { visit(d, j); fflush(stdout); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (st) { printf("\nX %s%s%d %d\n", path, *path ? "," : "", j, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); fflush(stdout); }
  }
}
int main(int argc, char** argv) {
  depth = atoi(argv[1]); int first = atoi(argv[2]);
  FILE* f = fopen(argv[3], "r"); char* line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { if (line[n - 1] == '\n') line[--n] = 0; jobs[njobs++] = strdup(line); }
  fclose(f);
  if (getenv("MC_ONLY")) { memset(skip, 1, sizeof skip); for (char* t = strtok(getenv("MC_ONLY"), ","); t; t = strtok(NULL, ",")) skip[atoi(t)] = 0; }
  signal(SIGALRM, on_alarm);
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  boot = SPVM_NATIVE_new_env(); comp = boot->api->compiler->new_instance();
  for (int i = 5; i < argc; i++) boot->api->compiler->add_include_dir(comp, argv[i]);
  boot->api->compiler->set_start_file(comp, "comp"); boot->api->compiler->set_start_line(comp, 1);
  const char* pre = argv[4];
  // a history given as "1,2,3" is run alone, with its dumps
  if (strcmp(pre, "-")) {
    show_dump = 1; depth = 0; char* s = strdup(pre);
    for (char* t = strtok(s, ","); t; t = strtok(NULL, ",")) {
      int j = atoi(t); const char* an = NULL;
      int e = perform(j, &an);
      printf("compile %s -> %d\n", jobs[j], e);
      int k = boot->api->compiler->get_error_messages_length(comp); for (int i = 0; i < k; i++) printf("   %s\n", boot->api->compiler->get_error_message(comp, i));
      TL = 0; tput("", 0); void* rt = boot->api->compiler->get_runtime(comp); if (rt) dump(rt); fputs(T, stdout);
    }
    return 0;
  }
  node(0, first);
  return 0;
}
