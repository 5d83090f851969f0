// Compiles an SPVM class from source with the SPVM core this file is linked
// against and runs its methods t<N>, one record per method on stdout.
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <math.h>
#include <sys/wait.h>
#include "spvm_native.h"

static char* T; static size_t TL, TC;
static void tput(const char* s, size_t n) {
  if (TL + n + 1 > TC) { TC = (TL + n + 1) * 2; T = realloc(T, TC); }
  memcpy(T + TL, s, n); TL += n; T[TL] = 0;
}
static void tesc(const char* s, size_t n) {
  static const char hex[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c > 0x20 && c < 0x7f && c != '\\' && c != '%' && c != ';') tput((char*)&s[i], 1);
    else { char b[3] = {'%', hex[c >> 4], hex[c & 15]}; tput(b, 3); }
  }
}

int32_t SPVM__MCLog__s(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval;
  if (!o) { tput("U;", 2); return 0; }
  tput("s", 1); tesc(env->get_chars(env, stack, o), env->length(env, stack, o));
  tput(";", 1);
  return 0;
}
int32_t SPVM__MCLog__i(SPVM_ENV* env, SPVM_VALUE* stack) { char b[40]; int n = sprintf(b, "%d;", stack[0].ival); tput(b, n); return 0; }
int32_t SPVM__MCLog__l(SPVM_ENV* env, SPVM_VALUE* stack) { char b[40]; int n = sprintf(b, "%" PRId64 ";", stack[0].lval); tput(b, n); return 0; }
int32_t SPVM__MCLog__f(SPVM_ENV* env, SPVM_VALUE* stack) { char b[40]; uint32_t u; float v = stack[0].fval; memcpy(&u, &v, 4); int n = isnan(v) ? sprintf(b, "fnan;") : sprintf(b, "f%08x;", u); tput(b, n); return 0; }
int32_t SPVM__MCLog__d(SPVM_ENV* env, SPVM_VALUE* stack) { char b[40]; uint64_t u; double v = stack[0].dval; memcpy(&u, &v, 8); int n = isnan(v) ? sprintf(b, "dnan;") : sprintf(b, "d%016" PRIx64 ";", u); tput(b, n); return 0; }
// A generic view of an object: its type and its content
static void show(SPVM_ENV* env, SPVM_VALUE* stack, void* o, int depth) {
  if (!o) { tput("U", 1); return; }
  int32_t scope = env->enter_scope(env, stack);
  void* tn = env->get_type_name(env, stack, o);
  const char* t = env->get_chars(env, stack, tn);
  char type[256]; snprintf(type, sizeof type, "%s", t);
  env->leave_scope(env, stack, scope);
  tput(type, strlen(type)); tput("<", 1);
  char b[64];
  if (env->is_string(env, stack, o)) tesc(env->get_chars(env, stack, o), env->length(env, stack, o));
  else if (env->is_object_array(env, stack, o)) {
    int n = env->length(env, stack, o);
    for (int i = 0; i < n; i++) { if (i) tput(",", 1); if (depth < 4) show(env, stack, env->get_elem_object(env, stack, o, i), depth + 1); else tput("...", 3); }
  }
  else if (env->is_array(env, stack, o)) {
    int n = env->length(env, stack, o), es = env->get_elem_size(env, stack, o);
    unsigned char* p = (unsigned char*)env->get_elems_byte(env, stack, o);
    if (!p) p = (unsigned char*)o + env->api->runtime->get_object_data_offset(env->runtime);
    for (int i = 0; i < n; i++) {
      if (i) tput(",", 1);
      int k;
      if (!strncmp(type, "byte[", 5)) k = sprintf(b, "%d", ((int8_t*)p)[i]);
      else if (!strncmp(type, "short[", 6)) k = sprintf(b, "%d", ((int16_t*)p)[i]);
      else if (!strncmp(type, "int[", 4)) k = sprintf(b, "%d", ((int32_t*)p)[i]);
      else if (!strncmp(type, "long[", 5)) k = sprintf(b, "%" PRId64, ((int64_t*)p)[i]);
      else if (!strncmp(type, "float[", 6)) { uint32_t u; memcpy(&u, p + 4 * i, 4); k = sprintf(b, isnan(((float*)p)[i]) ? "nan" : "%08x", u); }
      else if (!strncmp(type, "double[", 7)) { uint64_t u; memcpy(&u, p + 8 * i, 8); k = sprintf(b, isnan(((double*)p)[i]) ? "nan" : "%016" PRIx64, u); }
      else { for (int j = 0; j < es; j++) { int m = sprintf(b, "%02x", p[i * es + j]); tput(b, m); } k = 0; }
      tput(b, k);
    }
  }
  tput(">", 1);
}
int32_t SPVM__MCLog__o(SPVM_ENV* env, SPVM_VALUE* stack) { show(env, stack, stack[0].oval, 0); tput(";", 1); return 0; }
int32_t SPVM__MCLog__ex(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* e = env->get_exception(env, stack);
  if (!e) tput("U;", 2);
  else { tput("s", 1); tesc(env->get_chars(env, stack, e), env->length(env, stack, e)); tput(";", 1); }
  return 0;
}
int32_t SPVM__MCLog__mem(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = env->get_memory_blocks_count(env, stack); return 0; }
int32_t SPVM__MCLog__rc(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = stack[0].oval ? env->api->internal->get_ref_count(env, stack, stack[0].oval) : -1; return 0; }

static const char* cur = "(setup)";
static void on_alarm(int sig) {
  fflush(stdout); const char* m = "\nTIMEOUT "; if (write(1, m, strlen(m)) && write(1, cur, strlen(cur)) && write(1, "\n", 1)) {} _exit(97);
}
static volatile int in_seq;
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death(void) {
  static int once; if (once++) return;
  if (in_seq) printf("\nCRASH %d\n", in_seq - 1);
  fflush(stdout);
}
static void on_sig(int sig) { on_death(); _exit(98); }
static void cname(char* out, const char* a) { while (*a) { *out++ = *a == ':' ? '_' : *a; a++; } *out = 0; }

static void bind_natives(SPVM_ENV* env) {
  void* rt = env->runtime;
  int n = env->api->runtime->get_basic_types_length(rt);
  for (int i = 0; i < n; i++) {
    void* bt = env->api->runtime->get_basic_type_by_id(rt, i);
    if (!bt) continue;
    int m = env->api->basic_type->get_methods_length(rt, bt);
    for (int j = 0; j < m; j++) {
      void* me = env->api->basic_type->get_method_by_index(rt, bt, j);
      if (env->api->method->is_native(rt, me) && !env->api->method->get_native_address(rt, me)) {
        char c[512], s[1024]; cname(c, env->api->basic_type->get_name(rt, bt));
        snprintf(s, sizeof s, "SPVM__%s__%s", c, env->api->method->get_name(rt, me));
        void* a = dlsym(RTLD_DEFAULT, s);
        if (a) env->api->method->set_native_address(rt, me, a);
      }
      if (env->api->method->is_precompile(rt, me)) env->api->method->set_is_precompile_fallback(rt, me, 1);
    }
  }
}

// Builds the C source of every class that has a precompile method, compiles and loads it
static int bind_precompile(SPVM_ENV* env, const char* dir, const char* only, const char* cc) {
  void* rt = env->runtime;
  int n = env->api->runtime->get_basic_types_length(rt), count = 0;
  void* alloc = env->api->allocator->new_instance();
  static void* handles[512]; static void* bts[512]; int h = 0;
  char names[512][320];
  pid_t pids[512];
  for (int i = 0; i < n && h < 512; i++) {
    void* bt = env->api->runtime->get_basic_type_by_id(rt, i);
    if (!bt || env->api->basic_type->is_anon(rt, bt)) continue;
    const char* name = env->api->basic_type->get_name(rt, bt);
    if (only && only[0] == '!' ? !strcmp(only + 1, name) : only && strcmp(only, "*") && strcmp(only, name)) continue;
    int m = env->api->basic_type->get_methods_length(rt, bt), any = 0;
    for (int j = 0; j < m; j++) if (env->api->method->is_precompile(rt, env->api->basic_type->get_method_by_index(rt, bt, j))) any = 1;
    int an = env->api->basic_type->get_anon_basic_types_length(rt, bt);
    for (int k = 0; k < an; k++) {
      void* ab = env->api->basic_type->get_anon_basic_type_by_index(rt, bt, k);
      if (env->api->method->is_precompile(rt, env->api->basic_type->get_method_by_index(rt, ab, 0))) any = 1;
    }
    if (!any) continue;
    void* sb = env->api->string_buffer->new_instance(alloc, 1000000);
    env->api->runtime->build_precompile_class_source(rt, sb, bt);
    char c[256]; cname(c, name);
    char path[320]; snprintf(path, sizeof path, "%s/%s.%d.c", dir, c, (int)getpid());
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fwrite(env->api->string_buffer->get_string(sb), 1, env->api->string_buffer->get_length(sb), f); fclose(f);
    env->api->string_buffer->free_instance(sb);
    snprintf(names[h], sizeof names[h], "%s/%s.%d.so", dir, c, (int)getpid());
    pids[h] = fork();
    if (pids[h] == 0) {
      char cmd[2048]; snprintf(cmd, sizeof cmd, "%s -w -shared -fPIC -o %s %s", cc, names[h], path);
      execl("/bin/sh", "sh", "-c", cmd, (char*)0); _exit(127);
    }
    bts[h] = bt; h++;
  }
  for (int i = 0; i < h; i++) {
    int st; waitpid(pids[i], &st, 0);
    if (st) { printf("PRECOMPILE-CC-FAILED %s\n", names[i]); fflush(stdout); exit(4); }
    handles[i] = dlopen(names[i], RTLD_NOW);
    if (!handles[i]) { printf("PRECOMPILE-LOAD-FAILED %s\n", dlerror()); fflush(stdout); exit(4); }
    int an = env->api->basic_type->get_anon_basic_types_length(rt, bts[i]);
    for (int k = -1; k < an; k++) {
      void* bt = k < 0 ? bts[i] : env->api->basic_type->get_anon_basic_type_by_index(rt, bts[i], k);
      int m = env->api->basic_type->get_methods_length(rt, bt);
      for (int j = 0; j < m; j++) {
        void* me = env->api->basic_type->get_method_by_index(rt, bt, j);
        if (!env->api->method->is_precompile(rt, me)) continue;
        char c[512], s[1024]; cname(c, env->api->basic_type->get_name(rt, bt));
        snprintf(s, sizeof s, "SPVMPRECOMPILE__%s__%s", c, env->api->method->get_name(rt, me));
        void* a = dlsym(handles[i], s);
        if (a) { env->api->method->set_precompile_address(rt, me, a); env->api->method->set_is_precompile_fallback(rt, me, 0); count++; }
        else { printf("PRECOMPILE-LOAD-FAILED no symbol %s\n", s); fflush(stdout); exit(4); }
      }
    }
  }
  env->api->allocator->free_instance(alloc);
  return count;
}

#include "nat.c"

int main(int argc, char** argv) {
  const char* seqfile = NULL; const char* inc[16]; int ninc = 0; const char *pdir = NULL, *only = NULL, *cc = "gcc -O0"; int start = 0, end = 1 << 30, lim = 60, c;
  while ((c = getopt(argc, argv, "I:p:P:c:s:e:a:f:")) != -1) {
    if (c == 'I') inc[ninc++] = optarg;
    else if (c == 'p') pdir = optarg;
    else if (c == 'P') only = optarg;
    else if (c == 'c') cc = optarg;
    else if (c == 's') start = atoi(optarg);
    else if (c == 'e') end = atoi(optarg);
    else if (c == 'f') seqfile = optarg;
    else if (c == 'a') lim = atoi(optarg);
    else return 2;
  }
  const char* cls = argv[optind];
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  signal(SIGALRM, on_alarm);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death); else signal(SIGSEGV, on_sig);
  signal(SIGABRT, on_sig);
  SPVM_ENV* boot = SPVM_NATIVE_new_env();
  void* compiler = boot->api->compiler->new_instance();
  for (int i = 0; i < ninc; i++) boot->api->compiler->add_include_dir(compiler, inc[i]);
  boot->api->compiler->set_start_file(compiler, "mcrun");
  boot->api->compiler->set_start_line(compiler, 1);
  int err = boot->api->compiler->compile(compiler, cls);
  if (err) {
    int n = boot->api->compiler->get_error_messages_length(compiler);
    for (int i = 0; i < n; i++) {
      printf("COMPILE-ERROR ");
      for (const char* p = boot->api->compiler->get_error_message(compiler, i); *p; p++) putchar(*p == '\n' ? ' ' : *p);
      putchar('\n');
    }
    if (!n) printf("COMPILE-ERROR\n");
    fflush(stdout);
    boot->api->compiler->free_instance(compiler); boot->free_env(boot);
    return 5;
  }
  void* rt = boot->api->compiler->get_runtime(compiler);
  SPVM_ENV* env = boot->new_env(); env->runtime = rt;
  bind_natives(env);
  if (pdir) printf("PRECOMPILED %d\n", bind_precompile(env, pdir, only, cc));
  SPVM_VALUE* stack = env->new_stack(env);
  int base = env->get_memory_blocks_count(env, stack);
  err = env->call_init_methods(env, stack);
  if (err) { void* e = env->get_exception(env, stack); printf("INIT-ERROR %s\n", e ? env->get_chars(env, stack, e) : "?"); }
  void* bt = env->api->runtime->get_basic_type_by_name(rt, cls);
  int m = env->api->basic_type->get_methods_length(rt, bt);
  if (seqfile) {
    // one call of "run" per line
    FILE* f = fopen(seqfile, "r"); if (!f) { perror(seqfile); return 3; }
    void* me = env->api->basic_type->get_method_by_name(rt, bt, "run");
    if (!me) { printf("COMPILE-ERROR no method run\n"); return 3; }
    char* line = NULL; size_t cap = 0; ssize_t n; int id = 0;
    while ((n = getline(&line, &cap, f)) >= 0) {
      while (n && line[n - 1] == '\n') line[--n] = 0;
      int k = id++;
      if (k < start || k >= end) continue;
      in_seq = k + 1; TL = 0; tput("", 0);
      char nm[32]; sprintf(nm, "run %d", k); cur = nm;
      alarm(lim);
      int before = env->get_memory_blocks_count(env, stack);
      int scope = env->enter_scope(env, stack);
      stack[0].oval = env->new_string(env, stack, line, n);
      int e = env->call_method(env, stack, me, 1);
      char* keep = T; size_t kl = TL, kc = TC; T = NULL; TL = TC = 0;
      if (e) {
        void* x = env->get_exception(env, stack);
        const char* p = x ? env->get_chars(env, stack, x) : "?";
        tput("", 0); tesc(p, strcspn(p, "\n"));
      } else tput("-", 1);
      env->set_exception(env, stack, NULL);
      env->leave_scope(env, stack, scope);
      printf("R t%d %d %s %d %s\n", k, e, T, env->get_memory_blocks_count(env, stack) - before, keep && keep[0] ? keep : "-");
      free(T); T = keep; TL = kl; TC = kc;
    }
    in_seq = 0; free(line); fclose(f);
  }
  int top = -1;
  for (int j = 0; j < m && !seqfile; j++) {
    const char* name = env->api->method->get_name(rt, env->api->basic_type->get_method_by_index(rt, bt, j));
    if (name[0] == 't' && name[1] >= '0' && name[1] <= '9' && atoi(name + 1) > top) top = atoi(name + 1);
  }
  for (int id = start; id <= top && id < end; id++) {
    char mname[32]; sprintf(mname, "t%d", id);
    void* me = env->api->basic_type->get_method_by_name(rt, bt, mname);
    if (!me) continue;
    const char* name = env->api->method->get_name(rt, me);
    cur = name; TL = 0; if (T) T[0] = 0;
    printf("B %s\n", name); fflush(stdout);
    alarm(lim);
    int before = env->get_memory_blocks_count(env, stack);
    int scope = env->enter_scope(env, stack);
    int e = env->call_method(env, stack, me, 0);
    tput("", 0);
    printf("R %s %d ", name, e);
    char* keep = T; size_t kl = TL, kc = TC; T = NULL; TL = TC = 0;
    if (e) {
      void* x = env->get_exception(env, stack);
      // up to the end of the first line: the stack trace follows
      const char* p = x ? env->get_chars(env, stack, x) : "?"; size_t n = strcspn(p, "\n");
      tput("", 0); tesc(p, n);
    } else { tput("-", 1); }
    env->set_exception(env, stack, NULL);
    env->leave_scope(env, stack, scope);
    printf("%s %d %s\n", T, env->get_memory_blocks_count(env, stack) - before, kl ? keep : "-");
    free(T); T = keep; TL = kl; TC = kc;
  }
  alarm(0);
  cur = "(teardown)";
  TL = 0; tput("", 0);
  env->destroy_class_vars(env, stack);
  printf("END %d %s\n", env->get_memory_blocks_count(env, stack) - base, TL ? T : "-");
  env->free_stack(env, stack);
  env->free_env(env);
  boot->api->compiler->free_instance(compiler);
  boot->free_env(boot);
  fflush(stdout);
  return 0;
}
