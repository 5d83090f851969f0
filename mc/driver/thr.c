// Runs the methods of a scenario as threads under a controlled scheduler and explores every schedule up to a
// number of preemptions. The core is compiled with -fsanitize=thread but linked with the runtime below: each memory
// access and each lock operation is seen here. A thread can be preempted before it takes a lock and before each access
// to a location that conflicts with another thread without a common lock (found on the fly until nothing new appears).
// Each schedule runs in a forked child. All memory comes from bump arenas, one per thread, so that addresses do
// not depend on the schedule, and freed memory is never reused: a later access is reported.
#define main mcrun_main
#include "mcrun.c"
#undef main
#include <stdarg.h>
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>

enum { MAXT = 4, MAXSTEP = 20000, MAXHOT = 4096, MAXTRACE = 8000 };
typedef struct { uint8_t n, c; } Choice;
typedef struct {
  int len; Choice ch[MAXSTEP];
  int nhot; uintptr_t hot[MAXHOT];
  int points; long accesses;
  char bad[600]; char trace[MAXTRACE]; int done;
} Shared;
static Shared* S;
static int prefix_len; static uint8_t prefix[MAXSTEP];
static int budget;

// ---- arenas
#define ARENA (1UL << 28)
static char *arena[MAXT + 1], *brk_[MAXT + 1], *shadow[MAXT + 1];
static int nthr, curt = -1, active;
static ucontext_t mainctx;
typedef struct { ucontext_t ctx; char* stk; int done; void* want; int wantw; SPVM_VALUE* stack; void* me; int err; void* arg; } Thr;
static Thr th[MAXT];
static SPVM_ENV* E;
enum { STK = 1 << 20 };

static void bad(const char* fmt, ...) {
  if (!S->bad[0]) { va_list ap; va_start(ap, fmt); vsnprintf(S->bad, sizeof S->bad, fmt, ap); va_end(ap); }
  _exit(3);
}
static void arenas(void) {
  for (int i = 0; i <= MAXT; i++) {
    arena[i] = brk_[i] = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!i) madvise(arena[i], ARENA, MADV_HUGEPAGE);
    shadow[i] = mmap(NULL, ARENA >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
}
void* __wrap_malloc(size_t n) {
  if (!arena[0]) arenas();
  int a = active && curt >= 0 ? curt + 1 : 0;
  size_t r = (n + 15) & ~15UL;
  char* p = brk_[a];
  if (p + r + 32 > arena[a] + ARENA) { fprintf(stderr, "arena full\n"); _exit(4); }
  *(size_t*)p = n;
  p += 16; brk_[a] = p + r + 16;
  size_t g = (p - arena[a]) >> 4;
  memset(shadow[a] + g, 1, r >> 4);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) { if (b && a > ARENA / b) return NULL; return __wrap_malloc(a * b); }
static int which(uintptr_t p) { for (int i = 0; i <= MAXT; i++) if (p - (uintptr_t)arena[i] < ARENA) return i; return -1; }
void __wrap_free(void* p) {
  if (!p) return;
  int a = which((uintptr_t)p);
  if (a < 0) { extern void __real_free(void*); __real_free(p); return; }
  size_t g = ((char*)p - arena[a]) >> 4, n = ((size_t*)p)[-2];
  if (shadow[a][g] != 1) bad("free of a block that is not allocated");
  memset(shadow[a] + g, 2, ((n + 15) & ~15UL) >> 4);
}
void* __wrap_realloc(void* p, size_t n) {
  void* q = __wrap_malloc(n);
  if (p) { size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); __wrap_free(p); }
  return q;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; return memcpy(__wrap_malloc(n), s, n); }

// ---- scheduler
typedef struct { void* m; int writer; int readers[MAXT]; } Lock;
static Lock locks[64]; static int nlocks;
static int focus, base_locks;   // with focus, the locks of the runtime itself are no preemption points
static Lock* lk(void* m) {
  for (int i = 0; i < nlocks; i++) if (locks[i].m == m) return &locks[i];
  if (nlocks == 64) { fprintf(stderr, "locks\n"); _exit(4); }
  locks[nlocks] = (Lock){m, -1}; return &locks[nlocks++];
}
static int avail(Lock* l, int w, int me) {
  if (l->writer >= 0 && l->writer != me) return 0;
  if (w) for (int i = 0; i < MAXT; i++) if (l->readers[i] && 1) { return 0; }
  return 1;
}
static int enabled(int t) { return !th[t].done && (!th[t].want || avail(lk(th[t].want), th[t].wantw, t)); }
static int choose(int n) {
  if (n == 1) return 0;
  if (S->len >= MAXSTEP) { snprintf(S->bad, sizeof S->bad, "schedule too long"); _exit(5); }
  int c = S->len < prefix_len ? prefix[S->len] : 0;
  if (c >= n) bad("INTERNAL schedule does not replay (%d of %d at %d)", c, n, S->len);
  S->ch[S->len].n = n; S->ch[S->len].c = c; S->len++;
  return c;
}
static void to(int t) { int f = curt; if (t == f) return; curt = t; if (f >= 0) swapcontext(&th[f].ctx, &th[t].ctx); else swapcontext(&mainctx, &th[t].ctx); }
static void point(void) {
  S->points++;
  if (budget <= 0) return;
  int opt[MAXT], n = 0; opt[n++] = curt;
  for (int i = 0; i < nthr; i++) if (i != curt && enabled(i)) opt[n++] = i;
  int c = choose(n);
  if (c) { budget--; to(opt[c]); }
}
static void switch_away(void) {   // the current thread cannot go on: any other, for free
  int opt[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (enabled(i)) opt[n++] = i;
  if (!n) {
    for (int i = 0; i < nthr; i++) if (!th[i].done) bad("deadlock: thread %d waits for a lock held by thread %d", i, lk(th[i].want)->writer);
    int f = curt; curt = -1; swapcontext(&th[f].ctx, &mainctx); return;
  }
  int t = opt[choose(n)];
  if (t != curt) to(t);
}
static uint64_t heldw(void) { uint64_t m = 0; for (int i = 0; i < nlocks; i++) if (locks[i].writer == curt) m |= 1UL << i; return m; }
static uint64_t heldr(void) { uint64_t m = 0; for (int i = 0; i < nlocks; i++) if (locks[i].writer == curt || locks[i].readers[curt]) m |= 1UL << i; return m; }

int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) {
  if (active) { Lock* l = lk(m); if (l->writer >= 0) bad("a held lock is destroyed"); for (int i = 0; i < MAXT; i++) if (l->readers[i]) bad("a held lock is destroyed"); }
  return 0;
}
static int acquire(void* m, int w) {
  if (!active || curt < 0) {   // set-up and check code runs alone
    int me = MAXT - 1; Lock* l = lk(m);
    if (!avail(l, w, -2)) bad("deadlock: a lock is still held (writer %d) when only one thread runs", l->writer);
    if (w) l->writer = me; else l->readers[me]++;
    return 0;
  }
  Lock* l = lk(m);
  if (!focus || l - locks >= base_locks) point();
  if (l->writer == curt) { return w ? EDEADLK : EDEADLK; }
  th[curt].want = m; th[curt].wantw = w;
  while (!avail(l, w, curt)) switch_away();
  th[curt].want = NULL;
  if (w) l->writer = curt; else l->readers[curt]++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return acquire(m, 1); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return acquire(m, 0); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  Lock* l = lk(m); int me = active && curt >= 0 ? curt : MAXT - 1;
  if (l->writer == me) l->writer = -1;
  else if (l->readers[me]) l->readers[me]--;
  else bad("a lock is released by a thread that does not hold it");
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return acquire(m, 1); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_rwlock_unlock((pthread_rwlock_t*)m); }

// ---- memory accesses
enum { HN = 1 << 16 };
typedef struct { uintptr_t k; uint8_t r, w, hot, rep; uint64_t ls; } Acc;
static Acc* H;
static Acc* find(uintptr_t k) {
  size_t i = (((k >> 7) * 0x9E3779B97F4A7C15ULL) >> 55 << 7 | (k & 127)) & (HN - 1);
  while (H[i].k && H[i].k != k) i = (i + 1) & (HN - 1);
  if (!H[i].k) { H[i].k = k; H[i].ls = ~0UL; }
  return &H[i];
}
static int inacc;
static void acc(void* p, size_t n, int w) {
  if (!active || curt < 0 || inacc) return;
  uintptr_t a = (uintptr_t)p;
  if (a - (uintptr_t)th[curt].stk < STK) return;
  inacc = 1;
  S->accesses++;
  int ar = which(a);
  if (ar >= 0) {
    char s = shadow[ar][(a - (uintptr_t)arena[ar]) >> 4];
    if (s != 1) { void* ra = __builtin_return_address(1); bad("%s of %s memory by thread %d (code %p)", w ? "write" : "read", s == 2 ? "freed" : "unallocated", curt, (char*)ra - (char*)0); }
  }
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
    Acc* e = find(k);
    if (e->hot) { inacc = 0; point(); inacc = 1; }
    if (w) { e->w |= 1 << curt; e->ls &= heldw(); } else { e->r |= 1 << curt; e->ls &= heldr(); }
    if (!e->hot && !e->rep && e->w && ((e->r | e->w) & ((e->r | e->w) - 1)) && !e->ls) {
      e->rep = 1;
      if (S->nhot < MAXHOT) S->hot[S->nhot++] = k; else bad("INTERNAL too many conflicting locations");
    }
  }
  inacc = 0;
}
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, 0); } void __tsan_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, 0); } void __tsan_unaligned_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_read##n##_pc(void* p) { acc(p, n, 0); } void __tsan_write##n##_pc(void* p) { acc(p, n, 1); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, 0); } void __tsan_volatile_write##n(void* p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) acc(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { if (n) acc(p, n, 1); }
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** p, void* v) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, 0); acc(d, n, 1); } return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) acc(d, n, 1); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, 0); acc(d, n, 1); } return memmove(d, s, n); }
// atomics: one indivisible access
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { if (active && curt >= 0) point(); return *p; } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); *p = v; } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { if (active && curt >= 0) point(); T o = *p; *p = o | v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int f) { if (active && curt >= 0) point(); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, mo, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int mo, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &c, v, mo, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

// Marks from inside a scenario: thread number and text, in global order
int32_t SPVM__MCThr__mark(SPVM_ENV* env, SPVM_VALUE* stack) {
  char b[16]; int n = sprintf(b, "%d", curt); tput(b, n);
  const char* s = env->get_chars(env, stack, stack[0].oval); tput(s, strlen(s)); tput(";", 1);
  return 0;
}
int32_t SPVM__MCThr__mem(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = env->get_memory_blocks_count(env, stack); return 0; }
int32_t SPVM__MCThr__step(SPVM_ENV* env, SPVM_VALUE* stack) { if (active && curt >= 0) point(); return 0; }
// Compiles a class from inside a thread and binds what it needs
static void* COMP;
int32_t SPVM__MCThr__compile(SPVM_ENV* env, SPVM_VALUE* stack) {
  stack[0].ival = env->api->compiler->compile(COMP, env->get_chars(env, stack, stack[0].oval));
  return 0;
}
int32_t SPVM__MCThr__call(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0;
  const char* c = env->get_chars(env, stack, stack[0].oval);
  void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, c);
  void* me = bt ? env->api->basic_type->get_method_by_name(env->runtime, bt, "value") : NULL;
  if (!me) { stack[0].ival = -1; return 0; }
  e = env->call_method(env, stack, me, 0);
  return e;
}

static void body(int t) {
  Thr* T_ = &th[t];
  T_->stack[0].oval = T_->arg;
  T_->err = E->call_method(E, T_->stack, T_->me, 1);
  T_->done = 1;
  switch_away();
  for (;;) abort();
}
static const char* CLS;
static void* method(const char* fmt, int n, int k) {
  char nm[64]; snprintf(nm, sizeof nm, fmt, n, k);
  void* bt = E->api->runtime->get_basic_type_by_name(E->runtime, CLS);
  return E->api->basic_type->get_method_by_name(E->runtime, bt, nm);
}
static void death(int sig) { const char* m = sig == SIGABRT ? "the process aborts (a lock or an assertion failed)" : sig == SIGSEGV ? "the process dies with SIGSEGV" : sig == SIGALRM ? "a thread does not end" : "the process dies with a signal"; if (!S->bad[0]) strcpy(S->bad, m); _exit(3); }

static void one_schedule(int n, SPVM_VALUE* stack) {
  struct sigaction sa = {0}; static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, NULL);
  sa.sa_handler = death; sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
  alarm(20);
  int before = E->get_memory_blocks_count(E, stack);
  int scope = E->enter_scope(E, stack);
  TL = 0; tput("", 0);
  int e = E->call_method(E, stack, method("setup%d", n, 0), 0);
  if (e) { strcpy(S->bad, "INTERNAL setup failed: "); strncat(S->bad, E->get_chars(E, stack, E->get_exception(E, stack)), 300); _exit(3); }
  void* obj = stack[0].oval;
  E->push_mortal(E, stack, obj);
  nthr = 0;
  for (int k = 0; k < MAXT - 1; k++) {
    void* me = method("a%d_%d", n, k);
    if (!me) break;
    th[k].me = me; th[k].arg = obj; th[k].stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    th[k].stack = E->new_stack(E);
    getcontext(&th[k].ctx); th[k].ctx.uc_stack.ss_sp = th[k].stk; th[k].ctx.uc_stack.ss_size = STK; th[k].ctx.uc_link = NULL;
    makecontext(&th[k].ctx, (void (*)(void))body, 1, k);
    nthr++;
  }
  active = 1;
  int first = choose(nthr);
  curt = first; swapcontext(&mainctx, &th[first].ctx);
  active = 0; curt = -1;
  for (int k = 0; k < nthr; k++) {
    if (th[k].err) { tput("E", 1); void* x = E->get_exception(E, th[k].stack); const char* s = x ? E->get_chars(E, th[k].stack, x) : "?"; tesc(s, strcspn(s, "\n")); tput(";", 1); }
    E->free_stack(E, th[k].stack);
  }
  tput("|", 1);
  stack[0].oval = obj;
  e = E->call_method(E, stack, method("check%d", n, 0), 1);
  if (e) { void* x = E->get_exception(E, stack); const char* s = x ? E->get_chars(E, stack, x) : "?"; tput("E", 1); tesc(s, strcspn(s, "\n")); tput(";", 1); }
  E->set_exception(E, stack, NULL);
  tput("|", 1);
  E->leave_scope(E, stack, scope);
  char b[40]; int m = sprintf(b, "|m%d", E->get_memory_blocks_count(E, stack) - before); tput(b, m);
  for (int i = 0; i < nlocks; i++) { int held = locks[i].writer >= 0; for (int k = 0; k < MAXT; k++) held |= locks[i].readers[k]; if (held) tput("|lock held", 10); }
  snprintf(S->trace, MAXTRACE, "%s", T);
  S->done = 1;
  _exit(0);
}

int main(int argc, char** argv) {
  int n = atoi(argv[1]), P = atoi(argv[2]); long cap = atol(argv[3]); CLS = argv[4];
  if (!arena[0]) arenas();
  TC = MAXTRACE; T = malloc(TC);
  focus = getenv("THR_FOCUS") != NULL;
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  H = mmap(NULL, HN * sizeof(Acc), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  SPVM_ENV* boot = SPVM_NATIVE_new_env();
  void* compiler = COMP = boot->api->compiler->new_instance();
  for (int i = 5; i < argc; i++) boot->api->compiler->add_include_dir(compiler, argv[i]);
  boot->api->compiler->set_start_file(compiler, "thr"); boot->api->compiler->set_start_line(compiler, 1);
  if (boot->api->compiler->compile(compiler, CLS)) {
    int k = boot->api->compiler->get_error_messages_length(compiler);
    for (int i = 0; i < k; i++) printf("COMPILE-ERROR %s\n", boot->api->compiler->get_error_message(compiler, i));
    return 5;
  }
  E = boot->new_env(); E->runtime = boot->api->compiler->get_runtime(compiler);
  bind_natives(E);
  SPVM_VALUE* stack = E->new_stack(E);
  if (E->call_init_methods(E, stack)) { printf("INIT-ERROR\n"); return 5; }
  static uintptr_t hot[MAXHOT]; int nhot = 0;
  static char* outs[4000]; static long cnt[4000]; int no = 0;
  char* outbuf = mmap(NULL, 4000UL * MAXTRACE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  long total = 0, points = 0, accs = 0; int capped = 0, rounds = 0;
  fflush(stdout);
  base_locks = nlocks;
restart:
  rounds++; prefix_len = 0; total = 0; points = 0; accs = 0; no = 0; capped = 0;
  madvise(H, HN * sizeof(Acc), MADV_DONTNEED);
  for (int i = 0; i < nhot; i++) find(hot[i])->hot = 1;
  for (;;) {
    S->len = 0; S->nhot = 0; S->points = 0; S->accesses = 0; S->bad[0] = 0; S->trace[0] = 0; S->done = 0;
    budget = P;
    pid_t pid = fork();
    if (pid == 0) one_schedule(n, stack);
    int st; waitpid(pid, &st, 0);
    total++; points += S->points; accs += S->accesses;
    if (!S->done && !S->bad[0]) snprintf(S->bad, sizeof S->bad, "the process dies (status %x)", st);
    if (!strncmp(S->bad, "INTERNAL", 8)) { printf("INTERNAL-ERROR %s\n", S->bad); return 6; }
    if (!strncmp(S->bad, "schedule too long", 17)) { printf("INTERNAL-ERROR %s\n", S->bad); return 6; }
    if (S->bad[0]) {
      printf("BAD %s\nSCHEDULE", S->bad); for (int i = 0; i < S->len; i++) printf(" %d/%d", S->ch[i].c, S->ch[i].n); printf("\n"); fflush(stdout);
      printf("DONE schedules=%ld points=%ld accesses=%ld hot=%d rounds=%d capped=%d\n", total, points, accs, nhot, rounds, capped);
      return 0;
    }
    int i; for (i = 0; i < no; i++) if (!strcmp(outs[i], S->trace)) break;
    if (i == no && no < 4000) {
      outs[no] = strcpy(outbuf + (size_t)no * MAXTRACE, S->trace); cnt[no] = 0; no++;
      printf("OUT %s\nSCHEDULE", S->trace); for (int k = 0; k < S->len; k++) printf(" %d/%d", S->ch[k].c, S->ch[k].n); printf("\n");
      fflush(stdout);
    }
    if (i < 4000) cnt[i]++;
    if (S->nhot) {
      for (int k = 0; k < S->nhot && nhot < MAXHOT; k++) hot[nhot++] = S->hot[k];
      if (getenv("HOT")) for (int k = 0; k < nhot; k++) printf("HOT %lx arena %d + %lx\n", hot[k] * 8, which(hot[k] * 8), hot[k]*8 - (which(hot[k]*8)>=0?(uintptr_t)arena[which(hot[k]*8)]:0));
      if (nhot >= MAXHOT) { printf("INTERNAL-ERROR too many conflicting locations\n"); return 6; }
      goto restart;
    }
    int k = S->len - 1;
    while (k >= 0 && S->ch[k].c + 1 >= S->ch[k].n) k--;
    if (k < 0) break;
    for (int q = 0; q < k; q++) prefix[q] = S->ch[q].c;
    prefix[k] = S->ch[k].c + 1; prefix_len = k + 1;
    if (total >= cap) { capped = 1; break; }
  }
  printf("DONE schedules=%ld points=%ld accesses=%ld hot=%d rounds=%d capped=%d\n", total, points, accs, nhot, rounds, capped);
  return 0;
}
