/* Cooperative scheduler under thread-sanitizer instrumentation.
 *
 * The laps crates are compiled with -Zsanitizer=thread and linked with this file instead of the sanitizer's runtime: every
 * memory access and atomic operation of their code calls a function below.  Exactly one thread runs at a time; before an access
 * to memory that threads share, and at every blocking operation, the scheduler decides who runs next, following a given
 * prefix of decisions and then the default (stay with the running thread).  Each execution runs in a forked child, so that it
 * starts from the same state, statics included. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

typedef unsigned char u8;
#define MAXT 16
#define MAXD (1 << 20)
#define MAXP (1 << 20)

/* --------------------------------------------------------------------------------------------- shared with the parent */
struct dec { u8 chosen, def, cur, free_; uint16_t enabled; };
#define LEARN (1 << 16)
#define MAXL 1024
struct shared {
  uint32_t n;                  /* decisions taken */
  uint64_t steps;              /* scheduling points passed */
  uint32_t status;             /* 0 not finished, 1 finished, 2 deadlock, 3 too many steps, 4 too many threads, 5 replay diverged, 6 out of room */
  uint32_t nlearn;             /* granules this execution found to be shared and that do not count yet */
  uintptr_t learn[MAXL];
  char msg[4096];
  struct dec d[MAXD];
  uint32_t prefix_n;
  u8 prefix[MAXP];
};
#define MAXW 64
static struct shared *S[MAXW], *sh;
static struct { uintptr_t set[LEARN]; uint32_t n; } *G;   /* the granules that count in this round; open addressing */

static inline long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

/* ------------------------------------------------------------------------------------------------------- the scheduler */
enum { FREE, RUN, FUT, JOIN, DONE };
struct thr {
  int st;
  volatile int go;
  uint32_t *fa;
  int join;
  pthread_t id;
  void *(*f)(void *);
  void *arg, *ret;
  uintptr_t lo, hi;
  unsigned ticket;
};
static struct thr T[MAXT];
static int nt;
static volatile int active;
static __thread int me = -1;
static __thread int inside;
static unsigned tickets;

static void finish(int status, const char *m) {
  if (m) { strncpy(sh->msg, m, sizeof sh->msg - 1); }
  sh->status = status;
  raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}

static void pass_to(int t) {
  int m = me;
  if (t == m) return;
  T[t].go = 1;
  raw(SYS_futex, (long)&T[t].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  if (m < 0 || T[m].st == DONE) return;
  while (!T[m].go) raw(SYS_futex, (long)&T[m].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  T[m].go = 0;
}

/* Decides who runs next.  `how`: 0 the running thread may go on (changing is a preemption), 1 it yields, 2 it cannot go on. */
static void decide(int how) {
  uint16_t en = 0;
  int n = 0, first = -1;
  if (++sh->steps > 3000000) finish(3, "an execution of more than 3,000,000 steps");
  for (int i = 0; i < nt; i++)
    if (T[i].st == RUN && !(how == 1 && i == me)) { en |= 1u << i; n++; if (first < 0) first = i; }
  if (n == 0) {
    if (how == 1) return;
    finish(2, "all threads are blocked");
  }
  int c;
  if (n == 1) c = first;
  else {
    /* the default: the running thread, or the next one in turn */
    int def = me;
    if (how) { do def = (def + 1) % nt; while (!(en >> def & 1)); }
    uint32_t k = sh->n;
    if (k >= MAXD) finish(6, "too many decisions");
    c = k < sh->prefix_n ? sh->prefix[k] : def;
    if (!(en >> c & 1)) finish(5, "the replay of a schedule went another way");
    sh->d[k] = (struct dec){ c, def, (u8)me, how != 0, en };
    sh->n = k + 1;
  }
  pass_to(c);
}

static inline int on(void) { return active && me >= 0 && !inside; }
/* a thread that passes very many points in a row may be waiting for another: let the others go on */
static unsigned streak;
static int streak_of = -1;
static void point(void) {
  inside = 1;
  if (streak_of != me) { streak_of = me; streak = 0; }
  if (++streak > 20000) { streak = 0; decide(1); } else decide(0);
  inside = 0;
}

/* ------------------------------------------------------------------------------------------------------- shared memory */
struct region { uintptr_t lo, hi; };
#define SEEN (1 << 21)
static struct region pre[4096];
static int npre;
extern char __executable_start, __data_start;
static struct { uintptr_t g; uint16_t rd, wr; } seen[SEEN];

static void find_regions(void) {
  char *buf = malloc(1 << 20);
  int fd = open("/proc/self/maps", O_RDONLY);
  size_t n = 0;
  ssize_t r;
  while ((r = read(fd, buf + n, (1 << 20) - 1 - n)) > 0) n += r;
  close(fd);
  buf[n] = 0;
  npre = 0;
  for (char *p = buf; *p && npre < 4096;) {
    uintptr_t lo, hi; char perm[5];
    char *e = strchr(p, '\n');
    if (e) *e = 0;
    if (sscanf(p, "%lx-%lx %4s", &lo, &hi, perm) == 3 && perm[1] == 'w' && !strstr(p, "[stack")) pre[npre++] = (struct region){ lo, hi };
    if (!e) break;
    p = e + 1;
  }
  free(buf);
}
static int is_pre(uintptr_t a) {
  int l = 0, h = npre;
  while (l < h) { int m = (l + h) / 2; if (a < pre[m].lo) h = m; else if (a >= pre[m].hi) l = m + 1; else return 1; }
  return 0;
}
static inline unsigned hash(uintptr_t g) { return (unsigned)((g * 0x9e3779b97f4a7c15ull) >> 36); }
static int in_set(const uintptr_t *s, uintptr_t g) {
  for (unsigned i = hash(g) % LEARN;; i = (i + 1) % LEARN) { if (s[i] == g) return 1; if (!s[i]) return 0; }
}
static void learn(uintptr_t g) {
  for (uint32_t i = 0; i < sh->nlearn; i++) if (sh->learn[i] == g) return;
  if (sh->nlearn < MAXL) sh->learn[sh->nlearn++] = g;
}

static void touch(uintptr_t g, int wr, int atomic) {
  unsigned i = (unsigned)(g + (g >> 21) * 0x9e3779b1u) % SEEN, left = 4096;
  while (seen[i].g && seen[i].g != g && --left) i = (i + 1) % SEEN;
  if (!left) finish(6, "more memory is touched than fits");
  seen[i].g = g;
  uint16_t bit = 1u << me;
  int alive = 0;
  for (int k = 1; k < nt; k++) alive += T[k].st != DONE;
  int conflict = (wr ? (seen[i].rd | seen[i].wr) : seen[i].wr) & ~bit;
  if (wr) seen[i].wr |= bit; else seen[i].rd |= bit;
  if (is_pre(g << 3)) {
    int known = in_set(G->set, g);
    if (conflict && !known) learn(g);
    if (alive > 1 && known) point();
  } else if (alive > 1 && conflict) point();
}
static inline void access_(uintptr_t a, size_t n, int wr, int atomic) {
  if (!on() || me == 0) return;                     /* the first thread only starts the others and waits for them */
  if (a - T[me].lo < T[me].hi - T[me].lo) return;   /* its own stack */
  if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start && !is_pre(a)) return;  /* code and constants */
  if (n > 64) n = 64;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { touch(g, wr, atomic); if (atomic) break; }
}

/* -------------------------------------------------------------------------------------------------------- instrumentation */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } \
  void __tsan_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } \
  void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } \
  void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_read_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { access_((uintptr_t)p, 8, 1, 0); }
void __tsan_vptr_read(void **p) { access_((uintptr_t)p, 8, 0, 0); }
void __tsan_read_range(void *p, size_t n) { if (n) access_((uintptr_t)p, n, 0, 0); }
void __tsan_write_range(void *p, size_t n) { if (n) access_((uintptr_t)p, n, 1, 0); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t)s, n, 0, 0); access_((uintptr_t)d, n, 1, 0); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t)s, n, 0, 0); access_((uintptr_t)d, n, 1, 0); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access_((uintptr_t)d, n, 1, 0); return memset(d, c, n); }
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t *p, int m) { access_((uintptr_t)p, sizeof(t), 0, 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_exchange(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_nand(volatile t *p, t v, int m) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *c, t v, int m, int f) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *c, t v, int m, int f) { access_((uintptr_t)p, sizeof(t), 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int m, int f) { access_((uintptr_t)p, sizeof(t), 1, 1); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m) {}

/* --------------------------------------------------------------------------------------------------- blocking operations */
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int op = b & FUTEX_CMD_MASK;
    inside = 1;
    long r = 0;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; r = -1; }
      else {
        T[me].st = FUT; T[me].fa = (uint32_t *)a; T[me].ticket = ++tickets;
        decide(2);
      }
    } else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      for (long k = 0; k < c; k++) {
        int w = -1;
        for (int i = 0; i < nt; i++) if (T[i].st == FUT && T[i].fa == (uint32_t *)a && (w < 0 || T[i].ticket < T[w].ticket)) w = i;
        if (w < 0) break;
        T[w].st = RUN;
        r++;
      }
      if (r) decide(0);
    } else { errno = ENOSYS; r = -1; }
    inside = 0;
    return r;
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield(void) {
  if (on()) { inside = 1; decide(1); inside = 0; return 0; }
  return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static void bounds(void) {
  pthread_attr_t at; void *lo; size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  T[me].lo = (uintptr_t)lo; T[me].hi = (uintptr_t)lo + n;
}
static void *start(void *p) {
  int m = (int)(intptr_t)p;
  me = m; inside = 1;
  while (!T[m].go) raw(SYS_futex, (long)&T[m].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  T[m].go = 0;
  bounds();
  inside = 0;
  void *r = T[m].f(T[m].arg);
  inside = 1;
  T[m].st = DONE;
  for (int i = 0; i < nt; i++) if (T[i].st == JOIN && T[i].join == m) T[i].st = RUN;
  T[m].ret = r;
  decide(2);
  /* never really ends: what it would release concurrently must not influence the others */
  for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!on()) return real_create(t, a, f, arg);
  inside = 1;
  if (nt >= MAXT) finish(4, "too many threads");
  int k = nt;
  memset(&T[k], 0, sizeof T[k]);
  T[k].f = f; T[k].arg = arg; T[k].st = RUN;
  nt = k + 1;
  int r = real_create(t, a, start, (void *)(intptr_t)k);
  if (r) { nt = k; inside = 0; return r; }
  T[k].id = *t;
  if (me) decide(0);
  inside = 0;
  return r;
}
int pthread_join(pthread_t t, void **v) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (on()) {
    inside = 1;
    for (int i = 0; i < nt; i++)
      if (i != me && T[i].f && pthread_equal(T[i].id, t)) {
        if (T[i].st != DONE) { T[me].st = JOIN; T[me].join = i; decide(2); }
        if (v) *v = T[i].ret;
        inside = 0;
        return 0;
      }
    inside = 0;
  }
  return real_join(t, v);
}
/* hash maps are seeded with constants */
ssize_t getrandom(void *p, size_t n, unsigned f) { memset(p, 0x5a, n); return n; }

/* ----------------------------------------------------------------------------------------------------------- the interface */
void rt_setup(int workers) {
  for (int w = 0; w < workers; w++) S[w] = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G = mmap(0, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh = S[0];
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
}
/* Lets what the last execution of a worker found count from now on; returns whether that is anything new. */
int rt_grow(int w) {
  int r = 0;
  for (uint32_t k = 0; k < S[w]->nlearn && G->n < LEARN / 2; k++) {
    unsigned i = hash(S[w]->learn[k]) % LEARN;
    for (; G->set[i] && G->set[i] != S[w]->learn[k]; i = (i + 1) % LEARN) {}
    if (!G->set[i]) { G->set[i] = S[w]->learn[k]; G->n++; r = 1; }
  }
  return r;
}
uint32_t rt_shared(void) { return G->n; }
void rt_result(const char *m, size_t n) {
  int was = inside;
  inside = 1;
  if (n > sizeof sh->msg - 1) n = sizeof sh->msg - 1;
  memcpy(sh->msg, m, n); sh->msg[n] = 0;
  inside = was;
}
static void child(void (*body)(void), int controlled) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct itimerval it = { { 0, 0 }, { 120, 0 } };
  setitimer(ITIMER_REAL, &it, 0);
  if (controlled) {
    me = 0; nt = 1; T[0].st = RUN;
    bounds();
    active = 1;
  }
  body();
  active = 0;
  sh->status = 1;
  raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
static void run_child(void (*body)(void), int controlled) {
  pid_t pid = fork();
  if (pid == 0) child(body, controlled);
  int st = 0;
  if (pid < 0) { strcpy(sh->msg, "cannot fork"); sh->status = 8; return; }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL) { strcpy(sh->msg, "killed"); sh->status = 8; return; }
    if (WTERMSIG(st) == SIGALRM) strcpy(sh->msg, "an execution that does not end within 120 s");
    else snprintf(sh->msg, sizeof sh->msg, "ended by signal %d", WTERMSIG(st));
    sh->status = 7;
  } else if (sh->status == 0) { snprintf(sh->msg, sizeof sh->msg, "exited with %d", WEXITSTATUS(st)); sh->status = 7; }
}
static void reset(void) { sh->n = 0; sh->steps = 0; sh->status = 0; sh->msg[0] = 0; sh->nlearn = 0; }
/* Runs `body` once, not under control. */
int rt_plain(void (*body)(void)) { sh = S[0]; reset(); run_child(body, 0); return sh->status; }
/* The processes every execution is forked from: their memory does not change from one execution to the next. */
static int down[MAXW][2], done[2];
void rt_zygotes(void (*body)(void), int workers) {
  if (pipe(done)) abort();
  for (int w = 0; w < workers; w++) if (pipe(down[w])) abort();
  find_regions();
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid < 0) abort();
    if (pid) continue;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sh = S[w];
    char c;
    while (raw(SYS_read, down[w][0], (long)&c, 1, 0, 0, 0) == 1) {
      run_child(body, 1);
      c = w;
      if (raw(SYS_write, done[1], (long)&c, 1, 0, 0, 0) != 1) break;
    }
    raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  }
}
/* Lets a worker run `body` under control, following the decisions. */
void rt_submit(int w, const u8 *p, uint32_t n) {
  sh = S[w];
  memcpy(sh->prefix, p, n);
  sh->prefix_n = n;
  reset();
  char c = 0;
  if (raw(SYS_write, down[w][1], (long)&c, 1, 0, 0, 0) != 1) abort();
}
/* Waits for a worker to finish. */
int rt_wait(void) {
  u8 c = 0;
  if (raw(SYS_read, done[0], (long)&c, 1, 0, 0, 0) != 1) abort();
  return c;
}
int rt_status(int w) { return S[w]->status; }
uint32_t rt_n(int w) { return S[w]->n; }
uint64_t rt_steps(int w) { return S[w]->steps; }
const char *rt_msg(int w) { return S[w]->msg; }
const struct dec *rt_decs(int w) { return S[w]->d; }
