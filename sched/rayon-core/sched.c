// A controlled scheduler. Threads are real, but only the one holding the token runs; at every scheduling point
// (atomic operation, lock, task push, task end, blocking) the explorer decides who continues. Every sequence of
// decisions within the deviation bound is executed by depth-first search.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void fwait(volatile int *p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void fwake(volatile int *p) { raw(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1000, 0, 0, 0); }

// ---- the explorer
enum { MAXP = 1 << 20 };
struct node { unsigned char n, pick, dev; };
static struct node *path; static int plen, ppos, used, bound; static uint64_t n_div;
static int choose(int n, int dev) {
  if (n <= 1) return 0;
  if (n > 250) n = 250;
  if (ppos >= MAXP) return 0;
  int m = (dev && used >= bound) ? 1 : n;
  if (ppos < plen) {
    if (path[ppos].n != m || path[ppos].dev != dev) {
      // the code took another way than the last time (state kept between executions): go on from here
      n_div++;
      if (path[ppos].pick >= m) path[ppos].pick = 0;
      path[ppos].n = m; path[ppos].dev = dev;
      plen = ppos + 1;
    }
  } else { path[plen].n = m; path[plen].pick = 0; path[plen].dev = dev; plen++; }
  int k = path[ppos++].pick;
  if (dev && k) used++;
  return k;
}
void vs_reset(int b) { if (!path) path = malloc(sizeof(struct node) * (MAXP + 1)); plen = 0; ppos = 0; used = 0; bound = b; }
int vs_next(void) {
  plen = ppos < plen ? ppos : plen;
  while (plen > 0 && path[plen - 1].pick + 1 >= path[plen - 1].n) plen--;
  if (plen == 0) return 0;
  path[plen - 1].pick++; return 1;
}
// the decisions that differ from the default, as text
int vs_describe(char *o, int cap) { int l = 0; o[0] = 0; for (int i = 0; i < ppos && l < cap - 40; i++) if (path[i].pick) l += snprintf(o + l, cap - l, "%d:%d/%d%s ", i, path[i].pick, path[i].n, path[i].dev ? "" : "f"); return l; }
// starts from given decisions
void vs_load(const unsigned char *n, const unsigned char *pick, const unsigned char *dev, int len) { for (int i = 0; i < len; i++) { path[i].n = n[i]; path[i].pick = pick[i]; path[i].dev = dev[i]; } plen = len; }
int vs_save(unsigned char *n, unsigned char *pick, unsigned char *dev, int cap) { int len = ppos < cap ? ppos : cap; for (int i = 0; i < len; i++) { n[i] = path[i].n; pick[i] = path[i].pick; dev[i] = path[i].dev; } return len; }
int vs_tree(unsigned char *n, unsigned char *pick, unsigned char *dev, int cap) { int len = plen < cap ? plen : cap; for (int i = 0; i < len; i++) { n[i] = path[i].n; pick[i] = path[i].pick; dev[i] = path[i].dev; } return len; }

// ---- the threads
enum { MAXT = 16, MAXJ = 1024 };
enum { RUN, BLOCKED, WAIT, DONE };
struct job { void (*fn)(void *); void *data; };
struct T { volatile int st; int fresh, worker, timed, woken; uint32_t *addr, exp; volatile int *latch; volatile int go; struct job q[MAXJ]; int top, bot; void (*fn)(void *); void *data; pthread_t th; };
static struct T T_[MAXT]; static int nt, nworkers, ncallers;
static struct job inj[MAXJ]; static int itop, ibot;
static volatile int active, shutdown_, finished, registered; static int cur, status; static uint64_t steps, switches, points; static int run_len;
static __thread int me = -1;
static uint64_t tot_points, tot_switches, max_steps = 3000000;

static int jobs_left(void) { if (itop < ibot) return 1; for (int i = 0; i < nworkers; i++) if (T_[i].top < T_[i].bot) return 1; return 0; }
static int enabled(int i) {
  struct T *t = &T_[i];
  if (t->st == RUN) return 1;
  if (t->st == WAIT) return (t->latch && *t->latch) || (t->worker && jobs_left());
  return 0;
}
// what a schedule departs from: 0 everybody runs as far as possible, workers first; 1 the same, callers first; 2 callers
// first, and a pushed task is begun by the next worker at once
static int order;
void vs_order(int o) { order = o; }
// the threads that may run, the current one first; of the workers that have not run anything yet, which are all alike, only one
static int candidates(int self, int *l) {
  int n = 0, idle = 0;
  if (self >= 0 && enabled(self)) l[n++] = self;
  for (int k = 0; k < nt; k++) { int i = order ? (k + nworkers) % nt : k; if (i != self && enabled(i)) { if (T_[i].worker && T_[i].fresh) { if (idle) continue; idle = 1; } l[n++] = i; } }
  return n;
}
static void give(int i) { cur = i; run_len = 0; switches++; T_[i].go = 1; fwake(&T_[i].go); }
static void sleep_(int i) { while (!T_[i].go) fwait(&T_[i].go, 0); T_[i].go = 0; }
static void stop(int s) { status = s; active = 0; finished = 1; fwake(&finished); for (;;) { volatile int z = 0; fwait(&z, 0); } }
// the current thread cannot go on (or is at its end): someone else
static int pick_other(int self) {
  int l[MAXT], n = candidates(self, l);
  if (!n) { for (int i = 0; i < nt; i++) if (T_[i].st == BLOCKED && T_[i].timed) { T_[i].st = RUN; T_[i].woken = 0; return i; } return -1; }
  return l[active ? choose(n, 1) : 0];
}
static void yield_to_someone(int self) {
  int k = pick_other(self);
  // threads the scheduler does not control (which the code under test has started by itself) may still wake somebody
  for (int ms = 0; k < 0 && ms < 1500; ms++) { struct timespec t = { 0, 1000000 }; raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); __sync_synchronize();
    if (ms > 50) for (int i = 0; i < nt; i++) if (T_[i].st == BLOCKED && __atomic_load_n(T_[i].addr, 5) != T_[i].exp) { T_[i].woken = 1; T_[i].st = RUN; }
    k = pick_other(self); }
  if (k < 0) { stop(2); }
  if (k == self) { run_len = 0; return; }
  give(k); sleep_(self);
}
static void point(int pushed) {
  if (me < 0 || !active) return;
  points++;
  if (++steps > max_steps) stop(3);
  int self = me;
  if (++run_len > 20000) { // a thread that spins lets the others go on
    for (int d = 1; d < nt; d++) { int i = (self + d) % nt; if (enabled(i)) { give(i); sleep_(self); return; } }
    for (int i = 0; i < nt; i++) if (T_[i].st == BLOCKED && T_[i].timed) { T_[i].st = RUN; T_[i].woken = 0; break; }
    run_len = 0; return;
  }
  int l[MAXT], n = candidates(self, l);
  if (n == 1) return;
  if (pushed && order == 2) { // the next in line first, the current thread last
    int b = 1; while (b < n && (l[b] < self || !T_[l[b]].worker)) b++;
    if (b == n) { b = 1; while (b < n && !T_[l[b]].worker) b++; }
    if (b < n) { int x = l[b]; for (int i = b; i > 0; i--) l[i] = l[i - 1]; l[0] = x; }
  }
  int k = choose(n, 1);
  if (l[k] != self) { give(l[k]); sleep_(self); }
}
void vs_point(void) { point(0); }
static int take(int self, struct job *j) {
  struct T *t = &T_[self];
  if (t->worker && t->top < t->bot) { *j = t->q[--t->bot]; return 1; }
  int v[MAXT + 1], n = 0;
  for (int i = 0; i < nworkers; i++) if (i != self && T_[i].top < T_[i].bot) v[n++] = i;
  if (itop < ibot) v[n++] = -1;
  if (!n) return 0;
  int k = v[active ? choose(n, 1) : 0];
  if (k < 0) *j = inj[itop++]; else *j = T_[k].q[T_[k].top++];
  return 1;
}
// waits for a latch; a worker executes other tasks meanwhile
void vs_wait(volatile int *latch) {
  int self = me; struct T *t = &T_[self];
  while (!*latch) {
    t->st = WAIT; t->latch = latch;
    if (active && ++steps > max_steps) stop(3);
    yield_to_someone(self);
    t->st = RUN;
    if (*latch) break;
    struct job j; t->fresh = 0;
    if (t->worker && take(self, &j)) { j.fn(j.data); }
  }
}
void vs_push(void (*fn)(void *), void *data) {
  struct T *t = &T_[me]; if (t->top == t->bot) t->top = t->bot = 0; if (t->bot >= MAXJ) abort();
  t->q[t->bot].fn = fn; t->q[t->bot++].data = data; point(1);
}
// takes the task back if nobody has taken it
int vs_pop(void *data) { vs_point(); struct T *t = &T_[me]; if (t->top < t->bot && t->q[t->bot - 1].data == data) { t->bot--; return 1; } return 0; }
void vs_inject(void (*fn)(void *), void *data) { if (itop == ibot) itop = ibot = 0; if (ibot >= MAXJ) abort(); inj[ibot].fn = fn; inj[ibot++].data = data; }
void vs_set(volatile int *latch) { *latch = 1; vs_point(); }
int vs_me(void) { return me; }
int vs_worker(void) { return me >= 0 && T_[me].worker; }
int vs_threads(void) { return me >= 0 && nworkers > 0 ? nworkers : 1; }
int vs_controlled(void) { return me >= 0; }
static void *body(void *p) {
  int i = (int)(long)p; me = i;
  __atomic_fetch_add(&registered, 1, __ATOMIC_SEQ_CST); fwake(&registered);
  sleep_(i);
  if (T_[i].worker) vs_wait(&shutdown_);
  else T_[i].fn(T_[i].data);
  T_[i].st = DONE; me = -1;
  int callers = 0, all = 1; for (int k = 0; k < nt; k++) { if (T_[k].st != DONE) { all = 0; if (!T_[k].worker) callers = 1; } }
  if (all) { finished = 1; fwake(&finished); return 0; }
  if (!callers) { active = 0; shutdown_ = 1; }
  int k = pick_other(-1);
  if (k < 0) { status = 2; active = 0; finished = 1; fwake(&finished); return 0; }
  give(k);
  return 0;
}
// one execution; 1 completed, 2 deadlock, 3 no end
int vs_run(int workers, int callers, void (**fn)(void *), void **data) {
  nworkers = workers; ncallers = callers; nt = workers + callers; itop = ibot = 0; status = 1; shutdown_ = finished = registered = 0; steps = points = switches = 0; run_len = 0; ppos = 0; used = 0;
  for (int i = 0; i < nt; i++) { struct T *t = &T_[i]; t->st = i < workers ? WAIT : RUN; t->worker = t->fresh = i < workers; t->latch = &shutdown_; t->go = 0; t->top = t->bot = 0; t->timed = t->woken = 0; if (i >= workers) { t->fn = fn[i - workers]; t->data = data[i - workers]; } }
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
  for (int i = 0; i < nt; i++) if (pthread_create(&T_[i].th, &a, body, (void *)(long)i)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  pthread_attr_destroy(&a);
  int r; while ((r = registered) < nt) fwait(&registered, r);
  active = 1;
  int k = pick_other(-1);
  give(k);
  while (!finished) fwait(&finished, 0);
  active = 0;
  tot_points += points; tot_switches += switches;
  if (status == 1) for (int i = 0; i < nt; i++) pthread_join(T_[i].th, 0);
  return status;
}
void vs_counts(uint64_t *p, uint64_t *s, uint64_t *d) { *p = tot_points; *s = tot_switches; *d = n_div; }

// ---- blocking of the standard library's locks
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && me >= 0 && active) {
    int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME); uint32_t *p = (uint32_t *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n(p, 5) != (uint32_t)c) { errno = EAGAIN; return -1; }
      struct T *t = &T_[me]; t->st = BLOCKED; t->addr = p; t->exp = c; t->timed = d != 0; t->woken = 0;
      int self = me; yield_to_someone(self);
      t->st = RUN;
      if (t->timed && !t->woken) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int w = 0;
      for (int i = 0; i < nt && w < (int)c; i++) if (T_[i].st == BLOCKED && T_[i].addr == p) { T_[i].st = RUN; T_[i].woken = 1; w++; }
      long r = raw(n, a, b, c, d, e, f);
      if (w) { vs_point(); return w; }
      if (r < 0) { errno = -r; return -1; }
      return r;
    }
  }
  if (n == SYS_futex && me < 0 && active) { // a thread out of control wakes one under control
    int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME), w = 0; uint32_t *p = (uint32_t *)a;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) for (int i = 0; i < nt && w < (int)c; i++) if (T_[i].st == BLOCKED && T_[i].addr == p) { T_[i].woken = 1; __sync_synchronize(); T_[i].st = RUN; w++; }
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield(void) {
  if (me >= 0 && active) { int self = me; for (int d = 1; d < nt; d++) { int i = (self + d) % nt; if (enabled(i)) { give(i); sleep_(self); break; } } return 0; }
  return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

// ---- hooks the compiler inserts (thread sanitizer instrumentation with this runtime in place of the usual one)
extern char __data_start, _end;
enum { W = 1 << 14 };
static uintptr_t written[W]; static int wcount;
static void wrote(void *p) { uintptr_t a = (uintptr_t)p; unsigned h = (a >> 2) * 2654435761u % W; while (written[h] && written[h] != a) h = (h + 1) % W; if (!written[h] && wcount < W / 2) { written[h] = a; wcount++; } }
static int was_written(void *p) { uintptr_t a = (uintptr_t)p; if ((char *)p < &__data_start || (char *)p >= &_end) return 1; if (wcount >= W / 2) return 1; unsigned h = (a >> 2) * 2654435761u % W; while (written[h] && written[h] != a) h = (h + 1) % W; return written[h] != 0; }
// a load of a static nobody ever stores to commutes with everything
#define LD(p) do { if (me >= 0 && active && was_written(p)) vs_point(); } while (0)
#define ST(p) do { if (me >= 0 && active) { wrote(p); vs_point(); } } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
// plain accesses to statics that are written: scheduling points too (there are none in the library as it stands)
#define STATIC(p) ((char *)(p) >= &__data_start && (char *)(p) < &_end)
static void plain_read(void *p) { if (me >= 0 && active && STATIC(p) && was_written(p)) vs_point(); }
static void plain_write(void *p) { if (me >= 0 && active && STATIC(p)) { wrote(p); vs_point(); } }
#define RW(n) void __tsan_read##n(void *p) { plain_read(p); } void __tsan_write##n(void *p) { plain_write(p); } void __tsan_unaligned_read##n(void *p) { plain_read(p); } void __tsan_unaligned_write##n(void *p) { plain_write(p); } void __tsan_read_write##n(void *p) { plain_write(p); } void __tsan_unaligned_read_write##n(void *p) { plain_write(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_read_range(void *p, uint64_t n) {}
void __tsan_write_range(void *p, uint64_t n) {}
void __tsan_atomic_thread_fence(int m) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) {}
#define AT(n, t) \
  t __tsan_atomic##n##_load(t *p, int m) { LD(p); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##n##_store(t *p, t v, int m) { ST(p); __atomic_store_n(p, v, 5); } \
  t __tsan_atomic##n##_exchange(t *p, t v, int m) { ST(p); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##n##_fetch_add(t *p, t v, int m) { ST(p); return __atomic_fetch_add(p, v, 5); } \
  t __tsan_atomic##n##_fetch_sub(t *p, t v, int m) { ST(p); return __atomic_fetch_sub(p, v, 5); } \
  t __tsan_atomic##n##_fetch_and(t *p, t v, int m) { ST(p); return __atomic_fetch_and(p, v, 5); } \
  t __tsan_atomic##n##_fetch_or(t *p, t v, int m) { ST(p); return __atomic_fetch_or(p, v, 5); } \
  t __tsan_atomic##n##_fetch_xor(t *p, t v, int m) { ST(p); return __atomic_fetch_xor(p, v, 5); } \
  t __tsan_atomic##n##_fetch_nand(t *p, t v, int m) { ST(p); return __atomic_fetch_nand(p, v, 5); } \
  t __tsan_atomic##n##_compare_exchange_val(t *p, t e, t v, int m, int f) { ST(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; } \
  int __tsan_atomic##n##_compare_exchange_strong(t *p, t *e, t v, int m, int f) { ST(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(t *p, t *e, t v, int m, int f) { ST(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void *__tsan_memcpy(void *d, const void *s, uint64_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, uint64_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, uint64_t n) { return memset(d, c, n); }
