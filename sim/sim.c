#define _GNU_SOURCE
#include "sim.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define NEVER_T INT64_MIN
#define FOREVER_T INT64_MAX
#define MAXT 512
#define MAXN 16
#define MAXS 512

/* ------------------------------------------------------------------ trace output */
static int out_fd = -1;
static char* obuf;
static size_t olen, ocap = 1 << 22;
static void oflush(void) {
  size_t o = 0;
  while (o < olen) {
    ssize_t k = syscall(SYS_write, out_fd, obuf + o, olen - o);
    if (k <= 0) break;
    o += (size_t)k;
  }
  olen = 0;
}
static uint64_t emit_count;
static uint64_t max_emit = 200000;
void sim_emit(const char* fmt, ...) {
  if (ocap - olen < 65536) oflush();
  if (++emit_count > max_emit) {
    if (emit_count == max_emit + 1) {
      olen += (size_t)sprintf(obuf + olen, "{\"e\":\"runaway\"}\n");
      oflush();
      syscall(SYS_exit_group, 40);
    }
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(obuf + olen, ocap - olen - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if ((size_t)n > ocap - olen - 2) n = (int)(ocap - olen - 2);
  olen += (size_t)n;
  obuf[olen++] = '\n';
}

/* ------------------------------------------------------------------ parameters, randomness */
static struct { char k[48]; char v[8192]; } params[64];
static int nparams;
const char* sim_param(const char* key, const char* dflt) {
  for (int i = 0; i < nparams; i++)
    if (strcmp(params[i].k, key) == 0) return params[i].v;
  return dflt;
}
long sim_paraml(const char* key, long dflt) {
  const char* s = sim_param(key, NULL);
  return s ? strtol(s, NULL, 10) : dflt;
}
static uint64_t rs_sched, rs_user, rs_net;
static uint32_t rnd(uint64_t* s) {
  *s += 0x9E3779B97F4A7C15ULL;
  uint64_t z = *s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return (uint32_t)((z ^ (z >> 31)) >> 16);
}
uint32_t sim_rand(void) { return rnd(&rs_user); }

/* ------------------------------------------------------------------ threads */
enum { RUN, B_MUTEX, B_COND, B_SLEEP, B_JOIN, B_IO, B_QUIESCE, B_QUIESCE0, DONE, DEAD };
static const char* st_name[] = {"run", "mutex", "cond", "sleep", "join", "io", "quiesce", "quiesce0", "done", "dead"};
typedef struct thr {
  int id, node, state;
  sem_t sem;
  pthread_t pt;
  void* obj;
  int64_t deadline; // FOREVER_T if none
  int timed_out;
  int noswitch;
  int64_t last_read; // when this thread last read the clock
  int64_t last_val;  // and what the runtime made of that
  int prio;
  int blocks;
  uint64_t streak;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  const char* name;
  uint64_t stalled;    // not chosen before this step unless nobody else can run
} thr_t;
static thr_t* T[MAXT];
static int nthreads;
static thr_t* cur;
static __thread thr_t* self_t;
static int64_t now_ns;
static uint64_t steps, max_steps;
static int strat, sw_pct, stall_every, stall_len, clock_jitter, clock_frozen;
static uint64_t cp_at[64];
static int ncp, lowest_prio;
static int quiet;
static int tell_quiet;
static uint64_t last_quiet;

typedef struct {
  int used, dead, exited;
  int main_tid;
  void (*atexit_fn[16])(void);
  int natexit;
  int code;
  char name[32];
} node_t;
static node_t N[MAXN];
static int nnodes;
static int64_t node_offset[MAXN];  // per-node clock offset (for clock sync experiments)
static int64_t node_ppm[MAXN];     // per-node clock drift in ppm

__attribute__((noreturn)) static void finish(int code) {
  oflush();
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
void sim_finish(int code) { finish(code); }

static int io_ready(thr_t* t);
static void dump_threads(const char* why) {
  char b[8192];
  int n = 0;
  for (int i = 0; i < nthreads && n < 7000; i++)
    if (T[i]->state != DONE && T[i]->state != DEAD)
      n += sprintf(b + n, "%s{\"t\":%d,\"node\":%d,\"s\":\"%s\",\"name\":\"%s\"}", n ? "," : "", i, T[i]->node,
                   st_name[T[i]->state], T[i]->name ? T[i]->name : "");
  b[n] = 0;
  sim_emit("{\"e\":\"%s\",\"now\":%ld,\"steps\":%lu,\"threads\":[%s]}", why, (long)now_ns, (unsigned long)steps, b);
}

static int runnable(thr_t* t) {
  switch (t->state) {
  case RUN: return 1;
  case B_COND: return t->deadline <= now_ns;
  case B_SLEEP: return t->deadline <= now_ns;
  case B_IO: return t->deadline <= now_ns || io_ready(t);
  default: return 0;
  }
}
static int64_t io_next_time(thr_t* t);

static thr_t* pick(int may_stay) {
  thr_t* c[MAXT];
  steps++;
  if (steps > max_steps) {
    dump_threads("livelock");
    finish(41);
  }
  if (stall_every && may_stay && cur && rnd(&rs_sched) % (uint64_t)stall_every == 0)
    cur->stalled = steps + 1 + rnd(&rs_sched) % (uint64_t)stall_len;
  for (;;) {
    int n = 0;
    for (int i = 0; i < nthreads; i++)
      if (T[i]->stalled <= steps && runnable(T[i])) c[n++] = T[i];
    if (n == 0)
      for (int i = 0; i < nthreads; i++)
        if (runnable(T[i])) c[n++] = T[i];
    if (n == 0) {
      // Quiescence waiters (time may not have advanced).
      for (int i = 0; i < nthreads; i++)
        if (T[i]->state == B_QUIESCE0) { T[i]->state = RUN; return T[i]; }
      int64_t d = FOREVER_T;
      for (int i = 0; i < nthreads; i++) {
        thr_t* t = T[i];
        if (t->state == B_COND || t->state == B_SLEEP || t->state == B_IO)
          if (t->deadline < d) d = t->deadline;
        if (t->state == B_IO) {
          int64_t x = io_next_time(t);
          if (x < d) d = x;
        }
      }
      for (int i = 0; i < nthreads; i++)
        if (T[i]->state == B_QUIESCE && (d == FOREVER_T || T[i]->deadline <= d)) { T[i]->state = RUN; return T[i]; }
      if (d == FOREVER_T) {
        dump_threads("deadlock");
        finish(42);
      }
      if (tell_quiet && emit_count != last_quiet) {
        sim_emit("{\"e\":\"quiet\",\"now\":%ld}", (long)now_ns);
        last_quiet = emit_count;
      }
      now_ns = d;
      continue;
    }
    thr_t* p = NULL;
    if (strat == 2) { // PCT
      for (int i = 0; i < ncp; i++)
        if (cp_at[i] == steps && cur) cur->prio = --lowest_prio;
      if (cur && cur->streak > 5000) { cur->prio = --lowest_prio; cur->streak = 0; }
      for (int i = 0; i < n; i++)
        if (!p || c[i]->prio > p->prio) p = c[i];
    } else {
      if (may_stay && cur && cur->stalled <= steps && runnable(cur) && cur->streak < 20000 && (int)(rnd(&rs_sched) % 100) >= sw_pct)
        p = cur;
      else
        p = c[rnd(&rs_sched) % (unsigned)n];
    }
    if (p == cur) p->streak++;
    else p->streak = 0;
    return p;
  }
}

static void settle(thr_t* t) { // on being chosen
  if (t->state == B_COND) { t->timed_out = 1; }
  if (t->state == B_IO || t->state == B_SLEEP || t->state == B_COND) {
    if (t->state == B_IO) t->timed_out = !io_ready(t);
    t->state = RUN;
  }
}
static void sw(int may_stay) {
  thr_t* me = self_t;
  thr_t* n = pick(may_stay);
  settle(n);
  if (n == me) return;
  cur = n;
  sem_post(&n->sem);
  if (me->state == DONE) return;
  while (sem_wait(&me->sem) != 0) {}
  while (me->state == DEAD) { sem_wait(&me->sem); }
}
static void yield_point(void) {
  thr_t* me = self_t;
  if (!me || me->noswitch) { steps++; return; }
  sw(1);
}
void sim_yield(void) { yield_point(); }
static void block(int st, void* obj, int64_t deadline) {
  thr_t* me = self_t;
  me->state = st;
  me->obj = obj;
  me->deadline = deadline;
  me->timed_out = 0;
  me->blocks++;
  sw(0);
}
void sim_atomic_begin(void) { self_t->noswitch++; }
void sim_atomic_end(void) { self_t->noswitch--; }
void sim_freeze_clock(int on) { clock_frozen += on ? 1 : -1; }
sim_time_t sim_now(void) { return now_ns; }
// Marks the start of a call; afterwards: how long ago the clock was last read in it, 0 if it was not.
void sim_clock_mark(void) { self_t->last_read = self_t->last_val = -1; }
void sim_clock_read(sim_time_t v) { if (self_t) self_t->last_val = v; }
// The last value that the runtime got from its clock since the mark, -1 if none.
sim_time_t sim_clock_value(void) { return self_t->last_val; }
sim_time_t sim_clock_age(void) { return self_t->last_read < 0 ? 0 : now_ns - self_t->last_read; }
uint64_t sim_step(void) { return steps; }
int sim_thread_index(void) { return self_t ? self_t->id : -1; }
int sim_node_index(void) { return self_t ? self_t->node : -1; }
int sim_block_count(void) { return self_t->blocks; }
void sim_sleep(sim_time_t d) {
  if (d <= 0) { yield_point(); return; }
  block(B_SLEEP, NULL, now_ns > FOREVER_T - d ? FOREVER_T : now_ns + d);
}
void sim_wait_quiescent_notime(void) { block(B_QUIESCE0, NULL, FOREVER_T); }
void sim_wait_quiescent(void) { block(B_QUIESCE, NULL, FOREVER_T); }

static void* tramp(void* a) {
  thr_t* t = (thr_t*)a;
  self_t = t;
  while (sem_wait(&t->sem) != 0) {}
  while (t->state == DEAD) { sem_wait(&t->sem); }
  t->ret = t->fn(t->arg);
  t->state = DONE;
  for (int i = 0; i < nthreads; i++)
    if (T[i]->state == B_JOIN && T[i]->obj == t) T[i]->state = RUN;
  sw(0);
  return NULL;
}
static thr_t* spawn(int node, void* (*fn)(void*), void* arg, const char* name) {
  if (nthreads >= MAXT) { dump_threads("too_many_threads"); finish(43); }
  thr_t* t = (thr_t*)calloc(1, sizeof *t);
  t->id = nthreads;
  t->node = node;
  sem_init(&t->sem, 0, 0);
  t->fn = fn;
  t->arg = arg;
  t->name = name;
  t->deadline = FOREVER_T;
  t->prio = (int)(rnd(&rs_sched) % 1000000) + 1000;
  T[nthreads++] = t;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  pthread_create(&t->pt, &at, tramp, t);
  t->state = RUN;
  return t;
}
int sim_thread_create(void* (*fn)(void*), void* arg, const char* name) {
  thr_t* t = spawn(self_t->node, fn, arg, name);
  yield_point();
  return t->id;
}

/* ------------------------------------------------------------------ platform API */
#define MAGIC 0x51D0CAFEu
typedef struct { uint32_t magic; int owner, count, rec; } smutex_t;
static void perr(const char* what) { sim_emit("{\"e\":\"misuse\",\"what\":\"%s\",\"t\":%d}", what, sim_thread_index()); }

int sim_pthread_create(pthread_t* th, const void* attr, void* (*fn)(void*), void* arg) {
  (void)attr;
  thr_t* t = spawn(self_t->node, fn, arg, NULL);
  *th = (pthread_t)(t->id + 1);
  yield_point();
  return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(self_t->id + 1); }
int __wrap_pthread_join(pthread_t th, void** ret) {
  long id = (long)th - 1;
  if (id < 0 || id >= nthreads) { return ESRCH; }
  thr_t* t = T[id];
  if (t->state == DEAD) { // a thread of a dead node
    block(B_JOIN, NULL, FOREVER_T);
  }
  if (t == self_t) return EDEADLK;
  while (t->state != DONE) block(B_JOIN, t, FOREVER_T);
  if (ret) *ret = t->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) { (void)t; return 0; }
int __wrap_pthread_cancel(pthread_t t) { (void)t; return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const void* c) { (void)t; (void)n; (void)c; return 0; }
int __wrap_pthread_getschedparam(pthread_t t, int* p, struct sched_param* s) { (void)t; *p = SCHED_OTHER; s->sched_priority = 0; return 0; }
int __wrap_pthread_setschedparam(pthread_t t, int p, const struct sched_param* s) { (void)t; (void)p; (void)s; return 0; }
int __wrap_pthread_setschedprio(pthread_t t, int p) { (void)t; (void)p; return 0; }

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  smutex_t* s = (smutex_t*)m;
  int ty = PTHREAD_MUTEX_NORMAL;
  if (at) pthread_mutexattr_gettype(at, &ty);
  memset(m, 0, sizeof(pthread_mutex_t));
  s->magic = MAGIC;
  s->owner = -1;
  s->count = 0;
  s->rec = ty == PTHREAD_MUTEX_RECURSIVE;
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  smutex_t* s = (smutex_t*)m;
  if (s->magic == MAGIC && s->owner >= 0) perr("destroy_locked_mutex");
  return 0;
}
static void mcheck(smutex_t* s) {
  if (s->magic != MAGIC) { s->magic = MAGIC; s->owner = -1; s->count = 0; s->rec = 0; }
}
static void acquire(smutex_t* s) {
  if (s->owner == self_t->id && s->rec) { s->count++; return; }
  while (s->owner != -1) block(B_MUTEX, s, FOREVER_T);
  s->owner = self_t->id;
  s->count = 1;
}
static void wake_mutex(smutex_t* s) {
  for (int i = 0; i < nthreads; i++)
    if (T[i]->state == B_MUTEX && T[i]->obj == s) T[i]->state = RUN;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!self_t) return 0;
  smutex_t* s = (smutex_t*)m;
  mcheck(s);
  if (s->owner != self_t->id) yield_point();
  acquire(s);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  smutex_t* s = (smutex_t*)m;
  mcheck(s);
  yield_point();
  if (s->owner == -1 || (s->owner == self_t->id && s->rec)) { acquire(s); return 0; }
  return EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!self_t) return 0;
  smutex_t* s = (smutex_t*)m;
  mcheck(s);
  if (s->owner != self_t->id) { perr("unlock_not_owner"); return EPERM; }
  if (--s->count > 0) return 0;
  s->owner = -1;
  wake_mutex(s);
  yield_point();
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const void* a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }
static int cwait(void* c, smutex_t* m, int64_t deadline) {
  mcheck(m);
  if (m->owner != self_t->id) { perr("cond_wait_not_owner"); return EPERM; }
  if (m->count > 1) perr("cond_wait_nested");
  int cnt = m->count;
  if (--m->count == 0) { m->owner = -1; wake_mutex(m); }
  block(B_COND, c, deadline);
  int to = self_t->timed_out;
  acquire(m);
  m->count = cnt;
  return to ? ETIMEDOUT : 0;
}
static int64_t to_global(int node, int64_t local);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, (smutex_t*)m, FOREVER_T); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
  int64_t w = ts->tv_sec > 9000000000LL ? FOREVER_T : (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
  return cwait(c, (smutex_t*)m, to_global(self_t->node, w));
}
static int csignal(void* c, int all) {
  thr_t* w[MAXT];
  int n = 0;
  if (!self_t) return 0;
  // Time passes while this thread holds its locks; waits may time out before the signal arrives.
  if (clock_jitter && (rnd(&rs_sched) & 1)) now_ns += rnd(&rs_sched) % (uint32_t)(clock_jitter + 1);
  for (int i = 0; i < nthreads; i++)
    if (T[i]->state == B_COND && T[i]->obj == c && (T[i]->deadline > now_ns || (rnd(&rs_sched) & 1))) w[n++] = T[i];
  if (n) {
    if (all) for (int i = 0; i < n; i++) w[i]->state = RUN;
    else w[rnd(&rs_sched) % (unsigned)n]->state = RUN;
  }
  yield_point();
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return csignal(c, 0); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return csignal(c, 1); }

static int64_t to_local(int node, int64_t g) { return g + node_offset[node] + (node_ppm[node] ? (g / 1000000) * node_ppm[node] : 0); }
static int64_t to_global(int node, int64_t l) {
  if (l == FOREVER_T) return FOREVER_T;
  if (node_ppm[node]) { // invert approximately, then fix up so that to_local(result) >= l
    int64_t g = l - node_offset[node];
    for (int i = 0; i < 4; i++) g = l - node_offset[node] - (g / 1000000) * node_ppm[node];
    while (to_local(node, g) < l) g++;
    return g;
  }
  return l - node_offset[node];
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  (void)id;
  int nd = self_t ? self_t->node : 0;
  if (clock_jitter && !clock_frozen && self_t && !self_t->noswitch) {
    uint32_t r = rnd(&rs_sched);
    if ((r & 3) == 0) now_ns += (r >> 2) % (uint32_t)(clock_jitter + 1);
  }
  if (self_t) self_t->last_read = now_ns;
  int64_t l = to_local(nd, now_ns);
  ts->tv_sec = l / 1000000000LL;
  ts->tv_nsec = l % 1000000000LL;
  return 0;
}
int __wrap_clock_getres(clockid_t id, struct timespec* ts) { (void)id; ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  (void)b;
  if (a->tv_nsec < 0 || a->tv_nsec >= 1000000000L || a->tv_sec < 0) { errno = EINVAL; return -1; }
  int64_t d = a->tv_sec > 9000000000LL ? FOREVER_T : (int64_t)a->tv_sec * 1000000000LL + a->tv_nsec;
  if (node_ppm[self_t->node]) { int64_t l = to_local(self_t->node, now_ns); if (d < FOREVER_T / 2) d = to_global(self_t->node, l + d) - now_ns; }
  sim_sleep(d);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec* a, struct timespec* b) {
  if (flags & TIMER_ABSTIME) {
    int64_t w = to_global(self_t->node, (int64_t)a->tv_sec * 1000000000LL + a->tv_nsec);
    sim_sleep(w - now_ns);
    return 0;
  }
  return __wrap_nanosleep(a, b);
}
int __wrap_usleep(unsigned us) { sim_sleep((int64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep((int64_t)s * 1000000000LL); return 0; }

/* ------------------------------------------------------------------ node exit */
static void close_node_sockets(int node);
static void node_gone(int node) {
  N[node].dead = 1;
  for (int i = 0; i < nthreads; i++)
    if (T[i]->node == node && T[i] != self_t && T[i]->state != DONE) T[i]->state = DEAD;
  close_node_sockets(node);
}
void sim_kill_node(int node) {
  sim_emit("{\"e\":\"killed\",\"node\":%d,\"now\":%ld}", node, (long)now_ns);
  node_gone(node);
  // Mutexes of the node are its own; nothing else to do.
  bool all = true;
  for (int i = 0; i < nnodes; i++) if (!N[i].dead) all = false;
  if (all) finish(0);
}
void sim_exit(int code) {
  int n = self_t->node;
  if (!N[n].exited) {
    N[n].exited = 1;
    while (N[n].natexit > 0) N[n].atexit_fn[--N[n].natexit]();
  }
  N[n].code = code;
  sim_emit("{\"e\":\"exit\",\"node\":%d,\"code\":%d,\"now\":%ld}", n, code, (long)now_ns);
  node_gone(n);
  bool all = true;
  for (int i = 0; i < nnodes; i++)
    if (!N[i].dead) all = false;
  if (all) {
    sim_emit("{\"e\":\"end\",\"steps\":%lu,\"now\":%ld}", (unsigned long)steps, (long)now_ns);
    finish(0);
  }
  self_t->state = DONE;
  sw(0);
  for (;;) pause();
}
void __wrap_exit(int code) { sim_exit(code); }
int __wrap_atexit(void (*f)(void)) {
  node_t* n = &N[self_t->node];
  if (n->natexit < 16) n->atexit_fn[n->natexit++] = f;
  return 0;
}
void* __wrap_signal(int s, void* h) { (void)s; (void)h; return NULL; }
void __wrap___assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/');
  sim_emit("{\"e\":\"assert\",\"node\":%d,\"file\":\"%s\",\"line\":%u,\"fn\":\"%s\"}", sim_node_index(), b ? b + 1 : file, line, fn);
  fprintf(stderr, "assert %s %s:%u %s\n", e, file, line, fn);
  finish(44);
}
int __wrap_rand(void) { return (int)(rnd(&rs_user) & 0x7fffffff); }
/* ------------------------------------------------------------------ sockets */
typedef struct chunk { struct chunk* next; int64_t avail; size_t len, off; int from_port; unsigned char d[]; } chunk_t;
typedef struct sock {
  int fd, node, type, used; // type SOCK_STREAM / SOCK_DGRAM
  int bound_port, listening, connected;
  struct sock* peer;        // stream peer
  int dpeer;                // datagram default destination port
  struct sock* backlog[64];
  int nbacklog;
  chunk_t *head, *tail;     // incoming data
  int wr_shut, rd_shut, eof, reset, closed;
  int64_t rcvtimeo, last_avail;
  int64_t lat_lo, lat_hi;
  int conn_id;
  int side;
} sock_t;
static sock_t* S[MAXS];
static int nsocks, nconns;
static int next_port = 30000;
static int net_partial, net_eintr, net_loss, net_log = 1;      // net_loss: percentage of datagrams that are lost
static int64_t net_lat_lo, net_lat_hi, net_ulat_lo, net_ulat_hi, net_wdelay, net_wdelay0;      // u: of datagrams; wdelay: a write takes up to that long (0: of node 0)
#define FD0 1000
static sock_t* sk(int fd) {
  int i = fd - FD0;
  if (i < 0 || i >= nsocks || !S[i] || S[i]->closed) return NULL;
  return S[i];
}
static size_t avail_bytes(sock_t* s) {
  size_t n = 0;
  for (chunk_t* c = s->head; c && c->avail <= now_ns; c = c->next) n += c->len - c->off;
  return n;
}
int sim_sock_pending(int fd) { sock_t* s = sk(fd); return s ? (int)avail_bytes(s) : -1; }
static int io_ready(thr_t* t) {
  sock_t* s = (sock_t*)t->obj;
  if (!s) return 0;
  if (s->closed || s->rd_shut || s->reset) return 1;
  if (s->listening) return s->nbacklog > 0;
  if (s->head && s->head->avail <= now_ns) return 1;
  if (s->eof && !s->head) return 1;
  return 0;
}
static int64_t io_next_time(thr_t* t) {
  sock_t* s = (sock_t*)t->obj;
  if (s && s->head) return s->head->avail;
  return FOREVER_T;
}
int __wrap_socket(int dom, int type, int proto) {
  (void)dom; (void)proto;
  if (nsocks >= MAXS) { errno = EMFILE; return -1; }
  sock_t* s = (sock_t*)calloc(1, sizeof *s);
  s->fd = FD0 + nsocks;
  s->node = self_t->node;
  s->type = type & 0xf;
  s->used = 1;
  s->conn_id = -1;
  s->lat_lo = s->type == SOCK_DGRAM ? net_ulat_lo : net_lat_lo;
  s->lat_hi = s->type == SOCK_DGRAM ? net_ulat_hi : net_lat_hi;
  S[nsocks++] = s;
  return s->fd;
}
static int port_taken(int port, int type) {
  for (int i = 0; i < nsocks; i++)
    if (S[i] && !S[i]->closed && S[i]->bound_port == port && S[i]->type == type && (S[i]->listening || type == SOCK_DGRAM || !S[i]->connected)) return 1;
  return 0;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) {
  (void)l;
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (port == 0) { do { port = next_port++; } while (port_taken(port, s->type)); }
  else if (port_taken(port, s->type)) { errno = EADDRINUSE; return -1; }
  s->bound_port = port;
  return 0;
}
int __wrap_listen(int fd, int b) {
  (void)b;
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  if (!s->bound_port) s->bound_port = next_port++;
  s->listening = 1;
  return 0;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  while (s->nbacklog == 0) {
    if (s->closed || s->rd_shut) { errno = EINVAL; return -1; }
    block(B_IO, s, s->rcvtimeo ? now_ns + s->rcvtimeo : FOREVER_T);
    if (s->closed) { errno = EBADF; return -1; }
    if (s->nbacklog == 0 && self_t->timed_out) { errno = EAGAIN; return -1; }
  }
  sock_t* n = s->backlog[0];
  memmove(s->backlog, s->backlog + 1, sizeof(sock_t*) * (size_t)(--s->nbacklog));
  n->node = s->node;
  if (a && l) {
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    in.sin_port = htons(40000);
    memcpy(a, &in, *l < sizeof in ? *l : sizeof in);
    *l = sizeof in;
  }
  return n->fd;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) {
  (void)l;
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (s->type == SOCK_DGRAM) { s->dpeer = port; s->connected = 1; if (!s->bound_port) s->bound_port = next_port++; return 0; }
  for (int i = 0; i < nsocks; i++) {
    sock_t* q = S[i];
    if (q && !q->closed && q->listening && q->bound_port == port && !q->rd_shut && q->nbacklog < 60) {
      int nfd = __wrap_socket(AF_INET, SOCK_STREAM, 0);
      sock_t* n = sk(nfd);
      n->node = q->node;
      n->peer = s;
      s->peer = n;
      n->connected = s->connected = 1;
      n->rcvtimeo = 0;
      n->conn_id = s->conn_id = nconns++;
      n->side = 1;
      s->side = 0;
      if (net_log) sim_emit("{\"e\":\"conn\",\"c\":%d,\"from\":%d,\"to\":%d,\"port\":%d}", s->conn_id, s->node, q->node, port);
      q->backlog[q->nbacklog++] = n;
      return 0;
    }
  }
  errno = ECONNREFUSED;
  return -1;
}
static void put(sock_t* dst, const void* b, size_t n, int from_port, int64_t lo, int64_t hi) {
  chunk_t* c = (chunk_t*)malloc(sizeof *c + n);
  c->next = NULL;
  c->len = n;
  c->off = 0;
  c->from_port = from_port;
  memcpy(c->d, b, n);
  c->avail = now_ns + lo + (hi > lo ? (int64_t)(rnd(&rs_net) % (uint64_t)(hi - lo + 1)) : 0);
  if (dst->type == SOCK_STREAM && c->avail < dst->last_avail) c->avail = dst->last_avail;
  dst->last_avail = c->avail;
  if (dst->tail) dst->tail->next = c;
  else dst->head = c;
  dst->tail = c;
}
static void hexlog(const char* kind, sock_t* s, const unsigned char* b, size_t n) {
  if (!net_log || s->conn_id < 0) return;
  char h[2 * 400 + 1];
  size_t m = n < 400 ? n : 400;
  for (size_t i = 0; i < m; i++) sprintf(h + 2 * i, "%02x", b[i]);
  h[2 * m] = 0;
  sim_emit("{\"e\":\"%s\",\"c\":%d,\"s\":%d,\"n\":%d,\"t\":%d,\"now\":%ld,\"d\":\"%s\"}", kind, s->conn_id, s->side, self_t->node,
           self_t->id, (long)now_ns, h);
}
static void dgramlog(const char* kind, int other, const unsigned char* b, size_t n) {
  if (!net_log) return;
  char h[2 * 40 + 1];
  size_t m = n < 40 ? n : 40;
  for (size_t i = 0; i < m; i++) sprintf(h + 2 * i, "%02x", b[i]);
  h[2 * m] = 0;
  sim_emit("{\"e\":\"%s\",\"n\":%d,\"o\":%d,\"now\":%ld,\"d\":\"%s\"}", kind, self_t->node, other, (long)now_ns, h);
}
static void dgram(sock_t* s, int port, const void* b, size_t n) {
  for (int i = 0; i < nsocks; i++)
    if (S[i] && !S[i]->closed && S[i]->type == SOCK_DGRAM && S[i]->bound_port == port) {
      int lost = net_loss && rnd(&rs_net) % 100 < (unsigned)net_loss;
      dgramlog(lost ? "ul" : "uw", S[i]->node, (const unsigned char*)b, n);
      if (!lost) put(S[i], b, n, s->bound_port, s->lat_lo, s->lat_hi);
      break;
    }
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd < FD0) return syscall(SYS_write, fd, b, n);
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  if (net_eintr && rnd(&rs_net) % 100 < (unsigned)net_eintr) { errno = (rnd(&rs_net) & 1) ? EINTR : EAGAIN; return -1; }
  int64_t wd = s->node ? net_wdelay : net_wdelay0;
  if (wd) sim_sleep((int64_t)(rnd(&rs_net) % (uint64_t)(wd + 1)));
  if (s->type == SOCK_DGRAM) {
    dgram(s, s->dpeer, b, n);
    return (ssize_t)n;
  }
  if (!s->connected || s->wr_shut) { errno = EPIPE; return -1; }
  if (!s->peer || s->peer->closed || s->reset) { errno = s->reset ? ECONNRESET : EPIPE; return -1; }
  if (net_partial && n > 1 && (rnd(&rs_net) % 100) < (unsigned)net_partial) n = 1 + rnd(&rs_net) % (unsigned)n;
  hexlog("w", s, (const unsigned char*)b, n);
  put(s->peer, b, n, 0, s->lat_lo, s->lat_hi);
  return (ssize_t)n;
}
static ssize_t do_read(int fd, void* b, size_t n, int flags, int* from_port) {
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  if (s->type == SOCK_STREAM && !s->connected) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  if (net_eintr && !(flags & MSG_PEEK) && rnd(&rs_net) % 100 < (unsigned)net_eintr) { errno = (rnd(&rs_net) & 1) ? EINTR : EAGAIN; return -1; }
  int64_t dl = s->rcvtimeo ? now_ns + s->rcvtimeo : FOREVER_T;
  for (;;) {
    if (s->closed) { errno = EBADF; return -1; }
    if (s->rd_shut) return 0;
    if (s->head && s->head->avail <= now_ns) break;
    if (s->reset || (s->eof && !s->head)) {
      if (net_log && s->conn_id >= 0) sim_emit("{\"e\":\"eof\",\"c\":%d,\"s\":%d,\"n\":%d,\"now\":%ld}", s->conn_id, s->side, s->node, (long)now_ns);
      if (!s->reset) return 0;
      errno = ECONNRESET;
      return -1;
    }
    if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
    if (now_ns >= dl) { errno = EAGAIN; return -1; }
    block(B_IO, s, dl);
  }
  if (s->type == SOCK_DGRAM) {
    chunk_t* c = s->head;
    size_t k = c->len < n ? c->len : n;
    memcpy(b, c->d, k);
    dgramlog("ur", 0, c->d, k);
    if (from_port) *from_port = c->from_port;
    s->head = c->next;
    if (!s->head) s->tail = NULL;
    free(c);
    return (ssize_t)k;
  }
  size_t av = avail_bytes(s);
  if (n > av) n = av;
  if (net_partial && n > 1 && !(flags & MSG_PEEK) && (rnd(&rs_net) % 100) < (unsigned)net_partial) n = 1 + rnd(&rs_net) % (unsigned)n;
  if (flags & MSG_PEEK) { memcpy(b, s->head->d + s->head->off, 1); return 1; }
  size_t got = 0;
  while (got < n) {
    chunk_t* c = s->head;
    size_t k = c->len - c->off;
    if (k > n - got) k = n - got;
    memcpy((char*)b + got, c->d + c->off, k);
    got += k;
    c->off += k;
    if (c->off == c->len) {
      s->head = c->next;
      if (!s->head) s->tail = NULL;
      free(c);
    }
  }
  hexlog("r", s, (unsigned char*)b, got);
  return (ssize_t)got;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd < FD0 && fd >= 0) return syscall(SYS_read, fd, b, n);
  return do_read(fd, b, n, 0, NULL);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int flags) { return do_read(fd, b, n, flags, NULL); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  int fp = 0;
  ssize_t r = do_read(fd, b, n, flags, &fp);
  if (r >= 0 && a && l) {
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    in.sin_port = htons((uint16_t)fp);
    memcpy(a, &in, *l < sizeof in ? *l : sizeof in);
    *l = sizeof in;
  }
  return r;
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
  (void)flags; (void)l;
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  int port = a ? ntohs(((const struct sockaddr_in*)a)->sin_port) : s->dpeer;
  int64_t wd = s->node ? net_wdelay : net_wdelay0;
  if (wd) sim_sleep((int64_t)(rnd(&rs_net) % (uint64_t)(wd + 1)));
  dgram(s, port, b, n);
  return (ssize_t)n;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int flags) { (void)flags; return __wrap_write(fd, b, n); }
static void do_shutdown(sock_t* s, int how) {
  if (how == SHUT_WR || how == SHUT_RDWR) {
    if (!s->wr_shut) {
      s->wr_shut = 1;
      if (s->peer) s->peer->eof = 1;
      if (net_log && s->conn_id >= 0) sim_emit("{\"e\":\"shut\",\"c\":%d,\"s\":%d,\"n\":%d}", s->conn_id, s->side, s->node);
    }
  }
  if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = 1;
}
int __wrap_shutdown(int fd, int how) {
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  if (s->type == SOCK_STREAM && !s->connected && !s->listening) { errno = ENOTCONN; return -1; }
  do_shutdown(s, how);
  return 0;
}
int __wrap_close(int fd) {
  if (fd >= 0 && fd < FD0) return (int)syscall(SYS_close, fd);
  yield_point();
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  bool unread = s->head != NULL;
  do_shutdown(s, SHUT_RDWR);
  if (s->peer && unread) { /* a real TCP stack would send RST */ }
  for (int i = 0; i < s->nbacklog; i++) { do_shutdown(s->backlog[i], SHUT_RDWR); s->backlog[i]->closed = 1; }
  s->closed = 1;
  return 0;
}
static void close_node_sockets(int node) {
  for (int i = 0; i < nsocks; i++)
    if (S[i]->node == node && !S[i]->closed) {
      do_shutdown(S[i], SHUT_RDWR);
      S[i]->closed = 1;
      for (int k = 0; k < S[i]->nbacklog; k++) { do_shutdown(S[i]->backlog[k], SHUT_RDWR); S[i]->backlog[k]->closed = 1; }
    }
}
int __wrap_setsockopt(int fd, int lvl, int name, const void* v, socklen_t l) {
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && name == SO_RCVTIMEO && l >= sizeof(struct timeval)) {
    const struct timeval* tv = (const struct timeval*)v;
    s->rcvtimeo = (int64_t)tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
  }
  return 0;
}
int __wrap_getsockopt(int fd, int lvl, int name, void* v, socklen_t* l) { (void)fd; (void)lvl; (void)name; if (v && l && *l >= 4) *(int*)v = 0; return 0; }
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  sock_t* s = sk(fd);
  if (!s) { errno = EBADF; return -1; }
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons((uint16_t)s->bound_port);
  memcpy(a, &in, *l < sizeof in ? *l : sizeof in);
  *l = sizeof in;
  return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l) { return __wrap_getsockname(fd, a, l); }
int __wrap_getaddrinfo(const char* host, const char* svc, const struct addrinfo* h, struct addrinfo** res) {
  (void)host; (void)h;
  struct { struct addrinfo ai; struct sockaddr_in in; }* x = calloc(1, sizeof *x);
  x->in.sin_family = AF_INET;
  x->in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  x->in.sin_port = htons((uint16_t)atoi(svc ? svc : "0"));
  x->ai.ai_family = AF_INET;
  x->ai.ai_socktype = SOCK_STREAM;
  x->ai.ai_addr = (struct sockaddr*)&x->in;
  x->ai.ai_addrlen = sizeof x->in;
  *res = &x->ai;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* r) { free(r); }
void sim_set_latency(int fd, sim_time_t lo, sim_time_t hi) { sock_t* s = sk(fd); if (s) { s->lat_lo = lo; s->lat_hi = hi; } }

/* ------------------------------------------------------------------ runs */
typedef struct { char so[512]; char entry[64]; char* text; int64_t off, ppm; } nodespec_t;
static nodespec_t specs[MAXN];
static int nspecs;
static void on_crash(int sig) {
  static int once;
  if (once++) syscall(SYS_exit_group, 46);
  sim_emit("{\"e\":\"crash\",\"sig\":%d,\"node\":%d}", sig, sim_node_index());
  oflush();
  syscall(SYS_exit_group, 45);
}
static void* node_main(void* a) {
  nodespec_t* s = (nodespec_t*)a;
  int (*entry)(const char*) = NULL;
  void* h = dlopen(s->so, RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    sim_emit("{\"e\":\"dlerror\"}");
    fprintf(stderr, "%s\n", dlerror());
    finish(50);
  }
  *(void**)(&entry) = dlsym(h, s->entry);
  if (!entry) { fprintf(stderr, "no entry %s\n", s->entry); finish(51); }
  int rc = entry(s->text);
  sim_exit(rc);
}
static void run_child(void) {
  cpu_set_t cs;
  // Run on one CPU: handing the baton over is then cheap.
  int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
  CPU_ZERO(&cs);
  int base = (int)sim_paraml("cpu", -1);
  if (base >= 0 && ncpu > 0) { CPU_SET((unsigned)base % (unsigned)ncpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  if (!quiet) { setvbuf(stdout, NULL, _IONBF, 0); setvbuf(stderr, NULL, _IONBF, 0); }
  uint64_t seed = (uint64_t)sim_paraml("seed", 1);
  rs_sched = seed * 0x2545F4914F6CDD1DULL + 1;
  rs_user = seed * 0x9E3779B97F4A7C15ULL + 77;
  rs_net = seed * 0xD1342543DE82EF95ULL + 99;
  strat = (int)sim_paraml("strat", 1);
  sw_pct = (int)sim_paraml("sw", 30);
  stall_every = (int)sim_paraml("stall", 0);
  stall_len = (int)sim_paraml("stlen", 100);
  clock_jitter = (int)sim_paraml("jitter", 0);
  max_steps = (uint64_t)sim_paraml("maxsteps", 400000);
  max_emit = (uint64_t)sim_paraml("maxemit", 20000);
  net_partial = (int)sim_paraml("partial", 0);
  net_eintr = (int)sim_paraml("eintr", 0);
  net_loss = (int)sim_paraml("loss", 0);
  net_lat_lo = sim_paraml("latlo", 0);
  net_lat_hi = sim_paraml("lathi", 0);
  net_ulat_lo = sim_paraml("ulatlo", net_lat_lo);
  net_ulat_hi = sim_paraml("ulathi", net_lat_hi);
  net_wdelay = sim_paraml("wdelay", 0);
  net_wdelay0 = sim_paraml("wdelay0", net_wdelay);
  net_log = (int)sim_paraml("netlog", 1);
  tell_quiet = (int)sim_paraml("quiet", 0);
  now_ns = sim_paraml("t0", 1000000000000L);
  if (strat == 2) {
    long len = sim_paraml("pctlen", 2000);
    ncp = (int)sim_paraml("pctd", 4);
    if (ncp > 64) ncp = 64;
    lowest_prio = 900;
    for (int i = 0; i < ncp; i++) cp_at[i] = rnd(&rs_sched) % (uint64_t)(len > 0 ? len : 1);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_crash;
  stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536};
  sigaltstack(&ss, NULL);
  sigaction(SIGSEGV, &sa, NULL);
  sigaction(SIGBUS, &sa, NULL);
  sigaction(SIGFPE, &sa, NULL);
  sigaction(SIGABRT, &sa, NULL);
  sigaction(SIGILL, &sa, NULL);
  for (int i = 0; i < nspecs; i++) {
    N[i].used = 1;
    node_offset[i] = specs[i].off;
    node_ppm[i] = specs[i].ppm;
    nnodes++;
  }
  for (int i = 0; i < nspecs; i++) N[i].main_tid = spawn(i, node_main, &specs[i], "main")->id;
  cur = NULL;
  thr_t* f = pick(0);
  settle(f);
  cur = f;
  sem_post(&f->sem);
  for (;;) pause();
}

// Batch file:  "RUN id k=v ..." / "NODE so entry off ppm nbytes\n<text>" ... / "GO"
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: simhost batch outdir-file [jobs]\n"); return 2; }
  FILE* f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 2; }
  const char* outp = argv[2];
  obuf = (char*)malloc(ocap);
  out_fd = open(outp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  quiet = getenv("SIM_VERBOSE") == NULL;
  char* line = NULL;
  size_t cap = 0;
  char runid[64] = "";
  long tmo = 30;
  while (getline(&line, &cap, f) > 0) {
    if (strncmp(line, "RUN ", 4) == 0) {
      nparams = 0;
      for (int i = 0; i < nspecs; i++) free(specs[i].text);
      nspecs = 0;
      char* p = strtok(line + 4, " \n");
      snprintf(runid, sizeof runid, "%s", p);
      while ((p = strtok(NULL, " \n"))) {
        char* eq = strchr(p, '=');
        if (!eq || nparams >= 64) continue;
        *eq = 0;
        snprintf(params[nparams].k, sizeof params[0].k, "%s", p);
        snprintf(params[nparams].v, sizeof params[0].v, "%s", eq + 1);
        nparams++;
      }
    } else if (strncmp(line, "NODE ", 5) == 0) {
      long n, off, ppm;
      nodespec_t* s = &specs[nspecs++];
      if (sscanf(line + 5, "%511s %63s %ld %ld %ld", s->so, s->entry, &off, &ppm, &n) != 5) return 3;
      s->off = off;
      s->ppm = ppm;
      s->text = (char*)malloc((size_t)n + 1);
      if (fread(s->text, 1, (size_t)n, f) != (size_t)n) return 3;
      s->text[n] = 0;
    } else if (strncmp(line, "GO", 2) == 0) {
      sim_emit("{\"e\":\"run\",\"id\":\"%s\"}", runid);
      oflush();
      pid_t pid = fork();
      if (pid == 0) {
        if (quiet) {
          int dn = open("/dev/null", O_RDWR);
          dup2(dn, 1);
          dup2(dn, 2);
        }
        emit_count = 0;
        alarm((unsigned)tmo);
        run_child();
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (WIFSIGNALED(st)) sim_emit("\n{\"e\":\"died\",\"sig\":%d}", WTERMSIG(st));
      else if (WEXITSTATUS(st) >= 40) sim_emit("{\"e\":\"rc\",\"code\":%d}", WEXITSTATUS(st));
      sim_emit("{\"e\":\"done\",\"id\":\"%s\"}", runid);
      emit_count = 0;
      oflush();
    }
  }
  oflush();
  return 0;
}
