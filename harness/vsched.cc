// vsched: a controlled scheduler for the real NanoLog code.
//
// The library and the driver are compiled with -fsanitize=thread, but instead
// of the ThreadSanitizer runtime this file is linked: every instrumented
// memory access, lock, condition variable, thread and AIO operation becomes a
// scheduling point, exactly one thread runs at a time, and which one runs next
// (or whether a pending write completes, a timed wait times out, a condition
// variable wakes spuriously) is decided by a seeded strategy.  A fork server
// that runs before the static constructors gives every run a fresh process.
//
// Nothing in here knows NanoLog's internals.
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include "vsched.h"

extern uint64_t vs_mockTsc asm("_ZN9PerfUtils6Cycles12mockTscValueE") __attribute__((weak));
extern double vs_cps asm("_ZN9PerfUtils6Cycles12cyclesPerSecE") __attribute__((weak));

namespace {
const int MAXT = 512;
enum St { RUN, MUTEX, COND, JOIN, AIO, SLEEP, DONE };
struct Th {
    int used, sem; St st; void *obj; void *mtx; bool timed, timedOut, pinned;
    pthread_t pt; long prio; void *(*fn)(void *); void *arg; uint64_t runs;
};
Th th[MAXT]; int nth; int cur;
volatile bool active;
__thread int self_id = -1;
pthread_key_t endKey;
struct Mx { void *m; int owner; } mx[4096];

// ---- strategy -------------------------------------------------------------
struct Cfg {
    uint64_t seed; int strat; double pMem, pSync, pIo, pTimer; int spurious;
    int nchg; uint64_t chg[16]; int chgT[16]; uint64_t maxSteps; int fault; int faultN;
    uint64_t span;
} cfg;
uint64_t rs, steps, shared_steps, switches, lastSwitchStep;
uint64_t rnd() { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31); }
double frnd() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
int idlePolls; long lowPrio = -1;
long prioIo, prioTimer;

// ---- shared record ---------------------------------------------------------
char *rec; size_t recCap = 8 << 20; size_t *recLen;
char scen[8192]; char runId[64];
void emit(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    size_t n = *recLen;
    int w = vsnprintf(rec + n, recCap - n - 1, fmt, ap);
    va_end(ap);
    if (w > 0 && n + w < recCap - 1) *recLen = n + w;
}

void fwait(int *s) {
    while (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, s, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    __atomic_store_n(s, 0, __ATOMIC_RELEASE);
}
void fpost(int *s) {
    __atomic_store_n(s, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, s, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

// ---- AIO -------------------------------------------------------------------
struct Aio { struct aiocb *cb; int state; ssize_t ret; int err; uint64_t hash; int failed; } aio;  // 0 none 1 pending 2 done
int aioCount;
uint64_t fnv(const void *p, size_t n) { uint64_t h = 1469598103934665603ull;
    const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }

void finish(const char *verdict) {
    if (strcmp(verdict, "ok")) for (int i = 0; i < nth; ++i)
        emit(",{\"op\":\"st\",\"s\":%d,\"st\":%d,\"timed\":%d}", i, (int)th[i].st, (int)th[i].timed);
    emit("],\"verdict\":\"%s\",\"steps\":%lu,\"shared\":%lu,\"switches\":%lu,\"ios\":%d}\n",
         verdict, steps, shared_steps, switches, aioCount);
    _exit(0);
}
void snapFd(int fd) {
    char p[64], path[512]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, path, sizeof path - 1); if (n < 0) return; path[n] = 0;
    struct stat st; if (fstat(fd, &st)) return;
    const char *b = strrchr(path, '/');
    emit(",{\"op\":\"snap\",\"f\":\"%s\",\"n\":%ld}", b ? b + 1 : path, (long)st.st_size);
}
void completeAio() {
    struct aiocb *cb = aio.cb;
    const void *buf = (const void *)cb->aio_buf;
    if (fnv(buf, cb->aio_nbytes) != aio.hash) emit(",{\"op\":\"torn\"}");
    ssize_t w;
    size_t nb = cb->aio_nbytes;
    bool inj = cfg.fault && aioCount == cfg.faultN;
    if (inj && cfg.fault == 1) { w = -1; aio.err = ENOSPC; }
    else {
        if (inj && cfg.fault == 2 && nb > 1) nb = 1 + rnd() % (nb - 1);
        int fl = fcntl(cb->aio_fildes, F_GETFL);
        w = (fl & O_APPEND) ? write(cb->aio_fildes, buf, nb)
                            : pwrite(cb->aio_fildes, buf, nb, cb->aio_offset);
        aio.err = w < 0 ? errno : 0;
    }
    if (inj) emit(",{\"op\":\"fault\",\"k\":%d}", cfg.fault);
    aio.ret = w; aio.state = 2;
    snapFd(cb->aio_fildes);
    for (int i = 0; i < nth; ++i) if (th[i].st == AIO) th[i].st = RUN;
}

// pick: returns thread id to run next.  Never returns a blocked one.
bool othersRunnable(int me) { for (int i = 0; i < nth; ++i) if (i != me && th[i].st == RUN) return true; return false; }
int gather(int *c, int me, bool inclMe) {
    int n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == RUN && (inclMe || i != me)) c[n++] = i; return n; }
int gatherTimed(int *c) { int n = 0; for (int i = 0; i < nth; ++i)
    if ((th[i].st == COND && th[i].timed) || th[i].st == SLEEP) c[n++] = i; return n; }
void fire(int t) { th[t].st = RUN; th[t].timedOut = true; }
int gatherSpur(int *c) { int n = 0; for (int i = 0; i < nth; ++i)
    if (th[i].st == COND && !th[i].timed) c[n++] = i; return n; }

// Choose the next thread.  me may be blocked (mustSwitch).
int choose(int me, bool mustSwitch) {
    int c[MAXT], t[MAXT];
    for (;;) {
        int n = gather(c, me, true);   // a blocked caller is not RUN
        int nt = gatherTimed(t);
        bool io = aio.state == 1;
        if (n == 0 && nt == 0 && !io) finish("deadlock");
        if (n == 0 && !io) {
            // Only timed waiters can move: a background poll.  If that goes on
            // while some thread waits without a timeout, nobody will wake it.
            bool waiter = false;
            for (int i = 0; i < nth; ++i) if (th[i].st == COND && !th[i].timed) waiter = true;
            for (int i = 0; i < nth; ++i) if (th[i].st == JOIN) waiter = true;
            if (waiter && ++idlePolls > 60) finish("hang");
            fire(t[rnd() % nt]); continue;
        }
        if (cfg.strat == 1) {   // PCT: priorities
            long best = -1000000000; int bi = -1, kind = 0;
            for (int i = 0; i < n; ++i) if (th[c[i]].prio > best) { best = th[c[i]].prio; bi = c[i]; kind = 0; }
            if (io && prioIo > best) { best = prioIo; kind = 1; }
            if (nt && prioTimer > best) { best = prioTimer; kind = 2; }
            if (kind == 1) { completeAio(); continue; }
            if (kind == 2) { fire(t[rnd() % nt]); prioTimer = lowPrio--; continue; }
            return bi;
        }
        if (cfg.strat == 2) {   // nonpreemptive: a runnable thread if any, else the write, else a timer
            if (n) return c[rnd() % n];
            if (io) { completeAio(); continue; }
            fire(t[rnd() % nt]); continue;
        }
        // weighted random
        double wi = io ? cfg.pIo : 0, wt = nt ? cfg.pTimer : 0, wn = n ? 1.0 : 0;
        double x = frnd() * (wi + wt + wn);
        if (x < wi) { completeAio(); continue; }
        if (x < wi + wt) { fire(t[rnd() % nt]); continue; }
        if (cfg.spurious && frnd() < 0.02) { int s[MAXT]; int ns = gatherSpur(s); if (ns) { th[s[rnd() % ns]].st = RUN; continue; } }
        if (n) return c[rnd() % n];
    }
}
void switchTo(int me, int nx) {
    if (nx == me) return;
    ++switches; lastSwitchStep = steps; cur = nx;
    fpost(&th[nx].sem);
}
void reschedule(int me, bool mustSwitch) {
    int nx = choose(me, mustSwitch);
    if (nx == me) return;
    switchTo(me, nx);
    fwait(&th[me].sem);
}
void budget() { if (++steps > cfg.maxSteps) finish("hang"); }
// kind: 0 memory, 1 sync
void point(int kind) {
    if (!active || self_id < 0) return;
    int me = self_id;
    budget();
    ++shared_steps;
    if (vs_mockTsc) vs_mockTsc += 7;
    if (cfg.strat == 1) {
        for (int i = 0; i < cfg.nchg; ++i) if (cfg.chg[i] == shared_steps) { th[me].prio = lowPrio--; }
        if (steps - lastSwitchStep > 1500) { th[me].prio = lowPrio--; lastSwitchStep = steps;
            if (aio.state == 1) completeAio();
            int t[MAXT], nt = gatherTimed(t); for (int i = 0; i < nt; ++i) fire(t[i]); }
        reschedule(me, false);
        return;
    }
    if (cfg.strat == 2) {   // preemption-bounded: explicit switch points
        for (int i = 0; i < cfg.nchg; ++i) if (cfg.chg[i] == shared_steps) {
            int c[MAXT], n = gather(c, me, false);
            int k = cfg.chgT[i];
            int t[MAXT], nt = gatherTimed(t);
            bool io = aio.state == 1;
            int tot = n + nt + (io ? 1 : 0);
            if (!tot) return;
            k %= tot;
            if (k < n) { switchTo(me, c[k]); fwait(&th[me].sem); }
            else if (k < n + nt) { fire(t[k - n]); switchTo(me, t[k - n]); fwait(&th[me].sem); }
            else completeAio();
            return;
        }
        if (steps - lastSwitchStep > 2500) { lastSwitchStep = steps; if (aio.state == 1) completeAio();
            int t[MAXT], nt = gatherTimed(t); for (int i = 0; i < nt; ++i) fire(t[i]); reschedule(me, false); }
        return;
    }
    double p = kind ? cfg.pSync : cfg.pMem;
    if (steps - lastSwitchStep > 2500) {   // fairness: whatever can happen has to happen eventually
        lastSwitchStep = steps; p = 1;
        if (aio.state == 1) completeAio();
        int t[MAXT], nt = gatherTimed(t); for (int i = 0; i < nt; ++i) fire(t[i]);
    }
    if (p > 0 && frnd() < p) reschedule(me, false);
}
}  // namespace

// ---- memory access hooks ---------------------------------------------------
static struct { uintptr_t a; uint32_t mask; } shadow[1 << 15];
static struct { uintptr_t lo, hi; } quar[1024]; static int nquar;
static bool uafSeen;
static inline void acc(void *p, size_t sz) {
    (void)sz;
    if (!active || self_id < 0) return;
    uintptr_t a = (uintptr_t)p >> 6;      // sharing is tracked per cache line: neighbours of a shared field count as shared
    auto &s = shadow[(a * 2654435761u >> 7) & ((1 << 15) - 1)];
    uint32_t bit = 1u << (self_id & 31);
    if (s.a != a) { s.a = a; s.mask = bit; }
    else if (!(s.mask & bit)) s.mask |= bit;
    if (nquar && !uafSeen) for (int i = 0; i < nquar; ++i)
        if ((uintptr_t)p >= quar[i].lo && (uintptr_t)p < quar[i].hi) { uafSeen = true; emit(",{\"op\":\"uaf\"}"); }
    if (s.mask & (s.mask - 1)) point(0);
    else {
        if (++steps > cfg.maxSteps) finish("hang");
        if (vs_mockTsc) vs_mockTsc += 1;
        if (steps - lastSwitchStep > 2500 && nth > 1) point(0);   // a thread spinning on memory only it has touched so far
    }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n); } void __tsan_write##n(void *p) { acc(p, n); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n); } void __tsan_unaligned_write##n(void *p) { acc(p, n); } \
  void __tsan_read##n##_pc(void *p, void *) { acc(p, n); } void __tsan_write##n##_pc(void *p, void *) { acc(p, n); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n); } void __tsan_volatile_write##n(void *p) { acc(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { acc(p, n); }
void __tsan_write_range(void *p, long n) { acc(p, n); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8); }
void __tsan_vptr_read(void **p) { acc(p, 8); }
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T *a, int) { acc((void *)a, 8); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##n##_store(volatile T *a, T v, int) { acc((void *)a, 8); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); point(1); } \
 T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, 8); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, 8); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((void *)a, 8); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, 8); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(0); }
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (active && self_id >= 0 && n) {
        acc((void *)s, n); acc(d, n);
        if (n > 8) {   // make a partially written copy observable
            size_t h = n / 2;
            __real_memcpy(d, s, h);
            acc((char *)d + h, n - h);
            __real_memcpy((char *)d + h, (const char *)s + h, n - h);
            return d;
        }
    }
    return __real_memcpy(d, s, n);
}
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (active && self_id >= 0 && n) { acc((void *)s, n); acc(d, n); }
    return __real_memmove(d, s, n);
}
}

// ---- pthread interposition ---------------------------------------------------
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static Mx *mget(void *m) {
    size_t h = ((uintptr_t)m >> 4) % 4096;
    for (int i = 0; i < 4096; ++i) { Mx *e = &mx[(h + i) % 4096]; if (e->m == m) return e; if (!e->m) { e->m = m; e->owner = -1; return e; } }
    abort();
}
static bool ctl() { return active && self_id >= 0; }
static void lockCtl(void *m) {
    Mx *e = mget(m);
    while (e->owner != -1) {
        th[self_id].st = MUTEX; th[self_id].obj = m;
        reschedule(self_id, true);
    }
    e->owner = self_id;
}
static void unlockCtl(void *m) {
    Mx *e = mget(m); e->owner = -1;
    for (int i = 0; i < nth; ++i) if (th[i].st == MUTEX && th[i].obj == m) th[i].st = RUN;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!ctl()) return REAL(pthread_mutex_lock)(m);
    point(1); lockCtl(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ctl()) return REAL(pthread_mutex_trylock)(m);
    point(1); Mx *e = mget(m); if (e->owner != -1) return EBUSY; e->owner = self_id; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!ctl()) return REAL(pthread_mutex_unlock)(m);
    unlockCtl(m); point(1); return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    budget(); if (vs_mockTsc) vs_mockTsc += 11;
    Th &t = th[self_id];
    t.st = COND; t.obj = c; t.mtx = m; t.timed = timed; t.timedOut = false;
    unlockCtl(m);
    reschedule(self_id, true);
    lockCtl(m);
    return timed && t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!ctl()) return ((int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait"))(c, m);
    return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!ctl()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (!ctl()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return condWait(c, m, true);
}
static void wakeCond(void *c, bool all) {
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; ++i) if (th[i].st == COND && th[i].obj == c) w[n++] = i;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) { th[w[i]].st = RUN; } idlePolls = 0; return; }
    th[w[rnd() % n]].st = RUN; idlePolls = 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!ctl()) return ((int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_signal"))(c);
    wakeCond(c, false); point(1); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!ctl()) return ((int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_broadcast"))(c);
    wakeCond(c, true); point(1); return 0;
}
static void threadEnd(void *) {
    // Runs after the C++ thread_local destructors of the thread.
    if (!ctl()) return;
    int me = self_id;
    emit(",{\"op\":\"tend\",\"s\":%d}", me);
    th[me].st = DONE;
    for (int i = 0; i < nth; ++i) if (th[i].st == JOIN && th[i].obj == (void *)(intptr_t)me) th[i].st = RUN;
    idlePolls = 0;
    int nx = choose(me, true);
    self_id = -1;
    ++switches; cur = nx;
    fpost(&th[nx].sem);
}
static void *tramp(void *p) {
    Th *t = (Th *)p; int id = t - th;
    fwait(&t->sem);
    self_id = id;
    pthread_setspecific(endKey, (void *)1);
    return t->fn(t->arg);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!ctl()) return REAL(pthread_create)(pt, a, fn, arg);
    if (nth >= MAXT) abort();
    int id = nth; Th &t = th[id]; memset(&t, 0, sizeof t);
    t.fn = fn; t.arg = arg; t.st = RUN; t.prio = 10 + (long)(rnd() % 1000);
    int r = REAL(pthread_create)(&t.pt, a, tramp, &t);
    if (r) return r;
    ++nth; *pt = t.pt;
    point(1);
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!ctl()) return REAL(pthread_join)(pt, ret);
    point(1);
    for (int i = 0; i < nth; ++i) if (pthread_equal(th[i].pt, pt) && i != 0 && th[i].pt) {
        while (th[i].st != DONE) { th[self_id].st = JOIN; th[self_id].obj = (void *)(intptr_t)i; reschedule(self_id, true); }
        th[i].pt = 0;
        break;
    }
    return REAL(pthread_join)(pt, ret);
}
int sched_yield() {
    if (!ctl()) return syscall(SYS_sched_yield);
    budget(); reschedule(self_id, false); return 0;
}
static int sleepCtl() {
    budget(); if (vs_mockTsc) vs_mockTsc += 1000;
    th[self_id].st = SLEEP; reschedule(self_id, true); return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) { if (!ctl()) return REAL(nanosleep)(a, b); return sleepCtl(); }
int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (!ctl()) return REAL(clock_nanosleep)(k, f, a, b); return sleepCtl(); }
int usleep(useconds_t u) { if (!ctl()) return REAL(usleep)(u); return sleepCtl(); }

// ---- AIO -------------------------------------------------------------------
int aio_write(struct aiocb *cb) {
    if (!ctl()) return REAL(aio_write)(cb);
    point(1);
    ++aioCount;
    if (aio.state == 1) { emit(",{\"op\":\"torn\"}"); completeAio(); }   // two writes in flight on one control block
    aio.cb = cb; aio.state = 1; aio.ret = 0; aio.err = 0;
    aio.hash = fnv((const void *)cb->aio_buf, cb->aio_nbytes);
    idlePolls = 0;
    if (cfg.fault == 3 && aioCount == cfg.faultN) { aio.state = 2; aio.ret = -1; aio.err = EAGAIN; emit(",{\"op\":\"fault\",\"k\":3}"); errno = EAGAIN; return -1; }
    point(1);
    return 0;
}
int aio_error(const struct aiocb *cb) {
    if (!ctl()) return REAL(aio_error)(cb);
    point(1);
    if (aio.cb != cb) { errno = EINVAL; return 0; }
    return aio.state == 1 ? EINPROGRESS : aio.err;
}
ssize_t aio_return(struct aiocb *cb) {
    if (!ctl()) return REAL(aio_return)(cb);
    if (aio.cb == cb && aio.state == 2) return aio.ret;
    return -1;
}
int aio_suspend(const struct aiocb *const l[], int n, const struct timespec *ts) {
    if (!ctl()) return REAL(aio_suspend)(l, n, ts);
    point(1);
    if (cfg.fault == 4 && aio.state == 1 && frnd() < 0.3) { errno = EINTR; emit(",{\"op\":\"fault\",\"k\":4}"); return -1; }
    while (aio.state == 1) { th[self_id].st = AIO; reschedule(self_id, true); }
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) noexcept {
    return syscall(SYS_gettimeofday, tv, tz);
}
}

// ---- heap: quarantine large freed blocks to see use after free ----------------
static size_t watchLo = ~0ul, watchHi = 0; static long liveWatched;
static uintptr_t wblk[4096]; static int nwblk;
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1); if (!p) abort();
    if (active && n >= watchLo && n <= watchHi) { ++liveWatched; if (nwblk < 4096) wblk[nwblk++] = (uintptr_t)p; *(volatile char *)p = 0; }
    return p;
}
static void del(void *p) {
    if (!p) return;
    if (active) for (int i = 0; i < nwblk; ++i) if (wblk[i] == (uintptr_t)p) {
        wblk[i] = wblk[--nwblk]; --liveWatched;
        size_t n = watchLo; memset(p, 0xDD, n);
        if (nquar < 1024) { quar[nquar].lo = (uintptr_t)p; quar[nquar].hi = (uintptr_t)p + n; ++nquar; return; }
    }
    free(p);
}
void operator delete(void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }

// ---- API for the driver ------------------------------------------------------
void vs_emit(const char *fmt, ...) {
    static char b[65536]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    emit(",%s", b);
}
void vs_snap(int fd) { snapFd(fd); }
void vs_snapPath(const char *path) {
    struct stat st; if (stat(path, &st)) return;
    emit(",{\"op\":\"snap\",\"f\":\"%s\",\"n\":%ld}", path, (long)st.st_size);
}
const char *vs_scenario() { return scen; }
int vs_self() { return self_id; }
long vs_live() { return liveWatched; }
long vs_ios() { return aioCount; }
void vs_point() { point(1); }
void vs_watch(size_t lo, size_t hi) { watchLo = lo; watchHi = hi; }
void vs_off() { active = false; }
void vs_on() { active = true; }
uint64_t vs_rnd() { return rnd(); }
void vs_verdict(const char *v) { finish(v); }

__attribute__((destructor(101))) static void atEnd() {
    if (!ctl()) return;
    finish("ok");
}
static void onSig(int s) { if (active) { emit(",{\"op\":\"crash\",\"sig\":%d}", s); finish("crash"); } _exit(99); }

// ---- fork server ---------------------------------------------------------------
// job line: id seed strat pMem pSync pIo pTimer spurious nchg span maxSteps fault faultN chg:t,chg:t,.. | scenario
static bool parseJob(char *line) {
    char chgs[512];
    memset(&cfg, 0, sizeof cfg);
    int pos = 0;
    if (sscanf(line, "%63s %lu %d %lf %lf %lf %lf %d %d %lu %lu %d %d %511s | %n", runId, &cfg.seed, &cfg.strat,
               &cfg.pMem, &cfg.pSync, &cfg.pIo, &cfg.pTimer, &cfg.spurious, &cfg.nchg, &cfg.span, &cfg.maxSteps,
               &cfg.fault, &cfg.faultN, chgs, &pos) < 14) return false;
    snprintf(scen, sizeof scen, "%s", line + pos);
    size_t l = strlen(scen); if (l && scen[l - 1] == '\n') scen[l - 1] = 0;
    rs = cfg.seed * 0x2545F4914F6CDD1Dull + 12345;
    if (cfg.strat == 2) {
        cfg.nchg = 0; char *p = chgs;
        while (*p && *p != '-' && cfg.nchg < 16) { unsigned long a; int b, n; if (sscanf(p, "%lu:%d%n", &a, &b, &n) < 2) break;
            cfg.chg[cfg.nchg] = a; cfg.chgT[cfg.nchg++] = b; p += n; if (*p == ',') ++p; }
    } else if (cfg.strat == 1) {
        for (int i = 0; i < cfg.nchg && i < 16; ++i) cfg.chg[i] = 1 + rnd() % cfg.span;
    }
    return true;
}
extern char **environ;
__attribute__((constructor(101))) static void forkServer(int argc, char **argv, char **) {
    pthread_key_create(&endKey, threadEnd);
    if (argc < 2) { fprintf(stderr, "usage: %s jobfile\n", argv[0]); _exit(3); }
    FILE *jobs = fopen(argv[1], "r");
    if (!jobs) { perror(argv[1]); _exit(3); }
    rec = (char *)mmap(nullptr, recCap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    recLen = (size_t *)rec; rec += 64; recCap -= 128;
    int pos = argc > 2 ? atoi(argv[2]) : 0, mod = argc > 3 ? atoi(argv[3]) : 1;
    char *line = nullptr; size_t cap = 0; long no = 0;
    int devnull = open("/dev/null", O_WRONLY);
    while (getline(&line, &cap, jobs) > 0) {
        if (no++ % mod != pos) continue;
        if (!parseJob(line)) { fprintf(stderr, "bad job: %s\n", line); _exit(3); }
        const char *fs[] = {"compressedLog", "f1", "f2", "f3"};
        for (auto f : fs) unlink(f);
        *recLen = 0;
        pid_t pid = fork();
        if (pid == 0) {
            // child: becomes the run
            signal(SIGSEGV, onSig); signal(SIGABRT, onSig); signal(SIGBUS, onSig); signal(SIGFPE, onSig); signal(SIGILL, onSig);
            if (!getenv("VS_STDERR")) { dup2(devnull, 2); dup2(devnull, 1); }
            fclose(jobs);
            emit("{\"id\":\"%s\",\"ev\":[{\"op\":\"begin\"}", runId);
            self_id = 0; nth = 1; th[0].st = RUN; th[0].pt = pthread_self(); th[0].prio = 10 + (long)(rnd() % 1000);
            prioIo = 10 + (long)(rnd() % 1000); prioTimer = 10 + (long)(rnd() % 1000);
            if (&vs_cps) vs_cps = 1e9;
            if (&vs_mockTsc) vs_mockTsc = 1000000000ull;
            active = true;
            return;
        }
        // wall-clock guard: a run that makes no scheduling steps is killed
        int st = 0; bool dead = false;
        for (int i = 0; i < 20000; ++i) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) { dead = true; break; }
            struct timespec ts = {0, i < 200 ? 100000L : 1000000L}; syscall(SYS_nanosleep, &ts, nullptr); }
        if (!dead) { kill(pid, SIGKILL); waitpid(pid, &st, 0); emit("],\"verdict\":\"stuck\",\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n"); }
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            emit("],\"verdict\":\"died\",\"st\":%d,\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n", st);
        }
        // record: header line, json, then file blobs
        printf("R %zu %zu\n", *recLen, strlen(line)); fwrite(rec, 1, *recLen, stdout); fwrite(line, 1, strlen(line), stdout);
        for (auto f : fs) { FILE *g = fopen(f, "rb"); if (!g) continue; static char big[1 << 22]; size_t n = fread(big, 1, sizeof big, g); fclose(g);
            printf("F %s %zu\n", f, n); fwrite(big, 1, n, stdout); }
        printf("E\n");
    }
    fflush(stdout);
    _exit(0);
}
