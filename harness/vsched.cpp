// The controlled scheduler and its exploration engine. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <exception>
#include <typeinfo>
#include <new>
#include <cxxabi.h>

// memset and memcpy are interposed below; these are the scheduler's own
static inline void xset(void *d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
static inline void xcpy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }

// ------------------------------------------------------------------------------------------------ shared with the explorer
enum { MAXT = 40, MAXDEC = 60000, LOGSZ = 1 << 20, MAXRACY = 512 };
struct Dec { unsigned char n, chosen, cur, cost0; };   // n options; cost of option i is (i==0 ? cost0 : 1) unless free
// free decisions have cost 0 for every option: cur==0; otherwise option 0 is the current thread (cost 0), the others cost 1
struct Shared {
    // in
    int mode;              // 0: prefix then default; 1: random walk; 2: PCT
    int nprefix;
    unsigned char prefix[MAXDEC];
    uint64_t seed;
    int racyOn;
    // out
    int ndec;
    Dec dec[MAXDEC];
    int loglen;
    int truncated;
    long steps, hooks;
    int status;            // 0 ran to its end, 1 crashed, 2 step limit
    char log[LOGSZ];
    // persistent over executions
    int nracy;
    uintptr_t racy[MAXRACY];
    long estSteps;
};
static Shared *S;

// ------------------------------------------------------------------------------------------------ logical threads
enum TS { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_QUIESC, T_DONE, T_RW, T_SEM, T_GATE };
typedef uint32_t VC[MAXT];
struct Thr {
    TS st;
    int futex;
    void *obj;             // mutex / cond waited for
    void *mtx;             // mutex to reacquire after a condition wait
    int timed;             // condition wait with a timeout
    int64_t wake;          // virtual time
    int timedOut;
    int rwWrite;
    int joinOn;
    const char *op;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    pthread_t real;
    int prio;
    long ran;              // consecutive steps
    int isSpawn;
    int tokens;            // gate tokens not yet used
    VC vc;
};
static Thr T[MAXT];
static int nT = 0;
static volatile int active = 0;
static __thread int self = -1;
static __thread int inrt = 0;
static int curT = 0;
static int64_t vnow = 0;
static int spurLeft = 0, casLeft = 0;
static long stepLimit = 30000, steps = 0, hooks = 0, hookLimit = 30000000;
static uint64_t rng;
static int pctChange[8], npct = 0;
static int pctLow = 0;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static long futex(int *u, int op, int v) { return syscall(SYS_futex, u, op, v, nullptr, nullptr, 0); }
static void baton_wait(int t)
{
    while (__atomic_load_n(&T[t].futex, __ATOMIC_ACQUIRE) == 0) futex(&T[t].futex, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&T[t].futex, 0, __ATOMIC_RELAXED);
}
static void baton_give(int t)
{
    __atomic_store_n(&T[t].futex, 1, __ATOMIC_RELEASE);
    futex(&T[t].futex, FUTEX_WAKE_PRIVATE, 1);
}

// ------------------------------------------------------------------------------------------------ log
extern "C" void vs_log(const char *fmt, ...)
{
    if (!S) return;
    inrt++;
    int room = LOGSZ - S->loglen - 2;
    if (room < 400) { S->truncated = 1; inrt--; return; }
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(S->log + S->loglen, room, fmt, ap);
    va_end(ap);
    if (n > 0 && n < room) { S->loglen += n; S->log[S->loglen++] = '\n'; S->log[S->loglen] = 0; }
    inrt--;
}
static void logStuck()
{
    char b[400]; int n = snprintf(b, sizeof b, "q");
    for (int i = 0; i < nT; ++i)
        if (T[i].st != T_DONE && T[i].st != T_FREE && T[i].st != T_QUIESC && T[i].st != T_GATE && T[i].op) n += snprintf(b + n, sizeof b - n, " %d", i);
    vs_log("%s", b);
}
[[noreturn]] static void endExec(int status)
{
    S->status = status; S->steps = steps; S->hooks = hooks;
    active = 0;
    _exit(status == 1 ? 3 : 0);
}

// ------------------------------------------------------------------------------------------------ sync objects
struct Mtx { void *a; int owner; int pi; int count; int rec; int inited; VC vc; int readers; int semv; int issem; };
enum { MAXM = 512 };
static Mtx M[MAXM]; static int nM = 0;
static int nInited = 0, nNonPi = 0;
static Mtx *mtx(void *a)
{
    for (int i = 0; i < nM; ++i) if (M[i].a == a) return &M[i];
    if (nM == MAXM) { // recycle destroyed entries
        for (int i = 0; i < nM; ++i) if (M[i].a == nullptr) { xset(&M[i], 0, sizeof M[i]); M[i].a = a; M[i].owner = -1; M[i].pi = -1; return &M[i]; }
        vs_log("harness-limit mutexes"); endExec(1);
    }
    Mtx *m = &M[nM++]; xset(m, 0, sizeof *m); m->a = a; m->owner = -1; m->pi = -1; return m;
}
static void vcJoin(VC d, const VC s) { for (int i = 0; i < nT; ++i) if (s[i] > d[i]) d[i] = s[i]; }

// ------------------------------------------------------------------------------------------------ the scheduler
static bool enabled(int t)
{
    Thr &x = T[t];
    switch (x.st) {
    case T_RUN: return true;
    case T_MUTEX: { Mtx *m = mtx(x.obj); return m->owner == -1; }
    case T_RW: { Mtx *m = mtx(x.obj); return x.rwWrite ? (m->owner == -1 && m->readers == 0) : m->owner == -1; }
    case T_GATE: return x.tokens > 0;
    case T_SEM: return mtx(x.obj)->semv > 0;
    case T_JOIN: return T[x.joinOn].st == T_DONE;
    default: return false;
    }
}
static int decide(int n, int cur)   // cur: 1 when option 0 is "continue" and the others are preemptions
{
    if (n <= 1) return 0;
    int c = 0, k = S->ndec;
    if (k >= MAXDEC) { logStuck(); endExec(2); }
    if (S->mode == 0 || k < S->nprefix) c = k < S->nprefix ? S->prefix[k] : 0;
    else c = -1;
    if (c >= n) c = 0;             // replay of a divergent prefix
    S->dec[k].n = n; S->dec[k].cur = cur;
    return c;
}
static void record(int n, int c) { if (n > 1) { S->dec[S->ndec].chosen = c; S->ndec++; } }

static void wakeSpurious(int t) { T[t].st = T_MUTEX; T[t].obj = T[t].mtx; spurLeft--; }

// Picks the next thread to run and passes the baton. 'me' is the caller (its state says whether it may continue).
static void schedule(int me)
{
    steps++;
    for (;;) {
        if (steps > stepLimit) { logStuck(); vs_log("livelock"); endExec(2); }
        int opt[2 * MAXT]; int n = 0;
        bool meEn = enabled(me) && T[me].st != T_QUIESC;
        bool starving = false;
        if (meEn && T[me].ran > 400) starving = true;      // fairness: a spinning thread must let others run
        if (meEn && !starving) opt[n++] = me;
        for (int i = 0; i < nT; ++i) if (i != me && enabled(i)) opt[n++] = i;
        if (starving) { if (n == 0) opt[n++] = me; T[me].ran = 0; meEn = false; }
        int nspur = 0;
        if (n == 0) {
            // Nobody can run: the earliest sleeper (or timed waiter), otherwise quiescence.
            int best = -1;
            for (int i = 0; i < nT; ++i)
                if (T[i].st == T_SLEEP || (T[i].st == T_COND && T[i].timed))
                    if (best < 0 || T[i].wake < T[best].wake) best = i;
            if (best >= 0) {
                if (T[best].wake > vnow) vnow = T[best].wake;
                if (T[best].st == T_COND) { T[best].timedOut = 1; T[best].st = T_MUTEX; T[best].obj = T[best].mtx; }
                else T[best].st = T_RUN;
                continue;
            }
            for (int i = 0; i < nT; ++i) if (T[i].st == T_QUIESC) best = i;
            if (best < 0) { logStuck(); endExec(0); }
            T[best].st = T_RUN;
            opt[n++] = best;
        }
        if (spurLeft > 0)
            for (int i = 0; i < nT; ++i) if (T[i].st == T_COND && n < MAXT) { opt[n++] = i + 1000; nspur++; }
        int c;
        if (n == 1) c = 0;
        else {
            c = decide(n, meEn ? 1 : 0);
            if (c < 0) {
                if (S->mode == 1) {
                    uint64_t r = rnd();
                    if (meEn && (r % 100) < 65) c = 0;
                    else { c = (r >> 20) % n; if (opt[c] >= 1000 && ((r >> 50) & 7)) c = 0; }
                } else { // PCT
                    for (int i = 0; i < npct; ++i) if (pctChange[i] == steps) T[me].prio = --pctLow;
                    c = 0;
                    for (int i = 1; i < n - nspur; ++i) if (T[opt[i]].prio > T[opt[c]].prio) c = i;
                    if (nspur && (rnd() % 50) == 0) c = n - nspur + rnd() % nspur;
                }
            }
            record(n, c);
        }
        if (opt[c] >= 1000) { wakeSpurious(opt[c] - 1000); steps++; continue; }
        int nx = opt[c];
        if (nx == me) { T[me].ran++; return; }
        T[me].ran = 0; T[nx].ran = 0;
        curT = nx;
        bool done = T[me].st == T_DONE;
        baton_give(nx);
        if (done) return;
        baton_wait(me);
        return;
    }
}
static inline bool on() { return active && self >= 0 && !inrt; }
extern "C" void vs_point() { if (on()) { inrt++; schedule(self); inrt--; } }
extern "C" int vs_self() { return self; }
extern "C" void vs_op(const char *n) { if (self >= 0) T[self].op = n; }
extern "C" int vs_chan() { return nT; }
extern "C" void vs_opt(const char *name, long v)
{
    if (!strcmp(name, "spur")) spurLeft = v;
    if (!strcmp(name, "casf")) casLeft = v;
    else if (!strcmp(name, "steps")) stepLimit = v;
}
extern "C" void vs_finish() { endExec(0); }

static void *threadMain(void *p)
{
    int t = (int)(intptr_t)p;
    self = t; inrt = 1;
    baton_wait(t);
    inrt = 0;
    void *r = nullptr;
    r = T[t].fn(T[t].arg);
    inrt = 1;
    T[t].ret = r; T[t].st = T_DONE; T[t].op = nullptr;
    schedule(t);
    return r;
}
static int newThread(void *(*fn)(void *), void *arg, pthread_t *out)
{
    if (nT == MAXT) { vs_log("harness-limit threads"); endExec(1); }
    int t = nT++;
    xset(&T[t], 0, sizeof T[t]);
    T[t].st = T_RUN; T[t].fn = fn; T[t].arg = arg;
    T[t].prio = (int)(rnd() % 100000) + 10;
    xcpy(T[t].vc, T[self].vc, sizeof(VC)); T[t].vc[t] = 1; T[self].vc[self]++;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
    pthread_t th;
    if (real_create(&th, &a, threadMain, (void *)(intptr_t)t)) { vs_log("harness-limit create"); endExec(1); }
    pthread_attr_destroy(&a);
    T[t].real = th; if (out) *out = th;
    return t;
}
struct SpawnArg { void (*fn)(void *); void *a; };
static SpawnArg spawnArgs[MAXT];
static void *spawnTramp(void *p) { SpawnArg *s = (SpawnArg *)p; s->fn(s->a); return nullptr; }
extern "C" void vs_spawn(void (*fn)(void *), void *arg)
{
    inrt++;
    SpawnArg *s = &spawnArgs[nT]; s->fn = fn; s->a = arg;
    int t = newThread(spawnTramp, s, nullptr);
    T[t].isSpawn = 1;
    inrt--;
}
extern "C" void vs_gate()
{
    inrt++;
    T[self].st = T_GATE;
    schedule(self);
    T[self].st = T_RUN; T[self].tokens--;
    inrt--;
}
extern "C" void vs_gate_open(int t) { if (t >= 0 && t < nT) T[t].tokens++; }
extern "C" int vs_wait_quiescent()
{
    inrt++;
    T[self].st = T_QUIESC;
    schedule(self);
    int n = 0;
    for (int i = 0; i < nT; ++i) if (i != self && T[i].st != T_DONE && T[i].op) n++;
    for (int i = 0; i < nT; ++i) if (T[i].st == T_DONE) vcJoin(T[self].vc, T[i].vc);
    logStuck();
    inrt--;
    return n;
}

// ------------------------------------------------------------------------------------------------ pthread interposition
static int failNext[MAXT];         // injected error for the thread's next mutex operation
extern "C" void vs_fail(int e) { if (self >= 0) failNext[self] = e; }
static int injected() { if (self < 0) return 0; int e = failNext[self]; failNext[self] = 0; return e; }
static void *rs(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(name) static decltype(&name) r = (decltype(&name))rs(#name)

static void acquired(Mtx *m) { vcJoin(T[self].vc, m->vc); }
static void released(Mtx *m) { xcpy(m->vc, T[self].vc, sizeof(VC)); T[self].vc[self]++; }

extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept
{
    REAL(pthread_mutex_init);
    int e = r(m, a);
    if (!e && on()) {
        inrt++;
        Mtx *x = mtx(m); xset(x, 0, sizeof *x); x->a = m; x->owner = -1; x->inited = 1;
        int p = PTHREAD_PRIO_NONE, ty = PTHREAD_MUTEX_NORMAL;
        if (a) { pthread_mutexattr_getprotocol(a, &p); pthread_mutexattr_gettype(a, &ty); }
        x->pi = p == PTHREAD_PRIO_INHERIT; x->rec = ty == PTHREAD_MUTEX_RECURSIVE ? 1 : ty == PTHREAD_MUTEX_ERRORCHECK ? 2 : 0;
        nInited++; if (!x->pi) nNonPi++;
        inrt--;
    }
    return e;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_destroy);
    if (on()) {
        Mtx *x = mtx(m);
        if (x->owner >= 0) return EBUSY;
        x->a = nullptr;
        return 0;
    }
    return r(m);
}
// a statically initialised std::mutex is a mutex without priority inheritance
static void noteUse(Mtx *x) { if (!x->inited) { x->inited = 1; x->pi = 0; nInited++; nNonPi++; } }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_lock);
    if (!on()) return r(m);
    if (int e = injected()) return e;
    inrt++;
    Mtx *x = mtx(m); noteUse(x);
    if (x->owner == self && x->rec == 1) { x->count++; inrt--; return 0; }
    if (x->owner == self && x->rec == 2) { inrt--; return EDEADLK; }
    T[self].st = T_MUTEX; T[self].obj = m;
    schedule(self);
    x = mtx(m);
    T[self].st = T_RUN;
    x->owner = self; x->count = 1; acquired(x);
    inrt--;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_trylock);
    if (!on()) return r(m);
    if (int e = injected()) return e;
    inrt++;
    schedule(self);
    Mtx *x = mtx(m); noteUse(x);
    int e = 0;
    if (x->owner == self && x->rec == 1) x->count++;
    else if (x->owner != -1) e = EBUSY;
    else { x->owner = self; x->count = 1; acquired(x); }
    inrt--;
    return e;
}
static int timedlock(pthread_mutex_t *m) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept { return timedlock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) noexcept { return timedlock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_unlock);
    if (!on()) return r(m);
    if (int e = injected()) return e;
    inrt++;
    Mtx *x = mtx(m);
    int e = 0;
    if (x->owner != self) e = EPERM;
    else if (--x->count == 0) { released(x); x->owner = -1; }
    inrt--;
    return e;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept { REAL(pthread_cond_init); return r(c, a); }
int pthread_cond_destroy(pthread_cond_t *c) noexcept
{
    REAL(pthread_cond_destroy);
    if (on()) return 0;      // glibc would block while waiters are inside; the code is specified to have none
    return r(c);
}
static long condSeq[MAXT]; static long condCounter = 0;
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int timed, int64_t until)
{
    inrt++;
    Mtx *x = mtx(m);
    if (x->owner != self) { vs_log("crash condwait-without-mutex"); endExec(1); }
    released(x); x->owner = -1; x->count = 0;
    T[self].st = T_COND; T[self].obj = c; T[self].mtx = m; T[self].timed = timed; T[self].wake = until; T[self].timedOut = 0;
    condSeq[self] = ++condCounter;
    schedule(self);
    x = mtx(m);
    T[self].st = T_RUN; T[self].timed = 0;
    x->owner = self; x->count = 1; acquired(x);
    int e = T[self].timedOut ? ETIMEDOUT : 0;
    inrt--;
    return e;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REAL(pthread_cond_wait);
    if (!on()) return r(c, m);
    return condWait(c, m, 0, 0);
}
static int64_t ts2ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    REAL(pthread_cond_timedwait);
    if (!on()) return r(c, m, t);
    return condWait(c, m, 1, ts2ns(t));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t)
{
    if (!on()) return EINVAL;
    return condWait(c, m, 1, ts2ns(t));
}
static void condWake(pthread_cond_t *c, int all)
{
    inrt++;
    schedule(self);
    for (;;) {
        int w[MAXT], n = 0;
        for (int i = 0; i < nT; ++i) if (T[i].st == T_COND && T[i].obj == (void *)c) w[n++] = i;
        for (int i = 1; i < n; ++i) for (int j = i; j > 0 && condSeq[w[j]] < condSeq[w[j - 1]]; --j) { int q = w[j]; w[j] = w[j - 1]; w[j - 1] = q; }
        if (!n) break;
        int k = 0;
        if (!all && n > 1) {
            k = decide(n, 0);
            if (k < 0) k = rnd() % n;
            record(n, k);
        }
        int t = w[k];
        T[t].st = T_MUTEX; T[t].obj = T[t].mtx;
        if (!all) break;
    }
    inrt--;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept { REAL(pthread_cond_signal); if (!on()) return r(c); condWake(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { REAL(pthread_cond_broadcast); if (!on()) return r(c); condWake(c, 1); return 0; }

int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) noexcept { REAL(pthread_rwlock_init); return r(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept { REAL(pthread_rwlock_destroy); if (on()) return 0; return r(l); }
static int rwl(void *l, int w, int tryit)
{
    inrt++;
    Mtx *x = mtx(l);
    if (!x->inited) { x->inited = 1; nInited++; nNonPi++; }
    int e = 0;
    if (tryit) { schedule(self); x = mtx(l); if (x->owner != -1 || (w && x->readers)) e = EBUSY; }
    else { T[self].st = T_RW; T[self].obj = l; T[self].rwWrite = w; schedule(self); T[self].st = T_RUN; x = mtx(l); }
    if (!e) { if (w) x->owner = self; else x->readers++; acquired(x); }
    inrt--;
    return e;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { REAL(pthread_rwlock_rdlock); if (!on()) return r(l); return rwl(l, 0, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { REAL(pthread_rwlock_wrlock); if (!on()) return r(l); return rwl(l, 1, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { REAL(pthread_rwlock_tryrdlock); if (!on()) return r(l); return rwl(l, 0, 1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { REAL(pthread_rwlock_trywrlock); if (!on()) return r(l); return rwl(l, 1, 1); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
{
    REAL(pthread_rwlock_unlock);
    if (!on()) return r(l);
    inrt++;
    Mtx *x = mtx(l);
    vcJoin(x->vc, T[self].vc); T[self].vc[self]++;
    if (x->owner == self) x->owner = -1; else if (x->readers) x->readers--;
    inrt--;
    return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int s) noexcept { REAL(pthread_spin_init); return r(l, s); }
int pthread_spin_lock(pthread_spinlock_t *l) noexcept { REAL(pthread_spin_lock); if (!on()) return r(l); return rwl((void *)l, 1, 0); }
int pthread_spin_trylock(pthread_spinlock_t *l) noexcept { REAL(pthread_spin_trylock); if (!on()) return r(l); return rwl((void *)l, 1, 1); }
int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { REAL(pthread_spin_unlock); if (!on()) return r(l); return pthread_rwlock_unlock((pthread_rwlock_t *)l); }
// POSIX semaphores
int sem_init(sem_t *s, int p, unsigned v) noexcept { REAL(sem_init); int e = r(s, p, v); if (!e && on()) { Mtx *x = mtx(s); x->semv = v; x->issem = 1; } return e; }
int sem_wait(sem_t *s) { REAL(sem_wait); if (!on()) return r(s); inrt++; T[self].st = T_SEM; T[self].obj = s; schedule(self); T[self].st = T_RUN; Mtx *x = mtx(s); x->semv--; acquired(x); inrt--; return 0; }
int sem_trywait(sem_t *s) noexcept { REAL(sem_trywait); if (!on()) return r(s); inrt++; schedule(self); Mtx *x = mtx(s); int e = 0; if (x->semv > 0) { x->semv--; acquired(x); } else { errno = EAGAIN; e = -1; } inrt--; return e; }
int sem_post(sem_t *s) noexcept { REAL(sem_post); if (!on()) return r(s); inrt++; schedule(self); Mtx *x = mtx(s); x->semv++; vcJoin(x->vc, T[self].vc); T[self].vc[self]++; inrt--; return 0; }
int sem_getvalue(sem_t *s, int *v) noexcept { REAL(sem_getvalue); if (!on()) return r(s, v); *v = mtx(s)->semv; return 0; }
int sem_destroy(sem_t *s) noexcept { REAL(sem_destroy); if (on()) return 0; return r(s); }

int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept
{
    REAL(pthread_create);
    if (!on()) return r(th, a, fn, arg);
    inrt++;
    newThread(fn, arg, th);
    schedule(self);
    inrt--;
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    REAL(pthread_join);
    if (!on()) return r(th, ret);
    inrt++;
    int t = -1;
    for (int i = 0; i < nT; ++i) if (T[i].real == th && i) t = i;
    if (t < 0) { inrt--; return ESRCH; }
    T[self].st = T_JOIN; T[self].joinOn = t;
    schedule(self);
    T[self].st = T_RUN;
    vcJoin(T[self].vc, T[t].vc);
    if (ret) *ret = T[t].ret;
    inrt--;
    return 0;
}
int pthread_detach(pthread_t th) noexcept { REAL(pthread_detach); if (on()) return 0; return r(th); }
static void vsleep(int64_t ns)
{
    inrt++;
    T[self].st = T_SLEEP; T[self].wake = vnow + (ns > 0 ? ns : 0);
    schedule(self);
    T[self].st = T_RUN;
    inrt--;
}
int nanosleep(const struct timespec *t, struct timespec *rem) { REAL(nanosleep); if (!on()) return r(t, rem); vsleep(ts2ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
    REAL(clock_nanosleep);
    if (!on()) return r(c, flags, t, rem);
    vsleep(flags & TIMER_ABSTIME ? ts2ns(t) - vnow : ts2ns(t)); return 0;
}
int usleep(useconds_t u) { REAL(usleep); if (!on()) return r(u); vsleep((int64_t)u * 1000); return 0; }
unsigned sleep(unsigned u) { REAL(sleep); if (!on()) return r(u); vsleep((int64_t)u * 1000000000LL); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (on() && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID) {
        vnow += 1000; t->tv_sec = vnow / 1000000000LL; t->tv_nsec = vnow % 1000000000LL; return 0;
    }
    return syscall(SYS_clock_gettime, c, t);
}
int sched_yield() noexcept
{
    if (!on()) return syscall(SYS_sched_yield);
    inrt++; T[self].ran += 100; schedule(self); inrt--; return 0;
}
// --------------------------------------------------------------------------------------------- "tsan" runtime: instrumentation hooks
}
// race detection (happens-before over the recorded synchronisation); guidance only
struct Cell { uintptr_t a; uint32_t wclk; int wt; uintptr_t wpc; uint32_t rclk[MAXT]; uintptr_t rpc[MAXT]; };
enum { NCELL = 1 << 12, NIDX = 1 << 14 };
static Cell *cells; static int ncells = 0;
static uint16_t *cidx;
struct Sync { uintptr_t a; VC vc; };
enum { NSYNC = 1 << 11 };
static Sync *syncs;

static bool isRacy(uintptr_t pc) { for (int i = 0; i < S->nracy; ++i) if (S->racy[i] == pc) return true; return false; }
static void addRacy(uintptr_t pc)
{
    if (!pc || isRacy(pc) || S->nracy >= MAXRACY) return;
    S->racy[S->nracy++] = pc;
}
static inline size_t hsh(uintptr_t a) { return (a * 0x9E3779B97F4A7C15ULL) >> 40; }
static Cell *cell(uintptr_t a)
{
    size_t h = hsh(a) & (NIDX - 1);
    for (int k = 0; k < 64; ++k, h = (h + 1) & (NIDX - 1)) {
        if (!cidx[h]) {
            if (ncells >= NCELL - 1) return nullptr;
            cidx[h] = ++ncells; cells[ncells].a = a; cells[ncells].wt = -1; return &cells[ncells];
        }
        if (cells[cidx[h]].a == a) return &cells[cidx[h]];
    }
    return nullptr;
}
static inline bool onStack(uintptr_t a)
{
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    return a > sp - 4096 && a < sp + 200 * 1024;   // own stack: good enough, guidance only
}
static void access(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
    if (!on()) return;
    if (++hooks > hookLimit) { inrt++; logStuck(); vs_log("livelock"); endExec(2); }
    if (S->nracy && S->racyOn && isRacy(pc)) { inrt++; schedule(self); inrt--; }
    if (nT < 2 || onStack(a)) return;
    inrt++;
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2 && g <= (a >> 2) + 16; ++g) {
        Cell *c = cell(g);
        if (!c) break;
        uint32_t *vc = T[self].vc;
        if (c->wt >= 0 && c->wt != self && c->wclk > vc[c->wt]) { addRacy(c->wpc); addRacy(pc); }
        if (wr) {
            for (int i = 0; i < nT; ++i) if (i != self && c->rclk[i] > vc[i]) { addRacy(c->rpc[i]); addRacy(pc); }
            c->wt = self; c->wclk = vc[self]; c->wpc = pc;
        } else { c->rclk[self] = vc[self]; c->rpc[self] = pc; }
    }
    inrt--;
}
static void forget(uintptr_t a, size_t n)
{
    if (!active || nT < 2) return;
    for (int i = 1; i <= ncells; ++i)
        if ((cells[i].a << 2) >= a && (cells[i].a << 2) < a + n) { uintptr_t k = cells[i].a; xset(&cells[i], 0, sizeof(Cell)); cells[i].a = k; cells[i].wt = -1; }
}
static Sync *syncOf(uintptr_t a)
{
    size_t h = hsh(a) & (NSYNC - 1);
    for (int k = 0; k < 64; ++k, h = (h + 1) & (NSYNC - 1)) {
        if (syncs[h].a == a) return &syncs[h];
        if (!syncs[h].a) { syncs[h].a = a; return &syncs[h]; }
    }
    return nullptr;
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void aPoint() { if (on()) { inrt++; schedule(self); inrt--; } }
static void aSync(const volatile void *p, int mo, bool isLoad, bool isStore)
{
    if (!on() || nT < 2) return;
    Sync *s = syncOf((uintptr_t)p);
    if (!s) return;
    if (isLoad && acq(mo)) vcJoin(T[self].vc, s->vc);
    if (isStore && rel(mo)) { if (isLoad) vcJoin(s->vc, T[self].vc); else xcpy(s->vc, T[self].vc, sizeof(VC)); T[self].vc[self]++; }
    else if (isStore && !isLoad) xset(s->vc, 0, sizeof(VC));
}
// a weak compare-exchange may fail spuriously (option "casf": how often)
static bool casFails()
{
    if (casLeft <= 0 || !on()) return false;
    int c = decide(2, 1);
    if (c < 0) c = (rnd() % 6) == 0;
    record(2, c);
    if (c) casLeft--;
    return c;
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, PC); }
#define RW(n) \
void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, PC); } \
void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, PC); } \
void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, PC); } \
void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n ? n : 1, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n ? n : 1, true, PC); }
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { aPoint(); ty v = __atomic_load_n(p, SC); aSync(p, mo, true, false); return v; } \
void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { aPoint(); aSync(p, mo, false, true); __atomic_store_n(p, v, SC); } \
ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_exchange_n(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_add(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_sub(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_and(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_or(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_xor(p, v, SC); aSync(p, mo, true, true); return o; } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { aPoint(); ty o = __atomic_fetch_nand(p, v, SC); aSync(p, mo, true, true); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fmo) { aPoint(); bool b = __atomic_compare_exchange_n(p, e, v, false, SC, SC); if (b) aSync(p, mo, true, true); else aSync(p, fmo, true, false); return b; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fmo) { aPoint(); if (casFails()) { *e = __atomic_load_n(p, SC); aSync(p, fmo, true, false); return 0; } bool b = __atomic_compare_exchange_n(p, e, v, false, SC, SC); if (b) aSync(p, mo, true, true); else aSync(p, fmo, true, false); return b; } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fmo) { aPoint(); bool b = __atomic_compare_exchange_n(p, &e, v, false, SC, SC); if (b) aSync(p, mo, true, true); else aSync(p, fmo, true, false); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { aPoint(); }
void __tsan_atomic_signal_fence(int) {}
}

// the compiler does not instrument these calls
static void range(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
    if (!n) return;
    if (n > 512) n = 512;
    for (size_t o = 0; o < n; o += 64) access(a + o, n - o < 64 ? n - o : 64, wr, pc);
}
extern "C" void *memset(void *d, int c, size_t n)
{
    if (active && self >= 0 && !inrt) range((uintptr_t)d, n, true, PC);
    void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
extern "C" void *memcpy(void *d, const void *s, size_t n)
{
    if (active && self >= 0 && !inrt) { range((uintptr_t)s, n, false, PC); range((uintptr_t)d, n, true, PC); }
    void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r;
}
extern "C" void *memmove(void *d, const void *s, size_t n)
{
    if (active && self >= 0 && !inrt) { range((uintptr_t)s, n, false, PC); range((uintptr_t)d, n, true, PC); }
    void *r = d;
    if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
    else { char *dd = (char *)d + n; const char *ss = (const char *)s + n; while (n--) { *--dd = *--ss; asm volatile("" ::: "memory"); } }
    return r;
}

// ------------------------------------------------------------------------------------------------ heap tracking
struct Blk { uintptr_t a; size_t n; };
enum { MAXB = 1 << 14, GUARD = 64 };
static Blk *blks; static int nblk = 0;
static int heapBad = 0;
static void *vnew(size_t n, size_t al)
{
    if (al < 16) al = 16;
    // layout: [pad..][size][magic] GUARD bytes | user | GUARD bytes
    size_t head = al > GUARD ? al : GUARD;
    char *base = (char *)aligned_alloc(al, (head + n + GUARD + al - 1) / al * al);
    if (!base) return nullptr;
    char *u = base + head;
    xset(u - GUARD, 0xA5, GUARD);
    xset(u + n, 0xA5, GUARD);
    xset(u, 0xCD, n);                       // fresh memory is never zero by luck
    *(size_t *)(u - 64) = n; *(size_t *)(u - 56) = head; *(uint64_t *)(u - 48) = 0x5653484541505631ULL;
    if (active && blks && nblk < MAXB) { blks[nblk].a = (uintptr_t)u; blks[nblk].n = n; nblk++; }
    return u;
}
static int guardBad(char *u)
{
    size_t n = *(size_t *)(u - 64);
    for (int i = 24; i < GUARD; ++i) if ((unsigned char)u[-64 + i] != 0xA5) return 1;
    for (int i = 0; i < GUARD; ++i) if ((unsigned char)u[n + i] != 0xA5) return 1;
    return 0;
}
static void vdel(void *p)
{
    if (!p) return;
    char *u = (char *)p;
    if (*(uint64_t *)(u - 48) != 0x5653484541505631ULL) {
        if (active) { inrt++; vs_log("crash bad-delete"); endExec(1); }
        return;
    }
    if (guardBad(u)) heapBad++;
    if (active) {
        forget((uintptr_t)u, *(size_t *)(u - 64));
        for (int i = nblk - 1; i >= 0; --i) if (blks[i].a == (uintptr_t)u) { blks[i] = blks[--nblk]; break; }
    }
    *(uint64_t *)(u - 48) = 0x5653444541443131ULL;   // a second delete is seen
    xset(u, 0xDD, *(size_t *)(u - 64));
    if (!active) free(u - *(size_t *)(u - 56));   // during an execution freed memory is never reused: use after free shows as 0xDD
}
#include <malloc.h>
extern "C" void __libc_free(void *);
extern "C" void free(void *p) noexcept { if (p && on()) forget((uintptr_t)p, malloc_usable_size(p)); __libc_free(p); }
void *operator new(size_t n) { void *p = vnew(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = vnew(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vnew(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vnew(n, 16); }
void *operator new(size_t n, std::align_val_t a) { void *p = vnew(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = vnew(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { vdel(p); }
void operator delete[](void *p) noexcept { vdel(p); }
void operator delete(void *p, size_t) noexcept { vdel(p); }
void operator delete[](void *p, size_t) noexcept { vdel(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vdel(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vdel(p); }
void operator delete(void *p, std::align_val_t) noexcept { vdel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { vdel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { vdel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { vdel(p); }
extern "C" int vs_in_heap(const void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < nblk; ++i)
        if (a >= blks[i].a && a < blks[i].a + (blks[i].n ? blks[i].n : 1)) return a + n <= blks[i].a + blks[i].n;
    return -1;
}
extern "C" int vs_heap_check()
{
    int bad = heapBad;
    for (int i = 0; i < nblk; ++i) if (guardBad((char *)blks[i].a)) bad++;
    return bad;
}
extern "C" int vs_pi_all() { return nNonPi == 0; }
extern "C" int vs_mutex_count() { return nInited; }
extern "C" int vs_mutex_pi(void *m) { for (int i = 0; i < nM; ++i) if (M[i].a == m) return M[i].inited ? M[i].pi : -1; return -1; }
extern "C" int vs_mutex_owner(void *m) { for (int i = 0; i < nM; ++i) if (M[i].a == m) return M[i].owner; return -1; }

// ------------------------------------------------------------------------------------------------ one execution (child process)
static void onSignal(int sig)
{
    inrt = 1;
    vs_log("crash %s", sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : sig == SIGBUS ? "bus" : sig == SIGFPE ? "fpe" : "signal");
    endExec(1);
}
static void onTerminate() { inrt = 1; vs_log("crash terminate"); endExec(1); }
static char altstack[64 * 1024];

static void childMain(const char *script)
{
    real_create = (decltype(real_create))rs("pthread_create");
    real_join = (decltype(real_join))rs("pthread_join");
    struct sigaction sa; xset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGALRM, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    alarm(20);
    std::set_terminate(onTerminate);
    rng = S->seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rng) rng = 1; rnd(); rnd();
    self = 0; nT = 1; xset(&T[0], 0, sizeof T[0]); T[0].st = T_RUN; T[0].vc[0] = 1;
    T[0].prio = (int)(rnd() % 100000) + 10;
    if (S->mode == 2) { npct = 1 + rnd() % 4; for (int i = 0; i < npct; ++i) pctChange[i] = 1 + rnd() % (S->estSteps > 4 ? S->estSteps : 40); }
    vnow = 1000000000000LL;
    active = 1;
    scenario(script);
    inrt = 1;
    endExec(0);
}
static int runOne(const char *script)
{
    S->ndec = 0; S->loglen = 0; S->log[0] = 0; S->truncated = 0; S->status = -1; S->steps = 0;
    pid_t p = fork();
    if (p == 0) { childMain(script); _exit(0); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == -1) { vs_log("crash killed"); S->status = 1; }
    return S->status;
}

// ------------------------------------------------------------------------------------------------ exploration (parent process)
struct Hist { uint64_t h; };
enum { HTAB = 1 << 18 };
static uint64_t *seen; static long nseen;
static FILE *out;
static long total, uniq, limited, nbad;   // nbad: crashed, stuck or very slow executions; a few are enough
static uint64_t hashLog() { uint64_t h = 1469598103934665603ULL; for (int i = 0; i < S->loglen; ++i) { h ^= (unsigned char)S->log[i]; h *= 1099511628211ULL; } return h ? h : 1; }
static long maxHist;
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void note(int sid)
{
    total++;
    if (S->status == 2) limited++;
    if (S->status) nbad++;
    if (S->steps > S->estSteps) S->estSteps = S->steps;
    uint64_t h = hashLog();
    size_t i = h & (HTAB - 1);
    while (seen[i]) { if (seen[i] == h) return; i = (i + 1) & (HTAB - 1); }
    if (nseen > HTAB * 3 / 4 || uniq >= maxHist) return;
    seen[i] = h; nseen++; uniq++;
    fprintf(out, "H %d %d ", sid, S->status);
    int last = 0;
    for (int k = 0; k < S->ndec; ++k) if (S->dec[k].chosen) last = k + 1;
    if (!last) fprintf(out, "-");
    for (int k = 0; k < last; ++k) fprintf(out, "%s%d", k ? "." : "", S->dec[k].chosen);
    fprintf(out, "\n");
    fwrite(S->log, 1, S->loglen, out);
    fprintf(out, ".\n");
}
// returns 1 when the tree for this bound was exhausted
static int dfs(int sid, const char *script, int bound, long maxExec, double deadline)
{
    static unsigned char pre[MAXDEC];
    int npre = 0;
    long n = 0;
    for (;;) {
        xcpy(S->prefix, pre, npre); S->nprefix = npre; S->mode = 0; S->seed = 1;
        double ts = now();
        runOne(script);
        note(sid);
        if (now() - ts > 5) nbad += 10;
        n++;
        // deepest decision with another affordable option
        int nd = S->ndec;
        static int cost[MAXDEC + 1];
        cost[0] = 0;
        for (int i = 0; i < nd; ++i) cost[i + 1] = cost[i] + (S->dec[i].cur && S->dec[i].chosen ? 1 : 0);
        int i = nd - 1;
        for (; i >= 0; --i) {
            int nx = S->dec[i].chosen + 1;
            if (nx < S->dec[i].n && cost[i] + (S->dec[i].cur ? 1 : 0) <= bound) break;
        }
        if (i < 0) return 1;
        for (int k = 0; k < i; ++k) pre[k] = S->dec[k].chosen;
        pre[i] = S->dec[i].chosen + 1;
        npre = i + 1;
        if (n >= maxExec || now() > deadline || nbad >= 20) return 0;
    }
}
int main(int argc, char **argv)
{
    // usage: h JOBS OUT  -- JOBS lines: "<id> <bound> <maxexec> <nrandom> <seed> <maxhist> <maxsec> <script...>"
    //        h --replay DECISIONS SCRIPT
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cells = (Cell *)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    cidx = (uint16_t *)mmap(nullptr, sizeof(uint16_t) * NIDX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    syncs = (Sync *)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    blks = (Blk *)mmap(nullptr, sizeof(Blk) * MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    // one CPU per explorer: a baton hand-over is then a plain context switch
    cpu_set_t cs; CPU_ZERO(&cs);
    int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    cpu_set_t av; sched_getaffinity(0, sizeof av, &av);
    int want = getpid() % (ncpu > 0 ? ncpu : 1);
    if (getenv("VS_CPU")) want = atoi(getenv("VS_CPU"));
    for (int k = 0; k < 1024; ++k) { int c = (want + k) % 1024; if (CPU_ISSET(c, &av)) { CPU_SET(c, &cs); break; } }
    sched_setaffinity(0, sizeof cs, &cs);
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    S->racyOn = 1;
    if (argc >= 4 && !strcmp(argv[1], "--replay")) {
        // argv[2]: decisions, argv[3]: script, argv[4...]: racy pcs are learnt by a preliminary pass
        int n = 0;
        if (strcmp(argv[2], "-")) for (char *p = argv[2]; *p;) { S->prefix[n++] = strtol(p, &p, 10); if (*p == '.') ++p; }
        S->nprefix = n; S->mode = 0; S->seed = 1;
        for (int k = 4; k < argc; ++k) S->racy[S->nracy++] = strtoul(argv[k], nullptr, 16);
        runOne(argv[3]);
        fwrite(S->log, 1, S->loglen, stdout);
        return 0;
    }
    if (argc < 3) return 2;
    FILE *in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    seen = (uint64_t *)malloc(sizeof(uint64_t) * HTAB);
    static char line[1 << 16];
    while (fgets(line, sizeof line, in)) {
        int sid, bound, pos = 0; long maxExec, nRandom; unsigned long seed; double maxSec;
        if (sscanf(line, "%d %d %ld %ld %lu %ld %lf %n", &sid, &bound, &maxExec, &nRandom, &seed, &maxHist, &maxSec, &pos) < 7) continue;
        char *script = line + pos; script[strcspn(script, "\n")] = 0;
        xset(seen, 0, sizeof(uint64_t) * HTAB); nseen = 0; total = uniq = limited = nbad = 0; S->nracy = 0; S->estSteps = 0;
        double t0 = now(), deadline = t0 + maxSec;
        int complete = -1;
        for (int b = 0; b <= bound; ++b) {
            int racy = S->nracy;
            int c = dfs(sid, script, b, maxExec - total, deadline);
            // accesses newly found racing become scheduling points: repeat this bound
            for (int k = 0; c && S->nracy != racy && k < 4; ++k) { racy = S->nracy; c = dfs(sid, script, b, maxExec - total, deadline); }
            if (c) complete = b; else break;
            if (total >= maxExec || now() > deadline) break;
        }
        long rnds = 0;
        for (; rnds < nRandom && now() < deadline + maxSec && nbad < 40; ++rnds) {
            S->mode = 1 + (rnds % 3 == 2); S->nprefix = 0; S->seed = seed * 1000003UL + rnds;
            double ts = now();
            runOne(script); note(sid);
            if (now() - ts > 5) nbad += 10;
        }
        fprintf(out, "E %d %ld %ld %d %ld %ld %d %.3f", sid, total, uniq, complete, rnds, limited, S->nracy, now() - t0);
        for (int i = 0; i < S->nracy; ++i) fprintf(out, " %lx", (unsigned long)S->racy[i]);
        fprintf(out, "\n");
        fflush(out);
    }
    fclose(out);
    return 0;
}
