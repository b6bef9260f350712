#include "seams.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <linux/futex.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include <random>
#include <cmath>

namespace seam {
thread_local RandState *rand_cur = nullptr;
RandState rand_env;
Env env;
thread_local AllocPlan *alloc_cur = nullptr;
size_t live_bytes = 0, live_limit = size_t(3) << 30;
thread_local IoPlan *io_cur = nullptr;
thread_local Interrupt *intr_cur = nullptr;
thread_local uint64_t steps = 0;
thread_local uint64_t op_steps = 0;
uint64_t step_budget = ~0ULL;
void (*on_hang)(const char *) = nullptr;
unsigned char *cover_map = nullptr;
const char *fault_names[F_N] = {"allocation_failure", "open_failure", "write_error", "short_write", "write_eintr",
                                "disk_gone_mid_write", "close_failure", "read_error", "short_read", "read_eintr",
                                "host_interrupt", "thread_switch", "starving_draws", "console_failure", "torn_file",
                                "lost_block", "crash_restart", "environment_change", "save_load_restart", "unusable_path", "rename_failure"};
uint64_t fault_count[F_N];

static inline void fired(Fault f) { __atomic_fetch_add(&fault_count[f], 1, __ATOMIC_RELAXED); }

static int draw() {
    RandState *s = rand_cur ? rand_cur : &rand_env;
    long n = s->n > 0 ? s->n : 1;
    long r = 0;
    uint64_t u = s->rng.next() & 0x7fffffff;
    long hi = (long) ((0x7fffffffUL - n) / n) * n;  // a multiple of n
    long base = n < 1000000 ? (long) (u % 1000) * n % (hi > 0 ? hi : 1) : 0;
    switch (s->policy) {
        case kUniform: r = (long) u; break;
        case kConst: r = base + s->p % n; break;
        case kRoundRobin: r = base + (s->p + s->count) % n; break;
        case kSubset: r = base + (long) (u % (uint64_t) (s->p % n + 1)); break;  // only the first p+1 documents
        case kSticky: if (s->count == 0 || u % 16 == 0) s->last = (long) (s->rng.next() % n); r = base + s->last; break;
        case kZero: r = 0; break;
        case kMax: r = 0x7fffffff; break;
        case kAlternate: r = base + (s->count % 2 ? s->p % n : 0); break;
    }
    s->count++;
    if (rand_cur && s->policy != kUniform && s->policy != kRoundRobin) fired(F_STARVE);
    return (int) (r & 0x7fffffff);
}
static uint64_t entropy() { return env.entropy = mix(env.entropy); }
static int64_t now_ns() { env.clock_ns += env.tick_ns; return env.clock_ns; }

// ---------------------------------------------------------------- threads
const int kMaxThreads = 1024;
struct Sched {
    int n = 0;
    sem_t sem[kMaxThreads];
    sem_t done;
    bool fin[kMaxThreads];
    bool child[kMaxThreads] = {};   // started by the code under test
    pthread_t handle[kMaxThreads];
    bool own = false;               // the code under test started threads outside of run_threads: the caller is thread 0
    uint64_t idle = 0, worked = 0;
    int alive = 0;
    uint64_t gstep = 0, next = ~0ULL;
    SwitchPlan plan;
    Rng rng{1};
    size_t pos = 0;
    std::pair<uint64_t, int> *taken;
    size_t ntaken = 0, cap = 0;
    uint64_t forced = 0;
    int stalled = -1;
};
static Sched *sched = nullptr;
static thread_local int tid = -1;
static thread_local int nopreempt = 0;

static void plan_next(Sched *s) {
    if (s->plan.is_explicit) {
        s->next = s->pos < s->plan.list.size() ? s->plan.list[s->pos].first : ~0ULL;
    } else {
        double u = s->rng.unit();
        if (u < 1e-12) u = 1e-12;
        double mean = s->plan.mean2 > 0 && s->rng.below(2) ? s->plan.mean2 : s->plan.mean;
        double gap = -std::log(u) * mean;
        s->next = s->gstep + 1 + (uint64_t) gap;
        if (s->plan.stall > s->gstep) s->next = std::min(s->next, s->plan.stall);
    }
}
static int pick_other(Sched *s, int self) {
    int c[kMaxThreads], k = 0;
    for (int i = 0; i < s->n; i++) if (i != self && i != s->stalled && !s->fin[i]) c[k++] = i;
    if (!k && s->stalled >= 0 && s->stalled != self) { c[k++] = s->stalled; s->stalled = -1; }
    if (!k) return -1;
    return c[s->rng.below(k)];
}
static void switch_to(Sched *s, int self, int target) {
    if (s->taken && s->ntaken < s->cap) s->taken[s->ntaken++] = {s->gstep, target};
    fired(F_SWITCH);
    sem_post(&s->sem[target]);
    while (sem_wait(&s->sem[self]) != 0) {}
}
static void preempt_point() {
    Sched *s = sched;
    if (++s->gstep < s->next) return;
    if (nopreempt) return;
    nopreempt++;
    int target = -1;
    if (s->plan.is_explicit) {
        target = s->plan.list[s->pos].second;
        s->pos++;
        if (target < 0 || target >= s->n || target == tid || s->fin[target]) target = -1;
    } else {
        target = pick_other(s, tid);
        if (s->gstep == s->plan.stall) s->stalled = tid;
    }
    plan_next(s);
    if (target >= 0) switch_to(s, tid, target);
    nopreempt--;
}
static void yield_blocked() {  // the running thread waits for something another thread holds
    Sched *s = sched;
    s->forced++;
    s->stalled = -1;
    s->idle = s->worked == s->gstep - s->forced + 1 ? s->idle + 1 : 0;  // forced switches in a row
    s->gstep++;
    s->worked = s->gstep - s->forced;
    if (s->idle > 1000000 && on_hang) on_hang("deadlock: every thread waits");
    int target = pick_other(s, tid);
    if (target < 0) { if (on_hang) on_hang("deadlock: what is waited for never happens"); return; }
    nopreempt++;
    switch_to(s, tid, target);
    nopreempt--;
}
static bool threaded() { return sched && tid >= 0; }
static bool creating = false;   // the simulator itself starts a thread
// Threads that the code under test starts by itself are simulated like those of run_threads.
struct Child { Sched *s; int id; void *(*f)(void *); void *arg; RandState *rc; AllocPlan *ac; IoPlan *ic; Interrupt *nc; };
static void leave(Sched *s, int id) {
    tid = -1;
    s->fin[id] = true;
    if (--s->alive == 0) {
        sem_post(&s->done);
    } else {
        int t = pick_other(s, id);
        sem_post(&s->sem[t]);
    }
}
static void *child_main(void *p) {
    Child *c = (Child *) p;
    Sched *s = c->s;
    int id = c->id;
    while (sem_wait(&s->sem[id]) != 0) {}
    tid = id;
    rand_cur = c->rc; alloc_cur = c->ac; io_cur = c->ic; intr_cur = c->nc;
    void *r = c->f(c->arg);
    alloc_cur = nullptr; io_cur = nullptr;
    free(c);
    leave(s, id);
    return r;
}
static void maybe_end_own() {   // only the caller is left: as before
    Sched *s = sched;
    if (!s || !s->own || tid != 0 || s->alive > 1) return;
    sched = nullptr;
    tid = -1;
    free(s->taken);
    free(s);
}
struct ThreadArg { Sched *s; int id; const std::function<void()> *body; };
static void *thread_main(void *p) {
    ThreadArg *a = (ThreadArg *) p;
    Sched *s = a->s;
    while (sem_wait(&s->sem[a->id]) != 0) {}
    tid = a->id;
    (*a->body)();
    leave(s, a->id);
    return nullptr;
}
SchedResult run_threads(const std::vector<std::function<void()>> &bodies, const SwitchPlan &plan) {
    Sched *s = new Sched();
    s->n = (int) bodies.size();
    s->plan = plan;
    s->rng = Rng(mix(plan.seed));
    s->cap = 2000000;
    s->taken = (std::pair<uint64_t, int> *) malloc(s->cap * sizeof(*s->taken));
    s->alive = s->n;
    sem_init(&s->done, 0, 0);
    plan_next(s);
    std::vector<ThreadArg> args(s->n);
    std::vector<pthread_t> th(s->n);
    for (int i = 0; i < s->n; i++) {
        sem_init(&s->sem[i], 0, 0);
        s->fin[i] = false;
        args[i] = {s, i, &bodies[i]};
    }
    sched = s;
    for (int i = 0; i < s->n; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 21);
        creating = true;
        if (pthread_create(&th[i], &at, thread_main, &args[i]) != 0) { perror("pthread_create"); _exit(96); }
        creating = false;
        pthread_attr_destroy(&at);
    }
    sem_post(&s->sem[0]);
    while (sem_wait(&s->done) != 0) {}
    for (size_t i = 0; i < th.size(); i++) pthread_join(th[i], nullptr);
    sched = nullptr;
    SchedResult r;
    r.taken.assign(s->taken, s->taken + s->ntaken);
    r.steps = s->gstep;
    r.forced = s->forced;
    free(s->taken);
    delete s;
    return r;
}
}

using namespace seam;

extern "C" {
extern char __executable_start;
void __sanitizer_cov_trace_pc() {
    steps++;
    if (cover_map) {
        uintptr_t pc = (uintptr_t) __builtin_return_address(0) - (uintptr_t) &__executable_start;
        cover_map[(pc ^ (pc >> 16)) & 0xffff] = 1;
    }
    if (++op_steps > step_budget && on_hang) on_hang("step budget exceeded: the call does not end");
    if (sched && tid >= 0) preempt_point();
}

// ---- loads and stores
#define ACCESS(name) __attribute__((no_sanitize("address"))) void name(void *p) { \
    static void (*real)(void *) = nullptr; \
    if (!real) real = (void (*)(void *)) dlsym(RTLD_NEXT, #name); \
    if (sched && tid >= 0) preempt_point(); \
    real(p); \
}
ACCESS(__asan_load1) ACCESS(__asan_load2) ACCESS(__asan_load4) ACCESS(__asan_load8) ACCESS(__asan_load16)
ACCESS(__asan_store1) ACCESS(__asan_store2) ACCESS(__asan_store4) ACCESS(__asan_store8) ACCESS(__asan_store16)

// ---- randomness
int rand() noexcept { return draw(); }
long random() noexcept { return draw(); }
long lrand48() noexcept { return draw(); }
double drand48() noexcept { return draw() / 2147483648.0; }
void srand(unsigned) noexcept {}
void srandom(unsigned) noexcept {}
void srand48(long) noexcept {}
ssize_t getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; i++) ((unsigned char *) b)[i] = (unsigned char) entropy();
    return (ssize_t) n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random() noexcept { return (uint32_t) entropy(); }
pid_t getpid() noexcept { return env.pid; }

// ---- time
time_t time(time_t *t) noexcept {
    time_t v = (time_t) (now_ns() / 1000000000LL);
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    int64_t v = now_ns();
    tv->tv_sec = v / 1000000000LL;
    tv->tv_usec = v % 1000000000LL / 1000;
    return 0;
}
int clock_gettime(clockid_t, struct timespec *ts) noexcept {
    int64_t v = now_ns();
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
clock_t clock() noexcept { return (clock_t) (now_ns() / 1000); }

// ---- interruption
int PyErr_CheckSignals() {
    Interrupt *i = intr_cur;
    if (!i) return 0;
    i->seen++;
    if (i->at && i->seen == i->at) {
        i->fired++;
        fired(F_INTR);
        return -1;
    }
    return 0;
}

// ---- locks taken by simulated threads never block the process
#define REAL(name, ...) using real_t = __VA_ARGS__; static real_t real = nullptr; if (!real) real = (real_t) dlsym(RTLD_NEXT, name)
int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *));
    if (sched && tid >= 0) {
        while (true) {
            int r = pthread_mutex_trylock(m);
            if (r != EBUSY) return r;
            yield_blocked();
        }
    }
    return real(m);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    REAL("pthread_create", int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
    if (creating || (sched && tid < 0)) return real(t, at, f, arg);
    if (!sched) {
        Sched *s = new (malloc(sizeof(Sched))) Sched();
        s->own = true;
        s->n = s->alive = 1;
        s->plan.seed = env.sched = mix(env.sched);
        s->plan.mean = std::pow(10, (double) (s->plan.seed >> 8 & 3));
        s->plan.mean2 = s->plan.seed >> 10 & 1 ? 1000 : 0;
        s->rng = Rng(mix(s->plan.seed));
        s->taken = nullptr;
        s->fin[0] = false;
        sem_init(&s->done, 0, 0);
        sem_init(&s->sem[0], 0, 0);
        plan_next(s);
        sched = s;
        tid = 0;
    }
    Sched *s = sched;
    int id = 0;
    while (id < s->n && !(s->child[id] && s->fin[id])) id++;
    if (id == kMaxThreads) return EAGAIN;
    nopreempt++;
    Child *c = (Child *) malloc(sizeof(Child));
    *c = {s, id, f, arg, rand_cur, alloc_cur, io_cur, intr_cur};
    sem_init(&s->sem[id], 0, 0);
    s->fin[id] = false;
    s->child[id] = true;
    int r = real(t, at, child_main, c);
    if (r == 0) {
        s->handle[id] = *t;
        if (id == s->n) s->n++;
        s->alive++;
    } else { s->fin[id] = true; free(c); }
    nopreempt--;
    if (r == 0) preempt_point();
    return r;
}
int pthread_join(pthread_t t, void **ret) {
    REAL("pthread_join", int (*)(pthread_t, void **));
    if (threaded()) {
        Sched *s = sched;
        for (int id = 0; id < s->n; id++)
            if (s->child[id] && pthread_equal(s->handle[id], t)) { while (!s->fin[id]) yield_blocked(); break; }
        maybe_end_own();
    }
    return real(t, ret);
}
static int wait_anyway(pthread_mutex_t *m) {    // every wait may wake up without a reason
    pthread_mutex_unlock(m);
    yield_blocked();
    return pthread_mutex_lock(m);
}
static bool timed_out() { env.clock_ns += 1000000; return mix(env.sched += 3) % 4 == 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *));
    return threaded() ? wait_anyway(m) : real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!threaded()) { env.clock_ns = std::max<int64_t>(env.clock_ns, ts->tv_sec * 1000000000LL + ts->tv_nsec); return ETIMEDOUT; }
    if (timed_out()) { env.clock_ns = std::max<int64_t>(env.clock_ns, ts->tv_sec * 1000000000LL + ts->tv_nsec); return ETIMEDOUT; }
    return wait_anyway(m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return pthread_cond_timedwait(c, m, ts); }
static struct { pthread_once_t *ctl; } once_running[kMaxThreads];
int pthread_once(pthread_once_t *ctl, void (*f)(void)) {
    REAL("pthread_once", int (*)(pthread_once_t *, void (*)(void)));
    if (!threaded()) return real(ctl, f);
    auto slot = [&](pthread_once_t *c) { for (auto &o : once_running) if (o.ctl == c) return &o; return (decltype(&once_running[0])) nullptr; };
    while (true) {
        if (*(volatile int *) ctl == 2) return 0;
        if (!slot(ctl)) break;
        yield_blocked();
    }
    slot(nullptr)->ctl = ctl;
    struct End { decltype(slot) &s; pthread_once_t *c; ~End() { s(c)->ctl = nullptr; } } end{slot, ctl};
    f();
    *(volatile int *) ctl = 2;
    return 0;
}
// futures wait on futexes
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && threaded() && ((a[1] & 127) == FUTEX_WAIT || (a[1] & 127) == FUTEX_WAIT_BITSET)) {
        if (*(volatile int *) a[0] != (int) a[2]) { errno = EAGAIN; return -1; }
        if (a[3] && timed_out()) { errno = ETIMEDOUT; return -1; }
        yield_blocked();
        return 0;
    }
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}
// time that is waited for passes at once
static void pause_for(const struct timespec *ts) {
    if (ts) env.clock_ns += (int64_t) ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (threaded() && pick_other(sched, tid) >= 0) yield_blocked();
}
int sched_yield() noexcept { pause_for(nullptr); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { pause_for(ts); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *) {
    if (flags == 0) pause_for(ts);
    else { env.clock_ns = std::max<int64_t>(env.clock_ns, ts->tv_sec * 1000000000LL + ts->tv_nsec); pause_for(nullptr); }
    return 0;
}
int usleep(useconds_t us) { struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000}; pause_for(&ts); return 0; }
int get_nprocs() noexcept { return env.cpus; }
int get_nprocs_conf() noexcept { return env.cpus; }
long sysconf(int name) noexcept {
    REAL("sysconf", long (*)(int));
    return name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF ? env.cpus : real(name);
}
int sched_getaffinity(pid_t, size_t n, cpu_set_t *set) noexcept {
    memset(set, 0, n);
    for (int i = 0; i < env.cpus; i++) CPU_SET_S(i, n, set);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    REAL("pthread_rwlock_rdlock", int (*)(pthread_rwlock_t *));
    if (sched && tid >= 0) {
        while (true) {
            int r = pthread_rwlock_tryrdlock(m);
            if (r != EBUSY) return r;
            yield_blocked();
        }
    }
    return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    REAL("pthread_rwlock_wrlock", int (*)(pthread_rwlock_t *));
    if (sched && tid >= 0) {
        while (true) {
            int r = pthread_rwlock_trywrlock(m);
            if (r != EBUSY) return r;
            yield_blocked();
        }
    }
    return real(m);
}
int __cxa_guard_acquire(uint64_t *g) {
    REAL("__cxa_guard_acquire", int (*)(uint64_t *));
    nopreempt++;
    int r = real(g);
    if (!r) nopreempt--;
    return r;
}
void __cxa_guard_release(uint64_t *g) {
    REAL("__cxa_guard_release", void (*)(uint64_t *));
    real(g);
    nopreempt--;
}
void __cxa_guard_abort(uint64_t *g) {
    REAL("__cxa_guard_abort", void (*)(uint64_t *));
    real(g);
    nopreempt--;
}
}

// std::random_device takes its bits straight from the processor by default
namespace std {
random_device::result_type random_device::_M_getval() { return (unsigned) entropy(); }
}

// ---------------------------------------------------------------- memory
static void *alloc(size_t n, bool nothrow) {
    AllocPlan *p = alloc_cur;
    if (p && p->fail_at > 0 && n >= p->min_size) {
        p->seen++;
        if (p->seen >= p->fail_at && p->seen < p->fail_at + p->fail_n) {
            fired(F_OOM);
            if (nothrow) return nullptr;
            p->fired++;
            throw std::bad_alloc();
        }
    }
    void *r = malloc(n ? n : 1);
    if (!r) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (env.fill >= 0) memset(r, env.fill, n);
    size_t u = malloc_usable_size(r);
    if (__atomic_add_fetch(&live_bytes, u, __ATOMIC_RELAXED) > live_limit && on_hang) on_hang("memory grows without bound");
    return r;
}
static void dealloc(void *p) {
    if (!p) return;
    __atomic_sub_fetch(&live_bytes, malloc_usable_size(p), __ATOMIC_RELAXED);
    free(p);
}
void *operator new(size_t n) { return alloc(n, false); }
void *operator new[](size_t n) { return alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc(n, true); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { dealloc(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { dealloc(p); }

// ---------------------------------------------------------------- files
// Descriptors opened by the code under test while a plan is armed, with the number of the open.
static int fd_open_no[1024];
static bool sim_path(const char *path) { return io_cur && path && path[0] != '/'; }
static bool sim_fd(int fd) { return io_cur && fd >= 0 && fd < 1024 && fd_open_no[fd] > 0; }
static bool plan_open_fails(const char *path) {
    if (!sim_path(path)) return false;
    io_cur->opens++;
    if (io_cur->open_err && io_cur->opens == io_cur->open_nth) {
        io_cur->hard_fired++;
        fired(F_OPEN);
        errno = io_cur->open_err;
        return true;
    }
    io_cur->w_bytes = io_cur->r_bytes = 0;
    return false;
}
static void note_fd(int fd) { if (fd >= 0 && fd < 1024) fd_open_no[fd] = io_cur ? io_cur->opens : 0; }

static ssize_t sim_write(int fd, const char *b, size_t n, bool *handled) {
    IoPlan *p = io_cur;
    *handled = true;
    p->w_calls++;
    if (p->w_eintr && p->w_calls % p->w_eintr == 0 && !p->eintr_pending) {
        p->eintr_pending = true;
        p->soft_fired++;
        fired(F_WEINTR);
        errno = EINTR;
        return -1;
    }
    p->eintr_pending = false;
    size_t m = n;
    if (p->w_chunk > 0 && (long) m > p->w_chunk) {
        m = 1 + mix(p->seed + p->w_calls) % p->w_chunk;
        p->soft_fired++;
        fired(F_WSHORT);
    }
    if (p->w_err && p->w_err_at >= 0 && p->w_err_n > 0 && n > 0) {
        if (p->w_bytes >= p->w_err_at) {
            p->w_err_n--;
            p->hard_fired++;
            fired(F_WERR);
            errno = p->w_err;
            return -1;
        }
        if (p->w_bytes + (long) m > p->w_err_at) m = p->w_err_at - p->w_bytes;
    }
    if (p->w_dead_at >= 0 && p->w_bytes + (long) m > p->w_dead_at) {
        size_t keep = p->w_bytes < p->w_dead_at ? p->w_dead_at - p->w_bytes : 0;
        if (keep) syscall(SYS_write, fd, b, keep);
        p->hard_fired++;
        fired(F_DEAD);
        p->w_bytes += m;
        return (ssize_t) m;
    }
    ssize_t r = syscall(SYS_write, fd, b, m);
    if (r > 0) {
        p->journal.push_back({p->w_bytes, r});
        p->w_bytes += r;
    }
    return r;
}

// C streams of the code under test write and read inside libc, where nothing can be interposed: give them streams on top of
// the calls below. (libstdc++ opens its files with fopen too, but then works on the descriptor.)
extern "C" char __executable_start, etext;
static bool from_program(void *caller) { return (char *) caller >= &__executable_start && (char *) caller < &etext; }
static struct Cookie { FILE *f; int fd; } cookies[64];
static ssize_t cookie_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t r = write(((Cookie *) c)->fd, b + done, n - done);
        if (r < 0 && errno == EINTR) continue;     // C streams cannot go on after it, and files are not interrupted in practice
        if (r <= 0) return done ? (ssize_t) done : 0;
        done += r;
    }
    return (ssize_t) n;
}
static ssize_t cookie_read(void *c, char *b, size_t n) {
    ssize_t r;
    do r = read(((Cookie *) c)->fd, b, n); while (r < 0 && errno == EINTR);
    return r;
}
static int cookie_seek(void *c, off64_t *off, int whence) {
    off64_t r = syscall(SYS_lseek, ((Cookie *) c)->fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int cookie_close(void *c) { int r = close(((Cookie *) c)->fd); ((Cookie *) c)->f = nullptr; return r; }
static FILE *program_fopen(const char *path, const char *mode) {
    int flags = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, '+')) flags = (flags & ~(O_WRONLY | O_RDONLY)) | O_RDWR;
    if (strchr(mode, 'x')) flags |= O_EXCL;
    int fd = open(path, flags, 0666);
    if (fd < 0) return nullptr;
    for (Cookie &c : cookies) {
        if (c.f) continue;
        cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
        c.fd = fd;
        c.f = fopencookie(&c, mode, io);
        return c.f;
    }
    abort();
}
extern "C" {
int fileno(FILE *f) noexcept {
    REAL("fileno", int (*)(FILE *));
    for (Cookie &c : cookies) if (f && c.f == f) return c.fd;
    return real(f);
}
static int sync_file(int fd, long nr) {
    if (sim_fd(fd) && io_cur->close_err) {     // where delayed errors show
        io_cur->hard_fired++;
        fired(F_CLOSE);
        errno = io_cur->close_err;
        return -1;
    }
    return (int) syscall(nr, fd);
}
int fsync(int fd) { return sync_file(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_file(fd, SYS_fdatasync); }
FILE *fopen(const char *path, const char *mode) {
    REAL("fopen", FILE *(*)(const char *, const char *));
    if (sim_path(path) && from_program(__builtin_return_address(0))) return program_fopen(path, mode);
    if (plan_open_fails(path)) return nullptr;
    FILE *f = real(path, mode);
    if (f && sim_path(path)) note_fd(fileno(f));
    return f;
}
FILE *fopen64(const char *path, const char *mode) {
    REAL("fopen64", FILE *(*)(const char *, const char *));
    if (sim_path(path) && from_program(__builtin_return_address(0))) return program_fopen(path, mode);
    if (plan_open_fails(path)) return nullptr;
    FILE *f = real(path, mode);
    if (f && sim_path(path)) note_fd(fileno(f));
    return f;
}
int open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (plan_open_fails(path)) return -1;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && sim_path(path)) note_fd(fd);
    return fd;
}
int open64(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (plan_open_fails(path)) return -1;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && sim_path(path)) note_fd(fd);
    return fd;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (sim_fd(fd)) { bool h; return sim_write(fd, (const char *) b, n, &h); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (sim_fd(fd)) {
        size_t total = 0;
        for (int i = 0; i < c; i++) total += v[i].iov_len;
        char *buf = (char *) malloc(total + 1);
        size_t o = 0;
        for (int i = 0; i < c; i++) { memcpy(buf + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
        bool h;
        ssize_t r = sim_write(fd, buf, total, &h);
        int e = errno;
        free(buf);
        errno = e;
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!sim_fd(fd)) return syscall(SYS_read, fd, b, n);
    IoPlan *p = io_cur;
    p->r_calls++;
    if (p->r_eintr && p->r_calls % p->r_eintr == 0 && !p->eintr_pending) {
        p->eintr_pending = true;
        p->soft_fired++;
        fired(F_REINTR);
        errno = EINTR;
        return -1;
    }
    p->eintr_pending = false;
    size_t m = n;
    if (p->r_chunk > 0 && (long) m > p->r_chunk) {
        m = 1 + mix(p->seed + p->r_calls) % p->r_chunk;
        p->soft_fired++;
        fired(F_RSHORT);
    }
    if (p->r_err && p->r_err_at >= 0 && (p->r_open == 0 || fd_open_no[fd] == p->r_open)) {
        if (p->r_bytes >= p->r_err_at) {
            p->hard_fired++;
            fired(F_RERR);
            errno = p->r_err;
            return -1;
        }
        if (p->r_bytes + (long) m > p->r_err_at) m = p->r_err_at - p->r_bytes;
    }
    ssize_t r = syscall(SYS_read, fd, b, m);
    if (r > 0 && (p->r_open == 0 || fd_open_no[fd] == p->r_open)) p->r_bytes += r;
    return r;
}
static bool rename_fails(const char *from, const char *to) {
    if (!sim_path(from) || !sim_path(to) || !io_cur->ren_err) return false;
    io_cur->hard_fired++;
    fired(F_RENAME);
    errno = io_cur->ren_err;
    return true;
}
int rename(const char *from, const char *to) noexcept {
    if (rename_fails(from, to)) return -1;
    return (int) syscall(SYS_rename, from, to);
}
int renameat(int a, const char *from, int b, const char *to) noexcept {
    if (rename_fails(from, to)) return -1;
    return (int) syscall(SYS_renameat, a, from, b, to);
}
int fclose(FILE *f) {
    REAL("fclose", int (*)(FILE *));
    for (Cookie &c : cookies) if (f && c.f == f) return real(f);
    int fd = fileno(f);
    bool s = sim_fd(fd);
    if (fd >= 0 && fd < 1024) fd_open_no[fd] = 0;
    int r = real(f);
    if (s && io_cur->close_err) {
        io_cur->close_failed++;
        io_cur->hard_fired++;
        fired(F_CLOSE);
        errno = io_cur->close_err;
        return -1;
    }
    return r;
}
int close(int fd) {
    bool s = sim_fd(fd);
    if (fd >= 0 && fd < 1024) fd_open_no[fd] = 0;
    int r = (int) syscall(SYS_close, fd);
    if (s && io_cur->close_err) {
        io_cur->close_failed++;
        io_cur->hard_fired++;
        fired(F_CLOSE);
        errno = io_cur->close_err;
        return -1;
    }
    return r;
}
}
