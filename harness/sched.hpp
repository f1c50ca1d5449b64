// Deterministic cooperative scheduler substituted for the C++ threading primitives.
//
// The headers of /repo are compiled unmodified; after <bits/stdc++.h> has been included
// the names mutex, condition_variable, atomic, thread, ... are macro-redirected to the
// sched_* types below (declared in namespace std).  Every lock, condition wait, atomic
// access and (optionally) storage access is then a scheduling point, executed on fibers
// of one OS thread.  A run is fully determined by the list of choices made.
#pragma once
#include <bits/stdc++.h>
#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

namespace vs {

enum Kind { K_START, K_LOCK, K_ATOMIC, K_WAITENTER, K_WAITING, K_RELOCK, K_JOIN, K_OP,
            K_DATA, K_YIELD, K_IDLE, K_NOTIFY, K_FLAG };

struct Mutex;
struct CV;

struct EhGlobals {  // layout of __cxa_eh_globals in the Itanium C++ ABI
    void* caught = nullptr;
    unsigned int uncaught = 0;
};

struct Fiber {
    int id = 0;
    ucontext_t ctx;
    EhGlobals eh;  // exceptions being handled by this fiber
    char* stack = nullptr;
    std::function<void()> fn;
    bool started = false, done = false, joined = false, detached = false;
    Kind kind = K_START;
    Mutex* m = nullptr;
    CV* cv = nullptr;
    bool signaled = false, timed = false, timedOut = false;
    long long now = 0;  // this fiber's clock in ns: only the expiry of its own waits moves it
    long long deadline = 0;  // of the wait it is in
    bool expired = false;  // a wait of the current call has expired
    bool shared = false;
    Fiber* target = nullptr;
    const bool* flag = nullptr;
    bool yielded = false;
    bool fresh = false;  // last point was an op start: the next sync point need not yield
    std::string what;  // current operation (diagnostics)
};

struct Alt {  // an alternative at a decision point
    char type;  // 'r' run, 't' timeout, 's' spurious wake, 'n' notify choice
    Fiber* f;
    int cost;
};

struct HB {  // one synchronisation / access event for the happens-before specification
    const char* k;
    int t;
    int o;
    int x;  // order / extra
};

struct Run;
extern Run* R;

struct StopRun {};

struct Strategy {
    // returns index of chosen alternative
    virtual size_t choose(const std::vector<Alt>& alts, Fiber* cur, int step) = 0;
    virtual ~Strategy() = default;
};

enum Outcome { OK = 0, STUCK = 1, LIVELOCK = 2, EXC = 3 };

constexpr size_t STK = 128 * 1024;
inline std::vector<char*>& stackPool()
{
    static std::vector<char*> p;
    return p;
}
inline char* getStack()
{
    auto& p = stackPool();
    if (!p.empty()) {
        char* s = p.back();
        p.pop_back();
        return s;
    }
    void* s = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return (char*)s;
}

struct Run {
    std::vector<std::unique_ptr<Fiber>> fibers;
    Fiber* cur = nullptr;
    ucontext_t mainctx;
    Strategy* strat = nullptr;
    int step = 0;
    int maxSteps = 4000;
    int idleTimeouts = 0;
    int timeoutBudget = 1, spuriousBudget = 0;
    bool dataPoints = false;
    bool recordHB = false;
    bool dead = false;  // run abandoned: primitives become no-ops
    Outcome outcome = OK;
    std::string excWhat;
    std::vector<HB> hb;
    std::map<const void*, int> ids;
    int nextId = 0;
    std::function<void(int, long long)> onTimeout;  // called when fiber's wait times out, with the time of its clock
    std::function<void()> onIdle;
    std::string schedLog;
    std::vector<int> sched;  // thread ids as scheduled

    int objId(const void* p)
    {
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        return ids[p] = ++nextId;
    }
    // plain accesses already logged by a thread since its last synchronisation event (repeating them adds nothing)
    std::map<int, std::set<std::pair<int, bool>>> recent;
    void hbev(const char* k, int o, int x = 0)
    {
        if (!recordHB || dead) return;
        int t = cur ? cur->id : 0;
        recent[t].clear();
        hb.push_back({k, t, o, x});
    }
    void access(int loc, bool w)
    {
        if (!recordHB || dead) return;
        int t = cur ? cur->id : 0;
        if (recent[t].insert({loc, w}).second) hb.push_back({w ? "wr" : "rd", t, loc, 0});
    }

    Fiber* spawn(std::function<void()> fn, const char* name = "")
    {
        auto f = std::make_unique<Fiber>();
        f->id = (int)fibers.size();
        f->fn = std::move(fn);
        f->stack = getStack();
        f->what = name;
        Fiber* p = f.get();
        if (recordHB && !dead && cur) hbev("fork", p->id);
        fibers.push_back(std::move(f));
        return p;
    }
    static void entry()
    {
        Run* r = R;
        Fiber* f = r->cur;
        try {
            f->fn();
        } catch (StopRun&) {
        } catch (std::exception& e) {
            r->outcome = EXC;
            r->excWhat = e.what();
            r->dead = true;
        } catch (...) {
            r->outcome = EXC;
            r->excWhat = "unknown";
            r->dead = true;
        }
        f->done = true;
        swapcontext(&f->ctx, &r->mainctx);
    }
    bool enabled(Fiber* f);
    void resume(Fiber* f)
    {
        cur = f;
        sched.push_back(f->id);
        if (!f->started) {
            f->started = true;
            getcontext(&f->ctx);
            f->ctx.uc_stack.ss_sp = f->stack;
            f->ctx.uc_stack.ss_size = STK;
            f->ctx.uc_link = nullptr;
            makecontext(&f->ctx, (void (*)())entry, 0);
        }
        auto* g = reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals());
        EhGlobals mine = *g;
        *g = f->eh;
        swapcontext(&mainctx, &f->ctx);
        f->eh = *g;
        *g = mine;
    }
    void yieldToSched()
    {
        Fiber* f = cur;
        swapcontext(&f->ctx, &mainctx);
        cur = f;
    }
    void point(Kind k)
    {
        if (dead || !cur) return;
        cur->kind = k;
        yieldToSched();
    }
    // main loop
    void loop()
    {
        Fiber* last = nullptr;
        std::vector<Alt> alts;
        while (true) {
            if (dead) break;
            bool allDone = true;
            for (auto& f : fibers)
                if (!f->done) allDone = false;
            if (allDone) break;
            if (++step > maxSteps) {
                outcome = LIVELOCK;
                break;
            }
            alts.clear();
            bool lastEn = last && !last->done && last->kind != K_IDLE && enabled(last);
            bool lastYield = lastEn && last->yielded;
            if (lastEn && !lastYield) alts.push_back({'r', last, 0});
            for (auto& f : fibers) {
                if (f.get() == last || f->done || f->kind == K_IDLE) continue;
                if (enabled(f.get())) alts.push_back({'r', f.get(), (lastEn && !lastYield) ? 1 : 0});
            }
            if (lastYield) {
                if (alts.empty()) alts.push_back({'r', last, 0});
                else alts.push_back({'r', last, 1});
            }
            if (alts.empty()) {
                // idle: wake the fiber waiting for idleness, else fire a timeout
                for (auto& f : fibers)
                    if (!f->done && f->started && f->kind == K_IDLE) {
                        alts.push_back({'r', f.get(), 0});
                        break;
                    }
                if (alts.empty()) {
                    for (auto& f : fibers)
                        if (!f->done && f->kind == K_WAITING && f->timed && !f->signaled)
                            alts.push_back({'t', f.get(), 0});
                    if (!alts.empty() && onIdle) onIdle();
                    if (!alts.empty() && ++idleTimeouts > 40) {
                        outcome = LIVELOCK;
                        break;
                    }
                }
                if (alts.empty()) {
                    outcome = STUCK;
                    break;
                }
            } else {
                for (auto& f : fibers) {
                    if (!f->done && f->kind == K_WAITING && !f->signaled) {
                        if (f->timed && timeoutBudget > 0) alts.push_back({'t', f.get(), 1});
                        if (spuriousBudget > 0) alts.push_back({'s', f.get(), 1});
                    }
                }
            }
            size_t c = strat->choose(alts, last, step);
            if (c >= alts.size()) c = 0;
            Alt a = alts[c];
            if (a.type == 'r') {
                a.f->yielded = false;
                resume(a.f);
                last = a.f;
            } else {
                if (a.type == 't') {
                    if (alts[0].type == 'r') --timeoutBudget;
                    a.f->timedOut = true;
                    if (onTimeout) onTimeout(a.f->id, std::max(a.f->now, a.f->deadline));
                } else
                    --spuriousBudget;
                wake(a.f);
            }
        }
        dead = true;
        cur = nullptr;
    }
    void wake(Fiber* f);
    size_t chooseWaiter(size_t n, std::vector<Fiber*>& w)
    {
        if (n <= 1) return 0;
        std::vector<Alt> alts;
        for (auto* f : w) alts.push_back({'n', f, 0});
        size_t c = strat->choose(alts, cur, step);
        return c < n ? c : 0;
    }
    ~Run()
    {
        for (auto& f : fibers) stackPool().push_back(f->stack);
    }
};
inline Run* R = nullptr;

struct Mutex {
    Fiber* owner = nullptr;
    int depth = 0;
    int readers = 0;
    bool recursive = false;
    int id = 0;
};
struct CV {
    std::vector<Fiber*> waiters;
};

inline bool Run::enabled(Fiber* f)
{
    switch (f->kind) {
        case K_LOCK:
        case K_RELOCK:
            if (f->shared) return f->m->owner == nullptr;
            return (f->m->owner == nullptr && f->m->readers == 0) ||
                (f->m->recursive && f->m->owner == f);
        case K_WAITING: return false;
        case K_JOIN: return f->target->done;
        case K_FLAG: return *f->flag;
        default: return true;
    }
}
inline void Run::wake(Fiber* f)
{
    auto& w = f->cv->waiters;
    w.erase(std::remove(w.begin(), w.end(), f), w.end());
    f->signaled = true;
    f->kind = K_RELOCK;
}

inline bool live() { return R != nullptr && !R->dead && R->cur != nullptr; }

inline void lock(Mutex& m)
{
    if (!live()) return;
    Run* r = R;
    Fiber* f = r->cur;
    f->m = &m;
    f->shared = false;
    f->kind = K_LOCK;
    if (f->fresh && r->enabled(f)) f->fresh = false;
    else {
        f->fresh = false;
        r->yieldToSched();
    }
    m.owner = f;
    ++m.depth;
    if (m.depth == 1) r->hbev("acq", r->objId(&m));
}
inline bool try_lock(Mutex& m)
{
    if (!live()) return true;
    R->point(K_ATOMIC);
    if (m.readers > 0 || (m.owner && !(m.recursive && m.owner == R->cur))) return false;
    m.owner = R->cur;
    ++m.depth;
    if (m.depth == 1) R->hbev("acq", R->objId(&m));
    return true;
}
inline void unlock(Mutex& m)
{
    if (!live()) return;
    if (m.owner != R->cur) {
        R->outcome = EXC;
        R->excWhat = "unlock of a mutex not owned";
        R->dead = true;
        R->yieldToSched();
        return;
    }
    if (--m.depth == 0) {
        R->hbev("rel", R->objId(&m));
        m.owner = nullptr;
    }
}
inline void lock_shared(Mutex& m)
{
    if (!live()) return;
    Fiber* f = R->cur;
    f->m = &m;
    f->shared = true;
    R->point(K_LOCK);
    f->shared = false;
    ++m.readers;
    R->hbev("acq", R->objId(&m));
}
inline void unlock_shared(Mutex& m)
{
    if (!live()) return;
    --m.readers;
    R->hbev("rrel", R->objId(&m));
}

// deadline: for a timed wait the time (of this fiber) at which it expires
template<class L>
inline bool cvwait(CV& cv, L& lk, Mutex& m, bool timed, long long deadline = 0)
{  // returns true if timed out
    (void)lk;
    if (!live()) throw StopRun{};
    Run* r = R;
    Fiber* f = r->cur;
    r->point(K_WAITENTER);
    f->cv = &cv;
    f->m = &m;
    f->timed = timed;
    f->timedOut = false;
    f->signaled = false;
    f->deadline = deadline;
    unlock(m);
    f->shared = false;
    if (timed && deadline <= f->now) {  // over already
        if (!f->expired && r->onTimeout) r->onTimeout(f->id, f->now);
        f->timedOut = true;
        f->kind = K_RELOCK;
    } else {
        cv.waiters.push_back(f);
        f->kind = K_WAITING;
    }
    r->yieldToSched();  // resumed as K_RELOCK with the mutex free
    m.owner = f;
    m.depth = 1;
    r->hbev("acq", r->objId(&m));
    if (f->timedOut) {
        f->expired = true;
        f->now = std::max(f->now, deadline);
    }
    return f->timedOut;
}
template<class D>
inline long long nanos(const D& d)
{
    return (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
}
template<class D>
inline long long after(const D& d)
{
    long long n = live() ? R->cur->now : 0, x = nanos(d);
    return x > (1LL << 62) - n ? 1LL << 62 : n + x;
}
inline void notify(CV& cv, bool all)
{
    if (!live()) return;
    R->point(K_NOTIFY);
    if (all) {
        while (!cv.waiters.empty()) R->wake(cv.waiters.front());
    } else if (!cv.waiters.empty()) {
        size_t c = R->chooseWaiter(cv.waiters.size(), cv.waiters);
        R->wake(cv.waiters[c]);
    }
}
inline void atomicPoint()
{
    if (!live()) return;
    if (R->cur->fresh) {
        R->cur->fresh = false;
        return;
    }
    R->point(K_ATOMIC);
}
inline void opPoint()
{
    if (!live()) return;
    R->point(K_OP);
    R->cur->fresh = true;
    R->cur->expired = false;
}
inline void dataPoint()
{
    if (!live() || !R->dataPoints) return;
    R->cur->fresh = false;
    R->point(K_DATA);
}
inline void rd(int loc)
{
    if (live()) R->access(loc, false);
}
inline void wr(int loc)
{
    if (live()) R->access(loc, true);
}
inline int newLoc()
{
    return R ? ++R->nextId : 0;
}
// the container object whose plain accesses are logged (needs the ACCESS build, see access.cpp); synchronisation
// objects inside it announce themselves and are left out
inline std::map<uintptr_t, uintptr_t>& excluded()
{
    static std::map<uintptr_t, uintptr_t> m;
    return m;
}
inline void exclude(const void* p, size_t n)
{
#ifdef ACCESS
    if (R && R->recordHB) excluded()[(uintptr_t)p] = (uintptr_t)p + n;
#else
    (void)p;
    (void)n;
#endif
}
inline void accessed(uintptr_t a, bool w)
{
    if (!live() || !R->recordHB) return;
    auto& m = excluded();
    auto it = m.upper_bound(a);
    if (it != m.begin() && std::prev(it)->second > a) return;
    R->access(R->objId((const void*)a), w);
}
#ifdef ACCESS
}
extern uintptr_t accLo, accHi;
extern void (*accHook)(uintptr_t, bool);
namespace vs {
#endif
inline void* trackedMemory(size_t n)
{
    void* p = ::operator new(n);
#ifdef ACCESS
    excluded().clear();
    accLo = (uintptr_t)p;
    accHi = accLo + n;
    accHook = accessed;
#endif
    return p;
}
inline void waitIdle()
{
    if (live()) R->point(K_IDLE);
}
inline void waitFlag(const bool* b)
{
    if (!live()) return;
    R->cur->flag = b;
    R->point(K_FLAG);
}
}  // namespace vs

namespace std {
struct sched_mutex {
    mutable vs::Mutex m;
    sched_mutex() { vs::exclude(this, sizeof(*this)); }
    sched_mutex(const sched_mutex&) = delete;
    sched_mutex& operator=(const sched_mutex&) = delete;
    void lock() { vs::lock(m); }
    bool try_lock() { return vs::try_lock(m); }
    void unlock() { vs::unlock(m); }
};
struct sched_recursive_mutex: sched_mutex {
    sched_recursive_mutex() { m.recursive = true; }
};
struct sched_shared_mutex: sched_mutex {
    void lock_shared() { vs::lock_shared(m); }
    void unlock_shared() { vs::unlock_shared(m); }
};
struct sched_timed_mutex: sched_mutex {
    template<class D>
    bool try_lock_for(const D&)
    {
        return try_lock();
    }
    template<class D>
    bool try_lock_until(const D&)
    {
        return try_lock();
    }
};

// clocks of the code under test: the time of the fiber that asks
namespace chrono {
    struct sched_clock {
        using duration = nanoseconds;
        using rep = duration::rep;
        using period = duration::period;
        using time_point = chrono::time_point<sched_clock, duration>;
        static constexpr bool is_steady = true;
        static time_point now() noexcept { return time_point(nanoseconds(vs::live() ? vs::R->cur->now : 0)); }
    };
}  // namespace chrono

struct sched_condition_variable {
    vs::CV cv;
    sched_condition_variable() { vs::exclude(this, sizeof(*this)); }
    sched_condition_variable(const sched_condition_variable&) = delete;
    template<class L>
    void wait(L& lk)
    {
        vs::cvwait(cv, lk, lk.mutex()->m, false);
    }
    template<class L, class P>
    void wait(L& lk, P p)
    {
        while (!p()) wait(lk);
    }
    template<class L, class D>
    cv_status wait_for(L& lk, const D& d)
    {
        return vs::cvwait(cv, lk, lk.mutex()->m, true, vs::after(d)) ? cv_status::timeout : cv_status::no_timeout;
    }
    template<class L, class D, class P>
    bool wait_for(L& lk, const D& d, P p)
    {
        while (!p())
            if (wait_for(lk, d) == cv_status::timeout) return p();
        return true;
    }
    template<class L, class D>
    cv_status wait_until(L& lk, const D& d)
    {
        return vs::cvwait(cv, lk, lk.mutex()->m, true, vs::nanos(d.time_since_epoch())) ? cv_status::timeout :
                                                                                                cv_status::no_timeout;
    }
    template<class L, class D, class P>
    bool wait_until(L& lk, const D& d, P p)
    {
        while (!p())
            if (wait_until(lk, d) == cv_status::timeout) return p();
        return true;
    }
    void notify_one() { vs::notify(cv, false); }
    void notify_all() { vs::notify(cv, true); }
};

inline int sched_ord(memory_order o)
{  // bit 1: acquire, bit 2: release
    switch (o) {
        case memory_order_relaxed: return 0;
        case memory_order_consume:
        case memory_order_acquire: return 1;
        case memory_order_release: return 2;
        default: return 3;
    }
}
template<class T>
struct sched_atomic_base {
    T v{};
    int loc = vs::newLoc();
    sched_atomic_base() { vs::exclude(this, sizeof(*this)); }
    sched_atomic_base(T x): v(x) { vs::exclude(this, sizeof(*this)); }
    sched_atomic_base(const sched_atomic_base&) = delete;
    sched_atomic_base& operator=(const sched_atomic_base&) = delete;
    bool is_lock_free() const { return true; }
    T load(memory_order o = memory_order_seq_cst) const
    {
        vs::atomicPoint();
        if (vs::live()) vs::R->hbev("ald", loc, sched_ord(o));
        return v;
    }
    void store(T x, memory_order o = memory_order_seq_cst)
    {
        vs::atomicPoint();
        if (vs::live()) vs::R->hbev("ast", loc, sched_ord(o));
        v = x;
    }
    operator T() const { return load(); }
    T operator=(T x)
    {
        store(x);
        return x;
    }
    T exchange(T x, memory_order o = memory_order_seq_cst)
    {
        vs::atomicPoint();
        if (vs::live()) vs::R->hbev("rmw", loc, sched_ord(o));
        T old = v;
        v = x;
        return old;
    }
    bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f)
    {
        vs::atomicPoint();
        if (v == e) {
            if (vs::live()) vs::R->hbev("rmw", loc, sched_ord(s));
            v = d;
            return true;
        }
        if (vs::live()) vs::R->hbev("ald", loc, sched_ord(f) & 1);
        e = v;
        return false;
    }
    bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst)
    {
        return compare_exchange_strong(e, d, o, o);
    }
    bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f)
    {
        return compare_exchange_strong(e, d, s, f);
    }
    bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst)
    {
        return compare_exchange_strong(e, d, o, o);
    }
    template<class F>
    T rmw(F f, memory_order o)
    {
        vs::atomicPoint();
        if (vs::live()) vs::R->hbev("rmw", loc, sched_ord(o));
        T old = v;
        v = f(old);
        return old;
    }
};
template<class T>
struct sched_atomic: sched_atomic_base<T> {
    using B = sched_atomic_base<T>;
    using B::B;
    using B::operator=;
    using M = memory_order;
    T fetch_add(T x, M o = memory_order_seq_cst)
    {
        return B::rmw([&](T a) { return (T)(a + x); }, o);
    }
    T fetch_sub(T x, M o = memory_order_seq_cst)
    {
        return B::rmw([&](T a) { return (T)(a - x); }, o);
    }
    T operator++() { return (T)(fetch_add(1) + 1); }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return (T)(fetch_sub(1) - 1); }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T x) { return (T)(fetch_add(x) + x); }
    T operator-=(T x) { return (T)(fetch_sub(x) - x); }
    T fetch_or(T x, M o = memory_order_seq_cst)
    {
        return B::rmw([&](T a) { return (T)(a | x); }, o);
    }
    T fetch_and(T x, M o = memory_order_seq_cst)
    {
        return B::rmw([&](T a) { return (T)(a & x); }, o);
    }
};
using sched_atomic_bool = sched_atomic<bool>;
using sched_atomic_int = sched_atomic<int>;
using sched_atomic_size_t = sched_atomic<size_t>;
struct sched_atomic_flag {
    sched_atomic<bool> b{false};
    bool test_and_set(memory_order o = memory_order_seq_cst) { return b.exchange(true, o); }
    void clear(memory_order o = memory_order_seq_cst) { b.store(false, o); }
    bool test(memory_order o = memory_order_seq_cst) const { return b.load(o); }
};
inline void sched_atomic_thread_fence(memory_order o)
{
    vs::atomicPoint();
    if (vs::live()) vs::R->hbev("fence", 0, sched_ord(o));
}

struct sched_thread {
    using id = int;
    vs::Fiber* f = nullptr;
    sched_thread() noexcept = default;
    template<class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, sched_thread>>>
    explicit sched_thread(F&& fn, A&&... a)
    {
        if (!vs::live()) return;
        auto tup = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(fn), std::forward<A>(a)...);
        f = vs::R->spawn([tup] {
            std::apply([](auto&&... x) { std::invoke(std::move(x)...); }, std::move(*tup));
        });
    }
    sched_thread(sched_thread&& o) noexcept: f(o.f) { o.f = nullptr; }
    sched_thread& operator=(sched_thread&& o) noexcept
    {
        if (f && vs::live()) std::terminate();
        f = o.f;
        o.f = nullptr;
        return *this;
    }
    ~sched_thread()
    {
        if (f && vs::live()) std::terminate();
    }
    bool joinable() const { return f != nullptr; }
    int get_id() const { return f ? f->id : -1; }
    void join()
    {
        if (!vs::live()) {
            f = nullptr;
            return;
        }
        vs::R->cur->target = f;
        vs::R->point(vs::K_JOIN);
        vs::R->hbev("join", f->id);
        f = nullptr;
    }
    void detach() { f = nullptr; }
    static unsigned hardware_concurrency() { return 2; }
};
namespace sched_this_thread {
    inline void yield()
    {
        if (!vs::live()) return;
        vs::R->cur->yielded = true;
        vs::R->point(vs::K_YIELD);
    }
    template<class D>
    void sleep_for(const D& d)
    {
        if (vs::live()) vs::R->cur->now = vs::after(d);
        yield();
    }
    template<class D>
    void sleep_until(const D& d)
    {
        if (vs::live()) vs::R->cur->now = std::max(vs::R->cur->now, vs::nanos(d.time_since_epoch()));
        yield();
    }
    inline int get_id() { return vs::live() ? vs::R->cur->id : 0; }
}  // namespace sched_this_thread

// storage whose accesses are visible to the happens-before specification
template<class T, class A = allocator<T>>
class sched_vector: public vector<T, A> {
    using B = vector<T, A>;
    struct Loc {
        int n = vs::newLoc();
        Loc() { vs::exclude(this, sizeof(*this)); }
    } loc_;
#define loc loc_.n
    void r() const
    {
        vs::dataPoint();
        vs::rd(loc);
    }
    void w()
    {
        vs::dataPoint();
        vs::wr(loc);
    }
#undef loc

  public:
    using B::B;
    sched_vector() = default;
    sched_vector(const sched_vector& o): B((o.r(), static_cast<const B&>(o))) {}
    sched_vector(sched_vector&& o) noexcept: B((o.w(), static_cast<B&&>(o))) {}
    sched_vector& operator=(const sched_vector& o)
    {
        o.r();
        w();
        B::operator=(o);
        return *this;
    }
    sched_vector& operator=(sched_vector&& o) noexcept
    {
        o.w();
        w();
        B::operator=(static_cast<B&&>(o));
        return *this;
    }
    bool empty() const { r(); return B::empty(); }
    size_t size() const { r(); return B::size(); }
    size_t capacity() const { r(); return B::capacity(); }
    void clear() { w(); B::clear(); }
    void reserve(size_t n) { w(); B::reserve(n); }
    template<class... U>
    void resize(U&&... u) { w(); B::resize(std::forward<U>(u)...); }
    template<class... U>
    auto emplace(U&&... u) { w(); return B::emplace(std::forward<U>(u)...); }
    void shrink_to_fit() { w(); B::shrink_to_fit(); }
    T& at(size_t i) { r(); return B::at(i); }
    const T& at(size_t i) const { r(); return B::at(i); }
    auto cbegin() const { r(); return B::cbegin(); }
    auto cend() const { r(); return B::cend(); }
    auto crbegin() const { r(); return B::crbegin(); }
    auto crend() const { r(); return B::crend(); }
    template<class... U>
    decltype(auto) emplace_back(U&&... u) { w(); return B::emplace_back(std::forward<U>(u)...); }
    void push_back(const T& t) { w(); B::push_back(t); }
    void push_back(T&& t) { w(); B::push_back(std::move(t)); }
    void pop_back() { w(); B::pop_back(); }
    T& back() { r(); return B::back(); }
    const T& back() const { r(); return B::back(); }
    T& front() { r(); return B::front(); }
    const T& front() const { r(); return B::front(); }
    T& operator[](size_t i) { r(); return B::operator[](i); }
    const T& operator[](size_t i) const { r(); return B::operator[](i); }
    auto begin() { r(); return B::begin(); }
    auto begin() const { r(); return B::begin(); }
    auto end() { r(); return B::end(); }
    auto end() const { r(); return B::end(); }
    auto rbegin() { r(); return B::rbegin(); }
    auto rbegin() const { r(); return B::rbegin(); }
    auto rend() { r(); return B::rend(); }
    auto rend() const { r(); return B::rend(); }
    template<class... U>
    auto insert(U&&... u) { w(); return B::insert(std::forward<U>(u)...); }
    template<class... U>
    auto erase(U&&... u) { w(); return B::erase(std::forward<U>(u)...); }
    template<class... U>
    void assign(U&&... u) { w(); B::assign(std::forward<U>(u)...); }
    void swap(sched_vector& o) { w(); o.w(); B::swap(o); }
};
template<class T, class A>
void swap(sched_vector<T, A>& a, sched_vector<T, A>& b)
{
    a.swap(b);
}
template<class T, class C = deque<T>>
class sched_queue: public queue<T, C> {
    using B = queue<T, C>;
    struct Loc {
        int n = vs::newLoc();
        Loc() { vs::exclude(this, sizeof(*this)); }
    } loc_;
#define loc loc_.n
    void r() const
    {
        vs::dataPoint();
        vs::rd(loc);
    }
    void w()
    {
        vs::dataPoint();
        vs::wr(loc);
    }
#undef loc

  public:
    sched_queue() = default;
    sched_queue(const sched_queue& o): B((o.r(), static_cast<const B&>(o))) {}
    sched_queue(sched_queue&& o) noexcept: B((o.w(), static_cast<B&&>(o))) {}
    sched_queue& operator=(sched_queue&& o) noexcept
    {
        o.w();
        w();
        B::operator=(static_cast<B&&>(o));
        return *this;
    }
    sched_queue& operator=(const sched_queue& o)
    {
        o.r();
        w();
        B::operator=(o);
        return *this;
    }
    bool empty() const { r(); return B::empty(); }
    size_t size() const { r(); return B::size(); }
    T& front() { r(); return B::front(); }
    const T& front() const { r(); return B::front(); }
    T& back() { r(); return B::back(); }
    const T& back() const { r(); return B::back(); }
    void push(const T& t) { w(); B::push(t); }
    void push(T&& t) { w(); B::push(std::move(t)); }
    template<class... U>
    decltype(auto) emplace(U&&... u) { w(); return B::emplace(std::forward<U>(u)...); }
    void pop() { w(); B::pop(); }
    void swap(sched_queue& o) { w(); o.w(); B::swap(o); }
};
}  // namespace std

#define steady_clock sched_clock
#define system_clock sched_clock
#define high_resolution_clock sched_clock
#define mutex sched_mutex
#define recursive_mutex sched_recursive_mutex
#define shared_mutex sched_shared_mutex
#define timed_mutex sched_timed_mutex
#define condition_variable sched_condition_variable
#define condition_variable_any sched_condition_variable
#define atomic sched_atomic
#define atomic_bool sched_atomic_bool
#define atomic_int sched_atomic_int
#define atomic_size_t sched_atomic_size_t
#define atomic_flag sched_atomic_flag
#define atomic_thread_fence sched_atomic_thread_fence
#define thread sched_thread
#define this_thread sched_this_thread
#define vector sched_vector
#define queue sched_queue
