// Deterministic cooperative scheduler for the concurrency engines.
// The code under test is compiled with std::mutex, std::condition_variable, std::atomic, std::thread and the clocks replaced by
// the classes below; every operation on them is a scheduling point. All scheduler state lives in sched.cpp, which is compiled
// without sanitizer instrumentation, so that race detection only sees the synchronisation the code under test performs.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>

namespace vps {

enum Strategy { RANDOM, STICKY, PCT, ROUNDROBIN };
struct Config {
    int strategy = RANDOM;
    uint64_t seed = 1;
    int sticky = 50;        // STICKY: percent chance of staying on the same fiber
    int depth = 3;          // PCT: number of priority change points
    int length = 200;       // PCT: assumed schedule length
    int spurious = 0;       // per mille chance per step of a spurious wakeup
    int timejump = 0;       // per mille chance per step of the clock jumping to the next deadline
    int weakfail = 0;       // percent of try_lock / compare_exchange_weak calls that fail without reason
    bool autoTime = true;   // when nothing can run, let time pass up to the next deadline
    uint64_t stepLimit = 100000;
    bool traceSched = false;
};
enum Result { DONE, STUCK, STEPLIMIT, FAILED };
enum FState { UNUSED, RUNNABLE, ON_MUTEX, ON_CV, ON_CV_TIMED, ON_JOIN, ON_SLEEP, FINISHED };

constexpr int MAXF = 96;
struct FiberInfo { int state; const void* obj; int tag; int held; bool timed; };

// ---- root side ----
void beginCase(const Config& c);
int spawn(void (*fn)(void*), void* arg, int tag);  // usable from root and from fibers
Result run();
void setAutoTime(bool v);
void setNoise(bool v);                // false: no spurious wakeups and time jumps for now
bool jumpTime();                     // root: let the clock reach the next deadline; false if there is none
FiberInfo info(int fiber);
int fiberCount();
const char* failKey();
const char* failMsg();
void endCase();                      // every fiber must have finished
uint64_t steps();
uint64_t switches();
uint64_t schedHash();
int stateHashes(const uint64_t** out);
int allFinished();

// ---- fiber side ----
void point(int kind, const void* obj);
int self();                          // -1 on the root
int heldMutexes();
uint64_t cvBlocks();                 // number of times the calling fiber blocked on a condition variable
[[noreturn]] void fail(const char* key, const char* fmt, ...);
uint64_t nowNs();
void sleepNs(uint64_t ns);
uint32_t rnd(uint32_t n);            // scheduler random choice
bool onFiber();

// ---- history ----
constexpr int MAXH = 512;
struct HOp { int16_t fiber; int16_t kind; int32_t arg; int32_t arg2; int32_t res; uint32_t inv, ret; };
int opBegin(int kind, int arg, int arg2 = 0);
void opEnd(int h, int res);
int opBeginAs(int fiber, int kind, int arg, uint32_t inv);  // explicit interval start
uint32_t tick();
int historySize();
const HOp& history(int i);
void setArg(int h, int arg);

// ---- counters (flushed by the root) ----
void count(const char* k, uint64_t n = 1);
int counters(const char*** keys, uint64_t** values);

// ---- primitives ----
struct MState { int32_t owner; int32_t depth; int32_t readers; uint32_t magic; uint32_t id; };
void mInit(MState*);
void mDestroy(MState*);
void mLock(MState*, bool recursive);
bool mTryLock(MState*, bool recursive);
bool mTryLockUntil(MState*, bool recursive, uint64_t deadline);
void mUnlock(MState*, bool recursive);
void mLockShared(MState*);
bool mTryLockShared(MState*);
void mUnlockShared(MState*);

struct CState { uint32_t magic; };
void cInit(CState*);
void cDestroy(CState*);
// the two halves of a wait: registering and releasing happen without a scheduling point in between
void cPrepare(CState*, MState* m);
bool cBlock(CState*, bool timed, uint64_t deadline);  // returns false on timeout
void cNotify(CState*, bool all);
MState* mutexOf(MState* m);

int tSpawn(void (*fn)(void*), void* arg);
void tJoin(int id);
bool tFinished(int id);

class Mutex {
  public:
    Mutex() noexcept { mInit(&st); }
    ~Mutex() { mDestroy(&st); }
    Mutex(const Mutex&) = delete;
    Mutex& operator=(const Mutex&) = delete;
    void lock() { mLock(&st, false); }
    bool try_lock() { return mTryLock(&st, false); }
    void unlock() { mUnlock(&st, false); }
    using native_handle_type = MState*;
    MState* native_handle() { return &st; }
  private:
    MState st;
};
class TimedMutex {
  public:
    TimedMutex() noexcept { mInit(&st); }
    ~TimedMutex() { mDestroy(&st); }
    TimedMutex(const TimedMutex&) = delete;
    TimedMutex& operator=(const TimedMutex&) = delete;
    void lock() { mLock(&st, false); }
    bool try_lock() { return mTryLock(&st, false); }
    void unlock() { mUnlock(&st, false); }
    template<class R, class P> bool try_lock_for(const std::chrono::duration<R, P>& d)
    { return mTryLockUntil(&st, false, nowNs() + static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())); }
    template<class C, class D> bool try_lock_until(const std::chrono::time_point<C, D>& t)
    { return mTryLockUntil(&st, false, static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count())); }
    MState* native_handle() { return &st; }
  private:
    MState st;
};
class RecursiveMutex {
  public:
    RecursiveMutex() noexcept { mInit(&st); }
    ~RecursiveMutex() { mDestroy(&st); }
    RecursiveMutex(const RecursiveMutex&) = delete;
    RecursiveMutex& operator=(const RecursiveMutex&) = delete;
    void lock() { mLock(&st, true); }
    bool try_lock() { return mTryLock(&st, true); }
    void unlock() { mUnlock(&st, true); }
    MState* native_handle() { return &st; }
  private:
    MState st;
};
class SharedMutex {
  public:
    SharedMutex() noexcept { mInit(&st); }
    ~SharedMutex() { mDestroy(&st); }
    SharedMutex(const SharedMutex&) = delete;
    SharedMutex& operator=(const SharedMutex&) = delete;
    void lock() { mLock(&st, false); }
    bool try_lock() { return mTryLock(&st, false); }
    void unlock() { mUnlock(&st, false); }
    void lock_shared() { mLockShared(&st); }
    bool try_lock_shared() { return mTryLockShared(&st); }
    void unlock_shared() { mUnlockShared(&st); }
    MState* native_handle() { return &st; }
  private:
    MState st;
};

struct Clock {
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<Clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(static_cast<rep>(nowNs()))); }
};
template<class C, class D> uint64_t toDeadline(const std::chrono::time_point<C, D>& t)
{
    auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
    return n < 0 ? 0 : static_cast<uint64_t>(n);
}
template<class R, class P> uint64_t toNs(const std::chrono::duration<R, P>& d)
{
    auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
    if (std::chrono::duration<double>(d).count() > 1e9) return static_cast<uint64_t>(1000000000ULL * 1000000000ULL);
    return n < 0 ? 0 : static_cast<uint64_t>(n);
}

class CondVar {
  public:
    CondVar() { cInit(&st); }
    ~CondVar() { cDestroy(&st); }
    CondVar(const CondVar&) = delete;
    CondVar& operator=(const CondVar&) = delete;
    void notify_one() noexcept { cNotify(&st, false); }
    void notify_all() noexcept { cNotify(&st, true); }
    template<class L> void wait(L& l) { waitImpl(l, false, 0); }
    template<class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    template<class L, class C, class D> std::cv_status wait_until(L& l, const std::chrono::time_point<C, D>& t)
    { return waitImpl(l, true, toDeadline(t)) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template<class L, class C, class D, class P> bool wait_until(L& l, const std::chrono::time_point<C, D>& t, P p)
    {
        while (!p()) if (wait_until(l, t) == std::cv_status::timeout) return p();
        return true;
    }
    template<class L, class R, class P> std::cv_status wait_for(L& l, const std::chrono::duration<R, P>& d)
    { return waitImpl(l, true, nowNs() + toNs(d)) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template<class L, class R, class P, class Pr> bool wait_for(L& l, const std::chrono::duration<R, P>& d, Pr p)
    {
        uint64_t dl = nowNs() + toNs(d);
        while (!p()) if (!waitImpl(l, true, dl)) return p();
        return true;
    }
  private:
    template<class L> bool waitImpl(L& l, bool timed, uint64_t deadline)
    {
        point(5, this);
        cPrepare(&st, nullptr);
        l.unlock();
        bool r = cBlock(&st, timed, deadline);
        l.lock();
        return r;
    }
    CState st;
};

template<class T> class Atomic {
    mutable std::atomic<T> v;
    static constexpr std::memory_order failOrder(std::memory_order o)
    { return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }
  public:
    using value_type = T;
    Atomic() noexcept = default;
    constexpr Atomic(T x) noexcept : v(x) {}
    Atomic(const Atomic&) = delete;
    Atomic& operator=(const Atomic&) = delete;
    static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
    bool is_lock_free() const noexcept { return v.is_lock_free(); }
    T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { point(1, this); return v.load(o); }
    void store(T x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(2, this); v.store(x, o); }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    T exchange(T x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.exchange(x, o); }
    bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) noexcept { point(3, this); return v.compare_exchange_strong(e, d, s, f); }
    bool compare_exchange_strong(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, s, failOrder(s)); }
    bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) noexcept
    {
        point(3, this);
        if (weakFails()) { e = v.load(f); return false; }
        return v.compare_exchange_strong(e, d, s, f);
    }
    bool compare_exchange_weak(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { return compare_exchange_weak(e, d, s, failOrder(s)); }
    template<class U> T fetch_add(U x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.fetch_add(x, o); }
    template<class U> T fetch_sub(U x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.fetch_sub(x, o); }
    template<class U> T fetch_or(U x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.fetch_or(x, o); }
    template<class U> T fetch_and(U x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.fetch_and(x, o); }
    template<class U> T fetch_xor(U x, std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.fetch_xor(x, o); }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<class U> T operator+=(U x) noexcept { return static_cast<T>(fetch_add(x) + x); }
    template<class U> T operator-=(U x) noexcept { return static_cast<T>(fetch_sub(x) - x); }
    template<class U> T operator|=(U x) noexcept { return static_cast<T>(fetch_or(x) | x); }
    template<class U> T operator&=(U x) noexcept { return static_cast<T>(fetch_and(x) & x); }
  private:
    static bool weakFails();
};
bool weakFailure();
template<class T> bool Atomic<T>::weakFails() { return weakFailure(); }

class AtomicFlag {
    mutable std::atomic<bool> v{false};
  public:
    AtomicFlag() noexcept = default;
    AtomicFlag(bool b) noexcept : v(b) {}
    AtomicFlag(const AtomicFlag&) = delete;
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept { point(3, this); return v.exchange(true, o); }
    void clear(std::memory_order o = std::memory_order_seq_cst) noexcept { point(2, this); v.store(false, o); }
    bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept { point(1, this); return v.load(o); }
};

class Thread {
  public:
    using id = int;
    Thread() noexcept = default;
    template<class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, Thread>::value>>
    explicit Thread(F&& f, A&&... a)
    {
        using Tup = std::tuple<std::decay_t<F>, std::decay_t<A>...>;
        auto* t = new Tup(std::forward<F>(f), std::forward<A>(a)...);
        h = tSpawn(&runTuple<Tup>, t);
    }
    Thread(Thread&& o) noexcept : h(o.h) { o.h = -1; }
    Thread& operator=(Thread&& o) noexcept
    {
        if (h >= 0) fail("terminate", "a joinable thread object was overwritten");
        h = o.h; o.h = -1;
        return *this;
    }
    Thread(const Thread&) = delete;
    ~Thread() { if (h >= 0) fail("terminate", "a joinable thread object was destroyed"); }
    bool joinable() const noexcept { return h >= 0; }
    void join() { if (h < 0) fail("terminate", "join of a thread that is not joinable"); tJoin(h); h = -1; }
    void detach() { h = -1; }
    int get_id() const noexcept { return h; }
    void swap(Thread& o) noexcept { std::swap(h, o.h); }
    static unsigned hardware_concurrency() noexcept { return 3; }
  private:
    template<class Tup> static void runTuple(void* p)
    {
        Tup* t = static_cast<Tup*>(p);
        std::apply([](auto&& f, auto&&... a) { std::invoke(std::move(f), std::move(a)...); }, std::move(*t));
        delete t;
    }
    int h = -1;
};
}  // namespace vps

namespace std {
using vpx_mutex = vps::Mutex;
using vpx_timed_mutex = vps::TimedMutex;
using vpx_recursive_mutex = vps::RecursiveMutex;
using vpx_shared_mutex = vps::SharedMutex;
using vpx_condition_variable = vps::CondVar;
using vpx_condition_variable_any = vps::CondVar;
template<class T> using vpx_atomic = vps::Atomic<T>;
using vpx_atomic_bool = vps::Atomic<bool>;
using vpx_atomic_int = vps::Atomic<int>;
using vpx_atomic_flag = vps::AtomicFlag;
using vpx_thread = vps::Thread;
namespace chrono {
using vpx_steady_clock = vps::Clock;
using vpx_system_clock = vps::Clock;
using vpx_high_resolution_clock = vps::Clock;
}
namespace vpx_this_thread {
inline void yield() noexcept { vps::point(9, nullptr); }
inline int get_id() noexcept { return vps::self(); }
template<class R, class P> void sleep_for(const std::chrono::duration<R, P>& d) { vps::sleepNs(vps::toNs(d)); }
template<class C, class D> void sleep_until(const std::chrono::time_point<C, D>& t)
{ uint64_t n = vps::nowNs(), x = vps::toDeadline(t); vps::sleepNs(x > n ? x - n : 0); }
}
}  // namespace std
