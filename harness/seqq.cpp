// Queues, air lock and work blocks used by one thread: exact sequential models, lifetimes, copies, exceptions.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define VP_NO_MAIN
#endif
#include "common.hpp"
#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"
#include "gmlc/containers/WorkQueue.hpp"
#include <chrono>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <optional>

// PART 0 is the driver; the other parts hold one mode each (compiled in parallel)
void partSimple(vp::Rd& rd);
void partBlocking(vp::Rd& rd);
void partPriority(vp::Rd& rd);
void partAirlock(vp::Rd& rd);
void partWorkblock(vp::Rd& rd);
#if PART == 0
const unsigned engineMinOps = 6;
const bool engineCheckLeaks = true;
void engineInit() {}
void runCase(vp::Rd& rd)
{
    static const std::string& mode = vp::S().mode;
    if (mode == "simple") partSimple(rd);
    else if (mode == "blocking") partBlocking(rd);
    else if (mode == "priority") partPriority(rd);
    else if (mode == "airlock") partAirlock(rd);
    else if (mode == "workblock") partWorkblock(rd);
    else { fprintf(stderr, "unknown mode\n"); exit(3); }
}
#else
namespace {
namespace seqq {
using namespace gmlc::containers;
struct Bomb {};
struct ThrowNow {};
long liveObjs = 0, copyCount = 0;
int throwIn = 0;  // 1: the next copy or construction from a Bomb argument throws

struct CTok {  // copyable, owns memory
    int id = -1;
    int* p = nullptr;
    CTok() { ++liveObjs; }
    explicit CTok(int i) : id(i), p(new int(i * 7 + 1)) { ++liveObjs; }
    explicit CTok(Bomb) { throw Bomb(); }
    CTok(const CTok& o)
    {
        if (throwIn > 0 && --throwIn == 0) throw Bomb();
        id = o.id;
        p = o.p ? new int(*o.p) : nullptr;
        ++liveObjs;
        ++copyCount;
    }
    CTok(CTok&& o) noexcept : id(o.id), p(o.p) { o.p = nullptr; o.id = -2; ++liveObjs; }
    CTok& operator=(const CTok& o)
    {
        if (throwIn > 0 && --throwIn == 0) throw Bomb();
        if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; id = o.id; ++copyCount; }
        return *this;
    }
    CTok& operator=(CTok&& o) noexcept { if (this != &o) { delete p; p = o.p; id = o.id; o.p = nullptr; o.id = -2; } return *this; }
    ~CTok() { delete p; p = reinterpret_cast<int*>(8); --liveObjs; }
    int read() const { return !p ? -5 : *p != id * 7 + 1 ? -6 : id; }
    static constexpr bool copyable = true, counted = true, throws = true;
    static CTok make(int i) { return CTok(i); }
};
struct RTok : CTok {  // as before, but moving it is not declared noexcept (a growing vector copies it)
    RTok() = default;
    explicit RTok(int i) : CTok(i) {}
    explicit RTok(Bomb b) : CTok(b) {}
    RTok(const RTok&) = default;
    RTok& operator=(const RTok&) = default;
    RTok(RTok&& o) noexcept(false) : CTok(std::move(o)) {}
    RTok& operator=(RTok&& o) noexcept(false) { CTok::operator=(std::move(o)); return *this; }
    static RTok make(int i) { return RTok(i); }
};
struct UTok {  // move-only
    int id = -1;
    std::unique_ptr<int> p;
    UTok() { ++liveObjs; }
    explicit UTok(int i) : id(i), p(new int(i * 7 + 1)) { ++liveObjs; }
    explicit UTok(Bomb) { throw Bomb(); }
    UTok(UTok&& o) noexcept : id(o.id), p(std::move(o.p)) { o.id = -2; ++liveObjs; }
    UTok& operator=(UTok&& o) noexcept { p = std::move(o.p); id = o.id; return *this; }
    ~UTok() { --liveObjs; }
    int read() const { return !p ? -5 : *p != id * 7 + 1 ? -6 : id; }
    static constexpr bool copyable = false, counted = true, throws = true;
    static UTok make(int i) { return UTok(i); }
};
/// how plain element types are made and read back
template<class E> struct El {
    static constexpr bool copyable = E::copyable, counted = E::counted, throws = E::throws;
    static E make(int i) { return E(i); }
    static int read(const E& e) { return e.read(); }
    template<class Q> static void emplace(Q& q, int i) { q.emplace(i); }
    template<class Q> static void emplaceP(Q& q, int i) { q.emplacePriority(i); }
};
template<> struct El<int> {
    static constexpr bool copyable = true, counted = false, throws = false;
    static int make(int i) { return i; }
    static int read(const int& e) { return e; }
    template<class Q> static void emplace(Q& q, int i) { q.emplace(i); }
    template<class Q> static void emplaceP(Q& q, int i) { q.emplacePriority(i); }
};
template<> struct El<std::string> {
    static constexpr bool copyable = true, counted = false, throws = false;
    static std::string make(int i) { return std::string(static_cast<size_t>(i % 40), 'x') + ":" + std::to_string(i); }
    static int read(const std::string& e)
    {
        auto p = e.find(':');
        if (p == std::string::npos) return -5;
        int i = atoi(e.c_str() + p + 1);
        return e == make(i) ? i : -6;
    }
    template<class Q> static void emplace(Q& q, int i) { std::string s = make(i); q.emplace(s.c_str(), s.size()); }
    template<class Q> static void emplaceP(Q& q, int i) { std::string s = make(i); q.emplacePriority(s.data(), s.size()); }
};
template<> struct El<std::unique_ptr<int>> {
    static constexpr bool copyable = false, counted = false, throws = false;
    static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); }
    static int read(const std::unique_ptr<int>& e) { return e ? *e : -5; }
    template<class Q> static void emplace(Q& q, int i) { q.emplace(new int(i)); }
    template<class Q> static void emplaceP(Q& q, int i) { q.emplacePriority(new int(i)); }
};

enum QK { SIMPLE, BLOCKING, PRIORITY };
template<QK K, class E> struct QTypeOf;
template<class E> struct QTypeOf<SIMPLE, E> { using type = SimpleQueue<E>; };
template<class E> struct QTypeOf<BLOCKING, E> { using type = BlockingQueue<E>; };
template<class E> struct QTypeOf<PRIORITY, E> { using type = BlockingPriorityQueue<E>; };

struct Slot { std::deque<int> norm, prio; bool used = false; };

template<QK K, class E> struct QueueRun {
    using Q = typename QTypeOf<K, E>::type;
    using X = El<E>;
    static constexpr int N = 3;
    std::unique_ptr<Q> q[N];
    Slot m[N];
    int next = 1;
    long base = liveObjs, bulkLeft = vp::S().param("bulk", 1) ? 90000 : 0;

    size_t total(int i) const { return m[i].norm.size() + m[i].prio.size(); }
    int front(int i) const { return !m[i].prio.empty() ? m[i].prio.front() : m[i].norm.empty() ? -1 : m[i].norm.front(); }
    void popModel(int i) { if (!m[i].prio.empty()) m[i].prio.pop_front(); else m[i].norm.pop_front(); }
    static std::optional<E> tryPop(Q& x) { if constexpr (K == SIMPLE) return x.pop(); else return x.try_pop(); }
    void checkOut(int i, const E& e, const char* how)
    {
        int r = X::read(e);
        if (r == -5 || r == -6) vp::vfail("payload", "%s delivered an element %s", how, r == -5 ? "that is empty or was moved from" : "with another content than the one pushed");
        if (r != front(i)) vp::vfail("wrong-element", "%s delivered %d, the next element is %d (of %zu)", how, r, front(i), total(i));
        popModel(i);
        vp::ev("delivered");
    }
    void noCopy(long c0, const char* how, long want = 0)
    {
        if (std::is_same<E, RTok>::value && want >= 0 && !strncmp(how, "push", 4)) return;
        if (std::is_same<E, RTok>::value && !strcmp(how, "emplacing")) return;
        if (copyCount - c0 > want) vp::vfail("needless-copy", "%s copied elements %ld times instead of %ld", how, copyCount - c0, want);
    }
    void push(int i, int code)
    {
        int id = next++;
        long c0 = copyCount;
        bool prio = K == PRIORITY && (code & 4);
        switch (code & 3) {
            case 0: {
                E e = X::make(id);
                c0 = copyCount;
                if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(std::move(e)); else q[i]->push(std::move(e)); }
                else q[i]->push(std::move(e));
                noCopy(c0, "pushing a temporary");
                break;
            }
            case 1:
                if constexpr (X::copyable) {
                    const E e = X::make(id);
                    c0 = copyCount;
                    if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(e); else q[i]->push(e); }
                    else q[i]->push(e);
                    noCopy(c0, "pushing an object", 1);
                    VCHECK(X::read(e) == id, "payload", "pushing a constant object changed it");
                    break;
                }
                [[fallthrough]];
            case 2:
                if constexpr (K == PRIORITY) { if (prio) X::emplaceP(*q[i], id); else X::emplace(*q[i], id); }
                else X::emplace(*q[i], id);
                noCopy(c0, "emplacing");
                break;
            default:
                if constexpr (X::copyable) {
                    E e = X::make(id);
                    c0 = copyCount;
                    if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(e); else q[i]->push(e); }
                    else q[i]->push(e);
                    noCopy(c0, "pushing an object", 1);
                    VCHECK(X::read(e) == id, "payload", "pushing an lvalue changed it");
                } else {
                    E e = X::make(id);
                    if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(std::move(e)); else q[i]->push(std::move(e)); }
                    else q[i]->push(std::move(e));
                }
        }
        (prio ? m[i].prio : m[i].norm).push_back(id);
        vp::ev(prio ? "pushed_priority" : "pushed");
    }
    /// a push whose element cannot be made: nothing may change
    void throwingPush(int i, int code)
    {
        if constexpr (X::throws) {
            bool prio = K == PRIORITY && (code & 4), thrown = false;
            try {
                if (K == SIMPLE && X::copyable && (code & 3) == 3) {
                    if constexpr (K == SIMPLE && X::copyable) {  // one of several elements cannot be copied
                        std::vector<E> v;
                        v.reserve(4);
                        for (int k = 0; k < 4; ++k) v.push_back(X::make(9990 + k));
                        throwIn = 1 + (code >> 2) % 4;
                        q[i]->pushVector(v);
                    }
                } else if (X::copyable && (code & 1)) {
                    if constexpr (X::copyable) {
                        const E e = X::make(9999);
                        throwIn = 1;
                        if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(e); else q[i]->push(e); }
                        else q[i]->push(e);
                    }
                } else {
                    if constexpr (K == PRIORITY) { if (prio) q[i]->emplacePriority(Bomb()); else q[i]->emplace(Bomb()); }
                    else q[i]->emplace(Bomb());
                }
            } catch (const Bomb&) { thrown = true; }
            throwIn = 0;
            VCHECK(thrown, "exception-swallowed", "the exception of an element's constructor did not reach the caller");
            vp::ev("throwing_pushes");
        }
    }
    /// a push for which memory may be missing: it happens completely or not at all
    void lowMemoryPush(int i, int code, long failAt)
    {
        int id = next;
        bool prio = K == PRIORITY && (code & 4), ok = true;
        std::vector<E> v;
        if constexpr (K == SIMPLE && X::copyable) { if ((code & 3) == 3) for (int k = 0; k < 3; ++k) v.push_back(X::make(id + k)); }
        E e = X::make(id);
        try {
            vp::FailNew f(failAt);
            if (!v.empty()) { if constexpr (K == SIMPLE && X::copyable) q[i]->pushVector(v); }
            else if ((code & 3) == 0 && !std::is_same<E, std::unique_ptr<int>>::value) {
                if constexpr (K == PRIORITY) { if (prio) X::emplaceP(*q[i], id); else X::emplace(*q[i], id); }
                else X::emplace(*q[i], id);
            } else if constexpr (K == PRIORITY) { if (prio) q[i]->pushPriority(std::move(e)); else q[i]->push(std::move(e)); }
            else q[i]->push(std::move(e));
        }
        catch (const std::bad_alloc&) { ok = false; }
        next += v.empty() ? 1 : 3;
        vp::ev(ok ? "pushes_with_little_memory" : "pushes_out_of_memory");
        if (!ok) return;
        for (int k = 0; k < (v.empty() ? 1 : 3); ++k) (prio ? m[i].prio : m[i].norm).push_back(id + k);
    }
    void pop(int i, int code, vp::Rd& rd)
    {
        long c0 = copyCount;
        if constexpr (K == SIMPLE) code = 0;
        switch (code & 3) {
            case 0: {
                auto v = tryPop(*q[i]);
                if (!v) { if (total(i)) vp::vfail("pop-missing", "a pop found nothing in a queue of %zu", total(i)); vp::ev("pops_empty"); break; }
                if (!total(i)) vp::vfail("invented", "a pop delivered %d from an empty queue", X::read(*v));
                checkOut(i, *v, "try_pop");
                break;
            }
            case 1:
                if constexpr (K != SIMPLE) {
                    if (!total(i)) return;
                    E e = q[i]->pop();
                    checkOut(i, e, "pop");
                }
                break;
            case 2:
                if constexpr (K != SIMPLE) {
                    static const int us[] = {0, 1, 20, -5};
                    int t = us[rd.below(4)];
                    auto t0 = std::chrono::steady_clock::now();
                    std::optional<E> v;
                    switch (rd.below(total(i) ? 8 : 6)) {
                        case 0: case 1: v = q[i]->pop(std::chrono::microseconds(t)); break;
                        case 2: v = q[i]->pop(std::chrono::nanoseconds(t * 1000)); break;
                        case 3: v = q[i]->pop(std::chrono::duration<double>(t * 1e-6)); break;
                        case 4: t = 0; v = q[i]->pop(std::chrono::seconds(0)); break;
                        case 5: t = -2000000; v = q[i]->pop(std::chrono::seconds(-2)); break;
                        case 6: v = q[i]->pop(std::chrono::hours(3)); break;
                        default: v = q[i]->pop(std::chrono::milliseconds(60000));
                    }
                    auto el = std::chrono::steady_clock::now() - t0;
                    if (!v) {
                        if (total(i)) vp::vfail("pop-missing", "a timed pop found nothing in a queue of %zu", total(i));
                        if (el < std::chrono::microseconds(t)) vp::vfail("timeout-early", "a timed pop gave up before its %d us were over", t);
                        vp::ev("timed_pop_expired");
                        break;
                    }
                    if (!total(i)) vp::vfail("invented", "a timed pop delivered %d from an empty queue", X::read(*v));
                    checkOut(i, *v, "pop(timeout)");
                }
                break;
            default:
                if constexpr (K != SIMPLE) {
                    int calls = 0, how = static_cast<int>(rd.below(3));
                    bool had = total(i) != 0;
                    if (how == 2 && K != PRIORITY) how = 1;
                    bool wasEmpty = q[i]->empty();
                    E e = q[i]->popOrCall([&] {
                        ++calls;
                        if (calls > 5) vp::vfail("callback-loop", "popOrCall keeps calling back although the queue holds %zu", total(i));
                        // from the second call on the element is there: pushing again is only a way out of a loop
                        int id = next++;
                        c0 = copyCount;
                        if constexpr (K == PRIORITY) { if (how == 2) { q[i]->pushPriority(X::make(id)); m[i].prio.push_back(id); return; } }
                        if (how == 0) X::emplace(*q[i], id); else q[i]->push(X::make(id));
                        m[i].norm.push_back(id);
                    });
                    if (had && calls) vp::vfail("callback-on-data", "popOrCall called back %d time(s) although %zu element(s) were there", calls, total(i) - static_cast<size_t>(calls));
                    if (!had && calls != 1) vp::vfail("callback-count", "popOrCall called back %d times on an empty queue", calls);
                    (void)wasEmpty;
                    vp::ev(had ? "callback_pops_direct" : "callback_pops_called");
                    checkOut(i, e, "popOrCall");
                }
        }
        noCopy(c0, "a pop");
    }
    void observe(int i)
    {
        Q& x = *q[i];
        size_t n = total(i);
        if (x.empty() != (n == 0)) vp::vfail("empty-wrong", "empty() is %d with %zu element(s)", x.empty(), n);
        if constexpr (K != PRIORITY) if (x.size() != n) vp::vfail("size-wrong", "size() is %zu with %zu element(s)", x.size(), n);
        if constexpr (X::copyable) {
            std::optional<E> v;
            if constexpr (K == SIMPLE) v = x.peek(); else v = x.try_peek();
            if (v.has_value() != (n != 0)) vp::vfail("peek-wrong", "peek shows %s with %zu element(s)", v ? "an element" : "nothing", n);
            if (v && X::read(*v) != front(i)) vp::vfail("peek-wrong", "peek shows %d, the next element is %d", X::read(*v), front(i));
        }
    }
    void checkAll()
    {
        size_t all = 0;
        for (int i = 0; i < N; ++i) if (q[i]) { observe(i); all += total(i); }
        if (X::counted && liveObjs - base != static_cast<long>(all)) vp::vfail("element-balance", "%ld elements are alive, the queues hold %zu", liveObjs - base, all);
        vp::evmax("elements_max", all);
    }
    void make(int i, int how)
    {
        if (how & 1) q[i] = std::make_unique<Q>(static_cast<size_t>(how >> 1));
        else q[i] = std::make_unique<Q>();
        m[i] = Slot();
    }
    void run(vp::Rd& rd)
    {
        int focus = vp::S().param("focus", 0);
        make(0, rd.u8());
        int steps = 0;
        while (!rd.done() && steps++ < 400) {
            uint32_t b = rd.u8();
            int i = static_cast<int>((b >> 6) % N);
            if (focus != 1 && rd.chance(70)) i = 0;
            uint32_t o = b & 31;
            if (!q[i]) { make(i, rd.u8()); VTRACE("q%d = new", i); vp::op(100 + static_cast<uint64_t>(i)); checkAll(); continue; }
            size_t before = total(i);
            uint32_t c = 0;
            if (o < 9) { c = rd.u8(); if (before < 200) push(i, static_cast<int>(c)); VTRACE("q%d push(%d) kind %u", i, next - 1, c & 7); }
            else if (o < 17) { c = rd.u8(); VTRACE("q%d pop kind %u of %zu", i, c & 3, before); pop(i, static_cast<int>(c), rd); }
            else if (o < 19) {
                if constexpr (K == SIMPLE && X::copyable) {
                    c = rd.below(6);
                    std::vector<E> v;
                    for (uint32_t k = 0; k < c; ++k) { v.push_back(X::make(next)); m[i].norm.push_back(next++); }
                    long c0 = copyCount;
                    q[i]->pushVector(v);
                    noCopy(c0, "pushVector", static_cast<long>(c));
                    for (size_t k = 0; k < v.size(); ++k) VCHECK(X::read(v[k]) == next - static_cast<int>(c) + static_cast<int>(k), "payload", "pushVector changed the caller's vector");
                    VTRACE("q%d pushVector(%u)", i, c);
                    vp::ev(c ? "vectors_pushed" : "empty_vectors_pushed");
                } else { push(i, 4); }
            } else if (o == 19) { q[i]->clear(); m[i] = Slot(); VTRACE("q%d clear of %zu", i, before); vp::ev("clears"); }
            else if (o == 20) { c = rd.u8(); if (c > 250) c *= 300; q[i]->reserve(c); VTRACE("q%d reserve(%u)", i, c); vp::ev("reserves"); }
            else if (o == 21) { // drain
                VTRACE("q%d drain %zu", i, before);
                while (total(i)) pop(i, 0, rd);
                VCHECK(!tryPop(*q[i]), "invented", "a drained queue still delivers elements");
                vp::ev("drains");
            } else if (o == 22 || o == 23) { // move construction
                int j = (i + 1 + static_cast<int>(b >> 5 & 1)) % N;
                long c0 = copyCount;
                q[j] = std::make_unique<Q>(std::move(*q[i]));
                m[j] = m[i];
                m[i] = Slot();
                noCopy(c0, "move construction");
                VTRACE("q%d = Q(move(q%d)) of %zu", j, i, before);
                vp::ev("move_construct");
                c = static_cast<uint32_t>(j);
            } else if (o == 24 || o == 25) {
                int j = (i + 1 + static_cast<int>(b >> 5 & 1)) % N;
                if (!q[j]) make(j, rd.u8());
                long c0 = copyCount;
                *q[j] = std::move(*q[i]);
                m[j] = m[i];
                m[i] = Slot();
                noCopy(c0, "move assignment");
                VTRACE("q%d = move(q%d) of %zu", j, i, before);
                vp::ev("move_assign");
                c = static_cast<uint32_t>(j);
            } else if (o == 26) { q[i].reset(); m[i] = Slot(); VTRACE("~q%d of %zu", i, before); vp::ev(before ? "destroyed_filled" : "destroyed_empty"); }
            else if (o == 27 || o == 28) {
                c = rd.u8();
                if (c & 16) { VTRACE("q%d push kind %u, memory missing after %u", i, c & 7, c >> 6); if (before < 400) lowMemoryPush(i, static_cast<int>(c), c >> 6); }
                else { VTRACE("q%d throwing push kind %u", i, c & 7); throwingPush(i, static_cast<int>(c)); }
            }
            else if (o == 29) { // a burst
                c = 1 + rd.below(20);
                if (bulkLeft > 0 && rd.below(40) == 0) {  // a large one: several growth steps of the storage, counters beyond 16 bits
                    c = rd.below(6) == 0 ? 65530 + rd.below(4000) : 100 + rd.below(rd.below(2) ? 8000 : 1500);
                    bulkLeft -= static_cast<long>(c);
                    int kind = static_cast<int>(rd.u8());
                    for (uint32_t k = 0; k < c; ++k) push(i, kind);
                    vp::ev("large_bursts");
                } else for (uint32_t k = 0; k < c && total(i) < 200; ++k) push(i, static_cast<int>(rd.u8()));
                VTRACE("q%d burst of %u", i, c);
            } else { c = 1 + rd.below(8); if (before > 300) c *= static_cast<uint32_t>(before / 10); VTRACE("q%d pops %u", i, c); for (uint32_t k = 0; k < c; ++k) pop(i, 0, rd); }
            vp::op(o * 65536 + static_cast<uint64_t>(i) * 16384 + (c & 7) * 2048 + std::min<size_t>(before, 40));
            vp::state(o * 4096 + std::min<size_t>(q[i] ? m[i].norm.size() : 0, 60) * 64 + std::min<size_t>(q[i] ? m[i].prio.size() : 0, 60));
            checkAll();
        }
        for (int i = 0; i < N; ++i) {
            if (!q[i]) continue;
            if (rd.u8() & 1) { while (total(i)) pop(i, 0, rd); observe(i); }
            q[i].reset();
        }
        if (X::counted && liveObjs != base) vp::vfail("element-balance", "%ld element(s) alive after every queue was destroyed", liveObjs - base);
    }
};

void noCopyAir(long c0, long want);
template<class E> void airRun(vp::Rd& rd)
{
    using X = El<E>;
    long base = liveObjs;
    {
        AirLock<E> a;
        long idle = liveObjs - base;  // the compartment itself
        int inside = -1, next = 1;
        int steps = 0;
        while (!rd.done() && steps++ < 300) {
            uint32_t b = rd.u8(), o = b & 7;
            long c0 = copyCount;
            VTRACE("op %u (%s)", o, inside >= 0 ? "loaded" : "free");
            if (o < 2 || (o == 2 && inside < 0)) {
                int id = next++;
                bool cp = X::copyable && (b & 8);
                E e = X::make(id);
                bool ok = true;
                if (cp) {
                    if constexpr (X::copyable) { const E& ce = e; if (o == 2) a.load(ce); else ok = a.try_load(ce); }
                    noCopyAir(c0, ok ? 1 : 0);
                } else {
                    if (o == 2) a.load(std::move(e)); else ok = a.try_load(std::move(e));
                    noCopyAir(c0, 0);
                }
                if (ok != (inside < 0)) vp::vfail("load-wrong", "a load was %s by a%s air lock", ok ? "accepted" : "refused", inside < 0 ? " free" : "n occupied");
                if (ok) { inside = id; vp::ev("loads"); }
                else { if (X::read(e) != id) vp::vfail("value-lost", "a refused load took the caller's value"); vp::ev("loads_refused"); }
                if (cp && X::read(e) != id) vp::vfail("payload", "loading a constant object changed it");
            } else if (o < 5) {
                auto v = a.try_unload();
                if (v.has_value() != (inside >= 0)) vp::vfail("unload-wrong", "an unload %s a%s air lock", v ? "got something from" : "was refused by", inside < 0 ? " free" : "n occupied");
                if (v) { if (X::read(*v) != inside) vp::vfail("wrong-element", "unloaded %d instead of %d", X::read(*v), inside); inside = -1; vp::ev("unloads"); }
                else vp::ev("unloads_refused");
                noCopyAir(c0, 0);
            } else if (o == 5 && X::copyable && X::throws && inside < 0) {
                if constexpr (X::copyable && X::throws) {
                    const E e = X::make(777);
                    bool thrown = false;
                    throwIn = 1;
                    try { if (b & 8) a.load(e); else a.try_load(e); } catch (const Bomb&) { thrown = true; }
                    throwIn = 0;
                    VCHECK(thrown, "exception-swallowed", "the exception of a copy did not reach the caller");
                    vp::ev("throwing_loads");
                }
            }
            if (a.isLoaded() != (inside >= 0)) vp::vfail("loaded-wrong", "isLoaded() is %d for a%s air lock", a.isLoaded(), inside < 0 ? " free" : "n occupied");
            // either the compartment is always an element, or it holds one while it is loaded
            if (X::counted && liveObjs - base != idle && liveObjs - base != idle + (inside >= 0)) vp::vfail("element-balance", "%ld elements alive instead of %ld", liveObjs - base, idle);
            vp::op(o * 4 + (inside >= 0) * 2 + ((b >> 3) & 1));
            vp::state(o * 8 + (inside >= 0));
        }
    }
    if (X::counted && liveObjs != base) vp::vfail("element-balance", "%ld element(s) alive after the air lock was destroyed", liveObjs - base);
}
void noCopyAir(long c0, long want) { if (copyCount - c0 > want) vp::vfail("needless-copy", "an air lock operation copied %ld times instead of %ld", copyCount - c0, want); }

template<QK K> void queueMode(vp::Rd& rd)
{
    switch (rd.u8() % 8) {
        case 0: case 1: case 2: { QueueRun<K, CTok> r; r.run(rd); break; }
        case 3: case 4: { QueueRun<K, UTok> r; r.run(rd); break; }
        case 5: { if (rd.u8() % 2) { QueueRun<K, int> r; r.run(rd); } else { QueueRun<K, RTok> r; r.run(rd); } break; }
        case 6: { QueueRun<K, std::string> r; r.run(rd); break; }
        default: { QueueRun<K, std::unique_ptr<int>> r; r.run(rd); }
    }
}

// ------------------------------------------------------------------ work blocks
struct MyErr { int v; };
struct CallLog { int calls = 0; const BasicWorkBlock* block = nullptr; bool sawFinished = false; };
struct Spec { int value = 0; int thr = 0; CallLog* log = nullptr; };  // thr: 0 returns, 1 std::runtime_error, 2 MyErr
long liveFns = 0;
int refTarget[64];
template<class R> struct Val;
template<> struct Val<int> { static int ret(int v) { return v; } static bool eq(int r, int v) { return r == v; } };
template<> struct Val<std::string> { static std::string ret(int v) { return std::string(20, 'v') + std::to_string(v); } static bool eq(const std::string& r, int v) { return r == ret(v); } };
template<> struct Val<int&> { static int& ret(int v) { return refTarget[v & 63]; } static bool eq(int& r, int v) { return &r == &refTarget[v & 63]; } };
template<> struct Val<void> { static void ret(int) {} };
struct Live { Live() { ++liveFns; } Live(const Live&) { ++liveFns; } Live(Live&&) noexcept { ++liveFns; } ~Live() { --liveFns; } };
template<class R> struct Fn {   // callable with unique ownership
    Spec s;
    std::unique_ptr<int> own;
    Live l;
    explicit Fn(Spec x) : s(x), own(new int(x.value)) {}
    R operator()()
    {
        ++s.log->calls;
        if (*own != s.value) vp::vfail("callable", "the callable was damaged");
        if (s.log->block && s.log->block->isFinished()) s.log->sawFinished = true;
        if (s.thr == 1) throw std::runtime_error("work " + std::to_string(s.value));
        if (s.thr == 2) throw MyErr{s.value};
        return Val<R>::ret(s.value);
    }
};
Spec gSpec;
template<class R> R freeFn() { ++gSpec.log->calls; return Val<R>::ret(gSpec.value); }

template<class R> struct WorkRun {
    struct Fut { std::shared_future<R> f; int gen; };
    struct Gen { Spec s; bool ran = false; bool dead = false; std::unique_ptr<CallLog> log; };
    struct B {
        std::shared_ptr<WorkBlock<R>> w;
        bool task = false, movedFrom = false, finished = false;
        int gen = -1;
        int expected = 0;
    };
    std::vector<Gen> gens;
    B b[3];
    std::vector<Fut> futs;
    int nval = 1;

    int newGen(vp::Rd& rd)
    {
        Gen g;
        g.s.value = nval++;
        uint32_t r = rd.u8() & 7;
        g.s.thr = r == 6 ? 1 : r == 7 ? 2 : 0;
        g.log = std::make_unique<CallLog>();
        g.s.log = g.log.get();
        gens.push_back(std::move(g));
        return static_cast<int>(gens.size()) - 1;
    }
    void checkFuture(std::shared_future<R>& f, int gen, const char* who)
    {
        Gen& g = gens[static_cast<size_t>(gen)];
        VCHECK(f.valid(), "future", "%s: the future of a work block is not valid", who);
        bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        if (!g.ran && !g.dead) { if (ready) vp::vfail("future-early", "%s: the future is ready before the work has run", who); return; }
        if (!ready) vp::vfail("future-late", "%s: the future is not ready although the work has run", who);
        if (!g.ran) {
            bool broken = false;
            try { f.get(); } catch (const std::future_error& e) { broken = e.code() == std::make_error_code(std::future_errc::broken_promise); } catch (...) {}
            VCHECK(broken, "future", "%s: the future of abandoned work delivers something", who);
            vp::ev("broken_promises_seen");
            return;
        }
        checkGet([&]() -> R { return f.get(); }, g, who);
    }
    template<class F> void checkGet(F&& get, const Gen& g, const char* who)
    {
        int got = 0;
        bool ok = false;
        try {
            if constexpr (std::is_void<R>::value) { get(); ok = true; }
            else ok = Val<R>::eq(get(), g.s.value);
        } catch (const std::runtime_error& e) { got = e.what() == "work " + std::to_string(g.s.value) ? 1 : 9; } catch (const MyErr& e) { got = e.v == g.s.value ? 2 : 9; } catch (...) { got = 8; }
        if (got != g.s.thr) vp::vfail("result-wrong", "%s: %s instead of %s", who, got ? "an exception" : "a value", g.s.thr ? "the callable's exception" : "the callable's value");
        if (!g.s.thr && !ok) vp::vfail("result-wrong", "%s: the value is not what the callable returned", who);
        vp::ev(g.s.thr ? "exceptions_delivered" : "values_delivered");
    }
    void install(B& x, int gen) { x.task = true; x.movedFrom = false; x.finished = false; x.gen = gen; gens[static_cast<size_t>(gen)].s.log->block = x.w.get(); }
    void abandon(B& x) { if (x.gen >= 0) { Gen& g = gens[static_cast<size_t>(x.gen)]; if (!g.ran) g.dead = true; g.s.log->block = nullptr; } x.gen = -1; }
    void construct(B& x, int how, vp::Rd& rd)
    {
        abandon(x);
        x.w.reset();
        x.task = x.movedFrom = x.finished = false;
        x.expected = 0;
        if (how == 0) { x.w = std::make_shared<WorkBlock<R>>(); VTRACE("default"); vp::ev("default_constructed"); return; }
        int g = newGen(rd);
        Spec s = gens[static_cast<size_t>(g)].s;
        switch (how) {
            case 1: x.w = std::make_shared<WorkBlock<R>>(Fn<R>(s)); break;
            case 2: x.w = std::make_shared<WorkBlock<R>>(std::packaged_task<R()>(Fn<R>(s))); break;
            case 3: x.w = make_shared_workBlock(Fn<R>(s)); break;
            case 4: x.w = make_workBlock(Fn<R>(s)); break;
            case 5: x.w = make_workBlock(std::packaged_task<R()>(Fn<R>(s))); break;
            case 6: { auto sp = std::make_shared<Fn<R>>(s); std::function<R()> f = [sp]() -> R { return (*sp)(); }; x.w = make_shared_workBlock(f); break; }
            default: { auto sp = std::make_shared<Fn<R>>(s); auto f = [sp]() -> R { return (*sp)(); }; x.w = make_workBlock(f); }
        }
        install(x, g);
        vp::ev("constructed");
    }
    void check(B& x)
    {
        if (!x.w) return;
        const BasicWorkBlock* base = x.w.get();
        bool fin = base->isFinished();
        if (x.movedFrom) return;
        if (fin != x.finished) vp::vfail("finished-wrong", "isFinished() is %d for work that has %s", fin, x.finished ? "run" : "not run");
        auto f = x.w->get_future();
        if (!x.task) { if (f.valid() && false) vp::vfail("future", "a block without work has a future"); return; }
        checkFuture(f, x.gen, "block");
        Gen& g = gens[static_cast<size_t>(x.gen)];
        if (g.log->calls != (g.ran ? 1 : 0) ) vp::vfail("run-count", "the callable ran %d times instead of %d", g.log->calls, g.ran ? 1 : 0);
        if (g.log->sawFinished) vp::vfail("finished-early", "the block reports finished while its callable is running");
        if (g.ran) {
            x.w->wait();
            if constexpr (std::is_void<R>::value) x.w->getReturnVal();
            else checkGet([&]() -> R { return x.w->getReturnVal(); }, g, "getReturnVal");
        }
    }
    void run(vp::Rd& rd)
    {
        long l0 = liveFns;
        {
            WorkRun& self = *this;
            (void)self;
            int steps = 0;
            while (!rd.done() && steps++ < 200) {
                uint32_t c = rd.u8();
                B& x = b[(c >> 6) % 3];
                uint32_t o = c & 15;
                if (!x.w) o = 0;
                VTRACE("b%d op %u%s%s%s", static_cast<int>(&x - b), o, x.task ? " task" : "", x.finished ? " finished" : "", x.movedFrom ? " moved" : "");
                switch (o) {
                    case 0: construct(x, static_cast<int>(rd.u8() & 7), rd); break;
                    case 1: case 2: case 3: case 4: {
                        if (x.movedFrom) break;
                        if (c & 32) { BasicWorkBlock* base = x.w.get(); base->execute(); } else x.w->execute();
                        if (x.finished) vp::ev("executed_again");
                        if (!x.finished && x.task) { gens[static_cast<size_t>(x.gen)].ran = true; vp::ev("executed"); }
                        x.finished = true;
                        break;
                    }
                    case 5: case 6: {
                        if (x.movedFrom && false) break;
                        x.w->reset();
                        vp::ev(x.finished ? "reset_after_run" : "reset_before_run");
                        x.finished = false;
                        if (x.task) {  // a new generation of the same work
                            int old = x.gen;
                            Gen g;
                            g.s = gens[static_cast<size_t>(old)].s;
                            g.log = std::move(gens[static_cast<size_t>(old)].log);
                            gens[static_cast<size_t>(old)].log = std::make_unique<CallLog>(*g.log);
                            if (!gens[static_cast<size_t>(old)].ran) gens[static_cast<size_t>(old)].dead = true;
                            g.log->calls = 0;
                            gens.push_back(std::move(g));
                            x.gen = static_cast<int>(gens.size()) - 1;
                        } else if (x.movedFrom) { x.finished = false; if (x.w->isFinished()) vp::vfail("finished-wrong", "a reset block reports finished"); }
                        break;
                    }
                    case 7: {
                        abandon(x);
                        int g = newGen(rd);
                        if (c & 32) x.w->updateTask(std::packaged_task<R()>(Fn<R>(gens[static_cast<size_t>(g)].s)));
                        else x.w->updateWorkFunction(Fn<R>(gens[static_cast<size_t>(g)].s));
                        install(x, g);
                        vp::ev("updates");
                        break;
                    }
                    case 8: {
                        abandon(x);
                        int g = newGen(rd);
                        auto sp = std::make_shared<Fn<R>>(gens[static_cast<size_t>(g)].s);
                        const std::function<R()> f = [sp]() -> R { return (*sp)(); };
                        x.w->updateWorkFunction(f);
                        install(x, g);
                        vp::ev("updates");
                        break;
                    }
                    case 9: case 10: {
                        if (x.task && x.gen >= 0 && futs.size() < 12) futs.push_back({x.w->get_future(), x.gen});
                        break;
                    }
                    case 11: case 12: {
                        B& y = b[(((c >> 6) % 3) + 1 + ((c >> 4) & 1)) % 3];
                        abandon(y);
                        if (o == 11 || !y.w) y.w = std::make_shared<WorkBlock<R>>(std::move(*x.w));
                        else *y.w = std::move(*x.w);
                        vp::ev(o == 11 ? "move_construct" : "move_assign");
                        y.task = x.task; y.finished = x.finished; y.gen = x.gen; y.movedFrom = x.movedFrom;
                        if (y.gen >= 0) gens[static_cast<size_t>(y.gen)].s.log->block = y.w.get();
                        if (x.task) x.movedFrom = true;
                        x.task = false;
                        x.gen = -1;
                        break;
                    }
                    case 13: abandon(x); x.w.reset(); x.task = x.finished = x.movedFrom = false; vp::ev("destroyed"); break;
                    case 14: { if (!futs.empty()) { size_t k = rd.below(static_cast<uint32_t>(futs.size())); futs.erase(futs.begin() + static_cast<long>(k)); } break; }
                    default: {  // a queue without workers runs it at once
                        if (x.movedFrom) break;
                        WorkQueue wq(0);
                        std::shared_ptr<BasicWorkBlock> p = x.w;
                        if (c & 32) wq.addWorkBlock(p, WorkQueue::WorkPriority::high); else { std::vector<std::shared_ptr<BasicWorkBlock>> v{p}; wq.addWorkBlock(v); }
                        if (!x.finished && x.task) { gens[static_cast<size_t>(x.gen)].ran = true; vp::ev("executed_by_queue"); }
                        x.finished = true;
                    }
                }
                for (auto& y : b) check(y);
                for (auto& f : futs) checkFuture(f.f, f.gen, "kept future");
                vp::op(o * 64 + (x.task ? 1 : 0) + (x.finished ? 2 : 0) + (x.movedFrom ? 4 : 0));
                vp::state(o * 64 + (x.task ? 1 : 0) + (x.finished ? 2 : 0) + (x.movedFrom ? 4 : 0) + futs.size() * 1024);
            }
            for (auto& y : b) { abandon(y); y.w.reset(); }
            for (auto& f : futs) checkFuture(f.f, f.gen, "future kept longer than the block");
            futs.clear();
        }
        if (liveFns != l0) vp::vfail("callable-balance", "%ld callable(s) alive after all blocks and futures are gone", liveFns - l0);
    }
};
void workMode(vp::Rd& rd)
{
    switch (rd.u8() & 3) {
        case 0: { WorkRun<int> r; r.run(rd); break; }
        case 1: { WorkRun<std::string> r; r.run(rd); break; }
        case 2: { WorkRun<void> r; r.run(rd); break; }
        default: { WorkRun<int&> r; r.run(rd); }
    }
}
}  // namespace seqq
}  // namespace
using namespace seqq;
#if PART == 1
void partSimple(vp::Rd& rd) { throwIn = 0; queueMode<SIMPLE>(rd); }
#elif PART == 2
void partBlocking(vp::Rd& rd) { throwIn = 0; queueMode<BLOCKING>(rd); }
#elif PART == 3
void partPriority(vp::Rd& rd) { throwIn = 0; queueMode<PRIORITY>(rd); }
#elif PART == 4
void partAirlock(vp::Rd& rd)
{
    throwIn = 0;
    switch (rd.u8() & 3) { case 0: case 1: airRun<CTok>(rd); break; case 2: airRun<UTok>(rd); break; default: airRun<std::string>(rd); }
}
#else
void partWorkblock(vp::Rd& rd) { throwIn = 0; workMode(rd); }
#endif
#endif
