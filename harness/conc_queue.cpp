// Queues under the cooperative scheduler: linearizability, lost wakeups, timed and callback pops, ownership.
#define VP_NO_MAIN
#include "conc.hpp"

namespace conc {
namespace {
enum QK { SIMPLE, BLOCKING, PRIORITY };
template<class Q> constexpr int maxIds() { return 60; }

struct PlanOp { int code; int id; int n; };
template<class Q> struct Ctx { Q* q; };
template<class Q> struct FiberPlan { Q* q; std::vector<PlanOp> ops; };

enum Code { C_PUSH_MOVE, C_PUSH_COPY, C_EMPLACE, C_PUSHV, C_PPUSH, C_PEMPLACE, C_TRYPOP, C_POP, C_TPOP, C_CALLPOP, C_CALLPUSHPOP, C_EMPTY, C_SIZE, C_PEEK, C_CLEAR, C_RESERVE, C_YIELD, C_THROW, C_ASSIGN };

template<QK K, class E, class Q> struct Ops {
    static int checked(const E& e, const char* where)
    {
        int r = e.read();
        if (r < 0) vps::fail("payload", "%s delivered an element %s", where, r == -5 ? "that was already moved from" : "whose content is not what was pushed");
        return r;
    }
    static std::optional<E> tryPop(Q& q) { if constexpr (K == SIMPLE) return q.pop(); else return q.try_pop(); }
    static void doTryPop(Q& q)
    {
        int h = vps::opBegin(POP, 0);
        auto v = tryPop(q);
        vps::opEnd(h, v ? checked(*v, "try_pop") : -1);
    }
    static void doPush(Q& q, int code, int id)
    {
        bool prio = code == C_PPUSH || code == C_PEMPLACE;
        int h = vps::opBegin(prio ? PPUSH : PUSH, id);
        if (code == C_EMPLACE) q.emplace(id);
        else if (prio) {
            if constexpr (K == PRIORITY) {
                if (code == C_PEMPLACE) q.emplacePriority(id);
                else if (id & 1) { E e(id); q.pushPriority(std::move(e)); }
                else { if constexpr (E::copyable) { const E e(id); q.pushPriority(e); } else q.pushPriority(E(id)); }
            }
        } else if (code == C_PUSH_COPY) {
            if constexpr (E::copyable) { const E e(id); q.push(e); if (e.read() != id) vps::fail("payload", "push of a constant changed the caller's object"); }
            else q.push(E(id));
        } else { E e(id); q.push(std::move(e)); }
        vps::opEnd(h, 0);
    }
    static void exec(Q& q, const PlanOp& o)
    {
        switch (o.code) {
            case C_PUSH_MOVE: case C_PUSH_COPY: case C_EMPLACE: case C_PPUSH: case C_PEMPLACE: doPush(q, o.code, o.id); break;
            case C_PUSHV:
                if constexpr (K == SIMPLE && E::copyable) {
                    std::vector<E> v;
                    for (int i = 0; i < o.n; ++i) v.emplace_back(o.id + i);
                    int h = vps::opBegin(PUSHV, o.id, o.n);
                    q.pushVector(v);
                    vps::opEnd(h, 0);
                    for (int i = 0; i < o.n; ++i) if (v[static_cast<size_t>(i)].read() != o.id + i) vps::fail("payload", "pushVector changed the caller's vector");
                }
                break;
            case C_TRYPOP: doTryPop(q); break;
            case C_POP:
                if constexpr (K != SIMPLE) {
                    int h = vps::opBegin(BPOP, 0);
                    E e = q.pop();
                    vps::opEnd(h, checked(e, "pop"));
                }
                break;
            case C_TPOP:
                if constexpr (K != SIMPLE) {
                    uint64_t t0 = vps::nowNs(), ns = static_cast<uint64_t>(o.n) * 1000;
                    int h = vps::opBegin(TPOP, o.n);
                    std::optional<E> v;
                    switch (o.id) {  // durations of every kind
                        case 0: v = q.pop(std::chrono::microseconds(o.n)); break;
                        case 1: v = q.pop(std::chrono::nanoseconds(ns)); break;
                        case 2: ns = static_cast<uint64_t>(o.n % 5) * 1000000; v = q.pop(std::chrono::milliseconds(o.n % 5)); break;
                        case 3: ns = static_cast<uint64_t>(o.n % 3) * 1000000000; v = q.pop(std::chrono::seconds(o.n % 3)); break;
                        case 4: v = q.pop(std::chrono::duration<double>(static_cast<double>(o.n) * 1e-6)); ns = ns > 1000 ? ns - 1000 : 0; break;
                        case 5: ns = static_cast<uint64_t>(o.n % 2) * 3600000000000; v = q.pop(std::chrono::hours(o.n % 2)); break;
                        case 6: ns = 0; v = q.pop(std::chrono::microseconds(-o.n)); break;
                        default: v = q.pop(std::chrono::duration<int64_t, std::ratio<1, 100000000>>(o.n * 100));
                    }
                    vps::opEnd(h, v ? checked(*v, "pop(timeout)") : -1);
                    if (!v) {
                        vps::count("timed_pop_expired");
                        if (vps::nowNs() - t0 < ns) vps::fail("timeout-early", "pop(timeout) gave up after %llu ns of its %llu ns", static_cast<unsigned long long>(vps::nowNs() - t0), static_cast<unsigned long long>(ns));
                    } else vps::count("timed_pop_delivered");
                }
                break;
            case C_CALLPOP: case C_CALLPUSHPOP:
                if constexpr (K != SIMPLE) {
                    int calls = 0, me = vps::self();
                    uint64_t cb0 = vps::cvBlocks();
                    uint32_t t = vps::tick();
                    E e = q.popOrCall([&]() {
                        int h = vps::opBeginAs(me, EMPTYOBS, 0, t);
                        vps::opEnd(h, 0);
                        if (vps::heldMutexes()) vps::fail("callback-locked", "popOrCall calls back while holding %d lock(s)", vps::heldMutexes());
                        if (!calls && vps::cvBlocks() != cb0) vps::fail("callback-late", "popOrCall blocked before it called back");
                        ++calls;
                        vps::point(10, nullptr);
                        if (o.code == C_CALLPUSHPOP && calls == 1) doPush(q, C_PUSH_MOVE, o.id);
                        t = vps::tick();
                    });
                    int h = vps::opBeginAs(me, BPOP, 0, t);
                    vps::opEnd(h, checked(e, "popOrCall"));
                    if (!calls && vps::cvBlocks() != cb0) vps::fail("callback-missing", "popOrCall blocked without calling back");
                    vps::count(calls ? "callback_pops_called" : "callback_pops_direct");
                }
                break;
            case C_EMPTY: { int h = vps::opBegin(EMPTY, 0); bool b = q.empty(); vps::opEnd(h, b); break; }
            case C_SIZE:
                if constexpr (K != PRIORITY) { int h = vps::opBegin(SIZE, 0); size_t n = q.size(); vps::opEnd(h, n > 30000 ? 30000 : static_cast<int>(n)); }
                break;
            case C_PEEK:
                if constexpr (E::copyable) {
                    int h = vps::opBegin(PEEK, 0);
                    std::optional<E> v;
                    if constexpr (K == SIMPLE) v = q.peek(); else v = q.try_peek();
                    vps::opEnd(h, v ? checked(*v, "peek") : -1);
                }
                break;
            case C_CLEAR: { int h = vps::opBegin(CLEAR, 0); q.clear(); vps::opEnd(h, 0); break; }
            case C_RESERVE: q.reserve(static_cast<size_t>(o.n)); break;
            case C_THROW: {
                bool thrown = false;
                try {
                    if constexpr (K == PRIORITY) { if (o.n & 1) q.emplacePriority(Boom()); else q.emplace(Boom()); }
                    else q.emplace(Boom());
                } catch (const Boom&) { thrown = true; }
                if (!thrown) vps::fail("exception-swallowed", "the exception of an element's constructor did not reach the caller");
                vps::count("throwing_pushes");
                break;
            }
            case C_ASSIGN: {
                Q other;
                for (int i = 0; i < o.n; ++i) other.emplace(o.id + i);
                int h = vps::opBegin(ASSIGN, o.id, o.n);
                q = std::move(other);
                vps::opEnd(h, 0);
                vps::count("assigned_while_in_use");
                break;
            }
            default: vps::point(9, nullptr);
        }
    }
    static void fiber(void* p)
    {
        auto* f = static_cast<FiberPlan<Q>*>(p);
        for (auto& o : f->ops) exec(*f->q, o);
    }
};

int pickCode(vp::Rd& rd, QK k, int focus, bool producer, bool consumer)
{
    uint32_t r = rd.u8();
    if (focus == 4) {  // faults and assignments next to ordinary use
        static const int cs[] = {C_POP, C_POP, C_TRYPOP, C_CALLPOP, C_POP, C_TPOP, C_TRYPOP, C_THROW};
        static const int ps[] = {C_PUSH_MOVE, C_EMPLACE, C_THROW, C_PUSH_COPY, C_ASSIGN, C_THROW, C_PPUSH, C_EMPLACE};
        bool p = producer && (!consumer || (r & 1));
        int c = p ? ps[(r >> 1) & 7] : cs[(r >> 1) & 7];
        if (k == SIMPLE && (c == C_POP || c == C_CALLPOP || c == C_TPOP)) c = C_TRYPOP;
        if (k != PRIORITY && c == C_PPUSH) c = C_PUSH_MOVE;
        return c;
    }
    if (k == SIMPLE) {
        static const int mixed[] = {C_PUSH_MOVE, C_PUSH_COPY, C_EMPLACE, C_PUSHV, C_PUSH_MOVE, C_TRYPOP, C_TRYPOP, C_TRYPOP, C_TRYPOP, C_EMPLACE, C_TRYPOP, C_SIZE, C_EMPTY, C_PEEK, C_CLEAR, C_RESERVE};
        static const int obs[] = {C_PUSH_MOVE, C_PUSH_COPY, C_EMPLACE, C_PUSHV, C_TRYPOP, C_TRYPOP, C_SIZE, C_SIZE, C_EMPTY, C_EMPTY, C_PEEK, C_PEEK, C_CLEAR, C_CLEAR, C_RESERVE, C_TRYPOP};
        static const int plain[] = {C_PUSH_MOVE, C_PUSH_COPY, C_EMPLACE, C_PUSHV, C_TRYPOP, C_TRYPOP, C_TRYPOP, C_PUSH_MOVE};
        if (producer && !consumer) return plain[(r >> 4) & 3];
        if (consumer && !producer) return C_TRYPOP;
        return focus == 3 ? obs[r & 15] : focus == 0 ? plain[r & 7] : mixed[r & 15];
    }
    static const int pushes[] = {C_PUSH_MOVE, C_PUSH_COPY, C_EMPLACE, C_PUSH_MOVE};
    static const int ppushes[] = {C_PPUSH, C_PEMPLACE, C_PUSH_MOVE, C_EMPLACE};
    bool pushing = producer && (!consumer || (r & 1));
    r >>= 1;
    if (pushing) return k == PRIORITY ? ((r & 4) ? ppushes[r & 3] : pushes[r & 3]) : pushes[r & 3];
    switch (focus) {
        case 1: { static const int c[] = {C_POP, C_POP, C_POP, C_POP, C_CALLPOP, C_CALLPOP, C_TRYPOP, C_CALLPUSHPOP}; return c[r & 7]; }
        case 2: { static const int c[] = {C_TPOP, C_TPOP, C_TPOP, C_CALLPOP, C_CALLPOP, C_CALLPUSHPOP, C_POP, C_TRYPOP}; return c[r & 7]; }
        case 3: { static const int c[] = {C_TRYPOP, C_POP, C_EMPTY, C_SIZE, C_PEEK, C_CLEAR, C_TPOP, C_RESERVE}; return c[r & 7]; }
        default: { static const int c[] = {C_TRYPOP, C_TRYPOP, C_POP, C_POP, C_TPOP, C_CALLPOP, C_TRYPOP, C_CALLPUSHPOP}; return c[r & 7]; }
    }
}
const char* codeName(int c)
{
    static const char* n[] = {"push&&", "push", "emplace", "pushVector", "pushPriority", "emplacePriority", "try_pop", "pop", "pop(t)", "popOrCall", "popOrCall+push", "empty", "size", "peek", "clear", "reserve", "yield", "throwing emplace", "move-assign"};
    return n[c];
}

template<QK K, class E, class Q> void runQueue(vp::Rd& rd)
{
    using O = Ops<K, E, Q>;
    static int focus = vp::S().param("focus", 0);
    bool strict = K != SIMPLE && (focus == 1 || focus == 2 ? true : false);
    vps::Config cfg = decodeConfig(rd, strict);
    if (focus == 1) cfg.spurious = rd.chance(20) ? 25 : 0;
    uint32_t hdr = rd.u8();
    int nf = 2 + static_cast<int>(hdr & 3);
    int shape = static_cast<int>((hdr >> 2) & 7);   // mixed, producers/consumers
    bool drain = ((hdr >> 5) & 3) != 0;
    int pre = static_cast<int>(rd.below(4));
    vps::beginCase(cfg);
    long live0 = liveToks;
    int nextId = 0, consumers = 0;
    {
        Q q0;
        Q* q = &q0;
        std::optional<Q> q1;
        if (hdr & 0x80) { q1.emplace(static_cast<size_t>(hdr & 7)); q = &*q1; }
        for (int i = 0; i < pre; ++i) O::doPush(*q, K == PRIORITY && (hdr & 16) && i == 1 ? C_PPUSH : C_PUSH_MOVE, nextId++);
        std::vector<FiberPlan<Q>> plans(static_cast<size_t>(nf));
        for (int i = 0; i < nf; ++i) {
            bool prod = true, cons = true;
            if (shape >= 4) { prod = i % 2 == 0; cons = !prod; }
            if (shape == 3) { prod = i == 0; cons = !prod; }
            if (shape == 2) { cons = i == 0; prod = !cons; }
            int n = 1 + static_cast<int>(rd.below(6));
            plans[static_cast<size_t>(i)].q = q;
            for (int j = 0; j < n; ++j) {
                PlanOp o{pickCode(rd, K, focus, prod, cons), 0, 0};
                if (o.code == C_THROW) o.n = static_cast<int>(rd.below(2));
                else if (o.code == C_ASSIGN) { o.n = static_cast<int>(rd.below(3)); o.id = nextId; nextId += o.n; }
                else if (o.code == C_PUSHV) { o.n = static_cast<int>(rd.below(4)); o.id = nextId; nextId += o.n; }
                else if (o.code <= C_PEMPLACE || o.code == C_CALLPUSHPOP) o.id = nextId++;
                else if (o.code == C_TPOP) { static const int ts[] = {0, 1, 5, 30, 200, 5000, 15, 80}; uint32_t x = rd.u8(); o.n = ts[x & 7]; o.id = (x & 128) ? 0 : static_cast<int>((x >> 3) & 7); }
                else if (o.code == C_RESERVE) o.n = static_cast<int>(rd.below(20));
                if (o.code == C_POP || o.code == C_CALLPOP) ++consumers;
                if (nextId > maxIds<Q>() - 12) break;
                plans[static_cast<size_t>(i)].ops.push_back(o);
                vp::op(static_cast<uint64_t>(o.code * 8 + i));
                VTRACE("plan t%d %s#%d", i, codeName(o.code), o.id);
            }
            vps::spawn(&O::fiber, &plans[static_cast<size_t>(i)], i);
        }
        // run; resolve blocked consumers
        FiberPlan<Q> probe{q, {{C_TRYPOP, 0, 0}}};
        std::list<FiberPlan<Q>> feeders;
        int rounds = 0;
        for (;;) {
            vps::Result r = vps::run();
            if (r == vps::DONE) break;
            if (r == vps::FAILED) failFromSched();
            if (r == vps::STEPLIMIT) { traceHistory(); vp::vfail("livelock", "no end after %llu scheduling steps", static_cast<unsigned long long>(vps::steps())); }
            int blocked = 0, timed = 0, other = 0, who = -1;
            for (int i = 0; i < vps::fiberCount(); ++i) {
                auto f = vps::info(i);
                if (f.state == vps::ON_CV) { ++blocked; who = i; }
                else if (f.state == vps::ON_CV_TIMED) { ++timed; who = i; }
                else if (f.state != vps::FINISHED) { ++other; who = i; }
            }
            if (other) { traceHistory(); vp::vfail("deadlock", "thread %d is blocked forever in state %d (locks: every thread is waiting)", who, vps::info(who).state); }
            vps::count("quiet_with_blocked_consumers");
            if (vps::fiberCount() >= vps::MAXF - 2 || ++rounds > 90) { vp::vfail("harness", "too many rounds"); }
            // nothing can run: whoever is blocked must be facing an empty queue
            int before = vps::historySize();
            int pf = vps::spawn(&O::fiber, &probe, 100);
            vps::setNoise(false);
            r = vps::run();
            vps::setNoise(true);
            if (r == vps::FAILED) failFromSched();
            int got = -1;
            for (int i = before; i >= 0 && i < vps::historySize(); ++i) if (vps::history(i).kind == POP && vps::history(i).fiber == pf && vps::history(i).res >= 0) got = vps::history(i).res;
            if (vps::info(vps::fiberCount() - 1).state != vps::FINISHED) { traceHistory(); vp::vfail("deadlock", "try_pop blocks although nothing else runs"); }
            if (got >= 0) {
                traceHistory();
                vp::vfail("lost-wakeup", "thread %d stays blocked in a %spop although element %d is in the queue and nothing else can run", who, timed && !blocked ? "timed " : "", got);
            }
            if (timed) {
                vps::jumpTime();
                continue;
            }
            // feed one element per blocked consumer, or fewer
            int n = 1 + static_cast<int>(rd.below(static_cast<uint32_t>(blocked)));
            feeders.push_back({q, {}});
            FiberPlan<Q>& feeder = feeders.back();
            for (int i = 0; i < n; ++i) {
                int code = K == PRIORITY && rd.chance(40) ? C_PPUSH : C_PUSH_MOVE;
                feeder.ops.push_back({code, nextId++, 0});
            }
            if (nextId > 104) vp::vfail("harness", "too many feeds");
            vps::spawn(&O::fiber, &feeder, 101);
            vps::count("feeds", static_cast<uint64_t>(n));
        }
        vps::endCase();
        // quiet: observers against what a drain delivers
        bool e0 = q->empty();
        long s0 = -1;
        int pk = -2;
        if constexpr (K != PRIORITY) s0 = static_cast<long>(q->size());
        if constexpr (E::copyable) {
            std::optional<E> v;
            if constexpr (K == SIMPLE) v = q->peek(); else v = q->try_peek();
            pk = v ? v->read() : -1;
        }
        if (drain) {
            std::vector<int> d;
            for (int i = 0; i < 80; ++i) {
                O::doTryPop(*q);
                int r = vps::historySize() > 0 ? vps::history(vps::historySize() - 1).res : -1;
                if (r < 0) break;
                d.push_back(r);
            }
            VCHECK(d.size() < 80, "invented", "the queue never gets empty");
            bool bad = e0 != d.empty();
            if (bad || (s0 >= 0 && s0 != static_cast<long>(d.size())) || (pk != -2 && pk != (d.empty() ? -1 : d[0]))) {
                traceHistory();
                vp::vfail("quiet-observers", "at rest the queue holds %zu element(s), but reports empty()=%d size()=%ld peek=%d (front is %d)", d.size(), e0, s0, pk, d.empty() ? -1 : d[0]);
            }
            VCHECK(q->empty(), "quiet-observers", "a drained queue reports that it is not empty");
            // and it still works
            for (int i = 0; i < 2; ++i) O::doPush(*q, C_PUSH_MOVE, nextId++);
            if (q->empty()) { traceHistory(); vp::vfail("quiet-observers", "a queue with two elements reports empty"); }
            O::doTryPop(*q);
            vp::ev("drained");
        } else vp::ev("destroyed_filled");
        // history checks
        int n = vps::historySize();
        if (n < 0) vp::ev("history_overflow");
        else {
            std::map<int, int> pushed, popped;
            bool clear = false;
            for (int i = 0; i < n; ++i) {
                const vps::HOp& o = vps::history(i);
                if (o.ret == 0xffffffffu) vp::vfail("harness", "operation never completed");
                if (o.kind == PUSH || o.kind == PPUSH) pushed[o.arg]++;
                if (o.kind == PUSHV || o.kind == ASSIGN) for (int k = 0; k < o.arg2; ++k) pushed[o.arg + k]++;
                if (o.kind == CLEAR || o.kind == ASSIGN) clear = true;
                if ((o.kind == POP || o.kind == BPOP || o.kind == TPOP) && o.res >= 0) popped[o.res]++;
                vp::ev(kindName(o.kind));
            }
            for (auto& kv : popped) {
                if (!pushed.count(kv.first)) { traceHistory(); vp::vfail("invented", "element %d was delivered but never pushed", kv.first); }
                if (kv.second > 1) { traceHistory(); vp::vfail("duplicated", "element %d was delivered %d times", kv.first, kv.second); }
            }
            if (drain && !clear && popped.size() + 1 != pushed.size()) { traceHistory(); vp::vfail("lost", "%zu elements pushed, %zu delivered, and the queue is empty", pushed.size() - 1, popped.size()); }
            Lin l;
            l.spec = FIFO_FULL;
            if (l.check() == 0) { traceHistory(); vp::vfail("not-linearizable", "no order of these operations explains the results (history of %d operations)", n); }
        }
    }
    finishCase();
    VCHECK(liveToks == live0, "element-balance", "%ld element object(s) alive after the queue was destroyed", liveToks - live0);
}
}  // namespace

void queueCase(vp::Rd& rd)
{
    static const std::string m = vp::S().mode;
    static int elem = vp::S().param("elem", 0);
    // elem 2: another mutex and condition variable type
    using TM = vps::TimedMutex;
    using CA = vps::CondVar;
    if (m == "simple") {
        if (elem == 2) runQueue<SIMPLE, MTok, SimpleQueue<MTok, TM>>(rd);
        else if (elem) runQueue<SIMPLE, MTok, SimpleQueue<MTok>>(rd);
        else runQueue<SIMPLE, Tok, SimpleQueue<Tok>>(rd);
    } else if (m == "blocking") {
        if (elem == 2) runQueue<BLOCKING, MTok, BlockingQueue<MTok, TM, CA>>(rd);
        else if (elem) runQueue<BLOCKING, MTok, BlockingQueue<MTok>>(rd);
        else runQueue<BLOCKING, Tok, BlockingQueue<Tok>>(rd);
    } else {
        if (elem == 2) runQueue<PRIORITY, MTok, BlockingPriorityQueue<MTok, TM, CA>>(rd);
        else if (elem) runQueue<PRIORITY, MTok, BlockingPriorityQueue<MTok>>(rd);
        else runQueue<PRIORITY, Tok, BlockingPriorityQueue<Tok>>(rd);
    }
}
}  // namespace conc
