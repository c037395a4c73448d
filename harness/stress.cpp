// Real threads under ThreadSanitizer / AddressSanitizer: short recorded histories decided by the linearizability checker,
// long hammering runs decided by conservation and order checks, and a watchdog that looks at the objects when nothing moves.
#include <bits/stdc++.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"
#include "gmlc/containers/WorkQueue.hpp"

namespace vps {  // history of the current case, assembled from the per-thread records
constexpr int MAXF = 16;
struct HOp { int16_t fiber; int16_t kind; int32_t arg; int32_t arg2; int32_t res; uint32_t inv, ret; };
std::vector<HOp> hist;
inline int historySize() { return static_cast<int>(hist.size()); }
inline const HOp& history(int i) { return hist[static_cast<size_t>(i)]; }
}  // namespace vps
#include "lin.hpp"

using namespace conc;
using namespace gmlc::containers;
const unsigned engineMinOps = 4;
const bool engineCheckLeaks = false;

namespace {
inline uint64_t nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<uint64_t>(t.tv_sec) * 1000000000ULL + static_cast<uint64_t>(t.tv_nsec); }
struct Rec { int kind, arg, arg2, res; uint64_t inv, ret; };
constexpr int NT = 8;
struct alignas(128) Slot {  // one per pool thread; only touched by its thread between the barriers
    std::vector<Rec> recs;
    std::map<std::string, uint64_t> counts;
    uint64_t rng = 1, sig = 0;
    std::function<void(int)> work;
};
Slot slots[NT];
int nActive = 0;
sem_t goSem[NT], doneSem;
int lined = 0;                         // relaxed: threads at the start line
uint64_t orderCounter = 0;             // relaxed: observed order of block executions
uint64_t progress = 0;                 // relaxed atomic, read by the watchdog
int phase = 0;                         // relaxed: 1 while threads run
std::function<std::string()> probe;    // asked by the watchdog when nothing moved; runs while the case is stuck
int stuckSecs = 25;
inline void tick() { __atomic_fetch_add(&progress, 1ULL, __ATOMIC_RELAXED); }
inline void cnt(int t, const char* k, uint64_t n = 1) { slots[t].counts[k] += n; }
struct Ticket { int t; size_t i; };
inline Ticket begin(int t, int kind, int arg, int arg2 = 0)
{
    slots[t].recs.push_back(Rec{kind, arg, arg2, -1, nowNs(), ~0ULL});
    return {t, slots[t].recs.size() - 1};
}
inline void end(Ticket k, int res) { Rec& r = slots[k.t].recs[k.i]; r.ret = nowNs(); r.res = res; tick(); }
inline void dither(int t)
{
    uint64_t x = vp::mix64(++slots[t].rng);
    if ((x & 7) < 4) return;
    if ((x & 7) == 4) { sched_yield(); return; }
    volatile int sink = 0;
    for (uint32_t i = static_cast<uint32_t>((x >> 8) & 511); i; --i) sink = sink + 1;
}
void* poolMain(void* p)
{
    int t = static_cast<int>(reinterpret_cast<intptr_t>(p));
    for (;;) {
        while (sem_wait(&goSem[t]) != 0) {}
        // a relaxed start line brings the threads close together without ordering them for the race detector
        __atomic_fetch_add(&lined, 1, __ATOMIC_RELAXED);
        for (int i = 0; i < 20000 && __atomic_load_n(&lined, __ATOMIC_RELAXED) < nActive; ++i) if ((i & 255) == 255) sched_yield();
        slots[t].work(t);
        sem_post(&doneSem);
    }
}
std::function<std::string()>* watchProbe = &probe;
void* probeMain(void*)
{
    std::string r = (*watchProbe)();
    vp::vfail("stuck", "%s", r.c_str());
}
/// true if a thread other than the main thread and the watchdog is running or ready to run: it may just not get the processor
bool someoneCanRun()
{
    DIR* d = opendir("/proc/self/task");
    if (!d) return false;
    bool any = false;
    long me = syscall(SYS_gettid), mainThread = getpid();
    while (dirent* e = readdir(d)) {
        long id = strtol(e->d_name, nullptr, 10);
        if (id <= 0 || id == me || id == mainThread) continue;
        char path[64], buf[256];
        snprintf(path, sizeof path, "/proc/self/task/%ld/stat", id);
        int fd = open(path, O_RDONLY | O_CLOEXEC);
        if (fd < 0) continue;
        ssize_t n = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (n <= 0) continue;
        buf[n] = 0;
        const char* st = strrchr(buf, ')');
        if (st && st[1] == ' ' && st[2] != 'S') any = true;
    }
    closedir(d);
    return any;
}
double cpuSeconds() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
/// Nothing moved while every thread slept for stuckSecs seconds, or while the process used stuckSecs seconds of processor time:
/// threads that are merely not scheduled (a busy machine) do not count.
void* watchMain(void*)
{
    uint64_t last = 0;
    double still = 0, cpu = cpuSeconds();
    for (;;) {
        sleep(1);
        uint64_t p = __atomic_load_n(&progress, __ATOMIC_RELAXED);
        double c = cpuSeconds(), used = c - cpu;
        cpu = c;
        if (p != last || !__atomic_load_n(&phase, __ATOMIC_RELAXED)) { last = p; still = 0; continue; }
        still += someoneCanRun() ? std::min(used, 1.0) : 1.0;
        if (still >= stuckSecs) {
            pthread_t th;
            pthread_create(&th, nullptr, probeMain, nullptr);
            for (double w = 0; w < 15;) {
                sleep(1);
                c = cpuSeconds();
                w += someoneCanRun() ? std::min(c - cpu, 1.0) : 1.0;
                cpu = c;
            }
            vp::vfail("stuck", "no operation completed for %d s, and the object cannot be inspected either: its locks are held forever", stuckSecs);
        }
    }
}
/// run the prepared work of the first n threads to the end; `meanwhile` runs in the calling thread
void runThreads(int n, const std::function<void()>& meanwhile)
{
    nActive = n;
    __atomic_store_n(&lined, 0, __ATOMIC_RELAXED);
    tick();
    __atomic_store_n(&phase, 1, __ATOMIC_RELAXED);
    for (int i = 0; i < n; ++i) sem_post(&goSem[i]);
    if (meanwhile) meanwhile();
    for (int i = 0; i < n; ++i) while (sem_wait(&doneSem) != 0) {}
    __atomic_store_n(&phase, 0, __ATOMIC_RELAXED);
    for (int i = 0; i < NT; ++i) {
        for (auto& c : slots[i].counts) vp::S().counters[c.first] += c.second;
        slots[i].counts.clear();
    }
    vp::ev("thread_runs", static_cast<uint64_t>(n));
}
void collectHistory(int extra)
{
    vps::hist.clear();
    std::vector<uint64_t> ts;
    for (int t = 0; t <= extra; ++t) for (auto& r : slots[t].recs) { ts.push_back(r.inv); ts.push_back(r.ret); }
    std::sort(ts.begin(), ts.end());
    ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
    auto rank = [&](uint64_t x) { return static_cast<uint32_t>(std::lower_bound(ts.begin(), ts.end(), x) - ts.begin()); };
    uint64_t overlaps = 0;
    for (int t = 0; t <= extra; ++t) for (auto& r : slots[t].recs) vps::hist.push_back({static_cast<int16_t>(t), static_cast<int16_t>(r.kind), r.arg, r.arg2, r.res, rank(r.inv), rank(r.ret)});
    for (size_t i = 0; i < vps::hist.size(); ++i)
        for (size_t j = i + 1; j < vps::hist.size(); ++j)
            if (vps::hist[i].fiber != vps::hist[j].fiber && vps::hist[i].inv <= vps::hist[j].ret && vps::hist[j].inv <= vps::hist[i].ret) ++overlaps;
    vp::ev("overlapping_operation_pairs", overlaps);
    // signature of what was observed: order of all starts and ends with the results
    std::vector<std::tuple<uint32_t, int, int, int>> o;
    for (auto& h : vps::hist) { o.emplace_back(h.inv, 0, h.fiber, h.kind); o.emplace_back(h.ret, 1, h.fiber, h.res); }
    std::sort(o.begin(), o.end());
    uint64_t sg = 0;
    for (auto& x : o) sg = vp::mix64(sg ^ static_cast<uint64_t>(std::get<1>(x) * 1000003 + std::get<2>(x) * 7919 + std::get<3>(x) * 131));
    vp::sigmix(sg);
}
void traceHist()
{
    std::vector<vps::HOp> h = vps::hist;
    std::sort(h.begin(), h.end(), [](auto& a, auto& b) { return a.inv < b.inv; });
    std::string s;
    for (auto& o : h) s += "t" + std::to_string(o.fiber) + " " + kindName(o.kind) + "(" + std::to_string(o.arg) + (o.arg2 ? " n" + std::to_string(o.arg2) : "") + ")=" + std::to_string(o.res) + "[" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "]; ";
    fprintf(stderr, "HISTORY %s\n", s.c_str());
}
void decideHistory(SpecKind spec)
{
    Lin l;
    l.spec = spec;
    if (l.check() == 0) { traceHist(); vp::vfail("not-linearizable", "no order of these %d operations explains the results", vps::historySize()); }
}

// ---------------------------------------------------------------- queues
enum QK { SIMPLE, BLOCKING, PRIORITY };
template<QK K, class E, class Q> struct QOps {
    static std::optional<E> tryPop(Q& q) { if constexpr (K == SIMPLE) return q.pop(); else return q.try_pop(); }
    static int chk(const E& e, const char* w)
    {
        int r = e.read();
        if (r < 0) vp::vfail("payload", "%s delivered an element %s", w, r == -5 ? "that was already moved from" : "whose content is not what was pushed");
        return r;
    }
    static void push(Q& q, int how, int id)
    {
        switch (how % 3) {
            case 0: q.emplace(id); break;
            case 1: if constexpr (E::copyable) { const E e(id); q.push(e); break; }  // fall through
            default: { E e(id); q.push(std::move(e)); }
        }
    }
    static void ppush(Q& q, int how, int id)
    {
        if constexpr (K == PRIORITY) {
            switch (how % 3) {
                case 0: q.emplacePriority(id); break;
                case 1: if constexpr (E::copyable) { const E e(id); q.pushPriority(e); break; }
                default: { E e(id); q.pushPriority(std::move(e)); }
            }
        } else push(q, how, id);
    }
};
enum Code { C_PUSH, C_PPUSH, C_PUSHV, C_TRYPOP, C_POP, C_TPOP, C_CALLPOP, C_EMPTY, C_SIZE, C_PEEK, C_CLEAR, C_RESERVE };
struct Op { int code, id, n; };

template<QK K, class E, class Q> void runHistory(vp::Rd& rd)
{
    using O = QOps<K, E, Q>;
    long live0 = __atomic_load_n(&liveToks, __ATOMIC_RELAXED);
    {
        Q q;
        uint32_t hdr = rd.u8();
        int nt = 2 + static_cast<int>(hdr % 4);
        bool observers = (hdr >> 2) & 1, clears = ((hdr >> 3) & 7) == 1;
        std::vector<std::vector<Op>> plan(static_cast<size_t>(nt));
        int id = 0, pops = 0, clearOps = 0;
        for (int t = 0; t < nt; ++t) {
            int n = 2 + static_cast<int>(rd.below(7));
            int bias = static_cast<int>(rd.below(3));
            for (int i = 0; i < n; ++i) {
                uint32_t r = rd.u8() & 15;
                bool doPush = bias == 0 ? r < 11 : bias == 1 ? r < 4 : r < 8;
                Op o{C_TRYPOP, 0, 0};
                if (observers && (r & 3) == 3) {
                    static const int oc[] = {C_EMPTY, C_SIZE, C_PEEK, C_EMPTY, C_SIZE, C_PEEK, C_RESERVE, C_CLEAR};
                    o.code = oc[rd.below(8)];
                    if (o.code == C_CLEAR && !clears) o.code = C_EMPTY;
                    if (o.code == C_CLEAR) ++clearOps;
                    if (o.code == C_RESERVE) o.n = static_cast<int>(rd.below(40));
                } else if (doPush && id < 50) {
                    uint32_t k = rd.u8();
                    o.code = K == PRIORITY && (k & 3) == 0 ? C_PPUSH : K == SIMPLE && (k & 7) == 0 && E::copyable ? C_PUSHV : C_PUSH;
                    o.id = id;
                    o.n = o.code == C_PUSHV ? static_cast<int>(rd.below(4)) : static_cast<int>(k >> 4);
                    id += o.code == C_PUSHV ? o.n : 1;
                } else {
                    ++pops;
                    uint32_t k = rd.u8() & 7;
                    if (K != SIMPLE) o.code = k < 3 ? C_TRYPOP : k < 5 ? C_POP : k == 5 ? C_TPOP : C_CALLPOP;
                    if (o.code == C_TPOP) o.n = static_cast<int>(rd.u8());
                }
                plan[static_cast<size_t>(t)].push_back(o);
                vp::op(static_cast<uint64_t>(o.code * 16 + t));
                VTRACE("plan t%d op%d#%d", t, o.code, o.id);
            }
        }
        int done = 0;
        uint64_t seed = rd.u64();
        for (int t = 0; t < nt; ++t) {
            slots[t].recs.clear();
            slots[t].recs.reserve(64);
            slots[t].rng = seed + static_cast<uint64_t>(t) * 1000003;
            slots[t].work = [&q, &plan, &done](int t) {
                for (auto& o : plan[static_cast<size_t>(t)]) {
                    dither(t);
                    switch (o.code) {
                        case C_PUSH: { auto k = begin(t, PUSH, o.id); O::push(q, o.n, o.id); end(k, 0); break; }
                        case C_PPUSH: { auto k = begin(t, PPUSH, o.id); O::ppush(q, o.n, o.id); end(k, 0); break; }
                        case C_PUSHV:
                            if constexpr (K == SIMPLE && E::copyable) {
                                std::vector<E> v;
                                for (int i = 0; i < o.n; ++i) v.emplace_back(o.id + i);
                                auto k = begin(t, PUSHV, o.id, o.n);
                                q.pushVector(v);
                                end(k, 0);
                            }
                            break;
                        case C_TRYPOP: { auto k = begin(t, POP, 0); auto v = O::tryPop(q); end(k, v ? O::chk(*v, "try_pop") : -1); break; }
                        case C_POP: if constexpr (K != SIMPLE) { auto k = begin(t, BPOP, 0); E e = q.pop(); end(k, O::chk(e, "pop")); } break;
                        case C_TPOP:
                            if constexpr (K != SIMPLE) {
                                auto k = begin(t, TPOP, o.n);
                                auto v = q.pop(std::chrono::microseconds(o.n));
                                end(k, v ? O::chk(*v, "pop(timeout)") : -1);
                                const Rec& r = slots[t].recs[k.i];
                                if (!v && r.ret - r.inv < static_cast<uint64_t>(o.n) * 1000) vp::vfail("timeout-early", "pop(timeout) gave up after %llu ns of %d us", static_cast<unsigned long long>(r.ret - r.inv), o.n);
                                cnt(t, v ? "timed_pop_delivered" : "timed_pop_expired");
                            }
                            break;
                        case C_CALLPOP:
                            if constexpr (K != SIMPLE) {
                                int calls = 0;
                                auto k = begin(t, BPOP, 0);
                                E e = q.popOrCall([&]() { ++calls; (void)q.empty(); });
                                end(k, O::chk(e, "popOrCall"));
                                cnt(t, calls ? "callback_pops_called" : "callback_pops_direct");
                            }
                            break;
                        case C_EMPTY: { auto k = begin(t, EMPTY, 0); bool b = q.empty(); end(k, b); break; }
                        case C_SIZE: if constexpr (K != PRIORITY) { auto k = begin(t, SIZE, 0); size_t n = q.size(); end(k, n > 30000 ? 30000 : static_cast<int>(n)); } break;
                        case C_PEEK:
                            if constexpr (E::copyable) {
                                auto k = begin(t, PEEK, 0);
                                std::optional<E> v;
                                if constexpr (K == SIMPLE) v = q.peek(); else v = q.try_peek();
                                end(k, v ? O::chk(*v, "peek") : -1);
                            }
                            break;
                        case C_CLEAR: { auto k = begin(t, CLEAR, 0); q.clear(); end(k, 0); break; }
                        default: q.reserve(static_cast<size_t>(o.n));
                    }
                }
                __atomic_fetch_add(&done, 1, __ATOMIC_RELAXED);
            };
        }
        slots[nt].recs.clear();
        probe = [&q]() { auto v = O::tryPop(q); return v ? std::string("a blocked consumer sleeps although an element is available") : std::string("threads do not come to an end although the queue was fed"); };
        runThreads(nt, [&]() {
            // consumers that found nothing are fed so that every case ends
            int feeds = 0;
            uint64_t last = __atomic_load_n(&progress, __ATOMIC_RELAXED);
            uint64_t since = nowNs();
            while (__atomic_load_n(&done, __ATOMIC_RELAXED) < nt) {
                struct timespec ts = {0, 20000};
                if (K == SIMPLE) { sched_yield(); continue; }
                nanosleep(&ts, nullptr);
                uint64_t p = __atomic_load_n(&progress, __ATOMIC_RELAXED);
                if (p != last) { last = p; since = nowNs(); continue; }
                // only into an empty queue, or else the elements may all be gone (cleared) before a thread that was not scheduled needs one
                if (nowNs() - since < 150000 || feeds >= pops + clearOps || !q.empty()) continue;
                auto k = begin(nt, PUSH, id);
                O::push(q, id, id);
                end(k, 0);
                last = __atomic_load_n(&progress, __ATOMIC_RELAXED);
                since = nowNs();
                ++id; ++feeds;
            }
            vp::ev("feeds", static_cast<uint64_t>(feeds));
        });
        // quiet: drain, recorded by the main thread
        bool e0 = q.empty();
        long s0 = -1;
        if constexpr (K != PRIORITY) s0 = static_cast<long>(q.size());
        long got = 0;
        for (;;) {
            auto k = begin(nt, POP, 0);
            auto v = O::tryPop(q);
            end(k, v ? O::chk(*v, "try_pop") : -1);
            if (!v) break;
            if (++got > 120) vp::vfail("invented", "the queue never gets empty");
        }
        collectHistory(nt);
        if (e0 != (got == 0) || (s0 >= 0 && s0 != got)) { traceHist(); vp::vfail("quiet-observers", "at rest the queue held %ld element(s), but reported empty()=%d size()=%ld", got, e0, s0); }
        decideHistory(FIFO_FULL);
        for (auto& h : vps::hist) vp::ev(kindName(h.kind));
    }
    long l = __atomic_load_n(&liveToks, __ATOMIC_RELAXED);
    VCHECK(l == live0, "element-balance", "%ld element object(s) alive after the queue was destroyed", l - live0);
}

template<QK K, class E, class Q> void runBulk(vp::Rd& rd)
{
    using O = QOps<K, E, Q>;
    long live0 = __atomic_load_n(&liveToks, __ATOMIC_RELAXED);
    {
        auto* q = new Q;
        uint32_t hdr = rd.u8();
        int np = 1 + static_cast<int>(hdr % 3), nc = 1 + static_cast<int>((hdr >> 2) % 3);
        bool observer = (hdr >> 5) & 1;
        int per = 100 + static_cast<int>(rd.below(4)) * 150;
        int burst = 1 + static_cast<int>(rd.below(4)) * 7;
        uint64_t seed = rd.u64();
        constexpr int STRIDE = 1 << 20;
        constexpr int PILL = 900 * STRIDE + 7;
        int producersLeft = np, consumersLeft = nc;
        std::vector<std::vector<uint8_t>> seen(static_cast<size_t>(nc), std::vector<uint8_t>(static_cast<size_t>(np * per), 0));
        int nt = np + nc + (observer ? 1 : 0);
        for (int t = 0; t < nt; ++t) { slots[t].rng = seed + static_cast<uint64_t>(t) * 77777; slots[t].recs.clear(); }
        vp::op(hdr); vp::op(static_cast<uint64_t>(per)); vp::op(static_cast<uint64_t>(burst)); vp::op(seed);
        VTRACE("%d producers x %d elements, bursts of %d, %d consumers, observer %d", np, per, burst, nc, observer);
        for (int p = 0; p < np; ++p)
            slots[p].work = [=, &producersLeft](int t) {
                int i = 0;
                while (i < per) {
                    for (int b = 0; b < burst && i < per; ++b) {
                        uint64_t r = vp::mix64(++slots[t].rng);
                        int id = (p + 1) * STRIDE + i;
                        if (K == PRIORITY && (i & 3) == 1) O::ppush(*q, static_cast<int>(r & 255), id);
                        else if constexpr (K == SIMPLE && E::copyable) {
                            if ((r & 15) == 0) {
                                std::vector<E> v;
                                int m = std::min(per - i, static_cast<int>((r >> 8) & 7));
                                for (int j = 0; j < m; ++j) v.emplace_back(id + j);
                                q->pushVector(v);
                                i += m;
                                cnt(t, "pushVector");
                                tick();
                                continue;
                            }
                            O::push(*q, static_cast<int>(r & 255), id);
                        } else O::push(*q, static_cast<int>(r & 255), id);
                        ++i;
                        tick();
                    }
                    dither(t);
                }
                cnt(t, "pushed", static_cast<uint64_t>(per));
                if (__atomic_sub_fetch(&producersLeft, 1, __ATOMIC_ACQ_REL) == 0)
                    for (int c = 0; c < nc; ++c) { O::push(*q, c, PILL); tick(); }
            };
        for (int c = 0; c < nc; ++c) {
            std::vector<uint8_t>* mine = &seen[static_cast<size_t>(c)];
            slots[np + c].work = [=, &consumersLeft](int t) {
                std::vector<int> last(static_cast<size_t>(np * 2), -1);
                uint64_t got = 0, none = 0, sg = 0;
                int idle = 0;
                for (;;) {
                    uint64_t r = vp::mix64(++slots[t].rng);
                    std::optional<E> v;
                    if constexpr (K == SIMPLE) v = q->pop();
                    else switch (r & 7) {
                        case 0: case 1: v = q->try_pop(); break;
                        case 2: v = q->pop(std::chrono::microseconds((r >> 8) & 127)); break;
                        case 3: v.emplace(q->popOrCall([&]() { (void)q->empty(); })); break;
                        default: v.emplace(q->pop());
                    }
                    if (!v) { ++none; if (++idle > 50) { idle = 0; sched_yield(); } continue; }
                    tick();
                    int id = O::chk(*v, "pop");
                    if (id == PILL) break;
                    ++got;
                    int p = id / STRIDE - 1, i = id % STRIDE;
                    if (p < 0 || p >= np || i >= per) vp::vfail("invented", "element %d was never pushed", id);
                    uint8_t& s = (*mine)[static_cast<size_t>(p * per + i)];
                    if (s++) vp::vfail("duplicated", "element %d was delivered twice", id);
                    int cls = K == PRIORITY && (i & 3) == 1;
                    int& lst = last[static_cast<size_t>(p * 2 + cls)];
                    if (i <= lst) vp::vfail("order", "element %d of a producer was delivered after its element %d", i, lst);
                    lst = i;
                    sg = vp::mix64(sg ^ static_cast<uint64_t>(id));
                    if ((r >> 20 & 15) == 0) dither(t);
                }
                cnt(t, "popped", got);
                slots[t].sig = sg;
                cnt(t, "pops_empty", none);
                __atomic_fetch_sub(&consumersLeft, 1, __ATOMIC_RELAXED);
            };
        }
        if (observer)
            slots[np + nc].work = [=, &consumersLeft](int t) {
                uint64_t n = 0;
                while (__atomic_load_n(&consumersLeft, __ATOMIC_RELAXED) > 0) {
                    uint64_t r = vp::mix64(++slots[t].rng);
                    switch (r & 3) {
                        case 0: (void)q->empty(); break;
                        case 1: if constexpr (K != PRIORITY) { size_t s = q->size(); if (s > static_cast<size_t>(np * per + nc)) vp::vfail("observer", "size() is %zu", s); } break;
                        case 2:
                            if constexpr (E::copyable) {
                                std::optional<E> v;
                                if constexpr (K == SIMPLE) v = q->peek(); else v = q->try_peek();
                                if (v) O::chk(*v, "peek");
                            }
                            break;
                        default: q->reserve((r >> 8) & 255);
                    }
                    ++n;
                    dither(t);
                }
                cnt(t, "observations", n);
            };
        probe = [q]() { auto v = O::tryPop(*q); return v ? std::string("consumers sleep although an element is available") : std::string("elements were lost: consumers wait for elements on an empty queue after every push completed"); };
        runThreads(nt, nullptr);
        for (int c = 0; c < nc; ++c) vp::sigmix(slots[np + c].sig);
        for (int i = 0; i < np * per; ++i) {
            int n = 0;
            for (auto& s : seen) n += s[static_cast<size_t>(i)];
            if (n != 1) vp::vfail(n ? "duplicated" : "lost", "element %d was delivered %d times", i, n);
        }
        VCHECK(q->empty() && !O::tryPop(*q), "quiet-observers", "a fully drained queue is not empty");
        if (hdr & 0x40) { for (int i = 0; i < 5; ++i) O::push(*q, i, i); vp::ev("destroyed_filled"); }
        delete q;
        vp::ev("bulk_runs");
    }
    long l = __atomic_load_n(&liveToks, __ATOMIC_RELAXED);
    VCHECK(l == live0, "element-balance", "%ld element object(s) alive after the queue was destroyed", l - live0);
}

// ---------------------------------------------------------------- air lock
template<class E, class A = AirLock<E>> void runAirHistory(vp::Rd& rd)
{
    A a;
    uint32_t hdr = rd.u8();
    int nt = 2 + static_cast<int>(hdr % 4);
    std::vector<std::vector<Op>> plan(static_cast<size_t>(nt));
    int id = 0, loads = 0;
    for (int t = 0; t < nt; ++t) {
        int n = 2 + static_cast<int>(rd.below(7));
        for (int i = 0; i < n; ++i) {
            uint32_t r = rd.u8() & 15;
            int kind = r < 4 ? TRYLOAD : r < 7 ? LOAD : r < 13 ? UNLOAD : ISLOADED;
            if (kind == LOAD) ++loads;
            plan[static_cast<size_t>(t)].push_back({kind, kind == TRYLOAD || kind == LOAD ? id++ : 0, static_cast<int>(rd.u8())});
            vp::op(static_cast<uint64_t>(kind * 16 + t));
            VTRACE("plan t%d %s", t, kindName(kind));
        }
    }
    int done = 0;
    uint64_t seed = rd.u64();
    for (int t = 0; t < nt; ++t) {
        slots[t].recs.clear();
        slots[t].rng = seed + static_cast<uint64_t>(t) * 1000003;
        slots[t].work = [&](int t) {
            for (auto& o : plan[static_cast<size_t>(t)]) {
                dither(t);
                if (o.code == TRYLOAD) {
                    E e(o.id);
                    bool ok, cp = false;
                    auto k = begin(t, TRYLOAD, o.id);
                    if constexpr (E::copyable) { if (o.n & 1) { const E& c = e; ok = a.try_load(c); cp = true; } else ok = a.try_load(std::move(e)); }
                    else ok = a.try_load(std::move(e));
                    end(k, ok);
                    if ((!ok || cp) && e.read() != o.id) vp::vfail("refused-value-taken", "try_load took a value it should have left with the caller");
                } else if (o.code == LOAD) {
                    E e(o.id);
                    auto k = begin(t, LOAD, o.id);
                    if constexpr (E::copyable) { if (o.n & 1) { const E& c = e; a.load(c); } else a.load(std::move(e)); } else a.load(std::move(e));
                    end(k, 1);
                } else if (o.code == UNLOAD) {
                    auto k = begin(t, UNLOAD, 0);
                    auto v = a.try_unload();
                    end(k, v ? v->read() : -1);
                    if (v && v->read() < 0) vp::vfail("payload", "try_unload delivered a damaged value");
                } else { auto k = begin(t, ISLOADED, 0); bool b = a.isLoaded(); end(k, b); }
            }
            __atomic_fetch_add(&done, 1, __ATOMIC_RELAXED);
        };
    }
    slots[nt].recs.clear();
    auto unload = [&]() { auto k = begin(nt, UNLOAD, 0); auto v = a.try_unload(); end(k, v ? v->read() : -1); return static_cast<bool>(v); };
    probe = [&]() { return std::string(a.isLoaded() ? "a loader is still blocked although the air lock was emptied again and again" : "a loader stays blocked although the air lock is empty"); };
    runThreads(nt, [&]() {
        int n = 0;
        uint64_t last = __atomic_load_n(&progress, __ATOMIC_RELAXED), since = nowNs();
        while (__atomic_load_n(&done, __ATOMIC_RELAXED) < nt) {
            timespec ts = {0, 20000};
            nanosleep(&ts, nullptr);
            uint64_t p = __atomic_load_n(&progress, __ATOMIC_RELAXED);
            if (p != last) { last = p; since = nowNs(); continue; }
            if (nowNs() - since < 150000 || !a.isLoaded()) continue;
            ++n;
            unload();
            last = __atomic_load_n(&progress, __ATOMIC_RELAXED);
            since = nowNs();
        }
        vp::ev("relieved", static_cast<uint64_t>(n));
    });
    if (unload()) unload();
    collectHistory(nt);
    decideHistory(ONEPLACE);
    for (auto& h : vps::hist) { vp::ev(kindName(h.kind)); if (h.kind == TRYLOAD) vp::ev(h.res ? "try_load_ok" : "try_load_refused"); if (h.kind == UNLOAD) vp::ev(h.res >= 0 ? "unload_ok" : "unload_refused"); }
}
template<class E, class A = AirLock<E>> void runAirBulk(vp::Rd& rd)
{
    A a;
    uint32_t hdr = rd.u8();
    int np = 1 + static_cast<int>(hdr % 3), nc = 1 + static_cast<int>((hdr >> 2) % 2);
    int per = 50 + static_cast<int>(rd.below(4)) * 60;
    uint64_t seed = rd.u64();
    constexpr int STRIDE = 1 << 20;
    int left = np * per;
    std::vector<std::vector<uint8_t>> seen(static_cast<size_t>(nc), std::vector<uint8_t>(static_cast<size_t>(np * per), 0));
    vp::op(hdr); vp::op(static_cast<uint64_t>(per)); vp::op(1); vp::op(seed);
    VTRACE("%d loaders x %d values, %d unloaders", np, per, nc);
    for (int t = 0; t < np + nc; ++t) { slots[t].rng = seed + static_cast<uint64_t>(t) * 77777; slots[t].recs.clear(); }
    for (int p = 0; p < np; ++p)
        slots[p].work = [&, p](int t) {
            for (int i = 0; i < per; ++i) {
                uint64_t r = vp::mix64(++slots[t].rng);
                E e((p + 1) * STRIDE + i);
                if ((r & 3) == 0) {
                    int spins = 0;
                    while (!a.try_load(std::move(e))) { if (e.read() != (p + 1) * STRIDE + i) vp::vfail("refused-value-taken", "a refused try_load took the caller's value"); if (++spins > 20) sched_yield(); }
                } else a.load(std::move(e));
                tick();
                if ((r & 0x70) == 0) dither(t);
            }
            cnt(t, "loaded", static_cast<uint64_t>(per));
        };
    for (int c = 0; c < nc; ++c)
        slots[np + c].work = [&, c](int t) {
            std::vector<int> last(static_cast<size_t>(np), -1);
            int idle = 0;
            uint64_t got = 0, sg = 0;
            while (__atomic_load_n(&left, __ATOMIC_RELAXED) > 0) {
                if ((vp::mix64(++slots[t].rng) & 7) == 0) (void)a.isLoaded();
                auto v = a.try_unload();
                if (!v) { if (++idle > 20) { idle = 0; sched_yield(); } continue; }
                int id = v->read();
                if (id < 0) vp::vfail("payload", "try_unload delivered a damaged value");
                int p = id / STRIDE - 1, i = id % STRIDE;
                if (p < 0 || p >= np || i >= per) vp::vfail("invented", "value %d was never loaded", id);
                if (seen[static_cast<size_t>(c)][static_cast<size_t>(p * per + i)]++) vp::vfail("duplicated", "value %d was handed over twice", id);
                if (i <= last[static_cast<size_t>(p)]) vp::vfail("order", "values of one loader came out in another order");
                last[static_cast<size_t>(p)] = i;
                __atomic_fetch_sub(&left, 1, __ATOMIC_RELAXED);
                ++got;
                sg = vp::mix64(sg ^ static_cast<uint64_t>(id));
                tick();
            }
            cnt(t, "unloaded", got);
            slots[t].sig = sg;
        };
    probe = [&]() { return std::string(a.isLoaded() ? "nothing moves although a value is inside and somebody unloads" : "a loader stays blocked although the air lock is empty"); };
    runThreads(np + nc, nullptr);
    for (int c = 0; c < nc; ++c) vp::sigmix(slots[np + c].sig);
    for (int i = 0; i < np * per; ++i) { int n = 0; for (auto& s : seen) n += s[static_cast<size_t>(i)]; if (n != 1) vp::vfail(n ? "duplicated" : "lost", "value %d was handed over %d times", i, n); }
    VCHECK(!a.isLoaded(), "isLoaded", "an emptied air lock reports a value inside");
    vp::ev("bulk_runs");
}

// ---------------------------------------------------------------- work queue
using Prio = WorkQueue::WorkPriority;
struct WCase {
    struct B { int execs = 0; int inside = 0; int effect = 0; uint64_t order = 0; int type = 0; int cls = 0; int kid = -1; bool added = false; };
    std::vector<B> b;
    WorkQueue* wq = nullptr;
    int workers = 0;
    int closedFlag = 0;
};
void bodyOf(WCase& c, int id)
{
    WCase::B& b = c.b[static_cast<size_t>(id)];
    if (__atomic_load_n(&c.closedFlag, __ATOMIC_RELAXED)) vp::vfail("ran-after-close", "block %d runs although the queue was closed", id);
    __atomic_fetch_add(&b.execs, 1, __ATOMIC_RELAXED);
    __atomic_store_n(&b.inside, 1, __ATOMIC_RELAXED);
    uint64_t x = vp::mix64(static_cast<uint64_t>(id) * 977 + static_cast<uint64_t>(c.b.size()));
    if ((x & 7) == 0) sched_yield();
    if ((x & 63) == 1) usleep(30);
    b.order = __atomic_fetch_add(&orderCounter, 1ULL, __ATOMIC_RELAXED);
    b.effect += 1000 + id;
    __atomic_store_n(&b.inside, 0, __ATOMIC_RELAXED);
    tick();
}
struct RawBlock : BasicWorkBlock {
    WCase& c; int id; std::atomic<bool> fin;
    RawBlock(WCase& cc, int i, bool f) : c(cc), id(i), fin(f) {}
    void execute() override { bodyOf(c, id); fin.store(true, std::memory_order_release); }
    bool isFinished() const override { return fin.load(std::memory_order_acquire); }
};
Prio prioOf(int c) { static const Prio p[] = {Prio::medium, Prio::low, Prio::high, Prio::required}; return p[c & 3]; }
struct Made { std::shared_ptr<BasicWorkBlock> w; std::shared_ptr<WorkBlock<int>> wi; std::shared_ptr<WorkBlock<void>> wv; };
enum { W_RAW, W_INT, W_VOID, W_THROW, W_KID, W_FINISHED, W_NULL };
Made makeBlock(WCase& c, int id)
{
    Made m;
    WCase::B& b = c.b[static_cast<size_t>(id)];
    b.added = true;
    switch (b.type) {
        case W_INT: m.wi = make_shared_workBlock([&c, id]() { bodyOf(c, id); return id * 3 + 1; }); m.w = m.wi; break;
        case W_THROW: m.wi = make_shared_workBlock([&c, id]() -> int { bodyOf(c, id); throw std::runtime_error("x"); }); m.w = m.wi; break;
        case W_VOID: m.wv = make_shared_workBlock([&c, id]() { bodyOf(c, id); }); m.w = m.wv; break;
        case W_KID: m.wv = make_shared_workBlock([&c, id]() { bodyOf(c, id); int k = c.b[static_cast<size_t>(id)].kid; c.b[static_cast<size_t>(k)].added = true; c.wq->addWorkBlock(std::make_shared<RawBlock>(c, k, false), prioOf(k)); }); m.w = m.wv; break;
        case W_NULL: break;
        default: m.w = std::make_shared<RawBlock>(c, id, b.type == W_FINISHED);
    }
    return m;
}
void waitFor(WCase& c, int t, int id, Made& m, uint64_t r)
{
    WCase::B& b = c.b[static_cast<size_t>(id)];
    if (!m.w || b.type == W_FINISHED) return;
    auto effect = [&](const char* how) { if (b.effect != 1000 + id) vp::vfail("effect-missing", "block %d is done (%s) but its effect is %d", id, how, b.effect); };
    if (m.wi && (r & 1)) {
        bool threw = false;
        int v = -1;
        try { v = (r & 2) ? m.wi->getReturnVal() : m.wi->get_future().get(); } catch (const std::runtime_error&) { threw = true; }
        if (threw != (b.type == W_THROW) || (!threw && v != id * 3 + 1)) vp::vfail("result-wrong", "block %d delivered %d (exception %d)", id, v, threw);
        effect("result");
        cnt(t, "results_awaited");
        return;
    }
    if (m.wv && (r & 1)) {
        if (r & 2) m.wv->wait(); else if (r & 4) m.wv->getReturnVal(); else m.wv->get_future().get();
        effect("wait");
        cnt(t, "completions_awaited");
        return;
    }
    while (!m.w->isFinished()) sched_yield();
    effect("isFinished");
    cnt(t, "completions_polled");
    if (m.wi) {
        try { int v = m.wi->getReturnVal(); if (v != id * 3 + 1) vp::vfail("result-wrong", "block %d delivered %d", id, v); } catch (const std::runtime_error&) { if (b.type != W_THROW) vp::vfail("result-wrong", "block %d delivered an exception", id); }
    }
}
void runWork(vp::Rd& rd, bool early)
{
    WCase c;
    uint32_t hdr = rd.u8();
    static const int ws[] = {1, 2, 3, 4, 1, 2, 0, 3};
    c.workers = ws[hdr & 7];
    if (early && c.workers == 0) c.workers = 2;
    int na = 1 + static_cast<int>((hdr >> 3) % 3);
    bool observer = (hdr >> 5) & 1;
    struct A { std::vector<std::array<int, 3>> ops; };   // kind, first id, n
    std::vector<A> plan(static_cast<size_t>(na));
    auto mk = [&](bool batch, int cls) {
        WCase::B b;
        static const int ty[] = {W_RAW, W_RAW, W_INT, W_VOID, W_INT, W_THROW, W_KID, W_RAW};
        uint32_t r = rd.u8();
        b.type = ty[r & 7];
        b.cls = batch ? cls : static_cast<int>((r >> 3) & 3);
        if (((r >> 5) & 7) == 0) b.type = (r & 1) && b.cls != 3 ? W_FINISHED : W_NULL;
        if (c.workers == 0 && b.type == W_KID) b.type = W_VOID;
        int id = static_cast<int>(c.b.size());
        if (b.type == W_KID) b.kid = id + 1000;  // fixed up below
        c.b.push_back(b);
        vp::op(r);
        return id;
    };
    for (auto& a : plan) {
        int n = 2 + static_cast<int>(rd.below(10));
        for (int i = 0; i < n; ++i) {
            uint32_t k = rd.u8() & 7;
            if (k < 5) { int id = mk(false, 0); a.ops.push_back({0, id, 1}); }
            else if (k < 7) {
                int m = static_cast<int>(rd.below(5)), cls = static_cast<int>(rd.below(4));
                int first = static_cast<int>(c.b.size());
                for (int j = 0; j < m; ++j) mk(true, cls);
                a.ops.push_back({1, first, m * 4 + cls});
            } else { int ratio = static_cast<int>(rd.below(7)) - 1; a.ops.push_back({rd.chance(40) ? 3 : 2, ratio, 0}); }
        }
    }
    size_t roots = c.b.size();
    for (size_t i = 0; i < roots; ++i) if (c.b[i].kid >= 0) { c.b[i].kid = static_cast<int>(c.b.size()); c.b.push_back(WCase::B()); }
    uint64_t seed = rd.u64();
    c.wq = new WorkQueue(c.workers);
    int addersLeft = na;
    int nt = na + (observer ? 1 : 0);
    VTRACE("%d workers, %d adders, %zu blocks, close early %d", c.workers, na, c.b.size(), early);
    for (int t = 0; t < nt; ++t) slots[t].rng = seed + static_cast<uint64_t>(t) * 77777;
    for (int a = 0; a < na; ++a)
        slots[a].work = [&, a](int t) {
            std::vector<std::pair<int, Made>> mine;
            for (auto& o : plan[static_cast<size_t>(a)].ops) {
                uint64_t r = vp::mix64(++slots[t].rng);
                if (o[0] == 0) {
                    Made m = makeBlock(c, o[1]);
                    c.wq->addWorkBlock(m.w, prioOf(c.b[static_cast<size_t>(o[1])].cls));
                    mine.emplace_back(o[1], m);
                } else if (o[0] == 1) {
                    std::vector<std::shared_ptr<BasicWorkBlock>> v;
                    for (int j = 0; j < o[2] / 4; ++j) { Made m = makeBlock(c, o[1] + j); v.push_back(m.w); mine.emplace_back(o[1] + j, m); }
                    c.wq->addWorkBlock(v, prioOf(o[2] & 3));
                } else if (o[0] == 3) {
                    auto w = c.wq->getWorkBlock();
                    if (w) { cnt(t, "fetched_by_clients"); if (!w->isFinished()) w->execute(); }
                } else c.wq->setPriorityRatio(o[1]);
                tick();
                dither(t);
                if (!early && !mine.empty() && (r & 3) == 0) { auto& x = mine[(r >> 8) % mine.size()]; waitFor(c, t, x.first, x.second, r >> 16); }
            }
            if (!early) for (auto& x : mine) waitFor(c, t, x.first, x.second, vp::mix64(++slots[t].rng));
            __atomic_fetch_sub(&addersLeft, 1, __ATOMIC_RELEASE);
        };
    if (observer)
        slots[na].work = [&](int t) {
            uint64_t n = 0;
            while (__atomic_load_n(&addersLeft, __ATOMIC_RELAXED) > 0) {
                (void)c.wq->isEmpty();
                size_t s = c.wq->numBlock();
                if (s > c.b.size() + 16) vp::vfail("num-block", "numBlock is %zu", s);
                if (c.wq->getWorkerCount() != c.workers) vp::vfail("worker-count", "getWorkerCount is %d", c.wq->getWorkerCount());
                ++n;
                dither(t);
            }
            cnt(t, "observations", n);
        };
    bool closing = false;
    probe = [&]() { return std::string(closing ? "closing the work queue does not come to an end" : c.wq->isEmpty() ? "threads wait for a block that is neither pending nor finished" : "work is pending but no worker takes it"); };
    runThreads(nt, nullptr);
    __atomic_store_n(&phase, 1, __ATOMIC_RELAXED);
    if (!early) {
        // blocks nobody waited for (added by other blocks): every one of them runs
        for (size_t i = 0; i < c.b.size(); ++i) {
            bool runs = c.b[i].type != W_FINISHED && c.b[i].type != W_NULL;
            while (runs && __atomic_load_n(&c.b[i].execs, __ATOMIC_RELAXED) == 0) sched_yield();  // the watchdog ends this if it never does
        }
    }
    closing = true;
    if (hdr & 0x40) { c.wq->closeWorkerQueue(); vp::ev("closed_explicitly"); if (c.wq->getWorkerCount() != 0) vp::vfail("worker-count", "a closed queue has workers"); if (c.wq->numBlock() != 0 || !c.wq->isEmpty()) vp::vfail("closed-not-empty", "a closed queue reports %zu waiting blocks, isEmpty %d", c.wq->numBlock(), c.wq->isEmpty()); if (hdr & 0x80) { __atomic_store_n(&c.closedFlag, 1, __ATOMIC_RELAXED); } }
    delete c.wq;
    __atomic_store_n(&c.closedFlag, 1, __ATOMIC_RELAXED);
    __atomic_store_n(&phase, 0, __ATOMIC_RELAXED);
    vp::ev("queues_destroyed");
    {
        std::vector<std::pair<uint64_t, int>> o;
        for (size_t i = 0; i < c.b.size(); ++i) if (c.b[i].execs) o.emplace_back(c.b[i].order, static_cast<int>(i));
        std::sort(o.begin(), o.end());
        for (auto& x : o) vp::sigmix(static_cast<uint64_t>(x.second));
    }
    for (size_t i = 0; i < c.b.size(); ++i) {
        const auto& b = c.b[i];
        int x = __atomic_load_n(&b.execs, __ATOMIC_RELAXED);
        bool runs = b.type != W_FINISHED && b.type != W_NULL;
        if (__atomic_load_n(&b.inside, __ATOMIC_RELAXED)) vp::vfail("not-finished", "the queue is destroyed but block %zu is still running", i);
        if (x > 1) vp::vfail("executed-twice", "block %zu ran %d times", i, x);
        if (x && !runs) vp::vfail("finished-executed", "block %zu was finished already but ran", i);
        if (!early && runs && x != 1) vp::vfail("not-executed", "block %zu never ran", i);
        if (x && b.effect != 1000 + static_cast<int>(i)) vp::vfail("effect-missing", "block %zu has effect %d", i, b.effect);
        vp::ev(x ? "blocks_executed" : runs ? "blocks_dropped" : "blocks_skipped");
    }
}
}  // namespace

void engineInit()
{
    stuckSecs = vp::S().param("stuck", 25);
    for (auto& g : goSem) sem_init(&g, 0, 0);
    sem_init(&doneSem, 0, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_t t;
    for (intptr_t i = 0; i < NT; ++i) pthread_create(&t, &a, poolMain, reinterpret_cast<void*>(i));
    pthread_create(&t, &a, watchMain, nullptr);
}
void runCase(vp::Rd& rd)
{
    static const std::string m = vp::S().mode;
    static int focus = vp::S().param("focus", 0), elem = vp::S().param("elem", 0);
    // elem 2: another mutex and condition variable type
    using TM = std::timed_mutex;
    using CA = std::condition_variable_any;
    auto go = [&](auto plain, auto moveOnly, auto otherLock) { if (elem == 2) otherLock(); else if (elem) moveOnly(); else plain(); };
    if (m == "simple") {
        if (focus) go([&] { runBulk<SIMPLE, Tok, SimpleQueue<Tok>>(rd); }, [&] { runBulk<SIMPLE, MTok, SimpleQueue<MTok>>(rd); }, [&] { runBulk<SIMPLE, MTok, SimpleQueue<MTok, TM>>(rd); });
        else go([&] { runHistory<SIMPLE, Tok, SimpleQueue<Tok>>(rd); }, [&] { runHistory<SIMPLE, MTok, SimpleQueue<MTok>>(rd); }, [&] { runHistory<SIMPLE, MTok, SimpleQueue<MTok, TM>>(rd); });
    } else if (m == "blocking") {
        if (focus) go([&] { runBulk<BLOCKING, Tok, BlockingQueue<Tok>>(rd); }, [&] { runBulk<BLOCKING, MTok, BlockingQueue<MTok>>(rd); }, [&] { runBulk<BLOCKING, MTok, BlockingQueue<MTok, TM, CA>>(rd); });
        else go([&] { runHistory<BLOCKING, Tok, BlockingQueue<Tok>>(rd); }, [&] { runHistory<BLOCKING, MTok, BlockingQueue<MTok>>(rd); }, [&] { runHistory<BLOCKING, MTok, BlockingQueue<MTok, TM, CA>>(rd); });
    } else if (m == "priority") {
        if (focus) go([&] { runBulk<PRIORITY, Tok, BlockingPriorityQueue<Tok>>(rd); }, [&] { runBulk<PRIORITY, MTok, BlockingPriorityQueue<MTok>>(rd); }, [&] { runBulk<PRIORITY, MTok, BlockingPriorityQueue<MTok, TM, CA>>(rd); });
        else go([&] { runHistory<PRIORITY, Tok, BlockingPriorityQueue<Tok>>(rd); }, [&] { runHistory<PRIORITY, MTok, BlockingPriorityQueue<MTok>>(rd); }, [&] { runHistory<PRIORITY, MTok, BlockingPriorityQueue<MTok, TM, CA>>(rd); });
    } else if (m == "airlock") {
        if (focus) go([&] { runAirBulk<Tok>(rd); }, [&] { runAirBulk<MTok>(rd); }, [&] { runAirBulk<MTok, AirLock<MTok, TM, CA>>(rd); });
        else go([&] { runAirHistory<Tok>(rd); }, [&] { runAirHistory<MTok>(rd); }, [&] { runAirHistory<MTok, AirLock<MTok, TM, CA>>(rd); });
    } else if (m == "work") runWork(rd, focus == 1);
    else { fprintf(stderr, "unknown mode %s\n", m.c_str()); exit(3); }
}
