// Work queue under the cooperative scheduler: exactly once, priorities, shutdown, wakeups.
#define VP_NO_MAIN
#include "conc.hpp"

namespace conc {
namespace {
using Prio = WorkQueue::WorkPriority;
enum Type { T_PLAIN, T_INT, T_VOID, T_THROW, T_FINISHED, T_NULL, T_TASK };
struct Case;
struct BP {
    int cls = 0;       // 0 medium, 1 low, 2 high, 3 required
    int type = T_PLAIN;
    bool gated = false;
    int points = 0;
    std::vector<int> children;   // added (singly) by the block while it runs
    int newRatio = 0;            // set by the block while it runs (0: no)
    int chain = 0;               // keeps adding successors (-1: for ever)
    bool cancelled = false;      // somebody else marks it as finished while it waits (its worker being held back)
    bool keep = false;           // the harness keeps a reference and inspects the block later
};
inline long liveBlocks = 0;
struct Case {
    std::vector<BP> bp;
    std::vector<std::shared_ptr<BasicWorkBlock>> made;   // by id, created by whoever adds it
    std::vector<int> effect;                             // plain memory written by the block
    std::vector<std::shared_future<int>> fut;
    WorkQueue* wq = nullptr;
    int workers = 0;
    bool dtorOnly = false, closed = false;
    vps::Mutex gm;
    vps::CondVar gate;
    bool open = false, started = false;
    bool probeQueries = true;
    int* execCount = nullptr;
};
struct Probe { Probe() { __atomic_fetch_add(&liveBlocks, 1L, __ATOMIC_RELAXED); } Probe(const Probe&) : Probe() {} ~Probe() { __atomic_fetch_sub(&liveBlocks, 1L, __ATOMIC_RELAXED); } };
Prio prioOf(int c) { static const Prio p[] = {Prio::medium, Prio::low, Prio::high, Prio::required}; return p[c]; }
void addOne(Case& c, int id);

struct Chain : BasicWorkBlock {  // adds a successor whenever it runs, until somebody stops it
    Case& c; int left; Prio pr; std::atomic<bool> fin{false}; Probe live;
    Chain(Case& cc, int l, Prio p) : c(cc), left(l), pr(p) {}
    void execute() override
    {
        vps::count("chain_executions");
        if (left != 0) c.wq->addWorkBlock(std::make_shared<Chain>(c, left < 0 ? left : left - 1, pr), pr);
        fin = true;
    }
    bool isFinished() const override { return fin; }
};
void body(Case& c, int id)
{
    const BP& b = c.bp[static_cast<size_t>(id)];
    int h = vps::opBegin(EXEC, id, b.cls);
    for (int i = 0; i < b.points; ++i) vps::point(10, nullptr);
    if (b.gated) {
        std::unique_lock<vps::Mutex> l(c.gm);
        c.started = true;
        c.gate.notify_all();
        while (!c.open) c.gate.wait(l);
    }
    for (int k : b.children) addOne(c, k);
    if (b.newRatio) { int g = vps::opBegin(RATIO, b.newRatio); c.wq->setPriorityRatio(b.newRatio); vps::opEnd(g, 0); }
    if (b.chain) c.wq->addWorkBlock(std::make_shared<Chain>(c, b.chain, prioOf(b.cls)), prioOf(b.cls));
    c.effect[static_cast<size_t>(id)] += 1000 + id;   // plain memory: visible to whoever sees the block finished
    vps::opEnd(h, 0);
}
struct Plain : BasicWorkBlock {
    Case& c; int id; std::atomic<bool> fin; Probe live;
    Plain(Case& cc, int i, bool f) : c(cc), id(i), fin(f) {}
    void execute() override { body(c, id); fin = true; }
    bool isFinished() const override { return fin; }
};
std::shared_ptr<BasicWorkBlock> make(Case& c, int id)
{
    const BP& b = c.bp[static_cast<size_t>(id)];
    Probe p;
    std::shared_ptr<BasicWorkBlock> r;
    switch (b.type) {
        case T_INT: case T_THROW: {
            bool thr = b.type == T_THROW;
            auto w = make_shared_workBlock([&c, id, p, thr]() -> int { body(c, id); if (thr) throw std::runtime_error("block"); return id * 3 + 1; });
            c.fut[static_cast<size_t>(id)] = w->get_future();
            r = w;
            break;
        }
        case T_TASK: {
            auto w = make_shared_workBlock(std::packaged_task<int()>([&c, id, p]() { body(c, id); return id * 3 + 1; }));
            c.fut[static_cast<size_t>(id)] = w->get_future();
            r = w;
            break;
        }
        case T_VOID: r = make_shared_workBlock([&c, id, p]() { body(c, id); }); break;
        case T_NULL: return nullptr;
        default: r = std::make_shared<Plain>(c, id, b.type == T_FINISHED);
    }
    if (b.keep) c.made[static_cast<size_t>(id)] = r;
    return r;
}
void addOne(Case& c, int id)
{
    auto w = make(c, id);
    int cls = c.bp[static_cast<size_t>(id)].cls;
    int h = vps::opBegin(ADD, id, cls);
    if (cls == 0 && (id & 1)) c.wq->addWorkBlock(std::move(w));
    else c.wq->addWorkBlock(std::move(w), prioOf(cls));
    vps::opEnd(h, 0);
}
struct AddOp { int kind; std::vector<int> ids; int n; };  // 0 single, 1 batch, 2 query, 3 ratio, 4 poll a kept block, 5 wait until the worker is held, 6 fetch a block and run it here, 7 finish a waiting block
struct Adder { Case* c; std::vector<AddOp> ops; };
void pollBlock(Case& c, int id)
{
    auto& w = c.made[static_cast<size_t>(id)];
    if (!w) return;
    for (int i = 0; i < 40; ++i) {
        if (w->isFinished()) {
            vps::count("poll_saw_finished");
            if (c.effect[static_cast<size_t>(id)] != 1000 + id) vps::fail("effect-missing", "block %d reports finished but its effect is %d", id, c.effect[static_cast<size_t>(id)]);
            auto& f = c.fut[static_cast<size_t>(id)];
            if (f.valid()) {
                if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) vps::fail("result-missing", "block %d reports finished but its future is not ready", id);
                bool threw = false;
                int v = -1;
                try { v = f.get(); } catch (const std::runtime_error&) { threw = true; }
                bool expectThrow = c.bp[static_cast<size_t>(id)].type == T_THROW;
                if (threw != expectThrow || (!threw && v != id * 3 + 1)) vps::fail("result-wrong", "block %d delivered %d (exception %d)", id, v, threw);
                vps::count("results_fetched");
            }
            return;
        }
        vps::point(9, nullptr);
    }
    vps::count("poll_gave_up");
}
void adderMain(void* p)
{
    auto* a = static_cast<Adder*>(p);
    Case& c = *a->c;
    for (auto& o : a->ops) {
        switch (o.kind) {
            case 0: addOne(c, o.ids[0]); break;
            case 1: {
                std::vector<std::shared_ptr<BasicWorkBlock>> v;
                std::vector<int> hs;
                for (int id : o.ids) v.push_back(make(c, id));
                for (int id : o.ids) hs.push_back(vps::opBegin(ADD, id, c.bp[static_cast<size_t>(id)].cls));
                c.wq->addWorkBlock(v, prioOf(o.n));
                for (int h : hs) vps::opEnd(h, 1);
                vps::count("batches");
                break;
            }
            case 2: {
                (void)c.wq->isEmpty();
                size_t n = c.wq->numBlock();
                if (n > c.bp.size() + 8) vps::fail("num-block", "numBlock reports %zu", n);
                int w = c.wq->getWorkerCount();
                if (w != c.workers) vps::fail("worker-count", "getWorkerCount reports %d of %d workers", w, c.workers);
                break;
            }
            case 5: {
                std::unique_lock<vps::Mutex> l(c.gm);
                while (!c.started) c.gate.wait(l);
                break;
            }
            case 6: {
                auto w = c.wq->getWorkBlock();
                if (w) { vps::count("fetched_by_clients"); if (!w->isFinished()) w->execute(); }
                break;
            }
            case 7: if (auto& w = c.made[static_cast<size_t>(o.ids[0])]) { static_cast<Plain*>(w.get())->fin = true; vps::count("finished_while_waiting"); } break;
            case 3: { int g = vps::opBegin(RATIO, o.n); c.wq->setPriorityRatio(o.n); vps::opEnd(g, 0); break; }
            default: pollBlock(c, o.ids[0]);
        }
    }
}
struct Owner { Case* c; int ctorArg; std::vector<Adder>* adders; bool close; std::vector<int> ids; };
void closeQueue(Case& c)
{
    if (!c.dtorOnly) {
        c.wq->closeWorkerQueue();
        c.closed = true;
        if (c.wq->getWorkerCount() != 0) vps::fail("worker-count", "a closed queue reports %d workers", c.wq->getWorkerCount());
        // running blocks may have added work meanwhile: it is dropped like the rest
        if (c.wq->numBlock() != 0 || !c.wq->isEmpty()) vps::fail("closed-not-empty", "a closed queue reports %zu waiting blocks, isEmpty %d", c.wq->numBlock(), c.wq->isEmpty());
        vps::count("closed_explicitly");
    }
    delete c.wq;
    c.wq = nullptr;
    c.closed = true;
    vps::count("queues_destroyed");
}
void closerMain(void* p) { closeQueue(*static_cast<Case*>(p)); }
void openMain(void* p)
{
    auto* c = static_cast<Case*>(p);
    std::unique_lock<vps::Mutex> l(c->gm);
    c->open = true;
    c->gate.notify_all();
}
void ownerMain(void* p)
{
    auto* o = static_cast<Owner*>(p);
    Case& c = *o->c;
    c.wq = new WorkQueue(o->ctorArg);
    std::vector<int> ids;
    for (size_t i = 1; i < o->adders->size(); ++i) ids.push_back(vps::tSpawn(&adderMain, &(*o->adders)[i]));
    if (!o->adders->empty()) adderMain(&(*o->adders)[0]);
    for (int id : ids) vps::tJoin(id);
    if (o->close) closeQueue(c);
}

struct Ev { bool added = false; uint32_t addInv = 0, addRet = 0xffffffffu, begin = 0, end = 0; int execs = 0; };
std::vector<Ev> collect(const Case& c)
{
    std::vector<Ev> e(c.bp.size());
    for (int i = 0; i < vps::historySize(); ++i) {
        const vps::HOp& o = vps::history(i);
        if (o.kind == ADD) { Ev& x = e[static_cast<size_t>(o.arg)]; x.added = true; x.addInv = o.inv; x.addRet = o.ret; }
        if (o.kind == EXEC) { Ev& x = e[static_cast<size_t>(o.arg)]; ++x.execs; x.begin = o.inv; x.end = o.ret; }
    }
    return e;
}
bool runs(const BP& b) { return !b.cancelled && b.type != T_FINISHED && b.type != T_NULL; }

/// single worker whose work is all added while it is held back (or by itself): the order is fully determined by the rules
void checkOrder(const Case& c, const std::vector<Ev>& e, int ratio0, bool counted)
{
    std::vector<int> ord;
    for (size_t i = 0; i < e.size(); ++i) if (e[i].execs) ord.push_back(static_cast<int>(i));
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return e[static_cast<size_t>(a)].begin < e[static_cast<size_t>(b)].begin; });
    std::vector<std::pair<uint32_t, int>> ratios;
    ratios.emplace_back(0, ratio0);
    for (int i = 0; i < vps::historySize(); ++i) if (vps::history(i).kind == RATIO) ratios.emplace_back(vps::history(i).ret, vps::history(i).arg > 0 ? vps::history(i).arg : defaultPriorityRatio);
    std::sort(ratios.begin(), ratios.end());
    int med = -1;           // medium blocks since the last low one in the current period, -1: no period
    bool first = true;
    int lastRatio = -1;
    auto clsOf = [&](int id) { int k = c.bp[static_cast<size_t>(id)].cls; return k == 3 ? 2 : k; };
    for (size_t n = 0; n < ord.size(); ++n) {
        int id = ord[n];
        if (id == 0) continue;  // the block that holds the worker back
        uint32_t t = e[static_cast<size_t>(id)].begin;
        int ratio = ratio0;
        size_t epoch = 0;
        for (size_t i = 0; i < ratios.size(); ++i) if (ratios[i].first < t) { ratio = ratios[i].second; epoch = i; }
        if (static_cast<int>(epoch) != lastRatio) { med = -1; lastRatio = static_cast<int>(epoch); }
        int oldest[3] = {-1, -1, -1};
        for (size_t i = 0; i < e.size(); ++i) {
            if (!e[i].added || !runs(c.bp[i]) || e[i].addRet >= t) continue;
            if (e[i].execs && e[i].begin < t) continue;
            int k = clsOf(static_cast<int>(i));
            if (oldest[k] < 0 || e[i].addInv < e[static_cast<size_t>(oldest[k])].addInv) oldest[k] = static_cast<int>(i);
        }
        int k = clsOf(id);
        if (oldest[k] != id) { traceHistory(); vp::vfail("order-in-class", "block %d ran before block %d, which was added earlier with the same priority", id, oldest[k]); }
        if (k != 2 && oldest[2] >= 0) { traceHistory(); vp::vfail("high-not-first", "block %d (%s) ran while high priority block %d was pending", id, k ? "low" : "medium", oldest[2]); }
        if (k == 2) { vp::ev("picked_high"); continue; }
        if (!counted) continue;   // skipped blocks may or may not count
        bool both = oldest[0] >= 0 && oldest[1] >= 0;
        if (!both) { med = -1; vp::ev(k ? "picked_low_only" : "picked_medium_only"); continue; }
        if (med < 0) { med = 0; first = true; }
        if (k == 0) {
            if (++med > ratio) { traceHistory(); vp::vfail("ratio", "%d medium blocks in a row ran while a low one was pending (ratio %d)", med, ratio); }
            vp::ev("picked_medium_both");
        } else {
            if (!first && med != ratio) { traceHistory(); vp::vfail("ratio", "%d medium blocks ran between two low ones while both kinds were pending (ratio %d)", med, ratio); }
            first = false;
            med = 0;
            vp::ev("picked_low_both");
        }
        vp::state(static_cast<uint64_t>(k * 64 + med * 128 + ratio * 4096 + (first ? 1 : 0)));
    }
}
}  // namespace

void workCase(vp::Rd& rd)
{
    static int focus = vp::S().param("focus", 0);
    static int types = vp::S().param("types", 1);   // 1: also WorkBlock<..> objects, null and finished blocks; 0: the block count is exact
    vps::Config cfg = decodeConfig(rd, focus == 2 || focus == 3);
    if (focus == 3) cfg.spurious = 0;
    cfg.stepLimit = 200000;
    uint32_t hdr = rd.u8();
    vps::beginCase(cfg);
    long live0 = liveBlocks;
    {
        Case c;
        int ctorArg;
        int nAdders;
        if (focus == 1) { ctorArg = 1; nAdders = 1; }
        else {
            static const int ws[] = {1, 2, 3, 2, 1, 0, 3, -1};
            ctorArg = ws[hdr & 7];
            if (ctorArg == 0 && focus >= 2 && rd.chance(70)) ctorArg = 2;
            nAdders = 1 + static_cast<int>((hdr >> 3) % 3);
        }
        c.workers = ctorArg < 0 ? 4 : ctorArg;
        c.dtorOnly = (hdr >> 6) & 1;
        bool close = focus == 2 || (focus == 0 && (hdr & 0x80) && (hdr & 1) && false);
        bool gates = focus == 1 || (focus != 0 ? rd.chance(50) : rd.chance(25));
        if (c.workers == 0) gates = false;
        std::vector<Adder> adders(static_cast<size_t>(nAdders));
        bool helped = false, cancels = false;
        auto newBlock = [&](int depth) {
            BP b;
            uint32_t r = rd.u8();
            static const int cl[] = {0, 1, 2, 0, 1, 0, 1, 3};
            b.cls = cl[r & 7];
            if (focus == 1 && (r & 7) == 2 && (r & 8)) b.cls = 1;
            r >>= 3;
            static const int ty[] = {T_PLAIN, T_PLAIN, T_INT, T_VOID, T_PLAIN, T_THROW, T_TASK, T_PLAIN};
            b.type = types ? ty[r & 7] : T_PLAIN;
            uint32_t q = rd.u8();
            if (types && focus != 1 && (q & 15) == 0 && b.cls != 3) b.type = T_FINISHED;  // "required" work is documented to be scheduled in any case
            if (types && focus != 1 && (q & 15) == 1) b.type = T_NULL;
            b.points = static_cast<int>((q >> 4) & 3);
            b.gated = gates && focus != 1 && (q & 0xC0) == 0x40 && depth == 0;
            b.keep = focus == 0 && (q & 0x80);
            if (focus == 1 && (q & 31) == 3) { static const int rs[] = {1, 2, 3, -1, 6, 4, 2, 1}; b.newRatio = rs[rd.below(8)]; }
            c.bp.push_back(b);
            return static_cast<int>(c.bp.size()) - 1;
        };
        int room = focus == 1 ? 40 : 24;
        for (int a = 0; a < nAdders; ++a) {
            adders[static_cast<size_t>(a)].c = &c;
            auto& ops = adders[static_cast<size_t>(a)].ops;
            if (focus == 1) {
                BP g; g.cls = static_cast<int>(rd.below(4)); g.gated = true;
                c.bp.push_back(g);
                ops.push_back({0, {0}, 0});
                ops.push_back({5, {}, 0});
            }
            int n = focus == 1 ? 3 + static_cast<int>(rd.below(18)) : 1 + static_cast<int>(rd.below(6));
            for (int i = 0; i < n && static_cast<int>(c.bp.size()) < room; ++i) {
                uint32_t k = rd.u8() & 15;
                if (k < 10) {
                    int id = newBlock(0);
                    if (rd.chance(focus == 1 ? 15 : 20) && static_cast<int>(c.bp.size()) < room) {
                        int kids = 1 + static_cast<int>(rd.below(2));
                        for (int q = 0; q < kids; ++q) { int kid = newBlock(1); c.bp[static_cast<size_t>(id)].children.push_back(kid); }
                    }
                    if (!runs(c.bp[static_cast<size_t>(id)])) c.bp[static_cast<size_t>(id)].children.clear();
                    if (focus == 2 && rd.chance(10) && runs(c.bp[static_cast<size_t>(id)]) && c.workers > 0) c.bp[static_cast<size_t>(id)].chain = rd.chance(50) ? -1 : 3;
                    ops.push_back({0, {id}, 0});
                    VTRACE("plan a%d add#%d cls%d type%d%s kids%zu chain%d", a, id, c.bp[static_cast<size_t>(id)].cls, c.bp[static_cast<size_t>(id)].type, c.bp[static_cast<size_t>(id)].gated ? " gated" : "", c.bp[static_cast<size_t>(id)].children.size(), c.bp[static_cast<size_t>(id)].chain);
                } else if (k < 13) {
                    AddOp o{1, {}, static_cast<int>(rd.below(4))};
                    int m = static_cast<int>(rd.below(5));
                    for (int q = 0; q < m; ++q) { int id = newBlock(0); BP& nb = c.bp[static_cast<size_t>(id)]; nb.cls = o.n; if (o.n == 3 && nb.type == T_FINISHED) nb.type = T_PLAIN; o.ids.push_back(id); }
                    VTRACE("plan a%d batch of %d cls%d from #%d", a, m, o.n, m ? o.ids[0] : -1);
                    ops.push_back(o);
                } else if (k == 13 && focus == 1 && types && rd.chance(40)) {
                    // a block of this adder that still waits is finished by somebody else
                    std::vector<int> mine;
                    bool fetched = false;
                    for (auto& o : ops) { fetched |= o.kind == 6; if (o.kind == 0) for (int id : o.ids) { BP& x = c.bp[static_cast<size_t>(id)]; if (id && x.type == T_PLAIN && x.cls != 3 && !x.cancelled && x.children.empty() && !x.newRatio && !x.chain) mine.push_back(id); } }
                    if (!mine.empty() && !fetched) {
                        int id = mine[rd.below(static_cast<uint32_t>(mine.size()))];
                        cancels = true;
                        c.bp[static_cast<size_t>(id)].cancelled = c.bp[static_cast<size_t>(id)].keep = true;
                        ops.push_back({7, {id}, 0});
                        VTRACE("plan a%d finish #%d", a, id);
                    }
                } else if (k == 13) { bool help = focus != 2 && rd.chance(50); helped |= help; ops.push_back({help ? 6 : 2, {}, 0}); if (help) VTRACE("plan a%d fetch", a); }
                else if (k == 14) { static const int rs[] = {1, 2, 3, -1, 6, 0, 2, 1}; ops.push_back({3, {}, rs[rd.below(8)]}); }
                else if (!c.bp.empty() && focus == 0) {
                    // poll one of this adder's own earlier blocks
                    std::vector<int> mine;
                    for (auto& o : ops) if (o.kind <= 1) for (int id : o.ids) if (runs(c.bp[static_cast<size_t>(id)]) && c.bp[static_cast<size_t>(id)].keep) mine.push_back(id);
                    if (!mine.empty()) ops.push_back({4, {mine[rd.below(static_cast<uint32_t>(mine.size()))]}, 0});
                }
                vp::op(k * 8 + static_cast<uint64_t>(a));
            }
            // finish by polling what was kept
            if (focus == 0) for (size_t i = 0, m = ops.size(); i < m; ++i) if (ops[i].kind == 0 && c.bp[static_cast<size_t>(ops[i].ids[0])].keep && runs(c.bp[static_cast<size_t>(ops[i].ids[0])])) ops.push_back({4, ops[i].ids, 0});
        }
        for (auto& b : c.bp) if (b.type == T_NULL || b.type == T_FINISHED) b.gated = false;
        c.made.resize(c.bp.size());
        c.effect.assign(c.bp.size(), 0);
        c.fut.resize(c.bp.size());
        Owner ow{&c, ctorArg, &adders, close, {}};
        vps::spawn(&ownerMain, &ow, 0);
        VTRACE("workers %d close %d dtor %d", ctorArg, close, c.dtorOnly);
        bool closing = false;
        int rounds = 0;
        for (;;) {
            vps::Result r = vps::run();
            if (r == vps::FAILED) failFromSched();
            if (r == vps::STEPLIMIT) { traceHistory(); vp::vfail(focus == 2 ? "close-hangs" : "livelock", "no end after %llu scheduling steps%s", static_cast<unsigned long long>(vps::steps()), focus == 2 ? ": closing the queue does not come to an end" : ""); }
            if (r == vps::DONE && (closing || close)) break;
            if (++rounds > 60) vp::vfail("harness", "too many rounds");
            int idle = 0, gated = 0, other = 0, who = -1;
            bool ownerDone = vps::info(0).state == vps::FINISHED;
            for (int i = 0; i < vps::fiberCount(); ++i) {
                auto f = vps::info(i);
                if (f.state == vps::FINISHED) continue;
                if ((f.state == vps::ON_CV || f.state == vps::ON_CV_TIMED) && f.obj == static_cast<const void*>(&c.gate)) ++gated;
                else if (f.state == vps::ON_CV || f.state == vps::ON_CV_TIMED) ++idle;
                else if (f.state != vps::ON_JOIN) { ++other; who = i; }
            }
            if (other) { traceHistory(); vp::vfail("deadlock", "thread %d is blocked forever on a lock", who); }
            bool inClose = closing || (close && (c.closed || vps::info(0).state == vps::ON_JOIN));
            if (ownerDone) vps::endCase();
            if (focus == 1 && !c.started && !inClose) { vps::jumpTime(); vps::count("worker_started_by_timeout"); continue; }
            auto e = collect(c);
            int pending = -1, npending = 0;
            for (size_t i = 0; i < e.size(); ++i) if (e[i].added && e[i].addRet != 0xffffffffu && runs(c.bp[i]) && !e[i].execs) { pending = static_cast<int>(i); ++npending; }
            // threads that wait for the adders to finish are not shutting down yet
            if (!inClose || (close && vps::info(0).state == vps::ON_JOIN && npending && !c.closed && false)) {
                if (idle && npending) { traceHistory(); vp::vfail("idle-worker", "%d worker(s) sleep although %d block(s), e.g. #%d, are waiting and nothing else can run", idle, npending, pending); }
            }
            if (gated) {
                if (c.wq && !inClose && ownerDone) {
                    if (c.wq->numBlock() != static_cast<size_t>(npending) && types == 0) { traceHistory(); vp::vfail("num-block", "numBlock reports %zu with %d blocks pending", c.wq->numBlock(), npending); }
                    if (npending && c.wq->isEmpty()) { traceHistory(); vp::vfail("num-block", "isEmpty with %d blocks pending", npending); }
                }
                vps::count("gates_opened");
                vps::spawn(&openMain, &c, 50);
                continue;
            }
            if (inClose) { traceHistory(); vp::vfail("close-hangs", "closing the queue waits although nothing is running (%d worker(s) asleep)", idle); }
            if (!ownerDone) { traceHistory(); vp::vfail("deadlock", "the adding threads do not get to an end"); }
            // quiet: everything was executed
            if (npending) { traceHistory(); vp::vfail("not-executed", "block %d was added but never ran (%d workers)", pending, c.workers); }
            if (c.wq->numBlock() != 0 || !c.wq->isEmpty()) { traceHistory(); vp::vfail("num-block", "everything ran, but numBlock is %zu and isEmpty %d", c.wq->numBlock(), c.wq->isEmpty()); }
            vps::endCase();
            closing = true;
            vps::count("quiet_before_close");
            vps::spawn(&closerMain, &c, 60);
        }
        vps::endCase();
        if (vps::historySize() < 0) vp::ev("history_overflow");
        auto e = collect(c);
        for (size_t i = 0; i < e.size(); ++i) {
            const BP& b = c.bp[i];
            if (e[i].execs > 1) { traceHistory(); vp::vfail("executed-twice", "block %zu ran %d times", i, e[i].execs); }
            if (e[i].execs && !runs(b)) { traceHistory(); vp::vfail("finished-executed", "block %zu was already finished but ran", i); }
            if (e[i].execs && e[i].end == 0xffffffffu) { traceHistory(); vp::vfail("not-finished", "the queue is closed but block %zu is still running", i); }
            if (!close && e[i].added && runs(b) && e[i].execs != 1) { traceHistory(); vp::vfail("not-executed", "block %zu was added but never ran", i); }
            if (e[i].execs && c.effect[i] != 1000 + static_cast<int>(i)) vp::vfail("effect-missing", "block %zu has effect %d", i, c.effect[i]);
            if (e[i].added) vp::ev(e[i].execs ? "blocks_executed" : runs(b) ? "blocks_dropped" : "blocks_skipped");
            auto& w = c.made[i];
            if (w && e[i].execs && !w->isFinished()) vp::vfail("not-finished", "block %zu ran but does not report finished", i);
        }
        if (focus == 1) checkOrder(c, e, defaultPriorityRatio, !cancels);
        if (c.workers == 1 && focus != 1 && !helped) {
            // one worker: blocks of one class start in the order in which they were added
            for (size_t i = 0; i < e.size(); ++i)
                for (size_t j = 0; j < e.size(); ++j) {
                    int ki = c.bp[i].cls == 3 ? 2 : c.bp[i].cls, kj = c.bp[j].cls == 3 ? 2 : c.bp[j].cls;
                    if (i != j && ki == kj && e[i].execs && e[j].execs && e[i].addRet < e[j].addInv && e[i].begin > e[j].begin) { traceHistory(); vp::vfail("order-in-class", "block %zu ran before block %zu, which was added earlier with the same priority", j, i); }
                }
        }
        vp::evmax("blocks_in_a_case", c.bp.size());
    }
    finishCase();
    VCHECK(liveBlocks == live0, "block-balance", "%ld work block(s) alive after the queue was destroyed", liveBlocks - live0);
}
}  // namespace conc
