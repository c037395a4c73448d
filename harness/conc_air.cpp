// Air lock under the cooperative scheduler: a one-place buffer.
#define VP_NO_MAIN
#include "conc.hpp"

namespace conc {
namespace {
enum ACode { A_TRYLOAD, A_TRYLOADCOPY, A_LOAD, A_UNLOAD, A_ISLOADED };
struct AOp { int code; int id; };
template<class A> struct APlan { A* a; std::vector<AOp> ops; };
template<class A> void doUnload(A& a)
{
    int h = vps::opBegin(UNLOAD, 0);
    auto v = a.try_unload();
    int r = v ? v->read() : -1;
    if (v && r < 0) vps::fail("payload", "try_unload delivered a value %s", r == -5 ? "that was already moved from" : "whose content is not what was loaded");
    vps::opEnd(h, r);
    vps::count(v ? "unload_ok" : "unload_refused");
}
template<class E, class A> void airFiber(void* p)
{
    auto* f = static_cast<APlan<A>*>(p);
    A& a = *f->a;
    for (auto& o : f->ops) {
        switch (o.code) {
            case A_TRYLOAD: case A_TRYLOADCOPY: {
                E e(o.id);
                int h = vps::opBegin(TRYLOAD, o.id);
                bool ok;
                if (o.code == A_TRYLOADCOPY) {
                    if constexpr (E::copyable) { const E& c = e; ok = a.try_load(c); if (c.read() != o.id) vps::fail("payload", "try_load of a constant changed the caller's object"); }
                    else ok = a.try_load(std::move(e));
                } else ok = a.try_load(std::move(e));
                vps::opEnd(h, ok);
                if (!ok && e.read() != o.id) vps::fail("refused-value-taken", "a refused try_load took the caller's value");
                vps::count(ok ? "try_load_ok" : "try_load_refused");
                break;
            }
            case A_LOAD: {
                E e(o.id);
                int h = vps::opBegin(LOAD, o.id);
                uint64_t b = vps::cvBlocks();
                if constexpr (E::copyable) { if (o.id & 1) a.load(e); else a.load(std::move(e)); } else a.load(std::move(e));
                vps::opEnd(h, 1);
                vps::count(vps::cvBlocks() != b ? "load_after_waiting" : "load_direct");
                break;
            }
            case A_UNLOAD: doUnload(a); break;
            default: { int h = vps::opBegin(ISLOADED, 0); bool b = a.isLoaded(); vps::opEnd(h, b); }
        }
    }
}
template<class E, class A> void runAir(vp::Rd& rd)
{
    static int focus = vp::S().param("focus", 0);
    vps::Config cfg = decodeConfig(rd, true);
    if (focus == 1) cfg.spurious = rd.chance(20) ? 25 : 0;
    uint32_t hdr = rd.u8();
    int nf = 2 + static_cast<int>(hdr & 3);
    int shape = static_cast<int>((hdr >> 2) & 3);
    bool drain = ((hdr >> 4) & 3) != 0;
    vps::beginCase(cfg);
    long live0 = liveToks;
    int nextId = 0;
    {
        A a;
        std::vector<APlan<A>> plans(static_cast<size_t>(nf));
        for (int i = 0; i < nf; ++i) {
            int n = 1 + static_cast<int>(rd.below(6));
            plans[static_cast<size_t>(i)].a = &a;
            for (int j = 0; j < n; ++j) {
                static const int mixed[] = {A_TRYLOAD, A_TRYLOADCOPY, A_LOAD, A_UNLOAD, A_UNLOAD, A_ISLOADED, A_UNLOAD, A_LOAD};
                static const int loads[] = {A_LOAD, A_LOAD, A_LOAD, A_TRYLOAD, A_TRYLOADCOPY, A_LOAD, A_ISLOADED, A_LOAD};
                uint32_t r = rd.u8() & 7;
                bool loader = i % 2 == 0;
                int c = shape >= 2 || focus == 1 ? (loader ? loads[r] : r == 7 ? A_ISLOADED : A_UNLOAD) : mixed[r];
                AOp o{c, c <= A_LOAD ? nextId++ : 0};
                plans[static_cast<size_t>(i)].ops.push_back(o);
                vp::op(static_cast<uint64_t>(c * 8 + i));
                VTRACE("plan t%d %s#%d", i, c == A_LOAD ? "load" : c == A_UNLOAD ? "try_unload" : c == A_ISLOADED ? "isLoaded" : "try_load", o.id);
            }
            vps::spawn(&airFiber<E, A>, &plans[static_cast<size_t>(i)], i);
        }
        // the unloader used to release blocked loaders
        APlan<A> probe{&a, {{A_ISLOADED, 0}, {A_UNLOAD, 0}}};
        int rounds = 0;
        for (;;) {
            vps::Result r = vps::run();
            if (r == vps::DONE) break;
            if (r == vps::FAILED) failFromSched();
            if (r == vps::STEPLIMIT) { traceHistory(); vp::vfail("livelock", "no end after %llu scheduling steps", static_cast<unsigned long long>(vps::steps())); }
            int blocked = 0, other = 0, who = -1;
            for (int i = 0; i < vps::fiberCount(); ++i) {
                auto f = vps::info(i);
                if (f.state == vps::ON_CV || f.state == vps::ON_CV_TIMED) { ++blocked; who = i; }
                else if (f.state != vps::FINISHED) { ++other; who = i; }
            }
            if (other) { traceHistory(); vp::vfail("deadlock", "thread %d is blocked forever on a lock", who); }
            vps::count("quiet_with_blocked_loaders");
            if (++rounds > 40) vp::vfail("harness", "too many rounds");
            if (vps::fiberCount() >= vps::MAXF - 1) { traceHistory(); vp::vfail("lost-wakeup", "%d loader(s) stay blocked however often the air lock is unloaded", blocked); }
            if (!a.isLoaded()) { traceHistory(); vp::vfail("lost-wakeup", "thread %d stays blocked in load() although the air lock is empty and nothing else can run", who); }
            vps::spawn(&airFiber<E, A>, &probe, 100);
        }
        vps::endCase();
        if (drain) {
            doUnload(a);
            int h = vps::opBegin(ISLOADED, 0); vps::opEnd(h, a.isLoaded());
            { E e(nextId); int g = vps::opBegin(TRYLOAD, nextId); bool ok = a.try_load(std::move(e)); vps::opEnd(g, ok); ++nextId; }
            h = vps::opBegin(ISLOADED, 0); vps::opEnd(h, a.isLoaded());
            doUnload(a);
            doUnload(a);
        }
        int n = vps::historySize();
        if (n < 0) vp::ev("history_overflow");
        else {
            std::map<int, int> in, out;
            for (int i = 0; i < n; ++i) {
                const vps::HOp& o = vps::history(i);
                vp::ev(kindName(o.kind));
                if ((o.kind == TRYLOAD && o.res) || o.kind == LOAD) in[o.arg]++;
                if (o.kind == UNLOAD && o.res >= 0) out[o.res]++;
            }
            for (auto& kv : out) {
                if (!in.count(kv.first)) { traceHistory(); vp::vfail("invented", "value %d was unloaded but never accepted", kv.first); }
                if (kv.second > 1) { traceHistory(); vp::vfail("duplicated", "value %d was unloaded %d times", kv.first, kv.second); }
            }
            if (drain && out.size() != in.size()) { traceHistory(); vp::vfail("lost", "%zu values accepted, %zu unloaded, and the air lock is empty", in.size(), out.size()); }
            Lin l;
            l.spec = ONEPLACE;
            if (l.check() == 0) { traceHistory(); vp::vfail("not-linearizable", "no order of these operations explains the results (history of %d operations)", n); }
        }
    }
    finishCase();
    VCHECK(liveToks == live0, "element-balance", "%ld value object(s) alive after the air lock was destroyed", liveToks - live0);
}
}  // namespace
void airCase(vp::Rd& rd)
{
    static int elem = vp::S().param("elem", 0);
    if (elem == 2) runAir<MTok, AirLock<MTok, vps::TimedMutex, vps::CondVar>>(rd);
    else if (elem) runAir<MTok, AirLock<MTok>>(rd);
    else runAir<Tok, AirLock<Tok>>(rd);
}
}  // namespace conc
