// Elements, sequential specifications and the linearizability checker shared by the concurrency engines.
// The including engine provides vps::HOp, vps::historySize(), vps::history(i) and vps::MAXF beforehand.
#pragma once
#include "common.hpp"

namespace conc {
inline long liveToks = 0;
inline long copies = 0;
struct Boom {};
inline int payloadOf(int id) { return id ^ 0x5a5a5a; }
struct Tok {
    int id = -1;
    int* p = nullptr;
    Tok() { inc(); }
    explicit Tok(Boom) { throw Boom(); }
    explicit Tok(int i) : id(i), p(new int(payloadOf(i))) { inc(); }
    Tok(const Tok& o) : id(o.id), p(o.p ? new int(*o.p) : nullptr) { inc(); __atomic_fetch_add(&copies, 1L, __ATOMIC_RELAXED); }
    Tok(Tok&& o) noexcept : id(o.id), p(o.p) { o.p = nullptr; o.id = -2; inc(); }
    Tok& operator=(const Tok& o)
    {
        if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; id = o.id; __atomic_fetch_add(&copies, 1L, __ATOMIC_RELAXED); }
        return *this;
    }
    Tok& operator=(Tok&& o) noexcept { if (this != &o) { delete p; p = o.p; id = o.id; o.p = nullptr; o.id = -2; } return *this; }
    ~Tok() { delete p; p = reinterpret_cast<int*>(8); __atomic_fetch_sub(&liveToks, 1L, __ATOMIC_RELAXED); }
    static void inc() { __atomic_fetch_add(&liveToks, 1L, __ATOMIC_RELAXED); }
    /// id of an intact element, -5 if it is moved-from, -6 if the payload is not what was pushed
    int read() const { return !p ? -5 : *p != payloadOf(id) ? -6 : id; }
    static constexpr bool copyable = true;
};
struct MTok {  // move-only
    int id = -1;
    std::unique_ptr<int> p;
    MTok() { Tok::inc(); }
    explicit MTok(Boom) { throw Boom(); }
    explicit MTok(int i) : id(i), p(new int(payloadOf(i))) { Tok::inc(); }
    MTok(MTok&& o) noexcept : id(o.id), p(std::move(o.p)) { o.id = -2; Tok::inc(); }
    MTok& operator=(MTok&& o) noexcept { p = std::move(o.p); id = o.id; return *this; }
    ~MTok() { __atomic_fetch_sub(&liveToks, 1L, __ATOMIC_RELAXED); }
    int read() const { return !p ? -5 : *p != payloadOf(id) ? -6 : id; }
    static constexpr bool copyable = false;
};

enum Kind : int { PUSH, PUSHV, PPUSH, POP, BPOP, TPOP, EMPTYOBS, EMPTY, SIZE, PEEK, CLEAR, TRYLOAD, LOAD, UNLOAD, ISLOADED, ADD, EXEC, RATIO, QUERY, ASSIGN };
inline const char* kindName(int k)
{
    static const char* n[] = {"push", "pushVector", "pushPriority", "try_pop", "pop", "pop(timeout)", "saw-empty", "empty", "size", "peek", "clear", "try_load", "load", "try_unload", "isLoaded", "add", "execute", "setPriorityRatio", "query", "move-assign"};
    return n[k];
}

/// abstract state of the sequential specification
struct Abs {
    int16_t q[2][112];
    int16_t h[2] = {0, 0}, t[2] = {0, 0};
    int16_t cnt = 0;
    void push(int c, int v) { q[c][t[c]++] = static_cast<int16_t>(v); }
    bool empty(int c) const { return h[c] == t[c]; }
    int front(int c) const { return q[c][h[c]]; }
    uint64_t hash() const
    {
        uint64_t x = 1;
        for (int c = 0; c < 2; ++c) { x = vp::mix64(x ^ 77); for (int i = h[c]; i < t[c]; ++i) x = vp::mix64(x ^ static_cast<uint64_t>(q[c][i] + 7)); }
        return vp::mix64(x ^ static_cast<uint64_t>(cnt));
    }
};
enum SpecKind { FIFO_FULL, FIFO_PARTIAL, COUNTER, ONEPLACE };
struct Lin {
    SpecKind spec;
    std::vector<std::vector<const vps::HOp*>> th;
    std::unordered_set<uint64_t> memo;
    std::vector<int> pos;
    uint64_t nodes = 0, cap = 300000;
    bool capped = false;

    static constexpr int IDS = 112;
    uint32_t outInv[IDS], outRet[IDS];
    static bool readOnly(const vps::HOp& o)
    {
        switch (o.kind) {
            case POP: case BPOP: case TPOP: case UNLOAD: return o.res < 0;
            case EMPTYOBS: case EMPTY: case SIZE: case PEEK: case ISLOADED: return true;
            case TRYLOAD: return !o.res;
            default: return false;
        }
    }
    bool relevant(const vps::HOp& o) const
    {
        if (spec == FIFO_FULL || spec == ONEPLACE) return true;
        if (spec == FIFO_PARTIAL) return !(o.kind == SIZE || (o.kind == EMPTY && o.res == 0) || (o.kind == PEEK && o.res == -1));
        return o.kind == PUSH || o.kind == PPUSH || o.kind == PUSHV || o.kind == POP || o.kind == BPOP || o.kind == TPOP || o.kind == CLEAR || o.kind == ASSIGN || o.kind == SIZE || o.kind == EMPTYOBS;
    }
    bool apply(Abs& a, const vps::HOp& o) const
    {
        if (spec == COUNTER) {
            switch (o.kind) {
                case PUSH: case PPUSH: ++a.cnt; return true;
                case PUSHV: a.cnt = static_cast<int16_t>(a.cnt + o.arg2); return true;
                case POP: case TPOP: case BPOP: if (o.res < 0) return a.cnt == 0; if (a.cnt == 0) return false; --a.cnt; return true;
                case CLEAR: a.cnt = 0; return true;
                case ASSIGN: a.cnt = static_cast<int16_t>(o.arg2); return true;
                case SIZE: return o.res == a.cnt;
                default: return a.cnt == 0;
            }
        }
        switch (o.kind) {
            case PUSH: a.push(0, o.arg); return true;
            case PPUSH: a.push(1, o.arg); return true;
            case PUSHV: for (int i = 0; i < o.arg2; ++i) a.push(0, o.arg + i); return true;
            case POP: case BPOP: case TPOP: {
                if (o.res < 0) return a.empty(0) && a.empty(1);
                int c = a.empty(1) ? 0 : 1;
                if (a.empty(c) || a.front(c) != o.res) return false;
                ++a.h[c];
                return true;
            }
            case EMPTYOBS: return a.empty(0) && a.empty(1);
            case EMPTY: return (o.res != 0) == (a.empty(0) && a.empty(1));
            case SIZE: return o.res == (a.t[0] - a.h[0]) + (a.t[1] - a.h[1]);
            case PEEK: {
                if (o.res < 0) return a.empty(0) && a.empty(1);
                int c = a.empty(1) ? 0 : 1;
                return !a.empty(c) && a.front(c) == o.res;
            }
            case CLEAR: a.h[0] = a.t[0]; a.h[1] = a.t[1]; return true;
            case ASSIGN: a.h[0] = a.t[0]; a.h[1] = a.t[1]; for (int i = 0; i < o.arg2; ++i) a.push(0, o.arg + i); return true;
            case TRYLOAD: if (o.res) { if (!a.empty(0)) return false; a.push(0, o.arg); return true; } return !a.empty(0);
            case LOAD: if (!a.empty(0)) return false; a.push(0, o.arg); return true;
            case UNLOAD: if (o.res < 0) return a.empty(0); if (a.empty(0) || a.front(0) != o.res) return false; ++a.h[0]; return true;
            case ISLOADED: return (o.res != 0) == !a.empty(0);
        }
        return false;
    }
    bool dfs(const Abs& a)
    {
        if (++nodes > cap) { capped = true; return true; }
        uint64_t key = a.hash();
        uint32_t minRet = 0xffffffffu;
        bool all = true;
        for (size_t i = 0; i < th.size(); ++i) {
            key = vp::mix64(key ^ static_cast<uint64_t>(pos[i] + 1));
            if (pos[i] < static_cast<int>(th[i].size())) { all = false; minRet = std::min(minRet, th[i][static_cast<size_t>(pos[i])]->ret); }
        }
        if (all) return true;
        if (!memo.insert(key).second) return false;
        // an element may not be inserted before another one of its class that is known to have left the queue earlier
        uint32_t firstOut[2] = {0xffffffffu, 0xffffffffu};
        struct Cand { uint64_t key; int i; };
        Cand cand[vps::MAXF + 1];
        int nc = 0;
        for (size_t i = 0; i < th.size(); ++i)
            for (size_t k = static_cast<size_t>(pos[i]); k < th[i].size(); ++k) {
                const vps::HOp& o = *th[i][k];
                if (o.kind == PUSH || o.kind == PPUSH || (o.kind == PUSHV && o.arg2 > 0)) { int c = o.kind == PPUSH; if (o.arg < IDS) firstOut[c] = std::min(firstOut[c], outRet[o.arg]); }
            }
        for (size_t i = 0; i < th.size(); ++i) {
            if (pos[i] >= static_cast<int>(th[i].size())) continue;
            const vps::HOp& o = *th[i][static_cast<size_t>(pos[i])];
            if (o.inv > minRet) continue;
            bool push = o.kind == PUSH || o.kind == PPUSH || o.kind == PUSHV;
            if (spec != COUNTER && !push && readOnly(o)) {  // valid here: it can be placed here without loss of generality
                Abs b = a;
                if (apply(b, o)) { ++pos[i]; if (dfs(b)) return true; --pos[i]; return false; }
                continue;
            }
            if (push && spec != COUNTER && o.arg < IDS && (o.kind != PUSHV || o.arg2 > 0) && firstOut[o.kind == PPUSH] < outInv[o.arg]) continue;
            cand[nc++] = Cand{push && o.arg < IDS ? (1ULL << 32) + outRet[o.arg] : o.ret, static_cast<int>(i)};
        }
        std::sort(cand, cand + nc, [](const Cand& x, const Cand& y) { return x.key < y.key; });
        for (int k = 0; k < nc; ++k) {
            size_t i = static_cast<size_t>(cand[k].i);
            Abs b = a;
            if (!apply(b, *th[i][static_cast<size_t>(pos[i])])) continue;
            ++pos[i];
            if (dfs(b)) return true;
            --pos[i];
        }
        return false;
    }
    /// 1 linearizable, 0 not, -1 gave up
    int check()
    {
        th.assign(static_cast<size_t>(vps::MAXF + 1), {});
        int n = vps::historySize();
        bool clear = false;
        for (int i = 0; i < n; ++i) clear = clear || vps::history(i).kind == CLEAR || vps::history(i).kind == ASSIGN;
        for (int i = 0; i < IDS; ++i) { outRet[i] = 0xffffffffu; outInv[i] = clear ? 0 : 0xffffffffu; }
        for (int i = 0; i < n; ++i) {
            const vps::HOp& o = vps::history(i);
            if ((o.kind == POP || o.kind == BPOP || o.kind == TPOP) && o.res >= 0 && o.res < IDS) { outRet[o.res] = o.ret; outInv[o.res] = o.inv; }
            if (relevant(o)) th[static_cast<size_t>(o.fiber < 0 ? vps::MAXF : o.fiber)].push_back(&o);
        }
        th.erase(std::remove_if(th.begin(), th.end(), [](auto& v) { return v.empty(); }), th.end());
        for (auto& v : th) std::stable_sort(v.begin(), v.end(), [](auto* x, auto* y) { return x->inv < y->inv; });
        pos.assign(th.size(), 0);
        Abs a;
        bool r = dfs(a);
        vp::evmax("linearizability_nodes_max", nodes);
        vp::ev("linearizability_nodes", nodes);
        if (capped) { vp::ev("linearizability_gave_up"); return -1; }
        vp::ev("histories_checked");
        return r ? 1 : 0;
    }
};
}  // namespace conc
