// Engine E1: StackBuffer(Raw) and CircularBuffer(Raw) against executable models.
#include <cstdint>
#include "gmlc/containers/StackBuffer.hpp"
#include "gmlc/containers/CircularBuffer.hpp"
#include "common.hpp"
#include <deque>
#include <memory>
#include <stdexcept>

using namespace gmlc::containers;
const unsigned engineMinOps = 6;
const bool engineCheckLeaks = true;
void engineInit() {}

using Bytes = std::vector<unsigned char>;
namespace {
constexpr long DI = diSize;  // bookkeeping per stack block (public constant of the header)
int bulkLeft = 0;            // bounds the cost of a case
unsigned g_block = 0;        // running number, makes block contents unique within a case
uint64_t caseSeed = 0;

Bytes makeBlock(int n)
{
    Bytes b(static_cast<size_t>(n));
    uint64_t v = vp::mix64(caseSeed ^ (++g_block));
    for (size_t i = 0; i < b.size(); ++i) {
        if (i % 8 == 0) v = vp::mix64(v + i);
        b[i] = static_cast<unsigned char>(v >> (8 * (i % 8)));
    }
    // sometimes contents that look like bookkeeping
    if ((v & 7) == 0) for (auto& c : b) c = 0xFF;
    if ((v & 7) == 1) for (auto& c : b) c = 0;
    return b;
}

/// exact-size heap block, optionally misaligned, front guard checked by hand, end by ASan
struct Mem {
    std::unique_ptr<unsigned char[]> raw;
    unsigned char* p;
    int off, n;
    Mem(int n_, int off_) : raw(new unsigned char[static_cast<size_t>(n_ + off_)]), p(raw.get() + off_), off(off_), n(n_)
    {
        for (int i = 0; i < off; ++i) raw[static_cast<size_t>(i)] = 0xA7;
        memset(p, 0x5C, static_cast<size_t>(n));
    }
    void check(const char* w) { for (int i = 0; i < off; ++i) VCHECK(raw[static_cast<size_t>(i)] == 0xA7, "overrun", "%s wrote %d byte(s) before the memory it was given", w, off - i); }
};

struct StackModel {
    struct Blk { Bytes b; long phys; };
    std::vector<Blk> v;  // back = top
    long cap = 0, ext = 0;
    bool relaxed = false;
    long sum = 0;
    long live() const { return sum; }
    bool mustFit(long sz) const { return !relaxed && ext + (static_cast<long>(v.size()) + 1) * DI + sz <= cap; }
    bool mustRefuse(long sz) const { return live() + (static_cast<long>(v.size()) + 1) * DI + sz > cap; }
    void push(const Bytes& b)
    {
        if (ext + (static_cast<long>(v.size()) + 1) * DI + static_cast<long>(b.size()) > cap) relaxed = true;
        v.push_back({b, ext});
        sum += static_cast<long>(b.size());
        ext += static_cast<long>(b.size());
    }
    void pop()
    {
        auto& t = v.back();
        sum -= static_cast<long>(t.b.size());
        if (t.phys + static_cast<long>(t.b.size()) == ext) ext = t.phys;
        v.pop_back();
        if (v.empty()) { ext = 0; relaxed = false; }
    }
    void clear() { v.clear(); ext = sum = 0; relaxed = false; }
    int top() const { return v.empty() ? 0 : static_cast<int>(v.back().b.size()); }
    uint64_t hash() const { uint64_t h = static_cast<uint64_t>(cap) ^ (v.size() << 32); size_t k = 0; for (auto& x : v) { if (++k > 400) break; h = vp::mix64(h ^ x.b.size()); } return vp::mix64(h ^ static_cast<uint64_t>(ext)); }
};

struct CircModel {
    struct Blk { Bytes b; long off; };
    std::deque<Blk> v;
    long cap = 0;
    long R = 0, W = 0;  // reference geometry; only used for "must accept" with slack
    bool relaxed = false;
    long sum = 0;
    long live() const { return sum; }
    bool place(long need, long& at, bool& wrap) const
    {
        wrap = false;
        if (v.empty()) { at = 0; return cap >= need; }
        if (W > R) {
            if (cap - W >= need) { at = W; return true; }
            if (R >= need) { at = 0; wrap = true; return true; }
            return false;
        }
        at = W;
        return R - W >= need;
    }
    bool mustFit(long sz) const
    {
        if (v.empty()) return sz + 4 <= cap;
        if (relaxed) return false;
        long at; bool w;
        return place(sz + 4, at, w);
    }
    bool mustRefuse(long sz) const { return live() + sz + 4 > cap; }
    void push(const Bytes& b)
    {
        long need = static_cast<long>(b.size()) + 4, at; bool w;
        sum += need;
        if (v.empty()) { R = W = 0; relaxed = false; }
        if (!place(need, at, w)) { relaxed = true; v.push_back({b, -1}); return; }
        bool straight = v.empty() || W > R;
        v.push_back({b, at});
        W = at + need;
        if (straight && !w && cap - W < 8 && R > 0) W = 0;
    }
    void pop()
    {
        sum -= static_cast<long>(v.front().b.size()) + 4;
        v.pop_front();
        if (v.empty()) { R = W = 0; relaxed = false; return; }
        R = v.front().off;
    }
    void clear() { v.clear(); R = W = sum = 0; relaxed = false; }
    int top() const { return v.empty() ? 0 : static_cast<int>(v.front().b.size()); }
    uint64_t hash() const { uint64_t h = static_cast<uint64_t>(cap) ^ (v.size() << 32); size_t k = 0; for (auto& x : v) { if (++k > 400) break; h = vp::mix64(h ^ x.b.size()); } return vp::mix64(h ^ static_cast<uint64_t>(R * 7919)); }
    bool wrapped() const { return !v.empty() && W <= R; }
};

// ---- uniform views of the four classes
struct StackOps {
    using Model = StackModel;
    static constexpr bool stack = true;
    static const char* name() { return "stack buffer"; }
    static const Bytes& next(const Model& m) { return m.v.back().b; }
};
struct CircOps {
    using Model = CircModel;
    static constexpr bool stack = false;
    static const char* name() { return "circular buffer"; }
    static const Bytes& next(const Model& m) { return m.v.front().b; }
};

template<class O, class B>
void observe(const B& q, const typename O::Model& m, const char* after)
{
    VCHECK(q.empty() == m.v.empty(), "observer.empty", "%s: empty()=%d with %zu blocks stored (after %s)", O::name(), q.empty(), m.v.size(), after);
    VCHECK(q.capacity() == m.cap, "observer.capacity", "%s: capacity()=%d, expected %ld (after %s)", O::name(), q.capacity(), m.cap, after);
    int nx = q.nextDataSize();
    VCHECK(nx == m.top(), "observer.next", "%s: nextDataSize()=%d, expected %d (after %s)", O::name(), nx, m.top(), after);
    if constexpr (O::stack) VCHECK(q.getCurrentCount() == static_cast<int>(m.v.size()), "observer.count", "%s: count %d, expected %zu (after %s)", O::name(), q.getCurrentCount(), m.v.size(), after);
    vp::state(m.hash());
}

template<class O, class B>
void doPush(B& q, typename O::Model& m, int sz)
{
    Bytes b = makeBlock(sz);
    bool avail = q.isSpaceAvailable(sz);
    // exact-size copy so that reading past the source is seen
    std::unique_ptr<unsigned char[]> src(new unsigned char[b.size()]);
    memcpy(src.get(), b.data(), b.size());
    bool ok = q.push(src.get(), sz);
    VTRACE("push(%d)=%d", sz, ok);
    VCHECK(ok == avail, "space.query", "%s: isSpaceAvailable(%d)=%d but push %s", O::name(), sz, avail, ok ? "succeeded" : "failed");
    if (ok) {
        VCHECK(!m.mustRefuse(sz), "space.overcommit", "%s: accepted %d bytes with %zu blocks (%ld live) in capacity %ld", O::name(), sz, m.v.size(), m.live(), m.cap);
        m.push(b);
        vp::ev("push_accepted");
        if (sz > 32767) vp::ev("large_blocks");
        vp::evmax("largest_block", static_cast<uint64_t>(sz));
        vp::evmax("blocks_stored", m.v.size());
    } else {
        VCHECK(!m.mustFit(sz), "space.refused", "%s: refused %d bytes with %zu blocks (%ld live) in capacity %ld although there is room", O::name(), sz, m.v.size(), m.live(), m.cap);
        vp::ev("push_refused");
    }
    if constexpr (!O::stack) { if (m.wrapped()) vp::ev("wrapped_states"); }
}

template<class O, class B>
void doPop(B& q, typename O::Model& m, int maxSize)
{
    if (maxSize < 0) maxSize = 0;
    std::unique_ptr<unsigned char[]> dst(new unsigned char[static_cast<size_t>(maxSize)]);
    memset(dst.get(), 0xE1, static_cast<size_t>(maxSize));
    int r = q.pop(dst.get(), maxSize);
    VTRACE("pop(max %d)=%d", maxSize, r);
    int written = 0;
    if (m.v.empty()) {
        VCHECK(r == 0, "pop.empty", "%s: pop on an empty buffer returned %d", O::name(), r);
        vp::ev("pop_empty");
    } else if (m.top() > maxSize) {
        VCHECK(r == -m.top(), "pop.toosmall", "%s: pop into %d bytes returned %d, expected %d", O::name(), maxSize, r, -m.top());
        vp::ev("pop_too_small");
    } else {
        VCHECK(r == m.top(), "pop.size", "%s: pop returned %d, expected a block of %d bytes", O::name(), r, m.top());
        const Bytes& x = O::next(m);
        VCHECK(memcmp(dst.get(), x.data(), x.size()) == 0, "pop.content", "%s: popped block of %d bytes differs from the block pushed", O::name(), r);
        written = r;
        m.pop();
        vp::ev("pop_ok");
    }
    for (int i = written; i < maxSize; ++i) VCHECK(dst[static_cast<size_t>(i)] == 0xE1, "pop.dest", "%s: pop wrote destination byte %d beyond the %d-byte block", O::name(), i, written);
}

template<class O, class B>
void drain(B& q, typename O::Model& m)
{
    int guard = static_cast<int>(m.v.size()) + 2;
    while (!m.v.empty() && guard-- > 0) doPop<O>(q, m, m.top());
    observe<O>(q, m, "drain");
    unsigned char c;
    VCHECK(q.pop(&c, 1) == 0, "pop.empty", "%s: a drained buffer still yields data", O::name());
}

/// block sizes around the limits of 16-bit arithmetic (only used on buffers that can hold them)
int bigSize(vp::Rd& rd)
{
    static const int around[] = {32767, 32768, 65535, 65536, 40000, 98304, 131072, 300};
    return around[rd.below(8)] + static_cast<int>(rd.below(13)) - 6;
}
int pickSize(vp::Rd& rd, const StackModel& m, int prof)
{
    if (m.cap > 30000 && prof < 2) return bigSize(rd);
    long room = m.cap - m.ext - (static_cast<long>(m.v.size()) + 1) * DI;
    switch (prof) {
        case 0: return 1 + static_cast<int>(rd.below(8));
        case 1: return 1 + static_cast<int>(rd.below(64));
        case 2: return static_cast<int>(std::max<long>(1, room + static_cast<long>(rd.below(5)) - 2));
        default: return static_cast<int>(std::max<long>(1, m.cap / 4 + static_cast<long>(rd.below(9)) - 4));
    }
}
int pickSize(vp::Rd& rd, const CircModel& m, int prof)
{
    if (m.cap > 30000 && prof < 2) return bigSize(rd);
    long room = (m.W >= m.R ? m.cap - m.W : m.R - m.W) - 4;
    switch (prof) {
        case 0: return 1 + static_cast<int>(rd.below(8));
        case 1: return 1 + static_cast<int>(rd.below(64));
        case 2: return static_cast<int>(std::max<long>(1, room - static_cast<long>(rd.below(10)) + 1));
        case 3: return static_cast<int>(std::max<long>(1, m.R - 4 - static_cast<long>(rd.below(4)) + 1));
        default: return static_cast<int>(std::max<long>(1, m.cap / 3 + static_cast<long>(rd.below(9)) - 4));
    }
}
int pickCap(vp::Rd& rd)
{
    switch (rd.below(7)) {
        case 6:
            if (rd.below(12) != 0 || !vp::S().param("bulk", 1)) return 24 + static_cast<int>(rd.below(300));
            switch (rd.below(4)) {
                case 0: return 32700 + static_cast<int>(rd.below(200));
                case 1: return 65480 + static_cast<int>(rd.below(200));
                case 2: return 66000 + static_cast<int>(rd.below(60000));
                default: return rd.below(12) == 0 ? 800000 : 131000 + static_cast<int>(rd.u16()) * 3;
            }
        case 0: return static_cast<int>(rd.below(16));
        case 1: return 8 + static_cast<int>(rd.below(40));
        case 2: return 16 + 8 * static_cast<int>(rd.below(12));
        case 3: return 40 + static_cast<int>(rd.below(120));
        case 4: return 200 + static_cast<int>(rd.below(1800));
        default: return 20 + static_cast<int>(rd.below(24));
    }
}

/// operations every class supports
template<class O, class B>
void commonOp(vp::Rd& rd, B& q, typename O::Model& m, unsigned code)
{
    if (code < 6) {
        int prof = static_cast<int>(rd.below(5));
        doPush<O>(q, m, pickSize(rd, m, prof));
        observe<O>(q, m, "push");
        vp::op(1 + static_cast<unsigned>(m.v.size()) * 16);
    } else if (code < 10) {
        int t = m.top();
        int mx = t;
        switch (rd.below(8)) {
            case 0: mx = t - 1; break;
            case 1: mx = 0; break;
            case 2: mx = t + 1 + static_cast<int>(rd.below(16)); break;
            case 3: mx = t / 2; break;
            default: break;
        }
        doPop<O>(q, m, mx);
        observe<O>(q, m, "pop");
        vp::op(2 + static_cast<unsigned>(m.v.size()) * 16);
    } else if (code == 10) {
        unsigned char c = 1;
        unsigned k = rd.below(3);
        bool r = k == 0 ? q.push(nullptr, 4) : k == 1 ? q.push(&c, 0) : q.push(&c, -static_cast<int>(rd.below(9)) - 1);
        VTRACE("badpush=%d", r);
        VCHECK(!r, "push.invalid", "%s: push of an empty or null block succeeded", O::name());
        observe<O>(q, m, "invalid push");
        vp::ev("push_invalid");
        vp::op(3);
    } else if (code == 11) {
        VTRACE("clear");
        q.clear();
        m.clear();
        observe<O>(q, m, "clear");
        vp::ev("clear");
        vp::op(4);
    } else if (code == 12) {
        if (m.v.size() > 3 && rd.chance(60)) {  // only some of the blocks
            size_t n = 1 + rd.below(static_cast<uint32_t>(std::min<size_t>(m.v.size() - 1, 60000)));
            VTRACE("pop %zu blocks", n);
            for (size_t i = 0; i < n; ++i) doPop<O>(q, m, m.top());
            observe<O>(q, m, "pops");
        } else {
            VTRACE("drain");
            drain<O>(q, m);
        }
        vp::op(5);
    } else if (rd.chance(m.cap > 130000 ? 12 : 15)) {  // many small blocks
        uint32_t n = 20 + rd.below(300);
        if (m.cap > 600000 && bulkLeft >= 72000) n = 72000;
        else if (m.cap > 130000 && bulkLeft >= 36000) n = 36000;
        else if (bulkLeft < 400) n = 5;
        uint32_t sz = m.cap > 130000 ? 1 + rd.below(2) : 1 + rd.below(9);
        VTRACE("push %u blocks of %u", n, sz);
        uint64_t refused = 0;
        bulkLeft -= static_cast<int>(n);
        for (uint32_t i = 0; i < n && refused < 2; ++i) { size_t before = m.v.size(); doPush<O>(q, m, static_cast<int>(sz)); refused += m.v.size() == before; }
        observe<O>(q, m, "pushes");
        vp::ev("push_runs");
        vp::op(9 + sz);
    } else {
        // probe the space query around its boundaries
        int sz = pickSize(rd, m, static_cast<int>(2 + rd.below(2)));
        bool a = q.isSpaceAvailable(sz);
        VCHECK(!(a && m.mustRefuse(sz)), "space.query", "%s: isSpaceAvailable(%d) although it cannot fit", O::name(), sz);
        VCHECK(!(!a && m.mustFit(sz)), "space.query", "%s: isSpaceAvailable(%d)=false although there is room", O::name(), sz);
        vp::op(6);
    }
}

template<class O, class Raw>
void caseRaw(vp::Rd& rd)
{
    int cap = pickCap(rd);
    if (!O::stack && cap < 1) cap = 1;
    Mem mem(cap, static_cast<int>(rd.below(9)));
    Raw q(mem.p, cap);
    typename O::Model m;
    m.cap = cap;
    VTRACE("%s raw cap=%d misalign=%d", O::name(), cap, mem.off);
    vp::sigmix(static_cast<uint64_t>(cap));
    unsigned bias = rd.below(3);
    while (!rd.done()) {
        unsigned code = rd.below(O::stack ? 16 : 15);
        if (bias == 1 && code >= 6 && code < 9 && (m.v.size() < 4)) code = 0;  // fuller
        if (bias == 2 && code == 11) code = 6;
        if (O::stack && code == 15) {
            if constexpr (O::stack) {
                VTRACE("reverse");
                q.reverse();
                std::reverse(m.v.begin(), m.v.end());
                observe<O>(q, m, "reverse");
                vp::ev("reverse");
                vp::op(7);
            }
        } else commonOp<O>(rd, q, m, code);
        mem.check(O::name());
    }
    if constexpr (O::stack) {  // swap of raw controllers
        Mem mem2(64, 1);
        Raw q2(mem2.p, 64);
        StackModel m2;
        m2.cap = 64;
        doPush<O>(q2, m2, 5);
        q.swap(q2);
        observe<O>(q, m2, "swap");
        observe<O>(q2, m, "swap");
        drain<O>(q2, m);
        drain<O>(q, m2);
    } else drain<O>(q, m);
    mem.check(O::name());
}

/// run f with the n-th allocation failing; true if it completed all the same
template<class F>
bool outOfMemory(F&& f, long n)
{
    try { vp::FailNew g(n); f(0); return true; }
    catch (const std::bad_alloc&) { return false; }
}

template<class B, class M>
bool resizeStack(B& q, M& m, int n, long failNew)
{
    bool must = n >= m.cap || m.v.empty() || (!m.relaxed && m.ext + static_cast<long>(m.v.size()) * DI <= n);
    bool mustnt = n < m.cap && m.live() + static_cast<long>(m.v.size()) * DI > n;
    try {
        bool r;
        { vp::FailNew f(failNew); r = q.resize(n); }
        VTRACE("resize(%d)=%d", n, r);
        VCHECK(!mustnt, "resize.lost", "stack buffer: resize to %d accepted with %ld live bytes in %zu blocks", n, m.live(), m.v.size());
        VCHECK(r, "resize.result", "stack buffer: resize to %d returned false", n);
        m.cap = n;
        vp::ev(m.v.empty() ? "resize_empty" : "resize_with_data");
        return true;
    }
    catch (const std::runtime_error&) {
        VTRACE("resize(%d) threw", n);
        VCHECK(!must, "resize.refused", "stack buffer: resize from %ld to %d refused although %ld live bytes in %zu blocks fit", m.cap, n, m.live(), m.v.size());
        vp::ev("resize_refused");
        return false;
    }
    catch (const std::bad_alloc&) {
        VTRACE("resize(%d) out of memory", n);
        vp::ev("resize_out_of_memory");
        return false;
    }
}
template<class B>
bool resizeCirc(B& q, CircModel& m, int n, long failNew)
{
    // reference geometry of what must be accepted
    bool must = n >= m.cap || m.v.empty();
    long occ = 0;
    if (!must && !m.relaxed) {
        occ = m.W > m.R ? m.W - m.R : (m.cap - m.R) + m.W;
        must = occ < n;
    }
    bool mustnt = n < m.cap && m.live() > n;
    try {
        { vp::FailNew f(failNew); q.resize(n); }
        VTRACE("resize(%d)", n);
        VCHECK(!mustnt, "resize.lost", "circular buffer: resize to %d accepted with %ld bytes stored", n, m.live());
        // geometry after an accepted resize
        if (!m.v.empty() && !m.relaxed) {
            if (m.W > m.R) {
                if (m.W > n) { long d = m.R; for (auto& b : m.v) b.off -= d; m.W -= d; m.R = 0; }
            } else {
                long d = n - m.cap;
                for (auto& b : m.v) { if (b.off < m.R) break; b.off += d; }
                m.R += d;
            }
        }
        m.cap = n;
        vp::ev(m.v.empty() ? "resize_empty" : "resize_with_data");
        return true;
    }
    catch (const std::runtime_error&) {
        VTRACE("resize(%d) threw", n);
        VCHECK(!must, "resize.refused", "circular buffer: resize from %ld to %d refused although only %ld bytes are occupied", m.cap, n, occ);
        vp::ev("resize_refused");
        return false;
    }
    catch (const std::bad_alloc&) {
        VTRACE("resize(%d) out of memory", n);
        vp::ev("resize_out_of_memory");
        return false;
    }
}

template<class O, class B>
void caseOwn(vp::Rd& rd)
{
    constexpr int NS = 3;
    std::unique_ptr<B> q[NS];
    typename O::Model m[NS];
    bool movedFrom[NS] = {false, false, false};
    int slots = vp::S().param("slots", 2);
    if (slots == 2) slots = rd.below(3) == 0 ? 3 : 1;
    auto fresh = [&](int i) {
        if (rd.below(5) == 0) { q[i].reset(new B()); m[i] = {}; m[i].cap = 0; VTRACE("[%d]=default", i); }
        else { int c = pickCap(rd); q[i].reset(new B(c)); m[i] = {}; m[i].cap = c; VTRACE("[%d]=cap %d", i, c); }
        movedFrom[i] = false;
        observe<O>(*q[i], m[i], "construction");
    };
    for (int i = 0; i < slots; ++i) fresh(i);
    int multiPct = slots > 1 ? 35 : 4;
    while (!rd.done()) {
        int a = static_cast<int>(rd.below(static_cast<uint32_t>(slots)));
        int b = static_cast<int>(rd.below(static_cast<uint32_t>(slots)));
        if (rd.chance(multiPct)) {
            unsigned k = rd.below(10);
            vp::op(100 + k * 16 + static_cast<unsigned>(a * 3 + b));
            switch (k) {
                case 0: {  // copy construct into b
                    VTRACE("[%d]=copy of [%d]", b, a);
                    std::unique_ptr<B> n;
                    bool made = rd.below(12) ? (n.reset(new B(static_cast<const B&>(*q[a]))), true) : outOfMemory([&](int) { n.reset(new B(static_cast<const B&>(*q[a]))); }, 1);
                    if (!made) { vp::ev("copy_out_of_memory"); break; }
                    auto mm = m[a];
                    q[b] = std::move(n);
                    m[b] = mm;
                    vp::ev("copy_construct");
                    break;
                }
                case 1: case 2:
                    VTRACE("[%d]<-copy assign [%d]", b, a);
                    if (rd.below(8)) *q[b] = static_cast<const B&>(*q[a]);
                    else if (!outOfMemory([&](int) { *q[b] = static_cast<const B&>(*q[a]); }, 0)) { vp::ev("copy_out_of_memory"); VTRACE("out of memory"); break; }
                    m[b] = typename O::Model(m[a]);
                    vp::ev(a == b ? "self_copy_assign" : "copy_assign");
                    break;
                case 3: {
                    VTRACE("[%d]=move of [%d]", b, a);
                    std::unique_ptr<B> n(new B(std::move(*q[a])));
                    auto mm = m[a];
                    m[a] = {};
                    m[a].cap = q[a]->capacity();
                    q[b] = std::move(n);
                    m[b] = mm;
                    movedFrom[a] = a != b;
                    vp::ev("move_construct");
                    break;
                }
                case 4: case 5:
                    if (a == b) break;
                    VTRACE("[%d]<-move assign [%d]", b, a);
                    *q[b] = std::move(*q[a]);
                    m[b] = m[a];
                    m[a] = {};
                    m[a].cap = q[a]->capacity();
                    movedFrom[a] = true;
                    vp::ev("move_assign");
                    break;
                case 6: case 7:
                    VTRACE("swap [%d] [%d]", a, b);
                    if constexpr (O::stack) q[a]->swap(*q[b]);
                    else { if (a == b) break; std::swap(*q[a], *q[b]); }
                    if (a != b) std::swap(m[a], m[b]);
                    vp::ev("swap");
                    break;
                case 8: VTRACE("destroy [%d]", a); fresh(a); vp::ev("destroy_nonempty"); break;
                default: VTRACE("destroy+drain [%d]", b); drain<O>(*q[b], m[b]); break;
            }
            for (int i = 0; i < slots; ++i) observe<O>(*q[i], m[i], "copy/move/swap");
            continue;
        }
        unsigned code = rd.below(20);
        if (movedFrom[a] && code >= 10) vp::ev("moved_from_used");
        if (code < 14) commonOp<O>(rd, *q[a], m[a], code);
        else if (code == 14 && O::stack) {
            if constexpr (O::stack) {
                VTRACE("reverse");
                q[a]->reverse();
                std::reverse(m[a].v.begin(), m[a].v.end());
                observe<O>(*q[a], m[a], "reverse");
                vp::ev("reverse");
                vp::op(7);
            }
        } else {
            int n;
            long used = O::stack ? m[a].live() + static_cast<long>(m[a].v.size()) * DI : m[a].live();
            switch (rd.below(7)) {
                case 0: n = pickCap(rd); break;
                case 1: n = static_cast<int>(m[a].cap) + 1 + static_cast<int>(rd.below(32)); break;
                case 2: n = static_cast<int>(m[a].cap) - 1 - static_cast<int>(rd.below(24)); break;
                case 3: n = static_cast<int>(used) + static_cast<int>(rd.below(12)) - 2; break;
                case 4: n = static_cast<int>(m[a].cap); break;
                case 5: n = static_cast<int>(m[a].cap) * 2; break;
                default: n = static_cast<int>(m[a].cap) - static_cast<int>(rd.below(9)); break;
            }
            { const int most = m[a].cap > 12000 ? 900000 : n > 30000 ? 330000 : 12000; if (n > most) n = most; }
            if constexpr (O::stack) {
                if (n < 0) {
                    VCHECK(!q[a]->resize(n), "resize.negative", "resize to a negative size succeeded");
                } else resizeStack(*q[a], m[a], n, rd.below(10) ? -1 : 0);
                VCHECK(q[a]->rawBlockCapacity() >= q[a]->capacity(), "resize.rawcap", "raw capacity %d below capacity %d", q[a]->rawBlockCapacity(), q[a]->capacity());
            } else if (n >= 0) resizeCirc(*q[a], m[a], n, rd.below(10) ? -1 : 0);
            observe<O>(*q[a], m[a], "resize");
            vp::op(8);
            if (rd.below(4) == 0) doPush<O>(*q[a], m[a], pickSize(rd, m[a], 2));
        }
    }
    for (int i = 0; i < slots; ++i) drain<O>(*q[i], m[i]);
}
}  // namespace

void runCase(vp::Rd& rd)
{
    g_block = 0;
    bulkLeft = vp::S().param("bulk", 1) ? 80000 : 3000;
    caseSeed = rd.u16();
    const std::string& mode = vp::S().mode;
    if (mode == "stackraw") caseRaw<StackOps, StackBufferRaw>(rd);
    else if (mode == "stackown") caseOwn<StackOps, StackBuffer>(rd);
    else if (mode == "circraw") caseRaw<CircOps, CircularBufferRaw>(rd);
    else if (mode == "circown") caseOwn<CircOps, CircularBuffer>(rd);
    else { fprintf(stderr, "mode?\n"); exit(3); }
}
