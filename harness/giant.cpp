// Engine E7: the same containers at sizes where narrow arithmetic would show.
//  modes vector, deque      tens to hundreds of thousands of elements (counts, slots and distances beyond 15, 16 and 17 bits)
//  modes single, dual       mapped containers with as many elements and terms
//  mode picks               long runs of a work queue's choices, taken by hand while its only worker is held back
//  modes xvector, xdeque    more than 2^31 elements (elements without storage traffic, blocks in reserved address space)
//  modes xstack, xcirc      buffers of 2^31-1 bytes with blocks up to 2^30 bytes
//  mode xpicks              more than 2^31 medium blocks before the first low one
#include "common.hpp"
#include "gmlc/containers/CircularBuffer.hpp"
#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/StableBlockVector.hpp"
#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StackBuffer.hpp"
#include "gmlc/containers/StringMappedVector.hpp"
#include "gmlc/containers/WorkQueue.hpp"
#include <deque>
#include <future>
#include <memory>
#include <stdexcept>
using namespace gmlc::containers;
const unsigned engineMinOps = 4;
const bool engineCheckLeaks = true;
void engineInit() {}

namespace {
/// choices: drawn from a generator that the bytes of the case seed
struct Rnd {
    vp::Prng p;
    explicit Rnd(vp::Rd& r) : p(r.u64() ^ vp::mix64(r.u64())) {}
    uint32_t below(uint32_t n) { return p.below(n); }
    uint32_t u16() { return p.below(65536); }
};
// ------------------------------------------------------------------ large block containers
struct Val {
    int64_t id;
    const Val* self;
    explicit Val(int64_t i = INT64_MIN) : id(i), self(this) {}
    Val(const Val& o) : id(o.id), self(this) {}
    Val& operator=(const Val& o) { id = o.id; return *this; }
    ~Val() { VCHECK(self == this, "large.lifetime", "an element is destroyed that does not exist"); self = nullptr; }
};
template<class C, unsigned N, bool DEQ>
struct Large {
    static constexpr size_t BS = size_t(1) << N;
    Rnd& rd;
    std::unique_ptr<C> c;
    std::deque<const void*> at;  // where element i is
    int64_t lo = 0;              // element i holds lo + i
    void one(size_t i, const char* w)
    {
        const Val& e = (i & 1) ? (*c)[i] : static_cast<const C&>(*c)[i];
        VCHECK(&e == at[i], "large.address", "element %zu of %zu moved (after %s)", i, at.size(), w);
        VCHECK(e.id == lo + static_cast<int64_t>(i) && e.self == &e, "large.content", "element %zu of %zu is %lld, expected %lld (after %s)", i, at.size(), static_cast<long long>(e.id), static_cast<long long>(lo + static_cast<int64_t>(i)), w);
    }
    void check(const char* w)
    {
        size_t n = at.size();
        VCHECK(c->size() == n && c->empty() == (n == 0), "large.size", "size() is %zu, expected %zu (after %s)", c->size(), n, w);
        for (size_t i = 0; i < n; ++i) one(i, w);
        size_t i = 0;
        for (auto it = c->begin(); it != c->end(); ++it, ++i) VCHECK(i < n && &*it == at[i], "large.iterate", "iteration over %zu elements is at the wrong element after %zu (after %s)", n, i, w);
        VCHECK(i == n, "large.iterate", "iteration visits %zu of %zu elements (after %s)", i, n, w);
        auto it = c->end();
        for (i = n; i > 0; --i) { --it; VCHECK(&*it == at[i - 1], "large.iterate", "backward iteration over %zu elements is wrong at %zu (after %s)", n, i - 1, w); }
        if (n) { VCHECK(&c->front() == at.front() && &c->back() == at.back(), "large.ends", "front() or back() of %zu elements (after %s)", n, w); }
        bool thrown;
        for (size_t x : {n, n + 1, n + 65536, n + (size_t(1) << 31), size_t(1) << 32, (size_t(1) << 32) + n / 2, size_t(-1), size_t(1) << 63}) {
            thrown = false;
            try { (void)c->at(x); } catch (const std::out_of_range&) { thrown = true; }
            VCHECK(thrown, "large.at", "at(%zu) of %zu elements did not throw", x, n);
        }
        vp::evmax("max_elements", n);
        vp::ev("large_verifications");
    }
    void jumps()
    {
        size_t n = at.size();
        if (!n) return;
        static const size_t base[] = {32768, 65536, 131072, 255, 256, 32767, 65535, 99999};
        for (int j = 0; j < 400; ++j) {
            size_t a, b;
            if (j & 1) {
                size_t d = base[rd.below(8)] + rd.below(5) - 2;
                if (d >= n) d = n - 1;
                a = (rd.u16() * 7919u) % (n - d);
                b = a + d;
            } else { a = (rd.u16() * 7919u) % n; b = (rd.u16() * 6271u) % n; }
            if (j & 2) std::swap(a, b);
            auto d = static_cast<ptrdiff_t>(b) - static_cast<ptrdiff_t>(a);
            auto ia = c->begin() + static_cast<ptrdiff_t>(a);
            auto ib = ia + d;
            auto ic = ia - (-d);
            auto id = c->end() - static_cast<ptrdiff_t>(n - b);
            auto ie = static_cast<const C&>(*c).begin();
            ie += static_cast<ptrdiff_t>(b);
            VCHECK(&*ia == at[a] && &*ib == at[b] && &*ic == at[b] && &*id == at[b] && &*ie == at[b], "large.jump", "a jump by %td from element %zu of %zu lands on the wrong element", d, a, n);
            VCHECK(ib == ic && ib == id && (a == b) == static_cast<bool>(ia == ib), "large.jump", "iterators %zu and %zu of %zu compare wrong", a, b, n);
            vp::ev("large_jumps");
        }
    }
    void pushBack() { c->push_back(Val(lo + static_cast<int64_t>(at.size()))); at.push_back(&(*c)[at.size()]); }
    void pushFront()
    {
        if constexpr (DEQ) { c->emplace_front(--lo); at.push_front(&c->front()); }
        else { c->emplace_back(lo + static_cast<int64_t>(at.size())); at.push_back(&c->back()); }
    }
    void popBack() { c->pop_back(); at.pop_back(); }
    void popFront()
    {
        if constexpr (DEQ) { c->pop_front(); at.pop_front(); ++lo; }
        else popBack();
    }
    void readdr(size_t n) { at.clear(); for (size_t i = 0; i < n; ++i) at.push_back(&(*c)[i]); }
    void fresh(size_t n, int64_t first) { lo = first; for (size_t i = 0; i < n; ++i) (*c)[i] = Val(lo + static_cast<int64_t>(i)); readdr(n); }
    static size_t target(Rnd& rd)
    {
        static const size_t t[] = {32767, 32768, 65535, 65536, 98304, 131072, 70000, 40000};
        return t[rd.below(8)] + rd.below(5) - 2;
    }
    void run()
    {
        c.reset(new C());
        for (int step = 0; step < 4; ++step) {
            unsigned k = rd.below(8);
            size_t n = target(rd);
            vp::op(k * 1024 + n % 1021);
            VTRACE("%u(%zu) on %zu", k, n, at.size());
            switch (k) {
                case 0: while (at.size() < n) pushBack(); break;
                case 1: while (at.size() < n) pushFront(); break;
                case 2: { unsigned m = 1 + rd.below(7); for (size_t i = 0; at.size() < n; ++i) { if (i % 8 < m) pushBack(); else pushFront(); } break; }
                case 3:  // a sliding window: far more elements pass through than are held
                    while (at.size() < 300 + n % 500) pushBack();
                    for (size_t i = 0; i < n; ++i) { pushBack(); popFront(); }
                    break;
                case 4: while (at.size() < 300) pushFront(); for (size_t i = 0; i < n; ++i) { pushFront(); popBack(); } break;
                case 5: {  // sized construction, copies
                    c.reset(new C(n, Val(77)));
                    for (size_t i = 0; i < n; i += 997) VCHECK((*c)[i].id == 77, "large.content", "element %zu of a container built with %zu copies", i, n);
                    fresh(n, 5);
                    break;
                }
                case 6: {
                    while (at.size() < n) pushBack();
                    std::unique_ptr<C> d(new C(static_cast<const C&>(*c)));
                    VCHECK(d->size() == at.size(), "large.size", "a copy of %zu elements has %zu", at.size(), d->size());
                    check("being copied");
                    size_t cnt = at.size();
                    c = std::move(d);
                    readdr(cnt);
                    break;
                }
                default: {  // assign over
                    std::unique_ptr<C> d(new C());
                    for (size_t i = 0; i < n; ++i) d->emplace_back(static_cast<int64_t>(i) - 9);
                    if (rd.below(2)) *c = static_cast<const C&>(*d);
                    else c->assign(d->begin(), d->end());
                    VCHECK(c->size() == n, "large.size", "%zu elements after assigning %zu", c->size(), n);
                    lo = -9;
                    readdr(n);
                    break;
                }
            }
            check("growing");
            jumps();
            switch (rd.below(5)) {
                case 0: while (at.size() > n / 3) popBack(); check("pop_back"); break;
                case 1: while (at.size() > n / 3) popFront(); check("pop_front"); break;
                case 2: while (at.size() > n / 2) popFront(); c->shrink_to_fit(); check("shrink_to_fit"); break;
                case 3: c->clear(); at.clear(); lo = 0; check("clear"); break;
                default: { C m(std::move(*c)); VCHECK(c->size() == 0, "large.size", "moved from container holds %zu elements", c->size()); *c = std::move(m); check("moves"); break; }
            }
        }
        c.reset();
    }
};
template<unsigned N> void large(Rnd& rd, bool dq)
{
    if (dq) { Large<StableBlockDeque<Val, N>, N, true> r{rd, nullptr, {}, 0}; r.run(); }
    else { Large<StableBlockVector<Val, N>, N, false> r{rd, nullptr, {}, 0}; r.run(); }
}

// ------------------------------------------------------------------ extreme sizes
struct Nil {};  // an element whose construction and destruction touch nothing
struct NoSpace : std::bad_alloc {};  // this machine cannot hold the case
inline void* reserve(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw NoSpace{};
    return p;
}
template<class T> struct MapAlloc {
    using value_type = T;
    MapAlloc() = default;
    template<class U> MapAlloc(const MapAlloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(reserve(n * sizeof(T))); }
    void deallocate(T* p, size_t n) { munmap(p, n * sizeof(T)); }
    template<class U> bool operator==(const MapAlloc<U>&) const { return true; }
    template<class U> bool operator!=(const MapAlloc<U>&) const { return false; }
};
template<class C, bool DEQ> void extreme(Rnd& rd)
{
    const size_t n = (size_t(1) << 31) + 70000 + rd.u16();
    const C c0{};
    C c(n - 3);
    c.emplace_back();
    if constexpr (DEQ) { c.emplace_front(); c.push_front(Nil{}); }
    else { c.emplace_back(); c.push_back(Nil{}); }
    VCHECK(c.size() == n, "extreme.size", "size() is %zu with %zu elements", c.size(), n);
    const C& k = c;
    VCHECK(&k[0] == &k.front() && &k[n - 1] == &k.back() && &k.at(n - 1) == &k.back(), "extreme.ends", "front() and back() of %zu elements", n);
    auto pos = [&](size_t i) { return static_cast<const void*>(&k[i]); };
    for (size_t x : {n, n + (size_t(1) << 32), size_t(-1)}) {
        bool thrown = false;
        try { (void)c.at(x); } catch (const std::out_of_range&) { thrown = true; }
        VCHECK(thrown, "extreme.at", "at(%zu) of %zu elements did not throw", x, n);
    }
    VCHECK(k.end() == k.begin() + static_cast<ptrdiff_t>(n) && k.begin() == k.end() - static_cast<ptrdiff_t>(n), "extreme.jump", "begin() + %zu is not end()", n);
    for (size_t d : {(size_t(1) << 31) - 2, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 31) + 1, (size_t(1) << 30) + 12345, size_t(1) << 30, n - 1}) {
        for (size_t a : {size_t(0), size_t(1), size_t(4097), (n - 1 - d)}) {
            if (a + d >= n) continue;
            auto i = c.begin() + static_cast<ptrdiff_t>(a);
            auto j = i + static_cast<ptrdiff_t>(d);
            VCHECK(&*i == pos(a) && &*j == pos(a + d), "extreme.jump", "a jump by %zu from element %zu of %zu lands on the wrong element", d, a, n);
            VCHECK(j != c.end() && !(j == i), "extreme.jump", "iterators %zu apart compare wrong", d);
            auto b = j - static_cast<ptrdiff_t>(d);
            VCHECK(b == i && &*b == pos(a), "extreme.jump", "a jump by -%zu from element %zu of %zu lands on the wrong element", d, a + d, n);
            auto e = k.end() - static_cast<ptrdiff_t>(n - a);
            e += static_cast<ptrdiff_t>(d);
            VCHECK(&*e == pos(a + d), "extreme.jump", "a const jump by %zu to element %zu of %zu", d, a + d, n);
            vp::ev("extreme_jumps");
            vp::op(a * 31 + d);
        }
    }
    C m(std::move(c));
    VCHECK(m.size() == n && c.size() == 0, "extreme.size", "%zu elements after moving %zu", m.size(), n);
    m.pop_back();
    VCHECK(m.size() == n - 1, "extreme.size", "%zu elements after removing one of %zu", m.size(), n);
    vp::evmax("max_elements", n);
    m.clear();
    VCHECK(m.empty() && static_cast<bool>(m.begin() == m.end()), "extreme.size", "not empty after clear");
}
struct Mem {
    size_t n;
    unsigned char* p;
    explicit Mem(size_t k) : n(k), p(static_cast<unsigned char*>(reserve(k))) {}
    ~Mem() { munmap(p, n); }
};
constexpr int CAP = INT32_MAX;
struct Mark {  // the recognisable ends of a block, the rest stays untouched zero pages in the source
    static void set(unsigned char* p, size_t n, unsigned t) { for (size_t i = 0; i < 16 && i < n; ++i) { p[i] = static_cast<unsigned char>(t + i); p[n - 1 - i] = static_cast<unsigned char>(t * 3 + i); } }
    static bool ok(const unsigned char* p, size_t n, unsigned t)
    {
        if (n >= 32) { for (size_t i = 0; i < 16; ++i) if (p[i] != static_cast<unsigned char>(t + i) || p[n - 1 - i] != static_cast<unsigned char>(t * 3 + i)) return false; }
        return true;
    }
};
template<class B> void expectPop(B& b, Mem& out, int sz, unsigned tag)
{
    VCHECK(b.nextDataSize() == sz, "extreme.next", "nextDataSize() is %d, expected %d", b.nextDataSize(), sz);
    VCHECK(b.pop(out.p, sz - 1) == -sz, "extreme.pop", "pop into %d bytes of a block of %d bytes", sz - 1, sz);
    int r = b.pop(out.p, CAP);
    VCHECK(r == sz && Mark::ok(out.p, static_cast<size_t>(sz), tag), "extreme.pop", "pop returned %d, expected block %u of %d bytes", r, tag, sz);
    vp::ev("extreme_pops");
    vp::op(static_cast<uint64_t>(sz) * 16 + tag);
}
template<class B> void expectPush(B& b, Mem& src, int sz, unsigned tag, bool want)
{
    Mark::set(src.p, static_cast<size_t>(sz), tag);
    VCHECK(b.isSpaceAvailable(sz) == want, "extreme.space", "isSpaceAvailable(%d) is %d", sz, !want);
    bool g = b.push(src.p, sz);
    VCHECK(g == want, "extreme.push", "push of %d bytes %s", sz, g ? "accepted" : "refused");
    vp::ev(want ? "extreme_pushes" : "extreme_refusals");
    memset(src.p, 0, 16);
    memset(src.p + sz - 16, 0, 16);
}
void extremeStack(Rnd& rd)
{
    Mem src(CAP), out(CAP);
    const int big = (1 << 30) + static_cast<int>(rd.u16());
    {
        Mem mem(CAP);
        StackBufferRaw q(mem.p, CAP);
        expectPush(q, src, CAP, 9, false);
        expectPush(q, src, CAP - 7, 9, false);
        expectPush(q, src, CAP - 8, 9, true);  // exactly full
        expectPush(q, src, 32, 9, false);
        expectPop(q, out, CAP - 8, 9);
        expectPush(q, src, big, 1, true);
        expectPush(q, src, 100, 2, true);
        expectPush(q, src, big, 3, false);
        expectPush(q, src, CAP - big - 100 - 24, 3, true);
        expectPush(q, src, 32, 4, false);
        q.reverse();
        expectPop(q, out, big, 1);
        expectPop(q, out, 100, 2);
        expectPop(q, out, CAP - big - 100 - 24, 3);
        VCHECK(q.empty() && q.getCurrentCount() == 0 && q.capacity() == CAP, "extreme.empty", "stack not empty");
    }
    StackBuffer b(1 << 20);
    expectPush(b, src, 1000, 5, true);
    VCHECK(b.resize(CAP) && b.capacity() == CAP, "extreme.resize", "resize to %d bytes", CAP);
    expectPush(b, src, big, 6, true);
    expectPush(b, src, CAP - big - 1000 - 24 + 1, 7, false);
    expectPush(b, src, CAP - big - 1000 - 24, 7, true);
    expectPop(b, out, CAP - big - 1000 - 24, 7);
    VCHECK(b.resize(CAP - 8), "extreme.resize", "resize to %d bytes", CAP - 8);
    expectPush(b, src, CAP - 8 - big - 1000 - 24 + 1, 7, false);
    expectPush(b, src, CAP - 8 - big - 1000 - 24, 8, true);
    expectPop(b, out, CAP - 8 - big - 1000 - 24, 8);
    bool thrown = false;
    try { b.resize(big); } catch (const std::runtime_error&) { thrown = true; }
    VCHECK(thrown, "extreme.resize", "resize to less than the stored data did not throw");
    expectPop(b, out, big, 6);
    expectPop(b, out, 1000, 5);
}
void extremeCirc(Rnd& rd)
{
    Mem src(CAP), out(CAP);
    const int big = (1 << 30) + static_cast<int>(rd.u16());
    {
        Mem mem(CAP);
        CircularBufferRaw q(mem.p, CAP);
        expectPush(q, src, CAP, 9, false);
        expectPush(q, src, CAP - 3, 9, false);
        expectPush(q, src, CAP - 4, 9, true);
        expectPush(q, src, 32, 9, false);
        expectPop(q, out, CAP - 4, 9);
        expectPush(q, src, big, 1, true);
        expectPush(q, src, 100, 2, true);
        expectPush(q, src, big, 3, false);
        int rest = CAP - big - 104 - 4 - 4 - 2000;
        expectPush(q, src, rest, 3, true);
        expectPop(q, out, big, 1);
        expectPush(q, src, big + 1, 4, false);
        expectPush(q, src, big - 200, 4, true);  // wraps
        expectPush(q, src, 300, 5, false);
        expectPop(q, out, 100, 2);
        expectPush(q, src, 290, 6, true);
        expectPop(q, out, rest, 3);
        expectPop(q, out, big - 200, 4);
        expectPop(q, out, 290, 6);
        VCHECK(q.empty() && q.capacity() == CAP, "extreme.empty", "buffer not empty");
    }
    CircularBuffer b(1 << 20);
    expectPush(b, src, 1000, 5, true);
    b.resize(CAP);
    VCHECK(b.capacity() == CAP, "extreme.resize", "resize to %d bytes", CAP);
    expectPush(b, src, big, 6, true);
    expectPush(b, src, CAP - big - 1012 + 1, 7, false);
    expectPop(b, out, 1000, 5);
    expectPush(b, src, CAP - big - 1012 - 1000, 7, true);
    expectPop(b, out, big, 6);
    expectPush(b, src, big - 500, 8, true);  // wrapped, room at the end
    bool thrown = false;
    try { b.resize(big); } catch (const std::runtime_error&) { thrown = true; }
    VCHECK(thrown, "extreme.resize", "resize to less than the stored data did not throw");
    b.resize(CAP - 100);
    VCHECK(b.capacity() == CAP - 100, "extreme.resize", "capacity %d after resize to %d", b.capacity(), CAP - 100);
    expectPop(b, out, CAP - big - 1012 - 1000, 7);
    expectPop(b, out, big - 500, 8);
    VCHECK(b.empty(), "extreme.empty", "buffer not empty");
}

// ------------------------------------------------------------------ large mapped containers
template<class C, bool DUAL, bool PTR, bool REMOVE, bool ALIAS, class K> struct LargeMap {
    Rnd& rd;
    C c;
    std::vector<int64_t> m;                     // element i has this id
    std::vector<std::pair<int64_t, int64_t>> extra;  // further terms: term number, id of its element
    static std::string name(int64_t i) { return "n" + std::to_string(i); }
    static K key(int64_t i) { if constexpr (std::is_same<K, int>::value) return static_cast<int>(i * 3 - 70000); else return name(i); }
    static int key2(int64_t i) { return static_cast<int>(i * 5 - 100000); }
    int64_t next = 0;
    template<class A> int64_t lookup(const A& a)
    {
        if constexpr (PTR) { auto* p = c.find(a); return p == nullptr ? -1 : p->id; }
        else { auto f = c.find(a); return static_cast<bool>(f == c.end()) ? -1 : (*f).id; }
    }
    void grow(size_t n)
    {
        for (size_t i = 0; i < n; ++i) {
            int64_t id = next++;
            std::optional<size_t> r;
            if constexpr (DUAL) r = c.insert(key(id), key2(id), id);
            else r = c.insert(key(id), id);
            VCHECK(r && *r == m.size(), "large.insert", "insertion of element %zu returned %lld", m.size(), r ? static_cast<long long>(*r) : -1LL);
            m.push_back(id);
        }
        vp::evmax("max_mapped_elements", m.size());
    }
    void check(const char* w)
    {
        size_t n = m.size();
        VCHECK(static_cast<size_t>(c.size()) == n, "large.size", "size() is %zu, expected %zu (after %s)", static_cast<size_t>(c.size()), n, w);
        for (size_t i = 0; i < n; ++i) {
            const Val* e;
            if constexpr (PTR) e = c[i];
            else e = &c[i];
            VCHECK(e != nullptr && e->id == m[i], "large.content", "element %zu of %zu is %lld, expected %lld (after %s)", i, n, e ? static_cast<long long>(e->id) : -1LL, static_cast<long long>(m[i]), w);
            int64_t g = lookup(key(m[i]));
            VCHECK(g == m[i], "large.find", "the term of element %zu of %zu (id %lld) finds id %lld (after %s)", i, n, static_cast<long long>(m[i]), static_cast<long long>(g), w);
            if constexpr (DUAL) {
                g = lookup(key2(m[i]));
                VCHECK(g == m[i], "large.find", "the second term of element %zu of %zu (id %lld) finds id %lld (after %s)", i, n, static_cast<long long>(m[i]), static_cast<long long>(g), w);
            }
        }
        for (auto& x : extra) {
            int64_t g = lookup(key(x.first));
            VCHECK(g == x.second, "large.find", "the further term of id %lld finds id %lld (after %s)", static_cast<long long>(x.second), static_cast<long long>(g), w);
        }
        size_t k = 0;
        c.apply([&](const auto& e) {
            int64_t id;
            if constexpr (PTR) id = e->id;
            else id = e.id;
            VCHECK(k < n && id == m[k], "large.apply", "apply visits id %lld as element %zu of %zu (after %s)", static_cast<long long>(id), k, n, w);
            ++k;
        });
        VCHECK(k == n, "large.apply", "apply visits %zu of %zu elements (after %s)", k, n, w);
        if constexpr (PTR) { for (size_t x : {n, n + 65536, size_t(1) << 32, (size_t(1) << 32) + n / 2, size_t(-1)}) VCHECK(c[x] == nullptr, "large.at", "[%zu] of %zu elements is not null", x, n); }
        vp::ev("large_map_verifications");
    }
    void removeAt(size_t i, bool byTerm)
    {
        if constexpr (REMOVE) {
            int64_t id = m[i];
            if (!byTerm) c.removeIndex(i);
            else if (DUAL && (id & 1)) { if constexpr (DUAL) c.remove(key2(id)); }
            else c.remove(key(id));
            m.erase(m.begin() + static_cast<ptrdiff_t>(i));
            VCHECK(lookup(key(id)) == -1, "large.removed", "the term of a removed element (%zu of %zu) finds an element", i, m.size() + 1);
            if constexpr (DUAL) VCHECK(lookup(key2(id)) == -1, "large.removed", "the second term of a removed element (%zu of %zu) finds an element", i, m.size() + 1);
            for (size_t k = 0; k < extra.size();) {
                if (extra[k].second == id) { VCHECK(lookup(key(extra[k].first)) == -1, "large.removed", "a further term of a removed element finds an element"); extra.erase(extra.begin() + static_cast<ptrdiff_t>(k)); }
                else ++k;
            }
            vp::ev("large_map_removals");
        }
    }
    void run()
    {
        for (int round = 0; round < 2; ++round) {
            static const size_t t[] = {32767, 32768, 65535, 65536, 70000, 40000};
            size_t n = t[rd.below(6)] + rd.below(5) - 2;
            VTRACE("mapped %zu", n);
            vp::op(n);
            grow(n);
            if constexpr (ALIAS) for (int k = 0; k < 20; ++k) {
                size_t i = k < 4 ? n - 1 - static_cast<size_t>(k) : (rd.u16() * 7919u) % n;
                int64_t term = 1000000 + round * 1000 + k;
                bool r = c.addSearchTermForIndex(key(term), i);
                VCHECK(r, "large.alias", "a further term for element %zu of %zu is refused", i, n);
                extra.emplace_back(term, m[i]);
                for (size_t x : {n + static_cast<size_t>(k), n + 65536, (size_t(1) << 32) + i, size_t(-1)}) VCHECK(!c.addSearchTermForIndex(key(2000000 + k), x), "large.alias", "a term for element %zu of %zu is accepted", x, n);
            }
            check("insertions");
            if constexpr (REMOVE) {
                for (int k = 0; k < 6; ++k) {
                    size_t i = k == 0 ? 0 : k == 1 ? m.size() - 1 : (rd.u16() * 7919u) % m.size();
                    removeAt(i, rd.below(2));
                }
                size_t before = m.size();
                for (size_t x : {m.size(), m.size() + 65536, (size_t(1) << 32) + 3, size_t(-1)}) c.removeIndex(x);
                VCHECK(static_cast<size_t>(c.size()) == before, "large.size", "removing an element beyond the end changed the size");
                check("removals");
                grow(500);
                check("insertions after removals");
            }
            if constexpr (!PTR) {
                size_t k = 0;
                c.modify([&](auto& e) { e.id += 0; ++k; });
                VCHECK(k == m.size(), "large.apply", "modify visits %zu of %zu elements", k, m.size());
            }
            if (round == 0) {
                if (rd.below(2)) { C d(std::move(c)); c = std::move(d); check("moves"); }
                c.clear();
                int64_t old = m.back();
                VCHECK(c.size() == 0 && lookup(key(old)) == -1, "large.clear", "elements or terms remain after clear");
                m.clear();
                extra.clear();
                if (rd.below(2)) next -= 1000;  // terms used before
            }
        }
    }
};
template<class C, bool DUAL, bool PTR, bool REMOVE, bool ALIAS, class K = std::string> void largeMap(Rnd& rd) { LargeMap<C, DUAL, PTR, REMOVE, ALIAS, K> r{rd, {}, {}, {}}; r.run(); }

// ------------------------------------------------------------------ long runs of priority choices
struct Blk final : public BasicWorkBlock {
    bool done = false;
    void execute() override { done = true; }
    bool isFinished() const override { return done; }
};
struct Gate final : public BasicWorkBlock {
    std::promise<void> started;
    std::promise<void> open;
    std::atomic<bool> fin{false};
    void execute() override { started.set_value(); open.get_future().wait(); fin = true; }
    bool isFinished() const override { return fin; }
};
struct Picks {
    Rnd& rd;
    std::shared_ptr<Gate> gate = std::make_shared<Gate>();
    WorkQueue wq{1};
    std::deque<std::shared_ptr<BasicWorkBlock>> q[3];  // low, medium, high
    int ratio = 4, med = -1;
    bool first = true;
    explicit Picks(Rnd& r) : rd(r) { wq.addWorkBlock(gate); gate->started.get_future().wait(); }
    ~Picks() { gate->open.set_value(); }
    static WorkQueue::WorkPriority pr(int k) { return k == 2 ? WorkQueue::WorkPriority::high : k == 1 ? WorkQueue::WorkPriority::medium : WorkQueue::WorkPriority::low; }
    void add(int k, size_t n)
    {
        if (n > 3 && rd.below(2)) {
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            for (size_t i = 0; i < n; ++i) v.push_back(std::make_shared<Blk>());
            q[k].insert(q[k].end(), v.begin(), v.end());
            wq.addWorkBlock(v, pr(k));
        } else for (size_t i = 0; i < n; ++i) { auto b = std::make_shared<Blk>(); q[k].push_back(b); wq.addWorkBlock(b, pr(k)); }
    }
    void counts()
    {
        size_t n = q[0].size() + q[1].size() + q[2].size();
        VCHECK(static_cast<size_t>(wq.numBlock()) == n, "picks.count", "numBlock() is %zu with %zu blocks waiting", static_cast<size_t>(wq.numBlock()), n);
        VCHECK(wq.isEmpty() == (n == 0), "picks.empty", "isEmpty() is %d with %zu blocks waiting", wq.isEmpty(), n);
    }
    void pick()
    {
        bool hi = !q[2].empty(), me = !q[1].empty(), lo = !q[0].empty();
        auto w = wq.getWorkBlock();
        if (!hi && !me && !lo) { VCHECK(w == nullptr, "picks.none", "a block is delivered by an empty queue"); return; }
        VCHECK(w != nullptr, "picks.gap", "no block is delivered with %zu high, %zu medium, %zu low ones waiting", q[2].size(), q[1].size(), q[0].size());
        int k = hi && w == q[2].front() ? 2 : me && w == q[1].front() ? 1 : lo && w == q[0].front() ? 0 : -1;
        VCHECK(k >= 0, "picks.order", "the block delivered is not the oldest of its priority");
        VCHECK(k == 2 || !hi, "picks.high", "a %s block is delivered while a high priority one waits", k ? "medium" : "low");
        q[k].pop_front();
        vp::ev("picks");
        if (k == 2) return;
        if (!me || !lo) { med = -1; return; }
        if (med < 0) { med = 0; first = true; }
        if (k == 1) { VCHECK(++med <= ratio, "picks.ratio", "%d medium blocks in a row although a low one waits (ratio %d)", med, ratio); }
        else {
            VCHECK(first || med == ratio, "picks.ratio", "%d medium blocks between two low ones (ratio %d)", med, ratio);
            first = false;
            med = 0;
            vp::ev("low_picks_among_medium");
        }
    }
    void setRatio(int r) { wq.setPriorityRatio(r); ratio = r > 0 ? r : 4; med = -1; }
    void run()
    {
        static const size_t sizes[] = {0, 1, 5, 40, 130, 260, 700, 3000, 33000, 66000};
        static const int ratios[] = {1, 2, 3, 4, 7, 100, 127, 128, 255, 256, 300, 1000, 32768, 40000, 70000, 0, -1, INT32_MIN, INT32_MAX, 5};
        long budget = 150000;
        for (int step = 0; step < 14 && budget > 0; ++step) {
            if (rd.below(3) == 0) setRatio(ratios[rd.below(20)]);
            unsigned big = rd.below(3);
            for (int k = 0; k < 3; ++k) { size_t n = sizes[rd.below(big == 0 ? 10 : 7)]; if (static_cast<long>(n) > budget) n = 3; add(k, n); budget -= static_cast<long>(n); vp::op(n * 3 + static_cast<unsigned>(k)); }
            counts();
            size_t left = q[0].size() + q[1].size() + q[2].size();
            VTRACE("ratio %d, %zu/%zu/%zu waiting", ratio, q[2].size(), q[1].size(), q[0].size());
            size_t n = rd.below(2) ? left : rd.below(static_cast<uint32_t>(left) + 1);
            for (size_t i = 0; i < n; ++i) { pick(); if (i % 997 == 0) counts(); if (budget > 0 && rd.below(500) == 0) { add(static_cast<int>(rd.below(3)), 1); --budget; } }
            counts();
            vp::evmax("blocks_waiting", left);
        }
        while (!q[0].empty() || !q[1].empty() || !q[2].empty()) pick();
        pick();
        counts();
    }
};
void extremePicks(Rnd& rd)
{
    Picks p(rd);
    auto b = std::make_shared<Blk>();
    for (uint64_t i = 0; i < (uint64_t(1) << 31) + 3; ++i) {
        p.wq.addWorkBlock(b);
        auto w = p.wq.getWorkBlock();
        if (w != b) vp::vfail("picks.gap", "the only block waiting is not delivered");
        vp::op(1);
    }
    vp::ev("extreme_picks");
    p.add(1, 200);
    p.add(0, 20);
    while (!p.q[0].empty() || !p.q[1].empty()) p.pick();
    p.counts();
}
}  // namespace

void runCase(vp::Rd& bytes)
{
    Rnd rd(bytes);
    const std::string& m = vp::S().mode;
    unsigned k = rd.below(4);
    vp::op(k);
    if (m == "vector" || m == "deque") {
        unsigned o = rd.below(5);
        vp::op(o);
        switch (o) {
            case 0: large<0>(rd, m == "deque"); break;
            case 1: large<1>(rd, m == "deque"); break;
            case 2: large<6>(rd, m == "deque"); break;
            case 3: large<13>(rd, m == "deque"); break;
            default: large<17>(rd, m == "deque"); break;
        }
    }
    else if (m == "single" || m == "dual") {
        using S = std::string;
        unsigned o = m == "single" ? rd.below(5) : 5 + rd.below(4);
        vp::op(o);
        switch (o) {
            case 0: largeMap<MappedVector<Val, int>, false, false, true, true, int>(rd); break;
            case 1: largeMap<MappedVector<Val, S, reference_stability::stable, 5>, false, false, false, true>(rd); break;
            case 2: largeMap<StringMappedVector<Val, reference_stability::unstable>, false, false, true, false>(rd); break;
            case 3: largeMap<MappedPointerVector<Val, S>, false, true, true, true>(rd); break;
            case 4: largeMap<StringMappedVector<Val, reference_stability::stable, 5>, false, false, false, false>(rd); break;
            case 5: largeMap<DualMappedVector<Val, S, int>, true, false, true, true>(rd); break;
            case 6: largeMap<DualStringMappedVector<Val, int, reference_stability::unstable>, true, false, true, true>(rd); break;
            case 7: largeMap<DualMappedPointerVector<Val, S, int>, true, true, true, false>(rd); break;
            default: largeMap<DualMappedVector<Val, S, int, reference_stability::stable, 0>, true, false, false, true>(rd); break;
        }
    }
    else if (m == "picks") { Picks p(rd); p.run(); }
    else if (m == "xpicks") extremePicks(rd);
    else try {
    if (m == "xvector") { if (k & 1) extreme<StableBlockVector<Nil, 22, MapAlloc<Nil>>, false>(rd); else extreme<StableBlockVector<Nil, 30, MapAlloc<Nil>>, false>(rd); }
    else if (m == "xdeque") { if (k & 1) extreme<StableBlockDeque<Nil, 22, MapAlloc<Nil>>, true>(rd); else extreme<StableBlockDeque<Nil, 30, MapAlloc<Nil>>, true>(rd); }
    else if (m == "xstack") extremeStack(rd);
    else if (m == "xcirc") extremeCirc(rd);
    } catch (const NoSpace&) { vp::ev("no_address_space"); }
}
