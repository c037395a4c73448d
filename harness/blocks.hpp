// Engine E2: StableBlockVector / StableBlockDeque against a sequence model, with element registry,
// allocation ledger, address tracking and fault injection.
#pragma once
#include "common.hpp"
#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/StableBlockVector.hpp"
#include <list>
#include <memory>
#include <new>
#include <numeric>
#include <stdexcept>
#include <string>

namespace bl {
struct Injected {};  // thrown by element constructors

// ---------------------------------------------------------------- registry of live elements (no heap)
struct Registry {
    static constexpr size_t CAP = 1 << 17;
    const void** slot;
    size_t live = 0, tomb = 0;
    uint64_t ctors = 0, dtors = 0;
    static const void* dead() { return reinterpret_cast<const void*>(1); }
    Registry() : slot(static_cast<const void**>(mmap(nullptr, CAP * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0))) {}
    static size_t h(const void* p) { return vp::mix64(reinterpret_cast<uint64_t>(p)) & (CAP - 1); }
    bool has(const void* p) const
    {
        for (size_t i = h(p);; i = (i + 1) & (CAP - 1)) { if (slot[i] == p) return true; if (!slot[i]) return false; }
    }
    void add(const void* p)
    {
        ++ctors; ++live;
        if (live + tomb > CAP / 2) rehash();
        for (size_t i = h(p);; i = (i + 1) & (CAP - 1)) if (!slot[i] || slot[i] == dead()) { if (slot[i] == dead()) --tomb; slot[i] = p; return; }
    }
    void del(const void* p)
    {
        ++dtors;
        for (size_t i = h(p);; i = (i + 1) & (CAP - 1)) { if (slot[i] == p) { slot[i] = dead(); ++tomb; --live; return; } if (!slot[i]) return; }
    }
    void rehash()
    {
        auto* old = slot;
        slot = static_cast<const void**>(mmap(nullptr, CAP * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        tomb = 0;
        for (size_t k = 0; k < CAP; ++k) if (old[k] && old[k] != dead()) for (size_t i = h(old[k]);; i = (i + 1) & (CAP - 1)) if (!slot[i]) { slot[i] = old[k]; break; }
        munmap(old, CAP * sizeof(void*));
    }
    void reset() { for (size_t i = 0; i < CAP; ++i) if (slot[i]) slot[i] = nullptr; live = tomb = 0; }
};
inline Registry& reg() { static Registry* r = new Registry; return *r; }
inline long& throwIn() { static long n = -1; return n; }  // <0: disarmed
inline long& allocFailIn() { static long n = -1; return n; }
inline void maybeThrow()
{
    if (throwIn() >= 0 && throwIn()-- == 0) { vp::ev("injected_ctor_throw"); throw Injected{}; }
}

struct Tracked {
    const Tracked* self;
    uint64_t id;
    void born() { VCHECK(!reg().has(this), "lifetime.double_construct", "element constructed at %p where a live element already is", static_cast<const void*>(this)); self = this; reg().add(this); }
    void alive(const char* w) const
    {
        VCHECK(reg().has(this), "lifetime.dead_access", "%s on storage without a live element", w);
        VCHECK(self == this, "lifetime.moved_bytes", "%s on an element whose bytes were relocated", w);
    }
    Tracked() : id(0) { maybeThrow(); born(); }
    explicit Tracked(uint64_t v) : id(v) { maybeThrow(); born(); }
    Tracked(const Tracked& o) { maybeThrow(); o.alive("copy construction from"); id = o.id; born(); }
    Tracked(Tracked&& o) { maybeThrow(); o.alive("move construction from"); id = o.id; o.id = ~0ULL; born(); }
    Tracked& operator=(const Tracked& o) { alive("assignment to"); o.alive("assignment from"); maybeThrow(); id = o.id; return *this; }
    Tracked& operator=(Tracked&& o) { alive("move assignment to"); o.alive("move assignment from"); maybeThrow(); uint64_t v = o.id; o.id = ~0ULL; id = v; return *this; }
    ~Tracked()
    {
        VCHECK(reg().has(this), "lifetime.bad_destroy", "destructor run on storage without a live element (double destroy or never constructed)");
        VCHECK(self == this, "lifetime.moved_bytes", "destructor run on an element whose bytes were relocated");
        self = nullptr;
        reg().del(this);
    }
};
struct MoveOnly {
    std::unique_ptr<uint64_t> p;
    MoveOnly() : p(new uint64_t(0)) {}
    explicit MoveOnly(uint64_t v) : p(new uint64_t(v)) {}
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
};
struct alignas(64) Big {
    uint64_t w[24];
    Big() { fill(0); }
    explicit Big(uint64_t v) { fill(v); }
    void fill(uint64_t v) { for (int i = 0; i < 24; ++i) w[i] = v + static_cast<uint64_t>(i); }
};

/// like a JSON value: a list of values is a value too, so Json{j} is not a copy of j
struct Json {
    uint64_t v = 0;
    std::vector<Json> list;
    Json() = default;
    explicit Json(uint64_t x) : v(x) {}
    Json(std::initializer_list<Json> l) : list(l) {}
};

template<class T> struct ET {};
template<> struct ET<Json> {
    static constexpr bool copyable = true, tracked = false;
    static Json make(uint64_t v) { Json j; j.v = v; if (v & 1) { j.list.resize(1); j.list[0].v = v * 3; } return j; }
    static uint64_t get(const Json& j) { VCHECK(j.list.empty() || (j.v && j.list.size() == 1 && j.list[0].v == j.v * 3 && j.list[0].list.empty()), "content", "an element is a list that holds the inserted value"); return j.v; }
    static const char* name() { return "json-like"; }
};
template<> struct ET<int> {
    static constexpr bool copyable = true, tracked = false;
    static int make(uint64_t v) { return static_cast<int>(v); }
    static uint64_t get(const int& v) { return static_cast<uint64_t>(static_cast<unsigned>(v)); }
    static const char* name() { return "int"; }
};
template<> struct ET<std::string> {
    static constexpr bool copyable = true, tracked = false;
    static std::string make(uint64_t v) { if (v == 0) return {}; std::string s = std::to_string(v); if (v & 1) s += "-a-long-suffix-that-leaves-the-small-buffer"; return s; }
    static uint64_t get(const std::string& v) { return strtoull(v.c_str(), nullptr, 10); }
    static const char* name() { return "string"; }
};
template<> struct ET<Tracked> {
    static constexpr bool copyable = true, tracked = true;
    static Tracked make(uint64_t v) { return Tracked(v); }
    static uint64_t get(const Tracked& v) { v.alive("read"); return v.id; }
    static const char* name() { return "tracked"; }
};
template<> struct ET<MoveOnly> {
    static constexpr bool copyable = false, tracked = false;
    static MoveOnly make(uint64_t v) { return MoveOnly(v); }
    static uint64_t get(const MoveOnly& v) { VCHECK(v.p != nullptr, "content", "element is in moved-from state"); return *v.p; }
    static const char* name() { return "moveonly"; }
};
template<> struct ET<Big> {
    static constexpr bool copyable = true, tracked = false;
    static Big make(uint64_t v) { return Big(v); }
    static uint64_t get(const Big& v)
    {
        VCHECK(reinterpret_cast<uint64_t>(&v) % alignof(Big) == 0, "alignment", "over-aligned element at a misaligned address");
        for (int i = 0; i < 24; ++i) VCHECK(v.w[i] == v.w[0] + static_cast<uint64_t>(i), "content", "element bytes damaged");
        return v.w[0];
    }
    static const char* name() { return "overaligned"; }
};

// ---------------------------------------------------------------- allocator with ledger
struct Ledger {
    static constexpr size_t CAP = 1 << 15;
    struct E { void* p; size_t n; };
    E* e = static_cast<E*>(mmap(nullptr, CAP * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    size_t used = 0;
    long live = 0;
    uint64_t total = 0;
    void add(void* p, size_t n)
    {
        ++live; ++total;
        for (size_t i = vp::mix64(reinterpret_cast<uint64_t>(p)) & (CAP - 1), k = 0; k < CAP; ++k, i = (i + 1) & (CAP - 1))
            if (!e[i].p || e[i].p == reinterpret_cast<void*>(1)) { if (!e[i].p) ++used; e[i] = {p, n}; return; }
        fprintf(stderr, "ledger full\n"); exit(3);
    }
    void del(void* p, size_t n)
    {
        for (size_t i = vp::mix64(reinterpret_cast<uint64_t>(p)) & (CAP - 1), k = 0; k < CAP; ++k, i = (i + 1) & (CAP - 1)) {
            if (e[i].p == p) {
                VCHECK(e[i].n == n, "alloc.size", "block of %zu elements returned to the allocator as %zu elements", e[i].n, n);
                e[i].p = reinterpret_cast<void*>(1);
                --live;
                return;
            }
            if (!e[i].p) break;
        }
        vp::vfail("alloc.unknown", "a pointer that the allocator did not hand out (or already got back) was deallocated");
    }
    void reset() { if (used) memset(e, 0, CAP * sizeof(E)); used = 0; live = 0; }
};
inline Ledger& ledger() { static Ledger* l = new Ledger; return *l; }

template<class T> struct TrackAlloc {
    using value_type = T;
    T* allocate(size_t n)
    {
        if (allocFailIn() >= 0 && allocFailIn()-- == 0) { vp::ev("injected_alloc_failure"); throw std::bad_alloc(); }
        T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
        memset(static_cast<void*>(p), 0xCD, n * sizeof(T));
        ledger().add(p, n);
        return p;
    }
    void deallocate(T* p, size_t n)
    {
        ledger().del(p, n);
        if constexpr (ET<T>::tracked) for (size_t i = 0; i < n; ++i) VCHECK(!reg().has(p + i), "lifetime.leak_in_block", "a block was freed while element %zu in it is alive", i);
        ::operator delete(static_cast<void*>(p), std::align_val_t(alignof(T)));
    }
};

using CaseFn = void (*)(vp::Rd&);
struct Config { const char* name; CaseFn fn; };
std::vector<Config>& configs(bool deque);
struct Registrar { Registrar(bool dq, const char* n, CaseFn f) { configs(dq).push_back({n, f}); } };

template<class C, class T, unsigned N, bool DEQ, bool ALLOC>
struct Runner {
    static constexpr long BS = 1L << N;
    struct Ent { uint64_t id; const void* at; };
    struct Slot {
        std::unique_ptr<C> c;
        std::vector<Ent> m;
        size_t hw = 0;  // most elements this storage ever held
        bool moved = false;
    };
    vp::Rd& rd;
    Slot s[3];
    int ns;
    uint64_t nextId = 1;
    uint64_t opn = 0;
    bool crossed = false;

    explicit Runner(vp::Rd& r) : rd(r) {}

    // ------------------------------------------------------------ verification
    void verifyOne(Slot& x, const char* w, bool full)
    {
        C& c = *x.c;
        const C& k = c;
        VCHECK(k.size() == x.m.size(), "size", "size()=%zu, expected %zu (after %s)", k.size(), x.m.size(), w);
        VCHECK(k.empty() == x.m.empty(), "empty", "empty()=%d with %zu elements (after %s)", k.empty(), x.m.size(), w);
        size_t n = x.m.size();
        auto one = [&](size_t i) {
            const T& e = (i & 1) ? k[i] : c[i];
            VCHECK(static_cast<const void*>(&e) == x.m[i].at, "address", "element %zu of %zu moved (after %s)", i, n, w);
            uint64_t g = ET<T>::get(e);
            VCHECK(g == x.m[i].id, "content", "element %zu of %zu is %llu, expected %llu (after %s)", i, n, static_cast<unsigned long long>(g), static_cast<unsigned long long>(x.m[i].id), w);
        };
        if (n) {
            VCHECK(&c.front() == x.m.front().at && &k.front() == x.m.front().at, "front", "front() is not element 0 of %zu (after %s)", n, w);
            VCHECK(&c.back() == x.m.back().at && &k.back() == x.m.back().at, "back", "back() is not the last of %zu elements (after %s)", n, w);
            if (full || n <= 48) for (size_t i = 0; i < n; ++i) one(i);
            else {
                one(0); one(1); one(n - 1); one(n - 2); one(n / 2);
                for (int j = 0; j < 8; ++j) one(vp::mix64(opn * 64 + static_cast<uint64_t>(j)) % n);
            }
        }
        VCHECK(static_cast<bool>(c.begin() == c.end()) == x.m.empty(), "iter.empty", "begin()==end() is %d with %zu elements (after %s)", static_cast<bool>(c.begin() == c.end()), n, w);
        VCHECK(static_cast<bool>(k.begin() != k.end()) == !x.m.empty(), "iter.empty", "const begin()!=end() wrong with %zu elements (after %s)", n, w);
        if (x.hw < n) x.hw = n;
    }
    void verify(const char* w)
    {
        bool full = (++opn % 16) == 0;
        size_t tot = 0, bound = 0;
        for (int i = 0; i < ns; ++i) {
            verifyOne(s[i], w, full);
            tot += s[i].m.size();
            bound += s[i].hw / static_cast<size_t>(BS) + 4;
        }
        if constexpr (ET<T>::tracked) VCHECK(reg().live == tot, "lifetime.count", "%zu live elements but the containers hold %zu (after %s)", reg().live, tot, w);
        if constexpr (ALLOC) VCHECK(ledger().live <= static_cast<long>(bound), "alloc.growth", "%ld blocks held although at most %zu were ever needed (after %s)", ledger().live, bound, w);
        vp::evmax("max_elements", tot);
    }
    void readdr(Slot& x) { for (size_t i = 0; i < x.m.size(); ++i) x.m[i].at = &(*x.c)[i]; }
    void stateOf(Slot& x, unsigned kind)
    {
        size_t n = x.m.size();
        vp::state(vp::mix64((n < 300 ? n : 300 + n / static_cast<size_t>(BS)) * 64 + kind + (x.moved ? 32768 : 0)));
    }

    // ------------------------------------------------------------ single-element operations
    static void disarm() { throwIn() = allocFailIn() = -1; vp::newFailIn = -1; }
    template<class F> bool guarded(F&& f)
    {
        try { f(); }
        catch (const Injected&) { disarm(); vp::ev("exception_propagated"); return false; }
        catch (const std::bad_alloc&) { disarm(); vp::ev("exception_propagated"); return false; }
        disarm();
        return true;
    }
    /// arm a fault sometimes
    void arm()
    {
        unsigned k = rd.below(12);
        if (k == 0 && ET<T>::tracked) throwIn() = rd.below(4);
        else if (k == 1 && ALLOC) allocFailIn() = 0;
        else if (k == 2) vp::newFailIn = rd.below(3);  // block tables, free lists, what elements allocate
    }
    void addBack(Slot& x, unsigned kind)
    {
        uint64_t id = nextId++;
        bool before = x.m.size() % static_cast<size_t>(BS) == 0;
        bool ok = guarded([&] {
            switch (kind % 3) {
                case 0:
                    if constexpr (ET<T>::copyable) {
                        if (throwIn() >= 0 || allocFailIn() >= 0 || vp::newFailIn >= 0) { long t = throwIn(), a = allocFailIn(), w = vp::newFailIn; disarm(); const T v = ET<T>::make(id); throwIn() = t; allocFailIn() = a; vp::newFailIn = w; x.c->push_back(v); }
                        else { const T v = ET<T>::make(id); x.c->push_back(v); }
                        break;
                    }
                    [[fallthrough]];
                case 1: x.c->push_back(ET<T>::make(id)); break;
                default:
                    if constexpr (std::is_same<T, int>::value) x.c->emplace_back(static_cast<int>(id));
                    else if constexpr (std::is_same<T, std::string>::value) x.c->emplace_back(ET<T>::make(id));
                    else x.c->emplace_back(id);
            }
        });
        if (ok) { x.m.push_back({id, nullptr}); x.m.back().at = &(*x.c)[x.m.size() - 1]; crossed |= before; vp::ev("push_back"); }
    }
    void addFront(Slot& x, unsigned kind)
    {
        if constexpr (DEQ) {
            uint64_t id = nextId++;
            bool ok = guarded([&] {
                switch (kind % 3) {
                    case 0:
                        if constexpr (ET<T>::copyable) {
                            long t = throwIn(), a = allocFailIn(), w = vp::newFailIn; disarm(); const T v = ET<T>::make(id); throwIn() = t; allocFailIn() = a; vp::newFailIn = w;
                            x.c->push_front(v);
                            break;
                        }
                        [[fallthrough]];
                    case 1: x.c->push_front(ET<T>::make(id)); break;
                    default:
                        if constexpr (std::is_same<T, int>::value) x.c->emplace_front(static_cast<int>(id));
                        else if constexpr (std::is_same<T, std::string>::value) x.c->emplace_front(ET<T>::make(id));
                        else x.c->emplace_front(id);
                }
            });
            if (ok) { x.m.insert(x.m.begin(), {id, nullptr}); x.m.front().at = &(*x.c)[0]; vp::ev("push_front"); }
        } else addBack(x, kind);
    }
    /// removing elements needs no memory that could be missing
    template<class F> void removing(F&& f, const char* what)
    {
        if (++removals % 5 == 0) { vp::newFailIn = 0; vp::ev("removals_without_memory"); }
        try { f(); }
        catch (const std::bad_alloc&) { vp::newFailIn = -1; vp::vfail("remove.throws", "%s failed for lack of memory", what); }
        vp::newFailIn = -1;
    }
    unsigned removals = 0;
    void popBack(Slot& x) { removing([&] { x.c->pop_back(); }, "pop_back"); if (!x.m.empty()) x.m.pop_back(); else vp::ev("pop_on_empty"); vp::ev("pop_back"); }
    void popFront(Slot& x)
    {
        if constexpr (DEQ) { removing([&] { x.c->pop_front(); }, "pop_front"); if (!x.m.empty()) x.m.erase(x.m.begin()); else vp::ev("pop_on_empty"); vp::ev("pop_front"); }
        else popBack(x);
    }

    // ------------------------------------------------------------ iterators
    void iterate(Slot& x)
    {
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size(), i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            VCHECK(i < n, "iter.forward", "iteration visits more than the %zu elements", n);
            VCHECK(&*it == x.m[i].at, "iter.forward", "iterator step %zu of %zu is at the wrong element", i, n);
            VCHECK(static_cast<bool>(it), "iter.bool", "an iterator to an element converts to false");
        }
        VCHECK(i == n, "iter.forward", "iteration visits %zu of %zu elements", i, n);
        i = 0;
        for (auto it = k.begin(); it != k.end(); it++, ++i) VCHECK(i < n && &*it == x.m[i].at, "iter.const", "const iterator step %zu of %zu is at the wrong element", i, n);
        VCHECK(i == n, "iter.const", "const iteration visits %zu of %zu elements", i, n);
        i = 0;
        for (auto& e : c) { VCHECK(&e == x.m[i].at, "iter.range", "range-for step %zu", i); ++i; }
        auto it = c.end();
        for (i = n; i > 0; --i) { if (i & 1) --it; else it--; VCHECK(&*it == x.m[i - 1].at, "iter.backward", "backward step to element %zu of %zu is at the wrong element", i - 1, n); }
        VCHECK(it == c.begin(), "iter.backward", "walking back from end() does not reach begin() (%zu elements)", n);
        auto ci = k.end();
        for (i = n; i > 0; --i) { --ci; VCHECK(&*ci == x.m[i - 1].at, "iter.backward", "const backward step to element %zu of %zu", i - 1, n); }
        VCHECK(k.cbegin() == k.begin() && k.cend() == k.end(), "iter.const", "cbegin/cend differ from begin/end");
        VCHECK(c.begin() == k.begin() && c.end() == k.end(), "iter.mixed", "iterator and const_iterator to the same place compare different (%zu elements)", n);
        if (n) VCHECK(c.begin() != k.end(), "iter.mixed", "iterator begin compares equal to const end with %zu elements", n);
        vp::ev("full_iterations");
    }
    void jumps(Slot& x)
    {
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size();
        if (n == 0) return;
        for (int j = 0; j < 6; ++j) {
            size_t a = rd.u16() % (n + 1), b = rd.u16() % (n + 1);
            ptrdiff_t d = static_cast<ptrdiff_t>(b) - static_cast<ptrdiff_t>(a);
            auto at = [&](auto& it, size_t i, const char* w) {
                if (i < n) VCHECK(static_cast<const void*>(&*it) == x.m[i].at, "iter.jump", "%s from %zu by %td lands on the wrong element (%zu elements)", w, a, d, n);
            };
            auto ia = c.begin() + static_cast<ptrdiff_t>(a);
            at(ia, a, "begin()+");
            VCHECK((a == n) == (ia == c.end()), "iter.jump", "begin()+%zu compared with end() of %zu elements", a, n);
            auto i1 = ia; i1 += d; at(i1, b, "+=");
            auto i2 = ia; i2 -= -d; at(i2, b, "-=");
            auto i3 = ia + d; at(i3, b, "+");
            auto i4 = ia - (-d); at(i4, b, "-");
            VCHECK(i1 == i2 && i2 == i3 && i3 == i4, "iter.jump", "equal jumps give different iterators");
            VCHECK((i1 == ia) == (a == b), "iter.jump", "iterators to elements %zu and %zu compare wrong", a, b);
            auto ie = c.end() - static_cast<ptrdiff_t>(n - b); at(ie, b, "end()-");
            VCHECK(ie == i1, "iter.jump", "end()-k and begin()+k differ for element %zu", b);
            auto ci = k.begin() + static_cast<ptrdiff_t>(a); ci += d; at(ci, b, "const +=");
            VCHECK(ci == i1, "iter.mixed", "const and non-const iterator to element %zu differ", b);
            auto cj = k.end() - static_cast<ptrdiff_t>(n - a); cj -= -d; at(cj, b, "const -=");
            if (b < n) { auto p = i1; auto q = p++; VCHECK(q == i1, "iter.post", "postfix increment"); at(q, b, "post++"); auto r = p--; (void)r; VCHECK(p == i1, "iter.post", "++ then -- moves"); if constexpr (ET<T>::tracked) VCHECK(i1->id == x.m[b].id, "iter.arrow", "operator->"); }
            vp::ev("iterator_jumps");
        }
    }
    void algorithms(Slot& x)
    {
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size();
        auto isOdd = [](const T& e) { return (ET<T>::get(e) & 1) != 0; };
        size_t want = 0;
        for (auto& e : x.m) want += e.id & 1;
        size_t got = 0;
        std::for_each(k.begin(), k.end(), [&](const T& e) { got += isOdd(e) ? 1u : 0u; });
        VCHECK(got == want, "algo", "for_each over %zu elements counts %zu, expected %zu", n, got, want);
        auto dist = std::distance(k.begin(), k.end());
        VCHECK(static_cast<size_t>(dist) == n, "algo", "std::distance(begin,end) is %zd for %zu elements", static_cast<ssize_t>(dist), n);
        got = static_cast<size_t>(std::count_if(c.begin(), c.end(), isOdd));
        VCHECK(got == want, "algo", "count_if over %zu elements gives %zu, expected %zu", n, got, want);
        if (n) {
            size_t j = rd.u16() % n;
            auto f = std::find_if(k.begin(), k.end(), [&](const T& e) { return ET<T>::get(e) == x.m[j].id; });
            VCHECK(f != k.end(), "algo", "find_if misses element %zu of %zu", j, n);
            size_t first = 0;
            while (x.m[first].id != x.m[j].id) ++first;
            VCHECK(&*f == x.m[first].at, "algo", "find_if finds the wrong element");
            auto nx = std::next(k.begin(), static_cast<ptrdiff_t>(j));
            VCHECK(&*nx == x.m[j].at, "algo", "std::next by %zu of %zu", j, n);
            auto pv = std::prev(k.end(), static_cast<ptrdiff_t>(n - j));
            VCHECK(&*pv == x.m[j].at, "algo", "std::prev by %zu of %zu", n - j, n);
            uint64_t best = 0, bi = 0;
            for (size_t i = 0; i < n; ++i) if (x.m[i].id > best || i == 0) { best = x.m[i].id; bi = i; }
            auto mx = std::max_element(k.begin(), k.end(), [](const T& p, const T& q) { return ET<T>::get(p) < ET<T>::get(q); });
            VCHECK(&*mx == x.m[bi].at, "algo", "max_element over %zu elements", n);
        }
        if constexpr (std::is_same<T, int>::value) {
            long sum = std::accumulate(k.begin(), k.end(), 0L), ws = 0;
            for (auto& e : x.m) ws += static_cast<int>(e.id);
            VCHECK(sum == ws, "algo", "accumulate over %zu elements", n);
        }
        if constexpr (ET<T>::copyable) {
            std::vector<T> out(k.begin(), k.end());
            VCHECK(out.size() == n, "algo", "std::vector built from the iterators has %zu of %zu elements", out.size(), n);
            for (size_t i = 0; i < n; ++i) VCHECK(ET<T>::get(out[i]) == x.m[i].id, "algo", "std::vector built from the iterators differs at %zu", i);
        }
        vp::ev("algorithms");
    }

    // ------------------------------------------------------------ whole-container operations
    void fresh(Slot& x)
    {
        unsigned k = rd.below(6);
        x.m.clear();
        x.hw = 0;
        x.moved = false;
        x.c.reset();
        if (!ET<T>::copyable || k < 2) { x.c.reset(new C()); VTRACE("default"); }
        else if constexpr (ET<T>::copyable) {
            size_t n;
            switch (rd.below(5)) {
                case 0: n = rd.below(4); break;
                case 1: n = static_cast<size_t>(BS) * rd.below(6) + rd.below(3); break;
                case 2: n = static_cast<size_t>(BS) * (60 + rd.below(8)); break;
                case 3: n = 0; break;
                default: n = rd.u8(); break;
            }
            if (n > 3000) n = 3000;
            if (k == 2) {
                bool ok = guarded([&] { arm(); x.c.reset(new C(n)); });
                VTRACE("sized(%zu)=%d", n, ok);
                if (ok) { x.m.assign(n, {0, nullptr}); vp::ev("construct_sized"); }
            } else {
                uint64_t id = nextId++;
                bool ok = guarded([&] { T v = ET<T>::make(id); arm(); x.c.reset(new C(n, v)); });
                VTRACE("sized(%zu,v)=%d", n, ok);
                if (ok) { x.m.assign(n, {id, nullptr}); vp::ev("construct_sized_value"); }
            }
            if (!x.c) { x.c.reset(new C()); vp::ev("constructor_threw"); }
            readdr(x);
        }
        x.hw = x.m.size();
    }
    /// contents after a failed whole-container assignment: every element alive and either old or new
    void resync(Slot& x, const std::vector<Ent>& oldm, const std::vector<uint64_t>& src)
    {
        size_t n = x.c->size();
        VCHECK(n <= std::max(oldm.size(), src.size()), "exception.size", "after an exception the container has %zu elements (was %zu, assigning %zu)", n, oldm.size(), src.size());
        x.m.clear();
        for (size_t i = 0; i < n; ++i) {
            uint64_t g = ET<T>::get((*x.c)[i]);
            bool ok = (i < oldm.size() && g == oldm[i].id) || (i < src.size() && g == src[i]);
            VCHECK(ok, "exception.content", "after an exception element %zu is neither the old nor the new value", i);
            x.m.push_back({g, &(*x.c)[i]});
        }
    }
    std::vector<uint64_t> ids(const Slot& x) { std::vector<uint64_t> r; for (auto& e : x.m) r.push_back(e.id); return r; }
    void setIds(Slot& x, const std::vector<uint64_t>& v) { x.m.clear(); for (auto i : v) x.m.push_back({i, nullptr}); VCHECK(x.c->size() == v.size(), "size", "size %zu after assignment of %zu elements", x.c->size(), v.size()); readdr(x); }

    void whole(unsigned k, int ai, int bi)
    {
        Slot &a = s[ai], &b = s[bi];
        switch (k) {
            case 0:  // copy construct
                if constexpr (ET<T>::copyable) {
                    std::unique_ptr<C> n;
                    arm();
                    bool ok = guarded([&] { n.reset(new C(static_cast<const C&>(*a.c))); });
                    VTRACE("[%d]=copy of [%d] (%zu)=%d", bi, ai, a.m.size(), ok);
                    if (!ok) break;
                    auto v = ids(a);
                    b.c = std::move(n);
                    b.hw = v.size();
                    b.moved = false;
                    setIds(b, v);
                    vp::ev("copy_construct");
                }
                break;
            case 1: case 2:
                if constexpr (ET<T>::copyable) {
                    auto v = ids(a);
                    auto old = b.m;
                    arm();
                    bool ok = guarded([&] { *b.c = static_cast<const C&>(*a.c); });
                    VTRACE("[%d]<-copy [%d] (%zu)=%d", bi, ai, v.size(), ok);
                    if (b.hw < std::max(v.size(), old.size())) b.hw = std::max(v.size(), old.size());
                    if (ok) { if (ai != bi) setIds(b, v); vp::ev(ai == bi ? "self_copy_assign" : "copy_assign"); }
                    else resync(b, old, v);
                }
                break;
            case 3: {
                VTRACE("[%d]=move of [%d] (%zu)", bi, ai, a.m.size());
                std::unique_ptr<C> n(new C(std::move(*a.c)));
                auto m = std::move(a.m);
                auto hw = a.hw;
                a.m.clear();
                a.hw = 0;
                a.moved = true;
                verifyOne(a, "move construction from it", true);
                b.c = std::move(n);
                b.m = std::move(m);
                b.hw = hw;
                b.moved = false;
                if (ai == bi) a.moved = false;
                vp::ev("move_construct");
                break;
            }
            case 4: case 5:
                if (ai == bi) break;
                VTRACE("[%d]<-move [%d] (%zu)", bi, ai, a.m.size());
                *b.c = std::move(*a.c);
                b.m = std::move(a.m);
                b.hw = a.hw;
                a.m.clear();
                a.hw = 0;
                a.moved = true;
                b.moved = false;
                vp::ev("move_assign");
                break;
            case 6:
                if (ai == bi) break;
                VTRACE("swap [%d] [%d]", ai, bi);
                std::swap(*a.c, *b.c);
                std::swap(a.m, b.m);
                std::swap(a.hw, b.hw);
                vp::ev("swap");
                break;
            case 7: VTRACE("[%d]:", ai); fresh(a); break;
            case 8: case 9: {  // assign from a range
                size_t n;
                switch (rd.below(4)) {
                    case 0: n = rd.below(5); break;
                    case 1: n = a.m.size() + rd.below(5) - std::min<size_t>(2, a.m.size()); break;
                    case 2: n = static_cast<size_t>(BS) * rd.below(5); break;
                    default: n = rd.u8(); break;
                }
                bool mv = k == 9 || !ET<T>::copyable;
                std::list<T> src;
                std::vector<uint64_t> v;
                for (size_t i = 0; i < n; ++i) { v.push_back(nextId++); src.push_back(ET<T>::make(v.back())); }
                auto old = a.m;
                bool fromOther = ET<T>::copyable && !mv && ai != bi && rd.below(3) == 0;
                if (fromOther) v = ids(b);
                arm();
                bool ok = guarded([&] {
                    if (mv) a.c->move_assign(src.begin(), src.end());
                    else if constexpr (ET<T>::copyable) {
                        if (fromOther) a.c->assign(b.c->begin(), b.c->end());
                        else a.c->assign(src.begin(), src.end());
                    }
                });
                VTRACE("[%d].%s(%zu over %zu)=%d", ai, mv ? "move_assign" : "assign", v.size(), old.size(), ok);
                src.clear();
                if (a.hw < std::max(v.size(), old.size())) a.hw = std::max(v.size(), old.size());
                if (ok) setIds(a, v);
                else resync(a, old, v);
                vp::ev(mv ? "move_assign_range" : "assign_range");
                break;
            }
            case 10: VTRACE("[%d].clear (%zu)", ai, a.m.size()); removing([&] { a.c->clear(); }, "clear"); a.m.clear(); vp::ev("clear"); break;
            case 11: {
                VTRACE("[%d].shrink_to_fit (%zu)", ai, a.m.size());
                a.c->shrink_to_fit();
                a.hw = a.m.size();
                vp::ev("shrink_to_fit");
                break;
            }
            case 12: iterate(a); break;
            case 13: jumps(a); break;
            case 14: algorithms(a); break;
            default: break;
        }
    }

    void run()
    {
        ns = 1 + static_cast<int>(rd.below(3));
        int focus = vp::S().param("focus", 0);  // 0 mixed, 1 push/pop, 2 faults, 3 iterators, 4 copies
        if (focus == 4 && ns == 1) ns = 2;
        for (int i = 0; i < ns; ++i) { VTRACE("[%d]:", i); if (rd.below(3) == 0) fresh(s[i]); else s[i].c.reset(new C()); }
        verify("construction");
        unsigned wholePct = focus == 1 ? 12 : focus == 4 ? 55 : focus == 3 ? 55 : 35;
        unsigned grow = rd.below(3);
        while (!rd.done()) {
            int a = static_cast<int>(rd.below(static_cast<uint32_t>(ns))), b = static_cast<int>(rd.below(static_cast<uint32_t>(ns)));
            Slot& x = s[a];
            if (rd.chance(static_cast<int>(wholePct))) {
                unsigned k = rd.below(15);
                if (focus == 3 && rd.below(2)) k = 12 + rd.below(3);
                if (focus == 4 && k >= 12) k = rd.below(7);
                if (x.moved && (k == 10 || k == 11 || k >= 12 || k == 8 || k == 9)) vp::ev("moved_from_used");
                whole(k, a, b);
                vp::op(1000 + k * 16 + (x.m.size() % static_cast<size_t>(BS)) * 1024);
                stateOf(x, k);
                verify("whole-container operation");
                continue;
            }
            unsigned k = rd.below(16);
            if (x.moved) vp::ev("moved_from_used");
            if (k < 4) { arm(); unsigned kk = rd.below(3); VTRACE("[%d]+back", a); addBack(x, kk); x.moved = false; }
            else if (k < 7) { arm(); unsigned kk = rd.below(3); VTRACE("[%d]+front", a); addFront(x, kk); x.moved = false; }
            else if (k < 9) { VTRACE("[%d]-back", a); popBack(x); }
            else if (k < 11) { VTRACE("[%d]-front", a); popFront(x); }
            else if (k < 14) {  // a burst
                size_t n;
                switch (rd.below(4)) {
                    case 0: n = rd.below(static_cast<uint32_t>(BS) + 2); break;
                    case 1: n = static_cast<size_t>(BS); break;
                    case 2: n = static_cast<size_t>(BS) * rd.below(8) + rd.below(3); break;
                    default: n = static_cast<size_t>(BS) * (20 + rd.below(120)); break;
                }
                if (n > 2500) n = 2500;
                unsigned kind = rd.below(6);
                if (grow == 0 && kind >= 2) kind = kind % 2;
                if (s[a].m.size() > 9000) kind = 2 + kind % 2;
                unsigned ek = rd.below(3);
                VTRACE("[%d]burst kind %u x%zu", a, kind, n);
                for (size_t i = 0; i < n; ++i) {
                    switch (kind) {
                        case 0: addBack(x, ek); break;
                        case 1: addFront(x, ek); break;
                        case 2: popBack(x); break;
                        case 3: popFront(x); break;
                        case 4: addBack(x, ek); popFront(x); break;  // sliding window
                        default: addFront(x, ek); popBack(x); break;
                    }
                    if (x.hw < x.m.size()) x.hw = x.m.size();
                    if (x.m.size() > 12000) break;
                }
                if (kind < 2) x.moved = false;
                vp::ev("bursts");
            } else if (k == 14) {
                size_t n = x.m.size();
                size_t i = n ? rd.u16() % (n + 2) : rd.below(3);
                if (i >= n && rd.below(2)) { static const size_t far[] = {256, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, size_t(0) - 1}; i = far[rd.below(6)] - (rd.below(2) ? n / 2 : 0); if (i < n) i = n; }
                bool thrown = false;
                try {
                    T& e = x.c->at(i);
                    VCHECK(i < n && &e == x.m[i].at, "at", "at(%zu) of %zu elements", i, n);
                    VCHECK(&static_cast<const C&>(*x.c).at(i) == x.m[i].at, "at", "const at(%zu) of %zu elements", i, n);
                }
                catch (const std::out_of_range&) { thrown = true; }
                VCHECK(thrown == (i >= n), "at", "at(%zu) of %zu elements %s", i, n, thrown ? "threw" : "did not throw");
                vp::ev("at");
            } else if (!x.m.empty()) {
                size_t i = rd.u16() % x.m.size();
                uint64_t id = nextId++;
                switch (rd.below(4)) {
                    case 0: (*x.c)[i] = ET<T>::make(id); break;
                    case 1: i = 0; x.c->front() = ET<T>::make(id); break;
                    case 2: i = x.m.size() - 1; x.c->back() = ET<T>::make(id); break;
                    default: { auto it = x.c->begin() + static_cast<ptrdiff_t>(i); *it = ET<T>::make(id); break; }
                }
                x.m[i].id = id;
                vp::ev("element_write");
            }
            vp::op(k * 16 + static_cast<unsigned>(a) + (x.m.size() % static_cast<size_t>(BS)) * 4096);
            stateOf(x, 100 + k);
            verify("element operation");
        }
        for (int i = 0; i < ns; ++i) { iterate(s[i]); }
        size_t left = 0;
        for (int i = 0; i < ns; ++i) left += s[i].m.size();
        for (int i = 0; i < ns; ++i) {
            if (i == 1) { while (!s[i].m.empty()) popBack(s[i]); VCHECK(s[i].c->size() == 0, "size", "not empty after popping everything"); }
            s[i].c.reset();
        }
        if constexpr (ET<T>::tracked) VCHECK(reg().live == 0, "lifetime.leak", "%zu elements were never destroyed", reg().live);
        if constexpr (ALLOC) VCHECK(ledger().live == 0, "alloc.leak", "%ld blocks were never returned to the allocator", ledger().live);
    }
    static void entry(vp::Rd& rd)
    {
        throwIn() = allocFailIn() = vp::newFailIn = -1;
        { Runner r(rd); r.run(); }
    }
};
#define VP_CFG(T, N, A) \
    static bl::Registrar rv_##T##N(false, #T "/" #N, bl::Runner<gmlc::containers::StableBlockVector<T, N, A>, T, N, false, !std::is_same<A, std::allocator<T>>::value>::entry); \
    static bl::Registrar rd_##T##N(true, #T "/" #N, bl::Runner<gmlc::containers::StableBlockDeque<T, N, A>, T, N, true, !std::is_same<A, std::allocator<T>>::value>::entry)
}  // namespace bl
