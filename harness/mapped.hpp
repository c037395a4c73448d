// Engine E3: every mapped container against a model of elements plus term tables.
#pragma once
#include "common.hpp"
#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StringMappedVector.hpp"
#include <climits>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>

namespace mp {
namespace gc = gmlc::containers;
struct Injected {};
inline int& throwIn() { static int n = -1; return n; }
inline long& liveVals() { static long n = 0; return n; }
inline void maybeThrow() { if (throwIn() >= 0 && throwIn()-- == 0) { vp::ev("injected_ctor_throw"); throw Injected{}; } }

constexpr uint64_t DEAD = 0xDEADDEADDEADDEADULL;
/// element: self-checking, counted, multi-argument constructor
template<bool COPY> struct ValT {
    uint64_t id;
    std::string pad;
    const ValT* self;
    static std::string padOf(uint64_t v) { return (v & 3) ? std::string() : "padding that lives on the heap " + std::to_string(v); }
    ValT() : id(0), self(this) { ++liveVals(); }
    explicit ValT(uint64_t v) : id(v), self(this) { maybeThrow(); pad = padOf(v); ++liveVals(); }
    ValT(uint64_t hi, uint64_t lo) : id(hi + lo), self(this) { maybeThrow(); pad = padOf(id); ++liveVals(); }
    template<bool C = COPY, class = std::enable_if_t<C>>
    ValT(const ValT& o, int) : id(o.id), pad(o.pad), self(this) { ++liveVals(); }
    ValT(const ValT& o) : id(o.id), pad(o.pad), self(this) { static_assert(COPY, "copy of a move-only element"); ++liveVals(); }
    ValT& operator=(const ValT& o) { static_assert(COPY, "copy of a move-only element"); id = o.id; pad = o.pad; return *this; }
    ValT(ValT&& o) noexcept : id(o.id), pad(std::move(o.pad)), self(this) { o.id = DEAD; ++liveVals(); }
    ValT& operator=(ValT&& o) noexcept { uint64_t v = o.id; o.id = DEAD; id = v; pad = std::move(o.pad); return *this; }
    ~ValT() { VCHECK(self == this, "lifetime.bad_destroy", "destructor run on something that is not a live element"); self = nullptr; id = DEAD; --liveVals(); }
    uint64_t get() const
    {
        VCHECK(self == this, "lifetime.dead_access", "the element read is not a live element");
        VCHECK(id != DEAD, "content", "the element read was moved from");
        VCHECK(id == 0 || pad == padOf(id), "content", "element %llu carries foreign data", static_cast<unsigned long long>(id));
        return id;
    }
};
using Val = ValT<true>;

// ------------------------------------------------------------ keys
struct SKey {
    std::string a;
    int b = 0;
    bool operator<(const SKey& o) const { return a < o.a || (a == o.a && b < o.b); }
};
enum class EKey : int { base = 0 };
template<class K> struct KeyOf;
template<> struct KeyOf<std::string> {
    static std::string make(unsigned i)
    {
        switch (i) {
            case 0: return "";
            case 1: return "a";
            case 2: return "b";
            case 3: return "ab";
            case 4: return std::string("a\0", 2);
            case 5: return std::string(60, 'x') + "1";
            case 6: return std::string(60, 'x') + "2";
            case 7: return " ";
            default: return (i & 1 ? "k" : "a rather long key that is surely on the heap ") + std::to_string(i);
        }
    }
};
template<> struct KeyOf<std::wstring> { static std::wstring make(unsigned i) { auto s = KeyOf<std::string>::make(i); return std::wstring(s.begin(), s.end()); } };
template<> struct KeyOf<int> {
    static int make(unsigned i)
    {
        switch (i) {
            case 0: return 0;
            case 1: return -1;
            case 2: return 1;
            case 3: return INT_MIN;
            case 4: return INT_MAX;
            default: return static_cast<int>(i) * 13;
        }
    }
};
template<> struct KeyOf<EKey> { static EKey make(unsigned i) { return static_cast<EKey>(KeyOf<int>::make(i)); } };
template<> struct KeyOf<double> { static double make(unsigned i) { return i == 0 ? 0.0 : i == 1 ? -1.5 : i * 0.25; } };
template<> struct KeyOf<SKey> { static SKey make(unsigned i) { SKey k; k.a = KeyOf<std::string>::make(i / 2); k.b = static_cast<int>(i % 2) - 1; return k; } };
/// key as it is passed: owning for most classes, a view into a short-lived exact-size buffer for the string classes
template<class K> struct Arg {
    K k;
    explicit Arg(unsigned i) : k(KeyOf<K>::make(i)) {}
    const K& get() const { return k; }
};
struct ViewTag {};
template<> struct KeyOf<ViewTag> {};
template<> struct Arg<ViewTag> {
    std::unique_ptr<char[]> b;
    size_t n;
    explicit Arg(unsigned i) { auto s = KeyOf<std::string>::make(i); n = s.size(); b.reset(new char[n]); memcpy(b.get(), s.data(), n); }
    ~Arg() { if (n) memset(b.get(), '#', n); }
    std::string_view get() const { return {b.get(), n}; }
};

using CaseFn = void (*)(vp::Rd&);
struct Config { const char* name; CaseFn fn; };
std::vector<Config>& configs(bool dual);
struct Registrar { Registrar(bool dual, const char* n, CaseFn f) { configs(dual).push_back({n, f}); } };

constexpr unsigned DOM = 14;   // small key domain
constexpr unsigned BULK = 200;  // keys for bulk insertions

/// what a class offers and how it resolves the cases its interface leaves to it
template<class Container, class Key1, class Key2, class V> struct Traits {
    using C = Container; using K1 = Key1; using K2 = Key2; using VT = V;
    static constexpr bool dual = false, pointer = false, stable = false, removable = true, copyable = true;
    static constexpr bool addIndexTerm = true, addTerm = false, hasAt = true, noSearch = true, hasApply = true;
    static constexpr bool keep1 = false, keep2 = false;  // insertion with one taken term: does the taken term keep its element?
    static constexpr bool assignNeedsBoth = false;
};

template<class T> struct Runner {
    using C = typename T::C; using K1 = typename T::K1; using K2 = typename T::K2; using V = typename T::VT;
    struct Ent { uint64_t id; const void* at; };
    struct Slot {
        std::unique_ptr<C> c;
        std::vector<Ent> m;
        std::map<unsigned, size_t> t[2];
        bool moved = false;
        void drop(size_t i, bool shift)
        {
            for (auto& mm : t) for (auto it = mm.begin(); it != mm.end();) {
                if (it->second == i) it = mm.erase(it);
                else { if (shift && it->second > i) --it->second; ++it; }
            }
        }
    };
    vp::Rd& rd;
    Slot s[3];
    int ns = 1;
    uint64_t nextId = 1, opn = 0;
    explicit Runner(vp::Rd& r) : rd(r) {}

    const V& elem(C& c, size_t i) const { if constexpr (T::pointer) return *c[i]; else return c[i]; }
    // ------------------------------------------------------------ verification
    template<class A> void checkFind(Slot& x, int cls, unsigned key, const A& arg, const char* w)
    {
        auto it = x.t[cls].find(key);
        bool want = it != x.t[cls].end();
        C& c = *x.c;
        const C& k = c;
        if constexpr (T::pointer) {
            V* p = k.find(arg.get());
            VCHECK((p != nullptr) == want, want ? "find.lost" : "find.stale", "%s term %u (class %d, after %s)", want ? "nothing found under" : "an element is found under removed or unknown", key, cls + 1, w);
            if (want) {
                VCHECK(p == k[it->second], "find.wrong", "term %u (class %d) finds another object than element %zu (after %s)", key, cls + 1, it->second, w);
                VCHECK(p->get() == x.m[it->second].id, "find.wrong", "term %u (class %d) finds element id %llu, expected %llu (after %s)", key, cls + 1, static_cast<unsigned long long>(p->get()), static_cast<unsigned long long>(x.m[it->second].id), w);
            }
        } else {
            auto f = c.find(arg.get());
            auto g = k.find(arg.get());
            bool got = static_cast<bool>(f != c.end()), gotc = static_cast<bool>(g != k.end());
            VCHECK(got == gotc, "find.const", "const and non-const find disagree on term %u (class %d, after %s)", key, cls + 1, w);
            VCHECK(got == want, want ? "find.lost" : "find.stale", "%s term %u (class %d, after %s)", want ? "nothing found under" : "an element is found under removed or unknown", key, cls + 1, w);
            if (want) {
                uint64_t id = (*f).get();
                VCHECK(id == x.m[it->second].id && &*f == &c[it->second] && &*g == &c[it->second], "find.wrong", "term %u (class %d) finds element id %llu, expected element %zu id %llu (after %s)", key, cls + 1,
                       static_cast<unsigned long long>(id), it->second, static_cast<unsigned long long>(x.m[it->second].id), w);
            }
        }
        vp::ev(want ? "lookups_hit" : "lookups_miss");
    }
    void verifyOne(Slot& x, const char* w, bool full)
    {
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size();
        VCHECK(static_cast<size_t>(k.size()) == n, "size", "size()=%zu, expected %zu (after %s)", static_cast<size_t>(k.size()), n, w);
        auto one = [&](size_t i) {
            const V& e = elem(c, i);
            VCHECK(e.get() == x.m[i].id, "content", "element %zu of %zu is %llu, expected %llu (after %s)", i, n, static_cast<unsigned long long>(e.get()), static_cast<unsigned long long>(x.m[i].id), w);
            if constexpr (T::stable || T::pointer) VCHECK(&e == x.m[i].at, "address", "element %zu of %zu moved (after %s)", i, n, w);
            if constexpr (T::hasAt) {
                if constexpr (T::pointer) VCHECK(k.at(i) == &e, "at", "at(%zu)", i);
                else VCHECK(&c.at(i) == &e && &k.at(i) == &e && &k[i] == &e, "at", "at(%zu) and [%zu] differ", i, i);
            }
        };
        if (full || n <= 24) for (size_t i = 0; i < n; ++i) one(i);
        else { one(0); one(n - 1); for (int j = 0; j < 10; ++j) one(vp::mix64(opn * 32 + static_cast<uint64_t>(j)) % n); }
        if (n) {
            if constexpr (T::pointer) VCHECK(c.back() == k[n - 1], "back", "back() is not the last element (after %s)", w);
            else VCHECK(&c.back() == &c[n - 1] && &k.back() == &c[n - 1], "back", "back() is not the last element (after %s)", w);
        }
        if constexpr (T::pointer) for (size_t i : {n, n + 7, n + 256, (size_t(1) << 32) + n / 2, (size_t(1) << 31) + n, size_t(-1)}) VCHECK(k[i] == nullptr, "at", "[%zu] of %zu elements is not null", i, n);
        if constexpr (T::hasAt) {
            if (full) {
                for (size_t i : {n, n + 256, (size_t(1) << 32) + n / 2, size_t(-1)}) {
                    bool thrown = false;
                    try { (void)k.at(i); } catch (const std::out_of_range&) { thrown = true; }
                    VCHECK(thrown, "at", "at(%zu) of %zu elements did not throw", i, n);
                }
            }
        }
        // terms: the small domain always, the bulk domain fully or sampled
        for (unsigned key = 0; key < DOM; ++key) checkBoth(x, key, w);
        if (full) for (unsigned key = DOM; key < BULK + DOM; key += 1 + (x.t[0].empty() && x.t[1].empty()) * 50) checkBoth(x, key, w);
        else for (int j = 0; j < 6; ++j) checkBoth(x, DOM + static_cast<unsigned>(vp::mix64(opn * 64 + static_cast<uint64_t>(j)) % BULK), w);
        if (nextFar > 1000) for (int j = 0; j < 5; ++j) checkBoth(x, 1000 + static_cast<unsigned>(vp::mix64(opn * 77 + static_cast<uint64_t>(j)) % (nextFar - 999)), w);
        if (full || n < 24) {
            size_t i = 0;
            for (auto it = k.begin(); it != k.end(); ++it, ++i) {
                VCHECK(i < n, "iterate", "iteration yields more than %zu elements (after %s)", n, w);
                if constexpr (T::pointer) VCHECK((*it).get() == k[i], "iterate", "iteration position %zu (after %s)", i, w);
                else VCHECK(&*it == &k[i], "iterate", "iteration position %zu is not element %zu (after %s)", i, i, w);
            }
            VCHECK(i == n, "iterate", "iteration yields %zu of %zu elements (after %s)", i, n, w);
        }
    }
    void checkBoth(Slot& x, unsigned key, const char* w)
    {
        checkFind(x, 0, key, Arg<K1>(key), w);
        if constexpr (T::dual) checkFind(x, 1, key, Arg<K2>(key), w);
    }
    void verify(const char* w)
    {
        bool full = (++opn % 24) == 0;
        size_t tot = 0;
        for (int i = 0; i < ns; ++i) { verifyOne(s[i], w, full); tot += s[i].m.size(); }
        VCHECK(liveVals() == static_cast<long>(tot), "lifetime.count", "%ld live elements but the containers hold %zu (after %s)", liveVals(), tot, w);
        vp::evmax("max_elements", tot);
    }
    void stateOf(Slot& x, unsigned op)
    {
        uint64_t h = op * 131 + x.m.size();
        for (auto& mm : x.t) for (auto& kv : mm) h = vp::mix64(h ^ (kv.first * 977 + kv.second));
        vp::state(h);
    }
    void setAt(Slot& x, size_t i) { x.m[i].at = &elem(*x.c, i); }

    // ------------------------------------------------------------ insertion
    template<class F> bool guarded(F&& f)
    {
        long n = pendingNew;
        pendingNew = -1;
        try { vp::FailNew g(n); f(); }
        catch (const Injected&) { throwIn() = -1; vp::ev("exception_propagated"); return false; }
        catch (const std::bad_alloc&) { throwIn() = -1; outOfMemory = true; vp::ev("insert_out_of_memory"); return false; }
        throwIn() = -1;
        return true;
    }
    long pendingNew = -1;  // the n-th allocation of the next insertion fails
    bool outOfMemory = false;
    template<class A> bool findsElement(Slot& x, const A& arg, size_t idx)
    {
        if constexpr (T::pointer) return x.c->find(arg.get()) == (*x.c)[idx];
        else { auto f = x.c->find(arg.get()); return static_cast<bool>(f != x.c->end()) && &*f == &elem(*x.c, idx); }
    }
    /// an insertion ran out of memory: it may have got as far as adding (or assigning) its own element and some of its terms, nothing else may have changed (verify)
    void adopt(Slot& x, uint64_t id, long k1, long k2, std::optional<size_t> old = std::nullopt)
    {
        if (!outOfMemory) return;
        outOfMemory = false;
        size_t n = static_cast<size_t>(x.c->size());
        bool added = !old && n == x.m.size() + 1;
        VCHECK(added || n == x.m.size(), "size", "size()=%zu after a failed insertion into %zu elements", n, x.m.size());
        std::optional<size_t> idx = old;
        if (added) {
            idx = n - 1;
            VCHECK(elem(*x.c, n - 1).get() == id, "content", "a failed insertion added a foreign element");
            x.m.push_back({id, nullptr});
            setAt(x, n - 1);
        } else if (old && elem(*x.c, *old).get() == id) {
            x.m[*old].id = id;
            if constexpr (T::pointer) setAt(x, *old);
        }
        if (!idx) return;
        if (k1 >= 0 && findsElement(x, Arg<K1>(static_cast<unsigned>(k1)), *idx)) x.t[0][static_cast<unsigned>(k1)] = *idx;
        if constexpr (T::dual) if (k2 >= 0 && findsElement(x, Arg<K2>(static_cast<unsigned>(k2)), *idx)) x.t[1][static_cast<unsigned>(k2)] = *idx;
    }
    /// removals: now and then without any memory to get; one that fails must leave everything as it was (verify)
    template<class F> bool removing(F&& f)
    {
        bool dry = ++removals % 3 == 0;
        if (dry) vp::ev("removals_without_memory");
        try { vp::FailNew g(dry ? 0 : -1); f(); }
        catch (const std::bad_alloc&) { vp::ev("removal_out_of_memory"); return false; }
        return true;
    }
    unsigned removals = 0;
    /// call f with one of the ways to pass the element's data
    template<class F> auto withData(uint64_t id, unsigned how, F&& f)
    {
        if constexpr (T::pointer) {
            if (how == 0) return f(id);
            if (how == 1) return f(id / 2, id - id / 2);
            if constexpr (T::copyElem) { if (how == 2) { long t = throwIn(); throwIn() = -1; V v(id); throwIn() = static_cast<int>(t); return f(v); } }
            long t = throwIn(); throwIn() = -1; V v(id); throwIn() = static_cast<int>(t);
            return f(std::move(v));
        } else {
            if (how == 0) return f(id);
            if (how == 1) return f(id / 2, id - id / 2);
            if constexpr (T::copyElem) { if (how == 2) { long t = throwIn(); throwIn() = -1; V v(id); throwIn() = static_cast<int>(t); return f(v); } }
            long t = throwIn(); throwIn() = -1; V v(id); throwIn() = static_cast<int>(t);
            return f(std::move(v));
        }
    }
    void inserted(Slot& x, std::optional<size_t> r, bool expect, uint64_t id, const char* w)
    {
        VCHECK(r.has_value() == expect, "insert.result", "%s: insert %s", w, r ? "succeeded although its terms are taken" : "was refused although a term is free");
        if (!expect) { vp::ev("insert_refused"); return; }
        VCHECK(*r == x.m.size(), "insert.index", "%s: insert returned index %zu, expected %zu", w, *r, x.m.size());
        x.m.push_back({id, nullptr});
        VCHECK(static_cast<size_t>(x.c->size()) == x.m.size(), "size", "size()=%zu after insert number %zu", static_cast<size_t>(x.c->size()), x.m.size());
        setAt(x, x.m.size() - 1);
        vp::ev("insert_ok");
    }
    void arm() { pendingNew = -1; if (rd.below(14) == 0) throwIn() = 0; else if (rd.below(12) == 0) pendingNew = static_cast<long>(rd.below(7)); }
    /// a refused insertion leaves the object with the caller, a successful one takes it
    void keptPtr(const std::optional<size_t>& r, const V* p, uint64_t id)
    {
        VCHECK(r || (p && p->get() == id), "insert.refused_took", "a refused insertion took the object");
        VCHECK(!r || !p, "insert.result", "an accepted object is still with the caller");
        if (!r) vp::ev("refused_object_kept");
    }
    void insert1(Slot& x, unsigned key, unsigned how)
    {
        uint64_t id = nextId++;
        std::optional<size_t> r;
        bool taken = x.t[0].count(key);
        bool ok = guarded([&] {
            Arg<K1> a(key);
            if constexpr (!T::dual) {
                if constexpr (T::pointer) { if (how == 4) { int t = throwIn(); throwIn() = -1; auto p = std::make_unique<V>(id); throwIn() = t; r = x.c->insert(a.get(), std::move(p)); keptPtr(r, p.get(), id); return; } }
                r = withData(id, how, [&](auto&&... d) { return x.c->insert(a.get(), std::forward<decltype(d)>(d)...); });
            } else if constexpr (T::pointer) {
                r = withData(id, how, [&](auto&&... d) { return x.c->insert(a.get(), nullptr, std::forward<decltype(d)>(d)...); });
            } else {
                r = withData(id, how, [&](auto&&... d) { return x.c->insert(a.get(), no_search, std::forward<decltype(d)>(d)...); });
            }
        });
        VTRACE("insert(k%u)=%s", key, !ok ? "threw" : r ? std::to_string(*r).c_str() : "refused");
        if (!ok) { adopt(x, id, key, -1); return; }
        inserted(x, r, !taken, id, "one term");
        if (r) x.t[0][key] = *r;
    }
    void insert2(Slot& x, unsigned key, unsigned how)
    {
        if constexpr (T::dual) {
            uint64_t id = nextId++;
            std::optional<size_t> r;
            bool taken = x.t[1].count(key);
            bool ok = guarded([&] {
                Arg<K2> a(key);
                r = withData(id, how, [&](auto&&... d) { return x.c->insert(no_search, a.get(), std::forward<decltype(d)>(d)...); });
            });
            VTRACE("insert(-,j%u)=%s", key, !ok ? "threw" : r ? std::to_string(*r).c_str() : "refused");
            if (!ok) { adopt(x, id, -1, key); return; }
            inserted(x, r, !taken, id, "second term");
            if (r) x.t[1][key] = *r;
        }
    }
    void insertBoth(Slot& x, unsigned k1, unsigned k2, unsigned how)
    {
        if constexpr (T::dual) {
            uint64_t id = nextId++;
            std::optional<size_t> r;
            bool t1 = x.t[0].count(k1), t2 = x.t[1].count(k2);
            bool ok = guarded([&] {
                Arg<K1> a(k1);
                Arg<K2> b(k2);
                if constexpr (T::pointer) { if (how == 4) { int t = throwIn(); throwIn() = -1; auto p = std::make_unique<V>(id); throwIn() = t; r = x.c->insert(a.get(), b.get(), std::move(p)); keptPtr(r, p.get(), id); return; } }
                r = withData(id, how, [&](auto&&... d) { return x.c->insert(a.get(), b.get(), std::forward<decltype(d)>(d)...); });
            });
            VTRACE("insert(k%u,j%u)=%s", k1, k2, !ok ? "threw" : r ? std::to_string(*r).c_str() : "refused");
            if (!ok) { adopt(x, id, k1, k2); return; }
            inserted(x, r, !(t1 && t2), id, "two terms");
            if (r) {
                if (!t1 || !T::keep1) x.t[0][k1] = *r;
                if (!t2 || !T::keep2) x.t[1][k2] = *r;
                if (t1 || t2) vp::ev("insert_partly_taken");
            }
        }
    }
    void insertNone(Slot& x, unsigned how)
    {
        if constexpr (T::noSearch) {
            uint64_t id = nextId++;
            std::optional<size_t> r;
            bool ok = guarded([&] {
                r = withData(id, how, [&](auto&&... d) {
                    if constexpr (T::dual) return x.c->insert(no_search, no_search, std::forward<decltype(d)>(d)...);
                    else return x.c->insert(no_search, std::forward<decltype(d)>(d)...);
                });
            });
            VTRACE("insert(-)=%s", !ok ? "threw" : r ? std::to_string(*r).c_str() : "refused");
            if (!ok) { adopt(x, id, -1, -1); return; }
            inserted(x, r, true, id, "no term");
            vp::ev("insert_no_term");
        }
    }
    void assigned(Slot& x, size_t r, std::optional<size_t> expectOld, uint64_t id, const char* w)
    {
        if (expectOld) {
            VCHECK(r == *expectOld, "assign.index", "%s: insert_or_assign returned index %zu for an existing element %zu", w, r, *expectOld);
            x.m[r].id = id;
            if constexpr (T::pointer) setAt(x, r);
            vp::ev("assign_existing");
        } else {
            VCHECK(r == x.m.size(), "assign.index", "%s: insert_or_assign returned index %zu, expected %zu", w, r, x.m.size());
            x.m.push_back({id, nullptr});
            VCHECK(static_cast<size_t>(x.c->size()) == x.m.size(), "size", "size()=%zu after insertion number %zu", static_cast<size_t>(x.c->size()), x.m.size());
            setAt(x, r);
            vp::ev("assign_new");
        }
    }
    std::optional<size_t> lookup(Slot& x, int cls, unsigned key) { auto it = x.t[cls].find(key); if (it == x.t[cls].end()) return std::nullopt; return it->second; }
    void assign1(Slot& x, unsigned key, unsigned how)
    {
        uint64_t id = nextId++;
        size_t r = 0;
        bool ok = guarded([&] {
            Arg<K1> a(key);
            if constexpr (!T::dual) {
                if constexpr (T::pointer) { if (how == 4) { int t = throwIn(); throwIn() = -1; auto p = std::make_unique<V>(id); throwIn() = t; r = x.c->insert_or_assign(a.get(), std::move(p)); return; } }
                r = withData(id, how, [&](auto&&... d) { return x.c->insert_or_assign(a.get(), std::forward<decltype(d)>(d)...); });
            } else if constexpr (T::pointer) {
                r = withData(id, how, [&](auto&&... d) { return x.c->insert_or_assign(a.get(), nullptr, std::forward<decltype(d)>(d)...); });
            } else {
                r = withData(id, how, [&](auto&&... d) { return x.c->insert_or_assign(a.get(), no_search, std::forward<decltype(d)>(d)...); });
            }
        });
        VTRACE("assign(k%u)=%zu%s", key, r, ok ? "" : " threw");
        if (!ok) { adopt(x, id, key, -1, lookup(x, 0, key)); return; }
        assigned(x, r, lookup(x, 0, key), id, "one term");
        x.t[0][key] = r;
    }
    void assign2(Slot& x, unsigned key, unsigned how)
    {
        if constexpr (T::dual) {
            uint64_t id = nextId++;
            size_t r = 0;
            bool ok = guarded([&] {
                Arg<K2> a(key);
                r = withData(id, how, [&](auto&&... d) {
                    if constexpr (T::pointer) return x.c->insert_or_assign(nullptr, a.get(), std::forward<decltype(d)>(d)...);
                    else return x.c->insert_or_assign(no_search, a.get(), std::forward<decltype(d)>(d)...);
                });
            });
            VTRACE("assign(-,j%u)=%zu%s", key, r, ok ? "" : " threw");
            if (!ok) { adopt(x, id, -1, key, lookup(x, 1, key)); return; }
            assigned(x, r, lookup(x, 1, key), id, "second term");
            x.t[1][key] = r;
        }
    }
    void assignBoth(Slot& x, unsigned k1, unsigned k2, unsigned how)
    {
        if constexpr (T::dual) {
            uint64_t id = nextId++;
            size_t r = 0;
            auto o1 = lookup(x, 0, k1), o2 = lookup(x, 1, k2);
            std::optional<size_t> old = o1;
            if (T::assignNeedsBoth && !(o1 && o2 && *o1 == *o2)) old = std::nullopt;
            bool ok = guarded([&] {
                Arg<K1> a(k1);
                Arg<K2> b(k2);
                if constexpr (T::pointer) { if (how == 4) { int t = throwIn(); throwIn() = -1; auto p = std::make_unique<V>(id); throwIn() = t; r = x.c->insert_or_assign(a.get(), b.get(), std::move(p)); return; } }
                r = withData(id, how, [&](auto&&... d) { return x.c->insert_or_assign(a.get(), b.get(), std::forward<decltype(d)>(d)...); });
            });
            VTRACE("assign(k%u,j%u)=%zu%s", k1, k2, r, ok ? "" : " threw");
            if (!ok) { adopt(x, id, k1, k2, old); return; }
            assigned(x, r, old, id, "two terms");
            x.t[0][k1] = r;
            x.t[1][k2] = r;
        }
    }
    // ------------------------------------------------------------ added terms
    void addIndex(Slot& x, int cls, unsigned key, size_t idx)
    {
        bool want = idx < x.m.size() && !x.t[cls].count(key);
        bool r = false, done = false;
        if constexpr (T::addIndexTerm) {
            bool ok = true;
            if (cls == 0) { Arg<K1> a(key); ok = guarded([&] { r = x.c->addSearchTermForIndex(a.get(), idx); }); done = true; }
            else if constexpr (T::dual) { Arg<K2> a(key); ok = guarded([&] { r = x.c->addSearchTermForIndex(a.get(), idx); }); done = true; }
            if (!ok) { VTRACE("alias(%d:%u->%zu) threw", cls + 1, key, idx); outOfMemory = false; return; }
        }
        if (!done) return;
        VTRACE("alias(%d:%u->%zu)=%d", cls + 1, key, idx, r);
        VCHECK(r == want, "alias.result", "addSearchTermForIndex(term %u, %zu) of %zu elements returned %d", key, idx, x.m.size(), r);
        if (r) x.t[cls][key] = idx;
        vp::ev(r ? "alias_added" : "alias_refused");
    }
    void addTerm(Slot& x, int nc, unsigned nk, int ec, unsigned ek)
    {
        if constexpr (T::addTerm) {
            auto old = lookup(x, ec, ek);
            bool want = old && !x.t[nc].count(nk);
            bool r = false;
            Arg<K1> n1(nk), e1(ek);
            Arg<K2> n2(nk), e2(ek);
            bool ok = guarded([&] {
                if (nc == 0) r = ec == 0 ? x.c->addSearchTerm(n1.get(), e1.get()) : x.c->addSearchTerm(n1.get(), e2.get());
                else r = ec == 0 ? x.c->addSearchTerm(n2.get(), e1.get()) : x.c->addSearchTerm(n2.get(), e2.get());
            });
            if (!ok) { VTRACE("term(%d:%u = %d:%u) threw", nc + 1, nk, ec + 1, ek); outOfMemory = false; return; }
            VTRACE("term(%d:%u = %d:%u)=%d", nc + 1, nk, ec + 1, ek, r);
            VCHECK(r == want, "alias.result", "addSearchTerm(new term %u class %d, existing term %u class %d) returned %d", nk, nc + 1, ek, ec + 1, r);
            if (r) x.t[nc][nk] = *old;
            vp::ev(r ? "alias_added" : "alias_refused");
        }
    }
    // ------------------------------------------------------------ removal
    void removed(Slot& x, size_t idx)
    {
        bool gone = !T::stable || idx + 1 == x.m.size();
        x.drop(idx, gone);
        if (gone) x.m.erase(x.m.begin() + static_cast<long>(idx));
        else vp::ev("remove_inner_stable");
        if constexpr (!T::stable && !T::pointer) for (size_t i = idx; i < x.m.size(); ++i) setAt(x, i);
        vp::ev("removed");
    }
    void removeIndex(Slot& x, size_t idx)
    {
        if constexpr (T::removable) {
            size_t terms = 0;
            for (auto& mm : x.t) for (auto& kv : mm) terms += kv.second == idx;
            VTRACE("removeIndex(%zu of %zu, %zu terms)", idx, x.m.size(), terms);
            if (!removing([&] { x.c->removeIndex(idx); })) return;
            if (idx < x.m.size()) { removed(x, idx); if (terms > 1) vp::ev("removed_with_aliases"); }
            else vp::ev("remove_nothing");
        }
    }
    void removeTerm(Slot& x, int cls, unsigned key)
    {
        if constexpr (T::removable) {
            auto o = lookup(x, cls, key);
            VTRACE("remove(%d:%u -> %ld)", cls + 1, key, o ? static_cast<long>(*o) : -1L);
            if (cls == 0) { Arg<K1> a(key); if (!removing([&] { x.c->remove(a.get()); })) return; }
            else if constexpr (T::dual) { Arg<K2> a(key); if (!removing([&] { x.c->remove(a.get()); })) return; }
            if (o) removed(x, *o); else vp::ev("remove_nothing");
        }
    }
    // ------------------------------------------------------------ whole container
    void applyOps(Slot& x, unsigned k)
    {
        size_t i = 0;
        if (k == 0) {
            if constexpr (T::pointer) x.c->apply([&](V* p) { VCHECK(p == (*x.c)[i], "apply", "apply visits something else at position %zu", i); ++i; });
            else x.c->apply([&](const V& v) { VCHECK(&v == &(*x.c)[i], "apply", "apply visits something else at position %zu", i); ++i; });
            VCHECK(i == x.m.size(), "apply", "apply visited %zu of %zu elements", i, x.m.size());
            VTRACE("apply");
        } else if constexpr (T::pointer) {
            const C& kc = *x.c;
            kc.apply([&](const V* p) { VCHECK(p == kc[i], "apply", "const apply visits something else at position %zu", i); ++i; });
            VCHECK(i == x.m.size(), "apply", "const apply visited %zu of %zu elements", i, x.m.size());
        } else if (k == 1) {
            x.c->modify([&](V& v) { v = V(x.m[i].id + 1000000); ++i; });
            VCHECK(i == x.m.size(), "apply", "modify visited %zu of %zu elements", i, x.m.size());
            for (auto& e : x.m) e.id += 1000000;
            VTRACE("modify");
        } else {
            x.c->transform([&](const V& v) { VCHECK(v.get() == x.m[i].id, "apply", "transform sees a wrong element at position %zu", i); ++i; return V(v.get() + 2000000); });
            VCHECK(i == x.m.size(), "apply", "transform visited %zu of %zu elements", i, x.m.size());
            for (auto& e : x.m) e.id += 2000000;
            VTRACE("transform");
        }
        vp::ev("apply_modify_transform");
    }
    void give(Slot& a, Slot& b) { b.m = std::move(a.m); b.t[0] = std::move(a.t[0]); b.t[1] = std::move(a.t[1]); a.m.clear(); a.t[0].clear(); a.t[1].clear(); a.moved = true; b.moved = false; }
    void whole(unsigned k, int ai, int bi)
    {
        Slot &a = s[ai], &b = s[bi];
        switch (k) {
            case 0: case 1:
                if constexpr (T::copyable) {
                    VTRACE("[%d]=copy of [%d] (%zu)", bi, ai, a.m.size());
                    std::unique_ptr<C> n(new C(*a.c));
                    // destroy the target first: the copy must not depend on anything else
                    auto m = a.m; auto t0 = a.t[0], t1 = a.t[1];
                    b.c = std::move(n);
                    b.m = std::move(m); b.t[0] = std::move(t0); b.t[1] = std::move(t1);
                    for (size_t i = 0; i < b.m.size(); ++i) setAt(b, i);
                    b.moved = false;
                    vp::ev("copy_construct");
                }
                break;
            case 2: case 3:
                if constexpr (T::copyable) {
                    VTRACE("[%d]=[%d] (%zu over %zu)", bi, ai, a.m.size(), b.m.size());
                    *b.c = *const_cast<const C*>(a.c.get());
                    if (ai != bi) { b.m = a.m; b.t[0] = a.t[0]; b.t[1] = a.t[1]; b.moved = false; } else vp::ev("self_copy_assign");
                    for (size_t i = 0; i < b.m.size(); ++i) setAt(b, i);
                    vp::ev("copy_assign");
                }
                break;
            case 4: case 5: {
                VTRACE("[%d]=move of [%d] (%zu)", bi, ai, a.m.size());
                std::unique_ptr<C> n(new C(std::move(*a.c)));
                if (ai == bi) { a.c = std::move(n); }
                else { give(a, b); checkMovedFrom(a); b.c = std::move(n); }
                vp::ev("move_construct");
                break;
            }
            case 6: case 7:
                if (ai == bi) break;
                VTRACE("[%d]<-move [%d] (%zu over %zu)", bi, ai, a.m.size(), b.m.size());
                *b.c = std::move(*a.c);
                give(a, b);
                checkMovedFrom(a);
                vp::ev("move_assign");
                break;
            case 8:
                if (ai == bi) break;
                VTRACE("swap [%d] [%d]", ai, bi);
                std::swap(*a.c, *b.c);
                std::swap(a.m, b.m); std::swap(a.t[0], b.t[0]); std::swap(a.t[1], b.t[1]);
                vp::ev("swap");
                break;
            case 9: VTRACE("[%d] new", ai); a.c.reset(new C()); a.m.clear(); a.t[0].clear(); a.t[1].clear(); a.moved = false; vp::ev("destroyed_filled"); break;
            default: VTRACE("[%d].clear (%zu)", ai, a.m.size()); if (!removing([&] { a.c->clear(); })) break; a.m.clear(); a.t[0].clear(); a.t[1].clear(); a.moved = false; vp::ev("clear"); break;
        }
    }
    /// a moved-from container may be anything valid; bring it to a known state through the operations every state allows
    void checkMovedFrom(Slot& a)
    {
        switch (rd.below(3)) {
            case 0: a.c.reset(new C()); break;
            case 1: a.c->clear(); vp::ev("moved_from_cleared"); break;
            default: *a.c = C(); vp::ev("moved_from_assigned"); break;
        }
        a.moved = true;
    }
    /// thousands of elements, most of them with terms of their own: block and bucket growth
    void grow(Slot& x, unsigned how)
    {
        unsigned cnt = 200 + rd.below(rd.below(3) == 0 ? 6000 : 1200), kind = rd.below(4);
        bulkLeft -= static_cast<long>(cnt);
        VTRACE("grow x%u kind %u", cnt, kind);
        for (unsigned i = 0; i < cnt; ++i) {
            unsigned key = nextFar++;
            if (kind == 0 || (kind == 1 && i % 3 == 0)) insert1(x, key, how);
            else if (kind == 1) insertNone(x, how);
            else if (kind == 2 && T::dual) insertBoth(x, key, key, how);
            else if (x.m.size() && T::addIndexTerm && i % 2) addIndex(x, 0, key, (i * 37u) % x.m.size());
            else insert1(x, key, how);
        }
        vp::ev("grown_large");
    }
    unsigned nextFar = 1000;
    long bulkLeft = vp::S().param("bulk", 1) ? 9000 : 0;
    unsigned pickKey() { return rd.below(8) == 0 ? DOM + rd.below(BULK) : rd.below(DOM); }
    void run()
    {
        ns = 1 + static_cast<int>(rd.below(3));
        int focus = vp::S().param("focus", 0);  // 1 insertions, 2 removals, 3 copies/moves, 4 addresses
        if (focus == 3 && ns == 1) ns = 2;
        if (focus == 1 || focus == 2) { if (rd.below(3)) ns = 1; }
        for (int i = 0; i < ns; ++i) s[i].c.reset(new C());
        while (!rd.done()) {
            int ai = static_cast<int>(rd.below(static_cast<uint32_t>(ns))), bi = static_cast<int>(rd.below(static_cast<uint32_t>(ns)));
            Slot& x = s[ai];
            int wpct = focus == 3 ? 40 : focus == 4 ? 20 : 6;
            if (rd.chance(wpct)) {
                unsigned k = rd.below(11);
                if (focus == 4 && k < 4 && rd.below(2)) k += 4;
                whole(k, ai, bi);
                vp::op(5000 + k * 8);
                stateOf(x, 500 + k);
                verify("whole-container operation");
                continue;
            }
            if (x.moved) { vp::ev("moved_from_used"); x.moved = false; }
            unsigned k = rd.below(20);
            if (focus == 1 && k >= 13 && k < 17 && rd.below(3)) k = rd.below(10);
            if (focus == 2 && k < 7 && rd.below(2)) k = 13 + rd.below(4);
            arm();
            unsigned how = rd.below(5);
            switch (k) {
                case 0: case 1: insert1(x, pickKey(), how); break;
                case 2: insert2(x, pickKey(), how); break;
                case 3: case 4: case 5: { unsigned a = pickKey(), b = pickKey(); if (T::dual) insertBoth(x, a, b, how); else insert1(x, a, how); break; }
                case 6: insertNone(x, how); break;
                case 7: assign1(x, pickKey(), how); break;
                case 8: assign2(x, pickKey(), how); break;
                case 9: { unsigned a = pickKey(), b = pickKey(); if (T::dual) assignBoth(x, a, b, how); else assign1(x, a, how); break; }
                case 10: case 11: { throwIn() = -1; unsigned key = pickKey(); int cls = T::dual ? static_cast<int>(rd.below(2)) : 0; addIndex(x, cls, key, x.m.empty() ? rd.below(2) : rd.below(24) == 0 ? (size_t(1) << 32) + rd.u16() % x.m.size() : rd.u16() % (x.m.size() + (rd.below(4) == 0))); break; }
                case 12: { throwIn() = -1; unsigned a = pickKey(), b = pickKey(); addTerm(x, static_cast<int>(rd.below(2)), a, static_cast<int>(rd.below(2)), b); break; }
                case 13: case 14: throwIn() = -1; {
                    size_t n = x.m.size();
                    size_t i = rd.below(4) == 0 ? (n ? n - 1 : 0) : n ? rd.u16() % (n + (rd.below(6) == 0)) : rd.below(3);
                    if (i >= n && rd.below(3) == 0) { static const size_t far[] = {256, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(0) - 1 - (1u << 20)}; i = far[rd.below(5)] + (n ? rd.u8() % n : 0); if (i < n) i = n; }
                    removeIndex(x, i);
                    break;
                }
                case 15: case 16: { throwIn() = -1; int cls = T::dual ? static_cast<int>(rd.below(2)) : 0; removeTerm(x, cls, pickKey()); break; }
                case 17: throwIn() = -1; applyOps(x, rd.below(3)); break;
                case 18: {  // bulk insertions (rehash, several blocks)
                    throwIn() = -1;
                    if (bulkLeft > 0 && rd.below(30) == 0) { grow(x, how); break; }
                    unsigned base = DOM + rd.below(BULK), cnt = 1 + rd.below(rd.below(4) == 0 ? 120 : 30), kind = rd.below(4);
                    VTRACE("bulk x%u", cnt);
                    if (x.m.size() > 600) break;
                    for (unsigned i = 0; i < cnt; ++i) {
                        unsigned key = DOM + (base - DOM + i) % BULK;
                        if (kind == 0) insert1(x, key, how);
                        else if (kind == 1) insertNone(x, how);
                        else if (kind == 2 && T::dual) insertBoth(x, key, key, how);
                        else if (x.m.size() && T::addIndexTerm) addIndex(x, 0, key, i % x.m.size());
                        else insert1(x, key, how);
                    }
                    vp::ev("bulk");
                    break;
                }
                default: {  // drop many
                    throwIn() = -1;
                    unsigned cnt = 1 + rd.below(20), from = rd.below(3);
                    if constexpr (T::removable) for (unsigned i = 0; i < cnt && !x.m.empty(); ++i) removeIndex(x, from == 0 ? 0 : from == 1 ? x.m.size() - 1 : rd.u8() % x.m.size());
                    break;
                }
            }
            throwIn() = -1;
            pendingNew = -1;
            vp::op(k * 64 + x.m.size() * 4096 + x.t[0].size() * 7 + x.t[1].size());
            stateOf(x, k);
            verify("operation");
        }
        opn = 23;
        verify("end of case");
        for (int i = 0; i < ns; ++i) s[i].c.reset();
        VCHECK(liveVals() == 0, "lifetime.leak", "%ld elements were never destroyed", liveVals());
    }
    static void entry(vp::Rd& rd)
    {
        throwIn() = -1;
        vp::newFailIn = -1;
        liveVals() = 0;
        Runner r(rd);
        r.run();
    }
};
}  // namespace mp
