#include "mapped.hpp"
#include "gmlc/containers/mapOps.hpp"
const unsigned engineMinOps = 6;
const bool engineCheckLeaks = true;
std::vector<mp::Config>& mp::configs(bool d) { static std::vector<Config> v[2]; return v[d ? 1 : 0]; }
void engineInit()
{
    for (int d = 0; d < 2; ++d) std::sort(mp::configs(d).begin(), mp::configs(d).end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });
}

namespace {
// ---- map helpers (M05): the map is mirrored in a plain vector
template<class M, class K, class V, class MkK, class MkV>
void mapCase(vp::Rd& rd, MkK mk, MkV mv)
{
    M m;
    std::vector<std::pair<unsigned, unsigned>> ref;
    while (!rd.done()) {
        unsigned k = rd.below(24), op = rd.below(8), v = rd.below(200);
        auto find = [&](unsigned key) { return std::find_if(ref.begin(), ref.end(), [&](auto& p) { return p.first == key; }); };
        auto it = find(k);
        if (op < 2) { m[mk(k)] = mv(v); if (it == ref.end()) ref.push_back({k, v}); else it->second = v; vp::ev("map_writes"); }
        else if (op == 2) { m.erase(mk(k)); if (it != ref.end()) ref.erase(it); }
        else if (op == 3 && rd.below(6) == 0) { m.clear(); ref.clear(); }
        const M& c = m;
        it = find(k);
        bool has = it != ref.end();
        V want = has ? mv(it->second) : mv(201);
        const M before = m;
        V got = mapFind(c, static_cast<const K&>(mk(k)), static_cast<const V&>(mv(201)));
        VCHECK(got == want, "mapfind.value", "mapFind with a default returned the wrong value for a %s key", has ? "present" : "missing");
        auto o = mapFind(c, static_cast<const K&>(mk(k)));
        VCHECK(o.has_value() == has, "mapfind.optional", "mapFind returned %s for a %s key", o ? "a value" : "nothing", has ? "present" : "missing");
        if (has) VCHECK(*o == want, "mapfind.value", "mapFind returned the wrong value");
        // the stored value equals the default: still found
        if (has) { V g2 = mapFind(c, static_cast<const K&>(mk(k)), static_cast<const V&>(want)); VCHECK(g2 == want, "mapfind.value", "mapFind with the stored value as default"); }
        VCHECK(m == before && m.size() == ref.size(), "mapfind.modified", "mapFind changed the map (%zu entries, expected %zu)", m.size(), ref.size());
        vp::ev(has ? "mapfind_present" : "mapfind_missing");
        vp::op(op * 32 + k + ref.size() * 1024);
        vp::state(ref.size() * 64 + k * 2 + has);
    }
}
void mapfindCase(vp::Rd& rd)
{
    auto ks = [](unsigned i) { return mp::KeyOf<std::string>::make(i); };
    auto ki = [](unsigned i) { return mp::KeyOf<int>::make(i); };
    auto vs = [](unsigned i) { return i % 5 == 0 ? std::string() : "value " + std::string(i % 40, 'v') + std::to_string(i); };
    auto vi = [](unsigned i) { return static_cast<long>(i % 50) - 7; };
    auto vv = [](unsigned i) { return std::vector<int>(i % 7, static_cast<int>(i)); };
    unsigned k = rd.below(6);
    vp::sigmix(k);
    VTRACE("mapFind variant %u", k);
    switch (k) {
        case 0: mapCase<std::map<std::string, std::string>, std::string, std::string>(rd, ks, vs); break;
        case 1: mapCase<std::unordered_map<std::string, std::string>, std::string, std::string>(rd, ks, vs); break;
        case 2: mapCase<std::map<int, long>, int, long>(rd, ki, vi); break;
        case 3: mapCase<std::unordered_map<int, long>, int, long>(rd, ki, vi); break;
        case 4: mapCase<std::map<std::string, std::vector<int>>, std::string, std::vector<int>>(rd, ks, vv); break;
        default: mapCase<std::unordered_map<int, std::vector<int>>, int, std::vector<int>>(rd, ki, vv); break;
    }
}
}  // namespace

void runCase(vp::Rd& rd)
{
    if (vp::S().mode == "mapfind") { mapfindCase(rd); return; }
    auto& c = mp::configs(vp::S().mode == "dual");
    static int only = vp::S().param("cfg", -1);
    unsigned k = only >= 0 ? static_cast<unsigned>(only) : rd.below(static_cast<uint32_t>(c.size()));
    VTRACE("%s", c[k].name);
    vp::sigmix(k);
    vp::ev(c[k].name);
    c[k].fn(rd);
}
