#include "blocks.hpp"
const unsigned engineMinOps = 6;
const bool engineCheckLeaks = true;
std::vector<bl::Config>& bl::configs(bool dq) { static std::vector<Config> v[2]; return v[dq ? 1 : 0]; }
void engineInit()
{
    bl::reg(); bl::ledger();
    for (int d = 0; d < 2; ++d) std::sort(bl::configs(d).begin(), bl::configs(d).end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });
}
void runCase(vp::Rd& rd)
{
    auto& c = bl::configs(vp::S().mode == "deque");
    unsigned k = rd.below(static_cast<uint32_t>(c.size()));
    VTRACE("%s<%s>", vp::S().mode.c_str(), c[k].name);
    vp::sigmix(k);
    vp::ev(c[k].name);
    c[k].fn(rd);
}
