// Shared parts of the concurrency engines that run on the cooperative scheduler.
#pragma once
#include <bits/stdc++.h>
#include "sched.hpp"
#define mutex vpx_mutex
#define timed_mutex vpx_timed_mutex
#define recursive_mutex vpx_recursive_mutex
#define shared_mutex vpx_shared_mutex
#define condition_variable vpx_condition_variable
#define condition_variable_any vpx_condition_variable_any
#define atomic vpx_atomic
#define atomic_bool vpx_atomic_bool
#define atomic_int vpx_atomic_int
#define atomic_flag vpx_atomic_flag
#define thread vpx_thread
#define this_thread vpx_this_thread
#define steady_clock vpx_steady_clock
#define system_clock vpx_system_clock
#define high_resolution_clock vpx_high_resolution_clock
#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"
#include "gmlc/containers/WorkQueue.hpp"
#undef mutex
#undef timed_mutex
#undef recursive_mutex
#undef shared_mutex
#undef condition_variable
#undef condition_variable_any
#undef atomic
#undef atomic_bool
#undef atomic_int
#undef atomic_flag
#undef thread
#undef this_thread
#undef steady_clock
#undef system_clock
#undef high_resolution_clock
#include "lin.hpp"

namespace conc {
using namespace gmlc::containers;

inline void traceHistory()
{
    if (!vp::S().trace) return;
    int n = vps::historySize();
    std::vector<int> ix;
    for (int i = 0; i < n; ++i) ix.push_back(i);
    std::sort(ix.begin(), ix.end(), [](int a, int b) { return vps::history(a).inv < vps::history(b).inv; });
    for (int i : ix) {
        const vps::HOp& o = vps::history(i);
        vp::tracef("t%d %s(%d%s)=%d[%u,%d]", o.fiber, kindName(o.kind), o.arg, o.kind == PUSHV ? (" n" + std::to_string(o.arg2)).c_str() : "", o.res, o.inv, static_cast<int>(o.ret));
    }
}
inline void flushCounters()
{
    const char** k; uint64_t* v;
    int n = vps::counters(&k, &v);
    for (int i = 0; i < n; ++i) if (v[i]) { vp::ev(k[i], v[i]); v[i] = 0; }
}
/// report what the scheduler or a fiber found
[[noreturn]] inline void failFromSched()
{
    traceHistory();
    vp::vfail(vps::failKey(), "%s", vps::failMsg());
}
inline vps::Config decodeConfig(vp::Rd& rd, bool strict)
{
    vps::Config c;
    c.seed = rd.u64();
    uint32_t b = rd.u8();
    c.strategy = static_cast<int>(b & 3);
    c.sticky = 30 + static_cast<int>((b >> 2) & 3) * 20;
    c.depth = 1 + static_cast<int>((b >> 4) & 7);
    static const int lens[] = {30, 80, 160, 320};
    c.length = lens[rd.below(4)];
    uint32_t d = rd.u8();
    c.spurious = (d & 3) == 3 ? 25 : 0;
    c.timejump = strict ? 0 : (d & 4) ? 8 : 0;
    c.weakfail = (d & 8) ? 15 : 0;
    c.autoTime = false;
    return c;
}
inline void finishCase()
{
    vps::endCase();
    vp::sigmix(vps::schedHash());
    const uint64_t* h;
    int n = vps::stateHashes(&h);
    for (int i = 0; i < n; ++i) vp::state(h[i]);
    vp::evmax("steps_max", vps::steps());
    vp::ev("scheduling_steps", vps::steps());
    vp::ev("context_switches", vps::switches());
    flushCounters();
}
void queueCase(vp::Rd& rd);
void airCase(vp::Rd& rd);
void workCase(vp::Rd& rd);
}  // namespace conc
