// Scheduler implementation. Compiled WITHOUT sanitizers (see jobs.py "nosan") and without bulk memory operations on its state:
// it must be invisible to the race detector, which is told about happens-before edges explicitly.
#include "sched.hpp"
#include <sys/single_threaded.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>

extern "C" {
__attribute__((weak)) void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
__attribute__((weak)) void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
__attribute__((weak)) void* __asan_region_is_poisoned(void* beg, size_t size);
__attribute__((weak)) void* __tsan_get_current_fiber(void);
__attribute__((weak)) void* __tsan_create_fiber(unsigned flags);
__attribute__((weak)) void __tsan_switch_to_fiber(void* fiber, unsigned flags);
__attribute__((weak)) void __tsan_acquire(void* addr);
__attribute__((weak)) void __tsan_release(void* addr);
void* __cxa_get_globals();
void vp_swap(void** from, void* to);
}
asm(R"(
.text
.globl vp_swap
.type vp_swap,@function
vp_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vp_swap,.-vp_swap
)");

namespace vps {
namespace {
constexpr size_t STACK = 256 * 1024;
constexpr uint32_t M_LIVE = 0x4d757478, C_LIVE = 0x436f6e64, DEAD = 0xdeadbeef;
constexpr int MAXHELD = 16, MAXM = 64, MAXSH = 256, MAXC = 128;

struct Eh { void* caught; unsigned uncaught; };
struct Fiber {
    void* sp; char* stack; void* tsan; void* fake; Eh eh;
    int state, tag;
    const void* obj;
    bool timed, notified, timedOut;
    uint64_t deadline;
    void (*fn)(void*); void* arg;
    MState* held[MAXHELD]; int nheld;
    long prio;
    uint64_t cvblocks;
    int lastKind;
    uint64_t sync;  // address used for happens-before annotations
};
Fiber F[MAXF];
Fiber rootF;
const void* rootBottom; size_t rootSize;
bool inited;
int nF, cur = -1;
Config cfg;
uint64_t rs, nsteps, nswitch, clk, shash, consecutive;
bool autoTime, noise;
int rrNext;
long lowPrio;
uint64_t changeAt[16]; int nChange;
Result result;
char fkey[96], fmsg[900];
uint32_t evt;
HOp H[MAXH]; int nH;
bool hOverflow;
uint64_t sh[MAXSH]; int nsh;
uint32_t mIds;
uint64_t edge[MAXM];               // edge[a] bit b: b was acquired while holding a
uint64_t gate[MAXM][MAXM];         // locks held around every occurrence of that edge
const char* ck[MAXC]; uint64_t cv[MAXC];

uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
uint64_t rnext() { rs += 0x9E3779B97F4A7C15ULL; return mix(rs); }
uint32_t rbelow(uint32_t n) { return n ? static_cast<uint32_t>(rnext() % n) : 0; }
void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
void rel(void* p) { if (__tsan_release) __tsan_release(p); }

void fiberMain();
__attribute__((noinline)) void switchCtx(Fiber& from, Fiber& to)
{
    Eh* g = static_cast<Eh*>(__cxa_get_globals());
    from.eh.caught = g->caught; from.eh.uncaught = g->uncaught;
    g->caught = to.eh.caught; g->uncaught = to.eh.uncaught;
    bool toRoot = &to == &rootF;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&from.fake, toRoot ? rootBottom : to.stack, toRoot ? rootSize : STACK);
    if (__tsan_switch_to_fiber) __tsan_switch_to_fiber(to.tsan, 1);
    vp_swap(&from.sp, to.sp);
    const void* b; size_t n;
    if (__sanitizer_finish_switch_fiber) {
        __sanitizer_finish_switch_fiber(from.fake, &b, &n);
    }
}
void initPool()
{
    inited = true;
    __libc_single_threaded = 0;  // reference counts must be changed atomically: the fibers stand for threads
    rootF.tsan = __tsan_get_current_fiber ? __tsan_get_current_fiber() : nullptr;
    for (int i = 0; i < MAXF; ++i) {
        char* m = static_cast<char*>(mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (m == MAP_FAILED) { fprintf(stderr, "no memory for fiber stacks\n"); _Exit(3); }
        mprotect(m, 4096, PROT_NONE);
        F[i].stack = m + 4096;
        F[i].tsan = __tsan_create_fiber ? __tsan_create_fiber(0) : nullptr;
        void** sp = reinterpret_cast<void**>(F[i].stack + STACK);
        *--sp = nullptr;                       // fake return address of fiberMain, keeps the stack aligned
        *--sp = reinterpret_cast<void*>(&fiberMain);
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        F[i].sp = sp;
        F[i].state = UNUSED;
    }
}
void stateHash()
{
    uint64_t h = 0;
    for (int i = 0; i < nF; ++i) h = mix(h ^ static_cast<uint64_t>(F[i].state * 64 + F[i].lastKind * 512 + F[i].nheld));
    if (nsh < MAXSH) sh[nsh++] = h;
}
bool runnable(const Fiber& f) { return f.state == RUNNABLE; }
uint64_t nextDeadline()
{
    uint64_t d = ~0ULL;
    for (int i = 0; i < nF; ++i)
        if ((F[i].state == ON_CV_TIMED || F[i].state == ON_SLEEP || (F[i].state == ON_MUTEX && F[i].timed)) && F[i].deadline < d) d = F[i].deadline;
    return d;
}
void expire()
{
    for (int i = 0; i < nF; ++i) {
        Fiber& f = F[i];
        if (f.deadline > clk) continue;
        if (f.state == ON_CV_TIMED) { f.state = RUNNABLE; f.timedOut = true; f.obj = nullptr; count("timeouts_fired"); }
        else if (f.state == ON_SLEEP) { f.state = RUNNABLE; }
        else if (f.state == ON_MUTEX && f.timed) { f.state = RUNNABLE; f.timedOut = true; }
    }
}
bool jump()
{
    uint64_t d = nextDeadline();
    if (d == ~0ULL) return false;
    if (d > clk) clk = d;
    expire();
    return true;
}
// choose the next fiber; -1 if none can run
int pick()
{
    if (noise && cfg.timejump && rbelow(1000) < static_cast<uint32_t>(cfg.timejump)) { if (jump()) count("time_jumps"); }
    if (noise && cfg.spurious && rbelow(1000) < static_cast<uint32_t>(cfg.spurious)) {
        int c[MAXF], n = 0;
        for (int i = 0; i < nF; ++i) if ((F[i].state == ON_CV || F[i].state == ON_CV_TIMED)) c[n++] = i;
        if (n) {
            Fiber& f = F[c[rbelow(static_cast<uint32_t>(n))]];
            f.state = RUNNABLE; f.notified = true; f.obj = nullptr;
            count("spurious_wakeups");
        }
    }
    int r[MAXF], n = 0;
    for (;;) {
        n = 0;
        for (int i = 0; i < nF; ++i) if (runnable(F[i])) r[n++] = i;
        if (n) break;
        if (autoTime && jump()) continue;
        return -1;
    }
    // a long run continues with a fair strategy, so that reaching the step limit means that there is no end under fair scheduling
    int strat = nsteps > cfg.stepLimit / 5 ? static_cast<int>(RANDOM) : cfg.strategy;
    if (cur >= 0 && runnable(F[cur]) && consecutive < 2000) {
        if (strat == STICKY && rbelow(100) < static_cast<uint32_t>(cfg.sticky)) return cur;
    }
    switch (strat) {
        case PCT: {
            for (int k = 0; k < nChange; ++k)
                if (changeAt[k] == nsteps && cur >= 0) F[cur].prio = lowPrio--;
            if (cur >= 0 && consecutive >= 2000) { F[cur].prio = lowPrio--; consecutive = 0; }
            int b = r[0];
            for (int i = 1; i < n; ++i) if (F[r[i]].prio > F[b].prio) b = r[i];
            return b;
        }
        case ROUNDROBIN: {
            for (int k = 0; k < nF; ++k) {
                int i = (rrNext + k) % nF;
                if (runnable(F[i])) { rrNext = i + 1 + (rbelow(8) == 0); return i; }
            }
            return r[0];
        }
        default: return r[rbelow(static_cast<uint32_t>(n))];
    }
}
void toRoot(Result r)
{
    result = r;
    int me = cur;
    cur = -1;
    switchCtx(F[me], rootF);
}
// give up the processor: the state of the current fiber has been set
void resched()
{
    int me = cur;
    int nx = pick();
    if (nx == me) { ++consecutive; return; }
    consecutive = 0;
    if (nx < 0) { toRoot(STUCK); return; }
    ++nswitch;
    shash = mix(shash ^ static_cast<uint64_t>(nx * 131 + F[me].lastKind));
    stateHash();
    cur = nx;
    switchCtx(F[me], F[nx]);
}
bool step()
{
    ++nsteps;
    clk += 1000;
    return nsteps >= cfg.stepLimit;
}
void fiberMain()
{
    if (__sanitizer_finish_switch_fiber) {
        const void* b; size_t n;
        __sanitizer_finish_switch_fiber(nullptr, &b, &n);
        if (!rootBottom) { rootBottom = b; rootSize = n; }
    }
    for (;;) {
        Fiber& f = F[cur];
        acq(&f.sync);
        f.fn(f.arg);
        rel(&f.sync);
        if (f.nheld) fail("lock-leak", "a thread ended while holding %d mutex(es)", f.nheld);
        f.state = FINISHED;
        for (int i = 0; i < nF; ++i) if (F[i].state == ON_JOIN && F[i].obj == &f) { F[i].state = RUNNABLE; F[i].obj = nullptr; }
        bool any = false;
        for (int i = 0; i < nF; ++i) if (F[i].state != FINISHED) any = true;
        if (!any) { toRoot(DONE); continue; }
        f.lastKind = 15;
        resched();
    }
}
void checkMem(void* p, size_t n, const char* what)
{
    if (__asan_region_is_poisoned && __asan_region_is_poisoned(p, n)) fail("use-after-free", "%s in freed memory was used", what);
}
void checkM(MState* m, const char* what)
{
    checkMem(m, sizeof *m, "a mutex");
    if (m->magic != M_LIVE) fail("dead-mutex", "%s on a mutex that was destroyed or never constructed", what);
}
void lockOrder(MState* m, Fiber& f)
{
    if (m->id >= MAXM) return;
    uint64_t heldBits = 0;
    for (int i = 0; i < f.nheld; ++i) if (f.held[i]->id < MAXM) heldBits |= 1ULL << f.held[i]->id;
    for (int i = 0; i < f.nheld; ++i) {
        uint32_t a = f.held[i]->id;
        if (a >= MAXM || a == m->id) continue;
        uint64_t g = heldBits & ~(1ULL << a);
        if (edge[a] & (1ULL << m->id)) gate[a][m->id] &= g;
        else { edge[a] |= 1ULL << m->id; gate[a][m->id] = g; }
        // is a reachable from m without a lock common to all edges?
        struct { uint32_t n; uint64_t g; } st[MAXM * 4];
        int sp = 0;
        uint64_t seen = 0;
        st[sp].n = m->id; st[sp].g = gate[a][m->id]; ++sp;
        bool first = true;
        uint64_t g0 = gate[a][m->id];
        while (sp) {
            --sp;
            uint32_t n = st[sp].n; uint64_t gg = st[sp].g;
            if (n == a) { if (gg == 0) fail("lock-order", "locks are taken in opposite orders (mutex #%u while holding #%u and the other way round)", m->id, a); continue; }
            if ((seen >> n) & 1) continue;
            seen |= 1ULL << n;
            for (uint32_t b = 0; b < MAXM && sp < MAXM * 3; ++b) if ((edge[n] >> b) & 1) { st[sp].n = b; st[sp].g = gg & gate[n][b]; ++sp; }
        }
        (void)first; (void)g0;
    }
}
void wakeMutex(MState* m)
{
    for (int i = 0; i < nF; ++i) if (F[i].state == ON_MUTEX && F[i].obj == m) { F[i].state = RUNNABLE; F[i].obj = nullptr; }
}
void acquired(MState* m, Fiber& f, bool order)
{
    if (order) lockOrder(m, f);
    if (f.nheld < MAXHELD) f.held[f.nheld++] = m;
    else fail("lock-leak", "more than %d mutexes are held", MAXHELD);
    acq(m);
}
void dropHeld(MState* m, Fiber& f)
{
    for (int i = f.nheld - 1; i >= 0; --i)
        if (f.held[i] == m) { for (int k = i; k + 1 < f.nheld; ++k) f.held[k] = f.held[k + 1]; --f.nheld; return; }
}
}  // namespace

// ------------------------------------------------------------------ root side
void beginCase(const Config& c)
{
    if (!inited) initPool();
    cfg.strategy = c.strategy; cfg.seed = c.seed; cfg.sticky = c.sticky; cfg.depth = c.depth; cfg.length = c.length; cfg.spurious = c.spurious;
    cfg.timejump = c.timejump; cfg.weakfail = c.weakfail; cfg.autoTime = c.autoTime; cfg.stepLimit = c.stepLimit; cfg.traceSched = c.traceSched;
    rs = mix(c.seed);
    nF = 0; cur = -1; nsteps = nswitch = shash = consecutive = 0; clk = 1000000000ULL; autoTime = c.autoTime; noise = true; rrNext = 0;
    lowPrio = -1; evt = 1; nH = 0; hOverflow = false; nsh = 0; mIds = 0;
    fkey[0] = 0; fmsg[0] = 0;
    for (int a = 0; a < MAXM; ++a) edge[a] = 0;
    nChange = c.depth < 16 ? c.depth : 16;
    for (int i = 0; i < nChange; ++i) changeAt[i] = 1 + rbelow(static_cast<uint32_t>(c.length > 0 ? c.length : 1));
}
int spawn(void (*fn)(void*), void* arg, int tag)
{
    if (nF >= MAXF) { if (cur >= 0) fail("too-many-threads", "more than %d threads", MAXF); return -1; }
    int i = nF++;
    Fiber& f = F[i];
    f.state = RUNNABLE; f.tag = tag; f.obj = nullptr; f.timed = f.notified = f.timedOut = false; f.deadline = 0; f.fn = fn; f.arg = arg;
    f.nheld = 0; f.prio = static_cast<long>(rbelow(1000000)) + 1; f.cvblocks = 0; f.lastKind = 0;
    rel(&f.sync);
    return i;
}
Result run()
{
    if (result == FAILED && fkey[0]) return FAILED;
    bool any = false;
    for (int i = 0; i < nF; ++i) if (F[i].state != FINISHED) any = true;
    if (!any) return DONE;
    cur = -1;
    int nx = pick();
    if (nx < 0) return STUCK;
    consecutive = 0;
    cur = nx;
    ++nswitch;
    switchCtx(rootF, F[nx]);
    return result;
}
void setAutoTime(bool v) { autoTime = v; }
void setNoise(bool v) { noise = v; }
bool jumpTime() { return jump(); }
FiberInfo info(int i) { return FiberInfo{F[i].state, F[i].obj, F[i].tag, F[i].nheld, F[i].state == ON_CV_TIMED}; }
int fiberCount() { return nF; }
const char* failKey() { return fkey; }
const char* failMsg() { return fmsg; }
void endCase() { for (int i = 0; i < nF; ++i) acq(&F[i].sync); }
uint64_t steps() { return nsteps; }
uint64_t switches() { return nswitch; }
uint64_t schedHash() { return shash; }
int stateHashes(const uint64_t** out) { *out = sh; return nsh; }
int allFinished()
{
    for (int i = 0; i < nF; ++i) if (F[i].state != FINISHED) return 0;
    return 1;
}

// ------------------------------------------------------------------ fiber side
void point(int kind, const void* obj)
{
    if (cur < 0) return;
    (void)obj;
    F[cur].lastKind = kind;
    if (step()) { toRoot(STEPLIMIT); return; }
    resched();
}
int self() { return cur; }
bool onFiber() { return cur >= 0; }
int heldMutexes() { return cur < 0 ? 0 : F[cur].nheld; }
uint64_t cvBlocks() { return cur < 0 ? 0 : F[cur].cvblocks; }
void fail(const char* key, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(fmsg, sizeof fmsg, fmt, ap);
    va_end(ap);
    snprintf(fkey, sizeof fkey, "%s", key);
    if (cur < 0) {  // raised on the root: nothing to switch to
        fprintf(stderr, "ORACLE %s: %s\n", fkey, fmsg);
        fflush(stderr);
        _Exit(77);
    }
    for (;;) toRoot(FAILED);
}
uint64_t nowNs() { return clk; }
void sleepNs(uint64_t ns)
{
    if (cur < 0) { clk += ns; return; }
    Fiber& f = F[cur];
    f.lastKind = 8;
    if (step()) toRoot(STEPLIMIT);
    f.deadline = clk + ns;
    f.state = ON_SLEEP;
    resched();
}
uint32_t rnd(uint32_t n) { return rbelow(n); }
bool weakFailure() { return cfg.weakfail && cur >= 0 && rbelow(100) < static_cast<uint32_t>(cfg.weakfail); }

// ------------------------------------------------------------------ history
uint32_t tick() { return evt++; }
int opBegin(int kind, int arg, int arg2)
{
    if (nH >= MAXH) { hOverflow = true; return -1; }
    HOp& h = H[nH];
    h.fiber = static_cast<int16_t>(cur); h.kind = static_cast<int16_t>(kind); h.arg = arg; h.arg2 = arg2; h.res = -1; h.inv = evt++; h.ret = 0xffffffffu;
    return nH++;
}
int opBeginAs(int fiber, int kind, int arg, uint32_t inv)
{
    int i = opBegin(kind, arg, 0);
    if (i >= 0) { H[i].fiber = static_cast<int16_t>(fiber); H[i].inv = inv; }
    return i;
}
void opEnd(int i, int res) { if (i >= 0) { H[i].res = res; H[i].ret = evt++; } }
void setArg(int h, int arg) { if (h >= 0) H[h].arg = arg; }
int historySize() { return hOverflow ? -1 : nH; }
const HOp& history(int i) { return H[i]; }

void count(const char* k, uint64_t n)
{
    for (int i = 0; i < MAXC; ++i) {
        if (ck[i] == k) { cv[i] += n; return; }
        if (!ck[i]) { ck[i] = k; cv[i] = n; return; }
    }
}
int counters(const char*** k, uint64_t** v)
{
    *k = ck; *v = cv;
    int n = 0;
    while (n < MAXC && ck[n]) ++n;
    return n;
}

// ------------------------------------------------------------------ mutexes
void mInit(MState* m) { m->owner = -1; m->depth = 0; m->readers = 0; m->magic = M_LIVE; m->id = mIds++; }
void mDestroy(MState* m)
{
    if (m->magic != M_LIVE) fail("dead-mutex", "a mutex was destroyed twice");
    if (m->owner >= 0 || m->readers) fail("mutex-destroyed-locked", "a mutex was destroyed while thread %d holds it", m->owner);
    for (int i = 0; i < nF; ++i) if (F[i].state == ON_MUTEX && F[i].obj == m) fail("mutex-destroyed-locked", "a mutex was destroyed while thread %d waits for it", i);
    m->magic = DEAD;
}
static bool lockImpl(MState* m, bool recursive, bool timed, uint64_t deadline)
{
    if (cur < 0) {
        checkM(m, "lock");
        if (m->owner == -2 && !recursive) fail("recursive-lock", "the owner locks a mutex again");
        m->owner = -2; ++m->depth;
        acq(m);
        return true;
    }
    point(4, m);
    checkM(m, "lock");
    Fiber& f = F[cur];
    if (m->owner == cur) {
        if (recursive) { ++m->depth; return true; }
        fail("recursive-lock", "thread %d locks a mutex it already holds", cur);
    }
    bool contended = false;
    f.timedOut = false;
    while (m->owner != -1 || m->readers) {
        if (!contended) count("lock_contended");
        contended = true;
        if (timed && f.timedOut) { f.timed = false; return false; }
        f.state = ON_MUTEX; f.obj = m; f.timed = timed; f.deadline = timed ? deadline : 0;
        resched();
        checkM(m, "lock");
    }
    f.timed = false;
    m->owner = cur; m->depth = 1;
    acquired(m, f, true);
    return true;
}
void mLock(MState* m, bool recursive) { lockImpl(m, recursive, false, 0); }
bool mTryLockUntil(MState* m, bool recursive, uint64_t dl) { return lockImpl(m, recursive, true, dl); }
bool mTryLock(MState* m, bool recursive)
{
    if (cur < 0) { mLock(m, recursive); return true; }
    point(4, m);
    checkM(m, "try_lock");
    if (m->owner == cur) {
        if (recursive) { ++m->depth; return true; }
        fail("recursive-lock", "thread %d calls try_lock on a mutex it already holds", cur);
    }
    if (m->owner != -1 || m->readers || weakFailure()) return false;
    m->owner = cur; m->depth = 1;
    acquired(m, F[cur], false);
    return true;
}
void mUnlock(MState* m, bool)
{
    checkM(m, "unlock");
    if (cur < 0) {
        if (m->owner != -2) fail("bad-unlock", "unlock of a mutex that is not held by the caller");
        rel(m);
        if (--m->depth == 0) m->owner = -1;
        return;
    }
    if (m->owner != cur) fail("bad-unlock", "thread %d unlocks a mutex held by %d", cur, m->owner);
    if (--m->depth > 0) return;
    rel(m);
    m->owner = -1;
    dropHeld(m, F[cur]);
    wakeMutex(m);
    point(6, m);
}
void mLockShared(MState* m)
{
    if (cur < 0) { checkM(m, "lock_shared"); ++m->readers; acq(m); return; }
    point(4, m);
    checkM(m, "lock_shared");
    Fiber& f = F[cur];
    if (m->owner == cur) fail("recursive-lock", "thread %d locks a shared mutex it already holds", cur);
    while (m->owner != -1) { f.state = ON_MUTEX; f.obj = m; f.timed = false; resched(); checkM(m, "lock_shared"); }
    ++m->readers;
    acquired(m, f, true);
}
bool mTryLockShared(MState* m)
{
    if (cur < 0) { mLockShared(m); return true; }
    point(4, m);
    checkM(m, "try_lock_shared");
    if (m->owner != -1 || weakFailure()) return false;
    ++m->readers;
    acquired(m, F[cur], false);
    return true;
}
void mUnlockShared(MState* m)
{
    checkM(m, "unlock_shared");
    if (m->readers <= 0) fail("bad-unlock", "unlock_shared of a mutex that is not held");
    --m->readers;
    rel(m);
    if (cur < 0) return;
    dropHeld(m, F[cur]);
    if (m->readers == 0) wakeMutex(m);
    point(6, m);
}

// ------------------------------------------------------------------ condition variables
void cInit(CState* c) { c->magic = C_LIVE; }
void cDestroy(CState* c)
{
    if (c->magic != C_LIVE) fail("dead-condition", "a condition variable was destroyed twice");
    for (int i = 0; i < nF; ++i)
        if (F[i].state != FINISHED && F[i].obj == c && !F[i].notified) fail("condition-destroyed-waiting", "a condition variable was destroyed while thread %d waits on it", i);
    c->magic = DEAD;
}
static void checkC(CState* c, const char* what)
{
    checkMem(c, sizeof *c, "a condition variable");
    if (c->magic != C_LIVE) fail("dead-condition", "%s on a condition variable that was destroyed", what);
}
// between cPrepare and cBlock the fiber is registered (obj set) but still running
void cPrepare(CState* c, MState*)
{
    checkC(c, "wait");
    if (cur < 0) fail("deadlock", "a wait outside of any thread can never be woken");
    Fiber& f = F[cur];
    f.obj = c; f.notified = false; f.timedOut = false;
    if (f.nheld == 0) fail("wait-unlocked", "a condition variable wait without holding a mutex");
}
bool cBlock(CState* c, bool timed, uint64_t deadline)
{
    Fiber& f = F[cur];
    if (f.notified) { f.obj = nullptr; count("notified_before_sleep"); return true; }
    if (timed && deadline <= clk) { f.obj = nullptr; count("timeouts_fired"); return false; }
    f.obj = c;
    f.deadline = deadline;
    f.state = timed ? ON_CV_TIMED : ON_CV;
    ++f.cvblocks;
    count("cv_blocks");
    f.lastKind = 5;
    resched();
    f.obj = nullptr;
    return !f.timedOut || f.notified;
}
void cNotify(CState* c, bool all)
{
    point(7, c);
    checkC(c, "notify");
    int r[MAXF], n = 0;
    for (int i = 0; i < nF; ++i)
        if (i != cur && F[i].obj == c && !F[i].notified && F[i].state != FINISHED) r[n++] = i;
    if (!n) { count("notify_nobody"); return; }
    if (!all) { r[0] = r[rbelow(static_cast<uint32_t>(n))]; n = 1; }
    count("notify_wakes", static_cast<uint64_t>(n));
    for (int k = 0; k < n; ++k) {
        Fiber& f = F[r[k]];
        f.notified = true;
        if (f.state == ON_CV || f.state == ON_CV_TIMED) { f.state = RUNNABLE; f.obj = nullptr; }
    }
}

// ------------------------------------------------------------------ threads
int tSpawn(void (*fn)(void*), void* arg)
{
    point(8, nullptr);
    int i = spawn(fn, arg, 1000);
    count("threads_started");
    return i;
}
void tJoin(int id)
{
    if (cur < 0) fail("deadlock", "join outside of any thread");
    point(8, nullptr);
    if (id == cur) fail("deadlock", "a thread joins itself");
    if (F[id].state != FINISHED) {
        F[cur].state = ON_JOIN; F[cur].obj = &F[id];
        resched();
    }
    acq(&F[id].sync);
    count("threads_joined");
}
bool tFinished(int id) { return F[id].state == FINISHED; }
}  // namespace vps
