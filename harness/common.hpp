// Shared driver for the /verif engines: byte-driven cases, oracle failures, statistics, crash capture.
// Modes of the produced binary:
//   --mode M --seed S --cases N [--secs T] [--maxlen L] --out F --cur F   random cases
//   --fuzz N ...                                                         libFuzzer (when linked in)
//   --mode M --replay F [--trace]                                        one recorded case
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vp {

inline uint64_t mix64(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
    uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>(next() % n) : 0; }
};

/// byte stream decoder: every choice of a case comes from here
struct Rd {
    const uint8_t* p;
    const uint8_t* e;
    bool done() const { return p >= e; }
    uint8_t u8() { return p < e ? *p++ : 0; }
    uint32_t u16() { uint32_t a = u8(); return a | (static_cast<uint32_t>(u8()) << 8); }
    uint64_t u64() { uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= static_cast<uint64_t>(u8()) << (8 * i); return v; }
    /// uniform below n (n<=256 uses one byte)
    uint32_t below(uint32_t n) { if (n <= 1) return 0; return n <= 256 ? u8() % n : u16() % n; }
    bool chance(int pct) { return static_cast<int>(u8()) * 100 < pct * 256; }
};

constexpr size_t MAXCASE = 1 << 16;
struct CurCase {  // lives in a shared mapping so that a dying process leaves its case behind
    char magic[8];
    uint32_t len;
    uint32_t active;
    uint64_t index;
    char key[96];
    char msg[1024];
    uint8_t data[MAXCASE];
};
struct State {
    std::string mode;
    CurCase* cur = nullptr;
    bool trace = false;
    std::string traceText;
    size_t traceMax = 20000;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> maxima;
    std::unordered_set<uint64_t> cases;    // distinct non-trivial case signatures
    std::unordered_set<uint64_t> states;   // distinct abstract states
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
    std::string outFile;
    // per-case buffers (fixed storage: no allocation while a case is being measured)
    uint64_t sig = 0;
    uint32_t ops = 0;
    uint64_t stBuf[512];
    uint32_t stN = 0;
    bool inCase = false;
    std::map<std::string, std::string> params;
    int param(const char* k, int dflt) { auto it = params.find(k); return it == params.end() ? dflt : atoi(it->second.c_str()); }
};
inline State& S() { static State* s = new State; return *s; }

struct CounterBuf { const char* k; uint64_t v; };
inline CounterBuf* cbufs() { static CounterBuf b[256]; return b; }
/// count an event (allocation free: k must be a literal)
inline void ev(const char* k, uint64_t n = 1)
{
    CounterBuf* b = cbufs();
    for (int i = 0; i < 256; ++i) {
        if (b[i].k == k) { b[i].v += n; return; }
        if (b[i].k == nullptr) { b[i].k = k; b[i].v = n; return; }
    }
}
inline CounterBuf* mbufs() { static CounterBuf b[64]; return b; }
inline void evmax(const char* k, uint64_t n)
{
    CounterBuf* b = mbufs();
    for (int i = 0; i < 64; ++i) {
        if (b[i].k == k) { if (n > b[i].v) b[i].v = n; return; }
        if (b[i].k == nullptr) { b[i].k = k; b[i].v = n; return; }
    }
}
inline void sigmix(uint64_t v) { S().sig = mix64(S().sig ^ v); }
inline void state(uint64_t h) { State& s = S(); if (s.stN < 512) s.stBuf[s.stN++] = mix64(h); }
inline void op(uint64_t code) { ++S().ops; sigmix(code); }

inline void tracef(const char* f, ...)
{
    State& s = S();
    if (!s.trace || s.traceText.size() > s.traceMax) return;
    char b[512];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    s.traceText += b;
    s.traceText += "; ";
}
#define VTRACE(...) do { if (vp::S().trace) vp::tracef(__VA_ARGS__); } while (0)

inline std::string jesc(const std::string& x)
{
    std::string o;
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
inline void dumpStats()
{
    State& s = S();
    if (s.outFile.empty()) return;
    FILE* f = fopen((s.outFile + ".tmp").c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\":%llu,\"counters\":{", static_cast<unsigned long long>(s.evaluations));
    std::map<std::string, uint64_t> c = s.counters;
    for (int i = 0; i < 256 && cbufs()[i].k; ++i) c[cbufs()[i].k] += cbufs()[i].v;
    bool first = true;
    for (auto& kv : c) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), static_cast<unsigned long long>(kv.second)); first = false; }
    fprintf(f, "},\"maxima\":{");
    std::map<std::string, uint64_t> m = s.maxima;
    for (int i = 0; i < 64 && mbufs()[i].k; ++i) m[mbufs()[i].k] = std::max(m[mbufs()[i].k], mbufs()[i].v);
    first = true;
    for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), static_cast<unsigned long long>(kv.second)); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(f, "],\"case_hashes\":[");
    first = true;
    for (auto x : s.cases) { fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(x >> 12)); first = false; }
    fprintf(f, "],\"state_hashes\":[");
    first = true;
    for (auto x : s.states) { fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(x >> 12)); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    rename((s.outFile + ".tmp").c_str(), s.outFile.c_str());
}

/// oracle violation: record and die (the driver picks the case up from the shared mapping)
[[noreturn]] inline void vfail(const char* key, const char* f, ...)
{
    State& s = S();
    char b[1000];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (s.cur) {
        snprintf(s.cur->key, sizeof s.cur->key, "%s", key);
        snprintf(s.cur->msg, sizeof s.cur->msg, "%s", b);
    }
    fprintf(stderr, "ORACLE %s: %s\n", key, b);
    if (s.trace) fprintf(stderr, "TRACE %s\n", s.traceText.c_str());
    fflush(stderr);
    dumpStats();
    _exit(77);
}
#define VCHECK(c, key, ...) do { if (!(c)) vp::vfail(key, __VA_ARGS__); } while (0)

// ---- allocation balance (hooks of the sanitizer runtime; weak so that plain builds link) ----
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
inline long liveAllocCount = 0;
inline long& liveAllocs() { return liveAllocCount; }
inline void mallocHook(const volatile void*, size_t) { __atomic_fetch_add(&liveAllocs(), 1L, __ATOMIC_RELAXED); }
inline void freeHook(const volatile void* p) { if (p) __atomic_fetch_sub(&liveAllocs(), 1L, __ATOMIC_RELAXED); }

// ---- failing allocations: calls of operator new compiled into the engine are wrapped by the linker (-DVP_WRAP_NEW and -Wl,--wrap) ----
inline long newFailIn = -1;  // <0: disarmed, n: the n-th allocation from now fails
struct FailNew {             // armed for one scope
    explicit FailNew(long n) { newFailIn = n; }
    ~FailNew() { newFailIn = -1; }
    bool hit() const { return newFailIn == -2; }
};
inline bool newFails()
{
    if (newFailIn < 0 || newFailIn-- != 0) return false;
    newFailIn = -2;
    ev("injected_new_failure");
    return true;
}
inline void onNew() { if (newFails()) throw std::bad_alloc(); }
}  // namespace vp

/// engine entry points, provided by each engine
void engineInit();
void runCase(vp::Rd& rd);
/// minimum number of operations that makes a case non-trivial
extern const unsigned engineMinOps;
extern const bool engineCheckLeaks;

#ifndef VP_NO_MAIN
#ifdef VP_WRAP_NEW
extern "C" {
void* __real__Znwm(size_t);
void* __real__Znam(size_t);
void* __real__ZnwmSt11align_val_t(size_t, std::align_val_t);
void* __wrap__Znwm(size_t n) { vp::onNew(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { vp::onNew(); return __real__Znam(n); }
void* __real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t&);
void* __real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t&);
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t& t) { return vp::newFails() ? nullptr : __real__ZnwmRKSt9nothrow_t(n, t); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) { return vp::newFails() ? nullptr : __real__ZnamRKSt9nothrow_t(n, t); }
void* __wrap__ZnwmSt11align_val_t(size_t n, std::align_val_t a) { vp::onNew(); return __real__ZnwmSt11align_val_t(n, a); }
}
#endif
extern "C" __attribute__((weak)) int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));

namespace vp {
inline void onAlarm(int)
{
    static const char m[] = "HANG case exceeded its time limit\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    if (S().cur) { strcpy(S().cur->key, "hang"); strcpy(S().cur->msg, "case exceeded its time limit"); }
    _exit(78);
}
inline void armAlarm(int secs) { itimerval tv{}; tv.it_value.tv_sec = secs; setitimer(ITIMER_REAL, &tv, nullptr); }

inline void runBytes(const uint8_t* d, size_t n, uint64_t idx)
{
    State& s = S();
    if (n > MAXCASE) n = MAXCASE;
    if (s.cur) {
        s.cur->active = 0; s.cur->key[0] = 0; s.cur->msg[0] = 0;
        s.cur->len = static_cast<uint32_t>(n); s.cur->index = idx;
        memcpy(s.cur->data, d, n);
        s.cur->active = 1;
    }
    s.sig = 0; s.ops = 0; s.stN = 0;
    static int alarmSecs = s.param("alarm", 30);
    if ((s.evaluations & 15) == 0) armAlarm(alarmSecs * 2);
    Rd rd{d, d + n};
    long before = liveAllocs();
    runCase(rd);
    if (engineCheckLeaks && liveAllocs() != before && !s.trace) {
        // not case-local on the first run (lazy initialisation)? run again and believe the second measurement
        Rd r2{d, d + n};
        long b2 = liveAllocs();
        uint32_t o = s.ops;
        uint64_t sg = s.sig;
        runCase(r2);
        s.ops = o; s.sig = sg;
        if (liveAllocs() > b2) vfail("leak", "%ld allocation(s) still live after every container was destroyed", liveAllocs() - b2);
    }
    ++s.evaluations;
    if (s.ops >= engineMinOps && s.cases.size() < 400000) s.cases.insert(s.sig);
    for (uint32_t i = 0; i < s.stN; ++i) if (s.states.size() < 400000) s.states.insert(s.stBuf[i]);
    ev("operations", s.ops);
    if (s.cur) s.cur->active = 0;
}
inline int fuzzCb(const uint8_t* d, size_t n) { runBytes(d, n, 0); return 0; }
inline void genCase(std::vector<uint8_t>& out, uint64_t seed, uint64_t idx, unsigned maxlen)
{
    Prng r(mix64(seed) ^ (idx * 0x100000001B3ULL));
    unsigned cls = r.below(16);
    unsigned lim = cls < 4 ? 64 : cls < 10 ? 256 : cls < 15 ? maxlen / 2 : maxlen;
    if (lim > maxlen) lim = maxlen;
    unsigned n = 16 + r.below(lim > 16 ? lim - 16 : 1);
    out.resize(n);
    for (unsigned i = 0; i < n; i += 8) { uint64_t v = r.next(); for (unsigned j = 0; j < 8 && i + j < n; ++j) out[i + j] = static_cast<uint8_t>(v >> (8 * j)); }
}
inline CurCase* mapCur(const char* path)
{
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(CurCase)) != 0) { perror("cur"); exit(3); }
    void* m = mmap(nullptr, sizeof(CurCase), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    auto* c = static_cast<CurCase*>(m);
    memcpy(c->magic, "VPCASE1", 8);
    return c;
}
}  // namespace vp

int main(int argc, char** argv)
{
    using namespace vp;
    State& s = S();
    uint64_t seed = 1, cases = 1000, fuzz = 0;
    double secs = 0;
    unsigned maxlen = 1024;
    std::string replay, cur, tmp = "/tmp";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--mode") s.mode = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--fuzz") fuzz = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--secs") secs = atof(nx().c_str());
        else if (a == "--maxlen") maxlen = static_cast<unsigned>(atoi(nx().c_str()));
        else if (a == "--out") s.outFile = nx();
        else if (a == "--cur") cur = nx();
        else if (a == "--tmp") tmp = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--trace") s.trace = true;
        else if (a == "--param") { std::string kv = nx(); auto p = kv.find('='); s.params[kv.substr(0, p)] = kv.substr(p + 1); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    signal(SIGALRM, onAlarm);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    engineInit();
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "rb");
        if (!f) { perror("replay"); return 3; }
        std::vector<uint8_t> d(MAXCASE);
        d.resize(fread(d.data(), 1, d.size(), f));
        fclose(f);
        armAlarm(s.param("alarm", 30));
        s.traceMax = 4000000;
        runBytes(d.data(), d.size(), 0);
        if (s.trace) printf("TRACE %s\n", s.traceText.c_str());
        printf("replayed %zu bytes, %u operations, no violation\n", d.size(), s.ops);
        fflush(stdout);
        return 0;
    }
    if (!cur.empty()) s.cur = mapCur(cur.c_str());
    std::vector<uint8_t> d;
    if (fuzz) {
        if (!LLVMFuzzerRunDriver) { fprintf(stderr, "no libFuzzer linked\n"); return 3; }
        std::string dir = tmp + "/corpus";
        mkdir(dir.c_str(), 0755);
        for (int i = 0; i < 48; ++i) {
            genCase(d, seed ^ 0xF00D, static_cast<uint64_t>(i), maxlen);
            FILE* f = fopen((dir + "/s" + std::to_string(i)).c_str(), "wb");
            if (f) { fwrite(d.data(), 1, d.size(), f); fclose(f); }
        }
        static std::vector<std::string> as = {"engine", "-runs=" + std::to_string(fuzz), "-seed=" + std::to_string(static_cast<uint32_t>(seed | 1)),
            "-len_control=0", "-max_len=" + std::to_string(maxlen), "-use_value_profile=1", "-timeout=60", "-rss_limit_mb=4096", "-verbosity=0",
            "-print_final_stats=0", "-detect_leaks=0", "-artifact_prefix=" + tmp + "/art-", dir};
        if (secs > 0) as.insert(as.begin() + 1, "-max_total_time=" + std::to_string(static_cast<int>(secs)));
        static std::vector<char*> av;
        for (auto& x : as) av.push_back(&x[0]);
        int ac = static_cast<int>(av.size());
        char** pv = av.data();
        atexit([] { dumpStats(); });
        int rc = LLVMFuzzerRunDriver(&ac, &pv, fuzzCb);
        dumpStats();
        return rc;
    }
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = 0; i < cases; ++i) {
        genCase(d, seed, i, maxlen);
        bool sample = (i == 0 || i == 17);
        if (sample) { s.trace = true; s.traceMax = 600; s.traceText.clear(); s.traceText.reserve(2048); }
        runBytes(d.data(), d.size(), i);
        if (sample) { s.samples.push_back(s.traceText); s.trace = false; s.traceText.clear(); }
        if (secs > 0 && (i & 15) == 15) {
            timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) { ev("stopped_by_time_limit"); break; }
        }
    }
    armAlarm(0);
    dumpStats();
    return 0;
}
#endif
