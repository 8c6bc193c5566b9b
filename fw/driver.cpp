// Engine: seeded + greybox generation of byte streams, forked workers, shrinking, replay, evidence.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <locale.h>

using namespace pbt;
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- sanitizer set-up
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=78:abort_on_error=0:quarantine_size_mb=8:max_malloc_fill_size=65536:"
           "malloc_fill_byte=190:detect_stack_use_after_return=1:allocator_may_return_null=0:"
           "max_allocation_size_mb=2048:symbolize=0:handle_abort=1:detect_odr_violation=0:"
           "alloc_dealloc_mismatch=0:intercept_tls_get_addr=0:print_legend=0";
}
extern "C" const char *__tsan_default_options() {
    return "exitcode=78:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1:symbolize=0";
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
#define HAVE_ALLOC_HOOKS 1
#endif

// ---------------------------------------------------------------- coverage
namespace {
const unsigned MAPBITS = 16, MAPSIZE = 1u << MAPBITS;
uint8_t covMap[MAPSIZE];
uint8_t virgin[MAPSIZE];
uint32_t touched[MAPSIZE + 8];
std::atomic<unsigned> nTouched{0};
bool covOn = false, capture = false;
struct CmpPair { uint64_t x, c; uint8_t w; };
CmpPair pairs[512];
unsigned nPairs = 0;

__attribute__((no_sanitize_coverage)) inline void hit(uint32_t idx) {
    idx &= MAPSIZE - 1;
    if (covMap[idx]++ == 0) {
        unsigned k = nTouched.fetch_add(1, std::memory_order_relaxed);
        if (k < MAPSIZE) touched[k] = idx;
    }
    if (covMap[idx] == 0) covMap[idx] = 255;
}
inline uint32_t mix(uint64_t v) { v *= 0x9E3779B97F4A7C15ULL; return (uint32_t) (v >> 40); }
inline void onCmp(uint64_t pc, uint64_t a, uint64_t b, unsigned w, bool cst) {
    if (!covOn) return;
    if (cst) {
        unsigned d = a == b ? 0 : 1 + (63 - __builtin_clzll(a ^ b));
        hit(mix(pc * 131 + d));
    }
    if (capture && nPairs < 512 && a != b) { pairs[nPairs].x = b; pairs[nPairs].c = a; pairs[nPairs].w = (uint8_t) w; ++nPairs; }
}
}
#define NOSAN __attribute__((no_sanitize("address"))) __attribute__((no_sanitize_coverage))
extern "C" {
// addresses relative to this image, so that a run does not depend on where it was loaded
#define PC ((uint64_t) __builtin_return_address(0) - (uint64_t) &covMap)
void __sanitizer_cov_trace_pc() { if (covOn) hit(mix(PC)); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { onCmp(PC, a, b, 1, false); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { onCmp(PC, a, b, 2, false); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { onCmp(PC, a, b, 4, false); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { onCmp(PC, a, b, 8, false); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { onCmp(PC, a, b, 1, true); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { onCmp(PC, a, b, 2, true); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { onCmp(PC, a, b, 4, true); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { onCmp(PC, a, b, 8, true); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(uint64_t v, void *table) {
    if (!covOn) return;
    uint64_t *cases = (uint64_t *) table;
    for (uint64_t i = 0; i < cases[0] && i < 64; ++i) onCmp(PC + i, cases[2 + i], v, (unsigned) (cases[1] / 8), true);
}
}

// ---------------------------------------------------------------- shared state
namespace {
const unsigned MAXLEN = 1 << 16, MAXW = 64, MAXLABEL = 512, NSAMPLE = 6, SAMPLELEN = 16384, NRING = 64, RINGLEN = 8192;
struct WorkerShm {
    std::atomic<int> state;             // 0 running, 1 done, 2 failed
    std::atomic<uint64_t> cases;
    uint64_t nontrivial, corpus, cov;
    uint32_t len;
    uint8_t cur[MAXLEN];
    char msg[8192];
    uint32_t ringLen[NRING];
    uint8_t ring[NRING][RINGLEN];
    uint32_t sampleLen[NSAMPLE];
    uint8_t sample[NSAMPLE][SAMPLELEN];
};
struct Shm {
    std::atomic<int> labelLock;
    std::atomic<int> nLabels;
    char labelName[MAXLABEL][48];
    std::atomic<long> labelCount[MAXLABEL];
    std::atomic<uint64_t> distinct;
    WorkerShm w[MAXW];
};
Shm *shm;
std::atomic<uint64_t> *hset;
const uint64_t HSET = 1u << 22;
std::atomic<bool> caseNontrivial{false}, caseHeavy{false};
std::vector<Property> &registry() { static std::vector<Property> r; return r; }
std::vector<std::string> knownKeys;
int cpuLimit = 10, wallLimit = 90;
bool leakMode = false, leakOnly = false, schedules = false;
std::string onlyId;
const Property *prop;

void noteDistinct(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = h & (HSET - 1);
    for (unsigned k = 0; k < 64; ++k, i = (i + 1) & (HSET - 1)) {
        uint64_t v = hset[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            uint64_t z = 0;
            if (hset[i].compare_exchange_strong(z, h)) { shm->distinct.fetch_add(1); return; }
            if (z == h) return;
        }
    }
}
uint64_t hashBytes(const uint8_t *p, size_t n) {
    uint64_t h = 1469598103934665603ULL ^ n;
    for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
std::atomic<long> liveAllocs{0};
#ifdef HAVE_ALLOC_HOOKS
void onMalloc(const volatile void *, size_t) { liveAllocs.fetch_add(1, std::memory_order_relaxed); }
void onFree(const volatile void *p) { if (p) liveAllocs.fetch_sub(1, std::memory_order_relaxed); }
#endif
}

namespace pbt {
bool tracing = false;
const char *tier = "quick";
void traceSink(const std::string &l);
thread_local bool quietThread = false;
void traceLine(const std::string &l) { if (!quietThread) traceSink(l); }
bool known(const char *key) { return std::find(knownKeys.begin(), knownKeys.end(), key) != knownKeys.end(); }
int labelId(const char *name) {
    while (shm->labelLock.exchange(1)) usleep(10);
    int n = shm->nLabels.load(), r = -1;
    for (int i = 0; i < n; ++i) if (!strcmp(shm->labelName[i], name)) r = i;
    if (r < 0 && n < (int) MAXLABEL) { snprintf(shm->labelName[n], 48, "%s", name); r = n; shm->nLabels.store(n + 1); }
    shm->labelLock.store(0);
    return r;
}
void labelHit(int id, long n) { if (id >= 0) shm->labelCount[id].fetch_add(n, std::memory_order_relaxed); }
void markNontrivial() { caseNontrivial.store(true, std::memory_order_relaxed); }
void heavy() { caseHeavy.store(true, std::memory_order_relaxed); }
const Property *findProperty(const std::string &id) { for (const Property &p : registry()) if (id == p.id) return &p; return nullptr; }
Registrar::Registrar(const Property &p) { registry().push_back(p); }

double Src::f64() {
    static const double sp[] = {0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 1e-300, 1e300, 1e15, 1e16, 4503599627370496.0, 4503599627370495.5,
        9007199254740992.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9223372036854775807.0, -9223372036854775808.0, 1e19,
        4.9406564584124654e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308,
        HUGE_VAL, -HUGE_VAL, NAN, 0.49999999999999994, 0.1, 0.2, 1.0 / 3, 3.141592653589793, 2.718281828459045, 100, 1000, 123456789, 0.001, 1e-5, 3.4028234663852886e38, 1.401298464324817e-45};
    uint8_t s = u8();
    if (s < 60) return sp[u8() % (sizeof sp / sizeof *sp)];
    if (s < 110) return (double) (int8_t) u8() / (double) (1 << (u8() % 8));
    if (s < 150) { double v = (double) i32(); return (s & 1) ? v / 1000.0 : v; }
    if (s < 170) return (double) i64();
    if (s < 190) { double b = sp[u8() % (sizeof sp / sizeof *sp)]; int k = (int) (u8() % 7) - 3; while (k > 0) { b = std::nextafter(b, HUGE_VAL); --k; } while (k < 0) { b = std::nextafter(b, -HUGE_VAL); ++k; } return b; }
    uint64_t v = u64();
    double d;
    memcpy(&d, &v, 8);
    return std::isnan(d) ? (double) NAN : d;                     // no signalling NaNs
}
float Src::f32() {
    uint8_t s = u8();
    if (s < 120) return (float) f64();
    if (s < 160) return (float) (int8_t) u8() / (float) (1 << (u8() % 8));
    uint32_t v = u32();
    float d;
    memcpy(&d, &v, 4);
    return std::isnan(d) ? (float) NAN : d;
}
std::string Src::text(int64_t maxLen, int kind) {
    if (kind < 0) { uint8_t k = u8(); kind = k < 50 ? 0 : k < 85 ? 6 : k < 130 ? 1 : k < 190 ? 2 : k < 225 ? 5 : 3; }
    int64_t len = size(maxLen);
    std::string s;
    static const char *uni[] = {"\xc3\xa1", "\xc3\x81", "\xc4\x83", "\xe1\xba\xaf", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3\x9f", "\xce\xa9", "\xcf\x89"};
    if (kind == 6) {                       // repetitive: grows by copies of its own parts, so searches meet many partial matches
        while ((int64_t) s.size() < len) {
            uint8_t b = u8();
            if (s.empty() || b < 100) s += (char) ('a' + (b % 5 == 0 ? 1 : 0));
            else if (b < 190) s += s.substr(0, (size_t) range(1, (int64_t) s.size()));
            else { size_t p = (size_t) range(0, (int64_t) s.size() - 1); s += s.substr(p, (size_t) range(1, 8)); }
        }
        s.resize((size_t) len);
        return s;
    }
    for (int64_t i = 0; i < len; ++i) {
        uint8_t b = u8();
        switch (kind) {
            case 0: s += (char) ('a' + (b & 1)); break;
            case 1: s += (char) ('a' + b % 26); break;
            case 2: s += (char) (b < 40 ? ' ' : 32 + b % 95); break;
            case 3: s += (char) (b ? b : 1); break;
            case 4: s += (char) b; break;
            default: if (b < 120) s += (char) ('A' + b % 58); else s += uni[b % 9];
        }
    }
    return s;
}
}

namespace {
// ---------------------------------------------------------------- running one case
std::string currentExceptionText() {
    std::string t = "unexpected exception";
    std::type_info *ti = abi::__cxa_current_exception_type();
    if (ti) {
        int st;
        char *d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        t += std::string(" of type ") + (d ? d : ti->name());
        free(d);
    }
    return t;
}
bool runOnce(const uint8_t *d, size_t n, std::string &msg, size_t *consumed = nullptr) {
    caseNontrivial = false; caseHeavy = false;
    Src src(d, n);
    bool ok = true;
    try {
        prop->run(src);
    } catch (const Failure &f) {
        ok = false; msg = f.msg;
    } catch (const std::exception &e) {
        ok = false; msg = currentExceptionText() + ": " + e.what();
    } catch (...) {
        ok = false; msg = currentExceptionText();
    }
    if (consumed) *consumed = src.consumed();
    return ok;
}
bool runLeak(const uint8_t *d, size_t n, std::string &msg, size_t *consumed) {
    // same case again and again: live allocations must not grow
    bool ok = runOnce(d, n, msg, consumed);
    if (!ok && leakOnly) { msg = ""; return true; }   // behaviour failures belong to the other property
    if (!ok) return false;
    bool nt = caseNontrivial;
    int grew = 0;
    long last = 0;
    for (int i = 0; i < 4; ++i) {
        long before = liveAllocs.load();
        { std::string m; m.reserve(64); size_t c; runOnce(d, n, m, &c); }
        long after = liveAllocs.load();
        last = after - before;
        if (last <= 0) { grew = 0; break; }
        ++grew;
    }
    caseNontrivial = nt;
    if (grew == 4) { msg = "each run of this history leaves " + std::to_string(last) + " allocation(s) behind"; return false; }
    return true;
}
bool runCase(const uint8_t *d, size_t n, std::string &msg, size_t *consumed = nullptr) {
    return leakMode ? runLeak(d, n, msg, consumed) : runOnce(d, n, msg, consumed);
}
void onCpu(int) { static const char m[] = "CPU limit per case exceeded (does not terminate)\n"; if (write(2, m, sizeof m - 1)) {} _exit(79); }
void armCpu(int s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }
void childSetup(int errFd) {
    signal(SIGPROF, onCpu);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (errFd >= 0) dup2(errFd, 2); else dup2(nul, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::ifstream f("/proc/self/status");
    std::string line;
    while (std::getline(f, line))
        if (line.compare(0, 7, "VmData:") == 0) {
            rlim_t kb = strtoull(line.c_str() + 7, nullptr, 10);
            struct rlimit d = {(kb << 10) + (2500ULL << 20), (kb << 10) + (2500ULL << 20)};
            setrlimit(RLIMIT_DATA, &d);
        }
}
std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::string crashText(int status, const std::string &err) {
    std::string m;
    if (WIFSIGNALED(status)) m = std::string("killed by signal ") + strsignal(WTERMSIG(status));
    else m = "process ended with code " + std::to_string(WEXITSTATUS(status));
    size_t p = err.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = err.find("terminate called");
    if (p == std::string::npos) p = err.find("CPU limit");
    if (p == std::string::npos) p = err.size() > 300 ? err.size() - 300 : 0;
    std::string e = err.substr(p, 1500);
    return m + ": " + e;
}
std::string tmpDir;
char *g_traceMap = nullptr;

struct Exec { bool ok; std::string msg, trace; };
typedef std::vector<Bytes> Seq;
Exec execCase(const Bytes &b, bool wantTrace, const Seq &before = Seq()) {
    std::string errPath = tmpDir + "/exec.err", msgPath = tmpDir + "/exec.msg", trPath = tmpDir + "/exec.trace";
    unlink(msgPath.c_str());
    unlink(trPath.c_str());
    int efd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        childSetup(efd);
        int tfd = -1;
        std::string tb;
        if (wantTrace) {
            tfd = open(trPath.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
            // the trace must survive a crash: mmap a shared file
            if (ftruncate(tfd, 1 << 20)) {}
        }
        static char *tmap = nullptr;
        if (tfd >= 0) tmap = (char *) mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, tfd, 0);
        g_traceMap = tmap;
        std::string msg;
        bool ok = true;
        for (const Bytes &x : before) {    // earlier cases of the same process: their effects may matter
            Bytes copy(x);
            armCpu(cpuLimit);
            if (!runCase(copy.data(), copy.size(), msg)) { ok = false; break; }
        }
        if (tmap && tmap != MAP_FAILED) {
            tracing = true;
        }
        armCpu(cpuLimit);
        Bytes copy(b);                     // exact-size copy
        ok = ok && runCase(copy.data(), copy.size(), msg);
        if (!ok) { std::ofstream o(msgPath, std::ios::binary); o << msg; o.close(); _exit(42); }
        _exit(0);
    }
    close(efd);
    int st = 0;
    double t0 = nowS();
    bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (nowS() - t0 > wallLimit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(nowS() - t0 < 0.05 ? 200 : 5000);
    }
    kill(-pid, SIGKILL);
    Exec e;
    e.ok = !hung && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (wantTrace) { e.trace = slurp(trPath); size_t z = e.trace.find('\0'); if (z != std::string::npos) e.trace.resize(z); }
    if (!e.ok) {
        if (hung) e.msg = "no progress for " + std::to_string(wallLimit) + " s (blocked)";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) e.msg = slurp(msgPath);
        else e.msg = crashText(st, slurp(errPath));
    }
    return e;
}
size_t g_tracePos = 0;
}
// trace sink used inside execCase children
namespace pbt {
void traceSink(const std::string &l) {
    if (!g_traceMap) return;
    if (g_tracePos + l.size() + 2 >= (1 << 20)) return;
    memcpy(g_traceMap + g_tracePos, l.data(), l.size());
    g_tracePos += l.size();
    g_traceMap[g_tracePos++] = '\n';
}
}

namespace {
// ---------------------------------------------------------------- generation
Bytes freshStream(Rng &r, int maxLen) {
    // log-uniform length
    int lo = 3, hi = 31 - __builtin_clz((unsigned) maxLen);
    int e = lo + (int) r.below((uint64_t) (hi - lo + 1));
    size_t len = (size_t) ((1u << e) + r.below(1u << e));
    if ((int) len > maxLen) len = (size_t) maxLen;
    Bytes b(len);
    uint64_t mode = r.below(10);
    if (mode < 7) for (auto &x : b) x = (uint8_t) r.next();
    else if (mode < 8) { uint8_t set[6]; for (auto &x : set) x = (uint8_t) r.next(); for (auto &x : b) x = r.below(3) ? set[r.below(6)] : (uint8_t) r.next(); }
    else if (mode < 9) for (auto &x : b) x = (uint8_t) (r.below(3) ? r.below(16) : r.next());
    else { size_t per = 1 + r.below(24); for (size_t i = 0; i < len; ++i) b[i] = i >= per && r.below(12) ? b[i - per] : (uint8_t) r.next(); }
    return b;
}
struct Entry { Bytes b; std::vector<CmpPair> cmp; };
void put(Bytes &b, size_t p, uint64_t v, unsigned w) { for (unsigned i = 0; i < w; ++i) b[p + i] = (uint8_t) (v >> (8 * i)); }
uint64_t get(const Bytes &b, size_t p, unsigned w) { uint64_t v = 0; for (unsigned i = 0; i < w; ++i) v |= (uint64_t) b[p + i] << (8 * i); return v; }
bool applyCmp(Bytes &b, const CmpPair &c, Rng &r) {
    uint64_t mask = c.w == 8 ? ~0ULL : (1ULL << (8 * c.w)) - 1;
    uint64_t x = c.x & mask, k = (c.c + (uint64_t) ((int64_t) r.below(5) - 2) * (r.below(3) == 0)) & mask;
    unsigned widths[4] = {8, 4, 2, 1};
    for (int tries = 0; tries < 6; ++tries) {
        unsigned w = widths[r.below(4)];
        if (w > c.w) w = c.w;
        uint64_t m = w == 8 ? ~0ULL : (1ULL << (8 * w)) - 1;
        if ((x & m) != x && (x | ~m) != ~0ULL) continue;
        if (b.size() < w) continue;
        size_t start = r.below(b.size());
        for (size_t i = 0; i + w <= b.size(); ++i) {
            size_t p = (start + i) % (b.size() - w + 1);
            if (get(b, p, w) == (x & m)) { put(b, p, k & m, w); return true; }
        }
    }
    return false;
}
Bytes mutate(const std::vector<Entry> &corpus, Rng &r, int maxLen) {
    const Entry &e = corpus[r.below(2) ? corpus.size() - 1 - r.below(std::min<size_t>(corpus.size(), 32)) : r.below(corpus.size())];
    Bytes b = e.b;
    int k = 1 << r.below(4);
    for (int i = 0; i < k; ++i) {
        if (b.empty()) b.push_back(0);
        switch (r.below(11)) {
            case 0: b[r.below(b.size())] ^= (uint8_t) (1u << r.below(8)); break;
            case 1: b[r.below(b.size())] = (uint8_t) r.next(); break;
            case 2: { static const uint8_t in[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255}; b[r.below(b.size())] = in[r.below(sizeof in)]; break; }
            case 3: { size_t p = r.below(b.size()), n = 1 + r.below(std::min<size_t>(b.size() - p, 16)); b.erase(b.begin() + (long) p, b.begin() + (long) (p + n)); break; }
            case 4: { size_t p = r.below(b.size()), n = 1 + r.below(std::min<size_t>(b.size() - p, 64)); Bytes c(b.begin() + (long) p, b.begin() + (long) (p + n)); size_t q = r.below(b.size() + 1); b.insert(b.begin() + (long) q, c.begin(), c.end()); break; }
            case 5: { size_t q = r.below(b.size() + 1), n = 1 + r.below(16); Bytes c(n); for (auto &x : c) x = (uint8_t) r.next(); b.insert(b.begin() + (long) q, c.begin(), c.end()); break; }
            case 6: { const Bytes &o = corpus[r.below(corpus.size())].b; if (!o.empty()) { size_t p = r.below(b.size() + 1), q = r.below(o.size()); b.resize(p); b.insert(b.end(), o.begin() + (long) q, o.end()); } break; }
            case 7: b[r.below(b.size())] = (uint8_t) (b[r.below(b.size())] + (int) r.below(35) - 17); break;
            case 8: { size_t p = r.below(b.size()), q = r.below(b.size()), n = std::min<size_t>(1 + r.below(16), b.size() - std::max(p, q)); memmove(&b[p], &b[q], n); break; }
            default: if (!e.cmp.empty()) applyCmp(b, e.cmp[r.below(e.cmp.size())], r); else b[r.below(b.size())] = (uint8_t) r.next();
        }
    }
    if ((int) b.size() > maxLen) b.resize((size_t) maxLen);
    return b;
}
uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
bool harvest() {
    unsigned n = std::min<unsigned>(nTouched.load(), MAPSIZE);
    bool fresh = false;
    for (unsigned i = 0; i < n; ++i) {
        uint32_t t = touched[i];
        uint8_t b = bucket(covMap[t]);
        if ((virgin[t] & b) == 0) { virgin[t] = (uint8_t) (virgin[t] | b); fresh = true; }
        covMap[t] = 0;
    }
    nTouched = 0;
    return fresh;
}

void workerMain(int id, int W, uint64_t seed, uint64_t total, double deadline, bool grey) {
    WorkerShm &w = shm->w[id];
    std::string errPath = tmpDir + "/w" + std::to_string(id) + ".err";
    int efd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
    childSetup(efd);
    Rng r(seed * 0x1000193 + (uint64_t) id * 0x9E37 + hashBytes((const uint8_t *) prop->id, strlen(prop->id)));
    r.next();
    std::vector<Entry> corpus;
    uint64_t mine = total / (uint64_t) W + ((uint64_t) id < total % (uint64_t) W ? 1 : 0);
    uint64_t nextSample = 3 + (uint64_t) id;
    unsigned nSample = 0;
#ifdef HAVE_ALLOC_HOOKS
    if (leakMode) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
    for (uint64_t i = 0; i < mine; ++i) {
        if ((i & 15) == 0 && nowS() > deadline) break;
        bool mut = grey && !corpus.empty() && r.below(100) < 45;
        Bytes b = mut ? mutate(corpus, r, prop->maxLen) : freshStream(r, prop->maxLen);
        w.len = (uint32_t) b.size();
        if (!b.empty()) memcpy(w.cur, b.data(), b.size());
        if (b.size() <= RINGLEN) { w.ringLen[i % NRING] = (uint32_t) b.size(); if (!b.empty()) memcpy(w.ring[i % NRING], b.data(), b.size()); }
        else w.ringLen[i % NRING] = ~0u;
        w.cases.store(i + 1);
        if ((i & 7) == 0) armCpu(cpuLimit);
        std::string msg;
        size_t used = 0;
        covOn = grey;
        bool ok = runCase(b.data(), b.size(), msg, &used);
        covOn = false;
        if (!ok) { snprintf(w.msg, sizeof w.msg, "%s", msg.c_str()); w.state = 2; _exit(42); }
        if (caseNontrivial) {
            ++w.nontrivial;
            noteDistinct(hashBytes(b.data(), used));
            if (w.nontrivial == nextSample && nSample < NSAMPLE && used < SAMPLELEN) {
                w.sampleLen[nSample] = (uint32_t) used;
                memcpy(w.sample[nSample], b.data(), used);
                ++nSample;
                nextSample *= 6;
            }
        }
        if (grey && harvest() && !caseHeavy) {
            b.resize(used);
            Entry e;
            e.b = b;
            if (!leakMode) {
                capture = true; nPairs = 0; covOn = true;
                std::string m2;
                bool ok2 = runCase(b.data(), b.size(), m2);
                covOn = false; capture = false;
                harvest();
                (void) ok2;
                for (unsigned k = 0; k < nPairs; ++k) e.cmp.push_back(pairs[k]);
            }
            if (corpus.size() < 3000) corpus.push_back(std::move(e));
            else corpus[r.below(corpus.size())] = std::move(e);
            w.corpus = corpus.size();
        }
    }
    uint64_t cov = 0;
    for (unsigned i = 0; i < MAPSIZE; ++i) cov += virgin[i] != 0;
    w.cov = cov;
    w.state = 1;
    _exit(0);
}

std::string hex(const Bytes &b) { static const char *d = "0123456789abcdef"; std::string s; for (uint8_t x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t) strtol(s.substr(i, 2).c_str(), nullptr, 16)); return b; }

Bytes shrink(Bytes b, std::string &msg, double budget, const Seq &before) {
    double end = nowS() + budget;
    unsigned execs = 0;
    auto bad = [&](const Bytes &c) {
        if (nowS() > end || execs > 6000) return false;
        ++execs;
        Exec e = execCase(c, false, before);
        if (!e.ok) { msg = e.msg; return true; }
        return false;
    };
    // drop the tail first
    for (size_t cut = b.size(); cut >= 1; cut /= 2) {
        while (b.size() >= cut) { Bytes c(b.begin(), b.end() - (long) cut); if (bad(c)) b = c; else break; }
    }
    bool progress = true;
    while (progress && nowS() < end) {
        progress = false;
        for (size_t n = std::max<size_t>(1, b.size() / 2); n >= 1; n /= 2) {
            for (size_t p = 0; p + n <= b.size();) {
                Bytes c(b);
                c.erase(c.begin() + (long) p, c.begin() + (long) (p + n));
                if (bad(c)) { b = c; progress = true; } else p += n;
                if (nowS() > end) return b;
            }
        }
        for (size_t n = std::max<size_t>(1, b.size() / 2); n >= 1; n /= 2)
            for (size_t p = 0; p + n <= b.size(); p += n) {
                Bytes c(b);
                bool any = false;
                for (size_t i = p; i < p + n; ++i) { any |= c[i] != 0; c[i] = 0; }
                if (any && bad(c)) { b = c; progress = true; }
            }
        for (size_t p = 0; p < b.size(); ++p) {
            uint8_t orig = b[p];
            if (!orig) continue;
            int lo = 0, hi = orig;      // smallest failing value by bisection, then decrement
            while (lo < hi) { int mid = (lo + hi) / 2; Bytes c(b); c[p] = (uint8_t) mid; if (bad(c)) hi = mid; else lo = mid + 1; if (nowS() > end) break; }
            if (hi < orig) { b[p] = (uint8_t) hi; Bytes c(b); if (bad(c)) progress = true; else b[p] = orig; }
        }
    }
    return b;
}
std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o += (char) c;
    }
    return o + "\"";
}
}

int main(int argc, char **argv) {
    uint64_t seed = 1, total = 20000;
    int W = 8;
    double maxS = 120, shrinkS = 60;
    std::string out, replayDir, replayFile;
    bool grey = true;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--id") onlyId = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") total = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--max-seconds") maxS = atof(val().c_str());
        else if (a == "--shrink-seconds") shrinkS = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay-dir") replayDir = val();
        else if (a == "--replay") replayFile = val();
        else if (a == "--tier") { static std::string t; t = val(); tier = t.c_str(); }
        else if (a == "--known") { std::stringstream ss(val()); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) knownKeys.push_back(k); }
        else if (a == "--cpu") cpuLimit = atoi(val().c_str());
        else if (a == "--wall") wallLimit = atoi(val().c_str());
        else if (a == "--no-grey") grey = false;
        else if (a == "--leak") leakMode = true;
        else if (a == "--leak-only") leakMode = leakOnly = true;
        else if (a == "--schedules") schedules = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C.UTF-8", 1);
    tzset();
    setlocale(LC_ALL, "");
    setlocale(LC_NUMERIC, "C");
    if (W > (int) MAXW) W = MAXW;
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hset = (std::atomic<uint64_t> *) mmap(nullptr, HSET * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (const Property &p : registry()) if (onlyId.empty() || onlyId == p.id) prop = &p;
    if (!prop) { fprintf(stderr, "no such property\n"); return 2; }
    char tmpl[] = "/tmp/verif-pbt-XXXXXX";
    tmpDir = mkdtemp(tmpl);
    struct Cleanup { ~Cleanup() { DIR *d = opendir(tmpDir.c_str()); if (d) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((tmpDir + "/" + e->d_name).c_str()); closedir(d); } rmdir(tmpDir.c_str()); } } cleanup;
#ifdef HAVE_ALLOC_HOOKS
    if (leakMode) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif

    if (!replayFile.empty()) {
        std::ifstream f(replayFile);
        std::string line;
        Seq seq;
        while (std::getline(f, line)) { if (line.compare(0, 7, "stream=") == 0) seq.push_back(unhex(line.substr(7))); if (line == "trace:") break; }
        if (seq.empty()) { fprintf(stderr, "no stream= line in %s\n", replayFile.c_str()); return 2; }
        Bytes b = seq.back();
        seq.pop_back();
        Exec e;
        for (int k = 0; k < (schedules ? 60 : 1); ++k) { e = execCase(b, true, seq); if (!e.ok) break; }
        printf("%s", e.trace.c_str());
        if (e.ok) { printf("REPLAY ok\n"); return 0; }
        printf("FAILURE %s\n", e.msg.c_str());
        return 1;
    }

    double t0 = nowS();
    // open findings: confirm each still fails
    int knownStill = 0;
    for (const KnownRepro &k : prop->known) {
        if (!known(k.key)) continue;
        pid_t pid = fork();
        if (pid == 0) {
            int efd = open("/dev/null", O_RDWR);
            childSetup(efd);
            armCpu(cpuLimit);
            try { k.run(); } catch (...) { _exit(42); }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        bool still = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        printf("KNOWN %s %s\n", k.key, still ? "fails" : "holds");
        knownStill += still;
    }
    fflush(stdout);

    std::string replayPath, inconclusive;
    bool violation = false;
    double deadline = t0 + maxS;
    uint64_t evBase = 0;
    auto spawn = [&](int i, uint64_t sd) {
        WorkerShm &w = shm->w[i];
        w.state = 0;
        w.cases = 0;
        pid_t pid = fork();
        if (pid == 0) { setpgid(0, 0); workerMain(i, W, sd, total, deadline, grey); }
        return pid;
    };
    std::vector<pid_t> pids((size_t) W, 0);
    for (int i = 0; i < W; ++i) pids[(size_t) i] = spawn(i, seed);
    std::vector<bool> done((size_t) W, false);
    std::vector<uint64_t> beat((size_t) W, 0);
    std::vector<double> beatT((size_t) W, nowS());
    int running = W, odd = 0;
    while (running > 0 && !violation) {
        usleep(3000);
        for (int i = 0; i < W && !violation; ++i) {
            if (done[(size_t) i]) continue;
            int st;
            WorkerShm &w = shm->w[i];
            pid_t r = waitpid(pids[(size_t) i], &st, WNOHANG);
            bool hung = false;
            if (r == 0) {
                uint64_t c = w.cases.load();
                if (c != beat[(size_t) i]) { beat[(size_t) i] = c; beatT[(size_t) i] = nowS(); continue; }
                if (nowS() - beatT[(size_t) i] > wallLimit) { kill(-pids[(size_t) i], SIGKILL); waitpid(pids[(size_t) i], &st, 0); hung = true; }
                else continue;
            }
            done[(size_t) i] = true;
            --running;
            if (!hung && w.state.load() == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            std::string msg;
            if (w.state.load() == 2) msg = w.msg;
            else if (hung) msg = "no progress for " + std::to_string(wallLimit) + " s (blocked)";
            else msg = crashText(st, slurp(tmpDir + "/w" + std::to_string(i) + ".err"));
            Bytes bad(w.cur, w.cur + w.len);
            // confirm: deterministic cases three times out of three; schedule-dependent ones are retried
            int need = schedules ? 2 : 3, tries = schedules ? 60 : 3, got = 0;
            std::string last = msg;
            Seq before;
            for (int k = 0; k < tries && got < need; ++k) { Exec e = execCase(bad, false); if (!e.ok) { ++got; last = e.msg; } else if (!schedules) break; }
            if (got < need && !schedules) {
                // state left by earlier cases of that worker may be part of the failure
                uint64_t c = w.cases.load();
                for (unsigned n = 1; n < NRING && got < 3; n = n * 2 + 1) {
                    Seq s;
                    for (uint64_t k = n; k >= 1; --k)
                        if (c > k && w.ringLen[(c - 1 - k) % NRING] != ~0u) s.push_back(Bytes(w.ring[(c - 1 - k) % NRING], w.ring[(c - 1 - k) % NRING] + w.ringLen[(c - 1 - k) % NRING]));
                    got = 0;
                    for (int k = 0; k < 3; ++k) { Exec e = execCase(bad, false, s); if (e.ok) break; ++got; last = e.msg; }
                    if (got >= 3) before = s;
                }
                for (size_t k = 0; k < before.size() && got >= 3;) {
                    Seq s(before);
                    s.erase(s.begin() + (long) k);
                    Exec e = execCase(bad, false, s);
                    if (!e.ok) { before = s; last = e.msg; } else ++k;
                }
            }
            Bytes small = bad;
            if (got >= need) {
                violation = true;
                if (!schedules) small = shrink(bad, last, shrinkS, before);
            } else if (schedules && (!hung || odd >= 1)) {
                violation = true;          // a bad schedule was observed once; the oracle has no timing in it
                last = msg + " (not reproduced in " + std::to_string(tries) + " re-runs of the same script)";
            } else {
                inconclusive = "a failure did not reproduce: " + msg;
                printf("UNREPRODUCED %s\n", msg.c_str());
                evBase += w.cases.load();
                if (++odd <= 4) {
                    pids[(size_t) i] = spawn(i, seed + 7919 * (uint64_t) odd);
                    done[(size_t) i] = false;
                    ++running;
                    beat[(size_t) i] = 0;
                    beatT[(size_t) i] = nowS();
                }
                continue;
            }
            Exec e = execCase(small, true, before);
            for (int k = 0; k < 20 && schedules && e.ok; ++k) e = execCase(small, true, before);
            if (!e.ok) last = e.msg;
            mkdir(replayDir.c_str(), 0755);
            replayPath = replayDir + "/" + prop->id + "-" + std::to_string(hashBytes(small.data(), small.size()) & 0xffffffffu) + ".replay";
            std::ofstream o(replayPath);
            o << "property=" << prop->id << "\n";
            for (const Bytes &x : before) o << "stream=" << hex(x) << "\n";
            o << "stream=" << hex(small) << "\nfailure=" << last << "\ntrace:\n" << e.trace;
            o.close();
            printf("FAILURE %s\n--- case ---\n%s------------\n", last.c_str(), e.trace.c_str());
            printf("REPLAYFILE %s\n", replayPath.c_str());
        }
    }
    for (int i = 0; i < W; ++i) if (!done[(size_t) i]) { kill(-pids[(size_t) i], SIGKILL); kill(pids[(size_t) i], SIGKILL); int st; waitpid(pids[(size_t) i], &st, 0); }
    uint64_t ev = evBase, nt = 0, cov = 0, corp = 0;
    for (int i = 0; i < W; ++i) { ev += shm->w[i].cases.load(); nt += shm->w[i].nontrivial; cov = std::max(cov, shm->w[i].cov); corp += shm->w[i].corpus; }
    double wall = nowS() - t0;
    std::vector<std::string> samples;
    for (int i = 0; i < W && samples.size() < 3; ++i)
        for (unsigned k = 0; k < NSAMPLE && samples.size() < 3; ++k) {
            if (!shm->w[i].sampleLen[k]) continue;
            if (k != (unsigned) (samples.size() + 1) % 3 + 1) continue;
            Bytes b(shm->w[i].sample[k], shm->w[i].sample[k] + shm->w[i].sampleLen[k]);
            Exec e = execCase(b, true);
            if (e.trace.size() > 1500) e.trace = e.trace.substr(0, 1500) + "...";
            samples.push_back(e.trace.empty() ? "stream=" + hex(b) : e.trace);
        }
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << shm->distinct.load() << ",\"coverage_features\":" << cov
          << ",\"corpus\":" << corp << ",\"workers\":" << W << ",\"search_wall_s\":" << wall << ",\"rule\":" << jsonStr(prop->rule) << ",\"inconclusive\":" << jsonStr(inconclusive) << ",\"labels\":{";
        int n = shm->nLabels.load();
        for (int i = 0; i < n; ++i) o << (i ? "," : "") << jsonStr(shm->labelName[i]) << ":" << shm->labelCount[i].load();
        o << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jsonStr(samples[i]);
        o << "]}\n";
    }
    printf("DONE evaluations=%llu distinct=%llu wall=%.1f violation=%d\n", (unsigned long long) ev, (unsigned long long) shm->distinct.load(), wall, (int) violation);
    return violation ? 1 : 0;
}
