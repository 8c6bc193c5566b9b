// Property-based testing kernel: byte-stream source, checks, tracing, labels.
// Included by every harness; the engine (workers, greybox search, shrinking) is in driver.cpp.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <limits>
#include <cmath>

namespace pbt {

struct Failure {
    std::string msg;
};

extern bool tracing;                       // case is being written out
void traceLine(const std::string &line);
bool known(const char *key);               // key is listed as an open finding
int labelId(const char *name);
void labelHit(int id, long n = 1);
void markNontrivial();                     // current case counts as non-trivial
void heavy();                              // the current case is costly: not to be mutated further
extern const char *tier;                   // "quick" / "thorough"

class Src {
    const uint8_t *d;
    size_t n, p;
public:
    Src(const uint8_t *data, size_t size) : d(data), n(size), p(0) {}
    size_t consumed() const { return p < n ? p : n; }
    size_t remaining() const { return p < n ? n - p : 0; }
    uint8_t u8() { return p < n ? d[p++] : (p++, 0); }
    uint16_t u16() { uint16_t a = u8(); return (uint16_t) (a | (u8() << 8)); }
    uint32_t u32() { uint32_t a = u16(); return a | ((uint32_t) u16() << 16); }
    uint64_t u64() { uint64_t a = u32(); return a | ((uint64_t) u32() << 32); }
    // inclusive range; identity encoding from lo, as narrow as possible
    int64_t range(int64_t lo, int64_t hi) {
        uint64_t span = (uint64_t) hi - (uint64_t) lo;
        uint64_t v;
        if (span == 0) return lo;
        if (span < 0x100) v = u8();
        else if (span < 0x10000) v = u16();
        else if (span < 0x100000000ULL) v = u32();
        else v = u64();
        if (span != ~0ULL) v %= (span + 1);
        return (int64_t) ((uint64_t) lo + v);
    }
    // true with probability num/den; a zero byte gives false
    bool chance(int num, int den) {
        if (den > 256) return (int64_t) ((u16() * 40503u) & 0xffff) * den >= 65536LL * (den - num);
        return (int) u8() * den >= 256 * (den - num);
    }
    bool flip() { return (u8() & 1) != 0; }
    // continue a history? ends at the end of the stream, or with probability 1/64
    bool more() { if (p >= n) return false; return u8() >= 4; }
    template<class T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + range(0, (int64_t) l.size() - 1)); }
    template<class T>
    const T &pick(const std::vector<T> &l) { return l[(size_t) range(0, (int64_t) l.size() - 1)]; }
    size_t weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int v = (int) (total <= 256 ? range(0, total - 1) : u16() % total);
        size_t i = 0;
        for (int x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    // size biased to small values, sometimes up to max
    int64_t size(int64_t max) {
        uint8_t s = u8();
        int64_t m = s < 128 ? 8 : s < 208 ? 40 : s < 244 ? 300 : max;
        if (m > max) m = max;
        return range(0, m);
    }
    template<class I>
    I integer() {
        typedef std::numeric_limits<I> L;
        uint8_t s = u8();
        if (s < 90) return (I) (int8_t) u8();
        if (s < 140) {        // near a power of two
            int bit = (int) (u8() % (sizeof(I) * 8));
            uint64_t v = (uint64_t) 1 << bit;
            int k = (int) (u8() % 5) - 2;
            v += (uint64_t) (int64_t) k;
            if (u8() & 1) v = ~v + 1;
            return (I) v;
        }
        if (s < 175) {        // near a limit
            uint8_t b = u8();
            I off = (I) (b & 7);
            return (b & 0x80) ? (I) (L::max() - off) : (I) (L::min() + off);
        }
        if (s < 200) {        // near a power of ten
            uint64_t v = 1;
            int e = (int) (u8() % 20);
            for (int i = 0; i < e; ++i) v *= 10;
            v += (uint64_t) (int64_t) ((int) (u8() % 5) - 2);
            if (u8() & 1) v = ~v + 1;
            return (I) v;
        }
        if (s < 215) {        // repeated byte / mask shapes
            uint64_t v = u8();
            v |= v << 8; v |= v << 16; v |= v << 32;
            int sh = (int) (u8() % 64);
            return (I) ((s & 1) ? v >> sh : v << sh);
        }
        if (sizeof(I) == 8) return (I) u64();
        if (sizeof(I) == 4) return (I) u32();
        if (sizeof(I) == 2) return (I) u16();
        return (I) u8();
    }
    int32_t i32() { return integer<int32_t>(); }
    int64_t i64() { return integer<int64_t>(); }
    double f64();
    float f32();
    // text over an alphabet kind: 0 tiny {a,b}, 1 lower, 2 printable, 3 any non-NUL byte, 4 any byte, 5 utf-8, 6 repetitive {a,b}
    std::string text(int64_t maxLen, int kind = -1);
    std::string bytes(int64_t len) {
        std::string s;
        for (int64_t i = 0; i < len; ++i) s.push_back((char) u8());
        return s;
    }
};

inline std::string show(const std::string &s) {
    std::string o = "\"";
    char b[8];
    size_t i = 0;
    for (unsigned char c : s) {
        if (i++ > 400) { o += "..."; break; }
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c >= 32 && c < 127) o += (char) c;
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    o += "\"(" + std::to_string(s.size()) + ")";
    return o;
}
inline std::string show(const char *s) { return s ? show(std::string(s)) : std::string("(null)"); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(char c) { return show(std::string(1, c)) + "=" + std::to_string((int) c); }
inline std::string show(unsigned char c) { return std::to_string((int) c); }
inline std::string show(int v) { return std::to_string(v); }
inline std::string show(short v) { return std::to_string(v); }
inline std::string show(unsigned short v) { return std::to_string(v); }
inline std::string show(long v) { return std::to_string(v); }
inline std::string show(long long v) { return std::to_string(v); }
inline std::string show(unsigned v) { return std::to_string(v); }
inline std::string show(unsigned long v) { return std::to_string(v); }
inline std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%.17g(%a)", v, v); return b; }
inline std::string show(float v) { char b[64]; snprintf(b, sizeof b, "%.9gf(%a)", (double) v, (double) v); return b; }
template<class T>
std::string show(const std::vector<T> &v) {
    std::string o = "[";
    size_t i = 0;
    for (const T &x : v) { if (i) o += ", "; if (i++ > 60) { o += "..."; break; } o += show(x); }
    return o + "](" + std::to_string(v.size()) + ")";
}

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

// same value; NaNs are equal to each other, zeros must have the same sign
inline bool sameF(double a, double b) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b && std::signbit(a) == std::signbit(b);
}

struct KnownRepro { const char *key; void (*run)(); };    // run() must throw Failure while the finding is open
struct Property {
    const char *id;
    void (*run)(Src &);
    const char *rule;                                      // what a case is, what makes it non-trivial
    std::vector<KnownRepro> known;
    int maxLen;                                            // stream length limit
};
const Property *findProperty(const std::string &id);       // among the harnesses linked in
extern thread_local bool quietThread;                      // TRACE does nothing in this thread
struct Registrar { explicit Registrar(const Property &p); };

// run f; return true when it threw exactly/derived X; anything else propagates
template<class X, class F>
bool throws(F f) {
    try { f(); } catch (const X &) { return true; }
    return false;
}
// run f; did it throw any exception other than a harness failure?
template<class F>
bool throwsAny(F f) {
    try { f(); } catch (const Failure &) { throw; } catch (...) { return true; }
    return false;
}
} // namespace pbt

#define TRACE(expr) do { if (pbt::tracing) { std::ostringstream os_; os_ << expr; pbt::traceLine(os_.str()); } } while (0)
#define LABEL(name) do { static thread_local const char *last_ = nullptr; static thread_local int lid_ = 0; const char *now_ = (name); if (now_ != last_) { lid_ = pbt::labelId(now_); last_ = now_; } pbt::labelHit(lid_); } while (0)
#define PBT_SEL(zero_, x_, ...) x_
#define TRACEF(...) do { if (pbt::tracing) { char b_[2048]; snprintf(b_, sizeof b_, __VA_ARGS__); pbt::traceLine(b_); } } while (0)
#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream os_; os_ << "line " << __LINE__ << ": " << #cond << " -- " << PBT_SEL(0, ##__VA_ARGS__, ""); pbt::fail(os_.str()); } } while (0)
#define CHECK_EQ(got, want, ...) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) { std::ostringstream os_; \
    os_ << "line " << __LINE__ << ": " << #got << " = " << pbt::show(g_) << ", expected " << pbt::show(w_) << " -- " << PBT_SEL(0, ##__VA_ARGS__, ""); pbt::fail(os_.str()); } } while (0)
#define FAIL(expr) do { std::ostringstream os_; os_ << "line " << __LINE__ << ": " << expr; pbt::fail(os_.str()); } while (0)
// PROPERTY(id, function, stream length limit, rule [, known-finding repros])
#define PROPERTY(ID, FN, MAXLEN, RULE, ...) static pbt::Registrar registrar_##ID(pbt::Property{#ID, FN, RULE, {__VA_ARGS__}, MAXLEN});
#endif
