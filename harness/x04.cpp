// X04: UUID against its 128 bits; generation under a clock the harness controls
#include "jv.hpp"
#include <set>
#include <sys/time.h>
#include <time.h>
#include "library/Java/Util/UUID/UUID.hpp"
namespace {
bool fakeClock = false; int64_t fakeUsec = 0; int stillFor = 0;      // the clock repeats its value 'stillFor' times, then advances
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    if (!fakeClock) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    if (stillFor > 0) --stillFor; else ++fakeUsec;
    tv->tv_sec = fakeUsec / 1000000; tv->tv_usec = fakeUsec % 1000000; return 0;
}
namespace {
using ju::UUID;
typedef uint64_t Q;
std::string textOf(Q m, Q l) { char b[48]; snprintf(b, sizeof b, "%08x-%04x-%04x-%04x-%012llx", (unsigned) (m >> 32), (unsigned) (m >> 16 & 0xffff), (unsigned) (m & 0xffff), (unsigned) (l >> 48), (unsigned long long) (l & 0xffffffffffffULL)); return b; }
int variantOf(Q l) { return (int) ((l >> 63) == 0 ? 0 : (l >> 62) == 2 ? 2 : l >> 61); }
Q half(Src &s) { if (s.chance(1, 3)) { Q v = 0; for (int i = 0; i < 4; ++i) v = v << 16 | s.pick<Q>({0, 1, 0xffff, 0x8000, 0x1000, 0x0fff, 0x7fff, 0x00ff, 0xabcd, 0x1234}); return v; } return (Q) s.i64(); }
void checkBits(const UUID &u, Q m, Q l, const std::string &what) {
    CHECK_EQ((int64_t) u.getMostSignificantBits(), (int64_t) m, what << " most significant half"); CHECK_EQ((int64_t) u.getLeastSignificantBits(), (int64_t) l, what << " least significant half");
    CHECK_EQ(S(u.toString()), textOf(m, l), what << " text");
    int version = (int) (m >> 12 & 15);
    CHECK_EQ(u.version(), version, what << " version of " << textOf(m, l)); CHECK_EQ(u.variant(), variantOf(l), what << " variant of " << textOf(m, l));
    CHECK_EQ(u.hashCode(), (int) ((m ^ l) >> 32) ^ (int) (m ^ l), what << " hash code");
    if (version == 1) { CHECK_EQ(u.clockSequence(), (int) (l >> 48 & 0x3fff), what << " clock sequence"); CHECK_EQ((int64_t) u.node(), (int64_t) (l & 0xffffffffffffULL), what << " node"); LABEL("time based"); }
}
int order(Q am, Q al, Q bm, Q bl) { if (am != bm) return (int64_t) am < (int64_t) bm ? -1 : 1; return al == bl ? 0 : (int64_t) al < (int64_t) bl ? -1 : 1; }
UUID parse(const std::string &t) { return UUID::fromString(J(t)); }
void run(Src &s) {
    { UUID z; checkBits(z, 0, 0, "default"); }
    Q m = half(s), l = half(s); if (s.chance(1, 3)) m = (m & ~(Q) 0xf000) | 0x1000;
    TRACE("uuid " << textOf(m, l)); UUID u((jl::Long((long) m)).longValue(), (long) l); checkBits(u, m, l, "constructed");
    UUID p = parse(textOf(m, l)); checkBits(p, m, l, "parsed"); CHECK(u.equals(p) && p.equals(u), "parsed text not equal"); CHECK_EQ(u.compareTo(p), 0, "order of equal UUIDs");
    { std::string t = textOf(m, l); for (auto &c : t) if (s.flip()) c = (char) std::toupper(c); TRACE("parse " << t); checkBits(parse(t), m, l, "parsed with other letter case"); }
    if ((int64_t) m < 0 || (int64_t) l < 0) { LABEL("half with the top bit"); markNontrivial(); }
    // ordering
    Q m2 = m, l2 = l; switch (s.range(0, 5)) { case 5: { Q bit = (Q) 1 << s.range(0, 63); m2 ^= bit; l2 ^= s.flip() ? bit : bit << 32 | bit >> 32; LABEL("same hash code, other UUID"); break; } case 0: m2 = half(s); break; case 1: l2 = half(s); break; case 2: m2 ^= (Q) 1 << s.range(0, 63); break; case 3: l2 ^= (Q) 1 << s.range(0, 63); break; default: m2 = half(s); l2 = half(s); }
    TRACE("other " << textOf(m2, l2)); UUID v((long) m2, (long) l2);
    CHECK_EQ(u.compareTo(v), order(m, l, m2, l2), "order"); CHECK_EQ(v.compareTo(u), order(m2, l2, m, l), "reverse order"); CHECK_EQ((bool) u.equals(v), m == m2 && l == l2, "equals");
    { bool same = m == m2 && l == l2; CHECK_EQ((bool) (u == v), same, "=="); CHECK_EQ((bool) (u != v), !same, "!="); const jl::Object &o = v; CHECK_EQ((bool) u.equals(o), same, "equals through Object"); CHECK_EQ((bool) (o == u), same, "== through Object"); CHECK(u == p && !(u != p), "parsed text not =="); jl::Object plain; CHECK(!u.equals(plain) && u != plain, "equal to a plain object"); }
    UUID copy(v); v = u; checkBits(v, m, l, "assigned"); checkBits(copy, m2, l2, "copy of the former value"); checkBits(u, m, l, "source of the assignment");
    // parts written short or damaged
    Q part[5] = {m >> 32, m >> 16 & 0xffff, m & 0xffff, l >> 48, l & 0xffffffffffffULL}; std::string t; char b[24];
    static const int W[5] = {8, 4, 4, 4, 12};
    for (int i = 0; i < 5; ++i) { int w = (int) s.range(1, W[i]); snprintf(b, sizeof b, "%0*llx", w, (unsigned long long) part[i]); t += b; if (i < 4) t += '-'; }
    TRACE("parse " << t); checkBits(parse(t), m, l, "parsed from shortened parts");
    std::string d = s.flip() ? t : textOf(m, l); bool damaged = false;
    for (int n = (int) s.range(1, 2); n > 0; --n) {
        size_t at = (size_t) s.range(0, (int64_t) d.size() - 1);
        switch (s.range(0, 3)) { case 0: d.insert(at, 1, s.pick<char>({'-', 'g', ' ', 'x', '+', 'z', '#', '\x80', '0', 'f'})); break; case 1: d[at] = s.pick<char>({'-', 'g', ' ', 'x', '+', 'G', '.', '@', '/', ':', '`'}); break; case 2: d.erase(at, 1); break; default: d += s.pick<std::string>({"-", "-0", " ", "h", "--"}); }
        if (d.empty()) d = "-";
    }
    std::vector<std::string> parts(1); bool hex = true;
    for (char c : d) if (c == '-') parts.emplace_back(); else { parts.back() += c; if (!isxdigit((unsigned char) c)) hex = false; }
    bool exact = parts.size() == 5 && hex; for (size_t i = 0; exact && i < 5; ++i) if (parts[i].empty() || parts[i].size() > (size_t) W[i]) exact = false;
    bool tooLong = false; if (parts.size() == 5) for (size_t i = 0; i < 5; ++i) if (parts[i].size() > (size_t) W[i]) tooLong = true;
    damaged = !exact && !(hex && tooLong);          // oversized parts of hex digits: what they mean is left open
    TRACE("parse " << show(d)); bool threw = false; Q gm = 0, gl = 0; try { UUID x = parse(d); gm = (Q) x.getMostSignificantBits(); gl = (Q) x.getLeastSignificantBits(); } catch (Throwable &) { threw = true; }
    if (exact) { Q em = strtoull(parts[0].c_str(), 0, 16) << 32 | strtoull(parts[1].c_str(), 0, 16) << 16 | strtoull(parts[2].c_str(), 0, 16), el = strtoull(parts[3].c_str(), 0, 16) << 48 | strtoull(parts[4].c_str(), 0, 16); CHECK(!threw && gm == em && gl == el, show(d) << " parsed as " << (threw ? std::string("an exception") : textOf(gm, gl))); LABEL("well-formed variant"); }
    else if (damaged) { CHECK(threw || (gm == 0 && gl == 0), "malformed " << show(d) << " accepted as " << textOf(gm, gl)); LABEL("malformed"); markNontrivial(); }
    // generation under a controlled clock
    if (s.chance(1, 3)) {
        struct Restore { ~Restore() { fakeClock = false; } } restore;
        std::set<std::pair<Q, Q>> seen; size_t made = 0; Q node = 0;
        fakeUsec = s.pick<int64_t>({1700000000000000LL, 1699999999999990LL, 946684800000000LL, 4102444799999999LL, 0x7ffffff0LL * 1000000}) + s.range(0, 20); fakeClock = true;
        do {
            switch (s.range(0, 4)) {
                case 0: stillFor = (int) s.range(0, 30); TRACE("clock stands for " << stillFor << " readings"); break;
                case 1: { int64_t by = s.flip() ? s.range(1, 5) : s.range(1, 3000000); fakeUsec -= by; TRACE("clock back by " << by); LABEL("clock stepped back"); break; }
                case 2: { int64_t by = s.flip() ? s.range(1, 5) : s.range(1, 3000000); fakeUsec += by; TRACE("clock ahead by " << by); break; }
                default:
                    for (int n = (int) s.range(1, 14); n > 0; --n) {
                        bool byTime = !s.chance(1, 5); UUID g = byTime ? UUID::timeUUID() : UUID::randomUUID(); ++made;
                        Q gm2 = (Q) g.getMostSignificantBits(), gl2 = (Q) g.getLeastSignificantBits(); std::string tx = textOf(gm2, gl2); checkBits(g, gm2, gl2, "generated");
                        CHECK_EQ(g.version(), byTime ? 1 : 4, "version of the generated " << tx); CHECK_EQ(g.variant(), 2, "variant of the generated " << tx);
                        CHECK(seen.insert({gm2, gl2}).second, "generated twice: " << tx << " (number " << made << ", clock " << fakeUsec << ")");
                        if (byTime) {
                            Q ticks = (gm2 & 0xfff) << 48 | (gm2 >> 16 & 0xffff) << 32 | gm2 >> 32, now = (Q) fakeUsec * 10 + 0x01B21DD213814000ULL;
                            CHECK(ticks >= now && ticks < now + 10, "time " << ticks << " in the UUID, clock says " << now);
                            if (node) CHECK_EQ((int64_t) (gl2 & 0xffffffffffffULL), (int64_t) node, "node changed"); node = gl2 & 0xffffffffffffULL;
                        } else LABEL("random UUID");
                    }
            }
        } while (s.more() && made < 200);
        if (made > 10) LABEL("more than 10 generated");
    }
}
}
PROPERTY(X04, run, 220, "a UUID with the top bit set in a half, or a malformed text")
