// X05: Random against the documented linear congruential generator (histories over several generators)
#include "jv.hpp"
#include <memory>
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
namespace {
struct Ref {                                     // java.util.Random as documented
    uint64_t x; bool have; double gauss;
    explicit Ref(int64_t s) { seed(s); }
    void seed(int64_t s) { x = ((uint64_t) s ^ 0x5DEECE66DULL) & ((1ULL << 48) - 1); have = false; gauss = 0; }
    int next(int bits) { x = (x * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1); return (int) (int64_t) (x >> (48 - bits)); }
    int bounded(int n) {
        if ((n & -n) == n) return (int) ((uint64_t) n * (uint64_t) next(31) >> 31);
        int b, v; do { b = next(31); v = b % n; } while ((int64_t) b - v + (n - 1) > 0x7fffffffLL);
        return v;
    }
    int64_t nextLong() { uint64_t h = (uint64_t) (int64_t) next(32) << 32; return (int64_t) (h + (uint64_t) (int64_t) next(32)); }
    double nextDouble() { uint64_t h = (uint64_t) next(26) << 27; return (double) (h + (uint64_t) next(27)) / 9007199254740992.0; }
    double gaussian() {
        if (have) { have = false; return gauss; }
        double a, b, q; do { a = 2 * nextDouble() - 1; b = 2 * nextDouble() - 1; q = a * a + b * b; } while (q >= 1 || q == 0);
        double m = std::sqrt(-2 * std::log(q) / q); have = true; gauss = b * m; return a * m;
    }
};
struct Gen : ju::Random { Gen(long s) : Random(s) {} Gen(const Gen &o) : Random(o) {} int bits(int n) { return next(n); } };
struct Pair { std::unique_ptr<Gen> g; Ref r; };
int bound(Src &s) { switch (s.range(0, 3)) { case 0: return (int) s.range(1, 100); case 1: return 1 << s.range(0, 30); case 2: return (int) ((1LL << s.range(1, 31)) - s.range(1, 2)) + (s.flip() ? 0 : 0); default: { int v = s.i32(); v = (int) (v & 0x7fffffff); return v ? v : 1; } } }
void run(Src &s) {
    std::vector<Pair> v; auto fresh = [&] { int64_t seed = s.i64(); TRACE("new generator, seed " << seed); v.push_back(Pair{std::unique_ptr<Gen>(new Gen((long) seed)), Ref(seed)}); };
    fresh(); int draws = 0, kinds = 0;
    if (s.chance(1, 16)) { ju::Random a, b; bool same = true; for (int i = 0; i < 3; ++i) if (a.nextLong() != b.nextLong()) same = false; CHECK(!same, "two unseeded generators give the same sequence"); LABEL("unseeded"); }
    do {
        size_t i = (size_t) s.range(0, (int64_t) v.size() - 1); Gen &g = *v[i].g; Ref &r = v[i].r; int op = (int) s.range(0, 12); ++draws; kinds |= 1 << op;
        switch (op) {
            case 0: TRACE("#" << i << " nextInt"); CHECK_EQ(g.nextInt(), r.next(32), "nextInt"); break;
            case 1: { int b = std::max(1, bound(s)); TRACE("#" << i << " nextInt(" << b << ")"); int got = g.nextInt(b); CHECK(got >= 0 && got < b, "nextInt(" << b << ") = " << got); CHECK_EQ(got, r.bounded(b), "nextInt(" << b << ")"); if (b > 1 << 30) LABEL("bound above 2^30"); break; }
            case 2: TRACE("#" << i << " nextLong"); CHECK_EQ((int64_t) g.nextLong(), r.nextLong(), "nextLong"); break;
            case 3: TRACE("#" << i << " nextBoolean"); CHECK_EQ((bool) g.nextBoolean(), r.next(1) != 0, "nextBoolean"); break;
            case 4: { TRACE("#" << i << " nextDouble"); double d = g.nextDouble(); CHECK(d >= 0 && d < 1, "nextDouble = " << show(d)); CHECK_EQ(d, r.nextDouble(), "nextDouble"); break; }
            case 5: { TRACE("#" << i << " nextFloat"); float f = g.nextFloat(); CHECK(f >= 0 && f < 1, "nextFloat = " << show(f)); CHECK_EQ(f, (float) r.next(24) / 16777216.0f, "nextFloat"); break; }
            case 6: { TRACE("#" << i << " nextGaussian"); bool second = r.have; double d = g.nextGaussian(), w = r.gaussian(); CHECK(std::fabs(d - w) <= 1e-12 * std::max(1.0, std::fabs(w)), "nextGaussian = " << show(d) << ", expected " << show(w)); if (second) LABEL("second Gaussian of a pair"); break; }
            case 7: { int64_t seed = s.i64(); TRACE("#" << i << " setSeed " << seed); g.setSeed((long) seed); r.seed(seed); break; }
            case 8: { int b = (int) -s.range(0, 200); if (s.chance(1, 8)) b = INT32_MIN; TRACE("#" << i << " nextInt(" << b << ")"); CHECK(throws<InterruptedException>([&] { g.nextInt(b); }), "bound " << b << " accepted"); LABEL("bad bound"); break; }
            case 9: { int n = (int) s.size(3000); TRACE("#" << i << " nextString(" << n << ")"); std::string t = S(g.nextString(n)), w; static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; for (int k = 0; k < n; ++k) w += A[r.bounded(62)]; CHECK_EQ(t, w, "nextString(" << n << ")"); break; }
            case 10: { int n = (int) s.size(300); TRACE("#" << i << " nextBytes of " << n); Array<byte> a; for (int k = 0; k < n; ++k) a.push((byte) 0x5a); g.nextBytes(&a); CHECK_EQ((int) a.length, n, "length of the array"); unsigned w = 0; for (int k = 0; k < n; ++k) { if (k % 4 == 0) w = (unsigned) r.next(32); CHECK_EQ((int) (unsigned char) a[k], (int) (w & 255), "byte " << k << " of " << n); w >>= 8; } break; }
            case 11: if (v.size() < 4) { if (s.flip()) { TRACE("#" << i << " copied"); v.push_back(Pair{std::unique_ptr<Gen>(new Gen(g)), r}); LABEL("copied"); } else fresh(); } else { TRACE("#" << i << " dropped"); v.erase(v.begin() + (long) i); } break;
            default: { int n = (int) s.range(1, 32); TRACE("#" << i << " next(" << n << ")"); CHECK_EQ(g.bits(n), r.next(n), "next(" << n << ")"); }
        }
    } while (s.more());
    if (draws >= 5 && __builtin_popcount((unsigned) kinds) >= 3) markNontrivial();
}
}
PROPERTY(X05, run, 220, "a history of at least five calls of at least three kinds")
