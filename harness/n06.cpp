// N06: floating-point Math functions against extended-precision references and exact bit-level definitions
#include "jv.hpp"
#include "library/Java/Lang/Math/Math.hpp"
namespace {
using jl::Math;
typedef long double LD;
double ulpOf(double v) {
    v = std::fabs(v);
    if (!std::isfinite(v)) return 0;
    if (v == std::numeric_limits<double>::max()) return v - std::nextafter(v, 0.0);
    return std::nextafter(v, HUGE_VAL) - v;
}
// got within n units in the last place of the extended-precision value (same NaN-ness, infinities and zero signs where exact)
void near(const char *what, double a, double b, bool two, double got, LD ref, double n) {
    double r = (double) ref;
    bool ok;
    if (std::isnan(r)) ok = std::isnan(got);
    else if (std::isinf(r)) ok = got == r || (std::isfinite((double) ref) ? false : std::fabs(got) == std::numeric_limits<double>::max() && std::signbit(got) == std::signbit(r) && std::fabs((double) (ref / 2)) < HUGE_VAL);
    else if (std::isinf(got) || std::isnan(got)) ok = std::isinf(got) && std::fabs(r) > 1.7976931348623e308 && std::signbit(got) == std::signbit(r);
    else {
        LD d = (LD) got - ref;
        if (d < 0) d = -d;
        ok = d <= (LD) n * (LD) ulpOf(r);
        if (ok && ref == 0 && n <= 6) ok = got == 0 && std::signbit(got) == std::signbit((double) ref);
    }
    if (two) CHECK(ok, what << "(" << show(a) << ", " << show(b) << ") = " << show(got) << ", expected about " << show(r));
    else CHECK(ok, what << "(" << show(a) << ") = " << show(got) << ", expected about " << show(r));
}
void same(const char *what, double a, double b, double got, double want) {
    CHECK(sameF(got, want), what << "(" << show(a) << ", " << show(b) << ") = " << show(got) << ", expected " << show(want));
}
double step(double v, bool up) {                 // neighbour by bit pattern
    if (v == 0) return up ? 4.9406564584124654e-324 : -4.9406564584124654e-324;
    uint64_t u; memcpy(&u, &v, 8);
    bool away = (v > 0) == up;
    u = away ? u + 1 : u - 1;
    memcpy(&v, &u, 8);
    return v;
}
float stepf(float v, bool up) {
    uint32_t u;
    if (v == 0) { u = up ? 1u : 0x80000001u; memcpy(&v, &u, 4); return v; }
    memcpy(&u, &v, 4);
    u = ((v > 0) == up) ? u + 1 : u - 1;
    memcpy(&v, &u, 4);
    return v;
}
bool special(double v) { return !std::isfinite(v) || v == 0 || std::fabs(v) < 2.3e-308 || std::fabs(v) > 1e300; }
double arg(Src &s) {
    switch (s.weighted({6, 2, 2, 2})) {
        case 1: return (double) s.range(-800, 800) + (s.flip() ? 0.5 : 0.0);                 // exp/sinh range, halves
        case 2: { double v = (double) s.range(-4000, 4000) / 1000.0; return v; }             // asin/acos/trig range
        case 3: { double v = (double) s.range(-2000000000LL, 2000000000LL) + (double) s.range(0, 4) * 0.25; return s.flip() ? step(v, s.flip()) : v; }
        default: return s.f64();
    }
}
const double INF = HUGE_VAL, QN = NAN;
void unary(Src &s) {
    double a = arg(s);
    TRACE("unary double " << show(a));
#define N1(F, REF, ULP) near(#F, a, 0, false, Math::F(a), REF((LD) a), ULP)
    if (std::isnan(a)) {
        CHECK(std::isnan(Math::sin(a)) && std::isnan(Math::cos(a)) && std::isnan(Math::tan(a)) && std::isnan(Math::exp(a)) && std::isnan(Math::log(a)) &&
              std::isnan(Math::sqrt(a)) && std::isnan(Math::cbrt(a)) && std::isnan(Math::ceil(a)) && std::isnan(Math::floor(a)) && std::isnan(Math::rint(a)) &&
              std::isnan(Math::log10(a)) && std::isnan(Math::log1p(a)) && std::isnan(Math::expm1(a)) && std::isnan(Math::sinh(a)) && std::isnan(Math::cosh(a)) &&
              std::isnan(Math::tanh(a)) && std::isnan(Math::asin(a)) && std::isnan(Math::acos(a)) && std::isnan(Math::atan(a)) && std::isnan(Math::toDegrees(a)) &&
              std::isnan(Math::toRadians(a)) && std::isnan(Math::ulp(a)) && std::isnan(Math::nextUp(a)) && std::isnan(Math::nextDown(a)), "a function of NaN is not NaN");
        CHECK_EQ(Math::round(a), 0L, "round(NaN)");
        CHECK_EQ(Math::getExponent(a), 1024, "getExponent(NaN)");
        LABEL("NaN"); markNontrivial();
        return;
    }
    N1(sin, sinl, 6); N1(cos, cosl, 6); N1(tan, tanl, 6); N1(asin, asinl, 6); N1(acos, acosl, 6); N1(atan, atanl, 6);
    N1(exp, expl, 6); N1(log, logl, 6); N1(log10, log10l, 6); N1(sqrt, sqrtl, 0.51); N1(cbrt, cbrtl, 6);
    N1(sinh, sinhl, 6); N1(cosh, coshl, 6); N1(tanh, tanhl, 6); N1(log1p, log1pl, 6);
    if (a != -INF) N1(expm1, expm1l, 6);                         // expm1(-inf): the header contradicts the mathematical limit, unclaimed
    same("ceil", a, 0, Math::ceil(a), (double) ceill((LD) a));
    same("floor", a, 0, Math::floor(a), (double) floorl((LD) a));
    // rint: nearest integer, ties to even, computed from floor
    {
        double want = a;
        if (std::isfinite(a) && std::fabs(a) < 4503599627370496.0) {
            LD f = floorl((LD) a), d = (LD) a - f;
            LD w = d < 0.5L ? f : d > 0.5L ? f + 1 : fmodl(f, 2) == 0 ? f : f + 1;
            want = std::copysign((double) w, a);
            if (d == 0.5L) { LABEL("tie"); markNontrivial(); }
            // round: a closest long; either neighbour of an exact tie
            long g = Math::round(a);
            CHECK(fabsl((LD) g - (LD) a) <= 0.5L, "round(" << show(a) << ") = " << g);
        } else if (std::isfinite(a) && std::fabs(a) < 9.2e18) CHECK_EQ(Math::round(a), (long) a, "round " << show(a));
        else if (a >= 9223372036854775808.0) { CHECK_EQ(Math::round(a), std::numeric_limits<long>::max(), "round " << show(a)); LABEL("round clamps"); }
        else if (a <= -9223372036854775808.0) { CHECK_EQ(Math::round(a), std::numeric_limits<long>::min(), "round " << show(a)); LABEL("round clamps"); }
        same("rint", a, 0, Math::rint(a), want);
    }
    near("toRadians", a, 0, false, Math::toRadians(a), (LD) a / 180.0L * 3.14159265358979323846264338327950288L, 8);
    if (a != -INF && std::fabs(a) < 9e305 * 1.1) near("toDegrees", a, 0, false, Math::toDegrees(a), (LD) a * 180.0L / 3.14159265358979323846264338327950288L, 8);
    // representation
    uint64_t u; memcpy(&u, &a, 8);
    int e = (int) ((u >> 52) & 0x7ff);
    CHECK_EQ(Math::getExponent(a), e - 1023, "getExponent " << show(a));
    if (std::isinf(a)) {
        CHECK(Math::ulp(a) == INF, "ulp(infinity)");
        CHECK(sameF(Math::nextUp(a), a > 0 ? a : -std::numeric_limits<double>::max()), "nextUp(" << show(a) << ")");
        CHECK(sameF(Math::nextDown(a), a < 0 ? a : std::numeric_limits<double>::max()), "nextDown(" << show(a) << ")");
    } else {
        double m = std::fabs(a);
        double want = m == std::numeric_limits<double>::max() ? m - step(m, false) : step(m, true) - m;
        same("ulp", a, 0, Math::ulp(a), want);
        same("nextUp", a, 0, Math::nextUp(a), step(a, true));
        same("nextDown", a, 0, Math::nextDown(a), step(a, false));
        if (e == 0) LABEL("zero or subnormal");
    }
    if (special(a)) { LABEL("special double"); markNontrivial(); }
}
void binary(Src &s) {
    double a = arg(s), b = s.chance(1, 6) ? a : arg(s);
    TRACE("binary " << show(a) << " " << show(b));
    if (s.flip() && std::isfinite(b)) { double h = std::nearbyint(b); if (std::fabs(h) < 2000) b = h; }
#define N2(F, REF, ULP) near(#F, a, b, true, Math::F(a, b), REF((LD) a, (LD) b), ULP)
    N2(atan2, atan2l, 6);
    if (std::isinf(a) || std::isinf(b)) CHECK(Math::hypot(a, b) == INF, "hypot with an infinity");
    else N2(hypot, hypotl, 6);
    if ((a == 1 && std::isnan(b)) || (std::fabs(a) == 1 && std::isinf(b))) { double p = Math::pow(a, b); CHECK(std::isnan(p) || p == 1, "pow of one"); }
    else if (!sameF(Math::pow(a, b), std::pow(a, b))) N2(pow, powl, 6);      // glibc's powl mishandles (-inf, -2^63): either reference will do
    // IEEE remainder is exact
    double r = Math::IEEERemainder(a, b);
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || b == 0) CHECK(std::isnan(r), "IEEERemainder(" << show(a) << ", " << show(b) << ") = " << show(r));
    else if (std::isinf(b)) {
        if (!(std::isnan(r) && known("ieee_infinite"))) same("IEEERemainder", a, b, r, a); else LABEL("known: ieee_infinite");
    } else { double w = (double) remainderl((LD) a, (LD) b); CHECK(r == w, "IEEERemainder(" << show(a) << ", " << show(b) << ") = " << show(r) << ", expected " << show(w)); }
    if (!std::isnan(a)) same("copySign", a, b, std::isnan(b) ? std::fabs(Math::copySign(a, b)) : Math::copySign(a, b), std::isnan(b) ? std::fabs(a) : std::copysign(a, b));
    // nextAfter
    double n = Math::nextAfter(a, b);
    if (std::isnan(a) || std::isnan(b)) CHECK(std::isnan(n), "nextAfter with NaN");
    else if (a == b) same("nextAfter", a, b, n, b);
    else if (std::isinf(a)) same("nextAfter", a, b, n, std::copysign(std::numeric_limits<double>::max(), a));
    else {
        double w = step(a, a < b);
        CHECK(n == w && (n != 0 || std::signbit(n) == std::signbit(a)), "nextAfter(" << show(a) << ", " << show(b) << ") = " << show(n) << ", expected " << show(w));
    }
    int k = s.chance(1, 2) ? (int) s.range(-60, 60) : s.chance(1, 2) ? (int) s.range(-2400, 2400) : s.i32();
    int kk = k > 6000 ? 6000 : k < -6000 ? -6000 : k;
    TRACE("scalb " << show(a) << " by " << k);
    same("scalb", a, k, Math::scalb(a, k), (double) ldexpl((LD) a, kk));
    if (special(a) || special(b)) { LABEL("special pair"); markNontrivial(); }
    if (k > 1000 || k < -1000) { LABEL("scalb far"); markNontrivial(); }
}
void floats(Src &s) {
    float a = s.f32();
    double b = s.flip() ? (double) s.f32() : s.f64();
    TRACE("float " << show(a) << " and " << show(b));
    uint32_t u; memcpy(&u, &a, 4);
    int e = (int) ((u >> 23) & 0xff);
    CHECK_EQ(Math::getExponent(a), e - 127, "getExponent " << show(a));
    if (e == 0 || e == 255 || special(b)) { LABEL("special float"); markNontrivial(); }
    int k = s.chance(1, 2) ? (int) s.range(-60, 60) : s.chance(1, 2) ? (int) s.range(-400, 400) : s.i32();
    int kk = k > 3000 ? 3000 : k < -3000 ? -3000 : k;
    if (std::isnan(a)) {
        CHECK(std::isnan(Math::ulp(a)) && std::isnan(Math::nextUp(a)) && std::isnan(Math::nextDown(a)) && std::isnan(Math::nextAfter(a, b)) && std::isnan(Math::scalb(a, k)), "NaN lost");
        CHECK_EQ(Math::round(a), 0, "round(NaN)");
        return;
    }
    same("scalb(float)", a, k, Math::scalb(a, k), (float) ldexpl((LD) a, kk));
    if (a >= 2147483648.0f) CHECK_EQ(Math::round(a), std::numeric_limits<int>::max(), "round " << show(a));
    else if (a <= -2147483648.0f) CHECK_EQ(Math::round(a), std::numeric_limits<int>::min(), "round " << show(a));
    else { int g = Math::round(a); CHECK(std::fabs((double) g - (double) a) <= 0.5, "round(" << show(a) << ") = " << g); }
    float fb = (float) b;
    same("copySign(float)", a, fb, std::isnan(fb) ? std::fabs(Math::copySign(a, fb)) : Math::copySign(a, fb), std::isnan(fb) ? std::fabs(a) : std::copysign(a, fb));
    if (std::isinf(a)) {
        CHECK(Math::ulp(a) == INF, "ulp(infinity)");
        same("nextUp(float)", a, 0, Math::nextUp(a), a > 0 ? a : -std::numeric_limits<float>::max());
        same("nextDown(float)", a, 0, Math::nextDown(a), a < 0 ? a : std::numeric_limits<float>::max());
    } else {
        float m = std::fabs(a);
        float w = m == std::numeric_limits<float>::max() ? m - stepf(m, false) : stepf(m, true) - m;
        float g = Math::ulp(a);
        if (!(e == 0 && g == std::numeric_limits<float>::min() && known("float_min_value"))) same("ulp(float)", a, 0, g, w); else LABEL("known: float_min_value");
        same("nextUp(float)", a, 0, Math::nextUp(a), stepf(a, true));
        g = Math::nextDown(a);
        if (!(a == 0 && g == -std::numeric_limits<float>::min() && known("float_min_value"))) same("nextDown(float)", a, 0, g, stepf(a, false)); else LABEL("known: float_min_value");
    }
    float n = Math::nextAfter(a, b);
    if (std::isnan(b)) CHECK(std::isnan(n), "nextAfter with NaN");
    else if ((double) a == b) same("nextAfter(float)", a, b, n, b);
    else if (std::isinf(a)) same("nextAfter(float)", a, b, n, std::copysign(std::numeric_limits<float>::max(), a));
    else { float w = stepf(a, a < b); CHECK(n == w && (n != 0 || std::signbit(n) == std::signbit(a)), "nextAfter(" << show(a) << ", " << show(b) << ") = " << show(n)); }
}
void run(Src &s) {
    int n = 0;
    do switch (s.weighted({5, 5, 3})) {
        case 0: unary(s); break;
        case 1: binary(s); break;
        default: floats(s); break;
    } while (s.more() && ++n < 4);
    if (s.chance(1, 32)) { double r = Math::random(); CHECK(r >= 0 && r < 1, "random() = " << show(r)); LABEL("random"); }
}
}
PROPERTY(N06, run, 200, "a case applies every floating-point function to up to 4 arguments or pairs; non-trivial when an argument is NaN, infinite, zero, subnormal, huge or an exact rounding tie, or the scale factor leaves the normal range",
    {"ieee_infinite", [] { CHECK(Math::IEEERemainder(6, INF) == 6, "IEEERemainder(6, infinity) is " << show(Math::IEEERemainder(6, INF))); }},
    {"float_min_value", [] { CHECK(Math::nextDown(0.0f) == stepf(0.0f, false), "nextDown(0.0f) is " << show(Math::nextDown(0.0f))); }})
