// N03: exact arithmetic, floorDiv/floorMod, abs/min/max/signum of Math
#include "jv.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/Math/Math.hpp"
namespace {
using jl::Math; using jl::ArithmeticException;
typedef __int128 wide;
std::string W(wide v) {
    bool n = v < 0; unsigned __int128 u = n ? (unsigned __int128) -v : (unsigned __int128) v;
    std::string s; do { s.insert(s.begin(), (char) ('0' + (int) (u % 10))); u /= 10; } while (u);
    return (n ? "-" : "") + s;
}
template<class T, class F>
void exact(const char *what, wide a, wide b, wide want, F f) {
    bool fits = want >= (wide) std::numeric_limits<T>::min() && want <= (wide) std::numeric_limits<T>::max();
    TRACE(what << sizeof(T) * 8 << "(" << W(a) << ", " << W(b) << ") -> " << (fits ? W(want) : std::string("overflow")));
    wide got = 0;
    bool threw = false;
    try { got = (wide) f(); } catch (const ArithmeticException &) { threw = true; }
    CHECK(threw == !fits, what << sizeof(T) * 8 << "(" << W(a) << ", " << W(b) << "): " << (threw ? "threw" : "returned " + W(got)) << ", mathematical result " << W(want));
    if (fits) CHECK(got == want, what << "(" << W(a) << ", " << W(b) << ") = " << W(got) << ", expected " << W(want));
    if (fits) LABEL("exact: representable"); else LABEL("exact: overflow");
    if (!fits) markNontrivial();
}
// two operands, often with a sum/product close to the limits
template<class T> void operands(Src &s, T &a, T &b) {
    a = s.integer<T>();
    const wide MX = std::numeric_limits<T>::max(), MN = std::numeric_limits<T>::min();
    wide w;
    switch (s.weighted({4, 2, 2, 3})) {
        case 1: w = (s.flip() ? MX : MN) - (wide) a + s.range(0, 4) - 2; break;                       // a + b near a limit
        case 2: w = (wide) a - (s.flip() ? MX : MN) + s.range(0, 4) - 2; break;                       // a - b near a limit
        case 3: w = a == 0 ? 0 : (s.flip() ? MX : MN) / (wide) a + s.range(0, 2) - 1; break;         // a * b near a limit
        default: b = s.integer<T>(); return;
    }
    b = w < MN || w > MX ? s.integer<T>() : (T) w;
}
template<class T> void arith(Src &s) {
    T a, b;
    operands(s, a, b);
    exact<T>("addExact", a, b, (wide) a + b, [&] { return Math::addExact(a, b); });
    exact<T>("subtractExact", a, b, (wide) a - b, [&] { return Math::subtractExact(a, b); });
    exact<T>("multiplyExact", a, b, (wide) a * b, [&] { return Math::multiplyExact(a, b); });
    exact<T>("incrementExact", a, 0, (wide) a + 1, [&] { return Math::incrementExact(a); });
    exact<T>("decrementExact", a, 0, (wide) a - 1, [&] { return Math::decrementExact(a); });
    exact<T>("negateExact", a, 0, -(wide) a, [&] { return Math::negateExact(a); });
    exact<int>("toIntExact", a, 0, (wide) a, [&] { return Math::toIntExact((long) a); });
    CHECK(Math::max(a, b) == (a > b ? a : b), "max " << a << "," << b);
    CHECK(Math::min(a, b) == (a < b ? a : b), "min " << a << "," << b);
    T m = a < 0 ? (T) (0 - (wide) a) : a;                              // documented: abs(MIN) is MIN
    CHECK(Math::abs(a) == m, "abs " << a);
    if (b == 0) {
        CHECK(throws<ArithmeticException>([&] { Math::floorDiv(a, b); }), "floorDiv by zero");
        CHECK(throws<ArithmeticException>([&] { Math::floorMod(a, b); }), "floorMod by zero");
        LABEL("division by zero");
    } else {
        wide q = (wide) a / b, r = (wide) a % b;
        if (r != 0 && ((r < 0) != (b < 0))) { q -= 1; r += b; }
        if (q > (wide) std::numeric_limits<T>::max()) {                // MIN / -1: documented to give MIN
            LABEL("floorDiv(MIN, -1)");
            markNontrivial();
            q = std::numeric_limits<T>::min();
        }
        TRACE("floorDiv/floorMod " << W(a) << " " << W(b));
        CHECK(Math::floorDiv(a, b) == (T) q, "floorDiv " << W(a) << "," << W(b) << " = " << W(Math::floorDiv(a, b)));
        CHECK(Math::floorMod(a, b) == (T) r, "floorMod " << W(a) << "," << W(b) << " = " << W(Math::floorMod(a, b)));
        if (a < 0 || b < 0) { LABEL("floorDiv with a negative operand"); markNontrivial(); }
    }
}
template<class T> void real(Src &s, T (*gen)(Src &)) {
    T a = gen(s), b = s.chance(1, 4) ? -a : s.chance(1, 5) ? a : gen(s);
    TRACE("real " << show(a) << " " << show(b));
    // documented: "valueA if valueA > valueB; else valueB" (and the other way round); the sign of equal zeros is left open,
    // with a NaN both that formula's value and NaN are accepted
    T mx = Math::max(a, b), mn = Math::min(a, b);
    if (std::isnan(a) || std::isnan(b)) {
        CHECK(std::isnan(mx) || sameF(mx, b), "max(" << show(a) << ", " << show(b) << ") = " << show(mx));
        CHECK(std::isnan(mn) || sameF(mn, b), "min(" << show(a) << ", " << show(b) << ") = " << show(mn));
    } else {
        CHECK(mx == (a > b ? a : b), "max(" << show(a) << ", " << show(b) << ") = " << show(mx));
        CHECK(mn == (a < b ? a : b), "min(" << show(a) << ", " << show(b) << ") = " << show(mn));
    }
    CHECK(std::isnan(a) ? std::isnan(Math::abs(a)) : Math::abs(a) == std::fabs(a), "abs(" << show(a) << ") = " << show(Math::abs(a)));
    T sg = std::isnan(a) || a == 0 ? a : std::signbit(a) ? (T) -1 : (T) 1;
    CHECK(sameF(Math::signum(a), sg), "signum(" << show(a) << ") = " << show(Math::signum(a)));
    LABEL("real");
    if (a == b || std::isnan(a) || std::isnan(b)) { LABEL("real: equal or NaN"); markNontrivial(); }
}
void run(Src &s) {
    int n = 0;
    do switch (s.weighted({4, 4, 2, 2})) {
        case 0: arith<int>(s); break;
        case 1: arith<long>(s); break;
        case 2: real<double>(s, [](Src &x) { return x.f64(); }); break;
        default: real<float>(s, [](Src &x) { return x.f32(); }); break;
    } while (s.more() && ++n < 4);
}
}
PROPERTY(N03, run, 200, "a case applies every exact/floor/abs/min/max/signum function to up to 4 operand pairs; non-trivial when a result overflows, an operand of floorDiv is negative, or the reals are equal or NaN")
