// N04: histories of operators over boxed numbers against the primitives
#include "jv.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/Bytes/Bytes.hpp"
#include "library/Java/Lang/Short/Short.hpp"
#include "library/Java/Lang/Boolean/Boolean.hpp"
namespace {
using jl::Integer; using jl::Long; using jl::Short; using jl::Bytes; using jl::Double; using jl::Float; using jl::Boolean;
template<class T> int order(T a, T b) { return a < b ? -1 : a > b ? 1 : 0; }
template<> int order<double>(double a, double b) {       // NaN equals itself and follows everything; zeros are equal
    if (std::isnan(a) || std::isnan(b)) return (int) std::isnan(a) - (int) std::isnan(b);
    return a < b ? -1 : a > b ? 1 : 0;
}
template<> int order<float>(float a, float b) { return order<double>(a, b); }
int sgn(long v) { return v < 0 ? -1 : v > 0; }
std::string fmt(const char *f, double v) { char b[400]; snprintf(b, sizeof b, f, v); return b; }
// the sign a NaN carries through an operation is open
std::string unsignedNaN(const std::string &t) { return t == "-nan" ? "nan" : t; }
template<class T> bool same(T a, T b) { return a == b; }
template<> bool same<double>(double a, double b) { return sameF(a, b); }
template<> bool same<float>(float a, float b) { return sameF(a, b); }

struct IntK { typedef Integer Box; typedef int T; enum { integral = 1 }; static T gen(Src &s) { return s.i32(); } static T get(const Box &b) { return b.intValue(); }
    static std::string text(T v) { return std::to_string(v); } static const char *name() { return "Integer"; } };
struct LongK { typedef Long Box; typedef long T; enum { integral = 1 }; static T gen(Src &s) { return s.i64(); } static T get(const Box &b) { return b.longValue(); }
    static std::string text(T v) { return std::to_string(v); } static const char *name() { return "Long"; } };
struct ShortK { typedef Short Box; typedef short T; enum { integral = 1 }; static T gen(Src &s) { return s.integer<int16_t>(); } static T get(const Box &b) { return b.shortValue(); }
    static std::string text(T v) { return std::to_string(v); } static const char *name() { return "Short"; } };
struct ByteK { typedef Bytes Box; typedef unsigned char T; enum { integral = 1 }; static T gen(Src &s) { return s.u8(); } static T get(const Box &b) { return b.byteValue(); }
    static std::string text(T v) { return std::to_string(v); } static const char *name() { return "Bytes"; } };
struct DoubleK { typedef Double Box; typedef double T; enum { integral = 0 }; static T gen(Src &s) { return s.f64(); } static T get(const Box &b) { return b.doubleValue(); }
    static std::string text(T v) { return fmt("%.15f", v); } static const char *name() { return "Double"; } };
struct FloatK { typedef Float Box; typedef float T; enum { integral = 0 }; static T gen(Src &s) { return s.f32(); } static T get(const Box &b) { return b.floatValue(); }
    static std::string text(T v) { return fmt("%g", (double) v); } static const char *name() { return "Float"; } };

template<class T, bool I> struct Arith {   // two's complement, divisor non-zero
    static T op(int o, T a, T b) {
        typedef unsigned long U;
        switch (o) {
            case 0: return (T) ((U) a + (U) b);
            case 1: return (T) ((U) a - (U) b);
            case 2: return (T) ((U) a * (U) b);
            case 3: return b == (T) -1 && std::is_signed<T>::value ? (T) (0 - (U) a) : (T) (a / b);
            default: return b == (T) -1 && std::is_signed<T>::value ? (T) 0 : (T) (a % b);
        }
    }
    static bool fails(int o, T b) { return o >= 3 && b == 0; }
};
template<class T> struct Arith<T, false> {
    static T op(int o, T a, T b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
    static bool fails(int, T) { return false; }
};
template<class Box, bool I> struct Mod {
    static Box plain(Box &a, const Box &b) { return a % b; }
    static void assign(Box &a, const Box &b) { a %= b; }
};
template<class Box> struct Mod<Box, false> { static Box plain(Box &a, const Box &) { return a; } static void assign(Box &, const Box &) {} };

void conversions(const Integer &b, int v) {
    CHECK_EQ(b.longValue(), (long) v, "longValue"); CHECK_EQ(b.shortValue(), (short) v, "shortValue");
    CHECK_EQ(b.floatValue(), (float) v, "floatValue"); CHECK_EQ(b.doubleValue(), (double) v, "doubleValue");
    Integer c(b); CHECK_EQ((int) c.byteValue(), (int) (unsigned char) v, "byteValue");
    CHECK_EQ(b.charValue(), std::to_string(v)[0], "charValue");
    CHECK_EQ(b.hashCode(), v, "hashCode"); CHECK_EQ(std::string(b.stringValue()), std::to_string(v), "stringValue");
    CHECK(c.equals(b), "equals a copy");
    CHECK_EQ(Integer::valueOf(v).intValue(), v, "valueOf");
}
void conversions(const Long &b, long v) {
    CHECK_EQ(b.intValue(), (int) v, "intValue"); CHECK_EQ(b.shortValue(), (short) v, "shortValue");
    CHECK_EQ(b.floatValue(), (float) v, "floatValue"); CHECK_EQ(b.doubleValue(), (double) v, "doubleValue");
    Long c(b); CHECK_EQ(c.byteValue(), (int) (signed char) v, "byteValue");
    CHECK_EQ(c.hashCode(), (int) (v ^ (long) ((unsigned long) v >> 32)), "hashCode");
    CHECK(c.equals(b), "equals a copy");
    CHECK_EQ(Long::valueOf(v).longValue(), v, "valueOf");
}
void conversions(const Short &b, short v) {
    CHECK_EQ(b.intValue(), (int) v, "intValue"); CHECK_EQ(b.longValue(), (long) v, "longValue");
    CHECK_EQ(b.floatValue(), (float) v, "floatValue"); CHECK_EQ(b.doubleValue(), (double) v, "doubleValue");
    CHECK_EQ(b.charValue(), std::to_string(v)[0], "charValue");
}
void conversions(const Bytes &b, unsigned char v) {
    CHECK_EQ(b.intValue(), (int) v, "intValue"); CHECK_EQ(b.longValue(), (long) v, "longValue"); CHECK_EQ(b.shortValue(), (short) v, "shortValue");
    CHECK_EQ(b.floatValue(), (float) v, "floatValue"); CHECK_EQ(b.doubleValue(), (double) v, "doubleValue");
    CHECK_EQ(b.charValue(), (char) v, "charValue"); CHECK_EQ(b.hashCode(), (int) v, "hashCode"); CHECK_EQ(Bytes::hashCode(v), (int) v, "static hashCode");
    CHECK_EQ(Bytes::toUnsignedInt(v), (int) v, "toUnsignedInt"); CHECK_EQ(Bytes::toUnsignedLong(v), (long) v, "toUnsignedLong");
    Bytes c(b); CHECK(c.equals(b), "equals a copy");
    CHECK_EQ(Bytes::valueOf(v).byteValue(), v, "valueOf"); CHECK_EQ(S(Bytes::toString(v)), std::to_string(v), "static toString");
}
template<class B, class F> void floating(const B &b, F v) {
    if (v > -2147483649.0 && v < 2147483648.0) CHECK_EQ(b.intValue(), (int) v, "intValue");
    if (v >= -9223372036854775808.0 && v < 9223372036854775808.0) CHECK_EQ(b.longValue(), (long) v, "longValue");
    if (v > -32769.0 && v < 32768.0) CHECK_EQ(b.shortValue(), (short) v, "shortValue");
    if (v > -1.0 && v < 256.0) CHECK_EQ((int) b.byteValue(), (int) (unsigned char) v, "byteValue");
    CHECK(sameF(b.doubleValue(), (double) v), "doubleValue " << b.doubleValue() << " of " << show(v));
    CHECK(sameF(b.floatValue(), (float) v), "floatValue " << b.floatValue() << " of " << show(v));
    B c(b);
    CHECK_EQ((bool) c.isNaN(), (bool) std::isnan(v), "isNaN"); CHECK_EQ((bool) c.isInfinite(), (bool) std::isinf(v), "isInfinite");
    CHECK(c.equals(b), "equals a copy");
    CHECK(sameF(B::valueOf(v).doubleValue(), (double) v), "valueOf");
    CHECK_EQ((long) c.hashCode(), (long) B::hashCode(v), "hashCode of the box and of the value");
}
void conversions(const Double &b, double v) { floating(b, v); if (!std::isnan(v)) CHECK_EQ(b.charValue(), fmt("%.15f", v)[0], "charValue"); }
void conversions(const Float &b, float v) { floating(b, v); CHECK_EQ(unsignedNaN(S(Float::toString(v))), unsignedNaN(fmt("%g", (double) v)), "static toString"); }

template<class Box> bool boxEquals(Box &a, const Box &b) { return a.equals(b); }
bool boxEquals(Short &a, const Short &b) { return a == b; }
template<class Box> int boxCompare(Box &a, const Box &b) { return a.compareTo(b); }
int boxCompare(Short &a, const Short &b) { return a < b ? -1 : a > b; }
template<class Box> long boxHash(Box &a) { return (long) a.hashCode(); }
long boxHash(Short &) { return 0; }
template<class Box> void stream(const Box &b, const std::string &want) { std::ostringstream o; o << b; CHECK_EQ(o.str(), want, "stream text"); }
void stream(const Bytes &, const std::string &) {}
void stream(const Double &, const std::string &) {}
void stream(const Float &, const std::string &) {}

template<class Box, class T> void logic(const Box &, const Box &, T, T) {}
void logic(const Double &a, const Double &b, double x, double y) { CHECK_EQ((bool) (a && b), x != 0 && y != 0, "&&"); CHECK_EQ((bool) (a || b), x != 0 || y != 0, "||"); CHECK(std::isnan(x) || std::isnan(y) || Double::min(x, y) == std::min(x, y), "min"); }
void logic(const Float &a, const Float &b, float x, float y) { CHECK_EQ((bool) (a && b), x != 0 && y != 0, "&&"); CHECK_EQ((bool) (a || b), x != 0 || y != 0, "||"); CHECK(std::isnan(x) || std::isnan(y) || Float::min(x, y) == std::min(x, y), "min"); }
void logic(const Bytes &, const Bytes &, unsigned char x, unsigned char y) { CHECK_EQ(sgn(Bytes::compare(x, y)), sgn((long) x - y), "static compare"); }
template<class K> void history(Src &s) {
    typedef typename K::Box Box; typedef typename K::T T; typedef Arith<T, K::integral != 0> A;
    const int N = 3;
    T m[N];
    std::vector<Box> b;
    b.reserve(N);
    for (int i = 0; i < N; ++i) { m[i] = K::gen(s); b.push_back(Box(m[i])); TRACE(K::name() << " box" << i << " = " << show(m[i])); }
    bool fresh[N] = {false, false, false};
    int steps = 0;
    auto check = [&](int i) {
        CHECK(same(K::get(b[i]), m[i]), K::name() << " box" << i << " holds " << show(K::get(b[i])) << ", expected " << show(m[i]));
        std::string t = S(b[i].toString());
        if (!(fresh[i] && m[i] == 0 && t == "0")) CHECK_EQ(unsignedNaN(t), unsignedNaN(K::text(m[i])), K::name() << " text of box" << i);
    };
    do {
        int i = (int) s.range(0, N - 1), j = (int) s.range(0, N - 1), k = (int) s.range(0, N - 1);
        ++steps;
        int kind = (int) s.weighted({5, 5, 2, 3, 2, 1, 1});
        switch (kind) {
            case 0: case 1: {
                int o = (int) s.range(0, K::integral ? 4 : 3);
                TRACE(K::name() << (kind ? " compound " : " binary ") << "+-*/%"[o] << " box" << i << "=" << show(m[i]) << " box" << j << "=" << show(m[j]) << " -> box" << k);
                if (A::fails(o, m[j])) {
                    LABEL("division by zero");
                    bool thrown = throws<jl::ArithmeticException>([&] {
                        if (kind == 0) { if (o == 3) { Box r = b[i] / b[j]; (void) r; } else Mod<Box, K::integral != 0>::plain(b[i], b[j]); }
                        else { if (o == 3) b[i] /= b[j]; else Mod<Box, K::integral != 0>::assign(b[i], b[j]); }
                    });
                    CHECK(thrown, "division by zero accepted");
                } else {
                    T r = A::op(o, m[i], m[j]);
                    if (kind == 0) {
                        if (o == 0) b[k] = b[i] + b[j]; else if (o == 1) b[k] = b[i] - b[j]; else if (o == 2) b[k] = b[i] * b[j];
                        else if (o == 3) b[k] = b[i] / b[j]; else b[k] = Mod<Box, K::integral != 0>::plain(b[i], b[j]);
                        m[k] = r; fresh[k] = false;
                    } else {
                        if (o == 0) b[i] += b[j]; else if (o == 1) b[i] -= b[j]; else if (o == 2) b[i] *= b[j];
                        else if (o == 3) b[i] /= b[j]; else Mod<Box, K::integral != 0>::assign(b[i], b[j]);
                        m[i] = r; fresh[i] = false;
                        if (i == j) LABEL("operand is the target itself");
                    }
                }
                break;
            }
            case 2: TRACE(K::name() << " box" << i << " = box" << j); b[i] = b[j]; m[i] = m[j]; fresh[i] = false; break;
            case 3: {
                int c = order(m[i], m[j]);
                TRACE(K::name() << " compare box" << i << "=" << show(m[i]) << " box" << j << "=" << show(m[j]));
                CHECK_EQ((bool) (b[i] == b[j]), c == 0, "=="); CHECK_EQ((bool) (b[i] != b[j]), c != 0, "!=");
                CHECK_EQ((bool) (b[i] < b[j]), c < 0, "<"); CHECK_EQ((bool) (b[i] > b[j]), c > 0, ">");
                CHECK_EQ((bool) (b[i] <= b[j]), c <= 0, "<="); CHECK_EQ((bool) (b[i] >= b[j]), c >= 0, ">=");
                logic(b[i], b[j], m[i], m[j]);
                CHECK_EQ(boxEquals(b[i], b[j]), c == 0, "equals"); CHECK_EQ(sgn(boxCompare(b[i], b[j])), c, "compareTo");
                if (c == 0) {
                    CHECK_EQ(boxHash(b[i]), boxHash(b[j]), "hashCode of equal boxes");
                    CHECK_EQ(std::hash<Box>{}(b[i]), std::hash<Box>{}(b[j]), "hash of equal boxes");
                }
                break;
            }
            case 4: TRACE(K::name() << " conversions of box" << i); conversions(b[i], m[i]); if (!fresh[i]) stream(b[i], K::text(m[i])); break;
            case 5: TRACE(K::name() << " box" << i << " assigned a new value"); m[i] = K::gen(s); b[i] = Box(m[i]); fresh[i] = false; break;
            default: { TRACE(K::name() << " box" << i << " = default"); Box d; check(j); CHECK(same(K::get(d), (T) 0), "default value"); std::string t = S(d.toString()); CHECK(t == "0" || t == K::text((T) 0), "default text " << t); b[i] = d; m[i] = 0; fresh[i] = true; break; }
        }
        for (int q = 0; q < N; ++q) check(q);
    } while (s.more() && steps < 30);
    if (steps >= 3) markNontrivial();
}
void booleans(Src &s) {
    bool x = s.flip(), y = s.flip();
    Boolean a(x), b(y), c(a);
    TRACE("Boolean " << x << " " << y);
    CHECK_EQ((bool) a.booleanValue(), x, "booleanValue"); CHECK_EQ((bool) c.booleanValue(), x, "copy");
    CHECK_EQ(sgn(Boolean::compare(x, y)), (int) x - (int) y, "compare"); CHECK_EQ(sgn(a.compareTo(b)), (int) x - (int) y, "compareTo");
    CHECK_EQ(S(a.toString()), std::string(x ? "true" : "false"), "toString"); CHECK_EQ(S(Boolean::toString(x)), std::string(x ? "true" : "false"), "static toString");
    CHECK_EQ(a.hashCode(), x ? 1231 : 1237, "hashCode"); CHECK_EQ((bool) (a == b), x == y, "=="); CHECK_EQ((bool) (a != b), x != y, "!="); CHECK_EQ((bool) a.equals(b), x == y, "equals");
    c = b;
    CHECK_EQ((bool) c.booleanValue(), y, "assignment"); CHECK_EQ((bool) a.booleanValue(), x, "assignment changed another box");
    std::ostringstream o; o << a; CHECK_EQ(o.str(), std::string(x ? "true" : "false"), "stream");
    CHECK_EQ((bool) Boolean::valueOf((boolean) x).booleanValue(), x, "valueOf");
    std::string t = s.chance(1, 2) ? (x ? "true" : "false") : s.text(8, 3);
    for (char &ch : t) if (s.chance(1, 3)) ch = (char) toupper(ch);
    if (s.chance(1, 6)) t += " ";
    std::string l;
    bool ascii = true;
    for (char ch : t) { l += (char) tolower(ch); if ((signed char) ch <= 0) ascii = false; }
    if (ascii) {
        TRACE("Boolean text " << show(t));
        CHECK_EQ((bool) Boolean::parseBoolean(t.c_str()), l == "true", "parseBoolean " << show(t));
        CHECK_EQ((bool) Boolean::getBoolean(t.c_str()), l == "true", "getBoolean " << show(t));
        CHECK_EQ((bool) Boolean::valueOf(t.c_str()).booleanValue(), l == "true", "valueOf " << show(t));
        CHECK_EQ((bool) Boolean::valueOf(J(t)).booleanValue(), l == "true", "valueOf String " << show(t));
        Boolean made(t.c_str()); CHECK_EQ((bool) made.booleanValue(), l == "true", "Boolean(" << show(t) << ")");
    }
    if (s.chance(1, 8)) { std::string longer = t + std::string(1, '\0') + s.text(2, 0); TRACE("Boolean text " << show(longer)); CHECK(!Boolean::valueOf(J(longer)).booleanValue(), "valueOf String " << show(longer)); LABEL("boolean text with NUL"); }
    if (s.chance(1, 8)) { const_string none = nullptr; Boolean made(none); CHECK(!made.booleanValue() && !Boolean::parseBoolean(none) && !Boolean::valueOf(none).booleanValue(), "null text is true"); }
    LABEL("boolean");
}
void run(Src &s) {
    switch (s.weighted({5, 5, 4, 4, 4, 4, 2})) {
        case 0: history<IntK>(s); LABEL("Integer"); break;
        case 1: history<LongK>(s); LABEL("Long"); break;
        case 2: history<ShortK>(s); LABEL("Short"); break;
        case 3: history<ByteK>(s); LABEL("Bytes"); break;
        case 4: history<DoubleK>(s); LABEL("Double"); break;
        case 5: history<FloatK>(s); LABEL("Float"); break;
        default: booleans(s);
    }
}
}
PROPERTY(N04, run, 300, "a case applies up to 30 operators to three boxes of one class; non-trivial when at least 3 operators were applied")
