// N05: text, classification, order and bit patterns of Double and Float
#include "jv.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
namespace {
using jl::Double; using jl::Float;
int sgn(long v) { return v < 0 ? -1 : v > 0; }
template<class F> int order(F a, F b) {
    if (std::isnan(a) || std::isnan(b)) return (int) std::isnan(a) - (int) std::isnan(b);
    return a < b ? -1 : a > b ? 1 : 0;
}
long bitsOf(double v) {        // sign and magnitude, one zero, one NaN
    if (std::isnan(v)) return 0x7fffffffffffffffL;
    uint64_t u; double p = std::fabs(v); memcpy(&u, &p, 8);
    return v < 0 ? -(long) u : (long) u;
}
int bitsOf(float v) {
    if (std::isnan(v)) return 0x7fffffff;
    uint32_t u; float p = std::fabs(v); memcpy(&u, &p, 4);
    return v < 0 ? -(int) u : (int) u;
}
// a decimal numeral: digits, optional point and exponent
std::string numeral(Src &s) {
    std::string t;
    if (s.chance(1, 3)) t += s.flip() ? '-' : '+';
    int a = (int) s.range(0, s.chance(1, 6) ? 60 : 8), b = (int) s.range(a ? 0 : 1, s.chance(1, 6) ? 60 : 8);
    for (int i = 0; i < a; ++i) t += (char) ('0' + s.u8() % 10);
    if (b || s.flip()) t += '.';
    for (int i = 0; i < b; ++i) t += (char) ('0' + s.u8() % 10);
    if (s.chance(1, 40)) { LABEL("long numeral"); t.insert(t.find_first_of("0123456789"), std::string((size_t) s.range(1, s.chance(1, 8) ? 5000 : 400), "0199"[s.range(0, 3)])); }
    if (s.chance(1, 3)) { t += s.flip() ? 'e' : 'E'; if (s.flip()) t += s.flip() ? '-' : '+'; t += std::to_string(s.range(0, s.chance(1, 3) ? 400 : 30)); }
    return t;
}
std::string numberText(Src &s) {
    char b[64];
    switch (s.weighted({5, 3, 2, 1})) {
        case 0: return numeral(s);
        case 1: snprintf(b, sizeof b, "%.*e", (int) s.range(0, 25), s.f64()); return b;
        case 2: snprintf(b, sizeof b, "%.*g", (int) s.range(1, 20), (double) s.f32()); return b;
        default: { const char *w[] = {"inf", "-inf", "INFINITY", "-INFINITY", "nan", "NAN", "Infinity", "0", "-0.0"}; return w[s.range(0, 8)]; }
    }
}
std::string garbage(Src &s) {
    switch (s.range(0, 4)) {
        case 0: return "";
        case 1: return s.flip() ? " " : "\t \n";
        case 2: { const char *w[] = {"abc", "--1", "+-1", ".", "-", "+", "e5", "-.", "1.2.3", "1,5", "12 3", "1e5e5", "x1", "$1", "0..1"}; return w[s.range(0, 14)]; }
        case 3: return numeral(s) + std::string(s.pick({"x", "abc", " 1", ",5", "-", "_", ".."}));
        default: return std::string(1, "abcdghjklmopqrstuvwxyz!?*"[s.range(0, 24)]) + numeral(s);
    }
}
template<class F, class Box> bool parsesTo(const std::string &t, F want, F &got, Box (*parse)(JString), F (*get)(const Box &)) {
    got = get(parse(J(t)));
    return sameF((double) got, (double) want);
}
double dget(const Double &d) { return d.doubleValue(); }
float fget(const Float &f) { return f.floatValue(); }
void run(Src &s) {
    int n = 0;
    do switch (s.weighted({4, 3, 4, 3, 2})) {
        case 0: {        // text -> nearest value
            std::string t = numberText(s);
            TRACE("parse " << show(t));
            double wd = strtod(t.c_str(), nullptr), d; float wf = strtof(t.c_str(), nullptr), f;
            CHECK(parsesTo(t, wd, d, &Double::parseDouble, &dget), "parseDouble(" << show(t) << ") = " << show(d) << ", nearest is " << show(wd));
            CHECK(sameF(Double::valueOf(J(t)).doubleValue(), wd), "Double.valueOf(" << show(t) << ")");
            CHECK(parsesTo(t, wf, f, &Float::parseFloat, &fget), "parseFloat(" << show(t) << ") = " << show(f) << ", nearest is " << show(wf));
            CHECK(sameF(Float::valueOf(J(t)).floatValue(), wf), "Float.valueOf(" << show(t) << ")");
            CHECK(sameF(Float(J(t)).floatValue(), wf), "Float(" << show(t) << ")");
            LABEL("parse number");
            if (t.size() > 3) markNontrivial();
            break;
        }
        case 1: {        // no number
            std::string t = garbage(s);
            TRACE("parse no number " << show(t));
            CHECK(throws<jl::NumberFormatException>([&] { Double::parseDouble(J(t)); }), "parseDouble accepted " << show(t));
            CHECK(throws<jl::NumberFormatException>([&] { Double::valueOf(J(t)); }), "Double.valueOf accepted " << show(t));
            CHECK(throws<jl::NumberFormatException>([&] { Float::parseFloat(J(t)); }), "parseFloat accepted " << show(t));
            CHECK(throws<jl::NumberFormatException>([&] { Float::valueOf(J(t)); }), "Float.valueOf accepted " << show(t));
            LABEL("rejected text"); markNontrivial();
            break;
        }
        case 2: {        // double: text, classes, order, bits
            double a = s.f64(), b = s.chance(1, 3) ? std::nextafter(a, s.flip() ? 1e308 : -1e308) : s.chance(1, 6) ? -a : s.f64();
            TRACE("double " << show(a) << " " << show(b));
            std::string t = S(Double(a).toString());
            double back = Double::parseDouble(J(t)).doubleValue();
            if (std::isnan(a) || std::isinf(a)) CHECK(sameF(back, a), "text " << t << " of " << show(a) << " parses to " << show(back));
            else CHECK(std::fabs(back - a) <= 0.5000001e-15 + (std::nextafter(std::fabs(a), INFINITY) - std::fabs(a)), "text " << t << " of " << show(a) << " parses to " << show(back));
            CHECK_EQ((bool) Double::isNaN(a), (bool) std::isnan(a), "isNaN"); CHECK_EQ((bool) Double::isInfinite(a), (bool) std::isinf(a), "isInfinite"); CHECK_EQ((bool) Double::isFinite(a), (bool) std::isfinite(a), "isFinite");
            CHECK_EQ(sgn(Double::compare(a, b)), order(a, b), "compare"); CHECK_EQ(sgn(Double(a).compareTo(Double(b))), order(a, b), "compareTo");
            CHECK_EQ((bool) Double(a).equals(Double(b)), order(a, b) == 0, "equals");
            CHECK_EQ(Double::doubleToLongBits(a), bitsOf(a), "doubleToLongBits " << show(a)); CHECK_EQ(Double::doubleToRawLongBits(a), bitsOf(a), "doubleToRawLongBits " << show(a));
            double w = Double::longBitsToDouble(Double::doubleToLongBits(a));
            CHECK(a == 0 ? w == 0 : sameF(w, a), "bits of " << show(a) << " give back " << show(w));
            CHECK_EQ(Double::hashCode(a), bitsOf(a) ^ (bitsOf(a) >> 32), "hashCode " << show(a));
            LABEL("double");
            if (!std::isnormal(a) || std::fabs(a) >= 2147483648.0 || std::fabs(a) < 1e-6) { LABEL("double: extreme"); markNontrivial(); }
            break;
        }
        case 3: {
            float a = s.f32(), b = s.chance(1, 3) ? std::nextafterf(a, s.flip() ? 3e38f : -3e38f) : s.chance(1, 6) ? -a : s.f32();
            TRACE("float " << show(a) << " " << show(b));
            std::string t = S(Float(a).toString());
            float back = Float::parseFloat(J(t)).floatValue();
            if (std::isnan(a) || std::isinf(a)) CHECK(sameF(back, a), "text " << t << " of " << show(a) << " parses to " << show(back));
            else CHECK(std::isinf(back) ? std::fabs(a) > 3.40282e38f : std::fabs((double) back - (double) a) <= 5.1e-6 * std::fabs((double) a) + 1.5e-45, "text " << t << " of " << show(a) << " parses to " << show(back));
            CHECK_EQ((bool) Float::isNaN(a), (bool) std::isnan(a), "isNaN"); CHECK_EQ((bool) Float::isInfinite(a), (bool) std::isinf(a), "isInfinite"); CHECK_EQ((bool) Float::isFinite(a), (bool) std::isfinite(a), "isFinite");
            CHECK_EQ(sgn(Float::compare(a, b)), order(a, b), "compare"); CHECK_EQ(sgn(Float(a).compareTo(Float(b))), order(a, b), "compareTo");
            CHECK_EQ((bool) Float(a).equals(Float(b)), order(a, b) == 0, "equals");
            CHECK_EQ(Float::floatToIntBits(a), bitsOf(a), "floatToIntBits " << show(a)); CHECK_EQ(Float::floatToRawIntBits(a), bitsOf(a), "floatToRawIntBits " << show(a));
            if (a >= 0) { float w = Float::intBitsToFloat(Float::floatToIntBits(a)); CHECK(a == 0 ? w == 0 : sameF(w, a), "bits of " << show(a) << " give back " << show(w)); }
            CHECK_EQ(Float::hashCode(a), bitsOf(a), "hashCode " << show(a));
            LABEL("float");
            if (!std::isnormal(a) || std::fabs(a) >= 2147483648.0f || std::fabs(a) < 1e-6f) { LABEL("float: extreme"); markNontrivial(); }
            break;
        }
        default: {        // bit pattern -> value
            long l = s.i64(); int i = s.i32();
            TRACE("bits " << l << " " << i);
            double d = Double::longBitsToDouble(l), w;
            uint64_t m = (l < 0 ? 0 - (uint64_t) l : (uint64_t) l) & 0x7fffffffffffffffULL;
            memcpy(&w, &m, 8);
            if (l < 0) w = -w;
            CHECK(w == 0 ? d == 0 : sameF(d, w), "longBitsToDouble " << l << " = " << show(d) << ", expected " << show(w));
            float f = Float::intBitsToFloat(i), g;
            memcpy(&g, &i, 4);
            CHECK(sameF(f, g), "intBitsToFloat " << i << " = " << show(f));
            LABEL("bit pattern");
            break;
        }
    } while (s.more() && ++n < 6);
}
}
PROPERTY(N05, run, 300, "a case parses generated numerals or non-numerals, or prints, compares and decomposes generated doubles and floats; non-trivial when a numeral is longer than 3 characters, a text is rejected, or a value is zero, subnormal, infinite, NaN, at least 2^31 or below 1e-6",
    {"float_bits_negative", [] { float f = Float::intBitsToFloat(Float::floatToIntBits(-1.5f)); CHECK(f == -1.5f, "intBitsToFloat(floatToIntBits(-1.5f)) is " << f); }})
