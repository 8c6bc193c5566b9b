// helpers shared by the harnesses: library includes and conversions
#ifndef VERIF_JV_HPP
#define VERIF_JV_HPP
#include "pbt.hpp"
#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace pbt;
namespace jl = Java::Lang;
namespace ju = Java::Util;
typedef Java::Lang::String JString;
inline std::string S(const JString &s) { return std::string(s.toString().toCharPointer(), (size_t) s.length()); }
inline JString J(const std::string &s) { return JString(s.c_str(), (int) s.size()); }
// rarely, a number of elements with which a history begins: some hundreds, or past 65536
inline long manyElements(Src &s) {
    if (s.chance(1, 80)) { heavy(); LABEL("hundreds of elements"); return (long) s.range(250, 1200); }
    if (s.chance(1, 4000)) { heavy(); LABEL("past 65536 elements"); return 65500 + (long) s.range(0, 3000); }
    return 0;
}
inline int stepsAfter(long many, int most) { return many > 60000 ? 4 : most; }
inline void nth(long k, int &o) { o = (int) k; }
inline void nth(long k, long &o) { o = (k << 20) - 7; }
inline void nth(long k, char &o) { o = (char) (k * 31); }
inline void nth(long k, std::string &o) { o = "k" + std::to_string(k); }
// rarely, a long text: of a length at or beside a power of two, made of a repeated part with a few changes
inline bool longText(Src &s, std::string &o, long most = 66000, int kind = -1) {
    if (!s.chance(1, 400)) return false;
    long n = s.chance(1, 4) ? (long) s.range(100, 9000) : (1L << s.range(7, s.chance(1, 5) ? 16 : 12)) + (long) s.range(-2, 2);
    if (n > most) n = most - (long) s.range(0, 3);
    heavy(); LABEL(n > 32000 ? "text past 32000 bytes" : n > 1000 ? "text past 1000 bytes" : "text past 100 bytes");
    std::string part = s.text(40, kind); if (part.empty()) part = "x";
    o.clear(); while ((long) o.size() < n) o += part;
    if (s.chance(3, 4) || (long) o.size() > most) o.resize((size_t) n);   // else it ends with a whole part
    for (int k = (int) s.range(0, 4); k > 0; --k) { std::string c = s.text(3, kind); o.replace((size_t) s.range(0, (int64_t) o.size() - (int64_t) c.size()), c.size(), c); }
    return true;
}
// text of a number of any primitive type: decimal; float with up to 6 significant digits, double with 15 decimals
inline void valueOfNumbers(Src &s) {
    auto prt = [](const char *f, double d) { std::string b(2048, '\0'); b.resize((size_t) snprintf(&b[0], b.size(), f, d)); return b; };
    int64_t v = s.i64(); double d = s.f64(); float f = s.flip() ? (float) d : s.f32();
    TRACE("text of " << v << ", " << d << " and " << f);
    CHECK_EQ(S(JString::valueOf((long) v)), std::to_string((long) v), "valueOf(long)");
    CHECK_EQ(S(JString::valueOf((long long) v)), std::to_string((long long) v), "valueOf(long long)");
    CHECK_EQ(S(JString::valueOf((int) v)), std::to_string((int) v), "valueOf(int)");
    CHECK_EQ(S(JString::valueOf((short) v)), std::to_string((short) v), "valueOf(short)");
    std::string td = S(JString::valueOf(d)), tf = S(JString::valueOf(f));
    if (d != d) CHECK(td == "nan" || td == "-nan", "valueOf(NaN) = " << show(td)); else CHECK_EQ(td, prt("%.15f", d), "valueOf(double)");
    if (f != f) CHECK(tf == "nan" || tf == "-nan", "valueOf(float NaN) = " << show(tf)); else CHECK_EQ(tf, prt("%g", (double) f), "valueOf(float)");
    if (td.size() > 100) LABEL("text of a double of 100+ characters");
}
#endif
