// T04: String::format against snprintf, conversion by conversion
#include "jv.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
namespace {
typedef std::string B;
enum K { SHORT, INT, LONG, LLONG, USHORT, UINT, ULONG, FLOAT, DOUBLE, STR, CSTR, BOOL, OBOOL, OSHORT, OINT, OLONG, OFLOAT, ODOUBLE, OSTRING, NK };
struct Arg { K k; int64_t i; double d; B s; };
bool isInt(K k) { return k <= ULONG || k == OSHORT || k == OINT || k == OLONG; }
bool isFlt(K k) { return k == FLOAT || k == DOUBLE || k == OFLOAT || k == ODOUBLE; }
bool isStr(K k) { return k == STR || k == CSTR || k == OSTRING; }
bool isBool(K k) { return k == BOOL || k == OBOOL; }

template<class T> B prt(const B &f, T v) {
    int n = snprintf(nullptr, 0, f.c_str(), v);
    if (n <= 0) return B();
    std::vector<char> b((size_t) n + 1);
    snprintf(b.data(), b.size(), f.c_str(), v);
    return B(b.data(), (size_t) n);
}
struct Conv { B head; B ls; char c; };   // %head ls c
bool matched(const Conv &v, K k) {
    if (isInt(k)) return strchr("diuoxXc", v.c) != nullptr || v.c == 's';
    if (isFlt(k)) return strchr("fFeEgGaA", v.c) != nullptr;
    if (isStr(k)) return v.c == 's';
    return v.c == 'b' || v.c == 'B' || v.c == 's';
}
B expect(const Conv &v, const Arg &a) {
    B h = "%" + v.head;
    if (isInt(a.k)) {
        if (v.c == 's') {
            B t;
            switch (a.k) { case USHORT: t = std::to_string((unsigned short) a.i); break; case UINT: t = std::to_string((unsigned) a.i); break; case ULONG: t = std::to_string((unsigned long) a.i); break;
                case LONG: case LLONG: case OLONG: t = std::to_string((long) a.i); break; case SHORT: case OSHORT: t = std::to_string((short) a.i); break; default: t = std::to_string((int) a.i); }
            return prt(h + "s", t.c_str());
        }
        if (v.c == 'c') return prt(h + "c", (int) a.i);
        switch (a.k) {
            case SHORT: case OSHORT: return prt(h + v.c, (int) (short) a.i);
            case INT: case OINT: return prt(h + v.c, (int) a.i);
            case USHORT: return prt(h + v.c, (int) (unsigned short) a.i);
            case UINT: return prt(h + v.c, (unsigned) a.i);
            case ULONG: return prt(h + "l" + v.c, (unsigned long) a.i);
            default: return prt(h + "l" + v.c, (long) a.i);
        }
    }
    if (isFlt(a.k)) return prt(h + v.c, a.k == FLOAT || a.k == OFLOAT ? (double) (float) a.d : a.d);
    if (isStr(a.k)) return prt(h + "s", a.s.c_str());
    const char *t = a.i & 1 ? (v.c == 'B' ? "TRUE" : "true") : (v.c == 'B' ? "FALSE" : "false");
    return prt(h + "s", t);
}
// calls with the first argument of any type; the second of a few types; the rest fixed
template<class... R> JString call1(const JString &f, const Arg &a, R... r) {
    switch (a.k) {
        case SHORT: return JString::format(f, (short) a.i, r...);
        case INT: return JString::format(f, (int) a.i, r...);
        case LONG: return JString::format(f, (long) a.i, r...);
        case LLONG: return JString::format(f, (long long) a.i, r...);
        case USHORT: return JString::format(f, (unsigned short) a.i, r...);
        case UINT: return JString::format(f, (unsigned) a.i, r...);
        case ULONG: return JString::format(f, (unsigned long) a.i, r...);
        case FLOAT: return JString::format(f, (float) a.d, r...);
        case DOUBLE: return JString::format(f, a.d, r...);
        case STR: return JString::format(f, (char *) a.s.c_str(), r...);
        case CSTR: return JString::format(f, (const char *) a.s.c_str(), r...);
        case BOOL: return JString::format(f, (bool) (a.i & 1), r...);
        case OBOOL: return JString::format(f, Boolean((bool) (a.i & 1)), r...);
        case OSHORT: return JString::format(f, Short((short) a.i), r...);
        case OINT: return JString::format(f, Integer((int) a.i), r...);
        case OLONG: return JString::format(f, Long((long) a.i), r...);
        case OFLOAT: return JString::format(f, Float((float) a.d), r...);
        case ODOUBLE: return JString::format(f, Double(a.d), r...);
        default: return JString::format(f, J(a.s), r...);
    }
}
template<class... R> JString call2(const JString &f, const Arg &a, const Arg &b, R... r) {
    switch (b.k) {
        case LONG: return call1(f, a, (long) b.i, r...);
        case DOUBLE: return call1(f, a, b.d, r...);
        case BOOL: return call1(f, a, (bool) (b.i & 1), r...);
        case OSTRING: return call1(f, a, J(b.s), r...);
        default: return call1(f, a, (int) b.i, r...);
    }
}
Arg arg(Src &s, bool second, bool third) {
    Arg a;
    a.k = third ? STR : second ? s.pick<K>({INT, LONG, DOUBLE, BOOL, OSTRING}) : (K) s.range(0, NK - 1);
    a.i = 0;
    a.d = 0;
    if (isInt(a.k)) a.i = s.i64();
    else if (isBool(a.k)) a.i = s.flip();
    else if (isFlt(a.k)) { a.d = s.f64(); if (a.k == FLOAT || a.k == OFLOAT) a.d = (double) (float) a.d; }
    else { a.s = s.text(300, s.flip() ? 2 : s.flip() ? 5 : 3); longText(s, a.s, 66000, 3); }
    return a;
}
Conv conv(Src &s, K k) {
    Conv v;
    static const char fl[] = "-#+0 ";
    for (int i = 0; i < 5; ++i) if (s.chance(1, 5)) v.head += fl[i];
    if (s.chance(1, 2)) { int w = s.chance(1, 5) ? (int) s.range(1, 400) : (int) s.range(1, 12); v.head += std::to_string(w); }
    if (s.chance(1, 3)) v.head += "." + std::to_string(s.chance(1, 6) ? (int) s.range(0, 300) : (int) s.range(0, 12));
    if (isInt(k)) v.c = s.pick<char>({'d', 'd', 'i', 'u', 'o', 'x', 'X', 'c', 's'});
    else if (isFlt(k)) v.c = s.pick<char>({'f', 'e', 'g', 'F', 'E', 'G', 'a', 'A'});
    else if (isStr(k)) v.c = 's';
    else v.c = s.pick<char>({'b', 'B', 's'});
    if (isInt(k) && v.c != 's') for (int n = (int) s.weighted({6, 3, 2}); n > 0; --n) v.ls += 'l';
    return v;
}
// literal text: anything but NUL and a percent sign that starts a conversion
void literal(Src &s, B &fmt, B &out) {
    for (int n = (int) s.range(0, 3); n > 0; --n) {
        switch (s.weighted({6, 3, 2, 1})) {
            case 0: { B t = s.text(12, s.flip() ? 2 : s.flip() ? 5 : 3); longText(s, t, 9000, 3); B u; for (char c : t) if (c != '%') u += c; fmt += u; out += u; break; }
            case 1: fmt += "%%"; out += "%"; break;
            case 2: { B t = B("%") + s.pick<char>({'D', 'S', 'y', 'k', '!', 'Z'}); fmt += t; out += t; LABEL("unknown conversion kept"); break; }
            default: fmt += "%n"; out += "\n"; LABEL("newline conversion");
        }
    }
}
void run(Src &s) {
    if (s.chance(1, 8)) { valueOfNumbers(s); LABEL("number to text"); markNontrivial(); return; }
    int n = (int) s.range(0, 3), supplied = n;
    bool extra = n < 3 && s.chance(1, 8), missing = !extra && n > 0 && s.chance(1, 8), mismatch = n > 0 && s.chance(1, 8);
    std::vector<Arg> a;
    B fmt, want;
    literal(s, fmt, want);
    B pre = want;
    for (int i = 0; i < n; ++i) {
        a.push_back(arg(s, i == 1, i == 2));
        Conv v = conv(s, a.back().k);
        if (mismatch && i == 0) v.c = s.pick<char>({'d', 'x', 'c', 's', 'f', 'e', 'p', 'b', 'n'});
        fmt += "%" + v.head + v.ls + v.c;
        if (mismatch && i == 0 && v.c == 'n') { mismatch = false; missing = false; return; }
        if (mismatch && i == 0 && matched(v, a.back().k)) mismatch = false;
        B t = mismatch && i == 0 ? B() : expect(v, a.back());
        if (t.size() >= 128) LABEL("result piece of 128+ characters");
        want += t;
        literal(s, fmt, want);
    }
    if (extra) { a.push_back(arg(s, n == 1, n == 2)); ++supplied; }
    if (missing) { a.pop_back(); --supplied; extra = false; }
    TRACE("format " << show(fmt));
    for (Arg &x : a) TRACE("  arg kind " << x.k << " int " << x.i << " double " << x.d << " text " << show(x.s));
    JString f = J(fmt);
    auto go = [&]() -> JString {
        switch (supplied) {
            case 0: return JString::format(f);
            case 1: return call1(f, a[0]);
            case 2: return call2(f, a[0], a[1]);
            default: return call2(f, a[0], a[1], (char *) a[2].s.c_str());
        }
    };
    if (missing) {
        LABEL("missing argument");
        CHECK(throwsAny(go), "too few arguments accepted for " << show(fmt));
        return;
    }
    JString r = go();
    if (mismatch) {
        LABEL("mismatched argument");
        B g = S(r);
        CHECK(g.size() >= pre.size() && g.compare(0, pre.size(), pre) == 0, "text before the mismatched conversion: " << show(g));
        return;
    }
    CHECK_EQ(S(r), want, "format " << show(fmt));
    CHECK_EQ(S(f), fmt, "the format changed");
    if (n >= 1 && want.size() >= 4) markNontrivial();
}
}
PROPERTY(T04, run, 768, "a case is a pattern of literals, escapes and up to 3 conversions with flags, width and precision and arguments of 19 types, or (1 in 8) a number of each primitive type turned into text; non-trivial: at least one conversion and a result of 4+ characters")
