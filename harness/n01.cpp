// N01: integer <-> text conversions
#include "jv.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
namespace {
using jl::Integer; using jl::Long; using jl::Short; using jl::Bytes; using jl::NumberFormatException;
typedef __int128 wide;
const char *DIG = "0123456789abcdefghijklmnopqrstuvwxyz";

std::string numeral(wide v, int radix) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? (unsigned __int128) -v : (unsigned __int128) v;
    std::string s;
    do { s.push_back(DIG[(int) (u % (unsigned) radix)]); u /= (unsigned) radix; } while (u);
    if (neg) s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}
int digitOf(unsigned char c, int radix) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1;
    return d < radix ? d : -1;
}
// reference parser: [sign] digit+ of the radix, value within [lo, hi]
bool parse(const std::string &t, int radix, bool minusAllowed, wide lo, wide hi, wide &out) {
    size_t i = 0;
    bool neg = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) { neg = t[i] == '-'; ++i; if (neg && !minusAllowed) return false; }
    if (i == t.size()) return false;
    wide v = 0;
    bool big = false;
    for (; i < t.size(); ++i) {
        int d = digitOf((unsigned char) t[i], radix);
        if (d < 0) return false;
        if (!big) v = v * radix + d;
        if (v > ((wide) 1 << 100)) big = true;
    }
    if (neg) v = -v;
    if (big || v < lo || v > hi) return false;
    out = v;
    return true;
}
// reference decoder: [sign] (0x|0X|# hex | 0 octal | decimal)
bool decode(const std::string &t, wide lo, wide hi, wide &out, bool &ambiguous) {
    size_t i = 0;
    std::string sign;
    ambiguous = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) { sign = std::string(1, t[i]); ++i; }
    int radix = 10;
    if (t.compare(i, 2, "0x") == 0 || t.compare(i, 2, "0X") == 0) { radix = 16; i += 2; }
    else if (i < t.size() && t[i] == '#') { radix = 16; i += 1; ambiguous = true; }       // Java's '#' form: not named in Integer's documentation
    else if (t.size() - i > 1 && t[i] == '0') { radix = 8; i += 1; }
    std::string rest = t.substr(i);
    if (rest.empty() || rest[0] == '+' || rest[0] == '-') return false;
    return parse(sign + rest, radix, true, lo, hi, out);
}
int radixOf(Src &s) {
    switch (s.weighted({4, 3, 2, 2, 3})) {
        case 0: return 10;
        case 1: return 16;
        case 2: return 2;
        case 3: return 8;
        default: return (int) s.range(2, 32);
    }
}
std::string upper(Src &s, std::string t) {
    int how = (int) s.range(0, 3);
    for (char &c : t) if (c >= 'a' && c <= 'z' && (how == 1 || (how == 2 && s.flip()))) c = (char) (c - 32);
    return t;
}
// a candidate text: a numeral near a limit or not, possibly damaged
std::string candidate(Src &s, int radix, int bits, bool &damaged) {
    wide v;
    switch (s.weighted({5, 2, 2})) {
        case 0: v = (wide) s.i64(); if (bits < 64 && s.chance(3, 4)) v = (wide) ((int64_t) v >> (64 - bits)); break;
        case 1: { int b = s.pick({7, 8, 15, 16, 31, 32, 63, 64, 65}); v = ((wide) 1 << b) + s.range(0, 4) - 2; if (s.flip()) v = -v; break; }
        default: v = (wide) s.u64() * (wide) s.range(1, 40); if (s.flip()) v = -v; break;
    }
    std::string t = upper(s, numeral(v, radix));
    bool neg = t[0] == '-';
    std::string body = neg ? t.substr(1) : t;
    if (s.chance(1, 4)) body = std::string((size_t) s.range(0, 70), '0') + body;
    if (neg) t = "-" + body; else t = (s.chance(1, 5) ? "+" : "") + body;
    damaged = false;
    if (s.chance(2, 5)) {
        damaged = true;
        int n = (int) s.range(1, 2);
        for (int i = 0; i < n; ++i) {
            size_t at = (size_t) s.range(0, (int64_t) t.size());
            switch (s.weighted({5, 2, 2, 2, 2, 2, 2})) {
                case 0: t.insert(at, 1, s.pick({' ', '\t', '\n', '-', '+', '.', 'g', 'x', 'z', 'G', '/', ':', '@', '`', '0', '_', ',', (char) 0, (char) 0x80, (char) 0xb2})); break;
                case 1: t.insert(0, s.pick({"0x", "0X", "#", "0", "-", "+", " ", "--", "+-", "-+", "0b"})); break;
                case 2: if (at < t.size()) t.erase(at, 1); break;
                case 3: t += s.pick({" ", "L", "l", "x", "-", "\n", "0", "h", "f"}); break;
                case 4: t.clear(); break;
                case 5: if (at < t.size()) t[at] = (char) s.u8(); break;
                default: t = t.substr(0, (size_t) s.range(0, 2)); break;
            }
        }
    }
    return t;
}
template<class F>
void expect(const char *what, const std::string &t, int radix, bool ok, wide want, bool sentinel, F f) {
    TRACE(what << "(" << show(t) << ", radix " << radix << ") -> " << (ok ? numeral(want, 10) : std::string("rejected")));
    wide got = 0;
    bool rejected = false;
    try { got = (wide) f(); } catch (const NumberFormatException &) { rejected = true; }
    if (ok) {
        LABEL("parse: accepted");
        CHECK(!rejected, what << " rejected " << show(t) << " radix " << radix);
        CHECK(got == want, what << "(" << show(t) << ", " << radix << ") = " << numeral(got, 10) << ", expected " << numeral(want, 10));
    } else {
        LABEL("parse: rejected");
        if (!rejected && sentinel && got == -1 && known("long_parse_minus1")) { LABEL("known: long_parse_minus1"); return; }
        CHECK(rejected, what << " accepted " << show(t) << " radix " << radix << " as " << numeral(got, 10));
    }
}
const wide IMIN = INT32_MIN, IMAX = INT32_MAX, LMIN = INT64_MIN, LMAX = INT64_MAX;

void printInt(int32_t v, int radix) {
    wide u = (uint32_t) v;
    TRACE("print int " << v << " radix " << radix);
    CHECK_EQ(S(Integer(v).toString()), numeral(v, 10), "Integer.toString()");
    CHECK_EQ(S(Integer::toString(v)), numeral(v, 10), "Integer::toString(int)");
    CHECK_EQ(S(Integer::valueOf(v).toString()), numeral(v, 10), "Integer::valueOf(int)");
    CHECK_EQ(S(Integer::toBinaryString(v)), numeral(u, 2), "toBinaryString " << v);
    CHECK_EQ(S(Integer::toOctalString(v)), numeral(u, 8), "toOctalString " << v);
    CHECK_EQ(S(Integer::toHexString(v)), numeral(u, 16), "toHexString " << v);
    CHECK_EQ(S(Integer::toUnsignedString(v)), numeral(u, 10), "toUnsignedString " << v);
    CHECK(Integer::toUnsignedLong(v) == (long) (uint32_t) v, "toUnsignedLong " << v);
    if (radix == 2 || radix == 8 || radix == 10 || radix == 16 || radix < 2 || radix > 32) {
        int r = radix < 2 || radix > 32 ? 10 : radix;                  // documented: other radices print decimal
        CHECK_EQ(S(Integer::toString(v, radix)), numeral(v, r), "toString " << v << " radix " << radix);
        CHECK_EQ(S(Integer::toUnsignedString(v, radix)), numeral(u, r), "toUnsignedString " << v << " radix " << radix);
    } else {
        // documented as not supported; zero is the same numeral in every radix
        try { JString g = Integer::toString(v, radix); CHECK_EQ(S(g), numeral(v, radix), "toString " << v << " radix " << radix); }
        catch (const jl::UnsupportedOperationException &) {}
        try { JString g = Integer::toUnsignedString(v, radix); CHECK_EQ(S(g), numeral(u, radix), "toUnsignedString " << v << " radix " << radix); }
        catch (const jl::UnsupportedOperationException &) {}
    }
    // round trips
    CHECK_EQ(Integer::parseInt(Integer::toString(v)), v, "round trip");
    CHECK_EQ(Integer::decode(Integer::toString(v)).intValue(), v, "decode(toString)");
    CHECK_EQ(Integer::parseUnsignedInt(Integer::toHexString(v), 16), v, "unsigned round trip");
    CHECK_EQ(Integer(Integer::toString(v)).intValue(), v, "Integer(String)");
}
void printLong(int64_t v) {
    wide u = (uint64_t) v;
    TRACE("print long " << v);
    CHECK_EQ(S(Long(v).toString()), numeral(v, 10), "Long.toString()");
    CHECK_EQ(S(Long::toString(v)), numeral(v, 10), "Long::toString(long)");
    CHECK_EQ(S(Long::valueOf((long) v).toString()), numeral(v, 10), "Long::valueOf(long)");
    CHECK_EQ(S(Long::toBinaryString(v)), numeral(u, 2), "toBinaryString " << v);
    CHECK_EQ(S(Long::toOctalString(v)), numeral(u, 8), "toOctalString " << v);
    CHECK_EQ(S(Long::toHexString(v)), numeral(u, 16), "toHexString " << v);
    CHECK_EQ((int64_t) Long::parseLong(Long::toString(v)), v, "round trip");
    CHECK_EQ((int64_t) Long::decode(Long::toString(v)).longValue(), v, "decode(toString)");
}
void run(Src &s) {
    int n = 0;
    while (s.more() && n++ < 6) {
        int radix = radixOf(s);
        wide want = 0;
        bool dmg = false, amb = false;
        switch (s.weighted({4, 4, 2, 6, 4, 5, 6, 5, 4, 4})) {
            case 0: printInt(s.i32(), s.chance(1, 6) ? (int) s.range(-3, 70) : radix); LABEL("print int"); markNontrivial(); break;
            case 1: printLong(s.i64()); LABEL("print long"); markNontrivial(); break;
            case 2: {
                int16_t v = s.integer<int16_t>();
                TRACE("print short/byte " << v);
                CHECK_EQ(S(Short(v).toString()), numeral(v, 10), "Short.toString");
                CHECK_EQ((int) Short::parseShort(Short(v).toString()).shortValue(), (int) v, "short round trip");
                unsigned char b = (unsigned char) v;
                CHECK_EQ(S(Bytes(b).toString()), numeral(b, 10), "Bytes.toString");
                CHECK_EQ(S(Bytes::toString(b)), numeral(b, 10), "Bytes::toString");
                CHECK_EQ((int) Bytes::parseBytes(Bytes::toString(b)), (int) b, "byte round trip");
                CHECK_EQ((int) Bytes::valueOf(b).byteValue(), (int) b, "Bytes::valueOf");
                LABEL("print short/byte"); markNontrivial();
                break;
            }
            case 3: {
                std::string t = candidate(s, radix, 32, dmg);
                bool ok = parse(t, radix, true, IMIN, IMAX, want);
                if (dmg || !ok) markNontrivial();
                int how = radix == 10 ? (int) s.range(0, 4) : (int) s.range(0, 1);
                switch (how) {
                    case 0: expect("Integer::parseInt", t, radix, ok, want, false, [&] { return Integer::parseInt(J(t), radix); }); break;
                    case 1: expect("Integer::valueOf(text,radix)", t, radix, ok, want, false, [&] { return Integer::valueOf(J(t), radix).intValue(); }); break;
                    case 2: expect("Integer::parseInt(text)", t, radix, ok, want, false, [&] { return Integer::parseInt(J(t)); }); break;
                    case 3: expect("Integer::valueOf(text)", t, radix, ok, want, false, [&] { return Integer::valueOf(J(t)).intValue(); }); break;
                    default: expect("Integer(text)", t, radix, ok, want, false, [&] { return Integer(J(t)).intValue(); }); break;
                }
                break;
            }
            case 4: {
                std::string t = candidate(s, radix, 33, dmg);
                bool ok = parse(t, radix, false, 0, (wide) UINT32_MAX, want);
                if (dmg || !ok) markNontrivial();
                if (radix == 10 && s.flip())
                    expect("Integer::parseUnsignedInt(text)", t, radix, ok, want, false, [&] { return (wide) (uint32_t) Integer::parseUnsignedInt(J(t)); });
                else
                    expect("Integer::parseUnsignedInt", t, radix, ok, want, false, [&] { return (wide) (uint32_t) Integer::parseUnsignedInt(J(t), radix); });
                break;
            }
            case 5: case 8: {
                int r = s.pick({10, 16, 8});
                std::string t = candidate(s, r, 32, dmg);
                if (r != 10 && s.chance(4, 5)) {
                    size_t at = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
                    t.insert(at, r == 16 ? s.pick({"0x", "0X", "0x", "#"}) : "0");
                }
                bool ok = decode(t, IMIN, IMAX, want, amb);
                markNontrivial();
                if (amb) { throwsAny([&] { Integer::decode(J(t)); }); LABEL("decode: # form (unclaimed)"); break; }
                if (s.chance(1, 4) ) {
                    bool okb = ok && want >= 0 && want <= 255;
                    expect("Bytes::decode", t, 0, okb, want, false, [&] { return Bytes::decode(J(t)).intValue(); });
                } else expect("Integer::decode", t, 0, ok, want, false, [&] { return Integer::decode(J(t)).intValue(); });
                break;
            }
            case 6: {
                std::string t = candidate(s, radix, 64, dmg);
                bool ok = parse(t, radix, true, LMIN, LMAX, want);
                if (dmg || !ok) markNontrivial();
                switch (radix == 10 ? s.range(0, 3) : s.range(0, 1)) {
                    case 0: expect("Long::parseLong", t, radix, ok, want, true, [&] { return Long::parseLong(J(t), radix); }); break;
                    case 1: expect("Long::valueOf(text,radix)", t, radix, ok, want, true, [&] { return Long::valueOf(J(t), radix).longValue(); }); break;
                    case 2: expect("Long::valueOf(text)", t, radix, ok, want, true, [&] { return Long::valueOf(J(t)).longValue(); }); break;
                    default: expect("Long::parseLong(text)", t, radix, ok, want, true, [&] { return Long::parseLong(J(t)); }); break;
                }
                break;
            }
            case 7: {
                int r = s.pick({10, 16, 8});
                std::string t = candidate(s, r, 64, dmg);
                if (r != 10 && s.chance(4, 5)) {
                    size_t at = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
                    t.insert(at, r == 16 ? s.pick({"0x", "0X", "0x", "#"}) : "0");
                }
                bool ok = decode(t, LMIN, LMAX, want, amb);
                markNontrivial();
                expect("Long::decode", t, 0, ok, want, true, [&] { return Long::decode(J(t)).longValue(); });
                break;
            }
            default: {
                std::string t = candidate(s, radix, s.flip() ? 16 : 8, dmg);
                if (s.flip()) {
                    bool ok = parse(t, 10, true, INT16_MIN, INT16_MAX, want);
                    expect("Short::parseShort", t, 10, ok, want, false, [&] { return Short::parseShort(J(t)).shortValue(); });
                } else {
                    bool ok = parse(t, radix, true, 0, 255, want);
                    switch (s.range(0, 3)) {
                        case 2: ok = parse(t, 10, true, 0, 255, want);
                            expect("Bytes::valueOf(text)", t, 10, ok, want, false, [&] { return (int) Bytes::valueOf(J(t)).byteValue(); }); break;
                        case 0: expect("Bytes::parseBytes", t, radix, ok, want, false, [&] { return (int) Bytes::parseBytes(J(t), radix); }); break;
                        case 1: expect("Bytes::valueOf(text,radix)", t, radix, ok, want, false, [&] { return (int) Bytes::valueOf(J(t), radix).byteValue(); }); break;
                        default: ok = parse(t, 10, true, 0, 255, want);
                            expect("Bytes(text)", t, 10, ok, want, false, [&] { return (int) Bytes(J(t)).byteValue(); }); break;
                    }
                }
                if (dmg) markNontrivial();
                break;
            }
        }
        // radices outside the supported range are rejected for every text
        if (s.chance(1, 16)) {
            int bad = s.pick({0, 1, -1, 33, 34, 36, 37, 1000, -16, INT32_MIN, INT32_MAX});
            std::string t = numeral(s.i32(), 10);
            TRACE("bad radix " << bad << " text " << t);
            CHECK(throws<NumberFormatException>([&] { Integer::parseInt(J(t), bad); }), "parseInt radix " << bad);
            CHECK(throws<NumberFormatException>([&] { Integer::parseUnsignedInt(J(t), bad); }), "parseUnsignedInt radix " << bad);
            CHECK(throws<NumberFormatException>([&] { Bytes::parseBytes(J(t), bad); }), "parseBytes radix " << bad);
            if (bad < 2 || bad > 36) expect("Long::parseLong", t, bad, false, 0, true, [&] { return Long::parseLong(J(t), bad); });
            LABEL("bad radix");
        }
    }
}
}
PROPERTY(N01, run, 300, "a case prints, parses and decodes up to 6 numbers/texts across the integer wrappers; non-trivial when it prints a value in every form, decodes, or parses a damaged/out-of-range text",
    {"long_parse_minus1", [] {
        CHECK(throws<jl::NumberFormatException>([] { jl::Long::parseLong("12z"); }), "Long::parseLong(\"12z\") does not throw");
    }})
