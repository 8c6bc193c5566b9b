// N07: Character digit values, ordering and code point access
#include "jv.hpp"
#include "library/Java/Lang/Character/Character.hpp"
namespace {
using jl::Character;
int digitOf(long c, int radix) {
    if (radix < 2 || radix > 36) return -1;
    int d = c >= '0' && c <= '9' ? (int) c - '0' : c >= 'a' && c <= 'z' ? (int) c - 'a' + 10 : c >= 'A' && c <= 'Z' ? (int) c - 'A' + 10 : -1;
    return d < radix ? d : -1;
}
// documented answer for a bad position: -1; an exception is as good a rejection
template<class F> bool rejected(F f) {
    try { return f() == -1; } catch (const Failure &) { throw; } catch (...) { return true; }
}
int pos(Src &s, int len) { return s.chance(1, 8) ? s.i32() : (int) s.range(-2, len + 2); }
void run(Src &s) {
    int n = 0;
    do switch (s.weighted({4, 2, 3})) {
        case 0: {
            int radix = s.chance(1, 6) ? s.i32() : (int) s.range(0, 38);
            int from = s.chance(1, 4) ? s.i32() : (int) s.range(-2, 300);
            TRACE("digit radix " << radix << " code points " << from << "..+" << 40);
            for (int k = 0; k < 40; ++k) {
                int c = (int) ((uint32_t) from + (uint32_t) k);
                CHECK_EQ(Character::digit(c, radix), digitOf(c, radix), "digit(" << c << ", " << radix << ")");
            }
            LABEL("digit");
            if (radix >= 2 && radix <= 36 && from < 128 && from > -40) markNontrivial();
            Character any;
            int cp = s.chance(1, 2) ? 0x10000 + (int) s.range(-3, 3) : (int) s.range(0, 0x10ffff);
            CHECK_EQ(any.charCount(cp), cp >= 0x10000 ? 2 : 1, "charCount " << cp);
            break;
        }
        case 1: {
            char a = (char) s.u8(), b = s.chance(1, 4) ? a : (char) s.u8();
            TRACE("compare " << show(a) << " " << show(b));
            Character x(a), y(b), z(x);
            CHECK_EQ(x.charValue(), a, "charValue");
            CHECK_EQ(z.charValue(), a, "copy");
            int c = Character::compare(a, b), d = Character::compare(b, a), e = x.compareTo(y);
            // plain char order (signed on this platform) or Java's unsigned order are the only consistent answers
            CHECK((c == 0) == (a == b) && (c > 0) == (d < 0) && (c < 0) == (d > 0), "compare " << show(a) << " " << show(b) << ": " << c << "/" << d);
            if (a >= 0 && b >= 0) CHECK((c < 0) == (a < b), "compare " << show(a) << " " << show(b) << ": " << c);
            CHECK((e < 0) == (c < 0) && (e > 0) == (c > 0), "compareTo differs from compare");
            z = y;
            CHECK_EQ(z.charValue(), b, "assignment");
            Character none;
            CHECK_EQ(none.charValue(), '\0', "default");
            LABEL("compare");
            if (a < 0 || b < 0) markNontrivial();
            break;
        }
        default: {
            std::string t = s.text(40, (int) s.range(0, 2));
            Array<char> arr;
            for (char c : t) arr.push(c);
            int len = (int) t.size();
            for (int k = 0; k < 4; ++k) {
                int i = pos(s, len), lim = s.flip() ? len : pos(s, len);
                TRACE("code points of " << show(t) << " index " << i << " limit/start/count " << lim);
                if (i >= 0 && i < len) CHECK_EQ(Character::codePointAt(arr, i), (int) t[(size_t) i], "codePointAt " << i);
                else CHECK(rejected([&] { return Character::codePointAt(arr, i); }), "codePointAt accepted index " << i);
                if (i >= 0 && i < lim && lim <= len) CHECK_EQ(Character::codePointAt(arr, i, lim), (int) t[(size_t) i], "codePointAt " << i << " limit " << lim);
                else { CHECK(rejected([&] { return Character::codePointAt(arr, i, lim); }), "codePointAt accepted " << i << " limit " << lim); LABEL("rejected position"); markNontrivial(); }
                if (i > 0 && i <= len) CHECK_EQ(Character::codePointBefore(arr, i), (int) t[(size_t) i - 1], "codePointBefore " << i);
                else CHECK(rejected([&] { return Character::codePointBefore(arr, i); }), "codePointBefore accepted index " << i);
                if (lim >= 0 && lim < i && i <= len && lim < len) CHECK_EQ(Character::codePointBefore(arr, i, lim), (int) t[(size_t) i - 1], "codePointBefore " << i << " start " << lim);
                else CHECK(rejected([&] { return Character::codePointBefore(arr, i, lim); }), "codePointBefore accepted " << i << " start " << lim);
                if (i >= 0 && lim >= 0 && (long) i + lim <= len) CHECK_EQ(Character::codePointCount(arr, i, lim), lim, "codePointCount from " << i);
                else CHECK(rejected([&] { return Character::codePointCount(arr, i, lim); }), "codePointCount accepted offset " << i << " count " << lim);
            }
            LABEL("code points");
            break;
        }
    } while (s.more() && ++n < 5);
}
}
PROPERTY(N07, run, 200, "a case evaluates digit on 40 code points of one radix, compares characters, or addresses code points of an array by up to 4 positions; non-trivial when the code points are ASCII and the radix valid, a character is above 127, or a position is outside the array",
    {"surrogates", [] { CHECK(Character::isHighSurrogate((unicode) 0xD800), "isHighSurrogate(0xD800) is false"); }})
