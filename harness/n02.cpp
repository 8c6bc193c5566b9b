// N02: bit-level operations of Integer and Long against bit-by-bit definitions
#include "jv.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
namespace {
using jl::Integer; using jl::Long;
template<class U> struct Bits {
    enum { N = sizeof(U) * 8 };
    static int count(U v) { int n = 0; for (int i = 0; i < N; ++i) n += (int) ((v >> i) & 1); return n; }
    static int lead(U v) { int n = 0; for (int i = N - 1; i >= 0 && !((v >> i) & 1); --i) ++n; return n; }
    static int trail(U v) { int n = 0; for (int i = 0; i < N && !((v >> i) & 1); ++i) ++n; return n; }
    static U high(U v) { int l = lead(v); return l == N ? 0 : (U) ((U) 1 << (N - 1 - l)); }
    static U low(U v) { int t = trail(v); return t == N ? 0 : (U) ((U) 1 << t); }
    static U rotl(U v, int d) { U r = 0; for (int i = 0; i < N; ++i) if ((v >> i) & 1) r |= (U) 1 << (((i + (long) d) % N + N) % N); return r; }
    static U rev(U v) { U r = 0; for (int i = 0; i < N; ++i) if ((v >> i) & 1) r |= (U) 1 << (N - 1 - i); return r; }
    static U revb(U v) { U r = 0; for (int i = 0; i < N / 8; ++i) r |= (U) ((v >> (8 * i)) & 0xff) << (N - 8 - 8 * i); return r; }
};
int sgn(long long a, long long b) { return a < b ? -1 : a > b ? 1 : 0; }
void ints(Src &s) {
    typedef Bits<uint32_t> B;
    int v = s.i32(), w = s.chance(1, 4) ? v : s.i32(), d = s.chance(1, 2) ? (int) s.range(-70, 70) : s.i32();
    uint32_t u = (uint32_t) v, x = (uint32_t) w;
    TRACE("int v=" << v << " w=" << w << " distance=" << d);
    CHECK_EQ(Integer::bitCount(v), B::count(u), "bitCount " << v);
    CHECK_EQ(Integer::numberOfLeadingZeros(v), B::lead(u), "numberOfLeadingZeros " << v);
    CHECK_EQ(Integer::numberOfTrailingZeros(v), B::trail(u), "numberOfTrailingZeros " << v);
    CHECK_EQ(Integer::highestOneBit(v), (int) B::high(u), "highestOneBit " << v);
    CHECK_EQ(Integer::lowestOneBit(v), (int) B::low(u), "lowestOneBit " << v);
    CHECK_EQ(Integer::rotateLeft(v, d), (int) B::rotl(u, d), "rotateLeft " << v << " by " << d);
    CHECK_EQ(Integer::rotateRight(v, d), (int) B::rotl(u, -(d % 32)), "rotateRight " << v << " by " << d);
    CHECK_EQ(Integer::rotateRight(Integer::rotateLeft(v, d), d), v, "rotations are inverse");
    CHECK_EQ(Integer::reverse(v), (int) B::rev(u), "reverse " << v);
    CHECK_EQ(Integer::reverseBytes(v), (int) B::revb(u), "reverseBytes " << v);
    CHECK_EQ(Integer::signum(v), sgn(v, 0), "signum " << v);
    CHECK_EQ(sgn(Integer::compare(v, w), 0), sgn(v, w), "compare " << v << "," << w);
    CHECK_EQ(sgn(Integer::compareUnsigned(v, w), 0), sgn((long long) u, (long long) x), "compareUnsigned " << v << "," << w);
    CHECK_EQ(Integer::toUnsignedLong(v), (long) u, "toUnsignedLong " << v);
    CHECK_EQ(Integer::max(v, w), v > w ? v : w, "max");
    CHECK_EQ(Integer::min(v, w), v < w ? v : w, "min");
    CHECK_EQ(Integer::sum(v, w), (int) (u + x), "sum " << v << "," << w);
    CHECK_EQ(Integer::hashCode(v), v, "hashCode");
    if (w == 0) {
        CHECK(throws<jl::ArithmeticException>([&] { Integer::divideUnsigned(v, w); }), "divideUnsigned by zero");
        CHECK(throws<jl::ArithmeticException>([&] { Integer::remainderUnsigned(v, w); }), "remainderUnsigned by zero");
    } else {
        CHECK_EQ(Integer::divideUnsigned(v, w), (int) (u / x), "divideUnsigned " << v << "," << w);
        CHECK_EQ(Integer::remainderUnsigned(v, w), (int) (u % x), "remainderUnsigned " << v << "," << w);
    }
    if (v < 0) LABEL("int: negative");
    if (d < 0 || d >= 32) LABEL("int: distance outside 0..31");
    if (v < 0 || d < 0 || d >= 32) markNontrivial();
}
void longs(Src &s) {
    typedef Bits<uint64_t> B;
    long v = s.i64(), w = s.chance(1, 4) ? v : s.i64();
    int d = s.chance(1, 2) ? (int) s.range(-140, 140) : s.i32();
    uint64_t u = (uint64_t) v;
    TRACE("long v=" << v << " w=" << w << " distance=" << d);
    CHECK_EQ(Long::bitCount(v), B::count(u), "bitCount " << v);
    CHECK_EQ(Long::numberOfLeadingZeros(v), B::lead(u), "numberOfLeadingZeros " << v);
    CHECK_EQ(Long::numberOfTrailingZeros(v), B::trail(u), "numberOfTrailingZeros " << v);
    CHECK_EQ(Long::highestOneBit(v), (long) B::high(u), "highestOneBit " << v);
    CHECK_EQ(Long::lowestOneBit(v), (long) B::low(u), "lowestOneBit " << v);
    CHECK_EQ(Long::rotateLeft(v, d), (long) B::rotl(u, d), "rotateLeft " << v << " by " << d);
    CHECK_EQ(Long::rotateRight(v, d), (long) B::rotl(u, -(d % 64)), "rotateRight " << v << " by " << d);
    CHECK_EQ(Long::rotateRight(Long::rotateLeft(v, d), d), v, "rotations are inverse");
    CHECK_EQ(Long::reverse(v), (long) B::rev(u), "reverse " << v);
    CHECK_EQ(Long::reverseBytes(v), (long) B::revb(u), "reverseBytes " << v);
    CHECK_EQ(Long::signum(v), sgn(v, 0), "signum " << v);
    CHECK_EQ(sgn(Long::compare(v, w), 0), sgn(v, w), "compare " << v << "," << w);
    CHECK_EQ(Long(v).hashCode(), (int) (u ^ (u >> 32)), "hashCode " << v);
    if (v < 0) LABEL("long: negative");
    if (d < 0 || d >= 64) LABEL("long: distance outside 0..63");
    if (v < 0 || d < 0 || d >= 64) markNontrivial();
}
void run(Src &s) {
    int n = 0;
    do { if (s.flip()) longs(s); else ints(s); } while (s.more() && ++n < 4);
}
}
PROPERTY(N02, run, 200, "a case evaluates every bit operation on up to 4 int or long arguments (with a second operand and a rotation distance); non-trivial when an argument is negative or a distance lies outside the word")
