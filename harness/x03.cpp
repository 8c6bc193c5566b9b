// X03: MD5 and SHA-1 against own reference implementations, over histories of several live digests
#include "jv.hpp"
#include <memory>
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
namespace {
using Java::Security::MessageDigest;
typedef uint32_t W;
W rotl(W x, int n) { return x << n | x >> (32 - n); }
std::string padded(const std::string &m, bool big) {
    std::string p = m; p += (char) 0x80; while (p.size() % 64 != 56) p += '\0';
    uint64_t bits = (uint64_t) m.size() * 8;
    for (int i = 0; i < 8; ++i) p += (char) (bits >> 8 * (big ? 7 - i : i));
    return p;
}
std::string md5(const std::string &m) {
    static thread_local W K[64]; static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = (W) (int64_t) std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0);
    W h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; std::string p = padded(m, false);
    for (size_t o = 0; o < p.size(); o += 64) {
        W w[16]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int k = 3; k >= 0; --k) w[i] = w[i] << 8 | (unsigned char) p[o + (size_t) (4 * i + k)]; }
        W a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; ++i) {
            W f; int g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
            W t = d; d = c; c = b; b = b + rotl(a + f + K[i] + w[g], R[i / 16][i % 4]); a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    std::string r; for (W x : h) for (int k = 0; k < 4; ++k) r += (char) (x >> 8 * k);
    return r;
}
std::string sha1(const std::string &m) {
    W h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; std::string p = padded(m, true);
    for (size_t o = 0; o < p.size(); o += 64) {
        W w[80]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int k = 0; k < 4; ++k) w[i] = w[i] << 8 | (unsigned char) p[o + (size_t) (4 * i + k)]; }
        for (int i = 16; i < 80; ++i) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        W a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) {
            W f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
            static const W K[4] = {0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6};
            W t = rotl(a, 5) + f + e + K[i / 20] + w[i]; e = d; d = c; c = rotl(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string r; for (W x : h) for (int k = 3; k >= 0; --k) r += (char) (x >> 8 * k);
    return r;
}
std::string hexOf(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
void selfTest() {
    static thread_local bool done = false; if (done) return; done = true;
    CHECK_EQ(hexOf(md5("")), std::string("d41d8cd98f00b204e9800998ecf8427e"), "reference MD5");
    CHECK_EQ(hexOf(md5("message digest")), std::string("f96b697d7cb7938d525a2f31aaf161d0"), "reference MD5");
    CHECK_EQ(hexOf(md5("12345678901234567890123456789012345678901234567890123456789012345678901234567890")), std::string("57edf4a22be3c955ac49da2e2107b67a"), "reference MD5");
    CHECK_EQ(hexOf(sha1("")), std::string("da39a3ee5e6b4b0d3255bfef95601890afd80709"), "reference SHA-1");
    CHECK_EQ(hexOf(sha1("abc")), std::string("a9993e364706816aba3e25717850c26c9cd0d89d"), "reference SHA-1");
    CHECK_EQ(hexOf(sha1("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")), std::string("84983e441c3bd26ebaae4aa1f95129e5e54670f1"), "reference SHA-1");
}
struct Live { std::unique_ptr<MessageDigest> d; bool sha; std::string fed; };
Live make(Src &s) { Live l; l.sha = s.flip(); l.d.reset(new MessageDigest(MessageDigest::getInstance(l.sha ? JString("SHA1") : JString("MD5")))); TRACE("new " << (l.sha ? "SHA1" : "MD5")); return l; }
std::string chunk(Src &s, size_t have) {
    size_t n;
    switch (s.range(0, 3)) {
        case 0: n = (size_t) s.range(1, 12); break;
        case 1: n = (size_t) ((int64_t) (64 - have % 64) + s.range(0, 4) - 2 + 64 * s.range(0, 2)); break;        // ends next to a block boundary
        case 2: n = (size_t) ((int64_t) ((120 - have % 64) % 64) + s.range(0, 4) - 2 + 64 * s.range(0, 1)); break; // ends next to the padding boundary
        default: n = (size_t) s.range(1, 400);
    }
    if (n < 1 || n > 1000) n = 1;
    if (s.chance(1, 500)) { heavy(); LABEL("chunk past 1000 bytes"); n = (1UL << s.range(10, 17)) + (size_t) s.range(0, 130) - 65; }
    unsigned seed = s.u8(); std::string m;
    if (s.chance(1, 6)) m = std::string(n, (char) (seed % 3 ? seed : 0));
    else for (size_t i = 0; i < n; ++i) { seed = seed * 1103515245u + 12345u; m += (char) (seed >> 16); }
    return m;
}
void run(Src &s) {
    selfTest();
    std::vector<Live> v; v.push_back(make(s)); if (s.flip()) v.push_back(make(s));
    int ops = 0, boundary = 0;
    do {
        size_t i = (size_t) s.range(0, (int64_t) v.size() - 1); Live &l = v[i]; const size_t len = l.sha ? 20 : 16; ++ops;
        switch (s.weighted({10, 5, 2, 2, 2, 2, 1, 1, 1})) {
            case 0: { std::string m = chunk(s, l.fed.size()); TRACE("#" << i << " update " << m.size() << " after " << l.fed.size());
                std::vector<char> exact(m.begin(), m.end()); l.d->update((const byte *) exact.data(), (int) exact.size());
                CHECK(std::equal(exact.begin(), exact.end(), m.begin()), "update changed its input");
                l.fed += m; if (l.fed.size() % 64 < 2 || l.fed.size() % 64 > 54) { ++boundary; LABEL("at a block or padding boundary"); } break; }
            case 1: { size_t size = len + (s.flip() ? 0 : (size_t) s.range(0, 9)); TRACE("#" << i << " digest of " << l.fed.size() << " bytes into " << size);
                std::vector<byte> out(size, (byte) 0x5a); CHECK_EQ(l.d->digest(out.data(), (int) size), (int) len, "digest length returned");
                std::string got; for (size_t k = 0; k < len; ++k) got += (char) out[k];
                CHECK_EQ(hexOf(got), hexOf(l.sha ? sha1(l.fed) : md5(l.fed)), "digest of " << l.fed.size() << " bytes");
                for (size_t k = len; k < size; ++k) CHECK_EQ((int) out[k], 0x5a, "byte after the digest");
                if (l.fed.size() > 55) LABEL("long message"); l.fed.clear(); break; }
            case 2: TRACE("#" << i << " reset"); l.d->reset(); l.fed.clear(); LABEL("reset"); break;
            case 3: CHECK_EQ(S(l.d->getAlgorithm()), std::string(l.sha ? "SHA1" : "MD5"), "algorithm"); CHECK_EQ(l.d->getDigestLength(), (int) len, "digest length"); break;
            case 4: if (v.size() < 4) v.push_back(make(s)); else { TRACE("#" << i << " dropped"); v.erase(v.begin() + (long) i); } break;
            case 5: { std::vector<byte> b(40, (byte) 7); int which = (int) s.range(0, 3); TRACE("#" << i << " bad request " << which);
                if (which == 0) CHECK(throws<InterruptedException>([&] { l.d->update(nullptr, 5); }), "null input accepted");
                if (which == 1) CHECK(throws<InterruptedException>([&] { l.d->update(b.data(), 0); }), "empty input accepted");
                if (which == 2) CHECK(throws<InterruptedException>([&] { l.d->digest(nullptr, 64); }), "null output accepted");
                if (which == 3) { int n = (int) s.range(0, (int64_t) len); --n; CHECK(throws<InterruptedException>([&] { l.d->digest(b.data(), n); }), "short output accepted: " << n); for (byte x : b) CHECK_EQ((int) x, 7, "output of a rejected request"); }
                LABEL("rejected request"); break; }
            case 6: { std::string n = s.pick<const char *>({"MD5", "SHA1", "md5", "SHA-1", "MD", "MD55", "SHA", "", " MD5", "SHA256", "SHA1 "}); if (s.flip()) n = s.text(5, 2); if (n == "MD5" || n == "SHA1") break;
                TRACE("algorithm " << show(n)); std::string msg; bool t = false; try { MessageDigest::getInstance(J(n)); } catch (Java::Security::NoSuchAlgorithmException &e) { t = true; msg = S(e.getMessage()); }
                CHECK(t, "unknown algorithm " << show(n) << " accepted"); CHECK_EQ(msg, n + " not found", "message"); break; }
            case 7: { TRACE("#" << i << " moved"); std::unique_ptr<MessageDigest> m(new MessageDigest(std::move(*l.d))); l.d = std::move(m); LABEL("moved"); break; }
            default: if (v.size() > 1) { size_t j = (i + 1) % v.size(); TRACE("#" << i << " = move #" << j); *l.d = std::move(*v[j].d); l.sha = v[j].sha; l.fed = v[j].fed; v.erase(v.begin() + (long) j); LABEL("moved"); }
        }
    } while (s.more());
    if (boundary && ops > 2) markNontrivial();
}
}
PROPERTY(X03, run, 300, "a history of more than two operations in which some message ends next to a block or padding boundary")
