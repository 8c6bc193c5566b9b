// X01: Base64 against a reference encoder and decoder written from RFC 4648 / RFC 2045
#include "jv.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
namespace {
using ju::Base64;
typedef std::string B;
Array<byte> A(const B &b) { Array<byte> a; for (char c : b) a.push((byte) c); return a; }
B out(const Array<byte> &a) { B b; for (int i = 0; i < a.length; ++i) b += (char) a.get(i); return b; }
const char *STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
B encode(const B &in, const char *abc, bool pad, int line, const B &sep) {
    B flat;
    for (size_t i = 0; i < in.size(); i += 3) {
        unsigned v = 0; size_t n = std::min<size_t>(3, in.size() - i);
        for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char) in[i + k] : 0u);
        for (size_t k = 0; k < 4; ++k) if (k <= n) flat += abc[v >> (18 - 6 * k) & 63]; else if (pad) flat += '=';
    }
    if (line <= 0) return flat;
    B r;
    for (size_t i = 0; i < flat.size(); ++i) { if (i && i % (size_t) line == 0) r += sep; r += flat[i]; }
    return r;
}
enum Verdict { VALID, BAD, OPEN };
Verdict decode(const B &text, const char *abc, bool mime, B &r) {
    std::vector<int> v; size_t i = 0; r.clear();
    auto value = [&](char c) { const char *p = c ? std::strchr(abc, c) : nullptr; return p ? (int) (p - abc) : -1; };
    for (; i < text.size() && text[i] != '='; ++i) { int d = value(text[i]); if (d >= 0) v.push_back(d); else if (!mime) return BAD; }
    if (i < text.size()) {
        size_t left = v.size() % 4, want = left == 2 ? 2 : left == 3 ? 1 : 0;
        if (!want) return BAD;
        for (size_t k = 0; k < want; ++k, ++i) {
            if (i < text.size() && text[i] == '=') continue;
            if (mime && i < text.size() && text.find('=', i) != B::npos) return OPEN;     // foreign bytes between the two paddings
            return BAD;
        }
        for (; i < text.size(); ++i) if (value(text[i]) >= 0) return BAD; else if (text[i] == '=') return mime ? OPEN : BAD; else if (!mime) return BAD;
    }
    if (v.size() % 4 == 1) return BAD;
    unsigned acc = 0; int bits = 0;
    for (int d : v) { acc = acc << 6 | (unsigned) d; bits += 6; if (bits >= 8) { bits -= 8; r += (char) (acc >> bits); acc &= (1u << bits) - 1; } }
    return VALID;
}
B bytesOf(Src &s) { B big; if (longText(s, big, 66000, 4)) return big; size_t n = s.chance(1, 6) ? s.size(400) : s.chance(1, 3) ? (size_t) s.range(50, 120) : s.size(12); B b; int kind = (int) s.range(0, 3); for (size_t i = 0; i < n; ++i) b += kind == 0 ? 'a' : kind == 1 ? (char) (s.flip() ? 0 : 255) : (char) s.u8(); return b; }
struct Codec { Base64::Encoder e; Base64::Decoder d; const char *abc; bool mime, pad; int line; B sep; const char *name; };
Codec pick(Src &s) {
    switch (s.range(0, 3)) {
        case 0: { bool p = s.flip(); return {p ? Base64::getEncoder() : Base64::getEncoder().withoutPadding(), Base64::getDecoder(), STD, false, p, 0, "", "basic"}; }
        case 1: { bool p = s.flip(); return {p ? Base64::getUrlEncoder() : Base64::getUrlEncoder().withoutPadding(), Base64::getUrlDecoder(), URL, false, p, 0, "", "url"}; }
        case 2: { bool p = s.flip(); return {p ? Base64::getMimeEncoder() : Base64::getMimeEncoder().withoutPadding(), Base64::getMimeDecoder(), STD, true, p, 76, "\r\n", "mime"}; }
        default: {
            int line = s.chance(1, 8) ? (int) s.range(-5, 3) : (int) s.range(4, 100); B sep; for (int n = (int) s.range(0, 3); n > 0; --n) sep += "\r\n@#!\x80\0 "[s.range(0, 7)];
            bool p = s.flip(); auto e = Base64::getMimeEncoder(line, A(sep));
            TRACE("line length " << line << ", separator " << show(sep));
            return {p ? e : e.withoutPadding(), Base64::getMimeDecoder(), STD, true, p, line < 4 ? 0 : line / 4 * 4, sep, "mime with lines"};
        }
    }
}
void check(const Codec &c, const B &text, bool own, const B &original) {
    B want; Verdict v = decode(text, c.abc, c.mime, want);
    B got, via; bool rejected = throws<jl::InterruptedException>([&] { got = out(c.d.decode(A(text))); }), rejectedText = throws<jl::InterruptedException>([&] { via = out(c.d.decode(J(text))); });
    if (v == VALID) {
        CHECK(!rejected, "valid " << c.name << " text rejected"); CHECK_EQ(got, want, "decoded " << c.name << " text");
        CHECK(!rejectedText, "valid " << c.name << " String rejected"); CHECK_EQ(via, want, "decoded " << c.name << " String");
        if (own) CHECK_EQ(got, original, "round trip");
        LABEL("valid text");
    } else if (v == BAD) { CHECK(rejected, "malformed " << c.name << " text decoded to " << show(got)); CHECK(rejectedText, "malformed " << c.name << " String decoded to " << show(via)); LABEL("malformed text"); }
    else { CHECK_EQ(rejected, rejectedText, "array and String disagree"); LABEL("open"); }
}
void run(Src &s) {
    if (s.chance(1, 12)) {
        B sep; for (int n = (int) s.range(1, 3); n > 0; --n) sep += s.flip() ? STD[s.range(0, 63)] : s.flip() ? '=' : '\n';
        bool bad = sep.find_first_not_of("\n") != B::npos; int line = (int) s.range(-3, 80);
        TRACE("MIME encoder with separator " << show(sep) << " and line length " << line);
        if (bad) { CHECK(throws<jl::InterruptedException>([&] { Base64::getMimeEncoder(line, A(sep)); }), "separator of base64 characters accepted"); LABEL("bad separator"); markNontrivial(); } else Base64::getMimeEncoder(line, A(sep));
        return;
    }
    Codec c = pick(s); B in = bytesOf(s);
    TRACE(c.name << (c.pad ? "" : " without padding") << " encodes " << show(in));
    B want = encode(in, c.abc, c.pad, c.line, c.sep), got = out(c.e.encode(A(in)));
    CHECK_EQ(got, want, c.name << " encoding"); CHECK_EQ(S(c.e.encodeToString(A(in))), want, c.name << " encoding as String");
    LABEL(c.name); if (in.size() % 3) LABEL("partial group"); if (c.line && want.size() > (size_t) c.line) LABEL("several lines"); if (in.empty()) LABEL("nothing");
    if (!in.empty()) markNontrivial();
    check(c, want, true, in);
    {   // into given arrays
        int room = (int) s.range(0, (int64_t) want.size() + 3); Array<byte> a((long) room); for (int i = 0; i < room; ++i) a[i] = '*';
        TRACE("into an array of " << room);
        if (room < (int) want.size()) { CHECK(throws<jl::InterruptedException>([&] { c.e.encode(A(in), a); }), "encoding into too small an array accepted"); CHECK_EQ(out(a), B((size_t) room, '*'), "array after a rejected encoding"); LABEL("too small"); }
        else { CHECK_EQ(c.e.encode(A(in), a), (int) want.size(), "encoded length"); CHECK_EQ(out(a), want + B((size_t) room - want.size(), '*'), "array after encoding"); }
        room = (int) s.range(0, (int64_t) in.size() + 3); Array<byte> b((long) room); for (int i = 0; i < room; ++i) b[i] = '*';
        TRACE("back into an array of " << room);
        if (room < (int) in.size()) { CHECK(throws<jl::InterruptedException>([&] { c.d.decode(A(want), b); }), "decoding into too small an array accepted"); CHECK_EQ(out(b), B((size_t) room, '*'), "array after a rejected decoding"); }
        else { CHECK_EQ(c.d.decode(A(want), b), (int) in.size(), "decoded length"); CHECK_EQ(out(b), in + B((size_t) room - in.size(), '*'), "array after decoding"); }
    }
    B text = want;   // damaged or foreign text
    if (s.chance(1, 3)) { text.clear(); for (size_t n = s.size(10); n > 0; --n) text += s.chance(2, 3) ? c.abc[s.range(0, 63)] : s.flip() ? '=' : (char) s.u8(); }
    else for (int n = (int) s.range(1, 2); n > 0; --n) {
        size_t p = text.empty() ? 0 : s.chance(1, 3) ? (size_t) s.range(std::max<int64_t>(0, (int64_t) text.size() - 4), (int64_t) text.size() - 1) : (size_t) s.range(0, (int64_t) text.size() - 1);
        char ch = s.chance(1, 3) ? '=' : s.flip() ? c.abc[s.range(0, 63)] : "\r\n -_+/@\0\x80\xff"[s.range(0, 10)];
        switch (s.range(0, 2)) { case 0: if (!text.empty()) text[p] = ch; break; case 1: text.insert(p, 1, ch); break; default: if (!text.empty()) text.erase(p, 1); }
    }
    TRACE(c.name << " decodes " << show(text));
    check(c, text, false, "");
}
}
PROPERTY(X01, run, 900, "a case is one byte array encoded, decoded and decoded again after damage by one codec (basic, URL, MIME, custom lines; padded or not); non-trivial when the array is not empty or a separator is rejected")
