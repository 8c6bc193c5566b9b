// X02: form encoding of bytes against a reference encoder and decoder
#include "jv.hpp"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
namespace {
using Java::Net::URLEncoder; using Java::Net::URLDecoder;
bool plain(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~'; }
bool plainOrStar(unsigned char c) { return plain(c) || c == '*'; }
int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool decode(const std::string &t, std::string &r) {      // false: malformed
    r.clear();
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '%') { if (i + 2 >= t.size() || hex(t[i + 1]) < 0 || hex(t[i + 2]) < 0) return false; r += (char) (hex(t[i + 1]) << 4 | hex(t[i + 2])); i += 2; }
        else r += t[i] == '+' ? ' ' : t[i];
    }
    return true;
}
std::string name(Src &s) { std::string n = "utf-8"; for (auto &c : n) if (s.flip()) c = (char) std::toupper(c); return n; }
void run(Src &s) {
    std::string in = s.text(s.chance(1, 8) ? 300 : 24, (int) s.range(0, 3)), charset = name(s);
    if (!longText(s, in, 66000, (int) s.range(0, 4))) for (auto &c : in) if (s.chance(1, 5)) c = "% +&=/?~*._-@\0\x7f\x80\xff\r\n"[s.range(0, 18)];
    TRACE("encode " << show(in) << " as " << charset);
    JString text = J(in);
    std::string enc = S(s.flip() ? URLEncoder::encode(text) : URLEncoder::encode(text, J(charset))), back;
    CHECK_EQ(S(text), in, "encoded text itself");
    for (size_t i = 0, k = 0; k < in.size(); ++k) {       // every byte as form encoding prescribes
        unsigned char c = (unsigned char) in[k];
        CHECK(i < enc.size(), "encoding ends before byte " << k << ": " << show(enc));
        if (plain(c) || (c == '*' && enc[i] == '*')) { CHECK(enc[i] == (char) c, "byte " << k << " encoded as " << show(enc.substr(i, 3))); ++i; }
        else if (c == ' ' && enc[i] == '+') ++i;
        else { CHECK(i + 2 < enc.size() && enc[i] == '%' && hex(enc[i + 1]) == c >> 4 && hex(enc[i + 2]) == (c & 15), "byte " << k << " (" << (int) c << ") encoded as " << show(enc.substr(i, 3))); i += 3; LABEL("escaped byte"); markNontrivial(); }
        if (k + 1 == in.size()) CHECK_EQ(i, enc.size(), "encoding continues after the last byte");
    }
    if (in.empty()) CHECK_EQ(enc, std::string(), "encoding of nothing");
    CHECK(in.find(' ') == std::string::npos || enc.find('+') != std::string::npos || enc.find("%20") != std::string::npos, "blank lost");
    CHECK_EQ(S(s.flip() ? URLDecoder::decode(J(enc)) : URLDecoder::decode(J(enc), J(charset))), in, "round trip");
    std::string upper = enc;
    for (size_t i = 0; i + 2 < upper.size(); ++i) if (upper[i] == '%') { for (int k = 1; k < 3; ++k) if (s.flip()) upper[i + (size_t) k] = (char) std::toupper(upper[i + (size_t) k]); else upper[i + (size_t) k] = (char) std::tolower(upper[i + (size_t) k]); i += 2; }
    TRACE("decode " << show(upper));
    CHECK_EQ(S(URLDecoder::decode(J(upper))), in, "decoded with other letter case");
    std::string other = enc;                              // foreign and damaged text
    for (int n = (int) s.range(1, 3); n > 0; --n) {
        char c = s.flip() ? '%' : "0aAfFgG+%\0\x80 ~/"[s.range(0, 13)]; size_t p = (size_t) s.range(0, (int64_t) other.size());
        switch (s.range(0, 2)) { case 0: other.insert(p, 1, c); break; case 1: if (p < other.size()) other[p] = c; break; default: other = other.substr(0, p); }
    }
    TRACE("decode " << show(other));
    std::string want, got; JString damaged = J(other); bool threw = throwsAny([&] { got = S(URLDecoder::decode(damaged)); });
    if (decode(other, want)) { CHECK(!threw, "well-formed text rejected"); CHECK_EQ(got, want, "decoded"); LABEL("well-formed"); }
    else {
        LABEL("malformed escape"); markNontrivial();
        if (!threw) {          // how it is decoded is open, but what precedes the malformed escape is not
            size_t bad = 0; while (bad < other.size()) { if (other[bad] == '%') { if (bad + 2 >= other.size() || hex(other[bad + 1]) < 0 || hex(other[bad + 2]) < 0) break; bad += 2; } ++bad; }
            decode(other.substr(0, bad), want); CHECK_EQ(got.substr(0, want.size()), want, "decoded text before the malformed escape");
            CHECK(got.size() <= other.size(), "decoded text longer than the encoded: " << show(got));
        }
    }
    CHECK_EQ(S(damaged), other, "decoded text itself");
    if (s.chance(1, 4)) {
        std::string bad = s.flip() ? charset + (s.flip() ? "x" : " ") : s.text(6, 0); std::string u; for (char c : bad) u += (char) std::toupper((unsigned char) c);
        if (u != "UTF-8") {
            TRACE("charset " << show(bad)); LABEL("unsupported charset");
            CHECK(throws<Java::IO::UnsupportedEncodingException>([&] { URLEncoder::encode(text, J(bad)); }), "encoding with charset " << show(bad) << " accepted");
            CHECK(throws<Java::IO::UnsupportedEncodingException>([&] { URLDecoder::decode(text, J(bad)); }), "decoding with charset " << show(bad) << " accepted");
        }
    }
}
}
PROPERTY(X02, run, 500, "a case is one text (ASCII, UTF-8 or arbitrary bytes, zero bytes included) encoded, decoded with mixed letter case, and decoded again after damage; non-trivial when a byte needs an escape or the damaged text is malformed")
