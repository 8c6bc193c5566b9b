// T02: String transformations against the byte-sequence model
#include "jv.hpp"
#include <wctype.h>
namespace {
typedef std::string B;
B content(Src &s) { B big; if (longText(s, big)) return big; return s.text(160, s.chance(1, 5) ? 4 : -1); }
B needle(Src &s, const B &h) {
    if (h.size() > 2000 && s.chance(3, 4)) return h.substr(s.chance(1, 3) ? h.size() - (size_t) s.range(0, 300) : (size_t) s.range(0, (int64_t) h.size()), (size_t) s.range(0, 300));
    switch (s.weighted({3, 5, 2, 1})) {
        case 0: return s.text(4);
        case 1: { size_t p = (size_t) s.range(0, (int64_t) h.size()); return h.substr(p, (size_t) s.range(0, 5)); }
        case 2: return B();
        default: return h;
    }
}
B replaceAllM(const B &h, const B &t, const B &r, long max = -1) {
    B o;
    size_t i = 0;
    if (t.empty()) {
        long n = 0;
        for (; i < h.size(); ++i) { if (max < 0 || n < max) { o += r; ++n; } o += h[i]; }
        if (max < 0 || n < max) o += r;
        return o;
    }
    long n = 0;
    while (i < h.size()) {
        if ((max < 0 || n < max) && h.compare(i, t.size(), t) == 0) { o += r; i += t.size(); ++n; }
        else o += h[i++];
    }
    return o;
}
std::vector<B> splitM(const B &h, const B &t, int limit) {
    std::vector<B> v;
    if (t.empty()) {
        if (h.empty()) { v.push_back(h); return v; }
        for (char c : h) v.push_back(B(1, c));
    } else {
        B cur;
        for (size_t i = 0; i < h.size();) {
            if (h.compare(i, t.size(), t) == 0) { v.push_back(cur); cur.clear(); i += t.size(); }
            else cur += h[i++];
        }
        v.push_back(cur);
    }
    if (limit > 0 && limit <= (int) v.size()) {
        std::vector<B> w(v.begin(), v.begin() + limit - 1);
        B rest = v[(size_t) limit - 1];
        for (size_t i = (size_t) limit; i < v.size(); ++i) rest += t + v[i];
        w.push_back(rest);
        return w;
    }
    return v;
}
// decode strict UTF-8; false when malformed; sets odd for surrogates and noncharacter limits (no claim made)
bool decode(const B &s, std::vector<unsigned> &out, bool &odd) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char) s[i];
        unsigned n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
        if (n == 9 || i + n >= s.size() + (n == 0)) return false;
        unsigned v = n == 0 ? c : n == 1 ? c & 0x1f : n == 2 ? c & 0xf : c & 7;
        for (unsigned k = 1; k <= n; ++k) { unsigned char d = (unsigned char) s[i + k]; if ((d & 0xc0) != 0x80) return false; v = (v << 6) | (d & 0x3f); }
        if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10ffff) return false;
        if (v >= 0xd800 && v < 0xe000) odd = true;
        out.push_back(v);
        i += n + 1;
    }
    return true;
}
B encode(const std::vector<unsigned> &v) {
    B o;
    for (unsigned c : v) {
        if (c < 0x80) o += (char) c;
        else if (c < 0x800) { o += (char) (0xc0 | (c >> 6)); o += (char) (0x80 | (c & 0x3f)); }
        else if (c < 0x10000) { o += (char) (0xe0 | (c >> 12)); o += (char) (0x80 | ((c >> 6) & 0x3f)); o += (char) (0x80 | (c & 0x3f)); }
        else { o += (char) (0xf0 | (c >> 18)); o += (char) (0x80 | ((c >> 12) & 0x3f)); o += (char) (0x80 | ((c >> 6) & 0x3f)); o += (char) (0x80 | (c & 0x3f)); }
    }
    return o;
}
bool mapCase(const B &h, bool up, B &out) {
    std::vector<unsigned> v;
    bool odd = false;
    if (decode(h, v, odd)) {
        if (odd) return false;
        for (unsigned &c : v) c = (unsigned) (up ? towupper((wint_t) c) : towlower((wint_t) c));
        out = encode(v);
        return true;
    }
    if (odd) return false;
    out = h;
    for (char &c : out) if (up ? (c >= 'a' && c <= 'z') : (c >= 'A' && c <= 'Z')) c = (char) (c ^ 32);
    // a surrogate later in a malformed text: no claim
    for (size_t i = 0; i + 1 < h.size(); ++i) if ((unsigned char) h[i] == 0xed && (unsigned char) h[i + 1] >= 0xa0) return false;
    return true;
}
void reproSub() { CHECK(throws<jl::IndexOutOfBoundsException>([] { JString("abc").subString(2, 1); }), "subString(2,1)"); }
std::vector<B> parts(const Array<JString> &a) { std::vector<B> v; for (int i = 0; i < a.length; ++i) v.push_back(S(a.get(i))); return v; }

void run(Src &s) {
    B h = content(s);
    JString j = J(h);
    const JString &c = j;
    TRACE("string " << show(h));
    int ops = 0, changed = 0;
    while (s.more()) {
        ++ops;
        switch (s.weighted({8, 6, 5, 6, 5, 7, 5, 6, 6, 4, 3, 3, 3})) {
            case 0: {
                int b = (int) s.range(-3, (int64_t) h.size() + 4), e = s.flip() ? (int) s.range(-3, (int64_t) h.size() + 4) : b + (int) s.range(0, 12);
                if (s.chance(1, 40)) e = std::numeric_limits<int>::max();
                if (s.chance(1, 40)) b = std::numeric_limits<int>::min();
                bool one = s.chance(1, 3);
                if (one) e = (int) h.size();
                TRACE("subString(" << b << "," << e << ")");
                if (b >= 0 && b <= e && e <= (int) h.size()) {
                    JString r = one ? c.subString(b) : c.subString(b, e);
                    CHECK_EQ(S(r), h.substr((size_t) b, (size_t) (e - b)), b << ".." << e << " of " << show(h));
                    r += 'x';
                    ++changed;
                } else {
                    LABEL("invalid range");
                    JString r;
                    bool t = throws<jl::IndexOutOfBoundsException>([&] { r = one ? c.subString(b) : c.subString(b, e); });
                    if (!t && known("substring_silent")) CHECK(r.length() == 0, "subString(" << b << "," << e << ") of " << show(h) << " = " << show(S(r)));
                    else CHECK(t, "subString(" << b << "," << e << ") of " << show(h) << " gives " << show(S(r)));
                }
                break;
            }
            case 1: {
                B o = content(s);
                TRACE("concat/+/+= " << show(o));
                JString jo = J(o);
                CHECK_EQ(S(c.concat(jo)), h + o, "concat");
                CHECK_EQ(S(c + jo), h + o, "+");
                CHECK_EQ(S(j + jo), h + o, "member +");
                JString t = c;
                JString &r = (t += jo);
                CHECK(&r == &t, "+= result");
                CHECK_EQ(S(t), h + o, "+=");
                t += t;
                CHECK_EQ(S(t), h + o + h + o, "+= itself");
                JString u = c;
                u += o.c_str();
                CHECK_EQ(S(u), h + o.c_str(), "+= const char*");
                u += 'q';
                u += '\0';
                CHECK_EQ(S(u), h + o.c_str() + 'q' + '\0', "+= char");
                CHECK_EQ(S(jo), o, "argument");
                ++changed;
                break;
            }
            case 2: {
                char a = h.empty() || s.chance(1, 4) ? (char) s.u8() : h[(size_t) s.range(0, (int64_t) h.size() - 1)], b = (char) s.u8();
                TRACE("replace(" << show(a) << "," << show(b) << ")");
                B w = h;
                std::replace(w.begin(), w.end(), a, b);
                changed += w != h;
                CHECK_EQ(S(c.replace(a, b)), w, "in " << show(h));
                break;
            }
            case 3: {
                B t = needle(s, h), r = s.flip() ? needle(s, h) : s.text(5);
                if (h.size() > 2000 && r.size() > 20 && t.size() < 20) r.resize(20);
                TRACE("replace(" << show(t) << "," << show(r) << ")");
                B w = replaceAllM(h, t, r);
                changed += w != h;
                CHECK_EQ(S(c.replace(J(t), J(r))), w, "replace " << show(t) << " by " << show(r) << " in " << show(h));
                CHECK_EQ(S(c.replaceAll(J(t), J(r))), w, "replaceAll " << show(t) << " by " << show(r) << " in " << show(h));
                break;
            }
            case 4: {
                B t = needle(s, h), r = s.flip() ? needle(s, h) : s.text(5);
                if (h.size() > 2000 && r.size() > 20 && t.size() < 20) r.resize(20);
                TRACE("replaceFirst(" << show(t) << "," << show(r) << ")");
                CHECK_EQ(S(c.replaceFirst(J(t), J(r))), replaceAllM(h, t, r, 1), "replaceFirst " << show(t) << " by " << show(r) << " in " << show(h));
                break;
            }
            case 5: {
                B t = needle(s, h);
                int limit = (int) s.range(-2, 9);
                bool lim = s.flip();
                if (!lim) limit = 0;
                TRACE("split(" << show(t) << (lim ? "," + std::to_string(limit) : "") << ")");
                std::vector<B> w = splitM(h, t, limit), g = parts(lim ? c.split(J(t), limit) : c.split(J(t)));
                CHECK_EQ(g, w, "split " << show(t) << " limit " << limit << " of " << show(h));
                if (w.size() > 1) ++changed;
                break;
            }
            case 6: {
                static const char ws[] = " \t\n\v\f\r";
                B m = h, pre, post;
                for (int k = (int) s.range(0, 4); k > 0; --k) pre += ws[s.range(0, 5)];
                for (int k = (int) s.range(0, 4); k > 0; --k) post += ws[s.range(0, 5)];
                auto odd = [](char x) { return (unsigned char) x < 32 && !strchr("\t\n\v\f\r", x ? x : 1); };
                while (!m.empty() && (odd(m[0]) || strchr(ws, m[0] ? m[0] : 1))) m.erase(0, 1);
                while (!m.empty() && (odd(m.back()) || strchr(ws, m.back() ? m.back() : 1))) m.pop_back();
                TRACE("trim " << show(pre + m + post));
                CHECK_EQ(S(J(pre + m + post).trim()), m, "trim " << show(pre + m + post));
                changed += !pre.empty() || !post.empty();
                break;
            }
            case 7: {
                B in = s.chance(1, 4) ? s.text(40, 5) : h;
                TRACE("case mapping of " << show(in));
                B w;
                if (mapCase(in, true, w)) { CHECK_EQ(S(J(in).toUpperCase()), w, "toUpperCase " << show(in)); changed += w != in; }
                if (mapCase(in, false, w)) { CHECK_EQ(S(J(in).toLowerCase()), w, "toLowerCase " << show(in)); changed += w != in; }
                break;
            }
            case 8: {
                Array<char> a;
                Array<byte> ab;
                for (char x : h) { a.push(x); ab.push((byte) x); }
                int o = (int) s.range(-2, (int64_t) h.size() + 2), n = s.flip() ? (int) s.range(-2, (int64_t) h.size() + 2) : (int) s.range(0, 6);
                TRACE("copyValueOf(" << o << "," << n << ")");
                CHECK_EQ(S(JString::fromCharArray(a)), h, "fromCharArray");
                CHECK_EQ(S(JString::copyValueOf(a)), h, "copyValueOf");
                CHECK_EQ(S(JString(ab)), h, "String(bytes)");
                if (o >= 0 && n >= 0 && o + n <= (int) h.size()) {
                    JString r = JString::copyValueOf(a, o, n);
                    if (o < a.length) a[o] = (char) (a[o] ^ 1);
                    CHECK_EQ(S(r), h.substr((size_t) o, (size_t) n), "copyValueOf(" << o << "," << n << ") of " << show(h));
                    CHECK_EQ(S(JString(ab, o, n)), h.substr((size_t) o, (size_t) n), "String(bytes," << o << "," << n << ") of " << show(h));
                } else {
                    LABEL("invalid range");
                    CHECK(throws<jl::StringIndexOutOfBoundsException>([&] { JString::copyValueOf(a, o, n); }), "copyValueOf(" << o << "," << n << ") of length " << h.size());
                    CHECK(throws<jl::StringIndexOutOfBoundsException>([&] { JString x(ab, o, n); }), "String(bytes," << o << "," << n << ") of length " << h.size());
                }
                break;
            }
            case 9: {
                std::vector<B> p;
                int n = (int) s.range(1, 3);
                for (int i = 0; i < n; ++i) p.push_back(s.text(10));
                B d = s.text(4);
                TRACE("join " << show(p) << " with " << show(d));
                JString jd = J(d), a = J(p[0]), b = n > 1 ? J(p[1]) : JString(), e = n > 2 ? J(p[2]) : JString();
                JString r = n == 1 ? JString::join(jd, a) : n == 2 ? JString::join(jd, a, b) : JString::join(jd, a, b, e);
                B w = p[0];
                for (int i = 1; i < n; ++i) w += d + p[(size_t) i];
                CHECK_EQ(S(r), w, "join");
                break;
            }
            case 10: {
                TRACE("valueOf");
                int64_t v = s.i64();
                valueOfNumbers(s);
                CHECK_EQ(S(JString::valueOf((bool) (v & 1))), B(v & 1 ? "true" : "false"), "");
                char ch = (char) (v ? v : 1);
                if (ch) CHECK_EQ(S(JString::valueOf(ch)), B(1, ch), "");
                CHECK_EQ(S(JString::valueOf((const char *) h.c_str())), B(h.c_str()), "");
                CHECK_EQ(S(JString::valueOf((char *) h.c_str())), B(h.c_str()), "");
                CHECK_EQ(S(JString::valueOf(c)), h, "");
                CHECK_EQ(S(JString::valueOf((const char *) nullptr)), B(), "");
                CHECK_EQ(S(JString::valueOf((char *) nullptr)), B(), "");
                break;
            }
            case 11: {
                TRACE("with itself");
                B r = s.text(6); bool none = h.empty();
                CHECK_EQ(S(c.concat(c)), h + h, "concat itself"); CHECK_EQ(S(c + c), h + h, "+ itself"); JString jr = J(r);
                if (!none) {
                    CHECK_EQ(S(c.replace(c, jr)), r, "replace itself"); CHECK_EQ(S(c.replaceAll(c, c)), h, "replaceAll itself by itself"); CHECK_EQ(S(c.replaceFirst(c, jr)), r, "replaceFirst itself");
                    CHECK_EQ(parts(c.split(c)), (std::vector<B>{"", ""}), "split at itself");
                    if (h.size() < 300) { B one = h.substr((size_t) s.range(0, (int64_t) h.size() - 1), 1); CHECK_EQ(S(c.replace(J(one), c)), replaceAllM(h, one, h), "a part replaced by the whole"); }
                }
                JString t = c; JString &self = t; t = self; CHECK_EQ(S(t), h, "assigned to itself"); t = t.subString(0); CHECK_EQ(S(t), h, "own whole substring");
                if (h.size() > 1) { t = t.subString(1); CHECK_EQ(S(t), h.substr(1), "own substring"); t += t; t = t.concat(t); CHECK_EQ(t.length(), (int) (h.size() - 1) * 4, "length of a doubled double"); CHECK_EQ(S(t).substr(0, h.size() - 1), h.substr(1), "begin of a doubled double"); }
                CHECK_EQ(S(JString::join(c, j, j)), h + h + h, "joined with itself");
                break;
            }
            default: {
                TRACE("copies are independent");
                JString a(c), b, d = j.clone();
                b = c;
                a += 'x';
                b += "yy";
                if (d.length()) d[0] = (char) (d[0] ^ 1);
                CHECK_EQ(S(a), h + 'x', "");
                CHECK_EQ(S(b), h + "yy", "");
                JString *p = new JString(c);
                JString e(*p);
                delete p;
                CHECK_EQ(S(e), h, "");
                JString n1(nullptr), n2((const char *) nullptr);
                CHECK(n1.isEmpty() && n2.isEmpty(), "null constructor");
            }
        }
        CHECK_EQ(S(c), h, "the receiver changed");
    }
    if (changed >= 2) markNontrivial();
    (void) ops;
}
}
PROPERTY(T02, run, 512, "a case is one string and a series of transformations of it; non-trivial: at least two transformations that produce something other than the receiver", {"substring_silent", reproSub})
