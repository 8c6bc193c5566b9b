// T01: String queries against the byte-sequence model
#include "jv.hpp"
namespace {
typedef std::string B;
int mIndexOf(const B &h, const B &n, long from) {
    if (from < 0) from = 0;
    for (long i = from; i + (long) n.size() <= (long) h.size(); ++i) if (h.compare((size_t) i, n.size(), n) == 0) return (int) i;
    if (n.empty()) return (int) std::min<long>(from, (long) h.size());
    return -1;
}
int mLastIndexOf(const B &h, const B &n, long from) {
    long i = std::min<long>(from, (long) h.size() - (long) n.size());
    for (; i >= 0; --i) if (h.compare((size_t) i, n.size(), n) == 0) return (int) i;
    return -1;
}
char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
B lower(B s) { for (char &c : s) c = low(c); return s; }

B content(Src &s) { B big; if (longText(s, big)) return big; if (s.chance(1, 10)) return s.text(60, 6); return s.text(200, s.chance(1, 5) ? 4 : -1); }
B needle(Src &s, const B &h) {
    if (h.size() > 2000 && s.chance(3, 4)) return h.substr(s.chance(1, 3) ? h.size() - (size_t) s.range(0, 300) : (size_t) s.range(0, (int64_t) h.size()), (size_t) s.range(0, 300));
    switch (s.weighted({3, 5, 2, 1})) {
        case 0: return s.text(6);
        case 1: { size_t p = (size_t) s.range(0, (int64_t) h.size()); return h.substr(p, (size_t) s.size((int64_t) h.size())); }
        case 2: { size_t p = (size_t) s.range(0, (int64_t) h.size()); B n = h.substr(p, (size_t) s.size((int64_t) h.size())); if (!n.empty()) n[(size_t) s.range(0, (int64_t) n.size() - 1)] ^= (char) (1 << s.range(0, 6)); return n; }
        default: return h + (s.flip() ? "x" : "");
    }
}
int index(Src &s, size_t len) {
    switch (s.weighted({6, 3, 1})) {
        case 0: return (int) s.range(0, (int64_t) len);
        case 1: return (int) s.range(-3, (int64_t) len + 6);
        default: return s.pick<int>({-1000000, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), std::numeric_limits<int>::max() - 1, 100000});
    }
}
void quirkLastIndexOf() {
    CHECK_EQ(JString("tieng viet").lastIndexOf(JString("iet"), 8), 7, "lastIndexOf");
}
void run(Src &s) {
    B h = content(s);
    JString j;
    switch (s.range(0, 5)) {
        case 0: j = J(h); break;
        case 1: { Array<char> a; for (char c : h) a.push(c); j = JString(a); break; }
        case 2: { Array<byte> a; for (char c : h) a.push((byte) c); j = JString(a); break; }
        case 3: j = JString(h); break;
        case 4: { if (h.size() > 5000) j = J(h); else for (char c : h) j += c; break; }
        default: { JString t = J(h); j = t.clone(); break; }
    }
    TRACE("string " << show(h));
    const JString &c = j;
    CHECK_EQ(c.length(), (int) h.size(), "");
    CHECK_EQ(c.getSize(), (int) h.size(), "");
    CHECK_EQ((bool) c.isEmpty(), h.empty(), "");
    { std::string whole = c; CHECK_EQ(whole, h, "as std::string"); CHECK_EQ(B((const_string) c, h.size()), h, "as const_string"); CHECK_EQ(B((string) c, h.size() + 1), h + B(1, '\0'), "as string, with its end"); }
    int ops = 0, hits = 0;
    while (s.more()) {
        ++ops;
        switch (s.weighted({4, 6, 6, 6, 6, 5, 4, 8, 5, 3, 5})) {
            case 0: {
                int i = index(s, h.size());
                TRACE("charAt/getStringFromIndex/[] at " << i);
                bool in = i >= 0 && i < (int) h.size();
                if (in) {
                    CHECK_EQ(c.charAt(i), h[(size_t) i], "charAt " << i);
                    CHECK_EQ(c[i], h[(size_t) i], "[] " << i);
                    CHECK_EQ(j[i], h[(size_t) i], "[] " << i);
                    CHECK_EQ(S(c.getStringFromIndex(i)), h.substr((size_t) i), "");
                } else {
                    LABEL("index outside");
                    CHECK(throws<jl::IndexOutOfBoundsException>([&] { c.charAt(i); }), "charAt(" << i << ") of " << show(h));
                    if (i != (int) h.size()) CHECK(throws<jl::IndexOutOfBoundsException>([&] { c.getStringFromIndex(i); }), "getStringFromIndex(" << i << ") of " << show(h));
                }
                break;
            }
            case 1: {
                char ch = h.empty() || s.chance(1, 4) ? (char) s.u8() : h[(size_t) s.range(0, (int64_t) h.size() - 1)];
                int from = index(s, h.size());
                int arg = s.flip() ? (int) ch : (int) (unsigned char) ch;
                TRACE("indexOf(" << show(ch) << "," << from << ")");
                B n(1, ch);
                CHECK_EQ(c.indexOf(arg), mIndexOf(h, n, 0), "indexOf " << show(ch) << " in " << show(h));
                CHECK_EQ(c.indexOf(arg, from), mIndexOf(h, n, from), "indexOf " << show(ch) << " from " << from << " in " << show(h));
                CHECK_EQ(c.lastIndexOf(arg), mLastIndexOf(h, n, (long) h.size()), "lastIndexOf " << show(ch) << " in " << show(h));
                CHECK_EQ(c.lastIndexOf(arg, from), mLastIndexOf(h, n, from), "lastIndexOf " << show(ch) << " from " << from << " in " << show(h));
                break;
            }
            case 2: {
                B n = needle(s, h);
                TRACE("indexOf(" << show(n) << ")");
                int w = mIndexOf(h, n, 0);
                hits += w >= 0 && !n.empty();
                CHECK_EQ(c.indexOf(J(n)), w, "in " << show(h));
                CHECK_EQ((bool) c.contains(J(n)), w >= 0, show(n) << " in " << show(h));
                JString jn = J(n);
                const CharSequence &cs = jn;
                CHECK_EQ((bool) c.contains(cs), w >= 0, show(n) << " in " << show(h));
                break;
            }
            case 3: {
                B n = needle(s, h);
                int from = index(s, h.size());
                TRACE("indexOf(" << show(n) << "," << from << ")");
                CHECK_EQ(c.indexOf(J(n), from), mIndexOf(h, n, from), show(n) << " from " << from << " in " << show(h));
                break;
            }
            case 4: {
                B n = needle(s, h);
                TRACE("lastIndexOf(" << show(n) << ")");
                CHECK_EQ(c.lastIndexOf(J(n)), mLastIndexOf(h, n, (long) h.size()), show(n) << " in " << show(h));
                break;
            }
            case 5: {
                B n = needle(s, h);
                int from = index(s, h.size());
                TRACE("lastIndexOf(" << show(n) << "," << from << ")");
                int w = mLastIndexOf(h, n, from), g = c.lastIndexOf(J(n), from);
                if (g == -1 && w >= 0 && from >= 0 && from < (int) h.size() && (long) from + (long) n.size() > (long) h.size() && known("lastindexof_near_end")) { LABEL("known: lastIndexOf near end"); break; }
                CHECK_EQ(g, w, show(n) << " from " << from << " in " << show(h));
                break;
            }
            case 6: {
                B n = needle(s, h);
                if (s.flip()) n = h.substr(0, (size_t) s.size((int64_t) h.size()));
                TRACE("startsWith/endsWith " << show(n));
                bool st = n.size() <= h.size() && h.compare(0, n.size(), n) == 0;
                bool en = n.size() <= h.size() && h.compare(h.size() - n.size(), n.size(), n) == 0;
                hits += st + en;
                CHECK_EQ((bool) c.startsWith(J(n)), st, show(n) << " / " << show(h));
                CHECK_EQ((bool) c.endsWith(J(n)), en, show(n) << " / " << show(h));
                int off = index(s, h.size());
                bool so = off >= 0 && off <= (int) h.size() && n.size() <= h.size() - (size_t) off && h.compare((size_t) off, n.size(), n) == 0;
                CHECK_EQ((bool) c.startsWith(J(n), off), so, show(n) << " at " << off << " / " << show(h));
                B tail = h.substr((size_t) s.range(0, (int64_t) h.size()));
                CHECK((bool) c.endsWith(J(tail)), show(tail) << " / " << show(h));
                break;
            }
            case 7: {
                B o = s.flip() ? h : s.flip() ? needle(s, h) : content(s);
                if (s.chance(1, 3)) for (char &x : o) if (s.flip()) x = (char) (x >= 'a' && x <= 'z' ? x - 32 : low(x));
                int a = index(s, h.size()), b = index(s, o.size()), len = s.chance(1, 8) ? index(s, h.size()) : (int) s.range(0, 12);
                if (s.flip() && a >= 0 && a <= (int) o.size()) b = a;
                bool ic = s.flip();
                TRACE("regionMatches(" << ic << "," << a << "," << show(o) << "," << b << "," << len << ")");
                if (len < 0 || a > 1000000 || b > 1000000 || len > 1000000 || a < -1000000 || b < -1000000) { LABEL("extreme region skipped"); break; }
                bool in1 = a >= 0 && (long) a + len <= (long) h.size(), in2 = b >= 0 && (long) b + len <= (long) o.size();
                bool g = ic ? (bool) c.regionMatches(true, a, J(o), b, len) : s.flip() ? (bool) c.regionMatches(a, J(o), b, len) : (bool) c.regionMatches(false, a, J(o), b, len);
                if (in1 && in2) {
                    B x = h.substr((size_t) a, (size_t) len), y = o.substr((size_t) b, (size_t) len);
                    bool w = ic ? lower(x) == lower(y) : x == y;
                    hits += w && len > 0;
                    CHECK_EQ(g, w, show(h) << "@" << a << " vs " << show(o) << "@" << b << " len " << len << " ignoreCase " << ic);
                } else if ((in1 || in2) && len > 0) {
                    LABEL("region outside one string");
                    CHECK_EQ(g, false, show(h) << "@" << a << " vs " << show(o) << "@" << b << " len " << len);
                }
                break;
            }
            case 8: {
                TRACE("contentEquals/toCharArray/getBytes");
                B o = s.flip() ? h : needle(s, h);
                JString jo = J(o);
                CHECK_EQ(c.indexOf(c), 0, "indexOf itself"); CHECK_EQ(c.lastIndexOf(c), 0, "lastIndexOf itself"); CHECK((bool) c.contains(c) && (bool) c.startsWith(c) && (bool) c.endsWith(c) && (bool) c.contentEquals(c) && (bool) c.regionMatches(true, 0, c, 0, (int) h.size()), "itself");
                CHECK_EQ((bool) c.contentEquals(jo), o == h, show(o) << " / " << show(h));
                Array<char> ca = c.toCharArray();
                Array<byte> ba = c.getBytes();
                CHECK_EQ((int) ca.length, (int) h.size(), "toCharArray");
                CHECK_EQ((int) ba.length, (int) h.size(), "getBytes");
                for (size_t i = 0; i < h.size(); ++i) { CHECK_EQ(ca.get((int) i), h[i], "toCharArray " << i); CHECK_EQ((char) ba.get((int) i), h[i], "getBytes " << i); }
                CHECK_EQ(c.toSTLString(), h, "");
                CHECK_EQ(B(c.toCharPointer()), B(h.c_str()), "");
                CHECK_EQ(S(c.toString()), h, "");
                break;
            }
            case 9: {
                StringBuilder sb;
                TRACE("compare with another CharSequence");
                if (h.find('\0') == B::npos) {
                    sb.append(J(h));
                    CHECK((bool) c.contentEquals(sb), "contentEquals(StringBuilder) " << show(h));
                    CHECK((bool) c.contains(sb), "contains(StringBuilder) " << show(h));
                    sb.append('x');
                    CHECK(!(bool) c.contentEquals(sb), "contentEquals(longer)");
                }
                break;
            }
            default: {
                int b = index(s, h.size()), e = s.chance(1, 3) ? index(s, h.size()) : b + (int) s.range(0, 8);
                int dl = s.chance(1, 8) ? (int) h.size() + (int) s.range(0, 20) : (int) s.size(60), d = s.chance(1, 5) ? index(s, (size_t) dl) : (int) s.range(0, dl);
                if (e > 1000000 || b > 1000000 || d > 1000000) break;
                TRACE("getChars(" << b << "," << e << ", dst[" << dl << "]," << d << ")");
                Array<char> dst;
                B w;
                for (int i = 0; i < dl; ++i) { dst.push((char) ('0' + i % 10)); w += (char) ('0' + i % 10); }
                bool ok = b >= 0 && b <= e && e <= (int) h.size() && d >= 0 && (long) d + (e - b) <= dl;
                if (ok) {
                    c.getChars(b, e, dst, d);
                    w.replace((size_t) d, (size_t) (e - b), h, (size_t) b, (size_t) (e - b));
                } else {
                    LABEL("getChars rejected");
                    CHECK(throws<jl::StringIndexOutOfBoundsException>([&] { c.getChars(b, e, dst, d); }), "getChars(" << b << "," << e << ", dst[" << dl << "]," << d << ") accepted");
                }
                CHECK_EQ((int) dst.length, dl, "destination length");
                for (int i = 0; i < dl; ++i) CHECK_EQ(dst.get(i), w[(size_t) i], "getChars destination at " << i);
            }
        }
        CHECK_EQ(S(c), h, "the string changed");
    }
    if (h.size() >= 2 && ops >= 2) markNontrivial();
    if (hits) LABEL("case with a match");
}
}
PROPERTY(T01, run, 512, "a case is one string (any bytes) built by one of six constructors and a series of queries with present, near-miss and out-of-range arguments; non-trivial: length of at least 2 and at least 2 queries", {"lastindexof_near_end", quirkLastIndexOf})
