// T03: equality, ordering and hashing over histories of edited strings
#include "jv.hpp"
#include <unordered_map>
namespace {
typedef std::string B;
B lower(B s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }
int sgn(long v) { return (v > 0) - (v < 0); }
int cmp(const B &a, const B &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1;
    return sgn((long) a.size() - (long) b.size());
}
long hashOf(const B &b) { unsigned h = 0; for (char c : b) h = 31 * h + (unsigned) (int) c; return (int) h; }
struct Slot { JString j; B m; };
void pair(const Slot &a, const Slot &b) {
    bool eq = a.m == b.m;
    int c = cmp(a.m, b.m), ci = cmp(lower(a.m), lower(b.m));
    const JString &x = a.j, &y = b.j;
    CHECK_EQ((bool) x.equals(y), eq, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x == y), eq, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x != y), !eq, show(a.m) << " / " << show(b.m));
    CHECK_EQ(sgn(x.compareTo(y)), c, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x < y), c < 0, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x <= y), c <= 0, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x > y), c > 0, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) (x >= y), c >= 0, show(a.m) << " / " << show(b.m));
    CHECK_EQ(sgn(x.compareToIgnoreCase(y)), ci, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) x.equalsIgnoreCase(y), ci == 0, show(a.m) << " / " << show(b.m));
    CHECK_EQ((bool) x.contentEquals(y), eq, show(a.m) << " / " << show(b.m));
    if (eq) { LABEL("equal pair"); CHECK_EQ(x.hashCode(), y.hashCode(), ""); CHECK(std::hash<JString>()(x) == std::hash<JString>()(y), "std::hash of equal strings"); }
    const Comparable<JString> &cp = x;
    CHECK_EQ(sgn(cp.compareTo(y)), c, "through Comparable");
}
B fresh(Src &s) { B big; if (longText(s, big)) return big; return s.text(40, s.chance(1, 3) ? 4 : -1); }
void run(Src &s) {
    std::vector<Slot> p(4);
    B base = fresh(s);
    for (Slot &a : p) {
        switch (s.range(0, 4)) {
            case 0: a.m = fresh(s); break;
            case 1: a.m = base; break;
            case 2: a.m = base.substr(0, (size_t) s.range(0, (int64_t) base.size())); break;
            case 3: a.m = base; if (!base.empty()) a.m[(size_t) s.range(0, (int64_t) base.size() - 1)] ^= (char) (1 << s.range(0, 7)); break;
            default: a.m = base; for (char &c : a.m) if (s.flip() && isalpha((unsigned char) c) && (unsigned char) c < 128) c = (char) (c ^ 32);
        }
        a.j = J(a.m);
        TRACE("#" << (&a - &p[0]) << " = " << show(a.m));
    }
    int edits = 0, after = 0;
    while (s.more()) {
        size_t i = (size_t) s.range(0, 3), k = (size_t) s.range(0, 3);
        Slot &a = p[i];
        switch (s.weighted({6, 4, 4, 3, 5, 8, 4, 3})) {
            case 0: TRACE("#" << i << ".hashCode()"); CHECK_EQ(a.j.hashCode(), hashOf(a.m), show(a.m)); after += edits > 0; break;
            case 1: TRACE("#" << i << " = #" << k); a.j = p[k].j; { B t = p[k].m; a.m = t; } ++edits; break;
            case 2: { char c = (char) s.u8(); TRACE("#" << i << " += " << show(c)); a.j += c; a.m += c; ++edits; break; }
            case 3: { TRACE("#" << i << " += #" << k); B t = p[k].m; if (a.m.size() + t.size() > 400) break; a.j += p[k].j; a.m += t; ++edits; break; }
            case 4: {
                if (a.m.empty()) break;
                size_t at = (size_t) s.range(0, (int64_t) a.m.size() - 1);
                char c = s.flip() ? (char) s.u8() : (char) (a.m[at] ^ 32);
                TRACE("#" << i << "[" << at << "] = " << show(c));
                a.j[(int) at] = c;
                a.m[at] = c;
                ++edits;
                break;
            }
            case 5: TRACE("compare #" << i << " #" << k); pair(a, p[k]); pair(p[k], a); break;
            case 6: {
                TRACE("copies of #" << i);
                JString c1(a.j), c2 = a.j.clone(), c3 = a.j.toString();
                Slot t{c1, a.m};
                pair(t, a);
                CHECK_EQ(c1.hashCode(), hashOf(a.m), show(a.m));
                CHECK_EQ(c2.hashCode(), hashOf(a.m), show(a.m));
                c3 += 'z';
                CHECK_EQ(c3.hashCode(), hashOf(a.m + 'z'), "after += on a copy");
                break;
            }
            default: {
                TRACE("unordered_map with all");
                std::unordered_map<JString, int> u;
                std::map<JString, int> o;
                std::map<B, int> w;
                for (Slot &x : p) { ++u[x.j]; ++o[x.j]; ++w[x.m]; }
                CHECK_EQ(u.size(), w.size(), "distinct keys in a hash map");
                CHECK_EQ(o.size(), w.size(), "distinct keys in an ordered map");
            }
        }
    }
    for (Slot &a : p) for (Slot &b : p) pair(a, b);
    for (Slot &a : p) { CHECK_EQ(a.j.hashCode(), hashOf(a.m), show(a.m)); CHECK_EQ(S(a.j), a.m, ""); }
    if (edits >= 1 && after >= 1) markNontrivial();
}
}
PROPERTY(T03, run, 384, "a case is four related strings edited by assignment, append and in-place writes with hash and comparison queries in between; non-trivial: at least one edit followed by a hash query")
