// U01: ArrayList histories against std::vector
#include "jv.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
namespace {
using ju::ArrayList; using jl::Integer; using jl::IndexOutOfBoundsException;
struct IntE { typedef Integer T; typedef int M; static M gen(Src &s) { return (int) s.range(-3, 4); } static T in(M m) { return Integer(m); } static M out(const T &t) { return t.intValue(); } static std::string text(M m) { return std::to_string(m); } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(6, (int) s.range(0, 2)); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); }
    static std::string text(const M &m) { return !m.empty() && (m[0] == '[' || m[0] == '{') ? m : "\"" + m + "\""; } };
template<class E> struct Open : ArrayList<E> { void cut(int a, int b) { this->removeRange(a, b); } Open(const ArrayList<E> &l) : ArrayList<E>(l) {} };
template<class K> void history(Src &s) {
    typedef typename K::T T; typedef typename K::M M; typedef ArrayList<T> L; typedef std::vector<M> V;
    const int N = 2;
    L l[N]; V m[N];
    int steps = 0;
    auto same = [&](const L &x, const V &v, const char *what) {
        CHECK_EQ((long) x.size(), (long) v.size(), what << " size"); CHECK_EQ((bool) x.isEmpty(), v.empty(), what << " isEmpty");
        for (size_t i = 0; i < v.size(); ++i) CHECK_EQ(K::out(x.get((int) i)), v[i], what << " element " << i);
        size_t i = 0;
        for (const T &e : x) { CHECK(i < v.size(), what << " iterates too far"); CHECK_EQ(K::out(e), v[i], what << " element " << i << " by iteration"); ++i; }
        CHECK_EQ(i, v.size(), what << " elements iterated");
    };
    typename K::M pool[4];
    auto fill = [&](long k) -> typename K::M { if (k % 5 == 4) { typename K::M e; nth(k, e); return e; } return pool[(k * k / 3) % 4]; };
    long many = manyElements(s);
    if (many) { for (auto &e : pool) e = K::gen(s); TRACE("l0 begins with " << many << " elements: " << show(pool[0]) << ", " << show(pool[1]) << ", " << show(pool[2]) << ", " << show(pool[3]) << " and numbers"); }
    for (long k = 0; k < many; ++k) { l[0].add(K::in(fill(k))); m[0].push_back(fill(k)); }
    do {
        int i = (int) s.range(0, N - 1), n = (int) m[i].size();
        ++steps;
        V &v = m[i]; L &x = l[i];
        auto anyIndex = [&] { return s.chance(1, 6) ? s.i32() : (int) s.range(-2, n + 2); };
        switch (s.weighted({7, 4, 4, 4, 4, 1, 2, 2, 3, 3, 2, 2, 2, 2})) {
            case 0: { if (n && s.chance(1, 5)) { int k = (int) s.range(0, n - 1); TRACE("l" << i << ".add of its own element " << k); CHECK(x.add(x[k]), "add returned false"); M e = v[(size_t) k]; v.push_back(e); LABEL("own element"); break; }
                M e = K::gen(s); TRACE("l" << i << ".add " << show(e)); CHECK(x.add(K::in(e)), "add returned false"); v.push_back(e); break; }
            case 1: {
                int k = anyIndex(); M e = K::gen(s);
                TRACE("l" << i << ".add(" << k << ", " << show(e) << ") of " << n);
                if (n && k >= 0 && k <= n && s.chance(1, 5)) { int o = (int) s.range(0, n - 1); TRACE("  its own element " << o); e = v[(size_t) o]; x.add(k, x[o]); v.insert(v.begin() + k, e); LABEL("own element"); }
                else if (k >= 0 && k <= n) { x.add(k, K::in(e)); v.insert(v.begin() + k, e); if (k == n) LABEL("insert at the end"); }
                else { CHECK(throws<IndexOutOfBoundsException>([&] { x.add(k, K::in(e)); }), "add at " << k << " of " << n << " accepted"); LABEL("outside index"); markNontrivial(); }
                break;
            }
            case 2: {
                int k = anyIndex();
                TRACE("l" << i << ".remove(" << k << ") of " << n);
                if (k >= 0 && k < n) { CHECK_EQ(K::out(x.remove(k)), v[(size_t) k], "removed element"); v.erase(v.begin() + k); }
                else { CHECK(throws<IndexOutOfBoundsException>([&] { x.remove(k); }), "remove at " << k << " of " << n << " accepted"); LABEL("outside index"); markNontrivial(); }
                break;
            }
            case 3: {
                M e = n && s.chance(2, 3) ? v[(size_t) s.range(0, n - 1)] : K::gen(s);
                TRACE("l" << i << ".remove element " << show(e));
                auto it = std::find(v.begin(), v.end(), e);
                if (it != v.end() && s.chance(1, 4)) { int k = n - 1; while (v[(size_t) k] != e) --k; TRACE("  itself, at " << k); LABEL("own element"); CHECK(x.remove(x[k]), "remove its own element"); }
                else CHECK_EQ((bool) x.remove(K::in(e)), it != v.end(), "remove element " << show(e));
                if (std::count(v.begin(), v.end(), e) > 1) LABEL("remove one of several equal");
                if (it != v.end()) v.erase(it);
                break;
            }
            case 4: {
                int k = anyIndex(); M e = K::gen(s);
                TRACE("l" << i << ".set(" << k << ", " << show(e) << ") of " << n);
                if (k >= 0 && k < n && s.chance(1, 5)) { int o = (int) s.range(0, n - 1); TRACE("  its own element " << o); e = v[(size_t) o]; CHECK_EQ(K::out(x.set(k, x[o])), v[(size_t) k], "previous element"); v[(size_t) k] = e; LABEL("own element"); }
                else if (k >= 0 && k < n) { CHECK_EQ(K::out(x.set(k, K::in(e))), v[(size_t) k], "previous element"); v[(size_t) k] = e; }
                else { CHECK(throws<IndexOutOfBoundsException>([&] { x.set(k, K::in(e)); }), "set at " << k << " of " << n << " accepted"); LABEL("outside index"); markNontrivial(); }
                break;
            }
            case 5: TRACE("l" << i << ".clear"); x.clear(); v.clear(); break;
            case 6: TRACE("l" << i << " = l" << 1 - i); if (s.chance(1, 5)) { x = *&x; } else { x = l[1 - i]; v = m[1 - i]; } break;
            case 7: {
                TRACE("clone of l" << i << " edited");
                L c = s.flip() ? x.clone() : L(x); V w(v);
                same(c, w, "clone"); M e = K::gen(s); c.add(K::in(e)); w.push_back(e); c.set(0, K::in(e)); w[0] = e; same(c, w, "edited clone");
                if (s.flip()) { x = c; v = w; }
                break;
            }
            case 8: {
                M e = n && s.flip() ? v[(size_t) s.range(0, n - 1)] : K::gen(s);
                TRACE("l" << i << " searches " << show(e));
                auto f = std::find(v.begin(), v.end(), e); auto b = std::find(v.rbegin(), v.rend(), e);
                if (f != v.end()) { int k = (int) (f - v.begin()); CHECK_EQ(x.indexOf(x[n - 1 - (int) (b - v.rbegin())]), k, "indexOf its own element"); CHECK_EQ(x.lastIndexOf(x[k]), n - 1 - (int) (b - v.rbegin()), "lastIndexOf its own element"); CHECK(x.contains(x[k]), "contains its own element"); }
                CHECK_EQ(x.indexOf(K::in(e)), f == v.end() ? -1 : (int) (f - v.begin()), "indexOf " << show(e));
                CHECK_EQ(x.lastIndexOf(K::in(e)), b == v.rend() ? -1 : n - 1 - (int) (b - v.rbegin()), "lastIndexOf " << show(e));
                CHECK_EQ((bool) x.contains(K::in(e)), f != v.end(), "contains " << show(e));
                break;
            }
            case 9: {
                int k = anyIndex();
                TRACE("l" << i << " access " << k << " of " << n);
                if (k >= 0 && k < n) {
                    CHECK_EQ(K::out(x[k]), v[(size_t) k], "[" << k << "]");
                    M e = K::gen(s); x[k] = K::in(e); v[(size_t) k] = e;
                } else {
                    CHECK(throws<IndexOutOfBoundsException>([&] { x.get(k); }), "get(" << k << ") of " << n << " accepted");
                    CHECK(throws<IndexOutOfBoundsException>([&] { x[k]; }), "[" << k << "] of " << n << " accepted");
                    LABEL("outside index"); markNontrivial();
                }
                break;
            }
            case 10: {
                TRACE("l" << i << " array and text");
                Array<T> a = x.toArray();
                CHECK_EQ(a.length, n, "toArray length");
                std::string want = "[", stream;
                for (int k = 0; k < n; ++k) { CHECK_EQ(K::out(a.get(k)), v[(size_t) k], "toArray " << k); want += (k ? ", " : "") + K::text(v[(size_t) k]); }
                if (n < 5000) CHECK_EQ(S(x.toString()), want + "]", "toString");
                std::ostringstream o, w; o << x; for (auto &e : v) w << e << " "; w << std::endl;
                CHECK_EQ(o.str(), w.str(), "stream text");
                break;
            }
            case 11: {
                int stop = (int) s.range(0, 8), seen = 0;
                TRACE("l" << i << ".forEach until " << stop);
                x.forEach([&](T e) -> boolean { CHECK(seen < n, "forEach too far"); CHECK_EQ(K::out(e), v[(size_t) seen], "forEach element " << seen); return seen++ != stop; });
                CHECK_EQ(seen, std::min(stop + 1, n), "elements visited");
                break;
            }
            case 12: {
                int a = anyIndex(), b = anyIndex();
                TRACE("l" << i << ".removeRange " << a << ".." << b << " of " << n);
                Open<T> o(x);
                if (a >= 0 && a <= b && b <= n) { o.cut(a, b); v.erase(v.begin() + a, v.begin() + b); x = o; }
                else { CHECK(throws<IndexOutOfBoundsException>([&] { o.cut(a, b); }), "removeRange " << a << ".." << b << " of " << n << " accepted"); same(o, v, "after a rejected range"); LABEL("outside range"); markNontrivial(); }
                break;
            }
            default:
                switch (s.range(0, 3)) {
                    case 0: TRACE("l" << i << ".ensureCapacity"); x.ensureCapacity((int) s.range(0, 100)); break;
                    case 1: TRACE("l" << i << ".trimToSize"); x.trimToSize(); break;
                    case 2: { M a = K::gen(s), b = K::gen(s); TRACE("l" << i << " = {" << show(a) << ", " << show(b) << "}"); L c({K::in(a), K::in(b)}); x = c; v = V{a, b}; break; }
                    default: {
                        int c = (int) s.size(40);
                        TRACE("l" << i << " = from array, or of capacity " << c);
                        if (s.flip()) { Array<T> a; v.clear(); for (int k = 0; k < c; ++k) { M e = K::gen(s); a.push(K::in(e)); v.push_back(e); } x = L(a); }
                        else { x = L(c); v = V((size_t) (x.size() == 0 ? 0 : c)); LABEL("capacity"); }
                    }
                }
        }
        for (int q = 0; q < N; ++q) same(l[q], m[q], q == i ? "target" : "other list");
    } while (s.more() && steps < stepsAfter(many, 40));
    if (steps >= 4) markNontrivial();
}
void run(Src &s) { if (s.flip()) { history<IntE>(s); LABEL("Integer"); } else { history<StrE>(s); LABEL("String"); } }
}
PROPERTY(U01, run, 400, "a case is a history of up to 40 operations over two lists with small element domains; non-trivial with at least 4 operations or an index outside the list",
    {"initial_capacity", [] { ArrayList<Integer> l(3); CHECK_EQ((long) l.size(), 0L, "ArrayList(3) is not an empty list"); }})
