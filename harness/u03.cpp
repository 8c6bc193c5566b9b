// U03: Vector histories against std::vector (with the documented growth rule), Stack against a LIFO model
#include "jv.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
namespace {
using ju::Vector; using ju::Stack; using jl::Integer; using jl::IllegalArgumentException;
struct IntE { typedef Integer T; typedef int M; static M gen(Src &s) { return (int) s.range(-3, 4); } static T in(M m) { return Integer(m); } static M out(const T &t) { return t.intValue(); }
    static bool take(Vector<T> &v, M m, bool alt) { CHECK(!v.remove(jl::Object()), "removed an object that is no element"); return alt ? v.removeElement(Integer(m)) : v.remove(Integer(m)); } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(6, (int) s.range(0, 2)); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); }
    static bool take(Vector<T> &v, const M &m, bool) { int k = v.indexOf(J(m)); if (k < 0) return false; v.removeElementAt(k); return true; } };  // String is no Object: not removable by value
template<class E> struct Open : Vector<E> { Open(const Vector<E> &v) : Vector<E>(v) {} void cut(int a, int b) { this->removeRange(a, b); } };
template<class T> struct Model { std::vector<T> e; long cap = 10, inc = 0;
    void need(long n) { if (n > 0 && n > cap) { long c = inc > 0 ? cap + inc : cap * 2; cap = std::max(c, n); } } };
template<class T, class F> bool withList(const std::vector<T> &a, F f) {
    switch (a.size()) { case 0: return f({}); case 1: return f({a[0]}); case 2: return f({a[0], a[1]}); case 3: return f({a[0], a[1], a[2]}); default: return f({a[0], a[1], a[2], a[3]}); }
}
template<class K> void vectors(Src &s) {
    typedef typename K::T T; typedef typename K::M M; typedef Vector<T> L;
    typedef std::vector<M> V;
    const int N = 2;
    std::unique_ptr<L> l[N]; Model<M> m[N];
    int steps = 0;
    for (int i = 0; i < N; ++i) {
        if (s.chance(1, 8)) { int c = -(int) s.range(1, 100); CHECK(throwsAny([&] { L bad(c); }) && throwsAny([&] { L bad(c, 3); }), "capacity " << c << " accepted"); LABEL("negative capacity"); }
        switch (s.range(0, 2)) {
            case 0: l[i].reset(new L()); break;
            case 1: m[i].cap = (long) s.size(30); l[i].reset(new L((int) m[i].cap)); TRACE("v" << i << " of capacity " << m[i].cap); break;
            default: m[i].cap = (long) s.size(30); m[i].inc = s.range(-2, 7); l[i].reset(new L((int) m[i].cap, (int) m[i].inc)); TRACE("v" << i << " of capacity " << m[i].cap << " increment " << m[i].inc); if (m[i].inc > 0) LABEL("increment");
        }
    }
    auto same = [&](const L &x, const V &v, const char *what) {
        CHECK_EQ(x.size(), (int) v.size(), what << " size"); CHECK_EQ((bool) x.isEmpty(), v.empty(), what << " isEmpty");
        CHECK(x.capacity() >= x.size(), what << " capacity " << x.capacity() << " below size " << x.size());
        for (size_t i = 0; i < v.size(); ++i) CHECK_EQ(K::out(x.get((int) i)), v[i], what << " element " << i);
        size_t i = 0;
        for (const T &e : x) { CHECK(i < v.size(), what << " iterates too far"); CHECK_EQ(K::out(e), v[i], what << " element " << i << " by iteration"); ++i; }
        CHECK_EQ(i, v.size(), what << " elements iterated");
        CHECK_EQ((size_t) (const_cast<L &>(x).end() - const_cast<L &>(x).begin()), v.size(), what << " elements between begin and end");
    };
    typename K::M pool[4];
    auto fill = [&](long k) -> typename K::M { if (k % 5 == 4) { typename K::M e; nth(k, e); return e; } return pool[(k * k / 3) % 4]; };
    long many = manyElements(s);
    if (many) { for (auto &e : pool) e = K::gen(s); TRACE("v0 begins with " << many << " elements: " << show(pool[0]) << ", " << show(pool[1]) << ", " << show(pool[2]) << ", " << show(pool[3]) << " and numbers"); }
    if (m[0].inc > 0 && many > 2000) many = 2000;
    for (long k = 0; k < many; ++k) { m[0].need(k + 1); l[0]->add(K::in(fill(k))); m[0].e.push_back(fill(k)); }
    do {
        int i = (int) s.range(0, N - 1); L &x = *l[i]; Model<M> &q = m[i]; V &v = q.e; int n = (int) v.size();
        ++steps;
        auto anyIndex = [&] { return s.chance(1, 6) ? s.i32() : (int) s.range(-2, n + 2); };
        auto element = [&] { return n && s.flip() ? v[(size_t) s.range(0, n - 1)] : K::gen(s); };
        auto outside = [&](const char *what, int k, std::function<void()> f) {
            CHECK(throws<IllegalArgumentException>(f), what << " at " << k << " of " << n << " accepted"); LABEL("outside index"); markNontrivial(); };
        switch (s.weighted({7, 4, 3, 3, 3, 1, 2, 2, 3, 3, 3, 2, 3, 3, 3, 2, 3})) {
            case 0: {
                q.need(n + 1);
                if (n && s.chance(1, 4)) { int k = (int) s.range(0, n - 1); TRACE("v" << i << ".add of its own element " << k); CHECK(x.add(x[k]), "add"); M e = v[(size_t) k]; v.push_back(e); LABEL("own element"); }
                else { M e = K::gen(s); TRACE("v" << i << ".add " << show(e)); if (s.flip()) CHECK(x.add(K::in(e)), "add returned false"); else x.addElement(K::in(e)); v.push_back(e); }
                break;
            }
            case 1: {
                int k = anyIndex(); M e = K::gen(s); bool own = n && s.chance(1, 4); int o = own ? (int) s.range(0, n - 1) : 0; if (own) e = v[(size_t) o];
                TRACE("v" << i << ".add(" << k << ", " << show(e) << ") of " << n << (own ? " own element" : ""));
                if (k >= 0 && k <= n) { q.need(n + 1); if (own && s.flip()) x.add(k, x[o]); else if (own) x.insertElementAt(x[o], k); else if (s.flip()) x.add(k, K::in(e)); else x.insertElementAt(K::in(e), k); v.insert(v.begin() + k, e); }
                else outside("add", k, [&] { x.add(k, K::in(e)); });
                break;
            }
            case 2: {
                int k = anyIndex();
                TRACE("v" << i << ".remove(" << k << ") of " << n);
                if (k >= 0 && k < n) { if (s.flip()) CHECK_EQ(K::out(x.remove(k)), v[(size_t) k], "removed element"); else x.removeElementAt(k); v.erase(v.begin() + k); }
                else { outside("remove", k, [&] { x.remove(k); }); outside("removeElementAt", k, [&] { x.removeElementAt(k); }); }
                break;
            }
            case 3: {
                M e = element();
                TRACE("v" << i << ".remove element " << show(e));
                auto it = std::find(v.begin(), v.end(), e);
                CHECK_EQ((bool) K::take(x, e, s.flip()), it != v.end(), "remove element " << show(e));
                if (it != v.end()) v.erase(it);
                break;
            }
            case 4: {
                int k = anyIndex(); M e = K::gen(s);
                TRACE("v" << i << ".set(" << k << ", " << show(e) << ") of " << n);
                if (k >= 0 && k < n && s.chance(1, 5)) {
                    int o = (int) s.range(0, n - 1); e = v[(size_t) o]; TRACE("  its own element " << o << " " << show(e)); LABEL("own element");
                    switch (s.range(0, 2)) { case 0: CHECK_EQ(K::out(x.set(k, x[o])), v[(size_t) k], "previous element"); break; case 1: x.setElementAt(x[o], k); break; default: x[k] = x[o]; }
                    v[(size_t) k] = e;
                } else if (k >= 0 && k < n) {
                    switch (s.range(0, 3)) { case 0: CHECK_EQ(K::out(x.set(k, K::in(e))), v[(size_t) k], "previous element"); break; case 1: x.setElementAt(K::in(e), k); break; case 2: x[k] = K::in(e); break; default: { int p = 0; for (T &r : x) if (p++ == k) r = K::in(e); } }
                    v[(size_t) k] = e;
                } else { outside("set", k, [&] { x.set(k, K::in(e)); }); outside("setElementAt", k, [&] { x.setElementAt(K::in(e), k); }); }
                break;
            }
            case 5: TRACE("v" << i << " cleared"); if (s.flip()) x.clear(); else x.removeAllElements(); v.clear(); break;
            case 6: TRACE("v" << i << " = v" << 1 - i); if (s.chance(1, 4)) { x = *&x; LABEL("self assignment"); } else { q.need((long) m[1 - i].e.size()); x = *l[1 - i]; v = m[1 - i].e; q.cap = x.capacity(); } break;
            case 7: {
                TRACE("copy of v" << i << " edited");
                Model<M> w(q); bool cl = s.flip();
                std::unique_ptr<L> c(cl ? new L(x.clone()) : new L(x));
                same(*c, v, "copy"); CHECK(x.equals(*c) && c->equals(x), "copy not equal"); w.cap = c->capacity();
                M e = K::gen(s);
                for (int k = (int) s.size(12); k > 0; --k) { w.need((long) w.e.size() + 1); c->add(K::in(e)); w.e.push_back(e); CHECK_EQ((long) c->capacity(), w.cap, "capacity of a copy with increment " << w.inc << " after adding to " << w.e.size() - 1); }
                if (!w.e.empty()) { (*c)[0] = K::in(e); w.e[0] = e; }
                same(*c, w.e, "edited copy");
                if (s.flip()) { l[i] = std::move(c); q = w; }
                break;
            }
            case 8: {
                M e = element(); int k = anyIndex();
                TRACE("v" << i << " searches " << show(e) << " from " << k);
                auto f = std::find(v.begin(), v.end(), e); auto b = std::find(v.rbegin(), v.rend(), e);
                if (n) { const T &own = x[(int) s.range(0, n - 1)]; M w = K::out(own); CHECK_EQ(x.indexOf(own), (int) (std::find(v.begin(), v.end(), w) - v.begin()), "indexOf its own element"); CHECK_EQ(x.lastIndexOf(own), n - 1 - (int) (std::find(v.rbegin(), v.rend(), w) - v.rbegin()), "lastIndexOf its own element"); }
                CHECK_EQ(x.indexOf(K::in(e)), f == v.end() ? -1 : (int) (f - v.begin()), "indexOf " << show(e));
                CHECK_EQ(x.lastIndexOf(K::in(e)), b == v.rend() ? -1 : n - 1 - (int) (b - v.rbegin()), "lastIndexOf " << show(e));
                CHECK_EQ((bool) x.contains(K::in(e)), f != v.end(), "contains " << show(e));
                if (k >= 0 && k < n) {
                    int wf = -1, wb = -1;
                    for (int p = n - 1; p >= k; --p) if (v[(size_t) p] == e) wf = p;
                    for (int p = 0; p <= k; ++p) if (v[(size_t) p] == e) wb = p;
                    CHECK_EQ(x.indexOf(K::in(e), k), wf, "indexOf " << show(e) << " from " << k);
                    CHECK_EQ(x.lastIndexOf(K::in(e), k), wb, "lastIndexOf " << show(e) << " from " << k);
                } else { outside("indexOf", k, [&] { x.indexOf(K::in(e), k); }); outside("lastIndexOf", k, [&] { x.lastIndexOf(K::in(e), k); }); }
                break;
            }
            case 9: {
                int k = anyIndex(); const L &c = x;
                TRACE("v" << i << " access " << k << " of " << n);
                if (k >= 0 && k < n) { CHECK_EQ(K::out(x[k]), v[(size_t) k], "[" << k << "]"); CHECK_EQ(K::out(c[k]), v[(size_t) k], "const [" << k << "]"); CHECK_EQ(K::out(x.elementAt(k)), v[(size_t) k], "elementAt(" << k << ")"); }
                else { outside("get", k, [&] { x.get(k); }); outside("elementAt", k, [&] { x.elementAt(k); }); outside("[]", k, [&] { x[k]; }); outside("const []", k, [&] { c[k]; }); }
                if (n) { CHECK_EQ(K::out(x.firstElement()), v.front(), "firstElement"); CHECK_EQ(K::out(x.lastElement()), v.back(), "lastElement"); }
                else { CHECK(throws<jl::Exception>([&] { x.firstElement(); }), "firstElement of nothing"); CHECK(throws<jl::Exception>([&] { x.lastElement(); }), "lastElement of nothing"); LABEL("empty access"); }
                break;
            }
            case 10: {
                V a((size_t) s.range(0, 4)); for (auto &e : a) e = element();
                std::vector<T> t; for (auto &e : a) t.push_back(K::in(e));
                int op = (int) s.range(0, 3); if (n > 5000) op = 2 + op % 2;      // removal takes time in proportion to the square of the size
                TRACE("v" << i << (op == 0 ? ".removeAll " : op == 1 ? ".retainAll " : op == 2 ? ".containsAll " : ".addAll ") << a.size() << " elements: " << [&] { std::string r; for (auto &e : a) r += show(e) + " "; return r; }());
                auto in = [&](const M &e) { return std::find(a.begin(), a.end(), e) != a.end(); };
                if (op < 2) {
                    V w; for (auto &e : v) if (in(e) == (op == 1)) w.push_back(e);
                    bool r = withList(t, [&](std::initializer_list<T> c) { return op == 0 ? x.removeAll(c) : x.retainAll(c); });
                    CHECK_EQ(r, w.size() != v.size(), "changed"); v = w;
                } else if (op == 2) {
                    bool all = true; for (auto &e : a) all = all && std::find(v.begin(), v.end(), e) != v.end();
                    CHECK_EQ(withList(t, [&](std::initializer_list<T> c) { return x.containsAll(c); }), all, "containsAll");
                } else {
                    int k = anyIndex();
                    if (s.chance(1, 3)) {
                        TRACE("  at the end");
                        CHECK_EQ(withList(t, [&](std::initializer_list<T> c) { return x.addAll(c); }), !a.empty(), "addAll changed");
                        for (size_t p = 0; p < a.size(); ++p) q.need(n + (long) p + 1);
                        v.insert(v.end(), a.begin(), a.end());
                        LABEL("addAll at the end");
                    } else if (k >= 0 && k <= n) {
                        TRACE("  at " << k << " of " << n);
                        CHECK_EQ(withList(t, [&](std::initializer_list<T> c) { return x.addAll(k, c); }), !a.empty(), "addAll changed");
                        for (size_t p = 0; p < a.size(); ++p) q.need(n + (long) p + 1);
                        v.insert(v.begin() + k, a.begin(), a.end());
                    } else if (!a.empty()) outside("addAll", k, [&] { withList(t, [&](std::initializer_list<T> c) { return x.addAll(k, c); }); });
                }
                break;
            }
            case 11: {
                int k = (int) s.range(-2, 30);
                TRACE("v" << i << ".setSize " << k << " of " << n);
                if (k < 0) outside("setSize", k, [&] { x.setSize(k); });
                else { x.setSize(k); q.need(k); if (k < n) v.resize((size_t) k); else while ((int) v.size() < k) v.push_back(K::out(T())); LABEL("setSize"); }
                break;
            }
            case 12: {
                int a = anyIndex(), b = anyIndex();
                TRACE("v" << i << ".removeRange " << a << ".." << b << " of " << n);
                Open<T> o(x);
                if (a >= 0 && a < b && b <= n) { o.cut(a, b); v.erase(v.begin() + a, v.begin() + b); x = o; q.cap = x.capacity(); if (b == n) LABEL("range to the end"); }
                else if (a < 0 || b > n || a > b) { CHECK(throws<IllegalArgumentException>([&] { o.cut(a, b); }), "removeRange " << a << ".." << b << " of " << n << " accepted"); same(o, v, "after a rejected range"); LABEL("outside range"); markNontrivial(); }
                break;
            }
            case 13: {
                TRACE("v" << i << " arrays");
                Array<T> a = x.toArray(), b; x.copyInto(b);
                CHECK_EQ(a.length, n, "toArray length"); CHECK_EQ(b.length, n, "copyInto length");
                for (int k = 0; k < n; ++k) { CHECK_EQ(K::out(a.get(k)), v[(size_t) k], "toArray " << k); CHECK_EQ(K::out(b.get(k)), v[(size_t) k], "copyInto " << k); }
                break;
            }
            case 14: {
                TRACE("equality of v0 and v1 and of a changed copy");
                CHECK_EQ((bool) x.equals(*l[1 - i]), v == m[1 - i].e, "equals"); CHECK(x.equals(x), "equals itself");
                L c(x);
                if (n) { int k = (int) s.range(0, n - 1); M e = K::gen(s); c[k] = K::in(e); CHECK_EQ((bool) x.equals(c), v[(size_t) k] == e, "equals after changing " << k); }
                c = x; c.add(K::in(K::gen(s))); CHECK(!x.equals(c) && !c.equals(x), "equals a longer vector");
                break;
            }
            case 15: {
                int k = (int) s.range(-1, 60);
                if (s.flip()) { TRACE("v" << i << ".ensureCapacity " << k); x.ensureCapacity(k); q.need(k); CHECK(x.capacity() >= k, "capacity below the requested"); }
                else { TRACE("v" << i << ".trimToSize"); x.trimToSize(); q.cap = n; }
                LABEL("capacity edit");
                break;
            }
            default: {
                V a((size_t) s.range(0, 4)); for (auto &e : a) e = K::gen(s);
                std::vector<T> t; for (auto &e : a) t.push_back(K::in(e));
                if (s.flip()) { TRACE("v" << i << " = {" << a.size() << " elements}"); withList(t, [&](std::initializer_list<T> c) { x = c; return true; }); q.need((long) a.size()); v = a; }
                else { TRACE("v" << i << " made of {" << a.size() << " elements}"); withList(t, [&](std::initializer_list<T> c) { l[i].reset(new L(c)); return true; }); q = Model<M>(); v = a; q.cap = l[i]->capacity(); }
            }
        }
        for (int k = 0; k < N; ++k) {
            same(*l[k], m[k].e, k == i ? "target" : "other vector");
            CHECK_EQ((long) l[k]->capacity(), m[k].cap, "capacity of v" << k << " by the growth rule");
        }
    } while (s.more() && steps < stepsAfter(many, 40));
    if (steps >= 4) markNontrivial();
}
template<class K> void stacks(Src &s) {
    typedef typename K::T T; typedef typename K::M M;
    Stack<T> x; std::vector<M> v; int steps = 0;
    long many = manyElements(s);
    if (many) { TRACE("begins with " << many << " elements"); for (long k = 0; k < many; ++k) { M e; nth(k % 300, e); x.push(K::in(e)); v.push_back(e); } }
    do {
        ++steps;
        switch (s.weighted({6, 4, 3, 2, 1, 1})) {
            case 0: { M e = K::gen(s); TRACE("push " << show(e)); if (!v.empty() && s.chance(1, 5)) { int k = (int) s.range(0, (int64_t) v.size() - 1); e = v[(size_t) k]; TRACE("  its own element " << k << " " << show(e)); CHECK_EQ(K::out(x.push(x[k])), e, "push result"); LABEL("own element"); } else CHECK_EQ(K::out(x.push(K::in(e))), e, "push result"); v.push_back(e); break; }
            case 1: TRACE("pop of " << v.size()); if (v.empty()) { CHECK(throws<EmptyStackException>([&] { x.pop(); }), "pop of an empty stack"); LABEL("empty stack"); markNontrivial(); } else { CHECK_EQ(K::out(x.pop()), v.back(), "popped"); v.pop_back(); } break;
            case 2: TRACE("peek of " << v.size()); if (v.empty()) { CHECK(throws<EmptyStackException>([&] { x.peek(); }), "peek of an empty stack"); LABEL("empty stack"); markNontrivial(); } else CHECK_EQ(K::out(x.peek()), v.back(), "top"); break;
            case 3: {
                M e = !v.empty() && s.flip() ? v[(size_t) s.range(0, (int64_t) v.size() - 1)] : K::gen(s);
                TRACE("search " << show(e));
                CHECK_EQ(x.search(K::in(e)) != -1, std::find(v.begin(), v.end(), e) != v.end(), "search finds " << show(e));
                break;
            }
            case 4: {
                TRACE("copy, drained");
                Stack<T> c(x), d; d = x;
                for (auto it = v.rbegin(); it != v.rend(); ++it) { CHECK_EQ(K::out(c.pop()), *it, "popped from a copy"); CHECK_EQ(K::out(d.pop()), *it, "popped from an assigned copy"); }
                CHECK(c.empty() && d.empty(), "copy not drained");
                break;
            }
            default: TRACE("bottom replaced, seen as a vector"); if (!v.empty()) { M e = K::gen(s); x.set(0, K::in(e)); v[0] = e; }
        }
        CHECK_EQ((bool) x.empty(), v.empty(), "empty"); CHECK_EQ(x.size(), (int) v.size(), "size");
        if (!v.empty()) CHECK_EQ(K::out(x.peek()), v.back(), "top");
    } while (s.more() && steps < 60);
    for (auto it = v.rbegin(); it != v.rend(); ++it) CHECK_EQ(K::out(x.pop()), *it, "popped at the end");
    CHECK(x.empty(), "drained");
    if (steps >= 4) markNontrivial();
    LABEL("Stack");
}
void run(Src &s) {
    switch (s.weighted({4, 4, 1, 1})) { case 0: vectors<IntE>(s); LABEL("Vector<Integer>"); break; case 1: vectors<StrE>(s); LABEL("Vector<String>"); break; case 2: stacks<IntE>(s); break; default: stacks<StrE>(s); }
}
}
PROPERTY(U03, run, 400, "a case is a history of up to 40 operations over two vectors (60 over a stack) with small element domains; non-trivial with at least 4 operations or a rejected access",
    {"range_empty", [] { Open<Integer> v(Vector<Integer>({Integer(1), Integer(2)})); v.cut(1, 1); CHECK_EQ(v.size(), 2, "removeRange(1, 1), an empty range, removed an element"); }},
    {"search_position", [] { Stack<Integer> v; v.push(Integer(1)); v.push(Integer(2)); v.push(Integer(3)); CHECK_EQ(v.search(Integer(3)), 1, "Stack.search of the top element is not its documented 1-based position from the top"); }})
