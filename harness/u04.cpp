// U04: PriorityQueue against a multiset ordered by <, the greatest element first (as the library's tests fix it)
#include "jv.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
namespace {
using ju::PriorityQueue; using jl::Integer;
struct IntE { typedef Integer T; typedef int M; static M gen(Src &s) { return s.chance(1, 12) ? s.i32() : (int) s.range(-4, 9); } static T in(M m) { return Integer(m); } static M out(const T &t) { return t.intValue(); } };
struct RawE { typedef int T; typedef int M; static M gen(Src &s) { return s.chance(1, 12) ? s.i32() : (int) s.range(-4, 9); } static T in(M m) { return m; } static M out(const T &t) { return t; } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(4, (int) s.range(0, 1)); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); } };
template<class K> void history(Src &s) {
    typedef typename K::T T; typedef typename K::M M; typedef PriorityQueue<T> Q; typedef std::multiset<M> V;
    const int N = 2;
    std::unique_ptr<Q> l[N]; V m[N];
    int steps = 0; bool removed = false;
    for (int i = 0; i < N; ++i) if (s.flip()) l[i].reset(new Q()); else { int c = (int) s.range(-1, 20); if (c < 1) CHECK(throwsAny([&] { Q q(c); }), "capacity " << c << " accepted"); l[i].reset(new Q(c < 1 ? 1 : c)); }
    auto same = [&](const Q &x, const V &v, const char *what) {
        CHECK_EQ(x.size(), (int) v.size(), what << " size");
        CHECK_EQ(K::out(x.peek()), v.empty() ? K::out(T()) : *v.rbegin(), what << " peek");
        Array<T> a = x.toArray(); V w;
        for (int k = 0; k < a.length; ++k) w.insert(K::out(a.get(k)));
        CHECK(w == v, what << " toArray holds other elements");
    };
    auto drain = [&](Q &x, V v, const char *what) {
        while (!v.empty()) { auto it = std::prev(v.end()); CHECK_EQ(K::out(x.poll()), *it, what << " poll with " << v.size() << " elements"); v.erase(it); }
        CHECK_EQ(x.size(), 0, what << " size after draining");
        CHECK_EQ(K::out(x.poll()), K::out(T()), what << " poll of nothing"); CHECK_EQ(x.size(), 0, what << " size after polling nothing");
    };
    typename K::M pool[4];
    auto fill = [&](long k) -> typename K::M { if (k % 5 == 4) { typename K::M e; nth(k, e); return e; } return pool[(k * k / 3) % 4]; };
    long many = std::min(manyElements(s), 500L);      // offer takes time in proportion to the size
    if (many) { for (auto &e : pool) e = K::gen(s); TRACE("q0 begins with " << many << " elements: " << show(pool[0]) << ", " << show(pool[1]) << ", " << show(pool[2]) << ", " << show(pool[3]) << " and numbers"); }
    for (long k = 0; k < many; ++k) { l[0]->add(K::in(fill(k))); m[0].insert(fill(k)); }
    int drains = 0;
    do {
        int i = (int) s.range(0, N - 1); Q &x = *l[i]; V &v = m[i]; int n = (int) v.size();
        ++steps;
        auto element = [&] { if (n && s.chance(2, 3)) { auto it = v.begin(); std::advance(it, s.range(0, n - 1)); return *it; } return K::gen(s); };
        switch (s.weighted({10, 4, 5, 2, 1, 2, 2, 2, 2})) {
            case 0: { M e = K::gen(s); TRACE("q" << i << ".add " << show(e)); CHECK(s.flip() ? x.add(K::in(e)) : x.offer(K::in(e)), "add returned false"); v.insert(e); break; }
            case 1: {
                TRACE("q" << i << ".poll of " << n);
                if (v.empty()) { CHECK_EQ(K::out(x.poll()), K::out(T()), "poll of nothing"); LABEL("empty poll"); markNontrivial(); }
                else { auto it = std::prev(v.end()); CHECK_EQ(K::out(x.poll()), *it, "poll"); v.erase(it); }
                break;
            }
            case 2: {
                M e = element(); TRACE("q" << i << ".remove " << show(e));
                auto it = v.find(e);
                CHECK_EQ((bool) x.remove(K::in(e)), it != v.end(), "remove " << show(e));
                if (it != v.end()) { if (n > 3 && e != *v.rbegin()) { LABEL("inner removal"); removed = true; } v.erase(it); }
                break;
            }
            case 3: { M e = element(); TRACE("q" << i << ".contains " << show(e)); CHECK_EQ((bool) x.contains(K::in(e)), v.count(e) > 0, "contains " << show(e)); break; }
            case 4: TRACE("q" << i << ".clear"); x.clear(); v.clear(); break;
            case 5: {
                TRACE("q" << i << " copied, copy drained");
                Q c(x); same(c, v, "copy"); if (n < 50 || ++drains <= 3) drain(c, v, "copy");
                if (s.flip()) { TRACE("q" << i << " = q" << 1 - i); x = *l[1 - i]; v = m[1 - i]; }
                break;
            }
            case 6: {
                std::vector<M> a((size_t) s.range(0, 5)); for (auto &e : a) e = K::gen(s);
                std::vector<T> t; for (auto &e : a) t.push_back(K::in(e));
                TRACE("q" << i << " made of " << a.size() << " elements");
                switch (a.size()) { case 0: l[i].reset(new Q(std::initializer_list<T>{})); break; case 1: l[i].reset(new Q(std::initializer_list<T>{t[0]})); break; case 2: l[i].reset(new Q(std::initializer_list<T>{t[0], t[1]})); break;
                    case 3: l[i].reset(new Q(std::initializer_list<T>{t[0], t[1], t[2]})); break; case 4: l[i].reset(new Q(std::initializer_list<T>{t[0], t[1], t[2], t[3]})); break; default: l[i].reset(new Q(std::initializer_list<T>{t[0], t[1], t[2], t[3], t[4]})); }
                v = V(a.begin(), a.end());
                break;
            }
            case 7: {
                int c = (int) s.range(0, n + 3);
                TRACE("q" << i << " of " << n << " into an array of " << c);
                M mark = K::gen(s); Array<T> a; for (int k = 0; k < c; ++k) a.push(K::in(mark));
                Array<T> r = x.toArray(a);
                CHECK_EQ(r.length, std::max(c, n), "array length");
                V w; for (int k = 0; k < n; ++k) w.insert(K::out(r.get(k))); CHECK(w == v, "array holds other elements");
                if (c > n) { CHECK_EQ(K::out(r.get(n)), K::out(T()), "element after the last"); for (int k = n + 1; k < c; ++k) CHECK_EQ(K::out(r.get(k)), mark, "untouched element " << k); LABEL("longer array"); }
                break;
            }
            default: {
                int k = (int) s.size(40); TRACE("q" << i << " gets " << k << " more");
                for (; k > 0; --k) { M e = K::gen(s); x.add(K::in(e)); v.insert(e); }
                LABEL("bulk");
            }
        }
        for (int q = 0; q < N; ++q) same(*l[q], m[q], q == i ? "target" : "other queue");
    } while (s.more() && steps < stepsAfter(many, 40));
    for (int q = 0; q < N; ++q) drain(*l[q], m[q], "final");
    if (steps >= 4 || removed) markNontrivial();
}
void run(Src &s) { switch (s.range(0, 2)) { case 0: history<IntE>(s); LABEL("Integer"); break; case 1: history<StrE>(s); LABEL("String"); break; default: history<RawE>(s); LABEL("int"); } }
}
PROPERTY(U04, run, 400, "a case is a history of up to 40 operations over two queues with many equal elements; non-trivial with at least 4 operations or a removal from inside the heap")
