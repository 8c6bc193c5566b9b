// U02: LinkedList histories against std::deque, with live-object accounting
#include "jv.hpp"
#include <deque>
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
namespace {
using ju::LinkedList; using ju::Node; using jl::IndexOutOfBoundsException;
struct Tok {                                   // counts its live instances, keeps its payload on the heap
    static long live;
    int *p;
    Tok(int v = 0) : p(new int(v)) { ++live; }
    Tok(const Tok &o) : p(new int(*o.p)) { ++live; }
    Tok &operator=(const Tok &o) { *p = *o.p; return *this; }
    ~Tok() { delete p; --live; }
    friend bool operator==(const Tok &a, const Tok &b) { return *a.p == *b.p; }
    friend bool operator!=(const Tok &a, const Tok &b) { return *a.p != *b.p; }
    friend bool operator<(const Tok &a, const Tok &b) { return *a.p < *b.p; }
    friend bool operator>(const Tok &a, const Tok &b) { return *a.p > *b.p; }
};
long Tok::live = 0;
struct TokE { typedef Tok T; typedef int M; static M gen(Src &s) { return (int) s.range(-3, 9); } static T in(M m) { return Tok(m); } static M out(const T &t) { return *t.p; } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(6, (int) s.range(0, 2)); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); } };
template<class K> void history(Src &s) {
    typedef typename K::T T; typedef typename K::M M; typedef LinkedList<T> L; typedef std::deque<M> V;
    const int N = 2;
    L l[N]; V m[N];
    int steps = 0, ends = 0;
    auto same = [&](L &x, const V &v, const char *what) {
        CHECK_EQ(x.size(), (long) v.size(), what << " size");
        size_t i = 0;
        for (Node<T> *e : x) { CHECK(i < v.size(), what << " iterates too far"); CHECK_EQ(K::out(e->element), v[i], what << " element " << i); ++i; }
        CHECK_EQ(i, v.size(), what << " elements iterated");
    };
    typename K::M pool[4];
    auto fill = [&](long k) -> typename K::M { if (k % 5 == 4) { typename K::M e; nth(k, e); return e; } return pool[(k * k / 3) % 4]; };
    long many = manyElements(s);
    if (many) { for (auto &e : pool) e = K::gen(s); TRACE("l0 begins with " << many << " elements: " << show(pool[0]) << ", " << show(pool[1]) << ", " << show(pool[2]) << ", " << show(pool[3]) << " and numbers"); }
    for (long k = 0; k < many; ++k) { l[0].add(K::in(fill(k))); m[0].push_back(fill(k)); }
    do {
        int i = (int) s.range(0, N - 1), n = (int) m[i].size();
        ++steps;
        V &v = m[i]; L &x = l[i];
        auto anyIndex = [&] { return s.chance(1, 6) ? s.i32() : (int) s.range(-2, n + 2); };
        switch (s.weighted({5, 5, 7, 4, 3, 3, 3, 3, 2, 1, 2})) {
            case 0: {        // tail
                if (n && s.chance(1, 6)) {
                    int k = (int) s.range(0, n - 1), way = (int) s.range(0, 4); M e = v[(size_t) k]; auto it = x.begin(); std::advance(it, k); const T &own = (*it)->element;
                    TRACE("l" << i << " takes its own element " << k << " way " << way << " " << show(e)); LABEL("own element");
                    switch (way) { case 0: x.add(own); v.push_back(e); break; case 1: x.addLast(own); v.push_back(e); break; case 2: x.offerFirst(own); v.push_front(e); break; case 3: x.addFirst(own); v.push_front(e); break; default: { int o = (int) s.range(0, n - 1); CHECK_EQ(K::out(x.set(o, own)), v[(size_t) o], "previous element"); v[(size_t) o] = e; } }
                    break;
                }
                M e = K::gen(s); int how = (int) s.range(0, 3);
                TRACE("l" << i << " tail " << how << " " << show(e));
                if (how == 0) CHECK(x.add(K::in(e)), "add"); else if (how == 1) x.addLast(K::in(e)); else if (how == 2) CHECK(x.offer(K::in(e)), "offer"); else CHECK(x.offerLast(K::in(e)), "offerLast");
                v.push_back(e); break;
            }
            case 1: {        // head
                M e = K::gen(s); int how = (int) s.range(0, 2);
                TRACE("l" << i << " head " << how << " " << show(e));
                if (how == 0) x.addFirst(K::in(e)); else if (how == 1) CHECK(x.offerFirst(K::in(e)), "offerFirst"); else x.push(K::in(e));
                v.push_front(e); ends |= 1; break;
            }
            case 2: {        // take
                int how = (int) s.range(0, 5);
                TRACE("l" << i << " take " << how << " of " << n);
                auto take = [&] { switch (how) { case 0: return x.poll(); case 1: return x.pollFirst(); case 2: return x.pop(); case 3: return x.remove(); case 4: return x.pollLast(); default: return x.removeLast(); } };
                if (!n) { CHECK(throws<NoSuchElementException>(take), "taking from an empty list"); LABEL("empty"); markNontrivial(); }
                else if (how < 4) { CHECK_EQ(K::out(take()), v.front(), "head taken"); v.pop_front(); }
                else { CHECK_EQ(K::out(take()), v.back(), "tail taken"); v.pop_back(); ends |= 2; }
                if (n == 1) LABEL("drained");
                break;
            }
            case 3: {        // look
                TRACE("l" << i << " look at both ends of " << n);
                if (n) {
                    CHECK_EQ(K::out(x.getFirst()), v.front(), "getFirst"); CHECK_EQ(K::out(x.getLast()), v.back(), "getLast"); CHECK_EQ(K::out(x.element()), v.front(), "element");
                    CHECK_EQ(K::out(x.peek()), v.front(), "peek"); CHECK_EQ(K::out(x.peekFirst()), v.front(), "peekFirst"); CHECK_EQ(K::out(x.peekLast()), v.back(), "peekLast");
                } else {
                    CHECK(throws<NoSuchElementException>([&] { x.getFirst(); }), "getFirst of an empty list"); CHECK(throws<NoSuchElementException>([&] { x.getLast(); }), "getLast of an empty list");
                    CHECK(throws<NoSuchElementException>([&] { x.element(); }), "element of an empty list");
                    auto dflt = [&](const char *what, std::function<T()> f) { T r; try { r = f(); } catch (const jl::Exception &) { return; } CHECK_EQ(K::out(r), M(), what << " of an empty list"); };
                    dflt("peek", [&] { return x.peek(); }); dflt("peekFirst", [&] { return x.peekFirst(); }); dflt("peekLast", [&] { return x.peekLast(); });
                    LABEL("empty"); markNontrivial();
                }
                break;
            }
            case 4: {
                int k = anyIndex();
                TRACE("l" << i << ".get(" << k << ") of " << n);
                if (k >= 0 && k < n) CHECK_EQ(K::out(x.get(k)), v[(size_t) k], "get " << k);
                else { CHECK(throws<IndexOutOfBoundsException>([&] { x.get(k); }), "get(" << k << ") of " << n << " accepted"); LABEL("outside index"); markNontrivial(); }
                break;
            }
            case 5: {
                int k = anyIndex();
                TRACE("l" << i << ".remove(" << k << ") of " << n);
                if (k >= 0 && k < n) { CHECK(x.remove(k), "remove(" << k << ") of " << n << " answered false"); v.erase(v.begin() + k); }
                else {
                    bool ok = true; try { ok = x.remove(k); } catch (const IndexOutOfBoundsException &) { ok = false; }
                    CHECK(!ok, "remove(" << k << ") of " << n << " answered true"); LABEL("outside index"); markNontrivial();
                }
                break;
            }
            case 6: {
                int k = anyIndex(); M e = K::gen(s);
                TRACE("l" << i << ".set(" << k << ", " << show(e) << ") of " << n);
                if (k >= 0 && k < n) { CHECK_EQ(K::out(x.set(k, K::in(e))), v[(size_t) k], "previous element"); v[(size_t) k] = e; }
                else { CHECK(throws<IndexOutOfBoundsException>([&] { x.set(k, K::in(e)); }), "set(" << k << ") of " << n << " accepted"); LABEL("outside index"); markNontrivial(); }
                break;
            }
            case 7: {        // remove during a visit, by node
                unsigned mask = s.u16(); int stop = (int) s.range(0, 12), seen = 0;
                TRACE("l" << i << ".forEach removing mask " << mask << " until " << stop);
                V rest;
                x.forEach([&](Node<T> *node) -> boolean {
                    CHECK(seen < n, "forEach too far"); CHECK_EQ(K::out(node->element), v[(size_t) seen], "visited element " << seen);
                    if ((mask >> (seen % 16)) & 1) CHECK(x.remove(*node), "node not removed"); else rest.push_back(v[(size_t) seen]);
                    return seen++ != stop;
                });
                CHECK_EQ(seen, std::min(stop + 1, n), "elements visited");
                for (int k = seen; k < n; ++k) rest.push_back(v[(size_t) k]);
                v = rest; LABEL("remove during visit");
                Node<T> foreign(K::in(K::gen(s)));
                CHECK(!x.remove(foreign), "removed a foreign node");
                break;
            }
            case 8: {
                TRACE("copy of l" << i);
                L c(x); V w(v); same(c, w, "copy"); M e = K::gen(s); c.addFirst(K::in(e)); w.push_front(e); same(c, w, "edited copy"); same(x, v, "original of a copy");
                if (s.flip()) { x = c; v = w; } else if (s.flip()) { l[1 - i] = x; m[1 - i] = v; } else { x = *&x; }
                break;
            }
            case 9: TRACE("l" << i << ".clear"); x.clear(); v.clear(); break;
            default: {
                int k = 0;
                TRACE("l" << i << " written through iteration");
                for (Node<T> *node : x) if (k++ % 2) { M e = K::gen(s); node->element = K::in(e); v[(size_t) k - 1] = e; }
                M a = K::gen(s), b = K::gen(s); L c({K::in(a), K::in(b)}); V w{a, b}; same(c, w, "list of two");
            }
        }
        for (int q = 0; q < N; ++q) same(l[q], m[q], q == i ? "target" : "other list");
        if (std::is_same<T, Tok>::value) CHECK_EQ(Tok::live, (long) (m[0].size() + m[1].size()), "live elements");
    } while (s.more() && steps < stepsAfter(many, 40));
    if (steps >= 4) markNontrivial();
    if (ends == 3) LABEL("used at both ends");
}
void run(Src &s) {
    Tok::live = 0;
    if (s.flip()) { history<TokE>(s); CHECK_EQ(Tok::live, 0L, "elements alive after the lists are gone"); LABEL("counted elements"); }
    else { history<StrE>(s); LABEL("String"); }
}
}
PROPERTY(U02, run, 400, "a case is a history of up to 40 operations over two lists; non-trivial with at least 4 operations, an empty list accessed or an index outside the list")
