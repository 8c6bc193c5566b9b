// U08: Set histories against std::set
#include "jv.hpp"
#include "library/Java/Util/Set/Set.hpp"
namespace {
using ju::Set; using jl::Integer; using jl::Long;
struct IntE { typedef int T; typedef int M; static M gen(Src &s) { return s.chance(1, 6) ? s.i32() : (int) s.range(-4, 12); } static T in(M m) { return m; } static M out(const T &t) { return t; } };
struct BoxE { typedef Integer T; typedef int M; static M gen(Src &s) { return IntE::gen(s); } static T in(M m) { return Integer(m); } static M out(const T &t) { return t.intValue(); } };
struct LongE { typedef Long T; typedef long M; static M gen(Src &s) { return s.chance(1, 4) ? (long) s.i64() : ((long) s.range(-2, 3) << 32) + (long) s.range(-1, 2); } static T in(M m) { return Long(m); } static M out(const T &t) { return t.longValue(); } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { std::string t = s.text(5, (int) s.range(0, 4)); if (s.chance(1, 12)) t = std::string(20, 'a') + t; return t; } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); } };
template<class E> void history(Src &s) {
    typedef typename E::M V; typedef Set<typename E::T> X; typedef std::set<V> M;
    const int N = 2; X h[N]; M m[N]; int steps = 0; bool again = false;
    auto same = [&](X &x, const M &v, const char *what) {
        CHECK_EQ((long) x.size(), (long) v.size(), what << " size"); CHECK_EQ((bool) x.isEmpty(), v.empty(), what << " isEmpty");
        auto it = v.begin();
        for (auto const &e : x) { CHECK(it != v.end(), what << " holds more elements than were added, " << show(E::out(e))); CHECK_EQ(E::out(e), *it, what << " element"); ++it; }
        CHECK(it == v.end(), what << " lacks " << show(*it));
        const X &c = x; size_t n = 0; for (auto it2 = c.begin(); it2 != c.end(); ++it2) ++n; CHECK_EQ(n, v.size(), what << " elements of the constant set");
    };
    long many = manyElements(s);
    if (many) { TRACE("s0 begins with " << many << " elements"); for (long k = 0; k < many; ++k) { V a; nth(k, a); CHECK_EQ((bool) h[0].add(E::in(a)), m[0].insert(a).second, "add " << show(a)); } }
    do {
        int i = (int) s.range(0, N - 1); X &x = h[i]; M &v = m[i]; ++steps;
        switch (s.weighted({12, 1, 2, 2, 2})) {
            case 0: {
                V e = !v.empty() && s.chance(1, 2) ? *std::next(v.begin(), (long) s.range(0, (int64_t) v.size() - 1)) : E::gen(s); TRACE("s" << i << ".add " << show(e)); bool fresh = v.insert(e).second;
                if (!fresh) { again = true; LABEL("already there"); }
                CHECK_EQ((bool) x.add(E::in(e)), fresh, "add " << show(e)); break;
            }
            case 1: TRACE("s" << i << ".clear"); x.clear(); v.clear(); break;
            case 2: TRACE("s" << i << " = s" << 1 - i); if (s.chance(1, 4)) x = *&x; else { x = h[1 - i]; v = m[1 - i]; } break;
            case 3: { TRACE("s" << i << " copied, the copy edited"); X c(x); M w(v); same(c, w, "copy"); V e = E::gen(s); CHECK_EQ((bool) c.add(E::in(e)), w.insert(e).second, "add to the copy"); if (s.flip()) { c.clear(); w.clear(); } same(c, w, "edited copy"); break; }
            default: { int k = (int) s.size(60); TRACE("s" << i << " gets " << k << " more"); for (; k > 0; --k) { V e = E::gen(s); CHECK_EQ((bool) x.add(E::in(e)), v.insert(e).second, "add " << show(e)); } }
        }
        for (int q = 0; q < N; ++q) same(h[q], m[q], q == i ? "target" : "other set");
    } while (s.more() && steps < stepsAfter(many, 40));
    if (steps >= 4 || again) markNontrivial();
}
void run(Src &s) {
    switch (s.weighted({4, 3, 2, 2})) { case 0: history<StrE>(s); LABEL("String"); break; case 1: history<BoxE>(s); LABEL("Integer"); break; case 2: history<LongE>(s); LABEL("Long"); break; default: history<IntE>(s); LABEL("int"); }
}
}
PROPERTY(U08, run, 400, "a case is a history of up to 40 operations over two sets; non-trivial with at least 4 operations or an element added again")
