// K01: Array histories against std::vector
#include "jv.hpp"
namespace {
struct IntE { typedef int T; typedef int M; static M gen(Src &s) { return s.i32(); } static T in(M m) { return m; } static M out(const T &t) { return t; } };
struct CharE { typedef char T; typedef char M; static M gen(Src &s) { return (char) s.u8(); } static T in(M m) { return m; } static M out(const T &t) { return t; } };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(20, 3); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); } };
struct BigE { typedef jl::Integer T; typedef int M; static M gen(Src &s) { return s.i32(); } static T in(M m) { return jl::Integer(m); } static M out(const T &t) { return t.intValue(); } };
template<class K> void history(Src &s) {
    typedef Array<typename K::T> A; typedef std::vector<typename K::M> V;
    const int N = 3;
    A a[N]; V m[N];
    int steps = 0;
    auto same = [&](const A &x, const V &v, const char *what) {
        CHECK_EQ(x.length, (int) v.size(), what << " length");
        size_t i = 0;
        for (auto e : x) { CHECK(i < v.size(), what << " iterates too far"); CHECK_EQ(K::out(e), v[i], what << " element " << i << " by iteration"); ++i; }
        CHECK_EQ(i, v.size(), what << " elements iterated");
        for (i = 0; i < v.size(); ++i) { CHECK_EQ(K::out(x.get((int) i)), v[i], what << " get " << i); CHECK_EQ(K::out(x[(int) i]), v[i], what << " [" << i << "]"); }
    };
    long many = manyElements(s);
    if (many) { TRACE("a0 begins with " << many << " elements"); for (long k = 0; k < many; ++k) { typename K::M e; nth(k, e); a[0].push(K::in(e)); m[0].push_back(e); } }
    do {
        int i = (int) s.range(0, N - 1), j = (int) s.range(0, N - 1);
        ++steps;
        switch (s.weighted({6, 3, 2, 2, 3, 2, 2, 2})) {
            case 0: { if (!m[i].empty() && s.chance(1, 5)) { int k = (int) s.range(0, (int64_t) m[i].size() - 1); TRACE("a" << i << ".push of its own element " << k); a[i].push(a[i][k]); auto e = m[i][(size_t) k]; m[i].push_back(e); LABEL("own element"); break; }
                auto v = K::gen(s); TRACE("a" << i << ".push " << show(v)); a[i].push(K::in(v)); m[i].push_back(v); break; }
            case 1: {
                if (m[i].empty()) break;
                int k = (int) s.range(0, (int) m[i].size() - 1); auto v = K::gen(s);
                TRACE("a" << i << "[" << k << "] = " << show(v)); a[i][k] = K::in(v); m[i][(size_t) k] = v; break;
            }
            case 2: TRACE("a" << i << " = a" << j); a[i] = a[j]; m[i] = m[j]; break;
            case 3: { TRACE("copy of a" << i << " edited"); A c(a[i]); V v(m[i]); auto e = K::gen(s); c.push(K::in(e)); v.push_back(e); if (v.size() > 1) { c[0] = K::in(e); v[0] = e; } same(c, v, "copy"); break; }
            case 4: {
                auto x = K::gen(s), y = K::gen(s);
                int c = (int) s.range(0, 3);
                TRACE("a" << i << " += list of " << c);
                if (c == 0) { A r = (a[i] += std::initializer_list<typename K::T>{}); }
                else if (c == 1) { A r = (a[i] += {K::in(x)}); m[i].push_back(x); same(r, m[i], "result of +="); }
                else if (c == 2) { a[i] += {K::in(x), K::in(y)}; m[i].push_back(x); m[i].push_back(y); }
                else { a[i] += {K::in(x), K::in(y), K::in(x)}; m[i].push_back(x); m[i].push_back(y); m[i].push_back(x); }
                break;
            }
            case 5: {
                int k = s.flip() ? (int) m[i].size() + (int) s.range(0, 3) : s.flip() ? -1 - (int) s.range(0, 3) : s.i32();
                if (k >= 0 && k < (int) m[i].size()) break;
                TRACE("a" << i << " outside index " << k);
                CHECK(throwsAny([&] { a[i].get(k); }), "get(" << k << ") of " << m[i].size() << " elements accepted");
                CHECK(throwsAny([&] { a[i][k] = typename K::T(); }), "[" << k << "] of " << m[i].size() << " elements accepted");
                const A &c = a[i];
                CHECK(throwsAny([&] { (void) c[k]; }), "const [" << k << "] of " << m[i].size() << " elements accepted");
                LABEL("outside index"); markNontrivial();
                break;
            }
            case 6: {
                auto x = K::gen(s), y = K::gen(s);
                TRACE("a" << i << " = list " << show(x) << ", " << show(y));
                A c({K::in(x), K::in(y), K::in(y)}); V v{x, y, y};
                same(c, v, "array from list"); a[i] = c; m[i] = v; break;
            }
            default: {
                long n = s.size(300);
                TRACE("a" << i << " = Array(" << n << ")");
                A c((long) n); CHECK_EQ(c.length, (int) n, "length of sized array");
                for (int k = 0; k < c.length; ++k) c[k] = K::in(typename K::M());
                a[i] = c; m[i] = V((size_t) n); LABEL("sized"); break;
            }
        }
        for (int q = 0; q < N; ++q) same(a[q], m[q], q == i ? "target" : "other array");
    } while (s.more() && steps < stepsAfter(many, 25));
    if (steps >= 4) markNontrivial();
}
void argumentVector(Src &s) {
    int n = (int) s.size(60);
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(s.text(s.chance(1, 10) ? 400 : 12, (int) s.range(0, 3)));
    TRACE("argument vector " << show(v));
    std::vector<string> p;
    for (auto &t : v) p.push_back((string) t.c_str());
    p.push_back(nullptr);
    Array<JString> a(p.data());
    CHECK_EQ(a.length, n, "length");
    for (int i = 0; i < n; ++i) CHECK_EQ(S(a[i]), v[(size_t) i], "argument " << i);
    LABEL("argument vector");
    if (n > 1) markNontrivial();
}
void run(Src &s) {
    switch (s.weighted({3, 2, 4, 2, 2})) {
        case 0: history<IntE>(s); break;
        case 1: history<CharE>(s); break;
        case 2: history<StrE>(s); LABEL("strings"); break;
        case 3: history<BigE>(s); break;
        default: argumentVector(s);
    }
}
}
PROPERTY(K01, run, 300, "a case is a history of up to 25 pushes, writes, copies, appends and outside accesses over three arrays, or one argument vector; non-trivial with at least 4 steps, an outside index, or at least 2 arguments")
