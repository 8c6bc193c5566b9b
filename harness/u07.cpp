// U07: Arrays algorithms against std algorithms (ranges of sort, search and fill are inclusive, those of copyOfRange half-open)
#include "jv.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
namespace {
using ju::Arrays; using jl::Integer;
template<class T> T number(Src &s) { return s.chance(1, 10) ? (T) s.integer<T>() : (T) s.range(-3, 8); }
template<> float number<float>(Src &s) { float f = s.chance(1, 6) ? s.f32() : (float) s.range(-6, 12) / 2; return f != f ? 0 : f; }
template<> double number<double>(Src &s) { double f = s.chance(1, 6) ? s.f64() : (double) s.range(-6, 12) / 2; return f != f ? 0 : f; }
template<class T> struct Num { typedef T E; typedef T M; static M gen(Src &s) { return number<T>(s); } static E in(M m) { return m; } static M out(const E &e) { return e; } };
struct IntE { typedef Integer E; typedef int M; static M gen(Src &s) { return number<int>(s); } static E in(M m) { return Integer(m); } static M out(const E &t) { return t.intValue(); } };
struct StrE { typedef JString E; typedef std::string M; static M gen(Src &s) { return s.text(4, (int) s.range(0, 1)); } static E in(const M &m) { return J(m); } static M out(const E &t) { return S(t); } };
template<class K> std::vector<typename K::M> values(Src &s) {
    typedef typename K::M M;
    size_t n = s.chance(1, 10) ? s.size(300) : s.size(12);
    int shape = (int) s.range(0, 5);
    M c = K::gen(s);
    bool many = s.chance(1, 400); std::vector<M> pool; unsigned lcg = 1;
    if (many) { heavy(); LABEL("thousands of elements"); n = (1UL << s.range(8, 12)) + (size_t) s.range(0, 4) - 2; lcg = s.u32(); for (int k = (int) s.range(1, 100); k > 0; --k) pool.push_back(K::gen(s)); }
    std::vector<M> v(n);
    for (auto &e : v) e = many ? pool[(lcg = lcg * 1103515245u + 12345u) / 65536 % (shape == 1 ? 1 : pool.size())] : shape == 1 ? c : shape == 2 ? (s.flip() ? c : K::gen(s)) : K::gen(s);
    if (shape == 3) std::sort(v.begin(), v.end());
    if (shape == 4) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    if (shape == 5 && n > 1) { std::sort(v.begin(), v.end()); std::swap(v[0], v[n - 1]); }
    LABEL(shape == 1 ? "constant" : shape == 3 ? "sorted" : shape == 4 ? "reversed" : shape == 5 ? "nearly sorted" : "random");
    if (n < 3) LABEL("under 3 elements"); else markNontrivial();
    return v;
}
template<class K> std::string text(const std::vector<typename K::M> &v) { std::ostringstream o; o << v.size() << " elements:"; for (size_t i = 0; i < v.size() && i < 40; ++i) o << " " << show(v[i]); return o.str(); }
template<class K> Array<typename K::E> array(const std::vector<typename K::M> &v) { Array<typename K::E> a; for (auto &e : v) a.push(K::in(e)); return a; }
// exactly sized heap block, so that a touch outside is seen
template<class K> struct Raw { typedef typename K::E E; E *p; size_t n; Raw(const std::vector<typename K::M> &v) : p(new E[v.size()]), n(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = K::in(v[i]); } ~Raw() { delete[] p; } };
template<class K, class A> void same(const A &a, const std::vector<typename K::M> &v, const char *what) { for (size_t i = 0; i < v.size(); ++i) CHECK_EQ(K::out(a[(int) i]), v[i], what << " element " << i); }
template<class K> struct Typed {   // entry points that exist for some element types only
    static void sort(Raw<K> &r) { Arrays::sort(r.p, (int) r.n); }
    static int byKey(Raw<K> &r, const typename K::M &k) { return Arrays::binarySearchByKey(r.p, K::in(k), (int) r.n); }
    static int byIndex(Raw<K> &r, int f, int t, const typename K::M &k) { return Arrays::binarySearch(r.p, f, t, K::in(k)); }
};
#define BYINDEX(T) template<> int Typed<Num<T>>::byIndex(Raw<Num<T>> &r, int f, int t, const T &k) { return Arrays::binarySearchByIndex(r.p, f, t, k); }
BYINDEX(char) BYINDEX(byte) BYINDEX(short) BYINDEX(int) BYINDEX(long) BYINDEX(float) BYINDEX(double)
template<class K> void sorting(Src &s) {
    auto v = values<K>(s); int n = (int) v.size();
    TRACE("sort " << text<K>(v));
    int f = n ? (int) s.range(0, n - 1) : 0, t = n ? (int) s.range(0, n - 1) : 0; if (f > t) std::swap(f, t);
    auto whole = v, part = v;
    std::sort(whole.begin(), whole.end());
    if (n) std::sort(part.begin() + f, part.begin() + t + 1);
    { Raw<K> r(v); Typed<K>::sort(r); same<K>(r.p, whole, "sorted block"); }
    { auto a = array<K>(v); Arrays::sort(&a, n); same<K>(a, whole, "sorted array"); CHECK_EQ(a.length, n, "length"); }
    if (n) {
        TRACE("range " << f << ".." << t);
        { Raw<K> r(v); Arrays::sort(r.p, f, t); same<K>(r.p, part, "block sorted in a range"); }
        { auto a = array<K>(v); Arrays::sort(&a, f, t); same<K>(a, part, "array sorted in a range"); }
        LABEL(f == 0 && t == n - 1 ? "whole range" : "part range");
    }
    int bf = (int) s.range(-3, n + 3), bt = (int) s.range(-3, n + 3);
    if (bf < bt && (bf < 0 || bt >= n)) {
        TRACE("bad range " << bf << ".." << bt);
        auto a = array<K>(v); CHECK(throwsAny([&] { Arrays::sort(&a, bf, bt); }), "sorting " << bf << ".." << bt << " of " << n << " accepted"); same<K>(a, v, "array after a rejected range"); LABEL("bad range");
    }
}
template<class K> void searching(Src &s) {
    auto v = values<K>(s); std::sort(v.begin(), v.end()); int n = (int) v.size();
    auto k = n && s.chance(2, 3) ? v[(size_t) s.range(0, n - 1)] : K::gen(s);
    int f = n ? (int) s.range(0, n - 1) : 0, t = n ? (int) s.range(0, n - 1) : 0; if (f > t) std::swap(f, t);
    TRACE("search " << show(k) << " in sorted " << text<K>(v) << ", range " << f << ".." << t);
    auto expect = [&](int got, int from, int to, const char *what) {
        bool there = false; for (int i = from; i <= to && i < n; ++i) there = there || v[(size_t) i] == k;
        if (there) CHECK(got >= from && got <= to && v[(size_t) got] == k, what << ": present element " << show(k) << " reported at " << got);
        else CHECK(got < 0, what << ": absent element " << show(k) << " reported at " << got);
        LABEL(there ? "present" : "absent");
    };
    Raw<K> r(v); auto a = array<K>(v);
    expect(Typed<K>::byKey(r, k), 0, n - 1, "block by key"); expect(Arrays::binarySearch(a, K::in(k), n), 0, n - 1, "array by key");
    if (n) { expect(Typed<K>::byIndex(r, f, t, k), f, t, "block in range"); expect(Arrays::binarySearch(r.p, f, t, K::in(k)), f, t, "block in range"); expect(Arrays::binarySearch(a, f, t, K::in(k)), f, t, "array in range"); }
    if (f < t) { CHECK(Typed<K>::byIndex(r, t, f, k) < 0, "reversed range found"); CHECK(Arrays::binarySearch(a, t, f, K::in(k)) < 0, "reversed range found"); LABEL("reversed range"); }
    CHECK(Typed<K>::byIndex(r, -1 - f, t, k) < 0, "negative range found");
    same<K>(r.p, v, "searched block"); same<K>(a, v, "searched array");
}
template<class K> struct Pad { static Array<typename K::E> copyOf(const Array<typename K::E> &a, int n) { return Arrays::copyOf(a, n); } };
// a range copied into an array of another element type
template<class K> struct Converted {
    static void check(const std::vector<typename K::M> &v, const Array<typename K::E> &a, int f, int t) {
        int n = (int) v.size();
        if (f >= 0 && f <= t && t <= n) {
            auto c = Arrays::copyOfRange(a, f, t, (double) 0); CHECK_EQ(c.length, t - f, "length of the converted range");
            for (int i = f; i < t; ++i) CHECK(sameF(c.get(i - f), (double) K::out(a.get(i))), "converted element " << i);
        } else {
            int length = 0; bool threw = throwsAny([&] { length = Arrays::copyOfRange(a, f, t, (double) 0).length; });
            if (f < 0 || f > t) CHECK(threw || length == 0, "bad range " << f << ".." << t << " of " << n << " converted " << length << " elements");
        }
    }
};
template<> struct Converted<StrE> { static void check(const std::vector<std::string> &, const Array<JString> &, int, int) {} };
template<> struct Converted<IntE> { static void check(const std::vector<int> &, const Array<Integer> &, int, int) {} };
template<class K> void copying(Src &s) {
    auto v = values<K>(s); int n = (int) v.size(), len = (int) s.range(-2, n + 6);
    TRACE("copy " << text<K>(v) << " to length " << len);
    auto a = array<K>(v);
    if (len >= 0) {
        auto c = Arrays::copyOf(a, len); CHECK_EQ(c.length, len, "length of the copy");
        for (int i = 0; i < len; ++i) CHECK_EQ(K::out(c.get(i)), i < n ? v[(size_t) i] : K::out(K::in(typename K::M())), "copied element " << i);
        if (len > 0) { c[0] = K::in(K::gen(s)); same<K>(a, v, "original"); }
        LABEL(len > n ? "padded" : "cut");
    }
    int f = s.chance(1, 8) ? s.i32() : (int) s.range(-2, n + 2), t = s.chance(1, 8) ? (int) s.range(-2, n) : (int) s.range(-2, n + 2);
    TRACE("range " << f << ".." << t);
    if (f >= 0 && f <= t && t <= n) {
        auto c = Arrays::copyOfRange(a, f, t); CHECK_EQ(c.length, t - f, "length of the range copy");
        for (int i = f; i < t; ++i) CHECK_EQ(K::out(c.get(i - f)), v[(size_t) i], "range copy of " << i);
        if (t == n) LABEL("range to the end");
    } else if (f < 0 || f > t) {
        int length = 0; bool threw = throwsAny([&] { length = Arrays::copyOfRange(a, f, t).length; });
        CHECK(threw || length == 0, "bad range " << f << ".." << t << " of " << n << " copied " << length << " elements"); LABEL("bad range");
    }
    CHECK_EQ(a.length, n, "length of the original"); same<K>(a, v, "original");
    Converted<K>::check(v, a, f, t);
}
template<class K> void filling(Src &s) {
    auto v = values<K>(s); int n = (int) v.size(); auto e = K::gen(s);
    int f = s.chance(1, 8) ? s.i32() : (int) s.range(-2, n + 2), t = s.chance(1, 8) ? s.i32() : (int) s.range(-2, n + 2);
    TRACE("fill " << text<K>(v) << " with " << show(e) << ", range " << f << ".." << t);
    auto a = array<K>(v); Arrays::fill(&a, K::in(e)); CHECK_EQ(a.length, n, "length"); same<K>(a, std::vector<typename K::M>(v.size(), e), "filled array");
    auto b = array<K>(v); auto w = v; bool good = f >= 0 && f <= t && t < n;
    if (good) { std::fill(w.begin() + f, w.begin() + t + 1, e); Arrays::fillByIndex(&b, f, t, K::in(e)); } else { throwsAny([&] { Arrays::fillByIndex(&b, f, t, K::in(e)); }); LABEL("bad range"); }
    CHECK_EQ(b.length, n, "length"); same<K>(b, w, good ? "array filled in a range" : "array after a rejected range");
}
template<class K> int hashOf(const typename K::M &m) { return (int) m; }
template<> int hashOf<Num<long>>(const long &m) { return (int) (m ^ (long) ((unsigned long) m >> 32)); }
template<> int hashOf<Num<bool>>(const bool &m) { return m ? 1231 : 1237; }
template<class K> struct Exact { static const bool value = !std::is_floating_point<typename K::M>::value; };
template<class K> void comparing(Src &s) {
    auto v = values<K>(s), w = v;
    switch (s.range(0, 3)) {
        case 0: break;
        case 1: if (!w.empty()) { size_t i = (size_t) s.range(0, (int64_t) w.size() - 1); w[i] = K::gen(s); } break;
        case 2: if (!w.empty()) w.pop_back(); break;
        default: w.push_back(K::gen(s));
    }
    TRACE("compare " << text<K>(v) << " with " << text<K>(w));
    auto a = array<K>(v), b = array<K>(w), c = array<K>(v);
    CHECK_EQ((bool) Arrays::equals(a, b), v == w, "equals"); CHECK_EQ((bool) Arrays::equals(b, a), v == w, "equals reversed"); CHECK(Arrays::equals(a, c), "equals a copy");
    LABEL(v == w ? "equal" : "different");
    if (v == w) CHECK_EQ(Arrays::hashCode(a), Arrays::hashCode(b), "hashes of equal arrays");
    if (Exact<K>::value && !v.empty()) { unsigned h = 1; for (auto e : v) h = 31u * h + (unsigned) hashOf<K>(e); CHECK_EQ(Arrays::hashCode(a), (int) h, "hashCode"); }
}
template<class K> void numeric(Src &s) { switch (s.range(0, 4)) { case 0: sorting<K>(s); LABEL("sort"); break; case 1: searching<K>(s); LABEL("search"); break; case 2: copying<K>(s); LABEL("copy"); break; case 3: filling<K>(s); LABEL("fill"); break; default: comparing<K>(s); LABEL("compare"); } }
void flags(Src &s) {   // Array<bool> has no element references
    std::vector<bool> v((size_t) s.size(20)); for (size_t i = 0; i < v.size(); ++i) v[i] = s.flip();
    std::vector<bool> w(v); if (!w.empty() && s.flip()) w[w.size() - 1] = !w[w.size() - 1];
    TRACE(v.size() << " booleans");
    Array<bool> a, b; for (bool e : v) a.push(e); for (bool e : w) b.push(e);
    CHECK_EQ((bool) Arrays::equals(a, b), v == w, "equals");
    unsigned h = 1; for (bool e : v) h = 31u * h + (e ? 1231u : 1237u);
    if (!v.empty()) CHECK_EQ(Arrays::hashCode(a), (int) h, "hashCode");
    int len = (int) s.range(0, (int64_t) v.size() + 4); auto c = Arrays::copyOf(a, len);
    CHECK_EQ(c.length, len, "length of the copy"); for (int i = 0; i < len; ++i) CHECK_EQ((bool) c.get(i), i < (int) v.size() ? (bool) v[(size_t) i] : false, "copied " << i);
    int f = (int) s.range(0, (int64_t) v.size()), t = (int) s.range(f, (int64_t) v.size()); auto r = Arrays::copyOfRange(a, f, t);
    CHECK_EQ(r.length, t - f, "length of " << f << ".." << t); for (int i = f; i < t; ++i) CHECK_EQ((bool) r.get(i - f), (bool) v[(size_t) i], "range copy of " << i);
}
void lists(Src &s) {
    std::string t[3]; for (auto &e : t) e = StrE::gen(s);
    TRACE("asList " << show(t[0]) << ", " << show(t[1]) << ", " << show(t[2]));
    auto l = Arrays::asList({J(t[0]), J(t[1]), J(t[2])});
    CHECK_EQ((int) l.size(), 3, "size of asList"); for (int i = 0; i < 3; ++i) CHECK_EQ(S(l.get(i)), t[i], "asList element " << i);
    auto k = t[s.range(0, 2)]; CHECK(l.contains(J(k)), "asList contains " << show(k));
}
template<class K> void objects(Src &s) { if (s.flip()) { sorting<K>(s); LABEL("sort"); } else { searching<K>(s); LABEL("search"); } }
void run(Src &s) {
    switch (s.range(0, 10)) {
        case 0: numeric<Num<int>>(s); LABEL("int"); break;
        case 1: numeric<Num<char>>(s); LABEL("char"); break;
        case 2: numeric<Num<byte>>(s); LABEL("byte"); break;
        case 3: numeric<Num<short>>(s); LABEL("short"); break;
        case 4: numeric<Num<long>>(s); LABEL("long"); break;
        case 5: numeric<Num<float>>(s); LABEL("float"); break;
        case 6: numeric<Num<double>>(s); LABEL("double"); break;
        case 7: flags(s); LABEL("boolean"); break;
        case 8: objects<IntE>(s); LABEL("Integer"); break;
        case 9: objects<StrE>(s); LABEL("String"); break;
        default: lists(s); LABEL("asList");
    }
}
}
PROPERTY(U07, run, 700, "a case is one array (empty to 300 elements; random, constant, sorted, reversed or nearly sorted) put through one family of algorithms with random ranges; non-trivial with at least 3 elements")
