// U05: HashMap histories against std::map
#include "jv.hpp"
namespace {
using ju::HashMap; using jl::Integer; using jl::Long;
struct IntE { typedef Integer T; typedef int M; static M gen(Src &s) { return s.chance(1, 8) ? s.i32() : (int) s.range(-4, 12); } static T in(M m) { return Integer(m); } static M out(const T &t) { return t.intValue(); } static std::string text(M m) { return std::to_string(m); } static const bool printable = true; };
struct LongE { typedef Long T; typedef long M; static M gen(Src &s) { return s.chance(1, 4) ? (long) s.i64() : ((long) s.range(-2, 3) << 32) + (long) s.range(-1, 2); } static T in(M m) { return Long(m); } static M out(const T &t) { return t.longValue(); } static std::string text(M m) { return std::to_string(m); } static const bool printable = true; };
struct RawE { typedef int T; typedef int M; static M gen(Src &s) { return (int) s.range(-1, 3); } static T in(M m) { return m; } static M out(const T &t) { return t; } static std::string text(M m) { return std::to_string(m); } static const bool printable = false; };
struct StrE { typedef JString T; typedef std::string M; static M gen(Src &s) { return s.text(5, (int) s.range(0, 2)); } static T in(const M &m) { return J(m); } static M out(const T &t) { return S(t); }
    static std::string text(const M &m) { return "\"" + m + "\""; } static const bool printable = true; };
template<class E> std::string valueText(typename E::M m) { return E::text(m); }
template<> std::string valueText<StrE>(std::string m) { return !m.empty() && (m[0] == '[' || m[0] == '{') ? m : StrE::text(m); }
template<class H, bool P> struct Text { static void check(H &x, const std::string &want) { CHECK_EQ(S(x.toString()), want, "toString"); } };
template<class H> struct Text<H, false> { static void check(H &, const std::string &) {} };
template<class K, class V> void history(Src &s) {
    typedef typename K::M KM; typedef typename V::M VM; typedef HashMap<typename K::T, typename V::T> H; typedef std::map<KM, VM> M;
    const int N = 2;
    H h[N]; M m[N];
    int steps = 0; bool overwritten = false; const VM none = V::out(typename V::T());
    auto same = [&](const H &x, const M &v, const char *what) {
        CHECK_EQ((long) x.size(), (long) v.size(), what << " size"); CHECK_EQ((bool) x.isEmpty(), v.empty(), what << " isEmpty");
        size_t seen = 0;
        for (auto const &e : x) {
            auto it = v.find(K::out(e.first));
            CHECK(it != v.end(), what << " holds the key " << show(K::out(e.first))); CHECK_EQ(V::out(e.second), it->second, what << " value of " << show(it->first) << " by iteration"); ++seen;
        }
        CHECK_EQ(seen, v.size(), what << " entries iterated");
        for (auto const &e : v) { CHECK(x.containsKey(K::in(e.first)), what << " has lost the key " << show(e.first)); CHECK_EQ(V::out(x.get(K::in(e.first))), e.second, what << " value of " << show(e.first)); }
    };
    long many = manyElements(s);
    if (many) { TRACE("h0 begins with " << many << " entries"); for (long k = 0; k < many; ++k) { KM a; VM e; nth(k, a); nth(k % 1000, e); h[0].put(K::in(a), V::in(e)); m[0][a] = e; } }
    do {
        int i = (int) s.range(0, N - 1); H &x = h[i]; M &v = m[i]; int n = (int) v.size();
        ++steps;
        auto key = [&] { if (n && s.chance(3, 5)) { auto it = v.begin(); std::advance(it, s.range(0, n - 1)); return it->first; } return K::gen(s); };
        auto value = [&](const KM &k) { return v.count(k) && s.flip() ? v[k] : s.chance(1, 4) ? none : V::gen(s); };
        switch (s.weighted({10, 4, 3, 2, 3, 3, 3, 2, 3, 2, 2, 2, 2, 2, 1, 2, 3})) {
            case 0: { KM k = key(); VM e = V::gen(s); TRACE("h" << i << ".put " << show(k) << " = " << show(e)); overwritten = overwritten || v.count(k); if (v.count(k)) LABEL("overwritten"); x.put(K::in(k), V::in(e)); v[k] = e; break; }
            case 1: { KM k = key(); VM e = V::gen(s); TRACE("h" << i << ".putIfAbsent " << show(k) << " = " << show(e)); CHECK_EQ(V::out(x.putIfAbsent(K::in(k), V::in(e))), v.count(k) ? v[k] : none, "previous value of " << show(k)); v.insert({k, e}); break; }
            case 2: { KM k = key(); TRACE("h" << i << ".remove " << show(k)); CHECK_EQ(V::out(x.remove(K::in(k))), v.count(k) ? v[k] : none, "removed value of " << show(k)); v.erase(k); break; }
            case 3: { KM k = key(); VM e = value(k); TRACE("h" << i << ".remove " << show(k) << " if " << show(e)); bool hit = v.count(k) && v[k] == e; CHECK_EQ((bool) x.remove(K::in(k), V::in(e)), hit, "conditional remove of " << show(k)); if (hit) v.erase(k); break; }
            case 4: { KM k = key(); VM e = V::gen(s); TRACE("h" << i << ".replace " << show(k) << " by " << show(e)); CHECK_EQ(V::out(x.replace(K::in(k), V::in(e))), v.count(k) ? v[k] : none, "replaced value of " << show(k)); if (v.count(k)) v[k] = e; break; }
            case 5: { KM k = key(); VM o = value(k), e = V::gen(s); TRACE("h" << i << ".replace " << show(k) << " if " << show(o) << " by " << show(e)); bool hit = v.count(k) && v[k] == o; CHECK_EQ((bool) x.replace(K::in(k), V::in(o), V::in(e)), hit, "conditional replace of " << show(k)); if (hit) v[k] = e; break; }
            case 6: {
                KM k = key(); VM d = V::gen(s); TRACE("h" << i << " looks up " << show(k));
                CHECK_EQ(V::out(x.get(K::in(k))), v.count(k) ? v[k] : none, "get " << show(k)); CHECK_EQ((bool) x.containsKey(K::in(k)), v.count(k) > 0, "containsKey " << show(k));
                CHECK_EQ(V::out(x.getOrDefault(K::in(k), V::in(d))), v.count(k) ? v[k] : d, "getOrDefault " << show(k));
                if (!v.count(k)) LABEL("absent key");
                break;
            }
            case 7: { VM e = n && s.flip() ? v.begin()->second : V::gen(s); TRACE("h" << i << ".containsValue " << show(e)); bool has = false; for (auto &p : v) has = has || p.second == e; CHECK_EQ((bool) x.containsValue(V::in(e)), has, "containsValue " << show(e)); break; }
            case 8: {
                TRACE("h" << i << ".putAll h" << 1 - i); x.putAll(h[1 - i]); for (auto &p : m[1 - i]) v[p.first] = p.second;
                if (s.chance(1, 4)) x.putAll(x);
                break;
            }
            case 9: {
                TRACE("h" << i << " cloned, the clone edited"); H c = s.flip() ? x.clone() : H(x); M w(v); same(c, w, "clone");
                CHECK(c.equals(x) && x.equals(c), "clone not equal");
                KM k = key(); VM e = V::gen(s); c.put(K::in(k), V::in(e)); w[k] = e; if (n && s.flip()) { k = v.begin()->first; c.remove(K::in(k)); w.erase(k); }
                same(c, w, "edited clone");
                if (s.chance(1, 3)) { x = c; v = w; }
                break;
            }
            case 16: {
                if (!n) break;
                int at = (int) s.range(0, n - 1), way = (int) s.range(0, 8); auto it = x.begin(); std::advance(it, at); const typename K::T &ok = it->first; const typename V::T &ov = it->second; KM k = K::out(ok), o = key(); VM e = V::out(ov), d = V::gen(s);
                TRACE("h" << i << " by its own entry " << show(k) << " = " << show(e) << " way " << way << " with " << show(o)); LABEL("own entry");
                switch (way) {
                    case 0: x.put(ok, ov); break;
                    case 1: x.put(K::in(o), ov); v[o] = e; break;
                    case 2: CHECK_EQ(V::out(x.putIfAbsent(K::in(o), ov)), v.count(o) ? v[o] : none, "putIfAbsent"); v.insert({o, e}); break;
                    case 3: CHECK_EQ(V::out(x.remove(ok)), e, "removed value"); v.erase(k); break;
                    case 4: CHECK(x.remove(ok, ov), "own entry not removed"); v.erase(k); break;
                    case 5: CHECK_EQ(V::out(x.replace(ok, V::in(d))), e, "replaced value"); v[k] = d; break;
                    case 6: CHECK(x.replace(ok, ov, V::in(d)), "own entry not replaced"); v[k] = d; break;
                    case 7: CHECK_EQ(V::out(x.getOrDefault(K::in(o), ov)), v.count(o) ? v[o] : e, "getOrDefault"); CHECK_EQ(V::out(x.getOrDefault(ok, V::in(d))), e, "getOrDefault"); CHECK(x.containsKey(ok), "containsKey"); CHECK(x.containsValue(ov), "containsValue"); break;
                    default: CHECK_EQ(V::out(x.replace(K::in(o), ov)), v.count(o) ? v[o] : none, "replace"); if (v.count(o)) v[o] = e;
                }
                break;
            }
            case 10: TRACE("h" << i << " = h" << 1 - i); if (s.chance(1, 4)) x = *&x; else { x = h[1 - i]; v = m[1 - i]; } break;
            case 11: {
                TRACE("h" << i << " entry set");
                M w; int count = 0;
                for (auto e : x.entrySet()) { w[K::out(e.getKey())] = V::out(e.getValue()); ++count; VM q = V::gen(s); CHECK_EQ(V::out(e.setValue(V::in(q))), w[K::out(e.getKey())], "setValue result"); CHECK_EQ(V::out(e.getValue()), q, "entry value after setValue"); }
                CHECK_EQ(count, n, "entries"); CHECK(w == v, "entry set holds other entries");
                break;
            }
            case 12: {
                int stop = (int) s.range(0, 8), seen = 0; M w;
                TRACE("h" << i << ".forEach until " << stop);
                x.forEach([&](typename K::T k, typename V::T e) -> boolean { CHECK(w.insert({K::out(k), V::out(e)}).second, "visited " << show(K::out(k)) << " twice"); return seen++ != stop; });
                CHECK_EQ(seen, std::min(stop + 1, n), "entries visited");
                for (auto &p : w) CHECK(v.count(p.first) && v[p.first] == p.second, "visited a foreign entry " << show(p.first));
                break;
            }
            case 13: {
                TRACE("equality of h0, h1 and a changed copy of h" << i);
                CHECK_EQ((bool) h[0].equals(h[1]), m[0] == m[1], "equals"); CHECK(x.equals(x), "equals itself");
                H c(x); M w(v); KM k = key();
                if (n && s.flip()) { KM o = v.begin()->first; c.remove(K::in(o)); w.erase(o); LABEL("other key, same size"); }
                VM e = value(k); c.put(K::in(k), V::in(e)); w[k] = e;
                CHECK_EQ((bool) x.equals(c), v == w, "equals a changed copy"); CHECK_EQ((bool) c.equals(x), v == w, "changed copy equals");
                break;
            }
            case 14: TRACE("h" << i << " emptied"); if (s.flip()) x.clear(); else x.reinitialize(); v.clear(); break;
            default: {
                int k = (int) s.size(60); TRACE("h" << i << " gets " << k << " more and prints");
                for (; k > 0; --k) { KM a = K::gen(s); VM e = V::gen(s); x.put(K::in(a), V::in(e)); v[a] = e; }
                std::string want = "{"; bool first = true;
                for (auto const &e : x) { want += (first ? "" : ", ") + K::text(K::out(e.first)) + ": " + valueText<V>(V::out(e.second)); first = false; }
                if (v.size() < 5000) Text<H, K::printable && V::printable>::check(x, want + "}");
            }
        }
        for (int q = 0; q < N; ++q) same(h[q], m[q], q == i ? "target" : "other map");
    } while (s.more() && steps < stepsAfter(many, 40));
    if (steps >= 4 || overwritten) markNontrivial();
}
void list(Src &s) {
    std::string k[3], v[3]; std::map<std::string, std::string> m;
    for (int i = 0; i < 3; ++i) { k[i] = StrE::gen(s); v[i] = StrE::gen(s); m[k[i]] = v[i]; TRACE("{" << show(k[i]) << ", " << show(v[i]) << "}"); }
    HashMap<JString, JString> h = {{J(k[0]), J(v[0])}, {J(k[1]), J(v[1])}, {J(k[2]), J(v[2])}};
    CHECK_EQ((long) h.size(), (long) m.size(), "size");
    for (auto &p : m) CHECK_EQ(S(h.get(J(p.first))), p.second, "value of " << show(p.first));
}
void run(Src &s) {
    switch (s.weighted({4, 3, 2, 2, 1})) { case 0: history<StrE, StrE>(s); LABEL("String to String"); break; case 1: history<IntE, StrE>(s); LABEL("Integer to String"); break; case 2: history<LongE, IntE>(s); LABEL("Long to Integer"); break; case 3: history<StrE, RawE>(s); LABEL("String to int"); break; default: list(s); LABEL("list"); }
}
}
PROPERTY(U05, run, 500, "a case is a history of up to 40 operations over two maps with small key domains (bulk puts pass several rehashes); non-trivial with at least 4 operations or an overwritten key")
