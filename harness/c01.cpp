// C01, one thread: a ConcurrentHashMap is a mapping
#include "jv.hpp"
#include <deque>
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
namespace {
using ju::Concurrent::ConcurrentHashMap;
// the first int keys share their buckets: six have both in common, four have the second bucket of the next two as their first
int mk(int64_t i, int *) {
    auto part = [](uint32_t k) { k ^= k >> 16; return (uint8_t) (k ^ k >> 8); };
    auto other = [](uint8_t p, uint32_t ix) { return (uint32_t) ((ix ^ (uint64_t) (p + 1) * 0xc6a4a7935bd1e995ULL) & 65535); };
    const uint32_t c = 0x0123; if (i < 6) return (int) (c | (uint32_t) i << 16 | (uint32_t) i << 24);
    if (i < 12) { uint32_t k = c | 0x00550000u, d = other(part(k), c); if (i < 10) return (int) (d | (uint32_t) (i * 37 & 255) << 16 | (uint32_t) (i * 11 & 255) << 24); return (int) (i == 10 ? k : c | 0x01540000u); }
    return (int) (i % 2 ? 0x10000000 + i : -i * 65543);
}
JString mk(int64_t i, JString *) { std::string t = "key " + std::to_string(i); if (i % 5 == 4) t[0] = 0; if (i == 0) t = ""; return J(t); }
long mv(int64_t i, long *) { return (long) i; }
JString mv(int64_t i, JString *) { return J(std::string((size_t) (i % 40), 'v') + std::to_string(i)); }
std::string tx(const JString &v) { return S(v); }
std::string tx(long v) { return std::to_string(v); }
template <class K, class V> struct Model {
    typedef ConcurrentHashMap<K, V> M; typedef std::map<int64_t, int64_t> R;
    static K key(int64_t i) { return mk(i, (K *) nullptr); }
    static V val(int64_t i) { return mv(i, (V *) nullptr); }
    static std::string none() { return tx(V()); }
    static void quick(M &m, const R &r, int64_t span) {
        CHECK_EQ((long) m.size(), (long) r.size(), "size"); if (r.size() < 2) CHECK_EQ((bool) m.isEmpty(), r.empty(), "isEmpty");
        for (int64_t i = 0; i < std::min<int64_t>(span, 12); ++i) { auto f = r.find(i); CHECK_EQ(tx(m.get(key(i))), f == r.end() ? none() : tx(val(f->second)), "get of key " << i); CHECK_EQ((bool) m.containsKey(key(i)), f != r.end(), "containsKey " << i); }
    }
    static void walk(M &m, const R &r) {
        std::map<std::string, std::string> want, got; for (auto &p : r) want[tx(key(p.first))] = tx(val(p.second));
        int n = 0; m.forEach([&](K k, V v) { got[tx(k)] = tx(v); ++n; return true; }); CHECK(got == want, "forEach saw other entries"); CHECK_EQ(n, (int) r.size(), "entries seen by forEach");
        got.clear(); n = 0; auto e = m.end(); for (auto it = m.begin(); it != e; ++it) { got[tx((*it).first)] = tx((*it).second); ++n; } CHECK(got == want, "iteration saw other entries"); CHECK_EQ(n, (int) r.size(), "entries seen by iteration");
    }
    static void go(Src &s) {
        std::vector<std::unique_ptr<M> > m; std::deque<R> r; m.emplace_back(new M()); r.emplace_back(); int64_t fresh = 1; bool big = s.chance(1, 12); int64_t span = big ? s.range(50, 400) : s.range(2, 12);
        for (int n = 0; n < 60 && s.more(); ++n) {
            size_t k = (size_t) s.range(0, (int64_t) m.size() - 1); M &a = *m[k]; R &b = r[k]; int64_t i = s.range(0, span - 1); K key_ = key(i); auto f = b.find(i); bool in = f != b.end(); int64_t cur = in ? f->second : 0; std::string now = in ? tx(val(cur)) : none(); int64_t nv = s.chance(1, 6) && in ? cur : s.chance(1, 8) ? 0 : fresh++;
            switch (s.weighted({16, 8, 6, 6, 6, 6, 6, 4, 1, 1, 1, 1, 3, 1})) {
                case 0: TRACE("put " << i << " " << nv); a.put(key_, val(nv)); b[i] = nv; markNontrivial(); break;
                case 1: TRACE("get " << i); CHECK_EQ(tx(a.get(key_)), now, "get"); CHECK_EQ(tx(a.getOrDefault(key_, val(77777))), in ? now : tx(val(77777)), "getOrDefault"); break;
                case 2: TRACE("remove " << i); CHECK_EQ(tx(a.remove(key_)), now, "remove"); b.erase(i); break;
                case 3: { bool hit = in && s.flip(); int64_t w = hit ? cur : fresh + 5; bool want = in && tx(val(w)) == now; TRACE("remove " << i << " if " << w); CHECK_EQ((bool) a.remove(key_, val(w)), want, "remove(key, value)"); if (want) b.erase(i); break; }
                case 4: TRACE("putIfAbsent " << i << " " << nv); CHECK_EQ(tx(a.putIfAbsent(key_, val(nv))), now, "putIfAbsent"); if (!in) b[i] = nv; break;
                case 5: TRACE("replace " << i << " " << nv); CHECK_EQ(tx(a.replace(key_, val(nv))), now, "replace"); if (in) b[i] = nv; break;
                case 6: { bool hit = in && s.flip(); int64_t w = hit ? cur : fresh + 5; bool want = in && tx(val(w)) == now; TRACE("replace " << i << " " << w << " by " << nv); CHECK_EQ((bool) a.replace(key_, val(w), val(nv)), want, "replace(key, old, new)"); if (want) b[i] = nv; break; }
                case 7: TRACE("contains " << i); CHECK_EQ((bool) a.containsKey(key_), in, "containsKey"); CHECK_EQ((bool) a.find(key_), in, "find"); break;
                case 8: { bool any = false; for (auto &p : b) any = any || tx(val(p.second)) == tx(val(nv)); TRACE("containsValue " << nv); CHECK_EQ((bool) a.containsValue(val(nv)), any, "containsValue"); if (in) CHECK(a.containsValue(val(cur)), "containsValue of a held value"); break; }
                case 9: TRACE("clear"); if (s.flip()) a.clear(); else a.reinitialize(); b.clear(); break;
                case 10: if (m.size() < 3) { bool c = s.flip(); TRACE((c ? "clone " : "copy ") << k); m.emplace_back(c ? new M(a.clone()) : new M(a)); R bc = b; r.push_back(bc); LABEL("copied"); } break;
                case 11: { size_t o = (size_t) s.range(0, (int64_t) m.size() - 1); bool eq = r[o].size() == b.size(); for (auto &p : b) { auto q = r[o].find(p.first); eq = eq && q != r[o].end() && tx(val(q->second)) == tx(val(p.second)); } TRACE("equals " << k << " " << o << " = " << eq); CHECK_EQ((bool) a.equals(*m[o]), eq, "equals"); if (eq && o != k) LABEL("equal maps"); break; }
                case 12: if (big) { int64_t from = s.range(0, 2000), cnt = s.range(50, 300); TRACE("put " << cnt << " keys from " << from); for (int64_t q = from; q < from + cnt; ++q) { a.put(key(q), val(q)); b[q] = q; } LABEL("grown by many keys"); } break;
                default: { int stop = (int) s.range(1, 5), seen = 0; TRACE("forEach stopping after " << stop); bool uses = s.flip(); a.forEach([&](K k, V v) { if (uses) CHECK(a.containsKey(k) && tx(a.get(k)) == tx(v), "the map as the action of forEach sees it"); return ++seen < stop; }); CHECK_EQ(seen, std::min(stop, (int) b.size()), "entries visited"); break; }
            }
            quick(a, b, span); if (n % 8 == 7) for (size_t q = 0; q < m.size(); ++q) quick(*m[q], r[q], span);
        }
        for (size_t q = 0; q < m.size(); ++q) { quick(*m[q], r[q], span); walk(*m[q], r[q]); if (big) for (auto &p : r[q]) CHECK_EQ(tx(m[q]->get(key(p.first))), tx(val(p.second)), "get of key " << p.first); }
    }
};
void run(Src &s) { if (s.flip()) Model<JString, JString>::go(s); else Model<int, long>::go(s); }
}
PROPERTY(C01, run, 500, "at least one entry was put")
