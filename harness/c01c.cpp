// C01, several threads: the history of every key is linearizable, private keys behave as in one thread, the final content is explained
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include <unordered_set>
namespace {
using ju::Concurrent::ConcurrentHashMap;
enum Op { PUT, GET, REMOVE, REMOVE_IF, PUT_ABSENT, REPLACE, REPLACE_IF, CONTAINS, CLEAR };
const char *OPS[] = {"put", "get", "remove", "removeIf", "putIfAbsent", "replace", "replaceIf", "containsKey", "clear"};
struct Ev { int op, key, arg, arg2, res; long inv, ret; };          // values are positive numbers, 0 is absent
int idx(int k, int *) { return k * 1024; }
JString idx(int k, JString *) { return J("shared key " + std::to_string(k)); }
JString wrap(int v, JString *) { return v ? J(std::to_string(v) + ":" + std::string((size_t) (v % 37), (char) ('a' + v % 26))) : JString(); }
long wrap(int v, long *) { return (long) v * 1000003L; }
int unwrap(const JString &x) { std::string t = S(x); if (t.empty()) return 0; int v = atoi(t.c_str()); CHECK_EQ(t, S(wrap(v, (JString *) nullptr)), "a torn value"); return v; }
int unwrap(long x) { CHECK(x % 1000003L == 0, "a torn value " << x); return (int) (x / 1000003L); }
std::atomic<long> clock_(0);
long tick() { return clock_.fetch_add(1, std::memory_order_relaxed); }
// state after op, or -1 when the recorded result is impossible
int step(int st, const Ev &e) {
    switch (e.op) {
        case PUT: return e.arg;
        case GET: return e.res == st ? st : -1;
        case CONTAINS: return e.res == (st != 0) ? st : -1;
        case CLEAR: return 0;
        case REMOVE: return e.res == st ? 0 : -1;
        case REMOVE_IF: return e.res == (st != 0 && st == e.arg) ? (e.res ? 0 : st) : -1;
        case PUT_ABSENT: return e.res == st ? (st ? st : e.arg) : -1;
        case REPLACE: return e.res == st ? (st ? e.arg : 0) : -1;
        default: return e.res == (st != 0 && st == e.arg2) ? (e.res ? e.arg : st) : -1;
    }
}
struct Search {
    const std::vector<Ev> &e; std::set<std::pair<uint64_t, int> > dead;
    bool go(uint64_t done, int st) {
        if (done == ((1ULL << e.size()) - 1)) return true;
        if (!dead.insert(std::make_pair(done, st)).second) return false;
        long first = LONG_MAX; for (size_t i = 0; i < e.size(); ++i) if (!(done >> i & 1)) first = std::min(first, e[i].ret);
        for (size_t i = 0; i < e.size(); ++i) if (!(done >> i & 1) && e[i].inv <= first) { int n = step(st, e[i]); if (n >= 0 && go(done | 1ULL << i, n)) return true; }
        return false;
    }
};
template <class K, class V> void go(Src &s) {
    typedef ConcurrentHashMap<K, V> M; M m; int T = (int) s.range(2, 4), keys = (int) s.range(1, 3), level = (int) s.range(0, 2), fresh = 1; uint32_t seed = s.u16();
    std::vector<std::vector<Ev> > plan((size_t) T); std::vector<int> grow, walk; std::vector<int> start((size_t) keys, 0); std::ostringstream d;
    auto key = [](int k) { return idx(k, (K *) nullptr); }; auto val = [](int v) { return wrap(v, (V *) nullptr); };
    for (int k = 0; k < keys; ++k) if (s.flip()) { start[(size_t) k] = fresh; m.put(key(k), val(fresh++)); }
    if (s.chance(1, 3)) for (int k = 0; k < 12; ++k) m.put(key(1000 + k), val(1));
    bool walks = s.chance(1, 10), clears = s.chance(1, 12), copies = s.chance(1, 30), extras = m.containsKey(key(1000)); if (copies) LABEL("copied meanwhile"); if (clears) { walks = false; LABEL("cleared meanwhile"); }
    for (int t = 0; t < T; ++t) {
        int n = (int) s.range(1, 6); grow.push_back(clears ? 0 : s.chance(1, 4) ? (int) s.range(1, 60) : (int) s.range(0, 4)); walk.push_back(walks && s.chance(1, 2)); d << "\n thread " << t << " (" << grow.back() << " own keys" << (walk.back() ? ", walks" : "") << "):";
        for (int i = 0; i < n; ++i) {
            Ev e; e.op = clears && s.chance(1, 5) ? (int) CLEAR : (int) s.weighted({4, 3, 3, 2, 3, 2, 2, 1}); e.key = (int) s.range(0, keys - 1); e.arg = e.op == REMOVE_IF ? (int) s.range(1, std::max(1, fresh - 1)) : fresh; if (e.op != REMOVE_IF) ++fresh; e.arg2 = (int) s.range(1, fresh); e.res = 0; e.inv = e.ret = 0;
            d << " " << OPS[e.op] << "(" << e.key << "," << e.arg << (e.op == REPLACE_IF ? "," + std::to_string(e.arg2) : "") << ")"; plan[(size_t) t].push_back(e);
        }
    }
    TRACE("initial " << show(start) << d.str()); markNontrivial();
    std::vector<std::function<void()> > f;
    for (int t = 0; t < T; ++t) f.push_back([&, t] {
        conc::Noise noise(seed + (uint32_t) t * 31u, level); int own = 100 + t * 100, held = 0, g = grow[(size_t) t]; size_t n = plan[(size_t) t].size();
        for (size_t i = 0; i < n; ++i) {
            Ev &e = plan[(size_t) t][i]; K k = key(e.key); V v = val(e.arg), w = val(e.arg2); noise();
            e.inv = tick();
            switch (e.op) {
                case PUT: m.put(k, v); break; case GET: e.res = unwrap(e.arg & 1 ? m.get(k) : m.getOrDefault(k, V())); break; case CLEAR: m.clear(); break; case REMOVE: e.res = unwrap(m.remove(k)); break; case REMOVE_IF: e.res = m.remove(k, v); break;
                case PUT_ABSENT: e.res = unwrap(m.putIfAbsent(k, v)); break; case REPLACE: e.res = unwrap(m.replace(k, v)); break; case REPLACE_IF: e.res = m.replace(k, w, v); break; default: e.res = e.arg & 1 ? m.containsKey(k) : m.find(k);
            }
            e.ret = tick();
            if (e.arg % 7 == 3) { CHECK(m.size() >= 0 && (m.isEmpty() || true), "a size below zero"); CHECK(!m.containsValue(val(5000000 + t)), "a value nobody put"); if (extras && !clears) { CHECK(m.containsValue(val(1)), "a value that is there throughout"); } }
            for (int until = g * (int) (i + 1) / (int) n; held < until; ++held) {                                      // private keys: exactly as in one thread
                m.put(key(own + held), val(own + held)); CHECK_EQ(unwrap(m.get(key(own + held))), own + held, "a thread's own key"); CHECK(!m.containsKey(key(own + 99)), "a key nobody put");
                if (held % 5 == 2) { CHECK_EQ(unwrap(m.remove(key(own + held - 1))), own + held - 1, "removal of a thread's own key"); CHECK_EQ(unwrap(m.getOrDefault(key(own + held - 1), val(3))), 3, "a removed own key"); m.put(key(own + held - 1), val(own + held - 1)); }
            }
            if (copies && i == n / 2 && t < 2) {
                M c(m), d = c.clone(); std::vector<int> seen; int total = 0;
                for (int q = 0; q < held; ++q) CHECK_EQ(unwrap(c.get(key(own + q))), own + q, "own key in a copy made meanwhile");
                c.forEach([&](K kk, V vv) { ++total; CHECK(unwrap(vv) > 0, "an entry of a copy without a value"); CHECK(d.get(kk) == vv, "a copy of the copy"); return true; }); CHECK_EQ((long) total, (long) c.size(), "size of a copy"); CHECK(c.equals(d) && d.equals(c), "a copy of the copy differs");
            }
            if (walk[(size_t) t] && i == n / 2) {
                std::vector<int> seen; int total = 0; m.forEach([&](K kk, V vv) { ++total; int x = unwrap(vv); unwrap(m.get(kk)); CHECK(x > 0, "an entry without a value"); for (int q = 0; q < held; ++q) if (kk == key(own + q)) { CHECK_EQ(x, own + q, "value of an own key"); seen.push_back(q); } return true; });
                std::sort(seen.begin(), seen.end()); CHECK_EQ((int) seen.size(), held, "own keys seen while walking"); for (int q = 0; q < held; ++q) CHECK_EQ(seen[(size_t) q], q, "own key seen"); if (held) CHECK(m.containsValue(val(own)), "containsValue of an own value");
            }
        }
    });
    std::string err = conc::runAll(f); CHECK(err.empty(), err);
    long total = 0;
    for (int k = 0; k < keys; ++k) {
        std::vector<Ev> h; for (auto &p : plan) for (Ev &e : p) if (e.key == k || e.op == CLEAR) h.push_back(e);
        Ev last{GET, k, 0, 0, unwrap(m.get(key(k))), tick(), tick()}; h.push_back(last); if (last.res) ++total;
        std::sort(h.begin(), h.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
        bool overlap = false; for (size_t i = 1; i < h.size(); ++i) overlap = overlap || h[i].inv < h[i - 1].ret; if (overlap) LABEL("overlapping operations on one key");
        Search q{h, {}}; if (!q.go(0, start[(size_t) k])) { std::ostringstream o; for (Ev &e : h) o << "\n  [" << e.inv - h[0].inv << "," << e.ret - h[0].inv << "] " << OPS[e.op] << "(" << e.arg << (e.op == REPLACE_IF ? "," + std::to_string(e.arg2) : "") << ") = " << e.res; FAIL("no order of the operations on key " << k << " (initially " << start[(size_t) k] << ") explains the results:" << o.str()); }
    }
    for (int t = 0; t < T; ++t) for (int q = 0; q < grow[(size_t) t]; ++q) { CHECK_EQ(unwrap(m.get(key(100 + t * 100 + q))), 100 + t * 100 + q, "own key of thread " << t << " at the end"); ++total; }
    int still = 0; for (int k = 0; k < 12; ++k) still += m.containsKey(key(1000 + k)); bool cleared = false; for (auto &p : plan) for (Ev &e : p) cleared = cleared || e.op == CLEAR;
    CHECK_EQ(still, extras && !cleared ? 12 : 0, "entries nobody removed"); total += still;
    CHECK_EQ((long) m.size(), total, "size at the end"); if (walks) { int n = 0; m.forEach([&](K, V) { ++n; return true; }); CHECK_EQ((long) n, total, "entries at the end"); LABEL("walked"); }
    if (total > 60) LABEL("table grew");
}
// two maps compared with one another from both sides, while nobody changes them or while one thread changes other keys of one
template <class K, class V> void compared(Src &s) {
    typedef ConcurrentHashMap<K, V> M; M a, b; int n = (int) s.range(1, 30), rounds = (int) s.range(1, 12), level = (int) s.range(0, 2); uint32_t seed = s.u16(); bool differ = s.flip();
    auto key = [](int k) { return idx(k, (K *) nullptr); }; auto val = [](int v) { return wrap(v, (V *) nullptr); };
    for (int i = 0; i < n; ++i) { a.put(key(i), val(i + 1)); b.put(key(i), val(differ && i == n / 2 ? i + 2 : i + 1)); }
    TRACE("two maps of " << n << " entries" << (differ ? ", different" : "") << ", compared " << rounds << " times from both sides"); markNontrivial(); LABEL("compared from both sides");
    std::vector<std::function<void()> > f;
    for (int t = 0; t < 3; ++t) f.push_back([&, t] { conc::Noise noise(seed + (uint32_t) t, level); for (int i = 0; i < rounds; ++i) { noise(); CHECK_EQ((bool) (t & 1 ? a.equals(b) : b.equals(a)), !differ, "equals"); } });
    std::string err = conc::runAll(f); CHECK(err.empty(), err);
}
void run(Src &s) { if (s.chance(1, 30)) { if (s.flip()) compared<JString, JString>(s); else compared<int, long>(s); return; } if (s.flip()) go<JString, JString>(s); else go<int, long>(s); }
}
PROPERTY(C01C, run, 300, "2-4 threads used one map")
