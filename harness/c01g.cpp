// C01, tables that grow past their initial 262144 slots: nothing is lost while buckets are moved, by one thread or several
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
namespace {
using ju::Concurrent::ConcurrentHashMap;
typedef ConcurrentHashMap<int, long> M;
struct Range { int from, n, step; bool remove; };
void run(Src &s) {
    int T = (int) s.range(1, 4), level = (int) s.range(0, 1); long sum = 0; std::vector<std::vector<Range> > plan((size_t) T); uint32_t seed = s.u16(); std::vector<std::map<int, long> > none; std::ostringstream d;
    for (int t = 0; t < T; ++t) { int base = t * 100000000, n = (int) s.range(1, 4), at = base; d << "\n thread " << t << ":"; for (int i = 0; i < n; ++i) { Range r{at, (int) s.range(20000, 480000 / (T * n)), s.pick<int>({1, 1, 3, 17, 64}), s.chance(1, 3)}; at += r.n * r.step; sum += r.n; d << " put " << r.n << " from " << r.from << " step " << r.step << (r.remove ? " then remove every third" : ""); plan[(size_t) t].push_back(r); } }
    TRACE("about " << sum << " entries" << d.str()); M m; std::vector<std::function<void()> > f; std::atomic<long> left(0);
    for (int t = 0; t < T; ++t) f.push_back([&, t] {
        conc::Noise noise(seed + (uint32_t) t, level); long kept = 0;
        for (const Range &r : plan[(size_t) t]) {
            for (int i = 0; i < r.n; ++i) { int k = r.from + i * r.step; m.put(k, (long) k * 3 + 1); if (i % 1024 == 0) { noise(); CHECK_EQ(m.get(k), (long) k * 3 + 1, "key " << k << " just put"); CHECK_EQ(m.get(r.from), (long) r.from * 3 + 1, "first key of the range"); } }
            kept += r.n;
            if (r.remove) for (int i = 0; i < r.n; i += 3) { int k = r.from + i * r.step; CHECK_EQ(m.remove(k), (long) k * 3 + 1, "removal of key " << k); --kept; }
            for (int i = 0; i < r.n; i += 7) { int k = r.from + i * r.step; bool gone = r.remove && i % 3 == 0; CHECK_EQ((bool) m.containsKey(k), !gone, "key " << k); }
        }
        left += kept;
    });
    std::string err = conc::runAll(f); CHECK(err.empty(), err); markNontrivial();
    CHECK_EQ((long) m.size(), left.load(), "size");
    for (auto &p : plan) for (Range &r : p) for (int i = 0; i < r.n; ++i) { int k = r.from + i * r.step; bool gone = r.remove && i % 3 == 0; CHECK_EQ(m.getOrDefault(k, -7L), gone ? -7L : (long) k * 3 + 1, "key " << k << " at the end"); }
    long n = 0; m.forEach([&](int k, long v) { CHECK_EQ(v, (long) k * 3 + 1, "entry of key " << k); ++n; return true; }); CHECK_EQ(n, left.load(), "entries walked");
    if (s.flip()) { M c(m); CHECK(c.equals(m), "copy differs"); m.clear(); CHECK(m.isEmpty(), "not empty after clear"); CHECK_EQ((long) c.size(), left.load(), "size of the copy"); m.put(5, 6); CHECK_EQ(m.get(5), 6L, "put after clear"); LABEL("copied and cleared"); }
    if (left > 262144) LABEL("table grew");
}
}
PROPERTY(C01G, run, 120, "1-4 threads filled one table with up to 480000 entries",
    {"colliding_keys", [] { M m; for (int i = 0; i < 9; ++i) { bool t = throwsAny([&] { m.put(i << 16 | i << 24, 1L); }); CHECK(!t, "put of the key " << (i << 16 | i << 24) << " threw"); } }})
