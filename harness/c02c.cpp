// C02, several threads: nothing lost, nothing invented, producers' orders kept
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
namespace {
using ju::Concurrent::ConcurrentLinkedQueue;
long mv(int64_t i, long *) { return (long) i; }
JString mv(int64_t i, JString *) { return J(std::to_string(i) + std::string((size_t) (i % 31), '.')); }
int64_t un(long v) { return v; }
int64_t un(const JString &v) { std::string t = S(v); return t.empty() ? 0 : atoll(t.c_str()); }
template <class E> void go(Src &s) {
    int P = (int) s.range(1, 4), C = (int) s.range(0, 3), level = (int) s.range(0, 2), before = s.chance(1, 3) ? (int) s.range(0, 40) : 0; uint32_t seed = s.u16(); std::vector<int> n; bool big = s.chance(1, 10); int total = before;
    for (int p = 0; p < P; ++p) { n.push_back((int) s.range(1, big ? 1500 : 60)); total += n.back(); }
    std::vector<int> tries; for (int c = 0; c < C; ++c) tries.push_back((int) s.range(1, big ? 2000 : 80)); bool until = C > 0 && s.chance(1, 3); int selfish = s.chance(1, 3) ? (int) s.range(0, P - 1) : -1;
    TRACE(before << " elements, producers " << show(n) << ", consumers " << show(tries) << (until ? " until all is taken" : "") << ", noise " << level << (selfish >= 0 ? ", producer " + std::to_string(selfish) + " also polls" : ""));
    ConcurrentLinkedQueue<E> q; auto val = [](int64_t i) { return mv(i, (E *) nullptr); }; for (int i = 0; i < before; ++i) q.add(val(9000000 + i + 1));
    std::vector<std::vector<int64_t> > got((size_t) (C + P + 1)); std::atomic<int> taken(0); std::vector<std::function<void()> > f;
    for (int p = 0; p < P; ++p) f.push_back([&, p] { conc::Noise x(seed + (uint32_t) p, level); for (int i = 1; i <= n[(size_t) p]; ++i) { E e = val((p + 1) * 1000000 + i); CHECK(i % 3 ? q.add(e) : q.offer(e), "add refused"); x(); if (p == selfish && i % 2) { int64_t v = un(q.poll()); if (v) { got[(size_t) (C + p)].push_back(v); ++taken; } } } });
    for (int c = 0; c < C; ++c) f.push_back([&, c] { conc::Noise x(seed + 50u + (uint32_t) c, level); for (int i = 0; i < tries[(size_t) c] || (until && taken < total); ++i) { int64_t v = un(q.poll()); if (v) { got[(size_t) c].push_back(v); ++taken; } else if (until) sched_yield(); x(); (void) q.isEmpty(); } });
    std::string err = conc::runAll(f); CHECK(err.empty(), err); markNontrivial();
    int rest = total - taken; CHECK_EQ(q.size(), rest, "size once all threads have ended"); CHECK_EQ((bool) q.isEmpty(), rest == 0, "isEmpty once all threads have ended");
    for (int i = 0; i < rest; ++i) { int64_t v = un(q.poll()); CHECK(v != 0, "drained " << i << " of " << rest << " elements"); got.back().push_back(v); }
    CHECK_EQ(un(q.poll()), (int64_t) 0, "poll after draining"); CHECK(q.isEmpty(), "not empty after draining");
    if (rest) LABEL("elements left for draining"); if (rest < total) LABEL("elements taken meanwhile"); if (big) LABEL("many elements");
    std::map<int64_t, int> count;
    for (size_t g = 0; g < got.size(); ++g) { std::map<int64_t, int64_t> last; for (int64_t v : got[g]) { int64_t p = v / 1000000, i = v % 1000000; ++count[v]; CHECK(p == 9 ? i >= 1 && i <= before : p >= 1 && p <= P && i >= 1 && i <= n[(size_t) (p - 1)], "an element nobody added: " << v); CHECK(last[p] < i, "element " << i << " of producer " << p << " came after " << last[p]); last[p] = i; } }
    CHECK_EQ((int) count.size(), total, "different elements delivered"); for (auto &c : count) CHECK_EQ(c.second, 1, "deliveries of " << c.first);
}
void run(Src &s) { if (s.flip()) go<long>(s); else go<JString>(s); }
}
PROPERTY(C02C, run, 60, "1-4 producers and 0-3 consumers ran")
