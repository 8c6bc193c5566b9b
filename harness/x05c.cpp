// X05, shared by threads: every value of the documented sequence is handed out exactly once
#include "jv.hpp"
#include "conc.hpp"
#include <algorithm>
#include "library/Java/Util/Random/Random.hpp"
namespace {
void run(Src &s) {
    int64_t seed = s.i64(); int nt = (int) s.range(2, 4), level = (int) s.range(0, 2); uint32_t noise = s.u16(); std::vector<int> n; int total = 0;
    for (int t = 0; t < nt; ++t) { n.push_back((int) s.range(1, 60)); total += n.back(); }
    TRACE("seed " << seed << ", " << nt << " threads, " << total << " draws, noise " << level);
    ju::Random r((long) seed); std::vector<std::vector<int> > got((size_t) nt); std::vector<std::function<void()> > f;
    for (int t = 0; t < nt; ++t) f.push_back([&, t] { conc::Noise x(noise + (uint32_t) t * 77u, level); for (int k = 0; k < n[(size_t) t]; ++k) { x(); got[(size_t) t].push_back(r.nextInt()); } });
    std::string err = conc::runAll(f); CHECK(err.empty(), err);
    uint64_t x = ((uint64_t) seed ^ 0x5DEECE66DULL) & ((1ULL << 48) - 1); std::vector<int> want;
    auto step = [&] { x = (x * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1); return (int) (int64_t) (x >> 16); };
    for (int k = 0; k < total; ++k) want.push_back(step());
    for (auto &g : got) { size_t at = 0; for (int v : g) { while (at < want.size() && want[at] != v) ++at; CHECK(at < want.size(), "a thread drew " << v << ", which the sequence does not hold after its earlier draws"); ++at; } }
    std::vector<int> all; for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end()); std::sort(want.begin(), want.end()); CHECK(all == want, "a value was drawn twice or skipped");
    CHECK_EQ(r.nextInt(), step(), "next value afterwards"); markNontrivial();
}
}
PROPERTY(X05C, run, 40, "2-4 threads drawing 1-60 values each from one generator")
