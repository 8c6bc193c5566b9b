// C02, one thread: a ConcurrentLinkedQueue is a FIFO queue
#include "jv.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include <deque>
namespace {
using ju::Concurrent::ConcurrentLinkedQueue;
long mv(int64_t i, long *) { return (long) i; }
JString mv(int64_t i, JString *) { return i ? J("element " + std::to_string(i)) : JString(); }
std::string tx(const JString &v) { return S(v); }
std::string tx(long v) { return std::to_string(v); }
template <class E> void go(Src &s) {
    ConcurrentLinkedQueue<E> q; std::deque<int64_t> r; int64_t fresh = 1; auto val = [](int64_t i) { return mv(i, (E *) nullptr); };
    auto next = [&] { int64_t i = fresh; if (s.chance(1, 12)) { i = s.flip() || fresh < 2 ? 0 : s.range(1, fresh - 1); LABEL("default value or repeated element"); } else ++fresh; return i; };
    auto poll = [&] { E got = q.poll(); if (r.empty()) { CHECK_EQ(tx(got), tx(E()), "poll of an empty queue"); return; } CHECK_EQ(tx(got), tx(val(r.front())), "poll"); r.pop_front(); markNontrivial(); };
    for (int n = 0; n < 80 && s.more(); ++n) {
        switch (s.weighted({8, 4, 8, 3, 3, 1})) {
            case 0: { int64_t e = next(); TRACE("add " << e); CHECK(q.add(val(e)), "add"); r.push_back(e); break; }
            case 1: { int64_t e = next(); TRACE("offer " << e); CHECK(q.offer(val(e)), "offer"); r.push_back(e); break; }
            case 2: TRACE("poll"); poll(); break;
            case 3: { int64_t k = s.range(1, s.chance(1, 3000) ? 70000 : s.chance(1, 5) ? 2000 : 70); TRACE("add " << k << " elements"); while (k--) { q.add(val(fresh)); r.push_back(fresh++); } LABEL("many adds"); break; }
            case 4: { int64_t k = s.range(1, s.chance(1, 3000) ? 70000 : s.chance(1, 5) ? 2000 : 70); TRACE("poll " << k << " times"); while (k--) poll(); break; }
            default: if (s.flip()) { TRACE("clear"); q.clear(); r.clear(); LABEL("cleared"); }
        }
        CHECK_EQ(q.size(), (int) r.size(), "size"); CHECK_EQ((bool) q.isEmpty(), r.empty(), "isEmpty");
    }
    if (s.flip()) { TRACE("drain"); while (!r.empty()) poll(); CHECK(q.isEmpty(), "not empty after draining"); poll(); CHECK_EQ(q.size(), 0, "size after draining"); }
}
void run(Src &s) { if (s.flip()) go<long>(s); else go<JString>(s); }
}
PROPERTY(C02, run, 300, "an element was delivered")
