// C03: permits are conserved, never over-admitted, and waiters proceed once enough permits were released
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Util/Concurrent/Semaphore/Semaphore.hpp"
#include <chrono>
namespace {
using ju::Concurrent::Semaphore;
long ms() { return (long) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
const long FOREVER = 3600000;
void sequential(Src &s) {
    int initial = (int) s.range(0, 8), avail = s.chance(1, 5) ? 0 : initial; std::unique_ptr<Semaphore> p(avail == 0 && s.flip() ? new Semaphore() : new Semaphore(avail)); Semaphore &m = *p; LABEL("one thread");
    TRACE("Semaphore(" << avail << ")"); CHECK_EQ(m.availablePermits(), avail, "after construction");
    for (int n = 0; n < 40 && s.more(); ++n) {
        int k = s.chance(1, 10) ? (int) s.range(0, 2000) : (int) s.range(0, 5);
        switch (s.range(0, 7)) {
            case 0: TRACE("release()"); m.release(); avail += 1; break;
            case 1: TRACE("release(" << k << ")"); m.release(k); avail += k; break;
            case 2: if (avail >= 1) { TRACE("acquire()"); m.acquire(); avail -= 1; markNontrivial(); } break;
            case 3: if (avail >= k) { TRACE("acquire(" << k << ")"); m.acquire(k); avail -= k; } break;
            case 4: { TRACE("tryAcquire()"); bool ok = m.tryAcquire(); CHECK_EQ(ok, avail >= 1, "tryAcquire() with " << avail); if (ok) avail -= 1; markNontrivial(); break; }
            case 5: { TRACE("tryAcquire(" << k << ")"); bool ok = m.tryAcquire(k); CHECK_EQ(ok, avail >= k, "tryAcquire(" << k << ") with " << avail); if (ok) avail -= k; markNontrivial(); break; }
            case 6: { if (k > avail) k = avail + (int) s.range(0, 1); long t = k > avail ? s.range(0, 2) : s.pick<long>({0, 1, 1000, FOREVER, 9223372036854775807L}); TRACE("tryAcquire(" << k << ", " << t << ")"); long b = ms(); bool ok = m.tryAcquire(k, t); long e = ms() - b;
                CHECK_EQ(ok, avail >= k, "tryAcquire(" << k << ", " << t << ") with " << avail); if (ok) avail -= k; else { CHECK(e >= t - 1, "gave up after " << e << " ms of " << t); LABEL("timeout elapsed"); } markNontrivial(); break; }
            default: CHECK_EQ(S(m.toString()), "[Permits = " + std::to_string(avail) + "]", "toString");
        }
        CHECK_EQ(m.availablePermits(), avail, "available permits");
    }
}
struct Step { int k, how; long t; std::vector<int> back; };
void capacity(Src &s) {
    int P = (int) s.range(1, 6), T = (int) s.range(2, 5); Semaphore m(P); std::atomic<int> out(0); LABEL("threads sharing permits"); markNontrivial();
    std::vector<std::vector<Step> > plan((size_t) T); std::vector<std::function<void()> > f; uint32_t seed = (uint32_t) s.range(0, 1 << 30); int level = (int) s.range(0, 2); std::ostringstream d;
    for (int t = 0; t < T; ++t) {
        int n = (int) s.range(1, 6); d << "\n thread " << t << ":";
        for (int i = 0; i < n; ++i) {
            Step x; x.how = (int) s.range(0, 5); x.k = x.how < 2 ? 1 : (int) s.range(1, P); x.t = s.range(0, 2); int left = x.k; while (left) { int r = s.flip() ? left : (int) s.range(1, left); x.back.push_back(r); left -= r; }
            d << " " << (x.how == 0 ? "acquire()" : x.how == 1 ? "tryAcquire()" : x.how == 2 ? "acquire(" : x.how == 3 ? "tryAcquire(" : x.how == 4 ? "tryAcquire(short," : "tryAcquire(long,") << x.k << ") release" << show(x.back); plan[(size_t) t].push_back(x);
        }
        f.push_back([&, t, seed, level] {
            conc::Noise noise(seed + (uint32_t) t, level);
            for (const Step &x : plan[(size_t) t]) {
                bool ok = true; noise();
                switch (x.how) { case 0: m.acquire(); break; case 1: ok = m.tryAcquire(); break; case 2: m.acquire(x.k); break; case 3: ok = m.tryAcquire(x.k); break; case 4: ok = m.tryAcquire(x.k, x.t); break; default: ok = m.tryAcquire(x.k, FOREVER); CHECK(ok, "timed out although permits come back"); }
                if (!ok) continue;
                int held = out += x.k; CHECK(held <= P, held << " permits handed out of " << P);
                noise(); int a = m.availablePermits(); CHECK(a >= 0 && a <= P - x.k, "available permits " << a << " while holding " << x.k << " of " << P);
                for (int r : x.back) { out -= r; m.release(r); noise(); }
            }
        });
    }
    TRACE("Semaphore(" << P << ")" << d.str());
    std::string e = conc::runAll(f); CHECK(e.empty(), e);
    CHECK_EQ(m.availablePermits(), P, "permits after everything was returned"); CHECK(m.tryAcquire(P), "all permits at once"); CHECK(!m.tryAcquire(1), "one more");
}
void waiters(Src &s) {
    int W = (int) s.range(1, 4), initial = (int) s.range(0, 3), total = 0; std::vector<int> want; for (int i = 0; i < W; ++i) { want.push_back(s.flip() ? 1 : (int) s.range(1, 5)); total += want.back(); }
    int surplus = (int) s.range(0, 2), need = std::max(0, total + surplus - initial), R = (int) s.range(1, 2); bool busy = s.chance(1, 3);
    std::vector<std::vector<int> > rel((size_t) R); for (int i = 0; i < R; ++i) { int left = i + 1 < R ? need / 2 : need - (R > 1 ? need / 2 : 0); while (left) { int r = s.flip() ? left : (int) s.range(1, left); rel[(size_t) i].push_back(r); left -= r; } }
    int finalAvail = initial + need - total; Semaphore m(initial); LABEL("waiters served by releases"); markNontrivial();
    std::vector<std::function<void()> > f; uint32_t seed = (uint32_t) s.range(0, 1 << 30); int level = (int) s.range(0, 2), delay = (int) s.range(0, 2); std::vector<int> how; for (int i = 0; i < W; ++i) how.push_back((int) s.range(0, 2));
    TRACE("Semaphore(" << initial << ") waiters " << show(want) << " releases " << show(rel[0]) << (R > 1 ? show(rel[1]) : "") << (busy ? " and a thread with short timeouts" : ""));
    std::atomic<int> served(0);
    for (int i = 0; i < W; ++i) f.push_back([&, i, seed, level] { conc::Noise noise(seed + (uint32_t) i, level); noise(); if (how[(size_t) i] == 0) m.acquire(want[(size_t) i]); else if (how[(size_t) i] == 1) CHECK(m.tryAcquire(want[(size_t) i], FOREVER), "timed out"); else CHECK(m.tryAcquire(want[(size_t) i], -1), "an unlimited wait failed"); ++served; });
    for (int i = 0; i < R; ++i) f.push_back([&, i, seed, level] { conc::Noise noise(seed + 77u + (uint32_t) i, level); if (delay) usleep((unsigned) delay * 150); for (int r : rel[(size_t) i]) { noise(); if (r == 1) m.release(); else m.release(r); } });
    if (busy) f.push_back([&, seed, level] { conc::Noise noise(seed + 99u, level); for (int i = 0; i < 3; ++i) { int k = 1 + i % 2; if (m.tryAcquire(k, 1)) { noise(); m.release(k); } noise(); } });
    std::string e = conc::runAll(f); CHECK(e.empty(), e);
    CHECK_EQ(served.load(), W, "waiters served"); CHECK_EQ(m.availablePermits(), finalAvail, "available permits at the end");
}
void timing(Src &s) {                                    // never enough permits: the timeout bounds the wait whatever is released and taken meanwhile
    int k = (int) s.range(2, 5); Semaphore m(0); long t = s.range(1, 12); std::atomic<bool> stop(false); uint32_t seed = (uint32_t) s.range(0, 1 << 30); LABEL("timeout with wake-ups"); markNontrivial();
    TRACE("tryAcquire(" << k << ", " << t << ") while single permits come and go"); long took = -1; bool ok = true;
    std::string e = conc::runAll({[&] { long b = ms(); ok = m.tryAcquire(k, t); took = ms() - b; stop = true; }, [&] { conc::Noise noise(seed, 2); while (!stop) { m.release(1); noise(); CHECK(m.tryAcquire(1), "the released permit is gone"); noise(); } }});
    CHECK(e.empty(), e); CHECK(!ok, "acquired " << k << " permits although at most one was available"); CHECK(took >= t - 1, "gave up after " << took << " ms of " << t); CHECK(took < t + 8000, "waited " << took << " ms of " << t); CHECK_EQ(m.availablePermits(), 0, "at the end");
}
void run(Src &s) { switch (s.weighted({3, 4, 4, 1})) { case 0: sequential(s); break; case 1: capacity(s); break; case 2: waiters(s); break; default: timing(s); } }
}
PROPERTY(C03, run, 400, "permits were acquired, by one thread or by several at once")
