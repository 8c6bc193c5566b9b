// C04: a started thread runs its target once; join waits for its end and makes its effects visible
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Lang/Thread/Thread.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
namespace {
using jl::Thread; using jl::Runnable;
struct Job {                                             // plain data: a missing happens-before edge is a reported race
    long data = 0; std::string text; int ran = 0; bool gated = false; std::atomic<bool> open, running; Thread *self = nullptr, *current = nullptr; unsigned long id = 0; uint32_t seed = 0; int level = 0; long value = 0; int64_t nested = 0;
    Job() : open(false), running(false) {}
    void body() {
        running = true; ++ran; current = Thread::currentThread(); id = (unsigned long) pthread_self(); conc::Noise noise(seed, level); noise();
        if (nested) { long inner = 0; Thread t([&inner] { inner = 7; }); t.start(); t.join(); nested = inner == 7 && Thread::currentThread() == current ? 2 : 3; }
        while (gated && !open) usleep(50);
        noise(); data += value; text += "done" + std::to_string(value);
    }
};
struct Target : public virtual Runnable { Job *j; explicit Target(Job *x) : j(x) {} void run() override { j->body(); } };
struct Own : public Thread { Job *j; explicit Own(Job *x) : j(x) {} void run() override { j->body(); } };
std::vector<Thread *> kept;                              // detached objects stay for the rest of the process
struct Item { Job job; std::unique_ptr<Target> target; Thread *th = nullptr; int kind = 0; bool started = false, joined = false, detached = false; std::string name; };
void finished(Item &i, const char *when) {
    if (!i.started) { CHECK_EQ(i.job.ran, 0, when << ": a thread that was not started ran"); return; }
    if (i.kind == 3) return;
    CHECK_EQ(i.job.ran, 1, when << ": how often the target ran"); CHECK_EQ(i.job.data, i.job.value, when << ": effect of the target"); CHECK_EQ(i.job.text, "done" + std::to_string(i.job.value), when << ": effect of the target");
    CHECK(i.job.current == i.job.self, when << ": currentThread inside the target"); if (i.job.nested) CHECK_EQ((int) i.job.nested, 2, "nested thread");
}
void run(Src &s) {
    Thread *outer = Thread::currentThread();
    int n = (int) s.range(1, 5); std::vector<std::unique_ptr<Item> > v;
    struct Cleanup { std::vector<std::unique_ptr<Item> > &v; ~Cleanup() { for (auto &i : v) if (i) { i->job.open = true; if (i->th && !i->detached) { if (i->started) i->th->join(); delete i->th; } } } } cleanup{v};
    for (int k = 0; k < n; ++k) {
        std::unique_ptr<Item> p(new Item); Item &i = *p; i.kind = (int) s.weighted({4, 4, 3, 1}); i.job.value = s.range(1, 1000000); i.job.seed = (uint32_t) s.range(0, 1 << 30); i.job.level = (int) s.range(0, 2); i.job.gated = s.chance(1, 2); i.job.nested = s.chance(1, 6);
        Job *j = &i.job;
        if (i.kind == 0) { i.target.reset(new Target(j)); i.th = new Thread(i.target.get()); } else if (i.kind == 1) i.th = new Thread([j] { j->body(); }); else if (i.kind == 2) i.th = new Own(j); else i.th = new Thread();
        TRACE("thread " << k << ": " << (i.kind == 0 ? "Runnable" : i.kind == 1 ? "function" : i.kind == 2 ? "subclass" : "no target") << (i.job.gated ? " gated" : "") << (i.job.nested ? " nested" : ""));
        i.job.self = i.th; CHECK(!i.th->isAlive(), "alive before start"); v.push_back(std::move(p));
    }
    for (int step = 0; step < 24 && s.more(); ++step) {
        size_t k = (size_t) s.range(0, n - 1); if (!v[k]) continue; Item &i = *v[k];
        bool stuck = i.started && i.kind != 3 && i.job.gated && !i.job.open;
        switch (s.weighted({8, 5, 3, 3, 3, 2, 2, 1, 2, 1, 1})) {
            case 0: TRACE("start " << k); if (i.started) { if (i.detached) break; LABEL("started again"); } else LABEL("start"); i.th->start(); markNontrivial(); i.started = true; if (i.kind != 3 && i.job.gated && !i.job.open && !i.joined) CHECK(i.th->isAlive(), "not alive right after start"); break;
            case 1: if (stuck) { TRACE("open " << k); i.job.open = true; } TRACE("join " << k); i.th->join(); finished(i, "after join"); if (i.started) { i.joined = true; CHECK(!i.th->isAlive(), "alive after join"); if (i.kind != 3) CHECK_EQ(i.th->getId(), i.job.id, "getId"); LABEL("join"); } else LABEL("join before start"); break;
            case 2: { long t = s.range(1, 3); TRACE("join " << k << " for " << t << " ms"); i.th->join(t); if (stuck) { CHECK(i.th->isAlive(), "not alive while the target runs"); LABEL("timed join of a running thread"); } break; }
            case 3: { bool alive = i.th->isAlive(); TRACE("isAlive " << k << " = " << alive); if (!i.started || i.joined) CHECK(!alive, "alive although it does not run"); if (stuck) CHECK(alive, "not alive while the target runs"); break; }
            case 4: { std::string t = s.text(12, 2); TRACE("setName " << k << " " << show(t)); i.th->setName(J(t)); i.name = t; CHECK_EQ(S(i.th->getName()), t, "getName"); break; }
            case 5: if (i.started) { TRACE("several joins of " << k); int m = (int) s.range(2, 4); std::vector<std::function<void()> > f; Item *p = &i; for (int q = 0; q < m; ++q) f.push_back([p] { p->th->join(); finished(*p, "after a concurrent join"); }); if (stuck) f.push_back([p] { p->job.open = true; }); std::string e = conc::runAll(f); CHECK(e.empty(), e); i.joined = true; LABEL("concurrent joins"); } break;
            case 6: TRACE("open " << k); i.job.open = true; break;
            case 7: if (i.started && !i.detached && i.kind != 2) { TRACE("detach " << k); i.th->detach(); i.detached = true; kept.push_back(i.th); CHECK(throws<jl::IllegalArgumentException>([&] { i.th->detach(); }), "second detach accepted"); i.job.open = true; i.th->join(); finished(i, "after join of a detached thread"); i.joined = true; LABEL("detached"); } break;
            case 8: if (!i.detached) { TRACE("destroy " << k); i.job.open = true; if (i.kind == 2 && i.started) i.th->join(); if (!i.joined && i.started) LABEL("destroyed while running"); delete i.th; i.th = nullptr; finished(i, "after destruction"); v[k].reset(); } break;
            case 9: { long t = s.range(0, 2); TRACE("sleep " << t << " ms"); auto a = std::chrono::steady_clock::now(); Thread::sleep(t); CHECK(std::chrono::steady_clock::now() - a >= std::chrono::milliseconds(t), "slept less than " << t << " ms"); LABEL("sleep"); break; }
            default: TRACE("names"); for (auto &p : v) if (p) CHECK_EQ(S(p->th->getName()), p->name, "getName"); break;
        }
        CHECK(Thread::currentThread() == outer, "currentThread of the caller changed");
    }
    for (auto &p : v) if (p && !p->detached) { Item &i = *p; i.job.open = true; if (i.started) { i.th->join(); i.joined = true; } finished(i, "at the end"); CHECK_EQ(S(i.th->getName()), i.name, "getName at the end"); delete i.th; i.th = nullptr; finished(i, "after destruction"); }
    else if (p) finished(*p, "at the end");
}
}
PROPERTY(C04, run, 300, "at least one thread was started")
