// helpers for the threaded harnesses: a start barrier and stream-driven disturbance
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include <atomic>
#include <thread>
#include <vector>
#include <functional>
#include <unistd.h>
#include <sched.h>
namespace conc {
struct Noise {                       // deterministic per-thread disturbance taken from the case
    uint32_t x;
    int level;
    explicit Noise(uint32_t seed, int lvl) : x(seed * 2654435761u + 12345u), level(lvl) {}
    uint32_t next() { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; }
    void operator()() {
        if (level == 0) return;
        uint32_t r = next() % 16;
        if (level == 1) { if (r < 3) sched_yield(); return; }
        if (r < 4) sched_yield();
        else if (r < 6) usleep(r * 7);
        else for (volatile int i = 0; i < (int) (r * 40); i = i + 1) {}
    }
};
// run all bodies at once; exceptions become the returned text of the first failing thread
inline std::string runAll(const std::vector<std::function<void()> > &f) {
    std::atomic<int> ready(0);
    std::atomic<bool> go(false);
    std::vector<std::string> err(f.size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < f.size(); ++i)
        th.push_back(std::thread([&, i] {
            ++ready;
            while (!go) sched_yield();
            try { f[i](); }
            catch (const pbt::Failure &e) { err[i] = e.msg; }
            catch (const std::exception &e) { err[i] = std::string("exception in a thread: ") + e.what(); }
            catch (...) { err[i] = "exception in a thread"; }
        }));
    while (ready < (int) f.size()) sched_yield();
    go = true;
    for (std::thread &t : th) t.join();
    for (std::string &e : err) if (!e.empty()) return e;
    return std::string();
}
}
#endif
