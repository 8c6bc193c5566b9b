// L01: System output, environment, clock, exit
#include "jv.hpp"
#include <iostream>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
namespace {
using jl::System; using ju::ArrayList;
// a buffered output: a text counts as written once it is flushed
struct Device : std::streambuf {
    std::string pending, written; size_t limit = 64;
    int overflow(int c) override { if (c != traits_type::eof()) { pending += (char) c; if (pending.size() >= limit) sync(); } return 0; }
    int sync() override { written += pending; pending.clear(); return 0; }
};
struct Capture { Device d; std::streambuf *old; std::ios_base::fmtflags flags; Capture() : old(std::cout.rdbuf(&d)), flags(std::cout.flags()) {} ~Capture() { std::cout.rdbuf(old); std::cout.flags(flags); std::cout.clear(); } };
template<class T> void emit(Capture &c, const T &x, const std::string &text, bool line, const char *what) {
    TRACE((line ? "println " : "print ") << what << " " << show(text));
    c.d.written.clear(); if (line) System::out::println(x); else System::out::print(x);
    CHECK_EQ(c.d.written, text + (line ? "\n" : ""), "output of " << what); CHECK(c.d.pending.empty(), "output not flushed");
}
void output(Src &s) {
    Capture c; int steps = 0; c.d.limit = (size_t) s.pick<int>({64, 1, 4096, 1 << 20});
    do {
        bool line = s.flip(); ++steps;
        switch (s.range(0, 8)) {
            case 0: { std::string t = s.text(60, (int) s.range(0, 5)); longText(s, t); emit(c, J(t), t, line, "String"); if (t.size() > 8) markNontrivial(); if (t.find('\0') != std::string::npos) LABEL("text with NUL"); break; }
            case 1: { std::string t = s.text(60, (int) s.range(0, 3)); longText(s, t, 66000, (int) s.range(0, 3)); emit(c, t.c_str(), t, line, "characters"); break; }
            case 2: { int i = s.i32(); emit(c, i, std::to_string(i), line, "int"); break; }
            case 3: { long i = (long) s.i64(); emit(c, i, std::to_string(i), line, "long"); break; }
            case 4: { int i = s.i32(); emit(c, jl::Integer(i), std::to_string(i), line, "Integer"); break; }
            case 5: { long i = (long) s.i64(); emit(c, jl::Long(i), std::to_string(i), line, "Long"); break; }
            case 6: { bool b = s.flip(); emit(c, jl::Boolean(b), b ? "true" : "false", line, "Boolean"); break; }
            case 7: { char ch = (char) s.u8(); if (s.flip()) emit(c, jl::Character(ch), std::string(1, ch), line, "Character"); else emit(c, ch, std::string(1, ch), line, "char"); break; }
            default: { short i = s.integer<short>(); emit(c, jl::Short(i), std::to_string(i), line, "Short"); if (s.flip()) { ArrayList<JString> a; std::string w; int n = (int) s.size(20); for (int k = 0; k < n; ++k) { std::string t = s.text(6, 0); a.add(J(t)); w += t + " "; } emit(c, a, w + "\n", line, "ArrayList"); } }
        }
    } while (s.more() && steps < 12);
    if (steps > 2) markNontrivial();
}
std::string variable(Src &s) { std::string n = "VF_"; for (int k = (int) s.range(0, 4); k > 0; --k) n += s.pick<char>({'A', 'B', '_', 'a', '1', '.', '\xc3', ' '}); if (s.chance(1, 20)) n += std::string((size_t) s.size(300), 'x'); return n; }
void environment(Src &s) {
    std::map<std::string, std::string> m; std::set<std::string> used; int steps = 0;
    struct Clean { std::set<std::string> &u; ~Clean() { for (auto &n : u) unsetenv(n.c_str()); } } clean{used};
    do {
        std::string n = !m.empty() && s.flip() ? m.begin()->first : variable(s); used.insert(n); ++steps;
        switch (s.range(0, 3)) {
            case 0: { std::string v = s.text(s.chance(1, 10) ? 300 : 20, (int) s.range(0, 3)); longText(s, v, 20000, 3); v = v.c_str(); TRACE("set " << show(n) << " to " << show(v)); setenv(n.c_str(), v.c_str(), 1); m[n] = v; break; }
            case 1: TRACE("unset " << show(n)); unsetenv(n.c_str()); m.erase(n); break;
            default: {
                TRACE("getenv " << show(n)); JString name = J(n); CHECK_EQ(S(System::getenv(name)), m.count(n) ? m[n] : std::string(), "value of " << show(n)); CHECK_EQ(S(name), n, "name after the query");
                if (m.count(n)) markNontrivial(); else LABEL("variable not set");
            }
        }
    } while (s.more() && steps < 20);
    for (auto &p : m) CHECK_EQ(S(System::getenv(J(p.first))), p.second, "value of " << show(p.first));
}
long clockMs() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
void clockReading(Src &s) {
    for (int k = (int) s.range(1, 4); k > 0; --k) { long a = clockMs(), g = System::currentTimeMillis(), b = clockMs(); TRACE("clock"); if (a <= b) CHECK(g >= a && g <= b, "currentTimeMillis " << g << ", the clock went from " << a << " to " << b); }
    System::gc(); LABEL("clock");
}
void leave(Src &s) {
    int status = s.flip() ? (int) s.u8() : s.i32(); TRACE("exit " << status);
    pid_t p = fork(); if (p < 0) return;
    if (p == 0) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); System::exit(status); _exit(status + 1); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    CHECK(WIFEXITED(st), "exit(" << status << ") did not end the process normally: " << st); CHECK_EQ(WEXITSTATUS(st), status & 255, "exit status"); LABEL("exit"); markNontrivial();
}
void run(Src &s) {
    switch (s.weighted({40, 20, 4})) { case 0: output(s); break; case 1: environment(s); break; default: if (s.chance(1, 12)) leave(s); else clockReading(s); }
}
}
PROPERTY(L01, run, 300, "a case prints a series of values, or sets, unsets and reads environment variables, or reads the clock, or exits in a forked child; non-trivial with a longer text, more than two values, a variable that was set, or an exit")
