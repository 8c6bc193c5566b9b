// A01: Application hands the counted arguments to the program exactly once and reports what escapes it
#include "jv.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Kernel/Java.hpp"
#include <iostream>
namespace {
std::vector<std::string> got; int runs, outcome, length; std::string message; bool spoil;
void program(Array<JString> args) {
    ++runs; length = args.length; got.clear();
    for (int i = 0; i < args.length; ++i) got.push_back(S(args[i]));
    int k = 0; for (JString a : args) { if (S(a) != got[(size_t) k]) got[(size_t) k] = "differs when iterated"; ++k; } if (k != args.length) length = -1;
    if (spoil) { for (int i = 0; i < args.length; ++i) args[i] = "overwritten"; args.push("more"); }
    switch (outcome) {
        case 1: throw jl::Exception(J(message));
        case 2: throw jl::IllegalArgumentException(J(message));
        case 3: throw Java::IO::IOException(J(message));
        case 4: throw Javax::Ws::Rs::BadRequestException(J(message));
        case 5: throw 42;
        case 6: throw std::runtime_error("standard");
        case 7: throw std::string("text");
        case 8: throw jl::StringIndexOutOfBoundsException(7);
        case 9: { JString x("abc"); x.charAt(100); break; }
        default: break;
    }
}
void run(Src &s) {
    int rounds = (int) s.range(1, 3);
    while (rounds--) {
        int n = s.chance(1, 10) ? (int) s.range(0, 300) : (int) s.range(0, 6); std::vector<std::string> a;
        for (int i = 0; i < n; ++i) { std::string t = s.text(s.chance(1, 30) ? 3000 : 12, 3); longText(s, t, 60000, 3); for (auto &c : t) if (!c) c = '\x80'; a.push_back(t); }
        bool closed = s.chance(3, 4); size_t extra = closed && s.chance(1, 5) ? (size_t) s.range(1, 3) : 0;      // arguments behind argc
        std::unique_ptr<char *[]> argv(new char *[(size_t) n + extra + (closed ? 1 : 0)]); std::vector<std::unique_ptr<char[]> > store;
        for (size_t i = 0; i < (size_t) n + extra; ++i) { std::string t = i < (size_t) n ? a[i] : "behind argc"; store.emplace_back(new char[t.size() + 1]); memcpy(store.back().get(), t.c_str(), t.size() + 1); argv[i] = store.back().get(); }
        if (closed) argv[(size_t) n + extra] = nullptr;
        outcome = s.chance(1, 2) ? 0 : (int) s.range(1, 9); message = s.text(20, 3); for (auto &c : message) if (!c) c = ' ';
        spoil = s.flip(); runs = 0; length = -2; got.clear();
        TRACE("argc " << n << " " << show(a) << (closed ? "" : " no null at the end") << (extra ? " more behind argc" : "") << " outcome " << outcome << " message " << show(message));
        std::ostringstream out; std::streambuf *old = std::cout.rdbuf(out.rdbuf()); int rc = -99; bool escaped = false;
        try { rc = Application(program, n, argv.get()); } catch (...) { escaped = true; }
        std::cout.rdbuf(old);
        CHECK(!escaped, "an exception left Application");
        CHECK_EQ(runs, 1, "how often the program ran"); CHECK_EQ(length, n, "argument count"); CHECK_EQ((int) got.size(), n, "argument count");
        for (int i = 0; i < n; ++i) { CHECK_EQ(got[(size_t) i], a[(size_t) i], "argument " << i); CHECK_EQ(std::string(argv[(size_t) i]), a[(size_t) i], "argv " << i << " afterwards"); }
        if (outcome == 0) { CHECK_EQ(rc, 0, "exit status"); CHECK_EQ(out.str(), std::string(), "output"); LABEL("normal end"); }
        else { CHECK(rc != 0, "exit status 0 after an exception"); CHECK(!out.str().empty(), "nothing reported"); if (outcome <= 4) CHECK(out.str().find(message) != std::string::npos, "message not in " << show(out.str())); LABEL("exception"); }
        if (n) markNontrivial(); if (n > 50) LABEL("many arguments");
    }
}
}
PROPERTY(A01, run, 700, "a program was started with at least one argument")
