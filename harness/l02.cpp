// L02: Enum constants: name, ordinal, order, equality, copies
#include "jv.hpp"
#include "library/Java/Lang/Enum/Enum.hpp"
namespace {
using jl::Enum; using jl::Integer;
struct Colour {};
int sgn(long v) { return v < 0 ? -1 : v > 0; }
struct Shade : public Enum<Shade> { int extra; Shade(const std::string &n, int o, int e) : Enum<Shade>(J(n), o), extra(e) {} };
template<class E> struct Item { E e; std::string name; int ordinal; };
template<class E> void history(Src &s) {
    typedef Enum<E> C; std::vector<Item<C> > v; std::vector<C *> seen; int steps = 0;
    do {
        int n = (int) v.size(); ++steps;
        int op = n < 2 ? 0 : (int) s.weighted({3, 5, 2, 2, 2});
        if (op == 0 && n < 8) {
            std::string name = s.text(s.chance(1, 8) ? 200 : 12, (int) s.range(0, 4)); int o = n && s.chance(1, 3) ? v[(size_t) s.range(0, n - 1)].ordinal : s.pick<int>({0, 1, 2, 63, 64, 255, 256, 65535, 65536, INT32_MAX, (int) s.range(0, 1000)});
            bool plain = name.find('\0') == std::string::npos; int how = plain ? (int) s.range(0, 2) : 0;
            TRACE("#" << n << " = " << show(name) << ", " << o << " (constructor " << how << ")");
            std::string keep = name; JString q = J(name);
            if (how == 0) v.push_back({C(q, o), keep, o}); else if (how == 1) v.push_back({C((const_string) name.c_str(), o), keep, o}); else v.push_back({C((string) name.c_str(), o), keep, o});
            q += 'x'; for (char &c : name) c = '?';                       // the constant keeps its own name
        } else if (op == 1) {
            Item<C> &a = v[(size_t) s.range(0, n - 1)], &b = v[(size_t) s.range(0, n - 1)]; int c = sgn((long) a.ordinal - b.ordinal);
            TRACE("compare " << a.ordinal << " with " << b.ordinal); CHECK_EQ(sgn(a.e.compareTo(b.e)), c, "compareTo"); CHECK_EQ((bool) a.e.equals(b.e), c == 0, "equals"); if (&a != &b) markNontrivial(); if (a.ordinal == b.ordinal && a.name != b.name) LABEL("one ordinal, two names");
        } else if (op == 2) {
            size_t i = (size_t) s.range(0, n - 1); bool c = s.flip(); TRACE((c ? "clone #" : "copy #") << i); C x = c ? v[i].e.clone() : C(v[i].e); CHECK(x.equals(v[i].e) && x.compareTo(v[i].e) == 0, "a copy is not equal"); if (n < 8) v.push_back({x, v[i].name, v[i].ordinal}); LABEL("copied");
        } else if (op == 3) {
            size_t i = (size_t) s.range(0, n - 1), j = (size_t) s.range(0, n - 1); TRACE("#" << i << " = #" << j); v[i].e = v[j].e; v[i].name = std::string(v[j].name); v[i].ordinal = v[j].ordinal; LABEL("assigned");
        } else if (n) { size_t i = (size_t) s.range(0, n - 1); TRACE("drop #" << i); v.erase(v.begin() + (long) i); }
        for (size_t i = 0; i < v.size(); ++i) { CHECK_EQ(S(v[i].e.name()), v[i].name, "name of #" << i); CHECK_EQ(S(v[i].e.toString()), v[i].name, "text of #" << i); CHECK_EQ(v[i].e.ordinal(), v[i].ordinal, "ordinal of #" << i); }
    } while (s.more() && steps < 30);
    { std::string name = s.text(9, 2); int o = (int) s.range(0, 5000); Shade a(name, o, 3), b(a); CHECK_EQ(S(b.name()), name, "name of a derived constant"); CHECK_EQ(b.ordinal(), o, "ordinal of a derived constant"); CHECK(a.equals(b), "derived constants"); CHECK_EQ(b.extra, 3, "own member"); }
}
void run(Src &s) { if (s.flip()) history<Integer>(s); else history<Colour>(s); }
}
PROPERTY(L02, run, 300, "two different constants were compared")
