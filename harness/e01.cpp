// E01: every exception class keeps its message and cause through throwing, catching, copying and slicing
#include "jv.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Java/Lang/ClassCastException/ClassCastException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
#include "library/Javax/Cql/CQLException/CQLException.hpp"
#include <memory>
namespace {
using jl::Throwable;
enum Kind { NONE = 1, MSG = 2, CAUSE = 4, BOTH = 8 };
struct Spec { int kind; std::string msg; Throwable *cause; };
// an object of any class behind a common face: Throwable has no virtual destructor
struct Box { virtual ~Box() {} virtual Throwable *get() = 0; virtual Box *copy() = 0; virtual bool assign(Box *) = 0; virtual void raise() = 0; };
template <class T> struct BoxOf : Box {
    T v; BoxOf(const T &x) : v(x) {}
    Throwable *get() override { return &v; } Box *copy() override { return new BoxOf(v); } void raise() override { throw v; }
    bool assign(Box *o) override { BoxOf *p = dynamic_cast<BoxOf *>(o); if (!p) return false; v = p->v; return true; }
};
typedef std::function<void(Throwable &)> Check;
// runs body; true if a handler for A got the exception. mode: 0 reference, 1 value (slices), 2 const copy, 3 rethrow, 4 throw the sliced copy, 5 assignment
template <class A> bool handle(const std::function<void()> &body, const Check &check, int mode) {
    try {
        if (mode == 1) { try { body(); } catch (A e) { check(e); return true; } return false; }
        try { body(); } catch (A &e) {
            check(e);
            if (mode == 2) { const A c(e); A d(c); check(d); A f(std::move(d)); check(f); }
            if (mode == 5) { A d; d = e; check(d); d = d; check(d); check(e); }
            if (mode == 3) { try { throw; } catch (Throwable &t) { check(t); } try { try { throw; } catch (A &f) { check(f); throw; } } catch (A &g) { check(g); } check(e); }
            if (mode == 4) { try { throw e; } catch (A &f) { check(f); CHECK((void *) &f != (void *) &e); } check(e); }
            return true;
        }
    } catch (Failure &) { throw; } catch (...) { return false; }
    return false;
}
struct Class { const char *name; int parent, kinds; Box *(*make)(const Spec &); bool (*handle)(const std::function<void()> &, const Check &, int); };
JString text(const Spec &p) { return J(p.msg); }
template <class T> Box *make4(const Spec &p) { switch (p.kind) { case NONE: return new BoxOf<T>(T()); case MSG: return new BoxOf<T>(T(text(p))); case CAUSE: return new BoxOf<T>(T(p.cause)); default: return new BoxOf<T>(T(text(p), p.cause)); } }
template <class T> Box *make2(const Spec &p) { if (p.kind == NONE) return new BoxOf<T>(T()); return new BoxOf<T>(T(text(p))); }
template <class T> Box *make1(const Spec &) { return new BoxOf<T>(T()); }
template <class T> Box *make3(const Spec &p) { switch (p.kind) { case NONE: return new BoxOf<T>(T()); default: return new BoxOf<T>(T(text(p), p.cause)); } }
using namespace jl; using namespace Java::Security; using namespace Javax::Ws::Rs;
#define C4(T, P) {#T, P, NONE | MSG | CAUSE | BOTH, make4<T>, handle<T>}
enum { THROWABLE, EXC, ERR, RUNTIME, IO, INDEX, GENSEC, WEB, CLIENT };
const Class CLASSES[] = {
    C4(Throwable, -1), C4(Exception, THROWABLE), C4(jl::Error, THROWABLE), C4(RuntimeException, EXC), C4(Java::IO::IOException, EXC), C4(IndexOutOfBoundsException, RUNTIME), C4(GeneralSecurityException, EXC), C4(WebApplicationException, RUNTIME), C4(ClientErrorException, WEB),
    C4(BadRequestException, CLIENT), C4(NoSuchAlgorithmException, GENSEC), C4(StringIndexOutOfBoundsException, INDEX), C4(ClassCastException, RUNTIME), C4(CloneNotSupportedException, RUNTIME), C4(InterruptedException, RUNTIME),
    C4(IllegalArgumentException, RUNTIME), C4(ArithmeticException, RUNTIME), C4(NoSuchElementException, RUNTIME), C4(UnsupportedOperationException, RUNTIME), C4(Javax::Ws::Rs::Core::MediaTypeException, EXC), C4(Javax::Cql::CQLException, EXC),
    {"AssertionError", ERR, NONE | BOTH, make3<AssertionError>, handle<AssertionError>},
    {"NumberFormatException", RUNTIME, NONE | MSG, make2<NumberFormatException>, handle<NumberFormatException>},
    {"NegativeArraySizeException", RUNTIME, NONE | MSG, make2<NegativeArraySizeException>, handle<NegativeArraySizeException>},
    {"UnsupportedEncodingException", IO, NONE | MSG, make2<Java::IO::UnsupportedEncodingException>, handle<Java::IO::UnsupportedEncodingException>},
    {"EmptyStackException", RUNTIME, NONE, make1<ju::EmptyStackException>, handle<ju::EmptyStackException>},
};
const int N = sizeof CLASSES / sizeof CLASSES[0];
struct Node { int cls; std::string msg; Throwable *cause; std::unique_ptr<Box> box; };
void verify(Throwable &e, const Node &n) { CHECK_EQ(S(e.getMessage()), n.msg); CHECK(e.getCause() == n.cause); CHECK_EQ(S(e.getMessage()), n.msg); }
void run(Src &s) {
    std::vector<Node> nodes;
    auto all = [&] {
        for (Node &n : nodes) verify(*n.box->get(), n);
        for (Node &n : nodes) { Throwable *c = n.box->get(); int depth = 0; while (c && depth < 20) { const Node *w = nullptr; for (Node &x : nodes) if (x.box->get() == c) w = &x; CHECK(w); CHECK_EQ(S(c->getMessage()), w->msg); c = c->getCause(); ++depth; } if (depth > 2) LABEL("cause chain of three or more"); }
    };
    auto add = [&] {
        Node n; n.cls = (int) s.range(0, N - 1); const Class &c = CLASSES[n.cls]; int kind;
        do kind = s.pick<int>({MSG, BOTH, CAUSE, NONE}); while (!(c.kinds & kind) && s.more()); if (!(c.kinds & kind)) kind = NONE;
        std::string msg = s.text(s.chance(1, 12) ? 600 : 24, 3); longText(s, msg, 66000, 3); Throwable *cause = nodes.empty() || s.chance(1, 6) ? nullptr : nodes[(size_t) s.range(0, (int64_t) nodes.size() - 1)].box->get();
        TRACEF("%s kind %d msg %s%s", c.name, kind, pbt::show(msg).c_str(), cause ? " with a cause" : "");
        n.msg = kind == MSG || kind == BOTH ? msg : ""; n.cause = kind == CAUSE || kind == BOTH ? cause : nullptr;
        Spec *p = new Spec{kind, msg, cause}; n.box.reset(c.make(*p)); delete p;
        nodes.push_back(std::move(n));
    };
    add();
    while (s.more()) {
        if (nodes.size() < 6 && s.chance(1, 3)) { add(); all(); continue; }
        Node &n = nodes[(size_t) s.range(0, (int64_t) nodes.size() - 1)];
        switch (s.range(0, 3)) {
            case 0: case 1: {
                int a = n.cls, up = (int) s.range(0, 5), mode = (int) s.range(0, 5); while (up-- && CLASSES[a].parent >= 0) a = CLASSES[a].parent;
                TRACEF("throw %s, handler for %s, mode %d", CLASSES[n.cls].name, CLASSES[a].name, mode); markNontrivial(); if (a != n.cls) LABEL("caught as an ancestor");
                int seen = 0; CHECK(CLASSES[a].handle([&] { n.box->raise(); }, [&](Throwable &e) { ++seen; verify(e, n); }, mode)); CHECK(seen > 0); break;
            }
            case 2: { TRACEF("copy %s", CLASSES[n.cls].name); std::unique_ptr<Box> c(n.box->copy()); verify(*c->get(), n); verify(*n.box->get(), n); break; }
            default: {
                Node &o = nodes[(size_t) s.range(0, (int64_t) nodes.size() - 1)];
                std::unique_ptr<Box> c(o.box->copy()); TRACEF("assign %s to a copy of %s", CLASSES[n.cls].name, CLASSES[o.cls].name);
                if (c->assign(n.box.get())) { verify(*c->get(), n); if (&n != &o) LABEL("assignment over another object"); }
                Throwable t(*o.box->get()); t = *n.box->get(); verify(t, n); break;
            }
        }
        all();
    }
    if (s.chance(1, 8)) {                                             // the special constructors
        int i = s.integer<int>(); long l = s.integer<long>(); bool b = s.flip(); double d = s.f64(); float f = s.f32(); char ch = (char) s.range(1, 126);
        TRACEF("special constructors: %d %ld %d %a %a %d", i, l, (int) b, d, (double) f, (int) ch); markNontrivial();
        try { throw StringIndexOutOfBoundsException(i); } catch (IndexOutOfBoundsException &e) { CHECK_EQ(S(e.getMessage()), "String index out of range: " + std::to_string(i)); CHECK(e.getCause() == nullptr); }
        try { throw AssertionError(i); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), std::to_string(i)); CHECK(e.getCause() == nullptr); }
        try { throw AssertionError(l); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), std::to_string(l)); }
        try { throw AssertionError((boolean) b); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), std::string(b ? "true" : "false")); }
        try { throw AssertionError(ch); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), std::string(1, ch)); }
        try { throw AssertionError(d); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), S(JString::valueOf(d))); }
        try { throw AssertionError(f); } catch (jl::Error &e) { CHECK_EQ(S(e.getMessage()), S(JString::valueOf(f))); }
    }
}
}
PROPERTY(E01, run, 500, "an exception was thrown and its message and cause compared in a handler")
