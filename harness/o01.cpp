// O01: identity of plain objects: equality, hash code, text, waiting
#include "jv.hpp"
#include <memory>
#include <new>
#include <typeinfo>
#include <sys/mman.h>
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
namespace {
using jl::Object;
class Plain : public Object { public: int value; explicit Plain(int v = 0) : value(v) {} };
class Deep : public Plain { public: std::string text; explicit Deep(const std::string &t = "") : Plain(7), text(t) {} };
class Wide : public std::string, public Object { public: Wide() {} };                         // the Object part does not start the object
class Keyed : public Object { public: int key; explicit Keyed(int k) : key(k) {} int hashCode() const override { return key; } };
// all objects live in one block: the hash code is the lower half of the address, and only addresses of one 4 GiB range must differ there
alignas(64) char arena[16][128]; bool used[16];
void *slot() { for (int i = 0; i < 16; ++i) if (!used[i]) { used[i] = true; return arena[i]; } throw std::bad_alloc(); }
template<class T> void drop(Object *o) { T *t = static_cast<T *>(o); t->~T(); used[((char *) t - arena[0]) / 128] = false; }
typedef std::unique_ptr<Object, void (*)(Object *)> P;
std::string hex(int v) { char b[16]; snprintf(b, sizeof b, "%x", (unsigned) v); return b; }
struct Known { char *a, *b; Known() { static const size_t G = (size_t) 1 << 32; size_t at = 0x210000000000ULL; a = b = nullptr;
    for (int i = 0; i < 40 && !b; ++i, at += 16 * G) { void *p = mmap((void *) at, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0), *q = mmap((void *) (at + G), 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == (void *) at && q == (void *) (at + G)) { a = (char *) p; b = (char *) q; } else { if (p != MAP_FAILED) munmap(p, 8192); if (q != MAP_FAILED) munmap(q, 8192); } } } };
Known &pages() { static Known k; return k; }
void repro() { Known &k = pages(); if (!k.a) throw Failure{"no pages"}; Object *x = new (k.a) Object(), *y = new (k.b) Object(); bool e = x->equals(*y); x->~Object(); y->~Object(); if (e) throw Failure{"equal"}; }
void run(Src &s) {
    std::vector<P> v; std::vector<int> hash, kind; std::vector<std::string> name; int steps = 0;
    auto put = [&](Object *o, void (*d)(Object *), int k, const char *n) { v.emplace_back(o, d); hash.push_back(o->hashCode()); kind.push_back(k); name.push_back(n); };
    do {
        size_t n = v.size(); ++steps;
        int op = n < 2 ? 0 : (int) s.weighted({5, 8, 2, 2, 2, 1});
        if (op == 0 && n < 8) {
            switch (s.range(0, 4)) {
                case 0: put(new (slot()) Object(), drop<Object>, 0, typeid(Object).name()); TRACE("#" << n << " Object"); break;
                case 1: put(new (slot()) Plain((int) s.range(0, 2)), drop<Plain>, 1, typeid(Plain).name()); TRACE("#" << n << " Plain"); break;
                case 2: put(new (slot()) Deep(s.text(3, 0)), drop<Deep>, 2, typeid(Deep).name()); TRACE("#" << n << " Deep"); break;
                case 3: put(new (slot()) Wide(), drop<Wide>, 3, typeid(Wide).name()); TRACE("#" << n << " Wide"); break;
                default: { int k = (int) s.pick<int>({5, -1, 0, 0x7fffffff, (int) 0x80000000}); put(new (slot()) Keyed(k), drop<Keyed>, 4, typeid(Keyed).name()); CHECK_EQ(hash.back(), k, "own hash code"); TRACE("#" << n << " Keyed " << k); }
            }
        } else if (op == 1) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1), j = (size_t) s.range(0, (int64_t) n - 1); const Object &a = *v[i], &b = *v[j];
            bool want = i == j || (hash[i] == hash[j] && kind[i] == 4 && kind[j] == 4);          // a class that defines the hash code decides what is equal
            if (kind[i] == 4 || kind[j] == 4) { if (i != j && hash[i] != hash[j]) want = false; else if (i != j && kind[i] != kind[j]) continue; }
            TRACE("#" << i << " equals #" << j << "?"); CHECK_EQ((bool) a.equals(b), want, "equals"); CHECK_EQ((bool) (a == b), want, "=="); CHECK_EQ((bool) (a != b), !want, "!=");
            if (i != j) markNontrivial();
        } else if (op == 2) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1); TRACE("text of #" << i); CHECK_EQ(S(v[i]->toString()), name[i] + "@" + hex(hash[i]), "text");
        } else if (op == 3) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1); if (kind[i] != 1) continue; TRACE("#" << i << " copied"); Plain *p = static_cast<Plain *>(v[i].get()); std::unique_ptr<Object, void (*)(Object *)> hold(new (slot()) Plain(*p), drop<Plain>); Plain &c = static_cast<Plain &>(*hold);
            CHECK(!c.equals(*p) && !(*p == c) && c != *p, "a copy is the same object"); CHECK(c.equals(c)); CHECK_EQ(c.value, p->value); p->value += 1; LABEL("copy");
        } else if (op == 4) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1); int f = (int) s.range(0, 2); TRACE("#" << i << " waits, form " << f); Object &o = *v[i];
            CHECK(throws<jl::InterruptedException>([&] { if (f == 0) o.wait(); else if (f == 1) o.wait((int) s.range(0, 100000)); else o.wait((int) s.range(0, 100000), (int) s.range(0, 999999)); }), "wait did not throw InterruptedException");
        } else if (n) { v.pop_back(); hash.pop_back(); kind.pop_back(); name.pop_back(); TRACE("last dropped"); }
        for (size_t i = 0; i < v.size(); ++i) CHECK_EQ(v[i]->hashCode(), hash[i], "hash code of #" << i << " later");
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (kind[i] != 4 && kind[j] != 4) CHECK(hash[i] != hash[j], "hash codes of #" << i << " and #" << j << " are equal");
    } while (s.more() && steps < 30);
    // far apart in memory
    if (s.chance(1, 4)) {
        Known &k = pages(); if (!k.a) return;
        int64_t i = s.range(0, 255) * 16, j = s.chance(1, 2) ? i : s.range(0, 255) * 16; TRACE("objects at +" << i << " and 4 GiB + " << j);
        Object *x = new (k.a + i) Object(), *y = new (k.b + j) Object();
        if (i == j && known("distant_objects")) { LABEL("known: distant_objects"); } else { CHECK(!x->equals(*y) && !y->equals(*x) && *x != *y, "two objects are equal"); LABEL("4 GiB apart"); markNontrivial(); }
        CHECK(x->equals(*x) && *y == *y);
        x->~Object(); y->~Object();
    }
}
}
PROPERTY(O01, run, 300, "a case is a history over up to 8 live objects of five classes; non-trivial when two different objects were compared", {"distant_objects", repro})
