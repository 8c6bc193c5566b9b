// U06: BitSet histories against a set of indices
#include "jv.hpp"
using Java::Util::BitSet;
namespace {
typedef std::set<int> M;
struct Slot { BitSet b; M m; };

std::vector<long> words(const M &m) {
    std::vector<long> w;
    for (int i : m) { if ((size_t) (i / 64) >= w.size()) w.resize((size_t) i / 64 + 1, 0); w[(size_t) i / 64] |= (long) (1UL << (i % 64)); }
    return w;
}
std::string text(const M &m) {
    std::string s = "{";
    bool first = true;
    for (int i : m) { if (!first) s += ", "; first = false; s += std::to_string(i); }
    return s + "}";
}
int nextSet(const M &m, int f) { auto it = m.lower_bound(f); return it == m.end() ? -1 : *it; }
int nextClear(const M &m, int f) { while (m.count(f)) ++f; return f; }
int prevSet(const M &m, int f) { auto it = m.upper_bound(f); return it == m.begin() ? -1 : *--it; }
int prevClear(const M &m, int f) { while (f >= 0 && m.count(f)) --f; return f; }

int index(Src &s) {
    switch (s.weighted({6, 4, 2, 1})) {
        case 0: return (int) s.range(0, 200);
        case 1: { int b = (int) s.range(0, 12) * 64 + (int) s.range(0, 4) - 2; return b < 0 ? 0 : b; }
        case 2: return (int) s.range(0, 1000);
        default: return (int) s.range(0, 2500);
    }
}
void cheap(const Slot &a, const char *what) {
    CHECK_EQ(a.b.cardinality(), (int) a.m.size(), what << " model " << text(a.m));
    CHECK_EQ(a.b.length(), a.m.empty() ? 0 : *a.m.rbegin() + 1, what << " model " << text(a.m));
    CHECK_EQ((bool) a.b.isEmpty(), a.m.empty(), what);
    int sz = a.b.size();
    CHECK(sz >= a.b.length() && sz % 64 == 0, what << " size " << sz);
}
void full(const Slot &a) {
    std::vector<long> w = words(a.m), got;
    Array<long> ja = a.b.toLongArray();
    for (int i = 0; i < ja.length; ++i) got.push_back(ja.get(i));
    CHECK_EQ(got, w, "toLongArray, model " << text(a.m));
    int n = 0;
    for (int i = a.b.nextSetBit(0); i >= 0; i = a.b.nextSetBit(i + 1)) { CHECK(a.m.count(i), "extra bit " << i); ++n; }
    CHECK_EQ(n, (int) a.m.size(), "bits visited");
    std::string bytes, wb((const char *) w.data(), w.size() * 8);
    while (!wb.empty() && !wb.back()) wb.pop_back();
    Array<byte> jb = a.b.toByteArray();
    for (int i = 0; i < jb.length; ++i) bytes.push_back((char) jb.get(i));
    CHECK_EQ(bytes, wb, "toByteArray, model " << text(a.m));
    CHECK_EQ(S(a.b.toString()), text(a.m), "toString");
    unsigned long h = 1234;
    for (size_t i = w.size(); i-- > 0;) h ^= (unsigned long) w[i] * (i + 1);
    CHECK_EQ(a.b.hashCode(), (int) ((h >> 32) ^ h), "hashCode, model " << text(a.m));
}
template<class F>
void rejects(Slot &a, const char *what, F f) {
    std::string before = text(a.m);
    bool t = throws<jl::IndexOutOfBoundsException>(f);
    CHECK(t, what << " accepted");
    CHECK_EQ(S(a.b.toString()), before, what << " changed the set");
    LABEL("rejected argument");
}
void run(Src &s) {
    std::vector<Slot> p;
    for (int i = 0; i < 3; ++i) {
        if (s.chance(1, 3)) {
            int n = (int) s.range(0, 300);
            TRACE("#" << i << " = BitSet(" << n << ")");
            p.push_back(Slot{BitSet(n), M()});
            CHECK(p.back().b.size() >= n, "initial size");
        } else p.push_back(Slot{BitSet(), M()});
    }
    if (s.chance(1, 12)) CHECK(throws<jl::NegativeArraySizeException>([] { BitSet x(-1); }), "BitSet(-1) accepted");
    int ops = 0, big = 0;
    while (s.more()) {
        ++ops;
        size_t ia = (size_t) s.range(0, 2), ib = (size_t) s.range(0, 2);
        Slot &a = p[ia];
        Slot &b = p[ib];
        int op = (int) s.weighted({12, 6, 6, 10, 10, 10, 5, 5, 5, 5, 6, 8, 6, 4, 4, 4, 3, 3, 3, 5, 2});
        int i = index(s), j = i;
        if (op >= 3 && op <= 5) { j = s.chance(1, 8) ? i : s.flip() ? index(s) : i + (int) s.range(0, 140); if (j < i) std::swap(i, j); }
        switch (op) {
            case 0: TRACE("#" << ia << ".set(" << i << ")"); a.b.set(i); a.m.insert(i); break;
            case 1: {
                bool v = s.flip();
                TRACE("#" << ia << ".set(" << i << "," << v << ")");
                a.b.set(i, v);
                if (v) a.m.insert(i); else a.m.erase(i);
                break;
            }
            case 2:
                TRACE("#" << ia << ".flip/clear(" << i << ")");
                if (s.flip()) { a.b.flip(i); if (!a.m.erase(i)) a.m.insert(i); }
                else { a.b.clear(i); a.m.erase(i); }
                break;
            case 3: {
                bool two = s.flip(), v = s.flip();
                TRACE("#" << ia << ".set(" << i << "," << j << (two ? v ? ",true" : ",false" : "") << ")");
                if (two) a.b.set(i, j, v); else { v = true; a.b.set(i, j); }
                if (v) for (int k = i; k < j; ++k) a.m.insert(k); else a.m.erase(a.m.lower_bound(i), a.m.lower_bound(j));
                break;
            }
            case 4:
                TRACE("#" << ia << ".clear(" << i << "," << j << ")");
                a.b.clear(i, j);
                a.m.erase(a.m.lower_bound(i), a.m.lower_bound(j));
                break;
            case 5:
                TRACE("#" << ia << ".flip(" << i << "," << j << ")");
                a.b.flip(i, j);
                for (int k = i; k < j; ++k) if (!a.m.erase(k)) a.m.insert(k);
                break;
            case 6: {
                TRACE("#" << ia << ".and(#" << ib << ")");
                a.b.bitAnd(b.b);
                M r;
                for (int k : a.m) if (b.m.count(k)) r.insert(k);
                a.m = r;
                break;
            }
            case 7: TRACE("#" << ia << ".or(#" << ib << ")"); a.b.bitOr(b.b); { M t = b.m; a.m.insert(t.begin(), t.end()); } break;
            case 8: {
                TRACE("#" << ia << ".xor(#" << ib << ")");
                a.b.bitXor(b.b);
                M t = b.m;
                for (int k : t) if (!a.m.erase(k)) a.m.insert(k);
                break;
            }
            case 9: { TRACE("#" << ia << ".andNot(#" << ib << ")"); a.b.andNot(b.b); M t = b.m; for (int k : t) a.m.erase(k); break; }
            case 10: {
                TRACE("#" << ia << ".intersects(#" << ib << ")");
                bool w = false;
                for (int k : a.m) w = w || b.m.count(k);
                CHECK_EQ((bool) a.b.intersects(b.b), w, text(a.m) << " / " << text(b.m));
                bool eq = a.m == b.m;
                CHECK_EQ((bool) a.b.equals(b.b), eq, "equals " << text(a.m) << " / " << text(b.m));
                CHECK_EQ((bool) (a.b == b.b), eq, "==");
                break;
            }
            case 11: {
                TRACE("#" << ia << " queries at " << i);
                CHECK_EQ((bool) a.b.get(i), a.m.count(i) > 0, "get(" << i << ")");
                CHECK_EQ(a.b.nextSetBit(i), nextSet(a.m, i), "from " << i << " in " << text(a.m));
                CHECK_EQ(a.b.nextClearBit(i), nextClear(a.m, i), "from " << i << " in " << text(a.m));
                CHECK_EQ(a.b.previousSetBit(i), prevSet(a.m, i), "from " << i << " in " << text(a.m));
                CHECK_EQ(a.b.previousClearBit(i), prevClear(a.m, i), "from " << i << " in " << text(a.m));
                CHECK_EQ(a.b.previousSetBit(-1), -1, "");
                CHECK_EQ(a.b.previousClearBit(-1), -1, "");
                break;
            }
            case 12: {
                int lo = index(s), hi = s.flip() ? index(s) : lo + (int) s.range(0, 200);
                if (lo > hi) std::swap(lo, hi);
                TRACE("#" << ib << " = #" << ia << ".get(" << lo << "," << hi << ")");
                Slot r{a.b.get(lo, hi), M()};
                for (int k : a.m) if (k >= lo && k < hi) r.m.insert(k - lo);
                cheap(r, "sub-range");
                full(r);
                b.b = r.b;
                b.m = r.m;
                break;
            }
            case 13: {
                TRACE("#" << ib << " = #" << ia << (ia == ib ? " (itself)" : ""));
                BitSet &res = (b.b = a.b);
                CHECK(&res == &b.b, "assignment result");
                b.m = M(a.m);
                break;
            }
            case 14: { TRACE("#" << ib << " = #" << ia << ".clone()"); BitSet c = a.b.clone(); Slot t{c, a.m}; full(t); b.b = c; b.m = M(a.m); break; }
            case 15: {
                TRACE("copy of #" << ia << " edited");
                BitSet c(a.b);
                c.flip(i);
                c.set(0, 70);
                cheap(a, "copy is independent");
                break;
            }
            case 16: TRACE("#" << ia << ".clear()"); a.b.clear(); a.m.clear(); break;
            case 17: {
                bool longs = s.flip();
                int n = (int) s.range(0, longs ? 6 : 40);
                std::string raw = s.bytes(longs ? n * 8 : n);
                if (s.flip()) for (size_t k = raw.size() / 2; k < raw.size(); ++k) raw[k] = 0;
                TRACE("#" << ia << " = valueOf(" << (longs ? "longs " : "bytes ") << show(raw) << ")");
                M m;
                for (int k = 0; k < (int) raw.size() * 8; ++k) if ((raw[(size_t) k / 8] >> (k % 8)) & 1) m.insert(k);
                if (longs) {
                    Array<long> l;
                    for (int k = 0; k < n; ++k) { long v; memcpy(&v, raw.data() + k * 8, 8); l.push(v); }
                    a.b = BitSet::valueOf(l);
                } else {
                    Array<byte> l;
                    for (char c : raw) l.push((byte) c);
                    a.b = BitSet::valueOf(l);
                }
                a.m = m;
                break;
            }
            case 18: TRACE("#" << ia << " full check"); full(a); break;
            case 19: {
                int bad = -1 - (int) s.range(0, 200);
                if (s.chance(1, 4)) bad = std::numeric_limits<int>::min();
                TRACE("#" << ia << " bad arguments " << bad << ", " << i);
                switch (s.range(0, 13)) {
                    case 0: rejects(a, "set(-)", [&] { a.b.set(bad); }); break;
                    case 1: rejects(a, "clear(-)", [&] { a.b.clear(bad); }); break;
                    case 2: rejects(a, "flip(-)", [&] { a.b.flip(bad); }); break;
                    case 3: rejects(a, "get(-)", [&] { a.b.get(bad); }); break;
                    case 4: rejects(a, "nextSetBit(-)", [&] { a.b.nextSetBit(bad); }); break;
                    case 5: rejects(a, "nextClearBit(-)", [&] { a.b.nextClearBit(bad); }); break;
                    case 6: rejects(a, "set(-,i)", [&] { a.b.set(bad, i); }); break;
                    case 7: rejects(a, "clear(i,i-1)", [&] { a.b.clear(i + 1, i); }); break;
                    case 8: rejects(a, "flip(i+1,i)", [&] { a.b.flip(i + 1, i); }); break;
                    case 9: rejects(a, "set(i+1,i)", [&] { a.b.set(i + 1, i, s.flip()); }); break;
                    case 10: rejects(a, "get(i+1,i)", [&] { a.b.get(i + 1, i); }); break;
                    case 11: rejects(a, "previousSetBit(<-1)", [&] { a.b.previousSetBit(bad == -1 ? -2 : bad); }); break;
                    case 12: rejects(a, "previousClearBit(<-1)", [&] { a.b.previousClearBit(bad == -1 ? -2 : bad); }); break;
                    default: rejects(a, "flip(-,i)", [&] { a.b.flip(bad, i); }); break;
                }
                break;
            }
            default: { TRACE("#" << ia << " toString twice"); JString t1 = a.b.toString(), t2 = a.b.toString(); CHECK_EQ(S(t1), text(a.m), ""); CHECK_EQ(S(t2), text(a.m), ""); }
        }
        cheap(a, "receiver");
        if (ib != ia) cheap(b, "argument");
        if (a.m.size() > 3) ++big;
    }
    for (Slot &a : p) full(a);
    if (ops >= 4 && big >= 2) { markNontrivial(); LABEL("history of 4+ operations"); }
    if (ops >= 20) LABEL("history of 20+ operations");
}
}
PROPERTY(U06, run, 768, "a case is a history of BitSet operations over three sets decoded from the stream; non-trivial: at least 4 operations, two of them on a set of more than 3 members")
