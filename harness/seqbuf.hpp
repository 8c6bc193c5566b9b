// Model-based histories over StringBuilder / StringBuffer (adapter A hides the naming differences)
#ifndef VERIF_SEQBUF_HPP
#define VERIF_SEQBUF_HPP
#include "jv.hpp"
#include <memory>
namespace seqbuf {
typedef std::string B;
struct SbA {
    typedef jl::StringBuilder T;
    static const bool builder = true;
    static T &del(T &t, int a, int b) { return t.deleteRange(a, b); }
    static JString sub(const T &t, int a) { return t.substring(a); }
    static JString sub(const T &t, int a, int b) { return t.substring(a, b); }
};
struct SfA {
    typedef jl::StringBuffer T;
    static const bool builder = false;
    static T &del(T &t, int a, int b) { return t.deletes(a, b); }
    static JString sub(const T &t, int a) { return t.subString(a); }
    static JString sub(const T &t, int a, int b) { return t.subString(a, b); }
};
inline bool inRange(const B &m, int64_t a, int64_t b) { return a >= 0 && a <= b && b <= (int64_t) m.size(); }
inline bool ascii(char c) { return (unsigned char) c < 128; }
template<class F> bool rejects(F f) {
    try { f(); } catch (const jl::IndexOutOfBoundsException &) { return true; } catch (const jl::StringIndexOutOfBoundsException &) { return true; }
    return false;
}
// the beginning of a repetitive pattern, cut anywhere, right before (or after) a whole occurrence of it
inline B bordered(Src &s, B &pattern) {
    pattern = s.text(14, 6);
    B h;
    for (int64_t k = s.range(0, 3); k > 0; --k) { h += pattern.substr(0, (size_t) s.range(0, (int64_t) pattern.size())); if (s.flip()) h += (char) s.range('a', 'c'); }
    if (!s.chance(1, 5)) h += pattern;
    for (int64_t k = s.range(0, 2); k > 0; --k) { h += pattern.substr((size_t) s.range(0, (int64_t) pattern.size())); if (s.flip()) h += (char) s.range('a', 'c'); }
    return h;
}
// an index: mostly inside [0, n], often at the ends, sometimes outside
inline int index(Src &s, int64_t n) {
    uint8_t k = s.u8();
    if (k < 170) return (int) s.range(0, n);
    if (k < 195) return (int) n;
    if (k < 212) return (int) n - 1;
    if (k < 228) return (int) n + 1;
    if (k < 240) return -1;
    return s.i32();
}
inline int64_t least(int64_t a, int64_t b) { return a < b ? a : b; }

template<class T> struct Obj { std::unique_ptr<T> t; B m; };

inline B cut(const B &m) { return m.substr(0, m.find('\0')); }

// the text the object shows; StringBuilder::toString stops at a NUL (listed finding)
template<class A> B wantText(const B &m) {
    if (A::builder && m.find('\0') != B::npos && known("builder_text_nul")) { LABEL("text with NUL in a builder (finding)"); return cut(m); }
    return m;
}
template<class A> void agree(Src *, const typename A::T &t, const B &m, bool full) {
    CHECK_EQ(t.length(), (int) m.size(), "length");
    CHECK(t.capacity() >= t.length(), "capacity " << t.capacity() << " below length " << t.length());
    CHECK_EQ(S(A::sub(t, 0)), m, "content");
    if (full) {
        CHECK_EQ(S(t.toString()), wantText<A>(m), "toString");
        for (size_t i = 0; i < m.size(); ++i) if (t.charAt((int) i) != m[i]) FAIL("charAt(" << i << ") = " << show(t.charAt((int) i)) << " expected " << show(m[i]));
        CHECK(rejects([&] { t.charAt((int) m.size()); }), "charAt(length) accepted");
        CHECK(rejects([&] { t.charAt(-1); }), "charAt(-1) accepted");
    }
}
inline int modelLast(const B &m, const B &p, int from) {
    if (from < 0) return -1;
    size_t r = m.rfind(p, (size_t) from);
    return r == B::npos ? -1 : (int) r;
}
// last occurrence that ends at or before from (what the builder does, pinned by its test)
inline int modelLastEnding(const B &m, const B &p, int from) {
    for (int64_t k = (int64_t) m.size() - (int64_t) p.size(); k >= 0; --k)
        if (k + (int64_t) p.size() - 1 <= from && m.compare((size_t) k, p.size(), p) == 0) return (int) k;
    return -1;
}
inline B needle(Src &s, const B &m) {
    switch (s.weighted({3, 6, 1, 1})) {
        case 0: return s.text(5);
        case 1: {
            size_t p = (size_t) s.range(0, (int64_t) m.size());
            B n = m.substr(p, (size_t) s.range(0, s.chance(1, 3) ? 40 : 6));
            if (!n.empty() && s.chance(1, 5)) n[n.size() - 1] ^= 3;      // a near miss at its last character
            return n;
        }
        case 2: return B();
        default: return m;
    }
}
inline B piece(Src &s, const B &m, size_t room) {
    B t;
    switch (s.weighted({8, 2, 1})) {
        case 0: t = s.text(s.chance(1, 12) ? 600 : 40, s.chance(1, 8) ? 4 : -1); break;
        case 1: t = m; break;
        default: t = B((size_t) s.range(0, 70), (char) s.range('a', 'c'));
    }
    if (t.size() > room) t.resize(room);
    return t;
}

template<class A> struct Extra { static bool op(Src &, typename A::T &, B &, int) { return false; } };

// builder-only argument types
template<> struct Extra<SbA> {
    static bool op(Src &s, jl::StringBuilder &t, B &m, int) {
        B p = piece(s, m, 4000 - least((int64_t) m.size(), 3900));
        ju::List<int> *none = nullptr; (void) none;
        Array<char> ac; for (char c : p) ac.push(c);
        Array<jl::Character> aC; for (char c : p) aC.push(jl::Character(c));
        switch (s.range(0, 14)) {
            case 13: {
                TRACE("new of an initializer list");
                jl::StringBuilder l = {'l', 'i', 's', 't'};
                CHECK_EQ(S(l.toString()), B("list"), "builder of an initializer list");
                l.append(t); CHECK_EQ(S(l.substring(0)), "list" + wantText<SbA>(m), "appended to it");
                break;
            }
            case 0: TRACE("append Array<char> " << show(p)); t.append(ac); m += p; break;
            case 1: TRACE("append Array<Character> " << show(p)); t.append(aC); m += p; break;
            case 2: case 3: {
                bool boxed = s.flip();
                int o = index(s, (int64_t) p.size()), l = index(s, (int64_t) p.size() - (o < 0 ? 0 : least(o, (int64_t) p.size())));
                bool ok = o >= 0 && l >= 0 && (int64_t) o + l <= (int64_t) p.size();
                TRACE("append Array range " << show(p) << " " << o << "," << l);
                bool rej = rejects([&] { if (boxed) t.append(aC, o, l); else t.append(ac, o, l); });
                CHECK_EQ(rej, !ok, "append(array, offset, length)");
                if (ok) m += p.substr((size_t) o, (size_t) l);
                break;
            }
            case 4: case 5: {
                bool boxed = s.flip();
                int i = index(s, (int64_t) m.size());
                int o = index(s, (int64_t) p.size()), l = index(s, (int64_t) p.size() - (o < 0 ? 0 : least(o, (int64_t) p.size())));
                bool ok = inRange(m, i, (int64_t) m.size()) && o >= 0 && l >= 0 && (int64_t) o + l <= (int64_t) p.size();
                TRACE("insert Array range at " << i << " " << show(p) << " " << o << "," << l);
                bool rej = rejects([&] { if (boxed) t.insert(i, aC, o, l); else t.insert(i, ac, o, l); });
                CHECK_EQ(rej, !ok, "insert(i, array, offset, length)");
                if (ok) m.insert((size_t) i, p.substr((size_t) o, (size_t) l));
                break;
            }
            case 6: {
                int i = index(s, (int64_t) m.size());
                bool ok = inRange(m, i, (int64_t) m.size()), boxed = s.flip();
                TRACE("insert Array at " << i << " " << show(p));
                CHECK_EQ(rejects([&] { if (boxed) t.insert(i, aC); else t.insert(i, ac); }), !ok, "insert(i, array)");
                if (ok) m.insert((size_t) i, p);
                break;
            }
            case 7: TRACE("append initializer list"); t.append({'x', 'y', 'z'}); m += "xyz"; break;
            case 8: { bool v = s.flip(); TRACE("append Boolean"); t.append(jl::Boolean(v)); m += v ? "true" : "false"; break; }
            case 9: { int v = s.i32(); TRACE("append Integer " << v); t.append(jl::Integer(v)); m += std::to_string(v); break; }
            case 10: { long v = (long) s.i64(); TRACE("append Long " << v); t.append(jl::Long(v)); m += std::to_string(v); break; }
            case 11: { char c = (char) s.u8(); TRACE("append Character " << show(c)); t.append(jl::Character(c)); m += c; break; }
            case 12: {
                int i = index(s, (int64_t) m.size());
                bool ok = inRange(m, i, (int64_t) m.size());
                int k = (int) s.range(0, 3);
                int v = s.i32();
                B w = k == 0 ? B(v & 1 ? "true" : "false") : k == 1 ? std::to_string(v) : k == 2 ? std::to_string((long) v * 77777) : B(1, (char) v);
                TRACE("insert boxed at " << i << " " << show(w));
                bool rej = rejects([&] { if (k == 0) t.insert(i, jl::Boolean((bool) (v & 1))); else if (k == 1) t.insert(i, jl::Integer(v)); else if (k == 2) t.insert(i, jl::Long((long) v * 77777)); else t.insert(i, jl::Character((char) v)); });
                CHECK_EQ(rej, !ok, "insert(i, boxed)");
                if (ok) m.insert((size_t) i, w);
                break;
            }
            default: {
                int i = index(s, (int64_t) m.size());
                bool ok = inRange(m, i, (int64_t) m.size() - 1);
                char c = (char) s.u8();
                TRACE("setCharAt(" << i << ", Character)");
                CHECK_EQ(rejects([&] { t.setCharAt(i, jl::Character(c)); }), !(ok && i < (int) m.size()), "setCharAt");
                if (ok && i < (int) m.size()) m[(size_t) i] = c;
            }
        }
        return true;
    }
};
template<> struct Extra<SfA> {
    static bool op(Src &s, jl::StringBuffer &t, B &m, int) {
        B p = piece(s, m, 4000 - least((int64_t) m.size(), 3900));
        switch (s.range(0, 5)) {
            case 4: {
                typedef jl::StringBufferUnSafe U;
                B z = cut(p); JString q = J(p);
                int i = index(s, (int64_t) m.size()), k = (int) s.range(0, 3);
                bool ok = inRange(m, i, (int64_t) m.size());
                TRACE("unlocked copy, text put at " << i << " (kind " << k << ") " << show(z));
                U u(t), v; v = u; v = *&v;
                CHECK(rejects([&] { u.offsetByCodePoints((int) m.size() + 1, 0); }) && rejects([&] { t.offsetByCodePoints(-1, 0); }), "offsetByCodePoints outside the text accepted");
                bool rej = rejects([&] { switch (k) { case 0: u.insert(i, (char *) z.c_str()); break; case 1: u.insert(i, (jl::CharSequence *) &q); break; case 2: u.insert(i, (jl::CharSequence *) nullptr); break; default: u.insert(i, q); } });
                CHECK_EQ(rej, !ok, "insert into the copy");
                B w = m; if (ok) w.insert((size_t) i, k == 0 ? z : k == 1 ? p : k == 2 ? B("null") : p);
                CHECK_EQ(S(u.subString(0)), w, "edited copy"); CHECK_EQ(S(v.subString(0)), m, "assigned copy"); CHECK_EQ(S(t.subString(0)), m, "original of an edited copy");
                v.append(u); CHECK_EQ(S(v.subString(0)), m + w, "copy appended to a copy");
                break;
            }
            case 0: {
                B z = cut(p);
                TRACE("append char* " << show(z));
                t.append((char *) z.c_str());
                m += z;
                break;
            }
            case 1: {
                B z = cut(p);
                int o = index(s, (int64_t) z.size()), l = index(s, (int64_t) z.size() - (o < 0 ? 0 : least(o, (int64_t) z.size())));
                bool ok = o >= 0 && l >= 0 && (int64_t) o + l <= (int64_t) z.size();
                TRACE("append(char*, " << o << ", " << l << ") " << show(z));
                CHECK_EQ(rejects([&] { t.append((char *) z.c_str(), o, l); }), !ok, "append(text, offset, length)");
                if (ok) m += z.substr((size_t) o, (size_t) l);
                break;
            }
            case 2: {
                int i = index(s, (int64_t) m.size()), o = index(s, (int64_t) p.size()), l = index(s, (int64_t) p.size() - (o < 0 ? 0 : least(o, (int64_t) p.size())));
                bool ok = inRange(m, i, (int64_t) m.size()) && o >= 0 && l >= 0 && (int64_t) o + l <= (int64_t) p.size();
                TRACE("insert(" << i << ", " << show(p) << ", " << o << ", " << l << ")");
                CHECK_EQ(rejects([&] { t.insert(i, J(p), o, l); }), !ok, "insert(i, text, offset, length)");
                if (ok) m.insert((size_t) i, p.substr((size_t) o, (size_t) l));
                break;
            }
            case 3: {
                int c = (int) s.range(0, 127);
                TRACE("appendCodePoint " << c);
                t.appendCodePoint(c);
                m += (char) c;
                break;
            }
            default: {
                TRACE("getValue");
                CHECK_EQ(S(t.getValue()), cut(m), "getValue");
                int bad = s.pick<int>({0x110000, -1, INT32_MIN, INT32_MAX});
                CHECK(throwsAny([&] { t.appendCodePoint(bad); }), "appendCodePoint(" << bad << ") accepted");
            }
        }
        return true;
    }
};

template<class A> void history(Src &s) {
    typedef typename A::T T;
    std::vector<Obj<T>> o;
    bool big = s.chance(1, 1500);         // texts longer than 64K characters, now and then
    if (big) heavy(); if (big) LABEL("content over 65536 characters");
    if (s.chance(1, 10)) { int c = -(int) s.range(1, 1000); TRACE("new (capacity " << c << ")"); CHECK(throwsAny([&] { T bad(c); }), "capacity " << c << " accepted"); }
    auto add = [&]() {
        Obj<T> x;
        if (big && o.empty()) {
            size_t n = 65500 + (size_t) s.range(0, 80);
            for (size_t i = 0; i < n; ++i) x.m += (char) ('a' + (i * 7 + i / 300) % 23);
            TRACE("new (String of " << n << " characters)"); x.t.reset(new T(J(x.m)));
            o.push_back(std::move(x));
            return;
        }
        switch (s.weighted({3, 3, 4, 2, 2})) {
            case 0: TRACE("new ()"); x.t.reset(new T()); break;
            case 1: { int c = (int) s.range(0, s.chance(1, 4) ? 300 : 5); TRACE("new (capacity " << c << ")"); x.t.reset(new T(c)); CHECK(x.t->capacity() >= c, "capacity"); break; }
            case 2: x.m = piece(s, B(), 700); TRACE("new (String " << show(x.m) << ")"); x.t.reset(new T(J(x.m))); break;
            case 3: { x.m = piece(s, B(), 700); JString q = J(x.m); TRACE("new (CharSequence " << show(x.m) << ")"); x.t.reset(new T((const jl::CharSequence &) q)); break; }
            default:
                if (o.empty()) { x.t.reset(new T()); break; }
                { size_t k = (size_t) s.range(0, (int64_t) o.size() - 1); TRACE("new copy of #" << k); x.m = o[k].m; x.t.reset(new T(*o[k].t)); }
        }
        o.push_back(std::move(x));
        agree<A>(&s, *o.back().t, o.back().m, true);
    };
    add();
    int steps = 0, edits = 0;
    size_t maxLen = 0;
    while (s.more() && steps < (big ? 12 : 60)) {
        ++steps;
        if (o.size() < 3 && s.chance(1, 14)) { add(); continue; }
        size_t w = (size_t) s.range(0, (int64_t) o.size() - 1);
        T &t = *o[w].t;
        B &m = o[w].m;
        if (m.size() > (big ? 150000u : 5000u)) { A::del(t, 100, (int) m.size()); m.resize(100); }
        B before = m;
        int n = (int) m.size();
        size_t room = (size_t) ((big ? 160000 : 6000) - n);
        int act = (int) s.range(0, 29);
        TRACE("#" << w << " (length " << n << ")");
        ++edits;
        switch (act) {
            case 0: { B p = piece(s, m, room); TRACE("append String " << show(p)); CHECK(&t.append(J(p)) == &t, "result is not the object"); m += p; break; }
            case 1: { char c = (char) s.u8(); TRACE("append char " << show(c)); t.append(c); m += c; break; }
            case 2: {
                switch (s.range(0, 5)) {
                    case 0: { bool v = s.flip(); TRACE("append bool"); t.append(v); m += v ? "true" : "false"; break; }
                    case 1: { int v = s.i32(); TRACE("append int " << v); t.append(v); m += std::to_string(v); break; }
                    case 2: { long v = (long) s.i64(); TRACE("append long " << v); t.append(v); m += std::to_string(v); break; }
                    case 3: { double v = s.f64(); TRACE("append double " << v); B e = S(A::builder ? jl::Double(v).toString() : JString::valueOf(v)); t.append(v); m += e; break; }
                    case 4: { float v = s.f32(); TRACE("append float " << v); B e = S(A::builder ? jl::Float(v).toString() : JString::valueOf(v)); t.append(v); m += e; break; }
                    default: TRACE("append literal"); t.append("lit"); m += "lit";
                }
                break;
            }
            case 3: { B p = piece(s, m, room); JString q = J(p); TRACE("append CharSequence " << show(p)); t.append((const jl::CharSequence &) q); m += p; break; }
            case 4: {
                B p = piece(s, m, room);
                JString q = J(p);
                int a = index(s, (int64_t) p.size()), b = index(s, (int64_t) p.size());
                TRACE("append(CharSequence " << show(p) << ", " << a << ", " << b << ")");
                bool ok = inRange(p, a, b);
                CHECK_EQ(rejects([&] { t.append((const jl::CharSequence &) q, a, b); }), !ok, "append(sequence, start, end)");
                if (ok) m += p.substr((size_t) a, (size_t) (b - a));
                break;
            }
            case 5: {
                if (n > (big ? 70000 : 2500)) break;
                B add = wantText<A>(m);
                switch (s.range(0, 5)) {
                    case 4: case 5: {
                        if (m.find('\0') != B::npos) break;
                        int a = index(s, n), b = s.chance(1, 3) ? index(s, n) : (int) (a < 0 || a > n ? a : s.range(a, n)), i = index(s, n); bool put = s.flip(), ok = inRange(m, a, b) && (!put || inRange(m, i, n));
                        TRACE((put ? "insert" : "append") << " part " << a << ".." << b << " of itself at " << i);
                        CHECK_EQ(rejects([&] { if (put) t.insert(i, (const jl::CharSequence &) t, a, b); else t.append((const jl::CharSequence &) t, a, b); }), !ok, "part of itself");
                        if (ok) { B e = m.substr((size_t) a, (size_t) (b - a)); m.insert(put ? (size_t) i : m.size(), e); LABEL("part of itself"); }
                        break;
                    }
                    case 0: TRACE("append itself"); t.append(t); m += add; break;
                    case 1: TRACE("append itself as CharSequence"); t.append((const jl::CharSequence &) t); m += add; break;
                    case 2: { int i = (int) s.range(0, n); TRACE("insert itself at " << i); t.insert(i, (const jl::CharSequence &) t); m.insert((size_t) i, add); break; }
                    default: { size_t k = (size_t) s.range(0, (int64_t) o.size() - 1); TRACE("append object #" << k); B e = wantText<A>(o[k].m); if (e.size() > (big ? 70000u : 2500u)) break; t.append(*o[k].t); m += e; }
                }
                break;
            }
            case 6: case 7: {
                int i = index(s, n);
                bool ok = inRange(m, i, n);
                int k = (int) s.range(0, 7);
                B p = piece(s, m, room);
                char c = (char) s.u8();
                int v = s.i32();
                double d = k == 4 ? s.f64() : 0;
                float f = k == 5 ? s.f32() : 0;
                B e;
                switch (k) {
                    case 0: e = p; break;
                    case 1: e = B(1, c); break;
                    case 2: e = v & 1 ? "true" : "false"; break;
                    case 3: e = std::to_string(v); break;
                    case 4: e = S(A::builder ? jl::Double(d).toString() : JString::valueOf(d)); break;
                    case 5: e = S(A::builder ? jl::Float(f).toString() : JString::valueOf(f)); break;
                    case 6: e = std::to_string((long) v * 123457); break;
                    default: e = "lit";
                }
                TRACE("insert at " << i << " kind " << k << " " << show(e));
                bool rej = rejects([&] {
                    T *r;
                    switch (k) {
                        case 0: r = &t.insert(i, J(p)); break;
                        case 1: r = &t.insert(i, c); break;
                        case 2: r = &t.insert(i, (bool) (v & 1)); break;
                        case 3: r = &t.insert(i, v); break;
                        case 4: r = &t.insert(i, d); break;
                        case 5: r = &t.insert(i, f); break;
                        case 6: r = &t.insert(i, (long) v * 123457); break;
                        default: r = &t.insert(i, "lit");
                    }
                    CHECK(r == &t, "result is not the object");
                });
                CHECK_EQ(rej, !ok, "insert");
                if (ok) m.insert((size_t) i, e);
                break;
            }
            case 8: {
                int i = index(s, n);
                B p = piece(s, m, room);
                JString q = J(p);
                bool range = s.flip();
                int a = range ? index(s, (int64_t) p.size()) : 0, b = range ? index(s, (int64_t) p.size()) : (int) p.size();
                bool ok = inRange(m, i, n) && inRange(p, a, b);
                TRACE("insert(" << i << ", CharSequence " << show(p) << ", " << a << ", " << b << ")");
                bool rej = rejects([&] { if (range) t.insert(i, (const jl::CharSequence &) q, a, b); else t.insert(i, (const jl::CharSequence &) q); });
                CHECK_EQ(rej, !ok, "insert(i, sequence, start, end)");
                if (ok) m.insert((size_t) i, p.substr((size_t) a, (size_t) (b - a)));
                break;
            }
            case 9: case 10: {
                int a = index(s, n), b = s.chance(1, 3) ? index(s, n) : (int) (a < 0 || a > n ? a : s.range(a, n));
                bool ok = a >= 0 && a <= n && a <= b;
                TRACE("delete " << a << " .. " << b);
                CHECK_EQ(rejects([&] { CHECK(&A::del(t, a, b) == &t, "result is not the object"); }), !ok, "delete range");
                if (ok) m.erase((size_t) a, (size_t) (b - a));
                break;
            }
            case 11: {
                int i = index(s, n);
                bool ok = i >= 0 && i < n;
                TRACE("deleteCharAt " << i);
                CHECK_EQ(rejects([&] { CHECK(&t.deleteCharAt(i) == &t, "result is not the object"); }), !ok, "deleteCharAt");
                if (ok) m.erase((size_t) i, 1);
                break;
            }
            case 12: case 13: {
                int a = index(s, n), b = s.chance(1, 3) ? index(s, n) : (int) (a < 0 || a > n ? a : s.range(a, n));
                B p = piece(s, m, room);
                bool ok = a >= 0 && a <= n && a <= b;
                TRACE("replace " << a << " .. " << b << " by " << show(p));
                CHECK_EQ(rejects([&] { CHECK(&t.replace(a, b, J(p)) == &t, "result is not the object"); }), !ok, "replace");
                if (ok) m.replace((size_t) a, (size_t) (least(b, n) - a), p);
                break;
            }
            case 14: TRACE("reverse"); CHECK(&t.reverse() == &t, "result is not the object"); m = B(m.rbegin(), m.rend()); break;
            case 15: {
                int i = index(s, n);
                char c = (char) s.u8();
                bool ok = i >= 0 && i < n;
                TRACE("setCharAt " << i << " " << show(c));
                CHECK_EQ(rejects([&] { t.setCharAt(i, c); }), !ok, "setCharAt");
                if (ok) m[(size_t) i] = c;
                break;
            }
            case 16: {
                int l = s.chance(1, 10) ? -(int) s.range(1, 1000) : (int) s.range(0, s.chance(1, 4) ? 3000 : n + 20);
                if (s.chance(1, 6)) l = least(t.capacity(), 3000);
                TRACE("setLength " << l);
                CHECK_EQ(rejects([&] { t.setLength(l); }), l < 0, "setLength");
                if (l >= 0) m.resize((size_t) l, '\0');
                break;
            }
            case 17: {
                int c = s.chance(1, 8) ? -(int) s.range(0, 100) : (int) s.range(0, s.chance(1, 4) ? 5000 : n + 40);
                int old = t.capacity();
                TRACE("ensureCapacity " << c);
                t.ensureCapacity(c);
                CHECK(t.capacity() >= c && t.capacity() >= old, "capacity " << old << " then " << t.capacity());
                break;
            }
            case 18: { TRACE("trimToSize"); t.trimToSize(); CHECK(t.capacity() >= n, "capacity"); LABEL("trimToSize"); break; }
            case 19: {
                size_t k = (size_t) s.range(0, (int64_t) o.size() - 1);
                TRACE("assign from #" << k);
                t = *o[k].t;
                m = B(o[k].m);
                LABEL("assignment");
                agree<A>(&s, *o[k].t, o[k].m, false);
                break;
            }
            case 20: case 21: {
                --edits;
                if (s.flip()) {
                    B p, h = bordered(s, p);
                    T x(J(h));
                    int i = (int) s.range(0, (int64_t) h.size());
                    TRACE("new object " << show(h) << ", indexOf and lastIndexOf " << show(p) << " (from " << i << ")");
                    size_t f = h.find(p), g = h.find(p, (size_t) i);
                    CHECK_EQ(x.indexOf(J(p)), f == B::npos ? -1 : (int) f, "indexOf");
                    CHECK_EQ(x.indexOf(J(p), i), g == B::npos ? -1 : (int) g, "indexOf from");
                    CHECK_EQ(x.lastIndexOf(J(p)), modelLast(h, p, (int) h.size()), "lastIndexOf");
                    break;
                }
                B p = needle(s, m);
                bool from = s.flip();
                int i = index(s, n);
                TRACE("indexOf " << show(p) << (from ? " from " : "") << (from ? std::to_string(i) : B()));
                int a = from ? i < 0 ? 0 : (int) least(i, n) : 0;
                size_t r = m.find(p, (size_t) a);
                CHECK_EQ(from ? t.indexOf(J(p), i) : t.indexOf(J(p)), r == B::npos ? -1 : (int) r, "indexOf");
                break;
            }
            case 22: case 23: {
                --edits;
                B p = needle(s, m);
                bool from = s.flip();
                int i = index(s, n);
                TRACE("lastIndexOf " << show(p) << (from ? " from " : "") << (from ? std::to_string(i) : B()));
                int got = from ? t.lastIndexOf(J(p), i) : t.lastIndexOf(J(p)), want = from ? modelLast(m, p, i) : modelLast(m, p, n);
                if (from && A::builder && got != want && known("builder_lastindexof_from")) { LABEL("lastIndexOf from (finding)"); want = p.empty() ? want : modelLastEnding(m, p, i); }
                CHECK_EQ(got, want, "lastIndexOf");
                break;
            }
            case 24: {
                --edits;
                int a = index(s, n), b = index(s, n);
                TRACE("substring " << a << " .. " << b);
                JString r;
                bool rej = rejects([&] { r = A::sub(t, a, b); });
                CHECK_EQ(rej, !inRange(m, a, b), "substring(start, end)");
                if (!rej) CHECK_EQ(S(r), m.substr((size_t) a, (size_t) (b - a)), "substring(start, end)");
                rej = rejects([&] { r = A::sub(t, a); });
                CHECK_EQ(rej, !inRange(m, a, n), "substring(start)");
                if (!rej) CHECK_EQ(S(r), m.substr((size_t) a), "substring(start)");
                break;
            }
            case 25: {
                --edits;
                int a = index(s, n), b = index(s, n);
                TRACE("code points " << a << " " << b);
                bool ok = a >= 0 && a < n;
                int r = 0;
                CHECK_EQ(rejects([&] { r = t.codePointAt(a); }), !ok, "codePointAt");
                if (ok && ascii(m[(size_t) a])) CHECK_EQ(r, (int) m[(size_t) a], "codePointAt");
                ok = b > 0 && b <= n;
                CHECK_EQ(rejects([&] { r = t.codePointBefore(b); }), !ok, "codePointBefore");
                if (ok && ascii(m[(size_t) b - 1])) CHECK_EQ(r, (int) m[(size_t) b - 1], "codePointBefore");
                ok = inRange(m, a, b);
                CHECK_EQ(rejects([&] { r = t.codePointCount(a, b); }), !ok, "codePointCount");
                bool plain = true;
                for (int i = ok ? a : 0; ok && i < b; ++i) plain = plain && ascii(m[(size_t) i]);
                if (ok && plain) CHECK_EQ(r, b - a, "codePointCount");
                break;
            }
            case 26: { --edits; TRACE("to String"); JString q(t); CHECK_EQ(S(q), wantText<A>(m), "String(builder)"); break; }
            default: Extra<A>::op(s, t, m, n);
        }
        bool full = s.u8() % 8 == 0;
        for (size_t k = 0; k < o.size(); ++k) if (k == w || full) agree<A>(&s, *o[k].t, o[k].m, full);
        if (m.size() > maxLen) maxLen = m.size();
    }
    for (size_t k = 0; k < o.size(); ++k) agree<A>(&s, *o[k].t, o[k].m, true);
    if (edits >= 3 && maxLen > 0) markNontrivial();
    if (maxLen > 1000) LABEL("content over 1000 characters");
    if (o.size() > 1) LABEL("several live objects");
}
}
#endif
