// T06 (shared): every method of one StringBuffer used by several threads at once. The results and the final text must be
// those of some order of the calls that keeps the order of each thread (all such orders are searched), and no access may race.
#include "jv.hpp"
#include "conc.hpp"
#include <set>
namespace {
typedef std::string B;
struct Op { int kind, a, b; B text; int num; };
const int KINDS = 39;
const char *NAME[KINDS] = {"append", "append char", "append int", "append long", "append boolean", "append sequence", "append sequence range", "append text range", "appendCodePoint",
    "insert", "insert char", "insert int", "insert long", "insert boolean", "insert sequence", "insert sequence range", "insert text range", "insert literal",
    "deletes", "deleteCharAt", "replace", "reverse", "setCharAt", "setLength", "assign", "indexOf", "lastIndexOf", "charAt", "length", "toString", "subString", "code points", "capacity", "copy",
    "append double", "append float", "append char*", "insert double", "insert float"};
const B REJECTED = "!";
B text(const Op &o) { B r = NAME[o.kind]; return r + "(" + std::to_string(o.a) + ", " + std::to_string(o.b) + ", " + show(o.text) + ", " + std::to_string(o.num) + ")"; }
B real(jl::StringBuffer &t, const Op &o) {
    JString q = J(o.text);
    const jl::CharSequence &cs = q;
    const int a = o.a, b = o.b, n = (int) o.text.size();
    try {
        switch (o.kind) {
            case 0: t.append(q); return "";
            case 1: t.append(o.text[0]); return "";
            case 2: t.append(o.num); return "";
            case 3: t.append((long) o.num); return "";
            case 4: t.append((bool) (o.num & 1)); return "";
            case 5: t.append(cs); return "";
            case 6: t.append(cs, 1, n); return "";
            case 7: t.append((char *) o.text.c_str(), 1, n - 1); return "";
            case 8: t.appendCodePoint(o.text[0]); return "";
            case 9: t.insert(a, q); return "";
            case 10: t.insert(a, o.text[0]); return "";
            case 11: t.insert(a, o.num); return "";
            case 12: t.insert(a, (long) o.num); return "";
            case 13: t.insert(a, (bool) (o.num & 1)); return "";
            case 14: t.insert(a, cs); return "";
            case 15: t.insert(a, cs, 1, n); return "";
            case 16: t.insert(a, q, 1, n - 1); return "";
            case 17: t.insert(a, "lit"); return "";
            case 18: t.deletes(a, b); return "";
            case 19: t.deleteCharAt(a); return "";
            case 20: t.replace(a, b, q); return "";
            case 21: t.reverse(); return "";
            case 22: t.setCharAt(a, o.text[0]); return "";
            case 23: t.setLength(a); return "";
            case 24: { jl::StringBuffer fresh(q); t = fresh; return ""; }
            case 25: return std::to_string(o.num & 1 ? t.indexOf(q) : t.indexOf(q, a));
            case 26: return std::to_string(o.num & 1 ? t.lastIndexOf(q) : t.lastIndexOf(q, a));
            case 27: return B(1, o.num & 1 ? t.charAt(a) : ((const jl::CharSequence &) t).charAt(a));
            case 28: return std::to_string(o.num & 1 ? t.length() : ((const jl::CharSequence &) t).length());
            case 29: return o.num % 4 == 0 ? S(t.toString()) : o.num % 4 == 3 ? S(t.getValue()) : o.num % 4 == 1 ? S(JString(t)) : S(((const jl::CharSequence &) t).toString());
            case 30: return o.num & 1 ? S(t.subString(a, b)) : S(t.subString(a));
            case 31: return std::to_string(o.num % 3 == 0 ? t.codePointAt(a) : o.num % 3 == 1 ? t.codePointBefore(a) : t.codePointCount(a, b));
            case 32: if (o.num & 1) t.ensureCapacity(a * 7); else if (o.num & 2) t.trimToSize(); return t.capacity() >= 0 ? "" : "negative capacity";
            case 34: t.append(o.num + 0.5); return "";
            case 35: t.append((float) o.num + 0.5f); return "";
            case 36: t.append((char *) o.text.c_str()); return "";
            case 37: t.insert(a, o.num + 0.5); return "";
            case 38: t.insert(a, (float) o.num + 0.5f); return "";
            default: { if (o.num & 1) { jl::StringBuffer c(t); return S(c.toString()); } jl::StringBuffer c(o.text.empty() ? JString("x") : q); c = t; return S(c.subString(0)); }
        }
    }
    catch (const jl::IndexOutOfBoundsException &) { return REJECTED; }
    catch (const jl::StringIndexOutOfBoundsException &) { return REJECTED; }
}
B model(B &m, const Op &o) {
    const size_t a = (size_t) o.a, b = (size_t) o.b, n = m.size();
    const B boolean = o.num & 1 ? "true" : "false", number = std::to_string(o.num), rest = o.text.empty() ? B() : o.text.substr(1);
    auto put = [&](const B &x) -> B { if (a > n) return REJECTED; m.insert(a, x); return ""; };
    switch (o.kind) {
        case 0: case 5: case 36: m += o.text; return "";
        case 34: m += S(JString::valueOf(o.num + 0.5)); return "";
        case 35: m += S(JString::valueOf((float) o.num + 0.5f)); return "";
        case 37: return put(S(JString::valueOf(o.num + 0.5)));
        case 38: return put(S(JString::valueOf((float) o.num + 0.5f)));
        case 1: case 8: m += o.text[0]; return "";
        case 2: case 3: m += number; return "";
        case 4: m += boolean; return "";
        case 6: case 7: m += rest; return "";
        case 9: case 14: return put(o.text);
        case 10: return put(B(1, o.text[0]));
        case 11: case 12: return put(number);
        case 13: return put(boolean);
        case 15: case 16: return put(rest);
        case 17: return put("lit");
        case 18: if (a > n || a > b) return REJECTED; m.erase(a, b - a); return "";
        case 19: if (a >= n) return REJECTED; m.erase(a, 1); return "";
        case 20: if (a > n || a > b) return REJECTED; m.replace(a, (b < n ? b : n) - a, o.text); return "";
        case 21: m = B(m.rbegin(), m.rend()); return "";
        case 22: if (a >= n) return REJECTED; m[a] = o.text[0]; return "";
        case 23: m.resize(a, '\0'); return "";
        case 24: m = o.text; return "";
        case 25: { size_t r = m.find(o.text, o.num & 1 ? 0 : a < n ? a : n); return std::to_string(r == B::npos ? -1 : (int) r); }
        case 26: { size_t r = m.rfind(o.text, o.num & 1 ? n : a); return std::to_string(r == B::npos ? -1 : (int) r); }
        case 27: return a < n ? B(1, m[a]) : REJECTED;
        case 28: return std::to_string(n);
        case 29: return o.num % 4 == 3 ? m.substr(0, m.find('\0')) : m;
        case 30: if (o.num & 1) return a <= b && b <= n ? m.substr(a, b - a) : REJECTED; return a <= n ? m.substr(a) : REJECTED;
        case 31: if (o.num % 3 == 0) return a < n ? std::to_string((int) m[a]) : REJECTED;
                 if (o.num % 3 == 1) return a > 0 && a <= n ? std::to_string((int) m[a - 1]) : REJECTED;
                 return a <= b && b <= n ? std::to_string((int) (b - a)) : REJECTED;
        case 32: return "";
        default: return m;
    }
}
struct Search {
    const std::vector<std::vector<Op> > &ops;
    const std::vector<std::vector<B> > &got;
    const B &last;
    std::set<std::pair<std::vector<int>, B> > seen;
    bool from(std::vector<int> &at, const B &m) {
        bool end = true;
        for (size_t t = 0; t < ops.size(); ++t) end = end && at[t] == (int) ops[t].size();
        if (end) return m == last;
        if (!seen.insert(std::make_pair(at, m)).second) return false;
        for (size_t t = 0; t < ops.size(); ++t) {
            if (at[t] == (int) ops[t].size()) continue;
            B n = m;
            if (model(n, ops[t][(size_t) at[t]]) != got[t][(size_t) at[t]]) continue;
            ++at[t];
            bool ok = from(at, n);
            --at[t];
            if (ok) return true;
        }
        return false;
    }
};
void run(Src &s) {
    int nt = s.chance(1, 3) ? 3 : 2, level = (int) s.range(0, 2), longest = nt == 2 ? 7 : 4;
    B start = s.text(12, 0);
    for (char &c : start) c &= 127;
    std::vector<std::vector<Op> > ops((size_t) nt);
    int focus = s.chance(1, 2) ? (int) s.range(0, KINDS - 1) : -1;
    for (int t = 0; t < nt; ++t)
        for (int n = (int) s.range(1, longest); n > 0; --n) {
            Op o;
            o.kind = focus >= 0 && s.chance(1, 3) ? focus : (int) s.range(0, KINDS - 1);
            o.a = (int) s.range(0, 14);
            o.b = o.a + (int) s.range(s.chance(1, 8) ? -2 : 0, 6);
            if (o.b < 0) o.b = 0;
            bool query = o.kind == 25 || o.kind == 26;
            o.text = query ? B(1, (char) s.range('a', 'e')) : B((size_t) s.range(1, s.chance(1, 4) ? 40 : 4), (char) ('a' + s.range(0, 4)));
            if (!query) o.text[0] = (char) ('A' + t);
            o.num = (int) s.range(0, 999);
            ops[(size_t) t].push_back(o);
        }
    uint32_t seed = s.u16();
    bool built = s.flip();
    TRACE(nt << " threads, noise " << level << ", start " << show(start));
    for (int t = 0; t < nt; ++t) for (const Op &o : ops[(size_t) t]) TRACE("thread " << t << ": " << text(o));
    jl::StringBuffer buf(built ? J(start) : J(""));
    if (!built) buf.append(J(start));
    std::vector<std::vector<B> > got((size_t) nt);
    std::vector<std::function<void()> > f;
    for (int t = 0; t < nt; ++t)
        f.push_back([&, t] {
            conc::Noise noise(seed + (uint32_t) t * 77, level);
            for (const Op &o : ops[(size_t) t]) { noise(); got[(size_t) t].push_back(real(buf, o)); }
        });
    B err = conc::runAll(f);
    CHECK(err.empty(), err);
    B last = S(buf.toString());
    std::vector<int> at((size_t) nt, 0);
    Search search = {ops, got, last, {}};
    if (!search.from(at, start)) {
        B all;
        for (int t = 0; t < nt; ++t) for (const B &r : got[(size_t) t]) all += " [" + std::to_string(t) + "] " + show(r);
        FAIL("no order of the calls explains the results" << all << " and the text " << show(last));
    }
    int edits = 0;
    for (const std::vector<Op> &v : ops) { bool e = false; for (const Op &o : v) e = e || o.kind < 25 || o.kind >= 34; edits += e; }
    if (edits >= 2) markNontrivial();
    if (edits == 1) LABEL("one writing thread");
}
}
PROPERTY(T06D, run, 400, "a shared case is 2 threads with up to 7 calls or 3 threads with up to 4 on one buffer; non-trivial: at least two threads change it")
