// C05: threads working on objects of their own behave as if they were alone; constant objects may be read by many
#include "jv.hpp"
#include "conc.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
namespace {
// ---- histories of the single-threaded properties, each with its own oracle, side by side
const char *const IDS[] = {"T01", "T02", "T03", "T04", "T05", "T06", "N01", "N03", "N04", "N05", "N07", "K01", "U01", "U03", "U04", "U05", "U06", "U07", "U08", "L02", "X01", "X02", "X03", "X05", "X08", "E01"};
void alone(const Property &p, const std::string &bytes) { Src s((const uint8_t *) bytes.data(), bytes.size()); p.run(s); }
void histories(Src &s) {
    struct Part { const Property *p; std::vector<std::string> b; };
    int nt = (int) s.range(2, 5); std::vector<Part> parts; bool one = s.flip(); size_t which = (size_t) s.range(0, (int64_t) (sizeof IDS / sizeof *IDS) - 1);
    uint32_t seed = s.u16(); int level = (int) s.range(0, 2);
    for (int t = 0; t < nt; ++t) {
        if (t && !one) which = (size_t) s.range(0, (int64_t) (sizeof IDS / sizeof *IDS) - 1);
        Part q; q.p = findProperty(IDS[which]); if (!q.p) return;
        int n = (int) s.range(1, 4);
        for (int k = 0; k < n; ++k) { q.b.push_back(s.bytes(s.range(4, 60))); TRACE("thread " << t << " runs a history of " << q.p->id << " from " << show(q.b.back())); }
        parts.push_back(q);
    }
    // what fails alone is the business of the other property
    quietThread = true;
    try { for (Part &q : parts) for (std::string &b : q.b) alone(*q.p, b); } catch (...) { quietThread = false; LABEL("fails alone"); return; }
    quietThread = false;
    std::vector<std::function<void()> > f;
    for (int t = 0; t < nt; ++t) f.push_back([&, t] {
        quietThread = true; conc::Noise noise(seed + (uint32_t) t * 131, level);
        for (std::string &b : parts[(size_t) t].b) {
            noise();
            try { alone(*parts[(size_t) t].p, b); }
            catch (const Failure &e) { throw Failure{std::string("holds alone but not beside other threads: ") + parts[(size_t) t].p->id + " " + e.msg}; }
            catch (const std::exception &e) { throw Failure{std::string("holds alone, but beside other threads an exception: ") + parts[(size_t) t].p->id + " " + e.what()}; }
        }
    });
    std::string err = conc::runAll(f); CHECK(err.empty(), err);
    markNontrivial(); LABEL(one ? "one kind of object" : "several kinds of objects");
}
// ---- dates in the zone of the process (without summer time: which of two ambiguous instants mktime picks depends on earlier calls)
std::string dates(const std::vector<long> &v) {
    std::string r;
    for (long x : v) {
        ju::Date d(x * 1000); r += S(d.toString()) + "|" + S(d.toGMTString()) + "|" + S(d.toLocaleString()) + "|" + std::to_string(d.getTimezoneOffset()) + "|";
        d.setMonth((int) (x % 12 + 12) % 12); d.setMinutes((int) (x % 50 + 50) % 50); r += std::to_string(d.getTime()) + "|" + std::to_string(d.getHours()) + std::to_string(d.getDay()) + "|";
        ju::Date e(90 + (int) (x & 31), (int) (x & 7), 3, 4, 5, 6); r += std::to_string(e.getTime()) + "|" + (e.before(d) ? "<" : ">");
        for (const char *t : {"%d Feb 99 10:20:30", "Sat, %d Aug 1995 13:30:00 GMT+0430", "%d Jan 2010 01:02", "Mon, %d Mar 69 00:00:00 EST"}) {
            char b[80]; snprintf(b, sizeof b, t, (int) (1 + (x & 15))); r += std::to_string(ju::Date::parse(J(b))) + "|";
        }
        r += "\n";
    }
    return r;
}
template<class F> void sameBeside(Src &s, const char *what, std::vector<F> work) {
    std::vector<std::string> want; for (F &w : work) want.push_back(w());
    uint32_t seed = s.u16(); int level = (int) s.range(0, 2); std::vector<std::function<void()> > f;
    for (size_t t = 0; t < work.size(); ++t) f.push_back([&, t] {
        conc::Noise noise(seed + (uint32_t) t * 131, level);
        for (int k = 0; k < 3; ++k) { noise(); std::string got = work[t](); CHECK_EQ(got, want[t], what << " beside other threads, in thread " << t); }
    });
    std::string err = conc::runAll(f); CHECK(err.empty(), err); markNontrivial();
}
void dated(Src &s) {
    const char *zone = s.pick<const char *>({"UTC0", "EST5", "ICT-7", "IST-5:30"});
    std::vector<std::vector<long> > v((size_t) s.range(2, 5));
    for (auto &l : v) { l.resize((size_t) s.range(1, 6)); for (long &x : l) x = (long) s.range(-2000000000L, 4000000000L); }
    TRACE("dates in " << zone << ": " << [&] { std::string r; for (auto &l : v) r += show(l) + " "; return r; }());
    struct Zone { Zone(const char *z) { setenv("TZ", z, 1); tzset(); } ~Zone() { setenv("TZ", "UTC", 1); tzset(); } } z(zone);
    std::vector<std::function<std::string()> > work; for (auto &l : v) work.push_back([&l] { return dates(l); });
    sameBeside(s, "dates", work); LABEL("dates");
}
// ---- random UUIDs: never twice the same, whichever thread makes them
void uuids(Src &s) {
    int nt = (int) s.range(2, 5), n = (int) s.range(1, 40); TRACE(nt << " threads make " << n << " random UUIDs each, and print and read them");
    std::vector<std::vector<std::string> > got((size_t) nt); std::vector<std::function<void()> > f;
    for (int t = 0; t < nt; ++t) f.push_back([&, t] {
        for (int k = 0; k < n; ++k) {
            ju::UUID u = ju::UUID::randomUUID(); std::string x = S(u.toString()); ju::UUID w = ju::UUID::fromString(J(x));
            CHECK_EQ(S(w.toString()), x, "a UUID read back"); CHECK_EQ(u.version(), 4, "version of a random UUID"); CHECK_EQ(u.variant(), 2, "variant of a random UUID");
            got[(size_t) t].push_back(x);
        }
    });
    std::string err = conc::runAll(f); CHECK(err.empty(), err);
    std::set<std::string> all; for (auto &l : got) for (auto &x : l) CHECK(all.insert(x).second, "the random UUID " << x << " was made twice");
    markNontrivial(); LABEL("random UUIDs");
}
// ---- constant objects read by several threads at once
void readers(Src &s) {
    std::string a = s.text(60, (int) s.range(0, 6)), b = s.text(6, (int) s.range(0, 2)); int nt = (int) s.range(2, 5), n = (int) s.range(1, 20);
    TRACE(nt << " threads read " << show(a) << ", " << show(b) << " and collections of " << n);
    if (a.find('\0') != std::string::npos) a = "no zero bytes";
    const JString x = J(a), y = J(b);
    ju::ArrayList<JString> l0; ju::HashMap<JString, jl::Integer> h0; ju::Vector<jl::Integer> v0; Array<int> r0;
    for (int k = 0; k < n; ++k) { JString e = J(b + std::to_string(k)); l0.add(e); h0.put(e, jl::Integer(k)); v0.add(jl::Integer(k % 5)); r0.push(k); }
    const ju::ArrayList<JString> &l = l0; const ju::HashMap<JString, jl::Integer> &h = h0; const ju::Vector<jl::Integer> &v = v0; const Array<int> &r = r0;
    std::vector<std::function<std::string()> > work;
    for (int t = 0; t < nt; ++t) work.push_back([&, t] {
        std::ostringstream o;
        o << S(x.toUpperCase()) << S(x.toLowerCase()) << S(x.trim()) << x.hashCode() << x.indexOf(y) << x.lastIndexOf(y) << x.compareTo(y) << x.compareToIgnoreCase(y) << x.equalsIgnoreCase(x) << x.contains(y) << x.startsWith(y) << x.endsWith(y);
        o << S(x.concat(y)) << S(x.replace(y, JString("-"))) << S(x + y) << S(x.subString(0, x.length() / 2)) << x.toCharArray().length << x.split(y.isEmpty() ? JString(",") : y).length << S(JString(x));
        for (int k = t; k < n; ++k) o << S(l.get(k)) << l.indexOf(l.get(k)) << h.get(l.get(k)).intValue() << h.containsKey(y) << v.get(k).intValue() << v.indexOf(jl::Integer(k % 5)) << r.get(k);
        ju::ArrayList<JString> lc(l); ju::HashMap<JString, jl::Integer> hc(h); ju::Vector<jl::Integer> vc(v); o << lc.size() << hc.size() << vc.size() << hc.equals(h) << vc.equals(v);
        for (auto const &e : h) o << S(e.first) << e.second.intValue();
        return o.str();
    });
    sameBeside(s, "constant objects read", work); LABEL("constant objects");
}
// ---- the first use of everything: a process of its own, in which nothing of the library ran before the threads
struct Sub { bool ok; std::string msg; };
Sub inChild(const std::function<std::string()> &f) {
    FILE *t = tmpfile(); if (!t) throw Failure{"harness: no temporary file"};
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fileno(t), 2);
        std::string e; try { e = f(); } catch (const Failure &x) { e = x.msg; } catch (...) { e = "exception"; }
        if (!e.empty()) { if (write(2, e.data(), e.size())) {} _exit(42); }
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Sub r; r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    rewind(t); char b[4096]; size_t n = fread(b, 1, sizeof b, t); r.msg.assign(b, n); fclose(t);
    if (!r.ok && r.msg.empty()) r.msg = "the process died";
    return r;
}
void firstUse(Src &s) {
    int nt = (int) s.range(2, 4), kind = (int) s.weighted({12, 2, 1}); bool same = s.flip(); uint32_t seed = s.u16(); int level = (int) s.range(0, 2);
    size_t which = (size_t) s.range(0, (int64_t) (sizeof IDS / sizeof *IDS) - 1); bool one = !s.chance(1, 6);
    std::vector<std::function<void()> > work; std::vector<std::function<std::string()> > dw; std::vector<std::vector<long> > dv;
    if (kind == 0) {
        std::string last; int n = (int) s.range(1, 6);
        std::vector<std::pair<const Property *, std::vector<std::string> > > parts;
        for (int t = 0; t < nt; ++t) {
            if (t && !one) which = (size_t) s.range(0, (int64_t) (sizeof IDS / sizeof *IDS) - 1);
            const Property *q = findProperty(IDS[which]); if (!q) return;
            std::vector<std::string> b;
            if (t && same && one) b = parts[0].second; else for (int k = 0; k < n; ++k) b.push_back(s.bytes(s.range(4, 60)));
            for (auto &x : b) TRACE("thread " << t << " runs a history of " << q->id << " from " << show(x));
            parts.push_back({q, b});
        }
        for (auto &q : parts) work.push_back([q] {
            for (auto &b : q.second) {
                try { alone(*q.first, b); }
                catch (const Failure &e) { throw Failure{std::string("as the first use of the process: ") + q.first->id + " " + e.msg}; }
                catch (const std::exception &e) { throw Failure{std::string("as the first use of the process, an exception: ") + q.first->id + " " + e.what()}; }
            }
        });
    } else if (kind == 1) {
        for (int t = 0; t < nt; ++t) { std::vector<long> l((size_t) s.range(1, 3)); for (long &x : l) x = (long) s.range(-2000000000L, 4000000000L); if (t && same) l = dv[0]; dv.push_back(l); TRACE("thread " << t << " uses the dates " << show(l)); }
        for (auto &l : dv) work.push_back([l] { dates(l); });
    } else {
        TRACE(nt << " threads make UUIDs");
        for (int t = 0; t < nt; ++t) work.push_back([] { for (int k = 0; k < 5; ++k) { ju::UUID u = ju::UUID::randomUUID(); S(u.toString()); } });
    }
    TRACE("in a new process");
    Sub together = inChild([&] {
        std::vector<std::function<void()> > f;
        for (int t = 0; t < nt; ++t) f.push_back([&, t] { quietThread = true; conc::Noise noise(seed + (uint32_t) t * 131, level); noise(); work[(size_t) t](); });
        return conc::runAll(f);
    });
    if (!together.ok) {
        Sub alone = inChild([&] { quietThread = true; for (auto &w : work) w(); return std::string(); });
        if (!alone.ok) { LABEL("fails alone"); return; }
        throw Failure{together.msg};
    }
    markNontrivial(); LABEL(kind == 0 ? "first histories" : kind == 1 ? "first dates" : "first UUIDs"); if (same && one) LABEL("all threads do the same");
}
void run(Src &s) { switch (s.weighted({10, 2, 1, 2})) { case 0: histories(s); break; case 1: dated(s); break; case 2: uuids(s); break; default: readers(s); } }
}
PROPERTY(C05, run, 1200, "at least two threads worked at the same time")
PROPERTY(C05F, firstUse, 1200, "at least two threads made the first use of a part of the library at the same time, in a process of their own")
