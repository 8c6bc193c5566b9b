// X06: several live Dates against a reference calendar, in several process zones
#include "jv.hpp"
#include "civil.hpp"
#include <memory>
#include "library/Java/Util/Date/Date.hpp"
namespace {
using ju::Date; using civil::F;
const int64_t LO = civil::seconds(1000, 0, 1, 0, 0, 0), HI = civil::seconds(9990, 0, 1, 0, 0, 0);
struct D { std::unique_ptr<Date> d; int64_t t; };       // the object and the second it stands for
std::string say(int64_t t, const civil::Zone &z, int form) {
    F f = civil::fields(t + (form == 1 ? 0 : civil::offset(z, t))); char b[120];
    if (form == 0) snprintf(b, sizeof b, "%s %s %02d %02d:%02d:%02d %s %lld", civil::WD[f.wd], civil::MO[f.mon], f.d, f.h, f.mi, f.s, civil::abbreviation(z, t).c_str(), (long long) f.y);
    else if (form == 1) snprintf(b, sizeof b, "%02d %s %lld %02d:%02d:%02d GMT", f.d, civil::MO[f.mon], (long long) f.y, f.h, f.mi, f.s);
    else snprintf(b, sizeof b, "%s %02d, %lld %02d:%02d:%02d %s", civil::MO[f.mon], f.d, (long long) f.y, f.h % 12 ? f.h % 12 : 12, f.mi, f.s, f.h < 12 ? "AM" : "PM");
    return b;
}
void verify(const Date &d, int64_t t, const civil::Zone &z, const std::string &who) {
    F f = civil::fields(t + civil::offset(z, t));
    CHECK_EQ((int64_t) d.getTime(), t * 1000, who << " time");
    CHECK_EQ((int64_t) d.getYear(), f.y - 1900, who << " year"); CHECK_EQ(d.getMonth(), f.mon, who << " month"); CHECK_EQ(d.getDate(), f.d, who << " day of month"); CHECK_EQ(d.getDay(), f.wd, who << " weekday");
    CHECK_EQ(d.getHours(), f.h, who << " hours"); CHECK_EQ(d.getMinutes(), f.mi, who << " minutes"); CHECK_EQ(d.getSeconds(), f.s, who << " seconds");
    CHECK_EQ(d.getTimezoneOffset(), -civil::offset(z, t) / 60, who << " zone offset");
    CHECK_EQ(S(d.toString()), say(t, z, 0), who << " text"); CHECK_EQ(S(d.toGMTString()), say(t, z, 1), who << " GMT text"); CHECK_EQ(S(d.toLocaleString()), say(t, z, 2), who << " locale text");
}
// the C library applies summer time rules from 1970 on only
bool inScope(int64_t t, const civil::Zone &z) { return t >= (z.dst ? 86400 * 366 : LO) && t <= HI; }
int64_t clampT(int64_t t) { return t < LO ? LO + (LO - t) % 1000000 : t > HI ? HI - (t - HI) % 1000000 : t; }
int64_t instant0(Src &s, const civil::Zone &z) {
    switch (s.range(0, 5)) {
        case 0: return s.range(0, 400) * 10000000 - 2000000000;
        case 1: return s.range(0, 60) - 30;                                                                      // around the epoch
        case 2: return civil::seconds(s.range(1890, 2110), s.pick<int>({2, 0, 1, 11}), 1, 0, 0, 0) - s.range(0, 90000) + (s.flip() ? 45000 : 0) - (s.flip() ? z.off : 0);   // around year ends and leap days
        case 3: return s.range(-4000000000LL, 8000000000LL);
        case 4: return (civil::nthSunday(s.range(1975, 2035), s.flip() ? 2 : 10, s.flip() ? 1 : 2)) * 86400 + s.range(0, 100000);            // around clock changes
        default: return clampT(s.range(LO, HI));
    }
}
int64_t instant(Src &s, const civil::Zone &z) { int64_t t = instant0(s, z); if (!inScope(t, z)) { t = t < 0 ? -t : t; if (!inScope(t, z)) t = 1000000000; } return t; }
void run(Src &s) {
    const civil::Zone &z = s.chance(1, 3) ? s.pick(civil::zones()) : civil::zones()[0]; civil::InZone in(z.tz); TRACE("zone " << z.tz);
    std::vector<D> v; int changes = 0;
    auto settle = [&](D &x, int64_t local, const std::string &who, bool loose) {         // a local time names one instant, or two around a clock change
        if (!inScope(local - 100000, z) || !inScope(local + 100000, z)) { x.t = 1000000000; x.d->setTime(1000000000000L); return; }
        std::vector<int64_t> c = civil::instants(z, local); if (loose && z.dst) { c.push_back(c[0] - 3600); c.push_back(c[0] + 3600); } int64_t got = x.d->getTime(); x.t = c[0]; if (c.size() > 1) { LABEL("repeated or skipped local hour"); for (int64_t t : c) if (t * 1000 == got) x.t = t; }
        verify(*x.d, x.t, z, who);
    };
    do {
        size_t n = v.size(); int op = n == 0 ? 0 : (int) s.weighted({6, 4, 12, 4, 3, 1});
        if (op == 0) {
            D x; x.t = 0;
            if (s.chance(1, 3)) { int64_t ms = instant(s, z) * 1000; if (s.chance(1, 3)) ms += s.range(0, 999); TRACE("#" << n << " = Date(" << ms << ")"); x.d.reset(new Date((long) ms)); x.t = civil::fdiv(ms, 1000); if (ms < 0 && ms % 1000) { x.t = x.d->getTime() / 1000; CHECK(x.t == ms / 1000 || x.t == civil::fdiv(ms, 1000), "Date(" << ms << ") stands for second " << x.t); } verify(*x.d, x.t, z, "new"); }
            else if (s.chance(1, 12)) { TRACE("#" << n << " = Date()"); int64_t a = time(nullptr); x.d.reset(new Date()); int64_t b = time(nullptr); x.t = x.d->getTime() / 1000; CHECK(x.t >= a && x.t <= b, "Date() is " << x.t << ", the clock said " << a); verify(*x.d, x.t, z, "now"); }
            else {
                F f = civil::fields(instant(s, z)); int kind = (int) s.range(0, 2); int64_t y = f.y - 1900, mo = f.mon, d = f.d, h = f.h, mi = f.mi, sec = f.s;
                bool odd = s.chance(1, 4); if (odd) { LABEL("out-of-range fields"); mo += s.range(-30, 30); d += s.range(-400, 400); h += s.range(-50, 50); mi += s.range(-200, 200); sec += s.range(-4000, 4000); }
                if (kind < 1) h = mi = 0; if (kind < 2) sec = 0;
                TRACE("#" << n << " = Date(" << y << "," << mo << "," << d << "," << h << "," << mi << "," << sec << ") kind " << kind);
                x.d.reset(kind == 0 ? new Date((int) y, (int) mo, (int) d) : kind == 1 ? new Date((int) y, (int) mo, (int) d, (int) h, (int) mi) : new Date((int) y, (int) mo, (int) d, (int) h, (int) mi, (int) sec));
                int64_t l = civil::seconds(y + 1900, mo, d, h, mi, sec); settle(x, l, "new", odd);
                CHECK_EQ((int64_t) Date::UTC((int) y, (int) mo, (int) d, (int) h, (int) mi, (int) sec), l * 1000, "UTC");
            }
            v.push_back(std::move(x));
        } else if (op == 1) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1);
            if (s.flip() && n > 1) { size_t j = (size_t) s.range(0, (int64_t) n - 1); TRACE("#" << i << " = #" << j); *v[i].d = *v[j].d; v[i].t = v[j].t; ++changes; }
            else { TRACE("#" << n << " = copy of #" << i); D x; x.t = v[i].t; x.d.reset(s.flip() ? new Date(*v[i].d) : new Date(v[i].d->clone())); v.push_back(std::move(x)); }
        } else if (op == 2) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1); D &x = v[i]; int64_t l = x.t + civil::offset(z, x.t); F f = civil::fields(l); int which = (int) s.range(0, 6); int64_t a; bool far = s.chance(1, 4); ++changes;
            switch (which) {
                case 0: a = s.range(-850, 2000); if (s.flip()) a = s.range(60, 140); TRACE("#" << i << ".setYear(" << a << ")"); x.d->setYear((int) a); f.y = a + 1900; break;
                case 1: a = far ? s.range(-100, 100) : s.range(0, 11); TRACE("#" << i << ".setMonth(" << a << ")"); x.d->setMonth((int) a); l = civil::seconds(f.y, a, f.d, f.h, f.mi, f.s); break;
                case 2: a = far ? s.range(-1000, 1000) : s.range(1, 31); TRACE("#" << i << ".setDate(" << a << ")"); x.d->setDate((int) a); l = civil::seconds(f.y, f.mon, a, f.h, f.mi, f.s); break;
                case 3: a = far ? s.range(-1000, 1000) : s.range(0, 23); TRACE("#" << i << ".setHours(" << a << ")"); x.d->setHours((int) a); l = civil::seconds(f.y, f.mon, f.d, a, f.mi, f.s); break;
                case 4: a = far ? s.range(-30000, 30000) : s.range(0, 59); TRACE("#" << i << ".setMinutes(" << a << ")"); x.d->setMinutes((int) a); l = civil::seconds(f.y, f.mon, f.d, f.h, a, f.s); break;
                case 5: a = far ? s.range(-2000000, 2000000) : s.range(0, 59); TRACE("#" << i << ".setSeconds(" << a << ")"); x.d->setSeconds((int) a); l = civil::seconds(f.y, f.mon, f.d, f.h, f.mi, a); break;
                default: a = instant(s, z) * 1000; if (s.chance(1, 3)) a += s.pick<int>({999, 1, 500, 998, 501, 100}); TRACE("#" << i << ".setTime(" << a << ")"); x.d->setTime((long) a); x.t = civil::fdiv(a, 1000);
                         if (a < 0 && a % 1000) { x.t = x.d->getTime() / 1000; CHECK(x.t == a / 1000 || x.t == civil::fdiv(a, 1000), "setTime(" << a << ") stands for second " << x.t); }
            }
            if (which == 0) l = civil::seconds(f.y, f.mon, f.d, f.h, f.mi, f.s);
            if (which < 6) { if (far) LABEL("setter with out-of-range value"); settle(x, l, "#" + std::to_string(i) + " after the setter", far); }
        } else if (op == 3) {
            size_t i = (size_t) s.range(0, (int64_t) n - 1), j = (size_t) s.range(0, (int64_t) n - 1); Date &a = *v[i].d, &b = *v[j].d; int64_t x = v[i].t, y = v[j].t; TRACE("compare #" << i << " #" << j);
            CHECK_EQ(a.compareTo(b), x < y ? -1 : x > y ? 1 : 0, "compareTo"); CHECK_EQ((bool) a.before(b), x < y, "before"); CHECK_EQ((bool) a.after(b), x > y, "after"); CHECK_EQ((bool) a.equals(b), x == y, "equals");
            CHECK_EQ((bool) (a == b), x == y, "=="); CHECK_EQ((bool) (a != b), x != y, "!="); const jl::Object &o = b; CHECK_EQ((bool) a.equals(o), x == y, "equals through Object"); CHECK_EQ((bool) (o == a), x == y, "== through Object"); jl::Object other; CHECK(!a.equals(other) && !(a == other), "equal to a plain object");
            if (x == y && i != j) LABEL("two dates of one instant");
        } else if (op == 4) { if (n > 1) { size_t i = (size_t) s.range(0, (int64_t) n - 1); TRACE("#" << i << " dropped"); v.erase(v.begin() + (long) i); } }
        else { size_t i = (size_t) s.range(0, (int64_t) n - 1); TRACE("#" << i << " = itself"); Date &r = *v[i].d; *v[i].d = r; }
        if (v.size() > 5) v.erase(v.begin());
        for (size_t i = 0; i < v.size(); ++i) verify(*v[i].d, v[i].t, z, "#" + std::to_string(i));
    } while (s.more());
    if (changes && v.size() > 1) markNontrivial();
    if (z.dst) LABEL("zone with summer time");
    CHECK(std::string(getenv("TZ")) == z.tz, "process zone changed");
}
}
PROPERTY(X06, run, 220, "a history that changes a date while another is live")
