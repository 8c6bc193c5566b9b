// X07: texts rendered from known instants are parsed back; formatting is compared with a reference calendar
#include "jv.hpp"
#include "civil.hpp"
#include <algorithm>
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Util/TimeZone/TimeZone.hpp"
namespace {
using ju::Date; using civil::F; using Java::Text::SimpleDateFormat; using Java::Util::TimeZone;
std::string cased(Src &s, std::string w) { int k = (int) s.range(0, 3); for (auto &c : w) if (k == 1 || (k == 3 && s.flip())) c = (char) std::toupper((unsigned char) c); else if (k == 2) c = (char) std::tolower((unsigned char) c); return w; }
std::string word(Src &s, const char *full) { std::string w = full; if (s.flip() && w.size() > 3) w = w.substr(0, (size_t) s.range(3, (int64_t) w.size())); return cased(s, w); }
std::string num(Src &s, int64_t v, int wide) { char b[32]; if (s.flip()) snprintf(b, sizeof b, "%lld", (long long) v); else snprintf(b, sizeof b, "%0*lld", wide, (long long) v); return b; }
std::string gap(Src &s) { std::string g; do g += s.pick<const char *>({" ", ", ", "  ", "\t", " , ", " (x) ", " (Jan 1 1999) ", " () ", "\n", "(x) ", " (x)", "(a)\t(b, 2000)"}); while (s.chance(1, 8)); return g; }
struct Z { const char *name; int minutesWest; };
const Z NAMES[] = {{"GMT", 0}, {"UT", 0}, {"UTC", 0}, {"EST", 300}, {"EDT", 240}, {"CST", 360}, {"CDT", 300}, {"MST", 420}, {"MDT", 360}, {"PST", 480}, {"PDT", 420}};
const char *TABLE[] = {"am", "pm", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december", "gmt", "ut", "utc", "est", "edt", "cst", "cdt", "mst", "mdt", "pst", "pdt"};
bool isPrefix(const std::string &w) { for (const char *t : TABLE) { std::string x = t; if (w.size() <= x.size() && x.compare(0, w.size(), w) == 0) return true; } return false; }
int64_t when(Src &s, bool dst) {
    int64_t y0 = dst ? 1972 : 1901;
    switch (s.range(0, 3)) {
        case 0: return civil::seconds(s.range(y0, 2120), s.range(0, 11), s.range(1, 28), s.range(0, 23), s.range(0, 59), s.range(0, 59));
        case 1: return civil::seconds(s.range(y0, 2120), s.pick<int>({2, 0, 1, 11, 6}), 1, 0, 0, 0) + s.range(0, 172800) - 86400;
        case 2: return civil::seconds(dst ? s.range(1990, 2100) : s.range(103, 9900), s.range(0, 11), s.range(1, 28), s.range(0, 23), s.range(0, 59), s.range(0, 59));
        default: return civil::seconds(s.range(1970, 2040), 0, 1, 0, 0, 0) + s.range(0, 31536000);
    }
}
struct Text { std::string t; std::vector<int64_t> want; std::vector<std::string> parts; };
Text render(Src &s, const civil::Zone &z, int64_t local) {
    Text r; F f = civil::fields(local); bool seconds = s.flip(), time = s.chance(3, 4), twelve = s.chance(1, 3); int shape = (int) s.range(0, 5);
    int64_t year = f.y; bool shortYear = s.chance(1, 5); std::string yt = num(s, year, 4);
    if (shortYear) { time_t now = ::time(nullptr); int64_t ny = civil::fields((int64_t) now + z.off).y; year = f.y % 100; int64_t start = ny - 80, full = start / 100 * 100 + year; if (full < start) full += 100; char b[8]; snprintf(b, sizeof b, s.flip() ? "%d" : "%02d", (int) year); yt = b; if (f.mon == 1 && f.d == 29 && !(full % 4 == 0 && (full % 100 || full % 400 == 0))) f.d = 28; year = full; f.wd = civil::fields(civil::seconds(full, f.mon, f.d, 0, 0, 0)).wd; LABEL("two-digit year"); if (z.dst && full < 1972) { yt = "2001"; year = 2001; if (f.mon == 1 && f.d == 29) f.d = 28; } }
    std::string tt; int h = f.h, sec = seconds ? f.s : 0;
    if (!time) { h = 0; f.mi = 0; sec = 0; }
    else { tt = num(s, twelve ? (h % 12 ? h % 12 : 12) : h, 2) + (s.chance(1, 10) ? " : " : ":") + num(s, f.mi, 2); if (seconds) tt += ":" + num(s, f.s, 2); if (twelve) tt += s.pick<const char *>({" ", "  ", ", "}) + cased(s, h < 12 ? "AM" : "PM"); }
    if (tt.find(" : ") != std::string::npos) tt.replace(tt.find(" : "), 3, ":");
    std::string wd = s.flip() ? word(s, civil::WDL[f.wd]) : "", mon = word(s, civil::MOL[f.mon]), day = num(s, f.d, 2);
    std::vector<std::string> p; bool yearInside = false;
    if (shape == 0) p = {num(s, f.mon + 1, 2) + "/" + day + "/" + yt};
    else if (shape == 1) { p = {day, mon, yt}; }
    else if (shape == 2) { p = {mon, day, yt}; }
    else if (shape == 3 && time && seconds) { p = {mon, day, tt, yt}; yearInside = true; }      // the toString order
    else if (shape == 4 && time && seconds) { p = {tt, mon, day, yt}; yearInside = true; }      // time first
    else if (shape == 5 && atoi(yt.c_str()) >= 70) { p = {yt, mon, day}; LABEL("year first"); }       // from 70 on a number can only be a year
    else p = {mon, day, yt};
    if (time && !yearInside) p.push_back(tt);
    int64_t t = civil::seconds(year, f.mon, f.d, h, f.mi, sec);
    int zoneKind = (int) s.range(0, 4); int west = 0; bool zoned = true;
    if (zoneKind == 0) { const Z n = s.pick(std::vector<Z>(NAMES, NAMES + 11)); size_t at = yearInside && s.flip() ? (size_t) s.range(1, (int64_t) p.size()) : p.size(); p.insert(p.begin() + (long) at, cased(s, n.name)); west = n.minutesWest; LABEL("zone name"); }
    else if (zoneKind < 3 && p.size() > 1 - (shape == 0)) {
        int hh = (int) s.range(0, 14), mm = s.flip() ? 0 : s.pick<int>({30, 45, 15}); bool east = s.flip(); char b[16];
        if (!mm && s.flip() && hh < 24) snprintf(b, sizeof b, "%c%d", east ? '+' : '-', hh); else snprintf(b, sizeof b, "%c%02d%02d", east ? '+' : '-', hh, mm);
        if (b[1] == '0' && b[2] == '0' && b[3] && mm) hh = 0;                   // "+0045" reads as 45 hours' worth? kept out below
        if (hh == 0 && mm) { zoned = false; }
        else { p.push_back(s.flip() ? b : std::string(cased(s, s.pick<const char *>({"GMT", "UTC", "UT"}))) + (s.flip() ? "" : " ") + b); west = (east ? -1 : 1) * (hh * 60 + mm); LABEL("numeric zone"); }
    } else zoned = false;
    if (!wd.empty()) p.insert(p.begin(), wd);
    for (size_t i = 0; i < p.size(); ++i) { if (i) r.t += gap(s); r.t += p[i]; }
    if (s.chance(1, 5)) r.t = gap(s) + r.t; if (s.chance(1, 5)) r.t += gap(s);
    if (s.chance(1, 8)) { r.t = s.pick<const char *>({"(x)", "(Sat)", "()", "(12:30 pm)"}) + r.t; LABEL("comment at the start"); } if (s.chance(1, 8)) r.t += s.pick<const char *>({"(x)", "(UTC)", "()", "(1999)"});
    if (zoned) r.want.push_back(t + west * 60); else r.want = civil::instants(z, t);
    r.parts = p; return r;
}
void parseChecks(Src &s, const civil::Zone &z) {
    int64_t at = when(s, z.dst); Text r = render(s, z, at);
    TRACE("parse " << show(r.t)); int64_t got = 0; bool threw = throwsAny([&] { got = Date::parse(J(r.t)); });
    CHECK(!threw, "rejected " << show(r.t));
    CHECK(got % 1000 == 0 && std::count(r.want.begin(), r.want.end(), got / 1000), show(r.t) << " parsed as " << got << ", it stands for " << r.want[0] * 1000);
    Date d(J(r.t)); CHECK_EQ((int64_t) d.getTime(), got, "Date(text)"); markNontrivial();
    if (s.chance(1, 4)) { Date e((long) (at * 1000)); F f = civil::fields(at); if (f.y > 1971) { std::string t = S(e.toGMTString()); TRACE("parse " << show(t)); CHECK_EQ((int64_t) Date::parse(J(t)), at * 1000, "parsing " << show(t)); } }
    // damaged text
    std::string bad = r.t, why; F f = civil::fields(at);
    switch (s.range(0, 7)) {
        case 0: bad = s.pick<const char *>({"", " ", ",", "()", "(Jan 9 2014)", "\t \n", "/", "12", "2014", "Jan", "Jan 9", "1:45:30", "1/2", "9 2014", "Monday", "PM", "Jan 2014", "GMT"}); why = "no complete date"; break;
        case 1: { std::string w; for (int n = (int) s.range(2, 6); n > 0; --n) w += (char) ('a' + s.range(0, 25)); if (isPrefix(w)) return; bad += " " + cased(s, w); why = "unknown word"; break; }
        case 2: bad += " 1999"; why = "second year"; break;
        case 3: bad += std::string(" ") + civil::MO[f.mon]; why = "second month"; break;
        case 4: bad += " 1:02:03:04"; why = "too many time parts"; break;
        case 5: bad += s.pick<const char *>({" *", " #", " !", "_", " ;", " =", " 1*", " 2x", " \"", " )", " @ "}); why = "foreign character"; break;
        case 6: bad = std::string("Jan 9 2014 ") + (s.flip() ? "0" : std::to_string(s.range(13, 23))) + ":30 " + (s.flip() ? "AM" : "pm"); why = "hour beside am/pm"; break;
        default: { bad.clear(); size_t drop = (size_t) s.range(0, (int64_t) r.parts.size() - 1); std::vector<std::string> p = r.parts; p.erase(p.begin() + (long) drop); for (auto &x : p) bad += x + " "; break; }     // some part missing: only that it ends
    }
    TRACE("parse " << show(bad)); bool t2 = throwsAny([&] { got = Date::parse(J(bad)); });
    if (!why.empty()) { CHECK(t2, why << ": " << show(bad) << " accepted as " << got); LABEL("malformed"); }
    if (s.chance(1, 6)) { std::string junk = s.text(40, 2); for (auto &c : junk) if (s.chance(1, 3)) c = s.pick<char>({'1', '2', '9', '0', '/', ':', '+', '-', ',', ' ', '(', ')', 'J', 'a', 'n'}); TRACE("parse " << show(junk)); throwsAny([&] { Date::parse(J(junk)); }); }
}
struct FZone { std::string id; civil::Zone z; };
const std::vector<FZone> &formatZones() {
    static std::vector<FZone> v;
    if (v.empty()) { for (auto &z : civil::zones()) v.push_back({z.tz, z}); v.push_back({"Asia/Singapore", {"", 28800, "+08", false}}); v.push_back({"Asia/Ho_Chi_Minh", {"", 25200, "+07", false}}); v.push_back({"Asia/Tokyo", {"", 32400, "JST", false}}); v.push_back({"UTC", {"", 0, "UTC", false}}); }
    return v;
}
void pattern(Src &s, int64_t t, const civil::Zone &z, std::string &pat, std::string &want) {
    int off = civil::offset(z, t); F f = civil::fields(t + off); char b[80]; int64_t yday = (civil::days(f.y, f.mon, f.d) - civil::days(f.y, 0, 1)) + 1; int n = (int) s.range(0, s.chance(1, 6) ? 40 : 8);
    for (int i = 0; i < n; ++i) {
        if (s.chance(1, 3)) { std::string l = s.text(s.chance(1, 5) ? 60 : 5, 2); l.erase(std::remove(l.begin(), l.end(), '%'), l.end()); pat += l; want += l; continue; }
        char c = s.pick<char>({'Y', 'm', 'd', 'H', 'M', 'S', 'T', 'z', 'Z', 'a', 'A', 'b', 'B', 'j', 'y', 'e', 'I', 'p', '%', 'F', 'D', 'R', 'n', 's'}); pat += '%'; pat += c; b[0] = 0;
        switch (c) {
            case 'Y': snprintf(b, sizeof b, "%lld", (long long) f.y); break; case 'm': snprintf(b, sizeof b, "%02d", f.mon + 1); break; case 'd': snprintf(b, sizeof b, "%02d", f.d); break; case 'H': snprintf(b, sizeof b, "%02d", f.h); break;
            case 'M': snprintf(b, sizeof b, "%02d", f.mi); break; case 'S': snprintf(b, sizeof b, "%02d", f.s); break; case 'T': snprintf(b, sizeof b, "%02d:%02d:%02d", f.h, f.mi, f.s); break;
            case 'z': snprintf(b, sizeof b, "%c%02d%02d", off < 0 ? '-' : '+', std::abs(off) / 3600, std::abs(off) / 60 % 60); break; case 'Z': snprintf(b, sizeof b, "%s", civil::abbreviation(z, t).c_str()); break;
            case 'a': snprintf(b, sizeof b, "%s", civil::WD[f.wd]); break; case 'A': snprintf(b, sizeof b, "%s", civil::WDL[f.wd]); break; case 'b': snprintf(b, sizeof b, "%s", civil::MO[f.mon]); break; case 'B': snprintf(b, sizeof b, "%s", civil::MOL[f.mon]); break;
            case 'j': snprintf(b, sizeof b, "%03d", (int) yday); break; case 'y': snprintf(b, sizeof b, "%02d", (int) (f.y % 100)); break; case 'e': snprintf(b, sizeof b, "%2d", f.d); break; case 'I': snprintf(b, sizeof b, "%02d", f.h % 12 ? f.h % 12 : 12); break;
            case 'p': snprintf(b, sizeof b, "%s", f.h < 12 ? "AM" : "PM"); break; case '%': snprintf(b, sizeof b, "%%"); break; case 'F': snprintf(b, sizeof b, "%lld-%02d-%02d", (long long) f.y, f.mon + 1, f.d); break;
            case 'D': snprintf(b, sizeof b, "%02d/%02d/%02d", f.mon + 1, f.d, (int) (f.y % 100)); break; case 'R': snprintf(b, sizeof b, "%02d:%02d", f.h, f.mi); break; case 'n': snprintf(b, sizeof b, "\n"); break; default: snprintf(b, sizeof b, "%lld", (long long) t);
        }
        want += b;
    }
}
std::string trimmed(const std::string &t) { size_t a = 0, b = t.size(); while (a < b && (unsigned char) t[a] <= ' ') ++a; while (b > a && (unsigned char) t[b - 1] <= ' ') --b; return t.substr(a, b - a); }
void formatChecks(Src &s, const civil::Zone &process) {
    for (int calls = (int) s.range(1, 4); calls > 0; --calls) {
        const FZone &fz = s.pick(formatZones()); int64_t t = when(s, true); if (!fz.z.tz[0] || fz.z.dst || process.dst) t = civil::seconds(1984, 0, 1, 0, 0, 0) + s.range(0, 1800000000LL); else if (s.flip()) t = when(s, false);
        std::string pat, want; bool dflt = s.chance(1, 6); pattern(s, t, dflt ? civil::zones()[0] : fz.z, pat, want);
        TRACE("format " << t << " as " << show(pat) << " in " << (dflt ? "the default zone" : fz.id.c_str()));
        SimpleDateFormat f = s.flip() ? SimpleDateFormat(J(pat)) : SimpleDateFormat(pat.c_str()); if (!dflt) f.setTimeZone(TimeZone::getTimeZone(J(fz.id)));
        if (s.flip()) { TimeZone::getTimeZone("EST5"); LABEL("another zone asked for in between"); }
        Date d((long) (t * 1000)); std::string got; bool none = s.chance(1, 12);
        if (none) { unsetenv("TZ"); tzset(); TRACE("no process zone set"); }
        for (int k = (int) s.range(1, 2); k > 0; --k) { got = S(f.format(d)); CHECK_EQ(trimmed(got), trimmed(want), "formatted text"); }
        CHECK_EQ((int64_t) d.getTime(), t * 1000, "formatted date itself"); if (want.size() > 79) LABEL("long result");
        if (none) { CHECK(!getenv("TZ"), "a process zone is set after formatting, there was none: " << getenv("TZ")); civil::enter(process.tz); LABEL("no process zone"); continue; }
        const char *tz = getenv("TZ"); CHECK(tz && std::string(tz) == process.tz, "process zone is " << (tz ? tz : "unset") << " after formatting, it was " << process.tz);
        time_t x = 1555330155; tm m; localtime_r(&x, &m); CHECK_EQ((int64_t) m.tm_gmtoff, (int64_t) civil::offset(process, x), "local time of the process after formatting");
        Date e((long) (t * 1000)); F lf = civil::fields(t + civil::offset(process, t)); CHECK_EQ(e.getHours(), lf.h, "hours of a date made after formatting"); CHECK_EQ(e.getDate(), lf.d, "day of a date made after formatting");
    }
}
void run(Src &s) {
    const civil::Zone &z = s.chance(1, 3) ? s.pick(civil::zones()) : civil::zones()[0]; civil::InZone in(z.tz); TRACE("process zone " << z.tz);
    if (s.chance(2, 3)) parseChecks(s, z); else { formatChecks(s, z); markNontrivial(); LABEL("formatting"); }
}
}
PROPERTY(X07, run, 200, "a text was parsed to a known instant, or dates were formatted")
