// reference calendar: proleptic Gregorian, and a few process zones given as POSIX TZ text
#ifndef VERIF_CIVIL_HPP
#define VERIF_CIVIL_HPP
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <string>
#include <vector>
namespace civil {
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; }
inline int64_t days(int64_t y, int64_t m /*0..11*/, int64_t d /*1..*/) {
    m += 2; int64_t yy = m < 4 ? y - 1 : y; int64_t mm = m - 1;            // March based
    if (mm < 3) mm += 12; mm -= 3;
    int64_t era = fdiv(yy, 400), yoe = yy - era * 400, doy = (153 * mm + 2) / 5, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468 + d - 1;
}
struct F { int64_t y; int mon, d, h, mi, s, wd; };
inline F fields(int64_t t) {          // of a count of seconds since the epoch, no zone
    int64_t z = fdiv(t, 86400), r = t - z * 86400; F f; f.h = (int) (r / 3600); f.mi = (int) (r % 3600 / 60); f.s = (int) (r % 60); f.wd = (int) (((z + 4) % 7 + 7) % 7);
    z += 719468; int64_t era = fdiv(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    f.d = (int) (doy - (153 * mp + 2) / 5 + 1); f.mon = (int) (mp < 10 ? mp + 2 : mp - 10); f.y = yoe + era * 400 + (f.mon < 2 ? 1 : 0); return f;
}
inline int64_t seconds(int64_t y, int64_t mon, int64_t d, int64_t h, int64_t mi, int64_t s) { y += fdiv(mon, 12); mon -= fdiv(mon, 12) * 12; return days(y, mon, 1) * 86400 + (d - 1) * 86400 + h * 3600 + mi * 60 + s; }
struct Zone { const char *tz; int off; const char *name; bool dst; };   // off: seconds east of UTC (standard time)
inline const std::vector<Zone> &zones() { static const std::vector<Zone> z = {{"UTC0", 0, "UTC", false}, {"ICT-7", 25200, "ICT", false}, {"EST5", -18000, "EST", false}, {"IST-5:30", 19800, "IST", false}, {"NST3:30", -12600, "NST", false}, {"LINT-14", 50400, "LINT", false}, {"EST5EDT,M3.2.0,M11.1.0", -18000, "EST", true}}; return z; }
inline int64_t nthSunday(int64_t y, int mon, int n) { int64_t d = days(y, mon, 1); int wd = (int) (((d + 4) % 7 + 7) % 7); return d + (7 - wd) % 7 + 7 * (n - 1); }
inline bool summer(const Zone &z, int64_t t) { if (!z.dst) return false; int64_t y = fields(t + z.off).y; return t >= nthSunday(y, 2, 2) * 86400 + 7200 - z.off && t < nthSunday(y, 10, 1) * 86400 + 3600 - z.off; }
inline int offset(const Zone &z, int64_t t) { return z.off + (summer(z, t) ? 3600 : 0); }
inline std::string abbreviation(const Zone &z, int64_t t) { return summer(z, t) ? "EDT" : z.name; }
// all instants whose local clock shows 'local' (two when it is repeated; for a skipped hour both readings)
inline std::vector<int64_t> instants(const Zone &z, int64_t local) {
    std::vector<int64_t> r; int64_t a = local - z.off, b = a - 3600;
    if (!z.dst) { r.push_back(a); return r; }
    if (!summer(z, a)) r.push_back(a); if (summer(z, b)) r.push_back(b);
    if (r.empty()) { r.push_back(a); r.push_back(b); }
    return r;
}
inline void enter(const char *tz) { setenv("TZ", tz, 1); tzset(); }
struct InZone { explicit InZone(const char *tz) { enter(tz); } ~InZone() { enter("UTC"); } };
static const char *const WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *const WDL[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char *const MO[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char *const MOL[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
}
#endif
