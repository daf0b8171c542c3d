// Calendar arithmetic by counting: shares no formulas with the code
#ifndef MC_CAL_H
#define MC_CAL_H
#include <arki/core/time.h>
#include <string>

namespace mc {
namespace cal {
typedef long long ll;
using arki::core::Time;

inline bool leap(ll y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline ll dim(ll y, ll m)
{
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}
/// Days since 1970-01-01
inline ll days(ll y, ll m, ll d)
{
    // Days before year y in the proleptic Gregorian calendar
    auto before = [](ll y) { ll p = y - 1; return 365 * p + p / 4 - p / 100 + p / 400; };
    ll r        = before(y) - before(1970);
    for (ll i = 1; i < m; ++i)
        r += dim(y, i);
    return r + d - 1;
}
inline ll secs(const Time& t) { return days(t.ye, t.mo, t.da) * 86400 + t.ho * 3600 + t.mi * 60 + t.se; }
inline ll secs(ll y, ll m, ll d, ll ho = 0, ll mi = 0, ll se = 0) { return days(y, m, d) * 86400 + ho * 3600 + mi * 60 + se; }
/// Inverse of secs, from a known day nearby
inline Time from_secs(ll s)
{
    ll d = s / 86400, r = s % 86400;
    if (r < 0)
        r += 86400, --d;
    ll y = 1970 + d / 366;
    while (days(y, 1, 1) > d)
        --y;
    while (days(y + 1, 1, 1) <= d)
        ++y;
    ll m = 1;
    while (m < 12 && days(y, m + 1, 1) <= d)
        ++m;
    return Time(y, m, d - days(y, m, 1) + 1, r / 3600, r / 60 % 60, r % 60);
}
} // namespace cal
} // namespace mc
#endif
