// Time arithmetic, intervals, and segment steps, on complete grids of values
// and on all small sets of files.
#include "cal.h"
#include "mc.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/core/time.h>
#include <arki/dataset/step.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/runtime.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <optional>

using namespace mc;
using arki::core::Interval;
using arki::core::Time;
namespace fs = std::filesystem;

namespace {

using namespace mc::cal;
std::string str(const Time& t) { return cat(t.ye, "-", t.mo, "-", t.da, " ", t.ho, ":", t.mi, ":", t.se); }
void eq(const std::string& what, const Time& got, const Time& exp)
{
    if (got.ye != exp.ye || got.mo != exp.mo || got.da != exp.da || got.ho != exp.ho || got.mi != exp.mi || got.se != exp.se)
        throw Fail(what.substr(0, what.find(' ')), what + ": got " + str(got) + ", expected " + str(exp));
}
template <typename A, typename B> void same(const std::string& what, const A& got, const B& exp)
{
    if (!(got == exp))
        throw Fail(what.substr(0, what.find(' ')), cat(what, ": got ", got, ", expected ", exp));
}

void one_time(Ctx& c, const Time& t)
{
    ll s = secs(t);
    auto n = str(t);
    eq("next_instant of " + n, t.next_instant(), from_secs(s + 1));
    if (s > -62135596800LL)
        eq("prev_instant of " + n, t.prev_instant(), from_secs(s - 1));
    eq("start_of_month of " + n, t.start_of_month(), Time(t.ye, t.mo, 1));
    eq("start_of_next_month of " + n, t.start_of_next_month(), from_secs(days(t.ye, t.mo, 1) * 86400 + dim(t.ye, t.mo) * 86400));
    eq("end_of_month of " + n, t.end_of_month(), from_secs(days(t.ye, t.mo, 1) * 86400 + dim(t.ye, t.mo) * 86400 - 1));
    if (t.ye > 1)
    {
        auto p = from_secs(days(t.ye, t.mo, 1) * 86400 - 1);
        eq("start_of_previous_month of " + n, t.start_of_previous_month(), Time(p.ye, p.mo, 1));
    }
    same("days_in_month of " + n, Time::days_in_month(t.ye, t.mo), dim(t.ye, t.mo));
    same("days_in_year of " + n, Time::days_in_year(t.ye), leap(t.ye) ? 366 : 365);
    same("is_start_of_month of " + n, t.is_start_of_month(), s == days(t.ye, t.mo, 1) * 86400);
    if (t.ye >= 1970)
        same("to_unix of " + n, (ll)t.to_unix(), s);
    else
        same("to_unix of " + n, (ll)t.to_unix(), 0);
    char buf[64];
    if (t.ye <= 9999)
    {
        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02dZ", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        same("to_iso8601 of " + n, t.to_iso8601(), std::string(buf));
        eq("create_iso8601 of " + t.to_iso8601(), Time::create_iso8601(t.to_iso8601()), t);
        eq("create_iso8601 of " + t.to_iso8601(' '), Time::create_iso8601(t.to_iso8601(' ')), t);
        eq("create_sql of " + t.to_sql(), Time::create_sql(t.to_sql()), t);
    }
    std::vector<uint8_t> enc;
    arki::core::BinaryEncoder e(enc);
    t.encodeWithoutEnvelope(e);
    same("encoded size of " + n, enc.size(), 5u);
    uint8_t b[5];
    t.encode_binary(b);
    if (memcmp(b, enc.data(), 5))
        throw Fail("encode_binary", "encode_binary differs from encodeWithoutEnvelope for " + n);
    arki::core::BinaryDecoder d(enc);
    eq("decode of " + n, Time::decode(d), t);
    Time x(t);
    x.normalise();
    eq("normalise of " + n, x, t);
    c.eval();
}

void c16()
{
    std::vector<std::string> tasks;
    int y0 = args.thorough ? 1 : 1890, y1 = args.thorough ? 3000 : 2110;
    for (int y = y0; y <= y1; y += args.thorough ? 1 : 5)
        tasks.push_back(cat("days|", y, "|", args.thorough ? 1 : 5));
    for (auto y : {1, 4, 100, 400, 999, 1000, 1583, 1600, 1700, 4000, 9999, 16383})
        tasks.push_back(cat("days|", y, "|1"));
    for (auto d : {"1999-12-31", "2000-02-28", "2000-02-29", "2100-02-28", "2020-01-01", "2019-06-30"})
        tasks.push_back(cat("secs|", d));
    for (auto y : {1999, 2000, 2001, 2019, 2020, 2100, 1900})
        for (int m = 1; m <= 12; ++m)
            tasks.push_back(cat("norm|", y, "|", m));
    for (int i = 0; i < 4; ++i)
        tasks.push_back(cat("bounds|", i));
    tasks.push_back("duration");
    tasks.push_back("order");
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
            tasks.push_back(cat("interval|", i, "|", j));
    tasks.push_back("months");
    tasks.push_back("generate");
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f = mc::split(task, '|');
        auto guard = [&](std::function<void()> f) {
            try { f(); } catch (Fail& e) { c.fail(e.key, e.what()); }
        };
        if (f[0] == "days")
        {
            int y = std::stoi(f[1]), n = std::stoi(f[2]);
            for (int ye = y; ye < y + n; ++ye)
                for (int mo = 1; mo <= 12; ++mo)
                    for (int da = 1; da <= dim(ye, mo); ++da)
                        for (auto hms : {0, 1, 12 * 3600 + 34 * 60 + 56, 59, 60, 3599, 3600, 23 * 3600 + 59 * 60 + 59})
                        {
                            Time t(ye, mo, da, hms / 3600, hms / 60 % 60, hms % 60);
                            c.current(str(t));
                            guard([&] { one_time(c, t); });
                            c.distinct_hash(secs(t));
                        }
            c.states(n * 365 * 8);
        }
        else if (f[0] == "secs")
        {
            auto p = mc::split(f[1], '-');
            for (int s = 0; s < 86400; ++s)
            {
                Time t(std::stoi(p[0]), std::stoi(p[1]), std::stoi(p[2]), s / 3600, s / 60 % 60, s % 60);
                c.current(str(t));
                guard([&] { one_time(c, t); });
            }
            c.states(86400);
        }
        else if (f[0] == "norm")
        {
            int ye = std::stoi(f[1]), mo0 = std::stoi(f[2]);
            // Values out of range in each field, and in all pairs of fields
            std::vector<int> dmo{-25, -12, -11, -1, 0, 1, 11, 12, 25}, dda{-800, -400, -366, -365, -31, -1, 0, 1, 27, 28, 29, 30, 31, 32, 59, 365, 366, 400, 800},
                dho{-49, -48, -25, -24, -1, 0, 23, 24, 25, 48, 49}, dmi{-1441, -1440, -61, -60, -1, 0, 59, 60, 61, 1440}, dse{-86401, -86400, -3600, -61, -60, -1, 0, 1, 59, 60, 61, 3600, 86400};
            for (auto a : dmo)
                for (auto b : dda)
                    for (auto h : dho)
                        for (auto m : dmi)
                            for (auto s : dse)
                            {
                                if (!args.thorough && (a != 0) + (h != 0) + (m != 0) + (s != 0) > 2)
                                    continue;
                                Time t(ye, mo0 + a, 1 + b, h, m, s);
                                // Oracle: months first, then seconds
                                ll tm = (ll)ye * 12 + (mo0 + a - 1);
                                ll base = days(tm / 12, tm % 12 + 1, 1);
                                ll exp = (base + b) * 86400 + (ll)h * 3600 + (ll)m * 60 + s;
                                c.current("normalise " + str(t));
                                auto n = str(t);
                                t.normalise();
                                guard([&] { eq("normalise of " + n, t, from_secs(exp)); });
                                c.eval();
                            }
            c.states();
        }
        else if (f[0] == "bounds")
        {
            int q = std::stoi(f[1]);
            for (int ye : {1999, 2000, 2019, 2020})
                for (int mo = -1; mo <= 12; ++mo)
                    for (int da = -1; da <= 31; ++da)
                        for (int ho = -1; ho <= 24; ++ho)
                        {
                            if (mo == 0 || da == 0 || ((mo + da + ho + 3) % 4) != q)
                                continue;
                            if (mo == -1 && (da != -1 || ho != -1))
                                continue;
                            if (da == -1 && ho != -1)
                                continue;
                            if (mo != -1 && da > dim(ye, mo))
                                continue;
                            for (int mi : {-1, 0, 1, 30, 59})
                                for (int se : {-1, 0, 1, 59})
                                {
                                    if (ho == -1 && (mi != -1 || se != -1))
                                        continue;
                                    if (mi == -1 && se != -1)
                                        continue;
                                    if (ho == 24 && (mi > 0 || se > 0))
                                        continue;
                                    auto lo = Time::create_lowerbound(ye, mo, da, ho, mi, se);
                                    auto hi = Time::create_upperbound(ye, mo, da, ho, mi, se);
                                    ll b    = days(ye, mo == -1 ? 1 : mo, da == -1 ? 1 : da) * 86400 + (ho == -1 ? 0 : ho) * 3600 + (mi == -1 ? 0 : mi) * 60 + (se == -1 ? 0 : se);
                                    ll e;
                                    if (mo == -1)
                                        e = days(ye + 1, 1, 1) * 86400;
                                    else if (da == -1)
                                        e = b + dim(ye, mo) * 86400;
                                    else
                                        e = b + (ho == -1 ? 86400 : mi == -1 ? 3600 : se == -1 ? 60 : 1);
                                    auto n = cat(ye, "-", mo, "-", da, " ", ho, ":", mi, ":", se);
                                    guard([&] {
                                        Time l(lo);
                                        l.normalise();
                                        eq("lowerbound of " + n, l, from_secs(b));
                                        eq("upperbound of " + n, hi, from_secs(e - 1));
                                    });
                                    c.eval();
                                }
                        }
            c.states();
        }
        else if (f[0] == "duration" || f[0] == "order")
        {
            std::vector<Time> ts;
            for (int ye : {1899, 1900, 1970, 1999, 2000, 2019, 2020, 2100})
                for (int mo : {1, 2, 3, 12})
                    for (int da : {1, 2, 28, (int)dim(ye, mo)})
                        for (int s : {0, 1, 43200, 86399})
                            ts.emplace_back(ye, mo, da, s / 3600, s / 60 % 60, s % 60);
            for (auto& a : ts)
                for (auto& b : ts)
                {
                    ll sa = secs(a), sb = secs(b);
                    guard([&] {
                        if (f[0] == "duration")
                        {
                            same(cat("duration from ", str(a), " to ", str(b)), Time::duration(a, b), sb - sa);
                            same(cat("duration of interval ", str(a), " to ", str(b)), Time::duration(Interval(a, b)), sb - sa);
                            return;
                        }
                        int cmp = a.compare(b);
                        same(cat("compare ", str(a), " ", str(b)), (cmp > 0) - (cmp < 0), (sa > sb) - (sa < sb));
                        same("== " + str(a) + " " + str(b), a == b, sa == sb);
                        same("!= " + str(a) + " " + str(b), a != b, sa != sb);
                        same("< " + str(a) + " " + str(b), a < b, sa < sb);
                        same("<= " + str(a) + " " + str(b), a <= b, sa <= sb);
                        same("> " + str(a) + " " + str(b), a > b, sa > sb);
                        same(">= " + str(a) + " " + str(b), a >= b, sa >= sb);
                        same("sql-order " + str(a) + " " + str(b), a.to_sql() < b.to_sql(), sa < sb);
                    });
                    c.eval();
                }
            c.states();
        }
        else if (f[0] == "interval")
        {
            // Intervals between these instants, 0 for open. Sets of the
            // instants and of what is in between
            const ll step   = 86400 * 20 + 12345;
            const ll origin = days(2019, 12, 1) * 86400;
            auto at         = [&](int i) { return i ? from_secs(origin + i * step) : Time(); };
            const int N     = 9;
            auto in = [&](int b, int e, int x2) { return (!b || x2 >= 2 * b) && (!e || x2 < 2 * e); }; // x2: twice a position
            int b1 = std::stoi(f[1]), e1 = std::stoi(f[2]);
            if (b1 && e1 && b1 >= e1)
                return;
            Interval a(at(b1), at(e1));
            for (int b2 = 0; b2 < N; ++b2)
                for (int e2 = 0; e2 < N; ++e2)
                {
                    if (b2 && e2 && b2 >= e2)
                        continue;
                    Interval b(at(b2), at(e2));
                    bool contains = true, inter = false;
                    for (int x = -1; x <= 2 * N + 1; ++x)
                    {
                        if (in(b2, e2, x) && !in(b1, e1, x))
                            contains = false;
                        if (in(b2, e2, x) && in(b1, e1, x))
                            inter = true;
                    }
                    auto n = a.to_string() + " with " + b.to_string();
                    c.current(n);
                    guard([&] {
                        same("contains " + n, a.contains(b), contains);
                        same("intersects " + n, a.intersects(b), inter);
                        same("unbounded " + n, b.is_unbounded(), !b2 && !e2);
                        Interval i(a);
                        bool r = i.intersect(b);
                        same("intersect " + n, r, inter);
                        if (r)
                            for (int x = 1; x <= 2 * N; ++x)
                            {
                                auto t = from_secs(origin + x * step / 2);
                                same(cat("intersect ", n, " at ", str(t)), i.contains(t), in(b1, e1, x) && in(b2, e2, x));
                            }
                        else if (i != a)
                            throw Fail("intersect", "intersect " + n + ": changed although it returned false");
                        Interval h(a);
                        h.extend(b);
                        eq("extend " + n + " begin", h.begin, !b1 || !b2 ? Time() : at(std::min(b1, b2)));
                        eq("extend " + n + " end", h.end, !e1 || !e2 ? Time() : at(std::max(e1, e2)));
                        bool ov = Time::range_overlaps(b1 ? &a.begin : nullptr, e1 ? &a.end : nullptr, b2 ? &b.begin : nullptr, e2 ? &b.end : nullptr);
                        same("range_overlaps " + n, ov, inter);
                        same("equal " + n, a == b, b1 == b2 && e1 == e2);
                        same("different " + n, a != b, b1 != b2 || e1 != e2);
                    });
                    c.eval();
                }
            for (int x = 1; x <= 2 * N; ++x)
                for (int d : {-1, 0, 1})
                {
                    ll s   = origin + x * step / 2 + d;
                    bool e = (!b1 || s >= origin + b1 * step) && (!e1 || s < origin + e1 * step);
                    guard([&] { same(cat("contains time ", a.to_string(), " ", str(from_secs(s))), a.contains(from_secs(s)), e); });
                }
            c.states();
            c.distinct(f[1] + "|" + f[2]);
        }
        else if (f[0] == "months")
        {
            for (int d1 = 0; d1 < 800; d1 += args.thorough ? 1 : 3)
                for (int len : {1, 3600, 86400, 86400 * 27, 86400 * 28, 86400 * 29, 86400 * 30, 86400 * 31, 86400 * 32, 86400 * 59, 86400 * 60, 86400 * 61, 86400 * 62, 86400 * 70, 86400 * 366})
                    for (int off : {0, 1, 86399})
                    {
                        ll b = days(2019, 1, 1) * 86400 + d1 * 86400 + off, e = b + len;
                        Interval i(from_secs(b), from_secs(e));
                        c.current(i.to_string());
                        // Consecutive pieces, one per month
                        ll pos = b;
                        std::string err;
                        i.iter_months([&](const Interval& m) {
                            if (secs(m.begin) != pos)
                                err = "gap";
                            if (secs(m.end) <= secs(m.begin))
                                err = "empty month";
                            auto l = from_secs(secs(m.end) - 1);
                            if (l.mo != m.begin.mo || l.ye != m.begin.ye)
                                err = "more than a month";
                            pos = secs(m.end);
                            if (pos != e && !m.end.is_start_of_month())
                                err = "less than a month";
                            return true;
                        });
                        if (pos != e)
                            err = "does not get to the end";
                        guard([&] { same("iter_months " + i.to_string(), err, std::string()); });
                        // Contains a calendar month
                        bool whole = false;
                        for (int k = 0; k < 40 && !whole; ++k)
                        {
                            ll ms = days(2019 + k / 12, k % 12 + 1, 1) * 86400, me = ms + dim(2019 + k / 12, k % 12 + 1) * 86400;
                            if (ms >= b && me <= e)
                                whole = true;
                        }
                        guard([&] { same("spans_one_whole_month " + i.to_string(), i.spans_one_whole_month(), whole); });
                        c.eval();
                    }
            c.states();
        }
        else if (f[0] == "generate")
        {
            for (ll b : {days(2019, 12, 31) * 86400 + 86395, days(2020, 2, 28) * 86400})
                for (int len = 0; len < 30; ++len)
                    for (int step : {1, 2, 7, 60})
                    {
                        auto v = Time::generate(from_secs(b), from_secs(b + len), step);
                        guard([&] {
                            same(cat("generate count ", str(from_secs(b)), " ", len, " ", step), v.size(), (size_t)((len + step - 1) / step));
                            for (size_t i = 0; i < v.size(); ++i)
                                eq(cat("generate ", str(from_secs(b)), " ", len, " ", step), v[i], from_secs(b + i * step));
                        });
                        c.eval();
                    }
            c.states();
        }
    });
}
mc::Register r16("C16", c16);

/*
 * Steps
 */

/// Position of the segment of a time in the sequence of segments
std::string expected_path(const std::string& step, const Time& t)
{
    char buf[64];
    if (step == "daily")
        snprintf(buf, 64, "%04d/%02d-%02d", t.ye, t.mo, t.da);
    else if (step == "weekly")
        snprintf(buf, 64, "%04d/%02d-%d", t.ye, t.mo, (t.da - 1) / 7 + 1);
    else if (step == "biweekly")
        snprintf(buf, 64, "%04d/%02d-%d", t.ye, t.mo, t.da > 15 ? 2 : 1);
    else if (step == "monthly")
        snprintf(buf, 64, "%04d/%02d", t.ye, t.mo);
    else if (step == "yearly")
        snprintf(buf, 64, "%02d/%04d", t.ye / 100, t.ye);
    else
        snprintf(buf, 64, "all");
    return buf;
}

struct Query
{
    std::string expr;
    Time begin, end; // unset: open
};
const std::vector<Query>& queries()
{
    static std::vector<Query> q{
        {"", Time(), Time()},
        {"reftime:>=2020-02-10", Time(2020, 2, 10), Time()},
        {"reftime:<2020-02-10", Time(), Time(2020, 2, 10)},
        {"reftime:=2020-02-10", Time(2020, 2, 10), Time(2020, 2, 11)},
        {"reftime:>=2020-03-01,<2020-03-02", Time(2020, 3, 1), Time(2020, 3, 2)},
        {"reftime:<=2019", Time(), Time(2020, 1, 1)},
        {"reftime:>2020-01-31 23:59", Time(2020, 2, 1), Time()},
        {"reftime:=2020-02-29 23:59:59", Time(2020, 2, 29, 23, 59, 59), Time(2020, 3, 1)},
        {"reftime:>2000", Time(2001, 1, 1), Time()},
        {"reftime:<1999", Time(), Time(1999, 1, 1)},
        {"reftime:=2020-02", Time(2020, 2, 1), Time(2020, 3, 1)},
        {"reftime:>=2020-01-14,<=2020-01-15", Time(2020, 1, 14), Time(2020, 1, 16)},
        {"reftime:=1999 or =2020-12-31", Time(), Time()}, // told apart below
        {"origin:GRIB1", Time(), Time()},
        {"reftime:=06:00", Time(), Time()},
    };
    return q;
}
bool may_match(const Query& q, const Interval& span)
{
    if (q.expr.find(" or ") != std::string::npos)
    {
        Interval a(Time(1999, 1, 1), Time(2000, 1, 1)), b(Time(2020, 12, 31), Time(2021, 1, 1));
        auto o = [&](const Interval& i) { return secs(i.begin) < secs(span.end) && secs(span.begin) < secs(i.end); };
        return o(a) || o(b);
    }
    if (q.begin.is_set() && secs(span.end) <= secs(q.begin))
        return false;
    if (q.end.is_set() && secs(span.begin) >= secs(q.end))
        return false;
    return true;
}
/// Time span of a segment, by looking at what times go there
Interval expected_span(const std::string& step, const Time& t)
{
    if (step == "single")
        return Interval(Time(1000, 1, 1), Time(100001, 1, 1));
    ll b = days(t.ye, t.mo, t.da);
    auto p = expected_path(step, t);
    ll e = b + 1;
    while (expected_path(step, from_secs((b - 1) * 86400)) == p)
        --b;
    while (expected_path(step, from_secs(e * 86400)) == p)
        ++e;
    return Interval(from_secs(b * 86400), from_secs(e * 86400));
}

void c15()
{
    arki::init();
    std::vector<std::string> tasks;
    std::vector<std::string> steps{"daily", "weekly", "biweekly", "monthly", "yearly", "single"};
    for (auto& s : steps)
        for (int y = args.thorough ? 1000 : 1996; y <= (args.thorough ? 2400 : 2028); y += 4)
            tasks.push_back(cat("path|", s, "|", y));
    for (auto& s : steps)
        for (int y : {1000, 1200, 1900, 2100, 9996})
            tasks.push_back(cat("path|", s, "|", y));
    // All sets of up to 3 of these segments
    unsigned n = 9, k = args.thorough ? 4 : 3;
    for (auto& s : steps)
        for (auto fmt : {"grib", "odimh5"})
            for (unsigned mask = 0; mask < (1u << n); ++mask)
                if ((unsigned)__builtin_popcount(mask) <= k)
                    tasks.push_back(cat("list|", s, "|", fmt, "|", mask));
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f    = mc::split(task, '|');
        auto step = arki::dataset::Step::create(f[1]);
        auto guard = [&](std::function<void()> f) {
            try { f(); } catch (Fail& e) { c.fail(e.key, e.what()); }
        };
        if (f[0] == "path")
        {
            int y = std::stoi(f[2]);
            std::optional<Interval> prev;
            std::string prev_path;
            for (int ye = y; ye < y + 4; ++ye)
                for (int mo = 1; mo <= 12; ++mo)
                    for (int da = 1; da <= dim(ye, mo); ++da)
                        for (int s : {0, 43200, 86399})
                        {
                            Time t(ye, mo, da, s / 3600, s / 60 % 60, s % 60);
                            c.current(f[1] + " " + str(t));
                            guard([&] {
                                auto p = (*step)(t).native();
                                same("path of " + f[1] + " " + str(t), p, expected_path(f[1], t));
                                for (auto ext : {".grib", ".bufr.gz", ""})
                                {
                                    Interval i;
                                    if (!step->path_timespan(p + ext, i))
                                        throw Fail("timespan", f[1] + ": the path of " + str(t) + ", " + p + ext + ", is not recognised");
                                    if (!i.contains(t))
                                        throw Fail("timespan", f[1] + ": interval " + i.to_string() + " of " + p + ext + " does not contain " + str(t));
                                    if (f[1] == "single")
                                        continue;
                                    if (prev && p != prev_path && i.begin != prev->end)
                                        throw Fail("partition", f[1] + ": interval " + i.to_string() + " of " + p + " does not follow " + prev->to_string() + " of " + prev_path);
                                    if (prev && p == prev_path && i != *prev)
                                        throw Fail("partition", f[1] + ": interval of " + p + " changes");
                                    prev      = i;
                                    prev_path = p;
                                    auto e = expected_span(f[1], t);
                                    eq("timespan-begin of " + f[1] + " " + p, i.begin, e.begin);
                                    eq("timespan-end of " + f[1] + " " + p, i.end, e.end);
                                }
                            });
                            c.eval();
                        }
            c.states();
            c.distinct(task);
        }
        else
        {
            std::vector<Time> times{Time(1999, 12, 31), Time(2000, 1, 1), Time(2020, 1, 14), Time(2020, 1, 15), Time(2020, 1, 16), Time(2020, 2, 9), Time(2020, 2, 29), Time(2020, 3, 1), Time(2020, 12, 31)};
            unsigned mask = std::stoul(f[3]);
            auto root     = fresh_scratch();
            std::map<std::string, Interval> segs; // relpath -> span
            std::string fmt = f[2];
            unsigned shape  = 0;
            for (unsigned i = 0; i < times.size(); ++i)
                if (mask & (1 << i))
                {
                    auto p    = expected_path(f[1], times[i]);
                    auto rel  = p + "." + fmt;
                    fs::create_directories(fs::path(root + "/" + rel).parent_path());
                    if (!segs.count(rel))
                    {
                        // Data in all the forms in which it can be kept
                        switch ((shape++ + mask) % 5)
                        {
                            case 0: std::ofstream(root + "/" + rel); break;
                            case 1: fs::create_directory(root + "/" + rel); break;
                            case 2: std::ofstream(root + "/" + rel + (f[1] == "single" ? "" : ".gz")); break;
                            case 3: std::ofstream(root + "/" + rel + (f[1] == "single" ? "" : ".tar")); break;
                            case 4: std::ofstream(root + "/" + rel + (f[1] == "single" ? "" : ".zip")); break;
                        }
                    }
                    segs.emplace(rel, expected_span(f[1], times[i]));
                    // Other files that are not segments of this dataset
                    std::ofstream(root + "/" + p + ".bufr");
                    std::ofstream(root + "/" + rel + ".index");
                    std::ofstream(root + "/" + rel + ".metadata");
                    std::ofstream(root + "/" + rel + ".repack");
                    std::ofstream(root + "/" + p + ".txt");
                    std::ofstream(root + "/" + p + ".grib.tmp");
                    std::ofstream(fs::path(root + "/" + p).parent_path().native() + "/.hidden." + fmt);
                }
            fs::create_directories(root + "/.summaries");
            fs::create_directories(root + "/lost+found");
            fs::create_directories(root + "/20200");
            std::ofstream(root + "/lock");
            std::ofstream(root + "/2021");
            auto format = arki::format_from_string(fmt);
            for (auto& q : queries())
            {
                c.current(task + " " + q.expr);
                guard([&] {
                    arki::matcher::Parser parser;
                    auto m = parser.parse(q.expr);
                    arki::dataset::step::SegmentQuery sq(root, format, m);
                    std::vector<std::string> got, exp;
                    try
                    {
                        step->list_segments(sq, [&](fs::path&& p) { got.push_back(p.native()); });
                    }
                    catch (std::exception& e)
                    {
                        throw Fail("list-failed", task + ": listing segments matching '" + q.expr + "' fails: " + e.what());
                    }
                    for (auto& s : segs)
                        if (f[1] == "single" || may_match(q, s.second))
                            exp.push_back(s.first);
                    std::sort(got.begin(), got.end());
                    std::sort(exp.begin(), exp.end());
                    if (got != exp)
                        throw Fail("list", task + ": segments matching '" + q.expr + "' are " + mc::join(got, " ") + " instead of " + mc::join(exp, " "));
                    if (!q.expr.empty())
                        return;
                    Interval i;
                    step->time_extremes(sq, i);
                    if (segs.empty())
                    {
                        if (!i.is_unbounded())
                            throw Fail("extremes", task + ": time extremes of no segments are " + i.to_string());
                        return;
                    }
                    Interval e = segs.begin()->second;
                    for (auto& s : segs)
                    {
                        if (secs(s.second.begin) < secs(e.begin))
                            e.begin = s.second.begin;
                        if (secs(s.second.end) > secs(e.end))
                            e.end = s.second.end;
                    }
                    if (f[1] == "single")
                    {
                        for (auto& t : times)
                            if (!i.contains(t))
                                throw Fail("extremes", task + ": time extremes " + i.to_string() + " do not contain " + str(t));
                        return;
                    }
                    eq("extremes begin " + task, i.begin, e.begin);
                    eq("extremes end " + task, i.end, e.end);
                });
                c.eval();
            }
            c.states();
            c.distinct(task);
        }
    });
}
mc::Register r15("C15", c15);

} // namespace
