// Matcher expressions: all the combinations of their parts, on all the values
// of interest, against a reference that shares no code with them
#include "cal.h"
#include "mc.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/core/cfg.h>
#include <arki/core/time.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/metadata.h>
#include <arki/runtime.h>
#include <arki/types/reftime.h>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <sqlite3.h>

using namespace mc;
using namespace mc::cal;
using arki::core::Interval;
using arki::core::Time;

static time_t fake_now = 0;
/// Take over the clock
extern "C" time_t time(time_t* t)
{
    time_t r = fake_now;
    if (!r)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (t)
        *t = r;
    return r;
}

namespace {

std::string str(ll s)
{
    auto t = from_secs(s);
    return t.to_sql();
}
ll tod(ll s) { return ((s % 86400) + 86400) % 86400; }

/// A set of instants, from one comparison
struct Atom
{
    std::string text;
    std::function<bool(ll)> match;
    std::vector<ll> marks;     // instants where the result can change
    std::vector<ll> day_marks; // times of day where the result can change
    std::optional<ll> lo, hi;  // if it is a date interval
    bool date = false;
    ll base   = 0; // time of day that steps refer to
};

/// A span of time named by an expression
struct Span
{
    std::string text;
    ll lo, hi;
};

const ll NOW[] = {secs(2020, 3, 1, 10, 20, 30), secs(2019, 12, 31, 23, 59, 59), secs(2020, 3, 31, 0, 0, 0), secs(2020, 10, 30, 12, 0, 0)};

/// Span of an instant, to the given depth: 1 year, 2 month, 3 day... 6 second
Span span(const std::string& text, ll s, int depth)
{
    auto t = from_secs(s);
    switch (depth)
    {
        case 1: return {text, secs(t.ye, 1, 1), secs(t.ye + 1, 1, 1)};
        case 2: return {text, secs(t.ye, t.mo, 1), secs(t.ye, t.mo, 1) + dim(t.ye, t.mo) * 86400};
        case 3: return {text, secs(t.ye, t.mo, t.da), secs(t.ye, t.mo, t.da) + 86400};
        case 4: return {text, s - tod(s) % 3600, s - tod(s) % 3600 + 3600};
        case 5: return {text, s - tod(s) % 60, s - tod(s) % 60 + 60};
        default: return {text, s, s + 1};
    }
}

struct Offset
{
    std::string text;
    ll months, secs;
    int depth;
};
std::vector<Offset> offsets(bool all)
{
    std::vector<Offset> res{
        {"1 year", 12, 0, 1}, {"a year", 12, 0, 1}, {"3 years", 36, 0, 1}, {"1 month", 1, 0, 2}, {"13 months", 13, 0, 2},
        {"a week", 0, 7 * 86400, 3}, {"2 weeks", 0, 14 * 86400, 3}, {"1 day", 0, 86400, 3}, {"45 days", 0, 45 * 86400, 3},
        {"1 hour", 0, 3600, 4}, {"an hour", 0, 3600, 4}, {"30 hours", 0, 30 * 3600, 4}, {"1 minute", 0, 60, 5}, {"90 min", 0, 5400, 5},
        {"1 second", 0, 1, 6}, {"100 seconds", 0, 100, 6}, {"1 hour and 30 minutes", 0, 5400, 5}, {"1 day 2 hours", 0, 86400 + 7200, 4},
        {"2 months and 3 days", 2, 3 * 86400, 3}, {"1h 2m 3s", 0, 3723, 6}, {"1y", 12, 0, 1}, {"2w", 0, 14 * 86400, 3}, {"3d", 0, 3 * 86400, 3},
    };
    if (!all)
        res.resize(8);
    return res;
}
ll shift(ll s, const Offset& o, int sign)
{
    auto t = from_secs(s);
    ll m   = t.ye * 12 + t.mo - 1 + sign * o.months;
    return days(m / 12, m % 12 + 1, 1) * 86400 + (t.da - 1) * 86400 + tod(s) + sign * o.secs;
}
ll easter(ll y)
{
    // Ecclesiastical full moons by golden number, 1900-2199
    static const int pfm[][2] = {{4, 14}, {4, 3}, {3, 23}, {4, 11}, {3, 31}, {4, 18}, {4, 8}, {3, 28}, {4, 16}, {4, 5},
                                 {3, 25}, {4, 13}, {4, 2}, {3, 22}, {4, 10}, {3, 30}, {4, 17}, {4, 7}, {3, 27}};
    ll d = days(y, pfm[y % 19][0], pfm[y % 19][1]) + 1;
    while (((d + 4) % 7 + 7) % 7 != 0) // 1970-01-01 was a Thursday
        ++d;
    return d * 86400;
}

struct DayTime
{
    std::string text;
    ll lo, hi;
};
const std::vector<DayTime>& daytimes()
{
    static std::vector<DayTime> res{
        {"0", 0, 3600}, {"00", 0, 3600}, {"07", 25200, 28800}, {"7", 25200, 28800}, {"23", 82800, 86400}, {"12:30", 45000, 45060},
        {"23:59", 86340, 86400}, {"00:00", 0, 60}, {"12:30:15", 45015, 45016}, {"23:59:59", 86399, 86400}, {"00:00:00", 0, 1},
        {"12:00:00Z", 43200, 43201}, {"midday", 43200, 43201}, {"noon", 43200, 43201}, {"midnight", 0, 1},
    };
    return res;
}

std::vector<Span> spans(ll now, bool all)
{
    std::vector<Span> res{
        {"2020", secs(2020, 1, 1), secs(2021, 1, 1)},
        {"2020-02", secs(2020, 2, 1), secs(2020, 3, 1)},
        {"2020-2", secs(2020, 2, 1), secs(2020, 3, 1)},
        {"2019-12", secs(2019, 12, 1), secs(2020, 1, 1)},
        {"2020-02-29", secs(2020, 2, 29), secs(2020, 3, 1)},
        {"2019-12-31", secs(2019, 12, 31), secs(2020, 1, 1)},
        {"2020-02-28 23", secs(2020, 2, 28, 23), secs(2020, 2, 29)},
        {"2020-02-29 12:34", secs(2020, 2, 29, 12, 34), secs(2020, 2, 29, 12, 35)},
        {"2020-02-29 23:59", secs(2020, 2, 29, 23, 59), secs(2020, 3, 1)},
        {"2020-02-29 12:34:56", secs(2020, 2, 29, 12, 34, 56), secs(2020, 2, 29, 12, 34, 57)},
        {"2020-02-29T12:34:56Z", secs(2020, 2, 29, 12, 34, 56), secs(2020, 2, 29, 12, 34, 57)},
        {"2019-12-31 23:59:59", secs(2019, 12, 31, 23, 59, 59), secs(2020, 1, 1)},
        {"2020-01-01 00:00:00", secs(2020, 1, 1), secs(2020, 1, 1, 0, 0, 1)},
        {"1900", secs(1900, 1, 1), secs(1901, 1, 1)},
        {"2100-02-28", secs(2100, 2, 28), secs(2100, 3, 1)},
        {"2020-02-29 midday", secs(2020, 2, 29, 12), secs(2020, 2, 29, 12, 0, 1)},
        {"2020 12:00", secs(2020, 1, 1, 12), secs(2020, 1, 1, 12, 1)},
    };
    res.push_back({"now", now, now + 1});
    ll today = now - tod(now);
    res.push_back({"today", today, today + 86400});
    res.push_back({"yesterday", today - 86400, today});
    res.push_back({"tomorrow", today + 86400, today + 2 * 86400});
    if (!all)
        return res;
    std::vector<Span> bases = res;
    for (auto& d : daytimes())
    {
        res.push_back({"today " + d.text, today + d.lo, today + d.hi});
        res.push_back({"tomorrow " + d.text, today + 86400 + d.lo, today + 86400 + d.hi});
        res.push_back({"2019-12-31 " + d.text, secs(2019, 12, 31) + d.lo, secs(2019, 12, 31) + d.hi});
    }
    for (auto& o : offsets(true))
    {
        {
            // What is more precise than the offset does not matter
            auto s = span("", now, o.depth);
            auto l = shift(s.lo, o, -1);
            res.push_back(span(o.text + " ago", l, o.depth));
        }
        for (auto& b : bases)
        {
            if (o.months && from_secs(b.lo).da > 28)
                continue; // what a month after the 31st is, is not defined
            // How precise it is
            ll len    = b.hi - b.lo;
            int depth = len == 1 ? 6 : len == 60 ? 5 : len == 3600 ? 4 : len == 86400 ? 3 : len < 86400 * 40 ? 2 : 1;
            depth     = std::max(depth, o.depth);
            res.push_back(span(o.text + " before " + b.text, shift(b.lo, o, -1), depth));
            res.push_back(span(o.text + " after " + b.text, shift(b.lo, o, 1), depth));
            res.push_back(span(b.text + " + " + o.text, shift(b.lo, o, 1), depth));
            res.push_back(span(b.text + " - " + o.text, shift(b.lo, o, -1), depth));
        }
    }
    for (int y = 1900; y < 2200; y += args.thorough ? 1 : 7)
    {
        res.push_back({cat("easter ", y), easter(y), easter(y) + 86400});
        res.push_back({cat("processione san luca ", y), easter(y) + 34 * 86400, easter(y) + 35 * 86400});
    }
    res.push_back({"2 days before easter 2020", easter(2020) - 2 * 86400, easter(2020) - 86400});
    return res;
}

Atom compare(const std::string& op, const Span& s)
{
    Atom a;
    a.text = op + s.text;
    a.base = tod(s.lo);
    a.date = true;
    if (op == ">=" || op == "from ")
        a.lo = s.lo;
    else if (op == ">")
        a.lo = s.hi;
    else if (op == "<=" || op == "until ")
        a.hi = s.hi;
    else if (op == "<")
        a.hi = s.lo;
    else
        a.lo = s.lo, a.hi = s.hi;
    auto lo = a.lo, hi = a.hi;
    a.match = [lo, hi](ll t) { return (!lo || t >= *lo) && (!hi || t < *hi); };
    a.marks = {s.lo, s.hi};
    return a;
}
Atom compare(const std::string& op, const DayTime& d)
{
    Atom a;
    a.text = op + d.text;
    a.base = d.lo;
    ll lo = d.lo, hi = d.hi;
    if (op == ">=" || op == "from ")
        hi = 86400;
    else if (op == ">")
        lo = d.hi, hi = 86400;
    else if (op == "<=" || op == "until ")
        lo = 0;
    else if (op == "<")
        lo = 0, hi = d.lo;
    a.match     = [lo, hi](ll t) { return tod(t) >= lo && tod(t) < hi; };
    a.day_marks = {d.lo, d.hi};
    return a;
}
/// Add a step to an expression. base < 0 is for the time of the expression
struct Step
{
    std::string text;
    ll step, base;
};
Atom with_step(const Atom& a, const Step& s)
{
    Atom r  = a;
    r.date  = false;
    r.text += (r.text.empty() ? "" : " ") + s.text;
    ll base = s.base >= 0 ? s.base : a.base;
    // From a time of the day, every step, until the end of the day, and
    // backwards until its beginning
    ll first = base;
    while (first - s.step >= 0)
        first -= s.step;
    auto m  = a.match;
    ll step = s.step;
    r.match = [m, first, step](ll t) { return (!m || m(t)) && tod(t) >= first && (tod(t) - first) % step == 0; };
    for (int i = 0; i < 3; ++i)
        r.day_marks.push_back(first + i * step);
    r.day_marks.push_back(first + (86399 - first) / step * step);
    r.day_marks.push_back(base);
    return r;
}
const std::vector<Step>& steps()
{
    static std::vector<Step> res{
        {"%12h", 43200, -1}, {"every 6 hours", 21600, -1}, {"%24h", 86400, -1}, {"@12:00 every 24h", 86400, 43200}, {"% 30m", 1800, -1},
        {"%5h", 18000, -1}, {"@1%5h", 18000, 3600}, {"@0%7h", 25200, 0}, {"every 90 minutes", 5400, -1}, {"@00:10:05%90m", 5400, 605},
        {"every 1 hour", 3600, -1}, {"@23:30%13h", 46800, 84600}, {"%48h", 172800, -1}, {"%100s", 100, -1}, {"%12h30m15s", 45015, -1},
        {"every 1 h 30 m", 5400, -1}, {"%7s", 7, -1}, {"%3600s", 3600, -1},
    };
    return res;
}

struct Expr
{
    std::string text;
    std::vector<std::vector<Atom>> alts; // alternatives of conjunctions
};

class DB
{
    sqlite3* db = nullptr;

public:
    DB()
    {
        if (sqlite3_open(":memory:", &db) != SQLITE_OK)
            throw std::runtime_error("sqlite");
        exec("CREATE TABLE md (id INTEGER PRIMARY KEY, reftime TEXT NOT NULL)");
    }
    ~DB() { sqlite3_close(db); }
    void exec(const std::string& q)
    {
        char* err = nullptr;
        if (sqlite3_exec(db, q.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
            throw Fail("sql", "'" + q.substr(0, 200) + "' is not accepted: " + err);
    }
    std::set<int> select(const std::string& where)
    {
        std::set<int> res;
        sqlite3_stmt* s;
        std::string q = "SELECT id FROM md WHERE " + where;
        if (sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr) != SQLITE_OK)
            throw Fail("sql", "'" + q.substr(0, 200) + "' is not accepted: " + sqlite3_errmsg(db));
        while (sqlite3_step(s) == SQLITE_ROW)
            res.insert(sqlite3_column_int(s, 0));
        sqlite3_finalize(s);
        return res;
    }
    void load(const std::vector<ll>& instants)
    {
        exec("DELETE FROM md");
        sqlite3_stmt* s;
        exec("BEGIN");
        sqlite3_prepare_v2(db, "INSERT INTO md VALUES (?, ?)", -1, &s, nullptr);
        for (unsigned i = 0; i < instants.size(); ++i)
        {
            auto t = str(instants[i]);
            sqlite3_bind_int(s, 1, i);
            sqlite3_bind_text(s, 2, t.data(), t.size(), SQLITE_STATIC);
            sqlite3_step(s);
            sqlite3_reset(s);
        }
        sqlite3_finalize(s);
        exec("COMMIT");
    }
};

arki::Matcher parse(const std::string& s, const std::string& what)
{
    try
    {
        arki::matcher::Parser p;
        return p.parse(s);
    }
    catch (std::exception& e)
    {
        throw Fail("parse", what + ": cannot parse '" + s + "': " + e.what());
    }
}

void check_expr(Ctx& c, DB& db, const Expr& e)
{
    auto q  = "reftime:" + e.text;
    auto m  = parse(q, "expression");
    auto m1 = parse(m.toString(), q);
    auto m2 = parse(m.toStringExpanded(), q);
    if (m2.toStringExpanded() != m.toStringExpanded())
        throw Fail("print", q + ": printed as " + m.toStringExpanded() + ", which is printed as " + m2.toStringExpanded());

    // Instants to look at
    std::set<ll> set{secs(1999, 12, 31, 23, 59, 59), secs(2000, 1, 1), secs(2020, 1, 1), secs(2020, 2, 29, 12), secs(2200, 6, 1, 7, 6, 5)};
    std::set<ll> ref{secs(2020, 2, 29)};
    for (auto& a : e.alts)
        for (auto& x : a)
        {
            for (auto t : x.marks)
            {
                for (int d : {-86400, -3600, -60, -1, 0, 1, 60, 3600, 86400})
                    set.insert(t + d);
                ref.insert(t - tod(t));
                ref.insert(t - tod(t) - 86400);
            }
        }
    for (auto& a : e.alts)
        for (auto& x : a)
            for (auto t : x.day_marks)
                for (auto d : ref)
                    for (int o : {-1, 0, 1})
                        set.insert(d + t + o);
    std::vector<ll> inst(set.begin(), set.end());
    std::vector<bool> exp;
    auto matches = [&](ll t) {
        for (auto& a : e.alts)
        {
            bool all = true;
            for (auto& x : a)
                if (!x.match(t))
                {
                    all = false;
                    break;
                }
            if (all)
                return true;
        }
        return false;
    };
    for (unsigned i = 0; i < inst.size(); ++i)
    {
        auto t  = from_secs(inst[i]);
        bool ex = matches(inst[i]);
        exp.push_back(ex);
        auto item = arki::types::Reftime::createPosition(t);
        if (m(*item) != ex)
            throw Fail("match", cat(q, ": ", str(inst[i]), ex ? " does not match" : " matches"));
        if (m1(*item) != ex)
            throw Fail("print", cat(q, ": printed as ", m.toString(), ", for which ", str(inst[i]), ex ? " does not match" : " matches"));
        if (m2(*item) != ex)
            throw Fail("print", cat(q, ": printed as ", m.toStringExpanded(), ", for which ", str(inst[i]), ex ? " does not match" : " matches"));
        std::vector<uint8_t> buf;
        arki::core::BinaryEncoder enc(buf);
        item->encodeWithoutEnvelope(enc);
        if (m(arki::TYPE_REFTIME, buf.data(), buf.size()) != ex)
            throw Fail("match-encoded", cat(q, ": ", str(inst[i]), ex ? " does not match" : " matches", " when encoded"));
        c.eval();
    }
    // As SQL
    auto sql = m.get(arki::TYPE_REFTIME)->toReftimeSQL("reftime");
    db.load(inst);
    auto got = db.select(sql);
    for (unsigned i = 0; i < inst.size(); ++i)
        if (got.count(i) != exp[i])
            throw Fail("sql", cat(q, ": ", str(inst[i]), exp[i] ? " does not match" : " matches", " as SQL: ", sql.substr(0, 200)));
    // Time spans
    bool dates = true;
    for (auto& a : e.alts)
        for (auto& x : a)
            if (!x.date)
                dates = false;
    std::vector<std::pair<std::optional<ll>, std::optional<ll>>> ivs;
    ivs.push_back({std::nullopt, std::nullopt});
    // All marks, and some lengths from them
    std::vector<ll> ends;
    for (auto& a : e.alts)
        for (auto& x : a)
        {
            for (auto t : x.marks)
                ends.push_back(t), ends.push_back(t - 1), ends.push_back(t - 43200);
            for (unsigned i = 0; i < x.day_marks.size() && i < 2; ++i)
                ends.push_back(*ref.begin() + x.day_marks[i]), ends.push_back(*ref.begin() + x.day_marks[i] + 1);
        }
    if (ends.size() > 24)
        ends.resize(24);
    for (auto b : ends)
    {
        ivs.push_back({b, std::nullopt});
        ivs.push_back({std::nullopt, b});
        for (ll len : {1, 2, 3600, 43200, 86399, 86400, 86401, 86400 * 10})
            ivs.push_back({b, b + len});
    }
    // Exact set, for alternatives of conjunctions of dates
    for (auto& iv : ivs)
    {
        Interval i(iv.first ? from_secs(*iv.first) : Time(), iv.second ? from_secs(*iv.second) : Time());
        auto in = [&](ll t) { return (!iv.first || t >= *iv.first) && (!iv.second || t < *iv.second); };
        // Something that matches in it
        std::optional<ll> first, last;
        for (unsigned k = 0; k < inst.size(); ++k)
            if (exp[k] && in(inst[k]))
            {
                if (!first)
                    first = inst[k];
                last = inst[k];
            }
        if (iv.first && matches(*iv.first) && in(*iv.first))
            first = first ? std::min(*first, *iv.first) : *iv.first, last = last ? last : *iv.first;
        bool r = m(i);
        if (first && !r)
            throw Fail("match-interval", cat(q, " does not match the interval ", i.to_string(), ", which contains ", str(*first)));
        if (dates && e.alts.size() == 1 && e.alts[0].size() == 1 && !first && r)
            throw Fail("match-interval", cat(q, " matches the interval ", i.to_string()));
        Interval x(i);
        r = m.intersect_interval(x);
        if (!r)
        {
            if (first)
                throw Fail("intersect", cat(q, " restricts the interval ", i.to_string(), " to nothing, although it contains ", str(*first)));
            continue;
        }
        if (!i.contains(x))
            throw Fail("intersect", cat(q, " restricts the interval ", i.to_string(), " to ", x.to_string()));
        if (first && (!x.contains(from_secs(*first)) || !x.contains(from_secs(*last))))
            throw Fail("intersect", cat(q, " restricts the interval ", i.to_string(), " to ", x.to_string(), ", without ", str(*first), " or ", str(*last)));
        if (dates && e.alts.size() == 1)
        {
            // It has to be as narrow as possible
            auto lo = iv.first, hi = iv.second;
            for (auto& a : e.alts[0])
            {
                if (a.lo && (!lo || *a.lo > *lo))
                    lo = a.lo;
                if (a.hi && (!hi || *a.hi < *hi))
                    hi = a.hi;
            }
            if (lo && hi && *lo >= *hi)
                throw Fail("intersect", cat(q, " restricts the interval ", i.to_string(), " to ", x.to_string(), " instead of nothing"));
            Interval ex(lo ? from_secs(*lo) : Time(), hi ? from_secs(*hi) : Time());
            if (x != ex)
                throw Fail("intersect", cat(q, " restricts the interval ", i.to_string(), " to ", x.to_string(), " instead of ", ex.to_string()));
        }
        c.eval();
    }
}

/// All expressions of a group
std::vector<Expr> exprs(const std::string& group, ll now)
{
    std::vector<Expr> res;
    std::vector<std::string> ops{">=", ">", "<=", "<", "=", "==", "from ", "until "};
    auto one = [&](const Atom& a) { res.push_back({a.text, {{a}}}); };
    Atom none;
    none.match = [](ll) { return true; };
    std::vector<Atom> dates, times, stepped;
    for (auto& s : spans(now, false))
        for (auto& o : ops)
            dates.push_back(compare(o, s));
    for (auto& d : daytimes())
        for (auto& o : ops)
            times.push_back(compare(o, d));
    for (auto& s : steps())
    {
        stepped.push_back(with_step(none, s));
        stepped.push_back(with_step(compare(">=", Span{"2020-02-29 12:34:56", secs(2020, 2, 29, 12, 34, 56), secs(2020, 2, 29, 12, 34, 57)}), s));
        stepped.push_back(with_step(compare("<", DayTime{"12:30", 45000, 45060}), s));
    }
    if (group == "date")
        for (auto& s : spans(now, true))
            for (auto& o : {">=", ">", "<=", "<", "="})
                one(compare(o, s));
    else if (group == "words")
        for (auto& d : dates)
            one(d);
    else if (group == "time")
        for (auto& t : times)
            one(t);
    else if (group == "step")
    {
        for (auto& s : steps())
        {
            one(with_step(none, s));
            for (auto& d : dates)
                one(with_step(d, s));
            for (auto& t : times)
                one(with_step(t, s));
        }
    }
    else
    {
        // Pairs and triples
        std::vector<Atom> pool;
        for (unsigned i = 0; i < dates.size(); i += args.thorough ? 1 : 3)
            pool.push_back(dates[i]);
        for (unsigned i = 0; i < times.size(); i += args.thorough ? 2 : 7)
            pool.push_back(times[i]);
        for (unsigned i = 0; i < stepped.size(); i += args.thorough ? 2 : 5)
            pool.push_back(stepped[i]);
        if (group == "and")
            for (auto& a : pool)
                for (auto& b : pool)
                    res.push_back({a.text + "," + b.text, {{a, b}}});
        else if (group == "or")
            for (auto& a : pool)
                for (auto& b : pool)
                    res.push_back({a.text + " or " + b.text, {{a}, {b}}});
        else
        {
            std::vector<Atom> small;
            for (unsigned i = 0; i < pool.size(); i += args.thorough ? 5 : 7)
                small.push_back(pool[i]);
            for (auto& a : small)
                for (auto& b : small)
                    for (auto& d : small)
                    {
                        res.push_back({a.text + " , " + b.text + " OR " + d.text, {{a, b}, {d}}});
                        res.push_back({a.text + "," + b.text + "," + d.text, {{a, b, d}}});
                        res.push_back({a.text + " or " + b.text + " or " + d.text, {{a}, {b}, {d}}});
                    }
        }
    }
    return res;
}

void c17()
{
    arki::init();
    std::vector<std::string> tasks;
    unsigned n = args.thorough ? 4 : 3;
    for (unsigned now = 0; now < n; ++now)
        for (auto g : {"date", "words", "time", "step", "and", "or", "mix"})
        {
            if (now && (std::string(g) == "time" || (!args.thorough && std::string(g) != "date" && std::string(g) != "words")))
                continue;
            size_t tot = exprs(g, NOW[now]).size();
            for (size_t b = 0; b < tot; b += 200)
                tasks.push_back(cat(g, "|", now, "|", b));
        }
    tasks.push_back("invalid|0|0");
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f   = mc::split(task, '|');
        fake_now = NOW[std::stoi(f[1])];
        DB db;
        if (f[0] == "invalid")
        {
            for (auto s : {"=", ">=", "2020", ">=2020-13", ">=2020-02-30", ">=2020-00", ">=2021-02-29", "=25", "=12:60", "=12:30:61", "=24:30:00", "=2020,", "=2020,,=2021",
                           ",=2020", ">=2020 %", "%0h", "every 0 seconds", "%00m", "@12%0s", "%0h0m", "%h", "%12", "@12", "every 1 day", "=ago", "=1 ago", "=1 day", "=now now",
                           "=2020-01-01 12:00 13:00", "=a", "=today yesterday", ">=<2020", "=2020 or", "= or =2020", "=2020-01-01 - ", "=12 12", "=easter"})
            {
                c.current(s);
                bool ok = false;
                try
                {
                    arki::matcher::Parser p;
                    p.parse(std::string("reftime:") + s);
                    ok = true;
                }
                catch (std::exception&)
                {
                }
                if (ok)
                    c.fail("invalid", cat("reftime:", s, " is accepted"));
                c.eval();
                c.distinct(s);
            }
            c.states();
            return;
        }
        auto all = exprs(f[0], fake_now);
        size_t b = std::stoul(f[2]);
        for (size_t i = b; i < all.size() && i < b + 200; ++i)
        {
            c.current(all[i].text);
            try
            {
                check_expr(c, db, all[i]);
            }
            catch (Fail& e)
            {
                c.fail(e.key, e.what());
            }
            catch (std::exception& e)
            {
                c.fail("error", all[i].text + ": " + e.what());
            }
            c.states();
            c.distinct(all[i].text);
        }
        c.sample(all[b].text);
    });
}
mc::Register r17("C17", c17);

} // namespace
