// Matchers of all types other than reftime, and their combinations: all the
// values and patterns from grids, against a reference written from the
// documentation
#include "mc.h"
#include <algorithm>
#include <arki/bbox.h>
#include <arki/core/binary.h>
#include <arki/core/cfg.h>
#include <arki/core/time.h>
#include <arki/exceptions.h>
#include <arki/matcher.h>
#include <arki/matcher/aliases.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/metadata.h>
#include <arki/runtime.h>
#include <arki/types/area.h>
#include <arki/types/itemset.h>
#include <arki/types/level.h>
#include <arki/types/origin.h>
#include <arki/types/proddef.h>
#include <arki/types/product.h>
#include <arki/types/quantity.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/task.h>
#include <arki/types/timerange.h>
#include <arki/types/values.h>
#include <arki/utils/geos.h>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>

using namespace mc;
using namespace arki;
using namespace arki::types;

namespace {

typedef std::shared_ptr<Type> Item;
typedef std::vector<std::string> SV;
typedef std::vector<long> LV;

// A value, and what it is made of
struct Val
{
    Code code;
    std::string style;
    Item item;
    LV n;
    SV s;
    std::map<std::string, std::string> kv;
    std::vector<uint8_t> enc;
    std::string desc;
};

typedef std::function<bool(const Val&)> Pred;

struct Pat
{
    Code code;
    std::string text;
    Pred pred;
};

void finish(Val& v)
{
    core::BinaryEncoder e(v.enc);
    v.item->encodeWithoutEnvelope(e);
    v.desc = v.item->to_string();
}

Val val(Code code, const char* style, std::unique_ptr<Type> item, LV n, SV s = {}, std::map<std::string, std::string> kv = {})
{
    Val v{code, style, Item(item.release()), n, s, kv, {}, {}};
    finish(v);
    return v;
}

// All the combinations of one element from each choice
template <typename T> void product_of(const std::vector<std::vector<T>>& choices, std::function<void(const std::vector<T>&)> f)
{
    std::vector<T> cur;
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == choices.size())
        {
            f(cur);
            return;
        }
        for (auto& x : choices[i])
        {
            cur.push_back(x);
            rec(i + 1);
            cur.pop_back();
        }
    };
    rec(0);
}

template <typename A, typename B> std::string join_fields(const std::string& style, const std::vector<A>& f, B fmt, bool trim)
{
    std::string res = style;
    size_t n        = f.size();
    if (trim)
        while (n && fmt(f[n - 1]).empty())
            --n;
    for (size_t i = 0; i < n; ++i)
        res += "," + fmt(f[i]);
    return res;
}

constexpr long ANY  = -1;
constexpr long MISS = -2;

std::string num(long v)
{
    if (v == ANY)
        return "";
    if (v == MISS)
        return "-";
    return std::to_string(v);
}

ValueBag bag(const std::map<std::string, std::string>& kv)
{
    values::ValueBagBuilder b;
    for (auto& k : kv)
        if (k.second[0] == '"')
            b.add(k.first, k.second.substr(1, k.second.size() - 2));
        else
            b.add(k.first, std::stoi(k.second));
    return b.build();
}

typedef std::map<std::string, std::string> KV;

std::string kv_text(const KV& kv, const char* sep)
{
    std::string res;
    for (auto& k : kv)
    {
        if (!res.empty())
            res += sep;
        // Strings that are not numbers can be written without quotes
        std::string v = k.second;
        if (v[0] == '"' && isalpha(v[1]) && v.find_first_of(" ,=") == std::string::npos && *sep == ',' && sep[1] == 0)
            v = v.substr(1, v.size() - 2);
        res += k.first + "=" + v;
    }
    return res;
}

bool kv_subset(const KV& want, const KV& have)
{
    for (auto& k : want)
    {
        auto i = have.find(k.first);
        if (i == have.end() || i->second != k.second)
            return false;
    }
    return true;
}

// All sets of up to two or three of these pairs
std::vector<KV> kv_grid(bool thorough)
{
    static const std::vector<std::pair<std::string, SV>> KEYS{
        {"a", {"1", "2", "\"1\"", "\"x\"", "\"x,y=2\"", "\"\""}}, {"b", {"-5", "70000"}}, {"bb", {"1"}}, {"lat", {"0", "45000000", "\"a b\""}}, {"z", {"63", "64", "-64"}}};
    std::vector<KV> res{{}};
    for (size_t i = 0; i < KEYS.size(); ++i)
        for (auto& v : KEYS[i].second)
        {
            res.push_back({{KEYS[i].first, v}});
            for (size_t j = i + 1; j < KEYS.size(); ++j)
                for (auto& w : KEYS[j].second)
                {
                    res.push_back({{KEYS[i].first, v}, {KEYS[j].first, w}});
                    if (thorough || i == 0)
                        for (size_t k = j + 1; k < KEYS.size(); ++k)
                            for (auto& x : KEYS[k].second)
                                if (thorough || j == 1)
                                    res.push_back({{KEYS[i].first, v}, {KEYS[j].first, w}, {KEYS[k].first, x}});
                }
        }
    return res;
}

// Spaces and letter case that do not matter
struct Spelling
{
    const char* before;
    const char* after;
    bool upper;
};

struct Family
{
    std::string name;
    std::vector<Val> vals;
    std::vector<Pat> pats;
    // Expressions that have to be refused
    SV bad;
    // Whether exactQuery identifies the value
    bool exact = true;
};

Pred all_equal(const std::string& style, const LV& want)
{
    return [=](const Val& v) {
        if (v.style != style)
            return false;
        for (size_t i = 0; i < want.size(); ++i)
            if (want[i] != ANY && want[i] != v.n[i])
                return false;
        return true;
    };
}

Pred all_equal(const std::string& style, const SV& want)
{
    return [=](const Val& v) {
        if (v.style != style)
            return false;
        for (size_t i = 0; i < want.size(); ++i)
            if (!want[i].empty() && want[i] != v.s[i])
                return false;
        return true;
    };
}

// Patterns for styles whose fields are all plain numbers
void num_patterns(Family& f, Code code, const std::string& style, const std::vector<LV>& choices)
{
    std::vector<LV> c(choices);
    for (auto& x : c)
        x.insert(x.begin(), ANY);
    product_of<long>(c, [&](const LV& p) {
        f.pats.push_back({code, join_fields(style, p, num, true), all_equal(style, p)});
        if (p.back() == ANY)
            f.pats.push_back({code, join_fields(style, p, num, false), all_equal(style, p)});
    });
}

void str_patterns(Family& f, Code code, const std::string& style, const std::vector<SV>& choices)
{
    std::vector<SV> c(choices);
    for (auto& x : c)
        x.insert(x.begin(), "");
    product_of<std::string>(c, [&](const SV& p) {
        f.pats.push_back({code, join_fields(style, p, [](const std::string& s) { return s; }, true), all_equal(style, p)});
    });
}

Family fam_origin(bool thorough)
{
    Family f;
    std::vector<LV> g1{{0, 98, 255}, {0, 98}, {1, 255}};
    product_of<long>(g1, [&](const LV& n) { f.vals.push_back(val(TYPE_ORIGIN, "GRIB1", Origin::createGRIB1(n[0], n[1], n[2]), n)); });
    num_patterns(f, TYPE_ORIGIN, "GRIB1", {{0, 98, 255, 256}, {0, 98, 1}, {1, 255}});
    std::vector<LV> g2{{0, 250, 65535}, {98, 256}, {0, 1}, {2, 255}, {0, 128}};
    product_of<long>(g2, [&](const LV& n) { f.vals.push_back(val(TYPE_ORIGIN, "GRIB2", Origin::createGRIB2(n[0], n[1], n[2], n[3], n[4]), n)); });
    num_patterns(f, TYPE_ORIGIN, "GRIB2", {{0, 250, 65535}, {98, 256}, {0, 1}, {2, 255}, {0, 128}});
    std::vector<LV> bu{{0, 98, 255}, {0, 98, 255}};
    product_of<long>(bu, [&](const LV& n) { f.vals.push_back(val(TYPE_ORIGIN, "BUFR", Origin::createBUFR(n[0], n[1]), n)); });
    num_patterns(f, TYPE_ORIGIN, "BUFR", {{0, 98, 255}, {0, 98, 255}});
    std::vector<SV> od{{"", "wmo", "w"}, {"", "rad", "wmo"}, {"", "plc", "p l c"}};
    product_of<std::string>(od, [&](const SV& s) { f.vals.push_back(val(TYPE_ORIGIN, "ODIMH5", Origin::createODIMH5(s[0], s[1], s[2]), {}, s)); });
    str_patterns(f, TYPE_ORIGIN, "ODIMH5", {{"wmo", "w", "WMO"}, {"rad", "wmo"}, {"plc", "p l c", "p"}});
    f.bad = {"GRIB3", "GRIB", "GRIB1,a", "GRIB1,1x", "GRIB1,1,2,x3", "GRIB2,,y", "BUFR,1 2"};
    return f;
}

Family fam_product(bool thorough)
{
    Family f;
    std::vector<LV> g1{{0, 98, 255}, {0, 2}, {1, 11}};
    product_of<long>(g1, [&](const LV& n) { f.vals.push_back(val(TYPE_PRODUCT, "GRIB1", Product::createGRIB1(n[0], n[1], n[2]), n)); });
    num_patterns(f, TYPE_PRODUCT, "GRIB1", {{0, 98, 255}, {0, 2}, {1, 11}});
    std::vector<LV> g2{{0, 65535}, {0, 1}, {2, 255}, {0, 7}, {4, 5}, {255, 0}};
    product_of<long>(g2, [&](const LV& n) { f.vals.push_back(val(TYPE_PRODUCT, "GRIB2", Product::createGRIB2(n[0], n[1], n[2], n[3], n[4], n[5]), n)); });
    num_patterns(f, TYPE_PRODUCT, "GRIB2", {{0, 65535}, {0, 1}, {2, 255}, {0, 7}, {4, 5}, {255, 0}});
    std::vector<KV> kv{{}, {{"t", "\"synop\""}}, {{"t", "\"temp\""}}, {{"t", "\"synop\""}, {"x", "5"}}, {{"a", "1"}, {"t", "\"synop\""}}};
    std::vector<LV> bu{{0, 1}, {0, 255}, {1, 255}};
    product_of<long>(bu, [&](const LV& n) {
        for (auto& k : kv)
            f.vals.push_back(val(TYPE_PRODUCT, "BUFR", k.empty() ? Product::createBUFR(n[0], n[1], n[2]) : Product::createBUFR(n[0], n[1], n[2], bag(k)), n, {}, k));
    });
    product_of<long>({{ANY, 0, 1}, {ANY, 0, 255}, {ANY, 1, 255}}, [&](const LV& p) {
        for (auto& k : kv)
            f.pats.push_back({TYPE_PRODUCT, join_fields("BUFR", p, num, true) + (k.empty() ? "" : ":" + kv_text(k, ",")), [=](const Val& v) { return v.style == "BUFR" && all_equal("BUFR", p)(v) && kv_subset(k, v.kv); }});
    });
    std::vector<SV> od{{"", "PVOL", "IMAGE"}, {"", "SCAN", "PVOL"}};
    product_of<std::string>(od, [&](const SV& s) { f.vals.push_back(val(TYPE_PRODUCT, "ODIMH5", Product::createODIMH5(s[0], s[1]), {}, s)); });
    str_patterns(f, TYPE_PRODUCT, "ODIMH5", {{"PVOL", "IMAGE", "pvol"}, {"SCAN", "PVOL"}});
    for (long i : {0, 1, 23, 70000})
        f.vals.push_back(val(TYPE_PRODUCT, "VM2", Product::createVM2(i), {i}));
    num_patterns(f, TYPE_PRODUCT, "VM2", {{0, 1, 2, 23, 70000}});
    f.bad   = {"GRIB3", "GRIB1,a", "GRIB2,1,2,3,4,5,z", "BUFR,x", "BUFR:t", "VM2,x"};
    return f;
}

// Number of values that go with each type of GRIB1 level, from the manual of codes
int level_nvals(long t)
{
    switch (t)
    {
        case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 102: case 200: case 201: return 0;
        case 20: case 100: case 103: case 105: case 107: case 109: case 111: case 113: case 115: case 117: case 119: case 125: case 160: return 1;
        default: return 2;
    }
}

Family fam_level(bool thorough)
{
    Family f;
    LV types{1, 5, 100, 102, 103, 104, 105, 112, 141};
    for (auto t : types)
        switch (level_nvals(t))
        {
            case 0: f.vals.push_back(val(TYPE_LEVEL, "GRIB1", Level::createGRIB1(t), {t})); break;
            case 1:
                for (long l1 : {0, 1, 128, 1000, 65535})
                    f.vals.push_back(val(TYPE_LEVEL, "GRIB1", Level::createGRIB1(t, l1), {t, l1}));
                break;
            case 2:
                for (long l1 : {0, 123, 255})
                    for (long l2 : {0, 223, 255})
                        f.vals.push_back(val(TYPE_LEVEL, "GRIB1", Level::createGRIB1(t, l1, l2), {t, l1, l2}));
                break;
        }
    LV ptypes(types);
    ptypes.insert(ptypes.begin(), ANY);
    product_of<long>({ptypes, {ANY, 0, 1, 123, 128, 255, 1000, 65535}, {ANY, 0, 223, 255}}, [&](const LV& p) {
        f.pats.push_back({TYPE_LEVEL, join_fields("GRIB1", p, num, true), [=](const Val& v) {
                              if (v.style != "GRIB1" || (p[0] != ANY && p[0] != v.n[0]))
                                  return false;
                              for (size_t i = 1; i < 3; ++i)
                                  if (p[i] != ANY && (v.n.size() <= i || v.n[i] != p[i]))
                                      return false;
                              return true;
                          }});
    });
    auto m8  = [](long v) { return v == MISS ? 255 : v; };
    auto m32 = [](long v) { return v == MISS ? 0xffffffffl : v; };
    std::vector<LV> s{{0, 103, MISS}, {0, 3, MISS}, {0, 1000, 0x7ffffffe, MISS}};
    product_of<long>(s, [&](const LV& n) { f.vals.push_back(val(TYPE_LEVEL, "GRIB2S", Level::createGRIB2S(m8(n[0]), m8(n[1]), m32(n[2])), n)); });
    num_patterns(f, TYPE_LEVEL, "GRIB2S", {{0, 103, MISS}, {0, 3, MISS}, {0, 1000, 0x7ffffffe, 7, MISS}});
    std::vector<LV> d{{1, 103, MISS}, {0, MISS}, {0, 1000, MISS}, {1, 103, MISS}, {0, MISS}, {0, 1100, MISS}};
    product_of<long>(d, [&](const LV& n) { f.vals.push_back(val(TYPE_LEVEL, "GRIB2D", Level::createGRIB2D(m8(n[0]), m8(n[1]), m32(n[2]), m8(n[3]), m8(n[4]), m32(n[5])), n)); });
    num_patterns(f, TYPE_LEVEL, "GRIB2D", thorough ? d : std::vector<LV>{{103, MISS}, {0}, {1000, MISS}, {103, MISS}, {0}, {1100, MISS}});

    // Elevation angles
    std::vector<std::pair<double, double>> ranges{{0.5, 0.5}, {0.5, 10.5}, {-3, -1}, {0, 0}, {5.25, 5.5}, {0.12345, 0.12345}, {10, 360}};
    for (auto& r : ranges)
    {
        std::vector<long> n{lround(r.first * 1e6), lround(r.second * 1e6)};
        f.vals.push_back(val(TYPE_LEVEL, "ODIMH5", r.first == r.second ? Level::createODIMH5(r.first) : Level::createODIMH5(r.first, r.second), n));
    }
    struct OP
    {
        const char* text;
        std::vector<std::pair<double, double>> ranges;
    };
    for (auto& p : std::vector<OP>{{"ODIMH5", {{-360, 360}}},
                                   {"ODIMH5,0.5", {{0.5, 0.5}}},
                                   {"ODIMH5, 0.5", {{0.5, 0.5}}},
                                   {"ODIMH5,0", {{0, 0}}},
                                   {"ODIMH5,0.5 5.5 10.5", {{0.5, 0.5}, {5.5, 5.5}, {10.5, 10.5}}},
                                   {"ODIMH5,0.5,5.5,10.5", {{0.5, 0.5}, {5.5, 5.5}, {10.5, 10.5}}},
                                   {"ODIMH5,5 offset 0.5", {{4.5, 5.5}}},
                                   {"ODIMH5,5 11 offset 0.25", {{4.75, 5.25}, {10.75, 11.25}}},
                                   {"ODIMH5,-2 offset 0.5", {{-2.5, -1.5}}},
                                   {"ODIMH5,range 5 20", {{5, 20}}},
                                   {"ODIMH5,range 20 5", {{5, 20}}},
                                   {"ODIMH5,range -5 -3", {{-5, -3}}},
                                   {"ODIMH5,range 0.500001 0.6", {{0.500001, 0.6}}},
                                   {"ODIMH5,range 10.5 10.5", {{10.5, 10.5}}},
                                   {"ODIMH5,range 11 12", {{11, 12}}},
                                   {"ODIMH5,0.12345", {{0.12345, 0.12345}}},
                                   {"ODIMH5,0.12346", {{0.12346, 0.12346}}},
                                   {"ODIMH5,10.5001", {{10.5001, 10.5001}}},
                                   {"ODIMH5,range 10.5001 10.6", {{10.5001, 10.6}}}})
    {
        auto want = p.ranges;
        f.pats.push_back({TYPE_LEVEL, p.text, [=](const Val& v) {
                              if (v.style != "ODIMH5")
                                  return false;
                              double a = v.n[0] / 1e6, b = v.n[1] / 1e6;
                              for (auto& w : want)
                                  if (a <= w.second && b >= w.first)
                                      return true;
                              return false;
                          }});
    }
    f.bad = {"GRIB2", "GRIB1,a", "GRIB1,1,b", "ODIMH5,range 1", "ODIMH5,range 1 2 3", "ODIMH5,x", "ODIMH5,range a b", "GRIB2S,a", "GRIB2S,1,x", "GRIB2D,1,2,3,4,5,z", "GRIB2S,256", "GRIB2S,1 2"};
    return f;
}

// Time with unit: seconds, or months as negative numbers
struct Dur
{
    bool secs;
    long v;
    bool operator==(const Dur& o) const { return v == o.v && (secs == o.secs || v == 0); }
};

Dur grib_dur(int unit, long v)
{
    switch (unit)
    {
        case 0: return {true, v * 60};
        case 1: return {true, v * 3600};
        case 2: return {true, v * 86400};
        case 3: return {false, v};
        case 4: return {false, v * 12};
        case 5: return {false, v * 120};
        case 6: return {false, v * 360};
        case 7: return {false, v * 1200};
        case 10: return {true, v * 10800};
        case 11: return {true, v * 21600};
        case 12: return {true, v * 43200};
        default: return {true, v};
    }
}

std::string dur_text(const Dur& d, int how)
{
    if (d.v == 0)
        return how ? (d.secs ? "0s" : "0mo") : "0";
    if (d.secs)
    {
        if (how == 0)
            return std::to_string(d.v) + "s";
        if (how == 1 && d.v % 60 == 0)
            return std::to_string(d.v / 60) + "m";
        if (how == 2 && d.v % 86400 == 0)
            return std::to_string(d.v / 86400) + "d";
        if (d.v % 3600 == 0)
            return std::to_string(d.v / 3600) + "h";
        return std::to_string(d.v) + "s";
    }
    if (how == 0 || d.v % 12)
        return std::to_string(d.v) + "mo";
    return std::to_string(d.v / 12) + "y";
}

// What a timerange says, as documented for timedef
struct Sem
{
    bool has_step = false;
    Dur step{true, 0};
    int proc     = -1;
    bool has_len = false;
    Dur len{true, 0};
};

Sem grib1_sem(int type, int unit, long p1, long p2)
{
    Sem s;
    auto set = [&](long step, int proc, long len) {
        s.has_step = s.has_len = true;
        s.step                 = grib_dur(unit, step);
        s.proc                 = proc;
        s.len                  = grib_dur(unit, len);
    };
    switch (type)
    {
        case 0: set(p1, 254, 0); break;
        case 1: set(0, 254, 0); break;
        case 2: set(p2, 205, p2 - p1); break;
        case 3: set(p2, 0, p2 - p1); break;
        case 4: set(p2, 1, p2 - p1); break;
        case 5: set(p2, 4, p2 - p1); break;
        case 10: set(p1 * 256 + p2, 254, 0); break;
        case 13: set(0, 254, 0); break;
    }
    return s;
}

// Which of P1 and P2 mean something
std::pair<bool, bool> grib1_args(int type)
{
    switch (type)
    {
        case 0: return {true, false};
        case 1: return {false, false};
        case 118: case 123: case 124: return {false, true};
        default: return {true, true};
    }
}

struct TR
{
    Sem sem;
};
std::map<const Type*, Sem> sems;

Family fam_timerange(bool thorough)
{
    Family f;
    auto add = [&](const char* style, std::unique_ptr<Type> t, LV n, const Sem& s) {
        f.vals.push_back(val(TYPE_TIMERANGE, style, std::move(t), n));
        sems[f.vals.back().item.get()] = s;
    };
    for (long type : {0, 1, 2, 3, 4, 5, 13, 51, 123})
        for (long unit : {0, 1, 2, 3, 4, 11, 254})
            for (auto& p : std::vector<std::pair<long, long>>{{0, 0}, {6, 0}, {0, 6}, {6, 12}, {1, 255}, {60, 72}})
                add("GRIB1", Timerange::createGRIB1(type, unit, p.first, p.second), {type, unit, p.first, p.second}, grib1_sem(type, unit, p.first, p.second));
    // P1 and P2 of type 10 are a single number: only with Timedef
    for (long p1 : {0, 1})
        for (long p2 : {0, 44})
            add("GRIB1 type 10", Timerange::createGRIB1(10, 1, p1, p2), {10, 1, p1, p2}, grib1_sem(10, 1, p1, p2));
    for (long type : {0, 2})
        for (long unit : {0, 1, 254})
            for (long p1 : {0, 6, 70000})
                for (long p2 : {0, 6, 12})
                    add("GRIB2", Timerange::createGRIB2(type, unit, p1, p2), {type, unit, p1, p2}, Sem());
    for (long unit : {0, 1, 2, 3, 4, 10, 254})
        for (long v : {0, 1, 6, 360, 86400})
        {
            Sem s;
            s.has_step = true;
            s.step     = grib_dur(unit, v);
            add("BUFR", Timerange::createBUFR(v, unit), {unit, v}, s);
        }
    // Timedef
    static const std::vector<std::pair<timerange::TimedefUnit, int>> UNITS{{timerange::UNIT_MINUTE, 0}, {timerange::UNIT_HOUR, 1}, {timerange::UNIT_DAY, 2}, {timerange::UNIT_MONTH, 3}, {timerange::UNIT_YEAR, 4}, {timerange::UNIT_6HOURS, 11}, {timerange::UNIT_SECOND, 13}};
    for (auto& u : UNITS)
        for (long v : {0, 1, 6, 360})
        {
            Sem s;
            s.has_step = true;
            s.step     = grib_dur(u.second, v);
            add("Timedef", Timerange::createTimedef(v, u.first), {}, s);
            for (long proc : {0, 1, 254})
                for (auto& lu : UNITS)
                    for (long l : {0, 3, 180})
                    {
                        if (!thorough && (lu.second + u.second + l + proc) % 2)
                            continue;
                        Sem s2(s);
                        s2.proc    = proc;
                        s2.has_len = true;
                        s2.len     = grib_dur(lu.second, l);
                        add("Timedef", Timerange::createTimedef(v, u.first, proc, l, lu.first), {}, s2);
                    }
            // Processing of unknown length
            Sem s3(s);
            s3.proc = 2;
            add("Timedef", Timerange::createTimedef(v, u.first, 2, 0, timerange::UNIT_MISSING), {}, s3);
        }

    // GRIB1,type,p1,p2: any can be missing
    typedef std::optional<Dur> OD;
    std::vector<OD> ods{OD(), Dur{true, 0}, Dur{true, 6}, Dur{true, 44*3600}, Dur{true, 300*3600}, Dur{true, 360}, Dur{true, 21600}, Dur{true, 43200}, Dur{true, 86400}, Dur{true, 518400}, Dur{false, 6}, Dur{false, 72}, Dur{false, 12}};
    for (long type : {ANY, 0l, 1l, 2l, 3l, 4l, 5l, 13l, 51l, 123l, 124l})
        for (auto& p1 : ods)
            for (auto& p2 : ods)
            {
                if (p1 && p2 && p1->v && p2->v && p1->secs != p2->secs)
                    continue;
                for (int how = 0; how < (p1 || p2 ? 3 : 1); ++how)
                {
                    if (!thorough && p1 && p2 && how)
                        continue;
                    std::string text = "GRIB1," + num(type) + "," + (p1 ? dur_text(*p1, how) : "") + "," + (p2 ? dur_text(*p2, how) : "");
                    f.pats.push_back({TYPE_TIMERANGE, text, [=](const Val& v) {
                                          if (v.style != "GRIB1" || (type != ANY && type != v.n[0]))
                                              return false;
                                          auto use = grib1_args(v.n[0]);
                                          if (use.first && p1 && !(*p1 == grib_dur(v.n[1], v.n[2])))
                                              return false;
                                          if (use.second && p2 && !(*p2 == grib_dur(v.n[1], v.n[3])))
                                              return false;
                                          return true;
                                      }});
                }
            }
    num_patterns(f, TYPE_TIMERANGE, "GRIB2", {{0, 2, 3}, {0, 1, 254}, {0, 6, 360, 70000}, {0, 6, 12}});
    for (auto& p : ods)
        for (int how = 0; how < (p ? 3 : 1); ++how)
            f.pats.push_back({TYPE_TIMERANGE, p ? "BUFR," + dur_text(*p, how) : "BUFR", [=](const Val& v) { return v.style == "BUFR" && (!p || *p == grib_dur(v.n[0], v.n[1])); }});

    // Timedef,step,proc,len: any can be missing, and each can be -
    std::vector<std::pair<OD, bool>> steps;
    for (auto& d : ods)
        steps.push_back({d, false});
    steps.push_back({OD(), true});
    std::vector<std::pair<OD, bool>> lens{{OD(), false}, {OD(), true}, {Dur{true, 0}, false}, {Dur{true, 180}, false}, {Dur{true, 10800}, false}, {Dur{true, 21600}, false}, {Dur{false, 3}, false}, {Dur{false, 36}, false}};
    for (auto& st : steps)
        for (long proc : {ANY, MISS, 0l, 1l, 2l, 205l, 254l})
            for (auto& le : lens)
            {
                // What no processing of a given length should mean is not documented
                if (proc == MISS && le.first)
                    continue;
                // Lengths of zero, in other units, too
                for (int how = 0; how < (st.first || le.first ? 2 : 1); ++how)
                {
                    std::string text = "Timedef," + (st.second ? "-" : st.first ? (how ? "+" : "") + dur_text(*st.first, how) : "");
                    text += "," + num(proc) + "," + (le.second ? "-" : le.first ? dur_text(*le.first, how) : "");
                    auto s = st;
                    auto l = le;
                    f.pats.push_back({TYPE_TIMERANGE, text, [=](const Val& v) {
                                          const Sem& m = sems.at(v.item.get());
                                          if (s.second && m.has_step)
                                              return false;
                                          if (s.first && !(m.has_step && m.step == *s.first))
                                              return false;
                                          if (proc == MISS ? m.proc != -1 : proc != ANY && proc != m.proc)
                                              return false;
                                          if (l.second && m.has_len)
                                              return false;
                                          if (l.first && !(m.has_len && m.len == *l.first))
                                              return false;
                                          return true;
                                      }});
                }
            }
    f.bad   = {"GRIB3", "GRIB1,0,6", "GRIB1,0,6x", "GRIB1,2,6h,3mo", "GRIB1,2,6h,1y", "BUFR,6", "BUFR,6q", "Timedef,6", "Timedef,6q", "Timedef,6h,x", "Timedef,6h,1,3", "Timedef,6h,1,3w", "GRIB2,x", "GRIB2,0,1,6h", "GRIB1,x", "GRIB1,0,h", "GRIB1,0,0x", "BUFR,h"};
    return f;
}

Family fam_values(bool thorough)
{
    Family f;
    auto grid = kv_grid(thorough);
    for (auto& k : grid)
    {
        f.vals.push_back(val(TYPE_PRODDEF, "GRIB", Proddef::createGRIB(bag(k)), {}, {}, k));
        if (k.size() < 3)
        {
            f.vals.push_back(val(TYPE_AREA, "GRIB", area::GRIB::create(bag(k)), {}, {}, k));
            f.vals.push_back(val(TYPE_AREA, "ODIMH5", area::ODIMH5::create(bag(k)), {}, {}, k));
        }
        for (auto sep : {",", ", "})
        {
            if (k.size() < 2 && sep[1])
                continue;
            auto pred = [=](const std::string& style) { return [=](const Val& v) { return v.style == style && kv_subset(k, v.kv); }; };
            f.pats.push_back({TYPE_PRODDEF, "GRIB:" + kv_text(k, sep), pred("GRIB")});
            if (k.size() < 3)
            {
                f.pats.push_back({TYPE_AREA, "GRIB:" + kv_text(k, sep), pred("GRIB")});
                f.pats.push_back({TYPE_AREA, "ODIMH5:" + kv_text(k, sep), pred("ODIMH5")});
            }
        }
    }
    f.bad   = {"GRIB3:a=1", "GRIB:a", "GRIB:a=1 b"};
    f.exact = false;
    return f;
}

Family fam_run(bool thorough)
{
    Family f;
    for (long h = 0; h < 24; ++h)
        for (long m : {0, 1, 30, 59})
        {
            f.vals.push_back(val(TYPE_RUN, "MINUTE", Run::createMinute(h, m), {h, m}));
            auto pred = [=](const Val& v) { return v.n[0] == h && v.n[1] == m; };
            char buf[40];
            sprintf(buf, "MINUTE,%02ld:%02ld", h, m);
            f.pats.push_back({TYPE_RUN, buf, pred});
            sprintf(buf, "MINUTE,%ld:%ld", h, m);
            f.pats.push_back({TYPE_RUN, buf, pred});
            if (m == 0)
            {
                f.pats.push_back({TYPE_RUN, "MINUTE," + std::to_string(h), pred});
                f.pats.push_back({TYPE_RUN, " MINUTE ," + std::to_string(h), pred});
            }
        }
    f.pats.push_back({TYPE_RUN, "MINUTE", [](const Val&) { return true; }});
    f.pats.push_back({TYPE_RUN, "MINUTE,", [](const Val&) { return true; }});
    f.bad = {"HOUR", "MINUTE,x", "MINUTE,12:x", "MINUTE,12:30:15"};
    return f;
}

Family fam_odim(bool thorough)
{
    Family f;
    std::vector<std::string> tasks{"prova 123", "task", "", "TASK", "pro", "x.y-z"};
    for (auto& t : tasks)
        f.vals.push_back(val(TYPE_TASK, "", Task::create(t), {}, {t}));
    auto up = [](std::string s) {
        for (auto& c : s)
            c = toupper(c);
        return s;
    };
    for (std::string p : {"", "prova", "123", "aaaa", "prova123", "PRO", "TAsk", "a 1", ".", "x.y"})
        f.pats.push_back({TYPE_TASK, p, [=](const Val& v) { return up(v.s[0]).find(up(p)) != std::string::npos; }});

    std::vector<std::string> qs{"ACRR", "BRDR", "DBZH", "dbzh", "TH"};
    for (unsigned m = 1; m < 32; ++m)
    {
        std::string q;
        std::map<std::string, std::string> kv;
        for (unsigned i = 0; i < 5; ++i)
            if (m & (1 << i))
            {
                q += (q.empty() ? "" : ",") + qs[i];
                kv[qs[i]] = "1";
            }
        if (__builtin_popcount(m) <= 3)
            f.vals.push_back(val(TYPE_QUANTITY, "", Quantity::create(q), {}, {}, kv));
        f.pats.push_back({TYPE_QUANTITY, q, [=](const Val& v) { return kv_subset(kv, v.kv); }});
    }
    f.pats.push_back({TYPE_QUANTITY, "", [](const Val&) { return true; }});
    f.pats.push_back({TYPE_QUANTITY, "VRAD", [](const Val&) { return false; }});
    f.exact = false;
    return f;
}

// Bounding boxes are computed by scripts: stand in for them
struct RectBBox : public BBox
{
    utils::geos::Geometry compute(const types::Area& v) const override
    {
        const area::GRIB* a = dynamic_cast<const area::GRIB*>(&v);
        long x1 = 0, y1 = 0, x2 = 0, y2 = 0, n = 0;
        if (a)
        {
            for (auto& kv : mc::split(a->get_GRIB().toString(), ','))
            {
                auto eq          = kv.find('=');
                std::string name = kv.substr(kv.find_first_not_of(' '), eq - kv.find_first_not_of(' '));
                long* d          = name == "latfirst" ? &y1 : name == "latlast" ? &y2 : name == "lonfirst" ? &x1 : name == "lonlast" ? &x2 : nullptr;
                if (!d)
                    continue;
                *d = std::stol(kv.substr(eq + 1)) / 1000000;
                ++n;
            }
        }
        if (n != 4)
            return utils::geos::Geometry();
        utils::geos::WKTReader reader;
        return reader.read(cat("POLYGON((", x1, " ", y1, ", ", x2, " ", y1, ", ", x2, " ", y2, ", ", x1, " ", y2, ", ", x1, " ", y1, "))"));
    }
};

// Areas: rectangles with corners in a grid, against rectangles and points
Family fam_bbox(bool thorough)
{
    Family f;
    struct R
    {
        long x1, y1, x2, y2;
    };
    std::vector<R> rects;
    std::vector<std::pair<long, long>> iv{{10, 12}, {10, 11}, {11, 12}, {11, 14}, {12, 13}, {13, 14}};
    for (auto& x : iv)
        for (auto& y : std::vector<std::pair<long, long>>{{43, 45}, {44, 45}, {45, 46}})
            rects.push_back({x.first, y.first, x.second, y.second});
    for (auto& r : rects)
    {
        KV kv{{"Ni", "41"}, {"Nj", "41"}, {"latfirst", std::to_string(r.y1 * 1000000)}, {"latlast", std::to_string(r.y2 * 1000000)}, {"lonfirst", std::to_string(r.x1 * 1000000)}, {"lonlast", std::to_string(r.x2 * 1000000)}, {"type", "0"}};
        f.vals.push_back(val(TYPE_AREA, "GRIB", area::GRIB::create(bag(kv)), {r.x1, r.y1, r.x2, r.y2}));
    }
    f.vals.push_back(val(TYPE_AREA, "GRIB", area::GRIB::create(bag({{"sta", "22"}})), {}));
    typedef std::function<bool(const R& v, const R& p)> RP;
    std::vector<std::pair<std::string, RP>> verbs{
        {"equals", [](const R& v, const R& p) { return v.x1 == p.x1 && v.x2 == p.x2 && v.y1 == p.y1 && v.y2 == p.y2; }},
        {"intersects", [](const R& v, const R& p) { return v.x1 <= p.x2 && p.x1 <= v.x2 && v.y1 <= p.y2 && p.y1 <= v.y2; }},
        {"covers", [](const R& v, const R& p) { return v.x1 <= p.x1 && p.x2 <= v.x2 && v.y1 <= p.y1 && p.y2 <= v.y2; }},
        {"coveredby", [](const R& v, const R& p) { return p.x1 <= v.x1 && v.x2 <= p.x2 && p.y1 <= v.y1 && v.y2 <= p.y2; }},
    };
    std::vector<R> pats(rects);
    for (long x = 9; x <= 15; ++x)
        for (long y : {42, 43, 44, 45, 46, 47})
            pats.push_back({x, y, x, y});
    pats.push_back({0, 0, 50, 50});
    for (auto& vb : verbs)
        for (auto& p : pats)
        {
            std::string g = p.x1 == p.x2 ? cat("POINT(", p.x1, " ", p.y1, ")") : cat("POLYGON((", p.x1, " ", p.y1, ", ", p.x2, " ", p.y1, ", ", p.x2, " ", p.y2, ", ", p.x1, " ", p.y2, ", ", p.x1, " ", p.y1, "))");
            auto rp       = vb.second;
            f.pats.push_back({TYPE_AREA, "bbox " + vb.first + " " + g, [=](const Val& v) { return v.n.size() == 4 && rp(R{v.n[0], v.n[1], v.n[2], v.n[3]}, p); }});
        }
    f.bad   = {"bbox", "bbox inside POINT(1 2)", "bbox equals", "bbox equals POINT(", "bbox covers FOO(1 2)"};
    f.exact = false;
    return f;
}

const char* type_name(Code c)
{
    switch (c)
    {
        case TYPE_ORIGIN: return "origin";
        case TYPE_PRODUCT: return "product";
        case TYPE_LEVEL: return "level";
        case TYPE_TIMERANGE: return "timerange";
        case TYPE_AREA: return "area";
        case TYPE_PRODDEF: return "proddef";
        case TYPE_RUN: return "run";
        case TYPE_TASK: return "task";
        case TYPE_QUANTITY: return "quantity";
        case TYPE_REFTIME: return "reftime";
        default: return "unknown";
    }
}

Family& family(const std::string& name)
{
    static std::map<std::string, Family> cache;
    auto i = cache.find(name);
    if (i != cache.end())
        return i->second;
    bool t = args.thorough;
    Family f;
    if (name == "origin")
        f = fam_origin(t);
    else if (name == "product")
        f = fam_product(t);
    else if (name == "level")
        f = fam_level(t);
    else if (name == "timerange")
        f = fam_timerange(t);
    else if (name == "values")
        f = fam_values(t);
    else if (name == "run")
        f = fam_run(t);
    else if (name == "odim")
        f = fam_odim(t);
    else if (name == "bbox")
        f = fam_bbox(t);
    f.name = name;
    // Nothing specified: any value
    std::set<Code> codes;
    for (auto& p : f.pats)
        codes.insert(p.code);
    for (auto code : codes)
        f.pats.push_back({code, "", [](const Val&) { return true; }});
    return cache[name] = f;
}

void check_pat(Ctx& c, const matcher::Parser& parser, const Family& f, const Pat& p)
{
    std::string expr = std::string(type_name(p.code)) + ":" + p.text;
    c.current(expr);
    Matcher m = parser.parse(expr);
    std::vector<std::pair<const char*, Matcher>> forms{{"as given", m}};
    auto reparse = [&](const char* what, const std::string& text) {
        try
        {
            forms.push_back({what, parser.parse(text)});
        }
        catch (std::exception& e)
        {
            throw Fail("reparse", cat(expr, " is printed (", what, ") as ", text, " that is refused: ", e.what()));
        }
    };
    reparse("as it was", m.toString());
    reparse("expanded", m.toStringExpanded());
    auto o = m.get(p.code);
    if (!o)
        throw Fail("get", expr + ": the matcher does not have this type");

    // Something without this type of value is not matched
    Metadata none;
    for (auto& x : forms)
        if (x.second(none) || x.second.empty())
            throw Fail("match-none", cat(expr, " (", x.first, ") matches metadata without ", type_name(p.code)));
    for (auto& v : f.vals)
    {
        if (v.code != p.code)
            continue;
        if (v.style == "GRIB1 type 10" && p.text.compare(0, 5, "GRIB1") == 0)
            continue;
        bool want = p.pred(v);
        c.eval(2);
        for (auto& x : forms)
            if (x.second(*v.item) != want)
            {
                std::string k = expr.substr(0, expr.find(','));
                throw Fail("match|" + k.substr(0, k.find(' ')), cat(expr, " (", x.first, ": ", x.second.toStringExpanded(), ") ", want ? "does not match " : "matches ", v.desc));
            }
        if (m(v.code, v.enc.data(), v.enc.size()) != want)
            throw Fail("match-encoded", cat(expr, want ? " does not match " : " matches ", v.desc, " when encoded"));
    }
    c.states();
    c.distinct(expr);
}

// Combinations of a few expressions of all types
struct Basic
{
    Code code;
    std::string type;
    std::string expr;
    Pred pred;
};

std::vector<Val> BV;
std::vector<Basic> BP;

void basics()
{
    if (!BV.empty())
        return;
    auto add = [&](const char* type, const char* expr, Pred p) { BP.push_back({parseCodeName(type), type, expr, p}); };
    for (long a : {1, 2})
        for (long b : {1, 2})
            BV.push_back(val(TYPE_ORIGIN, "GRIB1", Origin::createGRIB1(a, b, 3), {a, b, 3}));
    BV.push_back(val(TYPE_ORIGIN, "BUFR", Origin::createBUFR(1, 2), {1, 2}));
    for (long a : {1, 2})
        for (long b : {1, 2})
            BV.push_back(val(TYPE_PRODUCT, "GRIB1", Product::createGRIB1(a, b, 3), {a, b, 3}));
    BV.push_back(val(TYPE_LEVEL, "GRIB1", Level::createGRIB1(1), {1}));
    BV.push_back(val(TYPE_LEVEL, "GRIB2S", Level::createGRIB2S(1, 2, 3), {1, 2, 3}));
    for (long d : {1, 2, 3})
        BV.push_back(val(TYPE_REFTIME, "", Reftime::createPosition(core::Time(2020, 1, d)), {d}));
    BV.push_back(val(TYPE_RUN, "MINUTE", Run::createMinute(0), {0}));
    BV.push_back(val(TYPE_RUN, "MINUTE", Run::createMinute(12), {12}));

    add("origin", "GRIB1,1", all_equal("GRIB1", LV{1}));
    add("origin", "GRIB1,,2", all_equal("GRIB1", LV{ANY, 2}));
    add("origin", "BUFR", all_equal("BUFR", LV{}));
    add("product", "GRIB1,1", all_equal("GRIB1", LV{1}));
    add("product", "GRIB1,2,2", all_equal("GRIB1", LV{2, 2}));
    add("level", "GRIB1,1", all_equal("GRIB1", LV{1}));
    add("level", "GRIB2S,,2", all_equal("GRIB2S", LV{ANY, 2}));
    add("reftime", ">=2020-01-02", [](const Val& v) { return v.n[0] >= 2; });
    add("reftime", "=2020-01-01", [](const Val& v) { return v.n[0] == 1; });
    add("run", "MINUTE,12", [](const Val& v) { return v.n[0] == 12; });
}

// An expression: for each type, the alternatives
typedef std::map<Code, std::set<int>> Expr;

std::string text(const Expr& e, int spelling)
{
    static const char* OR[]  = {" or ", "  OR\t", " Or "};
    static const char* AND[] = {";", "\n", " ; "};
    std::string res;
    for (auto& i : e)
    {
        if (!res.empty())
            res += AND[spelling];
        std::string alt;
        for (auto j : i.second)
            alt += (alt.empty() ? "" : OR[spelling]) + BP[j].expr;
        std::string type = BP[*i.second.begin()].type;
        if (spelling == 1)
            for (auto& ch : type)
                ch = toupper(ch);
        res += type + (spelling ? " : " : ":") + alt;
    }
    return res;
}

bool want_item(const Expr& e, const Val& v)
{
    auto i = e.find(v.code);
    if (i == e.end())
        return true;
    for (auto j : i->second)
        if (BP[j].pred(v))
            return true;
    return false;
}

// All the sets of one value or none for each type
std::vector<std::vector<int>> all_sets()
{
    std::map<Code, std::vector<int>> by;
    for (size_t i = 0; i < BV.size(); ++i)
        by[BV[i].code].push_back(i);
    std::vector<std::vector<int>> choices;
    for (auto& i : by)
    {
        choices.push_back(i.second);
        choices.back().push_back(-1);
    }
    std::vector<std::vector<int>> res;
    product_of<int>(choices, [&](const std::vector<int>& s) { res.push_back(s); });
    return res;
}

bool want_set(const Expr& e, const std::vector<int>& set)
{
    for (auto& i : e)
    {
        bool found = false;
        for (auto v : set)
            if (v >= 0 && BV[v].code == i.first && want_item(e, BV[v]))
                found = true;
        if (!found)
            return false;
    }
    return true;
}

struct Sets
{
    std::vector<std::vector<int>> sets;
    std::vector<std::shared_ptr<Metadata>> mds;
    std::vector<std::shared_ptr<ItemSet>> items;
    Sets()
    {
        sets = all_sets();
        for (auto& s : sets)
        {
            auto md = std::make_shared<Metadata>();
            auto is = std::make_shared<ItemSet>();
            for (auto v : s)
                if (v >= 0)
                {
                    md->set(BV[v].item->cloneType());
                    is->set(BV[v].item->cloneType());
                }
            mds.push_back(md);
            items.push_back(is);
        }
    }
};

void check_expr(Ctx& c, const Sets& sets, const Matcher& m, const Expr& e, const std::string& what)
{
    c.eval(BV.size() + sets.sets.size() * 2);
    for (auto& v : BV)
    {
        bool w = want_item(e, v);
        if (m(*v.item) != w)
            throw Fail("combine-item", cat(what, w ? " does not match " : " matches ", v.desc));
        if (m(v.code, v.enc.data(), v.enc.size()) != w)
            throw Fail("combine-encoded", cat(what, w ? " does not match " : " matches ", v.desc, " when encoded"));
    }
    for (size_t i = 0; i < sets.sets.size(); ++i)
    {
        bool w = want_set(e, sets.sets[i]);
        if (m(*sets.mds[i]) != w || m(*sets.items[i]) != w)
        {
            std::string d;
            for (auto v : sets.sets[i])
                if (v >= 0)
                    d += " " + BV[v].desc;
            throw Fail("combine-set", cat(what, w ? " does not match" : " matches", d, m(*sets.mds[i]) == w ? " (as a set of items)" : ""));
        }
    }
    if (m.empty() != e.empty())
        throw Fail("combine-empty", cat(what, " is ", m.empty() ? "" : "not ", "empty"));
}

std::vector<Expr> all_exprs(bool thorough)
{
    // Sets of one or two alternatives for each type, of none
    std::map<Code, std::vector<int>> by;
    for (size_t i = 0; i < BP.size(); ++i)
        by[BP[i].code].push_back(i);
    std::vector<Code> codes;
    std::vector<std::vector<std::set<int>>> choices;
    for (auto& i : by)
    {
        codes.push_back(i.first);
        std::vector<std::set<int>> ch{{}};
        for (unsigned m = 1; m < (1u << i.second.size()); ++m)
        {
            std::set<int> s;
            for (size_t k = 0; k < i.second.size(); ++k)
                if (m & (1u << k))
                    s.insert(i.second[k]);
            ch.push_back(s);
        }
        choices.push_back(ch);
    }
    std::vector<Expr> res;
    product_of<std::set<int>>(choices, [&](const std::vector<std::set<int>>& s) {
        Expr e;
        for (size_t i = 0; i < s.size(); ++i)
            if (!s[i].empty())
                e[codes[i]] = s[i];
        res.push_back(e);
    });
    return res;
}

void combine(Ctx& c, size_t part, size_t parts)
{
    basics();
    Sets sets;
    matcher::Parser parser;
    auto all = all_exprs(args.thorough);
    for (size_t i = part; i < all.size(); i += parts)
    {
        const Expr& e = all[i];
        for (int sp = 0; sp < 3; ++sp)
        {
            std::string t = text(e, sp);
            c.current(t);
            Matcher m = parser.parse(t);
            check_expr(c, sets, m, e, t);
            if (sp)
                continue;
            check_expr(c, sets, parser.parse(m.toString()), e, "printed form of " + t);
            check_expr(c, sets, parser.parse(m.toStringExpanded()), e, "expanded form of " + t);
            // Split by all the sets of types
            std::vector<Code> codes{TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_REFTIME, TYPE_RUN};
            for (unsigned mask = 0; mask < 32; ++mask)
            {
                std::set<Code> cs;
                Expr ewith, ewithout;
                for (unsigned b = 0; b < 5; ++b)
                    if (mask & (1 << b))
                        cs.insert(codes[b]);
                for (auto& x : e)
                    (cs.count(x.first) ? ewith : ewithout).insert(x);
                Matcher with, without;
                m.split(cs, with, without);
                for (auto& v : BV)
                    if (with(*v.item) != want_item(ewith, v) || without(*v.item) != want_item(ewithout, v))
                        throw Fail("split", cat(t, " split by ", mask, " is '", with.toString(), "' and '", without.toString(), "'"));
                if (with.empty() != ewith.empty() || without.empty() != ewithout.empty())
                    throw Fail("split", cat(t, " split by ", mask, " is '", with.toString(), "' and '", without.toString(), "'"));
                c.eval(BV.size());
            }
        }
        c.states();
        c.distinct(text(e, 0));
    }
}

// merge() matches what either matches, at least, and update() gives
// precedence to the second
void pairs(Ctx& c, size_t part, size_t parts)
{
    basics();
    Sets sets;
    matcher::Parser parser;
    auto all = all_exprs(args.thorough);
    // Only expressions on up to two types
    std::vector<Expr> some;
    for (auto& e : all)
        if (e.size() <= (args.thorough ? 2 : 2) && std::all_of(e.begin(), e.end(), [&](auto& x) { return x.second.size() == 1 || args.thorough || e.size() == 1; }))
            some.push_back(e);
    std::vector<Matcher> ms;
    for (auto& e : some)
        ms.push_back(parser.parse(text(e, 0)));
    // A subset of the sets of items
    Sets few(sets);
    few.sets.clear();
    few.mds.clear();
    few.items.clear();
    for (size_t i = 0; i < sets.sets.size(); i += (args.thorough ? 1 : 17))
    {
        few.sets.push_back(sets.sets[i]);
        few.mds.push_back(sets.mds[i]);
        few.items.push_back(sets.items[i]);
    }
    for (size_t i = part; i < some.size(); i += parts)
        for (size_t j = 0; j < some.size(); ++j)
        {
            c.current(cat(text(some[i], 0), " AND ", text(some[j], 0)));
            Expr merged, updated(some[i]);
            for (auto& x : some[i])
            {
                auto o = some[j].find(x.first);
                if (o == some[j].end())
                    continue;
                merged[x.first] = x.second;
                merged[x.first].insert(o->second.begin(), o->second.end());
            }
            for (auto& x : some[j])
                updated[x.first] = x.second;
            auto what = [&](const char* w) { return cat(w, " of ", text(some[i], 0), " and ", text(some[j], 0)); };
            Matcher m = ms[i].merge(ms[j]);
            check_expr(c, few, m, merged, what("merge"));
            check_expr(c, few, parser.parse(m.toString()), merged, what("printed merge"));
            Matcher u = ms[i].update(ms[j]);
            check_expr(c, few, u, updated, what("update"));
            check_expr(c, few, parser.parse(u.toString()), updated, what("printed update"));
            // The originals are not changed
            if (ms[i].toString() != parser.parse(text(some[i], 0)).toString())
                throw Fail("merge-changes", what("merge or update") + " changed the first");
            c.states();
            c.transitions();
        }
}

// Aliases, also made of aliases, in any order and letter case
void aliases(Ctx& c, size_t part, size_t parts)
{
    basics();
    Sets sets;
    // Each alias is a list of alternatives, which are expressions or other aliases
    struct Def
    {
        const char* name;
        const char* text;
        std::set<int> want;
    };
    std::vector<Def> defs{{"one", "GRIB1,1", {0}},
                          {"two", "GRIB1,,2 or BUFR", {1, 2}},
                          {"both", "one or two", {0, 1, 2}},
                          {"mixed", "One OR BUFR", {0, 2}},
                          {"deep", "mixed or both", {0, 1, 2}}};
    std::vector<std::string> names{"one", "two", "both", "mixed", "deep", "GRIB1,1"};
    std::vector<std::set<int>> wants{{0}, {1, 2}, {0, 1, 2}, {0, 2}, {0, 1, 2}, {0}};
    std::vector<int> order{0, 1, 2, 3, 4};
    size_t n = 0;
    do
    {
        if (n++ % parts != part)
            continue;
        // Different names sort differently
        auto rename = [&](const std::string& s) {
            for (size_t i = 0; i < 5; ++i)
                if (s == defs[i].name)
                    return cat(char('a' + order[i]), s);
            return s;
        };
        core::cfg::Sections cfg;
        auto sec = cfg.obtain("origin");
        for (auto& d : defs)
        {
            std::string t;
            for (auto& w : mc::split(d.text, ' '))
            {
                std::string low(w);
                for (auto& ch : low)
                    ch = tolower(ch);
                std::string r = rename(low);
                t += (t.empty() ? "" : " ") + (r == low ? w : w[0] == toupper(w[0]) ? cat(char(toupper(r[0])), r.substr(1)) : r);
            }
            sec->set(rename(d.name), t);
        }
        // A section that is not of a matcher is ignored
        cfg.obtain("ignored")->set("x", "y");
        matcher::Parser parser, plain;
        parser.load_aliases(cfg);
        c.current(cfg.to_string());
        auto ser = parser.serialise_aliases();
        matcher::Parser again;
        again.load_aliases(*ser);
        matcher::AliasDatabase adb(cfg);
        adb.validate(*ser);
        for (size_t i = 0; i < names.size(); ++i)
            for (size_t j = 0; j <= names.size(); ++j)
            {
                Expr e;
                e[TYPE_ORIGIN] = wants[i];
                std::string t  = "origin:" + rename(names[i]);
                if (j < names.size())
                {
                    std::string nm = rename(names[j]);
                    if (nm != names[j])
                        nm[0] = toupper(nm[0]);
                    t += " or " + nm;
                    e[TYPE_ORIGIN].insert(wants[j].begin(), wants[j].end());
                }
                t += ";level:GRIB1,1";
                e[TYPE_LEVEL] = {5};
                c.current(t + " with " + cfg.to_string());
                Matcher m = parser.parse(t);
                check_expr(c, sets, m, e, t);
                check_expr(c, sets, again.parse(t), e, t + " with the aliases saved and loaded again");
                check_expr(c, sets, plain.parse(m.toStringExpanded()), e, "expanded " + t);
                check_expr(c, sets, parser.parse(m.toString()), e, "printed " + t);
            }
        // Aliases do not apply to other types, and unknown ones are refused
        for (std::string t : {"product:" + rename("one"), std::string("origin:nope"), "origin:" + rename("one") + "x"})
        {
            bool ok = false;
            try
            {
                parser.parse(t);
                ok = true;
            }
            catch (std::exception&)
            {
            }
            if (ok)
                throw Fail("alias-unknown", t + " is accepted");
        }
        // The same name with another meaning is a conflict
        for (size_t i = 0; i < 5; ++i)
        {
            core::cfg::Sections other(*ser);
            core::cfg::Sections o2;
            o2.obtain("origin")->set(rename(defs[i].name), "GRIB1,7");
            bool ok = false;
            try
            {
                adb.validate(o2);
                ok = true;
            }
            catch (std::exception&)
            {
            }
            if (ok)
                throw Fail("alias-conflict", cat("a different definition of ", defs[i].name, " is not a conflict"));
            // The last definition wins
            matcher::Parser p2;
            p2.load_aliases(cfg);
            p2.load_aliases(o2);
            Matcher m = p2.parse("origin:" + rename(defs[i].name));
            if (m.toStringExpanded() != "origin:GRIB1,7")
                throw Fail("alias-redefine", cat(defs[i].name, " redefined is ", m.toStringExpanded()));
        }
        // Aliases that refer to themselves, or to nothing, are refused
        for (std::string t : {"self", "nothing", "GRIB1,1 or other"})
        {
            core::cfg::Sections o2;
            o2.obtain("origin")->set("self", t);
            o2.obtain("origin")->set("other", "self");
            bool ok = false;
            try
            {
                matcher::Parser p2;
                p2.load_aliases(o2);
                ok = true;
            }
            catch (std::exception&)
            {
            }
            if (ok)
                throw Fail("alias-loop", "alias defined as " + t + " is accepted");
        }
        c.states();
        c.distinct(cfg.to_string());
    } while (std::next_permutation(order.begin(), order.end()));
}

void c18()
{
    arki::init();
    BBox::set_factory([] { return std::unique_ptr<BBox>(new RectBBox); });
    std::vector<std::string> tasks;
    for (std::string f : {"origin", "product", "level", "timerange", "values", "run", "odim", "bbox"})
    {
        size_t n = family(f).pats.size();
        size_t k = f == "product" || f == "values" || f == "level" || f == "timerange" ? 8 : 1;
        if (args.thorough)
            k *= 4;
        for (size_t i = 0; i < k && i < n; ++i)
            tasks.push_back(cat(f, "|", i, "|", k));
        tasks.push_back(cat(f, "-exact|0|1"));
        tasks.push_back(cat(f, "-bad|0|1"));
    }
    for (auto x : {"combine", "pairs", "aliases"})
        for (int i = 0; i < 8; ++i)
            tasks.push_back(cat(x, "|", i, "|8"));
    tasks.push_back("bad|0|1");
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f       = mc::split(task, '|');
        size_t part  = std::stoul(f[1]);
        size_t parts = std::stoul(f[2]);
        matcher::Parser parser;
        auto refused = [&](const std::string& t) {
            bool ok = false;
            c.current(t);
            try
            {
                parser.parse(t);
                ok = true;
            }
            catch (std::exception&)
            {
            }
            if (ok)
                c.fail("invalid|" + t, t + " is accepted");
            c.eval();
        };
        if (f[0] == "combine")
            combine(c, part, parts);
        else if (f[0] == "pairs")
            pairs(c, part, parts);
        else if (f[0] == "aliases")
            aliases(c, part, parts);
        else if (f[0] == "bad")
        {
            for (auto t : {"origin", "foo:GRIB1", "origin GRIB1,1", "GRIB1,1", ":GRIB1", "origin:GRIB1,1;level", "origin:GRIB1,1 or", "origin:GRIB1,1 or or BUFR", "origin:GRIB1,1;origin:GRIB1,2", "origin:GRIB1 origin:GRIB1"})
                refused(t);
            c.states();
        }
        else if (f[0].size() > 4 && f[0].substr(f[0].size() - 4) == "-bad")
        {
            auto& fam = family(f[0].substr(0, f[0].size() - 4));
            std::set<Code> codes;
            for (auto& p : fam.pats)
                codes.insert(p.code);
            for (auto code : codes)
                for (auto& b : fam.bad)
                    refused(std::string(type_name(code)) + ":" + b);
            c.states();
        }
        else if (f[0].size() > 6 && f[0].substr(f[0].size() - 6) == "-exact")
        {
            // The query for an item matches it and, where it identifies it, no other
            auto& fam = family(f[0].substr(0, f[0].size() - 6));
            for (auto& v : fam.vals)
            {
                c.current(v.desc);
                if (v.code == TYPE_TASK || v.code == TYPE_QUANTITY)
                    continue;
                std::string q = v.item->exactQuery();
                Matcher m     = parser.parse(std::string(type_name(v.code)) + ":" + q);
                if (!m(*v.item))
                    c.fail("exact", cat(v.desc, " is not matched by its query ", q));
                bool partial = std::find(v.s.begin(), v.s.end(), "") != v.s.end() || v.style == "VM2" || v.style == "ODIMH5" || !fam.exact || v.code == TYPE_TIMERANGE || (v.code == TYPE_PRODUCT && v.style == "GRIB2" && v.n[5] == 255);
                for (auto& w : fam.vals)
                    if (w.code == v.code && !partial && w.desc != v.desc && kv_subset(v.kv, w.kv) == (v.kv == w.kv) && m(*w.item))
                    {
                        c.fail("exact", cat(w.desc, " is matched by the query ", q, " for ", v.desc));
                        break;
                    }
                c.eval(fam.vals.size());
            }
            c.states();
        }
        else
        {
            auto& fam = family(f[0]);
            for (size_t i = part; i < fam.pats.size(); i += parts)
                try
                {
                    check_pat(c, parser, fam, fam.pats[i]);
                }
                catch (Fail& e)
                {
                    c.fail(e.key, e.what());
                }
                catch (std::exception& e)
                {
                    c.fail("error", cat(type_name(fam.pats[i].code), ":", fam.pats[i].text, ": ", e.what()));
                }
            c.sample(fam.pats[part].text);
        }
    });
}
mc::Register r18("C18", c18);

} // namespace
