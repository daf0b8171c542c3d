// Metadata items of all types and styles, from the boundaries of the values
// that their fields can have
#ifndef TYPEGRID_H
#define TYPEGRID_H
#include <arki/core/binary.h>
#include <arki/core/time.h>
#include <arki/types.h>
#include <arki/types/area.h>
#include <arki/types/assigneddataset.h>
#include <arki/types/level.h>
#include <arki/types/note.h>
#include <arki/types/origin.h>
#include <arki/types/proddef.h>
#include <arki/types/product.h>
#include <arki/types/quantity.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/task.h>
#include <arki/types/timerange.h>
#include <arki/types/value.h>
#include <arki/types/values.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace typegrid {

using namespace arki;
using namespace arki::types;

typedef std::shared_ptr<Type> Item;
typedef std::vector<long> LV;
typedef std::vector<std::string> SV;

template <typename T> void product_of(const std::vector<std::vector<T>>& choices, std::function<void(const std::vector<T>&)> f)
{
    std::vector<T> cur;
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == choices.size())
        {
            f(cur);
            return;
        }
        for (auto& x : choices[i])
        {
            cur.push_back(x);
            rec(i + 1);
            cur.pop_back();
        }
    };
    rec(0);
}

// What the text of an item can say of it
enum Text
{
    EXACT, // the same item can be read from it
    LOSSY, // reading it gives some other item
};

// The text of items is a list of fields without quotes: spaces around them are not kept
inline bool spaces(const std::string& s) { return !s.empty() && (isspace((unsigned char)s.front()) || isspace((unsigned char)s.back())); }

struct Entry
{
    Item item;
    Text text;
    SV fields; // what it was made of, empty if not told
};

inline SV num(const LV& v)
{
    SV res;
    for (auto& n : v)
        res.push_back(std::to_string(n));
    return res;
}

struct Grid
{
    std::vector<Entry> v;
    template <typename T> void add(std::unique_ptr<T> i, Text t = EXACT, const SV& fields = SV()) { v.push_back({Item(i.release()), t, fields}); }
};

struct KVal
{
    bool is_int;
    int i;
    std::string s;
};

inline std::vector<KVal> kv_values(bool thorough)
{
    std::vector<KVal> res;
    std::vector<int> ints{0, 1, -1, 5, 30, 31, 32, 63, 64, -31, -32, -33, -64, 127, 128, 255, 256, -255, -256, 65535, 65536, 8388607, 8388608, 16777215, 16777216, -16777216, 45000000, 2147483647, -2147483647, -2147483647 - 1};
    if (!thorough)
        ints = {0, -1, 30, 31, -32, -33, 255, 256, 65536, 16777216, 2147483647, -2147483647, -2147483647 - 1};
    for (int i : ints)
        res.push_back({true, i, ""});
    SV strs{"", "a", "x y", "1", "-1", "0x10", "010", " 1", "1 ", "1.5", "1e5", "\"", "a\"b", "\\", "a\\", "\\n", "\n", "\t", "\r", "a,b", "a;b", "a=b", "a, b=1", ")", "(", "a)", "-", "+", "\x01", "\x1f", "\x7f", std::string("\0", 1), std::string("a\0b", 3), "\xc3\xa8", std::string(62, 'x'), std::string(63, 'y')};
    if (!thorough)
        strs = {"", "a", "x y", "1", "0x10", "1.5", "a\"b", "a\\", "\\n", "\n", "\r", "a, b=1", "a;b", ")", "\x01", "\x7f", std::string("a\0b", 3), "\xc3\xa8", std::string(63, 'y')};
    for (auto& s : strs)
        res.push_back({false, 0, s});
    return res;
}

typedef std::map<std::string, std::string> KV;

inline void add_kv(values::ValueBagBuilder& b, KV& kv, const std::string& k, const KVal& v)
{
    if (v.is_int)
        b.add(k, v.i);
    else
        b.add(k, v.s);
    kv[k] = v.is_int ? std::to_string(v.i) : "s" + v.s;
}

inline SV kvs(const KV& kv)
{
    SV res;
    for (auto& i : kv)
        res.push_back(i.first + "=" + i.second);
    return res;
}

// Sets of up to three keys
inline void kv_bags(bool thorough, std::function<void(const ValueBag&, const SV&)> f)
{
    auto vals = kv_values(thorough);
    auto few  = kv_values(false);
    std::vector<KVal> tiny{{true, 0, ""}, {true, -70000, ""}, {false, 0, "1"}, {false, 0, "x,y"}};
    f(values::ValueBagBuilder().build(), {});
    SV keys{"a", "ab", "b", "A", "lat", std::string(70, 'k'), std::string(255, 'k')};
    for (auto& k : keys)
        for (auto& v : vals)
        {
            values::ValueBagBuilder b;
            KV kv;
            add_kv(b, kv, k, v);
            f(b.build(), kvs(kv));
        }
    // The keys are given in all orders
    for (auto& k1 : keys)
        for (auto& k2 : keys)
            if (k1 != k2)
                for (auto& v : thorough ? few : tiny)
                    for (auto& w : tiny)
                    {
                        values::ValueBagBuilder b;
            KV kv;
                        add_kv(b, kv, k1, v);
                        add_kv(b, kv, k2, w);
                        f(b.build(), kvs(kv));
                    }
    for (auto& v : tiny)
        for (auto& w : tiny)
            for (auto& x : tiny)
            {
                values::ValueBagBuilder b;
            KV kv;
                add_kv(b, kv, "c", x);
                add_kv(b, kv, "a", v);
                add_kv(b, kv, "b", w);
                f(b.build(), kvs(kv));
            }
}

inline std::vector<core::Time> times()
{
    return {core::Time(1, 1, 1, 0, 0, 0),     core::Time(1970, 1, 1, 0, 0, 0), core::Time(2007, 7, 8, 13, 2, 3),       core::Time(2007, 7, 8, 13, 2, 4),
            core::Time(2007, 7, 8, 13, 3, 0), core::Time(2007, 7, 8, 14, 0, 0), core::Time(2007, 7, 9, 0, 0, 0),       core::Time(2007, 8, 1, 0, 0, 0),
            core::Time(2008, 1, 1, 0, 0, 0),  core::Time(2008, 2, 29, 23, 59, 59), core::Time(2099, 12, 31, 23, 59, 59), core::Time(9999, 12, 31, 23, 59, 59)};
}

// Strings, some of which have characters special to some of the formats
inline SV strings(bool thorough)
{
    SV res{"a", "A", "ab", "a b", "b", "0", "a:b", "a\"b", "a\\b", "a/b", "\xc3\xa8", "\x01", "a\nb", "a\tb", "a\rb", "a\x08\x0c", "a&<b>", "%41", "{}[]", "null", std::string(127, 'x'), std::string(128, 'x'), std::string(300, 'y')};
    if (thorough)
        for (int c = 1; c < 256; ++c)
            res.push_back(std::string("x") + (char)c + "y");
    return res;
}

// Fields of levels, of types, scales and values that can be missing
inline SV missing(const LV& v)
{
    SV res = num(v);
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == (i % 3 == 2 ? 0xffffffffl : 255))
            res[i] = "null";
    return res;
}

inline SV stamped(const core::Time& t, const SV& s)
{
    SV res = num({t.ye, t.mo, t.da, t.ho, t.mi, t.se});
    for (auto& x : s)
        res.push_back("s" + x);
    return res;
}

inline int level_nvals(long t)
{
    // Number of values of GRIB1 level types
    static const std::set<long> none{1, 2, 3, 4, 5, 6, 7, 8, 102, 200, 201};
    static const std::set<long> one{20, 100, 103, 105, 107, 109, 111, 113, 115, 117, 118, 121, 122, 160};
    if (none.count(t))
        return 0;
    if (one.count(t))
        return 1;
    return 2;
}

inline std::unique_ptr<AssignedDataset> assigned(const core::Time& t, const std::string& name, const std::string& id)
{
    std::vector<uint8_t> buf;
    core::BinaryEncoder enc(buf);
    t.encodeWithoutEnvelope(enc);
    enc.add_unsigned(name.size(), 1);
    enc.add_raw(name);
    enc.add_unsigned(id.size(), 2);
    enc.add_raw(id);
    core::BinaryDecoder dec(buf);
    return AssignedDataset::decode(dec, false);
}

inline Grid grid(Code code, bool thorough)
{
    Grid g;
    const LV b8 = thorough ? LV{0, 1, 2, 127, 128, 254, 255} : LV{0, 1, 128, 255};
    switch (code)
    {
        case TYPE_ORIGIN:
            product_of<long>({b8, b8, b8}, [&](const LV& n) { g.add(Origin::createGRIB1(n[0], n[1], n[2]), EXACT, num(n)); });
            product_of<long>({{0, 255, 256, 65535}, {0, 98, 65535}, {0, 1, 255}, {0, 1, 255}, {0, 1, 255}}, [&](const LV& n) { g.add(Origin::createGRIB2(n[0], n[1], n[2], n[3], n[4]), EXACT, num(n)); });
            product_of<long>({b8, b8}, [&](const LV& n) { g.add(Origin::createBUFR(n[0], n[1]), EXACT, num(n)); });
            product_of<std::string>({{"", "16144", "w m o"}, {"", "IT", "X"}, {"", "itspc", "a(b)"}}, [&](const SV& s) { g.add(Origin::createODIMH5(s[0], s[1], s[2]), EXACT, {"s" + s[0], "s" + s[1], "s" + s[2]}); });
            for (auto& s : strings(thorough))
                if (s.find(',') == std::string::npos && s.size() < 256)
                {
                    g.add(Origin::createODIMH5(s, "x", "y"), spaces(s) ? LOSSY : EXACT, {"s" + s, "sx", "sy"});
                    g.add(Origin::createODIMH5("x", "y", s), spaces(s) ? LOSSY : EXACT, {"sx", "sy", "s" + s});
                }
            break;
        case TYPE_PRODUCT:
            product_of<long>({b8, b8, b8}, [&](const LV& n) { g.add(Product::createGRIB1(n[0], n[1], n[2]), EXACT, num(n)); });
            product_of<long>({{0, 255, 256, 65535}, {0, 1, 255}, {0, 255}, {0, 255}, {0, 4, 5, 255}, {0, 4, 255}}, [&](const LV& n) { g.add(Product::createGRIB2(n[0], n[1], n[2], n[3], n[4], n[5]), EXACT, num(n)); });
            product_of<long>({b8, b8, b8}, [&](const LV& n) { g.add(Product::createBUFR(n[0], n[1], n[2]), EXACT, num(n)); });
            kv_bags(false, [&](const ValueBag& b, const SV& kv) { SV f{"1", "255", "0"};
                f.insert(f.end(), kv.begin(), kv.end());
                g.add(Product::createBUFR(1, 255, 0, b), EXACT, f); });
            product_of<std::string>({{"PVOL", "S C", "x"}, {"SCAN", "PVOL", "z"}}, [&](const SV& s) { g.add(Product::createODIMH5(s[0], s[1]), EXACT, {"s" + s[0], "s" + s[1]}); });
            for (auto& s : {"", "A"})
            {
                g.add(Product::createODIMH5(s, ""), LOSSY);
                g.add(Product::createODIMH5("", s), LOSSY);
            }
            for (auto& s : strings(thorough))
            {
                g.add(Product::createODIMH5(s, "p"), s.find(',') == std::string::npos && !spaces(s) ? EXACT : LOSSY, {"s" + s, "sp"});
                g.add(Product::createODIMH5("o", s), s.find(',') == std::string::npos && !spaces(s) ? EXACT : LOSSY, {"so", "s" + s});
            }
            for (unsigned i : {0u, 1u, 255u, 256u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
                g.add(Product::createVM2(i), EXACT, num({i}));
            break;
        case TYPE_LEVEL:
            for (int t = 0; t < 256; ++t)
                switch (level_nvals(t))
                {
                    case 0: g.add(Level::createGRIB1(t), EXACT, num({t})); break;
                    case 1:
                        for (int l : {0, 1, 127, 128, 255, 256, 16383, 16384, 65535})
                            g.add(Level::createGRIB1(t, l), EXACT, num({t, l}));
                        break;
                    default:
                        for (int l1 : {0, 1, 128, 255})
                            for (int l2 : {0, 1, 255})
                                g.add(Level::createGRIB1(t, l1, l2), EXACT, num({t, l1, l2}));
                        break;
                }
            product_of<long>({{0, 1, 100, 254, 255}, {0, 1, 129, 254, 255}, {0, 1, 127, 128, 65536, 0x7fffffff, 0x80000000l, 0xfffffffel, 0xffffffffl}}, [&](const LV& n) { g.add(Level::createGRIB2S(n[0], n[1], n[2]), EXACT, n[2] == 0x7fffffff ? SV() : missing(n)); });
            product_of<long>({{0, 254, 255}, {0, 129, 255}, {0, 128, 0xfffffffel, 0xffffffffl}, {0, 1, 255}, {0, 254, 255}, {0, 0x7fffffff, 0x80000000l, 0xffffffffl}}, [&](const LV& n) { g.add(Level::createGRIB2D(n[0], n[1], n[2], n[3], n[4], n[5]), EXACT, missing(n)); });
            {
                // The text has 5 significant digits
                std::vector<std::pair<double, bool>> d{{0, true}, {0.5, true}, {-0.5, true}, {1, true}, {1.4, true}, {10, true}, {12.345, true}, {27.9, true}, {90, true}, {-90, true}, {12345, true}, {1.0 / 3, false}, {0.1234567, false}, {123456.75, false}, {1e-7, true}, {1.3999999761581421, false}, {4294967296.0, false}, {1e10, true}, {-3e9, true}};
                for (auto& a : d)
                    for (auto& b : d)
                        g.add(Level::createODIMH5(a.first, b.first), a.second && b.second ? EXACT : LOSSY);
            }
            break;
        case TYPE_TIMERANGE: {
            const LV units{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
            LV types{0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 51, 113, 114, 115, 116, 117, 118, 119, 123, 124, 125, 128, 129, 130, 131};
            if (!thorough)
                types = {0, 1, 2, 4, 10, 13, 51, 113, 118, 123, 131};
            product_of<long>({types, units, {0, 1, 60, 255}, {0, 6, 255}}, [&](const LV& n) {
                // Values that do not mean anything are not in the text
                bool p1 = true, p2 = true;
                switch (n[0])
                {
                    case 0: p2 = false; break;
                    case 1: p1 = p2 = false; break;
                    case 118: case 123: case 124: p1 = false; break;
                }
                g.add(Timerange::createGRIB1(n[0], n[1], n[2], n[3]), (p1 || !n[2]) && (p2 || !n[3]) ? EXACT : LOSSY, n[0] == 1 ? SV() : num(n));
            });
            product_of<long>({{0, 1, 2, 254, 255}, units, {0, 1, 127, 128, 255, 256, 70000, 2147483647, -1, -128, -256, -70000}, {0, 6, 65536, 2147483647, -2147483647}}, [&](const LV& n) { g.add(Timerange::createGRIB2(n[0], n[1], n[2], n[3]), EXACT, num(n)); });
            using namespace timerange;
            std::vector<TimedefUnit> tu{UNIT_MINUTE, UNIT_HOUR, UNIT_DAY, UNIT_MONTH, UNIT_YEAR, UNIT_DECADE, UNIT_NORMAL, UNIT_CENTURY, UNIT_3HOURS, UNIT_6HOURS, UNIT_12HOURS, UNIT_SECOND, UNIT_MISSING};
            // Unknown durations have no value
            auto lens = [&](TimedefUnit u, std::vector<uint32_t> l) { return u == UNIT_MISSING ? std::vector<uint32_t>{0} : l; };
            for (auto u : tu)
                for (auto l : lens(u, {0, 1, 2, 3, 6, 7, 12, 24, 30, 60, 127, 128, 360, 3600, 21600, 86400, 90000, 1000000}))
                {
                    g.add(Timerange::createTimedef(l, u), EXACT, num({l, l || u == UNIT_MISSING ? (long)u : (long)UNIT_SECOND}));
                    if (l > 60 && !thorough)
                        continue;
                    for (int st : {0, 1, 10, 205, 254})
                        for (auto su : tu)
                            for (auto sl : lens(su, thorough ? std::vector<uint32_t>{0, 1, 3, 12, 24, 30, 60, 180, 3600, 10800, 86400} : std::vector<uint32_t>{0, 1, 12, 180}))
                                g.add(Timerange::createTimedef(l, u, st, sl, su), EXACT, su == UNIT_MISSING ? num({l, l || u == UNIT_MISSING ? (long)u : (long)UNIT_SECOND, st}) : num({l, l || u == UNIT_MISSING ? (long)u : (long)UNIT_SECOND, st, sl, sl ? (long)su : (long)UNIT_SECOND}));
                }
            for (long u : units)
                for (unsigned v : {0, 1, 2, 3, 6, 12, 24, 60, 127, 128, 3600, 21600, 86400, 1000000})
                    g.add(Timerange::createBUFR(v, u), v || u == 254 ? EXACT : LOSSY, num({u, v}));
            break;
        }
        case TYPE_REFTIME:
            for (int ye : {1, 99, 1970, 2007, 2008, 9999})
                for (int mo : {1, 2, 12})
                    for (int da : {1, 28})
                        for (int ho : {0, 23})
                            for (int mi : {0, 59})
                                for (int se : {0, 59})
                                    g.add(Reftime::createPosition(core::Time(ye, mo, da, ho, mi, se)), EXACT, num({ye, mo, da, ho, mi, se}));
            break;
        case TYPE_NOTE:
            for (auto& t : times())
            {
                g.add(Note::create(t, ""), EXACT, stamped(t, {""}));
                for (auto& s : thorough || t.ye == 2007 ? strings(thorough) : SV{"a"})
                    g.add(Note::create(t, s), EXACT, stamped(t, {s}));
                g.add(Note::create(t, "[2007-01-01T00:00:00Z]x"));
            }
            break;
        case TYPE_SOURCE: {
            std::vector<DataFormat> formats{DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5, DataFormat::NETCDF, DataFormat::JPEG};
            std::vector<uint64_t> sizes{0, 1, 127, 128, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff};
            for (auto f : formats)
            {
                if (!thorough && f != DataFormat::GRIB && f != DataFormat::ODIMH5)
                    sizes = {0, 128};
                for (auto& name : {"a.grib", "2007/07-08.grib", "a:b+c.grib", "b", "/abs/x.grib", "with, comma", "p(a)"})
                    for (auto o : sizes)
                        for (auto s : sizes)
                            g.add(Source::createBlobUnlocked(f, "", name, o, s));
                for (auto s : sizes)
                    g.add(Source::createInline(f, s));
                for (auto& s : strings(thorough))
                    g.add(Source::createURL(f, s));
                g.add(Source::createURL(f, "http://example.org/query?a=1,2&b=(x)"));
            }
            break;
        }
        case TYPE_ASSIGNEDDATASET:
            for (auto& t : times())
                for (auto& n : {"lami", "a b", "x", "error", "LAMI"})
                    for (auto& id : {"", "1", "2007/07.grib:123", "id with spaces"})
                        g.add(assigned(t, n, id), EXACT, stamped(t, {n, id}));
            g.add(assigned(times()[0], std::string(255, 'n'), std::string(300, 'i')));
            for (auto& s : strings(thorough))
                if (s.size() < 256)
                    g.add(assigned(times()[2], s, s));
            break;
        case TYPE_AREA:
            kv_bags(thorough, [&](const ValueBag& b, const SV& kv) {
                g.add(area::GRIB::create(b), EXACT, kv);
            });
            kv_bags(false, [&](const ValueBag& b, const SV& kv) { g.add(area::ODIMH5::create(b), EXACT, kv); });
            for (unsigned i : {0u, 1u, 255u, 256u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
                g.add(area::VM2::create(i), EXACT, num({i}));
            break;
        case TYPE_PRODDEF:
            kv_bags(thorough, [&](const ValueBag& b, const SV& kv) { g.add(Proddef::createGRIB(b), EXACT, kv); });
            break;
        case TYPE_RUN:
            for (int h = 0; h < 24; ++h)
                for (int m = 0; m < 60; ++m)
                    g.add(Run::createMinute(h, m));
            break;
        case TYPE_TASK:
            for (auto& s : strings(thorough))
                g.add(Task::create(s), EXACT, {"s" + s});
            break;
        case TYPE_QUANTITY: {
            SV q{"a", "A", "ab", "ACRR", "b c", "TH", "\"", "\\", std::string(130, 'q')};
            for (unsigned m = 1; m < (1u << q.size()); ++m)
            {
                std::set<std::string> s;
                for (unsigned i = 0; i < q.size(); ++i)
                    if (m & (1 << i))
                        s.insert(q[i]);
                SV f;
                for (auto& x : s)
                    f.push_back("s" + x);
                g.add(Quantity::create(s), EXACT, f);
            }
            for (auto& s : strings(thorough))
                g.add(Quantity::create(std::set<std::string>{s}), s.find(',') == std::string::npos && !spaces(s) ? EXACT : LOSSY);
            break;
        }
        case TYPE_VALUE:
            g.add(types::Value::create(""));
            for (auto& s : strings(thorough))
                g.add(types::Value::create(s), EXACT, {"s" + s});
            for (auto& s : {std::string("\0", 1), std::string("a\0b", 3), std::string("\"x\""), std::string("\\x41"), std::string("1.5,,,000000000"), std::string(" a ")})
                g.add(types::Value::create(s), EXACT, {"s" + s});
            break;
        default: break;
    }
    return g;
}

inline const std::vector<std::pair<Code, const char*>>& all_codes()
{
    static const std::vector<std::pair<Code, const char*>> res{{TYPE_ORIGIN, "origin"}, {TYPE_PRODUCT, "product"}, {TYPE_LEVEL, "level"}, {TYPE_TIMERANGE, "timerange"}, {TYPE_REFTIME, "reftime"}, {TYPE_NOTE, "note"}, {TYPE_SOURCE, "source"}, {TYPE_ASSIGNEDDATASET, "assigneddataset"}, {TYPE_AREA, "area"}, {TYPE_PRODDEF, "proddef"}, {TYPE_RUN, "run"}, {TYPE_TASK, "task"}, {TYPE_QUANTITY, "quantity"}, {TYPE_VALUE, "value"}};
    return res;
}

} // namespace typegrid
#endif
