// Summaries: whatever is added, merged, filtered, pruned, encoded and read
// back, in whatever order, they describe exactly what was put in them
#include "mc.h"
#include "mcsys.h"
#include "typegrid.h"
#include <arki/core/binary.h>
#include <arki/core/file.h>
#include <arki/core/time.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/runtime.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/summary.h>
#include <arki/summary/short.h>
#include <arki/summary/stats.h>
#include <arki/types/bbox.h>
#include <arki/types/source/blob.h>
#include <arki/types/typeset.h>
#include <arki/utils/compress.h>
#include <arki/utils/sys.h>
#include <fcntl.h>
#include <unistd.h>

using namespace mc;
using namespace arki;
using namespace arki::types;

namespace {

typedef std::vector<uint8_t> Bytes;
typedef summary::Stats Stats;

// In the order of the documentation of the encoding
const std::vector<Code> MSO{TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF, TYPE_BBOX, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};
// Bytes used for the size of each item in the first version of the encoding
const std::vector<unsigned> SERLEN{1, 1, 1, 1, 2, 2, 1, 1, 1, 1};

core::Time T(int i) { return core::Time(2020, 1, 1 + i / 24, i % 24, 0, 0); }

std::string enc(const Type& t)
{
    auto e = t.encodeBinary();
    return std::string(e.begin(), e.end());
}

struct MStats
{
    size_t count             = 0;
    unsigned long long size  = 0;
    core::Time begin, end;
    MStats() : begin(0, 0, 0), end(0, 0, 0) {}
    MStats(size_t c, unsigned long long s, core::Time b, core::Time e) : count(c), size(s), begin(b), end(e) {}
    void merge(const MStats& o)
    {
        if (!o.count)
            return;
        if (!count)
            *this = o;
        else
        {
            count += o.count;
            size += o.size;
            if (o.begin < begin)
                begin = o.begin;
            if (end < o.end)
                end = o.end;
        }
    }
    std::string str() const { return cat(count, "x", size, "b ", begin, " to ", end); }
    Stats stats() const
    {
        Stats s;
        s.count = count;
        s.size  = size;
        s.begin = begin;
        s.end   = end;
        return s;
    }
};

typedef std::map<Code, std::shared_ptr<Type>> Items;

// The items of a group, in the order of MSO, encoded
typedef std::vector<std::string> Key;

Key key(const Items& items)
{
    Key res(MSO.size());
    for (size_t i = 0; i < MSO.size(); ++i)
    {
        auto it = items.find(MSO[i]);
        if (it != items.end())
            res[i] = enc(*it->second);
    }
    return res;
}

struct Model
{
    std::map<Key, MStats> groups;
    void add(const Key& k, const MStats& s) { groups[k].merge(s); }
    void add(const Model& m)
    {
        for (auto& g : m.groups)
            add(g.first, g.second);
    }
    MStats total() const
    {
        MStats res;
        for (auto& g : groups)
            res.merge(g.second);
        return res;
    }
    std::string str() const
    {
        std::string res;
        for (auto& g : groups)
        {
            for (auto& i : g.first)
                res += (i.empty() ? "-" : std::to_string(hash(i) % 1000)) + ",";
            res += " " + g.second.str() + "; ";
        }
        return res;
    }
};

struct Msg
{
    Items items;
    Items other; // items that do not contribute
    MStats st;
    void set(const char* code, const char* val)
    {
        Code c   = parseCodeName(code);
        items[c] = std::shared_ptr<Type>(decodeString(c, val).release());
    }
    std::shared_ptr<Metadata> md() const
    {
        auto md = std::make_shared<Metadata>();
        for (auto& i : items)
            md->set(*i.second);
        for (auto& i : other)
            md->set(*i.second);
        md->set(Reftime::createPosition(st.begin));
        if (st.size)
            md->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "", "f", 10, st.size));
        return md;
    }
};

std::vector<Msg> msgs;

void prepare()
{
    auto mk = [](int t, unsigned long long size) {
        Msg m;
        m.st = MStats(1, size, T(t), T(t));
        return m;
    };
    auto all = [](Msg& m) {
        m.set("origin", "GRIB1(98, 1, 2)");
        m.set("product", "GRIB1(98, 128, 11)");
        m.set("level", "GRIB1(001)");
        m.set("timerange", "Timedef(6h, 1, 3h)");
        m.set("area", "GRIB(lat=45000000, lon=11000000)");
        m.set("proddef", "GRIB(tod=1)");
        m.set("run", "MINUTE(12:00)");
        m.set("quantity", "a, b");
        m.set("task", "radar");
        m.items[TYPE_BBOX] = std::shared_ptr<Type>(types::BBox::createInvalid().release());
    };
    msgs.clear();
    Msg m = mk(10, 10);
    m.set("origin", "GRIB1(200, 0, 101)");
    m.set("product", "GRIB1(200, 140, 229)");
    msgs.push_back(m); // 0
    Msg m1  = mk(2, 0);
    m1.items = m.items;
    msgs.push_back(m1); // 1: before, of no known size
    Msg m2  = mk(40, 5000000000ULL);
    m2.items = m.items;
    msgs.push_back(m2); // 2: after, big
    Msg m3 = mk(10, 7);
    m3.set("origin", "GRIB1(200, 0, 101)");
    m3.set("product", "GRIB1(200, 140, 230)");
    m3.set("level", "GRIB1(105, 2)");
    msgs.push_back(m3); // 3
    msgs.push_back(mk(2, 3)); // 4: nothing but a reference time
    Msg m5 = mk(30, 100);
    all(m5);
    msgs.push_back(m5); // 5
    Msg m6  = mk(11, 1);
    m6.items = m.items;
    m6.other[TYPE_VALUE] = std::shared_ptr<Type>(Value::create("test").release());
    m6.other[TYPE_ASSIGNEDDATASET] = std::shared_ptr<Type>(decodeString(TYPE_ASSIGNEDDATASET, "ds as 1 imported on 2020-01-01 00:00:00").release());
    msgs.push_back(m6); // 6: more items, same group
    Msg m7 = mk(30, 8);
    m7.set("origin", "GRIB1(200, 0, 101)");
    msgs.push_back(m7); // 7: the same, with less
    Msg m8 = mk(0, 9);
    all(m8);
    m8.items.erase(TYPE_AREA);
    msgs.push_back(m8); // 8
}

struct Filter
{
    std::string expr;
    std::function<bool(const Key&, const MStats&)> match;
};

std::vector<Filter> filters()
{
    auto item = [](unsigned msg, Code code) {
        size_t pos = std::find(MSO.begin(), MSO.end(), code) - MSO.begin();
        return std::make_pair(pos, enc(*msgs[msg].items.at(code)));
    };
    auto p0 = item(0, TYPE_PRODUCT), p3 = item(3, TYPE_PRODUCT), o0 = item(0, TYPE_ORIGIN), t5 = item(5, TYPE_TASK);
    std::vector<Filter> res;
    res.push_back({"product:GRIB1,200,140,229", [=](const Key& k, const MStats&) { return k[p0.first] == p0.second; }});
    res.push_back({"product:GRIB1,200,140,229 or GRIB1,,,230; origin:GRIB1,200", [=](const Key& k, const MStats&) { return (k[p0.first] == p0.second || k[p3.first] == p3.second) && k[o0.first] == o0.second; }});
    res.push_back({"reftime:>=2020-01-01 11:00", [=](const Key&, const MStats& s) { return !(s.end < T(11)); }});
    res.push_back({"reftime:=2020-01-01 10:00:00", [=](const Key&, const MStats& s) { return !(s.end < T(10)) && !(T(10) < s.begin); }});
    res.push_back({"reftime:<2020-01-01 10:00; task:radar", [=](const Key& k, const MStats& s) { return s.begin < T(10) && k[t5.first] == t5.second; }});
    res.push_back({"", [](const Key&, const MStats&) { return true; }});
    return res;
}

Matcher matcher(const std::string& expr)
{
    static std::map<std::string, Matcher> cache;
    auto i = cache.find(expr);
    if (i != cache.end())
        return i->second;
    matcher::Parser p;
    return cache[expr] = p.parse(expr);
}

// What is found visiting a summary
struct Collect : public summary::Visitor
{
    Model m;
    unsigned rows = 0;
    bool operator()(const std::vector<const Type*>& md, const Stats& s) override
    {
        ++rows;
        Key k(MSO.size());
        if (md.size() != MSO.size())
            throw Fail("visit", cat("visitor gets ", md.size(), " items"));
        for (size_t i = 0; i < md.size(); ++i)
            if (md[i])
            {
                if (md[i]->type_code() != MSO[i])
                    throw Fail("visit", cat("visitor gets ", *md[i], " at position ", i));
                k[i] = enc(*md[i]);
            }
        if (m.groups.count(k))
            throw Fail("groups", "the same group is visited twice");
        m.groups[k] = MStats(s.count, s.size, s.begin, s.end);
        return true;
    }
};

Model contents(const Summary& s)
{
    Collect c;
    s.visit(c);
    return c.m;
}

void same(const std::string& what, const Model& got, const Model& exp)
{
    if (got.str() != exp.str())
        throw Fail(what, cat(what, ": the summary has ", got.str(), " instead of ", exp.str()));
}

// Metadata with the items of a group
std::shared_ptr<Metadata> md_of(const Key& k)
{
    auto md = std::make_shared<Metadata>();
    for (auto& i : k)
    {
        if (i.empty())
            continue;
        core::BinaryDecoder dec((const uint8_t*)i.data(), i.size());
        md->set(Type::decode(dec));
    }
    return md;
}

void build(const Model& m, Summary& res, bool reverse = false)
{
    std::vector<std::pair<Key, MStats>> v(m.groups.begin(), m.groups.end());
    if (reverse)
        std::reverse(v.begin(), v.end());
    for (auto& g : v)
        res.add(*md_of(g.first), g.second.stats());
}

// The encodings that are not written any more, but can be read
struct OldEncoder
{
    unsigned split; // number of items in the first level of the tree
    bool trim;      // leave out the undefined items at the end
    bool position;  // how reference times are given when there is one

    void stripe(core::BinaryEncoder& e, const Key& k, size_t from, size_t to)
    {
        if (trim && to == MSO.size())
            while (to > from && k[to - 1].empty())
                --to;
        e.add_unsigned((unsigned)(to - from), 2);
        for (size_t i = from; i < to; ++i)
        {
            if (k[i].empty())
            {
                e.add_unsigned(0u, SERLEN[i]);
                continue;
            }
            core::BinaryDecoder dec((const uint8_t*)k[i].data(), k[i].size());
            Code code;
            core::BinaryDecoder inner = dec.pop_type_envelope(code);
            e.add_unsigned((unsigned)inner.size, SERLEN[i]);
            e.add_raw(inner.buf, inner.size);
        }
    }
    Bytes stats(const MStats& s)
    {
        Bytes res;
        core::BinaryEncoder e(res);
        e.add_unsigned((unsigned)s.count, 4);
        Bytes rt;
        core::BinaryEncoder re(rt);
        auto time = [&](const core::Time& t) {
            uint32_t a = ((t.ye & 0x3fff) << 18) | ((t.mo & 0xf) << 14) | ((t.da & 0x1f) << 9) | ((t.ho & 0x1f) << 4) | ((t.mi >> 2) & 0xf);
            re.add_unsigned(a, 4);
            re.add_unsigned(((t.mi & 0x3u) << 6) | (t.se & 0x3fu), 1);
        };
        if (position && s.begin == s.end)
        {
            re.add_unsigned(1u, 1);
            time(s.begin);
        }
        else
        {
            re.add_unsigned(2u, 1);
            time(s.begin);
            time(s.end);
        }
        e.add_varint((unsigned)TYPE_REFTIME);
        e.add_varint(rt.size());
        e.add_raw(rt);
        e.add_unsigned((unsigned long long)s.size, 8);
        return res;
    }
    Bytes encode(const Model& m)
    {
        Bytes res;
        core::BinaryEncoder e(res);
        if (m.groups.empty())
            return res;
        // Root: no items
        std::map<Key, std::vector<std::pair<Key, MStats>>> tree;
        for (auto& g : m.groups)
            tree[Key(g.first.begin(), g.first.begin() + split)].push_back(g);
        e.add_unsigned(0u, 2);
        e.add_unsigned((unsigned)tree.size(), 2);
        for (auto& t : tree)
        {
            if (split == MSO.size())
                stripe(e, t.second[0].first, 0, split);
            else
            {
                e.add_unsigned(split, 2);
                for (size_t i = 0; i < split; ++i)
                {
                    auto& k = t.first[i];
                    if (k.empty())
                    {
                        e.add_unsigned(0u, SERLEN[i]);
                        continue;
                    }
                    core::BinaryDecoder dec((const uint8_t*)k.data(), k.size());
                    Code code;
                    core::BinaryDecoder inner = dec.pop_type_envelope(code);
                    e.add_unsigned((unsigned)inner.size, SERLEN[i]);
                    e.add_raw(inner.buf, inner.size);
                }
                e.add_unsigned((unsigned)t.second.size(), 2);
            }
            for (auto& g : t.second)
            {
                if (split != MSO.size())
                    stripe(e, g.first, split, MSO.size());
                e.add_unsigned(0u, 2);
                auto s = stats(g.second);
                e.add_unsigned((unsigned)s.size(), 2);
                e.add_raw(s);
            }
        }
        return res;
    }
};

Bytes bundle(unsigned version, const Bytes& body)
{
    Bytes res;
    core::BinaryEncoder e(res);
    e.add_string("SU");
    e.add_unsigned(version, 2);
    e.add_unsigned((unsigned)body.size(), 4);
    e.add_raw(body);
    return res;
}

void read_enc(Summary& s, const Bytes& b)
{
    core::BinaryDecoder dec(b);
    s.read(dec, "test");
    if (dec.size)
        throw Fail("read", cat(dec.size, " bytes left after reading"));
}

void read_text(Summary& s, const std::string& text)
{
    auto r = core::LineReader::from_chars(text.data(), text.size());
    s.readYaml(*r, "test");
}

void read_structure(Summary& s, const Summary& from, bool json)
{
    structured::Memory mem;
    if (json)
    {
        std::stringstream out;
        structured::JSON j(out);
        from.serialise(j, structured::keys_json);
        std::string text = out.str();
        auto r           = core::BufferedReader::from_string(text);
        structured::JSON::parse(*r, mem);
    }
    else
        from.serialise(mem, structured::keys_json);
    s.read(structured::keys_json, mem.root());
}

// A summary being worked on, and what it should be
struct World
{
    std::unique_ptr<Summary> s;
    Model m;
    World() : s(new Summary) {}
};

const std::vector<std::string>& alphabet()
{
    static std::vector<std::string> v{"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "st", "s0", "s1", "rd", "ry", "k0", "k1", "k2", "f0", "f1", "f2", "f3", "f4", "enc", "zip", "yaml", "json", "mem", "v1", "c", "q"};
    return v;
}

void sub(Summary& s, Model& m, std::vector<unsigned> v)
{
    for (auto i : v)
    {
        s.add(*msgs[i].md());
        m.add(key(msgs[i].items), msgs[i].st);
    }
}

void run_op(World& w, const std::string& op)
{
    auto replace = [&](std::function<void(Summary&)> f) {
        std::unique_ptr<Summary> n(new Summary);
        f(*n);
        w.s = std::move(n);
    };
    if (op[0] == 'a')
    {
        unsigned i = op[1] - '0';
        w.s->add(*msgs[i].md());
        w.m.add(key(msgs[i].items), msgs[i].st);
    }
    else if (op == "st")
    {
        MStats st(3, 70, T(1), T(12));
        w.s->add(*msgs[0].md(), st.stats());
        w.m.add(key(msgs[0].items), st);
    }
    else if (op == "s0" || op == "s1" || op == "rd" || op == "ry")
    {
        Summary s;
        Model m;
        sub(s, m, op == "s1" ? std::vector<unsigned>{1, 4, 3, 1} : std::vector<unsigned>{5, 2});
        if (op == "rd")
            read_enc(*w.s, s.encode(true));
        else if (op == "ry")
            read_text(*w.s, s.to_yaml());
        else
            w.s->add(s);
        w.m.add(m);
    }
    else if (op[0] == 'k')
    {
        std::set<Code> keep;
        if (op == "k1")
            keep = {TYPE_ORIGIN};
        else if (op == "k2")
            keep = {TYPE_PRODUCT, TYPE_REFTIME, TYPE_TASK};
        replace([&](Summary& s) { s.add(*w.s, keep); });
        Model m;
        for (auto& g : w.m.groups)
        {
            Key k = g.first;
            for (size_t i = 0; i < MSO.size(); ++i)
                if (!keep.count(MSO[i]))
                    k[i].clear();
            m.add(k, g.second);
        }
        w.m = m;
    }
    else if (op[0] == 'f')
    {
        static auto f = filters();
        auto& x       = f[op[1] - '0'];
        replace([&](Summary& s) { w.s->filter(matcher(x.expr), s); });
        Model m;
        for (auto& g : w.m.groups)
            if (x.match(g.first, g.second))
                m.add(g.first, g.second);
        w.m = m;
    }
    else if (op == "enc" || op == "zip")
        replace([&](Summary& s) { read_enc(s, w.s->encode(op == "zip")); });
    else if (op == "yaml")
        replace([&](Summary& s) { read_text(s, w.s->to_yaml()); });
    else if (op == "json" || op == "mem")
        replace([&](Summary& s) { read_structure(s, *w.s, op == "json"); });
    else if (op == "v1")
        replace([&](Summary& s) { read_enc(s, bundle(1, OldEncoder{2, true, false}.encode(contents(*w.s)))); });
    else if (op == "c")
    {
        w.s->clear();
        w.m = Model();
    }
    else if (op == "q")
    {
        Summary other;
        (void)(*w.s == other);
        (void)w.s->to_yaml();
        (void)w.s->count();
    }
    else
        throw std::runtime_error("unknown operation " + op);
}

void check(const Summary& s, const Model& m)
{
    MStats tot = m.total();
    if (s.count() != tot.count || s.size() != tot.size || s.empty() != m.groups.empty())
        throw Fail("totals", cat("the summary says ", s.count(), " messages and ", s.size(), " bytes instead of ", tot.str()));
    if (m.groups.empty())
    {
        bool threw = false;
        try
        {
            s.get_reference_time();
        }
        catch (std::exception&)
        {
            threw = true;
        }
        if (!threw)
            throw Fail("reftime", "an empty summary has a reference time");
    }
    else
    {
        core::Interval exp(tot.begin, tot.end.next_instant());
        if (s.get_reference_time() != exp)
            throw Fail("reftime", cat("the reference time of the summary is ", s.get_reference_time(), " instead of ", exp));
    }
    for (unsigned i = 0; i < 4; ++i)
    {
        core::Interval iv;
        if (i == 1)
            iv = core::Interval(T(10), T(10).next_instant());
        else if (i == 2)
            iv = core::Interval(T(0), T(200));
        else if (i == 3)
            iv = core::Interval(core::Time(2019, 1, 1), core::Time(2019, 1, 2));
        core::Interval exp = iv;
        if (!m.groups.empty())
        {
            core::Time e = tot.end.next_instant();
            if (i == 0)
                exp = core::Interval(tot.begin, e);
            else
                exp = core::Interval(std::min(iv.begin, tot.begin), std::max(iv.end, e));
        }
        core::Interval got = iv;
        s.expand_date_range(got);
        // Intervals without bounds are left for what has no data
        if (i == 0 ? (!m.groups.empty() && got != exp && got != iv) : got != exp)
            throw Fail("expand_date_range", cat(iv, " extended to contain the data of the summary is ", got, " instead of ", exp));
    }
    same("contents", contents(s), m);
    static auto fl = filters();
    for (auto& f : fl)
    {
        Model exp;
        for (auto& g : m.groups)
            if (f.match(g.first, g.second))
                exp.groups.insert(g);
        Collect c;
        s.visitFiltered(matcher(f.expr), c);
        same("filtered", c.m, exp);
        if (s.match(matcher(f.expr)) != !exp.groups.empty())
            throw Fail("match", cat("the summary ", exp.groups.empty() ? "matches " : "does not match ", quote(f.expr)));
    }
}

// More, for each state found
void check_state(const Summary& s, const Model& m)
{
    // Comparison with others
    for (bool rev : {false, true})
    {
        Summary o;
        build(m, o, rev);
        if (!(s == o) || !(o == s) || s != o)
            throw Fail("equality", "the summary is different from one with the same groups");
        check(o, m);
    }
    auto differs = [&](const Model& d, const char* what) {
        Summary o;
        build(d, o);
        if (s == o || o == s)
            throw Fail("equality", cat("the summary is equal to one ", what));
    };
    for (auto& g : m.groups)
    {
        Model d = m;
        d.groups[g.first].count += 1;
        differs(d, "with a different count");
        d = m;
        d.groups[g.first].size += 1ULL << 32;
        differs(d, "with a different size");
        d = m;
        d.groups[g.first].end = core::Time(2021, 1, 1);
        differs(d, "with a different end");
        d = m;
        d.groups[g.first].begin = core::Time(2019, 1, 1);
        differs(d, "with a different begin");
        d = m;
        d.groups.erase(g.first);
        differs(d, "without a group");
        d     = m;
        Key k = g.first;
        k[9]  = enc(*Task::create("another"));
        d.groups.erase(g.first);
        d.groups[k] = g.second;
        differs(d, "with another group");
    }

    // Encodings
    auto rd = [&](const char* what, std::function<void(Summary&)> f) {
        Summary o;
        try
        {
            f(o);
        }
        catch (Fail&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            throw Fail(what, cat(what, ": what was written cannot be read: ", e.what()));
        }
        same(what, contents(o), m);
        check(o, m);
        if (!(s == o))
            throw Fail(what, cat(what, ": what is read is different from what was written"));
    };
    rd("encode", [&](Summary& o) { read_enc(o, s.encode(false)); });
    rd("compressed", [&](Summary& o) { read_enc(o, s.encode(true)); });
    rd("yaml", [&](Summary& o) { read_text(o, s.to_yaml()); });
    rd("json", [&](Summary& o) { read_structure(o, s, true); });
    rd("structure", [&](Summary& o) { read_structure(o, s, false); });
    for (unsigned split : {0u, 1u, 3u, 7u, 10u})
        for (bool trim : {false, true})
        {
            auto old = OldEncoder{split, trim, trim}.encode(m);
            rd("version 1", [&](Summary& o) { read_enc(o, bundle(1, old)); });
            auto comp = old.empty() ? Bytes() : utils::compress::lzo(old.data(), old.size());
            if (!old.empty() && comp.size() < old.size())
            {
                Bytes b;
                core::BinaryEncoder e(b);
                e.add_unsigned((unsigned)old.size(), 4);
                e.add_raw(comp);
                rd("version 2", [&](Summary& o) { read_enc(o, bundle(2, b)); });
            }
        }

    // Files, one summary after the other
    auto path = scratch() + "/summary";
    {
        core::File out(path, O_RDWR | O_CREAT | O_TRUNC);
        s.write(out);
        Summary two;
        two.add(*msgs[3].md());
        two.write(out);
        s.write(out);
        lseek(out, 0, SEEK_SET);
        Summary a, b, c, d;
        if (!a.read(out) || !b.read(out) || !c.read(out))
            throw Fail("file", "summaries written to a file are not read back");
        if (d.read(out))
            throw Fail("file", "a summary is read after the end of a file");
        if (!(a == s) || !(b == two) || !(c == s))
            throw Fail("file", "summaries read from a file are not those written");
        check(a, m);
        check(c, m);
    }
    {
        Summary w;
        w.add(s);
        w.writeAtomically(path);
        Summary a;
        a.read_file(path);
        if (!(a == s))
            throw Fail("file", "the summary read from a file is not the one written");
        check(a, m);
    }
    {
        Summary a, b;
        std::string text = s.to_yaml() + "\n" + s.to_yaml();
        auto r           = core::LineReader::from_chars(text.data(), text.size());
        a.readYaml(*r, "test");
        b.readYaml(*r, "test");
        if (!(a == s) || !(b == s))
            throw Fail("yaml", "YAML summaries one after the other are not read as written");
    }

    // Short form
    summary::Short sh, sh1;
    s.visit(sh);
    {
        Summary o;
        build(m, o, true);
        o.visit(sh1);
    }
    MStats tot = m.total();
    if (sh.stats.count != tot.count || sh.stats.size != tot.size || (tot.count && (sh.stats.begin != tot.begin || sh.stats.end != tot.end)))
        throw Fail("short", cat("the short summary has ", sh.stats.toYaml()));
    std::map<Code, std::set<std::string>> exp, got;
    for (auto& g : m.groups)
        for (size_t i = 0; i < MSO.size(); ++i)
            if (!g.first[i].empty())
                exp[MSO[i]].insert(g.first[i]);
    for (auto& i : sh.items)
        for (auto& t : i.second)
            got[i.first].insert(enc(*t));
    if (exp != got)
        throw Fail("short", "the short summary does not list the items of the data");
    for (auto& i : sh.items)
    {
        if (!(i.second == sh1.items[i.first]))
            throw Fail("short", "the short summary depends on the order");
        for (auto& j : sh.items)
            if (i.first != j.first && i.second.size() == j.second.size() && i.second == j.second)
                throw Fail("short", "different items are the same");
    }
    std::stringstream y1, y2;
    sh.write_yaml(y1);
    sh1.write_yaml(y2);
    if (y1.str() != y2.str())
        throw Fail("short", "the text of the short summary depends on the order");
}

void ops_task(Ctx& ctx, const std::string& task)
{
    // Tasks are prefixes, to be extended up to the given depth
    auto parts     = split(task, '|');
    auto prefix    = split(parts[0], ' ');
    unsigned depth = std::stoul(parts[1]);
    std::vector<std::string> seq(prefix);
    std::function<void()> rec = [&]() {
        std::string text = join(seq, " ");
        ctx.current(text);
        try
        {
            World w;
            for (auto& op : seq)
            {
                try
                {
                    run_op(w, op);
                }
                catch (Fail&)
                {
                    throw;
                }
                catch (std::exception& e)
                {
                    throw Fail("error", cat(op, ": ", e.what()));
                }
            }
            ctx.eval();
            ctx.transitions(seq.size());
            check(*w.s, w.m);
            if (!ctx.visited(hash(w.m.str())))
            {
                ctx.states();
                ctx.distinct(w.m.str());
                check_state(*w.s, w.m);
            }
            check(*w.s, w.m);
        }
        catch (Fail& f)
        {
            ctx.fail(f.key, cat(text, ": ", f.what()));
            return;
        }
        catch (std::exception& e)
        {
            ctx.fail("error", cat(text, ": ", e.what()));
            return;
        }
        if (seq.size() < depth)
            for (auto& o : alphabet())
            {
                seq.push_back(o);
                rec();
                seq.pop_back();
            }
    };
    rec();
}

// Items of all types and values
void grid_task(Ctx& ctx, const std::string& task)
{
    auto parts  = split(task, ' ');
    Code code   = parseCodeName(parts[1]);
    size_t part = std::stoul(parts[2]), of = std::stoul(parts[3]);
    auto grid  = typegrid::grid(code, args.thorough);
    size_t pos = std::find(MSO.begin(), MSO.end(), code) - MSO.begin();
    for (size_t i = part; i < grid.v.size(); i += of)
    {
        auto& a = grid.v[i];
        auto& b = grid.v[(i + 1) % grid.v.size()];
        std::string text = cat("item ", parts[1], " ", i);
        ctx.current(text);
        ctx.eval();
        try
        {
            bool eq = *a.item == *b.item;
            Msg m;
            m.items[code] = a.item;
            m.st          = MStats(1, 10, T(1), T(1));
            Msg n;
            n.items[code] = b.item;
            n.st          = MStats(1, 20, T(2), T(2));
            Model exp;
            exp.add(key(m.items), m.st);
            exp.add(eq ? key(m.items) : key(n.items), n.st);
            Summary s;
            s.add(*m.md());
            s.add(*n.md());
            s.add(*m.md());
            exp.groups[key(m.items)].merge(m.st);
            same("contents", contents(s), exp);
            for (bool comp : {false, true})
            {
                Summary o;
                read_enc(o, s.encode(comp));
                same("encode", contents(o), exp);
                if (!(s == o))
                    throw Fail("encode", "what is read is different from what was written");
            }
            for (bool json : {false, true})
            {
                Summary o;
                read_structure(o, s, json);
                same("structure", contents(o), exp);
            }
            // YAML values have no comments, and no spaces around
            auto plain = [](const typegrid::Entry& e) {
                auto s = e.item->to_string();
                return e.text == typegrid::EXACT && s.find_first_of("#\n\r") == std::string::npos && !typegrid::spaces(s);
            };
            if (plain(a) && plain(b))
            {
                Summary o;
                read_text(o, s.to_yaml());
                same("yaml", contents(o), exp);
                ctx.extra(0);
            }
            ctx.distinct(exp.groups.begin()->first[pos]);
        }
        catch (Fail& f)
        {
            ctx.fail(f.key, cat(text, " ", *a.item, ": ", f.what()));
        }
        catch (std::exception& e)
        {
            ctx.fail("error", cat(text, " ", *a.item, ": ", e.what()));
        }
    }
}

// Many messages
void many_task(Ctx& ctx, const std::string& task)
{
    auto parts     = split(task, ' ');
    unsigned n     = std::stoul(parts[1]);
    unsigned kinds = std::stoul(parts[2]);
    ctx.current(task);
    ctx.eval();
    try
    {
        Summary s;
        Model m;
        std::vector<std::shared_ptr<Metadata>> mds;
        for (auto& x : msgs)
            mds.push_back(x.md());
        if (kinds <= msgs.size())
            for (unsigned i = 0; i < n; ++i)
            {
                unsigned k = i % kinds;
                s.add(*mds[k]);
                m.add(key(msgs[k].items), msgs[k].st);
            }
        else
            for (unsigned i = 0; i < n; ++i)
            {
                Msg x;
                x.items[TYPE_LEVEL] = std::shared_ptr<Type>(Level::createGRIB1(105, (i * 7919) % kinds).release());
                x.st                = MStats(1, i, T(i % 100), T(i % 100));
                s.add(*x.md());
                m.add(key(x.items), x.st);
            }
        check(s, m);
        check_state(s, m);
        ctx.distinct(cat(n, " ", kinds));
        ctx.states();
    }
    catch (Fail& f)
    {
        ctx.fail(f.key, cat(task, ": ", f.what()));
    }
    catch (std::exception& e)
    {
        ctx.fail("error", cat(task, ": ", e.what()));
    }
}

Register c21("C21", [] {
    arki::init();
    prepare();
    name_extra(0, "items_through_yaml");
    unsigned depth = args.thorough ? 5 : 4;
    note("depth", std::to_string(depth));
    note("operations", std::to_string(alphabet().size()));
    std::vector<std::string> tasks;
    for (auto& a : alphabet())
        for (auto& b : alphabet())
            tasks.push_back(cat("ops ", a, " ", b, "|", depth));
    run_tasks(
        tasks, [](Ctx& ctx, const std::string& t) { ops_task(ctx, t.substr(4)); }, "ops ");
    tasks.clear();
    for (auto code : MSO)
        if (code != TYPE_BBOX)
            for (unsigned i = 0; i < 8; ++i)
                tasks.push_back(cat("grid ", formatCode(code), " ", i, " 8"));
    run_tasks(tasks, grid_task, "grid ");
    tasks.clear();
    for (unsigned n : {1000u, 99999u, 100000u, 100001u, 100002u, 100003u, 200005u})
        for (unsigned k : {1u, 3u, 9u})
            tasks.push_back(cat("many ", n, " ", k));
    tasks.push_back("many 3000 300");
    if (args.thorough)
        tasks.push_back("many 210000 1000");
    run_tasks(tasks, many_task, "many ");
});

} // namespace
