// Sorting and grouping the results of queries: all expressions, all sequences
// of data up to a length, and all kinds of datasets, against an ordering
// computed from the keys of the data. Then splitting data in batches, as
// arki-xargs does.
#include "common_ds.h"
#include <algorithm>
#include <arki/core/file.h>
#include <arki/core/binary.h>
#include <arki/data.h>
#include <arki/dataset/file.h>
#include <arki/dataset/fromfunction.h>
#include <arki/dataset/memory.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/metadata/clusterer.h>
#include <arki/metadata/data.h>
#include <arki/metadata/sort.h>
#include <arki/metadata/xargs.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/segment/scan.h>
#include <arki/segment/session.h>
#include <arki/stream.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/source/blob.h>
#include <arki/types/timerange.h>
#include <filesystem>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

/*
 * The meaning of sort expressions
 */

const char* KEYS[] = {"reftime", "product", "level", "origin", "run"};

// A value for each key, or -1 if it is missing
struct Elem
{
    std::string t; // empty if missing
    int v[5];
    unsigned idx;
};

Elem elem(const Msg& m, unsigned idx = 0)
{
    Elem e;
    e.t    = m.t;
    e.idx  = idx;
    e.v[0] = 0;
    e.v[1] = m.p;
    e.v[2] = m.l ? (int)m.l : -1;
    e.v[3] = m.a;
    e.v[4] = m.p % 2 == 0 ? 360 : -1;
    return e;
}

struct Order
{
    std::string interval;
    std::vector<std::pair<unsigned, bool>> keys; // and if they are reversed

    size_t prefix() const
    {
        return interval == "year" ? 4 : interval == "month" ? 7 : interval == "day" ? 10 : interval == "hour" ? 13 : interval == "minute" ? 16 : 0;
    }
    std::string period(const Elem& e) const { return e.t.substr(0, prefix()); }

    int keycmp(const Elem& a, const Elem& b) const
    {
        for (const auto& k : keys)
        {
            int res = 0;
            if (k.first == 0)
                res = a.t < b.t ? -1 : a.t > b.t ? 1 : 0;
            else
                res = a.v[k.first] < b.v[k.first] ? -1 : a.v[k.first] > b.v[k.first] ? 1 : 0;
            if (res)
                return k.second ? -res : res;
        }
        return 0;
    }
    int cmp(const Elem& a, const Elem& b) const
    {
        if (!interval.empty())
        {
            if (a.t.empty() != b.t.empty())
                return a.t.empty() ? -1 : 1;
            auto pa = period(a), pb = period(b);
            if (pa != pb)
                return pa < pb ? -1 : 1;
        }
        return keycmp(a, b);
    }
    std::string str() const
    {
        std::string res = interval;
        if (!interval.empty())
            res += ":";
        for (size_t i = 0; i < keys.size(); ++i)
            res += std::string(i ? "," : "") + (keys[i].second ? "-" : "") + KEYS[keys[i].first];
        return res;
    }
};

const char* INTERVALS[] = {"", "minute", "hour", "day", "month", "year"};

std::vector<Order> orders(unsigned maxkeys, unsigned nkeys = 5)
{
    std::vector<Order> res;
    for (auto i : INTERVALS)
    {
        std::vector<std::vector<std::pair<unsigned, bool>>> lists{{}};
        for (unsigned len = 1; len <= maxkeys; ++len)
        {
            std::vector<std::vector<std::pair<unsigned, bool>>> next;
            for (const auto& l : lists)
                for (unsigned k = 0; k < nkeys; ++k)
                    for (bool r : {false, true})
                    {
                        if (std::any_of(l.begin(), l.end(), [&](auto& x) { return x.first == k; }))
                            continue;
                        auto n = l;
                        n.emplace_back(k, r);
                        Order o;
                        o.interval = i;
                        o.keys     = n;
                        res.push_back(o);
                        next.push_back(n);
                    }
            lists = next;
        }
    }
    return res;
}

Order order_of(const std::string& s)
{
    Order o;
    auto rest = s;
    auto pos  = s.find(':');
    if (pos != std::string::npos)
    {
        o.interval = s.substr(0, pos);
        rest       = s.substr(pos + 1);
    }
    for (auto k : split(rest, ','))
    {
        bool r = !k.empty() && k[0] == '-';
        if (r)
            k = k.substr(1);
        for (unsigned i = 0; i < 5; ++i)
            if (k == KEYS[i])
                o.keys.emplace_back(i, r);
    }
    return o;
}

// Metadata for sequences: instants around the ends of all kinds of intervals
const char* TIMES[] = {"2019-12-31T23:59:59Z", "2020-01-01T00:00:00Z", "2020-01-01T00:00:59Z", "2020-01-01T00:01:00Z", "2020-01-01T01:00:00Z",
                       "2020-01-02T00:00:00Z", "2020-02-01T00:00:00Z", "2021-01-01T00:00:00Z", "2021-01-01T00:00:01Z", ""};
constexpr unsigned NTIMES = 10;

Msg smsg(unsigned t, unsigned p, unsigned l)
{
    Msg m;
    m.t = TIMES[t];
    m.p = p;
    m.l = l;
    m.a = 1;
    return m;
}

std::shared_ptr<Metadata> smeta(const Msg& m)
{
    if (!m.t.empty())
        return m.inlined();
    Msg n   = m;
    n.t     = TIMES[0];
    auto md = n.inlined();
    md->unset(TYPE_REFTIME);
    return md;
}

/*
 * Expressions
 */

void check_expressions(Ctx& c)
{
    // Each way to write an expression, compared on all pairs of values
    std::vector<Msg> vals;
    for (unsigned t = 0; t < NTIMES; ++t)
        for (unsigned p : {1, 2})
            for (unsigned l : {0, 5})
                vals.push_back(smsg(t, p, l));
    std::vector<std::shared_ptr<Metadata>> mds;
    std::vector<Elem> elems;
    for (auto& m : vals)
    {
        mds.push_back(smeta(m));
        elems.push_back(elem(m));
    }
    auto sign = [](int i) { return i < 0 ? -1 : i > 0 ? 1 : 0; };
    for (const auto& o : orders(mc::args.thorough ? 3 : 2, 4))
    {
        std::string base = o.str();
        c.current("order " + base);
        std::vector<std::string> forms{base};
        {
            std::string plus = o.interval.empty() ? "" : o.interval + ":", spaces = o.interval.empty() ? "" : " " + o.interval + " :", upper = base;
            for (size_t i = 0; i < o.keys.size(); ++i)
            {
                plus += std::string(i ? "," : "") + (o.keys[i].second ? "-" : "+") + KEYS[o.keys[i].first];
                spaces += std::string(i ? " , " : "") + (o.keys[i].second ? "- " : "") + KEYS[o.keys[i].first];
            }
            for (auto& ch : upper)
                ch = toupper(ch);
            forms.push_back(plus);
            forms.push_back(spaces);
            forms.push_back(upper);
        }
        for (const auto& f : forms)
        {
            std::unique_ptr<metadata::sort::Compare> cmp;
            try
            {
                cmp = metadata::sort::Compare::parse(f);
                if (cmp->toString() != base)
                    throw mc::Fail("sort-string", "'" + f + "' becomes '" + cmp->toString() + "' instead of '" + base + "'");
                cmp = metadata::sort::Compare::parse(cmp->toString());
            }
            catch (mc::Fail&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                throw mc::Fail("sort-parse", "cannot parse '" + f + "': " + e.what());
            }
            for (size_t i = 0; i < mds.size(); ++i)
                for (size_t j = 0; j < mds.size(); ++j)
                {
                    c.eval(), c.states();
                    int got = sign(cmp->compare(*mds[i], *mds[j]));
                    int exp = o.cmp(elems[i], elems[j]);
                    if (got != exp)
                        c.fail("sort-compare", "'" + f + "' compares " + vals[i].id() + " and " + vals[j].id() + " as " + std::to_string(got) + " instead of " + std::to_string(exp));
                }
        }
    }
    // No expression: by reference time
    {
        auto cmp = metadata::sort::Compare::parse("");
        Order o;
        o.keys.emplace_back(0, false);
        for (size_t i = 0; i < mds.size(); ++i)
            for (size_t j = 0; j < mds.size(); ++j)
                if (sign(cmp->compare(*mds[i], *mds[j])) != o.cmp(elems[i], elems[j]))
                    c.fail("sort-compare", "the empty expression compares " + vals[i].id() + " and " + vals[j].id() + " in the wrong way");
    }
    // Not expressions
    for (auto bad : {"antani", "-", "day", "week:reftime", ":reftime", "day:antani", "reftime:day", "reftime;product", "--reftime", "day:hour:reftime", "reftime product"})
    {
        c.eval(), c.states();
        c.current(std::string("invalid ") + bad);
        std::string res;
        try
        {
            res = metadata::sort::Compare::parse(bad)->toString();
        }
        catch (std::exception& e)
        {
            continue;
        }
        c.fail("sort-accepted", std::string("'") + bad + "' is accepted as '" + res + "'");
    }
}

/*
 * Sorting streams
 */

struct Stream : public metadata::sort::Stream
{
    using metadata::sort::Stream::Stream;
};

void check_stream(Ctx& c, const std::string& task)
{
    // task is stream|LEN|order
    auto args = split(task, '|');
    unsigned len = std::stoul(args[1]);
    Order o      = order_of(args[2]);
    auto cmp     = metadata::sort::Compare::parse(args[2]);

    std::vector<Msg> vals;
    for (unsigned t = 0; t < NTIMES; ++t)
        for (unsigned p : {2, 1})
        {
            if (len > 3 && p == 1 && t % 2)
                continue;
            vals.push_back(smsg(t, p, 0));
        }
    std::vector<std::shared_ptr<Metadata>> mds;
    for (auto& m : vals)
        mds.push_back(smeta(m));

    std::vector<unsigned> seq(len, 0);
    while (true)
    {
        // Expected results
        bool in_order = true;
        std::vector<Elem> input;
        for (unsigned i = 0; i < len; ++i)
            input.push_back(elem(vals[seq[i]], i));
        std::vector<unsigned> exp;
        if (o.interval.empty())
        {
            auto s = input;
            std::stable_sort(s.begin(), s.end(), [&](auto& a, auto& b) { return o.cmp(a, b) < 0; });
            for (auto& e : s)
                exp.push_back(e.idx);
        }
        else
        {
            // What has no reference time stays where it is
            std::string last;
            std::vector<Elem> group;
            auto flush = [&] {
                std::stable_sort(group.begin(), group.end(), [&](auto& a, auto& b) { return o.keycmp(a, b) < 0; });
                for (auto& e : group)
                    exp.push_back(e.idx);
                group.clear();
            };
            for (auto& e : input)
            {
                if (e.t.empty())
                {
                    flush();
                    exp.push_back(e.idx);
                    continue;
                }
                auto p = o.period(e);
                if (p != last)
                    flush();
                if (p < last)
                    in_order = false;
                last = p;
                group.push_back(e);
            }
            flush();
        }
        for (unsigned stop = 0; stop <= len; ++stop)
        {
            c.eval(), c.states();
            std::string name;
            for (auto i : seq)
                name += " " + vals[i].t + "/" + std::to_string(vals[i].p);
            c.current("stream sorted by " + args[2] + ":" + name + " stopping at " + std::to_string(stop));
            // Recognise elements, which can be repeated, by address
            std::vector<std::shared_ptr<Metadata>> in;
            for (auto i : seq)
                in.push_back(std::make_shared<Metadata>());
            for (unsigned i = 0; i < len; ++i)
                in[i] = mds[seq[i]]->clone();
            std::vector<unsigned> got;
            bool stopped = false, after = false;
            Stream s(*cmp, [&](std::shared_ptr<Metadata> md) {
                if (stopped)
                    after = true;
                for (unsigned i = 0; i < len; ++i)
                    if (in[i] == md)
                        got.push_back(i);
                if (stop && got.size() == stop)
                {
                    stopped = true;
                    return false;
                }
                return true;
            });
            bool res = true;
            for (unsigned i = 0; i < len && res; ++i)
                res = s.add(in[i]);
            if (res)
                res = s.flush();
            if (after)
                throw mc::Fail("sort-after-stop", "elements are sent after the destination asked to stop");
            if (res == stopped)
                throw mc::Fail("sort-stop-lost", std::string("sorting tells that ") + (res ? "all was sent" : "it was stopped") + " when it was not so");
            auto e = exp;
            if (stop)
                e.resize(stop);
            if (!in_order)
            {
                // Only the contents can be predicted
                if (stop)
                {
                    if (got.size() != stop)
                        throw mc::Fail("sort-lost", "sent " + std::to_string(got.size()) + " elements instead of " + std::to_string(stop));
                    continue;
                }
                std::sort(got.begin(), got.end());
                std::sort(e.begin(), e.end());
            }
            if (got != e)
            {
                std::string g, x;
                for (auto i : got)
                    g += " " + std::to_string(i);
                for (auto i : e)
                    x += " " + std::to_string(i);
                throw mc::Fail(in_order ? "sort-order" : "sort-lost", "order is" + g + " instead of" + x);
            }
        }
        // Sorted all at once
        {
            c.eval(), c.states();
            metadata::Collection mdc;
            std::vector<std::shared_ptr<Metadata>> in;
            for (unsigned i = 0; i < len; ++i)
            {
                in.push_back(mds[seq[i]]->clone());
                mdc.push_back(in.back());
            }
            mdc.sort(*cmp);
            auto s = input;
            std::stable_sort(s.begin(), s.end(), [&](auto& a, auto& b) { return o.cmp(a, b) < 0; });
            unsigned n = 0;
            std::string got, exp;
            for (const auto& md : mdc)
            {
                for (unsigned i = 0; i < len; ++i)
                    if (in[i] == md)
                        got += " " + std::to_string(i);
                exp += " " + std::to_string(s[n++].idx);
            }
            c.distinct("list" + got);
            if (got != exp)
                throw mc::Fail("sort-collection", "sorted as a list, the order is" + got + " instead of" + exp);
        }
        unsigned pos = 0;
        while (pos < len && ++seq[pos] == vals.size())
            seq[pos++] = 0;
        if (pos == len)
            break;
    }
}

/*
 * Sorting queries
 */

// Data in a dataset, in the order in which it gets imported
std::vector<Msg> contents(const std::string& which)
{
    // Times in three months, with all boundaries of days, hours and minutes
    std::vector<std::string> times{"2020-01-01T00:00:00Z", "2020-01-01T00:00:30Z", "2020-01-01T00:01:00Z", "2020-01-01T23:59:59Z",
                                   "2020-01-02T00:00:00Z", "2020-01-31T23:00:00Z", "2020-02-01T00:00:00Z", "2020-02-01T01:00:00Z"};
    std::vector<Msg> res;
    unsigned n = 0;
    for (auto& t : times)
        for (unsigned p : {1, 2})
        {
            Msg m;
            m.t    = t;
            m.p    = p;
            m.a    = 1 + (n * 7) % 5;
            m.l    = n % 3 ? 10 * (n % 3) : 0;
            m.fill = std::string(n % 4, 'x');
            res.push_back(m);
            ++n;
        }
    if (which == "reverse")
        std::reverse(res.begin(), res.end());
    else if (which == "mixed")
    {
        std::vector<Msg> r;
        for (unsigned i = 0; i < res.size(); ++i)
            r.push_back(res[(i * 7 + 3) % res.size()]);
        res = r;
    }
    else if (which == "byprod")
        std::stable_sort(res.begin(), res.end(), [](auto& a, auto& b) { return a.p < b.p; });
    return res;
}

void import(World& w, const std::vector<Msg>& msgs)
{
    auto o = dataset::SessionTime::local_override(now());
    for (auto& m : msgs)
    {
        metadata::InboundBatch batch;
        batch.add(m.inlined());
        dataset::AcquireConfig cfg;
        auto wr = w.writer();
        wr->acquire_batch(batch, cfg);
        wr->flush();
        if (batch[0]->result != metadata::Inbound::Result::OK)
            throw mc::Fail("import", "cannot import " + m.id());
    }
}

struct Row
{
    Msg m;
    std::string file;
};

std::vector<Row> sorted_query(dataset::Reader& r, const Matcher& m, const std::string& sort, bool with_data)
{
    std::vector<Row> res;
    query::Data q(m, with_data);
    if (sort != "none")
        q.sorter = metadata::sort::Compare::parse(sort);
    r.query_data(q, [&](std::shared_ptr<Metadata> md) {
        Row row;
        if (md->has_source_blob())
            row.file = md->sourceBlob().absolutePathname();
        // Without its data, recognise it by size
        row.m.t = md->get<types::Reftime>()->get_Position().to_iso8601();
        auto prod = md->get(TYPE_PRODUCT)->to_string();
        row.m.p   = std::stoul(prod.substr(prod.rfind(',') + 1));
        if (with_data)
        {
            auto b = md->get_data().read();
            if (!Msg::parse(DataFormat::GRIB, std::string(b.begin(), b.end()), row.m))
                throw mc::Fail("sort-data", "data is damaged");
        }
        res.push_back(row);
        return true;
    });
    return res;
}

void check_dataset(Ctx& c, const std::string& task)
{
    // task is ds|kind|conf|order of import
    auto args = split(task, '|');
    init();
    std::string root = fresh_scratch();
    auto msgs        = contents(args[3]);
    std::string kind = args[1];
    std::shared_ptr<dataset::Dataset> ds;
    std::shared_ptr<dataset::Reader> reader;
    std::vector<std::shared_ptr<World>> worlds;
    auto session  = std::make_shared<dataset::Session>(false);
    bool segments = false; // it is made of segments, each one sorted on its own
    std::string step;
    if (kind == "local")
    {
        auto conf = Conf::parse(args[2]);
        step      = conf.step;
        worlds.push_back(std::make_shared<World>(conf, root + "/ds"));
        import(*worlds[0], msgs);
        for (const auto& op : split(args.size() > 4 ? args[4] : "", ' '))
            if (!op.empty())
                apply(*worlds[0], op);
        reader   = worlds[0]->reader();
        segments = true;
    }
    else if (kind == "merged")
    {
        auto pool = std::make_shared<dataset::Pool>(session);
        unsigned n = 0;
        for (auto& cs : split(args[2], '+'))
        {
            auto conf = Conf::parse(cs);
            step      = conf.step;
            worlds.push_back(std::make_shared<World>(conf, root + "/ds" + std::to_string(n)));
            std::vector<Msg> some;
            for (unsigned i = n; i < msgs.size(); i += 2)
                some.push_back(msgs[i]);
            import(*worlds[n], some);
            auto sec = conf.section(root + "/ds" + std::to_string(n), "ds" + std::to_string(n));
            pool->add_dataset(*sec);
            ++n;
        }
        ds       = std::make_shared<dataset::merged::Dataset>(pool);
        reader   = ds->create_reader();
        segments = true;
    }
    else if (kind == "memory")
    {
        auto mem = std::make_shared<dataset::memory::Dataset>(session);
        for (auto& m : msgs)
            mem->acquire(m.inlined());
        ds     = mem;
        reader = ds->create_reader();
    }
    else if (kind == "function")
    {
        core::cfg::Section cfg;
        cfg.set("name", "fun");
        cfg.set("format", "grib");
        auto fds       = std::make_shared<dataset::fromfunction::Dataset>(session, cfg);
        auto r         = std::make_shared<dataset::fromfunction::Reader>(fds);
        r->generator   = [&](metadata_dest_func dest) {
            for (auto& m : msgs)
                if (!dest(m.inlined()))
                    return false;
            return true;
        };
        reader = r;
        ds     = fds;
    }
    else
    {
        fs::create_directories(root);
        std::string path;
        if (kind == "file")
        {
            path = root + "/data.grib";
            std::string all;
            for (auto& m : msgs)
                all += m.bytes();
            spew(path, all);
        }
        else
        {
            path = root + "/data." + kind;
            auto f = std::make_shared<core::File>(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
            for (auto& m : msgs)
            {
                auto md = m.inlined();
                if (kind == "arkimet")
                    md->write(*f);
                else
                {
                    // Yaml has no room for data
                    spew(root + "/" + std::to_string(f->lseek(0, SEEK_CUR)) + ".grib", m.bytes());
                    md->set_source(types::Source::createBlobUnlocked(DataFormat::GRIB, root, std::to_string(f->lseek(0, SEEK_CUR)) + ".grib", 0, m.bytes().size()));
                    auto y = md->to_yaml() + "\n";
                    f->write_all_or_throw(y.data(), y.size());
                }
            }
            f->close();
        }
        ds     = session->dataset(*session->read_config(path));
        reader = ds->create_reader();
    }

    struct
    {
        std::string expr;
        std::function<bool(const Msg&)> match;
    } queries[] = {{"", [](const Msg&) { return true; }},
                   {"reftime:>=2020-01-01 00:01:00,<=2020-02-01 00:00:00", [](const Msg& m) { return m.t >= "2020-01-01T00:01:00Z" && m.t <= "2020-02-01T00:00:00Z"; }},
                   {"product:GRIB1,200,140,2", [](const Msg& m) { return m.p == 2; }}};
    // What is sorted while it is read needs to come in order of interval
    bool streamed = kind == "function" || kind == "file" || kind == "arkimet" || kind == "yaml";
    unsigned rank = step == "daily" ? 3 : step == "monthly" ? 4 : 5;
    auto os = orders(mc::args.thorough ? 2 : 1);
    if (!mc::args.thorough)
        for (const auto& o : orders(2, 3))
            if (o.keys.size() > 1 && o.keys[0].first > 0)
                os.push_back(o);
    for (const auto& o : os)
        for (const auto& q : queries)
            for (bool with_data : {true, false})
            {
                if (!with_data && o.keys.size() > 1)
                    continue;
                if (kind == "merged" && !mc::args.thorough && o.keys.size() > 1)
                    continue;
                c.eval(), c.states();
                auto sort = o.str();
                c.current(task + " query '" + q.expr + "' sorted by " + sort);
                auto got = sorted_query(*reader, matcher::Parser().parse(q.expr), sort, with_data);
                std::vector<std::string> g, e;
                for (auto& r : got)
                    g.push_back(with_data ? r.m.id() : r.m.t + std::to_string(r.m.p));
                for (auto& m : msgs)
                    if (q.match(m))
                        e.push_back(with_data ? m.id() : m.t + std::to_string(m.p));
                {
                    std::string order = "query";
                    for (auto& i : g)
                        order += " " + i;
                    c.distinct(order);
                }
                std::sort(g.begin(), g.end());
                std::sort(e.begin(), e.end());
                if (g != e)
                {
                    c.fail("sort-lost", "a sorted query finds " + std::to_string(g.size()) + " elements instead of " + std::to_string(e.size()));
                    continue;
                }
                unsigned level = std::find(std::begin(INTERVALS), std::end(INTERVALS), o.interval) - std::begin(INTERVALS);
                // All is sorted when groups fit in segments
                bool fits = !segments || (level > 0 && level <= rank);
                for (size_t i = 1; i < got.size(); ++i)
                {
                    const auto &a = got[i - 1], &b = got[i];
                    Elem ea = elem(a.m), eb = elem(b.m);
                    if (!with_data)
                        // Only these are known
                        if (o.keys[0].first > 1)
                            continue;
                    if (o.cmp(ea, eb) <= 0)
                        continue;
                    if (streamed && level > 0 && args[3] != "order")
                        break;
                    if (fits || (a.file == b.file && kind != "merged"))
                        c.fail("sort-order", a.m.id() + " comes before " + b.m.id());
                    else if (kind != "merged")
                        c.fail("sort-across-segments", a.m.id() + " comes before " + b.m.id() + ", which is in another segment");
                    break;
                }
                if (with_data)
                {
                    // The same happens with data
                    query::Bytes bq;
                    bq.setData(matcher::Parser().parse(q.expr));
                    bq.sorter = metadata::sort::Compare::parse(sort);
                    std::vector<uint8_t> buf;
                    auto out = StreamOutput::create(buf);
                    reader->query_bytes(bq, *out);
                    std::string exp;
                    for (auto& r : got)
                        exp += r.m.bytes();
                    if (std::string(buf.begin(), buf.end()) != exp)
                    {
                        // Ties between datasets can be broken either way
                        if (kind != "merged" || buf.size() != exp.size())
                            c.fail("sort-bytes", "data is not sorted like metadata");
                    }
                    // Stopping
                    for (unsigned stop : {1u, 3u})
                    {
                        unsigned n = 0;
                        query::Data dq(matcher::Parser().parse(q.expr), false);
                        dq.sorter = metadata::sort::Compare::parse(sort);
                        bool res  = reader->query_data(dq, [&](std::shared_ptr<Metadata>) { return ++n < stop; });
                        if (n > stop)
                            c.fail("sort-after-stop", "elements are sent after the destination asked to stop");
                        if (res && n >= stop)
                            c.fail("sort-stop-lost", "the query does not tell that it was stopped");
                    }
                }
            }
}

/*
 * Batches
 */

struct Item
{
    DataFormat format;
    std::string t; // or empty
    int tr;        // time range, or -1
    unsigned size;
    std::shared_ptr<Metadata> md;
};

struct Batch
{
    std::vector<unsigned> items;
    DataFormat format;
    size_t count, size;
    std::string timespan;
};

struct Recording : public metadata::Clusterer
{
    std::vector<Batch> batches;
    std::map<const Metadata*, unsigned> idx;
    std::vector<unsigned> order;
    unsigned next = 0;
    bool open = false;
    bool nested = false;

    void start_batch(DataFormat f) override
    {
        Clusterer::start_batch(f);
        if (open)
            nested = true;
        open = true;
        batches.push_back(Batch());
        batches.back().format = f;
    }
    void add_to_batch(std::shared_ptr<Metadata> md) override
    {
        Clusterer::add_to_batch(md);
        batches.back().items.push_back(next++);
    }
    void flush_batch() override
    {
        open                    = false;
        batches.back().count    = count;
        batches.back().size     = size;
        batches.back().timespan = timespan.begin.ye ? timespan.begin.to_iso8601() + "/" + timespan.end.to_iso8601() : "";
        Clusterer::flush_batch();
    }
};

std::vector<Item> batch_items()
{
    std::vector<Item> res;
    auto add = [&](DataFormat f, const std::string& t, int tr, unsigned size) {
        Item i;
        i.format = f;
        i.t      = t;
        i.tr     = tr;
        i.size   = size;
        auto md  = std::make_shared<Metadata>();
        if (!t.empty())
            md->set(types::Reftime::createPosition(core::Time::create_iso8601(t)));
        if (tr >= 0)
            md->test_set("timerange", "GRIB1(0, " + std::to_string(tr) + "h)");
        md->set_source_inline(f, metadata::DataManager::get().to_data(f, std::vector<uint8_t>(size, 'a')));
        i.md = md;
        res.push_back(i);
    };
    add(DataFormat::GRIB, "2020-01-01T00:00:00Z", 0, 10);
    add(DataFormat::GRIB, "2020-01-01T00:00:59Z", 0, 1);
    add(DataFormat::GRIB, "2020-01-01T00:01:00Z", 1, 10);
    add(DataFormat::GRIB, "2020-01-01T01:00:00Z", 0, 30);
    add(DataFormat::GRIB, "2020-01-02T00:00:00Z", 0, 10);
    add(DataFormat::GRIB, "2020-02-02T00:00:00Z", -1, 10);
    add(DataFormat::GRIB, "2021-01-01T00:00:00Z", 1, 10);
    add(DataFormat::BUFR, "2020-01-01T00:00:00Z", 0, 10);
    add(DataFormat::GRIB, "", 1, 10);
    add(DataFormat::GRIB, "", -1, 19);
    return res;
}

std::string next_second(const std::string& t)
{
    auto time = core::Time::create_iso8601(t);
    time.se += 1;
    time.normalise();
    return time.to_iso8601();
}

void check_clusters(Ctx& c, const std::string& task)
{
    // task is cluster|LEN|interval
    auto args    = split(task, '|');
    unsigned len = std::stoul(args[1]);
    unsigned interval = std::stoul(args[2]);
    static const size_t prefix[] = {0, 4, 7, 10, 13, 16};
    auto items = batch_items();
    std::vector<unsigned> seq(len, 0);
    while (true)
    {
        bool undated = false;
        for (auto i : seq)
            undated = undated || items[i].t.empty();
        if (!(undated && interval))
        for (unsigned max_count : {0, 1, 2, 3})
            for (unsigned max_bytes : {0, 9, 10, 11, 20, 21, 40})
                for (bool split_timerange : {false, true})
                {
                    if (len > 3 && !mc::args.thorough && max_count && max_bytes)
                        continue;
                    c.eval(), c.states();
                    std::string name;
                    for (auto i : seq)
                        name += " " + std::to_string(i);
                    c.current("batches of" + name + " by interval " + args[2] + " count " + std::to_string(max_count) + " bytes " + std::to_string(max_bytes) + (split_timerange ? " timerange" : ""));
                    // What it should be
                    std::vector<Batch> exp;
                    for (unsigned n = 0; n < len; ++n)
                    {
                        const auto& i = items[seq[n]];
                        bool join     = !exp.empty();
                        if (join)
                        {
                            const auto& b = exp.back();
                            const auto& f = items[seq[b.items[0]]];
                            join = f.format == i.format && (!max_count || b.items.size() < max_count) && (!max_bytes || b.size + i.size <= max_bytes) &&
                                   (!interval || f.t.substr(0, prefix[interval]) == i.t.substr(0, prefix[interval])) && (!split_timerange || f.tr == i.tr);
                        }
                        if (!join)
                        {
                            exp.push_back(Batch());
                            exp.back().format = i.format;
                            exp.back().size = exp.back().count = 0;
                        }
                        auto& b = exp.back();
                        b.items.push_back(n);
                        b.size += i.size;
                        b.count++;
                    }
                    for (auto& b : exp)
                    {
                        std::string first, last;
                        for (auto i : b.items)
                        {
                            auto& t = items[seq[i]].t;
                            if (t.empty())
                                continue;
                            if (first.empty() || t < first)
                                first = t;
                            if (t > last)
                                last = t;
                        }
                        if (!first.empty())
                            b.timespan = first + "/" + next_second(last);
                    }
                    Recording r;
                    r.max_count       = max_count;
                    r.max_bytes       = max_bytes;
                    r.max_interval    = interval;
                    r.split_timerange = split_timerange;
                    for (auto i : seq)
                        if (!r.eat(items[i].md))
                            throw mc::Fail("batch-stop", "an element is refused");
                    r.flush();
                    r.flush();
                    if (r.nested)
                        throw mc::Fail("batch-nested", "a batch begins before the previous one is finished");
                    auto str = [](const std::vector<Batch>& v) {
                        std::string res;
                        for (auto& b : v)
                        {
                            res += "[" + format_name(b.format) + " " + std::to_string(b.count) + " " + std::to_string(b.size) + " " + b.timespan + ":";
                            for (auto i : b.items)
                                res += " " + std::to_string(i);
                            res += "]";
                        }
                        return res;
                    };
                    if (str(r.batches) != str(exp))
                        throw mc::Fail("batches", "batches are " + str(r.batches) + " instead of " + str(exp));
                }
        unsigned pos = 0;
        while (pos < len && ++seq[pos] == items.size())
            seq[pos++] = 0;
        if (pos == len)
            break;
    }
}

void check_xargs(Ctx& c, const std::string& task)
{
    // task is xargs|LEN
    auto args    = split(task, '|');
    unsigned len = std::stoul(args[1]);
    auto items   = batch_items();
    std::string root = fresh_scratch();
    fs::create_directories(root + "/tmp");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    std::string out = root + "/out";
    std::vector<unsigned> seq(len, 0);
    while (true)
    {
        for (unsigned mode = 0; mode < 5; ++mode)
        {
            c.eval(), c.states();
            // 0: file name added at the end, 1: in place of an argument, 2:
            // only in the environment, 3: the n-th command fails, 4: command
            // that does not exist
            std::string name;
            for (auto i : seq)
                name += " " + std::to_string(i);
            c.current("xargs of" + name + " mode " + std::to_string(mode));
            std::string script = "printf '%s|%s|%s|%s|' \"$ARKI_XARGS_FORMAT\" \"$ARKI_XARGS_COUNT\" \"$ARKI_XARGS_TIME_START\" \"$ARKI_XARGS_TIME_END\" >> " + out + "; cat \"$X\" >> " +
                                 out + "; echo >> " + out + ";";
            metadata::Xargs x;
            x.max_count = 2;
            if (mode == 0)
                x.command = {"/bin/sh", "-c", "X=\"$2\";[ \"$2\" = \"$ARKI_XARGS_FILENAME\" ] || exit 5;" + script, "sh", "first"};
            else if (mode == 1)
            {
                x.command           = {"/bin/sh", "-c", "X=\"$1\"; [ \"$2\" = last ] || exit 6;" + script, "sh", "FILE", "last"};
                x.filename_argument = 4;
            }
            else if (mode == 2)
            {
                x.command           = {"/bin/sh", "-c", "X=\"$ARKI_XARGS_FILENAME\"; [ $# = 1 ] || exit 7;" + script, "sh", "one"};
                x.filename_argument = 100;
            }
            else if (mode == 3)
            {
                x.command = {"/bin/sh", "-c", "X=\"$1\";" + script + " exit 3", "sh"};
            }
            else
                x.command = {root + "/does-not-exist"};
            spew(out, "");
            std::string error;
            try
            {
                for (auto i : seq)
                    x.eat(items[i].md);
                x.flush();
            }
            catch (std::exception& e)
            {
                error = e.what();
            }
            if ((mode >= 3) != !error.empty())
                throw mc::Fail("xargs-error", error.empty() ? "failing to run the command is not reported" : "error: " + error);
            // What the command should have got
            std::string exp;
            std::vector<std::vector<unsigned>> batches;
            for (auto i : seq)
            {
                if (batches.empty() || batches.back().size() == 2 || items[batches.back()[0]].format != items[i].format)
                    batches.push_back({});
                batches.back().push_back(i);
            }
            for (auto& b : batches)
            {
                std::string first, last, data;
                for (auto i : b)
                {
                    data += std::string(items[i].size, 'a');
                    auto t = items[i].t;
                    if (t.empty())
                        continue;
                    t = t.substr(0, 10) + " " + t.substr(11, 8) + "Z";
                    if (first.empty() || t < first)
                        first = t;
                    if (t > last)
                        last = t;
                }
                exp += (items[b[0]].format == DataFormat::GRIB ? "GRIB|" : "BUFR|") + std::to_string(b.size()) + "|" + first + "|" + last + "|" + data + "\n";
                if (mode == 3)
                    break;
            }
            if (mode == 4)
                exp.clear();
            auto got = slurp(out);
            if (got != exp)
                throw mc::Fail("xargs-input", "the command got " + quote(got) + " instead of " + quote(exp));
            unsigned left = 0;
            for (auto& e : fs::directory_iterator(root + "/tmp"))
            {
                ++left;
                fs::remove(e.path());
            }
            if (left)
                throw mc::Fail("xargs-leftover", "temporary files are left behind");
        }
        unsigned pos = 0;
        while (pos < len && ++seq[pos] == items.size())
            seq[pos++] = 0;
        if (pos == len)
            break;
    }
    unsetenv("TMPDIR");
}

mc::Register c27("C27", [] {
    init();
    bool th = mc::args.thorough;
    run_tasks({"expr|all"}, [](Ctx& c, const std::string&) { check_expressions(c); }, "expr|");
    std::vector<std::string> tasks;
    for (const auto& o : orders(th ? 2 : 1, 3))
        for (unsigned len = 1; len <= (th ? 4u : 3u); ++len)
            tasks.push_back(mc::cat("stream|", len, "|", o.str()));
    if (!th)
        for (auto o : {"hour:product,-reftime", "day:-product,reftime", "-reftime,product", "product,-reftime", "year:product"})
            for (unsigned len : {2, 3})
                tasks.push_back(mc::cat("stream|", len, "|", o));
    run_tasks(tasks, check_stream, "stream|");
    tasks.clear();
    std::vector<std::string> imports{"order", "reverse", "mixed", "byprod"};
    for (auto& i : imports)
    {
        for (auto step : {"daily", "monthly", "yearly"})
        {
            if (!th && std::string(step) == "yearly" && i != "mixed")
                continue;
            tasks.push_back(mc::cat("ds|local|type=iseg;fmt=grib;unique=reftime,product;step=", step, "|", i));
            tasks.push_back(mc::cat("ds|local|type=simple;fmt=grib;step=", step, "|", i));
            if (th || i == "mixed" || (i == "order" && std::string(step) == "daily"))
                tasks.push_back(mc::cat("ds|merged|type=iseg;fmt=grib;unique=reftime,product;step=", step, "+type=simple;fmt=grib;step=", step, "|", i));
        }
        tasks.push_back(mc::cat("ds|local|type=iseg;fmt=grib;unique=reftime,product;step=monthly|", i, "|arc:2020/01.grib arc:2020/02.grib"));
        tasks.push_back(mc::cat("ds|local|type=iseg;fmt=grib;unique=reftime,product;step=monthly|", i, "|tar"));
        tasks.push_back(mc::cat("ds|local|type=simple;fmt=grib;step=monthly|", i, "|zip"));
        tasks.push_back(mc::cat("ds|local|type=simple;fmt=grib;step=monthly;gz=3|", i, "|gz"));
        tasks.push_back(mc::cat("ds|local|type=simple;fmt=grib;step=monthly;dirs|", i));
        tasks.push_back(mc::cat("ds|local|type=iseg;fmt=grib;unique=reftime,product;step=monthly;smallfiles|", i, "|rp"));
        for (auto k : {"memory", "function", "file", "arkimet", "yaml"})
            tasks.push_back(mc::cat("ds|", k, "||", i));
    }
    run_tasks(tasks, check_dataset, "ds|");
    tasks.clear();
    for (unsigned len = 1; len <= (th ? 5u : 4u); ++len)
        for (unsigned i = 0; i < 6; ++i)
            tasks.push_back(mc::cat("cluster|", len, "|", i));
    run_tasks(tasks, check_clusters, "cluster|");
    tasks.clear();
    for (unsigned len = 1; len <= (th ? 3u : 2u); ++len)
        tasks.push_back(mc::cat("xargs|", len));
    run_tasks(tasks, check_xargs, "xargs|");
});

} // namespace
