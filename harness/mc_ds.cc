// Exhaustive exploration of sequences of operations on datasets, comparing the
// dataset with a reference model after each operation.
#include "common_ds.h"
#include <algorithm>
#include <arki/dataset/session.h>
#include <filesystem>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

struct Plan
{
    std::string prop;
    std::vector<std::pair<std::string, unsigned>> confs; // configuration, depth
    std::function<std::vector<std::string>(const Conf&)> ops;
    unsigned flags = V_DATA | V_SUMMARY | V_NODATA | V_INTERVAL;
    bool check_results = false; // outcome of import
    bool checked = false;       // start from a dataset that has been checked
    bool fixpoint = false;      // checks find nothing left to do
};

std::vector<Msg> sorted(std::vector<Msg> v)
{
    std::sort(v.begin(), v.end(), [](const Msg& a, const Msg& b) { return a.id() < b.id(); });
    return v;
}
bool includes(const std::vector<Msg>& big, const std::vector<Msg>& small)
{
    std::multiset<std::string> b;
    for (auto& m : big)
        b.insert(m.id());
    for (auto& m : small)
    {
        auto i = b.find(m.id());
        if (i == b.end())
            return false;
        b.erase(i);
    }
    return true;
}

std::vector<std::vector<unsigned>> batches_of(const std::string& op, std::string& strategy)
{
    std::string body = op.substr(1);
    auto p           = body.find(':');
    if (p != std::string::npos)
    {
        strategy = body.substr(p + 1);
        body     = body.substr(0, p);
    }
    std::vector<std::vector<unsigned>> res;
    for (const auto& b : mc::split(body, '/'))
    {
        res.emplace_back();
        for (const auto& n : mc::split(b, ','))
            res.back().push_back(std::stoul(n));
    }
    return res;
}

bool is_import(const std::string& op) { return op[0] == 'i' && isdigit((unsigned char)op[1]); }
bool is_delete(const std::string& op) { return op[0] == 'd' && isdigit((unsigned char)op[1]); }

/// Whether op makes sense with this model
bool applicable(const Model& m, const std::string& op, const std::string& root)
{
    auto has = [](const std::map<std::string, std::vector<Msg>>& x, const std::string& s) {
        auto i = x.find(s);
        return i != x.end() && !i->second.empty();
    };
    if (op.compare(0, 4, "arc:") == 0)
        return has(m.online, op.substr(4)) && !has(m.archived, op.substr(4));
    if (op.compare(0, 4, "una:") == 0)
        return has(m.archived, op.substr(4)) && !m.online.count(op.substr(4));
    // Rescanning finds again data that was deleted but is still in the segment
    if (op.compare(0, 4, "rsc:") == 0 && m.unpacked.count(op.substr(4)))
        return false;
    // Rescanning tar and zip files is not implemented
    if (op.compare(0, 4, "rsc:") == 0 && (layout(root, op.substr(4)) == ".tar" || layout(root, op.substr(4)) == ".zip"))
        return false;
    if (op.compare(0, 4, "rsc:") == 0 || op.compare(0, 4, "rps:") == 0)
        return has(m.online, op.substr(4));
    return true;
}

/// Apply op on dataset and model, checking what it says
void step(World& w, Model& model, const std::string& op, bool check_results, Ctx* c = nullptr)
{
    Model before = model;
    bool converted = false;
    std::string expected;
    std::vector<Msg> batch;
    if (is_import(op))
    {
        std::string strategy;
        for (auto& b : batches_of(op, strategy))
        {
            std::vector<std::pair<Msg, size_t>> ms;
            for (size_t i = 0; i < b.size(); ++i)
                ms.emplace_back(msg(w.conf, b[i]), i);
            for (auto& m : ms)
            {
                batch.push_back(m.first);
                auto l = layout(w.root, w.conf.segment(m.first));
                if (l == ".gz" || l == ".tar" || l == ".zip")
                    converted = true;
            }
            std::string r(b.size(), '?');
            DataFormat first = ms.empty() ? w.conf.format : ms[0].first.format;
            std::stable_sort(ms.begin(), ms.end(), [](auto& a, auto& b) { return a.first.t < b.first.t; });
            for (auto& m : ms)
                r[m.second] = model.import(w.conf, m.first, strategy, first);
            expected += r + "/";
        }
    }
    else
    {
        model.apply(w.conf, op);
        // A dataset to be checked is not repacked
        if (op == "rp" && fs::exists(w.root + "/needs-check-do-not-pack"))
            model.unpacked = before.unpacked;
    }

    Applied a = mc::ds::apply(w, op);
    if (converted)
    {
        // Data cannot be added to converted segments: it can be refused, but
        // nothing else can be lost
        World w1(w.conf, w.root);
        auto now = visible(w1);
        if (!includes(now, before.all()))
            throw Fail("lost-on-refuse", op + ": data lost by an import to a converted segment: was\n" + describe(before.all()) + "is\n" + describe(now));
        auto all = before.all();
        all.insert(all.end(), batch.begin(), batch.end());
        if (!includes(all, now))
            throw Fail("extra-on-refuse", op + ": unexpected data after an import to a converted segment");
        model           = before;
        model.uncertain = true;
        return;
    }
    if (a.threw)
        throw Fail("op-failed", op + ": operation failed: " + a.error);
    if (is_import(op) && check_results)
    {
        std::string exp = expected;
        for (auto& x : exp)
            if (x == 'X')
                x = 'K';
        if (exp != a.results)
            throw Fail("import-results", op + ": outcome is " + a.results + " instead of " + exp);
        size_t j = 0;
        for (size_t i = 0; i < exp.size(); ++i)
        {
            if (exp[i] == '/')
                continue;
            auto d = a.destinations[j++];
            if (d != (exp[i] == 'K' ? "ds" : ""))
                throw Fail("import-destination", op + ": destination of item " + std::to_string(j - 1) + " with outcome " + exp[i] + " is '" + d + "'");
        }
    }
}

void run_task(const Plan& plan, Ctx& c, const std::string& task)
{
    auto f = mc::split(task, '|');
    Conf conf   = Conf::parse(f[1]);
    std::string stored = f.size() > 2 ? f[2] : "";
    std::vector<std::string> hist;
    for (auto& o : mc::split(stored, ' '))
        if (!o.empty())
            hist.push_back(o);
    // Rebuild the state
    std::string base = fresh_scratch();
    std::string root = base + "/ds", snap = base + "/snap";
    fs::create_directories(root);
    Model model;
    if (plan.checked)
    {
        World w(conf, root);
        mc::ds::apply(w, "ck");
    }
    for (auto& o : hist)
    {
        World w(conf, root);
        step(w, model, o, false);
        if (conf.aged)
            age(root);
    }
    copytree(root, snap);
    bool first = true;
    for (const auto& op : plan.ops(conf))
    {
        if (!applicable(model, op, snap))
            continue;
        c.current(conf.str() + ": " + stored + " " + op);
        if (!first)
        {
            rmtree(root);
            copytree(snap, root);
        }
        first   = false;
        Model m = model;
        try
        {
            {
                World w(conf, root);
                step(w, m, op, plan.check_results);
            }
            c.transitions();
            c.eval();
            if (m.uncertain)
                continue;
            if (conf.aged)
                age(root);
            auto digest = mc::mix(mc::hash(m.str()), mc::mix(mc::hash(state_digest(root)), mc::hash(conf.str())));
            bool isnew  = !c.visited(digest);
            {
                World w(conf, root);
                verify(w, m.all(), plan.flags, conf.str() + ": " + stored + " " + op);
            }
            if (plan.fixpoint && isnew)
            {
                // A dataset that was only changed by its own operations has no
                // problems other than space to recover
                World w(conf, root);
                auto s = states(w, true);
                for (auto& i : s)
                    if (i.second != "OK" && i.second != "DIRTY" && i.second != "DELETED" && i.second.find("ARCHIVE_AGE") == std::string::npos && i.second.find("DELETE_AGE") == std::string::npos)
                        throw Fail("state", conf.str() + ": " + stored + " " + op + ": segment " + i.first + " is " + i.second);
            }
            c.traces();
            c.distinct_hash(digest);
            if (isnew)
            {
                c.states();
                c.emit(f[1] + "|" + (stored.empty() ? "" : stored + " ") + op);
            }
            c.sample(conf.str() + ": " + stored + " " + op + " => " + std::to_string(m.all().size()) + " items");
        }
        catch (Fail& e)
        {
            c.fail(e.key, e.what() + std::string(e.key == "data-mismatch" || e.key == "summary-mismatch" ? "" : " [" + conf.str() + ": " + stored + " " + op + "]"));
        }
    }
}

void explore(const Plan& plan)
{
    unsigned maxdepth = 0;
    for (auto& c : plan.confs)
        maxdepth = std::max(maxdepth, c.second);
    std::vector<std::string> level;
    std::map<std::string, unsigned> depth;
    for (auto& c : plan.confs)
    {
        depth[c.first] = c.second;
        level.push_back(c.first + "|");
    }
    for (unsigned d = 0; d < maxdepth; ++d)
    {
        std::vector<std::string> tasks;
        for (auto& l : level)
            if (depth[mc::split(l, '|')[0]] > d)
                tasks.push_back(plan.prop + "|" + l);
        std::sort(tasks.begin(), tasks.end());
        level = run_tasks(tasks, [&](Ctx& c, const std::string& t) { run_task(plan, c, t); }, plan.prop + "|");
    }
    std::string cs;
    for (auto& c : plan.confs)
        cs += c.first + " depth " + std::to_string(c.second) + "; ";
    note("configurations", cs);
    note("alphabet", join(plan.ops(Conf::parse(plan.confs[0].first)), " "));
}

unsigned T(unsigned quick, unsigned thorough) { return mc::args.thorough ? thorough : quick; }

mc::Register c01("C01", [] {
    Plan p;
    p.prop = "C01";
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r{"i0", "i1,0", "i2,1,5", "i5", "i4,16,17", "i11", "i6,2/1,4", "i13,14,15", "i7", "i0,7,2"};
        if (c.type == "iseg")
            r.push_back("i12,0,4");
        return r;
    };
    std::string u = ";unique=reftime,product,area,level;index=product,area";
    for (auto fmt : {"grib", "bufr", "vm2"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u;
            p.confs.push_back({b + ";step=daily", T(3, 4)});
            p.confs.push_back({b + ";step=daily;dirs", T(3, 4)});
            p.confs.push_back({b + ";step=monthly;smallfiles", T(3, 4)});
            p.confs.push_back({b + ";step=yearly;eatmydata", T(1, 3)});
        }
    p.confs.push_back({"type=simple;fmt=odimh5;step=daily", T(3, 4)});
    p.confs.push_back({"type=iseg;fmt=odimh5;step=daily" + u, T(3, 4)});
    p.confs.push_back({"type=simple;fmt=grib;step=weekly", T(1, 3)});
    p.confs.push_back({"type=simple;fmt=grib;step=biweekly", T(1, 3)});
    p.confs.push_back({"type=iseg;fmt=grib;step=weekly" + u, T(2, 3)});
    p.confs.push_back({"type=iseg;fmt=vm2;step=biweekly" + u, T(2, 3)});
    p.confs.push_back({"type=iseg;fmt=grib;step=daily;nolock;aged" + u, T(3, 4)});
    p.confs.push_back({"type=simple;fmt=grib;step=daily;nolock;aged", T(3, 4)});
    p.check_results = true;
    explore(p);
});

mc::Register c02("C02", [] {
    Plan p;
    p.prop = "C02";
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r;
        for (auto s : {"", ":never", ":always", ":usn"})
        {
            r.push_back(mc::cat("i0,3", s));
            r.push_back(mc::cat("i3", s));
            r.push_back(mc::cat("i4,12,0", s));
            if (c.format == DataFormat::BUFR)
            {
                r.push_back(mc::cat("i8", s));
                r.push_back(mc::cat("i9,2", s));
                r.push_back(mc::cat("i10,8", s));
                r.push_back(mc::cat("i9,10,8/3", s));
            }
            else
                r.push_back(mc::cat("i2,0/2,3", s));
        }
        r.push_back("i7,0");
        r.push_back("i0,7");
        return r;
    };
    for (auto fmt : {"bufr", "grib"})
        for (auto u : {"reftime", "product", "reftime,product,area", "area,level"})
            for (auto rep : {"", "yes", "USN", "usn"})
            {
                std::string r(rep);
                if (std::string(fmt) == "grib" && r != "")
                    continue;
                if ((r != "" && std::string(u) == "product") || (r == "usn" && std::string(u) != "reftime,product,area"))
                    continue;
                p.confs.push_back({mc::cat("type=iseg;fmt=", fmt, ";unique=", u, r.empty() ? "" : ";replace=", r), T(3, 4)});
            }
    p.confs.push_back({"type=iseg;fmt=bufr", T(3, 4)});
    p.confs.push_back({"type=iseg;fmt=vm2;unique=reftime,product,area;smallfiles", T(3, 4)});
    p.confs.push_back({"type=iseg;fmt=bufr;unique=reftime,product,area;archive=18", T(3, 4)});
    p.confs.push_back({"type=iseg;fmt=bufr;unique=reftime,product,area;delete=18", T(3, 4)});
    p.confs.push_back({"type=simple;fmt=bufr", T(3, 4)});
    p.confs.push_back({"type=simple;fmt=bufr;replace=yes;delete=18", T(3, 4)});
    p.confs.push_back({"type=simple;fmt=grib;archive=18", T(3, 4)});
    p.flags         = V_DATA;
    p.check_results = true;
    explore(p);
});

mc::Register c03("C03", [] {
    Plan p;
    p.prop = "C03";
    p.checked = true;
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r{"i0,1,4", "i2,5", "i11,0", "d0", "d1", "d4,0", "d2", "d0,1,2,4,5", "rp"};
        if (c.type == "simple")
            r.push_back("i0,0");
        return r;
    };
    std::string u = ";unique=reftime,product,area";
    for (auto fmt : {"grib", "vm2", "odimh5"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u;
            p.confs.push_back({b + ";step=daily;aged", T(4, 6)});
            if (std::string(fmt) != "odimh5")
            {
                if (std::string(fmt) != "vm2")
                    p.confs.push_back({b + ";step=daily;dirs", T(4, 6)});
                p.confs.push_back({b + ";step=monthly;smallfiles", T(4, 6)});
            }
        }
    p.confs.push_back({"type=simple;fmt=grib;step=weekly", T(4, 6)});
    p.confs.push_back({"type=iseg;fmt=grib;step=biweekly" + u, T(4, 6)});
    explore(p);
});

mc::Register c04("C04", [] {
    Plan p;
    p.prop = "C04";
    p.checked = true;
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r{"i1,0,4", "i2,5", "d0", "rp", "ck", "cka", "gz", "gz1"};
        if (c.dirs || c.format == DataFormat::ODIMH5)
        {
            r.push_back("tar");
            r.push_back("zip");
            r.erase(std::find(r.begin(), r.end(), "gz"));
            r.erase(std::find(r.begin(), r.end(), "gz1"));
        }
        r.push_back("rsc:" + c.segment(msg(c, 0)));
        r.push_back("rps:" + c.segment(msg(c, 0)));
        // Only defined for segments stored in one file that is not compressed
        if (c.eatmydata)
        {
            r.erase(std::find(r.begin(), r.end(), "gz"));
            r.erase(std::find(r.begin(), r.end(), "gz1"));
            r.push_back("is51");
        }
        return r;
    };
    std::string u = ";unique=reftime,product,area";
    for (auto fmt : {"grib", "vm2", "odimh5"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u;
            p.confs.push_back({b + ";step=daily;aged", T(5, 6)});
            if (std::string(fmt) == "grib")
                p.confs.push_back({b + ";step=daily;dirs", T(5, 6)});
            if (std::string(fmt) == "grib")
                p.confs.push_back({b + ";step=daily;eatmydata", T(5, 6)});
            if (std::string(fmt) == "grib")
                p.confs.push_back({b + ";step=monthly;gz=2", T(5, 6)});
        }
    for (auto t : {"simple", "iseg"})
        for (auto step : {"weekly", "biweekly", "yearly"})
            p.confs.push_back({mc::cat("type=", t, ";fmt=grib;step=", step, t == std::string("iseg") ? u : ""), T(5, 6)});
    p.fixpoint = true;
    p.flags    = V_DATA | V_SUMMARY | V_INTERVAL;
    explore(p);
});

// Summaries of all intervals with ends at the boundaries of days, months and
// data, with groups that have data in and out of each of them
void interval_task(Ctx& c, const std::string& task)
{
    auto conf = Conf::parse(mc::split(task, '|')[1]);
    auto root = fresh_scratch() + "/ds";
    fs::create_directories(root);
    const std::vector<std::string> times{"2019-12-31T23:59:59Z", "2020-01-01T00:00:00Z", "2020-01-02T06:00:00Z", "2020-01-31T23:59:59Z", "2020-02-05T00:00:00Z", "2020-02-20T10:00:00Z", "2020-02-29T23:59:59Z", "2020-03-01T00:00:00Z", "2020-03-15T12:00:00Z", "2020-04-01T00:00:00Z", "2020-04-10T00:00:00Z"};
    std::vector<Msg> msgs;
    for (size_t i = 0; i < times.size(); ++i)
        for (unsigned p : {1, 2})
        {
            if (p == 2 && i % 3)
                continue;
            Msg m;
            m.format = conf.format;
            m.t      = times[i];
            m.p      = p;
            m.fill   = std::string(1 + i, '0' + p);
            msgs.push_back(m);
        }
    std::vector<std::string> bounds{""};
    for (auto& t : times)
        bounds.push_back(t);
    for (auto t : {"2019-12-01T00:00:00Z", "2020-01-01T00:00:01Z", "2020-02-01T00:00:00Z", "2020-02-10T00:00:00Z", "2020-03-02T00:00:00Z", "2020-04-30T00:00:00Z", "2020-05-01T00:00:00Z"})
        bounds.push_back(t);
    std::sort(bounds.begin(), bounds.end());
    auto text = [](const std::string& t) { return t.substr(0, 10) + " " + t.substr(11, 8); };

    std::vector<Msg> stored;
    auto import = [&](size_t begin, size_t end) {
        World w(conf, root);
        auto writer = w.writer();
        metadata::InboundBatch batch;
        for (size_t i = begin; i < end; ++i)
        {
            batch.add(msgs[i].inlined());
            stored.push_back(msgs[i]);
        }
        writer->acquire_batch(batch, dataset::AcquireConfig());
        writer->flush();
    };
    bool iseg    = conf.type == "iseg";
    auto queries = [&](const std::string& when) {
        World w(conf, root);
        for (auto& b : bounds)
            for (auto& e : bounds)
                for (bool incl : {true, false})
                    for (bool prod : {false, true})
                    {
                        if (!b.empty() && !e.empty() && b >= e)
                            continue;
                        std::vector<std::string> parts;
                        if (!b.empty())
                            parts.push_back((incl ? ">=" : ">") + text(b));
                        if (!e.empty())
                            parts.push_back((incl ? "<" : "<=") + text(e));
                        std::string q = parts.empty() ? "" : "reftime:" + mc::join(parts, ",");
                        if (prod)
                            q += std::string(q.empty() ? "" : ";") + (conf.format == DataFormat::VM2 ? "product:VM2,1" : "product:GRIB1,200,140,1");
                        // Simple datasets make summaries by segment
                        if (!iseg && !parts.empty() && (conf.step != "daily" || incl != true || (!b.empty() && b.substr(11) != "00:00:00Z") || (!e.empty() && e.substr(11) != "00:00:00Z")))
                            continue;
                        c.current(task + " " + when + ": " + q);
                        std::vector<Msg> want;
                        for (auto& m : stored)
                            if ((b.empty() || (incl ? m.t >= b : m.t > b)) && (e.empty() || (incl ? m.t < e : m.t <= e)) && (!prod || m.p == 1))
                                want.push_back(m);
                        Summary s;
                        w.reader()->query_summary(w.session->matcher(q), s);
                        c.eval();
                        c.transitions();
                        auto got = summarise(s), exp = expected_summary(want);
                        if (!(got == exp))
                            c.fail("interval-summary", task + " " + when + ": summary for '" + q + "': got\n" + str(got) + "expected\n" + str(exp));
                    }
        c.states();
    };
    // All at once, then in pieces, with summaries made in between
    import(0, msgs.size() - 6);
    queries("after an import");
    import(msgs.size() - 6, msgs.size() - 1);
    queries("after two imports");
    {
        World w(conf, root);
        auto a = mc::ds::apply(w, "rp");
        if (a.threw)
            throw Fail("interval-repack", task + ": " + a.error);
    }
    queries("after a repack");
    import(msgs.size() - 1, msgs.size());
    queries("after three imports");
    c.sample(task);
}

mc::Register c07("C07", [] {
    Plan p;
    p.prop = "C07";
    p.checked = true;
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r{"i0,1,4,18", "i2,5", "d0", "d5", "q", "rp", "ra", "cka"};
        r.push_back("arc:" + c.segment(msg(c, 0)));
        r.push_back("una:" + c.segment(msg(c, 0)));
        return r;
    };
    p.confs.push_back({"type=iseg;fmt=grib;unique=reftime,product,area", T(5, 6)});
    p.confs.push_back({"type=simple;fmt=grib", T(5, 6)});
    p.confs.push_back({"type=iseg;fmt=vm2;unique=reftime,product,area;step=monthly;smallfiles", T(5, 6)});
    p.confs.push_back({"type=simple;fmt=vm2;step=monthly;smallfiles", T(5, 6)});
    p.confs.push_back({"type=iseg;fmt=bufr;unique=reftime,product,area;step=yearly;replace=yes", T(5, 6)});
    p.confs.push_back({"type=simple;fmt=odimh5;aged", T(5, 6)});
    p.flags = V_SUMMARY | V_ALLQ;
    explore(p);
    std::vector<std::string> tasks;
    for (auto step : {"daily", "weekly", "biweekly", "monthly", "yearly"})
        for (auto fmt : {"grib", "vm2"})
        {
            if (fmt == std::string("vm2") && !args.thorough && step != std::string("monthly"))
                continue;
            tasks.push_back(mc::cat("C07i|type=iseg;fmt=", fmt, ";unique=reftime,product,area;step=", step, fmt == std::string("vm2") ? ";smallfiles" : ""));
            tasks.push_back(mc::cat("C07i|type=simple;fmt=", fmt, ";step=", step));
        }
    run_tasks(tasks, interval_task, "C07i|");
});

mc::Register c08("C08", [] {
    Plan p;
    p.prop = "C08";
    p.checked = true;
    p.ops  = [](const Conf& c) {
        std::vector<std::string> r{"i0,1,4", "i2,5,6", "i11,12,13", "d0,2", "rp"};
        r.push_back("arc:" + c.segment(msg(c, 0)));
        r.push_back("arc:" + c.segment(msg(c, 5)));
        if (c.dirs || c.format == DataFormat::ODIMH5)
        {
            r.push_back("tar");
            r.push_back("zip");
        }
        else
        {
            r.push_back("gz2");
            r.push_back("gz0");
        }
        return r;
    };
    std::string u = ";unique=reftime,product,area,level";
    for (auto fmt : {"grib", "vm2", "bufr"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u + ";index=product,area";
            p.confs.push_back({b + ";step=daily", T(3, 4)});
            if (std::string(fmt) == "vm2")
                p.confs.push_back({b + ";step=monthly;smallfiles", T(3, 4)});
            if (std::string(fmt) == "bufr")
                p.confs.push_back({b + ";step=monthly;dirs", T(3, 4)});
        }
    p.confs.push_back({"type=simple;fmt=odimh5;step=yearly", T(2, 4)});
    p.flags = V_ALL & ~V_INTERVAL & ~V_SUMMARY;
    explore(p);
});

} // namespace
