// Exhaustive exploration, up to a bound on preemptions, of the ways in which
// processes working at the same time on one dataset can interleave.
#include "common_ds.h"
#include "mcsys.h"
#include <algorithm>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/core/lock.h>
#include <arki/dataset/iseg.h>
#include <arki/dataset/simple.h>
#include <arki/matcher.h>
#include <arki/query.h>
#include <arki/summary.h>
#include <cstring>
#include <filesystem>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

/*
 * What a process does
 */

/// Name in the alphabet of a data item, as returned by a query
std::string name_of(const Conf& conf, const Got& g)
{
    for (unsigned i = 0; i < 18; ++i)
    {
        Msg m = msg(conf, i);
        if (m.bytes() != g.data)
            continue;
        if (items(*m.meta()) != g.items)
            return mc::cat("badmeta:", i);
        return std::to_string(i);
    }
    return "garbage:" + mc::quote(g.data.substr(0, 60));
}

/// Names of the items found in data, one after the other
std::string names_in(const Conf& conf, const std::string& data)
{
    std::vector<std::string> res;
    size_t pos = 0;
    while (pos < data.size())
    {
        bool found = false;
        for (unsigned i = 0; i < 18 && !found; ++i)
        {
            auto b = msg(conf, i).bytes();
            if (data.compare(pos, b.size(), b) == 0)
            {
                res.push_back(std::to_string(i));
                pos += b.size();
                if (conf.format == DataFormat::VM2 && pos < data.size() && data[pos] == '\n')
                    ++pos;
                found = true;
            }
        }
        if (!found)
        {
            res.push_back("garbage:" + mc::quote(data.substr(pos, 60)));
            break;
        }
    }
    return join(res, ",");
}

std::string bytes_of_md(const Metadata& md)
{
    auto& d = const_cast<Metadata&>(md).get_data();
    auto v  = d.read();
    return std::string(v.begin(), v.end());
}

std::string query_op(World& w, dataset::Reader& r, const std::string& op)
{
    std::vector<std::string> res;
    switch (op[0])
    {
        case 'Q': // Data is read while going through the results
            for (auto& g : mc::ds::query(r, op.substr(1)))
                res.push_back(name_of(w.conf, g));
            return join(res, ",");
        case 'L': { // Data is read when the query has finished
            metadata::Collection mds;
            arki::query::Data dq(w.session->matcher(op.substr(1)), true);
            if (!r.query_data(dq, [&](std::shared_ptr<Metadata> md) { md->drop_cached_data(); mds.push_back(*md); return true; }))
                return "interrupted";
            sysx::sched_point("results");
            for (auto& md : mds)
            {
                Got g;
                g.items = items(*md);
                g.data  = bytes_of_md(*md);
                res.push_back(name_of(w.conf, g));
            }
            return join(res, ",");
        }
        case 'B': return names_in(w.conf, query_bytes(r, op.substr(1)));
        case 'S': {
            Summary s;
            r.query_summary(w.session->matcher(op.substr(1)), s);
            return std::to_string(s.count());
        }
    }
    return "?";
}

bool is_query(const std::string& op) { return strchr("QLBS", op[0]) != nullptr; }

/// Run the operations of a process. The outcome of each is a line
std::string body(const Conf& conf, const std::string& root, const std::vector<std::string>& ops)
{
    std::string res;
    World w(conf, root);
    std::shared_ptr<dataset::Reader> reader;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        const std::string& op = ops[i];
        sysx::sched_point(("begin " + std::to_string(i)).c_str());
        std::string out;
        if (op[0] == '+' || is_query(op))
        {
            auto tov = dataset::SessionTime::local_override(now());
            try
            {
                // + means: with the same reader as before
                if (!reader || op[0] != '+')
                    reader = w.reader();
                out = query_op(w, *reader, op[0] == '+' ? op.substr(1) : op);
            }
            catch (std::exception& e)
            {
                out = std::string("threw:") + e.what();
            }
        }
        else
        {
            auto a = mc::ds::apply(w, op);
            out    = a.threw ? "threw:" + a.error : a.results;
        }
        std::replace(out.begin(), out.end(), '\n', ' ');
        sysx::sched_point(("end " + std::to_string(i)).c_str());
        res += out + "\n";
    }
    reader.reset();
    return res;
}

/*
 * What is acceptable
 */

struct Scenario
{
    std::string text;
    Conf conf;
    std::vector<std::string> setup;
    std::vector<std::vector<std::string>> procs;
    unsigned pb = 2;

    static Scenario parse(const std::string& s)
    {
        Scenario r;
        r.text = s;
        auto f = mc::split(s, '|');
        r.conf = Conf::parse(f[0]);
        for (auto& o : mc::split(f[1], ' '))
            if (!o.empty())
                r.setup.push_back(o);
        for (auto& p : mc::split(f[2], '&'))
        {
            r.procs.emplace_back();
            for (auto& o : mc::split(p, ' '))
                if (!o.empty())
                    r.procs.back().push_back(o);
        }
        r.pb = std::stoul(f[3]);
        return r;
    }
};

/// Things that happen in the setup and are not operations on the dataset
bool special(const std::string& op, const std::string& root)
{
    if (op.compare(0, 4, "now:") == 0)
    {
        set_now(op.substr(4));
        return true;
    }
    if (op.compare(0, 4, "del:") == 0)
    {
        if (!root.empty())
            fs::remove(root + "/" + op.substr(4));
        return true;
    }
    return false;
}
void replay_setup(const Scenario& sc, Model& m)
{
    for (auto& o : sc.setup)
        if (!special(o, ""))
            m.apply(sc.conf, o);
}

/// Outcomes of running the operations in some order
struct Acceptable
{
    // Outcome of imports of each process, and contents
    std::set<std::string> outcomes;
    std::set<std::string> contents; // for diagnostics
};

struct Atom
{
    size_t op;
    std::string text; // operation on the model
    size_t pos = 0;   // for imports, where to write the result
};

std::string contents_str(const std::vector<Msg>& ms)
{
    std::vector<std::string> ids;
    for (auto& m : ms)
        ids.push_back(m.id());
    std::sort(ids.begin(), ids.end());
    return join(ids, "\n");
}

struct Orders
{
    const Scenario& sc;
    std::vector<std::vector<Atom>> atoms;
    std::vector<std::vector<std::string>> init; // results to be filled in
    Acceptable acc;

    explicit Orders(const Scenario& sc) : sc(sc)
    {
        for (auto& p : sc.procs)
        {
            std::vector<Atom> as;
            std::vector<std::string> rs;
            for (size_t i = 0; i < p.size(); ++i)
            {
                const auto& op = p[i];
                rs.push_back("");
                if (op[0] == 'i' && isdigit((unsigned char)op[1]))
                {
                    std::string strategy;
                    std::string b = op.substr(1);
                    auto c        = b.find(':');
                    if (c != std::string::npos)
                    {
                        strategy = b.substr(c);
                        b        = b.substr(0, c);
                    }
                    // One batch per operation
                    std::vector<std::pair<Msg, size_t>> ms;
                    std::vector<std::string> ns = mc::split(b, ',');
                    for (size_t k = 0; k < ns.size(); ++k)
                        ms.emplace_back(msg(sc.conf, std::stoul(ns[k])), k);
                    std::stable_sort(ms.begin(), ms.end(), [](auto& a, auto& b) { return a.first.t < b.first.t; });
                    for (auto& m : ms)
                        as.push_back({i, "i" + ns[m.second] + strategy, m.second});
                    rs.back() = std::string(ns.size(), '?') + "/";
                }
                else if (op[0] == 'd' && isdigit((unsigned char)op[1]))
                {
                    for (auto& n : mc::split(op.substr(1), ','))
                        as.push_back({i, "d" + n, 0});
                }
                else if (op[0] != '+' && !is_query(op))
                    as.push_back({i, op, 0});
            }
            atoms.push_back(as);
            init.push_back(rs);
        }
        Model m;
        replay_setup(sc, m);
        std::vector<size_t> at(atoms.size(), 0);
        go(m, at, init);
    }
    void go(const Model& m, std::vector<size_t> at, std::vector<std::vector<std::string>> rs)
    {
        bool done = true;
        for (size_t p = 0; p < atoms.size(); ++p)
        {
            if (at[p] == atoms[p].size())
                continue;
            done          = false;
            const Atom& a = atoms[p][at[p]];
            Model m1      = m;
            auto rs1      = rs;
            if (a.text[0] == 'i' && isdigit((unsigned char)a.text[1]))
            {
                auto c   = a.text.find(':');
                Msg x    = msg(sc.conf, std::stoul(a.text.substr(1)));
                rs1[p][a.op][a.pos] = m1.import(sc.conf, x, c == std::string::npos ? "" : a.text.substr(c + 1), x.format);
            }
            else
                m1.apply(sc.conf, a.text);
            auto at1 = at;
            ++at1[p];
            go(m1, at1, rs1);
        }
        if (done)
        {
            acc.outcomes.insert(str(rs, contents_str(m.all())));
            acc.contents.insert(contents_str(m.all()));
        }
    }
    static std::string str(const std::vector<std::vector<std::string>>& rs, const std::string& contents)
    {
        std::string s;
        for (auto& r : rs)
            s += join(r, " ") + "\n";
        return s + contents;
    }
};

/*
 * Exploration
 */

struct Explorer
{
    Ctx& c;
    Scenario sc;
    Orders orders;
    std::string base, root, snap;
    std::multiset<unsigned> initial;
    std::set<unsigned> removed; // items that some process removes

    Explorer(Ctx& c, const std::string& text) : c(c), sc(Scenario::parse(text)), orders(sc)
    {
        base = fresh_scratch();
        root = base + "/ds";
        snap = base + "/snap";
        fs::create_directories(root);
        for (auto& o : sc.setup)
        {
            if (special(o, root))
                continue;
            World w(sc.conf, root);
            auto a = mc::ds::apply(w, o);
            if (a.threw)
                throw Fail("setup", sc.text + ": setup failed: " + a.error);
            age(root);
        }
        copytree(root, snap);
        std::map<std::string, unsigned> byid;
        for (unsigned i = 0; i < 18; ++i)
            byid[msg(sc.conf, i).id()] = i;
        Model m;
        replay_setup(sc, m);
        for (auto& x : m.all())
            initial.insert(byid[x.id()]);
        // Data that cannot be found until it is checked
        for (auto& o : sc.setup)
            if (o.compare(0, 4, "del:") == 0)
                for (unsigned j = 0; j < 18; ++j)
                    if (o.compare(4, sc.conf.segment(msg(sc.conf, j)).size(), sc.conf.segment(msg(sc.conf, j))) == 0)
                        removed.insert(j);
        for (auto& p : sc.procs)
            for (auto& o : p)
            {
                if (o[0] == 'd' && isdigit((unsigned char)o[1]))
                    for (auto& n : mc::split(o.substr(1), ','))
                        removed.insert(std::stoul(n));
                // Data replaced by other data with the same key
                if (o[0] == 'i' && isdigit((unsigned char)o[1]) && sc.conf.type == "iseg")
                    for (auto i : op_msgs(o))
                        for (unsigned j = 0; j < 18; ++j)
                            if (j != i && sc.conf.key(msg(sc.conf, i)) == sc.conf.key(msg(sc.conf, j)))
                                removed.insert(j);
                if (o == "ra" || o == "ro" || o == "cka" || o == "rp")
                    if (sc.conf.delete_age >= 0 || o == "ra")
                        for (unsigned j = 0; j < 18; ++j)
                            removed.insert(j);
            }
    }

    sysx::SchedRun run(const std::vector<unsigned>& prefix)
    {
        rmtree(root);
        copytree(snap, root);
        std::vector<std::function<std::string()>> bodies;
        for (auto& p : sc.procs)
            bodies.push_back([this, &p] { return body(sc.conf, root, p); });
        return sysx::sched_run(bodies, root, sysx::C_MUTATE | sysx::C_READ | sysx::C_LOCK | sysx::C_STAT | sysx::C_OPEN, prefix);
    }

    static std::string prefix_str(const std::vector<unsigned>& p)
    {
        // Runs of zeros are the default
        std::string s;
        for (size_t i = 0; i < p.size(); ++i)
            if (p[i])
                s += (s.empty() ? "" : ",") + std::to_string(i) + "=" + std::to_string(p[i]);
        return s.empty() ? "none" : s;
    }
    static std::vector<unsigned> parse_prefix(const std::string& s)
    {
        std::vector<unsigned> res;
        if (s == "none")
            return res;
        for (auto& x : mc::split(s, ','))
        {
            auto e     = x.find('=');
            unsigned i = std::stoul(x.substr(0, e));
            res.resize(i + 1, 0);
            res[i] = std::stoul(x.substr(e + 1));
        }
        return res;
    }

    std::string schedule(const sysx::SchedRun& r)
    {
        // Only tell when switches happen
        std::string s;
        int last = -1;
        for (auto& st : r.steps)
        {
            int who = st.enabled[st.chosen_idx];
            if (who != last)
                s += mc::cat("\n  process ", who, " runs from: ", st.op);
            last = who;
        }
        return s;
    }

    void check(const sysx::SchedRun& r, const std::vector<unsigned>& prefix)
    {
        std::string what = sc.text + " schedule " + prefix_str(prefix);
        auto fail = [&](const std::string& key, const std::string& msg) {
            std::string outs;
            for (size_t p = 0; p < r.outs.size(); ++p)
                outs += "\n  process " + std::to_string(p) + " says: " + mc::quote(r.outs[p]);
            c.fail(key + (mc::args.verbose ? " " + sc.conf.type + (sc.conf.dirs ? " dirs " : " ") + mc::split(sc.text, (char)124)[2] : ""), what + ": " + msg + schedule(r) + outs);
        };
        if (r.diverged)
        {
            fail("diverged", "the same schedule led to different operations");
            return;
        }
        if (r.horizon)
        {
            fail("endless", "no end in sight");
            return;
        }
        if (r.deadlock)
        {
            std::string st;
            fail("deadlock", "processes wait for each other");
            return;
        }
        for (size_t p = 0; p < r.status.size(); ++p)
            if (r.status[p])
            {
                fail("died", mc::cat("process ", p, " ended with status ", r.status[p]));
                return;
            }
        // When operations begin and end
        std::vector<std::vector<size_t>> begin(sc.procs.size()), end(sc.procs.size());
        for (size_t p = 0; p < sc.procs.size(); ++p)
        {
            begin[p].resize(sc.procs[p].size());
            end[p].resize(sc.procs[p].size());
        }
        for (size_t i = 0; i < r.steps.size(); ++i)
        {
            auto& st   = r.steps[i];
            unsigned p = st.enabled[st.chosen_idx];
            if (st.op.compare(0, 6, "begin ") == 0)
                begin[p][std::stoul(st.op.substr(6))] = i;
            else if (st.op.compare(0, 4, "end ") == 0)
                end[p][std::stoul(st.op.substr(4))] = i;
        }
        std::vector<std::vector<std::string>> results(sc.procs.size());
        for (size_t p = 0; p < sc.procs.size(); ++p)
        {
            auto lines = mc::split(r.outs[p], '\n');
            if (lines.size() < sc.procs[p].size())
            {
                fail("exception", mc::cat("process ", p, " failed"));
                return;
            }
            for (size_t i = 0; i < sc.procs[p].size(); ++i)
            {
                if (lines[i].compare(0, 6, "threw:") == 0)
                {
                    fail(sc.procs[p][i][0] == '+' || is_query(sc.procs[p][i]) ? "query-failed" : "op-failed", mc::cat(sc.procs[p][i], " fails: ", lines[i].substr(6)));
                    return;
                }
                results[p].push_back(lines[i]);
            }
        }
        // What queries see
        for (size_t p = 0; p < sc.procs.size(); ++p)
            for (size_t i = 0; i < sc.procs[p].size(); ++i)
            {
                std::string op = sc.procs[p][i];
                if (op[0] == '+')
                    op = op.substr(1);
                if (!is_query(op))
                    continue;
                // Added before it began, possibly added by its end
                std::multiset<unsigned> must, may = initial;
                for (auto x : initial)
                    if (!removed.count(x))
                        must.insert(x);
                for (size_t q = 0; q < sc.procs.size(); ++q)
                    for (size_t j = 0; j < sc.procs[q].size(); ++j)
                    {
                        const auto& o = sc.procs[q][j];
                        if (o[0] != 'i' || !isdigit((unsigned char)o[1]))
                            continue;
                        auto ms = op_msgs(o);
                        for (size_t k = 0; k < ms.size(); ++k)
                        {
                            char res = results[q][j].size() > k ? results[q][j][k] : '?';
                            if (res != 'K')
                                continue;
                            if (begin[q][j] < end[p][i] && !(q == p && j > i))
                                may.insert(ms[k]);
                            if (end[q][j] < begin[p][i] && !removed.count(ms[k]))
                                must.insert(ms[k]);
                        }
                    }
                if (op[0] == 'S')
                {
                    size_t n = std::stoul(results[p][i]);
                    if (n < must.size() || n > may.size())
                        fail("query-summary", mc::cat("summary counts ", n, " items: expected from ", must.size(), " to ", may.size()));
                    continue;
                }
                std::multiset<unsigned> seen;
                bool bad = false;
                for (auto& n : mc::split(results[p][i], ','))
                {
                    if (n.empty())
                        continue;
                    if (!isdigit((unsigned char)n[0]))
                    {
                        fail("query-damaged", op + " got " + n);
                        bad = true;
                        break;
                    }
                    seen.insert(std::stoul(n));
                }
                if (bad)
                    continue;
                for (auto x : must)
                    if (seen.count(x) < must.count(x))
                    {
                        fail("query-missing", mc::cat(op, " does not find item ", x, ", that was there: it got ", results[p][i]));
                        bad = true;
                        break;
                    }
                if (bad)
                    continue;
                for (auto x : seen)
                    if (seen.count(x) > may.count(x))
                    {
                        fail("query-extra", mc::cat(op, " finds item ", x, " more than it should: it got ", results[p][i]));
                        break;
                    }
            }
        // What is there at the end
        std::string digest;
        for (auto& o : r.outs)
            digest += o;
        digest += state_digest(root);
        if (c.visited(mc::mix(mc::hash(sc.text), mc::hash(digest))))
            return;
        c.states();
        c.distinct(sc.text + digest);
        try
        {
            std::vector<Msg> now;
            {
                World w(sc.conf, root);
                now = visible(w);
            }
            auto rs = results;
            for (size_t p = 0; p < rs.size(); ++p)
                for (size_t i = 0; i < rs[p].size(); ++i)
                    if (orders.init[p][i].empty())
                        rs[p][i] = "";
            auto got = Orders::str(rs, contents_str(now));
            if (!orders.acc.outcomes.count(got))
            {
                std::string exp;
                for (auto& a : orders.acc.outcomes)
                    exp += "\n  or " + mc::quote(a);
                throw Fail("outcome", "outcome does not correspond to any order of the operations: " + mc::quote(got) + " instead of" + exp);
            }
            {
                World w(sc.conf, root);
                // The interval of what is in the dataset does not include archives
                verify(w, now, V_DATA | V_SUMMARY | (fs::exists(root + "/.archive") ? 0 : V_INTERVAL), what);
            }
            {
                World w(sc.conf, root);
                for (auto& i : states(w, true))
                    if (i.second != "OK" && i.second != "DIRTY" && i.second != "DELETED" && i.second.find("ARCHIVE_AGE") == std::string::npos && i.second.find("DELETE_AGE") == std::string::npos)
                        throw Fail("state", "segment " + i.first + " is " + i.second);
            }
            for (auto op : {"cka", "rp"})
            {
                World w(sc.conf, root);
                auto a = mc::ds::apply(w, op);
                if (a.threw)
                    throw Fail("later-failed", std::string(op) + " fails afterwards: " + a.error);
            }
            {
                World w(sc.conf, root);
                auto later = visible(w);
                if (sc.conf.delete_age < 0 && contents_str(later) != contents_str(now))
                    throw Fail("later-changed", "data changes after check and repack");
            }
        }
        catch (Fail& e)
        {
            fail(e.key, e.what());
        }
    }

    uint64_t maxsteps = 0;
    void explore(const std::vector<unsigned>& prefix, unsigned spent, bool roots_only, std::vector<std::string>* roots)
    {
        c.current(sc.text + " schedule " + prefix_str(prefix));
        auto r = run(prefix);
        c.eval();
        c.traces();
        c.transitions(r.steps.size());
        maxsteps = std::max<uint64_t>(maxsteps, r.steps.size());
        check(r, prefix);
        if (prefix.empty())
        {
            c.sample(sc.text + ": " + std::to_string(r.steps.size()) + " steps");
            if (mc::args.verbose)
                fprintf(stderr, "%s\n%s\n", sc.text.c_str(), r.trace().c_str());
        }
        if (r.diverged || r.horizon)
            return;
        for (size_t i = prefix.size(); i < r.steps.size(); ++i)
        {
            auto& st = r.steps[i];
            for (unsigned j = 1; j < st.enabled.size(); ++j)
            {
                unsigned cost = st.running_enabled ? 1 : 0;
                if (spent + cost > sc.pb)
                    continue;
                std::vector<unsigned> p;
                for (size_t k = 0; k < i; ++k)
                    p.push_back(r.steps[k].chosen_idx);
                p.push_back(j);
                if (roots_only)
                    roots->push_back(std::to_string(spent + cost) + "|" + prefix_str(p));
                else
                    explore(p, spent + cost, false, nullptr);
            }
        }
    }
};

void sched_task(Ctx& c, const std::string& task)
{
    // PROP|phase|conf|setup|procs|pb[|spent|prefix]
    auto f = mc::split(task, '|');
    Explorer e(c, f[2] + "|" + f[3] + "|" + f[4] + "|" + f[5]);
    if (f[1] == "1")
    {
        std::vector<std::string> roots;
        e.explore({}, 0, true, &roots);
        for (auto& r : roots)
            c.emit(f[0] + "|2|" + e.sc.text + "|" + r);
    }
    else if (f[1] == "2")
        e.explore(Explorer::parse_prefix(f[7]), std::stoul(f[6]), false, nullptr);
    else
    {
        // One schedule only
        auto p = Explorer::parse_prefix(f[7]);
        auto r = e.run(p);
        e.check(r, p);
    }
}

mc::Register c12("C12", [] {
    std::vector<std::string> tasks;
    std::string u = ";unique=reftime,product,area";
    unsigned pb   = mc::args.thorough ? 2 : 1;
    auto add      = [&](const std::string& conf, const std::string& setup, const std::string& procs) {
        tasks.push_back("C12|1|" + conf + "|" + setup + "|" + procs + "|" + std::to_string(pb));
    };
    for (std::string conf : {std::string("type=simple;fmt=grib"), "type=iseg;fmt=grib" + u})
    {
        bool iseg = conf[5] == 'i';
        // Queries while importing
        for (std::string q : {"Q", "L", "B", "S"})
        {
            add(conf, "i0,1,5 ck", "i2,3&" + q);
            add(conf, "", "i0,5&" + q);
        }
        add(conf, "i0,1,5 ck", "i2&Q +Q S +S");
        add(conf + ";dirs", "i0,1,5 ck", "i2,3&L");
        // Imports
        add(conf, "i0,1,5 ck", "i2,3&i4,1");
        add(conf, "", "i0,5&i0,5");
        add(conf, "", "i0&i4");
        add(conf + ";dirs", "i0 ck", "i2,3&i4,1");
        // Maintenance
        for (std::string m : {"rp", "cka", "d1", "gz2", "ra"})
            for (std::string o : {"Q", "L", "B", "S", "i2"})
                if (m != o)
                    add(conf, "i0,1,4,5 ck d0", m + "&" + o);
        add(conf, "i0,1,4,5 ck d0", "rp&rp");
        add(conf, "i0,1,4,5 ck d0", "cka&rp");
        for (std::string m : {"tar", "zip"})
            for (std::string o : {"Q", "L", "i2"})
                add(conf + ";dirs", "i0,1,4,5 ck", m + "&" + o);
        // Archiving
        for (std::string o : {"Q", "L", "B", "S", "i2"})
        {
            add(conf, "i0,1,4,5 ck", "arc:2020/01-01.grib&" + o);
            add(conf, "i0,1,4,5 ck arc:2020/01-01.grib", "una:2020/01-01.grib&" + o);
        }
        // Replacing
        if (iseg)
            for (std::string o : {"Q", "L", "B", "S", "rp", "i4,8:always"})
                add("type=iseg;fmt=bufr;unique=reftime,product,area;replace=yes", "i0,1,8 ck", "i9,2&" + o);
        // Deletions
        add(conf, "i0,1,4,5 ck", "d1&d4");
        add(conf, "i0,1,4,5 ck", "d1,5&d1,5");
        add(conf, "i0,1,4,5 ck", "d1&cka");
        // Checks of something that needs to be fixed
        for (std::string o : {"Q", "i2", "rp", "ck"})
        {
            add(conf, "i0,1,4,5 ck del:2020/01-01.grib.metadata del:2020/01-01.grib.index", "ck&" + o);
            add(conf, "i0,1,4,5 ck", "rsc:2020/01-01.grib&" + o);
        }
        // Small files
        for (std::string o : {"Q", "L", "B", "i4"})
            add(std::string("type=") + (iseg ? "iseg" : "simple") + ";fmt=vm2;smallfiles;step=monthly" + (iseg ? u : ""), "i0,1,5 ck", "i2,3&" + o);
        // Ages
        for (std::string o : {"Q", "i2"})
        {
            add(conf + ";archive=10", "now:2020-01-02 i0,1,4,5 ck now:2020-01-20", "rp&" + o);
        }
        // Three processes
        add(conf, "i0,5 ck", "i1&i2&Q");
        add(conf, "i0,5,4 ck d0", "i1&rp&Q");
        add(conf, "i0,5,4 ck", "i1&d4&cka");
    }
    auto l = run_tasks(tasks, sched_task, "C12|1|");
    std::sort(l.begin(), l.end());
    run_tasks(l, sched_task, "C12|2|");
    note("scenarios", std::to_string(tasks.size()));
    note("bounds", mc::cat(pb, " preemptions, besides the switches when a process ends or waits for a lock; scheduling points: all the calls that open, read, write, create, rename, remove, look at or lock files of the dataset, sqlite being taken as atomic between its syncs"));
});

/*
 * Locks
 */

/// Lock or unlock: +r1 -r1 +a1 -a1 +c1 -c1 +w1 -w1, the number being the segment
std::string lock_body(const Conf& conf, const std::string& root, const std::string& script)
{
    World w(conf, root);
    auto simple = std::dynamic_pointer_cast<dataset::simple::Dataset>(w.ds);
    auto iseg   = std::dynamic_pointer_cast<dataset::iseg::Dataset>(w.ds);
    std::map<std::string, std::vector<std::shared_ptr<void>>> held;
    std::map<std::string, std::shared_ptr<core::CheckLock>> checks;
    for (auto& t : mc::split(script, ' '))
    {
        std::string what  = t.substr(1);
        std::string relpath = mc::cat("2020/01-0", what[1], ".grib");
        if (t[0] == '-')
        {
            sysx::sched_point(("drop " + what).c_str());
            if (what[0] == 'c')
                checks.erase(what);
            held[what].pop_back();
            continue;
        }
        std::shared_ptr<void> l;
        switch (what[0])
        {
            case 'r': l = simple ? simple->read_lock_dataset() : iseg->read_lock_segment(relpath); break;
            case 'a': l = simple ? simple->append_lock_dataset() : iseg->append_lock_segment(relpath); break;
            case 'c': l = checks[what] = simple ? simple->check_lock_dataset() : iseg->check_lock_segment(relpath); break;
            case 'w': l = checks["c" + what.substr(1)]->write_lock(); break;
        }
        held[what].push_back(l);
        sysx::sched_point(("have " + what).c_str());
    }
    return "ok";
}

bool conflict(const std::string& a, const std::string& b)
{
    if (a.substr(1) != b.substr(1))
        return false;
    char x = a[0], y = b[0];
    if (x == 'w' || y == 'w')
        return true;
    if (x == 'r' || y == 'r')
        return false;
    return true;
}

struct LockExplorer
{
    Ctx& c;
    std::string text;
    Conf conf;
    std::vector<std::vector<std::string>> scripts;
    std::vector<std::string> texts;
    unsigned pb;
    std::string root;
    bool single = false;

    LockExplorer(Ctx& c, const std::string& t) : c(c), text(t)
    {
        auto f = mc::split(t, '|');
        conf   = Conf::parse(f[0]);
        for (auto& s : mc::split(f[1], '&'))
        {
            texts.push_back(s);
            scripts.push_back(mc::split(s, ' '));
        }
        pb   = std::stoul(f[2]);
        root = fresh_scratch() + "/ds";
        fs::create_directories(root + "/2020");
    }
    void check(const sysx::SchedRun& r, const std::vector<unsigned>& prefix)
    {
        std::string trace;
        auto fail = [&](const std::string& key, const std::string& msg) {
            c.fail(key, text + " schedule " + Explorer::prefix_str(prefix) + ": " + msg + "\n" + r.trace());
        };
        if (r.deadlock || r.horizon || r.diverged)
            return fail(r.deadlock ? "deadlock" : r.horizon ? "endless" : "diverged", "processes cannot get their locks");
        for (size_t p = 0; p < r.outs.size(); ++p)
            if (r.outs[p] != "ok")
                return fail("failed", mc::cat("process ", p, " fails: ", r.outs[p]));
        // Position of each process in its script: how many steps are done
        size_t n = scripts.size();
        std::vector<size_t> pos(n, 0);
        std::vector<bool> started(n, false), finished(n, false);
        std::vector<size_t> last(n, 0);
        for (size_t i = 0; i < r.steps.size(); ++i)
            last[r.steps[i].enabled[r.steps[i].chosen_idx]] = i;
        bool nolock = conf.nolock;
        for (size_t i = 0; i < r.steps.size(); ++i)
        {
            auto& st = r.steps[i];
            // What is surely held, and what may be held
            std::vector<std::vector<std::string>> sure(n), may(n);
            for (size_t p = 0; p < n; ++p)
            {
                for (size_t k = 0; k < pos[p]; ++k)
                {
                    const auto& t = scripts[p][k];
                    if (t[0] == '+')
                        sure[p].push_back(t.substr(1));
                    else
                        sure[p].erase(std::find(sure[p].begin(), sure[p].end(), t.substr(1)));
                }
                may[p] = sure[p];
                // A release is done between its step and the next one
                if (pos[p] && scripts[p][pos[p] - 1][0] == '-')
                    may[p].push_back(scripts[p][pos[p] - 1].substr(1));
                if (pos[p] < scripts[p].size() && i <= last[p] && started[p])
                {
                    // Being acquired
                    if (scripts[p][pos[p]][0] == '+')
                        may[p].push_back(scripts[p][pos[p]].substr(1));
                }
            }
            if (!nolock)
                for (size_t p = 0; p < n; ++p)
                    for (size_t q = p + 1; q < n; ++q)
                        for (auto& a : sure[p])
                            for (auto& b : sure[q])
                                if (conflict(a, b))
                                    return fail("exclusion", mc::cat("at step ", i, " process ", p, " holds ", a, " and process ", q, " holds ", b));
            for (size_t p = 0; p < n; ++p)
            {
                if (i > last[p] || std::find(st.enabled.begin(), st.enabled.end(), p) != st.enabled.end())
                    continue;
                // Waiting
                if (pos[p] >= scripts[p].size() || scripts[p][pos[p]][0] != '+')
                    return fail("blocked", mc::cat("at step ", i, " process ", p, " waits while it is not asking for a lock"));
                bool reason = false;
                for (size_t q = 0; q < n && !nolock; ++q)
                    if (q != p)
                        for (auto& b : may[q])
                            if (conflict(scripts[p][pos[p]].substr(1), b))
                                reason = true;
                if (!reason)
                    return fail("blocked", mc::cat("at step ", i, " process ", p, " waits for ", scripts[p][pos[p]].substr(1), " with no reason to"));
            }
            unsigned who = st.enabled[st.chosen_idx];
            started[who] = true;
            if (st.op.compare(0, 5, "have ") == 0 || st.op.compare(0, 5, "drop ") == 0)
                ++pos[who];
        }
        if (c.distinct(text + r.trace()))
            c.states();
    }
    void explore(const std::vector<unsigned>& prefix, unsigned spent)
    {
        c.current(text + " schedule " + Explorer::prefix_str(prefix));
        std::vector<std::function<std::string()>> bodies;
        for (auto& s : texts)
            bodies.push_back([this, &s] { return lock_body(conf, root, s); });
        auto r = sysx::sched_run(bodies, root, sysx::C_LOCK, prefix);
        c.eval();
        c.traces();
        c.transitions(r.steps.size());
        check(r, prefix);
        if (prefix.empty())
            c.sample(text + ": " + std::to_string(r.steps.size()) + " steps");
        if (r.diverged || r.horizon || single)
            return;
        for (size_t i = prefix.size(); i < r.steps.size(); ++i)
        {
            auto& st = r.steps[i];
            for (unsigned j = 1; j < st.enabled.size(); ++j)
            {
                unsigned cost = st.running_enabled ? 1 : 0;
                if (spent + cost > pb)
                    continue;
                std::vector<unsigned> p;
                for (size_t k = 0; k < i; ++k)
                    p.push_back(r.steps[k].chosen_idx);
                p.push_back(j);
                explore(p, spent + cost);
            }
        }
    }
};

mc::Register c13("C13", [] {
    std::vector<std::string> tasks;
    std::vector<std::string> scripts{"+r1 -r1", "+r1 +r1 -r1 -r1", "+a1 -a1", "+c1 -c1", "+c1 +w1 -w1 -c1", "+c1 +w1 -w1 +w1 -w1 -c1", "+c1 +w1 +w1 -w1 -w1 -c1", "+a1 -a1 +r1 -r1", "+r1 -r1 +a1 -a1"};
    for (std::string conf : {std::string("type=simple;fmt=grib"), std::string("type=iseg;fmt=grib"), std::string("type=simple;fmt=grib;nolock"), std::string("type=iseg;fmt=grib;nolock")})
    {
        bool small = conf.find("nolock") != std::string::npos;
        for (size_t i = 0; i < scripts.size(); ++i)
            for (size_t j = i; j < scripts.size(); ++j)
            {
                if (small && (i || j % 2))
                    continue;
                tasks.push_back(mc::cat("C13|", conf, "|", scripts[i], "&", scripts[j], "|", mc::args.thorough ? 4 : 2));
            }
        std::vector<std::string> three{scripts[0], scripts[2], scripts[3], scripts[4]};
        for (size_t i = 0; i < three.size(); ++i)
            for (size_t j = i; j < three.size(); ++j)
                for (size_t k = j; k < three.size() && !small; ++k)
                    tasks.push_back(mc::cat("C13|", conf, "|", three[i], "&", three[j], "&", three[k], "|", mc::args.thorough ? 3 : 1));
    }
    // Locks on a segment do not affect other segments
    for (auto a : {"+r1 -r1", "+a1 -a1", "+c1 +w1 -w1 -c1"})
        for (auto b : {"+r2 -r2", "+a2 -a2", "+c2 +w2 -w2 -c2", "+c1 +w1 -w1 -c1 +a2 -a2"})
            tasks.push_back(mc::cat("C13|type=iseg;fmt=grib|", a, "&", b, "|", mc::args.thorough ? 4 : 2));
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        LockExplorer e(c, task.substr(4));
        e.explore({}, 0);
    }, "C13|");
    note("bounds", mc::cat("2 processes: ", mc::args.thorough ? 4 : 2, " preemptions; 3 processes: ", mc::args.thorough ? 3 : 1, " preemptions"));
});

} // namespace
