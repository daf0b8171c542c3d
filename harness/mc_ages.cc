// What happens to data as it gets old: exhaustive exploration of sequences of
// maintenance operations and imports, each done at each instant at which
// something should change.
#include "cal.h"
#include "common_ds.h"
#include <algorithm>
#include <arki/dataset/local.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/query.h>
#include <arki/types/source/blob.h>
#include <climits>
#include <filesystem>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

const long DAY = 86400;

long seconds(int ye, int mo, int da)
{
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    tm.tm_year = ye - 1900;
    tm.tm_mon  = mo - 1;
    tm.tm_mday = da;
    return timegm(&tm);
}

std::string text(long t)
{
    time_t tt = t;
    struct tm tm;
    gmtime_r(&tt, &tm);
    char b[64];
    strftime(b, sizeof(b), "%Y-%m-%dT%H:%M:%SZ", &tm);
    return b;
}

/// First instant after the span of the segment with m
long segment_end(const Conf& conf, const Msg& m)
{
    int ye = 0, mo = 0, da = 0;
    sscanf(m.t.c_str(), "%d-%d-%d", &ye, &mo, &da);
    if (conf.step == "yearly")
        return seconds(ye + 1, 1, 1);
    int ny = mo == 12 ? ye + 1 : ye, nm = mo == 12 ? 1 : mo + 1;
    if (conf.step == "monthly")
        return seconds(ny, nm, 1);
    if (conf.step == "biweekly")
        return da <= 15 ? seconds(ye, mo, 16) : seconds(ny, nm, 1);
    if (conf.step == "weekly")
    {
        int first = (da - 1) / 7 * 7 + 1;
        return std::min(seconds(ye, mo, first + 7), seconds(ny, nm, 1));
    }
    return seconds(ye, mo, da + 1);
}

const std::vector<unsigned> used{0, 1, 2, 4, 5, 6, 13, 15, 17};

struct Step
{
    long when;
    std::string op; // rp ro ck cka iN tN, with ? readonly, ! online only, ~ offline only, @FILTER
};

struct Case
{
    Conf conf;
    std::string init;
    std::vector<Step> steps;
    std::string str() const
    {
        std::string r = conf.str() + " after " + (init.empty() ? "import" : init) + ":";
        for (auto& s : steps)
            r += " " + s.op + " at " + text(s.when);
        return r;
    }
};

enum Fate { KEEP, ARCHIVE, DELETE };
Fate fate(const Conf& conf, const std::vector<Msg>& seg, const Msg& any, long now)
{
    long day = now / DAY * DAY;
    long end = segment_end(conf, any);
    if (conf.delete_age != -1 && day - conf.delete_age * DAY >= end)
        return DELETE;
    if (conf.archive_age != -1 && day - conf.archive_age * DAY >= end)
        return ARCHIVE;
    return KEEP;
}

void check_contents(World& w, const Model& model, const std::string& what)
{
    std::map<std::string, std::string> want, got;
    for (auto& s : model.online)
        for (auto& m : s.second)
            want[m.id()] = "online";
    for (auto& s : model.archived)
        for (auto& m : s.second)
            want[m.id()] = "archived";
    verify(w, model.all(), V_DATA | V_NODATA | V_SUMMARY, what);
    auto r = w.reader();
    r->query_data(query::Data(w.session->matcher(""), true), [&](std::shared_ptr<Metadata> md) {
        auto& s = md->sourceBlob();
        auto d  = md->get_data().read();
        std::string bytes(d.begin(), d.end());
        for (auto& seg : model.online)
            for (auto& m : seg.second)
                if (m.bytes() == bytes)
                    got[m.id()] = s.basedir == fs::path(w.root) ? "online" : "at " + s.basedir.native();
        for (auto& seg : model.archived)
            for (auto& m : seg.second)
                if (m.bytes() == bytes)
                    got[m.id()] = s.basedir == fs::path(w.root) / ".archive" / "last" ? "archived" : "at " + s.basedir.native();
        return true;
    });
    if (want != got)
        throw mc::Fail("place", what + ": data are not where they should be: expected " + model.str());
    auto files = tree_contents(w.root);
    auto any   = [&](const std::string& prefix) {
        for (auto i = files.lower_bound(prefix); i != files.end() && i->first.compare(0, prefix.size(), prefix) == 0; ++i)
        {
            // sqlite may leave these
            auto ext = i->first.substr(prefix.size());
            if (ext != ".index-shm" && ext != ".index-wal" && ext != ".lock")
                return i->first;
        }
        return std::string();
    };
    std::set<std::string> segs;
    for (auto i : used)
        segs.insert(w.conf.segment(msg(w.conf, i)));
    for (auto& s : segs)
    {
        auto on = model.online.find(s), ar = model.archived.find(s);
        if (on == model.online.end())
        {
            auto f = any(s);
            if (!f.empty())
                throw mc::Fail("left", what + ": " + f + " is still there");
        }
        if (ar == model.archived.end())
        {
            auto f = any(".archive/last/" + s);
            if (!f.empty())
                throw mc::Fail("left-archived", what + ": " + f + " is there");
        }
    }
}

/// Do one step, and update the model of what should happen
void run_step(World& w, Model& model, const Step& step, const std::string& what)
{
    const Conf& conf = w.conf;
    set_now(text(step.when));
    auto tov = dataset::SessionTime::local_override(step.when);
    if (isdigit((unsigned char)step.op[1]))
    {
        bool dry = step.op[0] == 't';
        metadata::InboundBatch batch;
        std::string want, got;
        Model m2 = model;
        std::vector<Msg> ms;
        for (auto i : op_msgs("i" + step.op.substr(1)))
            ms.push_back(msg(conf, i));
        for (auto& m : ms)
        {
            batch.add(m.inlined());
            char r = m2.import(conf, m, "always", conf.format);
            want += r == 'X' ? 'K' : r;
        }
        auto before = dry ? state_digest(w.root) : "";
        if (dry)
            dataset::local::Writer::test_acquire(w.session, *conf.section(w.root), batch);
        else
        {
            auto writer = w.writer();
            dataset::AcquireConfig ac;
            ac.replace = ReplaceStrategy::ALWAYS;
            writer->acquire_batch(batch, ac);
            writer->flush();
        }
        for (auto& e : batch)
            got += e->result == metadata::Inbound::Result::OK ? 'K' : e->result == metadata::Inbound::Result::DUPLICATE ? 'D' : 'E';
        if (got != want)
            throw mc::Fail("import", what + ": importing gives " + got + " instead of " + want);
        if (dry)
        {
            if (state_digest(w.root) != before)
                throw mc::Fail("simulated-import", what + ": a simulated import changes the dataset");
        }
        else
            model = m2;
        return;
    }

    std::string op = step.op, filter;
    auto at        = op.find('@');
    if (at != std::string::npos)
    {
        filter = op.substr(at + 1);
        op.resize(at);
    }
    auto rec = std::make_shared<Recorder>();
    dataset::CheckerConfig cc(rec, false);
    while (strchr("?!~", op.back()))
    {
        switch (op.back())
        {
            case '?': cc.readonly = true; break;
            case '!': cc.offline = false; break;
            case '~': cc.online = false; break;
        }
        op.pop_back();
    }
    long fbegin = LONG_MIN, fend = LONG_MAX; // span of the filter
    if (!filter.empty())
    {
        cc.segment_filter = w.session->matcher("reftime:" + filter);
        int y, m, d;
        sscanf(filter.c_str() + 1, "%d-%d-%d", &y, &m, &d);
        if (filter[0] == '<')
            fend = seconds(y, m, d);
        else
            fbegin = seconds(y, m, d) + (filter[0] == '>' ? DAY : 0);
        if (filter[0] == '=')
            fend = fbegin + DAY;
    }
    // What should happen
    std::map<std::string, Fate> fates;
    std::set<std::string> empty_now;
    for (auto& s : model.online)
    {
        Msg any;
        bool found = false;
        for (auto i : used)
            if (conf.segment(msg(conf, i)) == s.first)
            {
                any   = msg(conf, i);
                found = true;
            }
        if (!found)
            throw std::runtime_error("mc: unknown segment " + s.first);
        if (s.second.empty())
            empty_now.insert(s.first);
        bool hit = filter.empty();
        for (auto& m : s.second)
        {
            struct tm tm;
            memset(&tm, 0, sizeof(tm));
            strptime(m.t.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm);
            long t = timegm(&tm);
            if (t >= fbegin && t < fend)
                hit = true;
        }
        // How far segments that only might have data count is up to the code
        if (cc.online && hit)
            fates[s.first] = fate(conf, s.second, any, step.when);
    }
    auto before = cc.readonly ? state_digest(w.root) : "";
    auto checker = w.checker();
    if (op == "rp") checker->repack(cc);
    else if (op == "ro") checker->remove_old(cc);
    else if (op == "ck") checker->check(cc);
    else if (op == "cka") { cc.accurate = true; checker->check(cc); }
    else throw std::runtime_error("mc: unknown operation " + op);
    checker.reset();
    if (cc.readonly && state_digest(w.root) != before)
        throw mc::Fail("readonly", what + ": changes the dataset although it was only asked what it would do");

    std::set<std::string> archived, removed, told_archive, told_remove;
    for (auto& l : rec->log)
    {
        auto f = mc::split(l, '|');
        if (f[0] == "archive") archived.insert(f[1]);
        else if (f[0] == "remove") removed.insert(f[1]);
        else if (f[0] == "info" && l.find("old enough to be archived") != std::string::npos) told_archive.insert(f[1]);
        else if (f[0] == "info" && l.find("old enough to be deleted") != std::string::npos) told_remove.insert(f[1]);
    }
    std::set<std::string> want_archived, want_removed;
    for (auto& f : fates)
    {
        if (empty_now.count(f.first))
            continue;
        if (f.second == ARCHIVE) want_archived.insert(f.first);
        if (f.second == DELETE) want_removed.insert(f.first);
    }
    auto drop = [&](std::set<std::string>& s) {
        for (auto& e : empty_now)
            s.erase(e);
    };
    drop(archived); drop(removed); drop(told_archive); drop(told_remove);
    auto list = [](const std::set<std::string>& s) { return "{" + mc::join(std::vector<std::string>(s.begin(), s.end()), " ") + "}"; };
    if (told_archive != want_archived || told_remove != want_removed)
        throw mc::Fail("told", what + ": tells that " + list(told_archive) + " should be archived and " + list(told_remove) + " deleted, instead of " + list(want_archived) + " and " + list(want_removed) + ": " + mc::join(rec->log, "; "));
    if (op == "rp" && (archived != want_archived || removed != want_removed))
        throw mc::Fail("reported", what + ": reports archiving " + list(archived) + " and deleting " + list(removed) + ", instead of " + list(want_archived) + " and " + list(want_removed));
    if (op == "ro" && (archived.size() || removed != want_removed))
        throw mc::Fail("reported", what + ": reports archiving " + list(archived) + " and deleting " + list(removed) + ", instead of deleting " + list(want_removed));
    if (cc.readonly || op == "ck" || op == "cka")
        return;
    for (auto& f : fates)
    {
        if (empty_now.count(f.first))
        {
            if (op == "rp")
                model.online.erase(f.first);
            continue;
        }
        if (f.second == DELETE)
            model.online.erase(f.first);
        else if (f.second == ARCHIVE && op == "rp")
        {
            auto& d = model.archived[f.first];
            for (auto& m : model.online[f.first])
                d.push_back(m);
            model.online.erase(f.first);
        }
    }
}

std::string build(const Conf& conf, const std::string& init, Model& model)
{
    set_now("2020-01-01T00:00:00Z");
    Conf c = conf;
    c.archive_age = c.delete_age = -1;
    auto root = scratch() + "/" + std::to_string(mc::hash(conf.str() + "|" + init));
    fs::create_directories(root);
    std::vector<std::string> all;
    for (auto i : used)
        all.push_back(std::to_string(i));
    std::vector<std::string> ops{"i" + mc::join(all, ",") + ":always"};
    for (auto& o : mc::split(init, ' '))
        if (!o.empty())
            ops.push_back(o);
    // Until a check is done, data are not repacked
    ops.push_back("ck");
    for (auto& o : ops)
    {
        World w(c, root);
        auto r = mc::ds::apply(w, o);
        if (r.threw)
            throw std::runtime_error("mc: cannot prepare " + conf.str() + " with " + o + ": " + r.error);
        model.apply(c, o);
        age(root);
    }
    return root;
}

void task_run(Ctx& c, const std::string& task)
{
    auto f        = mc::split(task, '|');
    auto conf     = Conf::parse(f[1]);
    auto depth    = std::stoul(f[2]);
    fresh_scratch();

    std::vector<int> ages;
    if (conf.archive_age != -1) ages.push_back(conf.archive_age);
    if (conf.delete_age != -1) ages.push_back(conf.delete_age);
    std::set<long> ends, instants, key;
    for (auto i : used)
        ends.insert(segment_end(conf, msg(conf, i)));
    for (auto e : ends)
        for (auto a : ages)
            for (long d : {-1L, 0L, DAY - 1})
                if (d != DAY - 1 || mc::args.thorough)
                    instants.insert(e + a * DAY + d);
    // The import of data that is stored and of data that is not
    std::vector<std::string> ops{"rp", "rp?", "ro", "ro?", "ck", "cka?", "rp!", "rp~", "ro~", "ro!", "rp@<2020-01-02", "ro@=2020-01-01", "rp@>2020-01-31", "t0,1,2,4,5,6,13,15,17", "i3,17,5", "i6", "i13", "i1"};
    std::vector<std::string> ops2{"rp", "ro", "rp?", "i1,2,5"};
    auto depth2 = mc::args.thorough ? ops2.size() : 3;

    for (auto init : {f.size() > 3 ? f[3] : std::string()})
    {
        Model base;
        auto root = build(conf, init, base);
        for (auto when : instants)
            for (auto& op : ops)
            {
                if (!init.empty() && isdigit((unsigned char)op[1]) && strchr("gtz", init[0]))
                    continue; // Cannot be written to
                if (!init.empty() && op.find('@') != std::string::npos)
                    continue; // Spans of segments are not updated by deletions
                auto work = root + ".1";
                auto with = [&](const std::vector<Step>& steps, const std::string& from, const std::string& to, const Model& pre, Model& post) {
                    Case k{conf, init, steps};
                    c.current(k.str());
                    rmtree(to);
                    copytree(from, to);
                    post = pre;
                    World w(conf, to);
                    try
                    {
                        run_step(w, post, steps.back(), k.str());
                        World w1(conf, to);
                        check_contents(w1, post, k.str());
                        c.states();
                        c.transitions();
                        c.eval();
                        c.distinct(state_digest(to));
                        return true;
                    }
                    catch (mc::Fail& e)
                    {
                        c.fail(e.key, e.what());
                    }
                    catch (std::exception& e)
                    {
                        c.fail("threw", k.str() + ": " + e.what());
                    }
                    return false;
                };
                Model after;
                if (!with({{when, op}}, root, work, base, after))
                    continue;
                if (depth < 2 || op.back() == '?' || op[0] == 't' || op == "ck")
                    continue;
                age(work);
                for (auto w2 : instants)
                {
                    if (w2 < when || (w2 - when) % DAY == DAY - 1)
                        continue;
                    if (!mc::args.thorough && w2 != when && (w2 % DAY))
                        continue;
                    for (size_t i = 0; i < depth2; ++i)
                    {
                        if (!init.empty() && isdigit((unsigned char)ops2[i][1]) && strchr("gtz", init[0]))
                            continue;
                        Model a2;
                        with({{when, op}, {w2, ops2[i]}}, work, root + ".2", after, a2);
                    }
                }
            }
        rmtree(root);
    }
    c.traces();
}

mc::Register c06("C06", [] {
    mc::ds::init();
    std::vector<std::string> tasks;
    std::string u = ";unique=reftime,product,area,level";
    auto add = [&](const std::string& conf, unsigned depth, const std::string& inits) {
        for (auto& i : inits.empty() ? std::vector<std::string>{""} : mc::split(inits, '/'))
            tasks.push_back(mc::cat("C06|", conf, "|", depth, "|", i));
    };
    for (auto type : {"iseg", "simple"})
    {
        std::string t = std::string("type=") + type;
        if (t == "type=iseg")
            t += u + ";index=product";
        t += ";fmt=";
        add(t + "grib;step=daily;archive=10", 1, "/d0/gz2/d2,17");
        add(t + "grib;step=daily;delete=10", 1, "/d0/gz2/d2,17");
        add(t + "vm2;step=daily;archive=3;delete=20", 1, "/d0,4");
        add(t + "grib;step=daily;archive=20;delete=3", 1, "");
        add(t + "bufr;step=monthly;archive=10;delete=45", 2, "/d0");
        add(t + "vm2;step=monthly;smallfiles;archive=0", 1, "/d0,5");
        add(t + "vm2;step=weekly;archive=1;delete=0", 1, "");
        add(t + "bufr;step=biweekly;archive=1;delete=7", 1, "/d6");
        add(t + "grib;step=yearly;archive=1;delete=366", 2, "/d5/gz");
        add(t + "bufr;step=monthly;dirs;archive=10;delete=30", 1, "/d0/tar/zip");
        add(t + "grib;step=daily;archive=50000", 1, "");
        add(t + "grib;step=daily;delete=60000", 1, "");
    }
    run_tasks(tasks, task_run, "C06|");
});

} // namespace
