// Crash consistency: an operation is ended at each of the changes that it does
// to the file system, in full or in part, and what is left is examined and
// recovered in all the ways a user could.
#include "common_ds.h"
#include "mcsys.h"
#include <algorithm>
#include <cstring>
#include <arki/matcher.h>
#include <arki/summary.h>
#include <filesystem>
#include <sys/wait.h>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

typedef std::multiset<std::string> Ids;
Ids ids(const std::vector<Msg>& v)
{
    Ids r;
    for (auto& m : v)
        r.insert(m.id());
    return r;
}
std::string show(const Ids& a) { return a.empty() ? "nothing" : mc::join(std::vector<std::string>(a.begin(), a.end()), " "); }
/// Elements of a not in b
Ids minus(const Ids& a, const Ids& b)
{
    Ids r;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.begin()));
    return r;
}
/// All that is in either
Ids join_max(const Ids& a, const Ids& b)
{
    Ids r;
    std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.begin()));
    return r;
}
Ids plus(Ids a, const Ids& b)
{
    a.insert(b.begin(), b.end());
    return a;
}
std::set<std::string> uniq(const Ids& a) { return std::set<std::string>(a.begin(), a.end()); }

struct Case
{
    Conf conf;
    std::string confstr, hist, op;
    Model before, after;
    std::vector<Msg> batch; // items that op adds
    std::vector<Msg> history; // all that was ever imported before
    bool import = false;
};

/// Look at what can be queried, that has to be intact
Ids seen(const Conf& conf, const std::string& root)
{
    World w(conf, root);
    return ids(visible(w));
}
/// Scan of a segment refused because of an item that was written in part
struct Torn
{
};
Applied run(const Conf& conf, const std::string& root, const std::string& op, const std::string& what)
{
    Applied a;
    {
        World w(conf, root);
        a = mc::ds::apply(w, op);
    }
    if (a.threw)
    {
        // A segment that ends with part of an item cannot be scanned
        if (a.error.find("mc: truncated") != std::string::npos || a.error.find("mc: malformed") != std::string::npos)
            throw Torn();
        throw Fail("recovery-failed", what + ": " + op + " fails: " + a.error);
    }
    return a;
}

/// Whether the bytes of all these messages are somewhere in the dataset
void on_disk(const std::string& root, const std::vector<Msg>& msgs, const std::string& what)
{
    std::string all;
    for (auto& f : tree_contents(root))
        all += f.second + "\n";
    for (auto& m : msgs)
        if (all.find(m.bytes()) == std::string::npos)
            throw Fail("torn-lost", what + ": lost " + m.id() + " while refusing to scan a segment");
}

void summary_agrees(World& w, const std::vector<Msg>& msgs, const std::string& what)
{
    arki::Summary s;
    w.reader()->query_summary(arki::Matcher(), s);
    auto got = summarise(s), exp = expected_summary(msgs);
    if (got != exp)
        throw Fail("summary", what + ": summary is\n" + str(got) + "instead of\n" + str(exp));
}

bool good_state(const std::string& s)
{
    return s == "OK" || s == "DIRTY" || s == "DELETED" || s == "DIRTY|DELETED" || s.find("_AGE") != std::string::npos;
}

/// Data of after that has to be there whatever happened, of segments that op
/// does not touch
struct Expect
{
    Ids must;      // in any case
    Ids may;       // nothing else can be there
    Ids full;      // when op is completed
    Ids zombies;   // deleted data that is still on disk
};

bool endswith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
bool is_data(const std::string& path)
{
    for (auto x : {"/MANIFEST", "/MANIFEST.tmp", "/lock", "/summary", "/.sequence", ".metadata", ".metadata.tmp", ".index", ".index-journal", ".index-wal",
                   ".index-shm", ".lock", "/needs-check-do-not-pack", ".gz.idx"})
        if (endswith(path, x))
            return false;
    return path.find(".summar") == std::string::npos;
}

/// What is written has to be synced before something that refers to it is
/// published, and before the operation is reported as done
void check_synced(const std::vector<sysx::Event>& ev, const std::string& what)
{
    std::map<std::string, size_t> dirty;
    auto clean = [&](const std::string& seg, const std::string& when) {
        for (auto& d : dirty)
            if (seg.empty() || d.first == seg || d.first.compare(0, seg.size() + 1, seg + "/") == 0 || d.first.compare(0, seg.size() + 1, seg + ".") == 0)
                throw Fail("unsynced", what + ": " + d.first + " written by " + std::to_string(d.second) + ":" + ev[d.second].name + " is not synced " + when);
    };
    for (size_t i = 0; i < ev.size(); ++i)
    {
        auto& e = ev[i];
        if (e.cls == sysx::C_WRITE && is_data(e.path))
            dirty[e.path] = i;
        else if (e.cls == sysx::C_SYNC)
        {
            dirty.erase(e.path);
            for (auto s : {".index-wal", ".index"})
                if (endswith(e.path, s))
                    clean(e.path.substr(0, e.path.size() - strlen(s)), "before the index refers to it");
        }
        else if (e.name == "unlink" || e.name == "remove" || e.name == "unlinkat")
            dirty.erase(e.path);
        else if (e.name == "rename" || e.name == "exchange")
        {
            clean(e.path, "before being renamed");
            if (endswith(e.path, ".metadata.tmp"))
                clean(e.path.substr(0, e.path.size() - 13), "before the metadata refers to it");
        }
    }
    clean("", "when the operation ends");
}

struct Explorer
{
    Ctx& c;
    Case cs;
    std::string base, snap, crashed, work;
    bool simple;
    bool fault       = false;
    unsigned classes = sysx::C_MUTATE;
    Expect ex;

    void setup(const std::string& task);
    void faults(const std::string& task, const std::vector<sysx::Event>& ev, const std::string& results);
    void crashes(const std::string& task, const std::vector<sysx::Event>& ev);

    void fresh(const std::string& from)
    {
        rmtree(work);
        copytree(from, work);
    }

    void compare(const Ids& got, const Ids& must, const Ids& may, const std::string& key, const std::string& what)
    {
        auto lost = minus(must, got);
        if (!lost.empty())
            throw Fail(key + "-lost", what + ": lost " + show(lost));
        auto extra = minus(got, may);
        if (!extra.empty())
            throw Fail(key + "-extra", what + ": unexpected " + show(extra));
    }

    /// All the recoveries that have to work
    void examine(const std::string& what, bool torn);
};

void Explorer::examine(const std::string& what, bool torn)
{
    const Conf& conf = cs.conf;
    bool dups        = conf.type == "simple" || conf.unique.empty();
    Ids may          = ex.may;
    Ids may_rescan   = plus(ex.may, ex.zombies);
    Ids may_twice    = dups ? plus(may_rescan, ids(cs.batch)) : may_rescan;
    c.current(what);
    std::vector<Msg> must_msgs;
    for (auto& m : cs.before.all())
        if (ex.must.count(m.id()))
            must_msgs.push_back(m);
    auto report = [&](const Fail& e) {
        c.fail(getenv("MC_DEBUGKEY") ? e.key + "|" + cs.confstr + "|" + cs.op : e.key, e.what());
    };
    auto attempt = [&](const char* name, std::function<void()> f) {
        try
        {
            f();
        }
        catch (Torn&)
        {
            if (!torn)
                report(Fail("recovery-failed", what + ": " + name + ": segment cannot be scanned"));
            else try
            {
                on_disk(work, must_msgs, what + ": " + name);
            }
            catch (Fail& e)
            {
                report(e);
            }
            c.extra(1);
        }
        catch (Fail& e)
        {
            report(e);
        }
        catch (std::exception& e)
        {
            report(Fail(std::string(name) + "-exception", what + ": " + name + ": " + e.what()));
        }
    };

    // Right after the crash
    const char* when = fault ? "the failure" : "the crash";
    attempt("query", [&] {
        fresh(crashed);
        Ids got;
        try
        {
            got = seen(conf, work);
        }
        catch (std::exception& e)
        {
            throw Fail("query-failed", what + ": query after " + when + ": " + e.what());
        }
        // Simple datasets hide segments whose metadata is not up to date
        Ids must = ex.must;
        if (simple)
        {
            must.clear();
            std::set<std::string> touched;
            for (auto& m : cs.batch)
                touched.insert(conf.segment(m));
            if (cs.op[0] == 'd')
                for (auto i : op_msgs(cs.op))
                    touched.insert(conf.segment(msg(conf, i)));
            if (cs.import || cs.op[0] == 'd')
                for (auto& s : cs.before.online)
                    if (!touched.count(s.first))
                        for (auto& m : s.second)
                            must.insert(m.id());
        }
        if (!cs.import && cs.op[0] != 'd')
            must.clear();
        compare(got, must, may, "query", what + ": query after " + when);
        // Maintenance on whole segments can hide them until the next check
        if (cs.import || cs.op[0] == 'd')
        {
            World w(conf, work);
            auto msgs = visible(w);
            // What simple datasets can find by date is told by the MANIFEST,
            // which is updated last
            if (!simple)
                verify(w, msgs, V_DATA | V_SUMMARY | V_NODATA, what + ": after " + when);
            summary_agrees(w, msgs, what + ": after " + when);
        }
    });

    // The operation is done again
    attempt("again", [&] {
        fresh(crashed);
        age(work);
        if (cs.import)
            run(conf, work, cs.op, what + ": again");
        else
        {
            // It may not be possible any more
            World w(conf, work);
            mc::ds::apply(w, cs.op);
        }
        auto got = seen(conf, work);
        if (!cs.import)
            goto check;
        compare(got, ex.full, dups ? plus(may, ids(cs.batch)) : may, "again", what + ": query after doing the operation again");
        {
            World w(conf, work);
            verify(w, visible(w), V_DATA | V_SUMMARY, what + ": after doing the operation again");
        }
    check:
        age(work);
        run(conf, work, "ck", what + ": again");
        got = seen(conf, work);
        compare(got, ex.full, may_twice, "again-check", what + ": check after doing the operation again");
        run(conf, work, "rp", what + ": again, check");
        got = seen(conf, work);
        compare(got, ex.full, may_twice, "again-check-repack", what + ": check and repack after doing the operation again");
    });

    // Repack first
    attempt("repack", [&] {
        fresh(crashed);
        age(work);
        World w(conf, work);
        auto a = mc::ds::apply(w, "rp");
        run(conf, work, "ck", what + ": repack");
        auto got = seen(conf, work);
        compare(got, ex.must, may_rescan, "repack-check", what + ": repack" + (a.threw ? " (failed: " + a.error + ")" : "") + " and check");
    });

    // Check, repack, and redo
    attempt("check", [&] {
        fresh(crashed);
        age(work);
        run(conf, work, "ck", what + ": check");
        auto got = seen(conf, work);
        compare(got, ex.must, may_rescan, "check", what + ": check");
        {
            World w(conf, work);
            verify(w, visible(w), V_DATA | V_SUMMARY, what + ": after check");
        }
        {
            World w(conf, work);
            for (auto& s : states(w, true))
                if (!good_state(s.second))
                    throw Fail("check-state", what + ": after check, segment " + s.first + " is " + s.second);
        }
        age(work);
        run(conf, work, "rp", what + ": check");
        auto got1 = seen(conf, work);
        if (got1 != got)
            throw Fail("check-repack", what + ": repack after check changes what is in the dataset from " + show(got) + " to " + show(got1));
        {
            World w(conf, work);
            for (auto& s : states(w, true))
                if (s.second != "OK" && s.second.find("_AGE") == std::string::npos)
                    throw Fail("repack-state", what + ": after check and repack, segment " + s.first + " is " + s.second);
        }
        age(work);
        if (!cs.import)
            return;
        // Deleted data that reappeared can be in the way of what is imported
        Ids full = ex.full;
        if (!dups && !endswith(cs.op, ":always"))
            for (auto& z : cs.history)
                if (ex.zombies.count(z.id()) && got.count(z.id()))
                    for (auto& m : cs.batch)
                        if (conf.key(m) == conf.key(z))
                            full.erase(m.id());
        run(conf, work, cs.op, what + ": check, repack");
        got = seen(conf, work);
        compare(got, full, may_twice, "check-repack-again", what + ": check, repack and doing the operation again");
    });
    c.traces(4);
}

/// Build the initial state, and see what is expected
void Explorer::setup(const std::string& task)
{
    auto f     = mc::split(task, '|');
    cs.confstr = f[1];
    cs.conf    = Conf::parse(f[1]);
    cs.hist    = f[2];
    cs.op      = f[3];
    if (f.size() > 4 && f[4] == "read")
        classes = sysx::C_READ | sysx::C_OPEN;
    simple   = cs.conf.type == "simple";
    base     = fresh_scratch();
    work     = base + "/ds";
    snap     = base + "/snap";
    crashed  = base + "/crashed";
    fs::create_directories(work);
    const Conf& conf = cs.conf;
    // Base state
    run(conf, work, "ck", "base");
    for (auto& o : mc::split(cs.hist, ' '))
    {
        if (o.empty())
            continue;
        run(conf, work, o, "base");
        if (isdigit((unsigned char)o[1]) && o[0] == 'i')
        {
            for (auto i : op_msgs(o))
                cs.before.import(conf, msg(conf, i), "", msg(conf, op_msgs(o)[0]).format);
        }
        else
            cs.before.apply(conf, o);
        if (conf.aged)
            age(work);
    }
    copytree(work, snap);
    cs.after  = cs.before;
    cs.import = cs.op[0] == 'i' && isdigit((unsigned char)cs.op[1]);
    if (cs.import)
    {
        auto p = cs.op.find(':');
        for (auto i : op_msgs(cs.op))
        {
            cs.batch.push_back(msg(conf, i));
            cs.after.import(conf, msg(conf, i), p == std::string::npos ? "" : cs.op.substr(p + 1), msg(conf, op_msgs(cs.op)[0]).format);
        }
    }
    else
        cs.after.apply(conf, cs.op);
    auto b = ids(cs.before.all()), a = ids(cs.after.all());
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(ex.must, ex.must.begin()));
    ex.may  = join_max(a, b);
    for (auto& o : mc::split(cs.hist, ' '))
        if (!o.empty() && o[0] == 'i' && isdigit((unsigned char)o[1]))
            for (auto i : op_msgs(o))
            {
                ex.zombies.insert(msg(conf, i).id());
                cs.history.push_back(msg(conf, i));
            }
    // The same message can be there, deleted, and be imported again
    bool dups    = simple || conf.unique.empty();
    ex.zombies = minus(ex.zombies, dups ? b : ex.may);
    ex.full = a;

}

void run_task(Ctx& c, const std::string& task)
{
    Explorer e{c};
    e.setup(task);
    const Case& cs   = e.cs;
    const Conf& conf = cs.conf;
    // What the operation does
    std::vector<sysx::Event> ev;
    std::string results;
    {
        World w(conf, e.work);
        sysx::set_log(e.work, e.classes, &ev);
        auto res = mc::ds::apply(w, cs.op);
        sysx::set_off();
        results = res.results;
        if (res.threw)
            throw Fail("op-failed", task + ": operation failed: " + res.error);
    }
    {
        auto got = seen(conf, e.work);
        if (got != e.ex.full)
            throw Fail("model", task + ": after the operation there is " + show(got) + " instead of " + show(e.ex.full));
        World w(conf, e.work);
        for (auto& st : states(w, true))
            if (cs.import && !good_state(st.second))
                throw Fail("state", task + ": after the operation segment " + st.first + " is " + st.second);
    }
    try
    {
        check_synced(ev, task);
    }
    catch (Fail& e)
    {
        c.fail(e.key, e.what());
    }
    c.extra(0, ev.size());
    if (task.compare(0, 4, "C11|") == 0)
        e.faults(task, ev, results);
    else
        e.crashes(task, ev);
    c.sample(task + ": " + std::to_string(ev.size()) + " events");
}

void Explorer::crashes(const std::string& task, const std::vector<sysx::Event>& ev)
{
    const Conf& conf = cs.conf;
    Explorer& e      = *this;
    for (size_t k = 0; k <= ev.size(); ++k)
    {
        std::vector<int> partials{-1};
        if (k < ev.size() && ev[k].cls == sysx::C_WRITE && ev[k].name.find("write") != std::string::npos)
            partials = {-1, 1, 2, 3};
        if (k < ev.size() && ev[k].name == "copy_file_range")
            partials = {-1, 2};
        if (k == ev.size())
            continue;
        for (auto p : partials)
        {
            std::string what = task + ": crash before " + std::to_string(k) + ":" + (k < ev.size() ? ev[k].name + " " + ev[k].path + " " + ev[k].arg : "end") + (p >= 0 ? mc::cat(" after ", p, "/4 of it") : "");
            c.current(what);
            e.fresh(e.snap);
            auto r = in_child([&]() -> std::string {
                World w(conf, e.work);
                sysx::set_crash(e.work, sysx::C_MUTATE, k, p);
                mc::ds::apply(w, cs.op);
                sysx::set_off();
                return "end";
            });
            c.eval();
            if (!r.exited(sysx::CRASH_EXIT))
                throw Fail("harness", what + ": crash did not happen: status " + std::to_string(r.status) + " " + r.out);
            c.transitions();
            auto digest = mc::mix(mc::hash(task), mc::hash(state_digest(e.work) + (conf.aged ? "" : "")));
            rmtree(e.crashed);
            copytree(e.work, e.crashed);
            if (c.visited(digest))
                continue;
            c.states();
            c.distinct_hash(digest);
            try
            {
                e.examine(what, p > 0);
            }
            catch (Fail& x)
            {
                c.fail(x.key, x.what());
            }
        }
    }
}

/// Contents of the files with data
std::map<std::string, std::string> data_files(const std::string& root)
{
    std::map<std::string, std::string> res;
    for (auto& i : tree_contents(root))
    {
        auto name = i.first.substr(i.first.rfind('/') + 1);
        bool no   = name.find(".summary") != std::string::npos || name.find(".metadata") != std::string::npos || name == "MANIFEST" || name == "lock" || name[0] == '.' || i.first.find(".summaries") != std::string::npos;
        for (auto x : {".index", ".index-wal", ".index-shm", ".index-journal", ".metadata", ".summary", ".lock", ".tmp"})
            no = no || endswith(name, x);
        if (!no && !i.second.empty())
            res[i.first] = i.second;
    }
    return res;
}

/// Each of the operations on files fails in turn, in all the ways it can
void Explorer::faults(const std::string& task, const std::vector<sysx::Event>& ev, const std::string& results)
{
    const Conf& conf = cs.conf;
    fault            = true;
    // Data before and after the operation
    auto data_before = data_files(snap), data_after = data_files(work);
    struct Fault
    {
        const char* name;
        int err;
        bool sticky;
        int shortw;
    };
    static const Fault kinds[] = {
        {"fails", EIO, false, -1}, {"fails, as all the following ones", EIO, true, -1}, {"is done in part", 0, false, 2}, {"is done in part, then the disk is full", ENOSPC, true, 2}};
    for (size_t k = 0; k < ev.size(); ++k)
    {
        bool write = ev[k].cls == sysx::C_WRITE && (ev[k].name.find("write") != std::string::npos || ev[k].name == "copy_file_range" || ev[k].name == "sendfile");
        for (auto& fk : kinds)
        {
            if (fk.shortw >= 0 && !write)
                continue;
            std::string what = task + ": " + std::to_string(k) + ":" + ev[k].name + " " + ev[k].path + " " + ev[k].arg + " " + fk.name;
            c.current(what);
            for (bool twice : {false, true})
            {
                fresh(snap);
                auto r = in_child([&]() -> std::string {
                    World w(conf, work);
                    sysx::set_fail(work, classes, k, fk.err, fk.sticky, fk.shortw);
                    auto a     = mc::ds::apply(w, cs.op);
                    bool fired = sysx::fault_fired();
                    sysx::set_off();
                    if (twice)
                    {
                        // Again, with what the process has in memory
                        if (conf.aged)
                            age(work);
                        a = mc::ds::apply(w, cs.op);
                    }
                    return mc::cat(fired ? "F" : "N", a.threw ? "T" : "R", "|", a.results, "|", a.error);
                });
                c.eval();
                if (!r.exited(0) || r.out.size() < 3)
                {
                    c.fail("crash", what + (twice ? ", twice" : "") + ": the process ends with status " + std::to_string(r.status));
                    continue;
                }
                if (r.out[0] != 'F')
                    throw Fail("harness", what + ": the fault did not happen: " + r.out);
                auto f      = mc::split(r.out, '|');
                // What was stored at first is then a duplicate
                bool failed = r.out[1] == 'T' || f[1].size() != results.size();
                for (size_t i = 0; i < results.size() && !failed; ++i)
                    failed = f[1][i] == 'E' && results[i] != 'E';
                // Errors in syncing directories, and when closing indices, are
                // ignored by sqlite: indices can be rebuilt from the data
                bool dirsync = ev[k].cls == sysx::C_SYNC && (fs::is_directory(work + ev[k].path) || ev[k].path.find(".index") != std::string::npos);
                c.transitions();
                if (twice)
                {
                    // It is done again in the same process, and all is well
                    auto report = [&](const std::string& key, const std::string& msg) { c.fail(key, what + ", and again: " + msg); };
                    if (failed && cs.import)
                        report("retry-failed", "it still fails: " + r.out);
                    try
                    {
                        auto got = seen(conf, work);
                        bool dups = simple || conf.unique.empty();
                        Ids may   = dups ? plus(ex.may, ids(cs.batch)) : ex.may;
                        if (!failed && cs.import)
                            compare(got, ex.full, may, "retry", what + ", and again");
                        {
                            World w(conf, work);
                            for (auto& s : states(w, true))
                                if (!failed && cs.import && !good_state(s.second))
                                    throw Fail("retry-state", what + ", and again: segment " + s.first + " is " + s.second);
                        }
                        age(work);
                        run(conf, work, "ck", what + ", and again");
                        got = seen(conf, work);
                        compare(got, failed ? ex.must : ex.full, dups ? plus(may, ex.zombies) : plus(may, ex.zombies), "retry-check", what + ", and again, and check");
                    }
                    catch (Torn&)
                    {
                        report("recovery-failed", "segment cannot be scanned");
                    }
                    catch (Fail& e)
                    {
                        c.fail(e.key, e.what());
                    }
                    catch (std::exception& e)
                    {
                        report("retry-exception", e.what());
                    }
                    continue;
                }
                if (!failed)
                {
                    // It is reported as done: it has to be
                    if (ev[k].cls == sysx::C_SYNC && !dirsync)
                        c.fail("sync-unreported", what + ": the operation is reported as done");
                    try
                    {
                        auto got = seen(conf, work);
                        if (got != ex.full)
                            throw Fail("unreported", what + ": the operation is reported as done, but there is " + show(got) + " instead of " + show(ex.full));
                        World w(conf, work);
                        verify(w, visible(w), V_DATA | V_SUMMARY, what + ": reported as done");
                        for (auto& s : states(w, true))
                            if (!good_state(s.second))
                                throw Fail("unreported-state", what + ": the operation is reported as done (" + r.out + "), but segment " + s.first + " is " + s.second);
                    }
                    catch (Fail& e)
                    {
                        c.fail(e.key, e.what());
                    }
                    catch (std::exception& e)
                    {
                        c.fail("unreported", what + ": the operation is reported as done, but: " + e.what());
                    }
                }
                // What was written by imports that fail is removed, if the
                // system lets do it
                else if (cs.import && !(fk.sticky && fk.err == EIO))
                    for (auto& i : data_files(work))
                        if ((!data_before.count(i.first) || data_before[i.first] != i.second) && (!data_after.count(i.first) || data_after[i.first] != i.second))
                            c.fail("left-over", what + ": the import fails, but " + i.first + " is neither as before, nor complete");
                auto digest = mc::mix(mc::hash(task), mc::hash(state_digest(work)));
                rmtree(crashed);
                copytree(work, crashed);
                if (c.visited(digest))
                    continue;
                c.states();
                c.distinct_hash(digest);
                try
                {
                    examine(what, true);
                }
                catch (Fail& x)
                {
                    c.fail(x.key, x.what());
                }
            }
        }
    }
}

void explore(const std::string& prop, const std::vector<std::vector<std::string>>& plans)
{
    std::vector<std::string> tasks;
    for (auto& p : plans)
        tasks.push_back(prop + "|" + mc::join(p, "|"));
    name_extra(0, "crash_points");
    name_extra(1, "scans_refused_on_torn_items");
    run_tasks(tasks, [](Ctx& c, const std::string& t) {
        try { run_task(c, t); } catch (Fail& e) { c.fail(e.key, e.what()); }
    }, prop + "|");
}

mc::Register c09("C09", [] {
    std::vector<std::vector<std::string>> plans;
    std::string u = ";unique=reftime,product,area";
    std::vector<std::string> hists{"", "i0,5 q", "i0,2,5 d0"};
    std::vector<std::string> ops{"i1", "i1,4", "i2,1,4,7"};
    if (args.thorough)
    {
        hists.insert(hists.end(), {"i1 i0 i3", "i0,2,5 d0 rp", "i0,1,2 rp q d1,2", "i5 q", "i0 d0"});
        ops.insert(ops.end(), {"i0,1,2,3,4,5,6,7", "i7,6,5", "i1:always", "i3:usn"});
    }
    for (auto fmt : {"grib", "vm2", "odimh5"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u;
            for (auto& h : hists)
                for (auto& o : ops)
                {
                    plans.push_back({b + ";step=daily;aged", h, o});
                    plans.push_back({b + ";step=monthly" + (std::string(fmt) == "vm2" ? ";smallfiles" : ""), h, o});
                    if (std::string(fmt) == "grib")
                        plans.push_back({b + ";step=daily;dirs;aged", h, o});
                }
        }
    for (auto& h : hists)
        plans.push_back({"type=iseg;fmt=bufr;replace=yes;unique=reftime,product,area;aged", h, "i1,0,4"});
    explore("C09", plans);
});

mc::Register c10("C10", [] {
    std::vector<std::vector<std::string>> plans;
    std::string u = ";unique=reftime,product,area";
    for (auto fmt : {"grib", "vm2", "odimh5"})
        for (auto type : {"iseg", "simple"})
            for (auto aged : {"", ";aged"})
            {
                std::string b = mc::cat("type=", type, ";fmt=", fmt, aged);
                if (std::string(type) == "iseg")
                    b += u;
                bool odim = std::string(fmt) == "odimh5";
                std::vector<std::string> confs{b + ";step=daily"};
                if (std::string(fmt) == "grib")
                    confs.push_back(b + ";step=daily;dirs");
                if (std::string(fmt) == "vm2")
                    confs.push_back(b + ";step=monthly;smallfiles");
                for (auto& c : confs)
                {
                    auto conf = Conf::parse(c);
                    auto seg  = conf.segment(msg(conf, 0));
                    bool dirs = odim || conf.dirs;
                    std::string h = "i1 i0,2 i5";
                    for (std::string o : {"d0", "rp", "ck", "rps:SEG", "rsc:SEG", "arc:SEG", "tar", "zip", "gz", "gz1"})
                    {
                        if (dirs && o[0] == 'g')
                            continue;
                        if (!dirs && (o == "tar" || o == "zip"))
                            continue;
                        auto p = o.find("SEG");
                        if (p != std::string::npos)
                            o = o.substr(0, p) + seg;
                        bool quick = !args.thorough;
                        if (quick && !*aged && o[0] != 'r' && o != "gz1" && o != "d0")
                            continue;
                        plans.push_back({c, h, o});
                        if (quick && (!*aged || o == "gz"))
                            continue;
                        if (!quick || o[0] == 'd' || o[0] == 'a')
                            plans.push_back({c, h + " q", o});
                        if (o.compare(0, 3, "rsc") != 0) plans.push_back({c, h + " d1", o});
                    }
                    if (!args.thorough && !*aged)
                        continue;
                    plans.push_back({c, h + " d1,0,2", "rp"});
                    plans.push_back({c, h + " arc:" + seg, "una:" + seg});
                    plans.push_back({c + ";archive=10", h, "ra"});
                    plans.push_back({c + ";delete=10", h, "ra"});
                }
            }
    explore("C10", plans);
});

mc::Register c11("C11", [] {
    std::vector<std::vector<std::string>> plans;
    std::string u = ";unique=reftime,product,area";
    std::vector<std::string> hists{"i0,5 q", "i0,2,5 d0"};
    std::vector<std::string> ops{"i1,4", "i2,1,4,7"};
    if (args.thorough)
    {
        ops.push_back("i1");
        hists.insert(hists.end(), {"", "i1 i0 i3", "i0,2,5 d0 rp", "i5 q"});
        ops.insert(ops.end(), {"i0,1,2,3,4,5,6,7", "i1:always", "i3:usn"});
    }
    for (auto fmt : {"grib", "vm2", "odimh5"})
        for (auto type : {"iseg", "simple"})
        {
            bool vm2 = std::string(fmt) == "vm2", odim = std::string(fmt) == "odimh5";
            std::string b = mc::cat("type=", type, ";fmt=", fmt);
            if (std::string(type) == "iseg")
                b += u;
            for (auto& h : hists)
                for (auto& o : ops)
                {
                    plans.push_back({b + ";step=daily;aged", h, o});
                    if (args.thorough || vm2)
                        plans.push_back({b + ";step=monthly" + (vm2 ? ";smallfiles" : ""), h, o});
                    if (std::string(fmt) == "grib")
                        plans.push_back({b + ";step=daily;dirs;aged", h, o});
                }
            // Maintenance
            std::vector<std::string> confs{b + ";step=daily;aged"};
            if (std::string(fmt) == "grib")
                confs.push_back(b + ";step=daily;dirs;aged");
            for (auto& c : confs)
            {
                auto conf     = Conf::parse(c);
                auto seg      = conf.segment(msg(conf, 0));
                bool dirs     = odim || conf.dirs;
                std::string h = "i1 i0,2 i5";
                for (std::string o : {"d0", "rp", "ck", "rps:SEG", "rsc:SEG", "arc:SEG", "tar", "zip", "gz", "gz1"})
                {
                    if (dirs ? o[0] == 'g' : o == "tar" || o == "zip")
                        continue;
                    auto p = o.find("SEG");
                    if (p != std::string::npos)
                        o = o.substr(0, p) + seg;
                    plans.push_back({c, h, o});
                    if (args.thorough || (o[0] == 'r' && o != "rp") || o == "ck")
                        plans.push_back({c, h, o, "read"});
                    if (args.thorough)
                        plans.push_back({c, h + " q", o});
                    if (o.compare(0, 3, "rsc") != 0 && (args.thorough || o[0] == 'r'))
                        plans.push_back({c, h + " d1", o});
                }
                plans.push_back({c, h + " arc:" + seg, "una:" + seg});
                plans.push_back({c, h, "cka", "read"});
                plans.push_back({c, h, "i3,4,6", "read"});
                plans.push_back({c, h + " d1", "rp", "read"});
                plans.push_back({c + ";archive=10", h, "ra"});
                plans.push_back({c + ";archive=10", h, "ra", "read"});
                plans.push_back({c + ";delete=10", h, "ra"});
            }
        }
    for (auto& h : hists)
        plans.push_back({"type=iseg;fmt=bufr;replace=yes;unique=reftime,product,area;aged", h, "i1,0,4"});
    explore("C11", plans);
});

} // namespace
