// What maintenance says it would do, what it says it does, and what it does:
// on datasets reached by all short histories of operations and damages, with
// all selections of segments.
#include "common_ds.h"
#include <algorithm>
#include <arki/dataset.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <filesystem>
#include <fcntl.h>
#include <unistd.h>

using namespace mc;
using namespace mc::ds;
using namespace arki;
namespace fs = std::filesystem;

namespace {

// An action on a segment: what, dataset, segment
struct Action
{
    std::string what, ds, seg;
    bool operator<(const Action& o) const { return std::tie(ds, seg, what) < std::tie(o.ds, o.seg, o.what); }
    bool operator==(const Action& o) const { return !(*this < o) && !(o < *this); }
    std::string str() const { return what + " " + (ds.empty() ? "" : ds + ":") + seg; }
};

struct Report : public dataset::Reporter
{
    std::vector<Action> actions;
    // Final reports, by dataset
    std::vector<std::pair<std::string, std::string>> ends;
    unsigned aborted = 0;
    void add(const std::string& what, const std::string& ds, const std::filesystem::path& p) { actions.push_back({what, ds == "ds" ? "" : ds, p.native()}); }
    void operation_progress(const std::string&, const std::string&, const std::string&) override {}
    void operation_manual_intervention(const std::string&, const std::string&, const std::string&) override {}
    void operation_aborted(const std::string&, const std::string&, const std::string&) override { ++aborted; }
    void operation_report(const std::string& ds, const std::string& o, const std::string& m) override { ends.emplace_back((ds == "ds" ? "" : ds) + "|" + o, m); }
    void segment_info(const std::string&, const std::filesystem::path&, const std::string&) override {}
    void segment_repack(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("repack", d, p); }
    void segment_archive(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("archive", d, p); }
    void segment_remove(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("remove", d, p); }
    void segment_deindex(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("deindex", d, p); }
    void segment_rescan(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("rescan", d, p); }
    void segment_tar(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("tar", d, p); }
    void segment_compress(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("compress", d, p); }
    void segment_issue51(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("issue51", d, p); }
    void segment_manual_intervention(const std::string& d, const std::filesystem::path& p, const std::string&) override { add("manual", d, p); }
    std::vector<Action> sorted() const
    {
        auto res = actions;
        std::sort(res.begin(), res.end());
        return res;
    }
};

std::string str(const std::vector<Action>& a)
{
    std::vector<std::string> v;
    for (auto& i : a)
        v.push_back(i.str());
    return "[" + join(v, ", ") + "]";
}

struct Sel
{
    std::string name;
    std::string expr;       // filter on segments
    std::string begin, end; // what it selects: days, end excluded
    bool online = true, offline = true;
};

std::vector<Sel> selections()
{
    return {
        {"all", "", "", ""},
        {"filter", "reftime:=2020-01-02", "2020-01-02", "2020-01-03"},
        {"from", "reftime:>=2020-01-02", "2020-01-02", ""},
        {"until", "reftime:<2020-01-02", "", "2020-01-02"},
        {"online", "", "", "", true, false},
        {"offline", "", "", "", false, true},
        {"none", "reftime:=1999", "1999-01-01", "2000-01-01"},
    };
}

// Interval of days of a segment, by its name
void span(const Conf& conf, const std::string& relpath, std::string& begin, std::string& end)
{
    auto name = relpath.substr(0, relpath.find('.'));
    begin     = name;
    std::replace(begin.begin(), begin.end(), '/', '-');
    if (conf.step == "monthly")
        end = begin + "-32", begin += "-01";
    else
        end = begin + "x"; // just after that day
}

// 1 selected, 0 not selected, -1 partly
int selected(const Conf& conf, const Sel& s, const Action& a)
{
    if (a.ds.empty() ? !s.online : !s.offline)
        return 0;
    if (s.expr.empty())
        return 1;
    std::string b, e;
    span(conf, a.seg, b, e);
    if ((!s.end.empty() && b >= s.end) || (!s.begin.empty() && e <= s.begin))
        return 0;
    if ((s.begin.empty() || b >= s.begin) && (s.end.empty() || e <= s.end || (conf.step != "monthly" && b < s.end)))
        return 1;
    return -1;
}

/*
 * Files of a segment, if any
 */

std::string dirname_of(const std::string& root, const std::string& ds)
{
    if (ds.empty())
        return root;
    // The last component is the name of the archive
    return root + "/.archive/" + ds.substr(ds.rfind('.') + 1);
}

// Data files of segments: path relative to root, without tar, zip, or gz, to contents
std::map<std::string, std::string> data_files(const std::string& root)
{
    std::map<std::string, std::string> res;
    for (auto& e : tree_contents(root))
    {
        auto name = e.first;
        auto base = fs::path(name).filename().native();
        if (base == "config" || base == "MANIFEST" || base.find("lock") != std::string::npos || base.find("index.sqlite") != std::string::npos || base == "needs-check-do-not-pack")
            continue;
        bool meta = false;
        for (auto ext : {".metadata", ".summary", ".index", ".index-journal", ".index-shm", ".index-wal", ".idx", ".lock"})
            if (base.size() > strlen(ext) && base.compare(base.size() - strlen(ext), std::string::npos, ext) == 0)
                meta = true;
        if (meta || base == "summary" || base.find(".summaries") != std::string::npos || name.find(".summaries") != std::string::npos)
            continue;
        res[name] = e.second;
    }
    return res;
}

// Segment of a data file, with its dataset
std::pair<std::string, std::string> segment_of(const Conf& conf, const std::string& file)
{
    std::string ds, rel = file;
    while (!rel.empty() && rel[0] == '/')
        rel.erase(0, 1);
    if (rel.compare(0, 9, ".archive/") == 0)
    {
        rel     = rel.substr(9);
        auto sl = rel.find('/');
        if (sl == std::string::npos)
            return {rel, std::string()};
        ds  = rel.substr(0, sl);
        rel = rel.substr(sl + 1);
    }
    auto ext = rel.find('.');
    if (ext == std::string::npos)
        return {ds, rel};
    auto e = rel.find_first_of("./", ext + 1);
    return {ds, rel.substr(0, e)};
}

typedef std::map<std::pair<std::string, std::string>, std::map<std::string, std::string>> BySegment;
BySegment by_segment(const Conf& conf, const std::string& root)
{
    BySegment res;
    for (auto& f : data_files(root))
        res[segment_of(conf, f.first)][f.first] = f.second;
    return res;
}

/*
 * Histories
 */

std::string seg_name(const Conf& conf, const std::string& day)
{
    Msg m    = msg(conf, 0);
    m.t      = day + "T00:00:00Z";
    return conf.segment(m);
}

// Find the data of a segment in the main dataset or in the archive
std::string find_data(const std::string& root, const std::string& seg)
{
    for (auto base : {root, root + "/.archive/last"})
        for (auto ext : {"", ".gz", ".tar", ".zip"})
            if (fs::exists(base + "/" + seg + ext))
                return base + "/" + seg + ext;
    return std::string();
}

// Do one step. False if it cannot be done
bool step(const Conf& conf, const std::string& root, const std::string& op)
{
    auto f = split(op, '@');
    if (f.size() == 1)
    {
        World w(conf, root);
        return !mc::ds::apply(w, op).threw;
    }
    auto seg  = seg_name(conf, f[1]);
    auto path = find_data(root, seg);
    if (path.empty())
        return false;
    auto strip = path;
    for (auto ext : {".gz", ".tar", ".zip"})
        if (strip.size() > strlen(ext) && strip.compare(strip.size() - strlen(ext), std::string::npos, ext) == 0)
            strip = strip.substr(0, strip.size() - strlen(ext));
    std::string file = path;
    if (fs::is_directory(path))
    {
        std::vector<std::string> l;
        for (auto& e : fs::directory_iterator(path))
            if (e.path().filename() != ".sequence")
                l.push_back(e.path());
        std::sort(l.begin(), l.end());
        if (l.empty())
            return false;
        file = l.back();
    }
    if (f[0] == "rmdata")
    {
        fs::remove_all(path);
        fs::remove(path + ".idx");
    }
    else if (f[0] == "rmidx")
    {
        bool any = false;
        for (auto ext : {".index", ".metadata", ".summary"})
            any = fs::remove(strip + ext) || any;
        return any;
    }
    else if (f[0] == "trunc")
        fs::resize_file(file, fs::file_size(file) - 1);
    else if (f[0] == "append")
        spew(file, slurp(file) + "junk");
    else if (f[0] == "touch")
    {
        struct timespec ts[2] = {{0, UTIME_OMIT}, {0, UTIME_NOW}};
        utimensat(AT_FDCWD, file.c_str(), ts, 0);
    }
    else if (f[0] == "copy")
    {
        // A segment that is not in the index
        auto to = seg_name(conf, f[2]);
        auto ext = path.substr(strip.size());
        auto dst = path.substr(0, path.size() - seg.size() - ext.size()) + to + ext;
        if (fs::exists(dst))
            return false;
        fs::create_directories(fs::path(dst).parent_path());
        fs::copy(path, dst, fs::copy_options::recursive);
        if (fs::exists(path + ".idx"))
            fs::copy_file(path + ".idx", dst + ".idx");
    }
    else
        throw std::logic_error("mc: bad op " + op);
    return true;
}

struct Run
{
    bool threw = false;
    std::string error;
    Report rep;
};

Run maintain(const Conf& conf, const std::string& root, const std::string& op, const Sel& sel, bool readonly)
{
    Run res;
    auto rep = std::make_shared<Report>();
    World w(conf, root);
    auto tov = dataset::SessionTime::local_override(now());
    try
    {
        auto checker = w.checker();
        dataset::CheckerConfig cc(rep, readonly);
        cc.readonly = readonly;
        cc.online   = sel.online;
        cc.offline  = sel.offline;
        if (!sel.expr.empty())
            cc.segment_filter = w.session->matcher(sel.expr);
        if (op == "rp") checker->repack(cc);
        else if (op == "ck") checker->check(cc);
        else if (op == "cka") { cc.accurate = true; checker->check(cc); }
        else if (op == "tar") checker->tar(cc);
        else if (op == "zip") checker->zip(cc);
        else if (op == "gz") checker->compress(cc, 2);
        else if (op == "ra") checker->remove_all(cc);
        else if (op == "ro") checker->remove_old(cc);
        else if (op == "is51") checker->check_issue51(cc);
        else if (op == "st") checker->state(cc);
        else throw std::logic_error("mc: bad op " + op);
    }
    catch (std::logic_error&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.error = e.what();
    }
    res.rep = *rep;
    return res;
}

// What the final report counts, by kind of action
std::map<std::string, unsigned> counts(const std::string& report)
{
    std::map<std::string, unsigned> res;
    for (auto part : split(report, ','))
    {
        while (!part.empty() && part[0] == ' ')
            part.erase(0, 1);
        unsigned n = std::strtoul(part.c_str(), nullptr, 10);
        auto has   = [&](const char* s) { return part.find(s) != std::string::npos; };
        if (has("freed")) continue;
        if (has("packed")) res["repack"] = n;
        else if (has("archived")) res["archive"] = n;
        else if (has("removed from") || has("from the index")) res["deindex"] = n;
        else if (has("deleted")) res["remove"] = n;
        else if (has("rescanned")) res["rescan"] = n;
        else if (has(" ok")) res["ok"] = n;
        else res[part] = n;
    }
    return res;
}

bool contains(const std::vector<Action>& v, const std::string& what, const std::string& ds, const std::string& seg)
{
    for (auto& a : v)
        if ((what.empty() || a.what == what) && (a.ds == ds || (!ds.empty() && a.ds.size() > ds.size() && a.ds.substr(a.ds.size() - ds.size()) == ds)) && a.seg == seg)
            return true;
    return false;
}

void check_op(Ctx& c, const Conf& conf, const std::string& snap, const std::string& root, const std::string& op, const Sel& sel, std::vector<Action>& all)
{
    auto fresh = [&] {
        rmtree(root);
        copytree(snap, root);
    };
    auto contents = [&] {
        auto t = tree_contents(root);
        for (auto i = t.begin(); i != t.end();)
            // Locks, and what SQLite needs while it is open
            if (i->first.find("lock") != std::string::npos || i->first.find(".index-") != std::string::npos || i->first.find(".sqlite-") != std::string::npos)
                i = t.erase(i);
            else
                ++i;
        return t;
    };
    // Say what would be done
    fresh();
    auto before = contents();
    auto dry    = maintain(conf, root, op, sel, true);
    if (op != "st" && contents() != before)
    {
        std::string diff;
        auto after = contents();
        for (auto& i : after)
            if (!before.count(i.first) || before[i.first] != i.second)
                diff += " " + i.first;
        for (auto& i : before)
            if (!after.count(i.first))
                diff += " -" + i.first;
        throw mc::Fail("dry-changes", "a run that only reports changes files:" + diff);
    }
    if (op == "st")
        return;
    // Do it
    fresh();
    auto files = by_segment(conf, root);
    auto real  = maintain(conf, root, op, sel, false);
    if (dry.threw || real.threw)
        return;
    auto d = dry.rep.sorted(), r = real.rep.sorted();
    auto said = d;
    auto drop = [](std::vector<Action>& v, std::function<bool(const Action&)> f) { v.erase(std::remove_if(v.begin(), v.end(), f), v.end()); };
    // Checks leave packing to repacks
    if (op == "ck" || op == "cka")
        drop(d, [](const Action& a) { return a.what == "repack"; });
    // Repacks leave rescanning to checks
    if (op == "rp")
        drop(d, [](const Action& a) { return a.what == "rescan"; });
    // What was just archived is then maintained in the archive
    if (op == "rp")
        drop(r, [&](const Action& a) { return !a.ds.empty() && contains(r, "archive", "", a.seg) && !contains(d, "", a.ds, a.seg); });
    // What was rescanned can turn out to be something else
    if (d != r)
        throw mc::Fail("dry-differs", "it would do " + ::str(d) + " and it does " + ::str(r));
    c.distinct(op + sel.name + ::str(r));
    // Totals
    if (op == "rp" || op == "ck" || op == "cka")
        for (auto* run : {&dry, &real})
            for (auto& e : run->rep.ends)
            {
                auto ds = e.first.substr(0, e.first.find('|'));
                auto n  = counts(e.second);
                std::map<std::string, unsigned> exp;
                exp["ok"] = n["ok"];
                for (auto& a : run->rep.actions)
                    if (a.ds == ds && a.what != "manual" && a.what != "issue51")
                    {
                        ++exp[a.what];
                        // Both are counted
                        if (a.what == "remove" && op == "rp" && n.count("deindex") && n["deindex"] > exp["deindex"])
                            n["deindex"] -= 1;
                    }
                for (auto i = n.begin(); i != n.end();)
                    i = i->second == 0 && i->first != "ok" ? n.erase(i) : std::next(i);
                for (auto i = exp.begin(); i != exp.end();)
                    i = i->second == 0 && i->first != "ok" ? exp.erase(i) : std::next(i);
                if (n != exp)
                    throw mc::Fail("dry-totals", "after " + ::str(run->rep.actions) + " in '" + ds + "' the report is " + e.second);
            }
    // Selections
    if (sel.name == "all")
        all = said;
    else
    {
        for (auto& a : said)
        {
            if (selected(conf, sel, a) == 0)
                throw mc::Fail("selection", "with " + sel.expr + " it does " + a.str());
            if (std::find(all.begin(), all.end(), a) == all.end())
                throw mc::Fail("selection", "with " + sel.expr + " it would " + a.str() + ", and not without");
        }
        for (auto& a : all)
            if (selected(conf, sel, a) == 1 && std::find(said.begin(), said.end(), a) == said.end())
                throw mc::Fail("selection", "with " + sel.expr + " it does not " + a.str());
    }
    // Data of segments that are not mentioned do not change
    auto after = by_segment(conf, root);
    for (auto& f : files)
    {
        bool touched = contains(r, "", f.first.first, f.first.second) && !(contains(r, "manual", f.first.first, f.first.second) && r.size() == 1);
        if (!touched && (!after.count(f.first) || after[f.first] != f.second))
            throw mc::Fail("not-reported", "data of " + f.first.first + ":" + f.first.second + " changed without being in " + ::str(r));
    }
    for (auto& f : after)
        if (!files.count(f.first) && !(f.first.first == "last" && contains(r, "archive", "", f.first.second)))
            throw mc::Fail("not-reported", "data in " + f.first.first + ":" + f.first.second + " appeared, without being in " + ::str(r));
    // What is done is done
    if (r.empty())
        return;
    World w(conf, root);
    auto st = mc::ds::states(w);
    for (auto& a : real.rep.sorted())
    {
        auto ds    = a.ds.empty() ? std::string() : a.ds.substr(a.ds.rfind('.') + 1);
        auto key   = std::make_pair(ds, a.seg);
        auto skey  = a.ds.empty() ? a.seg : a.ds + ":" + a.seg;
        auto state = st.count(skey) ? st[skey] : "";
        bool moved = contains(real.rep.actions, "archive", "", a.seg);
        auto bad   = [&](const std::string& why) { throw mc::Fail("not-done", a.str() + " was reported, but " + why); };
        if (a.what == "remove")
        {
            if (after.count(key)) bad("data is still there");
            if (!state.empty()) bad("its state is " + state);
        }
        else if (a.what == "archive")
        {
            if (after.count(key)) bad("data is still there");
            if (!after.count({"last", a.seg})) bad("data is not in the archive");
        }
        else if (moved)
            continue;
        else if (a.what == "deindex")
        {
            if (state.find("MISSING") != std::string::npos) bad("its state is " + state);
        }
        else if (a.what == "repack")
        {
            if (state.find("DIRTY") != std::string::npos || state.empty()) bad("its state is " + state);
        }
        else if (a.what == "rescan")
        {
            if (state.find("UNALIGNED") != std::string::npos) bad("its state is " + state);
        }
        else if (a.what == "tar" || a.what == "compress")
        {
            auto l = layout(dirname_of(root, a.ds), a.seg);
            if (!after.count(key) || after[key].size() != 1) bad("data is not in one file");
            auto name = after[key].begin()->first;
            auto ext  = name.substr(name.rfind('.'));
            if (ext != (op == "gz" ? ".gz" : "." + op)) bad("data is in " + name);
        }
    }
}

std::vector<std::string> alphabet(const Conf& conf)
{
    std::vector<std::string> r{"d0", "d1,0", "d2", "rp", "ck", "i4", "i5"};
    if (conf.archive_age >= 0)
        r.push_back("arc:" + seg_name(conf, "2020-01-02"));
    if (conf.dirs || conf.format == DataFormat::ODIMH5)
        r.push_back("tar"), r.push_back("zip");
    else
        r.push_back("gz");
    for (auto seg : {"2020-01-01", "2020-01-02", "2020-01-15"})
        for (auto d : {"rmdata", "rmidx", "trunc", "append", "touch"})
            if (std::string(seg) != "2020-01-15" || mc::args.thorough || std::string(d) == "rmdata")
                r.push_back(std::string(d) + "@" + seg);
    r.push_back("copy@2020-01-01@2020-01-05");
    r.push_back("copy@2020-01-02@2018-12-05");
    return r;
}

void dry_task(Ctx& c, const std::string& task)
{
    // task is dry|CONF|FIRST
    auto args  = split(task, '|');
    auto conf  = Conf::parse(args[1]);
    auto root  = fresh_scratch() + "/ds";
    auto ab    = alphabet(conf);
    unsigned depth = std::stoul(args[3]);
    std::vector<std::string> ops{"rp", "ck", "cka", "ra", "ro", "st"};
    if (conf.dirs || conf.format == DataFormat::ODIMH5)
        ops.push_back("tar"), ops.push_back("zip");
    else
        ops.push_back("gz");
    std::vector<std::string> first;
    fs::create_directories(root);
    if (!step(conf, root, "i0,1,2,6,14,15"))
        throw mc::Fail("setup", "cannot import");
    if (conf.archive_age >= 0 && conf.step == "daily")
        step(conf, root, "arc:" + seg_name(conf, "2020-01-08"));
    age(root);
    auto base = scratch() + "/base";
    copytree(root, base);
    std::vector<std::vector<std::string>> todo;
    if (args[2] == "none")
        todo.push_back({});
    else
    {
        todo.push_back({args[2]});
        for (unsigned d = 1; d < depth; ++d)
        {
            auto prev = todo;
            for (auto& h : prev)
                if (h.size() == d)
                    for (auto& op : ab)
                    {
                        auto n = h;
                        n.push_back(op);
                        todo.push_back(n);
                    }
        }
    }
    auto sels = selections();
    for (auto& h : todo)
    {
        c.current(task + " after " + join(h, " "));
        rmtree(root);
        copytree(base, root);
        bool ok = true;
        for (auto& op : h)
        {
            ok = ok && step(conf, root, op);
            if (conf.aged || op.substr(0, 6) == "touch@")
                age(root);
        }
        if (!ok || !c.visited(hash(args[1] + state_digest(root))))
            continue;
        c.states();
        auto snap = scratch() + "/snap";
        rmtree(snap);
        copytree(root, snap);
        for (auto& op : ops)
        {
            std::vector<Action> all;
            for (auto& s : sels)
            {
                // All selections for operations that go through all segments
                // in different ways
                if (s.name != "all" && (op == "cka" || op == "st" || op == "ro"))
                    continue;
                if (s.name != "all" && h.size() > 1 && !mc::args.thorough && op != "ra" && op != "ck")
                    continue;
                c.current(task + " after " + join(h, " ") + " " + op + " " + s.name);
                c.eval(), c.transitions(2), c.traces();
                try
                {
                    check_op(c, conf, snap, root, op, s, all);
                }
                catch (mc::Fail& e)
                {
                    c.fail(e.key + "|" + op, e.what());
                }
            }
        }
    }
}

mc::Register r("C29", [] {
    init();
    bool t = args.thorough;
    std::string u = ";unique=reftime,product,area";
    std::vector<std::pair<std::string, unsigned>> confs;
    for (auto fmt : {"grib", "vm2"})
        for (auto type : {"iseg", "simple"})
        {
            std::string b = cat("type=", type, ";fmt=", fmt, ";step=daily;archive=10", std::string(type) == "iseg" ? u : "");
            confs.emplace_back(b + ";aged", t ? 3 : 2);
            if (std::string(fmt) == "grib")
            {
                confs.emplace_back(b + ";dirs", t ? 3 : 2);
                confs.emplace_back(cat("type=", type, ";fmt=", fmt, ";step=monthly;delete=18", std::string(type) == "iseg" ? u : ""), t ? 3 : 1);
                confs.emplace_back(cat("type=", type, ";fmt=", fmt, ";step=daily;delete=18;archive=10", std::string(type) == "iseg" ? u : ""), t ? 3 : 1);
            }
        }
    confs.emplace_back("type=iseg;fmt=odimh5;step=daily;archive=10" + u, t ? 2 : 1);
    confs.emplace_back("type=simple;fmt=odimh5;step=daily;archive=10", t ? 2 : 1);
    std::vector<std::string> tasks;
    for (auto& cf : confs)
    {
        tasks.push_back("dry|" + cf.first + "|none|0");
        for (auto& op : alphabet(Conf::parse(cf.first)))
            tasks.push_back("dry|" + cf.first + "|" + op + "|" + std::to_string(cf.second));
    }
    run_tasks(tasks, dry_task, "dry|");
});

} // namespace
