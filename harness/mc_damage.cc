// What checks do about datasets that have been damaged: every damage of a
// list is done to every file of each dataset, then it must be found, and be
// repaired without losing what is still intact.
#include "common_ds.h"
#include "mcsys.h"
#include <algorithm>
#include <arki/dataset/session.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/query.h>
#include <arki/types/source/blob.h>
#include <filesystem>
#include <sqlite3.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

bool ends_with(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

/// Data of a segment as found in files
struct Stored
{
    std::string kind; // file dir gz tar zip none
    std::string path; // relative
};

Stored find_segment(const std::string& root, const std::string& rel)
{
    for (auto base : {std::string(), std::string(".archive/last/")})
    {
        auto p = base + rel;
        struct stat st;
        if (stat((root + "/" + p).c_str(), &st) == 0)
            return Stored{S_ISDIR(st.st_mode) ? "dir" : "file", p};
        for (auto ext : {"gz", "tar", "zip"})
            if (stat((root + "/" + p + "." + ext).c_str(), &st) == 0)
                return Stored{ext, p + "." + ext};
    }
    return Stored{"none", rel};
}

/// How many copies of bytes are stored, as whole items
unsigned copies(const Conf& conf, const std::string& root, const Stored& s, const std::string& bytes)
{
    auto count = [&](const std::string& buf) {
        unsigned res = 0;
        if (conf.format == DataFormat::VM2)
        {
            for (auto& l : mc::split(buf, '\n'))
                res += l == bytes;
            return res;
        }
        for (size_t p = 0; (p = buf.find(bytes, p)) != std::string::npos; p += bytes.size())
            ++res;
        return res;
    };
    if (s.kind == "file" && !fs::exists(root + "/" + s.path))
        return 0;
    if (s.kind == "file")
        return count(slurp(root + "/" + s.path));
    unsigned res = 0;
    if (s.kind == "dir" && fs::is_directory(root + "/" + s.path))
        for (auto& e : fs::directory_iterator(root + "/" + s.path))
        {
            auto name = e.path().filename().native();
            if (!isdigit((unsigned char)name[0]) || !e.is_regular_file())
                continue;
            auto buf = slurp(e.path());
            if (conf.format == DataFormat::VM2 && !buf.empty() && buf.back() == '\n')
                buf.pop_back();
            res += buf == bytes;
        }
    return res;
}

struct Preserve
{
    std::string path;
    struct stat st;
    bool ok;
    explicit Preserve(const std::string& p) : path(p) { ok = stat(p.c_str(), &st) == 0; }
    void restore()
    {
        if (!ok) return;
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        utimensat(AT_FDCWD, path.c_str(), ts, 0);
    }
};

void sql(const std::string& path, const std::string& q)
{
    sqlite3* db = nullptr;
    char* err   = nullptr;
    if (sqlite3_open(path.c_str(), &db) != SQLITE_OK || sqlite3_exec(db, q.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
        throw std::runtime_error(mc::cat("mc: ", q, ": ", err ? err : "cannot open"));
    sqlite3_close(db);
}

std::vector<std::string> sql_list(const std::string& path, const std::string& q)
{
    sqlite3* db = nullptr;
    std::vector<std::string> res;
    if (sqlite3_open(path.c_str(), &db) != SQLITE_OK)
        throw std::runtime_error("mc: cannot open " + path);
    sqlite3_exec(
        db, q.c_str(), [](void* r, int, char** v, char**) { ((std::vector<std::string>*)r)->push_back(v[0] ? v[0] : ""); return 0; }, &res, nullptr);
    sqlite3_close(db);
    return res;
}

/// Offsets of the items in a file
std::vector<std::pair<size_t, size_t>> spans(const Conf& conf, const std::string& buf)
{
    std::vector<std::pair<size_t, size_t>> res;
    if (conf.format == DataFormat::VM2)
    {
        for (size_t p = 0; p < buf.size();)
        {
            auto e = buf.find('\n', p);
            if (e == std::string::npos) e = buf.size();
            res.emplace_back(p, e - p);
            p = e + 1;
        }
        return res;
    }
    for (size_t p = 0; (p = buf.find("|7777", p)) != std::string::npos; p += 5)
    {
        size_t beg = res.empty() ? 0 : res.back().first + res.back().second;
        res.emplace_back(beg, p + 5 - beg);
    }
    return res;
}

/// All the damages that can be done to a dataset. Each is relpath SPACE kind
/// SPACE parameter
std::vector<std::string> damages(const Conf& conf, const std::string& root)
{
    std::vector<std::string> res;
    std::set<std::string> seg_dirs;
    auto files = tree_contents(root);
    for (auto& f : files)
    {
        const auto& rel = f.first;
        auto name       = rel.substr(rel.rfind('/') + 1);
        auto path       = root + "/" + rel;
        struct stat st;
        if (stat(path.c_str(), &st) != 0 || S_ISDIR(st.st_mode))
            continue;
        auto dirname = rel.substr(0, rel.rfind('/') == std::string::npos ? 0 : rel.rfind('/'));
        size_t size  = st.st_size;
        auto add     = [&](const std::string& kind, const std::string& par = "") { res.push_back(rel + " " + kind + (par.empty() ? "" : " " + par)); };
        auto buf     = slurp(path);
        if (name == "lock" || ends_with(name, ".lock") || ends_with(name, "-wal") || ends_with(name, "-shm") || ends_with(name, "-journal") || rel.find(".summaries/") != std::string::npos)
            continue;
        if (name == "needs-check-do-not-pack")
            continue;
        if (name == ".sequence")
        {
            // Without this file, it is not a segment
            seg_dirs.insert(dirname);
            add("trunc", "0");
            add("set", "0");
            add("set", "99");
            add("touch");
        }
        else if (seg_dirs.count(dirname) || (isdigit((unsigned char)name[0]) && name.find('.') == 6 && files.count(dirname + "/.sequence")))
        {
            add("rm");
            add("trunc", "0");
            add("trunc", std::to_string(size - 1));
            add("zero", "0");
            if (conf.format != DataFormat::ODIMH5) // Only its start is checked
                add("zero", std::to_string(size - 4));
            add("append", "junk");
            add("touch");
            if (res.empty() || res.back().find(dirname + " extra") == std::string::npos)
                add("dup", "000099" + name.substr(6)), add("dupjunk", "000099" + name.substr(6));
        }
        else if (ends_with(name, ".index"))
        {
            add("rm");
            add("trunc", "0");
            add("trunc", std::to_string(size / 2));
            for (auto& o : sql_list(path, "SELECT offset FROM md"))
            {
                add("sql", "DELETE FROM md WHERE offset=" + o);
                // Sizes of VM2 files in directories may count the newline
                if (!(conf.format == DataFormat::VM2 && conf.dirs))
                    add("sql", "UPDATE md SET size=size+1 WHERE offset=" + o);
                add("sql", "UPDATE md SET size=size-1 WHERE offset=" + o);
                add("sql", "UPDATE md SET offset=offset+" + std::string(conf.dirs || conf.format == DataFormat::ODIMH5 ? "50" : "1") + " WHERE offset=" + o);
                add("sql", "UPDATE md SET offset=offset+100000 WHERE offset=" + o);
                add("sql", "UPDATE md SET reftime='2020-03-04 00:00:00' WHERE offset=" + o);
            }
            add("touch");
            add("old");
        }
        else if (ends_with(name, ".metadata"))
        {
            add("rm");
            // What is left out of metadata is deleted data
            add("trunc", "5");
            add("junk");
            add("touch");
            add("old");
        }
        else if (ends_with(name, ".summary") || name == "summary")
        {
            add("rm");
            add("trunc", "0");
            add("touch");
            add("old");
        }
        else if (name == "MANIFEST")
        {
            add("rm");
            add("trunc", "0");
            add("touch");
            for (auto& l : mc::split(buf, '\n'))
                if (!l.empty())
                {
                    auto f = mc::split(l, ';');
                    add("drop", f[0]);
                    add("mtime", f[0]);
                    add("times", f[0]);
                    add("later", f[0]);
                }
            add("ghost", "2020/01-03." + format_name(conf.format));
        }
        else if (ends_with(name, ".gz") || ends_with(name, ".tar") || ends_with(name, ".zip"))
        {
            add("rm");
            add("trunc", "0");
            if (!ends_with(name, ".tar"))
                add("trunc", std::to_string(size / 2));
            else
                add("trunc", std::to_string(600));
            add("touch");
        }
        else if (ends_with(name, ".gz.idx"))
        {
            add("rm");
            add("touch");
        }
        else if (ends_with(name, "." + format_name(conf.format)))
        {
            add("rm");
            add("trunc", "0");
            auto sp = spans(conf, buf);
            if (sp.empty()) continue;
            for (auto& s : sp)
            {
                add("trunc", std::to_string(s.first + s.second / 2));
                if (s.first) add("trunc", std::to_string(s.first));
                add("zero", std::to_string(s.first));
                add("zero", std::to_string(s.first + s.second - 4));
            }
            add("trunc", std::to_string(size - 1));
            add("append", "junk");
            add("append", std::string(conf.format == DataFormat::VM2 ? "\n" : "") + buf.substr(sp[0].first, sp[0].second));
            add("prepend", "junk");
            add("prepend", "j");
            if (sp.size() > 1)
                add("swap");
            add("touch");
        }
        else if (name != "config")
            throw std::runtime_error("mc: unknown file " + rel);
    }
    for (auto& d : seg_dirs)
        res.push_back(d + " rmdir");
    // Files that were not there
    auto ext = format_name(conf.format);
    res.push_back("2020/01-08." + ext + " untracked 14");
    for (auto& n : std::vector<std::string>{"2020/foo." + ext, "foo.txt", "2020/01-09.txt", "2020/13-45." + ext, "2020/01-10." + ext + ".tmp", "2020/01-11." + ext + ".repack", "1999/readme", "2020/01-12." + ext + ".gz.idx"})
        if (conf.format != DataFormat::ODIMH5 || n.find("13-45") == std::string::npos)
            res.push_back(std::string(n) + " foreign");
    return res;
}

void do_damage(const Conf& conf, const std::string& root, const std::string& dmg, bool silent)
{
    auto p1   = dmg.find(' ');
    auto rel  = dmg.substr(0, p1);
    auto rest = dmg.substr(p1 + 1);
    auto p2   = rest.find(' ');
    auto kind = rest.substr(0, p2);
    auto par  = p2 == std::string::npos ? std::string() : rest.substr(p2 + 1);
    auto path = root + "/" + rel;
    Preserve pf(path), pd(fs::path(path).parent_path());
    auto rewrite = [&](const std::string& data) {
        // Keep the same inode
        FILE* f = fopen(path.c_str(), "r+");
        if (!f || ftruncate(fileno(f), 0) != 0 || fwrite(data.data(), 1, data.size(), f) != data.size())
            throw std::runtime_error("mc: cannot write " + path);
        fclose(f);
    };
    auto replace_file = [&](const std::string& data) {
        spew(path + ".new", data);
        fs::rename(path + ".new", path);
    };
    if (kind == "swap") silent = false; // Metadata would have to be compared to find it
    if (kind == "rm") fs::remove(path);
    else if (kind == "rmdir") rmtree(path);
    else if (kind == "trunc")
    {
        if (truncate(path.c_str(), std::stoul(par)) != 0) throw std::runtime_error("mc: cannot truncate " + path);
    }
    else if (kind == "untracked")
    {
        fs::create_directories(fs::path(path).parent_path());
        auto m = msg(conf, std::stoul(par));
        if (conf.dirs || conf.format == DataFormat::ODIMH5)
        {
            fs::create_directories(path);
            spew(path + "/000000." + format_name(conf.format), m.bytes());
            spew(path + "/.sequence", "0");
        }
        else
            spew(path, m.bytes() + (conf.format == DataFormat::VM2 ? "\n" : ""));
    }
    else if (kind == "foreign")
    {
        fs::create_directories(fs::path(path).parent_path());
        spew(path, "something else");
    }
    else if (kind == "set") rewrite(par);
    else if (kind == "touch")
    {
        silent = false;
        // Just later than the other files of the segment
        time_t last = pf.st.st_mtim.tv_sec;
        auto dir    = fs::path(path).parent_path();
        for (auto& e : fs::directory_iterator(dir))
        {
            struct stat st;
            if (stat(e.path().c_str(), &st) == 0 && S_ISREG(st.st_mode))
                last = std::max(last, st.st_mtim.tv_sec);
        }
        struct timespec ts[2] = {{0, UTIME_OMIT}, {last + 1, 0}};
        utimensat(AT_FDCWD, path.c_str(), ts, 0);
    }
    else if (kind == "old")
    {
        silent = false;
        struct timespec ts[2] = {{0, UTIME_OMIT}, {pf.st.st_mtim.tv_sec - 1000, 0}};
        utimensat(AT_FDCWD, path.c_str(), ts, 0);
    }
    else if (kind == "append") rewrite(slurp(path) + par);
    else if (kind == "prepend") rewrite(par + slurp(path));
    else if (kind == "junk") rewrite("this is not what it should be, but it is long enough to be read");
    else if (kind == "zero")
    {
        auto b = slurp(path);
        b.replace(std::stoul(par), 4, std::string(4, 0));
        rewrite(b);
    }
    else if (kind == "swap")
    {
        // Exchange the first two items
        auto b = slurp(path);
        auto s = spans(conf, b);
        auto a = b.substr(s[0].first, s[0].second), sep = b.substr(s[0].first + s[0].second, s[1].first - s[0].first - s[0].second);
        auto c = b.substr(s[1].first, s[1].second);
        rewrite(c + sep + a + b.substr(s[1].first + s[1].second));
    }
    else if (kind == "dup") fs::copy_file(path, fs::path(path).parent_path() / par);
    else if (kind == "dupjunk") spew((fs::path(path).parent_path() / par).native(), "junk");
    else if (kind == "sql") sql(path, par);
    else if (kind == "drop" || kind == "mtime" || kind == "times" || kind == "later")
    {
        std::string out;
        for (auto& l : mc::split(slurp(path), '\n'))
        {
            if (l.empty()) continue;
            auto f = mc::split(l, ';');
            if (f[0] == par)
            {
                if (kind == "drop") continue;
                if (kind == "mtime") f[1] = std::to_string(std::stol(f[1]) - 1);
                if (kind == "times") f[2] = f[3];
                if (kind == "later") f[2] = f[3] = "2020-05-06 00:00:00";
            }
            out += mc::join(f, ";") + "\n";
        }
        replace_file(out);
    }
    else if (kind == "ghost") replace_file(slurp(path) + par + ";1577836800;2020-01-03 00:00:00;2020-01-03 00:00:00\n");
    else throw std::runtime_error("mc: unknown damage " + kind);
    if (silent)
    {
        pf.restore();
        pd.restore();
    }
}

struct Seen
{
    bool threw = false;
    std::string error;
    std::vector<std::string> ids; // sorted
};

/// What a query for the data of a segment gives
Seen see(World& w, const std::string& q)
{
    Seen res;
    try
    {
        for (auto& g : mc::ds::query(*w.reader(), q, true))
        {
            Msg m;
            if (!Msg::parse(w.conf.format, g.data, m))
                throw std::runtime_error("garbage: " + mc::quote(g.data.substr(0, 100)));
            if (g.items != items(*m.meta()))
                throw std::runtime_error("garbage: metadata of " + m.id() + " is " + g.items);
            res.ids.push_back(m.id());
        }
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.error = e.what();
    }
    std::sort(res.ids.begin(), res.ids.end());
    return res;
}

std::string str(const Seen& s)
{
    if (s.threw) return "error: " + s.error;
    return "{" + mc::join(s.ids, ", ") + "}";
}

struct Seg
{
    std::string rel;
    std::string query;
    std::vector<Msg> alive, deleted;
    bool archived = false;
};

struct Base
{
    Conf conf;
    std::string root;
    std::vector<Seg> segs;
};

Base build(const std::string& confstr, const std::string& init)
{
    Base b;
    b.conf = Conf::parse(confstr);
    b.root = scratch() + "/base";
    rmtree(b.root);
    fs::create_directories(b.root);
    set_now("2020-01-20T00:00:00Z");
    std::vector<std::string> ops{"i0,1,4", "i2,17", "ck"};
    Model model;
    std::map<std::string, std::vector<Msg>> stored;
    for (auto& o : mc::split(init, ' '))
        if (!o.empty())
            ops.push_back(o);
    for (auto& o : ops)
    {
        World w(b.conf, b.root);
        auto r = mc::ds::apply(w, o);
        if (r.threw)
            throw std::runtime_error("mc: cannot prepare " + confstr + " with " + o + ": " + r.error);
        model.apply(b.conf, o);
        for (auto& s : model.online)
            for (auto& m : s.second)
                if (std::none_of(stored[s.first].begin(), stored[s.first].end(), [&](const Msg& x) { return x.id() == m.id(); }))
                    stored[s.first].push_back(m);
        age(b.root);
    }
    for (auto* m : {&model.online, &model.archived})
        for (auto& s : *m)
        {
            Seg g;
            g.rel      = s.first;
            g.archived = m == &model.archived;
            g.alive    = s.second;
            for (auto& d : stored[s.first])
                if (std::none_of(g.alive.begin(), g.alive.end(), [&](const Msg& x) { return x.id() == d.id(); }))
                    g.deleted.push_back(d);
            g.query = "reftime:=" + stored[s.first].front().t.substr(0, 10);
            b.segs.push_back(g);
        }
    return b;
}

bool flagged(const std::map<std::string, std::string>& st, const Seg& g, std::string* state = nullptr)
{
    auto i = st.find(g.archived ? "archives.last:" + g.rel : g.rel);
    if (i == st.end())
        i = st.find(g.archived ? "last:" + g.rel : g.rel);
    if (i == st.end())
    {
        if (state) *state = "not found";
        return false;
    }
    if (state) *state = i->second;
    return i->second.find("OK") == std::string::npos;
}

/// Failures that are reported as such, and need somebody to do something
bool refused(const std::string& error)
{
    for (auto e : {"mc: truncated message", "malformed", "file is not a database", "validation failed", "does not start with", "does not end with", "scanning is not yet implemented", "cannot read ", "Not a zip archive", "partial read before EOF", "unsupported metadata signature"})
        if (error.find(e) != std::string::npos)
            return true;
    return false;
}

void run_case(Ctx& c, const Base& b, const std::string& dmg, bool silent, const std::string& recovery)
{
    auto root = scratch() + "/work";
    rmtree(root);
    copytree(b.root, root);
    auto what = b.conf.str() + " damaged with " + dmg + (silent ? " keeping times" : "");
    std::vector<std::string> damaged_files;
    for (size_t p = 0; p != std::string::npos;)
    {
        auto e = dmg.find(" && ", p);
        auto d = dmg.substr(p, e == std::string::npos ? e : e - p);
        do_damage(b.conf, root, d, silent);
        damaged_files.push_back(d.substr(0, d.find(' ')));
        p = e == std::string::npos ? e : e + 4;
    }
    // Whether a file whose name begins with prefix was damaged
    auto hit = [&](const std::string& prefix) {
        return std::any_of(damaged_files.begin(), damaged_files.end(), [&](const std::string& f) { return f.compare(0, prefix.size(), prefix) == 0; });
    };

    // Whether a query does not give what it should
    std::map<std::string, Seen> before;
    std::map<std::string, std::string> st, stq;
    bool st_threw = false;
    std::string st_error;
    {
        World w(b.conf, root);
        for (auto& g : b.segs)
            before[g.rel] = see(w, g.query);
    }
    auto tree = tree_contents(root);
    for (bool accurate : {false, true})
    {
        World w(b.conf, root);
        auto r = mc::ds::apply(w, accurate ? "cka?" : "ck?");
        if (r.threw && !refused(r.error))
            throw mc::Fail("check-throws", what + ": check fails: " + r.error);
    }
    try
    {
        World w(b.conf, root);
        stq = states(w, false);
        World w1(b.conf, root);
        st = states(w1, true);
    }
    catch (std::exception& e)
    {
        st_threw = true;
        st_error = e.what();
    }
    auto tree1 = tree_contents(root);
    // As documented, an index that is missing is created empty
    if (hit("MANIFEST") || hit(".archive/last/MANIFEST"))
        for (auto f : {"MANIFEST", "needs-check-do-not-pack"})
            for (auto* t : {&tree, &tree1})
                for (auto b : {std::string(), std::string(".archive/last/")})
                    if (!tree.count(b + f) || t == &tree1)
                        t->erase(b + f), tree.erase(b + f);
    if (dmg.find(".index trunc") != std::string::npos)
        for (auto& f : damaged_files)
            if (ends_with(f, ".index"))
                tree.erase(f), tree1.erase(f);
    for (auto* t : {&tree, &tree1})
        for (auto i = t->begin(); i != t->end();)
            if (ends_with(i->first, "-wal") || ends_with(i->first, "-shm") || ends_with(i->first, "lock"))
                i = t->erase(i);
            else
                ++i;
    if (tree != tree1)
    {
        std::string diff;
        for (auto& i : tree)
            if (!tree1.count(i.first)) diff += " " + i.first + " removed";
            else if (tree1[i.first] != i.second) diff += " " + i.first + " changed";
        for (auto& i : tree1)
            if (!tree.count(i.first)) diff += " " + i.first + " created";
        throw mc::Fail("readonly-changes", what + ": checks that change nothing change" + diff);
    }
    if (st_threw && !refused(st_error))
        throw mc::Fail("check-throws", what + ": computing states fails: " + st_error);
    std::map<std::string, std::map<std::string, unsigned>> intact;
    std::map<std::string, Stored> where;
    for (auto& g : b.segs)
    {
        auto& s = where[g.rel] = find_segment(b.root, g.rel);
        for (auto* v : {&g.alive, &g.deleted})
            for (auto& m : *v)
                intact[g.rel][m.id()] = copies(b.conf, root, s, m.bytes());
        std::vector<std::string> ids;
        for (auto& m : g.alive)
            ids.push_back(m.id());
        std::sort(ids.begin(), ids.end());
        auto& got = before[g.rel];
        std::string state;
        if (got.threw || got.ids != ids)
            if (!st_threw && !flagged(st, g, &state))
                throw mc::Fail("not-found", what + ": damage to " + g.rel + " is not found (" + state + "), while a query gives " + str(got) + " instead of {" + mc::join(ids, ", ") + "}");
    }

    // Damage to contents is found by accurate checks
    if (!st_threw && dmg.find(" zero ") == std::string::npos && dmg.find(" prepend ") == std::string::npos && dmg.find(" swap") == std::string::npos && dmg.find(" sql ") == std::string::npos)
        for (auto& g : b.segs)
            if (flagged(st, g) && !flagged(stq, g))
                throw mc::Fail("not-found-quick", what + ": damage to " + g.rel + " is found only by accurate checks: " + st[g.rel]);

    // When the damage is only in contents, only an accurate check can see it.
    // Repacks believe the index, and keep what it says
    bool may_repack = !(silent && dmg.find(" prepend ") != std::string::npos);
    bool contents   = dmg.find(" zero ") != std::string::npos && silent;
    bool index      = dmg.find(" sql DELETE") != std::string::npos || dmg.find("size=size") != std::string::npos || dmg.find("offset=offset+1 ") != std::string::npos;

    auto list       = [](const std::set<std::string>& s) { return "{" + mc::join(std::vector<std::string>(s.begin(), s.end()), ", ") + "}"; };
    auto state_list = [](const std::map<std::string, std::string>& s) {
        std::string r;
        for (auto& i : s)
            r += " " + i.first + ":" + i.second;
        return r;
    };
    auto damaged = [&](const Seg& g) {
        auto base = (g.archived ? std::string(".archive/last/") : std::string()) + g.rel;
        return hit(base) || hit("MANIFEST") || hit(".archive/last/MANIFEST");
    };

    // Repair
    for (auto& o : mc::split(recovery, ' '))
    {
        age(root);
        World w(b.conf, root);
        if (o == "rp" && !may_repack)
            continue;
        std::map<std::string, std::string> now_states;
        bool states_threw = false;
        try
        {
            now_states = states(w, o == "cka");
        }
        catch (std::exception&)
        {
            states_threw = true;
        }
        auto tr = mc::ds::apply(w, o + "?");
        auto r  = mc::ds::apply(w, o);
        if (o == "rp" || o == "ck" || o == "cka")
        {
            // What it does is what it said that it would do
            std::set<std::string> did, told, want;
            for (auto* x : {&r, &tr})
                for (auto& l : x->rec.log)
                {
                    auto f = mc::split(l, '|');
                    if (f[0] == "info" || f[0] == "report" || f[0] == "progress" || f[0] == "opmanual" || f[0] == "aborted" || (o != "rp" && f[0] == "repack"))
                        continue;
                    if (o == "rp" && f[0] == "rescan")
                        continue;
                    (x == &r ? did : told).insert(f[0] + " " + f[1]);
                }
            if (!r.threw && !tr.threw && did != told)
                throw mc::Fail("told", what + ": " + o + " does " + list(did) + " after telling that it would do " + list(told));
            if (!tr.threw && !states_threw)
            {
                for (auto& i : now_states)
                {
                    auto name = i.first.substr(i.first.find(':') == std::string::npos ? 0 : i.first.find(':') + 1);
                    auto has  = [&](const char* s) { return i.second.find(s) != std::string::npos; };
                    if (o != "rp" && has("CORRUPTED")) want.insert("manual " + name);
                    if (o != "rp" && has("UNALIGNED")) want.insert("rescan " + name);
                    if (has("MISSING")) want.insert("deindex " + name);
                    if (o == "rp" && has("DELETED")) want.insert("remove " + name);
                    if (o == "rp" && has("DIRTY") && !has("CORRUPTED") && !has("UNALIGNED")) want.insert("repack " + name);
                    if (o == "rp" && has("ARCHIVE_AGE")) want.insert("archive " + name);
                }
                if (want != told && told.size() + want.size())
                    throw mc::Fail("reports", what + ": " + o + " reports " + list(told) + " when states are" + state_list(now_states));
            }
        }
        if (!r.threw)
            continue;
        if (!refused(r.error))
            throw mc::Fail("repair-throws", what + ": " + o + " fails: " + r.error);
        for (auto& g : b.segs)
            for (auto& m : g.alive)
                if (copies(b.conf, root, find_segment(root, g.rel), m.bytes()) < intact[g.rel][m.id()])
                    throw mc::Fail("lost", what + ": " + recovery + " fails (" + r.error + ") and removes " + m.id());
        for (auto& g : b.segs)
        {
            auto now = see(w, g.query);
            if (!damaged(g) && now.threw)
                throw mc::Fail("spoiled", what + ": after " + recovery + " fails (" + r.error + ") segment " + g.rel + ", which was not damaged, cannot be read: " + now.error);
            for (auto& m : g.alive)
                if (!damaged(g) && !std::binary_search(now.ids.begin(), now.ids.end(), m.id()))
                    throw mc::Fail("spoiled", what + ": after " + recovery + " fails (" + r.error + ") segment " + g.rel + ", which was not damaged, misses " + m.id());
        }
        c.eval();
        c.traces();
        return;
    }
    World w(b.conf, root);
    auto st1 = states(w, true);
    auto ext = format_name(b.conf.format);
    if (dmg.find(" untracked ") != std::string::npos)
    {
        auto now = see(w, "reftime:=2020-01-08");
        if (now.threw || now.ids != std::vector<std::string>{msg(b.conf, 14).id()})
            throw mc::Fail("untracked", what + ": after " + recovery + " the data of a new segment is not found: " + str(now));
    }
    if (dmg.find(" foreign") != std::string::npos && !hit("2020/13-45." + ext) && !fs::exists(root + "/" + damaged_files.back()))
        throw mc::Fail("foreign", what + ": " + recovery + " removes a file that it does not know");
    for (auto& i : st1)
        if (i.first != "2020/foo." + ext && i.first != "2020/13-45." + ext && (may_repack || i.second != "DIRTY") && i.second.find("OK") == std::string::npos && i.second.find("CORRUPTED") == std::string::npos)
            throw mc::Fail("not-repaired", what + ": after " + recovery + " segment " + i.first + " is " + i.second + " (it was " + st[i.first] + ")");
    for (auto& g : b.segs)
    {
        std::string state, state0;
        flagged(st, g, &state0);
        bool bad  = flagged(st1, g, &state) && state != "not found";
        if (bad && !damaged(g) && (may_repack || state != "DIRTY"))
            throw mc::Fail("spoiled", what + ": after " + recovery + " segment " + g.rel + ", which was not damaged, is " + state);
        bool idx  = index && hit(g.rel);
        auto after = see(w, g.query);
        if (bad)
        {
            // It is left as it was
            auto s = find_segment(root, g.rel);
            auto files = tree_contents(root);
            for (auto& f : files)
                if (f.first == s.path || f.first.compare(0, s.path.size() + 1, s.path + "/") == 0)
                    if (!contents && !idx && tree[f.first] != f.second && !ends_with(f.first, ".sequence") && !ends_with(f.first, ".repack-lock"))
                        throw mc::Fail("corrupted-changed", what + ": segment " + g.rel + " is " + state + " and " + f.first + " was changed by " + recovery);
            for (auto& m : g.alive)
                if (where[g.rel].kind == "file" || where[g.rel].kind == "dir")
                {
                    auto n = copies(b.conf, root, s, m.bytes());
                    if (!idx && n < intact[g.rel][m.id()])
                        throw mc::Fail("lost", what + ": " + recovery + " removes " + m.id());
                }
            continue;
        }
        if (after.threw)
            throw mc::Fail("not-repaired", what + ": after " + recovery + " segment " + g.rel + " is " + state + " and a query fails: " + after.error);
        std::map<std::string, unsigned> seen;
        for (auto& i : after.ids)
            ++seen[i];
        bool countable = where[g.rel].kind == "file" || where[g.rel].kind == "dir";
        bool touched   = hit(where[g.rel].path);
        for (auto& m : g.alive)
        {
            unsigned have = countable ? intact[g.rel][m.id()] : touched && dmg.find("touch") == std::string::npos ? 0 : 1;
            if (have && !idx && !seen[m.id()])
                throw mc::Fail("lost", what + ": after " + recovery + " segment " + g.rel + " was " + state0 + ", is " + state + " and " + m.id() + ", which is intact, is not found. Found: " + str(after));
            seen.erase(m.id());
        }
        for (auto& m : g.deleted)
            if (intact[g.rel][m.id()] || !countable)
                seen.erase(m.id());
        for (auto& i : seen)
            if (i.second)
                throw mc::Fail("extra", what + ": after " + recovery + " segment " + g.rel + " is " + state + " and " + i.first + " is found");
    }
    c.states();
    c.transitions();
    c.eval();
    c.distinct(state_digest(root));
}

void task_run(Ctx& c, const std::string& task)
{
    auto f = mc::split(task, '|');
    fresh_scratch();
    auto base = build(f[1], f[2]);
    unsigned part = std::stoul(f[3]), parts = std::stoul(f[4]);
    auto dmgs = damages(base.conf, base.root);
    unsigned n = 0;
    std::vector<std::string> recoveries{"ck rp cka", "rp ck rp cka", "cka rp cka"};
    if (f.size() > 5)
    {
        // Pairs of damages to different segments
        std::vector<std::string> pairs;
        auto usable = [](const std::string& d) {
            for (auto x : {" foreign", " rmdir", " swap", " sql DELETE", "size=size", "offset=offset"})
                if (d.find(x) != std::string::npos)
                    return false;
            return true;
        };
        for (size_t i = 0; i < dmgs.size(); ++i)
            for (size_t j = i + 1; j < dmgs.size(); ++j)
                if (dmgs[i].substr(0, 10) != dmgs[j].substr(0, 10) && usable(dmgs[i]) && usable(dmgs[j]) && dmgs[j].find("MANIFEST") == std::string::npos)
                    pairs.push_back(dmgs[i] + " && " + dmgs[j]);
        dmgs = pairs;
        recoveries.resize(2);
    }
    for (auto& d : dmgs)
        for (bool silent : {false, true})
            for (auto& r : recoveries)
            {
                if (n++ % parts != part)
                    continue;
                c.current(task + " " + d + (silent ? " silent " : " ") + r);
                try
                {
                    run_case(c, base, d, silent, r);
                }
                catch (mc::Fail& e)
                {
                    c.fail(e.key + "|" + d.substr(d.find(' ') + 1, 18) + (silent ? "s" : ""), e.what());
                }
                catch (std::exception& e)
                {
                    c.fail("threw", base.conf.str() + " damaged with " + d + ": " + e.what());
                }
            }
    c.traces();
}

mc::Register c05("C05", [] {
    mc::ds::init();
    std::vector<std::string> tasks;
    std::string u = ";unique=reftime,product,area,level";
    auto add = [&](const std::string& conf, const std::string& inits) {
        const unsigned parts = 4;
        for (auto& i : inits.empty() ? std::vector<std::string>{""} : mc::split(inits, '/'))
            for (unsigned p = 0; p < parts; ++p)
                tasks.push_back(mc::cat("C05|", conf, "|", i, "|", p, "|", parts));
    };
    for (auto type : {"iseg", "simple"})
    {
        std::string t = std::string("type=") + type;
        if (t == "type=iseg")
            t += u + ";index=product";
        t += ";fmt=";
        add(t + "grib", "/d1 ck/gz2 ck/d4 ck");
        add(t + "vm2", "/d0 ck");
        add(t + "bufr;dirs", "/d1 ck/tar ck/zip ck");
        add(t + "grib;archive=10", "rp");
        add(t + "odimh5", "");
        add(t + "vm2;dirs", "");
    }
    if (mc::args.thorough)
        for (auto conf : {"type=iseg" + u + ";fmt=grib", "type=iseg" + u + ";fmt=bufr;dirs", std::string("type=simple;fmt=vm2"), std::string("type=simple;fmt=bufr;dirs")})
            for (unsigned p = 0; p < 32; ++p)
                tasks.push_back(mc::cat("C05|", conf, "|d1 ck|", p, "|32|pairs"));
    run_tasks(tasks, task_run, "C05|");
});

} // namespace
