// Dispatching data to datasets: exhaustive exploration of sequences of inputs,
// split in all ways in batches, on configurations of several datasets, against
// a reference model of where everything should go. Then, of all points where
// writing to one of the datasets fails.
#include "common_ds.h"
#include "mcsys.h"
#include <algorithm>
#include <arki/core/file.h>
#include <arki/data.h>
#include <arki/dataset/file.h>
#include <arki/dataset/memory.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/dispatcher.h>
#include <arki/matcher.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/metadata/validator.h>
#include <arki/python/arki-scan/dispatch.h>
#include <arki/python/cmdline/processor.h>
#include <arki/python/dataset/progress.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/stream.h>
#include <arki/types/reftime.h>
#include <arki/types/source/blob.h>
#include <filesystem>

// Today is always the same day
extern "C" time_t time(time_t* t) noexcept
{
    time_t res = mc::ds::now();
    if (t)
        *t = res;
    return res;
}

// No Python interpreter here: a progress that does nothing
namespace arki::python::dataset {
PythonProgress::PythonProgress(PyObject*) {}
PythonProgress::~PythonProgress() {}
void PythonProgress::start(size_t c, size_t b) { arki::query::Progress::start(c, b); }
void PythonProgress::update(size_t, size_t) {}
void PythonProgress::done() {}
} // namespace arki::python::dataset

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

struct DS
{
    std::string name;
    std::string type; // as in the configuration
    Conf conf;        // how it works
    std::string filter;
    std::function<bool(const Msg&)> match;
    Model model;
    std::string outbound; // bytes by segment, concatenated
    std::map<std::string, std::string> outfiles;
    std::vector<std::string> extra; // data in datasets with a made up reference time
    bool stores() const { return type != "discard" && type != "outbound"; }
};

struct Setup
{
    std::string name;
    std::vector<DS> dss; // sorted by name
    bool validate = false;

    DS* find(const std::string& n)
    {
        for (auto& d : dss)
            if (d.name == n)
                return &d;
        return nullptr;
    }
};

DS ds(const std::string& name, const std::string& type, const std::string& conf, const std::string& filter, std::function<bool(const Msg&)> match)
{
    DS res;
    res.name   = name;
    res.type   = type;
    res.conf   = Conf::parse(conf);
    res.filter = filter;
    res.match  = match;
    return res;
}

const char* ISEG   = "type=iseg;fmt=grib;unique=reftime,product,area;step=daily";
const char* SIMPLE = "type=simple;fmt=grib;step=daily";

std::string prod(unsigned p) { return cat("product:GRIB1,200,140,", p); }

std::vector<Setup> setups()
{
    auto never = [](const Msg&) { return false; };
    auto p1    = [](const Msg& m) { return m.p == 1; };
    auto p2    = [](const Msg& m) { return m.p == 2; };
    auto p12   = [](const Msg& m) { return m.p == 1 || m.p == 2; };
    auto a2    = [](const Msg& m) { return m.a == 2; };
    auto any   = [](const Msg& m) { return true; };
    auto err   = ds("error", "error", SIMPLE, "", never);
    auto dup   = ds("duplicates", "duplicates", SIMPLE, "", never);
    std::string f12 = prod(1) + " or " + prod(2).substr(8);
    std::vector<Setup> res;
    auto add = [&](const std::string& name, std::vector<DS> dss, bool validate = false) {
        std::sort(dss.begin(), dss.end(), [](const DS& a, const DS& b) { return a.name < b.name; });
        Setup s;
        s.name     = name;
        s.dss      = dss;
        s.validate = validate;
        res.push_back(s);
    };
    add("overlap", {ds("aa", "iseg", ISEG, f12, p12), ds("bb", "simple", SIMPLE, "area:GRIB:lat=2", a2), err, dup});
    add("outbound", {ds("aa", "iseg", ISEG, prod(1), p1), ds("out", "outbound", SIMPLE, "reftime:>=2019", any), ds("bb", "iseg", "type=iseg;fmt=grib;unique=reftime,product;step=monthly;replace=yes", prod(2), p2), err, dup});
    add("ages", {ds("aa", "iseg", std::string(ISEG) + ";archive=19", f12, p12), ds("bb", "simple", std::string(SIMPLE) + ";delete=19", prod(3), [](const Msg& m) { return m.p == 3; }), err, dup});
    add("outages", {ds("aa", "iseg", std::string(ISEG) + ";archive=18", f12, p12), ds("out", "outbound", std::string(SIMPLE) + ";archive=19", prod(1), p1), err, dup});
    add("discard", {ds("aa", "iseg", ISEG, prod(1), p1), ds("bb", "discard", SIMPLE, prod(2), p2), err, dup});
    add("discardboth", {ds("aa", "iseg", ISEG, prod(1), p1), ds("duplicates", "discard", SIMPLE, "", never), ds("error", "discard", SIMPLE, "", never)});
    add("validate", {ds("aa", "iseg", ISEG, "reftime:>=2019", any), ds("out", "outbound", SIMPLE, "area:GRIB:lat=2", a2), err, dup}, true);
    add("dupiseg", {ds("aa", "iseg", ISEG, f12, p12), err, ds("duplicates", "iseg", ISEG, "", never)});
    add("erriseg", {ds("aa", "simple", SIMPLE, f12, p12), ds("error", "iseg", std::string(ISEG) + ";replace=yes", "", never), dup});
    add("filters", {ds("aa", "iseg", ISEG, prod(1) + "; area:GRIB:lat=1", [](const Msg& m) { return m.p == 1 && m.a == 1; }), ds("bb", "iseg", ISEG, prod(1) + "; area:GRIB:lat=2", [](const Msg& m) { return m.p == 1 && m.a == 2; }), ds("cc", "simple", SIMPLE, prod(2) + "; reftime:<2020-01-02", [](const Msg& m) { return m.p == 2 && m.t < "2020-01-02"; }), err, dup});
    return res;
}

/// Input: a message, maybe without reference time
struct In
{
    Msg m;
    bool noref = false;
};

In input(const std::string& s)
{
    In res;
    std::string n = s;
    if (n[0] == 'R')
    {
        res.noref = true;
        n         = n.substr(1);
    }
    res.m = msg(Conf::parse(ISEG), atoi(n.c_str()));
    return res;
}

struct NoProduct3 : public metadata::Validator
{
    NoProduct3() { name = "p3"; }
    bool operator()(const Metadata& v, std::vector<std::string>& errors) const override
    {
        auto p = v.get(TYPE_PRODUCT);
        if (p && p->to_string().find("140, 003") != std::string::npos)
        {
            errors.push_back("product 3 is not good");
            return false;
        }
        return true;
    }
};

struct Anything : public metadata::Validator
{
    Anything() { name = "any"; }
    bool operator()(const Metadata& v, std::vector<std::string>& errors) const override { return true; }
};

/// What should happen of an input
struct Fate
{
    std::string dest;  // where it ends up
    std::string place; // how it is accounted for: ok, error, duplicates, none
    std::vector<std::string> outbounds;
    bool stored = false;
};

/// Import a batch in a dataset: how it ends for each
std::vector<char> import_batch(DS& d, const std::vector<In>& ins)
{
    std::vector<char> res;
    if (ins.empty())
        return res;
    DataFormat first = ins[0].m.format;
    if (d.type == "discard")
        return std::vector<char>(ins.size(), 'X');
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> segs;
    for (const auto& in : ins)
    {
        Msg m = in.m;
        if (in.noref)
            m.t = "2020-01-20T00:00:00Z"; // today
        if (d.type == "outbound")
        {
            Model scratch;
            Conf c = d.conf;
            c.type = "simple";
            char r = scratch.import(c, m, "", first);
            if (r == 'K')
                segs[c.segment(m)].push_back({m.t, in.m.bytes()});
            res.push_back(r);
            continue;
        }
        if (in.noref && d.conf.type != "iseg")
        {
            // The data has a reference time that is not the one given to it
            if (in.m.format != first)
                res.push_back('E');
            else
            {
                d.extra.push_back(in.m.bytes());
                res.push_back('K');
            }
            continue;
        }
        res.push_back(d.model.import(d.conf, m, "", first));
    }
    for (auto& s : segs)
    {
        std::stable_sort(s.second.begin(), s.second.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
        for (const auto& x : s.second)
            d.outfiles[s.first] += x.second;
    }
    return res;
}

std::vector<Fate> predict(Setup& s, const std::vector<In>& batch)
{
    std::vector<Fate> res(batch.size());
    std::vector<size_t> errors, dups;
    std::map<std::string, std::vector<size_t>> by_ds, by_out;
    for (size_t i = 0; i < batch.size(); ++i)
    {
        const In& in = batch[i];
        if (in.noref)
        {
            errors.push_back(i);
            continue;
        }
        if (s.validate && in.m.p == 3)
        {
            errors.push_back(i);
            continue;
        }
        std::vector<std::string> found;
        for (auto& d : s.dss)
        {
            if (d.name == "error" || d.name == "duplicates" || !d.match(in.m))
                continue;
            if (d.type == "outbound")
                by_out[d.name].push_back(i);
            else
                found.push_back(d.name);
        }
        if (found.size() != 1)
            errors.push_back(i);
        else
            by_ds[found[0]].push_back(i);
    }
    auto acquire = [&](const std::string& name, const std::vector<size_t>& idx, std::function<void(size_t, char)> f) {
        std::vector<In> ins;
        for (auto i : idx)
            ins.push_back(batch[i]);
        auto r = import_batch(*s.find(name), ins);
        for (size_t j = 0; j < r.size(); ++j)
            f(idx[j], r[j]);
    };
    for (auto& b : by_out)
        acquire(b.first, b.second, [&](size_t i, char c) {
            if (c == 'K')
                res[i].outbounds.push_back(b.first);
        });
    for (auto& b : by_ds)
        acquire(b.first, b.second, [&](size_t i, char c) {
            if (c == 'K' || c == 'X')
            {
                res[i].dest   = b.first;
                res[i].place  = "ok";
                res[i].stored = c == 'K';
            }
            else if (c == 'D')
                dups.push_back(i);
            else
                errors.push_back(i);
        });
    acquire("duplicates", dups, [&](size_t i, char c) {
        if (c == 'K' || c == 'X')
        {
            res[i].dest = res[i].place = "duplicates";
            res[i].stored              = c == 'K';
        }
        else
            errors.push_back(i);
    });
    acquire("error", errors, [&](size_t i, char c) {
        if (c == 'K' || c == 'X')
        {
            res[i].dest = res[i].place = "error";
            res[i].stored              = c == 'K';
        }
        else
            res[i].place = "none";
    });
    return res;
}

struct Collect : public arki::python::cmdline::DatasetProcessor
{
    metadata::Collection mds;
    void process(dataset::Reader& ds, const std::string& name) override
    {
        ds.query_data(query::Data(Matcher(), false), [&](std::shared_ptr<Metadata> md) {
            mds.push_back(md);
            return true;
        });
    }
};

struct ListDataset : public dataset::memory::Dataset
{
    using dataset::memory::Dataset::Dataset;
};

/// Everything needed to dispatch
struct Scene
{
    std::string root;
    Setup setup;
    std::shared_ptr<dataset::Session> session;
    std::shared_ptr<dataset::Pool> pool;
    NoProduct3 validator;
    Anything anything;

    Scene(const Setup& setup, const std::string& root) : root(root), setup(setup)
    {
        mc::ds::init();
        session = std::make_shared<dataset::Session>(false);
        pool    = std::make_shared<dataset::Pool>(session);
        for (const auto& d : setup.dss)
            pool->add_dataset(*section(d), false);
    }
    std::shared_ptr<core::cfg::Section> section(const DS& d) const
    {
        auto res = d.conf.section(root + "/" + d.name, d.name);
        res->set("type", d.type);
        if (!d.filter.empty())
            res->set("filter", d.filter);
        return res;
    }
    std::shared_ptr<Metadata> metadata(const In& in) const
    {
        auto md = in.m.inlined();
        if (in.noref)
            md->unset(TYPE_REFTIME);
        return md;
    }
};

std::string bytes_of(const Metadata& md)
{
    auto d = const_cast<Metadata&>(md).get_data().read();
    return std::string(d.begin(), d.end());
}

/// Bytes found where the metadata says
std::string bytes_at(const Metadata& md)
{
    if (!md.has_source_blob())
        return bytes_of(md);
    const auto& b = md.sourceBlob();
    std::string f = slurp(b.absolutePathname());
    if (b.offset > f.size())
        return "(past the end)";
    return f.substr(b.offset, b.size);
}

std::vector<std::string> stored_in(Scene& s, const DS& d)
{
    World w(d.conf, s.root + "/" + d.name);
    std::vector<std::string> res;
    if (!fs::exists(w.root))
        return res;
    for (const auto& g : mc::ds::query(*w.reader(), ""))
        res.push_back(g.data);
    std::sort(res.begin(), res.end());
    return res;
}

std::string describe(const std::vector<std::string>& v)
{
    std::string res;
    for (const auto& s : v)
        res += quote(s.substr(0, 60)) + " ";
    return res;
}

struct Counts
{
    unsigned ok = 0, error = 0, duplicates = 0, none = 0;
};

/// Compare datasets with what they should have
void check_datasets(Scene& s, Setup& model, const std::string& what)
{
    for (auto& d : model.dss)
    {
        if (d.type == "discard")
        {
            if (fs::exists(s.root + "/" + d.name))
                throw mc::Fail("discard", what + ": something was written for a dataset that discards data");
            continue;
        }
        if (d.type == "outbound")
        {
            std::map<std::string, std::string> got;
            for (const auto& f : tree_contents(s.root + "/" + d.name))
                if (f.first.size() > 5 && (f.first.substr(f.first.size() - 5) == ".grib" || f.first.substr(f.first.size() - 5) == ".bufr"))
                    got[f.first] = slurp(s.root + "/" + d.name + "/" + f.first);
            std::map<std::string, std::string> exp;
            for (const auto& f : d.outfiles)
                exp[f.first] = f.second;
            if (got != exp)
            {
                std::string desc;
                for (const auto& g : got)
                    desc += g.first + ":" + quote(g.second.substr(0, 200)) + " ";
                desc += "expected ";
                for (const auto& g : exp)
                    desc += g.first + ":" + quote(g.second.substr(0, 200)) + " ";
                throw mc::Fail("outbound-data", what + ": outbound dataset has " + desc);
            }
            continue;
        }
        auto msgs = d.model.all();
        if (d.extra.empty())
        {
            World w(d.conf, s.root + "/" + d.name);
            if (!fs::exists(w.root))
            {
                if (!msgs.empty())
                    throw mc::Fail("data-missing", what + ": dataset " + d.name + " is not there");
                continue;
            }
            verify(w, msgs, V_DATA | V_SUMMARY, what + ": dataset " + d.name);
        }
        else
        {
            std::vector<std::string> exp = d.extra;
            for (const auto& m : msgs)
                exp.push_back(m.bytes());
            std::sort(exp.begin(), exp.end());
            auto got = stored_in(s, d);
            if (got != exp)
                throw mc::Fail("data-mismatch", what + ": dataset " + d.name + " has " + describe(got) + "expected " + describe(exp));
        }
    }
}

/// How inputs are given
struct Mode
{
    bool copyok = false; // save copies of what was imported
    bool copyko = false; // save copies of what was not imported
    bool copy   = false; // any of these
    bool blob  = false; // input is in a file
    bool plain = false; // use the dispatcher directly
};

Mode mode(char c)
{
    Mode m;
    m.copyok = c == 'c' || c == 'C' || c == 'o';
    m.copyko = c == 'c' || c == 'C' || c == 'k';
    m.copy   = m.copyok || m.copyko;
    m.blob  = c == 'b' || c == 'C';
    m.plain = c == 'd';
    return m;
}

void add_validators(Dispatcher& d, Scene& s)
{
    d.add_validator(s.anything);
    d.add_validator(s.validator);
    d.add_validator(s.anything);
}

/// Task: C14|setup|mode|inputs, with / between batches
void run_case(Ctx& ctx, Setup setup, char modec, const std::vector<std::vector<std::string>>& batches, const std::string& what)
{
    Mode m           = mode(modec);
    std::string root = fresh_scratch();
    Scene s(setup, root);
    std::vector<In> all;
    std::vector<std::vector<In>> ins;
    for (const auto& b : batches)
    {
        ins.emplace_back();
        for (const auto& x : b)
        {
            ins.back().push_back(input(x));
            all.push_back(ins.back().back());
        }
    }

    // What a simulation says, before doing anything
    std::vector<std::string> simulated;
    {
        auto before = tree_digest(root, true);
        TestDispatcher td(s.pool);
        if (setup.validate)
            add_validators(td, s);
        for (const auto& b : ins)
        {
            metadata::InboundBatch batch;
            for (const auto& in : b)
                batch.add(s.metadata(in));
            td.dispatch(batch, false);
            for (const auto& e : batch)
                simulated.push_back(e->destination + (e->result == metadata::Inbound::Result::OK ? ":ok" : ":failed"));
        }
        td.flush();
        if (tree_digest(root, true) != before)
            throw mc::Fail("test-writes", what + ": simulating changed something");
    }

    Setup model = setup;
    std::vector<Fate> fates;
    Counts exp, got;
    std::vector<std::pair<std::string, std::string>> got_dest; // destination, data where it says
    std::string copyok, copyko;

    if (m.plain)
    {
        RealDispatcher d(s.pool);
        if (setup.validate)
            add_validators(d, s);
        unsigned outfail = 0;
        for (const auto& b : ins)
        {
            metadata::InboundBatch batch;
            for (const auto& in : b)
                batch.add(s.metadata(in));
            d.dispatch(batch, false);
            auto f = predict(model, b);
            for (size_t i = 0; i < b.size(); ++i)
            {
                fates.push_back(f[i]);
                bool ok = batch[i]->result == metadata::Inbound::Result::OK;
                if (ok == batch[i]->destination.empty() && !(ok && f[i].place == "ok"))
                    throw mc::Fail("result", cat(what, ": item ", i, " has destination '", batch[i]->destination, "' and result ", batch[i]->result));
                got_dest.push_back({ok ? batch[i]->destination : "", ""});
                if (f[i].stored && bytes_at(*batch[i]->md) != b[i].m.bytes())
                    throw mc::Fail("source", cat(what, ": the metadata of item ", i, " says that the data is in ", batch[i]->md->source().to_string(), ", but it is not there"));
            }
        }
        d.flush();
    }
    else
    {
        Collect collect;
        arki::python::arki_scan::MetadataDispatch disp(s.pool, collect);
        disp.dispatcher = new RealDispatcher(s.pool);
        if (setup.validate)
            add_validators(*disp.dispatcher, s);
        if (m.copy)
        {
            fs::create_directories(root + "/copyok");
            fs::create_directories(root + "/copyko");
            if (m.copyok)
                disp.dir_copyok = root + "/copyok";
            if (m.copyko)
                disp.dir_copyko = root + "/copyko";
        }
        fs::create_directories(root + "/in");
        size_t at = 0;
        for (size_t bi = 0; bi < ins.size(); ++bi)
        {
            // Each batch is a file: the odd ones get split by the threshold
            const auto& b     = ins[bi];
            bool split        = modec == 's';
            disp.flush_threshold = split ? 1 : 128 * 1024 * 1024;
            std::string name  = cat(root, "/in/f", bi, ".grib");
            arki::python::arki_scan::DispatchResults r;
            if (m.blob)
            {
                std::string data;
                for (const auto& in : b)
                    data += in.m.bytes();
                spew(name, data);
                auto reader = s.session->dataset(*dataset::file::read_config("grib", name))->create_reader();
                r           = disp.process(*reader, name);
                if (slurp(name) != data)
                    throw mc::Fail("input-changed", what + ": the input file was changed");
            }
            else
            {
                auto list = std::make_shared<dataset::memory::Dataset>(s.session);
                for (const auto& in : b)
                    list->push_back(s.metadata(in));
                r = disp.process(*list->create_reader(), name);
            }
            got.ok += r.successful;
            got.error += r.in_error_dataset;
            got.duplicates += r.duplicates;
            got.none += r.not_imported;
            std::vector<Fate> f;
            if (split)
                for (const auto& in : b)
                    f.push_back(predict(model, {in})[0]);
            else
                f = predict(model, b);
            for (const auto& x : f)
                fates.push_back(x);
            Counts bc;
            for (const auto& x : f)
                ++(x.place == "ok" ? bc.ok : x.place == "error" ? bc.error : x.place == "duplicates" ? bc.duplicates : bc.none);
            if (r.success(false) != (bc.ok && !bc.error && !bc.none && !bc.duplicates) || r.success(true) != (!bc.error && !bc.none && (bc.ok || bc.duplicates)))
                throw mc::Fail("success", what + ": wrong outcome: " + r.summary());
            if (collect.mds.size() != at + b.size())
                throw mc::Fail("results-count", cat(what, ": ", b.size(), " items were dispatched, and ", collect.mds.size() - at, " are in the results"));
            for (size_t i = 0; i < b.size(); ++i, ++at)
            {
                const auto& md = collect.mds[at];
                bool noted     = false;
                for (auto n = md.notes(); n.first != n.second; ++n.first)
                    if ((*n.first)->to_string().find("not been imported") != std::string::npos)
                        noted = true;
                if (noted != (f[i].place == "none"))
                    throw mc::Fail("note", cat(what, ": item ", at, noted ? " is said not to have been imported, but it was" : " was not imported, and it is not said"));
                if (f[i].stored && bytes_at(md) != b[i].m.bytes())
                    throw mc::Fail("source", cat(what, ": the metadata of item ", at, " says that the data is in ", md.source().to_string(), ", but it is not there"));
                if (f[i].stored && md.sourceBlob().basedir != fs::path(root + "/" + f[i].dest))
                    throw mc::Fail("source-dataset", cat(what, ": item ", at, " is in ", f[i].dest, ", but its source is ", md.source().to_string()));
            }
            if (m.copy)
            {
                std::string eok, eko;
                for (size_t i = 0; i < b.size(); ++i)
                {
                    if (f[i].place == "ok" && m.copyok)
                        eok += b[i].m.bytes();
                    if (f[i].place != "ok" && m.copyko)
                        eko += b[i].m.bytes();
                }
                for (const auto& x : {std::make_pair(std::string("copyok"), eok), std::make_pair(std::string("copyko"), eko)})
                {
                    std::string p = cat(root, "/", x.first, "/f", bi, ".grib");
                    std::string g = fs::exists(p) ? slurp(p) : "";
                    if (g != x.second)
                        throw mc::Fail(x.first, cat(what, ": ", x.first, " has ", quote(g.substr(0, 300)), " instead of ", quote(x.second.substr(0, 300))));
                }
            }
        }
    }

    for (const auto& f : fates)
        ++(f.place == "ok" ? exp.ok : f.place == "error" ? exp.error : f.place == "duplicates" ? exp.duplicates : exp.none);
    if (!m.plain && (got.ok != exp.ok || got.error != exp.error || got.duplicates != exp.duplicates || got.none != exp.none))
        throw mc::Fail("counts", cat(what, ": counted ", got.ok, " ok, ", got.error, " errors, ", got.duplicates, " duplicates, ", got.none, " not imported; expected ", exp.ok, ", ", exp.error, ", ", exp.duplicates, ", ", exp.none));
    for (size_t i = 0; i < fates.size(); ++i)
    {
        if (m.plain && got_dest[i].first != fates[i].dest)
            throw mc::Fail("destination", cat(what, ": item ", i, " went to '", got_dest[i].first, "' instead of '", fates[i].dest, "'"));
        // Simulations do not know about duplicates and formats
        bool comparable = true;
        for (const auto& f : all)
            if (f.m.format != DataFormat::GRIB)
                comparable = false;
        if (comparable && (fates[i].place == "ok" || fates[i].place == "error"))
        {
            std::string e = fates[i].dest + ":ok";
            bool was_dup  = fates[i].place == "error" && setup.name == "dupiseg";
            if (simulated[i] != e && !was_dup)
                throw mc::Fail("simulated", cat(what, ": item ", i, " was said to go to ", simulated[i], ", and it went to ", e));
        }
    }
    check_datasets(s, model, what);
    std::string out;
    for (const auto& f : fates)
        out += f.dest + ":" + f.place + "(" + mc::join(f.outbounds, "+") + ") ";
    ctx.distinct(cat(setup.name, " ", out));
    ctx.sample(what + ": " + out);
}

std::vector<std::vector<std::string>> parse_batches(const std::string& s)
{
    std::vector<std::vector<std::string>> res;
    for (const auto& b : mc::split(s, '/'))
        res.push_back(mc::split(b, ','));
    return res;
}

/// All the ways to split a sequence
std::vector<std::string> splits(const std::vector<std::string>& seq)
{
    std::vector<std::string> res;
    for (unsigned mask = 0; mask < (1u << (seq.size() - 1)); ++mask)
    {
        std::string s = seq[0];
        for (size_t i = 1; i < seq.size(); ++i)
            s += ((mask >> (i - 1)) & 1 ? "/" : ",") + seq[i];
        res.push_back(s);
    }
    return res;
}

Setup find_setup(const std::string& name)
{
    for (const auto& s : setups())
        if (s.name == name)
            return s;
    throw std::runtime_error("no such setup: " + name);
}

/// All sequences that begin with the given one, up to a length
void run_seqs(Ctx& ctx, const std::string& task)
{
    auto today = dataset::SessionTime::local_override(mc::ds::now());
    // C14|setup|modes|alphabet|first|length
    auto f      = mc::split(task, '|');
    Setup setup = find_setup(f[1]);
    auto alpha  = mc::split(f[3], ',');
    unsigned depth = atoi(f[5].c_str());
    std::function<void(std::vector<std::string>)> rec = [&](std::vector<std::string> seq) {
        for (char c : f[2])
        {
            Mode m = mode(c);
            if (m.blob)
            {
                bool ok = true;
                for (const auto& s : seq)
                    if (s[0] == 'R' || s == "7")
                        ok = false;
                if (!ok)
                    continue;
            }
            for (const auto& s : splits(seq))
            {
                std::string what = cat(f[1], " mode ", std::string(1, c), " ", s);
                ctx.current(what);
                ctx.eval();
                ctx.transitions(seq.size());
                ctx.traces();
                try
                {
                    run_case(ctx, setup, c, parse_batches(s), what);
                }
                catch (mc::Fail& e)
                {
                    ctx.fail(cat("C14:", e.key, ":", f[1]), e.what());
                }
                catch (std::exception& e)
                {
                    ctx.fail(cat("C14:exception:", f[1]), what + ": " + e.what());
                }
            }
        }
        if (seq.size() >= depth)
            return;
        for (const auto& a : alpha)
        {
            auto s = seq;
            s.push_back(a);
            rec(s);
        }
    };
    rec({f[4]});
}

/// Writing to one of the datasets fails, at each point
void run_faults(Ctx& ctx, const std::string& task)
{
    auto today = dataset::SessionTime::local_override(mc::ds::now());
    // C14F|setup|mode|dataset|batches
    auto f       = mc::split(task, '|');
    Setup setup  = find_setup(f[1]);
    Mode m       = mode(f[2][0]);
    auto batches = parse_batches(f[4]);
    for (unsigned k = 1; k < 200; ++k)
    {
        std::string root = fresh_scratch();
        std::string what = cat(task, " operation ", k, " fails");
        ctx.current(what);
        ctx.eval();
        ctx.traces();
        Scene s(setup, root);
        bool threw = false;
        std::string error;
        Collect collect;
        std::vector<std::pair<In, std::string>> claimed; // where it is said that it went
        std::vector<In> all;
        Counts got;
        std::string copyok, copyko;
        bool fired = false;
        try
        {
            std::unique_ptr<arki::python::arki_scan::MetadataDispatch> disp;
            std::unique_ptr<RealDispatcher> plain;
            if (m.plain)
                plain.reset(new RealDispatcher(s.pool));
            else
            {
                disp.reset(new arki::python::arki_scan::MetadataDispatch(s.pool, collect));
                disp->dispatcher = new RealDispatcher(s.pool);
                if (m.copy)
                {
                    fs::create_directories(root + "/copyok");
                    fs::create_directories(root + "/copyko");
                    disp->dir_copyok = root + "/copyok";
                    disp->dir_copyko = root + "/copyko";
                }
            }
            for (size_t bi = 0; bi < batches.size(); ++bi)
            {
                metadata::InboundBatch batch;
                auto list = std::make_shared<dataset::memory::Dataset>(s.session);
                std::vector<In> ins;
                for (const auto& x : batches[bi])
                {
                    ins.push_back(input(x));
                    all.push_back(ins.back());
                    batch.add(s.metadata(ins.back()));
                    list->push_back(s.metadata(ins.back()));
                }
                bool last = bi + 1 == batches.size();
                if (last)
                    sysx::set_fail(root + "/" + f[3], sysx::C_WRITE | sysx::C_SYNC | sysx::C_NAME | sysx::C_OPEN, k, ENOSPC, false, false);
                if (m.plain)
                {
                    plain->dispatch(batch, false);
                    fired = sysx::fault_fired();
                    sysx::set_off();
                    for (size_t i = 0; i < ins.size(); ++i)
                        claimed.push_back({ins[i], batch[i]->result == metadata::Inbound::Result::OK ? batch[i]->destination : ""});
                }
                else
                {
                    auto r = disp->process(*list->create_reader(), cat(root, "/f", bi));
                    fired  = sysx::fault_fired();
                    sysx::set_off();
                    got.ok += r.successful;
                    got.error += r.in_error_dataset;
                    got.duplicates += r.duplicates;
                    got.none += r.not_imported;
                    if (m.copy)
                    {
                        for (const auto& n : {"copyok", "copyko"})
                            if (fs::exists(cat(root, "/", n, "/f", bi)))
                                (n == std::string("copyok") ? copyok : copyko) += slurp(cat(root, "/", n, "/f", bi));
                    }
                }
            }
        }
        catch (std::exception& e)
        {
            fired = sysx::fault_fired();
            sysx::set_off();
            threw = true;
            error = e.what();
        }
        if (!fired)
        {
            sysx::set_off();
            break;
        }
        ctx.extra(0);
        try
        {
            std::map<std::string, std::vector<std::string>> stored;
            for (auto& d : s.setup.dss)
                if (d.stores())
                    stored[d.name] = stored_in(s, d);
            auto has = [&](const std::string& ds, const std::string& data) {
                auto i = stored.find(ds);
                if (i == stored.end())
                    return true;
                return std::find(i->second.begin(), i->second.end(), data) != i->second.end();
            };
            for (const auto& c : claimed)
                if (!c.second.empty() && !has(c.second, c.first.m.bytes()))
                    throw mc::Fail("fault-lost", cat(what, ": ", c.first.m.id(), " is said to be in ", c.second, ", but it is not"));
            if (!m.plain && !threw)
            {
                // Each item is somewhere, or counted as not imported
                unsigned missing = 0;
                for (const auto& in : all)
                {
                    bool found = false;
                    for (auto& d : s.setup.dss)
                        if (d.stores() && has(d.name, in.m.bytes()))
                            found = true;
                        else if (d.type == "discard")
                            found = true;
                    if (!found)
                        ++missing;
                    if (m.copy)
                    {
                        bool ok = copyok.find(in.m.bytes()) != std::string::npos, ko = copyko.find(in.m.bytes()) != std::string::npos;
                        if (ok == ko && std::count_if(all.begin(), all.end(), [&](const In& o) { return o.m.bytes() == in.m.bytes(); }) == 1)
                            throw mc::Fail("fault-copy", cat(what, ": ", in.m.id(), ok ? " is both in copyok and in copyko" : " is in neither of copyok and copyko"));
                        if (ok)
                        {
                            bool normal = false;
                            for (auto& d : s.setup.dss)
                                if (d.name != "error" && d.name != "duplicates" && d.type != "outbound" && d.match(in.m) && has(d.name, in.m.bytes()))
                                    normal = true;
                            if (!normal)
                                throw mc::Fail("fault-copyok", cat(what, ": ", in.m.id(), " is in copyok, and it was not imported"));
                        }
                    }
                }
                if (missing > got.none)
                    throw mc::Fail("fault-lost", cat(what, ": ", missing, " items are in no dataset, but ", got.none, " were counted as not imported"));
                if (got.ok + got.error + got.duplicates + got.none != all.size())
                    throw mc::Fail("fault-counts", cat(what, ": ", all.size(), " items, and ", got.ok, "+", got.error, "+", got.duplicates, "+", got.none, " were counted"));
                unsigned count = 0;
                for (const auto& md : collect.mds)
                {
                    if (md->has_source_blob())
                    {
                        // What says where its data is, is right
                        std::string b = bytes_at(*md);
                        if (std::find_if(all.begin(), all.end(), [&](const In& in) { return in.m.bytes() == b; }) == all.end())
                            throw mc::Fail("fault-source", cat(what, ": item ", count, " is said to be in ", md->source().to_string(), ", but it is not there"));
                    }
                    ++count;
                }
                if (count != all.size())
                    throw mc::Fail("fault-results", cat(what, ": ", all.size(), " items were dispatched, and ", count, " are in the results"));
            }
            else if (!m.plain)
            {
                // What was being dispatched is in the results
                if (collect.mds.size() != all.size())
                    throw mc::Fail("fault-results", cat(what, ": ", all.size(), " items were given, and ", collect.mds.size(), " are in the results (", error, ")"));
            }
            ctx.distinct(cat(task, threw ? "threw" : "went on", got.ok, "/", got.error, "/", got.none));
        }
        catch (mc::Fail& e)
        {
            ctx.fail(cat("C14:", e.key, ":", f[1]), e.what());
        }
        catch (std::exception& e)
        {
            ctx.fail(cat("C14:fault-exception:", f[1]), what + ": " + e.what());
        }
    }
}

Register r_c14("C14", [] {
    mc::ds::init();
    bool th = args.thorough;
    name_extra(0, "points_of_failure");
    std::vector<std::string> alpha = {"0", "1", "3", "4", "5", "6", "7", "R1"};
    std::vector<std::string> tasks;
    for (const auto& s : setups())
        for (const auto& a : alpha)
        {
            if (s.name == "erriseg" && a == "R1")
                // Its data would have to be found with another reference time
                continue;
            auto all = alpha;
            if (s.name == "erriseg")
                all.pop_back();
            tasks.push_back(cat("C14|", s.name, "|dicsbCko|", mc::join(all, ","), "|", a, "|2"));
            bool deep = th || s.name == "overlap" || s.name == "outbound" || s.name == "dupiseg";
            if (deep)
                tasks.push_back(cat("C14|", s.name, th ? "|dcb|" : "|d|", th ? mc::join(all, ",") : "0,3,4,5,R1", "|", a, "|3"));
        }
    run_tasks(tasks, run_seqs, "C14|");
    tasks.clear();
    for (const auto& s : setups())
        for (const auto& d : s.dss)
            if (d.stores() || d.type == "outbound")
                for (const auto& m : {"d", "i", "c"})
                    for (const auto& b : {"0,1,4,5,6", "0,1/3,4,0,2", "0/R1,3,1,0"})
                        tasks.push_back(cat("C14F|", s.name, "|", m, "|", d.name, "|", b));
    run_tasks(tasks, run_faults, "C14F|");
});

} // namespace
