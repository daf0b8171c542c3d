// The command line tools: the real Python code with the real extension, run
// in an embedded interpreter on all combinations of options and inputs, and
// compared with what the library does when it is called directly, or with what
// is documented.
#include "py.h"

namespace {

struct Res
{
    int code = 0;
    std::string out, err;
};

Res cli(const std::string& tool, const Args& args, const std::string& in = "", const std::string& stdout_to = "")
{
    std::string base = scratch() + "/cli.";
    spew(base + "in", in);
    std::string outname = stdout_to.empty() ? base + "out" : stdout_to;
    if (stdout_to.empty())
        unlink(outname.c_str());
    pid_t pid = fork();
    if (pid == -1)
        throw std::runtime_error("cannot fork");
    if (!pid)
    {
        alarm(120);
        PyOS_AfterFork_Child();
        int i = open((base + "in").c_str(), O_RDONLY);
        int o = open(outname.c_str(), O_WRONLY | O_CREAT, 0666);
        int e = open((base + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        close(i);
        close(o);
        close(e);
        auto tov   = dataset::SessionTime::local_override(now());
        (new nag::StderrHandler)->install();
        auto pargs = PyList_New(0);
        for (auto& a : args)
            PyList_Append(pargs, PyUnicode_FromString(a.c_str()));
        auto r = PyObject_CallFunction(mc_main, "sO", tool.c_str(), pargs);
        if (!r)
            _exit(98);
        _exit(PyLong_AsLong(r));
    }
    int status;
    while (waitpid(pid, &status, 0) == -1 && errno == EINTR)
        ;
    Res res;
    res.code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
    if (stdout_to.empty() || stdout_to.compare(0, 5, "/dev/") != 0)
        res.out = slurp(outname);
    res.err = slurp(base + "err");
    if (getenv("MC_CLI")) fprintf(stderr, "%d %s | %s\n", res.code, join(args, " ").c_str(), res.err.c_str());
    if (res.code >= 98 && res.code != 120)
        throw mc::Fail("crash", cat(tool, " ", join(args, " "), " ends with ", res.code >= 1000 ? "a crash" : "an unexpected exception", ": ",
                                    quote(res.err.size() > 600 ? res.err.substr(res.err.size() - 600) : res.err)));
    return res;
}

// Parts of a task that would take too long
struct Part
{
    unsigned n = 0, which = 0;
    bool all   = true;
    Part(const std::vector<std::string>& f, unsigned idx)
    {
        if (f.size() > idx)
        {
            which = std::stoul(f[idx]);
            all   = false;
        }
    }
    bool skip() { return n++ % 8 != which && !all; }
};

/*
 * arki-query
 */

struct Out
{
    Args args;
    std::function<void(ProcessorMaker&)> set;
    std::string archive;
};

std::vector<Out> outs()
{
    typedef ProcessorMaker P;
    return {
        {{}, [](P&) {}, ""},
        {{"--yaml"}, [](P& p) { p.yaml = true; }, ""},
        {{"--dump", "--annotate"}, [](P& p) { p.yaml = p.annotate = true; }, ""},
        {{"--json"}, [](P& p) { p.json = true; }, ""},
        {{"--json", "--annotate"}, [](P& p) { p.json = p.annotate = true; }, ""},
        {{"--inline"}, [](P& p) { p.data_inline = true; }, ""},
        {{"--data"}, [](P& p) { p.data_only = true; }, ""},
        {{"--sort=day:-product,reftime"}, [](P& p) { p.sort = "day:-product,reftime"; }, ""},
        {{"--yaml", "--sort=-reftime"}, [](P& p) { p.yaml = true; p.sort = "-reftime"; }, ""},
        {{"--data", "--sort=month:area,-reftime"}, [](P& p) { p.data_only = true; p.sort = "month:area,-reftime"; }, ""},
        {{"--inline", "--sort=year:-product"}, [](P& p) { p.data_inline = true; p.sort = "year:-product"; }, ""},
        {{"--summary"}, [](P& p) { p.summary = true; }, ""},
        {{"--summary", "--yaml"}, [](P& p) { p.summary = p.yaml = true; }, ""},
        {{"--summary", "--json"}, [](P& p) { p.summary = p.json = true; }, ""},
        {{"--summary", "--yaml", "--annotate"}, [](P& p) { p.summary = p.yaml = p.annotate = true; }, ""},
        {{"--summary", "--yaml", "--summary-restrict=product,reftime"}, [](P& p) { p.summary = p.yaml = true; p.summary_restrict = "product,reftime"; }, ""},
        {{"--summary-short", "--yaml"}, [](P& p) { p.summary_short = p.yaml = true; }, ""},
        {{"--summary-short", "--json"}, [](P& p) { p.summary_short = p.json = true; }, ""},
        {{"--archive=tar"}, [](P&) {}, "tar"},
        {{"--archive=zip"}, [](P&) {}, "zip"},
    };
}

struct Sources
{
    std::string root;
    std::vector<std::shared_ptr<core::cfg::Section>> cfgs;
    Args args;  // how to name them on the command line
    Args config; // how to name them in options
};

std::string section_text(const std::string& name, const core::cfg::Section& s) { return "[" + name + "]\n" + s.to_string() + "\n"; }

// Two datasets and a file
struct Fixture
{
    std::string root;
    std::shared_ptr<core::cfg::Section> aa, bb, file;

    Fixture()
    {
        root   = fresh_scratch() + "/w";
        auto A = Conf::parse("type=iseg;fmt=grib;unique=reftime,product,area;step=daily");
        auto B = Conf::parse("type=simple;fmt=grib;unique=reftime,product,area;step=monthly");
        fs::create_directories(root + "/aa");
        fs::create_directories(root + "/bb");
        {
            World w(A, root + "/aa");
            import(w, {msg(A, 0), msg(A, 14), msg(A, 2), msg(A, 1)});
            World w1(B, root + "/bb");
            import(w1, {msg(B, 2), msg(B, 5), msg(B, 0), msg(B, 15)});
        }
        std::string data;
        for (unsigned i : {15, 1, 2, 14})
            data += msg(A, i).bytes();
        spew(root + "/data.grib", data);
        aa = A.section(root + "/aa", "aa");
        bb = B.section(root + "/bb", "bb");
        aa->set("restrict", "one, two");
        bb->set("restrict", "two three");
        spew(root + "/aa/config", aa->to_string());
        spew(root + "/bb/config", bb->to_string());
        spew(root + "/conf", section_text("aa", *aa) + section_text("bb", *bb));
        auto s = std::make_shared<dataset::Session>(false);
        file   = s->read_config(root + "/data.grib");
    }

    std::shared_ptr<dataset::Pool> pool(const std::vector<std::shared_ptr<core::cfg::Section>>& cfgs)
    {
        auto session = std::make_shared<dataset::Session>(false);
        auto pool    = std::make_shared<dataset::Pool>(session);
        for (auto& c : cfgs)
            pool->add_dataset(*c);
        return pool;
    }
};

std::string expected_query(std::shared_ptr<dataset::Pool> pool, const Out& o, const std::string& expr, bool merged, bool scan = false)
{
    ReleaseGIL rg;
    auto tov          = dataset::SessionTime::local_override(now());
    std::string fname = scratch() + "/expected";
    auto matcher      = pool->session()->matcher(expr);
    {
        auto f = std::make_shared<core::File>(fname, O_WRONLY | O_CREAT | O_TRUNC);
        ProcessorMaker pm;
        o.set(pm);
        pm.progress = std::make_shared<arki::query::Progress>();
        std::unique_ptr<arki::python::cmdline::DatasetProcessor> p;
        if (o.archive.empty())
            p = pm.make(matcher, StreamOutput::create(f));
        else
            p = ProcessorMaker::make_libarchive(matcher, StreamOutput::create(f), o.archive, pm.progress);
        if (merged)
        {
            auto ds = std::make_shared<dataset::merged::Dataset>(pool);
            auto r  = ds->create_reader();
            p->process(*r, ds->name());
        }
        else
            pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
                auto r = ds->create_reader();
                p->process(*r, r->name());
                return true;
            });
        p->end();
    }
    return slurp(fname);
}

bool is_summary(const Out& o) { return !o.args.empty() && o.args[0].compare(0, 9, "--summary") == 0; }

// Task: out index|source|mode
void query_task(Ctx& c, const std::string& task)
{
    auto f    = split(task, '|');
    auto o    = outs()[std::stoul(f[1])];
    Fixture x;
    std::vector<std::shared_ptr<core::cfg::Section>> cfgs;
    Args src, conf;
    auto path = [&](const char* n) { return x.root + "/" + n; };
    const auto& s = f[2];
    if (s == "aa") { cfgs = {x.aa}; src = {path("aa")}; }
    else if (s == "bb") { cfgs = {x.bb}; src = {path("bb")}; }
    else if (s == "aabb") { cfgs = {x.aa, x.bb}; src = {path("aa"), path("bb")}; }
    else if (s == "conf") { cfgs = {x.aa, x.bb}; conf = {"--config", path("conf")}; }
    else if (s == "confdir") { cfgs = {x.bb, x.aa}; conf = {"-C", path("bb")}; src = {path("aa")}; }
    else if (s == "r1") { cfgs = {x.aa}; conf = {"-C", path("conf"), "--restrict=one"}; }
    else if (s == "r2") { cfgs = {x.aa, x.bb}; conf = {"-C", path("conf"), "--restrict=four,two"}; }
    else if (s == "r3") { cfgs = {x.bb}; conf = {"--restrict", "three"}; src = {path("aa"), path("bb")}; }
    else if (s == "file") { cfgs = {x.file}; src = {path("data.grib")}; }
    else if (s == "fileaa") { cfgs = {x.file, x.aa}; src = {path("data.grib"), path("aa")}; }
    bool merged = f[3] == "merged";
    auto before = data_digest(x.root);
    for (const char* expr : {"", "reftime:>=2020-01-01 12:00:00,<=2020-01-15", "reftime:=2020-01; product:GRIB1,200,140,1", "reftime:=2031"})
        for (int variant = 0; variant < 4; ++variant)
        {
            // All ways of saying it, on all of the tasks
            if (!mc::args.thorough && unsigned(variant % 2) != (mc::hash(task) + strlen(expr)) % 2)
                continue;
            Args args = o.args + conf;
            if (merged)
                args.push_back("--merged");
            std::string to;
            if (variant & 1)
            {
                to = scratch() + "/result";
                spew(to, "something that was there before");
                args = args + Args{"-o", to};
            }
            else if (variant & 2)
                args = args + Args{mc::hash(task + expr) & 1 ? "--output=-" : "-o-"};
            if (variant & 2)
            {
                // On more lines than one
                std::string lines = std::string(expr) + "\n";
                for (auto& c : lines)
                    if (c == ' ' && strchr(expr, ';'))
                        c = '\n';
                spew(scratch() + "/expr", lines);
                args = args + Args{"--file", scratch() + "/expr"} + src;
            }
            else
                args = args + Args{expr} + src;
            auto what = "arki-query " + join(args, " ");
            c.current(what);
            Res r;
            std::string expected;
            for (int i = 0; i < 5; ++i)
            {
                expected = expected_query(x.pool(cfgs), o, expr, merged);
                r        = cli("arki-query", args);
                // There is the current time in archives
                if (o.archive.empty() || (to.empty() ? r.out : slurp(to)) == expected)
                    break;
            }
            c.eval();
            if (r.code)
                throw mc::Fail("query-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
            auto got = to.empty() ? r.out : slurp(to);
            if (!to.empty() && !r.out.empty())
                throw mc::Fail("query-stdout", cat(what, " writes also to standard output: ", tail(r.out)));
            if (comparable(got, is_summary(o)) != comparable(expected, is_summary(o)))
                throw mc::Fail("query-output", cat(what, ": the output is different from what the library gives, ", first_difference(got, expected)));
            c.distinct_hash(mc::hash(got));
        }
    if (auto after = data_digest(x.root); before != after)
        throw mc::Fail("query-changes", cat("queries have changed the data: ", first_difference(after, before)));
}

// Query macros, and postprocessors
// Task: out index
void macro_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    auto o = outs()[std::stoul(f[1])];
    Fixture x;
    auto path = [&](const std::string& n) { return x.root + "/" + n; };
    auto before = data_digest(x.root);
    auto check  = [&](const Args& args, const std::string& expected) {
        auto what = "arki-query " + join(args, " ");
        c.current(what);
        c.eval();
        auto r = cli("arki-query", args);
        if (r.code)
            throw mc::Fail("query-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
        if (comparable(r.out, is_summary(o)) != comparable(expected, is_summary(o)))
            throw mc::Fail("query-output", cat(what, ": the output is different from what the library gives, ", first_difference(r.out, expected)));
        c.distinct_hash(mc::hash(r.out));
    };
    bool sorted = false;
    for (auto& a : o.args)
        if (a.compare(0, 7, "--sort=") == 0)
            sorted = true;
    if (o.archive.empty() && !sorted)
        for (auto ds : {"aa", "bb"})
        {
            auto e = expected_query(x.pool({ds == std::string("aa") ? x.aa : x.bb}), o, "", false);
            for (auto macro : {"--qmacro=noop", "--qmacro=noop 2020-01-01", "--qmacro=noopcopy"})
            {
                check(o.args + Args{macro, "-C", path("conf"), ds}, e);
                spew(scratch() + "/expr", std::string(ds));
                check(o.args + Args{"--file", scratch() + "/expr", macro, path("bb"), path("aa")}, e);
            }
        }
    if (f[1] == "0")
    {
        Out inl{{}, [](ProcessorMaker& p) { p.data_inline = true; }, ""};
        for (std::string s : {"aa", "bb", "data.grib"})
            for (const char* expr : {"", "reftime:=2020-01-01", "reftime:=2031"})
            {
                auto cfg = s == "aa" ? x.aa : s == "bb" ? x.bb : x.file;
                auto e   = expected_query(x.pool({cfg}), inl, expr, false);
                check({"--postproc=cat", expr, path(s)}, e);
                check({"--postproc=count one two", expr, path(s)}, cat("one two:", e.size(), "\n"));
                if (*expr || s == "data.grib")
                    continue;
                check({"--postproc=cat", "--qmacro=noop", "-C", path("conf"), s}, e);
                check({"--postproc=count x", "--qmacro=noopcopy", "-C", path("conf"), s}, cat("x:", e.size(), "\n"));
            }
        spew(path("p1"), "one");
        spew(path("p2"), "three");
        check({"--postproc=files", "--postproc-data=" + path("p1"), "", path("aa")}, path("p1") + "\n");
        check({"--postproc=files", "--postproc-data=" + path("p2"), "--postproc-data", path("p1"), "", path("aa")}, path("p2") + ":" + path("p1") + "\n");
        for (auto n : {"p1", "p2"})
            unlink(path(n).c_str());
        // Errors
        auto refused = [&](const Args& args, const std::string& why) {
            auto what = "arki-query " + join(args, " ");
            c.current(what);
            c.eval();
            auto r = cli("arki-query", args);
            if (!r.code || r.err.empty())
                throw mc::Fail("query-refuse", cat(what, " exits with ", r.code, ", but ", why, ": ", tail(r.err)));
        };
        refused({"--postproc=fail", "", path("aa")}, "the postprocessor fails");
        refused({"--postproc=nothing", "", path("aa")}, "there is no such postprocessor");
        refused({"--qmacro=nothing", "-C", path("conf"), "aa"}, "there is no such macro");
        refused({"--qmacro=noop", "-C", path("conf"), "zz"}, "there is no such dataset");
        refused({"--qmacro=noopcopy", "--data", "-C", path("conf"), "zz"}, "there is no such dataset");
        refused({"--qmacro=expa", "-C", path("conf"), "this is not for it"}, "the query is not right");
        refused({"--qmacro=expa wrong", "-C", path("conf"), ""}, "the date is not a date");
        refused({"--qmacro=expa", "--data", "-C", path("conf"), "ds:aa. d:2031-01-01. t:0000. s:GRIB1. l:GRIB1. v:GRIB1."}, "there is no such data");
        refused({"--qmacro=expa", "--data", "-C", path("conf"), "ds:aa. d:@. t:0000. s:GRIB1. l:GRIB1. v:GRIB1."}, "there is no date");
        auto s = slurp(path("conf"));
        auto p = s.find("[bb]");
        spew(path("conf-post"), s.substr(0, p) + "postprocess=count\n" + s.substr(p));
        check({"--postproc=count y", "-C", path("conf-post"), "--restrict=one", ""}, cat("y:", expected_query(x.pool({x.aa}), inl, "", false).size(), "\n"));
        refused({"--postproc=cat", "-C", path("conf-post"), "--restrict=one", ""}, "the postprocessor is not allowed");
        unlink(path("conf-post").c_str());
    }
    if (auto after = data_digest(x.root); before != after)
        throw mc::Fail("query-changes", cat("queries have changed the data: ", first_difference(after, before)));
}

std::string without_sources(const std::string& s)
{
    std::string res;
    for (auto& l : split(s, '\n'))
        if (l.compare(0, 7, "Source:") != 0)
            res += l + "\n";
    return res;
}

// From standard input, with arki-query and arki-scan; and files with arki-scan
void stdin_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    auto o = outs()[std::stoul(f[1])];
    Fixture x;
    auto data = slurp(x.root + "/data.grib");
    bool yaml = std::find(o.args.begin(), o.args.end(), "--yaml") != o.args.end() || std::find(o.args.begin(), o.args.end(), "--dump") != o.args.end();
    bool json = std::find(o.args.begin(), o.args.end(), "--json") != o.args.end();
    // Where the data is goes in the output
    bool binary = !yaml && (o.args.empty() || (o.args.size() == 1 && o.args[0].compare(0, 6, "--sort") == 0) || (json && o.args[0] == "--json"));
    auto compare = [&](const std::string& what, const Res& r, const std::string& expected, bool file) {
        c.eval();
        if (r.code)
            throw mc::Fail("stdin-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
        bool same;
        if (is_summary(o))
            same = comparable(r.out, true) == comparable(expected, true);
        else if (file)
            same = r.out == expected;
        else if (binary || !o.archive.empty())
            same = !r.out.empty() == !expected.empty(); // where the data is goes in the output
        else if (yaml)
            same = without_sources(r.out) == without_sources(expected);
        else
            same = r.out == expected;
        if (!same)
            throw mc::Fail(file ? "scan-output" : "stdin-output", cat(what, ": ", first_difference(r.out, expected)));
        c.distinct_hash(mc::hash(r.out));
    };
    if (!o.archive.empty() || json)
        ;
    else
        for (const char* expr : {"", "reftime:>=2020-01-01 12:00:00,<=2020-01-10"})
        {
            auto what = cat("arki-query --stdin=grib ", join(o.args, " "), " '", expr, "'");
            c.current(what);
            compare(what, cli("arki-query", o.args + Args{"--stdin=grib", expr}, data), expected_query(x.pool({x.file}), o, expr, false), false);
        }
    if (o.archive.empty() && !json)
    {
        auto what = cat("arki-scan --stdin=grib ", join(o.args, " "));
        c.current(what);
        compare(what, cli("arki-scan", o.args + Args{"--stdin=grib"}, data), expected_query(x.pool({x.file}), o, "", false), false);
    }
    for (int v = 0; v < 3; ++v)
    {
        Args src{x.root + "/data.grib"};
        std::vector<std::shared_ptr<core::cfg::Section>> cfgs{x.file};
        if (v == 1)
        {
            src.push_back(x.root + "/bb");
            cfgs.push_back(x.bb);
        }
        if (v == 2)
        {
            spew(scratch() + "/list", x.root + "/data.grib\n" + x.root + "/aa\n");
            cfgs.push_back(x.aa);
            cfgs.push_back(x.bb);
            src = {"--files", scratch() + "/list", x.root + "/bb"};
        }
        auto what = cat("arki-scan ", join(o.args + src, " "));
        c.current(what);
        Res r;
        std::string expected;
        for (int i = 0; i < 5; ++i)
        {
            expected = expected_query(x.pool(cfgs), o, "", false);
            r        = cli("arki-scan", o.args + src);
            if (o.archive.empty() || r.out == expected)
                break;
        }
        compare(what, r, expected, true);
    }
}

// Options that contradict each other, and errors
void refuse_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Fixture x;
    auto path      = [&](const std::string& n) { return x.root + "/" + n; };
    std::string to = scratch() + "/result";
    auto before    = data_digest(x.root);
    Part part(f, 2);
    auto refused   = [&](const std::string& tool, const Args& args, int code, const std::string& why, const std::string& in = "") {
        if (part.skip())
            return;
        unlink(to.c_str());
        auto what = tool + " " + join(args, " ");
        c.current(what);
        auto r = cli(tool, args, in);
        c.eval();
        c.distinct(cat(tool, r.code, r.err.substr(r.err.size() > 60 ? r.err.size() - 60 : 0)));
        if (code > 0 ? r.code != code : !r.code)
            throw mc::Fail("refuse", cat(what, " exits with ", r.code, " instead of ", code > 0 ? std::to_string(code) : "an error", ": ", why));
        if (!r.out.empty())
            throw mc::Fail("refuse-output", cat(what, " fails, and writes ", tail(r.out)));
        if (r.err.empty())
            throw mc::Fail("refuse-silent", what + " fails without telling why");
        if (code == 64 && fs::exists(to))
            throw mc::Fail("refuse-output-file", what + " is not valid, but the output file has been created");
    };
    if (f[1] == "pairs")
    {
        // All pairs of output options
        std::vector<std::pair<std::string, unsigned>> options{{"--yaml", 0}, {"--json", 1}, {"--annotate", 2}, {"--inline", 3}, {"--data", 4}, {"--postproc=cat", 5}, {"--archive=tar", 6}, {"--summary", 7}, {"--summary-short", 8}, {"--sort=day:product", 9}};
        // Groups where at most one can be used
        std::vector<std::set<unsigned>> groups{{3, 7, 8, 4, 5, 6}, {3, 4, 5, 6, 0, 1}, {3, 4, 5, 6, 2}, {9, 7, 8}};
        for (auto& a : options)
            for (auto& b : options)
            {
                if (a.second == b.second)
                    continue;
                bool bad = false;
                for (auto& g : groups)
                    bad = bad || (g.count(a.second) && g.count(b.second));
                for (const char* tool : {"arki-query", "arki-scan"})
                {
                    Args args{a.first, b.first, "-o", to};
                    if (tool == std::string("arki-query"))
                        args.push_back("");
                    args.push_back(path("aa"));
                    if (bad)
                        refused(tool, args, 64, "the options contradict each other");
                    else if (a.second != 5 && b.second != 5)
                    {
                        if (part.skip())
                            continue;
                        unlink(to.c_str());
                        auto r = cli(tool, args);
                        c.eval();
                        if (r.code || slurp(to).empty())
                            throw mc::Fail("pair", cat(tool, " ", join(args, " "), " exits with ", r.code, " and gives ", slurp(to).size(), " bytes: ", tail(r.err)));
                    }
                }
            }
        for (const char* tool : {"arki-query", "arki-scan"})
        {
            Args q = tool == std::string("arki-query") ? Args{""} : Args{};
            refused(tool, Args{"--summary-restrict=product", "-o", to} + q + Args{path("aa")}, 64, "--summary-restrict needs --summary");
            refused(tool, Args{"--postproc-data=/dev/null", "-o", to} + q + Args{path("aa")}, 64, "--postproc-data needs --postproc");
        }
    }
    else if (f[1] == "args")
    {
        refused("arki-query", {}, 64, "nothing to query");
        refused("arki-query", {"-o", to, "reftime:=2020"}, 64, "no source");
        refused("arki-query", {"-o", to, "--stdin=grib", "", path("aa")}, 64, "both a source and --stdin");
        refused("arki-query", {"-o", to, "--stdin=grib", "-C", path("conf"), ""}, 64, "both --config and --stdin");
        refused("arki-query", {"-o", to, "--stdin=grib", "--restrict=one", ""}, 64, "both --restrict and --stdin");
        refused("arki-query", {"-o", to, "--stdin=grib", "--qmacro=noop", ""}, 64, "both --qmacro and --stdin");
        refused("arki-query", {"-o", to, "-C", path("conf")}, 64, "no expression");
        refused("arki-query", {"-o", to, "-C", path("conf"), "--restrict=none", ""}, 64, "no dataset for this restrict");
        refused("arki-query", {"-o", to, "-C", path("conf"), "--postproc=cat", ""}, 64, "postprocessing of two datasets");
        refused("arki-scan", {"-o", to}, 64, "no source");
        refused("arki-scan", {"-o", to, "-"}, 64, "use --stdin");
        refused("arki-scan", {"-o", to, "--stdin=grib", path("aa")}, 64, "both a source and --stdin");
        refused("arki-scan", {"-o", to, "--stdin=grib", "--files=" + path("conf")}, 64, "both --files and --stdin");
        refused("arki-scan", {"-o", to, "--stdin=grib", "--dispatch=" + path("conf")}, 64, "--stdin with --dispatch");
        refused("arki-scan", {"-o", to, "--stdin=grib", "--testdispatch=" + path("conf")}, 64, "--stdin with --testdispatch");
        refused("arki-check", {}, 64, "no dataset");
        refused("arki-check", {"-C", path("conf"), "--restrict=none"}, 64, "no dataset for this restrict");
        refused("arki-check", {"--restrict=none", path("aa")}, 64, "no dataset for this restrict");
        Args actions{"--repack", "--remove-old", "--remove-all", "--tar", "--zip", "--compress", "--remove=" + path("conf"), "--unarchive=x", "--state", "--issue51"};
        for (auto& a : actions)
            for (auto& b : actions)
                if (a != b)
                    refused("arki-check", {path("aa"), "--fix", a, b}, 64, "two actions");
        for (const char* o : {"--no-such-option", "--sort"})
            for (const char* tool : {"arki-query", "arki-scan", "arki-check"})
                refused(tool, {"", path("aa"), o}, 64, "unknown or incomplete option");
        Args dumps{"--query", "--aliases", "--info", "--bbox", "--from-yaml-data", "--from-yaml-summary", "--annotate", "--doc-metadata"};
        for (auto& a : dumps)
            for (auto& b : dumps)
                if (a != b)
                    refused("arki-dump", {a, b, path("data.grib")}, 64, "two actions");
        refused("arki-dump", {"--query"}, 64, "no query");
        refused("arki-dump", {"--config", path("aa")}, 64, "not supported");
        refused("arki-mergeconf", {}, 0, "nothing to merge");
        refused("arki-mergeconf", {"--restrict=none", path("aa")}, 0, "nothing is left");
        spew(path("bad.conf"), "[cc]\ntype = simple\npath = " + path("aa") + "\nfilter = reftime:nonsense\nstep = daily\n");
        refused("arki-mergeconf", {"-C", path("bad.conf"), "-o", to}, 0, "the filter is not valid");
        fs::create_directories(path("cc"));
        spew(path("cc/config"), "type = simple\npath = " + path("cc") + "\nfilter = reftime:nonsense\nstep = daily\n");
        refused("arki-mergeconf", {path("cc")}, 0, "the filter is not valid");
        rmtree(path("cc"));
        unlink(path("bad.conf").c_str());
    }
    else if (f[1] == "errors")
    {
        for (const char* e : {"nonsense", "reftime:foo", "product", ":", "reftime:>=2020-13-01"})
        {
            refused("arki-query", {e, path("aa")}, 0, "the expression is not valid");
            spew(scratch() + "/expr", e);
            refused("arki-query", {"--file", scratch() + "/expr", path("aa")}, 0, "the expression is not valid");
            refused("arki-dump", {"--query", e}, 0, "the expression is not valid");
            refused("arki-check", {path("aa"), "-f", "-r", "--filter", e}, 0, "the expression is not valid");
        }
        for (const char* s : {"no-such-file", "no-such-dir/", "nodir/no.grib", "conf/x"})
        {
            refused("arki-query", {"", path(s)}, 0, "there is no such source");
            refused("arki-scan", {path(s)}, 0, "there is no such source");
            refused("arki-check", {path(s)}, 0, "there is no such source");
            refused("arki-check", {"-C", path(s)}, 0, "there is no such source");
            refused("arki-mergeconf", {path(s)}, 0, "there is no such source");
            refused("arki-query", {"", "-C", path(s)}, 0, "there is no such source");
            refused("arki-query", {"--file", path(s), path("aa")}, 0, "there is no such source");
            refused("arki-scan", {"--files", path(s)}, 0, "there is no such source");
            refused("arki-dump", {path(s)}, 0, "there is no such source");
            refused("arki-scan", {path("data.grib"), "--dispatch", path(s)}, 0, "there is no such configuration");
            refused("arki-xargs", {"-i", path(s), "cat"}, 0, "there is no such source");
            refused("arki-check", {"--remove", path(s), "-f", path("aa")}, 0, "there is no such file");
            // The same with one that is good
            refused("arki-query", {"", path("aa"), path(s)}, 0, "there is no such source");
        }
        refused("arki-query", {"", "--sort=foo", path("aa")}, 0, "the sort order is not valid");
        refused("arki-query", {"", "--sort=day:foo", path("aa")}, 0, "the sort order is not valid");
        refused("arki-query", {"", "--summary", "--summary-restrict=foo", path("aa")}, 0, "the types are not valid");
        refused("arki-query", {"", "--archive=foo", path("aa")}, 0, "the archive format is not valid");
        refused("arki-query", {"", "--stdin=foo"}, 0, "the format is not valid");
        refused("arki-query", {"", "-o", path("nodir/x"), path("aa")}, 0, "the output cannot be created");
        refused("arki-query", {"", "--qmacro=nonsense", "-C", path("conf")}, 0, "there is no such macro");
        refused("arki-scan", {path("data.grib"), "--dispatch", path("conf"), "--validate=nonsense"}, 0, "there is no such validator");
        refused("arki-scan", {path("data.grib"), "--dispatch", path("conf"), "--validate=daily_import,nonsense"}, 0, "there is no such validator");
        refused("arki-scan", {path("data.grib"), "--dispatch", path("conf"), "--flush-threshold=12XX"}, 0, "the size is not valid");
        // Output that cannot be written
        for (auto& o : outs())
            for (int v = 0; v < 2; ++v)
            {
                Args args = o.args + Args{""};
                if (v)
                    args = args + Args{"-o", "/dev/full"};
                args.push_back(path("aa"));
                if (part.skip())
                    continue;
                c.current(join(args, " "));
                auto r = cli("arki-query", args, "", "/dev/full");
                c.eval();
                if (!r.code)
                    throw mc::Fail("full", cat("arki-query ", join(args, " "), " with no space left for its output does not fail"));
            }
    }
    else if (f[1] == "broken")
    {
        // Data that is not there anymore in one of the datasets
        auto session = std::make_shared<dataset::Session>(false);
        for (const char* which : {"aa", "bb"})
        {
            Fixture y;
            std::vector<std::string> segs;
            for (auto& e : fs::recursive_directory_iterator(y.root + "/" + which))
                if (e.path().extension() == ".grib")
                    segs.push_back(e.path().native());
            for (auto& s : segs)
                fs::resize_file(s, fs::file_size(s) - 5);
            std::string good = which == std::string("aa") ? "bb" : "aa";
            for (auto& o : outs())
            {
                if (o.args.empty() || (o.args[0] != "--data" && o.args[0] != "--inline"))
                    continue;
                for (int merged = 0; merged < 2; ++merged)
                for (bool both : {false, true})
                {
                    Args args = o.args + Args{"", y.root + "/" + which};
                    if (merged)
                        args.push_back("--merged");
                    if (both)
                        args.push_back(y.root + "/" + good);
                    c.current(join(args, " "));
                    auto r = cli("arki-query", args);
                    c.eval();
                    if (!r.code)
                        throw mc::Fail("broken", cat("arki-query ", join(args, " "), ": data that cannot be read is not reported"));
                    if (!merged)
                    {
                        // The same with arki-scan, whatever the order
                        Args a = o.args;
                        if (both)
                            a.push_back(y.root + "/data.grib");
                        a.push_back(y.root + "/" + which);
                        if (both)
                            a.push_back(y.root + "/" + good);
                        auto r1 = cli("arki-scan", a);
                        c.eval();
                        if (!r1.code)
                            throw mc::Fail("broken-scan", cat("arki-scan ", join(a, " "), ": data that cannot be read is not reported"));
                        if (both)
                            for (auto& cfg : {y.file, good == "aa" ? y.aa : y.bb})
                                if (r1.out.find(expected_query(y.pool({cfg}), o, "", false)) == std::string::npos)
                                    throw mc::Fail("broken-other", cat("arki-scan ", join(a, " "), ": data of others is missing when ", which, " cannot be read"));
                    }
                    if (both && !merged)
                    {
                        auto e = expected_query(y.pool({good == "aa" ? y.aa : y.bb}), o, "", false);
                        if (r.out.find(e) == std::string::npos)
                            throw mc::Fail("broken-other", cat("arki-query ", join(args, " "), ": data of ", good, " is missing when ", which, " cannot be read"));
                    }
                }
            }
        }
    }
    if (f[1] == "errors" && before != data_digest(x.root))
        throw mc::Fail("refuse-changes", "something has been changed by commands that fail");
}

/*
 * arki-check
 */

struct Action
{
    std::string name;
    Args args;
    bool def_online, def_offline;
    std::function<void(dataset::Checker&, dataset::CheckerConfig&)> run;
};

std::vector<Action> actions()
{
    typedef dataset::Checker& C;
    typedef dataset::CheckerConfig& O;
    return {
        {"ck", {}, true, true, [](C c, O o) { c.check(o); }},
        {"cka", {"--accurate"}, true, true, [](C c, O o) { o.accurate = true; c.check(o); }},
        {"rp", {"--repack"}, true, false, [](C c, O o) { c.repack(o); }},
        {"ra", {"--remove-all"}, true, false, [](C c, O o) { c.remove_all(o); }},
        {"ro", {"--remove-old"}, true, false, [](C c, O o) { c.remove_old(o); }},
        {"tar", {"--tar"}, false, true, [](C c, O o) { c.tar(o); }},
        {"zip", {"--zip"}, false, true, [](C c, O o) { c.zip(o); }},
        {"gz", {"--compress"}, false, true, [](C c, O o) { c.compress(o, 512); }},
        {"gz1", {"--compress=1"}, false, true, [](C c, O o) { c.compress(o, 1); }},
        {"gz0", {"--compress=0"}, false, true, [](C c, O o) { c.compress(o, 0); }},
        {"st", {"--state"}, true, true, [](C c, O o) { c.state(o); }},
        {"is51", {"--issue51"}, true, true, [](C c, O o) { c.check_issue51(o); }},
    };
}

void normalise(const std::string& root)
{
    for (auto& i : tree_contents(root))
        if (i.second.compare(0, 2, "SU") == 0)
            spew(root + "/" + i.first, comparable(i.second, true));
}

// Task: chk|conf|ops|action
void check_task(Ctx& c, const std::string& task)
{
    auto f    = split(task, '|');
    auto conf = Conf::parse(f[1]);
    auto root = fresh_scratch();
    auto w    = root + "/w/ds";
    fs::create_directories(w);
    {
        // What is too old cannot be imported
        World world(Conf::parse(f[1].substr(0, f[1].find(";archive"))), w);
        for (auto& op : split(f[2], ' '))
            if (!op.empty() && op[0] != '!')
                mc::ds::apply(world, op);
    }
    age(w, 100);
    for (auto& op : split(f[2], ' '))
        if (op == "!junk")
        {
            for (auto& e : fs::recursive_directory_iterator(w))
                if (e.is_regular_file() && e.path().extension() == ".grib")
                {
                    spew(e.path().native(), slurp(e.path().native()) + "junk");
                    break;
                }
        }
        else if (op == "!bad")
        {
            for (auto& e : fs::recursive_directory_iterator(w))
                if (e.is_regular_file() && e.path().extension() == ".grib")
                {
                    auto t = fs::last_write_time(e.path());
                    auto d = slurp(e.path().native());
                    d.replace(0, 4, "BIRG");
                    spew(e.path().native(), d);
                    fs::last_write_time(e.path(), t);
                    break;
                }
        }
        else if (op == "!drop")
        {
            std::vector<std::string> l;
            for (auto& e : fs::recursive_directory_iterator(w))
                if (e.path().extension() == ".index" || e.path().extension() == ".metadata" || e.path().extension() == ".summary")
                    if (e.path().native().find("/.archive/") == std::string::npos)
                        l.push_back(e.path().native());
            for (auto& p : l)
                unlink(p.c_str());
        }
    auto sec = conf.section(w, "ds");
    sec->set("restrict", "mine");
    if (conf.dirs)
        throw std::logic_error("mc: this needs the configuration of a dataset only");
    spew(root + "/w/conf", section_text("ds", *sec));
    spew(root + "/w/dsconf", sec->to_string());
    copytree(root + "/w", root + "/saved");
    auto restore = [&] {
        rmtree(root + "/w");
        copytree(root + "/saved", root + "/w");
    };
    Action act;
    for (auto& a : actions())
        if (a.name == f[3])
            act = a;
    auto original = data_digest(root + "/w");
    for (int fix = 0; fix < 2; ++fix)
        for (int sel = 0; sel < 4; ++sel)
            for (const char* filter : {"", "reftime:=2020-01-02", "reftime:>=2020-01", "reftime:=2031"})
            {
                if (!mc::args.thorough && *filter && sel != (filter[8] == '>' ? 3 : 0))
                    continue;
                Args args = act.args;
                if (fix)
                    args.push_back(sel & 1 ? "-f" : "--fix");
                if (sel & 1)
                    args.push_back("--online");
                if (sel & 2)
                    args.push_back("--offline");
                if (*filter)
                    args = args + Args{"--filter", filter};
                if (sel & 2)
                    args.push_back("--restrict=mine");
                args = args + Args{"-C", root + "/w/conf"};
                auto what = cat(f[1], " ", f[2], ": arki-check ", join(args, " "));
                c.current(what);
                // What the library does
                restore();
                std::ostringstream report;
                bool threw = false;
                {
                    auto tov     = dataset::SessionTime::local_override(now());
                    auto session = std::make_shared<dataset::Session>(false);
                    auto checker = session->dataset(*sec)->create_checker();
                    auto rep     = std::make_shared<dataset::OstreamReporter>(report);
                    dataset::CheckerConfig cc(rep, !fix);
                    cc.online  = sel ? sel & 1 : act.def_online;
                    cc.offline = sel ? sel & 2 : act.def_offline;
                    if (*filter)
                        cc.segment_filter = session->matcher(filter);
                    try
                    {
                        act.run(*checker, cc);
                    }
                    catch (std::exception&)
                    {
                        threw = true;
                    }
                }
                normalise(root + "/w");
                auto expected = state_digest(root + "/w");
                auto expected_tree = tree_contents(root + "/w");
                restore();
                auto r = cli("arki-check", args);
                c.eval();
                if (r.code != (threw ? 1 : 0))
                    throw mc::Fail("check-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
                if (!fix && data_digest(root + "/w") != original)
                    {
                    std::string diff;
                    auto a = tree_contents(root + "/saved"), b = tree_contents(root + "/w");
                    for (auto& i : b)
                        if (!a.count(i.first) || a[i.first] != i.second)
                            diff += " " + i.first;
                    for (auto& i : a)
                        if (!b.count(i.first))
                            diff += " -" + i.first;
                    throw mc::Fail("check-readonly", what + " changes the dataset without --fix:" + diff);
                }
                normalise(root + "/w");
                if (state_digest(root + "/w") != expected)
                    {
                    std::string diff;
                    auto b = tree_contents(root + "/w");
                    for (auto& i : b)
                        if (!expected_tree.count(i.first))
                            diff += " +" + i.first;
                        else if (expected_tree[i.first] != i.second)
                            diff += " " + i.first + " " + first_difference(i.second, expected_tree[i.first]);
                    for (auto& i : expected_tree)
                        if (!b.count(i.first))
                            diff += " -" + i.first;
                    throw mc::Fail("check-result", what + " does something different than expected:" + diff);
                }
                if (!threw && r.out != report.str())
                    throw mc::Fail("check-report", cat(what, " does not report what is expected, ", first_difference(r.out, report.str())));
                c.distinct(cat(expected, r.out));
                c.extra(fix ? 1 : 0, 1);
            }
}

// --remove and --unarchive
void remove_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Part part(f, 1);
    for (unsigned set = 0; set < 16; ++set)
        for (int fix = 0; fix < 2; ++fix)
        {
            if (part.skip())
                continue;
            Fixture x;
            auto A = Conf::parse("type=iseg;fmt=grib;unique=reftime,product,area;step=daily");
            auto B = Conf::parse("type=simple;fmt=grib;unique=reftime,product,area;step=monthly");
            // Take metadata with arki-query, some of each dataset
            std::vector<unsigned> ina{0, 14, 2, 1}, inb{2, 5, 0, 15};
            std::vector<Msg> keepa, keepb;
            std::string md, lst = x.root + "/remove";
            auto take = [&](const std::string& ds, const Conf& conf, unsigned idx) {
                auto w = std::make_shared<World>(conf, x.root + "/" + ds);
                // Output of a query, of which the wanted data are kept
                auto tov = dataset::SessionTime::local_override(now());
                metadata::Collection mds(*x.pool({ds == "aa" ? x.aa : x.bb})->dataset(ds), "");
                for (auto& m : mds)
                {
                    auto want = msg(conf, idx).inlined();
                    if (items(*m) == items(*want))
                    {
                        std::vector<uint8_t> buf;
                        auto out = StreamOutput::create(buf);
                        m->make_absolute();
                        m->write(*out);
                        md += std::string(buf.begin(), buf.end());
                        return;
                    }
                }
                throw std::logic_error("mc: message not found");
            };
            for (unsigned i = 0; i < 2; ++i)
            {
                if (set & (1 << i)) take("aa", A, ina[i]);
                if (set & (4 << i)) take("bb", B, inb[i]);
            }
            for (unsigned i = 0; i < 4; ++i)
            {
                bool gone = i < 2 && fix;
                if (!(gone && (set & (1 << i)))) keepa.push_back(msg(A, ina[i]));
                if (!(gone && (set & (4 << i)))) keepb.push_back(msg(B, inb[i]));
            }
            spew(lst, md);
            auto before = tree_digest(x.root);
            Args args{"-C", x.root + "/conf", "--remove", lst};
            if (fix)
                args.push_back("--fix");
            auto what = cat("set ", set, ": arki-check ", join(args, " "));
            c.current(what);
            auto r = cli("arki-check", args);
            c.eval();
            if (r.code)
                throw mc::Fail("remove-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
            if (!fix && tree_digest(x.root) != before)
                throw mc::Fail("remove-readonly", what + " changes the datasets without --fix");
            for (auto ds : {"aa", "bb"})
            {
                auto& conf = ds == std::string("aa") ? A : B;
                auto keep  = ds == std::string("aa") ? keepa : keepb;
                World w(conf, x.root + "/" + ds);
                auto v   = visible(w);
                std::multiset<std::string> e, g;
                for (auto& m : keep) e.insert(m.id());
                for (auto& m : v) g.insert(m.id());
                if (e != g)
                    throw mc::Fail("remove-result", cat(what, ": ", ds, " has ", g.size(), " items, and ", e.size(), " are expected"));
                c.distinct(cat(ds, set, fix));
            }
        }
}

/*
 * arki-scan --dispatch
 */

struct Input
{
    std::string name, letters;
};

struct Count
{
    unsigned ok = 0, dup = 0, err = 0;
};

void dispatch_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    std::vector<Input> inputs{{"f1.grib", f[1]}};
    if (f[2] != "-")
        inputs.push_back({"f2.grib", f[2]});
    auto A = Conf::parse("type=iseg;fmt=grib;unique=reftime,product,area;step=daily");
    auto B = Conf::parse("type=simple;fmt=grib;unique=reftime,product,area;step=monthly");
    auto I = std::map<char, unsigned>{{'O', 2}, {'P', 15}, {'D', 0}, {'E', 5}, {'Q', 14}};
    for (unsigned opts = 0; opts < 96; ++opts)
    {
        bool moves = opts & 1, work = opts & 2, copies = opts & 4, igndup = opts & 8, flush = opts & 16;
        int mode = opts / 32; // 0: metadata, 1: yaml on a file, 2: test
        if (!mc::args.thorough && f[2] != "-" && ((flush && mode != 1) || copies || mode == 2))
            continue;
        if (mode >= 2 && (flush || moves || work || copies))
            continue;
        // Data that is too old for a validator
        bool validate = mode == 1 && flush;
        if (validate)
            flush = false;
        auto root = fresh_scratch();
        for (auto d : {"aa", "bb", "error", "duplicates", "in", "ok", "ko", "work", "copyok", "copyko"})
            fs::create_directories(root + "/" + d);
        auto aa = A.section(root + "/aa", "aa");
        auto bb = B.section(root + "/bb", "bb");
        aa->set("filter", "reftime:<=2020-01-10");
        bb->set("filter", "reftime:>2020-01-10,<2020-02-01");
        {
            World w(A, root + "/aa");
            import(w, {msg(A, 0)});
        }
        auto err = Conf::parse("type=simple;fmt=grib;unique=;step=daily").section(root + "/error", "error");
        err->set("type", "error");
        auto dup = Conf::parse("type=simple;fmt=grib;unique=;step=daily").section(root + "/duplicates", "duplicates");
        dup->set("type", "duplicates");
        spew(root + "/conf", section_text("aa", *aa) + section_text("bb", *bb) + section_text("error", *err) + section_text("duplicates", *dup));
        std::set<std::string> stored{msg(A, 0).id()};
        std::multiset<std::string> got_a{msg(A, 0).bytes()}, got_b, got_e, got_d;
        std::map<std::string, Count> counts;
        std::map<std::string, std::string> copyok, copyko, bytes;
        std::vector<std::string> all;
        bool success = true, garbage = false;
        std::map<std::string, bool> ok_by_file;
        Args args;
        for (auto& i : inputs)
        {
            auto& n = counts[i.name];
            for (char l : i.letters)
            {
                if (l == 'G')
                {
                    bytes[i.name] += "this is not what was expected";
                    garbage = true;
                    continue;
                }
                auto m = msg(A, I[l]);
                bytes[i.name] += m.bytes();
                all.push_back(m.bytes());
                if (l == 'E' || validate)
                {
                    ++n.err;
                    got_e.insert(m.bytes());
                    copyko[i.name] += m.bytes();
                }
                else if (l != 'P' && !stored.insert(m.id()).second) // simple datasets do not know
                {
                    ++n.dup;
                    got_d.insert(m.bytes());
                    copyko[i.name] += m.bytes();
                }
                else
                {
                    ++n.ok;
                    (m.t <= "2020-01-10T23:59:59Z" ? got_a : got_b).insert(m.bytes());
                    copyok[i.name] += m.bytes();
                }
            }
            bool good          = !n.err && (igndup ? n.ok + n.dup : n.ok && !n.dup) && i.letters != "G";
            ok_by_file[i.name] = good;
            success            = success && good;
            spew(root + "/in/" + i.name, bytes[i.name]);
        }
        args = {mode == 2 ? "--testdispatch" : "--dispatch", root + "/conf"};
        if (moves)
            args = args + Args{"--moveok", root + "/ok", "--moveko", root + "/ko"};
        if (work)
            args = args + Args{"--movework", root + "/work"};
        if (copies)
            args = args + Args{"--copyok", root + "/copyok", "--copyko", root + "/copyko"};
        if (igndup)
            args.push_back("--ignore-duplicates");
        if (flush)
            args = args + Args{"--flush-threshold", "1"};
        if (validate)
            args.push_back("--validate=daily_import");
        if (mode == 1)
            args = args + Args{"--status", "--yaml", "-o", root + "/out"};
        for (auto& i : inputs)
            args.push_back(root + "/in/" + i.name);
        auto what = cat(f[1], " ", f[2], ": arki-scan ", join(args, " "));
        c.current(what);
        auto before = mc::hash(tree_digest(root + "/aa") + tree_digest(root + "/bb") + tree_digest(root + "/error") + tree_digest(root + "/duplicates"));
        auto r      = cli("arki-scan", args);
        c.eval();
        if (mode == 2)
        {
            if (before != mc::hash(tree_digest(root + "/aa") + tree_digest(root + "/bb") + tree_digest(root + "/error") + tree_digest(root + "/duplicates")))
                throw mc::Fail("testdispatch", what + " changes the datasets");
            for (auto& i : inputs)
                if (slurp(root + "/in/" + i.name) != bytes[i.name])
                    throw mc::Fail("testdispatch", what + " changes its input");
            continue;
        }
        // With some batches garbage is found after importing something
        if ((r.code == 0) != success)
            throw mc::Fail(success ? "dispatch-exit-bad" : "dispatch-exit-good", cat(what, " exits with ", r.code, ": ", tail(r.err)));
        if (!garbage && r.code && r.code != 65)
            throw mc::Fail("dispatch-exit", cat(what, " exits with ", r.code, " instead of 65: ", tail(r.err)));
        auto contents = [&](const std::string& ds, const Conf& conf) {
            World w(conf, root + "/" + ds);
            std::multiset<std::string> res;
            for (auto& g : mc::ds::query(*w.reader(), ""))
                res.insert(g.data);
            return res;
        };
        auto S = Conf::parse("type=simple;fmt=grib;unique=;step=daily");
        if (contents("aa", A) != got_a || contents("bb", B) != got_b || contents("error", S) != got_e || contents("duplicates", S) != got_d)
            throw mc::Fail("dispatch-data", cat(what, ": datasets have ", contents("aa", A).size(), " ", contents("bb", B).size(), " ", contents("error", S).size(), " ", contents("duplicates", S).size(),
                                                " items, instead of ", got_a.size(), " ", got_b.size(), " ", got_e.size(), " ", got_d.size()));
        for (auto& i : inputs)
        {
            std::string place = work ? "work" : "in";
            if (moves)
                place = ok_by_file[i.name] ? "ok" : "ko";
            for (auto d : {"in", "ok", "ko", "work"})
            {
                bool there = fs::exists(root + "/" + d + "/" + i.name);
                if (there != (d == place))
                    throw mc::Fail(work ? "dispatch-movework" : "dispatch-move", cat(what, ": ", i.name, there ? " is in " : " is not in ", d));
            }
            if (slurp(root + "/" + place + "/" + i.name) != bytes[i.name])
                throw mc::Fail("dispatch-input", cat(what, ": ", i.name, " has been changed"));
            for (auto d : {"copyok", "copyko"})
            {
                std::string path = root + "/" + d + "/" + i.name;
                std::string e    = !copies ? "" : d == std::string("copyok") ? copyok[i.name] : copyko[i.name];
                if ((fs::exists(path) ? slurp(path) : "") != e)
                    throw mc::Fail("dispatch-copy", cat(what, ": ", d, "/", i.name, " does not have what it should"));
            }
        }
        if (mode == 0)
        {
            // What is on output can be used to find the data
            std::multiset<std::string> out, exp(all.begin(), all.end());
            spew(root + "/out", r.out);
            core::File of(root + "/out", O_RDONLY);
            metadata::BinaryReader rd(of, "/");
            auto session = std::make_shared<dataset::Session>(false);
            rd.read_all([&](std::shared_ptr<Metadata> md) {
                auto p    = md->sourceBlob().absolutePathname().native();
                auto data = slurp(p).substr(md->sourceBlob().offset, md->sourceBlob().size);
                out.insert(data);
                if (p.compare(0, root.size() + 4, root + "/in/") == 0)
                    throw mc::Fail("dispatch-output", cat(what, ": in the output, imported data has its source in ", p));
                return true;
            });
            if (out != exp)
                throw mc::Fail("dispatch-output", cat(what, ": the output tells of ", out.size(), " items, and there are ", exp.size()));
        }
        else
        {
            auto y     = slurp(root + "/out");
            unsigned n = 0;
            for (auto& l : split(y, '\n'))
                if (l.compare(0, 7, "Source:") == 0)
                    ++n;
            if (n != all.size())
                throw mc::Fail("dispatch-output", cat(what, ": the output tells of ", n, " items, and there are ", all.size()));
            for (auto& i : inputs)
            {
                if (i.letters == "G")
                    continue;
                auto& k = counts[i.name];
                auto m  = k.dup || k.err ? cat(k.ok, " ok, ", k.dup, " duplicates, ", k.err, " in error dataset") : k.ok ? cat("everything ok: ", k.ok, " message") : std::string("no data processed");
                bool found = false;
                for (auto& l : split(r.err, '\n'))
                    if (l.find(i.name) != std::string::npos && l.find(m) != std::string::npos)
                        found = true;
                if (!found)
                    throw mc::Fail("dispatch-status", cat(what, ": the status does not tell ", i.name, ": ", m, ": ", tail(r.err)));
            }
        }
        c.distinct(cat(f[1], f[2], r.code, igndup, moves));
    }
}

/*
 * arki-dump, arki-xargs, arki-mergeconf
 */

void tools_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Part part(f, 2);
    Fixture x;
    auto path = [&](const std::string& n) { return x.root + "/" + n; };
    auto ok   = [&](const std::string& tool, const Args& args, const std::string& in = "") {
        c.current(tool + " " + join(args, " "));
        auto r = cli(tool, args, in);
        c.eval();
        c.distinct_hash(mc::hash(r.out));
        if (r.code)
            throw mc::Fail("tool-exit", cat(tool, " ", join(args, " "), " exits with ", r.code, ": ", tail(r.err)));
        return r.out;
    };
    auto same = [&](const char* key, const std::string& what, const std::string& a, const std::string& b) {
        if (a != b)
            throw mc::Fail(key, cat(what, ": ", first_difference(a, b)));
    };
    if (f[1] == "dump")
    {
        for (const char* src : {"aa", "bb", "data.grib"})
            for (const char* expr : {"", "reftime:=2020-01-01", "reftime:=2019"})
                for (int annotate = 0; annotate < 2; ++annotate)
                    for (int summary = 0; summary < 2; ++summary)
                    {
                        Args a = annotate ? Args{"--annotate"} : Args{};
                        Args s = summary ? Args{"--summary"} : Args{};
                        auto bin  = ok("arki-query", s + Args{expr, path(src)});
                        auto yaml = ok("arki-query", s + a + Args{"--yaml", expr, path(src)});
                        spew(path("bin"), bin);
                        spew(path("yaml"), yaml);
                        auto what = cat(src, " ", expr, annotate ? " annotated" : "", summary ? " summary" : "");
                        same("dump", what + " dumped", comparable(ok("arki-dump", a + Args{path("bin")}), summary), comparable(yaml, summary));
                        same("dump", what + " dumped from stdin", comparable(ok("arki-dump", a, bin), summary), comparable(yaml, summary));
                        ok("arki-dump", a + Args{path("bin"), "-o", path("out")});
                        same("dump", what + " dumped to a file", comparable(slurp(path("out")), summary), comparable(yaml, summary));
                        if (!annotate && !yaml.empty() && yaml != "\n")
                        {
                            auto opt = summary ? "--from-yaml-summary" : "--from-yaml-data";
                            // Names of files are relative to where the input is
                            spew(path("back"), ok("arki-dump", {opt, path("yaml")}));
                            same("dump-back", what + " read back", comparable(ok("arki-dump", {path("back")}), summary), comparable(yaml, summary));
                            ok("arki-dump", {opt, path("yaml"), "-o", path("back")});
                            same("dump-back", what + " read back to a file", comparable(ok("arki-dump", {path("back")}), summary), comparable(yaml, summary));
                            if (summary)
                                same("dump-back", what + " read back from stdin", comparable(ok("arki-dump", {opt}, yaml), true), comparable(bin, true));
                        }
                    }
        // Inline data is kept apart
        auto in = ok("arki-query", {"--inline", "", path("aa")});
        auto y  = ok("arki-query", {"--yaml", "", path("aa")});
        same("dump", "inline", without_sources(ok("arki-dump", {}, in)), without_sources(y));
    }
    else if (f[1] == "query")
    {
        auto session = std::make_shared<dataset::Session>(false);
        for (const char* expr : {"reftime:=2020-01", "product:GRIB1,200,140,1;reftime:>=2020-01-01 12:00:00", "area:GRIB:foo=1 or GRIB:bar=2", ""})
        {
            if (!*expr)
                continue;
            auto got = ok("arki-dump", {"--query", expr});
            same("dump-query", expr, got, session->matcher(expr).toStringExpanded() + "\n");
        }
    }
    else if (f[1] == "xargs")
    {
        // The command keeps its input, and how it was called
        std::string log = path("log");
        for (int inl = 1; inl < 2; ++inl)
            for (const Args& opts : {Args{}, Args{"-n1"}, Args{"-n2"}, Args{"--max-args=3"}, Args{"--time-interval=day"}, Args{"--time-interval=month"}, Args{"--split-timerange"}, Args{"-s1"}, Args{"--max-size=1Ki"}, Args{"--max-size=1G"}})
                for (const char* src : {"aa", "bb", "data.grib"})
                    for (int how = 0; how < 2; ++how)
                        for (int status : {0, 7})
                        {
                            if (part.skip())
                                continue;
                            Args q{"", path(src)};
                            auto md   = ok("arki-query", (inl ? Args{"--inline"} : Args{}) + q);
                            auto data = ok("arki-query", Args{"--data"} + q);
                            unlink(log.c_str());
                            Args cmd{"/bin/sh", "-c", cat("cat \"$1\" >> ", log, "; echo . >> ", log, ".n; exit ", status), "sh"};
                            unlink((log + ".n").c_str());
                            spew(path("md"), md);
                            Args args = opts;
                            if (how)
                                args = args + Args{"-i", path("md"), "--"};
                            args      = args + cmd;
                            auto what = cat(src, inl ? " inline" : "", ": arki-xargs ", join(args, " "));
                            c.current(what);
                            auto r = cli("arki-xargs", args, how ? "" : md);
                            c.eval();
                            if ((r.code == 0) != (status == 0))
                                throw mc::Fail("xargs-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
                            auto n = fs::exists(log + ".n") ? fs::file_size(log + ".n") / 2 : 0;
                            if (status == 0)
                            {
                                same("xargs-data", what, slurp(log), data);
                                unsigned want = opts.empty() ? 1 : opts[0] == "-n1" || opts[0] == "-s1" ? 4 : opts[0] == "-n2" || opts[0] == "--max-args=3" ? 2 : opts[0] == "--max-size=1G" ? 1 : 0;
                                if (want && n != want)
                                    throw mc::Fail("xargs-count", cat(what, ": the command is run ", n, " times instead of ", want));
                            }
                            else if (!n)
                                throw mc::Fail("xargs-run", what + ": the command is not run");
                        }
    }
    else if (f[1] == "sizes")
    {
        // Sizes of groups, with all their suffixes
        auto one = ok("arki-query", {"--inline", "", path("aa")});
        std::vector<size_t> sizes;
        {
            spew(path("md"), one);
            core::File in(path("md"), O_RDONLY);
            metadata::BinaryReader rd(in);
            rd.read_all([&](std::shared_ptr<Metadata> md) { sizes.push_back(md->data_size()); return true; });
        }
        size_t each = 0;
        for (auto i : sizes)
            each += i;
        std::map<std::string, unsigned long long> good{{"300", 300}, {"300b", 300}, {"300c", 300}, {"300B", 300}, {"1k", 1000}, {"1K", 1000}, {"1kB", 1000}, {"1KB", 1000}, {"1Ki", 1024}, {"1ki", 1024},
                                                       {"1M", 1000000}, {"1m", 1000000}, {"1MB", 1000000}, {"1Mi", 1048576}};
        for (auto c : {"G", "T", "P", "E"})
            for (auto e : {"", "B", "i"})
                good[cat("1", c, e)] = 1000000000;
        for (unsigned long long total : {1000, 1000000})
        {
            // A little more than the limit, and less than that in powers of two
            std::string all;
            size_t n = 0;
            for (size_t i = 0; n + sizes[0] <= total + total / 42; i += 1)
                n += each, all += one;
            size_t count = n / each * sizes.size();
            for (auto& g : good)
            {
                if (g.second < 1000 && total > 1000)
                    continue;
                unsigned want = 1;
                size_t cur    = 0;
                for (size_t i = 0; i < count; ++i)
                {
                    auto sz = sizes[i % sizes.size()];
                    if (cur && cur + sz > g.second)
                        ++want, cur = 0;
                    cur += sz;
                }
                std::string log = path("log");
                unlink(log.c_str());
                auto what = cat("arki-xargs --max-size=", g.first, " on ", n, " bytes");
                ok("arki-xargs", {"--max-size", g.first, "/bin/sh", "-c", "echo . >> " + log, "sh"}, all);
                auto got = fs::file_size(log) / 2;
                if (got != want)
                    throw mc::Fail("size", cat(what, " runs its command ", got, " times instead of ", want));
                c.distinct(cat(g.first, want));
            }
        }
        for (auto bad : {"x", "k", "1x", "1xB", "1kBB", "1kk", "-1", "1.5k", "1 k", "1bB", "1cB", "1kx", "k1", "1k1"})
        {
            auto r = cli("arki-xargs", {cat("--max-size=", bad), "/bin/echo", "done"}, one);
            c.eval();
            if (!r.code || !r.out.empty())
                throw mc::Fail("size-refuse", cat("arki-xargs --max-size=", bad, " exits with ", r.code));
        }
    }
    else if (f[1] == "mergeconf")
    {
        auto err = Conf::parse("type=simple;fmt=grib;unique=;step=daily").section(x.root + "/error", "error");
        err->set("type", "error");
        auto dup = Conf::parse("type=simple;fmt=grib;unique=;step=daily").section(x.root + "/duplicates", "duplicates");
        dup->set("type", "duplicates");
        for (auto& s : {err, dup})
        {
            fs::create_directories(s->value("path"));
            spew(s->value("path") + "/config", s->to_string());
        }
        auto cc = Conf::parse("type=simple;fmt=grib;unique=;step=daily").section(x.root + "/cc", "cc");
        cc->set("filter", "reftime:>=2020 or reftime:<=2019");
        cc->set("filter", "reftime:>=2020; product:GRIB1");
        fs::create_directories(x.root + "/cc");
        spew(path("cc/config"), cc->to_string());
        std::map<std::string, std::shared_ptr<core::cfg::Section>> all{{"aa", x.aa}, {"bb", x.bb}, {"cc", cc}, {"error", err}, {"duplicates", dup}};
        std::vector<std::string> names{"aa", "bb", "cc", "error", "duplicates"};
        for (unsigned set = 1; set < 32; ++set)
            for (int how = 0; how < 2; ++how)
                for (int sys = 0; sys < 2; ++sys)
                    for (const char* restr : {"", "two", "three,four", " four  three "})
                    {
                        if (part.skip())
                            continue;
                        Args args;
                        if (sys)
                            args.push_back("--ignore-system-datasets");
                        if (*restr)
                            args = args + Args{"--restrict", restr};
                        std::string conf;
                        std::map<std::string, std::string> expected;
                        for (unsigned i = 0; i < names.size(); ++i)
                        {
                            if (!(set & (1u << i)))
                                continue;
                            auto& n = names[i];
                            if (how == 1)
                                args.push_back(path(n));
                            else
                                conf += section_text(n, *all[n]);
                            if (sys && (n == "error" || n == "duplicates"))
                                continue;
                            if (restr == std::string("two") && n != "aa" && n != "bb")
                                continue;
                            if (std::string(restr).find("three") != std::string::npos && n != "bb")
                                continue;
                            expected[n] = "";
                        }
                        if (how != 1)
                        {
                            spew(path("in.conf"), conf);
                            args = args + Args{"-C", path("in.conf")};
                        }
                        auto what = "arki-mergeconf " + join(args, " ");
                        c.current(what);
                        auto r = cli("arki-mergeconf", args);
                        c.eval();
                        if (expected.empty())
                        {
                            if (!r.code || !r.out.empty())
                                throw mc::Fail("mergeconf-none", cat(what, " has nothing to give, exits with ", r.code, " and gives ", tail(r.out)));
                            continue;
                        }
                        if (r.code)
                            throw mc::Fail("mergeconf-exit", cat(what, " exits with ", r.code, ": ", tail(r.err)));
                        auto parsed = core::cfg::Sections::parse(r.out, "output");
                        std::set<std::string> a, b;
                        for (auto& s : *parsed)
                            a.insert(s.first);
                        for (auto& s : expected)
                            b.insert(s.first);
                        if (a != b)
                            throw mc::Fail("mergeconf-names", cat(what, " gives ", a.size(), " datasets, and ", b.size(), " are expected"));
                        for (auto& s : *parsed)
                        {
                            std::map<std::string, std::string> v, e;
                            for (auto& i : *s.second) v[i.first] = i.second;
                            for (auto& i : *all[s.first]) e[i.first] = i.second;
                            e["name"] = s.first;
                            if (v != e)
                                throw mc::Fail("mergeconf-values", cat(what, ": the configuration of ", s.first, " is different: ", tail(s.second->to_string())));
                        }
                        c.distinct(r.out);
                    }
    }
}

mc::Register r("C31", [] {
    std::string post = scratch() + "-postproc";
    rmtree(post);
    fs::create_directories(post);
    auto script = [&](const std::string& name, const std::string& text) {
        spew(post + "/" + name, "#!/bin/sh\n" + text);
        fs::permissions(post + "/" + name, fs::perms::owner_all);
    };
    script("cat", "exec cat\n");
    script("count", "echo \"$*:$(wc -c)\"\n");
    script("files", "cat > /dev/null\necho \"$ARKI_POSTPROC_FILES\"\n");
    script("fail", "cat > /dev/null\nexit 1\n");
    setenv("ARKI_POSTPROC", post.c_str(), 1);
    setenv("ARKI_QMACRO", (repo() + "/conf/qmacro").c_str(), 1);
    // Then our scanners, instead of those that need eccodes
    start_python();
    init();
    name_extra(0, "maintenance runs without --fix");
    name_extra(1, "maintenance runs with --fix");
    // All together, with the longest first
    std::vector<std::string> all, tasks;
    auto run = [&](std::vector<std::string> t, const std::string& prefix) {
        for (auto& i : t)
            all.push_back(prefix + i);
    };
    std::vector<std::string> parts;
    for (int i = 0; i < 8; ++i)
        parts.push_back(std::to_string(i));
    run(parts, "tool|mergeconf|");
    run(parts, "no|pairs|");
    run(parts, "no|args|");
    run(parts, "no|errors|");
    run(parts, "tool|xargs|");
    run(parts, "rm|");
    for (unsigned o = 0; o < outs().size(); ++o)
        tasks.push_back(std::to_string(o));
    run(tasks, "qm|");
    tasks.clear();
    run({"broken"}, "no|");
    run({"dump", "query", "sizes"}, "tool|");
    for (unsigned o = 0; o < outs().size(); ++o)
    {
        for (auto s : {"aa", "bb", "aabb", "conf", "confdir", "r1", "r2", "r3", "file", "fileaa"})
            for (auto m : {"sections", "merged"})
                if (mc::args.thorough || m == std::string("sections") || s == std::string("aabb") || s == std::string("fileaa") || s == std::string("r3"))
                    tasks.push_back(cat(o, "|", s, "|", m));
    }
    run(tasks, "q|");
    tasks.clear();
    for (unsigned o = 0; o < outs().size(); ++o)
        tasks.push_back(std::to_string(o));
    run(tasks, "in|");
    tasks.clear();
    const char* U = ";fmt=grib;unique=reftime,product,area;step=daily";
    std::vector<std::string> confs{cat("type=iseg", U, ";archive=10;delete=60"), cat("type=simple", U)};
    if (mc::args.thorough)
    {
        confs.push_back(cat("type=iseg", U));
        confs.push_back(cat("type=simple", U, ";archive=10;delete=60"));
    }
    std::vector<std::string> ops{"i0,1,2,14:never d0", "i0,2,14:never arc:2020/01-01.grib d2", "i6,0,2,14:never arc:2020/01-01.grib arc:2020/01-02.grib rp", "i0,1,2,14:never !drop"};
    if (mc::args.thorough)
    {
        ops.push_back("i0,1,2,14:never");
        ops.push_back("i0,1,2,14:never !junk");
    }
    for (auto& conf : confs)
        for (auto& op : ops)
            for (auto& a : actions())
                tasks.push_back(cat(conf, "|", op, "|", a.name));
    for (auto& conf : confs)
        for (auto a : {"ck", "cka"})
            tasks.push_back(cat(conf, "|i0,1,2,14:never !bad|", a));
    run(tasks, "chk|");
    tasks.clear();
    std::vector<std::string> seqs{"", "G"};
    std::string alpha = "OPDE";
    for (char a : alpha)
    {
        seqs.push_back(std::string(1, a));
        for (char b : alpha)
            seqs.push_back(std::string(1, a) + b);
    }
    seqs.push_back("OPDE");
    seqs.push_back("EODP");
    for (auto& s : seqs)
        for (auto s2 : {"-", "Q", "QE", "QD"})
            if (mc::args.thorough || (s2 == std::string("QE") && s.size() < 2) || s2 == std::string("-"))
            tasks.push_back(s + "|" + s2);
    run(tasks, "dis|");
    run_tasks(all, [](Ctx& c, const std::string& task) {
        auto kind = task.substr(0, task.find('|'));
        (kind == "q" ? query_task : kind == "qm" ? macro_task : kind == "in" ? stdin_task : kind == "no" ? refuse_task : kind == "chk" ? check_task : kind == "rm" ? remove_task : kind == "dis" ? dispatch_task : tools_task)(c, task);
    });
    rmtree(post);
});
}
