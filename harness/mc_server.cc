// arki-server: the real Python server, run in an embedded interpreter with the
// real extension and queried on the loopback interface, compared with what the
// library gives for the same datasets.
#include "py.h"
#include <arki/core/curl.h>
#include <arki/dataset/http.h>
#include <arki/types/source/url.h>
#include <arpa/inet.h>
#include <list>
#include <netinet/in.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>

namespace {

const char* MORE = R"(
import os, io, logging
import arkimet.cmdline.server

def mc_serve(conf, aliases, url, fd, tmp):
    import tempfile
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = None
    logging.basicConfig(level=logging.WARNING)
    config = arkimet.cfg.Sections.parse(conf)
    with open(aliases) as f:
        al = arkimet.cfg.Sections.parse(f)
    httpd = arkimet.cmdline.server.make_server("localhost", 0, config, url or None, al)
    os.write(fd, "{} {}\n".format(httpd.server_port, httpd.url).encode())
    httpd.serve_forever()

def mc_server_main(args):
    sys.argv = ["arki-server"] + args
    try:
        rc = arkimet.cmdline.server.Server.main(args)
    except SystemExit as e:
        rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except (RuntimeError, OSError, ValueError):
        traceback.print_exc()
        rc = 1
    except BaseException:
        traceback.print_exc()
        rc = 99
    return int(rc or 0) & 0xff
)";

const char* ALIASES = "[product]\nuno = GRIB1,200,140,1\ndue = uno or GRIB1,200,140,2\n[origin]\nnostro = GRIB1,200\n";

std::string section_text(const std::string& name, const core::cfg::Section& s) { return "[" + name + "]\n" + s.to_string() + "\n"; }

struct Reply
{
    int code = 0;
    std::string status;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body, raw;
    std::string header(const std::string& n) const
    {
        for (auto& h : headers)
            if (!strcasecmp(h.first.c_str(), n.c_str()))
                return h.second;
        return "";
    }
    unsigned count(const std::string& n) const
    {
        unsigned res = 0;
        for (auto& h : headers)
            res += !strcasecmp(h.first.c_str(), n.c_str());
        return res;
    }
};

typedef std::vector<std::pair<std::string, std::string>> Form;

std::string urlencode(const std::string& s)
{
    std::string res;
    char b[4];
    for (unsigned char c : s)
        if (isalnum(c))
            res += c;
        else
        {
            snprintf(b, 4, "%%%02X", c);
            res += b;
        }
    return res;
}

std::string form(const Form& f)
{
    std::string res;
    for (auto& i : f)
        res += (res.empty() ? "" : "&") + i.first + "=" + urlencode(i.second);
    return res;
}

Reply talk(int port, const std::string& request)
{
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    timeval tv{60, 0};
    setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
    if (connect(s, (sockaddr*)&a, sizeof(a)) != 0)
    {
        close(s);
        throw mc::Fail("server-down", "the server does not accept connections");
    }
    for (size_t o = 0; o < request.size();)
    {
        auto n = send(s, request.data() + o, request.size() - o, MSG_NOSIGNAL);
        if (n <= 0)
            break;
        o += n;
    }
    Reply r;
    char buf[65536];
    while (true)
    {
        auto n = recv(s, buf, sizeof(buf), 0);
        if (n < 0 && errno == EINTR)
            continue;
        if (n < 0 && errno == EAGAIN)
        {
            close(s);
            throw mc::Fail("server-hangs", "there is no end of the reply to " + quote(request.substr(0, 300)));
        }
        if (n <= 0)
            break;
        r.raw.append(buf, n);
    }
    close(s);
    auto end = r.raw.find("\r\n\r\n");
    if (end == std::string::npos)
        throw mc::Fail("no-reply", "there is no reply, or it has no end of headers, for " + quote(request.substr(0, 300)) + ": " + quote(r.raw.substr(0, 300)));
    r.body     = r.raw.substr(end + 4);
    bool first = true;
    auto head  = r.raw.substr(0, end);
    for (size_t p = 0; p <= head.size();)
    {
        auto e    = std::min(head.find("\r\n", p), head.size());
        auto line = head.substr(p, e - p);
        p         = e + 2;
        if (first)
        {
            if (line.size() < 12 || line.compare(0, 7, "HTTP/1.") != 0)
                throw mc::Fail("bad-reply", "the status is " + quote(line) + " for " + quote(request.substr(0, 300)));
            r.status = line;
            r.code   = atoi(line.substr(9, 3).c_str());
            first    = false;
            continue;
        }
        auto c = line.find(": ");
        if (c == std::string::npos || line.find_first_of("\r\n") != std::string::npos)
            throw mc::Fail("bad-reply", "a header is " + quote(line) + " for " + quote(request.substr(0, 300)));
        r.headers.emplace_back(line.substr(0, c), line.substr(c + 2));
    }
    if (r.status.find_first_of("\r\n") != std::string::npos || r.count("Content-Type") != 1)
        throw mc::Fail("bad-reply", "the headers are " + quote(head) + " for " + quote(request.substr(0, 300)));
    return r;
}

Reply get(int port, const std::string& path, const Form& args = {})
{
    return talk(port, cat("GET ", path, args.empty() ? "" : "?", form(args), " HTTP/1.0\r\nHost: localhost\r\n\r\n"));
}

struct Upload
{
    std::string name, file, data;
};

// Ways of sending the arguments
const char* ENCODINGS[] = {"form", "multipart", "url"};

Reply post(int port, const std::string& path, const Form& args, const std::string& enc = "form", const std::vector<Upload>& files = {})
{
    std::string url = path, type, body;
    if (enc == "url")
    {
        url += "?" + form(args);
        type = "application/x-www-form-urlencoded";
    }
    else if (enc == "form")
    {
        type = "application/x-www-form-urlencoded";
        body = form(args);
    }
    else
    {
        type = "multipart/form-data; boundary=------mcboundary";
        for (auto& a : args)
            body += "--------mcboundary\r\nContent-Disposition: form-data; name=\"" + a.first + "\"\r\n\r\n" + a.second + "\r\n";
        for (auto& f : files)
            body += "--------mcboundary\r\nContent-Disposition: form-data; name=\"" + f.name + "\"; filename=\"" + f.file +
                    "\"\r\nContent-Type: application/octet-stream\r\n\r\n" + f.data + "\r\n";
        body += "--------mcboundary--\r\n";
    }
    return talk(port, cat("POST ", url, " HTTP/1.0\r\nHost: localhost\r\nContent-Type: ", type, "\r\nContent-Length: ", body.size(), "\r\n\r\n", body));
}

// Two datasets, an empty one, and one that only gives errors
struct Fixture
{
    std::string root, tmp;
    Conf A = Conf::parse("type=iseg;fmt=grib;unique=reftime,product,area;step=daily");
    Conf B = Conf::parse("type=simple;fmt=grib;unique=reftime,product,area;step=monthly");
    std::map<std::string, std::shared_ptr<core::cfg::Section>> cfgs;
    std::shared_ptr<dataset::Session> session;
    std::shared_ptr<dataset::Pool> pool;
    pid_t pid = 0;
    int port  = 0;
    std::string url;
    std::set<std::string> serving;

    Fixture() {}
    explicit Fixture(bool with_error)
    {
        root = fresh_scratch() + "/w";
        tmp  = scratch() + "/tmp";
        fs::create_directories(tmp);
        for (auto d : {"aa", "bb", "nn"})
            fs::create_directories(root + "/" + d);
        {
            World w(A, root + "/aa");
            import(w, {msg(A, 0), msg(A, 14), msg(A, 2), msg(A, 1)});
            World w1(B, root + "/bb");
            import(w1, {msg(B, 2), msg(B, 5), msg(B, 0), msg(B, 15)});
            World w2(A, root + "/nn");
        }
        cfgs["aa"] = A.section(root + "/aa", "aa");
        cfgs["bb"] = B.section(root + "/bb", "bb");
        cfgs["nn"] = A.section(root + "/nn", "nn");
        for (auto& c : cfgs)
            c.second->set("postprocess", "cat,args,fail");
        cfgs["oo"] = A.section(root + "/nn", "oo");
        cfgs["aa"]->set("description", "<b>one & two</b>");
        if (with_error)
        {
            // It cannot be read
            fs::create_directories(root + "/ee");
            World w(A, root + "/ee");
            import(w, {msg(A, 0)});
            spew(root + "/ee/2020/01-01.grib.index", "this is not an index");
            cfgs["ee"] = A.section(root + "/ee", "ee");
        }
    }

    ~Fixture() { stop(); }

    std::string aliases() { return ALIASES; }

    void serve(std::vector<std::string> names, const std::string& with_url = "")
    {
        session = std::make_shared<dataset::Session>(false);
        session->load_aliases(*core::cfg::Sections::parse(aliases()));
        pool = std::make_shared<dataset::Pool>(session);
        std::string conf;
        for (auto& n : names)
        {
            conf += section_text(n, *cfgs[n]);
            pool->add_dataset(*cfgs[n]);
            serving.insert(n);
        }
        spew(root + "/conf", conf);
        spew(root + "/aliases", aliases());
        auto logname = scratch() + "/log";
        int p[2];
        if (pipe(p) != 0)
            throw std::runtime_error("cannot create a pipe");
        pid = fork();
        if (pid == -1)
            throw std::runtime_error("cannot fork");
        if (!pid)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            PyOS_AfterFork_Child();
            setenv("TMPDIR", tmp.c_str(), 1);
            int e = open(logname.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
            int i = open("/dev/null", O_RDWR);
            dup2(i, 0);
            dup2(i, 1);
            dup2(e, 2);
            close(p[0]);
            if (chdir(root.c_str()) != 0)
                _exit(97);
            auto tov = dataset::SessionTime::local_override(now());
            (new nag::StderrHandler)->install();
            auto f = PyDict_GetItemString(PyModule_GetDict(PyImport_AddModule("__main__")), "mc_serve");
            if (!PyObject_CallFunction(f, "sssis", (root + "/conf").c_str(), (root + "/aliases").c_str(), with_url.c_str(), p[1], tmp.c_str()))
                PyErr_Print();
            _exit(98);
        }
        setpgid(pid, pid);
        close(p[1]);
        std::string line;
        char c;
        while (read(p[0], &c, 1) == 1 && c != '\n')
            line += c;
        close(p[0]);
        auto sp = line.find(' ');
        if (sp == std::string::npos)
            throw mc::Fail("server-start", "the server does not start: " + tail(slurp(scratch() + "/log")));
        port = std::stoi(line.substr(0, sp));
        url  = line.substr(sp + 1);
    }

    void stop()
    {
        if (pid <= 0)
            return;
        kill(-pid, SIGKILL);
        int status;
        while (waitpid(pid, &status, 0) == -1 && errno == EINTR)
            ;
        pid = 0;
    }

    // Nothing is left after a request
    void clean(const std::string& what)
    {
        for (auto& i : fs::directory_iterator(tmp))
            throw mc::Fail("leftover", what + " leaves " + i.path().string());
        int status;
        if (waitpid(pid, &status, WNOHANG) != 0)
            throw mc::Fail("server-down", "the server is no more after " + what + ": " + tail(slurp(scratch() + "/log")));
    }

    std::string log() { return tail(slurp(scratch() + "/log")); }
};

struct Ask
{
    std::string style; // metadata, inline, data, postprocess
    std::string expr, sort, command;
};

std::string ext(const std::string& style) { return style == "data" ? "data" : style == "postprocess" ? "postprocessed" : "arkimet"; }

// What the library gives for the same
// (when sorting, segment by segment, or all together)
std::string expected(std::shared_ptr<dataset::Dataset> ds, std::shared_ptr<dataset::Session> session, const Ask& a, const std::string& url, bool together = false)
{
    ReleaseGIL rg;
    auto tov    = dataset::SessionTime::local_override(now());
    auto reader = ds->create_reader();
    auto m      = session->matcher(a.expr);
    query::Data q(m, a.style != "metadata");
    if (!a.sort.empty())
        q.sorter = metadata::sort::Compare::parse(a.sort);
    std::string meta, data;
    metadata_dest_func dest = [&](std::shared_ptr<Metadata> md) {
        if (a.style == "metadata")
            md->set_source(types::Source::createURL(md->source().format, url));
        else
        {
            auto d = md->get_data().read();
            data.append(d.begin(), d.end());
            md->makeInline();
        }
        std::vector<uint8_t> buf;
        auto out = StreamOutput::create(buf);
        md->write(*out);
        meta.append(buf.begin(), buf.end());
        return true;
    };
    if (together && q.sorter)
    {
        auto compare = q.sorter;
        metadata::sort::Stream sorter(*compare, dest);
        q.sorter.reset();
        reader->query_data(q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
        sorter.flush();
    }
    else
        reader->query_data(q, dest);
    if (a.style == "data")
        return data;
    if (a.style == "postprocess")
    {
        if (a.command == "cat")
            return meta;
        if (a.command.compare(0, 5, "args ") == 0)
            return "args: " + a.command.substr(5) + "\nfiles: \n" + std::to_string(meta.size()) + "\n";
    }
    return meta;
}

std::string expected_summary(std::shared_ptr<dataset::Dataset> ds, std::shared_ptr<dataset::Session> session, const std::string& expr, bool brief)
{
    ReleaseGIL rg;
    auto tov    = dataset::SessionTime::local_override(now());
    auto reader = ds->create_reader();
    Summary s;
    reader->query_summary(session->matcher(expr), s);
    if (!brief)
        return s.to_yaml();
    summary::Short shrt;
    s.visit(shrt);
    std::stringstream buf;
    shrt.write_yaml(buf, nullptr);
    return buf.str();
}

std::vector<std::string> exprs() { return {"", "reftime:>=2020-01-01 12:00:00,<=2020-01-15", "product:due; reftime:=2020-01", "reftime:=2031", "product:GRIB1,200,140,2 or uno"}; }
std::vector<std::string> sorts() { return {"", "-reftime", "day:-product,reftime"}; }

std::vector<Ask> asks(const std::string& style)
{
    std::vector<Ask> res;
    for (auto& e : exprs())
        for (auto& s : sorts())
            if (style == "postprocess")
            {
                res.push_back({style, e, s, "cat"});
                res.push_back({style, e, s, "args one two"});
            }
            else
                res.push_back({style, e, s, ""});
    return res;
}

Form to_form(const Ask& a, bool spaces)
{
    Form f;
    auto sp = [&](const std::string& s) { return spaces ? "  " + s + "\n" : s; };
    if (!a.expr.empty() || spaces)
        f.emplace_back("query", sp(a.expr));
    // The default
    if (a.style != "metadata" || spaces)
        f.emplace_back("style", sp(a.style));
    if (!a.sort.empty())
        f.emplace_back("sort", sp(a.sort));
    if (!a.command.empty())
        f.emplace_back("command", a.command);
    return f;
}

// Data of different datasets may be mixed in any way
std::string shuffle(const std::string& s, bool sorted)
{
    std::vector<std::string> times;
    for (size_t p = s.find("|t="); p != std::string::npos; p = s.find("|t=", p + 1))
        times.push_back(s.substr(p + 3, 19));
    if (!sorted)
        std::sort(times.begin(), times.end());
    std::string bytes = s;
    std::sort(bytes.begin(), bytes.end());
    return join(times, ",") + bytes;
}

void must_be(const std::string& what, const Reply& r, const std::string& body, const std::string& fname, const std::string& type, Fixture& x)
{
    if (r.code != 200)
        throw mc::Fail("server-status", cat(what, " gives ", quote(r.status), " ", quote(r.body.substr(0, 200)), " ", x.log()));
    if (r.body != body)
        throw mc::Fail("server-output", cat(what, ": the reply is different from what the library gives, ", first_difference(r.body, body), " ", x.log()));
    if (r.header("Content-Type") != type)
        throw mc::Fail("server-type", cat(what, ": the type is ", r.header("Content-Type")));
    auto disp = r.header("Content-Disposition");
    if (disp != (fname.empty() ? "" : "attachment; filename=" + fname))
        throw mc::Fail("server-fname", cat(what, ": the disposition is ", disp));
    if (r.count("Arkimet-Exception"))
        throw mc::Fail("server-exception", cat(what, " gives also ", r.header("Arkimet-Exception")));
}

// Task: dataset|style
void query_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Fixture x(false);
    x.serve({"aa", "bb", "nn"}, f[1] == "bb" ? "" : "http://served.example/arki");
    bool all     = f[1] == "*";
    auto ds      = all ? x.pool->merged() : x.pool->dataset(f[1]);
    auto path    = all ? "/query" : "/dataset/" + f[1] + "/query";
    auto src     = all ? x.url + "/query" : x.url + "/dataset/" + f[1];
    auto before  = data_digest(x.root);
    // Data and output of postprocessors come from one dataset at a time
    bool whole = f[2] == "metadata" || f[2] == "inline";
    for (auto& a : asks(f[2]))
    {
        auto exp = expected(ds, x.session, a, src);
        if (all && a.command.compare(0, 4, "args") == 0)
            continue; // run once for each dataset
        for (int enc = 0; enc < 4; ++enc)
        {
            if (!mc::args.thorough && unsigned(enc) != (mc::hash(task) + mc::hash(a.expr + a.sort)) % 3 && enc < 3)
                continue;
            bool with_get = enc == 3;
            auto args     = to_form(a, !with_get && (mc::hash(a.sort) + enc) % 2);
            auto what     = cat(with_get ? "GET" : ENCODINGS[enc], " ", path, " ", form(args));
            c.current(what);
            auto r = with_get ? get(x.port, path, args) : post(x.port, path, args, ENCODINGS[enc]);
            c.eval();
            if (with_get && f[2] != "postprocess")
            {
                if (r.code != 405)
                    throw mc::Fail("server-method", cat(what, " gives ", quote(r.status)));
            }
            else if (all && r.code == 200 && shuffle(r.body, !a.sort.empty() && whole) == shuffle(exp, !a.sort.empty() && whole))
                must_be(what, r, r.body, "." + ext(a.style), "application/octet-stream", x);
            else
                must_be(what, r, exp, (all ? "." : f[1] + ".") + ext(a.style), "application/octet-stream", x);
            x.clean(what);
            c.distinct_hash(mc::hash(r.body));
        }
    }
    if (auto after = data_digest(x.root); before != after)
        throw mc::Fail("server-changes", cat("queries have changed the data: ", first_difference(after, before)));
}

std::string normal_json(const std::string& s) { return comparable(s, true); }

// Task: dataset
void summary_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    bool all = f[1] == "*";
    auto ds  = all ? x.pool->merged() : x.pool->dataset(f[1]);
    for (auto& e : exprs())
        for (auto brief : {false, true})
        {
            if (all && brief)
                continue;
            auto path = (all ? "" : "/dataset/" + f[1]) + (brief ? "/summaryshort" : "/summary");
            auto yaml = expected_summary(ds, x.session, e, brief);
            for (std::string style : {"", "binary", "yaml", "json"})
                for (std::string method : {"GET", "form", "multipart", "url"})
                {
                    Form args;
                    if (!e.empty() || style == "yaml")
                        args.emplace_back("query", e);
                    if (!style.empty())
                        args.emplace_back("style", style);
                    auto what = cat(method, " ", path, " ", form(args));
                    c.current(what);
                    auto r = method == "GET" ? get(x.port, path, args) : post(x.port, path, args, method);
                    c.eval();
                    x.clean(what);
                    if (method == "GET" && (brief || all))
                    {
                        if (r.code != 405)
                            throw mc::Fail("server-method", cat(what, " gives ", quote(r.status)));
                        continue;
                    }
                    auto real = !style.empty() ? style : brief || method == "GET" ? "yaml" : "binary";
                    if (brief && real == "binary")
                    {
                        // There is no such thing
                        if (r.code < 400 || !r.count("Arkimet-Exception"))
                            throw mc::Fail("server-refuse", cat(what, " gives ", quote(r.status), " ", quote(r.body.substr(0, 100))));
                        continue;
                    }
                    if (r.code != 200)
                        throw mc::Fail("server-status", cat(what, " gives ", quote(r.status), " ", x.log()));
                    if (r.header("Content-Type") != (method == "GET" ? "text/plain" : "application/octet-stream"))
                        throw mc::Fail("server-type", cat(what, ": the type is ", r.header("Content-Type")));
                    if (r.header("Content-Disposition") != (method == "GET" ? "" : cat("attachment; filename=", all ? "" : f[1], ".summary")))
                        throw mc::Fail("server-fname", cat(what, ": the disposition is ", r.header("Content-Disposition")));
                    std::string got = r.body;
                    if (real == "binary")
                    {
                        if (got.compare(0, 2, "SU") != 0)
                            throw mc::Fail("server-output", what + " is not a summary: " + quote(got.substr(0, 100)));
                        got = comparable(got, true);
                    }
                    else if (real == "yaml")
                        got = comparable(got, true);
                    else
                    {
                        // Read it back
                        if (brief)
                        {
                            for (auto& l : split(got, '\n'))
                                if (!l.empty() && l[0] != '{')
                                    throw mc::Fail("server-output", what + " is not JSON: " + quote(got.substr(0, 100)));
                            std::string fname = scratch() + "/expected.json";
                            ReleaseGIL rg;
                            auto tov    = dataset::SessionTime::local_override(now());
                            auto reader = ds->create_reader();
                            Summary s;
                            reader->query_summary(x.session->matcher(e), s);
                            summary::Short shrt;
                            s.visit(shrt);
                            std::stringstream buf;
                            structured::JSON json(buf);
                            shrt.serialise(json, structured::keys_python, nullptr);
                            if (normal_json(got) != normal_json(buf.str()))
                                throw mc::Fail("server-output", cat(what, ": ", first_difference(got, buf.str())));
                            continue;
                        }
                        Summary s;
                        structured::Memory parsed;
                        structured::JSON::parse(got, parsed);
                        s.read(structured::keys_json, parsed.root());
                        got = comparable(s.to_yaml(), true);
                    }
                    if (got != comparable(yaml, true))
                        throw mc::Fail("server-output", cat(what, ": the reply is different from what the library gives, ", first_difference(got, comparable(yaml, true))));
                    c.distinct_hash(mc::hash(got));
                }
        }
}

std::string items_of(const Metadata& md, bool data)
{
    auto res = items(md);
    if (data)
    {
        auto d = const_cast<Metadata&>(md).get_data().read();
        res += "|" + std::string(d.begin(), d.end());
    }
    return res;
}

// With the client of the library, that reads the configuration
// A request that is not complete does not stop others
struct Pending
{
    int s = -1;
    Pending(int port, const std::string& text)
    {
        s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family      = AF_INET;
        a.sin_port        = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(s, (sockaddr*)&a, sizeof(a)) != 0 || send(s, text.data(), text.size(), MSG_NOSIGNAL) != (ssize_t)text.size())
            throw mc::Fail("server-down", "the server does not accept connections");
    }
    ~Pending() { close(s); }
};

// Task: style. A server for the datasets of another server
void proxy_task(Ctx& c, const std::string& task)
{
    auto style = split(task, '|')[1];
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    Fixture y;
    y.root = x.root + "-front";
    y.tmp  = scratch() + "/tmp-front";
    fs::create_directories(y.root);
    fs::create_directories(y.tmp);
    for (auto n : {"aa", "bb", "nn"})
    {
        auto s = std::make_shared<core::cfg::Section>(*x.cfgs[n]);
        s->set("type", "remote");
        s->set("path", x.url + "/dataset/" + n);
        s->set("server", x.url);
        y.cfgs[n] = s;
    }
    y.serve({"aa", "bb", "nn"});
    for (std::string n : {"aa", "bb", "nn"})
    {
        for (auto& a : asks(style))
        {
            auto what = cat("proxy ", n, " ", form(to_form(a, false)));
            c.current(what);
            c.eval();
            auto r = post(y.port, "/dataset/" + n + "/query", to_form(a, false));
            must_be(what, r, expected(x.pool->dataset(n), x.session, a, y.url + "/dataset/" + n), n + "." + ext(style), "application/octet-stream", y);
            x.clean(what);
            y.clean(what);
        }
        for (auto& e : exprs())
        {
            auto r = post(y.port, "/dataset/" + n + "/summary", {{"query", e}, {"style", "yaml"}});
            c.eval();
            if (r.code != 200 || comparable(r.body, true) != comparable(expected_summary(x.pool->dataset(n), x.session, e, false), true))
                throw mc::Fail("server-output", cat("proxy /summary ", n, " ", e, ": ", quote(r.status), " ", quote(r.body.substr(0, 200)), y.log()));
        }
        // What it says of itself
        auto r = get(y.port, "/dataset/" + n + "/config");
        c.eval();
        if (r.code != 200 || r.body.find(y.url + "/dataset/" + n) == std::string::npos || r.body.find(x.url) != std::string::npos)
            throw mc::Fail("server-config", cat("proxy: the configuration of ", n, " is ", quote(r.body)));
    }
}

// Task: number. Requests that are pending, while another one is made
void pending_task(Ctx& c, const std::string&)
{
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    Ask good{"data", "reftime:=2020-01", "", ""};
    auto body = expected(x.pool->dataset("bb"), x.session, good, "");
    std::vector<std::string> P{"", "P", "POST /dataset/aa/query HTTP/1.0\r\n", "POST /dataset/aa/query HTTP/1.0\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 50\r\n\r\n",
                               "POST /dataset/aa/query HTTP/1.0\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 50\r\n\r\nquery=", "GET / HTTP/1.0\r\nHost"};
    for (unsigned n = 1; n <= 3; ++n)
        for (unsigned i = 0; i < P.size(); ++i)
            for (unsigned j = i; j < (n > 1 ? P.size() : i + 1); ++j)
            {
                auto what = cat("with ", n, " pending, ", quote(P[i]), " and ", quote(P[j]));
                c.current(what);
                c.eval();
                std::list<Pending> pend;
                for (unsigned k = 0; k < n; ++k)
                    pend.emplace_back(x.port, P[k % 2 ? j : i]);
                auto r = post(x.port, "/dataset/bb/query", to_form(good, false));
                must_be(what, r, body, "bb.data", "application/octet-stream", x);
            }
}

void client_task(Ctx& c, const std::string& task)
{
    auto name = split(task, '|')[1];
    Fixture x(true);
    x.serve({"aa", "bb", "nn", "ee"});
    std::shared_ptr<core::cfg::Sections> sections;
    {
        ReleaseGIL rg;
        sections = dataset::http::Reader::load_cfg_sections(x.url);
    }
    std::set<std::string> names;
    for (auto& s : *sections)
        names.insert(s.first);
    if (names != x.serving)
        throw mc::Fail("server-config", "the configuration has " + join(std::vector<std::string>(names.begin(), names.end()), ","));
    for (auto& n : names)
    {
        auto s = sections->section(n);
        core::cfg::Section exp(*x.cfgs[n]);
        exp.set("type", "remote");
        exp.set("path", x.url + "/dataset/" + n);
        exp.set("server", x.url);
        if (s->to_string() != exp.to_string())
            throw mc::Fail("server-config", cat("the configuration of ", n, " is ", quote(s->to_string()), " instead of ", quote(exp.to_string())));
        std::shared_ptr<core::cfg::Section> one;
        {
            ReleaseGIL rg;
            one = dataset::http::Reader::load_cfg_section(x.url + "/dataset/" + n);
        }
        if (one->to_string() != exp.to_string())
            throw mc::Fail("server-config", cat("the configuration at the path of ", n, " is ", quote(one->to_string())));
        c.eval();
    }
    auto cs = std::make_shared<dataset::Session>(false);
    if (name == "aliases")
    {
        ReleaseGIL rg;
        for (auto& e : exprs())
        {
            c.current("expand " + e);
            auto got = dataset::http::Reader::expandMatcher(e, x.url);
            auto exp = x.session->matcher(e).toStringExpanded();
            c.eval();
            if (got != exp)
                throw mc::Fail("server-expand", cat(quote(e), " expands to ", quote(got), " instead of ", quote(exp)));
        }
        core::cfg::Sections served = *core::cfg::Sections::parse(x.aliases());
        auto session = std::make_shared<dataset::Session>(false);
        auto pool    = std::make_shared<dataset::Pool>(session);
        pool->add_dataset(*sections->section("aa"));
        auto db = session->get_alias_database();
        if (db->to_string() != x.session->get_alias_database()->to_string())
            throw mc::Fail("server-aliases", "aliases are read as " + quote(db->to_string()));
        c.eval();
        return;
    }
    if (name == "ee")
    {
        ReleaseGIL rg;
        for (int kind = 0; kind < 3; ++kind)
        {
            auto r = cs->dataset(*sections->section("ee"))->create_reader();
            c.current(cat("client ee ", kind));
            c.eval();
            std::string err;
            try
            {
                if (kind == 0)
                    r->query_data(query::Data(Matcher()), [](std::shared_ptr<Metadata>) { return true; });
                else if (kind == 1)
                {
                    Summary s;
                    r->query_summary(Matcher(), s);
                }
                else
                {
                    query::Bytes q;
                    q.setData(Matcher());
                    std::vector<uint8_t> buf;
                    auto out = StreamOutput::create(buf);
                    r->query_bytes(q, *out);
                }
            }
            catch (std::exception& e)
            {
                err = e.what();
            }
            if (err.find("500") == std::string::npos)
                c.fail(kind == 2 ? "server-late-error" : "server-error", cat("query ", kind, " of a dataset that gives errors: ", err.empty() ? "no error" : err));
        }
        return;
    }
    // All kinds of queries, remote and local
    auto remote = cs->dataset(*sections->section(name));
    auto local  = x.pool->dataset(name);
    ReleaseGIL rg;
    auto tov = dataset::SessionTime::local_override(now());
    for (auto& e : exprs())
        for (auto& s : sorts())
            for (int kind = 0; kind < 4; ++kind)
            {
                if (kind == 3 && !s.empty())
                    continue;
                std::string res[2];
                auto what = cat("client ", name, " ", kind, " ", e, " ", s);
                c.current(what);
                for (int i = 0; i < 2; ++i)
                {
                    auto r = (i ? remote : local)->create_reader();
                    auto m = x.session->matcher(e);
                    if (kind < 2)
                    {
                        query::Data q(m, kind == 1);
                        if (!s.empty())
                            q.sorter = metadata::sort::Compare::parse(s);
                        r->query_data(q, [&](std::shared_ptr<Metadata> md) {
                            res[i] += items_of(*md, kind == 1) + "\n";
                            return true;
                        });
                    }
                    else if (kind == 2)
                    {
                        query::Bytes q;
                        q.setData(m);
                        if (!s.empty())
                            q.sorter = metadata::sort::Compare::parse(s);
                        std::vector<uint8_t> buf;
                        auto out = StreamOutput::create(buf);
                        r->query_bytes(q, *out);
                        res[i].assign(buf.begin(), buf.end());
                    }
                    else
                    {
                        Summary sum;
                        r->query_summary(m, sum);
                        res[i] = comparable(sum.to_yaml(), true);
                    }
                }
                c.eval();
                if (res[0] != res[1])
                    throw mc::Fail("server-client", cat(what, ": ", first_difference(res[1], res[0])));
            }
}

struct Bad
{
    std::string method, path;
    Form args;
    int code;
    std::string message; // part of the error
};

std::vector<Bad> bad()
{
    std::vector<Bad> res;
    for (std::string base : {"/dataset/aa", ""})
    {
        for (std::string style : {"metadata", "inline", "data", "postprocess"})
        {
            res.push_back({"POST", base + "/query", {{"query", "reftime:MISCHIEF"}, {"style", style}, {"command", "cat"}}, 500, "MISCHIEF"});
            res.push_back({"POST", base + "/query", {{"query", "MISCHIEF"}, {"style", style}, {"command", "cat"}}, 500, "colon"});
            res.push_back({"POST", base + "/query", {{"query", "product:\nX-Injected: one"}, {"style", style}, {"command", "cat"}}, 500, "x-injected"});
            res.push_back({"POST", base + "/query", {{"query", "product:one\r\n\r\ntwo"}, {"style", style}, {"command", "cat"}}, 500, "one"});
            res.push_back({"POST", base + "/query", {{"query", "product:\xc3\xa8\xe2\x82\xac"}, {"style", style}, {"command", "cat"}}, 500, "roduct"});
            res.push_back({"POST", base + "/query", {{"query", "product:none"}, {"style", style}, {"command", "cat"}}, 500, "none"});
            res.push_back({"POST", base + "/query", {{"sort", "wrong"}, {"style", style}, {"command", "cat"}}, 500, "wrong"});
            res.push_back({"POST", base + "/query", {{"sort", "century:reftime"}, {"style", style}, {"command", "cat"}}, 500, "century"});
        }
        res.push_back({"POST", base + "/query", {{"style", "rep_metadata"}}, 404, "rep_metadata"});
        res.push_back({"POST", base + "/query", {{"style", "one\r\nX-Injected: two"}}, 404, "two"});
        res.push_back({"POST", base + "/query", {{"style", "\xe2\x82\xac"}}, 404, ""});
        res.push_back({"POST", base + "/query", {{"style", "postprocess"}, {"command", "secret one"}}, 500, "secret"});
        res.push_back({"POST", base + "/query", {{"style", "postprocess"}, {"command", "../postproc/cat"}}, 404, "cat"});
        for (auto p : {"@evil one", "@cat", "../@cat", "../../../../../../../..@evil", "  @evil", "./@evil", "/proc/self/cwd/evil"})
            res.push_back({"POST", base + "/query", {{"style", "postprocess"}, {"command", p}}, 404, ""});
        for (std::string s : {"", "short"})
        {
            if (base.empty() && !s.empty())
                continue;
            res.push_back({"POST", base + "/summary" + s, {{"query", "reftime:MISCHIEF"}}, 500, "MISCHIEF"});
            res.push_back({"POST", base + "/summary" + s, {{"query", "product:\nX-Injected: one"}}, 500, "x-injected"});
            res.push_back({"POST", base + "/summary" + s, {{"style", "wrong"}}, 0, "wrong"});
        }
    }
    res.push_back({"GET", "/dataset/aa/summary", {{"style", "wrong"}}, 0, "wrong"});
    res.push_back({"GET", "/dataset/aa/summary", {{"query", "MISCHIEF"}}, 500, "colon"});
    for (std::string n : {"zz", "AA", "aa/", "..", "%2e%2e", "aa%00", "zz%0d%0aX-Injected:%20one", "%e2%82%ac"})
        for (std::string p : {"", "/query", "/summary", "/summaryshort", "/config"})
            for (std::string m : {"GET", "POST"})
                res.push_back({m, "/dataset/" + n + p, {}, n == "aa%00" ? 0 : m == "GET" && (p == "" || p == "/config" || p == "/summary") ? 404 : m == "POST" && p.size() > 1 && p != "/config" ? 404 : -405, ""});
    for (auto p : {"/nothing", "/dataset", "/dataset/aa/nothing", "/dataset/aa/query/one", "/conf%0d%0aX-Injected:%20one", "/../../../../etc/passwd", "//etc/passwd", "/%2e%2e/%2e%2e/etc/passwd"})
        for (auto m : {"GET", "POST"})
            res.push_back({m, p, {}, 404, ""});
    for (auto p : {"/", "/config", "/aliases", "/dataset/aa", "/dataset/aa/config"})
        res.push_back({"POST", p, {}, 405, ""});
    for (auto p : {"/qexpand", "/query", "/summary", "/dataset/aa/query", "/dataset/aa/summaryshort"})
        res.push_back({"GET", p, {}, 405, ""});
    for (auto m : {"PUT", "DELETE", "OPTIONS", "PATCH"})
        for (auto p : {"/", "/dataset/aa", "/dataset/aa/query"})
            res.push_back({m, p, {}, 501, ""});
    res.push_back({"POST", "/qexpand", {{"query", "product:none"}}, 500, "none"});
    res.push_back({"POST", "/qexpand", {{"query", "one\r\nX-Injected: two"}}, 500, "one"});
    res.push_back({"POST", "/qexpand", {}, 0, ""});
    for (std::string q : {"nothing", "../qmacro/noop", "expa", "noop one\r\nX-Injected: two", "\xe2\x82\xac", "noop \xe2\x82\xac"})
        for (std::string p : {"/query", "/summary"})
        {
            bool noop = q.compare(0, 4, "noop") == 0;
            res.push_back({"POST", p, {{"qmacro", q}, {"query", q == "expa" ? "a wrong line" : noop ? "aa" : ""}}, noop ? 200 : q == "../qmacro/noop" ? 404 : 500, ""});
        }
    for (auto p : {"@evil one", "@evil", "../../../../../../../../..@evil"})
    {
        res.push_back({"POST", "/dataset/oo/query", {{"style", "postprocess"}, {"command", p}}, 404, ""});
        for (auto style : {"metadata", "data", "postprocess"})
            for (auto q : {"@evil", "../../../../../../../../..@evil", "/proc/self/cwd/evil"})
                res.push_back({"POST", "/query", {{"qmacro", q}, {"style", style}, {"command", p}}, 404, ""});
        res.push_back({"POST", "/summary", {{"qmacro", p}}, 404, ""});
    }
    res.push_back({"POST", "/dataset/oo/query", {{"style", "postprocess"}, {"command", "/bin/cat"}}, 404, ""});
    res.push_back({"POST", "/query", {{"qmacro", "noop"}, {"query", "zz"}}, 500, "zz"});
    res.push_back({"POST", "/summary", {{"qmacro", "noop"}, {"query", "zz"}}, 500, "zz"});
    return res;
}

// Task: part
void bad_task(Ctx& c, const std::string& task)
{
    unsigned part = std::stoul(split(task, '|')[1]), n = 0;
    Fixture x(false);
    x.serve({"aa", "bb", "nn", "oo"});
    // Programs that are not for requests
    std::string evil = scratch() + "/prog", pwned = scratch() + "/it-was-run";
    fs::create_directories(evil);
    std::string sh = "#!/bin/sh\ntouch " + pwned + "\n", py = "import sys\nopen('" + pwned + "', 'w').close()\nclass Querymacro:\n    pass\n";
    for (auto name : {"evil", "cat"})
    {
        spew(evil + "/" + name, sh);
        fs::permissions(evil + "/" + name, fs::perms::owner_all);
    }
    spew(evil + "/evil.py", py);
    auto digest  = data_digest(x.root);
    auto outside = tree_digest(scratch() + "/tmp");
    Ask good{"data", "reftime:=2020-01", "", ""};
    auto good_body = expected(x.pool->dataset("bb"), x.session, good, "");
    std::string data;
    for (auto n : {0, 14, 2, 1})
        data = msg(x.A, n).bytes();
    for (auto b : bad())
    {
        if (n++ % 8 != part)
            continue;
        for (auto& a : b.args)
            if (auto at = a.second.find('@'); at != std::string::npos)
                a.second.replace(at, 1, evil + "/");
        bool upload = b.args.size() > 2 && (b.args[0].first == "qmacro" || b.args[1].first == "command");
        auto what = cat(b.method, " ", b.path, " ", form(b.args));
        c.current(what);
        c.eval();
        try
        {
            auto r = b.method == "GET"    ? get(x.port, b.path, b.args)
                     : b.method == "POST" ? post(x.port, b.path, b.args, n % 3 && !upload ? "form" : "multipart", upload ? std::vector<Upload>{{"one", "evil.py", py}, {"two", "evil", sh}} : std::vector<Upload>())
                                          : talk(x.port, b.method + " " + b.path + " HTTP/1.0\r\n\r\n");
            // Found out after sending has begun
            if (b.code == 500 && r.code == 200 && b.args[0].second == "postprocess")
                throw mc::Fail("server-late-error", cat(what, " gives ", quote(r.status)));
            if (b.code > 0 ? r.code != b.code && !(b.code == 404 && r.code == 308) : b.code < 0 ? r.code != -b.code && r.code != 404 && r.code != 308 : r.code < 400 || r.code > 599)
                throw mc::Fail("server-status", cat(what, " gives ", quote(r.status), " instead of ", b.code, ": ", quote(r.body.substr(0, 200)), x.log()));
            if (fs::exists(pwned))
                throw mc::Fail("server-runs", what + " runs a program that is not for requests");
            if (r.count("X-Injected"))
                throw mc::Fail("server-inject", what + " can add a header");
            if (r.code != 200)
            {
                if (r.count("Content-Disposition"))
                    throw mc::Fail("server-fname", what + " gives a file");
                if (r.body.find("GRIB") == 0 || r.body.compare(0, 2, "MD") == 0 || r.body.compare(0, 2, "SU") == 0)
                    throw mc::Fail("server-output", what + " gives data: " + quote(r.body.substr(0, 100)));
            }
            if (b.code == 500 || (b.code == 0 && r.code == 500))
            {
                auto ex = r.header("Arkimet-Exception");
                if (ex.empty() || ex.find(b.message) == std::string::npos || r.body.find(b.message) == std::string::npos)
                    throw mc::Fail("server-message", cat(what, " does not tell what is wrong: ", quote(ex), " ", quote(r.body.substr(0, 200))));
            }
            else if (!b.message.empty() && b.code != 200 && (r.body + r.header("Arkimet-Exception")).find(b.message) == std::string::npos)
                throw mc::Fail("server-message", cat(what, " does not tell what is wrong: ", quote(r.body.substr(0, 200))));
            x.clean(what);
            // It goes on working
            auto g = post(x.port, "/dataset/bb/query", to_form(good, false));
            must_be(what + " then a good one", g, good_body, "bb.data", "application/octet-stream", x);
            c.distinct(cat(r.code, " ", r.header("Arkimet-Exception")));
        }
        catch (mc::Fail& e)
        {
            c.fail(e.key, e.what());
        }
    }
    if (data_digest(x.root) != digest)
        throw mc::Fail("server-changes", "requests have changed the data");
}

// Histories of what happens to the dataset while it is served
void live_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    auto name = f[1];
    auto& conf = name == "bb" ? x.B : x.A;
    World w(conf, x.root + "/" + name);
    Model m;
    for (auto& op : split(f[2], ' '))
    {
        {
            ReleaseGIL rg;
            auto tov = dataset::SessionTime::local_override(now());
            mc::ds::apply(w, op);
        }
        // A new session, with nothing left of before
        auto session = std::make_shared<dataset::Session>(false);
        session->load_aliases(*core::cfg::Sections::parse(x.aliases()));
        auto pool = std::make_shared<dataset::Pool>(session);
        pool->add_dataset(*x.cfgs[name]);
        for (auto style : {"metadata", "inline", "data"})
            for (auto e : {"", "reftime:=2020-01-02"})
            {
                Ask a{style, e, "", ""};
                auto what = cat(task, " after ", op, " ", style, " ", e);
                c.current(what);
                c.eval();
                auto r = post(x.port, "/dataset/" + name + "/query", to_form(a, false));
                must_be(what, r, expected(pool->dataset(name), session, a, x.url + "/dataset/" + name), name + "." + ext(style), "application/octet-stream", x);
            }
        auto r = post(x.port, "/dataset/" + name + "/summary", {{"style", "yaml"}});
        c.eval();
        if (comparable(r.body, true) != comparable(expected_summary(pool->dataset(name), session, "", false), true))
            throw mc::Fail("server-output", cat(task, " after ", op, " the summary is ", quote(r.body.substr(0, 200))));
    }
}

// Files for postprocessors
void files_task(Ctx& c, const std::string& task)
{
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    std::vector<Upload> U{{"one", "one.txt", "contents of one"}, {"two", "../../two", std::string("\0\r\n--\xff", 6)}, {"three", "dir/a b.c", ""}, {"four", "/abs/four", std::string(200000, 'x')}};
    auto plain = expected(x.pool->dataset("aa"), x.session, {"postprocess", "", "", "cat"}, "");
    auto outside = [&] {
        std::string res;
        for (auto& i : fs::recursive_directory_iterator(scratch()))
            if (i.path().string().find(".summar") == std::string::npos)
                res += i.path().string() + "\n";
        return res;
    };
    auto before = outside();
    for (unsigned set = 0; set < 16; ++set)
        for (int all = 0; all < 2; ++all)
        {
            std::vector<Upload> up;
            std::set<std::string> names;
            std::map<std::string, std::string> contents;
            for (unsigned i = 0; i < 4; ++i)
                if (set & (1 << i))
                {
                    up.push_back(U[i]);
                    auto n = fs::path(U[i].file).filename().string();
                    names.insert(n);
                    contents[n] = U[i].data;
                }
            std::string exp = "args: x\nfiles: " + join(std::vector<std::string>(names.begin(), names.end()), ":") + "\n";
            for (auto& i : contents)
                exp += i.first + " " + std::to_string(i.second.size()) + "\n";
            // Where the files are listed, in order
            auto what = cat("files ", set, all ? " /query" : "");
            c.current(what);
            c.eval();
            auto path = all ? "/query" : "/dataset/aa/query";
            auto body = all ? expected(x.pool->merged(), x.session, {"postprocess", "", "", "cat"}, "") : plain;
            auto r    = post(x.port, path, {{"style", "postprocess"}, {"command", all ? "cat" : "args x"}}, "multipart", up);
            if (all)
            {
                if (r.code != 200 || shuffle(r.body, false) != shuffle(body, false))
                    throw mc::Fail("server-output", cat(what, " gives ", quote(r.status), " ", quote(r.body.substr(0, 200))));
                x.clean(what);
                continue;
            }
            must_be(what, r, exp + std::to_string(body.size()) + "\n", all ? ".postprocessed" : "aa.postprocessed", "application/octet-stream", x);
            x.clean(what);
            // And there is nothing left for another one
            r = post(x.port, path, {{"style", "postprocess"}, {"command", "args y"}}, "form");
            must_be(what + " then none", r, "args: y\nfiles: \n" + std::to_string(body.size()) + "\n", all ? ".postprocessed" : "aa.postprocessed", "application/octet-stream", x);
            if (outside() != before)
                throw mc::Fail("leftover", what + " leaves files: " + first_difference(outside(), before));
        }
    // A postprocessor that fails gives what it had written, and the server goes on
    auto r = post(x.port, "/dataset/aa/query", {{"style", "postprocess"}, {"command", "fail"}});
    c.eval();
    if (r.body.compare(0, 8, "partial\n") != 0 && r.code == 200)
        throw mc::Fail("server-output", "a postprocessor that fails gives " + quote(r.body));
    x.clean("a postprocessor that fails");
}

// Query macros
void macro_task(Ctx& c, const std::string& task)
{
    auto f = split(task, '|');
    Fixture x(false);
    x.serve({"aa", "bb", "nn"});
    std::string macro = f[1];
    for (std::string ds : {"aa", "bb", "nn"})
        for (auto style : {"metadata", "inline", "data", "postprocess"})
            for (auto& s : sorts())
                for (std::string args : {"", " 2020-01-01"})
                {
                    if (macro == "noopcopy" && !s.empty())
                        continue; // it does not sort
                    Ask a{style, "", s, std::string(style) == "postprocess" ? "cat" : ""};
                    auto fm = to_form(a, false);
                    fm.emplace_back("qmacro", macro + args);
                    fm.emplace_back("query", ds);
                    auto what = cat("/query ", form(fm));
                    c.current(what);
                    c.eval();
                    auto r = post(x.port, "/query", fm, ENCODINGS[mc::hash(what) % 3]);
                    must_be(what, r, expected(x.pool->dataset(ds), x.session, a, x.url + "/query", true), macro + args + "." + ext(style), "application/octet-stream", x);
                    x.clean(what);
                }
    for (std::string ds : {"aa", "bb", "nn"})
    {
        auto r = post(x.port, "/summary", {{"qmacro", macro}, {"query", ds}, {"style", "yaml"}});
        c.eval();
        if (r.code != 200 || comparable(r.body, true) != comparable(expected_summary(x.pool->dataset(ds), x.session, "", false), true))
            throw mc::Fail("server-output", cat("/summary ", macro, " ", ds, ": ", quote(r.status), " ", quote(r.body.substr(0, 200)), x.log()));
    }
}

void info_task(Ctx& c, const std::string& task)
{
    Fixture x(false);
    x.cfgs["aa"]->set("description", "100% <script>\"it's\" & more");
    x.cfgs["aa"]->set("owner", "citt\xc3\xa0 di \xe2\x82\xac");
    x.cfgs["x-1.y"] = x.A.section(x.root + "/nn", "x-1.y");
    x.serve({"aa", "bb", "nn", "x-1.y"});
    auto escape = [](const std::string& s) {
        std::string res;
        for (char ch : s)
            switch (ch)
            {
                case '&': res += "&amp;"; break;
                case '<': res += "&lt;"; break;
                case '>': res += "&gt;"; break;
                case '"': res += "&quot;"; break;
                case '\'': res += "&#x27;"; break;
                default: res += ch;
            }
        return res;
    };
    for (auto& n : x.serving)
    {
        c.current("info " + n);
        c.eval();
        auto r = get(x.port, "/dataset/" + urlencode(n));
        if (r.code != 200 || r.header("Content-Type") != "text/html")
            throw mc::Fail("server-status", cat("the page of ", n, " gives ", quote(r.status), x.log()));
        for (auto& k : *x.cfgs[n])
            if (r.body.find(escape(k.first) + " = " + escape(k.second)) == std::string::npos)
                throw mc::Fail("server-page", cat("the page of ", n, " does not tell ", k.first, ": ", quote(r.body)));
        r = get(x.port, "/dataset/" + urlencode(n) + "/config");
        if (r.code != 200 || r.header("Content-Type") != "text/plain")
            throw mc::Fail("server-status", cat("the configuration of ", n, " gives ", quote(r.status), x.log()));
        core::cfg::Section exp(*x.cfgs[n]);
        exp.set("type", "remote");
        exp.set("path", x.url + "/dataset/" + n);
        exp.set("server", x.url);
        auto got = core::cfg::Sections::parse(r.body);
        auto sec = got->section(n);
        if (!sec || sec->to_string() != exp.to_string())
            throw mc::Fail("server-config", cat("the configuration of ", n, " is ", quote(r.body)));
        r = get(x.port, "/config");
        got = core::cfg::Sections::parse(r.body);
        sec = got->section(n);
        if (!sec || sec->to_string() != exp.to_string())
            throw mc::Fail("server-config", cat("the configuration of ", n, " in all is ", quote(r.body)));
        r = get(x.port, "/");
        if (r.code != 200 || r.body.find(">" + escape(n) + "</a>") == std::string::npos)
            throw mc::Fail("server-page", cat("the index does not have ", n, ": ", quote(r.body)));
        auto q = post(x.port, "/dataset/" + urlencode(n) + "/query", {{"style", "data"}});
        if (q.code != 200 || q.body != expected(x.pool->dataset(n), x.session, {"data", "", "", ""}, ""))
            throw mc::Fail("server-output", cat("the data of ", n, ": ", quote(q.status), x.log()));
    }
    auto r = get(x.port, "/aliases");
    if (r.code != 200 || core::cfg::Sections::parse(r.body)->to_string() != core::cfg::Sections::parse(x.aliases())->to_string())
        throw mc::Fail("server-aliases", "the aliases are " + quote(r.body));
    for (auto& e : exprs())
        for (auto enc : ENCODINGS)
        {
            auto q = post(x.port, "/qexpand", {{"query", e}}, enc);
            c.eval();
            if (q.code != 200 || q.body != x.session->matcher(e).toStringExpanded())
                throw mc::Fail("server-expand", cat(quote(e), " expands to ", quote(q.body)));
        }
}

// The program itself
struct Run
{
    int code;
    std::string out, err;
};

Run server_main(const std::string& cwd, const Args& args)
{
    std::string base = scratch() + "/srv.";
    pid_t pid        = fork();
    if (!pid)
    {
        alarm(60);
        PyOS_AfterFork_Child();
        int i = open("/dev/null", O_RDONLY);
        int o = open((base + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        int e = open((base + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        if (chdir(cwd.c_str()) != 0)
            _exit(97);
        auto pargs = PyList_New(0);
        for (auto& a : args)
            PyList_Append(pargs, PyUnicode_FromString(a.c_str()));
        auto f = PyDict_GetItemString(PyModule_GetDict(PyImport_AddModule("__main__")), "mc_server_main");
        auto r = PyObject_CallFunction(f, "O", pargs);
        if (!r)
            _exit(98);
        _exit(PyLong_AsLong(r));
    }
    int status;
    while (waitpid(pid, &status, 0) == -1 && errno == EINTR)
        ;
    Run res{WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status), slurp(base + "out"), slurp(base + "err")};
    if (res.code >= 97)
        throw mc::Fail("crash", cat("arki-server ", join(args, " "), " ends with ", res.code, ": ", tail(res.err)));
    return res;
}

int free_port()
{
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l       = sizeof(a);
    if (bind(s, (sockaddr*)&a, sizeof(a)) != 0 || getsockname(s, (sockaddr*)&a, &l) != 0)
        throw std::runtime_error("no port");
    close(s);
    return ntohs(a.sin_port);
}

void program_task(Ctx& c, const std::string& task)
{
    Fixture x(false);
    spew(x.root + "/conf", section_text("aa", *x.cfgs["aa"]) + section_text("bb", *x.cfgs["bb"]));
    spew(x.root + "/client.py", R"(
import sys, urllib.request, urllib.error, urllib.parse
base = sys.argv[1]
for path, data in (("/", None), ("/dataset/aa/query", {"style": "data", "query": "reftime:=2020-01-01"}), ("/dataset/zz", None), ("/dataset/aa/query", {"query": "wrong"})):
    try:
        with urllib.request.urlopen(base + path, urllib.parse.urlencode(data).encode() if data else None) as r:
            print(r.status, len(r.read()))
    except urllib.error.HTTPError as e:
        e.read()
        print(e.code)
)");
    std::string R = x.root;
    for (int code : {0, 1, 7})
        for (auto level : {"", "--verbose", "--debug", "--quiet", "--journald", "--syslog"})
        {
            Args a{"--host=localhost", cat("--port=", free_port()), cat("--runtest=exit ", code)};
            if (*level)
                a.push_back(level);
            a.push_back(R + "/conf");
            c.current("arki-server " + join(a, " "));
            c.eval();
            auto r = server_main(R, a);
            if (r.code != (code ? 1 : 0))
                throw mc::Fail("server-exit", cat("arki-server ", join(a, " "), " exits with ", r.code, ": ", tail(r.err)));
        }
    // Logs
    for (int which = 0; which < 8; ++which)
    {
        int port = free_port();
        for (auto l : {"access", "perf", "error"})
            unlink((R + "/" + l + ".log").c_str());
        Args a{"--host=localhost", cat("--port=", port), cat("--runtest=/usr/bin/python3 ", R, "/client.py http://localhost:", port, " > ", R, "/out.txt")};
        const char* L[] = {"access", "perf", "error"};
        for (int i = 0; i < 3; ++i)
            if (which & (1 << i))
                a.push_back(cat("--", L[i], "log=", R, "/", L[i], ".log"));
        a.push_back(R + "/conf");
        c.current("arki-server " + join(a, " "));
        c.eval();
        auto r    = server_main(R, a);
        auto size = msg(x.A, 0).bytes().size();
        (void)size;
        auto out = split(slurp(R + "/out.txt"), '\n');
        if (r.code || out.size() < 4 || out[0].compare(0, 4, "200 ") != 0 || out[1].compare(0, 4, "200 ") != 0 || out[2] != "404" || out[3] != "500")
            throw mc::Fail("server-exit", cat("arki-server ", join(a, " "), " exits with ", r.code, ", the client has ", join(out, ","), ": ", tail(r.err)));
        for (auto l : L)
            if (!fs::exists(cat(R, "/", l, ".log")))
                spew(cat(R, "/", l, ".log"), "");
        auto lines = [&](const char* n) {
            unsigned res = 0;
            for (char ch : slurp(R + "/" + n + ".log"))
                res += ch == '\n';
            return res;
        };
        auto acc = slurp(R + "/access.log");
        if ((which & 1) && (lines("access") != 4 || acc.find("\"GET / HTTP/1.1\" 200") == std::string::npos || acc.find("\"POST /dataset/aa/query HTTP/1.1\" 200") == std::string::npos ||
                            acc.find("/dataset/zz HTTP/1.1\" 404") == std::string::npos || acc.find("\"POST /dataset/aa/query HTTP/1.1\" 500") == std::string::npos))
            throw mc::Fail("server-log", "the log of accesses is " + quote(acc));
        auto perf = slurp(R + "/perf.log");
        if ((which & 2) && (lines("perf") != 4 || perf.find("\"dataset\": \"aa\"") == std::string::npos || perf.find("\"query\": \"reftime:=2020-01-01\"") == std::string::npos))
            throw mc::Fail("server-log", "the log of queries is " + quote(perf));
        auto err = slurp(R + "/error.log");
        if ((which & 4) && (err.find("ERROR") == std::string::npos || err.find("zz") == std::string::npos || err.find("colon") == std::string::npos))
            throw mc::Fail("server-log", "the log of errors is " + quote(err));
    }
    // Mistakes
    spew(R + "/broken", "[aa\n");
    for (auto& a : std::vector<Args>{{R + "/nothing"}, {R + "/broken"}, {}, {"--port=x", R + "/conf"}, {"--wrong", R + "/conf"}, {R + "/conf", "more"}})
    {
        c.current("arki-server " + join(a, " "));
        c.eval();
        auto r = server_main(R, Args{cat("--port=", free_port()), "--host=localhost", "--runtest=true"} + a);
        if (r.code == 0 || r.err.empty())
            throw mc::Fail("server-exit", cat("arki-server ", join(a, " "), " exits with ", r.code, ": ", tail(r.err)));
    }
    // Paths relative to where it was started
    core::cfg::Section rel(*x.cfgs["aa"]);
    rel.set("path", "aa");
    x.cfgs["aa"] = std::make_shared<core::cfg::Section>(rel);
    // and here it is served from that directory
    x.cfgs["bb"]->set("path", x.root + "/bb");
    char cwd[4096];
    if (!getcwd(cwd, sizeof(cwd)) || chdir(x.root.c_str()) != 0)
        throw std::runtime_error("cannot change directory");
    std::string body;
    try
    {
        x.serve({"aa", "bb"});
        body = expected(x.pool->dataset("aa"), x.session, {"data", "", "", ""}, "");
        auto r = post(x.port, "/dataset/aa/query", {{"style", "data"}});
        c.eval();
        must_be("a dataset with a relative path", r, body, "aa.data", "application/octet-stream", x);
    }
    catch (...)
    {
        if (chdir(cwd) != 0)
            abort();
        throw;
    }
    if (chdir(cwd) != 0)
        abort();
}

mc::Register r("C32", [] {
    // Where the processes of this run can find things
    std::string base = scratch() + "-postproc";
    rmtree(base);
    fs::create_directories(base);
    auto script = [&](const std::string& name, const std::string& text) {
        spew(base + "/" + name, "#!/bin/sh\n" + text);
        fs::permissions(base + "/" + name, fs::perms::owner_all);
    };
    script("cat", "exec cat\n");
    script("args", "echo \"args: $*\"\necho \"files: $ARKI_POSTPROC_FILES\"\nIFS=:\nset -f\nfor f in $ARKI_POSTPROC_FILES; do echo \"$f $(wc -c < \"$f\")\"; done\nwc -c\n");
    script("fail", "cat > /dev/null\necho partial\nexit 1\n");
    script("secret", "echo secret\n");
    setenv("ARKI_POSTPROC", base.c_str(), 1);
    setenv("ARKI_QMACRO", (repo() + "/conf/qmacro").c_str(), 1);
    start_python(MORE);
    init();
    std::vector<std::string> tasks;
    for (auto d : {"aa", "bb", "nn", "*"})
        for (auto s : {"postprocess", "inline", "metadata", "data"})
            tasks.push_back(cat("q|", d, "|", s));
    for (auto d : {"aa", "bb", "nn", "*"})
        tasks.push_back(cat("sum|", d));
    for (auto d : {"aa", "bb", "nn", "ee", "aliases"})
        tasks.push_back(cat("cli|", d));
    for (int i = 0; i < 8; ++i)
        tasks.push_back(cat("bad|", i));
    tasks.push_back("mac|noop");
    tasks.push_back("mac|noopcopy");
    for (auto s : {"postprocess", "inline", "metadata", "data"})
        tasks.push_back(cat("prox|", s));
    tasks.push_back("pend|");
    tasks.push_back("files|");
    tasks.push_back("info|");
    tasks.push_back("prog|");
    std::vector<std::string> ops{"i5:always", "d1", "rp", "cka", "i3:always"};
    for (auto d : {"aa", "bb", "nn"})
        for (auto& a : ops)
            for (auto& b : ops)
                if (mc::args.thorough)
                    for (auto& e : ops)
                        tasks.push_back(cat("live|", d, "|", a, " ", b, " ", e));
                else
                    tasks.push_back(cat("live|", d, "|", a, " ", b));
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto kind = task.substr(0, task.find('|'));
        (kind == "q"       ? query_task
         : kind == "sum"   ? summary_task
         : kind == "cli"   ? client_task
         : kind == "prox"  ? proxy_task
         : kind == "pend"  ? pending_task
         : kind == "bad"   ? bad_task
         : kind == "mac"   ? macro_task
         : kind == "files" ? files_task
         : kind == "info"  ? info_task
         : kind == "prog"  ? program_task
                           : live_task)(c, task);
    });
    rmtree(base);
});
}
