// Datasets on remote servers: a server of the harness, on the loopback
// interface, gives all kinds of good, bad, cut and redirected replies to the
// real client.
#include "common_ds.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/core/curl.h>
#include <arki/dataset/http.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/querymacro.h>
#include <arki/dataset/session.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/types/source.h>
#include <arki/types/source/url.h>
#include <arpa/inet.h>
#include <atomic>
#include <filesystem>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;

namespace {

/*
 * Server
 */

struct HttpRequest
{
    std::string method, path;
    std::map<std::string, std::string> fields;
    std::map<std::string, std::string> files; // by field name
    std::string str() const
    {
        std::string res = method + " " + path;
        for (auto& f : fields)
            res += " " + f.first + "=" + quote(f.second);
        for (auto& f : files)
            res += " " + f.first + ":=" + quote(f.second);
        return res;
    }
};

enum Framing { LENGTH, CHUNKED, CLOSE };
const char* framing_name[] = {"length", "chunked", "close"};

struct Reply
{
    int code         = 200;
    std::string headers;
    std::string body;
    Framing framing  = LENGTH;
    std::vector<size_t> splits; // where pieces end
    size_t cut       = std::string::npos; // bytes of the body that are sent
};

struct Server
{
    int sock = -1;
    int port = 0;
    std::thread thread;
    std::atomic<bool> stop{false};
    std::function<Reply(const HttpRequest&)> handler;
    std::vector<std::string> log;
    std::string error;

    Server()
    {
        sock = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_in a;
        memset(&a, 0, sizeof(a));
        a.sin_family      = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t l       = sizeof(a);
        if (sock < 0 || bind(sock, (struct sockaddr*)&a, l) < 0 || listen(sock, 20) < 0 || getsockname(sock, (struct sockaddr*)&a, &l) < 0)
            throw std::runtime_error("mc: cannot make a server");
        port   = ntohs(a.sin_port);
        thread = std::thread([this] { run(); });
    }
    ~Server()
    {
        stop = true;
        ::shutdown(sock, SHUT_RDWR);
        thread.join();
        ::close(sock);
    }
    std::string url() const { return "http://127.0.0.1:" + std::to_string(port); }

    void run()
    {
        while (!stop)
        {
            int fd = accept4(sock, nullptr, nullptr, SOCK_CLOEXEC);
            if (fd < 0)
                return;
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
            try
            {
                serve(fd);
            }
            catch (std::exception& e)
            {
                error = e.what();
            }
            ::close(fd);
        }
    }

    bool more(int fd, std::string& buf)
    {
        char tmp[65536];
        struct pollfd p = {fd, POLLIN, 0};
        while (poll(&p, 1, 200) == 0)
            if (stop)
                return false;
        ssize_t n = recv(fd, tmp, sizeof(tmp), 0);
        if (n <= 0)
            return false;
        buf.append(tmp, n);
        return true;
    }

    bool put(int fd, const std::string& s)
    {
        size_t pos = 0;
        while (pos < s.size())
        {
            ssize_t n = send(fd, s.data() + pos, s.size() - pos, MSG_NOSIGNAL);
            if (n <= 0)
                return false;
            pos += n;
        }
        return true;
    }

    void serve(int fd)
    {
        std::string buf;
        size_t end;
        while ((end = buf.find("\r\n\r\n")) == std::string::npos)
            if (!more(fd, buf))
                return;
        auto lines = split(buf.substr(0, end), '\n');
        buf.erase(0, end + 4);
        HttpRequest req;
        auto first = split(lines[0], ' ');
        req.method = first[0];
        req.path   = first[1];
        size_t length = 0;
        bool chunked  = false;
        std::string boundary;
        for (auto& l : lines)
        {
            auto lower = l;
            std::transform(lower.begin(), lower.end(), lower.begin(), ::tolower);
            if (lower.compare(0, 15, "content-length:") == 0)
                length = std::stoul(l.substr(15));
            if (lower.find("transfer-encoding: chunked") != std::string::npos)
                chunked = true;
            auto b = lower.find("boundary=");
            if (b != std::string::npos)
                boundary = l.substr(b + 9, l.find_first_of("\r;", b) - b - 9);
            if (lower.find("expect: 100") != std::string::npos)
                put(fd, "HTTP/1.1 100 Continue\r\n\r\n");
        }
        if (chunked)
            throw std::runtime_error("mc: chunked request");
        while (buf.size() < length)
            if (!more(fd, buf))
                return;
        if (!boundary.empty())
        {
            std::string sep = "--" + boundary;
            size_t pos      = buf.find(sep);
            while (pos != std::string::npos)
            {
                size_t start = pos + sep.size() + 2;
                size_t next  = buf.find("\r\n" + sep, start);
                if (next == std::string::npos)
                    break;
                auto part = buf.substr(start, next - start);
                auto h    = part.find("\r\n\r\n");
                auto head = part.substr(0, h);
                auto val  = part.substr(h + 4);
                auto n    = head.find(" name=\"");
                auto name = head.substr(n + 7, head.find('"', n + 7) - n - 7);
                if (head.find("filename=") != std::string::npos)
                    req.files[name] = val;
                else
                    req.fields[name] = val;
                pos = next + 2;
            }
        }
        log.push_back(req.str());
        Reply rep = handler(req);
        std::string out = "HTTP/1.1 " + std::to_string(rep.code) + " Reply\r\n" + rep.headers + "Connection: close\r\n";
        if (rep.framing == LENGTH)
            out += "Content-Length: " + std::to_string(rep.body.size()) + "\r\n";
        else if (rep.framing == CHUNKED)
            out += "Transfer-Encoding: chunked\r\n";
        if (!put(fd, out + "\r\n"))
            return;
        size_t limit = std::min(rep.cut, rep.body.size());
        auto ends    = rep.splits;
        ends.push_back(limit);
        size_t pos = 0;
        for (auto e : ends)
        {
            e = std::min(e, limit);
            if (e <= pos)
                continue;
            auto piece = rep.body.substr(pos, e - pos);
            if (rep.framing == CHUNKED)
                piece = cat(std::hex, piece.size(), "\r\n", piece, "\r\n");
            if (!put(fd, piece))
                return;
            pos = e;
        }
        if (rep.framing == CHUNKED && limit == rep.body.size() && rep.cut == std::string::npos)
            put(fd, "0\r\n\r\n");
        ::shutdown(fd, SHUT_WR);
        // Wait for the client to close
        std::string rest;
        while (more(fd, rest))
            ;
    }
};

/*
 * What the server has
 */

struct Served
{
    Conf conf;
    std::shared_ptr<World> world;
    std::vector<Msg> msgs;

    Served(const std::string& root, const std::string& desc) : conf(Conf::parse(desc))
    {
        fs::create_directories(root);
        world = std::make_shared<World>(conf, root);
        for (unsigned i : {0, 1, 2, 5})
        {
            auto r = mc::ds::apply(*world, "i" + std::to_string(i));
            if (r.threw || r.results.substr(0, 1) != "K")
                throw std::runtime_error("mc: cannot import " + r.error + r.results);
            msgs.push_back(msg(conf, i));
        }
    }

    Reply query(const std::string& url, const std::string& expr, const HttpRequest& req)
    {
        Reply rep;
        auto get = [&](const char* name) { auto i = req.fields.find(name); return i == req.fields.end() ? std::string() : i->second; };
        auto style = get("style");
        auto reader = world->reader();
        auto matcher = world->session->matcher(expr);
        if (style.empty() || style == "inline")
        {
            query::Data q(matcher, style == "inline");
            if (!get("sort").empty())
                q.sorter = metadata::sort::Compare::parse(get("sort"));
            std::string res;
            reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                if (style == "inline")
                    md->makeInline();
                else
                    md->set_source(types::Source::createURL(conf.format, url));
                auto out = StreamOutput::create_discard();
                std::vector<uint8_t> buf;
                auto so = StreamOutput::create(buf);
                md->write(*so);
                res.append(buf.begin(), buf.end());
                ends.push_back(res.size());
                return true;
            });
            rep.body = res;
        }
        else if (style == "data")
            rep.body = query_bytes(*reader, expr, get("sort"));
        else if (style == "postprocess")
            rep.body = "output of " + get("command");
        else
            rep.code = 404;
        return rep;
    }
    // Ends of elements in the last reply
    std::vector<size_t> ends;

    Reply summary(const std::string& expr)
    {
        Reply rep;
        // Compression does not always give the same bytes
        auto& body = summaries[expr];
        if (body.empty())
        {
            Summary s;
            world->reader()->query_summary(world->session->matcher(expr), s);
            auto enc = s.encode(true);
            body.assign(enc.begin(), enc.end());
        }
        rep.body = body;
        return rep;
    }
    std::map<std::string, std::string> summaries;

    // Whole server
    Reply reply(const std::string& base, const HttpRequest& req)
    {
        ends.clear();
        auto get = [&](const char* name) { auto i = req.fields.find(name); return i == req.fields.end() ? std::string() : i->second; };
        Reply rep;
        if (req.path == "/dataset/ds/query" && req.method == "POST")
            return query(base + "/dataset/ds", get("query"), req);
        if (req.path == "/dataset/ds/summary" && req.method == "POST")
            return summary(get("query"));
        if (req.path == "/query" && req.method == "POST")
            return query(base + "/query", get("qmacro") == "test" ? get("query").substr(3) : "reftime:=1999", req);
        if (req.path == "/summary" && req.method == "POST")
            return summary(get("qmacro") == "test" ? get("query").substr(3) : "reftime:=1999");
        if (req.path == "/dataset/ds/config" && req.method == "GET")
        {
            rep.body = "[ds]\ntype = remote\npath = " + base + "/dataset/ds\nserver = " + base + "\n";
            return rep;
        }
        if (req.path == "/config" && req.method == "GET")
        {
            rep.body = "[ds]\ntype = remote\npath = " + base + "/dataset/ds\nserver = " + base + "\n\n[other]\ntype = remote\npath = " + base + "/dataset/other\nserver = " + base + "\n";
            return rep;
        }
        rep.code    = 404;
        rep.headers = "Arkimet-Exception: not found here\r\n";
        rep.body    = "not found";
        return rep;
    }
};

std::shared_ptr<dataset::Dataset> remote(const std::string& path, const std::string& qmacro = "", const std::string& name = "ds")
{
    core::cfg::Section cfg;
    cfg.set("name", name);
    cfg.set("type", "remote");
    cfg.set("path", path);
    if (!qmacro.empty())
        cfg.set("qmacro", qmacro);
    auto session = std::make_shared<dataset::Session>(false);
    return session->dataset(cfg);
}

struct Count : public query::Progress
{
    unsigned started = 0, finished = 0;
    size_t c = 0, b = 0;
    void start(size_t, size_t) override { ++started; }
    void update(size_t n, size_t s) override { c += n, b += s; }
    void done() override { ++finished; }
};

struct Result
{
    bool threw = false, stopped_by_dest = false;
    bool ret   = true;
    std::string error;
    std::vector<std::string> got; // items, and data
    std::vector<std::string> urls;
    std::string bytes;
    std::shared_ptr<Count> progress = std::make_shared<Count>();
};

std::string describe_md(const Metadata& md, bool with_data)
{
    std::string res = items(md);
    if (with_data)
    {
        auto d = const_cast<Metadata&>(md).get_data().read();
        res += "|" + std::string(d.begin(), d.end());
    }
    return res;
}

struct Quit : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// What is asked for, and the different ways of asking
struct Ask
{
    std::string kind; // data, inline, bytes, post, summary
    std::string expr, sort;
    int stop = -1, quit = -1;
    std::string str() const { return kind + ":" + expr + ":" + sort + (stop >= 0 ? " stop " + std::to_string(stop) : "") + (quit >= 0 ? " throw " + std::to_string(quit) : ""); }
};

Result ask(dataset::Reader& r, const Ask& a, dataset::Session& session)
{
    Result res;
    try
    {
        auto m = session.matcher(a.expr);
        if (a.kind == "data" || a.kind == "inline")
        {
            query::Data q(m, a.kind == "inline");
            if (!a.sort.empty())
                q.sorter = metadata::sort::Compare::parse(a.sort);
            q.progress = res.progress;
            res.ret    = r.query_data(q, [&](std::shared_ptr<Metadata> md) {
                if (a.quit == (int)res.got.size())
                    throw Quit("the destination gives up");
                if (res.stopped_by_dest)
                    throw std::logic_error("mc: called again after it asked to stop");
                res.got.push_back(describe_md(*md, a.kind == "inline"));
                res.urls.push_back(md->has_source() ? md->source().to_string() : "");
                if (a.stop == (int)res.got.size() - 1)
                {
                    res.stopped_by_dest = true;
                    return false;
                }
                return true;
            });
        }
        else if (a.kind == "summary")
        {
            Summary s;
            r.query_summary(m, s);
            res.bytes = str(summarise(s));
        }
        else
        {
            query::Bytes q;
            q.matcher = m;
            if (a.kind == "post")
                q.setPostprocess(m, "cmd with args");
            else
                q.setData(m);
            if (!a.sort.empty())
                q.sorter = metadata::sort::Compare::parse(a.sort);
            q.progress = res.progress;
            std::vector<uint8_t> buf;
            auto out = StreamOutput::create(buf);
            try
            {
                r.query_bytes(q, *out);
            }
            catch (...)
            {
                res.bytes.assign(buf.begin(), buf.end());
                throw;
            }
            res.bytes.assign(buf.begin(), buf.end());
        }
    }
    catch (std::logic_error&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.error = e.what();
    }
    return res;
}

std::vector<std::string> exprs(const Conf& conf)
{
    return {"", "reftime:>=2020-01-01 06:00:00,<2020-01-03", conf.format == DataFormat::VM2 ? "product:VM2,2" : "product:GRIB1,200,140,2", "reftime:=2030"};
}

std::vector<std::string> sorts() { return {"", "-reftime", "product,reftime"}; }

bool prefix(const std::vector<std::string>& a, const std::vector<std::string>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

Result local(Served& s, const Ask& a)
{
    auto r = s.world->reader();
    if (a.kind == "post")
    {
        Result res;
        res.bytes = "output of cmd with args";
        return res;
    }
    return ask(*r, a, *s.world->session);
}

void same(const Result& got, const Result& exp, const Ask& a, const std::string& url)
{
    if (got.threw)
        throw mc::Fail("http-error", a.str() + ": " + got.error);
    if (got.got != exp.got || got.bytes != exp.bytes)
        throw mc::Fail("http-differs", a.str() + ": remote gives " + join(got.got, " ") + got.bytes + " local gives " + join(exp.got, " ") + exp.bytes);
    if (got.ret != exp.ret)
        throw mc::Fail("http-return", a.str() + ": the results differ");
    if (a.kind == "data")
        for (auto& u : got.urls)
            if (u.find(url) == std::string::npos)
                throw mc::Fail("http-source", a.str() + ": source is " + u);
    if ((a.kind == "data" || a.kind == "inline") && (got.progress->started != 1 || got.progress->finished != 1 || got.progress->c != got.got.size()))
        throw mc::Fail("http-progress", a.str() + cat(": progress was told of ", got.progress->c, " elements, started ", got.progress->started, " finished ", got.progress->finished));
    if ((a.kind == "bytes" || a.kind == "post") && (got.progress->started != 1 || got.progress->finished != 1 || got.progress->b != got.bytes.size()))
        throw mc::Fail("http-progress", a.str() + cat(": progress was told of ", got.progress->b, " bytes, started ", got.progress->started, " finished ", got.progress->finished));
}

std::vector<Ask> asks(const Conf& conf)
{
    std::vector<Ask> res;
    for (auto kind : {"data", "inline", "bytes", "summary", "post"})
        for (auto& e : exprs(conf))
            for (auto& s : sorts())
                if (s.empty() || std::string(kind) != "summary")
                    res.push_back({kind, e, s});
    return res;
}

std::string expected_request(const Ask& a, const std::string& path, const std::string& qmacro, dataset::Session& session)
{
    HttpRequest r;
    r.method          = "POST";
    r.path            = path + (a.kind == "summary" ? "/summary" : "/query");
    r.fields["query"] = qmacro.empty() ? session.matcher(a.expr).toStringExpanded() : qmacro;
    if (!qmacro.empty())
        r.fields["qmacro"] = "test";
    if (!a.sort.empty())
        r.fields["sort"] = metadata::sort::Compare::parse(a.sort)->toString();
    if (a.kind == "inline")
        r.fields["style"] = "inline";
    if (a.kind == "bytes")
        r.fields["style"] = "data";
    if (a.kind == "post")
        r.fields["style"] = "postprocess", r.fields["command"] = "cmd with args";
    return r.str();
}

/*
 * Good replies, in all forms
 */
void good_task(Ctx& c, const std::string& task)
{
    // task is good|CONF
    auto args = split(task, '|');
    Served served(fresh_scratch() + "/srv", args[1]);
    Server server;
    std::function<void(Reply&)> change;
    server.handler = [&](const HttpRequest& r) {
        Reply rep = served.reply(server.url(), r);
        if (change && rep.code == 200)
            change(rep);
        return rep;
    };
    auto session = std::make_shared<dataset::Session>(false);
    auto run     = [&](dataset::Reader& r, const Ask& a, const Result& exp, const std::string& how) {
        c.current(task + " " + a.str() + " " + how);
        c.eval(), c.transitions();
        try
        {
            server.log.clear();
            auto got = ask(r, a, *session);
            if (!server.error.empty())
                throw std::logic_error(server.error);
            same(got, exp, a, server.url());
        }
        catch (mc::Fail& e)
        {
            c.fail(e.key, e.what());
        }
    };
    for (auto& slash : {"", "/"})
    {
        auto ds = remote(server.url() + "/dataset/ds" + slash);
        auto r  = ds->create_reader();
        // With a query macro, which the server runs
        std::string macro = "do reftime:>=2020-01-02";
        auto mds          = remote(server.url() + slash, macro, "test");
        auto mr           = mds->create_reader();
        for (auto& a : asks(served.conf))
        {
            auto exp = local(served, a);
            c.traces();
            c.distinct(join(exp.got, " ") + exp.bytes);
            run(*r, a, exp, "");
            auto want = expected_request(a, "/dataset/ds", "", *session);
            if (server.log != std::vector<std::string>{want})
                c.fail("http-request", "requests are " + join(server.log, "; ") + " instead of " + want);
            Ask ma  = a;
            ma.expr = macro.substr(3);
            auto mexp = local(served, ma);
            run(*mr, a, mexp, "macro");
            want = expected_request(a, "", macro, *session);
            if (server.log != std::vector<std::string>{want})
                c.fail("http-request", "requests are " + join(server.log, "; ") + " instead of " + want);
            // Destinations that stop, or fail
            for (int n = 0; n < (int)exp.got.size(); ++n)
            {
                Ask s  = a;
                s.stop = n;
                run(*r, s, local(served, s), "");
                s.stop = -1;
                s.quit = n;
                c.current(task + " " + s.str());
                auto got = ask(*r, s, *session);
                if (!got.threw || got.error.find("gives up") == std::string::npos)
                    c.fail("http-throw", s.str() + ": error of the destination is reported as " + got.error);
                if (!prefix(got.got, exp.got) || got.got.size() != (size_t)n)
                    c.fail("http-throw", s.str() + ": data before the error differ");
                run(*r, a, exp, "after " + s.str());
            }
        }
        // Pieces, for some
        if (*slash)
            continue;
        for (auto& a : asks(served.conf))
        {
            if (!a.sort.empty() || (a.expr != "" && !mc::args.thorough))
                continue;
            auto exp    = local(served, a);
            size_t size = 0;
            for (unsigned f = 0; f < 3; ++f)
            {
                change = [&](Reply& rep) { rep.framing = (Framing)f; size = rep.body.size(); };
                run(*r, a, exp, cat("as ", framing_name[f]));
            }
            // Each piece of a chunked reply is given by itself
            for (size_t s = 1; s < size; ++s)
            {
                change = [&](Reply& rep) { rep.framing = CHUNKED; rep.splits = {s}; };
                run(*r, a, exp, cat("split at ", s));
            }
            for (size_t step : {1, 2, 3, 7, 16, 100})
            {
                change = [&](Reply& rep) { rep.framing = CHUNKED; for (size_t i = step; i < rep.body.size(); i += step) rep.splits.push_back(i); };
                run(*r, a, exp, cat("in pieces of ", step));
            }
            change = nullptr;
        }
        // Files for postprocessors
        auto dir = scratch() + "/files";
        fs::create_directories(dir);
        std::vector<std::pair<std::string, std::string>> all{{dir + "/a", "contents"}, {dir + "/b", ""}, {dir + "/c", std::string("x\0\r\n--y", 7)}};
        for (unsigned n = 0; n <= all.size(); ++n)
        {
            std::vector<std::string> paths;
            HttpRequest want;
            for (unsigned i = 0; i < n; ++i)
            {
                spew(all[i].first, all[i].second);
                paths.push_back(all[i].first);
                want.files["postprocfile" + std::to_string(i + 1)] = all[i].second;
            }
            Ask a{"post", "", ""};
            if (n)
                setenv("ARKI_POSTPROC_FILES", join(paths, ":").c_str(), 1);
            run(*r, a, local(served, a), cat("with ", n, " files"));
            unsetenv("ARKI_POSTPROC_FILES");
            want.method = "POST";
            want.path   = "/dataset/ds/query";
            want.fields = {{"query", ""}, {"style", "postprocess"}, {"command", "cmd with args"}};
            if (server.log != std::vector<std::string>{want.str()})
                c.fail("http-request", "requests are " + join(server.log, "; ") + " instead of " + want.str());
        }
    }
    // Aliases are expanded before sending
    auto aliases = core::cfg::Sections::parse("[product]\nthat = " + exprs(served.conf)[2].substr(8) + "\nboth = that or " + exprs(served.conf)[2].substr(8) + "\n");
    session->load_aliases(*aliases);
    auto ds = remote(server.url() + "/dataset/ds");
    auto r  = ds->create_reader();
    for (auto expr : {"product:that", "product:both; reftime:>=2020-01-02"})
        for (auto kind : {"data", "inline", "bytes", "summary"})
        {
            Ask a{kind, expr, ""};
            Ask la  = a;
            la.expr = std::string(expr) == "product:that" ? exprs(served.conf)[2] : exprs(served.conf)[2] + "; reftime:>=2020-01-02";
            run(*r, a, local(served, la), "with aliases");
            for (auto& l : server.log)
                if (l.find("that") != std::string::npos)
                    c.fail("http-request", "aliases are sent: " + l);
        }
}

/*
 * Replies that stop before the end, errors, redirects
 */
void bad_task(Ctx& c, const std::string& task)
{
    // task is bad|CONF|KIND
    auto args = split(task, '|');
    Served served(fresh_scratch() + "/srv", args[1]);
    Server server;
    std::function<void(Reply&)> change;
    unsigned redirects = 0;
    std::function<std::string(unsigned)> location;
    int redirect_code = 302;
    server.handler    = [&](const HttpRequest& r) {
        if (location && redirects)
        {
            Reply rep;
            rep.code = redirect_code;
            rep.headers = location(redirects);
            rep.body = "you should go elsewhere";
            --redirects;
            return rep;
        }
        Reply rep = served.reply(server.url(), r);
        if (change)
            change(rep);
        return rep;
    };
    auto session = std::make_shared<dataset::Session>(false);
    auto ds = remote(server.url() + "/dataset/ds");
    auto r  = ds->create_reader();
    auto again = [&](const Ask& a, const Result& exp, const std::string& what) {
        // The same reader still works
        auto l = location;
        auto ch = change;
        location = nullptr;
        change   = nullptr;
        try
        {
            same(ask(*r, a, *session), exp, a, server.url());
        }
        catch (mc::Fail& e)
        {
            c.fail(e.key + "|reused", what + ", then: " + e.what());
        }
        location = l;
        change   = ch;
    };
    for (auto& a : asks(served.conf))
    {
        if (a.kind != args[2] || (a.expr != "" && a.expr != exprs(served.conf)[3] && !mc::args.thorough) || a.sort.size() > 8)
            continue;
        auto exp    = local(served, a);
        size_t size = 0;
        std::vector<size_t> ends;
        change = [&](Reply& rep) { size = rep.body.size(); };
        ask(*r, a, *session);
        ends = served.ends;
        c.traces();
        // Cuts
        for (unsigned f = 0; f < 3; ++f)
            for (size_t n = 0; n < size + (f == CHUNKED); ++n)
                for (size_t piece : {0, 5})
                {
                    if (piece && (f != CHUNKED || (!mc::args.thorough && n % 3)))
                        continue;
                    auto what = task + " " + a.str() + cat(" cut at ", n, " of ", size, " sent as ", framing_name[f], " ", piece);
                    c.current(what);
                    c.eval(), c.transitions();
                    change = [&](Reply& rep) {
                        rep.framing = (Framing)f;
                        rep.cut     = n;
                        for (size_t i = piece; piece && i < rep.body.size(); i += piece)
                            rep.splits.push_back(i);
                    };
                    auto got = ask(*r, a, *session);
                    // Nothing in the reply tells
                    bool hidden = f == CLOSE && (a.kind == "bytes" || a.kind == "post" || ((a.kind == "data" || a.kind == "inline") && (n == 0 || std::find(ends.begin(), ends.end(), n) != ends.end())));
                    if (!got.threw && !hidden)
                        c.fail("http-cut|" + a.kind, what + ": no error, and the results have " + std::to_string(got.got.size()) + " elements instead of " + std::to_string(exp.got.size()) + ", " + std::to_string(got.bytes.size()) + " bytes instead of " + std::to_string(exp.bytes.size()));
                    if (!prefix(got.got, exp.got))
                        c.fail("http-cut-data|" + a.kind, "results are " + join(got.got, " "));
                    if (a.kind != "summary" && exp.bytes.compare(0, got.bytes.size(), got.bytes) != 0)
                        c.fail("http-cut-data|" + a.kind, "results are " + got.bytes);
                    if (n % 50 == 0 || mc::args.thorough)
                        again(a, exp, "after a cut");
                }
        // Errors
        for (int code : {400, 401, 403, 404, 405, 500, 502, 503})
            for (auto exc : {"", "something: went, wrong"})
                for (unsigned f = 0; f < 3; ++f)
                    for (auto body : {"", "page of error\nwith lines\n"})
                    {
                        c.current(task + " " + a.str() + cat(" error ", code, " ", exc, " ", framing_name[f], " ", quote(body)));
                        c.eval(), c.transitions();
                        change = [&](Reply& rep) {
                            rep = Reply();
                            rep.code = code;
                            if (*exc)
                                rep.headers = std::string("Arkimet-Exception: ") + exc + "\r\n";
                            rep.body = body;
                            rep.framing = (Framing)f;
                            rep.splits = {4, 8};
                        };
                        auto got = ask(*r, a, *session);
                        if (!got.threw)
                            c.fail("http-code", "error is not reported");
                        if (!got.got.empty() || !got.bytes.empty())
                            c.fail("http-code-data", "error is given as data: " + join(got.got, " ") + got.bytes);
                        if (got.error.find(std::to_string(code)) == std::string::npos || (*exc && got.error.find(exc) == std::string::npos) || (!*exc && got.error.find(body) == std::string::npos))
                            c.fail("http-code-message", "error is reported as " + got.error);
                        again(a, exp, "after an error");
                    }
        change = nullptr;
        // Redirects
        for (int code : {301, 302, 303, 307, 308})
            for (unsigned n = 1; n <= 3; ++n)
                for (bool absolute : {false, true})
                {
                    c.current(task + " " + a.str() + cat(" redirect ", code, " ", n, " times, ", absolute ? "absolute" : "relative"));
                    c.eval(), c.transitions();
                    redirects     = n;
                    redirect_code = code;
                    location      = [&](unsigned left) {
                        std::string path = left > 1 ? "/go" + std::to_string(left) : std::string("/dataset/ds/") + (a.kind == "summary" ? "summary" : "query");
                        return "Location: " + (absolute ? server.url() : std::string()) + path + "\r\n";
                    };
                    try
                    {
                        server.log.clear();
                        same(ask(*r, a, *session), exp, a, server.url());
                        if (server.log.size() != n + 1)
                            c.fail("http-redirect", cat(server.log.size(), " requests"));
                    }
                    catch (mc::Fail& e)
                    {
                        c.fail(e.key + "|redirect", e.what());
                    }
                    redirects = 0;
                }
        // A redirect to nowhere, or to itself for ever
        for (bool nowhere : {true, false})
        {
            c.current(task + " " + a.str() + (nowhere ? " redirect to nowhere" : " redirect forever"));
            c.eval(), c.transitions();
            redirects = 300;
            location = [&](unsigned) { return nowhere ? std::string() : std::string("Location: /dataset/ds/query\r\n"); };
            server.log.clear();
            auto got = ask(*r, a, *session);
            if (!got.threw || !got.got.empty() || !got.bytes.empty())
                c.fail("http-redirect-error", "no error");
            if (server.log.size() > 200)
                c.fail("http-redirect-loop", "redirects are followed forever");
            redirects = 0;
            again(a, exp, "after a redirect");
        }
        location = nullptr;
        // Replies with something else
        if (a.kind != "bytes" && a.kind != "post")
        {
            for (auto body : {"<html>Hello, this is a proxy</html>", "x", "MD", "SU", "junk after"})
                for (unsigned f = 0; f < 3; ++f)
                {
                    c.current(task + " " + a.str() + cat(" reply is ", body, " ", framing_name[f]));
                    c.eval(), c.transitions();
                    change = [&](Reply& rep) {
                        rep.body = std::string(body) == "junk after" ? rep.body + "junk" : body;
                        rep.framing = (Framing)f;
                    };
                    auto got = ask(*r, a, *session);
                    if (!got.threw && !(a.kind == "summary" && std::string(body) == "junk after"))
                        c.fail("http-junk", "a reply that is not data gives no error");
                    if (!prefix(got.got, exp.got))
                        c.fail("http-junk", "results are " + join(got.got, " "));
                    again(a, exp, "after junk");
                }
            change = nullptr;
        }
    }
    // Nobody there
    auto none = remote("http://127.0.0.1:1/dataset/ds");
    auto nr   = none->create_reader();
    for (auto& a : asks(served.conf))
        if (a.kind == args[2])
        {
            c.current(task + " " + a.str() + " nobody there");
            c.eval();
            auto got = ask(*nr, a, *session);
            if (!got.threw || !got.got.empty() || !got.bytes.empty())
                c.fail("http-nobody", "no error");
        }
}

/*
 * Configuration, aliases, expansion of queries
 */
void conf_task(Ctx& c, const std::string& task)
{
    // task is srv|conf
    Server s[3];
    std::string reply[3];   // to qexpand, empty for error
    std::string aliases[3]; // empty for error
    unsigned asked[3] = {0, 0, 0};
    auto root = fresh_scratch();
    Served served(root + "/srv", "type=iseg;fmt=grib;unique=reftime,product,area;step=daily");
    for (unsigned i = 0; i < 3; ++i)
        s[i].handler = [&, i](const HttpRequest& r) {
            Reply rep;
            ++asked[i];
            if (r.path == "/qexpand" && r.method == "POST" && !reply[i].empty())
            {
                rep.body = reply[i] + (r.fields.at("query") == "product:that" ? "" : "?") + "\n";
                return rep;
            }
            if (r.path == "/aliases" && r.method == "GET" && !aliases[i].empty())
            {
                rep.body = aliases[i];
                return rep;
            }
            return served.reply(s[i].url(), r);
        };
    // Configuration
    auto session = std::make_shared<dataset::Session>(false);
    for (auto slash : {"", "/"})
    {
        c.current(task + " configuration" + slash);
        c.eval();
        auto one = session->read_config(s[0].url() + "/dataset/ds" + slash);
        if (one->value("name") != "ds" || one->value("type") != "remote" || one->value("path") != s[0].url() + "/dataset/ds" || one->value("server") != s[0].url())
            c.fail("http-config", "configuration is " + one->to_string());
        auto many = session->read_configs(s[0].url() + slash);
        if (many->size() != 2 || !many->section("ds") || !many->section("other") || many->section("ds")->value("name") != "ds" || many->section("other")->value("name") != "other")
            c.fail("http-config", "configurations are " + many->to_string());
        // More than one, or none
        for (auto path : {"", "/dataset/other"})
        {
            bool threw = false;
            try
            {
                session->read_config(s[0].url() + path + slash);
            }
            catch (std::exception& e)
            {
                threw = true;
            }
            if (!threw)
                c.fail("http-config", std::string("reading the configuration of one dataset in '") + path + "' gives no error");
        }
        // Configurations lead to working datasets
        Ask a{"inline", "", ""};
        try
        {
            same(ask(*session->dataset(*one)->create_reader(), a, *session), local(served, a), a, s[0].url());
        }
        catch (mc::Fail& e)
        {
            c.fail(e.key + "|config", e.what());
        }
    }
    // Expansion of queries: all answers of three systems
    std::vector<std::string> answers{"A", "B", "error", "down", "local", "same"};
    for (unsigned n = 0; n < 6 * 6 * 6; ++n)
    {
        auto cfg = std::make_shared<core::cfg::Sections>();
        std::set<std::string> given;
        bool local_first = true;
        unsigned idx[3]  = {n % 6, n / 6 % 6, n / 36};
        std::string desc;
        auto sess = std::make_shared<dataset::Session>(false);
        sess->load_aliases(*core::cfg::Sections::parse("[product]\nthat = GRIB1,1\n"));
        auto local_expanded = sess->matcher("product:that").toStringExpanded();
        for (unsigned i = 0; i < 3; ++i)
        {
            auto& ans = answers[idx[i]];
            desc += " " + ans;
            reply[i].clear();
            auto sec = std::make_shared<core::cfg::Section>();
            sec->set("name", "d" + std::to_string(i));
            if (ans == "local")
                given.insert(local_expanded);
            else
            {
                sec->set("server", ans == "down" ? "http://127.0.0.1:1" : ans == "same" ? s[0].url() : s[i].url());
                if (ans == "A" || ans == "B")
                    reply[i] = "product:" + ans;
                if (ans == "same" && i == 0)
                    reply[i] = "product:A";
            }
            cfg->emplace("d" + std::to_string(i), sec);
        }
        for (unsigned i = 0; i < 3; ++i)
            if (!reply[i].empty())
                given.insert(reply[i]);
        (void)local_first;
        c.current(task + " expansion" + desc);
        c.eval(), c.transitions();
        std::string got;
        bool threw = false;
        try
        {
            got = sess->expand_remote_query(cfg, "product:that");
        }
        catch (std::exception& e)
        {
            threw = true;
        }
        c.distinct(cat(threw, got));
        if (threw != (given.size() > 1))
            c.fail("http-expand", threw ? "error, and there is one expansion" : "different expansions, and no error");
        else if (!threw && got != (given.empty() ? "product:that" : *given.begin()))
            c.fail("http-expand", "query becomes " + got);
    }
    // Aliases of servers
    std::vector<std::string> sets{
        "[product]\nthat = GRIB1,1\n", "[product]\nthat = GRIB1,2\n", "[product]\nthis = GRIB1,3\nthat = GRIB1,1\n", "[product]\nboth = that or GRIB1,3\nthat = GRIB1,1\n[level]\ng00 = GRIB1,1\n", "",
    };
    auto expand = [](dataset::Session& s, const std::string& q) {
        try
        {
            return s.matcher(q).toStringExpanded();
        }
        catch (std::exception& e)
        {
            return std::string("error");
        }
    };
    auto all = [&](dataset::Session& s) { return expand(s, "product:that") + "|" + expand(s, "product:this") + "|" + expand(s, "product:both") + "|" + expand(s, "level:g00"); };
    for (unsigned n = 0; n < 125; ++n)
    {
        unsigned idx[3] = {n % 5, n / 5 % 5, n / 25};
        auto pool_session = std::make_shared<dataset::Session>(false);
        auto pool         = std::make_shared<dataset::Pool>(pool_session);
        std::map<std::string, std::string> know;
        c.current(task + cat(" aliases ", idx[0], " ", idx[1], " ", idx[2]));
        for (unsigned i = 0; i < 3; ++i)
            aliases[i] = sets[idx[i]];
        for (unsigned i = 0; i < 3; ++i)
        {
            c.eval(), c.transitions();
            auto before = all(*pool_session);
            std::map<std::string, std::string> adds;
            switch (idx[i])
            {
                case 0: adds = {{"that", "1"}}; break;
                case 1: adds = {{"that", "2"}}; break;
                case 2: adds = {{"that", "1"}, {"this", "3"}}; break;
                case 3: adds = {{"that", "1"}, {"both", "1 3"}, {"g00", "l"}}; break;
            }
            bool error = idx[i] == 4;
            for (auto& k : adds)
                if (know.count(k.first) && know[k.first] != k.second)
                    error = true;
            bool threw = false;
            core::cfg::Section cfg;
            cfg.set("name", "d" + std::to_string(i));
            cfg.set("type", "remote");
            cfg.set("path", s[i].url() + "/dataset/d" + std::to_string(i));
            cfg.set("server", s[i].url());
            unsigned asks = asked[i];
            try
            {
                pool->add_dataset(cfg);
                // Another from the same server
                cfg.set("name", "e" + std::to_string(i));
                pool->add_dataset(cfg);
            }
            catch (std::exception& e)
            {
                threw = true;
            }
            if (threw != error)
                c.fail("http-aliases", threw ? "error, and aliases agree" : "aliases differ, or are not there, and no error");
            if (!threw && asked[i] != asks + 1)
                c.fail("http-aliases", cat("aliases of a server are asked for ", asked[i] - asks, " times"));
            if (threw)
            {
                if (all(*pool_session) != before)
                    c.fail("http-aliases", "aliases change from " + before + " to " + all(*pool_session) + " when there is an error");
                if (pool->has_dataset("d" + std::to_string(i)))
                    c.fail("http-aliases", "dataset added, with an error");
            }
            else
                for (auto& k : adds)
                    know[k.first] = k.second;
            std::string want = (know.count("that") ? "product:GRIB1," + know["that"] : "error") + "|" + (know.count("this") ? "product:GRIB1,3" : "error") + "|" +
                               (know.count("both") ? "product:GRIB1,1 or GRIB1,3" : "error") + "|" + (know.count("g00") ? "level:GRIB1,1" : "error");
            auto got = all(*pool_session);
            auto strip = [](std::string s) {
                std::string r;
                for (auto ch : s)
                    if (ch != ' ')
                        r += ch;
                for (size_t p; (p = r.find(",,")) != std::string::npos;)
                    r.erase(p, 1);
                for (size_t p; (p = r.find(",|")) != std::string::npos;)
                    r.erase(p, 1);
                while (!r.empty() && r.back() == ',')
                    r.pop_back();
                return r;
            };
            c.distinct(got);
            if (strip(got) != strip(want))
                c.fail("http-aliases", "queries expand to " + got + " instead of " + want);
        }
    }
    // Where macros run: all lists of up to three datasets, in four places
    for (unsigned n = 0; n < 4 * 5 * 5; ++n)
    {
        unsigned idx[3] = {n % 4, n / 4 % 5, n / 20};
        auto sess = std::make_shared<dataset::Session>(false);
        auto pool = std::make_shared<dataset::Pool>(sess);
        std::set<std::string> servers;
        c.current(task + cat(" macro ", idx[0], " ", idx[1], " ", idx[2]));
        c.eval(), c.transitions();
        for (unsigned i = 0; i < 3; ++i)
        {
            if (idx[i] == 4)
                continue;
            std::string name = "d" + std::to_string(i);
            if (idx[i] == 3)
            {
                auto cfg = served.conf.section(root + "/srv", name);
                pool->add_dataset(*cfg, false);
                servers.insert("");
                continue;
            }
            core::cfg::Section cfg;
            cfg.set("name", name);
            cfg.set("type", idx[i] == 2 ? "REMOTE" : "remote");
            cfg.set("path", s[idx[i]].url() + "/dataset/" + name);
            cfg.set("server", s[idx[i]].url());
            try
            {
                pool->add_dataset(cfg, false);
            }
            catch (std::exception&)
            {
                servers.insert("error");
                break;
            }
            servers.insert(s[idx[i]].url());
        }
        if (servers.count("error"))
            continue;
        bool is_remote = servers.size() == 1 && !servers.begin()->empty();
        std::string got;
        try
        {
            auto ds = pool->querymacro("test", "do reftime:>=2020-01-02");
            auto h  = std::dynamic_pointer_cast<dataset::http::Dataset>(ds);
            got     = h ? h->baseurl : "local";
            if (h)
            {
                Ask a{"inline", "", ""};
                Ask la{"inline", "reftime:>=2020-01-02", ""};
                same(ask(*ds->create_reader(), a, *sess), local(served, la), a, got);
            }
        }
        catch (mc::Fail& e)
        {
            c.fail(e.key + "|macro", e.what());
        }
        catch (std::exception& e)
        {
            // No Python here to run it
            got = "local";
        }
        if (got != (is_remote ? *servers.begin() : "local"))
            c.fail("http-macro", "macro runs in " + got);
    }
}

mc::Register r("C30", [] {
    init();
    bool t = args.thorough;
    for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "ARKI_POSTPROC_FILES"})
        unsetenv(v);
    setenv("HOME", scratch().c_str(), 1);
    std::string u = ";unique=reftime,product,area;step=daily";
    std::vector<std::string> confs{"type=iseg;fmt=grib" + u, "type=iseg;fmt=vm2" + u};
    if (t)
        confs.push_back("type=simple;fmt=bufr;step=daily");
    std::vector<std::string> tasks;
    for (auto& cf : confs)
        tasks.push_back("good|" + cf);
    run_tasks(tasks, good_task, "good|");
    tasks.clear();
    for (auto& cf : confs)
        for (auto kind : {"data", "inline", "bytes", "summary", "post"})
            tasks.push_back("bad|" + cf + "|" + kind);
    run_tasks(tasks, bad_task, "bad|");
    run_tasks({"srv|conf"}, conf_task, "srv|");
});

} // namespace
