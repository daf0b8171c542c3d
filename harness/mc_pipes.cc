// Output streams, with and without filters: exhaustive exploration of how a
// filter, a reader of the output and the system behave while data are sent.
//
// The code runs for real; the filter, the reader and system calls on pipes are
// simulated, and choose what to do at each step.
#include "mc.h"
#include <arki/core/file.h>
#include <arki/stream/abstract.h>
#include <arki/stream/concrete.h>
#include <arki/stream/filter.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace mc;
using namespace arki;
using arki::stream::TestingBackend;

namespace {

const size_t PIPE_SIZE = 65536;

struct Hang : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

/*
 * Choices
 */

struct Chooser
{
    std::vector<unsigned> prefix;
    std::vector<std::pair<unsigned, unsigned>> taken; // choice, alternatives
    std::vector<std::string> names;

    /// Choose among n things, the first of which is the usual one
    unsigned pick(unsigned n, const char* what)
    {
        unsigned r = taken.size() < prefix.size() ? prefix[taken.size()] : 0;
        if (r >= n)
            throw std::runtime_error("mc: choices cannot be repeated");
        taken.emplace_back(r, n);
        if (r)
            names.push_back(mc::cat(what, "=", r, "@", taken.size() - 1));
        return r;
    }
};

/*
 * Filters
 */

struct Filter
{
    std::string kind;
    size_t arg   = 0;
    size_t seen  = 0;
    size_t wrote = 0;
    std::string all;

    bool started = false;

    /// What is written before reading anything. Returns true if it then exits
    bool start(std::string& out, std::string& err, int& code)
    {
        if (kind == "header")
            out += std::string(arg, 'H');
        else if (kind == "exit")
        {
            out += std::string(arg, 'x');
            return true;
        }
        else if (kind == "fail")
        {
            err += std::string(arg, 'E');
            code = 3;
            return true;
        }
        return false;
    }
    bool data(const std::string& in, std::string& out, std::string& err)
    {
        seen += in.size();
        if (kind == "cat" || kind == "header" || kind == "noerr")
            out += in;
        else if (kind == "head")
        {
            auto n = std::min(in.size(), arg - wrote);
            out += in.substr(0, n);
            wrote += n;
            return wrote == arg;
        }
        else if (kind == "double")
            for (auto c : in)
            {
                out += c;
                out += c;
            }
        else if (kind == "hold" || kind == "late")
            all += in;
        else if (kind == "chatty")
        {
            out += in;
            size_t want = seen * arg / 10;
            err += std::string(want - wrote, 'e');
            wrote = want;
        }
        return false;
    }
    void end(std::string& out, std::string& err, int& code)
    {
        if (kind == "count" || kind == "mute")
            out += "total " + std::to_string(seen) + "\n";
        else if (kind == "hold")
            out += all;
        else if (kind == "late")
        {
            out += all;
            err += std::string(arg, 'L');
            code = 5;
        }
    }
};

void expected(const Filter& f, const std::string& input, std::string& out, std::string& err, int& code)
{
    Filter e = f;
    if (e.start(out, err, code))
        return;
    if (!input.empty() && e.data(input, out, err))
        return;
    e.end(out, err, code);
}

/*
 * The world
 */

struct Pipe
{
    std::string data;
    size_t room() const { return PIPE_SIZE - std::min(PIPE_SIZE, data.size()); }
};

struct Conf
{
    std::string out = "pipe"; // pipe, file, abstract
    std::string filter;       // kind and argument
    size_t arg       = 0;
    bool nosplice    = false;
    bool nosendfile  = false;
    bool timeout     = false;
    bool closes      = false; // reader may stop reading
    bool fails       = false; // writes may fail
    bool abort       = false;
    std::vector<std::string> ops;

    static Conf parse(const std::string& s)
    {
        Conf c;
        for (auto& kv : mc::split(s, ';'))
        {
            auto p = kv.find('=');
            auto k = kv.substr(0, p), v = p == std::string::npos ? "" : kv.substr(p + 1);
            if (k == "out") c.out = v;
            else if (k == "filter")
            {
                auto f   = mc::split(v, ':');
                c.filter = f[0];
                if (f.size() > 1)
                    c.arg = std::stoul(f[1]);
            }
            else if (k == "nosplice") c.nosplice = true;
            else if (k == "nosendfile") c.nosendfile = true;
            else if (k == "timeout") c.timeout = true;
            else if (k == "closes") c.closes = true;
            else if (k == "fails") c.fails = true;
            else if (k == "abort") c.abort = true;
            else if (k == "ops") c.ops = mc::split(v, ',');
            else throw std::runtime_error("mc: bad conf " + k);
        }
        return c;
    }
};

bool sim_on = false;
const pid_t sim_pid = 999999;

struct Sim
{
    const Conf& conf;
    Chooser& ch;
    Filter filter;
    Pipe in, out, err; // of the filter
    int fd_in = -1, fd_out = -1, fd_err = -1;
    int fd_dest = -1, fd_src = -1;
    bool exited      = true;
    bool in_closed   = false; // by the filter
    bool out_closed  = false;
    bool err_closed  = false;
    bool finishing   = false;
    int code         = 0, status = 0;
    std::string pending_out, pending_err;
    bool dest_closed = false;
    Pipe dest;
    std::string received; // by the reader
    bool faulted     = false;
    bool hung        = false;
    bool killed      = false;
    unsigned polls   = 0;
    uint64_t steps   = 0;

    Sim(const Conf& conf, Chooser& ch) : conf(conf), ch(ch) {}

    static bool open(int fd) { return fd != -1 && ::fcntl(fd, F_GETFD) != -1; }

    void die()
    {
        exited = in_closed = out_closed = err_closed = true;
    }

    /// Let the filter do one thing. Returns false if it cannot do anything
    bool filter_step()
    {
        if (exited || fd_in == -1)
            return false;
        ++steps;
        if (!filter.started)
        {
            filter.started = true;
            if (filter.kind == "noerr")
                err_closed = true;
            if (filter.kind == "mute")
            {
                // Writes nothing but a last line after everything else
            }
            if (filter.start(pending_out, pending_err, code))
                finishing = true;
            return true;
        }
        if (!pending_out.empty() || !pending_err.empty())
        {
            bool o      = !pending_out.empty();
            auto& from  = o ? pending_out : pending_err;
            auto& to    = o ? out : err;
            if (!open(o ? fd_out : fd_err))
            {
                // SIGPIPE
                status = 13;
                killed = true;
                die();
                return true;
            }
            auto n = std::min(from.size(), to.room());
            if (!n)
                return false;
            to.data += from.substr(0, n);
            from.erase(0, n);
            return true;
        }
        if (finishing)
        {
            status = code << 8;
            die();
            return true;
        }
        if (!in.data.empty())
        {
            std::string chunk;
            chunk.swap(in.data);
            if (filter.data(chunk, pending_out, pending_err))
                finishing = true;
            return true;
        }
        if (!open(fd_in))
        {
            filter.end(pending_out, pending_err, code);
            finishing = true;
            return true;
        }
        return false;
    }

    void filter_run()
    {
        while (filter_step())
            ;
    }

    bool reader_drain(size_t max = std::string::npos)
    {
        if (conf.out != "pipe" || dest_closed || dest.data.empty())
            return false;
        auto n = std::min(max, dest.data.size());
        received += dest.data.substr(0, n);
        dest.data.erase(0, n);
        return true;
    }

    void close_dest()
    {
        // What had not been read is lost
        dest_closed = true;
    }

    int events(struct pollfd* fds, nfds_t nfds)
    {
        int count = 0;
        for (nfds_t i = 0; i < nfds; ++i)
        {
            auto& p   = fds[i];
            p.revents = 0;
            if (p.fd < 0)
                continue;
            short r = 0;
            if (p.fd == fd_in)
            {
                if (in.room() >= 4096) r |= POLLOUT;
                if (in_closed) r |= POLLERR;
            }
            else if (p.fd == fd_out)
            {
                if (!out.data.empty()) r |= POLLIN;
                if (out_closed) r |= POLLHUP;
            }
            else if (p.fd == fd_err)
            {
                if (!err.data.empty()) r |= POLLIN;
                if (err_closed) r |= POLLHUP;
            }
            else if (p.fd == fd_dest)
            {
                if (conf.out == "file" || dest.room() >= 4096 || dest_closed) r |= POLLOUT;
                if (dest_closed) r |= POLLERR;
            }
            else
                r = POLLNVAL;
            p.revents = r & (p.events | POLLERR | POLLHUP | POLLNVAL);
            if (p.revents)
                ++count;
        }
        return count;
    }

    int poll(struct pollfd* fds, nfds_t nfds, int timeout)
    {
        if (++polls > 3000)
        {
            hung = true;
            throw Hang("keeps polling without end");
        }
        for (nfds_t i = 0; i < nfds; ++i)
            if (fds[i].fd >= 0 && !open(fds[i].fd))
            {
                hung = true;
                throw Hang("polls a file descriptor that it has closed");
            }
        if (!exited)
            switch (ch.pick(3, "filter"))
            {
                case 0: filter_run(); break;
                case 1: break;
                case 2: filter_step(); break;
            }
        if (conf.out == "pipe" && !dest_closed)
            switch (ch.pick(conf.closes ? 4 : 3, "reader"))
            {
                case 0: reader_drain(); break;
                case 1: break;
                case 2: reader_drain(5000); break;
                case 3: close_dest(); break;
            }
        if (timeout >= 0 && ch.pick(2, "timeout"))
        {
            faulted = true;
            return 0;
        }
        while (true)
        {
            int n = events(fds, nfds);
            if (n)
                return n;
            bool moved = filter_step();
            moved      = reader_drain() || moved;
            if (moved)
                continue;
            hung = true;
            throw Hang("waits for something that cannot happen");
        }
    }

    /// How much of n can be done now, or -1 with errno
    ssize_t allow(size_t n, bool is_dest, size_t room, bool peer_closed, const char* what)
    {
        if (peer_closed)
        {
            errno = EPIPE;
            return -1;
        }
        size_t m = std::min(n, room);
        if (!m)
        {
            errno = EAGAIN;
            return -1;
        }
        // Small writes to pipes are done as a whole
        if (m < n && n <= 4096)
        {
            errno = EAGAIN;
            return -1;
        }
        unsigned alts = 3 + (m > 1 ? 1 : 0) + (is_dest && conf.fails ? 1 : 0);
        if (m == 1)
            alts -= 1;
        auto c = ch.pick(alts, what);
        if (m == 1 && c >= 2)
            ++c;
        switch (c)
        {
            case 0: return m;
            case 1: errno = EAGAIN; return -1;
            case 2: return m > 1 ? m - 1 : 1;
            case 3: if (m > 1) return 1; // fall through
            default: faulted = true; errno = ENOSPC; return -1;
        }
    }

    size_t room_of(int fd) const
    {
        if (fd == fd_in) return in.room();
        return conf.out == "file" ? 1 << 30 : dest.room();
    }
    bool closed_of(int fd) const { return fd == fd_in ? in_closed : dest_closed; }
    void put(int fd, const void* buf, size_t n)
    {
        if (fd == fd_in)
            in.data.append((const char*)buf, n);
        else if (conf.out == "file")
            received.append((const char*)buf, n);
        else
            dest.data.append((const char*)buf, n);
    }
    bool known_dest(int fd)
    {
        if (fd != fd_in && fd != fd_dest)
        {
            errno = EBADF;
            return false;
        }
        return true;
    }

    ssize_t write(int fd, const void* buf, size_t n)
    {
        if (!known_dest(fd))
            return -1;
        if (!n)
            return 0;
        auto r = allow(n, fd == fd_dest, room_of(fd), closed_of(fd), "write");
        if (r > 0)
            put(fd, buf, r);
        return r;
    }
    ssize_t writev(int fd, const struct iovec* iov, int n)
    {
        if (!known_dest(fd))
            return -1;
        std::string all;
        for (int i = 0; i < n; ++i)
            all.append((const char*)iov[i].iov_base, iov[i].iov_len);
        auto r = allow(all.size(), fd == fd_dest, room_of(fd), closed_of(fd), "writev");
        if (r > 0)
            put(fd, all.data(), r);
        return r;
    }
    ssize_t read(int fd, void* buf, size_t n)
    {
        if (fd != fd_out && fd != fd_err)
        {
            errno = EBADF;
            return -1;
        }
        auto& p = fd == fd_out ? out : err;
        if (p.data.empty())
        {
            if (fd == fd_out ? out_closed : err_closed)
                return 0;
            errno = EAGAIN;
            return -1;
        }
        size_t m = std::min(n, p.data.size());
        if (m > 1 && fd == fd_out && ch.pick(2, "read"))
            m = 1;
        memcpy(buf, p.data.data(), m);
        p.data.erase(0, m);
        return m;
    }
    ssize_t pread(int fd, void* buf, size_t n, off_t off)
    {
        ssize_t r = ::pread(fd, buf, n, off);
        if (r > 1 && ch.pick(2, "pread"))
            r = 1;
        return r;
    }
    ssize_t sendfile(int out_fd, int in_fd, off_t* off, size_t n)
    {
        if (conf.nosendfile)
        {
            errno = EINVAL;
            return -1;
        }
        if (!known_dest(out_fd))
            return -1;
        std::string b(n, 0);
        ssize_t have = ::pread(in_fd, &b[0], n, *off);
        if (have <= 0)
            return have;
        auto r = allow(have, out_fd == fd_dest, room_of(out_fd), closed_of(out_fd), "sendfile");
        if (r > 0)
        {
            put(out_fd, b.data(), r);
            *off += r;
        }
        return r;
    }
    ssize_t splice(int fi, loff_t*, int fo, loff_t*, size_t n, unsigned)
    {
        if (conf.nosplice)
        {
            errno = EINVAL;
            return -1;
        }
        if (fi != fd_out || fo != fd_dest)
        {
            errno = EBADF;
            return -1;
        }
        if (dest_closed)
        {
            errno = EPIPE;
            return -1;
        }
        if (out.data.empty())
        {
            if (out_closed)
                return 0;
            errno = EAGAIN;
            return -1;
        }
        size_t m = std::min(n, out.data.size());
        auto r   = allow(m, true, conf.out == "file" ? m : dest.room(), false, "splice");
        if (r > 0)
        {
            put(fo, out.data.data(), r);
            out.data.erase(0, r);
        }
        return r;
    }

    pid_t waitpid(int* st, int flags)
    {
        // Nobody reads what is written while waiting
        if (!(flags & WNOHANG))
        {
            filter_run();
            if (!exited)
            {
                hung   = true;
                status = 9;
                die();
            }
        }
        else
        {
            if (!exited && ch.pick(2, "exit") == 0)
                filter_run();
            if (!exited)
                return 0;
        }
        *st = status;
        return sim_pid;
    }
};

Sim* sim = nullptr;

struct Output : public stream::AbstractStreamOutput<TestingBackend>
{
    std::string name() const override { return "test"; }
    std::filesystem::path path() const override { return "test"; }
    stream::SendResult _write_output_buffer(const void* data, size_t size) override
    {
        if (sim->conf.fails && sim->ch.pick(2, "output"))
        {
            sim->faulted = true;
            throw std::system_error(ENOSPC, std::system_category(), "cannot write");
        }
        if (sim->conf.closes && !sim->dest_closed && sim->ch.pick(2, "outclose"))
            sim->dest_closed = true;
        if (sim->dest_closed)
            return stream::SendResult::SEND_PIPE_EOF_DEST;
        sim->received.append((const char*)data, size);
        return stream::SendResult();
    }
};

void setup_backend()
{
    TestingBackend::read     = [](int fd, void* b, size_t n) { return sim->read(fd, b, n); };
    TestingBackend::write    = [](int fd, const void* b, size_t n) { return sim->write(fd, b, n); };
    TestingBackend::writev   = [](int fd, const struct iovec* v, int n) { return sim->writev(fd, v, n); };
    TestingBackend::sendfile = [](int o, int i, off_t* off, size_t n) { return sim->sendfile(o, i, off, n); };
    TestingBackend::splice   = [](int i, loff_t* oi, int o, loff_t* oo, size_t n, unsigned f) { return sim->splice(i, oi, o, oo, n, f); };
    TestingBackend::poll     = [](struct pollfd* p, nfds_t n, int t) { return sim->poll(p, n, t); };
    TestingBackend::pread    = [](int fd, void* b, size_t n, off_t o) { return sim->pread(fd, b, n, o); };
}

std::string payload(size_t begin, size_t size)
{
    std::string r(size, 0);
    for (size_t i = 0; i < size; ++i)
    {
        auto p = begin + i;
        r[i]   = 'a' + (p * 7 + p / 26 + p / 4096 * 5) % 26;
    }
    return r;
}

const size_t FILE_SIZE = 150000;

/// One run. Throws mc::Fail if something wrong happens
void run_once(Ctx& c, const Conf& conf, Chooser& ch, int src_fd, const std::string& src, uint64_t& digest)
{
    Sim s(conf, ch);
    sim           = &s;
    s.filter.kind = conf.filter;
    s.filter.arg  = conf.arg;
    core::NamedFileDescriptor source(src_fd, "source");
    int null       = ::open("/dev/null", O_WRONLY);
    auto dest      = std::make_shared<core::NamedFileDescriptor>(null, "dest");
    s.fd_dest      = null;
    size_t progress = 0;
    bool threw = false, short_source = false;
    std::string error, input, got_err, sent_before;
    stream::SendResult total;
    size_t size_stdin = 0, size_stdout = 0;
    int raw = -1;
    bool stopped = false;
    {
        std::unique_ptr<stream::BaseStreamOutput> out;
        if (conf.out == "abstract")
        {
            out.reset(new Output);
            out->timeout_ms = conf.timeout ? 1 : -1;
        }
        else
            out.reset(new stream::ConcreteStreamOutputBase<TestingBackend>(dest, conf.timeout ? 1 : -1));
        out->set_progress_callback([&](size_t n) { progress += n; });
        try
        {
            if (!conf.filter.empty())
            {
                sim_on = true;
                auto f = out->start_filter({"filter"});
                sim_on = false;
                s.fd_in  = f->cmd.get_stdin();
                s.fd_out = f->cmd.get_stdout();
                s.fd_err = f->cmd.get_stderr();
                s.exited = false;
            }
            sim_on = true;
            for (auto& o : conf.ops)
            {
                auto f = mc::split(o.substr(1), '+');
                size_t a = std::stoul(f[0]), b = f.size() > 1 ? std::stoul(f[1]) : 0;
                stream::SendResult r;
                if (o[0] == 'f')
                {
                    if (a + b > src.size())
                        short_source = true;
                    input += src.substr(std::min(a, src.size()), b);
                    r = out->send_file_segment(source, a, b);
                }
                else
                {
                    auto data = payload(input.size(), a);
                    input += data;
                    if (o[0] == 'l')
                    {
                        input += '\n';
                        r = out->send_line(data.data(), data.size());
                    }
                    else
                        r = out->send_buffer(data.data(), data.size());
                }
                total += r;
                if (total.flags & stream::SendResult::SEND_PIPE_EOF_DEST)
                    break;
            }
            if (conf.abort && !conf.filter.empty())
            {
                // Something went wrong elsewhere
                out->abort_filter();
                stopped = true;
            }
            else if (!conf.filter.empty())
            {
                auto f      = out->stop_filter();
                stopped     = true;
                size_stdin  = f->size_stdin;
                size_stdout = f->size_stdout;
                got_err     = f->errors.str();
                raw         = f->cmd.raw_returncode();
            }
        }
        catch (Hang& e)
        {
            error = e.what();
        }
        catch (std::exception& e)
        {
            threw = true;
            error = e.what();
            if (out->filter_process && !s.hung)
            {
                try
                {
                    out->abort_filter();
                }
                catch (Hang& e)
                {
                }
                catch (std::exception& e)
                {
                    error += std::string(", then ") + e.what();
                }
            }
        }
        if (s.hung)
            s.die();
        sim_on = true;
    }
    sim_on = false;
    dest->close();
    while (s.reader_drain())
        ;
    c.transitions(ch.taken.size());
    digest = mc::hash(mc::cat(s.received.size(), "|", mc::hash(s.received), "|", error, "|", total.flags, "|", s.status, "|", size_stdout, "|", got_err.size()));

    std::string want, want_err;
    int want_code = 0;
    if (conf.filter.empty())
        want = input;
    else
        expected([&] { Filter f; f.kind = conf.filter; f.arg = conf.arg; return f; }(), input, want, want_err, want_code);
    auto diff = [&](const std::string& got, const std::string& want) {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
            ++i;
        return mc::cat("got ", got.size(), " bytes, expected ", want.size(), ", different from ", i);
    };
    if (s.hung)
        throw Fail("hang", "the code " + (error.empty() ? std::string("waits for a filter that cannot end") : error));
    if (!threw && short_source && !s.dest_closed && !(total.flags & stream::SendResult::SEND_PIPE_EOF_SOURCE))
        throw Fail("short-source", "the end of the source is not reported");
    bool filter_quits = conf.filter == "head" || conf.filter == "exit" || conf.filter == "fail";
    if (threw)
    {
        if (!s.faulted && !short_source && !s.dest_closed && !filter_quits)
            throw Fail("error", "fails for no reason: " + error);
        // With filters that only know at the end, what was sent is not known
        if (s.received.size() > want.size() || want.compare(0, s.received.size(), s.received) != 0)
            if (conf.filter != "count" && conf.filter != "mute")
                throw Fail("wrong-data", "after failing with " + error + " what was written is wrong: " + diff(s.received, want));
        return;
    }
    if (s.faulted)
        throw Fail("unreported", "a failure is not reported");
    if (conf.abort || short_source)
        return;
    if (s.dest_closed)
    {
        if (conf.filter.empty() && s.received.size() + s.dest.data.size() < want.size() && !(total.flags & stream::SendResult::SEND_PIPE_EOF_DEST))
            throw Fail("unreported", "the output was closed, and this is not reported");
        if (want.compare(0, s.received.size(), s.received) != 0 && conf.filter != "count" && conf.filter != "mute")
            throw Fail("wrong-data", "before being closed the output gets wrong data: " + diff(s.received, want));
        return;
    }
    if (total.flags)
        throw Fail("flags", mc::cat("returns flags ", total.flags, " for no reason"));
    if (s.received != want)
        throw Fail("data", "the output gets wrong data: " + diff(s.received, want));
    if (progress != want.size())
        throw Fail("progress", mc::cat("progress of ", progress, " bytes reported out of ", want.size()));
    if (!conf.filter.empty())
    {
        if (got_err != want_err)
            throw Fail("errors", "wrong standard error of the filter: " + diff(got_err, want_err));
        if (size_stdout != want.size())
            throw Fail("counts", mc::cat("size_stdout is ", size_stdout, " instead of ", want.size()));
        if (!filter_quits && size_stdin != input.size())
            throw Fail("counts", mc::cat("size_stdin is ", size_stdin, " instead of ", input.size()));
        if (raw != want_code << 8)
            throw Fail("status", mc::cat("status of the filter is ", raw, " instead of ", want_code << 8));
    }
}

void task_run(Ctx& c, const std::string& task)
{
    auto f     = mc::split(task, '|');
    auto conf  = Conf::parse(f[1]);
    unsigned bound = std::stoul(f[2]);
    std::string only = f.size() > 3 ? f[3] : "";
    setup_backend();
    auto path  = fresh_scratch() + "/src";
    auto src   = payload(1000000, FILE_SIZE);
    spew(path, src);
    int fd = ::open(path.c_str(), O_RDONLY);
    // Searches deep first, most recent choices first
    std::vector<std::vector<unsigned>> todo;
    std::vector<unsigned> first;
    for (auto& n : mc::split(only, '.'))
        if (!n.empty())
            first.push_back(std::stoul(n));
    todo.push_back(first);
    size_t runs = 0;
    while (!todo.empty())
    {
        Chooser ch;
        ch.prefix = todo.back();
        todo.pop_back();
        ++runs;
        uint64_t digest = 0;
        std::string where;
        try
        {
            run_once(c, conf, ch, fd, src, digest);
        }
        catch (Fail& e)
        {
            std::string choices = mc::join(ch.names, " ");
            std::vector<std::string> nums;
            for (auto& t : ch.prefix)
                nums.push_back(std::to_string(t));
            c.fail(e.key, f[1] + ": " + e.what() + " [choices: " + choices + "; " + mc::join(nums, ".") + "]");
        }
        c.states();
        c.eval();
        c.distinct_hash(digest);
        if (!only.empty())
            break;
        unsigned used = 0;
        for (auto& t : ch.prefix)
            if (t)
                ++used;
        if (used >= bound)
            continue;
        for (size_t i = ch.taken.size(); i-- > ch.prefix.size();)
            for (unsigned a = 1; a < ch.taken[i].second; ++a)
            {
                std::vector<unsigned> p;
                for (size_t j = 0; j < i; ++j)
                    p.push_back(ch.taken[j].first);
                p.push_back(a);
                todo.push_back(p);
            }
    }
    ::close(fd);
    c.traces();
}

mc::Register c23("C23", [] {
    std::vector<std::string> tasks;
    unsigned B = mc::args.thorough ? 3 : 2;
    std::vector<std::string> ops{"b5", "l0,b5,l3", "f10+20,l5", "b20000,l1", "f0+100000", "b100000", "l70000", "f100+40000,f5+3,b1", "f140000+20000"};
    std::vector<std::string> filters{"", "cat", "head:3", "head:10000", "double", "count", "hold", "late:1000", "chatty:5", "chatty:20", "noerr", "header:30", "header:70000", "exit", "exit:20000", "fail:300"};
    for (auto& flt : filters)
        for (auto& o : ops)
            for (std::string out : {"pipe", "file", "abstract"})
            {
                bool big = o.find("000") != std::string::npos;
                std::string base = "C23|out=" + out + (flt.empty() ? "" : ";filter=" + flt) + ";ops=" + o;
                std::vector<std::string> variants{""};
                if (out != "abstract")
                {
                    variants.push_back(flt.empty() ? ";nosendfile" : ";nosplice");
                    if (!flt.empty() && o.find('f') != std::string::npos)
                        variants.push_back(";nosplice;nosendfile");
                }
                if (out != "file")
                    variants.push_back(";closes");
                variants.push_back(";fails");
                variants.push_back(";timeout");
                if (!flt.empty())
                    variants.push_back(";abort");
                for (auto& v : variants)
                {
                    unsigned b = B;
                    if (big && (flt.compare(0, 6, "chatty") == 0 || v != ""))
                        --b;
                    tasks.push_back(mc::cat(base, v, "|", b));
                }
            }
    run_tasks(tasks, task_run, "C23|");
});

} // namespace

extern "C" {
pid_t fork()
{
    static auto orig = (pid_t(*)())dlsym(RTLD_NEXT, "fork");
    if (sim_on)
        return sim_pid;
    return orig();
}
pid_t waitpid(pid_t pid, int* st, int flags)
{
    static auto orig = (pid_t(*)(pid_t, int*, int))dlsym(RTLD_NEXT, "waitpid");
    if (pid == sim_pid)
        return sim->waitpid(st, flags);
    return orig(pid, st, flags);
}
int kill(pid_t pid, int sig)
{
    static auto orig = (int (*)(pid_t, int))dlsym(RTLD_NEXT, "kill");
    if (pid == sim_pid)
    {
        sim->status = sig;
        sim->killed = true;
        sim->die();
        return 0;
    }
    return orig(pid, sig);
}
}
