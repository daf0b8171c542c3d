#include "mc.h"
#include "mcsys.h"
#include <algorithm>
#include <regex>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

Args args;

static const unsigned MAXW   = 16;
static const unsigned CURLEN = 4096;
static const uint64_t SETCAP = 1u << 22;

struct Slot
{
    std::atomic<uint64_t> progress;
    std::atomic<int64_t> task;
    char cur[CURLEN];
};

struct Shared
{
    std::atomic<uint64_t> evals, states, transitions, traces, distinct, next_task, failcount;
    std::atomic<uint64_t> extra[32];
    std::atomic<uint64_t> set_distinct_full;
    Slot slots[MAXW];
    std::atomic<uint64_t> dset[SETCAP];
    std::atomic<uint64_t> vset[SETCAP];
};

static Shared* S = nullptr;
static int my_slot = 0;
static std::string scratch_base;
static std::map<unsigned, std::string> extra_names;
static std::map<std::string, std::string> notes;

struct Failure
{
    std::string key, task, msg;
};
static std::vector<Failure> failures;
// Findings already known: name, what matches it, how many, example
static std::vector<std::tuple<std::string, std::regex, unsigned, std::string>> known;
static uint64_t knowncount = 0;
static std::vector<std::string> samples;
static std::vector<Check>& checks()
{
    static std::vector<Check> c;
    return c;
}

Register::Register(const std::string& prop, std::function<void()> run) { checks().push_back({prop, run}); }

uint64_t hash(const std::string& s, uint64_t h)
{
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ULL;
    }
    h ^= h >> 32;
    h *= 0xd6e8feb86659fd93ULL;
    h ^= h >> 32;
    return h;
}

static bool set_insert(std::atomic<uint64_t>* set, uint64_t h)
{
    if (!h)
        h = 1;
    uint64_t i = h & (SETCAP - 1);
    for (unsigned n = 0; n < 4096; ++n)
    {
        uint64_t v = set[i].load(std::memory_order_relaxed);
        if (v == h)
            return false;
        if (v == 0)
        {
            uint64_t exp = 0;
            if (set[i].compare_exchange_strong(exp, h))
                return true;
            if (exp == h)
                return false;
        }
        i = (i + 1) & (SETCAP - 1);
    }
    S->set_distinct_full++;
    return true;
}

struct WorkerOut
{
    int fd = -1;
    void rec(char type, const std::string& a, const std::string& b = "", const std::string& c = "")
    {
        std::string buf;
        buf += type;
        for (auto* s : {&a, &b, &c})
        {
            uint32_t l = s->size();
            buf.append((const char*)&l, 4);
            buf += *s;
        }
        size_t done = 0;
        while (done < buf.size())
        {
            ssize_t r = sysx::raw_write(fd, buf.data() + done, buf.size() - done);
            if (r <= 0)
                _exit(99);
            done += r;
        }
    }
};
static WorkerOut wout;
static unsigned my_samples = 0;

void Ctx::current(const std::string& desc)
{
    Slot& s = S->slots[my_slot];
    size_t l = std::min<size_t>(desc.size(), CURLEN - 1);
    memcpy(s.cur, desc.data(), l);
    s.cur[l] = 0;
    s.progress++;
}
void Ctx::eval(uint64_t n)
{
    S->evals += n;
    S->slots[my_slot].progress++;
}
void Ctx::states(uint64_t n) { S->states += n; }
void Ctx::transitions(uint64_t n)
{
    S->transitions += n;
    S->slots[my_slot].progress++;
}
void Ctx::traces(uint64_t n) { S->traces += n; }
void Ctx::extra(unsigned idx, uint64_t n) { S->extra[idx] += n; }
bool Ctx::distinct_hash(uint64_t h)
{
    if (!set_insert(S->dset, h))
        return false;
    S->distinct++;
    return true;
}
bool Ctx::distinct(const std::string& s) { return distinct_hash(hash(s)); }
bool Ctx::visited(uint64_t h) { return !set_insert(S->vset, h); }
void Ctx::fail(const std::string& key, const std::string& msg)
{
    S->failcount++;
    if (args.verbose)
        std::cerr << "FAIL " << key << "\n  task: " << task << "\n  " << msg << "\n";
    wout.rec('F', key, task, msg.substr(0, 6000));
}
void Ctx::sample(const std::string& s)
{
    if (my_samples >= 2)
        return;
    ++my_samples;
    wout.rec('S', s.substr(0, 600));
}
void Ctx::emit(const std::string& s) { wout.rec('O', s); }

void name_extra(unsigned idx, const std::string& name) { extra_names[idx] = name; }
void note(const std::string& key, const std::string& val) { notes[key] = val; }

static void worker(unsigned slot, const std::vector<std::string>& tasks, const task_func& f, int fd)
{
    my_slot    = slot;
    wout.fd    = fd;
    my_samples = 0;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    while (true)
    {
        uint64_t i = S->next_task++;
        if (i >= tasks.size())
            break;
        S->slots[slot].task = i;
        Ctx ctx;
        ctx.task = tasks[i];
        ctx.current(tasks[i]);
        try
        {
            f(ctx, tasks[i]);
        }
        catch (Fail& e)
        {
            ctx.fail(e.key, e.what());
        }
        catch (std::exception& e)
        {
            ctx.fail("exception", std::string("unexpected exception: ") + e.what());
        }
        S->slots[slot].task = -1;
    }
    rmtree(scratch());
    _exit(0);
}

std::vector<std::string> run_tasks(const std::vector<std::string>& tasks_in, task_func f, const std::string& prefix)
{
    std::vector<std::string> tasks = tasks_in;
    if (!args.only.empty())
    {
        static bool done = false;
        if (done || args.only.compare(0, prefix.size(), prefix) != 0)
            return {};
        done  = true;
        tasks = {args.only};
    }
    std::vector<std::string> outputs;
    S->next_task = 0;
    unsigned nw  = std::min<size_t>(std::min(args.jobs, MAXW), tasks.size());
    struct W
    {
        pid_t pid;
        int fd;
        std::string buf;
        uint64_t progress = 0;
        std::chrono::steady_clock::time_point since;
        bool alive = true;
    };
    std::vector<W> ws(nw);
    unsigned restarts = 0;
    auto start = [&](unsigned slot) {
        int p[2];
        if (pipe(p) != 0)
            abort();
        S->slots[slot].task = -1;
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            ::close(p[0]);
            for (auto& w : ws)
                if (w.fd > 0)
                    ::close(w.fd);
            worker(slot, tasks, f, p[1]);
        }
        ::close(p[1]);
        ws[slot].pid   = pid;
        ws[slot].fd    = p[0];
        ws[slot].buf   = "";
        ws[slot].alive = true;
        ws[slot].progress = S->slots[slot].progress;
        ws[slot].since = std::chrono::steady_clock::now();
    };
    auto parse = [&](W& w) {
        size_t pos = 0;
        while (true)
        {
            size_t p = pos;
            if (w.buf.size() < p + 1)
                break;
            char type = w.buf[p++];
            std::string v[3];
            bool ok = true;
            for (auto& s : v)
            {
                if (w.buf.size() < p + 4)
                {
                    ok = false;
                    break;
                }
                uint32_t l;
                memcpy(&l, w.buf.data() + p, 4);
                p += 4;
                if (w.buf.size() < p + l)
                {
                    ok = false;
                    break;
                }
                s = w.buf.substr(p, l);
                p += l;
            }
            if (!ok)
                break;
            pos = p;
            if (type == 'F')
            {
                bool is_known = false;
                for (auto& k : known)
                    if (std::regex_search(v[0] + "|" + v[2], std::get<1>(k)))
                    {
                        is_known = true;
                        ++std::get<2>(k);
                        if (std::get<3>(k).empty())
                            std::get<3>(k) = v[2];
                        break;
                    }
                if (is_known)
                {
                    ++knowncount;
                    pos = p;
                    continue;
                }
                unsigned same = 0;
                for (auto& x : failures)
                    same += x.key == v[0];
                if (same < 3 && failures.size() < 400)
                    failures.push_back({v[0], v[1], v[2]});
            }
            else if (type == 'S')
            {
                if (samples.size() < 12)
                    samples.push_back(v[0]);
            }
            else
                outputs.push_back(std::move(v[0]));
        }
        w.buf.erase(0, pos);
    };
    for (unsigned i = 0; i < nw; ++i)
    {
        ws[i].fd = -1;
    }
    for (unsigned i = 0; i < nw; ++i)
        start(i);
    unsigned alive = nw;
    std::vector<char> rb(1 << 16);
    while (alive)
    {
        std::vector<pollfd> pf;
        std::vector<unsigned> idx;
        for (unsigned i = 0; i < nw; ++i)
            if (ws[i].alive)
            {
                pf.push_back({ws[i].fd, POLLIN, 0});
                idx.push_back(i);
            }
        ::poll(pf.data(), pf.size(), 500);
        for (unsigned k = 0; k < pf.size(); ++k)
        {
            unsigned i = idx[k];
            W& w       = ws[i];
            bool hung  = false;
            if (pf[k].revents)
            {
                ssize_t r = sysx::raw_read(w.fd, rb.data(), rb.size());
                if (r > 0)
                {
                    w.buf.append(rb.data(), r);
                    parse(w);
                    continue;
                }
            }
            else
            {
                uint64_t p = S->slots[i].progress;
                auto now   = std::chrono::steady_clock::now();
                if (p != w.progress || S->slots[i].task == -1)
                {
                    w.progress = p;
                    w.since    = now;
                    continue;
                }
                if (now - w.since < std::chrono::seconds(args.hang))
                    continue;
                hung = true;
                kill(w.pid, SIGKILL);
            }
            // EOF or hung
            int status = 0;
            waitpid(w.pid, &status, 0);
            ::close(w.fd);
            w.fd = -1;
            w.alive = false;
            --alive;
            rmtree(scratch_base + "/" + std::to_string(w.pid));
            if (hung || !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                std::string cur(S->slots[i].cur);
                std::string t = S->slots[i].task >= 0 ? tasks[S->slots[i].task] : std::string();
                std::string how = hung ? "hang" : WIFSIGNALED(status) ? cat("signal ", WTERMSIG(status)) : cat("exit ", WEXITSTATUS(status));
                failures.push_back({hung ? "hang" : "crash", t, cat("process ended with ", how, " while running: ", cur)});
                S->failcount++;
                if (restarts++ < 8)
                {
                    start(i);
                    ++alive;
                }
            }
        }
    }
    return outputs;
}

std::string scratch()
{
    std::string res = scratch_base + "/" + std::to_string(getpid());
    sysx::raw_mkdir(res.c_str(), 0777);
    return res;
}
std::string fresh_scratch()
{
    rmtree(scratch());
    return scratch();
}

static void rm_at(const std::string& path)
{
    DIR* d = ::opendir(path.c_str());
    if (!d)
    {
        sysx::raw_unlink(path.c_str());
        return;
    }
    std::vector<std::pair<std::string, int>> names;
    while (dirent* e = ::readdir(d))
    {
        std::string n = e->d_name;
        if (n != "." && n != "..")
            names.push_back({n, e->d_type});
    }
    ::closedir(d);
    for (auto& n : names)
    {
        if (n.second == DT_DIR)
            rm_at(path + "/" + n.first);
        else
            sysx::raw_unlink((path + "/" + n.first).c_str());
    }
    sysx::raw_rmdir(path.c_str());
}
void rmtree(const std::string& path)
{
    // Only ever inside our scratch area
    if (scratch_base.empty() || path.compare(0, scratch_base.size(), scratch_base) != 0)
        throw std::runtime_error("rmtree outside the scratch area: " + path);
    sysx::Off off;
    rm_at(path);
}

static void each(const std::string& root, const std::string& rel,
                 std::function<void(const std::string& rel, const struct stat& st)> f)
{
    DIR* d = ::opendir((root + "/" + rel).c_str());
    if (!d)
        return;
    std::vector<std::string> names;
    while (dirent* e = ::readdir(d))
    {
        std::string n = e->d_name;
        if (n != "." && n != "..")
            names.push_back(n);
    }
    ::closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names)
    {
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (sysx::raw_lstat((root + "/" + r).c_str(), &st) != 0)
            continue;
        f(r, st);
        if (S_ISDIR(st.st_mode))
            each(root, r, f);
    }
}

std::string slurp(const std::string& path)
{
    int fd = sysx::raw_open(path.c_str(), O_RDONLY, 0);
    if (fd < 0)
        throw std::runtime_error("cannot open " + path);
    std::string res;
    char buf[65536];
    ssize_t r;
    while ((r = sysx::raw_read(fd, buf, sizeof(buf))) > 0)
        res.append(buf, r);
    sysx::raw_close(fd);
    return res;
}
void spew(const std::string& path, const std::string& data)
{
    int fd = sysx::raw_open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0)
        throw std::runtime_error("cannot open " + path);
    size_t done = 0;
    while (done < data.size())
    {
        ssize_t r = sysx::raw_write(fd, data.data() + done, data.size() - done);
        if (r <= 0)
            throw std::runtime_error("cannot write " + path);
        done += r;
    }
    sysx::raw_close(fd);
}

void copytree(const std::string& src, const std::string& dst)
{
    sysx::Off off;
    sysx::raw_mkdir(dst.c_str(), 0777);
    std::vector<std::pair<std::string, struct stat>> dirs;
    each(src, "", [&](const std::string& rel, const struct stat& st) {
        std::string d = dst + "/" + rel;
        if (S_ISDIR(st.st_mode))
        {
            sysx::raw_mkdir(d.c_str(), st.st_mode & 07777);
            dirs.push_back({d, st});
            return;
        }
        spew(d, slurp(src + "/" + rel));
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        sysx::raw_utimensat(AT_FDCWD, d.c_str(), ts, 0);
    });
    for (auto i = dirs.rbegin(); i != dirs.rend(); ++i)
    {
        struct timespec ts[2] = {i->second.st_atim, i->second.st_mtim};
        sysx::raw_utimensat(AT_FDCWD, i->first.c_str(), ts, 0);
    }
}

std::string tree_digest(const std::string& path, bool mtimes)
{
    sysx::Off off;
    uint64_t h = 1234, h2 = 77;
    each(path, "", [&](const std::string& rel, const struct stat& st) {
        h  = mix(h, hash(rel));
        h2 = hash(rel, h2);
        if (S_ISREG(st.st_mode))
        {
            auto c = slurp(path + "/" + rel);
            h      = mix(h, hash(c));
            h2     = hash(c, h2);
        }
        if (mtimes)
            h = mix(h, st.st_mtim.tv_sec * 1000000000ULL + st.st_mtim.tv_nsec);
    });
    return cat(std::hex, h, ".", h2);
}

std::map<std::string, std::string> tree_contents(const std::string& path)
{
    sysx::Off off;
    std::map<std::string, std::string> res;
    each(path, "", [&](const std::string& rel, const struct stat& st) {
        if (S_ISREG(st.st_mode))
            res[rel] = slurp(path + "/" + rel);
        else if (S_ISDIR(st.st_mode))
            res[rel + "/"] = "";
    });
    return res;
}

std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> res;
    if (s.empty())
        return res;
    size_t pos = 0;
    while (true)
    {
        size_t e = s.find(sep, pos);
        if (e == std::string::npos)
        {
            res.push_back(s.substr(pos));
            return res;
        }
        res.push_back(s.substr(pos, e - pos));
        pos = e + 1;
    }
}
std::string join(const std::vector<std::string>& v, const std::string& sep)
{
    std::string res;
    for (size_t i = 0; i < v.size(); ++i)
        res += (i ? sep : "") + v[i];
    return res;
}
std::string quote(const std::string& s)
{
    std::string res;
    char b[8];
    for (unsigned char c : s)
        if (c >= 32 && c < 127)
            res += c;
        else
        {
            snprintf(b, 8, "\\x%02x", c);
            res += b;
        }
    return res;
}

bool ChildResult::exited(int code) const { return !timeout && WIFEXITED(status) && WEXITSTATUS(status) == code; }

ChildResult in_child(std::function<std::string()> f, unsigned timeout_s)
{
    int p[2];
    if (pipe(p) != 0)
        abort();
    pid_t parent_pid = getpid();
    std::string sc = scratch();
    pid_t pid = fork();
    if (pid == 0)
    {
        ::close(p[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string out;
        int rc = 0;
        try
        {
            out = f();
        }
        catch (std::exception& e)
        {
            sysx::set_off();
            out = std::string("EXC ") + e.what();
            rc  = 3;
        }
        sysx::set_off();
        size_t done = 0;
        while (done < out.size())
        {
            ssize_t r = sysx::raw_write(p[1], out.data() + done, out.size() - done);
            if (r <= 0)
                break;
            done += r;
        }
        _exit(rc);
    }
    ::close(p[1]);
    ChildResult res;
    char buf[65536];
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(timeout_s);
    while (true)
    {
        pollfd pf{p[0], POLLIN, 0};
        auto now = std::chrono::steady_clock::now();
        int ms   = std::chrono::duration_cast<std::chrono::milliseconds>(end - now).count();
        int r    = ms > 0 ? ::poll(&pf, 1, ms) : 0;
        if (r == 0)
        {
            res.timeout = true;
            kill(pid, SIGKILL);
            break;
        }
        ssize_t n = sysx::raw_read(p[0], buf, sizeof(buf));
        if (n <= 0)
            break;
        res.out.append(buf, n);
    }
    ::close(p[0]);
    waitpid(pid, &res.status, 0);
    (void)parent_pid;
    return res;
}

static std::string json(const std::string& s)
{
    std::string res = "\"";
    char b[8];
    for (unsigned char c : s)
        if (c == '"' || c == '\\')
        {
            res += '\\';
            res += c;
        }
        else if (c < 32 || c >= 127)
        {
            snprintf(b, 8, "\\u%04x", c);
            res += b;
        }
        else
            res += c;
    return res + "\"";
}

} // namespace mc

using namespace mc;

int main(int argc, char* argv[])
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val      = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop")
            args.prop = val();
        else if (a == "--tier")
            args.thorough = val() == "thorough";
        else if (a == "--out")
            args.out = val();
        else if (a == "--task")
            args.only = val();
        else if (a == "--jobs")
            args.jobs = std::stoul(val());
        else if (a == "--hang")
            args.hang = std::stoul(val());
        else if (a == "-v")
            args.verbose = true;
        else if (a == "--known")
        {
            // name and regular expression
            std::string n = val();
            known.emplace_back(n, std::regex(val()), 0, "");
        }
        else if (a == "--list")
        {
            for (auto& c : checks())
                std::cout << c.prop << "\n";
            return 0;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    setenv("TZ", "UTC", 1);
    umask(022);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED)
        return 2;
    const char* base = getenv("MC_SCRATCH");
    std::string sb   = base ? base : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    sb += "/arkimc.XXXXXX";
    if (!mkdtemp(sb.data()))
        return 2;
    scratch_base = sb;
    bool found   = false;
    for (auto& c : checks())
        if (c.prop == args.prop)
        {
            found = true;
            c.run();
        }
    rmtree(scratch_base);
    if (!found)
    {
        std::cerr << "no check for property " << args.prop << "\n";
        return 2;
    }
    std::stringstream o;
    o << "{\"evaluations\":" << S->evals << ",\"states\":" << S->states << ",\"transitions\":" << S->transitions
      << ",\"traces\":" << S->traces << ",\"distinct\":" << S->distinct << ",\"failcount\":" << S->failcount - knowncount
      << ",\"set_full\":" << S->set_distinct_full;
    for (auto& e : extra_names)
        o << "," << json("x_" + e.second) << ":" << S->extra[e.first];
    o << ",\"notes\":{";
    bool first = true;
    for (auto& n : notes)
    {
        o << (first ? "" : ",") << json(n.first) << ":" << json(n.second);
        first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
        o << (i ? "," : "") << json(samples[i]);
    o << "],\"failures\":[";
    for (size_t i = 0; i < failures.size(); ++i)
        o << (i ? "," : "") << "{\"key\":" << json(failures[i].key) << ",\"task\":" << json(failures[i].task)
          << ",\"msg\":" << json(failures[i].msg) << "}";
    o << "],\"known\":[";
    for (size_t i = 0; i < known.size(); ++i)
        o << (i ? "," : "") << "{\"name\":" << json(std::get<0>(known[i])) << ",\"count\":" << std::get<2>(known[i])
          << ",\"msg\":" << json(std::get<3>(known[i])) << "}";
    o << "]}\n";
    if (args.out.empty())
        std::cout << o.str();
    else
    {
        std::ofstream f(args.out);
        f << o.str();
    }
    return 0;
}
