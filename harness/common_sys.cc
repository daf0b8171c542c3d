// See mcsys.h

#include "mcsys.h"
#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace sysx {

static const int MAXFD = 1024;

static Mode mode = OFF;
static std::string root;
static unsigned classes;
static std::vector<Event>* evlog = nullptr;
static uint64_t seen;
static uint64_t target;
static int partial_q;
static int fail_errno;
static bool fail_sticky;
static int fail_short;
size_t (*read_limit)(int, size_t) = nullptr;
bool opaque_sqlite = true;
static bool fired;
static unsigned fired_cls;
static std::string fired_desc;
static bool is_tracked[MAXFD];
static char fd_path[MAXFD][160]; // path relative to root
static thread_local int guard = 0;

int raw_open(const char* path, int flags, int m) { return syscall(SYS_openat, AT_FDCWD, path, flags | O_CLOEXEC, m); }
ssize_t raw_read(int fd, void* buf, size_t len) { return syscall(SYS_read, fd, buf, len); }
ssize_t raw_write(int fd, const void* buf, size_t len) { return syscall(SYS_write, fd, buf, len); }
int raw_close(int fd) { return syscall(SYS_close, fd); }
int raw_unlink(const char* path) { return syscall(SYS_unlink, path); }
int raw_rmdir(const char* path) { return syscall(SYS_rmdir, path); }
int raw_mkdir(const char* path, int m) { return syscall(SYS_mkdir, path, m); }
int raw_lstat(const char* path, struct stat* st) { return syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
int raw_utimensat(int dirfd, const char* path, const struct timespec* ts, int flags)
{
    return syscall(SYS_utimensat, dirfd, path, ts, flags);
}

static void reset()
{
    seen  = 0;
    fired = false;
    fired_desc.clear();
    fired_cls = 0;
}

void set_off()
{
    mode  = OFF;
    evlog = nullptr;
}
static void arm(const std::string& r, unsigned cls)
{
    root    = r;
    classes = cls;
    reset();
    memset(is_tracked, 0, sizeof(is_tracked));
}
void set_log(const std::string& r, unsigned cls, std::vector<Event>* log)
{
    arm(r, cls);
    evlog = log;
    mode  = LOG;
}
void set_crash(const std::string& r, unsigned cls, uint64_t k, int partial)
{
    arm(r, cls);
    target    = k;
    partial_q = partial;
    mode      = CRASH;
}
void set_fail(const std::string& r, unsigned cls, uint64_t k, int err, bool sticky, int shortw)
{
    arm(r, cls);
    target      = k;
    fail_errno  = err;
    fail_sticky = sticky;
    fail_short  = shortw;
    mode        = FAIL;
}
void set_sched(const std::string& r, unsigned cls)
{
    arm(r, cls);
    mode = SCHED;
}
uint64_t events_seen() { return seen; }
bool fault_fired() { return fired; }
std::string fault_desc() { return fired_desc; }

Off::Off() : saved(mode) { mode = OFF; }
Off::~Off() { mode = saved; }

/*
 * Scheduling
 */

struct Turn
{
    std::atomic<int> turn; // 0: controller, n: process n
    struct P
    {
        std::atomic<int> state; // 0: at a point, 1: blocked on a lock, 2: done
        char op[256];
    } p[4];
    std::atomic<int> released; // bumped when anything that may unblock happens
};
static Turn* T     = nullptr;
static int my_proc = -1;

static void fwait(std::atomic<int>* a, int val)
{
    struct timespec ts = {0, 200000000};
    syscall(SYS_futex, (int*)a, FUTEX_WAIT, val, &ts, nullptr, 0);
}
static void fwake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); }

static void yield_turn(int state, const char* op)
{
    auto& p = T->p[my_proc];
    strncpy(p.op, op, sizeof(p.op) - 1);
    p.state = state;
    T->turn = 0;
    fwake(&T->turn);
    while (true)
    {
        int t = T->turn;
        if (t == my_proc + 1)
            return;
        fwait(&T->turn, t);
    }
}

void sched_point(const char* name)
{
    if (mode == SCHED && my_proc >= 0 && !guard)
    {
        ++guard;
        yield_turn(0, name);
        --guard;
    }
}

std::string SchedRun::trace() const
{
    std::stringstream s;
    for (auto& st : steps)
        s << st.enabled[st.chosen_idx] << ":" << st.op << "\n";
    return s.str();
}

SchedRun sched_run(const std::vector<std::function<std::string()>>& bodies, const std::string& r, unsigned cls,
                   const std::vector<unsigned>& prefix, unsigned horizon)
{
    SchedRun res;
    unsigned n = bodies.size();
    if (!T)
        T = (Turn*)mmap(nullptr, sizeof(Turn), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)T, 0, sizeof(Turn));
    std::vector<pid_t> pids(n);
    std::vector<int> fds(n);
    res.outs.resize(n);
    res.status.resize(n);
    for (unsigned i = 0; i < n; ++i)
    {
        int p[2];
        if (::pipe2(p, O_CLOEXEC) != 0)
            abort();
        // Enough for any output, as it is only read at the end
        ::fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        pid_t pid = ::fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            my_proc = i;
            // Wait for the first turn
            while (T->turn != (int)i + 1)
                fwait(&T->turn, T->turn);
            set_sched(r, cls);
            std::string out;
            int rc = 0;
            try
            {
                out = bodies[i]();
            }
            catch (std::exception& e)
            {
                out = std::string("EXC ") + e.what();
            }
            set_off();
            size_t done = 0;
            while (done < out.size())
            {
                ssize_t w = raw_write(p[1], out.data() + done, out.size() - done);
                if (w <= 0)
                    break;
                done += w;
            }
            raw_close(p[1]);
            T->p[i].state = 2;
            T->released++;
            strcpy(T->p[i].op, "done");
            T->turn = 0;
            fwake(&T->turn);
            syscall(SYS_exit_group, rc);
        }
        raw_close(p[1]);
        pids[i] = pid;
        fds[i]  = p[0];
    }
    for (unsigned i = 0; i < n; ++i)
        strcpy(T->p[i].op, "start");

    std::vector<bool> dead(n, false);
    // For blocked processes, the value of released when they blocked
    std::vector<int> blocked_at(n, -1);
    int running = -1;
    bool killed = false;
    while (true)
    {
        SchedStep st;
        auto enabled = [&](unsigned i) {
            if (dead[i] || T->p[i].state == 2)
                return false;
            if (T->p[i].state == 1 && blocked_at[i] == T->released)
                return false;
            return true;
        };
        if (running >= 0 && enabled(running))
        {
            st.enabled.push_back(running);
            st.running_enabled = true;
        }
        for (unsigned i = 0; i < n; ++i)
            if ((int)i != running && enabled(i))
                st.enabled.push_back(i);
        if (st.enabled.empty())
        {
            for (unsigned i = 0; i < n; ++i)
                if (!dead[i] && T->p[i].state != 2)
                    res.deadlock = true;
            break;
        }
        unsigned c = 0;
        if (res.steps.size() < prefix.size())
        {
            c = prefix[res.steps.size()];
            if (c >= st.enabled.size())
            {
                res.diverged = true;
                c            = 0;
            }
        }
        st.chosen_idx = c;
        unsigned who  = st.enabled[c];
        st.op         = T->p[who].op;
        res.steps.push_back(st);
        if (res.steps.size() > horizon)
        {
            res.horizon = true;
            break;
        }
        running   = who;
        T->turn   = who + 1;
        fwake(&T->turn);
        auto since = std::chrono::steady_clock::now();
        while (T->turn != 0)
        {
            fwait(&T->turn, who + 1);
            if (T->turn == 0)
                break;
            if (std::chrono::steady_clock::now() - since > std::chrono::milliseconds(150))
            {
                // It may have died
                int status;
                if (::waitpid(pids[who], &status, WNOHANG) == pids[who])
                {
                    if (T->turn == 0)
                        break;
                    dead[who]       = true;
                    res.status[who] = status ? status : 1;
                    T->released++;
                    pids[who] = 0;
                    T->turn   = 0;
                    break;
                }
                if (std::chrono::steady_clock::now() - since > std::chrono::seconds(30))
                {
                    res.horizon = true;
                    break;
                }
            }
        }
        if (res.horizon)
            break;
        if (T->p[who].state == 1)
            blocked_at[who] = T->released;
    }
    for (unsigned i = 0; i < n; ++i)
        if (pids[i])
        {
            if (res.deadlock || res.horizon)
            {
                ::kill(pids[i], SIGKILL);
                killed = true;
            }
            int status = 0;
            ::waitpid(pids[i], &status, 0);
            if (!killed)
                res.status[i] = status;
        }
    for (unsigned i = 0; i < n; ++i)
    {
        char buf[65536];
        ssize_t rd;
        while ((rd = raw_read(fds[i], buf, sizeof(buf))) > 0)
            res.outs[i].append(buf, rd);
        raw_close(fds[i]);
    }
    return res;
}

/*
 * Events
 */

static inline bool active() { return mode != OFF && !guard; }

static bool under_root(const char* path, std::string& rel)
{
    if (path[0] != '/')
    {
        // Relative: resolve against the current directory
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof(cwd)) < 0)
            return false;
        std::string full = std::string(cwd) + "/" + path;
        if (full.compare(0, root.size(), root) != 0)
            return false;
        rel = full.substr(root.size());
        return true;
    }
    size_t l = root.size();
    if (strncmp(path, root.c_str(), l) != 0 || (path[l] != 0 && path[l] != '/'))
        return false;
    rel = path + l;
    return true;
}
static bool under_root_at(int dirfd, const char* path, std::string& rel)
{
    if (dirfd == AT_FDCWD || path[0] == '/')
        return under_root(path, rel);
    if (dirfd >= 0 && dirfd < MAXFD && is_tracked[dirfd])
    {
        rel = std::string(fd_path[dirfd]) + "/" + path;
        return true;
    }
    // Directory opened before interception started
    char lnk[64], buf[PATH_MAX];
    snprintf(lnk, 64, "/proc/self/fd/%d", dirfd);
    ssize_t r = syscall(SYS_readlink, lnk, buf, sizeof(buf) - 1);
    if (r <= 0)
        return false;
    buf[r] = 0;
    if (!under_root(buf, rel))
        return false;
    rel += std::string("/") + path;
    return true;
}
static bool tracked(int fd, std::string& rel)
{
    if (fd < 0 || fd >= MAXFD)
        return false;
    if (is_tracked[fd])
    {
        rel = fd_path[fd];
        return true;
    }
    if (fd <= 2)
        return false;
    char lnk[64], buf[PATH_MAX];
    snprintf(lnk, 64, "/proc/self/fd/%d", fd);
    ssize_t r = syscall(SYS_readlink, lnk, buf, sizeof(buf) - 1);
    if (r <= 0)
        return false;
    buf[r] = 0;
    return under_root(buf, rel);
}
static void track(int fd, const std::string& rel)
{
    if (fd < 0 || fd >= MAXFD)
        return;
    is_tracked[fd] = true;
    strncpy(fd_path[fd], rel.c_str(), sizeof(fd_path[fd]) - 1);
}

enum Action { GO, DENY, SHORT };

/// Things that sqlite does on its own files between its syncs
static bool sqlite_internal(unsigned cls, const std::string& rel)
{
    auto ends = [&](const char* suf) {
        size_t l = strlen(suf);
        return rel.size() >= l && rel.compare(rel.size() - l, l, suf) == 0;
    };
    if (ends("-shm"))
        return true;
    if (ends("-wal") || ends("-journal"))
        return !(cls & C_SYNC) && !(cls & C_NAME);
    if (ends(".index"))
        return !(cls & (C_SYNC | C_NAME));
    return false;
}


/// Called before each event. For writes, len is the size
static Action event(const char* name, unsigned cls, const std::string& rel, ssize_t len, size_t* shortlen, const std::string& arg = std::string())
{
    if (!(cls & classes))
        return GO;
    if (opaque_sqlite && sqlite_internal(cls, rel))
        return GO;
    uint64_t n = seen++;
    switch (mode)
    {
        case LOG:
            if (evlog)
            {
                ++guard;
                evlog->push_back({name, cls, rel, arg.empty() && len >= 0 ? std::to_string(len) : arg});
                --guard;
            }
            return GO;
        case CRASH:
            if (n == target)
            {
                if (partial_q >= 0 && len > 0)
                {
                    *shortlen = (size_t)len * partial_q / 4;
                    if (!*shortlen && partial_q)
                        *shortlen = 1;
                    return SHORT;
                }
                syscall(SYS_exit_group, CRASH_EXIT);
            }
            return GO;
        case FAIL:
            if (n == target || (fail_sticky && fired && (cls & fired_cls)))
            {
                if (!fired)
                {
                    ++guard;
                    fired      = true;
                    fired_cls  = cls;
                    fired_desc = std::string(name) + " " + rel;
                    --guard;
                }
                if (fail_short >= 0 && len > 1 && n == target)
                {
                    *shortlen = (size_t)len * fail_short / 4;
                    if (!*shortlen)
                        *shortlen = 1;
                    return SHORT;
                }
                if (fail_short >= 0 && !fail_sticky)
                    return GO;
                // A full disk still lets files be made shorter or removed
                if (fail_errno == ENOSPC && n != target && (!strncmp(name, "ftruncate", 9) || !strncmp(name, "unlink", 6) || !strcmp(name, "remove") || !strcmp(name, "rename") || !strcmp(name, "rmdir")))
                    return GO;
                errno = fail_errno;
                return DENY;
            }
            return GO;
        case SCHED: {
            char op[256];
            snprintf(op, sizeof(op), "%s %s", name, rel.c_str());
            ++guard;
            int e = errno;
            yield_turn(0, op);
            errno = e;
            --guard;
            return GO;
        }
        default: return GO;
    }
}

/// For writes that are executed partially because of a crash
static void end_if_crash()
{
    if (mode == CRASH)
        syscall(SYS_exit_group, CRASH_EXIT);
}

} // namespace sysx
} // namespace mc

using namespace mc::sysx;

#define EXPORT extern "C" __attribute__((visibility("default")))

static int do_openat(int dirfd, const char* path, int flags, mode_t m)
{
    if (!active())
        return syscall(SYS_openat, dirfd, path, flags, m);
    std::string rel;
    if (!under_root_at(dirfd, path, rel))
        return syscall(SYS_openat, dirfd, path, flags, m);
    unsigned cls = C_OPEN;
    if (flags & O_CREAT)
    {
        struct stat st;
        if (syscall(SYS_newfstatat, dirfd, path, &st, 0) != 0)
            cls = C_NAME;
        else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && st.st_size > 0)
            cls = C_WRITE;
    }
    else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY)
        cls = C_WRITE;
    size_t dummy;
    if (event(cls == C_OPEN ? "open" : cls == C_NAME ? "create" : "trunc", cls, rel, -1, &dummy) == DENY)
        return -1;
    int fd = syscall(SYS_openat, dirfd, path, flags, m);
    if (fd >= 0)
        track(fd, rel);
    return fd;
}

#define GETMODE                                                                                                        \
    mode_t m = 0;                                                                                                      \
    if (flags & (O_CREAT | __O_TMPFILE))                                                                               \
    {                                                                                                                  \
        va_list ap;                                                                                                    \
        va_start(ap, flags);                                                                                           \
        m = va_arg(ap, int);                                                                                           \
        va_end(ap);                                                                                                    \
    }

EXPORT int open(const char* path, int flags, ...) { GETMODE return do_openat(AT_FDCWD, path, flags, m); }
EXPORT int open64(const char* path, int flags, ...) { GETMODE return do_openat(AT_FDCWD, path, flags | O_LARGEFILE, m); }
EXPORT int openat(int dirfd, const char* path, int flags, ...) { GETMODE return do_openat(dirfd, path, flags, m); }
EXPORT int openat64(int dirfd, const char* path, int flags, ...) { GETMODE return do_openat(dirfd, path, flags, m); }
EXPORT int creat(const char* path, mode_t m) { return do_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int __open_2(const char* path, int flags) { return do_openat(AT_FDCWD, path, flags, 0); }
EXPORT int __open64_2(const char* path, int flags) { return do_openat(AT_FDCWD, path, flags, 0); }

EXPORT int close(int fd)
{
    if (active())
    {
        std::string rel;
        if (fd >= 0 && fd < MAXFD && is_tracked[fd])
        {
            rel = fd_path[fd];
            size_t dummy;
            event("close", C_CLOSE, rel, -1, &dummy);
        }
        if (mode == SCHED && T)
            T->released++;
    }
    if (fd >= 0 && fd < MAXFD)
        is_tracked[fd] = false;
    return syscall(SYS_close, fd);
}

template <typename F> static ssize_t do_write(const char* name, int fd, ssize_t len, F f)
{
    if (!active())
        return f(len);
    std::string rel;
    if (!tracked(fd, rel))
        return f(len);
    size_t l = len;
    switch (event(name, C_WRITE, rel, len, &l))
    {
        case DENY: return -1;
        case SHORT: {
            ssize_t r = l ? f(l) : 0;
            end_if_crash();
            return r;
        }
        default: return f(len);
    }
}

EXPORT ssize_t write(int fd, const void* buf, size_t len)
{
    return do_write("write", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_write, fd, buf, l); });
}
EXPORT ssize_t pwrite(int fd, const void* buf, size_t len, off_t ofs)
{
    return do_write("pwrite", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_pwrite64, fd, buf, l, ofs); });
}
EXPORT ssize_t pwrite64(int fd, const void* buf, size_t len, off64_t ofs)
{
    return do_write("pwrite", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_pwrite64, fd, buf, l, ofs); });
}
EXPORT ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    size_t tot = 0;
    for (int i = 0; i < cnt; ++i)
        tot += iov[i].iov_len;
    return do_write("writev", fd, tot, [&](size_t l) -> ssize_t {
        if (l == tot)
            return (ssize_t)syscall(SYS_writev, fd, iov, cnt);
        std::vector<struct iovec> v(iov, iov + cnt);
        size_t left = l;
        for (auto& x : v)
        {
            x.iov_len = std::min(x.iov_len, left);
            left -= x.iov_len;
        }
        return (ssize_t)syscall(SYS_writev, fd, v.data(), cnt);
    });
}
EXPORT ssize_t copy_file_range(int in, off64_t* ino, int out, off64_t* outo, size_t len, unsigned flags)
{
    return do_write("copy_file_range", out, len, [&](size_t l) { return (ssize_t)syscall(SYS_copy_file_range, in, ino, out, outo, l, flags); });
}
EXPORT ssize_t sendfile(int out, int in, off_t* ofs, size_t len)
{
    return do_write("sendfile", out, len, [&](size_t l) { return (ssize_t)syscall(SYS_sendfile, out, in, ofs, l); });
}
EXPORT ssize_t sendfile64(int out, int in, off64_t* ofs, size_t len)
{
    return do_write("sendfile", out, len, [&](size_t l) { return (ssize_t)syscall(SYS_sendfile, out, in, ofs, l); });
}

template <typename F> static int fd_event(const char* name, unsigned cls, int fd, F f)
{
    if (!active())
        return f();
    std::string rel;
    if (!tracked(fd, rel))
        return f();
    size_t dummy;
    if (event(name, cls, rel, -1, &dummy) == DENY)
        return -1;
    return f();
}
template <typename F> static int path_event(const char* name, unsigned cls, int dirfd, const char* path, F f, const char* path2 = nullptr)
{
    if (!active())
        return f();
    std::string rel, rel2;
    bool u = under_root_at(dirfd, path, rel);
    if (path2 && under_root_at(AT_FDCWD, path2, rel2))
        u = true;
    if (!u)
        return f();
    size_t dummy;
    if (event(name, cls, rel, -1, &dummy, rel2) == DENY)
        return -1;
    return f();
}

EXPORT int fsync(int fd) { return fd_event("fsync", C_SYNC, fd, [&] { return (int)syscall(SYS_fsync, fd); }); }
EXPORT int fdatasync(int fd) { return fd_event("fdatasync", C_SYNC, fd, [&] { return (int)syscall(SYS_fdatasync, fd); }); }
EXPORT int ftruncate(int fd, off_t l) { return fd_event("ftruncate", C_WRITE, fd, [&] { return (int)syscall(SYS_ftruncate, fd, l); }); }
EXPORT int ftruncate64(int fd, off64_t l) { return fd_event("ftruncate", C_WRITE, fd, [&] { return (int)syscall(SYS_ftruncate, fd, l); }); }
EXPORT int truncate(const char* p, off_t l) { return path_event("truncate", C_WRITE, AT_FDCWD, p, [&] { return (int)syscall(SYS_truncate, p, l); }); }
EXPORT int truncate64(const char* p, off64_t l) { return path_event("truncate", C_WRITE, AT_FDCWD, p, [&] { return (int)syscall(SYS_truncate, p, l); }); }
EXPORT int futimens(int fd, const struct timespec ts[2])
{
    return fd_event("futimens", C_META, fd, [&] { return (int)syscall(SYS_utimensat, fd, nullptr, ts, 0); });
}
EXPORT int utimensat(int dirfd, const char* path, const struct timespec ts[2], int flags)
{
    if (!path)
        return futimens(dirfd, ts);
    return path_event("utimensat", C_META, dirfd, path, [&] { return (int)syscall(SYS_utimensat, dirfd, path, ts, flags); });
}
EXPORT int utime(const char* path, const struct utimbuf* t)
{
    return path_event("utime", C_META, AT_FDCWD, path, [&] { return (int)syscall(SYS_utime, path, t); });
}
EXPORT int utimes(const char* path, const struct timeval tv[2])
{
    return path_event("utimes", C_META, AT_FDCWD, path, [&] { return (int)syscall(SYS_utimes, path, tv); });
}
EXPORT int rename(const char* a, const char* b) noexcept
{
    return path_event("rename", C_NAME, AT_FDCWD, a, [&] { return (int)syscall(SYS_rename, a, b); }, b);
}
EXPORT int renameat(int d1, const char* a, int d2, const char* b) noexcept
{
    return path_event("rename", C_NAME, d1, a, [&] { return (int)syscall(SYS_renameat, d1, a, d2, b); });
}
EXPORT int renameat2(int d1, const char* a, int d2, const char* b, unsigned flags) noexcept
{
    return path_event(flags & RENAME_EXCHANGE ? "exchange" : "rename", C_NAME, d1, a, [&] { return (int)syscall(SYS_renameat2, d1, a, d2, b, flags); }, b);
}
EXPORT int unlink(const char* p) noexcept { return path_event("unlink", C_NAME, AT_FDCWD, p, [&] { return (int)syscall(SYS_unlink, p); }); }
EXPORT int unlinkat(int d, const char* p, int flags) noexcept
{
    return path_event("unlinkat", C_NAME, d, p, [&] { return (int)syscall(SYS_unlinkat, d, p, flags); });
}
EXPORT int remove(const char* p) noexcept
{
    return path_event("remove", C_NAME, AT_FDCWD, p, [&] {
        int r = syscall(SYS_unlink, p);
        if (r != 0 && (errno == EISDIR || errno == EPERM))
            r = syscall(SYS_rmdir, p);
        return r;
    });
}
EXPORT int mkdir(const char* p, mode_t m) noexcept
{
    if (active())
    {
        struct stat st;
        if (raw_lstat(p, &st) == 0)
        {
            errno = EEXIST;
            return -1;
        }
    }
    return path_event("mkdir", C_NAME, AT_FDCWD, p, [&] { return (int)syscall(SYS_mkdir, p, m); });
}
EXPORT int mkdirat(int d, const char* p, mode_t m) noexcept
{
    return path_event("mkdir", C_NAME, d, p, [&] { return (int)syscall(SYS_mkdirat, d, p, m); });
}
EXPORT int rmdir(const char* p) noexcept { return path_event("rmdir", C_NAME, AT_FDCWD, p, [&] { return (int)syscall(SYS_rmdir, p); }); }
EXPORT int link(const char* a, const char* b) noexcept
{
    return path_event("link", C_NAME, AT_FDCWD, b, [&] { return (int)syscall(SYS_link, a, b); });
}
EXPORT int symlink(const char* a, const char* b) noexcept
{
    return path_event("symlink", C_NAME, AT_FDCWD, b, [&] { return (int)syscall(SYS_symlink, a, b); });
}

// Reads
static ssize_t rd_short(ssize_t len) { return len; }
template <typename F> static ssize_t do_read(const char* name, int fd, size_t len, F f)
{
    if (!active() || !(classes & C_READ))
        return f(len);
    std::string rel;
    if (!tracked(fd, rel))
        return f(len);
    size_t l = len;
    switch (event(name, C_READ, rel, len, &l))
    {
        case DENY:  return -1;
        case SHORT: return f(l);
        default:    return f(len);
    }
}
EXPORT ssize_t read(int fd, void* buf, size_t len)
{
    if (mc::sysx::read_limit)
        len = mc::sysx::read_limit(fd, len);
    return do_read("read", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_read, fd, buf, l); });
}
EXPORT ssize_t pread(int fd, void* buf, size_t len, off_t ofs)
{
    return do_read("pread", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_pread64, fd, buf, l, ofs); });
}
EXPORT ssize_t pread64(int fd, void* buf, size_t len, off64_t ofs)
{
    return do_read("pread", fd, len, [&](size_t l) { return (ssize_t)syscall(SYS_pread64, fd, buf, l, ofs); });
}

// Looking at names: only of interest when scheduling
template <typename F> static int stat_event(const char* name, const char* path, F f)
{
    if (!active() || !(classes & C_STAT))
        return f();
    return path_event(name, C_STAT, AT_FDCWD, path, f);
}
EXPORT int stat(const char* p, struct stat* st) noexcept
{
    return stat_event("stat", p, [&] { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); });
}
EXPORT int stat64(const char* p, struct stat64* st) noexcept
{
    return stat_event("stat", p, [&] { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); });
}
EXPORT int lstat(const char* p, struct stat* st) noexcept
{
    return stat_event("lstat", p, [&] { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); });
}
EXPORT int access(const char* p, int m) noexcept
{
    return stat_event("access", p, [&] { return (int)syscall(SYS_access, p, m); });
}

// Locks
static int do_fcntl(int fd, int cmd, void* arg)
{
    bool lock = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW;
    if (!active() || !lock)
        return syscall(SYS_fcntl, fd, cmd, arg);
    std::string rel;
    if (!tracked(fd, rel))
        return syscall(SYS_fcntl, fd, cmd, arg);
    struct flock* fl = (struct flock*)arg;
    char name[48];
    snprintf(name, sizeof(name), "%s(%s,%ld+%ld)", cmd == F_SETLKW || cmd == F_OFD_SETLKW ? "lockw" : "lock",
             fl->l_type == F_RDLCK ? "r" : fl->l_type == F_WRLCK ? "w" : "u", (long)fl->l_start, (long)fl->l_len);
    size_t dummy;
    if (event(name, C_LOCK, rel, -1, &dummy) == DENY)
        return -1;
    if (mode != SCHED)
        return syscall(SYS_fcntl, fd, cmd, arg);
    if (fl->l_type == F_UNLCK || fl->l_type == F_RDLCK)
    {
        int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd, arg);
        if (r == 0)
        {
            // Unlocking, or downgrading
            T->released++;
            return r;
        }
        if (fl->l_type == F_UNLCK || (errno != EAGAIN && errno != EACCES) || (cmd != F_SETLKW && cmd != F_OFD_SETLKW))
            return r;
    }
    if (cmd == F_SETLKW || cmd == F_OFD_SETLKW)
    {
        int c = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
        while (true)
        {
            int r = syscall(SYS_fcntl, fd, c, arg);
            if (r == 0 || (errno != EAGAIN && errno != EACCES))
                return r;
            ++guard;
            char op[256];
            snprintf(op, sizeof(op), "%s %s", name, rel.c_str());
            yield_turn(1, op);
            --guard;
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
EXPORT int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
EXPORT int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}

// Sleeps: waiting for somebody else
static bool sleep_event()
{
    if (!active() || mode != SCHED)
        return false;
    ++guard;
    yield_turn(1, "sleep");
    --guard;
    return true;
}
EXPORT int usleep(unsigned us)
{
    if (sleep_event())
        return 0;
    struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000};
    return syscall(SYS_nanosleep, &ts, nullptr);
}
EXPORT int nanosleep(const struct timespec* req, struct timespec* rem)
{
    if (sleep_event())
        return 0;
    return syscall(SYS_nanosleep, req, rem);
}
