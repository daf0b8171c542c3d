// Interposed system calls: the executable defines the libc entry points, so
// that the library and everything it uses (sqlite, libstdc++, libarchive...)
// goes through them.
#ifndef MCSYS_H
#define MCSYS_H
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <vector>

namespace mc {
namespace sysx {

enum Mode { OFF, LOG, CRASH, FAIL, SCHED };

enum Class {
    C_WRITE  = 1,  // changes file contents
    C_SYNC   = 2,  // fsync, fdatasync
    C_NAME   = 4,  // creates, renames or removes names
    C_META   = 8,  // timestamps
    C_READ   = 16, // reads contents
    C_LOCK   = 32, // locks
    C_STAT   = 64, // looks at names
    C_OPEN   = 128,// opens without creating
    C_CLOSE  = 256,
    C_MUTATE = C_WRITE | C_SYNC | C_NAME | C_META,
};

struct Event
{
    std::string name;
    unsigned cls;
    std::string path; // relative to root
    std::string arg;
};

/// Take what sqlite does between syncs of its files as done at once
extern bool opaque_sqlite;
/// If set, says how much read() can read at most
extern size_t (*read_limit)(int fd, size_t len);
/// Start intercepting operations on files below root
void set_off();
void set_log(const std::string& root, unsigned classes, std::vector<Event>* log);
/// End the process just before the k-th (from 0) event; if partial is >= 0 and
/// the event is a write, only write that portion (in quarters) of the buffer
/// before ending
void set_crash(const std::string& root, unsigned classes, uint64_t k, int partial);
/// The k-th event fails with the given errno, without being done. If sticky,
/// so do all the following events of the same class. If shortw >= 0, a
/// write is instead done in part.
void set_fail(const std::string& root, unsigned classes, uint64_t k, int err, bool sticky, int shortw = -1);
uint64_t events_seen();
bool fault_fired();
/// Description of the event at which the fault fired
std::string fault_desc();
/// If set, called before each event in SCHED mode
void set_sched(const std::string& root, unsigned classes);

/// While in scope, nothing is intercepted
struct Off
{
    Mode saved;
    Off();
    ~Off();
};

int raw_open(const char* path, int flags, int mode);
ssize_t raw_read(int fd, void* buf, size_t len);
ssize_t raw_write(int fd, const void* buf, size_t len);
int raw_close(int fd);
int raw_unlink(const char* path);
int raw_rmdir(const char* path);
int raw_mkdir(const char* path, int mode);
int raw_lstat(const char* path, struct stat* st);
int raw_utimensat(int dirfd, const char* path, const struct timespec* ts, int flags);

static const int CRASH_EXIT = 77;

/*
 * Controlled scheduling of processes
 */
struct ProcView
{
    bool done    = false;
    bool blocked = false; // waiting for a lock
    std::string op;       // what it is about to do
};

struct SchedStep
{
    std::vector<unsigned> enabled; // canonical order: running process first
    unsigned chosen_idx = 0;       // index in enabled
    bool running_enabled = false;
    std::string op; // operation that the chosen process executed
};

struct SchedRun
{
    std::vector<SchedStep> steps;
    bool deadlock = false;
    bool diverged = false;
    bool horizon  = false;
    std::vector<std::string> outs; // output of each process
    std::vector<int> status;
    std::string trace() const;
};

/// Run the given bodies, one per process, switching as told by prefix, then
/// never switching unless needed
SchedRun sched_run(const std::vector<std::function<std::string()>>& bodies, const std::string& root, unsigned classes,
                   const std::vector<unsigned>& prefix, unsigned horizon = 20000);
/// To be called by a body: a scheduling point not related to a system call
void sched_point(const char* name);

} // namespace sysx
} // namespace mc
#endif
