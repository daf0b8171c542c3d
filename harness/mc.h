// Exploration driver shared by the harnesses.
//
// A harness plans a list of tasks (strings that fully determine what is run),
// which are executed by forked workers. A task enumerates one or more cases,
// and reports what it covered and what failed. A crash or a hang of a worker
// is a failure of the case it was running.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

struct Args
{
    std::string prop;
    bool thorough = false;
    std::string out;
    std::string only; // run only this task
    unsigned jobs = 8;
    bool verbose  = false;
    unsigned seed = 1;
    unsigned hang = 60;
};
extern Args args;

/// The property does not hold on a case
struct Fail : public std::runtime_error
{
    std::string key;
    Fail(const std::string& key, const std::string& msg) : std::runtime_error(msg), key(key) {}
};

/// What a worker can report while running a task
struct Ctx
{
    std::string task;
    std::vector<std::string>* outputs = nullptr;

    /// Declare the case being run
    void current(const std::string& desc);
    /// Executions/inputs evaluated
    void eval(uint64_t n = 1);
    void states(uint64_t n = 1);
    void transitions(uint64_t n = 1);
    void traces(uint64_t n = 1);
    void extra(unsigned idx, uint64_t n = 1);
    /// Count a distinct non trivial outcome. True if it was new
    bool distinct(const std::string& s);
    bool distinct_hash(uint64_t h);
    bool visited(uint64_t h);
    /// Report a failure
    void fail(const std::string& key, const std::string& msg);
    /// Record a sample of what was run
    void sample(const std::string& s);
    void emit(const std::string& s);
};

uint64_t hash(const std::string& s, uint64_t seed = 14695981039346656037ULL);
inline uint64_t mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ULL + (a << 12) + (a >> 4);
    a *= 0xff51afd7ed558ccdULL;
    return a ^ (a >> 33);
}

typedef std::function<void(Ctx&, const std::string& task)> task_func;

/// Run all tasks with the given function, return what they emitted. All tasks
/// of a phase begin with the given prefix, which tells phases apart on replay.
std::vector<std::string> run_tasks(const std::vector<std::string>& tasks, task_func f, const std::string& prefix = "");

/// Names for the extra counters
void name_extra(unsigned idx, const std::string& name);
/// Add a constant fact to the coverage (bounds, alphabets...)
void note(const std::string& key, const std::string& val);

struct Check
{
    std::string prop;
    std::function<void()> run;
};
/// Register the check of a property
struct Register
{
    Register(const std::string& prop, std::function<void()> run);
};

/// Scratch directory for this process, emptied when asked for
std::string scratch();
std::string fresh_scratch();
void rmtree(const std::string& path);
void copytree(const std::string& src, const std::string& dst);
/// Content hash of a directory tree (names, types, contents)
std::string tree_digest(const std::string& path, bool mtimes = false);
std::map<std::string, std::string> tree_contents(const std::string& path);

std::string slurp(const std::string& path);
void spew(const std::string& path, const std::string& data);
std::vector<std::string> split(const std::string& s, char sep);
std::string join(const std::vector<std::string>& v, const std::string& sep);
std::string quote(const std::string& s); // printable form

template <typename... A> std::string cat(A&&... a)
{
    std::stringstream s;
    (s << ... << a);
    return s.str();
}

/// Run f in a child process. Returns: exit status as from waitpid, or -1 on
/// timeout. The child sends back a string.
struct ChildResult
{
    int status   = 0;
    bool timeout = false;
    std::string out;
    bool exited(int code) const;
};
ChildResult in_child(std::function<std::string()> f, unsigned timeout_s = 60);

} // namespace mc
#endif
