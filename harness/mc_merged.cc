// Queries on several datasets at the same time: exhaustive exploration of the
// schedules of the threads that read the datasets and of the one that merges
// what they find.
//
// Threads are real ones, run one at a time: the functions used to create and
// join threads, to lock mutexes and to wait for conditions are replaced by
// ones that let a scheduler choose who goes next. Schedules are enumerated
// depth first, leaving out those that reach, in a different order of
// independent steps, a state that was already explored.
#include "common_ds.h"
#include "mcsys.h"
#include <algorithm>
#include <arki/core/time.h>
#include <arki/dataset/impl.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/session.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/types/reftime.h>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace mc;
using namespace arki;

namespace {

/*
 * Scheduler of threads
 */

enum State { READY, LOCKING, WAITING, JOINING, DONE };

struct Thr
{
    State state = READY;
    void* mutex = nullptr;
    void* cond  = nullptr;
    Thr* join   = nullptr;
    sem_t sem;
    uint64_t hash = 0;
    unsigned num  = 0;
    bool spurious = false;
    pthread_t handle;
    void* (*fn)(void*) = nullptr;
    void* arg          = nullptr;
};

struct Shared
{
    char schedule[4096];
    char what[1024];
};

struct Sched
{
    bool on = false;
    std::vector<Thr*> threads;
    std::unordered_map<void*, Thr*> owner;
    std::unordered_map<void*, uint64_t> objs;
    std::unordered_map<pthread_t, Thr*> by_handle;
    // Choices to replay, then made
    std::vector<std::pair<unsigned, unsigned>> choices; // chosen, number of alternatives
    size_t pos = 0;
    unsigned preemptions = 0, max_preemptions = 0;
    unsigned spurious = 0, max_spurious = 0;
    unsigned creations = 0, fail_creation = 0;
    std::unordered_map<uint64_t, unsigned> visited;
    bool pruned = false;
    bool delays = false; // all deviations count, not just preemptions
    uint64_t steps = 0;
    Shared* shared = nullptr;
};

Sched S;
thread_local Thr* self = nullptr;

typedef int (*f_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*f_join)(pthread_t, void**);
typedef int (*f_mutex)(pthread_mutex_t*);
typedef int (*f_cond)(pthread_cond_t*);
typedef int (*f_wait)(pthread_cond_t*, pthread_mutex_t*);

template <typename F> F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
f_create r_create;
f_join r_join;
f_mutex r_lock, r_unlock;
f_cond r_signal, r_broadcast;
f_wait r_wait;

struct Range
{
    uintptr_t begin, end;
};
std::vector<Range> ours;

__attribute__((constructor(101))) void load_real()
{
    r_create    = real<f_create>("pthread_create");
    r_join      = real<f_join>("pthread_join");
    r_lock      = real<f_mutex>("pthread_mutex_lock");
    r_unlock    = real<f_mutex>("pthread_mutex_unlock");
    r_signal    = real<f_cond>("pthread_cond_signal");
    r_broadcast = real<f_cond>("pthread_cond_broadcast");
    r_wait      = real<f_wait>("pthread_cond_wait");
}

void find_ours()
{
    dl_iterate_phdr(
        [](struct dl_phdr_info* info, size_t, void*) {
            std::string name = info->dlpi_name;
            if (!name.empty() && name.find("libarkimc") == std::string::npos)
                return 0;
            for (int i = 0; i < info->dlpi_phnum; ++i)
                if (info->dlpi_phdr[i].p_type == PT_LOAD)
                    ours.push_back(Range{info->dlpi_addr + info->dlpi_phdr[i].p_vaddr,
                                         info->dlpi_addr + info->dlpi_phdr[i].p_vaddr + info->dlpi_phdr[i].p_memsz});
            return 0;
        },
        nullptr);
}

bool is_ours(void* addr)
{
    uintptr_t a = (uintptr_t)addr;
    for (const auto& r : ours)
        if (a >= r.begin && a < r.end)
            return true;
    return false;
}

bool enabled(Thr* t)
{
    switch (t->state)
    {
        case READY: return true;
        case LOCKING: return !S.owner.count(t->mutex);
        case WAITING: return t->spurious;
        case JOINING: return t->join->state == DONE;
        default: return false;
    }
}

void note_choice(unsigned c)
{
    size_t l = strlen(S.shared->schedule);
    if (l + 8 < sizeof(S.shared->schedule))
        snprintf(S.shared->schedule + l, 8, "%u.", c);
}

[[noreturn]] void give_up(const char* what)
{
    strncpy(S.shared->what, what, sizeof(S.shared->what) - 1);
    _exit(9);
}

/// Choose among n alternatives: cost[i] tells if the choice is a preemption
unsigned choose(unsigned n)
{
    if (n == 1)
        return 0;
    unsigned res;
    if (S.pos < S.choices.size())
    {
        if (S.choices[S.pos].second != n)
            give_up("HARNESS: execution is not deterministic");
        res = S.choices[S.pos].first;
    }
    else
    {
        S.choices.push_back({0, n});
        res = 0;
    }
    ++S.pos;
    note_choice(res);
    return res;
}

/// Record that the current thread did something on an object
void touch(void* obj, unsigned op)
{
    uint64_t& o = S.objs[obj];
    uint64_t h  = mix(mix(self->hash, o), op);
    self->hash  = h;
    o           = h;
}

void observe(uint64_t val) { if (self) self->hash = mix(self->hash, val); }

/// Let another thread run, or go on
void reschedule()
{
    ++S.steps;
    if (S.steps > 200000)
        give_up("no end in sight: more than 200000 steps");
    std::vector<Thr*> cand;
    bool can_go_on = enabled(self);
    if (can_go_on)
        cand.push_back(self);
    for (auto t : S.threads)
        if (t != self && enabled(t))
            cand.push_back(t);
    // Spurious wakeups: nothing is lost by delivering them when there is
    // something else to choose from
    size_t normal = cand.size();
    if (!cand.empty() && S.spurious < S.max_spurious)
        for (auto t : S.threads)
            if (t->state == WAITING)
                cand.push_back(t);
    if (cand.empty())
    {
        bool all = true;
        for (auto t : S.threads)
            if (t->state != DONE)
                all = false;
        if (all)
            return;
        std::string d = "deadlock:";
        for (auto t : S.threads)
            d += cat(" thread ", t->num, t->state == LOCKING ? " wants a mutex" : t->state == WAITING ? " waits for a condition" : t->state == JOINING ? " joins a thread" : " ended");
        give_up(d.c_str());
    }
    unsigned n = cand.size();
    if ((can_go_on || S.delays) && S.preemptions >= S.max_preemptions)
        n = 1;
    if (n > 1 && !S.pruned && S.pos >= S.choices.size())
    {
        uint64_t key = 0;
        for (auto t : S.threads)
            key = mix(mix(mix(key, t->hash), t->state), t->spurious);
        uint64_t o = 0;
        for (const auto& i : S.objs)
            o += i.second;
        key     = mix(mix(mix(key, o), self->num), S.max_spurious - S.spurious);
        auto it = S.visited.find(key);
        if (it != S.visited.end() && it->second <= S.preemptions)
            S.pruned = true;
        else
            S.visited[key] = S.preemptions;
    }
    // Once in a known state, there is nothing new to choose
    unsigned c = S.pruned && S.pos >= S.choices.size() ? 0 : choose(n);
    Thr* next = cand[c];
    if (c >= normal)
    {
        ++S.spurious;
        next->state = LOCKING;
        if (S.owner.count(next->mutex))
        {
            // It will go on when it can
            return reschedule();
        }
    }
    if (S.delays ? c != 0 : can_go_on && next != self)
        ++S.preemptions;
    if (next == self)
        return;
    bool ended = self->state == DONE;
    Thr* me    = self;
    sem_post(&next->sem);
    if (!ended)
        while (sem_wait(&me->sem) != 0)
            ;
}

void* thread_main(void* arg)
{
    Thr* t = (Thr*)arg;
    while (sem_wait(&t->sem) != 0)
        ;
    self      = t;
    void* res = t->fn(t->arg);
    touch(t, 5);
    t->state = DONE;
    reschedule();
    self = nullptr;
    return res;
}

} // namespace

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!S.on || !self)
        return r_create ? r_create(th, attr, fn, arg) : real<f_create>("pthread_create")(th, attr, fn, arg);
    ++S.creations;
    if (S.fail_creation == S.creations)
        return EAGAIN;
    Thr* t = new Thr;
    t->num = S.threads.size();
    t->hash = mix(self->hash, t->num);
    t->fn  = fn;
    t->arg = arg;
    sem_init(&t->sem, 0, 0);
    int res = r_create(th, attr, thread_main, t);
    if (res != 0)
        give_up("HARNESS: cannot create a thread");
    t->handle           = *th;
    S.by_handle[*th]    = t;
    S.threads.push_back(t);
    self->hash = mix(self->hash, 77);
    reschedule();
    return 0;
}

int pthread_join(pthread_t th, void** res)
{
    if (!S.on || !self)
        return r_join(th, res);
    auto i = S.by_handle.find(th);
    if (i == S.by_handle.end())
        give_up("joined a thread that is not there, or was already joined");
    Thr* t      = i->second;
    self->state = JOINING;
    self->join  = t;
    reschedule();
    self->state = READY;
    touch(t, 6);
    S.by_handle.erase(th);
    return r_join(th, res);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!S.on || !self || !is_ours(__builtin_return_address(0)))
        return r_lock ? r_lock(m) : real<f_mutex>("pthread_mutex_lock")(m);
    self->state = LOCKING;
    self->mutex = m;
    reschedule();
    while (S.owner.count(m))
        reschedule();
    self->state = READY;
    S.owner[m]  = self;
    touch(m, 1);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!S.on || !self || !is_ours(__builtin_return_address(0)))
        return r_unlock ? r_unlock(m) : real<f_mutex>("pthread_mutex_unlock")(m);
    auto i = S.owner.find(m);
    if (i == S.owner.end() || i->second != self)
        give_up("unlocked a mutex that was not locked");
    S.owner.erase(i);
    touch(m, 2);
    reschedule();
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    auto i = S.owner.find(m);
    if (!S.on || !self || i == S.owner.end() || i->second != self)
        return r_wait(c, m);
    S.owner.erase(i);
    touch(c, 3);
    touch(m, 2);
    self->state = WAITING;
    self->cond  = c;
    self->mutex = m;
    reschedule();
    while (S.owner.count(m))
        reschedule();
    self->state = READY;
    S.owner[m]  = self;
    touch(m, 1);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!S.on || !self)
        return r_broadcast(c);
    touch(c, 4);
    for (auto t : S.threads)
        if (t->state == WAITING && t->cond == c)
            t->state = LOCKING;
    return 0;
}

int pthread_cond_signal(pthread_cond_t* c)
{
    if (!S.on || !self)
        return r_signal(c);
    touch(c, 4);
    std::vector<Thr*> w;
    for (auto t : S.threads)
        if (t->state == WAITING && t->cond == c)
            w.push_back(t);
    if (!w.empty())
        w[choose(w.size())]->state = LOCKING;
    return 0;
}
}

namespace {

struct Explored
{
    uint64_t schedules = 0, states = 0, steps = 0;
    unsigned max_threads = 0;
    bool complete        = true;
    std::string failure_key, failure, schedule;
    std::set<std::string> outcomes;

    std::string str() const
    {
        return cat(schedules, "\x1f", states, "\x1f", steps, "\x1f", max_threads, "\x1f", complete, "\x1f", failure_key, "\x1f", failure, "\x1f", schedule, "\x1f",
                   mc::join(std::vector<std::string>(outcomes.begin(), outcomes.end()), "\x1e"));
    }
};

/// Explore the schedules of f, which returns the outcome or throws mc::Fail
void explore(Explored& res, Shared* shared, std::function<std::string()> f, unsigned preemptions, unsigned spurious, unsigned fail_creation, uint64_t max_schedules)
{
    S.shared          = shared;
    S.max_preemptions = preemptions;
    S.max_spurious    = spurious;
    S.choices.clear();
    S.visited.clear();
    while (true)
    {
        S.threads.clear();
        S.owner.clear();
        S.objs.clear();
        S.by_handle.clear();
        S.pos = 0;
        S.preemptions = S.spurious = 0;
        S.creations     = 0;
        S.fail_creation = fail_creation;
        S.pruned        = false;
        S.steps         = 0;
        shared->schedule[0] = 0;
        Thr me;
        sem_init(&me.sem, 0, 0);
        S.threads.push_back(&me);
        self = &me;
        S.on = true;
        std::string outcome;
        try
        {
            outcome = f();
        }
        catch (mc::Fail& e)
        {
            res.failure_key = e.key;
            res.failure     = e.what();
        }
        // Every thread must have ended
        unsigned alive = 0;
        for (auto t : S.threads)
            if (t != &me && t->state != DONE)
                ++alive;
        if (alive && res.failure.empty())
        {
            res.failure_key = "threads-left";
            res.failure     = cat(alive, " threads are still running at the end of the query");
        }
        S.on = false;
        self = nullptr;
        ++res.schedules;
        res.steps += S.steps;
        res.max_threads = std::max<unsigned>(res.max_threads, S.threads.size());
        res.outcomes.insert(outcome);
        if (!res.failure.empty())
        {
            res.schedule = shared->schedule;
            return;
        }
        for (auto t : S.threads)
            if (t != &me)
                delete t;
        // Next schedule
        while (!S.choices.empty() && S.choices.back().first + 1 >= S.choices.back().second)
            S.choices.pop_back();
        if (S.choices.empty())
            break;
        ++S.choices.back().first;
        if (res.schedules >= max_schedules)
        {
            res.complete = false;
            break;
        }
    }
    res.states += S.visited.size();
}

/*
 * Datasets that are lists of metadata
 */

struct Spec
{
    std::vector<int> times; // reference times
    int fail_at = -1;       // fail instead of producing this element
    bool stubborn = false;  // keep on sending when told to stop
};

struct Produced
{
    unsigned calls = 0;
    unsigned after_stop = 0;
};

struct ListDataset : public dataset::Dataset
{
    using dataset::Dataset::Dataset;
};

struct ListReader : public dataset::DatasetAccess<ListDataset, dataset::Reader>
{
    const Spec& spec;
    std::vector<std::shared_ptr<Metadata>> items;
    std::string tag;

    ListReader(std::shared_ptr<ListDataset> ds, const Spec& spec, const std::vector<std::shared_ptr<Metadata>>& items, const std::string& tag)
        : DatasetAccess(ds), spec(spec), items(items), tag(tag)
    {
    }
    std::string type() const override { return "list"; }

    bool impl_query_data(const query::Data& q, metadata_dest_func dest) override
    {
        if (q.progress)
            throw mc::Fail("progress", "a component dataset was asked to report progress too");
        for (size_t i = 0; i <= items.size(); ++i)
        {
            if ((int)i == spec.fail_at)
                throw std::runtime_error("broken " + tag);
            if (i == items.size())
                break;
            if (!q.matcher(*items[i]))
                continue;
            bool ok = dest(items[i]);
            observe(ok);
            if (!ok && !spec.stubborn)
                return false;
        }
        return true;
    }
    void impl_query_summary(const Matcher& matcher, Summary& summary) override
    {
        for (size_t i = 0; i <= items.size(); ++i)
        {
            if ((int)i == spec.fail_at)
                throw std::runtime_error("broken " + tag);
            if (i == items.size())
                break;
            if (matcher(*items[i]))
                summary.add(*items[i]);
        }
    }
    void impl_stream_query_bytes(const query::Bytes& q, StreamOutput& out) override
    {
        for (size_t i = 0; i <= items.size(); ++i)
        {
            if ((int)i == spec.fail_at)
                throw std::runtime_error("broken " + tag);
            if (i == items.size())
                break;
            if (!q.matcher(*items[i]))
                continue;
            std::string s = tag + std::to_string(i) + ";";
            out.send_buffer(s.data(), s.size());
        }
    }
    core::Interval get_stored_time_interval() override { return core::Interval(); }
};

struct CountProgress : public query::Progress
{
    unsigned started = 0, updated = 0, ended = 0;
    void start(size_t = 0, size_t = 0) override { ++started; }
    void update(size_t c, size_t) override { updated += c; }
    void done() override { ++ended; }
};

struct Scene
{
    std::vector<Spec> specs;
    std::string sorter; // sort order
    std::string matcher;
    std::vector<std::vector<std::shared_ptr<Metadata>>> items;
    std::shared_ptr<dataset::Session> session;
    std::shared_ptr<dataset::Pool> pool;
    std::shared_ptr<dataset::merged::Dataset> merged;
    Matcher m;

    Scene(const std::vector<Spec>& specs_, const std::string& sorter, const std::string& matcher)
        : specs(specs_), sorter(sorter), matcher(matcher)
    {
        session = std::make_shared<dataset::Session>();
        pool    = std::make_shared<dataset::Pool>(session);
        merged  = std::make_shared<dataset::merged::Dataset>(pool);
        if (!matcher.empty())
            m = session->matcher(matcher);
        for (size_t i = 0; i < specs.size(); ++i)
        {
            std::vector<std::shared_ptr<Metadata>> mds;
            if (sorter == "-reftime")
                std::reverse(specs[i].times.begin(), specs[i].times.end());
            for (auto t : specs[i].times)
            {
                auto md = std::make_shared<Metadata>();
                md->set(types::Reftime::createPosition(core::Time(2020, 1, 1 + t, 0, 0, 0)));
                mds.push_back(md);
            }
            items.push_back(mds);
        }
        for (size_t i = 0; i < specs.size(); ++i)
            merged->datasets.push_back(std::make_shared<ListReader>(std::make_shared<ListDataset>(session, cat("ds", i)), specs[i], items[i], cat("r", i, "-")));
    }

    std::string name(const Metadata* md) const
    {
        for (size_t i = 0; i < items.size(); ++i)
            for (size_t j = 0; j < items[i].size(); ++j)
                if (items[i][j].get() == md)
                    return cat("r", i, "-", j);
        return "?";
    }

    int time(const Metadata* md) const
    {
        for (size_t i = 0; i < items.size(); ++i)
            for (size_t j = 0; j < items[i].size(); ++j)
                if (items[i][j].get() == md)
                    return specs[i].times[j];
        return -1;
    }

    bool fails() const
    {
        for (size_t i = 0; i < specs.size(); ++i)
            if (specs[i].fail_at >= 0)
                return true;
        return false;
    }

    /// Everything that should come out
    std::vector<std::string> expected() const
    {
        std::vector<std::string> res;
        for (size_t i = 0; i < items.size(); ++i)
            for (size_t j = 0; j < items[i].size(); ++j)
            {
                if (specs[i].fail_at >= 0 && (int)j >= specs[i].fail_at)
                    break;
                if (matcher.empty() || m(*items[i][j]))
                    res.push_back(cat("r", i, "-", j));
            }
        return res;
    }

    /// Query data, dest says stop or throws at the given element
    std::string query_data(int stop_at, int throw_at)
    {
        query::Data q(m, false);
        if (!sorter.empty())
            q.sorter = metadata::sort::Compare::parse(sorter);
        auto progress = std::make_shared<CountProgress>();
        q.progress    = progress;
        std::vector<const Metadata*> got;
        bool res = false, threw = false, stopped = false;
        std::string error;
        auto reader = merged->create_reader();
        try
        {
            res = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                if (stopped)
                    throw mc::Fail("after-stop", "data was sent after being asked to stop");
                got.push_back(md.get());
                observe((uint64_t)name(md.get())[1] * 100 + name(md.get())[3]);
                if ((int)got.size() == throw_at)
                {
                    stopped = true;
                    throw std::invalid_argument("dest failed");
                }
                if ((int)got.size() == stop_at)
                {
                    stopped = true;
                    return false;
                }
                return true;
            });
        }
        catch (mc::Fail&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            threw = true;
            error = e.what();
        }
        std::vector<std::string> names;
        for (auto md : got)
            names.push_back(name(md));
        std::string desc = cat("got [", mc::join(names, " "), "], ", threw ? "exception " + error : res ? "true" : "false");
        for (size_t i = 0; i < names.size(); ++i)
            if (std::find(names.begin(), names.begin() + i, names[i]) != names.begin() + i)
                throw mc::Fail("twice", desc + ": the same element was sent twice");
        // Order
        for (size_t i = 1; i < got.size(); ++i)
        {
            int a = time(got[i - 1]), b = time(got[i]);
            if (sorter == "-reftime" ? a < b : a > b)
                throw mc::Fail("order", desc + ": out of order");
        }
        auto exp    = expected();
        auto sorted = names;
        std::sort(sorted.begin(), sorted.end());
        std::sort(exp.begin(), exp.end());
        if (!std::includes(exp.begin(), exp.end(), sorted.begin(), sorted.end()))
            throw mc::Fail("extra", desc + ": data that was not in the datasets");
        if (throw_at > 0 && throw_at <= (int)exp.size())
        {
            if (!threw)
                throw mc::Fail("throw-lost", desc + ": the failure of the receiver was not reported");
            if (error.find("dest failed") == std::string::npos && !fails())
                throw mc::Fail("throw-changed", desc + ": the failure of the receiver was not reported");
            return desc;
        }
        if (stop_at > 0 && stop_at <= (int)exp.size())
        {
            if (threw && !fails())
                throw mc::Fail("stop-throws", desc + ": failed when asked to stop");
            if (!threw && res)
                throw mc::Fail("stop-result", desc + ": the query was stopped, but it says that it was not");
            return desc;
        }
        if (sorted != exp)
            throw mc::Fail("missing", desc + ": expected [" + mc::join(exp, " ") + "]");
        if (fails())
        {
            if (!threw)
                throw mc::Fail("error-lost", desc + ": the failure of a dataset was not reported");
            for (size_t i = 0; i < specs.size(); ++i)
                if (specs[i].fail_at >= 0 && error.find(cat("broken r", i)) == std::string::npos)
                    throw mc::Fail("error-lost", desc + ": the failure of a dataset was not reported");
            return desc;
        }
        if (threw)
            throw mc::Fail("throws", desc);
        if (!res)
            throw mc::Fail("result", desc + ": the query completed, but it says that it was stopped");
        if (progress->started != 1 || progress->ended != 1 || progress->updated != got.size())
            throw mc::Fail("progress", cat(desc, ": progress reported ", progress->started, " starts, ", progress->updated, " elements, ", progress->ended, " ends"));
        return desc;
    }

    std::string query_summary()
    {
        Summary sum;
        bool threw = false;
        std::string error;
        auto reader = merged->create_reader();
        try
        {
            reader->query_summary(m, sum);
        }
        catch (mc::Fail&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            threw = true;
            error = e.what();
        }
        std::string desc = cat("summary of ", sum.count(), " elements", threw ? " exception " + error : "");
        if (fails())
        {
            if (!threw)
                throw mc::Fail("summary-error-lost", desc + ": the failure of a dataset was not reported");
            return desc;
        }
        if (threw)
            throw mc::Fail("summary-throws", desc);
        Summary exp;
        for (size_t i = 0; i < items.size(); ++i)
            for (size_t j = 0; j < items[i].size(); ++j)
                if (matcher.empty() || m(*items[i][j]))
                    exp.add(*items[i][j]);
        if (exp != sum)
            throw mc::Fail("summary", desc + cat(": expected ", exp.count()));
        return desc;
    }

    std::string query_bytes()
    {
        query::Bytes q;
        q.setData(m);
        std::vector<uint8_t> buf;
        auto out   = StreamOutput::create(buf);
        bool threw = false;
        auto reader = merged->create_reader();
        try
        {
            reader->query_bytes(q, *out);
        }
        catch (mc::Fail&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            threw = true;
        }
        std::string got(buf.begin(), buf.end()), exp;
        for (const auto& n : expected())
            exp += n + ";";
        if (fails())
        {
            if (!threw)
                throw mc::Fail("bytes-error-lost", "the failure of a dataset was not reported");
            return got;
        }
        if (threw)
            throw mc::Fail("bytes-throws", got);
        if (got != exp)
            throw mc::Fail("bytes", "got " + got + ", expected " + exp);
        return got;
    }
};

Spec spec(const std::string& s)
{
    // 0,1,1!2 : times, then the position where it fails. A final * is for
    // datasets that go on when told to stop
    Spec res;
    std::string t = s;
    if (!t.empty() && t.back() == '*')
    {
        res.stubborn = true;
        t.pop_back();
    }
    size_t p = t.find('!');
    if (p != std::string::npos)
    {
        res.fail_at = atoi(t.c_str() + p + 1);
        t           = t.substr(0, p);
    }
    if (!t.empty() && t[0] == 'x')
    {
        // xN: N elements, one per day
        for (int i = 0; i < atoi(t.c_str() + 1); ++i)
            res.times.push_back(i);
    }
    else
        for (char c : t)
            res.times.push_back(c - '0');
    return res;
}

/// Run a task in a child, since threads that do not end cannot be stopped
void run_task(Ctx& ctx, const std::string& task)
{
    // C26|specs|sorter|matcher|preemptions|spurious|what[,what...]
    auto f = mc::split(task, '|');
    Shared* shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Spec> specs;
    if (f[1] != "none")
        for (const auto& s : mc::split(f[1], '/'))
            specs.push_back(spec(s == "-" ? "" : s));
    if (f[1] == "-")
        specs = {spec("")};
    unsigned pre = atoi(f[4].c_str()), spu = atoi(f[5].c_str());
    uint64_t limit = args.thorough ? 3000000 : 400000;
    for (const auto& what : mc::split(f[6], ','))
    {
        ctx.current(task + " " + what);
        memset(shared, 0, sizeof(*shared));
        auto r = in_child(
            [&]() -> std::string {
                find_ours();
                Explored res;
                Scene scene(specs, f[2], f[3]);
                unsigned fail_creation = 0;
                std::string w          = what;
                size_t p               = w.find('#');
                if (p != std::string::npos)
                {
                    fail_creation = atoi(w.c_str() + p + 1);
                    w             = w.substr(0, p);
                }
                explore(
                    res, shared,
                    [&]() -> std::string {
                        if (fail_creation)
                        {
                            // Not enough resources for all the threads
                            try
                            {
                                if (w == "sum")
                                    scene.query_summary();
                                else
                                    scene.query_data(-1, -1);
                            }
                            catch (mc::Fail& e)
                            {
                                if (e.key == "throws" || e.key == "summary-throws" || e.key == "missing")
                                    return e.key;
                                throw;
                            }
                            if (S.creations >= fail_creation)
                                throw mc::Fail("thread-error-lost", "a thread could not be created, but nothing was reported");
                            return "no threads";
                        }
                        if (w == "sum")
                            return scene.query_summary();
                        if (w == "bytes")
                            return scene.query_bytes();
                        if (w[0] == 's')
                            return scene.query_data(atoi(w.c_str() + 1), -1);
                        if (w[0] == 't')
                            return scene.query_data(-1, atoi(w.c_str() + 1));
                        return scene.query_data(-1, -1);
                    },
                    pre, spu, fail_creation, limit);
                return res.str();
            },
            600);
        auto o = mc::split(r.out, '\x1f');
        if (!r.exited(0) || o.size() < 9)
        {
            std::string why = shared->what;
            if (why.empty())
                why = r.timeout ? "did not end" : WIFSIGNALED(r.status) ? cat("killed by signal ", WTERMSIG(r.status)) : cat("exit status ", r.status);
            std::string key = why.substr(0, why.find(':'));
            std::replace(key.begin(), key.end(), ' ', '-');
            ctx.fail(cat("C26:", key), cat("datasets ", f[1], " sorted by '", f[2], "' matching '", f[3], "', ", what, ": ", why, " (schedule ", std::string(shared->schedule).substr(0, 300), ")"));
            continue;
        }
        ctx.eval(strtoull(o[0].c_str(), nullptr, 10));
        ctx.traces(strtoull(o[0].c_str(), nullptr, 10));
        ctx.states(strtoull(o[1].c_str(), nullptr, 10));
        ctx.transitions(strtoull(o[2].c_str(), nullptr, 10));
        if (o[4] != "1")
            ctx.extra(0);
        for (const auto& s : mc::split(o[8], '\x1e'))
            ctx.distinct(task + what + s);
        if (!o[6].empty())
            ctx.fail(cat("C26:", o[5]), cat("datasets ", f[1], " sorted by '", f[2], "' matching '", f[3], "', ", what, ": ", o[6], " (schedule ", o[7].substr(0, 300), ")"));
        else
            ctx.sample(cat(task, " ", what, ": ", o[0], " schedules, ", o[1], " states, ", mc::split(o[8], '\x1e').size(), " outcomes"));
    }
    munmap(shared, sizeof(Shared));
}

/*
 * Datasets on disk
 */

/// Threads reading datasets on disk: C26D|preemptions|conf/ops|conf/ops...
void run_disk(Ctx& ctx, const std::string& task)
{
    using namespace mc::ds;
    auto f = mc::split(task, '|');
    unsigned pre = atoi(f[1].c_str());
    std::string root = fresh_scratch();
    struct Part
    {
        Conf conf;
        std::unique_ptr<World> w;
        std::vector<Msg> msgs;
    };
    std::vector<Part> parts(f.size() - 2);
    for (size_t i = 2; i < f.size(); ++i)
    {
        Part& p = parts[i - 2];
        auto ops = mc::split(f[i], '~');
        p.conf   = Conf::parse(ops[0]);
        p.w      = std::make_unique<World>(p.conf, cat(root, "/", i));
        ops.erase(ops.begin());
        for (const auto& op : ops)
            mc::ds::apply(*p.w, op);
        Model model;
        model.replay(p.conf, ops);
        p.msgs = model.all();
    }
    auto session = std::make_shared<dataset::Session>();
    auto pool    = std::make_shared<dataset::Pool>(session);
    auto merged  = std::make_shared<dataset::merged::Dataset>(pool);
    for (auto& p : parts)
        merged->datasets.push_back(p.w->reader());
    Shared* shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (const auto& q : queries(parts[0].conf))
    {
        std::vector<Msg> exp;
        std::string exp_bytes;
        std::vector<Got> exp_got;
        for (auto& p : parts)
        {
            for (const auto& m : p.msgs)
                if (q.match(m))
                    exp.push_back(m);
            exp_bytes += mc::ds::query_bytes(*p.w->reader(), q.expr);
            for (const auto& g : mc::ds::query(*p.w->reader(), q.expr))
                exp_got.push_back(g);
        }
        std::sort(exp_got.begin(), exp_got.end());
        std::vector<std::string> whats{"all", "-", "sum", "bytes"};
        for (size_t i = 1; i <= exp.size(); i += args.thorough || i == 1 ? 1 : exp.size() - 1)
        {
            whats.push_back(cat("s", i));
            whats.push_back(cat("t", i));
        }
        for (const auto& what : whats)
        {
            ctx.current(cat(task, " query '", q.expr, "' ", what));
            memset(shared, 0, sizeof(*shared));
            auto r = in_child(
                [&]() -> std::string {
                    find_ours();
                    Explored res;
                    S.delays = true;
                    explore(
                        res, shared,
                        [&]() -> std::string {
                            auto reader = merged->create_reader();
                            if (what == "bytes")
                            {
                                if (mc::ds::query_bytes(*reader, q.expr) != exp_bytes)
                                    throw mc::Fail("disk-bytes", "the bytes are not those of each dataset in turn");
                                return "bytes";
                            }
                            if (what == "sum")
                            {
                                Summary sum;
                                reader->query_summary(merged->session->matcher(q.expr), sum);
                                SumMap got = summarise(sum), expected = expected_summary(exp);
                                if (!(got == expected) && q.exact_summary)
                                    throw mc::Fail("disk-summary", "summary is " + mc::ds::str(got) + " instead of " + mc::ds::str(expected));
                                return "sum";
                            }
                            if (what == "all" || what == "-")
                            {
                                auto got = mc::ds::query(*reader, q.expr, what == "all");
                                for (size_t i = 1; i < got.size(); ++i)
                                    if (got[i].t < got[i - 1].t)
                                        throw mc::Fail("disk-order", got[i - 1].t + " comes before " + got[i].t);
                                if (what == "-")
                                {
                                    if (got.size() != exp_got.size())
                                        throw mc::Fail("disk-data", cat("found ", got.size(), " elements instead of ", exp_got.size()));
                                    return "data";
                                }
                                std::sort(got.begin(), got.end());
                                if (got != exp_got || got.size() != exp.size())
                                    throw mc::Fail("disk-data", cat("found ", got.size(), " elements, expected ", exp.size()));
                                return "data";
                            }
                            unsigned at = atoi(what.c_str() + 1), count = 0;
                            query::Data dq(merged->session->matcher(q.expr), true);
                            bool res = true, threw = false;
                            try
                            {
                                res = reader->query_data(dq, [&](std::shared_ptr<Metadata>) {
                                    ++count;
                                    if (count > at)
                                        throw mc::Fail("disk-after-stop", "data was sent after being asked to stop");
                                    if (count == at && what[0] == 't')
                                        throw std::invalid_argument("dest failed");
                                    return count < at;
                                });
                            }
                            catch (std::invalid_argument& e)
                            {
                                threw = true;
                            }
                            if (count != at || threw != (what[0] == 't') || (!threw && res))
                                throw mc::Fail("disk-stop", cat("stopped at ", at, ": ", count, " elements were sent, and the result was ", threw ? "an exception" : res ? "true" : "false"));
                            return "stop";
                        },
                        pre, 0, 0, 100000);
                    return res.str();
                },
                300);
            auto o = mc::split(r.out, '\x1f');
            if (!r.exited(0) || o.size() < 9)
            {
                std::string why = shared->what;
                if (why.empty())
                    why = r.timeout ? "did not end" : WIFSIGNALED(r.status) ? cat("killed by signal ", WTERMSIG(r.status)) : cat("exit status ", r.status, " ", r.out.substr(0, 300));
                ctx.fail(cat("C26:disk-", why.substr(0, 12)), cat(task, " query '", q.expr, "' ", what, ": ", why, " (schedule ", std::string(shared->schedule).substr(0, 300), ")"));
                continue;
            }
            ctx.eval(strtoull(o[0].c_str(), nullptr, 10));
            ctx.traces(strtoull(o[0].c_str(), nullptr, 10));
            ctx.states(strtoull(o[1].c_str(), nullptr, 10));
            ctx.transitions(strtoull(o[2].c_str(), nullptr, 10));
            ctx.extra(1, strtoull(o[0].c_str(), nullptr, 10));
            ctx.distinct(cat(task, q.expr, what));
            if (!o[6].empty())
                ctx.fail(cat("C26:", o[5]), cat(task, " query '", q.expr, "' ", what, ": ", o[6], " (schedule ", o[7].substr(0, 300), ")"));
        }
    }
    munmap(shared, sizeof(Shared));
}

Register r_c26("C26", [] {
    mc::ds::init();
    name_extra(0, "queries_whose_schedules_were_cut");
    std::vector<std::string> tasks;
    auto add = [&](const std::string& specs, const std::string& sorter, const std::string& matcher, unsigned pre, unsigned spu, const std::string& what) {
        tasks.push_back(cat("C26|", specs, "|", sorter, "|", matcher, "|", pre, "|", spu, "|", what));
    };
    bool th = args.thorough;
    std::vector<std::string> lists = {"-", "0", "1", "00", "01", "11"};
    auto len = [](const std::string& s) {
        auto sp = spec(s == "-" ? "" : s);
        return sp.fail_at >= 0 ? std::min<size_t>(sp.fail_at, sp.times.size()) : sp.times.size();
    };
    auto ways = [&](const std::string& specs) {
        size_t n = 0;
        for (const auto& s : mc::split(specs, '/'))
            n += len(s);
        std::vector<std::string> res{"all"};
        for (size_t i = 1; i <= n; ++i)
        {
            res.push_back(cat("s", i));
            res.push_back(cat("t", i));
        }
        return res;
    };
    auto add_ways = [&](const std::string& specs, const std::string& sorter, const std::string& matcher, unsigned pre, unsigned spu) {
        for (const auto& w : ways(specs))
            add(specs, sorter, matcher, pre, spu, w);
    };
    // The order of two datasets
    for (const auto& a : lists)
        for (const auto& b : lists)
        {
            add_ways(a + "/" + b, "", "", th ? 3 : 2, 0);
            add(a + "/" + b, "-reftime", "", 1, 0, "all,s1,t1");
            add(a + "/" + b, "", "reftime:=2020-01-02", 1, 0, "all,s1,sum,bytes");
            add(a + "/" + b, "reftime", "", 1, 1, "all,s1,t1");
        }
    // Failures
    for (const auto& a : {"01!0", "01!1", "01!2", "01*", "-!0"})
        for (const auto& b : {"-", "0", "12", "01!1", "01*"})
        {
            add_ways(cat(a, "/", b), "", "", th ? 3 : 2, 0);
            add_ways(cat(b, "/", a), "", "", 1, 1);
            add(cat(a, "/", b), "", "", 2, 0, "sum,bytes");
        }
    // More datasets
    for (const auto& a : {"0/1/2", "1/01/0", "-/0/-", "01/01/01", "0!0/1/1", "0/-/1!1", "0/1/2/0"})
    {
        add_ways(a, "", "", th ? 2 : 1, 0);
        add(a, "", "", 2, 0, "sum,bytes");
    }
    // One dataset and none
    for (const auto& a : {"0", "01", "-", "01!1", "none"})
        add(a, "", "", 9, 0, "all,s1,t1,sum,bytes");
    // More data than can be kept waiting
    for (const auto& a : {"x12/x12", "9/x12", "x12/9", "x12/-", "x12*/0", "x12!11/x3", "5!0/x12"})
    {
        for (const auto& w : {"all", "s1", "s2", "s9", "s10", "t1", "t10", "sum"})
            add(a, "", "", th ? 2 : 1, 0, w);
        add(a, "", "", 1, 1, "all,s1");
    }
    // Threads that cannot be created
    for (const auto& a : {"0/1", "x12/x12", "x12/0/1", "x12/x12/x12"})
        add(a, "", "", 1, 0, "all#1,all#2,all#3,sum#1,sum#2,sum#3");
    // All schedules
    for (const auto& a : {"0/0", "0/1", "1/0", "-/0", "0!0/0", "0!1/1"})
        for (const auto& w : ways(a))
            add(a, "", "", 99, 0, w);
    for (const auto& a : {"0/1", "01/12", "0!0/1", "0/1/2"})
        add(a, "", "", 99, 0, "sum");
    if (th)
    {
        add("0/1", "", "", 99, 1, "all,s1");
        for (const auto& w : ways("01/1"))
            add("01/1", "", "", 99, 0, w);
        for (const auto& w : ways("0!1/01"))
            add("0!1/01", "", "", 99, 0, w);
        for (const auto& w : {"all", "s1", "s3", "t2"})
            add("01/12", "", "", 5, 0, w);
    }
    run_tasks(tasks, run_task, "C26|");

    name_extra(1, "schedules_on_disk_datasets");
    tasks.clear();
    std::vector<std::string> parts = {
        "type=iseg;fmt=grib;unique=reftime,product,area;step=daily~i0,1,2",
        "type=simple;fmt=grib;step=daily~i3,1,4~d1",
        "type=iseg;fmt=grib;unique=reftime,product,area;step=monthly~i5,6,0",
        "type=iseg;fmt=grib;unique=reftime,product,area;step=daily",
        "type=simple;fmt=grib;step=daily;archive=10~i0,2,4~rp~i10,11",
    };
    for (size_t i = 0; i < parts.size(); ++i)
        for (size_t j = 0; j < parts.size(); ++j)
        {
            if (i == j)
                continue;
            tasks.push_back(cat("C26D|", th ? 2 : (i < 2 && j < 2) ? 1 : 0, "|", parts[i], "|", parts[j]));
        }
    tasks.push_back(cat("C26D|", th ? 1 : 0, "|", parts[0], "|", parts[1], "|", parts[2]));
    tasks.push_back(cat("C26D|", th ? 1 : 0, "|", mc::join(parts, "|")));
    run_tasks(tasks, run_disk, "C26D|");
});

} // namespace
