// Mutexes, semaphores, timers, periodic tasks and signal handling (S29): generated histories over real threads and processes
// against models of ownership and counters. Threads are actors that execute one operation at a time; an operation which
// the model says blocks is left alone until another operation ends it.
#include "iox/deadline_timer.hpp"
#include "iox/logging.hpp"
#include "iox/mutex.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/signal_handler.hpp"
#include "iox/signal_watcher.hpp"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
#include "iox/detail/periodic_task.hpp" // after spin_semaphore.hpp, which looks up iox::detail from iox::concurrent
#include "iox/thread.hpp"
#include "iox/unnamed_semaphore.hpp"
#include "pbt.hpp"

#include <atomic>
#include <condition_variable>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

using pbt::Case;
using S = std::string;
using namespace iox;
using units::Duration;

namespace
{
thread_local const timespec* g_time = nullptr;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    if (g_time != nullptr)
    {
        *t = *g_time;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace
{
constexpr uint64_t PATIENCE_MS = 20000;

uint64_t nowNs()
{
    timespec t{};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return static_cast<uint64_t>(t.tv_sec) * 1000000000ULL + static_cast<uint64_t>(t.tv_nsec);
}
void sleepUs(uint64_t us)
{
    timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000 * 1000)};
    while (nanosleep(&t, &t) != 0 && errno == EINTR)
    {
    }
}
template <uint64_t N>
string<N> str(const S& s)
{
    return string<N>(TruncateToCapacity, s.c_str(), s.size());
}

std::atomic<uint32_t> g_interrupts{0};
void onInterrupt(int)
{
    g_interrupts.fetch_add(1);
}
void catchInterrupts()
{
    struct sigaction a = {};
    a.sa_handler = onInterrupt; // no SA_RESTART: blocking calls are interrupted
    sigemptyset(&a.sa_mask);
    sigaction(SIGUSR2, &a, nullptr);
}
/// signals are delivered one after the other, each one interrupts a blocking call
void interrupt(pthread_t t, uint32_t n)
{
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t before = g_interrupts.load();
        pthread_kill(t, SIGUSR2);
        for (uint32_t k = 0; k < 20000 && g_interrupts.load() == before; ++k)
        {
            sleepUs(20);
        }
        sleepUs(60);
    }
}

class Actor
{
  public:
    Actor()
        : m_thread([this] { loop(); })
    {
    }
    ~Actor()
    {
        stop();
    }
    void start(std::function<void()> f)
    {
        std::lock_guard<std::mutex> g(m_mutex);
        m_job = std::move(f);
        m_busy = true;
        m_cv.notify_all();
    }
    bool done(uint64_t ms)
    {
        std::unique_lock<std::mutex> g(m_mutex);
        return m_cv.wait_for(g, std::chrono::milliseconds(ms), [this] { return !m_busy; });
    }
    bool busy()
    {
        std::lock_guard<std::mutex> g(m_mutex);
        return m_busy;
    }
    /// the thread ends, with whatever it owns
    void stop()
    {
        if (m_thread.joinable())
        {
            {
                std::lock_guard<std::mutex> g(m_mutex);
                m_stop = true;
                m_cv.notify_all();
            }
            m_thread.join();
        }
    }
    pthread_t handle()
    {
        return m_thread.native_handle();
    }

  private:
    void loop()
    {
        std::unique_lock<std::mutex> g(m_mutex);
        while (true)
        {
            m_cv.wait(g, [this] { return m_busy || m_stop; });
            if (!m_busy)
            {
                return;
            }
            auto f = std::move(m_job);
            g.unlock();
            f();
            g.lock();
            m_busy = false;
            m_cv.notify_all();
        }
    }
    std::mutex m_mutex;
    std::condition_variable m_cv;
    std::function<void()> m_job;
    bool m_busy{false};
    bool m_stop{false};
    std::thread m_thread;
};

template <typename T>
struct Shared
{
    Shared()
        : mem(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))
        , value(new (mem) T())
    {
    }
    ~Shared()
    {
        value->~T();
        munmap(mem, 4096);
    }
    T* operator->()
    {
        return value;
    }
    T& operator*()
    {
        return *value;
    }
    void* mem;
    T* value;
};

// ------------------------------------------------------------------------------------------------ mutex
enum Res
{
    R_NONE = -1,
    R_DONE = 0,
    R_FAILED = 1, // try_lock
    R_ERR = 100,  // + error
};
int asInt(const expected<void, LockError>& r)
{
    return r.has_error() ? R_ERR + static_cast<int>(r.error()) : R_DONE;
}
int asInt(const expected<void, UnlockError>& r)
{
    return r.has_error() ? R_ERR + static_cast<int>(r.error()) : R_DONE;
}
int asInt(const expected<TryLock, TryLockError>& r)
{
    return r.has_error() ? R_ERR + static_cast<int>(r.error()) : r.value() == TryLock::LOCK_SUCCEEDED ? R_DONE : R_FAILED;
}
constexpr int LOCK_DEADLOCK = R_ERR + static_cast<int>(LockError::DEADLOCK_CONDITION);
constexpr int LOCK_OWNER_DIED = R_ERR + static_cast<int>(LockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED);
constexpr int TRY_OWNER_DIED = R_ERR + static_cast<int>(TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED);
constexpr int UNLOCK_NOT_OWNED = R_ERR + static_cast<int>(UnlockError::NOT_OWNED_BY_THREAD);

void mutexHist(Case& c)
{
    constexpr int NOBODY = -1;
    constexpr int DEAD = -2;
    const LockBehavior behavior = c.of<LockBehavior>({LockBehavior::RECURSIVE, LockBehavior::WITH_DEADLOCK_DETECTION, LockBehavior::NORMAL});
    const bool robust = c.chance(2, 3);
    const bool ipc = c.chance(1, 2);
    const auto prio = c.of<MutexPriorityInheritance>({MutexPriorityInheritance::NONE, MutexPriorityInheritance::INHERIT});
    Shared<optional<mutex>> m;
    auto builder = [&] {
        return MutexBuilder()
            .is_inter_process_capable(ipc)
            .lock_behavior(behavior)
            .priority_inheritance(prio)
            .thread_termination_behavior(robust ? MutexThreadTerminationBehavior::RELEASE_WHEN_LOCKED : MutexThreadTerminationBehavior::STALL_WHEN_LOCKED);
    };
    PBT_CHECK(c, !builder().create(*m).has_error() && m->has_value(), "mutex-create", "no mutex");
    auto again = builder().create(*m);
    PBT_CHECK(c, again.has_error() && again.error() == MutexBuilder::Error::LOCK_ALREADY_INITIALIZED, "mutex-create-again", "a mutex in use is overwritten");
    if (c.chance(1, 8))
    {
        optional<mutex> bad;
        auto r = builder().priority_inheritance(MutexPriorityInheritance::PROTECT).priority_ceiling(c.of<int32_t>({-1, 100000, -123456})).create(bad);
        PBT_CHECK(c, r.has_error() && r.error() == MutexBuilder::Error::INVALID_PRIORITY_CEILING_VALUE && !bad.has_value(), "mutex-ceiling", "an invalid priority ceiling is accepted");
    }
    const uint32_t na = c.range(2, 3);
    struct Slot
    {
        std::unique_ptr<Actor> a{new Actor};
        int result{R_NONE};
        bool pending{false};
    };
    std::vector<Slot> actors(na);
    int owner = NOBODY;
    int depth = 0;
    bool inconsistent = false;
    bool broken = false;
    uint32_t handovers = 0, deaths = 0, refused = 0;
    auto run = [&](uint32_t a, std::function<int()> f) {
        auto& s = actors[a];
        s.result = R_NONE;
        s.a->start([&s, f] { s.result = f(); });
        PBT_CHECK(c, s.a->done(PATIENCE_MS), "mutex-blocks", "an operation of a mutex blocks: owner %d, depth %d, actor %u", owner, depth, a);
        return s.result;
    };
    // after a release: somebody who waits gets the lock
    auto released = [&](bool died) {
        std::vector<uint32_t> waiting;
        for (uint32_t a = 0; a < na; ++a)
        {
            if (actors[a].pending)
            {
                waiting.push_back(a);
            }
        }
        if (waiting.empty())
        {
            return;
        }
        if (owner == DEAD && !robust)
        {
            return;
        }
        const uint64_t until = nowNs() + PATIENCE_MS * 1000000ULL;
        int winner = -1;
        while (winner < 0)
        {
            for (uint32_t a : waiting)
            {
                if (winner < 0 && actors[a].a->done(0))
                {
                    winner = static_cast<int>(a);
                }
            }
            PBT_CHECK(c, winner >= 0 || nowNs() < until, "mutex-lost-wakeup", "nobody gets the mutex although it was released");
            if (winner < 0)
            {
                sleepUs(50);
            }
        }
        for (uint32_t a : waiting)
        {
            PBT_CHECK(c, static_cast<int>(a) == winner || actors[a].a->busy(), "mutex-held-twice", "two threads got the mutex");
        }
        auto& s = actors[static_cast<size_t>(winner)];
        PBT_CHECK(c, s.result == (died ? LOCK_OWNER_DIED : R_DONE), died ? "mutex-died-unreported" : "mutex-lock-error", "lock returned %d after the previous owner %s", s.result, died ? "died" : "unlocked");
        s.pending = false;
        owner = winner;
        depth = 1;
        inconsistent = died;
        ++handovers;
    };
    const uint32_t steps = c.range(4, 24);
    for (uint32_t i = 0; i < steps; ++i)
    {
        const uint32_t a = c.draw(na);
        if (actors[a].pending)
        {
            continue;
        }
        const bool mine = owner == static_cast<int>(a);
        switch (c.weighted({6, 4, 6, 1, 2, 1}))
        {
        case 0: // lock
        {
            mutex* const raw = &**m; // outlives this function if a thread waits for ever
            auto call = [raw] { return asInt(raw->lock()); };
            if (broken)
            {
                PBT_CHECK(c, run(a, call) >= R_ERR, "mutex-broken", "an unrecoverable mutex was locked");
            }
            else if (mine)
            {
                if (behavior == LockBehavior::NORMAL)
                {
                    break;
                }
                const int r = run(a, call);
                PBT_CHECK(c, r == (behavior == LockBehavior::RECURSIVE ? R_DONE : LOCK_DEADLOCK), "mutex-own-lock", "locking twice returned %d", r);
                depth += behavior == LockBehavior::RECURSIVE;
            }
            else if (owner == NOBODY || (owner == DEAD && robust))
            {
                const int r = run(a, call);
                PBT_CHECK(c, r == (owner == DEAD ? LOCK_OWNER_DIED : R_DONE), owner == DEAD ? "mutex-died-unreported" : "mutex-lock-error", "lock returned %d", r);
                inconsistent = owner == DEAD;
                owner = static_cast<int>(a);
                depth = 1;
            }
            else if (owner >= 0)
            {
                auto& s = actors[a];
                s.result = R_NONE;
                s.pending = true;
                s.a->start([&s, call] { s.result = call(); });
                PBT_CHECK(c, !s.a->done(2), "mutex-held-twice", "lock returned %d although another thread holds the mutex", s.result);
            }
            break;
        }
        case 1: // try_lock
        {
            const int r = run(a, [&] { return asInt((*m)->try_lock()); });
            if (broken)
            {
                PBT_CHECK(c, r >= R_ERR, "mutex-broken", "an unrecoverable mutex was locked");
            }
            else if (mine)
            {
                PBT_CHECK(c, r == (behavior == LockBehavior::RECURSIVE ? R_DONE : R_FAILED), "mutex-own-try", "try_lock of the owner returned %d", r);
                depth += behavior == LockBehavior::RECURSIVE;
            }
            else if (owner == NOBODY || (owner == DEAD && robust))
            {
                PBT_CHECK(c, r == (owner == DEAD ? TRY_OWNER_DIED : R_DONE), owner == DEAD ? "mutex-died-unreported" : "mutex-try-error", "try_lock returned %d", r);
                inconsistent = owner == DEAD;
                owner = static_cast<int>(a);
                depth = 1;
            }
            else
            {
                PBT_CHECK(c, r == R_FAILED, "mutex-held-twice", "try_lock returned %d although another thread holds the mutex", r);
                ++refused;
            }
            break;
        }
        case 2: // unlock
        {
            if (mine)
            {
                bool waiting = false;
                for (auto& s : actors)
                {
                    waiting = waiting || s.pending;
                }
                if (inconsistent && waiting)
                {
                    break; // what happens to them is up to the system
                }
                const int r = run(a, [&] { return asInt((*m)->unlock()); });
                // giving up a mutex that was not repaired may be reported
                PBT_CHECK(c, r == R_DONE || inconsistent, "mutex-unlock", "unlock of the owner returned %d", r);
                if (--depth == 0)
                {
                    owner = NOBODY;
                    broken = broken || inconsistent;
                    inconsistent = false;
                    released(false);
                }
            }
            else if (behavior != LockBehavior::NORMAL && !broken && owner != DEAD)
            {
                const int r = run(a, [&] { return asInt((*m)->unlock()); });
                PBT_CHECK(c, r == UNLOCK_NOT_OWNED, "mutex-foreign-unlock", "unlock of a thread that does not hold the mutex returned %d", r);
            }
            break;
        }
        case 3: // a thread ends
        {
            if (prio == MutexPriorityInheritance::INHERIT && !robust && mine)
            {
                break; // the kernel reports the death to the waiting ones; POSIX says nothing
            }
            actors[a].a->stop();
            ++deaths;
            if (mine)
            {
                owner = DEAD;
                depth = 0;
                inconsistent = false;
                released(true);
            }
            actors[a].a.reset(new Actor);
            break;
        }
        case 4: // repair
            if (mine || !inconsistent)
            {
                run(a, [&] {
                    (*m)->make_consistent();
                    return 0;
                });
                inconsistent = false;
            }
            break;
        default: // a process locks or tries, and ends with or without unlocking
        {
            if (!ipc || owner >= 0 || broken || (owner == DEAD && !robust))
            {
                break;
            }
            const bool tries = c.chance(1, 3);
            const bool unlocks = c.chance(1, 3);
            const pid_t p = fork();
            if (p == 0)
            {
                int r = tries ? asInt((*m)->try_lock()) : asInt((*m)->lock());
                if (r >= R_ERR)
                {
                    r = 50 + (r == LOCK_OWNER_DIED && !tries) + (r == TRY_OWNER_DIED && tries);
                    if (unlocks)
                    {
                        (*m)->make_consistent();
                    }
                }
                if (unlocks && (*m)->unlock().has_error())
                {
                    r = 60;
                }
                _exit(r);
            }
            int status = 0;
            waitpid(p, &status, 0);
            const int r = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
            PBT_CHECK(c, r == (owner == DEAD ? 51 : 0), "mutex-process", "the other process got %d", r);
            owner = unlocks ? NOBODY : DEAD;
            depth = 0;
            inconsistent = false;
            deaths += !unlocks;
            break;
        }
        }
        if (broken || (!robust && owner == DEAD))
        {
            break; // no longer usable
        }
    }
    // a stalled mutex stays locked; otherwise everybody who waits gets it in the end
    if (!robust && owner == DEAD)
    {
        for (uint32_t a = 0; a < na; ++a)
        {
            if (!actors[a].pending)
            {
                PBT_CHECK(c, run(a, [&] { return asInt((*m)->try_lock()); }) == R_FAILED, "mutex-stalled", "a mutex whose owner died was locked");
            }
        }
        bool waiting = false;
        for (auto& s : actors)
        {
            waiting = waiting || s.pending;
        }
        if (waiting)
        {
            // nobody can end these threads; they stay until the process ends
            for (auto& s : actors)
            {
                static_cast<void>(s.a.release());
            }
            static_cast<void>(new std::vector<Slot>(std::move(actors)));
            // the mutex must outlive them
            m.value = new (malloc(sizeof(optional<mutex>))) optional<mutex>();
            m.mem = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            c.count("stalled waiting threads");
        }
    }
    else
    {
        while (owner >= 0)
        {
            if (inconsistent)
            {
                run(static_cast<uint32_t>(owner), [&] {
                    (*m)->make_consistent();
                    return 0;
                });
                inconsistent = false;
            }
            while (depth > 0)
            {
                const int r = run(static_cast<uint32_t>(owner), [&] { return asInt((*m)->unlock()); });
                PBT_CHECK(c, r == R_DONE, "mutex-unlock", "unlock of the owner returned %d", r);
                --depth;
            }
            owner = NOBODY;
            released(false);
        }
    }
    if (handovers + deaths + refused > 0)
    {
        c.nontrivial();
    }
    c.count("handed over to a waiting thread", handovers);
    c.count("deaths", deaths);
    c.count("refused", refused);
}

// ------------------------------------------------------------------------------------------------ semaphores
template <typename Sem>
void semHist(Case& c, Sem& sem, uint64_t value, bool signals)
{
    constexpr uint64_t MAX = IOX_SEM_VALUE_MAX;
    struct Slot
    {
        std::unique_ptr<Actor> a{new Actor};
        int how{0};
        int result{R_NONE};
        bool pending{false};
    };
    std::vector<Slot> actors(c.range(1, 3));
    uint32_t waitedFor = 0, timeouts = 0, interrupted = 0;
    auto waiting = [&] {
        uint32_t n = 0;
        for (auto& s : actors)
        {
            n += s.pending;
        }
        return n;
    };
    auto post = [&](bool viaProcess) {
        bool error = false;
        if (viaProcess)
        {
            const pid_t p = fork();
            if (p == 0)
            {
                _exit(sem.post().has_error() ? 1 : 0);
            }
            int status = 0;
            waitpid(p, &status, 0);
            error = !WIFEXITED(status) || WEXITSTATUS(status) != 0;
        }
        else
        {
            auto r = sem.post();
            error = r.has_error();
            PBT_CHECK(c, !error || r.error() == SemaphoreError::SEMAPHORE_OVERFLOW, "sem-post-error", "post returned error %u", error ? static_cast<unsigned>(r.error()) : 0U);
        }
        PBT_CHECK(c, error == (value == MAX), "sem-post", "post %s with value %llu", error ? "fails" : "succeeds", static_cast<unsigned long long>(value));
        if (error)
        {
            return;
        }
        if (waiting() == 0)
        {
            ++value;
            return;
        }
        const uint64_t until = nowNs() + PATIENCE_MS * 1000000ULL;
        Slot* winner = nullptr;
        while (winner == nullptr)
        {
            for (auto& s : actors)
            {
                if (winner == nullptr && s.pending && s.a->done(0))
                {
                    winner = &s;
                }
            }
            PBT_CHECK(c, winner != nullptr || nowNs() < until, "sem-lost-wakeup", "a post wakes up nobody although %u threads wait", waiting());
            if (winner == nullptr)
            {
                sleepUs(50);
            }
        }
        winner->pending = false;
        ++waitedFor;
        PBT_CHECK(c, winner->result == R_DONE, "sem-wait-error", "a wait (kind %d) returned %d", winner->how, winner->result);
        for (auto& s : actors)
        {
            PBT_CHECK(c, !s.pending || s.a->busy(), "sem-twice", "one post has woken up two threads");
        }
    };
    const uint32_t steps = c.range(3, 18);
    for (uint32_t i = 0; i < steps; ++i)
    {
        switch (c.weighted({6, 4, 3, 3, 4, 3}))
        {
        case 0:
            post(false);
            break;
        case 1:
        {
            auto r = sem.tryWait();
            PBT_CHECK(c, !r.has_error(), "sem-try-error", "tryWait returned error");
            PBT_CHECK(c, r.value() == (value > 0), "sem-try", "tryWait returned %d with value %llu", r.value(), static_cast<unsigned long long>(value));
            value -= r.value();
            break;
        }
        case 2:
            if (value > 0)
            {
                PBT_CHECK(c, !sem.wait().has_error(), "sem-wait-error", "wait returned an error");
                --value;
            }
            break;
        case 3:
        {
            const uint64_t us = c.of<uint64_t>({0, 0, 1, 500, 2000, 4000});
            const Duration d = us == 1 ? Duration::fromNanoseconds(1) : Duration::fromMicroseconds(us);
            const uint64_t from = nowNs();
            auto r = sem.timedWait(d);
            const uint64_t took = nowNs() - from;
            PBT_CHECK(c, !r.has_error(), "sem-timed-error", "timedWait returned an error");
            const bool got = r.value() == SemaphoreWaitState::NO_TIMEOUT;
            PBT_CHECK(c, got == (value > 0), "sem-timed", "timedWait(%lluus) returned %s with value %llu", static_cast<unsigned long long>(us), got ? "NO_TIMEOUT" : "TIMEOUT", static_cast<unsigned long long>(value));
            value -= got;
            timeouts += !got;
            PBT_CHECK(c, got || took + 200000 >= d.toNanoseconds(), "sem-timed-early", "timedWait(%lluus) timed out after %lluns", static_cast<unsigned long long>(us), static_cast<unsigned long long>(took));
            break;
        }
        case 4: // somebody waits
        {
            auto& s = actors[c.draw(static_cast<uint32_t>(actors.size()))];
            const uint32_t kind = c.draw(3);
            if (s.pending || value > 0)
            {
                break;
            }
            s.how = static_cast<int>(kind);
            s.result = R_NONE;
            s.pending = true;
            s.a->start([&s, &sem, kind] {
                if (kind == 0)
                {
                    auto r = sem.wait();
                    s.result = r.has_error() ? R_ERR + static_cast<int>(r.error()) : R_DONE;
                }
                else
                {
                    auto r = sem.timedWait(kind == 1 ? Duration::fromSeconds(600) : Duration::max());
                    s.result = r.has_error() ? R_ERR + static_cast<int>(r.error()) : r.value() == SemaphoreWaitState::NO_TIMEOUT ? R_DONE : R_FAILED;
                }
            });
            PBT_CHECK(c, !s.a->done(1), "sem-no-wait", "a wait (kind %u) returned %d although the value is 0", kind, s.result);
            break;
        }
        default: // signals arrive in threads that wait
            if (signals)
            {
                const uint32_t n = c.range(1, 14);
                for (auto& s : actors)
                {
                    if (s.pending)
                    {
                        interrupt(s.a->handle(), n);
                        interrupted += n;
                        PBT_CHECK(c, s.a->busy(), "sem-interrupted", "a wait (kind %d) returned %d because of %u signals", s.how, s.result, n);
                    }
                }
            }
            break;
        }
    }
    while (waiting() > 0)
    {
        post(false);
    }
    // the value is what the history says
    const bool many = value > 100;
    for (uint64_t i = 0; i < (many ? 3 : value); ++i)
    {
        auto r = sem.tryWait();
        PBT_CHECK(c, r.has_value() && r.value(), "sem-lost", "posts are lost");
    }
    if (!many)
    {
        auto r = sem.tryWait();
        PBT_CHECK(c, r.has_value() && !r.value(), "sem-surplus", "the value is greater than posts minus waits");
    }
    if (waitedFor + timeouts > 0)
    {
        c.nontrivial();
    }
    c.count("woken up", waitedFor);
    c.count("timeouts", timeouts);
    c.count("signals", interrupted);
}
uint64_t initialValue(Case& c)
{
    return c.weighted({8, 1}) == 0 ? c.draw(4) : IOX_SEM_VALUE_MAX - c.draw(3);
}
void unnamedHist(Case& c)
{
    catchInterrupts();
    Shared<optional<UnnamedSemaphore>> s;
    if (c.chance(1, 6))
    {
        auto r = UnnamedSemaphoreBuilder().initialValue(IOX_SEM_VALUE_MAX + 1U + c.draw(3)).create(*s);
        PBT_CHECK(c, r.has_error() && r.error() == SemaphoreError::SEMAPHORE_OVERFLOW && !s->has_value(), "sem-initial", "an initial value beyond the maximum is accepted");
    }
    const uint64_t v = initialValue(c);
    PBT_CHECK(c, !UnnamedSemaphoreBuilder().initialValue(static_cast<uint32_t>(v)).isInterProcessCapable(c.chance(1, 2)).create(*s).has_error(), "sem-create", "no semaphore");
    semHist(c, **s, v, true);
}
void spinSemHist(Case& c)
{
    catchInterrupts();
    Shared<optional<concurrent::SpinSemaphore>> s;
    if (c.chance(1, 6))
    {
        auto r = concurrent::SpinSemaphoreBuilder().initialValue(IOX_SEM_VALUE_MAX + 1U + c.draw(3)).create(*s);
        PBT_CHECK(c, r.has_error() && r.error() == SemaphoreError::SEMAPHORE_OVERFLOW && !s->has_value(), "sem-initial", "an initial value beyond the maximum is accepted");
    }
    const uint64_t v = initialValue(c);
    PBT_CHECK(c, !concurrent::SpinSemaphoreBuilder().initialValue(static_cast<uint32_t>(v)).create(*s).has_error(), "sem-create", "no semaphore");
    semHist(c, **s, v, true);
}

// ------------------------------------------------------------------------------------------------ named semaphores
struct NamedObject
{
    uint64_t value;
    uint32_t mode;
};
void namedHist(Case& c)
{
    catchInterrupts();
    umask(0);
    const S base = "vrf1_sem" + std::to_string(getpid());
    std::vector<S> names = {base + "a", base + "b"};
    if (c.chance(1, 3))
    {
        S longest = base;
        while (longest.size() < NamedSemaphore::Name_t::capacity())
        {
            longest += 'x';
        }
        names.push_back(longest);
    }
    for (auto& n : names)
    {
        ::sem_unlink(("/" + n).c_str());
    }
    struct Handle
    {
        std::unique_ptr<optional<NamedSemaphore>> h;
        S name;
        std::shared_ptr<NamedObject> object;
        bool owns;
    };
    std::map<S, std::shared_ptr<NamedObject>> bound;
    std::vector<Handle> handles;
    auto ownerOf = [&](const S& n) {
        for (auto& h : handles)
        {
            if (h.owns && h.name == n)
            {
                return true;
            }
        }
        return false;
    };
    auto exists = [](const S& n) {
        struct stat st;
        return stat(("/dev/shm/sem." + n).c_str(), &st) == 0 ? static_cast<int>(st.st_mode & 0777) : -1;
    };
    uint32_t opened = 0, refusedOpens = 0, moved = 0;
    const uint32_t steps = c.range(4, 30);
    for (uint32_t i = 0; i < steps; ++i)
    {
        switch (c.weighted({7, 3, 4, 4, 2, 1, 1}))
        {
        case 0:
        {
            const S n = c.pick(names);
            const auto mode = c.of<OpenMode>({OpenMode::OpenExisting, OpenMode::OpenOrCreate, OpenMode::ExclusiveCreate, OpenMode::PurgeAndCreate});
            const uint64_t v = c.draw(4);
            const uint32_t perm = c.of<uint32_t>({0600, 0660, 0644, 0700, 0666});
            if (mode == OpenMode::PurgeAndCreate && ownerOf(n))
            {
                break; // two owners of one name
            }
            auto h = std::make_unique<optional<NamedSemaphore>>();
            auto r = NamedSemaphoreBuilder().name(str<NamedSemaphore::Name_t::capacity()>(n)).openMode(mode).initialValue(static_cast<uint32_t>(v)).permissions(access_rights::from_value_sanitized(static_cast<access_rights::value_type>(perm))).create(*h);
            const bool there = bound.count(n) == 1;
            bool expectOk = true;
            SemaphoreError expectError = SemaphoreError::UNDEFINED;
            if (mode == OpenMode::OpenExisting && !there)
            {
                expectOk = false;
                expectError = SemaphoreError::NO_SEMAPHORE_WITH_THAT_NAME_EXISTS;
            }
            if (mode == OpenMode::ExclusiveCreate && there)
            {
                expectOk = false;
                expectError = SemaphoreError::ALREADY_EXIST;
            }
            PBT_CHECK(c, r.has_error() == !expectOk, "named-open", "open mode %u of a semaphore that %s returned %d", static_cast<unsigned>(mode), there ? "exists" : "does not exist", r.has_error() ? static_cast<int>(r.error()) : -1);
            PBT_CHECK(c, expectOk || (r.error() == expectError && !h->has_value()), "named-open-error", "open mode %u returned error %d", static_cast<unsigned>(mode), r.has_error() ? static_cast<int>(r.error()) : -1);
            if (!expectOk)
            {
                ++refusedOpens;
                break;
            }
            ++opened;
            const bool creates = mode == OpenMode::PurgeAndCreate || !there;
            if (creates)
            {
                bound[n] = std::make_shared<NamedObject>(NamedObject{v, perm});
            }
            handles.push_back({std::move(h), n, bound[n], creates});
            PBT_CHECK(c, exists(n) == static_cast<int>(bound[n]->mode), "named-permissions", "the semaphore has permissions %o instead of %o", exists(n), bound[n]->mode);
            break;
        }
        case 1:
            if (!handles.empty())
            {
                const uint32_t k = c.draw(static_cast<uint32_t>(handles.size()));
                const S n = handles[k].name;
                if (handles[k].owns)
                {
                    bound.erase(n);
                }
                handles.erase(handles.begin() + k);
                PBT_CHECK(c, (exists(n) >= 0) == (bound.count(n) == 1), "named-lifetime", "the semaphore %s after a handle is gone", exists(n) >= 0 ? "still exists" : "does not exist");
            }
            break;
        case 2:
            if (!handles.empty())
            {
                auto& h = handles[c.draw(static_cast<uint32_t>(handles.size()))];
                PBT_CHECK(c, !(*h.h)->post().has_error(), "named-post", "post fails");
                ++h.object->value;
                ++moved;
            }
            break;
        case 3:
            if (!handles.empty())
            {
                auto& h = handles[c.draw(static_cast<uint32_t>(handles.size()))];
                const bool timed = c.chance(1, 3);
                bool got = false;
                if (timed)
                {
                    auto r = (*h.h)->timedWait(Duration::fromMicroseconds(c.of<uint64_t>({0, 300})));
                    PBT_CHECK(c, !r.has_error(), "named-timed", "timedWait fails");
                    got = r.value() == SemaphoreWaitState::NO_TIMEOUT;
                }
                else
                {
                    auto r = (*h.h)->tryWait();
                    PBT_CHECK(c, !r.has_error(), "named-try", "tryWait fails");
                    got = r.value();
                }
                PBT_CHECK(c, got == (h.object->value > 0), "named-value", "a wait %s with value %llu", got ? "succeeds" : "fails", static_cast<unsigned long long>(h.object->value));
                h.object->value -= got;
            }
            break;
        case 4:
        {
            // left behind by a process that died
            const S n = c.pick(names);
            if (bound.count(n) == 0)
            {
                sem_t* s = ::sem_open(("/" + n).c_str(), O_CREAT | O_EXCL, 0640, 2U);
                PBT_CHECK(c, s != SEM_FAILED, "named-leftover", "the name %s is in use", n.c_str());
                ::sem_close(s);
                bound[n] = std::make_shared<NamedObject>(NamedObject{2, 0640});
            }
            break;
        }
        case 5:
        {
            const S bad = c.of<S>({"", "a/b", "/a", ".", "..", "a b", "x$", "end.", "new\nline"});
            optional<NamedSemaphore> h;
            auto r = NamedSemaphoreBuilder().name(str<NamedSemaphore::Name_t::capacity()>(bad)).openMode(OpenMode::OpenOrCreate).create(h);
            PBT_CHECK(c, r.has_error() && r.error() == SemaphoreError::INVALID_NAME && !h.has_value(), "named-name", "the name \"%s\" is accepted", bad.c_str());
            break;
        }
        default:
        {
            optional<NamedSemaphore> h;
            const S n = c.pick(names);
            auto r = NamedSemaphoreBuilder().name(str<NamedSemaphore::Name_t::capacity()>(n)).openMode(OpenMode::OpenOrCreate).initialValue(IOX_SEM_VALUE_MAX + 1U).create(h);
            PBT_CHECK(c, r.has_error() && r.error() == SemaphoreError::SEMAPHORE_OVERFLOW && !h.has_value(), "named-initial", "an initial value beyond the maximum is accepted");
            PBT_CHECK(c, (exists(n) >= 0) == (bound.count(n) == 1), "named-lifetime", "a refused semaphore was created");
            break;
        }
        }
    }
    // one of them serves waiting threads
    if (!handles.empty() && c.chance(1, 2))
    {
        auto& h = handles[c.draw(static_cast<uint32_t>(handles.size()))];
        semHist(c, **h.h, h.object->value, true);
    }
    handles.clear();
    for (auto& n : names)
    {
        ::sem_unlink(("/" + n).c_str());
    }
    if (opened >= 2 && moved > 0)
    {
        c.nontrivial();
    }
    c.count("opened", opened);
    c.count("refused to open", refusedOpens);
}

// ------------------------------------------------------------------------------------------------ deadline timers
void deadlineTimer(Case& c)
{
    timespec now{static_cast<time_t>(c.draw(100000)), static_cast<long>(c.draw(1000000000))};
    g_time = &now;
    auto ns = [](const timespec& t) { return static_cast<unsigned __int128>(t.tv_sec) * 1000000000U + static_cast<unsigned __int128>(t.tv_nsec); };
    auto wait = [&] {
        switch (c.weighted({4, 2, 1}))
        {
        case 0:
            return Duration::fromNanoseconds(c.draw(3000000));
        case 1:
            return Duration::fromSeconds(c.draw(100)) + Duration::fromNanoseconds(c.draw(1000000000));
        default:
            return c.of<Duration>({Duration::fromSeconds(0), Duration::max(), Duration::fromNanoseconds(1)});
        }
    };
    // a sum that exceeds the greatest duration is the greatest duration
    const auto big = [](const Duration& d) {
        const timespec t = d.timespec(units::TimeSpecReference::None);
        return static_cast<unsigned __int128>(t.tv_sec) * 1000000000U + static_cast<unsigned __int128>(t.tv_nsec);
    };
    Duration d = wait();
    deadline_timer t(d);
    auto start = ns(now);
    bool expired = false;
    uint32_t changes = 0;
    for (uint32_t i = c.range(3, 25); i > 0; --i)
    {
        switch (c.weighted({4, 2, 2, 1, 1}))
        {
        case 0:
        {
            uint64_t step = c.weighted({2, 1}) == 0 ? c.draw(2000000) : c.draw(4000000000U);
            if (c.chance(1, 4) && d != Duration::max())
            {
                // exactly to the end, one before or after
                const auto end = start + big(d);
                const auto cur = ns(now);
                if (end > cur)
                {
                    step = static_cast<uint64_t>(end - cur) + c.draw(3) - 1;
                }
            }
            const auto v = ns(now) + step;
            now.tv_sec = static_cast<time_t>(v / 1000000000U);
            now.tv_nsec = static_cast<long>(v % 1000000000U);
            break;
        }
        case 1:
        case 2:
        {
            const bool is = t.hasExpired();
            const bool should = d != Duration::max() && ns(now) >= start + big(d);
            PBT_CHECK(c, is == should, "timer-expired", "the timer has%s expired", is ? "" : " not");
            changes += is != expired;
            expired = is;
            const auto r = t.remainingTime();
            if (d == Duration::max())
            {
                PBT_CHECK(c, r > Duration::fromSeconds(1ULL << 60), "timer-remaining", "an endless timer has little time left");
            }
            else
            {
                const auto left = should ? 0 : start + big(d) - ns(now);
                PBT_CHECK(c, big(r) == left, "timer-remaining", "remaining %lluns instead of %lluns", static_cast<unsigned long long>(big(r)), static_cast<unsigned long long>(left));
            }
            break;
        }
        case 3:
            t.reset();
            start = ns(now);
            break;
        default:
            d = wait();
            t.reset(d);
            start = ns(now);
            break;
        }
    }
    g_time = nullptr;
    if (changes > 0)
    {
        c.nontrivial();
    }
    c.count("changes", changes);
}

// ------------------------------------------------------------------------------------------------ periodic tasks
struct Ticks
{
    std::atomic<uint64_t> count{0};
    std::atomic<uint64_t> running{0};
    std::atomic<bool> twice{false};
    std::atomic<pthread_t> thread{};
    std::atomic<uint32_t> workUs{0};
    std::atomic<uint64_t> last{0};
    std::atomic<uint64_t> minGap{UINT64_MAX};
    std::atomic<bool> named{true};
    void operator()()
    {
        twice = twice || running.fetch_add(1) != 0;
        thread = pthread_self();
        const uint64_t now = nowNs();
        if (last != 0)
        {
            minGap = std::min(minGap.load(), now - last);
        }
        if (workUs != 0)
        {
            sleepUs(workUs);
        }
        named = named && getThreadName() == ThreadName_t("ticker");
        running.fetch_sub(1);
        last = nowNs();
        count.fetch_add(1);
    }
};
struct TicksRef
{
    explicit TicksRef(Ticks& t)
        : ticks(&t)
    {
    }
    void operator()()
    {
        (*ticks)();
    }
    Ticks* ticks;
};
void periodicTask(Case& c)
{
    catchInterrupts();
    using namespace concurrent::detail;
    Ticks ticks;
    auto interval = [&] { return c.of<uint64_t>({500, 1000, 3000, 20000, 600000000}); };
    auto await = [&](uint64_t n) {
        const uint64_t until = nowNs() + PATIENCE_MS * 1000000ULL;
        while (ticks.count < n && nowNs() < until)
        {
            sleepUs(50);
        }
        return ticks.count >= n;
    };
    uint64_t us = interval();
    std::unique_ptr<PeriodicTask<TicksRef>> task;
    bool active = false;
    if (c.chance(1, 2))
    {
        task = std::make_unique<PeriodicTask<TicksRef>>(PeriodicTaskAutoStart, Duration::fromMicroseconds(us), ThreadName_t("ticker"), ticks);
        active = true;
    }
    else
    {
        task = std::make_unique<PeriodicTask<TicksRef>>(PeriodicTaskManualStart, ThreadName_t("ticker"), ticks);
    }
    uint32_t awaited = 0, stops = 0, restarts = 0, interrupted = 0;
    for (uint32_t i = c.range(2, 9); i > 0; --i)
    {
        PBT_CHECK(c, task->is_active() == active, "task-active", "the task is %s", active ? "not active" : "active");
        switch (c.weighted({3, 2, 2, 2, 2}))
        {
        case 0:
        {
            // at least once after a start, and again and again
            if (active)
            {
                const uint64_t n = us > 100000 ? 1 : c.range(1, 3);
                const bool first = us > 100000;
                PBT_CHECK(c, await(first ? 1 : ticks.count + n), "task-idle", "the task was not executed");
                awaited += 1;
            }
            break;
        }
        case 1:
        {
            const uint64_t from = nowNs();
            task->stop();
            const uint64_t took = nowNs() - from;
            PBT_CHECK(c, took < PATIENCE_MS * 1000000ULL, "task-stop-waits", "stop waits for the end of the interval");
            PBT_CHECK(c, !active || ticks.count > 0, "task-never", "a started task was never executed");
            active = false;
            ++stops;
            const uint64_t n = ticks.count;
            sleepUs(std::min<uint64_t>(2 * us, 4000));
            PBT_CHECK(c, ticks.count == n && ticks.running == 0, "task-after-stop", "the task is executed after it was stopped");
            break;
        }
        case 2:
        {
            us = interval();
            const uint64_t n = ticks.count;
            task->start(Duration::fromMicroseconds(us));
            restarts += active;
            active = true;
            PBT_CHECK(c, await(n + 1), "task-idle", "the task was not executed after start");
            ticks.minGap = UINT64_MAX;
            ticks.last = 0;
            break;
        }
        case 3:
            ticks.workUs = c.of<uint32_t>({0, 0, 700, 2500});
            break;
        default:
            if (active && await(1))
            {
                // the thread of the task handles signals
                const uint32_t n = c.range(1, 12);
                interrupt(ticks.thread, n);
                interrupted += n;
            }
            break;
        }
        PBT_CHECK(c, !ticks.twice, "task-twice", "the task is executed twice at the same time");
        if (us >= 20000 && us < 100000 && ticks.minGap != UINT64_MAX)
        {
            PBT_CHECK(c, ticks.minGap + 1000000 >= us * 1000, "task-early", "the task was executed %lluns after the previous execution, the interval is %lluus", static_cast<unsigned long long>(ticks.minGap.load()), static_cast<unsigned long long>(us));
        }
    }
    const uint64_t from = nowNs();
    task.reset();
    PBT_CHECK(c, nowNs() - from < PATIENCE_MS * 1000000ULL, "task-stop-waits", "the destructor waits for the end of the interval");
    const uint64_t n = ticks.count;
    sleepUs(200);
    PBT_CHECK(c, ticks.count == n && ticks.running == 0, "task-after-stop", "the task is executed after it was destroyed");
    PBT_CHECK(c, ticks.named, "task-name", "the thread of the task does not have its name");
    if (awaited + stops + restarts > 1)
    {
        c.nontrivial();
    }
    c.count("executions", ticks.count);
    c.count("signals", interrupted);
}

// ------------------------------------------------------------------------------------------------ threads
void threads(Case& c)
{
    const uint32_t n = c.range(1, 4);
    std::vector<std::unique_ptr<optional<Thread>>> ts;
    std::vector<std::atomic<uint32_t>> ran(n);
    std::vector<std::atomic<bool>> named(n);
    std::vector<uint32_t> us;
    for (uint32_t i = 0; i < n; ++i)
    {
        const S name = S("t") + S(c.range(0, 14), 'n');
        us.push_back(c.of<uint32_t>({0, 100, 1500}));
        auto t = std::make_unique<optional<Thread>>();
        Thread::callable_t f = [&, i, name] {
            sleepUs(us[i]);
            named[i] = getThreadName() == str<MAX_THREAD_NAME_LENGTH>(name);
            ran[i].fetch_add(1);
        };
        PBT_CHECK(c, !ThreadBuilder().name(str<MAX_THREAD_NAME_LENGTH>(name)).create(*t, f).has_error(), "thread-create", "no thread");
        PBT_CHECK(c, (*t)->getName() == str<MAX_THREAD_NAME_LENGTH>(name), "thread-name", "the thread has another name");
        ts.push_back(std::move(t));
    }
    while (!ts.empty())
    {
        const uint32_t k = static_cast<uint32_t>(ts.size()) - 1;
        ts.pop_back(); // joins
        PBT_CHECK(c, ran[k] == 1, "thread-join", "the thread was destroyed before its function returned");
        PBT_CHECK(c, named[k], "thread-name", "the thread does not have its name");
    }
    c.nontrivial();
    c.count("threads", n);
}

// ------------------------------------------------------------------------------------------------ signals
int g_handler = 0;
void handler1(int)
{
    g_handler = 1;
}
void handler2(int)
{
    g_handler = 2;
}
void handler3(int)
{
    g_handler = 3;
}
void signalGuards(Case& c)
{
    const std::vector<PosixSignal> sigs = {PosixSignal::INT, PosixSignal::TERM, PosixSignal::HUP, PosixSignal::BUS};
    void (*const handlers[3])(int) = {handler1, handler2, handler3};
    std::map<int, struct sigaction> before;
    for (auto s : sigs)
    {
        struct sigaction a = {};
        a.sa_handler = handler3;
        sigemptyset(&a.sa_mask);
        sigaction(static_cast<int>(s), &a, &before[static_cast<int>(s)]);
    }
    std::map<int, std::vector<int>> model;
    std::vector<std::pair<int, std::unique_ptr<SignalGuard>>> guards;
    uint32_t raised = 0, nested = 0;
    for (uint32_t i = c.range(3, 24); i > 0; --i)
    {
        const auto s = c.pick(sigs);
        const int no = static_cast<int>(s);
        switch (c.weighted({3, 3, 4, 1}))
        {
        case 0:
        {
            const int h = static_cast<int>(c.draw(2));
            auto r = registerSignalHandler(s, handlers[h]);
            PBT_CHECK(c, !r.has_error(), "signal-register", "no signal handler");
            guards.emplace_back(no, std::make_unique<SignalGuard>(std::move(r.value())));
            model[no].push_back(h + 1);
            nested += model[no].size() > 1;
            break;
        }
        case 1:
            if (!guards.empty())
            {
                // the youngest guard of one signal
                const int which = guards[c.draw(static_cast<uint32_t>(guards.size()))].first;
                for (size_t k = guards.size(); k > 0; --k)
                {
                    if (guards[k - 1].first == which)
                    {
                        guards.erase(guards.begin() + static_cast<long>(k - 1));
                        model[which].pop_back();
                        break;
                    }
                }
            }
            break;
        case 2:
            g_handler = 0;
            raise(no);
            PBT_CHECK(c, g_handler == (model[no].empty() ? 3 : model[no].back()), "signal-handler", "handler %d was called instead of %d", g_handler, model[no].empty() ? 3 : model[no].back());
            ++raised;
            break;
        default:
            if (!guards.empty())
            {
                auto& g = guards[c.draw(static_cast<uint32_t>(guards.size()))];
                g.second = std::make_unique<SignalGuard>(std::move(*g.second));
            }
            break;
        }
    }
    while (!guards.empty())
    {
        guards.pop_back();
    }
    for (auto s : sigs)
    {
        g_handler = 0;
        raise(static_cast<int>(s));
        PBT_CHECK(c, g_handler == 3, "signal-restore", "the previous handler is not restored");
        sigaction(static_cast<int>(s), &before[static_cast<int>(s)], nullptr);
    }
    if (raised > 0 && nested > 0)
    {
        c.nontrivial();
    }
    c.count("raised", raised);
}

void termination(Case& c)
{
    const uint32_t waiters = c.range(1, 3);
    const uint32_t late = c.draw(3);
    const uint32_t interrupts = c.chance(1, 2) ? c.range(1, 12) : 0;
    const uint32_t n = c.range(1, 3);
    std::vector<int> sig;
    std::vector<uint32_t> pauses;
    for (uint32_t i = 0; i < n; ++i)
    {
        sig.push_back(c.chance(1, 2) ? SIGINT : SIGTERM);
        pauses.push_back(c.of<uint32_t>({0, 0, 100, 1500}));
    }
    const uint32_t pauseBefore = c.of<uint32_t>({0, 200, 2000});
    const bool withConstruction = c.chance(3, 4);
    const pid_t p = fork();
    if (p == 0)
    {
        catchInterrupts();
        alarm(120);
        if (withConstruction && hasTerminationRequested())
        {
            _exit(11);
        }
        std::atomic<uint32_t> returned{0};
        std::vector<std::unique_ptr<Actor>> as;
        for (uint32_t i = 0; i < waiters; ++i)
        {
            as.emplace_back(new Actor);
            as.back()->start([&] {
                waitForTerminationRequest();
                returned.fetch_add(1);
            });
        }
        sleepUs(pauseBefore);
        if (hasTerminationRequested())
        {
            _exit(12);
        }
        for (auto& a : as)
        {
            interrupt(a->handle(), interrupts);
        }
        if (returned != 0)
        {
            _exit(13);
        }
        for (uint32_t i = 0; i < n; ++i)
        {
            kill(getpid(), sig[i]);
            sleepUs(pauses[i]);
        }
        for (auto& a : as)
        {
            if (!a->done(PATIENCE_MS))
            {
                _exit(14);
            }
        }
        if (!hasTerminationRequested())
        {
            _exit(15);
        }
        for (uint32_t i = 0; i < late; ++i)
        {
            as[0]->start([] { waitForTerminationRequest(); });
            if (!as[0]->done(PATIENCE_MS))
            {
                _exit(16);
            }
        }
        _exit(0);
    }
    int status = 0;
    waitpid(p, &status, 0);
    const int r = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
    const char* what = r == 11   ? "a termination request is reported before there was one"
                       : r == 12 ? "a termination request is reported before there was one"
                       : r == 13 ? "a thread that waits for a termination request returned without one"
                       : r == 14 ? "a thread that waits for a termination request does not return"
                       : r == 15 ? "a termination request is not reported"
                       : r == 16 ? "waiting after a termination request blocks"
                                 : "the process ended while it was waiting for a termination request";
    PBT_CHECK(c, r == 0, "termination", "%s (%d; %u waiting, %u other signals)", what, r, waiters, interrupts);
    c.nontrivial();
    c.count("waiting", waiters);
    c.count("signals", interrupts);
}
} // namespace

int main(int argc, char** argv)
{
    log::Logger::setLogLevel(getenv("VERBOSE") ? log::LogLevel::Trace : log::LogLevel::Off);
    std::vector<pbt::Test> tests = {
        {"mutex_hist", mutexHist, 2.0, 60, 2000, true},     {"unnamed_hist", unnamedHist, 1.0, 60, 2000, true}, {"spin_sem_hist", spinSemHist, 0.5, 60, 2000, true},
        {"named_hist", namedHist, 1.5, 60, 2000, true},     {"deadline", deadlineTimer, 0.2, 60, 2000, true},   {"periodic", periodicTask, 1.0, 60, 2000, true},
        {"threads", threads, 0.3, 60, 2000, true},          {"signal_guards", signalGuards, 0.3, 60, 2000, true}, {"termination", termination, 1.0, 60, 2000, true},
    };
    return pbt::runAll(argc, argv, tests);
}
