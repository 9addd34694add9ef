// Mechanisms shared by several processes under generated schedules: file locks and named pipes (S23), spin locks, smart locks
// and semaphores (S29). Every system call of a file lock is a scheduling point and a possible place of death.
#include "iox/file_lock.hpp"
#include "iox/logging.hpp"
#include "iox/named_pipe.hpp"
#include "iox/smart_lock.hpp"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
#include "sched.hpp"

#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using pbt::Case;
using S = std::string;
using namespace iox;
using units::Duration;

namespace
{
// descriptors opened by the fiber that runs, while a run with interposed calls is active
std::map<int, std::set<int>>* g_fds = nullptr;
void at()
{
    if (g_fds != nullptr)
    {
        sched::point();
    }
}
} // namespace

extern "C" {
int open(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if ((flags & O_CREAT) != 0)
    {
        va_list l;
        va_start(l, flags);
        mode = static_cast<mode_t>(va_arg(l, int));
        va_end(l);
    }
    at();
    const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (fd >= 0 && g_fds != nullptr)
    {
        (*g_fds)[sched::self()].insert(fd);
    }
    const int e = errno;
    at();
    errno = e;
    return fd;
}
int close(int fd)
{
    at();
    const int r = static_cast<int>(syscall(SYS_close, fd));
    if (g_fds != nullptr)
    {
        (*g_fds)[sched::self()].erase(fd);
    }
    return r;
}
int flock(int fd, int op)
{
    at();
    const int r = static_cast<int>(syscall(SYS_flock, fd, op));
    const int e = errno;
    at();
    errno = e;
    return r;
}
int remove(const char* path)
{
    at();
    const int r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, path, 0));
    const int e = errno;
    at();
    errno = e;
    return r;
}
int unlink(const char* path)
{
    return remove(path);
}
}

namespace
{
S scratch()
{
    const char* d = getenv("VERIF_SCRATCH");
    return d ? d : "/tmp";
}
template <uint64_t N>
string<N> str(const S& s)
{
    return string<N>(TruncateToCapacity, s.c_str(), s.size());
}

// ------------------------------------------------------------------------------------------------ file locks
struct Attempt
{
    int fiber;
    uint64_t from{0};
    uint64_t to{UINT64_MAX}; // end of create
    uint64_t released{UINT64_MAX};
    bool granted{false};
};

void lockConc(Case& c)
{
    const S name = "k" + std::to_string(getpid());
    const S path = scratch() + "/" + name + ".lock";
    unlink(path.c_str());
    if (c.chance(1, 3))
    {
        // left behind by a process that was killed
        close(open(path.c_str(), O_CREAT | O_RDWR, 0600));
    }
    auto build = [&] {
        return FileLockBuilder().name(str<FileLock::FILENAME_LENGTH>(name)).path(str<FileLock::PathName_t::capacity()>(scratch())).permission(perms::owner_read | perms::owner_write).create();
    };
    const uint32_t nf = c.range(2, 4);
    std::vector<Attempt> hist;
    hist.reserve(64);
    std::vector<int> holding(nf, 0);
    uint32_t granted = 0;
    std::map<int, std::set<int>> fds;
    sched::Options o;
    o.maxSteps = 20000;
    o.fine = true;
    sched::begin(c, o);
    std::vector<int> ids;
    for (uint32_t f = 0; f < nf; ++f)
    {
        const uint32_t rounds = c.range(1, 3);
        const uint32_t pauses = c.draw(4);
        const bool viaMove = c.chance(1, 3);
        ids.push_back(sched::spawn([&, f, rounds, pauses, viaMove] {
            for (uint32_t i = 0; i < rounds; ++i)
            {
                const size_t h = hist.size();
                hist.push_back({static_cast<int>(f), sched::clock()});
                auto r = build(); // the system calls are the scheduling points
                hist[h].to = sched::clock();
                hist[h].granted = r.has_value();
                if (r.has_value())
                {
                    ++granted;
                    for (uint32_t g = 0; g < nf; ++g)
                    {
                        PBT_CHECK(c, holding[g] == 0, "held-twice", "the lock was granted to %u while %u holds it", f, g);
                    }
                    holding[f] = 1;
                    for (uint32_t k = 0; k < pauses; ++k)
                    {
                        sched::point();
                    }
                    holding[f] = 0;
                    if (viaMove)
                    {
                        FileLock gone(std::move(r.value()));
                    }
                    else
                    {
                        auto* p = new FileLock(std::move(r.value()));
                        delete p;
                    }
                    hist[h].released = sched::clock();
                }
                else
                {
                    PBT_CHECK(c, r.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, "lock-error", "error %u", static_cast<unsigned>(r.error()));
                    hist[h].released = hist[h].to;
                }
            }
        }));
    }
    // processes that die; the system closes their files
    std::set<uint32_t> dying;
    if (c.chance(1, 2))
    {
        for (uint32_t f = 0; f < nf; ++f)
        {
            if (c.chance(1, 2))
            {
                dying.insert(f);
                sched::killAfter(ids[f], c.range(1, 24));
                sched::spawn([&, f] {
                    sched::waitUntil([&] { return sched::killed(ids[f]) || sched::finished(ids[f]); });
                    if (sched::killed(ids[f]))
                    {
                        for (int fd : fds[ids[f]])
                        {
                            syscall(SYS_close, fd);
                        }
                        fds[ids[f]].clear();
                        holding[f] = 0;
                        for (auto& a : hist)
                        {
                            if (a.fiber == static_cast<int>(f) && a.released == UINT64_MAX)
                            {
                                a.granted = true; // may have held it until now
                                a.released = sched::clock();
                            }
                        }
                    }
                });
            }
        }
    }
    g_fds = &fds;
    const auto end = sched::go();
    g_fds = nullptr;
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "lock-blocks", "acquiring or releasing a file lock does not return");
    uint32_t refused = 0;
    for (auto& a : hist)
    {
        if (a.granted || a.to == UINT64_MAX)
        {
            continue;
        }
        ++refused;
        bool reason = false;
        for (auto& b : hist)
        {
            reason = reason || (&a != &b && b.granted && b.from <= a.to && a.from <= b.released);
        }
        PBT_CHECK(c, reason, "refused-free", "the lock was refused to %d although nobody held it", a.fiber);
    }
    {
        auto r = build();
        PBT_CHECK(c, r.has_value(), "stuck", "the lock cannot be acquired although nobody holds it any more");
        PBT_CHECK(c, build().has_error(), "not-exclusive", "the lock can be acquired twice");
    }
    unlink(path.c_str());
    if (granted >= 2)
    {
        c.nontrivial();
    }
    c.count("granted", granted);
    c.count("refused", refused);
    c.count("died", dying.size());
}

// ------------------------------------------------------------------------------------------------ named pipes
struct PipeEv
{
    bool send;
    int fiber;
    uint64_t from{0};
    uint64_t to{UINT64_MAX};
    bool done{false}; // effect took place
    uint32_t id{0};
    int how{0}; // 0 blocking, 1 try, 2 timed
};

void pipeConc(Case& c)
{
    const S name = "vrf1_sync" + std::to_string(getpid());
    shm_unlink(("/iox_np_" + name).c_str());
    const uint32_t cap = c.range(1, 4);
    auto server = NamedPipeBuilder().name(str<100>(name)).channelSide(PosixIpcChannelSide::SERVER).maxMsgNumber(cap).create();
    PBT_CHECK(c, server.has_value(), "create", "no named pipe");
    auto client = NamedPipeBuilder().name(str<100>(name)).channelSide(PosixIpcChannelSide::CLIENT).create();
    PBT_CHECK(c, client.has_value(), "create-client", "no client");
    const uint32_t senders = c.range(1, 3);
    const uint32_t receivers = c.range(1, 2);
    std::vector<PipeEv> hist;
    hist.reserve(64);
    sched::Options o;
    o.maxSteps = 40000;
    o.earlyTimeouts = true;
    sched::begin(c, o);
    uint32_t blockedSend = 0, blockedReceive = 0;
    auto text = [](uint32_t id) { return S(1 + id % 7, 'a') + "," + std::to_string(id); };
    for (uint32_t f = 0; f < senders; ++f)
    {
        std::vector<int> how;
        for (uint32_t i = c.range(1, 4); i > 0; --i)
        {
            how.push_back(static_cast<int>(c.draw(3)));
        }
        const bool viaServer = c.chance(1, 3);
        sched::spawn([&, f, how, viaServer] {
            for (size_t i = 0; i < how.size(); ++i)
            {
                const uint32_t id = 1000 * (f + 1) + static_cast<uint32_t>(i);
                const size_t h = hist.size();
                hist.push_back({true, static_cast<int>(f), sched::clock()});
                hist[h].id = id;
                hist[h].how = how[i];
                auto m = std::make_unique<NamedPipe::Message_t>(str<NamedPipe::MAX_MESSAGE_SIZE>(text(id)));
                auto& p = viaServer ? *server : *client;
                blockedSend += how[i] == 0;
                auto r = sched::in([&] { return how[i] == 0 ? p.send(*m) : how[i] == 1 ? p.trySend(*m) : p.timedSend(*m, Duration::fromMilliseconds(1)); });
                blockedSend -= how[i] == 0;
                hist[h].to = sched::clock();
                hist[h].done = r.has_value();
                PBT_CHECK(c, r.has_value() || (how[i] != 0 && r.error() == PosixIpcChannelError::TIMEOUT), "send-error", "sending failed with error %u", r.has_error() ? static_cast<unsigned>(r.error()) : 0U);
            }
        });
    }
    for (uint32_t f = 0; f < receivers; ++f)
    {
        std::vector<int> how;
        for (uint32_t i = c.range(1, 5); i > 0; --i)
        {
            how.push_back(static_cast<int>(c.draw(3)));
        }
        sched::spawn([&, f, how] {
            for (size_t i = 0; i < how.size(); ++i)
            {
                const size_t h = hist.size();
                hist.push_back({false, static_cast<int>(f), sched::clock()});
                hist[h].how = how[i];
                auto m = std::make_unique<NamedPipe::Message_t>();
                blockedReceive += how[i] == 0;
                auto r = sched::in([&] { return how[i] == 0 ? server->receive(*m) : how[i] == 1 ? server->tryReceive(*m) : server->timedReceive(*m, Duration::fromMilliseconds(1)); });
                blockedReceive -= how[i] == 0;
                hist[h].to = sched::clock();
                hist[h].done = r.has_value();
                PBT_CHECK(c, r.has_value() || (how[i] != 0 && r.error() == PosixIpcChannelError::TIMEOUT), "receive-error", "receiving failed with error %u", r.has_error() ? static_cast<unsigned>(r.error()) : 0U);
                if (r.has_value())
                {
                    const char* comma = strchr(m->c_str(), ',');
                    hist[h].id = comma != nullptr ? static_cast<uint32_t>(atoi(comma + 1)) : 0;
                    PBT_CHECK(c, hist[h].id != 0 && S(m->c_str()) == text(hist[h].id), "torn", "a message was received that nobody sent: \"%s\"", m->c_str());
                }
            }
        });
    }
    const auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end != sched::End::EXHAUSTED, "no-progress", "operations do not return although everybody is scheduled");
    // what is still inside
    uint32_t drained = 0;
    std::vector<uint32_t> rest;
    uint32_t sentOk = 0, receivedOk = 0;
    for (auto& e : hist)
    {
        sentOk += e.send && e.done;
        receivedOk += !e.send && e.done;
    }
    if (end == sched::End::DEADLOCK)
    {
        PBT_CHECK(c, blockedSend == 0 || sentOk - receivedOk >= cap, "send-blocks", "a sender waits although only %u of %u places are used", sentOk - receivedOk, cap);
        PBT_CHECK(c, blockedReceive == 0 || sentOk == receivedOk, "receive-blocks", "a receiver waits although %u messages are inside", sentOk - receivedOk);
    }
    auto m = std::make_unique<NamedPipe::Message_t>();
    if (blockedSend == 0) // a sender that waits would be woken up
    {
        while (server->tryReceive(*m).has_value())
        {
            ++drained;
            const char* comma = strchr(m->c_str(), ',');
            rest.push_back(comma != nullptr ? static_cast<uint32_t>(atoi(comma + 1)) : 0);
            PBT_CHECK(c, drained <= 64, "endless", "messages come from nowhere");
        }
    }
    std::map<uint32_t, uint32_t> seen;
    for (auto& e : hist)
    {
        if (!e.send && e.done)
        {
            ++seen[e.id];
        }
    }
    for (auto id : rest)
    {
        ++seen[id];
    }
    for (auto& x : seen)
    {
        PBT_CHECK(c, x.second == 1, "duplicate", "message %u was received %u times", x.first, x.second);
        bool sent = false;
        for (auto& e : hist)
        {
            sent = sent || (e.send && e.id == x.first && (e.done || e.to == UINT64_MAX));
        }
        PBT_CHECK(c, sent, "invented", "message %u was received, but its sender was told that it was not sent", x.first);
    }
    if (blockedSend == 0)
    {
        for (auto& e : hist)
        {
            PBT_CHECK(c, !(e.send && e.done) || seen.count(e.id) == 1, "lost", "message %u was sent and never received", e.id);
        }
        // the drained rest of one sender is in order
        std::map<uint32_t, uint32_t> last;
        for (auto id : rest)
        {
            PBT_CHECK(c, last[id / 1000] < id, "order-rest", "message %u was overtaken", id);
            last[id / 1000] = id;
        }
    }
    // real time order: a message that was completely sent before another one was begun is not received after it
    for (auto& a : hist)
    {
        if (!(a.send && a.done))
        {
            continue;
        }
        for (auto& b : hist)
        {
            if (!(b.send && b.done && a.to < b.from))
            {
                continue;
            }
            const PipeEv* ra = nullptr;
            const PipeEv* rb = nullptr;
            for (auto& e : hist)
            {
                ra = !e.send && e.done && e.id == a.id ? &e : ra;
                rb = !e.send && e.done && e.id == b.id ? &e : rb;
            }
            if (rb != nullptr)
            {
                PBT_CHECK(c, blockedSend != 0 || ra == nullptr || !(rb->to < ra->from), "order", "message %u was received before %u, which was sent earlier", b.id, a.id);
            }
        }
    }
    // refusals need a reason
    for (auto& e : hist)
    {
        if (e.done || e.to == UINT64_MAX || e.how != 1)
        {
            continue;
        }
        uint32_t may = 0;
        int32_t least = 0;
        for (auto& x : hist)
        {
            if (&x == &e)
            {
                continue;
            }
            const bool took = x.done || x.to == UINT64_MAX;
            if (e.send)
            {
                // a place is in use at some time of e: taken before e ended and not given back before e began
                if (x.send && took && x.from <= e.to)
                {
                    bool gone = false;
                    for (auto& g : hist)
                    {
                        gone = gone || (!g.send && g.done && g.id == x.id && g.to < e.from);
                    }
                    may += gone ? 0 : 1;
                }
            }
            else
            {
                least += x.send && x.done && x.to < e.from ? 1 : 0;
                least -= !x.send && took && x.from <= e.to ? 1 : 0;
            }
        }
        if (e.send)
        {
            PBT_CHECK(c, may >= cap, "refused-not-full", "trySend refused with at most %u of %u places used", may, cap);
        }
        else
        {
            PBT_CHECK(c, least <= 0, "refused-not-empty", "tryReceive found nothing although %d messages were inside", least);
        }
    }
    if (sentOk >= 2 && receivedOk >= 1)
    {
        c.nontrivial();
    }
    c.count("sent", sentOk);
    c.count("received", receivedOk);
    if (end == sched::End::DEADLOCK)
    {
        c.count("ended with waiting");
    }
}
// ------------------------------------------------------------------------------------------------ spin locks
std::function<pid_t(int)>* g_pid = nullptr;
bool g_virtual = false;

struct Hold
{
    int fiber;
    uint64_t from;
    uint64_t to{UINT64_MAX};
};
struct Refusal
{
    int fiber;
    uint64_t from;
    uint64_t to;
};

void spinLockConc(Case& c)
{
    const LockBehavior behavior = c.of<LockBehavior>({LockBehavior::RECURSIVE, LockBehavior::WITH_DEADLOCK_DETECTION, LockBehavior::NORMAL});
    optional<concurrent::SpinLock> lock;
    PBT_CHECK(c, !concurrent::SpinLockBuilder().lock_behavior(behavior).create(lock).has_error(), "spin-create", "no spin lock");
    const uint32_t nf = c.range(2, 4);
    // threads of several processes; after a fork the threads of two processes have equal ids
    std::vector<pid_t> pid;
    std::vector<uint64_t> tid;
    const uint32_t kind = c.draw(3);
    for (uint32_t f = 0; f < nf; ++f)
    {
        pid.push_back(kind == 0 ? 100 : kind == 1 ? 100 + static_cast<pid_t>(f) : 100 + static_cast<pid_t>(f % 2));
        tid.push_back(kind == 0 ? 7000 + f : kind == 1 ? 7000 : 7000 + (f / 2 + f % 2 * c.draw(2)) % 2);
    }
    for (uint32_t f = 0; f < nf; ++f)
    {
        for (uint32_t g = 0; g < f; ++g)
        {
            if (pid[f] == pid[g] && tid[f] == tid[g])
            {
                tid[f] += 10 + f;
            }
        }
    }
    std::function<pid_t(int)> pidOf = [&](int f) { return f >= 0 && f < static_cast<int>(pid.size()) ? pid[static_cast<size_t>(f)] : 99; };
    std::vector<int> depth(nf, 0);
    std::vector<Hold> holds;
    std::vector<Refusal> refusals;
    holds.reserve(256);
    uint32_t contended = 0, granted = 0;
    sched::Options o;
    o.maxSteps = 30000;
    o.fine = c.chance(1, 2);
    o.threadId = [&](int f) { return f >= 0 && f < static_cast<int>(tid.size()) ? tid[static_cast<size_t>(f)] : 1; };
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        std::vector<int> prog;
        for (uint32_t i = c.range(2, 8); i > 0; --i)
        {
            prog.push_back(static_cast<int>(c.weighted({4, 2, 4, 1})));
        }
        sched::spawn([&, f, prog] {
            std::vector<size_t> mine;
            auto others = [&] {
                int n = -1;
                for (uint32_t g = 0; g < nf; ++g)
                {
                    if (g != f && depth[g] > 0)
                    {
                        n = static_cast<int>(g);
                    }
                }
                return n;
            };
            auto acquired = [&](uint64_t from) {
                PBT_CHECK(c, others() < 0, "spin-held-twice", "the spin lock was granted to %u while %d holds it", f, others());
                ++depth[f];
                ++granted;
                if (depth[f] == 1)
                {
                    mine.push_back(holds.size());
                    holds.push_back({static_cast<int>(f), from});
                }
            };
            auto release = [&] {
                // another one may acquire it before unlock returns
                --depth[f];
                auto r = sched::in([&] { return lock->unlock(); });
                PBT_CHECK(c, !r.has_error(), "spin-unlock", "the owner cannot unlock: error %u", r.has_error() ? static_cast<unsigned>(r.error()) : 0U);
                if (depth[f] == 0)
                {
                    holds[mine.back()].to = sched::clock();
                }
            };
            for (int op : prog)
            {
                const uint64_t from = sched::clock();
                switch (op)
                {
                case 0:
                {
                    if (depth[f] > 0 && behavior == LockBehavior::NORMAL)
                    {
                        break;
                    }
                    contended += depth[f] == 0 && others() >= 0;
                    auto r = sched::in([&] { return lock->lock(); });
                    if (depth[f] > 0 && behavior == LockBehavior::WITH_DEADLOCK_DETECTION)
                    {
                        PBT_CHECK(c, r.has_error() && r.error() == LockError::DEADLOCK_CONDITION, "spin-deadlock", "locking twice is not reported");
                        break;
                    }
                    PBT_CHECK(c, !r.has_error(), "spin-lock-error", "lock fails with error %u although this thread holds it %d times", r.has_error() ? static_cast<unsigned>(r.error()) : 0U, depth[f]);
                    acquired(from);
                    break;
                }
                case 1:
                {
                    auto r = sched::in([&] { return lock->try_lock(); });
                    PBT_CHECK(c, !r.has_error(), "spin-try-error", "try_lock fails with error %u", r.has_error() ? static_cast<unsigned>(r.error()) : 0U);
                    if (depth[f] > 0)
                    {
                        const bool ok = r.value() == TryLock::LOCK_SUCCEEDED;
                        PBT_CHECK(c, ok == (behavior == LockBehavior::RECURSIVE), "spin-try-own", "try_lock of the owner %s", ok ? "succeeds" : "fails");
                        if (ok)
                        {
                            acquired(from);
                        }
                        break;
                    }
                    if (r.value() == TryLock::LOCK_SUCCEEDED)
                    {
                        acquired(from);
                    }
                    else
                    {
                        refusals.push_back({static_cast<int>(f), from, sched::clock()});
                    }
                    break;
                }
                case 2:
                    if (depth[f] > 0)
                    {
                        release();
                    }
                    else if (behavior != LockBehavior::NORMAL)
                    {
                        auto r = sched::in([&] { return lock->unlock(); });
                        PBT_CHECK(c, r.has_error(), "spin-foreign-unlock", "a thread that does not hold the lock has unlocked it");
                    }
                    break;
                default:
                    sched::point();
                    break;
                }
            }
            while (depth[f] > 0)
            {
                release();
            }
        });
    }
    g_pid = &pidOf;
    const auto end = sched::go();
    g_pid = nullptr;
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "spin-blocks", "lock does not return although nobody holds the lock for ever");
    for (auto& r : refusals)
    {
        bool reason = false;
        for (auto& h : holds)
        {
            reason = reason || (h.fiber != r.fiber && h.from <= r.to && r.from <= h.to);
        }
        PBT_CHECK(c, reason, "spin-refused", "try_lock fails although nobody held the lock");
    }
    auto r = lock->try_lock();
    PBT_CHECK(c, r.has_value() && r.value() == TryLock::LOCK_SUCCEEDED, "spin-stuck", "the lock is not free after everybody has unlocked it");
    PBT_CHECK(c, !lock->unlock().has_error(), "spin-stuck", "the lock cannot be unlocked");
    if (granted >= 2 && contended + refusals.size() > 0)
    {
        c.nontrivial();
    }
    c.count("granted", granted);
    c.count("contended", contended);
    c.count("refused", refusals.size());
}

// ------------------------------------------------------------------------------------------------ spin semaphores
struct SemEv
{
    bool post;
    uint64_t from{0};
    uint64_t to{UINT64_MAX};
    bool done{false};
    int how{0};
};

template <typename Sem>
void semConc(Case& c, optional<Sem>& sem, uint32_t initial)
{
    const uint32_t nf = c.range(2, 4);
    std::vector<SemEv> hist;
    hist.reserve(256);
    uint32_t running = nf, blocked = 0, extra = 0, waited = 0, returned = 0;
    sched::Options o;
    o.maxSteps = 60000;
    o.fine = c.chance(1, 3);
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        std::vector<int> prog;
        for (uint32_t i = c.range(1, 6); i > 0; --i)
        {
            prog.push_back(static_cast<int>(c.weighted({5, 3, 2, 2})));
        }
        const uint32_t us = c.range(0, 200);
        sched::spawn([&, prog, us] {
            for (int op : prog)
            {
                const size_t h = hist.size();
                hist.push_back({op == 0, sched::clock()});
                hist[h].how = op;
                switch (op)
                {
                case 0:
                {
                    auto r = sched::in([&] { return sem->post(); });
                    PBT_CHECK(c, !r.has_error(), "sem-post", "post fails");
                    hist[h].done = true;
                    break;
                }
                case 1:
                {
                    ++blocked;
                    ++waited;
                    auto r = sched::in([&] { return sem->wait(); });
                    --blocked;
                    ++returned;
                    PBT_CHECK(c, !r.has_error(), "sem-wait", "wait fails");
                    hist[h].done = true;
                    break;
                }
                case 2:
                {
                    auto r = sched::in([&] { return sem->tryWait(); });
                    PBT_CHECK(c, !r.has_error(), "sem-try", "tryWait fails");
                    hist[h].done = r.value();
                    break;
                }
                default:
                {
                    auto r = sched::in([&] { return sem->timedWait(Duration::fromMicroseconds(us)); });
                    PBT_CHECK(c, !r.has_error(), "sem-timed", "timedWait fails");
                    hist[h].done = r.value() == SemaphoreWaitState::NO_TIMEOUT;
                    break;
                }
                }
                hist[h].to = sched::clock();
            }
            --running;
        });
    }
    // nobody else is left who would wake up the waiting ones
    sched::spawn([&] {
        while (true)
        {
            sched::waitUntil([&] { return running == blocked; });
            if (running == 0)
            {
                return;
            }
            // is somebody who waits entitled to return?
            int32_t value = static_cast<int32_t>(initial);
            for (auto& e : hist)
            {
                value += e.post && e.done ? 1 : 0;
                value -= !e.post && e.done ? 1 : 0;
            }
            const uint32_t before = returned;
            if (value <= 0)
            {
                const size_t h = hist.size();
                hist.push_back({true, sched::clock()});
                ++extra;
                auto r = sched::in([&] { return sem->post(); });
                PBT_CHECK(c, !r.has_error(), "sem-post", "post fails");
                hist[h].done = true;
                hist[h].to = sched::clock();
            }
            sched::waitUntil([&] { return returned != before; });
        }
    });
    g_virtual = true;
    const auto end = sched::go();
    g_virtual = false;
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "sem-blocks", "wait does not return although the semaphore was posted");
    int32_t value = static_cast<int32_t>(initial);
    uint32_t posts = 0, takes = 0;
    for (auto& e : hist)
    {
        posts += e.post && e.done;
        takes += !e.post && e.done;
    }
    value += static_cast<int32_t>(posts) - static_cast<int32_t>(takes);
    PBT_CHECK(c, value >= 0, "sem-overdrawn", "%u waits returned after %u posts with initial value %u", takes, posts, initial);
    // at no time more waits have returned than posts have begun
    for (auto& e : hist)
    {
        if (e.post || !e.done)
        {
            continue;
        }
        uint32_t have = initial, gone = 0;
        for (auto& x : hist)
        {
            have += x.post && x.from <= e.to ? 1 : 0;
            gone += !x.post && x.done && x.to <= e.to ? 1 : 0;
        }
        PBT_CHECK(c, gone <= have, "sem-early", "%u waits returned when %u posts had begun", gone, have);
    }
    for (auto& e : hist)
    {
        if (e.post || e.done || e.how != 2)
        {
            continue;
        }
        int32_t least = static_cast<int32_t>(initial);
        for (auto& x : hist)
        {
            least += x.post && x.to < e.from ? 1 : 0;
            least -= !x.post && x.done && x.from <= e.to ? 1 : 0;
        }
        PBT_CHECK(c, least <= 0, "sem-refused", "tryWait fails although the value was at least %d", least);
    }
    for (int32_t i = 0; i < value; ++i)
    {
        auto r = sem->tryWait();
        PBT_CHECK(c, r.has_value() && r.value(), "sem-lost", "%d of %d remaining posts are lost", value - i, value);
    }
    auto r = sem->tryWait();
    PBT_CHECK(c, r.has_value() && !r.value(), "sem-surplus", "the value is greater than posts minus waits");
    if (posts >= 1 && takes >= 1)
    {
        c.nontrivial();
    }
    c.count("posts", posts);
    c.count("takes", takes);
    c.count("blocked waits", waited);
}
void spinSemConc(Case& c)
{
    const uint32_t initial = c.draw(3);
    optional<concurrent::SpinSemaphore> sem;
    PBT_CHECK(c, !concurrent::SpinSemaphoreBuilder().initialValue(initial).create(sem).has_error(), "sem-create", "no semaphore");
    semConc(c, sem, initial);
}

// ------------------------------------------------------------------------------------------------ smart locks
struct Two
{
    uint64_t a{0};
    uint64_t b{0};
    Two() = default;
    Two(uint64_t x, uint64_t y)
        : a(x)
        , b(y)
    {
    }
    Two(const Two& o)
    {
        *this = o;
    }
    Two& operator=(const Two& o)
    {
        a = o.a;
        sched::point();
        b = o.b;
        return *this;
    }
    void add(uint64_t n)
    {
        a += n;
        sched::point();
        b += n;
    }
    uint64_t get(Case& c) const
    {
        const uint64_t x = a;
        sched::point();
        PBT_CHECK(c, x == b, "smart-torn", "the object is observed in the middle of a change");
        return x;
    }
};
template <typename M>
void smartLockConcImpl(Case& c)
{
    using L = concurrent::smart_lock<Two, M>;
    L one(concurrent::ForwardArgsToCTor, uint64_t{1}, uint64_t{1});
    L two(concurrent::ForwardArgsToCTor, uint64_t{100}, uint64_t{100});
    L* obj[2] = {&one, &two};
    const uint32_t nf = c.range(2, 4);
    uint64_t added[2] = {1, 100};
    bool assigned = false;
    uint32_t ops = 0;
    sched::Options o;
    o.maxSteps = 30000;
    o.fine = c.chance(1, 2);
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        std::vector<std::pair<int, int>> prog;
        for (uint32_t i = c.range(1, 5); i > 0; --i)
        {
            const int op = static_cast<int>(c.weighted({4, 3, 2, 2, 2, 2, 1, 1}));
            assigned = assigned || op == 4 || op == 5;
            prog.push_back({op, static_cast<int>(c.draw(2))});
        }
        sched::spawn([&, prog] {
            sched::Code code;
            for (auto& x : prog)
            {
                L& l = *obj[x.second];
                const L& k = l;
                ++ops;
                switch (x.first)
                {
                case 0:
                    l->add(3);
                    added[x.second] += 3;
                    break;
                case 1:
                {
                    auto g = l.get_scope_guard();
                    const uint64_t before = g->get(c);
                    g->add(5);
                    PBT_CHECK(c, (*g).get(c) == before + 5, "smart-guard", "somebody else changes the object while the guard is in scope");
                    added[x.second] += 5;
                    break;
                }
                case 2:
                    k.get_copy().get(c);
                    break;
                case 3:
                {
                    L copy(k);
                    copy->get(c);
                    break;
                }
                case 4:
                    l = *obj[1 - x.second];
                    break;
                case 5:
                {
                    L moved(std::move(l));
                    moved->get(c);
                    break;
                }
                case 6:
                    k->get(c);
                    break;
                default:
                {
                    auto g = k.get_scope_guard();
                    const uint64_t v = g->get(c);
                    sched::point();
                    PBT_CHECK(c, g->get(c) == v, "smart-guard", "somebody else changes the object while the guard is in scope");
                    break;
                }
                }
            }
        });
    }
    const auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "smart-deadlock", "threads that use smart locks block each other");
    for (int i = 0; i < 2; ++i)
    {
        const auto v = obj[i]->get_copy();
        PBT_CHECK(c, v.a == v.b, "smart-torn", "the object is half changed");
        PBT_CHECK(c, assigned || v.a == added[i], "smart-lost", "changes are lost: %llu instead of %llu", static_cast<unsigned long long>(v.a), static_cast<unsigned long long>(added[i]));
    }
    if (ops >= 2)
    {
        c.nontrivial();
    }
    c.count("operations", ops);
}
void smartLockConc(Case& c)
{
    if (c.chance(1, 4))
    {
        smartLockConcImpl<std::recursive_mutex>(c);
    }
    else
    {
        smartLockConcImpl<std::mutex>(c);
    }
}
} // namespace

extern "C" {
pid_t getpid()
{
    if (g_pid != nullptr && sched::self() >= 0)
    {
        return (*g_pid)(sched::self());
    }
    return static_cast<pid_t>(syscall(SYS_getpid));
}
int clock_gettime(clockid_t id, struct timespec* t)
{
    if (g_virtual)
    {
        const uint64_t us = sched::clock();
        t->tv_sec = static_cast<time_t>(1000 + us / 1000000);
        t->tv_nsec = static_cast<long>(us % 1000000 * 1000);
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}
}

int main(int argc, char** argv)
{
    log::Logger::setLogLevel(log::LogLevel::Off);
    std::vector<pbt::Test> tests = {
        {"lock_conc", lockConc, 1.0, 60},
        {"pipe_conc", pipeConc, 1.0, 60},
        {"spin_lock_conc", spinLockConc, 1.0, 60},
        {"spin_sem_conc", spinSemConc, 1.0, 60},
        {"smart_lock_conc", smartLockConc, 1.0, 60},
    };
    return pbt::runAll(argc, argv, tests);
}
