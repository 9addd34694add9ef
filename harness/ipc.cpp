// Channels, shared memory objects, files and file locks (S23): generated histories over the real operating system objects
// against models of what each name refers to and what was written or sent.
#include "iox/file.hpp"
#include "iox/file_lock.hpp"
#include "iox/message_queue.hpp"
#include "iox/named_pipe.hpp"
#include "iox/posix_shared_memory_object.hpp"
#include "iox/unix_domain_socket.hpp"
#include "iox/logging.hpp"
#include "pbt.hpp"

#include <array>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <mqueue.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using pbt::Case;
using S = std::string;
using namespace iox;
using units::Duration;

namespace
{
S scratch()
{
    const char* d = getenv("VERIF_SCRATCH");
    return d ? d : "/tmp";
}
S tag()
{
    return "vrf1_ipc" + std::to_string(getpid());
}
size_t openFds()
{
    size_t n{0};
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d) != nullptr)
    {
        ++n;
    }
    closedir(d);
    return n;
}
template <uint64_t N>
string<N> str(const S& s)
{
    return string<N>(TruncateToCapacity, s.c_str(), s.size());
}
/// no NUL: the channels carry C strings
S message(Case& c, uint64_t limit)
{
    uint64_t len;
    switch (c.weighted({6, 2, 2, 1}))
    {
    case 0:
        len = c.range(0, 12);
        break;
    case 1:
        len = limit - c.range(0, 2);
        break;
    case 2:
        len = c.range(0, static_cast<uint32_t>(limit));
        break;
    default:
        len = limit + c.range(1, 3);
        break;
    }
    const uint32_t seed = c.draw(1000);
    S s(len, 0);
    for (uint64_t i = 0; i < len; ++i)
    {
        s[i] = static_cast<char>(1 + pbt::mix(seed * 7919ULL + i) % 255);
    }
    return s;
}
S brief(const S& s)
{
    std::ostringstream o;
    o << s.size() << " bytes, hash " << (std::hash<S>{}(s) & 0xffff);
    return o.str();
}

// ------------------------------------------------------------------------------------------------- channels
struct Uds
{
    using T = UnixDomainSocket;
    static constexpr const char* NAME = "unix domain socket";
    static constexpr bool ONE_WAY = true;
    static constexpr bool HAS_TRY = false;
    static constexpr bool SECOND_SERVER = false;
    static constexpr uint64_t LIMIT = UnixDomainSocket::MAX_MESSAGE_SIZE;
    static constexpr uint64_t MAX_NAME = MAX_IPC_CHANNEL_NAME_LENGTH; // "/tmp/" fits besides
    using Name = PosixIpcChannelName_t;
    static auto build(const Name& n, PosixIpcChannelSide side, uint64_t size, uint64_t num)
    {
        return UnixDomainSocketBuilder().name(n).channelSide(side).maxMsgSize(size).maxMsgNumber(num).create();
    }
    static uint64_t maxChars(uint64_t size)
    {
        return size;
    }
    /// that many messages fit at least and at most
    static std::pair<uint64_t, uint64_t> room(uint64_t)
    {
        return {6, 1000};
    }
    static bool exists(const S& n)
    {
        struct stat st;
        return stat(("/tmp/" + n).c_str(), &st) == 0;
    }
};
struct Pipe
{
    using T = NamedPipe;
    static constexpr const char* NAME = "named pipe";
    static constexpr bool ONE_WAY = false;
    static constexpr bool HAS_TRY = true;
    static constexpr bool SECOND_SERVER = true;
    static constexpr uint64_t LIMIT = NamedPipe::MAX_MESSAGE_SIZE;
    static constexpr uint64_t MAX_NAME = MAX_IPC_CHANNEL_NAME_LENGTH - 7; // "iox_np_"
    using Name = PosixIpcChannelName_t;
    static auto build(const Name& n, PosixIpcChannelSide side, uint64_t size, uint64_t num)
    {
        return NamedPipeBuilder().name(n).channelSide(side).maxMsgSize(size).maxMsgNumber(num).create();
    }
    static uint64_t maxChars(uint64_t)
    {
        return LIMIT; // the size given to the builder only reserves; every message up to the maximum is carried
    }
    static std::pair<uint64_t, uint64_t> room(uint64_t num)
    {
        return {num, num};
    }
    static bool exists(const S& n)
    {
        struct stat st;
        return stat(("/dev/shm/iox_np_" + n).c_str(), &st) == 0;
    }
};
struct Mq
{
    using T = MessageQueue;
    static constexpr const char* NAME = "message queue";
    static constexpr bool ONE_WAY = false;
    static constexpr bool HAS_TRY = false;
    static constexpr bool SECOND_SERVER = false;
    static constexpr uint64_t LIMIT = MessageQueue::MAX_MESSAGE_SIZE;
    static constexpr uint64_t MAX_NAME = MAX_IPC_CHANNEL_NAME_LENGTH - 1; // "/"
    using Name = PosixIpcChannelName_t;
    static auto build(const Name& n, PosixIpcChannelSide side, uint64_t size, uint64_t num)
    {
        return MessageQueueBuilder().name(n).channelSide(side).maxMsgSize(size).maxMsgNumber(num).create();
    }
    static uint64_t maxChars(uint64_t size)
    {
        return size - 1; // the terminating NUL is part of the message
    }
    static std::pair<uint64_t, uint64_t> room(uint64_t num)
    {
        return {num, num};
    }
    static bool exists(const S& n)
    {
        const mqd_t q = mq_open(("/" + n).c_str(), O_RDONLY);
        if (q != static_cast<mqd_t>(-1))
        {
            mq_close(q);
            return true;
        }
        return false;
    }
};

bool mqAvailable()
{
    static const bool ok = [] {
        const S n = "/" + tag() + "_probe";
        mq_attr a{};
        a.mq_maxmsg = 4;
        a.mq_msgsize = 64;
        const mqd_t q = mq_open(n.c_str(), O_RDWR | O_CREAT, 0600, &a);
        if (q == static_cast<mqd_t>(-1))
        {
            return false;
        }
        mq_close(q);
        mq_unlink(n.c_str());
        return true;
    }();
    return ok;
}

template <typename Ch>
struct ChannelTest
{
    using T = typename Ch::T;
    using Name = typename Ch::Name;
    struct Queue
    {
        uint64_t size{0};
        uint64_t num{0};
        bool open{true}; // the side that owns it still exists
        std::deque<S> messages;
        uint32_t handles{0};
    };
    struct Slot
    {
        std::unique_ptr<T> obj;
        bool server{false};
        bool owner{false};
        uint32_t name{0};
        uint64_t size{0};
        std::shared_ptr<Queue> q; // empty: moved from
    };

    Case& c;
    std::array<S, 3> names;
    std::map<uint32_t, std::shared_ptr<Queue>> bound; // what a new client would find
    std::array<Slot, 5> slots;
    uint32_t sent{0}, received{0};

    explicit ChannelTest(Case& cc)
        : c(cc)
    {
        const S t = tag();
        names = {t + "_a", t + "_b", t + "_" + S(Ch::MAX_NAME - t.size() - 1, 'x')};
    }
    Name given(uint32_t n)
    {
        // a leading slash belongs to the syntax of these two
        if (!std::is_same<Ch, Uds>::value && names[n].size() < 90 && c.chance(1, 3))
        {
            return str<Name::capacity()>("/" + names[n]);
        }
        return str<Name::capacity()>(names[n]);
    }
    std::vector<uint32_t> live(bool forSend)
    {
        std::vector<uint32_t> r;
        for (uint32_t i = 0; i < slots.size(); ++i)
        {
            auto& s = slots[i];
            if (s.obj && s.q && !(std::is_same<Ch, Pipe>::value && !s.q->open)
                && !(Ch::ONE_WAY && s.server == forSend))
            {
                r.push_back(i);
            }
        }
        return r;
    }
    void drop(Slot& s)
    {
        if (s.obj)
        {
            s.obj.reset();
            if (s.q)
            {
                --s.q->handles;
                if (s.owner)
                {
                    s.q->open = false;
                    auto it = bound.find(s.name);
                    if (it != bound.end())
                    {
                        bound.erase(it);
                    }
                }
            }
            s = Slot();
        }
    }
    bool serverAlive(uint32_t n)
    {
        for (auto& s : slots)
        {
            if (s.obj && s.q && s.owner && s.name == n)
            {
                return true;
            }
        }
        return false;
    }
    void create()
    {
        auto& s = slots[c.draw(slots.size())];
        if (s.obj)
        {
            drop(s);
        }
        const uint32_t n = c.weighted({5, 2, 1});
        const bool there = bound.count(n) != 0;
        const bool server = there ? c.chance(1, 6) : c.chance(9, 10);
        if (server && serverAlive(n) && !(Ch::SECOND_SERVER && there))
        {
            return;
        }
        uint64_t size = c.chance(1, 2) ? Ch::LIMIT : c.range(8, 200);
        uint64_t num = c.range(1, 10);
        if (!server)
        {
            // both sides have to agree
            size = there ? bound[n]->size : size;
            num = there ? bound[n]->num : num;
        }
        else if (c.chance(1, 4))
        {
            leftover(n);
        }
        auto r = Ch::build(given(n), server ? PosixIpcChannelSide::SERVER : PosixIpcChannelSide::CLIENT, size, num);
        c.log("create %s %u (size %lu, number %lu): %s", server ? "server" : "client", n, size, num, r.has_value() ? "ok" : "error");
        if (!server && !there)
        {
            PBT_CHECK(c, r.has_error(), "client-without-server", "%s: a client was created although there is no server", Ch::NAME);
            PBT_CHECK(c,
                      r.error() == PosixIpcChannelError::NO_SUCH_CHANNEL,
                      "client-error",
                      "%s: a client without server got error %u",
                      Ch::NAME,
                      static_cast<unsigned>(r.error()));
            return;
        }
        PBT_CHECK(c,
                  r.has_value(),
                  "create-refused",
                  "%s: creating a %s failed with error %u",
                  Ch::NAME,
                  server ? "server" : "client",
                  r.has_error() ? static_cast<unsigned>(r.error()) : 0U);
        s.obj = std::make_unique<T>(std::move(r.value()));
        s.server = server;
        s.name = n;
        s.size = size;
        if (server && !there)
        {
            s.owner = true;
            s.q = std::make_shared<Queue>();
            s.q->size = size;
            s.q->num = num;
            bound[n] = s.q;
        }
        else
        {
            s.q = bound[n];
        }
        ++s.q->handles;
    }
    /// what a server that was killed leaves behind
    void leftover(uint32_t n)
    {
        if (bound.count(n) != 0 || serverAlive(n))
        {
            return;
        }
        if (std::is_same<Ch, Uds>::value)
        {
            close(open(("/tmp/" + names[n]).c_str(), O_CREAT | O_RDWR, 0600));
        }
        else if (std::is_same<Ch, Mq>::value)
        {
            mq_attr a{};
            a.mq_maxmsg = 2;
            a.mq_msgsize = 16;
            const mqd_t q = mq_open(("/" + names[n]).c_str(), O_RDWR | O_CREAT, 0600, &a);
            if (q != static_cast<mqd_t>(-1))
            {
                mq_send(q, "old", 4, 1);
                mq_close(q);
            }
        }
    }
    void refused()
    {
        const auto side = c.chance(1, 2) ? PosixIpcChannelSide::SERVER : PosixIpcChannelSide::CLIENT;
        const uint32_t what = c.draw(std::is_same<Ch, Mq>::value ? 3 : 4);
        Name n = str<Name::capacity()>(tag() + "_no");
        uint64_t size = 64;
        uint64_t num = 2;
        switch (what)
        {
        case 0:
            n = "";
            break;
        case 1: // too long together with the prefix
            n = str<Name::capacity()>(tag() + "_" + S(Name::capacity(), 'y'));
            if (n.size() <= Ch::MAX_NAME)
            {
                return;
            }
            {
                const uint64_t len = c.range(static_cast<uint32_t>(Ch::MAX_NAME) + 1, static_cast<uint32_t>(Name::capacity()));
                n = str<Name::capacity()>(S(n.c_str()).substr(0, len));
            }
            break;
        case 2:
            size = Ch::LIMIT + c.range(1, 10);
            break;
        default:
            n = str<Name::capacity()>(tag() + c.of<S>({"_b?d", "_b*d", "_b d/", "/", "_\x01"}));
            break;
        }
        auto r = Ch::build(n, side, size, num);
        c.log("create with bad argument %u, \"%s\": %s", what, n.c_str(), r.has_value() ? "ok" : "error");
        PBT_CHECK(c, r.has_error(), "bad-argument", "%s: created although the name \"%s\" or the size %lu is not valid", Ch::NAME, n.c_str(), size);
        if (what == 2)
        {
            PBT_CHECK(c,
                      r.error() == PosixIpcChannelError::MAX_MESSAGE_SIZE_EXCEEDED,
                      "bad-argument-error",
                      "%s: error %u for a size above the maximum",
                      Ch::NAME,
                      static_cast<unsigned>(r.error()));
        }
        else
        {
            PBT_CHECK(c,
                      r.error() == PosixIpcChannelError::INVALID_CHANNEL_NAME,
                      "bad-argument-error",
                      "%s: error %u for an invalid name",
                      Ch::NAME,
                      static_cast<unsigned>(r.error()));
            auto u = T::unlinkIfExists(n);
            PBT_CHECK(c, u.has_error() || !*u, "bad-name-unlinked", "%s: something was removed under an invalid name", Ch::NAME);
        }
    }
    void unlinkName()
    {
        const uint32_t n = c.draw(3);
        const bool there = bound.count(n) != 0;
        auto r = T::unlinkIfExists(given(n));
        c.log("unlink %u: %s", n, r.has_error() ? "error" : *r ? "removed" : "not there");
        PBT_CHECK(c, r.has_value(), "unlink-error", "%s: unlinkIfExists failed", Ch::NAME);
        PBT_CHECK(c, *r == there, "unlink-wrong", "%s: unlinkIfExists says %d, it was %sthere", Ch::NAME, *r, there ? "" : "not ");
        bound.erase(n);
    }
    template <typename R>
    void judgeSend(const R& r, Slot& s, const S& m, bool mustFit, bool canFit, const char* how)
    {
        c.log("slot %ld %s %s: %s", &s - &slots[0], how, brief(m).c_str(), r.has_value() ? "ok" : "error");
        const bool tooLong = m.size() > Ch::maxChars(s.size);
        if (tooLong)
        {
            PBT_CHECK(c, r.has_error(), "too-long-sent", "%s: %s took a message of %zu characters", Ch::NAME, how, m.size());
            PBT_CHECK(c,
                      r.error() == PosixIpcChannelError::MESSAGE_TOO_LONG,
                      "too-long-error",
                      "%s: error %u for a message that is too long",
                      Ch::NAME,
                      static_cast<unsigned>(r.error()));
            return;
        }
        if (!s.q->open && Ch::ONE_WAY)
        {
            PBT_CHECK(c, r.has_error(), "sent-to-nobody", "%s: %s succeeded although the server is gone", Ch::NAME, how);
            return;
        }
        if (mustFit)
        {
            PBT_CHECK(c, r.has_value(), "send-refused", "%s: %s failed with %u although there is room (%zu of %lu)", Ch::NAME, how,
                      r.has_error() ? static_cast<unsigned>(r.error()) : 0U, s.q->messages.size(), s.q->num);
        }
        else if (!canFit)
        {
            PBT_CHECK(c, r.has_error(), "send-beyond", "%s: %s succeeded although the channel is full", Ch::NAME, how);
        }
        if (r.has_error())
        {
            PBT_CHECK(c,
                      r.error() == PosixIpcChannelError::TIMEOUT,
                      "full-error",
                      "%s: error %u when the channel is full",
                      Ch::NAME,
                      static_cast<unsigned>(r.error()));
            return;
        }
        s.q->messages.push_back(m);
        ++sent;
    }
    Duration shortTime()
    {
        switch (c.draw(4))
        {
        case 0:
            return Duration::fromNanoseconds(c.range(1, 999));
        case 1:
            return Duration::fromMicroseconds(c.range(1, 50));
        default:
            return Duration::fromMicroseconds(c.range(100, 1500));
        }
    }
    Duration longTime()
    {
        return c.chance(1, 6) ? Duration::max() : Duration::fromSeconds(c.range(5, 1000));
    }
    void send()
    {
        auto l = live(true);
        if (l.empty())
        {
            return;
        }
        auto& s = slots[c.pick(l)];
        auto& q = *s.q;
        const S m = message(c, Ch::maxChars(s.size));
        const bool mustFit = q.messages.size() < Ch::room(q.num).first;
        const bool canFit = q.messages.size() < Ch::room(q.num).second;
        const bool tooLong = m.size() > Ch::maxChars(s.size);
        const bool fixed = c.chance(1, 2) && m.size() <= Ch::LIMIT;
        auto f = std::make_unique<string<Ch::LIMIT>>();
        *f = str<Ch::LIMIT>(m);
        const bool mayBlock = mustFit || tooLong || (Ch::ONE_WAY && !q.open);
        const uint32_t how = c.draw(Ch::HAS_TRY ? 3 : 2);
        if (how == 0 && mayBlock)
        {
            judgeSend(fixed ? s.obj->send(*f) : s.obj->send(m), s, m, mustFit, canFit, "send");
        }
        else if (how == 2)
        {
            if constexpr (Ch::HAS_TRY)
            {
                judgeSend(fixed ? s.obj->trySend(*f) : s.obj->trySend(m), s, m, mustFit, canFit, "trySend");
            }
        }
        else
        {
            const Duration t = mustFit ? longTime() : shortTime();
            judgeSend(fixed ? s.obj->timedSend(*f, t) : s.obj->timedSend(m, t), s, m, mustFit, canFit, "timedSend");
        }
    }
    void judgeReceive(Slot& s, bool ok, PosixIpcChannelError e, const S& got, const char* how)
    {
        auto& q = *s.q;
        c.log("slot %ld %s: %s", &s - &slots[0], how, ok ? brief(got).c_str() : "error");
        if (q.messages.empty())
        {
            PBT_CHECK(c, !ok, "received-from-empty", "%s: %s returned \"%s\" from an empty channel", Ch::NAME, how, brief(got).c_str());
            PBT_CHECK(c, e == PosixIpcChannelError::TIMEOUT, "empty-error", "%s: error %u from an empty channel", Ch::NAME, static_cast<unsigned>(e));
            return;
        }
        PBT_CHECK(c, ok, "receive-failed", "%s: %s failed with error %u although %zu messages wait", Ch::NAME, how, static_cast<unsigned>(e), q.messages.size());
        PBT_CHECK(c, got == q.messages.front(), "wrong-message", "%s: %s returned %s, expected %s", Ch::NAME, how, brief(got).c_str(), brief(q.messages.front()).c_str());
        q.messages.pop_front();
        ++received;
    }
    void receive()
    {
        auto l = live(false);
        if (l.empty())
        {
            return;
        }
        auto& s = slots[c.pick(l)];
        const bool any = !s.q->messages.empty();
        if (std::is_same<Ch, Uds>::value && !any && !c.chance(1, 5))
        {
            return; // a time-out of a socket takes several milliseconds
        }
        const bool fixed = c.chance(1, 2);
        const uint32_t how = c.draw(Ch::HAS_TRY ? 3 : 2);
        const bool tryIt = how == 2;
        const bool blocking = how == 0 && any;
        const Duration t = any ? longTime() : shortTime();
        if (fixed)
        {
            auto f = std::make_unique<string<Ch::LIMIT>>();
            *f = "something else";
            expected<void, PosixIpcChannelError> r = err(PosixIpcChannelError::UNDEFINED);
            if constexpr (Ch::HAS_TRY)
            {
                r = tryIt ? s.obj->tryReceive(*f) : blocking ? s.obj->receive(*f) : s.obj->timedReceive(*f, t);
            }
            else
            {
                r = blocking ? s.obj->receive(*f) : s.obj->timedReceive(*f, t);
            }
            judgeReceive(s,
                         r.has_value(),
                         r.has_error() ? r.error() : PosixIpcChannelError::UNDEFINED,
                         S(f->c_str(), f->size()),
                         tryIt ? "tryReceive(string)" : blocking ? "receive(string)" : "timedReceive(string)");
        }
        else
        {
            expected<S, PosixIpcChannelError> r = err(PosixIpcChannelError::UNDEFINED);
            if constexpr (Ch::HAS_TRY)
            {
                r = tryIt ? s.obj->tryReceive() : blocking ? s.obj->receive() : s.obj->timedReceive(t);
            }
            else
            {
                r = blocking ? s.obj->receive() : s.obj->timedReceive(t);
            }
            judgeReceive(s,
                         r.has_value(),
                         r.has_error() ? r.error() : PosixIpcChannelError::UNDEFINED,
                         r.has_value() ? r.value() : S(),
                         tryIt ? "tryReceive" : blocking ? "receive" : "timedReceive");
        }
    }
    /// the other direction of a one-way channel, a buffer that is too small, datagrams of somebody else
    void special()
    {
        if constexpr (std::is_same<Ch, Uds>::value)
        {
            auto wrong = live(c.chance(1, 2) ? true : false);
            (void)wrong;
            switch (c.draw(3))
            {
            case 0:
            {
                auto servers = live(false);
                if (!servers.empty())
                {
                    auto& s = slots[c.pick(servers)];
                    PBT_CHECK(c, s.obj->send(S("x")).has_error(), "server-sent", "a server socket could send");
                }
                auto clients = live(true);
                if (!clients.empty())
                {
                    auto& s = slots[c.pick(clients)];
                    PBT_CHECK(c, s.obj->timedReceive(shortTime()).has_error(), "client-received", "a client socket could receive");
                }
                break;
            }
            case 1:
            {
                auto servers = live(false);
                if (!servers.empty())
                {
                    auto& s = slots[c.pick(servers)];
                    if (!s.q->messages.empty())
                    {
                        string<10> small;
                        auto r = s.obj->timedReceive(small, Duration::fromSeconds(5));
                        const S m = s.q->messages.front();
                        s.q->messages.pop_front();
                        c.log("receive %s into 10 characters: %s", brief(m).c_str(), r.has_value() ? "ok" : "error");
                        PBT_CHECK(c, r.has_value() == (m.size() <= 10), "small-buffer", "a message of %zu characters into 10: %s", m.size(), r.has_value() ? "ok" : "error");
                        PBT_CHECK(c, small.size() <= 10 && (r.has_error() || S(small.c_str()) == m), "small-buffer-content", "wrong content");
                    }
                }
                break;
            }
            default:
                raw();
                break;
            }
        }
        else if constexpr (std::is_same<Ch, Mq>::value)
        {
            raw();
        }
    }
    void raw()
    {
        auto l = live(false);
        if (l.empty())
        {
            return;
        }
        auto& s = slots[c.pick(l)];
        auto it = bound.find(s.name);
        if (!s.q->messages.empty() || it == bound.end() || it->second != s.q)
        {
            return;
        }
        S bytes;
        switch (c.draw(4))
        {
        case 0:
            break;
        case 1:
            bytes = S(1, '\0');
            break;
        default:
            for (uint32_t i = c.range(1, 14); i > 0; --i)
            {
                bytes.push_back(static_cast<char>(c.draw(256)));
            }
            break;
        }
        bool delivered = false;
        if constexpr (std::is_same<Ch, Uds>::value)
        {
            const int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            const S path = "/tmp/" + names[s.name];
            memcpy(a.sun_path, path.c_str(), path.size());
            delivered = sendto(fd, bytes.data(), bytes.size(), MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == static_cast<ssize_t>(bytes.size());
            close(fd);
        }
        else
        {
            if (bytes.size() > s.q->size)
            {
                return;
            }
            const mqd_t q = mq_open(("/" + names[s.name]).c_str(), O_WRONLY | O_NONBLOCK);
            delivered = q != static_cast<mqd_t>(-1) && mq_send(q, bytes.data(), bytes.size(), 1) == 0;
            if (q != static_cast<mqd_t>(-1))
            {
                mq_close(q);
            }
        }
        if (!delivered)
        {
            return;
        }
        c.count("foreign datagrams");
        const bool valid = !bytes.empty() && bytes.back() == 0;
        const S text = valid ? bytes.substr(0, bytes.size() - 1) : S();
        const bool plain = text.find('\0') == S::npos;
        auto f = std::make_unique<string<Ch::LIMIT>>();
        bool ok;
        S got;
        if (c.chance(1, 2))
        {
            ok = s.obj->timedReceive(*f, Duration::fromSeconds(5)).has_value();
            got = S(f->c_str(), f->size());
            PBT_CHECK(c, f->size() <= Ch::LIMIT, "foreign-size", "%s: a string of size %lu was received", Ch::NAME, f->size());
        }
        else
        {
            auto r = s.obj->timedReceive(Duration::fromSeconds(5));
            ok = r.has_value();
            got = ok ? r.value() : S();
        }
        c.log("foreign datagram of %zu bytes: %s", bytes.size(), ok ? "ok" : "error");
        PBT_CHECK(c, ok == valid, "foreign-verdict", "%s: %zu bytes that %s with NUL: %s", Ch::NAME, bytes.size(), valid ? "end" : "do not end", ok ? "accepted" : "refused");
        if (ok && plain)
        {
            PBT_CHECK(c, got == text, "foreign-content", "%s: other content received than sent", Ch::NAME);
        }
    }
    void moveIt()
    {
        const uint32_t a = c.draw(slots.size());
        const uint32_t b = c.draw(slots.size());
        auto& x = slots[a];
        auto& y = slots[b];
        if (a == b || !x.obj || !x.q)
        {
            return;
        }
        c.log("move %u to %u", a, b);
        if (y.obj)
        {
            // the assignment drops what the target was
            if (y.q)
            {
                --y.q->handles;
                if (y.owner)
                {
                    y.q->open = false;
                    bound.erase(y.name);
                }
            }
            *y.obj = std::move(*x.obj);
        }
        else
        {
            y.obj = std::make_unique<T>(std::move(*x.obj));
        }
        y.server = x.server;
        y.owner = x.owner;
        y.name = x.name;
        y.size = x.size;
        y.q = x.q;
        x.q.reset();
        x.owner = false;
        if (c.chance(1, 2))
        {
            x.obj.reset();
            x = Slot();
        }
    }
    void run()
    {
        const uint32_t n = c.range(5, 60);
        for (uint32_t i = 0; i < n; ++i)
        {
            switch (c.weighted({5, 12, 9, 1, 2, 1, 1, 1}))
            {
            case 0:
                create();
                break;
            case 1:
                send();
                break;
            case 2:
                receive();
                break;
            case 3:
                unlinkName();
                break;
            case 4:
                drop(slots[c.draw(slots.size())]);
                break;
            case 5:
                moveIt();
                break;
            case 6:
                refused();
                break;
            default:
                special();
                break;
            }
        }
    }
};

template <typename Ch>
void channel(Case& c)
{
    if (std::is_same<Ch, Mq>::value && !mqAvailable())
    {
        c.discard("no message queues here");
        return;
    }
    const size_t fds = openFds();
    std::set<S> names;
    {
        ChannelTest<Ch> t(c);
        for (auto& n : t.names)
        {
            names.insert(n);
            unlink(("/tmp/" + n).c_str());
            shm_unlink(("/iox_np_" + n).c_str());
            mq_unlink(("/" + n).c_str());
        }
        t.run();
        if (t.sent >= 3 && t.received >= 2)
        {
            c.nontrivial();
        }
        for (uint32_t i = 0; i < 3; ++i)
        {
            if (t.bound.count(i) != 0)
            {
                PBT_CHECK(c, Ch::exists(t.names[i]), "vanished", "%s: the channel of a living server is gone", Ch::NAME);
            }
        }
        for (auto& s : t.slots)
        {
            t.drop(s);
        }
        for (auto& n : names)
        {
            PBT_CHECK(c, !Ch::exists(n), "left-behind", "%s: destroyed, but still there", Ch::NAME);
        }
    }
    PBT_CHECK(c, openFds() == fds, "fd-leak", "%s: %zu file descriptors before, %zu afterwards", Ch::NAME, fds, openFds());
}

/// several senders and one receiver: nothing is lost, duplicated or overtakes within one sender
void udsThreads(Case& c)
{
    const S name = tag() + "_t";
    const uint32_t senders = c.range(1, 4);
    const uint32_t each = c.range(5, 40);
    auto server = UnixDomainSocketBuilder().name(str<100>(name)).channelSide(PosixIpcChannelSide::SERVER).create();
    PBT_CHECK(c, server.has_value(), "create-refused", "no server");
    std::vector<std::thread> threads;
    std::atomic<uint32_t> failed{0};
    for (uint32_t i = 0; i < senders; ++i)
    {
        const uint64_t seed = c.draw(1000);
        threads.emplace_back([&, i, seed] {
            auto cl = UnixDomainSocketBuilder().name(str<100>(name)).channelSide(PosixIpcChannelSide::CLIENT).create();
            if (cl.has_error())
            {
                ++failed;
                return;
            }
            for (uint32_t k = 0; k < each; ++k)
            {
                const S m = std::to_string(i) + "," + std::to_string(k) + "," + S(pbt::mix(seed + k) % 300, 'm');
                if (((k + seed) % 3 == 0 ? cl->timedSend(m, Duration::fromSeconds(20)) : cl->send(m)).has_error())
                {
                    ++failed;
                }
            }
        });
    }
    std::vector<uint32_t> next(senders, 0);
    S problem;
    for (uint32_t k = 0; k < senders * each && problem.empty(); ++k)
    {
        auto r = server->timedReceive(Duration::fromSeconds(20));
        if (r.has_error())
        {
            problem = "a message is missing";
            break;
        }
        unsigned i = 0, n = 0;
        if (sscanf(r->c_str(), "%u,%u,", &i, &n) != 2 || i >= senders || n != next[i])
        {
            problem = "unexpected message " + r->substr(0, 20);
            break;
        }
        ++next[i];
    }
    if (!problem.empty())
    {
        // let the senders finish
        { UnixDomainSocket gone(std::move(*server)); }
    }
    for (auto& t : threads)
    {
        t.join();
    }
    PBT_CHECK(c, problem.empty(), "threads", "%s", problem.c_str());
    PBT_CHECK(c, failed == 0, "threads-send", "%u sends failed", failed.load());
    c.nontrivial();
}

// ------------------------------------------------------------------------------------------- shared memory
struct Region
{
    uint64_t size{0};
    mode_t mode{0};
    std::vector<uint8_t> bytes;
};
struct ShmSlot
{
    std::unique_ptr<PosixSharedMemoryObject> obj;
    std::shared_ptr<Region> r;
    bool owner{false};
    bool writable{false};
    uint32_t name{0};
};
S protectionOf(const void* p)
{
    std::ifstream f("/proc/self/maps");
    S line;
    while (std::getline(f, line))
    {
        unsigned long a = 0, b = 0;
        char perm[8] = {};
        if (sscanf(line.c_str(), "%lx-%lx %7s", &a, &b, perm) == 3 && reinterpret_cast<uintptr_t>(p) >= a && reinterpret_cast<uintptr_t>(p) < b)
        {
            return perm;
        }
    }
    return "";
}

void shm(Case& c)
{
    const size_t fds = openFds();
    std::array<S, 3> names;
    for (uint32_t i = 0; i < 3; ++i)
    {
        names[i] = tag() + "_s" + std::to_string(i);
        shm_unlink(("/" + names[i]).c_str());
    }
    {
        std::map<uint32_t, std::shared_ptr<Region>> bound;
        std::map<uint32_t, bool> leftover;
        std::array<ShmSlot, 5> slots;
        uint32_t opened{0}, writes{0};
        auto verify = [&](ShmSlot& s) {
            const uint8_t* p = static_cast<const uint8_t*>(const_cast<const PosixSharedMemoryObject&>(*s.obj).getBaseAddress());
            PBT_CHECK(c, p != nullptr, "null", "no base address");
            for (uint64_t i = 0; i < s.r->size; ++i)
            {
                PBT_CHECK(c, p[i] == s.r->bytes[i], "content", "byte %lu of %lu is %u, expected %u", i, s.r->size, p[i], s.r->bytes[i]);
            }
        };
        auto ownerAlive = [&](uint32_t n) {
            for (auto& s : slots)
            {
                if (s.obj && s.r && s.owner && s.name == n)
                {
                    return true;
                }
            }
            return false;
        };
        auto drop = [&](ShmSlot& s) {
            if (s.obj)
            {
                s.obj.reset();
                if (s.r && s.owner)
                {
                    bound.erase(s.name);
                }
                s = ShmSlot();
            }
        };
        const uint32_t n = c.range(5, 50);
        for (uint32_t step = 0; step < n; ++step)
        {
            auto& s = slots[c.draw(slots.size())];
            switch (c.weighted({8, 8, 5, 3, 2, 2, 2, 1}))
            {
            case 0:
            {
                drop(s);
                const uint32_t k = c.draw(3);
                const auto mode = c.of<OpenMode>({OpenMode::ExclusiveCreate, OpenMode::PurgeAndCreate, OpenMode::OpenOrCreate, OpenMode::OpenExisting});
                const auto access = c.chance(1, 3) ? AccessMode::ReadOnly : AccessMode::ReadWrite;
                if (mode == OpenMode::PurgeAndCreate && access == AccessMode::ReadWrite && ownerAlive(k))
                {
                    break; // two owners of one name: not specified
                }
                const bool there = bound.count(k) != 0;
                uint64_t size = c.chance(1, 10) ? 0 : c.chance(1, 8) ? (1ULL << 63) + c.range(0, 5000) : c.chance(1, 4) ? 4096 * c.range(1, 3) : c.range(1, 6000);
                if (there && c.chance(1, 3))
                {
                    size = bound[k]->size + c.range(0, 2) - 1;
                }
                const mode_t perm = static_cast<mode_t>(c.draw(512)) | 0600;
                auto r = PosixSharedMemoryObjectBuilder()
                             .name(str<64>(names[k]))
                             .memorySizeInBytes(size)
                             .accessMode(access)
                             .openMode(mode)
                             .permissions(access_rights::from_value_sanitized(static_cast<access_rights::value_type>(perm)))
                             .create();
                c.log("open shm %u mode %u access %u size %lu: %s (there: %d)", k, static_cast<unsigned>(mode), static_cast<unsigned>(access), size, r.has_value() ? "ok" : "error", there);
                const bool creating = mode != OpenMode::OpenExisting;
                const bool fresh = mode == OpenMode::PurgeAndCreate || (!there && creating);
                bool expectOk;
                if (creating && access == AccessMode::ReadOnly)
                {
                    expectOk = false;
                }
                else if (fresh)
                {
                    expectOk = size > 0 && size < (1ULL << 60);
                    if (mode == OpenMode::PurgeAndCreate)
                    {
                        bound.erase(k);
                    }
                }
                else if (mode == OpenMode::ExclusiveCreate || !there)
                {
                    expectOk = false;
                }
                else
                {
                    expectOk = size <= bound[k]->size;
                }
                PBT_CHECK(c, r.has_value() == expectOk, "open-verdict", "shared memory: mode %u access %u size %lu, the name %s: %s", static_cast<unsigned>(mode), static_cast<unsigned>(access), size, there ? "exists" : "does not exist", r.has_value() ? "ok" : "error");
                if (!expectOk)
                {
                    break;
                }
                ++opened;
                s.obj = std::make_unique<PosixSharedMemoryObject>(std::move(r.value()));
                s.name = k;
                s.writable = access == AccessMode::ReadWrite;
                s.owner = fresh;
                if (fresh)
                {
                    s.r = std::make_shared<Region>();
                    s.r->size = size;
                    s.r->mode = perm;
                    s.r->bytes.assign(size, 0);
                    bound[k] = s.r;
                }
                else
                {
                    s.r = bound[k];
                }
                PBT_CHECK(c, s.obj->hasOwnership() == s.owner, "ownership", "hasOwnership says %d, expected %d", s.obj->hasOwnership(), s.owner);
                const S prot = protectionOf(s.obj->getBaseAddress());
                PBT_CHECK(c, prot.substr(0, 4) == (s.writable ? "rw-s" : "r--s"), "protection", "mapped %s", prot.c_str());
                break;
            }
            case 1:
                if (s.obj && s.r && s.writable)
                {
                    const uint64_t at = c.draw(s.r->size);
                    const uint64_t len = std::min<uint64_t>(s.r->size - at, c.chance(1, 5) ? s.r->size : c.range(1, 64));
                    const uint32_t seed = c.draw(1000);
                    auto* p = static_cast<uint8_t*>(s.obj->getBaseAddress());
                    for (uint64_t i = 0; i < len; ++i)
                    {
                        p[at + i] = s.r->bytes[at + i] = static_cast<uint8_t>(pbt::mix(seed + i));
                    }
                    ++writes;
                }
                break;
            case 2:
                if (s.obj && s.r)
                {
                    verify(s);
                }
                break;
            case 3:
                if (s.obj)
                {
                    c.log("drop");
                    drop(s);
                }
                break;
            case 4:
            {
                auto& t = slots[c.draw(slots.size())];
                if (&t != &s && s.obj && s.r)
                {
                    c.log("move");
                    if (t.obj)
                    {
                        if (t.r && t.owner)
                        {
                            bound.erase(t.name);
                        }
                        *t.obj = std::move(*s.obj);
                    }
                    else
                    {
                        t.obj = std::make_unique<PosixSharedMemoryObject>(std::move(*s.obj));
                    }
                    t.r = s.r;
                    t.owner = s.owner;
                    t.writable = s.writable;
                    t.name = s.name;
                    s.r.reset();
                    s.owner = false;
                    if (c.chance(1, 2))
                    {
                        drop(s);
                    }
                    verify(t);
                    PBT_CHECK(c, t.obj->hasOwnership() == t.owner, "ownership-moved", "hasOwnership says %d after a move", t.obj->hasOwnership());
                }
                break;
            }
            case 5:
                if (s.obj && s.r)
                {
                    auto size = s.obj->get_size();
                    auto perm = s.obj->get_permissions();
                    PBT_CHECK(c, size.has_value() && *size == s.r->size, "size", "get_size: %lu, expected %lu", size.has_value() ? *size : 0, s.r->size);
                    PBT_CHECK(c, perm.has_value() && perm->value() == s.r->mode, "permissions", "permissions %o, expected %o", perm.has_value() ? perm->value() : 0, s.r->mode);
                }
                break;
            case 6: // somebody who crashed left a memory behind
            {
                const uint32_t k = c.draw(3);
                if (bound.count(k) == 0 && !ownerAlive(k))
                {
                    const int fd = shm_open(("/" + names[k]).c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
                    auto r = std::make_shared<Region>();
                    r->size = c.range(1, 5000);
                    r->mode = 0600;
                    r->bytes.assign(r->size, 0xAB);
                    const bool ok = fd >= 0 && write(fd, r->bytes.data(), r->size) == static_cast<ssize_t>(r->size);
                    close(fd);
                    PBT_CHECK(c, ok, "leftover", "the harness could not create a memory: the name exists although nothing is open");
                    c.log("leftover %u size %lu", k, r->size);
                    bound[k] = r;
                }
                break;
            }
            default:
            {
                const S bad = c.of<S>({"", "a/b", ".", "..", "x y?", "a*b"});
                auto r = PosixSharedMemoryObjectBuilder().name(str<64>(bad)).memorySizeInBytes(64).accessMode(AccessMode::ReadWrite).openMode(OpenMode::ExclusiveCreate).permissions(perms::owner_all).create();
                PBT_CHECK(c, r.has_error(), "bad-name", "shared memory with the name \"%s\" was created", bad.c_str());
                break;
            }
            }
        }
        for (auto& s : slots)
        {
            if (s.obj && s.r)
            {
                verify(s);
            }
        }
        if (opened >= 2 && writes >= 1)
        {
            c.nontrivial();
        }
        for (auto& s : slots)
        {
            drop(s);
        }
        for (uint32_t k = 0; k < 3; ++k)
        {
            struct stat st;
            const bool there = stat(("/dev/shm/" + names[k]).c_str(), &st) == 0;
            PBT_CHECK(c, there == (bound.count(k) != 0), "exists", "shared memory %s at the end", there ? "left behind" : "lost");
            shm_unlink(("/" + names[k]).c_str());
        }
    }
    PBT_CHECK(c, openFds() == fds, "fd-leak", "%zu file descriptors before, %zu afterwards", fds, openFds());
}

// ----------------------------------------------------------------------------------------------------- files
struct FileSlot
{
    std::unique_ptr<File> obj;
    std::shared_ptr<Region> r;
    AccessMode access{AccessMode::ReadOnly};
};

void file(Case& c)
{
    const size_t fds = openFds();
    const mode_t oldMask = umask(0);
    struct Mask
    {
        mode_t m;
        ~Mask()
        {
            umask(m);
        }
    } mask{oldMask};
    std::array<FilePath, 3> paths{*FilePath::create(str<255>(scratch() + "/f" + std::to_string(getpid()) + "a")),
                                  *FilePath::create(str<255>(scratch() + "/f" + std::to_string(getpid()) + "b.x")),
                                  *FilePath::create(str<255>(scratch() + "/f" + std::to_string(getpid()) + "c"))};
    for (auto& p : paths)
    {
        ::unlink(p.as_string().c_str());
    }
    {
        std::map<uint32_t, std::shared_ptr<Region>> bound;
        std::array<FileSlot, 4> slots;
        uint32_t reads{0}, writes{0};
        const uint32_t n = c.range(5, 60);
        for (uint32_t step = 0; step < n; ++step)
        {
            auto& s = slots[c.draw(slots.size())];
            const uint32_t k = c.draw(3);
            const bool there = bound.count(k) != 0;
            switch (c.weighted({7, 7, 7, 2, 2, 2, 1, 2}))
            {
            case 0:
            {
                s = FileSlot();
                const auto mode = c.of<OpenMode>({OpenMode::ExclusiveCreate, OpenMode::PurgeAndCreate, OpenMode::OpenOrCreate, OpenMode::OpenExisting});
                const auto access = c.of<AccessMode>({AccessMode::ReadOnly, AccessMode::ReadWrite, AccessMode::WriteOnly});
                mode_t perm = static_cast<mode_t>(c.draw(512));
                if (!c.chance(1, 5))
                {
                    perm |= 0600;
                }
                const bool viaOpen = c.chance(1, 4);
                auto b = FileBuilder().open_mode(mode).access_mode(access).permissions(access_rights::from_value_sanitized(static_cast<access_rights::value_type>(perm)));
                auto r = viaOpen ? b.open(paths[k]) : b.create(paths[k]);
                c.log("%s file %u mode %u access %u perm %o: %s", viaOpen ? "open" : "create", k, static_cast<unsigned>(mode), static_cast<unsigned>(access), perm, r.has_value() ? "ok" : "error");
                if (viaOpen && mode == OpenMode::PurgeAndCreate)
                {
                    // opening does not purge; whether that then is an error is not said
                    if (r.has_value() && !there)
                    {
                        s.r = std::make_shared<Region>();
                        s.r->mode = perm;
                        bound[k] = s.r;
                        s.obj = std::make_unique<File>(std::move(r.value()));
                        s.access = access;
                    }
                    else if (!there)
                    {
                        ::unlink(paths[k].as_string().c_str());
                    }
                    break;
                }
                const bool fresh = mode == OpenMode::PurgeAndCreate || (mode != OpenMode::OpenExisting && !there);
                const bool nameOk = fresh || (there && mode != OpenMode::ExclusiveCreate);
                const mode_t effective = fresh ? perm : there ? bound[k]->mode : 0;
                const bool rights = (access == AccessMode::WriteOnly || (effective & 0400)) && (access == AccessMode::ReadOnly || (effective & 0200));
                PBT_CHECK(c, r.has_value() == (nameOk && rights), "file-open-verdict", "file: mode %u access %u rights %o, the file %s: %s", static_cast<unsigned>(mode), static_cast<unsigned>(access), effective, there ? "exists" : "does not exist", r.has_value() ? "ok" : "error");
                if (r.has_error())
                {
                    if (!nameOk)
                    {
                        PBT_CHECK(c, r.error() == (there ? FileCreationError::AlreadyExists : FileCreationError::DoesNotExist), "file-open-error", "error %u", static_cast<unsigned>(r.error()));
                    }
                    else if (fresh)
                    {
                        // whether the file is there afterwards is not said
                        ::unlink(paths[k].as_string().c_str());
                        bound.erase(k);
                    }
                    break;
                }
                s.obj = std::make_unique<File>(std::move(r.value()));
                s.access = access;
                if (fresh)
                {
                    s.r = std::make_shared<Region>();
                    s.r->mode = perm;
                    bound[k] = s.r;
                }
                else
                {
                    s.r = bound[k];
                }
                break;
            }
            case 1:
                if (s.obj)
                {
                    const bool at = c.chance(2, 3);
                    const uint64_t off = at ? (c.chance(1, 12) ? (1ULL << 63) + c.draw(100) : c.draw(300)) : 0;
                    std::vector<uint8_t> b(c.draw(200));
                    for (auto& x : b)
                    {
                        x = static_cast<uint8_t>(c.draw(256));
                    }
                    auto r = at ? s.obj->write_at(off, b.data(), b.size()) : s.obj->write(b.data(), b.size());
                    c.log("write %zu at %lu: %s", b.size(), off, r.has_value() ? "ok" : "error");
                    if (s.access == AccessMode::ReadOnly || off >= (1ULL << 63))
                    {
                        PBT_CHECK(c, r.has_error(), "write-verdict", "writing to a read-only file or beyond all limits succeeded");
                        break;
                    }
                    PBT_CHECK(c, r.has_value() && *r == b.size(), "write-count", "wrote %lu of %zu bytes", r.has_value() ? *r : 0, b.size());
                    if (!b.empty() && s.r->bytes.size() < off + b.size())
                    {
                        s.r->bytes.resize(off + b.size(), 0);
                    }
                    std::copy(b.begin(), b.end(), s.r->bytes.begin() + static_cast<long>(b.empty() ? 0 : off));
                    ++writes;
                }
                break;
            case 2:
                if (s.obj)
                {
                    const bool at = c.chance(2, 3);
                    const uint64_t off = at ? (c.chance(1, 12) ? (1ULL << 63) + c.draw(100) : c.draw(300)) : 0;
                    std::vector<uint8_t> b(c.draw(300), 0xEE);
                    auto r = at ? s.obj->read_at(off, b.data(), b.size()) : s.obj->read(b.data(), b.size());
                    c.log("read %zu at %lu: %s", b.size(), off, r.has_value() ? "ok" : "error");
                    if (s.access == AccessMode::WriteOnly || off >= (1ULL << 63))
                    {
                        PBT_CHECK(c, r.has_error(), "read-verdict", "reading from a write-only file or beyond all limits succeeded");
                        break;
                    }
                    const uint64_t len = off >= s.r->bytes.size() ? 0 : std::min<uint64_t>(b.size(), s.r->bytes.size() - off);
                    PBT_CHECK(c, r.has_value() && *r == len, "read-count", "read %lu bytes, expected %lu", r.has_value() ? *r : 0, len);
                    for (uint64_t i = 0; i < b.size(); ++i)
                    {
                        PBT_CHECK(c, b[i] == (i < len ? s.r->bytes[off + i] : 0xEE), "read-content", "byte %lu is wrong", i);
                    }
                    ++reads;
                }
                break;
            case 3:
            {
                auto r = File::does_exist(paths[k]);
                PBT_CHECK(c, r.has_value() && *r == there, "does-exist", "does_exist is wrong");
                break;
            }
            case 4:
                if (c.chance(1, 2))
                {
                    auto r = File::remove(paths[k]);
                    c.log("remove %u", k);
                    PBT_CHECK(c, r.has_value() && *r == there, "remove", "remove says %d", r.has_value() ? *r : -1);
                    bound.erase(k);
                }
                else
                {
                    s = FileSlot();
                }
                break;
            case 5:
                if (s.obj)
                {
                    auto size = s.obj->get_size();
                    auto perm = s.obj->get_permissions();
                    PBT_CHECK(c, size.has_value() && *size == s.r->bytes.size(), "size", "get_size: %lu, expected %zu", size.has_value() ? *size : 0, s.r->bytes.size());
                    PBT_CHECK(c, perm.has_value() && perm->value() == s.r->mode, "permissions", "permissions %o, expected %o", perm.has_value() ? perm->value() : 0, s.r->mode);
                }
                break;
            case 6:
                if (s.obj)
                {
                    const mode_t perm = static_cast<mode_t>(c.draw(512));
                    c.log("set permissions %o", perm);
                    auto r = s.obj->set_permissions(access_rights::from_value_sanitized(static_cast<access_rights::value_type>(perm)));
                    PBT_CHECK(c, r.has_value(), "set-permissions", "set_permissions failed");
                    s.r->mode = perm;
                }
                break;
            default:
            {
                auto& t = slots[c.draw(slots.size())];
                if (&t != &s && s.obj)
                {
                    if (t.obj)
                    {
                        *t.obj = std::move(*s.obj);
                    }
                    else
                    {
                        t.obj = std::make_unique<File>(std::move(*s.obj));
                    }
                    t.r = s.r;
                    t.access = s.access;
                    s = FileSlot();
                }
                break;
            }
            }
        }
        // what is on disk, read independently
        for (auto& b : bound)
        {
            std::ifstream f(paths[b.first].as_string().c_str(), std::ios::binary);
            S got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            PBT_CHECK(c, got == S(b.second->bytes.begin(), b.second->bytes.end()), "disk", "file %u has other content than written", b.first);
        }
        if (reads >= 2 && writes >= 2)
        {
            c.nontrivial();
        }
    }
    for (auto& p : paths)
    {
        ::unlink(p.as_string().c_str());
    }
    PBT_CHECK(c, openFds() == fds, "fd-leak", "%zu file descriptors before, %zu afterwards", fds, openFds());
}

// ------------------------------------------------------------------------------------------------ file locks
struct Child
{
    pid_t pid{0};
    uint32_t name{0};
};
auto lockBuild(const S& path, const S& name)
{
    return FileLockBuilder().name(str<FileLock::FILENAME_LENGTH>(name)).path(str<FileLock::PathName_t::capacity()>(path)).permission(perms::owner_read | perms::owner_write).create();
}
void lock(Case& c)
{
    const size_t fds = openFds();
    const S dir = scratch() + (c.chance(1, 2) ? "" : "/");
    std::array<S, 2> names{"l" + std::to_string(getpid()), "l" + std::to_string(getpid()) + ".x" + S(200, 'y')};
    for (auto& n : names)
    {
        ::unlink((scratch() + "/" + n + ".lock").c_str());
    }
    struct Slot
    {
        std::unique_ptr<FileLock> obj;
        bool holds{false};
        uint32_t name{0};
    };
    {
        std::array<Slot, 4> slots;
        std::vector<Child> children;
        struct Reap
        {
            std::vector<Child>& l;
            ~Reap()
            {
                for (auto& x : l)
                {
                    kill(x.pid, SIGKILL);
                    waitpid(x.pid, nullptr, 0);
                }
            }
        } reap{children};
        auto held = [&](uint32_t n) {
            for (auto& s : slots)
            {
                if (s.obj && s.holds && s.name == n)
                {
                    return true;
                }
            }
            for (auto& x : children)
            {
                if (x.name == n)
                {
                    return true;
                }
            }
            return false;
        };
        uint32_t got{0}, denied{0};
        const uint32_t n = c.range(4, 30);
        for (uint32_t step = 0; step < n; ++step)
        {
            auto& s = slots[c.draw(slots.size())];
            const uint32_t k = c.draw(2);
            switch (c.weighted({8, 4, 2, 2, 2, 1}))
            {
            case 0:
            {
                s = Slot();
                const bool taken = held(k);
                auto r = lockBuild(dir, names[k]);
                c.log("lock %u: %s", k, r.has_value() ? "ok" : "refused");
                PBT_CHECK(c, r.has_value() == !taken, "lock-verdict", "the lock was %s although it is %s", r.has_value() ? "granted" : "refused", taken ? "held" : "free");
                if (r.has_value())
                {
                    ++got;
                    s.obj = std::make_unique<FileLock>(std::move(r.value()));
                    s.holds = true;
                    s.name = k;
                }
                else
                {
                    ++denied;
                    PBT_CHECK(c, r.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, "lock-error", "error %u", static_cast<unsigned>(r.error()));
                }
                break;
            }
            case 1:
                c.log("release %ld", &s - &slots[0]);
                s = Slot();
                break;
            case 2:
            {
                auto& t = slots[c.draw(slots.size())];
                if (&t != &s && s.obj)
                {
                    c.log("move %ld to %ld", &s - &slots[0], &t - &slots[0]);
                    if (t.obj)
                    {
                        *t.obj = std::move(*s.obj);
                    }
                    else
                    {
                        t.obj = std::make_unique<FileLock>(std::move(*s.obj));
                    }
                    t.holds = s.holds;
                    t.name = s.name;
                    s.holds = false;
                    if (c.chance(1, 2))
                    {
                        s = Slot();
                    }
                }
                break;
            }
            case 3: // another process takes it
            {
                int p[2];
                if (children.size() >= 2 || pipe(p) != 0)
                {
                    break;
                }
                const bool taken = held(k);
                const pid_t pid = fork();
                if (pid == 0)
                {
                    // what the parent holds is not the child's
                    for (auto& x : slots)
                    {
                        x.obj.release();
                    }
                    auto r = lockBuild(dir, names[k]);
                    const char answer = r.has_value() ? 'y' : 'n';
                    if (write(p[1], &answer, 1) != 1 || answer == 'n')
                    {
                        _exit(0);
                    }
                    for (;;)
                    {
                        pause();
                    }
                }
                close(p[1]);
                char answer = '?';
                const bool ok = read(p[0], &answer, 1) == 1;
                close(p[0]);
                PBT_CHECK(c, ok, "child-died", "the other process died");
                c.log("another process takes lock %u: %c", k, answer);
                if (answer == 'y')
                {
                    children.push_back({pid, k});
                }
                else
                {
                    waitpid(pid, nullptr, 0);
                }
                PBT_CHECK(c, (answer == 'y') == !taken, "lock-verdict-process", "another process was %s the lock although it is %s", answer == 'y' ? "granted" : "refused", taken ? "held" : "free");
                break;
            }
            case 4:
                if (!children.empty())
                {
                    const uint32_t i = c.draw(static_cast<uint32_t>(children.size()));
                    c.log("the process that holds lock %u is killed", children[i].name);
                    kill(children[i].pid, SIGKILL);
                    waitpid(children[i].pid, nullptr, 0);
                    children.erase(children.begin() + i);
                }
                break;
            default:
            {
                const bool badPath = c.chance(1, 2);
                auto r = badPath ? lockBuild(scratch() + "/not_there", names[k]) : lockBuild(dir, c.of<S>({"", "a/b", "..", "a*b"}));
                PBT_CHECK(c, r.has_error(), "lock-bad-name", "a lock with an invalid name or in a missing directory was granted");
                break;
            }
            }
        }
        if (got >= 2 && denied >= 1)
        {
            c.nontrivial();
        }
    }
    for (auto& n : names)
    {
        ::unlink((scratch() + "/" + n + ".lock").c_str());
    }
    PBT_CHECK(c, openFds() == fds, "fd-leak", "%zu file descriptors before, %zu afterwards", fds, openFds());
}
} // namespace

int main(int argc, char** argv)
{
    log::Logger::setLogLevel(log::LogLevel::Off);
    std::vector<pbt::Test> tests = {
        {"uds", channel<Uds>, 3.0, 60, 2000, true},
        {"pipe", channel<Pipe>, 3.0, 60, 2000, true},
        {"mq", channel<Mq>, 2.0, 60, 2000, true},
        {"uds_threads", udsThreads, 1.0, 120, 2000, true},
        {"shm", shm, 2.0, 60, 2000, true},
        {"file", file, 2.0, 60, 2000, true},
        {"lock", lock, 2.0, 60, 2000, true},
    };
    return pbt::runAll(argc, argv, tests);
}
