// The daemon as its applications see it: every request is answered as documented, whatever texts arrive (S11), limits are
// refused gracefully and recover (S12), lost applications are noticed (S10).
#include "endpoints.hpp"
#include "iceoryx_posh/internal/popo/ports/interface_port.hpp"
#include "iceoryx_posh/internal/roudi/process_manager.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_creator.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_user.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/relative_pointer.hpp"

#include <atomic>
#include <grp.h>
#include <pwd.h>
#include <set>
#include <sys/syscall.h>

using pbt::Case;
using namespace iox::runtime;
using MT = IpcMessageType;
using ET = IpcMessageErrorType;
using ep::Srv;

// RouDi signals registered process ids. They are invented here, so nothing may really be signalled.
namespace
{
struct Sig
{
    int64_t pid;
    int sig;
};
std::atomic<bool> g_record{false};
std::mutex g_sigMutex;
std::vector<Sig> g_sigs;
} // namespace
extern "C" int kill(pid_t p, int s) noexcept
{
    if (g_record.load())
    {
        std::lock_guard<std::mutex> l(g_sigMutex);
        g_sigs.push_back({p, s});
        errno = ESRCH;
        return -1;
    }
    return static_cast<int>(syscall(SYS_kill, p, s));
}

namespace
{
using iox::units::Duration;
using WireString = iox::string<100>;
using Raw = iox::platform::IoxIpcChannelType;

enum Kind
{
    PUB,
    SUB,
    CLI,
    SRV,
    CV,
    IFC,
    KINDS
};
const char* KN[] = {"publisher", "subscriber", "client", "server", "condition variable", "interface"};
const MT CREATE[] = {MT::CREATE_PUBLISHER,
                     MT::CREATE_SUBSCRIBER,
                     MT::CREATE_CLIENT,
                     MT::CREATE_SERVER,
                     MT::CREATE_CONDITION_VARIABLE,
                     MT::CREATE_INTERFACE};
const MT ACK[] = {MT::CREATE_PUBLISHER_ACK,
                  MT::CREATE_SUBSCRIBER_ACK,
                  MT::CREATE_CLIENT_ACK,
                  MT::CREATE_SERVER_ACK,
                  MT::CREATE_CONDITION_VARIABLE_ACK,
                  MT::CREATE_INTERFACE_ACK};
const ET FULL[] = {ET::PUBLISHER_LIST_FULL,
                   ET::SUBSCRIBER_LIST_FULL,
                   ET::CLIENT_LIST_FULL,
                   ET::SERVER_LIST_FULL,
                   ET::CONDITION_VARIABLE_LIST_FULL,
                   ET::NOTYPE};
std::string num(MT t)
{
    return std::to_string(static_cast<int32_t>(t));
}

struct PortM
{
    Kind k;
    Srv s;
    void* at;
    bool operator<(const PortM& o) const
    {
        return std::tie(k, s, at) < std::tie(o.k, o.s, o.at);
    }
};
struct AppM
{
    uint32_t pid{0};
    uint32_t uid{0};
    /// replies arrive: the channel existed when the application registered and is still the same
    bool reachable{false};
    std::vector<PortM> ports;
};
struct Reply
{
    enum
    {
        REG,
        ACKPORT,
        ACKNULL,
        ERR,
        PLAIN
    } what;
    MT type;
    ET err{ET::NOTYPE};
    int64_t ts{0};
    Kind k{PUB};
    Srv s{};
};

Srv srvOf(const iox::capro::ServiceDescription& d)
{
    return {d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str()};
}

/// what the port pool really contains, by kind
using Have = std::map<Kind, std::multimap<std::string, std::pair<Srv, void*>>>;
Have inventory(iox::roudi::PortPool& p)
{
    Have h;
    for (auto& x : p.getPublisherPortDataList())
    {
        h[PUB].insert({x.m_runtimeName.c_str(), {srvOf(x.m_serviceDescription), &x}});
    }
    for (auto& x : p.getSubscriberPortDataList())
    {
        h[SUB].insert({x.m_runtimeName.c_str(), {srvOf(x.m_serviceDescription), &x}});
    }
    for (auto& x : p.getClientPortDataList())
    {
        h[CLI].insert({x.m_runtimeName.c_str(), {srvOf(x.m_serviceDescription), &x}});
    }
    for (auto& x : p.getServerPortDataList())
    {
        h[SRV].insert({x.m_runtimeName.c_str(), {srvOf(x.m_serviceDescription), &x}});
    }
    for (auto& x : p.getConditionVariableDataList())
    {
        h[CV].insert({x.m_runtimeName.c_str(), {Srv{}, &x}});
    }
    for (auto& x : p.getInterfacePortDataList())
    {
        h[IFC].insert({x.m_runtimeName.c_str(), {Srv{}, &x}});
    }
    return h;
}
const uint64_t LIMIT[] = {iox::MAX_PUBLISHERS,
                          iox::MAX_SUBSCRIBERS,
                          iox::MAX_CLIENTS,
                          iox::MAX_SERVERS,
                          iox::MAX_NUMBER_OF_CONDITION_VARIABLES,
                          iox::MAX_INTERFACE_NUMBER};

bool inGroup(uint32_t uid, gid_t g)
{
    auto* pw = getpwuid(uid);
    if (pw == nullptr)
    {
        return false;
    }
    std::vector<gid_t> gs(256);
    int n = 256;
    if (getgrouplist(pw->pw_name, pw->pw_gid, gs.data(), &n) < 0)
    {
        return false;
    }
    return std::find(gs.begin(), gs.begin() + n, g) != gs.begin() + n;
}

struct World
{
    Case& c;
    iox::IceoryxConfig cfg;
    std::unique_ptr<env::FullEnv> e;
    iox::optional<Raw> to;
    iox::optional<IpcInterfaceCreator> sync;
    std::map<std::string, iox::optional<IpcInterfaceCreator>> chan;
    std::map<std::string, AppM> apps;
    std::map<std::string, std::vector<Reply>> expect;
    Have base;
    std::vector<Srv> internal;
    std::string mgmtSize, segmgr, segid;
    uint64_t replies{0}, sent{0}, refused{0};
    /// this machine did not let the applications give signs of life in time
    std::atomic<bool> starved{false};

    auto concatName(const iox::RuntimeName_t& n, iox::ResourceType t)
    {
        return iox::concatenate(iox::iceoryxResourcePrefix(cfg.domainId, t), n);
    }
    World(Case& c, iox::version::CompatibilityCheckLevel lvl, bool monitored)
        : c(c)
        , cfg(env::makeConfig({{64, 16}}))
    {
        cfg.compatibilityCheckLevel = lvl;
        if (monitored)
        {
            cfg.sharesAddressSpaceWithApplications = false;
            cfg.monitoringMode = iox::roudi::MonitoringMode::ON;
            cfg.processTerminationDelay = Duration::fromSeconds(0);
            cfg.processKillDelay = Duration::fromSeconds(0);
        }
        e = std::make_unique<env::FullEnv>(cfg);
        auto name = concatName(iox::roudi::IPC_CHANNEL_ROUDI_NAME, iox::ResourceType::ICEORYX_DEFINED);
        Raw::Builder_t()
            .name(name)
            .channelSide(iox::PosixIpcChannelSide::CLIENT)
            .maxMsgSize(Raw::MAX_MESSAGE_SIZE)
            .maxMsgNumber(10)
            .create()
            .and_then([&](auto& ch) { to.emplace(std::move(ch)); })
            .or_else([&](auto&) { PBT_CHECK(this->c, false, "roudi-channel", "RouDi's channel cannot be opened"); });
        IpcInterfaceCreator::create("sync", cfg.domainId, iox::ResourceType::USER_DEFINED)
            .and_then([&](auto& x) { sync.emplace(std::move(x)); });
        PBT_CHECK(c, sync.has_value(), "sync-channel", "cannot create a channel");
        base = inventory(pool());
        for (auto& x : base[PUB])
        {
            internal.push_back(x.second.first);
        }
        std::string ts = "4711";
        post(text({num(MT::REG), "sync", "1", std::to_string(geteuid()), ts, version(iox::version::VersionInfo::getCurrentVersion())}));
        IpcMessage m;
        PBT_CHECK(c, sync->timedReceive(Duration::fromSeconds(20), m), "no-reg-ack", "registering is not answered");
        PBT_CHECK(c, m.getNumberOfElements() == 6 && m.getElementAtIndex(0) == num(MT::REG_ACK) && m.getElementAtIndex(3) == ts,
                  "reg-ack", "registering is answered by %s", m.getMessage().c_str());
        mgmtSize = m.getElementAtIndex(1);
        segmgr = m.getElementAtIndex(2);
        segid = m.getElementAtIndex(4);
    }
    iox::roudi::PortPool& pool()
    {
        return *e->components().rouDiMemoryManager.portPool().value();
    }
    static std::string version(const iox::version::VersionInfo& v)
    {
        return static_cast<iox::Serialization>(v).toString();
    }
    static std::string text(const std::vector<std::string>& parts)
    {
        std::string t;
        for (auto& p : parts)
        {
            t += p + ",";
        }
        return t;
    }
    void post(const std::string& t)
    {
        ++sent;
        auto r = to->timedSend(t, Duration::fromSeconds(20));
        PBT_CHECK(c, !r.has_error(), "cannot-send", "RouDi no longer takes messages (error %d)", r.has_error() ? int(r.error()) : 0);
    }
    void barrier()
    {
        post(text({num(MT::REPLAY), "sync"}));
        IpcMessage m;
        PBT_CHECK(c, sync->timedReceive(Duration::fromSeconds(20), m), "dead", "RouDi does not answer any more");
        PBT_CHECK(c, m.getMessage() == num(MT::MESSAGE_NOT_SUPPORTED) + ",", "sync-reply", "wrong answer: %s", m.getMessage().c_str());
    }
    uint64_t countOf(Kind k)
    {
        uint64_t n = base[k].size();
        for (auto& a : apps)
        {
            for (auto& p : a.second.ports)
            {
                n += p.k == k;
            }
        }
        return n;
    }
    void openChan(const std::string& n)
    {
        chan[n].reset();
        auto it = apps.find(n);
        if (it != apps.end())
        {
            it->second.reachable = false;
        }
        IpcInterfaceCreator::create(iox::RuntimeName_t(iox::TruncateToCapacity, n.c_str()), cfg.domainId, iox::ResourceType::USER_DEFINED)
            .and_then([&](auto& x) { chan[n].emplace(std::move(x)); });
        PBT_CHECK(c, chan[n].has_value() && chan[n]->isInitialized(), "app-channel", "cannot create the channel of %s", n.c_str());
    }
    void closeChan(const std::string& n)
    {
        chan[n].reset();
        auto it = apps.find(n);
        if (it != apps.end())
        {
            it->second.reachable = false;
        }
    }
    void reply(const std::string& app, const Reply& r)
    {
        auto it = apps.find(app);
        if (it != apps.end() && it->second.reachable)
        {
            expect[app].push_back(r);
        }
    }
    /// called with the answer to a registration
    std::function<void(const std::string&, const IpcMessage&)> onReg;
    /// after barrier(): the answers are exactly the expected ones
    void collect(bool extra = false)
    {
        if (starved.load())
        {
            c.discard("starved");
        }
        for (auto& ch : chan)
        {
            auto& want = expect[ch.first];
            if (!ch.second.has_value())
            {
                continue;
            }
            auto a = apps.find(ch.first);
            size_t i = 0;
            for (; i < want.size() || extra; ++i)
            {
                IpcMessage m;
                // a datagram that was sent is there already; a zero timeout would mean to wait for ever
                if (!ch.second->timedReceive(Duration::fromMicroseconds(i < want.size() ? 2000000 : 1), m))
                {
                    break;
                }
                PBT_CHECK(c, i < want.size(), "unexpected-reply", "%s got an answer nobody asked for: %s", ch.first.c_str(), m.getMessage().c_str());
                auto& w = want[i];
                ++replies;
                auto type = stringToIpcMessageType(m.getElementAtIndex(0).c_str());
                const std::string got = m.getMessage();
                auto n = m.getNumberOfElements();
                PBT_CHECK(c, type == w.type, "wrong-reply", "%s got %s instead of type %d error %d for %s of %s/%s/%s", ch.first.c_str(),
                          got.c_str(), int(w.type), int(w.err), KN[w.k], w.s.s.c_str(), w.s.i.c_str(), w.s.e.c_str());
                switch (w.what)
                {
                case Reply::REG:
                    PBT_CHECK(c, n == 6 && m.getElementAtIndex(1) == mgmtSize && m.getElementAtIndex(2) == segmgr
                                     && m.getElementAtIndex(3) == std::to_string(w.ts) && m.getElementAtIndex(4) == segid,
                              "reg-reply", "%s got %s (timestamp %ld)", ch.first.c_str(), got.c_str(), long(w.ts));
                    if (onReg)
                    {
                        onReg(ch.first, m);
                    }
                    break;
                case Reply::ERR:
                    PBT_CHECK(c, n == 2 && m.getElementAtIndex(1) == std::to_string(int32_t(w.err)), "wrong-error",
                              "%s got %s instead of error %d (%s %s/%s/%s)", ch.first.c_str(), got.c_str(), int(w.err), KN[w.k], w.s.s.c_str(),
                              w.s.i.c_str(), w.s.e.c_str());
                    break;
                case Reply::PLAIN:
                    PBT_CHECK(c, n == 1, "plain-reply", "%s got %s", ch.first.c_str(), got.c_str());
                    break;
                case Reply::ACKNULL:
                case Reply::ACKPORT:
                {
                    PBT_CHECK(c, n == 3 && m.getElementAtIndex(2) == segid, "ack-reply", "%s got %s", ch.first.c_str(), got.c_str());
                    auto off = strtoull(m.getElementAtIndex(1).c_str(), nullptr, 10);
                    void* p = iox::UntypedRelativePointer::getPtr(iox::segment_id_t{strtoull(segid.c_str(), nullptr, 10)}, off);
                    if (w.what == Reply::ACKNULL)
                    {
                        PBT_CHECK(c, p == nullptr, "no-null", "%s got an object although all are used", ch.first.c_str());
                        break;
                    }
                    bool placed = false;
                    if (a != apps.end())
                    {
                        for (auto& pm : a->second.ports)
                        {
                            if (pm.at == nullptr && pm.k == w.k && !(pm.s < w.s) && !(w.s < pm.s))
                            {
                                pm.at = p;
                                placed = true;
                                break;
                            }
                        }
                    }
                    (void)placed;
                    break;
                }
                }
            }
            PBT_CHECK(c, i == want.size(), "no-reply", "%s got %zu of %zu answers, missing: type %d for %s %s/%s/%s", ch.first.c_str(), i,
                      want.size(), int(want[std::min(i, want.size() - 1)].type), KN[want[std::min(i, want.size() - 1)].k],
                      want[std::min(i, want.size() - 1)].s.s.c_str(), want[std::min(i, want.size() - 1)].s.i.c_str(),
                      want[std::min(i, want.size() - 1)].s.e.c_str());
        }
        expect.clear();
        compare();
    }
    void compare()
    {
        if (starved.load())
        {
            c.discard("starved");
        }
        auto have = inventory(pool());
        for (int k = 0; k < KINDS; ++k)
        {
            auto kind = static_cast<Kind>(k);
            std::multiset<std::pair<std::string, Srv>> want, got;
            std::set<void*> at;
            for (auto& x : base[kind])
            {
                want.insert({x.first, x.second.first});
            }
            for (auto& a : apps)
            {
                for (auto& p : a.second.ports)
                {
                    if (p.k == kind)
                    {
                        want.insert({a.first, p.s});
                        if (p.at != nullptr)
                        {
                            PBT_CHECK(c, at.insert(p.at).second, "shared-port", "two %ss share their memory", KN[k]);
                        }
                    }
                }
            }
            std::map<void*, std::pair<std::string, Srv>> where;
            for (auto& x : have[kind])
            {
                got.insert({x.first, x.second.first});
                where[x.second.second] = {x.first, x.second.first};
            }
            if (want != got)
            {
                std::string d;
                for (auto& x : want)
                {
                    if (got.count(x) < want.count(x))
                    {
                        d += " missing " + x.first + ":" + x.second.s + "/" + x.second.i + "/" + x.second.e;
                    }
                }
                for (auto& x : got)
                {
                    if (want.count(x) < got.count(x))
                    {
                        d += " extra " + x.first + ":" + x.second.s + "/" + x.second.i + "/" + x.second.e;
                    }
                }
                PBT_CHECK(c, false, "inventory", "%ss:%s", KN[k], d.c_str());
            }
            for (auto& a : apps)
            {
                for (auto& p : a.second.ports)
                {
                    if (p.k == kind && p.at != nullptr)
                    {
                        auto w = where.find(p.at);
                        PBT_CHECK(c, w != where.end() && w->second.first == a.first && w->second.second.s == p.s.s
                                         && w->second.second.i == p.s.i && w->second.second.e == p.s.e,
                                  "wrong-port", "the %s granted to %s is not the one it asked for", KN[k], a.first.c_str());
                    }
                }
            }
        }
    }

    bool compatible(const iox::version::VersionInfo& v)
    {
        auto cur = iox::version::VersionInfo::getCurrentVersion();
        // fields by means of the serialization: majors .. as independent integers
        auto split = [](const iox::version::VersionInfo& x) {
            std::vector<std::string> f;
            uint16_t a{}, b{}, d{}, t{};
            WireString x1, x2;
            bool ok = static_cast<iox::Serialization>(x).extract(a, b, d, t, x1, x2);
            f = {ok ? "1" : "0", std::to_string(a), std::to_string(b), std::to_string(d), std::to_string(t), x2.c_str(), x1.c_str()};
            return f;
        };
        auto p = split(cur), q = split(v);
        size_t n = 0;
        using L = iox::version::CompatibilityCheckLevel;
        switch (cfg.compatibilityCheckLevel)
        {
        case L::OFF:
            return true;
        case L::MAJOR:
            n = 2;
            break;
        case L::MINOR:
            n = 3;
            break;
        case L::PATCH:
            n = 4;
            break;
        case L::COMMIT_ID:
            n = 6;
            break;
        case L::BUILD_DATE:
            n = 7;
            break;
        }
        return std::equal(p.begin(), p.begin() + long(n), q.begin());
    }

    static bool numeric(const std::string& t, bool sign, unsigned __int128 max, int64_t& v)
    {
        std::string s = t;
        bool neg = false;
        if (sign && !s.empty() && s[0] == '-')
        {
            neg = true;
            s = s.substr(1);
        }
        if (s.empty() || s.size() > 20)
        {
            return false;
        }
        unsigned __int128 x = 0;
        for (char ch : s)
        {
            if (ch < '0' || ch > '9')
            {
                return false;
            }
            x = x * 10 + unsigned(ch - '0');
        }
        if (x > max + (neg ? 1 : 0))
        {
            return false;
        }
        v = neg ? static_cast<int64_t>(-static_cast<__int128>(x)) : static_cast<int64_t>(x);
        return true;
    }

    /// what a text is supposed to do
    void model(const std::string& t)
    {
        IpcMessage m(t);
        if (!m.isValid() || m.getNumberOfElements() < 1)
        {
            ++refused;
            return;
        }
        auto n = m.getNumberOfElements();
        auto cmd = stringToIpcMessageType(m.getElementAtIndex(0).c_str());
        const std::string name = m.getElementAtIndex(1);
        if (name.empty() || name.find('/') != std::string::npos || name == iox::roudi::IPC_CHANNEL_ROUDI_NAME)
        {
            ++refused;
            return;
        }
        auto it = apps.find(name);
        const bool known = it != apps.end();
        switch (cmd)
        {
        case MT::REG:
        {
            int64_t pid{0}, uid{0}, ts{0};
            if (n != 6 || !numeric(m.getElementAtIndex(2), false, UINT32_MAX, pid) || !numeric(m.getElementAtIndex(3), false, UINT32_MAX, uid)
                || !numeric(m.getElementAtIndex(4), true, INT64_MAX, ts))
            {
                ++refused;
                return;
            }
            apps.erase(name);
            iox::version::VersionInfo v(iox::Serialization(m.getElementAtIndex(5)));
            // "sync" occupies one place
            if (!((v.isValid() || cfg.compatibilityCheckLevel == iox::version::CompatibilityCheckLevel::OFF) && compatible(v))
                || apps.size() + 1 >= iox::MAX_PROCESS_NUMBER)
            {
                ++refused;
                return;
            }
            AppM a;
            a.pid = static_cast<uint32_t>(pid);
            a.uid = static_cast<uint32_t>(uid);
            a.reachable = chan[name].has_value();
            apps[name] = a;
            Reply r{Reply::REG, MT::REG_ACK};
            r.ts = ts;
            reply(name, r);
            return;
        }
        case MT::CREATE_PUBLISHER:
        case MT::CREATE_SUBSCRIBER:
        case MT::CREATE_CLIENT:
        case MT::CREATE_SERVER:
        {
            Kind k = cmd == MT::CREATE_PUBLISHER ? PUB : cmd == MT::CREATE_SUBSCRIBER ? SUB : cmd == MT::CREATE_CLIENT ? CLI : SRV;
            if (n != 5)
            {
                ++refused;
                return;
            }
            auto sd = iox::capro::ServiceDescription::deserialize(iox::Serialization(m.getElementAtIndex(2)));
            iox::Serialization o(m.getElementAtIndex(3));
            bool opt = k == PUB   ? !iox::popo::PublisherOptions::deserialize(o).has_error()
                       : k == SUB ? !iox::popo::SubscriberOptions::deserialize(o).has_error()
                       : k == CLI ? !iox::popo::ClientOptions::deserialize(o).has_error()
                                  : !iox::popo::ServerOptions::deserialize(o).has_error();
            if (sd.has_error() || !opt || !known)
            {
                ++refused;
                return;
            }
            Srv s = srvOf(sd.value());
            create(k, name, it->second, s);
            return;
        }
        case MT::CREATE_CONDITION_VARIABLE:
            if (n != 2 || !known)
            {
                ++refused;
                return;
            }
            create(CV, name, it->second, Srv{});
            return;
        case MT::CREATE_INTERFACE:
            if (n != 4 || !known)
            {
                ++refused;
                return;
            }
            create(IFC, name, it->second, Srv{});
            return;
        case MT::PREPARE_APP_TERMINATION:
            if (n == 2 && known)
            {
                reply(name, {Reply::PLAIN, MT::PREPARE_APP_TERMINATION_ACK});
            }
            return;
        case MT::TERMINATION:
            if (n == 2 && known)
            {
                reply(name, {Reply::PLAIN, MT::TERMINATION_ACK});
                apps.erase(name);
            }
            return;
        default:
            if (known)
            {
                reply(name, {Reply::PLAIN, MT::MESSAGE_NOT_SUPPORTED});
            }
            return;
        }
    }
    void create(Kind k, const std::string& name, AppM& a, const Srv& s)
    {
        Reply r{Reply::ACKPORT, ACK[k]};
        r.k = k;
        r.s = s;
        auto fail = [&](ET e) {
            r.what = Reply::ERR;
            r.type = MT::ERROR_RESPONSE;
            r.err = e;
            reply(name, r);
            ++refused;
        };
        if ((k == PUB || k == CLI || k == SRV) && !inGroup(a.uid, getegid()))
        {
            fail(k == PUB   ? ET::REQUEST_PUBLISHER_NO_WRITABLE_SHM_SEGMENT
                 : k == CLI ? ET::REQUEST_CLIENT_NO_WRITABLE_SHM_SEGMENT
                            : ET::REQUEST_SERVER_NO_WRITABLE_SHM_SEGMENT);
            return;
        }
        auto same = [&](const Srv& x) { return x.s == s.s && x.i == s.i && x.e == s.e; };
        if (k == PUB && std::any_of(internal.begin(), internal.end(), same))
        {
            fail(ET::INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN);
            return;
        }
        if (k == SRV)
        {
            for (auto& x : apps)
            {
                for (auto& p : x.second.ports)
                {
                    if (p.k == SRV && same(p.s))
                    {
                        fail(FULL[SRV]);
                        return;
                    }
                }
            }
        }
        if (countOf(k) >= LIMIT[k])
        {
            if (k == IFC)
            {
                r.what = Reply::ACKNULL;
                reply(name, r);
                ++refused;
                return;
            }
            fail(FULL[k]);
            return;
        }
        a.ports.push_back({k, s, nullptr});
        reply(name, r);
    }
};

std::string randomText(Case& c, uint32_t max)
{
    std::string t;
    auto n = c.draw(max);
    for (uint32_t i = 0; i < n; ++i)
    {
        t += static_cast<char>(c.chance(1, 6) ? 1 + c.draw(255) : "0123456789:,ab"[c.draw(14)]);
    }
    return t;
}

struct Gen
{
    World& w;
    Case& c;
    std::vector<std::string> names;
    std::vector<Srv> services;

    Gen(World& w, uint32_t nApps)
        : w(w)
        , c(w.c)
    {
        static const std::vector<std::string> ns = {"a", "app_b", "a.b", "A", "app-b", "x_1", "a1", "sync2"};
        for (uint32_t i = 0; i < nApps; ++i)
        {
            names.push_back(i < ns.size() ? ns[i] : i == ns.size() ? std::string(iox::MAX_RUNTIME_NAME_LENGTH, 'n') : "m" + std::to_string(i));
        }
        if (c.chance(1, 6))
        {
            // the daemon's own name is not available to applications
            names.push_back(iox::roudi::IPC_CHANNEL_ROUDI_NAME);
        }
        services = {{"s", "i", "e"}, {"s", "i", "f"}, {"s", "j", "e"}, {"", "", ""}, {std::string(100, 'x'), "i", "e"}, {"a:b", "1:c", "3:def"}};
        services.push_back(w.internal[c.draw(static_cast<uint32_t>(w.internal.size()))]);
    }
    std::string appName()
    {
        return c.pick(names);
    }
    std::string versionText()
    {
        auto cur = iox::version::VersionInfo::getCurrentVersion();
        if (c.chance(2, 3))
        {
            return World::version(cur);
        }
        uint16_t a{}, b{}, d{}, t{};
        WireString x1, x2;
        IOX_DISCARD_RESULT(static_cast<iox::Serialization>(cur).extract(a, b, d, t, x1, x2));
        switch (c.draw(8))
        {
        case 0:
            a = uint16_t(a + 1);
            break;
        case 1:
            b = uint16_t(b + 1);
            break;
        case 2:
            d = uint16_t(d + 1);
            break;
        case 3:
            t = uint16_t(t + 1);
            break;
        case 4:
            x1 = WireString("yesterday");
            break;
        case 5:
            x2 = WireString("cafecafe");
            break;
        case 6:
            return randomText(c, 30);
        default:
        {
            auto s = World::version(cur);
            return s.substr(0, c.draw(uint32_t(s.size())));
        }
        }
        return iox::Serialization::create(a, b, d, t, x1, x2).toString();
    }
    std::string number(bool good)
    {
        if (good)
        {
            return std::to_string(c.draw(5));
        }
        static const std::vector<std::string> t = {"",       "-1",   "x",   "4294967296", "18446744073709551616", "1x",
                                                   "0x10",   "1.5",  "99999999999999999999999", "9223372036854775808"};
        return c.pick(t);
    }
    std::string reg(const std::string& n, bool sane)
    {
        static const std::vector<std::string> uids = {"0", "65534", "1", "12345", "4294967295"};
        bool badPid = !sane && c.chance(1, 8), badUid = !sane && c.chance(1, 8), badTs = !sane && c.chance(1, 8);
        return World::text({num(MT::REG), n, badPid ? number(false) : std::to_string(1 + c.draw(4000000)),
                            badUid ? number(false) : (sane || c.chance(3, 4)) ? std::to_string(geteuid()) : c.pick(uids),
                            badTs ? number(false) : std::to_string(static_cast<int64_t>(c.u64())),
                            sane ? World::version(iox::version::VersionInfo::getCurrentVersion()) : versionText()});
    }
    std::string sdText(const Srv& s)
    {
        return static_cast<iox::Serialization>(iox::capro::ServiceDescription(iox::capro::IdString_t(iox::TruncateToCapacity, s.s.c_str()),
                                                                              iox::capro::IdString_t(iox::TruncateToCapacity, s.i.c_str()),
                                                                              iox::capro::IdString_t(iox::TruncateToCapacity, s.e.c_str())))
            .toString();
    }
    std::string optText(Kind k)
    {
        using QF = iox::popo::QueueFullPolicy;
        using CT = iox::popo::ConsumerTooSlowPolicy;
        auto big = [&] { return c.chance(1, 6) ? c.u64b() : uint64_t(c.draw(5)); };
        auto nn = [&] { return iox::NodeName_t(iox::TruncateToCapacity, c.chance(1, 2) ? "" : "node"); };
        switch (k)
        {
        case PUB:
        {
            iox::popo::PublisherOptions o;
            o.historyCapacity = big();
            o.nodeName = nn();
            o.offerOnCreate = c.chance(1, 2);
            o.subscriberTooSlowPolicy = c.chance(1, 2) ? CT::DISCARD_OLDEST_DATA : CT::WAIT_FOR_CONSUMER;
            return o.serialize().toString();
        }
        case SUB:
        {
            iox::popo::SubscriberOptions o;
            o.queueCapacity = big();
            o.historyRequest = big();
            o.nodeName = nn();
            o.subscribeOnCreate = c.chance(1, 2);
            o.queueFullPolicy = c.chance(1, 2) ? QF::DISCARD_OLDEST_DATA : QF::BLOCK_PRODUCER;
            o.requiresPublisherHistorySupport = c.chance(1, 2);
            return o.serialize().toString();
        }
        case CLI:
        {
            iox::popo::ClientOptions o;
            o.responseQueueCapacity = big();
            o.nodeName = nn();
            o.connectOnCreate = c.chance(1, 2);
            o.responseQueueFullPolicy = c.chance(1, 2) ? QF::DISCARD_OLDEST_DATA : QF::BLOCK_PRODUCER;
            o.serverTooSlowPolicy = c.chance(1, 2) ? CT::DISCARD_OLDEST_DATA : CT::WAIT_FOR_CONSUMER;
            return o.serialize().toString();
        }
        default:
        {
            iox::popo::ServerOptions o;
            o.requestQueueCapacity = big();
            o.nodeName = nn();
            o.offerOnCreate = c.chance(1, 2);
            o.requestQueueFullPolicy = c.chance(1, 2) ? QF::DISCARD_OLDEST_DATA : QF::BLOCK_PRODUCER;
            o.clientTooSlowPolicy = c.chance(1, 2) ? CT::DISCARD_OLDEST_DATA : CT::WAIT_FOR_CONSUMER;
            return o.serialize().toString();
        }
        }
    }
    std::string creation(Kind k, const std::string& n)
    {
        if (k == CV)
        {
            return World::text({num(CREATE[k]), n});
        }
        if (k == IFC)
        {
            return World::text({num(CREATE[k]), n, c.chance(3, 4) ? std::to_string(c.draw(8)) : randomText(c, 8).substr(0, 0) + "x", "node"});
        }
        iox::runtime::PortConfigInfo info(uint32_t(c.draw(4)), uint32_t(c.draw(4)), uint32_t(c.draw(4)));
        return World::text({num(CREATE[k]), n, sdText(c.pick(services)), optText(k), static_cast<iox::Serialization>(info).toString()});
    }
    /// a message that an application may send
    std::string proper(bool sane)
    {
        auto n = appName();
        switch (c.weighted({6, 14, 2, 2, 2}))
        {
        case 0:
            return reg(n, sane);
        case 1:
            return creation(static_cast<Kind>(c.weighted({3, 3, 3, 3, 2, 1})), n);
        case 2:
            return World::text({num(MT::PREPARE_APP_TERMINATION), n});
        case 3:
            return World::text({num(MT::TERMINATION), n});
        default:
        {
            static const std::vector<MT> t = {MT::NOTYPE, MT::REG_ACK, MT::CREATE_PUBLISHER_ACK, MT::TERMINATION_ACK, MT::ERROR_RESPONSE,
                                              MT::APP_WAIT, MT::WAKEUP_TRIGGER, MT::REPLAY, MT::MESSAGE_NOT_SUPPORTED, MT::END, MT::BEGIN};
            return World::text({num(c.pick(t)), n});
        }
        }
    }
    std::string mutated()
    {
        std::string t = proper(false);
        auto k = c.range(1, 3);
        for (uint32_t i = 0; i < k; ++i)
        {
            std::vector<std::string> parts;
            std::string cur;
            for (char ch : t)
            {
                if (ch == ',')
                {
                    parts.push_back(cur);
                    cur.clear();
                }
                else
                {
                    cur += ch;
                }
            }
            switch (c.draw(9))
            {
            case 0: // one entry less
                if (!parts.empty())
                {
                    parts.erase(parts.begin() + c.draw(uint32_t(parts.size())));
                    t = World::text(parts);
                }
                break;
            case 1: // one entry more
                parts.insert(parts.begin() + c.draw(uint32_t(parts.size() + 1)), c.chance(1, 2) ? "" : "7");
                t = World::text(parts);
                break;
            case 2: // an entry becomes something else
                if (!parts.empty())
                {
                    auto& p = parts[c.draw(uint32_t(parts.size()))];
                    p = c.chance(1, 3) ? number(false) : randomText(c, 24);
                    t = World::text(parts);
                }
                break;
            case 3: // cut
                t = t.substr(0, c.draw(uint32_t(t.size() + 1)));
                break;
            case 4: // a character changes
                if (!t.empty())
                {
                    t[c.draw(uint32_t(t.size()))] = static_cast<char>(1 + c.draw(255));
                }
                break;
            case 5: // a digit changes
            {
                std::vector<size_t> at;
                for (size_t j = 0; j < t.size(); ++j)
                {
                    if (isdigit(static_cast<unsigned char>(t[j])))
                    {
                        at.push_back(j);
                    }
                }
                if (!at.empty())
                {
                    t[c.pick(at)] = static_cast<char>('0' + c.draw(10));
                }
                break;
            }
            case 6: // characters inserted
                t.insert(c.draw(uint32_t(t.size() + 1)), randomText(c, 6));
                break;
            case 7: // a piece is repeated
            {
                auto a = c.draw(uint32_t(t.size() + 1));
                t.insert(a, t.substr(a, c.draw(20)));
                break;
            }
            default: // another name
                if (parts.size() > 1)
                {
                    static const std::vector<std::string> bad = {"", "/", "a/b", "../x", "roudi", "nobody"};
                    parts[1] = c.pick(bad);
                    t = World::text(parts);
                }
                break;
            }
        }
        return t;
    }
};

/// RouDi with a well-behaved application that has to go on working
struct Bystander
{
    World& w;
    Case& c;
    std::unique_ptr<iox::popo::Publisher<uint64_t>> p;
    std::unique_ptr<iox::popo::Subscriber<uint64_t>> s;
    uint64_t n{0};
    explicit Bystander(World& w)
        : w(w)
        , c(w.c)
    {
        w.e->activate("bystander");
        p = std::make_unique<iox::popo::Publisher<uint64_t>>(iox::capro::ServiceDescription{"by", "stand", "er"});
        s = std::make_unique<iox::popo::Subscriber<uint64_t>>(iox::capro::ServiceDescription{"by", "stand", "er"});
        AppM a;
        a.ports.push_back({PUB, {"by", "stand", "er"}, nullptr});
        a.ports.push_back({SUB, {"by", "stand", "er"}, nullptr});
        w.apps["bystander"] = a;
    }
    void use()
    {
        auto l = p->loan();
        PBT_CHECK(c, !l.has_error(), "bystander-loan", "an uninvolved application cannot loan any more");
        *l.value() = ++n;
        l.value().publish();
        auto t = s->take();
        PBT_CHECK(c, !t.has_error() && *t.value() == n, "bystander-take", "an uninvolved application does not get its sample");
    }
};

template <bool LIMITS>
void messages(Case& c)
{
    env::quiet();
    using L = iox::version::CompatibilityCheckLevel;
    World w(c, LIMITS ? L::PATCH : c.pick(std::vector<L>{L::OFF, L::MAJOR, L::MINOR, L::PATCH, L::PATCH, L::COMMIT_ID, L::BUILD_DATE}), false);
    Bystander by(w);
    Gen g(w, LIMITS ? 20 : c.range(1, 8));
    if (LIMITS)
    {
        // more services than servers are possible
        for (uint32_t i = 0; i < 12; ++i)
        {
            g.services.push_back({"l" + std::to_string(i), "", "x"});
        }
    }
    for (auto& n : g.names)
    {
        if (c.chance(9, 10))
        {
            w.openChan(n);
        }
        else
        {
            w.chan[n];
        }
    }
    const uint32_t nOps = LIMITS ? c.range(100, 250) : c.range(10, 120);
    uint32_t pending = 0;
    auto emit = [&](const std::string& t) {
        std::string shown;
        for (char ch : t)
        {
            char b[8];
            snprintf(b, sizeof b, isprint(static_cast<unsigned char>(ch)) ? "%c" : "\\x%02x", static_cast<unsigned char>(ch));
            shown += b;
        }
        c.log("message %s", shown.c_str());
        w.model(t);
        w.post(t);
        if (++pending >= 3)
        {
            w.barrier();
            w.collect();
            pending = 0;
        }
    };
    auto flush = [&](bool extra = false) {
        w.barrier();
        w.collect(extra);
        pending = 0;
    };
    auto first = LIMITS ? g.names.size() : c.draw(uint32_t(g.names.size() + 1));
    for (size_t i = 0; i < first && i < g.names.size(); ++i)
    {
        emit(g.reg(g.names[i], true));
    }
    uint64_t full = 0;
    for (uint32_t k = 0; k < nOps; ++k)
    {
        switch (c.weighted({24, LIMITS ? 1U : 16U, 2, 2, 2}))
        {
        case 0:
            if (LIMITS && c.chance(2, 3))
            {
                std::vector<std::string> known;
                for (auto& a : w.apps)
                {
                    if (a.first != "bystander")
                    {
                        known.push_back(a.first);
                    }
                }
                if (!known.empty())
                {
                    emit(g.creation(static_cast<Kind>(c.draw(KINDS)), c.pick(known)));
                    break;
                }
            }
            emit(g.proper(c.chance(3, 4)));
            break;
        case 1:
        {
            auto t = g.mutated();
            // the name of the control application and of the bystander are left alone
            IpcMessage m(t);
            auto nm = m.isValid() ? m.getElementAtIndex(1) : std::string();
            if (nm == "sync" || nm == "bystander" || nm.size() > iox::MAX_RUNTIME_NAME_LENGTH || t.size() > 3500 || t.find('\0') != std::string::npos)
            {
                break;
            }
            w.chan[nm];
            emit(t);
            break;
        }
        case 2:
            flush();
            by.use();
            break;
        case 3:
        {
            flush();
            auto n = g.appName();
            if (w.chan[n].has_value() && c.chance(1, 3))
            {
                c.log("channel of %s closes", n.c_str());
                w.closeChan(n);
            }
            else if (!w.chan[n].has_value())
            {
                c.log("channel of %s opens", n.c_str());
                w.openChan(n);
            }
            break;
        }
        default:
            flush();
            c.log("discovery");
            w.e->discover();
            w.compare();
            break;
        }
        for (int q = 0; q < KINDS; ++q)
        {
            full += w.countOf(static_cast<Kind>(q)) >= LIMIT[q];
        }
    }
    flush(true);
    by.use();
    // everything goes away
    std::vector<std::string> left;
    for (auto& a : w.apps)
    {
        if (a.first != "bystander")
        {
            left.push_back(a.first);
        }
    }
    for (auto& n : left)
    {
        emit(World::text({num(MT::TERMINATION), n}));
    }
    flush(true);
    // and all places can be taken again
    if (LIMITS || c.chance(1, 3))
    {
        w.openChan("again");
        emit(g.reg("again", true));
        for (int q = 0; q < KINDS; ++q)
        {
            g.services = {{"z", "0", "0"}};
            for (uint64_t i = w.base[static_cast<Kind>(q)].size(); i <= LIMIT[q]; ++i)
            {
                g.services[0].i = std::to_string(i);
                emit(g.creation(static_cast<Kind>(q), "again"));
            }
        }
        emit(World::text({num(MT::TERMINATION), "again"}));
        flush();
    }
    by.use();
    c.count("messages", w.sent);
    c.count("answers", w.replies);
    c.count("refused", w.refused);
    c.count("limit reached", full);
    c.nontrivial(LIMITS ? (full > 0 && w.replies >= 20) : (w.replies >= 3 && w.refused >= 1));
    by.s.reset();
    by.p.reset();
}

// ------------------------------------------------------------------ monitoring
void monitoring(Case& c)
{
    env::quiet();
    g_record = true;
    {
        std::lock_guard<std::mutex> l(g_sigMutex);
        g_sigs.clear();
    }
    std::map<std::string, uint32_t> pids;
    auto w = std::make_unique<World>(c, iox::version::CompatibilityCheckLevel::PATCH, true);
    Gen g(*w, c.range(2, 6));
    if (g.names.back() == iox::roudi::IPC_CHANNEL_ROUDI_NAME)
    {
        g.names.pop_back();
    }
    // applications that are alive beat, the others do not
    std::map<std::string, iox::runtime::Heartbeat*> beats;
    std::mutex bm;
    std::atomic<bool> run{true};
    std::set<std::string> dead;
    std::thread beater([&] {
        auto last = std::chrono::steady_clock::now();
        while (run.load())
        {
            auto now = std::chrono::steady_clock::now();
            if (now - last > std::chrono::milliseconds(600))
            {
                w->starved = true;
            }
            last = now;
            {
                std::lock_guard<std::mutex> l(bm);
                for (auto& b : beats)
                {
                    b.second->beat();
                }
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
        }
    });
    struct Join
    {
        std::atomic<bool>& r;
        std::thread& t;
        ~Join()
        {
            r = false;
            if (t.joinable())
            {
                t.join();
            }
        }
    };
    uint64_t removed = 0;
    {
        Join join{run, beater};
        auto beatOf = [&](const std::string& name, const IpcMessage& m) {
            auto off = strtoull(m.getElementAtIndex(5).c_str(), nullptr, 10);
            auto* p = iox::UntypedRelativePointer::getPtr(iox::segment_id_t{strtoull(w->segid.c_str(), nullptr, 10)}, off);
            PBT_CHECK(c, p != nullptr, "no-heartbeat", "a monitored application got no heartbeat");
            std::lock_guard<std::mutex> l(bm);
            for (auto& b : beats)
            {
                PBT_CHECK(c, b.first == name || b.second != p, "shared-heartbeat", "%s and %s share a heartbeat", name.c_str(), b.first.c_str());
            }
            beats[name] = static_cast<iox::runtime::Heartbeat*>(p);
        };
        auto regist = [&](const std::string& n) {
            w->openChan(n);
            {
                std::lock_guard<std::mutex> l(bm);
                beats.erase(n);
            }
            auto t = g.reg(n, true);
            IpcMessage q(t);
            pids[n] = uint32_t(strtoul(q.getElementAtIndex(2).c_str(), nullptr, 10));
            w->model(t);
            w->post(t);
            IpcMessage m;
            PBT_CHECK(c, w->chan[n]->timedReceive(Duration::fromSeconds(20), m), "no-reg-ack", "registering is not answered");
            PBT_CHECK(c, m.getNumberOfElements() == 6 && m.getElementAtIndex(0) == num(MT::REG_ACK), "reg-ack", "answer %s", m.getMessage().c_str());
            w->expect.clear();
            beatOf(n, m);
            c.log("register %s", n.c_str());
        };
        // the control application has to be alive as well
        {
            w->post(World::text({num(MT::REG), "sync", "77", std::to_string(geteuid()), "1",
                                 World::version(iox::version::VersionInfo::getCurrentVersion())}));
            pids["sync"] = 77;
            IpcMessage m;
            PBT_CHECK(c, w->sync->timedReceive(Duration::fromSeconds(20), m) && m.getNumberOfElements() == 6, "reg-ack", "sync");
            beatOf("sync", m);
        }
        for (auto& n : g.names)
        {
            if (c.chance(4, 5))
            {
                regist(n);
            }
        }
        const uint32_t rounds = c.range(1, 3);
        for (uint32_t r = 0; r < rounds; ++r)
        {
            const uint32_t ops = c.range(3, 15);
            for (uint32_t k = 0; k < ops; ++k)
            {
                auto n = g.appName();
                if (w->apps.count(n) == 0)
                {
                    if (c.chance(1, 2))
                    {
                        regist(n);
                    }
                    continue;
                }
                std::string t;
                if (c.chance(1, 16))
                {
                    // short-lived applications: their heartbeats are available again at once
                    auto k2 = c.range(1, 2 * iox::MAX_PROCESS_NUMBER);
                    for (uint32_t j = 0; j < k2; ++j)
                    {
                        regist(n);
                        {
                            std::lock_guard<std::mutex> l(bm);
                            beats.erase(n);
                        }
                        t = World::text({num(MT::TERMINATION), n});
                        w->model(t);
                        w->post(t);
                        w->barrier();
                        w->collect();
                    }
                    continue;
                }
                if (c.chance(1, 8))
                {
                    t = World::text({num(MT::TERMINATION), n});
                    std::lock_guard<std::mutex> l(bm);
                    beats.erase(n);
                }
                else
                {
                    t = g.creation(static_cast<Kind>(c.weighted({3, 3, 3, 3, 2, 1})), n);
                }
                c.log("message %s", t.c_str());
                w->model(t);
                w->post(t);
                w->barrier();
                w->collect();
            }
            // some die now
            std::vector<std::string> die;
            for (auto& a : w->apps)
            {
                if (c.chance(1, 2))
                {
                    die.push_back(a.first);
                }
            }
            for (auto& n : die)
            {
                c.log("%s dies", n.c_str());
                std::lock_guard<std::mutex> l(bm);
                beats.erase(n);
                if (c.chance(1, 2))
                {
                    w->closeChan(n);
                }
            }
            // nobody is removed as long as it may be alive: PROCESS_KEEP_ALIVE_TIMEOUT counts from the last beat
            auto gone = [&](const std::string& n) {
                auto have = inventory(w->pool());
                for (auto& k : have)
                {
                    if (k.second.count(n) != 0)
                    {
                        return false;
                    }
                }
                return true;
            };
            for (auto& n : die)
            {
                w->apps.erase(n);
                ++removed;
            }
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
            for (auto& n : die)
            {
                while (!gone(n))
                {
                    PBT_CHECK(c, std::chrono::steady_clock::now() < end, "not-removed", "%s is dead but keeps its resources", n.c_str());
                    std::this_thread::sleep_for(std::chrono::milliseconds(20));
                }
            }
            if (!die.empty())
            {
                // also those without any port are forgotten: they do not get answers any more
                auto t0 = std::chrono::steady_clock::now() + std::chrono::milliseconds(
                                                                  iox::runtime::PROCESS_KEEP_ALIVE_TIMEOUT.toMilliseconds() + 700);
                std::this_thread::sleep_until(t0);
                for (auto& n : die)
                {
                    if (w->chan[n].has_value())
                    {
                        w->post(World::text({num(MT::REPLAY), n}));
                    }
                }
            }
            w->barrier();
            w->collect(true);
        }
    }
    std::set<uint32_t> alive;
    for (auto& a : w->apps)
    {
        alive.insert(pids[a.first]);
    }
    alive.insert(pids["sync"]);
    bool more = c.chance(1, 2);
    (void)more;
    w.reset();
    g_record = false;
    // at shutdown exactly the registered processes are asked to terminate
    std::set<uint32_t> asked;
    {
        std::lock_guard<std::mutex> l(g_sigMutex);
        for (auto& s : g_sigs)
        {
            PBT_CHECK(c, s.sig == 0 || alive.count(uint32_t(s.pid)) != 0, "foreign-signal", "signal %d for %ld", s.sig, long(s.pid));
            if (s.sig == SIGTERM)
            {
                asked.insert(uint32_t(s.pid));
            }
        }
    }
    PBT_CHECK(c, asked == alive, "not-asked", "%zu of %zu registered processes were asked to terminate", asked.size(), alive.size());
    c.count("removed", removed);
    c.nontrivial(removed > 0 || !alive.empty());
}
// ------------------------------------------------------------------ places for processes
void processes(Case& c)
{
    env::quiet();
    const bool monitored = c.chance(2, 3);
    g_record = true;
    auto w = std::make_unique<World>(c, iox::version::CompatibilityCheckLevel::PATCH, monitored);
    std::map<std::string, iox::runtime::Heartbeat*> beats;
    std::mutex bm;
    std::atomic<bool> run{true};
    std::thread beater([&] {
        auto last = std::chrono::steady_clock::now();
        while (run.load())
        {
            auto now = std::chrono::steady_clock::now();
            if (now - last > std::chrono::milliseconds(600))
            {
                w->starved = true;
            }
            last = now;
            {
                std::lock_guard<std::mutex> l(bm);
                for (auto& b : beats)
                {
                    b.second->beat();
                }
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
        }
    });
    struct Join
    {
        std::atomic<bool>& r;
        std::thread& t;
        ~Join()
        {
            r = false;
            if (t.joinable())
            {
                t.join();
            }
        }
    };
    uint64_t refused = 0, most = 0, incompatible = 0;
    {
        Join join{run, beater};
        w->onReg = [&](const std::string& name, const IpcMessage& m) {
            auto off = strtoull(m.getElementAtIndex(5).c_str(), nullptr, 10);
            auto* p = monitored ? iox::UntypedRelativePointer::getPtr(iox::segment_id_t{strtoull(w->segid.c_str(), nullptr, 10)}, off) : nullptr;
            if (!monitored)
            {
                return;
            }
            PBT_CHECK(c, p != nullptr, "no-heartbeat", "a monitored application got no heartbeat");
            std::lock_guard<std::mutex> l(bm);
            for (auto& b : beats)
            {
                PBT_CHECK(c, b.first == name || b.second != p, "shared-heartbeat", "%s and %s share a heartbeat", name.c_str(), b.first.c_str());
            }
            beats[name] = static_cast<iox::runtime::Heartbeat*>(p);
        };
        {
            w->post(World::text({num(MT::REG), "sync", "77", std::to_string(geteuid()), "1",
                                 World::version(iox::version::VersionInfo::getCurrentVersion())}));
            IpcMessage m;
            PBT_CHECK(c, w->sync->timedReceive(Duration::fromSeconds(20), m) && m.getNumberOfElements() == 6, "reg-ack", "sync");
            w->onReg("sync", m);
        }
        const uint32_t MAX = iox::MAX_PROCESS_NUMBER;
        std::string wrong = World::version(iox::version::VersionInfo(1, 2, 3, 4, "a", "b"));
        const std::string right = World::version(iox::version::VersionInfo::getCurrentVersion());
        uint32_t next = 0, pending = 0;
        auto flush = [&] {
            w->barrier();
            w->collect();
            pending = 0;
        };
        auto emit = [&](const std::string& t) {
            w->model(t);
            w->post(t);
            if (++pending >= 6)
            {
                flush();
            }
        };
        auto reg = [&](const std::string& n, const std::string& v) {
            emit(World::text({num(MT::REG), n, std::to_string(1000 + next), std::to_string(geteuid()), "5", v}));
        };
        auto add = [&](uint32_t k) {
            for (uint32_t i = 0; i < k; ++i)
            {
                auto n = "p" + std::to_string(next++ % (MAX + 20));
                if (w->chan[n].has_value() && w->apps.count(n) != 0)
                {
                    continue;
                }
                w->openChan(n);
                auto before = w->apps.size();
                reg(n, right);
                refused += w->apps.size() == before;
            }
            flush();
            most = std::max<uint64_t>(most, w->apps.size());
        };
        auto drop = [&](const std::string& n) {
            {
                std::lock_guard<std::mutex> l(bm);
                beats.erase(n);
            }
            emit(World::text({num(MT::TERMINATION), n}));
        };
        const uint32_t ops = c.range(2, 8);
        for (uint32_t k = 0; k < ops; ++k)
        {
            switch (c.weighted({5, 3, 4, 2}))
            {
            case 0:
            {
                // up to the limit and sometimes beyond
                uint32_t room = MAX - 1 - static_cast<uint32_t>(w->apps.size());
                auto n = c.chance(2, 3) ? room + c.range(0, 12) : c.range(1, 60);
                c.log("%u applications register (%zu there)", n, w->apps.size());
                add(n);
                break;
            }
            case 1:
            {
                auto n = c.chance(1, 3) ? MAX : c.range(1, 40);
                c.log("%u applications terminate", n);
                for (uint32_t i = 0; i < n && !w->apps.empty(); ++i)
                {
                    auto it = std::next(w->apps.begin(), c.draw(static_cast<uint32_t>(w->apps.size())));
                    drop(it->first);
                }
                flush();
                break;
            }
            case 2:
            {
                auto n = c.chance(1, 2) ? c.range(1, 2 * MAX) : c.range(1, 20);
                c.log("%u registrations of other versions", n);
                w->openChan("other");
                for (uint32_t i = 0; i < n; ++i)
                {
                    reg("other", wrong);
                }
                incompatible += n;
                flush();
                break;
            }
            default:
            {
                // one that comes again and again
                auto n = c.chance(1, 2) ? c.range(1, 2 * MAX) : c.range(1, 20);
                c.log("%u registrations of one application", n);
                for (uint32_t i = 0; i < n; ++i)
                {
                    if (i % 6 == 0)
                    {
                        flush();
                        w->openChan("again");
                    }
                    {
                        std::lock_guard<std::mutex> l(bm);
                        beats.erase("again");
                    }
                    reg("again", right);
                    flush();
                    w->openChan("again");
                }
                if (w->apps.count("again") != 0)
                {
                    drop("again");
                }
                flush();
                break;
            }
            }
        }
        while (!w->apps.empty())
        {
            drop(w->apps.begin()->first);
        }
        flush();
        // all places can be taken again
        c.log("all places");
        for (uint32_t i = 0; i < MAX - 1; ++i)
        {
            auto n = "q" + std::to_string(i);
            w->openChan(n);
            reg(n, right);
        }
        flush();
        PBT_CHECK(c, w->apps.size() == MAX - 1, "model", "the model is wrong");
        w->openChan("toomany");
        reg("toomany", right);
        flush();
    }
    c.count("incompatible", incompatible);
    c.count("refused", refused);
    c.nontrivial(refused > 0 || incompatible > 0);
}

// ------------------------------------------------------------------ limits as applications meet them
void runtimes(Case& c)
{
    env::quiet();
    env::FullEnv e(env::makeConfig({{64, 8}}));
    auto& pool = *e.components().rouDiMemoryManager.portPool().value();
    Have base = inventory(pool);
    std::vector<Srv> internal;
    for (auto& x : base[PUB])
    {
        internal.push_back(x.second.first);
    }
    struct P
    {
        Kind k;
        std::string app;
        Srv s;
        void* at;
    };
    std::vector<P> ports;
    const std::vector<std::string> apps = {"one", "two", "three"};
    // applications have resources of their own as soon as they run
    std::set<std::string> running;
    auto count = [&](Kind k) {
        uint64_t n = base[k].size();
        for (auto& p : ports)
        {
            n += p.k == k;
        }
        return n;
    };
    auto start = [&](const std::string& a) {
        e.activate(a);
        if (running.insert(a).second)
        {
            auto have = inventory(pool);
            for (int k = 0; k < KINDS; ++k)
            {
                auto r = have[static_cast<Kind>(k)].equal_range(a);
                PBT_CHECK(c, r.first == r.second, "left-over", "a new application already owns a %s", KN[k]);
            }
        }
    };
    std::vector<Srv> services = {{"s", "i", "e"}, internal[c.draw(uint32_t(internal.size()))]};
    for (uint32_t i = 0; i < 12; ++i)
    {
        services.push_back({"l" + std::to_string(i), "", "x"});
    }
    const bool oneKind = c.chance(1, 2);
    const auto favourite = c.draw(KINDS);
    uint64_t refused = 0, granted = 0;
    std::map<Kind, uint64_t> pending;
    const uint32_t ops = c.range(40, 160);
    for (uint32_t i = 0; i < ops; ++i)
    {
        switch (c.weighted({20, oneKind ? 3U : 6U, 1, 1}))
        {
        case 0:
        {
            auto a = c.pick(apps);
            start(a);
            auto k = static_cast<Kind>(oneKind && c.chance(4, 5) ? favourite : c.draw(KINDS));
            auto s = k >= CV ? Srv{} : c.pick(services);
            iox::capro::ServiceDescription d(iox::capro::IdString_t(iox::TruncateToCapacity, s.s.c_str()),
                                             iox::capro::IdString_t(iox::TruncateToCapacity, s.i.c_str()),
                                             iox::capro::IdString_t(iox::TruncateToCapacity, s.e.c_str()));
            auto same = [&](const Srv& x) { return x.s == s.s && x.i == s.i && x.e == s.e; };
            // what was destroyed occupies its place until the next discovery, which RouDi also runs by itself now and then
            bool fine = count(k) < LIMIT[k];
            const bool maybe = fine && count(k) + pending[k] >= LIMIT[k];
            if (k == PUB && std::any_of(internal.begin(), internal.end(), same))
            {
                fine = false;
            }
            if (k == SRV)
            {
                for (auto& p : ports)
                {
                    fine = fine && !(p.k == SRV && same(p.s));
                }
            }
            auto& rt = *env::Factory::active();
            void* p = nullptr;
            switch (k)
            {
            case PUB:
                p = rt.getMiddlewarePublisher(d, {}, {});
                break;
            case SUB:
                p = rt.getMiddlewareSubscriber(d, {}, {});
                break;
            case CLI:
                p = rt.getMiddlewareClient(d, {}, {});
                break;
            case SRV:
                p = rt.getMiddlewareServer(d, {}, {});
                break;
            case CV:
                p = rt.getMiddlewareConditionVariable();
                break;
            default:
                p = rt.getMiddlewareInterface(iox::capro::Interfaces::INTERNAL, {});
                break;
            }
            c.log("%s asks for a %s %s/%s/%s: %s", a.c_str(), KN[k], s.s.c_str(), s.i.c_str(), s.e.c_str(), p ? "granted" : "refused");
            if (maybe && p == nullptr)
            {
                ++refused;
                break;
            }
            PBT_CHECK(c, (p != nullptr) == fine, fine ? "refused" : "granted", "%s: a %s (%s/%s/%s) was %s with %lu of %lu in use", a.c_str(), KN[k],
                      s.s.c_str(), s.i.c_str(), s.e.c_str(), p ? "granted" : "refused", (unsigned long)count(k), (unsigned long)LIMIT[k]);
            (p != nullptr ? granted : refused)++;
            if (p != nullptr)
            {
                for (auto& q : ports)
                {
                    PBT_CHECK(c, q.at != p, "shared-port", "a %s and a %s share their memory", KN[k], KN[q.k]);
                }
                ports.push_back({k, a, s, p});
            }
            break;
        }
        case 1:
        {
            if (ports.empty())
            {
                break;
            }
            auto n = c.range(1, 4);
            for (uint32_t j = 0; j < n && !ports.empty(); ++j)
            {
                auto x = c.draw(uint32_t(ports.size()));
                auto p = ports[x];
                ports.erase(ports.begin() + x);
                c.log("%s destroys a %s %s/%s/%s", p.app.c_str(), KN[p.k], p.s.s.c_str(), p.s.i.c_str(), p.s.e.c_str());
                ++pending[p.k];
                switch (p.k)
                {
                case PUB:
                    iox::PublisherPortUserType(static_cast<iox::PublisherPortUserType::MemberType_t*>(p.at)).destroy();
                    break;
                case SUB:
                    iox::SubscriberPortUserType(static_cast<iox::SubscriberPortUserType::MemberType_t*>(p.at)).destroy();
                    break;
                case CLI:
                    iox::popo::ClientPortUser(*static_cast<iox::popo::ClientPortData*>(p.at)).destroy();
                    break;
                case SRV:
                    iox::popo::ServerPortUser(*static_cast<iox::popo::ServerPortData*>(p.at)).destroy();
                    break;
                case CV:
                    static_cast<iox::popo::ConditionVariableData*>(p.at)->m_toBeDestroyed.store(true);
                    break;
                default:
                    iox::popo::InterfacePort(static_cast<iox::popo::InterfacePortData*>(p.at)).destroy();
                    break;
                }
            }
            if (c.chance(1, 2))
            {
                e.discover();
                pending.clear();
            }
            break;
        }
        case 2:
        {
            auto a = c.pick(apps);
            if (running.erase(a) != 0)
            {
                c.log("%s terminates", a.c_str());
                e.removeApp(a);
                ports.erase(std::remove_if(ports.begin(), ports.end(), [&](auto& p) { return p.app == a; }), ports.end());
            }
            break;
        }
        default:
            e.discover();
            pending.clear();
            auto have = inventory(pool);
            for (int k = 0; k < KINDS; ++k)
            {
                PBT_CHECK(c, have[static_cast<Kind>(k)].size() == count(static_cast<Kind>(k)), "inventory", "%zu %ss instead of %lu",
                          have[static_cast<Kind>(k)].size(), KN[k], (unsigned long)count(static_cast<Kind>(k)));
            }
            break;
        }
    }
    for (auto& a : running)
    {
        e.removeApp(a);
    }
    auto have = inventory(pool);
    for (int k = 0; k < KINDS; ++k)
    {
        PBT_CHECK(c, have[static_cast<Kind>(k)].size() == base[static_cast<Kind>(k)].size(), "left", "%ss are left when all are gone", KN[k]);
    }
    PBT_CHECK(c, e.usedChunks() == 0, "chunks", "%u chunks in use when all are gone", e.usedChunks());
    c.count("granted", granted);
    c.count("refused", refused);
    c.nontrivial(granted >= 5 && refused >= 1);
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    tests.push_back({"messages", messages<false>, 1.0, 120, 20});
    tests.push_back({"limits", messages<true>, 1.0, 120, 20});
    tests.push_back({"monitoring", monitoring, 1.0, 180, 10});
    tests.push_back({"runtimes", runtimes, 1.0, 120, 20});
    tests.push_back({"processes", processes, 1.0, 180, 4});
    return pbt::runAll(argc, argv, tests);
}
