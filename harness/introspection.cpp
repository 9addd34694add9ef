// The introspection topics tell the truth about processes, ports and memory pools (S27).
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "iox_env.hpp"

#include <algorithm>
#include <grp.h>
#include <semaphore.h>
#include <set>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <tuple>

using pbt::Case;
using namespace iox::roudi;

// Every application of a case lives in this process; each gets a process id of its own.
namespace
{
thread_local pid_t t_pid = 0;
}
extern "C" pid_t getpid() noexcept
{
    return t_pid != 0 ? t_pid : static_cast<pid_t>(syscall(SYS_getpid));
}
// nothing may be signalled
extern "C" int kill(pid_t p, int s) noexcept
{
    if (p > 0 && p < 100000000)
    {
        return static_cast<int>(syscall(SYS_kill, p, s));
    }
    errno = ESRCH;
    return -1;
}
// periodic tasks wait for their next turn with this: let them turn faster
extern "C" int sem_timedwait(sem_t* s, const timespec* t)
{
    timespec now{};
    clock_gettime(CLOCK_REALTIME, &now);
    int64_t rem = (t->tv_sec - now.tv_sec) * 1000000000LL + (t->tv_nsec - now.tv_nsec);
    if (rem > 30000000LL && rem <= 1500000000LL)
    {
        rem /= 16;
    }
    if (sem_trywait(s) == 0)
    {
        return 0;
    }
    if (rem <= 0)
    {
        errno = ETIMEDOUT;
        return -1;
    }
    timespec mono{};
    clock_gettime(CLOCK_MONOTONIC, &mono);
    const int64_t end = mono.tv_sec * 1000000000LL + mono.tv_nsec + rem;
    timespec abs{end / 1000000000LL, end % 1000000000LL};
    return sem_clockwait(s, CLOCK_MONOTONIC, &abs);
}

namespace
{
using iox::capro::ServiceDescription;
using iox::popo::ConsumerTooSlowPolicy;
using iox::popo::QueueFullPolicy;

struct Sub
{
    std::string app;
    ServiceDescription s;
    iox::popo::SubscriberOptions o;
    std::unique_ptr<iox::popo::UntypedSubscriber> p;
};
struct Pub
{
    std::string app;
    ServiceDescription s;
    iox::popo::PublisherOptions o;
    std::unique_ptr<iox::popo::UntypedPublisher> p;
    std::vector<void*> loans;
};
using PubKey = std::tuple<std::string, std::string, std::string, std::string, uint64_t, std::string, bool, int>;
using SubKey = std::
    tuple<std::string, std::string, std::string, std::string, uint64_t, uint64_t, std::string, bool, int, bool>;

std::string str(const PubKey& k)
{
    return std::get<0>(k) + ":" + std::get<1>(k) + "/" + std::get<2>(k) + "/" + std::get<3>(k) + " history "
           + std::to_string(std::get<4>(k)) + " node '" + std::get<5>(k) + "' offer " + std::to_string(std::get<6>(k))
           + " policy " + std::to_string(std::get<7>(k));
}
std::string str(const SubKey& k)
{
    return std::get<0>(k) + ":" + std::get<1>(k) + "/" + std::get<2>(k) + "/" + std::get<3>(k) + " queue "
           + std::to_string(std::get<4>(k)) + " history " + std::to_string(std::get<5>(k)) + " node '" + std::get<6>(k)
           + "' subscribe " + std::to_string(std::get<7>(k)) + " policy " + std::to_string(std::get<8>(k)) + " require "
           + std::to_string(std::get<9>(k));
}
template <typename S>
PubKey keyOf(const std::string& app, const S& svc, const iox::popo::PublisherOptions& o)
{
    return PubKey{app,
                  std::get<0>(svc),
                  std::get<1>(svc),
                  std::get<2>(svc),
                  o.historyCapacity,
                  o.nodeName.c_str(),
                  o.offerOnCreate,
                  static_cast<int>(o.subscriberTooSlowPolicy)};
}
template <typename S>
SubKey keyOf(const std::string& app, const S& svc, const iox::popo::SubscriberOptions& o)
{
    return SubKey{app,
                  std::get<0>(svc),
                  std::get<1>(svc),
                  std::get<2>(svc),
                  o.queueCapacity,
                  o.historyRequest,
                  o.nodeName.c_str(),
                  o.subscribeOnCreate,
                  static_cast<int>(o.queueFullPolicy),
                  o.requiresPublisherHistorySupport};
}
std::tuple<std::string, std::string, std::string> names(const ServiceDescription& s)
{
    return {s.getServiceIDString().c_str(), s.getInstanceIDString().c_str(), s.getEventIDString().c_str()};
}
std::tuple<std::string, std::string, std::string> names(const PortData& s)
{
    return {s.m_caproServiceID.c_str(), s.m_caproInstanceID.c_str(), s.m_caproEventMethodID.c_str()};
}

template <typename T>
std::string diff(std::multiset<T> want, const std::multiset<T>& got)
{
    std::string r;
    for (auto& g : got)
    {
        auto it = want.find(g);
        if (it == want.end())
        {
            r += " unexpected {" + str(g) + "}";
        }
        else
        {
            want.erase(it);
        }
    }
    for (auto& w : want)
    {
        r += " missing {" + str(w) + "}";
    }
    return r;
}

std::string cut32(const char* n)
{
    return std::string(n).substr(0, MAX_GROUP_NAME_LENGTH);
}

void introspection(Case& c)
{
    env::quiet();
    static const std::vector<std::vector<env::PoolCfg>> poolSets{
        {{128, 8}, {1024, 4}}, {{64, 20}}, {{128, 2}, {256, 1}, {512, 3}}};
    auto pools = c.pick(poolSets);
    auto cfg = env::makeConfig(pools);
    // further segments this process cannot be the owner of: they are reported as well
    std::vector<std::pair<std::string, std::string>> groups{
        {iox::PosixGroup::getGroupOfCurrentProcess().getName().c_str(),
         iox::PosixGroup::getGroupOfCurrentProcess().getName().c_str()}};
    std::vector<std::vector<env::PoolCfg>> segPools{pools};
    const uint32_t extra = c.draw(3);
    static const char* const foreign[] = {"daemon", "bin", "sys", "adm"};
    for (uint32_t i = 0; i < extra; ++i)
    {
        const char* w = foreign[c.draw(4)];
        const char* r = foreign[c.draw(4)];
        if (getgrnam(w) == nullptr || getgrnam(r) == nullptr
            || std::any_of(groups.begin(), groups.end(), [&](auto& g) { return g.second == w; }))
        {
            continue;
        }
        std::vector<env::PoolCfg> pc{{64 + 64 * c.draw(4), 1 + c.draw(6)}};
        iox::mepoo::MePooConfig mc;
        for (auto& p : pc)
        {
            mc.addMemPool({p.size, p.count});
        }
        cfg.m_sharedMemorySegments.push_back(
            {iox::PosixGroup::groupName_t(iox::TruncateToCapacity, r), iox::PosixGroup::groupName_t(iox::TruncateToCapacity, w), mc});
        groups.emplace_back(r, w);
        segPools.push_back(pc);
    }
    env::FullEnv e(cfg, true);
    const pid_t self = static_cast<pid_t>(syscall(SYS_getpid));

    std::map<std::string, pid_t> apps;
    pid_t nextPid = 100000000;
    auto newApp = [&](const std::string& n) {
        t_pid = nextPid;
        nextPid += 1 + static_cast<pid_t>(c.draw(3));
        apps[n] = t_pid;
        c.log("application %s pid %d", n.c_str(), t_pid);
        e.activate(n);
        t_pid = 0;
    };
    std::vector<Sub> subs;
    std::vector<Pub> pubs;
    newApp("observer");

    iox::popo::SubscriberOptions io;
    io.historyRequest = 1;
    io.queueCapacity = 1;
    auto track = [&](const std::string& app, const ServiceDescription& s, iox::popo::SubscriberOptions o) {
        if (o.nodeName.empty())
        {
            o.nodeName = iox::NodeName_t(iox::TruncateToCapacity, app.c_str());
        }
        subs.push_back({app, s, o, nullptr});
    };
    e.activate("observer");
    iox::popo::Subscriber<ProcessIntrospectionFieldTopic> sProc(IntrospectionProcessService, io);
    track("observer", IntrospectionProcessService, io);
    iox::popo::Subscriber<PortIntrospectionFieldTopic> sPort(IntrospectionPortService, io);
    track("observer", IntrospectionPortService, io);
    iox::popo::Subscriber<SubscriberPortChangingIntrospectionFieldTopic> sChg(
        IntrospectionSubscriberPortChangingDataService, io);
    track("observer", IntrospectionSubscriberPortChangingDataService, io);
    iox::popo::Subscriber<MemPoolIntrospectionInfoContainer> sMem(IntrospectionMempoolService, io);
    track("observer", IntrospectionMempoolService, io);

    std::unique_ptr<ProcessIntrospectionFieldTopic> proc;
    std::unique_ptr<PortIntrospectionFieldTopic> port;
    std::unique_ptr<SubscriberPortChangingIntrospectionFieldTopic> chg;
    std::unique_ptr<MemPoolIntrospectionInfoContainer> mem;
    uint64_t memSamples = 0, chgSamples = 0;
    // newest of each topic
    auto refresh = [&] {
        while (true)
        {
            auto r = sProc.take();
            if (r.has_error())
            {
                break;
            }
            proc = std::make_unique<ProcessIntrospectionFieldTopic>(*r.value());
        }
        while (true)
        {
            auto r = sPort.take();
            if (r.has_error())
            {
                break;
            }
            port = std::make_unique<PortIntrospectionFieldTopic>(*r.value());
        }
        while (true)
        {
            auto r = sChg.take();
            if (r.has_error())
            {
                break;
            }
            ++chgSamples;
            chg = std::make_unique<SubscriberPortChangingIntrospectionFieldTopic>(*r.value());
        }
        while (true)
        {
            auto r = sMem.take();
            if (r.has_error())
            {
                break;
            }
            ++memSamples;
            mem = std::make_unique<MemPoolIntrospectionInfoContainer>(*r.value());
        }
    };
    // the fewest free chunks: at most what was seen after an operation, at least what was seen before it less the one it
    // may have taken (a refused loan takes one for a moment; RouDi may release others meanwhile)
    std::vector<uint32_t> minFree, minFreeLow;
    for (auto& p : pools)
    {
        minFree.push_back(p.count);
        minFreeLow.push_back(p.count);
    }
    auto beforeLoan = [&] {
        auto st = e.pools();
        for (size_t i = 0; i < st.size(); ++i)
        {
            const uint32_t f = st[i].total - st[i].used;
            minFreeLow[i] = std::min(minFreeLow[i], f == 0 ? 0 : f - 1);
        }
    };
    auto observePools = [&] {
        auto st = e.pools();
        for (size_t i = 0; i < st.size(); ++i)
        {
            minFree[i] = std::min(minFree[i], st[i].total - st[i].used);
        }
    };

    auto checkProc = [&]() -> std::string {
        if (!proc)
        {
            return "nothing received";
        }
        std::multiset<std::pair<std::string, int>> want, got;
        want.insert({IPC_CHANNEL_ROUDI_NAME, static_cast<int>(self)});
        for (auto& a : apps)
        {
            want.insert({a.first, a.second});
        }
        for (auto& p : proc->m_processList)
        {
            got.insert({p.m_name.c_str(), p.m_pid});
        }
        if (want == got)
        {
            return "";
        }
        std::string r;
        for (auto& g : got)
        {
            if (want.count(g) != got.count(g))
            {
                r += " unexpected " + g.first + ":" + std::to_string(g.second);
            }
        }
        for (auto& w : want)
        {
            if (got.count(w) != want.count(w))
            {
                r += " missing " + w.first + ":" + std::to_string(w.second);
            }
        }
        return r;
    };
    auto checkPort = [&]() -> std::string {
        if (!port)
        {
            return "nothing received";
        }
        std::multiset<PubKey> wantP, gotP;
        std::multiset<SubKey> wantS, gotS;
        for (auto& p : pubs)
        {
            wantP.insert(keyOf(p.app, names(p.s), p.o));
        }
        for (auto& s : subs)
        {
            wantS.insert(keyOf(s.app, names(s.s), s.o));
        }
        std::set<uint64_t> ids;
        std::map<std::tuple<std::string, std::string, std::string>, int> own;
        for (auto& p : port->m_publisherList)
        {
            if (!ids.insert(p.m_publisherPortID).second)
            {
                return " two publishers with id " + std::to_string(p.m_publisherPortID);
            }
            if (std::string(p.m_name.c_str()) == IPC_CHANNEL_ROUDI_NAME)
            {
                ++own[names(p)];
                continue;
            }
            gotP.insert(keyOf(p.m_name.c_str(), names(p), p.m_publisherOptions));
        }
        for (auto* s : {&IntrospectionProcessService,
                        &IntrospectionPortService,
                        &IntrospectionSubscriberPortChangingDataService,
                        &IntrospectionMempoolService,
                        &IntrospectionPortThroughputService})
        {
            if (own[names(*s)] != 1)
            {
                return " introspection's own publisher " + std::get<2>(names(*s)) + " listed "
                       + std::to_string(own[names(*s)]) + " times";
            }
        }
        for (auto& s : port->m_subscriberList)
        {
            gotS.insert(keyOf(s.m_name.c_str(), names(s), s.m_subscriberOptions));
        }
        return diff(wantP, gotP) + diff(wantS, gotS);
    };
    auto checkChg = [&]() -> std::string {
        if (!port || !chg)
        {
            return "nothing received";
        }
        if (port->m_subscriberList.size() != chg->subscriberPortChangingDataList.size())
        {
            return " " + std::to_string(chg->subscriberPortChangingDataList.size()) + " states for "
                   + std::to_string(port->m_subscriberList.size()) + " subscribers";
        }
        // subscribers with equal description and owner cannot be told apart: compare the sets of states
        std::map<SubKey, std::multiset<int>> want, got;
        for (auto& s : subs)
        {
            auto st = s.p ? s.p->getSubscriptionState() : iox::SubscribeState::SUBSCRIBED;
            want[keyOf(s.app, names(s.s), s.o)].insert(static_cast<int>(st));
        }
        for (uint64_t i = 0; i < port->m_subscriberList.size(); ++i)
        {
            auto& s = port->m_subscriberList[i];
            got[keyOf(s.m_name.c_str(), names(s), s.m_subscriberOptions)].insert(
                static_cast<int>(chg->subscriberPortChangingDataList[i].subscriptionState));
        }
        for (auto& w : want)
        {
            if (got[w.first] != w.second)
            {
                std::string r = " states of {" + str(w.first) + "}:";
                for (auto x : got[w.first])
                {
                    r += " " + std::to_string(x);
                }
                r += " instead of";
                for (auto x : w.second)
                {
                    r += " " + std::to_string(x);
                }
                return r;
            }
        }
        return "";
    };
    auto checkMem = [&]() -> std::string {
        if (!mem)
        {
            return "nothing received";
        }
        if (mem->size() != 1 + segPools.size())
        {
            return " " + std::to_string(mem->size()) + " segments";
        }
        auto own = cut32(iox::PosixGroup::getGroupOfCurrentProcess().getName().c_str());
        auto st = e.pools();
        for (uint64_t i = 0; i < mem->size(); ++i)
        {
            auto& m = (*mem)[i];
            std::string at = " segment " + std::to_string(i);
            if (m.m_id != i)
            {
                return at + " has id " + std::to_string(m.m_id);
            }
            auto r = i == 0 ? own : cut32(groups[i - 1].first.c_str());
            auto w = i == 0 ? own : cut32(groups[i - 1].second.c_str());
            if (r != m.m_readerGroupName.c_str() || w != m.m_writerGroupName.c_str())
            {
                return at + " groups " + m.m_readerGroupName.c_str() + "/" + m.m_writerGroupName.c_str();
            }
            if (i == 0)
            {
                continue;
            }
            auto& pc = segPools[i - 1];
            if (m.m_mempoolInfo.size() != pc.size())
            {
                return at + " has " + std::to_string(m.m_mempoolInfo.size()) + " pools";
            }
            for (uint64_t k = 0; k < pc.size(); ++k)
            {
                auto& x = m.m_mempoolInfo[k];
                const uint32_t used = i == 1 ? st[k].used : 0;
                const uint32_t free = i == 1 ? minFree[k] : pc[k].count;
                const uint32_t freeLow = i == 1 ? minFreeLow[k] : pc[k].count;
                if (x.m_numChunks != pc[k].count || x.m_chunkPayloadSize != pc[k].size
                    || x.m_chunkSize != pc[k].size + sizeof(iox::mepoo::ChunkHeader) || x.m_usedChunks != used
                    || x.m_minFreeChunks > free || x.m_minFreeChunks < freeLow)
                {
                    char b[300];
                    snprintf(b,
                             sizeof b,
                             "%s pool %lu reported: %u of %u used, at least %u free, sizes %lu/%lu; true: %u of %u, %u, %lu",
                             at.c_str(),
                             k,
                             x.m_usedChunks,
                             x.m_numChunks,
                             x.m_minFreeChunks,
                             x.m_chunkPayloadSize,
                             x.m_chunkSize,
                             used,
                             pc[k].count,
                             free,
                             pc[k].size);
                    return b;
                }
            }
        }
        return "";
    };
    uint64_t agreed = 0;
    auto agree = [&] {
        e.discover();
        auto t0 = std::chrono::steady_clock::now();
        while (true)
        {
            refresh();
            auto p = checkProc();
            auto q = checkPort();
            auto s = checkChg();
            auto m = checkMem();
            if (p.empty() && q.empty() && s.empty() && m.empty())
            {
                break;
            }
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(8))
            {
                PBT_CHECK(c, p.empty(), "processes", "process introspection:%s", p.c_str());
                PBT_CHECK(c, q.empty(), "ports", "port introspection:%s", q.c_str());
                PBT_CHECK(c, s.empty(), "subscriber-states", "subscriber states:%s", s.c_str());
                PBT_CHECK(c, m.empty(), "pools", "memory pool introspection:%s", m.c_str());
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(5));
        }
        ++agreed;
    };
    static const char* const word[] = {"a", "b", "Radar", "FrontLeft"};
    auto service = [&] {
        return ServiceDescription{iox::capro::IdString_t(iox::TruncateToCapacity, word[c.draw(4)]),
                                  iox::capro::IdString_t(iox::TruncateToCapacity, word[c.draw(2)]),
                                  iox::capro::IdString_t(iox::TruncateToCapacity, word[c.draw(2)])};
    };
    auto someApp = [&] {
        auto it = apps.begin();
        std::advance(it, c.draw(static_cast<uint32_t>(apps.size())));
        return it->first;
    };
    agree();
    uint32_t ops = 0, appNo = 0;
    const uint32_t rounds = 1 + c.draw(8);
    const bool manyApps = c.chance(1, 5);
    for (uint32_t r = 0; r < rounds; ++r)
    {
        const uint32_t n = 1 + c.draw(manyApps ? 12 : 6);
        for (uint32_t k = 0; k < n; ++k)
        {
            ++ops;
            switch (c.weighted({manyApps ? 8u : 2u, 1, 4, 4, 2, 2, 3, 3, 4, 2, 2}))
            {
            case 0:
                if (apps.size() < iox::MAX_PROCESS_NUMBER)
                {
                    newApp("app" + std::to_string(appNo++));
                }
                break;
            case 1: {
                auto a = someApp();
                if (a == "observer")
                {
                    break;
                }
                // gone without destroying its endpoints, or orderly
                const bool abandon = c.chance(1, 2);
                c.log("application %s %s", a.c_str(), abandon ? "ends without clean-up" : "ends");
                for (auto& p : pubs)
                {
                    if (p.app == a && abandon)
                    {
                        p.p.release();
                    }
                }
                for (auto& s : subs)
                {
                    if (s.app == a && abandon)
                    {
                        s.p.release();
                    }
                }
                for (auto& p : pubs)
                {
                    if (p.app == a && p.p)
                    {
                        for (auto* l : p.loans)
                        {
                            p.p->release(l);
                        }
                    }
                }
                pubs.erase(std::remove_if(pubs.begin(), pubs.end(), [&](auto& x) { return x.app == a; }), pubs.end());
                subs.erase(std::remove_if(subs.begin(), subs.end(), [&](auto& x) { return x.app == a; }), subs.end());
                e.removeApp(a);
                apps.erase(a);
                break;
            }
            case 2: {
                if (pubs.size() >= 14)
                {
                    break;
                }
                Pub p;
                p.app = someApp();
                p.s = service();
                p.o.historyCapacity = c.draw(9);
                p.o.offerOnCreate = c.chance(2, 3);
                p.o.subscriberTooSlowPolicy =
                    c.chance(1, 4) ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
                if (c.chance(1, 3))
                {
                    p.o.nodeName = "node";
                }
                c.log("publisher %s %s", p.app.c_str(), str(keyOf(p.app, names(p.s), p.o)).c_str());
                e.activate(p.app);
                p.p = std::make_unique<iox::popo::UntypedPublisher>(p.s, p.o);
                // the effective options
                p.o.historyCapacity = std::min<uint64_t>(p.o.historyCapacity, iox::MAX_PUBLISHER_HISTORY);
                if (p.o.nodeName.empty())
                {
                    p.o.nodeName = iox::NodeName_t(iox::TruncateToCapacity, p.app.c_str());
                }
                pubs.push_back(std::move(p));
                break;
            }
            case 3: {
                if (subs.size() >= 24)
                {
                    break;
                }
                Sub s;
                s.app = someApp();
                s.s = service();
                s.o.queueCapacity = c.draw(16);
                s.o.historyRequest = c.draw(16);
                s.o.subscribeOnCreate = c.chance(2, 3);
                s.o.queueFullPolicy = c.chance(1, 4) ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
                s.o.requiresPublisherHistorySupport = c.chance(1, 4);
                if (c.chance(1, 3))
                {
                    s.o.nodeName = "node";
                }
                c.log("subscriber %s %s", s.app.c_str(), str(keyOf(s.app, names(s.s), s.o)).c_str());
                e.activate(s.app);
                s.p = std::make_unique<iox::popo::UntypedSubscriber>(s.s, s.o);
                constexpr uint64_t CAP = iox::SubscriberPortUserType::MemberType_t::ChunkQueueData_t::MAX_CAPACITY;
                s.o.queueCapacity = std::max<uint64_t>(1, std::min<uint64_t>(s.o.queueCapacity, CAP));
                s.o.historyRequest = std::min(s.o.historyRequest, s.o.queueCapacity);
                if (s.o.nodeName.empty())
                {
                    s.o.nodeName = iox::NodeName_t(iox::TruncateToCapacity, s.app.c_str());
                }
                subs.push_back(std::move(s));
                break;
            }
            case 4:
                if (!pubs.empty())
                {
                    auto i = c.draw(static_cast<uint32_t>(pubs.size()));
                    for (auto* l : pubs[i].loans)
                    {
                        pubs[i].p->release(l);
                    }
                    c.log("publisher %u destroyed", i);
                    pubs.erase(pubs.begin() + i);
                }
                break;
            case 5: {
                auto i = c.draw(static_cast<uint32_t>(subs.size()));
                if (subs[i].p)
                {
                    c.log("subscriber %u destroyed", i);
                    subs.erase(subs.begin() + i);
                }
                break;
            }
            case 6:
                if (!pubs.empty())
                {
                    auto& p = pubs[c.draw(static_cast<uint32_t>(pubs.size()))];
                    c.log("publisher of %s %s", p.app.c_str(), p.p->isOffered() ? "stops" : "offers");
                    p.p->isOffered() ? p.p->stopOffer() : p.p->offer();
                }
                break;
            case 7: {
                auto& s = subs[c.draw(static_cast<uint32_t>(subs.size()))];
                if (s.p)
                {
                    const bool on = s.p->getSubscriptionState() == iox::SubscribeState::NOT_SUBSCRIBED;
                    c.log("subscriber of %s %s", s.app.c_str(), on ? "subscribes" : "unsubscribes");
                    on ? s.p->subscribe() : s.p->unsubscribe();
                }
                break;
            }
            case 8:
                if (!pubs.empty())
                {
                    auto& p = pubs[c.draw(static_cast<uint32_t>(pubs.size()))];
                    auto sz = static_cast<uint32_t>(1 + c.draw(1100));
                    beforeLoan();
                    auto l = p.p->loan(sz);
                    c.log("loan of %u by a publisher of %s: %s", sz, p.app.c_str(), l.has_error() ? "refused" : "granted");
                    if (!l.has_error())
                    {
                        p.loans.push_back(l.value());
                    }
                    observePools();
                }
                break;
            case 9:
                if (!pubs.empty())
                {
                    auto& p = pubs[c.draw(static_cast<uint32_t>(pubs.size()))];
                    if (!p.loans.empty())
                    {
                        // a publisher that may have to wait is not asked to publish here
                        if (p.o.subscriberTooSlowPolicy == ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA && c.chance(1, 2))
                        {
                            p.p->publish(p.loans.back());
                        }
                        else
                        {
                            p.p->release(p.loans.back());
                        }
                        p.loans.pop_back();
                        observePools();
                    }
                }
                break;
            default: {
                auto& s = subs[c.draw(static_cast<uint32_t>(subs.size()))];
                if (s.p)
                {
                    s.p->releaseQueuedData();
                    observePools();
                }
                break;
            }
            }
        }
        agree();
    }
    c.count("operations", ops);
    c.count("states compared", agreed);
    c.nontrivial(ops >= 3 && agreed >= 2);
    for (auto& p : pubs)
    {
        for (auto* l : p.loans)
        {
            p.p->release(l);
        }
    }
    pubs.clear();
    subs.clear();
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    pbt::Test t;
    t.name = "introspection";
    t.run = introspection;
    t.block = 40;
    t.hangSec = 60;
    tests.push_back(t);
    return pbt::runAll(argc, argv, tests);
}
