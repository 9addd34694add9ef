// In-process iceoryx environments for the harnesses.
//
// DirectEnv: the real RouDi memory manager and the real PortManager, driven synchronously. The user-facing classes
//            (Publisher, Subscriber, Client, Server, WaitSet, Listener, ServiceDiscovery, C binding) are used unchanged; only the
//            IPC hop between application and RouDi is replaced by a direct call. Discovery happens exactly when the
//            harness asks for it, so a history is deterministic and can be shrunk.
// FullEnv:   a complete RouDi (threads, IPC channel, process manager) plus the real application runtime.
#pragma once
#include "iceoryx_posh/iceoryx_posh_config.hpp"
#include "iceoryx_posh/iceoryx_posh_types.hpp"
#include "iceoryx_posh/internal/roudi/roudi.hpp"
#include "iceoryx_posh/internal/runtime/posh_runtime_impl.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_components.hpp"
#include "iceoryx_posh/roudi/memory/iceoryx_roudi_memory_manager.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iox/logging.hpp"
#include "pbt.hpp"
#include "iox/posix_group.hpp"
#include "iox/posix_user.hpp"

#include <cstring>
#include <dirent.h>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

namespace env
{
struct PoolCfg
{
    uint64_t size;
    uint32_t count;
};

struct PoolState
{
    uint64_t chunkSize;
    uint32_t total;
    uint32_t used;
};

inline uint16_t domainOf(pid_t p)
{
    // two live processes never share a domain: pids are unique and below 4 million; 16 bits are all we get, 0 is
    // the default domain
    return static_cast<uint16_t>(1 + (static_cast<uint32_t>(p) % 65534));
}
inline uint16_t processDomain()
{
    return domainOf(getpid());
}

/// a harness process that ended without destroying its environment leaves shared memory and sockets behind
inline void removeLeftovers(pid_t p)
{
    const std::string pref =
        std::string(iox::build::IOX_DEFAULT_RESOURCE_PREFIX) + "_" + std::to_string(domainOf(p)) + "_";
    for (auto* dir : {"/dev/shm", "/tmp"})
    {
        DIR* d = opendir(dir);
        if (d == nullptr)
        {
            continue;
        }
        while (auto* x = readdir(d))
        {
            if (strncmp(x->d_name, pref.c_str(), pref.size()) == 0)
            {
                unlink((std::string(dir) + "/" + x->d_name).c_str());
            }
        }
        closedir(d);
    }
}
inline const bool g_removeLeftovers = (pbt::reaped() = removeLeftovers, true);

inline iox::IceoryxConfig makeConfig(const std::vector<PoolCfg>& pools, uint16_t domain = processDomain())
{
    iox::IceoryxConfig cfg;
    iox::mepoo::MePooConfig mc;
    for (auto& p : pools)
    {
        mc.addMemPool({p.size, p.count});
    }
    auto g = iox::PosixGroup::getGroupOfCurrentProcess();
    cfg.m_sharedMemorySegments.push_back({g.getName(), g.getName(), mc});
    cfg.introspectionChunkCount = 10;
    cfg.discoveryChunkCount = 10;
    cfg.domainId = iox::DomainId{domain};
    cfg.sharesAddressSpaceWithApplications = true;
    return cfg;
}

class Env
{
  public:
    virtual ~Env() = default;
    /// subsequent endpoint constructions happen in the application `app`
    virtual void activate(const std::string& app) = 0;
    /// one complete discovery run of RouDi
    virtual void discover() = 0;
    /// RouDi removes everything the application owns (as after termination or a detected crash)
    virtual void removeApp(const std::string& app) = 0;
    virtual bool lazyDiscoveryPossible() const = 0;
    virtual iox::roudi::IceOryxRouDiComponents& components() = 0;

    static Env*& current()
    {
        static Env* e = nullptr;
        return e;
    }

    std::vector<PoolState> pools()
    {
        std::vector<PoolState> out;
        auto user = iox::PosixUser::getUserOfCurrentProcess();
        auto seg = components().rouDiMemoryManager.segmentManager().value();
        auto info = seg->getSegmentInformationWithWriteAccessForUser(user);
        auto& mm = info.m_memoryManager.value().get();
        for (uint32_t i = 0; i < mm.getNumberOfMemPools(); ++i)
        {
            auto pi = mm.getMemPoolInfo(i);
            out.push_back({pi.m_chunkSize, pi.m_numChunks, pi.m_usedChunks});
        }
        return out;
    }
    uint32_t usedChunks()
    {
        uint32_t n = 0;
        for (auto& p : pools())
        {
            n += p.used;
        }
        return n;
    }
};

/// gives access to the protected factory hook every application runtime is obtained through
class Factory : public iox::runtime::PoshRuntime
{
  public:
    static iox::runtime::PoshRuntime*& active()
    {
        static iox::runtime::PoshRuntime* rt = nullptr;
        return rt;
    }
    static iox::runtime::PoshRuntime& get(iox::optional<const iox::RuntimeName_t*> name)
    {
        if (name.has_value() && Env::current() != nullptr)
        {
            Env::current()->activate(name.value()->c_str());
        }
        if (active() == nullptr)
        {
            fprintf(stderr, "harness error: no active runtime\n");
            abort();
        }
        return *active();
    }
    static void install()
    {
        setRuntimeFactory(get);
    }
};

class DirectRuntime : public iox::runtime::PoshRuntime
{
  public:
    DirectRuntime(const iox::RuntimeName_t& name, iox::roudi::IceOryxRouDiComponents& c)
        : PoshRuntime(iox::make_optional<const iox::RuntimeName_t*>(&name))
        , m_c(c)
    {
        auto user = iox::PosixUser::getUserOfCurrentProcess();
        m_mm = &c.rouDiMemoryManager.segmentManager()
                    .value()
                    ->getSegmentInformationWithWriteAccessForUser(user)
                    .m_memoryManager.value()
                    .get();
    }
    iox::PublisherPortUserType::MemberType_t*
    getMiddlewarePublisher(const iox::capro::ServiceDescription& service,
                           const iox::popo::PublisherOptions& o,
                           const iox::runtime::PortConfigInfo& p) noexcept override
    {
        lastOptions().pub = o;
        auto r = m_c.portManager.acquirePublisherPortData(service, o, m_appName, m_mm, p);
        m_lastFailed = r.has_error();
        return r.has_error() ? nullptr : r.value();
    }
    iox::SubscriberPortUserType::MemberType_t*
    getMiddlewareSubscriber(const iox::capro::ServiceDescription& service,
                            const iox::popo::SubscriberOptions& o,
                            const iox::runtime::PortConfigInfo& p) noexcept override
    {
        lastOptions().sub = o;
        auto r = m_c.portManager.acquireSubscriberPortData(service, o, m_appName, p);
        m_lastFailed = r.has_error();
        return r.has_error() ? nullptr : r.value();
    }
    iox::popo::ClientPortData* getMiddlewareClient(const iox::capro::ServiceDescription& service,
                                                   const iox::popo::ClientOptions& o,
                                                   const iox::runtime::PortConfigInfo& p) noexcept override
    {
        lastOptions().cli = o;
        auto r = m_c.portManager.acquireClientPortData(service, o, m_appName, m_mm, p);
        m_lastFailed = r.has_error();
        return r.has_error() ? nullptr : r.value();
    }
    iox::popo::ServerPortData* getMiddlewareServer(const iox::capro::ServiceDescription& service,
                                                   const iox::popo::ServerOptions& o,
                                                   const iox::runtime::PortConfigInfo& p) noexcept override
    {
        lastOptions().ser = o;
        auto r = m_c.portManager.acquireServerPortData(service, o, m_appName, m_mm, p);
        m_lastFailed = r.has_error();
        return r.has_error() ? nullptr : r.value();
    }
    iox::popo::InterfacePortData* getMiddlewareInterface(const iox::capro::Interfaces i,
                                                         const iox::NodeName_t&) noexcept override
    {
        return m_c.portManager.acquireInterfacePortData(i, m_appName);
    }
    iox::popo::ConditionVariableData* getMiddlewareConditionVariable() noexcept override
    {
        auto r = m_c.portManager.acquireConditionVariableData(m_appName);
        m_lastFailed = r.has_error();
        return r.has_error() ? nullptr : r.value();
    }
    bool sendRequestToRouDi(const iox::runtime::IpcMessage&,
                            iox::runtime::IpcMessage&,
                            iox::optional<iox::units::Duration>) noexcept override
    {
        return false;
    }
    bool m_lastFailed{false};

    /// what the most recent endpoint of each kind was requested with
    struct Options
    {
        iox::popo::PublisherOptions pub;
        iox::popo::SubscriberOptions sub;
        iox::popo::ClientOptions cli;
        iox::popo::ServerOptions ser;
    };
    static Options& lastOptions()
    {
        static Options o;
        return o;
    }

  private:
    iox::roudi::IceOryxRouDiComponents& m_c;
    iox::mepoo::MemoryManager* m_mm{nullptr};
};

class DirectEnv : public Env
{
  public:
    explicit DirectEnv(const iox::IceoryxConfig& cfg)
    {
        m_c = std::make_unique<iox::roudi::IceOryxRouDiComponents>(cfg);
        m_c->portManager.stopPortIntrospection();
        current() = this;
        Factory::install();
    }
    ~DirectEnv() override
    {
        Factory::active() = nullptr;
        current() = nullptr;
        m_apps.clear();
    }
    void activate(const std::string& app) override
    {
        auto& a = m_apps[app];
        if (!a)
        {
            a = std::make_unique<DirectRuntime>(
                iox::RuntimeName_t(iox::TruncateToCapacity, app.c_str()), *m_c);
        }
        Factory::active() = a.get();
    }
    void discover() override
    {
        m_c->portManager.doDiscovery();
    }
    void removeApp(const std::string& app) override
    {
        m_c->portManager.deletePortsOfProcess(iox::RuntimeName_t(iox::TruncateToCapacity, app.c_str()));
    }
    bool lazyDiscoveryPossible() const override
    {
        return true;
    }
    iox::roudi::IceOryxRouDiComponents& components() override
    {
        return *m_c;
    }

  private:
    std::unique_ptr<iox::roudi::IceOryxRouDiComponents> m_c;
    std::map<std::string, std::unique_ptr<DirectRuntime>> m_apps;
};

/// PoshRuntimeImpl's constructor is the one thing an application normally reaches through a static
class AppRuntime : public iox::runtime::PoshRuntimeImpl
{
  public:
    AppRuntime(const iox::RuntimeName_t& name, iox::DomainId d)
        : PoshRuntimeImpl(iox::make_optional<const iox::RuntimeName_t*>(&name),
                          d,
                          iox::runtime::RuntimeLocation::SAME_PROCESS_LIKE_ROUDI)
    {
    }
};

class FullEnv : public Env
{
  public:
    explicit FullEnv(const iox::IceoryxConfig& cfg, bool withPortIntrospection = false)
        : m_domain(cfg.domainId)
    {
        m_c = std::make_unique<iox::roudi::IceOryxRouDiComponents>(cfg);
        if (!withPortIntrospection)
        {
            m_c->portManager.stopPortIntrospection();
        }
        m_roudi = std::make_unique<iox::roudi::RouDi>(m_c->rouDiMemoryManager, m_c->portManager, cfg);
        current() = this;
        Factory::install();
    }
    ~FullEnv() override
    {
        Factory::active() = nullptr;
        m_apps.clear();
        current() = nullptr;
        m_roudi.reset();
        m_c.reset();
    }
    void activate(const std::string& app) override
    {
        auto& a = m_apps[app];
        if (!a)
        {
            a = std::make_unique<AppRuntime>(iox::RuntimeName_t(iox::TruncateToCapacity, app.c_str()), m_domain);
        }
        Factory::active() = a.get();
    }
    void discover() override
    {
        m_roudi->triggerDiscoveryLoopAndWaitToFinish(iox::units::Duration::fromSeconds(10));
    }
    void removeApp(const std::string& app) override
    {
        auto it = m_apps.find(app);
        if (it != m_apps.end())
        {
            if (Factory::active() == it->second.get())
            {
                Factory::active() = nullptr;
            }
            m_apps.erase(it);
        }
    }
    bool lazyDiscoveryPossible() const override
    {
        return false;
    }
    iox::roudi::IceOryxRouDiComponents& components() override
    {
        return *m_c;
    }

  private:
    iox::DomainId m_domain;
    std::unique_ptr<iox::roudi::IceOryxRouDiComponents> m_c;
    std::unique_ptr<iox::roudi::RouDi> m_roudi;
    std::map<std::string, std::unique_ptr<AppRuntime>> m_apps;
};

inline void quiet()
{
    static bool once = [] {
        iox::log::Logger::init(iox::log::logLevelFromEnvOr(iox::log::LogLevel::Off));
        return true;
    }();
    (void)once;
}
} // namespace env
