// Uniform view of the three user-facing publish/subscribe APIs (typed C++, untyped C++, C binding) so that one model
// judges all of them.
#pragma once
#include "iox_env.hpp"

extern "C" {
#include "iceoryx_binding_c/api.h"
#include "iceoryx_binding_c/chunk.h"
#include "iceoryx_binding_c/client.h"
#include "iceoryx_binding_c/listener.h"
#include "iceoryx_binding_c/publisher.h"
#include "iceoryx_binding_c/request_header.h"
#include "iceoryx_binding_c/response_header.h"
#include "iceoryx_binding_c/runtime.h"
#include "iceoryx_binding_c/server.h"
#include "iceoryx_binding_c/service_discovery.h"
#include "iceoryx_binding_c/subscriber.h"
#include "iceoryx_binding_c/user_trigger.h"
#include "iceoryx_binding_c/wait_set.h"
}
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"

namespace ep
{
using iox::popo::AllocationError;
using iox::popo::ChunkReceiveResult;

enum class Alloc
{
    OK,
    NO_POOL,
    OUT_OF_CHUNKS,
    TOO_MANY,
    INVALID,
    OTHER
};
inline const char* str(Alloc a)
{
    const char* n[] = {"OK", "NO_POOL", "OUT_OF_CHUNKS", "TOO_MANY", "INVALID", "OTHER"};
    return n[static_cast<int>(a)];
}
inline Alloc conv(AllocationError e)
{
    switch (e)
    {
    case AllocationError::NO_MEMPOOLS_AVAILABLE:
        return Alloc::NO_POOL;
    case AllocationError::RUNNING_OUT_OF_CHUNKS:
        return Alloc::OUT_OF_CHUNKS;
    case AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL:
        return Alloc::TOO_MANY;
    case AllocationError::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER:
        return Alloc::INVALID;
    default:
        return Alloc::OTHER;
    }
}
inline Alloc conv(iox_AllocationResult e)
{
    switch (e)
    {
    case AllocationResult_SUCCESS:
        return Alloc::OK;
    case AllocationResult_NO_MEMPOOLS_AVAILABLE:
        return Alloc::NO_POOL;
    case AllocationResult_RUNNING_OUT_OF_CHUNKS:
        return Alloc::OUT_OF_CHUNKS;
    case AllocationResult_TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL:
        return Alloc::TOO_MANY;
    case AllocationResult_INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER:
        return Alloc::INVALID;
    default:
        return Alloc::OTHER;
    }
}
enum class Take
{
    OK,
    EMPTY,
    TOO_MANY,
    OTHER
};
inline const char* str(Take t)
{
    const char* n[] = {"OK", "EMPTY", "TOO_MANY", "OTHER"};
    return n[static_cast<int>(t)];
}

struct Srv
{
    std::string s, i, e;
    iox::capro::ServiceDescription cpp() const
    {
        using iox::capro::IdString_t;
        return {IdString_t(iox::TruncateToCapacity, s.c_str()),
                IdString_t(iox::TruncateToCapacity, i.c_str()),
                IdString_t(iox::TruncateToCapacity, e.c_str())};
    }
    bool operator==(const Srv& o) const
    {
        return s == o.s && i == o.i && e == o.e;
    }
    bool operator<(const Srv& o) const
    {
        return std::tie(s, i, e) < std::tie(o.s, o.i, o.e);
    }
};

class Pub
{
  public:
    virtual ~Pub() = default;
    virtual bool fixedSize(uint64_t&) const
    {
        return false;
    }
    virtual Alloc loan(uint64_t size, uint32_t align, uint32_t hdr, uint32_t hdrAlign, void*& payload) = 0;
    virtual void publish(void* payload) = 0;
    virtual void release(void* payload) = 0;
    /// publishCopyOf & friends; not available everywhere
    virtual bool canCopy() const
    {
        return false;
    }
    virtual Alloc publishCopy(const void*)
    {
        return Alloc::OTHER;
    }
    virtual Alloc publishResult(const void*)
    {
        return Alloc::OTHER;
    }
    virtual void offer() = 0;
    virtual void stopOffer() = 0;
    virtual bool isOffered() = 0;
    virtual bool hasSubscribers() = 0;
    virtual bool uid(iox::popo::UniquePortId&)
    {
        return false;
    }
    virtual Srv service() = 0;
    /// the process owning it died: drop every reference without running a destructor of the code under test
    virtual void abandon() = 0;
};

class Sub
{
  public:
    virtual ~Sub() = default;
    virtual Take take(const void*& payload) = 0;
    virtual void release(const void* payload) = 0;
    virtual bool hasData() = 0;
    virtual bool hasMissedData() = 0;
    virtual void releaseQueued() = 0;
    virtual void subscribe() = 0;
    virtual void unsubscribe() = 0;
    virtual iox::SubscribeState state() = 0;
    virtual Srv service() = 0;
    virtual void abandon() = 0;
};

inline Srv fromCpp(const iox::capro::ServiceDescription& d)
{
    return {d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str()};
}

// ---------------------------------------------------------------- untyped C++
class UPub : public Pub
{
  public:
    UPub(const Srv& s, const iox::popo::PublisherOptions& o)
        : p(new iox::popo::UntypedPublisher(s.cpp(), o))
    {
    }
    ~UPub() override
    {
        delete p;
    }
    Alloc loan(uint64_t size, uint32_t align, uint32_t hdr, uint32_t hdrAlign, void*& payload) override
    {
        auto r = p->loan(size, align, hdr, hdrAlign);
        if (r.has_error())
        {
            return conv(r.error());
        }
        payload = r.value();
        return Alloc::OK;
    }
    void publish(void* payload) override
    {
        p->publish(payload);
    }
    void release(void* payload) override
    {
        p->release(payload);
    }
    void offer() override
    {
        p->offer();
    }
    void stopOffer() override
    {
        p->stopOffer();
    }
    bool isOffered() override
    {
        return p->isOffered();
    }
    bool hasSubscribers() override
    {
        return p->hasSubscribers();
    }
    bool uid(iox::popo::UniquePortId& u) override
    {
        u = p->getUid();
        return true;
    }
    Srv service() override
    {
        return fromCpp(p->getServiceDescription());
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox::popo::UntypedPublisher* p;
};

class USub : public Sub
{
  public:
    USub(const Srv& s, const iox::popo::SubscriberOptions& o)
        : p(new iox::popo::UntypedSubscriber(s.cpp(), o))
    {
    }
    ~USub() override
    {
        delete p;
    }
    Take take(const void*& payload) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE ? Take::EMPTY : Take::TOO_MANY;
        }
        payload = r.value();
        return Take::OK;
    }
    void release(const void* payload) override
    {
        p->release(payload);
    }
    bool hasData() override
    {
        return p->hasData();
    }
    bool hasMissedData() override
    {
        return p->hasMissedData();
    }
    void releaseQueued() override
    {
        p->releaseQueuedData();
    }
    void subscribe() override
    {
        p->subscribe();
    }
    void unsubscribe() override
    {
        p->unsubscribe();
    }
    iox::SubscribeState state() override
    {
        return p->getSubscriptionState();
    }
    Srv service() override
    {
        return fromCpp(p->getServiceDescription());
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox::popo::UntypedSubscriber* p;
};

// ---------------------------------------------------------------- typed C++
template <uint64_t N, uint64_t A>
struct alignas(A) Typed
{
    uint8_t b[N];
};

template <typename T>
class TPub : public Pub
{
  public:
    TPub(const Srv& s, const iox::popo::PublisherOptions& o)
        : p(new iox::popo::Publisher<T>(s.cpp(), o))
    {
    }
    ~TPub() override
    {
        loans.clear();
        delete p;
    }
    bool fixedSize(uint64_t& s) const override
    {
        s = sizeof(T);
        return true;
    }
    Alloc loan(uint64_t, uint32_t, uint32_t, uint32_t, void*& payload) override
    {
        auto r = p->loan();
        if (r.has_error())
        {
            return conv(r.error());
        }
        payload = r.value().get();
        loans.emplace(payload, std::move(r.value()));
        return Alloc::OK;
    }
    void publish(void* payload) override
    {
        auto it = loans.find(payload);
        auto s = std::move(it->second);
        loans.erase(it);
        if (m_viaSample)
        {
            s.publish();
        }
        else
        {
            p->publish(std::move(s));
        }
        m_viaSample = !m_viaSample;
    }
    void release(void* payload) override
    {
        loans.erase(payload);
    }
    bool canCopy() const override
    {
        return true;
    }
    Alloc publishCopy(const void* src) override
    {
        auto r = p->publishCopyOf(*static_cast<const T*>(src));
        return r.has_error() ? conv(r.error()) : Alloc::OK;
    }
    Alloc publishResult(const void* src) override
    {
        auto r = p->publishResultOf([src](T* t) { memcpy(static_cast<void*>(t), src, sizeof(T)); });
        return r.has_error() ? conv(r.error()) : Alloc::OK;
    }
    void offer() override
    {
        p->offer();
    }
    void stopOffer() override
    {
        p->stopOffer();
    }
    bool isOffered() override
    {
        return p->isOffered();
    }
    bool hasSubscribers() override
    {
        return p->hasSubscribers();
    }
    bool uid(iox::popo::UniquePortId& u) override
    {
        u = p->getUid();
        return true;
    }
    Srv service() override
    {
        return fromCpp(p->getServiceDescription());
    }
    void abandon() override
    {
        for (auto& l : loans)
        {
            new iox::popo::Sample<T>(std::move(l.second)); // leaked on purpose
        }
        loans.clear();
        p = nullptr;
    }
    iox::popo::Publisher<T>* p;
    std::map<void*, iox::popo::Sample<T>> loans;
    bool m_viaSample{false};
};

template <typename T>
class TSub : public Sub
{
  public:
    TSub(const Srv& s, const iox::popo::SubscriberOptions& o)
        : p(new iox::popo::Subscriber<T>(s.cpp(), o))
    {
    }
    ~TSub() override
    {
        held.clear();
        delete p;
    }
    Take take(const void*& payload) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE ? Take::EMPTY : Take::TOO_MANY;
        }
        payload = r.value().get();
        held.emplace(payload, std::move(r.value()));
        return Take::OK;
    }
    void release(const void* payload) override
    {
        held.erase(held.find(payload));
    }
    bool hasData() override
    {
        return p->hasData();
    }
    bool hasMissedData() override
    {
        return p->hasMissedData();
    }
    void releaseQueued() override
    {
        p->releaseQueuedData();
    }
    void subscribe() override
    {
        p->subscribe();
    }
    void unsubscribe() override
    {
        p->unsubscribe();
    }
    iox::SubscribeState state() override
    {
        return p->getSubscriptionState();
    }
    Srv service() override
    {
        return fromCpp(p->getServiceDescription());
    }
    void abandon() override
    {
        for (auto& l : held)
        {
            new iox::popo::Sample<const T>(std::move(l.second)); // leaked on purpose
        }
        held.clear();
        p = nullptr;
    }
    iox::popo::Subscriber<T>* p;
    // the same chunk can be queued twice (history redelivery), hence a multimap
    std::multimap<const void*, iox::popo::Sample<const T>> held;
};

// ---------------------------------------------------------------- C binding
class CPub : public Pub
{
  public:
    CPub(const Srv& s, const iox::popo::PublisherOptions& o)
    {
        iox_pub_options_t c;
        iox_pub_options_init(&c);
        c.historyCapacity = o.historyCapacity;
        c.offerOnCreate = o.offerOnCreate;
        c.subscriberTooSlowPolicy =
            o.subscriberTooSlowPolicy == iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER
                : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
        storage = new iox_pub_storage_t;
        p = iox_pub_init(storage, s.s.c_str(), s.i.c_str(), s.e.c_str(), &c);
    }
    ~CPub() override
    {
        if (p)
        {
            iox_pub_deinit(p);
            delete storage;
        }
    }
    Alloc loan(uint64_t size, uint32_t align, uint32_t hdr, uint32_t hdrAlign, void*& payload) override
    {
        if (hdr != 0)
        {
            return conv(iox_pub_loan_aligned_chunk_with_user_header(p, &payload, size, align, hdr, hdrAlign));
        }
        if (align != 8)
        {
            return conv(iox_pub_loan_aligned_chunk(p, &payload, size, align));
        }
        return conv(iox_pub_loan_chunk(p, &payload, size));
    }
    void publish(void* payload) override
    {
        iox_pub_publish_chunk(p, payload);
    }
    void release(void* payload) override
    {
        iox_pub_release_chunk(p, payload);
    }
    void offer() override
    {
        iox_pub_offer(p);
    }
    void stopOffer() override
    {
        iox_pub_stop_offer(p);
    }
    bool isOffered() override
    {
        return iox_pub_is_offered(p);
    }
    bool hasSubscribers() override
    {
        return iox_pub_has_subscribers(p);
    }
    Srv service() override
    {
        auto d = iox_pub_get_service_description(p);
        return {d.serviceString, d.instanceString, d.eventString};
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox_pub_storage_t* storage{nullptr};
    iox_pub_t p{nullptr};
};

class CSub : public Sub
{
  public:
    CSub(const Srv& s, const iox::popo::SubscriberOptions& o)
    {
        iox_sub_options_t c;
        iox_sub_options_init(&c);
        c.queueCapacity = o.queueCapacity;
        c.historyRequest = o.historyRequest;
        c.subscribeOnCreate = o.subscribeOnCreate;
        c.queueFullPolicy = o.queueFullPolicy == iox::popo::QueueFullPolicy::BLOCK_PRODUCER
                                ? QueueFullPolicy_BLOCK_PRODUCER
                                : QueueFullPolicy_DISCARD_OLDEST_DATA;
        c.requirePublisherHistorySupport = o.requiresPublisherHistorySupport;
        storage = new iox_sub_storage_t;
        p = iox_sub_init(storage, s.s.c_str(), s.i.c_str(), s.e.c_str(), &c);
    }
    ~CSub() override
    {
        if (p)
        {
            iox_sub_deinit(p);
            delete storage;
        }
    }
    Take take(const void*& payload) override
    {
        switch (iox_sub_take_chunk(p, &payload))
        {
        case ChunkReceiveResult_SUCCESS:
            return Take::OK;
        case ChunkReceiveResult_NO_CHUNK_AVAILABLE:
            return Take::EMPTY;
        case ChunkReceiveResult_TOO_MANY_CHUNKS_HELD_IN_PARALLEL:
            return Take::TOO_MANY;
        default:
            return Take::OTHER;
        }
    }
    void release(const void* payload) override
    {
        iox_sub_release_chunk(p, payload);
    }
    bool hasData() override
    {
        return iox_sub_has_chunks(p);
    }
    bool hasMissedData() override
    {
        return iox_sub_has_lost_chunks(p);
    }
    void releaseQueued() override
    {
        iox_sub_release_queued_chunks(p);
    }
    void subscribe() override
    {
        iox_sub_subscribe(p);
    }
    void unsubscribe() override
    {
        iox_sub_unsubscribe(p);
    }
    iox::SubscribeState state() override
    {
        switch (iox_sub_get_subscription_state(p))
        {
        case SubscribeState_SUBSCRIBED:
            return iox::SubscribeState::SUBSCRIBED;
        case SubscribeState_NOT_SUBSCRIBED:
            return iox::SubscribeState::NOT_SUBSCRIBED;
        case SubscribeState_SUBSCRIBE_REQUESTED:
            return iox::SubscribeState::SUBSCRIBE_REQUESTED;
        case SubscribeState_UNSUBSCRIBE_REQUESTED:
            return iox::SubscribeState::UNSUBSCRIBE_REQUESTED;
        default:
            return iox::SubscribeState::WAIT_FOR_OFFER;
        }
    }
    Srv service() override
    {
        auto d = iox_sub_get_service_description(p);
        return {d.serviceString, d.instanceString, d.eventString};
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox_sub_storage_t* storage{nullptr};
    iox_sub_t p{nullptr};
};

// API flavours: 0 untyped, 1 C binding, 2.. typed with a payload of the given size
constexpr uint64_t TYPED_SIZES[] = {8, 64, 168};
inline Pub* makePub(uint32_t flavour, const Srv& s, const iox::popo::PublisherOptions& o)
{
    switch (flavour)
    {
    case 0:
        return new UPub(s, o);
    case 1:
        return new CPub(s, o);
    case 2:
        return new TPub<Typed<8, 8>>(s, o);
    case 3:
        return new TPub<Typed<64, 8>>(s, o);
    default:
        return new TPub<Typed<168, 8>>(s, o);
    }
}
inline Sub* makeSub(uint32_t flavour, const Srv& s, const iox::popo::SubscriberOptions& o)
{
    switch (flavour)
    {
    case 0:
        return new USub(s, o);
    case 1:
        return new CSub(s, o);
    case 2:
        return new TSub<Typed<8, 8>>(s, o);
    case 3:
        return new TSub<Typed<64, 8>>(s, o);
    default:
        return new TSub<Typed<168, 8>>(s, o);
    }
}
} // namespace ep
