// Uniform view of the three request/response APIs, a reference model and the driver for generated histories.
#pragma once
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "pubsub_model.hpp"

namespace rpc
{
using ep::Alloc;
using ep::Srv;
using ep::Take;
using iox::ConnectionState;
using iox::popo::ConsumerTooSlowPolicy;
using iox::popo::QueueFullPolicy;
using iox::popo::RequestHeader;
using iox::popo::ResponseHeader;
using pbt::Case;
using pubsub::fill;
using pubsub::intact;

enum class Send
{
    OK,
    NOT_REQUESTED, // NO_CONNECT_REQUESTED / NOT_OFFERED
    NO_PEER,       // SERVER_NOT_AVAILABLE / CLIENT_NOT_AVAILABLE
    OTHER
};
inline const char* str(Send s)
{
    const char* n[] = {"OK", "NOT_REQUESTED", "NO_PEER", "OTHER"};
    return n[static_cast<int>(s)];
}
enum class TakeR
{
    OK,
    EMPTY,
    EMPTY_NOT_OFFERED,
    TOO_MANY,
    OTHER
};
inline const char* str(TakeR s)
{
    const char* n[] = {"OK", "EMPTY", "EMPTY_NOT_OFFERED", "TOO_MANY", "OTHER"};
    return n[static_cast<int>(s)];
}

class Cli
{
  public:
    virtual ~Cli() = default;
    virtual uint64_t fixedSize() const
    {
        return 0;
    }
    virtual Alloc loan(uint64_t size, uint32_t align, void*& payload) = 0;
    virtual void release(void* p) = 0;
    virtual Send send(void* p) = 0;
    virtual Take take(const void*& p) = 0;
    virtual void releaseResponse(const void* p) = 0;
    virtual void connect() = 0;
    virtual void disconnect() = 0;
    virtual ConnectionState state() = 0;
    virtual bool hasResponses() = 0;
    virtual bool hasMissed() = 0;
    virtual void releaseQueued() = 0;
    virtual void setSeq(void* p, int64_t s)
    {
        RequestHeader::fromPayload(p)->setSequenceId(s);
    }
    virtual int64_t respSeq(const void* p)
    {
        return ResponseHeader::fromPayload(p)->getSequenceId();
    }
    virtual bool respErr(const void* p)
    {
        return ResponseHeader::fromPayload(p)->hasServerError();
    }
    virtual Srv service() = 0;
    virtual void abandon() = 0;
};

class Ser
{
  public:
    virtual ~Ser() = default;
    virtual uint64_t fixedSize() const
    {
        return 0;
    }
    virtual TakeR take(const void*& p) = 0;
    virtual void releaseRequest(const void* p) = 0;
    virtual Alloc loan(const void* request, uint64_t size, uint32_t align, void*& payload) = 0;
    virtual Send send(void* p) = 0;
    virtual void releaseResponse(void* p) = 0;
    virtual void offer() = 0;
    virtual void stopOffer() = 0;
    virtual bool isOffered() = 0;
    virtual bool hasClients() = 0;
    virtual bool hasRequests() = 0;
    virtual bool hasMissed() = 0;
    virtual void releaseQueued() = 0;
    virtual int64_t reqSeq(const void* p)
    {
        return RequestHeader::fromPayload(p)->getSequenceId();
    }
    virtual void setErr(void* p)
    {
        ResponseHeader::fromPayload(p)->setServerError();
    }
    virtual Srv service() = 0;
    virtual void abandon() = 0;
};

inline Send conv(iox::popo::ClientSendError e)
{
    switch (e)
    {
    case iox::popo::ClientSendError::NO_CONNECT_REQUESTED:
        return Send::NOT_REQUESTED;
    case iox::popo::ClientSendError::SERVER_NOT_AVAILABLE:
        return Send::NO_PEER;
    default:
        return Send::OTHER;
    }
}
inline Send conv(iox::popo::ServerSendError e)
{
    switch (e)
    {
    case iox::popo::ServerSendError::NOT_OFFERED:
        return Send::NOT_REQUESTED;
    case iox::popo::ServerSendError::CLIENT_NOT_AVAILABLE:
        return Send::NO_PEER;
    default:
        return Send::OTHER;
    }
}
inline TakeR conv(iox::popo::ServerRequestResult r)
{
    switch (r)
    {
    case iox::popo::ServerRequestResult::NO_PENDING_REQUESTS:
        return TakeR::EMPTY;
    case iox::popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER:
        return TakeR::EMPTY_NOT_OFFERED;
    case iox::popo::ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL:
        return TakeR::TOO_MANY;
    default:
        return TakeR::OTHER;
    }
}
inline Take conv(iox::popo::ChunkReceiveResult r)
{
    return r == iox::popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE ? Take::EMPTY : Take::TOO_MANY;
}

template <typename Base, typename Impl>
class CliCommon : public Base
{
  public:
    void connect() override
    {
        p->connect();
    }
    void disconnect() override
    {
        p->disconnect();
    }
    ConnectionState state() override
    {
        return p->getConnectionState();
    }
    bool hasResponses() override
    {
        return p->hasResponses();
    }
    bool hasMissed() override
    {
        return p->hasMissedResponses();
    }
    void releaseQueued() override
    {
        p->releaseQueuedResponses();
    }
    Srv service() override
    {
        return ep::fromCpp(p->getServiceDescription());
    }
    Impl* p{nullptr};
};
template <typename Base, typename Impl>
class SerCommon : public Base
{
  public:
    void offer() override
    {
        p->offer();
    }
    void stopOffer() override
    {
        p->stopOffer();
    }
    bool isOffered() override
    {
        return p->isOffered();
    }
    bool hasClients() override
    {
        return p->hasClients();
    }
    bool hasRequests() override
    {
        return p->hasRequests();
    }
    bool hasMissed() override
    {
        return p->hasMissedRequests();
    }
    void releaseQueued() override
    {
        p->releaseQueuedRequests();
    }
    Srv service() override
    {
        return ep::fromCpp(p->getServiceDescription());
    }
    Impl* p{nullptr};
};

// ------------------------------------------------------------------ untyped C++
class UCli : public CliCommon<Cli, iox::popo::UntypedClient>
{
  public:
    UCli(const Srv& s, const iox::popo::ClientOptions& o)
    {
        p = new iox::popo::UntypedClient(s.cpp(), o);
    }
    ~UCli() override
    {
        delete p;
    }
    Alloc loan(uint64_t size, uint32_t align, void*& payload) override
    {
        auto r = p->loan(size, align);
        if (r.has_error())
        {
            return ep::conv(r.error());
        }
        payload = r.value();
        return Alloc::OK;
    }
    void release(void* x) override
    {
        p->releaseRequest(x);
    }
    Send send(void* x) override
    {
        auto r = p->send(x);
        return r.has_error() ? conv(r.error()) : Send::OK;
    }
    Take take(const void*& x) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return conv(r.error());
        }
        x = r.value();
        return Take::OK;
    }
    void releaseResponse(const void* x) override
    {
        p->releaseResponse(x);
    }
    void abandon() override
    {
        p = nullptr;
    }
};
class USer : public SerCommon<Ser, iox::popo::UntypedServer>
{
  public:
    USer(const Srv& s, const iox::popo::ServerOptions& o)
    {
        p = new iox::popo::UntypedServer(s.cpp(), o);
    }
    ~USer() override
    {
        delete p;
    }
    TakeR take(const void*& x) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return conv(r.error());
        }
        x = r.value();
        return TakeR::OK;
    }
    void releaseRequest(const void* x) override
    {
        p->releaseRequest(x);
    }
    Alloc loan(const void* req, uint64_t size, uint32_t align, void*& payload) override
    {
        auto r = p->loan(RequestHeader::fromPayload(req), size, align);
        if (r.has_error())
        {
            return ep::conv(r.error());
        }
        payload = r.value();
        return Alloc::OK;
    }
    Send send(void* x) override
    {
        auto r = p->send(x);
        return r.has_error() ? conv(r.error()) : Send::OK;
    }
    void releaseResponse(void* x) override
    {
        p->releaseResponse(x);
    }
    void abandon() override
    {
        p = nullptr;
    }
};

// ------------------------------------------------------------------ typed C++
using Blob = ep::Typed<64, 8>;
class TCli : public CliCommon<Cli, iox::popo::Client<Blob, Blob>>
{
  public:
    TCli(const Srv& s, const iox::popo::ClientOptions& o)
    {
        p = new iox::popo::Client<Blob, Blob>(s.cpp(), o);
    }
    ~TCli() override
    {
        reqs.clear();
        resps.clear();
        delete p;
    }
    uint64_t fixedSize() const override
    {
        return sizeof(Blob);
    }
    Alloc loan(uint64_t, uint32_t, void*& payload) override
    {
        auto r = p->loan();
        if (r.has_error())
        {
            return ep::conv(r.error());
        }
        payload = r.value().get();
        reqs.emplace(payload, std::move(r.value()));
        return Alloc::OK;
    }
    void release(void* x) override
    {
        reqs.erase(x);
    }
    Send send(void* x) override
    {
        auto it = reqs.find(x);
        auto r = std::move(it->second);
        reqs.erase(it);
        via = !via;
        if (via)
        {
            auto e = r.send();
            return e.has_error() ? conv(e.error()) : Send::OK;
        }
        auto e = p->send(std::move(r));
        return e.has_error() ? conv(e.error()) : Send::OK;
    }
    Take take(const void*& x) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return conv(r.error());
        }
        x = r.value().get();
        resps.emplace(x, std::move(r.value()));
        return Take::OK;
    }
    void releaseResponse(const void* x) override
    {
        resps.erase(x);
    }
    void setSeq(void* x, int64_t s) override
    {
        reqs.at(x).getRequestHeader().setSequenceId(s);
    }
    int64_t respSeq(const void* x) override
    {
        return resps.at(x).getResponseHeader().getSequenceId();
    }
    bool respErr(const void* x) override
    {
        return resps.at(x).getResponseHeader().hasServerError();
    }
    void abandon() override
    {
        for (auto& r : reqs)
        {
            new iox::popo::Request<Blob>(std::move(r.second)); // leaked on purpose
        }
        for (auto& r : resps)
        {
            new iox::popo::Response<const Blob>(std::move(r.second));
        }
        reqs.clear();
        resps.clear();
        p = nullptr;
    }
    std::map<void*, iox::popo::Request<Blob>> reqs;
    std::map<const void*, iox::popo::Response<const Blob>> resps;
    bool via{false};
};
class TSer : public SerCommon<Ser, iox::popo::Server<Blob, Blob>>
{
  public:
    TSer(const Srv& s, const iox::popo::ServerOptions& o)
    {
        p = new iox::popo::Server<Blob, Blob>(s.cpp(), o);
    }
    ~TSer() override
    {
        reqs.clear();
        resps.clear();
        delete p;
    }
    uint64_t fixedSize() const override
    {
        return sizeof(Blob);
    }
    TakeR take(const void*& x) override
    {
        auto r = p->take();
        if (r.has_error())
        {
            return conv(r.error());
        }
        x = r.value().get();
        reqs.emplace(x, std::move(r.value()));
        return TakeR::OK;
    }
    void releaseRequest(const void* x) override
    {
        reqs.erase(x);
    }
    Alloc loan(const void* req, uint64_t, uint32_t, void*& payload) override
    {
        auto r = p->loan(reqs.at(req));
        if (r.has_error())
        {
            return ep::conv(r.error());
        }
        payload = r.value().get();
        resps.emplace(payload, std::move(r.value()));
        return Alloc::OK;
    }
    Send send(void* x) override
    {
        auto it = resps.find(x);
        auto r = std::move(it->second);
        resps.erase(it);
        via = !via;
        if (via)
        {
            auto e = r.send();
            return e.has_error() ? conv(e.error()) : Send::OK;
        }
        auto e = p->send(std::move(r));
        return e.has_error() ? conv(e.error()) : Send::OK;
    }
    void releaseResponse(void* x) override
    {
        resps.erase(x);
    }
    int64_t reqSeq(const void* x) override
    {
        return reqs.at(x).getRequestHeader().getSequenceId();
    }
    void setErr(void* x) override
    {
        resps.at(x).getResponseHeader().setServerError();
    }
    void abandon() override
    {
        for (auto& r : reqs)
        {
            new iox::popo::Request<const Blob>(std::move(r.second)); // leaked on purpose
        }
        for (auto& r : resps)
        {
            new iox::popo::Response<Blob>(std::move(r.second));
        }
        reqs.clear();
        resps.clear();
        p = nullptr;
    }
    std::map<const void*, iox::popo::Request<const Blob>> reqs;
    std::map<void*, iox::popo::Response<Blob>> resps;
    bool via{false};
};

// ------------------------------------------------------------------ C binding
class CCli : public Cli
{
  public:
    CCli(const Srv& s, const iox::popo::ClientOptions& o)
    {
        iox_client_options_t c;
        iox_client_options_init(&c);
        c.responseQueueCapacity = o.responseQueueCapacity;
        c.connectOnCreate = o.connectOnCreate;
        c.responseQueueFullPolicy = o.responseQueueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER
                                        ? QueueFullPolicy_BLOCK_PRODUCER
                                        : QueueFullPolicy_DISCARD_OLDEST_DATA;
        c.serverTooSlowPolicy = o.serverTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                    ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER
                                    : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
        storage = new iox_client_storage_t;
        p = iox_client_init(storage, s.s.c_str(), s.i.c_str(), s.e.c_str(), &c);
    }
    ~CCli() override
    {
        if (p)
        {
            iox_client_deinit(p);
            delete storage;
        }
    }
    Alloc loan(uint64_t size, uint32_t align, void*& payload) override
    {
        return ep::conv(align == 8 ? iox_client_loan_request(p, &payload, size)
                                   : iox_client_loan_aligned_request(p, &payload, size, align));
    }
    void release(void* x) override
    {
        iox_client_release_request(p, x);
    }
    Send send(void* x) override
    {
        switch (iox_client_send(p, x))
        {
        case ClientSendResult_SUCCESS:
            return Send::OK;
        case ClientSendResult_NO_CONNECT_REQUESTED:
            return Send::NOT_REQUESTED;
        case ClientSendResult_SERVER_NOT_AVAILABLE:
            return Send::NO_PEER;
        default:
            return Send::OTHER;
        }
    }
    Take take(const void*& x) override
    {
        switch (iox_client_take_response(p, &x))
        {
        case ChunkReceiveResult_SUCCESS:
            return Take::OK;
        case ChunkReceiveResult_NO_CHUNK_AVAILABLE:
            return Take::EMPTY;
        case ChunkReceiveResult_TOO_MANY_CHUNKS_HELD_IN_PARALLEL:
            return Take::TOO_MANY;
        default:
            return Take::OTHER;
        }
    }
    void releaseResponse(const void* x) override
    {
        iox_client_release_response(p, x);
    }
    void connect() override
    {
        iox_client_connect(p);
    }
    void disconnect() override
    {
        iox_client_disconnect(p);
    }
    ConnectionState state() override
    {
        switch (iox_client_get_connection_state(p))
        {
        case ConnectionState_NOT_CONNECTED:
            return ConnectionState::NOT_CONNECTED;
        case ConnectionState_CONNECT_REQUESTED:
            return ConnectionState::CONNECT_REQUESTED;
        case ConnectionState_CONNECTED:
            return ConnectionState::CONNECTED;
        case ConnectionState_DISCONNECT_REQUESTED:
            return ConnectionState::DISCONNECT_REQUESTED;
        default:
            return ConnectionState::WAIT_FOR_OFFER;
        }
    }
    bool hasResponses() override
    {
        return iox_client_has_responses(p);
    }
    bool hasMissed() override
    {
        return iox_client_has_missed_responses(p);
    }
    void releaseQueued() override
    {
        iox_client_release_queued_responses(p);
    }
    void setSeq(void* x, int64_t s) override
    {
        iox_request_header_set_sequence_id(iox_request_header_from_payload(x), s);
    }
    int64_t respSeq(const void* x) override
    {
        return iox_response_header_get_sequence_id_const(iox_response_header_from_payload_const(x));
    }
    bool respErr(const void* x) override
    {
        return iox_response_header_has_server_error_const(iox_response_header_from_payload_const(x));
    }
    Srv service() override
    {
        auto d = iox_client_get_service_description(p);
        return {d.serviceString, d.instanceString, d.eventString};
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox_client_storage_t* storage{nullptr};
    iox_client_t p{nullptr};
};
class CSer : public Ser
{
  public:
    CSer(const Srv& s, const iox::popo::ServerOptions& o)
    {
        iox_server_options_t c;
        iox_server_options_init(&c);
        c.requestQueueCapacity = o.requestQueueCapacity;
        c.offerOnCreate = o.offerOnCreate;
        c.requestQueueFullPolicy = o.requestQueueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER
                                       ? QueueFullPolicy_BLOCK_PRODUCER
                                       : QueueFullPolicy_DISCARD_OLDEST_DATA;
        c.clientTooSlowPolicy = o.clientTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                    ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER
                                    : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
        storage = new iox_server_storage_t;
        p = iox_server_init(storage, s.s.c_str(), s.i.c_str(), s.e.c_str(), &c);
    }
    ~CSer() override
    {
        if (p)
        {
            iox_server_deinit(p);
            delete storage;
        }
    }
    TakeR take(const void*& x) override
    {
        switch (iox_server_take_request(p, &x))
        {
        case ServerRequestResult_SUCCESS:
            return TakeR::OK;
        case ServerRequestResult_NO_PENDING_REQUESTS:
            return TakeR::EMPTY;
        case ServerRequestResult_NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER:
            return TakeR::EMPTY_NOT_OFFERED;
        case ServerRequestResult_TOO_MANY_REQUESTS_HELD_IN_PARALLEL:
            return TakeR::TOO_MANY;
        default:
            return TakeR::OTHER;
        }
    }
    void releaseRequest(const void* x) override
    {
        iox_server_release_request(p, x);
    }
    Alloc loan(const void* req, uint64_t size, uint32_t align, void*& payload) override
    {
        return ep::conv(align == 8 ? iox_server_loan_response(p, req, &payload, size)
                                   : iox_server_loan_aligned_response(p, req, &payload, size, align));
    }
    Send send(void* x) override
    {
        switch (iox_server_send(p, x))
        {
        case ServerSendResult_SUCCESS:
            return Send::OK;
        case ServerSendResult_NOT_OFFERED:
            return Send::NOT_REQUESTED;
        case ServerSendResult_CLIENT_NOT_AVAILABLE:
            return Send::NO_PEER;
        default:
            return Send::OTHER;
        }
    }
    void releaseResponse(void* x) override
    {
        iox_server_release_response(p, x);
    }
    void offer() override
    {
        iox_server_offer(p);
    }
    void stopOffer() override
    {
        iox_server_stop_offer(p);
    }
    bool isOffered() override
    {
        return iox_server_is_offered(p);
    }
    bool hasClients() override
    {
        return iox_server_has_clients(p);
    }
    bool hasRequests() override
    {
        return iox_server_has_requests(p);
    }
    bool hasMissed() override
    {
        return iox_server_has_missed_requests(p);
    }
    void releaseQueued() override
    {
        iox_server_release_queued_requests(p);
    }
    int64_t reqSeq(const void* x) override
    {
        return iox_request_header_get_sequence_id_const(iox_request_header_from_payload_const(x));
    }
    void setErr(void* x) override
    {
        iox_response_header_set_server_error(iox_response_header_from_payload(x));
    }
    Srv service() override
    {
        auto d = iox_server_get_service_description(p);
        return {d.serviceString, d.instanceString, d.eventString};
    }
    void abandon() override
    {
        p = nullptr;
    }
    iox_server_storage_t* storage{nullptr};
    iox_server_t p{nullptr};
};

inline Cli* makeCli(uint32_t flavour, const Srv& s, const iox::popo::ClientOptions& o)
{
    return flavour == 0 ? static_cast<Cli*>(new UCli(s, o)) : flavour == 1 ? static_cast<Cli*>(new CCli(s, o)) : new TCli(s, o);
}
inline Ser* makeSer(uint32_t flavour, const Srv& s, const iox::popo::ServerOptions& o)
{
    return flavour == 0 ? static_cast<Ser*>(new USer(s, o)) : flavour == 1 ? static_cast<Ser*>(new CSer(s, o)) : new TSer(s, o);
}

// ------------------------------------------------------------------ model
struct Msg
{
    uint64_t id{0};
    uint64_t size{0};
    int64_t seq{0};
    int client{-1};
    bool err{false};
};
struct Loan
{
    void* payload;
    Msg msg;
};
struct Held
{
    const void* payload;
    Msg msg;
};
enum class St
{
    NOT,
    WAIT,
    CONN
};
struct MCli
{
    Cli* impl{nullptr};
    int index{0};
    Srv srv;
    std::string app;
    uint64_t cap{1};
    bool block{false}; // response queue full -> server has to wait
    bool wait{false};  // waits for a slow server
    bool requested{false};
    bool dying{false};
    St state{St::NOT};
    int server{-1};
    std::deque<Msg> queue;
    std::vector<Loan> loans;
    std::vector<Held> held;
    bool missed{false};
    uint64_t last{0};
};
struct MSer
{
    Ser* impl{nullptr};
    int index{0};
    Srv srv;
    std::string app;
    uint64_t cap{1};
    bool block{false};
    bool wait{false};
    bool requested{false};
    bool offered{false};
    bool dying{false};
    std::set<int> clients;
    std::deque<Msg> queue;
    std::vector<Loan> loans;
    std::vector<Held> held;
    bool missed{false};
    uint64_t last{0};
};

struct Profile
{
    bool full{false};
    bool crash{false};
    bool onlyC{false};
    bool bursts{false};
    bool tight{false};
    bool manyClients{false};
    bool blocking{false};
    bool hoard{false};
    uint32_t maxOps{150};
};

constexpr uint32_t MAX_REQ_LOANS = iox::MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY;
constexpr uint32_t MAX_RES_LOANS = iox::MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY;
constexpr uint32_t MAX_RES_HELD = iox::MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY;
constexpr uint32_t MAX_REQ_HELD = iox::MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY;

class Driver
{
  public:
    Driver(Case& c, const Profile& p)
        : c(c)
        , prof(p)
    {
    }
    void run()
    {
        poolCount = prof.tight ? c.range(4, 14) : 150;
        auto cfg = env::makeConfig({{512, poolCount}});
        if (prof.full)
        {
            e = std::make_unique<env::FullEnv>(cfg);
        }
        else
        {
            e = std::make_unique<env::DirectEnv>(cfg);
        }
        c.log("%u chunks of 512", poolCount);
        uint32_t ns = c.chance(1, 3) ? 2 : 1;
        services.push_back({"Map", "Main", "Route"});
        if (ns == 2)
        {
            services.push_back({"Map", "Aux", "Route"});
        }
        uint32_t na = c.range(1, 3);
        for (uint32_t i = 0; i < na; ++i)
        {
            apps.push_back("app" + std::to_string(i));
            if (prof.full)
            {
                e->activate(apps.back());
            }
        }
        uint32_t n = c.range(10, prof.maxOps);
        for (uint32_t k = 0; k < n; ++k)
        {
            step();
            if (c.chance(1, 6))
            {
                audit();
            }
        }
        finish();
        c.nontrivial(nReq >= 3 && nRes >= 2);
    }

  private:
    Case& c;
    Profile prof;
    uint32_t poolCount{0};
    std::unique_ptr<env::Env> e;
    std::vector<Srv> services;
    std::vector<std::string> apps;
    std::map<int, MCli> clis;
    std::map<int, MSer> sers;
    int nextC{0}, nextS{0};
    uint64_t nextId{1};
    uint32_t nReq{0}, nRes{0};

    uint32_t flavour()
    {
        return prof.onlyC ? (c.chance(3, 4) ? 1 : 0) : c.draw(3);
    }
    bool compatible(const MCli& k, const MSer& s) const
    {
        return k.srv == s.srv && !(s.block && !k.wait) && !(k.block && !s.wait);
    }
    /// clients the model cannot decide by itself (the server's client table is too small for all of them)
    std::set<int> undecided;
    /// a client that leaves in the same discovery run may have taken the place of another one before
    uint32_t leftThisRound{0};

    void dropClient(MCli& k)
    {
        for (auto& s : sers)
        {
            s.second.clients.erase(k.index);
        }
        k.server = -1;
    }
    void linkAll(MSer& s, const std::vector<MCli*>& cand)
    {
        size_t open = 0;
        for (auto i : undecided)
        {
            open += clis.count(i) && compatible(clis[i], s) ? 1 : 0;
        }
        bool room = s.clients.size() + open + cand.size() + leftThisRound <= iox::MAX_CLIENTS_PER_SERVER;
        for (auto* k : cand)
        {
            if (room)
            {
                k->state = St::CONN;
                k->server = s.index;
                s.clients.insert(k->index);
            }
            else
            {
                k->state = St::WAIT;
                undecided.insert(k->index);
            }
        }
    }
    void modelSer(MSer& s)
    {
        if (s.requested && !s.offered)
        {
            s.offered = true;
            std::vector<MCli*> cand;
            for (auto& k : clis)
            {
                if (k.second.state == St::WAIT && compatible(k.second, s))
                {
                    cand.push_back(&k.second);
                }
            }
            linkAll(s, cand);
        }
        else if (!s.requested && s.offered)
        {
            s.offered = false;
            for (auto i : s.clients)
            {
                clis[i].state = St::WAIT;
                clis[i].server = -1;
            }
            s.clients.clear();
        }
    }
    /// the order in which RouDi looks at several clients is not specified, hence all of them at once
    void modelClis(const std::vector<MCli*>& ks)
    {
        std::map<int, std::vector<MCli*>> cand;
        for (auto* k : ks)
        {
            if (k->state == St::NOT && k->requested)
            {
                k->state = St::WAIT;
                for (auto& s : sers)
                {
                    if (s.second.offered && compatible(*k, s.second))
                    {
                        cand[s.first].push_back(k);
                    }
                }
            }
            else if (k->state != St::NOT && !k->requested)
            {
                k->state = St::NOT;
                ++leftThisRound;
                dropClient(*k);
            }
        }
        for (auto& x : cand)
        {
            linkAll(sers[x.first], x.second);
        }
    }
    /// a waiting client of an offered server that has (or had) no room: the real state decides, within what is possible
    void resolve()
    {
        for (auto& ks : clis)
        {
            auto& k = ks.second;
            if (k.dying || k.state != St::WAIT)
            {
                continue;
            }
            for (auto& ss : sers)
            {
                auto& s = ss.second;
                if (!s.offered || s.dying || !compatible(k, s))
                {
                    continue;
                }
                if (k.impl->state() == ConnectionState::CONNECTED)
                {
                    k.state = St::CONN;
                    k.server = s.index;
                    s.clients.insert(k.index);
                }
                else
                {
                    c.count("client_without_room");
                }
            }
        }
        for (auto& ss : sers)
        {
            auto& s = ss.second;
            PBT_CHECK(c, s.clients.size() <= iox::MAX_CLIENTS_PER_SERVER, "client_limit", "server V%d serves %zu clients, limit %u", s.index, s.clients.size(), iox::MAX_CLIENTS_PER_SERVER);
            bool any = false;
            for (auto i : undecided)
            {
                any |= clis.count(i) && clis[i].srv == s.srv && s.offered && compatible(clis[i], s) && !clis[i].dying && clis[i].state == St::WAIT;
            }
            if (any && leftThisRound == 0)
            {
                PBT_CHECK(c, s.clients.size() == iox::MAX_CLIENTS_PER_SERVER, "client_refused", "server V%d has only %zu clients but refused another one (limit %u)", s.index, s.clients.size(),
                          iox::MAX_CLIENTS_PER_SERVER);
            }
        }
        undecided.clear();
        leftThisRound = 0;
    }
    void eraseCli(std::map<int, MCli>::iterator it)
    {
        dropClient(it->second);
        clis.erase(it);
    }
    void discover()
    {
        e->discover();
        if (prof.full)
        {
            e->discover();
        }
        for (auto& k : clis)
        {
            leftThisRound += k.second.dying ? 1 : 0;
        }
        for (auto it = sers.begin(); it != sers.end();)
        {
            modelSer(it->second);
            it = it->second.dying ? sers.erase(it) : std::next(it);
        }
        std::vector<MCli*> all;
        for (auto& k : clis)
        {
            all.push_back(&k.second);
        }
        modelClis(all);
        for (auto it = clis.begin(); it != clis.end();)
        {
            if (it->second.dying)
            {
                eraseCli(it++);
            }
            else
            {
                ++it;
            }
        }
        resolve();
    }
    void controlDone()
    {
        if (prof.full || c.chance(1, 3))
        {
            discover();
        }
    }
    std::vector<MCli*> liveClis()
    {
        std::vector<MCli*> v;
        for (auto& k : clis)
        {
            if (!k.second.dying)
            {
                v.push_back(&k.second);
            }
        }
        return v;
    }
    std::vector<MSer*> liveSers()
    {
        std::vector<MSer*> v;
        for (auto& k : sers)
        {
            if (!k.second.dying)
            {
                v.push_back(&k.second);
            }
        }
        return v;
    }

    void createSer()
    {
        MSer s;
        s.srv = c.pick(services);
        for (auto it = sers.begin(); it != sers.end(); ++it)
        {
            if (it->second.srv == s.srv && !it->second.dying)
            {
                return;
            }
        }
        for (auto& k : sers)
        {
            if (k.second.srv == s.srv)
            {
                discover(); // the predecessor is removed first
                break;
            }
        }
        for (auto& k : clis)
        {
            if (k.second.dying)
            {
                discover(); // so that a destroyed client does not take the place of a live one unseen
                break;
            }
        }
        s.index = nextS++;
        s.app = c.pick(apps);
        uint32_t f = flavour();
        iox::popo::ServerOptions o;
        s.cap = prof.bursts ? c.range(1, 3) : c.range(1, iox::MAX_REQUEST_QUEUE_CAPACITY);
        o.requestQueueCapacity = s.cap;
        if (prof.full && c.chance(1, 8))
        {
            o.requestQueueCapacity = c.chance(1, 2) ? 0 : iox::MAX_REQUEST_QUEUE_CAPACITY + 1 + c.draw(5);
            s.cap = o.requestQueueCapacity == 0 ? 1 : iox::MAX_REQUEST_QUEUE_CAPACITY;
        }
        o.offerOnCreate = c.chance(4, 5);
        s.block = c.chance(prof.blocking ? 2 : 1, 4);
        s.wait = c.chance(prof.blocking ? 3 : 1, 4);
        o.requestQueueFullPolicy = s.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.clientTooSlowPolicy = s.wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        e->activate(s.app);
        s.impl = makeSer(f, s.srv, o);
        s.requested = o.offerOnCreate;
        c.log("V%d = server(%s, app %s, api %u, capacity %llu, offer %d, block %d, wait %d)", s.index, s.srv.i.c_str(), s.app.c_str(), f, (unsigned long long)o.requestQueueCapacity,
              s.requested, s.block, s.wait);
        int i = s.index;
        sers.emplace(i, s);
        PBT_CHECK(c, sers[i].impl->service() == s.srv, "service", "server reports another service");
        modelSer(sers[i]);
        resolve();
        controlDone();
    }
    void createCli()
    {
        if (clis.size() >= (prof.manyClients ? 9U : 4U))
        {
            return;
        }
        MCli k;
        k.srv = c.pick(services);
        k.index = nextC++;
        k.app = c.pick(apps);
        uint32_t f = flavour();
        iox::popo::ClientOptions o;
        k.cap = prof.bursts ? c.range(1, 3) : c.range(1, iox::MAX_RESPONSE_QUEUE_CAPACITY);
        o.responseQueueCapacity = k.cap;
        if (prof.full && c.chance(1, 8))
        {
            o.responseQueueCapacity = c.chance(1, 2) ? 0 : iox::MAX_RESPONSE_QUEUE_CAPACITY + 1 + c.draw(5);
            k.cap = o.responseQueueCapacity == 0 ? 1 : iox::MAX_RESPONSE_QUEUE_CAPACITY;
        }
        o.connectOnCreate = c.chance(5, 6);
        const MSer* peer = nullptr;
        for (auto& x : sers)
        {
            if (x.second.srv == k.srv && !x.second.dying)
            {
                peer = &x.second;
            }
        }
        // mostly compatible with the server, if there is one
        k.block = c.chance(1, 5) && (peer == nullptr || peer->wait || c.chance(1, 6));
        k.wait = c.chance(prof.blocking ? 4 : 2, 5) || (peer != nullptr && peer->block && c.chance(5, 6));
        o.responseQueueFullPolicy = k.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.serverTooSlowPolicy = k.wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        k.requested = o.connectOnCreate;
        e->activate(k.app);
        k.impl = makeCli(f, k.srv, o);
        c.log("K%d = client(%s, app %s, api %u, capacity %llu, connect %d, block %d, wait %d)", k.index, k.srv.i.c_str(), k.app.c_str(), f, (unsigned long long)o.responseQueueCapacity,
              k.requested, k.block, k.wait);
        int i = k.index;
        clis.emplace(i, k);
        PBT_CHECK(c, clis[i].impl->service() == k.srv, "service", "client reports another service");
        modelClis({&clis[i]});
        resolve();
        controlDone();
    }

    // distinct chunks alive, without and with the ones a sender keeps for reuse
    void usage(uint32_t& lo, uint32_t& hi)
    {
        std::set<uint64_t> def, pos;
        for (auto& kk : clis)
        {
            auto& k = kk.second;
            for (auto& l : k.loans)
            {
                def.insert(l.msg.id);
            }
            for (auto& m : k.queue)
            {
                def.insert(m.id);
            }
            for (auto& h : k.held)
            {
                def.insert(h.msg.id);
            }
            if (k.last)
            {
                pos.insert(k.last);
            }
        }
        for (auto& ss : sers)
        {
            auto& s = ss.second;
            for (auto& l : s.loans)
            {
                def.insert(l.msg.id);
            }
            for (auto& m : s.queue)
            {
                def.insert(m.id);
            }
            for (auto& h : s.held)
            {
                def.insert(h.msg.id);
            }
            if (s.last)
            {
                pos.insert(s.last);
            }
        }
        lo = static_cast<uint32_t>(def.size());
        pos.insert(def.begin(), def.end());
        hi = static_cast<uint32_t>(pos.size());
    }
    void judgeAlloc(Alloc r, size_t loans, uint32_t limit, const char* what)
    {
        uint32_t lo, hi;
        usage(lo, hi);
        if (r == Alloc::OK)
        {
            PBT_CHECK(c, loans < limit, "loan_limit", "%s succeeded with %zu loans outstanding (limit %u)", what, loans, limit);
            PBT_CHECK(c, lo < poolCount, "alloc_overcommit", "%s succeeded although all %u chunks are referenced", what, poolCount);
            return;
        }
        c.log("  -> %s", ep::str(r));
        c.count((std::string("alloc_") + ep::str(r)).c_str());
        if (r == Alloc::TOO_MANY)
        {
            PBT_CHECK(c, loans >= limit, "loan_limit_early", "%s refused with only %zu loans outstanding (limit %u)", what, loans, limit);
        }
        else if (r == Alloc::OUT_OF_CHUNKS)
        {
            PBT_CHECK(c, hi >= poolCount, "alloc_out_of_chunks", "%s: out of chunks but only %u of %u are referenced", what, hi, poolCount);
        }
        else
        {
            c.fail("alloc_error", std::string(what) + " failed with " + ep::str(r));
        }
    }
    void checkFresh(const void* p, uint64_t size)
    {
        auto overlap = [&](const void* q, uint64_t n) {
            auto a = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(q);
            PBT_CHECK(c, a + size <= b || b + n <= a, "exclusive", "a new loan overlaps memory that is still referenced");
        };
        for (auto& k : clis)
        {
            for (auto& l : k.second.loans)
            {
                overlap(l.payload, l.msg.size);
            }
            for (auto& h : k.second.held)
            {
                overlap(h.payload, h.msg.size);
            }
        }
        for (auto& s : sers)
        {
            for (auto& l : s.second.loans)
            {
                overlap(l.payload, l.msg.size);
            }
            for (auto& h : s.second.held)
            {
                overlap(h.payload, h.msg.size);
            }
        }
    }
    uint32_t genAlign()
    {
        return c.chance(1, 4) ? (1U << c.range(0, 6)) : 8;
    }

    void loanReq(MCli& k)
    {
        Msg m;
        m.size = k.impl->fixedSize() ? k.impl->fixedSize() : c.range(8, 200);
        uint32_t al = genAlign();
        void* p = nullptr;
        auto r = k.impl->loan(m.size, al, p);
        c.log("K%d.loan(%llu, align %u)", k.index, (unsigned long long)m.size, al);
        judgeAlloc(r, k.loans.size(), MAX_REQ_LOANS, "loaning a request");
        if (r != Alloc::OK)
        {
            return;
        }
        if (!k.impl->fixedSize())
        {
            PBT_CHECK(c, reinterpret_cast<uintptr_t>(p) % al == 0, "alignment", "request payload not aligned to %u", al);
        }
        checkFresh(p, m.size);
        m.id = nextId++;
        m.client = k.index;
        m.seq = c.chance(1, 8) ? static_cast<int64_t>(c.u64()) : static_cast<int64_t>(m.id);
        fill(p, m.size, m.id);
        k.impl->setSeq(p, m.seq);
        k.loans.push_back({p, m});
    }
    template <typename V>
    Loan popLoan(V& v)
    {
        size_t i = c.draw(static_cast<uint32_t>(v.size()));
        Loan l = v[i];
        v.erase(v.begin() + static_cast<long>(i));
        return l;
    }
    template <typename Q>
    void push(Q& q, const Msg& m)
    {
        if (q.queue.size() >= q.cap)
        {
            q.missed = true;
            q.queue.pop_front();
            c.count("overflow");
        }
        q.queue.push_back(m);
    }
    void waitDone(std::atomic<bool>& done, const char* what)
    {
        double t0 = pbt::now();
        while (!done.load())
        {
            std::this_thread::sleep_for(std::chrono::microseconds(100));
            if (pbt::now() - t0 > 15)
            {
                c.fail("block_forever", std::string(what) + " did not return although there is room");
            }
        }
    }
    void sendReq(MCli& k)
    {
        if (k.loans.empty())
        {
            return;
        }
        MSer* s = k.state == St::CONN ? &sers[k.server] : nullptr;
        bool wouldBlock = k.requested && s && s->block && s->queue.size() >= s->cap;
        if (wouldBlock && (s->dying || !prof.blocking))
        {
            return;
        }
        Loan l = popLoan(k.loans);
        c.log("K%d.send(#%llu)", k.index, (unsigned long long)l.msg.id);
        Send r;
        if (wouldBlock)
        {
            c.count("blocking_request");
            std::atomic<bool> done{false};
            std::thread t([&] {
                r = k.impl->send(l.payload);
                done = true;
            });
            t.detach();
            std::this_thread::sleep_for(std::chrono::microseconds(c.range(0, 2) * 400));
            PBT_CHECK(c, !done.load(), "block_returned", "the request was sent although the server's queue is full and must not overflow");
            while (s->held.size() >= MAX_REQ_HELD)
            {
                releaseHeldReq(*s, 0);
            }
            takeReq(*s);
            waitDone(done, "sending a request");
        }
        else
        {
            r = k.impl->send(l.payload);
        }
        Send want = !k.requested ? Send::NOT_REQUESTED : s ? Send::OK : Send::NO_PEER;
        PBT_CHECK(c, r == want, "send_request", "K%d.send returned %s, expected %s", k.index, str(r), str(want));
        if (want == Send::OK)
        {
            push(*s, l.msg);
            ++nReq;
        }
        if (want != Send::NOT_REQUESTED)
        {
            k.last = l.msg.id;
        }
        c.count(want == Send::OK ? "request" : want == Send::NO_PEER ? "request_no_server" : "request_not_connected");
    }
    bool takeReq(MSer& s)
    {
        const void* p = nullptr;
        auto r = s.impl->take(p);
        if (r == TakeR::TOO_MANY)
        {
            PBT_CHECK(c, s.held.size() >= MAX_REQ_HELD, "held_limit_early", "V%d.take refused with only %zu requests held (limit %u)", s.index, s.held.size(), MAX_REQ_HELD);
            c.count("too_many_requests_held");
            // the refused request may or may not have been dropped
            releaseHeldReq(s, 0);
            const void* q = nullptr;
            auto r2 = s.impl->take(q);
            if (r2 == TakeR::OK)
            {
                PBT_CHECK(c, !s.queue.empty(), "invented_request", "V%d.take returned a request out of nowhere", s.index);
                uint64_t id = idOf(q);
                if (s.queue.front().id != id)
                {
                    s.queue.pop_front();
                }
                acceptReq(s, q);
            }
            else
            {
                PBT_CHECK(c, s.queue.size() <= 1, "lost_request", "V%d: %zu queued requests vanished", s.index, s.queue.size());
                s.queue.clear();
            }
            return false;
        }
        if (r != TakeR::OK)
        {
            PBT_CHECK(c, s.queue.empty(), "lost_request", "V%d.take: %s, but request #%llu is queued", s.index, str(r), (unsigned long long)s.queue.front().id);
            TakeR want = s.offered ? TakeR::EMPTY : TakeR::EMPTY_NOT_OFFERED;
            // while an offer or stop of it awaits discovery both answers are right
            PBT_CHECK(c, r == want || (s.offered != s.requested && (r == TakeR::EMPTY || r == TakeR::EMPTY_NOT_OFFERED)), "take_request_result", "V%d.take: %s, expected %s", s.index, str(r), str(want));
            return false;
        }
        PBT_CHECK(c, s.held.size() <= MAX_REQ_HELD, "held_limit", "V%d holds %zu requests and got another one", s.index, s.held.size());
        acceptReq(s, p);
        return true;
    }
    static uint64_t idOf(const void* p)
    {
        uint64_t id;
        memcpy(&id, p, 8);
        return id;
    }
    void acceptReq(MSer& s, const void* p)
    {
        PBT_CHECK(c, !s.queue.empty(), "invented_request", "V%d.take returned request #%llu but none is queued", s.index, (unsigned long long)idOf(p));
        Msg m = s.queue.front();
        s.queue.pop_front();
        PBT_CHECK(c, idOf(p) == m.id, "request_order", "V%d received request #%llu, expected #%llu", s.index, (unsigned long long)idOf(p), (unsigned long long)m.id);
        PBT_CHECK(c, intact(p, m.size, m.id), "content", "request #%llu arrived with other content", (unsigned long long)m.id);
        PBT_CHECK(c, s.impl->reqSeq(p) == m.seq, "request_sequence", "request #%llu arrived with sequence id %lld instead of %lld", (unsigned long long)m.id, (long long)s.impl->reqSeq(p),
                  (long long)m.seq);
        s.held.push_back({p, m});
        c.log("V%d.take -> #%llu", s.index, (unsigned long long)m.id);
    }
    void releaseHeldReq(MSer& s, size_t i)
    {
        auto h = s.held[i];
        s.held.erase(s.held.begin() + static_cast<long>(i));
        PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "request #%llu changed while V%d held it", (unsigned long long)h.msg.id, s.index);
        s.impl->releaseRequest(h.payload);
        c.log("V%d.releaseRequest(#%llu)", s.index, (unsigned long long)h.msg.id);
    }
    void loanRes(MSer& s)
    {
        if (s.held.empty())
        {
            return;
        }
        auto& h = s.held[c.draw(static_cast<uint32_t>(s.held.size()))];
        Msg m;
        m.size = s.impl->fixedSize() ? s.impl->fixedSize() : c.range(8, 200);
        uint32_t al = genAlign();
        void* p = nullptr;
        auto r = s.impl->loan(h.payload, m.size, al, p);
        c.log("V%d.loan(for #%llu, %llu, align %u)", s.index, (unsigned long long)h.msg.id, (unsigned long long)m.size, al);
        judgeAlloc(r, s.loans.size(), MAX_RES_LOANS, "loaning a response");
        if (r != Alloc::OK)
        {
            return;
        }
        if (!s.impl->fixedSize())
        {
            PBT_CHECK(c, reinterpret_cast<uintptr_t>(p) % al == 0, "alignment", "response payload not aligned to %u", al);
        }
        checkFresh(p, m.size);
        m.id = nextId++;
        m.client = h.msg.client;
        m.seq = h.msg.seq;
        fill(p, m.size, m.id);
        if (c.chance(1, 4))
        {
            m.err = true;
            s.impl->setErr(p);
        }
        s.loans.push_back({p, m});
    }
    void sendRes(MSer& s)
    {
        if (s.loans.empty())
        {
            return;
        }
        size_t i = c.draw(static_cast<uint32_t>(s.loans.size()));
        Loan l = s.loans[i];
        bool linked = s.clients.count(l.msg.client) > 0;
        MCli* k = linked ? &clis[l.msg.client] : nullptr;
        bool wouldBlock = s.requested && k && k->block && k->queue.size() >= k->cap;
        if (wouldBlock && (k->dying || !prof.blocking))
        {
            return;
        }
        s.loans.erase(s.loans.begin() + static_cast<long>(i));
        c.log("V%d.send(#%llu to K%d)", s.index, (unsigned long long)l.msg.id, l.msg.client);
        Send r;
        if (wouldBlock)
        {
            c.count("blocking_response");
            std::atomic<bool> done{false};
            std::thread t([&] {
                r = s.impl->send(l.payload);
                done = true;
            });
            t.detach();
            std::this_thread::sleep_for(std::chrono::microseconds(c.range(0, 2) * 400));
            PBT_CHECK(c, !done.load(), "block_returned", "the response was sent although the client's queue is full and must not overflow");
            while (k->held.size() >= MAX_RES_HELD)
            {
                releaseHeldRes(*k, 0);
            }
            takeRes(*k);
            waitDone(done, "sending a response");
        }
        else
        {
            r = s.impl->send(l.payload);
        }
        Send want = !s.requested ? Send::NOT_REQUESTED : k ? Send::OK : Send::NO_PEER;
        PBT_CHECK(c, r == want, "send_response", "V%d.send returned %s, expected %s", s.index, str(r), str(want));
        if (want == Send::OK)
        {
            push(*k, l.msg);
            ++nRes;
            s.last = l.msg.id;
        }
        c.count(want == Send::OK ? "response" : want == Send::NO_PEER ? "response_no_client" : "response_not_offered");
    }
    bool takeRes(MCli& k)
    {
        const void* p = nullptr;
        auto r = k.impl->take(p);
        if (r == Take::TOO_MANY)
        {
            PBT_CHECK(c, k.held.size() >= MAX_RES_HELD, "held_limit_early", "K%d.take refused with only %zu responses held (limit %u)", k.index, k.held.size(), MAX_RES_HELD);
            c.count("too_many_responses_held");
            releaseHeldRes(k, 0);
            const void* q = nullptr;
            auto r2 = k.impl->take(q);
            if (r2 == Take::OK)
            {
                PBT_CHECK(c, !k.queue.empty(), "invented_response", "K%d.take returned a response out of nowhere", k.index);
                if (k.queue.front().id != idOf(q))
                {
                    k.queue.pop_front();
                }
                acceptRes(k, q);
            }
            else
            {
                PBT_CHECK(c, k.queue.size() <= 1, "lost_response", "K%d: %zu queued responses vanished", k.index, k.queue.size());
                k.queue.clear();
            }
            return false;
        }
        if (r != Take::OK)
        {
            PBT_CHECK(c, k.queue.empty(), "lost_response", "K%d.take: %s, but response #%llu is queued", k.index, ep::str(r), (unsigned long long)k.queue.front().id);
            PBT_CHECK(c, r == Take::EMPTY, "take_response_result", "K%d.take: %s", k.index, ep::str(r));
            return false;
        }
        PBT_CHECK(c, k.held.size() <= MAX_RES_HELD, "held_limit", "K%d holds %zu responses and got another one", k.index, k.held.size());
        acceptRes(k, p);
        return true;
    }
    void acceptRes(MCli& k, const void* p)
    {
        PBT_CHECK(c, !k.queue.empty(), "invented_response", "K%d.take returned response #%llu but none is queued", k.index, (unsigned long long)idOf(p));
        Msg m = k.queue.front();
        k.queue.pop_front();
        PBT_CHECK(c, idOf(p) == m.id, "response_order", "K%d received response #%llu, expected #%llu", k.index, (unsigned long long)idOf(p), (unsigned long long)m.id);
        PBT_CHECK(c, intact(p, m.size, m.id), "content", "response #%llu arrived with other content", (unsigned long long)m.id);
        k.held.push_back({p, m});
        PBT_CHECK(c, k.impl->respSeq(p) == m.seq, "response_sequence", "response #%llu carries sequence id %lld, its request had %lld", (unsigned long long)m.id, (long long)k.impl->respSeq(p),
                  (long long)m.seq);
        PBT_CHECK(c, k.impl->respErr(p) == m.err, "server_error_flag", "response #%llu: server error flag is %d, set was %d", (unsigned long long)m.id, k.impl->respErr(p), m.err);
        c.log("K%d.take -> #%llu", k.index, (unsigned long long)m.id);
    }
    void releaseHeldRes(MCli& k, size_t i)
    {
        auto h = k.held[i];
        k.held.erase(k.held.begin() + static_cast<long>(i));
        PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "response #%llu changed while K%d held it", (unsigned long long)h.msg.id, k.index);
        k.impl->releaseResponse(h.payload);
        c.log("K%d.releaseResponse(#%llu)", k.index, (unsigned long long)h.msg.id);
    }

    void step()
    {
        auto ks = liveClis();
        auto ss = liveSers();
        if (ss.empty() && c.chance(2, 3))
        {
            createSer();
            return;
        }
        if (ks.empty() && c.chance(2, 3))
        {
            createCli();
            return;
        }
        MCli* k = ks.empty() ? nullptr : ks[c.draw(static_cast<uint32_t>(ks.size()))];
        MSer* s = ss.empty() ? nullptr : ss[c.draw(static_cast<uint32_t>(ss.size()))];
        uint32_t hoard = prof.hoard ? 1 : 0;
        switch (c.weighted({prof.manyClients ? 14U : 5U, 3, 26, 20, 3, 24, 24, 8, 20, 2, 18, 8, 5, 2, 5, 2, 9, 5, 1, 1, 2, 1, prof.crash ? 2U : 0U}))
        {
        case 0:
            createCli();
            break;
        case 1:
            createSer();
            break;
        case 2:
            if (k)
            {
                loanReq(*k);
                if (!k->loans.empty() && c.chance(3, 4 + hoard * 4))
                {
                    sendReq(*k);
                }
            }
            break;
        case 3:
            if (k)
            {
                sendReq(*k);
            }
            break;
        case 4:
            if (k && !k->loans.empty())
            {
                auto l = popLoan(k->loans);
                k->impl->release(l.payload);
                c.log("K%d.releaseRequest(#%llu)", k->index, (unsigned long long)l.msg.id);
            }
            break;
        case 5:
            if (s)
            {
                takeReq(*s);
            }
            break;
        case 6:
            if (s)
            {
                loanRes(*s);
                if (!s->loans.empty() && c.chance(3, 4 + hoard * 4))
                {
                    sendRes(*s);
                }
            }
            break;
        case 7:
            if (s && !s->held.empty())
            {
                releaseHeldReq(*s, c.draw(static_cast<uint32_t>(s->held.size())));
            }
            break;
        case 8:
            if (s)
            {
                sendRes(*s);
            }
            break;
        case 9:
            if (s && !s->loans.empty())
            {
                auto l = popLoan(s->loans);
                s->impl->releaseResponse(l.payload);
                c.log("V%d.releaseResponse(#%llu)", s->index, (unsigned long long)l.msg.id);
            }
            break;
        case 10:
            if (k)
            {
                takeRes(*k);
            }
            break;
        case 11:
            if (k && !k->held.empty())
            {
                releaseHeldRes(*k, c.draw(static_cast<uint32_t>(k->held.size())));
            }
            break;
        case 12:
            if (k)
            {
                c.log("K%d.connect", k->index);
                k->impl->connect();
                k->requested = true;
                controlDone();
            }
            break;
        case 13:
            if (k)
            {
                c.log("K%d.disconnect", k->index);
                k->impl->disconnect();
                k->requested = false;
                controlDone();
            }
            break;
        case 14:
            if (s)
            {
                c.log("V%d.offer", s->index);
                s->impl->offer();
                s->requested = true;
                controlDone();
            }
            break;
        case 15:
            if (s)
            {
                c.log("V%d.stopOffer", s->index);
                s->impl->stopOffer();
                s->requested = false;
                controlDone();
            }
            break;
        case 16:
            c.log("discovery");
            discover();
            break;
        case 17:
            queries();
            break;
        case 18:
            if (k)
            {
                c.log("K%d.releaseQueuedResponses", k->index);
                k->impl->releaseQueued();
                k->queue.clear();
            }
            break;
        case 19:
            if (s)
            {
                c.log("V%d.releaseQueuedRequests", s->index);
                s->impl->releaseQueued();
                s->queue.clear();
            }
            break;
        case 20:
            if (k)
            {
                destroyCli(*k);
            }
            break;
        case 21:
            if (s)
            {
                destroySer(*s);
            }
            break;
        case 22:
            crash(c.pick(apps));
            break;
        }
    }
    void destroyCli(MCli& k)
    {
        discover();
        c.log("destroy K%d", k.index);
        // a client hands back what it holds before it goes, as the API demands of its user
        while (!k.held.empty())
        {
            releaseHeldRes(k, 0);
        }
        while (!k.loans.empty())
        {
            k.impl->release(k.loans.back().payload);
            k.loans.pop_back();
        }
        delete k.impl;
        k.impl = nullptr;
        k.dying = true;
        k.requested = false;
        controlDone();
    }
    void destroySer(MSer& s)
    {
        discover();
        c.log("destroy V%d", s.index);
        while (!s.held.empty())
        {
            releaseHeldReq(s, 0);
        }
        while (!s.loans.empty())
        {
            s.impl->releaseResponse(s.loans.back().payload);
            s.loans.pop_back();
        }
        delete s.impl;
        s.impl = nullptr;
        s.dying = true;
        s.requested = false;
        controlDone();
    }
    void crash(const std::string& app)
    {
        discover();
        c.log("%s dies", app.c_str());
        c.count("app_death");
        for (auto it = sers.begin(); it != sers.end();)
        {
            if (it->second.app == app)
            {
                if (it->second.impl)
                {
                    it->second.impl->abandon();
                }
                it->second.requested = false;
                modelSer(it->second);
                it = sers.erase(it);
            }
            else
            {
                ++it;
            }
        }
        for (auto it = clis.begin(); it != clis.end();)
        {
            if (it->second.app == app)
            {
                if (it->second.impl)
                {
                    it->second.impl->abandon();
                }
                eraseCli(it++);
            }
            else
            {
                ++it;
            }
        }
        e->removeApp(app);
        resolve();
    }
    void queries()
    {
        for (auto* k : liveClis())
        {
            PBT_CHECK(c, k->impl->hasResponses() == !k->queue.empty(), "has_responses", "K%d.hasResponses() = %d with %zu queued", k->index, k->impl->hasResponses(), k->queue.size());
            bool m = k->impl->hasMissed();
            PBT_CHECK(c, m == k->missed, "missed_responses", "K%d.hasMissedResponses() = %d, expected %d", k->index, m, k->missed);
            k->missed = false;
            auto st = k->impl->state();
            auto want = k->state == St::CONN ? ConnectionState::CONNECTED : k->state == St::WAIT ? ConnectionState::WAIT_FOR_OFFER : ConnectionState::NOT_CONNECTED;
            PBT_CHECK(c, st == want, "connection_state", "K%d is in state %d, expected %d", k->index, static_cast<int>(st), static_cast<int>(want));
        }
        for (auto* s : liveSers())
        {
            PBT_CHECK(c, s->impl->hasRequests() == !s->queue.empty(), "has_requests", "V%d.hasRequests() = %d with %zu queued", s->index, s->impl->hasRequests(), s->queue.size());
            bool m = s->impl->hasMissed();
            PBT_CHECK(c, m == s->missed, "missed_requests", "V%d.hasMissedRequests() = %d, expected %d", s->index, m, s->missed);
            s->missed = false;
            PBT_CHECK(c, s->impl->isOffered() == s->requested, "is_offered", "V%d.isOffered() = %d", s->index, s->impl->isOffered());
            PBT_CHECK(c, s->impl->hasClients() == !s->clients.empty(), "has_clients", "V%d.hasClients() = %d with %zu clients", s->index, s->impl->hasClients(), s->clients.size());
        }
    }
    void audit()
    {
        for (auto& k : clis)
        {
            for (auto& l : k.second.loans)
            {
                PBT_CHECK(c, intact(l.payload, l.msg.size, l.msg.id), "loan_modified", "a loaned request of K%d changed", k.first);
            }
            for (auto& h : k.second.held)
            {
                PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "response #%llu changed while K%d held it", (unsigned long long)h.msg.id, k.first);
            }
        }
        for (auto& s : sers)
        {
            for (auto& l : s.second.loans)
            {
                PBT_CHECK(c, intact(l.payload, l.msg.size, l.msg.id), "loan_modified", "a loaned response of V%d changed", s.first);
            }
            for (auto& h : s.second.held)
            {
                PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "request #%llu changed while V%d held it", (unsigned long long)h.msg.id, s.first);
            }
        }
        uint32_t lo, hi;
        usage(lo, hi);
        uint32_t used = e->usedChunks();
        PBT_CHECK(c, used >= lo, "pool_under", "%u chunks in use but %u are referenced", used, lo);
        PBT_CHECK(c, used <= hi, "pool_leak", "%u chunks in use but only %u are referenced", used, hi);
    }
    void finish()
    {
        c.log("-- drain");
        for (auto* s : liveSers())
        {
            for (;;)
            {
                while (!s->held.empty())
                {
                    releaseHeldReq(*s, 0);
                }
                if (!takeReq(*s))
                {
                    break;
                }
            }
        }
        for (auto* k : liveClis())
        {
            for (;;)
            {
                while (!k->held.empty())
                {
                    releaseHeldRes(*k, 0);
                }
                if (!takeRes(*k))
                {
                    break;
                }
            }
        }
        queries();
        audit();
        for (auto* s : liveSers())
        {
            if (!prof.crash || c.chance(1, 2))
            {
                destroySer(*s);
            }
        }
        for (auto* k : liveClis())
        {
            if (!prof.crash || c.chance(1, 2))
            {
                destroyCli(*k);
            }
        }
        if (prof.crash)
        {
            for (auto& a : apps)
            {
                crash(a);
            }
        }
        discover();
        PBT_CHECK(c, e->usedChunks() == 0, "leak", "%u chunks are still in use after every client and server is gone", e->usedChunks());
    }
};
} // namespace rpc
