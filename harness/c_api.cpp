// The C API beyond the endpoints (S26): wait sets, listeners, user triggers, headers, options, limits.
#include "endpoints.hpp"
#include "rpc_model.hpp"

#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"

#include <atomic>
#include <chrono>
#include <optional>
#include <set>

extern "C" {
#include "iceoryx_binding_c/chunk.h"
#include "iceoryx_binding_c/config.h"
#include "iceoryx_binding_c/listener.h"
#include "iceoryx_binding_c/notification_info.h"
#include "iceoryx_binding_c/request_header.h"
#include "iceoryx_binding_c/response_header.h"
#include "iceoryx_binding_c/runtime.h"
#include "iceoryx_binding_c/service_discovery.h"
#include "iceoryx_binding_c/user_trigger.h"
#include "iceoryx_binding_c/wait_set.h"
}

using pbt::Case;
using ep::Srv;

namespace
{
using ull = unsigned long long;

class Shared
{
  public:
    static env::DirectEnv& get()
    {
        auto& s = slot();
        if (s.e && (s.dirty || ++s.uses > 300))
        {
            s.e.reset();
        }
        if (!s.e)
        {
            s.e = std::make_unique<env::DirectEnv>(env::makeConfig({{128, 60}, {1024, 20}}));
            s.uses = 0;
        }
        s.dirty = true;
        s.e->activate("app");
        return *s.e;
    }
    static void clean()
    {
        slot().dirty = false;
    }

  private:
    struct Slot
    {
        std::unique_ptr<env::DirectEnv> e;
        uint32_t uses{0};
        bool dirty{false};
    };
    static Slot& slot()
    {
        static Slot s;
        return s;
    }
};

enum Kind : uint32_t
{
    TRIGGER,
    SUB,
    CLIENT,
    SERVER,
    DISCOVERY
};
const char* const KIND[] = {"trigger", "subscriber", "client", "server", "discovery"};

struct CallLog
{
    const void* origin{nullptr};
    void* ctx{nullptr};
    uint32_t kind{99};
    uint32_t calls{0};
};
CallLog g_call;
void log(const void* o, uint32_t kind, void* ctx)
{
    g_call.origin = o;
    g_call.kind = kind;
    g_call.ctx = ctx;
    ++g_call.calls;
}
void cbT(iox_user_trigger_t x)
{
    log(x, TRIGGER, nullptr);
}
void cbS(iox_sub_t x)
{
    log(x, SUB, nullptr);
}
void cbC(iox_client_t x)
{
    log(x, CLIENT, nullptr);
}
void cbV(iox_server_t x)
{
    log(x, SERVER, nullptr);
}
void cbD(iox_service_discovery_t x)
{
    log(x, DISCOVERY, nullptr);
}
void cxT(iox_user_trigger_t x, void* k)
{
    log(x, TRIGGER, k);
}
void cxS(iox_sub_t x, void* k)
{
    log(x, SUB, k);
}
void cxC(iox_client_t x, void* k)
{
    log(x, CLIENT, k);
}
void cxV(iox_server_t x, void* k)
{
    log(x, SERVER, k);
}
void cxD(iox_service_discovery_t x, void* k)
{
    log(x, DISCOVERY, k);
}

/// an origin of events with its other side
struct Src
{
    Kind kind{TRIGGER};
    std::string name;
    iox_user_trigger_t t{nullptr};
    iox_user_trigger_storage_t tStore{};
    iox_service_discovery_t d{nullptr};
    iox_service_discovery_storage_t dStore{};
    std::unique_ptr<ep::CSub> s;
    std::unique_ptr<ep::Pub> p;
    std::unique_ptr<rpc::CCli> c;
    std::unique_ptr<rpc::CSer> v;
    uint64_t data{0};
    uint32_t serial{0};
    static constexpr uint64_t QUEUE = 4;

    Srv srv() const
    {
        return {name, "i", "e"};
    }
    const void* origin() const
    {
        switch (kind)
        {
        case TRIGGER:
            return t;
        case SUB:
            return s->p;
        case CLIENT:
            return c->p;
        case SERVER:
            return v->p;
        default:
            return d;
        }
    }
    void create()
    {
        data = 0;
        switch (kind)
        {
        case TRIGGER:
            t = iox_user_trigger_init(&tStore);
            break;
        case SUB:
        {
            iox::popo::SubscriberOptions o;
            o.queueCapacity = QUEUE;
            s = std::make_unique<ep::CSub>(srv(), o);
        }
            break;
        case CLIENT:
            c = std::make_unique<rpc::CCli>(srv(), iox::popo::ClientOptions{});
            break;
        case SERVER:
            v = std::make_unique<rpc::CSer>(srv(), iox::popo::ServerOptions{});
            break;
        case DISCOVERY:
            d = iox_service_discovery_init(&dStore);
            break;
        }
    }
    void createOther(uint32_t flavour)
    {
        if (kind == SUB)
        {
            p.reset(ep::makePub(flavour, srv(), iox::popo::PublisherOptions{}));
        }
        if (kind == CLIENT)
        {
            v = std::make_unique<rpc::CSer>(srv(), iox::popo::ServerOptions{});
        }
        if (kind == SERVER)
        {
            c = std::make_unique<rpc::CCli>(srv(), iox::popo::ClientOptions{});
        }
    }
    void destroy()
    {
        switch (kind)
        {
        case TRIGGER:
            iox_user_trigger_deinit(t);
            t = nullptr;
            break;
        case SUB:
            s.reset();
            break;
        case CLIENT:
            c.reset();
            break;
        case SERVER:
            v.reset();
            break;
        case DISCOVERY:
            iox_service_discovery_deinit(d);
            d = nullptr;
            break;
        }
        data = 0;
    }
    void destroyAll()
    {
        if (kind == TRIGGER ? t != nullptr : kind == DISCOVERY ? d != nullptr : true)
        {
            destroy();
        }
        s.reset();
        p.reset();
        c.reset();
        v.reset();
    }
    /// @return whether something happened
    bool fire(env::Env& e)
    {
        switch (kind)
        {
        case TRIGGER:
            iox_user_trigger_trigger(t);
            return true;
        case SUB:
        {
            void* x = nullptr;
            if (p->loan(8, 8, 0, 1, x) != ep::Alloc::OK)
            {
                return false;
            }
            p->publish(x); // the oldest one is dropped when the queue is full
            data = std::min(data + 1, QUEUE);
            return true;
        }
        case CLIENT:
        {
            void* x = nullptr;
            const void* q = nullptr;
            if (data > 4 || iox_client_loan_request(c->p, &x, 8) != AllocationResult_SUCCESS)
            {
                return false;
            }
            if (iox_client_send(c->p, x) != ClientSendResult_SUCCESS
                || iox_server_take_request(v->p, &q) != ServerRequestResult_SUCCESS)
            {
                return false;
            }
            bool ok = iox_server_loan_response(v->p, q, &x, 8) == AllocationResult_SUCCESS
                      && iox_server_send(v->p, x) == ServerSendResult_SUCCESS;
            iox_server_release_request(v->p, q);
            data += ok;
            return ok;
        }
        case SERVER:
        {
            void* x = nullptr;
            if (data > 2 || iox_client_loan_request(c->p, &x, 8) != AllocationResult_SUCCESS)
            {
                return false;
            }
            bool ok = iox_client_send(c->p, x) == ClientSendResult_SUCCESS;
            data += ok;
            return ok;
        }
        case DISCOVERY:
        {
            // a service appears
            p.reset(ep::makePub(0, Srv{name, "n" + std::to_string(++serial), "e"}, iox::popo::PublisherOptions{}));
            e.discover();
            return true;
        }
        }
        return false;
    }
    bool consume()
    {
        const void* x = nullptr;
        bool ok = false;
        if (kind == SUB)
        {
            ok = iox_sub_take_chunk(s->p, &x) == ChunkReceiveResult_SUCCESS;
            if (ok)
            {
                iox_sub_release_chunk(s->p, x);
            }
        }
        else if (kind == CLIENT)
        {
            ok = iox_client_take_response(c->p, &x) == ChunkReceiveResult_SUCCESS;
            if (ok)
            {
                iox_client_release_response(c->p, x);
            }
        }
        else if (kind == SERVER)
        {
            ok = iox_server_take_request(v->p, &x) == ServerRequestResult_SUCCESS;
            if (ok)
            {
                iox_server_release_request(v->p, x);
            }
        }
        data -= ok;
        return ok;
    }
    bool from(iox_notification_info_t n) const
    {
        switch (kind)
        {
        case TRIGGER:
            return iox_notification_info_does_originate_from_user_trigger(n, t);
        case SUB:
            return iox_notification_info_does_originate_from_subscriber(n, s->p);
        case CLIENT:
            return iox_notification_info_does_originate_from_client(n, c->p);
        case SERVER:
            return iox_notification_info_does_originate_from_server(n, v->p);
        default:
            return iox_notification_info_does_originate_from_service_discovery(n, d);
        }
    }
    const void* originIn(iox_notification_info_t n) const
    {
        switch (kind)
        {
        case TRIGGER:
            return iox_notification_info_get_user_trigger_origin(n);
        case SUB:
            return iox_notification_info_get_subscriber_origin(n);
        case CLIENT:
            return iox_notification_info_get_client_origin(n);
        case SERVER:
            return iox_notification_info_get_server_origin(n);
        default:
            return iox_notification_info_get_service_discovery_origin(n);
        }
    }
};

struct Att
{
    bool state{false};
    uint64_t id{0};
    uint32_t cb{0}; // 0 none, 1 plain, 2 with context
    bool pending{false};
    bool may{false}; // may be reported although nothing is known to have happened
};

iox_WaitSetResult attach(iox_ws_t w, Src& s, bool state, uint64_t id, uint32_t cb, void* ctx)
{
    switch (s.kind)
    {
    case TRIGGER:
        return cb == 2 ? iox_ws_attach_user_trigger_event_with_context_data(w, s.t, id, cxT, ctx)
                       : iox_ws_attach_user_trigger_event(w, s.t, id, cb ? cbT : nullptr);
    case SUB:
        return state ? (cb == 2 ? iox_ws_attach_subscriber_state_with_context_data(
                                      w, s.s->p, SubscriberState_HAS_DATA, id, cxS, ctx)
                                : iox_ws_attach_subscriber_state(
                                      w, s.s->p, SubscriberState_HAS_DATA, id, cb ? cbS : nullptr))
                     : (cb == 2 ? iox_ws_attach_subscriber_event_with_context_data(
                                      w, s.s->p, SubscriberEvent_DATA_RECEIVED, id, cxS, ctx)
                                : iox_ws_attach_subscriber_event(
                                      w, s.s->p, SubscriberEvent_DATA_RECEIVED, id, cb ? cbS : nullptr));
    case CLIENT:
        return state ? (cb == 2 ? iox_ws_attach_client_state_with_context_data(
                                      w, s.c->p, ClientState_HAS_RESPONSE, id, cxC, ctx)
                                : iox_ws_attach_client_state(
                                      w, s.c->p, ClientState_HAS_RESPONSE, id, cb ? cbC : nullptr))
                     : (cb == 2 ? iox_ws_attach_client_event_with_context_data(
                                      w, s.c->p, ClientEvent_RESPONSE_RECEIVED, id, cxC, ctx)
                                : iox_ws_attach_client_event(
                                      w, s.c->p, ClientEvent_RESPONSE_RECEIVED, id, cb ? cbC : nullptr));
    case SERVER:
        return state ? (cb == 2 ? iox_ws_attach_server_state_with_context_data(
                                      w, s.v->p, ServerState_HAS_REQUEST, id, cxV, ctx)
                                : iox_ws_attach_server_state(
                                      w, s.v->p, ServerState_HAS_REQUEST, id, cb ? cbV : nullptr))
                     : (cb == 2 ? iox_ws_attach_server_event_with_context_data(
                                      w, s.v->p, ServerEvent_REQUEST_RECEIVED, id, cxV, ctx)
                                : iox_ws_attach_server_event(
                                      w, s.v->p, ServerEvent_REQUEST_RECEIVED, id, cb ? cbV : nullptr));
    default:
        return cb == 2 ? iox_ws_attach_service_discovery_event_with_context_data(
                   w, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, id, cxD, ctx)
                       : iox_ws_attach_service_discovery_event(
                           w, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, id, cb ? cbD : nullptr);
    }
}
void detach(iox_ws_t w, Src& s, bool state)
{
    switch (s.kind)
    {
    case TRIGGER:
        return iox_ws_detach_user_trigger_event(w, s.t);
    case SUB:
        return state ? iox_ws_detach_subscriber_state(w, s.s->p, SubscriberState_HAS_DATA)
                     : iox_ws_detach_subscriber_event(w, s.s->p, SubscriberEvent_DATA_RECEIVED);
    case CLIENT:
        return state ? iox_ws_detach_client_state(w, s.c->p, ClientState_HAS_RESPONSE)
                     : iox_ws_detach_client_event(w, s.c->p, ClientEvent_RESPONSE_RECEIVED);
    case SERVER:
        return state ? iox_ws_detach_server_state(w, s.v->p, ServerState_HAS_REQUEST)
                     : iox_ws_detach_server_event(w, s.v->p, ServerEvent_REQUEST_RECEIVED);
    default:
        return iox_ws_detach_service_discovery_event(w, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED);
    }
}

std::vector<std::unique_ptr<Src>> makeSources(Case& c, uint32_t n)
{
    std::vector<std::unique_ptr<Src>> v;
    for (uint32_t i = 0; i < n; ++i)
    {
        auto s = std::make_unique<Src>();
        s->kind = static_cast<Kind>(c.weighted({3, 4, 2, 2, 1}));
        s->name = std::string(KIND[s->kind]) + std::to_string(i);
        s->create();
        s->createOther(c.draw(2));
        v.push_back(std::move(s));
    }
    return v;
}

void waitSet(Case& c)
{
    auto& e = Shared::get();
    auto src = makeSources(c, c.range(1, 7));
    std::vector<std::optional<Att>> att(src.size());
    e.discover();
    e.discover();
    iox_ws_storage_t wStore;
    iox_ws_t w = iox_ws_init(&wStore);
    const uint64_t capacity = iox_ws_capacity(w);
    bool stale = false; // a notification of an attachment that is gone may hit the next one in its place
    bool destroyed = false;
    // fill the wait set up, so that its capacity is in reach
    std::vector<iox_user_trigger_t> fill;
    std::vector<iox_user_trigger_storage_t> fillStore(capacity);
    const bool full = c.chance(1, 6);
    if (full)
    {
        uint64_t n = capacity - c.range(0, 3);
        for (uint64_t i = 0; i < n; ++i)
        {
            fill.push_back(iox_user_trigger_init(&fillStore[i]));
            PBT_CHECK(c, iox_ws_attach_user_trigger_event(w, fill.back(), 7000 + i, nullptr) == WaitSetResult_SUCCESS, "attach",
                      "%llu events cannot be attached to a wait set for %llu", (ull)i + 1, (ull)capacity);
        }
    }
    auto attached = [&] {
        uint64_t k = fill.size();
        for (auto& a : att)
        {
            k += a.has_value();
        }
        return k;
    };
    uint32_t reports = 0;
    auto wait = [&] {
        std::set<size_t> must, may;
        for (size_t i = 0; i < src.size(); ++i)
        {
            if (att[i])
            {
                if (att[i]->state ? src[i]->data > 0 : att[i]->pending)
                {
                    must.insert(i);
                }
                else if (!att[i]->state && (att[i]->may || src[i]->kind == DISCOVERY))
                {
                    may.insert(i);
                }
            }
        }
        const bool blocking = !must.empty() && c.chance(1, 2);
        const uint64_t cap = c.chance(1, 4) ? c.range(0, 3) : 64;
        std::vector<iox_notification_info_t> buf(cap + 2, nullptr);
        uint64_t missed = 12345;
        // now and then a real timeout
        const uint32_t ms = !blocking && must.empty() && may.empty() && c.chance(1, 24) ? c.range(1, 12) : 0;
        timespec zero{0, ms > 0 ? static_cast<long>(ms) * 1000000 : c.chance(1, 8) ? 1000 : 0};
        const auto start = std::chrono::steady_clock::now();
        c.log("%s cap %llu (must %zu)", blocking ? "wait" : "timed_wait", (ull)cap, must.size());
        uint64_t n = blocking ? iox_ws_wait(w, buf.data(), cap, &missed) : iox_ws_timed_wait(w, zero, buf.data(), cap, &missed);
        if (destroyed)
        {
            return;
        }
        const auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - start).count();
        PBT_CHECK(c, n + missed > 0 || us + 300 >= ms * 1000, "too-early", "timed_wait returns after %lld us instead of %u ms", (long long)us, ms);
        PBT_CHECK(c, n <= cap && buf[cap] == nullptr && buf[cap + 1] == nullptr, "capacity", "%llu notifications were written, there is room for %llu",
                  (ull)n, (ull)cap);
        PBT_CHECK(c, missed == 0 || n == cap, "missed", "%llu notifications are reported as missed although there was room", (ull)missed);
        std::set<size_t> got;
        for (uint64_t i = 0; i < n; ++i)
        {
            auto x = buf[i];
            size_t k = src.size();
            for (size_t j = 0; j < src.size(); ++j)
            {
                if (src[j]->from(x))
                {
                    PBT_CHECK(c, k == src.size(), "two-origins", "a notification originates from two sources");
                    k = j;
                }
            }
            PBT_CHECK(c, k < src.size(), "unknown-origin", "wait reports something that never happened");
            auto& s = *src[k];
            PBT_CHECK(c, got.insert(k).second, "reported-twice", "wait reports %s twice at once", s.name.c_str());
            PBT_CHECK(c, att[k].has_value(), "not-attached", "wait reports %s, which is not attached", s.name.c_str());
            PBT_CHECK(c, s.originIn(x) == s.origin(), "origin", "the origin of %s's notification is another one", s.name.c_str());
            PBT_CHECK(c, iox_notification_info_get_notification_id(x) == att[k]->id, "wrong-id", "notification id of %s is %llu instead of %llu",
                      s.name.c_str(), (ull)iox_notification_info_get_notification_id(x), (ull)att[k]->id);
            g_call = {};
            iox_notification_info_call(x);
            PBT_CHECK(c, g_call.calls == (att[k]->cb ? 1 : 0), "callback", "the callback of %s was %scalled", s.name.c_str(),
                      g_call.calls ? "" : "not ");
            if (att[k]->cb)
            {
                PBT_CHECK(c, g_call.origin == s.origin() && g_call.kind == s.kind, "callback-origin", "%s's callback got another origin", s.name.c_str());
                PBT_CHECK(c, g_call.ctx == (att[k]->cb == 2 ? &att[k] : nullptr), "callback-context", "%s's callback got another context",
                          s.name.c_str());
            }
            ++reports;
        }
        PBT_CHECK(c, n + missed >= must.size(), "not-reported", "%llu notifications of %zu that have to be reported", (ull)(n + missed), must.size());
        PBT_CHECK(c, n + missed <= must.size() + may.size(), "spurious", "%llu notifications, but only %zu things happened", (ull)(n + missed),
                  must.size() + may.size());
        for (auto k : must)
        {
            PBT_CHECK(c, missed > 0 || got.count(k), "not-reported", "wait does not report %s (%s)", src[k]->name.c_str(),
                      att[k]->state ? "state" : "event");
            if (!got.count(k) && !att[k]->state)
            {
                att[k]->may = true; // it was among the missed ones
            }
            att[k]->pending = false;
        }
        for (auto k : got)
        {
            PBT_CHECK(c, must.count(k) || may.count(k), "spurious", "wait reports %s although nothing happened", src[k]->name.c_str());
            att[k]->may = false;
        }
    };
    uint32_t steps = c.range(5, 50);
    for (uint32_t step = 0; step < steps; ++step)
    {
        size_t i = c.draw(static_cast<uint32_t>(src.size()));
        auto& s = *src[i];
        switch (c.weighted({6, 2, 8, 4, 8, 1}))
        {
        case 0:
        {
            const bool state = (s.kind == SUB || s.kind == CLIENT || s.kind == SERVER) && c.chance(1, 2);
            const uint32_t cb = c.draw(3);
            const uint64_t id = c.chance(1, 2) ? c.u64() : c.draw(100);
            const bool isFull = attached() >= capacity;
            const bool same = att[i] && att[i]->state == state;
            auto r = attach(w, s, state, id, cb, &att[i]);
            c.log("attach %s %s id=%llu cb=%u -> %d", s.name.c_str(), state ? "state" : "event", (ull)id, cb, r);
            if (same)
            {
                PBT_CHECK(c, r == WaitSetResult_ALREADY_ATTACHED, "attached-twice", "attaching %s twice yields %d", s.name.c_str(), r);
            }
            else if (isFull)
            {
                PBT_CHECK(c, r == WaitSetResult_WAIT_SET_FULL, "full", "attaching to a full wait set yields %d", r);
            }
            else
            {
                PBT_CHECK(c, r == WaitSetResult_SUCCESS, "attach", "%s cannot be attached: %d", s.name.c_str(), r);
                if (att[i])
                {
                    stale = true;
                }
                att[i] = Att{state, id, cb, false, stale};
            }
            break;
        }
        case 1:
            if (att[i])
            {
                c.log("detach %s", s.name.c_str());
                detach(w, s, att[i]->state);
                stale = stale || att[i]->pending || att[i]->state || att[i]->may || s.kind == DISCOVERY;
                att[i].reset();
            }
            break;
        case 2:
        {
            bool fired = s.fire(e);
            c.log("fire %s %d", s.name.c_str(), fired);
            if (s.kind == TRIGGER)
            {
                PBT_CHECK(c, iox_user_trigger_has_triggered(s.t) == att[i].has_value(), "has-triggered", "has_triggered is %d after a trigger",
                          iox_user_trigger_has_triggered(s.t));
            }
            if (fired && att[i] && !att[i]->state)
            {
                att[i]->pending = true;
            }
            break;
        }
        case 3:
            for (uint32_t k = c.range(1, 3); k > 0 && s.data > 0; --k)
            {
                PBT_CHECK(c, s.consume(), "take", "the data of %s is not there", s.name.c_str());
            }
            break;
        case 4:
            wait();
            break;
        case 5:
            c.log("renew %s", s.name.c_str());
            stale = stale || att[i].has_value();
            att[i].reset();
            s.destroy();
            e.discover();
            s.create();
            e.discover();
            e.discover();
            break;
        }
        PBT_CHECK(c, iox_ws_size(w) == attached(), "size", "the wait set reports %llu attachments, there are %llu", (ull)iox_ws_size(w), (ull)attached());
    }
    wait();
    if (c.chance(1, 3))
    {
        iox_ws_mark_for_destruction(w);
        destroyed = true;
        uint64_t missed = 0;
        iox_notification_info_t buf[8];
        iox_ws_wait(w, buf, 8, &missed); // must return
    }
    for (auto t : fill)
    {
        iox_user_trigger_deinit(t);
    }
    if (c.chance(1, 2))
    {
        iox_ws_deinit(w);
        w = nullptr;
        if (c.chance(1, 2))
        {
            // what was attached to the wait set that is gone must not be seen by the next one
            c.log("another wait set");
            e.discover();
            iox_ws_storage_t st2;
            auto w2 = iox_ws_init(&st2);
            std::vector<iox_user_trigger_storage_t> ts(src.size() + 2);
            std::vector<iox_user_trigger_t> t2;
            for (auto& x : ts)
            {
                t2.push_back(iox_user_trigger_init(&x));
                PBT_CHECK(c, iox_ws_attach_user_trigger_event(w2, t2.back(), 1, nullptr) == WaitSetResult_SUCCESS, "attach",
                          "a user trigger cannot be attached to a new wait set");
            }
            for (auto& s : src)
            {
                s->fire(e);
            }
            iox_notification_info_t buf[16];
            uint64_t missed = 0;
            auto n = iox_ws_timed_wait(w2, timespec{0, 0}, buf, 16, &missed);
            PBT_CHECK(c, n == 0 && missed == 0, "foreign-event", "a new wait set reports what happened at origins attached to an earlier one");
            for (auto t : t2)
            {
                iox_user_trigger_deinit(t);
            }
            iox_ws_deinit(w2);
        }
    }
    for (auto& s : src)
    {
        s->destroyAll();
    }
    if (w)
    {
        PBT_CHECK(c, iox_ws_size(w) == 0, "size", "%llu attachments are left when all origins are gone", (ull)iox_ws_size(w));
        iox_ws_deinit(w);
    }
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "chunks are in use after all endpoints are gone");
    Shared::clean();
    c.nontrivial(reports >= 2);
}

// ------------------------------------------------------------------ listener
struct LCtx
{
    std::atomic<uint32_t> calls{0};
    std::atomic<bool> bad{false};
    std::atomic<const void*> origin{nullptr};
    uint32_t kind{0};
};
// callbacks without context find their log by the origin
constexpr uint32_t MAX_SRC = 8;
std::atomic<LCtx*> g_plain[MAX_SRC];
std::atomic<uint32_t> g_lost{0};
void lcall(const void* o, uint32_t kind, LCtx* x)
{
    if (x->origin.load() != o || x->kind != kind)
    {
        x->bad.store(true);
    }
    x->calls.fetch_add(1);
}
void lplain(const void* o, uint32_t kind)
{
    for (auto& p : g_plain)
    {
        auto* x = p.load();
        if (x && x->origin.load() == o)
        {
            return lcall(o, kind, x);
        }
    }
    g_lost.fetch_add(1);
}
void plT(iox_user_trigger_t x)
{
    lplain(x, TRIGGER);
}
void plS(iox_sub_t x)
{
    lplain(x, SUB);
}
void plC(iox_client_t x)
{
    lplain(x, CLIENT);
}
void plV(iox_server_t x)
{
    lplain(x, SERVER);
}
void plD(iox_service_discovery_t x)
{
    lplain(x, DISCOVERY);
}
void lxT(iox_user_trigger_t x, void* k)
{
    lcall(x, TRIGGER, static_cast<LCtx*>(k));
}
void lxS(iox_sub_t x, void* k)
{
    lcall(x, SUB, static_cast<LCtx*>(k));
}
void lxC(iox_client_t x, void* k)
{
    lcall(x, CLIENT, static_cast<LCtx*>(k));
}
void lxV(iox_server_t x, void* k)
{
    lcall(x, SERVER, static_cast<LCtx*>(k));
}
void lxD(iox_service_discovery_t x, void* k)
{
    lcall(x, DISCOVERY, static_cast<LCtx*>(k));
}
iox_ListenerResult attach(iox_listener_t l, Src& s, uint32_t cb, void* ctx)
{
    switch (s.kind)
    {
    case TRIGGER:
        return cb == 2 ? iox_listener_attach_user_trigger_event_with_context_data(l, s.t, lxT, ctx)
                       : iox_listener_attach_user_trigger_event(l, s.t, cb ? plT : nullptr);
    case SUB:
        return cb == 2 ? iox_listener_attach_subscriber_event_with_context_data(l, s.s->p, SubscriberEvent_DATA_RECEIVED, lxS, ctx)
                       : iox_listener_attach_subscriber_event(l, s.s->p, SubscriberEvent_DATA_RECEIVED, cb ? plS : nullptr);
    case CLIENT:
        return cb == 2 ? iox_listener_attach_client_event_with_context_data(l, s.c->p, ClientEvent_RESPONSE_RECEIVED, lxC, ctx)
                       : iox_listener_attach_client_event(l, s.c->p, ClientEvent_RESPONSE_RECEIVED, cb ? plC : nullptr);
    case SERVER:
        return cb == 2 ? iox_listener_attach_server_event_with_context_data(l, s.v->p, ServerEvent_REQUEST_RECEIVED, lxV, ctx)
                       : iox_listener_attach_server_event(l, s.v->p, ServerEvent_REQUEST_RECEIVED, cb ? plV : nullptr);
    default:
        return cb == 2 ? iox_listener_attach_service_discovery_event_with_context_data(
                   l, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, lxD, ctx)
                       : iox_listener_attach_service_discovery_event(
                           l, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, cb ? plD : nullptr);
    }
}
void detach(iox_listener_t l, Src& s)
{
    switch (s.kind)
    {
    case TRIGGER:
        return iox_listener_detach_user_trigger_event(l, s.t);
    case SUB:
        return iox_listener_detach_subscriber_event(l, s.s->p, SubscriberEvent_DATA_RECEIVED);
    case CLIENT:
        return iox_listener_detach_client_event(l, s.c->p, ClientEvent_RESPONSE_RECEIVED);
    case SERVER:
        return iox_listener_detach_server_event(l, s.v->p, ServerEvent_REQUEST_RECEIVED);
    default:
        return iox_listener_detach_service_discovery_event(l, s.d, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED);
    }
}

void listener(Case& c)
{
    auto& e = Shared::get();
    auto src = makeSources(c, c.range(1, 6));
    struct L
    {
        std::unique_ptr<LCtx> x;
        uint32_t fired{0};
        uint32_t cb{0};
    };
    std::vector<std::optional<L>> att(src.size());
    std::vector<std::pair<std::unique_ptr<LCtx>, uint32_t>> gone; // detached, with the number of calls by then
    g_lost.store(0);
    e.discover();
    e.discover();
    iox_listener_storage_t store;
    iox_listener_t l = iox_listener_init(&store);
    const uint64_t capacity = iox_listener_capacity(l);
    std::vector<iox_user_trigger_t> fill;
    std::vector<iox_user_trigger_storage_t> fillStore(capacity);
    if (c.chance(1, 8))
    {
        uint64_t n = capacity - c.range(0, 3);
        for (uint64_t i = 0; i < n; ++i)
        {
            fill.push_back(iox_user_trigger_init(&fillStore[i]));
            PBT_CHECK(c, iox_listener_attach_user_trigger_event(l, fill.back(), plT) == ListenerResult_SUCCESS, "attach",
                      "%llu events cannot be attached to a listener for %llu", (ull)i + 1, (ull)capacity);
        }
    }
    auto attached = [&] {
        uint64_t k = fill.size();
        for (auto& a : att)
        {
            k += a.has_value();
        }
        return k;
    };
    auto forget = [&](size_t i) {
        if (!att[i])
        {
            return;
        }
        g_plain[i].store(nullptr);
        uint32_t calls = att[i]->x->calls.load();
        gone.emplace_back(std::move(att[i]->x), calls);
        att[i].reset();
    };
    uint32_t calls = 0;
    uint32_t steps = c.range(4, 30);
    for (uint32_t step = 0; step < steps; ++step)
    {
        size_t i = c.draw(static_cast<uint32_t>(src.size()));
        auto& s = *src[i];
        switch (c.weighted({6, 2, 10, 1}))
        {
        case 0:
        {
            const uint32_t cb = c.range(1, 2);
            const bool isFull = attached() >= capacity;
            std::unique_ptr<LCtx> x;
            LCtx* ctx = att[i] ? att[i]->x.get() : nullptr;
            if (!ctx)
            {
                x = std::make_unique<LCtx>();
                x->origin.store(s.origin());
                x->kind = s.kind;
                ctx = x.get();
                g_plain[i].store(ctx);
            }
            auto r = attach(l, s, cb, ctx);
            c.log("attach %s cb=%u -> %d", s.name.c_str(), cb, r);
            if (att[i])
            {
                PBT_CHECK(c, r == ListenerResult_EVENT_ALREADY_ATTACHED || (isFull && r == ListenerResult_LISTENER_FULL), "attached-twice",
                          "attaching %s twice yields %d", s.name.c_str(), r);
            }
            else if (isFull)
            {
                PBT_CHECK(c, r == ListenerResult_LISTENER_FULL, "full", "attaching to a full listener yields %d", r);
            }
            else
            {
                PBT_CHECK(c, r == ListenerResult_SUCCESS, "attach", "%s cannot be attached: %d", s.name.c_str(), r);
                att[i] = L{std::move(x), 0, cb};
            }
            if (!att[i])
            {
                g_plain[i].store(nullptr);
            }
            break;
        }
        case 1:
            if (att[i])
            {
                c.log("detach %s", s.name.c_str());
                detach(l, s);
                forget(i);
            }
            break;
        case 2:
        {
            if (s.kind != TRIGGER && s.kind != DISCOVERY && s.data > 2 && (s.kind != SUB || c.chance(1, 3)))
            {
                while (s.data > 0)
                {
                    PBT_CHECK(c, s.consume(), "take", "the data of %s is not there", s.name.c_str());
                }
            }
            const uint32_t before = att[i] ? att[i]->x->calls.load() : 0;
            const bool fired = s.fire(e);
            c.log("fire %s %d", s.name.c_str(), fired);
            if (fired && att[i])
            {
                ++att[i]->fired;
                for (uint32_t k = 0; k < 300000 && att[i]->x->calls.load() == before; ++k)
                {
                    usleep(k < 100 ? 10 : 100);
                }
                PBT_CHECK(c, att[i]->x->calls.load() > before, "not-called", "the callback of %s is not called", s.name.c_str());
                ++calls;
            }
            break;
        }
        case 3:
            c.log("renew %s", s.name.c_str());
            s.destroy();
            forget(i);
            e.discover();
            s.create();
            e.discover();
            e.discover();
            break;
        }
        PBT_CHECK(c, iox_listener_size(l) == attached(), "size", "the listener reports %llu attachments, there are %llu", (ull)iox_listener_size(l),
                  (ull)attached());
    }
    for (auto t : fill)
    {
        iox_user_trigger_deinit(t);
    }
    auto check = [&] {
        for (size_t i = 0; i < src.size(); ++i)
        {
            if (att[i])
            {
                PBT_CHECK(c, !att[i]->x->bad.load(), "callback-origin", "%s's callback got another origin", src[i]->name.c_str());
                // the registry changes also when other sources come and go
                PBT_CHECK(c, src[i]->kind == DISCOVERY || att[i]->x->calls.load() <= att[i]->fired + 1, "called-too-often",
                          "%u calls of %s's callback, %u events", att[i]->x->calls.load(), src[i]->name.c_str(), att[i]->fired);
            }
        }
        for (auto& g : gone)
        {
            PBT_CHECK(c, g.first->calls.load() == g.second, "call-after-detach", "a callback was called after its event had been detached");
        }
        PBT_CHECK(c, g_lost.load() == 0, "call-after-detach", "a callback was called for something that is not attached");
    };
    if (c.chance(1, 2))
    {
        iox_listener_deinit(l);
        l = nullptr;
        for (size_t i = 0; i < src.size(); ++i)
        {
            uint32_t k = att[i] ? att[i]->x->calls.load() : 0;
            src[i]->fire(e);
            PBT_CHECK(c, !att[i] || att[i]->x->calls.load() == k, "call-after-end", "a callback was called after the listener was destroyed");
        }
        check();
        for (auto& s : src)
        {
            s->destroyAll();
        }
    }
    else
    {
        for (size_t i = 0; i < src.size(); ++i)
        {
            src[i]->destroyAll();
            forget(i);
        }
        PBT_CHECK(c, iox_listener_size(l) == 0, "size", "%llu attachments are left when all origins are gone", (ull)iox_listener_size(l));
        check();
        iox_listener_deinit(l);
    }
    for (auto& p : g_plain)
    {
        p.store(nullptr);
    }
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "chunks are in use after all endpoints are gone");
    Shared::clean();
    c.nontrivial(calls >= 2);
}

// ------------------------------------------------------------------ headers
void headers(Case& c)
{
    auto& e = Shared::get();
    Srv s{"h", "i", "e"};
    auto pub = std::make_unique<ep::CPub>(s, iox::popo::PublisherOptions{});
    auto sub = std::make_unique<ep::CSub>(s, iox::popo::SubscriberOptions{});
    auto cli = std::make_unique<rpc::CCli>(s, iox::popo::ClientOptions{});
    auto ser = std::make_unique<rpc::CSer>(s, iox::popo::ServerOptions{});
    e.discover();
    e.discover();
    uint32_t n = c.range(1, 6);
    for (uint32_t k = 0; k < n; ++k)
    {
        // chunks with and without user header
        const uint64_t size = c.chance(1, 4) ? c.range(0, 400) : c.range(0, 64);
        const uint32_t align = 1U << c.range(0, 6);
        const uint32_t hs = c.chance(1, 2) ? 0 : c.range(1, 48);
        const uint32_t ha = 1U << c.range(0, 3);
        void* x = nullptr;
        auto r = hs == 0 ? iox_pub_loan_aligned_chunk(pub->p, &x, size, align)
                         : iox_pub_loan_aligned_chunk_with_user_header(pub->p, &x, size, align, hs, ha);
        const bool valid = hs == 0 || hs % ha == 0;
        PBT_CHECK(c, (r == AllocationResult_SUCCESS) || !valid, "loan", "a loan of %llu/%u with a header of %u/%u yields %d", (ull)size, align, hs, ha, r);
        if (r == AllocationResult_SUCCESS)
        {
            auto* h = iox_chunk_header_from_user_payload(x);
            auto* cpp = iox::mepoo::ChunkHeader::fromUserPayload(x);
            PBT_CHECK(c, reinterpret_cast<void*>(h) == reinterpret_cast<void*>(cpp), "chunk-header", "the chunk header of a payload is another one in C");
            PBT_CHECK(c, reinterpret_cast<const void*>(iox_chunk_header_from_user_payload_const(x)) == h, "chunk-header",
                      "const and non-const chunk header of a payload differ");
            PBT_CHECK(c, iox_chunk_header_to_user_payload(h) == x && iox_chunk_header_to_user_payload_const(h) == x, "payload",
                      "the payload of the chunk header of a payload is another one");
            auto* u = iox_chunk_header_to_user_header(h);
            PBT_CHECK(c, u == cpp->userHeader() && iox_chunk_header_to_user_header_const(h) == u, "user-header", "the user header is another one in C");
            PBT_CHECK(c, (u != nullptr) == (hs != 0), "user-header", "a user header of size %u is at %p", hs, u);
            PBT_CHECK(c, reinterpret_cast<uintptr_t>(x) % align == 0 && (!u || reinterpret_cast<uintptr_t>(u) % ha == 0), "alignment",
                      "the chunk is not aligned as requested");
            if (u)
            {
                memset(u, 0x40 + k, hs);
            }
            memset(x, 0x60 + k, size);
            iox_pub_publish_chunk(pub->p, x);
            const void* y = nullptr;
            PBT_CHECK(c, iox_sub_take_chunk(sub->p, &y) == ChunkReceiveResult_SUCCESS, "take", "the published sample is not received");
            auto* uh = static_cast<const uint8_t*>(iox_chunk_header_to_user_header_const(iox_chunk_header_from_user_payload_const(y)));
            PBT_CHECK(c, (uh != nullptr) == (hs != 0), "user-header", "the received user header is %s", uh ? "there" : "missing");
            for (uint32_t i = 0; i < hs; ++i)
            {
                PBT_CHECK(c, uh[i] == 0x40 + k, "user-header", "the content of the user header has changed");
            }
            for (uint64_t i = 0; i < size; ++i)
            {
                PBT_CHECK(c, static_cast<const uint8_t*>(y)[i] == 0x60 + k, "content", "the content of the payload has changed");
            }
            iox_sub_release_chunk(sub->p, y);
        }
        // requests and responses
        const int64_t seq = static_cast<int64_t>(c.u64b());
        void* q = nullptr;
        const uint32_t ra = 1U << c.range(0, 6);
        PBT_CHECK(c, iox_client_loan_aligned_request(cli->p, &q, c.range(1, 64), ra) == AllocationResult_SUCCESS, "loan", "no request");
        auto rh = iox_request_header_from_payload(q);
        PBT_CHECK(c, reinterpret_cast<void*>(rh) == iox::popo::RequestHeader::fromPayload(q), "request-header", "the request header is another one in C");
        PBT_CHECK(c, iox_request_header_from_payload_const(q) == rh, "request-header", "const and non-const request header differ");
        iox_request_header_set_sequence_id(rh, seq);
        PBT_CHECK(c, iox_request_header_get_sequence_id(rh) == seq && iox_request_header_get_sequence_id_const(rh) == seq, "sequence-id",
                  "the sequence id is not the one that was set");
        PBT_CHECK(c, iox_request_header_get_user_payload(rh) == q && iox_request_header_get_user_payload_const(rh) == q, "payload",
                  "the payload of the request header is another one");
        PBT_CHECK(c, reinterpret_cast<void*>(iox_request_header_get_chunk_header(rh)) == iox::mepoo::ChunkHeader::fromUserPayload(q)
                         && iox_request_header_get_chunk_header_const(rh) == iox_request_header_get_chunk_header(rh),
                  "chunk-header", "the chunk header of a request is another one");
        PBT_CHECK(c, iox_request_header_get_rpc_header_version(rh) == iox::popo::RequestHeader::fromPayload(q)->getRpcHeaderVersion()
                         && iox_request_header_get_rpc_header_version_const(rh) == iox_request_header_get_rpc_header_version(rh),
                  "version", "the header version is another one");
        PBT_CHECK(c, iox_client_send(cli->p, q) == ClientSendResult_SUCCESS, "send", "a request cannot be sent");
        const void* t = nullptr;
        PBT_CHECK(c, iox_server_take_request(ser->p, &t) == ServerRequestResult_SUCCESS, "take", "a request does not arrive");
        PBT_CHECK(c, iox_request_header_get_sequence_id_const(iox_request_header_from_payload_const(t)) == seq, "sequence-id",
                  "the request arrives with another sequence id");
        void* a = nullptr;
        PBT_CHECK(c, iox_server_loan_aligned_response(ser->p, t, &a, c.range(1, 64), ra) == AllocationResult_SUCCESS, "loan", "no response");
        auto sh = iox_response_header_from_payload(a);
        PBT_CHECK(c, reinterpret_cast<void*>(sh) == iox::popo::ResponseHeader::fromPayload(a) && iox_response_header_from_payload_const(a) == sh,
                  "response-header", "the response header is another one in C");
        PBT_CHECK(c, iox_response_header_get_sequence_id(sh) == seq && iox_response_header_get_sequence_id_const(sh) == seq, "sequence-id",
                  "the response has another sequence id than its request");
        PBT_CHECK(c, iox_response_header_get_user_payload(sh) == a && iox_response_header_get_user_payload_const(sh) == a, "payload",
                  "the payload of the response header is another one");
        PBT_CHECK(c, reinterpret_cast<void*>(iox_response_header_get_chunk_header(sh)) == iox::mepoo::ChunkHeader::fromUserPayload(a)
                         && iox_response_header_get_chunk_header_const(sh) == iox_response_header_get_chunk_header(sh),
                  "chunk-header", "the chunk header of a response is another one");
        PBT_CHECK(c, iox_response_header_get_rpc_header_version(sh) == iox::popo::ResponseHeader::fromPayload(a)->getRpcHeaderVersion()
                         && iox_response_header_get_rpc_header_version_const(sh) == iox_response_header_get_rpc_header_version(sh),
                  "version", "the header version is another one");
        PBT_CHECK(c, !iox_response_header_has_server_error(sh) && !iox_response_header_has_server_error_const(sh), "server-error", "a new response is marked");
        const bool bad = c.chance(1, 2);
        if (bad)
        {
            iox_response_header_set_server_error(sh);
        }
        PBT_CHECK(c, iox_response_header_has_server_error(sh) == bad && iox_response_header_has_server_error_const(sh) == bad, "server-error",
                  "the error mark is not the one that was set");
        PBT_CHECK(c, iox_server_send(ser->p, a) == ServerSendResult_SUCCESS, "send", "a response cannot be sent");
        iox_server_release_request(ser->p, t);
        PBT_CHECK(c, iox_client_take_response(cli->p, &t) == ChunkReceiveResult_SUCCESS, "take", "the response does not arrive");
        auto ch = iox_response_header_from_payload_const(t);
        PBT_CHECK(c, iox_response_header_get_sequence_id_const(ch) == seq && iox_response_header_has_server_error_const(ch) == bad, "response",
                  "the response arrives with another sequence id or error mark");
        iox_client_release_response(cli->p, t);
    }
    pub.reset();
    sub.reset();
    cli.reset();
    ser.reset();
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "chunks are in use after all endpoints are gone");
    Shared::clean();
    c.nontrivial(n >= 2);
}

// ------------------------------------------------------------------ options, limits, names
iox_QueueFullPolicy qfp(iox::popo::QueueFullPolicy p)
{
    return p == iox::popo::QueueFullPolicy::BLOCK_PRODUCER ? QueueFullPolicy_BLOCK_PRODUCER : QueueFullPolicy_DISCARD_OLDEST_DATA;
}
iox_ConsumerTooSlowPolicy ctp(iox::popo::ConsumerTooSlowPolicy p)
{
    return p == iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER
                                                                    : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
}
void options(Case& c)
{
    using namespace iox::popo;
    auto& e = Shared::get();
    auto text = [&](uint32_t max) {
        std::string s;
        uint32_t n = c.chance(1, 6) ? max : c.range(0, 12);
        for (uint32_t i = 0; i < n; ++i)
        {
            s += static_cast<char>('a' + c.draw(26));
        }
        return s;
    };
    Srv s{text(100), text(100), text(100)};
    auto& last = env::DirectRuntime::lastOptions();
    const std::string node = text(87);
    const bool useNode = c.chance(2, 3);
    const bool null = c.chance(1, 5);
    const uint64_t cap = c.range(1, 300);
    const uint64_t hist = c.range(0, 20);
    const bool flag = c.chance(1, 2), flag2 = c.chance(1, 2);
    const auto q = c.chance(1, 2) ? QueueFullPolicy_BLOCK_PRODUCER : QueueFullPolicy_DISCARD_OLDEST_DATA;
    const auto t = c.chance(1, 2) ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
    const uint8_t junk = static_cast<uint8_t>(c.draw(255));
    const uint32_t kind = c.draw(4);
    c.log("%s node '%s' (%d) null %d cap %llu hist %llu flags %d %d policies %d %d", KIND[kind], node.c_str(), useNode, null, (ull)cap, (ull)hist, flag,
          flag2, q, t);
#define SAME(a, b, what) PBT_CHECK(c, (a) == (b), "option", "the option " what " does not take effect")
    switch (kind)
    {
    case 0:
    {
        PublisherOptions d;
        iox_pub_options_t o;
        memset(&o, junk, sizeof o);
        PBT_CHECK(c, !iox_pub_options_is_initialized(&o), "initialized", "options that were not initialized are taken for initialized");
        iox_pub_options_init(&o);
        PBT_CHECK(c, iox_pub_options_is_initialized(&o), "initialized", "initialized options are not taken for initialized");
        PBT_CHECK(c, o.historyCapacity == d.historyCapacity && o.offerOnCreate == d.offerOnCreate && o.subscriberTooSlowPolicy == ctp(d.subscriberTooSlowPolicy),
                  "defaults", "the default publisher options differ");
        o.historyCapacity = hist % 17;
        o.offerOnCreate = flag;
        o.subscriberTooSlowPolicy = t;
        o.nodeName = useNode ? node.c_str() : nullptr;
        iox_pub_storage_t st;
        auto p = iox_pub_init(&st, s.s.c_str(), s.i.c_str(), s.e.c_str(), null ? nullptr : &o);
        SAME(last.pub.historyCapacity, null ? d.historyCapacity : hist % 17, "historyCapacity");
        SAME(last.pub.offerOnCreate, null ? d.offerOnCreate : flag, "offerOnCreate");
        SAME(ctp(last.pub.subscriberTooSlowPolicy), null ? ctp(d.subscriberTooSlowPolicy) : t, "subscriberTooSlowPolicy");
        SAME(std::string(last.pub.nodeName.c_str()), null || !useNode ? std::string() : node, "nodeName");
        auto sd = iox_pub_get_service_description(p);
        PBT_CHECK(c, s.s == sd.serviceString && s.i == sd.instanceString && s.e == sd.eventString, "service", "the service description is another one");
        PBT_CHECK(c, iox_pub_is_offered(p) == (null ? d.offerOnCreate : flag), "offered", "offerOnCreate does not take effect");
        iox_pub_deinit(p);
        break;
    }
    case 1:
    {
        SubscriberOptions d;
        iox_sub_options_t o;
        memset(&o, junk, sizeof o);
        PBT_CHECK(c, !iox_sub_options_is_initialized(&o), "initialized", "options that were not initialized are taken for initialized");
        iox_sub_options_init(&o);
        PBT_CHECK(c, iox_sub_options_is_initialized(&o), "initialized", "initialized options are not taken for initialized");
        PBT_CHECK(c, o.queueCapacity == d.queueCapacity && o.historyRequest == d.historyRequest && o.subscribeOnCreate == d.subscribeOnCreate
                         && o.queueFullPolicy == qfp(d.queueFullPolicy) && o.requirePublisherHistorySupport == d.requiresPublisherHistorySupport,
                  "defaults", "the default subscriber options differ");
        o.queueCapacity = cap;
        o.historyRequest = hist;
        o.subscribeOnCreate = flag;
        o.requirePublisherHistorySupport = flag2;
        o.queueFullPolicy = q;
        o.nodeName = useNode ? node.c_str() : nullptr;
        iox_sub_storage_t st;
        auto p = iox_sub_init(&st, s.s.c_str(), s.i.c_str(), s.e.c_str(), null ? nullptr : &o);
        SAME(last.sub.queueCapacity, null ? d.queueCapacity : cap, "queueCapacity");
        SAME(last.sub.historyRequest, null ? d.historyRequest : hist, "historyRequest");
        SAME(last.sub.subscribeOnCreate, null ? d.subscribeOnCreate : flag, "subscribeOnCreate");
        SAME(last.sub.requiresPublisherHistorySupport, null ? d.requiresPublisherHistorySupport : flag2, "requirePublisherHistorySupport");
        SAME(qfp(last.sub.queueFullPolicy), null ? qfp(d.queueFullPolicy) : q, "queueFullPolicy");
        SAME(std::string(last.sub.nodeName.c_str()), null || !useNode ? std::string() : node, "nodeName");
        auto sd = iox_sub_get_service_description(p);
        PBT_CHECK(c, s.s == sd.serviceString && s.i == sd.instanceString && s.e == sd.eventString, "service", "the service description is another one");
        e.discover();
        PBT_CHECK(c, (iox_sub_get_subscription_state(p) == SubscribeState_NOT_SUBSCRIBED) == !(null ? d.subscribeOnCreate : flag),
                  "subscribed", "subscribeOnCreate does not take effect: %d", iox_sub_get_subscription_state(p));
        iox_sub_deinit(p);
        break;
    }
    case 2:
    {
        ClientOptions d;
        iox_client_options_t o;
        memset(&o, junk, sizeof o);
        PBT_CHECK(c, !iox_client_options_is_initialized(&o), "initialized", "options that were not initialized are taken for initialized");
        iox_client_options_init(&o);
        PBT_CHECK(c, iox_client_options_is_initialized(&o), "initialized", "initialized options are not taken for initialized");
        PBT_CHECK(c, o.responseQueueCapacity == d.responseQueueCapacity && o.connectOnCreate == d.connectOnCreate
                         && o.responseQueueFullPolicy == qfp(d.responseQueueFullPolicy) && o.serverTooSlowPolicy == ctp(d.serverTooSlowPolicy),
                  "defaults", "the default client options differ");
        o.responseQueueCapacity = cap % 16 + 1;
        o.connectOnCreate = flag;
        o.responseQueueFullPolicy = q;
        o.serverTooSlowPolicy = t;
        if (useNode)
        {
            strncpy(o.nodeName, node.c_str(), sizeof o.nodeName);
        }
        iox_client_storage_t st;
        auto p = iox_client_init(&st, s.s.c_str(), s.i.c_str(), s.e.c_str(), null ? nullptr : &o);
        SAME(last.cli.responseQueueCapacity, null ? d.responseQueueCapacity : cap % 16 + 1, "responseQueueCapacity");
        SAME(last.cli.connectOnCreate, null ? d.connectOnCreate : flag, "connectOnCreate");
        SAME(qfp(last.cli.responseQueueFullPolicy), null ? qfp(d.responseQueueFullPolicy) : q, "responseQueueFullPolicy");
        SAME(ctp(last.cli.serverTooSlowPolicy), null ? ctp(d.serverTooSlowPolicy) : t, "serverTooSlowPolicy");
        SAME(std::string(last.cli.nodeName.c_str()), null || !useNode ? std::string() : node, "nodeName");
        auto sd = iox_client_get_service_description(p);
        PBT_CHECK(c, s.s == sd.serviceString && s.i == sd.instanceString && s.e == sd.eventString, "service", "the service description is another one");
        iox_client_deinit(p);
        break;
    }
    default:
    {
        ServerOptions d;
        iox_server_options_t o;
        memset(&o, junk, sizeof o);
        PBT_CHECK(c, !iox_server_options_is_initialized(&o), "initialized", "options that were not initialized are taken for initialized");
        iox_server_options_init(&o);
        PBT_CHECK(c, iox_server_options_is_initialized(&o), "initialized", "initialized options are not taken for initialized");
        PBT_CHECK(c, o.requestQueueCapacity == d.requestQueueCapacity && o.offerOnCreate == d.offerOnCreate
                         && o.requestQueueFullPolicy == qfp(d.requestQueueFullPolicy) && o.clientTooSlowPolicy == ctp(d.clientTooSlowPolicy),
                  "defaults", "the default server options differ");
        o.requestQueueCapacity = cap;
        o.offerOnCreate = flag;
        o.requestQueueFullPolicy = q;
        o.clientTooSlowPolicy = t;
        if (useNode)
        {
            strncpy(o.nodeName, node.c_str(), sizeof o.nodeName);
        }
        iox_server_storage_t st;
        auto p = iox_server_init(&st, s.s.c_str(), s.i.c_str(), s.e.c_str(), null ? nullptr : &o);
        SAME(last.ser.requestQueueCapacity, null ? d.requestQueueCapacity : cap, "requestQueueCapacity");
        SAME(last.ser.offerOnCreate, null ? d.offerOnCreate : flag, "offerOnCreate");
        SAME(qfp(last.ser.requestQueueFullPolicy), null ? qfp(d.requestQueueFullPolicy) : q, "requestQueueFullPolicy");
        SAME(ctp(last.ser.clientTooSlowPolicy), null ? ctp(d.clientTooSlowPolicy) : t, "clientTooSlowPolicy");
        SAME(std::string(last.ser.nodeName.c_str()), null || !useNode ? std::string() : node, "nodeName");
        auto sd = iox_server_get_service_description(p);
        PBT_CHECK(c, s.s == sd.serviceString && s.i == sd.instanceString && s.e == sd.eventString, "service", "the service description is another one");
        PBT_CHECK(c, iox_server_is_offered(p) == (null ? d.offerOnCreate : flag), "offered", "offerOnCreate does not take effect");
        iox_server_deinit(p);
        break;
    }
    }
#undef SAME
    e.discover();
    Shared::clean();
    // the instance name
    const std::string app = "app" + text(80);
    e.activate(app);
    const uint64_t len = c.range(0, 110);
    std::vector<char> buf(len + 8, '#');
    const uint64_t r = iox_runtime_get_instance_name(buf.data(), len);
    if (len == 0)
    {
        PBT_CHECK(c, r == 0 && buf[0] == '#', "instance-name", "the instance name is written into no memory");
    }
    else
    {
        PBT_CHECK(c, r == app.size(), "instance-name", "the length of the instance name is %llu instead of %zu", (ull)r, app.size());
        PBT_CHECK(c, std::string(buf.data()) == app.substr(0, len - 1), "instance-name", "the instance name is another one");
        for (uint64_t i = len; i < buf.size(); ++i)
        {
            PBT_CHECK(c, buf[i] == '#', "instance-name", "the instance name is written beyond its memory");
        }
    }
    PBT_CHECK(c, iox_runtime_get_instance_name(nullptr, len) == 0, "instance-name", "the instance name is written to nowhere");
    e.activate("app");
    // limits
    struct
    {
        uint64_t c, cpp;
        const char* what;
    } lim[] = {
        {iox_cfg_max_publishers(), iox::MAX_PUBLISHERS, "max_publishers"},
        {iox_cfg_max_subscribers_per_publisher(), iox::MAX_SUBSCRIBERS_PER_PUBLISHER, "max_subscribers_per_publisher"},
        {iox_cfg_max_chunks_allocated_per_publisher_simultaneously(), iox::MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY, "max_chunks_allocated"},
        {iox_cfg_max_publisher_history(), iox::MAX_PUBLISHER_HISTORY, "max_publisher_history"},
        {iox_cfg_max_subscribers(), iox::MAX_SUBSCRIBERS, "max_subscribers"},
        {iox_cfg_max_chunks_held_per_subscriber_simultaneously(), iox::MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY, "max_chunks_held"},
        {iox_cfg_max_subscriber_queue_capacity(), iox::MAX_SUBSCRIBER_QUEUE_CAPACITY, "max_subscriber_queue_capacity"},
        {iox_cfg_max_number_of_condition_variables(), iox::MAX_NUMBER_OF_CONDITION_VARIABLES, "max_number_of_condition_variables"},
        {iox_cfg_max_number_of_notifiers_per_condition_variable(), iox::MAX_NUMBER_OF_NOTIFIERS, "max_number_of_notifiers"},
        {iox_cfg_max_number_of_attachments_per_waitset(), iox::MAX_NUMBER_OF_ATTACHMENTS_PER_WAITSET, "max_number_of_attachments_per_waitset"},
        {iox_cfg_max_number_of_events_per_listener(), iox::MAX_NUMBER_OF_EVENTS_PER_LISTENER, "max_number_of_events_per_listener"},
        {iox_cfg_max_number_of_mempools(), iox::MAX_NUMBER_OF_MEMPOOLS, "max_number_of_mempools"},
        {iox_cfg_max_shm_segments(), iox::MAX_SHM_SEGMENTS, "max_shm_segments"},
        {iox_cfg_max_process_number(), iox::MAX_PROCESS_NUMBER, "max_process_number"},
        {iox_cfg_max_findservice_result_size(), iox::MAX_FINDSERVICE_RESULT_SIZE, "max_findservice_result_size"},
        {iox_cfg_max_runtime_name_length(), iox::MAX_RUNTIME_NAME_LENGTH, "max_runtime_name_length"},
        {iox_cfg_service_registry_capacity(), iox::SERVICE_REGISTRY_CAPACITY, "service_registry_capacity"},
    };
    for (auto& x : lim)
    {
        PBT_CHECK(c, x.c == x.cpp, "limit", "the limit %s is %llu in C and %llu in C++", x.what, (ull)x.c, (ull)x.cpp);
    }
    c.nontrivial(!null);
}
} // namespace

int main(int argc, char** argv)
{
    env::quiet();
    std::vector<pbt::Test> tests = {
        {"c_waitset", waitSet, 2.0, 60}, {"c_listener", listener, 1.0, 90, 2000, true}, {"c_headers", headers, 1.0, 60}, {"c_options", options, 1.0, 60}};
    return pbt::runAll(argc, argv, tests);
}
