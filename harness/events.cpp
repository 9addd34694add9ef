// WaitSet, Listener and their triggers: a sequential model and generated schedules (S09).
#include "conc_pubsub.hpp"
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "rpc_model.hpp"

#include <optional>

using namespace iox::popo;
using pbt::Case;

namespace
{
using iox::popo::UntypedClient;
using iox::popo::UntypedServer;
using iox::popo::UntypedSubscriber;
using iox::popo::UntypedPublisher;
using iox::popo::UserTrigger;
using iox::popo::Listener;
using iox::popo::NotificationInfo;
using iox::popo::RequestHeader;
} // namespace
namespace
{
// ------------------------------------------------------------------ sequential model
struct Att
{
    int ws;
    bool state;
    uint64_t id;
    bool cb;
    bool pending{false};
    bool reported{false};
    bool mayBeStale{false};
};
struct Src
{
    enum Kind
    {
        TRIGGER,
        SUB,
        CLIENT,
        SERVER
    } kind;
    std::unique_ptr<UserTrigger> t;
    std::unique_ptr<UntypedPublisher> p;
    std::unique_ptr<UntypedSubscriber> s;
    std::unique_ptr<UntypedClient> c;
    std::unique_ptr<UntypedServer> v;
    uint64_t data{0};
    std::optional<Att> att;
    std::string name;
};
struct CallLog
{
    const void* origin{nullptr};
    int calls{0};
    uint64_t ctx{0};
};
CallLog g_call;
struct Ctx
{
    uint64_t tag;
};
Ctx g_ctx[32];
void cbT(UserTrigger* t)
{
    g_call.origin = t;
    ++g_call.calls;
}
void cbS(UntypedSubscriber* s, Ctx* x)
{
    g_call.origin = s;
    g_call.ctx = x->tag;
    ++g_call.calls;
}
void cbC(UntypedClient* s, Ctx* x)
{
    g_call.origin = s;
    g_call.ctx = x->tag;
    ++g_call.calls;
}
void cbV(UntypedServer* s)
{
    g_call.origin = s;
    ++g_call.calls;
}

template <uint64_t CAP>
void waitSetModel(Case& c)
{
    auto& e = conc::SharedEnv::get(0);
    using WS = WaitSet<CAP>;
    std::vector<std::unique_ptr<WS>> ws;
    uint32_t nws = c.range(1, 2);
    for (uint32_t i = 0; i < nws; ++i)
    {
        ws.push_back(std::make_unique<WS>());
    }
    std::vector<Src> src;
    std::vector<bool> stale(nws, false);
    uint32_t n = c.range(1, 7);
    auto create = [&](Src& s) {
        auto sd = ep::Srv{s.name, "i", "e"}.cpp();
        switch (s.kind)
        {
        case Src::TRIGGER:
            s.t = std::make_unique<UserTrigger>();
            break;
        case Src::SUB:
            s.s = std::make_unique<UntypedSubscriber>(sd);
            break;
        case Src::CLIENT:
            s.c = std::make_unique<UntypedClient>(sd);
            break;
        case Src::SERVER:
            s.v = std::make_unique<UntypedServer>(sd);
            break;
        }
        s.data = 0;
    };
    for (uint32_t i = 0; i < n; ++i)
    {
        Src s;
        s.kind = static_cast<Src::Kind>(c.weighted({3, 4, 1, 1}));
        s.name = "s" + std::to_string(i);
        create(s);
        auto sd = ep::Srv{s.name, "i", "e"}.cpp();
        if (s.kind == Src::SUB)
        {
            s.p = std::make_unique<UntypedPublisher>(sd);
        }
        if (s.kind == Src::CLIENT)
        {
            s.v = std::make_unique<UntypedServer>(sd);
        }
        if (s.kind == Src::SERVER)
        {
            s.c = std::make_unique<UntypedClient>(sd);
        }
        src.push_back(std::move(s));
        g_ctx[i].tag = 1000 + i;
    }
    e.discover();
    e.discover();
    auto origin = [&](Src& s) -> const void* {
        switch (s.kind)
        {
        case Src::TRIGGER:
            return s.t.get();
        case Src::SUB:
            return s.s.get();
        case Src::CLIENT:
            return s.c.get();
        default:
            return s.v.get();
        }
    };
    auto detached = [&](Src& s) {
        if (s.att)
        {
            // the notification of an attachment that is gone may still be in the wait set and hit the next one in its place
            if (s.att->pending || s.att->state)
            {
                stale[static_cast<size_t>(s.att->ws)] = true;
            }
            s.att.reset();
        }
    };
    auto attached = [&](uint32_t w) {
        uint64_t k = 0;
        for (auto& s : src)
        {
            k += s.att && s.att->ws == static_cast<int>(w);
        }
        return k;
    };
    uint32_t reports = 0;
    auto wait = [&](uint32_t w) {
        std::set<size_t> must, may;
        for (size_t i = 0; i < src.size(); ++i)
        {
            auto& s = src[i];
            if (s.att && s.att->ws == static_cast<int>(w))
            {
                if (s.att->state ? s.data > 0 : s.att->pending)
                {
                    must.insert(i);
                }
                if (!s.att->state && s.att->mayBeStale && !s.att->reported)
                {
                    may.insert(i);
                }
            }
        }
        auto v = ws[w]->timedWait(iox::units::Duration::fromNanoseconds(0));
        std::set<size_t> got;
        for (auto* x : v)
        {
            size_t k = src.size();
            for (size_t i = 0; i < src.size(); ++i)
            {
                auto& s = src[i];
                bool from = s.kind == Src::TRIGGER  ? x->doesOriginateFrom(s.t.get())
                            : s.kind == Src::SUB    ? x->doesOriginateFrom(s.s.get())
                            : s.kind == Src::CLIENT ? x->doesOriginateFrom(s.c.get())
                                                    : x->doesOriginateFrom(s.v.get());
                if (from)
                {
                    k = i;
                }
            }
            PBT_CHECK(c, k < src.size(), "unknown-origin", "wait reports something that was never attached");
            PBT_CHECK(c, got.insert(k).second, "reported-twice", "wait reports %s twice at once", src[k].name.c_str());
            auto& s = src[k];
            PBT_CHECK(c, s.att && s.att->ws == static_cast<int>(w), "not-attached", "wait reports %s, which is not attached",
                      s.name.c_str());
            PBT_CHECK(c, x->getNotificationId() == s.att->id, "wrong-id", "notification id of %s is %llu instead of %llu",
                      s.name.c_str(), (unsigned long long)x->getNotificationId(), (unsigned long long)s.att->id);
            g_call = {};
            bool called = (*x)();
            PBT_CHECK(c, called == s.att->cb && g_call.calls == (s.att->cb ? 1 : 0), "callback",
                      "the callback of %s was %scalled", s.name.c_str(), g_call.calls ? "" : "not ");
            if (s.att->cb)
            {
                PBT_CHECK(c, g_call.origin == origin(s), "callback-origin", "the callback got another origin");
                if (s.kind == Src::SUB || s.kind == Src::CLIENT)
                {
                    PBT_CHECK(c, g_call.ctx == 1000 + k, "callback-context", "the callback got another context");
                }
            }
            ++reports;
        }
        for (auto k : must)
        {
            PBT_CHECK(c, got.count(k), "not-reported", "wait does not report %s (%s), which %s", src[k].name.c_str(),
                      src[k].att->state ? "state" : "event", src[k].att->state ? "has data" : "was triggered");
        }
        for (auto k : got)
        {
            if (!must.count(k))
            {
                PBT_CHECK(c, may.count(k), "spurious", "wait reports %s although nothing happened", src[k].name.c_str());
                c.count("stale-report");
            }
            src[k].att->pending = false;
            src[k].att->reported = true;
        }
    };
    uint32_t steps = c.range(5, 60);
    for (uint32_t step = 0; step < steps; ++step)
    {
        size_t i = c.draw(static_cast<uint32_t>(src.size()));
        uint32_t w = c.draw(nws);
        auto& s = src[i];
        switch (c.weighted({6, 2, 8, 4, 8, 1, 1}))
        {
        case 0: // attach
        {
            const bool state = s.kind != Src::TRIGGER && c.chance(1, 2);
            const bool cb = c.chance(1, 2);
            uint64_t id = cb && c.chance(1, 2) ? NotificationInfo::INVALID_ID : c.draw(100000);
            const bool same = s.att && s.att->ws == static_cast<int>(w) && s.att->state == state;
            const bool full = attached(w) >= CAP;
            iox::expected<void, WaitSetError> r = iox::ok();
            auto& W = *ws[w];
            switch (s.kind)
            {
            case Src::TRIGGER:
                r = !cb ? W.attachEvent(*s.t, id)
                    : id == NotificationInfo::INVALID_ID ? W.attachEvent(*s.t, createNotificationCallback(cbT))
                                                         : W.attachEvent(*s.t, id, createNotificationCallback(cbT));
                break;
            case Src::SUB:
            {
                auto k = createNotificationCallback(cbS, g_ctx[i]);
                r = state ? (cb ? W.attachState(*s.s, SubscriberState::HAS_DATA, id, k)
                                : W.attachState(*s.s, SubscriberState::HAS_DATA, id))
                          : (cb ? W.attachEvent(*s.s, SubscriberEvent::DATA_RECEIVED, id, k)
                                : W.attachEvent(*s.s, SubscriberEvent::DATA_RECEIVED, id));
                break;
            }
            case Src::CLIENT:
            {
                auto k = createNotificationCallback(cbC, g_ctx[i]);
                r = state ? (cb ? W.attachState(*s.c, ClientState::HAS_RESPONSE, id, k)
                                : W.attachState(*s.c, ClientState::HAS_RESPONSE, id))
                          : (cb ? W.attachEvent(*s.c, ClientEvent::RESPONSE_RECEIVED, id, k)
                                : W.attachEvent(*s.c, ClientEvent::RESPONSE_RECEIVED, id));
                break;
            }
            case Src::SERVER:
            {
                auto k = createNotificationCallback(cbV);
                r = state ? (cb ? W.attachState(*s.v, ServerState::HAS_REQUEST, id, k)
                                : W.attachState(*s.v, ServerState::HAS_REQUEST, id))
                          : (cb ? W.attachEvent(*s.v, ServerEvent::REQUEST_RECEIVED, id, k)
                                : W.attachEvent(*s.v, ServerEvent::REQUEST_RECEIVED, id));
                break;
            }
            }
            c.log("attach %s %s ws%u id=%llu cb=%d -> %s", s.name.c_str(), state ? "state" : "event", w,
                  (unsigned long long)id, cb, r.has_error() ? "error" : "ok");
            if (same)
            {
                PBT_CHECK(c, r.has_error() && r.error() == WaitSetError::ALREADY_ATTACHED, "attached-twice",
                          "%s was attached twice", s.name.c_str());
            }
            else if (full)
            {
                PBT_CHECK(c, r.has_error() && r.error() == WaitSetError::WAIT_SET_FULL, "full",
                          "an attachment to a full wait set did not fail with WAIT_SET_FULL");
            }
            else
            {
                PBT_CHECK(c, !r.has_error(), "attach", "%s cannot be attached although there is room (%llu of %llu)",
                          s.name.c_str(), (unsigned long long)attached(w), (unsigned long long)CAP);
                detached(s); // attaching elsewhere replaces the previous attachment
                Att a{static_cast<int>(w), state, id, cb};
                a.mayBeStale = stale[w];
                s.att = a;
            }
            break;
        }
        case 1: // detach
            if (!s.att)
            {
                break;
            }
            c.log("detach %s", s.name.c_str());
            {
                auto& W = *ws[static_cast<size_t>(s.att->ws)];
                switch (s.kind)
                {
                case Src::TRIGGER:
                    W.detachEvent(*s.t);
                    break;
                case Src::SUB:
                    s.att->state ? W.detachState(*s.s, SubscriberState::HAS_DATA)
                                 : W.detachEvent(*s.s, SubscriberEvent::DATA_RECEIVED);
                    break;
                case Src::CLIENT:
                    s.att->state ? W.detachState(*s.c, ClientState::HAS_RESPONSE)
                                 : W.detachEvent(*s.c, ClientEvent::RESPONSE_RECEIVED);
                    break;
                case Src::SERVER:
                    s.att->state ? W.detachState(*s.v, ServerState::HAS_REQUEST)
                                 : W.detachEvent(*s.v, ServerEvent::REQUEST_RECEIVED);
                    break;
                }
                detached(s);
            }
            break;
        case 2: // something happens
        {
            c.log("fire %s", s.name.c_str());
            const uint64_t before = s.data;
            switch (s.kind)
            {
            case Src::TRIGGER:
                s.t->trigger();
                PBT_CHECK(c, s.t->hasTriggered() == s.att.has_value(), "has-triggered",
                          "hasTriggered() is %d after trigger() (attached: %d)", s.t->hasTriggered(), s.att.has_value());
                break;
            case Src::SUB:
                if (s.data > 10)
                {
                    break;
                }
                s.p->loan(8).and_then([&](void* x) {
                    s.p->publish(x);
                    ++s.data;
                });
                break;
            case Src::CLIENT:
            {
                // a request and its response
                if (s.data > 4)
                {
                    break;
                }
                s.c->loan(8, 8).and_then([&](void* x) { s.c->send(x); });
                s.v->take().and_then([&](const void* q) {
                    s.v->loan(RequestHeader::fromPayload(q), 8, 8).and_then([&](void* x) {
                        if (!s.v->send(x).has_error())
                        {
                            ++s.data;
                        }
                    });
                    s.v->releaseRequest(q);
                });
                break;
            }
            case Src::SERVER:
                if (s.data > 2)
                {
                    break;
                }
                s.c->loan(8, 8).and_then([&](void* x) {
                    if (!s.c->send(x).has_error())
                    {
                        ++s.data;
                    }
                });
                break;
            }
            if (s.att && !s.att->state && (s.kind == Src::TRIGGER || s.data > before))
            {
                s.att->pending = true;
            }
            break;
        }
        case 3: // consume
        {
            uint64_t k = c.range(1, 3);
            for (; k > 0 && s.data > 0; --k)
            {
                bool ok = false;
                if (s.kind == Src::SUB)
                {
                    s.s->take().and_then([&](const void* x) {
                        s.s->release(x);
                        ok = true;
                    });
                }
                else if (s.kind == Src::CLIENT)
                {
                    s.c->take().and_then([&](const void* x) {
                        s.c->releaseResponse(x);
                        ok = true;
                    });
                }
                else if (s.kind == Src::SERVER)
                {
                    s.v->take().and_then([&](const void* x) {
                        s.v->releaseRequest(x);
                        ok = true;
                    });
                }
                PBT_CHECK(c, ok, "take", "the data of %s is not there", s.name.c_str());
                --s.data;
            }
            break;
        }
        case 4:
            c.log("wait ws%u", w);
            wait(w);
            break;
        case 5: // the origin is destroyed and a new one takes its place
            c.log("renew %s", s.name.c_str());
            detached(s);
            s.t.reset();
            if (s.kind == Src::SUB)
            {
                s.s.reset();
            }
            else if (s.kind == Src::CLIENT)
            {
                s.c.reset();
            }
            else if (s.kind == Src::SERVER)
            {
                s.v.reset();
            }
            e.discover();
            create(s);
            e.discover();
            e.discover();
            break;
        case 6: // the wait set is destroyed
            c.log("renew ws%u", w);
            ws[w].reset();
            for (auto& x : src)
            {
                if (x.att && x.att->ws == static_cast<int>(w))
                {
                    x.att.reset();
                }
            }
            e.discover();
            ws[w] = std::make_unique<WS>();
            stale[w] = false;
            break;
        }
        for (uint32_t k = 0; k < nws; ++k)
        {
            PBT_CHECK(c, ws[k]->size() == attached(k), "size", "the wait set reports %llu attachments, there are %llu",
                      (unsigned long long)ws[k]->size(), (unsigned long long)attached(k));
        }
    }
    for (uint32_t k = 0; k < nws; ++k)
    {
        wait(k);
    }
    if (c.chance(1, 2))
    {
        ws.clear();
        src.clear();
    }
    else
    {
        src.clear();
        ws.clear();
    }
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "chunks are in use after all endpoints are gone");
    conc::SharedEnv::clean();
    c.nontrivial(reports >= 2);
}
void waitSet(Case& c)
{
    switch (c.draw(3))
    {
    case 0:
        return waitSetModel<2>(c);
    case 1:
        return waitSetModel<4>(c);
    default:
        return waitSetModel<16>(c);
    }
}

// ------------------------------------------------------------------ wait set under generated schedules
void waitSetConc(Case& c)
{
    auto& e = conc::SharedEnv::get(0);
    WaitSet<8> ws;
    struct T
    {
        bool user{false}, state{false};
        std::unique_ptr<UserTrigger> t;
        std::unique_ptr<UntypedPublisher> p;
        std::unique_ptr<UntypedSubscriber> s;
        std::vector<std::pair<uint64_t, uint64_t>> fired; // intervals
        uint64_t notified{0};                             // start of the last wait that reported it, 0: none
        uint64_t reported{0};                             // its end
        uint64_t consumed{0};
        bool greedy{true};
    };
    std::vector<T> ts(c.range(1, 4));
    for (size_t i = 0; i < ts.size(); ++i)
    {
        auto& t = ts[i];
        t.user = c.chance(1, 2);
        t.state = !t.user && c.chance(1, 2);
        if (t.user)
        {
            t.t = std::make_unique<UserTrigger>();
            (void)ws.attachEvent(*t.t, i);
        }
        else
        {
            auto sd = ep::Srv{"w" + std::to_string(i), "i", "e"}.cpp();
            t.p = std::make_unique<UntypedPublisher>(sd);
            t.s = std::make_unique<UntypedSubscriber>(sd);
            t.greedy = c.chance(1, 2);
            if (t.state)
            {
                (void)ws.attachState(*t.s, SubscriberState::HAS_DATA, i);
            }
            else
            {
                (void)ws.attachEvent(*t.s, SubscriberEvent::DATA_RECEIVED, i);
            }
        }
    }
    e.discover();
    e.discover();
    sched::Options o;
    o.maxSteps = 20000;
    o.memory = c.chance(1, 4);
    uint32_t nf = c.range(1, 3);
    uint32_t left = 0;
    std::vector<std::vector<size_t>> plan(nf);
    std::map<size_t, size_t> ownerOf;
    for (uint32_t f = 0; f < nf; ++f)
    {
        uint32_t n = c.range(1, 4);
        for (uint32_t k = 0; k < n; ++k)
        {
            size_t i = c.draw(static_cast<uint32_t>(ts.size()));
            if (!ts[i].user)
            {
                // one publisher is used by one thread only
                auto it = ownerOf.emplace(i, f).first;
                if (it->second != f)
                {
                    continue;
                }
            }
            plan[f].push_back(i);
            ++left;
        }
    }
    const uint32_t total = left;
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        sched::spawn([&, f] {
            for (auto i : plan[f])
            {
                auto& t = ts[i];
                t.fired.push_back({sched::clock(), ~0ULL});
                size_t k = t.fired.size() - 1;
                sched::in([&] {
                    if (t.user)
                    {
                        t.t->trigger();
                    }
                    else
                    {
                        t.p->loan(8).and_then([&](void* x) { t.p->publish(x); });
                    }
                });
                t.fired[k].second = sched::clock();
                c.log("%llu-%llu thread %u triggers %zu", (unsigned long long)t.fired[k].first, (unsigned long long)t.fired[k].second, f, i);
                --left;
            }
        });
    }
    uint32_t waits = 0;
    const bool timed = c.chance(1, 3);
    // the waiter is stopped when everything that happened was reported; until then it has to wake up by itself
    UserTrigger stop;
    bool stopped = false;
    (void)ws.attachEvent(stop, 1000);
    sched::spawn([&] {
        sched::waitUntil([&] {
            for (auto& t : ts)
            {
                if (t.state ? t.consumed < t.fired.size() : !t.fired.empty() && t.fired.back().first > t.reported)
                {
                    return false;
                }
            }
            return left == 0;
        });
        sched::in([&] { stop.trigger(); });
    });
    sched::spawn([&] {
        while (!stopped)
        {
            ++waits;
            uint64_t from = sched::clock();
            auto v = sched::in([&] {
                return timed ? ws.timedWait(iox::units::Duration::fromMilliseconds(10)) : ws.wait();
            });
            uint64_t to = sched::clock();
            std::set<size_t> got;
            c.log("%llu-%llu wait reports %llu", (unsigned long long)from, (unsigned long long)to, (unsigned long long)v.size());
            for (auto* x : v)
            {
                size_t i = x->getNotificationId();
                if (i == 1000)
                {
                    stopped = true;
                    continue;
                }
                PBT_CHECK(c, i < ts.size() && got.insert(i).second, "reported-twice", "wait reports an id twice");
                auto& t = ts[i];
                bool can = false;
                for (auto& f : t.fired)
                {
                    can = can || (f.first < to && (t.state || f.second > t.notified));
                }
                PBT_CHECK(c, can, "spurious", "wait reports source %zu although nothing happened since it was last reported", i);
                if (!t.user)
                {
                    PBT_CHECK(c, !t.state || sched::in([&] { return t.s->hasData(); }), "state-not-satisfied",
                              "wait reports that source %zu has data", i);
                    if (t.state)
                    {
                        bool again = true;
                        while (again)
                        {
                            again = false;
                            sched::in([&] {
                                t.s->take().and_then([&](const void* y) {
                                    t.s->release(y);
                                    again = t.greedy;
                                    ++t.consumed;
                                });
                            });
                        }
                    }
                }
            }
            // what was there before this wait began is reported by it
            for (size_t i = 0; i < ts.size(); ++i)
            {
                auto& t = ts[i];
                if (got.count(i))
                {
                    t.notified = from;
                    t.reported = to;
                    continue;
                }
                if (!t.state)
                {
                    for (auto& f : t.fired)
                    {
                        PBT_CHECK(c, !(f.second < from && f.first > t.reported), "not-reported",
                                  "source %zu was triggered before wait was called, and wait reports others (%zu) but not it", i,
                                  got.size());
                    }
                }
            }
        }
    });
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end != sched::End::DEADLOCK, "lost-wakeup", "wait blocks for ever although something happened that it has not "
              "reported");
    PBT_CHECK(c, end == sched::End::FINISHED, "no-progress", "wait never reports what happened");
    ts.clear();
    e.discover();
    conc::SharedEnv::clean();
    c.nontrivial(waits >= 1 && total >= 2);
}

// ------------------------------------------------------------------ listener under generated schedules
struct LT
{
    UserTrigger t;
    std::vector<std::pair<uint64_t, uint64_t>> fired;
    std::vector<std::pair<uint64_t, uint64_t>> attached; // intervals in which it was certainly attached
    bool isAttached{false};
    std::vector<std::pair<uint64_t, uint64_t>> calls;
    bool inside{false};
    uint64_t forbidden{0}; // > 0: detached at this time, calls must not happen
    bool selfDetach{false};
    bool hasSelfDetach{false};
    uint32_t gen{0}; // detached so often
    const char* badKey{nullptr};
    const char* badMsg{nullptr};
    bool selfTrigger{false};
    int selfTriggers{0};
    Case* c{nullptr};
    Listener* l{nullptr};
};
void onLT(UserTrigger* t, LT* x)
{
    sched::Pause harness;
    Case& c = *x->c;
    // an exception cannot leave a callback: what is wrong is remembered
    auto check = [&](bool ok, const char* key, const char* msg) {
        if (!ok && x->badKey == nullptr)
        {
            x->badKey = key;
            x->badMsg = msg;
        }
    };
    check(t == &x->t, "callback-origin", "the callback got another origin");
    check(x->forbidden == 0, "call-after-detach", "a callback started after detachEvent had returned");
    check(!x->inside, "concurrent-callback", "the callback of one event runs twice at the same time");
    x->inside = true;
    uint64_t from = sched::clock();
    sched::point();
    if (x->selfDetach)
    {
        sched::in([&] { x->l->detachEvent(*t); });
        x->isAttached = false;
        x->selfDetach = false;
    }
    else if (x->selfTrigger && x->selfTriggers < 2)
    {
        ++x->selfTriggers;
        x->fired.push_back({sched::clock(), ~0ULL});
        size_t k = x->fired.size() - 1;
        sched::in([&] { t->trigger(); });
        x->fired[k].second = sched::clock();
    }
    sched::point();
    x->inside = false;
    x->calls.push_back({from, sched::clock()});
    c.log("%llu-%llu called", (unsigned long long)from, (unsigned long long)sched::clock());
}

/// own: a callback that triggers or detaches its own event may meet a detach from another thread (a known finding)
void listenerConc(Case& c, bool own)
{
    auto& e = conc::SharedEnv::get(0);
    sched::Options o;
    o.maxSteps = 30000;
    o.memory = c.chance(1, 4);
    std::vector<std::unique_ptr<LT>> ts;
    uint32_t n = c.range(1, 3);
    sched::begin(c, o);
    auto l = std::make_unique<Listener>();
    for (uint32_t i = 0; i < n; ++i)
    {
        ts.push_back(std::make_unique<LT>());
        auto& t = *ts.back();
        t.c = &c;
        t.l = l.get();
        t.selfTrigger = c.chance(1, 8);
        t.selfDetach = !t.selfTrigger && c.chance(1, 10);
        t.hasSelfDetach = t.selfDetach;
        if (c.chance(2, 3))
        {
            auto r = l->attachEvent(t.t, createNotificationCallback(onLT, t));
            PBT_CHECK(c, !r.has_error(), "attach", "an event cannot be attached to an empty listener");
            t.isAttached = true;
        }
    }
    const uint32_t nf = c.range(1, 3);
    uint32_t running = nf;
    // thread 0 owns attaching and detaching; the others trigger
    std::vector<std::vector<uint32_t>> plan(nf);
    bool churn = c.chance(1, 2);
    for (uint32_t f = 0; f < nf; ++f)
    {
        uint32_t k = c.range(1, 5);
        for (uint32_t i = 0; i < k; ++i)
        {
            plan[f].push_back(c.draw(n) * 2 + (f == 0 && churn && c.chance(1, 2) ? 1 : 0));
        }
    }
    uint32_t fires = 0, detaches = 0;
    bool touchy = false;
    for (uint32_t f = 0; f < nf; ++f)
    {
        sched::spawn([&, f] {
            for (auto op : plan[f])
            {
                auto& t = *ts[op / 2];
                if (op % 2 == 0)
                {
                    bool certain = t.isAttached && !t.selfDetach;
                    const uint32_t gen = t.gen;
                    uint64_t from = sched::clock();
                    sched::in([&] { t.t.trigger(); });
                    certain = certain && gen == t.gen;
                    c.log("%llu-%llu thread %u triggers %u (certain %d)", (unsigned long long)from, (unsigned long long)sched::clock(), f, op / 2, certain);
                    if (certain)
                    {
                        t.fired.push_back({from, sched::clock()});
                        ++fires;
                    }
                }
                else if (!own && (t.hasSelfDetach || t.selfTrigger))
                {
                }
                else if (t.isAttached)
                {
                    ++detaches;
                    touchy = touchy || t.selfDetach || t.selfTrigger;
                    t.isAttached = false;
                    ++t.gen;
                    t.fired.clear(); // whatever was pending may be dropped
                    sched::in([&] { l->detachEvent(t.t); });
                    c.log("%llu detached %u", (unsigned long long)sched::clock(), op / 2);
                    t.fired.clear();
                    PBT_CHECK(c, own || !t.inside, "call-after-detach", "detachEvent returned while the callback is running");
                    t.forbidden = sched::clock();
                }
                else
                {
                    if (own)
                    {
                        continue;
                    }
                    t.forbidden = 0;
                    auto r = sched::in([&] { return l->attachEvent(t.t, createNotificationCallback(onLT, t)); });
                    c.log("%llu attached %u", (unsigned long long)sched::clock(), op / 2);
                    PBT_CHECK(c, !r.has_error(), "attach", "a detached event cannot be attached again");
                    t.isAttached = true;
                    t.fired.clear();
                }
            }
            --running;
        });
    }
    // every trigger is followed by a call
    sched::spawn([&] {
        sched::waitUntil([&] {
            if (running > 0)
            {
                return false;
            }
            for (auto& t : ts)
            {
                if (!t->isAttached)
                {
                    continue;
                }
                for (auto& f : t->fired)
                {
                    if (f.second == ~0ULL || t->calls.empty() || t->calls.back().first < f.first)
                    {
                        return false;
                    }
                }
            }
            return true;
        });
        sched::in([&] { l.reset(); });
    });
    auto end = sched::go();
    if (end != sched::End::FINISHED)
    {
        sched::end();
        bool missing = false;
        for (auto& t : ts)
        {
            for (auto& f : t->fired)
            {
                missing = missing || (t->isAttached && !t->inside && (t->calls.empty() || t->calls.back().first < f.first));
            }
        }
        l.release();
        for (auto& t : ts)
        {
            if (t && t->badKey != nullptr && !own)
            {
                c.fail(t->badKey, t->badMsg);
            }
        }
        for (auto& t : ts)
        {
            t.release();
        }
        if (running > 0)
        {
            c.fail(touchy ? "deadlock-own-trigger" : "deadlock",
                   "attach, detach, trigger and the callbacks wait for each other");
        }
        if (own)
        {
            return;
        }
        c.fail(end == sched::End::DEADLOCK ? "lost-wakeup" : "no-progress",
               missing ? "an attached event was triggered and its callback was never called" : "the listener cannot be destroyed");
    }
    sched::end();
    for (auto& t : ts)
    {
        t->forbidden = sched::clock();
        if (t->badKey != nullptr && !own)
        {
            c.fail(t->badKey, t->badMsg);
        }
    }
    ts.clear();
    e.discover();
    conc::SharedEnv::clean();
    c.nontrivial(fires >= 2 || detaches >= 1);
}

template <typename F>
pbt::Test mk(const char* n, F f, double w = 1)
{
    pbt::Test t;
    t.name = n;
    t.weight = w;
    t.hangSec = 30;
    t.block = 1000;
    t.run = [f](Case& c) {
        env::quiet();
        f(c);
    };
    return t;
}
} // namespace

int main(int argc, char** argv)
{
    return pbt::runAll(argc, argv, {mk("waitset", waitSet), mk("waitset_conc", waitSetConc), mk("listener", [](Case& c) { listenerConc(c, false); }),
                                     mk("listener_own", [](Case& c) { listenerConc(c, true); }, 0.3)});
}
