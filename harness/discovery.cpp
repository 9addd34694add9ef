// Service discovery: the registry against a multiset, and whole-system histories of offering (S08).
#include "endpoints.hpp"
#include "iceoryx_posh/internal/roudi/service_registry.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"

#include <optional>

extern "C" {
#include "iceoryx_binding_c/server.h"
#include "iceoryx_binding_c/service_discovery.h"
}

using pbt::Case;
using ep::Srv;
using iox::capro::IdString_t;
using iox::roudi::ServiceRegistry;

namespace
{
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"a",
                                               "b",
                                               "ab",
                                               "A",
                                               "",
                                               std::string(100, 'x'),
                                               std::string(99, 'x'),
                                               std::string(99, 'x') + "y",
                                               "a b/c",
                                               "\xc3\xa4"};
    return n;
}
struct Words
{
    uint32_t n;
    uint32_t off;
};
std::string word(Case& c, const Words& w)
{
    return names()[(w.off + c.draw(w.n)) % names().size()];
}
Srv randSrv(Case& c, const Words& w)
{
    return {word(c, w), word(c, w), word(c, w)};
}
using Opt = std::optional<std::string>;
iox::optional<IdString_t> toIox(const Opt& o)
{
    if (!o)
    {
        return iox::nullopt;
    }
    return IdString_t(iox::TruncateToCapacity, o->c_str());
}
bool match(const Srv& s, const Opt& a, const Opt& b, const Opt& e)
{
    return (!a || *a == s.s) && (!b || *b == s.i) && (!e || *e == s.e);
}
std::string show(const Srv& s)
{
    auto cut = [](const std::string& x) {
        return x.size() < 10 ? x : x.substr(0, 3) + "~" + x.back() + std::to_string(x.size());
    };
    return "{" + cut(s.s) + "|" + cut(s.i) + "|" + cut(s.e) + "}";
}
std::string show(const Opt& o)
{
    return o ? show(Srv{*o, "", ""}) : "*";
}

struct Counts
{
    uint64_t p{0}, s{0};
};

// ------------------------------------------------------------------ the registry alone
void registry(Case& c)
{
    auto owner = std::make_unique<ServiceRegistry>();
    ServiceRegistry* r = owner.get();
    std::map<Srv, Counts> m;
    // with a small vocabulary descriptions repeat, with a large one the registry fills up
    const Words w{c.chance(1, 3) ? 5U : c.range(1, 3), c.draw(10)};
    bool changed = true;
    bool touched = true;
    bool first = true;
    const uint32_t ops = c.range(1, 150);
    const bool fillUp = c.chance(1, 3);
    uint64_t done = 0;
    uint64_t refused = 0;
    auto visible = [&] {
        std::map<Srv, std::pair<bool, bool>> v;
        for (auto& x : m)
        {
            v[x.first] = {x.second.p > 0, x.second.s > 0};
        }
        return v;
    };
    auto published = visible();
    (void)changed;
    for (uint32_t k = 0; k < ops; ++k)
    {
        auto pickSrv = [&] {
            if (!m.empty() && c.chance(1, 2))
            {
                auto it = m.begin();
                std::advance(it, c.draw(static_cast<uint32_t>(m.size())));
                return it->first;
            }
            return randSrv(c, w);
        };
        switch (c.weighted({fillUp ? 40U : 12U, 5, 5, fillUp ? 0U : 2U, 6, 3, 3, 1}))
        {
        case 0:
        {
            Srv s = fillUp ? randSrv(c, w) : pickSrv();
            bool server = c.chance(1, 2);
            auto x = server ? r->addServer(s.cpp()) : r->addPublisher(s.cpp());
            bool expectOk = m.count(s) > 0 || m.size() < ServiceRegistry::CAPACITY;
            c.log("add %s %s -> %d", server ? "server" : "publisher", show(s).c_str(), x.has_value());
            PBT_CHECK(c, x.has_value() == expectOk, "registry-add", "add with %zu of %u entries", m.size(), ServiceRegistry::CAPACITY);
            if (expectOk)
            {
                ++(server ? m[s].s : m[s].p);
                ++done;
            }
            else
            {
                ++refused;
            }
            touched = true;
            break;
        }
        case 1:
        case 2:
        {
            Srv s = pickSrv();
            bool server = c.chance(1, 2);
            c.log("remove %s %s", server ? "server" : "publisher", show(s).c_str());
            server ? r->removeServer(s.cpp()) : r->removePublisher(s.cpp());
            auto it = m.find(s);
            if (it != m.end())
            {
                auto& n = server ? it->second.s : it->second.p;
                if (n > 0)
                {
                    --n;
                    ++done;
                }
                if (it->second.s == 0 && it->second.p == 0)
                {
                    m.erase(it);
                }
            }
            touched = true;
            break;
        }
        case 3:
        {
            Srv s = pickSrv();
            c.log("purge %s", show(s).c_str());
            r->purge(s.cpp());
            m.erase(s);
            touched = true;
            break;
        }
        case 4:
        {
            Opt q[3];
            Srv some = pickSrv();
            const std::string* part[3] = {&some.s, &some.i, &some.e};
            for (int i = 0; i < 3; ++i)
            {
                if (!c.chance(1, 2))
                {
                    q[i] = c.chance(1, 6) ? word(c, w) : *part[i];
                }
            }
            std::map<Srv, uint64_t> seen;
            bool counts = true;
            r->find(toIox(q[0]), toIox(q[1]), toIox(q[2]), [&](const ServiceRegistry::ServiceDescriptionEntry& e) {
                Srv s = ep::fromCpp(e.serviceDescription);
                ++seen[s];
                auto it = m.find(s);
                counts &= it != m.end() && it->second.p == e.publisherCount && it->second.s == e.serverCount;
            });
            uint64_t expect = 0;
            for (auto& x : m)
            {
                if (match(x.first, q[0], q[1], q[2]))
                {
                    ++expect;
                    PBT_CHECK(c, seen[x.first] == 1, "registry-find", "find(%s,%s,%s): %s reported %" PRIu64 " times", show(q[0]).c_str(), show(q[1]).c_str(), show(q[2]).c_str(), show(x.first).c_str(), seen[x.first]);
                }
            }
            PBT_CHECK(c, seen.size() == expect && counts, "registry-find", "find(%s,%s,%s) reported %zu entries, expected %" PRIu64 ", counts ok: %d", show(q[0]).c_str(), show(q[1]).c_str(), show(q[2]).c_str(), seen.size(), expect, counts);
            break;
        }
        case 5:
        {
            std::map<Srv, uint64_t> seen;
            bool counts = true;
            r->forEach([&](const ServiceRegistry::ServiceDescriptionEntry& e) {
                Srv s = ep::fromCpp(e.serviceDescription);
                ++seen[s];
                auto it = m.find(s);
                counts &= it != m.end() && it->second.p == e.publisherCount && it->second.s == e.serverCount && seen[s] == 1;
            });
            PBT_CHECK(c, seen.size() == m.size() && counts, "registry-forEach", "%zu entries, expected %zu, counts ok: %d", seen.size(), m.size(), counts);
            break;
        }
        case 6:
        {
            bool x = r->hasDataChangedSinceLastCall();
            auto v = visible();
            c.log("changed? %d", x);
            PBT_CHECK(c, x || v == published, "registry-changed", "a service appeared or disappeared but the registry claims to be unchanged");
            PBT_CHECK(c, !x || touched || first, "registry-changed", "reported as changed although nothing was called");
            published = v;
            touched = false;
            first = false;
            break;
        }
        default:
        {
            // what subscribers work with is a copy
            auto copy = std::make_unique<ServiceRegistry>(*r);
            if (c.chance(1, 2))
            {
                auto other = std::make_unique<ServiceRegistry>();
                *other = *copy;
                copy = std::move(other);
            }
            owner = std::move(copy);
            r = owner.get();
            break;
        }
        }
    }
    c.count("ops", done);
    c.count("refused", refused);
    c.nontrivial(done >= 3);
}

// ------------------------------------------------------------------ the system
struct Offerer
{
    Srv srv;
    std::string app;
    bool server{false};
    bool offering{false};
    std::unique_ptr<ep::Pub> pub;
    std::unique_ptr<iox::popo::UntypedServer> us;
    iox_server_t cs{nullptr};
    std::unique_ptr<iox_server_storage_t> store;

    void offer(bool on)
    {
        if (pub)
        {
            on ? pub->offer() : pub->stopOffer();
        }
        else if (us)
        {
            on ? us->offer() : us->stopOffer();
        }
        else
        {
            on ? iox_server_offer(cs) : iox_server_stop_offer(cs);
        }
        offering = on;
    }
    void destroy()
    {
        pub.reset();
        us.reset();
        if (cs != nullptr)
        {
            iox_server_deinit(cs);
            cs = nullptr;
        }
    }
    void die()
    {
        if (pub)
        {
            pub->abandon();
            pub.reset();
        }
        (void)us.release();
        cs = nullptr;
        (void)store.release();
    }
};
using WS = iox::popo::WaitSet<4>;
struct Disc
{
    std::string app;
    std::unique_ptr<iox::runtime::ServiceDiscovery> cpp;
    iox_service_discovery_t c{nullptr};
    iox_service_discovery_storage_t store{};
    std::unique_ptr<WS> ws;
    bool drained{false};
    ~Disc()
    {
        if (c != nullptr)
        {
            iox_service_discovery_deinit(c);
        }
    }
};
Srv fromC(const iox_service_description_t& d, bool& terminated)
{
    auto one = [&](const char* p, size_t n) {
        size_t l = strnlen(p, n);
        terminated &= l < n;
        return std::string(p, l);
    };
    Srv s;
    s.s = one(d.serviceString, sizeof(d.serviceString));
    s.i = one(d.instanceString, sizeof(d.instanceString));
    s.e = one(d.eventString, sizeof(d.eventString));
    return s;
}
struct Collect
{
    std::map<Srv, uint64_t> seen;
    bool terminated{true};
};
Collect* g_collect = nullptr;
__attribute__((noinline)) void dirtyStack()
{
    volatile char junk[4096];
    for (auto& x : junk)
    {
        x = 'Z';
    }
}

template <bool FULL>
void discovery(Case& c)
{
    env::quiet();
    std::unique_ptr<env::Env> e;
    auto cfg = env::makeConfig({{128, 30}});
    if (FULL)
    {
        e = std::make_unique<env::FullEnv>(cfg);
    }
    else
    {
        e = std::make_unique<env::DirectEnv>(cfg);
    }
    const std::vector<std::string> apps = {"app0", "app1", "app2"};
    const Words w{c.range(1, 3), c.draw(10)};
    std::vector<std::unique_ptr<Offerer>> off;
    std::vector<std::unique_ptr<Disc>> disc;
    // RouDi's own services, constant
    std::set<Srv> own[2];
    std::map<Srv, std::pair<bool, bool>> lastVisible;
    uint64_t queries = 0;
    uint64_t hits = 0;
    uint64_t eventsSeen = 0;
    bool touchedSinceDiscover = true;

    auto visible = [&] {
        std::map<Srv, std::pair<bool, bool>> v;
        for (auto& o : off)
        {
            if (o->offering)
            {
                auto& x = v[o->srv];
                (o->server ? x.second : x.first) = true;
            }
        }
        return v;
    };
    auto query = [&](Disc& d, const Opt* q, bool rpc) {
        Collect col;
        auto pattern = rpc ? iox::popo::MessagingPattern::REQ_RES : iox::popo::MessagingPattern::PUB_SUB;
        auto cpat = rpc ? MessagingPattern_REQ_RES : MessagingPattern_PUB_SUB;
        if (d.cpp)
        {
            d.cpp->findService(
                toIox(q[0]), toIox(q[1]), toIox(q[2]), [&](const iox::capro::ServiceDescription& s) { ++col.seen[ep::fromCpp(s)]; }, pattern);
        }
        else
        {
            const char* p[3];
            for (int i = 0; i < 3; ++i)
            {
                p[i] = q[i] ? q[i]->c_str() : nullptr;
            }
            g_collect = &col;
            dirtyStack();
            switch (c.draw(3))
            {
            case 0:
            {
                uint64_t cap = c.chance(1, 2) ? 64 : c.draw(8);
                std::vector<iox_service_description_t> buf(cap + 1);
                memset(static_cast<void*>(buf.data()), 'Q', sizeof(buf[0]) * buf.size());
                uint64_t missed = c.chance(1, 2) ? 0 : c.draw(5);
                const uint64_t before = missed;
                uint64_t n = iox_service_discovery_find_service(d.c, p[0], p[1], p[2], buf.data(), cap, &missed, cpat);
                PBT_CHECK(c, n <= cap, "c-find", "more services written than there is room for");
                PBT_CHECK(c, buf[cap].serviceString[0] == 'Q', "c-find", "written behind the buffer");
                for (uint64_t i = 0; i < n; ++i)
                {
                    ++col.seen[fromC(buf[i], col.terminated)];
                }
                // the others must be accounted for as missed
                Collect all;
                g_collect = &all;
                iox_service_discovery_find_service_apply_callable(
                    d.c, p[0], p[1], p[2], [](const iox_service_description_t s) { ++g_collect->seen[fromC(s, g_collect->terminated)]; }, cpat);
                uint64_t total = 0;
                for (auto& x : all.seen)
                {
                    total += x.second;
                    if (n < cap)
                    {
                        PBT_CHECK(c, col.seen[x.first] == x.second, "c-find", "%s differs between array and callback", show(x.first).c_str());
                    }
                }
                PBT_CHECK(c, n == std::min(cap, total), "c-find", "%" PRIu64 " services written, capacity %" PRIu64 ", total %" PRIu64, n, cap, total);
                if (total > cap)
                {
                    PBT_CHECK(c, missed == total - cap, "c-missed", "missed %" PRIu64 ", expected %" PRIu64 " (variable held %" PRIu64 " before)", missed, total - cap, before);
                }
                else
                {
                    PBT_CHECK(c, missed == 0 || missed == before, "c-missed", "missed %" PRIu64 " although everything was written", missed);
                }
                for (auto& x : col.seen)
                {
                    PBT_CHECK(c, all.seen[x.first] == x.second, "c-find", "%s only in the array", show(x.first).c_str());
                }
                all.terminated &= col.terminated;
                col = all;
                break;
            }
            case 1:
                iox_service_discovery_find_service_apply_callable(
                    d.c, p[0], p[1], p[2], [](const iox_service_description_t s) { ++g_collect->seen[fromC(s, g_collect->terminated)]; }, cpat);
                break;
            default:
                iox_service_discovery_find_service_apply_callable_with_context_data(
                    d.c,
                    p[0],
                    p[1],
                    p[2],
                    [](const iox_service_description_t s, void* x) {
                        auto* cc = static_cast<Collect*>(x);
                        ++cc->seen[fromC(s, cc->terminated)];
                    },
                    &col,
                    cpat);
                break;
            }
            PBT_CHECK(c, col.terminated, "c-terminated", "a string of the result has no terminating zero");
        }
        return col;
    };
    auto verify = [&](Disc& d) {
        Opt q[3];
        Srv some = off.empty() || c.chance(1, 8) ? randSrv(c, w) : off[c.draw(static_cast<uint32_t>(off.size()))]->srv;
        const std::string* part[3] = {&some.s, &some.i, &some.e};
        for (int i = 0; i < 3; ++i)
        {
            if (!c.chance(1, 2))
            {
                q[i] = c.chance(1, 8) ? word(c, w) : *part[i];
            }
        }
        bool rpc = c.chance(1, 2);
        auto got = query(d, q, rpc);
        ++queries;
        auto v = visible();
        c.log("query(%s,%s,%s) %s %s: %zu", show(q[0]).c_str(), show(q[1]).c_str(), show(q[2]).c_str(), rpc ? "rpc" : "pubsub", d.cpp ? "C++" : "C", got.seen.size());
        for (auto& s : own[rpc])
        {
            if (match(s, q[0], q[1], q[2]))
            {
                PBT_CHECK(c, got.seen[s] == 1, "own-service", "RouDi's %s reported %" PRIu64 " times", show(s).c_str(), got.seen[s]);
            }
            got.seen.erase(s);
        }
        for (auto& x : v)
        {
            bool on = rpc ? x.second.second : x.second.first;
            if (on && match(x.first, q[0], q[1], q[2]))
            {
                PBT_CHECK(c, got.seen[x.first] == 1, "find-missing", "find(%s,%s,%s) %s: %s is offered but reported %" PRIu64 " times", show(q[0]).c_str(), show(q[1]).c_str(), show(q[2]).c_str(), rpc ? "rpc" : "pubsub", show(x.first).c_str(), got.seen[x.first]);
                got.seen.erase(x.first);
                ++hits;
            }
        }
        for (auto& x : got.seen)
        {
            PBT_CHECK(c, x.second == 0, "find-extra", "find(%s,%s,%s) %s reports %s which is not offered", show(q[0]).c_str(), show(q[1]).c_str(), show(q[2]).c_str(), rpc ? "rpc" : "pubsub", show(x.first).c_str());
        }
    };
    auto makeDisc = [&](bool useC) {
        auto d = std::make_unique<Disc>();
        d->app = apps[c.draw(3)];
        e->activate(d->app);
        if (useC)
        {
            d->c = iox_service_discovery_init(&d->store);
        }
        else
        {
            d->cpp = std::make_unique<iox::runtime::ServiceDiscovery>();
            if (c.chance(1, 2))
            {
                d->ws = std::make_unique<WS>();
                d->ws->attachEvent(*d->cpp, iox::runtime::ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, 7U).or_else([&](auto&) { c.fail("attach", "could not attach"); });
            }
        }
        disc.push_back(std::move(d));
    };
    auto discover = [&] {
        e->discover();
        if (FULL)
        {
            e->discover();
        }
        auto v = visible();
        const bool must = v != lastVisible;
        for (auto& d : disc)
        {
            if (!d->ws)
            {
                continue;
            }
            auto n = d->ws->timedWait(iox::units::Duration::fromNanoseconds(0));
            bool got = false;
            for (auto* x : n)
            {
                PBT_CHECK(c, x->doesOriginateFrom(d->cpp.get()) && x->getNotificationId() == 7U, "event-origin", "wrong origin or id");
                got = true;
            }
            eventsSeen += got;
            PBT_CHECK(c, got || !must, "event-missing", "the offered services changed but no registry event was reported");
            PBT_CHECK(c, !got || touchedSinceDiscover || !d->drained || FULL, "event-spurious", "registry event although nothing was called");
            d->drained = true;
        }
        lastVisible = v;
        touchedSinceDiscover = false;
    };

    // baseline
    makeDisc(false);
    discover();
    if (FULL)
    {
        discover();
    }
    for (int rpc = 0; rpc < 2; ++rpc)
    {
        Opt q[3];
        for (auto& s : query(*disc[0], q, rpc == 1).seen)
        {
            own[rpc].insert(s.first);
            PBT_CHECK(c, s.second == 1, "own-service", "reported %" PRIu64 " times", s.second);
        }
    }
    uint32_t ops = c.range(1, FULL ? 25 : 60);
    for (uint32_t k = 0; k < ops; ++k)
    {
        switch (c.weighted({10, 8, 5, 2, 8, 2, 1}))
        {
        case 0:
        {
            if (off.size() >= 12)
            {
                break;
            }
            auto o = std::make_unique<Offerer>();
            o->srv = randSrv(c, w);
            o->server = c.chance(2, 5);
            uint32_t servers = 0;
            bool dup = false;
            for (auto& x : off)
            {
                servers += x->server;
                dup |= x->server && x->srv == o->srv;
            }
            if (o->server && (dup || servers >= 5))
            {
                o->server = false;
            }
            o->app = apps[c.draw(3)];
            e->activate(o->app);
            bool onCreate = c.chance(3, 4);
            if (!o->server)
            {
                iox::popo::PublisherOptions po;
                po.offerOnCreate = onCreate;
                o->pub.reset(ep::makePub(c.draw(3), o->srv, po));
            }
            else if (c.chance(1, 2))
            {
                iox::popo::ServerOptions so;
                so.offerOnCreate = onCreate;
                o->us = std::make_unique<iox::popo::UntypedServer>(o->srv.cpp(), so);
            }
            else
            {
                iox_server_options_t so;
                iox_server_options_init(&so);
                so.offerOnCreate = onCreate;
                o->store = std::make_unique<iox_server_storage_t>();
                o->cs = iox_server_init(o->store.get(), o->srv.s.c_str(), o->srv.i.c_str(), o->srv.e.c_str(), &so);
            }
            o->offering = onCreate;
            c.log("create %s %s in %s offering %d", o->server ? "server" : "publisher", show(o->srv).c_str(), o->app.c_str(), onCreate);
            off.push_back(std::move(o));
            touchedSinceDiscover = true;
            break;
        }
        case 1:
        {
            if (off.empty())
            {
                break;
            }
            auto& o = *off[c.draw(static_cast<uint32_t>(off.size()))];
            bool on = c.chance(1, 2);
            c.log("%s %s %s", on ? "offer" : "stopOffer", o.server ? "server" : "publisher", show(o.srv).c_str());
            o.offer(on);
            touchedSinceDiscover = true;
            break;
        }
        case 2:
        {
            if (off.empty())
            {
                break;
            }
            uint32_t i = c.draw(static_cast<uint32_t>(off.size()));
            c.log("destroy %s %s", off[i]->server ? "server" : "publisher", show(off[i]->srv).c_str());
            off[i]->destroy();
            const bool server = off[i]->server;
            off.erase(off.begin() + i);
            touchedSinceDiscover = true;
            if (FULL || server) // a successor of the server is only accepted after discovery
            {
                discover();
            }
            break;
        }
        case 3:
        {
            if (FULL)
            {
                break;
            }
            std::string app = apps[c.draw(3)];
            c.log("%s dies", app.c_str());
            for (auto& o : off)
            {
                if (o->app == app)
                {
                    o->die();
                }
            }
            off.erase(std::remove_if(off.begin(), off.end(), [&](auto& o) { return o->app == app; }), off.end());
            for (auto& d : disc)
            {
                if (d->app == app)
                {
                    (void)d->cpp.release();
                    (void)d->ws.release();
                    d->c = nullptr;
                }
            }
            disc.erase(std::remove_if(disc.begin(), disc.end(), [&](auto& d) { return d->app == app; }), disc.end());
            e->removeApp(app);
            touchedSinceDiscover = true;
            break;
        }
        case 4:
            discover();
            for (auto& d : disc)
            {
                verify(*d);
            }
            break;
        case 5:
            if (disc.size() < 4)
            {
                makeDisc(c.chance(1, 2));
            }
            break;
        default:
            if (!disc.empty())
            {
                disc.erase(disc.begin() + c.draw(static_cast<uint32_t>(disc.size())));
                discover();
            }
            break;
        }
    }
    makeDisc(c.chance(1, 2));
    discover();
    for (auto& d : disc)
    {
        verify(*d);
        verify(*d);
    }
    c.count("queries", queries);
    c.count("services found", hits);
    c.count("events", eventsSeen);
    c.nontrivial(hits >= 3);
    disc.clear();
    for (auto& o : off)
    {
        o->destroy();
    }
    off.clear();
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    auto add = [&](const char* n, auto f, double weight, uint64_t block) {
        pbt::Test t;
        t.name = n;
        t.run = f;
        t.weight = weight;
        t.block = block;
        t.hangSec = 40;
        tests.push_back(t);
    };
    add("registry", registry, 1.0, 5000);
    add("discovery", discovery<false>, 2.0, 300);
    add("discovery_full", discovery<true>, 1.0, 50);
    return pbt::runAll(argc, argv, tests);
}
