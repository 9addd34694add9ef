// Gateways (S30) and the blocks of the daemon's memory (S15).
#include "endpoints.hpp"

#include "iceoryx_posh/gateway/channel.hpp"
#include "iceoryx_posh/gateway/gateway_base.hpp"
#include "iceoryx_posh/gateway/gateway_generic.hpp"
#include "iceoryx_posh/internal/popo/ports/interface_port.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include "iceoryx_posh/roudi/memory/posix_shm_memory_provider.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_manager.hpp"
#include "iox/relative_pointer.hpp"

#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <thread>

using iox::capro::CaproMessage;
using iox::capro::CaproMessageType;
using iox::capro::CaproServiceType;
using iox::capro::IdString_t;
using iox::capro::Interfaces;
using iox::capro::ServiceDescription;
using pbt::Case;

namespace
{
using ull = unsigned long long;

class Shared
{
  public:
    static env::DirectEnv& get()
    {
        auto& s = slot();
        if (s.e && (s.dirty || ++s.uses > 200))
        {
            s.e.reset();
        }
        if (!s.e)
        {
            s.e = std::make_unique<env::DirectEnv>(env::makeConfig({{128, 40}}));
            s.uses = 0;
        }
        s.dirty = true;
        s.e->activate("app");
        return *s.e;
    }
    static void clean()
    {
        slot().dirty = false;
    }

  private:
    struct Slot
    {
        std::unique_ptr<env::DirectEnv> e;
        uint32_t uses{0};
        bool dirty{false};
    };
    static Slot& slot()
    {
        static Slot s;
        return s;
    }
};

// ------------------------------------------------------------------ channels of a gateway
struct Options
{
    uint64_t tag{0};
};
struct IceTerm
{
    static std::set<const void*>& live()
    {
        static std::set<const void*> s;
        return s;
    }
    ServiceDescription sd;
    uint64_t tag;
    IceTerm(const ServiceDescription& d, const Options& o)
        : sd(d)
        , tag(o.tag)
    {
        live().insert(this);
    }
    ~IceTerm()
    {
        live().erase(this);
    }
    IceTerm(const IceTerm&) = delete;
    IceTerm& operator=(const IceTerm&) = delete;
};
struct ExtTerm
{
    static std::set<const void*>& live()
    {
        static std::set<const void*> s;
        return s;
    }
    IdString_t a, b, e;
    ExtTerm(const IdString_t& s, const IdString_t& i, const IdString_t& ev)
        : a(s)
        , b(i)
        , e(ev)
    {
        live().insert(this);
    }
    ~ExtTerm()
    {
        live().erase(this);
    }
    ExtTerm(const ExtTerm&) = delete;
    ExtTerm& operator=(const ExtTerm&) = delete;
};
using Chan = iox::gw::Channel<IceTerm, ExtTerm>;

struct StubBase
{
    explicit StubBase(Interfaces i)
        : m_i(i)
    {
    }
    virtual ~StubBase() = default;
    bool getCaProMessage(CaproMessage&)
    {
        return false;
    }
    Interfaces getInterface() const
    {
        return m_i;
    }
    Interfaces m_i;
};
struct ChanGw : iox::gw::GatewayGeneric<Chan, StubBase>
{
    using Base = iox::gw::GatewayGeneric<Chan, StubBase>;
    explicit ChanGw(Interfaces i)
        : Base(i)
    {
    }
    void loadConfiguration(const iox::config::GatewayConfig&) noexcept override
    {
    }
    void discover(const CaproMessage&) noexcept override
    {
    }
    void forward(const Chan&) noexcept override
    {
    }
    using Base::addChannel;
    using Base::discardChannel;
    using Base::findChannel;
    using Base::forEachChannel;
};

using Key = std::tuple<std::string, std::string, std::string>;
Key keyOf(const ServiceDescription& d)
{
    return {d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str()};
}
IdString_t id(const std::string& s)
{
    return IdString_t(iox::TruncateToCapacity, s.c_str());
}
std::string show(const Key& k)
{
    return "{" + std::get<0>(k) + "|" + std::get<1>(k) + "|" + std::get<2>(k) + "}";
}
const Interfaces IFS[] = {Interfaces::DDS, Interfaces::SOMEIP, Interfaces::MTA, Interfaces::MQTT};

void gw_channels(Case& c)
{
    // what an earlier, failing case has left behind is not this case's
    struct Entry
    {
        const void* ice;
        const void* ext;
        uint64_t tag;
    };
    struct Gw
    {
        std::unique_ptr<ChanGw> g;
        Interfaces i;
        std::map<Key, Entry> m;
    };
    std::vector<Gw> gws;
    std::vector<std::pair<Chan, Key>> copies;
    PBT_CHECK(c, IceTerm::live().empty() && ExtTerm::live().empty(), "left", "%zu terminals are left although no channel exists", IceTerm::live().size());
    uint32_t nGw = 1 + c.draw(2);
    for (uint32_t k = 0; k < nGw; ++k)
    {
        gws.push_back({nullptr, IFS[c.draw(4)], {}});
        gws.back().g = std::make_unique<ChanGw>(gws.back().i);
    }
    static const char* const W[] = {"a", "b", "ab", "", "A", "**", "a*"};
    const bool crowd = c.chance(1, 3);
    const uint32_t words = c.range(1, 7);
    uint64_t serial = 0;
    auto word = [&]() -> std::string {
        if (c.chance(1, 25))
        {
            return "*";
        }
        if (crowd && c.chance(1, 2))
        {
            return "x" + std::to_string(c.draw(70));
        }
        return W[c.draw(words)];
    };
    auto live = [&] {
        std::set<const void*> s;
        for (auto& g : gws)
        {
            for (auto& e : g.m)
            {
                s.insert(e.second.ice);
            }
        }
        for (auto& x : copies)
        {
            s.insert(x.first.getIceoryxTerminal().get());
        }
        return s;
    };
    uint32_t added = 0;
    uint32_t steps = crowd ? c.range(60, 220) : c.range(5, 60);
    for (uint32_t n = 0; n < steps; ++n)
    {
        auto& g = gws[c.draw(gws.size())];
        Key k{word(), word(), word()};
        // hash and interface do not belong to a service's name
        ServiceDescription sd(id(std::get<0>(k)), id(std::get<1>(k)), id(std::get<2>(k)), {static_cast<uint32_t>(c.draw(3)), 0U, 0U, 0U}, IFS[c.draw(4)]);
        bool wild = std::get<0>(k) == "*" || std::get<1>(k) == "*" || std::get<2>(k) == "*";
        auto known = g.m.find(k);
        uint32_t op = crowd ? c.weighted({12, 2, 2, 1, 2, 1, 1}) : c.weighted({6, 4, 3, 2, 3, 2, 1});
        if (op == 0)
        {
            Options o{++serial};
            auto before = live();
            auto r = g.g->addChannel(sd, o);
            c.log("add %s -> %s", show(k).c_str(), r.has_error() ? "error" : "ok");
            if (wild)
            {
                PBT_CHECK(c, r.has_error() && r.error() == iox::gw::GatewayError::UNSUPPORTED_SERVICE_TYPE, "wildcard", "a wildcard is not refused");
            }
            else if (known != g.m.end())
            {
                PBT_CHECK(c, !r.has_error(), "existing", "the channel of %s exists but is not returned", show(k).c_str());
                PBT_CHECK(c, r.value().getIceoryxTerminal().get() == known->second.ice && r.value().getExternalTerminal().get() == known->second.ext, "second-channel", "a second channel is created for %s", show(k).c_str());
                if (c.chance(1, 3))
                {
                    copies.emplace_back(r.value(), k);
                }
            }
            else if (before.size() >= iox::MAX_CHANNEL_NUMBER)
            {
                c.count("full");
                PBT_CHECK(c, r.has_error() && r.error() == iox::gw::GatewayError::UNSUCCESSFUL_CHANNEL_CREATION, "too-many", "a channel beyond the maximum is created");
            }
            else
            {
                PBT_CHECK(c, !r.has_error(), "refused", "the channel of %s is refused although only %zu exist", show(k).c_str(), before.size());
                auto ch = r.value();
                Entry e{ch.getIceoryxTerminal().get(), ch.getExternalTerminal().get(), serial};
                PBT_CHECK(c, before.count(e.ice) == 0, "terminal-shared", "the new channel of %s has the terminal of another one", show(k).c_str());
                PBT_CHECK(c, ch.getIceoryxTerminal()->tag == serial, "options", "the options do not arrive at the terminal");
                PBT_CHECK(c, ch.getIceoryxTerminal()->sd.getSourceInterface() == g.i && ch.getServiceDescription().getSourceInterface() == g.i, "interface", "the channel is not on the gateway's interface");
                g.m[k] = e;
                ++added;
                if (c.chance(1, 4))
                {
                    copies.emplace_back(ch, k);
                }
            }
        }
        else if (op == 1)
        {
            auto r = g.g->discardChannel(sd);
            c.log("discard %s -> %s", show(k).c_str(), r.has_error() ? "error" : "ok");
            PBT_CHECK(c, r.has_error() == (known == g.m.end()), "discard", "discarding %s: %s", show(k).c_str(), r.has_error() ? "refused although there is a channel" : "succeeds without a channel");
            PBT_CHECK(c, !r.has_error() || r.error() == iox::gw::GatewayError::NONEXISTANT_CHANNEL, "discard-error", "wrong error");
            if (known != g.m.end())
            {
                g.m.erase(known);
            }
        }
        else if (op == 2)
        {
            auto r = g.g->findChannel(sd);
            PBT_CHECK(c, r.has_value() == (known != g.m.end()), "find", "%s: %s", show(k).c_str(), r.has_value() ? "found although there is no channel" : "not found");
            if (r.has_value())
            {
                PBT_CHECK(c, r->getIceoryxTerminal().get() == known->second.ice && keyOf(r->getServiceDescription()) == k, "found-other", "another channel is found");
                if (c.chance(1, 3))
                {
                    copies.emplace_back(r.value(), k);
                }
            }
        }
        else if (op == 3)
        {
            std::map<Key, const void*> seen;
            uint64_t calls = 0;
            g.g->forEachChannel([&](Chan& ch) {
                seen[keyOf(ch.getServiceDescription())] = ch.getIceoryxTerminal().get();
                ++calls;
            });
            PBT_CHECK(c, calls == g.m.size() && seen.size() == calls, "each", "%llu channels are visited, %zu exist", static_cast<ull>(calls), g.m.size());
            for (auto& e : g.m)
            {
                PBT_CHECK(c, seen.count(e.first) && seen[e.first] == e.second.ice, "each-other", "%s is not visited", show(e.first).c_str());
            }
        }
        else if (op == 4 && !copies.empty())
        {
            copies.erase(copies.begin() + c.draw(copies.size()));
        }
        else if (op == 5)
        {
            // a gateway ends
            uint32_t at = static_cast<uint32_t>(&g - gws.data());
            gws[at].g = nullptr;
            gws[at].m.clear();
            gws[at].g = std::make_unique<ChanGw>(gws[at].i);
        }
        else if (op == 6 && !g.m.empty())
        {
            // empty it
            while (!g.m.empty())
            {
                auto it = g.m.begin();
                std::advance(it, c.draw(g.m.size()));
                auto kk = it->first;
                auto r = g.g->discardChannel({id(std::get<0>(kk)), id(std::get<1>(kk)), id(std::get<2>(kk))});
                PBT_CHECK(c, !r.has_error(), "discard", "discarding %s is refused", show(kk).c_str());
                g.m.erase(it);
            }
        }
        for (auto& x : gws)
        {
            PBT_CHECK(c, x.g->getNumberOfChannels() == x.m.size(), "count", "%llu channels reported, %zu exist", static_cast<ull>(x.g->getNumberOfChannels()), x.m.size());
        }
        auto l = live();
        PBT_CHECK(c, IceTerm::live() == l, "terminals", "%zu iceoryx terminals exist, %zu belong to channels", IceTerm::live().size(), l.size());
        PBT_CHECK(c, ExtTerm::live().size() == l.size(), "terminals", "%zu external terminals exist, %zu belong to channels", ExtTerm::live().size(), l.size());
        for (auto& x : copies)
        {
            auto t = x.first.getIceoryxTerminal();
            auto e = x.first.getExternalTerminal();
            PBT_CHECK(c, keyOf(t->sd) == x.second && Key(e->a.c_str(), e->b.c_str(), e->e.c_str()) == x.second && keyOf(x.first.getServiceDescription()) == x.second, "terminal-changed", "the terminals of a copy of %s belong to something else", show(x.second).c_str());
        }
    }
    copies.clear();
    gws.clear();
    PBT_CHECK(c, IceTerm::live().empty() && ExtTerm::live().empty(), "left", "%zu terminals are left although no channel exists", IceTerm::live().size());
    c.nontrivial(added >= 3);
}

// ------------------------------------------------------------------ what a gateway is told
struct MsgGw : iox::gw::GatewayBase
{
    explicit MsgGw(Interfaces i)
        : GatewayBase(i)
    {
    }
    Interfaces in() const
    {
        return getInterface();
    }
};

void gw_messages(Case& c)
{
    auto& e = Shared::get();
    const std::string prefix = "g" + std::to_string(c.draw(3));
    struct End
    {
        bool server;
        ServiceDescription sd;
        std::unique_ptr<iox::popo::UntypedPublisher> p;
        std::unique_ptr<iox::popo::UntypedServer> s;
        bool wanted;
        bool told;        // offered as of the last discovery
        uint32_t changes; // messages that may have been caused since
        bool gone;
    };
    struct Gw
    {
        std::unique_ptr<MsgGw> g;
        Interfaces i;
        bool joined;
        uint32_t pending;
    };
    using K = std::tuple<Key, bool, Interfaces>;
    std::vector<std::unique_ptr<End>> ends;
    std::vector<Gw> gws;
    uint32_t serial = 0;
    uint32_t got = 0;
    // what is still to be received, per gateway
    struct Due
    {
        int64_t delta{0};
        uint32_t atMost{0};
        int64_t atLeastOffers{0};
    };
    std::vector<std::map<K, Due>> due;
    std::vector<std::set<K>> shared;     // of several endpoints since the last poll
    std::vector<std::map<K, bool>> last; // expected last message for services of one endpoint only
    auto keyK = [](const End& x) { return K{keyOf(x.sd), x.server, x.sd.getSourceInterface()}; };
    auto poll = [&](uint32_t k) {
        std::map<K, std::pair<uint32_t, uint32_t>> n;
        std::map<K, bool> fin;
        CaproMessage m;
        while (gws[k].g->getCaProMessage(m))
        {
            PBT_CHECK(c, m.m_type == CaproMessageType::OFFER || m.m_type == CaproMessageType::STOP_OFFER, "message-type", "a message of type %d arrives", static_cast<int>(m.m_type));
            K key{keyOf(m.m_serviceDescription), m.m_serviceType == CaproServiceType::SERVER, m.m_serviceDescription.getSourceInterface()};
            if (std::get<0>(std::get<0>(key)).substr(0, 1) != "g")
            {
                continue; // the daemon's own
            }
            PBT_CHECK(c, m.m_serviceDescription.getSourceInterface() != gws[k].i, "own-interface", "%s comes from the gateway's own interface", show(std::get<0>(key)).c_str());
            bool offer = m.m_type == CaproMessageType::OFFER;
            (offer ? n[key].first : n[key].second)++;
            fin[key] = offer;
            ++got;
        }
        PBT_CHECK(c, m.m_type == CaproMessageType::NOTYPE, "notype", "no message, but a type is set");
        for (auto& x : n)
        {
            PBT_CHECK(c, due[k].count(x.first), "untrue", "a message about %s arrives although nothing changed", show(std::get<0>(x.first)).c_str());
        }
        for (auto& d : due[k])
        {
            auto x = n[d.first];
            auto name = show(std::get<0>(d.first));
            PBT_CHECK(c, x.first >= d.second.atLeastOffers, "offer-missing", "gateway %u is told of %u offers of %s, there are %lld", k, x.first, name.c_str(), static_cast<long long>(d.second.atLeastOffers));
            if (gws[k].joined)
            {
                PBT_CHECK(c, static_cast<int64_t>(x.first) - static_cast<int64_t>(x.second) == d.second.delta, "balance", "gateway %u is told of %u offers and %u ends of %s, the number of offers changed by %lld", k, x.first, x.second, name.c_str(), static_cast<long long>(d.second.delta));
                PBT_CHECK(c, x.first + x.second <= d.second.atMost, "repeated", "gateway %u gets %u messages about %s, at most %u changes happened", k, x.first + x.second, name.c_str(), d.second.atMost);
            }
        }
        for (auto& l : last[k])
        {
            if (fin.count(l.first) && !shared[k].count(l.first))
            {
                PBT_CHECK(c, fin[l.first] == l.second, "last", "the last message about %s says %s", show(std::get<0>(l.first)).c_str(), fin[l.first] ? "offered" : "not offered");
            }
        }
        due[k].clear();
        last[k].clear();
        shared[k].clear();
        gws[k].pending = 0;
        gws[k].joined = true;
    };
    auto discover = [&] {
        e.discover();
        std::map<K, Due> now;
        std::map<K, uint32_t> number;
        std::map<K, uint32_t> offered;
        std::map<K, bool> state;
        uint32_t messages = 0;
        for (auto& x : ends)
        {
            auto k = keyK(*x);
            bool off = x->wanted && !x->gone;
            number[k]++;
            state[k] = off;
            offered[k] += off;
            if (x->changes > 0)
            {
                now[k].delta += static_cast<int64_t>(off) - static_cast<int64_t>(x->told);
                now[k].atMost += x->changes;
                messages += x->changes;
            }
            x->told = off;
            x->changes = 0;
        }
        for (uint32_t k = 0; k < gws.size(); ++k)
        {
            for (auto& d : now)
            {
                if (std::get<2>(d.first) != gws[k].i)
                {
                    due[k][d.first].delta += d.second.delta;
                    due[k][d.first].atMost += d.second.atMost;
                }
            }
            for (auto& s : state)
            {
                if (std::get<2>(s.first) == gws[k].i)
                {
                    continue;
                }
                if (!gws[k].joined)
                {
                    due[k][s.first].atLeastOffers = offered[s.first];
                }
                if (number[s.first] > 1)
                {
                    shared[k].insert(s.first);
                }
                last[k][s.first] = s.second;
            }
            gws[k].pending += messages;
            // the memory of what it has to be told is limited
            if (!gws[k].joined || gws[k].pending > 10 || c.chance(2, 3))
            {
                poll(k);
            }
        }
        for (uint32_t k = 0; k < ends.size();)
        {
            if (ends[k]->gone)
            {
                ends.erase(ends.begin() + k);
            }
            else
            {
                ++k;
            }
        }
    };
    auto change = [&](End& x, bool to) {
        if (x.wanted != to)
        {
            x.wanted = to;
            x.changes++;
        }
    };
    uint32_t steps = c.range(5, 60);
    for (uint32_t n = 0; n < steps; ++n)
    {
        uint32_t op = c.weighted({5, 5, 2, 8, 3, 1});
        if (op == 0 && ends.size() < 6)
        {
            auto x = std::make_unique<End>();
            x->server = c.chance(1, 3);
            auto in = c.chance(1, 3) ? IFS[c.draw(4)] : Interfaces::INTERNAL;
            x->sd = ServiceDescription(id(prefix), id(x->server ? "s" + std::to_string(++serial) : std::string(1, static_cast<char>('a' + c.draw(3)))), id("e"), {1U, 2U, 3U, 4U}, in);
            bool off = c.chance(2, 3);
            if (x->server)
            {
                iox::popo::ServerOptions o;
                o.offerOnCreate = off;
                x->s = std::make_unique<iox::popo::UntypedServer>(x->sd, o);
            }
            else
            {
                iox::popo::PublisherOptions o;
                o.offerOnCreate = off;
                x->p = std::make_unique<iox::popo::UntypedPublisher>(x->sd, o);
            }
            x->wanted = off;
            x->told = false;
            x->changes = off ? 1 : 0;
            x->gone = false;
            c.log("%s %s on %d, offered %d", x->server ? "server" : "publisher", show(keyOf(x->sd)).c_str(), static_cast<int>(in), off);
            ends.push_back(std::move(x));
        }
        else if (op == 1 && !ends.empty())
        {
            auto& x = *ends[c.draw(ends.size())];
            if (!x.gone)
            {
                bool to = c.chance(1, 2);
                if (x.server)
                {
                    to ? x.s->offer() : x.s->stopOffer();
                }
                else
                {
                    to ? x.p->offer() : x.p->stopOffer();
                }
                c.log("%s: %s", show(keyOf(x.sd)).c_str(), to ? "offer" : "stopOffer");
                change(x, to);
            }
        }
        else if (op == 2 && !ends.empty())
        {
            auto& x = *ends[c.draw(ends.size())];
            if (!x.gone)
            {
                x.p.reset();
                x.s.reset();
                x.gone = true;
                x.changes += 1;
                c.log("%s ends", show(keyOf(x.sd)).c_str());
            }
        }
        else if (op == 3)
        {
            discover();
        }
        else if (op == 4 && gws.size() < 3)
        {
            auto i = IFS[c.draw(4)];
            gws.push_back({std::make_unique<MsgGw>(i), i, false, 0});
            due.emplace_back();
            last.emplace_back();
            shared.emplace_back();
            PBT_CHECK(c, gws.back().g->in() == i, "interface", "the gateway is on another interface");
            c.log("gateway on %d", static_cast<int>(i));
        }
        else if (op == 5 && !gws.empty())
        {
            uint32_t k = c.draw(gws.size());
            gws.erase(gws.begin() + k);
            due.erase(due.begin() + k);
            last.erase(last.begin() + k);
            shared.erase(shared.begin() + k);
            c.log("gateway %u ends", k);
            discover(); // only now its place is free
        }
    }
    discover();
    for (uint32_t k = 0; k < gws.size(); ++k)
    {
        poll(k);
    }
    c.nontrivial(got >= 2);
    ends.clear();
    gws.clear();
    e.discover();
    Shared::clean();
}

// ------------------------------------------------------------------ a gateway that runs
struct LoopTerm
{
    LoopTerm(const ServiceDescription&, const Options&)
    {
    }
    LoopTerm(const IdString_t&, const IdString_t&, const IdString_t&)
    {
    }
};
using LoopChan = iox::gw::Channel<LoopTerm, LoopTerm>;
struct LoopGw : iox::gw::GatewayGeneric<LoopChan>
{
    using Base = iox::gw::GatewayGeneric<LoopChan>;
    LoopGw(uint64_t d, uint64_t f)
        : Base(Interfaces::DDS, iox::units::Duration::fromMilliseconds(d), iox::units::Duration::fromMilliseconds(f))
    {
    }
    ~LoopGw() override
    {
        shutdown();
    }
    void loadConfiguration(const iox::config::GatewayConfig&) noexcept override
    {
    }
    void discover(const CaproMessage& m) noexcept override
    {
        ++calls;
        if (std::string(m.m_serviceDescription.getServiceIDString().c_str()) != "loop")
        {
            return;
        }
        if (m.m_type == CaproMessageType::OFFER)
        {
            IOX_DISCARD_RESULT(addChannel(m.m_serviceDescription, Options{}));
        }
        if (m.m_type == CaproMessageType::STOP_OFFER)
        {
            IOX_DISCARD_RESULT(discardChannel(m.m_serviceDescription));
        }
    }
    void forward(const LoopChan& ch) noexcept override
    {
        ++calls;
        std::lock_guard<std::mutex> g(mx);
        ++forwarded[keyOf(ch.getServiceDescription())];
    }
    uint64_t count(const Key& k)
    {
        std::lock_guard<std::mutex> g(mx);
        return forwarded[k];
    }
    using Base::findChannel;
    std::atomic<uint64_t> calls{0};
    std::mutex mx;
    std::map<Key, uint64_t> forwarded;
};
void gw_loop(Case& c)
{
    auto& e = Shared::get();
    auto gw = std::make_unique<LoopGw>(c.range(1, 4), c.range(1, 4));
    std::map<Key, std::unique_ptr<iox::popo::UntypedPublisher>> pubs;
    bool running = false;
    uint32_t waited = 0;
    auto eventually = [&](auto f) {
        for (uint32_t n = 0; n < 8000; ++n)
        {
            if (f())
            {
                return true;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return false;
    };
    uint32_t steps = c.range(3, 12);
    for (uint32_t n = 0; n < steps; ++n)
    {
        Key k{"loop", std::string(1, static_cast<char>('a' + c.draw(4))), "e"};
        uint32_t op = c.weighted({4, 2, 2, 2});
        if (op == 0 && !pubs.count(k))
        {
            pubs[k] = std::make_unique<iox::popo::UntypedPublisher>(ServiceDescription(id("loop"), id(std::get<1>(k)), id("e")));
            e.discover();
            c.log("offer %s", show(k).c_str());
        }
        else if (op == 1 && pubs.count(k))
        {
            pubs.erase(k);
            e.discover();
            c.log("end of %s", show(k).c_str());
        }
        else if (op == 2)
        {
            if (running)
            {
                gw->shutdown();
                auto before = gw->calls.load();
                std::this_thread::sleep_for(std::chrono::milliseconds(c.range(1, 12)));
                PBT_CHECK(c, gw->calls.load() == before, "after-shutdown", "the gateway works although it was shut down");
            }
            else
            {
                gw->runMultithreaded();
            }
            running = !running;
            c.log(running ? "run" : "shutdown");
        }
        else if (op == 3 && running)
        {
            ++waited;
            PBT_CHECK(c, eventually([&] { return gw->getNumberOfChannels() == pubs.size(); }), "not-discovered", "there are %zu services but %llu channels", pubs.size(), static_cast<ull>(gw->getNumberOfChannels()));
            for (auto& p : pubs)
            {
                auto old = gw->count(p.first);
                PBT_CHECK(c, eventually([&] { return gw->count(p.first) > old; }), "not-forwarded", "nothing is forwarded for %s", show(p.first).c_str());
            }
        }
    }
    if (running)
    {
        gw->shutdown();
    }
    pubs.clear();
    gw.reset();
    e.discover();
    c.nontrivial(waited > 0);
    Shared::clean();
}

// ------------------------------------------------------------------ blocks of the daemon's memory
using iox::roudi::MemoryBlock;
using iox::roudi::MemoryProvider;
using iox::roudi::MemoryProviderError;
using iox::roudi::RouDiMemoryManager;
using iox::roudi::RouDiMemoryManagerError;

struct Block : MemoryBlock
{
    uint64_t n{0};
    uint64_t al{1};
    uint8_t fill{0};
    void* at{nullptr};
    uint32_t available{0};
    uint32_t destroyed{0};
    bool* memoryAlive{nullptr};
    bool lateDestroy{false};
    uint64_t size() const noexcept override
    {
        return n;
    }
    uint64_t alignment() const noexcept override
    {
        return al;
    }
    void onMemoryAvailable(iox::not_null<void*> m) noexcept override
    {
        at = m;
        ++available;
        memset(at, fill, n);
    }
    void destroy() noexcept override
    {
        ++destroyed;
        lateDestroy |= memoryAlive && !*memoryAlive;
    }
};
struct Provider : MemoryProvider
{
    bool fail{false};
    bool alive{false};
    char* raw{nullptr};
    char* base{nullptr};
    uint64_t n{0};
    uint32_t creations{0}, destructions{0};
    ~Provider() override
    {
        free(raw);
    }
    iox::expected<void*, MemoryProviderError> createMemory(const uint64_t size, const uint64_t alignment) noexcept override
    {
        if (fail)
        {
            return iox::err(MemoryProviderError::MEMORY_CREATION_FAILED);
        }
        ++creations;
        // aligned as requested and not any better
        void* p = nullptr;
        if (posix_memalign(&p, 2 * std::max<uint64_t>(alignment, 8), size + 3 * std::max<uint64_t>(alignment, 8)) != 0)
        {
            return iox::err(MemoryProviderError::MEMORY_ALLOCATION_FAILED);
        }
        raw = static_cast<char*>(p);
        base = raw + alignment;
        n = size;
        memset(raw, 0xEE, alignment);
        memset(base + n, 0xEE, 8);
        alive = true;
        return iox::ok(static_cast<void*>(base));
    }
    iox::expected<void, MemoryProviderError> destroyMemory() noexcept override
    {
        ++destructions;
        alive = false;
        free(raw);
        raw = nullptr;
        return iox::ok();
    }
    bool canaries(uint64_t alignment)
    {
        for (uint64_t k = 0; k < alignment; ++k)
        {
            if (static_cast<uint8_t>(raw[k]) != 0xEE)
            {
                return false;
            }
        }
        for (uint64_t k = 0; k < 8; ++k)
        {
            if (static_cast<uint8_t>(base[n + k]) != 0xEE)
            {
                return false;
            }
        }
        return true;
    }
};

void mem_blocks(Case& c)
{
    struct P
    {
        std::unique_ptr<MemoryProvider> p;
        Provider* mine{nullptr};
        std::vector<std::unique_ptr<Block>> b;
        bool created{false};
        uint64_t maxAlign{1};
    };
    std::vector<std::unique_ptr<P>> ps;
    auto mgr = std::make_unique<RouDiMemoryManager>();
    std::vector<P*> managed;
    bool announced = false;
    uint32_t rounds = 0;
    const bool many = c.chance(1, 10);
    auto addBlock = [&](P& p) {
        auto b = std::make_unique<Block>();
        b->al = 1ull << c.draw(c.chance(1, 8) ? 13 : 7);
        b->n = c.chance(1, 4) ? c.range(1, 4) * b->al : c.range(1, c.chance(1, 5) ? 9000 : 200);
        b->fill = static_cast<uint8_t>(1 + c.draw(200));
        auto r = p.p->addMemoryBlock(b.get());
        bool full = p.b.size() >= iox::MAX_NUMBER_OF_MEMORY_BLOCKS_PER_MEMORY_PROVIDER;
        c.log("block of %llu bytes aligned to %llu", static_cast<ull>(b->n), static_cast<ull>(b->al));
        if (p.created)
        {
            PBT_CHECK(c, r.has_error() && r.error() == MemoryProviderError::MEMORY_ALREADY_CREATED, "late-block", "a block is added to memory that exists");
        }
        else if (full)
        {
            PBT_CHECK(c, r.has_error() && r.error() == MemoryProviderError::MEMORY_BLOCKS_EXHAUSTED, "too-many-blocks", "too many blocks are accepted");
        }
        else
        {
            PBT_CHECK(c, !r.has_error(), "block-refused", "block %zu is refused", p.b.size());
            PBT_CHECK(c, !b->memory().has_value(), "early-memory", "a block has memory before it was created");
            p.maxAlign = std::max(p.maxAlign, b->al);
            if (p.mine)
            {
                b->memoryAlive = &p.mine->alive;
            }
            p.b.push_back(std::move(b));
        }
    };
    auto verify = [&](P& p, bool announcedNow) {
        PBT_CHECK(c, p.p->isAvailable() == p.created, "available", "the provider says its memory is%s available", p.created ? " not" : "");
        PBT_CHECK(c, p.p->isAvailableAnnounced() == announcedNow, "announced", "the provider says its memory was%s announced", announcedNow ? " not" : "");
        PBT_CHECK(c, p.p->baseAddress().has_value() == p.created && p.p->segmentId().has_value() == p.created, "address", "address or segment id of memory that does%s exist", p.created ? "" : " not");
        if (!p.created)
        {
            PBT_CHECK(c, p.p->size() == 0, "size", "%llu bytes reported", static_cast<ull>(p.p->size()));
            for (auto& b : p.b)
            {
                PBT_CHECK(c, !b->memory().has_value(), "stale-memory", "a block has memory although it was destroyed");
            }
            return;
        }
        auto* base = static_cast<uint8_t*>(p.p->baseAddress().value());
        uint64_t size = p.p->size();
        std::map<uint8_t*, uint64_t> used;
        for (auto& b : p.b)
        {
            PBT_CHECK(c, b->memory().has_value(), "no-memory", "a block has no memory");
            auto* m = static_cast<uint8_t*>(b->memory().value());
            PBT_CHECK(c, m >= base && m + b->n <= base + size, "outside", "a block of %llu bytes is not inside the memory", static_cast<ull>(b->n));
            PBT_CHECK(c, reinterpret_cast<uint64_t>(m) % b->al == 0, "alignment", "a block that needs alignment %llu lies at %p", static_cast<ull>(b->al), static_cast<void*>(m));
            PBT_CHECK(c, used.emplace(m, b->n).second, "same-memory", "two blocks have the same memory");
            if (announcedNow)
            {
                PBT_CHECK(c, b->at == m, "announced-other", "the memory that was announced is not the block's");
                for (uint64_t k = 0; k < b->n; ++k)
                {
                    PBT_CHECK(c, m[k] == b->fill, "overwritten", "byte %llu of a block is changed", static_cast<ull>(k));
                }
            }
            iox::RelativePointer<uint8_t> rel(m);
            PBT_CHECK(c, static_cast<uint64_t>(rel.getId()) == p.p->segmentId().value() && rel.getOffset() == static_cast<uint64_t>(m - base), "relative", "a pointer into the memory is not relative to its segment");
        }
        uint8_t* end = base;
        for (auto& u : used)
        {
            PBT_CHECK(c, u.first >= end, "overlap", "blocks overlap");
            end = u.first + u.second;
        }
        PBT_CHECK(c, !p.mine || p.mine->canaries(p.maxAlign), "beyond", "memory beyond the end is changed");
    };
    auto all = [&] {
        for (auto* p : managed)
        {
            verify(*p, p->created && announced);
        }
    };
    uint32_t np = 1 + c.draw(many ? 10 : 3);
    for (uint32_t k = 0; k < np; ++k)
    {
        auto p = std::make_unique<P>();
        if (c.chance(1, 4))
        {
            p->p = std::make_unique<iox::roudi::PosixShmMemoryProvider>(iox::ShmName_t(iox::TruncateToCapacity, ("blk" + std::to_string(getpid()) + "_" + std::to_string(k)).c_str()),
                                                                      iox::DEFAULT_DOMAIN_ID,
                                                                      iox::AccessMode::ReadWrite,
                                                                      iox::OpenMode::PurgeAndCreate);
        }
        else
        {
            auto m = std::make_unique<Provider>();
            p->mine = m.get();
            p->p = std::move(m);
        }
        uint32_t nb = c.chance(1, 12) ? 0 : c.chance(1, 30) ? 66 : c.range(1, 9);
        for (uint32_t x = 0; x < nb; ++x)
        {
            addBlock(*p);
        }
        ps.push_back(std::move(p));
    }
    uint32_t steps = c.range(2, 14);
    bool live = false;
    for (uint32_t n = 0; n < steps; ++n)
    {
        uint32_t op = c.weighted({4, 5, 4, 1, 1, 1});
        if (op == 0 && managed.size() < ps.size() && !live)
        {
            auto* p = ps[managed.size()].get();
            auto r = mgr->addMemoryProvider(p->p.get());
            PBT_CHECK(c, r.has_error() == (managed.size() >= iox::MAX_NUMBER_OF_MEMORY_PROVIDER), "provider", "provider %zu: %s", managed.size(), r.has_error() ? "refused" : "accepted");
            if (r.has_error())
            {
                PBT_CHECK(c, r.error() == RouDiMemoryManagerError::MEMORY_PROVIDER_EXHAUSTED, "provider-error", "wrong error");
                ps.resize(managed.size());
            }
            else
            {
                managed.push_back(p);
            }
        }
        else if (op == 1)
        {
            for (auto* p : managed)
            {
                if (p->mine && c.chance(1, 25))
                {
                    p->mine->fail = true;
                }
            }
            std::vector<uint32_t> before;
            for (auto* p : managed)
            {
                for (auto& b : p->b)
                {
                    before.push_back(b->available);
                }
            }
            auto r = mgr->createAndAnnounceMemory();
            bool ok = true;
            for (auto* p : managed)
            {
                if (p->created || p->b.empty() || (p->mine && p->mine->fail) || (!p->mine && p->maxAlign > 4096))
                {
                    ok = false;
                    break;
                }
                p->created = true;
            }
            if (managed.empty())
            {
                PBT_CHECK(c, r.has_error() && r.error() == RouDiMemoryManagerError::NO_MEMORY_PROVIDER_PRESENT, "no-provider", "memory is created without provider");
            }
            else
            {
                PBT_CHECK(c, r.has_error() == !ok, "create", "creating the memory %s", r.has_error() ? "fails" : "succeeds although a part fails");
                PBT_CHECK(c, ok || r.error() == RouDiMemoryManagerError::MEMORY_CREATION_FAILED, "create-error", "wrong error");
            }
            c.log("create: %s", r.has_error() ? "error" : "ok");
            bool first = ok && !managed.empty();
            announced = announced || first;
            uint32_t k = 0;
            for (auto* p : managed)
            {
                for (auto& b : p->b)
                {
                    PBT_CHECK(c, b->available == before[k] + (first ? 1 : 0), "notified", "a block is told %u times that its memory is available", b->available - before[k]);
                    ++k;
                }
                if (p->mine)
                {
                    p->mine->fail = false;
                }
            }
            live = live || !managed.empty();
            rounds += first;
            all();
            if (live && !first)
            {
                // what was not created together is not announced: start over
                op = 2;
            }
        }
        if (op == 2)
        {
            std::vector<uint32_t> before;
            for (auto* p : managed)
            {
                for (auto& b : p->b)
                {
                    before.push_back(b->destroyed);
                }
            }
            auto r = mgr->destroyMemory();
            PBT_CHECK(c, !r.has_error(), "destroy", "destroying the memory fails");
            uint32_t k = 0;
            for (auto* p : managed)
            {
                for (auto& b : p->b)
                {
                    PBT_CHECK(c, !p->created || b->destroyed > before[k], "not-destroyed", "a block is not told that its memory goes");
                    PBT_CHECK(c, !b->lateDestroy, "late-destroy", "a block is told that its memory goes after it went");
                    ++k;
                }
                p->created = false;
                PBT_CHECK(c, !p->mine || p->mine->creations == p->mine->destructions, "memory-left", "the memory is not released");
            }
            announced = false;
            live = false;
            c.log("destroy");
            all();
        }
        else if (op == 3 && !ps.empty())
        {
            addBlock(*ps[c.draw(ps.size())]);
        }
        else if (op == 4 && !managed.empty())
        {
            auto* p = managed[c.draw(managed.size())];
            if (p->created)
            {
                auto r = p->p->create();
                PBT_CHECK(c, r.has_error() && r.error() == MemoryProviderError::MEMORY_ALREADY_CREATED, "created-twice", "memory that exists is created again");
                p->p->announceMemoryAvailable(); // no second time
                all();
            }
            else
            {
                auto r = p->p->destroy();
                PBT_CHECK(c, r.has_error() && r.error() == MemoryProviderError::MEMORY_NOT_AVAILABLE, "destroyed-twice", "memory that does not exist is destroyed");
            }
        }
        else if (op == 5)
        {
            all();
        }
    }
    std::vector<std::pair<Provider*, bool>> was;
    mgr.reset();
    for (auto& p : ps)
    {
        if (p->mine)
        {
            PBT_CHECK(c, p->mine->creations == p->mine->destructions, "memory-left", "the memory is not released when the manager ends");
        }
        for (auto& b : p->b)
        {
            PBT_CHECK(c, !b->lateDestroy, "late-destroy", "a block is told that its memory goes after it went");
            PBT_CHECK(c, !p->created || b->destroyed > 0, "not-destroyed", "a block is not told that its memory goes");
        }
    }
    c.nontrivial(rounds >= 1);
}

template <typename F>
pbt::Test mk(const char* n, F f, double w = 1)
{
    pbt::Test t;
    t.name = n;
    t.run = f;
    t.weight = w;
    return t;
}
} // namespace

int main(int argc, char** argv)
{
    env::quiet();
    std::vector<pbt::Test> ts = {mk("gw_channels", gw_channels, 2), mk("gw_messages", gw_messages, 2), mk("gw_loop", gw_loop, 1), mk("mem_blocks", mem_blocks, 2)};
    ts[2].racy = true;
    return pbt::runAll(argc, argv, ts);
}
