// Publishers, subscribers and RouDi's discovery as simulated threads under generated schedules.
#pragma once
#include "endpoints.hpp"
#include "sched.hpp"

#include <algorithm>
#include <set>

namespace conc
{
using pbt::Case;

/// the environment is kept over many cases; a case that does not end cleanly discards it
class SharedEnv
{
  public:
    static env::DirectEnv& get(uint32_t kind)
    {
        auto& s = slot();
        if (s.e && (s.dirty || s.kind != kind || ++s.uses > 400))
        {
            s.e.reset();
        }
        if (!s.e)
        {
            const std::vector<std::vector<env::PoolCfg>> cfg{{{128, 60}}, {{128, 5}}, {{64, 24}, {256, 24}}};
            s.e = std::make_unique<env::DirectEnv>(env::makeConfig(cfg[kind]));
            s.kind = kind;
            s.uses = 0;
            warmUp(*s.e);
        }
        s.dirty = true;
        s.e->activate("app");
        return *s.e;
    }
    static void clean()
    {
        slot().dirty = false;
    }

  private:
    struct Slot
    {
        std::unique_ptr<env::DirectEnv> e;
        uint32_t kind{0};
        uint32_t uses{0};
        bool dirty{false};
    };
    static Slot& slot()
    {
        static Slot s;
        return s;
    }
    static void warmUp(env::DirectEnv& e)
    {
        // initialises every function-local static the fibers would otherwise race for
        e.activate("app");
        ep::Srv s{"warm", "up", "x"};
        iox::popo::PublisherOptions po;
        po.historyCapacity = 1;
        iox::popo::SubscriberOptions so;
        so.queueCapacity = 1;
        ep::UPub p(s, po);
        ep::USub u(s, so);
        for (int i = 0; i < 3; ++i)
        {
            e.discover();
            void* x = nullptr;
            if (p.loan(8, 8, 0, 1, x) == ep::Alloc::OK)
            {
                p.publish(x);
            }
            const void* y = nullptr;
            if (i != 1 && u.take(y) == ep::Take::OK)
            {
                u.release(y);
            }
            u.hasMissedData();
        }
        u.unsubscribe();
        p.stopOffer();
        e.discover();
    }
};

struct Rec
{
    uint32_t pub;
    uint32_t seq;
    uint64_t from{0};
    uint64_t to{~0ULL};
};
struct Payload
{
    uint64_t key;
    uint64_t w[5];
};
inline void fill(Payload* p, uint64_t key)
{
    p->key = key;
    for (uint64_t i = 0; i < 5; ++i)
    {
        p->w[i] = pbt::mix(key * 8 + i);
        sched::point();
    }
}
inline bool intact(const Payload* p, uint64_t key)
{
    if (p->key != key)
    {
        return false;
    }
    for (uint64_t i = 0; i < 5; ++i)
    {
        if (p->w[i] != pbt::mix(key * 8 + i))
        {
            return false;
        }
    }
    return true;
}

struct Prof
{
    bool join{false};   // subscribers join while messages are sent
    bool block{false};  // policies that make publishers wait
    bool toggle{false}; // offers and subscriptions come and go
    bool scarce{false}; // few chunks
};

class PubSub
{
  public:
    PubSub(Case& cc, Prof pp)
        : c(cc)
        , prof(pp)
    {
    }
    void run();

  private:
    struct P
    {
        std::unique_ptr<ep::UPub> p;
        uint64_t history{0};
        bool wait{false};
        bool toggles{false};
        bool done{false};
        uint32_t sent{0};
        std::vector<uint32_t> plan;
    };
    struct Got
    {
        uint32_t pub, seq;
        uint64_t from, to;
    };
    struct S
    {
        std::unique_ptr<ep::USub> s;
        uint64_t cap{1};
        uint64_t request{0};
        bool block{false};
        bool late{false};
        bool toggles{false};
        bool purged{false};
        bool missed{false};
        bool done{false};
        std::vector<Got> got;
        std::vector<std::pair<uint64_t, uint64_t>> empty; // intervals in which nothing was there
        std::vector<std::pair<const Payload*, uint64_t>> held;
        std::vector<uint32_t> plan;
    };
    Case& c;
    Prof prof;
    std::vector<P> ps;
    std::vector<S> ss;
    std::map<uint64_t, Rec> sent; // by key
    std::map<const void*, int> loaned;
    uint64_t nextKey{1};
    bool roudiStop{false};

    void publish(uint32_t i)
    {
        auto& p = ps[i];
        void* x = nullptr;
        auto r = sched::in([&] { return p.p->loan(sizeof(Payload), 8, 0, 1, x); });
        if (r != ep::Alloc::OK)
        {
            PBT_CHECK(c, r == ep::Alloc::OUT_OF_CHUNKS && prof.scarce, "loan", "loan failed with %s", ep::str(r));
            c.count("out-of-chunks");
            return;
        }
        checkFresh(x, i);
        uint64_t key = nextKey++;
        fill(static_cast<Payload*>(x), key);
        for (auto& e : ss)
        {
            verifyHeld(e);
        }
        loaned.erase(x);
        Rec rec{i, p.sent++};
        rec.from = sched::clock();
        sent[key] = rec;
        sched::in([&] { p.p->publish(x); });
        sent[key].to = sched::clock();
    }
    void checkFresh(const void* x, uint32_t i)
    {
        PBT_CHECK(c, loaned.count(x) == 0, "loaned-twice", "publisher %u got a chunk that is loaned to publisher %d", i,
                  loaned[x]);
        for (auto& e : ss)
        {
            for (auto& h : e.held)
            {
                PBT_CHECK(c, h.first != x, "loaned-while-held", "publisher %u got a chunk that a subscriber holds", i);
            }
        }
        loaned[x] = static_cast<int>(i);
    }
    void verifyHeld(S& s)
    {
        for (auto& h : s.held)
        {
            PBT_CHECK(c, intact(h.first, h.second), "changed-while-held", "a message changed while a subscriber holds it");
        }
    }
    bool take(uint32_t i, bool keep)
    {
        auto& s = ss[i];
        const void* x = nullptr;
        uint64_t from = sched::clock();
        auto r = sched::in([&] { return s.s->take(x); });
        uint64_t to = sched::clock();
        if (r == ep::Take::EMPTY)
        {
            s.empty.push_back({from, to});
            return false;
        }
        PBT_CHECK(c, r == ep::Take::OK, "take", "take failed with %s", ep::str(r));
        auto* p = static_cast<const Payload*>(x);
        auto it = sent.find(p->key);
        PBT_CHECK(c, it != sent.end() && intact(p, p->key), "invented", "a subscriber received something nobody published");
        PBT_CHECK(c, loaned.count(x) == 0, "loaned-while-held", "a subscriber received a chunk that is loaned");
        s.got.push_back({it->second.pub, it->second.seq, from, to});
        s.held.push_back({p, p->key});
        if (!keep || s.held.size() > 8)
        {
            uint64_t key = p->key;
            sched::point();
            PBT_CHECK(c, intact(p, key), "changed-while-held", "a message changed while a subscriber holds it");
            release(i, static_cast<uint32_t>(s.held.size()) - 1);
        }
        return true;
    }
    void release(uint32_t i, uint32_t w)
    {
        auto& s = ss[i];
        if (s.held.empty())
        {
            return;
        }
        w %= static_cast<uint32_t>(s.held.size());
        auto h = s.held[w];
        PBT_CHECK(c, intact(h.first, h.second), "changed-while-held", "a message changed while a subscriber holds it");
        s.held.erase(s.held.begin() + w);
        sched::in([&] { s.s->release(h.first); });
    }
    void judge(bool& nontrivial);
};

inline void PubSub::run()
{
    auto& e = SharedEnv::get(prof.scarce ? 1 : 0);
    ep::Srv srv{"a", "b", "c"};
    uint32_t np = c.range(1, 3), ns = c.range(1, 3);
    if (prof.join && c.chance(1, 2))
    {
        np = 1;
    }
    bool waitAll = prof.block;
    for (uint32_t i = 0; i < np; ++i)
    {
        P p;
        iox::popo::PublisherOptions o;
        p.history = prof.scarce ? c.draw(2) : c.draw(5);
        p.wait = waitAll;
        o.historyCapacity = p.history;
        o.subscriberTooSlowPolicy = p.wait ? iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                           : iox::popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        p.p = std::make_unique<ep::UPub>(srv, o);
        uint32_t n = c.range(1, prof.scarce ? 4 : 6);
        for (uint32_t k = 0; k < n; ++k)
        {
            uint32_t w = 0;
            if (c.chance(1, 8))
            {
                w = c.range(1, 2); // loan and release; a look at the state
            }
            if (prof.toggle && c.chance(1, 6))
            {
                w = 3;
                p.toggles = true;
            }
            p.plan.push_back(w);
        }
        ps.push_back(std::move(p));
    }
    for (uint32_t i = 0; i < ns; ++i)
    {
        S s;
        iox::popo::SubscriberOptions o;
        s.cap = c.chance(1, 2) ? c.range(1, 3) : c.range(1, 12);
        if (prof.scarce)
        {
            s.cap = c.range(1, 2);
        }
        s.request = c.draw(static_cast<uint32_t>(std::min<uint64_t>(s.cap, 6)) + 1);
        s.block = prof.block && c.chance(3, 4);
        s.late = prof.join && (i == 0 || c.chance(1, 2));
        o.queueCapacity = s.cap;
        o.historyRequest = s.request;
        o.subscribeOnCreate = !s.late;
        o.queueFullPolicy = s.block ? iox::popo::QueueFullPolicy::BLOCK_PRODUCER
                                    : iox::popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        s.s = std::make_unique<ep::USub>(srv, o);
        uint32_t n = c.range(0, 8);
        for (uint32_t k = 0; k < n; ++k)
        {
            uint32_t w = c.draw(2);
            switch (c.weighted({10, 3, 2, 1, prof.toggle ? 2u : 0u}))
            {
            case 1:
                w = 2; // release
                break;
            case 2:
                w = 3; // hasData
                break;
            case 3:
                w = 4; // hasMissedData
                break;
            case 4:
                w = 5;
                s.toggles = true;
                break;
            }
            s.plan.push_back(w);
        }
        ss.push_back(std::move(s));
    }
    e.discover();
    // a few messages before the others start
    const bool early = c.chance(1, 3);
    if (early)
    {
        uint32_t n = c.range(1, 3);
        for (uint32_t k = 0; k < n; ++k)
        {
            // nobody takes yet: do not fill a queue that makes the publisher wait
            bool room = true;
            for (auto& s : ss)
            {
                room = room && (!s.block || s.late || s.cap > 3);
            }
            if (room)
            {
                publish(0);
            }
        }
    }
    sched::Options so;
    so.maxSteps = 40000;
    so.memory = c.chance(1, 3);
    sched::begin(c, so);
    uint32_t running = np + ns;
    for (uint32_t i = 0; i < np; ++i)
    {
        sched::spawn([&, i] {
            auto& p = ps[i];
            for (auto w : p.plan)
            {
                if (w == 0)
                {
                    publish(i);
                }
                else if (w == 1)
                {
                    void* x = nullptr;
                    auto r = sched::in([&] { return p.p->loan(sizeof(Payload), 8, 0, 1, x); });
                    if (r == ep::Alloc::OK)
                    {
                        checkFresh(x, i);
                        fill(static_cast<Payload*>(x), ~0ULL);
                        loaned.erase(x);
                        sched::in([&] { p.p->release(x); });
                    }
                }
                else if (w == 2)
                {
                    sched::in([&] { p.p->hasSubscribers(); });
                }
                else
                {
                    sched::in([&] {
                        if (p.p->isOffered())
                        {
                            p.p->stopOffer();
                        }
                        else
                        {
                            p.p->offer();
                        }
                    });
                }
            }
            p.done = true;
            --running;
        });
    }
    for (uint32_t i = 0; i < ns; ++i)
    {
        sched::spawn([&, i] {
            auto& s = ss[i];
            if (s.late)
            {
                sched::in([&] { s.s->subscribe(); });
            }
            for (auto w : s.plan)
            {
                if (w < 2)
                {
                    take(i, w == 1);
                }
                else if (w == 2)
                {
                    release(i, 1);
                }
                else if (w == 3)
                {
                    uint64_t from = sched::clock();
                    bool d = sched::in([&] { return s.s->hasData(); });
                    if (!d)
                    {
                        s.empty.push_back({from, sched::clock()});
                    }
                }
                else if (w == 4)
                {
                    s.missed = sched::in([&] { return s.s->hasMissedData(); }) || s.missed;
                }
                else
                {
                    sched::in([&] {
                        if (s.s->state() == iox::SubscribeState::NOT_SUBSCRIBED
                            || s.s->state() == iox::SubscribeState::UNSUBSCRIBE_REQUESTED)
                        {
                            s.s->subscribe();
                        }
                        else
                        {
                            s.s->unsubscribe();
                        }
                    });
                }
            }
            // whoever may make a publisher wait goes on until nobody sends any more
            while (prof.block && s.block)
            {
                bool all = true;
                for (auto& p : ps)
                {
                    all = all && p.done;
                }
                if (!take(i, false))
                {
                    if (all)
                    {
                        break;
                    }
                    sched::in([] { sched_yield(); });
                }
            }
            s.done = true;
            --running;
        });
    }
    const uint32_t rounds = prof.join || prof.toggle ? c.range(1, 4) : c.draw(2);
    sched::spawn([&] {
        for (uint32_t k = 0; k < rounds || (running > 0 && prof.block && prof.toggle); ++k)
        {
            if (k >= rounds)
            {
                sched::in([] { sched_yield(); });
            }
            sched::in([&] { e.discover(); });
        }
    });
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end != sched::End::DEADLOCK, "deadlock", "publishers, subscribers and discovery wait for each other");
    if (end == sched::End::EXHAUSTED)
    {
        std::string who;
        for (uint32_t i = 0; i < np; ++i)
        {
            who += ps[i].done ? "" : " publisher" + std::to_string(i);
        }
        for (uint32_t i = 0; i < ns; ++i)
        {
            who += ss[i].done ? "" : " subscriber" + std::to_string(i);
        }
        c.fail("no-progress", "not finished although everybody was scheduled fairly:" + who);
    }
    e.discover();
    e.discover();
    for (uint32_t i = 0; i < ns; ++i)
    {
        ss[i].missed = ss[i].s->hasMissedData() || ss[i].missed;
        while (take(i, false))
        {
        }
        verifyHeld(ss[i]);
    }
    bool nontrivial = false;
    judge(nontrivial);
    // everything goes: nothing stays in use
    for (uint32_t i = 0; i < ns; ++i)
    {
        while (!ss[i].held.empty())
        {
            release(i, 0);
        }
    }
    const uint32_t used = e.usedChunks();
    uint64_t may = 0;
    for (auto& p : ps)
    {
        may += p.history + 1;
    }
    PBT_CHECK(c, used <= may, "leak", "%u chunks in use; the histories and last chunks account for %llu", used,
              (unsigned long long)may);
    ss.clear();
    ps.clear();
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "%u chunks are in use after all endpoints are gone", e.usedChunks());
    SharedEnv::clean();
    c.nontrivial(nontrivial);
}

inline void PubSub::judge(bool& nontrivial)
{
    std::vector<std::vector<Rec>> msgs(ps.size());
    for (auto& m : sent)
    {
        msgs[m.second.pub].push_back(m.second);
    }
    for (auto& v : msgs)
    {
        std::sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.seq < b.seq; });
    }
    for (size_t i = 0; i < ss.size(); ++i)
    {
        auto& s = ss[i];
        if (s.toggles)
        {
            continue;
        }
        bool anyToggle = false;
        for (auto& p : ps)
        {
            anyToggle = anyToggle || p.toggles;
        }
        if (s.got.size() >= 2)
        {
            nontrivial = true;
        }
        // per publisher: in order, once
        std::vector<int64_t> last(ps.size(), -1);
        std::vector<std::set<uint32_t>> have(ps.size());
        for (auto& g : s.got)
        {
            if (ps[g.pub].toggles)
            {
                continue;
            }
            PBT_CHECK(c, !have[g.pub].count(g.seq), "duplicate", "subscriber %zu received message %u of publisher %u twice", i,
                      g.seq, g.pub);
            PBT_CHECK(c, static_cast<int64_t>(g.seq) > last[g.pub], "order",
                      "subscriber %zu received message %u of publisher %u after message %lld", i, g.seq, g.pub,
                      (long long)last[g.pub]);
            last[g.pub] = g.seq;
            have[g.pub].insert(g.seq);
        }
        // across publishers: what was published before another publication began is not received after it. Messages
        // from the history of several publishers come per publisher, so this needs a connection from the beginning.
        if (!s.late && !anyToggle)
        {
            for (size_t a = 0; a < s.got.size(); ++a)
            {
                for (size_t b = a + 1; b < s.got.size(); ++b)
                {
                    auto& x = msgs[s.got[a].pub][s.got[a].seq];
                    auto& y = msgs[s.got[b].pub][s.got[b].seq];
                    PBT_CHECK(c, !(y.to < x.from), "order",
                              "subscriber %zu received message %u of publisher %u before message %u of publisher %u, which "
                              "was published earlier",
                              i, s.got[a].seq, s.got[a].pub, s.got[b].seq, s.got[b].pub);
                }
            }
            // nothing that is later received may be overlooked
            for (auto& g : s.got)
            {
                auto& m = msgs[g.pub][g.seq];
                for (auto& em : s.empty)
                {
                    PBT_CHECK(c, !(m.to < em.first && em.second < g.from), "overlooked",
                              "subscriber %zu was told that there is nothing although message %u of publisher %u was there",
                              i, g.seq, g.pub);
                }
            }
        }
        // losses
        uint64_t lost = 0;
        for (size_t p = 0; p < ps.size(); ++p)
        {
            if (ps[p].toggles)
            {
                continue;
            }
            int64_t first = -1;
            for (auto& m : msgs[p])
            {
                if (have[p].count(m.seq))
                {
                    first = first < 0 ? m.seq : first;
                    continue;
                }
                if (s.late && first < 0)
                {
                    continue; // judged below
                }
                ++lost;
                PBT_CHECK(c, !s.block || !ps[p].wait, "lost", "subscriber %zu never got message %u of publisher %zu although "
                          "the publisher waits for it", i, m.seq, p);
                uint64_t others = 0;
                for (auto& x : sent)
                {
                    others += x.second.to > m.from && !(x.second.pub == m.pub && x.second.seq <= m.seq);
                }
                if (s.late)
                {
                    // the queue overflows only if it holds messages that were received or lost as well
                    others = sent.size();
                }
                if (anyToggle)
                {
                    others = ~0ULL; // a new offer brings the history again
                }
                PBT_CHECK(c, others >= s.cap, "lost",
                          "subscriber %zu never got message %u of publisher %zu although its queue of %llu cannot have been "
                          "full (%llu later messages)",
                          i, m.seq, p, (unsigned long long)s.cap, (unsigned long long)others);
                PBT_CHECK(c, s.missed, "silent-loss",
                          "subscriber %zu never got message %u of publisher %zu and hasMissedData never told", i, m.seq, p);
            }
            if (s.late && !msgs[p].empty() && sent.size() <= s.cap)
            {
                // it joined at some time: no more than the messages before that are missing, less the history. Messages
                // published after the run's last discovery and those in the history cannot be missing.
                uint64_t n = msgs[p].size();
                uint64_t hist = std::min({ps[p].history, s.request, n});
                uint64_t have_ = have[p].size();
                PBT_CHECK(c, have_ >= hist, "history",
                          "late subscriber %zu received %llu messages of publisher %zu, which kept %llu and was asked for %llu",
                          i, (unsigned long long)have_, p, (unsigned long long)ps[p].history,
                          (unsigned long long)s.request);
                if (first >= 0)
                {
                    // what it has is a contiguous run up to the last one
                    PBT_CHECK(c, have_ == n - static_cast<uint64_t>(first), "gap",
                              "late subscriber %zu received messages from %lld on of publisher %zu, but only %llu of %llu", i,
                              (long long)first, p, (unsigned long long)have_,
                              (unsigned long long)(n - static_cast<uint64_t>(first)));
                }
            }
        }
        if (lost == 0 && !s.late && !anyToggle)
        {
            PBT_CHECK(c, !s.missed, "missed-nothing", "hasMissedData told subscriber %zu about a loss that did not happen", i);
        }
    }
}
} // namespace conc
