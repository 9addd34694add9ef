// Reference model for publish/subscribe plus the driver that runs one generated history against the real system.
#pragma once
#include "endpoints.hpp"
#include "pbt.hpp"

#include <atomic>
#include <deque>
#include <list>
#include <thread>

namespace pubsub
{
using ep::Alloc;
using ep::Srv;
using ep::Take;
using iox::popo::ConsumerTooSlowPolicy;
using iox::popo::QueueFullPolicy;
using pbt::Case;

inline uint8_t patternByte(uint64_t id, uint64_t i)
{
    return static_cast<uint8_t>((id * 0x9E3779B97F4A7C15ULL + i * 0xD1342543DE82EF95ULL) >> 56);
}
inline void fill(void* p, uint64_t size, uint64_t id)
{
    auto b = static_cast<uint8_t*>(p);
    for (uint64_t i = 0; i < size; ++i)
    {
        b[i] = i < 8 ? static_cast<uint8_t>(id >> (8 * i)) : patternByte(id, i);
    }
}
inline bool intact(const void* p, uint64_t size, uint64_t id)
{
    auto b = static_cast<const uint8_t*>(p);
    for (uint64_t i = 0; i < size; ++i)
    {
        if (b[i] != (i < 8 ? static_cast<uint8_t>(id >> (8 * i)) : patternByte(id, i)))
        {
            return false;
        }
    }
    return true;
}

struct Msg
{
    uint64_t id{0};
    uint64_t size{0};
    uint64_t seq{0};
    int pub{-1};
    bool hasUid{false};
    iox::popo::UniquePortId uid{iox::popo::InvalidPortId};
    int pool{-1};    // the pool the chunk physically comes from
    int altPool{-1}; // or, if it cannot be observed, this one
    bool maybeGone{false}; // a take that failed with "too many held" may or may not have consumed it
};

struct Loan
{
    void* payload;
    Msg msg;
};
struct Held
{
    const void* payload;
    Msg msg;
};

struct MPub
{
    ep::Pub* impl{nullptr};
    int index{0};
    Srv srv;
    std::string app;
    uint32_t flavour{0};
    uint64_t historyCapacity{0};
    bool wait{false};
    bool requested{false};
    bool offered{false};
    bool dying{false};
    std::deque<Msg> history;
    std::vector<Loan> loans;
    std::set<int> subs;
    uint64_t seq{0};
    bool hasLast{false};
    Msg last;
    bool hasUid{false};
    iox::popo::UniquePortId uid{iox::popo::InvalidPortId};
};

struct MSub
{
    ep::Sub* impl{nullptr};
    int index{0};
    Srv srv;
    std::string app;
    uint32_t flavour{0};
    uint64_t capacity{1};
    uint64_t historyRequest{0};
    bool block{false};
    bool needsHistory{false};
    bool requested{false};
    bool subscribed{false};
    bool dying{false};
    bool missed{false};
    std::deque<Msg> queue;
    std::vector<Held> held;
};

struct Profile
{
    bool full{false};      // real RouDi, real runtime, IPC
    bool crash{false};     // applications die without cleaning up
    bool tightPools{false};
    bool policies{false};  // blocking producers
    bool history{false};   // emphasis on late joiners
    bool bursts{false};    // overflow
    uint32_t flavours{5};  // number of API flavours mixed
    bool onlyC{false};
    bool headers{false};   // unusual alignments and user headers
    uint32_t maxOps{120};
    bool hoard{false}; // hold samples and loans up to the limits
};

constexpr uint32_t MAX_LOANS = iox::MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY;
constexpr uint32_t MAX_HELD = iox::MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY;

class Driver
{
  public:
    Driver(Case& c, const Profile& p)
        : c(c)
        , prof(p)
    {
    }

    void run()
    {
        genWorld();
        uint32_t n = c.range(10, prof.maxOps);
        for (uint32_t k = 0; k < n; ++k)
        {
            step();
            if (c.chance(1, 6))
            {
                audit();
            }
        }
        finish();
        c.nontrivial(nDelivered >= 3 && nPublished >= 3);
    }

  private:
    Case& c;
    Profile prof;
    std::unique_ptr<env::Env> e;
    std::vector<env::PoolCfg> poolCfg;
    std::vector<Srv> services;
    std::vector<std::string> apps;
    std::map<int, MPub> pubs;
    std::map<int, MSub> subs;
    int nextPub{0}, nextSub{0};
    uint64_t nextId{1};
    uint32_t nDelivered{0}, nPublished{0};

    // ------------------------------------------------------------------ set-up
    void genWorld()
    {
        uint32_t np = c.range(1, 3);
        uint64_t size = 0;
        for (uint32_t i = 0; i < np; ++i)
        {
            size += 8 * c.range(1, 32);
            uint32_t cnt = prof.tightPools ? c.range(1, 10) : c.range(12, 60);
            if (i + 1 == np && size < 176 && c.chance(7, 8))
            {
                size = 176; // large enough for every typed flavour
            }
            poolCfg.push_back({size, cnt});
        }
        auto cfg = env::makeConfig(poolCfg);
        if (prof.full)
        {
            e = std::make_unique<env::FullEnv>(cfg);
        }
        else
        {
            e = std::make_unique<env::DirectEnv>(cfg);
        }
        c.log("pools");
        for (auto& p : poolCfg)
        {
            c.log(" %llux%u", static_cast<unsigned long long>(p.size), p.count);
        }
        uint32_t ns = c.chance(1, 2) ? c.range(1, 3) : 1;
        const char* S[] = {"Radar", "Radar", "Lidar"};
        const char* I[] = {"Front", "Rear", "Front"};
        const char* E[] = {"Object", "Object", "Object"};
        for (uint32_t i = 0; i < ns; ++i)
        {
            services.push_back({S[i], I[i], E[i]});
        }
        uint32_t na = c.range(1, 3);
        for (uint32_t i = 0; i < na; ++i)
        {
            apps.push_back("app" + std::to_string(i));
        }
        if (prof.full)
        {
            for (auto& a : apps)
            {
                e->activate(a);
            }
        }
    }

    uint32_t genFlavour()
    {
        if (prof.onlyC)
        {
            return c.chance(3, 4) ? 1 : 0;
        }
        return c.draw(prof.flavours);
    }

    // ------------------------------------------------------------------ model of RouDi's discovery
    bool compatible(const MPub& p, const MSub& s) const
    {
        if (!(p.srv == s.srv))
        {
            return false;
        }
        if (s.block && !p.wait)
        {
            return false;
        }
        if (s.needsHistory && p.historyCapacity == 0)
        {
            return false;
        }
        return true;
    }
    struct Delivery
    {
        int pub;
        std::vector<Msg> msgs;
    };
    std::map<int, std::vector<Delivery>> pendingHistory; // sub -> histories handed over in this discovery

    void connect(MPub& p, MSub& s)
    {
        if (!p.subs.insert(s.index).second)
        {
            return;
        }
        uint64_t n = std::min<uint64_t>(s.historyRequest, p.history.size());
        Delivery d;
        d.pub = p.index;
        d.msgs.assign(p.history.end() - static_cast<long>(n), p.history.end());
        if (!d.msgs.empty())
        {
            pendingHistory[s.index].push_back(d);
        }
    }
    void modelDiscoverPub(MPub& p)
    {
        if (p.requested && !p.offered)
        {
            p.offered = true;
            for (auto& s : subs)
            {
                if (s.second.subscribed && compatible(p, s.second))
                {
                    connect(p, s.second);
                }
            }
        }
        else if (!p.requested && p.offered)
        {
            p.offered = false;
            p.subs.clear();
        }
    }
    void modelDiscoverSub(MSub& s)
    {
        if (s.requested && !s.subscribed)
        {
            s.subscribed = true;
            for (auto& p : pubs)
            {
                if (p.second.offered && compatible(p.second, s))
                {
                    connect(p.second, s);
                }
            }
        }
        else if (!s.requested && s.subscribed)
        {
            s.subscribed = false;
            for (auto& p : pubs)
            {
                p.second.subs.erase(s.index);
            }
        }
    }
    static void pushModel(MSub& s, const Msg& m)
    {
        // definite elements only count towards the capacity; callers make sure there is no doubt where it matters
        if (s.queue.size() < s.capacity)
        {
            s.queue.push_back(m);
            return;
        }
        s.missed = true;
        if (!s.block)
        {
            s.queue.pop_front();
            s.queue.push_back(m);
        }
    }
    /// removes doubtful heads by looking at the real queue: drains it
    void settle(MSub& s)
    {
        bool doubt = false;
        for (auto& m : s.queue)
        {
            doubt |= m.maybeGone;
        }
        if (doubt)
        {
            // free a slot so that the queue can be emptied for real
            while (s.held.size() >= MAX_HELD)
            {
                releaseHeld(s, 0);
            }
            drain(s);
        }
    }

    void applyHistory()
    {
        for (auto& ph : pendingHistory)
        {
            auto it = subs.find(ph.first);
            if (it == subs.end())
            {
                continue;
            }
            MSub& s = it->second;
            auto& ds = ph.second;
            for (auto& d : ds)
            {
                c.count("history_delivery");
                c.log("  history of P%d for S%d: %zu", d.pub, s.index, d.msgs.size());
            }
            uint64_t total = s.queue.size();
            for (auto& d : ds)
            {
                total += d.msgs.size();
            }
            if (total > s.capacity)
            {
                c.count("history_overflow");
            }
            if (ds.size() == 1)
            {
                for (auto& m : ds[0].msgs)
                {
                    pushModel(s, m);
                }
                continue;
            }
            // several publishers at once: the order among them is not specified. Empty the queue for real and accept any
            // order of the publishers.
            while (s.held.size() >= MAX_HELD)
            {
                releaseHeld(s, 0);
            }
            auto got = drainRaw(s);
            std::vector<int> perm(ds.size());
            for (size_t i = 0; i < perm.size(); ++i)
            {
                perm[i] = static_cast<int>(i);
            }
            bool ok = false;
            bool missedThen = s.missed;
            do
            {
                MSub t;
                t.capacity = s.capacity;
                t.block = s.block;
                t.queue = s.queue;
                for (int i : perm)
                {
                    for (auto& m : ds[static_cast<size_t>(i)].msgs)
                    {
                        pushModel(t, m);
                    }
                }
                missedThen |= t.missed;
                if (t.queue.size() == got.size())
                {
                    bool same = true;
                    for (size_t i = 0; i < got.size(); ++i)
                    {
                        same &= t.queue[i].id == got[i];
                    }
                    ok |= same;
                }
            } while (!ok && std::next_permutation(perm.begin(), perm.end()));
            std::string g;
            for (auto x : got)
            {
                g += std::to_string(x) + " ";
            }
            PBT_CHECK(c, ok, "history_multi", "S%d received [%s] after connecting to several publishers at once", s.index, g.c_str());
            s.missed = missedThen;
            s.queue.clear();
            nDelivered += static_cast<uint32_t>(got.size());
        }
        pendingHistory.clear();
    }

    void settleForDiscovery()
    {
        for (auto& s : subs)
        {
            if (!s.second.dying)
            {
                settle(s.second);
            }
        }
    }

    void discover()
    {
        settleForDiscovery();
        e->discover();
        if (prof.full)
        {
            e->discover();
        }
        for (auto it = pubs.begin(); it != pubs.end();)
        {
            modelDiscoverPub(it->second);
            if (it->second.dying)
            {
                it = pubs.erase(it);
            }
            else
            {
                ++it;
            }
        }
        for (auto it = subs.begin(); it != subs.end();)
        {
            modelDiscoverSub(it->second);
            if (it->second.dying)
            {
                eraseSub(it++);
            }
            else
            {
                ++it;
            }
        }
        applyHistory();
    }
    void eraseSub(std::map<int, MSub>::iterator it)
    {
        for (auto& p : pubs)
        {
            p.second.subs.erase(it->first);
        }
        subs.erase(it);
    }
    /// with the real RouDi discovery also runs in the background, so control operations are settled at once
    void controlDone()
    {
        if (prof.full)
        {
            discover();
        }
    }

    // ------------------------------------------------------------------ operations
    std::vector<MPub*> livePubs()
    {
        std::vector<MPub*> v;
        for (auto& p : pubs)
        {
            if (!p.second.dying)
            {
                v.push_back(&p.second);
            }
        }
        return v;
    }
    std::vector<MSub*> liveSubs()
    {
        std::vector<MSub*> v;
        for (auto& s : subs)
        {
            if (!s.second.dying)
            {
                v.push_back(&s.second);
            }
        }
        return v;
    }

    void createPub()
    {
        if (livePubs().size() >= 5)
        {
            return;
        }
        MPub p;
        p.index = nextPub++;
        p.srv = c.pick(services);
        p.app = c.pick(apps);
        p.flavour = genFlavour();
        iox::popo::PublisherOptions o;
        if (prof.full && c.chance(1, 10))
        {
            o.historyCapacity = iox::MAX_PUBLISHER_HISTORY + c.range(1, 5); // the runtime limits it
        }
        else
        {
            o.historyCapacity = (prof.history || c.chance(1, 2)) ? c.range(0, c.chance(1, 8) ? iox::MAX_PUBLISHER_HISTORY : 4) : 0;
        }
        p.historyCapacity = std::min<uint64_t>(o.historyCapacity, iox::MAX_PUBLISHER_HISTORY);
        o.offerOnCreate = c.chance(4, 5);
        p.wait = c.chance(prof.policies ? 3 : 1, 4);
        o.subscriberTooSlowPolicy =
            p.wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        settleForDiscovery();
        e->activate(p.app);
        p.impl = ep::makePub(p.flavour, p.srv, o);
        p.hasUid = p.impl->uid(p.uid);
        p.requested = o.offerOnCreate;
        c.log("P%d = publisher(%s/%s, app %s, api %u, history %llu, offer %d, wait %d)",
              p.index,
              p.srv.s.c_str(),
              p.srv.i.c_str(),
              p.app.c_str(),
              p.flavour,
              static_cast<unsigned long long>(o.historyCapacity),
              o.offerOnCreate,
              p.wait);
        int idx = p.index;
        pubs.emplace(idx, p);
        PBT_CHECK(c, pubs[idx].impl->service() == p.srv, "service", "publisher reports another service");
        modelDiscoverPub(pubs[idx]);
        applyHistory();
        controlDone();
    }

    void createSub()
    {
        uint32_t same = 0;
        MSub s;
        s.index = nextSub++;
        s.srv = c.pick(services);
        for (auto* x : liveSubs())
        {
            same += x->srv == s.srv ? 1 : 0;
        }
        for (auto& x : subs)
        {
            same += x.second.dying ? 1 : 0;
        }
        if (same >= 4 || liveSubs().size() >= 7)
        {
            return;
        }
        s.app = c.pick(apps);
        s.flavour = genFlavour();
        iox::popo::SubscriberOptions o;
        if (prof.full && c.chance(1, 8))
        {
            o.queueCapacity = c.chance(1, 2) ? 0 : MAX_HELD + c.range(1, 9);
        }
        else
        {
            o.queueCapacity = prof.bursts ? c.range(1, 4) : (c.chance(1, 4) ? c.range(1, MAX_HELD) : c.range(1, 6));
        }
        s.capacity = std::min<uint64_t>(std::max<uint64_t>(o.queueCapacity, 1), MAX_HELD);
        o.historyRequest = (prof.history || c.chance(1, 3)) ? c.range(0, static_cast<uint32_t>(s.capacity)) : 0;
        if (prof.full && c.chance(1, 8))
        {
            o.historyRequest = s.capacity + c.range(1, 4);
        }
        s.historyRequest = std::min<uint64_t>(o.historyRequest, s.capacity);
        o.subscribeOnCreate = c.chance(4, 5);
        s.block = c.chance(prof.policies ? 2 : 1, 5);
        o.queueFullPolicy = s.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        s.needsHistory = c.chance(1, 6);
        o.requiresPublisherHistorySupport = s.needsHistory;
        s.requested = o.subscribeOnCreate;
        settleForDiscovery();
        e->activate(s.app);
        s.impl = ep::makeSub(s.flavour, s.srv, o);
        c.log("S%d = subscriber(%s/%s, app %s, api %u, capacity %llu, historyRequest %llu, subscribe %d, block %d, "
              "needsHistory %d)",
              s.index,
              s.srv.s.c_str(),
              s.srv.i.c_str(),
              s.app.c_str(),
              s.flavour,
              static_cast<unsigned long long>(o.queueCapacity),
              static_cast<unsigned long long>(o.historyRequest),
              o.subscribeOnCreate,
              s.block,
              s.needsHistory);
        int idx = s.index;
        subs.emplace(idx, s);
        PBT_CHECK(c, subs[idx].impl->service() == s.srv, "service", "subscriber reports another service");
        modelDiscoverSub(subs[idx]);
        applyHistory();
        controlDone();
    }

    uint64_t genSize(const MPub& p)
    {
        uint64_t s = 0;
        if (p.impl->fixedSize(s))
        {
            return s;
        }
        uint64_t top = poolCfg.back().size;
        if (c.chance(1, 20))
        {
            return top + c.range(1, 64);
        }
        if (c.chance(1, 3))
        {
            auto& pc = poolCfg[c.draw(static_cast<uint32_t>(poolCfg.size()))];
            uint64_t d = c.range(0, 2);
            return pc.size > d + 8 ? pc.size - d : pc.size;
        }
        return c.range(8, static_cast<uint32_t>(top));
    }

    /// index of the pool a default-aligned payload of that size has to come from, -1 if none fits
    int poolOf(uint64_t size) const
    {
        for (size_t i = 0; i < poolCfg.size(); ++i)
        {
            if (poolCfg[i].size >= size)
            {
                return static_cast<int>(i);
            }
        }
        return -1;
    }

    int poolOfChunk(uint64_t chunkSize)
    {
        auto ps = e->pools();
        for (size_t i = 0; i < ps.size(); ++i)
        {
            if (ps[i].chunkSize == chunkSize)
            {
                return static_cast<int>(i);
            }
        }
        c.fail("chunk_size", "a chunk claims a size no pool has");
    }

    /// distinct chunks alive: [lo, hi] per pool; hi additionally counts the chunk a publisher keeps for itself after
    /// publishing
    void usage(std::vector<uint32_t>& lo, std::vector<uint32_t>& hi)
    {
        std::vector<std::set<uint64_t>> def(poolCfg.size()), pos(poolCfg.size());
        auto add = [&](const Msg& m, bool definite) {
            if (m.pool < 0)
            {
                return;
            }
            if (m.altPool >= 0 && m.altPool != m.pool)
            {
                pos[static_cast<size_t>(m.pool)].insert(m.id);
                pos[static_cast<size_t>(m.altPool)].insert(m.id);
                return;
            }
            (definite && !m.maybeGone ? def : pos)[static_cast<size_t>(m.pool)].insert(m.id);
        };
        for (auto& p : pubs)
        {
            for (auto& l : p.second.loans)
            {
                add(l.msg, true);
            }
            for (auto& m : p.second.history)
            {
                add(m, true);
            }
            if (p.second.hasLast)
            {
                add(p.second.last, false);
            }
        }
        for (auto& s : subs)
        {
            for (auto& m : s.second.queue)
            {
                add(m, true);
            }
            for (auto& h : s.second.held)
            {
                add(h.msg, true);
            }
        }
        lo.clear();
        hi.clear();
        for (size_t i = 0; i < poolCfg.size(); ++i)
        {
            lo.push_back(static_cast<uint32_t>(def[i].size()));
            pos[i].insert(def[i].begin(), def[i].end());
            hi.push_back(static_cast<uint32_t>(pos[i].size()));
        }
    }

    void judgeAlloc(MPub& p, Alloc r, uint64_t size, const char* what)
    {
        int pool = poolOf(size);
        if (r == Alloc::OK)
        {
            PBT_CHECK(c, pool >= 0, "alloc_ok_too_large", "%s of %llu bytes succeeded but no pool is that large", what, static_cast<unsigned long long>(size));
            PBT_CHECK(c, p.loans.size() < MAX_LOANS, "loan_limit", "%s succeeded with %zu loans outstanding (limit %u)", what, p.loans.size(), MAX_LOANS);
            return;
        }
        c.log("  -> %s", ep::str(r));
        c.count((std::string("alloc_") + ep::str(r)).c_str());
        if (r == Alloc::NO_POOL)
        {
            PBT_CHECK(c, pool < 0, "alloc_no_pool", "%s of %llu bytes: no pool, but pool %d holds %llu", what, static_cast<unsigned long long>(size), pool,
                      static_cast<unsigned long long>(poolCfg[static_cast<size_t>(pool < 0 ? 0 : pool)].size));
            return;
        }
        if (r == Alloc::TOO_MANY)
        {
            PBT_CHECK(c, p.loans.size() >= MAX_LOANS, "loan_limit_early", "%s refused with only %zu loans outstanding (limit %u)", what, p.loans.size(), MAX_LOANS);
            return;
        }
        if (r == Alloc::OUT_OF_CHUNKS)
        {
            std::vector<uint32_t> lo, hi;
            usage(lo, hi);
            PBT_CHECK(c, pool >= 0, "alloc_out_of_chunks_nopool", "%s of %llu bytes: out of chunks, but no pool is that large", what, static_cast<unsigned long long>(size));
            auto i = static_cast<size_t>(pool);
            PBT_CHECK(c, hi[i] >= poolCfg[i].count, "alloc_out_of_chunks", "%s of %llu bytes: pool %d reported exhausted but only %u of %u chunks are referenced", what,
                      static_cast<unsigned long long>(size), pool, hi[i], poolCfg[i].count);
            return;
        }
        c.fail("alloc_error", std::string(what) + " failed with " + ep::str(r));
    }

    bool mustSucceed(MPub& p, uint64_t size)
    {
        int pool = poolOf(size);
        if (pool < 0 || p.loans.size() >= MAX_LOANS)
        {
            return false;
        }
        std::vector<uint32_t> lo, hi;
        usage(lo, hi);
        return hi[static_cast<size_t>(pool)] < poolCfg[static_cast<size_t>(pool)].count;
    }

    void doLoan(MPub& p)
    {
        uint64_t size = genSize(p);
        bool must = mustSucceed(p, size);
        c.log("P%d.loan(%llu)", p.index, static_cast<unsigned long long>(size));
        void* payload = nullptr;
        auto r = p.impl->loan(size, 8, 0, 1, payload);
        judgeAlloc(p, r, size, "loan");
        PBT_CHECK(c, !must || r == Alloc::OK, "loan_refused", "loan refused although a chunk is free");
        if (r != Alloc::OK)
        {
            return;
        }
        PBT_CHECK(c, payload != nullptr, "loan_null", "loan returned a null payload");
        checkRange(payload, size);
        auto h = iox::mepoo::ChunkHeader::fromUserPayload(payload);
        PBT_CHECK(c, h->userPayloadSize() == size, "payload_size", "chunk says %llu bytes, %llu were requested", static_cast<unsigned long long>(h->userPayloadSize()),
                  static_cast<unsigned long long>(size));
        int pool = poolOfChunk(h->chunkSize());
        int want = poolOf(size);
        bool kept = p.hasLast && (p.last.pool == pool || p.last.altPool == pool);
        PBT_CHECK(c, pool == want || kept, "best_fit", "a payload of %llu bytes was served from pool %d, the smallest that fits is %d", static_cast<unsigned long long>(size), pool, want);
        Loan l;
        l.payload = payload;
        l.msg.pool = pool;
        l.msg.id = nextId++;
        l.msg.size = size;
        l.msg.pub = p.index;
        l.msg.hasUid = p.hasUid;
        l.msg.uid = p.uid;
        fill(payload, size, l.msg.id);
        p.loans.push_back(l);
    }

    /// a chunk handed out must not overlap anything that is still in use
    void checkRange(const void* payload, uint64_t size)
    {
        auto b = static_cast<const uint8_t*>(payload);
        auto overlap = [&](const void* q, uint64_t n) {
            auto o = static_cast<const uint8_t*>(q);
            return b < o + n && o < b + size;
        };
        for (auto& p : pubs)
        {
            for (auto& l : p.second.loans)
            {
                PBT_CHECK(c, !overlap(l.payload, l.msg.size), "exclusive", "a loan returned memory that P%d has on loan", p.first);
            }
        }
        for (auto& s : subs)
        {
            for (auto& h : s.second.held)
            {
                PBT_CHECK(c, !overlap(h.payload, h.msg.size), "exclusive", "a loan returned memory that S%d still holds", s.first);
            }
        }
    }

    /// would the publisher have to wait for a consumer?
    std::vector<MSub*> fullBlockers(MPub& p)
    {
        std::vector<MSub*> v;
        if (!p.requested || !p.wait)
        {
            return v;
        }
        for (int i : p.subs)
        {
            auto& s = subs[i];
            if (s.block && s.queue.size() >= s.capacity)
            {
                v.push_back(&s);
            }
        }
        return v;
    }

    void settleReceivers(MPub& p)
    {
        for (int i : p.subs)
        {
            if (!subs[i].dying)
            {
                settle(subs[i]);
            }
        }
    }

    void accountPublish(MPub& p, Msg m)
    {
        m.seq = p.seq++;
        if (p.requested)
        {
            for (int i : p.subs)
            {
                auto& s = subs[i];
                if (s.queue.size() >= s.capacity)
                {
                    c.count("overflow");
                }
                pushModel(s, m);
            }
        }
        if (p.historyCapacity > 0)
        {
            if (p.history.size() >= p.historyCapacity)
            {
                p.history.pop_front();
            }
            p.history.push_back(m);
        }
        p.last = m;
        p.hasLast = true;
        ++nPublished;
    }

    void doPublish(MPub& p)
    {
        if (p.loans.empty())
        {
            return;
        }
        settleReceivers(p);
        auto k = c.draw(static_cast<uint32_t>(p.loans.size()));
        Loan l = p.loans[k];
        PBT_CHECK(c, intact(l.payload, l.msg.size, l.msg.id), "loan_modified", "the content of a loaned sample changed before P%d published it", p.index);
        auto blockers = fullBlockers(p);
        p.loans.erase(p.loans.begin() + k);
        if (!blockers.empty())
        {
            publishBlocking(p, l, blockers);
            return;
        }
        c.log("P%d.publish(#%llu)", p.index, static_cast<unsigned long long>(l.msg.id));
        p.impl->publish(l.payload);
        accountPublish(p, l.msg);
    }

    /// a publisher that has to wait must not return, and nothing may be dropped, before the consumers made room
    void publishBlocking(MPub& p, const Loan& l, std::vector<MSub*> blockers)
    {
        for (auto* s : blockers)
        {
            if (s->dying)
            {
                // nobody is left to make room: RouDi removes the dead subscriber during discovery
                c.log("  (discovery before a publish that would wait for a destroyed subscriber)");
            }
        }
        bool anyDying = false;
        for (auto* s : blockers)
        {
            anyDying |= s->dying;
        }
        if (anyDying)
        {
            discover();
            blockers = fullBlockers(p);
            if (blockers.empty())
            {
                p.impl->publish(l.payload);
                accountPublish(p, l.msg);
                return;
            }
        }
        c.log("P%d.publish(#%llu) has to wait for %zu consumer(s)", p.index, static_cast<unsigned long long>(l.msg.id), blockers.size());
        c.count("blocking_publish");
        std::atomic<bool> done{false};
        std::thread t([&] {
            p.impl->publish(l.payload);
            done = true;
        });
        struct Join
        {
            std::thread& t;
            ~Join()
            {
                if (t.joinable())
                {
                    t.detach(); // only reached on failure; the worker process ends afterwards
                }
            }
        } join{t};
        // make room one consumer at a time; the model queue contents are checked by the takes themselves
        std::map<int, std::deque<Msg>> after;
        size_t left = blockers.size();
        for (auto* s : blockers)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(c.range(0, 2) * 400));
            PBT_CHECK(c, !done.load(), "block_returned", "publish returned although S%d's queue is still full", s->index);
            --left;
            if (c.chance(1, 6) && left == 0 && !prof.full && !pendingControl())
            {
                // instead of consuming, the consumer leaves; after discovery nobody has to be waited for
                c.log("  S%d.unsubscribe() while the publisher waits", s->index);
                s->impl->unsubscribe();
                s->requested = false;
                e->discover();
                waitDone(done);
                t.join();
                // everything pending is processed by that discovery as well; the blocked message reached everybody else
                Msg m = l.msg;
                int gone = s->index;
                accountWithout(p, m, gone);
                settleForDiscovery();
                for (auto it = pubs.begin(); it != pubs.end();)
                {
                    modelDiscoverPub(it->second);
                    it = it->second.dying ? pubs.erase(it) : std::next(it);
                }
                for (auto it = subs.begin(); it != subs.end();)
                {
                    modelDiscoverSub(it->second);
                    if (it->second.dying)
                    {
                        eraseSub(it++);
                    }
                    else
                    {
                        ++it;
                    }
                }
                applyHistory();
                return;
            }
            if (s->held.size() >= MAX_HELD)
            {
                releaseHeld(*s, 0);
            }
            takeOne(*s, true);
        }
        waitDone(done);
        t.join();
        accountPublish(p, l.msg);
    }
    bool pendingControl()
    {
        for (auto& x : pubs)
        {
            if (x.second.dying || x.second.requested != x.second.offered)
            {
                return true;
            }
        }
        for (auto& x : subs)
        {
            if (x.second.dying || x.second.requested != x.second.subscribed)
            {
                return true;
            }
        }
        return false;
    }
    void accountWithout(MPub& p, const Msg& m, int gone)
    {
        bool had = p.subs.erase(gone) > 0;
        accountPublish(p, m);
        if (had)
        {
            p.subs.insert(gone);
        }
    }
    void waitDone(std::atomic<bool>& done)
    {
        double t0 = pbt::now();
        while (!done.load())
        {
            std::this_thread::sleep_for(std::chrono::microseconds(100));
            if (pbt::now() - t0 > 15)
            {
                c.fail("block_forever", "publish did not return although every consumer made room");
            }
        }
    }

    void doPublishCopy(MPub& p)
    {
        uint64_t size = 0;
        if (!p.impl->canCopy() || !p.impl->fixedSize(size))
        {
            return;
        }
        settleReceivers(p);
        if (!fullBlockers(p).empty())
        {
            return;
        }
        alignas(16) uint8_t buf[256];
        Msg m;
        m.id = nextId++;
        m.size = size;
        m.pub = p.index;
        m.hasUid = p.hasUid;
        m.uid = p.uid;
        fill(buf, size, m.id);
        bool must = mustSucceed(p, size);
        bool result = c.chance(1, 2);
        c.log("P%d.%s(#%llu)", p.index, result ? "publishResultOf" : "publishCopyOf", static_cast<unsigned long long>(m.id));
        auto r = result ? p.impl->publishResult(buf) : p.impl->publishCopy(buf);
        judgeAlloc(p, r, size, "publishCopyOf");
        PBT_CHECK(c, !must || r == Alloc::OK, "loan_refused", "publishCopyOf refused although a chunk is free");
        m.pool = poolOf(size);
        if (p.hasLast)
        {
            m.altPool = p.last.altPool >= 0 && p.last.pool == m.pool ? p.last.altPool : p.last.pool;
        }
        if (r == Alloc::OK)
        {
            accountPublish(p, m);
        }
    }

    void doReleaseLoan(MPub& p)
    {
        if (p.loans.empty())
        {
            return;
        }
        auto k = c.draw(static_cast<uint32_t>(p.loans.size()));
        PBT_CHECK(c, intact(p.loans[k].payload, p.loans[k].msg.size, p.loans[k].msg.id), "loan_modified", "the content of a loaned sample changed while P%d held it", p.index);
        c.log("P%d.release(#%llu)", p.index, static_cast<unsigned long long>(p.loans[k].msg.id));
        p.impl->release(p.loans[k].payload);
        p.loans.erase(p.loans.begin() + k);
    }

    bool takeOne(MSub& s, bool mustBeThere)
    {
        const void* payload = nullptr;
        auto r = s.impl->take(payload);
        // doubtful head elements
        if (r == Take::OK)
        {
            uint64_t id = 0;
            memcpy(&id, payload, 8);
            while (!s.queue.empty() && s.queue.front().maybeGone && s.queue.front().id != id)
            {
                s.queue.pop_front();
            }
            c.log("S%d.take() -> #%llu", s.index, static_cast<unsigned long long>(id));
            PBT_CHECK(c, !s.queue.empty(), "invented", "S%d received sample #%llu but nothing should be queued", s.index, static_cast<unsigned long long>(id));
            Msg m = s.queue.front();
            m.maybeGone = false;
            PBT_CHECK(c, m.id == id, "order", "S%d received sample #%llu, expected #%llu", s.index, static_cast<unsigned long long>(id), static_cast<unsigned long long>(m.id));
            s.queue.pop_front();
            PBT_CHECK(c, intact(payload, m.size, m.id), "content", "S%d received sample #%llu with altered content", s.index, static_cast<unsigned long long>(id));
            auto h = iox::mepoo::ChunkHeader::fromUserPayload(payload);
            PBT_CHECK(c, h->userPayloadSize() == m.size, "payload_size", "S%d: sample #%llu says %llu bytes, %llu were published", s.index, static_cast<unsigned long long>(id),
                      static_cast<unsigned long long>(h->userPayloadSize()), static_cast<unsigned long long>(m.size));
            PBT_CHECK(c, h->sequenceNumber() == m.seq, "sequence", "S%d: sample #%llu has sequence number %llu, expected %llu", s.index, static_cast<unsigned long long>(id),
                      static_cast<unsigned long long>(h->sequenceNumber()), static_cast<unsigned long long>(m.seq));
            PBT_CHECK(c, !m.hasUid || h->originId() == m.uid, "origin", "S%d: sample #%llu names another publisher as its origin", s.index, static_cast<unsigned long long>(id));
            PBT_CHECK(c, s.held.size() < MAX_HELD + 1, "held_limit", "S%d could take a sample while holding %zu (limit %u)", s.index, s.held.size(), MAX_HELD);
            s.held.push_back({payload, m});
            ++nDelivered;
            return true;
        }
        c.log("S%d.take() -> %s", s.index, ep::str(r));
        if (r == Take::EMPTY)
        {
            while (!s.queue.empty() && s.queue.front().maybeGone)
            {
                s.queue.pop_front();
            }
            PBT_CHECK(c, s.queue.empty(), "lost", "S%d: queue reported empty, sample #%llu is missing", s.index,
                      static_cast<unsigned long long>(s.queue.empty() ? 0 : s.queue.front().id));
            PBT_CHECK(c, !mustBeThere, "lost", "S%d: nothing there", s.index);
            return false;
        }
        if (r == Take::TOO_MANY)
        {
            c.count("too_many_held");
            PBT_CHECK(c, s.held.size() >= MAX_HELD, "held_limit_early", "S%d: take refused while holding only %zu samples (limit %u)", s.index, s.held.size(), MAX_HELD);
            PBT_CHECK(c, !s.queue.empty(), "invented", "S%d: too many samples held, but there is nothing to take", s.index);
            for (auto& m : s.queue)
            {
                if (!m.maybeGone)
                {
                    m.maybeGone = true;
                    break;
                }
            }
            return false;
        }
        c.fail("take_error", "unexpected take result");
    }

    void releaseHeld(MSub& s, uint32_t k)
    {
        auto& h = s.held[k];
        PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "sample #%llu changed while S%d held it", static_cast<unsigned long long>(h.msg.id), s.index);
        c.log("S%d.release(#%llu)", s.index, static_cast<unsigned long long>(h.msg.id));
        s.impl->release(h.payload);
        s.held.erase(s.held.begin() + k);
    }
    void drain(MSub& s)
    {
        while (takeOne(s, false))
        {
            releaseHeld(s, static_cast<uint32_t>(s.held.size() - 1));
        }
    }
    std::vector<uint64_t> drainRaw(MSub& s)
    {
        std::vector<uint64_t> ids;
        const void* payload = nullptr;
        while (s.impl->take(payload) == Take::OK)
        {
            uint64_t id = 0;
            memcpy(&id, payload, 8);
            ids.push_back(id);
            s.impl->release(payload);
        }
        return ids;
    }

    void step()
    {
        auto ps = livePubs();
        auto ss = liveSubs();
        if (ps.empty() && c.chance(3, 4))
        {
            createPub();
            return;
        }
        if (ss.empty() && c.chance(3, 4))
        {
            createSub();
            return;
        }
        uint32_t op = c.weighted({3u,                         // 0 create publisher
                                  4u,                         // 1 create subscriber
                                  prof.hoard ? 22u : 14u,     // 2 loan
                                  prof.hoard ? 10u : 24u,     // 3 loan+publish / publish
                                  4u,                         // 4 release loan
                                  16u,                        // 5 take
                                  prof.hoard ? 3u : 10u,      // 6 release held
                                  3u,                         // 7 offer/stopOffer
                                  4u,                         // 8 subscribe/unsubscribe
                                  8u,                         // 9 discovery
                                  2u,                         // 10 destroy publisher
                                  2u,                         // 11 destroy subscriber
                                  prof.crash ? 4u : 0u,       // 12 an application dies
                                  2u,                         // 13 release everything queued
                                  6u,                         // 14 queries
                                  prof.bursts ? 8u : 3u});    // 15 burst
        switch (op)
        {
        case 0:
            createPub();
            break;
        case 1:
            createSub();
            break;
        case 2:
            if (!ps.empty())
            {
                doLoan(*c.pick(ps));
            }
            break;
        case 3:
            if (!ps.empty())
            {
                auto& p = *c.pick(ps);
                if (c.chance(1, 3))
                {
                    doPublishCopy(p);
                }
                else
                {
                    if (p.loans.empty() || (p.loans.size() < 3 && c.chance(1, 3)))
                    {
                        doLoan(p);
                    }
                    doPublish(p);
                }
            }
            break;
        case 4:
            if (!ps.empty())
            {
                doReleaseLoan(*c.pick(ps));
            }
            break;
        case 5:
            if (!ss.empty())
            {
                auto& s = *c.pick(ss);
                uint32_t k = c.range(1, prof.hoard ? 8 : 3);
                for (uint32_t i = 0; i < k; ++i)
                {
                    if (!takeOne(s, false))
                    {
                        break;
                    }
                    if (!prof.hoard && c.chance(1, 2))
                    {
                        releaseHeld(s, c.draw(static_cast<uint32_t>(s.held.size())));
                    }
                }
            }
            break;
        case 6:
            if (!ss.empty())
            {
                auto& s = *c.pick(ss);
                if (!s.held.empty())
                {
                    releaseHeld(s, c.draw(static_cast<uint32_t>(s.held.size())));
                }
            }
            break;
        case 7:
            if (!ps.empty())
            {
                auto& p = *c.pick(ps);
                bool on = c.chance(p.requested ? 1 : 3, 4);
                c.log("P%d.%s()", p.index, on ? "offer" : "stopOffer");
                if (on)
                {
                    p.impl->offer();
                }
                else
                {
                    p.impl->stopOffer();
                }
                p.requested = on;
                controlDone();
            }
            break;
        case 8:
            if (!ss.empty())
            {
                auto& s = *c.pick(ss);
                bool on = c.chance(s.requested ? 1 : 3, 4);
                c.log("S%d.%s()", s.index, on ? "subscribe" : "unsubscribe");
                if (on)
                {
                    s.impl->subscribe();
                    if (!s.requested)
                    {
                        s.queue.clear(); // a new subscription starts with new data
                    }
                }
                else
                {
                    s.impl->unsubscribe();
                }
                s.requested = on;
                controlDone();
            }
            break;
        case 9:
            c.log("discovery");
            discover();
            break;
        case 10:
            if (!ps.empty())
            {
                destroyPub(*c.pick(ps));
            }
            break;
        case 11:
            if (!ss.empty())
            {
                destroySub(*c.pick(ss));
            }
            break;
        case 12:
            crashApp(c.pick(apps));
            break;
        case 13:
            if (!ss.empty())
            {
                auto& s = *c.pick(ss);
                c.log("S%d.releaseQueuedData()", s.index);
                s.impl->releaseQueued();
                s.queue.clear();
            }
            break;
        case 14:
            queries();
            break;
        default:
            if (!ps.empty())
            {
                auto& p = *c.pick(ps);
                uint32_t k = c.range(2, 8);
                for (uint32_t i = 0; i < k; ++i)
                {
                    doPublishOrLoanPublish(p);
                }
            }
            break;
        }
    }
    void doPublishOrLoanPublish(MPub& p)
    {
        settleReceivers(p);
        if (!fullBlockers(p).empty())
        {
            return;
        }
        if (p.loans.empty())
        {
            doLoan(p);
        }
        doPublish(p);
    }

    void queries()
    {
        for (auto* s : liveSubs())
        {
            bool doubt = !s->queue.empty();
            for (auto& m : s->queue)
            {
                doubt &= m.maybeGone;
            }
            bool hd = s->impl->hasData();
            if (!doubt)
            {
                PBT_CHECK(c, hd == !s->queue.empty(), "has_data", "S%d.hasData() is %d with %zu samples queued", s->index, hd, s->queue.size());
            }
            bool st = s->impl->state() == iox::SubscribeState::SUBSCRIBED;
            PBT_CHECK(c, st == s->subscribed, "sub_state", "S%d subscription state is %s", s->index, st ? "SUBSCRIBED" : "not SUBSCRIBED");
        }
        for (auto* p : livePubs())
        {
            PBT_CHECK(c, p->impl->isOffered() == p->requested, "offer_state", "P%d.isOffered() is wrong", p->index);
            PBT_CHECK(c, p->impl->hasSubscribers() == !p->subs.empty(), "has_subscribers", "P%d.hasSubscribers() is %d, %zu connected", p->index, p->impl->hasSubscribers(),
                      p->subs.size());
        }
        auto ss = liveSubs();
        if (!ss.empty())
        {
            auto& s = *c.pick(ss);
            bool m = s.impl->hasMissedData();
            c.log("S%d.hasMissedData() -> %d", s.index, m);
            PBT_CHECK(c, m == s.missed, "missed_flag", "S%d.hasMissedData() is %d, but samples %s dropped since the last call", s.index, m, s.missed ? "were" : "were not");
            s.missed = false;
        }
    }

    void destroyPub(MPub& p)
    {
        if (p.requested != p.offered)
        {
            discover(); // whether a pending offer of a destroyed publisher still takes effect is not specified
        }
        while (!p.loans.empty())
        {
            p.impl->release(p.loans.back().payload);
            p.loans.pop_back();
        }
        c.log("destroy P%d", p.index);
        delete p.impl;
        p.impl = nullptr;
        p.dying = true;
        p.requested = false;
        controlDone();
    }
    void destroySub(MSub& s)
    {
        if (s.requested != s.subscribed)
        {
            discover();
        }
        while (!s.held.empty())
        {
            releaseHeld(s, 0);
        }
        c.log("destroy S%d", s.index);
        delete s.impl;
        s.impl = nullptr;
        s.dying = true;
        s.requested = false;
        controlDone();
    }
    void crashApp(const std::string& app)
    {
        settleForDiscovery();
        c.log("%s dies", app.c_str());
        c.count("app_death");
        for (auto it = pubs.begin(); it != pubs.end();)
        {
            if (it->second.app == app)
            {
                if (!it->second.dying)
                {
                    it->second.impl->abandon();
                }
                it = pubs.erase(it);
            }
            else
            {
                ++it;
            }
        }
        for (auto it = subs.begin(); it != subs.end();)
        {
            if (it->second.app == app)
            {
                if (!it->second.dying)
                {
                    it->second.impl->abandon();
                }
                eraseSub(it++);
            }
            else
            {
                ++it;
            }
        }
        e->removeApp(app);
    }

    void audit()
    {
        for (auto& p : pubs)
        {
            for (auto& l : p.second.loans)
            {
                PBT_CHECK(c, intact(l.payload, l.msg.size, l.msg.id), "loan_modified", "a loaned sample of P%d changed", p.first);
            }
        }
        for (auto& s : subs)
        {
            for (auto& h : s.second.held)
            {
                PBT_CHECK(c, intact(h.payload, h.msg.size, h.msg.id), "held_modified", "sample #%llu changed while S%d held it", static_cast<unsigned long long>(h.msg.id), s.first);
            }
        }
        auto st = e->pools();
        std::vector<uint32_t> lo, hi;
        usage(lo, hi);
        for (size_t i = 0; i < poolCfg.size(); ++i)
        {
            PBT_CHECK(c, st[i].total == poolCfg[i].count, "pool_total", "pool %zu has %u chunks, configured %u", i, st[i].total, poolCfg[i].count);
            PBT_CHECK(c, st[i].used >= lo[i], "pool_under", "pool %zu reports %u used chunks but %u are referenced", i, st[i].used, lo[i]);
            PBT_CHECK(c, st[i].used <= hi[i], "pool_leak", "pool %zu reports %u used chunks but only %u are referenced", i, st[i].used, hi[i]);
        }
    }

    void finish()
    {
        c.log("-- drain");
        for (auto* s : liveSubs())
        {
            while (s->held.size() >= MAX_HELD)
            {
                releaseHeld(*s, 0);
            }
            drain(*s);
        }
        queries();
        audit();
        for (auto* s : liveSubs())
        {
            destroySub(*s);
        }
        for (auto* p : livePubs())
        {
            if (prof.crash && c.chance(1, 2))
            {
                continue;
            }
            destroyPub(*p);
        }
        if (prof.crash)
        {
            for (auto& a : apps)
            {
                crashApp(a);
            }
        }
        discover();
        PBT_CHECK(c, e->usedChunks() == 0, "leak", "%u chunks are still in use after every publisher and subscriber is gone", e->usedChunks());
        if (!prof.full)
        {
            // the ports are gone as well
            c.log("-- end");
        }
    }
};
} // namespace pubsub
