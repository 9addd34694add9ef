// Clients, a server and RouDi's discovery as simulated threads under generated schedules.
#pragma once
#include "conc_pubsub.hpp"
#include "rpc_model.hpp"

namespace conc
{
struct RpcProf
{
    bool join{false};
    bool block{false};
    bool toggle{false};
};

class Rpc
{
  public:
    Rpc(Case& cc, RpcProf pp)
        : c(cc)
        , prof(pp)
    {
    }
    void run();

  private:
    struct Req
    {
        uint32_t cli;
        uint32_t seq;
        uint64_t from{0}, to{~0ULL};
        bool ok{false};       // send reported success
        uint32_t atServer{0}; // how often the server got it
        uint64_t tookAt{0};
        bool answered{false}; // the response was sent successfully
        uint64_t ansFrom{0}, ansTo{~0ULL};
        uint32_t back{0}; // how often a response came back
    };
    struct Cl
    {
        std::unique_ptr<rpc::UCli> p;
        uint64_t cap{1};
        bool wait{false}, block{false};
        bool late{false}, toggles{false};
        bool sentAll{false}, done{false}, missed{false};
        uint32_t n{0};
        std::vector<uint32_t> plan;
        std::vector<uint64_t> order; // responses as received
    };
    Case& c;
    RpcProf prof;
    std::vector<Cl> cl;
    std::unique_ptr<rpc::USer> srv;
    uint64_t scap{1};
    bool swait{false}, sblock{false}, stoggle{false}, sdone{false}, smissed{false};
    std::map<uint64_t, Req> reqs;
    std::vector<uint64_t> atServer;
    uint64_t nextKey{1};

    void send(uint32_t i)
    {
        auto& k = cl[i];
        void* x = nullptr;
        auto r = sched::in([&] { return k.p->loan(sizeof(Payload), 8, x); });
        PBT_CHECK(c, r == ep::Alloc::OK, "loan", "loan of a request failed with %s", ep::str(r));
        uint64_t key = nextKey++;
        fill(static_cast<Payload*>(x), key);
        k.p->setSeq(x, static_cast<int64_t>(key) * 3);
        Req q{i, k.n++};
        q.from = sched::clock();
        reqs[key] = q;
        auto s = sched::in([&] { return k.p->send(x); });
        auto& e = reqs[key];
        e.to = sched::clock();
        e.ok = s == rpc::Send::OK;
        const bool steady = !k.late && !k.toggles && !stoggle;
        PBT_CHECK(c, e.ok || !steady, "send", "client %u is connected and send failed with %s", i, rpc::str(s));
        c.count(e.ok ? "sent" : "not-sent");
    }
    bool takeResponse(uint32_t i)
    {
        auto& k = cl[i];
        const void* x = nullptr;
        auto r = sched::in([&] { return k.p->take(x); });
        if (r == rpc::Take::EMPTY)
        {
            return false;
        }
        PBT_CHECK(c, r == rpc::Take::OK, "take", "take of a response failed");
        auto* p = static_cast<const Payload*>(x);
        uint64_t key = p->key - 1000000;
        auto it = reqs.find(key);
        PBT_CHECK(c, it != reqs.end() && intact(p, p->key), "invented", "client %u received a response nobody sent", i);
        PBT_CHECK(c, it->second.cli == i, "wrong-client", "client %u received the response for client %u", i, it->second.cli);
        PBT_CHECK(c, k.p->respSeq(x) == static_cast<int64_t>(key) * 3, "sequence",
                  "the response carries sequence id %lld instead of %lld", (long long)k.p->respSeq(x), (long long)key * 3);
        PBT_CHECK(c, ++it->second.back == 1, "response-twice", "client %u received the same response twice", i);
        k.order.push_back(key);
        sched::point();
        PBT_CHECK(c, intact(p, key + 1000000), "changed-while-held", "a response changed while the client holds it");
        sched::in([&] { k.p->releaseResponse(x); });
        return true;
    }
    bool serve(bool answer)
    {
        const void* x = nullptr;
        auto r = sched::in([&] { return srv->take(x); });
        if (r == rpc::TakeR::EMPTY || r == rpc::TakeR::EMPTY_NOT_OFFERED)
        {
            PBT_CHECK(c, r == rpc::TakeR::EMPTY || stoggle, "take", "the server offers, and take says that it does not");
            return false;
        }
        PBT_CHECK(c, r == rpc::TakeR::OK, "take", "take of a request failed with %s", rpc::str(r));
        auto* p = static_cast<const Payload*>(x);
        uint64_t key = p->key;
        auto it = reqs.find(key);
        PBT_CHECK(c, it != reqs.end() && intact(p, key), "invented", "the server received a request nobody sent");
        PBT_CHECK(c, srv->reqSeq(x) == static_cast<int64_t>(key) * 3, "sequence", "the request carries a wrong sequence id");
        PBT_CHECK(c, ++it->second.atServer == 1, "request-twice", "the server received a request twice");
        atServer.push_back(key);
        if (answer)
        {
            void* y = nullptr;
            auto l = sched::in([&] { return srv->loan(x, sizeof(Payload), 8, y); });
            PBT_CHECK(c, l == ep::Alloc::OK, "loan", "loan of a response failed with %s", ep::str(l));
            PBT_CHECK(c, y != x, "loaned-while-held", "the response shares the memory of its request");
            fill(static_cast<Payload*>(y), key + 1000000);
            PBT_CHECK(c, intact(p, key), "changed-while-held", "a request changed while the server holds it");
            auto& q = reqs[key];
            q.ansFrom = sched::clock();
            q.answered = true;
            auto s = sched::in([&] { return srv->send(y); });
            auto& e = reqs[key];
            e.ansTo = sched::clock();
            e.answered = s == rpc::Send::OK;
            const bool steady = !cl[e.cli].toggles && !stoggle;
            PBT_CHECK(c, e.answered || !steady, "send", "client %u is connected, its response could not be sent: %s", e.cli,
                      rpc::str(s));
        }
        PBT_CHECK(c, intact(p, key), "changed-while-held", "a request changed while the server holds it");
        sched::in([&] { srv->releaseRequest(x); });
        return true;
    }
};

inline void Rpc::run()
{
    auto& e = SharedEnv::get(0);
    ep::Srv sd{"r", "p", "c"};
    const bool reqBlock = prof.block && c.chance(1, 2), resBlock = prof.block && !reqBlock;
    iox::popo::ServerOptions so;
    scap = c.chance(1, 2) ? c.range(1, 3) : c.range(1, 8);
    sblock = reqBlock;
    swait = resBlock;
    so.requestQueueCapacity = scap;
    so.requestQueueFullPolicy =
        sblock ? iox::popo::QueueFullPolicy::BLOCK_PRODUCER : iox::popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
    so.clientTooSlowPolicy = swait ? iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                   : iox::popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
    srv = std::make_unique<rpc::USer>(sd, so);
    uint32_t nc = c.range(1, 3);
    uint32_t total = 0;
    for (uint32_t i = 0; i < nc; ++i)
    {
        Cl k;
        iox::popo::ClientOptions o;
        k.cap = c.chance(1, 2) ? c.range(1, 2) : c.range(1, 6);
        k.wait = reqBlock;
        k.block = resBlock;
        k.late = prof.join && c.chance(2, 3);
        o.responseQueueCapacity = k.cap;
        o.connectOnCreate = !k.late;
        o.responseQueueFullPolicy =
            k.block ? iox::popo::QueueFullPolicy::BLOCK_PRODUCER : iox::popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.serverTooSlowPolicy = k.wait ? iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                       : iox::popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        k.p = std::make_unique<rpc::UCli>(sd, o);
        uint32_t n = c.range(1, 6);
        for (uint32_t j = 0; j < n; ++j)
        {
            uint32_t w = c.chance(2, 3) ? 0 : 1;
            if (prof.toggle && c.chance(1, 6))
            {
                w = 2;
                k.toggles = true;
            }
            else if (c.chance(1, 10))
            {
                w = 3;
            }
            k.plan.push_back(w);
            total += w == 0;
        }
        cl.push_back(std::move(k));
    }
    std::vector<uint32_t> splan;
    {
        uint32_t n = c.range(0, 8);
        for (uint32_t j = 0; j < n; ++j)
        {
            uint32_t w = c.chance(1, 6) ? 1 : 0;
            if (prof.toggle && c.chance(1, 6))
            {
                w = 2;
                stoggle = true;
            }
            else if (c.chance(1, 10))
            {
                w = 3;
            }
            splan.push_back(w);
        }
    }
    e.discover();
    e.discover();
    sched::Options opt;
    opt.maxSteps = 40000;
    opt.memory = c.chance(1, 3);
    sched::begin(c, opt);
    uint32_t running = nc + 1;
    for (uint32_t i = 0; i < nc; ++i)
    {
        sched::spawn([&, i] {
            auto& k = cl[i];
            if (k.late)
            {
                sched::in([&] { k.p->connect(); });
            }
            for (auto w : k.plan)
            {
                if (w == 0)
                {
                    send(i);
                }
                else if (w == 1)
                {
                    takeResponse(i);
                }
                else if (w == 2)
                {
                    sched::in([&] {
                        if (k.p->state() == iox::ConnectionState::NOT_CONNECTED
                            || k.p->state() == iox::ConnectionState::DISCONNECT_REQUESTED)
                        {
                            k.p->connect();
                        }
                        else
                        {
                            k.p->disconnect();
                        }
                    });
                }
                else
                {
                    k.missed = sched::in([&] { return k.p->hasMissed(); }) || k.missed;
                }
            }
            k.sentAll = true;
            while (k.block && !sdone)
            {
                if (!takeResponse(i))
                {
                    sched::in([] { sched_yield(); });
                }
            }
            k.done = true;
            --running;
        });
    }
    sched::spawn([&] {
        for (auto w : splan)
        {
            if (w < 2)
            {
                serve(w == 0);
            }
            else if (w == 2)
            {
                sched::in([&] {
                    if (srv->isOffered())
                    {
                        srv->stopOffer();
                    }
                    else
                    {
                        srv->offer();
                    }
                });
            }
            else
            {
                smissed = sched::in([&] { return srv->hasMissed(); }) || smissed;
            }
        }
        while (prof.block)
        {
            bool all = true;
            for (auto& k : cl)
            {
                all = all && k.sentAll;
            }
            if (!serve(true))
            {
                if (all)
                {
                    break;
                }
                sched::in([] { sched_yield(); });
            }
        }
        sdone = true;
        --running;
    });
    const uint32_t rounds = prof.join || prof.toggle ? c.range(1, 4) : c.draw(2);
    sched::spawn([&] {
        for (uint32_t k = 0; k < rounds || (running > 0 && prof.block && prof.toggle); ++k)
        {
            if (k >= rounds)
            {
                sched::in([] { sched_yield(); });
            }
            sched::in([&] { e.discover(); });
        }
    });
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end != sched::End::DEADLOCK, "deadlock", "clients, server and discovery wait for each other");
    PBT_CHECK(c, end == sched::End::FINISHED, "no-progress", "not finished although everybody was scheduled fairly");
    e.discover();
    e.discover();
    smissed = srv->hasMissed() || smissed;
    const bool answerRest = !resBlock && c.chance(1, 2);
    while (serve(answerRest))
    {
    }
    for (uint32_t i = 0; i < nc; ++i)
    {
        cl[i].missed = cl[i].p->hasMissed() || cl[i].missed;
        while (takeResponse(i))
        {
        }
    }
    // order and losses
    uint64_t lostReq = 0;
    bool disturbed = stoggle;
    for (auto& k : cl)
    {
        disturbed = disturbed || k.toggles;
    }
    std::vector<int64_t> last(nc, -1);
    for (size_t a = 0; a < atServer.size(); ++a)
    {
        auto& x = reqs[atServer[a]];
        PBT_CHECK(c, static_cast<int64_t>(x.seq) > last[x.cli], "order", "requests of client %u arrive out of order", x.cli);
        last[x.cli] = x.seq;
        for (size_t b = a + 1; b < atServer.size(); ++b)
        {
            PBT_CHECK(c, !(reqs[atServer[b]].to < x.from), "order",
                      "the server received a request before one that was sent earlier");
        }
    }
    for (auto& kv : reqs)
    {
        auto& q = kv.second;
        if (!q.ok || q.atServer || stoggle)
        {
            continue;
        }
        ++lostReq;
        uint64_t later = 0;
        for (auto& o : reqs)
        {
            later += o.second.to > q.from && o.first != kv.first && !(o.second.cli == q.cli && o.second.seq < q.seq);
        }
        PBT_CHECK(c, !(sblock && cl[q.cli].wait), "request-lost", "a request was lost although the client waits for the server");
        PBT_CHECK(c, later >= scap, "request-lost", "a request was lost although the server's queue of %llu was not full",
                  (unsigned long long)scap);
        PBT_CHECK(c, smissed, "silent-loss", "a request was lost and hasMissedRequests never told");
    }
    PBT_CHECK(c, lostReq > 0 || !smissed || stoggle, "missed-nothing", "hasMissedRequests told about a loss that did not happen");
    for (uint32_t i = 0; i < nc; ++i)
    {
        auto& k = cl[i];
        for (size_t a = 1; a < k.order.size(); ++a)
        {
            PBT_CHECK(c, reqs[k.order[a - 1]].ansFrom < reqs[k.order[a]].ansFrom, "order",
                      "client %u received responses out of order", i);
        }
        uint64_t lost = 0;
        if (k.toggles || stoggle)
        {
            continue;
        }
        for (auto& kv : reqs)
        {
            auto& q = kv.second;
            if (q.cli != i || !q.answered || q.back)
            {
                continue;
            }
            ++lost;
            uint64_t later = 0;
            for (auto& o : reqs)
            {
                later += o.second.cli == i && o.second.answered && o.second.ansFrom > q.ansFrom;
            }
            PBT_CHECK(c, !(swait && k.block), "response-lost", "a response was lost although the server waits for client %u", i);
            PBT_CHECK(c, later >= k.cap, "response-lost", "a response was lost although the queue of client %u was not full", i);
            PBT_CHECK(c, k.missed, "silent-loss", "client %u lost a response and hasMissedResponses never told", i);
        }
        PBT_CHECK(c, lost > 0 || !k.missed, "missed-nothing", "hasMissedResponses told client %u about a loss that did not happen",
                  i);
    }
    uint32_t backs = 0;
    for (auto& kv : reqs)
    {
        backs += kv.second.back;
    }
    const uint32_t used = e.usedChunks();
    PBT_CHECK(c, used <= nc + 1, "leak", "%u chunks in use with nothing in flight", used);
    cl.clear();
    srv.reset();
    e.discover();
    PBT_CHECK(c, e.usedChunks() == 0, "leak", "%u chunks are in use after all endpoints are gone", e.usedChunks());
    SharedEnv::clean();
    c.nontrivial(atServer.size() >= 2 && backs >= 1);
}
} // namespace conc
