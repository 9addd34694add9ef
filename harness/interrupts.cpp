// Waiting applications that handle signals meanwhile (S09): a wait set or a listener is not disturbed by them.
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iox_env.hpp"

#include <atomic>
#include <signal.h>
#include <thread>

using pbt::Case;
using namespace iox;
using units::Duration;

namespace
{
std::atomic<uint32_t> g_interrupts{0};
void onInterrupt(int)
{
    g_interrupts.fetch_add(1);
}
void interrupt(pthread_t t, uint32_t n)
{
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t before = g_interrupts.load();
        pthread_kill(t, SIGUSR2);
        for (uint32_t k = 0; k < 20000 && g_interrupts.load() == before; ++k)
        {
            usleep(20);
        }
        usleep(60);
    }
}
template <typename F>
bool await(F f)
{
    for (uint32_t k = 0; k < 200000 && !f(); ++k)
    {
        usleep(100);
    }
    return f();
}

struct Ctx
{
    std::atomic<uint32_t> calls{0};
    std::atomic<pthread_t> who{};
};
void called(popo::UserTrigger*, Ctx* x)
{
    x->who = pthread_self();
    x->calls.fetch_add(1);
}

void waiting(Case& c)
{
    struct sigaction a = {};
    a.sa_handler = onInterrupt; // no SA_RESTART
    sigemptyset(&a.sa_mask);
    sigaction(SIGUSR2, &a, nullptr);
    env::quiet();
    static std::unique_ptr<env::DirectEnv> e;
    if (!e)
    {
        auto cfg = env::makeConfig({{128, 10}});
        e = std::make_unique<env::DirectEnv>(cfg);
    }
    e->activate("app");
    e->discover(); // clean up what the previous case destroyed
    uint32_t signals = 0;
    if (c.chance(1, 2))
    {
        popo::WaitSet<4> ws;
        popo::UserTrigger t;
        PBT_CHECK(c, !ws.attachEvent(t, 7U).has_error(), "attach", "cannot attach");
        std::atomic<pthread_t> who{};
        std::atomic<uint32_t> stage{0};
        std::atomic<uint32_t> events{0};
        std::atomic<bool> wrong{false};
        const uint32_t rounds = c.range(1, 3);
        const bool timed = c.chance(1, 2);
        std::thread th([&] {
            who = pthread_self();
            stage = 1;
            for (uint32_t i = 0; i < rounds; ++i)
            {
                auto v = timed ? ws.timedWait(Duration::fromSeconds(600)) : ws.wait();
                wrong = wrong || v.size() != 1 || v[0]->getNotificationId() != 7U;
                events.fetch_add(1);
            }
        });
        await([&] { return stage.load() == 1; });
        bool early = false, late = false;
        for (uint32_t i = 0; i < rounds; ++i)
        {
            const uint32_t n = c.range(0, 14);
            interrupt(who, n);
            signals += n;
            early = early || events.load() != i;
            t.trigger();
            late = late || !await([&] { return events.load() > i; });
        }
        if (!late)
        {
            th.join();
        }
        else
        {
            th.detach();
        }
        PBT_CHECK(c, !late, "interrupt-late", "an event is not reported to a thread that handled %u signals", signals);
        PBT_CHECK(c, !early && !wrong, "interrupt-early", "a wait ended because of a signal");
    }
    else
    {
        popo::Listener l;
        popo::UserTrigger t;
        Ctx ctx;
        PBT_CHECK(c, !l.attachEvent(t, popo::createNotificationCallback(called, ctx)).has_error(), "attach", "cannot attach");
        t.trigger();
        PBT_CHECK(c, await([&] { return ctx.calls.load() >= 1; }), "interrupt-late", "the callback is not called");
        const uint32_t rounds = c.range(1, 3);
        for (uint32_t i = 0; i < rounds; ++i)
        {
            const uint32_t n = c.range(0, 14);
            usleep(c.of<uint32_t>({0, 0, 500}));
            interrupt(ctx.who, n);
            signals += n;
            PBT_CHECK(c, ctx.calls.load() == i + 1, "interrupt-early", "the callback is called because of a signal");
            t.trigger();
            PBT_CHECK(c, await([&] { return ctx.calls.load() >= i + 2; }), "interrupt-late", "an event is not reported by a listener that handled %u signals", signals);
        }
        l.detachEvent(t);
    }
    if (signals > 0)
    {
        c.nontrivial();
    }
    c.count("signals", signals);
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests = {{"interrupted_waits", waiting, 1.0, 60, 2000, true}};
    return pbt::runAll(argc, argv, tests);
}
