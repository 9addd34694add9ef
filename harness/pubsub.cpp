#include "pubsub_model.hpp"
using namespace pubsub;

static pbt::Test mk(const char* name, Profile p, double w = 1.0)
{
    pbt::Test t;
    t.name = name;
    t.weight = w;
    t.hangSec = 40;
    t.block = p.full ? 100 : 500;
    t.run = [p](Case& c) {
        env::quiet();
        Driver(c, p).run();
    };
    return t;
}

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    {
        Profile p;
        tests.push_back(mk("delivery", p));
        p.bursts = true;
        tests.push_back(mk("bursts", p));
    }
    {
        Profile p;
        p.full = true;
        p.maxOps = 60;
        p.history = true;
        tests.push_back(mk("full", p));
    }
    {
        Profile p;
        p.history = true;
        tests.push_back(mk("history", p));
    }
    {
        Profile p;
        p.policies = true;
        p.bursts = true;
        tests.push_back(mk("policies", p));
    }
    {
        Profile p;
        p.tightPools = true;
        p.hoard = true;
        p.history = true;
        tests.push_back(mk("memory", p));
    }
    {
        Profile p;
        p.hoard = true;
        p.maxOps = 200;
        tests.push_back(mk("limits", p));
    }
    {
        Profile p;
        p.crash = true;
        p.tightPools = true;
        p.history = true;
        tests.push_back(mk("crash", p));
    }
    {
        Profile p;
        p.onlyC = true;
        p.history = true;
        p.bursts = true;
        tests.push_back(mk("cbinding", p));
    }
    return pbt::runAll(argc, argv, tests);
}
