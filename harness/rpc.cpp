#include "rpc_model.hpp"
using namespace rpc;

static pbt::Test mk(const char* name, Profile p)
{
    pbt::Test t;
    t.name = name;
    t.hangSec = 40;
    t.block = p.full ? 100 : 500;
    t.run = [p](Case& c) {
        env::quiet();
        Driver(c, p).run();
    };
    return t;
}

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    Profile p;
    tests.push_back(mk("rpc", p));
    p.bursts = true;
    p.blocking = true;
    tests.push_back(mk("rpc_bursts", p));
    p = Profile();
    p.full = true;
    p.maxOps = 60;
    tests.push_back(mk("rpc_full", p));
    p = Profile();
    p.manyClients = true;
    tests.push_back(mk("rpc_many", p));
    p = Profile();
    p.tight = true;
    p.hoard = true;
    tests.push_back(mk("rpc_memory", p));
    p = Profile();
    p.crash = true;
    tests.push_back(mk("rpc_crash", p));
    p = Profile();
    p.onlyC = true;
    p.bursts = true;
    tests.push_back(mk("rpc_c", p));
    return pbt::runAll(argc, argv, tests);
}
