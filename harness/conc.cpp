#include "conc_pubsub.hpp"
#include "conc_rpc.hpp"

static pbt::Test ps(const char* name, conc::Prof p, double w = 1.0)
{
    pbt::Test t;
    t.name = name;
    t.weight = w;
    t.hangSec = 30;
    t.block = 1000;
    t.run = [p](pbt::Case& c) {
        env::quiet();
        conc::PubSub(c, p).run();
    };
    return t;
}
static pbt::Test rp(const char* name, conc::RpcProf p, double w = 1.0)
{
    pbt::Test t;
    t.name = name;
    t.weight = w;
    t.hangSec = 30;
    t.block = 1000;
    t.run = [p](pbt::Case& c) {
        env::quiet();
        conc::Rpc(c, p).run();
    };
    return t;
}
int main(int argc, char** argv)
{
    std::vector<pbt::Test> t;
    conc::Prof p;
    t.push_back(ps("steady", p));
    p.join = true;
    t.push_back(ps("join", p));
    p = {};
    p.block = true;
    t.push_back(ps("blocking", p));
    p.toggle = true;
    t.push_back(ps("blocking_toggle", p));
    p = {};
    p.toggle = true;
    p.join = true;
    t.push_back(ps("toggle", p));
    p = {};
    p.scarce = true;
    t.push_back(ps("scarce", p));
    conc::RpcProf r;
    t.push_back(rp("rpc_steady", r));
    r.join = true;
    t.push_back(rp("rpc_join", r));
    r.toggle = true;
    t.push_back(rp("rpc_toggle", r));
    r = {};
    r.block = true;
    t.push_back(rp("rpc_blocking", r));
    r.toggle = true;
    t.push_back(rp("rpc_blocking_toggle", r));
    return pbt::runAll(argc, argv, t);
}
