#include "vfapi.h"
#include <sst/core/activity.h>
#include <sst/core/factory.h>
#include <sst/core/timeVortex.h>
#include <atomic>
#include <memory>
#include <thread>

namespace {
class Act : public SST::Activity
{
public:
    int  id;
    Act(int id, uint64_t t, int p, uint32_t tag) : id(id)
    {
        setDeliveryTime(t);
        setPriority(p);
        setOrderTag(tag);
    }
    void execute() override {}
    bool isEvent() const override { return false; }
    bool isAction() const override { return true; }
    NotSerializable(Act)
};

json
drive(json s)
{
    SST::Params                      p;
    std::unique_ptr<SST::TimeVortex> tv(SST::Factory::getFactory()->Create<SST::TimeVortex>(s["type"], p));
    std::vector<uint64_t>            times = s["times"], tags = s["tags"];
    auto mk  = [&](const json& o) { return new Act(o["id"], times[o["t"].get<int>()], o["p"], tags[o["g"].get<int>()]); };
    auto id1 = [](SST::Activity* a) { return a ? json::array({ static_cast<Act*>(a)->id }) : json::array(); };
    for ( auto& o : s["l"] ) {
        std::string op = o["op"];
        json        r  = json::array();
        if ( op == "ins" ) tv->insert(mk(o));
        else if ( op == "pop" ) {
            SST::Activity* a = tv->pop();
            r                = id1(a);
            delete a;
        }
        else if ( op == "front" ) r = id1(tv->front());
        else if ( op == "size" ) r = { tv->size(), (int)tv->getCurrentDepth(), tv->empty() ? 1 : 0 };
        else if ( op == "contents" ) {
            std::vector<SST::Activity*> v;
            tv->getContents(v);
            for ( auto* a : v ) r.push_back(static_cast<Act*>(a)->id);
        }
        else if ( op == "par" ) {
            // other threads insert while the owner of the queue removes
            std::vector<std::vector<Act*>> acts;
            for ( auto& th : o["ins"] ) {
                acts.emplace_back();
                for ( auto& x : th ) acts.back().push_back(mk(x));
            }
            std::vector<std::thread> t;
            std::atomic<int>         ready { 0 };
            int                      all = acts.size();
            for ( auto& v : acts )
                t.emplace_back([&v, &tv, &ready, all] {
                    ++ready;
                    while ( ready < all ) {}
                    for ( auto* a : v ) tv->insert(a);
                });
            while ( ready < all ) {}
            for ( int n = o["pops"]; n > 0; --n ) {
                SST::Activity* a = tv->pop();
                r.push_back(a ? static_cast<Act*>(a)->id : -1);
                delete a;
            }
            for ( auto& x : t ) x.join();
        }
        o["r"] = r;
    }
    while ( !tv->empty() ) delete tv->pop();
    return s;
}
} // namespace
VF_DRIVER("vftv", drive)
