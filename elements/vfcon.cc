// vfcon: components with visible variables, driven through the debug console.
#include "vfcommon.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/statapi/stataccumulator.h"
#include <iostream>

namespace VFCON {
using namespace VF;

class HEvent : public SST::Event
{
public:
    int hops = 0;
    uint64_t x = 0;
    HEvent(int h, uint64_t v) : hops(h), x(v) {}
    HEvent() = default;
    Event* clone() override { return new HEvent(*this); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(hops); SST_SER(x); }
    ImplementSerializable(VFCON::HEvent)
};

class Api : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(VFCON::Api)
    Api(ComponentId_t id) : SubComponent(id) {}
    Api() = default;
    virtual ~Api() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(VFCON::Api);
};

template <class B>
class Body : public B
{
public:
    Body(ComponentId_t id, Params& p) : B(id)
    {
        path = p.find<std::string>("path", "?");
        end = p.find<uint64_t>("end", 0);
        seed = p.find<uint64_t>("seed", 1);
        still = p.find<int>("still", 2);
        a = p.find<int>("a", 0);
        for ( auto& x : split(p.find<std::string>("clocks", ""), ',') ) {
            if ( x.empty() ) continue;
            int q = periods.size();
            periods.push_back(x);
            this->registerClock(x, new Clock::Handler<Body, &Body::onClock, int>(this, q));
        }
        int n = p.find<int>("ports", 0);
        for ( int q = 0; q < n; ++q ) {
            Link* l = this->configureLink("p" + std::to_string(q), "1ps", new Event::Handler<Body, &Body::onEvent, int>(this, q));
            if ( l ) links.push_back(l);
        }
        self = this->configureSelfLink("self", "1ps", new Event::Handler<Body, &Body::onEvent, int>(this, 99));
        rng = new SST::RNG::MersenneRNG(seed);
        stat = this->template registerStatistic<uint64_t>("st");
        table = { { "one", 1 }, { "two", 2 } };
        vec = { 1, 2, 3 };
    }
    Body() = default;
    ~Body() { delete rng; }

    bool onClock(Cycle_t, int q)
    {
        uint64_t t = this->getCurrentSimCycle();
        if ( t <= end ) act("k" + periods[q], 0, true);
        if ( t > end ) return over(t);
        return false;
    }
    virtual bool over(uint64_t) { return true; }
    void onEvent(Event* ev, int q)
    {
        HEvent* e = static_cast<HEvent*>(ev);
        int h = e->hops;
        uint64_t x = e->x;
        delete ev;
        act("e" + std::to_string(q), x, h > 0);
        if ( h > 0 ) emit(h - 1);
    }
    void body_ser(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(path); SST_SER(end); SST_SER(seed); SST_SER(n); SST_SER(a); SST_SER(u); SST_SER(d); SST_SER(b); SST_SER(vec); SST_SER(table); SST_SER(text);
        SST_SER(links); SST_SER(self); SST_SER(rng); SST_SER(stat); SST_SER(periods); SST_SER(still);
    }

protected:
    std::string path, text = "start";
    uint64_t end = 0, seed = 1, n = 0;
    int still = 2;
    int32_t a = 0;
    uint64_t u = 0;
    double d = 0;
    bool b = false;
    std::vector<int> vec;
    std::map<std::string, int> table;
    std::vector<Link*> links;
    std::vector<std::string> periods;
    Link* self = nullptr;
    SST::RNG::MersenneRNG* rng = nullptr;
    Statistics::Statistic<uint64_t>* stat = nullptr;

    std::string vars() { return "[" + std::to_string(2LL * a) + "," + std::to_string(2 * u) + "," + std::to_string((long long)(2 * d)) + "," + std::to_string(2 * b) + "]"; }
    void act(const std::string& kind, uint64_t x, bool change)
    {
        std::string pre = vars();
        uint64_t r = mix(seed ^ mix(++n) ^ x ^ rng->generateNextUInt32());
        if ( change && still > 0 && (r >> 40) % still == 0 ) {
            a += (int)(r % 7) - 3;
            u = (u + (r >> 8) % 5) % 20;
            d += 0.5 * ((int)((r >> 16) % 5) - 2);
            b = (r >> 24) & 1;
            vec.push_back(r & 15);
            if ( vec.size() > 5 ) vec.resize(2);
            table["k" + std::to_string(r & 3)] = n;
            text = std::to_string(r);
        }
        stat->addData(u);
        std::string s = "{\"t\":" + std::to_string(this->getCurrentSimCycle()) + ",\"c\":\"" + this->getParentComponentName() + "\",\"o\":\"" + path + "\",\"k\":\"" + kind +
                        "\",\"pre\":" + pre + ",\"post\":" + vars() + ",\"r\":" + std::to_string(r & 0xffffff) + "}";
        std::cout << "@A " + s + "\n" << std::flush;
        log.line(path, s);
        last = r;
        if ( kind[0] == 'k' && (r >> 32) % 3 == 0 && this->getCurrentSimCycle() + 50000 < end ) emit(2 + (r >> 36) % 3);
    }
    void emit(int h)
    {
        if ( this->getCurrentSimCycle() > end ) return;
        uint64_t r = mix(last + 77);
        size_t q = r % (links.size() + 1);
        if ( q == links.size() ) self->send(1 + (r >> 8) % 4000, new HEvent(h, r));
        else links[q]->send((r >> 8) % 3 * 500, new HEvent(h, r));
    }
    uint64_t last = 0;
    Log log;
};

class Sub : public Body<Api>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vfcon", "Sub", SST_ELI_ELEMENT_VERSION(1, 0, 0), "part", VFCON::Api)
    SST_ELI_DOCUMENT_PARAMS({ "path", "", "" }, { "end", "", "" }, { "seed", "", "" }, { "clocks", "", "" }, { "ports", "", "" }, { "still", "", "" }, { "a", "", "" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "st", "", "", 1 })
    Sub(ComponentId_t id, Params& p) : Body<Api>(id, p) {}
    Sub() = default;
    void serialize_order(SST::Core::Serialization::serializer& s) override { Api::serialize_order(s); body_ser(s); }
    ImplementSerializable(VFCON::Sub)
};

class Node : public Body<SST::Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vfcon", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "component", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "path", "", "" }, { "end", "", "" }, { "seed", "", "" }, { "clocks", "", "" }, { "ports", "", "" }, { "still", "", "" }, { "a", "", "" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "st", "", "", 1 })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "part", "", "VFCON::Api" })
    Node(ComponentId_t id, Params& p) : Body<SST::Component>(id, p)
    {
        if ( auto* s = getSubComponentSlotInfo("part") ) { s->createAll<Api>(parts, ComponentInfo::SHARE_NONE); delete s; }
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    Node() = default;
    // everything has been delivered well before this
    bool over(uint64_t t) override
    {
        if ( t > end + 60000 && !said ) { said = true; primaryComponentOKToEndSim(); }
        return said;
    }
    void finish() override { log.line(path, "{\"fin\":" + vars() + "}"); std::cout << "@F {\"o\":\"" + path + "\"}\n" << std::flush; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Component::serialize_order(ser); body_ser(ser); SST_SER(parts); SST_SER(said); }
    ImplementSerializable(VFCON::Node)
private:
    std::vector<Api*> parts;
    bool said = false;
};
} // namespace VFCON
