// vfpm.Node sends and receives by a script, vfpm.Mod is a port module that passes, changes, replaces or cancels by a plan.
#include "vfcommon.h"

namespace VFPM {
using namespace VF;

class Mod : public SST::PortModule
{
public:
    SST_ELI_REGISTER_PORTMODULE(Mod, "vfpm", "Mod", SST_ELI_ELEMENT_VERSION(1, 0, 0), "port module with a plan")
    SST_ELI_DOCUMENT_PARAMS({ "id", "", "0" }, { "who", "", "" }, { "send", "", "0" }, { "recv", "", "0" }, { "plan", "", "p" }, { "add", "", "0" })

    Mod(Params& p)
    {
        id = p.find<int>("id", 0); who = p.find<std::string>("who", ""); onS = p.find<bool>("send", false); onR = p.find<bool>("recv", false);
        plan = p.find<std::string>("plan", "p"); add = p.find<int64_t>("add", 0);
    }
    Mod() = default;
    bool installOnSend() override { return onS; }
    bool installOnReceive() override { return onR; }
    uintptr_t registerLinkAttachTool(const AttachPointMetaData&) override { return 1000 + id; }
    uintptr_t registerHandlerIntercept(const AttachPointMetaData&) override { return 2000 + id; }
    void serializeEventAttachPointKey(SST::Core::Serialization::serializer& ser, uintptr_t& key) override { SST_SER(key); }
    void serializeHandlerInterceptPointKey(SST::Core::Serialization::serializer& ser, uintptr_t& key) override { SST_SER(key); }
    void eventSent(uintptr_t key, Event*& ev) override { bool c = false; act('s', key == (uintptr_t)(1000 + id), ev, c); }
    void interceptHandler(uintptr_t key, Event*& ev, bool& cancel) override { act('r', key == (uintptr_t)(2000 + id), ev, cancel); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        PortModule::serialize_order(ser);
        SST_SER(id); SST_SER(who); SST_SER(onS); SST_SER(onR); SST_SER(plan); SST_SER(add); SST_SER(n);
    }
    ImplementSerializable(VFPM::Mod)

private:
    void act(char side, bool good, Event*& ev, bool& cancel)
    {
        int64_t v = val(ev);
        char d = plan[n % plan.size()];
        char b[300];
        snprintf(b, sizeof b, "{\"x\":\"mod\",\"s\":\"%c\",\"t\":%lld,\"m\":%d,\"v\":%lld,\"d\":\"%c\",\"n\":%lld,\"g\":%d}", side, (long long)getCurrentSimCycle(), id,
            (long long)v, d, (long long)n, (int)good);
        log.line(who, b);
        ++n;
        if ( d == 'm' ) static_cast<VEvent*>(ev)->set(v + add);
        else if ( d == 'x' ) {
            Event* e = new VEvent(v + add);
            e->copyAllDeliveryInfo(ev);
            delete ev;
            ev = e;
        }
        else if ( d == 'c' ) {
            delete ev;
            ev = nullptr;
            cancel = true;
        }
    }
    int id = 0;
    std::string who, plan = "p";
    bool onS = false, onR = false;
    int64_t add = 0, n = 0;
    Log log;
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vfpm", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sends and receives", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "unit", "", "1" }, { "kinds", "", "" }, { "runs", "", "" }, { "end", "", "10" }, { "reply", "", "0" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& p) : Component(id)
    {
        end = p.find<int64_t>("end", 10);
        unit = p.find<int64_t>("unit", 1);
        reply = p.find<int>("reply", 0);
        std::string tb = std::to_string(unit) + "ps";
        kinds = p.find<std::string>("kinds", "");
        for ( size_t i = 0; i < kinds.size(); ++i ) {
            std::string n = "p" + std::to_string(i);
            if ( kinds[i] == 'p' ) ports.push_back(configureLink(n, tb));
            else ports.push_back(configureLink(n, tb, new Event::Handler<Node, &Node::onEvent, int>(this, (int)i)));
        }
        // t:port:value:delay
        for ( auto& x : split(p.find<std::string>("runs", ""), ',') ) {
            if ( x.empty() ) continue;
            for ( auto& y : split(x, ':') ) runs.push_back(atoll(y.c_str()));
        }
        registerClock(tb, new Clock::Handler<Node, &Node::onClock>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    Node() : Component() {}

    bool onClock(Cycle_t c)
    {
        for ( size_t i = 0; i < ports.size(); ++i )
            while ( kinds[i] == 'p' ) {
                Event* ev = ports[i]->recv();
                if ( !ev ) break;
                got(ev, i);
            }
        for ( size_t i = 0; i + 3 < runs.size(); i += 4 )
            if ( runs[i] == (int64_t)c ) send(runs[i + 1], runs[i + 2], runs[i + 3]);
        if ( (int64_t)c == end ) primaryComponentOKToEndSim();
        return false;
    }
    void onEvent(Event* ev, int port) { got(ev, port); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(unit); SST_SER(end); SST_SER(kinds); SST_SER(ports); SST_SER(runs); SST_SER(reply); SST_SER(made);
    }
    ImplementSerializable(VFPM::Node)

private:
    void put(const char* x, int port, int64_t v, int64_t d)
    {
        char b[300];
        snprintf(b, sizeof b, "{\"x\":\"%s\",\"t\":%lld,\"p\":%d,\"v\":%lld,\"d\":%lld}", x, (long long)getCurrentSimCycle(), port, (long long)v, (long long)d);
        log.line(getName(), b);
    }
    void send(int port, int64_t v, int64_t d)
    {
        put("snd", port, v, d * unit);
        ports[port]->send(d, new VEvent(v));
    }
    void got(Event* ev, int port)
    {
        put("got", port, val(ev), 0);
        delete ev;
        // a chain of events: every few received ones are answered
        if ( reply && ++made % reply == 0 && made < 40 ) send((port + made) % ports.size(), 50000 + 1000 * (getId() % 40) + made, made % 3);
    }
    int64_t unit = 1, end = 10;
    int reply = 0, made = 0;
    std::string kinds;
    std::vector<Link*> ports;
    std::vector<int64_t> runs;
    Log log;
};
} // namespace VFPM
