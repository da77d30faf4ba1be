// vflc.Node: scripted untimed data in the initialization and completion phases; logs every lifecycle call with its wall time.
#include "vfcommon.h"
#include <time.h>
#include <unistd.h>

namespace VFLC {
using namespace VF;

class Ev : public SST::Event
{
public:
    Ev() {}
    Ev(int id, int n) : id(id), body(n) { for ( int i = 0; i < n; ++i ) body[i] = fill(i); }
    int fill(int i) const { return id * 31 + i * 7; }
    bool good() const
    {
        for ( size_t i = 0; i < body.size(); ++i ) if ( body[i] != fill(i) ) return false;
        return true;
    }
    int id = 0;
    std::vector<int> body;
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(id); SST_SER(body);
    }
    ImplementSerializable(VFLC::Ev)
};

struct Op
{
    char s = 0;      // i or c
    int ph = 0;
    char k = 0;      // s(end), r(eceive n), z (sleep)
    int port = 0, v = 0, n = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(s); SST_SER(ph); SST_SER(k); SST_SER(port); SST_SER(v); SST_SER(n);
    }
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vflc", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "lifecycle driver", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "unit", "", "1" }, { "ports", "", "" }, { "script", "", "" }, { "runs", "", "" }, { "end", "", "10" }, { "first", "", "0" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& p) : Component(id)
    {
        mark("b", 0, 0);
        unit = p.find<int64_t>("unit", 1);
        end  = p.find<int64_t>("end", 10);
        std::string tb = std::to_string(unit) + "ps";
        // one letter per port: h(andler), p(olled), s(elf)
        std::string kinds = p.find<std::string>("ports", "");
        for ( size_t i = 0; i < kinds.size(); ++i ) {
            std::string n = "p" + std::to_string(i);
            if ( kinds[i] == 's' ) ports.push_back(configureSelfLink(n, tb, new Event::Handler<Node, &Node::onEvent>(this)));
            else if ( kinds[i] == 'p' ) ports.push_back(configureLink(n, tb));
            else ports.push_back(configureLink(n, tb, new Event::Handler<Node, &Node::onEvent>(this)));
        }
        for ( auto& x : split(p.find<std::string>("script", ""), ',') ) {
            if ( x.empty() ) continue;
            auto f = split(x, ':');
            Op o;
            o.s = f[0][0]; o.ph = atoi(f[1].c_str()); o.k = f[2][0]; o.port = atoi(f[3].c_str()); o.v = atoi(f[4].c_str()); o.n = atoi(f[5].c_str());
            ops.push_back(o);
        }
        // t:port:delay : send at time t
        for ( auto& x : split(p.find<std::string>("runs", ""), ',') ) {
            if ( x.empty() ) continue;
            auto f = split(x, ':');
            for ( auto& y : f ) runs.push_back(atoll(y.c_str()));
        }
        registerClock(tb, new Clock::Handler<Node, &Node::onClock>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        mark("e", 0, 0);
    }
    Node() : Component() {}
    ~Node() {}

    void init(unsigned int ph) override { phase('i', 1, ph); }
    void setup() override { mark("b", 2, 0); nap(); mark("e", 2, 0); }
    void complete(unsigned int ph) override { phase('c', 4, ph); }
    void finish() override { mark("b", 5, 0); mark("e", 5, 0); }

    bool onClock(Cycle_t c)
    {
        mark("run", 3, 0);
        for ( size_t i = 0; i + 2 < runs.size(); i += 3 )
            if ( runs[i] == (int64_t)c ) ports[runs[i + 1]]->send(runs[i + 2], new Ev(-1, 1));
        if ( (int64_t)c == end ) primaryComponentOKToEndSim();
        return false;
    }
    void onEvent(Event* ev)
    {
        mark("run", 3, 0);
        Ev* e = dynamic_cast<Ev*>(ev);
        if ( !e || e->id != -1 ) mark("bad", 3, 0);
        delete ev;
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(unit); SST_SER(end); SST_SER(ports); SST_SER(ops); SST_SER(runs);
    }
    ImplementSerializable(VFLC::Node)

private:
    void nap() { for ( auto& o : ops ) if ( o.s == 'z' ) usleep(o.n); }
    void mark(const char* x, int s, int ph, int q = 0, int v = 0, bool good = true)
    {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        char b[300];
        snprintf(b, sizeof b, "{\"x\":\"%s\",\"s\":%d,\"ph\":%d,\"q\":%d,\"v\":%d,\"g\":%d,\"r\":%u,\"ts\":%lld}", x, s, ph, q, v, (int)good,
            getRank().rank, (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec);
        log.line(getName(), b);
    }
    void phase(char st, int s, int ph)
    {
        mark("b", s, ph);
        bool any = false;
        int last = 0;
        for ( auto& o : ops ) {
            if ( o.s != st ) continue;
            last = std::max(last, o.ph);
            if ( o.ph != ph ) continue;
            any = true;
            if ( o.k == 'z' ) usleep(o.n);
            else if ( o.k == 's' ) {
                mark("send", s, ph, o.port, o.v);
                ports[o.port]->sendUntimedData(new Ev(o.v, o.n));
            }
            else recv(s, ph, o.port, o.n);
        }
        // after the script: read everything
        if ( ph > last ) for ( size_t i = 0; i < ports.size(); ++i ) recv(s, ph, i, 0);
        (void)any;
        mark("e", s, ph);
    }
    void recv(int s, int ph, int port, int n)
    {
        for ( int i = 0; n == 0 || i < n; ++i ) {
            Event* ev = ports[port]->recvUntimedData();
            Ev* e = dynamic_cast<Ev*>(ev);
            if ( ev && !e ) { mark("bad", s, ph, port, 0); delete ev; continue; }
            mark("recv", s, ph, port, e ? e->id : 0, e ? e->good() : true);
            if ( !e ) break;
            delete e;
        }
    }
    int64_t unit = 1, end = 10;
    std::vector<Link*> ports;
    std::vector<Op> ops;
    std::vector<int64_t> runs;
    Log log;
};
} // namespace VFLC
