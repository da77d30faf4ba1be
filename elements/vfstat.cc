// vfstat.Node: adds scripted data to statistics of every type and logs what it did and when.
#include "vfcommon.h"
#include <sst/core/statapi/statbase.h>

namespace VFStat {
using namespace VF;
using SST::Statistics::Statistic;
using SST::Statistics::StatisticBase;

// One statistic, with the kind of number it holds. The value given to it is v * mul / div.
struct Stat
{
    std::string          name, sub;
    int                  kind = 0;
    int64_t              mul = 1, div = 1;
    Statistic<int32_t>*  i32 = nullptr;
    Statistic<uint32_t>* u32 = nullptr;
    Statistic<int64_t>*  i64 = nullptr;
    Statistic<uint64_t>* u64 = nullptr;
    Statistic<float>*    f32 = nullptr;
    Statistic<double>*   f64 = nullptr;

    StatisticBase* base()
    {
        switch ( kind ) {
        case 0: return i32;
        case 1: return u32;
        case 2: return i64;
        case 3: return u64;
        case 4: return f32;
        default: return f64;
        }
    }
    template <class F>
    void with(F f)
    {
        switch ( kind ) {
        case 0: f(i32); break;
        case 1: f(u32); break;
        case 2: f(i64); break;
        case 3: f(u64); break;
        case 4: f(f32); break;
        default: f(f64);
        }
    }
    template <class T>
    T val(int64_t v)
    {
        if constexpr ( std::is_floating_point_v<T> ) return (T)v * (T)mul / (T)div;
        else return (T)(v * mul);
    }
    void add(int64_t v) { with([&](auto* s) { s->addData(val<typename std::remove_pointer_t<decltype(s)>::Datum>(v)); }); }
    void addn(int64_t v, uint64_t n)
    {
        with([&](auto* s) { s->addDataNTimes(n, val<typename std::remove_pointer_t<decltype(s)>::Datum>(v)); });
    }
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(name); SST_SER(sub); SST_SER(kind); SST_SER(mul); SST_SER(div);
        switch ( kind ) {
        case 0: SST_SER(i32); break;
        case 1: SST_SER(u32); break;
        case 2: SST_SER(i64); break;
        case 3: SST_SER(u64); break;
        case 4: SST_SER(f32); break;
        default: SST_SER(f64);
        }
    }
};

struct Op
{
    int64_t t = 0;
    char    op = 0;
    int     s = 0;
    int64_t v = 0, n = 0;
    void    serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(t); SST_SER(op); SST_SER(s); SST_SER(v); SST_SER(n);
    }
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vfstat", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "statistics driver", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "unit", "time unit in core steps", "1" }, { "stats", "", "" }, { "script", "", "" }, { "clk", "", "0" })
    SST_ELI_DOCUMENT_STATISTICS({ "s0", "", "x", 1 }, { "s1", "", "x", 2 }, { "s2", "", "x", 3 }, { "s3", "", "x", 4 },
        { "s4", "", "x", 5 }, { "s5", "", "x", 6 }, { "s6", "", "x", 7 }, { "s7", "", "x", 8 })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& p) : Component(id)
    {
        unit = p.find<int64_t>("unit", 1);
        clk  = p.find<int64_t>("clk", 0);
        static const std::vector<std::string> kinds = { "i32", "u32", "i64", "u64", "f32", "f64" };
        // name:subid:kind:mul:div,...
        for ( auto& x : split(p.find<std::string>("stats", ""), ',') ) {
            if ( x.empty() ) continue;
            auto f = split(x, ':');
            Stat s;
            s.name = f[0];
            s.sub  = f[1];
            for ( size_t i = 0; i < kinds.size(); ++i ) if ( kinds[i] == f[2] ) s.kind = i;
            s.mul = atoll(f[3].c_str());
            s.div = atoll(f[4].c_str());
            switch ( s.kind ) {
            case 0: s.i32 = registerStatistic<int32_t>(s.name, s.sub); break;
            case 1: s.u32 = registerStatistic<uint32_t>(s.name, s.sub); break;
            case 2: s.i64 = registerStatistic<int64_t>(s.name, s.sub); break;
            case 3: s.u64 = registerStatistic<uint64_t>(s.name, s.sub); break;
            case 4: s.f32 = registerStatistic<float>(s.name, s.sub); break;
            default: s.f64 = registerStatistic<double>(s.name, s.sub);
            }
            stats.push_back(s);
        }
        // t:op:stat:value:n,...
        for ( auto& x : split(p.find<std::string>("script", ""), ',') ) {
            if ( x.empty() ) continue;
            auto f = split(x, ':');
            Op   o;
            o.t  = atoll(f[0].c_str());
            o.op = f[1][0];
            o.s  = atoi(f[2].c_str());
            o.v  = atoll(f[3].c_str());
            o.n  = atoll(f[4].c_str());
            ops.push_back(o);
        }
        std::string tb = std::to_string(unit) + "ps";
        self = configureSelfLink("self", tb, new Event::Handler<Node, &Node::onEvent>(this));
        for ( int i = 0; i < 2; ++i ) {
            Link* l = configureLink("p" + std::to_string(i), tb, new Event::Handler<Node, &Node::onPort>(this));
            if ( l ) links.push_back(l);
        }
        if ( clk ) registerClock(std::to_string(unit * clk) + "ps", new Clock::Handler<Node, &Node::onClock>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    Node() : Component() {}
    void setup() override
    {
        run(0);
        next();
    }
    void onEvent(Event* ev)
    {
        delete ev;
        run(now());
        next();
    }
    bool onClock(Cycle_t)
    {
        run(now());
        return done;
    }
    void onPort(Event* ev) { delete ev; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(unit); SST_SER(clk); SST_SER(pos); SST_SER(done); SST_SER(stats); SST_SER(ops); SST_SER(self); SST_SER(links);
    }
    ImplementSerializable(VFStat::Node)

private:
    int64_t now() { return getCurrentSimTime("1ps") / unit; }
    // the next event is due at the next time of the script that a clock does not serve
    void next()
    {
        size_t p = pos;
        while ( p < ops.size() && clk && ops[p].t % clk == 0 ) ++p;
        if ( p < ops.size() ) self->send(ops[p].t - now(), nullptr);
    }
    void run(int64_t t)
    {
        for ( ; pos < ops.size() && ops[pos].t <= t; ++pos ) {
            Op& o = ops[pos];
            log.line(getName(), "{\"t\":" + std::to_string(now()) + ",\"i\":" + std::to_string(pos) + "}");
            switch ( o.op ) {
            case 'a': stats[o.s].add(o.v); break;
            case 'n': stats[o.s].addn(o.v, o.n); break;
            case 'e': stats[o.s].base()->enable(); break;
            case 'd': stats[o.s].base()->disable(); break;
            case 'o': performStatisticOutput(stats[o.s].base()); break;
            case 'g': performGlobalStatisticOutput(); break;
            case 'c': stats[o.s].base()->clearStatisticData(); break;
            case 'f': stats[o.s].base()->setFlagOutputAtEndOfSim(o.v); break;
            case 'r': stats[o.s].base()->setFlagClearDataOnOutput(o.v); break;
            case 'x': done = true; primaryComponentOKToEndSim(); break;
            }
        }
    }
    int64_t            unit = 1, clk = 0;
    size_t             pos  = 0;
    bool               done = false;
    std::vector<Stat>  stats;
    std::vector<Op>    ops;
    Link*              self = nullptr;
    std::vector<Link*> links;
    Log                log;
};
} // namespace VFStat
