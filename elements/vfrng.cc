#include "vfapi.h"
#include <sst/core/rng/constant.h>
#include <sst/core/rng/discrete.h>
#include <sst/core/rng/expon.h>
#include <sst/core/rng/gaussian.h>
#include <sst/core/rng/marsaglia.h>
#include <sst/core/rng/mersenne.h>
#include <sst/core/rng/poisson.h>
#include <sst/core/rng/uniform.h>
#include <sst/core/rng/xorshift.h>
#include <sst/core/serialization/serialize.h>
#include <cstring>
#include <map>
#include <thread>
using namespace SST::RNG;

namespace {
std::string hex(uint64_t v)
{
    char b[32];
    snprintf(b, sizeof b, "%llx", (unsigned long long)v);
    return b;
}
std::string hexd(double d)
{
    uint64_t v;
    memcpy(&v, &d, 8);
    return hex(v);
}

// a generator with distributions that draw from it
struct Unit : public SST::Core::Serialization::serializable
{
    Random*                          r = nullptr;
    std::vector<RandomDistribution*> d;
    std::string                      script;
    uint64_t                         pos = 0;

    Unit() {}
    Unit(const json& c)
    {
        std::string t = c["rng"];
        uint64_t    s = c["seed"];
        if ( t == "mersenne" ) r = new MersenneRNG(s);
        else if ( t == "xorshift" ) r = new XORShiftRNG(s);
        else if ( t == "marsaglia" ) r = new MarsagliaRNG(s, s * 7 + 3);
        for ( auto& x : c["d"] ) {
            std::string k = x[0];
            if ( k == "gauss" ) d.push_back(new GaussianDistribution(x[1], x[2], r));
            else if ( k == "expon" ) d.push_back(new ExponentialDistribution(x[1], r));
            else if ( k == "poisson" ) d.push_back(new PoissonDistribution(x[1], r));
            else if ( k == "uniform" ) d.push_back(new UniformDistribution(x[1].get<uint32_t>(), r));
            else if ( k == "constant" ) d.push_back(new ConstantDistribution(x[1]));
            else if ( k == "discrete" ) {
                std::vector<double> p = x[1];
                d.push_back(new DiscreteDistribution(p.data(), p.size(), r));
            }
        }
        script = c["script"];
    }
    ~Unit()
    {
        for ( auto* x : d ) delete x;
        delete r;
    }
    void seed(uint64_t s)
    {
        if ( auto* m = dynamic_cast<MersenneRNG*>(r) ) m->seed(s);
        if ( auto* m = dynamic_cast<XORShiftRNG*>(r) ) m->seed(s);
        if ( auto* m = dynamic_cast<MarsagliaRNG*>(r) ) m->restart(s, s * 7 + 3);
        pos = 0;
    }
    std::string draw()
    {
        char c = script[pos++ % script.size()];
        switch ( c ) {
        case 'u': return hexd(r->nextUniform());
        case '3': return hex(r->generateNextUInt32());
        case '6': return hex(r->generateNextUInt64());
        case 'i': return hex((uint64_t)r->generateNextInt64());
        case 'j': return hex((uint32_t)r->generateNextInt32());
        default: return hexd(d[c - 'A']->getNextDouble());
        }
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SST_SER(r);
        SST_SER(d);
        SST_SER(script);
        SST_SER(pos);
    }
    ImplementSerializable(Unit)
};

Unit*
copy(Unit* u)
{
    SST::Core::Serialization::serializer ser;
    ser.enable_pointer_tracking();
    ser.start_sizing();
    SST_SER(u);
    std::vector<char> buf(ser.size());
    ser.start_packing(buf.data(), buf.size());
    SST_SER(u);
    Unit* c = nullptr;
    ser.enable_pointer_tracking();
    ser.start_unpacking(buf.data(), buf.size());
    SST_SER(c);
    return c;
}

void
runSeq(json& s)
{
    std::map<int, Unit*> u;
    for ( auto& o : s["l"] ) {
        std::string op = o["op"];
        int         i  = o["u"];
        json        r  = json::array();
        if ( op == "new" ) u[i] = new Unit(o["c"]);
        else if ( op == "draw" ) for ( int n = o["n"]; n > 0; --n ) r.push_back(u[i]->draw());
        else if ( op == "seed" ) u[i]->seed(o["s"].get<uint64_t>());
        else if ( op == "copy" ) u[o["to"].get<int>()] = copy(u[i]);
        else if ( op == "del" ) { delete u[i]; u.erase(i); }
        o["r"] = r;
    }
    for ( auto& x : u ) delete x.second;
}

json
drive(json s)
{
    if ( s.contains("par") ) {
        std::vector<std::thread> t;
        for ( auto& p : s["par"] ) t.emplace_back([&p] { runSeq(p); });
        for ( auto& x : t ) x.join();
    }
    else runSeq(s);
    return s;
}
} // namespace
VF_DRIVER("vfrng", drive)
