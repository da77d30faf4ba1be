// Quantities with units and their conversion to core time.
#include "vfapi.h"
#include <sst/core/serialization/serializer.h>
#include <sst/core/simulation.h>
#include <sst/core/timeConverter.h>
#include <sst/core/timeLord.h>
#include <sst/core/unitAlgebra.h>
#include <atomic>
#include <map>
#include <stdexcept>
#include <thread>
#include <vector>

namespace {
using SST::TimeConverter;
using SST::UnitAlgebra;

struct World
{
    std::map<int, UnitAlgebra> o;

    template <class F>
    void refusable(json& c, F f)
    {
        try {
            f();
            c["kind"] = "ok";
        }
        catch ( const UnitAlgebra::NonMatchingUnits& ) { c["kind"] = "refused"; }
    }
    template <class F>
    std::string test(F f)
    {
        try { return f() ? "1" : "0"; }
        catch ( const UnitAlgebra::NonMatchingUnits& ) { return "refused"; }
    }
    template <class F>
    void factor(json& c, F f)
    {
        uint64_t n = 0;
        try {
            n         = f();
            c["kind"] = "ok";
        }
        catch ( const std::underflow_error& ) { c["kind"] = "small"; }
        catch ( const std::overflow_error& ) { c["kind"] = "large"; }
        catch ( const std::invalid_argument& ) { c["kind"] = "unit"; }
        c["m"] = std::to_string(n);
    }

    void call(json& c)
    {
        std::string op = c["op"];
        int         d = c.value("o", 0), a = c.value("a", 0), b = c.value("b", 0);
        json        r  = "";
        auto        full = [&](int i) { return json(o.at(i).toString(0)); };
        if ( op == "set" ) {
            if ( c["how"] == "assign" ) o[d] = c["t"]["x"].get<std::string>();
            else o[d] = UnitAlgebra(c["t"]["x"].get<std::string>());
            r = full(d);
        }
        else if ( op == "copy" ) { UnitAlgebra x(o.at(a)); o[d] = x; r = full(d); }
        else if ( op == "add" ) refusable(c, [&] { o[d] = o.at(a) + o.at(b); r = full(d); });
        else if ( op == "sub" ) refusable(c, [&] { o[d] = o.at(a) - o.at(b); r = full(d); });
        else if ( op == "mul" ) { o[d] = o.at(a) * o.at(b); r = full(d); }
        else if ( op == "times" ) {
            if ( c["n"]["neg"] == 1 ) o[d] = o.at(a) * std::stoll("-" + c["n"]["x"].get<std::string>());
            else o[d] = o.at(a) * std::stoull(c["n"]["x"].get<std::string>());
            r = full(d);
        }
        else if ( op == "div" ) { o[d] = o.at(a) / o.at(b); r = full(d); }
        else if ( op == "inv" ) { UnitAlgebra x = o.at(a); x.invert(); o[d] = x; r = full(d); }
        else if ( op == "cmp" ) {
            const UnitAlgebra &x = o.at(a), &y = o.at(b);
            r = { test([&] { return x == y; }), test([&] { return x != y; }), test([&] { return x < y; }),
                test([&] { return x > y; }), test([&] { return x <= y; }), test([&] { return x >= y; }) };
        }
        else if ( op == "has" ) r = o.at(a).hasUnits(c["x"]) ? 1 : 0;
        else if ( op == "zero" ) r = o.at(a).isValueZero() ? 1 : 0;
        else if ( op == "round" ) r = std::to_string(o.at(a).getRoundedValue());
        else if ( op == "double" ) {
            char buf[64];
            snprintf(buf, sizeof(buf), "%.20e", o.at(a).getDoubleValue());
            r = buf;
        }
        else if ( op == "str" ) r = o.at(a).toString(c["p"]);
        else if ( op == "best" ) r = o.at(a).toStringBestSI(c["p"]);
        else if ( op == "ser" ) {
            using namespace SST::Core::Serialization;
            UnitAlgebra       x;
            std::vector<char> buf;
            size_t            n = 0;
            {
                serializer ser;
                ser.start_sizing();
                SST_SER(o.at(a));
                n = ser.size();
                buf.resize(n + 8);
                ser.start_packing(buf.data(), n);
                SST_SER(o.at(a));
            }
            serializer ser;
            ser.start_unpacking(buf.data(), n);
            SST_SER(x);
            o[d] = x;
            r    = full(d);
        }
        else if ( op == "factor" ) {
            SST::TimeLord* tl = SST::Simulation::getTimeLord();
            std::string    how = c["how"];
            if ( how == "text" ) {
                std::string x = c["t"]["x"];
                int         v = c["via"];
                factor(c, [&]() -> uint64_t {
                    if ( v == 0 ) return TimeConverter(x).getFactor();
                    if ( v == 1 ) return tl->getSimCycles(x, "vf");
                    if ( v == 2 ) return tl->getTimeConverter(x).getFactor();
                    return TimeConverter(UnitAlgebra(x)).getFactor();
                });
            }
            else factor(c, [&] { return c["via"] == 0 ? TimeConverter(o.at(a)).getFactor() : tl->getTimeConverter(o.at(a)).getFactor(); });
        }
        else if ( op == "conv" ) {
            TimeConverter tc = SST::Simulation::getTimeLord()->getTimeConverter(c["x"].get<std::string>());
            c["m"]    = std::to_string(tc.getFactor());
            c["to"]   = std::to_string(tc.convertToCoreTime(std::stoull(c["c"].get<std::string>())));
            c["from"] = std::to_string(tc.convertFromCoreTime(std::stoull(c["t"].get<std::string>())));
        }
        c["r"] = r;
    }
    void all(json& l) { for ( auto& c : l ) call(c); }
};

json
drive(json s)
{
    if ( !s.contains("par") ) {
        World w;
        w.all(s["l"]);
        return s;
    }
    std::vector<std::thread> t;
    std::atomic<int>         ready { 0 };
    int                      n = s["par"].size();
    for ( auto& x : s["par"] )
        t.emplace_back([&] {
            World w;
            ++ready;
            while ( ready < n ) {}
            w.all(x["l"]);
        });
    for ( auto& x : t ) x.join();
    return s;
}
} // namespace
VF_DRIVER("vfuni", drive)
