// Parameter sets.  Model descriptions and the configuration graph reach the
// shared sets through private members of Params; so does this driver.
#include <algorithm>
#include <atomic>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <sst/core/sst_config.h>
#include <sst/core/from_string.h>
#include <sst/core/serialization/serializable.h>
#include <sst/core/serialization/serializer.h>
#include <sst/core/threadsafe.h>
#define private public
#include <sst/core/params.h>
#undef private
#include "vfapi.h"
#include <sst/core/unitAlgebra.h>

namespace {
using SST::Params;

std::string
text(const json& k)
{
    std::string s;
    for ( size_t i = 0; i < k.size(); ++i ) s += (i ? "." : "") + k[i].get<std::string>();
    return s;
}
json
segs(const std::string& s)
{
    json r = json::array();
    size_t b = 0, e;
    while ( (e = s.find('.', b)) != std::string::npos ) { r.push_back(s.substr(b, e - b)); b = e + 1; }
    r.push_back(s.substr(b));
    return r;
}

template <class T>
std::string
show(const T& v)
{
    if constexpr ( std::is_same_v<T, std::string> ) return v;
    else if constexpr ( std::is_same_v<T, bool> ) return v ? "true" : "false";
    else if constexpr ( std::is_floating_point_v<T> ) {
        char buf[64];
        double d = v;
        uint64_t b;
        memcpy(&b, &d, 8);
        snprintf(buf, sizeof(buf), "%016llx", (unsigned long long)b);
        return buf;
    }
    else return std::to_string(v);
}

template <class F>
void
as(const std::string& t, F f)
{
    if ( t == "str" ) f(std::string());
    else if ( t == "bool" ) f(bool());
    else if ( t == "i8" ) f(int8_t());
    else if ( t == "i16" ) f(int16_t());
    else if ( t == "i32" ) f(int32_t());
    else if ( t == "i64" ) f(int64_t());
    else if ( t == "ll" ) f((long long)0);
    else if ( t == "u8" ) f(uint8_t());
    else if ( t == "u16" ) f(uint16_t());
    else if ( t == "u32" ) f(uint32_t());
    else if ( t == "u64" ) f(uint64_t());
    else if ( t == "ull" ) f((unsigned long long)0);
    else if ( t == "f64" ) f(double());
    else f(float());
}

struct World
{
    std::map<int, Params> o;

    json lookup(const json& c)
    {
        Params&     p = o.at(c["o"]);
        std::string k = text(c["k"]), form = c["form"], r;
        try {
            as(c["t"], [&](auto z) {
                using T = decltype(z);
                std::string d = c["d"];
                bool        found = true;
                T           v;
                T           dv = form == "txt" || form == "txtf" || form == "none" ? T() : SST::Core::from_string<T>(d);
                if ( form == "none" ) v = p.find<T>(k);
                else if ( form == "txt" ) v = p.find<T>(k, d);
                else if ( form == "txtf" ) v = p.find<T>(k, d, found);
                else if ( form == "valf" ) v = p.find<T>(k, dv, found);
                else v = p.find<T>(k, dv);
                r = show(v) + (form.back() == 'f' ? (found ? " found" : " absent") : "");
            });
        }
        catch ( const std::logic_error& ) { r = "refused"; }
        return json::array({ r });
    }

    json list(const json& c)
    {
        Params&     p = o.at(c["o"]);
        std::string k = text(c["k"]), how = c["as"];
        json        r = json::array();
        try {
            as(c["t"], [&](auto z) {
                using T = decltype(z);
                if ( how == "array" ) {
                    std::vector<T> v(2);
                    p.find_array<T>(k, v);
                    for ( T x : v ) r.push_back(show(x));
                }
                else if ( how == "set" ) {
                    std::set<T> v;
                    v.insert(T());
                    p.find_set<T>(k, v);
                    for ( T x : v ) r.push_back(show(x));
                }
                else {
                    std::map<std::string, T> v;
                    v["zz"] = T();
                    p.find_map<std::string, T>(k, v);
                    for ( auto& x : v ) r.push_back(json::array({ x.first, show(x.second) }));
                }
            });
        }
        catch ( const std::logic_error& ) { return how == "map" ? json::array({ json::array({ "refused", "" }) }) : json::array({ "refused" }); }
        return r;
    }

    json copy(Params& from, Params& to, bool tracked)
    {
        using namespace SST::Core::Serialization;
        serializer s;
        if ( tracked ) s.enable_pointer_tracking();
        s.start_sizing();
        from.serialize_order(s);
        size_t n = s.size();
        std::vector<char> buf(n + 8, 'x');
        s.start_packing(buf.data(), n);
        from.serialize_order(s);
        size_t w = s.size();
        serializer u;
        if ( tracked ) u.enable_pointer_tracking();
        u.start_unpacking(buf.data(), n);
        to.serialize_order(u);
        return json::array({ w == n && u.size() == n ? "whole" : "partial" });
    }

    void call(json& c)
    {
        std::string op = c["op"];
        json        r  = json::array();
        int         i  = c.value("o", 0);
        if ( op == "new" ) o[i] = Params();
        else if ( op == "copy" ) { Params p(o.at(c["from"])); o[i] = p; }
        else if ( op == "assign" ) { const Params& f = o.at(c["from"]); o.at(i) = f; }
        else if ( op == "insert" ) o.at(i).insert(text(c["k"]), c["v"]["x"], c["ow"].get<int>());
        else if ( op == "merge" ) o.at(i).insert(o.at(c["from"]));
        else if ( op == "addset" ) o.at(i).addSharedParamSet(c["set"]);
        else if ( op == "share" ) Params::insert_shared(c["set"], text(c["k"]), c["v"]["x"], c["ow"].get<int>());
        else if ( op == "clear" ) o.at(i).clear();
        else if ( op == "scope" ) { Params p = o.at(c["from"]).get_scoped_params(text(c["k"])); o[i] = p; }
        else if ( op == "find" ) r = lookup(c);
        else if ( op == "list" ) r = list(c);
        else if ( op == "isarr" ) r.push_back(o.at(i).is_value_array(text(c["k"])) ? 1 : 0);
        else if ( op == "has" ) r = { (int)o.at(i).count(text(c["k"])), o.at(i).contains(text(c["k"])) ? 1 : 0 };
        else if ( op == "keys" ) for ( auto& k : o.at(i).getKeys() ) r.push_back(segs(k));
        else if ( op == "local" ) for ( auto& k : o.at(i).getLocalKeys() ) r.push_back(segs(k));
        else if ( op == "sets" ) for ( auto& k : o.at(i).getSubscribedSharedParamSets() ) r.push_back(k);
        else if ( op == "size" ) r = { (int)o.at(i).size(), o.at(i).empty() ? 1 : 0 };
        else if ( op == "ser" ) {
            Params p;
            r    = copy(o.at(c["from"]), p, c["tracked"].get<int>());
            o[i] = p;
        }
        c["r"] = r;
    }
    void all(json& l) { for ( auto& c : l ) call(c); }
};

json
drive(json s)
{
    if ( !s.contains("par") ) {
        World w;
        w.all(s["l"]);
        return s;
    }
    std::vector<std::thread> t;
    std::atomic<int>         ready { 0 };
    int                      n = s["par"].size();
    for ( auto& x : s["par"] )
        t.emplace_back([&] {
            World w;
            ++ready;
            while ( ready < n ) {}
            w.all(x["l"]);
        });
    for ( auto& x : t ) x.join();
    return s;
}
} // namespace
VF_DRIVER("vfpar", drive)
