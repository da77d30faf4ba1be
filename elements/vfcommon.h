// Shared pieces of the verification element library: event type, logging, small helpers.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/subcomponent.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/portModule.h"
#include "sst/core/params.h"
#include "sst/core/rng/rng.h"
#include "sst/core/serialization/serializable.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <typeinfo>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace VF {
using namespace SST;

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> out;
    std::string cur;
    for ( char x : s ) {
        if ( x == c ) { out.push_back(cur); cur.clear(); }
        else cur += x;
    }
    if ( !cur.empty() || !out.empty() ) out.push_back(cur);
    return out;
}

// One log file per component and process; a line is complete when written.
class Log
{
    FILE* f = nullptr;
    bool  tried = false;
public:
    void line(const std::string& who, const std::string& text)
    {
        if ( !tried ) {
            tried = true;
            const char* d = getenv("VF_OUT");
            if ( d ) {
                std::string p = std::string(d) + "/" + who + "." + std::to_string((long)getpid()) + ".log";
                f = fopen(p.c_str(), "a");
            }
        }
        if ( f ) { fputs(text.c_str(), f); fputc('\n', f); fflush(f); }
    }
    ~Log() { if ( f ) fclose(f); }
};

// Payload with redundancy so that a damaged payload is seen.
class VEvent : public SST::Event
{
public:
    int64_t              v = -1;
    std::string          s;
    std::vector<int64_t> w;
    VEvent() = default;
    explicit VEvent(int64_t x) { set(x); }
    void set(int64_t x)
    {
        v = x;
        s = "v" + std::to_string(x);
        w.assign(len(x), x * 3 + 1);
    }
    // bits 24 to 26 of the value choose the size
    static size_t len(int64_t x)
    {
        static const size_t extra[] = { 0, 3, 40, 200, 505, 520, 900, 4000 };
        return 1 + (x & 3) + (x < 0 ? 0 : extra[(x >> 24) & 7]);
    }
    bool ok() const
    {
        if ( s != "v" + std::to_string(v) ) return false;
        if ( w.size() != len(v) ) return false;
        for ( auto x : w ) if ( x != v * 3 + 1 ) return false;
        return true;
    }
    Event* clone() override { return new VEvent(*this); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(v);
        SST_SER(s);
        SST_SER(w);
    }
    ImplementSerializable(VF::VEvent);
};

// value of an event as logged: -2 an empty event, -3 a damaged or foreign one
inline int64_t val(Event* ev)
{
    if ( !ev ) return -2;
    if ( strstr(typeid(*ev).name(), "NullEvent") ) return -2;
    VEvent* e = dynamic_cast<VEvent*>(ev);
    if ( !e || !e->ok() ) return -3;
    return e->v;
}
} // namespace VF
#endif
