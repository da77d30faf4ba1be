#include "vfapi.h"
#include <sst/core/mempool.h>
#include <sst/core/mempoolAccessor.h>
#include <sst/core/output.h>
#include <algorithm>
#include <atomic>
#include <cstring>
#include <functional>
#include <thread>

namespace {
std::vector<int> printed;

struct Item : public SST::Core::MemPoolItem
{
    int                  id;
    virtual int          size() const = 0;
    virtual unsigned char* body() = 0;
    void                 print(const std::string&, SST::Output&) const override { printed.push_back(id); }
    void                 fill() { memset(body(), id * 37 + 5, size()); }
    bool                 intact()
    {
        unsigned char* b = body();
        for ( int i = 0; i < size(); ++i )
            if ( b[i] != (unsigned char)(id * 37 + 5) ) return false;
        return true;
    }
    NotSerializable(Item)
};
template <int N>
struct Sized : public Item
{
    unsigned char  b[N];
    int            size() const override { return N; }
    unsigned char* body() override { return b; }
};
template <int N>
Item*
make(json& r, int id, bool align)
{
    auto* p  = new Sized<N>;
    p->id    = id;
    p->fill();
    uint64_t s = (uint64_t)p, e = s + sizeof(*p);
    int      ok = s % alignof(Sized<N>) == 0;
    if ( align ) { // no two items in one cache line
        s = s / 64;
        e = (e + 63) / 64;
    }
    r = { std::to_string(s), std::to_string(e), ok };
    return p;
}
Item* (*const makers[])(json&, int, bool) = { make<4>, make<12>, make<52>, make<188>, make<1004>, make<4988>, make<70004>,
    make<300004>, make<1500004>, make<3000004>, make<36>, make<44>, make<100>, make<20000> };

json
drive(json s)
{
    int  nt = s["threads"], align = s["align"], nid = s["ids"];
    auto& l = s["l"];
    std::vector<Item*>            item(nid + 1, nullptr);
    std::vector<std::atomic<int>> step(nid + 1);
    for ( auto& x : step ) x = 0;
    std::vector<int> want(l.size()), cnt(nid + 1, 0);
    for ( size_t i = 0; i < l.size(); ++i )
        if ( l[i].contains("id") ) want[i] = cnt[l[i]["id"].get<int>()]++;
    std::atomic<int>   stamp { 0 };
    SST::Output        none("", 0, 0, SST::Output::NONE);
    int64_t            b0, a0;
    std::vector<int>   base;
    SST::Core::MemPoolAccessor::getMemPoolUsage(b0, a0);
    // the threads stay until the end: each has pools of its own
    std::atomic<int>                 phase { 0 }, arrived { 0 };
    std::vector<std::pair<size_t, size_t>> seg; // parts between global calls
    size_t                           from = 0;
    for ( size_t i = 0; i <= l.size(); ++i )
        if ( i == l.size() || !l[i].contains("id") ) {
            seg.emplace_back(from, i);
            from = i + 1;
        }
    auto work = [&](int t) {
        if ( t > 0 ) SST::Core::MemPoolAccessor::initializeLocalData(t);
        for ( size_t k = 0; k < seg.size(); ++k ) {
            while ( t > 0 && phase < (int)k + 1 ) std::this_thread::yield();
            for ( size_t i = seg[k].first; i < seg[k].second; ++i ) {
                json& o = l[i];
                if ( o["t"] != t ) continue;
                int id = o["id"];
                while ( step[id].load(std::memory_order_acquire) != want[i] ) std::this_thread::yield();
                std::string op = o["op"];
                json        r;
                if ( op == "new" ) {
                    item[id] = makers[o["c"].get<int>()](r, id, align);
                    o["k"]   = stamp++;
                }
                else if ( op == "chk" ) {
                    o["k"] = stamp++;
                    r      = json::array({ item[id]->intact() ? 1 : 0 });
                }
                else {
                    bool ok = item[id]->intact() && item[id]->id == id;
                    o["k"]  = stamp++;
                    delete item[id];
                    r = json::array({ ok ? 1 : 0 });
                }
                o["r"] = r;
                step[id].store(want[i] + 1, std::memory_order_release);
            }
            arrived++;
            if ( t > 0 ) continue;
            while ( arrived < nt * ((int)k + 1) ) std::this_thread::yield();
            if ( seg[k].second < l.size() ) {
                json& o = l[seg[k].second];
                o["k"]  = stamp++;
                if ( o["op"] == "usage" ) {
                    int64_t b, a;
                    SST::Core::MemPoolAccessor::getMemPoolUsage(b, a);
                    o["r"] = json::array({ a - a0 });
                }
                else {
                    printed.clear();
                    SST::Core::MemPoolAccessor::printUndeletedMemPoolItems("", none);
                    o["r"] = printed;
                }
            }
            phase = k + 2;
        }
    };
    std::vector<std::thread> th;
    phase = 1;
    for ( int t = 1; t < nt; ++t ) th.emplace_back(work, t);
    work(0);
    for ( auto& x : th ) x.join();
    return s;
}
} // namespace
VF_DRIVER("vfpool", drive)
