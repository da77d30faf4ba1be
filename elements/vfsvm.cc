#include "vfapi.h"
#include <sst/core/sparseVectorMap.h>
#include <sst/core/serialization/serializer.h>
#include <sst/core/serialization/serialize.h>
#include <memory>

namespace {
struct Val : public SST::Core::Serialization::serializable
{
    int k = 0, v = 0;
    Val() {}
    Val(int k, int v) : k(k), v(v) {}
    int  key() const { return k; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SST_SER(k);
        SST_SER(v);
    }
    ImplementSerializable(Val)
};

template <class T>
bool copy(T& m)
{
    SST::Core::Serialization::serializer ser;
    ser.enable_pointer_tracking();
    ser.start_sizing();
    SST_SER(m);
    size_t            n = ser.size();
    std::vector<char> buf(n + 16, (char)0x5a);
    ser.start_packing(buf.data(), n);
    SST_SER(m);
    T c;
    SST::Core::Serialization::serializer s2;
    s2.enable_pointer_tracking();
    s2.start_unpacking(buf.data(), n);
    { auto& ser = s2; SST_SER(c); }
    bool ok = true;
    for ( int i = 0; i < 16; i++ ) ok &= buf[n + i] == (char)0x5a;
    std::swap(m, c);
    return ok;
}

struct ByVal
{
    SST::SparseVectorMap<int, Val> m;
    int  ins(int k, int v) { return m.insert(Val(k, v)).v; }
    int  get(int k, bool c) { return c ? std::as_const(m)[k].v : m[k].v; }
    void set(int k, int v) { m[k].v = v; }
    bool load(const json& it, bool sorted)
    {
        std::vector<Val> x;
        for ( auto& i : it ) x.emplace_back(i[0].get<int>(), i[1].get<int>());
        m = SST::SparseVectorMap<int, Val>(x, sorted);
        return x.empty();
    }
    json item(Val& x) { return json::array({ x.k, x.v }); }
    json filter(const json&, const json&) { return json(); }
};
struct ByPtr
{
    SST::SparseVectorMap<int, Val*>   m;
    std::vector<std::unique_ptr<Val>> own;
    Val* mk(int k, int v) { own.emplace_back(new Val(k, v)); return own.back().get(); }
    int  ins(int k, int v) { return m.insert(mk(k, v))->v; }
    int  get(int k, bool c) { return c ? std::as_const(m)[k]->v : m[k]->v; }
    void set(int k, int v) { m[k]->v = v; }
    bool load(const json& it, bool sorted)
    {
        std::vector<Val*> x;
        for ( auto& i : it ) x.push_back(mk(i[0].get<int>(), i[1].get<int>()));
        m = SST::SparseVectorMap<int, Val*>(x, sorted);
        return x.empty();
    }
    json item(Val* x) { return json::array({ x->k, x->v }); }
    json filter(const json& del, const json& chg)
    {
        json seen = json::array();
        struct F
        {
            ByPtr* p; json &seen; const json &del, &chg;
            Val* operator()(Val* x)
            {
                seen.push_back({ x->k, x->v });
                for ( auto& d : del ) if ( d == x->k ) return nullptr;
                for ( auto& d : chg ) if ( d == x->k ) return p->mk(x->k, x->v + 1000);
                return x;
            }
        } f { this, seen, del, chg };
        m.filter(f);
        return seen;
    }
};
struct ByKey
{
    SST::SparseVectorMap<int, int> m;
    int  ins(int k, int) { return m.insert(k); }
    int  get(int k, bool c) { return c ? std::as_const(m)[k] : m[k]; }
    void set(int k, int) { (void)m[k]; }
    bool load(const json& it, bool sorted)
    {
        std::vector<int> x;
        for ( auto& i : it ) x.push_back(i[0].get<int>());
        m = SST::SparseVectorMap<int, int>(x, sorted);
        return x.empty();
    }
    json item(int x) { return json::array({ x, x }); }
    json filter(const json&, const json&) { return json(); }
};

template <class W>
void
go(json& s)
{
    W w;
    for ( auto& o : s["l"] ) {
        std::string op = o["op"];
        json        r  = json::array();
        int         k  = o.value("k", 0);
        if ( op == "ins" ) r.push_back(w.ins(k, o["v"]));
        else if ( op == "get" ) {
            try { r.push_back(w.get(k, o.value("c", 0))); } catch ( const std::out_of_range& ) {}
        }
        else if ( op == "has" ) r.push_back(w.m.contains(k) ? 1 : 0);
        else if ( op == "set" ) {
            try { w.set(k, o["v"]); r.push_back(1); } catch ( const std::out_of_range& ) {}
        }
        else if ( op == "size" ) r.push_back((int)w.m.size());
        else if ( op == "iter" ) {
            if ( o.value("c", 0) ) { const auto& cm = w.m; for ( auto i = cm.begin(); i != cm.end(); ++i ) r.push_back(w.item(const_cast<std::remove_const_t<std::remove_reference_t<decltype(*i)>>&>(*i))); }
            else for ( auto& x : w.m ) r.push_back(w.item(x));
        }
        else if ( op == "clear" ) w.m.clear();
        else if ( op == "sort" ) w.m.sort();
        else if ( op == "load" ) { if ( !w.load(o["items"], o["sorted"].get<int>()) ) r.push_back(1); }
        else if ( op == "filter" ) r = w.filter(o["del"], o["chg"]);
        else if ( op == "copy" ) r.push_back(copy(w.m) ? 1 : 0);
        o["r"] = r;
    }
}

json
drive(json s)
{
    std::string k = s["kind"];
    if ( k == "val" ) go<ByVal>(s);
    else if ( k == "ptr" ) go<ByPtr>(s);
    else go<ByKey>(s);
    return s;
}
} // namespace
VF_DRIVER("vfsvm", drive)
