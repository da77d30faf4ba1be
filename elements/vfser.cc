// Serializes object graphs and values with the core's serializer, and describes them
// before and after.
#include "vfapi.h"
#include <sst/core/serialization/serializable.h>
#include <sst/core/serialization/serialize.h>
#include <sst/core/serialization/serializer.h>
#include <sst/core/unitAlgebra.h>
#include <sst/core/timeConverter.h>
#include <sst/core/rankInfo.h>
#include <sst/core/params.h>
#include <array>
#include <atomic>
#include <bitset>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
#include <vector>

namespace VS {
using SST::SerOption;
using SST::Core::Serialization::serializable;
using SST::Core::Serialization::serializer;

// ---------------------------------------------------------------- graphs
struct Base;
struct Plain
{
    int                    v = 0;
    Plain*                 q = nullptr;
    Base*                  b = nullptr;
    std::shared_ptr<Plain> s;
    std::vector<Plain*>    w;
    void                   serialize_order(serializer& ser)
    {
        SST_SER(v);
        SST_SER(q);
        SST_SER(b);
        SST_SER(s);
        SST_SER(w);
    }
};

struct Base : public serializable
{
    int                                 v = 0;
    Plain                               emb;
    std::vector<Plain>                  ve;
    std::map<int, Plain>                me;
    std::vector<Base*>                  pb;
    Plain*                              pl[2] = { nullptr, nullptr };
    std::map<int, Base*>                mb;
    std::list<Plain*>                   lp;
    std::optional<Base*>                ob;
    std::pair<Plain*, Base*>            pr { nullptr, nullptr };
    std::tuple<Base*, int, Plain*>      tu { nullptr, 0, nullptr };
    std::shared_ptr<Plain>              sp[2];
    std::shared_ptr<Plain>              so; // its object is pointed to
    std::weak_ptr<Plain>                wp;
    std::unique_ptr<Plain>              ub;
    std::vector<std::shared_ptr<Plain>> sv;
    Plain*                              in[3] = { nullptr, nullptr, nullptr };
    std::vector<Base*>*                 vb = nullptr; // may be shared between objects
    std::pair<Base*, int>*              tb = nullptr;
    virtual const char*                 kind() const { return "A"; }
    void                                serialize_order(serializer& ser) override
    {
        SST_SER(v);
        SST_SER(emb, SerOption::as_ptr);
        SST_SER(ve, SerOption::as_ptr_elem);
        SST_SER(me, SerOption::as_ptr_elem);
        SST_SER(pb);
        SST_SER(pl);
        SST_SER(mb);
        SST_SER(lp);
        SST_SER(ob);
        SST_SER(pr);
        SST_SER(tu);
        SST_SER(sp);
        SST_SER(so, SerOption::as_ptr_elem);
        SST_SER(wp);
        SST_SER(ub);
        SST_SER(sv);
        SST_SER(in);
        SST_SER(vb);
        SST_SER(tb);
    }
    ImplementSerializable(VS::Base)
};

struct Derived : public Base
{
    std::string                         name;
    std::unordered_map<int, Plain*>     um;
    std::variant<int, Plain*, Base*>    va;
    std::deque<Base*>                   db;
    std::forward_list<Plain*>           fl;
    const char*                         kind() const override { return "B"; }
    void                                serialize_order(serializer& ser) override
    {
        Base::serialize_order(ser);
        SST_SER(name);
        SST_SER(um);
        SST_SER(va);
        SST_SER(db);
        SST_SER(fl);
    }
    ImplementSerializable(VS::Derived)
};

struct Graph
{
    std::map<std::string, void*>                  obj; // by the name in the input
    std::map<std::string, std::shared_ptr<Plain>> sh;
};

void
fillPlain(Graph& g, Plain* p, const json& n)
{
    p->v = n["v"];
    auto P = [&](const json& x) { return x.is_null() ? nullptr : (Plain*)g.obj.at(x); };
    auto B = [&](const json& x) { return x.is_null() ? nullptr : (Base*)g.obj.at(x); };
    if ( n.contains("q") ) p->q = P(n["q"]);
    if ( n.contains("b") ) p->b = B(n["b"]);
    if ( n.contains("s") && !n["s"].is_null() ) p->s = g.sh.at(n["s"]);
    if ( n.contains("w") )
        for ( auto& x : n["w"] ) p->w.push_back(P(x));
}

Base*
build(Graph& g, const json& d)
{
    for ( auto& [name, n] : d["nodes"].items() ) {
        std::string k = n["k"];
        if ( k == "A" || k == "B" ) {
            Base* b = k == "A" ? new Base : new Derived;
            g.obj[name] = b;
            g.obj[name + ".emb"] = &b->emb;
            b->ve.resize(n["ve"].size());
            for ( size_t i = 0; i < b->ve.size(); ++i ) g.obj[name + ".ve" + std::to_string(i)] = &b->ve[i];
            for ( size_t i = 0; i < n["me"].size(); ++i ) {
                Plain& x = b->me[(int)i * 3];
                g.obj[name + ".me" + std::to_string(i)] = &x;
            }
        }
        else if ( k == "P" ) g.obj[name] = new Plain;
        else if ( k == "V" ) g.obj[name] = new std::vector<Base*>;
        else if ( k == "T" ) g.obj[name] = new std::pair<Base*, int>;
        else if ( k == "S" ) {
            g.sh[name]  = std::make_shared<Plain>();
            g.obj[name] = g.sh[name].get();
        }
    }
    auto P = [&](const json& x) { return x.is_null() ? nullptr : (Plain*)g.obj.at(x); };
    auto B = [&](const json& x) { return x.is_null() ? nullptr : (Base*)g.obj.at(x); };
    auto S = [&](const json& x) { return x.is_null() ? std::shared_ptr<Plain>() : g.sh.at(x); };
    for ( auto& [name, n] : d["nodes"].items() ) {
        std::string k = n["k"];
        if ( k == "P" || k == "S" ) {
            fillPlain(g, (Plain*)g.obj.at(name), n);
            continue;
        }
        if ( k == "V" ) {
            for ( auto& x : n["e"] ) ((std::vector<Base*>*)g.obj.at(name))->push_back(B(x));
            continue;
        }
        if ( k == "T" ) {
            *(std::pair<Base*, int>*)g.obj.at(name) = { B(n["e"][0]), (int)n["v"] };
            continue;
        }
        Base* b = (Base*)g.obj.at(name);
        b->v    = n["v"];
        fillPlain(g, &b->emb, n["emb"]);
        for ( size_t i = 0; i < b->ve.size(); ++i ) fillPlain(g, &b->ve[i], n["ve"][i]);
        for ( size_t i = 0; i < n["me"].size(); ++i ) fillPlain(g, &b->me[(int)i * 3], n["me"][i]);
        for ( auto& x : n["pb"] ) b->pb.push_back(B(x));
        for ( int i = 0; i < 2; ++i ) b->pl[i] = P(n["pl"][i]);
        for ( size_t i = 0; i < n["mb"].size(); ++i ) b->mb[10 - 2 * (int)i] = B(n["mb"][i]);
        for ( auto& x : n["lp"] ) b->lp.push_back(P(x));
        if ( n["ob"].size() ) b->ob = B(n["ob"][0]);
        b->pr = { P(n["pr"][0]), B(n["pr"][1]) };
        b->tu = { B(n["tu"][0]), (int)n["v"] + 1, P(n["tu"][1]) };
        for ( int i = 0; i < 2; ++i ) b->sp[i] = S(n["sp"][i]);
        b->so = S(n["so"]);
        b->wp = S(n["wp"]);
        if ( !n["ub"].is_null() ) b->ub.reset(P(n["ub"]));
        for ( auto& x : n["sv"] ) b->sv.push_back(S(x));
        for ( int i = 0; i < 3; ++i ) b->in[i] = P(n["in"][i]);
        b->vb = n["vb"].is_null() ? nullptr : (std::vector<Base*>*)g.obj.at(n["vb"]);
        b->tb = n["tb"].is_null() ? nullptr : (std::pair<Base*, int>*)g.obj.at(n["tb"]);
        if ( k == "B" ) {
            Derived* e = (Derived*)b;
            e->name    = n["name"];
            for ( size_t i = 0; i < n["um"].size(); ++i ) e->um[(int)i * 7 - 3] = P(n["um"][i]);
            int va = n["va"][0];
            if ( va == 0 ) e->va = (int)n["v"] * 2;
            else if ( va == 1 ) e->va = P(n["va"][1]);
            else e->va = B(n["va"][1]);
            for ( auto& x : n["db"] ) e->db.push_back(B(x));
            for ( auto it = n["fl"].rbegin(); it != n["fl"].rend(); ++it ) e->fl.push_front(P(*it));
        }
    }
    return B(d["root"]);
}

// Every object reachable from the root, numbered by address: [kind and values, references]
struct Dumper
{
    struct N
    {
        std::string              k;
        std::vector<const void*> e;
    };
    std::map<const void*, N> n;

    void plain(const Plain* p)
    {
        if ( !p || n.count(p) ) return;
        auto& r = n[p];
        r.k     = "P " + std::to_string(p->v) + " " + std::to_string(p->w.size()) + " " + (p->s ? std::to_string(p->s->v) : "");
        r.e     = { p->q, p->b, p->s.get() };
        for ( auto x : p->w ) r.e.push_back(x);
        plain(p->q);
        base(p->b);
        plain(p->s.get());
        for ( auto x : p->w ) plain(x);
    }
    void base(const Base* b)
    {
        if ( !b || n.count(b) ) return;
        auto& r = n[b];
        std::ostringstream o;
        std::vector<const void*> e;
        std::vector<const Plain*> ps;
        std::vector<const Base*> bs;
        auto P = [&](const Plain* p) { e.push_back(p); ps.push_back(p); };
        auto B = [&](const Base* p) { e.push_back(p); bs.push_back(p); };
        o << b->kind() << " " << b->cls_name() << " " << b->v;
        P(&b->emb);
        o << " ve" << b->ve.size();
        for ( auto& x : b->ve ) P(&x);
        o << " me" << b->me.size();
        for ( auto& [i, x] : b->me ) { o << "," << i; P(&x); }
        o << " pb" << b->pb.size();
        for ( auto x : b->pb ) B(x);
        for ( auto x : b->pl ) P(x);
        o << " mb" << b->mb.size();
        for ( auto& [i, x] : b->mb ) { o << "," << i; B(x); }
        o << " lp" << b->lp.size();
        for ( auto x : b->lp ) P(x);
        o << " ob" << b->ob.has_value();
        if ( b->ob ) B(*b->ob);
        P(b->pr.first);
        B(b->pr.second);
        B(std::get<0>(b->tu));
        o << " tu" << std::get<1>(b->tu);
        P(std::get<2>(b->tu));
        for ( auto& x : b->sp ) P(x.get());
        P(b->so.get());
        P(b->wp.lock().get());
        // objects held by a shared pointer have the same number of holders in the copy
        for ( auto& x : b->sp ) o << " u" << x.use_count();
        o << " u" << b->so.use_count() << " w" << b->wp.use_count();
        P(b->ub.get());
        o << " sv" << b->sv.size();
        for ( auto& x : b->sv ) P(x.get());
        for ( auto x : b->in ) P(x);
        if ( auto* d = dynamic_cast<const Derived*>(b) ) {
            o << " D" << d->name << " um" << d->um.size();
            for ( auto& [i, x] : std::map<int, Plain*>(d->um.begin(), d->um.end()) ) { o << "," << i; P(x); }
            o << " va" << d->va.index();
            if ( d->va.index() == 0 ) o << "," << std::get<0>(d->va);
            if ( d->va.index() == 1 ) P(std::get<1>(d->va));
            if ( d->va.index() == 2 ) B(std::get<2>(d->va));
            o << " db" << d->db.size();
            for ( auto x : d->db ) B(x);
            for ( auto x : d->fl ) { o << " fl"; P(x); }
        }
        e.push_back(b->vb);
        e.push_back(b->tb);
        r.k = o.str();
        r.e = e;
        for ( auto x : ps ) plain(x);
        for ( auto x : bs ) base(x);
        if ( b->vb && !n.count(b->vb) ) {
            auto& q = n[b->vb];
            q.k     = "V " + std::to_string(b->vb->size());
            for ( auto x : *b->vb ) q.e.push_back(x);
            for ( auto x : *b->vb ) base(x);
        }
        if ( b->tb && !n.count(b->tb) ) {
            auto& q = n[b->tb];
            q.k     = "T " + std::to_string(b->tb->second);
            q.e     = { b->tb->first };
            base(b->tb->first);
        }
    }
    json dump(const Base* root)
    {
        base(root);
        std::map<const void*, int> id;
        int                        c = 0;
        for ( auto& x : n ) id[x.first] = ++c;
        json out = json::array();
        for ( auto& x : n ) {
            json e = json::array();
            for ( auto p : x.second.e ) e.push_back(p ? id[p] : 0);
            out.push_back({ { "k", x.second.k }, { "e", e } });
        }
        return { { "root", root ? id[root] : 0 }, { "n", out } };
    }
};

template <class T>
json
sizes(serializer& ser, T& from, T& to, bool tracked, std::vector<char>& buf)
{
    ser.enable_pointer_tracking(tracked);
    ser.start_sizing();
    SST_SER(from);
    size_t sz = ser.size();
    buf.assign(sz + 64, (char)0x5a);
    ser.start_packing(buf.data(), sz);
    SST_SER(from);
    size_t pk = ser.size();
    bool   tail = true;
    for ( size_t i = sz; i < buf.size(); ++i ) tail = tail && buf[i] == 0x5a;
    ser.start_unpacking(buf.data(), sz);
    SST_SER(to);
    size_t up = ser.size();
    ser.finalize();
    return { (int)sz, (int)pk, (int)up, tail ? 1 : 0 };
}

json
graph(json s)
{
    for ( auto& o : s["l"] ) {
        Graph g;
        Base* root = build(g, o["g"]);
        bool  tracked = o["tracked"] == 1;
        // the graph itself holds its shared objects
        g.sh.clear();
        json r = json::object();
        r["a"] = Dumper().dump(root);
        Base*             copy = (Base*)0x1;
        serializer        ser;
        std::vector<char> buf;
        r["z"] = sizes(ser, root, copy, tracked, buf);
        Dumper dc;
        r["b"] = dc.dump(copy);
        Dumper da;
        r["a2"] = da.dump(root);
        // nothing is shared between the two
        int fresh = 1;
        for ( auto& x : dc.n ) if ( da.n.count(x.first) ) fresh = 0;
        r["f"] = fresh;
        // the same serializer again, from the copy
        Base* copy2 = nullptr;
        std::vector<char> buf2;
        r["z2"] = sizes(ser, copy, copy2, tracked, buf2);
        r["c"] = Dumper().dump(copy2);
        o.erase("g");
        o["r"] = r;
    }
    return s;
}

// ---------------------------------------------------------------- values
enum Col { red, green = 7, blue = -3 };
enum class Big : uint64_t { a = 1, b = 0xfedcba9876543210ull };
struct Agg
{
    int         x;
    double      y;
    std::string z;
};
struct Pod
{
    char  c;
    short s;
    float f[3];
    bool operator==(const Pod& o) const { return c == o.c && s == o.s && f[0] == o.f[0] && f[1] == o.f[1] && f[2] == o.f[2]; }
};

struct Two
{
    int         a = 0;
    std::string b;
    void        serialize_order(serializer& ser)
    {
        SST_SER(a);
        SST_SER(b);
    }
};

struct Rnd
{
    std::mt19937_64 g;
    uint64_t        n(uint64_t m) { return g() % m; }
    uint64_t        any() { switch ( n(6) ) { case 0: return 0; case 1: return ~0ull; case 2: return n(10); case 3: return 1ull << n(64); default: return g(); } }
    double          d() { switch ( n(7) ) { case 0: return 0.0; case 1: return -0.0; case 2: return 1.0 / 0.0; case 3: return 5e-324; case 4: return -1e308; default: return (double)(int64_t)g() / 3e9; } }
    std::string     s()
    {
        std::string r;
        for ( int k = n(2) ? n(5) : n(2) ? 0 : n(300); k > 0; --k ) r += (char)n(256);
        return r;
    }
    int len() { return n(3) ? n(4) : n(30); }
};


template <class T, class = void> struct is_cont : std::false_type {};
template <class T> struct is_cont<T, std::void_t<typename T::value_type, decltype(std::declval<T>().begin())>> : std::true_type {};

struct Vals
{
    bool                                            b;
    char                                            c;
    signed char                                     sc;
    uint8_t                                         u8;
    int16_t                                         i16;
    uint16_t                                        u16;
    int32_t                                         i32;
    uint32_t                                        u32;
    int64_t                                         i64;
    uint64_t                                        u64;
    float                                           fl;
    double                                          d;
    long double                                     ld;
    std::complex<double>                            cd;
    Col                                             col;
    Big                                             big;
    std::string                                     str;
    Pod                                             pod;
    Agg                                             agg;
    std::vector<int>                                vi;
    std::vector<bool>                               vb;
    std::vector<std::string>                        vs;
    std::vector<std::vector<uint16_t>>              vv;
    std::deque<double>                              dq;
    std::deque<bool>                                dqb;
    std::list<std::string>                          ls;
    std::forward_list<int>                          fw;
    std::set<int>                                   si;
    std::multiset<int>                              ms;
    std::unordered_set<std::string>                 us;
    std::unordered_multiset<int>                    um;
    std::map<int, std::string>                      mp;
    std::multimap<int, int>                         mm;
    std::unordered_map<std::string, int>            up;
    std::unordered_multimap<int, std::string>       uq;
    std::map<std::string, std::vector<int>>         mv;
    std::map<std::pair<int, int>, std::set<int>>    mps;
    std::pair<std::string, int64_t>                 pr;
    std::tuple<int, std::string, double, bool>      tp;
    std::tuple<>                                    te;
    std::array<int, 5>                              ai;
    std::array<std::string, 3>                      as;
    std::array<int, 0>                              a0;
    int                                             ca[4];
    std::string                                     cs[2];
    int                                             c2[2][3];
    std::optional<int>                              oi;
    std::optional<std::string>                      os;
    std::optional<std::vector<int>>                 ov;
    std::variant<int, std::string, double>          va;
    std::variant<std::monostate, std::vector<int>>  vm;
    std::bitset<11>                                 b11;
    std::bitset<130>                                b130;
    std::valarray<int>                              va1;
    std::valarray<double>                           va2;
    std::atomic<int>                                at;
    std::atomic<bool>                               atb;
    std::atomic<double>                             atd;
    std::stack<int>                                 sk;
    std::queue<std::string>                         qu;
    std::priority_queue<int>                        pq;
    std::unique_ptr<int>                            ui;
    std::unique_ptr<std::string>                    ust;
    std::unique_ptr<std::vector<int>>               uv;
    std::unique_ptr<int[]>                          ua;
    size_t                                          uan = 0;
    std::unique_ptr<std::string[]>                  uas;
    uint32_t                                        uasn = 0;
    int*                                            pa = nullptr;
    uint16_t                                        pan = 0;
    std::string*                                    ps = nullptr;
    int                                             psn = 0;
    void*                                           bf = nullptr;
    size_t                                          bfn = 0;
    int*                                            pi = nullptr;
    std::string*                                    pst = nullptr;
    std::vector<int>*                               pv = nullptr;
    std::map<int, int>*                             pm = nullptr;
    std::vector<std::unique_ptr<int>>               vu;
    std::vector<std::optional<std::string>>         vo;
    std::vector<std::pair<int, std::string>>        vp;
    std::vector<std::variant<int, std::string>>     vva;
    std::shared_ptr<int[]>                          sa;
    size_t                                          san = 0;
    std::shared_ptr<std::string>                    ss;
    std::shared_ptr<std::vector<int>>               spv;
    std::shared_ptr<Two>                            par;
    std::shared_ptr<std::string>                    sal; // part of par
    std::weak_ptr<std::vector<int>>                 wv;
    SST::UnitAlgebra                                ual;
    SST::RankInfo                                   ri;

    template <class F> void each(F&& f)
    {
#define X(m) f(#m, m);
        X(b) X(c) X(sc) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64) X(fl) X(d) X(ld) X(cd) X(col) X(big) X(str) X(pod) X(agg)
        X(vi) X(vb) X(vs) X(vv) X(dq) X(dqb) X(ls) X(fw) X(si) X(ms) X(us) X(um) X(mp) X(mm) X(up) X(uq) X(mv) X(mps) X(pr) X(tp) X(te)
        X(ai) X(as) X(a0) X(ca) X(cs) X(c2) X(oi) X(os) X(ov) X(va) X(vm) X(b11) X(b130) X(va1) X(va2) X(at) X(atb) X(atd) X(sk) X(qu)
        X(pq) X(ui) X(ust) X(uv) X(pi) X(pst) X(pv) X(pm) X(vu) X(vo) X(vp) X(vva) X(ss) X(spv) X(par) X(ual) X(ri)
#undef X
    }
    void serialize_order(serializer& ser)
    {
        each([&](const char*, auto& m) { SST_SER(m); });
        SST_SER(SST::Core::Serialization::unique_ptr(ua, uan));
        SST_SER(SST::Core::Serialization::unique_ptr(uas, uasn));
        SST_SER(SST::Core::Serialization::array(pa, pan));
        SST_SER(SST::Core::Serialization::array(ps, psn));
        SST_SER(SST::Core::Serialization::buffer(bf, bfn));
        SST_SER(SST::Core::Serialization::shared_ptr(sa, san));
        SST_SER(SST::Core::Serialization::shared_ptr(sal, par));
        SST_SER(SST::Core::Serialization::weak_ptr(wv, spv));
        std::string end = "end";
        SST_SER(end);
        if ( end != "end" ) pan = 60000;
    }
};
#include "vfser_show.h"

json
values(json s)
{
    for ( auto& o : s["l"] ) {
        Rnd r { std::mt19937_64(o["seed"].get<uint64_t>()) };
        Vals* a = new Vals();
        fill(r, *a);
        json       x = describe(*a);
        Vals*      c = nullptr;
        serializer ser;
        std::vector<char> buf;
        bool tracked = o["tracked"] == 1;
        json z = sizes(ser, a, c, tracked, buf);
        o["a"] = x;
        o["b"] = describe(*c);
        o["a2"] = describe(*a);
        o["z"] = z;
        Vals* e = nullptr;
        o["z2"] = sizes(ser, c, e, tracked, buf);
        o["c"] = describe(*e);
    }
    return s;
}

json
drive(json s)
{
    return s["kind"] == "graph" ? graph(s) : values(s);
}
} // namespace VS

VF_DRIVER("vfser", VS::drive)
