// vfsh.Node: scripted use of shared objects in every stage of a simulation.
#include "vfcommon.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include <stdexcept>
#include <time.h>

namespace VFSH {
using namespace VF;
using namespace SST::Shared;

// Ordered by k alone, equal by both
struct Pair
{
    int k = 0, v = 0;
    Pair() {}
    Pair(int k, int v) : k(k), v(v) {}
    bool operator<(const Pair& o) const { return k < o.k; }
    bool operator==(const Pair& o) const { return k == o.k && v == o.v; }
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(k); SST_SER(v); }
};

struct Op
{
    int ph = 0;          // -1 construction, 0.. initialization, 1000 setup, 2000+t run, 3000+ph completion, 4000 finish
    char k = 0;
    int slot = 0, a = 0, b = 0;
    std::string s;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(ph); SST_SER(k); SST_SER(slot); SST_SER(a); SST_SER(b); SST_SER(s);
    }
};

// One instance of a shared object
struct Slot
{
    char ty = 0;         // as initialized: A, B, C, M, T, S
    int o = -1;
    SharedArray<int> A;
    SharedArray<bool> B;
    SharedArray<std::string> C;
    SharedMap<int, int> M;
    SharedMap<std::string, std::string> T;
    SharedSet<Pair> S;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(ty); SST_SER(o); SST_SER(A); SST_SER(B); SST_SER(C); SST_SER(M); SST_SER(T); SST_SER(S);
    }
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vfsh", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "shared objects", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "script", "", "" }, { "phases", "", "0" }, { "end", "", "10" }, { "ports", "", "" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& p) : Component(id)
    {
        phases = p.find<int>("phases", 0);
        end    = p.find<int64_t>("end", 10);
        self   = configureSelfLink("self", "1ps", new Event::Handler<Node, &Node::onEvent>(this));
        int np = p.find<int>("ports", 0);
        for ( int i = 0; i < np; ++i ) configureLink("p" + std::to_string(i), "1ps", new Event::Handler<Node, &Node::onEvent>(this));
        // ph:op:slot:a:b:text
        for ( auto& x : split(p.find<std::string>("script", ""), ',') ) {
            if ( x.empty() ) continue;
            auto f = split(x, ':');
            Op o;
            o.ph = atoi(f[0].c_str()); o.k = f[1][0]; o.slot = atoi(f[2].c_str()); o.a = atoi(f[3].c_str()); o.b = atoi(f[4].c_str());
            if ( f.size() > 5 ) o.s = f[5];
            ops.push_back(o);
            while ( (int)slots.size() <= o.slot ) slots.push_back(new Slot());
        }
        registerClock("1ps", new Clock::Handler<Node, &Node::onClock>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        at(-1);
    }
    Node() : Component() {}
    ~Node() { for ( auto* s : slots ) delete s; }

    void init(unsigned int ph) override
    {
        while ( Event* e = self->recvUntimedData() ) delete e;
        at(ph);
        if ( (int)ph < phases ) self->sendUntimedData(new VEvent(1));
    }
    void setup() override { at(1000); }
    bool onClock(Cycle_t c) { if ( (int64_t)c < end ) at(2000 + c); if ( (int64_t)c == end ) primaryComponentOKToEndSim(); return false; }
    void complete(unsigned int ph) override { at(3000 + ph); }
    void finish() override { at(4000); }
    void onEvent(Event* ev) { delete ev; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(phases); SST_SER(end); SST_SER(self); SST_SER(ops); SST_SER(slots);
    }
    ImplementSerializable(VFSH::Node)

private:
    static std::string str(int v) { return v == 0 ? "" : "v" + std::string(v % 7, 'x') + std::to_string(v); }
    static int num(const std::string& s) { size_t i = s.find_first_of("0123456789"); return i == std::string::npos ? 0 : atoi(s.c_str() + i); }
    static std::string key(int k) { char b[20]; snprintf(b, sizeof b, "k%03d", k); return b; }

    struct Out
    {
        std::string s;
        Out& kv(const char* k, long long v) { s += (s.empty() ? "" : ",") + std::string("\"") + k + "\":" + std::to_string(v); return *this; }
        Out& raw(const char* k, const std::string& v) { s += (s.empty() ? "" : ",") + std::string("\"") + k + "\":" + v; return *this; }
    };
    void put(int d, int ph, const Op& o, Out extra = Out())
    {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        Slot* sl = slots.empty() ? nullptr : slots[o.slot];
        char b[300];
        snprintf(b, sizeof b, "{\"x\":\"%c\",\"d\":%d,\"ph\":%d,\"i\":%d,\"o\":%d,\"a\":%d,\"b\":%d,\"r\":%u,\"ts\":%lld", o.k ? o.k : '-', d, ph, o.slot,
            sl ? sl->o : -1, o.a, o.b, getRank().rank, (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec);
        log.line(getName(), std::string(b) + (o.s.empty() ? "" : ",\"t\":\"" + o.s + "\"") + (extra.s.empty() ? "" : "," + extra.s) + "}");
    }
    void at(int ph)
    {
        Op none;
        put(1, ph, none);
        for ( auto& o : ops ) {
            if ( o.ph != ph ) continue;
            put(0, ph, o);
            Out r = run(o);
            put(1, ph, o, r);
        }
    }

    template <typename X, typename F, typename G> std::string pairs(X& x, F kf, G vf, bool& rev)
    {
        std::string s = "[";
        std::vector<std::pair<int, int>> v, w;
        for ( auto it = x.begin(); it != x.end(); ++it ) v.emplace_back(kf(*it), vf(*it));
        for ( auto it = x.rbegin(); it != x.rend(); ++it ) w.insert(w.begin(), std::make_pair(kf(*it), vf(*it)));
        rev = v == w;
        for ( auto& p : v ) s += (s.size() > 1 ? ",[" : "[") + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
        return s + "]";
    }
    template <typename X, typename F> std::string list(X& x, F vf, bool& rev)
    {
        std::string s = "[";
        std::vector<int> v, w, u;
        for ( auto it = x.begin(); it != x.end(); ++it ) v.push_back(vf(*it));
        for ( auto it = x.rbegin(); it != x.rend(); ++it ) w.insert(w.begin(), vf(*it));
        for ( size_t i = 0; i < x.size(); ++i ) { u.push_back(vf(x[i])); u.back() = vf(x.mutex_read(i)) == u.back() ? u.back() : -1; }
        rev = v == w && u == v;
        for ( size_t i = 0; i < v.size(); ++i ) s += (s.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string(v[i]) + "]";
        return s + "]";
    }
    template <typename X, typename F> Out content(X& x, const std::string& l, bool rev)
    {
        return Out().raw("c", l).kv("n", x.size()).kv("e", x.empty()).kv("f", x.isFullyPublished()).kv("g", rev);
    }

    Out run(const Op& o)
    {
        Slot& s = *slots[o.slot];
        auto self_ = [](int x) { return x; };
        auto b2i = [](bool x) { return (int)x; };
        Out r;
        auto whole = [&](auto& x, const std::string& l, bool rev) {
            return Out().raw("c", l).kv("n", x.size()).kv("e", x.empty()).kv("f", x.isFullyPublished()).kv("g", rev);
        };
        switch ( o.k ) {
        case 'i': {       // initialize; text: type mode object ; a: length, b: initial value
            char ty = o.s[0];
            SharedObject::verify_type m = o.s[1] == 'F' ? SharedObject::FE_VERIFY : o.s[1] == 'I' ? SharedObject::INIT_VERIFY : SharedObject::NO_VERIFY;
            int obj = atoi(o.s.c_str() + 2);
            std::string n = "obj" + std::to_string(obj);
            int v = -1;
            if ( ty == 'A' ) v = s.A.initialize(n, o.a, o.b, m);
            if ( ty == 'B' ) v = s.B.initialize(n, o.a, o.b != 0, m);
            if ( ty == 'C' ) v = s.C.initialize(n, o.a, str(o.b), m);
            if ( ty == 'M' ) v = s.M.initialize(n, m);
            if ( ty == 'T' ) v = s.T.initialize(n, m);
            if ( ty == 'S' ) v = s.S.initialize(n, m);
            s.ty = ty;
            s.o  = obj;
            return r.kv("v", v);
        }
        case 'w':
            switch ( s.ty ) {
            case 'A': s.A.write(o.a, o.b); break;
            case 'B': s.B.write(o.a, o.b != 0); break;
            case 'C': s.C.write(o.a, str(o.b)); break;
            case 'M': s.M.write(o.a, o.b); break;
            case 'T': s.T.write(key(o.a), str(o.b)); break;
            case 'S': s.S.insert(Pair(o.a, o.b)); break;
            }
            return r;
        case 'p':
            switch ( s.ty ) {
            case 'A': s.A.publish(); break;
            case 'B': s.B.publish(); break;
            case 'C': s.C.publish(); break;
            case 'M': s.M.publish(); break;
            case 'T': s.T.publish(); break;
            case 'S': s.S.publish(); break;
            }
            return r;
        case 'r': {
            bool rev = true;
            std::string l;
            switch ( s.ty ) {
            case 'A': l = list(s.A, self_, rev); return whole(s.A, l, rev);
            case 'B': l = list(s.B, b2i, rev); return whole(s.B, l, rev);
            case 'C': l = list(s.C, num, rev); return whole(s.C, l, rev);
            case 'M': l = pairs(s.M, [](auto& p) { return p.first; }, [](auto& p) { return p.second; }, rev); return whole(s.M, l, rev);
            case 'T': l = pairs(s.T, [](auto& p) { return num(p.first); }, [](auto& p) { return num(p.second); }, rev); return whole(s.T, l, rev);
            case 'S': l = pairs(s.S, [](auto& p) { return p.k; }, [](auto& p) { return p.v; }, rev); return whole(s.S, l, rev);
            }
            return r;
        }
        case 'f':         // isFullyPublished
            switch ( s.ty ) {
            case 'A': return r.kv("f", s.A.isFullyPublished());
            case 'B': return r.kv("f", s.B.isFullyPublished());
            case 'C': return r.kv("f", s.C.isFullyPublished());
            case 'M': return r.kv("f", s.M.isFullyPublished());
            case 'T': return r.kv("f", s.T.isFullyPublished());
            case 'S': return r.kv("f", s.S.isFullyPublished());
            }
            return r;
        case 'l': {       // look up key a: value (-1: none), count, first key not before, first key after
            auto look = [&](auto& x, auto kk, auto kf, auto vf) {
                auto it = x.find(kk);
                int v = it == x.end() ? -1 : vf(it->second), at1 = -1, at2 = -1;
                try { at1 = vf(x[kk]); } catch ( std::out_of_range& ) {}
                try { at2 = vf(x.mutex_read(kk)); } catch ( std::out_of_range& ) {}
                auto lb = x.lower_bound(kk), ub = x.upper_bound(kk);
                return Out().kv("v", v).kv("g", at1 == v && at2 == v).kv("n", x.count(kk)).kv("lb", lb == x.end() ? -1 : kf(lb->first)).kv("ub", ub == x.end() ? -1 : kf(ub->first));
            };
            if ( s.ty == 'M' ) return look(s.M, o.a, self_, self_);
            if ( s.ty == 'T' ) return look(s.T, key(o.a), num, num);
            if ( s.ty == 'S' ) {
                auto it = s.S.find(Pair(o.a, 0)), i2 = s.S.mutex_find(Pair(o.a, 0));
                return r.kv("v", it == s.S.end() ? -1 : it->v).kv("g", it == i2).kv("n", s.S.count(Pair(o.a, 0))).kv("lb", -2).kv("ub", -2);
            }
            return r;
        }
        }
        return r;
    }
    int phases = 0;
    int64_t end = 10;
    Link* self = nullptr;
    std::vector<Op> ops;
    std::vector<Slot*> slots;
    Log log;
};
} // namespace VFSH
