// vfsc: component trees built by scripts: user-defined and anonymous subcomponents and extensions, ports, statistics and slots.
#include "vfcommon.h"
#include "sst/core/componentExtension.h"
#include <mutex>

namespace VFSC {
using namespace VF;

class TEvent : public SST::Event
{
public:
    std::string s;
    TEvent(const std::string& x) : s(x) {}
    TEvent() = default;
    Event* clone() override { return new TEvent(*this); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(s); }
    ImplementSerializable(VFSC::TEvent)
};

class Mod : public SST::PortModule
{
public:
    SST_ELI_REGISTER_PORTMODULE(Mod, "vfsc", "Mod", SST_ELI_ELEMENT_VERSION(1, 0, 0), "adds a mark")
    SST_ELI_DOCUMENT_PARAMS({ "tok", "", "0" }, { "send", "", "0" })
    Mod(Params& p) { tok = p.find<int>("tok", 0); snd = p.find<bool>("send", false); }
    Mod() = default;
    bool installOnSend() override { return snd; }
    bool installOnReceive() override { return !snd; }
    void eventSent(uintptr_t, Event*& ev) override { static_cast<TEvent*>(ev)->s += ",s" + std::to_string(tok); }
    void interceptHandler(uintptr_t, Event*& ev, bool&) override { static_cast<TEvent*>(ev)->s += ",r" + std::to_string(tok); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { PortModule::serialize_order(ser); SST_SER(tok); SST_SER(snd); }
    ImplementSerializable(VFSC::Mod)
private:
    int tok = 0;
    bool snd = false;
};

class Api1 : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(VFSC::Api1, int)
    Api1(ComponentId_t id) : SubComponent(id) {}
    Api1() = default;
    virtual ~Api1() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(VFSC::Api1);
};

class Api2 : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(VFSC::Api2)
    Api2(ComponentId_t id) : SubComponent(id) {}
    Api2() = default;
    virtual ~Api2() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(VFSC::Api2);
};

class Ext;
template <class B>
SST::ComponentExtension* makeExt(B* b, Params p);

// one log and one numbering of statistics per process and component
struct Book
{
    Log log;
    std::map<void*, int> nums;
    int num(void* p)
    {
        auto it = nums.find(p);
        if ( it != nums.end() ) return it->second;
        int m = 0;
        for ( auto& x : nums ) m = std::max(m, x.second);
        return nums[p] = m + 1;
    }
};
Book& book(const std::string& comp);

struct Rec
{
    std::string x, a, b, s;
    long long n = 0, i = 0, j = 0, k = 0, t = 0;
    std::vector<int> l;
    std::string str() const
    {
        std::ostringstream o;
        o << "{\"x\":\"" << x << "\",\"n\":" << n << ",\"a\":\"" << a << "\",\"b\":\"" << b << "\",\"s\":\"" << s << "\",\"i\":" << i << ",\"j\":" << j
          << ",\"k\":" << k << ",\"t\":" << t << ",\"l\":[";
        for ( size_t q = 0; q < l.size(); ++q ) o << (q ? "," : "") << l[q];
        o << "]}";
        return o.str();
    }
};

template <class Base>
class Body : public Base
{
public:
    template <class T>
    T* ext(Params p) { return this->template loadComponentExtension<T>(p); }
    template <class... A>
    Body(ComponentId_t id, A... a) : Base(id, a...) {}
    Body() = default;
    virtual ~Body() {}

    void start(Params& p)
    {
        me = p.find<int>("id", 0);
        Rec r;
        r.x = "new"; r.a = this->getName(); r.b = this->getType(); r.s = this->getParentComponentName(); r.i = this->isAnonymous();
        r.j = (long long)this->getCoordinates()[0];
        put(r);
        send2 = p.find<long long>("again", 0);
        for ( auto& x : split(p.find<std::string>("late", ""), ';') ) if ( !x.empty() ) late.push_back(x);
        for ( auto& x : split(p.find<std::string>("ops", ""), ';') ) if ( !x.empty() ) op(x, p);
        this->registerClock(std::string("1ns"), new Clock::Handler<Body, &Body::onClock>(this), false);
    }

    void init(unsigned int phase) override
    {
        for ( size_t q = 0; q < ports.size(); ++q ) {
            if ( phase == 0 ) links[q]->sendUntimedData(new TEvent(std::to_string(me) + "." + ports[q]));
            while ( Event* e = links[q]->recvUntimedData() ) {
                Rec r;
                r.x = "hi"; r.a = ports[q]; r.b = static_cast<TEvent*>(e)->s; r.i = phase;
                put(r);
                heard[q] = 1;
                delete e;
            }
        }
        for ( auto* c : kids ) c->init(phase);
        for ( auto* c : exts ) c->init(phase);
    }
    void setup() override
    {
        for ( size_t q = 0; q < ports.size(); ++q ) {
            Rec r;
            r.x = "dtb"; r.a = ports[q]; r.i = links[q]->getDefaultTimeBase().getFactor();
            put(r);
        }
        sendAll();
        for ( auto* c : kids ) c->setup();
        for ( auto* c : exts ) c->setup();
    }
    bool onClock(Cycle_t c)
    {
        for ( size_t q = 0; q < ports.size(); ++q )
            if ( ports[q][0] == 'p' )
                while ( Event* e = links[q]->recv() ) got(e, (int)q);
        if ( (long long)c == send2 ) sendAll();
        if ( (long long)c == 7 ) {
            for ( auto& x : late ) { Params p; op(x, p); }
            Rec r;
            r.x = "still"; r.a = this->getName(); r.b = this->getType(); r.s = this->getParentComponentName(); r.i = this->isAnonymous();
            r.j = (long long)this->getCoordinates()[0];
            put(r);
        }
        return tick(c);
    }
    virtual bool tick(Cycle_t) { return false; }
    void onEvent(Event* e, int q) { got(e, q); }
    void onSelf(Event* e, int q)
    {
        Rec r;
        r.x = "sgot"; r.a = "f" + std::to_string(q); r.b = static_cast<TEvent*>(e)->s; r.t = this->getCurrentSimCycle();
        put(r);
        delete e;
    }

    void body_ser(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(me); SST_SER(ports); SST_SER(links); SST_SER(heard); SST_SER(selfs); SST_SER(kids); SST_SER(exts); SST_SER(late); SST_SER(send2);
        SST_SER(held); SST_SER(heldNum);
        // the numbers of the statistics are those of the first run
        if ( ser.mode() == SST::Core::Serialization::serializer::UNPACK )
            for ( size_t q = 0; q < held.size(); ++q ) book(this->getParentComponentName()).nums[held[q]] = heldNum[q];
    }

protected:
    int me = 0;
    std::vector<std::string> ports, late;
    std::vector<Link*> links, selfs;
    std::vector<int> heard, heldNum;
    std::vector<Statistics::Statistic<uint64_t>*> held;
    std::vector<SST::SubComponent*> kids;
    std::vector<SST::ComponentExtension*> exts;
    long long send2 = 0;

    void put(Rec& r) { r.n = me; book(this->getParentComponentName()).log.line(this->getParentComponentName(), r.str()); }
    void got(Event* e, int q)
    {
        Rec r;
        r.x = "got"; r.a = ports[q]; r.b = static_cast<TEvent*>(e)->s; r.t = this->getCurrentSimCycle();
        put(r);
        delete e;
    }
    void sendAll()
    {
        for ( size_t q = 0; q < ports.size(); ++q )
            if ( heard[q] ) {
                Rec r;
                r.x = "snd"; r.a = ports[q]; r.t = this->getCurrentSimCycle();
                put(r);
                links[q]->send(0, new TEvent(std::to_string(me) + "." + ports[q]));
            }
        for ( size_t q = 0; q < selfs.size(); ++q ) {
            Rec r;
            r.x = "ssnd"; r.a = "f" + std::to_string(q); r.t = this->getCurrentSimCycle();
            put(r);
            selfs[q]->send(3, std::string("1ns"), new TEvent(std::to_string(me) + ".f" + std::to_string(q)));
        }
    }
    template <class T>
    void kid(Rec r, T* c)
    {
        r.x = "ret"; r.i = (c != nullptr);
        put(r);
        if ( c ) kids.push_back(c);
    }
    void op(const std::string& x, Params& p)
    {
        auto v = split(x, ':');
        Rec r;
        auto num = [&](size_t i) { return i < v.size() ? atoi(v[i].c_str()) : 0; };
        if ( v[0] == "c" ) {
            // c:port:timebase or empty
            int q = ports.size();
            std::string tb = v.size() > 2 ? v[2] : "";
            Link* l = nullptr;
            auto* h = v[1][0] == 'h' ? new Event::Handler<Body, &Body::onEvent, int>(this, q) : nullptr;
            if ( tb.empty() ) l = h ? this->configureLink(v[1], h) : this->configureLink(v[1]);
            else l = h ? this->configureLink(v[1], tb, h) : this->configureLink(v[1], tb);
            r.x = "conf"; r.a = v[1]; r.i = l != nullptr; r.j = tb.empty() ? 0 : this->getTimeConverter(tb).getFactor();
            if ( l ) { ports.push_back(v[1]); links.push_back(l); heard.push_back(0); }
            put(r);
        }
        else if ( v[0] == "f" ) {
            int q = selfs.size();
            Link* l = this->configureSelfLink("f" + std::to_string(q) + "_" + std::to_string(me), new Event::Handler<Body, &Body::onSelf, int>(this, q));
            selfs.push_back(l);
            r.x = "self"; r.a = "f" + std::to_string(q); r.i = l != nullptr;
            put(r);
        }
        else if ( v[0] == "q" ) {
            r.x = "conn"; r.a = v[1]; r.i = this->isPortConnected(v[1]);
            put(r);
        }
        else if ( v[0] == "b" ) {
            auto tc = this->registerTimeBase(v[1], num(2) != 0);
            r.x = "tb"; r.i = tc.getFactor(); r.j = num(2);
            put(r);
        }
        else if ( v[0] == "i" ) {
            SubComponentSlotInfo* s = this->getSubComponentSlotInfo(v[1]);
            r.x = "slot"; r.a = v[1]; r.i = s ? s->getMaxPopulatedSlotNumber() : -1; r.j = s ? s->isAllPopulated() : 0;
            if ( s ) for ( int k = 0; k < 6; ++k ) r.l.push_back(s->isPopulated(k));
            delete s;
            put(r);
        }
        else if ( v[0] == "u" ) {
            // u:slot:num:flags:api:how
            int n = num(2), api = num(4);
            uint64_t fl = num(3);
            r.x = "load"; r.a = v[1]; r.i = n; r.j = fl; r.k = api; r.s = v[5];
            put(r);
            if ( v[5] == "one" ) {
                if ( api == 1 ) kid(r, this->template loadUserSubComponent<Api1>(v[1], fl, 5));
                else kid(r, this->template loadUserSubComponent<Api2>(v[1], fl));
            }
            else if ( v[5] == "info" ) {
                SubComponentSlotInfo* s = this->getSubComponentSlotInfo(v[1]);
                if ( !s ) kid(r, (Api1*)nullptr);
                else if ( api == 1 ) kid(r, s->template create<Api1>(n, fl, 5));
                else kid(r, s->template create<Api2>(n, fl));
                delete s;
            }
            else {   // all those of the slot
                SubComponentSlotInfo* s = this->getSubComponentSlotInfo(v[1]);
                std::vector<Api1*> w;
                if ( s && v[5] == "all" ) s->template createAll<Api1>(w, fl, 5);
                else if ( s ) s->template createAllSparse<Api1>(w, fl, 5);
                r.x = "many";
                for ( auto* c : w ) {
                    r.l.push_back(c != nullptr);
                    if ( c ) kids.push_back(c);
                }
                put(r);
                delete s;
            }
        }
        else if ( v[0] == "n" ) {
            // n:slot:num:flags:api:type:key
            int n = num(2), api = num(4);
            uint64_t fl = num(3);
            r.x = "anon"; r.a = v[1]; r.i = n; r.j = fl; r.k = api; r.s = v[5];
            put(r);
            Params sub = p.get_scoped_params(v[6]);
            if ( api == 1 ) kid(r, this->template loadAnonymousSubComponent<Api1>(v[5], v[1], n, fl, sub, 5));
            else kid(r, this->template loadAnonymousSubComponent<Api2>(v[5], v[1], n, fl, sub));
        }
        else if ( v[0] == "e" ) {
            r.x = "extn";
            put(r);
            Params sub = p.get_scoped_params(v[1]);
            SST::ComponentExtension* e = makeExt(this, sub);
            exts.push_back(e);
            r.x = "ret"; r.i = e != nullptr;
            put(r);
        }
        else if ( v[0] == "s" ) {
            r.x = "stat"; r.a = v[1]; r.b = v.size() > 2 ? v[2] : "";
            r.l.push_back(this->isStatisticShared(v[1], true));
            if ( r.l[0] ) {
                Statistics::Statistic<uint64_t>* s = this->template registerStatistic<uint64_t>(v[1], r.b);
                if ( !s->isNullStatistic() ) {
                    r.j = book(this->getParentComponentName()).num(s);
                    held.push_back(s);
                    heldNum.push_back(r.j);
                    r.s = s->getCompName() + "/" + s->getStatName() + "/" + s->getStatSubId();
                    r.k = (long long)s->getCollectionCountLimit();
                }
            }
            put(r);
        }
    }
};

#define VFSC_ALL { "id", "", "0" }, { "ops", "", "" }, { "late", "", "" }, { "again", "", "0" }

class Comp : public Body<SST::Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(Comp, "vfsc", "Comp", SST_ELI_ELEMENT_VERSION(1, 0, 0), "tree", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS(VFSC_ALL)
    SST_ELI_DOCUMENT_PORTS({ "h%d", "", {} }, { "p%d", "", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "a", "", "1", 1 }, { "b", "", "1", 2 }, { "c", "", "1", 5 })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "x", "", "VFSC::Api1" }, { "y", "", "VFSC::Api1" }, { "z", "", "VFSC::Api2" })
    SST_ELI_IS_CHECKPOINTABLE()
    Comp(ComponentId_t id, Params& p) : Body<SST::Component>(id)
    {
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        start(p);
    }
    Comp() = default;
    bool tick(Cycle_t c) override
    {
        if ( c == 40 ) primaryComponentOKToEndSim();
        return false;
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SST::Component::serialize_order(ser); body_ser(ser); }
    ImplementSerializable(VFSC::Comp)
};

class SubA : public Body<Api1>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(SubA, "vfsc", "SubA", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sub", VFSC::Api1)
    SST_ELI_DOCUMENT_PARAMS(VFSC_ALL)
    SST_ELI_DOCUMENT_PORTS({ "h%d", "", {} }, { "p%d", "", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "a", "", "1", 1 }, { "c", "", "1", 3 }, { "d", "", "1", 2 })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "x", "", "VFSC::Api1" }, { "y", "", "VFSC::Api1" }, { "z", "", "VFSC::Api2" })
    SubA(ComponentId_t id, Params& p, int) : Body<Api1>(id) { start(p); }
    SubA() = default;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Api1::serialize_order(ser); body_ser(ser); }
    ImplementSerializable(VFSC::SubA)
};

class SubB : public Body<Api2>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(SubB, "vfsc", "SubB", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sub", VFSC::Api2)
    SST_ELI_DOCUMENT_PARAMS(VFSC_ALL)
    SST_ELI_DOCUMENT_PORTS({ "h%d", "", {} }, { "p%d", "", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "d", "", "1", 4 }, { "e", "", "1", 1 })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "x", "", "VFSC::Api1" }, { "y", "", "VFSC::Api1" }, { "z", "", "VFSC::Api2" })
    SubB(ComponentId_t id, Params& p) : Body<Api2>(id) { start(p); }
    SubB() = default;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Api2::serialize_order(ser); body_ser(ser); }
    ImplementSerializable(VFSC::SubB)
};

class Ext : public Body<SST::ComponentExtension>
{
public:
    Ext(ComponentId_t id, Params p) : Body<SST::ComponentExtension>(id) { start(p); }
    Ext() = default;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SST::ComponentExtension::serialize_order(ser); body_ser(ser); }
    ImplementSerializable(VFSC::Ext)
};

template <class B>
SST::ComponentExtension* makeExt(B* b, Params p) { return b->template ext<Ext>(p); }

Book& book(const std::string& comp)
{
    static std::mutex m;
    static std::map<std::string, Book> all;
    std::lock_guard<std::mutex> g(m);
    return all[comp];
}
} // namespace VFSC
