// vf.Node: a component whose every reaction is a pure function of its own history,
// and which logs every call the core makes to it together with what it did in return.
#include "vfcommon.h"

namespace VF {

class Node;

class SubAPI : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(VF::SubAPI, Node*, int)
    SubAPI(ComponentId_t id, Params&, Node*, int) : SubComponent(id) {}
    SubAPI() = default;
    virtual Link* link(int i) = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(VF::SubAPI);
};

struct PortD
{
    std::string name;
    char        kind = 'h'; // h handler, p polled, s self link with handler, q self link polled
    int         owner = -1; // subcomponent that configures it, -1 the component itself
    int64_t     tb = 1;     // timebase of the link in units
    int64_t     xs = 0, xr = 0; // added send/receive latency (units)
    int64_t     slat = 0;       // self link latency
    Link*       link = nullptr;
    void        serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(name); SST_SER(kind); SST_SER(owner); SST_SER(tb); SST_SER(xs); SST_SER(xr); SST_SER(slat); SST_SER(link);
    }
};

struct ClockD
{
    int64_t             per = 1;
    bool                ord = false, start = true;
    TimeConverter       tc;
    Clock::HandlerBase* h = nullptr;
    void                serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(per); SST_SER(ord); SST_SER(start); SST_SER(tc); SST_SER(h);
    }
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vf", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "verification node", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "id", "", "0" }, { "unit", "time unit in core steps", "1" }, { "ports", "", "" }, { "clocks", "", "" },
        { "script", "", "" }, { "gen", "", "" }, { "primary", "", "0" }, { "junk", "", "" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} }, { "s%d", "sub ports", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "subs", "VF::SubAPI" })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& params);
    Node() : Component() {}
    void init(unsigned ph) override { untimed("in", "i", ph); }
    void complete(unsigned ph) override { untimed("co", "k", ph); }
    void setup() override;
    void finish() override;
    void serialize_order(SST::Core::Serialization::serializer& ser) override;
    ImplementSerializable(VF::Node)
public:

    void onEvent(Event* ev, int p);
    bool onClock(Cycle_t cy, int h);

    // configure the ports owned by `owner` using the given configurer
    Link* conf(BaseComponent* b, int p);
    void  note(const std::string& s) { log_.line(getName(), s); }
    int   id() { return id_; }
    PortD& pd(int i) { return ports_[i]; }
    int   np() { return ports_.size(); }
    Link* cfgLink(const std::string& n, TimeConverter tc, Event::HandlerBase* h)
    { return h ? configureLink(n, tc, h) : configureLink(n, tc); }

private:
    int                      id_ = 0;
    int64_t                  unit_ = 1;
    std::vector<PortD>       ports_;
    std::vector<ClockD>      clocks_;
    std::vector<SubAPI*>     subs_;
    std::map<std::string, std::string> script_;
    std::map<std::string, int64_t>     gen_;
    std::map<std::string, int>         cnt_;
    uint64_t                 hist_ = 0;
    int64_t                  sent_ = 0, usent_ = 0;
    bool                     primary_ = false, okd_ = false;
    // not serialized
    Log                      log_;
    std::string              ops_;
    bool                     ret_ = false;
    int                      curclk_ = -1;
    std::map<int, int64_t>   off_; // when a handler last became inactive

    uint64_t draw(uint64_t n) { hist_ = mix(hist_); return n ? (hist_ >> 7) % n : 0; }
    void     add(const std::string& s) { if ( !ops_.empty() ) ops_ += ","; ops_ += s; }
    void     trigger(const std::string& key, uint64_t salt);
    void     doOps(const std::string& ops);
    void     doOp(const std::vector<std::string>& a);
    void     genOps(char kind);
    void     untimed(const char* tag, const char* pre, unsigned ph);
    std::string now() { return std::to_string((int64_t)getCurrentSimCycle()); }
};

class Sub : public SubAPI
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vf", "Sub", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sub", VF::SubAPI)
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} }, { "s%d", "sub ports", {} })
    SST_ELI_IS_CHECKPOINTABLE()
    Sub(ComponentId_t id, Params& p, Node* n, int me) : SubAPI(id, p, n, me), node_(n), me_(me)
    {
        links_.assign(n->np(), nullptr);
        for ( int i = 0; i < n->np(); ++i )
            if ( n->pd(i).owner == me ) links_[i] = cfg(i);
    }
    Sub() = default;
    Link* link(int i) override { return links_[i]; }
    void  serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SubAPI::serialize_order(ser);
        SST_SER(node_); SST_SER(me_); SST_SER(links_);
    }
    ImplementSerializable(VF::Sub)
public:
    void onEvent(Event* ev, int p) { node_->onEvent(ev, p); }
private:
    Node*              node_ = nullptr;
    int                me_ = 0;
    std::vector<Link*> links_;
    Link* cfg(int i)
    {
        PortD& d = node_->pd(i);
        TimeConverter tc = getTimeConverter(std::to_string(d.tb) + "ps");
        if ( d.kind == 'p' ) return configureLink(d.name, tc);
        return configureLink(d.name, tc, new Event::Handler<Sub, &Sub::onEvent, int>(this, i));
    }
};

static int64_t toi(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }

Node::Node(ComponentId_t id, Params& params) : Component(id)
{
    id_      = params.find<int>("id", 0);
    unit_    = params.find<int64_t>("unit", 1);
    primary_ = params.find<bool>("primary", false);
    for ( auto& s : split(params.find<std::string>("script", ""), '|') ) {
        size_t k = s.find(':');
        if ( k != std::string::npos ) script_[s.substr(0, k)] = s.substr(k + 1);
    }
    for ( auto& s : split(params.find<std::string>("gen", ""), ',') ) {
        size_t k = s.find('=');
        if ( k != std::string::npos ) gen_[s.substr(0, k)] = toi(s.substr(k + 1));
    }
    hist_ = mix((uint64_t)gen_["seed"] * 1000003 + id_);
    // name:kind:owner:tb:xs:xr:slat
    int nsub = 0;
    for ( auto& s : split(params.find<std::string>("ports", ""), ',') ) {
        auto a = split(s, ':');
        if ( a.size() < 7 ) continue;
        PortD d;
        d.name = a[0]; d.kind = a[1][0]; d.owner = toi(a[2]); d.tb = toi(a[3]) * unit_; d.xs = toi(a[4]); d.xr = toi(a[5]); d.slat = toi(a[6]);
        if ( d.owner >= nsub ) nsub = d.owner + 1;
        ports_.push_back(d);
    }
    int loaded = -1;
    for ( int i = 0; i < (int)ports_.size(); ++i ) {
        PortD& d = ports_[i];
        TimeConverter tc = getTimeConverter(std::to_string(d.tb) + "ps");
        if ( d.owner >= 0 ) {
            if ( d.owner > loaded ) {
                loaded = d.owner;
                SubComponentSlotInfo* si = getSubComponentSlotInfo("sub");
                SubAPI* sub = si ? si->create<SubAPI>(d.owner, ComponentInfo::SHARE_PORTS, this, d.owner) : nullptr;
                subs_.push_back(sub);
            }
            d.link = subs_[d.owner] ? subs_[d.owner]->link(i) : nullptr;
        }
        else if ( d.kind == 'h' ) d.link = configureLink(d.name, tc, new Event::Handler<Node, &Node::onEvent, int>(this, i));
        else if ( d.kind == 'p' ) d.link = configureLink(d.name, tc);
        else if ( d.kind == 's' ) d.link = configureSelfLink(d.name, tc, new Event::Handler<Node, &Node::onEvent, int>(this, i));
        else if ( d.kind == 'q' ) d.link = configureSelfLink(d.name, tc);
        if ( !d.link ) { note("{\"x\":\"nolink\",\"p\":" + std::to_string(i) + "}"); continue; }
        if ( d.xs ) d.link->addSendLatency(d.xs, std::to_string(unit_) + "ps");
        if ( d.xr ) d.link->addRecvLatency(d.xr, getTimeConverter(std::to_string(unit_) + "ps"));
        if ( d.slat ) d.link->addSendLatency(d.slat, std::to_string(unit_) + "ps");
    }
    // per:o|u:1|0
    for ( auto& s : split(params.find<std::string>("clocks", ""), ',') ) {
        auto a = split(s, ':');
        if ( a.size() < 3 ) continue;
        ClockD d;
        d.per = toi(a[0]) * unit_; d.ord = a[1] == "o"; d.start = a[2] == "1";
        d.tc  = getTimeConverter(std::to_string(d.per) + "ps");
        int i = clocks_.size();
        if ( d.ord ) d.h = registerOrderedClock<Node, &Node::onClock, int>(d.tc, this, i, false);
        else d.h = registerClock<Node, &Node::onClock, int>(d.tc, this, i, false);
        clocks_.push_back(d);
    }
    for ( auto& c : clocks_ ) if ( !c.start ) c.h->deactivate();
    if ( primary_ ) { registerAsPrimaryComponent(); primaryComponentDoNotEndSim(); }
}

void Node::serialize_order(SST::Core::Serialization::serializer& ser)
{
    Component::serialize_order(ser);
    // a link must not be serialized from inside its own serialization: owners first
    SST_SER(id_); SST_SER(unit_); SST_SER(subs_); SST_SER(ports_); SST_SER(clocks_); SST_SER(script_); SST_SER(gen_); SST_SER(cnt_);
    SST_SER(hist_); SST_SER(sent_); SST_SER(usent_); SST_SER(primary_); SST_SER(okd_); SST_SER(off_);
}

void Node::doOps(const std::string& ops)
{
    for ( auto& o : split(ops, ';') ) if ( !o.empty() ) doOp(split(o, ' '));
}

void Node::doOp(const std::vector<std::string>& a)
{
    const std::string& k = a[0];
    if ( k == "s" || k == "n" ) { // send port delay [value]
        int     p = toi(a[1]);
        int64_t d = toi(a[2]);
        int64_t v = -2;
        Event*  e = nullptr;
        if ( k == "s" ) { v = a.size() > 3 ? toi(a[3]) : (int64_t)id_ * 100000 + sent_;
            if ( a.size() <= 3 && gen_["pad"] && draw(3) == 0 ) v += (int64_t)draw(gen_["pad"] + 1) << 24;
            e = new VEvent(v); }
        ++sent_;
        int64_t q = d * unit_ / ports_[p].tb; // delay in link timebase (0 when it does not divide: truncated on purpose)
        add("[\"s\"," + std::to_string(p) + "," + std::to_string(q * ports_[p].tb) + "," + std::to_string(v) + "]");
        if ( q == 0 && (sent_ & 1) ) ports_[p].link->send(e);
        else if ( sent_ % 3 == 0 ) ports_[p].link->send(q * ports_[p].tb / unit_, getTimeConverter(std::to_string(unit_) + "ps"), e);
        else ports_[p].link->send(q, e);
    }
    else if ( k == "r" ) { // poll once
        int    p = toi(a[1]);
        Event* e = ports_[p].link->recv();
        int64_t v = -1;
        if ( e ) { v = val(e); delete e; }
        add("[\"r\"," + std::to_string(p) + "," + std::to_string(v) + "]");
    }
    else if ( k == "R" ) { // poll until nothing is left
        int p = toi(a[1]);
        for ( int i = 0; i < 1000; ++i ) {
            Event* e = ports_[p].link->recv();
            int64_t v = -1;
            if ( e ) { v = val(e); delete e; }
            add("[\"r\"," + std::to_string(p) + "," + std::to_string(v) + "]");
            if ( v == -1 ) break;
        }
    }
    else if ( k == "a" || k == "d" ) { // activate, deactivate
        int h = toi(a[1]);
        ClockD& c = clocks_[h];
        if ( k == "a" ) {
            int64_t n;
            if ( c.ord || a.size() > 2 ) n = c.h->activate();
            else n = reregisterClock(c.tc, c.h);
            add("[\"a\"," + a[1] + "," + std::to_string(n) + "]");
        }
        else {
            off_[h] = getCurrentSimCycle();
            if ( c.ord || a.size() > 2 ) c.h->deactivate();
            else unregisterClock(c.tc, c.h);
            add("[\"d\"," + a[1] + "]");
        }
    }
    else if ( k == "g" ) {
        int h = toi(a[1]);
        add("[\"g\"," + a[1] + "," + std::to_string((int64_t)getNextClockCycle(clocks_[h].tc)) + "]");
    }
    else if ( k == "w" ) { ret_ = true; if ( curclk_ >= 0 ) off_[curclk_] = getCurrentSimCycle(); } // clock: return true
    else if ( k == "ok" ) {
        if ( gen_["zok"] ) usleep(mix(hist_ + 77) % 3 * 20000);
        primaryComponentOKToEndSim(); add("[\"ok\"]"); }
    else if ( k == "no" ) { primaryComponentDoNotEndSim(); add("[\"no\"]"); }
    else if ( k == "pr" ) { registerAsPrimaryComponent(); add("[\"pr\"]"); }
    else if ( k == "u" ) { // untimed send
        int p = toi(a[1]); int64_t v = toi(a[2]);
        ports_[p].link->sendUntimedData(new VEvent(v));
        add("[\"u\"," + a[1] + "," + a[2] + "]");
    }
    else if ( k == "v" ) { // untimed receive once
        int p = toi(a[1]);
        Event* e = ports_[p].link->recvUntimedData();
        int64_t v = -1;
        if ( e ) { v = val(e); delete e; }
        add("[\"v\"," + a[1] + "," + std::to_string(v) + "]");
    }
    else if ( k == "t" ) {
        add("[\"t\"," + now() + "," + std::to_string((int64_t)getCurrentSimTime(std::to_string(unit_) + "ps")) + "]");
    }
}

void Node::trigger(const std::string& key, uint64_t salt)
{
    ops_.clear();
    ret_   = false;
    hist_  = mix(hist_ ^ salt);
    // some components take long in real time, which must not matter
    if ( gen_["slow"] && mix(hist_ + 5) % 100 < (uint64_t)gen_["slow"] ) usleep(mix(hist_ + 6) % 2500);
    auto n = cnt_[key]++;
    auto i = script_.find(key + "." + std::to_string(n));
    if ( i == script_.end() ) i = script_.find(key);
    if ( i != script_.end() ) doOps(i->second);
    else if ( gen_.count("on") && key[0] != 'f' ) genOps(key[0]);
}

void Node::genOps(char kind)
{
    int64_t t = getCurrentSimCycle() / unit_;
    // polls
    for ( int i = 0; i < (int)ports_.size(); ++i ) {
        if ( ports_[i].kind == 'p' || ports_[i].kind == 'q' ) {
            if ( kind == 's' ) continue;
            uint64_t r = draw(4);
            if ( r == 0 ) doOp({ "r", std::to_string(i) });
            else if ( r == 1 ) doOp({ "R", std::to_string(i) });
        }
    }
    // sends: an event keeps roughly one event alive, clocks and setup inject new ones
    int ns = 0;
    if ( kind == 'e' ) { uint64_t r = draw(10); ns = r < 2 ? 0 : r < 8 ? 1 : r < 9 ? 2 : 3; }
    else if ( kind == 'c' ) { ns = (int64_t)draw(100) < gen_["inj"] ? 1 + (draw(4) == 0) : 0; }
    else if ( kind == 's' ) ns = draw(3);
    int64_t delays[] = { 0, 0, 0, 0, 1, 2, 3, gen_["dly"] ? gen_["dly"] : 7 };
    for ( int i = 0; i < ns && sent_ < gen_["max"] && !ports_.empty(); ++i ) {
        int  p   = draw(ports_.size());
        auto d   = delays[draw(8)];
        bool nul = draw(20) == 0;
        if ( (ports_[p].kind == 's' || ports_[p].kind == 'q') && d == 0 && draw(3) ) d = 1;
        if ( nul ) doOp({ "n", std::to_string(p), std::to_string(d) });
        else doOp({ "s", std::to_string(p), std::to_string(d) });
        if ( draw(5) == 0 ) { // burst on the same port
            doOp({ "s", std::to_string(p), std::to_string(d) });
        }
    }
    // clocks: handler 0 of a primary component always stays on
    int nc = clocks_.size();
    if ( gen_["cops"] && nc ) {
        int first = primary_ ? 1 : 0;
        if ( kind == 'c' && curclk_ >= first && draw(100) < (uint64_t)gen_["cstop"] ) doOp({ "w" });
        int ntry = gen_["cn"] ? gen_["cn"] : 1;
        for ( int k = 0; k < ntry; ++k ) {
            if ( (kind == 'e' || kind == 'c') && nc > first && draw(100) < (uint64_t)gen_["cops"] ) {
                int h = first + draw(nc - first);
                // from inside a tick only handlers of clocks that do not tick now (see DESIGN.md)
                // unless the other clock has surely come to rest
                if ( kind == 'e' || (int64_t)getCurrentSimCycle() % clocks_[h].per != 0 ||
                     (gen_["xclk"] && !clocks_[h].h->isActive() && (int64_t)getCurrentSimCycle() > off_[h] + clocks_[h].per) ) {
                    bool act = clocks_[h].h->isActive();
                    if ( act ) doOp({ "d", std::to_string(h) });
                    else doOp({ "a", std::to_string(h) });
                }
            }
        }
        if ( kind != 's' && draw(8) == 0 ) doOp({ "g", std::to_string(draw(nc)) });
    }
    if ( primary_ && !okd_ && kind != 's' && t >= gen_["end"] ) { okd_ = true; doOp({ "ok" }); }
}

void Node::onEvent(Event* ev, int p)
{
    int64_t v = val(ev);
    delete ev;
    curclk_ = -1;
    trigger("e" + std::to_string(p), mix(v * 64 + p) ^ getCurrentSimCycle());
    note("{\"c\":" + std::to_string(id_) + ",\"t\":" + now() + ",\"x\":\"ev\",\"p\":" + std::to_string(p) + ",\"v\":" + std::to_string(v) + ",\"o\":[" + ops_ + "]}");
}

bool Node::onClock(Cycle_t cy, int h)
{
    curclk_ = h;
    trigger("c" + std::to_string(h), mix(cy * 64 + h));
    note("{\"c\":" + std::to_string(id_) + ",\"t\":" + now() + ",\"x\":\"ck\",\"h\":" + std::to_string(h) + ",\"cy\":" + std::to_string((int64_t)cy) + ",\"w\":" +
         (ret_ ? "1" : "0") + ",\"o\":[" + ops_ + "]}");
    return ret_;
}

void Node::setup()
{
    curclk_ = -1;
    trigger("s", 1);
    note("{\"c\":" + std::to_string(id_) + ",\"t\":" + now() + ",\"x\":\"se\",\"o\":[" + ops_ + "]}");
}

void Node::finish()
{
    trigger("f", 2);
    note("{\"c\":" + std::to_string(id_) + ",\"t\":" + now() + ",\"x\":\"fi\",\"end\":" + std::to_string((int64_t)getEndSimCycle()) + ",\"o\":[" + ops_ + "]}");
}

void Node::untimed(const char* tag, const char* pre, unsigned ph)
{
    ops_.clear();
    auto i = script_.find(pre + std::to_string(ph));
    if ( i != script_.end() ) doOps(i->second);
    else if ( gen_.count("uon") ) {
        for ( int p = 0; p < (int)ports_.size(); ++p ) {
            if ( ports_[p].kind != 'h' && ports_[p].kind != 'p' ) continue;
            // receive: everything, a part, or nothing this phase
            int n = draw(4) == 0 ? draw(3) : 1000;
            for ( int k = 0; k < n; ++k ) {
                size_t before = ops_.size();
                doOp({ "v", std::to_string(p) });
                if ( ops_.find(",-1]", before) != std::string::npos ) break;
            }
        }
        for ( int p = 0; p < (int)ports_.size(); ++p ) {
            if ( ports_[p].kind != 'h' && ports_[p].kind != 'p' ) continue;
            if ( (int)ph < gen_["uph"] && draw(3) == 0 ) {
                int n = 1 + draw(3);
                for ( int k = 0; k < n; ++k ) doOp({ "u", std::to_string(p), std::to_string((int64_t)id_ * 100000 + 50000 + usent_++) });
            }
        }
    }
    note("{\"c\":" + std::to_string(id_) + ",\"x\":\"" + tag + "\",\"ph\":" + std::to_string(ph) + ",\"o\":[" + ops_ + "]}");
}

} // namespace VF
