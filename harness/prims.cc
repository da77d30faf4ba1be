// Runs programs of calls on the queues, barriers and locks of threadsafe.h under
// many schedules and writes the histories of calls and returns.
#include "vfsched.h"
#include <fstream>
#include <nlohmann/json.hpp>
#include "sst/core/threadsafe.h"
using json = nlohmann::json;
using namespace SST::Core::ThreadSafe;
using vf::Cell;
using vf::Sched;

static json* hist;
static void ev(const char* e, int t, const std::string& op, int a, int r)
{
    hist->push_back({ { "e", e }, { "t", t }, { "op", op }, { "a", a }, { "r", r } });
}

template <class Q>
struct QueueCalls
{
    Q& q;
    bool tins(int v);
    int call(const std::string& op, int a)
    {
        if constexpr ( std::is_same_v<Q, BoundedQueue<Cell>> ) {
            if ( op == "tins" ) return q.try_insert(Cell(a)) ? 1 : 0;
            if ( op == "ins" ) {
                while ( !q.try_insert(Cell(a)) ) vf::pause();
                return 1;
            }
            if ( op == "size" ) return q.size();
            if ( op == "empty" ) return q.empty() ? 1 : 0;
        }
        else {
            if ( op == "tins" || op == "ins" ) {
                q.insert(Cell(a));
                return 1;
            }
        }
        if ( op == "trem" ) {
            Cell c;
            return q.try_remove(c) ? c.get() : -1;
        }
        if ( op == "rem" ) {
            Cell c = q.remove();
            return c.get();
        }
        abort();
    }
};

template <class Q>
static void queue(Q& q, const json& prog, vf::Strategy* st)
{
    Sched&        s = Sched::get();
    QueueCalls<Q> c { q };
    int           n = prog["threads"].size();
    for ( int t = 0; t < n; ++t )
        s.add([&, t] {
            for ( auto& o : prog["threads"][t] ) {
                std::string op = o["op"];
                int         a  = o["a"];
                ev("call", t + 1, op, a, 0);
                int r = c.call(op, a);
                ev("ret", t + 1, op, a, r);
            }
        });
    if ( !s.run(st) ) {
        ev("stuck", 0, "", 0, 0);
        return;
    }
    // at rest: what is left
    if constexpr ( std::is_same_v<Q, BoundedQueue<Cell>> )
        for ( const char* op : { "size", "empty" } ) ev("rest", n + 1, op, 0, c.call(op, 0));
    s.fibers.clear();
    s.add([&] {
        for ( int k = 0; k < 200; ++k ) {
            ev("call", n + 1, "trem", 0, 0);
            int r = c.call("trem", 0);
            ev("ret", n + 1, "trem", 0, r);
            if ( r == -1 ) break;
        }
    });
    if ( !s.run(st) ) ev("stuck", 0, "", 0, 0);
}

static void barrier(const json& prog, vf::Strategy* st)
{
    Sched&  s = Sched::get();
    int     n = prog["threads"].size(), gens = prog["gens"];
    Barrier made(n), later;
    if ( prog["resize"] == 1 ) later.resize(n);
    Barrier&                       b = prog["resize"] == 1 ? later : made;
    std::vector<std::vector<Cell>> data(gens, std::vector<Cell>(n));
    for ( int t = 0; t < n; ++t )
        s.add([&, t] {
            int g = 0;
            for ( auto& o : prog["threads"][t] ) {
                if ( o["op"] == "wait" ) {
                    data[g][t].set(100 * g + t);
                    ev("call", t + 1, "wait", g, 0);
                    b.wait();
                    ev("ret", t + 1, "wait", g, 0);
                    for ( int u = 0; u < n; ++u )
                        if ( data[g][u].get() != 100 * g + u ) ev("ret", t + 1, "stale", g, u);
                    ++g;
                }
            }
        });
    if ( !s.run(st) ) ev("stuck", 0, "", 0, 0);
}

static void lock(const json& prog, vf::Strategy* st)
{
    Sched&   s = Sched::get();
    Spinlock l;
    Cell     c(0);
    int      n = prog["threads"].size();
    for ( int t = 0; t < n; ++t )
        s.add([&, t] {
            for ( auto& o : prog["threads"][t] ) {
                (void)o;
                ev("call", t + 1, "lock", 0, 0);
                l.lock();
                ev("ret", t + 1, "lock", 0, 0);
                int x = c.get();
                c.set(x + 1);
                ev("call", t + 1, "unlock", 0, 0);
                l.unlock();
                ev("ret", t + 1, "unlock", 0, 0);
            }
        });
    if ( !s.run(st) ) ev("stuck", 0, "", 0, 0);
    else ev("rest", 0, "count", 0, c.get());
}

static void extreme(const json& prog, vf::Strategy* st)
{
    Sched&           s = Sched::get();
    std::atomic<int> mx { 0 }, mn { 0 };
    int              n = prog["threads"].size();
    for ( int t = 0; t < n; ++t )
        s.add([&, t] {
            for ( auto& o : prog["threads"][t] ) {
                int a = o["a"];
                ev("call", t + 1, o["op"], a, 0);
                if ( o["op"] == "max" ) atomic_fetch_max(mx, a);
                else atomic_fetch_min(mn, a);
                ev("ret", t + 1, o["op"], a, 0);
            }
        });
    if ( !s.run(st) ) ev("stuck", 0, "", 0, 0);
    else {
        ev("rest", 0, "max", 0, mx.load());
        ev("rest", 0, "min", 0, mn.load());
    }
}

static void one(const json& prog, vf::Strategy* st)
{
    Sched& s    = Sched::get();
    s.fibers.clear();
    s.raced     = false;
    s.mainclock = vf::VC();
    std::string k = prog["kind"];
    if ( k == "bounded" ) {
        // as in the simulator: made with its size or initialized later
        auto q = std::make_unique<BoundedQueue<Cell>>();
        std::unique_ptr<BoundedQueue<Cell>> q2;
        if ( prog["late"] == 1 ) q->initialize(prog["cap"]);
        else q2.reset(new BoundedQueue<Cell>(prog["cap"].get<int>()));
        queue(prog["late"] == 1 ? *q : *q2, prog, st);
        if ( s.stuck ) {
            q.release();
            q2.release();
        }
    }
    else if ( k == "unbounded" ) {
        auto* q = new UnboundedQueue<Cell>();
        queue(*q, prog, st);
        if ( !s.stuck ) delete q;
    }
    else if ( k == "barrier" ) barrier(prog, st);
    else if ( k == "lock" ) lock(prog, st);
    else if ( k == "extreme" ) extreme(prog, st);
    else abort();
    if ( s.raced ) ev("race", 0, s.racewhere, 0, 0);
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    json          progs = json::parse(in);
    unsigned      seed  = argc > 3 ? atoi(argv[3]) : 1;
    out << "[";
    bool first = true;
    for ( auto& p : progs ) {
        std::set<std::string> seen;
        uint64_t              runs = 0, all = 0;
        size_t                keep = p["keep"];
        json                  h;
        int                   nbad = 0;
        auto                  take = [&] {
            ++runs;
            std::string t = h.dump();
            bool        bad = t.find("\"stuck\"") != std::string::npos || t.find("\"race\"") != std::string::npos;
            nbad += bad;
            if ( bad || seen.size() < keep ) seen.insert(t);
        };
        hist = &h;
        // all schedules with few preemptions
        vf::Dfs d(p["bound"]);
        uint64_t lim = p["dfs"];
        for ( ;; ) {
            h = json::array();
            d.begin();
            one(p, &d);
            take();
            if ( runs >= lim || nbad > 5 ) break;
            if ( !d.advance() ) {
                all = 1;
                break;
            }
            if ( seen.size() > keep + 5 ) break;
        }
        for ( uint64_t i = 0; i < p["random"].get<uint64_t>() && nbad <= 5 && seen.size() <= 2 * keep; ++i ) {
            h = json::array();
            if ( i % 2 ) {
                vf::Pct s(seed++, p["threads"].size(), 3, 60);
                one(p, &s);
            }
            else {
                static const double ps[] = { 0.05, 0.2, 0.5, 0.9 };
                vf::Random s(seed++, ps[(i / 2) % 4], i % 6 ? 0 : 0.1);
                one(p, &s);
            }
            ++runs;
            std::string t = h.dump();
            bool        bad = t.find("\"stuck\"") != std::string::npos || t.find("\"race\"") != std::string::npos;
            nbad += bad;
            if ( bad || seen.size() < 2 * keep ) seen.insert(t);
        }
        json r = { { "prog", p }, { "runs", runs }, { "complete", all } };
        r["hist"] = json::array();
        for ( auto& t : seen ) r["hist"].push_back(json::parse(t));
        out << (first ? "" : ",\n") << r.dump();
        first = false;
    }
    out << "]\n";
}
