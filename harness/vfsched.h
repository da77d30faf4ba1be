// Runs threads as fibers under a scheduler that switches at every access to a
// synchronization variable, and checks that shared plain data is ordered by them.
// Include before the header under test: std::atomic, std::mutex, ... of that
// header then are the ones defined here.
#ifndef VFSCHED_H
#define VFSCHED_H
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <shared_mutex>
#include <set>
#include <string>
#include <thread>
#include <time.h>
#include <ucontext.h>
#include <vector>
#if defined(__x86_64__)
#include <x86intrin.h>
#endif

namespace vf {

constexpr int MAXF = 8;
struct VC
{
    std::array<uint32_t, MAXF> c {};
    void join(const VC& o)
    {
        for ( int i = 0; i < MAXF; ++i )
            if ( o.c[i] > c[i] ) c[i] = o.c[i];
    }
};

struct Fiber
{
    ucontext_t            ctx;
    std::vector<char>     stack;
    std::function<void()> f;
    bool                  done = false, paused = false;
    int                   idle = 0; // steps since it last changed or saw something new
    VC                    clock, acq, rel;
};

// chooses which fiber runs next
struct Strategy
{
    virtual ~Strategy() {}
    // opts: fibers that may run, the current one first if it may
    virtual int  choose(const std::vector<int>& opts, bool cur_can) = 0;
    virtual bool spurious() { return false; }
    virtual void yielded(int) {} // the fiber waits for another one
};

struct Stuck
{};

class Sched
{
public:
    std::vector<std::unique_ptr<Fiber>> fibers;
    ucontext_t                          back;
    int                                 cur   = -1; // -1: the main program
    Strategy*                           strat = nullptr;
    uint64_t                            steps = 0, limit = 20000;
    bool                                stuck = false, raced = false, on = false;
    VC                                  mainclock;
    int                                 rounds = 0; // all paused, without a change
    std::string                         racewhere;

    static Sched& get()
    {
        static Sched s;
        return s;
    }
    VC& clock() { return cur < 0 ? mainclock : fibers[cur]->clock; }
    int me() { return cur < 0 ? MAXF - 1 : cur; }

    static void entry(int i)
    {
        Sched& s = get();
        s.fibers[i]->f();
        s.fibers[i]->done = true;
        s.changed();
        s.next();
    }
    void add(std::function<void()> f)
    {
        fibers.emplace_back(new Fiber);
        fibers.back()->f = f;
        fibers.back()->stack.resize(128 * 1024);
    }
    // something a waiting fiber might wait for has changed
    void changed()
    {
        rounds = 0;
        for ( auto& f : fibers ) f->paused = false;
        if ( cur >= 0 ) fibers[cur]->idle = 0;
    }
    bool run(Strategy* st)
    {
        strat = st;
        steps = 0;
        stuck = false;
        rounds = 0;
        mainclock.c[MAXF - 1]++;
        for ( size_t i = 0; i < fibers.size(); ++i ) {
            Fiber& f = *fibers[i];
            getcontext(&f.ctx);
            f.ctx.uc_stack.ss_sp   = f.stack.data();
            f.ctx.uc_stack.ss_size = f.stack.size();
            f.ctx.uc_link          = nullptr;
            makecontext(&f.ctx, (void (*)())entry, 1, (int)i);
            f.clock = mainclock;
            f.clock.c[i]++;
        }
        on  = true;
        cur = -1;
        if ( swapcontext_to_first() ) {}
        on  = false;
        cur = -1;
        for ( auto& f : fibers ) mainclock.join(f->clock);
        mainclock.c[MAXF - 1]++;
        return !stuck;
    }
    bool swapcontext_to_first()
    {
        int n = pick();
        if ( n < 0 ) return false;
        cur = n;
        swapcontext(&back, &fibers[n]->ctx);
        return true;
    }
    int pick()
    {
        for ( ;; ) {
            std::vector<int> opts;
            bool             cc = false, left = false;
            if ( cur >= 0 && !fibers[cur]->done && !fibers[cur]->paused ) {
                opts.push_back(cur);
                cc = true;
            }
            for ( int i = 0; i < (int)fibers.size(); ++i ) {
                if ( !fibers[i]->done ) left = true;
                if ( i != cur && !fibers[i]->done && !fibers[i]->paused ) opts.push_back(i);
            }
            if ( !left ) return -1;
            if ( opts.empty() ) {
                // everybody waits; let all look again a few times before giving up
                if ( ++rounds > 4 ) {
                    stuck = true;
                    return -1;
                }
                for ( auto& f : fibers ) f->paused = false;
                continue;
            }
            return opts.size() == 1 ? opts[0] : strat->choose(opts, cc);
        }
    }
    // leave the current fiber and run whichever is next
    void next()
    {
        int n = stuck ? -1 : pick();
        if ( ++steps > limit ) {
            stuck = true;
            n     = -1;
        }
        int c = cur;
        if ( n == c ) return;
        if ( n < 0 ) {
            cur = -1;
            if ( c < 0 ) return;
            swapcontext(&fibers[c]->ctx, &back);
            return;
        }
        cur = n;
        swapcontext(&fibers[c]->ctx, &fibers[n]->ctx);
    }
    // called before every access to a synchronization variable
    void point()
    {
        if ( !on || cur < 0 ) return;
        Fiber& f = *fibers[cur];
        if ( ++f.idle > 40 ) {
            f.idle   = 0;
            f.paused = true;
            strat->yielded(cur);
        }
        next();
    }
    void pause()
    {
        if ( !on || cur < 0 ) return;
        fibers[cur]->paused = true;
        strat->yielded(cur);
        next();
    }
    void tick() { clock().c[me()]++; }
    void race(const char* w)
    {
        if ( !raced ) racewhere = w;
        raced = true;
    }
};

inline void pause() { Sched::get().pause(); }

inline bool acquires(std::memory_order o)
{
    return o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel ||
           o == std::memory_order_seq_cst;
}
inline bool releases(std::memory_order o)
{
    return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}

struct Loc
{
    VC   clk;
    void rd(std::memory_order o)
    {
        Sched& s = Sched::get();
        if ( acquires(o) ) s.clock().join(clk);
        else if ( s.cur >= 0 ) s.fibers[s.cur]->acq.join(clk);
    }
    void wr(std::memory_order o, bool rmw, bool same = false)
    {
        Sched& s = Sched::get();
        VC     c;
        if ( releases(o) ) c = s.clock();
        else if ( s.cur >= 0 ) c = s.fibers[s.cur]->rel;
        if ( rmw ) clk.join(c);
        else clk = c;
        s.tick();
        if ( !same ) s.changed();
    }
};

inline void fence(std::memory_order o)
{
    Sched& s = Sched::get();
    s.point();
    if ( s.cur < 0 ) return;
    Fiber& f = *s.fibers[s.cur];
    if ( acquires(o) ) f.clock.join(f.acq);
    if ( releases(o) ) f.rel = f.clock;
}

template <class T>
class Atomic
{
    T           v;
    mutable Loc l;
    using MO = std::memory_order;
    static constexpr MO SC = std::memory_order_seq_cst;

public:
    Atomic() noexcept : v() {}
    Atomic(T x) noexcept : v(x) {}
    Atomic(const Atomic&) = delete;
    Atomic& operator=(const Atomic&) = delete;
    T load(MO o = SC) const
    {
        Sched::get().point();
        l.rd(o);
        return v;
    }
    void store(T x, MO o = SC)
    {
        Sched::get().point();
        v = x;
        l.wr(o, false);
    }
    template <class F>
    T rmw(F f, MO o)
    {
        Sched::get().point();
        l.rd(o);
        T old = v;
        v     = f(old);
        l.wr(o, true, v == old);
        return old;
    }
    T exchange(T x, MO o = SC) { return rmw([x](T) { return x; }, o); }
    T fetch_add(T x, MO o = SC) { return rmw([x](T a) { return T(a + x); }, o); }
    T fetch_sub(T x, MO o = SC) { return rmw([x](T a) { return T(a - x); }, o); }
    T fetch_or(T x, MO o = SC) { return rmw([x](T a) { return T(a | x); }, o); }
    T fetch_and(T x, MO o = SC) { return rmw([x](T a) { return T(a & x); }, o); }
    bool cas(T& e, T d, MO o, MO fo, bool weak)
    {
        Sched& s = Sched::get();
        s.point();
        if ( v == e && !(weak && s.on && s.strat->spurious()) ) {
            l.rd(o);
            v = d;
            l.wr(o, true);
            return true;
        }
        l.rd(fo);
        e = v;
        return false;
    }
    bool compare_exchange_weak(T& e, T d, MO o = SC) { return cas(e, d, o, o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o, true); }
    bool compare_exchange_strong(T& e, T d, MO o = SC) { return cas(e, d, o, o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o, false); }
    bool compare_exchange_weak(T& e, T d, MO o, MO f) { return cas(e, d, o, f, true); }
    bool compare_exchange_strong(T& e, T d, MO o, MO f) { return cas(e, d, o, f, false); }
    operator T() const { return load(); }
    T operator=(T x)
    {
        store(x);
        return x;
    }
    T operator++() { return fetch_add(1) + 1; }
    T operator--() { return fetch_sub(1) - 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T x) { return fetch_add(x) + x; }
    T operator-=(T x) { return fetch_sub(x) - x; }
    bool is_lock_free() const { return true; }
};
template <class T>
class Atomic<T*>
{
    T*          v;
    mutable Loc l;
    using MO = std::memory_order;
    static constexpr MO SC = std::memory_order_seq_cst;

public:
    Atomic() noexcept : v(nullptr) {}
    Atomic(T* x) noexcept : v(x) {}
    Atomic(const Atomic&) = delete;
    T* load(MO o = SC) const
    {
        Sched::get().point();
        l.rd(o);
        return v;
    }
    void store(T* x, MO o = SC)
    {
        Sched::get().point();
        v = x;
        l.wr(o, false);
    }
    T* exchange(T* x, MO o = SC)
    {
        Sched::get().point();
        l.rd(o);
        T* old = v;
        v      = x;
        l.wr(o, true);
        return old;
    }
    bool compare_exchange_strong(T*& e, T* d, MO o = SC, MO fo = SC)
    {
        Sched::get().point();
        if ( v == e ) {
            l.rd(o);
            v = d;
            l.wr(o, true);
            return true;
        }
        l.rd(fo);
        e = v;
        return false;
    }
    bool compare_exchange_weak(T*& e, T* d, MO o = SC, MO fo = SC) { return compare_exchange_strong(e, d, o, fo); }
    operator T*() const { return load(); }
    T* operator->() const { return load(); }
    T* operator=(T* x)
    {
        store(x);
        return x;
    }
};

class Flag
{
    Atomic<bool> b;

public:
    Flag() = default;
    Flag(bool x) : b(x) {}
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) { return b.exchange(true, o); }
    void clear(std::memory_order o = std::memory_order_seq_cst) { b.store(false, o); }
    bool test(std::memory_order o = std::memory_order_seq_cst) const { return b.load(o); }
};

class Mutex
{
    Atomic<bool> b { false };

public:
    void lock()
    {
        while ( b.exchange(true, std::memory_order_acquire) ) pause();
    }
    bool try_lock() { return !b.exchange(true, std::memory_order_acquire); }
    void unlock() { b.store(false, std::memory_order_release); }
};

class CondVar
{
    Atomic<uint64_t> n { 0 };

public:
    template <class L>
    void wait(L& l)
    {
        uint64_t at = n.load();
        l.unlock();
        while ( n.load() == at ) pause();
        l.lock();
    }
    template <class L, class P>
    void wait(L& l, P p)
    {
        while ( !p() ) wait(l);
    }
    void notify_one() { n.fetch_add(1); }
    void notify_all() { n.fetch_add(1); }
};

// shared plain data: every access must be ordered with the conflicting ones before it
struct Cell
{
    int                        v = 0;
    mutable VC                 reads;
    int                        wf = -1;
    uint32_t                   wt = 0;

    void rd() const
    {
        Sched& s = Sched::get();
        s.point();
        if ( wf >= 0 && s.clock().c[wf] < wt ) s.race("read not ordered after the write it follows");
        reads.c[s.me()] = s.clock().c[s.me()];
    }
    void wr()
    {
        Sched& s = Sched::get();
        s.point();
        if ( wf >= 0 && s.clock().c[wf] < wt ) s.race("write not ordered after an earlier write");
        for ( int i = 0; i < MAXF; ++i )
            if ( reads.c[i] > s.clock().c[i] ) s.race("write not ordered after an earlier read");
        wf = s.me();
        wt = s.clock().c[wf];
    }
    Cell() {}
    Cell(int x) : v(x) { mark(); }
    Cell(const Cell& o)
    {
        o.rd();
        v = o.v;
        mark();
    }
    Cell& operator=(const Cell& o)
    {
        o.rd();
        int x = o.v;
        wr();
        v = x;
        return *this;
    }
    void mark()
    {
        Sched& s = Sched::get();
        wf       = s.me();
        wt       = s.clock().c[wf];
    }
    int get() const
    {
        rd();
        return v;
    }
    void set(int x)
    {
        wr();
        v = x;
    }
};

// ---- strategies
struct Random : Strategy
{
    std::mt19937 g;
    double       p, sp;
    Random(unsigned seed, double p, double sp) : g(seed), p(p), sp(sp) {}
    double u() { return (g() >> 8) * (1.0 / (1 << 24)); }
    int choose(const std::vector<int>& o, bool cc) override
    {
        if ( cc && u() > p ) return o[0];
        return o[g() % o.size()];
    }
    bool spurious() override { return u() < sp; }
};
struct Pct : Strategy
{
    // random priorities, changed at a few random steps
    std::mt19937       g;
    std::vector<int>   prio;
    std::set<uint64_t> at;
    uint64_t           n = 0;
    int                low = -1;
    Pct(unsigned seed, int nf, int d, int len) : g(seed)
    {
        for ( int i = 0; i < nf; ++i ) prio.push_back(i + 1);
        std::shuffle(prio.begin(), prio.end(), g);
        for ( int i = 0; i < d; ++i ) at.insert(g() % len);
    }
    void yielded(int i) override { prio[i] = low--; }
    int choose(const std::vector<int>& o, bool) override
    {
        int b = o[0];
        for ( int x : o )
            if ( prio[x] > prio[b] ) b = x;
        if ( at.count(n++) ) {
            prio[b] = low--;
            for ( int x : o )
                if ( prio[x] > prio[b] ) b = x;
        }
        return b;
    }
};
// depth-first over all schedules with at most `bound` switches away from a fiber that could go on
struct Dfs : Strategy
{
    struct N
    {
        size_t k, n;
        bool   pre;
    };
    std::vector<N> path;
    size_t         d = 0;
    int            used = 0, bound;
    Dfs(int bound) : bound(bound) {}
    int choose(const std::vector<int>& o, bool cc) override
    {
        if ( d == path.size() ) {
            size_t n = (cc && used >= bound) ? 1 : o.size();
            path.push_back({ 0, n, cc });
        }
        N& x = path[d++];
        if ( x.pre && x.k > 0 ) ++used;
        return o[x.k < o.size() ? x.k : 0];
    }
    void begin()
    {
        d    = 0;
        used = 0;
    }
    // to the next schedule; false when there is none
    bool advance()
    {
        while ( !path.empty() && path.back().k + 1 >= path.back().n ) path.pop_back();
        if ( path.empty() ) return false;
        path.back().k++;
        return true;
    }
};
} // namespace vf

namespace std {
template <class T>
using vfatomic      = vf::Atomic<T>;
using vfatomic_flag = vf::Flag;
using vfmutex       = vf::Mutex;
using vfcondition_variable = vf::CondVar;
inline void vfatomic_thread_fence(std::memory_order o) { vf::fence(o); }
namespace vfthis_thread {
inline void yield() { vf::pause(); }
template <class D>
void sleep_for(const D&) { vf::pause(); }
template <class D>
void sleep_until(const D&) { vf::pause(); }
} // namespace vfthis_thread
} // namespace std
inline int vfnanosleep(const struct timespec*, struct timespec*) { vf::pause(); return 0; }

#define atomic              vfatomic
#define atomic_flag         vfatomic_flag
#define mutex               vfmutex
#define condition_variable  vfcondition_variable
#define atomic_thread_fence vfatomic_thread_fence
#define this_thread         vfthis_thread
#define nanosleep           vfnanosleep
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#define _mm_pause() vf::pause()
#endif
