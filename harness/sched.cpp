#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <deque>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sched {

void (*on_dead)(char const*) = nullptr;
void (*on_stuck)() = nullptr;

enum { MAXT = 24 };
using VC = std::vector<std::uint32_t>;
static void join(VC& a, VC const& b)
{
    if(a.size() < b.size()) a.resize(b.size());
    for(std::size_t i = 0; i < b.size(); ++i) if(a[i] < b[i]) a[i] = b[i];
}

enum class St { run, mutex, rd, wr, cond, join, sleep, held, fin };

struct Thread
{
    int id = 0;
    St st = St::run;
    std::atomic<int> go{0};
    void* on = nullptr;          // mutex, rwlock, condition
    pthread_mutex_t* m = nullptr;
    bool timed = false, timedout = false;
    std::uint64_t until = 0;
    Thread* target = nullptr;
    pthread_t h{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    VC vc;
    int prio = 0;
    char* slo = nullptr; char* shi = nullptr;
};

struct Mx { Thread* owner = nullptr; int n = 0; bool recursive = false; VC vc; };
struct Rw { Thread* w = nullptr; std::map<int, int> r; VC wvc, rvc; };

struct G
{
    Cfg c;
    bool on = false;
    std::uint64_t seed = 1;
    std::deque<Thread> th;       // stable addresses
    Thread* cur = nullptr;
    std::uint64_t vt = 1000000000ull;
    std::uint64_t points = 0;
    std::unordered_map<void*, Mx> mx;
    std::unordered_map<void*, Rw> rw;
    std::vector<Decision> dec;
    std::set<std::uint64_t> change;
    int low = 0;
    std::vector<std::string> races;
    std::set<std::string> seen;
    std::uint64_t rnd() { std::uint64_t x = (seed += 0x9e3779b97f4a7c15ull); x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    std::uint64_t hold_since = 0;
};
static G& g() { static G* p = new(std::malloc(sizeof(G))) G; return *p; }
static __thread Thread* me = nullptr;
static __thread int quiet_ = 1;

template<class F> static F real(char const* n)
{
    static thread_local int dummy = 0; (void)dummy;
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

static void futex_wait(std::atomic<int>& a)
{
    while(a.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_relaxed);
}
static void futex_post(std::atomic<int>& a)
{
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

static bool can_run(Thread& t)
{
    switch(t.st)
    {
    case St::run: return true;
    case St::mutex: { auto& m = g().mx[t.on]; return ! m.owner || (m.recursive && m.owner == &t); }
    case St::wr: { auto& r = g().rw[t.on]; return ! r.w && r.r.empty(); }
    case St::rd: { auto& r = g().rw[t.on]; return ! r.w; }
    case St::join: return t.target->st == St::fin;
    default: return false;
    }
}
static void expire(Thread& t)
{
    if(t.st == St::sleep) t.st = St::run;
    else if(t.st == St::cond) { t.timedout = true; t.st = St::mutex; t.on = t.m; }
    else if(t.st == St::mutex || t.st == St::rd || t.st == St::wr) { t.timedout = true; t.st = St::run; }
    t.timed = false;
}
static Thread* first_timer()
{
    Thread* r = nullptr;
    for(auto& t : g().th)
        if(t.timed && t.st != St::fin && (! r || t.until < r->until)) r = &t;
    return r;
}

// choose the next thread; the state of the caller is set already
static Thread* pick()
{
    auto& G_ = g();
    if(++G_.points > G_.c.max_points) on_dead("livelock");
    for(;;)
    {
        if(G_.hold_since && G_.vt > G_.hold_since + 60000000000ull)
        {
            on_stuck();
            release();
        }
        Thread* cand[MAXT]; int n = 0;
        if(G_.cur && can_run(*G_.cur)) cand[n++] = G_.cur;
        for(auto& t : G_.th)
        {
            if(&t == G_.cur) continue;
            if(t.st == St::cond && G_.c.spurious_pm && int(G_.rnd() % 1000) < G_.c.spurious_pm) { t.st = St::mutex; t.on = t.m; t.timed = false; }
            if(can_run(t)) cand[n++] = &t;
        }
        if(n == 0)
        {
            if(auto t = first_timer())
            {
                if(t->until > G_.vt) G_.vt = t->until;
                expire(*t);
                continue;
            }
            if(held())
            {
                on_stuck();
                release();
                continue;
            }
            on_dead("deadlock");
        }
        if(G_.c.eager_time && n < MAXT && G_.rnd() % 16 == 0)
            if(auto t = first_timer())
            {
                if(t->until > G_.vt) G_.vt = t->until;
                expire(*t);
                continue;
            }
        bool const cont = cand[0] == G_.cur;
        int k = 0;
        if(n > 1)
        {
            switch(G_.c.strategy)
            {
            case 0:
                if(! cont || int(G_.rnd() % 1000) < G_.c.switch_pm) k = int(G_.rnd() % n);
                break;
            case 1:
                if(G_.change.count(G_.points) && cont) cand[0]->prio = --G_.low;
                for(int i = 1; i < n; ++i) if(cand[i]->prio > cand[k]->prio) k = i;
                break;
            case 2:
                k = G_.dec.size() < G_.c.choices.size() ? G_.c.choices[G_.dec.size()] : 0;
                if(k >= n) k = 0;
                break;
            }
            G_.dec.push_back({(unsigned char)n, (unsigned char)k, (unsigned char)cont});
        }
        return cand[k];
    }
}
static void reschedule()
{
    auto& G_ = g();
    auto const next = pick();
    auto const self = me;
    if(next == self) return;
    G_.cur = next;
    futex_post(next->go);
    if(self->st == St::fin) return;
    futex_wait(self->go);
}

void eager(bool on) { g().c.eager_time = on; }
bool active() { return g().on && me && me->st != St::fin; }
int tid() { return me ? me->id : -1; }
std::uint64_t now_ns() { return g().vt; }
std::vector<Decision> const& decisions() { return g().dec; }
void quiet(int d) { quiet_ += d; }
std::vector<std::string> const& races() { return g().races; }

void point() { if(active()) { Quiet q; reschedule(); } }
void hold()
{
    if(! active()) return;
    Quiet q;
    me->st = St::held;
    g().hold_since = g().vt;
    reschedule();
}
bool held() { for(auto& t : g().th) if(t.st == St::held) return true; return false; }
void release() { g().hold_since = 0; for(auto& t : g().th) if(t.st == St::held) t.st = St::run; }

static void stack_of(Thread& t)
{
    pthread_attr_t a;
    if(pthread_getattr_np(pthread_self(), &a) == 0)
    {
        void* p; std::size_t n;
        pthread_attr_getstack(&a, &p, &n);
        t.slo = static_cast<char*>(p); t.shi = t.slo + n;
        pthread_attr_destroy(&a);
    }
}
void begin(Cfg const& c)
{
    auto& G_ = g();
    G_.c = c; G_.seed = c.seed * 7919 + 17;
    G_.th.emplace_back();
    auto& t = G_.th.back();
    t.id = 0; t.vc.assign(MAXT, 0); t.vc[0] = 1; t.h = pthread_self();
    t.prio = 1000 + int(G_.rnd() % 1000);
    for(int i = 0; i < c.depth; ++i) G_.change.insert(1 + G_.rnd() % (c.len ? c.len : 1));
    me = &t;
    stack_of(t);
    G_.cur = &t;
    G_.on = true;
}
void end() { g().on = false; me = nullptr; }

//------------------------------------------------------------------------------ memory

struct Acc { std::uint32_t clk; unsigned char tid, mask, w; void* pc; };
struct Cell { Acc a[6]; unsigned char n = 0, next = 0; };
static std::unordered_map<std::uint64_t, Cell>& shadow()
{ static auto* p = new(std::malloc(sizeof(std::unordered_map<std::uint64_t, Cell>))) std::unordered_map<std::uint64_t, Cell>; return *p; }
static std::map<std::uintptr_t, std::size_t>& freed()
{ static auto* p = new(std::malloc(sizeof(std::map<std::uintptr_t, std::size_t>))) std::map<std::uintptr_t, std::size_t>; return *p; }

static void report(char const* kind, void* pc, void* pc2)
{
    char b[128];
    std::snprintf(b, sizeof b, "%s %p %p", kind, pc, pc2);
    if(g().seen.insert(b).second && g().races.size() < 50) g().races.push_back(b);
}
static void access(void const* p, std::size_t n, bool w, void* pc)
{
    if(quiet_ || ! active()) return;
    auto c = static_cast<char const*>(p);
    for(auto& t : g().th) if(c >= t.slo && c < t.shi) return;
    Quiet q;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    {
        auto it = freed().upper_bound(a);
        if(it != freed().begin()) { --it; if(a < it->first + it->second) { report("freed", pc, nullptr); return; } }
    }
    auto const e = a + n;
    while(a < e)
    {
        auto const cell = a >> 3;
        unsigned lo = a & 7, hi = std::min<std::uintptr_t>(e - (cell << 3), 8);
        unsigned char mask = (unsigned char)(((1u << hi) - 1) & ~((1u << lo) - 1));
        auto& s = shadow()[cell];
        bool done = false;
        for(int i = 0; i < s.n; ++i)
        {
            auto& x = s.a[i];
            if(! (x.mask & mask)) continue;
            if(x.tid == me->id)
            {
                if(x.mask == mask && x.w == w) { x.clk = me->vc[me->id]; x.pc = pc; done = true; }
                continue;
            }
            if(! w && ! x.w) continue;
            if(x.clk > me->vc[x.tid]) report("race", pc, x.pc);
        }
        if(! done)
        {
            Acc x{me->vc[me->id], (unsigned char)me->id, mask, w, pc};
            // forget accesses that happened before this one and are covered by it
            int k = -1;
            for(int i = 0; i < s.n; ++i)
                if((s.a[i].mask & ~mask) == 0 && (w || ! s.a[i].w) && s.a[i].clk <= me->vc[s.a[i].tid]) { k = i; break; }
            if(k < 0) { if(s.n < 6) k = s.n++; else { k = s.next; s.next = (s.next + 1) % 6; } }
            s.a[k] = x;
        }
        a = (cell + 1) << 3;
    }
}
static void forget(void* p, std::size_t n)
{
    if(! g().on) return;
    auto a = reinterpret_cast<std::uintptr_t>(p) >> 3, e = (reinterpret_cast<std::uintptr_t>(p) + n + 7) >> 3;
    if(shadow().empty()) return;
    for(; a < e; ++a) shadow().erase(a);
}
static std::unordered_map<void*, VC>& atoms()
{ static auto* p = new(std::malloc(sizeof(std::unordered_map<void*, VC>))) std::unordered_map<void*, VC>; return *p; }
static bool isacq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool isrel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void atomic_op(void* p, int order, bool rd, bool wr)
{
    if(! active()) return;
    Quiet q;
    if(quiet_ <= 1) reschedule();
    auto& v = atoms()[p];
    if(rd && isacq(order)) join(me->vc, v);
    if(wr)
    {
        if(isrel(order)) { if(! rd) v.clear(); join(v, me->vc); ++me->vc[me->id]; }
        else if(! rd) v.clear();
    }
}

} // sched

using namespace sched;

//------------------------------------------------------------------------------ heap

static std::atomic<bool> in_heap{false};
void* operator new(std::size_t n)
{
    void* p = std::malloc(n + 16);
    if(! p) throw std::bad_alloc();
    *static_cast<std::size_t*>(p) = n;
    return static_cast<char*>(p) + 16;
}
void operator delete(void* p) noexcept
{
    if(! p) return;
    void* q = static_cast<char*>(p) - 16;
    std::size_t n = *static_cast<std::size_t*>(q);
    // memory given back by the code under test is never used again, so that a later access is seen
    if(quiet_ == 0 && active())
    {
        Quiet qq;
        if(freed().count(reinterpret_cast<std::uintptr_t>(p))) report("double free", __builtin_return_address(0), nullptr);
        if(n) freed()[reinterpret_cast<std::uintptr_t>(p)] = n;
        return;
    }
    if(g().on)
    {
        if(freed().count(reinterpret_cast<std::uintptr_t>(p))) { report("double free", __builtin_return_address(0), nullptr); return; }
        return;     // leaked until the process ends
    }
    std::free(q);
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

//------------------------------------------------------------------------------ pthread

extern "C" {

static int is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void got(Mx& x, pthread_mutex_t* m) { x.owner = me; x.n = 1; x.recursive = is_rec(m); join(me->vc, x.vc); }

int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto const r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if(! active()) return r ? r(m) : 0;
    Quiet q;
    {
        auto& x = g().mx[m];
        if(x.owner == me && is_rec(m)) { ++x.n; return 0; }
    }
    me->st = St::mutex; me->on = m;
    reschedule();
    me->st = St::run;
    got(g().mx[m], m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto const r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if(! active()) return r(m);
    Quiet q;
    reschedule();
    auto& x = g().mx[m];
    if(x.owner == me && is_rec(m)) { ++x.n; return 0; }
    if(x.owner) return EBUSY;
    got(x, m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts)
{
    static auto const r = real<int(*)(pthread_mutex_t*, timespec const*)>("pthread_mutex_timedlock");
    if(! active()) return r(m, ts);
    Quiet q;
    me->st = St::mutex; me->on = m; me->timed = true; me->timedout = false;
    me->until = std::uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
    reschedule();
    me->st = St::run; me->timed = false;
    if(me->timedout) return ETIMEDOUT;
    got(g().mx[m], m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto const r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if(! active()) return r ? r(m) : 0;
    Quiet q;
    auto& x = g().mx[m];
    if(x.owner != me) { report("unlock of a mutex not held", __builtin_return_address(0), nullptr); return EPERM; }
    if(--x.n > 0) return 0;
    x.owner = nullptr;
    x.vc = me->vc; ++me->vc[me->id];
    reschedule();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    static auto const r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if(active())
    {
        Quiet q;
        auto it = g().mx.find(m);
        if(it != g().mx.end()) { if(it->second.owner) report("destruction of a locked mutex", __builtin_return_address(0), nullptr); g().mx.erase(it); }
    }
    return r(m);
}

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
{
    Quiet q;
    auto& x = g().mx[m];
    if(x.owner != me) { report("wait without the mutex", __builtin_return_address(0), nullptr); return EPERM; }
    x.owner = nullptr; x.vc = me->vc; ++me->vc[me->id];
    me->st = St::cond; me->on = c; me->m = m; me->timedout = false; me->timed = ts != nullptr;
    if(ts) me->until = std::uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
    reschedule();
    me->st = St::run; me->timed = false;
    got(g().mx[m], m);
    return me->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto const r = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if(! active()) return r(c, m);
    return cwait(c, m, nullptr);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
{
    static auto const r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, timespec const*)>("pthread_cond_timedwait");
    if(! active()) return r(c, m, ts);
    return cwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* ts)
{
    static auto const r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*)>("pthread_cond_clockwait");
    if(! active()) return r(c, m, k, ts);
    return cwait(c, m, ts);
}
static void wake(Thread& t) { t.st = St::mutex; t.on = t.m; t.timed = false; }
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto const r = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
    if(! active()) return r(c);
    Quiet q;
    Thread* w[MAXT]; int n = 0;
    for(auto& t : g().th) if(t.st == St::cond && t.on == c) w[n++] = &t;
    if(n) wake(*w[g().rnd() % n]);
    reschedule();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto const r = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if(! active()) return r(c);
    Quiet q;
    for(auto& t : g().th) if(t.st == St::cond && t.on == c) wake(t);
    reschedule();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    static auto const r = real<int(*)(pthread_cond_t*)>("pthread_cond_destroy");
    if(active())
    {
        for(auto& t : g().th) if(t.st == St::cond && t.on == c) report("destruction of a condition variable in use", __builtin_return_address(0), nullptr);
        return 0;
    }
    return r(c);
}

// reader-writer locks
static int rwl(pthread_rwlock_t* l, St st)
{
    Quiet q;
    me->st = st; me->on = l;
    reschedule();
    me->st = St::run;
    auto& x = g().rw[l];
    if(st == St::wr) { x.w = me; join(me->vc, x.wvc); join(me->vc, x.rvc); }
    else { ++x.r[me->id]; join(me->vc, x.wvc); }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{ static auto const r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return active() ? rwl(l, St::rd) : r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{ static auto const r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return active() ? rwl(l, St::wr) : r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    static auto const r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    if(! active()) return r(l);
    { Quiet q; reschedule(); if(g().rw[l].w) return EBUSY; }
    return rwl(l, St::rd);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    static auto const r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
    if(! active()) return r(l);
    { Quiet q; reschedule(); auto& x = g().rw[l]; if(x.w || ! x.r.empty()) return EBUSY; }
    return rwl(l, St::wr);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    static auto const r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if(! active()) return r(l);
    Quiet q;
    auto& x = g().rw[l];
    if(x.w == me) { x.w = nullptr; x.wvc = me->vc; x.rvc.clear(); }
    else
    {
        auto it = x.r.find(me->id);
        if(it == x.r.end()) { report("unlock of a lock not held", __builtin_return_address(0), nullptr); return EPERM; }
        if(--it->second == 0) x.r.erase(it);
        join(x.rvc, me->vc);
    }
    ++me->vc[me->id];
    reschedule();
    return 0;
}

static void* tramp(void* p)
{
    auto t = static_cast<Thread*>(p);
    futex_wait(t->go);
    me = t;
    stack_of(*t);
    quiet_ = 0;
    void* r = t->fn(t->arg);
    quiet_ = 1;
    ++me->vc[me->id];
    me->st = St::fin;
    reschedule();
    return r;
}
int pthread_create(pthread_t* h, pthread_attr_t const* a, void* (*fn)(void*), void* arg)
{
    static auto const r = real<int(*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
    if(! active()) return r(h, a, fn, arg);
    Quiet q;
    if(g().th.size() >= MAXT) on_dead("too many threads");
    g().th.emplace_back();
    auto& t = g().th.back();
    t.id = int(g().th.size()) - 1;
    t.fn = fn; t.arg = arg;
    t.vc = me->vc; t.vc[t.id] = 1;
    ++me->vc[me->id];
    t.prio = 1000 + int(g().rnd() % 1000);
    int e = r(&t.h, a, tramp, &t);
    if(e) std::abort();
    *h = t.h;
    reschedule();
    return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    static auto const r = real<int(*)(pthread_t, void**)>("pthread_join");
    if(! active()) return r(h, ret);
    Quiet q;
    for(auto& t : g().th)
        if(t.id && t.h == h)
        {
            me->st = St::join; me->target = &t;
            reschedule();
            me->st = St::run;
            join(me->vc, t.vc);
            t.h = pthread_t{};
            break;
        }
    return r(h, ret);
}
int clock_gettime(clockid_t k, timespec* ts) noexcept
{
    static auto const r = real<int(*)(clockid_t, timespec*)>("clock_gettime");
    if(! active()) return r(k, ts);
    g().vt += 100;
    ts->tv_sec = time_t(g().vt / 1000000000ull); ts->tv_nsec = long(g().vt % 1000000000ull);
    return 0;
}
static void dosleep(std::uint64_t until)
{
    Quiet q;
    me->st = St::sleep; me->timed = true; me->until = until;
    reschedule();
    me->st = St::run; me->timed = false;
}
int nanosleep(timespec const* ts, timespec* rem)
{
    static auto const r = real<int(*)(timespec const*, timespec*)>("nanosleep");
    if(! active()) return r(ts, rem);
    dosleep(g().vt + std::uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t k, int flags, timespec const* ts, timespec* rem)
{
    static auto const r = real<int(*)(clockid_t, int, timespec const*, timespec*)>("clock_nanosleep");
    if(! active()) return r(k, flags, ts, rem);
    auto n = std::uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
    dosleep((flags & TIMER_ABSTIME) ? n : g().vt + n);
    return 0;
}
int sched_yield() noexcept
{
    static auto const r = real<int(*)()>("sched_yield");
    if(! active()) return r();
    // let time pass, so that a spinning thread cannot starve the others
    dosleep(g().vt + 1000);
    return 0;
}

//------------------------------------------------------------------------------ instrumentation

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, PC); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile* p, int o) { atomic_op((void*)p, o, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int o) { atomic_op((void*)p, o, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int o) { atomic_op((void*)p, o, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int o, int) { atomic_op((void*)p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int o, int) { atomic_op((void*)p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int o, int) { atomic_op((void*)p, o, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, void const*, std::size_t);
void* __real_memmove(void*, void const*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(void const*, void const*, std::size_t);
void* __wrap_memcpy(void* d, void const* s, std::size_t n) { if(n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, std::size_t n) { if(n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { if(n) access(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(void const* a, void const* b, std::size_t n) { if(n) { access(a, n, false, PC); access(b, n, false, PC); } return __real_memcmp(a, b, n); }

} // C
