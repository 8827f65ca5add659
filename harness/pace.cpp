// Pacing of writers and memory: the store on simulated files under a clock and a heap of our own.
// usage: pace PROGRAMS OUT WORKERS SCRATCH
//   C create  o open  c close  i:key:size insert  x:key insert again  g:key fetch  f flush  A:ms time passes
//   b:bytes set_burst  w:ms duration of a write  M:0|1|2 during a delay: nothing, fetches, fetches and a commit
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <malloc.h>
#include <memory>
#include <thread>
#include <sys/syscall.h>
#include <time.h>

// ---- the clock
static std::atomic<long long> vnow{1000000000000ll};
static std::function<void()> on_delay;
static std::atomic<long long> slept{0};
static thread_local bool delaying = false;
static void delay(long long ns)
{
    slept += ns;
    vnow += ns;
    if(on_delay && ! delaying) { delaying = true; on_delay(); delaying = false; }
}
static bool real_clock = true;
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if(real_clock || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, c, ts);
    long long v = vnow;
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    return 0;
}
static long long ns(struct timespec const* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
extern "C" int nanosleep(struct timespec const* t, struct timespec*) { delay(ns(t)); return 0; }
extern "C" int clock_nanosleep(clockid_t, int fl, struct timespec const* t, struct timespec*)
{
    auto d = ns(t);
    if(fl & TIMER_ABSTIME) d = std::max(0ll, d - vnow.load());
    delay(d); return 0;
}
extern "C" int usleep(useconds_t u) { delay(u * 1000ll); return 0; }

// ---- the heap: bytes allocated by the library and not freed
static std::atomic<long long> live{0};
static thread_local int counting = 0;
struct Head { std::size_t n; std::size_t magic; };
static void* get(std::size_t n)
{
    auto h = static_cast<Head*>(std::malloc(n + sizeof(Head)));
    if(! h) throw std::bad_alloc{};
    h->n = counting > 0 ? n : 0; h->magic = 0x5eed;
    live += h->n;
    return h + 1;
}
static void put(void* p) { if(! p) return; auto h = static_cast<Head*>(p) - 1; if(h->magic != 0x5eed) std::abort(); h->magic = 0; live -= h->n; std::free(h); }
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return get(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
struct Count { int o; explicit Count(int n) : o(counting) { counting = n; } ~Count() { counting = o; } };

static long long wcost = 0;
using Store = nudb::basic_store<gen::Hasher, sim::File>;
static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";

// calls found blocked so far, by all workers: a few are enough
static std::atomic<int>* nblocked;

struct Run
{
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const { auto it = cfg.find(k); return it == cfg.end() ? d : std::stoull(it->second); }
    util::J j;
    std::size_t ks, bs; double lf;
    std::unique_ptr<nudb::context> ctx;
    std::unique_ptr<Store> st;
    int mode = 0;
    std::vector<std::uint64_t> in;
    std::map<std::uint64_t, std::size_t> sz;

    static long long ms() { return (vnow.load() - 1000000000000ll) / 1000000; }
    static long long mem() { return util::clamp31(std::max(0ll, live.load())); }
    bool fetch(std::uint64_t k, std::string& r)
    {
        nudb::error_code ec; bool ok = false;
        auto key = gen::make_key(k, ks, 0);
        auto want = sz.count(k) ? gen::make_value(k, sz[k]) : std::string();
        { Count c(1); st->fetch(key.data(), [&](void const* p, std::size_t n){ ok = n == want.size() && ! std::memcmp(p, want.data(), n); }, ec); }
        r = ename(ec);
        return sz.count(k) ? ! ec && ok : r == "nf" && ! ok;
    }
    void flushEvent()
    {
        auto t0 = ms(); auto s0 = slept.load();
        { Count c(1); ctx->flush(); }
        j.open('{').key("o").v("flush").key("t0").v(t0).key("t").v(ms()).key("sl").v((slept - s0) / 1000000).key("live").v(mem()).close('}');
    }
    void op(std::string const& tok)
    {
        auto a = util::split(tok, ':');
        auto const& c = a[0];
        auto arg = [&](std::size_t i, std::uint64_t d = 0) { return i < a.size() ? std::stoull(a[i]) : d; };
        nudb::error_code ec;
        if(c == "C") { nudb::create<gen::Hasher, sim::File>(DP, KP, LP, 1, 2, 3, ks, bs, (float)lf, ec); sim::W().fs.files.erase(LP); if(ec) std::abort(); return; }
        if(c == "A") { vnow += arg(1) * 1000000; return; }
        if(c == "w") { wcost = arg(1); return; }
        if(c == "M") { mode = arg(1); return; }
        if(c == "o")
        {
            long long before = mem();
            ctx.reset(new nudb::context);
            { Count n(1); st.reset(new Store(*ctx)); st->open(DP, KP, LP, ec); }
            j.open('{').key("o").v("open").key("t").v(ms()).key("r").v(ename(ec)).key("bs").v((long long)bs).key("ks").v((long long)ks).key("before").v(before).key("live").v(mem()).close('}');
        }
        else if(c == "c")
        {
            { Count n(1); st->close(ec); st.reset(); }
            ctx.reset();
            j.open('{').key("o").v("close").key("t").v(ms()).key("r").v(ename(ec)).key("live").v(mem()).close('}');
        }
        else if(c == "b") { st->set_burst(arg(1)); j.open('{').key("o").v("burst").key("n").v(util::clamp31(arg(1))).close('}'); }
        else if(c == "f") flushEvent();
        else if(c == "g")
        {
            auto s0 = slept.load(); std::string r;
            bool ok = fetch(arg(1), r);
            j.open('{').key("o").v("fetch").key("ok").b(ok).key("sl").v((slept - s0) / 1000000).key("live").v(mem()).close('}');
        }
        else if(c == "i" || c == "x")
        {
            auto k = arg(1);
            auto n = c == "x" ? (std::size_t)5 : (std::size_t)arg(2);
            auto key = gen::make_key(k, ks, 0); auto v = gen::make_value(k, n);
            auto t = ms(); auto s0 = slept.load();
            bool calls = true; std::size_t cut = 0;
            std::string mid;
            if(c == "i") sz[k] = n;
            on_delay = [&]
            {
                if(! mode || mid.size() || *nblocked > 7) return;
                // other threads go on meanwhile
                auto done = std::make_shared<std::atomic<int>>(0);
                bool commit = mode == 2;
                std::thread th([&, done, commit]
                {
                    delaying = true;
                    std::string r;
                    for(std::size_t z = 0; z < 4 && z < in.size(); ++z) if(! fetch(in[in.size() - 1 - z * in.size() / 4], r)) calls = false;
                    if(! fetch(k, r)) calls = false;
                    if(! fetch(k + 1000000, r)) calls = false;
                    if(commit) { auto t0 = ms(); { Count n(1); ctx->flush(); }
                        util::J q; q.open('{').key("o").v("flush").key("t0").v(t0).key("t").v(ms()).key("sl").v(0ll).key("live").v(mem()).close('}'); mid = q.s; }
                    *done = 1;
                });
                for(int z = 0; ! *done && z < 40000; ++z)
                {
                    struct timespec d{0, 500000};
                    syscall(SYS_nanosleep, &d, nullptr);
                }
                if(*done) th.join();
                else { ++*nblocked; raise(SIGUSR1); }    // a delayed insert keeps others waiting
            };
            { Count q(1); st->insert(key.data(), v.data(), v.size(), ec); }
            on_delay = nullptr;
            if(c == "i") in.push_back(k);
            j.open('{').key("o").v(c == "i" ? "insert" : "again").key("n").v(util::clamp31(n)).key("t").v(t).key("t1").v(ms()).key("r").v(ename(ec))
                .key("sl").v((slept - s0 + 999999) / 1000000).key("calls").b(calls).key("live").v(mem()).key("mid").b(! mid.empty()).close('}');
            if(! mid.empty()) { j.sep(); j.s += mid; }
        }
        else { std::fprintf(stderr, "bad token %s\n", tok.c_str()); std::exit(9); }
    }
    void run(std::string const& line, std::ostream& os)
    {
        auto bar = line.find('|');
        for(auto& t : util::split(line.substr(0, bar))) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 8); bs = num("bs", 104); lf = num("lf", 500000) / 1e6;
        gen::hash_mode() = 0;
        sim::W() = sim::World{};
        sim::W().guard = [](int d) { static thread_local int depth = 0, old = 0; if(d > 0) { if(! depth++) { old = counting; counting = 0; } } else if(! --depth) counting = old; };
        sim::W().hook = [](char k, std::string const&) { if(k == 'W' || k == 'S') vnow += wcost * 1000000; };
        live = 0; wcost = 0; real_clock = false;
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line).key("ev").open('[');
        for(auto& t : util::split(line.substr(bar + 1))) op(t);
        if(st) { nudb::error_code e; st->close(e); }
        st.reset(); ctx.reset();
        real_clock = true;
        j.close(']').close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    nblocked = new(mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0)) std::atomic<int>(0);
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os)
        {
            auto r = std::make_unique<Run>();
            r->run(prog[i], os);
        },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
