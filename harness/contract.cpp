// How the library uses what a user supplies: File, Hasher, Progress and callbacks.
// usage: contract PROGRAMS OUT WORKERS SCRATCH
//   C create  o open  c close  i:key:size insert  g:key fetch  f flush  R:bs:lf:count:buf rekey  E recover  V:buf verify  W[:n] visit (error at the n-th)
//   X:n:m  the n-th file operation from here fails, m of its effect done (0 none 1 half 2 all; 3: and all later ones)  Y no more faults
//   K:n leave the files as they are before the n-th effect of the next call (a kill), and go on with these
#include "sim.hpp"
#include "gen.hpp"
#include "decode.hpp"
#include "util.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <memory>
#include <set>

static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";
static std::string scratch;
static util::J* J;
static int nextId, nev;
static std::string pathOf(std::string const& p) { return p == DP ? "d" : p == KP ? "k" : p == LP ? "l" : "?"; }
static char const* modeOf(nudb::file_mode m)
{ return m == nudb::file_mode::scan ? "s" : m == nudb::file_mode::read ? "r" : m == nudb::file_mode::append ? "a" : "w"; }

struct Tag { int v; };

class AFile
{
    sim::File f_;
    int id_;
    std::string p_;
    void ev(char const* c, nudb::error_code const& ec, std::uint64_t off = 0, std::uint64_t n = 0, std::uint64_t sz = 0) const
    {
        if(! J) return;
        if(++nev > 6000) return;
        J->open('{').key("o").v("F").key("h").v((long long)id_).key("c").v(c).key("ok").b(! ec).key("off").v(util::clamp31(off)).key("n").v(util::clamp31(n)).key("sz").v(util::clamp31(sz)).close('}');
    }
    std::uint64_t now() const { auto b = sim::W().fs.get(p_.c_str()); return b ? b->size() : 0; }
public:
    AFile() : id_(++nextId) { if(J) J->open('{').key("o").v("new").key("h").v((long long)id_).key("args").b(false).close('}'); }
    AFile(Tag& t, std::string const& s) : id_(++nextId)
    { if(J) J->open('{').key("o").v("new").key("h").v((long long)id_).key("args").b(t.v == 42 && s == "file").close('}'); }
    AFile(AFile const&) = delete;
    AFile& operator=(AFile const&) = delete;
    AFile(AFile&& o) noexcept : f_(std::move(o.f_)), id_(o.id_), p_(o.p_) { o.id_ = ++nextId; }
    AFile& operator=(AFile&& o) noexcept { if(this != &o) { f_ = std::move(o.f_); id_ = o.id_; p_ = o.p_; o.id_ = ++nextId; } return *this; }
    ~AFile() { nudb::error_code e; if(f_.is_open()) ev("del", e); }
    bool is_open() const { return f_.is_open(); }
    void close() { nudb::error_code e; if(f_.is_open()) ev("close", e); f_.close(); }
    void opening(char const* c, nudb::file_mode m, std::string const& p, nudb::error_code const& ec)
    {
        p_ = p;
        if(J) J->open('{').key("o").v("open").key("h").v((long long)id_).key("c").v(c).key("m").v(modeOf(m)).key("p").v(pathOf(p)).key("ok").b(! ec).close('}');
    }
    void create(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { nudb::error_code e; f_.create(m, p, e); if(e) ec = e; opening("create", m, p, e); }
    void open(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { nudb::error_code e; f_.open(m, p, e); if(e) ec = e; opening("open", m, p, e); }
    static void erase(nudb::path_type const& p, nudb::error_code& ec)
    {
        nudb::error_code e;
        sim::File::erase(p, e); if(e) ec = e;
        if(J) J->open('{').key("o").v("erase").key("p").v(pathOf(p)).key("ok").b(! e).close('}');
    }
    std::uint64_t size(nudb::error_code& ec) const { nudb::error_code e; auto r = f_.size(e); if(e) ec = e; ev("size", e); return r; }
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) { nudb::error_code e; auto s = now(); f_.read(o, b, n, e); if(e) ec = e; ev("read", e, o, n, s); }
    void write(std::uint64_t o, void const* b, std::size_t n, nudb::error_code& ec) { nudb::error_code e; auto s = now(); f_.write(o, b, n, e); if(e) ec = e; ev("write", e, o, n, s); }
    void sync(nudb::error_code& ec) { nudb::error_code e; f_.sync(e); if(e) ec = e; ev("sync", e); }
    void trunc(std::uint64_t n, nudb::error_code& ec) { nudb::error_code e; f_.trunc(n, e); if(e) ec = e; ev("trunc", e, 0, n); }
};

// what a hash function is asked for
static std::set<std::string> known;
static std::set<std::uint64_t> seeds;
static std::size_t theKs;
static bool hlen, hdata;
static long long hcalls;
static std::string gen_le8(std::uint64_t v) { std::string s(8, 0); for(int i = 0; i < 8; ++i) s[i] = char(v >> (8 * i)); return s; }
struct Hasher
{
    std::uint64_t s_;
    explicit Hasher(std::uint64_t s) : s_(s) { seeds.insert(s); }
    std::uint64_t operator()(void const* p, std::size_t n) const noexcept
    {
        ++hcalls;
        std::string d((char const*)p, n);
        if(n != theKs && n != 8) hlen = false;
        if(! known.count(d) && d != gen_le8(s_)) hdata = false;
        return gen::xxh64(p, n, s_);
    }
};
using Store = nudb::basic_store<Hasher, AFile>;

struct Run
{
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const { auto it = cfg.find(k); return it == cfg.end() ? d : std::stoull(it->second); }
    util::J j;
    std::size_t ks, bs; double lf;
    std::uint64_t salt;
    std::unique_ptr<nudb::context> ctx;
    std::unique_ptr<Store> st;
    Tag tag{42};
    std::string arg2 = "file";
    std::vector<std::pair<std::uint64_t, std::uint64_t>> pr;
    std::int64_t kill = -1; sim::FS left; bool killed = false;
    long long cbs = 0; bool cbok = true;

    void call(char const* f)
    {
        seeds.clear(); hlen = hdata = true; hcalls = 0; pr.clear(); cbs = 0; cbok = true;
        j.open('{').key("o").v("call").key("f").v(f).close('}');
    }
    void ret(char const* f, nudb::error_code const& ec, long long want = -1)
    {
        J = nullptr;
        auto& w = sim::W();
        // one seed, which is the salt of the key file
        bool hseed = seeds.size() <= 1;
        if(auto b = w.fs.get(KP)) { auto h = dec::key_header(*b); if(h.ok && ! seeds.empty() && *seeds.begin() != h.salt) hseed = false; }
        j.open('{').key("o").v("ret").key("f").v(f).key("r").v(ename(ec)).key("hs").b(hseed).key("hl").b(hlen).key("hd").b(hdata).key("hc").v(hcalls).key("cb").v(cbs).key("cbok").b(cbok)
            .key("want").v(want).key("flt").b(w.hit).key("anomaly").v(w.anomaly).key("pr").open('[');
        // all of a few, or the first and the last ones
        std::size_t n = pr.size();
        for(std::size_t i = 0; i < n; ++i) if(n <= 60 || i < 20 || i + 40 >= n) j.open('[').v(util::clamp31(pr[i].first)).v(util::clamp31(pr[i].second)).close(']');
        j.close(']');
        bool mono = true;
        for(std::size_t i = 1; i < n; ++i) if(pr[i].first < pr[i - 1].first || pr[i].second != pr[i - 1].second) mono = false;
        j.key("mono").b(mono).close('}');
        w.anomaly.clear();
    }
    std::string key(std::uint64_t k) { auto s = gen::make_key(k, ks, 0); known.insert(s); return s; }
    std::string real(char const* x, char const* p)
    {
        auto f = scratch + "/c" + std::to_string(getpid()) + x;
        std::remove(f.c_str());
        if(auto b = sim::W().fs.get(p)) { std::ofstream o(f, std::ios::binary); auto s = b->str(); o.write(s.data(), s.size()); }
        return f;
    }
    void op(std::string const& tok)
    {
        auto& w = sim::W();
        auto a = util::split(tok, ':');
        auto const& c = a[0];
        auto arg = [&](std::size_t i, std::uint64_t d = 0) { return i < a.size() ? std::stoull(a[i]) : d; };
        auto progress = [&](std::uint64_t p, std::uint64_t q) { pr.emplace_back(p, q); };
        nudb::error_code ec;
        if(c == "X") { w.armed = true; w.hit = false; w.count = 0; w.fail_at = arg(1); w.partial = arg(2) % 3; w.fail_on = arg(2) == 3; w.code = sim::code_of(arg(1)); return; }
        if(c == "Y") { w.armed = false; w.fail_on = false; w.hit = false; return; }
        if(c == "K")
        {
            kill = arg(1); killed = false; auto n = std::make_shared<std::int64_t>(0);
            w.hook = [this, n, &w](char k, std::string const&) { if(std::strchr("WSTCE", k) && (*n)++ == kill && ! killed) { killed = true; left = w.fs.clone(); } };
            return;
        }
        if((c == "i" || c == "g" || c == "f") && ! (st && st->is_open())) return;
        if(c == "c" && ! (st && st->is_open())) return;
        if(c == "o" && st && st->is_open()) return;
        if((c == "C" || c == "R" || c == "E" || c == "V" || c == "W") && st && st->is_open()) return;
        J = &j;
        if(c == "C") { call("create"); nudb::create<Hasher, AFile>(DP, KP, LP, 1, 2, salt, ks, bs, (float)lf, ec, tag, arg2); ret("create", ec); }
        else if(c == "o")
        {
            J = nullptr; st.reset(); ctx.reset(new nudb::context); st.reset(new Store(*ctx)); J = &j;
            call("open"); st->open(DP, KP, LP, ec, tag, arg2); ret("open", ec);
            if(! ec) st->set_burst(std::size_t(1) << 40);
        }
        else if(c == "c") { call("close"); st->close(ec); ret("close", ec); J = &j; st.reset(); J = nullptr; }
        else if(c == "i")
        {
            auto k = key(arg(1)); auto v = gen::make_value(arg(1), arg(2));
            call("insert"); st->insert(k.data(), v.data(), v.size(), ec); ret("insert", ec);
        }
        else if(c == "g")
        {
            auto k = key(arg(1));
            call("fetch"); st->fetch(k.data(), [&](void const* p, std::size_t n) { ++cbs; cbok = cbok && p && n && ! ec; }, ec); ret("fetch", ec);
        }
        else if(c == "f") { call("flush"); ctx->flush(); ret("flush", ec); }
        else if(c == "R")
        {
            w.fs.files.erase(KP);
            call("rekey"); nudb::rekey<Hasher, AFile>(DP, KP, LP, arg(1), (float)(arg(2) / 1e6), arg(3), arg(4), ec, progress, tag, arg2); ret("rekey", ec);
        }
        else if(c == "E") { call("recover"); nudb::recover<Hasher, AFile>(DP, KP, LP, ec, tag, arg2); ret("recover", ec); }
        else if(c == "V")
        {
            auto d = real("d", DP), k = real("k", KP);
            nudb::verify_info vi;
            call("verify"); nudb::verify<Hasher>(vi, d, k, arg(1), progress, ec); ret("verify", ec);
            std::remove(d.c_str()); std::remove(k.c_str());
        }
        else if(c == "W")
        {
            auto d = real("d", DP); long long stop = a.size() > 1 ? (long long)arg(1) : -1;
            call("visit");
            nudb::visit(d, [&](void const* p, std::size_t kn, void const* v, std::size_t n, nudb::error_code& e)
            {
                ++cbs; cbok = cbok && p && v && kn == ks && n > 0 && ! e && known.count(std::string((char const*)p, kn));
                if(cbs == stop) e = nudb::error::too_many_buckets;
            }, progress, ec);
            ret("visit", ec, stop);
            std::remove(d.c_str());
        }
        else { std::fprintf(stderr, "bad token %s\n", tok.c_str()); std::exit(9); }
        J = nullptr;
        if(kill >= 0)
        {
            kill = -1; w.hook = nullptr;
            if(killed)
            {
                if(st) { nudb::error_code e; if(st->is_open()) st->close(e); st.reset(); ctx.reset(); }
                w.fs = left; for(auto& e : w.fs.files) { e.second->dur = e.second->b; e.second->dirty = false; }
                w.anomaly.clear();
                j.open('{').key("o").v("kill").close('}');
            }
        }
    }
    void run(std::string const& line, std::ostream& os)
    {
        auto bar = line.find('|');
        for(auto& t : util::split(line.substr(0, bar))) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 8); bs = num("bs", 104); lf = num("lf", 500000) / 1e6; salt = num("salt", 3); theKs = ks;
        nextId = 0; nev = 0;
        known.clear();
        sim::W() = sim::World{};
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line).key("ev").open('[');
        for(auto& t : util::split(line.substr(bar + 1))) op(t);
        J = nullptr;
        if(st && st->is_open()) { nudb::error_code e; st->close(e); }
        st.reset(); ctx.reset();
        j.close(']').close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    scratch = av[4];
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
