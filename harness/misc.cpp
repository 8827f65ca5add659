// Single decisions of the library: create with any parameters, and files that do not fit together.
// usage: misc PROGRAMS OUT WORKERS SCRATCH
//   mode=create pre=<dkl> ks= bs= lf=<float> faults=0|1
//   mode=open   op=open|recover|verify|visit|rekey log=none|commit|rekey|short mut=<field:xor,...>
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "decode.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <cmath>
#include <set>
#include <memory>

using Store = nudb::basic_store<gen::Hasher, sim::File>;
static std::string scratch;
static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";

static std::string be(std::uint64_t v, int n) { std::string s; for(int i = n - 1; i >= 0; --i) s += char(v >> (8 * i)); return s; }
static std::string le8(std::uint64_t v) { std::string s(8, 0); for(int i = 0; i < 8; ++i) s[i] = char(v >> (8 * i)); return s; }

struct Run
{
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const
    { auto it = cfg.find(k); return it == cfg.end() || it->second.empty() ? d : std::stoull(it->second); }
    std::string str(char const* k, char const* d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    util::J j;
    std::size_t ks, bs; double lf; int hm;
    std::uint64_t app, uid, salt;

    std::string real(char const* name, sim::FS& fs, char const* path)
    {
        std::string p = scratch + "/m" + std::to_string(getpid()) + "." + name;
        std::remove(p.c_str());
        if(auto b = fs.get(path)) { std::ofstream o(p, std::ios::binary); auto s = b->str(); o.write(s.data(), s.size()); }
        return p;
    }
    static bool eq(sim::FS& a, sim::FS& b, char const* p)
    {
        auto x = a.get(p), y = b.get(p);
        if(! x || ! y) return ! x && ! y;
        return *x == *y;
    }

    //------------------------------------------------------------------ create
    void createOnce(std::int64_t at, int partial, bool stuck, bool& hit, std::int64_t& total)
    {
        sim::W() = sim::World{};
        auto& w = sim::W();
        auto pre = str("pre");
        auto put = [&](char const* p) { auto n = std::make_shared<sim::Inode>(); n->b.write(0, "precious", 8); n->dur = n->b; w.fs.files[p] = n; };
        if(pre.find('d') != pre.npos) put(DP);
        if(pre.find('k') != pre.npos) put(KP);
        if(pre.find('l') != pre.npos) put(LP);
        float f = std::strtof(str("lf").c_str(), nullptr);
        std::string cls = std::isnan(f) ? "nan" : f < 0 ? "neg" : f == 0 ? "zero" : f >= 1 ? "big" : "in";
        w.armed = at >= -1; w.fail_at = at; w.partial = partial; w.fail_on = stuck; w.code = sim::code_of(at + 3 * partial + ks);
        nudb::error_code ec;
        std::string ex;
        static std::set<std::uint64_t> uids, salts;
        bool fresh = true;      // numbers the library chooses must not repeat
        if(num("nouid", 0)) { salt = nudb::make_salt(); fresh = salts.size() > 50 || salts.insert(salt).second; }   // they are seeded with 32 bits
        try
        {
            if(num("nouid", 0)) nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app, salt, ks, bs, f, ec);
            else nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app, uid, salt, ks, bs, f, ec);
        }
        catch(std::exception const& e) { ex = e.what(); }
        w.armed = false; hit = w.hit; total = w.count;
        j.open('{').key("o").v("create").key("ks").v(util::clamp31(ks)).key("bs").v(util::clamp31(bs)).key("lfc").v(cls)
            .key("lfm").v(cls == "in" ? (long long)(double(f) * 1e6) : 0).key("pre").v(pre)
            .key("r").v(ex.empty() ? ename(ec) : "exception").key("fl").b(w.hit).key("ef").b(w.nfail_erase > 0);
        std::string after; bool same = true;
        auto look = [&](char const* p, char c) { if(auto b = w.fs.get(p)) { after += c; if(pre.find(c) != pre.npos && (b->size() != 8 || b->str() != "precious")) same = false; } };
        look(DP, 'd'); look(KP, 'k'); look(LP, 'l');
        j.key("after").v(after).key("same").b(same).key("handles").v(w.open_handles);
        bool ok = ! ec && ex.empty();
        j.key("dirty").b([&]{ for(auto& e : w.fs.files) if(e.second->dirty) return true; return false; }());
        if(ok && after == "dkl")
        {
            w.fs.power_loss();
            auto d = w.fs.get(DP), k = w.fs.get(KP), l = w.fs.get(LP);
            auto dh = dec::dat_header(*d); auto kh = dec::key_header(*k);
            if(num("nouid", 0)) { uid = dh.uid; if(uids.size() <= 50 && ! uids.insert(uid).second) fresh = false; }
            j.key("hdr").b(fresh && dh.ok && kh.ok && dh.reserved0 && kh.reserved0 && dh.uid == uid && kh.uid == uid && dh.app == app && kh.app == app
                && dh.ks == ks && kh.ks == ks && kh.salt == salt && kh.bs == bs && kh.pepper == gen::ctl_hash(hm, le8(salt).data(), 8, salt))
                .key("hlf").v((long long)kh.lf).key("dsz").v(util::clamp31(d->size())).key("ksz").v(util::clamp31(k->size())).key("lsz").v(util::clamp31(l->size()))
                .key("zero").b(k->str(104, bs > 104 ? bs - 104 : 0).find_first_not_of('\0') == std::string::npos
                            && k->str(bs, bs).find_first_not_of('\0') == std::string::npos);
            std::string use = "ok";
            {
                nudb::context ctx; Store st(ctx);
                nudb::error_code e;
                st.open(DP, KP, LP, e);
                if(e) use = "open:" + ename(e);
                else
                {
                    st.set_burst(std::size_t(1) << 50);
                    if(st.key_size() != ks || st.block_size() != bs || st.appnum() != app) use = "getters";
                    auto key = gen::make_key(77, ks, 0);
                    auto v = gen::make_value(1, 21);
                    int n = 0;
                    st.fetch(key.data(), [&](void const*, std::size_t){ ++n; }, e);
                    if(e != nudb::error::key_not_found || n) use = "fetch in empty:" + ename(e);
                    e = {};
                    st.insert(key.data(), v.data(), v.size(), e); if(e) use = "insert:" + ename(e);
                    ctx.flush();
                    std::string got;
                    st.fetch(key.data(), [&](void const* p, std::size_t z){ got.assign((char const*)p, z); }, e);
                    if(e || got != v) use = "fetch:" + ename(e);
                    st.close(e); if(e) use = "close:" + ename(e);
                }
            }
            auto dp = real("dat", w.fs, DP), kp = real("key", w.fs, KP);
            nudb::verify_info vi; nudb::error_code e;
            nudb::verify<gen::Hasher>(vi, dp, kp, 0, [](std::uint64_t, std::uint64_t){}, e);
            if(use == "ok" && (e || vi.key_count != 1 || vi.value_count != 1)) use = "verify:" + ename(e);
            std::remove(dp.c_str()); std::remove(kp.c_str());
            j.key("use").v(use);
        }
        j.key("anomaly").v(w.anomaly);
        j.close('}');
    }
    void create()
    {
        bool hit; std::int64_t n, t;
        createOnce(-1, 0, false, hit, n);
        if(! num("faults", 0)) return;
        for(std::int64_t at = 0; at < n + 4; ++at)
            for(int m = 0; m < 4; ++m)
            {
                createOnce(at, m % 3, m == 3, hit, t);
                if(! hit) return;
            }
    }

    //------------------------------------------------------------------ files that do not belong together
    struct Db { sim::FS a, b; };     // after the first and the second session
    Db build(std::uint64_t uid_, std::uint64_t app_, std::uint64_t salt_, std::size_t ks_, std::size_t bs_, int seed)
    {
        sim::W() = sim::World{};
        auto& w = sim::W();
        Db r;
        nudb::error_code ec;
        nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app_, uid_, salt_, ks_, bs_, (float)lf, ec);
        w.fs.files.erase(LP);
        auto session = [&](int from, int n)
        {
            nudb::context ctx; Store st(ctx);
            st.open(DP, KP, LP, ec);
            st.set_burst(std::size_t(1) << 50);
            for(int i = from; i < from + n; ++i)
            {
                auto k = gen::make_key(seed * 40 + i, ks_, 0); auto v = gen::make_value(seed * 100 + i, 5 + i);
                st.insert(k.data(), v.data(), v.size(), ec);
            }
            st.close(ec);
        };
        int n = 4 + (int)num("n", 5);
        session(0, n);
        r.a = w.fs.clone();
        session(n, 3 + n / 2);
        r.b = w.fs.clone();
        return r;
    }
    std::string logOf(Db& x, bool rekey)
    {
        auto kh = dec::key_header(*x.a.get(KP));
        std::string s = "nudb.log" + be(2, 2) + be(kh.uid, 8) + be(kh.app, 8) + be(kh.ks, 2) + be(kh.salt, 8) + be(kh.pepper, 8) + be(kh.bs, 2)
            + be(rekey ? 0 : x.a.get(KP)->size(), 8) + be(x.a.get(DP)->size(), 8);
        if(rekey) return s;
        auto ka = x.a.get(KP), kb = x.b.get(KP);
        for(std::uint64_t o = kh.bs; o < ka->size(); o += kh.bs)
        {
            auto p = ka->str(o, kh.bs);
            if(p == kb->str(o, kh.bs)) continue;
            auto n = dec::be(p, 0, 2);
            s += be(o / kh.bs - 1, 8) + p.substr(0, 8 + 18 * n);
        }
        return s;
    }
    void facts(char const* name, sim::Blob const* b, char kind)
    {
        j.key(name).open('{').key("ex").b(b != nullptr).key("sz").v(b ? util::clamp31(b->size()) : -1);
        std::uint64_t const hs = kind == 'd' ? 92 : kind == 'k' ? 104 : 62;
        bool full = b && b->size() >= hs;
        j.key("full").b(full);
        std::string s = full ? b->str(0, hs) : std::string(hs, '\0');
        auto g = [&](int o, int n) { return dec::be(s, o, n); };
        j.key("type").b(s.substr(0, 8) == (kind == 'd' ? "nudb.dat" : kind == 'k' ? "nudb.key" : "nudb.log"))
            .key("ver").v(g(8, 2)).key("uid").v(std::to_string(g(10, 8))).key("app").v(std::to_string(g(18, 8))).key("ks").v(g(26, 2));
        if(kind != 'd')
        {
            auto salt_ = g(28, 8);
            j.key("salt").v(std::to_string(salt_)).key("pep").v(std::to_string(g(36, 8)))
                .key("pepok").b(g(36, 8) == gen::ctl_hash(hm, le8(salt_).data(), 8, salt_)).key("bs").v(g(44, 2));
            if(kind == 'k')
            {
                auto bs_ = g(44, 2);
                j.key("lf").v(g(46, 2)).key("cap").v(bs_ >= 104 ? (bs_ - 8) / 18 : 0)
                    .key("nb").v(bs_ && b && b->size() > bs_ ? util::clamp31((b->size() - bs_) / bs_) : 0)
                    .key("tail").v(bs_ && b ? util::clamp31(b->size() % bs_) : 0);
            }
            else
                j.key("rekey").b(g(46, 8) == 0);
        }
        j.close('}');
    }
    void open()
    {
        gen::hash_mode() = hm;
        auto x = build(uid, app, salt, ks, bs, 1);
        auto variant = str("log", "none");
        sim::FS fs = variant == "none" ? x.a.clone() : x.b.clone();
        auto setlog = [&](std::string const& s) { auto n = std::make_shared<sim::Inode>(); n->b.write(0, s.data(), s.size()); n->dur = n->b; fs.files[LP] = n; };
        if(variant == "commit") setlog(logOf(x, false));
        else if(variant == "rekey") setlog(logOf(x, true));
        else if(variant == "short") setlog(logOf(x, false).substr(0, num("logcut", 61)));
        auto op = str("op");
        bool badlog = false;
        if(op == "rekey" && variant == "none" && ! num("keepkey", 0)) fs.files.erase(KP);
        // alterations
        for(auto& m : util::split(str("mut"), ','))
        {
            auto a = util::split(m, ':');
            auto arg = [&](std::size_t i, std::uint64_t d) { return i < a.size() ? std::stoull(a[i]) : d; };
            auto const& c = a[0];
            auto file = [&](char f) { return f == 'd' ? DP : f == 'k' ? KP : LP; };
            if(c == "hash") { hm = (int)arg(1, 1); gen::hash_mode() = hm; continue; }
            auto b = fs.get(file(c[0]));
            auto field = c.substr(2);
            if(field == "rm") { fs.files.erase(file(c[0])); continue; }
            if(field == "other")    // the file of another database: uid, app, salt, ks, bs as given
            {
                int keep = gen::hash_mode();
                gen::hash_mode() = (int)num("hm", 0);
                auto y = build(arg(1, uid + 1), arg(2, app), arg(3, salt ^ 5), arg(4, ks), arg(5, bs), 2);
                gen::hash_mode() = keep;
                if(c[0] == 'l') { if(variant != "none") setlog(logOf(y, variant == "rekey")); }
                else { auto n = std::make_shared<sim::Inode>(); n->b = *(variant == "none" ? y.a : y.b).get(file(c[0])); n->dur = n->b; fs.files[file(c[0])] = n; }
                continue;
            }
            if(! b) continue;
            static std::map<std::string, std::pair<int,int>> const F = {{"type",{0,8}},{"ver",{8,2}},{"uid",{10,8}},{"app",{18,8}},{"ks",{26,2}},{"salt",{28,8}},{"pep",{36,8}},{"bs",{44,2}},{"lf",{46,2}}};
            if(field == "cut") b->trunc(std::min<std::uint64_t>(arg(1, 0), b->size()));
            else if(field == "cutend") b->trunc(b->size() - std::min<std::uint64_t>(arg(1, 0), b->size()));
            else if(field == "idx") { auto o = 62 + 0u; if(b->size() > o + 8) { auto v = be(arg(1, 0), 8); b->write(o, v.data(), 8); badlog = true; } }
            else if(field == "spill") { auto o = 62 + 10u; if(b->size() >= o + 6) { auto v = be(arg(1, 0), 6); b->write(o, v.data(), 6); badlog = true; } }
            else if(field == "cnt") { auto o = 62 + 8u; if(b->size() >= o + 8) { auto v = be(arg(1, 0), 2); b->write(o, v.data(), 2); badlog = true; } }
            else if(field == "swap") { b->write(0, c[0] == 'd' ? "nudb.key" : "nudb.dat", 8); }
            else
            {
                auto f = F.at(field);
                auto s = b->str(f.first, f.second);
                if(a[1] == "set") { auto v = be(arg(2, 0), f.second); b->write(f.first, v.data(), v.size()); }
                else { auto i = arg(1, 0) % f.second; s[i] = char(s[i] ^ arg(2, 1)); b->write(f.first, s.data(), s.size()); }
                if(field == "salt" && a.size() > 3)   // with the matching fingerprint
                { auto nsalt = dec::be(b->str(28, 8), 0, 8); auto v = be(gen::ctl_hash(hm, le8(nsalt).data(), 8, nsalt), 8); b->write(36, v.data(), 8); }
            }
        }
        for(auto& f : fs.files) { f.second->dur = f.second->b; f.second->dirty = false; }
        // files of another database, or a key file whose layout is altered, with consistent headers: nothing
        // in the files tells them from the right ones, so the contents need not be there
        bool foreign = false;
        for(auto& m : util::split(str("mut"), ','))
            if(m.find(".other") != m.npos || m.find(".salt") != m.npos || m.find("k.bs") == 0 || m.find(".ks") != m.npos) foreign = true;
        j.open('{').key("o").v("try").key("foreign").b(foreign).key("op").v(op).key("log").v(variant).key("mut").v(str("mut")).key("badlog").b(badlog);
        facts("d", fs.get(DP), 'd'); facts("k", fs.get(KP), 'k'); facts("l", fs.get(LP), 'l');
        sim::W() = sim::World{};
        auto& w = sim::W();
        w.fs = fs.clone();
        nudb::error_code ec; std::string r;
        bool got = true;
        try
        {
            if(op == "open")
            {
                nudb::context ctx; Store st(ctx);
                st.open(DP, KP, LP, ec);
                r = ename(ec);
                if(! ec)
                {
                    // everything of the first session has to be there
                    auto img = dec::decode(*x.a.get(DP), x.a.get(KP), hm);
                    for(auto& q : img.recs)
                    {
                        std::string v; nudb::error_code e;
                        st.fetch(q.key.data(), [&](void const* p, std::size_t z){ v.assign((char const*)p, z); }, e);
                        if(e || v != x.a.get(DP)->str(q.off + 6 + ks, q.size)) got = false;
                    }
                    nudb::error_code e2; st.close(e2);
                    if(e2) r = "close:" + ename(e2);
                }
            }
            else if(op == "recover") { nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, ec); r = ename(ec); }
            else if(op == "rekey")
            {
                nudb::rekey<gen::Hasher, sim::File>(DP, KP, LP, bs, (float)lf, 10, 1000, ec, [](std::uint64_t, std::uint64_t){});
                r = ename(ec);
            }
            else
            {
                auto dp = real("dat", fs, DP), kp = real("key", fs, KP);
                if(op == "verify")
                {
                    nudb::verify_info vi;
                    nudb::verify<gen::Hasher>(vi, dp, kp, num("buf", 0), [](std::uint64_t, std::uint64_t){}, ec);
                }
                else
                    nudb::visit(dp, [&](void const*, std::size_t, void const*, std::size_t, nudb::error_code&){}, [](std::uint64_t, std::uint64_t){}, ec);
                r = ename(ec);
                auto cmp = [&](std::string const& p, sim::Blob* b)
                {
                    std::ifstream is(p, std::ios::binary);
                    if(! b) { return ! is.is_open(); }
                    std::string s((std::istreambuf_iterator<char>(is)), {});
                    return s == b->str();
                };
                if(! cmp(dp, fs.get(DP)) || ! cmp(kp, fs.get(KP))) got = false;
                std::remove(dp.c_str()); std::remove(kp.c_str());
            }
        }
        catch(std::exception const& e) { r = std::string("exception"); }
        j.key("r").v(r).key("got").b(got)
            .key("dsame").b(eq(w.fs, fs, DP)).key("ksame").b(eq(w.fs, fs, KP)).key("kex").b(w.fs.has(KP)).key("lex").b(w.fs.has(LP))
            .key("dA").b(eq(w.fs, x.a, DP)).key("kA").b(eq(w.fs, x.a, KP)).key("handles").v(w.open_handles).key("anomaly").v(w.anomaly);
        j.close('}');
    }

    void run(std::string const& line, std::ostream& os)
    {
        for(auto& t : util::split(line)) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 4); bs = num("bs", 128); hm = (int)num("hm", 0); app = num("app", 7); uid = num("uid", 99); salt = num("salt", 3);
        lf = std::strtod(str("lf", "0.5").c_str(), nullptr);
        gen::hash_mode() = hm;
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line).key("ev").open('[');
        if(cfg["mode"] == "create") create(); else open();
        j.close(']').close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    scratch = av[4];
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
