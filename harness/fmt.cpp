// Files byte for byte.
// usage: fmt PROGRAMS OUT WORKERS SCRATCH
//   mode=write ops T=i:k:v:size,f,c,o,K:bs:lf,...     the files are given to the reader of the specification
//   mode=read dat=HEX key=HEX log=HEX kv=hexkey:hexvalue,... more=N   files made by the specification
//   mode=hash seed=S n=LENGTHS off=ALIGNMENTS           the hash function on its own
//   mode=pepper                                         prints the fingerprint of the salt
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "decode.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <memory>

using Store = nudb::basic_store<gen::Hasher, sim::File>;
static std::string scratch;
static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";

static std::string be(std::uint64_t v, int n) { std::string s; for(int i = n - 1; i >= 0; --i) s += char(v >> (8 * i)); return s; }
static std::string le8(std::uint64_t v) { std::string s(8, 0); for(int i = 0; i < 8; ++i) s[i] = char(v >> (8 * i)); return s; }
static std::string unhex(std::string const& s) { std::string r; for(std::size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16)); return r; }

struct Run
{
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const
    { auto it = cfg.find(k); return it == cfg.end() || it->second.empty() ? d : std::stoull(it->second); }
    std::string str(char const* k, char const* d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    util::J j;
    std::size_t ks, bs; double lf; int hm; int lf16;
    std::uint64_t app, uid, salt;
    std::map<std::string, std::string> kv;

    void arr(char const* name, std::string const& s)
    {
        j.key(name).open('[');
        for(unsigned char c : s) j.v((long long)c);
        j.close(']');
    }
    void ids()
    {
        arr("uid", be(uid, 8)); arr("app", be(app, 8)); arr("salt", be(salt, 8));
        arr("pepper", be(gen::ctl_hash(hm, le8(salt).data(), 8, salt), 8));
        j.key("ks").v(ks).key("bs").v(bs).key("lf").v(lf16).key("hm").v(hm);
    }
    void kvs()
    {
        j.key("kv").open('[');
        for(auto& e : kv)
        {
            j.open('{'); arr("k", e.first); arr("v", e.second);
            arr("h", be(gen::ctl_hash(hm, e.first.data(), e.first.size(), salt), 8)); j.close('}');
        }
        j.close(']');
    }
    void img()
    {
        auto& fs = sim::W().fs;
        j.open('{').key("o").v("img"); ids(); kvs();
        arr("dat", fs.get(DP) ? fs.get(DP)->str() : ""); arr("key", fs.get(KP) ? fs.get(KP)->str() : "");
        j.key("nolog").b(! fs.has(LP));
        j.close('}');
    }
    void use(std::string const& r) { j.open('{').key("o").v("use").key("r").v(r).close('}'); }

    // the log and the key file when the first byte of the key file is about to change
    std::string kpre, dpre_;
    std::uint64_t dsz = 0; bool inlog = false, done = false;
    void watch()
    {
        auto& w = sim::W();
        inlog = done = false;
        w.hook = [this](char k, std::string const& path)
        {
            auto& w = sim::W();
            auto f = sim::fkind(path);
            if(f == 'l' && k == 'W' && ! inlog)
            {
                inlog = true; done = false;
                kpre = w.fs.get(KP) ? w.fs.get(KP)->str() : "";
                dsz = w.fs.get(DP)->size();
            }
            if(f == 'k' && k == 'W' && inlog && ! done)
            {
                done = true;
                j.open('{').key("o").v("log"); ids();
                arr("log", w.fs.get(LP) ? w.fs.get(LP)->str() : ""); arr("kpre", kpre); j.key("dpre").v(dsz); j.close('}');
            }
            if(f == 'l' && k == 'T') inlog = false;
        };
    }
    void setlf(double f)
    {
        // as the documentation has it: a fraction of 65536; the exact rounding is the library's
        auto kh = dec::key_header(*sim::W().fs.get(KP));
        lf16 = (int)kh.lf;
        auto want = 65536. * f;
        if(lf16 > want + 1 || lf16 < want - 1) use("load factor " + std::to_string(lf16));
    }
    std::string value(int v, std::size_t n) { return gen::make_value(v, n); }

    void write()
    {
        sim::W() = sim::World{};
        auto& w = sim::W();
        nudb::error_code ec;
        nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app, uid, salt, ks, bs, (float)lf, ec);
        if(ec) { use("create:" + ename(ec)); return; }
        w.fs.files.erase(LP);
        setlf(lf);
        img();
        std::unique_ptr<nudb::context> ctx(new nudb::context);
        std::unique_ptr<Store> st(new Store(*ctx));
        auto open = [&] { st->open(DP, KP, LP, ec); if(ec) use("open:" + ename(ec)); else st->set_burst(std::size_t(1) << 50); };
        watch();
        open();
        for(auto& op : util::split(str("T"), ','))
        {
            auto a = util::split(op, ':');
            auto arg = [&](std::size_t i) { return i < a.size() ? std::stoll(a[i]) : 0ll; };
            ec = {};
            switch(a[0][0])
            {
            case 'i':
            {
                auto k = gen::make_key(arg(1), ks, (int)num("kl", 0)); auto v = value(arg(2), arg(3));
                st->insert(k.data(), v.data(), v.size(), ec);
                if(ec == nudb::error::key_exists) break;
                if(ec) use("insert:" + ename(ec));
                kv[k] = v;
                break;
            }
            case 'f': ctx->flush(); break;
            case 'c': st->close(ec); if(ec) use("close:" + ename(ec)); img(); break;
            case 'o': open(); break;
            case 'K':
                w.fs.files.erase(KP);
                bs = arg(1); lf = std::strtod(a[2].c_str(), nullptr);
                // the salt of the new key file is new: what the log says is what counts
                {
                    auto keep = w.hook;
                    w.hook = nullptr;
                    std::string log; bool got = false; std::uint64_t d0 = w.fs.get(DP)->size();
                    w.hook = [&](char k, std::string const& path) { if((sim::fkind(path) == 'k' || sim::fkind(path) == 'd') && k == 'W' && ! got && w.fs.get(LP) && w.fs.get(LP)->str().size()) got = true, log = w.fs.get(LP)->str(); };
                    nudb::rekey<gen::Hasher, sim::File>(DP, KP, LP, bs, (float)lf, kv.size(), arg(3), ec, [](std::uint64_t, std::uint64_t){});
                    if(ec) use("rekey:" + ename(ec));
                    w.hook = keep;
                    auto kh = dec::key_header(*w.fs.get(KP));
                    salt = kh.salt;
                    setlf(lf);
                    j.open('{').key("o").v("log"); ids(); arr("log", log); arr("kpre", ""); j.key("dpre").v(d0); j.close('}');
                }
                img();
                break;
            }
        }
        ec = {}; if(st->is_open()) { st->close(ec); if(ec) use("close:" + ename(ec)); img(); }
        w.hook = nullptr;
    }
    void read()
    {
        sim::W() = sim::World{};
        auto& w = sim::W();
        auto get = [&](char const* name, char const* p)
        {
            auto f = str(name);
            if(f.empty()) return;
            auto s = unhex(f);
            auto n = std::make_shared<sim::Inode>(); n->b.write(0, s.data(), s.size()); n->dur = n->b; w.fs.files[p] = n;
        };
        get("dat", DP); get("key", KP); get("log", LP);
        for(auto& e : util::split(str("kv"), ',')) { auto a = util::split(e, ':'); kv[unhex(a[0])] = unhex(a[1]); }
        nudb::error_code ec;
        lf16 = (int)num("lf16", 32768);
        std::string r = "ok";
        {
            nudb::context ctx; Store st(ctx);
            st.open(DP, KP, LP, ec);
            if(ec) r = "open:" + ename(ec);
            else
            {
                st.set_burst(std::size_t(1) << 50);
                auto all = [&]
                {
                    for(auto& e : kv)
                    {
                        std::string got; nudb::error_code e2;
                        st.fetch(e.first.data(), [&](void const* p, std::size_t n){ got.assign((char const*)p, n); }, e2);
                        if(e2 || got != e.second) r = "fetch:" + ename(e2);
                        e2 = {};
                        st.insert(e.first.data(), "x", 1, e2);
                        if(e2 != nudb::error::key_exists) r = "insert again:" + ename(e2);
                    }
                };
                if(st.key_size() != ks || st.block_size() != bs || st.appnum() != app) r = "parameters";
                all();
                for(std::uint64_t i = 0; i < num("more", 3); ++i)
                {
                    auto k = gen::make_key(200 + i, ks, 0); auto v = gen::make_value(i, 3 + i);
                    if(kv.count(k)) continue;
                    nudb::error_code e2; bool hit = false;
                    st.fetch(k.data(), [&](void const*, std::size_t){ hit = true; }, e2);
                    if(hit || e2 != nudb::error::key_not_found) r = "fetch of an absent key:" + ename(e2);
                    e2 = {};
                    st.insert(k.data(), v.data(), v.size(), e2);
                    if(e2) r = "insert:" + ename(e2);
                    kv[k] = v;
                    if(i % 3 == 2) ctx.flush();
                }
                all();
                nudb::error_code e3; st.close(e3);
                if(e3) r = "close:" + ename(e3);
            }
        }
        use(r);
        if(r == "ok") img();
    }

    void hash()
    {
        for(auto& l : util::split(str("n"), ','))
            for(auto& o : util::split(str("off"), ','))
            {
                std::size_t const n = std::stoull(l), off = std::stoull(o);
                auto const seed = num("seed", 0);
                std::string d;
                for(std::size_t i = 0; i < n; ++i) d += char(gen::mix(seed * 31 + n * 7 + off + (i / 8) * 1000003) >> (8 * (i % 8)));
                std::vector<std::uint64_t> store(n / 8 + 4);
                auto p = reinterpret_cast<char*>(store.data()) + off;
                std::memcpy(p, d.data(), n);
                auto h = nudb::xxhasher{seed}(p, n);
                j.open('{').key("o").v("hash"); arr("seed", be(seed, 8)); arr("d", d); arr("r", be(h, 8)); j.close('}');
            }
    }

    void run(std::string const& line, std::ostream& os)
    {
        for(auto& t : util::split(line)) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 4); bs = num("bs", 128); hm = (int)num("hm", 1); app = num("app", 7); uid = num("uid", 99); salt = num("salt", 3);
        lf = std::strtod(str("lf", "0.5").c_str(), nullptr);
        gen::hash_mode() = hm;
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line).key("ev").open('[');
        if(cfg["mode"] == "write") write(); else if(cfg["mode"] == "hash") hash(); else read();
        j.close(']').close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac == 4 && std::string(av[1]) == "pepper")
    {
        auto salt = std::stoull(av[3]);
        for(unsigned char c : be(gen::ctl_hash(atoi(av[2]), le8(salt).data(), 8, salt), 8)) std::printf("%d ", c);
        return 0;
    }
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    scratch = av[4];
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i].substr(0, 2000)).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
