// Interpreter of sequential programs against the real store on simulated files.
// usage: kv PROGRAMS OUT WORKERS SCRATCH
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "decode.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <memory>
#include <set>
#include <sys/stat.h>

using Store = nudb::basic_store<gen::Hasher, sim::File>;
static std::string scratch;
static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";

struct Run
{
    std::string id;
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const
    { auto it = cfg.find(k); return it == cfg.end() ? d : std::stoull(it->second); }
    std::size_t ks, bs; int kl, hm; double lf;
    std::uint64_t salt, app, uid;
    bool oSnap, oCost, oDio, oFmt;
    gen::Intern keys, vals;
    std::unique_ptr<nudb::context> ctx;
    std::unique_ptr<Store> st;
    util::J j;
    sim::Blob committed; bool haveCommitted = false;
    sim::Blob keyPrev; bool haveKey = false;
    dec::Img img;
    std::map<std::uint64_t, std::string> preset;
    int giant = 0;

    int kid(std::uint64_t k) { return keys.add(key(k)); }
    std::string key(std::uint64_t k) { return gen::make_key(k, ks, kl); }

    void sizes()
    {
        auto& fs = sim::W().fs;
        auto d = fs.get(DP); auto k = fs.get(KP); auto l = fs.get(LP);
        j.key("dsz").v(d ? util::clamp31(d->size()) : -1);
        j.key("ksz").v(k ? util::clamp31(k->size()) : -1);
        j.key("lsz").v(l ? util::clamp31(l->size()) : -1);
    }
    void dio(bool commit)
    {
        auto& w = sim::W();
        auto d = w.fs.get(DP);
        j.key("lo").v(w.dlo < 0 ? -1 : util::clamp31(w.dlo));
        w.dlo = -1;
        bool keep = ! haveCommitted || (d && d->prefix_equal(committed, committed.size()));
        j.key("keep").b(keep);
        if(commit)
        {
            auto k = w.fs.get(KP);
            j.key("ksame").b(haveKey && k && *k == keyPrev);
            haveKey = k != nullptr;
            if(k) keyPrev = *k;
        }
        if(commit && d) { committed = *d; haveCommitted = true; }
    }
    void evo(char const* o) { j.open('{').key("o").v(o); }
    void evc() { j.close('}'); }
    void redecode()
    {
        auto& fs = sim::W().fs;
        auto d = fs.get(DP);
        if(d) img = dec::decode(*d, fs.get(KP), hm, 1 << 16);
    }
    int vidOf(dec::Rec const& r)
    {
        auto d = sim::W().fs.get(DP);
        if(r.size > (64u << 20)) return -2;
        return vals.find(d->str(r.off + 6 + img.dh.ks, r.size));
    }
    int valOf(void const* d, std::size_t n)
    {
        if(n > (64u << 20)) return std::memcmp(d, (char const*)d + 1, n - 1) == 0 && ! *(char const*)d ? -2 : -9;
        return vals.find(std::string((char const*)d, n));
    }
    void afterCommit(bool commit)
    {
        sizes();
        if(oDio) dio(commit);
        if(oCost || oSnap) redecode();
        if(oSnap)
        {
            j.key("snap");
            dec::put(j, img, keys, [&](dec::Rec const& r){ return vidOf(r); });
        }
    }
    void doGet(std::uint64_t k)
    {
        nudb::error_code ec;
        auto ks_ = key(k);
        int n = 0, v = 0;
        auto& w = sim::W();
        w.nread = 0;
        std::size_t l0 = w.log.size();
        if(oCost) { w.record = w.record_reads = true; }
        st->fetch(ks_.data(), [&](void const* p, std::size_t sz)
            { ++n; v = valOf(p, sz); }, ec);
        std::string r = ename(ec);
        if(! ec && n != 1) r = "callbacks:" + std::to_string(n);
        if(ec && n != 0) r = "callback-with-error";
        evo("get"); j.key("k").v(kid(k)).key("r").v(r).key("v").v(v);
        if(oCost)
        {
            w.record = w.record_reads = false;
            // resolve the reads to buckets, overflow records and data records
            std::map<std::pair<int,int>, std::uint64_t> t;   // object -> bytes read
            for(auto i = l0; i < w.log.size(); ++i)
            {
                auto& o = w.log[i];
                if(o.k != sim::K::read) continue;
                auto f = sim::fkind(o.path);
                if(f == 'k')
                {
                    auto a = o.off / img.kh.bs, b = (o.off + o.len - 1) / img.kh.bs;
                    for(auto x = a; x <= b; ++x) t[{1, (int)x}] += std::min(o.off + o.len, (x + 1) * img.kh.bs) - std::max(o.off, x * img.kh.bs);
                }
                else if(f == 'd')
                {
                    // find record containing the offset
                    bool done = false;
                    for(std::size_t q = 0; q < img.spl.size() && ! done; ++q)
                        if(o.off >= img.spl[q].off - 8 && o.off < img.spl[q].off + img.spl[q].bytes)
                        { t[{2, (int)q + 1}] += o.len; done = true; }
                    for(std::size_t q = 0; q < img.recs.size() && ! done; ++q)
                        if(o.off >= img.recs[q].off && o.off < img.recs[q].off + 6 + img.dh.ks + img.recs[q].size)
                        { t[{3, (int)q + 1}] += o.len; done = true; }
                    if(! done) t[{4, 0}] += o.len;
                }
                else t[{5, 0}] += o.len;
            }
            w.log.resize(l0);
            j.key("rd").open('[');
            for(auto& e : t)
            {
                std::uint64_t lim = 0;
                if(e.first.first == 1) lim = img.kh.bs;
                else if(e.first.first == 2) lim = img.spl[e.first.second - 1].bytes + 8;
                else if(e.first.first == 3) lim = 6 + img.dh.ks + img.recs[e.first.second - 1].size;
                j.open('[').v(e.first.first).v(e.first.second).b(e.second > lim).close(']');
            }
            j.close(']');
            auto hh = (gen::ctl_hash(hm, ks_.data(), ks_.size(), salt) >> 16) & 0xffffffffffffull;
            j.key("hh").v((long long)(hh >> 24)).key("hl").v((long long)(hh & 0xffffff));
        }
        evc();
    }
    std::string toReal(char const* name, char const* path)
    {
        std::string p = scratch + "/w" + std::to_string(getpid()) + "." + name;
        auto b = sim::W().fs.get(path);
        std::remove(p.c_str());
        if(b)
        {
            std::ofstream o(p, std::ios::binary);
            b->pages([&](std::uint64_t off, void const* d, std::size_t n){ o.seekp(off); o.write(static_cast<char const*>(d), n); });
            o.close();
            if(truncate(p.c_str(), b->size())) {}
        }
        return p;
    }
    static bool sameAs(std::string const& p, sim::Blob const& b)
    {
        std::ifstream is(p, std::ios::binary);
        std::vector<char> x(1 << 20), y(1 << 20);
        std::uint64_t o = 0;
        for(; is; )
        {
            is.read(x.data(), x.size());
            std::size_t n = is.gcount();
            if(! n) break;
            if(o + n > b.size()) return false;
            b.read(o, y.data(), n);
            if(std::memcmp(x.data(), y.data(), n)) return false;
            o += n;
        }
        return o == b.size();
    }
    // ---- the command line tool (NUDB_TOOL), run on native copies of the files
    std::string tdir() const { return scratch + "/t" + std::to_string(getpid()); }
    static bool slurp(std::string const& p, sim::Blob& b)
    {
        std::ifstream is(p, std::ios::binary);
        if(! is) return false;
        std::string s((std::istreambuf_iterator<char>(is)), {});
        b = sim::Blob{};
        b.write(0, s.data(), s.size());
        return true;
    }
    std::map<std::string, std::string> tout;   // printed fields of the last run
    std::string terr;
    // digits grouped by commas, or plain ones
    static long long number(std::string const& s)
    {
        if(s.empty()) return -2;
        std::string d; std::size_t c = s.find(',');
        for(std::size_t i = 0; i < s.size(); ++i)
        {
            if(s[i] == ',') { if((s.size() - i) % 4 != 0) return -3; }
            else if(s[i] >= '0' && s[i] <= '9') d += s[i];
            else return -4;
        }
        if(d.size() > 3 && c == s.npos) return -5;
        return util::clamp31(std::stoull(d));
    }
    long long num(char const* k) { auto i = tout.find(k); return i == tout.end() ? -2 : number(i->second); }
    long long plain(char const* k) { auto i = tout.find(k); return i == tout.end() || i->second.empty() || i->second.find_first_not_of("0123456789") != std::string::npos ? -2 : util::clamp31(std::stoull(i->second)); }
    bool hex(char const* k, std::uint64_t v)
    {
        char b[32]; std::snprintf(b, sizeof b, "0x%016llx", (unsigned long long)v);
        auto i = tout.find(k); return i != tout.end() && i->second == b;
    }
    long long real(char const* k, double mul)
    {
        auto i = tout.find(k);
        if(i == tout.end()) return -99999999ll;
        char* e; double y = std::strtod(i->second.c_str(), &e) * mul;
        if(e == i->second.c_str() || !(y > -2000 && y < 2000)) return -99999999ll;
        return (long long)(y * 10000 + (y < 0 ? -0.5 : 0.5));
    }
    void hist(char const* k)
    {
        j.key(k).open('[');
        auto i = tout.find("hist");
        if(i == tout.end()) i = tout.find("sizes");
        if(i != tout.end()) for(auto& x : util::split(i->second, ',')) j.v((long long)std::atoll(x.c_str()));
        j.close(']');
    }
    void parse(std::string const& text)
    {
        tout.clear();
        std::istringstream is(text); std::string l;
        while(std::getline(is, l))
        {
            auto e = l.find(' ');
            if(e == l.npos) continue;
            auto k = l.substr(0, e); auto v = l.substr(l.find_first_not_of(' ', e) == l.npos ? l.size() : l.find_first_not_of(' ', e));
            if((k == "data" || k == "key" || k == "log" || k == "file") && l.find(": ") != l.npos)
            { k = l.substr(0, l.find(':')); auto q = l.find_first_not_of(' ', l.find(':') + 1); v = q == l.npos ? "" : l.substr(q); }
            if(! k.empty() && k.back() == ':') k.pop_back();
            if(! tout.count(k)) tout[k] = v;
        }
    }
    // runs the tool; d, k, l stand for the paths; brings the files back; returns the exit status
    int tool(std::vector<std::string> const& args, bool& same, std::string& text)
    {
        auto& w = sim::W();
        auto D = tdir();
        mkdir(D.c_str(), 0700);
        std::map<std::string, char const*> f{{"d", DP}, {"k", KP}, {"l", LP}};
        auto real = [&](std::string const& x){ return D + (x == "d" ? "/a.dat" : x == "k" ? "/a.key" : "/a.log"); };
        for(auto& e : f)
        {
            std::remove(real(e.first).c_str());
            if(auto b = w.fs.get(e.second)) { std::ofstream o(real(e.first), std::ios::binary); auto s = b->str(); o.write(s.data(), s.size()); }
        }
        std::string cmd = std::string("timeout 60 '") + std::getenv("NUDB_TOOL") + "'";
        for(auto& x : args) cmd += " '" + (f.count(x) ? real(x) : x == "n" ? D + "/none" : x == "@d" ? "--dat=" + real("d") : x == "@k" ? "--key=" + real("k")
            : x == "@l" ? "--log=" + real("l") : x) + "'";
        cmd += " > '" + D + "/out' 2> '" + D + "/err' < /dev/null";
        int st = std::system(cmd.c_str());
        same = true;
        for(auto& e : f)
        {
            sim::Blob b; bool is = slurp(real(e.first), b), was = w.fs.has(e.second);
            if(is != was || (is && b != *w.fs.get(e.second))) same = false;
            if(! is) w.fs.files.erase(e.second);
            else
            {
                if(! was) w.fs.files[e.second] = std::make_shared<sim::Inode>();
                auto n = w.fs.files[e.second];
                n->b = b; n->dur = b; n->dirty = false;
            }
            std::remove(real(e.first).c_str());
        }
        auto get = [&](char const* n){ std::ifstream is(D + n); return std::string((std::istreambuf_iterator<char>(is)), {}); };
        text = get("/out"); terr = get("/err");
        parse(text);
        return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
    }
    void toolop(std::vector<std::string> const& a)   // T:command:arguments
    {
        auto& w = sim::W();
        auto const& c = a[1];
        std::vector<std::string> args(a.begin() + 1, a.end());
        sim::Blob d0; bool hd = w.fs.has(DP); if(hd) d0 = *w.fs.get(DP);
        bool same; std::string text;
        bool haskey = w.fs.has(KP), haslog = w.fs.has(LP), lok = false, leq = false;
        sim::FS left;
        if(c == "recover" && args.size() == 4)    // what the library does with the same files
        {
            auto before = w.fs.clone();
            nudb::error_code ec;
            nudb::recover<nudb::xxhasher, sim::File>(DP, KP, LP, ec);
            lok = ! ec;
            left = w.fs; w.fs = before;
            w.anomaly.clear();
        }
        int rc = tool(args, same, text);
        if(c == "recover" && args.size() == 4)
        {
            leq = true;
            for(auto n : {DP, KP, LP})
                if(w.fs.has(n) != left.has(n) || (w.fs.has(n) && *w.fs.get(n) != *left.get(n))) leq = false;
        }
        evo("tool"); j.key("cmd").v(c).key("rc").v((long long)rc).key("same").b(same).key("err").b(! terr.empty()).key("haskey").b(haskey).key("haslog").b(haslog)
            .key("nf").v((long long)std::count_if(args.begin() + 1, args.end(), [](std::string const& x){ return x[0] != '-'; }))
            .key("no").v((long long)std::count_if(args.begin() + 1, args.end(), [](std::string const& x){ return x[0] == '-'; }));
        j.key("lok").b(lok).key("leq").b(leq);
        j.key("miss").b(std::count(args.begin(), args.end(), std::string("n")) != 0);
        j.key("dsame").b(w.fs.has(DP) && *w.fs.get(DP) == d0).key("lo").v(-1ll).key("keep").b(w.fs.has(DP) && w.fs.get(DP)->prefix_equal(d0, d0.size()));
        sizes();
        j.key("kf").b(w.fs.has(KP)).key("logleft").b(w.fs.has(LP));
        redecode();
        if(c == "rekey" && ! rc)
        {
            auto h = dec::key_header(*w.fs.get(KP));
            salt = h.salt; bs = h.bs;
            j.key("r").v("ok").key("bs").v(4096).key("lf").v(500000).key("cnt").v(0ll).key("had").b(false).key("mono").b(true);
            j.key("idok").b(h.ok && h.uid == uid && h.app == app && h.ks == ks && h.pepper == gen::ctl_hash(hm, le8(h.salt).data(), 8, h.salt));
            j.key("hlf").v((long long)h.lf).key("dirty").b(false);
        }
        if(c == "verify" && ! rc)
        {
            auto i = tout.find("algorithm");
            j.key("alg").v((long long)(i == tout.end() ? -1 : i->second == "fast" ? 1 : i->second == "normal" ? 0 : -1));
            j.key("buf").v(1).key("r").v("ok");
            auto v = [&](char const* k, char const* n){ j.key(k).v(num(n)); };
            v("ver", "version"); v("ks", "key_size"); v("bs", "block_size"); v("cap", "capacity"); v("nb", "buckets"); v("bsz", "bucket_size");
            v("kfs", "key_file_size"); v("dfs", "dat_file_size"); v("kc", "key_count"); v("vc", "value_count"); v("vb", "value_bytes");
            v("sc", "spill_count"); v("sct", "spill_count_tot"); v("sb", "spill_bytes"); v("sbt", "spill_bytes_tot");
            hist("hist");
            j.key("avg").v(real("avg_fetch", 1)).key("waste").v(real("waste", .01)).key("over").v(real("overhead", .01)).key("load").v(real("actual_load", .01))
                .key("lfp").v(real("load_factor", .01));
            auto D = tdir();
            j.key("idok").b(hex("uid", uid) && hex("appnum", app) && hex("salt", salt) && hex("pepper", gen::ctl_hash(hm, le8(salt).data(), 8, salt))
                && tout["dat_path"] == D + "/a.dat" && tout["key_path"] == D + "/a.key");
        }
        if(c == "visit")
        {
            j.key("vn").v(num("value_count")); hist("hist");
            j.key("fs").v(num("file size")).key("hok").b(tout["type"] == "'nudb.dat'" && plain("version") == 2 && plain("key_size") == (long long)ks && hex("uid", uid) && hex("appnum", app)
                && tout["data file"].find(tdir() + "/a.dat") != std::string::npos);
        }
        if(c == "info")
        {
            // one block for each file
            j.key("blk").open('[');
            std::string b; std::istringstream is(text); std::string l;
            auto flush = [&]
            {
                if(b.empty()) return;
                parse(b); b.clear();
                auto t = tout["type"];
                bool ok = plain("version") == 2 && plain("key_size") == (long long)ks && hex("uid", uid) && hex("appnum", app);
                if(t != "'nudb.dat'") ok = ok && hex("salt", salt) && hex("pepper", gen::ctl_hash(hm, le8(salt).data(), 8, salt)) && num("block_size") == (long long)bs;
                if(t == "'nudb.dat'") ok = ok && tout["data file"].find("/a.dat") != std::string::npos;
                if(t == "'nudb.key'") ok = ok && tout["key file"].find("/a.key") != std::string::npos;
                if(t == "'nudb.log'") ok = ok && tout["log file"].find("/a.log") != std::string::npos;
                j.open('{').key("t").v(t == "'nudb.dat'" ? "d" : t == "'nudb.key'" ? "k" : t == "'nudb.log'" ? "l" : "?").key("ok").b(ok).key("fs").v(num("file size"))
                    .key("ksz").v(num("key_file_size")).key("dsz").v(num("dat_file_size")).close('}');
            };
            while(std::getline(is, l))
            {
                if(l.empty()) flush();
                else if(l.find("data file:") == 0 || l.find("key file:") == 0 || l.find("log file:") == 0) { flush(); b = l + "\n"; }
                else if(! b.empty()) b += l + "\n";
                else j.open('{').key("t").v("x").close('}');    // a message instead of a description
            }
            flush();
            j.close(']');
        }
        if(w.fs.has(KP)) { j.key("snap"); dec::put(j, img, keys, [&](dec::Rec const& r){ return vidOf(r); }); }
        evc();
    }
    // KF:n kill during a commit; KR:n:bs:lf:count:buffer kill during a rekey, both before the n-th effect on the files
    void killop(std::vector<std::string> const& a)
    {
        auto& w = sim::W();
        sim::FS left; bool hit = false; std::int64_t n = std::stoll(a[1]), c = 0;
        sim::Blob d0 = *w.fs.get(DP);
        nudb::error_code ec;
        if(a[0] == "KR") w.fs.files.erase(KP);
        w.hook = [&](char k, std::string const&)
        {
            if(std::strchr("WSTCE", k) && c++ == n && ! hit) { hit = true; left = w.fs.clone(); }
        };
        if(a[0] == "KF") ctx->flush();
        else nudb::rekey<gen::Hasher, sim::File>(DP, KP, LP, std::stoull(a[2]), (float)(std::stoull(a[3]) / 1e6), std::stoull(a[4]), std::stoull(a[5]), ec,
                [](std::uint64_t, std::uint64_t){});
        if(! hit) left = w.fs.clone();
        w.hook = nullptr;
        if(st) { nudb::error_code e; if(st->is_open()) st->close(e); st.reset(); ctx.reset(); }
        w.fs = left;
        for(auto& e : w.fs.files) { e.second->dur = e.second->b; e.second->dirty = false; }
        evo("kill"); j.key("what").v(a[0] == "KF" ? "commit" : "rekey").key("hit").b(hit);
        orig = d0;
        if(a[0] == "KR" && w.fs.has(KP) && w.fs.get(KP)->size() >= 104)
        { auto h = dec::key_header(*w.fs.get(KP)); salt = h.salt; bs = h.bs; }
        sizes(); evc();
        w.anomaly.clear();
    }
    sim::Blob orig;
    // one alteration of the closed database, chosen by x, and what verify says about it
    void corrupt(std::uint64_t x, sim::World& w)
    {
        auto rnd = [&](std::uint64_t n) { x = gen::mix(x); return n ? x % n : 0; };
        sim::Blob const d0 = *w.fs.get(DP), k0 = *w.fs.get(KP);
        auto& d = *w.fs.get(DP); auto& k = *w.fs.get(KP);
        redecode();
        auto m = img;
        auto put = [&](sim::Blob& b, std::uint64_t o, std::uint64_t v, int n)
        { std::string s; for(int i = n - 1; i >= 0; --i) s += char(v >> (8 * i)); b.write(o, s.data(), n); };
        auto flip = [&](sim::Blob& b, std::uint64_t o) { std::uint8_t c; b.read(o, &c, 1); c ^= 1 + rnd(255); b.write(o, &c, 1); };
        // every bucket and spill record: file, offset
        struct Part { bool data; std::uint64_t off; dec::Bkt b; };
        std::vector<Part> parts, full;
        for(std::size_t i = 0; i < m.bk.size(); ++i) parts.push_back({false, (i + 1) * m.kh.bs, m.bk[i]});
        for(auto& q : m.spl) parts.push_back({true, q.off, q.b});
        for(auto& q : parts) if(! q.b.e.empty()) full.push_back(q);
        std::vector<Part> links;
        for(auto& q : parts) if(q.b.next) links.push_back(q);
        auto blob = [&](Part const& q) -> sim::Blob& { return q.data ? d : k; };
        std::string what;
        for(int tries = 0; tries < 20 && what.empty(); ++tries)
        switch(rnd(20))
        {
        case 0: case 1: if(full.size()) { auto& q = full[rnd(full.size())]; auto i = rnd(q.b.e.size()); auto f = rnd(3);
            flip(blob(q), q.off + 8 + 18 * i + 6 * f + rnd(6)); what = std::string("entry ") + (f == 0 ? "offset" : f == 1 ? "size" : "hash"); } break;
        case 2: if(full.size() && m.recs.size()) { auto& q = full[rnd(full.size())]; auto i = rnd(q.b.e.size());
            put(blob(q), q.off + 8 + 18 * i, m.recs[rnd(m.recs.size())].off, 6); what = "entry to another record"; } break;
        case 3: if(full.size() >= 1) { auto& q = full[rnd(full.size())]; auto& r = full[rnd(full.size())];
            auto& a = q.b.e[rnd(q.b.e.size())]; auto i = rnd(r.b.e.size());
            put(blob(r), r.off + 8 + 18 * i, a.off, 6); put(blob(r), r.off + 14 + 18 * i, a.size, 6); put(blob(r), r.off + 20 + 18 * i, a.hash, 6); what = "entry overwritten by another"; } break;
        case 4: { auto& q = parts[rnd(parts.size())]; auto n = rnd(3) ? rnd(m.cap + 1) : rnd(2) ? m.cap + 1 + rnd(3) : rnd(65536); if(n != q.b.count) { put(blob(q), q.off, n, 2); what = "count"; } } break;
        case 5: case 6: if(links.size()) { auto& q = links[rnd(links.size())]; auto z = rnd(5);
            std::uint64_t t = z == 0 ? 0 : z == 1 ? m.spl[rnd(m.spl.size())].off : z == 2 ? q.b.next + (rnd(2) ? 1 : -1) * (1 + rnd(20)) : z == 3 ? rnd(m.dsz + 100) : m.dsz - rnd(60);
            if(t != q.b.next) { put(blob(q), q.off + 2, t, 6); what = "link"; } } break;
        case 7: { auto& q = parts[rnd(parts.size())]; auto t = m.spl.size() && rnd(2) ? m.spl[rnd(m.spl.size())].off : 92 + rnd(m.dsz); if(t != q.b.next) { put(blob(q), q.off + 2, t, 6); what = "link added"; } } break;
        case 8: case 9: if(m.recs.size()) { auto& r = m.recs[rnd(m.recs.size())]; flip(d, r.off + 6 + rnd(m.dh.ks)); what = "key"; } break;
        case 10: case 11: if(m.recs.size() > 1) { auto& r = m.recs[rnd(m.recs.size())]; auto& q = m.recs[rnd(m.recs.size())]; if(r.key != q.key) { d.write(r.off + 6, q.key.data(), q.key.size()); what = "key of another"; } } break;
        case 12: if(m.recs.size()) { auto& r = m.recs[rnd(m.recs.size())]; if(rnd(3)) put(d, r.off, r.size + (rnd(2) ? 1 + rnd(9) : -std::min<std::uint64_t>(r.size - 1, rnd(9))), 6); else flip(d, r.off + rnd(6)); what = "record length"; } break;
        case 13: if(m.recs.size() > 1) { auto i = rnd(m.recs.size() - 1); auto& r = m.recs[i]; auto& q = m.recs[i + 1]; if(q.off + 6 + m.dh.ks + q.size > r.off + 6 + m.dh.ks) { put(d, r.off, q.off + q.size - r.off, 6); what = "record swallows the next"; } } break;
        case 14: if(m.spl.size()) { auto& q = m.spl[rnd(m.spl.size())]; put(d, q.off - 2, rnd(3) ? q.bytes + 18 * (1 + rnd(3)) * (rnd(2) ? 1 : -1) : rnd(65536), 2); what = "spill length"; } break;
        case 15: { auto n = rnd(2) ? m.dsz - 1 - rnd(std::min<std::uint64_t>(m.dsz - 1, 40)) : rnd(m.dsz); d.trunc(n); what = "data file cut"; } break;
        case 16: { auto n = rnd(3) == 0 ? m.kh.bs * (1 + rnd(m.nb)) : rnd(2) ? m.ksz - 1 - rnd(30) : rnd(m.ksz); k.trunc(n); what = "key file cut"; } break;
        case 17: if(full.size()) { auto& q = full[rnd(full.size())]; auto& r = parts[rnd(parts.size())];   // an entry indexed twice, in order
            if(r.b.e.size() < m.cap) { auto e = q.b.e[rnd(q.b.e.size())]; auto v = r.b.e; v.push_back(e); std::stable_sort(v.begin(), v.end(), [](dec::Ent const& a, dec::Ent const& b){ return a.hash < b.hash; });
                put(blob(r), r.off, v.size(), 2); for(std::size_t i = 0; i < v.size(); ++i) { put(blob(r), r.off + 8 + 18 * i, v[i].off, 6); put(blob(r), r.off + 14 + 18 * i, v[i].size, 6); put(blob(r), r.off + 20 + 18 * i, v[i].hash, 6); }
                what = "entry twice"; } } break;
        case 18: if(full.size()) { auto q = full[rnd(full.size())]; auto v = q.b.e; v.erase(v.begin() + rnd(v.size()));   // an entry removed
            put(blob(q), q.off, v.size(), 2); for(std::size_t i = 0; i < v.size(); ++i) { put(blob(q), q.off + 8 + 18 * i, v[i].off, 6); put(blob(q), q.off + 14 + 18 * i, v[i].size, 6); put(blob(q), q.off + 20 + 18 * i, v[i].hash, 6); }
            if(! q.data) { std::string z(18, 0); k.write(q.off + 8 + 18 * v.size(), z.data(), 18); }
            what = "entry removed"; } break;
        case 19: if(m.nb > 1) { auto i = 1 + rnd(m.nb), q = 1 + rnd(m.nb); if(i != q) { auto s1 = k0.str(i * m.kh.bs, m.kh.bs), s2 = k0.str(q * m.kh.bs, m.kh.bs); k.write(i * m.kh.bs, s2.data(), s2.size()); k.write(q * m.kh.bs, s1.data(), s1.size()); what = "buckets exchanged"; } } break;
        }
        if(what.empty()) { what = "nothing"; }
        redecode();
        evo("corrupt"); j.key("what").v(what).key("snap");
        dec::put(j, img, keys, [&](dec::Rec const& r){ return vidOf(r); });
        j.key("res").open('[');
        auto dp = toReal("dat", DP), kp = toReal("key", KP);
        auto const bufs = {std::uint64_t(0), std::uint64_t(1), m.kh.bs * 2 + 64, m.kh.bs * (2 + rnd(8)) + 64, std::uint64_t(1000000)};
        for(auto b : bufs)
        {
            nudb::verify_info vi; nudb::error_code ec; std::string r;
            try { nudb::verify<gen::Hasher>(vi, dp, kp, b, [](std::uint64_t, std::uint64_t){}, ec); r = ename(ec); }
            catch(std::exception const& e) { r = std::string("exception ") + e.what(); }
            j.v(r);
        }
        j.close(']'); evc();
        std::remove(dp.c_str()); std::remove(kp.c_str());
        d = d0; k = k0;
    }
    void op(std::string const& tok)
    {
        auto a = util::split(tok, ':');
        auto const& c = a[0];
        auto arg = [&](std::size_t i, std::uint64_t d = 0) { return i < a.size() ? std::stoull(a[i]) : d; };
        nudb::error_code ec;
        auto& w = sim::W();
        if(c == "C")
        {
            nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app, uid, salt, ks, bs, (float)lf, ec);
            evo("create"); j.key("r").v(ename(ec));
            if(! ec && w.fs.get(KP)) j.key("hlf").v((long long)dec::key_header(*w.fs.get(KP)).lf);
            afterCommit(! ec); evc();
        }
        else if(c == "B")   // B:n[:count]  preset records of n bytes (zeroes) at the end of the data file
        {
            auto b = w.fs.get(DP);
            std::vector<std::string> pk;
            for(std::uint64_t q = 0; q < arg(2, 1); ++q)
            {
                std::string h; std::uint64_t n = arg(1);
                for(int i = 5; i >= 0; --i) h += char(n >> (8 * i));
                std::string k(ks, '\x77');
                if(a.size() > 2)
                    for(std::size_t i = 0; i < ks; ++i) k[i] = char(0xe0 ^ (giant >> (8 * i)) ^ (i * 29));
                else
                    for(std::size_t i = 0; i < ks; ++i) k[i] = char(0x77 + giant);
                ++giant;
                pk.push_back(k);
                auto o = b->size();
                b->write(o, h.data(), h.size());
                b->write(o + 6, k.data(), k.size());
                char z = 0; b->write(o + 6 + ks + n - 1, &z, 1);
            }
            w.fs.files[DP]->dur = *b;
            committed = *b;
            if(a.size() > 2)    // these are part of the database
            {
                evo("preset"); j.key("m").open('[');
                for(auto& k : pk) j.v(keys.add(k));
                j.close(']'); sizes(); evc();
            }
        }
        else if(c == "N")   // preset number of (empty) buckets
        {
            auto b = w.fs.get(KP);
            b->trunc((arg(1) + 1) * bs);
            w.fs.files[KP]->dur = *b;
        }
        else if(c == "o")
        {
            if(! st) { ctx.reset(new nudb::context); st.reset(new Store(*ctx)); }
            st->open(DP, KP, LP, ec);
            evo("open"); j.key("r").v(ename(ec));
            if(! ec)
            {
                st->set_burst(std::size_t(1) << 50);
                j.key("ks").v(util::clamp31(st->key_size())).key("bs").v(util::clamp31(st->block_size()))
                    .key("app").v(std::to_string(st->appnum()))
                    .key("paths").b(st->dat_path() == DP && st->key_path() == KP && st->log_path() == LP && st->is_open());
            }
            afterCommit(! ec); evc();
        }
        else if(c == "c" || c == "D")
        {
            evo(c == "c" ? "close" : "destroy");
            if(c == "c") { st->close(ec); j.key("isopen").b(st->is_open()); }
            else { st.reset(); ctx.reset(); }
            j.key("r").v(ename(ec));
            j.key("dirty").b([&]{ for(auto& e : w.fs.files) if(e.second->dirty) return true; return false; }());
            if(oFmt) hdrs();
            afterCommit(true); evc();
        }
        else if(c == "f")
        {
            ctx->flush();
            evo("flush"); afterCommit(true); evc();
        }
        else if(c == "i")
        {
            auto k = key(arg(1)); auto v = gen::make_value(arg(2), arg(3));
            int id = vals.add(v);
            st->insert(k.data(), v.data(), v.size(), ec);
            evo("ins"); j.key("k").v(kid(arg(1))).key("v").v(id).key("z").v(util::clamp31(v.size())).key("r").v(ename(ec)); 
            if(oDio) dio(false);
            evc();
        }
        else if(c == "g") { w.log.clear(); doGet(arg(1)); }
        else if(c == "P") { w.fs.power_loss(); evo("power"); evc(); }
        else if(c == "S")
        {
            redecode();
            evo("snap"); sizes(); j.key("snap"); dec::put(j, img, keys, [&](dec::Rec const& r){ return vidOf(r); }); evc();
        }
        else if(c == "R")   // R:bs:lf(millionths):count:buffer   (K: keep the old key file)
        {
            std::uint64_t pc = 0, pt = 0, n = 0; bool mono = true;
            bool had = w.fs.has(KP);
            w.fs.files.erase(KP);
            nudb::rekey<gen::Hasher, sim::File>(DP, KP, LP, arg(1), (float)(arg(2) / 1e6), arg(3), arg(4), ec,
                [&](std::uint64_t x, std::uint64_t t){ if(n && (x < pc || t != pt)) mono = false; if(x > t) mono = false; pc = x; pt = t; ++n; });
            evo("rekey"); j.key("r").v(ename(ec)).key("bs").v(arg(1)).key("lf").v(arg(2)).key("cnt").v(arg(3)).key("had").b(had)
                .key("mono").b(mono);
            bool logleft = w.fs.has(LP);
            j.key("logleft").b(logleft);
            if(! ec)
            {
                auto h = dec::key_header(*w.fs.get(KP));
                salt = h.salt; bs = h.bs;
                j.key("idok").b(h.ok && h.uid == uid && h.app == app && h.ks == ks
                    && h.pepper == gen::ctl_hash(hm, le8(h.salt).data(), 8, h.salt));
                j.key("hlf").v((long long)h.lf);
            }
            j.key("kf").b(w.fs.has(KP));
            j.key("dirty").b([&]{ for(auto& e : w.fs.files) if(e.second->dirty) return true; return false; }());
            afterCommit(! ec); evc();
        }
        else if(c == "V")
        {
            auto dp = toReal("dat", DP), kp = toReal("key", KP);
            nudb::verify_info vi;
            std::uint64_t n = 0;
            nudb::verify<gen::Hasher>(vi, dp, kp, arg(1), [&](std::uint64_t, std::uint64_t){ ++n; }, ec);
            evo("verify"); j.key("buf").v(util::clamp31(arg(1))).key("r").v(ename(ec));
            if(! ec)
            {
                j.key("alg").v(vi.algorithm).key("ver").v(vi.version).key("ks").v(vi.key_size).key("bs").v(vi.block_size)
                 .key("cap").v(vi.capacity).key("nb").v(vi.buckets).key("bsz").v(vi.bucket_size).key("ksz").v(util::clamp31(vi.key_file_size))
                 .key("dsz").v(util::clamp31(vi.dat_file_size)).key("kc").v(vi.key_count).key("vc").v(vi.value_count).key("vb").v(util::clamp31(vi.value_bytes))
                 .key("sc").v(vi.spill_count).key("sct").v(vi.spill_count_tot).key("sb").v(vi.spill_bytes).key("sbt").v(util::clamp31(vi.spill_bytes_tot));
                j.key("hist").open('['); for(auto h : vi.hist) j.v(h); j.close(']');
                auto f = [&](float x) { double y = x; if(!(y > -2000) || !(y < 2000)) return -99999999ll; return (long long)(y * 10000 + (y < 0 ? -0.5 : 0.5)); };
                j.key("avg").v(f(vi.avg_fetch)).key("waste").v(f(vi.waste)).key("over").v(f(vi.overhead)).key("load").v(f(vi.actual_load));
                j.key("lf").v((long long)(vi.load_factor * 65536.f + .5f));
                j.key("idok").b(vi.uid == uid && vi.appnum == app && vi.salt == salt && vi.dat_path == dp && vi.key_path == kp
                    && vi.pepper == gen::ctl_hash(hm, le8(salt).data(), 8, salt));
            }
            // verify must not change the files
            {
                j.key("same").b(sameAs(dp, *w.fs.get(DP)) && sameAs(kp, *w.fs.get(KP)));
            }
            std::remove(dp.c_str()); std::remove(kp.c_str());
            evc();
        }
        else if(c == "T") { toolop(a); return; }
        else if(c == "KF" || c == "KR") { killop(a); return; }
        else if(c == "RK") { w.fs.files.erase(KP); evo("rmkey"); evc(); }
        else if(c == "CK")    // leave n bytes of the key file
        {
            auto b = w.fs.get(KP);
            b->trunc(arg(1));
            w.fs.files[KP]->dur = *b;
            evo("cutkey"); evc();
        }
        else if(c == "CUT")   // cut n bytes off the data file
        {
            auto b = w.fs.get(DP);
            b->trunc(b->size() - std::min<std::uint64_t>(b->size(), arg(1)));
            w.fs.files[DP]->dur = *b;
            evo("cut"); j.key("n").v(util::clamp31(arg(1))); sizes(); evc();
        }
        else if(c == "WC")  // WC:seed:n  visits of files cut short at interesting sizes
        {
            redecode();
            std::vector<std::uint64_t> cut;
            auto edge = [&](std::uint64_t x){ for(long d : {-1, 0, 1, 3, 5, 6, 7, 8, 9}) if((long)x + d >= 0 && x + d < img.dsz) cut.push_back(x + d); };
            edge(0); edge(92); edge(img.dsz - 1);
            for(auto& r : img.recs) { edge(r.off); edge(r.off + 6 + img.dh.ks); cut.push_back(r.off + 6 + img.dh.ks + r.size / 2); }
            for(auto& r : img.spl) { edge(r.off - 8); edge(r.off + r.bytes); cut.push_back(r.off + r.bytes / 2); }
            for(std::uint64_t i = 0; i < arg(2); ++i)
                op("W:0:" + std::to_string(cut[gen::mix(arg(1) + i) % cut.size()]));
            return;
        }
        else if(c == "XC")  // XC:seed:n[:buf,buf..]  alterations of the files, each followed by verify with several buffers
        {
            for(std::uint64_t i = 0; i < arg(2); ++i) corrupt(gen::mix(arg(1) * 1000 + i), w);
            return;
        }
        else if(c == "W")   // W[:stop after n[:cut file to size]]
        {
            auto dp = toReal("dat", DP);
            std::uint64_t stop = arg(1, 0);
            if(a.size() > 2) { if(truncate(dp.c_str(), arg(2))) {} }
            evo("visit"); j.key("stop").v(util::clamp31(stop)).key("cut").v(a.size() > 2 ? util::clamp31(arg(2)) : -1);
            j.key("m").open('[');
            std::uint64_t n = 0; bool ksok = true; std::uint64_t pc = 0; bool mono = true;
            auto redo = w.fs.get(DP);
            (void)redo;
            nudb::visit(dp, [&](void const* k, std::size_t kn, void const* d, std::size_t dn, nudb::error_code& e)
            {
                if(kn != ks) ksok = false;
                j.open('[').v(keys.find(std::string((char const*)k, kn))).v(valOf(d, dn)).v(util::clamp31(dn)).close(']');
                if(++n == stop) e = nudb::error::too_many_buckets;
            }, [&](std::uint64_t x, std::uint64_t t){ if(x < pc || x > t) mono = false; pc = x; }, ec);
            j.close(']').key("r").v(ename(ec)).key("ksok").b(ksok).key("mono").b(mono);
            std::remove(dp.c_str());
            evc();
        }
        else { std::fprintf(stderr, "bad token %s\n", tok.c_str()); std::exit(9); }
        if(! w.anomaly.empty()) { evo("anomaly"); j.key("what").v(w.anomaly); evc(); w.anomaly.clear(); }
    }
    static std::string le8(std::uint64_t v) { std::string s(8, 0); for(int i = 0; i < 8; ++i) s[i] = char(v >> (8 * i)); return s; }
    void hdrs()
    {
        auto& fs = sim::W().fs;
        auto d = fs.get(DP); auto k = fs.get(KP);
        if(! d || ! k) return;
        auto dh = dec::dat_header(*d); auto kh = dec::key_header(*k);
        j.key("hdr").b(dh.ok && kh.ok && dh.uid == uid && kh.uid == uid && dh.app == app && kh.app == app && dh.ks == ks && kh.ks == ks
            && kh.salt == salt && kh.bs == bs && dh.reserved0 && kh.reserved0
            && kh.pepper == gen::ctl_hash(hm, le8(salt).data(), 8, salt));
        j.key("hlf").v((long long)kh.lf);
    }
    void run(std::string const& line, std::ostream& os)
    {
        auto bar = line.find('|');
        for(auto& t : util::split(line.substr(0, bar)))
        { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        id = cfg["id"];
        ks = num("ks", 4); bs = num("bs", 256); kl = (int)num("kl", 0); hm = (int)num("hm", 0);
        lf = num("lf", 500000) / 1e6; salt = num("salt", 1); app = num("app", 7); uid = num("uid", 99);
        auto obs = cfg["obs"];
        oSnap = obs.find('s') != obs.npos; oCost = obs.find('c') != obs.npos; oDio = obs.find('d') != obs.npos; oFmt = obs.find('h') != obs.npos;
        gen::hash_mode() = hm;
        sim::W() = sim::World{};
        j.open('{').key("id").v(id).key("ks").v(ks).key("bs").v(bs).key("hm").v(hm).key("lf").v((long long)(lf * 1e6 + .5))
            .key("cap").v(bs >= 26 ? (bs - 8) / 18 : 0).key("prog").v(line).key("ev").open('[');
        for(auto& t : util::split(line.substr(bar + 1))) op(t);
        if(st && st->is_open()) { nudb::error_code e; st->close(e); }
        st.reset(); ctx.reset();
        j.close(']').close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    scratch = av[4];
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
