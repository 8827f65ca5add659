// Crash points and I/O faults: runs a workload on the real store over simulated files, then
//   mode=crash  builds the file images a crash can leave at every point, recovers each with the real code
//               (which is itself interrupted and repeated) and reports the distinct outcomes
//   mode=fault  repeats the workload with every single file operation failing
// usage: crash PROGRAMS OUT WORKERS SCRATCH
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "decode.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <algorithm>
#include <memory>
#include <set>

using Store = nudb::basic_store<gen::Hasher, sim::File>;
static char const* DP = "/sim/a.dat";
static char const* KP = "/sim/a.key";
static char const* LP = "/sim/a.log";
using sim::K;

struct Rng
{
    std::uint64_t s;
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return gen::mix(s); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool chance(int pct) { return (int)below(100) < pct; }
};

struct Run
{
    std::map<std::string, std::string> cfg;
    std::string line;
    std::uint64_t num(char const* k, std::uint64_t d) const
    { auto it = cfg.find(k); return it == cfg.end() ? d : std::stoull(it->second); }
    std::size_t ks, bs0; int kl, hm; double lf;
    std::uint64_t salt0, app, uid;
    int nvar, nnest, depth; bool faultRec;
    gen::Intern keys, vals;
    std::vector<std::uint64_t> allKeys;
    std::unique_ptr<nudb::context> ctx;
    std::unique_ptr<Store> st;
    int killPct, killMax; std::size_t killCap;
    std::uint64_t images = 0, nests = 0, faults = 0, evals = 0, kills = 0, kills0 = 0;
    Rng rng{1};

    std::string key(std::uint64_t k) { return gen::make_key(k, ks, kl); }

    // ---------------------------------------------------------------- API calls
    struct Ev { std::string j; };
    // a preset record that takes the data file beyond 4 GiB; sizes are reported without it
    std::string giantKey; std::uint64_t shift = 0;
    long long dsize(std::uint64_t n) const { return n >= shift ? util::clamp31(n - shift) : -2; }
    util::J* out = nullptr;

    bool opened() { return st && st->is_open(); }

    // performs a token; returns the result string ("-" for none)
    std::string call(std::vector<std::string> const& a, nudb::error_code& ec)
    {
        auto const& c = a[0];
        auto arg = [&](std::size_t i, std::uint64_t d = 0) { return i < a.size() ? std::stoull(a[i]) : d; };
        if(c == "C") { nudb::create<gen::Hasher, sim::File>(DP, KP, LP, app, uid, salt0, ks, bs0, (float)lf, ec); return ename(ec); }
        if(c == "o")
        {
            if(! st) { ctx.reset(new nudb::context); st.reset(new Store(*ctx)); }
            st->open(DP, KP, LP, ec);
            if(! ec) st->set_burst(std::size_t(1) << 50);
            return ename(ec);
        }
        if(c == "c") { st->close(ec); return ename(ec); }
        if(c == "D") { st.reset(); ctx.reset(); return "-"; }
        if(c == "f") { ctx->flush(); return "-"; }
        if(c == "i")
        {
            auto k = key(arg(1)); auto v = gen::make_value(arg(2), arg(3));
            st->insert(k.data(), v.data(), v.size(), ec);
            return ename(ec);
        }
        if(c == "R")
        {
            nudb::rekey<gen::Hasher, sim::File>(DP, KP, LP, arg(1), (float)(arg(2) / 1e6), arg(3), arg(4), ec, [](std::uint64_t, std::uint64_t){});
            return ename(ec);
        }
        if(c == "E") { sim::W().fs.files.erase(KP); return "-"; }   // the user removes the key file
        if(c == "B")
        {
            auto b = sim::W().fs.get(DP);
            std::string h; std::uint64_t n = arg(1);
            for(int i = 5; i >= 0; --i) h += char(n >> (8 * i));
            giantKey.assign(ks, '\x77');
            auto o = b->size();
            b->write(o, h.data(), h.size());
            b->write(o + 6, giantKey.data(), ks);
            char z = 0; b->write(o + 6 + ks + n - 1, &z, 1);
            sim::W().fs.files[DP]->dur = *b;
            shift += 6 + ks + n;
            return "-";
        }
        if(c == "N")    // preset number of (empty) buckets
        {
            auto b = sim::W().fs.get(KP);
            b->trunc((arg(1) + 1) * bs0);
            sim::W().fs.files[KP]->dur = *b;
            return "-";
        }
        if(c == "Q") { nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, ec); return ename(ec); }
        std::fprintf(stderr, "bad token %s\n", c.c_str()); std::exit(9);
    }
    std::pair<std::string,int> get(std::uint64_t k)
    {
        nudb::error_code ec; int n = 0, v = 0;
        auto kk = key(k);
        st->fetch(kk.data(), [&](void const* p, std::size_t z){ ++n; v = vals.find(std::string((char const*)p, z)); }, ec);
        std::string r = ename(ec);
        if((! ec) != (n == 1)) r = "callbacks:" + std::to_string(n) + ":" + r;
        return {r, v};
    }

    void putSnap(util::J& j)
    {
        auto& fs = sim::W().fs;
        auto d = fs.get(DP);
        auto img = dec::decode(*d, fs.get(KP), hm, 1 << 14, giantKey);
        j.key("snap");
        dec::put(j, img, keys, [&](dec::Rec const& r){ return r.size > (1u << 24) ? -2 : vals.find(d->str(r.off + 6 + img.dh.ks, r.size)); });
    }

    // Recover the current files and report what is there. The result depends only on the files.
    // extra: what a rerun of rekey needs
    std::string rekeyTok;
    struct Out { std::string r, j; };
    Out outcome(sim::FS fs0, sim::Blob const& committed, bool recoverFirst, std::vector<sim::Op>* reclog,
        std::string const& first = "")
    {
        ++evals;
        sim::W() = sim::World{};
        auto& w = sim::W();
        w.fs = fs0.clone();
        Out o;
        util::J j;
        j.open('{');
        nudb::error_code ec;
        if(recoverFirst)
        {
            if(reclog) w.record = true;
            nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, ec);
            w.record = false;
            if(reclog) *reclog = std::move(w.log);
            w.log.clear();
        }
        o.r = ename(ec);
        j.key("r").v(o.r);
        bool kf = w.fs.has(KP);
        j.key("kf").b(kf).key("lg").b(w.fs.has(LP));
        auto d = w.fs.get(DP);
        j.key("dsz").v(d ? dsize(d->size()) : -1);
        j.key("keep").b(d && d->prefix_equal(committed, committed.size()));
        j.key("dirty").b([&]{ for(auto& e : w.fs.files) if(e.second->dirty) return true; return false; }());
        if(! ec && kf && d)
        {
            putSnap(j);
            // again: nothing to do, nothing changes
            {
                auto before = w.fs.clone();
                nudb::error_code e2;
                nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, e2);
                bool same = ! e2 && before.files.size() == w.fs.files.size();
                if(same) for(auto& e : before.files) { auto b = w.fs.get(e.first); if(! b || *b != e.second->b) same = false; }
                j.key("idem").b(same);
            }
            // lookups through the real store
            ctx.reset(new nudb::context); st.reset(new Store(*ctx));
            nudb::error_code e3;
            st->open(DP, KP, LP, e3);
            j.key("open").v(ename(e3));
            j.key("f").open('[');
            bool use = false;
            if(! e3)
            {
                st->set_burst(std::size_t(1) << 50);
                for(auto k : allKeys) { auto g = get(k); if(g.first != "nf") j.open('[').v(keys.find(key(k))).v(g.first == "ok" ? g.second : -9).close(']'); }
                // and the store is usable
                std::uint64_t nk = 251;
                while(std::find(allKeys.begin(), allKeys.end(), nk) != allKeys.end()) --nk;
                auto kk = key(nk); auto v = gen::make_value(777, 33);
                nudb::error_code e4;
                st->insert(kk.data(), v.data(), v.size(), e4);
                if(! e4) st->close(e4);
                if(! e4) { st->open(DP, KP, LP, e4); }
                if(! e4)
                {
                    nudb::error_code e5; bool eq = false;
                    st->fetch(kk.data(), [&](void const* p, std::size_t z){ eq = z == v.size() && std::memcmp(p, v.data(), z) == 0; }, e5);
                    use = ! e5 && eq;
                    st->close(e5);
                }
            }
            j.close(']').key("use").b(use);
            st.reset(); ctx.reset();
        }
        else if(! rekeyTok.empty() && d)
        {
            // no key file: rekey can be run again
            if(kf) w.fs.files.erase(KP);
            nudb::error_code e6;
            auto a = util::split(rekeyTok, ':');
            auto r = call(a, e6);
            j.key("again").v(r);
            j.key("lg2").b(w.fs.has(LP));
            if(! e6) putSnap(j);
        }
        if(! w.anomaly.empty()) j.key("anomaly").v(w.anomaly);
        (void)first;
        j.close('}');
        o.j = j.s;
        return o;
    }

    // ---------------------------------------------------------------- crash images
    struct Pend { std::vector<sim::Op const*> ops; sim::Blob dur; sim::Blob cur; bool exists = false; };

    static void applyTo(sim::Blob& b, sim::Op const& o, std::size_t lim)
    {
        if(o.k == K::write) b.write(o.off, o.data.data(), std::min<std::size_t>(lim, o.data.size()));
        else if(o.k == K::trunc) b.trunc(o.off);
    }
    enum Way { none, all, prefix, subset };
    sim::Blob image(Pend const& p, Way way, char kind)
    {
        if(way == all || p.ops.empty()) return p.cur;
        sim::Blob b = p.dur;
        if(way == none) return b;
        if(way == prefix || kind == 'l')
        {
            auto n = rng.below(p.ops.size() + 1);
            for(std::size_t i = 0; i < n; ++i) applyTo(b, *p.ops[i], ~std::size_t(0));
            if(n < p.ops.size() && p.ops[n]->k == K::write)
            {
                auto len = p.ops[n]->data.size();
                // torn write
                std::size_t t = rng.chance(40) ? rng.below(len + 1) : rng.chance(50) ? (len > 0 ? len - 1 : 0) : std::min<std::size_t>(len, rng.below(40));
                applyTo(b, *p.ops[n], t);
            }
            return b;
        }
        for(auto o : p.ops)
        {
            auto x = rng.below(4);
            if(x < 2) applyTo(b, *o, ~std::size_t(0));
            else if(x == 2 && o->k == K::write && o->data.size() > 1)
            {
                // some part of it
                auto s = rng.below(o->data.size());
                auto n = 1 + rng.below(o->data.size() - s);
                b.write(o->off + s, o->data.data() + s, n);
            }
        }
        return b;
    }

    struct Cut { std::map<std::string, Pend> f; };

    static void advance(Cut& c, sim::Op const& o)
    {
        switch(o.k)
        {
        case K::create: if(! o.fail) { c.f[o.path] = Pend{}; c.f[o.path].exists = true; } break;
        case K::erase: if(! o.fail) c.f.erase(o.path); break;
        case K::write: case K::trunc:
            if(! o.fail || o.k == K::write)
            {
                auto& p = c.f[o.path];
                p.ops.push_back(&o);
                applyTo(p.cur, o, ~std::size_t(0));
                break;
            }
        case K::sync:
            if(! o.fail) { auto& p = c.f[o.path]; p.ops.clear(); p.dur = p.cur; }
            break;
        default: break;
        }
    }
    static Cut startCut(sim::FS const& fs)
    {
        Cut c;
        for(auto& e : fs.files) { auto& p = c.f[e.first]; p.exists = true; p.cur = e.second->b; p.dur = e.second->dur; }
        return c;
    }
    sim::FS build(Cut const& c, int v)
    {
        sim::FS fs;
        int idx = 0;
        for(auto& e : c.f)
        {
            Way w;
            char kind = sim::fkind(e.first);
            // systematic choices first, then random ones
            if(v == 0) w = all;
            else if(v == 1) w = none;
            else if(v >= 2 && v <= 4) w = idx == v - 2 ? none : all;
            else if(v >= 5 && v <= 7) w = idx == v - 5 ? all : none;
            else { static Way const t[] = {none, all, prefix, prefix, subset, subset}; w = t[rng.below(6)]; }
            auto n = std::make_shared<sim::Inode>();
            n->b = image(e.second, w, kind);
            n->dur = n->b;
            fs.files[e.first] = n;
            ++idx;
        }
        return fs;
    }
    static std::uint64_t digest(sim::FS const& fs)
    {
        std::uint64_t h = 7;
        for(auto& e : fs.files) h = gen::mix(h ^ e.second->b.digest() ^ (std::uint64_t)(unsigned char)sim::fkind(e.first) << 56);
        return h;
    }

    // all distinct outcomes of interrupting the recovery of fs at every point
    void nested(sim::FS const& fs, std::vector<sim::Op> const& rl, sim::Blob const& committed, int level,
        std::map<std::string, std::uint64_t>& res, std::set<std::uint64_t>& seen)
    {
        auto c = startCut(fs);
        for(std::size_t q = 0; q <= rl.size(); ++q)
        {
            if(q > 0) advance(c, rl[q - 1]);
            bool pend = false;
            for(auto& e : c.f) if(! e.second.ops.empty()) pend = true;
            int nv = pend ? nnest : 1;
            for(int v = 0; v < nv; ++v)
            {
                auto f2 = build(c, v < 2 ? v : 8 + v);
                if(! seen.insert(digest(f2)).second) continue;
                ++nests;
                std::vector<sim::Op> rl2;
                auto o = outcome(f2, committed, true, &rl2);
                ++res[o.j];
                if(level + 1 < depth && rng.chance(25)) nested(f2, rl2, committed, level + 1, res, seen);
            }
        }
    }
    // The process dies, the files keep what was written but not what is durable: recover, and let the power
    // fail at every point of it (or let it be killed too, and so on).
    void killed(Cut const& c0, sim::Blob const& committed, int level, int fault,
        std::set<std::uint64_t>& seen, std::map<std::string, std::string>& res, std::string const& where)
    {
        auto fs = build(c0, 0);
        sim::W() = sim::World{};
        auto& w = sim::W();
        w.fs = fs.clone();
        w.record = true;
        if(fault >= 0) { w.armed = true; w.fail_at = fault; w.partial = (int)rng.below(3); w.code = sim::code_of(fault); }
        nudb::error_code ec;
        nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, ec);
        w.record = false; w.armed = false;
        auto const hit = w.hit;
        auto const rl = std::move(w.log);
        w.log.clear();
        if(fault >= 0 && ! hit) return;
        auto c = c0;
        for(std::size_t q = 0; q <= rl.size(); ++q)
        {
            if(q > 0) advance(c, rl[q - 1]);
            // a failing recover has ended where it failed
            if(fault >= 0 && q < rl.size()) continue;
            bool pend = false;
            for(auto& e : c.f) if(! e.second.ops.empty()) pend = true;
            int nv = pend ? nnest + 3 : 1;
            if(level > 0 || fault >= 0) nv = std::min(nv, 5);
            for(int v = 0; v < nv; ++v)
            {
                auto f2 = build(c, v < 5 ? v : 8 + v);
                if(! seen.insert(digest(f2)).second) continue;
                ++kills;
                auto o = outcome(f2, committed, true, nullptr);
                auto oj = "{\"o\":\"img\"," + o.j.substr(1, o.j.size() - 2) + ",\"nest\":[],\"bad\":[],\"kl\":true}";
                if(! res.count(oj)) res[oj] = where + ", killed, recover " + (fault >= 0 ? "failing at " + std::to_string(fault) + " of it" : std::to_string(q) + "/" + std::to_string(rl.size())) + " variant " + std::to_string(v);
            }
            if(! pend || level >= killMax || (level > 0 && q == 0)) continue;
            auto at = where + ", killed, recover " + std::to_string(q) + "/" + std::to_string(rl.size());
            if(q > 0 && (level == 0 || rng.chance(50))) killed(c, committed, level + 1, -1, seen, res, at);
            if(level == 0 && q == 0)
                for(int i = 0; i < 60; ++i) if(rng.chance(30)) killed(c, committed, level + 1, i, seen, res, at);
        }
    }

    // recovery with every single file operation failing, then recovery without faults
    void recFaults(sim::FS const& fs, sim::Blob const& committed, std::map<std::string, std::uint64_t>& res,
        std::set<std::string>& bad)
    {
        for(int partial = 0; partial < 3; ++partial)
        for(int i = 0;; ++i)
        {
            sim::W() = sim::World{};
            auto& w = sim::W();
            w.fs = fs.clone();
            w.armed = true; w.fail_at = i; w.partial = partial; w.code = sim::code_of(i + 5 * partial + fs.get(DP)->size());
            nudb::error_code ec;
            nudb::recover<gen::Hasher, sim::File>(DP, KP, LP, ec);
            w.armed = false;
            if(! w.hit) break;
            ++faults;
            if(! ec) bad.insert("fault at file operation " + std::to_string(i) + " of recover reported as success");
            auto f2 = w.fs.clone();
            auto o = outcome(f2, committed, true, nullptr);
            ++res[o.j];
        }
    }

    void crashRun(std::string const& base, std::string const& rec, util::J& j)
    {
        for(auto& t : util::split(base)) { nudb::error_code ec; auto a = util::split(t, ':'); learn(a); call(a, ec); }
        st.reset(); ctx.reset();
        auto& w = sim::W();
        w.fs.power_loss();
        sim::FS f0 = w.fs.clone();
        w.record = true; w.log.clear();
        struct Mk { std::string ev; bool commit; };
        std::vector<Mk> marks;
        auto mark = [&](std::string s, bool commit = false)
        {
            sim::Op o; o.k = K::mark; o.mark = (std::int64_t)marks.size();
            marks.push_back(Mk{s, commit});
            w.log.push_back(o);
        };
        // initial contents
        { util::J e; e.open('{').key("o").v("init").key("kf").b(w.fs.has(KP)).key("dsz").v(dsize(w.fs.get(DP) ? w.fs.get(DP)->size() : 0));
          util::J q; q.open('{'); if(w.fs.has(DP)) putSnap(q); q.close('}'); e.s += ',' + q.s.substr(1); marks.push_back(Mk{e.s, true});
          sim::Op o; o.k = K::mark; o.mark = 0; w.log.push_back(o); }
        std::vector<sim::Blob> commitBlobs;
        commitBlobs.push_back(w.fs.get(DP) ? *w.fs.get(DP) : sim::Blob{});
        for(auto& t : util::split(rec))
        {
            auto a = util::split(t, ':');
            learn(a);
            if((a[0] == "i" || a[0] == "f" || a[0] == "c") && ! opened()) continue;
            if(a[0] == "R") rekeyTok = t;
            util::J b; b.open('{').key("o").v("begin").key("op").v(a[0]);
            if(a[0] == "i") b.key("k").v(keys.find(key(std::stoull(a[1])))).key("v").v(vals.find(gen::make_value(std::stoull(a[2]), std::stoull(a[3]))));
            b.close('}');
            mark(b.s);
            nudb::error_code ec;
            auto r = call(a, ec);
            util::J e; e.open('{').key("o").v("end").key("op").v(a[0]).key("r").v(r);
            auto d = w.fs.get(DP);
            e.key("dsz").v(d ? dsize(d->size()) : -1);
            e.close('}');
            bool commit = a[0] == "f" || a[0] == "c" || a[0] == "D" || (a[0] == "R" && ! ec) || a[0] == "C";
            mark(e.s, commit);
            if(commit) commitBlobs.push_back(d ? *d : sim::Blob{});
        }
        w.record = false;
        auto log = std::move(w.log);
        w.log.clear();
        if(opened()) { nudb::error_code e; st->close(e); }
        st.reset(); ctx.reset();

        auto c = startCut(f0);
        std::size_t ncommit = 0;
        std::map<std::string, std::uint64_t> seg;   // outcomes between two marks
        std::map<std::string, std::string> wit;
        std::map<std::uint64_t, std::string> cache;
        std::set<std::uint64_t> nestSeen;
        j.key("ev").open('[');
        std::map<std::string, std::string> kres;    // the same, killed processes
        std::set<std::uint64_t> kseen;
        auto flushSeg = [&]
        {
            for(auto& e : kres) { ++seg[e.first]; wit.insert(e); }
            kres.clear(); kseen.clear();
            for(auto& e : seg)
            {
                j.sep(); j.s += e.first.substr(0, e.first.size() - 1);
                j.first = false; j.s += ",\"n\":" + std::to_string(e.second) + ",\"at\":\"" + wit[e.first] + "\"}";
            }
            seg.clear();
        };
        for(std::size_t p = 0; p <= log.size(); ++p)
        {
            if(p > 0)
            {
                auto& o = log[p - 1];
                if(o.k == K::mark)
                {
                    flushSeg();
                    j.sep(); j.s += marks[o.mark].ev; j.first = false;
                    if(marks[o.mark].commit) ++ncommit;
                    if(o.mark + 1 < (std::int64_t)marks.size() && p < log.size() && log[p].k == K::mark) continue;
                }
                else advance(c, o);
            }
            else continue;
            bool pend = false;
            for(auto& e : c.f) if(! e.second.ops.empty()) pend = true;
            int nv = pend ? nvar : 1;
            for(int v = 0; v < nv; ++v)
            {
                auto fs = build(c, v);
                auto dg = digest(fs) * 31 + ncommit;
                auto it = cache.find(dg);
                std::string oj;
                if(it != cache.end()) oj = it->second;
                else
                {
                    ++images;
                    std::vector<sim::Op> rl;
                    auto const& cb = commitBlobs[ncommit ? ncommit - 1 : 0];
                    auto o = outcome(fs, cb, true, &rl);
                    std::map<std::string, std::uint64_t> nr;
                    std::set<std::string> bad;
                    if(depth > 0) { std::set<std::uint64_t> seen; nested(fs, rl, cb, 0, nr, seen); }
                    if(faultRec && rng.chance(30)) recFaults(fs, cb, nr, bad);
                    oj = "{\"o\":\"img\"," + o.j.substr(1, o.j.size() - 2) + ",\"nest\":[";
                    bool f = true;
                    for(auto& e : nr) if(e.first != o.j) { oj += (f ? "" : ",") + e.first; f = false; }
                    oj += "],\"bad\":[";
                    f = true;
                    for(auto& e : bad) { oj += (f ? "\"" : ",\"") + e + "\""; f = false; }
                    oj += "]}";
                    cache[dg] = oj;
                }
                ++seg[oj];
                if(wit.find(oj) == wit.end())
                    wit[oj] = "op " + std::to_string(p) + "/" + std::to_string(log.size()) + " variant " + std::to_string(v);
            }
            if(pend && kills < killCap && rng.chance(killPct))
                killed(c, commitBlobs[ncommit ? ncommit - 1 : 0], 0, -1, kseen, kres, "op " + std::to_string(p) + "/" + std::to_string(log.size()));
        }
        flushSeg();
        j.close(']');
        j.key("images").v(images).key("nests").v(nests).key("kills").v(kills).key("faults").v(faults).key("evals").v(evals).key("ops").v(log.size());
    }

    void learn(std::vector<std::string> const& a)
    {
        if(a[0] == "i")
        {
            auto k = std::stoull(a[1]);
            keys.add(key(k)); vals.add(gen::make_value(std::stoull(a[2]), std::stoull(a[3])));
            if(std::find(allKeys.begin(), allKeys.end(), k) == allKeys.end()) allKeys.push_back(k);
        }
        else if(a[0] == "g") keys.add(key(std::stoull(a[1])));
    }

    // ---------------------------------------------------------------- faults
    // one execution; returns the events, sets hit
    std::string faultOnce(sim::FS const& f0, sim::Blob const& committed0, std::vector<std::string> const& toks, std::int64_t at, int partial, bool stuck, int code, bool& hit, std::int64_t& total)
    {
        sim::W() = sim::World{};
        auto& w = sim::W();
        w.fs = f0.clone();
        w.armed = true; w.fail_at = at; w.partial = partial; w.fail_on = stuck; w.code = code;
        w.record = killPct > 0;
        util::J j;
        j.open('[');
        sim::Blob committed = committed0;
        auto one = [&](std::string const& t)
        {
            auto a = util::split(t, ':');
            bool needs = a[0] == "i" || a[0] == "f" || a[0] == "c" || a[0] == "D" || a[0] == "g";
            if(needs && ! opened()) return;
            if((a[0] == "o" || a[0] == "R" || a[0] == "C" || a[0] == "Q") && opened()) return;
            auto const n0 = w.nfail;
            nudb::error_code ec;
            j.open('{').key("o").v("call").key("op").v(a[0]);
            auto d0 = w.fs.get(DP) ? *w.fs.get(DP) : sim::Blob{};
            if(a[0] == "g")
            {
                auto g = get(std::stoull(a[1]));
                j.key("k").v(keys.find(key(std::stoull(a[1])))).key("v").v(g.second).key("r").v(g.first);
            }
            else
            {
                if(a[0] == "i") j.key("k").v(keys.find(key(std::stoull(a[1])))).key("v").v(vals.find(gen::make_value(std::stoull(a[2]), std::stoull(a[3]))));
                auto r = call(a, ec);
                j.key("r").v(r);
            }
            j.key("fl").b(w.nfail > n0);
            if(a[0] == "C")
                j.key("files").v((w.fs.has(DP) ? "d" : "") + std::string(w.fs.has(KP) ? "k" : "") + (w.fs.has(LP) ? "l" : ""));
            if(! w.anomaly.empty()) { j.key("anomaly").v(w.anomaly); w.anomaly.clear(); }
            j.close('}');
        };
        for(auto& t : toks) one(t);
        if(opened()) one("c");
        w.armed = false;
        total = w.count;
        hit = w.hit;
        // reopening the same object after an error, or a new one
        bool reuse = st && (at % 2 == 0) && ! stuck;
        if(reuse && w.fs.has(KP))
        {
            nudb::error_code ec;
            j.open('{').key("o").v("call").key("op").v("o").key("again").b(true);
            st->open(DP, KP, LP, ec);
            j.key("r").v(ename(ec)).key("fl").b(false).close('}');
            if(! ec)
            {
                // every key, through the reused object
                for(auto k : allKeys) { auto g = get(k); j.open('{').key("o").v("call").key("op").v("g").key("k").v(keys.find(key(k))).key("v").v(g.second).key("r").v(g.first).key("fl").b(false).key("post").b(true).close('}'); }
                nudb::error_code e2;
                st->close(e2);
                j.open('{').key("o").v("call").key("op").v("c").key("r").v(ename(e2)).key("fl").b(false).key("post").b(true).close('}');
            }
        }
        st.reset(); ctx.reset();
        if(! w.anomaly.empty()) { j.open('{').key("o").v("anomaly").key("what").v(w.anomaly).close('}'); }
        w.record = false;
        auto const log = std::move(w.log);
        w.log.clear();
        auto fs = w.fs.clone();
        if(fs.has(DP))
        {
            std::set<std::string> imgs;
            auto add = [&](std::string const& s)
            {
                if(! imgs.insert(s).second) return;
                j.sep(); j.s += s; j.first = false;
            };
            auto o = outcome(fs, committed, true, nullptr);
            add("{\"o\":\"img\"," + o.j.substr(1, o.j.size() - 2) + ",\"nest\":[],\"bad\":[]}");
            if(killPct > 0)
            {
                // and the power fails afterwards, at once or during the recovery
                auto c = startCut(f0);
                for(auto& o : log) advance(c, o);
                bool pend = false;
                for(auto& e : c.f) if(! e.second.ops.empty()) pend = true;
                std::map<std::string, std::string> kres;
                std::set<std::uint64_t> kseen;
                for(int v = 1; pend && v < 4 + nnest; ++v)
                {
                    auto f2 = build(c, v < 5 ? v : 8 + v);
                    if(! kseen.insert(digest(f2)).second) continue;
                    ++kills;
                    auto o = outcome(f2, committed, true, nullptr);
                    add("{\"o\":\"img\"," + o.j.substr(1, o.j.size() - 2) + ",\"nest\":[],\"bad\":[],\"pl\":true}");
                }
                if(pend && kills < killCap && rng.chance(killPct)) killed(c, committed, 0, -1, kseen, kres, "");
                for(auto& e : kres) add(e.first.substr(0, e.first.size() - 1) + ",\"pl\":true}");
            }
        }
        j.close(']');
        return j.s;
    }
    void faultRun(std::string const& base, std::string const& rec, std::ostream& os)
    {
        for(auto& t : util::split(base)) { nudb::error_code ec; auto a = util::split(t, ':'); learn(a); call(a, ec); }
        st.reset(); ctx.reset();
        auto& w = sim::W();
        w.fs.power_loss();
        w.dlo = -1;
        sim::FS f0 = w.fs.clone();
        sim::Blob c0 = f0.get(DP) ? *f0.get(DP) : sim::Blob{};
        auto toks = util::split(rec);
        for(auto& t : toks) { learn(util::split(t, ':')); if(t[0] == 'R') rekeyTok = t; }
        util::J ini;
        ini.open('{').key("o").v("init").key("kf").b(f0.has(KP)).key("dsz").v(dsize(c0.size()));
        { util::J q; q.open('{'); if(f0.has(DP)) putSnap(q); q.close('}'); if(q.s.size() > 2) ini.s += ',' + q.s.substr(1); else ini.s += '}'; }
        bool hit; std::int64_t total = 0;
        std::set<std::string> seen;
        auto const emit = [&](std::string const& ev, std::int64_t at, int partial, bool stuck)
        {
            if(! seen.insert(ev).second) return;
            util::J j;
            j.open('{').key("id").v(cfg["id"] + "@" + std::to_string(at) + "." + std::to_string(partial) + (stuck ? "s" : ""))
                .key("pid").v(cfg["id"]).key("prog").v(line).key("at").v(at).key("partial").v(partial).key("stuck").b(stuck)
                .key("bs").v(bs0).key("cap").v((bs0 - 8) / 18).key("ks").v(ks).key("lf").v((long long)(lf * 1e6 + .5));
            if(kills) j.key("kills").v(kills - kills0);
            kills0 = kills;
            std::string s = j.s + ",\"ev\":[" + ini.s + (ev.size() > 2 ? "," : "") + ev.substr(1) + "}";
            os << s << "\n";
        };
        std::int64_t n0 = 0;
        auto ev = faultOnce(f0, c0, toks, -1, 0, false, EIO, hit, n0);
        emit(ev, -1, 0, false);
        auto const step = std::max<std::uint64_t>(1, num("step", 1));
        for(std::int64_t at = (std::int64_t)(num("seed", 1) % step); at < n0; at += step)
            for(int m = 0; m < 4; ++m)
            {
                ev = faultOnce(f0, c0, toks, at, m % 3, m == 3, sim::code_of(at * 4 + m + num("seed", 1)), hit, total);
                ++faults;
                if(! hit) continue;
                emit(ev, at, m % 3, m == 3);
            }
    }

    void run(std::string const& ln, std::ostream& os)
    {
        line = ln;
        auto bar = line.find('|'), bar2 = line.find("||");
        for(auto& t : util::split(line.substr(0, bar)))
        { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 4); bs0 = num("bs", 256); kl = (int)num("kl", 0); hm = (int)num("hm", 0);
        lf = num("lf", 500000) / 1e6; salt0 = num("salt", 1); app = num("app", 7); uid = num("uid", 99);
        killPct = (int)num("kill", 0); killMax = (int)num("kdepth", 1); killCap = num("kcap", 2000);
        nvar = (int)num("var", 14); nnest = (int)num("nvar", 4); depth = (int)num("depth", 1); faultRec = num("rf", 0) != 0;
        rng.s = num("seed", 1);
        gen::hash_mode() = hm;
        sim::W() = sim::World{};
        std::string base = line.substr(bar + 1, bar2 - bar - 1), rec = line.substr(bar2 + 2);
        if(cfg["mode"] == "fault") { faultRun(base, rec, os); return; }
        util::J j;
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line).key("bs").v(bs0).key("cap").v((bs0 - 8) / 18).key("ks").v(ks).key("lf").v((long long)(lf * 1e6 + .5));
        crashRun(base, rec, j);
        j.close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            auto id = prog[i].substr(3, prog[i].find(' ') - 3);
            j.open('{').key("id").v(id).key("pid").v(id).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        });
    return 0;
}
