// Concurrent programs on stores and a context, under the deterministic scheduler.
// usage: conc PROGRAMS OUT WORKERS SCRATCH
// program: id= ks= bs= lf= hm= stores= pre= strat= seed= n= sw= depth= len= eager= spur= dfs= ch=<hex> hold=<w|k>:<n> fault=<range>|<n>:<partial>:<stuck> T=ops;ops;...
//   ops: i:s:k:v:size f:s:k X w:ms o:s c:s S P R J q:s:ms D B:s:burst
#include "sched.hpp"
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include "decode.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <memory>
#include <set>
#include <thread>
#include <unordered_set>

using Store = nudb::basic_store<gen::Hasher, sim::File>;

struct Shared { std::uint32_t ndec, njson; sched::Decision dec[1 << 16]; char json[1 << 22]; };
static Shared* shm;

struct Run;
static Run* R_ = nullptr;

static std::atomic<int>* hangs;     // runs that did not end, of all workers
struct Run
{
    std::map<std::string, std::string> cfg;
    std::uint64_t num(char const* k, std::uint64_t d) const
    { auto it = cfg.find(k); return it == cfg.end() || it->second.empty() ? d : std::stoull(it->second); }
    std::string str(char const* k, char const* d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }

    std::size_t ks, bs; double lf; int hm, nst, pre;
    std::string ev;
    bool firstev = true;
    std::string last;
    std::vector<std::vector<std::string>> prog;
    std::unique_ptr<nudb::context> ctx;
    std::vector<std::unique_ptr<Store>> st;
    std::vector<int> open;            // as the clients see it
    std::map<int, std::thread> running;
    std::vector<std::thread> runners;
    std::set<int> pending;            // client threads in an operation
    std::map<int, std::string> doing; // the operation of a client
    std::set<int> keys;               // used keys
    std::map<int, int> logical;       // scheduler thread -> thread of the program (others: negative)
    gen::Intern vals;                 // identity of value bytes
    std::map<int, int> vid;           // value id -> interned
    char holdk = 0; std::int64_t holdn = -1; std::int64_t ios = 0; bool didhold = false; int heldt = -99;
    std::set<int> failed;             // stores that could not be opened
    std::map<int, std::pair<int, std::string>> pendcom;   // commits about to be complete
    long dw = 0, lw = 0, kw = 0;
    bool fin = false;

    void emit(std::string const& s)
    {
        if(s == last) return;
        last = s;
        if(! firstev) ev += ',';
        firstev = false;
        ev += s;
    }
    int lt()
    {
        auto t = sched::tid();
        auto it = logical.find(t);
        return it == logical.end() ? -t : it->second;
    }
    std::string dp(int s) { return "/sim/" + std::to_string(s) + ".dat"; }
    std::string kp(int s) { return "/sim/" + std::to_string(s) + ".key"; }
    std::string lp(int s) { return "/sim/" + std::to_string(s) + ".log"; }
    static std::string q(char const* k, std::string const& v) { return std::string("\"") + k + "\":\"" + v + "\""; }
    static std::string q(char const* k, long v) { return std::string("\"") + k + "\":" + std::to_string(v); }

    void finish_json()
    {
        std::string rs;
        for(auto& r : sched::races()) rs += (rs.empty() ? "\"" : ",\"") + r + "\"";
        if(! rs.empty()) { last.clear(); emit("{" + q("o", "race") + ",\"at\":[" + rs + "]}"); }
        if(! sim::W().anomaly.empty()) { last.clear(); emit("{" + q("o", "anomaly") + "," + q("what", sim::W().anomaly) + "}"); }
        auto& d = sched::decisions();
        shm->ndec = std::min<std::size_t>(d.size(), 1 << 16);
        for(std::size_t i = 0; i < shm->ndec; ++i) shm->dec[i] = d[i];
        shm->njson = std::min<std::size_t>(ev.size(), sizeof(shm->json) - 1);
        if(ev.size() >= sizeof(shm->json)) { std::string x = "{\"o\":\"dead\",\"why\":\"too long\"}"; std::memcpy(shm->json, x.data(), x.size()); shm->njson = x.size(); }
        else std::memcpy(shm->json, ev.data(), ev.size());
    }
    static void dead(char const* why)
    {
        R_->last.clear();
        std::string w;
        for(auto t : R_->pending) w += (w.empty() ? "" : ",") + std::string("\"") + std::to_string(t) + " " + R_->doing[t] + "\"";
        R_->emit("{" + q("o", "dead") + "," + q("why", why) + ",\"in\":[" + w + "]}");
        R_->finish_json();
        _exit(0);
    }
    static void stuck()
    {
        auto& r = *R_;
        std::string w; bool x = false;
        for(auto t : r.pending)
        {
            auto c = r.doing[t][0];
            if(c == 'X' || t == r.heldt) { if(c == 'X') x = true; continue; }
            if(c != 'i' && c != 'f') continue;
            w += (w.empty() ? "" : ",") + std::to_string(t);
        }
        r.last.clear();
        r.emit("{" + q("o", "stuck") + "," + q("h", std::string(1, r.holdk)) + ",\"in\":[" + w + "],\"x\":" + (x ? "true" : "false")
            + "," + q("dw", r.dw) + "," + q("lw", r.lw) + "," + q("kw", r.kw) + "}");
    }
    static void hook(char k, std::string const& path)
    {
        if(! sched::active()) return;
        auto& r = *R_;
        auto const s = path[5] - '0';
        auto const f = sim::fkind(path);
        auto const t = r.lt();
        if(! r.pendcom.empty())
            for(auto it = r.pendcom.begin(); it != r.pendcom.end();)
                if(it->second.first == t) { r.emit(it->second.second); it = r.pendcom.erase(it); } else ++it;
        bool const mod = k == 'W' || k == 'T' || k == 'S';
        if(k == 'W') { if(f == 'd') ++r.dw; else if(f == 'k') ++r.kw; else ++r.lw; }
        if((k == 'W' || k == 'T') && s >= 0 && s < r.nst)
        {
            if(k == 'T' && f == 'l' && sim::W().armed)
            {
                sched::Quiet qt;
                r.pendcom[s] = {t, "{" + q("o", "com") + "," + q("s", s) + ",\"keys\":[" + r.indexed(s) + "]}"};
            }
            if(k == 'T' && f == 'l') r.emit("{" + q("o", "io") + "," + q("t", t) + "," + q("s", s) + "," + q("k", "end") + "}");
            else r.emit("{" + q("o", "io") + "," + q("t", t) + "," + q("s", s) + "," + q("k", "mod") + "}");
        }
        else if(s >= 0 && s < r.nst && ! r.open[s])
            r.emit("{" + q("o", "io") + "," + q("t", t) + "," + q("s", s) + "," + q("k", "late") + "}");
        if(! r.didhold && r.holdk)
        {
            auto it = r.doing.find(t);
            bool const client = t > 0 && it != r.doing.end() && it->second[0] != 'X';
            bool match = r.holdk == 'w' ? (! client && t != 0 && (mod || k == 'R')) : (client && it->second[0] == 'f' && k == 'R' && f == 'k');
            if(match && r.ios++ == r.holdn)
            {
                r.didhold = true;
                r.heldt = t;
                r.emit("{" + q("o", "hold") + "," + q("t", t) + "," + q("h", std::string(1, r.holdk)) + "}");
                sched::hold();
                return;
            }
        }
        sched::point();
    }

    static void onfail(char k, std::string const& path)
    {
        if(! sched::active()) return;
        auto& r = *R_;
        r.last.clear();
        if(k == 'T' && sim::fkind(path) == 'l') r.pendcom.erase(path[5] - '0');
        r.emit("{" + q("o", "fault") + "," + q("t", r.lt()) + "," + q("s", path[5] - '0') + "," + q("k", std::string(1, k)) + "," + q("f", std::string(1, sim::fkind(path))) + "}");
    }
    // the keys the index of a store finds
    std::string indexed(int s)
    {
        std::string ksj;
        auto d = sim::W().fs.get(dp(s)); auto kf = sim::W().fs.get(kp(s));
        auto img = dec::decode(*d, kf, hm);
        std::map<std::uint64_t, int> at;
        for(auto& r : img.recs) for(auto k : keys) if(r.key == key(k)) at[r.off] = k;
        std::set<int> found;
        for(auto& b : img.bk) for(auto& e : b.e) if(at.count(e.off)) found.insert(at[e.off]);
        for(auto& sp : img.spl) for(auto& e : sp.b.e) if(at.count(e.off)) found.insert(at[e.off]);
        for(auto k : found) ksj += (ksj.empty() ? "" : ",") + std::to_string(k);
        return ksj;
    }

    void inv(int t, std::string const& c, int s, int k, int v)
    {
        last.clear();
        pending.insert(t);
        emit("{" + q("o", "inv") + "," + q("t", t) + "," + q("c", c) + "," + q("s", s) + "," + q("k", k) + "," + q("v", v) + "}");
    }
    void ret(int t, int r)
    {
        last.clear();
        pending.erase(t);
        emit("{" + q("o", "ret") + "," + q("t", t) + "," + q("r", r) + "}");
    }
    std::string key(int k) { return gen::make_key(k, ks, 0); }

    void exec(int t, std::string const& op)
    {
        auto a = util::split(op, ':');
        auto arg = [&](std::size_t i) { return i < a.size() ? std::stoll(a[i]) : 0ll; };
        doing[t] = op;
        nudb::error_code ec;
        // a store that could not be opened
        if(std::string("ifBcq").find(a[0][0]) != std::string::npos && failed.count((int)arg(1))) { doing.erase(t); return; }
        switch(a[0][0])
        {
        case 'i':
        {
            int s = arg(1), k = arg(2), v = arg(3);
            auto kb = key(k); auto vb = gen::make_value(v, arg(4));
            inv(t, "ins", s, k, v);
            { sched::Loud l; st[s]->insert(kb.data(), vb.data(), vb.size(), ec); }
            ret(t, ! ec ? 1 : ec == nudb::error::key_exists ? 2 : -1);
            break;
        }
        case 'f':
        {
            int s = arg(1), k = arg(2);
            auto kb = key(k);
            std::string got; int n = 0;
            inv(t, "get", s, k, 0);
            {
                sched::Loud l;
                st[s]->fetch(kb.data(), [&](void const* p, std::size_t z)
                {
                    ++n;
                    // the bytes have to stay as they are during the callback
                    std::string x((char const*)p, z);
                    sched::point();
                    { sched::Quiet q; got.assign((char const*)p, z); }
                    if(got != x) n = 9;
                }, ec);
            }
            int r = -1;
            if(! ec && n == 1) r = vmap.count(got) ? vmap[got] : -1;
            else if(ec == nudb::error::key_not_found && n == 0) r = 0;
            ret(t, r);
            break;
        }
        case 'X':
            dw = lw = kw = 0;
            inv(t, "flush", 0, 0, 0);
            { sched::Loud l; ctx->flush(); }
            ret(t, 0);
            break;
        case 'w':
            { std::this_thread::sleep_for(std::chrono::milliseconds(arg(1))); }
            break;
        case 'o':
        {
            int s = arg(1);
            inv(t, "open", s, 0, 0);
            open[s] = 1;
            { sched::Loud l; st[s]->open(dp(s), kp(s), lp(s), ec); }
            if(ec) { open[s] = 0; failed.insert(s); } else failed.erase(s);
            { sched::Loud l; if(! ec) st[s]->set_burst(std::size_t(1) << 50); }
            ret(t, ec ? -1 : 0);
            break;
        }
        case 'B':
            { sched::Loud l; st[arg(1)]->set_burst(arg(2)); }
            break;
        case 'c':
        {
            int s = arg(1);
            inv(t, "close", s, 0, 0);
            { sched::Loud l; st[s]->close(ec); }
            open[s] = 0;
            ret(t, ec ? -1 : 0);
            break;
        }
        case 'D':      // destroys the closed store and makes a new one
        {
            int s = arg(1);
            { sched::Loud l; st[s].reset(); }
            st[s] = std::make_unique<Store>(*ctx);
            break;
        }
        case 'E':
            sched::eager(arg(1) != 0);
            break;
        case 'S':
            inv(t, "start", 0, 0, 0);
            { sched::Loud l; ctx->start(); }
            ret(t, 0);
            break;
        case 'P':
            inv(t, "stop", 0, 0, 0);
            { sched::Loud l; ctx->stop_all(); }
            ret(t, 0);
            break;
        case 'R':
        {
            inv(t, "run", 0, 0, 0);
            runners.emplace_back([this]{ ctx->run(); });
            ret(t, 0);
            break;
        }
        case 'J':
            inv(t, "join", 0, 0, 0);
            for(auto& x : runners) x.join();
            runners.clear();
            ret(t, 0);
            break;
        case 'q':      // after some time everything inserted is durable
        {
            int s = arg(1);
            inv(t, "idle", s, 0, arg(2));
            std::this_thread::sleep_for(std::chrono::milliseconds(arg(2)));
            last.clear();
            pending.erase(t);
            std::string ksj;
            auto d = sim::W().fs.get(dp(s)); auto kf = sim::W().fs.get(kp(s));
            auto l = sim::W().fs.get(lp(s));
            if(d && kf && (! l || l->size() == 0)) ksj = indexed(s);
            emit("{" + q("o", "ret") + "," + q("t", t) + "," + q("r", 0) + ",\"keys\":[" + ksj + "]}");
            break;
        }
        }
        doing.erase(t);
    }
    void thread(int t)
    {
        sched::Quiet q;
        logical[sched::tid()] = t;
        for(auto& op : prog[t]) exec(t, op);
    }

    void child()
    {
        R_ = this;
        gen::hash_mode() = hm;
        sim::W() = sim::World{};
        auto& w = sim::W();
        nudb::error_code ec;
        // make the stores
        for(int s = 0; s < nst; ++s)
        {
            nudb::create<gen::Hasher, sim::File>(dp(s), kp(s), lp(s), 1, 5 + s, 7, ks, bs, (float)lf, ec);
            if(pre)
            {
                nudb::context c; Store x(c);
                x.open(dp(s), kp(s), lp(s), ec);
                x.set_burst(std::size_t(1) << 50);
                for(int i = 0; i < pre; ++i)
                {
                    auto kb = key(100 + i); auto vb = gen::make_value(100 + i, 9);
                    x.insert(kb.data(), vb.data(), vb.size(), ec);
                    vals.add(vb);
                }
                x.close(ec);
            }
            else w.fs.files.erase(lp(s));
        }
        if(w.fs.has(lp(0))) for(int s = 0; s < nst; ++s) w.fs.files.erase(lp(s));
        // identities of the values: 100+i for the preloaded
        vals.clear();
        std::map<int, std::string> byid;
        for(int i = 0; i < pre; ++i) byid[100 + i] = gen::make_value(100 + i, 9);
        for(auto& th : prog) for(auto& op : th)
        {
            auto a = util::split(op, ':');
            if(a[0] == "i") { keys.insert(std::stoi(a[2])); byid[std::stoi(a[3])] = gen::make_value(std::stoi(a[3]), std::stoi(a[4])); }
            if(a[0] == "f") keys.insert(std::stoi(a[2]));
        }
        std::map<std::string, int> rid;
        for(auto& b : byid) rid[b.second] = b.first;
        struct V { std::map<std::string, int> m; } ;
        vmap = rid;
        if(! str("hold").empty()) { auto h = util::split(str("hold"), ':'); holdk = h[0][0]; holdn = std::stoll(h[1]); }
        open.assign(nst, 0);
        sched::Cfg c;
        c.strategy = (int)num("strat", 0); c.seed = num("seed", 1); c.switch_pm = (int)num("sw", 200); c.depth = (int)num("depth", 3);
        c.len = num("len", 400); c.eager_time = num("eager", 0); c.spurious_pm = (int)num("spur", 0);
        for(auto ch : str("ch")) c.choices.push_back((unsigned char)(ch - 'a'));
        sched::on_dead = &Run::dead; sched::on_stuck = &Run::stuck;
        w.hook = &Run::hook; w.guard = [](int d) { sched::quiet(d); };
        sched::begin(c);
        logical[0] = 0;
        ctx = std::make_unique<nudb::context>();
        for(int s = 0; s < nst; ++s) st.push_back(std::make_unique<Store>(*ctx));
        // thread 0 is the main thread; "|" in its program is where the others are started and "&" where they are joined
        for(auto& op : prog[0])
        {
            if(op == "|" && ! str("fault").empty())
            {
                auto f = util::split(str("fault"), ':');
                w.armed = true; w.count = 0; w.fail_at = std::stoll(f[0]); w.partial = f.size() > 1 ? std::stoi(f[1]) : 0; w.fail_on = f.size() > 2 && f[2] == "1";
                w.code = sim::code_of(std::stoull(f[0])); w.onfail = &Run::onfail;
                if(num("fw", 0)) w.only = "WTSZE";
            }
            if(op == "|") for(std::size_t t = 1; t < prog.size(); ++t) running[t] = std::thread([this, t]{ thread(int(t)); });
            else if(op == "&") { for(auto& x : running) x.second.join(); running.clear(); }
            else exec(0, op);
        }
        { sched::Loud l; st.clear(); ctx.reset(); }
        sched::end();
        w.hook = nullptr; w.guard = nullptr; w.onfail = nullptr; w.armed = false;
        last.clear();
        // what is there in the end
        for(int s = 0; s < nst; ++s)
        {
            nudb::context c2; Store x(c2);
            nudb::error_code e;
            x.open(dp(s), kp(s), lp(s), e);
            if(e) { emit("{" + q("o", "dead") + "," + q("why", "cannot be opened again: " + ename(e)) + ",\"in\":[]}"); continue; }
            std::map<std::string, int> count;
            auto img = dec::decode(*w.fs.get(dp(s)), w.fs.get(kp(s)), hm);
            for(auto& r : img.recs) ++count[r.key];
            auto ks_ = keys;
            for(int i = 0; i < pre; ++i) ks_.insert(100 + i);
            for(auto k : ks_)
            {
                std::string got; nudb::error_code e2; auto kb = key(k);
                x.fetch(kb.data(), [&](void const* p, std::size_t z){ got.assign((char const*)p, z); }, e2);
                int r = e2 == nudb::error::key_not_found ? 0 : e2 ? -1 : vmap.count(got) ? vmap[got] : -1;
                emit("{" + q("o", "fin") + "," + q("s", s) + "," + q("k", k) + "," + q("v", r) + "," + q("n", count[kb]) + "}");
            }
            x.close(e);
        }
        finish_json();
    }
    std::map<std::string, int> vmap;

    static std::string prefix(std::vector<unsigned char> const& c) { std::string s; for(auto x : c) s += char('a' + x); while(! s.empty() && s.back() == 'a') s.pop_back(); return s; }

    void run(std::string const& line, std::ostream& os)
    {
        for(auto& t : util::split(line)) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
        ks = num("ks", 4); bs = num("bs", 128); hm = (int)num("hm", 1); lf = std::strtod(str("lf", "0.5").c_str(), nullptr);
        nst = (int)num("stores", 1); pre = (int)num("pre", 0);
        for(auto& th : util::split(str("T"), ';')) prog.push_back(util::split(th, ','));
        std::uint64_t const n = num("n", 1);
        int const dfs = cfg.count("dfs") ? (int)num("dfs", 1) : -1;
        std::unordered_set<std::string> seen;
        struct Item { std::vector<unsigned char> c; };
        std::vector<Item> work; std::size_t wi = 0;
        if(dfs >= 0) work.push_back({});
        std::uint64_t rs = num("seed", 1) * 31 + 7;
        for(std::uint64_t j = 0; j < n; ++j)
        {
            if(j && (lasthang || *hangs >= 8)) break;        // the verdict is clear, more of them only take time
            std::string over;
            std::vector<unsigned char> ch;
            if(dfs >= 0)
            {
                if(wi >= work.size()) break;
                // breadth first, at random within a level
                ch = work[wi++].c;
                over = " strat=2 ch=" + prefix(ch);
            }
            else if(n > 1)
            {
                int strat = int(j % 2);
                static int const sws[] = {50, 150, 400, 800};
                over = " strat=" + std::to_string(strat) + " seed=" + std::to_string(num("seed", 1) * 100000 + j) + " sw=" + std::to_string(sws[(j / 2) % 4])
                    + " depth=" + std::to_string(1 + (j / 2) % 5) + " len=" + std::to_string(num("len", 100 + 150 * ((j / 2) % 8)));
            }
            if(! str("fault").empty() && str("fault").find(':') == std::string::npos)
            {
                auto x = gen::mix(num("seed", 1) * 1000003 + j);
                over += " fault=" + std::to_string(x % num("fault", 40)) + ":" + std::to_string(x / 1000 % 3) + ":" + std::to_string(x / 10000 % 3 == 0);
            }
            std::string l = line;
            auto drop = [&](std::string const& k) { auto p = l.find(" " + k + "="); if(p != l.npos) { auto e = l.find(' ', p + 1); l.erase(p, e == l.npos ? l.npos : e - p); } };
            if(! over.empty()) { drop("n"); drop("dfs"); for(auto& t : util::split(over)) drop(t.substr(0, t.find('='))); l += over; }
            shm->ndec = shm->njson = 0;
            auto p = fork();
            if(p == 0)
            {
                for(auto& t : util::split(over)) { auto e = t.find('='); cfg[t.substr(0, e)] = t.substr(e + 1); }
                alarm(12);
                child();
                _exit(0);
            }
            int stt = 0;
            while(waitpid(p, &stt, 0) < 0 && errno == EINTR) {}
            if(WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM) { ++*hangs; lasthang = true; }
            std::string json(shm->json, shm->njson);
            if(! WIFEXITED(stt) || WEXITSTATUS(stt) != 0)
            {
                json = "{\"o\":\"dead\",\"why\":\"" + std::string(WIFSIGNALED(stt) ? "signal " + std::to_string(WTERMSIG(stt)) : "exit " + std::to_string(WEXITSTATUS(stt))) + "\",\"in\":[]}";
            }
            if(dfs >= 0 && shm->ndec)
            {
                std::vector<unsigned char> full;
                int pre_ = 0;
                std::size_t const from = ch.size();
                for(std::size_t i = 0; i < shm->ndec && i < 4000; ++i)
                {
                    auto d = shm->dec[i];
                    if(i >= from && pre_ + (d.cont ? 1 : 0) <= dfs && work.size() < 400000)
                        for(int a = 0; a < d.n; ++a)
                            if(a != d.chosen) { auto c2 = full; c2.push_back((unsigned char)a); work.push_back({c2}); }
                    if(d.cont && d.chosen) ++pre_;
                    full.push_back(d.chosen);
                }
                if(work.size() - wi > 1 && n < work.size())
                {   // more than the budget allows: any of them
                    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
                    std::swap(work[wi], work[wi + (rs >> 33) % (work.size() - wi)]);
                }
            }
            if(! seen.insert(json).second) { ++dup; continue; }
            util::J head;
            head.open('{').key("id").v(n > 1 ? cfg["id"] + "." + std::to_string(j) : cfg["id"]).key("prog").v(l).key("nst").v(nst).key("pre").v(pre);
            os << head.s << ",\"ev\":[" << json << "]}\n";
        }
        total += n;
    }
    std::uint64_t dup = 0, total = 0;
    bool lasthang = false;
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    hangs = static_cast<std::atomic<int>*>(mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os)
        {
            if(! shm) shm = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
            auto r = std::make_unique<Run>(); r->run(prog[i], os);
        },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        }, 600);
    return 0;
}
