// JSON writing, job running
#pragma once
#include <boost/assert.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace util {

struct J
{
    std::string s;
    bool first = true;
    void sep() { if(! first) s += ','; first = false; }
    J& open(char c) { sep(); s += c; first = true; return *this; }
    J& close(char c) { s += c; first = false; return *this; }
    J& key(char const* k) { sep(); s += '"'; s += k; s += "\":"; first = true; return *this; }
    J& v(long long n) { sep(); s += std::to_string(n); return *this; }
    J& v(std::string const& t) { sep(); s += '"'; for(char c : t) { if(c=='"'||c=='\\') s+='\\'; if((unsigned char)c<32) c=' '; s += c; } s += '"'; return *this; }
    J& v(char const* t) { return v(std::string(t)); }
    J& b(bool x) { sep(); s += x ? "true" : "false"; return *this; }
};

inline long long clamp31(unsigned long long x) { return x > 2147483647ull ? 2147483647ll : (long long)x; }

inline std::vector<std::string> split(std::string const& s, char d = ' ')
{
    std::vector<std::string> r; std::string t; std::istringstream is(s);
    while(std::getline(is, t, d)) if(! t.empty()) r.push_back(t);
    return r;
}

// Runs n jobs in forked workers. A job that kills its worker yields on_crash(i, what).
inline void run_jobs(std::size_t n, int workers, std::string const& outbase,
    std::function<void(std::size_t, std::ostream&)> const& job,
    std::function<std::string(std::size_t, std::string const&)> const& on_crash,
    unsigned cpu_limit = 45, unsigned wall_limit = 150)
{
    struct Sh { std::atomic<long> next; std::atomic<long> cur[64]; std::atomic<long> off[64]; };
    auto sh = static_cast<Sh*>(mmap(nullptr, sizeof(Sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    sh->next = 0;
    std::vector<pid_t> pid(workers, 0);
    auto const start = [&](int w)
    {
        sh->cur[w] = -1;
        std::cout.flush();
        auto p = fork();
        if(p == 0)
        {
            struct rlimit rl{0,0}; setrlimit(RLIMIT_CORE, &rl);
            std::ofstream os(outbase + "." + std::to_string(w), std::ios::app);
            for(;;)
            {
                long i = sh->next++;
                if(i >= (long)n) break;
                sh->off[w] = (long)os.tellp();
                sh->cur[w] = i;
                // a busy machine must not look like a hang: processor time counts first
                struct itimerval tv{{0, 0}, {(time_t)cpu_limit, 0}}, off{};
                setitimer(ITIMER_PROF, &tv, nullptr);
                alarm(wall_limit);
                job(i, os);
                if(auto f = std::getenv("NUDB_SLOW"))
                {
                    struct itimerval l; getitimer(ITIMER_PROF, &l);
                    auto t = cpu_limit - l.it_value.tv_sec;
                    if(t > 3) { std::ofstream o(f, std::ios::app); o << outbase << " " << i << " " << t << " s\n"; }
                }
                alarm(0);
                setitimer(ITIMER_PROF, &off, nullptr);
                os.flush();
                sh->cur[w] = -1;
            }
            os.close();
            _exit(0);
        }
        pid[w] = p;
    };
    for(int w = 0; w < workers; ++w) { std::remove((outbase + "." + std::to_string(w)).c_str()); start(w); }
    int live = workers, hangs = 0;
    while(live)
    {
        int st; pid_t p = wait(&st);
        if(p < 0) break;
        int w = -1;
        for(int i = 0; i < workers; ++i) if(pid[i] == p) w = i;
        if(w < 0) continue;
        long c = sh->cur[w];
        if(c >= 0)
        {
            std::string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? "hang" : "signal " + std::to_string(WTERMSIG(st)))
                : "exit " + std::to_string(WEXITSTATUS(st));
            auto f = outbase + "." + std::to_string(w);
            if(truncate(f.c_str(), sh->off[w]) != 0) {}
            std::ofstream os(f, std::ios::app);
            os << on_crash(c, what);
            os.close();
            if(what == "hang" && ++hangs == 8) sh->next = n;    // the verdict is clear; the rest is not worth the time
            start(w);
        }
        else --live;
    }
    std::ofstream out(outbase, std::ios::binary);
    for(int w = 0; w < workers; ++w)
    {
        auto f = outbase + "." + std::to_string(w);
        std::ifstream is(f, std::ios::binary);
        if(is && is.peek() != EOF) out << is.rdbuf();
        is.close();
        std::remove(f.c_str());
    }
    munmap(sh, sizeof(Sh));
}

} // util

#ifdef BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
inline void assertion_failed(char const* expr, char const* fn, char const* file, long line)
{
    std::fprintf(stderr, "ASSERT %s in %s (%s:%ld)\n", expr, fn, file, line);
    std::abort();
}
inline void assertion_failed_msg(char const* expr, char const* msg, char const* fn, char const* file, long line)
{
    std::fprintf(stderr, "ASSERT %s %s in %s (%s:%ld)\n", expr, msg, fn, file, line);
    std::abort();
}
}
#endif
