// The native file on a virtual kernel: every system call it makes on /vk/... is answered from a script.
// usage: posix PROGRAMS OUT WORKERS SCRATCH
//   id=.. mode=file unit=1|4096 pre=<n bytes of /vk/a, -1 none> script=<r,r,...> seed=<n> | ops
//     script entry: f  everything   pN  at most N units   i  EINTR   eN  error N   (then "tail": f, or random with probability rnd/100)
//     ops: cr:h:mode:p op:h:mode:p cl:h rd:h:off:n wr:h:off:n:vid (off "E" end of file) sy:h tr:h:len sz:h un:p mv:h:g ma:h:g
//   id=.. mode=store ks= bs= lf= hm= seed= rnd= | i:k:vid:size f:k o c R:bs:lf:cnt:buf
#include "gen.hpp"
#include "util.hpp"
#include "names.hpp"
#include <nudb/nudb.hpp>
#include <cstdarg>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace vk {

struct File { std::string b; std::uint64_t gsz = 0; };
struct Fd { std::string path; int flags; std::uint64_t pos = 0; std::shared_ptr<File> f; };
static std::map<std::string, std::shared_ptr<File>> files;
static std::map<int, Fd> fds;
static int nextfd = 5000;
static bool on = false;            // record and inject
static std::uint64_t unit = 1;
static std::vector<std::string> script;
static std::size_t at = 0;
static int rnd = 0, rnde = 0;
static std::mt19937_64 rng;
static util::J* j = nullptr;
static char const* bufbase = nullptr;
static std::uint64_t buflen = 0;
static std::uint64_t calls = 0;

static bool mine(char const* p) { return std::strncmp(p, "/vk/", 4) == 0; }
static bool minefd(int fd) { return fd >= 5000 && fd < 1000000; }

struct Ans { char c; std::uint64_t n; };
static Ans next(bool transfer, bool again = true)
{
    if(! on) return {'f', 0};
    ++calls;
    if(at < script.size())
    {
        auto& s = script[at++];
        return {s[0], s.size() > 1 ? std::stoull(s.substr(1)) : 0};
    }
    if(rnd && int(rng() % 100) < rnd)
    {
        if(! again) return {'f', 0};
        if(transfer && rng() % 4 != 0) return {'p', 1 + rng() % (rng() % 2 ? 3 : 40)};
        return {'i', 0};
    }
    if(rnde && int(rng() % 1000) < rnde)
    {
        static int const es[] = {EIO, ENOSPC, EDQUOT, EAGAIN, ENOMEM, EFBIG, EACCES, EROFS};
        return {'e', (std::uint64_t)es[rng() % 8]};
    }
    return {'f', 0};
}
static long long un(std::uint64_t x) { return x % unit ? -1 : util::clamp31(x / unit); }
static void sys(char const* c, int fd, long long r) { if(j && on) j->open('{').key("o").v("sys").key("c").v(c).key("fd").v(fd).key("r").v(r); }
static void end() { if(j && on) j->close('}'); }
static void bytes(char const* k, char const* p, std::size_t n)
{
    if(! j || ! on) return;
    j->key(k).open('[');
    for(std::size_t i = 0; i < n && unit == 1; ++i) j->v((int)(unsigned char)p[i]);
    j->close(']');
}
static void place(void const* p)
{
    if(! j || ! on) return;
    auto q = static_cast<char const*>(p);
    long long d = (bufbase && q >= bufbase && q <= bufbase + buflen) ? un(q - bufbase) : -1;
    j->key("b").v(d);
}

static long fail(int e) { errno = e; return -1; }

static int open(char const* path, int flags, int mode)
{
    auto a = next(false, false);
    int e = 0;
    if(a.c == 'i') e = EINTR; else if(a.c == 'e') e = (int)a.n;
    else if((flags & O_CREAT) && (flags & O_EXCL) && files.count(path)) e = EEXIST;
    else if(! (flags & O_CREAT) && ! files.count(path)) e = ENOENT;
    int fd = e ? -1 : nextfd++;
    sys("open", fd, e ? -e : fd);
    if(j && on) j->key("p").v(path).key("cr").b(flags & O_CREAT).key("ap").b(flags & O_APPEND).key("tr").b(flags & O_TRUNC)
        .key("w").b((flags & O_ACCMODE) != O_RDONLY).key("mo").v((flags & O_CREAT) ? mode & 0777 : -1);
    end();
    if(e) return (int)fail(e);
    auto& f = files[path];
    if(! f) f = std::make_shared<File>();
    if(flags & O_TRUNC) { f->b.clear(); f->gsz = 0; }
    fds[fd] = Fd{path, flags, 0, f};
    return fd;
}
static int close(int fd)
{
    auto a = next(false, false);
    bool had = fds.count(fd) != 0;
    int e = ! had ? EBADF : a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n : 0;
    sys("close", fd, -e); end();
    fds.erase(fd);
    return e ? (int)fail(e) : 0;
}
static std::uint64_t fsz(Fd& d) { return unit == 1 ? d.f->b.size() : d.f->gsz; }
static long rd(int fd, iovec const* v, int nv, std::uint64_t off, bool usepos)
{
    auto a = next(true);
    auto it = fds.find(fd);
    std::uint64_t want = 0;
    for(int i = 0; i < nv; ++i) want += v[i].iov_len;
    int e = it == fds.end() || (it->second.flags & O_ACCMODE) == O_WRONLY ? EBADF : a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n
        : (long long)off < 0 || (ssize_t)want < 0 ? EINVAL : 0;
    std::uint64_t n = 0;
    if(! e)
    {
        auto& d = it->second;
        if(usepos) off = d.pos;
        auto sz = fsz(d);
        n = off >= sz ? 0 : std::min(want, sz - off);
        n = std::min<std::uint64_t>(n, unit == 1 ? 0x7ffff000u : 0x7ffff000u);
        if(a.c == 'p' && n > 0) n = std::min(n, std::max<std::uint64_t>(1, a.n) * unit);
        if(usepos) d.pos += n;
    }
    sys("rd", fd, e ? -e : un(n));
    if(j && on) j->key("off").v(un(off)).key("n").v(un(want));
    place(nv ? v[0].iov_base : nullptr);
    end();
    if(e) return fail(e);
    if(unit == 1)
    {
        std::uint64_t left = n, o = off;
        for(int i = 0; i < nv && left; ++i)
        {
            auto m = std::min<std::uint64_t>(left, v[i].iov_len);
            std::memcpy(v[i].iov_base, it->second.f->b.data() + o, m);
            left -= m; o += m;
        }
    }
    return (long)n;
}
static long wr(int fd, iovec const* v, int nv, std::uint64_t off, bool usepos)
{
    auto a = next(true);
    auto it = fds.find(fd);
    std::uint64_t want = 0;
    for(int i = 0; i < nv; ++i) want += v[i].iov_len;
    int e = it == fds.end() || (it->second.flags & O_ACCMODE) == O_RDONLY ? EBADF : a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n
        : (long long)off < 0 || (ssize_t)want < 0 ? EINVAL : 0;
    std::uint64_t n = 0;
    std::string data;
    if(! e)
    {
        auto& d = it->second;
        if(usepos) off = d.pos;
        if(d.flags & O_APPEND) off = fsz(d);           // Linux appends whatever the offset says
        n = std::min<std::uint64_t>(want, 0x7ffff000u);
        if(a.c == 'p' && n > 0) n = std::min(n, std::max<std::uint64_t>(1, a.n) * unit);
        if(unit == 1)
        {
            for(int i = 0; i < nv && data.size() < n; ++i)
                data.append(static_cast<char const*>(v[i].iov_base), std::min<std::size_t>(v[i].iov_len, n - data.size()));
            if(d.f->b.size() < off + n) d.f->b.resize(off + n);
            std::memcpy(&d.f->b[off], data.data(), n);
        }
        else d.f->gsz = std::max(d.f->gsz, off + n);
        if(usepos) d.pos = off + n;
    }
    sys("wr", fd, e ? -e : un(n));
    if(j && on) j->key("off").v(un(off)).key("n").v(un(want));
    place(nv ? v[0].iov_base : nullptr);
    bytes("d", data.data(), data.size());
    end();
    return e ? fail(e) : (long)n;
}
static int simple(char const* c, int fd, bool needw, std::uint64_t len = 0)
{
    auto a = next(false, std::strcmp(c, "adv") != 0);
    auto it = fds.find(fd);
    int e = it == fds.end() ? EBADF : a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n
        : needw && (it->second.flags & O_ACCMODE) == O_RDONLY ? EINVAL : 0;
    if(! e && std::string(c) == "trunc")
    {
        it->second.f->gsz = len;
        if(unit == 1) it->second.f->b.resize(len);
    }
    sys(c, fd, -e);
    if(j && on) j->key("len").v(un(len));
    end();
    return e;
}
static int stat_(std::shared_ptr<File> f, struct stat* st, int e0, int fd)
{
    auto a = next(false, false);
    int e = e0 ? e0 : a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n : 0;
    sys("stat", fd, -e); end();
    if(e) return (int)fail(e);
    std::memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_size = unit == 1 ? f->b.size() : f->gsz;
    return 0;
}
static int unlink_(char const* p)
{
    auto a = next(false, false);
    int e = a.c == 'i' ? EINTR : a.c == 'e' ? (int)a.n : ! files.count(p) ? ENOENT : 0;
    sys("unlink", -1, -e);
    if(j && on) j->key("p").v(p);
    end();
    if(e) return (int)fail(e);
    files.erase(p);
    return 0;
}

} // vk

// --wrap replaces the references from this translation unit only
extern "C" {
#define REAL(name) __real_##name
int REAL(open)(char const*, int, ...); int REAL(openat)(int, char const*, int, ...); int REAL(creat)(char const*, mode_t);
int REAL(close)(int); ssize_t REAL(pread)(int, void*, size_t, off_t); ssize_t REAL(pwrite)(int, void const*, size_t, off_t);
ssize_t REAL(read)(int, void*, size_t); ssize_t REAL(write)(int, void const*, size_t);
int REAL(fsync)(int); int REAL(fdatasync)(int); int REAL(ftruncate)(int, off_t); int REAL(fstat)(int, struct stat*); int REAL(stat)(char const*, struct stat*);
int REAL(unlink)(char const*); int REAL(remove)(char const*); int REAL(posix_fadvise)(int, off_t, off_t, int); off_t REAL(lseek)(int, off_t, int);
ssize_t REAL(preadv)(int, iovec const*, int, off_t); ssize_t REAL(pwritev)(int, iovec const*, int, off_t);
ssize_t REAL(readv)(int, iovec const*, int); ssize_t REAL(writev)(int, iovec const*, int); int REAL(access)(char const*, int);

int __wrap_open(char const* p, int fl, ...)
{
    int mode = 0;
    if(fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    return vk::mine(p) ? vk::open(p, fl, mode) : REAL(open)(p, fl, mode);
}
int __wrap_openat(int d, char const* p, int fl, ...)
{
    int mode = 0;
    if(fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    return vk::mine(p) ? vk::open(p, fl, mode) : REAL(openat)(d, p, fl, mode);
}
int __wrap_creat(char const* p, mode_t m) { return vk::mine(p) ? vk::open(p, O_CREAT | O_WRONLY | O_TRUNC, m) : REAL(creat)(p, m); }
int __wrap_close(int fd) { return vk::minefd(fd) ? vk::close(fd) : REAL(close)(fd); }
// a descriptor of -1 is the code under test using a closed file
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { iovec v{b, n}; return vk::minefd(fd) || fd == -1 ? vk::rd(fd, &v, 1, o, false) : REAL(pread)(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, void const* b, size_t n, off_t o) { iovec v{const_cast<void*>(b), n}; return vk::minefd(fd) || fd == -1 ? vk::wr(fd, &v, 1, o, false) : REAL(pwrite)(fd, b, n, o); }
ssize_t __wrap_read(int fd, void* b, size_t n) { iovec v{b, n}; return vk::minefd(fd) ? vk::rd(fd, &v, 1, 0, true) : REAL(read)(fd, b, n); }
ssize_t __wrap_write(int fd, void const* b, size_t n) { iovec v{const_cast<void*>(b), n}; return vk::minefd(fd) ? vk::wr(fd, &v, 1, 0, true) : REAL(write)(fd, b, n); }
ssize_t __wrap_preadv(int fd, iovec const* v, int n, off_t o) { return vk::minefd(fd) ? vk::rd(fd, v, n, o, false) : REAL(preadv)(fd, v, n, o); }
ssize_t __wrap_pwritev(int fd, iovec const* v, int n, off_t o) { return vk::minefd(fd) ? vk::wr(fd, v, n, o, false) : REAL(pwritev)(fd, v, n, o); }
ssize_t __wrap_readv(int fd, iovec const* v, int n) { return vk::minefd(fd) ? vk::rd(fd, v, n, 0, true) : REAL(readv)(fd, v, n); }
ssize_t __wrap_writev(int fd, iovec const* v, int n) { return vk::minefd(fd) ? vk::wr(fd, v, n, 0, true) : REAL(writev)(fd, v, n); }
int __wrap_fsync(int fd) { if(! vk::minefd(fd) && fd != -1) return REAL(fsync)(fd); int e = vk::simple("sync", fd, false); return e ? (int)vk::fail(e) : 0; }
int __wrap_fdatasync(int fd) { if(! vk::minefd(fd) && fd != -1) return REAL(fdatasync)(fd); int e = vk::simple("sync", fd, false); return e ? (int)vk::fail(e) : 0; }
int __wrap_ftruncate(int fd, off_t l) { if(! vk::minefd(fd) && fd != -1) return REAL(ftruncate)(fd, l); int e = vk::simple("trunc", fd, true, l); return e ? (int)vk::fail(e) : 0; }
int __wrap_fstat(int fd, struct stat* st)
{
    if(! vk::minefd(fd) && fd != -1) return REAL(fstat)(fd, st);
    auto it = vk::fds.find(fd);
    return vk::stat_(it == vk::fds.end() ? nullptr : it->second.f, st, it == vk::fds.end() ? EBADF : 0, fd);
}
int __wrap_stat(char const* p, struct stat* st)
{
    if(! vk::mine(p)) return REAL(stat)(p, st);
    auto it = vk::files.find(p);
    return vk::stat_(it == vk::files.end() ? nullptr : it->second, st, it == vk::files.end() ? ENOENT : 0, -2);
}
int __wrap_access(char const* p, int m) { if(! vk::mine(p)) return REAL(access)(p, m); if(vk::files.count(p)) return 0; return (int)vk::fail(ENOENT); }
int __wrap_unlink(char const* p) { return vk::mine(p) ? vk::unlink_(p) : REAL(unlink)(p); }
int __wrap_remove(char const* p) { return vk::mine(p) ? vk::unlink_(p) : REAL(remove)(p); }
int __wrap_posix_fadvise(int fd, off_t a, off_t b, int c) { return vk::minefd(fd) ? vk::simple("adv", fd, false) : REAL(posix_fadvise)(fd, a, b, c); }
off_t __wrap_lseek(int fd, off_t o, int w)
{
    if(! vk::minefd(fd)) return REAL(lseek)(fd, o, w);
    auto it = vk::fds.find(fd);
    if(it == vk::fds.end()) return (off_t)vk::fail(EBADF);
    auto& d = it->second;
    d.pos = w == SEEK_SET ? o : w == SEEK_CUR ? d.pos + o : vk::fsz(d) + o;
    return (off_t)d.pos;
}
}

static int const STALE = ENOTTY;   // the error number lying around when an operation begins

struct Run
{
    util::J j;
    std::map<std::string, std::string> cfg;
    long long num(char const* k, long long d) const { auto i = cfg.find(k); return i == cfg.end() || i->second.empty() ? d : std::stoll(i->second); }

    static int code(nudb::error_code const& ec)
    {
        if(! ec) return 0;
        if(ec == nudb::error::short_read) return -1;
        if(ec.category() == nudb::system_category() || ec.category() == boost::system::generic_category()) return ec.value();
        return -2;
    }
    void state(std::map<int, std::unique_ptr<nudb::posix_file>>& h)
    {
        j.key("open").open('[');
        for(auto& x : h) if(x.second->is_open()) j.v(x.first);
        j.close(']');
        j.key("fds").open('[');
        for(auto& x : vk::fds) j.v(x.first);
        j.close(']');
    }
    void fileMode(std::vector<std::string> const& ops)
    {
        std::map<int, std::unique_ptr<nudb::posix_file>> h;
        for(int i = 0; i < 3; ++i) h[i].reset(new nudb::posix_file);
        auto pre = num("pre", -1);
        j.key("unit").v((long long)vk::unit).key("pre").open('[');
        if(pre >= 0)
        {
            auto f = std::make_shared<vk::File>();
            if(vk::unit == 1) for(int i = 0; i < pre; ++i) { f->b += char('A' + i % 50); j.v('A' + i % 50); }
            f->gsz = pre * vk::unit;
            vk::files["/vk/a"] = f;
        }
        j.close(']').key("gsz").v(pre).key("ev").open('[');
        vk::j = &j;
        for(auto& o : ops)
        {
            auto a = util::split(o, ':');
            auto const& c = a[0];
            auto n = [&](std::size_t i) -> long long { return i < a.size() ? std::stoll(a[i]) : 0; };
            nudb::error_code ec;
            auto hh = [&](std::size_t i) -> nudb::posix_file& { return *h[(int)n(i)]; };
            auto mode = [&](std::string const& m) { return m == "s" ? nudb::file_mode::scan : m == "r" ? nudb::file_mode::read : m == "a" ? nudb::file_mode::append : nudb::file_mode::write; };
            auto begin = [&](char const* op, int hnd) -> util::J& { return j.open('{').key("o").v("op").key("op").v(op).key("h").v(hnd); };
            auto endb = [&]{ j.close('}'); vk::on = true; errno = STALE; };
            long long size = -1;
            std::string buf;
            char const* d = nullptr;
            std::size_t dn = 0;
            bool need = c == "rd" || c == "wr" || c == "sy" || c == "tr" || c == "sz";
            if(c == "sc") { vk::script = util::split(a.size() > 1 ? a[1] : "", ','); vk::at = 0; continue; }
            if(need && ! hh(1).is_open()) continue;
            if(c == "un") { bool used = false; for(auto& x : vk::fds) used = used || x.second.path == "/vk/" + a[1]; if(used) continue; }
            if((c == "cr" || c == "op") && hh(1).is_open()) continue;
            if(c == "cr" || c == "op")
            {
                begin(c == "cr" ? "create" : "open", (int)n(1)).key("p").v("/vk/" + a[3]).key("m").v(a[2]); endb();
                if(c == "cr") hh(1).create(mode(a[2]), "/vk/" + a[3], ec); else hh(1).open(mode(a[2]), "/vk/" + a[3], ec);
            }
            else if(c == "cl") { begin("close", (int)n(1)); endb(); hh(1).close(); }
            else if(c == "rd")
            {
                std::uint64_t off = n(2) * vk::unit, len = n(3) * vk::unit;
                if(vk::unit == 1) { buf.assign(len, '\x01'); d = buf.data(); dn = len; }
                begin("read", (int)n(1)).key("off").v(n(2)).key("n").v(n(3));
                vk::bufbase = vk::unit == 1 ? buf.data() : reinterpret_cast<char const*>(0x10000000000ull); vk::buflen = len;
                endb();
                hh(1).read(off, const_cast<char*>(vk::bufbase), len, ec);
            }
            else if(c == "wr")
            {
                std::uint64_t len = n(3) * vk::unit, off = 0;
                if(a[2] == "E") { for(auto& x : vk::files) if(x.first == "/vk/" + a[5]) off = vk::unit == 1 ? x.second->b.size() : x.second->gsz; }
                else off = n(2) * vk::unit;
                if(vk::unit == 1) for(std::uint64_t i = 0; i < len; ++i) buf += char(gen::mix(n(4) * 977 + i) % 200 + 1);
                begin("write", (int)n(1)).key("off").v((long long)(off / vk::unit)).key("n").v(n(3)).key("d").open('[');
                if(vk::unit == 1) for(char x : buf) j.v((int)(unsigned char)x);
                j.close(']');
                vk::bufbase = vk::unit == 1 ? buf.data() : reinterpret_cast<char const*>(0x10000000000ull); vk::buflen = len;
                endb();
                hh(1).write(off, vk::bufbase, len, ec);
            }
            else if(c == "sy") { begin("sync", (int)n(1)); endb(); hh(1).sync(ec); }
            else if(c == "tr") { begin("trunc", (int)n(1)).key("len").v(n(2)); endb(); hh(1).trunc(n(2) * vk::unit, ec); }
            else if(c == "sz") { begin("size", (int)n(1)); endb(); auto s = hh(1).size(ec); size = vk::un(s); }
            else if(c == "un") { begin("erase", -1).key("p").v("/vk/" + a[1]); endb(); nudb::posix_file::erase("/vk/" + a[1], ec); }
            else if(c == "ma") { begin("move", (int)n(1)).key("g").v(n(2)); endb(); hh(1) = std::move(hh(2)); }
            else if(c == "mv")      // constructs h from g; the old h is destroyed first
            {
                if(n(1) == n(2)) continue;
                begin("move", (int)n(1)).key("g").v(n(2)); endb();
                h[(int)n(1)].reset();
                h[(int)n(1)].reset(new nudb::posix_file(std::move(hh(2))));
            }
            else continue;
            vk::on = false;
            vk::bufbase = nullptr;
            j.open('{').key("o").v("ret").key("r").v(code(ec)).key("size").v(size).key("d").open('[');
            for(std::size_t i = 0; i < dn; ++i) j.v((int)(unsigned char)d[i]);
            j.close(']');
            state(h);
            j.close('}');
        }
        j.open('{').key("o").v("op").key("op").v("end").key("h").v(-1).close('}');
        vk::on = true;
        h.clear();
        vk::on = false;
        j.open('{').key("o").v("ret").key("r").v(0ll).key("size").v(-1).key("d").open('[').close(']');
        state(h);
        j.close('}');
        vk::j = nullptr;
    }

    void storeMode(std::vector<std::string> const& ops)
    {
        using Store = nudb::basic_store<gen::Hasher, nudb::posix_file>;
        std::string D = "/vk/db.dat", K = "/vk/db.key", L = "/vk/db.log";
        gen::hash_mode() = (int)num("hm", 0);
        std::size_t ks = num("ks", 4), bs = num("bs", 128);
        gen::Intern vals;
        j.key("unit").v(1).key("pre").open('[').close(']').key("gsz").v(-1).key("ev").open('[');
        vk::j = nullptr;
        nudb::error_code ec;
        auto kv = [&](char const* c, std::string const& r, long long k = 0, long long v = 0)
        { j.open('{').key("o").v("kv").key("c").v(c).key("k").v(k).key("v").v(v).key("r").v(r).key("fds").v((int)vk::fds.size()).close('}'); };
        vk::on = true;
        {
            nudb::create<gen::Hasher, nudb::posix_file>(D, K, L, 3, 77, 5, ks, bs, (float)(num("lf", 500000) / 1e6), ec);
            kv("create", ename(ec));
            nudb::context ctx;
            std::unique_ptr<Store> st(new Store(ctx));
            for(auto& o : ops)
            {
                auto a = util::split(o, ':');
                auto n = [&](std::size_t i) -> long long { return i < a.size() ? std::stoll(a[i]) : 0; };
                auto const& c = a[0];
                ec = {};
                auto key = gen::make_key(n(1), ks, 0);
                if(c == "o") { st->open(D, K, L, ec); kv("open", ename(ec)); }
                else if(c == "c") { st->close(ec); kv("close", ename(ec)); }
                else if(c == "i")
                {
                    auto v = gen::make_value(n(2), n(3));
                    auto id = vals.add(v);
                    st->insert(key.data(), v.data(), v.size(), ec);
                    kv("ins", ename(ec), n(1), id);
                }
                else if(c == "f")
                {
                    int got = 0, cnt = 0;
                    st->fetch(key.data(), [&](void const* p, std::size_t z) { ++cnt; got = vals.find(std::string((char const*)p, z)); }, ec);
                    std::string r = ename(ec);
                    if(cnt != (ec ? 0 : 1)) r = "callbacks";
                    kv("get", r, n(1), got);
                }
                else if(c == "R")
                {
                    vk::files.erase(K);
                    nudb::rekey<gen::Hasher, nudb::posix_file>(D, K, L, n(1), (float)(n(2) / 1e6), n(3), n(4), ec, [](std::uint64_t, std::uint64_t){});
                    kv("rekey", ename(ec));
                }
                else if(c == "Q") { nudb::recover<gen::Hasher, nudb::posix_file>(D, K, L, ec); kv("recover", ename(ec)); }
            }
        }
        vk::on = false;
        kv("end", "ok");
    }

    void run(std::string const& line, std::ostream& os)
    {
        auto bar = line.find('|');
        for(auto& t : util::split(line.substr(0, bar))) { auto e = t.find('='); if(e != t.npos) cfg[t.substr(0, e)] = t.substr(e + 1); }
        auto ops = util::split(line.substr(bar + 1));
        vk::files.clear(); vk::fds.clear(); vk::nextfd = 5000; vk::on = false; vk::at = 0; vk::calls = 0;
        vk::unit = num("unit", 1);
        vk::script = util::split(cfg["script"], ',');
        vk::rnd = (int)num("rnd", 0); vk::rnde = (int)num("rnde", 0);
        vk::rng.seed(num("seed", 1));
        j.open('{').key("id").v(cfg["id"]).key("prog").v(line);
        if(cfg["mode"] == "store") storeMode(ops); else fileMode(ops);
        j.close(']').key("calls").v((long long)vk::calls).close('}');
        os << j.s << "\n";
    }
};

int main(int ac, char** av)
{
    if(ac < 5) return 9;
    std::vector<std::string> prog;
    { std::ifstream is(av[1]); std::string l; while(std::getline(is, l)) if(! l.empty()) prog.push_back(l); }
    util::run_jobs(prog.size(), atoi(av[3]), av[2],
        [&](std::size_t i, std::ostream& os) { auto r = std::make_unique<Run>(); r->run(prog[i], os); },
        [&](std::size_t i, std::string const& what)
        {
            util::J j;
            j.open('{').key("id").v(prog[i].substr(3, prog[i].find(' ') - 3)).key("prog").v(prog[i]).key("crash").v(what).key("ev").open('[').close(']').close('}');
            return j.s + "\n";
        }, 20);
    return 0;
}
