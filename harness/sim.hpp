// In-memory File for NuDB with recording, fault injection and crash images.
// Nothing in here touches the real file system.
#pragma once
#include <nudb/file.hpp>
#include <nudb/error.hpp>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>
#include <sys/syscall.h>

namespace sim {

// Sparse copy-on-write byte array
class Blob
{
    static constexpr std::uint64_t PS = 4096;
    struct Page { std::uint8_t b[PS]; };
    std::uint64_t size_ = 0;
    std::map<std::uint64_t, std::shared_ptr<Page>> pg_;
public:
    std::uint64_t size() const { return size_; }
    void read(std::uint64_t off, void* p, std::size_t n) const
    {
        auto d = static_cast<std::uint8_t*>(p);
        while(n)
        {
            auto i = off / PS, o = off % PS;
            auto k = std::min<std::uint64_t>(n, PS - o);
            auto it = pg_.find(i);
            if(it == pg_.end()) std::memset(d, 0, k);
            else std::memcpy(d, it->second->b + o, k);
            d += k; off += k; n -= k;
        }
    }
    void write(std::uint64_t off, void const* p, std::size_t n)
    {
        auto d = static_cast<std::uint8_t const*>(p);
        if(n && off + n > size_) size_ = off + n;
        while(n)
        {
            auto i = off / PS, o = off % PS;
            auto k = std::min<std::uint64_t>(n, PS - o);
            auto& s = pg_[i];
            if(! s) { s = std::make_shared<Page>(); std::memset(s->b, 0, PS); }
            else if(s.use_count() > 1) s = std::make_shared<Page>(*s);
            std::memcpy(s->b + o, d, k);
            d += k; off += k; n -= k;
        }
    }
    void trunc(std::uint64_t n)
    {
        if(n < size_)
        {
            auto i = n / PS, o = n % PS;
            pg_.erase(pg_.lower_bound(o ? i + 1 : i), pg_.end());
            if(o)
            {
                auto it = pg_.find(i);
                if(it != pg_.end())
                {
                    if(it->second.use_count() > 1)
                        it->second = std::make_shared<Page>(*it->second);
                    std::memset(it->second->b + o, 0, PS - o);
                }
            }
        }
        size_ = n;
    }
    std::string str(std::uint64_t off, std::uint64_t n) const
    {
        std::string s(n, '\0');
        if(n) read(off, &s[0], n);
        return s;
    }
    std::string str() const { return str(0, size_); }
    // the stored pages, for writing a sparse file
    template<class F> void pages(F f) const
    {
        for(auto& e : pg_)
            if(e.first * PS < size_) f(e.first * PS, e.second->b, (std::size_t)std::min<std::uint64_t>(PS, size_ - e.first * PS));
    }
    // true if some byte of the range may be other than zero
    bool any(std::uint64_t off, std::uint64_t n) const
    {
        auto it = pg_.lower_bound(off / PS);
        return n && it != pg_.end() && it->first <= (off + n - 1) / PS;
    }
    // start of the first page that is stored at or after off
    std::uint64_t next(std::uint64_t off) const
    {
        auto it = pg_.lower_bound(off / PS);
        return it == pg_.end() ? size_ : std::max(off, it->first * PS);
    }
    bool operator==(Blob const& o) const
    {
        if(size_ != o.size_) return false;
        static Page const zero{};
        auto a = pg_.begin(); auto b = o.pg_.begin();
        while(a != pg_.end() || b != o.pg_.end())
        {
            Page const* pa = &zero; Page const* pb = &zero;
            if(b == o.pg_.end() || (a != pg_.end() && a->first < b->first)) pa = (a++)->second.get();
            else if(a == pg_.end() || b->first < a->first) pb = (b++)->second.get();
            else { pa = (a++)->second.get(); pb = (b++)->second.get(); }
            if(pa != pb && std::memcmp(pa->b, pb->b, PS)) return false;
        }
        return true;
    }
    bool operator!=(Blob const& o) const { return !(*this == o); }
    // true if the first n bytes agree
    bool prefix_equal(Blob const& o, std::uint64_t n) const
    {
        if(size_ < n || o.size_ < n) return false;
        Blob a = *this, b = o;
        a.trunc(n); b.trunc(n);
        return a == b;
    }
    std::uint64_t digest() const
    {
        std::uint64_t h = 1469598103934665603ull ^ size_;
        for(auto& e : pg_)
        {
            bool z = true;
            for(auto c : e.second->b) if(c) { z = false; break; }
            if(z) continue;
            h = (h ^ e.first) * 1099511628211ull;
            std::uint64_t const* w = reinterpret_cast<std::uint64_t const*>(e.second->b);
            for(std::size_t i = 0; i < PS / 8; ++i) { h = (h ^ w[i]) * 1099511628211ull; h ^= h >> 29; }
        }
        return h;
    }
};

struct Inode { Blob b; Blob dur; bool dirty = false; };   // contents now, and as of the last sync

// File names are normalised to one of d(ata) k(ey) l(og) by their last characters.
inline char fkind(std::string const& p)
{
    auto n = p.size();
    if(n >= 3)
    {
        auto s = p.substr(n - 3);
        if(s == "dat") return 'd';
        if(s == "key") return 'k';
        if(s == "log") return 'l';
    }
    return '?';
}

enum class K : char
{ create='C', open='O', erase='E', close='X', size='Z', read='R', write='W', sync='S', trunc='T', mark='M' };

struct Op
{
    K k;
    std::string path;
    std::uint64_t off = 0;
    std::uint64_t len = 0;
    std::string data;      // bytes written
    bool fail = false;     // injected or natural failure
    int tid = 0;
    std::int64_t mark = 0; // API boundary marker
};

struct FS
{
    std::map<std::string, std::shared_ptr<Inode>> files;
    FS clone() const
    {
        FS r;
        for(auto& e : files) r.files[e.first] = std::make_shared<Inode>(*e.second);
        return r;
    }
    void power_loss() { for(auto& e : files) { e.second->b = e.second->dur; e.second->dirty = false; } }
    bool has(std::string const& p) const { return files.count(p) != 0; }
    Blob* get(std::string const& p)
    {
        auto it = files.find(p);
        return it == files.end() ? nullptr : &it->second->b;
    }
    Blob const* get(std::string const& p) const
    {
        auto it = files.find(p);
        return it == files.end() ? nullptr : &it->second->b;
    }
};

// Global simulator state. Only one (logical) thread runs at a time.
struct World
{
    FS fs;
    bool record = false;          // append to log
    bool record_reads = false;
    std::vector<Op> log;
    // faults
    std::int64_t count = 0;       // counted operations so far
    std::int64_t fail_at = -1;    // fail the operation with this number
    char const* only = nullptr;   // kinds of operations counted, or all
    bool fail_on = false;         // once hit, keep failing
    int partial = 0;              // 0: no effect, 1: half of a write, 2: all of it then error
    bool hit = false;
    std::int64_t nfail = 0;       // injected failures so far
    std::int64_t nfail_erase = 0; // among them, of erase
    int code = EIO;               // the error of an injected failure
    bool armed = false;
    std::int64_t nread = 0, nwrite = 0;
    std::uint64_t bytes_read = 0;
    int open_handles = 0;
    std::int64_t dlo = -1;        // lowest data file offset written or cut since reset
    std::string anomaly;          // misuse of a file object
    std::function<void(char, std::string const&)> hook;   // called before each operation (kind, path)
    void (*onfail)(char, std::string const&) = nullptr;   // called when a failure is injected
    void (*guard)(int) = nullptr; // +1, -1 around each operation
    int (*tid)() = nullptr;
};
inline World& W() { static World w; return w; }

// the error codes of injected failures; not those of a missing or an existing file, which have a meaning of their own
inline int code_of(std::uint64_t i)
{
    static int const t[] = {EIO, ENOSPC, EINTR, EACCES, EIO, ENOSPC, EDQUOT, EROFS, ENOMEM, ENOSPC, EFBIG, EAGAIN, EINTR, EBADF, EINVAL, ENFILE, ETIMEDOUT};
    return t[i % (sizeof t / sizeof *t)];
}
struct Guard { Guard() { if(W().guard) W().guard(1); } ~Guard() { if(W().guard) W().guard(-1); } };

inline nudb::error_code ioerr()
{
    return nudb::error_code{W().code, boost::system::generic_category()};
}

class File
{
    std::shared_ptr<Inode> n_;
    std::string path_;
    nudb::file_mode mode_ = nudb::file_mode::read;

    static void anomaly(char const* s) { if(W().anomaly.empty()) W().anomaly = s; }

    // returns true if the operation has to fail
    static bool enter(K k, std::string const& path, nudb::error_code& ec, int& partial)
    {
        auto& w = W();
        partial = 0;
        if(w.hook) w.hook(static_cast<char>(k), path);
        if(! w.armed) return false;
        if(w.only && ! std::strchr(w.only, static_cast<char>(k)) && ! (w.fail_on && w.hit)) return false;
        auto const c = w.count++;
        if(c == w.fail_at || (w.fail_on && w.hit))
        {
            w.hit = true;
            ++w.nfail;
            if(k == K::erase) ++w.nfail_erase;
            partial = w.partial;
            auto const e = ioerr();
            // the error code belongs to the library
            if(w.guard) w.guard(-1);
            ec = e;
            if(w.guard) w.guard(1);
            if(w.onfail) w.onfail(static_cast<char>(k), path);
            return true;
        }
        return false;
    }
    static void rec(K k, std::string const& path, std::uint64_t off = 0,
        std::uint64_t len = 0, void const* p = nullptr, bool fail = false)
    {
        auto& w = W();
        if(! w.record) return;
        if(! w.record_reads && (k == K::read || k == K::size || k == K::open || k == K::close)) return;
        Op o;
        o.k = k; o.path = path; o.off = off; o.len = len; o.fail = fail;
        if(p) o.data.assign(static_cast<char const*>(p), len);
        if(w.tid) o.tid = w.tid();
        w.log.push_back(std::move(o));
    }
    void touch(std::uint64_t off)
    {
        if(fkind(path_) != 'd') return;
        auto& w = W();
        if(w.dlo < 0 || off < (std::uint64_t)w.dlo) w.dlo = (std::int64_t)off;
    }
    bool usable()
    {
        if(n_) return true;
        anomaly("operation on a closed file");
        return false;
    }

public:
    File() = default;
    File(File const&) = delete;
    File& operator=(File const&) = delete;
    File(File&& o) noexcept : n_(std::move(o.n_)), path_(std::move(o.path_)), mode_(o.mode_) { o.n_.reset(); }
    File& operator=(File&& o) noexcept
    {
        if(&o == this) return *this;
        close();
        n_ = std::move(o.n_); o.n_.reset();
        path_ = std::move(o.path_); mode_ = o.mode_;
        return *this;
    }
    ~File() { close(); }
    bool is_open() const { return n_ != nullptr; }
    void close()
    {
        Guard g;
        if(n_)
        {
            rec(K::close, path_);
            --W().open_handles;
            n_.reset();
        }
    }
    void create(nudb::file_mode m, nudb::path_type const& path, nudb::error_code& ec)
    {
        Guard g;
        if(n_) anomaly("create on an open file");
        int pa;
        if(enter(K::create, path, ec, pa)) { rec(K::create, path, 0, 0, nullptr, true); return; }
        auto& fs = W().fs;
        if(fs.has(path))
        {
            ec = nudb::error_code{EEXIST, boost::system::generic_category()};
            rec(K::create, path, 0, 0, nullptr, true);
            return;
        }
        n_ = fs.files[path] = std::make_shared<Inode>();
        path_ = path; mode_ = m;
        ++W().open_handles;
        rec(K::create, path);
    }
    void open(nudb::file_mode m, nudb::path_type const& path, nudb::error_code& ec)
    {
        Guard g;
        if(n_) anomaly("open on an open file");
        int pa;
        if(enter(K::open, path, ec, pa)) { rec(K::open, path, 0, 0, nullptr, true); return; }
        auto& fs = W().fs;
        auto it = fs.files.find(path);
        if(it == fs.files.end())
        {
            ec = nudb::error_code{ENOENT, boost::system::generic_category()};
            rec(K::open, path, 0, 0, nullptr, true);
            return;
        }
        n_ = it->second;
        path_ = path; mode_ = m;
        ++W().open_handles;
        rec(K::open, path);
    }
    static void erase(nudb::path_type const& path, nudb::error_code& ec)
    {
        Guard g;
        int pa;
        if(enter(K::erase, path, ec, pa)) { rec(K::erase, path, 0, 0, nullptr, true); return; }
        auto& fs = W().fs;
        if(! fs.files.erase(path))
        {
            ec = nudb::error_code{ENOENT, boost::system::generic_category()};
            rec(K::erase, path, 0, 0, nullptr, true);
            return;
        }
        rec(K::erase, path);
    }
    std::uint64_t size(nudb::error_code& ec) const
    {
        Guard g;
        if(! n_) { anomaly("size of a closed file"); ec = ioerr(); return 0; }
        int pa;
        if(enter(K::size, path_, ec, pa)) { rec(K::size, path_, 0, 0, nullptr, true); return 0; }
        rec(K::size, path_);
        return n_->b.size();
    }
    void read(std::uint64_t off, void* p, std::size_t n, nudb::error_code& ec)
    {
        Guard g;
        if(! usable()) { ec = ioerr(); return; }
        int pa;
        if(enter(K::read, path_, ec, pa)) { rec(K::read, path_, off, n, nullptr, true); return; }
        auto& w = W();
        ++w.nread; w.bytes_read += n;
        rec(K::read, path_, off, n);
        if(n > 1 && w.hook)
        {
            // the transfer may be split: the second half happens later
            auto const h = n / 2;
            if(off + h > n_->b.size()) { ec = nudb::error::short_read; return; }
            n_->b.read(off, p, h);
            w.hook('r', path_);
            if(off + n > n_->b.size()) { ec = nudb::error::short_read; return; }
            n_->b.read(off + h, static_cast<char*>(p) + h, n - h);
            return;
        }
        if(off > n_->b.size() || n > n_->b.size() - off)
        {
            ec = nudb::error::short_read;
            return;
        }
        n_->b.read(off, p, n);
    }
    void write(std::uint64_t off, void const* p, std::size_t n, nudb::error_code& ec)
    {
        Guard g;
        if(! usable()) { ec = ioerr(); return; }
        if(mode_ == nudb::file_mode::read || mode_ == nudb::file_mode::scan)
        {
            ec = nudb::error_code{EBADF, boost::system::generic_category()};
            anomaly("write to a file opened for reading");
            return;
        }
        int pa;
        bool const f = enter(K::write, path_, ec, pa);
        auto& w = W();
        ++w.nwrite;
        n_->dirty = true;
        // as POSIX does it on Linux: an appending descriptor ignores the offset
        if(mode_ == nudb::file_mode::append) off = n_->b.size();
        touch(off);
        if(f)
        {
            std::size_t k = pa == 0 ? 0 : pa == 1 ? n / 2 : n;
            rec(K::write, path_, off, k, p, true);
            n_->b.write(off, p, k);
            return;
        }
        if(n > 1 && w.hook)
        {
            auto const h = n / 2;
            n_->b.write(off, p, h);
            w.hook('w', path_);
            n_->b.write(off + h, static_cast<char const*>(p) + h, n - h);
            rec(K::write, path_, off, n, p);
            return;
        }
        n_->b.write(off, p, n);
        rec(K::write, path_, off, n, p);
    }
    void sync(nudb::error_code& ec)
    {
        Guard g;
        if(! usable()) { ec = ioerr(); return; }
        int pa;
        if(enter(K::sync, path_, ec, pa)) { rec(K::sync, path_, 0, 0, nullptr, true); return; }
        if(n_->dirty) { n_->dur = n_->b; n_->dirty = false; }
        rec(K::sync, path_);
    }
    void trunc(std::uint64_t n, nudb::error_code& ec)
    {
        Guard g;
        if(! usable()) { ec = ioerr(); return; }
        if(mode_ == nudb::file_mode::read || mode_ == nudb::file_mode::scan)
        {
            ec = nudb::error_code{EBADF, boost::system::generic_category()};
            anomaly("truncation of a file opened for reading");
            return;
        }
        int pa;
        if(enter(K::trunc, path_, ec, pa)) { rec(K::trunc, path_, n, 0, nullptr, true); return; }
        n_->b.trunc(n);
        n_->dirty = true;
        touch(n);
        rec(K::trunc, path_, n);
    }
};

} // sim
