// Shared by the demonstrations: a store over an in-memory file, nothing real is touched.
#pragma once
#include "simfile.hpp"
#include <nudb/basic_store.hpp>
#include <nudb/context.hpp>
#include <nudb/create.hpp>
#include <nudb/recover.hpp>
#include <nudb/rekey.hpp>
#include <nudb/verify.hpp>
#include <nudb/visit.hpp>
#include <nudb/progress.hpp>
#include <nudb/xxhasher.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <condition_variable>
#include <atomic>

#define CHECK(c) do { if(! (c)) { std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while(0)

// the hash is the key itself, so that a demonstration can choose it
struct KeyHash
{
    std::uint64_t s;
    explicit KeyHash(std::uint64_t seed) : s(seed) {}
    std::uint64_t operator()(void const* p, std::size_t n) const noexcept
    {
        std::uint64_t v = 0;
        std::memcpy(&v, p, n < 8 ? n : 8);
        return v;
    }
};
static char const D[] = "x.dat";
static char const K[] = "x.key";
static char const L[] = "x.log";

struct Key { unsigned char b[64]; };
// 16 byte key: the first 8 bytes are the hash, the rest tells keys with equal hashes apart
inline Key key(std::uint64_t hash, std::uint64_t id) { Key k; std::memset(&k, 0, sizeof k); std::memcpy(k.b, &hash, 8); std::memcpy(k.b + 8, &id, 8); return k; }

template<class H>
struct Db
{
    using Store = nudb::basic_store<H, sim::File>;
    nudb::context ctx;
    Store st{ctx};
    static void make(std::size_t ks = 16, std::size_t bs = 128, float lf = .5f)
    {
        nudb::error_code ec;
        nudb::create<H, sim::File>(D, K, L, 1, 2, 3, ks, bs, lf, ec);
        CHECK(! ec);
        sim::File::erase(L, ec);
    }
    nudb::error_code open() { nudb::error_code ec; st.open(D, K, L, ec); if(! ec) st.set_burst(std::size_t(1) << 40); return ec; }
    nudb::error_code close() { nudb::error_code ec; st.close(ec); return ec; }
    nudb::error_code insert(Key const& k, std::string const& v) { nudb::error_code ec; st.insert(k.b, v.data(), v.size(), ec); return ec; }
    nudb::error_code fetch(Key const& k, std::string& v)
    {
        nudb::error_code ec; v.clear();
        st.fetch(k.b, [&](void const* p, std::size_t n){ v.assign((char const*)p, n); }, ec);
        return ec;
    }
    bool has(Key const& k, std::string const& v) { std::string g; auto ec = fetch(k, g); return ! ec && g == v; }
};
