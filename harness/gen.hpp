// Keys, values and hash functions used by the drivers.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <map>
#include <nudb/xxhasher.hpp>

namespace gen {

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Independent implementation of XXH64 (from its public specification)
inline std::uint64_t xxh64(void const* data, std::size_t len, std::uint64_t seed)
{
    static std::uint64_t const P1=11400714785074694791ull,P2=14029467366897019727ull,
        P3=1609587929392839161ull,P4=9650029242287828579ull,P5=2870177450012600261ull;
    auto rotl=[](std::uint64_t x,int r){return (x<<r)|(x>>(64-r));};
    auto p=static_cast<unsigned char const*>(data);
    auto rd=[&](unsigned char const* q,int n){std::uint64_t v=0;for(int i=n-1;i>=0;--i)v=(v<<8)|q[i];return v;};
    auto round=[&](std::uint64_t acc,std::uint64_t in){acc+=in*P2;acc=rotl(acc,31);return acc*P1;};
    auto const total=len;
    std::uint64_t h;
    if(len>=32)
    {
        std::uint64_t a[4]={seed+P1+P2,seed+P2,seed,seed-P1};
        while(len>=32){for(int i=0;i<4;++i)a[i]=round(a[i],rd(p+8*i,8));p+=32;len-=32;}
        h=rotl(a[0],1)+rotl(a[1],7)+rotl(a[2],12)+rotl(a[3],18);
        for(int i=0;i<4;++i){h^=round(0,a[i]);h=h*P1+P4;}
    }
    else h=seed+P5;
    h+=total;
    while(len>=8){h^=round(0,rd(p,8));h=rotl(h,27)*P1+P4;p+=8;len-=8;}
    if(len>=4){h^=rd(p,4)*P1;h=rotl(h,23)*P2+P3;p+=4;len-=4;}
    while(len){h^=*p*P5;h=rotl(h,11)*P1;++p;--len;}
    h^=h>>33;h*=P2;h^=h>>29;h*=P3;h^=h>>32;
    return h;
}

// Hash modes
//  0 xxhash
//  1 the first (up to 6) key bytes
//  2 all keys collide
//  3 four values, spread over the 48 bits
//  4 first bytes shifted up by 24 bits: one bucket, different hashes
//  5 reversed: first bytes into the top bits of the 48
inline int& hash_mode() { static int m = 0; return m; }

inline std::uint64_t ctl_hash(int mode, void const* data, std::size_t n, std::uint64_t seed)
{
    auto p = static_cast<unsigned char const*>(data);
    std::uint64_t v = 0;
    for(std::size_t i = 0; i < n && i < 6; ++i) v |= std::uint64_t(p[i]) << (8 * i);
    std::uint64_t h = 0;
    switch(mode)
    {
    case 0: return xxh64(data, n, seed);
    case 1: h = v; break;
    case 2: h = 5; break;
    case 3: { static std::uint64_t const t[4] = {0, 0xffffffffffffull, 0x800000000000ull, 0x000001000001ull}; h = t[p[n-1] % 4]; break; }
    case 4: h = (v & 0xffffff) << 24; break;
    case 5: for(int i = 0; i < 6; ++i) h |= ((v >> (8 * i)) & 0xff) << (40 - 8 * i); break;
    }
    // the low 16 bits must be ignored by the library
    return (h << 16) | (mix(v ^ seed ^ n) & 0xffff);
}

class Hasher
{
    std::uint64_t seed_;
public:
    using result_type = std::uint64_t;
    explicit Hasher(std::uint64_t seed) : seed_(seed) {}
    result_type operator()(void const* d, std::size_t n) const noexcept
    {
        if(hash_mode() == 0) return nudb::xxhasher{seed_}(d, n);
        return ctl_hash(hash_mode(), d, n, seed_);
    }
};

// Key layouts: 0 id first, 1 id last, 2 hashed filler after the id
inline std::string make_key(std::uint64_t id, std::size_t ks, int layout)
{
    std::string s(ks, '\x5a');
    if(layout == 2)
        for(std::size_t i = 0; i < ks; ++i) s[i] = char(mix(id * 131 + i / 8) >> (8 * (i % 8)));
    auto const n = std::min<std::size_t>(ks, 6);
    for(std::size_t i = 0; i < n; ++i)
    {
        char c = char(id >> (8 * i));
        if(layout == 1) s[ks - 1 - i] = c; else s[i] = c;
    }
    return s;
}

inline std::string make_value(std::uint64_t vid, std::size_t size)
{
    std::string s(size, '\0');
    std::uint64_t x = mix(vid * 1000003 + size);
    // most of a large value is cheap filler; ends and middle carry the identity
    for(std::size_t i = 0; i < size; i += 8)
    {
        std::uint64_t w = x + i * 0x9e3779b97f4a7c15ull;
        w ^= w >> 29;
        std::memcpy(&s[i], &w, std::min<std::size_t>(8, size - i));
    }
    return s;
}

// Interning: the identity of a byte string. Unknown bytes are -1.
class Intern
{
    std::unordered_map<std::string, int> m_;
public:
    int add(std::string const& s) { auto it = m_.emplace(s, int(m_.size()) + 1); return it.first->second; }
    int find(std::string const& s) const { auto it = m_.find(s); return it == m_.end() ? -1 : it->second; }
    void clear() { m_.clear(); }
};

} // gen
