// Reader of NuDB files written from the documentation (README.md, "File layout"),
// independent of the library's own serialization code.
#pragma once
#include "sim.hpp"
#include "gen.hpp"
#include "util.hpp"
#include <unordered_map>

namespace dec {

inline std::uint64_t be(std::string const& s, std::size_t o, int n)
{
    std::uint64_t v = 0;
    for(int i = 0; i < n; ++i) v = (v << 8) | (unsigned char)s[o + i];
    return v;
}

struct Ent { std::uint64_t off, size, hash; };
struct Bkt { std::uint64_t off = 0; std::uint64_t count = 0, next = 0; std::vector<Ent> e; bool padzero = true; };
struct Rec { std::uint64_t off = 0; std::uint64_t size = 0; std::string key; std::uint64_t hash = 0; std::uint64_t shift = 0; };
struct Spl { std::uint64_t off = 0; std::uint64_t bytes = 0; Bkt b; std::uint64_t shift = 0; };   // off: start of the bucket inside

struct DatH { bool ok = false; std::uint64_t ver = 0, uid = 0, app = 0, ks = 0; bool reserved0 = true; std::string type; };
struct KeyH { bool ok = false; std::uint64_t ver = 0, uid = 0, app = 0, ks = 0, salt = 0, pepper = 0, bs = 0, lf = 0; bool reserved0 = true; std::string type; };

struct Img
{
    DatH dh; KeyH kh;
    std::uint64_t dsz = 0, ksz = 0;
    std::uint64_t cap = 0, nb = 0, ktail = 0;
    std::uint64_t shift = 0;          // length of skipped preset records: offsets are reported without them
    bool dtail = false;               // bytes after the last complete record
    std::vector<Rec> recs;
    std::vector<Spl> spl;
    std::vector<Bkt> bk;
    bool wide = false;                // very many buckets: only those which are not zero are in bk
    std::vector<std::uint64_t> bi;    // their numbers
    std::unordered_map<std::uint64_t, int> recAt, splAt;   // 1-based
};

inline DatH dat_header(sim::Blob const& d)
{
    DatH h;
    if(d.size() < 92) return h;
    auto s = d.str(0, 92);
    h.type = s.substr(0, 8); h.ver = be(s, 8, 2); h.uid = be(s, 10, 8); h.app = be(s, 18, 8); h.ks = be(s, 26, 2);
    for(int i = 28; i < 92; ++i) if(s[i]) h.reserved0 = false;
    h.ok = h.type == "nudb.dat" && h.ver == 2;
    return h;
}
inline KeyH key_header(sim::Blob const& d)
{
    KeyH h;
    if(d.size() < 104) return h;
    auto s = d.str(0, 104);
    h.type = s.substr(0, 8); h.ver = be(s, 8, 2); h.uid = be(s, 10, 8); h.app = be(s, 18, 8); h.ks = be(s, 26, 2);
    h.salt = be(s, 28, 8); h.pepper = be(s, 36, 8); h.bs = be(s, 44, 2); h.lf = be(s, 46, 2);
    for(int i = 48; i < 104; ++i) if(s[i]) h.reserved0 = false;
    h.ok = h.type == "nudb.key" && h.ver == 2;
    return h;
}

inline Bkt bucket(std::string const& s, std::uint64_t cap, bool full)
{
    Bkt b;
    b.count = be(s, 0, 2); b.next = be(s, 2, 6);
    std::uint64_t n = std::min<std::uint64_t>(b.count, (s.size() - 8) / 18);
    for(std::uint64_t i = 0; i < n; ++i)
        b.e.push_back(Ent{be(s, 8 + 18 * i, 6), be(s, 14 + 18 * i, 6), be(s, 20 + 18 * i, 6)});
    (void)cap;
    if(full) for(std::size_t i = 8 + 18 * n; i < s.size(); ++i) if(s[i]) b.padzero = false;
    return b;
}

// skip: the key of a preset huge record that is not part of the database
inline Img decode(sim::Blob const& d, sim::Blob const* k, int hash_mode, std::size_t maxrec = 1 << 20, std::string const& skip = std::string())
{
    Img m;
    m.dsz = d.size();
    m.dh = dat_header(d);
    if(k) { m.ksz = k->size(); m.kh = key_header(*k); }
    std::uint64_t o = 92;
    while(o < m.dsz)
    {
        if(m.recs.size() + m.spl.size() > maxrec) { m.dtail = true; break; }
        if(o + 6 > m.dsz) { m.dtail = true; break; }
        auto h = d.str(o, 6);
        auto sz = be(h, 0, 6);
        if(sz)
        {
            if(o + 6 + m.dh.ks + sz > m.dsz) { m.dtail = true; break; }
            Rec r; r.off = o; r.size = sz; r.key = d.str(o + 6, m.dh.ks);
            if(! skip.empty() && r.key == skip) { m.shift += 6 + m.dh.ks + sz; o += 6 + m.dh.ks + sz; continue; }
            r.shift = m.shift;
            r.hash = (gen::ctl_hash(hash_mode, r.key.data(), r.key.size(), m.kh.salt) >> 16) & 0xffffffffffffull;
            m.recs.push_back(r);
            m.recAt[o] = (int)m.recs.size();
            o += 6 + m.dh.ks + sz;
        }
        else
        {
            if(o + 8 > m.dsz) { m.dtail = true; break; }
            auto bsz = be(d.str(o + 6, 2), 0, 2);
            if(o + 8 + bsz > m.dsz || bsz < 8) { m.dtail = true; break; }
            Spl s; s.off = o + 8; s.bytes = bsz; s.shift = m.shift;
            s.b = bucket(d.str(o + 8, bsz), 0, false);
            m.spl.push_back(s);
            m.splAt[s.off] = (int)m.spl.size();
            o += 8 + bsz;
        }
    }
    if(k && m.kh.bs >= 26)
    {
        m.cap = (m.kh.bs - 8) / 18;
        if(m.ksz >= m.kh.bs) { m.nb = (m.ksz - m.kh.bs) / m.kh.bs; m.ktail = m.ksz % m.kh.bs; }
        m.wide = m.nb > 8192;
        for(std::uint64_t i = 0; i < m.nb; ++i)
        {
            if(m.wide)
            {
                auto p = k->next((i + 1) * m.kh.bs);
                if(p > (i + 1) * m.kh.bs) i = p / m.kh.bs - 1;
                if(i >= m.nb) break;
                auto s = k->str((i + 1) * m.kh.bs, m.kh.bs);
                if(s.find_first_not_of(std::string(1, '\0')) == std::string::npos) continue;
                m.bi.push_back(i);
                if(m.bi.size() > maxrec) break;
            }
            m.bk.push_back(bucket(k->str((i + 1) * m.kh.bs, m.kh.bs), m.cap, true));
        }
    }
    return m;
}

inline void put_bkt(util::J& j, Img const& m, Bkt const& b)
{
    j.open('{').key("n").v(util::clamp31(b.count));
    int nx = 0;
    if(b.next) { auto it = m.splAt.find(b.next); nx = it == m.splAt.end() ? -1 : it->second; }
    j.key("x").v(nx).key("e").open('[');
    for(auto& e : b.e)
    {
        auto it = m.recAt.find(e.off);
        j.open('[').v(it == m.recAt.end() ? 0 : it->second).v(util::clamp31(e.size))
            .v((long long)(e.hash >> 24)).v((long long)(e.hash & 0xffffff)).close(']');
    }
    j.close(']').close('}');
}

// Structure of the files, offsets resolved to record numbers
inline void put(util::J& j, Img const& m, gen::Intern const& keys,
    std::function<int(Rec const&)> const& vid)
{
    j.open('{').key("nb").v(util::clamp31(m.nb)).key("cap").v(util::clamp31(m.cap))
        .key("bs").v(util::clamp31(m.kh.bs)).key("lf").v(util::clamp31(m.kh.lf)).key("ks").v(util::clamp31(m.dh.ks))
        .key("dsz").v(util::clamp31(m.dsz - m.shift)).key("ksz").v(util::clamp31(m.ksz)).key("ktail").v(util::clamp31(m.ktail)).key("dtail").b(m.dtail);
    j.key("recs").open('[');
    for(auto& r : m.recs)
        j.open('[').v(keys.find(r.key)).v(vid(r)).v(util::clamp31(r.size))
            .v((long long)(r.hash >> 24)).v((long long)(r.hash & 0xffffff)).v(util::clamp31(r.off - r.shift)).close(']');
    j.close(']').key("spl").open('[');
    for(auto& s : m.spl) put_bkt(j, m, s.b);
    j.close(']').key("splz").open('[');
    for(auto& s : m.spl) j.v(util::clamp31(s.bytes));
    j.close(']').key("spo").open('[');
    for(auto& s : m.spl) j.v(util::clamp31(s.off - s.shift));
    j.close(']').key("bk").open('[');
    for(auto& b : m.bk) put_bkt(j, m, b);
    if(m.wide)
    {
        j.close(']').key("bi").open('[');
        for(auto i : m.bi) j.v(util::clamp31(i));
    }
    j.close(']').key("pad").b([&]{ for(auto& b : m.bk) if(! b.padzero) return false; return true; }());
    j.close('}');
}

} // dec
