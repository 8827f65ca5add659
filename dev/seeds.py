"""Planted bugs: id, property, edits to include/nudb, demonstration."""
B = "impl/basic_store.ipp"
R = "impl/recover.ipp"
K = "impl/rekey.ipp"
C = "impl/context.ipp"
H = '#include "demo.hpp"\n'
S = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **kw))


seed("c01-equal-hash", "C01",
     [(B, "                callback(\n                    buf0.get() + s_->kh.key_size, item.size);\n                return;\n            }\n",
       "                callback(\n                    buf0.get() + s_->kh.key_size, item.size);\n                return;\n            }\n            // The entries are unique\n            break;\n")],
     "two keys whose 48-bit hashes are equal, both committed, in one bucket",
     "fetch gives up after the first entry with the hash of the key, the other keys with that hash are reported missing",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    for(int i = 0; i < 4; ++i) CHECK(! db.insert(key(0x1234567890ull << 16, i), "value" + std::to_string(i)));
    db.ctx.flush();
    for(int i = 0; i < 4; ++i) CHECK(db.has(key(0x1234567890ull << 16, i), "value" + std::to_string(i)));
    CHECK(! db.close());
}
''')

seed("c02-cached-chain", "C02",
     [(B, "        auto spill = b.spill();\n        if(lock && lock->owns_lock())\n            lock->unlock();\n        if(! spill)\n            break;\n",
       "        auto spill = b.spill();\n        if(lock && lock->owns_lock())\n        {\n            // a cached bucket already has the newest entries\n            lock->unlock();\n            break;\n        }\n        if(! spill)\n            break;\n")],
     "an insert of a key stored in an overflow record while a commit that changes the same bucket is writing the key file",
     "insert accepts a key that is already in the database",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    // one bucket holds 6 entries; these go to two overflow records
    for(int i = 0; i < 13; ++i) CHECK(! db.insert(key(std::uint64_t(i + 1) << 40, i), "v"));
    db.ctx.flush();
    nudb::error_code r; int seen = 0;
    sim::W().hook = [&](char k, std::string const& p)
    {
        if(k == 'W' && sim::fkind(p) == 'k' && ! seen++)
        {
            std::thread t([&]
            {
                for(int i = 0; i < 13 && (! i || r == nudb::error::key_exists); ++i) r = db.insert(key(std::uint64_t(i + 1) << 40, i), "w");
            });
            t.join();
        }
    };
    CHECK(! db.insert(key(std::uint64_t(77) << 40, 77), "v"));
    db.ctx.flush();
    sim::W().hook = nullptr;
    CHECK(seen);
    CHECK(r == nudb::error::key_exists);
    CHECK(! db.close());
}
''')

seed("c04-data-sync-late", "C04",
     [(B, "    // Finalize the commit\n    s_->df.sync(ec);\n    if(ec)\n        return;\n    s_->kf.sync(ec);\n    if(ec)\n        return;\n    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n    if(ec)\n        return;\n",
       "    // Finalize the commit\n    s_->kf.sync(ec);\n    if(ec)\n        return;\n    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n    if(ec)\n        return;\n    s_->df.sync(ec);\n    if(ec)\n        return;\n")],
     "power loss after the log file was emptied durably and before the data file reached the disk",
     "the key file refers to values which are not in the data file, and there is no log to roll back with",
r'''
int main()
{
    Db<KeyHash>::make();
    std::vector<sim::FS> at;
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(! db.insert(key(1ull << 20, 1), "one"));
        db.ctx.flush();
        sim::W().hook = [&](char, std::string const&) { at.push_back(sim::W().fs.clone()); };
        CHECK(! db.insert(key(1ull << 21, 2), "two"));
        db.ctx.flush();
        sim::W().hook = nullptr;
        CHECK(! db.close());
    }
    for(auto& f : at)
    {
        sim::W().fs = f.clone();
        sim::W().fs.power_loss();
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(db.has(key(1ull << 20, 1), "one"));
        std::string v;
        auto ec = db.fetch(key(1ull << 21, 2), v);
        CHECK((! ec && v == "two") || ec == nudb::error::key_not_found);
        CHECK(! db.close());
    }
}
''')

seed("c05-data-sync-late", "C05",
     [(R, "    df.trunc(lh.dat_file_size, ec);\n    if(ec)\n        return;\n    df.sync(ec);\n    if(ec)\n        return;\n", "    df.trunc(lh.dat_file_size, ec);\n    if(ec)\n        return;\n"),
      (R, "    lf.close();\n    File::erase(log_path, ec);\n", "    lf.close();\n    df.sync(ec);\n    if(ec)\n        return;\n    File::erase(log_path, ec);\n")],
     "power loss during a recovery, after the log was emptied durably and before the shortened data file reached the disk",
     "the data file keeps the tail of the commit that was rolled back and nothing ever removes it",
r"""
int main()
{
    Db<KeyHash>::make();
    std::vector<sim::FS> at, at2;
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(! db.insert(key(1ull << 20, 1), "one"));
        db.ctx.flush();
        sim::W().hook = [&](char k, std::string const&) { at.push_back(sim::W().fs.clone()); };
        CHECK(! db.insert(key(1ull << 21, 2), "two"));
        db.ctx.flush();
        sim::W().hook = nullptr;
        CHECK(! db.close());
    }
    for(auto& f : at)
    {
        sim::W().fs = f.clone();
        // all that was written happens to be on the disk
        for(auto& e : sim::W().fs.files) { e.second->dur = e.second->b; e.second->dirty = false; }
        at2.clear();
        sim::W().hook = [&](char k, std::string const&) { at2.push_back(sim::W().fs.clone()); };
        nudb::error_code ec;
        nudb::recover<KeyHash, sim::File>(D, K, L, ec);
        sim::W().hook = nullptr;
        CHECK(! ec);
        auto const d = sim::W().fs.get(D)->str(), k = sim::W().fs.get(K)->str();
        for(auto& g : at2)
        {
            sim::W().fs = g.clone();
            sim::W().fs.power_loss();
            nudb::recover<KeyHash, sim::File>(D, K, L, ec);
            CHECK(! ec);
            CHECK(sim::W().fs.get(D)->str() == d);
            CHECK(sim::W().fs.get(K)->str() == k);
        }
    }
}
""")

seed("c06-disk-full", "C06",
     [(B, "            commit(m, work, ec_);\n            if(ec_)\n            {\n                ecb_.store(true);\n                return;\n            }\n",
       "            commit(m, work, ec_);\n            if(ec_)\n            {\n                // space may be available again the next time\n                if(ec_ == errc::no_space_on_device)\n                    ec_ = {};\n                else\n                    ecb_.store(true);\n                return;\n            }\n")],
     "a background commit that fails because the disk is full (other errors are handled)",
     "the values of the failed commit are lost although later operations and the close report success",
r'''
int main()
{
    Db<KeyHash>::make();
    auto const fs = sim::W().fs.clone();
    for(int n = 0; n < 40; ++n)
    {
        sim::W().fs = fs.clone();
        bool told = false;
        {
            Db<KeyHash> db;
            CHECK(! db.open());
            CHECK(! db.insert(key(1ull << 20, 1), "one"));
            db.ctx.flush();
            sim::W().code = ENOSPC;
            CHECK(! db.insert(key(1ull << 21, 2), "two"));
            sim::W().armed = true; sim::W().count = 0; sim::W().fail_at = n; sim::W().hit = false;
            db.ctx.flush();
            sim::W().armed = false;
            if(db.insert(key(1ull << 22, 3), "three")) told = true;
            db.ctx.flush();
            if(db.close()) told = true;
        }
        if(! sim::W().hit) break;
        if(told) continue;
        // everything was reported as done, so it must be there
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(db.has(key(1ull << 20, 1), "one"));
        CHECK(db.has(key(1ull << 21, 2), "two"));
        CHECK(db.has(key(1ull << 22, 3), "three"));
        CHECK(! db.close());
    }
}
''')

seed("c10-log-index", "C10",
     [(B, "            write<std::uint64_t>(os, e.first);  // Index\n", "            write<std::uint64_t>(os, e.first + 1);  // Index\n"),
      (R, "                n = static_cast<nsize_t>(v);\n", "                n = static_cast<nsize_t>(v - 1);\n")],
     "a log file read by another implementation, or left by an earlier build of the library",
     "the log records hold the position of the block instead of the documented bucket index",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    std::string log;
    sim::W().hook = [&](char k, std::string const& p) { if(k == 'W' && sim::fkind(p) == 'k' && log.empty()) log = sim::W().fs.get(L)->str(); };
    CHECK(! db.insert(key(1ull << 20, 1), "one"));
    db.ctx.flush();
    sim::W().hook = nullptr;
    CHECK(! db.close());
    CHECK(log.size() >= 62 + 8);
    CHECK(log.substr(62, 8) == std::string(8, '\0'));    // the only bucket is number 0
}
''')

seed("c10-hash-half", "C10",
     [("detail/format.hpp", "    return(h>>16)&0xffffffffffff;", "    return h&0xffffffffffff;")],
     "files read by another implementation, or left by an earlier build of the library",
     "the stored hashes are the lower instead of the upper 48 bits, existing databases become unreadable",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    CHECK(! db.insert(key(0x1122334455667788ull, 1), "one"));
    CHECK(! db.close());
    auto k = sim::W().fs.get(K)->str();
    CHECK(k.substr(128 + 8 + 12, 6) == "\x11\x22\x33\x44\x55\x66");
}
''')

seed("c15-large-record", "C15",
     [("detail/bulkio.hpp", "            std::memcpy(buf.get(),\n                buf_.get() + used_, avail_);\n", "            std::memcpy(buf.get(),\n                buf_.get(), avail_);\n")],
     "a value larger than the read buffer (4 MB) that follows other values",
     "visit delivers wrong bytes for the beginning of the large value",
r'''
int main()
{
    char dir[] = "./visXXXXXX";
    CHECK(mkdtemp(dir));
    std::string d = std::string(dir) + "/d", k = std::string(dir) + "/k", l = std::string(dir) + "/l";
    nudb::error_code ec;
    nudb::create<KeyHash, nudb::native_file>(d, k, l, 1, 2, 3, 16, 4096, .5f, ec);
    CHECK(! ec);
    nudb::context ctx;
    nudb::basic_store<KeyHash, nudb::native_file> st(ctx);
    st.open(d, k, l, ec); CHECK(! ec);
    std::map<std::string, std::string> want;
    for(int i = 0; i < 4; ++i)
    {
        std::string v(i == 2 ? 5000000 : 1000 + i, 0);
        for(std::size_t j = 0; j < v.size(); ++j) v[j] = char(j * 31 + j / 1000 + i);
        auto x = key(std::uint64_t(i + 1) << 30, i);
        st.insert(x.b, v.data(), v.size(), ec); CHECK(! ec);
        want[std::string((char*)x.b, 16)] = v;
    }
    st.close(ec); CHECK(! ec);
    std::size_t n = 0;
    nudb::visit(d, [&](void const* kk, std::size_t ks, void const* p, std::size_t s, nudb::error_code&)
    {
        ++n;
        CHECK(want[std::string((char const*)kk, ks)] == std::string((char const*)p, s));
    }, nudb::no_progress{}, ec);
    CHECK(! ec && n == 4);
}
''')

seed("c12-log-late", "C12",
     [(K, "        write(lf, lh, ec);\n        if(ec)\n            return;\n        lf.sync(ec);\n        if(ec)\n            return;\n    }\n\n    // Create full key file\n",
       "        write(lf, lh, ec);\n        if(ec)\n            return;\n    }\n\n    // Create full key file\n"),
      (K, "                &zero, 1, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n        if(ec)\n            return;\n    }\n",
       "                &zero, 1, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n        if(ec)\n            return;\n        lf.sync(ec);\n        if(ec)\n            return;\n    }\n")],
     "power loss in a rekey after the empty key file became durable and before the log did",
     "recovery takes the empty key file for a finished one, every value of the database is gone",
r'''
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 0; i < 20; ++i) CHECK(! db.insert(key(std::uint64_t(i + 1) << 20, i), "value"));
        CHECK(! db.close());
    }
    sim::File::erase(K, *std::make_shared<nudb::error_code>());
    std::vector<sim::FS> at;
    sim::W().hook = [&](char, std::string const&) { at.push_back(sim::W().fs.clone()); };
    nudb::error_code ec;
    nudb::rekey<KeyHash, sim::File>(D, K, L, 256, .5f, 20, 512, ec, nudb::no_progress{});
    CHECK(! ec);
    sim::W().hook = nullptr;
    for(auto& f : at)
    {
        sim::W().fs = f.clone();
        sim::W().fs.power_loss();
        nudb::error_code e2;
        nudb::recover<KeyHash, sim::File>(D, K, L, e2);
        if(! sim::W().fs.has(K)) continue;       // undone
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 0; i < 20; ++i) CHECK(db.has(key(std::uint64_t(i + 1) << 20, i), "value"));
        CHECK(! db.close());
    }
}
''')

seed("c16-erase-existing", "C16",
     [("impl/create.ipp", "        kf.create(file_mode::append, key_path, ec);\n        if(ec)\n            goto fail;\n        ekf = true;\n",
       "        ekf = true;\n        kf.create(file_mode::append, key_path, ec);\n        if(ec)\n            goto fail;\n")],
     "create with a data file name that is free and a key file name that is taken",
     "create erases a key file that existed before",
r'''
int main()
{
    Db<KeyHash>::make();
    sim::File::erase(D, *std::make_shared<nudb::error_code>());
    auto const k = sim::W().fs.get(K)->str();
    nudb::error_code ec;
    nudb::create<KeyHash, sim::File>(D, K, L, 1, 2, 3, 16, 128, .5f, ec);
    CHECK(ec == nudb::errc::file_exists);
    CHECK(sim::W().fs.has(K) && sim::W().fs.get(K)->str() == k);
    CHECK(! sim::W().fs.has(D));
}
''')

seed("c18-state-after-splice", "C18",
     [(C, "                    // Move everything in waiting_ to flushing_\n                    for(auto store = waiting_.head_; store;\n                        store = store->next_)\n                        store->state_ = store_base::state::flushing;\n                    flushing_.splice(waiting_);\n                }\n\n                when",
       "                    // Move everything in waiting_ to flushing_\n                    flushing_.splice(waiting_);\n                    for(auto store = waiting_.head_; store;\n                        store = store->next_)\n                        store->state_ = store_base::state::flushing;\n                }\n\n                when")],
     "a store that is closed after it was queued for flushing and before a thread picked it up, for example while another store is being flushed",
     "closing takes the store out of the wrong list; the flushing list keeps a dangling pointer",
r'''
int main()
{
    nudb::error_code ec;
    char const* n[2][3] = {{"a.dat", "a.key", "a.log"}, {"b.dat", "b.key", "b.log"}};
    for(auto& f : n)
    {
        nudb::create<KeyHash, sim::File>(f[0], f[1], f[2], 1, 2, 3, 16, 128, .5f, ec); CHECK(! ec);
        sim::File::erase(f[2], ec);
    }
    nudb::context ctx;
    using Store = nudb::basic_store<KeyHash, sim::File>;
    auto a = std::make_unique<Store>(ctx), b = std::make_unique<Store>(ctx);
    a->open(n[0][0], n[0][1], n[0][2], ec); CHECK(! ec);
    b->open(n[1][0], n[1][1], n[1][2], ec); CHECK(! ec);
    a->set_burst(std::size_t(1) << 40); b->set_burst(std::size_t(1) << 40);
    auto x = key(1ull << 30, 1);
    a->insert(x.b, "one", 3, ec); CHECK(! ec);
    b->insert(x.b, "one", 3, ec); CHECK(! ec);
    std::mutex m; std::condition_variable cv; int st = 0; std::string busy;
    sim::W().hook = [&](char k, std::string const& p)
    {
        std::unique_lock<std::mutex> l(m);
        if(k == 'W' && st == 0)
        {
            // one store is being flushed; the other is closed meanwhile
            busy = p.substr(0, 1); st = 1; cv.notify_all();
            cv.wait(l, [&]{ return st == 2; });
        }
    };
    ctx.start();
    {
        std::unique_lock<std::mutex> l(m);
        CHECK(cv.wait_for(l, std::chrono::seconds(20), [&]{ return st == 1; }));
        st = 3;
    }
    // the close commits by itself; the file operations of the two threads must not overlap in the stand-in
    auto& other = busy == "a" ? b : a;
    { std::unique_lock<std::mutex> l(m); st = 3; }
    other->close(ec); CHECK(! ec);
    std::memset((void*)other.get(), 0, 0);
    other.reset();
    { std::unique_lock<std::mutex> l(m); st = 2; cv.notify_all(); }
    std::this_thread::sleep_for(std::chrono::milliseconds(1500));
    (busy == "a" ? a : b)->close(ec); CHECK(! ec);
    ctx.stop_all();
    a.reset(); b.reset();
}
''', flags="-g -fsanitize=address")

seed("c19-log-under-lock", "C19",
     [(B, "    modulus_ = modulus;\n    g_.start();\n    m.unlock();\n", "    modulus_ = modulus;\n    g_.start();\n"),
      (B, "        s_->lf.sync(ec);\n        if(ec)\n            return;\n    }\n    g_.finish();\n", "        s_->lf.sync(ec);\n        if(ec)\n            return;\n    }\n    m.unlock();\n    g_.finish();\n")],
     "a fetch or insert while a commit is writing the log file",
     "fetch and insert wait until the log file has been written and synced",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    CHECK(! db.insert(key(1ull << 20, 1), "one"));
    db.ctx.flush();
    CHECK(! db.insert(key(1ull << 21, 2), "two"));
    std::atomic<int> blocked{0}, done{0};
    std::thread* th = nullptr;
    int logw = 0; bool once = false;
    sim::W().hook = [&](char k, std::string const& p)
    {
        if(k == 'S' && sim::fkind(p) == 'l' && ! once && ++logw == 2)     // the records of the log
        {
            once = true;
            th = new std::thread([&] { done = db.has(key(1ull << 20, 1), "one") ? 1 : 2; });
            for(int i = 0; i < 300 && ! done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
            if(! done) { std::printf("FAILED: fetch waits for the log\n"); std::fflush(stdout); std::_Exit(1); }
        }
    };
    db.ctx.flush();
    CHECK(th); th->join();
    sim::W().hook = nullptr;
    CHECK(done == 1);
    CHECK(! db.close());
}
''')

seed("c20-prefix-compare", "C20",
     [(B, "            if(item.hash != h)\n                break;\n            // Data Record\n            auto const len =", "            if((item.hash >> 16) != (h >> 16))\n                break;\n            // Data Record\n            auto const len =")],
     "keys whose hashes agree in the upper 32 bits and differ in the lower 16",
     "a fetch reads the data records of values whose hash differs from that of the key",
r'''
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    for(int i = 1; i < 6; ++i) CHECK(! db.insert(key((0x11223344ull << 32) | (std::uint64_t(i) << 16), i), std::string(100, 'x')));
    db.ctx.flush();
    int reads = 0;
    sim::W().hook = [&](char k, std::string const& p) { if(k == 'R' && sim::fkind(p) == 'd') ++reads; };
    std::string v;
    CHECK(db.fetch(key((0x11223344ull << 32), 9), v) == nudb::error::key_not_found);
    CHECK(reads == 0);
    sim::W().hook = nullptr;
    CHECK(! db.close());
}
''')

seed("c22-commit-first", "C22",
     [(B, "        open_ = false;\n        ctx_->erase(*this);\n        if(! s_->p1.empty())\n        {\n            std::size_t work;\n            detail::unique_lock_type m{m_};\n            commit(m, work, ec_);\n            if (ec_)\n                ecb_.store(true);\n        }\n        if(ecb_)\n",
       "        open_ = false;\n        {\n            detail::unique_lock_type m{m_};\n            if(! ecb_ && s_->p0.empty() && ! s_->p1.empty())\n            {\n                std::size_t work;\n                commit(m, work, ec_);\n                if (ec_)\n                    ecb_.store(true);\n            }\n        }\n        ctx_->erase(*this);\n        if(ecb_)\n")],
     "a close while a background commit is still appending and values inserted since then are pending",
     "the pending values are never committed although close reports success",
r'''
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(! db.insert(key(1ull << 20, 1), "one"));
        std::thread* th = nullptr; nudb::error_code r;
        std::atomic<int> in{0}; bool once = false;
        sim::W().hook = [&](char k, std::string const& p)
        {
            if(k == 'W' && sim::fkind(p) == 'd' && ! once)
            {
                once = true;
                CHECK(! db.insert(key(1ull << 21, 2), "two"));
                th = new std::thread([&] { in = 1; r = db.close(); });
                while(! in) std::this_thread::yield();
                std::this_thread::sleep_for(std::chrono::milliseconds(300));
            }
        };
        db.ctx.flush();
        CHECK(th); th->join(); CHECK(! r);
        sim::W().hook = nullptr;
    }
    Db<KeyHash> db;
    CHECK(! db.open());
    CHECK(db.has(key(1ull << 20, 1), "one"));
    CHECK(db.has(key(1ull << 21, 2), "two"));
    CHECK(! db.close());
}
''')

seed("c03-cached-unlock", "C03",
     [(B, "    if(iter != s_->c1.end())\n        return fetch(h, key, iter->second, callback, ec);\n    genlock<gentex> g{g_};",
       "    if(iter != s_->c1.end())\n    {\n        // The cached bucket is not modified anymore\n        auto const b = iter->second;\n        m.unlock();\n        return fetch(h, key, b, callback, ec);\n    }\n    genlock<gentex> g{g_};")],
     "a fetch that searches a bucket cached by a commit while this commit and the next one finish",
     "the fetch reads a bucket whose memory was freed",
r'''
int main()
{
    Db<KeyHash>::make(16, 1024);
    Db<KeyHash> db;
    CHECK(! db.open());
    for(int i = 0; i < 6; ++i) CHECK(! db.insert(key(7ull << 40, i), "value" + std::to_string(i)));
    db.ctx.flush();
    std::atomic<int> phase{0}, res{0};
    std::thread t;
    auto const main_id = std::this_thread::get_id();
    sim::W().hook = [&](char k, std::string const& p)
    {
        if(std::this_thread::get_id() == main_id)
        {
            if(k == 'W' && sim::fkind(p) == 'k' && phase == 0)
            {
                phase = 1;
                // compared with each of the values with this hash
                t = std::thread([&] { std::string v; res = db.fetch(key(7ull << 40, 99), v) == nudb::error::key_not_found ? 1 : 2; });
                while(phase < 2) std::this_thread::yield();
            }
        }
        else if(k == 'R' && sim::fkind(p) == 'd' && phase == 1)
        {
            phase = 2;
            // let the commit finish, as far as it can
            for(int i = 0; i < 100 && phase == 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        }
    };
    CHECK(! db.insert(key(9ull << 40, 9), "nine"));
    db.ctx.flush();
    CHECK(! db.insert(key(10ull << 40, 10), "ten"));
    db.ctx.flush();
    phase = 3;
    t.join();
    CHECK(res == 1);
    sim::W().hook = nullptr;
    CHECK(! db.close());
}
''', flags="-g -fsanitize=address")

seed("c03-insert-window", "C03",
     [(B, "    std::lock_guard<std::mutex> u{u_};\n    {\n        shared_lock_type m{m_};\n        if(s_->p1.find(key) != s_->p1.end() ||",
       "    {\n        // One insert at a time looks for the key\n        std::lock_guard<std::mutex> u{u_};\n        shared_lock_type m{m_};\n        if(s_->p1.find(key) != s_->p1.end() ||")],
     "two threads which insert the same key, the second one looking for it while the first is between its search and the insertion",
     "both inserts succeed, the database holds two values for one key",
r'''
int main()
{
    Db<KeyHash>::make();
    int both = 0;
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int r = 0; r < 20000 && ! both; ++r)
        {
            std::atomic<int> go{0};
            nudb::error_code e[2];
            auto f = [&](int i)
            {
                ++go; while(go < 2) ;
                for(int x = 0; x < (r * 7 % 50) * i; ++x) { volatile int y = x; (void)y; }
                e[i] = db.insert(key(std::uint64_t(r + 1) << 20, r), "v");
            };
            std::thread a(f, 0), b(f, 1);
            a.join(); b.join();
            if(! e[0] && ! e[1]) ++both;
            CHECK(! e[0] || ! e[1]);
            if(r % 100 == 0) db.ctx.flush();
        }
        CHECK(! both);
        CHECK(! db.close());
    }
}
''')

seed("c06-undo-append", "C06",
     [(B, "            std::size_t work;\n            commit(m, work, ec_);\n            if(ec_)\n            {\n                ecb_.store(true);\n                return;\n            }\n",
       "            std::size_t work;\n            error_code eu;\n            auto const undo = s_->df.size(eu);\n            commit(m, work, ec_);\n            if(ec_)\n            {\n                ecb_.store(true);\n                // give the space of the failed commit back\n                if(! eu)\n                    s_->df.trunc(undo, eu);\n                return;\n            }\n")],
     "the last file operation of a commit, the sync of the emptied log file, fails",
     "the data file is cut back although the commit is in the key file and can no longer be rolled back",
r'''
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        CHECK(! db.insert(key(1ull << 20, 1), "one"));
        db.ctx.flush();
        CHECK(! db.insert(key(1ull << 21, 2), "two"));
        int n = 0;
        bool trunc = false;
        sim::W().hook = [&](char k, std::string const& p)
        {
            if(k == 'T' && sim::fkind(p) == 'l') trunc = true;
            else if(trunc && k == 'S' && sim::fkind(p) == 'l') { ++n; sim::W().armed = true; sim::W().fail_at = sim::W().count; }
        };
        db.ctx.flush();
        sim::W().hook = nullptr;
        CHECK(n == 1);
        db.close();
    }
    Db<KeyHash> db;
    CHECK(! db.open());
    CHECK(db.has(key(1ull << 20, 1), "one"));
    std::string v;
    auto ec = db.fetch(key(1ull << 21, 2), v);
    CHECK((! ec && v == "two") || ec == nudb::error::key_not_found);
    CHECK(! db.close());
}
''')

seed("c09-frac-local", "C09",
     [(B, "    auto buckets = buckets_;\n    {\n        // Bulk write", "    auto buckets = buckets_;\n    auto frac = frac_;\n    {\n        // Bulk write"),
      (B, "            if((frac_ += 65536) >= thresh_)\n            {\n                // split\n                frac_ -= thresh_;\n", "            if((frac += 65536) >= thresh_)\n            {\n                // split\n                frac -= thresh_;\n                frac_ = frac;\n")],
     "many commits, each with fewer keys than one bucket is added for",
     "the keys inserted since the last split of each commit are not counted, the index grows too slowly or not at all",
r'''
int main()
{
    auto size = [](int per)
    {
        sim::W().fs = sim::FS();
        Db<nudb::xxhasher>::make();
        Db<nudb::xxhasher> db;
        CHECK(! db.open());
        for(int i = 0; i < 240; ++i)
        {
            CHECK(! db.insert(key(i, i), "v"));
            if(i % per == per - 1) db.ctx.flush();
        }
        CHECK(! db.close());
        return sim::W().fs.get(K)->str().size();
    };
    auto const s = size(240);
    CHECK(size(60) == s);
    CHECK(size(1) == s);
    CHECK(size(2) == s);
}
''')

seed("c13-long-chain", "C13",
     [("impl/verify.ipp", "            if(nspill >= info.hist.size())\n                nspill = info.hist.size() - 1;\n            ++info.hist[nspill];\n            info.key_count += nkeys[i];",
       "            if(nspill < info.hist.size())\n                ++info.hist[nspill];\n            info.key_count += nkeys[i];")],
     "a bucket with a chain of more overflow records than the histogram has entries, verified with a buffer",
     "the fast algorithm leaves the bucket out of the histogram, the other one counts it",
r'''
int main()
{
    char dir[] = "./verXXXXXX";
    CHECK(mkdtemp(dir));
    std::string d = std::string(dir) + "/d", k = std::string(dir) + "/k", l = std::string(dir) + "/l";
    nudb::error_code ec;
    nudb::create<KeyHash, nudb::native_file>(d, k, l, 1, 2, 3, 16, 128, .5f, ec);
    CHECK(! ec);
    {
        nudb::context ctx;
        nudb::basic_store<KeyHash, nudb::native_file> st(ctx);
        st.open(d, k, l, ec); CHECK(! ec);
        for(int i = 0; i < 90; ++i)
        {
            auto x = key(std::uint64_t(i + 1) << 40, i);
            st.insert(x.b, "v", 1, ec); CHECK(! ec);
        }
        st.close(ec); CHECK(! ec);
    }
    nudb::verify_info a, b;
    nudb::verify<KeyHash>(a, d, k, 0, nudb::no_progress{}, ec); CHECK(! ec && a.algorithm == 0);
    nudb::verify<KeyHash>(b, d, k, 65536, nudb::no_progress{}, ec); CHECK(! ec && b.algorithm == 1);
    std::size_t na = 0, nb = 0;
    for(std::size_t i = 0; i < a.hist.size(); ++i) { na += a.hist[i]; nb += b.hist[i]; CHECK(a.hist[i] == b.hist[i]); }
    CHECK(na == a.buckets && nb == b.buckets);
}
''')

seed("c14-chunk-counts", "C14",
     [("impl/verify.ipp", "        for(std::size_t i = 0; i < bn; ++i)\n        {\n            if(nkeys[i] != 0)", "        for(std::size_t i = 1; i < bn; ++i)\n        {\n            if(nkeys[i] != 0)")],
     "an additional entry in the first bucket of a chunk of the buffer",
     "verify with a buffer accepts a value that is indexed twice",
r'''
int main()
{
    char dir[] = "./verXXXXXX";
    CHECK(mkdtemp(dir));
    std::string d = std::string(dir) + "/d", k = std::string(dir) + "/k", l = std::string(dir) + "/l";
    nudb::error_code ec;
    nudb::create<KeyHash, nudb::native_file>(d, k, l, 1, 2, 3, 16, 128, .5f, ec);
    CHECK(! ec);
    {
        nudb::context ctx;
        nudb::basic_store<KeyHash, nudb::native_file> st(ctx);
        st.open(d, k, l, ec); CHECK(! ec);
        for(int i = 0; i < 30; ++i)
        {
            auto x = key(std::uint64_t(i) << 16, i);
            st.insert(x.b, "v", 1, ec); CHECK(! ec);
        }
        st.close(ec); CHECK(! ec);
    }
    nudb::verify_info a;
    nudb::verify<KeyHash>(a, d, k, 0, nudb::no_progress{}, ec); CHECK(! ec && a.algorithm == 0);
    nudb::verify<KeyHash>(a, d, k, 65536, nudb::no_progress{}, ec); CHECK(! ec && a.algorithm == 1);
    // duplicate the last entry of the first bucket: count at 128, entries of 18 bytes from 136
    FILE* f = std::fopen(k.c_str(), "r+b"); CHECK(f);
    char e[18], c[2];
    std::fseek(f, 128, SEEK_SET); CHECK(std::fread(c, 1, 2, f) == 2);
    if(c[1] == 0 || c[1] == 6) { std::printf("count %d\n", c[1]); return 1; }
    std::fseek(f, 128 + 8 + 18 * (c[1] - 1), SEEK_SET); CHECK(std::fread(e, 1, 18, f) == 18);
    std::fseek(f, 128 + 8 + 18 * c[1], SEEK_SET); CHECK(std::fwrite(e, 1, 18, f) == 18);
    ++c[1];
    std::fseek(f, 128, SEEK_SET); CHECK(std::fwrite(c, 1, 2, f) == 2);
    std::fclose(f);
    nudb::verify<KeyHash>(a, d, k, 0, nudb::no_progress{}, ec); CHECK(ec);
    ec = {};
    nudb::verify<KeyHash>(a, d, k, 65536, nudb::no_progress{}, ec); CHECK(ec);
}
''')

seed("c17-log-uid", "C17",
     [("detail/format.hpp", "    if(kh.uid != lh.uid)\n    {\n        ec = error::uid_mismatch;\n        return;\n    }\n    if(kh.appnum != lh.appnum)", "    if(kh.appnum != lh.appnum)")],
     "a log file of another database with the same parameters lies beside the files",
     "the log of another database is applied",
r'''
int main()
{
    // two databases which differ only in their uid
    nudb::error_code ec;
    nudb::create<KeyHash, sim::File>("a.dat", "a.key", "a.log", 1, 2, 3, 16, 128, .5f, ec); CHECK(! ec);
    nudb::create<KeyHash, sim::File>("x.dat", "x.key", "x.log", 1, 9, 3, 16, 128, .5f, ec); CHECK(! ec);
    sim::File::erase("a.log", ec); sim::File::erase("x.log", ec);
    {
        nudb::context ctx;
        nudb::basic_store<KeyHash, sim::File> st(ctx);
        st.open("a.dat", "a.key", "a.log", ec); CHECK(! ec); st.set_burst(std::size_t(1) << 40);
        std::shared_ptr<std::string> log;
        sim::W().hook = [&](char k, std::string const& p) { if(k == 'S' && sim::fkind(p) == 'k' && ! log) log = std::make_shared<std::string>(sim::W().fs.get("a.log")->str()); };
        auto x = key(1ull << 30, 1);
        st.insert(x.b, "one", 3, ec); CHECK(! ec);
        ctx.flush();
        sim::W().hook = nullptr;
        st.close(ec); CHECK(! ec);
        CHECK(log && log->size() > 62);
        sim::File f; f.create(nudb::file_mode::append, "x.log", ec); CHECK(! ec);
        {
            Db<KeyHash> db;
            // values of the other database, committed before its log is replaced
            f.close(); sim::File::erase("x.log", ec);
            CHECK(! db.open());
            CHECK(! db.insert(key(1ull << 31, 5), "five"));
            CHECK(! db.close());
        }
        sim::File g; g.create(nudb::file_mode::append, "x.log", ec); CHECK(! ec);
        g.write(0, log->data(), log->size(), ec); CHECK(! ec);
        g.close();
    }
    auto const d = sim::W().fs.get("x.dat")->str(), k = sim::W().fs.get("x.key")->str();
    nudb::recover<KeyHash, sim::File>("x.dat", "x.key", "x.log", ec);
    CHECK(ec == nudb::error::uid_mismatch);
    CHECK(sim::W().fs.get("x.dat")->str() == d && sim::W().fs.get("x.key")->str() == k);
}
''')

seed("c21-short-is-eof", "C21",
     [("impl/posix_file.ipp", "        if(n == 0)\n        {\n            ec = error::short_read;\n            return;\n        }\n        offset += n;\n        bytes -= n;\n        buffer = reinterpret_cast<char*>(buffer) + n;\n",
       "        offset += n;\n        bytes -= n;\n        buffer = reinterpret_cast<char*>(buffer) + n;\n        // less than asked for is left before the end of the file\n        if(n < amount)\n        {\n            if(bytes > 0)\n                ec = error::short_read;\n            return;\n        }\n")],
     "a read that the system answers in pieces, for example after a signal",
     "a short transfer is reported as the end of the file",
r'''
#include <unistd.h>
static int cut;
extern "C" ssize_t __real_pread(int, void*, size_t, off_t);
extern "C" ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { return __real_pread(fd, p, cut && n > 3 ? 3 : n, o); }
extern "C" ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t o) { return __real_pread(fd, p, cut && n > 3 ? 3 : n, o); }
int main()
{
    nudb::posix_file f; nudb::error_code ec;
    f.create(nudb::file_mode::write, "some.file", ec); CHECK(! ec);
    f.write(0, "abcdefghij", 10, ec); CHECK(! ec);
    cut = 1;
    char b[10] = {};
    f.read(0, b, 10, ec); CHECK(! ec);
    CHECK(std::memcmp(b, "abcdefghij", 10) == 0);
}
''', flags="-U_FORTIFY_SOURCE", libs="-Wl,--wrap=pread,--wrap=pread64")


seed("c11-spill-size", "C11",
     [(K, "                is = r.prepare(\n                    field<std::uint16_t>::size, ec);\n                if(ec)\n                    return;\n                read<std::uint16_t>(is, size);  // Size\n                r.prepare(size, ec); // skip\n",
       "                // Only full buckets are spilled\n                r.prepare(field<std::uint16_t>::size +\n                    bucket_size(bucket_capacity(kh.block_size)), ec); // skip\n")],
     "a rekey to another block size of a database with overflow records",
     "the overflow records are skipped by the wrong length, the rest of the data file is misread",
r"""
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int s = 0; s < 3; ++s)
        {
            for(int i = 0; i < 13; ++i) CHECK(! db.insert(key(std::uint64_t(s * 13 + i + 1) << 40, s * 13 + i), "value"));
            db.ctx.flush();
        }
        CHECK(! db.close());
    }
    for(std::size_t bs : {128, 256, 4096})
    {
        sim::File::erase(K, *std::make_shared<nudb::error_code>());
        nudb::error_code ec;
        nudb::rekey<KeyHash, sim::File>(D, K, L, bs, .5f, 39, 1 << 20, ec, nudb::no_progress{});
        CHECK(! ec);
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 0; i < 39; ++i) CHECK(db.has(key(std::uint64_t(i + 1) << 40, i), "value"));
        CHECK(! db.close());
    }
}
""")

seed("c07-cached-size", "C07",
     [("basic_store.hpp", "        std::size_t rate = 0;\n", "        noff_t size = 0;        // Size of the data file, 0 if unknown\n        std::size_t rate = 0;\n"),
      (B, "    lh.dat_file_size = s_->df.size(ec);     // Data File Size\n    if(ec)\n        return;\n",
       "    // Data File Size\n    lh.dat_file_size = s_->size ? s_->size : s_->df.size(ec);\n    if(ec)\n        return;\n"),
      (B, "            write(os, e.first.data, e.first.size);      // Data\n        }\n", "            write(os, e.first.data, e.first.size);      // Data\n        }\n        s_->size = w.offset();\n")],
     "a crash during the second commit of a session whose first commit made overflow records",
     "the rollback cuts the data file shorter than it was after the first commit, off go the overflow records of a completed commit",
r'''
int main()
{
    Db<KeyHash>::make();
    std::vector<sim::FS> at;
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        // one bucket holds 6 entries; these need overflow records
        for(int i = 0; i < 13; ++i) CHECK(! db.insert(key(std::uint64_t(i + 1) << 40, i), "value"));
        db.ctx.flush();
        sim::W().hook = [&](char, std::string const&) { at.push_back(sim::W().fs.clone()); };
        CHECK(! db.insert(key(1ull << 21, 77), "two"));
        db.ctx.flush();
        sim::W().hook = nullptr;
        CHECK(! db.close());
    }
    CHECK(at.size() > 5);
    auto const d0 = at[0].get(D)->str();
    for(auto& f : at)
    {
        sim::W().fs = f.clone();
        sim::W().fs.power_loss();
        Db<KeyHash> db;
        CHECK(! db.open());
        auto const d = sim::W().fs.get(D)->str();
        CHECK(d.compare(0, d0.size(), d0) == 0);
        for(int i = 0; i < 13; ++i) CHECK(db.has(key(std::uint64_t(i + 1) << 40, i), "value"));
        CHECK(! db.close());
    }
}
''')

seed("c12-undo-nosync", "C12",
     [(R, "    df.trunc(lh.dat_file_size, ec);\n    if(ec)\n        return;\n    df.sync(ec);\n    if(ec)\n        return;\n",
       "    if(dataFileSize != lh.dat_file_size || lh.key_file_size != 0)\n    {\n        df.trunc(lh.dat_file_size, ec);\n        if(ec)\n            return;\n        df.sync(ec);\n        if(ec)\n            return;\n    }\n")],
     "a recovery of an interrupted rekey killed after it cut the data file back and before the sync, run again, and a power loss after that",
     "the second recovery sees the right size and syncs nothing; the data file keeps the overflow records of the rekey that was undone",
r"""
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 0; i < 20; ++i) CHECK(! db.insert(key(std::uint64_t(i + 1) << 20, i), "value"));
        CHECK(! db.close());
    }
    sim::File::erase(K, *std::make_shared<nudb::error_code>());
    auto const d0 = sim::W().fs.get(D)->str();
    std::vector<sim::FS> at, at2;
    sim::W().hook = [&](char, std::string const&) { at.push_back(sim::W().fs.clone()); };
    nudb::error_code ec;
    nudb::rekey<KeyHash, sim::File>(D, K, L, 128, .9f, 1, 512, ec, nudb::no_progress{});
    CHECK(! ec);
    sim::W().hook = nullptr;
    CHECK(sim::W().fs.get(D)->size() > d0.size());
    for(auto& f : at)
    {
        if(! f.has(L)) continue;
        sim::W().fs = f.clone();
        for(auto& e : sim::W().fs.files) { e.second->dur = e.second->b; e.second->dirty = false; }
        at2.clear();
        sim::W().hook = [&](char, std::string const&) { at2.push_back(sim::W().fs.clone()); };
        nudb::error_code e1;
        nudb::recover<KeyHash, sim::File>(D, K, L, e1);
        sim::W().hook = nullptr;
        for(auto& g : at2)
        {
            sim::W().fs = g.clone();                 // killed here
            nudb::error_code e2, e3;
            if(sim::W().fs.has(K)) nudb::recover<KeyHash, sim::File>(D, K, L, e2);
            sim::W().fs.power_loss();
            if(sim::W().fs.has(K)) nudb::recover<KeyHash, sim::File>(D, K, L, e3);
            if(! sim::W().fs.has(K)) CHECK(sim::W().fs.get(D)->str() == d0);
        }
    }
}
""")

seed("c05-skip-clean", "C05",
     [(R, "        buffer buf{kh.block_size};\n        bucket b{kh.block_size, buf.get()};\n", "        buffer buf{kh.block_size};\n        buffer cur{kh.block_size};\n        bucket b{kh.block_size, buf.get()};\n"),
      (R, "    bool eraseKeyFile = false;\n", "    bool eraseKeyFile = false;\n    bool changed = false;\n"),
      (R, "            b.write(kf, static_cast<noff_t>(n + 1) * kh.block_size, ec);\n            if(ec)\n                return;\n",
       "            // Buckets the commit did not get to are left alone\n            auto const at = static_cast<noff_t>(n + 1) * kh.block_size;\n            kf.read(at, cur.get(), kh.block_size, ec);\n            if(ec)\n                return;\n            if(std::memcmp(cur.get(), buf.get(), b.actual_size()) == 0)\n                continue;\n            changed = true;\n            b.write(kf, at, ec);\n            if(ec)\n                return;\n"),
      (R, "        kf.trunc(lh.key_file_size, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n        if(ec)\n            return;\n",
       "        if(keyFileSize != lh.key_file_size)\n        {\n            changed = true;\n            kf.trunc(lh.key_file_size, ec);\n            if(ec)\n                return;\n        }\n        if(changed)\n        {\n            kf.sync(ec);\n            if(ec)\n                return;\n        }\n")],
     "a recovery killed after it wrote the buckets and before it synced them, then run again, and a power loss after that",
     "the second recovery finds the buckets restored, syncs nothing and removes the log; the power loss brings half a commit back",
r'''
int main()
{
    Db<KeyHash>::make();
    std::vector<sim::FS> at, at2;
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 0; i < 4; ++i) CHECK(! db.insert(key(std::uint64_t(i + 1) << 20, i), "one"));
        db.ctx.flush();
        sim::W().hook = [&](char, std::string const&) { at.push_back(sim::W().fs.clone()); };
        CHECK(! db.insert(key(1ull << 30, 5), "two"));
        db.ctx.flush();
        sim::W().hook = nullptr;
        CHECK(! db.close());
    }
    for(auto& f : at)
    {
        sim::W().fs = f.clone();
        // power loss when all that was written is on the disk
        for(auto& e : sim::W().fs.files) { e.second->dur = e.second->b; e.second->dirty = false; }
        at2.clear();
        sim::W().hook = [&](char, std::string const&) { at2.push_back(sim::W().fs.clone()); };
        nudb::error_code ec;
        nudb::recover<KeyHash, sim::File>(D, K, L, ec);
        sim::W().hook = nullptr;
        CHECK(! ec);
        auto const d = sim::W().fs.get(D)->str(), k = sim::W().fs.get(K)->str();
        for(auto& g : at2)
        {
            sim::W().fs = g.clone();                 // killed here
            nudb::recover<KeyHash, sim::File>(D, K, L, ec);
            CHECK(! ec);
            sim::W().fs.power_loss();
            nudb::recover<KeyHash, sim::File>(D, K, L, ec);
            CHECK(! ec);
            CHECK(sim::W().fs.get(D)->str() == d);
            CHECK(sim::W().fs.get(K)->str() == k);
        }
    }
}
''')

T_H = r"""
#include <sys/stat.h>
#include <sys/wait.h>
using XStore = nudb::basic_store<nudb::xxhasher, nudb::native_file>;
static int tool(std::string const& args, std::string& out)
{
    out.clear();
    FILE* p = popen(("./nudb " + args + " 2>&1").c_str(), "r"); CHECK(p);
    char b[4096]; std::size_t n;
    while((n = std::fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
    int const s = pclose(p);
    CHECK(WIFEXITED(s));
    return WEXITSTATUS(s);
}
"""

seed("c23-sizes-gap", "C23",
     [("_experimental/util.hpp", "    for(n = hist.size() - 1; n > 0; --n)\n        if(hist[n])\n            break;\n",
       "    // up to the last bin in use\n    for(n = 0; n < hist.size() - 1; ++n)\n        if(hist[n] && ! hist[n + 1])\n            break;\n")],
     "sizes of values (or lengths of chains) with a gap between them",
     "visit and verify leave out the part of the histogram after the first gap",
T_H + r"""
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, nudb::native_file>("x.dat", "x.key", "x.log", 1, 2, 3, 8, 4096, .5f, ec); CHECK(! ec);
    {
        nudb::context ctx; XStore st(ctx);
        st.open("x.dat", "x.key", "x.log", ec); CHECK(! ec);
        std::string v(1000, 'v');
        st.insert("aaaaaaaa", v.data(), 4, ec); CHECK(! ec);
        st.insert("bbbbbbbb", v.data(), 9, ec); CHECK(! ec);
        st.insert("cccccccc", v.data(), 1000, ec); CHECK(! ec);
        st.close(ec); CHECK(! ec);
    }
    std::string o;
    CHECK(tool("visit x.dat", o) == 0);
    CHECK(o.find("0, 0, 1, 1, 0, 0, 0, 0, 0, 1\n") != std::string::npos);
}
""", tool=1)

seed("c23-recover-status", "C23",
     [("../../tools/nudb.cpp", "        if(ec)\n        {\n            std::cerr << \"recover: \" << ec.message() << \"\\n\";\n            return EXIT_FAILURE;\n        }\n",
       "        // without a key file there is nothing to roll back\n        if(ec && ec != nudb::error::no_key_file)\n        {\n            std::cerr << \"recover: \" << ec.message() << \"\\n\";\n            return EXIT_FAILURE;\n        }\n")],
     "recover on a key file which is empty or shorter than its header",
     "recover prints nothing and exits with success although the database can not be used",
T_H + r"""
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, nudb::native_file>("x.dat", "x.key", "x.log", 1, 2, 3, 8, 4096, .5f, ec); CHECK(! ec);
    {
        nudb::context ctx; XStore st(ctx);
        st.open("x.dat", "x.key", "x.log", ec); CHECK(! ec);
        st.insert("aaaaaaaa", "vvvv", 4, ec); CHECK(! ec);
        st.close(ec); CHECK(! ec);
    }
    std::string o;
    CHECK(tool("recover x.dat x.key x.log", o) == 0);
    CHECK(std::fopen("x.log", "w"));
    CHECK(std::fopen("x.key", "w"));
    CHECK(tool("recover x.dat x.key x.log", o) != 0);
    CHECK(tool("verify x.dat x.key", o) != 0);
}
""", tool=1)

seed("c23-rekey-block", "C23",
     [("../../tools/nudb.cpp", "            block_size(kp), 0.5f, itemCount,\n                bufferSize, ec, p);", "            block_size(kp), 0.5f, itemCount,\n                bufferSize, ec, p);\n        // A key file is there already\n        if(ec == errc::file_exists)\n            ec = {};")],
     "rekey where a key file or a log file exists already",
     "the tool reports success for a rekey that was refused",
T_H + r"""
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, nudb::native_file>("x.dat", "x.key", "x.log", 1, 2, 3, 8, 4096, .5f, ec); CHECK(! ec);
    {
        nudb::context ctx; XStore st(ctx);
        st.open("x.dat", "x.key", "x.log", ec); CHECK(! ec);
        st.insert("aaaaaaaa", "vvvv", 4, ec); CHECK(! ec);
        st.close(ec); CHECK(! ec);
    }
    std::string o;
    CHECK(std::rename("x.key", "y.key") == 0);
    CHECK(tool("rekey x.dat x.key x.log --count=1 --buffer=65536", o) == 0);
    CHECK(tool("verify x.dat x.key", o) == 0);
    CHECK(tool("rekey x.dat x.key x.log --count=1 --buffer=65536", o) != 0);
}
""", tool=1)

P_H = r"""
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static std::atomic<int> delays{0};
extern "C" int nanosleep(struct timespec const*, struct timespec*) { ++delays; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*) { ++delays; return 0; }
static void slow(char k, std::string const&) { if(k == 'W') { struct timespec t{0, 10000000}; syscall(SYS_nanosleep, &t, nullptr); } }
"""

seed("c24-first-rate", "C24",
     [(B, "            if (work > s_->burst)\n                s_->rate = rate;", "            // any estimate is better than none\n            if (work > s_->burst || ! s_->rate)\n                s_->rate = rate;")],
     "a first commit of less than the burst size, and then more than the burst size at once",
     "writers are delayed by a rate that only shows the overhead of a small commit",
P_H + r"""
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    db.st.set_burst(100000);
    sim::W().hook = slow;
    CHECK(! db.insert(key(1ull << 40, 1), "v"));
    db.ctx.flush();
    for(int i = 2; i < 8; ++i) CHECK(! db.insert(key(std::uint64_t(i) << 40, i), std::string(50000, 'v')));
    CHECK(delays == 0);
    db.ctx.flush();
    // a commit of more than that is measured
    for(int i = 12; i < 18; ++i) CHECK(! db.insert(key(std::uint64_t(i) << 40, i), std::string(50000, 'v')));
    CHECK(delays > 0);
    sim::W().hook = nullptr;
    CHECK(! db.close());
}
""")

seed("c24-count-stays", "C24",
     [("detail/pool.hpp", "    swap(lhs.data_size_, rhs.data_size_);\n", "")],
     "large values inserted faster than they are committed, with few keys",
     "the bytes of values are not counted for a commit, writers that outrun the disk are not delayed",
P_H + r"""
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    db.st.set_burst(100000);
    sim::W().hook = slow;
    for(int i = 1; i < 4; ++i) CHECK(! db.insert(key(std::uint64_t(i) << 40, i), std::string(80000, 'v')));
    db.ctx.flush();
    CHECK(delays == 0);
    for(int i = 11; i < 17; ++i) CHECK(! db.insert(key(std::uint64_t(i) << 40, i), std::string(40000, 'v')));
    CHECK(delays > 0);
    sim::W().hook = nullptr;
    CHECK(! db.close());
}
""")

seed("c24-arena-total", "C24",
     [("detail/arena.hpp", "    used_ = 0;\n    while(list_)", "    while(list_)")],
     "a store open for longer than half a second, with commits of several values",
     "the arena takes everything ever inserted for the current rate, the memory of one pending value grows without limit",
r"""
#include <malloc.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static std::atomic<long> largest{0};
void* operator new[](std::size_t n) { if((long)n > largest) largest = n; void* p = std::malloc(n); if(! p) throw std::bad_alloc{}; return p; }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
static std::atomic<long long> ms{1000000};
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = ms / 1000; t->tv_nsec = ms % 1000 * 1000000; return 0; }
int main()
{
    Db<KeyHash>::make();
    Db<KeyHash> db;
    CHECK(! db.open());
    int n = 0;
    for(int r = 0; r < 40; ++r)
    {
        for(int i = 0; i < 10; ++i) { ++n; CHECK(! db.insert(key(std::uint64_t(n) << 40, n), std::string(1000, 'v'))); }
        db.ctx.flush();
        ms += 600;
        db.ctx.flush();
    }
    largest = 0;
    CHECK(! db.insert(key(1ull << 30, 0), "small"));
    CHECK(largest < 100000);
    CHECK(! db.close());
}
""")

seed("c25-rekey-progress", "C25",
     [("impl/rekey.ipp", "            progress((b0 / chunkSize) * dataFileSize + r.offset(), nwork);", "            // the passes before this one\n            progress((b1 / chunkSize) * dataFileSize + r.offset(), nwork);")],
     "a rekey whose buffer holds only a part of the buckets",
     "the progress of a rekey of several passes starts in the middle and exceeds the total",
r"""
int main()
{
    Db<KeyHash>::make();
    {
        Db<KeyHash> db;
        CHECK(! db.open());
        for(int i = 1; i < 40; ++i) CHECK(! db.insert(key(std::uint64_t(i) * 0x9e3779b97f4a7c15ull, i), std::string(100, 'v')));
        CHECK(! db.close());
    }
    for(std::size_t buf : {100000, 300, 1000})
    {
        sim::W().fs.files.erase(K);
        std::uint64_t last = 0, total = 0, n = 0;
        nudb::error_code ec;
        nudb::rekey<KeyHash, sim::File>(D, K, L, 128, 0.5f, 40, buf, ec, [&](std::uint64_t p, std::uint64_t q)
        {
            CHECK(p <= q && p >= last && (n == 0 || q == total) && (n > 0 || p == 0));
            last = p; total = q; ++n;
        });
        CHECK(! ec && n > 30);
    }
}
""")

A_H = r"""
// a File which needs its argument to work
static int bad, openErased;
static std::map<std::string, int> opened;
class AFile : public sim::File
{
    int* a_ = nullptr; std::string p_;
public:
    AFile() = default;
    explicit AFile(int& a) : a_(&a) {}
    AFile(AFile&& o) noexcept : sim::File(std::move(o)), a_(o.a_), p_(o.p_) { o.p_.clear(); }
    AFile& operator=(AFile&& o) noexcept { close(); sim::File::operator=(std::move(o)); a_ = o.a_; p_ = o.p_; o.p_.clear(); return *this; }
    ~AFile() { close(); }
    void close() { if(! p_.empty()) --opened[p_]; p_.clear(); sim::File::close(); }
    void create(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { if(! a_) ++bad; sim::File::create(m, p, ec); if(! ec) { p_ = p; ++opened[p_]; } }
    void open(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { if(! a_) ++bad; sim::File::open(m, p, ec); if(! ec) { p_ = p; ++opened[p_]; } }
    static void erase(nudb::path_type const& p, nudb::error_code& ec) { if(opened[p]) ++openErased; sim::File::erase(p, ec); }
};
using AStore = nudb::basic_store<KeyHash, AFile>;
static int session(bool fail)
{
    int token = 1;
    nudb::context ctx;
    AStore st(ctx);
    nudb::error_code ec;
    st.open(D, K, L, ec, token);
    CHECK(! ec);
    for(int i = 1; i < 20; ++i) { auto k = key(std::uint64_t(i) << 50, i + 100 * fail); st.insert(k.b, "value", 5, ec); CHECK(! ec); }
    if(fail) sim::W().hook = [](char k, std::string const& p) { if(k == 'W' && p == D) { sim::W().armed = true; sim::W().fail_at = sim::W().count; sim::W().fail_on = true; } };
    st.close(ec);
    CHECK(fail == !! ec);
    return 0;
}
static void create()
{
    int token = 1;
    nudb::error_code ec;
    nudb::create<KeyHash, AFile>(D, K, L, 1, 2, 3, 16, 256, 0.5f, ec, token);
    CHECK(! ec);
}
"""

seed("c25-close-erase", "C25",
     [(B, "        s_->lf.close();\n        state s{std::move(*s_)};\n        File::erase(s.lp, ec_);", "        // closes the files when done\n        state s{std::move(*s_)};\n        File::erase(s.lp, ec_);")],
     "a File whose erase, as on Windows, cannot delete a file which is open",
     "close deletes the log file while it is open",
A_H + r"""
int main()
{
    create();
    session(false);
    CHECK(bad == 0 && openErased == 0);
}
""")

seed("c25-recover-args", "C25",
     [("impl/recover.ipp", "    File lf{args...};", "    File lf;")],
     "a File type that needs its constructor arguments, and a log file left by a process that failed",
     "recover opens the log file through a File constructed without the arguments given",
A_H + r"""
int main()
{
    create();
    session(true);
    sim::W().hook = nullptr; sim::W().armed = false; sim::W().fail_on = false;
    int token = 1;
    nudb::error_code ec;
    nudb::recover<KeyHash, AFile>(D, K, L, ec, token);
    CHECK(! ec);
    CHECK(bad == 0 && openErased == 0);
}
""")
