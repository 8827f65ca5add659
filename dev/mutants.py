B = "impl/basic_store.ipp"
M = [
 ("split-nochain-b1", B, "                    maybe_spill(b1, w, ec);\n                    if(ec)\n                        return;\n                    b1.insert", "                    b1.insert", ["C08", "C01"]),
 ("split-keep-spill", B, "        b1.spill(0);\n", "", ["C08", "C13"]),
 ("frac-gt", B, "if((frac_ += 65536) >= thresh_)", "if((frac_ += 65536) > thresh_)", []),
 ("frac-reset", B, "frac_ -= thresh_;", "frac_ = 0;", ["C09"]),
 ("frac-per-commit", B, "        for(auto const& e : s_->p0)\n        {\n            // VFALCO Should this be >= or > ?", "        frac_ = thresh_ / 2;\n        for(auto const& e : s_->p0)\n        {\n            // VFALCO Should this be >= or > ?", ["C09"]),
 ("fetch-p0", B, "            iter = s_->p0.find(key);\n            if(iter == s_->p0.end())\n                goto cont;", "                goto cont;", []),
 ("exists-no-spill", B, "        if(! spill)\n            break;\n        b = bucket(s_->kh.block_size, pb);", "        if(! spill || b.size() > 6)\n            break;\n        b = bucket(s_->kh.block_size, pb);", ["C02", "C08"]),
 ("exists-first-hash", B, "            if(std::memcmp(pk, key, s_->kh.key_size) == 0)\n                return true;", "            return std::memcmp(pk, key, s_->kh.key_size) == 0;", ["C02"]),
 ("exists-no-key", B, "            if(std::memcmp(pk, key, s_->kh.key_size) == 0)\n                return true;", "            return true;", ["C02", "C01"]),
 ("off32", B, "b.read(s_->kf, (n + 1) * b.block_size(), ec);", "b.read(s_->kf, static_cast<std::uint32_t>((n + 1) * b.block_size()), ec);", ["C01"]),
 ("ins-off32", B, "static_cast<noff_t>(n + 1) * s_->kh.block_size, ec);\n            if(ec)\n                return;\n            auto const found", "static_cast<std::uint32_t>((n + 1) * s_->kh.block_size), ec);\n            if(ec)\n                return;\n            auto const found", ["C02"]),
 ("load-off32", B, "static_cast<noff_t>(n + 1) * s_->kh.block_size, ec);\n    if(ec)\n        return {};", "static_cast<std::uint32_t>((n + 1) * s_->kh.block_size), ec);\n    if(ec)\n        return {};", ["C01"]),
 ("cap-plus", "detail/bucket.hpp", "return size_ >=\n            detail::bucket_capacity(block_size_);", "return size_ >=\n            detail::bucket_capacity(block_size_) - 1;", []),
 ("lower-bound", "detail/bucket.hpp", "if(h1 < h)", "if(h1 <= h)", ["C01", "C08"]),
 ("erase-last", "detail/bucket.hpp", "if(i < size_)\n        std::memmove", "if(i + 1 < size_)\n        std::memmove", []),
 ("bulk-buffer-eq", "detail/bulkio.hpp", "if(used_ + needed > buf_.size())", "if(used_ + needed > buf_.size() + 1)", ["C01"]),
 ("bulk-offset", "detail/bulkio.hpp", "if(needed > buf_.size())\n        buf_.reserve(needed);\n    ostream", "if(needed > 4 * buf_.size())\n        buf_.reserve(needed);\n    ostream", ["C01"]),
 ("spill-flush", B, "if(spill + bucket_size(s_->kh.capacity) >\n               w.offset() - w.size())", "if(spill > w.offset())", ["C08", "C01"]),
 ("kf-tail", "detail/bucket.hpp", "f.write(offset, p_, block_size_, ec);", "f.write(offset, p_, actual_size(), ec);", ["C09", "C08"]),
 ("pad-garbage", "detail/bucket.hpp", "std::memset(p_ + size, 0, block_size_ - size);", "", ["C08"]),
 ("fetch-twice-read", B, "    b.read(s_->kf, (n + 1) * b.block_size(), ec);\n", "    b.read(s_->kf, (n + 1) * b.block_size(), ec);\n    if(! ec && b.spill()) b.read(s_->kf, (n + 1) * b.block_size(), ec);\n", ["C20"]),
 ("fetch-no-hash", B, "            if(item.hash != h)\n                break;\n            // Data Record\n            auto const len", "            // Data Record\n            auto const len", ["C20"]),
 ("rekey-last-chunk", "impl/rekey.ipp", "auto const b1 = std::min<std::size_t>(b0 + chunkSize, kh.buckets);", "auto const b1 = b0 + chunkSize;", ["C11"]),
 ("rekey-dwflush", "impl/rekey.ipp", "    dw.flush(ec);\n    if(ec)\n        return;\n", "", ["C11"]),
 ("rekey-app", "impl/rekey.ipp", "kh.appnum = dh.appnum;", "kh.appnum = dh.uid;", ["C11"]),
 ("rekey-prealloc", "impl/rekey.ipp", "static_cast<noff_t>(kh.buckets + 1) * kh.block_size - 1,", "static_cast<noff_t>(kh.buckets + 2) * kh.block_size - 1,", ["C11"]),
 ("verify-fast-spill", "impl/verify.ipp", "++info.spill_count;", "info.spill_count += 1 + (info.spill_count > 3);", ["C13"]),
 ("visit-spill", "impl/visit.ipp", "r.prepare(size, ec); // skip bucket", "r.prepare(size - 18, ec); // skip bucket", ["C15"]),
]
R = "impl/recover.ipp"
K = "impl/rekey.ipp"
LS = "        s_->lf.sync(ec);\n        if(ec)\n            return;\n    }\n    g_.finish();"
M += [
 ("x-log-sync2", B, LS, "    }\n    g_.finish();", ["C04"]),
 ("x-log-sync1", B, "    // Checkpoint\n    s_->lf.sync(ec);\n    if(ec)\n        return;\n", "", ["C04", "C07"]),
 ("x-df-sync", B, "    // Finalize the commit\n    s_->df.sync(ec);\n    if(ec)\n        return;\n", "", ["C04"]),
 ("x-kf-sync", B, "    s_->kf.sync(ec);\n    if(ec)\n        return;\n    s_->lf.trunc(0, ec);", "    s_->lf.trunc(0, ec);", ["C04"]),
 ("x-trunc-first", B, "    s_->kf.sync(ec);\n    if(ec)\n        return;\n    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n", "    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n    if(ec)\n        return;\n    s_->kf.sync(ec);\n", ["C04"]),
 ("x-trunc-nosync", B, "    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n", "    s_->lf.trunc(0, ec);\n", ["C04"]),
 ("x-c0-skip", B, "    c0.insert(n, tmp);\n    return c1", "    if(! tmp.spill()) c0.insert(n, tmp);\n    return c1", ["C04"]),
 ("x-c0-skip2", B, "    c0.insert(n, tmp);\n    return c1", "    if(! tmp.empty()) c0.insert(n, tmp);\n    return c1", ["C04"]),
 ("x-keysize-late", B, "    lh.key_file_size = s_->kf.size(ec);     // Key File Size", "    lh.key_file_size = (buckets_ + 2) * s_->kh.block_size; s_->kf.size(ec);", ["C04"]),
 ("x-rec-trunc-skip", R, "    df.trunc(lh.dat_file_size, ec);\n    if(ec)\n        return;\n    df.sync(ec);\n    if(ec)\n        return;\n", "", ["C04", "C07"]),
 ("x-rec-ktrunc-skip", R, "        kf.trunc(lh.key_file_size, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n", "        kf.sync(ec);\n", ["C04"]),
 ("x-rec-ksync-skip", R, "        kf.trunc(lh.key_file_size, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n", "        kf.trunc(lh.key_file_size, ec);\n", ["C05"]),
 ("x-rec-dsync-skip", R, "    df.sync(ec);\n    if(ec)\n        return;\n    if(lh", "    if(lh", ["C05"]),
 ("x-rec-early-clear", R, "        auto const readSize = 1024 * kh.block_size;", "        if(logFileSize < log_file_header::size + 30) { df.trunc(lh.dat_file_size, ec); goto clear_log; }\n        auto const readSize = 1024 * kh.block_size;", []),
 ("x-rec-partial-log", R, "            b.read(r, ec);                  // Bucket\n            if(ec == error::short_read)\n            {\n                ec = {};\n                break;", "            b.read(r, ec);                  // Bucket\n            if(ec == error::short_read)\n            {\n                ec = {};\n                goto clear_log;", ["C04"]),
 ("x-rec-partial-fail", R, "            b.read(r, ec);                  // Bucket\n            if(ec == error::short_read)\n            {\n                ec = {};\n                break;\n            }\n", "            b.read(r, ec);                  // Bucket\n", ["C04"]),
 ("x-rec-short-header", R, "    if(ec == error::short_read)\n    {\n        BOOST_ASSERT(keyFileSize > key_file_header::size);\n        ec = {};\n        goto clear_log;\n    }\n", "    if(ec == error::short_read && ! logFileSize)\n    {\n        ec = {};\n        goto clear_log;\n    }\n", ["C04"]),
 ("x-rec-kf-first", R, "    lf.trunc(0, ec);\n    if(ec)\n        return;\n    lf.sync(ec);\n    if(ec)\n        return;\n    lf.close();\n    File::erase(log_path, ec);\n    if(ec)\n        return;\n    if(eraseKeyFile)\n    {\n        kf.close();\n        File::erase(key_path, ec);\n        if(ec)\n            return;\n    }\n", "    if(eraseKeyFile)\n    {\n        kf.close();\n        File::erase(key_path, ec);\n        if(ec)\n            return;\n    }\n    lf.trunc(0, ec);\n    if(ec)\n        return;\n    lf.sync(ec);\n    if(ec)\n        return;\n    lf.close();\n    File::erase(log_path, ec);\n    if(ec)\n        return;\n", ["C12", "C05"]),
 ("x-flush-noecb", B, "            if(ec_)\n            {\n                ecb_.store(true);\n                return;\n            }\n            BOOST", "            if(ec_)\n            {\n                return;\n            }\n            BOOST", ["C06"]),
 ("x-close-noec", B, "            commit(m, work, ec_);\n            if (ec_)\n                ecb_.store(true);\n        }\n        if(ecb_)", "            commit(m, work, ec_);\n        }\n        if(ecb_)", ["C06"]),
 ("x-close-erase", B, "        if(ecb_)\n        {\n            ec = ec_;\n            return;\n        }\n        s_->lf.close();", "        if(ecb_)\n            ec = ec_;\n        s_->lf.close();", ["C06"]),
 ("x-kfwrite-noec", B, "        e.second.write(s_->kf,\n           (e.first + 1) * s_->kh.block_size, ec);\n        if(ec)\n            return;", "        error_code ec2;\n        e.second.write(s_->kf,\n           (e.first + 1) * s_->kh.block_size, ec2);", ["C06"]),
 ("x-dfsync-noec", B, "    s_->df.sync(ec);\n    if(ec)\n        return;\n    s_->kf.sync(ec);\n    if(ec)", "    s_->df.sync(ec);\n    ec = {};\n    s_->kf.sync(ec);\n    if(ec)", ["C06"]),
 ("x-logsync-noec", B, LS, "        s_->lf.sync(ec);\n        ec = {};\n    }\n    g_.finish();", ["C06"]),
 ("x-wflush-noec", B, "        w.flush(ec);\n        if(ec)\n            return;\n    }\n    work +=", "        w.flush(ec);\n        ec = {};\n    }\n    work +=", ["C06"]),
 ("x-fetch-noec", B, "    b.read(s_->kf, (n + 1) * b.block_size(), ec);\n    if(ec)\n        return;\n", "    b.read(s_->kf, (n + 1) * b.block_size(), ec);\n    if(ec)\n    {\n        ec = error::key_not_found;\n        return;\n    }\n", ["C06"]),
 ("x-exists-spillec", B, "        b.read(s_->df, spill, ec);\n        if(ec)\n            return false;\n    }\n    return false;", "        b.read(s_->df, spill, ec);\n        if(ec)\n        {\n            ec = {};\n            return false;\n        }\n    }\n    return false;", ["C06"]),
 ("x-open-noreset", B, "    ec_ = {};\n    ecb_.store(false);\n    recover", "    recover", ["C06"]),
 ("x-rk-nologsync", K, "        write(lf, lh, ec);\n        if(ec)\n            return;\n        lf.sync(ec);\n", "        write(lf, lh, ec);\n", ["C12"]),
 ("x-rk-nokfsync", K, "    kf.sync(ec);\n    if(ec)\n        return;\n    lf.close();", "    lf.close();", ["C12"]),
 ("x-rk-nodfsync", K, "    df.sync(ec);\n    if(ec)\n        return;\n    kf.sync", "    kf.sync", ["C12"]),
 ("x-rk-fullheader", K, "        std::array<std::uint8_t, key_file_header::size> buf;", "        std::array<std::uint8_t, key_file_header::size + 1> buf{};", ["C12"]),
 ("x-rk-logfirst", K, "    kf.create(file_mode::write, key_path, ec);\n    if(ec)\n        return;\n", "    kf.create(file_mode::write, key_path, ec);\n    if(ec)\n        return;\n    kf.write(static_cast<noff_t>(kh.buckets + 1) * kh.block_size - 1, \"\", 1, ec);\n    if(ec)\n        return;\n", ["C12"]),
 ("x-rk-datsize", K, "lh.dat_file_size = dataFileSize;", "lh.dat_file_size = dataFileSize + (dataFileSize > 4000);", ["C12", "C07"]),
 ("x-rk-kf-erase", R, "        kf.trunc(0, ec);\n        if(ec)\n            return;\n        kf.sync(ec);\n        if(ec)\n            return;\n        eraseKeyFile = true;", "        eraseKeyFile = true;", ["C12", "C05"]),
]
C = "impl/context.ipp"
G = "detail/gentex.hpp"
M += [
 ("c-ins-nou", B, "    std::lock_guard<std::mutex> u{u_};\n", "", ["C03"]),
 ("c-fetch-nop0", B, "            iter = s_->p0.find(key);\n            if(iter == s_->p0.end())\n                goto cont;", "                goto cont;", ["C03"]),
 ("c-ins-nop0", B, "        if(s_->p1.find(key) != s_->p1.end() ||\n           s_->p0.find(key) != s_->p0.end())", "        if(s_->p1.find(key) != s_->p1.end())", ["C03"]),
 ("c-fetch-nogen", B, "    genlock<gentex> g{g_};\n    m.unlock();\n    buffer buf{s_->kh.block_size};", "    m.unlock();\n    buffer buf{s_->kh.block_size};", ["C03"]),
 ("c-ins-nogen", B, "            genlock<gentex> g{g_};\n            m.unlock();\n            buffer buf;", "            m.unlock();\n            buffer buf;", ["C03"]),
 ("c-gen-late", B, "    genlock<gentex> g{g_};\n    m.unlock();\n    buffer buf{s_->kh.block_size};", "    m.unlock();\n    genlock<gentex> g{g_};\n    buffer buf{s_->kh.block_size};", ["C03"]),
 ("c-nofinish", B, "    g_.finish();\n", "", ["C03"]),
 ("c-finish-late", B, "    g_.finish();\n    // Write new buckets to key file\n    for(auto const e : s_->c1)\n    {\n        e.second.write(s_->kf,\n           (e.first + 1) * s_->kh.block_size, ec);\n        if(ec)\n            return;\n    }\n", "    // Write new buckets to key file\n    for(auto const e : s_->c1)\n    {\n        e.second.write(s_->kf,\n           (e.first + 1) * s_->kh.block_size, ec);\n        if(ec)\n            return;\n    }\n    g_.finish();\n", ["C03"]),
 ("c-nostart", B, "    g_.start();\n    m.unlock();", "    m.unlock();\n    g_.start();", []),
 ("c-p0-early", B, "    m.lock();\n    swap(c1, s_->c1);\n    s_->p0.clear();", "    m.lock();\n    s_->p0.clear();\n    m.unlock();\n    m.lock();\n    swap(c1, s_->c1);", ["C03"]),
 ("c-buckets-late", B, "    buckets_ = buckets;\n    modulus_ = modulus;\n    g_.start();\n    m.unlock();", "    g_.start();\n    m.unlock();\n    buckets_ = buckets;\n    modulus_ = modulus;", ["C03"]),
 ("c-c1clear", B, "    m.lock();\n    s_->c1.clear();", "    s_->c1.clear();\n    m.lock();", ["C03"]),
 ("c-c1clear-early", B, "    // Finalize the commit\n    s_->df.sync(ec);", "    m.lock();\n    s_->c1.clear();\n    m.unlock();\n    s_->df.sync(ec);", []),
 ("c-hold-log", B, "    g_.start();\n    m.unlock();\n    // Write clean buckets to log file\n", "    g_.start();\n    // Write clean buckets to log file\n", ["C19"]),
 ("c-hold-sync", B, "    // Finalize the commit\n    s_->df.sync(ec);\n    if(ec)\n        return;\n    s_->kf.sync(ec);\n    if(ec)\n        return;\n    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n    if(ec)\n        return;\n", "    // Finalize the commit\n    s_->df.sync(ec);\n    if(ec)\n        return;\n    s_->kf.sync(ec);\n    if(ec)\n        return;\n    m.lock();\n    s_->lf.trunc(0, ec);\n    if(ec)\n        return;\n    s_->lf.sync(ec);\n    m.unlock();\n    if(ec)\n        return;\n", ["C19"]),
 ("c-hold-u", B, "    swap(s_->p0, s_->p1);\n    m.unlock();", "    swap(s_->p0, s_->p1);\n    m.unlock();\n    std::unique_lock<std::mutex> u{u_};", ["C19"]),
 ("c-hold-finish", B, "    g_.start();\n    m.unlock();", "    g_.start();\n    g_.finish();\n    m.unlock();", ["C19"]),
 ("c-fetch-c1-unlock", B, "    if(iter != s_->c1.end())\n        return fetch(h, key, iter->second, callback, ec);", "    if(iter != s_->c1.end())\n    {\n        auto b0 = iter->second;\n        m.unlock();\n        return fetch(h, key, b0, callback, ec);\n    }", ["C03"]),
 ("c-exists-unlock", B, "    buffer buf{s_->kh.key_size + s_->kh.block_size};\n    void* pk", "    if(lock) lock->unlock();\n    buffer buf{s_->kh.key_size + s_->kh.block_size};\n    void* pk", ["C03"]),
 ("c-callback-unlock", B, "        callback(iter->first.data, iter->first.size);\n        return;", "        auto const e = iter->first;\n        m.unlock();\n        callback(e.data, e.size);\n        return;", ["C03"]),
 ("c-gentex-if", G, "    while(prev_ > 0)\n        cond_.wait(l);", "    if(prev_ > 0)\n        cond_.wait(l);", ["C03"]),
 ("c-gentex-nonotify", G, "        if(prev_ == 0)\n            cond_.notify_all();", "        if(prev_ == 1)\n            cond_.notify_all();", []),
 ("c-gentex-cur", G, "    prev_ += cur_;", "    prev_ = cur_;", ["C03"]),
 ("c-erase-nowait", C, "        cv_w_.wait(lock,\n            [&]\n            {\n                return store.state_ != state::intermediate;\n            });\n        if(store.state_ == state::flushing)", "        if(store.state_ == state::flushing)", ["C18"]),
 ("c-erase-if", C, "        cv_w_.wait(lock,\n            [&]\n            {\n                return store.state_ != state::intermediate;\n            });\n        if(store.state_ == state::flushing)", "        cv_w_.wait(lock);\n        if(store.state_ == state::flushing)", ["C18"]),
 ("c-nointermediate", C, "        store->state_ = store_base::state::intermediate;\n        flushing_.erase(store);", "        flushing_.erase(store);", ["C18"]),
 ("c-noerase", C, "        flushing_.erase(store);\n    }\n\n    store->flush();\n", "    }\n\n    store->flush();\n", ["C18"]),
 ("c-flushone-nonotify", C, "    waiting_.push_back(store);\n    cv_w_.notify_all();\n    return true;", "    waiting_.push_back(store);\n    return true;", ["C18"]),
 ("c-stop-nonotify", C, "    stop_ = true;\n    cv_f_.notify_all();", "    stop_ = true;", ["C18"]),
 ("c-stop-nojoin", C, "    if(t_.joinable())\n    {\n        lock.unlock();\n        t_.join();\n        lock.lock();\n    }\n    stop_ = false;", "    if(t_.joinable())\n        t_.detach();\n    stop_ = false;", ["C18"]),
 ("c-stop-early", C, "            return num_threads_ == 0;\n        });", "            return num_threads_ <= 1;\n        });", ["C18"]),
 ("c-stop-nowait", C, "    cv_w_.wait(lock,\n        [&]\n        {\n            return num_threads_ == 0;\n        });\n", "", ["C18"]),
 ("c-run-first", C, "        return ++num_threads_ == 1;", "        return num_threads_++ == 1;", ["C18"]),
 ("c-run-nosplice", C, "                        store->state_ = store_base::state::flushing;\n                    flushing_.splice(waiting_);\n                }\n\n                when", "                        store->state_ = store_base::state::flushing;\n                    if(flushing_.empty())\n                    flushing_.splice(waiting_);\n                }\n\n                when", ["C18"]),
 ("c-run-onlyothers", C, "                if (num_threads_ > 1)\n                {\n                    cv_f_.notify_all();\n                    continue;\n                }", "                if (num_threads_ > 1)\n                {\n                    continue;\n                }", ["C18"]),
 ("c-list-tail", C, "        tail_ = node->prev_;\n\n    if", "        {}\n\n    if", ["C18"]),
 ("c-list-erase", C, "    if(node->next_)\n        node->next_->prev_ = node->prev_;", "    if(node->next_)\n        ;", ["C18"]),
 ("c-splice-tail", C, "        tail_->next_ = right.head_;\n        tail_ = right.tail_;", "        tail_->next_ = right.head_;", ["C18"]),
 ("c-flush-always", C, "        if (stop_ || num_threads_ > 0)\n            return;\n", "", []),
 ("c-flush-nostate", C, "        for(auto store = waiting_.head_; store;\n            store = store->next_)\n            store->state_ = store_base::state::flushing;\n        flushing_.splice(waiting_);\n    }\n\n    for", "        flushing_.splice(waiting_);\n    }\n\n    for", ["C18"]),
 ("c-close-order", B, "        ctx_->erase(*this);\n        if(! s_->p1.empty())", "        if(! s_->p1.empty())", ["C18"]),
 ("c-start-stop", C, "    if(! stop_ && ! t_.joinable())", "    if(! stop_)", ["C18"]),
 ("c-stop-nofalse", C, "        lock.lock();\n    }\n    stop_ = false;", "        lock.lock();\n        stop_ = false;\n    }", ["C18"]),
]
