From 3b62278d8ccd00946b95390a8644a3a803e6d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 01/19] fix: rekey makes the data and key files durable before
 erasing the log

---
 include/nudb/impl/rekey.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..2bc920f 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -235,6 +235,14 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    // The log file must outlive any unwritten part
+    // of the new key file and its spill records.
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From 4174ecdc3f48e68a332e9a7dd61a183483122b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 02/19] fix: recover of an interrupted rekey can itself be
 interrupted

---
 include/nudb/impl/recover.ipp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..cfee8e5 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -63,6 +63,7 @@ recover(
     auto const keyFileSize = kf.size(ec);
     if(ec)
         return;
+    bool eraseKeyFile = false;
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
@@ -186,10 +187,16 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // Interrupted rekey. The partial key file is made
+        // empty first and erased last, after the log file,
+        // so that recover can be repeated at any point.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
+        eraseKeyFile = true;
     }
 clear_log:
     lf.trunc(0, ec);
@@ -202,6 +209,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(eraseKeyFile)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From 774923a301f207f58d458e29c271e357a20e29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 03/19] fix: verify counts the bytes of the spill record it
 just read

---
 include/nudb/impl/verify.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..b254532 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -489,7 +489,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 7959530696b568a822fcfe895f08b2a34b7769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 04/19] fix: verify accepts spill records left behind by rekey,
 and those of small blocks

---
 include/nudb/impl/verify.ipp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b254532..3aa42fa 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -24,6 +24,20 @@ namespace nudb {
 
 namespace detail {
 
+// Returns `true` if size is the size of
+// a full bucket, for some block size.
+//
+template<class = void>
+bool
+valid_spill_size(nsize_t size)
+{
+    auto const entry_size =
+        bucket_size(1) - bucket_size(0);
+    return
+        size >= bucket_size(1) &&
+        (size - bucket_size(0)) % entry_size == 0;
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -155,14 +169,14 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                // The record may have a different size than
+                // info.bucket_size, if the database was rekeyed.
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -174,7 +188,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,8 +483,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
-- 
2.43.0


From d1bfacf8be0b17860f2fcf9bbc7f5c47e24ea4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 05/19] fix: verify reports duplicate keys, duplicate bucket
 items and size mismatches

---
 include/nudb/impl/verify.ipp | 45 ++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 3aa42fa..63cee1f 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -133,6 +133,21 @@ verify_normal(
                             break;
                         if(item.offset == offset)
                             goto found;
+                        // Different value, same hash
+                        df.read(item.offset + field<uint48_t>::size,
+                            pd, kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(pd, key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
@@ -263,6 +278,13 @@ verify_normal(
             progress(work, nwork);
         }
     }
+    // Each value was found in a bucket, so there
+    // must not be any additional bucket items.
+    if(info.key_count != info.value_count)
+    {
+        ec = error::missing_value;
+        return;
+    }
     float sum = 0;
     for(size_t i = 0; i < info.hist.size(); ++i)
         sum += info.hist[i] * (i + 1);
@@ -338,6 +360,7 @@ verify_fast(
     buffer buf{(chunkSize + 1) * kh.block_size};
     bucket tmp{kh.block_size,
         buf.get() + chunkSize * kh.block_size};
+    buffer pk{kh.key_size};
     for(nsize_t b0 = 0; b0 < kh.buckets; b0 += chunkSize)
     {
         // Load key file chunk to buffer
@@ -440,7 +463,29 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
+                        // Different value, same hash
+                        df.read(item.offset + field<uint48_t>::size,
+                            pk.get(), kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(pk.get(), key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 200d5a536ddea3f241328ebb548eed11359cbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 06/19] fix: visit returns the error when the last data record
 is cut short

---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From 2f09ba46789f1257e1f928bb889f06ceb852c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 07/19] fix: create never makes a database that cannot be
 opened

---
 include/nudb/impl/create.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..0eae7c6 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,7 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 || key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
@@ -73,7 +73,7 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    if(! (load_factor > 0.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
@@ -118,9 +118,10 @@ create(
         kh.salt = salt;
         kh.pepper = pepper<Hasher>(salt);
         kh.block_size = blockSize;
-        kh.load_factor = std::min<std::size_t>(
-            static_cast<std::size_t>(
-                65536.0f * load_factor), 65535);
+        kh.load_factor = std::max<std::size_t>(1,
+            std::min<std::size_t>(
+                static_cast<std::size_t>(
+                    65536.0f * load_factor), 65535));
         write(df, dh, ec);
         if(ec)
             goto fail;
-- 
2.43.0


From 263c35c95b90e3d4f3ebbd01bf72fc285845deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/19] fix: rekey never makes a key file that cannot be opened

---
 include/nudb/impl/rekey.ipp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 2bc920f..a15d049 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,17 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    if(! (loadFactor > 0.f && loadFactor < 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
@@ -81,11 +92,13 @@ rekey(
     kh.salt = make_salt();
     kh.pepper = pepper<Hasher>(kh.salt);
     kh.block_size = blockSize;
-    kh.load_factor = std::min<std::size_t>(
-        static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
-        std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+    kh.load_factor = std::max<std::size_t>(1,
+        std::min<std::size_t>(
+            static_cast<std::size_t>(65536.0f * loadFactor), 65535));
+    kh.buckets = std::max<std::size_t>(1,
+        static_cast<std::size_t>(
+            std::ceil(itemCount /(
+                bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From c7d94503cf63741284a879cb1a203fad020c6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 09/19] fix: create and recover erase files through the File
 type in use

---
 include/nudb/impl/create.ipp  | 6 +++---
 include/nudb/impl/recover.ipp | 2 +-
 include/nudb/native_file.hpp  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 0eae7c6..204d88f 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -149,11 +149,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        erase_file<File>(dat_path);
     if(ekf)
-        erase_file(key_path);
+        erase_file<File>(key_path);
     if(elf)
-        erase_file(log_path);
+        erase_file<File>(log_path);
 }
 
 template<
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index cfee8e5..a90fabb 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -67,7 +67,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From 337d86b1609656a1e18581f14b94ed5db226d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 10/19] fix: recover does not apply the rekey log of another
 database

---
 include/nudb/impl/recover.ipp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index a90fabb..a40f71c 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -105,7 +105,25 @@ recover(
     if(ec)
         return;
     if(lh.key_file_size == 0)
+    {
+        // Interrupted rekey, the key file may be incomplete
+        if(lh.uid != dh.uid)
+        {
+            ec = error::uid_mismatch;
+            return;
+        }
+        if(lh.appnum != dh.appnum)
+        {
+            ec = error::appnum_mismatch;
+            return;
+        }
+        if(lh.key_size != dh.key_size)
+        {
+            ec = error::key_size_mismatch;
+            return;
+        }
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
-- 
2.43.0


From aed99df9556983acc0bc934fb920338d1397e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 11/19] fix: recover rejects a log record with more items than
 a bucket holds

---
 include/nudb/detail/bucket.hpp | 5 +++++
 include/nudb/impl/recover.ipp  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index a40f71c..1352975 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -172,6 +172,8 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
-- 
2.43.0


From 52e1d560e50fbcf4c9925f497e07d6ab3f431743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 12/19] fix: create without a uid uses the File type it was
 given

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 204d88f..82bac61 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -174,7 +174,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
-- 
2.43.0


From df3c3737a83da6f7b3a8830e29ae9bc5fbe8b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 13/19] fix: sizes that do not fit in 32 bits are not truncated
 to plausible ones

---
 include/nudb/detail/field.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..6cd3e98 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -10,6 +10,7 @@
 
 #include <nudb/detail/stream.hpp>
 #include <boost/assert.hpp>
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -171,8 +172,10 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // Sizes are limited to 32 bits. A larger one comes from a
+    // damaged file and must not turn into a plausible value.
+    u = static_cast<std::size_t>(std::min<std::uint64_t>(
+        v, std::numeric_limits<std::uint32_t>::max()));
 }
 
 // write field to ostream
-- 
2.43.0


From deff92a63deb4f86f13cb4574d7590d1adc2564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 14/19] fix: verify of a damaged index terminates and stays
 within its buffer

---
 include/nudb/impl/verify.ipp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 63cee1f..22cf488 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -123,6 +123,7 @@ verify_normal(
                     return;
                 work += kh.block_size;
                 ++fetches;
+                auto last = info.dat_file_size;
                 for(;;)
                 {
                     for(auto i = b.lower_bound(h);
@@ -151,11 +152,14 @@ verify_normal(
                         ++fetches;
                     }
                     auto const spill = b.spill();
-                    if(! spill)
+                    // A spill record only refers to an earlier
+                    // one, anything else may never end.
+                    if(! spill || spill >= last)
                     {
                         ec = error::orphaned_value;
                         return;
                     }
+                    last = spill;
                     b.read(df, spill, ec);
                     if(ec == error::short_read)
                     {
@@ -222,6 +226,7 @@ verify_normal(
             work += static_cast<std::uint64_t>(
                 adjust * kh.block_size);
             bool spill = false;
+            auto last = info.dat_file_size;
             for(;;)
             {
                 info.key_count += b.size();
@@ -261,6 +266,12 @@ verify_normal(
                 }
                 if(! b.spill())
                     break;
+                if(b.spill() >= last)
+                {
+                    ec = error::duplicate_value;
+                    return;
+                }
+                last = b.spill();
                 b.read(df, b.spill(), ec);
                 if(ec)
                     return;
@@ -381,11 +392,25 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
+            auto last = info.dat_file_size;
             while(spill != 0)
             {
+                // A spill record only refers to an earlier
+                // one, anything else may never end.
+                if(spill >= last)
+                {
+                    ec = error::duplicate_value;
+                    return;
+                }
+                last = spill;
                 tmp.read(df, spill, ec);
                 if(ec == error::short_read)
                 {
-- 
2.43.0


From 6f9e006d2a24d9b3dbd5382c9d57641367376bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 15/19] fix: verify reports a key file cut within an empty
 bucket

---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 22cf488..1325985 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -675,6 +675,11 @@ verify(
     info.key_file_size = kf.size(ec);
     if(ec)
         return;
+    if(info.key_file_size % kh.block_size != 0)
+    {
+        ec = error::short_bucket;
+        return;
+    }
     info.dat_file_size = df.size(ec);
     if(ec)
         return;
-- 
2.43.0


From 3b19c251b0e9713d80ed2317bab1b1703ee8fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 16/19] fix: report the error of posix_fadvise and close the
 file

---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..a5dc6b2 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error, it does not set errno
+    int const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error, it does not set errno
+    int const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From 333fe3ce0f3fadc745070caca460a9e31d18611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 17/19] fix: recover makes the short key file durable before
 erasing the log

---
 include/nudb/impl/recover.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 1352975..a563abd 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,6 +66,12 @@ recover(
     bool eraseKeyFile = false;
     if(keyFileSize <= key_file_header::size)
     {
+        // The size seen here may not be durable yet, if
+        // an earlier recover was interrupted. The log file
+        // is needed until it is.
+        kf.sync(ec);
+        if(ec)
+            return;
         kf.close();
         erase_file<File>(log_path, ec);
         if(ec)
-- 
2.43.0


From f909c380ad52495c6b9a0c0e77ceef8ca37670be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:35 +0000
Subject: [PATCH 18/19] fix: do not attempt another commit after a failed one

---
 include/nudb/impl/basic_store.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..e74b6e9 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -768,7 +768,9 @@ flush()
     {
         unique_lock_type m{m_};
         s_->when = clock_type::now();
-        if(! s_->p1.empty())
+        // After an error nothing is committed any more, and
+        // ec_ is not modified while callers might read it.
+        if(! ecb_ && ! s_->p1.empty())
         {
             std::size_t work;
             commit(m, work, ec_);
-- 
2.43.0


From 110633e72a0b85f5333e64a2eb7afb7edd41572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:57 +0000
Subject: [PATCH 19/19] fix: the progress of a verify without buffer could
 exceed its total

---
 include/nudb/impl/verify.ipp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 1325985..8681c6e 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -71,10 +71,11 @@ verify_normal(
     // Calculate the work required
     auto const keys = static_cast<std::uint64_t>(
         double(kh.load_factor) / 65536.0 * kh.buckets * kh.capacity);
-    std::uint64_t const nwork = static_cast<std::uint64_t>(
-        info.dat_file_size + keys * kh.block_size +
-        adjust * (info.key_file_size + keys * kh.block_size));
-    std::uint64_t work = 0;
+    std::uint64_t const dwork =
+        info.dat_file_size + keys * kh.block_size;
+    std::uint64_t const nwork = dwork +
+        static_cast<std::uint64_t>(adjust *
+            (info.key_file_size + keys * kh.block_size));
     progress(0, nwork);
 
     // Iterate Data File
@@ -121,7 +122,6 @@ verify_normal(
                        static_cast<noff_t>(n + 1) * kh.block_size, ec);
                 if(ec)
                     return;
-                work += kh.block_size;
                 ++fetches;
                 auto last = info.dat_file_size;
                 for(;;)
@@ -209,9 +209,9 @@ verify_normal(
                     field<uint16_t>::size +     // Size
                     size;                       // Bucket
             }
-            progress(work + offset, nwork);
+            progress(static_cast<std::uint64_t>(
+                double(offset) / info.dat_file_size * dwork), nwork);
         }
-        work += info.dat_file_size;
     }
 
     // Iterate Key File
@@ -223,9 +223,6 @@ verify_normal(
                 n + 1) * kh.block_size, ec);
             if(ec)
                 return;
-            work += static_cast<std::uint64_t>(
-                adjust * kh.block_size);
-            bool spill = false;
             auto last = info.dat_file_size;
             for(;;)
             {
@@ -241,9 +238,6 @@ verify_normal(
                     }
                     if(ec)
                         return;
-                    if(! spill)
-                        work += static_cast<std::uint64_t>(
-                            adjust * kh.block_size);
                     // Data Record
                     istream is{pd, dh_len};
                     std::uint64_t size;
@@ -275,7 +269,6 @@ verify_normal(
                 b.read(df, b.spill(), ec);
                 if(ec)
                     return;
-                spill = true;
                 ++nspill;
                 ++info.spill_count;
                 info.spill_bytes +=
@@ -286,7 +279,8 @@ verify_normal(
             if(nspill >= info.hist.size())
                 nspill = info.hist.size() - 1;
             ++info.hist[nspill];
-            progress(work, nwork);
+            progress(dwork + static_cast<std::uint64_t>(
+                double(n + 1) / kh.buckets * (nwork - dwork)), nwork);
         }
     }
     // Each value was found in a bucket, so there
-- 
2.43.0

