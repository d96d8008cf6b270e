From 39164f46ea32af6d0a4d4e1b6e22b78be2a5afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 01/28] fix: readers report an input that ends or fails early

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..1a3dec3 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -172,6 +172,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the spoc file header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index f41f265..18c521e 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -75,6 +75,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read a compressed field");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -83,6 +85,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Could not read a compressed field");
 
     // Decompress
     std::vector<T> x (size);
@@ -130,6 +134,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Could not read the point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..6336ddd 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -158,6 +158,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read a point record");
     return p;
 }
 
-- 
2.43.0


From 471bca499d3c0642e97f0257c604a04ce22fb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 02/28] fix: writers report an output that does not accept the
 whole file

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index 1a3dec3..925e486 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -146,6 +146,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the spoc file header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index 18c521e..fa2a14a 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -377,6 +377,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed fields");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 6336ddd..7af6910 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -141,6 +141,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write a point record");
 }
 
 // Record I/O
-- 
2.43.0


From 9e33fbc9bef99f067fda3b1e44e5a7f7d9e9f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 03/28] fix: reading uncompressed records larger than 1024
 bytes never ended

---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index fa2a14a..6b679f0 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -103,10 +103,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -120,6 +116,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, which must hold at least one record
+    const size_t buffer_size = std::max (size_t (1 * 1024), record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From d19880a8cb361bec2023c90bcdefdab7334af1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 04/28] fix: the compressed format lost the sign of negative
 zeros

---
 spoc/io.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/io.h b/spoc/io.h
index 6b679f0..f09a8ed 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <cstring>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -26,7 +27,7 @@ template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
     if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+        [](const T &i) { const T zero {}; return std::memcmp (&i, &zero, sizeof (T)) != 0; }))
         return false;
     return true;
 }
-- 
2.43.0


From 56c6be3514a063eb48efe42ff2946ab970a0f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 05/28] fix: stream compression hung on a failing input and
 ignored a failing flush

---
 spoc/compression.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..2271a4e 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -126,6 +126,8 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+        if (is.bad () || (is.fail () && !is.eof ()))
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
@@ -144,6 +146,10 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
             // GCOV_EXCL_STOP
         } while (deflator.s.avail_out == 0);
     } while (!is.eof ());
+
+    os.flush ();
+    if (os.fail ())
+        throw std::runtime_error (zlib_error_string (Z_ERRNO));
 }
 
 inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
-- 
2.43.0


From aaa1aa5b20134d23d7293e2e59952bfaa9d6d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 06/28] fix: decompression accepted truncated streams

---
 spoc/compression.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2271a4e..823810c 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -164,10 +164,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    int ret = Z_OK;
     do {
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
         switch (ret)
         {
             // GCOV_EXCL_START
@@ -186,6 +187,10 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (inflator.s.avail_out == 0);
 
+    // The input ended before the stream did
+    if (ret != Z_STREAM_END)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+
     return output;
 }
 
@@ -211,11 +216,14 @@ inline void decompress (std::istream &is, std::ostream &os)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+        if (is.bad ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
         inflator.s.avail_in = is.gcount();
 
         // GCOV_EXCL_START
+        // The input ended before the stream did
         if (inflator.s.avail_in == 0)
-            break;
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
         // GCOV_EXCL_STOP
 
         inflator.s.next_in = &input_buffer[0];
@@ -246,6 +254,10 @@ inline void decompress (std::istream &is, std::ostream &os)
             // GCOV_EXCL_STOP
         } while (inflator.s.avail_out == 0);
     } while (!done);
+
+    os.flush ();
+    if (os.fail ())
+        throw std::runtime_error (zlib_error_string (Z_ERRNO));
 }
 
 } // namespace compression
-- 
2.43.0


From 256348b9f80ccb2e337ac022ba90396f8cdd6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 07/28] fix: an exception inside a parallel region ended the
 process

---
 spoc/io.h            | 25 +++++++++++++------------
 spoc/radius_search.h |  5 ++++-
 spoc/utils.h         | 27 +++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f09a8ed..08557c5 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -210,7 +210,7 @@ inline point_record::point_records read_compressed_points (std::istream &s,
         extra[j] = read_compressed<uint64_t> (s, total_points);
 
     // Copy them into the point records
-    point_record::point_records prs (total_points);
+    point_record::point_records prs (total_points, point_record::point_record (extra_fields));
 
     #pragma omp parallel for
     for (size_t n = 0; n < prs.size (); ++n)
@@ -224,7 +224,6 @@ inline point_record::point_records read_compressed_points (std::istream &s,
         if (!r.empty ()) prs[n].r = r[n];
         if (!g.empty ()) prs[n].g = g[n];
         if (!b.empty ()) prs[n].b = b[n];
-        prs[n].extra.resize (extra_fields);
         for (size_t j = 0; j < prs[n].extra.size (); ++j)
             if (!extra[j].empty ()) prs[n].extra[j] = extra[j][n];
     }
@@ -339,34 +338,36 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
     }
 
     // Compress fields in parallel
+    utils::parallel_exception ex;
     std::vector<std::vector<uint8_t>> fields (9);
     #pragma omp parallel sections
     {
         #pragma omp section
-        { fields[0] = compress_field (x); }
+        { ex.run ([&] { fields[0] = compress_field (x); }); }
         #pragma omp section
-        { fields[1] = compress_field (y); }
+        { ex.run ([&] { fields[1] = compress_field (y); }); }
         #pragma omp section
-        { fields[2] = compress_field (z); }
+        { ex.run ([&] { fields[2] = compress_field (z); }); }
         #pragma omp section
-        { fields[3] = compress_field (c); }
+        { ex.run ([&] { fields[3] = compress_field (c); }); }
         #pragma omp section
-        { fields[4] = compress_field (p); }
+        { ex.run ([&] { fields[4] = compress_field (p); }); }
         #pragma omp section
-        { fields[5] = compress_field (i); }
+        { ex.run ([&] { fields[5] = compress_field (i); }); }
         #pragma omp section
-        { fields[6] = compress_field (r); }
+        { ex.run ([&] { fields[6] = compress_field (r); }); }
         #pragma omp section
-        { fields[7] = compress_field (g); }
+        { ex.run ([&] { fields[7] = compress_field (g); }); }
         #pragma omp section
-        { fields[8] = compress_field (b); }
+        { ex.run ([&] { fields[8] = compress_field (b); }); }
     }
 
     // Compress extra fields in parallel
     std::vector<std::vector<uint8_t>> extras (e.size ());
     #pragma omp parallel for
     for (size_t j = 0; j < extras.size (); ++j)
-        extras[j] = compress_field (e[j]);
+        ex.run ([&] { extras[j] = compress_field (e[j]); });
+    ex.rethrow ();
 
     // Write the header
     const header::header &h = f.get_header ();
diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..db91e79 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -267,8 +267,10 @@ void radius_search (
     const auto neighbor_vim = spoc::voxel::get_voxel_index_map (neighbor_voxel_indexes);
 
     // For each search starting point
+    utils::parallel_exception ex;
 #pragma omp parallel for
     for (size_t i = 0; i < point_voxel_indexes.size(); ++i)
+    ex.run ([&]
     {
         // The neighbor indexes
         std::vector<size_t> neighbors;
@@ -289,7 +291,8 @@ void radius_search (
         // Also note that 'i' is the index into 'point_indexes', not an index
         // into 'points'.
         neighbor_op (i, neighbors);
-    }
+    });
+    ex.rethrow ();
 }
 
 /// @brief Perform 'op' on neighbors within a specified radius, only looking
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..f91a727 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <exception>
 #include <functional>
 
 namespace spoc
@@ -32,6 +33,32 @@ inline void hash_combine (size_t &seed, const T &v, const Args&... args)
     (hash_combine(seed, args), ...);
 }
 
+// An exception may not leave an OpenMP region. Run the body of the
+// region through this class, and rethrow the first exception after it.
+class parallel_exception
+{
+    private:
+    std::exception_ptr e;
+
+    public:
+    template<typename F>
+    void run (F f)
+    {
+        try { f (); }
+        catch (...)
+        {
+#pragma omp critical (spoc_parallel_exception)
+            if (!e)
+                e = std::current_exception ();
+        }
+    }
+    void rethrow () const
+    {
+        if (e)
+            std::rethrow_exception (e);
+    }
+};
+
 // Set X, Y, Z to nearest precision by truncating
 template<typename T>
 void quantize (T &p, const double precision)
-- 
2.43.0


From bece725c186b4d5aca9f79577f7d61a92d5d50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 08/28] fix: spoc_transform rejected its documented noise
 options and -a

---
 apps/transform/transform_cmd.h | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 61a8ad35f5cf02189657da70d476045b8e070348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 09/28] fix: replace-not wrote the class whatever field it was
 given

---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From a9df24d2a9f118d0c2359ce8ff55c714445e0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 10/28] fix: quantizing overflowed int for coordinates beyond
 2^31 cells

---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..2d98d41 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index f91a727..407fbe9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <exception>
 #include <functional>
 
@@ -71,9 +72,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From a7a5256eb605b78581bb24275284516621cfcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 11/28] fix: set-field took unreadable values for zeros and
 rejected a last value without a newline

---
 apps/tool/tool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..a83c6fa 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -168,9 +168,9 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         else
             field_ifs >> f_size_t[i];
 
-        // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        // Make sure that a value was read
+        if (!field_ifs)
+            throw std::runtime_error ("Could not read all field values");
     }
 
     // Copy points
-- 
2.43.0


From 3955a85ada290975dab4b3f2b7968e78d08b188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 12/28] fix: get-field read past the end of the extra fields

---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index a83c6fa..695c073 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From ebfda83020b25a3e87e9d364832f4cf92a94262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 13/28] fix: a file with more than 255 extra fields was written
 with a wrong header

---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..86e045f 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -146,6 +146,8 @@ class spoc_file
     header::header get_header () const
     {
         const size_t extra_fields = get_extra_fields ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         const size_t total_points = prs.size ();
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
-- 
2.43.0


From adce18a2a0c19f7157f9bc036e11b39a7a1c4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 14/28] fix: info miscounted class codes above INT_MAX and
 printed c and p summaries as unknown type

---
 apps/info/info.h | 4 ++--
 spoc/json.h      | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..53f943c 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<uint32_t,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From 8119735a01d15dacc357eed2ad1d5943fde7b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 15/28] fix: an output file that could not be closed was
 reported as written

---
 apps/compress/compress.cpp     | 1 +
 apps/decompress/decompress.cpp | 1 +
 apps/filter/filter.cpp         | 1 +
 apps/srs/srs.cpp               | 3 +++
 apps/tile/tile.cpp             | 3 +++
 apps/tool/tool.cpp             | 1 +
 apps/transform/transform.cpp   | 1 +
 spoc/app_utils.h               | 9 +++++++++
 spocpy/spocpy/spocpy.cpp       | 5 ++++-
 9 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/apps/compress/compress.cpp b/apps/compress/compress.cpp
index 882042e..9fab7de 100644
--- a/apps/compress/compress.cpp
+++ b/apps/compress/compress.cpp
@@ -48,6 +48,7 @@ int main (int argc, char **argv)
 
         // Write it out
         write_spoc_file_compressed (os (), f);
+        os.close ();
 
         return 0;
     }
diff --git a/apps/decompress/decompress.cpp b/apps/decompress/decompress.cpp
index 98223c5..c91f4db 100644
--- a/apps/decompress/decompress.cpp
+++ b/apps/decompress/decompress.cpp
@@ -48,6 +48,7 @@ int main (int argc, char **argv)
 
         // Write it out
         write_spoc_file_uncompressed (os (), f);
+        os.close ();
 
         return 0;
     }
diff --git a/apps/filter/filter.cpp b/apps/filter/filter.cpp
index 44651bf..1d9faf9 100644
--- a/apps/filter/filter.cpp
+++ b/apps/filter/filter.cpp
@@ -77,6 +77,7 @@ int main (int argc, char **argv)
 
         // Write it out
         write_spoc_file (os (), f);
+        os.close ();
 
         return 0;
     }
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..fdac9cb 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -97,6 +97,9 @@ int main (int argc, char **argv)
                 throw runtime_error ("Could not open file for writing");
 
             write_spoc_file (ofs, f);
+            ofs.close ();
+            if (!ofs)
+                throw runtime_error ("Could not close the output file");
         }
         else
         {
diff --git a/apps/tile/tile.cpp b/apps/tile/tile.cpp
index af5b31b..d4c8d85 100644
--- a/apps/tile/tile.cpp
+++ b/apps/tile/tile.cpp
@@ -191,6 +191,9 @@ int main (int argc, char **argv)
 
             // Write it out
             write_spoc_file (ofs, t);
+            ofs.close ();
+            if (!ofs)
+                throw runtime_error ("Could not close the output file");
         }
 
         return 0;
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..5dcdcb0 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -121,6 +121,7 @@ int main (int argc, char **argv)
 
         // Write it out
         write_spoc_file (os (), f);
+        os.close ();
 
         return 0;
     }
diff --git a/apps/transform/transform.cpp b/apps/transform/transform.cpp
index 6d2d130..3d90013 100644
--- a/apps/transform/transform.cpp
+++ b/apps/transform/transform.cpp
@@ -56,6 +56,7 @@ int main (int argc, char **argv)
 
         // Apply each command in order they appeared on command line
         apply (is (), os (), args.commands, args.random_seed);
+        os.close ();
 
         return 0;
     }
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..f487c94 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -71,6 +71,15 @@ class output_stream
     {
         return *os;
     }
+    // Errors that are found when closing the file can't be reported by
+    // the destructor
+    void close ()
+    {
+        if (ofs.is_open ())
+            ofs.close ();
+        if (!ofs)
+            throw std::runtime_error ("Could not close the output file");
+    }
     private:
     std::ostream *os;
     std::ofstream ofs;
diff --git a/spocpy/spocpy/spocpy.cpp b/spocpy/spocpy/spocpy.cpp
index 3e40d8f..227834c 100644
--- a/spocpy/spocpy/spocpy.cpp
+++ b/spocpy/spocpy/spocpy.cpp
@@ -50,7 +50,10 @@ void py_writespocfile (const std::string &filename, const spoc::file::spoc_file
         throw std::runtime_error ("Could not open file for writing");
 
     // Read the file and return it
-    return spoc::io::write_spoc_file (ofs, f);
+    spoc::io::write_spoc_file (ofs, f);
+    ofs.close ();
+    if (!ofs)
+        throw std::runtime_error ("Could not close the output file");
 }
 
 //-------------------------
-- 
2.43.0


From dd8e0b05c6ce9e72875d295a31174306d0d9a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 16/28] fix: reports and values that could not be written were
 reported as a success

---
 apps/info/info.cpp | 3 +++
 apps/srs/srs.cpp   | 3 +++
 apps/tool/tool.cpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..916c550 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -83,6 +83,9 @@ int main (int argc, char **argv)
             }
         }
 
+        if (!cout.flush ())
+            throw runtime_error ("Could not write the information");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index fdac9cb..8800f9d 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -120,6 +120,9 @@ int main (int argc, char **argv)
             }
         }
 
+        if (!cout.flush ())
+            throw runtime_error ("Could not write the SRS");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 5dcdcb0..ac8e548 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -62,6 +62,8 @@ int main (int argc, char **argv)
             string s = args.command.params;
             const auto l = consume_field_name (s);
             get_field (f, cout, l);
+            if (!cout)
+                throw runtime_error ("Could not write the field values");
 
             // Short-circuit so that the SPOC file is not written
             return 0;
-- 
2.43.0


From 97eb7c5c0fcf3ae0e8291e04f76073468ecfdaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 17/28] fix: the benchmark timer followed adjustments of the
 wall clock

---
 spoc/benchmark_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spoc/benchmark_utils.h b/spoc/benchmark_utils.h
index 41fb98b..893ca10 100644
--- a/spoc/benchmark_utils.h
+++ b/spoc/benchmark_utils.h
@@ -12,8 +12,8 @@ namespace benchmark_utils
 class timer
 {
 private:
-    std::chrono::time_point<std::chrono::system_clock> t1;
-    std::chrono::time_point<std::chrono::system_clock> t2;
+    std::chrono::time_point<std::chrono::steady_clock> t1;
+    std::chrono::time_point<std::chrono::steady_clock> t2;
     bool running;
 
 public:
@@ -23,19 +23,19 @@ public:
     }
     void start ()
     {
-        t1 = std::chrono::system_clock::now ();
+        t1 = std::chrono::steady_clock::now ();
         running = true;
     }
     void stop ()
     {
-        t2 = std::chrono::system_clock::now ();
+        t2 = std::chrono::steady_clock::now ();
         running = false;
     }
     double elapsed_ms()
     {
         using namespace std::chrono;
         return running
-            ? duration_cast<milliseconds> (system_clock::now () - t1).count ()
+            ? duration_cast<milliseconds> (steady_clock::now () - t1).count ()
             : duration_cast<milliseconds> (t2 - t1).count ();
     }
 };
-- 
2.43.0


From f7e49fb411e999262379c30d8509955da134e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 18/28] fix: spoc_file operations left half of their work
 behind when memory ran out

---
 spoc/file.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spoc/file.h b/spoc/file.h
index 86e045f..bfac85d 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -178,6 +178,9 @@ class spoc_file
     /// fields in all point records must be resized
     void resize_extra_fields (const size_t extra_fields)
     {
+        // Allocate everything before changing anything
+        for (auto &p : prs)
+            p.extra.reserve (extra_fields);
         for (auto &p : prs)
             p.extra.resize (extra_fields);
     }
@@ -223,7 +226,8 @@ class spoc_file
             throw std::runtime_error ("The point record extra fields have inconsistent sizes");
 
         // Set the point records
-        this->prs = prs;
+        point_record::point_records tmp (prs);
+        this->prs.swap (tmp);
     }
 
     /// @brief Move point records from the spoc_file object
-- 
2.43.0


From a036514ad9ef5d5eb4852abc39e1597d9287269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 19/28] fix: tile could overwrite a file created after its
 check for existing files

---
 apps/tile/tile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/tile/tile.cpp b/apps/tile/tile.cpp
index d4c8d85..9353e70 100644
--- a/apps/tile/tile.cpp
+++ b/apps/tile/tile.cpp
@@ -3,6 +3,7 @@
 #include "tile.h"
 #include "tile_cmd.h"
 #include <algorithm>
+#include <cstdio>
 #include <filesystem>
 #include <iostream>
 #include <limits>
@@ -179,6 +180,12 @@ int main (int argc, char **argv)
                     throw runtime_error ("File already exists. "
                         "Use the force option to overwrite. "
                         "Aborting.");
+
+                // Somebody else may create it meanwhile
+                FILE *fp = fopen (sfn.str ().c_str (), "wx");
+                if (!fp)
+                    throw runtime_error ("Could not create file");
+                fclose (fp);
             }
 
             if (args.verbose)
-- 
2.43.0


From 6eda6820cddd1d782614ef085bb03686b3562010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 20/28] fix: radius search missed neighbours beyond 2^31 voxels

---
 spoc/radius_search.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index db91e79..633f0b9 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -39,16 +39,16 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        const int64_t i1 = static_cast<int64_t> (ijk.i) - 1;
+        const int64_t i2 = static_cast<int64_t> (ijk.i) + 2;
+        const int64_t j1 = static_cast<int64_t> (ijk.j) - 1;
+        const int64_t j2 = static_cast<int64_t> (ijk.j) + 2;
+        const int64_t k1 = static_cast<int64_t> (ijk.k) - 1;
+        const int64_t k2 = static_cast<int64_t> (ijk.k) + 2;
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
+        for (int64_t i = i1; i < i2; ++i)
+            for (int64_t j = j1; j < j2; ++j)
+                for (int64_t k = k1; k < k2; ++k)
                     voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
 
         // There should have been 27
-- 
2.43.0


From b21d6fc6eac92d7f1b1af96f808d81ae13494eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 21/28] fix: running out of memory cut text out of reports and
 tile names silently

---
 apps/info/info.h   | 3 +++
 apps/tile/tile.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/apps/info/info.h b/apps/info/info.h
index 53f943c..8cf9c01 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -29,6 +29,7 @@ inline std::map<std::string,size_t> get_class_count_map (const T &c)
     for (auto i : m)
     {
         std::stringstream s;
+        s.exceptions (std::ios::badbit); // Running out of memory is an error
         s << std::setfill('0') << std::setw(3) << std::to_string (i.first);
         a[s.str ()] = i.second;
     }
@@ -120,6 +121,7 @@ inline std::string get_summary_string (const std::string &label,
 {
     // Return value
     std::stringstream s;
+    s.exceptions (std::ios::badbit); // Running out of memory is an error
     s.precision (3);
     s << std::fixed;
 
@@ -309,6 +311,7 @@ inline void process (std::ostream &os,
             for (size_t k = 0; k < get_extra_fields_size (f.get_point_records ()); ++k)
             {
                 stringstream s;
+                s.exceptions (std::ios::badbit); // Running out of memory is an error
                 s.precision (3);
                 s << fixed;
                 s << "extra_" << k << "\t";
diff --git a/apps/tile/tile.cpp b/apps/tile/tile.cpp
index 9353e70..bb2516c 100644
--- a/apps/tile/tile.cpp
+++ b/apps/tile/tile.cpp
@@ -166,6 +166,7 @@ int main (int argc, char **argv)
 
             // Generate the filename
             stringstream sfn;
+            sfn.exceptions (ios::badbit); // Running out of memory is an error
             sfn << prefix;
             sfn << setw(args.digits) << setfill('0') << tile;
             sfn << ext;
-- 
2.43.0


From 1ea2bb57238d564a5f20771a7d2b181bce364887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:58 +0000
Subject: [PATCH 22/28] fix: an index out of range read and wrote past the end
 of the point records

get_point_record, set_point_record and get_extra checked their index only in
debug builds, so that getPointRecord, setPointRecord and getExtra crashed the
Python interpreter.
---
 spoc/file.h         | 7 +++++--
 spoc/point_record.h | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/spoc/file.h b/spoc/file.h
index bfac85d..af71aa0 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -11,6 +11,7 @@
 #include <iomanip>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <unordered_set>
 #include <vector>
@@ -132,7 +133,8 @@ class spoc_file
     /// @brief Readonly point record access
     const point_record::point_record &get_point_record (const size_t i) const
     {
-        assert (i < prs.size ());
+        if (i >= prs.size ())
+            throw std::out_of_range ("The point record index is out of range");
         return prs[i];
     }
 
@@ -210,7 +212,8 @@ class spoc_file
     /// @param pr Point record value
     void set_point_record (const size_t i, const point_record::point_record &p)
     {
-        REQUIRE (i < prs.size ());
+        if (i >= prs.size ())
+            throw std::out_of_range ("The point record index is out of range");
         const size_t extra_fields = prs.empty () ? 0 : prs[0].extra.size ();
         if (p.extra.size () != extra_fields)
             throw std::runtime_error ("spoc_file::set_point_record(): the point record extra fields size is inconsistent with existing point records");
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 7af6910..9c7c8a7 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -3,6 +3,7 @@
 #include "spoc/utils.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -253,7 +254,8 @@ inline std::vector<uint64_t> get_extra (const size_t k, const point_records &p)
     std::vector<uint64_t> x (p.size ());
     for (size_t n = 0; n < p.size (); ++n)
     {
-        assert (k < p[n].extra.size ());
+        if (k >= p[n].extra.size ())
+            throw std::out_of_range ("The extra field index is out of range");
         x[n] = p[n].extra[k];
     }
     return x;
-- 
2.43.0


From 3b637c8c344f58b25af6a146075b37bd1cf4c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:58 +0000
Subject: [PATCH 23/28] fix: diff ignored an extra field that only one of the
 files has

---
 apps/diff/diff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..a04af82 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -149,9 +149,11 @@ inline int diff (const spoc::file::spoc_file &f1,
                 case '8':
                 case '9': {
                               const size_t index = field - '0';
-                              if (index < get_extra_fields_size (f1.get_point_records ())
-                                    && index < get_extra_fields_size (f2.get_point_records ())
-                                    && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
+                              const bool in1 = index < get_extra_fields_size (f1.get_point_records ());
+                              const bool in2 = index < get_extra_fields_size (f2.get_point_records ());
+                              if (in1 != in2)
+                                  return_code = -1;
+                              else if (in1 && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
                                   return_code = -1;
                               break;
                           }
-- 
2.43.0


From 4417125e98a74d3171ccd1435e88787614204c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 24/28] fix: diff accepted two of header-only, data-only and
 fields and ignored one of them

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From e84967ce01c5ae1e58f974d046c0b283b276ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 25/28] fix: diff asked for its version demanded two input
 files

---
 apps/diff/diff_cmd.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..b0b0c11 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -72,6 +72,10 @@ inline args get_args (int argc, char **argv, const std::string &usage)
         }
     }
 
+    // The version needs no input files
+    if (args.version)
+        return args;
+
     // Get input filenames
     if (optind == argc)
         throw std::runtime_error ("No input filename 1 was specified");
-- 
2.43.0


From 63bfabdb0c6ea8e1719bacfdf20c76d8ca17c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 26/28] fix: replace-not dropped values that it could not parse

---
 spoc/app_utils.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index f487c94..91be8b1 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -172,10 +172,9 @@ std::vector<unsigned> consume_ints (std::string &s)
     unsigned v = consume_int (s);
     vs.push_back (v);
     // Get the rest
-    while (true)
+    while (!s.empty ())
     {
-        try { v = consume_int (s); }
-        catch (...) { break; }
+        v = consume_int (s);
         vs.push_back (v);
     }
     return vs;
-- 
2.43.0


From 328a0eb3713151a0356d903b28c9ee7b43d5bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 27/28] fix: set-field truncated values that do not fit in the
 field

---
 apps/tool/tool.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 695c073..2c47a3c 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -3,7 +3,9 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cctype>
 #include <iostream>
+#include <limits>
 
 namespace spoc
 {
@@ -160,9 +162,30 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
     else
         f_size_t.resize (n);
 
+    // Get the largest value that fits in the field
+    size_t max_value = std::numeric_limits<uint64_t>::max ();
+
+    switch (field_name[0])
+    {
+        case 'c':
+        case 'p':
+        max_value = std::numeric_limits<uint32_t>::max ();
+        break;
+        case 'i':
+        case 'r':
+        case 'g':
+        case 'b':
+        max_value = std::numeric_limits<uint16_t>::max ();
+        break;
+    }
+
     // Read the values
     for (size_t i = 0; i < n; ++i)
     {
+        // Negative integers would wrap around
+        if (!float_flag && (field_ifs >> std::ws).peek () == '-')
+            throw std::runtime_error ("Invalid field value");
+
         // Read the field value
         if (float_flag)
             field_ifs >> f_double[i];
@@ -172,6 +195,14 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         // Make sure that a value was read
         if (!field_ifs)
             throw std::runtime_error ("Could not read all field values");
+
+        // Make sure that all of the value was read
+        if (!field_ifs.eof () && !std::isspace (field_ifs.peek ()))
+            throw std::runtime_error ("Invalid field value");
+
+        // Make sure that it fits
+        if (!float_flag && f_size_t[i] > max_value)
+            throw std::runtime_error ("Field value out of range");
     }
 
     // Copy points
-- 
2.43.0


From c9c01e8d0262e44955f79b8118e7f288f456b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 28/28] fix: compressing or decompressing more than 4 GiB lost
 data

---
 spoc/compression.h | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 823810c..f8f2da1 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
@@ -34,6 +35,9 @@ inline std::string zlib_error_string (int ret)
 }
 // GCOV_EXCL_STOP
 
+// The most bytes that are given to zlib at once
+constexpr size_t MAX_INPUT_SIZE = (1 << 30);
+
 struct zlib_deflator
 {
     z_stream s;
@@ -90,14 +94,23 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
+    // The number of bytes that zlib was not given yet. It can't be given
+    // more bytes than fit in 'avail_in' at once.
+    size_t left = nbytes;
+
     do {
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = std::min (left, MAX_INPUT_SIZE);
+            left -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, left == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +118,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || left != 0);
 
     return output;
 }
@@ -161,11 +174,19 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    // The number of bytes that zlib was not given yet
+    size_t left = input.size ();
+
     int ret = Z_OK;
     do {
+        if (inflator.s.avail_in == 0)
+        {
+            inflator.s.avail_in = std::min (left, MAX_INPUT_SIZE);
+            left -= inflator.s.avail_in;
+        }
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
         ret = inflate (&inflator.s, Z_NO_FLUSH);
@@ -185,7 +206,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (inflator.s.avail_out == 0 || (ret == Z_OK && left != 0));
 
     // The input ended before the stream did
     if (ret != Z_STREAM_END)
-- 
2.43.0

