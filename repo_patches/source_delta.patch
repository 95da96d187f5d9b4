From aa7d9c4a506455a14a987cbd9b5d2924b7c3c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:47 +0000
Subject: [PATCH 001/117] fix: check frame & extended header bounds when
 parsing ID3v2 tags

Frame sizes were only compared with the size of the whole tag, so a frame
(or its optional fields) could extend past the end of the buffer.
---
 scribbu/id3v22.cc | 12 ++++++++----
 scribbu/id3v23.cc | 44 ++++++++++++++++++++++++++++++++++++++++----
 scribbu/id3v24.cc | 45 +++++++++++++++++++++++++++++++++++++--------
 3 files changed, 85 insertions(+), 16 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..44fc57c 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -899,6 +899,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
+      if (left < 3) {
+        throw invalid_tag();
+      }
+
       // left > 2
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
@@ -921,10 +925,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
 
       //     cb_tag = cb_frame + 6
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 6) {
         throw invalid_tag();
       }
 
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..ee78078 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -189,6 +189,10 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
@@ -200,6 +204,9 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   cbpad_ = unsigned_from_non_sync_safe(p0[6], p0[7], p0[8], p0[9]);
 
   if (fcrc) {
+    if (p1 - p0 < 14) {
+      throw invalid_ext_header();
+    }
     crc_ = uint32_from_non_sync_safe(p0[10], p0[11], p0[12], p0[13]);
   }
 }
@@ -1269,6 +1276,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
@@ -1281,6 +1292,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
@@ -1308,17 +1322,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<std::size_t> decompressed_size = boost::none;
         if (0 != (f1 & 0x80)) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
         }
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x20)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
@@ -1379,6 +1402,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1399,10 +1426,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1428,17 +1455,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<std::size_t> decompressed_size = boost::none;
       if (0 != (f1 & 0x80)) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
       }
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x20)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..1bc9754 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1312,6 +1312,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
@@ -1320,17 +1324,20 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
-        }
-
         unsigned char f0 = p0[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
@@ -1353,18 +1360,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
         bool compressed = f1 & 0x80;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         bool unsynchronisation = f1 & 0x02;
         boost::optional<std::size_t> data_len_ind;
         if (f1 & 0x01) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
@@ -1410,6 +1426,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1430,10 +1450,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1459,18 +1479,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
       bool compressed = f1 & 0x80;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       bool unsynchronisation = f1 & 0x02;
       boost::optional<std::size_t> data_len_ind;
       if (f1 & 0x01) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
-- 
2.43.0


From 08b1f2f344b24a86adc3dd388f6562abceb82e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:54 +0000
Subject: [PATCH 002/117] fix: don't loop forever on encrypted ENCR frames

The flag driving the loop was never reset, and ENCR frames registered on one
pass were rejected as duplicates on the next.
---
 scribbu/id3v23.cc | 12 +++++++++---
 scribbu/id3v24.cc | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index ee78078..2b6b73f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <arpa/inet.h>
 #include <zlib.h>
@@ -1243,9 +1244,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, found_new;
+    std::set<const unsigned char*> regd; // ENCR frames already registered
     do {
 
+      found_encrypted = found_new = false;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1296,7 +1300,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || regd.count(pcurr)) {
           continue;
         }
 
@@ -1369,10 +1373,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
                            decompressed_size);
 
         register_encryption_method(encr);
+        regd.insert(pcurr);
+        found_new = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && found_new); // End while on encrypted ENCR frames.
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 1bc9754..949ea80 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <zlib.h>
 
@@ -1297,9 +1298,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, found_new;
+    std::set<const unsigned char*> regd; // ENCR frames already registered
     do {
 
+      found_encrypted = found_new = false;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1334,7 +1338,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || regd.count(pcurr)) {
           continue;
         }
 
@@ -1409,10 +1413,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
                                unsynchronisation, data_len_ind);
 
         register_encryption_method(encr);
+        regd.insert(pcurr);
+        found_new = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && found_new); // End while on encrypted ENCR frames.
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From 2c88feef8ad0fd366c6a51f129282dc5e3424531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:28 +0000
Subject: [PATCH 003/117] fix: read ID3v2.3/2.4 frame flags from the right bits

The ID3v2.4 compression flag is 0x08; a data length indicator alone doesn't
mean that the frame is compressed. Read ENCR flags from the ENCR frame.
---
 scribbu/id3v23.cc |  2 +-
 scribbu/id3v24.cc | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2b6b73f..88571a0 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1312,7 +1312,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 949ea80..0bb3732 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1342,7 +1342,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
@@ -1370,7 +1370,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           if (cb_read < 1) {
@@ -1404,6 +1404,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1491,7 +1494,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         if (cb_read < 1) {
@@ -1523,7 +1526,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
-- 
2.43.0


From 73921ccffb06c53f86b3c805c2e58b490523419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:34 +0000
Subject: [PATCH 004/117] fix: write ID3v2.4 frame headers the way they're read

Flags were set in the wrong bits, the size omitted the optional fields, which
were written out of order, with the data length in host byte order.
---
 scribbu/framesv24.cc | 28 ++++++++++++++++------------
 scribbu/framesv24.hh |  5 ++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..24ecc60 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 16;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
@@ -117,7 +117,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   if (unsynchronised_) {
     flags[1] |= 2;
   }
-  if (data_len_indicator_) {
+  // A compressed frame shall have a data length indicator
+  bool fdli = compressed_ || data_len_indicator_;
+  if (fdli) {
     flags[1] |= 1;
     sz += 4;
     cb += 4;
@@ -128,23 +130,25 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   // ID3v2.3 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-  if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+  if (fdli) {
+    unsigned char dlibuf[4];
+    detail::sync_safe_from_unsigned(dlind, dlibuf);
+    os.write((char*)dlibuf, 4);
   }
 
   return cb;
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..40c67d3 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -125,7 +125,10 @@ namespace scribbu {
                   bool unsynch,
                   const boost::optional<std::size_t> &dli):
       id3v2_3_plus_frame(frame_id4(id0, id1, id2, id3),
-                         tap, fap, ro, cmprsd, enc, gid)
+                         tap, fap, ro, cmprsd, enc, gid),
+      compressed_(cmprsd),
+      unsynchronised_(unsynch),
+      data_len_indicator_(dli)
     { }
     virtual id3v2_4_frame* clone() const = 0;
 
-- 
2.43.0


From 79ab0d14400b07b5f96a7b8df68a1c9bcc2b6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:43 +0000
Subject: [PATCH 005/117] fix: write ID3v2.3 frame flags & decompressed size
 the way they're read

---
 scribbu/framesv23.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..651d08d 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -358,27 +358,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 0x80;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 0x80;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 0x20;
     sz += 1;
     cb += 1;
   }
@@ -403,7 +403,12 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    char dlbuf[4];
+    dlbuf[0] = (dlind & 0xff000000) >> 24;
+    dlbuf[1] = (dlind & 0x00ff0000) >> 16;
+    dlbuf[2] = (dlind & 0x0000ff00) >>  8;
+    dlbuf[3] =  dlind & 0x000000ff;
+    os.write(dlbuf, 4);
   }
 
   if (encrypted()) {
-- 
2.43.0


From 6aa3ce2eba0653c9e8f8b852b0f2936a31406a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:42 +0000
Subject: [PATCH 006/117] fix: bounds checks & initialization in ID3v2 frame
 payload parsing

Truncated user-defined text, popularimeter & tag cloud frames were read past
their end; comments, encryption methods & empty counters left members
uninitialized; ENCR was written without the terminator of its email field.
---
 scribbu/framesv2.cc | 31 ++++++++++++++------------
 scribbu/framesv2.hh | 54 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..d1e8d2a 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -708,11 +708,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
@@ -790,13 +791,13 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
       cbnil_ = 1;
       break;
     case use_unicode::yes:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = false;
       cbnil_ = 1;
       break;
     case use_unicode::with_bom:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = true;
       cbnil_ = 1;
@@ -895,7 +896,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/)
+                            const std::string &dsc /*= std::string()*/):
+  ver_(ver)
 {
   if (language::from_locale == lang) {
     lang = language_from_locale();
@@ -950,6 +952,7 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  dst_enc_ = dst;
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
@@ -1043,14 +1046,8 @@ scribbu::comments::count_syncs(bool false_only) const
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
 
-  if (false_only && description_.size() &&
-      is_false_sync(description_.back(), text_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(description_.back(), text_.front())) {
-    ++cb;
-  }
+  // description_ is null-terminated, so no possibility of a false sync between
+  // it & text_
 
   cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
 
@@ -1074,7 +1071,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1159,7 +1156,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1261,6 +1258,12 @@ scribbu::popularimeter::reset_counter(std::size_t n)
 //                              class tag_cloud
 ////////////////////////////////////////////////////////////////////////////
 
+/*virtual*/ const char *
+scribbu::invalid_tag_cloud::what() const noexcept
+{
+  return "invalid tag cloud";
+}
+
 /// Construct "from scratch"-- text shall be a query-string style representation
 /// of the tag cloud (i.e. that which is returned from urlencoded())
 scribbu::tag_cloud::tag_cloud(const std::string &owner,
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..fa14974 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -91,8 +91,14 @@ namespace scribbu {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
       std::size_t saw_nil = 0;
       for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
+        if (1 == code_unit) {
+          if (0 == *p0) {
+            break;
+          }
+        }
+        else if (std::distance(p0, p1) < 2) {
+          // dangling byte; no terminator
+          return p1;
         }
         else {
           unsigned char b0 = *p0, b1 = *(p0 + 1);
@@ -530,7 +536,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
@@ -596,8 +602,12 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1), unicode_(0)
     {
+      if (p0 == p1) {
+        return;
+      }
+
       unicode_ = *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
@@ -689,7 +699,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{0, 0, 0}
     {
       if (p0 != p1) {
 
@@ -843,7 +856,7 @@ namespace scribbu {
 
     template <typename forward_output_iterator>
     forward_output_iterator counterb(forward_output_iterator p) const {
-      std::copy(counter_.begin(), counter_.end(), p);
+      return std::copy(counter_.begin(), counter_.end(), p);
     }
 
     std::size_t count() const;
@@ -898,13 +911,14 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
-      std::copy(p, p1, std::back_inserter(counter_));
+      if (p != p1 && ++p != p1) {
+        rating_ = *p++;
+        std::copy(p, p1, std::back_inserter(counter_));
+      }
     }
     /// Construct "from scratch"
     popularimeter(const std::string &own,
@@ -979,6 +993,13 @@ namespace scribbu {
    *
    */
 
+  /// The serialized form of a tag cloud is malformed
+  class invalid_tag_cloud: public error
+  {
+  public:
+    virtual const char * what() const noexcept;
+  };
+
   class tag_cloud
   {
   private:
@@ -998,18 +1019,26 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        return;
+      }
+
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
       copy(p0, p, back_inserter(own_));
 
-      p0 = ++p;
+      p0 = p == p1 ? p1 : ++p;
       while (p0 != p1) {
 
         p = find(p0, p1, 0);
         string key;
         copy(p0, p, back_inserter(key));
 
+        if (distance(p, p1) < 5) {
+          throw invalid_tag_cloud();
+        }
+
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
         const uint32_t *pb = (const uint32_t*)(buf);
@@ -1019,6 +1048,9 @@ namespace scribbu {
         p0 = p + 5;
         while (cb) {
           p = find(p0, p1, 0);
+          if (p == p1 || size_t(distance(p0, p)) >= cb) {
+            throw invalid_tag_cloud();
+          }
           string val;
           copy(p0, p, back_inserter(val));
           p0 = ++p;
-- 
2.43.0


From 7d40c2d4094d4e1b491f9d49a728dacc7c071f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:57 +0000
Subject: [PATCH 007/117] fix: don't read past the end of empty text & private
 frames

---
 scribbu/framesv22.hh |  6 ++++--
 scribbu/framesv23.hh | 10 +++++++---
 scribbu/framesv24.hh |  6 ++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..96ad078 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -336,9 +336,11 @@ namespace scribbu {
     id3v2_2_text_frame(const frame_id3       &id,
                        forward_input_iterator p0,
                        forward_input_iterator p1):
-      id3v2_2_frame(id)
+      id3v2_2_frame(id), unicode_(0)
     {
-      unicode_ = *p0++;
+      if (p0 != p1) {
+        unicode_ = *p0++;
+      }
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..fe82128 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,7 +333,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
+      if (p != p1) {
+        ++p;
+      }
       std::copy(p, p1, std::back_inserter(contents_));
     }
     /// Construct "from scratch"
@@ -686,9 +688,11 @@ namespace scribbu {
                        const id_type           &encmth,
                        const id_type           &gid,
                        const opt_sz_type       &decsz):
-      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
+      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz), unicode_(0)
     {
-      unicode_ = *p0++;
+      if (p0 != p1) {
+        unicode_ = *p0++;
+      }
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 40c67d3..f6fe5d4 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -437,9 +437,11 @@ namespace scribbu {
                        bool                                  cmprsd,
                        bool                                  unsynch,
                        const boost::optional<std::size_t>   &dli):
-      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
+      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli), unicode_(0)
     {
-      unicode_ = *p0++;
+      if (p0 != p1) {
+        unicode_ = *p0++;
+      }
       std::copy(p0, p1, std::back_inserter(text_));
     }
     // char[4]
-- 
2.43.0


From 1bf3b33cb2552367590c6b248b51e97ad972f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:52 +0000
Subject: [PATCH 008/117] fix: initialize new ID3v1 tags & make room when
 extending them

A tag constructed from scratch left its speed & track number
uninitialized. Setting an extended attribute on a standard tag marked
it extended without growing its fields, so that writing it read past
their ends.
---
 scribbu/id3v1.hh | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..a3ddf16 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -272,7 +272,9 @@ namespace scribbu {
       artist_(enh ? 90 : 30),
       genre_(0),
       ext_genre_(enh ? 30 : 0),
-      title_(enh ? 90 : 30)
+      speed_(0),
+      title_(enh ? 90 : 30),
+      track_number_(0)
     {
       if (v11) {
         comment_.resize(28);
@@ -430,8 +432,7 @@ namespace scribbu {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
-      ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -444,8 +445,8 @@ namespace scribbu {
     }
     void set_speed(unsigned char speed)
     {
+      extend();
       speed_ = speed;
-      extended_ = true;
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -466,6 +467,7 @@ namespace scribbu {
     // in the form "mmm:ss", but beyond length we perform no validation
     void set_start_time(const char *text)
     {
+      extend();
       size_t i = 0, ntext = strlen(text);
       while (i < ntext && i < 6) {
         start_time_[i] = (char)text[i];
@@ -474,7 +476,6 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -496,6 +497,7 @@ namespace scribbu {
     // in the form "mmm:ss", but beyond length we perform no validation
     void set_end_time(const char *text)
     {
+      extend();
       size_t i = 0, ntext = strlen(text);
       while (i < ntext && i < 6) {
         end_time_[i] = (char)text[i];
@@ -504,7 +506,6 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -609,6 +610,20 @@ namespace scribbu {
     static const std::size_t ID3V1_TAG_SIZE = 128U;
     static const std::size_t ID3V1_EXT_TAG_SIZE = 355U;
 
+    /// Make this an extended tag, making room for the extended fields
+    void extend()
+    {
+      if (!extended_) {
+        std::fill(start_time_.begin(), start_time_.end(), 0);
+        std::fill(end_time_.begin(), end_time_.end(), 0);
+        speed_ = 0;
+      }
+      extended_ = true;
+      title_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      album_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+    }
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
 
-- 
2.43.0


From efe609898653423a8e7ce0be94ec38fad201421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 009/117] fix: leave streams as they were found when looking
 for ID3v1 tags

The get pointer & exception mask weren't restored in all cases, and the
text "TAG+" 355 bytes from the end was taken for an extended tag even
when no ID3v1 tag followed, making process_id3v1 throw.
---
 scribbu/id3v1.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..e6d2073 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -115,9 +115,15 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
 
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();
+  } catch (const invalid_tag &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
@@ -147,11 +153,20 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
+    // Restore the exception mask
+    is.exceptions(exc_mask);
+
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();;
+  } catch (const invalid_tag &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
@@ -483,8 +498,13 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-        I.start_ = is.tellg() - (std::streampos) 4;
-        I.type_ = id3_v1_tag_type::v_1_extended;
+        // The extended tag is always followed by the standard tag
+        is.seekg(-128, std::ios_base::end);
+        is.read(buf, 3);
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+          I.start_ = I.end_ - (std::streamoff) 355;
+          I.type_ = id3_v1_tag_type::v_1_extended;
+        }
       }
     }
   }
@@ -525,8 +545,11 @@ scribbu::process_id3v1(std::istream &is)
   std::unique_ptr<scribbu::id3v1_tag> p;
   scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
   if (id3_v1_tag_type::none != I.type_) {
+    std::streampos here = is.tellg();
     is.seekg(I.start_);
     p.reset(new id3v1_tag(is));
+    // The read pointer is always restored on exit
+    is.seekg(here);
   }
   return p;
 }
-- 
2.43.0


From cb99b2bf616d26c38127b26a4e6ec311bb30a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 010/117] fix: find the end of the track data in short streams

find_id3v1_tag restored the caller's exception mask half-way through,
and so examined an uninitialized buffer when given a stream shorter
than an ID3v1 tag. Also, re-position the stream after the track data
even when the duration couldn't be computed & throw openssl_error-s by
value.
---
 scribbu/scribbu.cc | 81 ++++++++--------------------------------------
 1 file changed, 13 insertions(+), 68 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..0253bde 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -143,72 +143,17 @@ scribbu::openssl_error::what() const noexcept
 std::tuple<std::streampos, std::streampos>
 scribbu::find_id3v1_tag(std::istream &is)
 {
-  const std::ios_base::iostate EXC_MASK = std::ios_base::eofbit|
-    std::ios_base::failbit|std::ios_base::badbit;
-
-  // Copy off the stream's exception mask, in case the caller is
-  // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
-  // and set it to a value convenient for our use.
-  is.exceptions(EXC_MASK);
-
-  // The ID3v1 tag is 128 bytes long & begins with the sequence "TAG",
-  // and the extended tag is 227 bytes & begins with the sequence
-  // "TAG+". So, if there's an ID3v1 tag present, the sequence "TAG"
-  // will be present at len - 128 or len - 355.
-  char buf[4];
-
-  scribbu::id3_v1_tag_type tag_type = id3_v1_tag_type::none;
-
-  std::streampos here = is.tellg(), tag;
-
-  try {
-    is.seekg(-355, std::ios_base::end);
-    is.read(buf, 4);
-    if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-      // ID3v1 extended tag at `tag'; stream ptr at `tag' + 4.
-      tag = is.tellg() - (std::streampos) 4;
-      tag_type = id3_v1_tag_type::v_1_extended;
-    }
-  }
-  catch (const std::ios_base::failure &ex) {
-    // OK-- something went wrong. Clear the flag, set `tag' to EoS.
-    // stream ptr at the same place.
-    is.exceptions(std::ios_base::goodbit);
-    is.clear();
-    is.seekg(0, std::ios_base::end);
-    tag = is.tellg();
-    is.exceptions(exc_mask);
-  }
-
-  if (id3_v1_tag_type::none == tag_type) {
-
-    try {
-      is.seekg(-128, std::ios_base::end);
-      is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
-        // ID3v1 tag at `tag'; stream ptr at `tag' + 3
-        tag = is.tellg() - (std::streampos) 3;
-        tag_type = id3_v1_tag_type::v_1;
-      } else {
-        // No ID3v1 tag-- set `tag' to the EoS; stream ptr at same place.
-        is.seekg(0, std::ios_base::end);
-        tag = is.tellg();
-      }
-    }
-    catch (const std::ios_base::failure &ex) {
-      // OK-- something went wrong. Clear the flag, set `tag' to EoS.
-      // stream ptr at the same place.
-      is.exceptions(std::ios_base::goodbit);
-      is.clear();
-      is.seekg(0, std::ios_base::end);
-      tag = is.tellg();
-    }
-
+  std::streampos here = is.tellg();
+
+  // NB. this leaves the stream just as it found it; `end_' is always set to the
+  // EoS. Take care not to mistake something in front of the track data for an
+  // ID3v1 tag.
+  scribbu::id3v1_info I = ends_in_id3v1(is);
+  std::streampos tag = I.end_;
+  if (id3_v1_tag_type::none != I.type_ && here <= I.start_) {
+    tag = I.start_;
   }
 
-  is.exceptions(exc_mask);
-
   return std::make_tuple(here, tag);
 }
 
@@ -241,12 +186,12 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
   if (! mdctx) {
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   if (! EVP_DigestInit_ex(mdctx, EVP_md5(), 0)) {
     EVP_MD_CTX_destroy(mdctx);
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   for (std::streamsize nleft = tag - here; nleft > 0; ) {
@@ -256,7 +201,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
     is.read((char*)BUF, nbytes);
     if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
-      throw new openssl_error();
+      throw openssl_error();
     }
 
     nleft -= nbytes;
@@ -315,8 +260,8 @@ scribbu::track_data::track_data(std::istream &is) :
   }
 
   // Finally, patch-up the istream according to this method's contract.
+  is.clear(); // `eof' and/or `fail' may be set
   is.seekg(tag, std::ios_base::beg);
-  is.clear(); // `eof' may be set
   is.exceptions(exc_mask);
 }
 
-- 
2.43.0


From db91e4577b6a53f0fed7d0867fffb49c64036a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:32 +0000
Subject: [PATCH 011/117] fix: read VBRI headers the way they're laid out

The number of entries in the table of contents is a two byte field, but
four bytes were read into a two byte variable. The table's size could
overflow an int, testing for a LAME tag looked past the end of the
buffer, and fields missing from truncated headers were left
uninitialized.
---
 scribbu/mp3.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..cfb3de5 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -72,7 +72,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 }
 
@@ -82,7 +82,7 @@ namespace {
 
 scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 {
-  uint16_t ns;
+  uint16_t ns = 0;
   is.read((char*)&ns, 2);
   version_ = ntohs(ns);
 
@@ -92,16 +92,15 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   quality_ = ntohs(ns);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   file_size_bytes_ = ntohl(nl);
 
   is.read((char*)&nl, 4);
   num_frames_ = ntohl(nl);
 
-  uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  is.read((char*)&ns, 2);
+  std::size_t num_entries = ntohs(ns);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
@@ -122,7 +121,7 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 
 scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
 {
-  std::uint8_t buf[4];
+  std::uint8_t buf[4] = { 0, 0, 0, 0 };
   is.read((char*)buf, 4);
 
   bool frames_present = 0 != (buf[3] & 0x01);
@@ -130,7 +129,7 @@ scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
   bool toc_present    = 0 != (buf[3] & 0x04);
   bool qual_present   = 0 != (buf[3] & 0x08);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   if (frames_present) {
     is.read((char*)&nl, 4);
     num_frames_ = ntohl(nl);
@@ -161,12 +160,12 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
   lame_id_[0] = tag_id[0]; lame_id_[1] = tag_id[1];
   lame_id_[2] = tag_id[2]; lame_id_[3] = tag_id[3];
 
-  char rest[5];
+  char rest[5] = { 0, 0, 0, 0, 0 };
   is.read(rest, 5);
   lame_id_[4] = rest[0]; lame_id_[5] = rest[1]; lame_id_[6] = rest[2];
   lame_id_[7] = rest[3]; lame_id_[8] = rest[4];
 
-  char b;
+  char b = 0;
   is.read(&b, 1);
   vbr_method_ = vbr_method_for_bits(b & 0xf);
 
@@ -177,7 +176,7 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
 
   is.seekg(7, std::ios_base::cur);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   size_bytes_ = ntohl(nl);
 }
@@ -335,7 +334,7 @@ scribbu::mp3_audio_frame::parse_header(std::uint8_t hdr[4], std::istream &is)
 
     // protected?
     if ((hdr[1] & 0x01) == 0) {
-      std::uint16_t crc;
+      std::uint16_t crc = 0;
       is.read((char*)&crc, 2);
       crc_ = ntohs(crc);
     }
-- 
2.43.0


From d7a740be2580cb68ec66a503bfab0641a70521c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:32 +0000
Subject: [PATCH 012/117] fix: look for VBRI headers at offset 36 in frames
 with a CRC

In frames with a CRC the search was two bytes off. Also, disregard VBR
headers that were cut short, rather than computing a duration from
whatever happened to be read.
---
 scribbu/mp3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index cfb3de5..6f83d40 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -505,7 +505,8 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
       }
     } else {
       // At this point, the get ptr is two bytes from the end of the side info
-      is.seekg(32 - side_info_size_ - 2, std::ios_base::cur);
+      is.seekg(32 - side_info_size_ - 2 - (crc_.has_value() ? 2 : 0),
+               std::ios_base::cur);
       is.read(buf, 4);
       if (is_vbri(buf)) {
         vbri_ = std::optional<vbri_t>{ vbri_t(vbri_mp3_tag(is)) };
@@ -513,6 +514,11 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
     }
   }
 
+  // Disregard tags that were cut short
+  if (!is) {
+    vbri_ = std::nullopt;
+  }
+
   is.seekg(here, std::ios_base::beg);
 }
 
-- 
2.43.0


From c5b5a85bc511a81423326248dceba5915a5d3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:32 +0000
Subject: [PATCH 013/117] fix: restore the stream's exception mask when
 scanning for MP3 frames

find_sync() never restored the caller's exception mask & neither did
get_mp3_duration() on failure. The latter also missed a first frame
beginning within four bytes of the starting point.
---
 scribbu/mp3.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 6f83d40..eebb331 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -574,7 +574,7 @@ scribbu::find_sync(std::istream &is)
   is.exceptions(EXC_MASK);
 
   std::istream::pos_type here = is.tellg();
-  std::uint8_t buf[2];
+  std::uint8_t buf[2] = { 0, 0 };
   is.read((char*)buf, 2);
   bool hit = is_sync(buf);
   while (is && !hit) {
@@ -583,9 +583,11 @@ scribbu::find_sync(std::istream &is)
     is.read((char*)buf, 2);
     hit = is_sync(buf);
   }
-  if (hit) {
+  if (is && hit) {
     is.seekg(here, std::ios_base::beg);
   }
+
+  is.exceptions(exc_mask);
 }
 
 double
@@ -601,15 +603,18 @@ scribbu::get_mp3_duration(std::istream &is)
 
   std::istream::pos_type here = is.tellg();
 
-  std::uint8_t hdr[4];
+  std::uint8_t hdr[4] = { 0, 0, 0, 0 };
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
+    // the first sync may begin within the bytes we just read
+    is.seekg(here, std::ios_base::beg);
     find_sync(is);
     is.read((char*)hdr, 4);
   }
   if (!is || !is_sync(hdr)) {
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     return 0.0;
   }
 
-- 
2.43.0


From e3e26d7847a7c2afde3221c02b84038f36568d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:46 +0000
Subject: [PATCH 014/117] fix: refuse URL-encoded text ending in a percent sign

The trailing percent sign was silently dropped.
---
 scribbu/scribbu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 0253bde..0de2cca 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -362,5 +362,9 @@ scribbu::urldecode(const std::string &text)
 
   }
 
+  if (saw_pct) {
+    throw std::invalid_argument("incomplete % sequence");
+  }
+
   return out;
 }
-- 
2.43.0


From d1a3baef717e8ca0bbbe284130edfe94ad4ad29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:46 +0000
Subject: [PATCH 015/117] fix: read empty text as an empty tag cloud

An empty tag cloud is written as empty text, but empty text was read as
a cloud with one, empty, tag.
---
 scribbu/framesv2.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index d1e8d2a..540fa78 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1510,6 +1510,11 @@ scribbu::tag_cloud::parse_to_map(const std::string &text,
 {
   using namespace std;
 
+  // An empty cloud is written as empty text
+  if (text.empty()) {
+    return;
+  }
+
   // Parse using a simple FSM:
   bool parsing_key = true;
 
-- 
2.43.0


From d22c0facccca6c8d9c99ebfcd1995ffed40e4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:35 +0000
Subject: [PATCH 016/117] fix: compute genre distances when the text is shorter
 than the genre

The search started with a negative number of edits when the text was
shorter than the genre, consulting entries left over from other
comparisons or preceding the work area. Entries for the diagonals next
to the outermost ones were missing, and no genre was chosen if the text
had nothing in common with any of them.
---
 scribbu/winamp-genres.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..d144f18 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -290,7 +290,7 @@ namespace {
     size_t m = A.length();
     // The minimal p will be at the end of diagonal k
     ptrdiff_t k = n - m;
-    ptrdiff_t p = k;
+    ptrdiff_t p = k < 0 ? -k : k;
 
     do {
       ptrdiff_t inc = p;
@@ -541,9 +541,9 @@ scribbu::match_winamp_genre(const std::string &text)
 
   // This function uses the algorithm of Berhel & Roach to, which works in terms
   // of a single two-dimensional array FKP that is re-used over all
-  // comparisons. `inf' need only be greater than or equal to the length of the
-  // longest string we will be comparing.
-  size_t inf = max(MAX_GENRE_LENGTH, n);
+  // comparisons. `inf' need only be greater than the length of the longest
+  // string we will be comparing (f looks at the diagonals on either side).
+  size_t inf = max(MAX_GENRE_LENGTH, n) + 1;
   // We can build FKP here & re-use it for each individual comparison. FKP is a
   // two-dimensional array consisting of `max_k' rows & `max_p' columns. In the
   // exposition, the indicies run over -m to n (all diagonals) and from -1 to
@@ -583,7 +583,7 @@ scribbu::match_winamp_genre(const std::string &text)
   // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
   // to each; return the match with minimal Damerau-Levenshtein distance.
   size_t least_dl = inf;
-  unsigned char best_genre;
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
     size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
-- 
2.43.0


From 3fba031a09b809411e49045de594fcf6cdd817c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:35 +0000
Subject: [PATCH 017/117] fix: don't overflow the stack matching long texts to
 genres

The work area grows with the square of the text's length; take it from
the heap.
---
 scribbu/winamp-genres.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index d144f18..00f8d52 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -28,6 +28,7 @@
 #include <codecvt>
 #include <locale>
 #include <string>
+#include <vector>
 
 const char32_t *GENRESW[] = {
   /*  0*/ U"blues",
@@ -561,10 +562,8 @@ scribbu::match_winamp_genre(const std::string &text)
   // the C99 feature & gcc extension of Variable Length Array. Once I had a
   // working implementation with unit tests, I replaced it with an equivalent &
   // standard-compliant 1D array into which I compute my own indexing.
-  ptrdiff_t FKP[max_k*max_p];
-  for (ptrdiff_t i = 0; i < max_k*max_p; ++i) {
-    FKP[i] = -inf;
-  }
+  // It's on the heap because its size depends on the text we were given.
+  vector<ptrdiff_t> FKP(max_k*max_p, -(ptrdiff_t)inf);
 
   for (ptrdiff_t k = - zero_k; k <= zero_k; ++k) {
     ptrdiff_t abs_k = k;
@@ -585,7 +584,7 @@ scribbu::match_winamp_genre(const std::string &text)
   size_t least_dl = inf;
   unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
-    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
+    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, FKP.data(), max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
       least_dl = DL;
       best_genre = i;
-- 
2.43.0


From 1f05595b8c6905af2a8eb14eb317d3a384eaa617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:57 +0000
Subject: [PATCH 018/117] fix: convert texts that outgrow the first output
 buffer correctly

When the converter ran out of room, the retry declared new variables for
the buffer position and the room left. The result was then cut to a
length computed from stale values, the retry could write past the end of
the buffer, and the converter was not put back in its initial state, so
that a byte-order mark could be lost or taken for text.
---
 scribbu/charsets.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..c0bf4ee 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -710,7 +710,9 @@ namespace scribbu {
       inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
       inbytesleft = cbbuf;
       outbytesleft = cbout;
-      char *outbuf = poutbuf.get();
+      outbuf = poutbuf.get();
+      // Start over: the first attempt may have consumed (or written) a BOM
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr);
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
@@ -869,9 +871,10 @@ namespace scribbu {
 
       inbuf = const_cast<char*>(text);
       inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
+      outbytesleft = cbout - cbbom;
+      outbuf = reinterpret_cast<char*>(&(out[cbbom]));
+      // Start over: the first attempt may have consumed (or written) a BOM
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr);
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-- 
2.43.0


From 6c1b0da53caef87e9a6363281039b967d53fd547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:57 +0000
Subject: [PATCH 019/117] fix: honour the policy of ignoring characters that
 can't be encoded

glibc converts the whole text and still returns an error when it was
asked to leave out characters. That error was reported to the caller as
a failed conversion.
---
 scribbu/charsets.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index c0bf4ee..15b85b8 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -716,7 +716,10 @@ namespace scribbu {
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-    if (~0 == status) {
+    // Given "//IGNORE", glibc converts all the input & still reports EILSEQ if
+    // it left anything out
+    if (~0 == status && !(on_no_encoding::ignore == rsp && EILSEQ == errno &&
+                          0 == inbytesleft)) {
       throw iconv_error(errno);
     }
 
@@ -878,7 +881,10 @@ namespace scribbu {
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-    if (~0 == status) {
+    // Given "//IGNORE", glibc converts all the input & still reports EILSEQ if
+    // it left anything out
+    if (~0 == status && !(on_no_encoding::ignore == rsp && EILSEQ == errno &&
+                          0 == inbytesleft)) {
       throw iconv_error(errno);
     }
 
-- 
2.43.0


From eb76b5913d07e168c1a6bc20387c80cbf062a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:57 +0000
Subject: [PATCH 020/117] fix: don't take leading ISO-8859-1 text for a
 byte-order mark

Bytes that look like a byte-order mark were removed from converted text
whatever the target encoding. In ISO-8859-1 these bytes are ordinary
characters. The target is made of single bytes here, so UTF-8 is the only
one that can have a byte-order mark.
---
 scribbu/charsets.cc | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 15b85b8..d2fb029 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -729,33 +729,15 @@ namespace scribbu {
     outbuf = poutbuf.get();
     cbout -= outbytesleft;
 
-    if ((3 < cbout) &&
-        ((0x00 == (unsigned char)outbuf[0] &&
-          0x00 == (unsigned char)outbuf[1] &&
-          0xfe == (unsigned char)outbuf[2] &&
-          0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
-          0x00 == (unsigned char)outbuf[2] &&
-          0x00 == (unsigned char)outbuf[3]))) {
-      outbuf += 4;
-      cbout -= 4;
-    }
-    else if (2 < cbout  &&
-             0xef == (unsigned char)outbuf[0] &&
-             0xbb == (unsigned char)outbuf[1] &&
-             0xbf == (unsigned char)outbuf[2]) {
+    // Note that UTF-8 is the only target in which such a sequence is a BOM--
+    // in, say, ISO-8859-1 it's text.
+    if (encoding::UTF_8 == dstenc && 2 < cbout &&
+        0xef == (unsigned char)outbuf[0] &&
+        0xbb == (unsigned char)outbuf[1] &&
+        0xbf == (unsigned char)outbuf[2]) {
       outbuf += 3;
       cbout -= 3;
     }
-    else if ((1 < cbout) &&
-             ((0xfe == (unsigned char)outbuf[0] &&
-               0xff == (unsigned char)outbuf[1]) ||
-              (0xff == (unsigned char)outbuf[0] &&
-               0xfe == (unsigned char)outbuf[1]))) {
-      outbuf += 2;
-      cbout -= 2;
-    }
 
     // If there are trailing nulls and/or spaces, don't copy them, either.
     while (cbout && (0 == outbuf[cbout - 1] || 32 == outbuf[cbout - 1])) {
-- 
2.43.0


From f1bb14c2967e193f8128ddca63f2250d40797f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:57 +0000
Subject: [PATCH 021/117] fix: write the UTF-32BE byte-order mark in the right
 order

---
 scribbu/charsets.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index d2fb029..a421678 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -772,7 +772,7 @@ namespace scribbu {
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
-- 
2.43.0


From a064ae1744b8abb4966854669956c0c1486d5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:24 +0000
Subject: [PATCH 022/117] fix: write well-formed JSON for ID3v2.2 and ID3v2.4
 tags

---
 scribbu/json-pprinter.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..8bd039e 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -32,7 +32,7 @@
 #include <boost/algorithm/string/join.hpp>
 
 #include <algorithm>
-#include <strstream>
+#include <sstream>
 
 /*static*/
 const boost::optional<scribbu::encoding>
@@ -83,15 +83,16 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
+              stm.exceptions(ios_base::failbit | ios_base::badbit);
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -117,8 +118,9 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_3_frame &frm) {
-              ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
+              ostringstream stm;
+              stm.exceptions(ios_base::failbit | ios_base::badbit);
+              stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
 
@@ -135,16 +137,17 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
+              stm.exceptions(ios_base::failbit | ios_base::badbit);
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
-- 
2.43.0


From a2c3008698c3cc43ca13dde1a3df33706e3adf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:24 +0000
Subject: [PATCH 023/117] fix: write well-formed JSON for every kind of frame

---
 scribbu/json-pprinter.cc | 48 +++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 8bd039e..35d339e 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -42,6 +42,21 @@ scribbu::json_pprinter::DEFAULT_V1ENC = boost::none;
 const boost::optional<scribbu::encoding>
 scribbu::json_pprinter::DEFAULT_V2ENC = boost::none;
 
+namespace {
+
+  /// Render a set of strings as the (comma-separated) elements of a JSON array
+  std::string
+  quote_and_join(const std::set<std::string> &values)
+  {
+    std::vector<std::string> elts;
+    for (const auto &value: values) {
+      elts.push_back("\"" + scribbu::json_pprinter::escape(value) + "\"");
+    }
+    return boost::algorithm::join(elts, ",");
+  }
+
+}
+
 /*static*/
 std::string scribbu::json_pprinter::escape(const std::string &s)
 {
@@ -256,7 +271,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
 }
 
@@ -304,7 +319,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -350,14 +365,15 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
+                  "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -406,7 +422,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -475,7 +491,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -521,14 +537,15 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
+                  "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -598,7 +615,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -666,7 +683,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -712,14 +729,15 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
+                  "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
-- 
2.43.0


From daa8ed5ee47f8b2c0160fbd9e2f1cd0da4872796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:24 +0000
Subject: [PATCH 024/117] fix: escape control characters, album titles and
 frame identifiers in JSON

---
 scribbu/json-pprinter.cc | 84 +++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 27 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 35d339e..c5d5c6d 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -57,6 +57,29 @@ namespace {
 
 }
 
+namespace {
+
+  /// Frame identifiers are taken from the tag as they are: render one (as
+  /// ISO-8859-1) so that it can appear in a JSON string
+  template <typename frame_id>
+  std::string
+  id_as_text(const frame_id &id)
+  {
+    std::string text;
+    for (unsigned char c: id.as_string()) {
+      if (c < 0x80) {
+        text += c;
+      }
+      else {
+        text += (unsigned char)(0xc0 | c >> 6);
+        text += (unsigned char)(0x80 | (c & 0x3f));
+      }
+    }
+    return scribbu::json_pprinter::escape(text);
+  }
+
+}
+
 /*static*/
 std::string scribbu::json_pprinter::escape(const std::string &s)
 {
@@ -83,7 +106,14 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if ((unsigned char)c < 0x20) {
+        // JSON doesn't permit raw control characters in strings
+        stm << "\\u" << std::hex << std::setw(4) << std::setfill('0')
+            << (unsigned)(unsigned char)c;
+      }
+      else {
+        stm << c;
+      }
       break;
     }
   }
@@ -207,7 +237,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
@@ -238,7 +268,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_2_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -253,7 +283,7 @@ scribbu::json_pprinter::pprint_id3v2_2_text_frame(const id3v2_2_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -269,7 +299,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -285,7 +315,7 @@ scribbu::json_pprinter::pprint_TXX(const TXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -304,7 +334,7 @@ scribbu::json_pprinter::pprint_COM(const COM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -338,7 +368,7 @@ scribbu::json_pprinter::pprint_POP(const POP &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -370,7 +400,7 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -384,7 +414,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_3_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -399,7 +429,7 @@ scribbu::json_pprinter::pprint_id3v2_3_text_frame(const id3v2_3_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -420,7 +450,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -441,7 +471,7 @@ scribbu::json_pprinter::pprint_ENCR(const ENCR &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -458,7 +488,7 @@ scribbu::json_pprinter::pprint_TXXX(const TXXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -477,7 +507,7 @@ scribbu::json_pprinter::pprint_COMM(const COMM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -510,7 +540,7 @@ scribbu::json_pprinter::pprint_POPM(const POPM &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -542,7 +572,7 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -564,7 +594,7 @@ scribbu::json_pprinter::pprint_PRIV(const PRIV &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -578,7 +608,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_4_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -593,7 +623,7 @@ scribbu::json_pprinter::pprint_id3v2_4_text_frame(const id3v2_4_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -613,7 +643,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -634,7 +664,7 @@ scribbu::json_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -650,7 +680,7 @@ scribbu::json_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &frm, std::ostream &os)
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -669,7 +699,7 @@ scribbu::json_pprinter::pprint_COMM_2_4(const COMM_2_4 &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -702,7 +732,7 @@ scribbu::json_pprinter::pprint_POPM_2_4(const POPM_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -734,7 +764,7 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -756,7 +786,7 @@ scribbu::json_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
-- 
2.43.0


From b22364bac4e1b4bf3a02a5ed7a7dabe09e33e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:31 +0000
Subject: [PATCH 025/117] fix: register the printers of ID3v2.4 tag clouds and
 private frames

---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..a7f648a 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -289,8 +289,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 8ff703c6144393a39cb29718165dcd1e63a7e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:54 +0000
Subject: [PATCH 026/117] fix: print identifiers and encryption data in
 hexadecimal in CSV & TDF

---
 scribbu/csv-pprinter.cc | 22 ++++++++++++----------
 scribbu/tdf-pprinter.cc | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..9c52c66 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -322,9 +322,9 @@ scribbu::csv_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -446,9 +446,9 @@ scribbu::csv_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -472,9 +472,10 @@ scribbu::csv_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex <<
+    setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -609,9 +610,9 @@ scribbu::csv_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -635,9 +636,10 @@ scribbu::csv_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex <<
+    setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..067ba44 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -277,9 +277,9 @@ scribbu::tdf_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -400,9 +400,9 @@ scribbu::tdf_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -426,9 +426,10 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex <<
+    setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -565,9 +566,9 @@ scribbu::tdf_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex << setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
@@ -591,9 +592,10 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex <<
+    setfill('0');
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os;
-- 
2.43.0


From 1e2759a3f6d152129e8dc22685e33e60621fe250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:54 +0000
Subject: [PATCH 027/117] fix: print counts in decimal in CSV & TDF

---
 scribbu/csv-pprinter.cc | 18 +++++++++---------
 scribbu/tdf-pprinter.cc | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 9c52c66..715b78b 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -104,7 +104,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -156,7 +156,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -208,7 +208,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -337,7 +337,7 @@ scribbu::csv_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -360,7 +360,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_CNT(const CNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -488,7 +488,7 @@ scribbu::csv_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -511,7 +511,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT(const PCNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -652,7 +652,7 @@ scribbu::csv_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
   return os;
 }
 
@@ -676,7 +676,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &f, std::ostream &os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 067ba44..2ce382f 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -59,7 +59,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -111,7 +111,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -163,7 +163,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -292,7 +292,7 @@ scribbu::tdf_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
 /*virtual*/ std::ostream&
@@ -315,7 +315,7 @@ scribbu::tdf_pprinter::pprint_COM(const COM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_CNT(const CNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -442,7 +442,7 @@ scribbu::tdf_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
 /*virtual*/ std::ostream&
@@ -465,7 +465,7 @@ scribbu::tdf_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_PCNT(const PCNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -608,7 +608,7 @@ scribbu::tdf_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
   return os;
 }
 
@@ -632,7 +632,7 @@ scribbu::tdf_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &f, std::ostream &os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << (unsigned) f.count();
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From 4e9532cf52e9f1efa253130fb6e8ab1a8af5362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:27 +0000
Subject: [PATCH 028/117] fix: quote every text written to CSV, and texts with
 carriage returns

---
 scribbu/csv-pprinter.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 715b78b..21b7b5b 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
@@ -121,7 +121,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -173,7 +173,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -225,7 +225,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -288,7 +288,7 @@ scribbu::csv_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
 scribbu::csv_pprinter::pprint_unk_id3v2_2_frame(const unknown_id3v2_2_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -352,7 +352,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -412,7 +412,7 @@ scribbu::csv_pprinter::pprint_XTG(const XTG &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_unk_id3v2_3_frame(const unknown_id3v2_3_frame &f, std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -503,7 +503,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -566,7 +566,7 @@ scribbu::csv_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 
@@ -576,7 +576,7 @@ scribbu::csv_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 scribbu::csv_pprinter::pprint_unk_id3v2_4_frame(const unknown_id3v2_4_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -668,7 +668,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -731,7 +731,7 @@ scribbu::csv_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 
-- 
2.43.0


From e50553dfe799c6ba2eec1558192a1056c27866ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:27 +0000
Subject: [PATCH 029/117] fix: reject the double quote as a CSV separator

---
 scribbu/csv-pprinter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 21b7b5b..b1fd3b1 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -81,6 +81,9 @@ scribbu::csv_pprinter::csv_pprinter(
   char                             sep   /*= DEFAULT_SEP      */):
   ncomm_(ncomm), v1enc_(v1enc), v2enc_(v2enc), sep_(sep)
 {
+  if (sep_ == ESC) {
+    throw bad_separator(sep_);
+  }
   if (sep_ != 0x09 &&
       (sep_ < 0x21 || sep_ > 0x2F) &&
       (sep_ < 0x3A || sep_ > 0x40) &&
-- 
2.43.0


From d938b0e675cc43a1ff2f118a1aada3362220aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:20 +0000
Subject: [PATCH 030/117] fix: don't require an encoding to print an ID3v2.2
 file identifier as JSON

---
 scribbu/json-pprinter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index c5d5c6d..68cb458 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -299,9 +299,14 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
   return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
-- 
2.43.0


From 6c5af1ff337f87f34184dfcaf8d38b375f01d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:49 +0000
Subject: [PATCH 031/117] fix: don't print malformed UTF-8 from tag clouds as
 JSON

---
 scribbu/json-pprinter.cc | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 68cb458..1af7bba 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -44,13 +44,23 @@ scribbu::json_pprinter::DEFAULT_V2ENC = boost::none;
 
 namespace {
 
+  /// Escape text from a tag cloud, which is UTF-8 (throw if it is not)
+  std::string
+  escape_utf8(const std::string &text)
+  {
+    using scribbu::encoding;
+    scribbu::convert_encoding<std::string>(text.c_str(), text.length(),
+                                           encoding::UTF_8, encoding::UTF_8);
+    return scribbu::json_pprinter::escape(text);
+  }
+
   /// Render a set of strings as the (comma-separated) elements of a JSON array
   std::string
   quote_and_join(const std::set<std::string> &values)
   {
     std::vector<std::string> elts;
     for (const auto &value: values) {
-      elts.push_back("\"" + scribbu::json_pprinter::escape(value) + "\"");
+      elts.push_back("\"" + escape_utf8(value) + "\"");
     }
     return boost::algorithm::join(elts, ",");
   }
@@ -392,12 +402,13 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
+              auto first = escape_utf8(pr.first);
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" +
+                  escape_utf8(*pr.second.begin()) +
                   "\"}";
               default:
                 return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
@@ -407,7 +418,7 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
 
   return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape_utf8(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
@@ -564,12 +575,13 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
+              auto first = escape_utf8(pr.first);
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" +
+                  escape_utf8(*pr.second.begin()) +
                   "\"}";
               default:
                 return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
@@ -579,7 +591,7 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
 
   return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape_utf8(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
@@ -756,12 +768,13 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
+              auto first = escape_utf8(pr.first);
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" +
+                  escape_utf8(*pr.second.begin()) +
                   "\"}";
               default:
                 return "{\"" + first + R"(":[)" + quote_and_join(pr.second) +
@@ -771,7 +784,7 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
 
   return os << R"({"id":")" << id_as_text(frm.id()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape_utf8(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
-- 
2.43.0


From 4d61da11f41265c53eed35f79d37f57c0f03817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:58 +0000
Subject: [PATCH 032/117] fix: look for the right frame when reporting ID3v2.4
 play counts

---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..5602288 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -335,7 +335,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From f676e254e542fd2dd24cba79d7dca5b4d70b6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 033/117] fix: handle empty text when capitalising

---
 scribbu/tbt-support.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..02e7cf4 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -200,6 +200,10 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace std;
   using namespace boost;
 
+  if (text.empty()) {
+    return text;
+  }
+
   if (capitalization::capitalize == cap) {
     string result;
     result += toupper(text[0], locale(""));
-- 
2.43.0


From fc7f501faf68c1cdb75e624562e1b62d01fee090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 034/117] fix: merge runs of white space in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 02e7cf4..0bbb1bc 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -238,7 +238,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
-- 
2.43.0


From 7742eee5b56aaeeac63ea1917239ed1d8bfc6b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 035/117] fix: honour the white-space options of template terms

---
 scribbu/tbt-support.cc | 1 +
 scribbu/tbt-support.hh | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 0bbb1bc..c719afe 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -577,6 +577,7 @@ scribbu::tbt_support::encoded_by::evaluate(const file_info  & /*fi    */,
   string text = pid3v2->encoded_by();
   text = do_the_xform(text, the_);
   text = do_cap_xform(text, cap_);
+  text = do_ws_xform(text, cmp_, rep_);
   return encode(text, out_);
 }
 
diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..83d6e43 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -336,7 +336,7 @@ namespace scribbu
                 const std::string &rep = std::string()):
         the_        (the),
         cap_        (cap),
-        compress_ws_(false),
+        compress_ws_(cmp),
         replace_ws_ (rep)
       { }
 
-- 
2.43.0


From 695f7ff5d7c4828051bbbb2a48b97cfb7802f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 036/117] fix: print sizes and checksums in templates

---
 scribbu/tbt-support.cc | 11 ++++++-----
 scribbu/tbt-support.hh |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index c719afe..e1d8caf 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -655,15 +655,13 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
   size_t n = fi.size();
 
   stringstream buf;
-  if (base::decimal == b_) {
-    buf << n;
-  }
-  else {
+  if (base::hex == b_) {
     buf << hex;
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
   }
+  buf << n;
 
   return buf.str();
 
@@ -688,7 +686,10 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
     }
   }
   for (auto x: D) {
-    buf << x;
+    if (base::hex == b_) {
+      buf << setw(2) << setfill('0');
+    }
+    buf << (unsigned)x;
   }
   return buf.str();
 
diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 83d6e43..33340d4 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -581,7 +581,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      size(forward_input_iterator p0, forward_input_iterator p1)
+      size(forward_input_iterator p0, forward_input_iterator p1):
+        size()
       {
         using boost::any_cast;
 
@@ -614,7 +615,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      md5(forward_input_iterator p0, forward_input_iterator p1)
+      md5(forward_input_iterator p0, forward_input_iterator p1):
+        md5()
       {
         using boost::any_cast;
 
-- 
2.43.0


From c3e7072a4ec56713a4f6939b3c7d10f253ab3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 037/117] fix: decode ID3v1 text of unknown encoding in
 templates

---
 scribbu/tbt-support.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index e1d8caf..74a6928 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -340,7 +340,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
@@ -355,9 +355,8 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g,
+                                             encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
-- 
2.43.0


From ea78808e8e8a830295bc413f7fab10967a97c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 038/117] fix: fall back to ID3v2 when the ID3v1 text is blank

---
 scribbu/tbt-support.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 33340d4..5beba0d 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From 025762ee9e53d0c6ea11584e725363b6bd194381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:39 +0000
Subject: [PATCH 039/117] fix: don't fail on short years in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 74a6928..e51738c 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -603,7 +603,7 @@ scribbu::tbt_support::year::evaluate(const file_info  & /*fi    */,
                                  v1_encoding::automatic);
 
   if (year_format::two_digits == fmt_) {
-    return year.substr(2);
+    return year.size() < 2 ? year : year.substr(year.size() - 2);
   }
   else {
     return year;
-- 
2.43.0


From 90662be57d59ecd5f826302e9ee003ce704d2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:37 +0000
Subject: [PATCH 040/117] fix: accept year formats, v1-only, v2-only and
 hex-case in templates

The lexer only recognised these options where it expected the value of
another option, so no template using them could be parsed.
---
 scribbu/tbt-lexer.ll | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..b3d1f50 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -125,13 +125,16 @@ year_abbrev         Y
 <REPLACEMENT>{cap}          { return CAP;         }
 <REPLACEMENT>{output}       { return OUTPUT;      }
 <REPLACEMENT>{compress}     { return COMPRESS_WS; }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
 <REPLACEMENT>{ws}           { return WS;          }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +143,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +152,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
-- 
2.43.0


From aba7b7578171a8d69aa84db42bab4b80d8affdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:37 +0000
Subject: [PATCH 041/117] fix: accept the documented cap option in templates

---
 scribbu/tbt-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index b3d1f50..eaf3a78 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
-- 
2.43.0


From a9aef73ada53e8fd8f62ac62a899fd098674f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:37 +0000
Subject: [PATCH 042/117] fix: accept UTF-16 and UTF-32 as ID3v1 encodings in
 templates

---
 scribbu/tbt-parser.yy | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From 1e7ec71b0ed1b873d586f753d4206d59c4ed732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:37 +0000
Subject: [PATCH 043/117] fix: remove the backslash from escaped equals signs
 in templates

---
 scribbu/tbt-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index eaf3a78..1213b00 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -191,6 +191,7 @@ static std::string * unescape_and_copy(const char *text) {
       case '(':
       case ')':
       case ':':
+      case '=':
       case '?':
       case '&':
       case '\\':
-- 
2.43.0


From 1c053ba5e3f54e3ec9aac981d474d1cb4b2311a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:32 +0000
Subject: [PATCH 044/117] fix: parse templates correctly after an invalid one

The scanner kept the state it was in when it met the error, and began
the next template in that state.
---
 scribbu/id3v2-utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index f3eeea4..b9b4a1e 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -97,6 +97,9 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
 /// Construct with the template in textual form
 scribbu::template_processor::template_processor(const std::string &templat)
 {
+  // Start afresh: an earlier, invalid template may have been abandoned midway.
+  tbtlex_destroy();
+
   YY_BUFFER_STATE buf = tbt_scan_string(templat.c_str());
   tbt_switch_to_buffer(buf); // switch flex to the buffer we just created
 
-- 
2.43.0


From d8df0d8d2593a070840d04fdb2eea64d43d0b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:19 +0000
Subject: [PATCH 045/117] fix: recognise every false sync

A false sync is 0xff followed by a byte whose top three bits are set, i.e.
0xe0 or greater. The test used 233 (0xe9).
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 540fa78..25f775c 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 <= y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 <= y || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From ec20bc864ced951fd8710f71d7d8db05214b2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:19 +0000
Subject: [PATCH 046/117] fix: unsynchronise ID3v2.2 frames & extended headers
 when asked to

The plain and the unsynchronised forms were swapped.
---
 scribbu/framesv22.cc | 4 ++--
 scribbu/id3v23.cc    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..e9019f8 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 88571a0..2488651 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -258,7 +258,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 97255840f06ad1fb206d0e4d863fe7e6e3839b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 047/117] fix: serialize the current contents of a frame

Frames cache their serialized form, but most setters do not invalidate the
cache: a frame changed after having been sized or written was written with its
old contents.
---
 scribbu/framesv22.cc | 7 +++++--
 scribbu/framesv22.hh | 2 +-
 scribbu/framesv23.cc | 8 +++++---
 scribbu/framesv23.hh | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index e9019f8..6747250 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -185,7 +185,7 @@ scribbu::id3v2_2_frame::dirty(bool f) const
   id3v2_frame::dirty(f);
 }
 
-/// Refresh the cache, if dirty (otherwise, do nothing)
+/// Refresh the cache
 void
 scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
 {
@@ -193,7 +193,10 @@ scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
   using scribbu::detail::count_syncs;
   using scribbu::detail::unsynchronise;
 
-  if (is_dirty()) {
+  // Our contents may have been changed through our subclasses or their other
+  // bases (`comments', say), none of which know about the cache, so re-build it
+  // unconditionally.
+  {
 
     // Clear the cache...
     cache_[SERIALIZED].clear();
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index 96ad078..600c530 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -178,7 +178,7 @@ namespace scribbu {
     virtual void dirty(bool f) const;
 
   private:
-    /// Refresh the cache, if dirty (otherwise, do nothing)
+    /// Refresh the cache
     void ensure_cached_data_is_fresh() const;
     /// Serialize this frame to \a os, exclusive of the frame header, as well
     /// as any compression, encryption or unsynchronisation; return the number
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 651d08d..77b7b43 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -140,7 +140,7 @@ scribbu::id3v2_3_plus_frame::dirty(bool f) const
 }
 
 /**
- * \brief If the dirty flag is set, re-serialize & re-apply compression,
+ * \brief Re-serialize & re-apply compression,
  * encryption & unsynchronisation
  *
  *
@@ -154,8 +154,10 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
   using scribbu::detail::unsynchronise;
 
   // This logic is still too complex for my tastes, but this is as simple
-  // as I've been able to get it so far. If the 'dirty" flag is set...
-  if (is_dirty()) {
+  // as I've been able to get it so far. Our contents may have been changed
+  // through our subclasses or their other bases (`comments', say), none of which
+  // know about the cache, so...
+  {
 
     // clear our cache & re-build it.
     cache_[SERIALIZED_WITH_CE ].clear();
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index fe82128..91abee1 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -282,7 +282,7 @@ namespace scribbu {
     unsigned char gid() const
     { return group_id_.get(); }
 
-    /// If the dirty flag is set, re-serialize & re-apply compression,
+    /// Re-serialize & re-apply compression,
     /// encryption & unsynchronisation
     void ensure_cached_data_is_fresh(bool last_no_pad = false) const;
     /// Serialize this frame to \a os, exclusive of the frame header, as well
-- 
2.43.0


From c2b5edb501278482d963eac2750224b217b2b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:33 +0000
Subject: [PATCH 048/117] fix: guard a trailing 0xff when unsynchronising

If the last frame ends in 0xff and is followed by padding, reading the tag
back drops the first byte of the padding. Without padding, the size declared
for ID3v2.3 tags counted the guarding zero, but it was not always written.
---
 scribbu/framesv22.cc |  8 ++++++++
 scribbu/framesv22.hh |  2 ++
 scribbu/framesv23.cc |  5 +++--
 scribbu/id3v22.cc    | 12 ++++++++++--
 scribbu/id3v22.hh    |  4 ++++
 scribbu/id3v23.cc    |  8 ++++----
 scribbu/id3v24.cc    |  6 +++++-
 7 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 6747250..d219349 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -108,6 +108,14 @@ scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
   return cache_[idx].size();
 }
 
+/// Return true if the serialized form of this frame ends in 0xff
+bool
+scribbu::id3v2_2_frame::trailing_ff() const
+{
+  ensure_cached_data_is_fresh();
+  return 0xff == cache_[SERIALIZED].back();
+}
+
 /// Return the number of bytes the header will occupy when serialized to
 /// disk, including the header
 std::size_t
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index 600c530..9d0c3a5 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -159,6 +159,8 @@ namespace scribbu {
     /// unsynchronisation scheme if the caller so chooses ("unsynchronised"
     /// will be updated accordingly)
     virtual std::size_t write(std::ostream &os, bool unsync) const;
+    /// Return true if the serialized form of this frame ends in 0xff
+    bool trailing_ff() const;
 
 
     /// Return the number of bytes the header will occupy when serialized to
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 77b7b43..bf17d2e 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -240,11 +240,12 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
       ++num_false_syncs_;
     }
 
-    // and prepare an unsynchronised copy.
+    // and prepare an unsynchronised copy (always guarding a trailing 0xff, which
+    // may be followed by padding).
     unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
                   cache_[SERIALIZED_WITH_CE].begin(),
                   cache_[SERIALIZED_WITH_CE].end(),
-                  last_no_pad);
+                  true);
 
     dirty(false);
   }
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 44fc57c..2e24346 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -256,11 +256,19 @@ scribbu::id3v2_2_tag::flags() const
 std::size_t
 scribbu::id3v2_2_tag::size(bool unsync) const
 {
-  return std::accumulate(begin(), end(), padding(),
+  return std::accumulate(begin(), end(), padding() + cb_padding_guard(unsync),
                         [unsync](size_t n, const id3v2_2_frame &f)
                         { return n + f.serialized_size(unsync); });
 }
 
+/// Return the number of bytes (zero or one) needed to keep the padding from
+/// forming an $ff 00 pair with the last frame when unsynchronising
+std::size_t
+scribbu::id3v2_2_tag::cb_padding_guard(bool unsync) const
+{
+  return unsync && padding() && frames_.size() && frames_.back()->trailing_ff() ? 1 : 0;
+}
+
 /*virtual*/
 bool
 scribbu::id3v2_2_tag::needs_unsynchronisation() const
@@ -284,7 +292,7 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
                          [&os, unsync](size_t n, const id3v2_2_frame &f)
                          { return n + f.write(os, unsync); });
   // & the padding.
-  size_t cbpad = padding();
+  size_t cbpad = padding() + cb_padding_guard(unsync);
   while (cbpad) {
     size_t towrite = min(cbpad, CBPAD);
     os.write(PAD, towrite);
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..45995d7 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -528,6 +528,10 @@ namespace scribbu {
 
   private:
 
+    /// Return the number of bytes (zero or one) needed to keep the padding from
+    /// forming an $ff 00 pair with the last frame when unsynchronising
+    std::size_t cb_padding_guard(bool unsync) const;
+
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2488651..ad00521 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -310,7 +310,8 @@ scribbu::id3v2_3_tag::ext_header::ensure_cached_data_is_fresh() const
                                  true);
   unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
                 cache_[SERIALIZED].begin(),
-                cache_[SERIALIZED].end());
+                cache_[SERIALIZED].end(),
+                true);
 
   dirty_ = false;
 }
@@ -580,8 +581,6 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
     }
   }
 
-  size_t cb_pad = padding();
-
   auto p = begin(), p1 = end();
   if (p != p1) {
     p1 -= 1;
@@ -591,7 +590,8 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
       }
       p += 1;
     }
-    if (p->needs_unsynchronisation(cb_pad == 0)) {
+    // A trailing 0xff needs to be guarded whatever follows (audio or padding)
+    if (p->needs_unsynchronisation(true)) {
       return true;
     }
   }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 0bb3732..3734559 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -659,7 +659,11 @@ scribbu::id3v2_4_tag::needs_unsynchronisation() const
 {
 
   using namespace std;
-  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); });
+  // A trailing 0xff in the last frame needs to be guarded whatever follows
+  // (audio or padding)
+  const id3v2_4_frame *plast = frames_.empty() ? nullptr : frames_.back().get();
+  return all_of(begin(), end(), [plast](const id3v2_4_frame &f)
+                { return f.needs_unsynchronisation(&f == plast); });
 }
 
 /**
-- 
2.43.0


From 3c4368b84480045c3d001ce4fea74a58866846ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:33 +0000
Subject: [PATCH 049/117] fix: clear the unsynchronisation flag when not
 unsynchronising

A tag that had been read unsynchronised & was then written without the scheme
still claimed to be unsynchronised, so that reading it back removed bytes from
its frames.
---
 scribbu/id3v22.cc | 2 +-
 scribbu/id3v23.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 2e24346..373e9be 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -285,7 +285,7 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
   // Write the header... taking care to add the "unsync" flag if we're
   // applying unsynchronisation
   unsigned char f = flags();
-  if (unsync) f |= 0x80;
+  if (unsync) f |= 0x80; else f &= ~0x80;
   write_header(os, f, size(unsync));
   // the frames (note we start the accumulation at 10)...
   size_t cb = accumulate(begin(), end(), 10,
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index ad00521..2af197d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -648,7 +648,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
   using namespace std;
 
   unsigned char f = flags();
-  if (unsync) f |= 0x80;
+  if (unsync) f |= 0x80; else f &= ~0x80;
   write_header(os, f, size(unsync));
   size_t cb = 10;
 
-- 
2.43.0


From 350a5dce8963dcbe82e36fbed162b4c328de63dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:39 +0000
Subject: [PATCH 050/117] fix: write the right size for ID3v2.4 tags with
 padding

The padding was counted twice in the header, so that a reader would skip past
the beginning of the track data. The same size was used when deciding whether a
tagset fits into the space available.
---
 scribbu/id3v2.hh  | 3 +++
 scribbu/id3v24.cc | 5 +++--
 scribbu/id3v24.hh | 4 ++++
 scribbu/tagset.hh | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..4019cc5 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -697,6 +697,9 @@ namespace scribbu {
     /// ID3v2 header (i.e. return the total tag size on disk, in bytes, less
     /// ten)
     virtual std::size_t size(bool unsync = false) const = 0;
+    /// Return the number of bytes write() will write
+    virtual std::size_t serialized_size(bool unsync = false) const
+    { return size(unsync) + ID3V2_HEADER_SIZE; }
     /// Return true if the serialization of this tag would contain false syncs
     /// if serialized in its present state
     virtual bool needs_unsynchronisation() const = 0;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 3734559..237a2a6 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -721,7 +721,8 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   using namespace std;
 
   // Write the header...
-  write_header(os, flags(), size(unsync));
+  size_t cbtag = serialized_size(unsync) - 10;
+  write_header(os, flags(), cbtag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -742,7 +743,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, flags(), cbtag);
   }
 
   return cb;
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 5602288..d397d97 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -254,6 +254,10 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
+    /// Return the number of bytes write() will write (NB. size() counts the
+    /// padding twice)
+    virtual std::size_t serialized_size(bool unsync = false) const
+    { return size(unsync) + ID3V2_HEADER_SIZE - padding(); }
     /// Return true if all frames would contain false syncs if serialized in
     /// their present state
     virtual bool needs_unsynchronisation() const;
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..4455d36 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -499,7 +499,7 @@ namespace scribbu {
     size_t cb_tot = 0, cb_pad = 0;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      cb_tot += (*p0)->size(do_unsync) + 10;
+      cb_tot += (*p0)->serialized_size(do_unsync);
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
-- 
2.43.0


From 9023ee29502a491f7bf20c11c10f5be248135d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:39 +0000
Subject: [PATCH 051/117] fix: account for the footer of ID3v2.4 tags

The size in the header of an ID3v2.4 tag does not include the footer, but it
was counted when writing. On reading, the footer was taken for the beginning of
the track data.
---
 scribbu/id3v2.cc  |  3 +++
 scribbu/id3v2.hh  |  1 +
 scribbu/id3v24.cc | 11 +++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..b3fad26 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -198,6 +198,9 @@ scribbu::looking_at_id3v2(std::istream &is,
           0x80 > buf[8] && 0x80 > buf[9]) {
 
         H.size_ = unsigned_from_sync_safe(buf[6], buf[7], buf[8], buf[9]);
+        if (4 == H.version_ && 0 != (H.flags_ & 0x10)) {
+          H.size_ += 10; // The footer is not counted in the header
+        }
         H.present_ = true;
 
       } // End if on bytes 6-9 being a sync-safe int.
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 4019cc5..3dd9d47 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -445,6 +445,7 @@ namespace scribbu {
     unsigned char version_;
     unsigned char revision_;
     unsigned char flags_;
+    /// Size of the tag, in bytes, less the header (including any footer)
     std::uint32_t size_;
   };
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 237a2a6..873d592 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -480,7 +480,7 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::istream     &is,
                                                   generic_parsers_.begin()));
   get_default_text_frame_parsers(std::inserter(text_parsers_,
                                                   text_parsers_.begin()));
-  parse(is, H.size_, H.flags_ & 0x40);
+  parse(is, H.size_ - (footer_ ? 10 : 0), H.flags_ & 0x40);
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
@@ -721,7 +721,8 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   using namespace std;
 
   // Write the header...
-  size_t cbtag = serialized_size(unsync) - 10;
+  // NB. the size in the header does not include the footer
+  size_t cbtag = serialized_size(unsync) - 10 - (has_footer() ? 10 : 0);
   write_header(os, flags(), cbtag);
   size_t cb = 10;
 
@@ -1285,6 +1286,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     std::unique_ptr<unsigned char[]> pb(new unsigned char[cb_tag]);
     is.read((char*)pb.get(), cb_tag);
 
+    // The footer repeats the header; just move past it.
+    if (footer_) {
+      unsigned char footer[10];
+      is.read((char*)footer, sizeof(footer));
+    }
+
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
 
-- 
2.43.0


From 7ded9fc070f5e39cc1756cbd2a0a5a93d5be0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:39 +0000
Subject: [PATCH 052/117] fix: write well-formed ID3v2.4 extended headers

The lengths of the checksum & of the restrictions were omitted, and the checksum
was written in four bytes rather than five (or not at all, for want of room).
Extended headers whose contents exceed their size are rejected.
---
 scribbu/id3v24.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 873d592..2ce53bb 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -196,6 +196,11 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
+  const unsigned char *pend = p0 + size_;
+  if (pend > p1) {
+    throw invalid_ext_header();
+  }
+
   std::size_t num_flag_bytes = p0[4];
 
   if (!num_flag_bytes) {
@@ -284,6 +289,10 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
     p0 += 2;
   }
 
+  if (p0 > pend) {
+    throw invalid_ext_header();
+  }
+
 }
 
 std::size_t
@@ -373,9 +382,13 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    // The CRC is a sync-safe integer of five bytes (i.e. 35 bits)
+    uint32_t x = crc(tag);
+    buf[0] = 0x05;
+    buf[1] = x >> 28;
+    sync_safe_from_unsigned(x & 0xfffffff, buf + 2);
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -442,8 +455,15 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    buf[0] = 0x01;
+    buf[1] = tagr;
+    os.write((char*)buf, 2);
+    cb += 2;
+  }
+
+  // There may have been data for flags of which we know nothing.
+  for ( ; cb < size(); ++cb) {
+    os.put(0);
   }
 
   return cb;
-- 
2.43.0


From 153862eed9f592f846145b14dea95dd5f5e25775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:39 +0000
Subject: [PATCH 053/117] fix: recompute the checksum of ID3v2.4 tags on write

The checksum read was written back even if the frames had been changed since.
---
 scribbu/id3v24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 2ce53bb..949154f 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -317,7 +317,7 @@ std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc(const id3v2_4_tag &tag) const
 {
   using namespace std;
-  if (crc_dirty_) {
+  {
     crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
                       [](uint32_t checksum, const id3v2_4_frame &F)
                       { return F.crc(checksum); });
-- 
2.43.0


From f5525c55e8b8e8ebfee09fb44093dbefcd29081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:39 +0000
Subject: [PATCH 054/117] fix: encode ID3v2.4 text as ISO-8859-1, not
 ISO-8859-8

---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 24ecc60..5164319 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -293,7 +293,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
-- 
2.43.0


From 668a5d9dcf9451817f6d3752c5911946f10a528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:17 +0000
Subject: [PATCH 055/117] fix: unsynchronise ID3v2.4 tags frame by frame

In ID3v2.4, each frame has an unsynchronisation flag, and the size of a frame
is that after unsynchronisation. Tags written unsynchronised had neither flags
nor the right frame sizes, and the scheme was not undone on reading.
---
 scribbu/framesv23.cc | 25 ++++++++++++++-----------
 scribbu/framesv23.hh |  4 ++++
 scribbu/framesv24.cc | 21 ++++++++++++++++++---
 scribbu/framesv24.hh | 12 ++++++++++++
 scribbu/id3v24.cc    | 24 ++++++++++++++++++++++--
 5 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index bf17d2e..d53bb91 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -151,7 +151,6 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
 {
   using namespace std;
   using scribbu::detail::count_syncs;
-  using scribbu::detail::unsynchronise;
 
   // This logic is still too complex for my tastes, but this is as simple
   // as I've been able to get it so far. Our contents may have been changed
@@ -213,10 +212,8 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
     // unsynchronise the payload.
 
     // What I'm doing instead is assembling the entire frame payload in
-    // `cache_', & then applying unsynchronisation to that.  In the case of
-    // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-    // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-    // writing the header & then unsynchronising the payload.
+    // `cache_', & then applying unsynchronisation to that. In the case of
+    // ID3v2.4, `unsynchronise_frame()' will update the frame header, too.
 
     // Serialize the frame header...
     stringstream hdr;
@@ -240,18 +237,24 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
       ++num_false_syncs_;
     }
 
-    // and prepare an unsynchronised copy (always guarding a trailing 0xff, which
-    // may be followed by padding).
-    unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
-                  cache_[SERIALIZED_WITH_CE].begin(),
-                  cache_[SERIALIZED_WITH_CE].end(),
-                  true);
+    // and prepare an unsynchronised copy.
+    unsynchronise_frame(cache_[SERIALIZED_WITH_CE], cache_[SERIALIZED_WITH_CEU]);
 
     dirty(false);
   }
 
 }
 
+/// Apply the unsynchronisation scheme to the serialized form of this frame
+/*virtual*/
+void
+scribbu::id3v2_3_plus_frame::unsynchronise_frame(const std::vector<unsigned char> &in,
+                                                 std::vector<unsigned char> &out) const
+{
+  // Always guard a trailing 0xff, which may be followed by padding
+  detail::unsynchronise(std::back_inserter(out), in.begin(), in.end(), true);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                            class private_frame                            //
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 91abee1..f6c38cc 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -294,6 +294,10 @@ namespace scribbu {
     virtual std::size_t write_header(std::ostream &os,
                                      std::size_t cb_payload,
                                      std::size_t dlind) const = 0;
+    /// Apply the unsynchronisation scheme to \a in, the serialized form of this
+    /// frame, appending the result to \a out
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &in,
+                                     std::vector<unsigned char> &out) const;
 
   private:
 
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 5164319..cd0373d 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -114,9 +114,6 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
     sz += 1;
     cb += 1;
   }
-  if (unsynchronised_) {
-    flags[1] |= 2;
-  }
   // A compressed frame shall have a data length indicator
   bool fdli = compressed_ || data_len_indicator_;
   if (fdli) {
@@ -154,6 +151,24 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   return cb;
 }
 
+/// Apply the unsynchronisation scheme to the serialized form of this frame,
+/// except for the header, which will be updated accordingly
+/*virtual*/
+void
+scribbu::id3v2_4_frame::unsynchronise_frame(const std::vector<unsigned char> &in,
+                                            std::vector<unsigned char> &out) const
+{
+  const std::size_t HDR = 10;
+
+  out.assign(in.begin(), in.begin() + HDR);
+  detail::unsynchronise(std::back_inserter(out), in.begin() + HDR, in.end(), true);
+
+  // The size is that of the frame as written...
+  detail::sync_safe_from_unsigned(out.size() - HDR, &out[4]);
+  // and each frame has its own unsynchronisation flag.
+  out[9] |= 2;
+}
+
 
 ///////////////////////////////////////////////////////////////////////////////
 //                        class unknown_id3v2_3_frame                        //
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index f6fe5d4..32cc854 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -146,11 +146,23 @@ namespace scribbu {
     bool unsynchronised() const
     { return unsynchronised_; }
 
+    // In ID3v2.4, frames may be unsynchronised individually.
+    virtual std::size_t serialized_size(bool unsync, bool last_no_pad = false) const
+    { return id3v2_3_plus_frame::serialized_size(unsync || unsynchronised_, last_no_pad); }
+    virtual std::size_t needs_unsynchronisation(bool last_no_pad = false) const
+    { return unsynchronised_ ? 0 : id3v2_3_plus_frame::needs_unsynchronisation(last_no_pad); }
+    virtual std::size_t write(std::ostream &os, bool unsync) const
+    { return id3v2_3_plus_frame::write(os, unsync || unsynchronised_); }
+
   protected:
     /// Serialize this tag's header to an output stream, including any special
     /// fields such as decompressed size, group id, &c
     virtual std::size_t write_header(std::ostream &os, std::size_t cb_payload,
                                      std::size_t dlind) const;
+    /// Apply the unsynchronisation scheme to the serialized form of this frame,
+    /// except for the header, which will be updated accordingly
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &in,
+                                     std::vector<unsigned char> &out) const;
 
   private:
     bool compressed_;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 949154f..9b3cfab 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -743,7 +743,9 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   // Write the header...
   // NB. the size in the header does not include the footer
   size_t cbtag = serialized_size(unsync) - 10 - (has_footer() ? 10 : 0);
-  write_header(os, flags(), cbtag);
+  unsigned char f = flags();
+  if (unsync) f |= 0x80; else f &= ~0x80;
+  write_header(os, f, cbtag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -764,7 +766,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), cbtag);
+    write_footer(os, f, cbtag);
   }
 
   return cb;
@@ -1394,6 +1396,15 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+
+        // Undo the unsynchronisation scheme, if it was applied to this frame.
+        std::vector<unsigned char> resynced;
+        if (0 != (f1 & 0x02) || (unsynchronised() && *unsynchronised())) {
+          resynced.assign(pread, pread + cb_read);
+          cb_read = resynchronise(resynced.data(), cb_read);
+          pread = resynced.data();
+        }
+
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
           if (cb_read < 1) {
@@ -1518,6 +1529,15 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+
+      // Undo the unsynchronisation scheme, if it was applied to this frame.
+      std::vector<unsigned char> resynced;
+      if (0 != (f1 & 0x02) || (unsynchronised() && *unsynchronised())) {
+        resynced.assign(pread, pread + cb_read);
+        cb_read = resynchronise(resynced.data(), cb_read);
+        pread = resynced.data();
+      }
+
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
         if (cb_read < 1) {
-- 
2.43.0


From 158ef3f6c5627b0aae1347368f530ef261567091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:32 +0000
Subject: [PATCH 056/117] fix: keep a tag's lookup tables in step with its
 frames

Inserting or removing a frame did not adjust the positions recorded for the
frames behind it. Comments, play counts & ratings were not recorded in all
cases, new comments & user-defined text were accessed after having been moved
from, and removing frames that had not been recorded was undefined.
---
 scribbu/id3v22.cc | 207 ++++++++++-----------------------------------
 scribbu/id3v22.hh |   6 +-
 scribbu/id3v23.cc | 208 ++++++++++------------------------------------
 scribbu/id3v23.hh |   6 +-
 scribbu/id3v24.cc | 204 ++++++++++-----------------------------------
 scribbu/id3v24.hh |   6 +-
 6 files changed, 140 insertions(+), 497 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 373e9be..8235f74 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -330,9 +330,8 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
 
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 
 }
 
@@ -349,9 +348,8 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
 
-  ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -387,8 +385,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -400,35 +398,10 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -439,9 +412,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -449,20 +421,9 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -470,20 +431,9 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -491,20 +441,9 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -512,20 +451,9 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -536,24 +464,17 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -561,16 +482,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -578,16 +493,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -595,16 +504,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -615,8 +518,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -663,20 +565,18 @@ scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -692,48 +592,27 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
-{
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
-  }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
-  }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
+scribbu::id3v2_2_tag::rebuild_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_2_frame *pf = frames_[i].get();
+    if (auto pcom = dynamic_cast<COM*>(pf)) {
+      add_frame_to_lookups(*pcom, i);
+    } else if (auto pcnt = dynamic_cast<CNT*>(pf)) {
+      add_frame_to_lookups(*pcnt, i);
+    } else if (auto ppop = dynamic_cast<POP*>(pf)) {
+      add_frame_to_lookups(*ppop, i);
+    } else if (auto ptxt = dynamic_cast<id3v2_2_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    } else {
+      add_frame_to_lookups(*pf, i);
     }
-    text_map_.erase(p);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 45995d7..2f55b86 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -532,9 +532,9 @@ namespace scribbu {
     /// forming an $ff 00 pair with the last frame when unsynchronising
     std::size_t cb_padding_guard(bool unsync) const;
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    /// Re-build all our ancillary datastructures from the frames
+    void rebuild_lookups();
+    /// Add a frame to our ancillary datastructures
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2af197d..2b2722d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -706,10 +706,8 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -727,10 +725,8 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const TXXX &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -766,8 +762,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -779,35 +775,10 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -818,9 +789,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -828,20 +798,9 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -849,20 +808,9 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -870,20 +818,9 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -891,20 +828,9 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -915,8 +841,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -924,16 +849,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -941,16 +860,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -958,32 +871,22 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
+
   return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
+
   return iterator(this, p1);
 }
 
@@ -993,8 +896,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -1041,20 +943,18 @@ scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1070,45 +970,27 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_3_frame *pf = frames_[i].get();
+    if (auto pcom = dynamic_cast<COMM*>(pf)) {
+      add_frame_to_lookups(*pcom, i);
+    } else if (auto pcnt = dynamic_cast<PCNT*>(pf)) {
+      add_frame_to_lookups(*pcnt, i);
+    } else if (auto ppop = dynamic_cast<POPM*>(pf)) {
+      add_frame_to_lookups(*ppop, i);
+    } else if (auto ptxt = dynamic_cast<id3v2_3_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    } else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..3b94895 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,9 +590,9 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Re-build all our ancillary datastructures from the frames
+    void rebuild_lookups();
+    /// Add a frame to our ancillary datastructures
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9b3cfab..fbe2bee 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -802,9 +802,8 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -823,9 +822,8 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -861,8 +859,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -873,35 +871,10 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -912,9 +885,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -922,20 +894,9 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -943,20 +904,9 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -964,20 +914,9 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -985,20 +924,9 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -1009,24 +937,17 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1034,16 +955,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1051,16 +966,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1068,16 +977,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1088,8 +991,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -1136,20 +1038,18 @@ scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1177,45 +1077,27 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
 }
 
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_4_frame *pf = frames_[i].get();
+    if (auto pcom = dynamic_cast<COMM_2_4*>(pf)) {
+      add_frame_to_lookups(*pcom, i);
+    } else if (auto pcnt = dynamic_cast<PCNT_2_4*>(pf)) {
+      add_frame_to_lookups(*pcnt, i);
+    } else if (auto ppop = dynamic_cast<POPM_2_4*>(pf)) {
+      add_frame_to_lookups(*ppop, i);
+    } else if (auto ptxt = dynamic_cast<id3v2_4_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    } else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index d397d97..a36472d 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -629,9 +629,9 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Re-build all our ancillary datastructures from the frames
+    void rebuild_lookups();
+    /// Add a frame to our ancillary datastructures
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From c374942362e4060430c575cf53a7003baeb08878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:32 +0000
Subject: [PATCH 057/117] fix: copy tags correctly

Copying an ID3v2.3 or ID3v2.4 tag copied its version & flags from the new,
uninitialised tag, and de-referenced a null pointer in the absence of an extended
header. Copies recorded the wrong positions for their frames & did not record
their text frames, comments, play counts & ratings at all.
---
 scribbu/id3v22.cc |  6 +++---
 scribbu/id3v23.cc | 10 +++++-----
 scribbu/id3v24.cc | 14 ++++++++------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 8235f74..6afdfb8 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,14 +207,14 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
@@ -228,8 +228,8 @@ scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
     text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
     }
+    rebuild_lookups();
   }
   return *this;
 }
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2b2722d..53bf41d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -355,7 +355,7 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
@@ -366,21 +366,21 @@ scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
     if (frames_.back()->id() == frame_id4("ENCR")) {
       register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
     }
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
@@ -393,11 +393,11 @@ scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
       if (frames_.back()->id() == frame_id4("ENCR")) {
         register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
       }
     }
+    rebuild_lookups();
   }
   return *this;
 }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index fbe2bee..bd949cf 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -517,32 +517,34 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
   padding_(that.padding_)
 {
+  if (that.pext_header_) {
+    pext_header_.reset(new ext_header(*that.pext_header_));
+  }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
     if (frames_.back()->id() == frame_id4("ENCR")) {
       register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
     }
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
@@ -555,11 +557,11 @@ scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
       if (frames_.back()->id() == frame_id4("ENCR")) {
         register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
       }
     }
+    rebuild_lookups();
   }
 
   return *this;
-- 
2.43.0


From 19f5e1ae370ac32778cd925c693366dbdfc8a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:32 +0000
Subject: [PATCH 058/117] fix: initialise new ID3v2.2 tags

The padding requested was ignored, and the compression flag not initialised.
---
 scribbu/id3v22.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 2f55b86..7831c69 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false):
+      id3v2_tag(2, 0), compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From b016ecdb0d51cba5763b83e5b9953fd3c9b66d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:32 +0000
Subject: [PATCH 059/117] fix: report frames that are not there

Asking a tag for a frame it does not have de-referenced the end of a map.
---
 scribbu/id3v22.hh | 3 +++
 scribbu/id3v23.hh | 3 +++
 scribbu/id3v24.hh | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 7831c69..8477099 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -306,6 +306,9 @@ namespace scribbu {
 
     const id3v2_2_frame& get_frame(const frame_id3 &id) const {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 3b94895..bc5322a 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -411,6 +411,9 @@ namespace scribbu {
     const id3v2_3_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index a36472d..4d27a36 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -451,6 +451,9 @@ namespace scribbu {
     const id3v2_4_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
-- 
2.43.0


From cf0ae23f6deca09ccbd38aa15bbd451ad63e439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:31 +0000
Subject: [PATCH 060/117] fix: update the padding declared in the ID3v2.3
 extended header

---
 scribbu/id3v23.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index bc5322a..796302f 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -173,6 +173,8 @@ namespace scribbu {
       { return *crc_; }
       std::size_t padding_size() const
       { return cbpad_; }
+      void padding_size(std::size_t cbpad)
+      { cbpad_ = cbpad; dirty_ = true; }
       /// Write this header to an ostream without unsynchronisation; if this header
       /// is configured to include a CRC, it will be updated based on \a tag
       std::size_t write(std::ostream &os, bool unsync = false) const;
@@ -242,7 +244,12 @@ namespace scribbu {
     virtual std::size_t padding() const
     { return padding_; }
     virtual void padding(std::size_t padding)
-    { padding_ = padding; }
+    {
+      padding_ = padding;
+      if (pext_header_) {
+        pext_header_->padding_size(padding);
+      }
+    }
 
     /////////////////////////////////////////////////////////////////////////////
     //                    Frames Common to all ID3v2 Tags                      //
-- 
2.43.0


From 9fe3eb0fa5d113d0075841d0e707cc2063aba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:55 +0000
Subject: [PATCH 061/117] fix: consume the header before reading the tag in
 read_id3v2

---
 scribbu/id3v2-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index b9b4a1e..abd939d 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -72,7 +72,7 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
     ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
   }
 
-  id3v2_info I = looking_at_id3v2(ifs, true);
+  id3v2_info I = looking_at_id3v2(ifs, false);
   if (!I.present_) {
     throw std::invalid_argument("bad index");
   }
-- 
2.43.0


From c61c6f373e88238a607b2029d1a50268fbf9d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:58 +0000
Subject: [PATCH 062/117] fix: use the ID3v2.2 identifiers the specification
 defines for text frames

---
 scribbu/framesv2.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 25f775c..fcb10cd 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -356,7 +356,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
@@ -387,8 +387,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
-- 
2.43.0


From 81cf4a62943ae2a0988154ef3bef8cdecc48756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 063/117] fix: find the existing backups of files named by
 relative paths

---
 scribbu/tagset.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 4455d36..50b9e95 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,13 +219,13 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      auto prefix = pth.filename().string();
       size_t nprefix = prefix.length();
 
       vector<path> entries;
       for (directory_iterator p0(here), p1; p0 != p1; ++p0) {
 
-        string s = p0->path().string();
+        string s = p0->path().filename().string();
 
         // we can eliminuate most entries by simply matching the
         // first part of the string against `prefix'.
-- 
2.43.0


From 7cc2a4dbe182cd7e5f770772f7a9e63db4618e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 064/117] fix: clean up and restore properly when the temporary
 file is on another device

---
 scribbu/tagset.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 50b9e95..8f9564b 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -453,15 +453,17 @@ namespace scribbu {
         // and attempt the copy & remmove
         try {
           fs::copy_file(tmpnam, pth);
-          if (! keep_backup) {
-            fs::remove(tmpnam);
-          }
         } catch (const std::exception &ex) {
           // Well, we're kind of screwed. At least attempt to put the original
-          // file back.
-          fs::copy(cp, pth, ec); // `ec' ignored intentionally on return
+          // file back; `pth' may have been partially written.
+          fs::copy_file(cp, pth, fs::copy_options::overwrite_existing,
+                        ec); // `ec' ignored intentionally on return
           throw;
         }
+        fs::remove(tmpnam);
+        if (! keep_backup) {
+          fs::remove(cp);
+        }
       } else {
         throw std::system_error(ec);
       }
-- 
2.43.0


From 6f3c284ed319cd27f840b5c5ad54277dccc72287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 065/117] fix: never reduce the padding of a tag below zero

---
 scribbu/tagset.hh | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 8f9564b..e1aa2fe 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -662,21 +662,33 @@ namespace scribbu {
 
     ptrdiff_t total_adj = cb_new - cb_curr;
     ptrdiff_t num_tags = std::distance(p0, p1);
-    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
-    size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
+    ptrdiff_t total_pad = 0;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      total_pad += (*p)->padding();
+    }
+    if (0 == num_tags || total_pad + total_adj < 0) {
       throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
     }
-    (*p0)->padding(pad + adj + mu);
-    ++p0;
 
-    for ( ; p0 != p1; ++p0) {
-      pad = (*p0)->padding();
-      if (adj < 0 && -adj > pad) {
-        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
-      }
-      (*p0)->padding(pad + adj);
+    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
+
+    // Each tag gets the same adjustment, and the first one the remainder. If a
+    // tag doesn't have enough padding for its share, pass the rest on to the
+    // following tags...
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      ptrdiff_t pad = (*p)->padding(), want = adj + mu;
+      ptrdiff_t got = std::max(want, -pad);
+      (*p)->padding(pad + got);
+      mu = want - got;
+    }
+
+    // and whatever they couldn't take to the preceding ones.
+    for (forward_input_iterator p = p0; p != p1 && mu < 0; ++p) {
+      ptrdiff_t pad = (*p)->padding();
+      ptrdiff_t got = std::max(mu, -pad);
+      (*p)->padding(pad + got);
+      mu -= got;
     }
   }
 
-- 
2.43.0


From 377c7231d93d75b91dec4edff8c3f13206124f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 066/117] fix: remove every tag when given an empty tagset

---
 scribbu/tagset.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index e1aa2fe..040e258 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -732,7 +732,13 @@ namespace scribbu {
     size_t subs_sz, subs_pad;
     std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (subs_sz <= curr_sz) {
+    if (p0 == p1) {
+      // There's no padding that could take up the space of the extant tags
+      if (curr_sz) {
+        replace_tagset_copy(pth, p0, p1, unsync, keep_backup_on_copy);
+      }
+    }
+    else if (subs_sz <= curr_sz) {
       // we can emplace
       if (subs_sz < curr_sz) {
         adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-- 
2.43.0


From 51448179bc4500d100ae89651e7aac3f9b6d65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 067/117] fix: report errors when writing a tagset to a new
 file

---
 scribbu/tagset.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 040e258..b1e9cf3 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -754,10 +754,11 @@ namespace scribbu {
     else if (!fs::exists(pth)) {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
+      ofs.exceptions(std::ios::failbit | std::ios::badbit);
       for ( ; p0 != p1; ++p0) {
         (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
       }
-
+      ofs.close();
     }
     else {
       // no way-- we need to copy
-- 
2.43.0


From 6deeb0f193dbdb6d6c1499c8083d162a5fc63074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 068/117] fix: report errors when replacing or removing ID3v1
 tags

---
 scribbu/id3v1.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index e6d2073..651a7b1 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -567,6 +567,9 @@ scribbu::maybe_remove_id3v1(const fs::path &pth)
   try {
     ifs.open(pth, std::ifstream::binary);
   } catch (const std::ios_base::failure&) {
+    if (fs::exists(pth)) {
+      throw;
+    }
     return;
   }
 
@@ -592,4 +595,5 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
   std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
   ofs.exceptions(EXC_MASK);
   tag.write(ofs);
+  ofs.close();
 }
-- 
2.43.0


From 2c6df55dff1dde9fe3bad7b2881a2d5f2c259eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:43 +0000
Subject: [PATCH 069/117] fix: do not mistake read errors for missing tags

---
 scribbu/id3v1.cc | 12 ++++++++++++
 scribbu/id3v2.cc |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 651a7b1..991a4d6 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -509,8 +509,14 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
     }
   }
   catch (const std::ios_base::failure &ex) {
+    bool io_error = is.bad();
     is.exceptions(std::ios_base::goodbit);
     is.clear();
+    if (io_error) {
+      is.seekg(here, std::ios_base::beg);
+      is.exceptions(exc_mask);
+      throw;
+    }
     is.exceptions(EXC_MASK);
   }
 
@@ -525,8 +531,14 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       }
     }
     catch (const std::ios_base::failure &ex) {
+      bool io_error = is.bad();
       is.exceptions(std::ios_base::goodbit);
       is.clear();
+      if (io_error) {
+        is.seekg(here, std::ios_base::beg);
+        is.exceptions(exc_mask);
+        throw;
+      }
     }
 
   }
diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index b3fad26..3b8582b 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -178,9 +178,13 @@ scribbu::looking_at_id3v2(std::istream &is,
   try {
     is.read((char*)buf, ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
+    bool io_error = is.bad();
     is.clear();
     is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
+    if (io_error) {
+      throw;
+    }
     return H;
   }
 
-- 
2.43.0


From 3e131da0dbe7e332ef31d4490e5202c057657a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:09 +0000
Subject: [PATCH 070/117] fix: copy when the tagset cannot be padded to the
 size of the extant one

---
 scribbu/tagset.hh | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index b1e9cf3..190a4eb 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -738,18 +738,29 @@ namespace scribbu {
         replace_tagset_copy(pth, p0, p1, unsync, keep_backup_on_copy);
       }
     }
-    else if (subs_sz <= curr_sz) {
+    else if (subs_sz == curr_sz) {
       // we can emplace
-      if (subs_sz < curr_sz) {
-        adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-      }
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
-    else if (curr_sz >= subs_sz - subs_pad &&
-             emplace_strategy::only_with_full_padding != estrat) {
-      // we can emplace, if we reduce the padding in [p0,p1)
+    else if (subs_sz < curr_sz ||
+             (curr_sz >= subs_sz - subs_pad &&
+              emplace_strategy::only_with_full_padding != estrat)) {
+      // we can emplace, if we adjust the padding in [p0,p1)
+      std::vector<size_t> pads;
+      for (forward_input_iterator p = p0; p != p1; ++p) {
+        pads.push_back((*p)->padding());
+      }
       adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-      replace_tagset_emplace(pth, p0, p1, unsync);
+      if (curr_sz == std::get<0>(tagset_sizes(p0, p1, unsync))) {
+        replace_tagset_emplace(pth, p0, p1, unsync);
+      } else {
+        // Changing the padding changed what the unsynchronisation scheme adds
+        auto ppad = pads.begin();
+        for (forward_input_iterator p = p0; p != p1; ++p) {
+          (*p)->padding(*ppad++);
+        }
+        replace_tagset_copy(pth, p0, p1, unsync, keep_backup_on_copy);
+      }
     }
     else if (!fs::exists(pth)) {
       // Special case-- output file does not exist
-- 
2.43.0


From e31a4dd08599e4e93a9001f92ab3f45f299bc5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 071/117] fix: set the genre in ID3v2 tags that have none

---
 src/genre.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..b908002 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -366,7 +366,8 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -377,7 +378,8 @@ set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -388,7 +390,8 @@ set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
-- 
2.43.0


From f41db797162261d5dc368b66608d5e50cdf07eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 072/117] fix: create ID3v1 tags from ID3v2 tags that lack some
 frames

---
 src/command-utilities.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 1104880..d5245b3 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -444,7 +444,11 @@ namespace detail {
     using namespace scribbu;
     string text;
     auto p = find_if(p0, p1, [&](const unique_ptr<id3v2_tag> &p) {
-      text = p->text(frm);
+      try {
+        text = p->text(frm);
+      } catch (const id3v2_tag::unknown_frame_error&) {
+        text.clear(); // not in this tag
+      }
       return !text.empty();
     });
     return make_tuple(p != p1, text);
@@ -461,7 +465,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     auto p = find_if(p0, p1, [&](const T &p) {
-      text = p->year();
+      text = p->has_year() ? p->year() : string();
       return 4 == text.length();
     });
     if (p != p1) {
@@ -483,7 +487,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     for_each(p0, p1, [&](const T &p) {
-      string text = p->content_type();
+      string text = p->has_content_type() ? p->content_type() : string();
       if (text.length()) {
         size_t dl;
         string textual_genre;
-- 
2.43.0


From fb6768d2db41ee84a9ba4b8cc002ee807b843c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 073/117] fix: accept ID3v1 genres of more than one digit

---
 src/genre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index b908002..e165d6f 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -841,7 +841,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1,v", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
@@ -952,7 +952,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From a8e5d20487b656ce2554b4dee7cb9c0dbf65192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 074/117] fix: make -v unambiguous in scribbu genre

---
 doc/scribbu-genre.1 | 2 +-
 src/genre.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/scribbu-genre.1 b/doc/scribbu-genre.1
index 46b066e..3b336a5 100644
--- a/doc/scribbu-genre.1
+++ b/doc/scribbu-genre.1
@@ -26,7 +26,7 @@ scribbu genre \- Set the genre for one or more files
 .br
 [-G |--Genre=]GENRE
 .br
-[-v |--v1=]NUMERICAL-GENRE
+[--v1=]NUMERICAL-GENRE
 .br
 [-W|--list-winamp-genres]
 .br
diff --git a/src/genre.cc b/src/genre.cc
index e165d6f..46de753 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -841,7 +841,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
+      ("v1", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
-- 
2.43.0


From 57d9a690159bfaf10129de72f5acadd98adb3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 075/117] fix: process the selected ID3v2 tags in whatever
 order they are given

---
 src/command-utilities.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..e38bbb5 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (find(tags.begin(), tags.end(), i) != tags.end()) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
@@ -355,7 +355,6 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
-        tags.pop_front();
         dirty = dirty || upd;
       } // End if on `tags'
     } // End iteration over `v2'
-- 
2.43.0


From 294157932faec17e9a58d98846f0937a123fe094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 076/117] fix: do not rewrite the file on scribbu xtag --get

---
 src/xtag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..2a6fa19 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -287,7 +287,7 @@ private:
       num_xtag++;
     } // End iteration over `tag''s frames.
 
-    bool upd = num_xtag != 0;
+    bool upd = num_xtag != 0 && !get_;
     if (!num_xtag && create_ && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
-- 
2.43.0


From c33d236ec50c76f195fb3972d66ece38ceaad2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 077/117] fix: honour --tag in scribbu popm

---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..9abc47c 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -851,7 +851,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From 6b30350930b6f79a3f88b4a168cecbe0822accc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 078/117] fix: leave POPM frames alone when only play counts
 are to be updated

---
 src/popm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 9abc47c..7a005f9 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -373,7 +373,8 @@ private:
         popm_type &G = dynamic_cast<popm_type&>(F);
         string email = G.template email<string>();
         size_t new_pc = G.count();
-        if (!owner_ || email == *owner_) {
+        if (frame_policy::pcnt_only != frame_policy_ &&
+            (!owner_ || email == *owner_)) {
           new_pc = process_popm<traits_type>(G, email);
           ++num_popm;
         }
-- 
2.43.0


From ed58889068a7108abd27bb66457dd84d3ada6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 079/117] fix: add the tag cloud to ID3v2 tags created by
 scribbu xtag

---
 src/xtag.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index 2a6fa19..fba6c2b 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -222,6 +222,8 @@ private:
    * XTAG frame will be added to the tag or merged with an extant frame
    * according to the program options
    *
+   * \param create [in] if true, add an XTAG frame to tags that have none
+   *
    * \return true if the tag was modified in any way, false else (NB this value
    * ignores the "dry-run" flag; i.e. if `--dry-run' was given, and the tag
    * *would* have been modified, this method will still return true
@@ -243,7 +245,7 @@ private:
 
   template <typename tag_type>
   bool
-  process_tag(tag_type &tag)
+  process_tag(tag_type &tag, bool create)
   {
     using namespace std;
 
@@ -288,7 +290,7 @@ private:
     } // End iteration over `tag''s frames.
 
     bool upd = num_xtag != 0 && !get_;
-    if (!num_xtag && create_ && !get_) {
+    if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
           tag_cloud_ << endl;
@@ -394,7 +396,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2(const scribbu::id3v1_tag &v1)
 {
   auto p = copy_id3_v1(v1);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -404,7 +406,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2()
 {
   auto p = std::make_unique<scribbu::id3v2_3_tag>(DEFAULT_PADDING);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -419,21 +421,21 @@ xtag_processor::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.3 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.4 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 namespace {
-- 
2.43.0


From eb7c8da06420cbf4a555830cc77d49e1445f9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 080/117] fix: let SCRIBBU_CREATE name an existing option

---
 src/popm.cc | 2 +-
 src/xtag.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 7a005f9..5af47cf 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -803,7 +803,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
diff --git a/src/xtag.cc b/src/xtag.cc
index fba6c2b..8ff1613 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -550,7 +550,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0


From 7ac906964f7d03fe184b38629dcd04f5743377a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 081/117] fix: update the ID3v1 tag in scribbu text

---
 src/text.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index c673fcd..e7481be 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -112,7 +112,7 @@ public:
            v2_creation_policy v2cp, bool verbose, bool adj_unsync,
            bool create_backups):
     tagset_processor(v2_simple_tag_scope_policy::all,
-                     v1_tag_scope_policy::no,
+                     v1_tag_scope_policy::yes,
                      v2cp,
                      v1_creation_policy::never,
                      false,
@@ -232,17 +232,23 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
   using namespace std;
   using namespace scribbu;
 
+  // The ID3v1 tag is in the system encoding; do the best we can
+  const on_no_encoding RSP = on_no_encoding::transliterate;
+
   size_t num_deltas = 0;
   for_each(dels_.begin(), dels_.end(), [&](scribbu::id3v2_text_frames id) {
     switch (id) {
     case id3v2_text_frames::tit2:
       v1.set_title(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(string());
+      ++num_deltas;
       break;
     default:
       // do nothing
@@ -253,13 +259,16 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
   for_each(adds_.begin(), adds_.end(), [&](const strings_type::value_type &x) {
     switch (x.first) {
     case id3v2_text_frames::tit2:
-      v1.set_title(x.second, enc_);
+      v1.set_title(x.second, enc_, boost::none, false, RSP);
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
-      v1.set_artist(x.second, enc_);
+      v1.set_artist(x.second, enc_, boost::none, false, RSP);
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
-      v1.set_album(x.second, enc_);
+      v1.set_album(x.second, enc_, boost::none, false, RSP);
+      ++num_deltas;
       break;
     default:
       // do nothing
-- 
2.43.0


From 3fd4ca07c2e0181134667ee4fc869099afc67770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 082/117] fix: report write errors in scribbu split

---
 src/split.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/split.cc b/src/split.cc
index cda9aa9..665d02c 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -62,6 +62,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     std::unique_ptr<char[]> p(new char[cb]);
     in.read(p.get(), cb);
     ofs.write(p.get(), cb);
+    ofs.close();
   }
 
   /**
-- 
2.43.0


From 815c557c1bddfecba9296740900c87f032d615d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 083/117] fix: do not overwrite the file being split

---
 src/split.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/split.cc b/src/split.cc
index 665d02c..3911029 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -49,13 +49,18 @@ For detailed help, say `scribbu split --help'. To see the manual, say
 `info "scribbu (split) "'.
 )");
 
-  void xfer_bytes(std::istream   &in,
+  void xfer_bytes(const fs::path &src,
+                  std::istream   &in,
                   const fs::path &pth,
                   std::size_t     cb)
   {
     const std::ios::iostate EXC_MASK = std::ios::eofbit | std::ios::failbit |
       std::ios::badbit;
 
+    if (fs::exists(pth) && fs::equivalent(src, pth)) {
+      throw std::invalid_argument(pth.string() + " is the input file.");
+    }
+
     std::ofstream ofs(pth, std::istream::binary);
     ofs.exceptions(EXC_MASK);
 
@@ -105,7 +110,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       stm << "id3v2" << count << suffix;
       ++count;
       fs::path pth(stm.str());
-      xfer_bytes(ifs, pth, 10 + id3v2.size_);
+      xfer_bytes(in, ifs, pth, 10 + id3v2.size_);
       // Another?
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
@@ -114,11 +119,11 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     scribbu::id3v1_info I = scribbu::ends_in_id3v1(ifs);
     std::size_t cb = I.start_ - ifs.tellg();
     fs::path pth("track" + suffix);
-    xfer_bytes(ifs, pth, cb);
+    xfer_bytes(in, ifs, pth, cb);
 
     if (I.start_ != I.end_) {
       fs::path pth("id3v1" + suffix);
-      xfer_bytes(ifs, pth, I.end_ - I.start_);
+      xfer_bytes(in, ifs, pth, I.end_ - I.start_);
     }
 
   } // End free function split_file.
-- 
2.43.0


From b735c50f0d61386a514080454edb8153fda759f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 084/117] fix: honour --source-encoding in scribbu m3u

---
 src/m3u.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..670838f 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -386,8 +386,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (!vm["source-encoding"].defaulted()) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From 54b1d9f9a70b24dc11269c9358a76d2abd5ede71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 085/117] fix: report write errors in scribbu m3u

---
 src/m3u.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 670838f..82a898c 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -210,6 +210,9 @@ namespace {
 
     os_ << "#EXTINF:" << (int) (secs + 0.5) << "," << display << "\n" <<
       pth.native() << endl;
+    if (!os_) {
+      throw std::ios_base::failure("failed to write the playlist");
+    }
   }
 
   //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b19a30313a4bcdfb60d80de5395966b9cf66ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 086/117] fix: accept output paths containing spaces

---
 src/m3u.cc    | 4 ++--
 src/rename.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 82a898c..19c36fd 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -339,7 +339,7 @@ namespace {
         on_no_encoding::fail),
        "specify how to handle encoding errors; may be one of 'fail', "
        "'transliterate', or 'ignore' (defaults to 'fail')")
-      ("output,o", po::value<fs::path>(), "specify that output be written to "
+      ("output,o", po::value<std::string>(), "specify that output be written to "
        "file instead of stdout")
       ("source-encoding,s", po::value<encoding>()->default_value(encoding::CP1252),
        "specify the text encoding in which textual ID3 tags like artist & title "
@@ -393,7 +393,7 @@ namespace {
         src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
-        vm["output"].as<fs::path>() : fs::path();
+        fs::path(vm["output"].as<std::string>()) : fs::path();
       bool verbose = vm["verbose"].as<bool>();
       bool append = vm["append"].as<bool>();
       if (append && out.empty()) {
diff --git a/src/rename.cc b/src/rename.cc
index 241701c..6216345 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -206,7 +206,7 @@ namespace {
     opts.add_options()
       ("dry-run,n", po::bool_switch(), "Dry-run; only print what would "
        "happen")
-      ("output,o", po::value<fs::path>(), "If specified, copy the output files "
+      ("output,o", po::value<std::string>(), "If specified, copy the output files "
        "to this directory, rather than renaming in-place.")
       ("rename,r", po::bool_switch()->default_value(DEFAULT_RENAME),
        "Remove the source file (ignored if --dry-run is given)")
@@ -277,7 +277,7 @@ namespace {
       bool dry_run = vm["dry-run"].as<bool>();
       fs::path output;
       if (vm.count("output")) {
-        output = vm["output"].as<fs::path>();
+        output = vm["output"].as<std::string>();
       }
       std::string templat = vm["template"].as<std::string>();
       bool rename = vm["rename"].as<bool>();
-- 
2.43.0


From edfb35673a02a043580e003e958ff9f6af873eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:15 +0000
Subject: [PATCH 087/117] fix: do not rename the files scribbu rename writes

---
 src/rename.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rename.cc b/src/rename.cc
index 6216345..8c9699e 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -140,6 +140,8 @@ namespace {
   {
     const boost::regex REGEX(".*\\.mp3");
 
+    // Collect the files first; those we're about to write must not be processed
+    std::vector<fs::path> files;
     std::for_each(fs::recursive_directory_iterator(pth),
                   fs::recursive_directory_iterator(),
                   [&](const fs::directory_entry &p) {
@@ -147,9 +149,12 @@ namespace {
                     fs::path pth = p.path();
                     // Only process files ending in .mp3
                     if (fs::is_regular_file(pth) && boost::regex_match(pth.string(), REGEX)) {
-                      process_file(pth);
+                      files.push_back(pth);
                     }
                   });
+    for (const fs::path &file: files) {
+      process_file(file);
+    }
 
   }
 
-- 
2.43.0


From f22720c52be7f4ce6ace3a98304b109d32a92f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:29:06 +0000
Subject: [PATCH 088/117] fix: add comments in locales that name no language

---
 scribbu/charsets.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index a421678..b53ae9b 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1157,11 +1157,9 @@ scribbu::language_from_locale()
     }
   }
 
-  if (0 == iso_869_1[0] && 0 == iso_869_1[1]) {
-    throw std::runtime_error("Unable to determine language from locale");
-  }
-
-  return language_from_iso_639_1(iso_869_1);
+  // Some locales ("C", "POSIX") name no language
+  language lang = language_from_iso_639_1(iso_869_1);
+  return language::from_locale == lang ? language::und : lang;
 
 }
 
-- 
2.43.0


From c8e210080b0f717c86a57e37d6db8f2fe929cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:23 +0000
Subject: [PATCH 089/117] fix: begin text stored as UCS-2 with a byte-order
 mark

---
 scribbu/framesv22.cc | 3 ++-
 scribbu/framesv23.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index d219349..8de59cf 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -355,7 +355,8 @@ scribbu::id3v2_2_text_frame::set(const std::string &text,
     return;
   }
 
-  test = convert_encoding(text, src, encoding::UCS_2, add_bom, rsp);
+  // The standard requires a byte-order mark here
+  test = convert_encoding(text, src, encoding::UCS_2, true, rsp);
   unicode_ = 1;
   text_.swap(test);
 }
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index d53bb91..ce750ec 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -574,7 +574,8 @@ scribbu::id3v2_3_text_frame::set(const std::string &text,
     return;
   }
 
-  test = convert_encoding(text, src, encoding::UCS_2, add_bom, rsp);
+  // The standard requires a byte-order mark here
+  test = convert_encoding(text, src, encoding::UCS_2, true, rsp);
   unicode_ = 1;
   text_.swap(test);
 }
-- 
2.43.0


From 1622c1df2f7b3b6bafcb5aa22a1765042430bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:23 +0000
Subject: [PATCH 090/117] fix: store text beyond ISO-8859-1 in new text frames

---
 scribbu/id3v22.cc | 3 ++-
 scribbu/id3v23.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 6afdfb8..f6daa1b 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -931,7 +931,8 @@ scribbu::id3v2_2_tag::set_text_frame(const frame_id3 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_2_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_2_text_frame>(id, string(), src, false, rsp, false);
+    p->set(text, src, add_bom, rsp); // may fall back to UCS-2
     id3v2_2_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_2_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 53bf41d..7cc8154 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1540,7 +1540,8 @@ void scribbu::id3v2_3_tag::set_text_frame(const frame_id4 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_3_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_3_text_frame>(id, string(), src, false, rsp, false);
+    p->set(text, src, add_bom, rsp); // may fall back to UCS-2
     id3v2_3_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_3_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
-- 
2.43.0


From a78c7ece357debc998b71858f6ca01d3d858b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:54 +0000
Subject: [PATCH 091/117] fix: refuse tags that cannot be stored in a tag cloud

---
 src/xtag.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xtag.cc b/src/xtag.cc
index 8ff1613..d301a2a 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -607,6 +607,12 @@ namespace {
         v2cp = v2_creation_policy::never;
       }
 
+      // Tags are stored null-terminated
+      if (vm.count("xtags") && scribbu::urldecode(vm["xtags"].as<string>()).
+          find('\0') != string::npos) {
+        throw po::error("tags may not contain nulls");
+      }
+
       unique_ptr<xtag_processor> pF;
       if (tags.empty()) {
         if (get) {
-- 
2.43.0


From b4afc48f67b9de881886ed4ec0f90d6866e535e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:03 +0000
Subject: [PATCH 092/117] fix: read play counters of more than four bytes

---
 scribbu/framesv2.cc | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index fcb10cd..6c38693 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1081,22 +1081,12 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x = 0;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
+  std::size_t x = 0;
+  for (unsigned char c: counter_) {
+    if (x >> (8 * (sizeof(x) - 1))) {
+      throw std::domain_error("CNT overflow");
+    }
+    x = (x << 8) | c;
   }
   return x;
 }
@@ -1166,22 +1156,12 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x = 0;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
+  std::size_t x = 0;
+  for (unsigned char c: counter_) {
+    if (x >> (8 * (sizeof(x) - 1))) {
+      throw std::domain_error("CNT overflow");
+    }
+    x = (x << 8) | c;
   }
   return x;
 }
-- 
2.43.0


From 2f838d841a6a13e8c564e678904342aa79d5aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:53 +0000
Subject: [PATCH 093/117] fix: do not process the backup copies made along the
 way

---
 src/command-utilities.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index d5245b3..2cb2a30 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -557,7 +557,9 @@ process_dirent_args(FII p0, FII p1, Functor &F)
 
   for_each(p0, p1, [&F](const std::filesystem::path &pth) {
     if (is_directory(pth)) {
-      process_dirent_args(directory_iterator(pth), directory_iterator(), F);
+      // Processing a file may add others (backups, e.g.) to the directory.
+      std::vector<path> entries(directory_iterator(pth), directory_iterator{});
+      process_dirent_args(entries.begin(), entries.end(), F);
     } else if (is_regular_file(pth)) {
       F.process_file(pth);
     } else if (F.verbose()) {
-- 
2.43.0


From 9a057dd87177066635e04f74d4fa06853a2f7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:53 +0000
Subject: [PATCH 094/117] fix: do not repeat the M3U header when appending

---
 src/m3u.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 19c36fd..4de0e40 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -266,14 +266,16 @@ namespace {
     using namespace std;
 
     ios_base::openmode mode = ios_base::out;
-    mode |= append ? ios_base::app : ios_base::trunc;
+    mode |= append ? ios_base::app | ios_base::ate : ios_base::trunc;
 
     ofs_.open(out, mode);
     if (!ofs_) {
       throw scribbu::file_open_error(out.native(), errno);
     }
 
-    ofs_ << "#EXTM3U" << endl;
+    if (0 == ofs_.tellp()) {
+      ofs_ << "#EXTM3U" << endl;
+    }
 
   }
 
-- 
2.43.0


From 8642a5be50f541bc7fd1b75fed8960bc5abdc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:16 +0000
Subject: [PATCH 095/117] fix: accept blanks in the name of the report

---
 src/report.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index e560b98..f3ade5f 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -509,7 +509,7 @@ namespace {
     opts.add_options()
       ("num-comments,c", po::value<size_t>()->default_value(6),
        "Number of comment tags to be printed (their # will always be reported")
-      ("output,o", po::value<fs::path>()->required(), "output file to which the "
+      ("output,o", po::value<string>()->required(), "output file to which the "
        "results will be written")
       ("tsv,t", po::bool_switch(), "select tab-separated values instead of "
        "comma-separated values")
@@ -605,7 +605,7 @@ namespace {
       //   sending the results to the reporter
 
       size_t   ncomm   = vm["num-comments"   ].as<size_t  >();
-      fs::path out     = vm["output"         ].as<fs::path>();
+      fs::path out     = vm["output"         ].as<string  >();
       encoding v1enc   = vm["v1-encoding"    ].as<encoding>();
       bool     no_dir  = vm["no-directory"   ].as<bool    >();
       bool     tdf     = vm["tsv"            ].as<bool    >();
-- 
2.43.0


From da3175a4c0434bff4a0d1cb1859bec1a908d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:16 +0000
Subject: [PATCH 096/117] fix: leave no part of a row in the report when a file
 cannot be read

---
 src/report.cc | 52 ++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index f3ade5f..0985074 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -156,10 +156,6 @@ csv_reporter::csv_reporter(const fs::path   &output,
           "ID3v1 Year"         << COMMA <<
           "ID3v1 Comment"      << COMMA <<
           "ID3v1 Genrre"       << endl;
-
-  // Imbue our output stream with a manipulator that will cause all subsequently
-  // inserted tags &c to be printed in CSV format.
-  ofs_ << print_as_csv(ncomm_, v1enc_);
 }
 
 /*virtual*/
@@ -174,33 +170,38 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Put the whole row together before writing any of it: should we fail half
+  // way through, the report must not be left with a partial row.
+  ostringstream os;
+  os << print_as_csv(ncomm_, v1enc_);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << COMMA;
+    os << fi.parent() << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  os << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    os << *pid3v2;
   }
   else {
-    ofs_ << ",,,,,,,,,,,,,,";
-    ostream_iterator<char> oi(ofs_);
+    os << ",,,,,,,,,,,,,,";
+    ostream_iterator<char> oi(os);
     fill_n(oi, ncomm_, ',');
   }
 
-  ofs_ << "," << info << ",";
+  os << "," << info << ",";
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    os << *pid3v1;
   }
   else {
-    ofs_ << ",,,,,,,";
+    os << ",,,,,,,";
   }
 
-  ofs_ << endl;
+  ofs_ << os.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -282,10 +283,6 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
           "ID3v1 Year"         << sep_ <<
           "ID3v1 Comment"      << sep_ <<
           "ID3v1 Genre"        << endl;
-
-  // Imbue our output stream with a manipulator that will cause all subsequently
-  // inserted tags &c to be printed in CSV format.
-  ofs_ << print_as_tdf(ncomm_, v1enc_, boost::none, ascii);
 }
 
 /*virtual*/
@@ -300,33 +297,38 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Put the whole row together before writing any of it: should we fail half
+  // way through, the report must not be left with a partial row.
+  ostringstream os;
+  os << print_as_tdf(ncomm_, v1enc_, boost::none, 0x1f == sep_);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << sep_;
+    os << fi.parent() << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  os << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    os << *pid3v2;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(os);
     fill_n(oi, 14 + ncomm_, sep_);
   }
 
-  ofs_ << sep_ << info << sep_;
+  os << sep_ << info << sep_;
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    os << *pid3v1;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(os);
     fill_n(oi, 7, sep_);
   }
 
-  ofs_ << endl;
+  ofs_ << os.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6dac23e20e254d83b96f2e521db94247e34ee920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:16 +0000
Subject: [PATCH 097/117] fix: report a failure to write the report

---
 src/report.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/report.cc b/src/report.cc
index 0985074..2419b52 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -115,6 +115,10 @@ csv_reporter::csv_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  if (!ofs_) {
+    throw file_open_error(output.native(), errno);
+  }
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
@@ -156,6 +160,10 @@ csv_reporter::csv_reporter(const fs::path   &output,
           "ID3v1 Year"         << COMMA <<
           "ID3v1 Comment"      << COMMA <<
           "ID3v1 Genrre"       << endl;
+
+  if (!ofs_) {
+    throw runtime_error("failed to write the report");
+  }
 }
 
 /*virtual*/
@@ -202,6 +210,10 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
   }
 
   ofs_ << os.str() << endl;
+
+  if (!ofs_) {
+    throw runtime_error("failed to write the report");
+  }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -242,6 +254,10 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  if (!ofs_) {
+    throw file_open_error(output.native(), errno);
+  }
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
@@ -283,6 +299,10 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
           "ID3v1 Year"         << sep_ <<
           "ID3v1 Comment"      << sep_ <<
           "ID3v1 Genre"        << endl;
+
+  if (!ofs_) {
+    throw runtime_error("failed to write the report");
+  }
 }
 
 /*virtual*/
@@ -329,6 +349,10 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
   }
 
   ofs_ << os.str() << endl;
+
+  if (!ofs_) {
+    throw runtime_error("failed to write the report");
+  }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b5660566aa09dc9084afe088e85eac55474ea948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:17 +0000
Subject: [PATCH 098/117] fix: double the quotes in file names in CSV reports

---
 src/report.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 2419b52..5963c82 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -184,12 +184,12 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
   os << print_as_csv(ncomm_, v1enc_);
 
   if (!no_dir_) {
-    os << fi.parent() << COMMA;
+    os << quoted(fi.parent().string(), '"', '"') << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  os << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  os << quoted(fi.filename().string(), '"', '"') << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
     os << *pid3v2;
-- 
2.43.0


From 5e2391d739820fcacde4c4c8f35860527d43d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:17 +0000
Subject: [PATCH 099/117] fix: print no comment column when none is asked for

---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index b1fd3b1..0a69ff8 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -130,16 +130,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -182,16 +180,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -234,16 +230,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 2ce382f..dc71540 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From 0940ed3d3020c9e5be0a754b4c66a40158e58cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:32 +0000
Subject: [PATCH 100/117] fix: print private frames without contents

---
 scribbu/pprinter.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index a7f648a..c0a9967 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,10 +65,12 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
-  os << indent << hex << setw(2) << (unsigned)*p0;
-  ascii_rep += asciify(*p0);
-  for (++p0 ; p0 != p1; ++p0) {
-    os << ' ' << setw(2) << (unsigned)*p0;
+  os << indent << hex;
+  for ( ; p0 != p1; ++p0) {
+    if (!ascii_rep.empty()) {
+      os << ' ';
+    }
+    os << setw(2) << (unsigned)*p0;
     ascii_rep += asciify(*p0);
   }
 
-- 
2.43.0


From d429227c17cda6193fd00a045b3b26cedb685594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:32 +0000
Subject: [PATCH 101/117] fix: print the contents of private frames two digits
 to the byte

---
 scribbu/pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index c0a9967..9fe36dd 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,7 +65,7 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
-  os << indent << hex;
+  os << indent << hex << setfill('0');
   for ( ; p0 != p1; ++p0) {
     if (!ascii_rep.empty()) {
       os << ' ';
-- 
2.43.0


From 13abf0ad89119dd3c51c96ceb02e096cf245f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:32 +0000
Subject: [PATCH 102/117] fix: print encryption methods and data as numbers

---
 scribbu/pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 9fe36dd..61c8961 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -733,13 +733,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
@@ -901,13 +901,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
-- 
2.43.0


From 926e10735127e6ad019201407d1aa518f52dc80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:32 +0000
Subject: [PATCH 103/117] fix: print languages that are not text as two digits
 to the byte

---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 61c8961..1d1e28f 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -99,9 +99,9 @@ std::string comment_lang(const scribbu::comments &frame) {
     stm2 << *strict_lang;
   } else {
     stm2 << hex << setfill('0') <<
-      "0x" << setw(2) << (unsigned)blang[0] << "," <<
-      "0x" << setw(2) << (unsigned)blang[1] << "," <<
-      "0x" << setw(2) << (unsigned)blang[2];
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[0] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[1] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[2];
   }
 
   return stm2.str();
-- 
2.43.0


From f7d26617409534cf15c42337e4391bddd4315698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:56:11 +0000
Subject: [PATCH 104/117] fix: indent comments and unknown frames, too

---
 scribbu/pprinter.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 1d1e28f..c9dfb4d 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -626,7 +626,8 @@ scribbu::standard_pprinter::pprint_COM(const COM &frame, std::ostream &os)
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -688,7 +689,7 @@ scribbu::standard_pprinter::pprint_unk_id3v2_3_frame(
   std::ostream &os)
 {
   using namespace std;
-  return os << "frame " << frame.id() << " (" << dec << frame.size() <<
+  return os << sin_ << "frame " << frame.id() << " (" << dec << frame.size() <<
     " bytes)\n";
 }
 
@@ -774,7 +775,8 @@ scribbu::standard_pprinter::pprint_COMM(const COMM &frame, std::ostream &os)
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -856,7 +858,7 @@ scribbu::standard_pprinter::pprint_unk_id3v2_4_frame(
   const unknown_id3v2_4_frame &frame, std::ostream &os)
 {
   using namespace std;
-  return os << "frame " << frame.id() << " (" << dec << frame.size() <<
+  return os << sin_ << "frame " << frame.id() << " (" << dec << frame.size() <<
     " bytes)\n";
 }
 
@@ -942,7 +944,8 @@ scribbu::standard_pprinter::pprint_COMM_2_4(const COMM_2_4 &frame, std::ostream
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From 9ab7a9a738cb4e6c6be4a20d0d58146bcbcc498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:56:11 +0000
Subject: [PATCH 105/117] fix: separate tags from track data when dumping as
 CSV

---
 src/dump.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..40c94e9 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -245,18 +245,23 @@ namespace {
              << endl;
       }
 
+      // In CSV format, tags & track data are fields of one & the same line
+      const char *sep = "", *next_sep = format::csv == fmt_ ? "," : "";
+
       if (dump_id3v2_) {
         for (ptrdiff_t i = 0, n = id3v2.size(); i < n; ++i) {
-          cout << *(id3v2[i]);
+          cout << sep << *(id3v2[i]);
+          sep = next_sep;
         }
       }
 
       if (dump_track_) {
-        cout << td;
+        cout << sep << td;
+        sep = next_sep;
       }
 
       if (dump_id3v1_ && pid3v1) {
-        cout << *pid3v1;
+        cout << sep << *pid3v1;
       }
 
       cout << endl;
-- 
2.43.0


From 4996f4f4171ee6ce74de85f29bd7552a2b9498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:17 +0000
Subject: [PATCH 106/117] fix: recognize the encoding in a locale name

The name looked up began with the dot that separates it from the language, so
no locale that names an encoding was ever matched. Some entries in the table
also ended in a stray comma.
---
 scribbu/charsets.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index b53ae9b..cd9b1c7 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -83,7 +83,7 @@ namespace {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = name.substr(i + 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
-- 
2.43.0


From 239399ddf5a560118f9418817e0971846ab9dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:17 +0000
Subject: [PATCH 107/117] fix: use the ISO-639-2 code for five languages

Assamese, Divehi, Austronesian languages, Minangkabau and Newari were written,
printed & read in upper case (e.g. "ASM" where the code is "asm"). Go on
accepting the upper case when reading, since tags so marked exist.
---
 scribbu/charsets.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index cd9b1c7..fecf82a 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1205,7 +1205,7 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(arp);
     F(art);
     F(arw);
-    F(ASM);
+    case language::ASM: G("asm"); break;
     F(ast);
     F(ath);
     F(aus);
@@ -1291,7 +1291,7 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(deu);
     F(dgr);
     F(din);
-    F(DIV);
+    case language::DIV: G("div"); break;
     F(doi);
     F(dra);
     F(dsb);
@@ -1459,7 +1459,7 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(mal);
     F(man);
     F(mao);
-    F(MAP);
+    case language::MAP: G("map"); break;
     F(mar);
     F(mas);
     F(may);
@@ -1468,7 +1468,7 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(men);
     F(mga);
     F(mic);
-    F(MIN);
+    case language::MIN: G("min"); break;
     F(mis);
     F(mkd);
     F(mkh);
@@ -1500,7 +1500,7 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(ndo);
     F(nds);
     F(nep);
-    F(NEW);
+    case language::NEW: G("new"); break;
     F(nia);
     F(nic);
     F(niu);
@@ -1727,6 +1727,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "arp", language::arp },
     { "art", language::art },
     { "arw", language::arw },
+    { "asm", language::ASM },
     { "ASM", language::ASM },
     { "ast", language::ast },
     { "ath", language::ath },
@@ -1813,6 +1814,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "deu", language::deu },
     { "dgr", language::dgr },
     { "din", language::din },
+    { "div", language::DIV },
     { "DIV", language::DIV },
     { "doi", language::doi },
     { "dra", language::dra },
@@ -1981,6 +1983,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "mal", language::mal },
     { "man", language::man },
     { "mao", language::mao },
+    { "map", language::MAP },
     { "MAP", language::MAP },
     { "mar", language::mar },
     { "mas", language::mas },
@@ -1990,6 +1993,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "men", language::men },
     { "mga", language::mga },
     { "mic", language::mic },
+    { "min", language::MIN },
     { "MIN", language::MIN },
     { "mis", language::mis },
     { "mkd", language::mkd },
@@ -2022,6 +2026,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "ndo", language::ndo },
     { "nds", language::nds },
     { "nep", language::nep },
+    { "new", language::NEW },
     { "NEW", language::NEW },
     { "nia", language::nia },
     { "nic", language::nic },
@@ -2249,7 +2254,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::arp, "arp" },
     { language::art, "art" },
     { language::arw, "arw" },
-    { language::ASM, "ASM" },
+    { language::ASM, "asm" },
     { language::ast, "ast" },
     { language::ath, "ath" },
     { language::aus, "aus" },
@@ -2335,7 +2340,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::deu, "deu" },
     { language::dgr, "dgr" },
     { language::din, "din" },
-    { language::DIV, "DIV" },
+    { language::DIV, "div" },
     { language::doi, "doi" },
     { language::dra, "dra" },
     { language::dsb, "dsb" },
@@ -2503,7 +2508,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::mal, "mal" },
     { language::man, "man" },
     { language::mao, "mao" },
-    { language::MAP, "MAP" },
+    { language::MAP, "map" },
     { language::mar, "mar" },
     { language::mas, "mas" },
     { language::may, "may" },
@@ -2512,7 +2517,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::men, "men" },
     { language::mga, "mga" },
     { language::mic, "mic" },
-    { language::MIN, "MIN" },
+    { language::MIN, "min" },
     { language::mis, "mis" },
     { language::mkd, "mkd" },
     { language::mkh, "mkh" },
@@ -2544,7 +2549,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::ndo, "ndo" },
     { language::nds, "nds" },
     { language::nep, "nep" },
-    { language::NEW, "NEW" },
+    { language::NEW, "new" },
     { language::nia, "nia" },
     { language::nic, "nic" },
     { language::niu, "niu" },
-- 
2.43.0


From e393c56a0bb9cc10c49ff41f432c76bc33204822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:17 +0000
Subject: [PATCH 108/117] fix: honor three-letter language codes in the locale

Only the first two letters were looked at, so that "fil_PH" (Filipino) was
taken to be Finnish.
---
 scribbu/charsets.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index fecf82a..9b243c0 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1151,6 +1151,17 @@ scribbu::language_from_locale()
   for (auto p: ENVVARS) {
     char *pv = getenv(p);
     if (pv && 1 < strlen(pv)) {
+      if (3 == strcspn(pv, "_.@:")) {
+        // A three-letter (ISO-639-2) code, as in "fil_PH"
+        std::stringstream stm(std::string(pv, 3));
+        language lang = language::und;
+        try {
+          stm >> lang;
+        } catch (const std::out_of_range &) {
+          // Not a language we know
+        }
+        return lang;
+      }
       iso_869_1[0] = *pv++;
       iso_869_1[1] = *pv;
       break;
-- 
2.43.0


From 3a48c3e0ff57a0806321659278c6a226bc29e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:35:19 +0000
Subject: [PATCH 109/117] fix: convert text to the last character

Some converters hold back text until told that there is no more, so that the
last letter of a text in CP1258 or TCVN was lost, and text in UTF-7 or
ISO-2022-JP ended early.
---
 scribbu/charsets.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 9b243c0..827756f 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -91,6 +91,25 @@ namespace {
     return make_pair(true, TBL.at(key));
   }
 
+  /// Convert all of \a inbuf, including whatever the converter holds back
+  /// until it knows that there is no more; returns as `iconv' does
+  std::size_t
+  convert_all(iconv_t cd, char **inbuf, std::size_t *inbytesleft,
+              char **outbuf, std::size_t *outbytesleft)
+  {
+    std::size_t status = iconv(cd, inbuf, inbytesleft, outbuf, outbytesleft);
+    if (0 == *inbytesleft) {
+      // CP1258, for instance, keeps a letter until it has seen whether an
+      // accent follows, and UTF-7 & ISO-2022-JP end in a shift sequence
+      int err = errno;
+      if (~0 == iconv(cd, nullptr, nullptr, outbuf, outbytesleft)) {
+        return ~0;
+      }
+      errno = err;
+    }
+    return status;
+  }
+
 }
 
 namespace scribbu {
@@ -698,8 +717,8 @@ namespace scribbu {
     // bytes, and it updates the conversion state contained in cd."
     std::size_t outbytesleft = cbout;
     char *outbuf = poutbuf.get();
-    std::size_t status = iconv(dsc, &inbuf, &inbytesleft,
-                               &outbuf, &outbytesleft);
+    std::size_t status = convert_all(dsc, &inbuf, &inbytesleft,
+                                     &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -713,7 +732,7 @@ namespace scribbu {
       outbuf = poutbuf.get();
       // Start over: the first attempt may have consumed (or written) a BOM
       iconv(dsc, nullptr, nullptr, nullptr, nullptr);
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = convert_all(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
     // Given "//IGNORE", glibc converts all the input & still reports EILSEQ if
@@ -846,7 +865,7 @@ namespace scribbu {
     vector<unsigned char> out(cbout);
     std::size_t outbytesleft = cbout - cbbom;
     char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-    size_t status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    size_t status = convert_all(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -860,7 +879,7 @@ namespace scribbu {
       outbuf = reinterpret_cast<char*>(&(out[cbbom]));
       // Start over: the first attempt may have consumed (or written) a BOM
       iconv(dsc, nullptr, nullptr, nullptr, nullptr);
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = convert_all(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
     // Given "//IGNORE", glibc converts all the input & still reports EILSEQ if
-- 
2.43.0


From 331c299493e7b944f318a9e55b63d37330270b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:10 +0000
Subject: [PATCH 110/117] fix: read big-endian UTF-16 text as such

ID3v2.4 text marked UTF-16BE has no byte-order mark; it was taken to be in
the byte order of the host.
---
 scribbu/framesv24.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index cd0373d..e800a03 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -62,6 +62,8 @@ namespace scribbu {
           src =  encoding::UTF_16BE;
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
+        } else if (2 == unicode) {
+          src =  encoding::UTF_16BE;
         } else {
           src =  encoding::UTF_16;
         }
-- 
2.43.0


From dd5b1f262b84ade4e77faff1bc151df2d329cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:10 +0000
Subject: [PATCH 111/117] fix: take tag clouds for ID3v2.2 & 2.4 tags from
 Scheme

The list index was not a Scheme integer, and the values were looked for in the
second element of the entry, rather than in its tail.
---
 scribbu/scheme-serde.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..21aa746 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1247,10 +1247,10 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_list_ref(scm, scm_from_int(0)));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_list_tail(scm, scm_from_int(1));
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
@@ -1370,10 +1370,10 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_list_ref(scm, scm_from_int(0)));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_list_tail(scm, scm_from_int(1));
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
-- 
2.43.0


From f5e35d444fd23c6672831f0eae579f1c942c0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:10 +0000
Subject: [PATCH 112/117] fix: take the unsynchronisation flag of unknown
 frames from its own slot

---
 scribbu/scheme-serde.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 21aa746..69ea706 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2070,7 +2070,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From 0c4a920b788984c61a83b94617cb1187c67c3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:10 +0000
Subject: [PATCH 113/117] fix: hand unknown frames to Scheme without
 unsynchronisation

The content of unknown frames in unsynchronised tags, or of unsynchronised
ID3v2.4 frames, had the scheme applied. It was taken back as it was, and so
came out with bytes inserted.
---
 scribbu/scheme-serde.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 69ea706..344450c 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1892,7 +1892,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1928,7 +1928,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1965,7 +1965,8 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  // Nb. this frame may itself be marked as unsynchronised
+  f.id3v2_3_plus_frame::write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
-- 
2.43.0


From 17cd747d3316ec4c80edc845f1aa2ef74748b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:11 +0000
Subject: [PATCH 114/117] fix: take text beyond ISO-8859-1 for ID3v2.2 & 2.3
 frames from Scheme

Such text was attempted as ISO-8859-1 only. When that failed, the text frame
was taken for an unknown frame, which it is not.
---
 scribbu/scheme-serde.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 344450c..d6062f4 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -787,6 +787,21 @@ namespace {
 
 namespace {
 
+  /// Return true if \a txt (in UTF-8) cannot be represented in ISO-8859-1
+  bool
+  needs_ucs2(const std::string &txt)
+  {
+    using namespace scribbu;
+
+    try {
+      convert_encoding(txt, encoding::UTF_8, encoding::ISO_8859_1, false,
+                       on_no_encoding::fail);
+      return false;
+    } catch (const std::exception&) {
+      return true;
+    }
+  }
+
   std::unique_ptr<scribbu::id3v2_2_frame>
   ser_text_frame_2_2(SCM scm)
   {
@@ -803,9 +818,11 @@ namespace {
 
     frame_id3 id = p->second;
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    bool ucs2 = needs_ucs2(txt);
 
     return unique_ptr<id3v2_2_frame>(
-      new id3v2_2_text_frame(id, txt, encoding::UTF_8));
+      new id3v2_2_text_frame(id, txt, encoding::UTF_8, ucs2,
+                             on_no_encoding::fail, ucs2));
 
   }
 
@@ -839,10 +856,12 @@ namespace {
 
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
+    bool ucs2 = needs_ucs2(txt);
+
     return unique_ptr<id3v2_3_frame>(
-      new id3v2_3_text_frame(id, txt, encoding::UTF_8, false,
+      new id3v2_3_text_frame(id, txt, encoding::UTF_8, ucs2,
                              on_no_encoding::fail,
-                             false, tap, fap, ro));
+                             ucs2, tap, fap, ro));
 
   }
 
-- 
2.43.0


From c447c41230cbb8281bf34f031ef5f0f92de85693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:11 +0000
Subject: [PATCH 115/117] fix: check unknown frames coming from Scheme

Any frame that could not be represented in the tag was taken for an unknown
frame, and slots read that it does not have. Identifiers & data that were too
short were read beyond their ends.
---
 scribbu/scheme-serde.cc | 46 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index d6062f4..119d08d 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1996,6 +1996,19 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   return x;
 }
 
+namespace {
+
+  /// The fallback serialization functions can only deal with <unk-frame>s
+  void
+  check_unknown_frame(SCM scm)
+  {
+    if (!SCM_IS_A_P(scm, scm_c_public_ref("scribbu", "<unk-frame>"))) {
+      throw std::logic_error("frame cannot be represented in this tag");
+    }
+  }
+
+}
+
 std::unique_ptr<scribbu::id3v2_2_frame>
 scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 {
@@ -2004,11 +2017,20 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  check_unknown_frame(scm);
+
+  const char *pid = ctx.free_locale_string(SCM_SLOT(scm, 5));
+  if (3 != strlen(pid)) {
+    throw std::logic_error("bad frame ID");
+  }
+  frame_id3 id(pid);
 
   SCM scm_bv = SCM_SLOT(scm, 6);
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
+  if (6 > cb) {
+    throw std::logic_error("no frame header");
+  }
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
 
   // The unknown_id3v2_2_frame ctor assumes we've stripped off the
@@ -2031,7 +2053,13 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  check_unknown_frame(scm);
+
+  const char *pid = ctx.free_locale_string(SCM_SLOT(scm, 5));
+  if (4 != strlen(pid)) {
+    throw std::logic_error("bad frame ID");
+  }
+  frame_id4 id(pid);
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
@@ -2049,6 +2077,9 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
   SCM scm_bv = SCM_SLOT(scm, 6);
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
+  if (10 > cb) {
+    throw std::logic_error("no frame header");
+  }
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
 
   return unique_ptr<id3v2_3_frame>(
@@ -2075,7 +2106,13 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  check_unknown_frame(scm);
+
+  const char *pid = ctx.free_locale_string(SCM_SLOT(scm, 5));
+  if (4 != strlen(pid)) {
+    throw std::logic_error("bad frame ID");
+  }
+  frame_id4 id(pid);
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
@@ -2097,6 +2134,9 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
   SCM scm_bv = SCM_SLOT(scm, 6);
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
+  if (10 > cb) {
+    throw std::logic_error("no frame header");
+  }
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
 
   return unique_ptr<id3v2_4_frame>(
-- 
2.43.0


From 58b218af0b7596a5ddf53a69ac4834aee0714efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:32:29 +0000
Subject: [PATCH 116/117] fix: hand the fields of enhanced ID3v1 tags to Scheme
 in their own slots

The enhanced genre overwrote the track number, and each field following it was
found in the slot of the one before.
---
 scribbu/scheme.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..85ef0e7 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -350,22 +350,22 @@ extern "C" {
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
         string start_time = pv1->start_time<string>();
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
         string end_time = pv1->end_time<string>();
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From 291708094222c14492358c69f87856e1eac7c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:32:29 +0000
Subject: [PATCH 117/117] fix: write ID3v1 text from Scheme in the encoding in
 which it is read

ID3v1 text was read as ISO-8859-1, but written as UTF-8: reading a tag & writing
it back changed every character beyond ASCII.
---
 scribbu/scheme.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 85ef0e7..646723f 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -346,7 +346,9 @@ extern "C" {
 
       if (ext) {
 
-        string enh_genre = pv1->enh_genre<string>();
+        string enh_genre = pv1->enh_genre<string>(encoding::ISO_8859_1,
+                                                  encoding::UTF_8,
+                                                  on_no_encoding::transliterate);
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
@@ -564,13 +566,13 @@ extern "C" {
       dynwind_context ctx;
 
       SCM scm_title = SCM_SLOT(scm_tag, 0);
-      char *c_title = ctx.free_locale_string(scm_title);
+      char *c_title = ctx.free_utf8_string(scm_title);
 
       SCM scm_artist = SCM_SLOT(scm_tag, 1);
-      char *c_artist = ctx.free_locale_string(scm_artist);
+      char *c_artist = ctx.free_utf8_string(scm_artist);
 
       SCM scm_album = SCM_SLOT(scm_tag, 2);
-      char *c_album = ctx.free_locale_string(scm_album);
+      char *c_album = ctx.free_utf8_string(scm_album);
 
       // This slot can be '() to indicuate "not set"
       char *c_year = 0;
@@ -580,7 +582,7 @@ extern "C" {
       }
 
       SCM scm_comment = SCM_SLOT(scm_tag, 4);
-      char *c_comment = ctx.free_locale_string(scm_comment);
+      char *c_comment = ctx.free_utf8_string(scm_comment);
 
       SCM scm_genre = SCM_SLOT(scm_tag, 5);
       unsigned char genre = scm_to_uchar(scm_genre);
@@ -593,7 +595,7 @@ extern "C" {
       }
 
       SCM scm_enh_genre = SCM_SLOT(scm_tag, 7);
-      char *c_enh_genre = ctx.free_locale_string(scm_enh_genre);
+      char *c_enh_genre = ctx.free_utf8_string(scm_enh_genre);
 
       unsigned char speed = 0;
       SCM scm_speed = SCM_SLOT(scm_tag, 8);
@@ -616,13 +618,16 @@ extern "C" {
       id3v1_tag tag(v11, enh);
 
       if (c_title && 0 != strlen(c_title)) {
-        tag.set_title(c_title, encoding::UTF_8, encoding::UTF_8);
+        tag.set_title(c_title, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
       if (c_artist && 0 != strlen(c_artist)) {
-        tag.set_artist(c_artist, encoding::UTF_8, encoding::UTF_8);
+        tag.set_artist(c_artist, encoding::UTF_8, encoding::ISO_8859_1,
+                       false, on_no_encoding::transliterate);
       }
       if (c_album && 0 != strlen(c_album)) {
-        tag.set_album(c_album, encoding::UTF_8, encoding::UTF_8);
+        tag.set_album(c_album, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
 
       if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
@@ -634,7 +639,8 @@ extern "C" {
       }
 
       if (c_comment && 0 != strlen(c_comment)) {
-        tag.set_comment(c_comment, encoding::UTF_8, encoding::UTF_8);
+        tag.set_comment(c_comment, encoding::UTF_8, encoding::ISO_8859_1,
+                        false, on_no_encoding::transliterate);
       }
 
       tag.set_genre(genre);
@@ -644,7 +650,8 @@ extern "C" {
       }
 
       if (enh) {
-        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::UTF_8);
+        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::ISO_8859_1,
+                          false, on_no_encoding::transliterate);
         tag.set_speed(speed);
         if (c_start_time) {
           size_t n = strlen(c_start_time);
-- 
2.43.0

