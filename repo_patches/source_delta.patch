From c206204c4736c7a0063e1901d56f85d8c24124d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:10 +0000
Subject: [PATCH 001/136] fix: keep ID3v1 fields at the width the tag's flavour
 calls for

Setting an extended field on a plain tag left the title, artist, album and
extended genre too short, so writing the tag read past their ends.  Setting
the comment, or a track number, didn't respect the width of the comment
field, and the speed & track number were left uninitialized in new tags.
---
 scribbu/id3v1.hh | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..872428d 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -290,6 +290,7 @@ namespace scribbu {
     static const on_no_encoding            DEF_ON_NO_ENCODING;
     static const size_t                    TEXT_SZ     = 30;
     static const size_t                    TEXT_SZ_ENH = 90;
+    static const size_t                    COMMENT_SZ_V1_1 = 28;
 
   public:
 
@@ -384,7 +385,7 @@ namespace scribbu {
     {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       comment_ = convert_encoding(text, srcenc, dst, add_bom, rsp);
-      comment_.resize(enhanced() ? TEXT_SZ_ENH : TEXT_SZ, 0);
+      comment_.resize(v1_1() ? COMMENT_SZ_V1_1 : TEXT_SZ, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -431,7 +432,7 @@ namespace scribbu {
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
       ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -445,7 +446,7 @@ namespace scribbu {
     void set_speed(unsigned char speed)
     {
       speed_ = speed;
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -474,7 +475,7 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -504,7 +505,7 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -549,6 +550,7 @@ namespace scribbu {
     {
       track_number_ = track;
       v1_1_ = true;
+      comment_.resize(COMMENT_SZ_V1_1, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -612,6 +614,17 @@ namespace scribbu {
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
 
+    /// Turn this into an extended tag (if it isn't one already), widening the
+    /// text fields accordingly
+    void make_extended()
+    {
+      extended_ = true;
+      title_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      album_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+    }
+
   private:
 
     bool                         extended_;
@@ -621,11 +634,11 @@ namespace scribbu {
     std::vector<unsigned char>   comment_;
     unsigned char                genre_;
     std::vector<unsigned char>   ext_genre_;
-    std::array<unsigned char, 6> start_time_;
-    std::array<unsigned char, 6> end_time_;
-    unsigned char                speed_;
+    std::array<unsigned char, 6> start_time_ {};
+    std::array<unsigned char, 6> end_time_ {};
+    unsigned char                speed_ = 0;
     std::vector<unsigned char>   title_;
-    unsigned char                track_number_;
+    unsigned char                track_number_ = 0;
     std::array<unsigned char, 4> year_;
 
 
-- 
2.43.0


From 4e8c5cfa99edf3476ac6044635918efc69dffab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:10 +0000
Subject: [PATCH 002/136] fix: don't mistake a stray "TAG+" in the audio for an
 extended ID3v1 tag

ends_in_id3v1 took any file with "TAG+" 355 bytes from its end to end in an
extended tag, even when no standard ID3v1 tag followed.
---
 scribbu/id3v1.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..1ce1fcb 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -483,8 +483,13 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-        I.start_ = is.tellg() - (std::streampos) 4;
-        I.type_ = id3_v1_tag_type::v_1_extended;
+        // The extended block is only meaningful when a standard tag follows
+        is.seekg(-128, std::ios_base::end);
+        is.read(buf, 3);
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+          I.start_ = I.end_ - (std::streamoff) 355;
+          I.type_ = id3_v1_tag_type::v_1_extended;
+        }
       }
     }
   }
-- 
2.43.0


From ab373a6daa85a61554b445d460a9080994714378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:10 +0000
Subject: [PATCH 003/136] fix: leave the stream as it was found when reading
 ID3v1 tags

The exception mask wasn't restored by one constructor, nor by either when
the bytes aren't a tag, and process_id3v1 moved the get pointer in spite of
its documentation.
---
 scribbu/id3v1.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 1ce1fcb..08e9364 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -115,9 +115,14 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
 
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();
+  } catch (const invalid_tag &ex) {
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
@@ -147,11 +152,19 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
+    // Restore the exception mask
+    is.exceptions(exc_mask);
+
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw invalid_tag();
+  } catch (const invalid_tag &ex) {
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
-    throw invalid_tag();;
+    throw;
   }
 
 }
@@ -530,8 +543,10 @@ scribbu::process_id3v1(std::istream &is)
   std::unique_ptr<scribbu::id3v1_tag> p;
   scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
   if (id3_v1_tag_type::none != I.type_) {
+    std::streampos here = is.tellg();
     is.seekg(I.start_);
     p.reset(new id3v1_tag(is));
+    is.seekg(here);
   }
   return p;
 }
-- 
2.43.0


From 5ff3da2919bb674ae624e11b882a7017e3a54d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:54 +0000
Subject: [PATCH 004/136] fix: recognise every MPEG sync word when looking for
 false syncs

A sync word is eleven set bits, so any byte of 0xe0 or above completes it.
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..a0da731 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 == (y & 0xe0);
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 == (y & 0xe0) || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From b1001c169c4c27062846ad8066fbe4e0bc74fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:04 +0000
Subject: [PATCH 005/136] fix: stay inside the payload when parsing short or
 unterminated frames

Empty text, comment and user-defined text frames, popularimeters and private
frames without a terminator, 16-bit strings of odd length and truncated tag
clouds were all read past their end.
---
 scribbu/framesv2.hh  | 72 +++++++++++++++++++++++++++-----------------
 scribbu/framesv22.hh |  9 ++++--
 scribbu/framesv23.hh | 14 ++++++---
 scribbu/framesv24.hh |  9 ++++--
 4 files changed, 65 insertions(+), 39 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..c3a1b40 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -89,20 +89,13 @@ namespace scribbu {
                        forward_input_iterator p1)
     {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
-      std::size_t saw_nil = 0;
-      for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
-        }
-        else {
-          unsigned char b0 = *p0, b1 = *(p0 + 1);
-          if (0 == b0 && 0 == b1) {
-            break;
-          }
+      for ( ; p1 - p0 >= std::ptrdiff_t(code_unit); p0 += code_unit) {
+        if (0 == *p0 && (1 == code_unit || 0 == *(p0 + 1))) {
+          return p0;
         }
       }
 
-      return p0;
+      return p1;
     }
 
     /// Return true iff [x, y] contain an MP3 sync word (i.e. the bit
@@ -530,7 +523,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
@@ -596,8 +589,13 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1),
+      unicode_(0)
     {
+      if (p0 == p1) {
+        return;
+      }
+
       unicode_ = *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
@@ -689,7 +687,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{ 'X', 'X', 'X' }
     {
       if (p0 != p1) {
 
@@ -843,7 +844,7 @@ namespace scribbu {
 
     template <typename forward_output_iterator>
     forward_output_iterator counterb(forward_output_iterator p) const {
-      std::copy(counter_.begin(), counter_.end(), p);
+      return std::copy(counter_.begin(), counter_.end(), p);
     }
 
     std::size_t count() const;
@@ -898,13 +899,14 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
-      std::copy(p, p1, std::back_inserter(counter_));
+      if (p != p1 && ++p != p1) {
+        rating_ = *p++;
+        std::copy(p, p1, std::back_inserter(counter_));
+      }
     }
     /// Construct "from scratch"
     popularimeter(const std::string &own,
@@ -998,11 +1000,19 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        return;
+      }
+
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
       copy(p0, p, back_inserter(own_));
 
+      if (p == p1) {
+        return;
+      }
+
       p0 = ++p;
       while (p0 != p1) {
 
@@ -1010,20 +1020,26 @@ namespace scribbu {
         string key;
         copy(p0, p, back_inserter(key));
 
+        if (p1 - p < 5) {
+          throw invalid_argument("truncated tag cloud");
+        }
+
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
-        const uint32_t *pb = (const uint32_t*)(buf);
-        uint32_t cb = ntohl(*pb);
+        uint32_t cb = (uint32_t(buf[0]) << 24) | (buf[1] << 16) |
+          (buf[2] << 8) | buf[3];
 
         set<string> vals;
         p0 = p + 5;
-        while (cb) {
-          p = find(p0, p1, 0);
-          string val;
-          copy(p0, p, back_inserter(val));
-          p0 = ++p;
-          vals.insert(val);
-          cb -= val.length() + 1;
+        if (p1 - p0 < cb) {
+          throw invalid_argument("truncated tag cloud");
+        }
+
+        forward_input_iterator pend = p0 + cb;
+        while (p0 != pend) {
+          p = find(p0, pend, 0);
+          vals.insert(string(p0, p));
+          p0 = p == pend ? pend : ++p;
         }
 
         tags_[key] = vals;
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..8879cf4 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -336,10 +336,13 @@ namespace scribbu {
     id3v2_2_text_frame(const frame_id3       &id,
                        forward_input_iterator p0,
                        forward_input_iterator p1):
-      id3v2_2_frame(id)
+      id3v2_2_frame(id),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
 
     template <typename forward_input_iterator>
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..3268687 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,8 +333,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      std::copy(p, p1, std::back_inserter(contents_));
+      if (p != p1) {
+        std::copy(p + 1, p1, std::back_inserter(contents_));
+      }
     }
     /// Construct "from scratch"
     template <typename forward_input_iterator>
@@ -686,10 +687,13 @@ namespace scribbu {
                        const id_type           &encmth,
                        const id_type           &gid,
                        const opt_sz_type       &decsz):
-      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
+      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
 
     // forwards to the above ctor
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..1013166 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -434,10 +434,13 @@ namespace scribbu {
                        bool                                  cmprsd,
                        bool                                  unsynch,
                        const boost::optional<std::size_t>   &dli):
-      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
+      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
     // char[4]
     template <typename forward_input_iterator>
-- 
2.43.0


From 9986133cc0c71100bdbbc60d09b2cb7b998dfa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:28 +0000
Subject: [PATCH 006/136] fix: read and store play counts of any width exactly

Counters wider than four bytes could be written but not read, an empty counter
read as an uninitialised value, and the number of bytes to store was worked out
in floating point.
---
 scribbu/framesv2.cc | 69 +++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index a0da731..eb567e2 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -29,7 +29,6 @@
 #include <boost/static_assert.hpp>
 
 #include <arpa/inet.h>
-#include <cmath> // for `log2()`
 #include <iconv.h>
 
 
@@ -1074,22 +1073,13 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
+  // The counter is a big-endian number of any length.
+  std::size_t x = 0;
+  for (unsigned char b: counter_) {
+    if (x >> (8 * sizeof(x) - 8)) {
+      throw std::domain_error("CNT overflow");
+    }
+    x = (x << 8) | b;
   }
   return x;
 }
@@ -1134,14 +1124,11 @@ scribbu::play_count::count_syncs(bool false_only) const
 void
 scribbu::play_count::reset_counter(std::size_t n)
 {
-  // Special case:
-  if (0 == n) {
-    counter_.resize(1);
-    counter_[0] = 0;
-    return;
-  }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 1;
+  for (size_t m = n >> 8; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
@@ -1159,22 +1146,13 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
+  // The counter is a big-endian number of any length.
+  std::size_t x = 0;
+  for (unsigned char b: counter_) {
+    if (x >> (8 * sizeof(x) - 8)) {
+      throw std::domain_error("CNT overflow");
+    }
+    x = (x << 8) | b;
   }
   return x;
 }
@@ -1240,14 +1218,11 @@ scribbu::popularimeter::count_syncs(bool false_only) const
 void
 scribbu::popularimeter::reset_counter(std::size_t n)
 {
-  // Special case:
-  if (0 == n) {
-    counter_.resize(1);
-    counter_[0] = 0;
-    return;
-  }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 1;
+  for (size_t m = n >> 8; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
-- 
2.43.0


From 819d5b1e10e25cbe3619dfb60fad5b4bb5b53984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:28 +0000
Subject: [PATCH 007/136] fix: terminate the owner when writing an encryption
 method registration

---
 scribbu/framesv2.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index eb567e2..026a8b5 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -707,11 +707,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 2 + data_.size();
 
 }
 
-- 
2.43.0


From dd784ed7aa6a145748d3b681fa9940f0114c56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:46 +0000
Subject: [PATCH 008/136] fix: remember how a comment built from text is
 encoded

The version and encoding were left uninitialised, so changing the text of such a
comment converted it to an arbitrary encoding. ID3v2.4 user-defined text built
as UTF-8 is marked 3, not 4.
---
 scribbu/framesv2.cc  | 8 +++++---
 scribbu/framesv23.hh | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 026a8b5..9046860 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -790,13 +790,13 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
       cbnil_ = 1;
       break;
     case use_unicode::yes:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = false;
       cbnil_ = 1;
       break;
     case use_unicode::with_bom:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = true;
       cbnil_ = 1;
@@ -895,7 +895,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/)
+                            const std::string &dsc /*= std::string()*/):
+  ver_(ver)
 {
   if (language::from_locale == lang) {
     lang = language_from_locale();
@@ -950,6 +951,7 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  dst_enc_ = dst;
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 3268687..f6064f5 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -991,7 +991,7 @@ namespace scribbu {
          const id_type          &gid,
          const std::string      &dsc = std::string()):
       id3v2_3_frame("COMM", tap, fap, ro, encmth, gid, boost::none),
-      comments(id3v2_version::v2, lang, text, src, unicode, dsc)
+      comments(id3v2_version::v3, lang, text, src, unicode, dsc)
     { }
 
     virtual id3v2_3_frame* clone() const
-- 
2.43.0


From 20778778bd9de4a90e5390c21e24d04e0604c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:03 +0000
Subject: [PATCH 009/136] fix: count the syncs a comment, tag cloud or
 encryption method would write

The counts missed terminators, read the front of empty strings and sets, and
took a length in host byte order. Count over the bytes that are written.
---
 scribbu/framesv2.cc | 110 +++++---------------------------------------
 1 file changed, 12 insertions(+), 98 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 9046860..afe7910 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -719,31 +719,10 @@ scribbu::encryption_method::write(std::ostream &os) const
 std::size_t
 scribbu::encryption_method::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t count = detail::count_syncs(email_.begin(), email_.end(), false_only);
-
-  if (!email_.empty()) {
-    if (false_only && is_false_sync(email_.back(), method_symbol_)) {
-      ++count;
-    }
-    else if (!false_only && needs_unsync(email_.back(), method_symbol_)) {
-      ++count;
-    }
-  }
-  // email_ is null-terminated, so no possibility of a false sync...
-  // but there could be one between method_symbol_ & data_:
-  if (!data_.empty()) {
-    if (false_only && is_false_sync(method_symbol_, data_.front())) {
-      ++count;
-    }
-    else if (!false_only && is_false_sync(method_symbol_, data_.front())) {
-      ++count;
-    }
-  }
-  count += detail::count_syncs(data_.begin(), data_.end(), false_only);
-  return count;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 
@@ -1021,42 +1000,10 @@ scribbu::comments::write(std::ostream &os) const
 std::size_t
 scribbu::comments::count_syncs(bool false_only) const
 {
-  using namespace scribbu::detail;
-
-  std::size_t cb = 0;
-
-  if (false_only && is_false_sync(unicode_, lang_[0])) {
-    ++cb;
-  }
-  else if (!false_only && needs_unsync(unicode_, lang_[0])) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(lang_, lang_ + 3, false_only);
-
-  if (false_only && description_.size() &&
-      is_false_sync(lang_[2], description_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(lang_[2], description_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
-
-  if (false_only && description_.size() &&
-      is_false_sync(description_.back(), text_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(description_.back(), text_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
-
-  return cb;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 bool
@@ -1440,43 +1387,10 @@ scribbu::tag_cloud::write(std::ostream &os) const
 std::size_t
 scribbu::tag_cloud::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t nsync = 0;
-
-  // The current version is 1, so no false sync.
-  nsync += detail::count_syncs(own_.begin(), own_.end(), false_only);
-
-  // Owner is null-terminated, so no false sync between owner & the first key.
-  for (auto kv: tags_) {
-
-    // `kv' is a pair<const string, set<string>>
-    const string &key = kv.first;
-    nsync += detail::count_syncs(key.begin(), key.end(), false_only);
-    // Keys are null-terminated, so no false sync between owner & the first key.
-    // Next up will be the combined length of all values (including trailing
-    // nulls).
-    uint32_t nval = 0;
-    for (auto v: kv.second) {
-      nval += v.length() + 1;
-      nsync += detail::count_syncs(v.begin(), v.end(), false_only);
-    }
-    // `nval' itself may contain false syncs:
-    nsync += detail::count_syncs(nval, false_only);
-
-    // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
-    // is true, we _could_ have a false sync between the value byte count &
-    // the first string.
-    if (false_only) {
-      unsigned char y = (unsigned char)(kv.second.begin()->front());
-      if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
-        ++nsync;
-      }
-    }
-  }
-
-  return nsync;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 void
-- 
2.43.0


From 1bb56dfbb1a17fa303b9d53d05b843aa8ea2d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:03 +0000
Subject: [PATCH 010/136] fix: parse empty text to an empty tag cloud

It gave a cloud with one empty key, so an empty cloud did not survive being
rendered as text and parsed again.
---
 scribbu/framesv2.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index afe7910..0d52a3e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1399,6 +1399,11 @@ scribbu::tag_cloud::parse_to_map(const std::string &text,
 {
   using namespace std;
 
+  // No text, no tags.
+  if (text.empty()) {
+    return;
+  }
+
   // Parse using a simple FSM:
   bool parsing_key = true;
 
-- 
2.43.0


From 89697858ee5c8907b3375acdaa176183959ce6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:18 +0000
Subject: [PATCH 011/136] fix: name every ID3v2.2 text frame by its standard
 identifier

Beats per minute was written as TBM, which readers do not know, and five other
frames that exist in ID3v2.2 were refused.
---
 scribbu/framesv2.cc | 14 +++++++++++++-
 scribbu/framesv2.hh |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 0d52a3e..741974b 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -85,6 +85,8 @@ scribbu::operator>>(std::istream &is, id3v2_text_frames &x)
     { "TBPM",         id3v2_text_frames::tbpm },
     { "tbm",          id3v2_text_frames::tbpm },
     { "TBM",          id3v2_text_frames::tbpm },
+    { "tbp",          id3v2_text_frames::tbpm },
+    { "TBP",          id3v2_text_frames::tbpm },
     { "tcom",         id3v2_text_frames::tcom },
     { "TCOM",         id3v2_text_frames::tcom },
     { "tcm",          id3v2_text_frames::tcom },
@@ -355,7 +357,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
@@ -386,8 +388,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index c3a1b40..b1640cc 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -181,7 +181,7 @@ namespace scribbu {
   /// an ID3v2 version-independent way of naming text frames
   enum class id3v2_text_frames {
     talb, // Album/Movie/Show title [TAL]
-    tbpm, // beats per minute [TBM]
+    tbpm, // beats per minute [TBP]
     tcom, // Composer(s) [TCM]
     tcon, // Content type [TCO]
     tcop, // Copyright message [TCR]
-- 
2.43.0


From 11b1b23452bac7a184cb8a83345f2cb597828911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:22 +0000
Subject: [PATCH 012/136] fix: serialize frames from their present contents

Nothing marked a frame as changed, so a frame whose contents had been altered
after it was first measured or written was written again with its old contents.
---
 scribbu/framesv22.cc |  50 ++++++-------
 scribbu/framesv23.cc | 169 +++++++++++++++++++++----------------------
 scribbu/framesv23.hh |   3 +-
 3 files changed, 108 insertions(+), 114 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..e474238 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -185,7 +185,8 @@ scribbu::id3v2_2_frame::dirty(bool f) const
   id3v2_frame::dirty(f);
 }
 
-/// Refresh the cache, if dirty (otherwise, do nothing)
+/// Refresh the cache; the subclasses' setters don't know about it, so it
+/// can't be trusted from one call to the next
 void
 scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
 {
@@ -193,37 +194,34 @@ scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
   using scribbu::detail::count_syncs;
   using scribbu::detail::unsynchronise;
 
-  if (is_dirty()) {
+  // Clear the cache...
+  cache_[SERIALIZED].clear();
+  cache_[SERIALIZED_WITH_UNSYNC].clear();
 
-    // Clear the cache...
-    cache_[SERIALIZED].clear();
-    cache_[SERIALIZED_WITH_UNSYNC].clear();
-
-    stringstream os;
-    serialize(os);
-    string payload = os.str();
+  stringstream os;
+  serialize(os);
+  string payload = os.str();
 
-    stringstream hdr;
-    write_header(hdr, payload.size());
-    string buf = hdr.str();
+  stringstream hdr;
+  write_header(hdr, payload.size());
+  string buf = hdr.str();
 
-    // Accumulate the entire thing in `cache_'.
-    cache_[SERIALIZED].resize(buf.size() + payload.size());
-    auto pout = copy(buf.begin(), buf.end(), cache_[SERIALIZED].begin());
-    copy(payload.begin(), payload.end(), pout);
+  // Accumulate the entire thing in `cache_'.
+  cache_[SERIALIZED].resize(buf.size() + payload.size());
+  auto pout = copy(buf.begin(), buf.end(), cache_[SERIALIZED].begin());
+  copy(payload.begin(), payload.end(), pout);
 
-    // Either way, count the # of false syncs in that buffer...
-    num_false_syncs_ = count_syncs(cache_[SERIALIZED].begin(),
-                                   cache_[SERIALIZED].end(),
-                                   true);
+  // Either way, count the # of false syncs in that buffer...
+  num_false_syncs_ = count_syncs(cache_[SERIALIZED].begin(),
+                                 cache_[SERIALIZED].end(),
+                                 true);
 
-    // and prepare an unsynchronised copy.
-    unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
-                  cache_[SERIALIZED].begin(),
-                  cache_[SERIALIZED].end());
+  // and prepare an unsynchronised copy.
+  unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
+                cache_[SERIALIZED].begin(),
+                cache_[SERIALIZED].end());
 
-    dirty(false);
-  }
+  dirty(false);
 }
 
 /// Write a three-tuple while removing false syncs
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..4578723 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -140,8 +140,7 @@ scribbu::id3v2_3_plus_frame::dirty(bool f) const
 }
 
 /**
- * \brief If the dirty flag is set, re-serialize & re-apply compression,
- * encryption & unsynchronisation
+ * \brief Re-serialize & re-apply compression, encryption & unsynchronisation
  *
  *
  */
@@ -153,99 +152,97 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
   using scribbu::detail::count_syncs;
   using scribbu::detail::unsynchronise;
 
-  // This logic is still too complex for my tastes, but this is as simple
-  // as I've been able to get it so far. If the 'dirty" flag is set...
-  if (is_dirty()) {
+  // The subclasses' setters don't know about this cache, so it can't be
+  // trusted from one call to the next (nor does it record the value of
+  // `last_no_pad' for which it was built).
+  // Clear our cache & re-build it.
+  cache_[SERIALIZED_WITH_CE ].clear();
+  cache_[SERIALIZED_WITH_CEU].clear();
+
+  // I like the convenient interface of an ostream, so let's build
+  // one backed by an in-memory streambuf; i.e. a stringstream...
+  stringstream os;
+  // and present that to our subclasses:
+  serialize(os);
+  // in this method, however, we'll be working with the underlying
+  // string:
+  string buf = os.str();
+
+  // At this point, we have this frame's payload in serialized form, prior to
+  // the application of any compression, encryption or unsynchronisation.
+  size_t cb_no_ceu = buf.size();
+
+  // We *would* next apply compression and/or encryption, except that we
+  // don't at this point, support encryption (I would need to find some
+  // actual examples, first).
+  if (encrypted()) {
+    throw std::logic_error("encryption not implemented");
+  }
 
-    // clear our cache & re-build it.
-    cache_[SERIALIZED_WITH_CE ].clear();
-    cache_[SERIALIZED_WITH_CEU].clear();
+  // Instead, if this frame is compressed...
+  vector<unsigned char> payload;
+  if (compressed()) {
 
-    // I like the convenient interface of an ostream, so let's build
-    // one backed by an in-memory streambuf; i.e. a stringstream...
-    stringstream os;
-    // and present that to our subclasses:
-    serialize(os);
-    // in this method, however, we'll be working with the underlying
-    // string:
-    string buf = os.str();
-
-    // At this point, we have this frame's payload in serialized form, prior to
-    // the application of any compression, encryption or unsynchronisation.
-    size_t cb_no_ceu = buf.size();
-
-    // We *would* next apply compression and/or encryption, except that we
-    // don't at this point, support encryption (I would need to find some
-    // actual examples, first).
-    if (encrypted()) {
-      throw std::logic_error("encryption not implemented");
+    // compress `buf' into `payload'...
+    unsigned long destLen = compressBound(cb_no_ceu);
+    payload.resize(destLen);
+    // NB. `cb_no_ceu' must be greater than zero, so the indexes into
+    // `payload' & `buf' are safe.
+    int status =  compress(&payload[0], &destLen,
+                           (unsigned char*)&buf[0], cb_no_ceu);
+    if (Z_OK != status) {
+      throw zlib_error(status);
     }
+    payload.resize(destLen);
 
-    // Instead, if this frame is compressed...
-    vector<unsigned char> payload;
-    if (compressed()) {
-
-      // compress `buf' into `payload'...
-      unsigned long destLen = compressBound(cb_no_ceu);
-      payload.resize(destLen);
-      // NB. `cb_no_ceu' must be greater than zero, so the indexes into
-      // `payload' & `buf' are safe.
-      int status =  compress(&payload[0], &destLen,
-                             (unsigned char*)&buf[0], cb_no_ceu);
-      if (Z_OK != status) {
-        throw zlib_error(status);
-      }
-      payload.resize(destLen);
-
-    }
-    else {
+  }
+  else {
 
-      // else, just copy it.
-      payload.resize(cb_no_ceu);
-      copy(buf.begin(), buf.end(), payload.begin());
+    // else, just copy it.
+    payload.resize(cb_no_ceu);
+    copy(buf.begin(), buf.end(), payload.begin());
 
-    }
+  }
 
-    // In the case of ID3v2.4, unsynchronisation is applied on a frame-by-frame
-    // basis, so we would need to check the releveant flag, and if it's set,
-    // unsynchronise the payload.
-
-    // What I'm doing instead is assembling the entire frame payload in
-    // `cache_', & then applying unsynchronisation to that.  In the case of
-    // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-    // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-    // writing the header & then unsynchronising the payload.
-
-    // Serialize the frame header...
-    stringstream hdr;
-    write_header(hdr, payload.size(), cb_no_ceu);
-    buf = hdr.str();
-
-    // and accumulate the entire thing in `cache_'.
-    cache_[SERIALIZED_WITH_CE].resize(buf.size() + payload.size());
-    auto pout = copy(buf.begin(), buf.end(), cache_[SERIALIZED_WITH_CE].begin());
-    copy(payload.begin(), payload.end(), pout);
-
-    // Either way, count the # of false syncs in that buffer...
-    num_false_syncs_ = count_syncs(cache_[SERIALIZED_WITH_CE].begin(),
-                                   cache_[SERIALIZED_WITH_CE].end(),
-                                   true);
-
-    // Check the very last byte for a trailing 0xff
-    if (last_no_pad &&
-        ! cache_[SERIALIZED_WITH_CE].empty() &&
-        0xff == cache_[SERIALIZED_WITH_CE].back()) {
-      ++num_false_syncs_;
-    }
+  // In the case of ID3v2.4, unsynchronisation is applied on a frame-by-frame
+  // basis, so we would need to check the releveant flag, and if it's set,
+  // unsynchronise the payload.
+
+  // What I'm doing instead is assembling the entire frame payload in
+  // `cache_', & then applying unsynchronisation to that.  In the case of
+  // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
+  // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
+  // writing the header & then unsynchronising the payload.
+
+  // Serialize the frame header...
+  stringstream hdr;
+  write_header(hdr, payload.size(), cb_no_ceu);
+  buf = hdr.str();
+
+  // and accumulate the entire thing in `cache_'.
+  cache_[SERIALIZED_WITH_CE].resize(buf.size() + payload.size());
+  auto pout = copy(buf.begin(), buf.end(), cache_[SERIALIZED_WITH_CE].begin());
+  copy(payload.begin(), payload.end(), pout);
+
+  // Either way, count the # of false syncs in that buffer...
+  num_false_syncs_ = count_syncs(cache_[SERIALIZED_WITH_CE].begin(),
+                                 cache_[SERIALIZED_WITH_CE].end(),
+                                 true);
+
+  // Check the very last byte for a trailing 0xff
+  if (last_no_pad &&
+      ! cache_[SERIALIZED_WITH_CE].empty() &&
+      0xff == cache_[SERIALIZED_WITH_CE].back()) {
+    ++num_false_syncs_;
+  }
 
-    // and prepare an unsynchronised copy.
-    unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
-                  cache_[SERIALIZED_WITH_CE].begin(),
-                  cache_[SERIALIZED_WITH_CE].end(),
-                  last_no_pad);
+  // and prepare an unsynchronised copy.
+  unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
+                cache_[SERIALIZED_WITH_CE].begin(),
+                cache_[SERIALIZED_WITH_CE].end(),
+                last_no_pad);
 
-    dirty(false);
-  }
+  dirty(false);
 
 }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index f6064f5..5e84a23 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -282,8 +282,7 @@ namespace scribbu {
     unsigned char gid() const
     { return group_id_.get(); }
 
-    /// If the dirty flag is set, re-serialize & re-apply compression,
-    /// encryption & unsynchronisation
+    /// Re-serialize & re-apply compression, encryption & unsynchronisation
     void ensure_cached_data_is_fresh(bool last_no_pad = false) const;
     /// Serialize this frame to \a os, exclusive of the frame header, as well
     /// as any compression, encryption or unsynchronisation; return the number
-- 
2.43.0


From d8e11e820541267d877f75b7e88d8995d597139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:22 +0000
Subject: [PATCH 013/136] fix: unsynchronise ID3v2.2 frames when asked to, and
 only then

---
 scribbu/framesv22.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index e474238..9a683cc 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 806ddc65729e48b085b48fc8043c0fd1079ffcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:23 +0000
Subject: [PATCH 014/136] fix: write ID3v2.3 frame flags where the standard
 puts them

The flags were written one bit to the right of where they are read, and the
size of a compressed frame was written in host order.
---
 scribbu/framesv23.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 4578723..5081e82 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -355,27 +355,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 128;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 128;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 32;
     sz += 1;
     cb += 1;
   }
@@ -400,7 +400,12 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    char dsbuf[4];
+    dsbuf[0] = (dlind & 0xff000000) >> 24;
+    dsbuf[1] = (dlind & 0x00ff0000) >> 16;
+    dsbuf[2] = (dlind & 0x0000ff00) >>  8;
+    dsbuf[3] =  dlind & 0x000000ff;
+    os.write(dsbuf, 4);
   }
 
   if (encrypted()) {
-- 
2.43.0


From 591f83e750081e15b4418047f3636fea588210f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:23 +0000
Subject: [PATCH 015/136] fix: write ID3v2.4 frame headers that can be read
 back

The flags were misplaced, the size left out compression and the extra header
fields, and those fields were out of order.
---
 scribbu/framesv24.cc | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..4c0604f 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 16;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
@@ -114,10 +114,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
     sz += 1;
     cb += 1;
   }
-  if (unsynchronised_) {
-    flags[1] |= 2;
-  }
-  if (data_len_indicator_) {
+  // A compressed frame can't be expanded again without its original size
+  bool write_dli = compressed_ || data_len_indicator_;
+  if (write_dli) {
     flags[1] |= 1;
     sz += 4;
     cb += 4;
@@ -126,25 +125,26 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   char idbuf[4]; id().copy(idbuf);
   os.write(idbuf, 4);
 
-  // ID3v2.3 frame sizes *are* sync-safe:
+  // ID3v2.4 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-  if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+  if (write_dli) {
+    detail::sync_safe_from_unsigned(dlind, szbuf);
+    os.write((char*)szbuf, 4);
   }
 
   return cb;
-- 
2.43.0


From 9a49d1ad7edee1d77ad2a09e9d1273bab7e3be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:23 +0000
Subject: [PATCH 016/136] fix: unsynchronise ID3v2.4 frames as the standard
 describes

The size in the frame header did not account for unsynchronisation and the
frame was not marked.
---
 scribbu/framesv23.cc | 28 ++++++++++++++--------------
 scribbu/framesv23.hh |  4 ++++
 scribbu/framesv24.cc | 41 +++++++++++++++++++++++++++++++++++++++++
 scribbu/framesv24.hh | 17 +++++++++++++++++
 4 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 5081e82..da8470b 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -150,7 +150,6 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
 {
   using namespace std;
   using scribbu::detail::count_syncs;
-  using scribbu::detail::unsynchronise;
 
   // The subclasses' setters don't know about this cache, so it can't be
   // trusted from one call to the next (nor does it record the value of
@@ -204,15 +203,8 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
 
   }
 
-  // In the case of ID3v2.4, unsynchronisation is applied on a frame-by-frame
-  // basis, so we would need to check the releveant flag, and if it's set,
-  // unsynchronise the payload.
-
-  // What I'm doing instead is assembling the entire frame payload in
-  // `cache_', & then applying unsynchronisation to that.  In the case of
-  // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-  // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-  // writing the header & then unsynchronising the payload.
+  // Assemble the entire frame in `cache_', & then apply unsynchronisation to
+  // that.
 
   // Serialize the frame header...
   stringstream hdr;
@@ -237,15 +229,23 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
   }
 
   // and prepare an unsynchronised copy.
-  unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
-                cache_[SERIALIZED_WITH_CE].begin(),
-                cache_[SERIALIZED_WITH_CE].end(),
-                last_no_pad);
+  unsynchronise_frame(cache_[SERIALIZED_WITH_CE], last_no_pad,
+                      cache_[SERIALIZED_WITH_CEU]);
 
   dirty(false);
 
 }
 
+/// Apply the unsynchronisation scheme to a serialized frame, header & all
+/*virtual*/
+void
+scribbu::id3v2_3_plus_frame::unsynchronise_frame(const std::vector<unsigned char> &in,
+                                                 bool last_no_pad,
+                                                 std::vector<unsigned char> &out) const
+{
+  detail::unsynchronise(std::back_inserter(out), in.begin(), in.end(), last_no_pad);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                            class private_frame                            //
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 5e84a23..bf82ef9 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -284,6 +284,10 @@ namespace scribbu {
 
     /// Re-serialize & re-apply compression, encryption & unsynchronisation
     void ensure_cached_data_is_fresh(bool last_no_pad = false) const;
+    /// Apply the unsynchronisation scheme to a serialized frame
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &in,
+                                     bool last_no_pad,
+                                     std::vector<unsigned char> &out) const;
     /// Serialize this frame to \a os, exclusive of the frame header, as well
     /// as any compression, encryption or unsynchronisation; return the number
     /// of bytes written
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 4c0604f..25d29f9 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -150,6 +150,47 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   return cb;
 }
 
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_frame::serialized_size(bool unsync,
+                                        bool last_no_pad /*= false*/) const
+{
+  return id3v2_3_plus_frame::serialized_size(unsync || unsynchronised_, last_no_pad);
+}
+
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_frame::needs_unsynchronisation(bool last_no_pad /*= false*/) const
+{
+  return unsynchronised_ ? 0 : id3v2_3_plus_frame::needs_unsynchronisation(last_no_pad);
+}
+
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_frame::write(std::ostream &os, bool unsync) const
+{
+  return id3v2_3_plus_frame::write(os, unsync || unsynchronised_);
+}
+
+/// ID3v2.4 frames are unsynchronised one-by-one: everything after the header
+/// is, & the header records both that fact & the resulting size
+/*virtual*/
+void
+scribbu::id3v2_4_frame::unsynchronise_frame(const std::vector<unsigned char> &in,
+                                            bool /*last_no_pad*/,
+                                            std::vector<unsigned char> &out) const
+{
+  using namespace std;
+
+  const size_t CBHDR = 10;
+
+  copy(in.begin(), in.begin() + CBHDR, back_inserter(out));
+  // Always guard against a trailing 0xff; we don't know what'll come next.
+  detail::unsynchronise(back_inserter(out), in.begin() + CBHDR, in.end(), true);
+  detail::sync_safe_from_unsigned(out.size() - CBHDR, &out[4]);
+  out[9] |= 2;
+}
+
 
 ///////////////////////////////////////////////////////////////////////////////
 //                        class unknown_id3v2_3_frame                        //
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 1013166..70bbb65 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -143,7 +143,24 @@ namespace scribbu {
     bool unsynchronised() const
     { return unsynchronised_; }
 
+    /// Return the number of bytes this frame will occupy when serialized to
+    /// disk, including the header; a frame marked as unsynchronised is always
+    /// serialized that way
+    virtual std::size_t serialized_size(bool unsync, bool last_no_pad = false) const;
+    /// Return zero if this tag would not contain false syncs if serialized in
+    /// its present state; else return the number of false sync it would
+    /// contain
+    virtual std::size_t needs_unsynchronisation(bool last_no_pad = false) const;
+    /// Serialize this tag to an output stream, applying the unsynchronisation
+    /// scheme if either the caller so chooses or the frame is marked as
+    /// unsynchronised
+    virtual std::size_t write(std::ostream &os, bool unsync) const;
+
   protected:
+    /// Apply the unsynchronisation scheme to a serialized frame
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &in,
+                                     bool last_no_pad,
+                                     std::vector<unsigned char> &out) const;
     /// Serialize this tag's header to an output stream, including any special
     /// fields such as decompressed size, group id, &c
     virtual std::size_t write_header(std::ostream &os, std::size_t cb_payload,
-- 
2.43.0


From 4b612e3047709bbd086e2cf32ce2a72d61bbf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:23 +0000
Subject: [PATCH 017/136] fix: encode ID3v2.4 Latin-1 text as ISO-8859-1, not
 ISO-8859-8

---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 25d29f9..eefbf5b 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -330,7 +330,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
-- 
2.43.0


From 923c3f2da36a2fe346bfdb72d62bbf0720125c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:11 +0000
Subject: [PATCH 018/136] fix: keep frame lookups in step with the frames they
 index

Removing, inserting or replacing a frame left the positions of the frames after
it out of date, and frames added through a reference to their base class were
never entered in the indices of comments, play counts, popularimeters and text
frames.
---
 scribbu/id3v22.cc | 229 ++++++++++++----------------------------------
 scribbu/id3v22.hh |   7 +-
 scribbu/id3v23.cc | 228 ++++++++++++---------------------------------
 scribbu/id3v23.hh |   7 +-
 scribbu/id3v24.cc | 226 ++++++++++++---------------------------------
 scribbu/id3v24.hh |   7 +-
 6 files changed, 186 insertions(+), 518 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..4403dfa 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -322,9 +322,8 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
 
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(frames_.size() - 1);
 
 }
 
@@ -341,9 +340,8 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
 
-  ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(frames_.size() - 1);
 }
 
 /*virtual*/
@@ -378,9 +376,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   frame_id3 id3(id);
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
-    std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
-    frames_.erase(frames_.begin() + idx);
+    frames_.erase(frames_.begin() + p->second);
+    rebuild_lookups();
   }
 }
 
@@ -392,35 +389,10 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (p_ != that.p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -431,9 +403,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -441,20 +412,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_2_text_frame>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -462,20 +421,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<CNT>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -483,20 +430,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COM>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -504,20 +439,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POP>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -528,24 +451,17 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -553,16 +469,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -570,16 +480,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -587,16 +491,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -607,8 +505,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(frames_.size() - 1);
 }
 
 void
@@ -654,21 +551,18 @@ scribbu::id3v2_2_tag::push_back(const POP &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto pnext = frames_.erase(frames_.begin() + p.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto pnext = frames_.erase(frames_.begin() + p0.index(),
+                             frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 std::ostream&
@@ -683,49 +577,42 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
   return os;
 }
 
+/// Enter the frame at index \a idx into our ancillary datastructures according
+/// to its actual type
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
+scribbu::id3v2_2_tag::index_frame(std::size_t idx)
 {
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
+  id3v2_2_frame *p = frames_[idx].get();
+  if (CNT *pcnt = dynamic_cast<CNT*>(p)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
+  else if (COM *pcomm = dynamic_cast<COM*>(p)) {
+    add_frame_to_lookups(*pcomm, idx);
   }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
+  else if (POP *popm = dynamic_cast<POP*>(p)) {
+    add_frame_to_lookups(*popm, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
-    }
-    text_map_.erase(p);
+  else if (id3v2_2_text_frame *ptext = dynamic_cast<id3v2_2_text_frame*>(p)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups(*p, idx);
   }
+}
 
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
+/// Rebuild our ancillary datastructures from the frame vector; to be called
+/// whenever frames have been removed, replaced or moved
+void
+scribbu::id3v2_2_tag::rebuild_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    index_frame(i);
+  }
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..5fecf4f 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -528,9 +528,10 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector
+    void rebuild_lookups();
+    /// Enter the frame at index  idx into our ancillary datastructures
+    void index_frame(std::size_t idx);
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..96498aa 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -698,10 +698,8 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  index_frame(frames_.size() - 1);
 }
 
 /*virtual*/
@@ -719,10 +717,8 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const TXXX &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  index_frame(frames_.size() - 1);
 }
 
 /*virtual*/
@@ -757,9 +753,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   frame_id4 id3(id);
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
-    std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
-    frames_.erase(frames_.begin() + idx);
+    frames_.erase(frames_.begin() + p->second);
+    rebuild_lookups();
   }
 }
 
@@ -771,35 +766,10 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (p_ != that.p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -810,9 +780,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -820,20 +789,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_3_text_frame>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -841,20 +798,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<PCNT>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -862,20 +807,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COMM>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -883,20 +816,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POPM>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -907,8 +828,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -916,16 +836,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -933,16 +847,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -950,32 +858,20 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -985,8 +881,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(frames_.size() - 1);
 }
 
 void
@@ -1032,21 +927,18 @@ scribbu::id3v2_3_tag::push_back(const POPM &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto pnext = frames_.erase(frames_.begin() + p.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto pnext = frames_.erase(frames_.begin() + p0.index(),
+                             frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 std::ostream&
@@ -1061,46 +953,42 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
   return os;
 }
 
+/// Enter the frame at index \a idx into our ancillary datastructures according
+/// to its actual type
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::index_frame(std::size_t idx)
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
+  id3v2_3_frame *p = frames_[idx].get();
+  if (PCNT *pcnt = dynamic_cast<PCNT*>(p)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
+  else if (COMM *pcomm = dynamic_cast<COMM*>(p)) {
+    add_frame_to_lookups(*pcomm, idx);
   }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
+  else if (POPM *popm = dynamic_cast<POPM*>(p)) {
+    add_frame_to_lookups(*popm, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  else if (id3v2_3_text_frame *ptext = dynamic_cast<id3v2_3_text_frame*>(p)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups(*p, idx);
   }
+}
 
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
+/// Rebuild our ancillary datastructures from the frame vector; to be called
+/// whenever frames have been removed, replaced or moved
+void
+scribbu::id3v2_3_tag::rebuild_lookups()
+{
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    index_frame(i);
+  }
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..d257b04 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,9 +590,10 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector
+    void rebuild_lookups();
+    /// Enter the frame at index  idx into our ancillary datastructures
+    void index_frame(std::size_t idx);
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..30d51d9 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -773,9 +773,8 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(frames_.size() - 1);
 }
 
 /*virtual*/
@@ -794,9 +793,8 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(frames_.size() - 1);
 }
 
 /*virtual*/
@@ -831,9 +829,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   frame_id4 id3(id);
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
-    std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
-    frames_.erase(frames_.begin() + idx);
+    frames_.erase(frames_.begin() + p->second);
+    rebuild_lookups();
   }
 }
 
@@ -844,35 +841,10 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (p_ != that.p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -883,9 +855,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -893,20 +864,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_4_text_frame>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -914,20 +873,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<PCNT_2_4>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -935,20 +882,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COMM_2_4>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -956,20 +891,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POPM_2_4>(frame);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -980,24 +903,17 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1005,16 +921,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1022,16 +932,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1039,16 +943,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1059,8 +957,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(frames_.size() - 1);
 }
 
 void
@@ -1106,21 +1003,18 @@ scribbu::id3v2_4_tag::push_back(const POPM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto pnext = frames_.erase(frames_.begin() + p.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto pnext = frames_.erase(frames_.begin() + p0.index(),
+                             frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, pnext);
 }
 
 std::ostream&
@@ -1147,46 +1041,42 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
   return os;
 }
 
+/// Enter the frame at index \a idx into our ancillary datastructures according
+/// to its actual type
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::index_frame(std::size_t idx)
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
+  id3v2_4_frame *p = frames_[idx].get();
+  if (PCNT_2_4 *pcnt = dynamic_cast<PCNT_2_4*>(p)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
+  else if (COMM_2_4 *pcomm = dynamic_cast<COMM_2_4*>(p)) {
+    add_frame_to_lookups(*pcomm, idx);
   }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
+  else if (POPM_2_4 *popm = dynamic_cast<POPM_2_4*>(p)) {
+    add_frame_to_lookups(*popm, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  else if (id3v2_4_text_frame *ptext = dynamic_cast<id3v2_4_text_frame*>(p)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups(*p, idx);
   }
+}
 
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
+/// Rebuild our ancillary datastructures from the frame vector; to be called
+/// whenever frames have been removed, replaced or moved
+void
+scribbu::id3v2_4_tag::rebuild_lookups()
+{
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    index_frame(i);
+  }
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..916dcd2 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -625,9 +625,10 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector
+    void rebuild_lookups();
+    /// Enter the frame at index  idx into our ancillary datastructures
+    void index_frame(std::size_t idx);
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From bf92492ca7af7b30c08a0aac45b896c0b0a3faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:11 +0000
Subject: [PATCH 019/136] fix: copy ID3v2 tags from the tag being copied

The copy constructors and assignment operators initialised the common part of
the tag from the copy itself, dereferenced a missing extended header, and
indexed every frame one place too far along.
---
 scribbu/id3v22.cc |  6 +++---
 scribbu/id3v23.cc | 21 ++++++++-------------
 scribbu/id3v24.cc | 23 +++++++++--------------
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 4403dfa..bc541e4 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,14 +207,14 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
+    index_frame(frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
@@ -228,7 +228,7 @@ scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
     text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
+      index_frame(frames_.size() - 1);
     }
   }
   return *this;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 96498aa..98dbf62 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -346,48 +346,43 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   if (that.pext_header_) {
     pext_header_.reset(new ext_header(*that.pext_header_));
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-    }
+    index_frame(frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
     pcnts_.clear();
     popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
     frame_map_.clear();
     text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-      }
+      index_frame(frames_.size() - 1);
     }
   }
   return *this;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 30d51d9..eb55eec 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -496,48 +496,43 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
-  padding_(that.padding_)
+  pext_header_(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr),
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-    }
+    index_frame(frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
     pcnts_.clear();
     popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
     frame_map_.clear();
     text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-      }
+      index_frame(frames_.size() - 1);
     }
   }
 
-- 
2.43.0


From d1d5ac82b0d422a9e2cfe90b7e5d8f62db4c1921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:10 +0000
Subject: [PATCH 020/136] fix: unsynchronise ID3v2.2 and ID3v2.3 tags as a
 whole

A frame ending in 0xff followed by padding lost a byte when read back, the
trailing 0xff of a tag was measured differently from how it was written, and a
tag read with unsynchronisation was marked as unsynchronised when written
without it.  The extended header had the two forms swapped and did not follow
changes in the padding.
---
 scribbu/id3v22.cc |  58 +++++++++++-------
 scribbu/id3v22.hh |   2 +
 scribbu/id3v23.cc | 151 ++++++++++++----------------------------------
 scribbu/id3v23.hh |   5 ++
 4 files changed, 83 insertions(+), 133 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index bc541e4..5c40232 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -252,47 +252,61 @@ scribbu::id3v2_2_tag::flags() const
 //                          ID3v2 Serialization                            //
 /////////////////////////////////////////////////////////////////////////////
 
+/// Serialize everything after the header (i.e. the frames & the padding);
+/// unsynchronisation applies to the lot, since a frame could end in 0xff and be
+/// followed by padding
+std::vector<unsigned char>
+scribbu::id3v2_2_tag::serialize(bool unsync) const
+{
+  using namespace std;
+
+  stringstream stm;
+  for (const auto &pf: frames_) {
+    pf->write(stm, false);
+  }
+  string buf = stm.str();
+  buf.append(padding(), '\0');
+
+  vector<unsigned char> in(buf.begin(), buf.end());
+  if (!unsync) {
+    return in;
+  }
+
+  vector<unsigned char> out;
+  detail::unsynchronise(back_inserter(out), in.begin(), in.end());
+  return out;
+}
+
 /*virtual*/
 std::size_t
 scribbu::id3v2_2_tag::size(bool unsync) const
 {
-  return std::accumulate(begin(), end(), padding(),
-                        [unsync](size_t n, const id3v2_2_frame &f)
-                        { return n + f.serialized_size(unsync); });
+  return serialize(unsync).size();
 }
 
 /*virtual*/
 bool
 scribbu::id3v2_2_tag::needs_unsynchronisation() const
 {
-  return std::any_of(begin(), end(), [](const id3v2_2_frame &f) { return f.needs_unsynchronisation(); });
+  std::vector<unsigned char> buf = serialize(false);
+  return 0 != detail::count_syncs(buf.begin(), buf.end(), true);
 }
 
 /*virtual*/
 std::size_t
 scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
 {
-  using namespace std;
+  std::vector<unsigned char> buf = serialize(unsync);
 
-  // Write the header... taking care to add the "unsync" flag if we're
-  // applying unsynchronisation
-  unsigned char f = flags();
+  // Write the header... taking care to set the "unsync" flag exactly when
+  // we're applying unsynchronisation (regardless of how the tag was read)
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
-  write_header(os, f, size(unsync));
-  // the frames (note we start the accumulation at 10)...
-  size_t cb = accumulate(begin(), end(), 10,
-                         [&os, unsync](size_t n, const id3v2_2_frame &f)
-                         { return n + f.write(os, unsync); });
-  // & the padding.
-  size_t cbpad = padding();
-  while (cbpad) {
-    size_t towrite = min(cbpad, CBPAD);
-    os.write(PAD, towrite);
-    cb += towrite;
-    cbpad -= towrite;
-  }
+  write_header(os, f, buf.size());
+  // followed by the rest.
+  os.write((const char*)buf.data(), buf.size());
 
-  return cb;
+  return 10 + buf.size();
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 5fecf4f..3a0a8c3 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -528,6 +528,8 @@ namespace scribbu {
 
   private:
 
+    /// Serialize everything after the header
+    std::vector<unsigned char> serialize(bool unsync) const;
     /// Rebuild our ancillary datastructures from the frame vector
     void rebuild_lookups();
     /// Enter the frame at index  idx into our ancillary datastructures
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 98dbf62..e7d16cc 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -250,7 +250,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
@@ -444,42 +444,8 @@ scribbu::id3v2_3_tag::flags() const
  * and/or compression of individual frames makes the calculation much more
  * complex.
  *
- * This implemenentation proceeds as follows:
- *
- * - the ID3v2 header is always ten bytes, regardless of whether
- *   unsynchronisation is being applied, and is not counted in any case
- *
- * - \em if there is an extended header:
- *
- *   + if unsynchronisation is \em not being applied, it will be 6 or 10 bytes,
- *     depending on whether a CRC checksum is present
- *
- *   + if unsynchronisation \em is being applied:
- *
- *     * if there is no CRC checksum, it will still be 6 bytes (there is no chance
- *       of a false sync in this case)
- *
- *     * otherwise, we have to compute the CRC checksum, then check it for
- *       false syncs
- *
- *       * ask each frame to serialize itself \em without the unsynchronisation
- *         scheme & update a CRC-32 checksum
- *
- *       * the extended header will contribute 10 plus the number of false
- *         syncs or $ff 00 pairs in the checksum
- *
- * - ask each frame to compute its serialized size, incorporating the
- *   unsynchronisation scheme if requested:
- *
- *   + compressed frames shall apply compression
- *
- *   + encrypted frames shall apply encyrption (in this order)
- *
- *   + if unsynchronisation is being applied, all frames will need to return
- *     their serialized size plus the number of false syncs and $ff 00 pairs
- *     found in their serialization
- *
- * - add the padding, if any
+ * This implemenentation simply serializes everything that follows the header
+ * & counts the bytes.
  *
  *
  */
@@ -488,39 +454,40 @@ scribbu::id3v2_3_tag::flags() const
 std::size_t
 scribbu::id3v2_3_tag::size(bool unsync) const
 {
-  using namespace std;
+  return serialize(unsync).size();
+}
 
-  // We do not include the ID3v2 header...
-  size_t cb = 0;
+/// Serialize everything after the ID3v2 header (i.e. the extended header, if
+/// any, the frames & the padding); unsynchronisation applies to the lot, since
+/// a frame could end in 0xff and be followed by padding
+std::vector<unsigned char>
+scribbu::id3v2_3_tag::serialize(bool unsync) const
+{
+  using namespace std;
 
-  // but we *do* include the extended header, if it's present...
+  stringstream stm;
   if (pext_header_) {
+    pext_header_->padding_size(padding());
     if (pext_header_->has_crc()) {
       pext_header_->crc(*this);
     }
-    cb += pext_header_->serialized_size(unsync);
+    pext_header_->write(stm, false);
   }
-
-  // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
-  size_t cb_pad = padding();
-
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      cb += p->serialized_size(unsync);
-      p += 1;
-    }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+  for (const auto &pf: frames_) {
+    pf->write(stm, false);
   }
+  string buf = stm.str();
+  buf.append(padding(), '\0');
 
-  // as well as any padding.
-  cb += cb_pad;
-
-  return cb;
+  vector<unsigned char> in(buf.begin(), buf.end());
+  if (!unsync) {
+    return in;
+  }
 
+  // In ID3v2.3+, a trailing 0xff is treated as a false sync.
+  vector<unsigned char> out;
+  detail::unsynchronise(back_inserter(out), in.begin(), in.end(), true);
+  return out;
 }
 
 /**
@@ -556,35 +523,14 @@ scribbu::id3v2_3_tag::size(bool unsync) const
 bool
 scribbu::id3v2_3_tag::needs_unsynchronisation() const
 {
-  using namespace std;
-
-  if (pext_header_) {
-    if (pext_header_->has_crc()) {
-      pext_header_->crc(*this);
-    }
-    if (pext_header_->needs_unsynchronisation()) {
-      return true;
-    }
-  }
-
-  size_t cb_pad = padding();
-
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      if (p->needs_unsynchronisation()) {
-        return true;
-      }
-      p += 1;
-    }
-    if (p->needs_unsynchronisation(cb_pad == 0)) {
-      return true;
-    }
+  std::vector<unsigned char> buf = serialize(false);
+  if (0 != detail::count_syncs(buf.begin(), buf.end(), true)) {
+    return true;
   }
 
-  return false;
-
+  // In ID3v2.3+, a trailing 0xff is treated as a false sync.
+  std::size_t cb = buf.size() - padding();
+  return 0 != cb && 0xff == buf[cb - 1];
 }
 
 /**
@@ -632,33 +578,16 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
 std::size_t
 scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
 {
-  using namespace std;
+  std::vector<unsigned char> buf = serialize(unsync);
 
-  unsigned char f = flags();
+  // The "unsync" flag is to be set exactly when we're applying
+  // unsynchronisation (regardless of how the tag was read)
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
-  write_header(os, f, size(unsync));
-  size_t cb = 10;
-
-  if (pext_header_) {
-    if (pext_header_->has_crc()) {
-      pext_header_->crc(*this);
-    }
-    cb += pext_header_->write(os, unsync);
-  }
-
-  cb = accumulate(begin(), end(), cb,
-                  [&os, unsync](size_t n, const id3v2_3_frame &f)
-                  { return n + f.write(os, unsync); });
-
-  size_t cbpad = padding();
-  while (cbpad) {
-    size_t towrite = min(cbpad, CBPAD);
-    os.write(PAD, towrite);
-    cb += towrite;
-    cbpad -= towrite;
-  }
+  write_header(os, f, buf.size());
+  os.write((const char*)buf.data(), buf.size());
 
-  return cb;
+  return 10 + buf.size();
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index d257b04..a55d2f4 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -173,6 +173,9 @@ namespace scribbu {
       { return *crc_; }
       std::size_t padding_size() const
       { return cbpad_; }
+      /// Update the size of the padding
+      void padding_size(std::size_t cbpad)
+      { cbpad_ = cbpad; dirty_ = true; }
       /// Write this header to an ostream without unsynchronisation; if this header
       /// is configured to include a CRC, it will be updated based on \a tag
       std::size_t write(std::ostream &os, bool unsync = false) const;
@@ -590,6 +593,8 @@ namespace scribbu {
 
   private:
 
+    /// Serialize everything after the header
+    std::vector<unsigned char> serialize(bool unsync) const;
     /// Rebuild our ancillary datastructures from the frame vector
     void rebuild_lookups();
     /// Enter the frame at index  idx into our ancillary datastructures
-- 
2.43.0


From f45c1bde892a1726ee2400e52b5c86b1f1cc8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:10 +0000
Subject: [PATCH 021/136] fix: write ID3v2.4 tags whose header, extended header
 and footer are right

The size written counted the padding twice and included the footer, the
unsynchronisation flag did not reflect how the tag was written, and the fields
of the extended header lacked their lengths, with a checksum that was not
brought up to date.  A tag with false syncs in only some of its frames was
reported not to need unsynchronisation.
---
 scribbu/id3v2-utils.hh |   2 +-
 scribbu/id3v2.hh       |   4 ++
 scribbu/id3v24.cc      | 115 ++++++++++++++++++++++-------------------
 scribbu/id3v24.hh      |  10 +++-
 scribbu/tagset.hh      |   2 +-
 5 files changed, 77 insertions(+), 56 deletions(-)

diff --git a/scribbu/id3v2-utils.hh b/scribbu/id3v2-utils.hh
index 7cc1318..6752a41 100644
--- a/scribbu/id3v2-utils.hh
+++ b/scribbu/id3v2-utils.hh
@@ -138,7 +138,7 @@ namespace scribbu {
                    bool unsync) {
     size_t sz = 0, pad = 0;
     for ( ; p0 != p1; ++p0) {
-      sz  += (*p0)->size(unsync);
+      sz  += (*p0)->serialized_size(unsync);
       pad += (*p0)->padding();
     }
     return std::make_tuple(sz, pad);
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..541278e 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -697,6 +697,10 @@ namespace scribbu {
     /// ID3v2 header (i.e. return the total tag size on disk, in bytes, less
     /// ten)
     virtual std::size_t size(bool unsync = false) const = 0;
+    /// Compute the number of bytes this tag will occupy when written, exclusive
+    /// of the ID3v2 header
+    virtual std::size_t serialized_size(bool unsync = false) const
+    { return size(unsync); }
     /// Return true if the serialization of this tag would contain false syncs
     /// if serialized in its present state
     virtual bool needs_unsynchronisation() const = 0;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index eb55eec..d38e0e5 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -294,6 +294,12 @@ scribbu::id3v2_4_tag::ext_header::size() const
   return size_;
 }
 
+std::size_t
+scribbu::id3v2_4_tag::ext_header::serialized_size() const
+{
+  return 6 + (is_update() ? 1 : 0) + (has_crc() ? 6 : 0) + (restricted() ? 2 : 0);
+}
+
 std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc() const
 {
@@ -307,18 +313,16 @@ std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc(const id3v2_4_tag &tag) const
 {
   using namespace std;
-  if (crc_dirty_) {
-    crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
-                      [](uint32_t checksum, const id3v2_4_frame &F)
-                      { return F.crc(checksum); });
-    size_t cbpad = tag.padding();
-    while (cbpad) {
-      size_t toadd = min(cbpad, CBPAD);
-      crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
-      cbpad -= toadd;
-    }
-    crc_dirty_ = false;
+  crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
+                    [](uint32_t checksum, const id3v2_4_frame &F)
+                    { return F.crc(checksum); });
+  size_t cbpad = tag.padding();
+  while (cbpad) {
+    size_t toadd = min(cbpad, CBPAD);
+    crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
+    cbpad -= toadd;
   }
+  crc_dirty_ = false;
   return crc_;
 }
 
@@ -344,7 +348,7 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   size_t cb = 0;
 
   unsigned char buf[6];
-  sync_safe_from_unsigned(size(), buf);
+  sync_safe_from_unsigned(serialized_size(), buf);
 
   buf[4] = 0x01;
 
@@ -372,9 +376,12 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    uint32_t x = crc(tag);
+    buf[0] = 0x05;
+    buf[1] = ( x >> 28 ) & 0x0f;
+    sync_safe_from_unsigned(x & 0xfffffff, buf + 2);
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -441,8 +448,10 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    buf[0] = 0x01;
+    buf[1] = tagr;
+    os.write((char*)buf, 2);
+    cb += 2;
   }
 
   return cb;
@@ -573,8 +582,8 @@ scribbu::id3v2_4_tag::flags() const
  * unsynchronisation to \em all frames when computing the tag size
  *
  * \return Size Serialized size of this tag, in bytes, exclusive of the ID3v2
- * header (i.e. the value that could be written in bytes six through nine of
- * the tag)
+ * header but including the footer, if any (i.e. the value that could be written
+ * in bytes six through nine of the tag, plus ten if there's a footer)
  *
  *
  * Computing the tag size is simpler in ID3v2.4 than ID3v2.3. The header,
@@ -603,46 +612,38 @@ scribbu::id3v2_4_tag::flags() const
 std::size_t
 scribbu::id3v2_4_tag::size(bool unsync) const
 {
-  using namespace std;
+  // NB. This has always counted the padding twice; `serialized_size' is the
+  // number of bytes that will be written.
+  return serialized_size(unsync) + padding();
+}
 
-  size_t cb = padding();
+/// Compute the number of bytes this tag will occupy when written, exclusive of
+/// the ID3v2 header
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_tag::serialized_size(bool unsync) const
+{
+  std::size_t cb = padding();
   if (has_footer()) {
     cb += 10;
   }
   if (pext_header_) {
-    cb += pext_header_->size();
+    cb += pext_header_->serialized_size();
   }
-
-  // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
-  size_t cb_pad = padding();
-
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      cb += p->serialized_size(unsync);
-      p += 1;
-    }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+  for (const auto &pf: frames_) {
+    cb += pf->serialized_size(unsync);
   }
-
-  // as well as any padding.
-  cb += cb_pad;
-
   return cb;
 }
 
 /**
- * \brief Return true if all frames would contain false syncs if serialized in
- * their present state
+ * \brief Return true if any frame would contain false syncs if serialized in
+ * its present state
  *
  *
- * The meaning of this method changes with ID3v2.4. Now, the unsynchronisation
- * flag means that the unsynchronisation scheme is applied to \em all frames;
- * consequently, this method will return true if and only if all frames need
- * it.
+ * The extended header, padding & footer are all sync-safe in ID3v2.4, so only
+ * the frames can contain false syncs. The last byte of the last frame is a
+ * false sync if it's 0xff and nothing follows it.
  *
  *
  */
@@ -651,9 +652,13 @@ scribbu::id3v2_4_tag::size(bool unsync) const
 bool
 scribbu::id3v2_4_tag::needs_unsynchronisation() const
 {
-
-  using namespace std;
-  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); });
+  for (std::size_t i = 0, n = frames_.size(); i < n; ++i) {
+    bool last_no_pad = i + 1 == n && 0 == padding() && !has_footer();
+    if (frames_[i]->needs_unsynchronisation(last_no_pad)) {
+      return true;
+    }
+  }
+  return false;
 }
 
 /**
@@ -710,8 +715,14 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  // Write the header...
-  write_header(os, flags(), size(unsync));
+  // Write the header, taking care to set the "unsync" flag exactly when we're
+  // applying unsynchronisation to all our frames (regardless of how the tag
+  // was read); the size therein does not include the footer...
+  unsigned char f = flags() & ~0x80;
+  if (unsync) f |= 0x80;
+  size_t sz = serialized_size(unsync);
+  if (has_footer()) sz -= 10;
+  write_header(os, f, sz);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -732,7 +743,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, f, sz);
   }
 
   return cb;
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 916dcd2..d0013ce 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -194,6 +194,9 @@ namespace scribbu {
       //// Retrieve the size of this extended header-- will throw if the size
       //// calculation is dirty
       std::size_t size() const;
+      /// Compute the number of bytes this extended header will occupy when
+      /// written (which may not be the size with which it was read)
+      std::size_t serialized_size() const;
       bool is_update() const
       { return is_update_; }
       bool has_crc() const
@@ -254,8 +257,11 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
-    /// Return true if all frames would contain false syncs if serialized in
-    /// their present state
+    /// Compute the number of bytes this tag will occupy when written, exclusive
+    /// of the ID3v2 header
+    virtual std::size_t serialized_size(bool unsync = false) const;
+    /// Return true if any frame would contain false syncs if serialized in
+    /// its present state
     virtual bool needs_unsynchronisation() const;
     /// Serialize this tag to an output stream, perhaps applying the
     /// unsynchronisation scheme if the caller so chooses ("unsynchronised"
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..ab6a979 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -499,7 +499,7 @@ namespace scribbu {
     size_t cb_tot = 0, cb_pad = 0;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      cb_tot += (*p0)->size(do_unsync) + 10;
+      cb_tot += (*p0)->serialized_size(do_unsync) + 10;
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
-- 
2.43.0


From 5b2f381fcec5bc60e38d6ab48dfd9bbc6a6f971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:40 +0000
Subject: [PATCH 022/136] fix: never read beyond the end of a malformed ID3v2
 tag

Frames that claim more bytes than the tag has left, trailing bytes too few to
hold a frame header, frame flags announcing data that is not there, extended
headers longer than the tag and absurd decompressed sizes were all believed.  A
frame without payload at the very end of a tag is accepted, since the library
writes such frames.
---
 scribbu/id3v22.cc | 21 ++++++++++---------
 scribbu/id3v23.cc | 51 +++++++++++++++++++++++++++++----------------
 scribbu/id3v24.cc | 53 +++++++++++++++++++++++++++++++++--------------
 3 files changed, 81 insertions(+), 44 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 5c40232..940c204 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -783,9 +783,9 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
       // If we're here, there are three possibilities:
 
       // 1. There is another frame to be consumed, in which case we should
-      // have at least eleven bytes ahead of us: "A frame must be at least 1
-      // byte big, excluding the header."-- "ID3 tag version 2.2",
-      // sec. 3.2.
+      // have at least its six byte header ahead of us (the specification
+      // requires a frame to hold at least one byte, but we can write frames
+      // that don't)
 
       // 2. The tag contains padding after all the frames & we've reached
       // that; "The tag consists of a header, frames and
@@ -794,8 +794,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
       // 3. The tag is corrupt
 
       std::size_t left = p1 - p0;
-      if ( (1 == left && 0 == p0[0]) ||
-           (2 == left && 0 == p0[0] && 0 == p0[1]) ) {
+      if (left < 3) {
+        if (std::any_of(p0, p1, [](unsigned char c) { return 0 != c; })) {
+          throw invalid_tag();
+        }
         padding_ = left;
         break;
       }
@@ -807,7 +809,7 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
-      if (p0 + 7 > p1) {
+      if (left < 6) {
         throw invalid_tag();
       }
 
@@ -822,10 +824,9 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
 
       //     cb_tag = cb_frame + 6
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // If there isn't room for the frame in what's left of the tag, the tag
+      // is either corrupt or was written incorrectly.
+      if (cb_frame > left - 6) {
         throw invalid_tag();
       }
 
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index e7d16cc..2b7761c 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -980,6 +980,11 @@ scribbu::id3v2_3_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib can't compress better than 1032:1, so don't bother allocating for (or
+  // trusting) anything claiming otherwise.
+  if (uncompressed_size > 64 + 1032 * cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
@@ -1058,9 +1063,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         // If we're here, there are three possibilities:
 
         // 1. There is another frame to be consumed, in which case we should
-        // have at least eleven bytes ahead of us: "A frame must be at least 1
-        // byte big, excluding the header."-- "ID3 tag version 2.3.0",
-        // sec. 3.3.
+        // have at least its ten byte header ahead of us (the specification
+        // requires a frame to hold at least one byte, but we can write frames
+        // that don't)
 
         // 2. The tag contains padding after all the frames & we've reached
         // that; "It is permitted to include padding after all the final frame
@@ -1074,9 +1079,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         // 3. The tag is corrupt
 
         std::size_t left = p1 - pcurr;
-        if ( (1 == left && 0 == pcurr[0]) ||
-             (2 == left && 0 == pcurr[0] && 0 == pcurr[1]) ||
-             (3 == left && 0 == pcurr[0] && 0 == pcurr[1] && 0 == pcurr[2]) ) {
+        if (left < 4) {
+          if (std::any_of(pcurr, p1, [](unsigned char c) { return 0 != c; })) {
+            throw invalid_tag();
+          }
           padding_ = left;
           break;
         }
@@ -1088,11 +1094,14 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
-        if (pcurr + 11 > p1) {
+        if (left < 10) {
           throw invalid_tag();
         }
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
@@ -1118,6 +1127,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+        if (cb_read < (f1 & 0x80 ? 4 : 0) + (f1 & 0x40 ? 1 : 0) + (f1 & 0x20 ? 1 : 0)) {
+          throw invalid_tag();
+        }
         boost::optional<std::size_t> decompressed_size = boost::none;
         if (0 != (f1 & 0x80)) {
           decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
@@ -1168,9 +1180,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       // If we're here, there are three possibilities:
 
       // 1. There is another frame to be consumed, in which case we should
-      // have at least eleven bytes ahead of us: "A frame must be at least 1
-      // byte big, excluding the header."-- "ID3 tag version 2.3.0",
-      // sec. 3.3.
+      // have at least its ten byte header ahead of us (the specification
+      // requires a frame to hold at least one byte, but we can write frames
+      // that don't)
 
       // 2. The tag contains padding after all the frames & we've reached
       // that; "It is permitted to include padding after all the final frame
@@ -1184,9 +1196,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       // 3. The tag is corrupt
 
       std::size_t left = p1 - p0;
-      if ( (1 == left && 0 == p0[0]) ||
-           (2 == left && 0 == p0[0] && 0 == p0[1]) ||
-           (3 == left && 0 == p0[0] && 0 == p0[1] && 0 == p0[2]) ) {
+      if (left < 4) {
+        if (std::any_of(p0, p1, [](unsigned char c) { return 0 != c; })) {
+          throw invalid_tag();
+        }
         // Padding
         break;
       }
@@ -1197,7 +1210,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      if (p0 + 11 > p1) {
+      if (left < 10) {
         throw invalid_tag();
       }
 
@@ -1211,10 +1224,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // If there isn't room for the frame in what's left of the tag, the tag
+      // is either corrupt or was written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1238,6 +1250,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+      if (cb_read < (f1 & 0x80 ? 4 : 0) + (f1 & 0x40 ? 1 : 0) + (f1 & 0x20 ? 1 : 0)) {
+        throw invalid_tag();
+      }
       boost::optional<std::size_t> decompressed_size = boost::none;
       if (0 != (f1 & 0x80)) {
         decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index d38e0e5..0f8c5d6 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -195,9 +195,15 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
+  if (size_ < 6 || size_ > static_cast<std::size_t>(p1 - p0)) {
+    throw invalid_ext_header();
+  }
+
+  p1 = p0 + size_;
+
   std::size_t num_flag_bytes = p0[4];
 
-  if (!num_flag_bytes) {
+  if (!num_flag_bytes || 5 + num_flag_bytes > size_) {
     throw invalid_ext_header();
   }
 
@@ -1129,6 +1135,11 @@ scribbu::id3v2_4_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib can't compress better than 1032:1, so don't bother allocating for (or
+  // trusting) anything claiming otherwise.
+  if (uncompressed_size > 64 + 1032 * cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
@@ -1201,9 +1212,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
 
         std::size_t left = p1 - pcurr;
-        if ( (1 == left && 0 == pcurr[0]) ||
-             (2 == left && 0 == pcurr[0] && 0 == pcurr[1]) ||
-             (3 == left && 0 == pcurr[0] && 0 == pcurr[1] && 0 == pcurr[2]) ) {
+        if (left < 4) {
+          if (std::any_of(pcurr, p1, [](unsigned char c) { return 0 != c; })) {
+            throw invalid_tag();
+          }
           padding_ = left;
           break;
         }
@@ -1216,17 +1228,20 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 10) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
-        }
-
         unsigned char f0 = p0[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
@@ -1247,6 +1262,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+        if (cb_read < (f1 & 0x40 ? 1 : 0) + (f1 & 0x04 ? 1 : 0) + (f1 & 0x01 ? 4 : 0)) {
+          throw invalid_tag();
+        }
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
           group_id = *pread++;
@@ -1299,9 +1317,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
       std::size_t left = p1 - p0;
-      if ( (1 == left && 0 == p0[0]) ||
-           (2 == left && 0 == p0[0] && 0 == p0[1]) ||
-           (3 == left && 0 == p0[0] && 0 == p0[1] && 0 == p0[2]) ) {
+      if (left < 4) {
+        if (std::any_of(p0, p1, [](unsigned char c) { return 0 != c; })) {
+          throw invalid_tag();
+        }
         // Padding
         break;
       }
@@ -1312,7 +1331,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      if (p0 + 11 > p1) {
+      if (left < 10) {
         throw invalid_tag();
       }
 
@@ -1326,10 +1345,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // If there isn't room for the frame in what's left of the tag, the tag
+      // is either corrupt or was written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1353,6 +1371,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+      if (cb_read < (f1 & 0x40 ? 1 : 0) + (f1 & 0x04 ? 1 : 0) + (f1 & 0x01 ? 4 : 0)) {
+        throw invalid_tag();
+      }
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
         group_id = *pread++;
-- 
2.43.0


From 473bb23dade8a48275fa519d1b1520ebe2b80848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:40 +0000
Subject: [PATCH 023/136] fix: read tags holding encrypted ENCR frames without
 looping forever

While looking for encryption methods, the flags of the first frame were used
for each frame (ID3v2.4) and the wrong bit was taken as the read-only flag
(ID3v2.3).
---
 scribbu/id3v23.cc | 19 +++++++------------
 scribbu/id3v24.cc | 19 +++++++------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2b7761c..3ebaf2d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1050,11 +1050,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     static const frame_id4 ENCR("ENCR");
     static const frame_id4 PADDING(0, 0, 0, 0);
 
-    // Process the list of frames once, to grab all encryption methods; take
-    // care to handle ENCR frames that are themselves encrypted!
+    // Process the list of frames once, to grab all encryption methods. ENCR
+    // frames that are themselves encrypted are passed over: we have no means of
+    // decrypting them.
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
-    do {
+    {
 
       const unsigned char *pcurr = p0;
 
@@ -1115,7 +1115,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
@@ -1152,12 +1152,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         boost::shared_array<unsigned char> pf;
 
         if (boost::none != encryption_method) {
-          if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
-            continue;
-          }
-          std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
-          pread = pf.get();
+          continue;
         }
 
         if (boost::none != decompressed_size) {
@@ -1173,7 +1168,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    }
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 0f8c5d6..765fce0 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1201,11 +1201,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     static const frame_id4 ENCR("ENCR");
     static const frame_id4 PADDING(0, 0, 0, 0);
 
-    // Process the list of frames once, to grab all encryption methods; take
-    // care to handle ENCR frames that are themselves encrypted!
+    // Process the list of frames once, to grab all encryption methods. ENCR
+    // frames that are themselves encrypted are passed over: we have no means of
+    // decrypting them.
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
-    do {
+    {
 
       const unsigned char *pcurr = p0;
 
@@ -1242,7 +1242,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
@@ -1289,12 +1289,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         boost::shared_array<unsigned char> pf;
 
         if (boost::none != encryption_method) {
-          if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
-            continue;
-          }
-          std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
-          pread = pf.get();
+          continue;
         }
 
         if (compressed) {
@@ -1310,7 +1305,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    }
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From fd344ef2391217cb427b5a86a16e45d461ca91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:40 +0000
Subject: [PATCH 024/136] fix: read compressed and unsynchronised ID3v2.4
 frames and footers

The wrong flag was taken for compression, every frame with a data length
indicator was decompressed, unsynchronisation was never undone and the footer
was taken for the beginning of the audio.
---
 scribbu/id3v2.cc  |  4 ++++
 scribbu/id3v24.cc | 51 +++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..140adea 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -198,6 +198,10 @@ scribbu::looking_at_id3v2(std::istream &is,
           0x80 > buf[8] && 0x80 > buf[9]) {
 
         H.size_ = unsigned_from_sync_safe(buf[6], buf[7], buf[8], buf[9]);
+        if (4 == H.version_ && 0x10 & H.flags_) {
+          // The size in the header doesn't count the footer
+          H.size_ += ID3V2_HEADER_SIZE;
+        }
         H.present_ = true;
 
       } // End if on bytes 6-9 being a sync-safe int.
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 765fce0..2fa42aa 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -494,7 +494,15 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::istream     &is,
                                                   generic_parsers_.begin()));
   get_default_text_frame_parsers(std::inserter(text_parsers_,
                                                   text_parsers_.begin()));
-  parse(is, H.size_, H.flags_ & 0x40);
+  // `H.size_' counts the footer, if any
+  std::size_t size = H.size_;
+  if (footer_) {
+    if (size < ID3V2_HEADER_SIZE) {
+      throw invalid_tag();
+    }
+    size -= ID3V2_HEADER_SIZE;
+  }
+  parse(is, size, H.flags_ & 0x40);
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
@@ -1189,6 +1197,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
 
+    boost::optional<bool> unsync = unsynchronised();
+    bool tag_unsync = unsync && *unsync;
+
     const unsigned char *p0 = pb.get();
     const unsigned char *p1 = p0 + cb_tag;
 
@@ -1262,6 +1273,14 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+        bool unsynchronisation = f1 & 0x02;
+        std::vector<unsigned char> resync;
+        if (unsynchronisation || tag_unsync) {
+          // Unsynchronisation covers everything after the frame header.
+          resync.assign(pread, pread + cb_read);
+          cb_read = resynchronise(resync.data(), cb_read);
+          pread = resync.data();
+        }
         if (cb_read < (f1 & 0x40 ? 1 : 0) + (f1 & 0x04 ? 1 : 0) + (f1 & 0x01 ? 4 : 0)) {
           throw invalid_tag();
         }
@@ -1270,13 +1289,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           encryption_method = *pread++;
           cb_read -= 1;
         }
-        bool unsynchronisation = f1 & 0x02;
         boost::optional<std::size_t> data_len_ind;
         if (f1 & 0x01) {
           data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
@@ -1293,6 +1311,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1366,6 +1387,14 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+      bool unsynchronisation = f1 & 0x02;
+      std::vector<unsigned char> resync;
+      if (unsynchronisation || tag_unsync) {
+        // Unsynchronisation covers everything after the frame header.
+        resync.assign(pread, pread + cb_read);
+        cb_read = resynchronise(resync.data(), cb_read);
+        pread = resync.data();
+      }
       if (cb_read < (f1 & 0x40 ? 1 : 0) + (f1 & 0x04 ? 1 : 0) + (f1 & 0x01 ? 4 : 0)) {
         throw invalid_tag();
       }
@@ -1374,13 +1403,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         encryption_method = *pread++;
         cb_read -= 1;
       }
-      bool unsynchronisation = f1 & 0x02;
       boost::optional<std::size_t> data_len_ind;
       if (f1 & 0x01) {
         data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
@@ -1400,7 +1428,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
@@ -1413,6 +1444,14 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
     } // End iteration over all frames.
 
+    if (footer_) {
+      unsigned char buf[ID3V2_HEADER_SIZE];
+      is.read((char*)buf, ID3V2_HEADER_SIZE);
+      if ('3' != buf[0] || 'D' != buf[1] || 'I' != buf[2]) {
+        throw invalid_tag();
+      }
+    }
+
   } catch (const scribbu::error &ex) {
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
-- 
2.43.0


From 1cd53389ebca1ffc2388e1808d6bfab0b189761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:40 +0000
Subject: [PATCH 025/136] fix: leave streams usable after failing to read an
 ID3v2 tag

A truncated tag left the stream failed with an altered exception mask and
raised a second exception while handling the first.  A tag with an empty body
left the stream in the middle of its header; absence of a tag went unnoticed.
---
 scribbu/id3v2.cc  | 23 ++++++++++++-----------
 scribbu/id3v22.cc |  6 +++++-
 scribbu/id3v23.cc |  4 ++++
 scribbu/id3v24.cc |  4 ++++
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 140adea..437a81b 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -431,9 +431,10 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
+    is.exceptions(std::ios_base::goodbit);
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     throw;
   }
 
@@ -448,6 +449,8 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
 
   if (!present) {
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw no_tag();
   } // End if on "ID3" magic number.
 
   // Restore the exception mask
@@ -487,26 +490,24 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
+    is.exceptions(std::ios_base::goodbit);
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     throw;
   }
 
   unsigned char flags = buf[0];
 
-  std::size_t cb = 0;
-  if (0x80 > buf[1] && 0x80 > buf[2] &&
-      0x80 > buf[3] && 0x80 > buf[4]) {
-
-    cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
-
-  } // End if on bytes 6-9 being a sync-safe int.
-
-  if (0 == cb) {
+  if (0x80 & (buf[1] | buf[2] | buf[3] | buf[4])) {
+    // bytes 6-9 aren't a sync-safe int.
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw invalid_tag();
   }
 
+  std::size_t cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
+
   // Restore the exception mask
   is.exceptions(exc_mask);
 
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 940c204..613ca97 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -697,7 +697,7 @@ scribbu::id3v2_2_tag::parsing_is_reserved(const frame_id3 &id)
 {
   using namespace std;
 
-  vector<frame_id3> RSVD{ "COM", "PCT", "POP" };
+  vector<frame_id3> RSVD{ "COM", "CNT", "POP" };
 
   return RSVD.end() != find(RSVD.begin(), RSVD.end(), id);
 }
@@ -837,10 +837,14 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 3ebaf2d..b75566b 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1287,10 +1287,14 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 2fa42aa..b05b4ce 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1453,10 +1453,14 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     }
 
   } catch (const scribbu::error &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
-- 
2.43.0


From 1ee8ed85f36c674865a8526cfebcaf4a35217e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:40 +0000
Subject: [PATCH 026/136] fix: read the tag at a given index from after its
 header

The header was parsed once more as the first frame.
---
 scribbu/id3v2-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index f3eeea4..64d2239 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -72,7 +72,7 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
     ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
   }
 
-  id3v2_info I = looking_at_id3v2(ifs, true);
+  id3v2_info I = looking_at_id3v2(ifs, false);
   if (!I.present_) {
     throw std::invalid_argument("bad index");
   }
-- 
2.43.0


From 7a5543c688d438ad19425ed7b959299e37d2cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:18 +0000
Subject: [PATCH 027/136] fix: refuse ID3v2.3 extended headers that do not fit
 in the tag

---
 scribbu/id3v23.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index b75566b..27d9deb 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -189,11 +189,15 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
 
-  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) ) {
+  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) || p1 - p0 < 4 + cb ) {
     throw invalid_ext_header();
   }
 
-- 
2.43.0


From 2484df07043e444e80f4449d0c0d4df1af714585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:08 +0000
Subject: [PATCH 028/136] fix: initialize the padding and flags of ID3v2.2 tags
 built from scratch

---
 scribbu/id3v22.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 3a0a8c3..06de155 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false):
+      id3v2_tag(2, 0), compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From 2ddba4a63b0cac5b314e99d087ce1f54b16bfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:11 +0000
Subject: [PATCH 029/136] fix: count the play counts of ID3v2.4 tags

has_play_count() looked for the three-letter name that ID3v2.2 uses, so
a 2.4 tag never had a play count and play_count() always threw.
---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index d0013ce..230cbaa 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -341,7 +341,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From 5b120a069d32d619c878a22bdc0dd723178d1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:23 +0000
Subject: [PATCH 030/136] fix: let new text frames hold text beyond Latin-1

Setting, say, a Cyrillic title worked when a tag already had a title but
threw when the frame had to be created. Both now go through set(), which
falls back to UCS-2.
---
 scribbu/id3v22.cc | 3 ++-
 scribbu/id3v23.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 613ca97..81d6bda 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -946,7 +946,8 @@ scribbu::id3v2_2_tag::set_text_frame(const frame_id3 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_2_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_2_text_frame>(id, string(), src, add_bom, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_2_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_2_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 27d9deb..020a680 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1446,7 +1446,8 @@ void scribbu::id3v2_3_tag::set_text_frame(const frame_id4 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_3_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_3_text_frame>(id, string(), src, add_bom, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_3_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_3_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
-- 
2.43.0


From 209d3857eedf9656da935b1bb1c3c59d3cac7a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:23 +0000
Subject: [PATCH 031/136] fix: read ID3v2.4 text without byte-order mark as
 big-endian

Encoding 2 is UTF-16BE by definition; it was handed to iconv as UTF-16,
which assumes the order of the host when there is no mark.
---
 scribbu/framesv24.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index eefbf5b..5be4de3 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -62,6 +62,8 @@ namespace scribbu {
           src =  encoding::UTF_16BE;
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
+        } else if (2 == unicode) {
+          src =  encoding::UTF_16BE;
         } else {
           src =  encoding::UTF_16;
         }
-- 
2.43.0


From e0a910ef94b685dabec8554926c4f9ebd8c1c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:23 +0000
Subject: [PATCH 032/136] fix: put the right byte-order mark before big-endian
 UTF-32

The mark was 00 00 ff fe, and UCS-4 text, which iconv writes
big-endian, was given the little-endian one.
---
 scribbu/charsets.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..a6970b6 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -785,7 +785,7 @@ namespace scribbu {
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
@@ -809,13 +809,9 @@ namespace scribbu {
           pbom = UTF16LE;
         }
         break;
-      case encoding::UCS_4:
+      case encoding::UCS_4: // big-endian on all hosts
         cbbom = 4;
-        if constexpr (std::endian::native == std::endian::big) {
-          pbom = UTF32BE;
-        } else {
-          pbom = UTF32LE;
-        }
+        pbom = UTF32BE;
         break;
       case encoding::UCS_2BE:
       case encoding::UTF_16BE:
-- 
2.43.0


From eb43f31e726478c3358184a53ac921cacac6e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:23 +0000
Subject: [PATCH 033/136] fix: keep the text when a conversion needs a second
 attempt

When the first output buffer was too small the retry wrote to shadowed
variables, so the result was cut to nothing and could be written past
the end of the buffer. iconv's state is reset for the retry as well.
---
 scribbu/charsets.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index a6970b6..2748849 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -710,7 +710,8 @@ namespace scribbu {
       inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
       inbytesleft = cbbuf;
       outbytesleft = cbout;
-      char *outbuf = poutbuf.get();
+      outbuf = poutbuf.get();
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr); // initial state
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
@@ -865,9 +866,9 @@ namespace scribbu {
 
       inbuf = const_cast<char*>(text);
       inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
+      outbytesleft = cbout - cbbom;
+      outbuf = reinterpret_cast<char*>(&(out[cbbom]));
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr); // initial state
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-- 
2.43.0


From 2c3f0b47ea62abb0aa3465eb6770d43d4a2c3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:55 +0000
Subject: [PATCH 034/136] fix: take byte-order marks for marks only where they
 are

Text with a byte-order mark could not be converted to Latin-1 and other
character sets, which have no such character. On the other hand text
that happens to begin with the bytes fe ff in an eight-bit character set
lost its first two characters. The mark is now skipped in the source,
according to the source's encoding.
---
 scribbu/charsets.cc  | 67 ++++++++++++++++++++++++++++----------------
 scribbu/framesv24.cc |  4 +++
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 2748849..096b1ed 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -91,6 +91,36 @@ namespace {
     return make_pair(true, TBL.at(key));
   }
 
+  /// Length of the byte-order mark with which text in the wide encoding \a enc
+  /// begins (zero if there's none)
+  std::size_t
+  bom_length(const unsigned char *p, std::size_t cb, scribbu::encoding enc)
+  {
+    using scribbu::encoding;
+
+    const bool big = std::endian::native == std::endian::big;
+
+    switch (enc) {
+    case encoding::UCS_2:
+      return bom_length(p, cb, big ? encoding::UCS_2BE : encoding::UCS_2LE);
+    case encoding::UCS_2BE:
+    case encoding::UTF_16BE:
+      return 1 < cb && 0xfe == p[0] && 0xff == p[1] ? 2 : 0;
+    case encoding::UCS_2LE:
+    case encoding::UTF_16LE:
+      return 1 < cb && 0xff == p[0] && 0xfe == p[1] ? 2 : 0;
+    case encoding::UCS_4:
+    case encoding::UCS_4BE:
+    case encoding::UTF_32BE:
+      return 3 < cb && 0 == p[0] && 0 == p[1] && 0xfe == p[2] && 0xff == p[3] ? 4 : 0;
+    case encoding::UCS_4LE:
+    case encoding::UTF_32LE:
+      return 3 < cb && 0xff == p[0] && 0xfe == p[1] && 0 == p[2] && 0 == p[3] ? 4 : 0;
+    default:
+      return 0;
+    }
+  }
+
 }
 
 namespace scribbu {
@@ -680,6 +710,15 @@ namespace scribbu {
       return std::string();
     }
 
+    // The byte-order mark of a wide encoding isn't part of the text (and most
+    // target encodings have no representation for it).
+    std::size_t cbbom = bom_length(pbuf, cbbuf, srcenc);
+    pbuf += cbbom;
+    cbbuf -= cbbom;
+    if (0 == cbbuf) {
+      return std::string();
+    }
+
     detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
 
     char *inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
@@ -725,33 +764,13 @@ namespace scribbu {
     outbuf = poutbuf.get();
     cbout -= outbytesleft;
 
-    if ((3 < cbout) &&
-        ((0x00 == (unsigned char)outbuf[0] &&
-          0x00 == (unsigned char)outbuf[1] &&
-          0xfe == (unsigned char)outbuf[2] &&
-          0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
-          0x00 == (unsigned char)outbuf[2] &&
-          0x00 == (unsigned char)outbuf[3]))) {
-      outbuf += 4;
-      cbout -= 4;
-    }
-    else if (2 < cbout  &&
-             0xef == (unsigned char)outbuf[0] &&
-             0xbb == (unsigned char)outbuf[1] &&
-             0xbf == (unsigned char)outbuf[2]) {
+    if (encoding::UTF_8 == dstenc && 2 < cbout &&
+        0xef == (unsigned char)outbuf[0] &&
+        0xbb == (unsigned char)outbuf[1] &&
+        0xbf == (unsigned char)outbuf[2]) {
       outbuf += 3;
       cbout -= 3;
     }
-    else if ((1 < cbout) &&
-             ((0xfe == (unsigned char)outbuf[0] &&
-               0xff == (unsigned char)outbuf[1]) ||
-              (0xff == (unsigned char)outbuf[0] &&
-               0xfe == (unsigned char)outbuf[1]))) {
-      outbuf += 2;
-      cbout -= 2;
-    }
 
     // If there are trailing nulls and/or spaces, don't copy them, either.
     while (cbout && (0 == outbuf[cbout - 1] || 32 == outbuf[cbout - 1])) {
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 5be4de3..111725d 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -70,6 +70,10 @@ namespace scribbu {
       }
       else if (3 == unicode) {
         src = encoding::UTF_8;
+        if (2 < cbbuf && 0xef == pbuf[0] && 0xbb == pbuf[1] && 0xbf == pbuf[2]) {
+          pbuf += 3;
+          cbbuf -= 3;
+        }
       }
       else {
         throw std::range_error("illegal encoding");
-- 
2.43.0


From a0f8abcba3a8509a110f179f93a090aa5d1b0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:55 +0000
Subject: [PATCH 035/136] fix: ignore unrepresentable characters when asked to

With //IGNORE GNU libc skips what it cannot convert, converts the rest
and then still fails with EILSEQ, so asking to ignore such characters
was the same as asking to fail.
---
 scribbu/charsets.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 096b1ed..bf0b276 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -754,7 +754,9 @@ namespace scribbu {
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-    if (~0 == status) {
+    // GNU libc reports what it was asked to ignore, having converted the rest.
+    if (~0 == status && !(on_no_encoding::ignore == rsp && EILSEQ == errno &&
+                          0 == inbytesleft)) {
       throw iconv_error(errno);
     }
 
@@ -891,7 +893,9 @@ namespace scribbu {
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-    if (~0 == status) {
+    // GNU libc reports what it was asked to ignore, having converted the rest.
+    if (~0 == status && !(on_no_encoding::ignore == rsp && EILSEQ == errno &&
+                          0 == inbytesleft)) {
       throw iconv_error(errno);
     }
 
-- 
2.43.0


From 5b8567566236b43ee45af06d1cb78e41281f549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:38 +0000
Subject: [PATCH 036/136] fix: don't wrap play counts around when incrementing

A counter at its greatest value became zero; like reading a counter that
is too wide, this is now an error.
---
 scribbu/framesv2.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index b1640cc..bb262d1 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -854,7 +854,13 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the count by one
     void inc()
-    { count(count() + 1); }
+    {
+      std::size_t n = count() + 1;
+      if (!n) {
+        throw std::domain_error("CNT overflow");
+      }
+      count(n);
+    }
 
     /// Return the size, in bytes, of this structure, prior to
     /// desynchronisation, compression, and/or encryption exclusive of the
@@ -942,7 +948,13 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the play count by one
     void inc()
-    { count(count() + 1); }
+    {
+      std::size_t n = count() + 1;
+      if (!n) {
+        throw std::domain_error("CNT overflow");
+      }
+      count(n);
+    }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
     /// compression, and/or encryption exclusive of the header
-- 
2.43.0


From 2337cc8a9ae7297ab718a9630fa0da8cd13ad23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:40 +0000
Subject: [PATCH 037/136] fix: keep a tag cloud when it can't be updated

update() emptied the cloud before it parsed the new tags, so malformed
text lost the old ones.
---
 scribbu/framesv2.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 741974b..143624e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1313,8 +1313,9 @@ scribbu::tag_cloud::merge(const std::string &tags)
 void
 scribbu::tag_cloud::update(const std::string &tags)
 {
-  tags_.clear();
-  parse_to_map(tags, tags_);
+  map_type M;
+  parse_to_map(tags, M);
+  tags_.swap(M);
 }
 
 /// Return the size, in bytes, of the frame, prior to desynchronisation,
-- 
2.43.0


From 5c203f0451d0efb45658160dedc075a8c8ef8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:40 +0000
Subject: [PATCH 038/136] fix: refuse a lone percent sign at the end of
 URL-encoded text

Incomplete escapes are an error everywhere else; at the very end of the
text the percent sign was silently dropped.
---
 scribbu/scribbu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..7ee6c9a 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -417,5 +417,9 @@ scribbu::urldecode(const std::string &text)
 
   }
 
+  if (saw_pct) {
+    throw std::invalid_argument("incomplete % sequence");
+  }
+
   return out;
 }
-- 
2.43.0


From 068ce67860a68010cee50bf6cb7a77a0279ec59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:33 +0000
Subject: [PATCH 039/136] fix: never overwrite an existing backup

When the file was named by a relative path no backup was recognized as
such: the new one was always named ".1" and the former ".1" was removed.
Suffixes too large for an int were mishandled likewise.
---
 scribbu/tagset.hh | 63 +++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 41 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index ab6a979..d975c70 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,13 +219,15 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      auto prefix = pth.filename().string();
       size_t nprefix = prefix.length();
 
-      vector<path> entries;
+      // The greatest suffix seen so far; represented as text, since there's no
+      // limit on the number of digits in a filename.
+      string n = "0";
       for (directory_iterator p0(here), p1; p0 != p1; ++p0) {
 
-        string s = p0->path().string();
+        string s = p0->path().filename().string();
 
         // we can eliminuate most entries by simply matching the
         // first part of the string against `prefix'.
@@ -240,42 +242,31 @@ namespace scribbu {
         }
 
         // We next expect all characters in s[nprefix+1:] to be digits
-        bool all_num = true;
-        for (ptrdiff_t i = nprefix + 1, n = s.length(); i < n; ++i) {
-          if ('0' > s[i] || '9' < s[i]) {
-            all_num = false;
-            break;
-          }
-        }
-
-        if (! all_num) {
+        string sfx = s.substr(nprefix + 1);
+        if (string::npos != sfx.find_first_not_of("0123456789")) {
           continue;
         }
 
         // If we made it here, *p0 is a path of the form <prefix>.NNN
-        entries.push_back(*p0);
+        sfx.erase(0, min(sfx.find_first_not_of('0'), sfx.length() - 1));
+        if (sfx.length() > n.length() ||
+            (sfx.length() == n.length() && sfx > n)) {
+          n = sfx;
+        }
       }
 
-      if (entries.empty()) {
-        string ext = pth.extension().string() + ".1";
-        return here / path(pth.stem().string() + ext);
+      // Add one...
+      ptrdiff_t i = n.length() - 1;
+      for ( ; 0 <= i && '9' == n[i]; --i) {
+        n[i] = '0';
+      }
+      if (0 <= i) {
+        n[i] += 1;
+      } else {
+        n = "1" + n;
       }
 
-      sort(entries.begin(), entries.end(),
-           [](const path &p1, const path &p2) {
-             int x0 = atoi(p1.extension().string().substr(1).c_str());
-             int x1 = atoi(p2.extension().string().substr(1).c_str());
-             return x0 < x1;
-           });
-
-      string s = entries.back().extension().string().substr(1);
-      int n = atoi(s.c_str());
-      n += 1;
-
-      stringstream stm;
-      stm << pth.string() << "." << n;
-
-      return path(stm.str());
+      return path(pth.string() + "." + n);
 
     } // End get_backup_name.
 
@@ -412,13 +403,6 @@ namespace scribbu {
 
       cp = detail::get_backup_name(pth);
 
-      // This is a race condition (`cp' could be created in between the call to
-      // `exists' and `copy'), but in that unlikely event the worst that will
-      // happen is the call to `copy' will fail.
-      if (fs::exists(cp)) {
-        fs::remove(cp);
-      }
-
       // WORKAROUND(boost): I should be able to call `fs::copy(pth, cp)' and
       // have it throw on failure. For reasons I have not yet figured out, doing
       // this on MacOS/clang causes a SEGV somewhere in
@@ -443,9 +427,6 @@ namespace scribbu {
         // `pth' off to a backup (if we haven't already)...
         if (cp.empty()) {
           cp = detail::get_backup_name(pth);
-          if (fs::exists(cp)) {
-            fs::remove(cp);
-          }
           fs::copy(pth, cp);
         }
         // remove the original...
-- 
2.43.0


From 7dbb2f8e235f4ff86f46afc1559e9bfb80a067e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:33 +0000
Subject: [PATCH 040/136] fix: replace files atomically when rewriting a tagset

The new file was written to the system's temporary directory. If that is
on another filesystem the original was removed before the new file was
copied, so that an interruption left neither; a copy of the original, or
else the temporary file, stayed behind even on success. The temporary
file was also left behind on failure, and the file's permissions were
lost. Write it next to the original, clean up after failures and keep the
permissions.
---
 scribbu/tagset.hh | 78 ++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 49 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index d975c70..069457c 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -149,8 +149,11 @@
  */
 
 #include <cerrno>
-#include <cstdio>
+#include <cstdlib>
 #include <sstream>
+#include <system_error>
+
+#include <unistd.h>
 
 #include <fstream>
 #include <filesystem>
@@ -315,13 +318,14 @@ namespace scribbu {
    *
    * This function works in a way that may seem unneccessarily complex at first:
    *
-   * 1. open a temporary file & write the new tagset to it
+   * 1. open a temporary file (in the same directory as \a pth) & write the
+   * new tagset to it
    *
    * 2. copy the contents of \a pth \em after its tagset to the temporary file
    *
    * 3. if \a keep_backup is true, copy the original file to the backup name
    *
-   * 4. copy the temporary file over the original file
+   * 4. rename the temporary file over the original file
    *
    * This expends more disk I/O for the benefit of not writing the original file
    * until the very end (in what I would *think* would be an atomic
@@ -346,19 +350,25 @@ namespace scribbu {
 
     namespace fs = std::filesystem;
 
-    // Ideally, I'd using std::tmpfile or mkstmp; functions that determine the
-    // temporary name & open it atomically, to avoid the race condition (and
-    // threat vector) of having a process determine the name, a second process
-    // create open a file by that name, and the first then opening it. The
-    // problem is that such implementations will delete the temp file as
-    // soon as I close my handle to it, making it impossible for me to
-    // write, close & copy it.
-
-    // My (admittedly poor) solution is to live with the race condition &
-    // truncate on open, hoping to merely stomp on the other process' file in
-    // the event I hit it (the race condition).
-    char buf[L_tmpnam];
-    fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    // The temporary file is created next to `pth' so that it can be renamed
+    // over it in one (atomic) step.
+    string tmpl = (fs::absolute(pth).parent_path() / ".scribbu.XXXXXX").string();
+    int fd = mkstemp(&(tmpl[0]));
+    if (-1 == fd) {
+      throw std::system_error(errno, std::generic_category());
+    }
+    close(fd);
+    fs::path tmpnam(tmpl);
+
+    // Don't leave the temporary file behind, should anything go wrong.
+    struct remover {
+      const fs::path &pth_;
+      ~remover() {
+        std::error_code ec;
+        fs::remove(pth_, ec);
+      }
+    } cleanup{tmpnam};
+
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
@@ -398,10 +408,9 @@ namespace scribbu {
     tmpfs.close();
     ifs.close();
 
-    fs::path cp;
     if (keep_backup) {
 
-      cp = detail::get_backup_name(pth);
+      fs::path cp = detail::get_backup_name(pth);
 
       // WORKAROUND(boost): I should be able to call `fs::copy(pth, cp)' and
       // have it throw on failure. For reasons I have not yet figured out, doing
@@ -416,37 +425,8 @@ namespace scribbu {
       }
     }
 
-    // Attempt a rename
-    std::error_code ec;
-    fs::rename(tmpnam, pth, ec);
-    if (ec) {
-      if (EXDEV == ec.value()) {
-        // `rename()' doesn't work across filesystems-- fallback to copy + rm.
-
-        // Thing is, `copy' fails when the destination exists (sigh). So, copy
-        // `pth' off to a backup (if we haven't already)...
-        if (cp.empty()) {
-          cp = detail::get_backup_name(pth);
-          fs::copy(pth, cp);
-        }
-        // remove the original...
-        fs::remove(pth);
-        // and attempt the copy & remmove
-        try {
-          fs::copy_file(tmpnam, pth);
-          if (! keep_backup) {
-            fs::remove(tmpnam);
-          }
-        } catch (const std::exception &ex) {
-          // Well, we're kind of screwed. At least attempt to put the original
-          // file back.
-          fs::copy(cp, pth, ec); // `ec' ignored intentionally on return
-          throw;
-        }
-      } else {
-        throw std::system_error(ec);
-      }
-    }
+    fs::permissions(tmpnam, fs::status(pth).permissions());
+    fs::rename(tmpnam, pth);
   }
 
   /**
-- 
2.43.0


From 186717886453ad0dcbb89c27291b006b5020138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:33 +0000
Subject: [PATCH 041/136] fix: use all the padding there is when adjusting a
 tagset

The reduction was refused, with some tags already adjusted, as soon as one
tag had less padding than its even share, although the others had enough;
a reduction smaller than the number of tags underflowed the first tag's
padding; and an empty tagset was a division by zero.
---
 scribbu/tagset.hh | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 069457c..4c0a58e 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -148,6 +148,7 @@
  *
  */
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdlib>
 #include <sstream>
@@ -620,22 +621,35 @@ namespace scribbu {
     }
 
     ptrdiff_t total_adj = cb_new - cb_curr;
-    ptrdiff_t num_tags = std::distance(p0, p1);
-    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
+    if (0 == total_adj) {
+      return;
+    }
 
-    size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
+    ptrdiff_t num_tags = std::distance(p0, p1);
+    size_t total_pad = 0;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      total_pad += (*p)->padding();
+    }
+    if (0 == num_tags || (total_adj < 0 && -total_adj > total_pad)) {
       throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
     }
-    (*p0)->padding(pad + adj + mu);
-    ++p0;
 
-    for ( ; p0 != p1; ++p0) {
-      pad = (*p0)->padding();
-      if (adj < 0 && -adj > pad) {
-        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
-      }
-      (*p0)->padding(pad + adj);
+    // Spread the adjustment evenly, as far as there is padding to take away...
+    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      ptrdiff_t pad = (*p)->padding();
+      ptrdiff_t n = std::max(adj + mu, -pad);
+      (*p)->padding(pad + n);
+      total_adj -= n;
+      mu = 0;
+    }
+
+    // and take what's lacking from wherever there's padding left.
+    for ( ; total_adj < 0; ++p0) {
+      ptrdiff_t pad = (*p0)->padding();
+      ptrdiff_t n = std::max(total_adj, -pad);
+      (*p0)->padding(pad + n);
+      total_adj -= n;
     }
   }
 
-- 
2.43.0


From fb07f6467727fef9615da49343b11c87f0155084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:33 +0000
Subject: [PATCH 042/136] fix: serialize a tagset before writing it in place

A frame that can't be written (an encrypted one, e.g.) raised an error
with the tags before it already overwritten, leaving a damaged file.
---
 scribbu/tagset.hh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 4c0a58e..dbe6e84 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -555,14 +555,26 @@ namespace scribbu {
       throw invalid_tagset_request(invalid_tagset_request::emplace_mismatch_sz);
     }
 
-    mapped_file mf(pth.native());
-    stream<mapped_file> ofs(mf);
-
+    // Serialize the tagset before touching the file: should that fail, the file
+    // is still intact.
+    std::ostringstream stm;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      (*p0)->write(ofs, do_unsync);
+      (*p0)->write(stm, do_unsync);
+    }
+
+    const std::string buf = stm.str();
+    if (buf.size() != cb_extant || buf.size() > std::filesystem::file_size(pth)) {
+      throw invalid_tagset_request(invalid_tagset_request::emplace_mismatch_sz);
     }
 
+    if (buf.empty()) {
+      return;
+    }
+
+    mapped_file mf(pth.native());
+    std::copy(buf.begin(), buf.end(), mf.data());
+
     // Done -- close on exit.
   }
 
-- 
2.43.0


From c396ace26195f83d8243cd220e054d0eee3ef83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:33 +0000
Subject: [PATCH 043/136] fix: emplace tagsets whose need for unsynchronisation
 varies with padding

Whether an ID3v2.4 tag needs unsynchronisation can depend on its padding.
When adjusting the padding changed that, the sizes no longer matched and
the update failed. An empty tagset failed, too.
---
 scribbu/tagset.hh | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index dbe6e84..f7f292c 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -153,6 +153,7 @@
 #include <cstdlib>
 #include <sstream>
 #include <system_error>
+#include <vector>
 
 #include <unistd.h>
 
@@ -705,22 +706,46 @@ namespace scribbu {
     size_t subs_sz, subs_pad;
     std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (subs_sz <= curr_sz) {
-      // we can emplace
-      if (subs_sz < curr_sz) {
+    if (p0 == p1 && 0 == curr_sz) {
+      // nothing there & nothing to be written
+      return;
+    }
+
+    if (p0 != p1 &&
+        (subs_sz <= curr_sz ||
+         (curr_sz >= subs_sz - subs_pad &&
+          emplace_strategy::only_with_full_padding != estrat))) {
+
+      // we can emplace, if we adjust the padding in [p0,p1). That may in turn
+      // change whether a tag needs unsynchronisation, and with it its size, so
+      // check again.
+      std::vector<size_t> pads;
+      for (forward_input_iterator p = p0; p != p1; ++p) {
+        pads.push_back((*p)->padding());
+      }
+
+      for (int i = 0; i < 3 && subs_sz != curr_sz &&
+             curr_sz + subs_pad >= subs_sz; ++i) {
         adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
+        std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
+      }
+
+      if (subs_sz == curr_sz) {
+        replace_tagset_emplace(pth, p0, p1, unsync);
+        return;
+      }
+
+      // It didn't work out
+      auto ppad = pads.begin();
+      for (forward_input_iterator p = p0; p != p1; ++p) {
+        (*p)->padding(*ppad++);
       }
-      replace_tagset_emplace(pth, p0, p1, unsync);
-    }
-    else if (curr_sz >= subs_sz - subs_pad &&
-             emplace_strategy::only_with_full_padding != estrat) {
-      // we can emplace, if we reduce the padding in [p0,p1)
-      adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-      replace_tagset_emplace(pth, p0, p1, unsync);
     }
-    else if (!fs::exists(pth)) {
+
+    if (!fs::exists(pth)) {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
+      ofs.exceptions(std::ios::eofbit|std::ios::failbit|std::ios::badbit);
       for ( ; p0 != p1; ++p0) {
         (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
       }
-- 
2.43.0


From f25d0d05585b852b4015e6974d97a1723753c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:21 +0000
Subject: [PATCH 044/136] fix: don't lose the ID3v1 tag when replacing it fails

The old tag was cut off the file before the new one was appended, so that
an error in between (a full disk, e.g.) lost it. Overwrite it in place, and
put it back should that fail.
---
 scribbu/id3v1.cc | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 08e9364..1325cbf 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -25,6 +25,9 @@
 
 #include <filesystem>
 #include <fstream>
+#include <sstream>
+#include <string>
+#include <system_error>
 
 namespace fs = std::filesystem;
 
@@ -585,8 +588,44 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
                                      std::ios::failbit |
                                      std::ios::badbit;
 
-  maybe_remove_id3v1(pth);
-  std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
-  ofs.exceptions(EXC_MASK);
-  tag.write(ofs);
+  std::ostringstream stm;
+  tag.write(stm);
+  const std::string buf = stm.str();
+
+  // Create the file, if it isn't there
+  std::ofstream(pth, std::ofstream::binary|std::ofstream::app);
+
+  std::fstream fstm;
+  fstm.exceptions(EXC_MASK);
+  fstm.open(pth, std::fstream::binary|std::fstream::in|std::fstream::out);
+
+  // The old tag (if any) is overwritten in place...
+  const std::uintmax_t old_size = fs::file_size(pth);
+  std::uintmax_t start = old_size;
+  id3v1_info I = ends_in_id3v1(fstm);
+  if (id3_v1_tag_type::none != I.type_) {
+    start = I.start_;
+  }
+  std::string old(old_size - start, 0);
+  fstm.seekg(start);
+  fstm.read(&(old[0]), old.size());
+
+  try {
+    fstm.seekp(start);
+    fstm.write(buf.data(), buf.size());
+    fstm.close();
+    fs::resize_file(pth, start + buf.size());
+  } catch (...) {
+    // and put back should that fail.
+    fstm.exceptions(std::ios::goodbit);
+    fstm.close();
+    fstm.clear();
+    fstm.open(pth, std::fstream::binary|std::fstream::in|std::fstream::out);
+    fstm.seekp(start);
+    fstm.write(old.data(), old.size());
+    fstm.close();
+    std::error_code ec;
+    fs::resize_file(pth, old_size, ec);
+    throw;
+  }
 }
-- 
2.43.0


From 977e4ed8de3215955e6ccec1b20271fa0b0f9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 045/136] fix: don't leave an incomplete backup behind

If copying the original failed half-way, the partial copy remained under
the name of a backup.
---
 scribbu/tagset.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index f7f292c..876b869 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -423,6 +423,11 @@ namespace scribbu {
       std::error_code ec;
       fs::copy(pth, cp, ec);
       if (ec) {
+        std::error_code ignored;
+        if (std::errc::file_exists != ec) {
+          // don't take half a copy for a backup
+          fs::remove(cp, ignored);
+        }
         throw std::system_error(ec);
       }
     }
-- 
2.43.0


From b316c56161475b83e34b3739ca9e7eac64884b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:39 +0000
Subject: [PATCH 046/136] fix: don't take a read error for the absence of a tag

---
 scribbu/id3v1.cc | 12 ++++++++++++
 scribbu/id3v2.cc |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 1325cbf..ffffc6b 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -510,8 +510,14 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
     }
   }
   catch (const std::ios_base::failure &ex) {
+    const bool bad = is.bad();
     is.exceptions(std::ios_base::goodbit);
     is.clear();
+    if (bad) {
+      is.seekg(here, std::ios_base::beg);
+      is.exceptions(exc_mask);
+      throw;
+    }
     is.exceptions(EXC_MASK);
   }
 
@@ -526,8 +532,14 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       }
     }
     catch (const std::ios_base::failure &ex) {
+      const bool bad = is.bad();
       is.exceptions(std::ios_base::goodbit);
       is.clear();
+      if (bad) {
+        is.seekg(here, std::ios_base::beg);
+        is.exceptions(exc_mask);
+        throw;
+      }
     }
 
   }
diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 437a81b..b17529c 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -178,9 +178,16 @@ scribbu::looking_at_id3v2(std::istream &is,
   try {
     is.read((char*)buf, ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
+    // Running out of input just means there's no tag here; failing to read
+    // doesn't.
+    const bool bad = is.bad();
+    is.exceptions(std::ios_base::goodbit);
     is.clear();
-    is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    if (bad) {
+      throw;
+    }
     return H;
   }
 
-- 
2.43.0


From 7bb35e8276f0423f4862ce4ed32df2e3965afdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:39 +0000
Subject: [PATCH 047/136] fix: don't take a file that can't be opened for one
 that doesn't exist

---
 scribbu/id3v1.cc  | 11 +++++------
 scribbu/tagset.hh | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index ffffc6b..377c986 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -573,15 +573,14 @@ scribbu::maybe_remove_id3v1(const fs::path &pth)
                                      std::ios::failbit |
                                      std::ios::badbit;
 
-  std::ifstream ifs;
-  ifs.exceptions(EXC_MASK);
-
-  try {
-    ifs.open(pth, std::ifstream::binary);
-  } catch (const std::ios_base::failure&) {
+  if (!fs::exists(pth)) {
     return;
   }
 
+  std::ifstream ifs;
+  ifs.exceptions(EXC_MASK);
+  ifs.open(pth, std::ifstream::binary);
+
   auto p = process_id3v1(ifs);
 
   ifs.close();
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 876b869..a0ff3c5 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -495,15 +495,14 @@ namespace scribbu {
                                        std::ios::badbit;
 
     size_t cb = 0;
-    std::ifstream ifs;
-
-    try {
-      ifs.open(pth, std::ifstream::binary);
-      ifs.exceptions(EXC_MASK);
-    } catch (const std::ifstream::failure &) {
+    if (!fs::exists(pth)) {
       return cb;
     }
 
+    std::ifstream ifs;
+    ifs.exceptions(EXC_MASK);
+    ifs.open(pth, std::ifstream::binary);
+
     scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs, false);
     while (id3v2.present_) {
       cb += 10 + id3v2.size_;
-- 
2.43.0


From 475ef88ae870c35ef7553011a7502e7747fb91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:39 +0000
Subject: [PATCH 048/136] fix: use an undetermined language when the locale
 names none

---
 scribbu/charsets.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index bf0b276..55dd698 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1187,10 +1187,12 @@ scribbu::language_from_locale()
   }
 
   if (0 == iso_869_1[0] && 0 == iso_869_1[1]) {
-    throw std::runtime_error("Unable to determine language from locale");
+    return language::und;
   }
 
-  return language_from_iso_639_1(iso_869_1);
+  // Not all locales name a language (e.g. "C.UTF-8")
+  language lang = language_from_iso_639_1(iso_869_1);
+  return language::from_locale == lang ? language::und : lang;
 
 }
 
-- 
2.43.0


From bee848d8185b5630c822f728456b5468685d96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:10 +0000
Subject: [PATCH 049/136] fix: select the tags given by --tag whatever their
 order

---
 src/command-utilities.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..7bb0eb4 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (tags.end() != find(tags.begin(), tags.end(), i)) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
@@ -355,7 +355,6 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
-        tags.pop_front();
         dirty = dirty || upd;
       } // End if on `tags'
     } // End iteration over `v2'
-- 
2.43.0


From a276ab7c30a52376ad8b3a0206b827a083249734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 050/136] fix: write only the tags that were changed

---
 src/command-utilities.cc | 17 +++++++++--------
 src/command-utilities.hh | 15 +++++++++------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 7bb0eb4..3006d9e 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -306,7 +306,8 @@ tagset_processor::process_file(const fs::path &pth)
   vector<unique_ptr<id3v2_tag>> v2;
   unique_ptr<id3v1_tag> pv1 = read_tagset(pth, back_inserter(v2));
 
-  bool dirty = false; // Will => true if the tagset is changed
+  bool dirty_v2 = false; // Will => true if the ID3v2 tags are changed
+  bool dirty_v1 = false; // Will => true if the ID3v1 tag is changed
 
   unique_ptr<id3v2_tag> pnv2; // holds address of newly create ID3v2 tag, if any
   if (v2.empty()) {
@@ -319,10 +320,10 @@ tagset_processor::process_file(const fs::path &pth)
     //         |-----+-------+-------------------+-------------------|
     if (pv1 && v2_creation_policy_ != v2_creation_policy::never) {
       pnv2 = create_v2(*pv1);
-      dirty = true;
+      dirty_v2 = true;
     } else if (!pv1 && v2_creation_policy_ == v2_creation_policy::always) {
       pnv2 = create_v2();
-      dirty = true;
+      dirty_v2 = true;
     }
   } else if (v2_tag_scope_policy_ != v2_tag_scope_policy::none) {
     // `tags' will contain the indicies of the ID3v2 tags to be processed
@@ -355,7 +356,7 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
-        dirty = dirty || upd;
+        dirty_v2 = dirty_v2 || upd;
       } // End if on `tags'
     } // End iteration over `v2'
   } // End if on the presence or absence of ID3v2 tags in `pth'.
@@ -372,13 +373,13 @@ tagset_processor::process_file(const fs::path &pth)
     //          |-----+-------+--------------------+--------------------+
     if (!v2.empty() && v1_creation_policy_ != v1_creation_policy::never) {
       pnv1 = create_v1(v2);
-      dirty = true;
+      dirty_v1 = true;
     } else if (v2.empty() && v1_creation_policy_ == v1_creation_policy::always) {
       pnv1 = create_v1();
-      dirty = true;
+      dirty_v1 = true;
     }
   } else if (v1_tag_scope_policy_ != v1_tag_scope_policy::no) {
-    dirty |= process_v1(*pv1);
+    dirty_v1 = process_v1(*pv1);
   }
 
   // OK-- processing logic done. Update our tagset with any newly created tags:
@@ -390,7 +391,7 @@ tagset_processor::process_file(const fs::path &pth)
   }
 
   // Wheh! Write the tagset out
-  write_tagset(dirty, v2.begin(), v2.end(), pv1, pth);
+  write_tagset(dirty_v2, dirty_v1, v2.begin(), v2.end(), pv1, pth);
 }
 
 ////////////////////////////////////////////////////////////////////////////////
diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 1104880..12a0cf3 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -329,7 +329,10 @@ private:
    * \brief Perhaps write a tagset out to disk
    *
    *
-   * \param dirty [in] the caller shall set this to true IFF the tagset is
+   * \param dirty_v2 [in] the caller shall set this to true IFF the ID3v2 tags
+   * are different than those already on-disk in \a pth
+   *
+   * \param dirty_v1 [in] the caller shall set this to true IFF the ID3v1 tag is
    * different than that already on-disk in \a pth
    *
    * \parm p0 [in] a forward input iterator referencing the first element in a
@@ -348,7 +351,7 @@ private:
    * If dry_run_ is true, this method shall print a message on stdout describing
    * whether or not the tagset would be written to \a pth.
    *
-   * Else, if \a dirty is true, this method shall write the tagset to \a
+   * Else, this method shall write the tags that differ to \a
    * pth. The unsynchronisation flag will be set according to adj_unsync_. If
    * create_backups_ is true, the entire file shall be copied, and the new
    * tagset written (along with track data) to \a pth. If false, this method
@@ -359,7 +362,7 @@ private:
 
   template <typename FII> // Forward Input Iterator => id3v2_tag
   void
-  write_tagset(bool dirty, FII p0, FII p1,
+  write_tagset(bool dirty_v2, bool dirty_v1, FII p0, FII p1,
                const std::unique_ptr<scribbu::id3v1_tag> &pv1,
                const std::filesystem::path &pth) const
   {
@@ -367,7 +370,7 @@ private:
     using scribbu::apply_unsync;
     using scribbu::emplace_strategy;
     using scribbu::padding_strategy;
-    if (dirty) {
+    if (dirty_v2 || dirty_v1) {
       if (dry_run_) {
         cout << "the dry-run flag was given-- nothing written";
         if (create_backups_) {
@@ -380,13 +383,13 @@ private:
 
         if (create_backups_) {
           replace_tagset_copy(pth, p0, p1, au);
-        } else {
+        } else if (dirty_v2) {
           maybe_emplace_tagset(pth, p0, p1, au,
                                emplace_strategy::reduce_padding_evenly,
                                padding_strategy::adjust_padding_evenly,
                                false);
         } // End if on `create_backups'.
-        if (pv1) {
+        if (pv1 && dirty_v1) {
           replace_id3v1(pth, *pv1);
         }
       } // End if on `dry_run'.
-- 
2.43.0


From 53610e725766794193477f18ec4bb5e86aa59131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 051/136] fix: create ID3v1 tags from ID3v2 tags that lack some
 frames

---
 src/command-utilities.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 12a0cf3..d862162 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -447,7 +447,11 @@ namespace detail {
     using namespace scribbu;
     string text;
     auto p = find_if(p0, p1, [&](const unique_ptr<id3v2_tag> &p) {
-      text = p->text(frm);
+      try {
+        text = p->text(frm);
+      } catch (const id3v2_tag::unknown_frame_error&) {
+        text.clear(); // no such frame in this tag
+      }
       return !text.empty();
     });
     return make_tuple(p != p1, text);
@@ -464,6 +468,9 @@ namespace detail {
 
     typedef typename FII::value_type T;
     auto p = find_if(p0, p1, [&](const T &p) {
+      if (!p->has_year()) {
+        return false;
+      }
       text = p->year();
       return 4 == text.length();
     });
@@ -486,6 +493,9 @@ namespace detail {
 
     typedef typename FII::value_type T;
     for_each(p0, p1, [&](const T &p) {
+      if (!p->has_content_type()) {
+        return;
+      }
       string text = p->content_type();
       if (text.length()) {
         size_t dl;
-- 
2.43.0


From 060710f61c226c0364fbe8c2420eb7c9873ae85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 052/136] fix: set the genre in tags that don't have one

---
 src/genre.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..b908002 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -366,7 +366,8 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -377,7 +378,8 @@ set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -388,7 +390,8 @@ set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
-- 
2.43.0


From 32bfef1207da19d3b3057f4f616f136b4d786d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 053/136] fix: parse the argument to --v1 as a number

---
 src/genre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index b908002..46de753 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -841,7 +841,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
@@ -952,7 +952,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From 7cc105e285c88a8ea2fb9945b33076267d4ba6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 054/136] fix: don't rewrite an ID3v1 tag that already has the
 requested genre

---
 src/genre.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/genre.cc b/src/genre.cc
index 46de753..9bf6934 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -352,14 +352,17 @@ set_genre::create_v2()
 /*virtual*/ bool
 set_genre::process_v1(scribbu::id3v1_tag &v1)
 {
+  bool upd = v1.genre() != genre_;
   v1.set_genre(genre_);
   if (v1.enhanced()) {
     auto opt = scribbu::text_for_genre(genre_);
     if (opt) {
+      std::string extant = v1.enh_genre<std::string>(scribbu::encoding::ISO_8859_1);
+      upd = upd || extant != *opt;
       v1.set_enh_genre(*opt);
     }
   }
-  return true;
+  return upd;
 }
 
 /// Process an ID3v2.2 tag
-- 
2.43.0


From fa858c3418b58edd074b049dfc2b1a076ad9a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 055/136] fix: always find a closest genre

---
 scribbu/winamp-genres.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..e21573a 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -27,6 +27,7 @@
 #include <algorithm>
 #include <codecvt>
 #include <locale>
+#include <memory>
 #include <string>
 
 const char32_t *GENRESW[] = {
@@ -561,7 +562,8 @@ scribbu::match_winamp_genre(const std::string &text)
   // the C99 feature & gcc extension of Variable Length Array. Once I had a
   // working implementation with unit tests, I replaced it with an equivalent &
   // standard-compliant 1D array into which I compute my own indexing.
-  ptrdiff_t FKP[max_k*max_p];
+  // It lives on the heap since `text' may be of any length.
+  unique_ptr<ptrdiff_t[]> FKP(new ptrdiff_t[max_k*max_p]);
   for (ptrdiff_t i = 0; i < max_k*max_p; ++i) {
     FKP[i] = -inf;
   }
@@ -582,10 +584,10 @@ scribbu::match_winamp_genre(const std::string &text)
 
   // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
   // to each; return the match with minimal Damerau-Levenshtein distance.
-  size_t least_dl = inf;
-  unsigned char best_genre;
+  size_t least_dl = inf + 1;
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
-    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
+    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, FKP.get(), max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
       least_dl = DL;
       best_genre = i;
-- 
2.43.0


From c890a549ece7fd0bb1375ac849db19f0e7cea24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 056/136] fix: create ID3v2 tags from ID3v1 tags that aren't
 ASCII

---
 src/command-utilities.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 3006d9e..08b7e83 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -434,13 +434,17 @@ copy_id3_v1(const scribbu::id3v1_tag &v1)
 
   unique_ptr<id3v2_3_tag> p(new id3v2_3_tag(1024));
 
-  string text = v1.artist<string>();
+  // ID3v1 specifies no encoding, but this one is customary (and can represent
+  // whatever we find).
+  const encoding ENC = encoding::ISO_8859_1;
+
+  string text = v1.artist<string>(ENC);
   if (text.length()) p->text(id3v2_text_frames::tpe1, text);
-  text = v1.title<string>();
+  text = v1.title<string>(ENC);
   if (text.length()) p->text(id3v2_text_frames::tit2, text);
-  text = v1.album<string>();
+  text = v1.album<string>(ENC);
   if (text.length()) p->text(id3v2_text_frames::talb, text);
-  text = v1.comment<string>();
+  text = v1.comment<string>(ENC);
   if (text.length()) p->add_comment(text);
 
   unsigned char genre = v1.genre();
@@ -449,7 +453,7 @@ copy_id3_v1(const scribbu::id3v1_tag &v1)
     p->content_type(*opt);
   }
 
-  text = v1.year<string>();
+  text = v1.year<string>(ENC);
   if (4 == text.length()) p->year(text);
 
   return p;
-- 
2.43.0


From 0d36fb83217f35f937978bcff0accea97f281c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 057/136] fix: process each file found exactly once, whatever
 becomes of the others

---
 src/command-utilities.hh | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index d862162..e4f27a1 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -553,6 +553,41 @@ copy_id3_v2(FII p0, FII p1)
 std::unique_ptr<scribbu::id3v2_3_tag>
 copy_id3_v1(const scribbu::id3v1_tag &v1);
 
+namespace detail {
+
+  /// Write \a pth, if it's a file, or all the files below \a pth, if it's a
+  /// directory, to \a pout; return the number of errors encountered
+  template <typename Functor,
+            typename FOI> // Forward Output Iterator
+  std::size_t
+  find_files(const std::filesystem::path &pth, Functor &F, FOI pout)
+  {
+    using namespace std;
+    using std::filesystem::directory_iterator;
+
+    size_t num_failed = 0;
+    try {
+      if (is_directory(pth)) {
+        for (const auto &ent: directory_iterator(pth)) {
+          num_failed += find_files(ent.path(), F, pout);
+        }
+      } else if (is_regular_file(pth)) {
+        *pout++ = pth;
+      } else if (!exists(symlink_status(pth))) {
+        cerr << pth.string() << ": no such file or directory" << endl;
+        ++num_failed;
+      } else if (F.verbose()) {
+        cout << "skipping non-file `" << pth << "'" << endl;
+      }
+    } catch (const std::filesystem::filesystem_error &ex) {
+      cerr << ex.what() << endl;
+      ++num_failed;
+    }
+    return num_failed;
+  }
+
+}
+
 template <typename FII,  // Forward Input Iterator => fs::path
           typename Functor>
 void
@@ -560,19 +595,27 @@ process_dirent_args(FII p0, FII p1, Functor &F)
 {
   using namespace std;
 
-  using std::filesystem::directory_iterator;
-  using std::filesystem::is_directory;
-  using std::filesystem::path;
+  // Find all the files before processing any of them, lest we find those that
+  // are created in the process (backups, e.g.)
+  vector<std::filesystem::path> files;
+  size_t num_failed = 0;
+  for_each(p0, p1, [&](const std::filesystem::path &pth) {
+    num_failed += ::detail::find_files(pth, F, back_inserter(files));
+  });
 
-  for_each(p0, p1, [&F](const std::filesystem::path &pth) {
-    if (is_directory(pth)) {
-      process_dirent_args(directory_iterator(pth), directory_iterator(), F);
-    } else if (is_regular_file(pth)) {
+  // A file that can't be processed is no reason not to process the others
+  for (const auto &pth: files) {
+    try {
       F.process_file(pth);
-    } else if (F.verbose()) {
-      cout << "skipping non-file `" << pth << "'" << endl;
+    } catch (const std::exception &ex) {
+      cerr << pth.string() << ": " << ex.what() << endl;
+      ++num_failed;
     }
-  });
+  }
+
+  if (num_failed) {
+    throw runtime_error("some files could not be processed");
+  }
 }
 
 // Convert (argc, argv) style parameters to a collection of tokens
-- 
2.43.0


From 9604d58c7532f0713f5edeca4c58a4a9cbe5572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 058/136] fix: update the ID3v1 tag in the text command

---
 src/text.cc | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index c673fcd..98b466a 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -112,7 +112,7 @@ public:
            v2_creation_policy v2cp, bool verbose, bool adj_unsync,
            bool create_backups):
     tagset_processor(v2_simple_tag_scope_policy::all,
-                     v1_tag_scope_policy::no,
+                     v1_tag_scope_policy::yes,
                      v2cp,
                      v1_creation_policy::never,
                      false,
@@ -135,7 +135,7 @@ public:
              scribbu::encoding srcenc, v2_creation_policy v2cp,
              bool verbose, bool adj_unsync, bool create_backups):
       tagset_processor(pt0, pt1,
-                       v1_tag_scope_policy::yes,
+                       v1_tag_scope_policy::no,
                        v2cp,
                        v1_creation_policy::never,
                        false,
@@ -232,42 +232,39 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
   using namespace std;
   using namespace scribbu;
 
-  size_t num_deltas = 0;
-  for_each(dels_.begin(), dels_.end(), [&](scribbu::id3v2_text_frames id) {
+  auto before = v1;
+
+  // ID3v1 specifies no encoding, but this one is customary
+  auto set = [&](id3v2_text_frames id, const string &text) {
+    const encoding DST = encoding::ISO_8859_1;
+    const on_no_encoding RSP = on_no_encoding::transliterate;
     switch (id) {
     case id3v2_text_frames::tit2:
-      v1.set_title(string());
+      v1.set_title(text, enc_, DST, false, RSP);
       break;
     case id3v2_text_frames::tpe1:
-      v1.set_artist(string());
+      v1.set_artist(text, enc_, DST, false, RSP);
       break;
     case id3v2_text_frames::talb:
-      v1.set_album(string());
+      v1.set_album(text, enc_, DST, false, RSP);
       break;
     default:
       // do nothing
       break;
     }
-  });
+  };
 
-  for_each(adds_.begin(), adds_.end(), [&](const strings_type::value_type &x) {
-    switch (x.first) {
-    case id3v2_text_frames::tit2:
-      v1.set_title(x.second, enc_);
-      break;
-    case id3v2_text_frames::tpe1:
-      v1.set_artist(x.second, enc_);
-      break;
-    case id3v2_text_frames::talb:
-      v1.set_album(x.second, enc_);
-      break;
-    default:
-      // do nothing
-      break;
-    }
-  });
+  for (auto id: dels_) {
+    set(id, string());
+  }
+  for (const auto &x: adds_) {
+    set(x.first, x.second);
+  }
 
-  return num_deltas != 0;
+  ostringstream was, is;
+  before.write(was);
+  v1.write(is);
+  return was.str() != is.str();
 }
 
 /// Process an ID3v2.2 tag
-- 
2.43.0


From 9efec6664001ce4bbbdbaf006675657af54b5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 059/136] fix: don't rewrite tags the text command leaves as
 they were

---
 src/text.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index 98b466a..aeb3379 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -294,25 +294,41 @@ bool
 set_text::process_tag(scribbu::id3v2_tag *ptag)
 {
   using namespace std;
-  for_each(dels_.begin(), dels_.end(), [ptag, this](scribbu::id3v2_text_frames id) {
+  using namespace scribbu;
+
+  // The text of the frame named `id', if there is one (& it can be read)
+  auto extant = [ptag](id3v2_text_frames id) -> boost::optional<string> {
+    try {
+      return ptag->text(id);
+    } catch (const std::exception&) {
+      return boost::none;
+    }
+  };
+
+  bool upd = false;
+  for_each(dels_.begin(), dels_.end(), [&, ptag, this](scribbu::id3v2_text_frames id) {
     if (verbose()) {
       cout << "Deleting " << id << "...";
     }
+    size_t n = ptag->num_frames();
     ptag->delete_frame(id);
+    upd = upd || n != ptag->num_frames();
     if (verbose()) {
       cout << "done." << endl;
     }
   });
-  for_each(adds_.begin(), adds_.end(), [ptag, this](const strings_type::value_type &x) {
+  for_each(adds_.begin(), adds_.end(), [&, ptag, this](const strings_type::value_type &x) {
     if (verbose()) {
       cout << "Setting " << x.first << " to " << x.second << "...";
     }
+    auto was = extant(x.first);
     ptag->text(x.first, x.second, enc_);
+    upd = upd || was != extant(x.first);
     if (verbose()) {
       cout << "done." << endl;
     }
   });
-  return true;
+  return upd;
 }
 
 namespace {
-- 
2.43.0


From 489fa0c6d52fe8e2d7953dadf405e0d64a91e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 060/136] fix: heed the --tag option to popm

---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..9abc47c 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -851,7 +851,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From 650ee0b561e6d44cf71e4b941f13cf79d95782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 061/136] fix: leave POPM frames alone when asked for the play
 count only

---
 src/popm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 9abc47c..7a005f9 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -373,7 +373,8 @@ private:
         popm_type &G = dynamic_cast<popm_type&>(F);
         string email = G.template email<string>();
         size_t new_pc = G.count();
-        if (!owner_ || email == *owner_) {
+        if (frame_policy::pcnt_only != frame_policy_ &&
+            (!owner_ || email == *owner_)) {
           new_pc = process_popm<traits_type>(G, email);
           ++num_popm;
         }
-- 
2.43.0


From def8588e195253088601e8e15ff3ffddd869a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 062/136] fix: don't rewrite tags whose play counts & ratings
 don't change

---
 src/popm.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 7a005f9..ad6b811 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -347,6 +347,7 @@ private:
     size_t num_pcnt = 0, // # PCNT frames processed so far
            num_popm = 0, // # POPM frames processed so far
            curr_pc  = 0; // maximal play count written so far
+    bool upd = false;    // true if `tag' has been (or would be) changed
     // Walk the tag, processing an PCNT and/or POPM frames we find, and
     // which our configuration directs us to process:
     for (frame_type &F: tag) {
@@ -356,13 +357,12 @@ private:
           traits_type::is_pcnt(F)) {
         // Just ugh.
         pcnt_type &G = dynamic_cast<pcnt_type&>(F);
-        size_t new_pc;
-        if (frame_policy::popm_only == frame_policy_) {
-          new_pc = G.count();
-        } else {
+        size_t old_pc = G.count(), new_pc = old_pc;
+        if (frame_policy::popm_only != frame_policy_) {
           new_pc = process_pcnt<traits_type>(G);
           ++num_pcnt;
         }
+        upd = upd || old_pc != new_pc;
         if (new_pc > curr_pc) curr_pc = new_pc;
       }
 
@@ -372,11 +372,13 @@ private:
         // Just ugh.
         popm_type &G = dynamic_cast<popm_type&>(F);
         string email = G.template email<string>();
-        size_t new_pc = G.count();
+        size_t old_pc = G.count(), new_pc = old_pc;
+        unsigned char rating = G.rating();
         if (frame_policy::pcnt_only != frame_policy_ &&
             (!owner_ || email == *owner_)) {
           new_pc = process_popm<traits_type>(G, email);
           ++num_popm;
+          upd = upd || old_pc != new_pc || (rating_ && *rating_ != rating);
         }
         if (new_pc > curr_pc) curr_pc = new_pc;
       }
@@ -390,8 +392,6 @@ private:
     // If we've found no frames of either type, and our configuration says
     // we should be processing frames of that type, and `create_frame' is
     // true, now's the time to do so.
-    bool upd = (num_popm != 0) || (num_pcnt != 0);
-
     if (create_frame) {
 
       if (frame_policy::popm_only != frame_policy_ && 0 == num_pcnt) {
-- 
2.43.0


From 1a9054c647416cb6213fc641e73d4041a64c6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 063/136] fix: give new tags created by the xtag command a tag
 cloud

---
 src/xtag.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..f3cb8d6 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -222,6 +222,8 @@ private:
    * XTAG frame will be added to the tag or merged with an extant frame
    * according to the program options
    *
+   * \param create [in] if true, an XTAG frame shall be created if there is none
+   *
    * \return true if the tag was modified in any way, false else (NB this value
    * ignores the "dry-run" flag; i.e. if `--dry-run' was given, and the tag
    * *would* have been modified, this method will still return true
@@ -243,7 +245,7 @@ private:
 
   template <typename tag_type>
   bool
-  process_tag(tag_type &tag)
+  process_tag(tag_type &tag, bool create)
   {
     using namespace std;
 
@@ -288,7 +290,7 @@ private:
     } // End iteration over `tag''s frames.
 
     bool upd = num_xtag != 0;
-    if (!num_xtag && create_ && !get_) {
+    if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
           tag_cloud_ << endl;
@@ -394,7 +396,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2(const scribbu::id3v1_tag &v1)
 {
   auto p = copy_id3_v1(v1);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -404,7 +406,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2()
 {
   auto p = std::make_unique<scribbu::id3v2_3_tag>(DEFAULT_PADDING);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -419,21 +421,21 @@ xtag_processor::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.3 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.4 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 namespace {
-- 
2.43.0


From de7208e63b8e62dbad2a7c6f178937f3b40618fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:38 +0000
Subject: [PATCH 064/136] fix: don't rewrite tags whose tag cloud doesn't
 change

---
 src/xtag.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index f3cb8d6..b3eab9e 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -253,6 +253,7 @@ private:
     typedef typename traits_type::frame_type frame_type;
     typedef typename traits_type::xtag_type  xtag_type;
 
+    bool upd = false;
     size_t num_xtag = 0;
     for (frame_type &F: tag) {
 
@@ -271,7 +272,12 @@ private:
         if (!tag_cloud.empty()) {
           cout << tag_cloud << endl;
         }
-      } else if (merge_) {
+        num_xtag++;
+        continue;
+      }
+
+      string was = G.urlencoded();
+      if (merge_) {
         if (dry_run()) {
           cout << "Merging " << tag_cloud_ << " into XTAG (" << email <<
             ")" << endl;
@@ -287,9 +293,9 @@ private:
         }
       }
       num_xtag++;
+      upd = upd || dry_run() || was != G.urlencoded();
     } // End iteration over `tag''s frames.
 
-    bool upd = num_xtag != 0;
     if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
-- 
2.43.0


From 471e930ac7cefb24c85bbb47b80c8632717f309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:21 +0000
Subject: [PATCH 065/136] fix: store text copied from ID3v2 to ID3v1 tags as
 ISO-8859-1

---
 src/command-utilities.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index e4f27a1..fb318a2 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -529,14 +529,19 @@ copy_id3_v2(FII p0, FII p1)
 
   auto p = make_unique<id3v1_tag>(false, false);
 
+  // ID3v1 specifies no encoding, but this one is customary
+  const encoding SRC = encoding::UTF_8;
+  const encoding DST = encoding::ISO_8859_1;
+  const on_no_encoding RSP = on_no_encoding::transliterate;
+
   bool hit;
   string text;
   tie(hit, text) = ::detail::find_frame(id3v2_text_frames::talb, p0, p1);
-  if (hit) p->set_album(text, encoding::UTF_8, encoding::UTF_8);
+  if (hit) p->set_album(text, SRC, DST, false, RSP);
   tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tpe1, p0, p1);
-  if (hit) p->set_artist(text, encoding::UTF_8, encoding::UTF_8);
+  if (hit) p->set_artist(text, SRC, DST, false, RSP);
   tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tit2, p0, p1);
-  if (hit) p->set_title(text, encoding::UTF_8, encoding::UTF_8);
+  if (hit) p->set_title(text, SRC, DST, false, RSP);
 
   array<char, 4> year;
   tie(hit, year) = ::detail::find_year(p0, p1);
-- 
2.43.0


From 8b693e8c807237be0b0f47a4c691299209ce1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:00 +0000
Subject: [PATCH 066/136] fix: heed --v1=255 in the genre command

---
 src/genre.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index 9bf6934..beeba59 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -199,7 +199,7 @@ public:
             v1_tag_scope_policy v1tsp,
             v2_creation_policy v2c,
             v1_creation_policy v1c,
-            unsigned char v1_genre,
+            const boost::optional<unsigned char> &v1_genre,
             bool dry_run,
             bool verbose,
             bool adjust_unsync,
@@ -216,7 +216,7 @@ public:
       genre_ = v1_match;
     } else {
       content_type_ = genre;
-      genre_ = v1_genre == UNDEFINED_GENRE ? v1_match : v1_genre;
+      genre_ = v1_genre ? *v1_genre : v1_match;
     }
   }
   /// winamp-genre, some ID3v2 tags processed
@@ -251,7 +251,7 @@ public:
             v1_tag_scope_policy v1tsp,
             v2_creation_policy v2c,
             v1_creation_policy v1c,
-            unsigned char v1_genre,
+            const boost::optional<unsigned char> &v1_genre,
             bool dry_run,
             bool verbose,
             bool adjust_unsync,
@@ -268,7 +268,7 @@ public:
       genre_ = v1_match;
     } else {
       content_type_ = genre;
-      genre_ = v1_genre == UNDEFINED_GENRE ? v1_match : v1_genre;
+      genre_ = v1_genre ? *v1_genre : v1_match;
     }
   }
 
@@ -690,7 +690,7 @@ namespace {
   void genre(unsigned char winamp_genre,
              const std::string &winamp_text_genre,
              const std::string &free_form_genre,
-             unsigned char v1_genre,
+             const boost::optional<unsigned char> &v1_genre,
              bool v1_only,
              bool v2_only,
              bool create_v2,
@@ -953,7 +953,7 @@ namespace {
                                                    encoding::UTF_8);
       }
 
-      unsigned char v1_genre = UNDEFINED_GENRE;
+      boost::optional<unsigned char> v1_genre = boost::none;
       if (vm.count("v1")) {
         unsigned int scratch = vm["v1"].as<unsigned int>();
         if (256 > scratch) {
-- 
2.43.0


From 11b460b5ac1049164c9b7554a544fe88a52c3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:58 +0000
Subject: [PATCH 067/136] fix: don't look for an ID3v1 tag inside of ID3v2 tags

---
 scribbu/id3v1.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 377c986..7231d5f 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -29,6 +29,8 @@
 #include <string>
 #include <system_error>
 
+#include <scribbu/id3v2.hh>
+
 namespace fs = std::filesystem;
 
 
@@ -491,11 +493,36 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
   id3v1_info I;
   I.type_ = id3_v1_tag_type::none;
 
+  // What's part of an ID3v2 tag isn't (part of) an ID3v1 tag, whatever it looks
+  // like, so find out where any ID3v2 tags end.
+  std::streamoff beyond_v2 = 0;
+  if (std::streampos(-1) != here) {
+    try {
+      is.seekg(0, std::ios_base::beg);
+      id3v2_info J = looking_at_id3v2(is, false);
+      while (J.present_) {
+        is.seekg(J.size_, std::ios_base::cur);
+        J = looking_at_id3v2(is, false);
+      }
+      beyond_v2 = is.tellg();
+    }
+    catch (const std::ios_base::failure &ex) {
+      is.exceptions(std::ios_base::goodbit);
+      is.clear();
+      is.seekg(here, std::ios_base::beg);
+      is.exceptions(exc_mask);
+      throw;
+    }
+  }
+
   try {
 
     is.seekg(0, std::ios_base::end);
     I.start_ = I.end_ = is.tellg();
-    if (355 <= I.start_) {
+    if (I.end_ < beyond_v2) {
+      beyond_v2 = 0;
+    }
+    if (355 <= I.start_ - beyond_v2) {
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
@@ -526,7 +553,8 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
     try {
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] &&
+          128 <= I.end_ - beyond_v2) {
         I.start_ = is.tellg() - (std::streampos) 3;
         I.type_ = id3_v1_tag_type::v_1;
       }
-- 
2.43.0


From a68cb3dfd30becb8b54b6217ed5dfb2e897cf752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:57 +0000
Subject: [PATCH 068/136] fix: let dump carry on when one of its arguments
 doesn't exist

---
 src/dump.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..acc0cef 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -472,7 +472,13 @@ namespace {
                    ref(*p));
         }
         else {
-          (*p)(x, true);
+          try {
+            (*p)(x, true);
+          } catch (const file_not_found &ex) {
+            // Carry-on with the remaining arguments
+            cerr << ex.what() << endl;
+            status = EXIT_FAILURE;
+          }
         }
       }
 
-- 
2.43.0


From f9df6412814f8d602609d48c916ca34a83cee128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 069/136] fix: accept the documented options in tag-based
 templates

---
 scribbu/tbt-lexer.ll  | 13 +++++++------
 scribbu/tbt-parser.yy |  9 +++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..f795c1b 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
@@ -125,13 +125,17 @@ year_abbrev         Y
 <REPLACEMENT>{cap}          { return CAP;         }
 <REPLACEMENT>{output}       { return OUTPUT;      }
 <REPLACEMENT>{compress}     { return COMPRESS_WS; }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
 <REPLACEMENT>{ws}           { return WS;          }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
+
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +144,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +153,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From bc7a540f7bd607f2d8cbf480094384d7b37a1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 070/136] fix: unescape equals signs in tag-based templates

---
 scribbu/tbt-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index f795c1b..cf2ffb0 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -194,6 +194,7 @@ static std::string * unescape_and_copy(const char *text) {
       case ':':
       case '?':
       case '&':
+      case '=':
       case '\\':
         break;
       default:
-- 
2.43.0


From 89104f84c0e57a6f63489970fd17b067bcaec948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 071/136] fix: fall back to ID3v2 when a template prefers ID3v1
 & there's no text there

---
 scribbu/tbt-support.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..9c96e83 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From 75127412fc654bed99b2b5f7812747c42a646a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 072/136] fix: use ID3v1 text in templates when no encoding is
 given

---
 scribbu/tbt-support.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..89d9df9 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -336,7 +336,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
@@ -351,9 +351,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g, encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
-- 
2.43.0


From 1d26d9e03b2005d1252ff77b95eeb757205640fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 073/136] fix: treat runs of whitespace as one in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 89d9df9..e05dd8d 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -234,7 +234,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
-- 
2.43.0


From 6418e86282bfbca6eef6a8382c4f28081a5da34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 074/136] fix: print sizes in hexadecimal & digests as digits
 in templates

---
 scribbu/tbt-support.cc | 5 ++++-
 scribbu/tbt-support.hh | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index e05dd8d..b0ed1e5 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -23,6 +23,7 @@
 
 #include <scribbu/tbt-support.hh>
 
+#include <iomanip>
 #include <numeric>
 #include <boost/algorithm/string.hpp>
 
@@ -656,6 +657,7 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
+    buf << n;
   }
 
   return buf.str();
@@ -674,6 +676,7 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
   ti.get_md5(back_inserter(D));
 
   stringstream buf;
+  buf << setfill('0');
   if (base::hex == b_) {
     buf << hex;
     if (hex_case::upper == c_) {
@@ -681,7 +684,7 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
     }
   }
   for (auto x: D) {
-    buf << x;
+    buf << setw(base::hex == b_ ? 2 : 3) << (unsigned int) x;
   }
   return buf.str();
 
diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 9c96e83..4f988ea 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -582,7 +582,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      size(forward_input_iterator p0, forward_input_iterator p1)
+      size(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
@@ -615,7 +616,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      md5(forward_input_iterator p0, forward_input_iterator p1)
+      md5(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
-- 
2.43.0


From fce264ad6bcea0d0e37530bb3ce6188e9553245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 075/136] fix: take the last two digits for two-digit years in
 templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index b0ed1e5..dca5d68 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -598,7 +598,7 @@ scribbu::tbt_support::year::evaluate(const file_info  & /*fi    */,
                                  v1_encoding::automatic);
 
   if (year_format::two_digits == fmt_) {
-    return year.substr(2);
+    return year.size() < 2 ? year : year.substr(year.size() - 2);
   }
   else {
     return year;
-- 
2.43.0


From e9b671587ff068d4d0315e4249d624b114f5eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 076/136] fix: cope with empty text in templates

---
 scribbu/tbt-support.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index dca5d68..c98dee3 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -201,6 +201,10 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace std;
   using namespace boost;
 
+  if (text.empty()) {
+    return text;
+  }
+
   if (capitalization::capitalize == cap) {
     string result;
     result += toupper(text[0], locale(""));
@@ -570,6 +574,9 @@ scribbu::tbt_support::encoded_by::evaluate(const file_info  & /*fi    */,
   }
 
   string text = pid3v2->encoded_by();
+  if (text.empty()) {
+    throw missing_source_text(all_source_preference::id3v2_only);
+  }
   text = do_the_xform(text, the_);
   text = do_cap_xform(text, cap_);
   return encode(text, out_);
-- 
2.43.0


From 06b9af8626f23241cbd70586f320e41f3bfb4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 077/136] fix: reset the template lexer after each template

---
 scribbu/id3v2-utils.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 64d2239..9cbecce 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -104,7 +104,16 @@ scribbu::template_processor::template_processor(const std::string &templat)
   // tbtset_debug(1);
 
   std::vector<scribbu::tbt_support::term*> *pterms;
-  int status = tbtparse(&pterms);
+  int status;
+  try {
+    status = tbtparse(&pterms);
+  } catch (...) {
+    tbtlex_destroy();
+    throw;
+  }
+
+  // Don't let where we've stopped affect the next template
+  tbtlex_destroy();
 
   if (0 != status) {
     throw scribbu::tbt_support::invalid_template();
-- 
2.43.0


From 571f98955613724e9c00c3ac1e1abb2380cc0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:03 +0000
Subject: [PATCH 078/136] fix: don't take a second ID3v2 tag for audio in
 templates

---
 scribbu/id3v2-utils.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 9cbecce..e1ca2ce 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -137,11 +137,14 @@ std::string scribbu::template_processor::operator()(const std::filesystem::path
   std::tie(is, info) = scribbu::open_file(pth);
 
   // and use the open istream to read the...
-  std::unique_ptr<scribbu::id3v2_tag> pid3v2 = scribbu::maybe_read_id3v2(is); // ID3v2 tags...
-  scribbu::track_data ti(is);                                                 // the track itself...
-  std::unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(is);    // and the ID3v1 tag.
+  std::vector<std::unique_ptr<scribbu::id3v2_tag>> id3v2;
+  scribbu::read_all_id3v2(is, std::back_inserter(id3v2));                  // ID3v2 tags...
+  scribbu::track_data ti(is);                                              // the track itself...
+  std::unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(is); // and the ID3v1 tag.
+
+  const scribbu::id3v2_tag *pid3v2 = id3v2.empty() ? 0 : id3v2.front().get();
 
   // With this information, walk our terms, evaluating each & concatenating:
   return std::accumulate(terms_.begin(), terms_.end(), std::string(),
-                         process_and_concatenate(info, pid3v2.get(), ti, pid3v1.get()));
+                         process_and_concatenate(info, pid3v2, ti, pid3v1.get()));
 }
-- 
2.43.0


From 8e2b1ab1de77c7fb1af26f6bc6385a4cd6c66b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:11 +0000
Subject: [PATCH 079/136] fix: don't rename the files just created while
 renaming a directory's files

---
 src/rename.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rename.cc b/src/rename.cc
index 241701c..b1dcbef 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -140,6 +140,9 @@ namespace {
   {
     const boost::regex REGEX(".*\\.mp3");
 
+    // Find all the files before processing any of them, lest we find the ones
+    // we create
+    std::vector<fs::path> files;
     std::for_each(fs::recursive_directory_iterator(pth),
                   fs::recursive_directory_iterator(),
                   [&](const fs::directory_entry &p) {
@@ -147,10 +150,14 @@ namespace {
                     fs::path pth = p.path();
                     // Only process files ending in .mp3
                     if (fs::is_regular_file(pth) && boost::regex_match(pth.string(), REGEX)) {
-                      process_file(pth);
+                      files.push_back(pth);
                     }
                   });
 
+    for (const auto &p: files) {
+      process_file(p);
+    }
+
   }
 
 }
-- 
2.43.0


From b3f528f58012460aec0fd7e307877fdc51418537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:11 +0000
Subject: [PATCH 080/136] fix: carry on renaming when one file can't be renamed

---
 src/rename.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/rename.cc b/src/rename.cc
index b1dcbef..d8892cc 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -69,6 +69,9 @@ namespace {
   public:
 
     void operator()(const fs::path &pth) const;
+    /// Retrieve the number of files that couldn't be renamed
+    std::size_t num_failed() const
+    { return num_failed_; }
 
   private:
 
@@ -81,6 +84,7 @@ namespace {
     bool                        dry_run_;
     bool                        rename_;
     bool                        verbose_;
+    mutable std::size_t         num_failed_;
 
   };
 
@@ -93,13 +97,16 @@ namespace {
     P_      (scribbu::template_processor(templat)),
     dry_run_(dry_run                             ),
     rename_ (rename                              ),
-    verbose_(verbose                             )
+    verbose_(verbose                             ),
+    num_failed_(0)
   { }
 
   void renamer::operator()(const fs::path &pth) const
   {
     if (! fs::exists(pth)) {
-      throw std::invalid_argument(pth.string() + " does not appear to exist.");
+      std::cerr << pth.string() << " does not appear to exist." << std::endl;
+      ++num_failed_;
+      return;
     }
 
     if (fs::is_directory(pth)) {
@@ -130,8 +137,10 @@ namespace {
         }
       }
 
-    } catch (const scribbu::tbt_support::error &ex) {
+    } catch (const std::exception &ex) {
+      // Carry-on with the remaining files
       std::cerr << pth << ": " << ex.what() << std::endl;
+      ++num_failed_;
     }
 
   }
@@ -295,6 +304,10 @@ namespace {
 
       std::for_each(arguments.begin(), arguments.end(), std::ref(*pr));
 
+      if (pr->num_failed()) {
+        status = EXIT_FAILURE;
+      }
+
     } catch (const po::error &ex) {
 
       cerr << ex.what() << endl;
-- 
2.43.0


From 9ede8bc9c972c2b3c8c79b92fc909d084ccbd164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:48 +0000
Subject: [PATCH 081/136] fix: report failures to write the pieces when
 splitting a file

---
 src/split.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/split.cc b/src/split.cc
index cda9aa9..9ccd01a 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -62,6 +62,8 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     std::unique_ptr<char[]> p(new char[cb]);
     in.read(p.get(), cb);
     ofs.write(p.get(), cb);
+    // Close explicitly so as to learn of write failures
+    ofs.close();
   }
 
   /**
-- 
2.43.0


From 3bf8031e979e995b0d5399687dbc9bd79160fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:48 +0000
Subject: [PATCH 082/136] fix: don't overwrite the file being split

---
 src/split.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/split.cc b/src/split.cc
index 9ccd01a..80654c4 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -50,9 +50,14 @@ For detailed help, say `scribbu split --help'. To see the manual, say
 )");
 
   void xfer_bytes(std::istream   &in,
+                  const fs::path &src,
                   const fs::path &pth,
                   std::size_t     cb)
   {
+    if (fs::exists(pth) && fs::equivalent(src, pth)) {
+      throw std::runtime_error("refusing to overwrite " + src.string());
+    }
+
     const std::ios::iostate EXC_MASK = std::ios::eofbit | std::ios::failbit |
       std::ios::badbit;
 
@@ -106,7 +111,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       stm << "id3v2" << count << suffix;
       ++count;
       fs::path pth(stm.str());
-      xfer_bytes(ifs, pth, 10 + id3v2.size_);
+      xfer_bytes(ifs, in, pth, 10 + id3v2.size_);
       // Another?
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
@@ -115,11 +120,11 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     scribbu::id3v1_info I = scribbu::ends_in_id3v1(ifs);
     std::size_t cb = I.start_ - ifs.tellg();
     fs::path pth("track" + suffix);
-    xfer_bytes(ifs, pth, cb);
+    xfer_bytes(ifs, in, pth, cb);
 
     if (I.start_ != I.end_) {
       fs::path pth("id3v1" + suffix);
-      xfer_bytes(ifs, pth, I.end_ - I.start_);
+      xfer_bytes(ifs, in, pth, I.end_ - I.start_);
     }
 
   } // End free function split_file.
-- 
2.43.0


From 9cd610a2c493f85b635205334b34cde4aba9e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 083/136] fix: quote fields containing quotes in CSV output

---
 scribbu/csv-pprinter.cc | 35 ++++++++++++++++++++++++-----------
 scribbu/csv-pprinter.hh |  8 ++++++--
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..78eb2d1 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -57,6 +57,12 @@ scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/
     return s;
   }
 
+  return quote(s, esc);
+}
+
+/*static*/ std::string
+scribbu::csv_pprinter::quote(const std::string &s, char esc /*= '"'*/)
+{
   std::string r(1, esc);
   for (std::size_t i = 0, n = s.length(); i < n; ) {
     std::size_t dquote = s.find(esc, i);
@@ -74,6 +80,13 @@ scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/
 
 }
 
+std::string
+scribbu::csv_pprinter::escape(const std::string &s)
+{
+  const char NEEDS_ESC[] = { sep_, ESC, '\r', '\n', 0 };
+  return std::string::npos == s.find_first_of(NEEDS_ESC) ? s : quote(s, ESC);
+}
+
 scribbu::csv_pprinter::csv_pprinter(
   std::size_t                      ncomm /*= DEFAULT_NCOMMENTS*/,
   const boost::optional<encoding> &v1enc /*= DEFAULT_V1ENC    */,
@@ -132,7 +145,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -184,7 +197,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -236,7 +249,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -274,11 +287,11 @@ scribbu::csv_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    escape(tag.artist<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.title<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.album<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.year<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.comment<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
+    escape(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -300,7 +313,7 @@ scribbu::csv_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -424,7 +437,7 @@ scribbu::csv_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -587,7 +600,7 @@ scribbu::csv_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/csv-pprinter.hh b/scribbu/csv-pprinter.hh
index b96eb55..248625b 100644
--- a/scribbu/csv-pprinter.hh
+++ b/scribbu/csv-pprinter.hh
@@ -145,6 +145,10 @@ namespace scribbu {
 
     static std::string escape(const std::string &s, char sep, char esc = ESC);
 
+    /// Enclose \a s in \a esc, with all occurences of \a esc in \a s repeated
+    /// twice
+    static std::string quote(const std::string &s, char esc = ESC);
+
     class bad_separator: public error
     {
     public:
@@ -239,8 +243,8 @@ namespace scribbu {
     }
 
   private:
-    std::string escape(const std::string &s)
-    { return escape(s, sep_, ESC); }
+    /// Escape a field containing the separator, a line break, or a quote
+    std::string escape(const std::string &s);
 
   private:
     std::size_t ncomm_;
-- 
2.43.0


From ba7e061fca92a3fde63d6df26ad5eacdde52953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 084/136] fix: quote file names in CSV reports as CSV does

---
 src/report.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index e560b98..016aa4e 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -175,12 +175,12 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
   const double ONE_MEG = 1048576;
 
   if (!no_dir_) {
-    ofs_ << fi.parent() << COMMA;
+    ofs_ << csv_pprinter::quote(fi.parent().string()) << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  ofs_ << csv_pprinter::quote(fi.filename().string()) << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
     ofs_ << *pid3v2;
-- 
2.43.0


From c838084ec8f0a5c9750fb7715c45b3a8be4a4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 085/136] fix: don't print an extra column when no comments are
 asked for

---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 78eb2d1..61c81e2 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -140,16 +140,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -192,16 +190,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -244,16 +240,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..ff73711 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From b6b9e4823e59d9145018c87e8b049507bffa3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 086/136] fix: print play & comment counts in decimal in
 reports

---
 scribbu/csv-pprinter.cc | 6 +++---
 scribbu/tdf-pprinter.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 61c81e2..a43630d 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -117,7 +117,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -167,7 +167,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -217,7 +217,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index ff73711..c2d1328 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -59,7 +59,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -109,7 +109,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -159,7 +159,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
-- 
2.43.0


From 0a4475476bf8eef337d22f99427a54be481dcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 087/136] fix: don't let tabs & line breaks in text break
 tab-delimited reports

---
 scribbu/tdf-pprinter.cc | 34 +++++++++++++++++++++++-----------
 scribbu/tdf-pprinter.hh |  8 ++++++++
 src/report.cc           |  6 ++++--
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index c2d1328..12beb59 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -45,6 +45,18 @@ scribbu::tdf_pprinter::tdf_pprinter(
   ncomm_(ncomm), v1enc_(v1enc), v2enc_(v2enc), sep_(ascii ? 0x1f : 0x09)
 { }
 
+/*static*/ std::string
+scribbu::tdf_pprinter::field(const std::string &s, char sep)
+{
+  std::string r(s);
+  for (auto &c: r) {
+    if (sep == c || '\n' == c || '\r' == c) {
+      c = ' ';
+    }
+  }
+  return r;
+}
+
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
                                        std::ostream &os)
@@ -88,7 +100,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -138,7 +150,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -188,7 +200,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -223,11 +235,11 @@ scribbu::tdf_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    tag.artist<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.title<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.album<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.year<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.comment<string>(v1enc_, dst, rsp) << sep_ <<
+    field(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -249,7 +261,7 @@ scribbu::tdf_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -372,7 +384,7 @@ scribbu::tdf_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -537,7 +549,7 @@ scribbu::tdf_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/tdf-pprinter.hh b/scribbu/tdf-pprinter.hh
index 69945ee..461dc54 100644
--- a/scribbu/tdf-pprinter.hh
+++ b/scribbu/tdf-pprinter.hh
@@ -82,6 +82,10 @@ namespace scribbu {
     static const boost::optional<encoding> DEFAULT_V2ENC;
     static const bool DEFAULT_USE_ASCII = false;
 
+    /// Replace any separators & line breaks in \a s, which fields may not
+    /// contain, with blanks
+    static std::string field(const std::string &s, char sep);
+
   public:
     tdf_pprinter(std::size_t                      ncomm = DEFAULT_NCOMMENTS,
                  const boost::optional<encoding> &v1enc = DEFAULT_V1ENC,
@@ -162,6 +166,10 @@ namespace scribbu {
       return new tdf_pprinter(*this);
     }
 
+  private:
+    std::string field(const std::string &s) const
+    { return field(s, sep_); }
+
   private:
     std::size_t ncomm_;
     boost::optional<encoding> v1enc_;
diff --git a/src/report.cc b/src/report.cc
index 016aa4e..7dab4c1 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -301,12 +301,14 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
   const double ONE_MEG = 1048576;
 
   if (!no_dir_) {
-    ofs_ << fi.parent() << sep_;
+    ofs_ << '"' << tdf_pprinter::field(fi.parent().string(), sep_) << '"' <<
+      sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  ofs_ << '"' << tdf_pprinter::field(fi.filename().string(), sep_) << '"' <<
+    sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
     ofs_ << *pid3v2;
-- 
2.43.0


From 623a72b4223a729c5419b01a14b1aeb31d0a4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 088/136] fix: don't leave incomplete rows in reports

---
 src/report.cc | 52 ++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 7dab4c1..4f782f8 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -156,10 +156,6 @@ csv_reporter::csv_reporter(const fs::path   &output,
           "ID3v1 Year"         << COMMA <<
           "ID3v1 Comment"      << COMMA <<
           "ID3v1 Genrre"       << endl;
-
-  // Imbue our output stream with a manipulator that will cause all subsequently
-  // inserted tags &c to be printed in CSV format.
-  ofs_ << print_as_csv(ncomm_, v1enc_);
 }
 
 /*virtual*/
@@ -174,33 +170,38 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Build the row separately, lest an error leave us with a part of it in the
+  // report
+  stringstream row;
+  row << print_as_csv(ncomm_, v1enc_);
+
   if (!no_dir_) {
-    ofs_ << csv_pprinter::quote(fi.parent().string()) << COMMA;
+    row << csv_pprinter::quote(fi.parent().string()) << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << csv_pprinter::quote(fi.filename().string()) << COMMA << setprecision(3) << fixed << mb << COMMA;
+  row << csv_pprinter::quote(fi.filename().string()) << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ofs_ << ",,,,,,,,,,,,,,";
-    ostream_iterator<char> oi(ofs_);
+    row << ",,,,,,,,,,,,,,";
+    ostream_iterator<char> oi(row);
     fill_n(oi, ncomm_, ',');
   }
 
-  ofs_ << "," << info << ",";
+  row << "," << info << ",";
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ofs_ << ",,,,,,,";
+    row << ",,,,,,,";
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -282,10 +283,6 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
           "ID3v1 Year"         << sep_ <<
           "ID3v1 Comment"      << sep_ <<
           "ID3v1 Genre"        << endl;
-
-  // Imbue our output stream with a manipulator that will cause all subsequently
-  // inserted tags &c to be printed in CSV format.
-  ofs_ << print_as_tdf(ncomm_, v1enc_, boost::none, ascii);
 }
 
 /*virtual*/
@@ -300,35 +297,40 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Build the row separately, lest an error leave us with a part of it in the
+  // report
+  stringstream row;
+  row << print_as_tdf(ncomm_, v1enc_, boost::none, 0x1f == sep_);
+
   if (!no_dir_) {
-    ofs_ << '"' << tdf_pprinter::field(fi.parent().string(), sep_) << '"' <<
+    row << '"' << tdf_pprinter::field(fi.parent().string(), sep_) << '"' <<
       sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << '"' << tdf_pprinter::field(fi.filename().string(), sep_) << '"' <<
+  row << '"' << tdf_pprinter::field(fi.filename().string(), sep_) << '"' <<
     sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 14 + ncomm_, sep_);
   }
 
-  ofs_ << sep_ << info << sep_;
+  row << sep_ << info << sep_;
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 7, sep_);
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 5041ce16a21dbdc2e3d0a8c984442d119a1e28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 089/136] fix: carry on reporting when one of the arguments
 doesn't exist

---
 src/report.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 4f782f8..ad2c586 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -340,9 +340,8 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 class reporting_strategy {
 
 public:
-  /// return the # of files successfully processed & the # of failures; "failure"
-  /// refers to the failure to process an existing file; if a given path just
-  /// doesn't exist, we throw
+  /// return the # of files successfully processed & the # of failures (which
+  /// includes paths that don't exist)
   std::pair<std::size_t, std::size_t> operator()(const fs::path &pth);
   virtual ~reporting_strategy()
   { }
@@ -365,12 +364,13 @@ reporting_strategy::operator()(const fs::path &pth) {
 
   using namespace std;
 
+  size_t num_succeeded = 0, num_failed = 0;
+
   if (! fs::exists(pth)) {
-    throw invalid_argument(pth.string() + " does not appear to exist.");
+    cerr << pth.string() << " does not appear to exist." << endl;
+    return make_pair(0, 1);
   }
 
-  size_t num_succeeded = 0, num_failed = 0;
-
   if (fs::is_directory(pth)) {
     size_t s, f;
     tie(s, f) = process_directory(pth);
-- 
2.43.0


From 0da00cc264166c09c74d4524ebecc12a6e641a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:47 +0000
Subject: [PATCH 090/136] fix: notice failures to write reports

---
 src/report.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/report.cc b/src/report.cc
index ad2c586..fb6a04a 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -115,6 +115,9 @@ csv_reporter::csv_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  // We want to know if we can't write the report
+  ofs_.exceptions(ios_base::badbit|ios_base::failbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
@@ -242,6 +245,9 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  // We want to know if we can't write the report
+  ofs_.exceptions(ios_base::badbit|ios_base::failbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 11aee502836ded1d415399dd8b184f5305b033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 091/136] fix: read the number of table entries in VBRI headers
 correctly

---
 scribbu/mp3.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..e817a46 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -99,9 +99,8 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&nl, 4);
   num_frames_ = ntohl(nl);
 
-  uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  is.read((char*)&ns, 2);
+  std::size_t num_entries = ntohs(ns);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
@@ -112,8 +111,11 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   frames_per_toc_entry_ = ntohs(ns);
 
-  toc_.resize(num_entries * toc_entry_size_);
-  is.read((char*)toc_.data(), num_entries * toc_entry_size_);
+  // Entries are at most four bytes in size; don't trust anything else
+  if (is && toc_entry_size_ <= 4) {
+    toc_.resize(num_entries * toc_entry_size_);
+    is.read((char*)toc_.data(), num_entries * toc_entry_size_);
+  }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b3f2ebd422f1f50056e1f983417d3d105f43b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 092/136] fix: don't look for LAME tags beyond the end of the
 buffer

---
 scribbu/mp3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index e817a46..2aa7cc1 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -72,7 +72,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 }
 
-- 
2.43.0


From 03057334d8ff37156630b3d51ec031dcb3fe75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 093/136] fix: don't miss frames beginning in the first four
 bytes

---
 scribbu/mp3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 2aa7cc1..0a9c536 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -601,6 +601,8 @@ scribbu::get_mp3_duration(std::istream &is)
   std::uint8_t hdr[4];
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
+    // The first frame may begin within these four bytes
+    is.seekg(here, std::ios_base::beg);
     find_sync(is);
     is.read((char*)hdr, 4);
   }
-- 
2.43.0


From 6701d3a3c824b7ada615bc721f46c6c54bb144a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 094/136] fix: sum the durations of all frames, not multiples
 of the first

---
 scribbu/mp3.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 0a9c536..89a54f2 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -23,6 +23,8 @@
 
 #include <scribbu/mp3.hh>
 
+#include <map>
+
 #include <arpa/inet.h>
 
 namespace {
@@ -612,9 +614,7 @@ scribbu::get_mp3_duration(std::istream &is)
     return 0.0;
   }
 
-  std::size_t num, den;
   mp3_audio_frame f(hdr, is, true);
-  std::tie(num, den) = f.duration();
 
   double dur;
 
@@ -623,22 +623,31 @@ scribbu::get_mp3_duration(std::istream &is)
     std::size_t num_frames, num_bytes;
     std::tie(num_frames, num_bytes) = *vbri;
 
+    std::size_t num, den;
+    std::tie(num, den) = f.duration();
+
     dur = double(num) * double(num_frames) / double(den);
     is.seekg(num_bytes - f.size(), std::ios_base::cur);
   } else {
-    size_t num_frames = 1; // one frame so far
+    // Count the frames, by duration
+    std::map<std::pair<std::size_t, std::size_t>, std::size_t> frames;
+    ++frames[f.duration()]; // one frame so far
 
-    for ( ; ; ++num_frames) {
+    for ( ; ; ) {
       is.read((char*)hdr, 4);
       if (!is || !is_sync(hdr)) {
         is.clear();
         break;
       }
-      // construct a "throwaway" frame just to skip the get ptr past a legit MP3
-      // frame
-      mp3_audio_frame h_(hdr, is);
+      // constructing the frame skips the get ptr past it
+      mp3_audio_frame h(hdr, is);
+      ++frames[h.duration()];
+    }
+
+    dur = 0.0;
+    for (const auto &x: frames) {
+      dur += double(x.first.first) * double(x.second) / double(x.first.second);
     }
-    dur = double(num) * double(num_frames) / double(den);
   }
 
   is.exceptions(exc_mask);
-- 
2.43.0


From de720188ac54a629bebf311e27c16723a62b2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 095/136] fix: use the number of frames in Xing headers without
 a size

---
 scribbu/mp3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 89a54f2..5770894 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -544,8 +544,9 @@ scribbu::mp3_audio_frame::vbri() const
       xing_mp3_tag tag = std::get<xing_t>(*vbri_).first;
       auto a = tag.num_frames();
       auto b = tag.file_size_bytes();
-      if (a && b) {
-        return std::make_pair(*a, *b);
+      if (a) {
+        // The size is of secondary interest
+        return std::make_pair(*a, b ? *b : size_);
       } else {
         return {};
       }
-- 
2.43.0


From 1ffe90872a56b6122c949e4ae76dee28065627d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 096/136] fix: leave streams usable after looking for MP3
 frames

---
 scribbu/mp3.cc | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 5770894..c9b75fe 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -76,6 +76,30 @@ namespace {
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
       (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
+
+  /// Set a stream's exception mask, and restore it on destruction, in case the
+  /// caller is counting on it
+  class exception_mask_guard
+  {
+  public:
+    exception_mask_guard(std::istream &is, std::ios_base::iostate mask):
+      is_(is), mask_(is.exceptions())
+    { is_.exceptions(mask); }
+    ~exception_mask_guard()
+    {
+      try {
+        is_.exceptions(mask_);
+      } catch (const std::ios_base::failure&) {
+        // The mask has been set; the state is for the caller to examine
+      }
+    }
+    exception_mask_guard(const exception_mask_guard&) = delete;
+    exception_mask_guard& operator=(const exception_mask_guard&) = delete;
+
+  private:
+    std::istream &is_;
+    std::ios_base::iostate mask_;
+  };
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -518,6 +542,8 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
     }
   }
 
+  // We may have tried to read beyond the end of the stream
+  is.clear();
   is.seekg(here, std::ios_base::beg);
 }
 
@@ -567,14 +593,11 @@ scribbu::find_sync(std::istream &is)
 
   const std::ios_base::iostate EXC_MASK = std::ios_base::badbit;
 
-  // Copy off the stream's exception mask, in case the caller is
-  // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
-  // and set it to a value convenient for our use.
-  is.exceptions(EXC_MASK);
+  // Set the stream's exception mask to a value convenient for our use
+  exception_mask_guard guard(is, EXC_MASK);
 
   std::istream::pos_type here = is.tellg();
-  std::uint8_t buf[2];
+  std::uint8_t buf[2] = { 0, 0 };
   is.read((char*)buf, 2);
   bool hit = is_sync(buf);
   while (is && !hit) {
@@ -593,11 +616,8 @@ scribbu::get_mp3_duration(std::istream &is)
 {
   const std::ios_base::iostate EXC_MASK = std::ios_base::badbit;
 
-  // Copy off the stream's exception mask, in case the caller is
-  // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
-  // and set it to a value convenient for our use.
-  is.exceptions(EXC_MASK);
+  // Set the stream's exception mask to a value convenient for our use
+  exception_mask_guard guard(is, EXC_MASK);
 
   std::istream::pos_type here = is.tellg();
 
@@ -651,7 +671,5 @@ scribbu::get_mp3_duration(std::istream &is)
     }
   }
 
-  is.exceptions(exc_mask);
-
   return dur;
 }
-- 
2.43.0


From 37583a4abd3a43cbfef2b254531c7d68aceee289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 097/136] fix: honour m3u --source-encoding

---
 src/m3u.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..270c4b4 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -338,7 +338,7 @@ namespace {
        "'transliterate', or 'ignore' (defaults to 'fail')")
       ("output,o", po::value<fs::path>(), "specify that output be written to "
        "file instead of stdout")
-      ("source-encoding,s", po::value<encoding>()->default_value(encoding::CP1252),
+      ("source-encoding,s", po::value<encoding>(),
        "specify the text encoding in which textual ID3 tags like artist & title "
        "are written")
       ("use-utf8,8", po::bool_switch(), "write the output in utf-8, not the "
@@ -386,8 +386,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (vm.count("source-encoding")) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From 881f06bc051cc1d366cebb0cff28f351ba34aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 098/136] fix: list tracks of unknown duration in playlists

---
 src/m3u.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 270c4b4..03a55c8 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -25,6 +25,7 @@
 
 #include "command-utilities.hh"
 
+#include <cmath>
 #include <iostream>
 
 #include <boost/optional.hpp>
@@ -197,7 +198,15 @@ namespace {
     ifstream ifs = open_ifstream(pth.native(), ios_base::binary);
     vector<unique_ptr<id3v2_tag>> id3v2;
     read_all_id3v2(ifs, back_inserter(id3v2));
-    double secs = get_mp3_duration(ifs);
+    // -1 is conventionally used when the duration is unknown
+    double secs = -1.0;
+    try {
+      secs = floor(get_mp3_duration(ifs) + 0.5);
+    } catch (const mp3_audio_frame::error &ex) {
+      if (verbose()) {
+        cerr << pth << ": " << ex.what() << endl;
+      }
+    }
     unique_ptr<id3v1_tag> pid3v1 = process_id3v1(ifs);
 
     string display;
@@ -208,7 +217,7 @@ namespace {
       display = pth.stem().native();
     }
 
-    os_ << "#EXTINF:" << (int) (secs + 0.5) << "," << display << "\n" <<
+    os_ << "#EXTINF:" << (long long) secs << "," << display << "\n" <<
       pth.native() << endl;
   }
 
-- 
2.43.0


From c0004bd36b326c95f9e3a83bfac7d5589db64f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 099/136] fix: write each playlist entry's title on a single
 line

---
 src/m3u.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 03a55c8..7c4771a 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -216,6 +216,9 @@ namespace {
     } else {
       display = pth.stem().native();
     }
+    // An entry is one line, whatever the tags contain
+    replace_if(display.begin(), display.end(),
+               [](char c) { return '\n' == c || '\r' == c; }, ' ');
 
     os_ << "#EXTINF:" << (long long) secs << "," << display << "\n" <<
       pth.native() << endl;
-- 
2.43.0


From 79cb1f18d08de2be26bee05b319fe4eb5a84bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 100/136] fix: don't repeat the heading when appending to
 playlists

---
 src/m3u.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 7c4771a..16d434f 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -282,8 +282,14 @@ namespace {
       throw scribbu::file_open_error(out.native(), errno);
     }
 
-    ofs_ << "#EXTM3U" << endl;
-
+    // Only new playlists get a heading; when appending to an existing one, be
+    // sure to begin on a new line.
+    ifstream ifs(out, ios_base::binary);
+    if (!append || !ifs.seekg(-1, ios_base::end)) {
+      ofs_ << "#EXTM3U" << endl;
+    } else if ('\n' != ifs.get()) {
+      ofs_ << endl;
+    }
   }
 
   /**
-- 
2.43.0


From b0de96c19e21e57da11aa32bebc4897a83b22dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 101/136] fix: notice failures to write playlists

---
 src/m3u.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 16d434f..15d7f84 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -222,6 +222,9 @@ namespace {
 
     os_ << "#EXTINF:" << (long long) secs << "," << display << "\n" <<
       pth.native() << endl;
+    if (!os_) {
+      throw runtime_error("failed to write the playlist entry");
+    }
   }
 
   //////////////////////////////////////////////////////////////////////////////
@@ -290,6 +293,9 @@ namespace {
     } else if ('\n' != ifs.get()) {
       ofs_ << endl;
     }
+    if (!ofs_) {
+      throw runtime_error("failed to write the playlist");
+    }
   }
 
   /**
-- 
2.43.0


From b4ce0c45090e505b0a2d80e90a04f217e8e6f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 102/136] fix: require arguments to m3u

---
 src/m3u.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 15d7f84..e411cdb 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -372,7 +372,7 @@ namespace {
     po::options_description xopts("hidden options");
     xopts.add_options()
       // Work around to https://svn.boost.org/trac/boost/ticket/8535
-      ("arguments", po::value<std::vector<string>>(), "one or more "
+      ("arguments", po::value<std::vector<string>>()->required(), "one or more "
        "files or directories to be examined; if a directory is given, it will "
        "be searched recursively");
 
-- 
2.43.0


From bb766c89777f3e9175f2c77296b49a6db67be9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:58 +0000
Subject: [PATCH 103/136] fix: look for the title in all tags when listing
 tracks

---
 src/m3u.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index e411cdb..6d848c3 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -156,13 +156,11 @@ namespace {
     using namespace scribbu;
 
     try {
-      forward_input_iterator p =
-        find_if(ptagv2_0, ptagv2_1,
-                [](const unique_ptr<id3v2_tag>& ptag) {
-                  return ptag->has_artist() && ptag->has_title();
-                });
+      for (forward_input_iterator p = ptagv2_0; p != ptagv2_1; ++p) {
 
-      if (p != ptagv2_1) {
+        if (!(*p)->has_artist() || !(*p)->has_title()) {
+          continue;
+        }
 
         string a = (*p)->artist(dst_enc_, on_enc_fail_, src_enc_);;
         string t = (*p)->title(dst_enc_, on_enc_fail_, src_enc_);
-- 
2.43.0


From f71e217d7eb956674f519a6daa041669d5f0bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:17 +0000
Subject: [PATCH 104/136] fix: don't take audio for an ID3v1 tag when
 fingerprinting tracks

---
 scribbu/scribbu.cc | 70 ++--------------------------------------------
 1 file changed, 3 insertions(+), 67 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 7ee6c9a..728a4a1 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -143,73 +143,9 @@ scribbu::openssl_error::what() const noexcept
 std::tuple<std::streampos, std::streampos>
 scribbu::find_id3v1_tag(std::istream &is)
 {
-  const std::ios_base::iostate EXC_MASK = std::ios_base::eofbit|
-    std::ios_base::failbit|std::ios_base::badbit;
-
-  // Copy off the stream's exception mask, in case the caller is
-  // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
-  // and set it to a value convenient for our use.
-  is.exceptions(EXC_MASK);
-
-  // The ID3v1 tag is 128 bytes long & begins with the sequence "TAG",
-  // and the extended tag is 227 bytes & begins with the sequence
-  // "TAG+". So, if there's an ID3v1 tag present, the sequence "TAG"
-  // will be present at len - 128 or len - 355.
-  char buf[4];
-
-  scribbu::id3_v1_tag_type tag_type = id3_v1_tag_type::none;
-
-  std::streampos here = is.tellg(), tag;
-
-  try {
-    is.seekg(-355, std::ios_base::end);
-    is.read(buf, 4);
-    if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-      // ID3v1 extended tag at `tag'; stream ptr at `tag' + 4.
-      tag = is.tellg() - (std::streampos) 4;
-      tag_type = id3_v1_tag_type::v_1_extended;
-    }
-  }
-  catch (const std::ios_base::failure &ex) {
-    // OK-- something went wrong. Clear the flag, set `tag' to EoS.
-    // stream ptr at the same place.
-    is.exceptions(std::ios_base::goodbit);
-    is.clear();
-    is.seekg(0, std::ios_base::end);
-    tag = is.tellg();
-    is.exceptions(exc_mask);
-  }
-
-  if (id3_v1_tag_type::none == tag_type) {
-
-    try {
-      is.seekg(-128, std::ios_base::end);
-      is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
-        // ID3v1 tag at `tag'; stream ptr at `tag' + 3
-        tag = is.tellg() - (std::streampos) 3;
-        tag_type = id3_v1_tag_type::v_1;
-      } else {
-        // No ID3v1 tag-- set `tag' to the EoS; stream ptr at same place.
-        is.seekg(0, std::ios_base::end);
-        tag = is.tellg();
-      }
-    }
-    catch (const std::ios_base::failure &ex) {
-      // OK-- something went wrong. Clear the flag, set `tag' to EoS.
-      // stream ptr at the same place.
-      is.exceptions(std::ios_base::goodbit);
-      is.clear();
-      is.seekg(0, std::ios_base::end);
-      tag = is.tellg();
-    }
-
-  }
-
-  is.exceptions(exc_mask);
-
-  return std::make_tuple(here, tag);
+  // Leaves the get pointer where it was
+  id3v1_info I = ends_in_id3v1(is);
+  return std::make_tuple(is.tellg(), I.start_);
 }
 
 std::array<unsigned char, scribbu::MD5_DIGEST_SIZE>
-- 
2.43.0


From d2a71c21392b2b64a05ef43eb8076a1fabe3f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:17 +0000
Subject: [PATCH 105/136] fix: throw OpenSSL errors by value

---
 scribbu/scribbu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 728a4a1..9204a75 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -177,12 +177,12 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
   if (! mdctx) {
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   if (! EVP_DigestInit_ex(mdctx, EVP_md5(), 0)) {
     EVP_MD_CTX_destroy(mdctx);
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   for (std::streamsize nleft = tag - here; nleft > 0; ) {
@@ -192,7 +192,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
     is.read((char*)BUF, nbytes);
     if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
-      throw new openssl_error();
+      throw openssl_error();
     }
 
     nleft -= nbytes;
-- 
2.43.0


From 6e925e885907634ab2a72fcd854fbcac5daaba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:57 +0000
Subject: [PATCH 106/136] fix: read enhanced ID3v1 fields into their own slots
 in scripts

---
 scribbu/scheme.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..5c2bd84 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -314,7 +314,9 @@ extern "C" {
       SCM scm_album = scm_from_stringn(album.c_str(), album.size(), "UTF-8",
                                        SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
 
-      string year = pv1->year<string>();
+      string year = pv1->year<string>(encoding::ISO_8859_1,
+                                      encoding::UTF_8,
+                                      on_no_encoding::transliterate);
       SCM scm_year = scm_from_stringn(year.c_str(), year.size(), "UTF-8",
                                       SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
 
@@ -346,26 +348,32 @@ extern "C" {
 
       if (ext) {
 
-        string enh_genre = pv1->enh_genre<string>();
+        string enh_genre = pv1->enh_genre<string>(encoding::ISO_8859_1,
+                                                  encoding::UTF_8,
+                                                  on_no_encoding::transliterate);
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
-        string start_time = pv1->start_time<string>();
+        string start_time = pv1->start_time<string>(encoding::ISO_8859_1,
+                                                    encoding::UTF_8,
+                                                    on_no_encoding::transliterate);
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
-        string end_time = pv1->end_time<string>();
+        string end_time = pv1->end_time<string>(encoding::ISO_8859_1,
+                                                encoding::UTF_8,
+                                                on_no_encoding::transliterate);
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From 3b6a8824dd70d40619654b823101fc5bf6dc4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:57 +0000
Subject: [PATCH 107/136] fix: write the text in ID3v1 tags in the encoding in
 which scripts read it

Also write an enhanced tag whenever one is needed to hold the script's values,
as the manual says, and accept short years and times, which read-id3v1-tag
produces.
---
 scribbu/scheme.cc | 112 ++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 68 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 5c2bd84..a22a97c 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -571,24 +571,17 @@ extern "C" {
     try {
       dynwind_context ctx;
 
-      SCM scm_title = SCM_SLOT(scm_tag, 0);
-      char *c_title = ctx.free_locale_string(scm_title);
-
-      SCM scm_artist = SCM_SLOT(scm_tag, 1);
-      char *c_artist = ctx.free_locale_string(scm_artist);
-
-      SCM scm_album = SCM_SLOT(scm_tag, 2);
-      char *c_album = ctx.free_locale_string(scm_album);
-
-      // This slot can be '() to indicuate "not set"
-      char *c_year = 0;
-      SCM scm_year = SCM_SLOT(scm_tag, 3);
-      if (!scm_is_null(scm_year)) {
-        c_year = ctx.free_locale_string(scm_year);
-      }
-
-      SCM scm_comment = SCM_SLOT(scm_tag, 4);
-      char *c_comment = ctx.free_locale_string(scm_comment);
+      // Text slots may be '() to indicate "not set"
+      auto text = [&](int slot) {
+        SCM scm = SCM_SLOT(scm_tag, slot);
+        return scm_is_null(scm) ? string() : string(ctx.free_utf8_string(scm));
+      };
+
+      string title   = text(0);
+      string artist  = text(1);
+      string album   = text(2);
+      string year    = text(3);
+      string comment = text(4);
 
       SCM scm_genre = SCM_SLOT(scm_tag, 5);
       unsigned char genre = scm_to_uchar(scm_genre);
@@ -600,8 +593,7 @@ extern "C" {
         track_no = scm_to_uchar(scm_track_no);
       }
 
-      SCM scm_enh_genre = SCM_SLOT(scm_tag, 7);
-      char *c_enh_genre = ctx.free_locale_string(scm_enh_genre);
+      string enh_genre = text(7);
 
       unsigned char speed = 0;
       SCM scm_speed = SCM_SLOT(scm_tag, 8);
@@ -609,40 +601,43 @@ extern "C" {
         speed = scm_to_uchar(scm_speed);
       }
 
-      SCM scm_start_time = SCM_SLOT(scm_tag, 9);
-      char *c_start_time = ctx.free_locale_string(scm_start_time);
+      string start_time = text(9);
+      string end_time   = text(10);
+
+      if (year.size() > 4) {
+        throw invalid_argument("the year may be no longer than four characters");
+      }
+      if (start_time.size() > 6 || end_time.size() > 6) {
+        throw invalid_argument("times may be no longer than six characters");
+      }
 
-      SCM scm_end_time = SCM_SLOT(scm_tag, 10);
-      char *c_end_time = ctx.free_locale_string(scm_end_time);
+      // We read ID3v1 text as ISO-8859-1, so that's how we write it
+      auto too_long = [](const string &s) {
+        return convert_encoding(s, encoding::UTF_8, encoding::ISO_8859_1, false,
+                                on_no_encoding::fail).size() > id3v1_tag::TEXT_SZ;
+      };
 
       bool v11 = track_no != 0;
-      bool enh = (strlen(c_enh_genre)  != 0) ||
-        (speed != 0)                ||
-        (strlen(c_start_time) != 0) ||
-        (strlen(c_end_time)   != 0);
+      bool enh = !enh_genre.empty() || !scm_is_null(scm_speed) ||
+        !start_time.empty() || !end_time.empty() ||
+        too_long(title) || too_long(artist) || too_long(album);
 
       id3v1_tag tag(v11, enh);
 
-      if (c_title && 0 != strlen(c_title)) {
-        tag.set_title(c_title, encoding::UTF_8, encoding::UTF_8);
+      if (!title.empty()) {
+        tag.set_title(title, encoding::UTF_8, encoding::ISO_8859_1);
       }
-      if (c_artist && 0 != strlen(c_artist)) {
-        tag.set_artist(c_artist, encoding::UTF_8, encoding::UTF_8);
+      if (!artist.empty()) {
+        tag.set_artist(artist, encoding::UTF_8, encoding::ISO_8859_1);
       }
-      if (c_album && 0 != strlen(c_album)) {
-        tag.set_album(c_album, encoding::UTF_8, encoding::UTF_8);
+      if (!album.empty()) {
+        tag.set_album(album, encoding::UTF_8, encoding::ISO_8859_1);
       }
-
-      if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
-        if (4 != strlen(c_year)) {
-          // Will *not* return or file dtors!
-          scm_misc_error(WRITE_ID3V1_TAG, "incorrect year ~s", scm_year);
-        }
-        tag.set_year(c_year);
+      if (!year.empty()) { // treat "" as "not set"
+        tag.set_year(year.c_str());
       }
-
-      if (c_comment && 0 != strlen(c_comment)) {
-        tag.set_comment(c_comment, encoding::UTF_8, encoding::UTF_8);
+      if (!comment.empty()) {
+        tag.set_comment(comment, encoding::UTF_8, encoding::ISO_8859_1);
       }
 
       tag.set_genre(genre);
@@ -652,31 +647,12 @@ extern "C" {
       }
 
       if (enh) {
-        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::UTF_8);
-        tag.set_speed(speed);
-        if (c_start_time) {
-          size_t n = strlen(c_start_time);
-          if (n != 0) {
-            if (6 != strlen(c_start_time)) {
-              // Will *not* return or file dtors!
-              scm_misc_error(WRITE_ID3V1_TAG, "incorrect start time len ~s",
-                             scm_start_time);
-            }
-            tag.set_start_time(c_start_time);
-          }
-        }
-
-        if (c_end_time) {
-          size_t n = strlen(c_end_time);
-          if (n != 0) {
-            if (6 != strlen(c_end_time)) {
-              // Will *not* return or file dtors!
-              scm_misc_error(WRITE_ID3V1_TAG, "incorrect end time len ~s",
-                             scm_end_time);
-            }
-            tag.set_end_time(c_end_time);
-          }
+        if (!enh_genre.empty()) {
+          tag.set_enh_genre(enh_genre, encoding::UTF_8, encoding::ISO_8859_1);
         }
+        tag.set_speed(speed);
+        tag.set_start_time(start_time.c_str());
+        tag.set_end_time(end_time.c_str());
       }
 
       replace_id3v1(fs::path(ctx.free_locale_string(scm_pth)), tag);
-- 
2.43.0


From ba208e73751920f137ab123308cefb6bee33c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:57 +0000
Subject: [PATCH 108/136] fix: don't cut text at nulls when converting it to &
 from Scheme strings

---
 scribbu/dynwind-context.cc |  9 ++++---
 scribbu/dynwind-context.hh |  4 ++-
 scribbu/scheme-serde.cc    | 54 ++++++++++++++++++++++----------------
 scribbu/scheme.cc          |  2 +-
 4 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/scribbu/dynwind-context.cc b/scribbu/dynwind-context.cc
index f2a91f9..4bcae2f 100644
--- a/scribbu/dynwind-context.cc
+++ b/scribbu/dynwind-context.cc
@@ -36,9 +36,12 @@ char* scribbu::dynwind_context::free_locale_string(SCM scm)
   return p;
 }
 
-char* scribbu::dynwind_context::free_utf8_string(SCM scm)
+std::string scribbu::dynwind_context::free_utf8_string(SCM scm)
 {
-  char *p = scm_to_utf8_string(scm);
+  // There may be nulls in the text (between the strings in an ID3v2.4 text
+  // frame, say)
+  std::size_t len;
+  char *p = scm_to_utf8_stringn(scm, &len);
   scm_dynwind_free(p);
-  return p;
+  return std::string(p, len);
 }
diff --git a/scribbu/dynwind-context.hh b/scribbu/dynwind-context.hh
index b6472d5..bcfc7bc 100644
--- a/scribbu/dynwind-context.hh
+++ b/scribbu/dynwind-context.hh
@@ -24,6 +24,8 @@
 #ifndef DYNWIND_CONTEXT_HH
 #define DYNWIND_CONTEXT_HH
 
+#include <string>
+
 #include <libguile.h>
 
 namespace scribbu {
@@ -38,7 +40,7 @@ namespace scribbu {
     void free(void *p)
     { scm_dynwind_free(p); }
     char* free_locale_string(SCM scm);
-    char* free_utf8_string(SCM scm);
+    std::string free_utf8_string(SCM scm);
 
     dynwind_context(const dynwind_context&)            = delete;
     dynwind_context(dynwind_context&&)                 = delete;
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..f598be2 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -248,6 +248,14 @@ void scribbu::init_symbols() {
 
 namespace {
 
+  /// Convert UTF-8 text to a Scheme string; there may be nulls in the text
+  /// (between the strings in an ID3v2.4 text frame, say)
+  SCM
+  scm_from_text(const std::string &text)
+  {
+    return scm_from_utf8_stringn(text.data(), text.size());
+  }
+
   SCM
   init_frame(const std::string &cls, SCM id)
   {
@@ -385,7 +393,7 @@ namespace {
     }
 
     SCM x = init_frame("<text-frame>", p->second);
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(f.as_str<std::string>()));
 
     return x;
   }
@@ -400,7 +408,7 @@ namespace {
 
     SCM x = init_frame("<text-frame>", p->second, f.tag_alter_preserve(),
                        f.file_alter_preserve(), f.readonly());
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(f.as_str<std::string>()));
 
     return x;
 
@@ -417,7 +425,7 @@ namespace {
     SCM x = init_frame("<text-frame>", p->second, f.tag_alter_preserve(),
                        f.file_alter_preserve(), f.readonly(),
                        f.unsynchronised());
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(f.as_str<std::string>()));
 
     return x;
 
@@ -438,10 +446,10 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_text(txt));
 
     return x;
 
@@ -464,10 +472,10 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_text(txt));
 
     return x;
 
@@ -490,10 +498,10 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_text(txt));
 
     return x;
 
@@ -508,10 +516,10 @@ namespace {
                        sym_udt_frame);
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(txt));
 
     return x;
 
@@ -528,10 +536,10 @@ namespace {
                        f.readonly());
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(txt));
 
     return x;
 
@@ -548,10 +556,10 @@ namespace {
                        f.readonly(), f.unsynchronised());
 
     string dsc = f.description<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(dsc));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_text(txt));
 
     return x;
 
@@ -593,7 +601,7 @@ namespace {
     SCM x = init_frame("<popm-frame>", sym_popm_frame);
 
     string own = f.email<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     unsigned char rating = f.rating();
     SCM_SET_SLOT(x, 6, scm_from_uchar(rating));
@@ -614,7 +622,7 @@ namespace {
                        f.readonly());
 
     string own = f.email<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     unsigned char rating = f.rating();
     SCM_SET_SLOT(x, 6, scm_from_uchar(rating));
@@ -635,7 +643,7 @@ namespace {
                        f.readonly(), f.unsynchronised());
 
     string own = f.email<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     unsigned char rating = f.rating();
     SCM_SET_SLOT(x, 6, scm_from_uchar(rating));
@@ -655,7 +663,7 @@ namespace {
     SCM x = init_frame("<tag-cloud-frame>", sym_tag_cloud_frame);
 
     string own = f.owner();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
@@ -684,7 +692,7 @@ namespace {
                        f.readonly());
 
     string own = f.owner();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
@@ -713,7 +721,7 @@ namespace {
                        f.readonly(), f.unsynchronised());
 
     string own = f.owner();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
@@ -742,7 +750,7 @@ namespace {
                        f.readonly());
 
     string own = f.email<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     vector<unsigned char> c;
     f.contentsb(back_inserter(c));
@@ -766,7 +774,7 @@ namespace {
                        f.readonly(), f.unsynchronised());
 
     string own = f.email<string>();
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(own.c_str()));
+    SCM_SET_SLOT(x, 5, scm_from_text(own));
 
     vector<unsigned char> c;
     f.contentsb(back_inserter(c));
diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index a22a97c..945a9c2 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -574,7 +574,7 @@ extern "C" {
       // Text slots may be '() to indicate "not set"
       auto text = [&](int slot) {
         SCM scm = SCM_SLOT(scm_tag, slot);
-        return scm_is_null(scm) ? string() : string(ctx.free_utf8_string(scm));
+        return scm_is_null(scm) ? string() : ctx.free_utf8_string(scm);
       };
 
       string title   = text(0);
-- 
2.43.0


From 4d55035e29af299d23cdb0da3302f08e9728d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:57 +0000
Subject: [PATCH 109/136] fix: write text outside ISO-8859-1 in ID3v2.2 &
 ID3v2.3 tags from scripts

---
 scribbu/scheme-serde.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index f598be2..574a21b 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -795,6 +795,20 @@ namespace {
 
 namespace {
 
+  /// Return true if \a text (in UTF-8) can't be expressed in ISO-8859-1
+  bool
+  needs_ucs2(const std::string &text)
+  {
+    using namespace scribbu;
+    try {
+      convert_encoding(text, encoding::UTF_8, encoding::ISO_8859_1, false,
+                       on_no_encoding::fail);
+      return false;
+    } catch (const std::exception&) {
+      return true;
+    }
+  }
+
   std::unique_ptr<scribbu::id3v2_2_frame>
   ser_text_frame_2_2(SCM scm)
   {
@@ -812,8 +826,10 @@ namespace {
     frame_id3 id = p->second;
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
+    bool ucs2 = needs_ucs2(txt);
     return unique_ptr<id3v2_2_frame>(
-      new id3v2_2_text_frame(id, txt, encoding::UTF_8));
+      new id3v2_2_text_frame(id, txt, encoding::UTF_8, ucs2,
+                             on_no_encoding::fail, ucs2));
 
   }
 
@@ -847,10 +863,11 @@ namespace {
 
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
+    bool ucs2 = needs_ucs2(txt);
     return unique_ptr<id3v2_3_frame>(
-      new id3v2_3_text_frame(id, txt, encoding::UTF_8, false,
+      new id3v2_3_text_frame(id, txt, encoding::UTF_8, ucs2,
                              on_no_encoding::fail,
-                             false, tap, fap, ro));
+                             ucs2, tap, fap, ro));
 
   }
 
-- 
2.43.0


From 5fc872db7f8b376fb32f85548dd0286a988d3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 110/136] fix: keep the language of comments read & written by
 scripts

---
 scribbu/framesv2.hh     |  3 ++
 scribbu/scheme-serde.cc | 84 ++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 44 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index bb262d1..3739219 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -782,6 +782,9 @@ namespace scribbu {
       return std::copy(text_.begin(), text_.end(), p);
     }
 
+    /// Set the language
+    void lang(unsigned char c0, unsigned char c1, unsigned char c2)
+    { lang_[0] = c0; lang_[1] = c1; lang_[2] = c2; }
     /// Set the description
     void description(const std::string &text, encoding src);
     /// Set the commente text
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 574a21b..ec0fee9 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -438,12 +438,9 @@ namespace {
 
     SCM x = init_frame("<comment-frame>", sym_comment_frame);
 
-    char lang[4] = { 0, 0, 0, 0 };
+    char lang[3];
     std::tie(lang[0], lang[1], lang[2]) = f.lang();
-    if (0 != (lang[0] & 0x80)) lang[0] = 0;
-    if (0 != (lang[1] & 0x80)) lang[1] = 0;
-    if (0 != (lang[2] & 0x80)) lang[2] = 0;
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
+    SCM_SET_SLOT(x, 5, scm_from_latin1_stringn(lang, 3));
 
     string dsc = f.description<string>();
     SCM_SET_SLOT(x, 6, scm_from_text(dsc));
@@ -464,12 +461,9 @@ namespace {
                        f.tag_alter_preserve(), f.file_alter_preserve(),
                        f.readonly());
 
-    char lang[4] = { 0, 0, 0, 0 };
+    char lang[3];
     std::tie(lang[0], lang[1], lang[2]) = f.lang();
-    if (0 != (lang[0] & 0x80)) lang[0] = 0;
-    if (0 != (lang[1] & 0x80)) lang[1] = 0;
-    if (0 != (lang[2] & 0x80)) lang[2] = 0;
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
+    SCM_SET_SLOT(x, 5, scm_from_latin1_stringn(lang, 3));
 
     string dsc = f.description<string>();
     SCM_SET_SLOT(x, 6, scm_from_text(dsc));
@@ -490,12 +484,9 @@ namespace {
                        f.tag_alter_preserve(), f.file_alter_preserve(),
                        f.readonly(), f.unsynchronised());
 
-    char lang[4] = { 0, 0, 0, 0 };
+    char lang[3];
     std::tie(lang[0], lang[1], lang[2]) = f.lang();
-    if (0 != (lang[0] & 0x80)) lang[0] = 0;
-    if (0 != (lang[1] & 0x80)) lang[1] = 0;
-    if (0 != (lang[2] & 0x80)) lang[2] = 0;
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(lang));
+    SCM_SET_SLOT(x, 5, scm_from_latin1_stringn(lang, 3));
 
     string dsc = f.description<string>();
     SCM_SET_SLOT(x, 6, scm_from_text(dsc));
@@ -915,6 +906,26 @@ namespace {
 
   }
 
+  /// Set a comment's language; it may be any three characters (they needn't
+  /// be an ISO-639-2 code), or "" for the default
+  void
+  set_lang(SCM scm, scribbu::comments &f)
+  {
+    size_t len = scm_c_string_length(scm);
+    if (3 == len) {
+      scm_t_wchar c[3];
+      for (size_t i = 0; i < len; ++i) {
+        c[i] = SCM_CHAR(scm_c_string_ref(scm, i));
+        if (c[i] > 0xff) {
+          throw std::invalid_argument("languages are given in ISO-8859-1");
+        }
+      }
+      f.lang(c[0], c[1], c[2]);
+    } else if (len) {
+      throw std::invalid_argument("languages have three characters");
+    }
+  }
+
   std::unique_ptr<scribbu::id3v2_2_frame>
   ser_comment_2_2(SCM scm)
   {
@@ -924,18 +935,13 @@ namespace {
     dynwind_context ctx;
     ser_frame_2_2("<comment-frame>", scm, ctx);
 
-    string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
-
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_2_frame>(new COM(lang, text, encoding::UTF_8,
-                                             use_unicode::yes, dsc));
+    unique_ptr<COM> p(new COM(language::eng, text, encoding::UTF_8,
+                              use_unicode::yes, dsc));
+    set_lang(SCM_SLOT(scm, 5), *p);
+    return p;
 
   }
 
@@ -960,20 +966,15 @@ namespace {
 
     tie(id_txt, tap, fap, ro) = ser_frame_2_3("<comment-frame>", scm, ctx);
 
-    string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
-
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_3_frame>(new COMM(lang, text, encoding::UTF_8,
-                                              use_unicode::yes,
-                                              tap, fap, ro, boost::none,
-                                              boost::none, dsc));
+    unique_ptr<COMM> p(new COMM(language::eng, text, encoding::UTF_8,
+                                use_unicode::yes,
+                                tap, fap, ro, boost::none,
+                                boost::none, dsc));
+    set_lang(SCM_SLOT(scm, 5), *p);
+    return p;
 
   }
 
@@ -1000,22 +1001,17 @@ namespace {
     tie(id_txt, tap, fap, ro, unsync) =
       ser_frame_2_4("<comment-frame>", scm, ctx);
 
-    string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
-
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_4_frame>(
-      new COMM_2_4(lang, text, encoding::UTF_8,
+    unique_ptr<COMM_2_4> p(
+      new COMM_2_4(language::eng, text, encoding::UTF_8,
                    use_unicode::yes,
                    tap, fap, ro, boost::none,
                    boost::none, false, unsync, boost::none,
                    dsc));
+    set_lang(SCM_SLOT(scm, 5), *p);
+    return p;
 
   }
 
-- 
2.43.0


From 4c7b2f5a1ab2bd2c7adef4bbd4b7b94144512941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 111/136] fix: write tag clouds to ID3v2.2 & ID3v2.4 tags from
 scripts

---
 scribbu/scheme-serde.cc | 135 ++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 87 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index ec0fee9..253842d 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -665,7 +665,7 @@ namespace {
                                           SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
                 } );
       SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
-      lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
+      lst = scm_acons(scm_from_text(kv.first), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
 
@@ -694,7 +694,7 @@ namespace {
                                           SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
                 } );
       SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
-      lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
+      lst = scm_acons(scm_from_text(kv.first), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
 
@@ -723,7 +723,7 @@ namespace {
                                           SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
                 } );
       SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
-      lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
+      lst = scm_acons(scm_from_text(kv.first), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
 
@@ -1250,37 +1250,61 @@ namespace {
                                                   boost::none));
   }
 
-  std::unique_ptr<scribbu::id3v2_2_frame>
-  ser_xtag_2_2(SCM scm)
+  /// Convert an association list from tags to values; each tag may be
+  /// associated with a string, or with any number of strings
+  std::map<std::string, std::set<std::string>>
+  tags_from_alist(SCM scm_tags, scribbu::dynwind_context &ctx)
   {
     using namespace std;
-    using namespace scribbu;
-
-    dynwind_context ctx;
-    ser_frame_2_2("<tag-cloud-frame>", scm, ctx);
-
-    string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
     map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
 
     for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
 
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
-
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      SCM pair   = scm_list_ref(scm_tags, scm_from_int(i));
+      SCM first  = scm_list_ref(pair, scm_from_int(0));
+      SCM second = scm_list_tail(pair, scm_from_int(1));
 
-      set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
-      for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
-        SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
-        string val = ctx.free_utf8_string(scm_val);
-        vals.insert(val);
+      // `second' could be a string, a list of strings, or a list containing a
+      // list of strings
+      if (scm_is_pair(second) && scm_is_true(scm_list_p(scm_car(second)))) {
+        second = scm_car(second);
       }
 
-      M[key] = vals;
+      set<string> &vals = M[ctx.free_utf8_string(first)];
+
+      if (scm_is_string(second)) {
+
+        vals.insert(ctx.free_utf8_string(second));
+
+      } else if (scm_is_true(scm_list_p(second))) {
+
+        for (int j = 0, m = scm_to_int(scm_length(second)); j < m; ++j) {
+          SCM scm_val = scm_list_ref(second, scm_from_int(j));
+          vals.insert(ctx.free_utf8_string(scm_val));
+        }
+
+      } else {
+        throw std::runtime_error("unknown type");
+      }
     }
 
+    return M;
+  }
+
+  std::unique_ptr<scribbu::id3v2_2_frame>
+  ser_xtag_2_2(SCM scm)
+  {
+    using namespace std;
+    using namespace scribbu;
+
+    dynwind_context ctx;
+    ser_frame_2_2("<tag-cloud-frame>", scm, ctx);
+
+    string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
+
+    map<string, set<string>> M = tags_from_alist(SCM_SLOT(scm, 6), ctx);
+
     return unique_ptr<id3v2_2_frame>(new XTG(own, M.begin(), M.end()));
   }
 
@@ -1307,52 +1331,7 @@ namespace {
 
     string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
-    map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
-
-    for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
-
-      SCM pair   = scm_list_ref(scm_tags, scm_from_int(i));
-      SCM first  = scm_list_ref(pair, scm_from_int(0));
-      SCM second = scm_list_tail(pair, scm_from_int(1));
-
-      string key = ctx.free_utf8_string(first);
-
-
-      SCM test = scm_string_p(second);
-      bool ftest = SCM_BOOL_T == test;
-      test = scm_list_p(second);
-      ftest = SCM_BOOL_T == test;
-
-      SCM scm_cls = scm_class_of(second);
-      test = scm_variable_p(scm_cls);
-      ftest = (SCM_BOOL_T == test);
-
-
-      // Could be a string, or a list of strings
-      set<string> vals;
-
-      if (scm_string_p(second) == SCM_BOOL_T) {
-
-        vals.insert(ctx.free_utf8_string(second));
-
-      } else if (scm_list_p(second) == SCM_BOOL_T) {
-
-        SCM scm_len = scm_length(second);
-        int m = scm_to_int(scm_len);
-
-        for (int j = 0; j < m; ++j) {
-          SCM scm_val = scm_list_ref(second, scm_from_int(j));
-          string val = ctx.free_utf8_string(scm_val);
-          vals.insert(val);
-        }
-
-      } else {
-        throw std::runtime_error("unknown type");
-      }
-
-      M[key] = vals;
-    }
+    map<string, set<string>> M = tags_from_alist(SCM_SLOT(scm, 6), ctx);
 
     return unique_ptr<id3v2_3_frame>(new XTAG(own, M.begin(), M.end(),
                                               tap, fap, ro, boost::none,
@@ -1384,25 +1363,7 @@ namespace {
 
     string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
-    map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
-
-    for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
-
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
-
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
-
-      set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
-      for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
-        SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
-        string val = ctx.free_utf8_string(scm_val);
-        vals.insert(val);
-      }
-
-      M[key] = vals;
-    }
+    map<string, set<string>> M = tags_from_alist(SCM_SLOT(scm, 6), ctx);
 
     return unique_ptr<id3v2_4_frame>(new XTAG_2_4(own, M.begin(), M.end(),
                                                   tap, fap, ro, boost::none,
-- 
2.43.0


From 2e54ac1070c600609c64e358b5c0c3e177649c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 112/136] fix: give scripts the contents of unknown frames free
 of unsynchronisation

The contents of frames in compressed or unsynchronised form would be taken for
their plain contents when written back.
---
 scribbu/framesv23.cc    |  8 ++++++++
 scribbu/framesv23.hh    |  3 +++
 scribbu/scheme-serde.cc | 19 +++++++++++++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index da8470b..61d4d28 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -128,6 +128,14 @@ scribbu::id3v2_3_plus_frame::write(std::ostream &os, bool unsync) const
   return cache_[idx].size();
 }
 
+std::string
+scribbu::id3v2_3_plus_frame::payload() const
+{
+  std::stringstream os;
+  serialize(os);
+  return os.str();
+}
+
 /*virtual*/
 void
 scribbu::id3v2_3_plus_frame::dirty(bool f) const
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index bf82ef9..19d7334 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -263,6 +263,9 @@ namespace scribbu {
     /// unsynchronisation scheme if the caller so chooses ("unsynchronised"
     /// will be updated accordingly)
     virtual std::size_t write(std::ostream &os, bool unsync) const;
+    /// Return this frame's contents, free of the header, compression,
+    /// encryption & unsynchronisation
+    std::string payload() const;
 
   protected:
 
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 253842d..8dd6fcf 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1873,8 +1873,9 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM_SET_SLOT(x, 0, sym_unknown_frame);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
+  // Don't apply unsynchronisation: it's up to whoever writes the tag next
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1909,8 +1910,13 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
                SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
+  // Apply neither compression nor unsynchronisation: that's up to whoever
+  // writes the tag next
+  std::string data = f.payload();
   std::stringstream stm;
-  f.write(stm, unsync);
+  unknown_id3v2_3_frame(f.id(), f.tag_alter_preserve(), f.file_alter_preserve(),
+                        f.readonly(), boost::none, boost::none, boost::none,
+                        data.begin(), data.end()).write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1946,8 +1952,13 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 4, f.unsynchronised() ? SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
+  // Apply neither compression nor unsynchronisation: that's up to whoever
+  // writes the tag next
+  std::string data = f.payload();
   std::stringstream stm;
-  f.write(stm, unsync);
+  unknown_id3v2_4_frame(f.id(), f.tag_alter_preserve(), f.file_alter_preserve(),
+                        f.readonly(), boost::none, boost::none, false, false,
+                        boost::none, data.begin(), data.end()).write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -2052,7 +2063,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From 9f8d9847e63407d009ea6be352d427436010da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 113/136] fix: refuse to write frames that the tag at hand
 can't hold

Such frames were taken for unknown frames, which lack the fields that unknown
frames have.  Also accept the contents of unknown frames without frame header,
as the manual has them.
---
 scribbu/scheme-serde.cc | 104 +++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 39 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 8dd6fcf..676024a 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1793,11 +1793,7 @@ scribbu::scheme_serde_dispatcher::ser_2_2(SCM scm) const
     pout = move(ser_unknown_frame_2_2(scm));
   } else {
     scribbu::scheme_serde_dispatcher::pfn_from_scm_2_2 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch(const std::exception&) {
-      pout = ser_unknown_frame_2_2(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1822,11 +1818,7 @@ scribbu::scheme_serde_dispatcher::ser_2_3(SCM scm) const
     pout = move(ser_unknown_frame_2_3(scm));
   } else {
     scheme_serde_dispatcher::pfn_from_scm_2_3 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch (const std::exception&) {
-      pout = ser_unknown_frame_2_3(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1852,11 +1844,7 @@ scribbu::scheme_serde_dispatcher::ser_2_4(SCM scm) const
     pout = move(ser_unknown_frame_2_4(scm));
   } else {
     scheme_serde_dispatcher::pfn_from_scm_2_4 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch (const std::exception&) {
-      pout = ser_unknown_frame_2_4(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1969,6 +1957,59 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   return x;
 }
 
+namespace {
+
+  /// Retrieve the frame identifier from an <unk-frame>; \a cb is the size of
+  /// identifiers in the version of ID3v2 we're writing
+  std::string
+  unknown_frame_id(SCM scm, std::size_t cb, scribbu::dynwind_context &ctx)
+  {
+    if (!SCM_IS_A_P(scm, scm_c_public_ref("scribbu", "<unk-frame>"))) {
+      throw std::invalid_argument("frame not supported by this version of ID3v2");
+    }
+    std::string id = ctx.free_utf8_string(SCM_SLOT(scm, 5));
+    if (id.size() != cb) {
+      throw std::invalid_argument("frame identifier " + id + " not supported by "
+                                  "this version of ID3v2");
+    }
+    return id;
+  }
+
+  /// Retrieve the frame contents from an <unk-frame>, exclusive of the frame
+  /// header (if the <unk-frame> has one)
+  std::string
+  unknown_frame_data(SCM scm, std::size_t cbid, scribbu::dynwind_context &ctx)
+  {
+    using namespace std;
+
+    string id = unknown_frame_id(scm, cbid, ctx);
+
+    SCM scm_bv = SCM_SLOT(scm, 6);
+    if (!scm_is_bytevector(scm_bv)) {
+      throw invalid_argument("the contents of a frame shall be a bytevector");
+    }
+
+    string s((const char*) SCM_BYTEVECTOR_CONTENTS(scm_bv),
+             SCM_BYTEVECTOR_LENGTH(scm_bv));
+
+    size_t cbhdr = 3 == cbid ? 6 : 10;
+    if (s.size() >= cbhdr && 0 == s.compare(0, cbid, id)) {
+      // ID3v2.4 sizes are sync-safe
+      size_t sz = 0, sz_ss = 0;
+      for (size_t i = cbid; i < 2 * cbid; ++i) {
+        unsigned char c = s[i];
+        sz    = (sz    << 8) | c;
+        sz_ss = (sz_ss << 7) | c;
+      }
+      if (s.size() - cbhdr == sz || s.size() - cbhdr == sz_ss) {
+        return s.substr(cbhdr);
+      }
+    }
+    return s;
+  }
+
+}
+
 std::unique_ptr<scribbu::id3v2_2_frame>
 scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 {
@@ -1977,16 +2018,11 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
-
-  SCM scm_bv = SCM_SLOT(scm, 6);
+  frame_id3 id(unknown_frame_id(scm, 3, ctx).c_str());
 
-  size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
-  signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  string data = unknown_frame_data(scm, 3, ctx);
 
-  // The unknown_id3v2_2_frame ctor assumes we've stripped off the
-  // frame header-- that's six bytes in v2.2.
-  return unique_ptr<id3v2_2_frame>(new unknown_id3v2_2_frame(id, p + 6, p + cb));
+  return unique_ptr<id3v2_2_frame>(new unknown_id3v2_2_frame(id, data.begin(), data.end()));
 
 }
 
@@ -2004,7 +2040,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  frame_id4 id(unknown_frame_id(scm, 4, ctx).c_str());
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
@@ -2019,17 +2055,12 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
     ro = read_only::set;
   }
 
-  SCM scm_bv = SCM_SLOT(scm, 6);
-
-  size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
-  signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  string data = unknown_frame_data(scm, 4, ctx);
 
   return unique_ptr<id3v2_3_frame>(
-    // The unknown_id3v2_3_frame ctor assumes we've stripped off the
-    // frame header-- that's ten bytes in v2.3.
     new unknown_id3v2_3_frame(id, tap, fap, ro,
                               boost::none, boost::none, boost::none,
-                              p + 10, p + cb));
+                              data.begin(), data.end()));
 
 }
 
@@ -2048,7 +2079,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  frame_id4 id(unknown_frame_id(scm, 4, ctx).c_str());
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
@@ -2067,16 +2098,11 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     unsync = true;
   }
 
-  SCM scm_bv = SCM_SLOT(scm, 6);
-
-  size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
-  signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  string data = unknown_frame_data(scm, 4, ctx);
 
   return unique_ptr<id3v2_4_frame>(
-    // The unknown_id3v2_4_frame ctor assumes we've stripped off the
-    // frame header-- that's ten bytes in v2.4.
     new unknown_id3v2_4_frame(id, tap, fap, ro,
                               boost::none, boost::none,
                               false, unsync, boost::none,
-                              p + 10, p + cb));
+                              data.begin(), data.end()));
 }
-- 
2.43.0


From 3ac454590919cad51dcf02753c66ce22025d4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 114/136] fix: initialize <id3v2-tag> instances' experimental
 slot from a keyword

---
 scheme/scribbu.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/scribbu.scm b/scheme/scribbu.scm
index b11d30b..70f316a 100644
--- a/scheme/scribbu.scm
+++ b/scheme/scribbu.scm
@@ -276,7 +276,7 @@ at `root'"
 
 (define-class <id3v2-tag> ()
   (experimental #:init-value '() #:accessor experimental
-                #:init-keyword experimental)
+                #:init-keyword #:experimental)
   (frames       #:init-value '() #:accessor frames  #:init-keyword #:frames)
   (padding      #:init-value   0 #:accessor padding #:init-keyword #:padding))
 
-- 
2.43.0


From 09bac6f3a3289f00e7218a1918a11f53691460ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:23 +0000
Subject: [PATCH 115/136] fix: write all the values of text frames

Text was cut at the first null on being converted; ID3v2.4 text frames separate
their values by nulls.
---
 scribbu/charsets.cc | 34 +++++++++++++++++++++++-----------
 scribbu/framesv2.cc |  6 +++---
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 55dd698..e9e9d5e 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -794,14 +794,16 @@ namespace scribbu {
                                          srcenc, dstenc, rsp);
   }
 
-  /// Convert encodings from C strings to buffers of unsigned char
-  template <>
+  /// Convert \a ntext chars at \a text (which may include nulls) to a buffer of
+  /// unsigned char
+  static
   std::vector<unsigned char>
-  convert_encoding(char const* const& text,
-                   encoding srcenc,
-                   encoding dstenc,
-                   bool add_bom /*= false*/,
-                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  convert_chars(const char *text,
+                std::size_t ntext,
+                encoding srcenc,
+                encoding dstenc,
+                bool add_bom,
+                on_no_encoding rsp)
   {
     const unsigned char UTF16LE[] = { 0xff, 0xfe };
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
@@ -815,7 +817,7 @@ namespace scribbu {
       throw bad_code_unit(dstenc, sizeof(char));
     }
 
-    if (0 == strlen(text)) {
+    if (0 == ntext) {
       return std::vector<unsigned char>();
     }
 
@@ -868,7 +870,6 @@ namespace scribbu {
     detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
 
     char *inbuf = const_cast<char*>(text);
-    size_t ntext = strlen(text);
     size_t inbytesleft = ntext;
     // We can't know a priori how many octets the output buffer will require;
     // cf.
@@ -914,6 +915,18 @@ namespace scribbu {
     return out;
   }
 
+  /// Convert encodings from C strings to buffers of unsigned char
+  template <>
+  std::vector<unsigned char>
+  convert_encoding(char const* const& text,
+                   encoding srcenc,
+                   encoding dstenc,
+                   bool add_bom /*= false*/,
+                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  {
+    return convert_chars(text, strlen(text), srcenc, dstenc, add_bom, rsp);
+  }
+
   /// Convert encodings from C strings to buffers of unsigned char
   template <>
   std::vector<unsigned char>
@@ -944,8 +957,7 @@ namespace scribbu {
                    bool add_bom /*= false*/,
                    on_no_encoding rsp /*= on_no_encoding::fail*/)
   {
-    return convert_encoding<const char*>(text.c_str(), srcenc, dstenc, add_bom,
-                                         rsp);
+    return convert_chars(text.data(), text.size(), srcenc, dstenc, add_bom, rsp);
   }
 
 } // End namespace scribbu.
diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 143624e..d0f973b 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -797,7 +797,7 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
 
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
-    description_ = convert_encoding(dsc, src, dst, add_bom);
+    description_ = convert_encoding(dsc.c_str(), src, dst, add_bom);
   }
 
 }
@@ -945,7 +945,7 @@ scribbu::comments::comments(id3v2_version ver,
   dst_enc_ = dst;
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
-    description_ = convert_encoding(dsc, src, dst, add_bom);
+    description_ = convert_encoding(dsc.c_str(), src, dst, add_bom);
   }
 
 }
@@ -953,7 +953,7 @@ scribbu::comments::comments(id3v2_version ver,
 void
 scribbu::comments::description(const std::string &text, encoding src)
 {
-  description_ = convert_encoding(text, src, dst_enc_, add_bom());
+  description_ = convert_encoding(text.c_str(), src, dst_enc_, add_bom());
 }
 
 void
-- 
2.43.0


From 44f280569eb69567e5b53a3455b8c2278a8865cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:08 +0000
Subject: [PATCH 116/136] fix: print the private & tag cloud frames of ID3v2.4
 tags

Their printers were registered along with those for ID3v2.3 frames, so
that printing an ID3v2.4 tag with either failed.
---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..a7f648a 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -289,8 +289,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 1658b9cf2ee12f208ec8919271e26d1d4dd43323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:08 +0000
Subject: [PATCH 117/136] fix: print empty private frames

There's no first byte to look at in those.
---
 scribbu/pprinter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index a7f648a..6178664 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,6 +65,10 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
+  if (p0 == p1) {
+    os << indent << "  ><";
+    return;
+  }
   os << indent << hex << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
-- 
2.43.0


From a4c169ce71419a0b7091025f9634a06d890f9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 118/136] fix: print ID3v2.2 & ID3v2.4 tags as JSON

The flags were printed as a raw byte, the frames were not introduced by
a valid key, and each frame was taken from a buffer with no terminator.
---
 scribbu/json-pprinter.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..c59a599 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -32,7 +32,7 @@
 #include <boost/algorithm/string/join.hpp>
 
 #include <algorithm>
-#include <strstream>
+#include <sstream>
 
 /*static*/
 const boost::optional<scribbu::encoding>
@@ -83,15 +83,15 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -117,8 +117,8 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_3_frame &frm) {
-              ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
+              ostringstream stm;
+              stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
 
@@ -135,16 +135,16 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
-- 
2.43.0


From f25a9a8ab2a5622d8c12796f847aae97d0673aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 119/136] fix: quote the owners of file identifiers & the ids
 of play counts in JSON

---
 scribbu/json-pprinter.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index c59a599..0045010 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -253,7 +253,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
 }
 
@@ -301,7 +301,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -403,7 +403,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -472,7 +472,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -595,7 +595,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -663,7 +663,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
-- 
2.43.0


From d87f97de32e189be2ab5df9fa033a752de776855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 120/136] fix: print tag clouds as JSON

The keys for the size & for the cloud were not quoted as they should be,
nor were the values of keys having more than one.
---
 scribbu/json-pprinter.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0045010..a4c353d 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -347,14 +347,19 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> vals;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(vals), [](const string &val) {
+                            return "\"" + escape(val) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(vals, ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -518,14 +523,19 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> vals;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(vals), [](const string &val) {
+                            return "\"" + escape(val) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(vals, ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -709,14 +719,19 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> vals;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(vals), [](const string &val) {
+                            return "\"" + escape(val) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(vals, ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
-- 
2.43.0


From f08935f27d157aee678f82cd38405b825c6d27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 121/136] fix: escape control characters, and the album in
 ID3v1 tags, in JSON

---
 scribbu/json-pprinter.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index a4c353d..1cc4885 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -68,7 +68,11 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if (0 <= c && c < 0x20) {
+        stm << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)c;
+      } else {
+        stm << c;
+      }
       break;
     }
   }
@@ -189,7 +193,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
-- 
2.43.0


From 9a310a5fb20f11aa400cfeb30a866c5bade53f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 122/136] fix: print play counts in full

---
 scribbu/csv-pprinter.cc | 6 +++---
 scribbu/pprinter.cc     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index a43630d..95d51ed 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -367,7 +367,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_CNT(const CNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -517,7 +517,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT(const PCNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -681,7 +681,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &f, std::ostream &os)
 {
-  return os << (unsigned) f.count();
+  return os << f.count();
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 6178664..1ca4f10 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -636,7 +636,7 @@ scribbu::standard_pprinter::pprint_CNT(const CNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -784,7 +784,7 @@ scribbu::standard_pprinter::pprint_PCNT(const PCNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -952,7 +952,7 @@ scribbu::standard_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &frame, std::ostream
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From db12eca13eb0849bde9d191dc64be20014e6fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 123/136] fix: print the method & data of encryption frames as
 numbers

---
 scribbu/pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 1ca4f10..0d1099f 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -735,13 +735,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
@@ -903,13 +903,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
-- 
2.43.0


From afba9499bca7ef644ce7efe0e7b4725ee9e5c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:44 +0000
Subject: [PATCH 124/136] fix: separate tags & track data in CSV dumps

---
 src/dump.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index acc0cef..d8d4275 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -245,18 +245,24 @@ namespace {
              << endl;
       }
 
+      // In CSV format, everything goes on one line
+      const char *sep = "";
+      const char *next_sep = format::csv == fmt_ ? "," : "";
+
       if (dump_id3v2_) {
         for (ptrdiff_t i = 0, n = id3v2.size(); i < n; ++i) {
-          cout << *(id3v2[i]);
+          cout << sep << *(id3v2[i]);
+          sep = next_sep;
         }
       }
 
       if (dump_track_) {
-        cout << td;
+        cout << sep << td;
+        sep = next_sep;
       }
 
       if (dump_id3v1_ && pid3v1) {
-        cout << *pid3v1;
+        cout << sep << *pid3v1;
       }
 
       cout << endl;
-- 
2.43.0


From 149ca59a51014f760055a804113907ba8e45779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:33 +0000
Subject: [PATCH 125/136] fix: print file identifiers in ID3v2.2 tags as JSON

An encoding was taken from an empty optional.
---
 scribbu/json-pprinter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 1cc4885..a6b8a1b 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -255,9 +255,14 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
-- 
2.43.0


From 698f92f8431606aa16a89b2458fdf65fd7e993d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:42 +0000
Subject: [PATCH 126/136] fix: have SCRIBBU_CREATE stand for --create-frame

It stood for an option that doesn't exist, so that setting it made popm &
xtag fail.
---
 src/popm.cc | 2 +-
 src/xtag.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index ad6b811..1522a7c 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -803,7 +803,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
diff --git a/src/xtag.cc b/src/xtag.cc
index b3eab9e..8d660c0 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -556,7 +556,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0


From 1998f75d30563d669eed3b4a28005368eb074183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:42 +0000
Subject: [PATCH 127/136] fix: find the encoding in a locale's name

The dot before it was taken to be part of it, and a few names in the table
ended in a comma.
---
 scribbu/charsets.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index e9e9d5e..fb7876b 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -83,7 +83,7 @@ namespace {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = name.substr(i + 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
-- 
2.43.0


From b6f80401485a1198e30a8148a4694613e528fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:28 +0000
Subject: [PATCH 128/136] fix: count every byte pair when sizing unsynchronised
 payloads

The user-defined text, file identifier, popularimeter and private payloads
counted syncs field by field, and so overlooked the pairs that fields make
with one another and with terminators.
---
 scribbu/framesv2.cc  | 51 +++++++++++---------------------------------
 scribbu/framesv23.cc | 10 ++++-----
 2 files changed, 16 insertions(+), 45 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index d0f973b..9139782 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -673,13 +673,10 @@ scribbu::unique_file_id::write(std::ostream &os) const
 std::size_t
 scribbu::unique_file_id::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t n = detail::count_syncs(owner_.begin(), owner_.end(), false_only);
-  // owner is null-terminated, so possibility of a false sync
-  n += detail::count_syncs(id_.begin(), id_.end(), false_only);
-  return n;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 
@@ -857,23 +854,10 @@ scribbu::user_defined_text::write(std::ostream &os) const
 std::size_t
 scribbu::user_defined_text::count_syncs(bool false_only) const
 {
-  using namespace scribbu::detail;
-
-  std::size_t cb = 0;
-
-  if (false_only && description_.size() &&
-      is_false_sync(unicode_, description_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(unicode_, description_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
-  cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
-
-  return cb;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 
@@ -1160,21 +1144,10 @@ scribbu::popularimeter::write(std::ostream &os) const
 std::size_t
 scribbu::popularimeter::count_syncs(bool false_only) const
 {
-  std::size_t cb = 0;
-
-  cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
-  if (false_only && counter_.size() &&
-      detail::is_false_sync(rating_, counter_.front())) {
-    ++cb;
-  }
-  else if (!false_only && counter_.size() &&
-           detail::needs_unsync(rating_, counter_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(counter_.begin(), counter_.end(), false_only);
-
-  return cb;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 void
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 61d4d28..7eee5e8 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -296,12 +296,10 @@ scribbu::private_frame::write(std::ostream &os) const
 std::size_t
 scribbu::private_frame::count_syncs(bool false_only) const
 {
-  std::size_t cb = 0;
-
-  cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
-  cb += detail::count_syncs(contents_.begin(), contents_.end(), false_only);
-
-  return cb;
+  std::stringstream stm;
+  write(stm);
+  const std::string buf = stm.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 15fc1c3a12e71e3977dfe67b52b0d50e1c2b920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:11 +0000
Subject: [PATCH 129/136] fix: delete all the frames the text command is told
 to

---
 src/text.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index aeb3379..f453824 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -310,9 +310,13 @@ set_text::process_tag(scribbu::id3v2_tag *ptag)
     if (verbose()) {
       cout << "Deleting " << id << "...";
     }
-    size_t n = ptag->num_frames();
-    ptag->delete_frame(id);
-    upd = upd || n != ptag->num_frames();
+    // There may be more than one
+    size_t n;
+    do {
+      n = ptag->num_frames();
+      ptag->delete_frame(id);
+      upd = upd || n != ptag->num_frames();
+    } while (n != ptag->num_frames());
     if (verbose()) {
       cout << "done." << endl;
     }
-- 
2.43.0


From 0f99f27dfa3f56887d30af0bae68251483ab0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:11 +0000
Subject: [PATCH 130/136] fix: deleting a frame ID3v2.2 doesn't have is no
 error

---
 scribbu/id3v22.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 81d6bda..173db6b 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -387,8 +387,12 @@ scribbu::id3v2_2_tag::text(
 void
 scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 {
-  frame_id3 id3(id);
-  auto p = frame_map_.find(id3);
+  auto p = frame_map_.end();
+  try {
+    p = frame_map_.find(frame_id3(id));
+  } catch (const unknown_text_frame&) {
+    // There is no such frame in ID3v2.2, so there's nothing to delete
+  }
   if (p != frame_map_.end()) {
     frames_.erase(frames_.begin() + p->second);
     rebuild_lookups();
-- 
2.43.0


From 24830d7184a43721e1532a7bab7959d5faa5077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:39 +0000
Subject: [PATCH 131/136] fix: expand the genre of extended ID3v1 tags without
 one of their own

An extended tag always has room for a genre of its own, so it was never
found to be empty, and the genre in the ID3v1 tag proper was never used.
---
 scribbu/tbt-support.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index c98dee3..b21d460 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -23,6 +23,7 @@
 
 #include <scribbu/tbt-support.hh>
 
+#include <algorithm>
 #include <iomanip>
 #include <numeric>
 #include <boost/algorithm/string.hpp>
@@ -504,8 +505,10 @@ scribbu::tbt_support::content_type::evaluate(const file_info  & /*fi    */,
   if (pid3v1) {
     // Try for extended ID3v1 info...
     pid3v1->enh_genre(back_inserter(v1));
-    if (v1.empty()) {
+    if (all_of(v1.begin(), v1.end(),
+               [](unsigned char c) { return !c || ' ' == c; })) {
       // but if we can't get that, fall back to ID3v1 genre.
+      v1.clear();
       boost::optional<std::string> text = text_for_genre(pid3v1->genre());
       if (text) {
         for (auto c: *text) {
-- 
2.43.0


From b6da28e4d01ae7b3d8275137474cc244eac02468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:10:50 +0000
Subject: [PATCH 132/136] fix: end text in stateful encodings in their initial
 state

---
 scribbu/charsets.cc | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index fb7876b..8db99d3 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -694,6 +694,29 @@ namespace scribbu {
 	throw range_error("No matching encoding");
   }
 
+  /// Convert all the input & return to the initial state (which in stateful
+  /// encodings, such as ISO-2022-JP or UTF-7, produces output, as well)
+  static
+  std::size_t
+  convert_to_end(iconv_t dsc,
+                 char **pinbuf,
+                 std::size_t *pinbytesleft,
+                 char **poutbuf,
+                 std::size_t *poutbytesleft)
+  {
+    std::size_t status = iconv(dsc, pinbuf, pinbytesleft,
+                               poutbuf, poutbytesleft);
+    if (~0 == status && (EILSEQ != errno || 0 != *pinbytesleft)) {
+      return status;
+    }
+    int err = errno;
+    if (~0 == iconv(dsc, nullptr, nullptr, poutbuf, poutbytesleft)) {
+      return ~0;
+    }
+    errno = err;
+    return status;
+  }
+
   template <>
   std::string
   convert_encoding(const unsigned char *pbuf,
@@ -737,8 +760,8 @@ namespace scribbu {
     // bytes, and it updates the conversion state contained in cd."
     std::size_t outbytesleft = cbout;
     char *outbuf = poutbuf.get();
-    std::size_t status = iconv(dsc, &inbuf, &inbytesleft,
-                               &outbuf, &outbytesleft);
+    std::size_t status = convert_to_end(dsc, &inbuf, &inbytesleft,
+                                        &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -751,7 +774,8 @@ namespace scribbu {
       outbytesleft = cbout;
       outbuf = poutbuf.get();
       iconv(dsc, nullptr, nullptr, nullptr, nullptr); // initial state
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = convert_to_end(dsc, &inbuf, &inbytesleft,
+                              &outbuf, &outbytesleft);
     }
 
     // GNU libc reports what it was asked to ignore, having converted the rest.
@@ -878,7 +902,8 @@ namespace scribbu {
     vector<unsigned char> out(cbout);
     std::size_t outbytesleft = cbout - cbbom;
     char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-    size_t status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    size_t status = convert_to_end(dsc, &inbuf, &inbytesleft,
+                                   &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -891,7 +916,8 @@ namespace scribbu {
       outbytesleft = cbout - cbbom;
       outbuf = reinterpret_cast<char*>(&(out[cbbom]));
       iconv(dsc, nullptr, nullptr, nullptr, nullptr); // initial state
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = convert_to_end(dsc, &inbuf, &inbytesleft,
+                              &outbuf, &outbytesleft);
     }
 
     // GNU libc reports what it was asked to ignore, having converted the rest.
-- 
2.43.0


From 255d48c8d07a0abe461d7aedb5df58886e14ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:15 +0000
Subject: [PATCH 133/136] fix: report failures to write a new file in full

---
 scribbu/tagset.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index a0ff3c5..fd2cfe1 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -750,8 +750,15 @@ namespace scribbu {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
       ofs.exceptions(std::ios::eofbit|std::ios::failbit|std::ios::badbit);
-      for ( ; p0 != p1; ++p0) {
-        (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
+      try {
+        for ( ; p0 != p1; ++p0) {
+          (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
+        }
+        ofs.close(); // or errors in flushing would go unnoticed
+      } catch (...) {
+        std::error_code ec;
+        fs::remove(pth, ec);
+        throw;
       }
 
     }
-- 
2.43.0


From 80fd19f5055e7da518e5a813184b4e73c618f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:06 +0000
Subject: [PATCH 134/136] fix: refuse negative counts and indices given as
 options

---
 src/command-utilities.hh | 20 ++++++++++++++++++++
 src/dump.cc              |  8 ++++----
 src/genre.cc             |  5 +++--
 src/popm.cc              | 13 +++++++------
 src/report.cc            |  4 ++--
 src/text.cc              |  5 +++--
 src/xtag.cc              |  5 +++--
 7 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index fb318a2..1afa0fa 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -46,6 +46,26 @@
 /// calling with incorrect parameters shall exit with status code 2
 const int EXIT_INCORRECT_USAGE = 2;
 
+/// A count given as the value of an option; unlike with the built-in unsigned
+/// types, for which they would wrap around, negative numbers are refused
+class count_arg {
+public:
+  count_arg(std::size_t n = 0): n_(n)
+  { }
+  operator std::size_t() const
+  { return n_; }
+  friend std::istream& operator>>(std::istream &is, count_arg &x)
+  {
+    if ('-' == is.peek()) {
+      is.setstate(std::ios_base::failbit);
+      return is;
+    }
+    return is >> x.n_;
+  }
+private:
+  std::size_t n_;
+};
+
 ////////////////////////////////////////////////////////////////////////////
 //                                   errors                               //
 ////////////////////////////////////////////////////////////////////////////
diff --git a/src/dump.cc b/src/dump.cc
index d8d4275..81e9324 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -370,7 +370,7 @@ namespace {
       ("id3v1-tags,1", po::bool_switch(), "Display only ID3v1 tags")
       ("track-data,D", po::bool_switch(), "Display only track data")
       ("id3v2-tags,2", po::bool_switch(), "Display only ID3v2 tags")
-      ("indent,i", po::value<size_t>()->default_value(0), "number of "
+      ("indent,i", po::value<count_arg>()->default_value(0), "number of "
        "spaces to indent")
       ("no-expand-genre,g", po::bool_switch(), "Don't attempt to epand the "
        "genre")
@@ -379,7 +379,7 @@ namespace {
        "expression will be considered)")
       ("format,f", po::value<format>()-> default_value(format::standard),
        "Output format")
-      ("num-comments,m", po::value<size_t>()->default_value(6),
+      ("num-comments,m", po::value<count_arg>()->default_value(6),
        "Number of comment frames to dump")
       ("v1-encoding,c", po::value<encoding>()->default_value(encoding::CP1252),
        "Encoding uses to interpret text in ID3v1 tags.");
@@ -455,14 +455,14 @@ namespace {
 
       unique_ptr<dumper> p;
       if (dumper::format::standard == fmt) {
-        size_t   indent =   vm["indent"         ].as<size_t  >();
+        size_t   indent =   vm["indent"         ].as<count_arg>();
         bool     expand = ! vm["no-expand-genre"].as<bool    >();
         encoding v1enc  =   vm["v1-encoding"    ].as<encoding>();
         p.reset(new dumper(file_regex, f0, f1, f2,
                            indent, expand, v1enc));
       } else if (dumper::format::csv == fmt) {
         encoding v1enc = vm["v1-encoding" ].as<encoding>();
-        size_t   ncomm = vm["num-comments"].as<size_t  >();
+        size_t   ncomm = vm["num-comments"].as<count_arg>();
         p.reset(new dumper(file_regex, f0, f1, f2,
                            v1enc, ncomm));
       }
diff --git a/src/genre.cc b/src/genre.cc
index beeba59..a36e392 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -841,7 +841,7 @@ namespace {
        " by number & name on stdout & exit")
       ("no-pager,P", po::bool_switch(), "Do not pipe the output of --list-winam"
        "p-genres through a pager")
-      ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
+      ("tag,t", po::value<vector<count_arg>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
       ("v1", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
@@ -965,7 +965,8 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        tags = vm["tag"].as<vector<size_t>>();
+        const auto &args = vm["tag"].as<vector<count_arg>>();
+        tags.assign(args.begin(), args.end());
       }
 
       // Work around to https://svn.boost.org/trac/boost/ticket/8535
diff --git a/src/popm.cc b/src/popm.cc
index 1522a7c..cb4b8f2 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -746,7 +746,7 @@ namespace {
        "flag as needed on write (default is to never use it).")
       ("always-create-v2,a", po::bool_switch(), "Always create an ID3v2 tag"
        "with the relevant frame(s) for any file that has no ID3v2 tag")
-      ("count,C", po::value<size_t>(), "Set the play count to this value")
+      ("count,C", po::value<count_arg>(), "Set the play count to this value")
       ("create-v2,c", po::bool_switch(), "Create an ID3v2.3 tag containing "
        "the relevant frames for any file that has an ID3v1 tag, but no v2")
       ("create-frame,f", po::bool_switch(), "Create a new frame when directed "
@@ -755,7 +755,7 @@ namespace {
        "files before modifying them.")
       ("dry-run,n", po::bool_switch(), "Don't do anything; just print what "
        "*would* be done")
-      ("increment,i", po::value<size_t>(), "Increment the play count by this"
+      ("increment,i", po::value<count_arg>(), "Increment the play count by this"
        "amount")
       ("owner,o", po::value<string>(), "Operate only on POPM frames with "
        "this owner, or specify the owner in case a POPM frame is being created")
@@ -763,7 +763,7 @@ namespace {
       ("popularimeter-only,m", po::bool_switch(), "Operate only on POPM frames")
       ("rating,r", po::value<string>(), "Set the rating in popularimeter "
        "tag (s); either 0-255, or [a-zA-Z@#%*+]{1,5}")
-      ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the tag "
+      ("tag,t", po::value<vector<count_arg>>(), "Zero-based index of the tag "
        "on which to operate; may be given more than once to select "
        "multiple tags")
       ("verbose,v", po::bool_switch(), "Produce more verbose output during "
@@ -835,12 +835,12 @@ namespace {
 
       boost::optional<size_t> increment = boost::none;
       if (vm.count("increment")) {
-        increment = vm["increment"].as<size_t>();
+        increment = vm["increment"].as<count_arg>();
       }
 
       boost::optional<size_t> play_count = boost::none;
       if (vm.count("count")) {
-        play_count = vm["count"].as<size_t>();
+        play_count = vm["count"].as<count_arg>();
       }
 
       boost::optional<string> owner;
@@ -852,7 +852,8 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        tags = vm["tag"].as<vector<size_t>>();
+        const auto &args = vm["tag"].as<vector<count_arg>>();
+        tags.assign(args.begin(), args.end());
       }
 
       boost::optional<unsigned char> rating;
diff --git a/src/report.cc b/src/report.cc
index fb6a04a..f0aca36 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -517,7 +517,7 @@ namespace {
 
     po::options_description opts("general options");
     opts.add_options()
-      ("num-comments,c", po::value<size_t>()->default_value(6),
+      ("num-comments,c", po::value<count_arg>()->default_value(6),
        "Number of comment tags to be printed (their # will always be reported")
       ("output,o", po::value<fs::path>()->required(), "output file to which the "
        "results will be written")
@@ -614,7 +614,7 @@ namespace {
       // - the crawler will handle each file by processing it &
       //   sending the results to the reporter
 
-      size_t   ncomm   = vm["num-comments"   ].as<size_t  >();
+      size_t   ncomm   = vm["num-comments"   ].as<count_arg>();
       fs::path out     = vm["output"         ].as<fs::path>();
       encoding v1enc   = vm["v1-encoding"    ].as<encoding>();
       bool     no_dir  = vm["no-directory"   ].as<bool    >();
diff --git a/src/text.cc b/src/text.cc
index f453824..13c1c14 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -402,7 +402,7 @@ namespace {
        "If not given, the system locale will be assumed")
       ("encoded-by,e", po::value<string>(), "Set the TENC, or Encoded By frame")
       ("genre,g", po::value<string>(), "Set the TCON, or Content time frame")
-      ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the tag "
+      ("tag,t", po::value<vector<count_arg>>(), "Zero-based index of the tag "
        "on which to operate; may be given more than once to select "
        "multiple tags")
       ("title,T", po::value<string>(), "Set the TIT2, or Title/Songname/Content"
@@ -511,7 +511,8 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        tags = vm["tag"].as<vector<size_t>>();
+        const auto &args = vm["tag"].as<vector<count_arg>>();
+        tags.assign(args.begin(), args.end());
       }
 
       typedef typename tagset_processor::v2_creation_policy v2_creation_policy;
diff --git a/src/xtag.cc b/src/xtag.cc
index 8d660c0..e23e1e1 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -514,7 +514,7 @@ namespace {
       ("merge,m", po::bool_switch(), "Merge the given tags, don't overwrite")
       ("owner,o", po::value<string>(), "Operate only on XTAG frames with "
        "this owner, or specify the owner in case an XTAG frame is being created")
-      ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the tag "
+      ("tag,t", po::value<vector<count_arg>>(), "Zero-based index of the tag "
        "on which to operate; may be given more than once to select "
        "multiple tags")
       ("xtags,T", po::value<string>(), "Tags to be set or merged "
@@ -597,7 +597,8 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        tags = vm["tag"].as<vector<size_t>>();
+        const auto &args = vm["tag"].as<vector<count_arg>>();
+        tags.assign(args.begin(), args.end());
       }
 
       typedef typename tagset_processor::v2_creation_policy v2_creation_policy;
-- 
2.43.0


From d842040f5e01f6e645fce3b987f9c2e4895389bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:56:16 +0000
Subject: [PATCH 135/136] fix: copy the encoding set on a stream along with its
 other formatting

---
 scribbu/ostream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/ostream.cc b/scribbu/ostream.cc
index 632e931..adbb779 100644
--- a/scribbu/ostream.cc
+++ b/scribbu/ostream.cc
@@ -80,7 +80,7 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
 
   if (ios_base::erase_event == e) {
     try {
-      delete reinterpret_cast<char*>(ios.pword(idx));
+      delete reinterpret_cast<ienc*>(ios.pword(idx));
     }
     catch (...) {
       // Nothing to be done-- either the stream is being destroyed, or
@@ -91,10 +91,10 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
   }
   else if (ios_base::copyfmt_event == e) {
     void *&p = ios.pword(idx);
-    char *pold = reinterpret_cast<char*>(p);
+    ienc *pold = reinterpret_cast<ienc*>(p);
     if (nullptr != pold) {
       try {
-        p = strdup(pold);
+        p = new ienc(*pold);
       }
       catch (...) {
         // We can't throw, and we have no return code. The only thing
-- 
2.43.0


From 8e5d70027432d75f00bd79b7b14101e4dd3fb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:56:57 +0000
Subject: [PATCH 136/136] fix: let a printing format be set on several streams

---
 scribbu/pprinter.cc | 5 ++---
 scribbu/pprinter.hh | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 0d1099f..a53836d 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -326,9 +326,8 @@ scribbu::operator<<(std::ostream &os, const pprint_manipulator &x)
 scribbu::pprinter*
 scribbu::pprint_manipulator::take() const
 {
-  pprinter *p = pp_;
-  pp_ = nullptr;
-  return p;
+  // The manipulator may be inserted again, so keep our own instance.
+  return pp_->clone();
 }
 
 /*static*/ int
diff --git a/scribbu/pprinter.hh b/scribbu/pprinter.hh
index 0e1b3c2..e947bbe 100644
--- a/scribbu/pprinter.hh
+++ b/scribbu/pprinter.hh
@@ -395,7 +395,7 @@ namespace scribbu {
     friend std::ostream&
     operator<<(std::ostream &os, const pprint_manipulator &c);
 
-    /// Retrieve our underlying pprinter; caller takes ownership
+    /// Retrieve a copy of our underlying pprinter; caller takes ownership
     pprinter* take() const;
     /// Imbue \a os with our pretty printer
     static void do_manip(const pprint_manipulator &manip, std::ostream &os);
@@ -404,7 +404,7 @@ namespace scribbu {
     static void callback(std::ios_base::event e, std::ios_base &ios, int idx);
     /// pprinter instances constructed by this manipulator; will be copied over
     /// to the stream (and eventually destroyed by `callback')
-    mutable pprinter *pp_;
+    pprinter *pp_;
 
   }; // End class pprint_manipulator.
 
-- 
2.43.0

