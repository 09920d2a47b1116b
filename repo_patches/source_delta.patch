From ce876c48585ddc24f0593e84a5ac94ae7689a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 01/80] fix: bits::cnt32 overflowed for words with more than 15
 set bits in alternating nibbles

---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..c706cb4 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x>>4)) & 0x0f0f0f0f;
+    return 0x01010101*x >> 24;
 }
 
 
-- 
2.43.0


From c86e05a5ee0f94653a38dfb603f636ead144a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 02/80] fix: uint256_t << 0 shifted a 128-bit value by 128
 (undefined, wrong result)

---
 include/sdsl/uint256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..07e9b59 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,7 +157,7 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x)) >> 1);
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-- 
2.43.0


From f19d683d4196931918fb9f48cc31d456295eff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 03/80] fix: util::set_to_value shifted by 64 for 64-bit wide
 vectors (undefined behaviour)

---
 include/sdsl/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..161e844 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -496,7 +496,7 @@ void util::set_to_value(t_int_vec& v, uint64_t k)
         vals++;
         if (offset >= 64) {
             vec[n+1] = 0;
-            vec[++n] = k >> (int_width-(offset-64));
+            vec[++n] = offset > 64 ? k >> (int_width-(offset-64)) : 0;
             offset -= 64;
         }
     } while (offset != 0);
-- 
2.43.0


From 2aaeed7dd94aa3d887d0af9a4b497f10ea4faf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 04/80] fix: util::next_bit returned positions behind the end
 of the vector

---
 include/sdsl/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index 161e844..96f3ff3 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,12 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        return std::min<uint64_t>(idx+bits::lo(node), v.bit_size());
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min<uint64_t>((pos<<6)|bits::lo(v.data()[pos]), v.bit_size());
             }
             ++pos;
         }
-- 
2.43.0


From 8ce1e13461424fc9539c0b26e67272055014b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 05/80] fix: int_vector::operator== ignored the integer width,
 contrary to its documentation

---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..9d8de37 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1452,6 +1452,8 @@ bool int_vector<t_width>::operator==(const int_vector& v)const
         return false;
     if (bit_size() != v.bit_size())
         return false;
+    if (width() != v.width())
+        return false;
     if (empty())
         return true;
     const uint64_t* data1 = v.data();
-- 
2.43.0


From f627547d5aae5cbf946d13306a8752ab0dea3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 06/80] fix: int_vector_buffer::iterator::operator- returned a
 reference to a local

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..c15d285 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -549,7 +549,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From c666581bb7b57a30050e5dca3a08a38ac6425de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 07/80] fix: moving an int_vector_mapper lost the mapping, its
 size bookkeeping and leaked descriptors

---
 include/sdsl/int_vector_mapper.hpp | 36 ++++++++++++++----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..858f9d9 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -34,6 +34,17 @@ class int_vector_mapper
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
         int_vector_mapper& operator=(const int_vector_mapper&) = delete;
+    private:
+        void swap_members(int_vector_mapper& ivm)
+        {
+            std::swap(m_mapped_data, ivm.m_mapped_data);
+            std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+            std::swap(m_data_offset, ivm.m_data_offset);
+            std::swap(m_fd, ivm.m_fd);
+            m_wrapper.swap(ivm.m_wrapper);
+            m_file_name.swap(ivm.m_file_name);
+            std::swap(m_delete_on_close, ivm.m_delete_on_close);
+        }
     public:
         ~int_vector_mapper()
         {
@@ -95,29 +106,16 @@ class int_vector_mapper
             m_wrapper.m_data = nullptr;
             m_wrapper.m_size = 0;
         }
-        int_vector_mapper(int_vector_mapper&& ivm)
+        int_vector_mapper(int_vector_mapper&& ivm) : m_delete_on_close(false)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            swap_members(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                int_vector_mapper tmp(std::move(ivm));
+                swap_members(tmp); // tmp releases the old mapping
+            }
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
-- 
2.43.0


From 18f23dfa0777272af2b5be7946e0d55f79d266bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 08/80] fix: int_vector_mapper leaked the initial allocation of
 its wrapper vector

---
 include/sdsl/int_vector_mapper.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 858f9d9..10b4bf7 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -108,6 +108,7 @@ class int_vector_mapper
         }
         int_vector_mapper(int_vector_mapper&& ivm) : m_delete_on_close(false)
         {
+            memory_manager::clear(m_wrapper); // the wrapper never owns memory
             swap_members(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
@@ -127,6 +128,7 @@ class int_vector_mapper
                           bool delete_on_close = false) :
             m_file_name(filename), m_delete_on_close(delete_on_close)
         {
+            memory_manager::clear(m_wrapper); // the wrapper never owns memory
             size_type size_in_bits = 0;
             uint8_t int_width = t_width;
             {
-- 
2.43.0


From 34d27729414ef043faa70bf6421f3b4a732ae967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 09/80] fix: closing an int_vector_mapper padded plain files to
 a multiple of 8 bytes

---
 include/sdsl/int_vector_mapper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 10b4bf7..09a503c 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -78,6 +78,9 @@ class int_vector_mapper
                     // do we have to truncate?
                     size_type current_bit_size = m_wrapper.m_size;
                     size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
+                    if (m_data_offset == 0) { // plain files are not padded to full words
+                        data_size_in_bytes = (current_bit_size + 7) >> 3;
+                    }
                     if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
                         int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
                         if (tret == -1) {
-- 
2.43.0


From 99f229acba07c69c1c865eff7abed78b2e26651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 10/80] fix: select_0_support_sd read behind the end of the
 high part (out of bounds for compressed high parts)

---
 include/sdsl/sd_vector.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/sd_vector.hpp b/include/sdsl/sd_vector.hpp
index 627d70d..ed7e464 100644
--- a/include/sdsl/sd_vector.hpp
+++ b/include/sdsl/sd_vector.hpp
@@ -666,6 +666,12 @@ class select_0_support_sd
         const bit_vector_type* m_v;
         int_vector<>           m_pointer;
         int_vector<>           m_rank1;
+
+        // 64 bits of the high part; the last word may be incomplete
+        uint64_t high_word(size_type i)const
+        {
+            return m_v->high.get_int(i, std::min((size_type)64, m_v->high.size()-i));
+        }
     public:
 
         explicit select_0_support_sd(const bit_vector_type* v=nullptr)
@@ -682,7 +688,7 @@ class select_0_support_sd
                 uint64_t w=0;
                 for (size_type i=0, sel0=1; i < m_v->high.size(); i+=64) {
                     size_type old_rank1 = rank1;
-                    w = m_v->high.get_int(i, 64);
+                    w = high_word(i);
                     rank1 += bits::cnt(w);
                     rank_0 = (i+64)-rank1;
                     if (rank1 > 0 and (w>>63)&1) {
@@ -716,7 +722,7 @@ class select_0_support_sd
                 pos  = (j-rank1)*bs;// starting position of current block
                 rank0 = pos-rank1;
             }
-            uint64_t w = m_v->high.get_int(j, 64);
+            uint64_t w = high_word(j);
             do {
                 uint64_t _rank1 = rank1 + bits::cnt(w);
                 uint64_t _rank0 = 0;
@@ -729,7 +735,7 @@ class select_0_support_sd
                 }
                 if (_rank0 < i) {
                     j+=64;
-                    w = m_v->high.get_int(j, 64);
+                    w = high_word(j);
                     rank1 = _rank1;
                 } else {
                     break;
@@ -777,7 +783,7 @@ class select_0_support_sd
                     }
                 }
                 if (j%64==0) {
-                    w = m_v->high.get_int(j,64);
+                    w = high_word(j);
                 }
             } while (true);
             return pos;
-- 
2.43.0


From 793cddff0f8c0a3acc377c74cb6f4afb5107431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 11/80] fix: comma coder with 31 or 32 bit digits did not
 compile (overflow in base)

---
 include/sdsl/coder_comma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/coder_comma.hpp b/include/sdsl/coder_comma.hpp
index d2c1a7c..d466d99 100644
--- a/include/sdsl/coder_comma.hpp
+++ b/include/sdsl/coder_comma.hpp
@@ -66,7 +66,7 @@ class comma
         }
 
         //base in which numbers are coded
-        static const uint32_t base = (1 << t_width) - 1;
+        static const uint32_t base = (uint32_t)((1ULL << t_width) - 1);
 
         //table needed for computation of encoding lengths.
         //table contains entries of the kind (index, base^index)
-- 
2.43.0


From 31e029e744970513808623cf57ab43fca5f223cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 12/80] fix: Fibonacci code words of numbers without a low
 order term were garbage (negative shift)

---
 include/sdsl/coder_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1b4256f..9c0845a 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -211,7 +211,7 @@ inline bool fibonacci::encode(const int_vector1& v, int_vector2& z)
                         fibword_high <<= 1;
                         --j;
                     } else {
-                        fibword_high <<= (64-j);
+                        fibword_high <<= (j-64);
                         break;
                     }
                 }
@@ -272,7 +272,7 @@ inline void fibonacci::encode(uint64_t x, uint64_t*& z, uint8_t& offset)
                     fibword_high <<= 1;
                     --j;
                 } else {
-                    fibword_high <<= (64-j);
+                    fibword_high <<= (j-64);
                     break;
                 }
             }
-- 
2.43.0


From 3bea1e55cca3b2b52819c3c9bbd83e28e24dce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 13/80] fix: decoding the Elias codes of 2^64 shifted by 64
 (undefined behaviour)

---
 include/sdsl/coder_elias_delta.hpp | 2 +-
 include/sdsl/coder_elias_gamma.hpp | 2 +-
 lib/coder_elias_delta.cpp          | 4 ++--
 lib/coder_elias_gamma.cpp          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/coder_elias_delta.hpp b/include/sdsl/coder_elias_delta.hpp
index 5ecd5ec..62adc75 100644
--- a/include/sdsl/coder_elias_delta.hpp
+++ b/include/sdsl/coder_elias_delta.hpp
@@ -245,7 +245,7 @@ inline uint64_t elias_delta::decode(const uint64_t* d, const size_type start_idx
             value += 1;
         } else {
             len 	=  bits::read_int_and_move(d, offset, len_1_len) + (1ULL << len_1_len);
-            value	+= bits::read_int_and_move(d, offset, len-1) + (len-1<64) * (1ULL << (len-1));
+            value	+= bits::read_int_and_move(d, offset, len-1) + (len-1<64 ? 1ULL << (len-1) : 0);
         }
         if (t_inc) *(it++) = value;
     }
diff --git a/include/sdsl/coder_elias_gamma.hpp b/include/sdsl/coder_elias_gamma.hpp
index 8d96db2..6f29926 100644
--- a/include/sdsl/coder_elias_gamma.hpp
+++ b/include/sdsl/coder_elias_gamma.hpp
@@ -242,7 +242,7 @@ inline uint64_t elias_gamma::decode(const uint64_t* d, const size_type start_idx
         if (!len_1) {
             value += 1;
         } else {
-            value +=  bits::read_int_and_move(d, offset, len_1) + (len_1<64) * (1ULL << len_1);
+            value +=  bits::read_int_and_move(d, offset, len_1) + (len_1<64 ? 1ULL << len_1 : 0);
         }
         if (t_inc) *(it++) = value;
     }
diff --git a/lib/coder_elias_delta.cpp b/lib/coder_elias_delta.cpp
index cef7556..c8b6b52 100644
--- a/lib/coder_elias_delta.cpp
+++ b/lib/coder_elias_delta.cpp
@@ -165,7 +165,7 @@ begin_decode:
 //					std::cerr<<"len_1="<<len_1<<" buffered = "<<buffered<<std::endl;
 //				}
 //				assert(len_1 <= buffered);
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64) * (1ULL << (len_1));
+                value	+= (w&bits::lo_set[len_1]) + (len_1<64 ? 1ULL << len_1 : 0);
                 buffered -= len_1;
                 if (len_1 < 64) {
                     w >>= len_1;
@@ -286,7 +286,7 @@ decode_single:
             i++;
             uint16_t len_1_len = bits::read_unary_and_move(d, offset); // read length of length of x
             uint16_t len_1 	=  bits::read_int_and_move(d, offset, len_1_len) + (1ULL << len_1_len) - 1;
-            value	+= bits::read_int_and_move(d, offset, len_1) + (len_1<64) * (1ULL << (len_1));
+            value	+= bits::read_int_and_move(d, offset, len_1) + (len_1<64 ? 1ULL << len_1 : 0);
 //			std::cout<<"decode single ("<<len_1_len<<","<<len_1<<","<<value<<")"<<std::endl;
         }
     }
diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..69791e5 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -120,7 +120,7 @@ begin_decode:
                         };
                     }
                 }
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64) * (1ULL << len_1);
+                value	+= (w&bits::lo_set[len_1]) + (len_1<64 ? 1ULL << len_1 : 0);
                 buffered -= len_1;
                 if (len_1 < 64) {
                     w >>= len_1;
@@ -238,7 +238,7 @@ start_decoding:
 decode_single:
             i++;
             uint16_t len_1 = bits::read_unary_and_move(d, offset); // read length of length of x
-            value	+= bits::read_int_and_move(d, offset, len_1) + (len_1<64) * (1ULL << len_1);
+            value	+= bits::read_int_and_move(d, offset, len_1) + (len_1<64 ? 1ULL << len_1 : 0);
         }
     }
     return value;
-- 
2.43.0


From 552cfaba410f6e131c562f2ae727a6789c1ae0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 14/80] fix: Elias decode_prefix_sum read one word behind the
 encoded bitstring

---
 lib/coder_elias_delta.cpp | 11 ++++++++++-
 lib/coder_elias_gamma.cpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/coder_elias_delta.cpp b/lib/coder_elias_delta.cpp
index c8b6b52..397ae5e 100644
--- a/lib/coder_elias_delta.cpp
+++ b/lib/coder_elias_delta.cpp
@@ -195,6 +195,13 @@ begin_decode:
 }
 
 
+//! Check if len bits at the given offset can be read without leaving the words which contain the remaining codewords
+// (each of them takes at least one bit).
+static inline bool can_peek(uint8_t offset, uint8_t len, uint64_t remaining)
+{
+    return offset+len <= 64 or offset+remaining > 64;
+}
+
 uint64_t elias_delta::decode_prefix_sum(const uint64_t* d, const size_type start_idx, size_type n)
 {
     if (n==0)
@@ -253,12 +260,14 @@ start_decoding:
                 continue;
         }
         while (i < n) {
+            if (!can_peek(offset, 16, n-i)) // do not read behind the end of the bitstring
+                goto decode_single;
             uint32_t psum = elias_delta::data.prefixsum[bits::read_int(d, offset, 16)];
 //			if( psum == 0 or i+((psum>>16)&0x00FF) > n ){ // value does not fit in 16 bits
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
             } else if (i+((psum>>16)&0x00FF) > n) { // decoded too much
-                if (n-i <= 8) {
+                if (n-i <= 8 and can_peek(offset, 8, n-i)) {
                     psum = elias_delta::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
                     if (psum > 0) {
                         value += (psum&0xF);
diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 69791e5..8151093 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -148,6 +148,13 @@ begin_decode:
 }
 
 
+//! Check if len bits at the given offset can be read without leaving the words which contain the remaining codewords
+// (each of them takes at least one bit).
+static inline bool can_peek(uint8_t offset, uint8_t len, uint64_t remaining)
+{
+    return offset+len <= 64 or offset+remaining > 64;
+}
+
 uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, size_type n)
 {
     if (n==0)
@@ -207,11 +214,13 @@ start_decoding:
         }
 
         while (i < n) {
+            if (!can_peek(offset, 16, n-i)) // do not read behind the end of the bitstring
+                goto decode_single;
             uint32_t psum = elias_gamma::data.prefixsum[bits::read_int(d, offset, 16)];
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
             } else if (i+((psum>>16)&0x00FF) > n) { // decoded too much
-                if (n-i <= 8) {
+                if (n-i <= 8 and can_peek(offset, 8, n-i)) {
                     psum = elias_gamma::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
                     if (psum > 0) {
                         value += (psum&0xFF);
-- 
2.43.0


From 863ec1dabbbab1c08b7a9a9d2e4517046692b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 15/80] fix: Elias decode_prefix_sum with end index read behind
 the bitstring and shifted by 64

---
 lib/coder_elias_delta.cpp | 185 +-------------------------------------
 lib/coder_elias_gamma.cpp | 138 +---------------------------
 2 files changed, 4 insertions(+), 319 deletions(-)

diff --git a/lib/coder_elias_delta.cpp b/lib/coder_elias_delta.cpp
index 397ae5e..46b80bf 100644
--- a/lib/coder_elias_delta.cpp
+++ b/lib/coder_elias_delta.cpp
@@ -8,190 +8,9 @@ namespace coder
 
 elias_delta::impl elias_delta::data;
 
-uint64_t elias_delta::decode_prefix_sum(const uint64_t* d, const size_type start_idx, const size_type end_idx, size_type n)
+uint64_t elias_delta::decode_prefix_sum(const uint64_t* d, const size_type start_idx, SDSL_UNUSED const size_type end_idx, size_type n)
 {
-    if (n==0)
-        return 0;
-    const uint64_t* lastdata = d + ((end_idx+63) >> 6);
-    d += (start_idx >> 6);
-    uint64_t w = 0, value = 0;
-    int16_t buffered = 0, read = start_idx & 0x3F;
-    size_type i = 0;
-    if (n + read <= 64) {
-        if (((*d >> read)&bits::lo_set[n]) == bits::lo_set[n])
-            return n;
-    } else { // n+read > 64
-        if ((*d >> read) == bits::lo_set[64-read]) {// all bits are set to 1
-            value = 64-read;
-            ++d;
-            n -= (64-read);
-            read = 0;
-            while (n >= 64) {
-                if (*d == 0xFFFFFFFFFFFFFFFFULL) {
-                    value += 64;
-                    ++d;
-                    n -= 64;
-                } else
-                    goto start_decoding;
-            }
-            // 0 <= n <= 64
-            if ((*d&bits::lo_set[n]) == bits::lo_set[n])
-                return value + n;
-        }
-    }
-
-start_decoding:
-    while (i<n) {
-        while (buffered < 64 and d < lastdata) {
-fill_buffer:
-            w |= (((*d)>>read)<<buffered);
-            if (read >= buffered) {
-                ++d;
-                buffered += 64-read;
-                read = 0;
-            } else { // read buffered
-                read += 64-buffered;
-                buffered = 64;
-            }
-        }
-        /*		if(w==0xFFFFFFFFFFFFFFFFULL){
-        			i += 64;
-        			value += 64;
-        			if(i >= n)
-        				return value - (i-n);
-        			buffered = 0;
-        			w = 0;
-        		//	continue;
-        			goto fill_buffer;
-        		}
-        */
-//		uint32_t rbp = (w == 0xFFFFFFFFFFFFFFFFULL)?64:bits::lo(~w);
-        uint32_t rbp = bits::lo(~w);
-        if (rbp > 0) {
-            i += rbp;
-            value += rbp;
-            if (i >= n) { // decoded too much
-                return value - (i-n); // return corrected value
-            }
-            assert(buffered >= rbp);
-            buffered -= rbp;
-            w >>= rbp;
-            if (buffered<16)
-//				continue;
-                goto fill_buffer;
-        }
-//		assert(w!=0xFFFFFFFFFFFFFFFFULL);
-//		else
-        {
-            // i < n
-begin_decode:
-            uint32_t psum = elias_delta::data.prefixsum[w&0x0000FFFF];
-            if (!psum or i+((psum>>16)&0x00FF) > n) {
-                if (w==0) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (!w) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				assert(w>0);
-                uint16_t len_1_len = bits::lo(w); // read length of length
-                buffered -= (len_1_len+1);
-                w >>= (len_1_len+1);
-                if (len_1_len > buffered) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (len_1_len > buffered) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				assert(len_1_len <= buffered);
-                uint16_t len_1 = (w&bits::lo_set[len_1_len]) + (1ULL << len_1_len) - 1;
-                buffered -= len_1_len;
-                w >>= len_1_len;
-                if (len_1 > buffered) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (len_1 > buffered) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				if( len_1 > buffered ){
-//					std::cerr<<"len_1="<<len_1<<" buffered = "<<buffered<<std::endl;
-//				}
-//				assert(len_1 <= buffered);
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64 ? 1ULL << len_1 : 0);
-                buffered -= len_1;
-                if (len_1 < 64) {
-                    w >>= len_1;
-                } else {
-                    w = 0;
-                }
-                ++i;
-                if (i==n)
-                    return value;
-                if (buffered>=16)
-                    goto begin_decode;
-            } else {
-                value += (psum&0x0000FFFF);
-                i += ((psum>>16)&0x00FF);
-                if (i==n)
-                    return value;
-                buffered -= (psum>>24);
-                w >>= (psum>>24);
-                if (buffered>=16)
-                    goto begin_decode;
-            }
-        }
-//		std::cerr<<i<<" / "<<n<<std::endl;
-    };
-//	std::cerr<<value<<std::endl;
-    return value;
+    return decode_prefix_sum(d, start_idx, n);
 }
 
 
diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 8151093..0a11c17 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -8,143 +8,9 @@ namespace coder
 
 elias_gamma::impl elias_gamma::data;
 
-uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, const size_type end_idx, size_type n)
+uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, SDSL_UNUSED const size_type end_idx, size_type n)
 {
-    if (n==0)
-        return 0;
-    const uint64_t* lastdata = d + ((end_idx+63) >> 6);
-    d += (start_idx >> 6);
-    uint64_t w = 0, value = 0;
-    int16_t buffered = 0, read = start_idx & 0x3F;
-    size_type i = 0;
-    if (n + read <= 64) {
-        if (((*d >> read)&bits::lo_set[n]) == bits::lo_set[n])
-            return n;
-    } else { // n+read > 64
-        if ((*d >> read) == bits::lo_set[64-read]) {// all bits are set to 1
-            value = 64-read;
-            ++d;
-            n -= (64-read);
-            read = 0;
-            while (n >= 64) {
-                if (*d == 0xFFFFFFFFFFFFFFFFULL) {
-                    value += 64;
-                    ++d;
-                    n -= 64;
-                } else
-                    goto start_decoding;
-            }
-            // 0 <= n <= 64
-            if ((*d&bits::lo_set[n]) == bits::lo_set[n])
-                return value + n;
-        }
-    }
-
-start_decoding:
-    while (i<n) {
-        while (buffered < 64 and d < lastdata) {
-fill_buffer:
-            w |= (((*d)>>read)<<buffered);
-            if (read >= buffered) {
-                ++d;
-                buffered += 64-read;
-                read = 0;
-            } else { // read buffered
-                read += 64-buffered;
-                buffered = 64;
-            }
-        }
-        uint32_t rbp = bits::lo(~w);
-        if (rbp > 0) {
-            i += rbp;
-            value += rbp;
-            if (i >= n) { // decoded too much
-                return value - (i-n); // return corrected value
-            }
-            assert(buffered >= rbp);
-            buffered -= rbp;
-            w >>= rbp;
-            if (buffered<16)
-                goto fill_buffer;
-        }
-        {
-            // i < n
-begin_decode:
-            uint32_t psum = elias_gamma::data.prefixsum[w&0x0000FFFF];
-            if (!psum or i+((psum>>16)&0x00FF) > n) {
-                if (w==0) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (!w) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				assert(w>0);
-                uint16_t len_1 = bits::lo(w); // read length of length
-                buffered -= (len_1+1);
-                w >>= (len_1+1);
-                if (len_1 > buffered) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (len_1 > buffered) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64 ? 1ULL << len_1 : 0);
-                buffered -= len_1;
-                if (len_1 < 64) {
-                    w >>= len_1;
-                } else {
-                    w = 0;
-                }
-                ++i;
-                if (i==n)
-                    return value;
-                if (buffered>=16)
-                    goto begin_decode;
-            } else {
-                value += (psum&0x0000FFFF);
-                i += ((psum>>16)&0x00FF);
-                if (i==n)
-                    return value;
-                buffered -= (psum>>24);
-                w >>= (psum>>24);
-                if (buffered>=16)
-                    goto begin_decode;
-            }
-        }
-    };
-    return value;
+    return decode_prefix_sum(d, start_idx, n);
 }
 
 
-- 
2.43.0


From 563fad5ba3e5c12b3fb753fdf3a1d7e3e0741717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 16/80] fix: enc_vector corrupted non-monotone sequences from
 containers narrower than 64 bits

---
 include/sdsl/enc_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/enc_vector.hpp b/include/sdsl/enc_vector.hpp
index 45a6074..a01d47b 100644
--- a/include/sdsl/enc_vector.hpp
+++ b/include/sdsl/enc_vector.hpp
@@ -223,7 +223,7 @@ enc_vector<t_coder, t_dens,t_width>::enc_vector(const Container& c)
     if (c.empty())  // if c is empty there is nothing to do...
         return;
     typename Container::const_iterator    it             = c.begin(), end = c.end();
-    typename Container::value_type         v1            = *it, v2, max_sample_value=0, x;
+    value_type                            v1            = *it, v2, max_sample_value=0, x; // deltas are computed modulo 2^64
     size_type samples=0;
     size_type z_size = 0;
 //  (1) Calculate maximal value of samples and of deltas
-- 
2.43.0


From 1bfac46c8ece9972c720add10a96cb3021af9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 17/80] fix: wt_int and wm_int failed on sequences with 64-bit
 symbols and on empty sequences

---
 include/sdsl/wm_int.hpp       | 11 +++++------
 include/sdsl/wt_algorithm.hpp |  8 ++++----
 include/sdsl/wt_int.hpp       | 19 +++++++++----------
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..f486122 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,11 +325,11 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
-            uint64_t mask = (1ULL) << (m_max_level-1);
+            uint64_t mask = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             for (uint32_t k=0; k < m_max_level and i; ++k) {
                 size_type rank_b = m_tree_rank(b);
                 size_type ones   = m_tree_rank(b + i) - rank_b; // ones in [b..i)
@@ -359,7 +359,7 @@ class wm_int
             assert(i < size());
             value_type c = 0;
             size_type b = 0; // start position of the interval
-            uint64_t mask = (1ULL) << (m_max_level-1);
+            uint64_t mask = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             for (uint32_t k=0; k < m_max_level; ++k) {
                 size_type rank_b = m_tree_rank(b);
                 size_type ones   = m_tree_rank(b + i) - rank_b; // ones in [b..i)
@@ -390,7 +390,7 @@ class wm_int
         size_type select(size_type i, value_type c)const
         {
             assert(1 <= i and i <= rank(size(), c));
-            uint64_t mask = 1ULL << (m_max_level-1);
+            uint64_t mask = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             int_vector<64> m_path_off(max_level+1);
             int_vector<64> m_path_rank_off(max_level+1);
             m_path_off[0] = m_path_rank_off[0] = 0;
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..6bfa8a4 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,13 +325,13 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (c > bits::lo_set[wt.max_level]) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
     auto node = wt.root();
     auto predecessor_subtree = node;
-    uint64_t mask = (1ULL) << (wt.max_level - 1);
+    uint64_t mask = bits::lo_set[wt.max_level] ^ (bits::lo_set[wt.max_level] >> 1);
     while (!wt.is_leaf(node)) {
         auto children = wt.expand(node);
         auto left_child = std::get<0>(children);
@@ -375,13 +375,13 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (c > bits::lo_set[wt.max_level]) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
     auto node = wt.root();
     auto successor_subtree = node;
-    uint64_t mask = (1ULL) << (wt.max_level - 1);
+    uint64_t mask = bits::lo_set[wt.max_level] ^ (bits::lo_set[wt.max_level] >> 1);
     while (!wt.is_leaf(node)) {
         auto children = wt.expand(node);
         auto left_child = std::get<0>(children);
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..414bbbc 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = m_max_level < 64 ? 1ULL<<m_max_level : 0;
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,11 +355,11 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
-            uint64_t mask = (1ULL) << (m_max_level-1);
+            uint64_t mask = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             size_type node_size = m_size;
             for (uint32_t k=0; k < m_max_level and i; ++k) {
                 size_type ones_before_o   = m_tree_rank(offset);
@@ -426,7 +426,7 @@ class wt_int
             assert(1 <= i and i <= rank(size(), c));
             // possible optimization: if the array is a permutation we can start at the bottom of the tree
             size_type offset = 0;
-            uint64_t mask    = (1ULL) << (m_max_level-1);
+            uint64_t mask    = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             size_type node_size = m_size;
             int_vector<64> m_path_off(max_level+1);
             int_vector<64> m_path_rank_off(max_level+1);
@@ -524,13 +524,13 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
             size_type smaller = 0;
             size_type greater = 0;
-            uint64_t mask     = (1ULL) << (m_max_level-1);
+            uint64_t mask     = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             size_type node_size = m_size;
             for (uint32_t k=0; k < m_max_level; ++k) {
                 size_type ones_before_o   = m_tree_rank(offset);
@@ -568,12 +568,12 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
             size_type result = 0;
-            uint64_t mask    = (1ULL) << (m_max_level-1);
+            uint64_t mask    = bits::lo_set[m_max_level] ^ (bits::lo_set[m_max_level]>>1);
             size_type node_size = m_size;
             for (uint32_t k=0; k < m_max_level and i; ++k) {
                 size_type ones_before_o   = m_tree_rank(offset);
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From 95a541bb102f4158bff5e559569810b494c87515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 18/80] fix: range_search_2d reported the largest symbol for
 value ranges starting right behind it

---
 include/sdsl/wm_int.hpp | 4 ++--
 include/sdsl/wt_int.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index f486122..ec222f6 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 414bbbc..2b5a850 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
-- 
2.43.0


From 11a3f6818b2448a4b00ba6b2ede3baa5f7bc4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 19/80] fix: seq(node) of wavelet trees kept a reference to its
 argument

---
 include/sdsl/wm_int.hpp | 2 +-
 include/sdsl/wt_int.hpp | 2 +-
 include/sdsl/wt_pc.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index ec222f6..632b40f 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -612,7 +612,7 @@ class wm_int
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i)
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i)
             {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 2b5a850..c9f725c 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -771,7 +771,7 @@ class wt_int
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i) {
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i) {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
                     auto vs = expand(vv);
diff --git a/include/sdsl/wt_pc.hpp b/include/sdsl/wt_pc.hpp
index 9d8fb13..0b56a84 100644
--- a/include/sdsl/wt_pc.hpp
+++ b/include/sdsl/wt_pc.hpp
@@ -689,7 +689,7 @@ class wt_pc
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i)
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i)
             {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
-- 
2.43.0


From 1dcb3c75b7ca4a22cb9a4c78c04540a80ea37147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 20/80] fix: wt_pc::path shifted by 64 for a wavelet tree of
 one symbol

---
 include/sdsl/wt_pc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/wt_pc.hpp b/include/sdsl/wt_pc.hpp
index 0b56a84..562e452 100644
--- a/include/sdsl/wt_pc.hpp
+++ b/include/sdsl/wt_pc.hpp
@@ -842,7 +842,7 @@ class wt_pc
             uint64_t path_len = path >> 56;
             // reverse the path till we fix the ordering
             path = bits::rev(path);
-            path = path >> (64-path_len); // remove the length
+            path = path_len ? path >> (64-path_len) : 0; // remove the length
             return {path_len,path};
         }
 
-- 
2.43.0


From fca461ef98730d49087acdcb84aa03b2c06bcd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 21/80] fix: byte-alphabet wavelet trees of empty sequences
 used uninitialised symbol tables

---
 include/sdsl/wt_helper.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index ae9a161..2fcb104 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -159,7 +159,12 @@ struct _byte_tree {
             m_path[i] = bt.m_path[i];
     }
 
-    _byte_tree() {}
+    _byte_tree() {
+        for (uint32_t i=0; i<fixed_sigma; ++i) {
+            m_c_to_leaf[i] = undef;
+            m_path[i] = 0;
+        }
+    }
 
     _byte_tree(const std::vector<pc_node>& temp_nodes, uint64_t& bv_size, const t_wt*) {
         m_nodes.resize(temp_nodes.size());
-- 
2.43.0


From bd0dd68b44db3f2a8d00cea580a8e6c11698f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 22/80] fix: DFS tree layout of wt_pc linked children in the
 wrong order

---
 include/sdsl/wt_helper.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index 2fcb104..33d99f9 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -171,7 +171,6 @@ struct _byte_tree {
         m_nodes[0] = temp_nodes.back(); // insert root at index 0
         bv_size = 0;
         size_t node_cnt = 1;
-        node_type last_parent = undef;
         std::deque<node_type> q;
         q.push_back(0);
         while (!q.empty()) {
@@ -186,13 +185,6 @@ struct _byte_tree {
             m_nodes[idx].bv_pos = bv_size;
             if (m_nodes[idx].child[0] != undef) // if node is not a leaf
                 bv_size += frq;               // add frequency
-            if (idx > 0) { // node is not the root
-                if (last_parent != m_nodes[idx].parent)
-                    m_nodes[m_nodes[idx].parent].child[0] = idx;
-                else
-                    m_nodes[m_nodes[idx].parent].child[1] = idx;
-                last_parent = m_nodes[idx].parent;
-            }
             if (m_nodes[idx].child[0] != undef) { // if node is not a leaf
                 for (uint32_t k=0; k<2; ++k) {       // add children to tree
                     m_nodes[node_cnt] = temp_nodes[ m_nodes[idx].child[k] ];
@@ -200,6 +192,8 @@ struct _byte_tree {
                     q.push_back(node_cnt);
                     m_nodes[idx].child[k] = node_cnt++;
                 }
+                if (t_dfs_shape) // visit the left child first
+                    std::swap(q[q.size()-1], q[q.size()-2]);
             }
         }
         // initialize m_c_to_leaf
@@ -409,7 +403,6 @@ struct _int_tree {
         m_nodes[0] = temp_nodes.back(); // insert root at index 0
         bv_size = 0;
         size_t node_cnt = 1;
-        node_type last_parent = undef;
         std::deque<node_type> q;
         q.push_back(0);
         uint64_t max_c = 0;
@@ -428,13 +421,6 @@ struct _int_tree {
             } else if (max_c < m_nodes[idx].bv_pos_rank) { // node is leaf and contains large symbol
                 max_c = m_nodes[idx].bv_pos_rank;
             }
-            if (idx > 0) { // node is not the root
-                if (last_parent != m_nodes[idx].parent)
-                    m_nodes[m_nodes[idx].parent].child[0] = idx;
-                else
-                    m_nodes[m_nodes[idx].parent].child[1] = idx;
-                last_parent = m_nodes[idx].parent;
-            }
             if (m_nodes[idx].child[0] != undef) { // if node is not a leaf
                 for (uint32_t k=0; k<2; ++k) {       // add children to tree
                     m_nodes[node_cnt] = temp_nodes[ m_nodes[idx].child[k] ];
@@ -442,6 +428,8 @@ struct _int_tree {
                     q.push_back(node_cnt);
                     m_nodes[idx].child[k] = node_cnt++;
                 }
+                if (t_dfs_shape) // visit the left child first
+                    std::swap(q[q.size()-1], q[q.size()-2]);
             }
         }
         // initialize m_c_to_leaf
-- 
2.43.0


From d823228315cacbbd80ffd6fef456540b7c6dce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 23/80] fix: suffix sorting of texts with symbols of 2^63 and
 above

qsufsort computes with signed values; symbols that do not fit are replaced by
their ranks first.
---
 include/sdsl/qsufsort.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sdsl/qsufsort.hpp b/include/sdsl/qsufsort.hpp
index e49def9..883487f 100644
--- a/include/sdsl/qsufsort.hpp
+++ b/include/sdsl/qsufsort.hpp
@@ -39,6 +39,8 @@
 #define DBG_OUT if(0)std::cout
 
 #include <sdsl/int_vector.hpp>
+#include <algorithm>
+#include <vector>
 
 namespace sdsl
 {
@@ -444,6 +446,20 @@ class sorter
                 return;
             }
 
+            uint64_t max_value = 0;
+            for (size_type i=0; i < x.size()-1; ++i) {
+                max_value = std::max(max_value, (uint64_t)x[i]);
+            }
+            if (max_value >> 63) { // the sorter uses signed arithmetic: replace symbols by their ranks
+                std::vector<uint64_t> symbols(x.begin(), x.end()-1);
+                std::sort(symbols.begin(), symbols.end());
+                symbols.erase(std::unique(symbols.begin(), symbols.end()), symbols.end());
+                uint64_t first_rank = symbols[0] > 0; // 0-symbol keeps its value
+                for (size_type i=0; i < x.size()-1; ++i) {
+                    x[i] = (std::lower_bound(symbols.begin(), symbols.end(), (uint64_t)x[i])-symbols.begin()) + first_rank;
+                }
+            }
+
             int64_t max_symbol = 0, min_symbol = x.width() < 64 ? bits::lo_set[x.width()] : 0x7FFFFFFFFFFFFFFFLL;
 
             for (size_type i=0; i < x.size()-1; ++i) {
-- 
2.43.0


From 72267d8a0d9ac0ad840666ec454f2e64a93c38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 24/80] fix: close the old LCP file before it is replaced, keep
 unknown values

insert_lcp_values renamed the new file over one still open for reading (the
in-memory file system then wrote the old header back), and dropped trailing
values which are still unknown.
---
 lib/construct_lcp_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..63b0eee 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,11 +35,14 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else {
+                out_buf[i] = 0; // value is still unknown
             }
             ++calc_idx;
         }
     }
-    // Close file and replace old file with new one
+    // Close files and replace old file with new one
+    lcp_buffer.close();
     out_buf.close();
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
-- 
2.43.0


From 7997d6fb29e28c223d45c03663d822e7fdd004f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 25/80] fix: construct_lcp_bwt_based on small inputs

The width of the first phase could be 0 or 1 (wrong values or no progress) and
the second phase divided by zero when no value was left.
---
 lib/construct_lcp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..a778231 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -652,7 +652,7 @@ void construct_lcp_bwt_based(cache_config& config)
     if (n*20 < size_in_bytes(wt_bwt)*8*1.25+5*n) {
         bb = 6;
     }
-    bb = std::min(bb, (size_type)8);
+    bb = std::max(std::min(bb, (size_type)8), (size_type)2); // the first phase has to cover more than LCP value 0
 
     size_type lcp_value_max = (1ULL<<bb)-1;       // Largest LCP value that can be stored into the LCP array
     size_type space_in_bit_for_lcp = n*bb;        // Space for the LCP array in main memory
@@ -819,7 +819,7 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
-            uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            uint8_t int_width_new = std::min(space_in_bit_for_lcp / std::max(remaining_lcp_values, (size_type)1), (size_type)bits::hi(n-1)+1);
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
             std::cout << "# l=" << remaining_lcp_values << " b=" << (int)int_width_new << " lcp_value_max=" << lcp_value_max << std::endl;
-- 
2.43.0


From 497aa9acb5be39076892e3a8385ff3771c889d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 26/80] fix: bwt.select of csa_wt and psi/lf.empty() of
 csa_bitcompressed

bwt_of_csa_wt::select called a function which does not exist, and
traverse_csa_saisa::empty called itself for ever.
---
 include/sdsl/suffix_array_helper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From 96fa60e36999ad6685f6fa7541332c90326695cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 27/80] fix: moved csa_wt/csa_sada kept ISA samples of the
 source object

The ISA sampling support has to be attached to the new SA samples.
---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From f92ed35ee96ec375707db654f28035175316a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 28/80] fix: move constructors of succinct_byte_alphabet and
 int_alphabet

They did not initialise the members referring to the object and could not be
compiled.
---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 47b1ac069f632a66accf0a1ef50148c72f4705cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 29/80] fix: sa_bwt_sampling returned SA values multiplied with
 the sampling rate

The samples are stored undivided as they need not be multiples of the rate.
---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From 813c9ab2d358b5d0784fd6b58637bd7b62136852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 30/80] fix: isa of psi-based CSAs with fuzzy sampling looped
 (almost) for ever

The sample left of i may be the last one of the text.
---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..142f43b 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) { // sample is located cyclically to the left of i
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From e13f06fe490db309f998c8a312d8844e54c2818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 31/80] fix: forward_search read outside the alphabet table for
 chars >= 128

Characters of a std::string may be negative; cast to the CSA's char type as
backward_search does.
---
 include/sdsl/suffix_array_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..3035388 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,7 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto index = csa.char2comp[(typename t_csa::char_type)*current];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0


From 43cb418c430dfbd5218f5a4234c91424edec3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 32/80] fix: bidirectional_search truncated symbols of integer
 alphabets to 8 bits

---
 include/sdsl/suffix_array_algorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 3035388..4575b4d 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -264,7 +264,7 @@ typename csa_wt<t_wt>::size_type bidirectional_search(
     typename csa_wt<>::size_type r_fwd,
     typename csa_wt<>::size_type l_bwd,
     typename csa_wt<>::size_type r_bwd,
-    typename csa_wt<>::char_type c,
+    typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type c,
     typename csa_wt<>::size_type& l_fwd_res,
     typename csa_wt<>::size_type& r_fwd_res,
     typename csa_wt<>::size_type& l_bwd_res,
@@ -338,7 +338,7 @@ typename csa_wt<>::size_type bidirectional_search_backward(
     t_pat_iter it = end;
     while (begin < it and r_fwd+1-l_fwd > 0) {
         --it;
-        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename csa_wt<>::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
+        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
     }
     l_fwd_res = l_fwd;
     r_fwd_res = r_fwd;
@@ -403,7 +403,7 @@ bidirectional_search_forward(
 {
     t_pat_iter it = begin;
     while (it < end and r_fwd+1-l_fwd > 0) {
-        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename csa_wt<>::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
+        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
         ++it;
     }
     l_fwd_res = l_fwd;
-- 
2.43.0


From 902fdb0348c77949f2591a2a90e7971321d5f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 33/80] fix: lcp_support_tree2 lost large values when several
 copies of them end the LCP array

---
 include/sdsl/lcp_support_tree2.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/lcp_support_tree2.hpp b/include/sdsl/lcp_support_tree2.hpp
index 83a6aa3..5a81a4f 100644
--- a/include/sdsl/lcp_support_tree2.hpp
+++ b/include/sdsl/lcp_support_tree2.hpp
@@ -260,11 +260,13 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
         last_bwti = bwt_buf[i];
     }
 
+    is_one_big_and_not_reducable = false;
     while (!vec_stack.empty()) {
         y = vec_stack.top();
-        if (vec_stack.pop()) {
+        is_one_big_and_not_reducable |= is_big_and_not_reducable[vec_stack.size()-1];
+        if (vec_stack.pop()) { // if y was the last copy of y on the stack
             if (y > M-2) {
-                if (is_big_and_not_reducable[vec_stack.size()]) {
+                if (is_one_big_and_not_reducable) {
                     val = M;
                     big_lcp_out.write((char*)&y, sizeof(y));
                     ++fc_cnt_big;
@@ -278,6 +280,7 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
             }
             sml_lcp_out.write((const char*)&val, 1);
             ++fc_cnt;
+            is_one_big_and_not_reducable = false;
         }
     }
     // write number of elements of sml_lcp into the out file stream
-- 
2.43.0


From 3f5683b5f93e37f7abcf0b44b2c6bf2a1c3a0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 34/80] fix: lcp_byte, lcp_bitcompressed and lcp_wt could not
 be used standalone, with a fixed width or in lcp_support_tree; lcp_fully had
 no usable iterator

---
 include/sdsl/cst_fully.hpp         |  1 +
 include/sdsl/lcp_bitcompressed.hpp |  9 ++++++---
 include/sdsl/lcp_byte.hpp          | 17 ++++++++++-------
 include/sdsl/lcp_wt.hpp            |  2 +-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..38a843b 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -29,6 +29,7 @@ class lcp_fully
         typedef random_access_const_iterator<lcp_fully> const_iterator;
         typedef const_iterator                          iterator;
 
+        typedef ptrdiff_t                               difference_type;
         typedef lcp_tag                                 lcp_category;
 
         enum { fast_access = 0,
diff --git a/include/sdsl/lcp_bitcompressed.hpp b/include/sdsl/lcp_bitcompressed.hpp
index d407f41..59441ee 100644
--- a/include/sdsl/lcp_bitcompressed.hpp
+++ b/include/sdsl/lcp_bitcompressed.hpp
@@ -68,10 +68,13 @@ class lcp_bitcompressed
         lcp_bitcompressed& operator=(lcp_bitcompressed&&) = default;
 
         //! Constructor taking a cache_config
-        lcp_bitcompressed(cache_config& config)
+        lcp_bitcompressed(cache_config& config, std::string other_key="")
         {
-            std::string lcp_file = cache_file_name(conf::KEY_LCP, config);
-            int_vector_buffer<> lcp_buf(lcp_file);
+            std::string lcp_key  = conf::KEY_LCP;
+            if ("" != other_key) {
+                lcp_key = other_key;
+            }
+            int_vector_buffer<> lcp_buf(cache_file_name(lcp_key, config));
             m_lcp = int_vector<t_width>(lcp_buf.size(), 0, lcp_buf.width());
             for (size_type i=0; i < m_lcp.size(); ++i) {
                 m_lcp[i] = lcp_buf[i];
diff --git a/include/sdsl/lcp_byte.hpp b/include/sdsl/lcp_byte.hpp
index 7cca84b..85bef9f 100644
--- a/include/sdsl/lcp_byte.hpp
+++ b/include/sdsl/lcp_byte.hpp
@@ -63,7 +63,7 @@ class lcp_byte
         typedef ptrdiff_t                                difference_type;
 
         typedef lcp_plain_tag                            lcp_category;
-        typedef lcp_tag                                  index_tag;
+        typedef lcp_tag                                  index_category;
 
         enum { fast_access = 0,
                text_order  = 0,
@@ -92,10 +92,13 @@ class lcp_byte
         lcp_byte& operator=(lcp_byte&&) = default;
 
         //! Constructor
-        lcp_byte(cache_config& config)
+        lcp_byte(cache_config& config, std::string other_key="")
         {
-            std::string lcp_file = cache_file_name(conf::KEY_LCP, config);
-            int_vector_buffer<> lcp_buf(lcp_file);
+            std::string lcp_key  = conf::KEY_LCP;
+            if ("" != other_key) {
+                lcp_key = other_key;
+            }
+            int_vector_buffer<> lcp_buf(cache_file_name(lcp_key, config));
             m_small_lcp = int_vector<8>(lcp_buf.size());
             size_type l=0, max_l=0, max_big_idx=0, big_sum=0;
 
@@ -109,8 +112,8 @@ class lcp_byte
                     ++big_sum;
                 }
             }
-            m_big_lcp     = int_vector<>(big_sum, 0, bits::hi(max_l)+1);
-            m_big_lcp_idx = int_vector<>(big_sum, 0, bits::hi(max_big_idx)+1);
+            m_big_lcp     = int_vector<t_width>(big_sum, 0, bits::hi(max_l)+1);
+            m_big_lcp_idx = int_vector<t_width>(big_sum, 0, bits::hi(max_big_idx)+1);
 
             for (size_type i=0,ii=0; i<m_small_lcp.size(); ++i) {
                 if ((l=lcp_buf[i]) >= 255) {
@@ -169,7 +172,7 @@ class lcp_byte
             if (m_small_lcp[i]!=255) {
                 return m_small_lcp[i];
             } else {
-                size_type idx = lower_bound(m_big_lcp_idx.begin(),
+                size_type idx = std::lower_bound(m_big_lcp_idx.begin(),
                                             m_big_lcp_idx.end(),i)
                                 - m_big_lcp_idx.begin();
                 return m_big_lcp[idx];
diff --git a/include/sdsl/lcp_wt.hpp b/include/sdsl/lcp_wt.hpp
index f8401f8..4d20256 100644
--- a/include/sdsl/lcp_wt.hpp
+++ b/include/sdsl/lcp_wt.hpp
@@ -123,7 +123,7 @@ class lcp_wt
                 m_small_lcp.swap(tmp);
             }
             sdsl::remove(temp_file);
-            m_big_lcp = int_vector<>(big_sum, 0, bits::hi(max_l)+1);
+            m_big_lcp = int_vector<t_width>(big_sum, 0, bits::hi(max_l)+1);
             {
                 for (size_type i=0, ii=0; i < n; ++i) {
                     if (lcp_buf[i] >= 255) {
-- 
2.43.0


From 0f3ab81fb71461e749ac807ffe86d2c8421d9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 35/80] fix: copying a cst_dfs_const_forward_iterator freed its
 stack twice

---
 include/sdsl/cst_iterators.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..b4ce902 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -77,26 +77,40 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
                 m_valid = false;
             } else if (m_v == m_cst->root() and !m_visited and m_valid) { // if the iterator equal cst.begin()
                 m_stack_cache = new node_type[cache_size];
-                m_stack_size  = 0;
 //			std::cerr<<"#creating stack "<<m_cst->lb(m_v)<<" "<<m_cst->rb(m_v)<<std::endl;
             }
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator& it):m_cst(it.m_cst), m_v(it.m_v), m_visited(it.m_visited), m_valid(it.m_valid), m_stack_cache(nullptr), m_stack_size(it.m_stack_size) {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache + cache_size, m_stack_cache);
+            }
+        }
+
+        //! Assignment operator
+        cst_dfs_const_forward_iterator& operator=(cst_dfs_const_forward_iterator it) {
+            std::swap(m_cst, it.m_cst);
+            std::swap(m_v, it.m_v);
+            std::swap(m_visited, it.m_visited);
+            std::swap(m_valid, it.m_valid);
+            std::swap(m_stack_cache, it.m_stack_cache);
+            std::swap(m_stack_size, it.m_stack_size);
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From f99dd931973592b22c3344084fb8e2bfbeeb71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 36/80] fix: extract on a suffix tree node returned nothing or
 threw for the root

---
 include/sdsl/suffix_tree_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..d72df33 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
@@ -203,7 +203,7 @@ extract(
 {
     typedef typename t_cst::csa_type::string_type t_rac;
     if (v==cst.root()) {
-        return t_rac(0);
+        return t_rac();
     }
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
-- 
2.43.0


From c5bcafad2f06ad36940ee7873a754baf4b0e238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 37/80] fix: cst_sada::lca of a node and its ancestor

---
 include/sdsl/cst_sada.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..e0053af 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -717,8 +717,8 @@ class cst_sada
             } else if (v==w) {
                 return v;
             }
-            if (v == root())
-                return root();
+            if (m_bp_support.find_close(v) > w) // v is an ancestor of w
+                return v;
             return m_bp_support.double_enclose(v, w);
         }
 
-- 
2.43.0


From 086c8fde35d6736168c0c383523a0be4dc436ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 38/80] fix: cst_fully::wl did not return root() for missing
 Weiner links; depth() wrote past the end of a vector

---
 include/sdsl/cst_fully.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 38a843b..55cbc46 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -501,8 +501,7 @@ class cst_fully
 
             size_type i;
             sampled_node_type u;
-            std::vector<char_type> c;
-            c.reserve(delta);
+            std::vector<char_type> c(delta, 0);
             return depth_lca(v.first, v.second, i, u, c);
         }
 
@@ -635,7 +634,9 @@ class cst_fully
         {
             size_type l, r;
             std::tie(l, r) = v;
-            backward_search(m_csa, l, r, c, l, r);
+            if (backward_search(m_csa, l, r, c, l, r) == 0) {
+                return root();
+            }
             return node_type(l, r);
         }
 
-- 
2.43.0


From eeef662e5afe4978a45b7804a7fa99b84c03ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 39/80] fix: forward_search on cst_fully passed a text position
 as node depth

---
 include/sdsl/cst_fully.hpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 55cbc46..a5064c0 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -691,10 +691,33 @@ class cst_fully
                 return root();
             }
             size_type d = depth(v);
-            return child(v, c, d);
+            return child_at_depth(v, c, d);
         }
 
-        node_type child(node_type v, char_type c, size_type d) const
+//! Get the child w of node v which edge label (v,w) starts with character c.
+        /*!
+         * \param v        A node v.
+         * \param c        First character of the edge label from v to the desired child.
+         * \param char_pos Reference which will hold the position (0-based) of
+         *                 the matching char c in the sorted text/suffix array.
+         * \return The child node w which edge label (v,w) starts with c or root() if it does not exist.
+         */
+        node_type child(node_type v, char_type c, size_type& char_pos) const
+        {
+            if (is_leaf(v)) {
+                return root();
+            }
+            size_type d = depth(v);
+            node_type w = child_at_depth(v, c, d);
+            if (w != root()) {
+                char_pos = get_char_pos(w.first, d, m_csa);
+            }
+            return w;
+        }
+
+    private:
+        // Get the child of an inner node v of depth d
+        node_type child_at_depth(node_type v, char_type c, size_type d) const
         {
             leaf_type lower;
             leaf_type upper;
@@ -742,6 +765,7 @@ class cst_fully
             return node_type(lower, upper - 1);
         }
 
+    public:
 //! Get the i-th child of a node v.
         /*!
          * \param v A valid tree node of the cst.
@@ -757,14 +781,14 @@ class cst_fully
             size_type d = depth(v);
             size_type char_pos = get_char_pos(v.first, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            node_type res = child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
             while (i > 1) {
                 if (res.second >= v.second) {
                     return root();
                 }
                 char_pos = get_char_pos(res.second + 1, d, m_csa);
                 c = m_csa.F[char_pos];
-                res = child(v, c, d);
+                res = child_at_depth(v, c, d);
                 i--;
             }
 
@@ -785,12 +809,12 @@ class cst_fully
                 size_type d = depth(v);
                 size_type char_pos = get_char_pos(v.first, d, m_csa);
                 char_type c = m_csa.F[char_pos];
-                node_type v_i = child(v, c, d);
+                node_type v_i = child_at_depth(v, c, d);
                 while (v_i.second < v.second) {
                     ++res;
                     char_pos = get_char_pos(v_i.second + 1, d, m_csa);
                     c = m_csa.F[char_pos];
-                    v_i = child(v, c, d);
+                    v_i = child_at_depth(v, c, d);
                 }
                 return res;
             }
@@ -821,7 +845,7 @@ class cst_fully
             size_type d = depth(p);
             size_type char_pos = get_char_pos(v.second + 1, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            return child(p, c, d);
+            return child_at_depth(p, c, d);
         }
 
         char_type edge(node_type v, size_type d) const
-- 
2.43.0


From b1de0ac12bc0eb9d7af79d91c8432c9c02192354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 40/80] fix: bp_support_g/gg: rmq and rmq_open up to the last
 parenthesis and for closing right borders

---
 include/sdsl/bp_support_g.hpp  | 15 ++++++---------
 include/sdsl/bp_support_gg.hpp |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..8bb02ab 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -431,7 +431,7 @@ class bp_support_g
          *     \f$ \Order{block\_size} \f$
          */
         size_type rmq_open(const size_type l, const size_type r)const {
-            if (l >= r)
+            if (l >= r or r >= size()) // no parenthesis is closed behind the end
                 return size();
             size_type        min_ex_pos = r;
 
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r) + 2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -543,16 +543,13 @@ class bp_support_g
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size()) // all opening parentheses in [l..r] are closed in [l..r]
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
diff --git a/include/sdsl/bp_support_gg.hpp b/include/sdsl/bp_support_gg.hpp
index 74d1632..193431b 100644
--- a/include/sdsl/bp_support_gg.hpp
+++ b/include/sdsl/bp_support_gg.hpp
@@ -379,7 +379,7 @@ class bp_support_gg
          */
         size_type rmq_open(const size_type l, const size_type r)const
         {
-            if (l >= r)
+            if (l >= r or r >= size()) // no parenthesis is closed behind the end
                 return size();
             size_type        min_ex_pos = r;
 
-- 
2.43.0


From 52dde084dabecb043330a39b04a45814ac7e5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 41/80] fix: bp_support_sada: level_anc(0,0) did not return the
 node itself

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..315354f 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return excess(0)+rel == 0 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From 2789017da4c0803e1ce42829211eaf3cdd57cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 42/80] fix: near_fwd_excess/near_bwd_excess: table too small
 for excess 8, position visited twice for odd block sizes

---
 include/sdsl/bp_support_algorithm.hpp | 6 +++---
 lib/bp_support_algorithm.cpp          | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/bp_support_algorithm.hpp b/include/sdsl/bp_support_algorithm.hpp
index b1cc13b..e065284 100644
--- a/include/sdsl/bp_support_algorithm.hpp
+++ b/include/sdsl/bp_support_algorithm.hpp
@@ -38,14 +38,14 @@ struct excess {
         // near_fwd_pos[(x+8)<<8 | w] contains the minimal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_fwd_pos[(8-(-8))*256];
+        uint8_t near_fwd_pos[(8-(-8)+1)*256];
 
         // Given an excess value of x in [-8,8] and a 8-bit
         // word w interpreted as parentheses sequence.
         // near_bwd_pos[(x+8)<<8 | w] contains the maximal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_bwd_pos[(8-(-8))*256];
+        uint8_t near_bwd_pos[(8-(-8)+1)*256];
 
         // Given a 8-bit word w. word_sum[w] contains the
         // excess value of w.
@@ -83,7 +83,7 @@ struct excess {
         uint16_t min_open_excess_info[256];
 
         impl() {
-            for (int32_t x = -8; x < 8; ++x) {
+            for (int32_t x = -8; x <= 8; ++x) {
                 for (uint16_t w=0; w < 256; ++w) {
                     uint16_t i = (x+8)<<8|w;
                     near_fwd_pos[i] = 8;
diff --git a/lib/bp_support_algorithm.cpp b/lib/bp_support_algorithm.cpp
index 40a9a0c..2cd0682 100644
--- a/lib/bp_support_algorithm.cpp
+++ b/lib/bp_support_algorithm.cpp
@@ -281,7 +281,7 @@ near_bwd_excess(const bit_vector& bp, uint64_t i, bit_vector::difference_type re
         excess += excess::data.word_sum[((*(b+(j>>6)))>>(j&0x3F))&0xFF];
     }
     excess -= 8;
-    for (difference_type j=std::min(l, r); j > begin; --j) {
+    for (difference_type j=std::min(l, r)-1; j > begin; --j) {
         if (bp[j])
             ++excess;
         else
-- 
2.43.0


From 4115694769db3bf478258f8464787a4d80ab7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 43/80] fix: rmq_support_sparse_table: constructor wrote to a
 missing table for two elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 9c0cb09a22e5525f346a2d471f7a64dc90ee6c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 44/80] fix: default-constructed dac_vector and dac_vector_dp
 had uninitialised members

---
 include/sdsl/dac_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..7b0795d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;      // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
-- 
2.43.0


From 3081d045d25726ce7338a3d5197683f26dafaec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 45/80] fix: k2_treap/k2_tree headers could not be included in
 two translation units

---
 include/sdsl/k2_treap_algorithm.hpp | 2 +-
 include/sdsl/k2_tree_helper.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap_algorithm.hpp b/include/sdsl/k2_treap_algorithm.hpp
index 89a43dd..67ea546 100644
--- a/include/sdsl/k2_treap_algorithm.hpp
+++ b/include/sdsl/k2_treap_algorithm.hpp
@@ -45,7 +45,7 @@ namespace k2_treap_ns
  *  \param Lower left corner of the rectangle.
  *  \param Upper right corner of the rectangle.
  */
-bool
+inline bool
 contained(const point_type p, const point_type& p1, const point_type& p2)
 {
     return real(p) >= real(p1) and real(p) <= real(p2) and
diff --git a/include/sdsl/k2_tree_helper.hpp b/include/sdsl/k2_tree_helper.hpp
index 61ac999..8835d81 100644
--- a/include/sdsl/k2_tree_helper.hpp
+++ b/include/sdsl/k2_tree_helper.hpp
@@ -98,7 +98,7 @@ template<typename t_bv=bit_vector> void build_template_vector(bit_vector& k_t_,
     k_l = t_bv(k_l_);
 }
 
-template<> void build_template_vector<bit_vector>(bit_vector& k_t_,
+template<> inline void build_template_vector<bit_vector>(bit_vector& k_t_,
         bit_vector& k_l_,
         bit_vector& k_t,
         bit_vector& k_l)
-- 
2.43.0


From 585e3f0e2768bc325ae8971106866e237c7350c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 46/80] fix: k2_treap: copying did not compile; no root for
 points at the origin only

---
 include/sdsl/k2_treap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..2ef1afc 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -95,7 +95,7 @@ class k2_treap
                 return tupmax(a) < tupmax(b);
             });
             uint64_t x = tupmax(*max_it);
-            uint8_t res = 0;
+            uint8_t res = 1; // a root, even if all points are at the origin
             while (precomp<t_k>::exp(res) <= x) { ++res; }
             return res;
         }
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
-- 
2.43.0


From 203d98829444fbaafc1d5504ddabef1bd2df9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 47/80] fix: k2_tree: copying did not compile; members and
 range() of an empty tree

---
 include/sdsl/k2_tree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..773ae79 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -63,8 +63,8 @@ class k2_tree
 
         t_rank      k_t_rank;
 
-        uint8_t     k_k;
-        uint16_t    k_height;
+        uint8_t     k_k = k;
+        uint16_t    k_height = 1;
 
     protected:
 
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
@@ -519,6 +519,8 @@ class k2_tree
 			idx_type col1, idx_type col2
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
+			if (k_l.size() == 0 && k_t.size() == 0)
+				return res;
 
 			size_type n = static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
 			struct state{
-- 
2.43.0


From f1b67fcac142ffae63118384727e062cd4400dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 48/80] fix: k2_tree: heights and submatrix positions computed
 exactly instead of with doubles

---
 include/sdsl/k2_tree.hpp | 64 ++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 773ae79..8165895 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -66,12 +66,30 @@ class k2_tree
         uint8_t     k_k = k;
         uint16_t    k_height = 1;
 
+        //! k^exp (std::pow is not exact for large results)
+        static size_type k_pow(uint16_t exp)
+        {
+            size_type res = 1;
+            while (exp--)
+                res *= k;
+            return res;
+        }
+
+        //! Smallest height h>=1 such that k^h >= size
+        static uint16_t height_for(size_type size)
+        {
+            uint16_t h = 1;
+            for (size_type rest = size > 0 ? (size-1)/k : 0; rest > 0; rest /= k)
+                ++h;
+            return h;
+        }
+
     protected:
 
         void build_from_matrix(const std::vector<std::vector <int>>& matrix)
         {
             // Makes the size a power of k.
-            int simulated_size = std::pow(k, k_height);
+            int simulated_size = k_pow(k_height);
             std::vector<std::deque<bit_vector>> acc(k_height + 1);
 
             k2_tree_ns::_build_from_matrix<bit_vector>(matrix, k,
@@ -131,8 +149,8 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             k_k * std::floor(row/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k_k * k_k +
+                             k_k * (row/n);
                 for (unsigned j = 0; j < k_k; j++)
                     _neigh(n/k_k, row % n, col + n * j, y + j, acc);
             }
@@ -160,8 +178,8 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             std::floor(col/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k_k * k_k +
+                             col/n;
                 for (unsigned j = 0; j < k_k; j++)
                     _reverse_neigh(n/k_k, row + n * j, col % n,
                                    y + j * k_k, acc);
@@ -185,16 +203,15 @@ class k2_tree
                     idx_type> t_part_tuple;
 
             k_k = k;
-            k_height = std::ceil(std::log(size)/std::log(k_k));
-            k_height = k_height > 1 ? k_height : 1; // If size == 0
-            size_type k_2 = std::pow(k_k, 2);
+            k_height = height_for(size);
+            size_type k_2 = k_k * k_k;
             bit_vector k_t_ = bit_vector(k_2 * k_height * edges.size(), 0);
             bit_vector k_l_;
 
             std::queue<t_part_tuple> q;
             idx_type t = 0, last_level = 0;
             idx_type i, j, r_0, c_0, it, c, r;
-            size_type l = std::pow(k_k, k_height - 1);
+            size_type l = k_pow(k_height - 1);
             std::vector<idx_type> pos_by_chunk(k_2 + 1, 0);
 
             q.push(t_part_tuple(0, edges.size(), l, 0, 0));
@@ -287,10 +304,7 @@ class k2_tree
             }
             std::vector<bit_vector> t;
             k_k = k;
-            if (matrix.size() < k_k)
-                k_height = 1;
-            else // height = log_k n
-                k_height = std::ceil(std::log(matrix.size())/std::log(k_k));
+            k_height = height_for(matrix.size());
 
             build_from_matrix(matrix);
 
@@ -444,15 +458,15 @@ class k2_tree
         {
             if (k_t.size() == 0 && k_l.size() == 0)
                 return false;
-            size_type n = std::pow(k_k, k_height - 1);
-            size_type k_2 = std::pow(k_k, 2);
+            size_type n = k_pow(k_height - 1);
+            size_type k_2 = k_k * k_k;
             idx_type col, row;
 
             // This is duplicated to avoid an extra if at the loop. As idx_type
             // is unsigned and rank has an offset of one, is not possible to run
             // k_t_rank with zero as parameter at the first iteration.
-            row = std::floor(i/static_cast<double>(n));
-            col = std::floor(j/static_cast<double>(n));
+            row = i/n;
+            col = j/n;
             i = i % n;
             j = j % n;
             idx_type level = k_k * row + col;
@@ -461,8 +475,8 @@ class k2_tree
             while (level < k_t.size()) {
                 if (k_t[level] == 0)
                     return false;
-                row = std::floor(i/static_cast<double>(n));
-                col = std::floor(j/static_cast<double>(n));
+                row = i/n;
+                col = j/n;
                 i = i % n;
                 j = j % n;
                 level = k_t_rank(level + 1) * k_2 + k_k * row + col;
@@ -485,10 +499,9 @@ class k2_tree
 			// n = k^h / k
 			// k^h - dimension n of matrix nxn
 			// /k  - to calculate div only once and not for for all parameter again, always (n/k)
-            size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+            size_type n = k_pow(k_height - 1);
 			// y = k * i/n
-            idx_type y = k_k * std::floor(i/static_cast<double>(n));
+            idx_type y = k_k * (i/n);
             for (unsigned j = 0; j < k_k; j++)
                 _neigh(n/k_k, i % n, n * j, y + j, acc);
             return acc;
@@ -505,9 +518,8 @@ class k2_tree
             if (k_l.size() == 0 && k_t.size() == 0)
                 return acc;
             // Size of the first square division
-            size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
-            idx_type y = std::floor(i/static_cast<double>(n));
+            size_type n = k_pow(k_height - 1);
+            idx_type y = i/n;
             for (unsigned j = 0; j < k_k; j++)
                 _reverse_neigh(n/k_k, n * j, i % n, y + j * k_k, acc);
 
@@ -522,7 +534,7 @@ class k2_tree
 			if (k_l.size() == 0 && k_t.size() == 0)
 				return res;
 
-			size_type n = static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+			size_type n = k_pow(k_height - 1);
 			struct state{
 				idx_type n, row1, row2, col1, col2, dr, dc, z;
 				state(idx_type n, idx_type row1, idx_type row2, idx_type col1, idx_type col2,
-- 
2.43.0


From c3395780dfc39d269e7bb72e5556c2d8e637e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 49/80] fix: louds_tree: swap and serialize did not compile,
 node copies referred to the copied node, no default constructor

---
 include/sdsl/louds_tree.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..52b47a7 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr  = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
@@ -70,6 +78,9 @@ class louds_tree
     public:
         const bit_vector_type& bv;    // const reference to the LOUDS sequence
 
+        //! Default constructor
+        louds_tree():bv(m_bv) {}
+
         //! Constructor for a cst and a root node for the traversal
         template<class Cst, class CstBfsIterator>
         louds_tree(const Cst& cst, const CstBfsIterator begin, const CstBfsIterator end):m_bv(), m_bv_select1(), m_bv_select0(), bv(m_bv) {
@@ -179,16 +190,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 2087a06ed326814dec19c59a5c7f7d9c2dfd8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 50/80] fix: nn_dict_dynamic: undefined shifts in next and prev

---
 include/sdsl/nn_dict_dynamic.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index b3474e3..ba33bff 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -193,14 +193,15 @@ class nn_dict_dynamic
 
             // Go up until a 1-bit is found
             node = m_tree[ v_node_position-m_offset[dep] ]>>off;
-            while (!node or off==64) {
+            while (!node) {
                 // Not in the root
                 if (v_node_position) {
                     --dep;
                     --v_node_position;
                     off = (v_node_position&0x3F)+1;
                     v_node_position >>= 6;
-                    node = m_tree[ v_node_position-m_offset[dep] ]>>off;
+                    // nothing right of the last bit (a shift by 64 is undefined)
+                    node = off < 64 ? m_tree[ v_node_position-m_offset[dep] ]>>off : 0;
                 } else {
                     return size();
                 }
@@ -238,7 +239,7 @@ class nn_dict_dynamic
 
             // Go up until a 1-bit is found
             node = m_tree[ v_node_position-m_offset[dep] ]<<(63-off);
-            while (!node or off == (uint8_t)-1) {
+            while (!node) {
 
                 // Not in the root
                 if (v_node_position) {
@@ -248,7 +249,8 @@ class nn_dict_dynamic
                     off = ((uint8_t)(v_node_position&0x3F))-1;
                     v_node_position >>= 6;
 
-                    node = m_tree[ v_node_position-m_offset[dep] ]<<(63-off);
+                    // nothing left of the first bit (a negative shift is undefined)
+                    node = off < 64 ? m_tree[ v_node_position-m_offset[dep] ]<<(63-off) : 0;
                 } else {
                     return size();
                 }
-- 
2.43.0


From 11b5aeb1c309e7d8b5c3d0e706fff2c5465d3066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 51/80] fix: wt_gmr: the copy's inverse permutation referred to
 the copied object

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..a4d96f1 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From a5201d0f138b9eabcc9d924ff9ff78f9fd6bbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 52/80] fix: resize: growing within the last word to a multiple
 of 64 bits left out the padding word

---
 include/sdsl/memory_management.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..a477468 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -345,7 +345,8 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            // compare the allocated sizes: growing to a multiple of 64 needs the padding word
+            bool do_realloc = ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
@@ -368,7 +369,7 @@ class memory_manager
                 }
 
                 // update stats
-                if (do_realloc) {
+                if (old_size_in_bytes != new_size_in_bytes) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
             }
-- 
2.43.0


From ce1de44793583937896b052000f5ca3f680b4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 53/80] fix: csa_sada: const rank_bwt shared a mutable buffer
 between concurrent queries

---
 include/sdsl/csa_sada.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index d576922..1ede6b9 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -117,8 +117,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
-
         void copy(const csa_sada& csa)
         {
             m_psi        = csa.m_psi;
@@ -128,13 +126,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -154,7 +145,6 @@ class csa_sada
         //! Default Constructor
         csa_sada()
         {
-            create_buffer();
         }
         //! Default Destructor
         ~csa_sada() { }
@@ -162,7 +152,6 @@ class csa_sada
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
@@ -265,7 +254,6 @@ class csa_sada
                 m_isa_sample = std::move(csa.m_isa_sample);
                 m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
@@ -324,24 +312,27 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
+                if (enc_vector_type::sample_dens >= linear_decode_limit) {
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                     goto finish;
                 }
-                uint64_t* p = m_psi_buf.data();
+                // buffer for decoded psi values; local, so that concurrent
+                // queries on the same object do not share it
+                std::vector<uint64_t> psi_buf(enc_vector_type::sample_dens+1);
+                uint64_t* p = psi_buf.data();
                 // extract the psi values between two samples
                 m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
+                p = psi_buf.data();
                 uint64_t smpl = m_psi.sample(lower_sb);
                 // handle border cases
                 if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
                 else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
                 // search the result linear
                 while ((*p++)+smpl < i);
 
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                return p-1-psi_buf.data() + lower_b - C[cc];
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -395,7 +386,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0


From 1c0495428f0ab0af3094e84f639c1e5d1753f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 54/80] fix: util::id() could return the same id to two threads

---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index 96f3ff3..ab30113 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..21d0f42 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From d6ad049aa2e3245d659ca0834a21039a6710aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 55/80] fix: memory_monitor::event read the current usage
 without the lock

---
 include/sdsl/memory_management.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index a477468..73abaee 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -192,9 +192,14 @@ class memory_monitor
         {
             auto& m = the_monitor();
             if (m.track_usage) {
-                return mm_event_proxy(name, m.current_usage, true);
+                int64_t usage = 0;
+                {
+                    std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    usage = m.current_usage;
+                }
+                return mm_event_proxy(name, usage, true);
             }
-            return mm_event_proxy(name, m.current_usage, false);
+            return mm_event_proxy(name, 0, false);
         }
         template<format_type F>
         static void write_memory_log(std::ostream& out)
-- 
2.43.0


From 8421957e3fcdfe309c4cba70e05940d27a2d2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 56/80] fix: RAM files: relative seek of the put pointer used
 the get pointer, which dangled after the file grew

---
 lib/ram_filebuf.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..95e78b9 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -85,7 +85,7 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         pbump64(sp);
     } else {
-        if (mode & std::ios_base::out) {
+        if (sp >= (pos_type)0 and (mode & std::ios_base::out)) {
             // extend buffer
             m_ram_file->resize(sp, 0);
             setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
@@ -107,7 +107,9 @@ ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
             return pos_type(-1);
         }
     } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
+        // the put position is the current one if only that one is asked for
+        off_type cur = (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase();
+        if (seekpos(cur+off, which) == pos_type(-1)) {
             return pos_type(-1);
         }
     } else if (std::ios_base::end == way) {
@@ -139,11 +141,12 @@ ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
     if (m_ram_file) {
+        std::ptrdiff_t gpos = gptr()-eback(); // the content may move in memory
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
         pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+        setg(m_ram_file->data(), m_ram_file->data()+gpos, m_ram_file->data()+m_ram_file->size());
     }
     return traits_type::to_int_type(c);
 }
-- 
2.43.0


From 5a660064eb167804e0f6bcc0430459a49f902888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 57/80] fix: RAM files opened with app or ate were overwritten
 from the beginning

---
 lib/ram_filebuf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 95e78b9..2b2437c 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -48,13 +48,12 @@ ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
         m_ram_file->clear();
     }
     if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
-
-        }
         setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        if (mode & (std::ios_base::ate | std::ios_base::app)) {
+            // move get and put pointer to the end of the file
+            seekpos(m_ram_file->size());
+        }
     }
 // ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
     return m_ram_file ? this : nullptr;
-- 
2.43.0


From 49599870e3cfcbb2dc24b6c4180263b92d277067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 58/80] fix: ram_fs: renaming a file to its own name removed
 it; missing files were renamed and removed with success

---
 lib/ram_fs.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..2a12a1a 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -72,16 +72,20 @@ int
 ram_fs::remove(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map.erase(name);
-    return 0;
+    return m_map.erase(name) > 0 ? 0 : -1;
 }
 
 int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    if (!exists(old_filename)) {
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(m_map[old_filename]);
+        remove(old_filename);
+    }
     return 0;
 }
 
-- 
2.43.0


From 7c486f087e61c056d514681fb844a1921ceeec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 59/80] fix: osfstream::tellp was not defined; isfstream::seekg
 did not report failure nor clear eofbit

---
 lib/sfstream.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..4af9251 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -135,6 +135,20 @@ osfstream::seekp(off_type off, std::ios_base::seekdir way)
 
 
 
+std::streampos
+osfstream::tellp()
+{
+    pos_type p = pos_type(off_type(-1));
+    if (!this->fail()) {
+        if (is_ram_file(m_file)) {
+            p = ((ram_filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        } else {
+            p = ((std::filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        }
+    }
+    return p;
+}
+
 //  IMPLEMENTATION OF ISFSTREAM
 
 isfstream::isfstream() : std::istream(nullptr)
@@ -206,6 +220,7 @@ isfstream::seekg(pos_type pos)
 {
     ios_base::iostate err = std::ios_base::iostate(std::ios_base::goodbit);
     try {
+        this->clear(this->rdstate() & ~std::ios_base::eofbit); // as std::istream::seekg
         if (!this->fail()) {
             pos_type p = 0;
             if (is_ram_file(m_file)) {
@@ -216,6 +231,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -232,6 +248,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
 {
     ios_base::iostate err = std::ios_base::iostate(ios_base::goodbit);
     try {
+        this->clear(this->rdstate() & ~std::ios_base::eofbit); // as std::istream::seekg
         if (!this->fail()) {
             pos_type p = 0;
             if (is_ram_file(m_file)) {
@@ -242,6 +259,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From f8f3e065f5dd4cea195fd3da6ce9e2bf2bf03c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 60/80] fix: util::file_size of a missing file was
 indeterminate

---
 lib/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 21d0f42..d347893 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,9 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (stat(file.c_str(), &fs) != 0) {
+            return 0; // as for RAM-files
+        }
         return fs.st_size;
     }
 }
-- 
2.43.0


From a41e00c6caead5c9b176483bc7546efb7cdd4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 61/80] fix: write_member<std::string> added its size to the
 parent node

---
 lib/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..01b7dc3 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -61,7 +61,7 @@ size_t write_member<std::string>(const std::string& t, std::ostream& out, struct
     written_bytes += write_member(t.size(), out, child, "length");
     out.write(t.c_str(), t.size());
     written_bytes += t.size();
-    structure_tree::add_size(v, written_bytes);
+    structure_tree::add_size(child, written_bytes);
     return written_bytes;
 }
 
-- 
2.43.0


From dd62d1256288139f96d5ad7efd04bc27d7c80bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 62/80] fix: store_to_file and store_to_checked_file reported
 success when opening or writing failed

---
 include/sdsl/io.hpp | 10 ++++++++--
 lib/io.cpp          | 13 ++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..cfc12ff 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -667,7 +667,7 @@ bool store_to_file(const T& t, const std::string& file)
     if (util::verbose) {
         std::cerr<<"INFO: store_to_file: `"<<file<<"`"<<std::endl;
     }
-    return true;
+    return !out.fail(); // also if writing failed
 }
 
 template<class T>
@@ -683,6 +683,9 @@ bool store_to_checked_file(const T& t, const std::string& file)
     }
     add_hash(t, out);
     out.close();
+    if (out.fail()) {
+        return false;
+    }
     return store_to_file(t, file);
 }
 
@@ -704,7 +707,7 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     }
     v.serialize(out, nullptr, "", write_fixed_as_variable);
     out.close();
-    return true;
+    return !out.fail(); // also if writing failed
 }
 
 template<uint8_t t_width>
@@ -722,6 +725,9 @@ bool store_to_checked_file(const int_vector<t_width>& v, const std::string& file
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        return false;
+    }
     return store_to_file(v, file, write_fixed_as_variable);
 }
 
diff --git a/lib/io.cpp b/lib/io.cpp
index 01b7dc3..1b27d48 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,13 +13,13 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
     out.close();
-    return true;
+    return !out.fail(); // also if writing failed
 }
 
 bool store_to_file(const std::string& v, const std::string& file)
@@ -28,12 +28,12 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
-    return true;
+    return !out.fail(); // also if writing failed
 }
 
 
@@ -44,11 +44,14 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        return false;
+    }
     return store_to_file(v, file);
 }
 
-- 
2.43.0


From 5cbe49699cbe73362e4d5b152fbe352dcbe21972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 63/80] fix: load_vector_from_file reported success for a
 missing file

---
 include/sdsl/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index cfc12ff..ed0da75 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -199,7 +199,8 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
             v.resize(0);
-            return true;
+            isfstream in(file, std::ios::in | std::ios::binary);
+            return in.is_open(); // empty or missing?
         }
         if (file_size % num_bytes != 0) {
             throw std::logic_error("file size "+util::to_string(file_size)+" of \""+ file
-- 
2.43.0


From a2bf3dd4d72f68db709d26975e7aebd490b7dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 64/80] fix: int_vector had the new size but the old memory
 after a failed resize

---
 include/sdsl/memory_management.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 73abaee..22a1fe2 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -352,7 +352,6 @@ class memory_manager
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
             // compare the allocated sizes: growing to a multiple of 64 needs the padding word
             bool do_realloc = ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
-            v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
                 // We need this padding since rank data structures do a memory
@@ -363,6 +362,7 @@ class memory_manager
                 if (allocated_bytes != 0 && v.m_data == nullptr) {
                     throw std::bad_alloc();
                 }
+                v.m_size = size; // not before the memory is there
                 // update and fill with 0s
                 if (v.bit_size() < v.capacity()) {
                     uint8_t len = (uint8_t)(v.capacity() - v.bit_size());
@@ -377,6 +377,8 @@ class memory_manager
                 if (old_size_in_bytes != new_size_in_bytes) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
+            } else {
+                v.m_size = size;
             }
         }
         template<class t_vec>
-- 
2.43.0


From 35de0aa9c8669b1a66c51322b2cb9bc4f420b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 65/80] fix: int_vector_mapper kept a stale mapping after a
 failed resize and leaked the file descriptor after a failed mmap

---
 include/sdsl/int_vector_mapper.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 09a503c..2c6e596 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -181,6 +181,7 @@ class int_vector_mapper
                 std::string mmap_error
                     = std::string("int_vector_mapper: mmap error. ")
                       + std::string(util::str_from_errno());
+                memory_manager::close_file_for_mmap(m_fd); // the destructor is not called
                 throw std::runtime_error(mmap_error);
             }
 
@@ -211,6 +212,10 @@ class int_vector_mapper
                         std::cerr << "int_vector_mapper: error unmapping file mapping'"
                                   << m_file_name << "': " << ret << std::endl;
                     }
+                    // nothing is mapped if one of the following steps fails
+                    m_mapped_data = nullptr;
+                    m_wrapper.m_data = nullptr;
+                    m_wrapper.m_size = 0;
                 }
                 int tret = memory_manager::truncate_file_mmap(m_fd, new_size_in_bytes + m_data_offset);
                 if (tret == -1) {
-- 
2.43.0


From ec4080b351aba3f688edab457ad9535e50b9e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 66/80] fix: resize: keep reallocating and recording when the
 number of words changes

---
 include/sdsl/memory_management.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 22a1fe2..4c49969 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -350,8 +350,9 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            // compare the allocated sizes: growing to a multiple of 64 needs the padding word
-            bool do_realloc = ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
+            bool do_realloc = old_size_in_bytes != new_size_in_bytes
+                              // growing to a multiple of 64 needs the padding word
+                              || ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
                 // We need this padding since rank data structures do a memory
-- 
2.43.0


From c56ed69ef6bcf063e60f082c9ad28b8d7608e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 67/80] fix: hugepage_allocator::mm_realloc read past the end
 of the old block

---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..4eacdc6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -574,7 +574,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize);
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From f630189df058b624958fd248c13b13212213899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 68/80] fix: hugepage_allocator::mm_alloc could return a block
 which is one byte too small

---
 lib/memory_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 4eacdc6..1945c3f 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -450,6 +450,7 @@ void*
 hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
+    size_in_bytes = ALIGN(size_in_bytes);
     mm_block_t* bptr = nullptr;
     if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
-- 
2.43.0


From b54dabd19b7a7086548e3f84d03c537408aa7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 69/80] fix: construct_im left its temporary RAM file when the
 construction threw

---
 include/sdsl/construct.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index f6ab84b..52f0c96 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -68,7 +68,12 @@ void construct_im(t_index& idx, t_data data, uint8_t num_bytes=0)
 {
     std::string tmp_file = ram_file_name(util::to_string(util::pid())+"_"+util::to_string(util::id()));
     store_to_file(data, tmp_file);
-    construct(idx, tmp_file, num_bytes);
+    try {
+        construct(idx, tmp_file, num_bytes);
+    } catch (...) {
+        ram_fs::remove(tmp_file);
+        throw;
+    }
     ram_fs::remove(tmp_file);
 }
 
-- 
2.43.0


From 45e6666a89a6e390cb4efaf1c3afb48a32e49816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 70/80] fix: int_vector_mapper compared equal to containers of
 another length

The comparison with an arbitrary container looked only at the first size()
elements: a longer container with this prefix was equal, and a shorter one was
read past its end.
---
 include/sdsl/int_vector_mapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 2c6e596..3263c28 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -318,7 +318,7 @@ class int_vector_mapper
         template<class container>
         bool operator==(const container& v) const
         {
-            return std::equal(begin(), end(), v.begin());
+            return size() == v.size() and std::equal(begin(), end(), v.begin());
         }
         bool operator==(const int_vector<t_width>& v) const
         {
-- 
2.43.0


From 1a8068a111500d9fddeb1200dd286bd511b4a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 71/80] fix: moving or swapping a closed int_vector_buffer
 opened it again

The move constructor, the move assignment and swap opened the file of the source
unconditionally: a closed buffer was open (and written) again, the file of a
buffer closed with close(true) could not be opened, and a default constructed
buffer failed the assertion that a file named "" exists, e.g. when a
std::vector of buffers grew.
---
 include/sdsl/int_vector_buffer.hpp | 49 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index c15d285..2329f74 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -183,12 +183,14 @@ class int_vector_buffer
             m_size(ivb.m_size),
             m_begin(ivb.m_begin)
         {
-            ivb.m_ifile.close();
-            ivb.m_ofile.close();
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-            assert(m_ifile.good());
-            assert(m_ofile.good());
+            if (ivb.is_open()) { // a closed buffer stays closed
+                ivb.m_ifile.close();
+                ivb.m_ofile.close();
+                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                assert(m_ifile.good());
+                assert(m_ofile.good());
+            }
             // set ivb to default-constructor state
             ivb.m_filename = "";
             ivb.m_buffer = int_vector<t_width>();
@@ -209,13 +211,15 @@ class int_vector_buffer
         int_vector_buffer<t_width>& operator=(int_vector_buffer&& ivb)
         {
             close();
-            ivb.m_ifile.close();
-            ivb.m_ofile.close();
             m_filename = ivb.m_filename;
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-            assert(m_ifile.good());
-            assert(m_ofile.good());
+            if (ivb.is_open()) { // a closed buffer stays closed
+                ivb.m_ifile.close();
+                ivb.m_ofile.close();
+                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                assert(m_ifile.good());
+                assert(m_ofile.good());
+            }
             // assign the values of ivb to this
             m_buffer = (int_vector<t_width>&&)ivb.m_buffer;
             m_need_to_write = ivb.m_need_to_write;
@@ -372,19 +376,24 @@ class int_vector_buffer
         void swap(int_vector_buffer<t_width>& ivb)
         {
             if (this != &ivb) {
+                bool open = is_open(), ivb_open = ivb.is_open(); // a closed buffer stays closed
                 m_ifile.close();
                 ivb.m_ifile.close();
                 m_ofile.close();
                 ivb.m_ofile.close();
                 std::swap(m_filename, ivb.m_filename);
-                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-                assert(m_ifile.good());
-                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-                assert(m_ofile.good());
-                ivb.m_ifile.open(ivb.m_filename, std::ios::in|std::ios::binary);
-                assert(ivb.m_ifile.good());
-                ivb.m_ofile.open(ivb.m_filename, std::ios::in|std::ios::out|std::ios::binary);
-                assert(ivb.m_ofile.good());
+                if (ivb_open) {
+                    m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                    assert(m_ifile.good());
+                    m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                    assert(m_ofile.good());
+                }
+                if (open) {
+                    ivb.m_ifile.open(ivb.m_filename, std::ios::in|std::ios::binary);
+                    assert(ivb.m_ifile.good());
+                    ivb.m_ofile.open(ivb.m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                    assert(ivb.m_ofile.good());
+                }
                 std::swap(m_buffer, ivb.m_buffer);
                 std::swap(m_need_to_write, ivb.m_need_to_write);
                 std::swap(m_offset, ivb.m_offset);
-- 
2.43.0


From 1f0f1d3d8b135831e11f420a4e84d8f04ebe6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 72/80] fix: default constructed cst_sct3, cst_fully, wt_gmr,
 wt_gmr_rs and nn_dict_dynamic had indeterminate members

size(), nodes() and serialize() of a default constructed (or copied or moved
from such an) object read them: the answers were garbage and the written bytes
differed from run to run.
---
 include/sdsl/cst_fully.hpp       |  4 ++--
 include/sdsl/cst_sct3.hpp        |  2 +-
 include/sdsl/nn_dict_dynamic.hpp |  6 +++---
 include/sdsl/wt_gmr.hpp          | 12 ++++++------
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index a5064c0..d0c530c 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -145,8 +145,8 @@ class cst_fully
         typedef cst_tag                                   index_category;
 
     private:
-        size_type        m_delta;
-        size_type        m_nodes;
+        size_type        m_delta = 0;
+        size_type        m_nodes = 0;
         csa_type         m_csa;
         bit_vector       m_s;
         s_support_type   m_s_support;
diff --git a/include/sdsl/cst_sct3.hpp b/include/sdsl/cst_sct3.hpp
index b8ed964..4b7ae68 100644
--- a/include/sdsl/cst_sct3.hpp
+++ b/include/sdsl/cst_sct3.hpp
@@ -131,7 +131,7 @@ class cst_sct3
         bv_type         m_first_child;
         rank_type       m_first_child_rank;
         sel_type        m_first_child_select;
-        size_type       m_nodes;
+        size_type       m_nodes = 0;
 
         void copy(const cst_sct3& cst)
         {
diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index ba33bff..1b80748 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -48,9 +48,9 @@ class nn_dict_dynamic
         friend class reference;
         friend void util::set_zero_bits(nn_dict_dynamic& nn);
     private:
-        uint64_t m_depth;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
-        uint64_t m_v_begin_leaves;		// Virtual begin of leaves
-        size_type m_size;
+        uint64_t m_depth = 0;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
+        uint64_t m_v_begin_leaves = 0;		// Virtual begin of leaves
+        size_type m_size = 0;
         int_vector<64> m_offset;	 	// Number of nodes to skip on each level
         int_vector<64> m_tree; 			// Tree
 
diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index a4d96f1..cd3fe72 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0; // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From 7a4fb4d56e50a27b35d9733e2eff3d181d76cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 73/80] fix: csXprintf printed more characters of a suffix than
 the text has

The documentation of %[w[:W]]T promises min(idx.size(),w) characters.
---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index ed0da75..b9ab4b8 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -511,7 +511,7 @@ csXprintf(std::ostream& out, const std::string& format,
                         res[i] += util::to_string(csa.bwt[i],w);
                     }
                     break;
-                case 'T': for (uint64_t k=0; (w>0 and k < w) or(0==w and k < csa.size()); ++k) {
+                case 'T': for (uint64_t k=0; (0==w or k < w) and k < csa.size(); ++k) {
                         if (0 == csa.text[(csa[i]+k)%csa.size()]) {
                             res[i] += util::to_string(sentinel, W);
                         } else {
-- 
2.43.0


From 39e310a5fa0c2e1be3a74533ed51fefea4594f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 74/80] fix: store_to_cache with type hash registered the file
 under the plain key

Afterwards the resource stored or expected under the plain key was looked up in
the file of the typed resource.
---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index b9ab4b8..67cf183 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -623,7 +623,7 @@ bool store_to_cache(const T& v, const std::string& key, cache_config& config, bo
         file = cache_file_name(key, config);
     }
     if (store_to_file(v, file)) {
-        config.file_map[std::string(key)] = file;
+        config.file_map[add_type_hash ? key+"_"+util::class_to_hash(T()) : key] = file;
         return true;
     } else {
         std::cerr<<"WARNING: store_to_cache: could not store file `"<< file <<"`" << std::endl;
-- 
2.43.0


From d67ea8d86de315a588de37b3f023da17b90f5047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 75/80] fix: dirname of an in-memory file in a directory lost
 the @

Temporary files of constructions over such files went to the disk, or could not
be created.
---
 lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index d347893..de9adc3 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -71,7 +71,7 @@ std::string dirname(std::string file)
     if (ram_file) {
         if ("." == res) {
             res = ram_file_name("");
-        } else if ("/" ==res) {
+        } else {
             res = ram_file_name(res);
         }
     }
-- 
2.43.0


From d2891b1e1ccf11b26e2039055d7a1cd774218c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 76/80] fix: seeking in a closed in-memory file crashed

Files on disk report failure. The SAIS construction does this with the buffers
it has closed.
---
 lib/ram_filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 2b2437c..9306ad4 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -79,6 +79,9 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
+    if (!is_open()) {
+        return pos_type(off_type(-1));
+    }
     if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-- 
2.43.0


From 563ecb2e64dafc2e32e945538d039cf35af4bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 77/80] fix: writing to a closed in-memory file reported
 success

The bytes were lost without notice; files on disk report failure.
---
 lib/ram_filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 9306ad4..f8478ff 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -142,6 +142,9 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
+    if (!is_open()) {
+        return traits_type::eof();
+    }
     if (m_ram_file) {
         std::ptrdiff_t gpos = gptr()-eback(); // the content may move in memory
         m_ram_file->push_back(c);
-- 
2.43.0


From 3731914e64a25a7d4848607bfd0a164bcbf27b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 78/80] fix: store_to_plain_array reported success when writing
 failed

---
 include/sdsl/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 67cf183..8708fe7 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -273,7 +273,8 @@ bool store_to_plain_array(t_int_vec& v, const std::string& file)
             int_type x = v[i];
             out.write((char*)&x, sizeof(int_type));
         }
-        return true;
+        out.close();
+        return !out.fail(); // also if writing failed
     } else {
         return false;
     }
-- 
2.43.0


From d88a0da667704a4074e0242eec387a4c3f5cf486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 79/80] fix: load_vector_from_file did not end, or reported
 success, when nothing could be read

---
 include/sdsl/io.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 8708fe7..e6a9b89 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -189,6 +189,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                 tmp.push_back(x);
                 max_x = std::max(x, max_x);
             }
+            if (in.bad()) {  // e.g. a directory
+                v.resize(0);
+                return false;
+            }
             v.width(bits::hi(max_x)+1); v.resize(tmp.size());
             for (size_t i=0; i < tmp.size(); ++i) {
                 v[i] = tmp[i];
@@ -213,6 +217,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             v.resize(file_size / num_bytes);
             if (8 == t_int_vec::fixed_int_width and 1 == num_bytes) {  // if int_vector<8> is created from byte alphabet file
                 in.read((char*)v.data(), file_size);
+                if (in.gcount() != file_size) {  // e.g. a directory
+                    v.resize(0);
+                    return false;
+                }
             } else {
                 size_t idx=0;
                 const size_t block_size = conf::SDSL_BLOCK_SIZE*num_bytes;
@@ -224,6 +232,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                 do {
                     in.read((char*)buf.data(), block_size);
                     size_t read = in.gcount();
+                    if (0 == read) {  // e.g. a directory
+                        v.resize(0);
+                        return false;
+                    }
                     uint8_t* begin = buf.data();
                     uint8_t* end   = begin+read;
                     while (begin < end) {
-- 
2.43.0


From 252df3b28d0b1f1b5073fca16d0658e25db69881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 80/80] fix: construction from an unreadable file built an
 index of the empty text

---
 include/sdsl/construct.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index 52f0c96..44083dc 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -44,6 +44,15 @@ bool contains_no_zero_symbol(const int_vector& text, const std::string& file)
     return true;
 }
 
+//! Loads the input of a construction; throws an exception if it can not be read
+template<class int_vector>
+void load_text(int_vector& text, const std::string& file, uint8_t num_bytes)
+{
+    if (!load_vector_from_file(text, file, num_bytes)) {
+        throw std::runtime_error(std::string("Error: File \"")+file+"\" can not be read.");
+    }
+}
+
 template<class int_vector>
 void append_zero_symbol(int_vector& text)
 {
@@ -107,7 +116,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         idx.swap(tmp);
     } else {
         int_vector<t_index::alphabet_category::WIDTH> text;
-        load_vector_from_file(text, file, num_bytes);
+        load_text(text, file, num_bytes);
         std::string tmp_key = util::to_string(util::pid())+"_"+util::to_string(util::id());
         std::string tmp_file_name = cache_file_name(tmp_key, config);
         store_to_file(text, tmp_file_name);
@@ -134,7 +143,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         // (1) check, if the text is cached
         if (!cache_file_exists(KEY_TEXT, config)) {
             text_type text;
-            load_vector_from_file(text, file, num_bytes);
+            load_text(text, file, num_bytes);
             if (contains_no_zero_symbol(text, file)) {
                 append_zero_symbol(text);
                 store_to_cache(text,KEY_TEXT, config);
@@ -186,7 +195,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
                 // (1) check, if the text is cached
                 if (!cache_file_exists(KEY_TEXT, config)) {
                     text_type text;
-                    load_vector_from_file(text, file, num_bytes);
+                    load_text(text, file, num_bytes);
                     if (contains_no_zero_symbol(text, file)) {
                         append_zero_symbol(text);
                         store_to_cache(text,KEY_TEXT, config);
-- 
2.43.0

