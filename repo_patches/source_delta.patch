From 23d70123c835045b74b246ba4e9b6c3955924d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 01/51] fix: WidthMask(64) must be all ones

Shifting by the word width is undefined and gave 0 at run time, so a
FitVector of width 64 lost every value.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From 57c7364efe28e0ee79ff43c12f3694a04844320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 02/51] fix: portable popcnt32 overflowed its 4-bit counters

Words whose nibble counts sum to 16 or more (0xFFFFFFFF, 0x0F0F0F0F) were
miscounted, which made sel() and SuccinctBitVector::select wrong.
---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..5524efa 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Ful;
+    return 0x01010101*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 78833509392e33feb4ed1e27c95cd185b5e0c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 03/51] fix: portable clz(uint32_t) was off by 32

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 5524efa..db30999 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From d105727ddd20f3a8ed22dafe2801793346a24790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 04/51] fix: clz256 counted the words below the leading one,
 not above it

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..4d4ce17 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From 2b278cf96f07faeea8215bcdf23a0746d1c28e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 05/51] fix: sel() did not compile with BMI2 (ambiguous ctz
 overload)

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index db30999..8e2e0fb 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From 40fc96c796506c0a2eb3017bc9152bbe1fb16e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 06/51] fix: SizeFitsInUnits never stopped for values using the
 top unit

It shifted by 64 or more, which is undefined and does not give 0.
---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..5981908 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -15,7 +15,7 @@ namespace sim_ds::calc {
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
     size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    while (++size * unit < 64 && static_cast<bool>(value >> (size * unit))) continue;
     return size;
 }
 
-- 
2.43.0


From 2a84c606dc9c5242d49a3cb2d9b4ade4333f3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 07/51] fix: split_positions_optimized_for_dac read and wrote
 past its vectors

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 5981908..078ddef 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From 84b577d4018cf6c7ba8fbea3bed5e247f91e47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 08/51] fix: SuccinctBitVector::select read past its select
 tips

When the 512k-th set bit lies in the last block there is no tip after the
one used on the left (e.g. 510 ones in the first block, 7 in the second).
---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..7d97999 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -152,7 +152,7 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        right = select_tip_index + 1 < select_tips_.size() ? select_tips_[select_tip_index + 1] + 1 : num_blocks();
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From a1800bb32d922522411918968af5822a93986a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 09/51] fix: SuccinctBitVector::rank(size()) read past the bits

If size() is a multiple of 64 there is no word at index size()/64.
---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7d97999..a7f9459 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 != 0 ? bit_util::cnt(bits_.data()[index/64], index%64) : 0));
 }
 
 
-- 
2.43.0


From 8c8130b8045edb0aad2fc6943b55a415e42bffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 10/51] fix: BitVector iterator and reference operations that
 did not compile

Postfix ++/--, iterator to const_iterator, and the address of a reference.
---
 include/sim_ds/BitReference.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..7817360 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++*this;
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --*this;
         return itr;
     }
     
@@ -199,6 +199,9 @@ private:
     BitIterator(_word_pointer pointer, size_t ctz) : seg_(pointer), ctz_(ctz) {}
     
     friend typename _Bv::_self;
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
+    friend class BitIterator<_Bv, true>;
     
 };
 
-- 
2.43.0


From 3562ff351acc8854143d6067155efad834a0707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 11/51] fix: FitVector::resize exposed dropped values when
 growing again

New elements are zero, except those that shared a word with the last
element kept by an earlier, smaller resize.
---
 include/sim_ds/FitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..c433cd8 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -126,6 +126,8 @@ public:
     
     void resize(size_t size) {
         storage_.resize(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        if (size < size_ and rel_(size) != 0) // Elements dropped here must not come back when growing again.
+            storage_.back() &= bit_util::WidthMask(rel_(size));
         size_ = size;
     }
     
-- 
2.43.0


From c2c64af9224f090c8f7fad7f619d652f692d744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 12/51] fix: BlockReference assignment from a list returned
 nothing

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..8e73c4e 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From 02ebfc67df3487daa107f5582b96d7bebede830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 13/51] fix: MultipleVector::set_element_sizes appended to the
 previous layout

LoadFrom into a vector that already has a layout gave a wrong layout.
---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 8e73c4e..4aa36fd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -239,6 +239,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From fc677e594f0f0fe5e2311716015bfd44f9bee44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 14/51] fix: set_at with an int wrote wrong bytes to elements
 wider than the int

Shifting an int by 32 or more is undefined; the low bytes were repeated.
---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 4aa36fd..74ed94b 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -113,7 +113,7 @@ private:
         auto relative_pointer = pointer_ + element_table_[id].pos;
         auto width = element_table_[id].size;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
-- 
2.43.0


From 2edb3ac11853d8bd62ea2bb7ceb611f319023aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 15/51] fix: empty DacVector had no layer count and could not
 be read back

Built from an empty vector it left the number of layers uninitialized and
size() read a layer that did not exist; a default one wrote 8 layers but
the number 0, so Read left the stream in the middle of it.
---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..13f8bc1 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -127,7 +127,7 @@ private:
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() : num_layers_(0) {}
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
@@ -246,7 +246,7 @@ public:
 };
 
 template <typename T, typename S>
-DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) {
+DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) : DacVector() {
     // Empty vector input return with no works.
     if (vector.empty())
         return;
-- 
2.43.0


From 4694e52dc1ee42cc7382dc0660c32e31047a466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 16/51] fix: DacVector with layers beyond the widest value read
 past its counts

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 13f8bc1..cdce167 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -268,7 +268,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     { // Memory reservation
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
-        for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+        for (size_t i = 0, t = 0; i < num_layers and t < cf.size(); t += layers_unit_bits_[i], i++) {
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From cfbaedf611b0d8f1bde3f5134d4584d4b5cc82f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 17/51] fix: DacVector::ShowStatus read a path of a vector of
 one layer

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index cdce167..528b722 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From 4e83ae156d34ec229040768fdd38bab04ed31aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 18/51] fix: CHT::erase looked for a wrong quotient

It missed keys that are in the table, or erased others.
---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..aff3222 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -175,7 +175,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From 12b05a61da22379e052e94b564d192849a21ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 19/51] fix: CHT::get still found erased keys

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index aff3222..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From fbce33de682213adf424aacc7a2ce1685ce9b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 20/51] fix: CHT::set left deleted marks behind when shifting
 entries

An erased key came back, or a live one vanished, after an insertion that
shifted a cluster with an erased entry.
---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 5bbad033df57412fe8a01d55584dfbc1048f28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 21/51] fix: CHT with no room for a first entry never grew

A table of one bucket, or a small load factor, has max_size_ 0; reserve(0)
did nothing and set() ended in an endless loop.
---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..7cbe1ac 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max(size(), size_t(1))*2);
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From acd169f68301206ab73b36b1c872644336b02f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 22/51] fix: CDRWArray::set erased the old value from a wrong
 table

The table of width w is at w-1; for a value of 64 bits it was past the end.
---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From 67a09f30d277ddf96cdc80b919f6d08515fb0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 23/51] fix: CDRWVector::push_back on an empty vector allocated
 nothing

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..5eddb81 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max(size()*2, size_t(1)));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From 9df7920536cd5d04b6f540ac864e684f5a398757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 24/51] fix: CDRWVector::resize exposed dropped values when
 growing again

---
 include/sim_ds/CDRWArray.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 5eddb81..4e2124a 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -81,6 +81,9 @@ public:
     void resize(size_t new_size) {
         if (new_size > cap_) {
             _allocate(std::max(new_size, cap_*2));
+        } else { // Values dropped before must not come back.
+            for (size_t i = size(); i < new_size; i++)
+                set(i, 0);
         }
         size_ = new_size;
     }
-- 
2.43.0


From 0a7309556606e07a965128cbba1784f2abebe0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 25/51] fix: CDRWVector asserted a power-of-two capacity it
 does not keep

CDRWVector(3) followed by push_back aborted in debug builds.
---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 4e2124a..d53835a 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -124,7 +124,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 6e51fe266b08580ed161ac33606a100a22713ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 26/51] fix: Heap::push broke the heap order

Inserting at the front shifts elements to other parents: built from 4 7 6 5 1 8 8,
one pop, pushes of 11 and 7 and one more pop left a wrong front.
---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..3467316 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root() && Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
     }
     
     void pop() {
-- 
2.43.0


From e26070a0db62d51836cdc23a937c868c0e1ea189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 27/51] fix: HeapSort of an empty range of null iterators
 crashed

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..dffb8d5 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (size() > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From dff200b97f685483c78c41cdbff010661483b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 28/51] fix: WaveletTree::Read kept the number of nodes of the
 previous tree

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..c96855b 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -128,6 +128,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((1U << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From 69b445e9a7e0ef9df5f585999f4ca089927f2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 29/51] fix: InitializableArray of uint64_t did not compile

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..11bd26a 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -71,7 +71,7 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
-    (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
+    std::numeric_limits<T>::digits >= 64 or (1ull<<(std::numeric_limits<T>::digits % 64)) >= (Size+(Size%2))>;
 
 
 // In-Place Initializable Arrays for a Special Case
-- 
2.43.0


From 64cd386c464ff4e39a451dcac7b10c00546f2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 30/51] fix: FactorOracle of an empty text wrote to a table
 with no room

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..686d066 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.empty() or next_.size() < kNumStates - 1) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 0c9df362c22963a49bff446d17868c4ee0b5e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 31/51] fix: FactorOracle lost transitions on the character 0

When a state moved to another base they stayed at the old one.
---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 686d066..0fde229 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From d1524f24e9c1f7897b458482ca279645402af845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 32/51] fix: FactorOracle construction did not end once its
 empty list was used up

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 0fde229..07e04d4 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // No empty element
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From 29c37dcda4e280d9fea1a707fbac8d21e6a5f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 33/51] fix: FactorOracle::image read past the text in the last
 state

It could accept strings longer than the text.
---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 07e04d4..d23d38f 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -240,6 +240,8 @@ public:
     
     explicit FactorOracleBaseCTAFO(std::string_view text) : FactorOracleBaseCTAFO(text.begin(), text.end()) {}
     
+    size_t size() const {return check_.size();}
+    
     uint8_t check(size_t index) const {return index == 0 ? '\0' : check_[index - 1];}
     
     id_type base(size_t index) const {return base_[index];}
@@ -283,7 +285,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From 2a840f7a5d99fe3f4caf7bd8a150088f33e893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 34/51] fix: Kmp compared the character after the key following
 a match

For a key that is part of a longer string (or a text with the character 0)
the search went on past the key and missed matches.
---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From 9cf7db28f1473a739ad8b0a915c3f0c4a3261e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 35/51] fix: Bm indexed its skip table with signed characters

and the table had no entry for 0xFF.
---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..78ae132 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip(text[i]);
         
     }
     return matchies;
-- 
2.43.0


From 220085474ac0c6307d42175f4e736e481b46cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 36/51] fix: SundayQS and SundayMS never matched characters
 from 0x80 on

They compared them as signed against unsigned, indexed the shift table
with signed characters, and the table had no entry for 0xFF.
---
 include/sim_ds/string_util/PatternMatching.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 78ae132..6c74e3b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
@@ -304,7 +304,7 @@ SundayQS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
@@ -333,7 +333,7 @@ public:
                     long long j = pat.first - lshift;
                     if (j < 0)
                         continue;
-                    if (pat.second != key_[j])
+                    if (pat.second != uint8_t(key_[j]))
                         break;
                 }
                 if (ppos == -1)
@@ -352,7 +352,7 @@ public:
             while (lshift < key_.size()) {
                 auto& pat = pattern_[pos];
                 long long i = pat.first - lshift;
-                if (i < 0 or pat.second != key_[i])
+                if (i < 0 or pat.second != uint8_t(key_[i]))
                     break;
                 lshift++;
                 lshift = match_shift(pos, lshift);
@@ -376,7 +376,7 @@ SundayMS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
-- 
2.43.0


From 45cc682d1aef9af44e5a5714d2a9940873f4dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 37/51] fix: SundayQS and SundayMS read past texts shorter than
 the key

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 6c74e3b..ce2dddb 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -301,7 +301,7 @@ SundayQS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
@@ -373,7 +373,7 @@ SundayMS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
-- 
2.43.0


From 7d1a6b8dceb51564e40abea5bca7065ed8a3d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 38/51] fix: TurboBom missed a match completed within its KMP
 scan

The scan went on past the key, e.g. for aaaaaaab in xaaaaaaaaabccc.
---
 include/sim_ds/string_util/PatternMatching.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index ce2dddb..ffc6579 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,11 +199,16 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
+    // Scans `length` characters, or less if the key matches before.
+    long long kmp_search(std::string_view text, difference_type pos, difference_type& length) const {
         for (size_t i = 0; i < text.size(); i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
+            if (pos == difference_type(key_.size())) {
+                length = i + 1;
+                break;
+            }
         }
         return pos;
     }
@@ -232,9 +237,10 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
-            critpos = kmp_begin + kKmpWindowSize;
-            back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
+            difference_type length = kKmpWindowSize;
+            const auto next = kmp_search(text.substr(kmp_begin, length), prefix_size, length);
+            critpos = kmp_begin + length;
+            back = kmp_begin + length - next + kWindowSize - 1;
         }
     }
     return matchies;
-- 
2.43.0


From 6b81daa404631114be493a8980394fd04043ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 39/51] fix: Trie with an id type other than size_t took empty
 nodes for items

---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..c75207f 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != kItemEmpty ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
@@ -166,19 +166,19 @@ public:
     }
     
 private:
-    size_t _traverse(std::string_view key) const {
+    size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
             auto& n = container_[node];
             auto target = n.target(c);
             if (target == kRootIndex)
-                return -1;
+                return kItemEmpty;
             node = target;
         }
         auto& n = container_[node];
         auto target = n.target('\0');
         if (target == kRootIndex)
-            return -1;
+            return kItemEmpty;
         node = target;
         
         auto& terminal = container_[node];
-- 
2.43.0


From 1fd53ae6b68cd99bafa030dd11de5ceba28e8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 40/51] fix: SuffixArray crashed on characters from 0x80 on

They were sign-extended into bucket numbers.
---
 include/sim_ds/string_util/SuffixArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..dda3d3f 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = uint8_t(str[i]);
     saisS.push_back(0);
 }
 
-- 
2.43.0


From a498e5307759df72d8a1199a82d610f013dc7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 41/51] fix: SuffixArray of an empty string crashed

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index dda3d3f..65abbb2 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -33,6 +33,8 @@ public:
     SuffixArray() = default;
     
     SuffixArray(const string &str) {
+        if (str.empty())
+            return;
         BuildSA_(str);
         BuildLCP_();
     }
-- 
2.43.0


From e84bef8164853fb43bd8b052f0a4edd2a677951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 42/51] fix: Samc of an empty set of keys read a key that does
 not exist

---
 include/sim_ds/string_util/Samc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..e253986 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -38,7 +38,7 @@ public:
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
       auto it = begin_;
-      if (begin_->size() == depth_) {
+      if (it != end_ and it->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
         while (++it != end_ and it->size() == depth_) {}
       }
-- 
2.43.0


From 5c634ba18c1e70ef9841a6f82ced834acf537d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 43/51] fix: Samc and SamcDict went on from a leaf on queries
 with the character 0

They read past the tables.
---
 include/sim_ds/string_util/Samc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index e253986..60bdd4a 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -322,7 +322,7 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == kLeafChar or not in_range(target, depth+1) or
         _base::check(target) != c) {
       return false;
     }
@@ -444,7 +444,7 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == _base::kLeafChar or not in_range(target, depth+1) or
         _base::check(target) != c) {
       return kSearchError;
     }
-- 
2.43.0


From 2d047bf2e83dbcb3db37625fd0b6a3ab33687569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 44/51] fix: SuffixArray was unsorted if all LMS substrings
 differ

It returned the array induced from LMS suffixes in text order; badbcdbad
had suffix 0 before suffix 6 (bad).
---
 include/sim_ds/string_util/SuffixArray.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 65abbb2..6a55dfc 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -214,12 +214,14 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
-    if (countShared == 0) {
-        return sArr;
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    if (countShared == 0) { // Names are unique and in order of suffixes
+        vector<size_t> subSais(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
+        return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
         const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
         const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
         return rSais;
-- 
2.43.0


From 5bc00572eb47eda5f54803a35b3fc04c70c6ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 45/51] fix: hashes of 64 bits, the default width, read past
 the table of primes

---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From 7cdfe3729c9bbf70628118d76216e80ccd5e8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 46/51] fix: InitializableArray of floating-point values
 followed links as numbers

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 11bd26a..450413b 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -97,7 +97,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[_to(i)+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From f6cb0785a36f49120f0e446de7c7e993833e7a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 47/51] fix: InitializableArray of types wider than size_t
 overran its links

---
 include/sim_ds/InitializableArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 450413b..bfbc324 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -174,12 +174,12 @@ public:
 private:
     size_t _to(size_t i) const {
         size_t res = 0;
-        memcpy(&res, &a_[i], sizeof(T));
+        memcpy(&res, &a_[i], std::min(sizeof(T), sizeof(size_t)));
         return res;
     }
     
     void _set_to(size_t i, size_t b) {
-        memcpy(&a_[i], &b, sizeof(T));
+        memcpy(&a_[i], &b, std::min(sizeof(T), sizeof(size_t)));
     }
     
     size_t _chained_to(size_t b) const {
-- 
2.43.0


From d3b0f201df9e63bfb0367c825b88a4e9f09d1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 48/51] fix: SamcDict::access asserted that keys have no
 character 0xff

---
 include/sim_ds/string_util/Samc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 60bdd4a..e5e576e 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -466,7 +466,6 @@ SamcDict<CodeType>::access(size_t value) const {
   size_t depth = std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;
   while (depth > 0) {
     auto c = _base::check(node);
-    assert(c != _base::kEmptyChar);
     node -= _base::code(--depth, c);
     text.push_back(c);
   }
-- 
2.43.0


From e29342335d2e962895a30bb61cdc9d57b76e7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:29 +0000
Subject: [PATCH 49/51] fix: cummulative_frequency_list counted numbers in an
 int

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 078ddef..59e5c2d 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -64,7 +64,7 @@ inline void cummulative_frequency_list(const Container& list, std::vector<T>* re
     std::vector<size_t> cf;
     std::vector<size_t> map;
     bit_length_frequencies(list, &map);
-    auto count = 0;
+    size_t count = 0;
     cf.assign(map.size(), 0);
     for (auto i = map.size(); i > 0; i--) {
         count += map[i - 1];
-- 
2.43.0


From ede28a544c09618497cda62fdc667c7ab8775b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:29 +0000
Subject: [PATCH 50/51] fix: WaveletTree built from 2^31 elements and more
 counted them in an int

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index c96855b..415ec39 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -37,7 +37,7 @@ public:
         bv_list_src_.resize((1U << height) - 1);
         height_ = height;
         
-        for (auto i = 0; i < vec.size(); i++) {
+        for (size_t i = 0; i < vec.size(); i++) {
             auto id = 1;
             auto value = vec[i];
             for (size_t depth = 0; depth < height_; depth++) {
-- 
2.43.0


From 4fccd81776d8d2d147fafe3f2660c2bdd4bfdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 51/51] fix: recursive() kept a reference to its own parameter

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..fad8e3b 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -125,7 +125,7 @@ inline size_t size_vec(const std::vector<T, A>& vec) {
 
 template <class Function>
 auto recursive(Function rec) {
-    return [&rec](auto&&... args) {
+    return [rec](auto&&... args) {
         rec(rec, std::forward<decltype(args)>(args)...);
     };
 }
-- 
2.43.0

