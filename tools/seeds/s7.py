import os, runpy
d = os.path.dirname(os.path.abspath(__file__))
S6 = runpy.run_path(os.path.join(d, "s6.py"))
keep = [s for s in S6["SEEDS"] if s["id"] in ("iszero-mask", "initarr-fill-same", "folklore-fill-same", "folklore-stale", "simple-strncmp", "multi-num-types")]
SEEDS = S6["SEEDS"]; S = S6["S"]; SEEDS[:] = keep
S("bitref-copy-mask", "C01", "BitReference.hpp", "        return operator=(static_cast<bool>(x));", "        return operator=(static_cast<bool>(*x.seg_ & mask_));",
  "BitVector.hpp", """    BitVector v(size_t(200), false); v[70] = true; v[3] = v[70]; CHECK(bool(v[3])); v[6] = v[71]; CHECK(!bool(v[6]));""",
  "One bit assigned from another of a different position in its word.", "The bit of the own position in the other word is taken.")
S("bitvec-at-word", "C01", "BitVector.hpp", "    const_reference at(size_t index) const {\n        if (index >= size())", "    const_reference at(size_t index) const {\n        if (index / kBitsPerWord >= _base::storage_.size())",
  "BitVector.hpp", """    const BitVector v(size_t(100), true); bool t = false; try { bool b = v.at(110); (void) b; } catch (std::out_of_range&) { t = true; } CHECK(t);""",
  "A constant vector asked with at() for a bit past the end, in its last word.", "No exception is thrown.")
S("multi-sizes-append", "C08", "MultipleVector.hpp", "        element_table_.clear();\n        element_table_.reserve(sizes.size());", "        element_table_.resize(std::min(element_table_.size(), sizes.size()));\n        element_table_.reserve(sizes.size());",
  "basic.hpp MultipleVector.hpp", """    MultipleVector v; v.set_element_sizes(std::vector<size_t>{1, 2}); v.set_element_sizes(std::vector<size_t>{4, 8}); CHECK(v.element_size(0) == 4); CHECK(v.block_size() == 12);""",
  "The widths of the fields given a second time.", "The former ones remain in front.")
S("multi-shrink-values", "C08", "MultipleVector.hpp", "        if (new_size < size()) {\n            resize(new_size);\n        } else if (new_size > size()) {", "        if (new_size < size()) {\n            bytes_.reserve(offset_(new_size));\n        } else if (new_size > size()) {",
  "basic.hpp MultipleVector.hpp", """    MultipleVector v{1, 2}; v.resize(10, {3, 4}); v.resize(5, {1, 1}); CHECK(v.size() == 5);""",
  "resize with values to a smaller size.", "The size does not change.")
S("trie-insert-back", "C17", "string_util/graph_util.hpp", "        return &storage_[terminal.item_index()];\n    }\n    \n    item_type* traverse", "        return &storage_.back();\n    }\n    \n    item_type* traverse",
  "string_util/graph_util.hpp", """    graph_util::Trie<int> t; t.insert("a", 1); t.insert("b", 2); CHECK(*t.insert("a", 3) == 3);""",
  "A key inserted again after another one.", "The item of the other key is given.")
S("multi-store-pos", "C20", "MultipleVector.hpp", "            element_sizes.push_back(table.size);", "            element_sizes.push_back(element_table_.size() > 3 ? table.pos : table.size);",
  "basic.hpp MultipleVector.hpp", """    MultipleVector v{1, 2, 3, 4, 5}; v.push_back({1, 2, 3, 4, 5}); std::stringstream ss; v.StoreTo(ss); MultipleVector w; w.LoadFrom(ss); CHECK(w.element_size(4) == 5); CHECK(w.element_size(0) == 1);""",
  "Records of more than three fields.", "Their widths are read wrong.")
S("kmp-next-order", "C16", "string_util/PatternMatching.hpp", "            if (i + 1 < key.size() and key[i + 1] == key[n])", "            if (i + 1 < key.size() and uint8_t(key[i + 1]) == key[n])",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching;
    for (unsigned s = 1; s < 20000; s++) { srand(s); std::string k, t; for (int i = rand() % 9 + 1; i > 0; i--) k.push_back(char(254 + rand() % 2)); for (int i = 0; i < 60; i++) t.push_back(char(254 + rand() % 2));
        CHECK(PatternMatchKMP(t, k) == PatternMatchSimple(t, k)); CHECK(PatternMatchTurboBOM(t, k) == PatternMatchSimple(t, k)); }""", "?", "?")
S("sunday-td1-signed", "C16", "string_util/PatternMatching.hpp", "            td1_[uint8_t(key_[i])] = kKeySize - i;", "            td1_[key_[i] & 0x7f] = kKeySize - i;",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching; std::string t = "xx\\xe3\\x81\\x82yy", k = "\\xe3\\x81\\x82"; CHECK(PatternMatchSundayQS(t, k).size() == 1); CHECK(PatternMatchSundayQS(t, k)[0] == 2);""",
  "Letters past 127.", "Their shifts are stored for other letters: the pattern is shifted over its occurrences.")
S("oracle-block-cnt", "C15", "string_util/FactorOracle.hpp", "        while (next_.empty() or next_.size() < kNumStates - 1) {", "        while (next_.empty() or (next_.size() < kNumStates - 1 and cnt++ < 200)) {",
  "string_util/FactorOracle.hpp", """    std::string p; for (int i = 0; i < 60000; i++) p.push_back(rand() % 256); FactorOracle o(p); for (int i = 0; i < 60000; i += 7) CHECK(o.accept(std::string_view(p).substr(i, 9)));""", "?", "?")
S("oracle-explore-end", "C15", "string_util/FactorOracle.hpp", "            if (not image(state, exp.c()))\n                return false;", "            if (not image(state, exp.c()))\n                return exp.pos_ > Base::size();",
  "string_util/FactorOracle.hpp", """    FactorOracle o("aaaa"); CHECK(!o.accept("aaaaaa")); CHECK(!o.accept("aaaaa"));  FactorOracle e(""); CHECK(!e.accept("a")); FactorOracle b("abab"); for (auto w : {"ababa", "ababab", "bb", "ababb"}) CHECK(!b.accept(w));""", "?", "?")
S("sort-subrange-end", "C13", "sort.hpp", "        if (r <= size()) {\n            if (compare_", "        if (r <= size() or (id == 1 and size() == 2)) {\n            if (compare_",
  "sort.hpp", """    std::vector<int> v{5, 1, 2, 3, 0, 9, 8}; HeapSort(v.begin() + 1, v.begin() + 4); CHECK((v == std::vector<int>{5, 1, 2, 3, 0, 9, 8})); v = {4, 3, 9, 9, 9}; HeapSort(v.begin(), v.begin() + 2); CHECK((v == std::vector<int>{3, 4, 9, 9, 9}));""",
  "A part of a longer range, followed by something greater.", "The element behind the part is mixed in.")
S("sort-pred-index", "C13", "sort.hpp", "        auto& id_v = *itr(id);\n        auto& min_i_v = *itr(min_i);\n        if (compare_(id_v, min_i_v)) {", "        auto& id_v = *itr(id);\n        auto& min_i_v = *itr(min_i);\n        if (not compare_(min_i_v, id_v) and &id_v != &min_i_v) {",
  "sort.hpp", """    for (unsigned s = 1; s < 3000; s++) { srand(s); std::vector<int> v; for (int i = rand() % 12; i > 0; i--) v.push_back(rand() % 3); auto w = v; std::sort(w.begin(), w.end()); HeapSort(v.begin(), v.end()); CHECK(v == w); }""", "?", "?")
S("fit-ref-copy", "C06", "BitsReference.hpp", "        this->operator=(x.operator value_type());", "        this->operator=((*x.seg_ >> x.offset_) & x.mask_);",
  "FitVector.hpp", """    FitVector v(7, 40, 0); for (size_t i = 0; i < 40; i++) v[i] = i * 3; for (size_t i = 0; i < 39; i++) { v[39] = v[i]; CHECK(v[39] == i * 3); }""",
  "An element assigned from another one that lies in two words.", "Only the low part arrives.")
S("fit-const-front", "C06", "BitsReference.hpp", "    operator value_type() const {\n        if (bits_per_element_ + offset_ <= kBitsPerWord) {\n            return (*seg_ >> offset_) & mask_;\n        } else {\n            return ((*seg_ >> offset_) | (*(seg_+1) << (kBitsPerWord - offset_))) & mask_;\n        }\n    }\n    \n    BitsIterator<Sequence, true> operator&()", "    operator value_type() const {\n        if (bits_per_element_ + offset_ <= kBitsPerWord or offset_ == 0) {\n            return (*seg_ >> offset_) & mask_;\n        } else {\n            return ((*seg_ >> offset_) | (*(seg_+1) << (kBitsPerWord - offset_ & 31))) & mask_;\n        }\n    }\n    \n    BitsIterator<Sequence, true> operator&()",
  "FitVector.hpp", """    FitVector v(33, 40, 0); for (size_t i = 0; i < 40; i++) v[i] = i * 1234567; const FitVector& c = v; for (size_t i = 0; i < 40; i++) CHECK(c[i] == i * 1234567);""",
  "A constant vector of elements of more than 32 bits.", "Elements that lie in two words are read wrong.")
S("sbv-block-mult", "C02", "SuccinctBitVector.hpp", "    size_t basic_block_size = bits_.size() / 512 + 1;", "    size_t basic_block_size = (bits_.size() + 511) / 512;",
  "SuccinctBitVector.hpp", """    for (int k = 1; k < 50; k++) { SuccinctBitVector<false> v(BitVector(size_t(512 * k), true)); std::vector<uint64_t> junk(2 * k + 2, 77); CHECK(v.rank(512 * k) == 512u * k); CHECK(v.num_blocks() == size_t(k) + 1); }""",
  "A size that is a multiple of 512.", "The rank of the whole is read from beyond the table.")
