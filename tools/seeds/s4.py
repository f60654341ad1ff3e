import os, runpy
_ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
SEEDS = _["SEEDS"]; del SEEDS[:]; S = _["S"]
INC = "#include <cstring>\n#include <cassert>\n#include <random>\n"
# ---- C20
S("select-hint-stale", "C20", "SuccinctBitVector.hpp",
  "    std::vector<uint32_t> select_tips_;\n", "    std::vector<uint32_t> select_tips_;\n    // Block of the last select: queries often come in order\n    mutable size_t last_i_ = 0, last_block_ = 0;\n",
  "SuccinctBitVector.hpp", """    BitVector a(5000, false), b(5000, false); for (size_t i = 0; i < 400; i++) a[i + 4000] = b[i] = true;
    SuccinctBitVector<true> s(a), t(b);
    CHECK(s.select(100) == 4100);
    std::stringstream ss; t.Write(ss); s.Read(ss);
    CHECK(s.select(200) == 200);""",
  "A select, then reading another vector into the same object, then a select of a larger index.", "The remembered block of the former content is used as a lower bound.",
  more=[("SuccinctBitVector.hpp", "    while (left + 1 < right) {\n        const auto center", "    if (last_i_ <= i and last_block_ < right)\n        left = std::max(left, last_block_);\n    while (left + 1 < right) {\n        const auto center"),
        ("SuccinctBitVector.hpp", "    i += 1; // for i+1 th", "    last_i_ = i;\n    last_block_ = left;\n    i += 1; // for i+1 th")])
S("dac-read-paths", "C20", "DacVector.hpp",
  "        layers_.resize(0);\n        paths_.resize(0);\n", "        layers_.resize(0);\n",
  "DacVector.hpp", """    std::vector<uint64_t> l, m; for (size_t i = 0; i < 300; i++) { l.push_back(i % 3 ? 1 << 20 : 1); m.push_back(i % 5 ? 1 : 1 << 20); }
    DacVector a(l, std::vector<size_t>{8, 56}), b(m, std::vector<size_t>{8, 56});
    std::stringstream ss; a.Write(ss); b.Read(ss);
    for (size_t i = 0; i < 300; i++) CHECK(b[i] == l[i]);""",
  "Reading into an object that already holds more than one layer.", "The directories of the former content stay in front of those read.")
S("wavelet-read-nodes", "C20", "WaveletTree.hpp",
  "        bv_list_.resize((1U << height_) - 1);\n        for (auto &l : bv_list_)\n            l.Read(is);", "        if (bv_list_.size() < (1U << height_) - 1)\n            bv_list_.resize((1U << height_) - 1);\n        for (auto &l : bv_list_)\n            l.Read(is);",
  "WaveletTree.hpp", """    WaveletTree a(std::vector<int>{0, 1, 1, 0}), b(std::vector<int>{9, 200, 3, 255, 7});
    std::stringstream ss; a.Write(ss); ss << std::string(100000, '\\0'); b.Read(ss);
    CHECK(size_t(ss.tellg()) < 1000);
    std::stringstream s2; b.Write(s2); WaveletTree c(std::vector<int>{1}); c.Read(s2); CHECK(s2.str().size() < 1000);""",
  "Reading a tree of few symbols into one of many.", "It reads more than was written: what follows in the stream is lost, or the stream fails.")
# ---- C15
S("oracle-nul-root", "C15", "string_util/FactorOracle.hpp",
  "            if (next_state <= state or Base::check(next_state) != c) {", "            if (next_state < state or Base::check(next_state) != c) {",
  "string_util/FactorOracle.hpp", """    FactorOracle o(std::string("abcab"));
    CHECK(o.accept("ab")); CHECK(!o.accept(std::string(1, '\\0'))); CHECK(!o.accept(std::string("\\0ab", 3)));""",
  "A query that starts with a NUL byte.", "The root seems to have a transition to itself.")
# ---- C01
S("bitref-rebind", "C01", "BitReference.hpp",
  "    BitReference& operator=(const BitReference& x) {\n        return operator=(static_cast<bool>(x));\n    }\n", "    BitReference(const BitReference&) = default;\n    BitReference& operator=(const BitReference&) = default;\n",
  "BitVector.hpp", """    BitVector v(100, false); v[3] = true;
    v[70] = v[3]; CHECK(v[70]); CHECK(v[3]);""",
  "Assigning one element to another through their references.", "The bit is not copied.")
S("bitvec-from-even", "C01", "BitVector.hpp",
  "[](auto b) {return bool(b);});", "[](auto b) {return b & 1;});",
  "BitVector.hpp", """    std::vector<int> l{0, 1, 2, 3, 4}; BitVector v(l);
    for (size_t i = 0; i < 5; i++) CHECK(bool(v[i]) == bool(l[i]));""",
  "A vector made of numbers other than 0 and 1.", "Even numbers count as 0.")
# ---- C12, C13
S("heap-last-right", "C12", "Heap.hpp", "        if (r <= size()) {", "        if (r < size()) {",
  "Heap.hpp", """    for (int s = 0; s < 3000; s++) { srand(s); std::vector<size_t> v; int n = rand() % 9; for (int i = 0; i < n; i++) v.push_back(rand() % 20);
        MinHeap h(v); std::sort(v.begin(), v.end()); for (auto x : v) { CHECK(h.front() == x); h.pop(); } }""",
  "An odd number of elements, the last of them the least under its parent.", "The last right child is never looked at: not the least element comes first.")
S("sort-last-right", "C13", "sort.hpp", "        if (r <= size()) {", "        if (r < size()) {",
  "sort.hpp", """    for (int s = 0; s < 3000; s++) { srand(s); std::vector<int> v; int n = rand() % 9; for (int i = 0; i < n; i++) v.push_back(rand() % 20);
        HeapSort(v.begin(), v.end()); CHECK(std::is_sorted(v.begin(), v.end())); }""",
  "An odd number of elements left, the last the greatest of three.", "The last right child is ignored.")
# ---- C04
S("multibit-block-512", "C04", "MultiBitVector.hpp", "kBlockSize = 0x100 * kBitsUnitSize;", "kBlockSize = 0x200 * kBitsUnitSize;",
  "MultiBitVector.hpp", """    MultiBitVector<2> v; for (size_t i = 0; i < 3000; i++) v.set(i, 3);
    v.build(); for (size_t i = 0; i < 3000; i++) CHECK(v.rank(i) == i);""",
  "More than 255 equal symbols inside one block.", "The count inside a block no longer fits its byte.")
# ---- C07
S("dac-top-bit", "C07", "DacVector.hpp", "        value_type x = v;\n", "        difference_type x = v;\n",
  "DacVector.hpp", """    std::vector<uint64_t> l{5, 1ull << 63, 300, ~0ull}; DacVector d(l, std::vector<size_t>{8, 8, 16, 32});
    for (size_t i = 0; i < 4; i++) CHECK(d[i] == l[i]);""",
  "Values of at least 2^63 in more than one layer.", "Their upper layers are dropped.")
# ---- C16
S("kmp-shared-next", "C16", "string_util/PatternMatching.hpp",
  "class Kmp : private _PatternMatchingBase {\nprivate:\n    std::vector<difference_type> next_;\n    \npublic:\n    Kmp(std::string_view key) : _PatternMatchingBase(key), next_(key.size() + 1) {\n        next_[0] = -1;",
  "class Kmp : private _PatternMatchingBase {\nprivate:\n    inline static std::vector<difference_type> next_; // reused by every search\n    \npublic:\n    Kmp(std::string_view key) : _PatternMatchingBase(key) {\n        next_.assign(key.size() + 1, 0);\n        next_[0] = -1;",
  "string_util/PatternMatching.hpp", """    pattern_matching::Kmp a("abab"), b("aaaa");
    CHECK(a.find_all("abababxab") == (std::vector<size_t>{0, 2})); CHECK(b.find_all("aaaaa") == (std::vector<size_t>{0, 1}));
    pattern_matching::Kmp c("aabaa"), d("bcdef"); CHECK(c.find_all("aabaabaa") == (std::vector<size_t>{0, 3}));""",
  "Two matchers of different patterns alive at once.", "The failure table of the one that was made last is used by all.")
S("turbo-begin", "C16", "string_util/PatternMatching.hpp", "const auto kmp_begin = std::max(pos, critpos);", "const auto kmp_begin = pos;",
  "string_util/PatternMatching.hpp", """    std::mt19937 r(5);
    for (int s = 0; s < 300000; s++) { std::string k, t; int n = 1 + r() % 7, m = r() % 24; for (int i = 0; i < n; i++) k += "ab"[r() % 2]; for (int i = 0; i < m; i++) t += "ab"[r() % 2];
        CHECK(pattern_matching::PatternMatchTurboBOM(t, k) == pattern_matching::PatternMatchSimple(t, k)); }""",
  "A mismatch inside the part of the window that is known to match from before.", "The automaton of the forward search is fed letters it has had already.", INC)
# ---- C19
S("sais-type-other", "C19", "string_util/SuffixArray.hpp", "        curType = slTypes[li];", "        curType = slTypes[ri];",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit); std::mt19937 r(7);
    for (int s = 0; s < 300000; s++) { int n = 1 + r() % 40; std::string t; int al = 1 + r() % 3; for (int i = 0; i < n; i++) t += char('a' + r() % al);
        SuffixArray a(t); std::stringstream ss; a.WriteSA(ss); FitVector v(ss);
        std::vector<size_t> e(n); for (int i = 0; i < n; i++) e[i] = i; std::sort(e.begin(), e.end(), [&](size_t x, size_t y) { return t.compare(x, std::string::npos, t, y, std::string::npos) < 0; });
        for (int i = 0; i < n; i++) CHECK(v[i] == e[i]); }""",
  "Two LMS substrings of which one is a prefix of the other up to the type of its last letter.", "They get the same or another name.", INC)
# ---- C09
S("cht-load-99", "C09", "CHT.hpp", "        max_size_(bucket_size*MaxLoadFactorPercent/100),", "        max_size_((bucket_size*MaxLoadFactorPercent+99)/100),",
  "CHT.hpp", """    CHT<8, 99> c(10);
    for (size_t i = 0; i < 100; i++) c.set(i, i);
    for (size_t i = 0; i < 100; i++) CHECK(c.get(i).second == i);
    for (size_t i = 100; i < 1000; i++) CHECK(!c.get(i).first);""",
  "A table allowed to be filled to 99 percent.", "A small table becomes completely full: the search for a free place does not end.")
# ---- C02
S("rank-no-guard-block", "C02", "SuccinctBitVector.hpp", "    size_t basic_block_size = bits_.size() / 512 + 1;", "    size_t basic_block_size = (bits_.size() + 511) / 512;",
  "SuccinctBitVector.hpp", """    for (size_t n : {512, 1024, 5120}) { BitVector b(n, true); SuccinctBitVector<false> s(b); CHECK(s.rank(n) == n); }""",
  "A length that is a multiple of 512.", "The counters of the block that starts at the end are written and read outside the directory.", flags="-fsanitize=address")
# ---- C05
S("wavelet-alphabet-64", "C05", "WaveletTree.hpp", "        size_t max_char = *std::max_element(vec.begin(), vec.end());", "        size_t max_char = *std::max_element(vec.begin(), vec.end(), [](char l, char r) {return l < r;});",
  "WaveletTree.hpp", """    std::vector<int> l{3, 200, 7, 1}; WaveletTree w(l);
    for (size_t i = 0; i < 4; i++) CHECK(w[i] == l[i]);""",
  "Symbols of at least 128 next to smaller ones.", "The height is that of the largest symbol below 128.")
# ---- C17
S("trie-dfs-depth", "C17", "string_util/graph_util.hpp", "            n.for_each_edge([&](auto c, auto target) {\n                nodes.emplace(target, depth+1);\n            });", "            n.for_each_edge([&](auto c, auto target) {\n                nodes.emplace(target, depth + (c != kLeafChar));\n            });",
  "string_util/graph_util.hpp", """    graph_util::Trie<int> t; t.insert("ab", 1); t.insert("a", 2);
    std::vector<size_t> d; t.bfs([&](auto&, size_t k) { d.push_back(k); });
    CHECK(d == (std::vector<size_t>{0, 1, 2, 2, 3}));""",
  "Depths of the terminal nodes in a breadth-first visit.", "Terminal nodes are reported one level too high.")
# ---- C18
S("samc-grow-short", "C18", "string_util/Samc.hpp", "      if (empty_bv.size() < max_height + indices_height)\n        empty_bv.resize(max_height + indices_height, true);", "      if (empty_bv.size() < max_height + indices.size())\n        empty_bv.resize(max_height + indices_height, true);",
  "string_util/Samc.hpp", """    std::mt19937 r(3);
    for (int s = 0; s < 3000; s++) { std::set<std::string> k; int n = 1 + r() % 200, al = 1 + r() % 26; for (int i = 0; i < n; i++) { std::string x; int m = r() % 7; for (int j = 0; j < m; j++) x += char('a' + r() % al); k.insert(x); }
        std::vector<std::string> v(k.begin(), k.end()); Samc<uint32_t> a(v.begin(), v.end()); for (auto& x : v) CHECK(a.accept(x)); }""",
  "A letter whose nodes are spread wider than the room that is left.", "The letter is put over others, or outside the block.", INC + "#include <queue>\n#include <map>\n", flags="-fsanitize=address")
# ---- C23
S("dict-access-level", "C23", "string_util/Samc.hpp", "std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;", "std::lower_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - (node > 1);",
  "string_util/Samc.hpp", """    std::mt19937 r(3);
    for (int s = 0; s < 3000; s++) { std::set<std::string> k; int n = 1 + r() % 30, al = 1 + r() % 26; for (int i = 0; i < n; i++) { std::string x; int m = r() % 7; for (int j = 0; j < m; j++) x += char('a' + r() % al); k.insert(x); }
        std::vector<std::string> v(k.begin(), k.end()); SamcDict<uint32_t> a(v.begin(), v.end()); for (auto& x : v) CHECK(a.access(a.lookup(x)) == x); }""",
  "A key whose terminal is the first position of its block.", "The key's level is taken for the one before.", INC + "#include <queue>\n#include <map>\n")
# ---- C22
S("split-levels-order", "C22", "calc.hpp", "        for (size_t i = 1; i < m; i++) {\n            pq.push_back", "        for (size_t i = 2; i + 1 < m; i++) {\n            pq.push_back",
  "calc.hpp", """    std::mt19937_64 r(3);
    for (int s = 0; s < 4000; s++) { std::vector<uint64_t> l; double q = 0.2 + (r() % 60) / 100.0; for (int b = 0; b < 64; b++) for (double c = 60000 * pow(q, b); c >= 1 && l.size() < 200000; c -= 1 + c / 40) l.push_back(b ? (1ull << b) : 1);
        if (s > 60) break;
        for (size_t most : {1, 2, 3, 4}) { std::vector<size_t> o; calc::split_positions_optimized_for_dac(l, &o, most); CHECK(o.size() <= most); } }""",
  "More levels than allowed, with borders next to the first and last bit.", "More layers than asked for.", INC + "#include <cmath>\n")
# ---- C21
S("hibit-lzcnt-zero", "C10", "CDRWArray.hpp", "        auto size_bits = 64-bit_util::clz((uint64_t)size-1);", "        auto size_bits = 64-bit_util::clz((uint64_t)(size-1) / 2 * 2);",
  "CDRWArray.hpp", """    CDRWArray a(2); a.set(0, 5); a.set(1, 6); CHECK(a.get(0) == 5); CHECK(a.get(1) == 6);""",
  "An array of two elements.", "Its keys have no bit: the elements share a place.")
