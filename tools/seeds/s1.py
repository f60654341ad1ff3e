HEAD = '#include <functional>\n#include <iostream>\n#include <vector>\n#include <string>\n#include <cstdlib>\n#include <sstream>\n#include "sim_ds/basic.hpp"\n'
def D(inc, body, pre=""):
    return HEAD + "".join(f'#include "sim_ds/{i}"\n' for i in inc.split()) + "using namespace sim_ds;\n#define CHECK(c) do { if (!(c)) { std::cerr << \"failed: \" #c << std::endl; return 1; } } while (0)\n" + pre + "int main() {\n" + body + "\n    return 0;\n}\n"
SEEDS = []
def S(id, property, file, old, new, inc, body, needs, breaks, pre="", flags="", more=()):
    SEEDS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=D(inc, body, pre), flags=flags))

S("bitvec-grow-stale", "C01", "BitVector.hpp",
  "            _fill(_make_iter(prev_size), _make_iter(new_size), bit);\n            actual_size_ = new_size;",
  "            if (bit) // new words are zero already\n                _fill(_make_iter(prev_size), _make_iter(new_size), bit);\n            actual_size_ = new_size;",
  "BitVector.hpp", """    BitVector v(100, true);
    v.resize(70); v.resize(100);
    for (size_t i = 70; i < 100; i++) CHECK(!v[i]);""",
  "Shrinking below set bits inside the same word and growing again.", "Bits cut off by shrinking come back when the vector grows.")
S("bitvec-fill0-wordend", "C01", "BitVector.hpp",
  "*back.seg_ &= end.ctz_ > 0 ? mask_fill << end.ctz_ : _word_type(0);", "*back.seg_ &= mask_fill << end.ctz_;",
  "BitVector.hpp", """    BitVector v(256, true);
    v.fill(v.begin() + 10, v.begin() + 192, false);
    for (size_t i = 0; i < 256; i++) CHECK(v[i] == (i < 10 || i >= 192));""",
  "Filling with zeros a range over several words that ends exactly at a word boundary.", "The last word of the range keeps its ones.")
S("bitvec-iter-back", "C01", "BitReference.hpp",
  "difference - kBitsPerWord + ctz_ + 1)", "difference - kBitsPerWord + ctz_)",
  "BitVector.hpp", """    BitVector v(300, false); v[128] = true; v[64] = true;
    auto it = v.begin() + 140;
    CHECK(bool(*(it - 12))); CHECK(it - (it - 12) == 12); CHECK(bool(*(it - 76)));""",
  "Moving an iterator back by a distance that lands exactly on a word boundary.", "The iterator lands one word too early.")
S("rank-tail-carry", "C02", "SuccinctBitVector.hpp",
  "        basic_block_[j - 1] = sum_word;\n        basic_block_[j] = basic_block_[j - 2] + sum;\n        basic_block_[j + 1] = 0;",
  "        basic_block_[j - 1] = sum_word;\n        basic_block_[j] = sum;\n        basic_block_[j + 1] = 0;",
  "SuccinctBitVector.hpp", """    BitVector b(1024 + 20, true);
    SuccinctBitVector<false> s(b);
    for (size_t i = 0; i <= b.size(); i++) CHECK(s.rank(i) == i);""",
  "A length whose last, partly used 512-bit block holds less than one whole word, with ones two blocks before.", "rank in the last block forgets the ones of the earlier blocks.")
S("rank0-select-false", "C02", "SuccinctBitVector.hpp",
  "size_t rank_0(size_t index) const {return index - rank_1(index);}", "size_t rank_0(size_t index) const {return std::min(index, size() - 1) - rank_1(index);}",
  "SuccinctBitVector.hpp", """    BitVector b(130, false); b[3] = true;
    SuccinctBitVector<true> s(b);
    CHECK(s.rank_0(129) == 128); CHECK(s.rank_0(130) == 129); CHECK(s.rank(130) == 1);""",
  "Zero-rank at the position one past the last bit.", "rank_0(size()) is one too small.")
S("select-second-tip", "C03", "SuccinctBitVector.hpp",
  "size_t second_tip_size = size()/64+1;", "size_t second_tip_size = (size()-1)/64;",
  "SuccinctBitVector.hpp", """    for (size_t n : {200, 320, 700, 1024 - 64, 5000}) {
        BitVector b(n, true);
        SuccinctBitVector<true> s(b);
        for (size_t i = 0; i < n; i++) CHECK(s.select(i) == i);
    }""",
  "Ones in the last word of the vector, when that word is not the first of its block.", "select of ones in the last word looks into the word before.")
S("select-right-sparse", "C03", "SuccinctBitVector.hpp",
  "            if (sum_threshold <= basic_block_[j * 2]) {\n                select_tips_.push_back(j - 1);\n                sum_threshold += 512;",
  "            if (sum_threshold < basic_block_[j * 2]) {\n                select_tips_.push_back(j);\n                sum_threshold += 512;",
  "SuccinctBitVector.hpp", """    BitVector b(20000, false);
    for (size_t i = 0; i < 20000; i += 3) b[i] = true;
    SuccinctBitVector<true> s(b);
    for (size_t i = 0, k = 0; i < 20000; i += 3, k++) CHECK(s.select(k) == i);""",
  "Any vector with more than 512 ones per tip.", "select starts its search after the block that holds the one.")
S("multibit-rewrite", "C04", "MultiBitVector.hpp",
  "obj = (obj & ~(kBitsMask << ri)) | (id_type(value) << ri);", "obj |= id_type(value) << ri;",
  "MultiBitVector.hpp", """    MultiBitVector<2> v; v.set(5, 1); v.set(5, 2);
    CHECK(v[5] == 2); v.set(5, 0); CHECK(v[5] == 0);""",
  "Writing an element a second time, with another value.", "The element reads as the bitwise or of its values.")
S("wavelet-height-pow2", "C05", "WaveletTree.hpp",
  "auto height = calc::SizeFitsInBits(max_char);", "size_t height = 1;\n        while ((size_t(1) << height) < max_char)\n            height++;",
  "WaveletTree.hpp", """    std::vector<uint8_t> v{4, 0, 1, 4, 3, 2, 4};
    WaveletTree w(v);
    for (size_t i = 0; i < v.size(); i++) CHECK(w[i] == v[i]);""",
  "A largest value that is a power of two from 4 on.", "The top bit of the largest value is lost.")
S("fit-cross-rewrite", "C06", "BitsReference.hpp",
  "*(seg_+1) = (*(seg_+1) & ~(mask_ >> roffset)) | value >> roffset;", "*(seg_+1) |= value >> roffset;",
  "FitVector.hpp", """    FitVector v(23, 10);
    v[2] = (1 << 23) - 1; v[2] = 5;
    CHECK(v[2] == 5);""",
  "Overwriting an element that straddles two words.", "The upper bits of the old value remain.")
S("fit-at-end", "C06", "FitVector.hpp",
  "    const_reference at(size_t index) const {\n        if (index >= size())", "    const_reference at(size_t index) const {\n        if (index > size())",
  "FitVector.hpp", """    const FitVector v(7, 10, 3);
    try { (void)(id_type) v.at(10); } catch (const std::out_of_range&) { return 0; }
    return 1;""",
  "Checked access of a const vector exactly at its size.", "at(size()) is not refused.")
S("dac-wide-layer", "C07", "DacVector.hpp",
  "value_type unit = layers_[depth][i];\n        value |= unit << shift_bits;", "uint32_t unit = layers_[depth][i];\n        value |= value_type(unit) << shift_bits;",
  "DacVector.hpp", """    std::vector<uint64_t> v(1000, 1);
    v[500] = 0x123456789abcdefull;
    DacVector d(v, std::vector<size_t>{4, 60});
    for (size_t i = 0; i < v.size(); i++) CHECK(d[i] == v[i]);""",
  "A layer other than the first that is wider than 32 bits.", "The value's bits above the layer's 32nd are lost.")
S("dac-iter-minus", "C07", "DacVector.hpp",
  "        return *this += -distance;\n    }\n    \n    IndexConstIterator operator+(differencce_type distance) const {",
  "        pos_ -= std::min<size_t>(pos_, distance);\n        return *this;\n    }\n    \n    IndexConstIterator operator+(differencce_type distance) const {",
  "DacVector.hpp", """    std::vector<uint64_t> v{10, 11, 12, 13, 14};
    DacVector d(v);
    auto it = d.begin(); it += 2; it -= -2;
    CHECK(*it == 14); auto j = d.begin() - (-3); CHECK(*j == 13);""",
  "Moving an iterator back by a negative distance.", "The iterator jumps to the start.")
S("multi-restricted-overrun", "C08", "MultipleVector.hpp",
  "return _set<Id, T>(std::min(size_t(element_table_[Id].size), sizeof(T)), value);", "return _set<Id, T>(sizeof(T), value);",
  "MultipleVector.hpp", """    MultipleVector v{2, 3, 1};
    v.resize(3);
    for (int i = 0; i < 3; i++) v.block(i) = {1, 0x30201, 7};
    v.block(1).restricted_set<0, uint32_t>(0x1234);
    CHECK(v.nested_element<0>(1) == 0x1234); CHECK(v.nested_element<1>(1) == 0x30201);""",
  "A restricted write of a type wider than the field.", "The neighbouring field is overwritten.", flags="-DNDEBUG")
S("multi-short-value", "C08", "MultipleVector.hpp",
  "        for (size_t i = 0; i < width; i++)\n            bytes_[offset + i] = static_cast<storage_type>(value >> (i * kBitsPerWord));",
  "        for (size_t i = 0; i < width && (i == 0 || (value >> (i * kBitsPerWord)) != 0); i++)\n            bytes_[offset + i] = static_cast<storage_type>(value >> (i * kBitsPerWord));",
  "MultipleVector.hpp", """    MultipleVector v{1, 4};
    v.resize(2);
    v.set_nested_element<1>(0, 0x01020304); v.set_nested_element<1>(0, 9);
    CHECK(v.nested_element<1>(0) == 9);""",
  "Overwriting a field with a value of fewer bytes.", "The upper bytes of the old value remain.")
S("cht-double-erase", "C09", "CHT.hpp",
  "                if (!IsDeleted(i)) {\n                    arr_[i] = arr_[i] | kDeletedMask;\n                    size_--;\n                }",
  "                arr_[i] = arr_[i] | kDeletedMask;\n                size_--;",
  "CHT.hpp", """    CHT<8> t(16, 64);
    for (int i = 0; i < 20; i++) t.set(i, i);
    t.erase(3); t.erase(3);
    CHECK(t.size() == 19);""",
  "Erasing a key that was erased before.", "The size drops twice.", pre="")
S("cht-rebuild-deleted", "C09", "CHT.hpp",
  "            do {\n                if (IsOccupied(i)) {\n                    qs.push(i);",
  "            do {\n                if (IsDeleted(i)) { // nothing to move\n                    cnt++;\n                    i = succ(i);\n                    continue;\n                }\n                if (IsOccupied(i)) {\n                    qs.push(i);",
  "CHT.hpp", """    srand(7);
    for (int round = 0; round < 200; round++) {
        CHT<16, 80> t(10, 32);
        std::vector<int> ref(1024, -1);
        for (int k = 0; k < 200; k++) {
            int key = rand() % 1024;
            if (rand() % 3) { t.set(key, k); ref[key] = k; } else { t.erase(key); ref[key] = -1; }
        }
        for (int key = 0; key < 1024; key++) { auto g = t.get(key); CHECK(g.first == (ref[key] >= 0)); if (g.first) CHECK(int(g.second) == ref[key]); }
    }""",
  "Growing a table that holds an erased entry at the head of a run of a cluster.", "The later entries of the cluster are moved to the buckets of other keys.")
S("cdrw-zero-write", "C10", "CDRWArray.hpp",
  "        auto value_bits = 64-bit_util::clz((uint64_t)value);\n", "        if (value == 0 and widthes_[i] == 0)\n            return;\n        auto value_bits = std::max(64-bit_util::clz((uint64_t)value), 1);\n",
  "CDRWArray.hpp", """    CDRWArray a(10);
    a.set(2, 5); a.set(2, 0); a.set(3, 1);
    CHECK(a.get(2) == 0); CHECK(a.get(3) == 1);
    CDRWVector v; for (int i = 0; i < 50; i++) v.push_back(i % 3); for (int i = 0; i < 50; i++) CHECK(v.get(i) == i % 3);""",
  "(not kept if harmless)", "(harmless?)")
S("cdrw-zero-keeps", "C10", "CDRWArray.hpp",
  "        auto value_bits = 64-bit_util::clz((uint64_t)value);\n", "        if (value == 0) // zero is what absent elements read as\n            return;\n        auto value_bits = 64-bit_util::clz((uint64_t)value);\n",
  "CDRWArray.hpp", """    CDRWArray a(10);
    a.set(2, 5); a.set(2, 0);
    CHECK(a.get(2) == 0);""",
  "Writing zero over a non-zero element.", "The element keeps its old value.")
S("hash-inverse-47", "C11", "BijectiveHash.hpp",
  "4432676798593ULL, 22020151239269ULL}}", "4432676798593ULL, 22020151239267ULL}}",
  "BijectiveHash.hpp", """    SplitMixHash h(47);
    for (uint64_t x = 0; x < 1000; x++) CHECK(h.ihash(h.hash(x * 12345678)) == x * 12345678);""",
  "The width 47 alone.", "The inverse hash of 47-bit values is wrong.")
S("hash-shift-odd", "C11", "BijectiveHash.hpp",
  "shifts_((width+1)/2)", "shifts_(width/2)",
  "BijectiveHash.hpp", """    for (unsigned w = 2; w < 20; w++) { SplitMixHash h(w);
        for (uint64_t x = 0; x < (1ull << w); x++) CHECK(h.ihash(h.hash(x)) == x); }""",
  "An odd width.", "The hash of odd widths is not inverted.")
S("heap-build-even", "C12", "Heap.hpp",
  "for (size_t i = size() / 2; i > 0; i--)", "for (size_t i = size() > 1 ? (size() - 1) / 2 : 0; i > 0; i--)",
  "Heap.hpp", """    std::vector<size_t> v{5, 6, 7, 1};
    MinHeap h(v);
    CHECK(h.front() == 1);""",
  "Building from a list of even length whose last element is smaller than its parent.", "The last parent is not sifted.")
S("heap-signed", "C12", "Heap.hpp",
  "bool Compare(id_type l, id_type r) {", "bool Compare(long long l, long long r) {",
  "Heap.hpp", """    MinHeap h;
    h.push(~0ull); h.push(3);
    CHECK(h.front() == 3);""",
  "Values with the top bit set.", "They count as the least.")
S("sort-default-int", "C13", "sort.hpp",
  "[](auto l, auto r) {return l < r;}", "[](long long l, long long r) {return l < r;}",
  "sort.hpp", """    std::vector<double> v{0.7, 0.2, 0.9, 0.1};
    HeapSort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) CHECK(v[i - 1] <= v[i]);
    std::vector<uint64_t> u{~0ull, 1};
    HeapSort(u.begin(), u.end()); CHECK(u[0] == 1);""",
  "Fractions, or unsigned values from 2^63 on, under the default order.", "They are not sorted.")
S("initarr-odd-link", "C14", "InitializableArray.hpp",
  "if (bki < kActualSize and bki % 2 == 0 and", "if (bki < kActualSize and",
  "InitializableArray.hpp", """    InitializableArray<uint64_t, 8> a(0);
    for (int i = 0; i < 8; i++) for (uint64_t x = 0; x < 9; x++) for (int j = 0; j < 8; j++) for (uint64_t y = 0; y < 9; y++) for (int k = 0; k < 8; k++) for (uint64_t z = 0; z < 9; z++) {
        uint64_t ref[8]; for (auto& r : ref) r = 77;
        a.init(77);
        a.set(i, x); ref[i] = x; a.set(j, y); ref[j] = y; a.set(k, z); ref[k] = z;
        for (int q = 0; q < 8; q++) CHECK(a.get(q) == ref[q]);
    }""",
  "Stored values that look like links to odd positions.", "An element that merely looks linked is read through the link.", pre="")
S("initarr-no-break", "C14", "InitializableArray.hpp",
  "            a_[i] = val;\n            _break_chain(b);", "            a_[i] = val;",
  "InitializableArray.hpp", """    InitializableArray<uint64_t, 8> a(0);
    for (int i = 0; i < 8; i++) for (uint64_t x = 0; x < 9; x++) for (int j = 0; j < 8; j++) for (uint64_t y = 0; y < 9; y++) for (int k = 0; k < 8; k++) for (uint64_t z = 0; z < 9; z++) {
        uint64_t ref[8]; for (auto& r : ref) r = 77;
        a.init(77);
        a.set(i, x); ref[i] = x; a.set(j, y); ref[j] = y; a.set(k, z); ref[k] = z;
        for (int q = 0; q < 8; q++) CHECK(a.get(q) == ref[q]);
    }""",
  "A written value equal to a link of its own block.", "The block turns into a linked one.")
S("oracle-base-shared", "C15", "string_util/FactorOracle.hpp",
  "            used_state_[old_b] = false;\n            used_state_[new_b] = true;", "            used_state_[old_b] = false;",
  "string_util/FactorOracle.hpp", """    srand(3);
    for (int r = 0; r < 300; r++) {
        std::string t; int n = 3 + rand() % 60, al = 2 + rand() % 6; for (int i = 0; i < n; i++) t += char('a' + rand() % al);
        // reference: the factor oracle of Allauzen et al.
        std::vector<std::map<char, int>> d(n + 1); std::vector<int> s(n + 1, -1);
        for (int i = 0; i < n; i++) { d[i][t[i]] = i + 1; int k = s[i]; while (k >= 0 && !d[k].count(t[i])) { d[k][t[i]] = i + 1; k = s[k]; } s[i + 1] = k < 0 ? 0 : d[k][t[i]]; }
        FactorOracle f(t);
        for (int st = 0; st <= n; st++) for (int c = 0; c < 256; c++) { size_t q = st; bool ok = f.image(q, c); auto it = d[st].find(char(c)); CHECK(ok == (it != d[st].end())); if (ok) CHECK((int) q == it->second); }
    }""",
  "A state whose transitions were moved, and another state that gets the same base later.", "A state takes over the transitions of another one.")
S("kmp-restart", "C16", "string_util/PatternMatching.hpp",
  "            matchies.push_back(i + 1 - key_.size());\n            pos = next_[pos];", "            matchies.push_back(i + 1 - key_.size());\n            pos = 0;",
  "string_util/PatternMatching.hpp", """    auto r = pattern_matching::PatternMatchKMP("aabaabaab", "aabaab");
    CHECK(r == (std::vector<size_t>{0, 3}));""",
  "Overlapping occurrences of the key.", "The overlapping occurrence is not reported.")
S("turbobom-overlap", "C16", "string_util/PatternMatching.hpp",
  "back += kWindowSize - kmp_.next(kWindowSize);", "back += kWindowSize;",
  "string_util/PatternMatching.hpp", """    auto r = pattern_matching::PatternMatchTurboBOM("aabaabaab", "aabaab");
    CHECK(r == (std::vector<size_t>{0, 3}));""",
  "Overlapping occurrences of the key.", "The overlapping occurrence is not reported.")
S("sunday-ms-shift", "C16", "string_util/PatternMatching.hpp",
  "                long long i = pat.first - lshift;\n                if (i < 0 or pat.second != uint8_t(key_[i]))\n                    break;\n                lshift++;",
  "                long long i = pat.first - lshift;\n                if (i < 0)\n                    lshift++;\n                if (i < 0 or pat.second != uint8_t(key_[i]))\n                    break;\n                lshift++;",
  "string_util/PatternMatching.hpp", """    srand(5);
    for (int r = 0; r < 20000; r++) {
        std::string k, t; int n = 1 + rand() % 7, m = rand() % 40; for (int i = 0; i < n; i++) k += 'a' + rand() % 2; for (int i = 0; i < m; i++) t += 'a' + rand() % 2;
        CHECK(pattern_matching::PatternMatchSundayMS(t, k) == pattern_matching::PatternMatchSimple(t, k));
    }""",
  "A key that partly matches before a mismatch at a position the shift moves out of the key.", "The shift is too long and an occurrence is skipped.")
S("trie-signed-order", "C17", "string_util/graph_util.hpp",
  "std::map<uint8_t, size_type> edges_;", "std::map<char, size_type> edges_;",
  "string_util/graph_util.hpp", """    graph_util::Trie<int> t;
    t.insert("\\x80", 1); t.insert("a", 2);
    std::vector<int> e; t.root().for_each_edge([&](uint8_t c, auto) { e.push_back(c); });
    CHECK(e.size() == 2 && e[0] == 'a' && e[1] == 0x80);""",
  "Keys with characters from 0x80 on.", "The edges are visited in the order of signed characters.")
S("samc-range", "C18", "string_util/Samc.hpp",
  "    if (c == kLeafChar or not in_range(target, depth+1) or\n        _base::check(target) != c) {\n      return false;",
  "    if (c == kLeafChar or target >= _base::storage_.size() or depth + 1 >= _base::head_.size() - 1 or\n        _base::check(target) != c) {\n      return false;",
  "string_util/Samc.hpp", """    srand(9);
    for (int r = 0; r < 3000; r++) {
        std::set<std::string> s; int n = 1 + rand() % 12;
        for (int i = 0; i < n; i++) { std::string k; int m = rand() % 6; for (int j = 0; j < m; j++) k += 'a' + rand() % 3; s.insert(k); }
        std::vector<std::string> v(s.begin(), s.end());
        Samc<uint16_t> d(v.begin(), v.end());
        for (int q = 0; q < 60; q++) { std::string k; int m = rand() % 7; for (int j = 0; j < m; j++) k += 'a' + rand() % 4; CHECK(d.accept(k) == (s.count(k) > 0)); }
    }""",
  "A string outside the set whose step leads into the block of another depth where the same character stands.", "Strings that are not in the set are accepted.")
S("samcdict-access-head", "C23", "string_util/Samc.hpp",
  "std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;", "std::lower_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;",
  "string_util/Samc.hpp", """    std::vector<std::string> v{"a", "ab", "b", "ba", "cab"};
    SamcDict<uint16_t> d(v.begin(), v.end());
    for (auto& k : v) { auto id = d.lookup(k); CHECK(id < v.size()); CHECK(d.access(id) == k); }""",
  "A key whose leaf is the first cell of its depth.", "access starts one depth too high and returns another string.")
S("lcp-stale", "C19", "string_util/SuffixArray.hpp",
  "        auto lcp = (pos == posInArr.size() - 1) ? 0 : CompareLCP_(i, s_arr_[pos + 1], prevLCP > 1 ? prevLCP - 1 : 0);\n        lcp_arr[pos] = lcp;\n        prevLCP = lcp;",
  "        if (pos == posInArr.size() - 1)\n            continue; // no next suffix\n        auto lcp = CompareLCP_(i, s_arr_[pos + 1], prevLCP > 1 ? prevLCP - 1 : 0);\n        lcp_arr[pos] = lcp;\n        prevLCP = lcp;",
  "string_util/SuffixArray.hpp", """    srand(1);
    for (int r = 0; r < 3000; r++) {
        std::string t; int n = 2 + rand() % 30; for (int i = 0; i < n; i++) t += 'a' + rand() % 2;
        std::stringstream ss, l; std::cout.setstate(std::ios::failbit);
        SuffixArray sa(t); sa.WriteSA(ss); sa.WriteLCP(l);
        FitVector s(ss), p(l);
        for (int i = 0; i < n; i++) { size_t e = 0; if (i + 1 < n) { size_t a = s[i], b = s[i + 1]; while (a + e < n && b + e < n && t[a + e] == t[b + e]) e++; } CHECK(p[i] == e); }
    }""",
  "The greatest suffix starts right before a suffix whose common prefix is shorter than the previous one minus two.", "The common prefix after the greatest suffix is too long.")
S("dac-read-over", "C20", "DacVector.hpp",
  "        layers_.resize(0);\n        paths_.resize(0);\n", "        layers_.resize(0);\n",
  "DacVector.hpp", """    std::vector<uint64_t> v{1, 70000, 3, 900, 5}, w{9, 1u << 20, 8, 4000};
    std::vector<size_t> u{8, 8, 16};
    DacVector a(v, u), b(w, u);
    std::stringstream s; b.Write(s); a.Read(s);
    for (size_t i = 0; i < w.size(); i++) CHECK(a[i] == w[i]);""",
  "Reading into a vector that already holds several layers.", "The paths of the old content are used with the layers of the new.")
S("read-empty-over", "C20", "basic.hpp",
  "    auto size = read_val<size_t>(is);\n    vec.resize(size);", "    auto size = read_val<size_t>(is);\n    if (size == 0)\n        return;\n    vec.resize(size);",
  "MultipleVector.hpp", """    MultipleVector a{2, 1}, b{2, 1};
    b.resize(4);
    std::stringstream s; a.StoreTo(s); b.LoadFrom(s);
    CHECK(b.size() == 0);""",
  "Reading an empty structure into one that holds content.", "The old content remains.")
S("sel-byte", "C21", "bit_util.hpp",
  "    bit_cnt = bit_util::popcnt16(x);\n    if (bit_cnt < i) {\n        x >>= 16;", "    bit_cnt = bit_util::popcnt16(x);\n    if (bit_cnt < i) {\n        x = uint32_t(x) >> 16;",
  "bit_util.hpp", """    return 1;""", "-", "-")
S("popcnt101-portable", "C21", "bit_util.hpp",
  "    x = (x&(~x>>1)&(x>>2)) & 0x1249249249249249ull;", "    x = (x&~(x>>1)&(x>>2)) & 0x1249249249249249ull;",
  "bit_util.hpp", """    return 1;""", "-", "-")
S("ctz32-portable", "C21", "bit_util.hpp",
  "	if (x & 0x00FF00FF) {\n		x &= 0x00FF00FF;\n		c |= 8;\n	}", "	if (x & 0x00FF00FF) {\n		c |= 8;\n	}",
  "bit_util.hpp", """    CHECK(bit_util::ctz(uint32_t(0x00010100)) == 8); for (int j = 0; j < 32; j++) for (int k = j; k < 32; k++) CHECK(bit_util::ctz(uint32_t((1u << j) | (1u << k))) == j);""",
  "A 32-bit word with ones in different bytes, counted without CPU support.", "Trailing zeros are wrong.")
S("xormap-avx2", "C21", "bit_util256.hpp",
  "x = _mm256_permute4x64_epi64(x, 0b10110001);", "x = _mm256_permute4x64_epi64(x, 0b01001110);",
  "bit_util256.hpp", """    alignas(32) uint64_t x[4] = {1, 2, 4, 8}, y[4], z[4];
    for (int m = 0; m < 256; m++) { bit_util::xor_map(x, m, y);
      _mm256_store_si256((__m256i*) z, bit_util::xor_map_intrinsics(_mm256_load_si256((const __m256i*) x), m));
      for (int i = 0; i < 4; i++) CHECK(y[i] == z[i]); }""",
  "The AVX2 variant with a mask that has bit 6.", "The vector variant of the permutation differs from the portable one.", flags="-mavx2")
S("freq-append", "C22", "calc.hpp",
  "    result->reserve(map.size());\n    result->resize(0);\n    std::transform(map.begin()", "    result->reserve(map.size());\n    std::transform(map.begin()",
  "calc.hpp", """    std::vector<uint64_t> v{1, 2, 3, 9}; std::vector<size_t> r;
    calc::bit_length_frequencies(v, &r); calc::bit_length_frequencies(v, &r);
    CHECK(r.size() == 4);""",
  "A result list that is used a second time.", "The counts are appended to the old ones.")
S("split-last", "C22", "calc.hpp",
  "        for (size_t i = 0; i < sep_pos.size(); i++) {\n            if (sep_pos[i]) {", "        for (size_t i = 0; i + 1 < sep_pos.size(); i++) {\n            if (sep_pos[i]) {",
  "calc.hpp", """    std::vector<uint64_t> v;
    for (int b = 0; b < 64; b++) for (int i = 0; i < (1 << std::max(0, 16 - b / 3)); i++) v.push_back((1ull << b) | i);
    std::vector<size_t> r;
    calc::split_positions_optimized_for_dac(v, &r, 3);
    size_t sum = 0; for (auto x : r) sum += x;
    CHECK(r.size() <= 3 && sum == 64);""",
  "More layers proposed than allowed.", "The last layer is dropped.")
