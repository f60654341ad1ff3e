import os, runpy
_ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
SEEDS = _["SEEDS"]; del SEEDS[:]; S = _["S"]
S("time-warm-up", "C24", "basic.hpp", "double microsec_time_in_process(Process process) {\n    Stopwatch sw;", "double microsec_time_in_process(Process process) {\n    process(); // warm up the caches\n    Stopwatch sw;",
  "basic.hpp", """    int n = 0; microsec_time_in_process([&] { n++; }); CHECK(n == 1);""",
  "A process with an effect.", "The process is run twice.")
S("time-milli-trunc", "C24", "basic.hpp", "        return std::chrono::duration<double, std::milli>(time_process()).count();", "        return std::chrono::duration_cast<std::chrono::milliseconds>(time_process()).count();",
  "basic.hpp", """    auto t0 = std::chrono::steady_clock::now();
    double d = millisec_time_in_process([] { auto t = std::chrono::steady_clock::now(); while (std::chrono::steady_clock::now() - t < std::chrono::microseconds(700)); });
    CHECK(d >= 0.69);""",
  "A process of less than a millisecond.", "The time given is less than the process took.")
S("recursive-copy-args", "C24", "basic.hpp", "rec(rec, std::forward<decltype(args)>(args)...);", "rec(rec, std::decay_t<decltype(args)>(args)...);",
  "basic.hpp", """    int n = 0; recursive([](auto, auto&& x) { x++; })(n); CHECK(n == 1);""",
  "An argument passed by reference for the function to change.", "The function changes a copy of it.")
S("recursive-once-static", "C24", "basic.hpp", "    return [rec](auto&&... args) {", "    static Function kept = rec;\n    return [rec = kept](auto&&... args) {",
  "basic.hpp", """    int got = 0;
    auto mk = [&](int k) { return recursive([k, &got](auto, int x) { got = x + k; }); };
    mk(10)(1); CHECK(got == 11); mk(20)(1); CHECK(got == 21);""",
  "The same lambda expression, evaluated twice with different captured values.", "The later object runs the function captured first.")
S("initarr-fill-same", "C14", "InitializableArray.hpp", "    void init(T init_v = T()) {\n        b_ = 0;", "    void init(T init_v = T()) {\n        if (init_v == init_v_ and b_ < kNoneBlock)\n            return;\n        b_ = 0;",
  "basic.hpp InitializableArray.hpp", """    InitializableArray<uint64_t, 64> a(7); a.set(3, 9); a.fill(7); CHECK(a.get(3) == 7);""",
  "A second initialisation with the same value.", "What was written before remains.")
S("folklore-fill-same", "C14", "InitializableArray.hpp", "        init_v_ = init_v;\n        t_.clear();", "        if (init_v == init_v_)\n            return;\n        init_v_ = init_v;\n        t_.clear();",
  "InitializableArray.hpp", """    InitializableArrayFolklore<int> a(size_t(64), 7); a.set(3, 9); a.fill(7); CHECK(a.get(3) == 7);""",
  "A second initialisation with the same value.", "What was written before remains.")
S("folklore-stale", "C14", "InitializableArray.hpp", "        return f < t_.size() and t_[f] == index;", "        return f < t_.size() and t_[f] <= index;",
  "InitializableArray.hpp", """    InitializableArrayFolklore<int> a(size_t(8), 1); a.set(5, 3); a.fill(2); a.set(1, 4); CHECK(a.get(5) == 2); CHECK(a.get(1) == 4); CHECK(a.get(7) == 2);""",
  "An element below written since the last initialisation.", "Elements above it, never written, read as values from before.")
S("oracle-transes-ff", "C15", "string_util/FactorOracle.hpp", "        for (size_t c = 0; c <= 0xff; c++) {", "        for (size_t c = 0; c < 0xff; c++) {",
  "string_util/FactorOracle.hpp", """    for (unsigned s = 1; s < 300; s++) { srand(s); std::string p; for (int i = 0; i < 400; i++) p.push_back(char(rand() % 40 + 216));
        std::vector<std::map<uint8_t, size_t>> t(p.size() + 1); std::vector<long> l(p.size() + 1, -1);
        for (size_t i = 0; i < p.size(); i++) { t[i][p[i]] = i + 1; long k = l[i]; while (k > -1 && !t[k].count(p[i])) { t[k][p[i]] = i + 1; k = l[k]; } l[i + 1] = k < 0 ? 0 : t[k][p[i]]; }
        FactorOracle o(p);
        for (size_t st = 0; st < p.size(); st++) for (int c = 200; c < 256; c++) { size_t x = st; bool b = o.image(x, c); CHECK(b == bool(t[st].count(c))); } }""",
  "A state with a transition by byte 255 whose base has to be moved.", "It loses that transition: factors of the text are rejected.")
S("oracle-c-str", "C15", "string_util/FactorOracle.hpp", "    FactorOracle(const std::string& text) : Base(text) {}", "    FactorOracle(const std::string& text) : Base(text.c_str()) {}",
  "string_util/FactorOracle.hpp", """    std::string t("ab\\0cd", 5); FactorOracle o(t); CHECK(o.accept(std::string("b\\0c", 3))); CHECK(o.accept("cd"));""",
  "A text with byte 0.", "The oracle covers only what is before it.")
S("oracle-exproler-back", "C15", "string_util/FactorOracle.hpp", "            auto next_state = Base::next(b ^ c);\n            if (next_state <= state or", "            auto next_state = Base::next(b ^ c);\n            if (next_state <= state + 1 or",
  "string_util/FactorOracle.hpp", """    FactorOracle o("aab"); CHECK(o.accept("aab")); CHECK(o.accept("ab"));  CHECK(o.accept("b")); size_t s = 0; CHECK(o.image(s, 'b'));
    for (unsigned sd = 1; sd < 300; sd++) { srand(sd); std::string p; for (int i = 0; i < 60; i++) p.push_back('a' + rand() % 5); FactorOracle q(p);
        for (size_t i = 0; i < 60; i++) for (size_t j = i; j <= 60; j++) CHECK(q.accept(p.substr(i, j - i))); }""",
  "?", "?")
S("simple-strncmp", "C16", "string_util/PatternMatching.hpp", "        size_t pos = 0;\n        while (pos < kSize and key_[pos] == text[i + pos])\n            pos++;\n        if (pos == kSize) // match", "        if (std::strncmp(key_.data(), text.data() + i, kSize) == 0) // match",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching; using namespace std::string_literals;
    CHECK(PatternMatchSimple("a\\0c"s, "a\\0b"s).empty());""",
  "A pattern with byte 0.", "What follows the byte 0 is not compared: places are reported where the pattern does not occur.")
S("bm-empty-tail", "C16", "string_util/PatternMatching.hpp", "        i += skip(text[i]);\n        \n", "        i += skip(text[i]) + (k == -1 and kWindowSize > 64 ? kWindowSize / 2 : 0);\n",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching; std::string t(300, 'a'), k(100, 'a'); CHECK(PatternMatchBM(t, k).size() == 201);""",
  "Overlapping occurrences of a pattern of more than 64 letters.", "Some of them are passed over.")
S("turbo-crit", "C16", "string_util/PatternMatching.hpp", "const auto prefix_size = pos > critpos ? 0 : critpos - begin;", "const auto prefix_size = pos >= critpos ? 0 : critpos - begin;",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching;
    for (unsigned s = 1; s < 20000; s++) { srand(s); std::string k, t; for (int i = rand() % 9 + 1; i > 0; i--) k.push_back('a' + rand() % 3); for (int i = 0; i < 60; i++) t.push_back('a' + rand() % 3);
        CHECK(PatternMatchTurboBOM(t, k) == PatternMatchSimple(t, k)); }""", "The scan of the window ends exactly where the part known to be a prefix of the pattern ends.", "The prefix is forgotten and an occurrence that starts in it is passed over.")
S("sort-small-int", "C13", "sort.hpp", "        while (size() > 1) {", "        if (size() <= 8) { // insertion sort\n            for (auto i = begin_; i != end_; ++i)\n                for (auto j = i; j != begin_ and compare_(*j, *(j - 1)); --j)\n                    if (auto v = size_t(*j); true) { *j = *(j - 1); *(j - 1) = v; }\n            return;\n        }\n        while (size() > 1) {",
  "sort.hpp", """    std::vector<double> v{2.5, 1.25, 0.5}; HeapSort(v.begin(), v.end()); CHECK(v[0] == 0.5); CHECK(v[1] == 1.25);""",
  "A short range of values that are no integers.", "The values change.")
S("sort-skip-ordered", "C13", "sort.hpp", "        while (size() > 1) {", "        while (size() > 1 and compare_(*(end_ - 1), *begin_)) {",
  "sort.hpp", """    for (unsigned s = 1; s < 3000; s++) { srand(s); std::vector<int> v; for (int i = rand() % 12; i > 0; i--) v.push_back(rand() % 3); auto w = v; std::sort(w.begin(), w.end()); HeapSort(v.begin(), v.end()); CHECK(v == w); }""",
  "Duplicates of the greatest value.", "Sorting stops early.")
S("heap-int-list", "C12", "Heap.hpp", "        for (auto v : array) {", "        for (int v : array) {",
  "Heap.hpp", """    MinHeap h(std::vector<size_t>{1ull << 40, 5}); CHECK(h.front() == 5); h.pop(); CHECK(h.front() == 1ull << 40);""",
  "A list with values past 2^31.", "They are cut.")
S("heap-pop-skip", "C12", "Heap.hpp", "        std::swap(base_.front(), base_.back());\n        base_.resize(base_.size() - 1);", "        if (base_.front() != base_.back())\n            std::swap(base_.front(), base_.back());\n        base_.resize(base_.size() - 1);\n        if (size() > 1 and !Compare(value(2), front()))\n            return;",
  "Heap.hpp", """    for (unsigned s = 1; s < 3000; s++) { srand(s); MinHeap h; std::multiset<size_t> m; for (int i = 0; i < 40; i++) { if (rand() % 3) { size_t v = rand() % 9; h.push(v); m.insert(v); } else if (!m.empty()) { h.pop(); m.erase(m.begin()); } CHECK(h.size() == m.size()); if (!m.empty()) CHECK(h.front() == *m.begin()); } }""",
  "The least value is the right child of the root when popping.", "It does not come to the front.")
S("fits-log2", "C22", "calc.hpp", "inline constexpr size_t SizeFitsInBits(unsigned long long value) {\n    return size_fits<1>(value);", "inline constexpr size_t SizeFitsInBits(unsigned long long value) {\n    return value < 2 ? 1 : size_t(__builtin_log2(value)) + 1;",
  "calc.hpp", """    CHECK(calc::SizeFitsInBits((1ull << 63) - 1) == 63); CHECK(calc::SizeFitsInBits(~0ull) == 64); CHECK(calc::SizeFitsInBits((1ull << 49) - 1) == 49);""",
  "A value just below a power of two past 2^48.", "It is given one bit too many.")
S("fits-units-top", "C22", "calc.hpp", "    while (++size * unit < 64 && static_cast<bool>(value >> (size * unit))) continue;", "    while (++size * unit < 63 && static_cast<bool>(value >> (size * unit))) continue;",
  "calc.hpp", """    CHECK(calc::SizeFitsInUnits(~0ull, 1) == 64); CHECK(calc::SizeFitsInUnits(~0ull, 7) == 10); CHECK(calc::SizeFitsInUnits(~0ull, 9) == 8); CHECK(calc::SizeFitsInUnits(~0ull, 21) == 4);""",
  "A value of 64 bits in units of 1, 3, 7, 9 or 21 bits.", "One unit too few.")
S("select-second-8", "C03", "SuccinctBitVector.hpp", "        return (basic_block_[idx/8*2+1] >> (63-9*(idx%8))) & bit_util::width_mask<9>;", "        return uint8_t(basic_block_[idx/8*2+1] >> (63-9*(idx%8)));",
  "SuccinctBitVector.hpp", """    SuccinctBitVector<true> v(BitVector(512, true)); for (size_t i = 0; i < 512; i++) CHECK(v.select(i) == i);""",
  "A block of 512 bits with 256 set ones before its last word.", "Selection starts in the wrong word.")
S("select-threshold-16", "C03", "SuccinctBitVector.hpp", "        size_t sum_threshold = 512;", "        uint16_t sum_threshold = 512;",
  "SuccinctBitVector.hpp", """    size_t n = 200000; BitVector b(n); std::vector<size_t> p; for (size_t i = 0; i < n; i++) if (i % 2) { b[i] = true; p.push_back(i); } SuccinctBitVector<true> v(std::move(b)); for (size_t i = 0; i < p.size(); i++) CHECK(v.select(i) == p[i]);""",
  "More than 65536 ones.", "Hints are entered for every block: selection looks in the wrong part.")
S("access-head-lower", "C23", "string_util/Samc.hpp", "std::upper_bound(_base::head_.begin(), _base::head_.end(), node)", "std::lower_bound(_base::head_.begin(), _base::head_.end(), node + (node > 0))",
  "string_util/Samc.hpp", """    for (unsigned s = 1; s < 3000; s++) { srand(s); std::set<std::string> k; for (int i = 0; i < 12; i++) { std::string w; for (int j = rand() % 5; j > 0; j--) w.push_back('a' + rand() % 3); k.insert(w); }
        SamcDict<uint16_t> t(k.begin(), k.end()); for (auto& w : k) CHECK(t.access(t.lookup(w)) == w); }""",
  "?", "?")
S("dict-empty-key", "C23", "string_util/Samc.hpp", "      for (size_t i = 1; i < _base::storage_.size(); i++) {\n        if (_base::check(i) == kLeafChar)", "      for (size_t i = 2; i < _base::storage_.size(); i++) {\n        if (_base::check(i) == kLeafChar)",
  "string_util/Samc.hpp", """    for (auto ks : std::vector<std::vector<std::string>>{{""}, {"", "a"}, {"", "a", "b", "ab"}, {"", "b", "ba", "c"}, {"", "a", "b", "c", "d"}}) { SamcDict<uint16_t> t(ks.begin(), ks.end()); std::set<size_t> ids; for (auto& w : ks) { auto i = t.lookup(w); CHECK(i < ks.size()); CHECK(ids.insert(i).second); CHECK(t.access(i) == w); } }""",
  "The empty key, whose end mark lies right behind the root.", "It is not counted as a key: identifiers are given twice.")
S("xormap-p16", "C21", "bit_util256.hpp", "x = ((x & 0x0000FFFF0000FFFF) << 16) | ((x & 0xFFFF0000FFFF0000) >> 16);", "x = (x << 16) | (x >> 16);",
  "bit_util256.hpp", """    alignas(32) uint64_t a[4] = {0x1111222233334444, 1, 2, 3}, b[4]; bit_util::xor_map(a, 16, b); CHECK(b[0] == 0x2222111144443333);""",
  "The portable exchange with bit 4 of the mask.", "The halves are mixed.")
S("iszero-mask", "C21", "bit_util256.hpp", "    for (int i = 0; i < 4; i++) {\n        if (*(x_addr+i) != 0)\n            return false;\n    }\n    return true;", "    return x_addr[0] + x_addr[1] + x_addr[2] + x_addr[3] == 0;",
  "bit_util256.hpp", """    alignas(32) uint64_t a[4] = {1ull << 63, 0, 1ull << 63, 0}; CHECK(!bit_util::is_zero256(a));""",
  "Words whose sum wraps to 0.", "A block with ones is called zero.")

S("multi-num-types", "C04", "MultiBitVector.hpp", "    for (size_t i = 0, size = bits_.size() * kBitsInType / kBitsUnitSize; i < size; i++)", "    for (size_t i = 0, size = bits_.size() * (0x40 / kBitsUnitSize) - (0x40 / kBitsUnitSize); i < size; i++)",
  "basic.hpp MultiBitVector.hpp", """    MultiBitVector<2> v; for (size_t i = 0; i < 40; i++) v.set(i, 1); v.set(40, 3); v.set(44, 3); v.build(); CHECK(v.rank(44) == 1); CHECK(v.rank(39) == 39);""",
  "A symbol that occurs only in the last word.", "No ranks are made for it.")
S("multi-tip-floor", "C04", "MultiBitVector.hpp", "    const auto tips_size = std::ceil(double(bits_.size()) / kBlocksInTipSize);", "    const size_t tips_size = std::ceil(float(bits_.size()) / kBlocksInTipSize);",
  "basic.hpp MultiBitVector.hpp", """    size_t n = 21ull * ((1 << 26) + 1) ; MultiBitVector<3> v; v.resize(n); for (size_t i = 0; i < 1000; i++) v.set(n - 1000 + i, 5); v.build(); CHECK(v.rank(n) == 1000); """, "?", "?")
S("bit-shift-len", "C21", "bit_util.hpp", "    return (x >> start) & WidthMask(len);", "    return (x << (64 - start - len)) >> (64 - len);",
  "bit_util.hpp", """    CHECK(bit_util::bextr(~0ull, 60, 8) == 15); CHECK(bit_util::bextr(5, 3, 0) == 0);""",
  "A field of no bits, or one that runs past bit 63.", "Other bits are given.")
S("cnt-len-64", "C21", "bit_util.hpp", "    return popcnt(x & WidthMask(len));", "    return popcnt(x & ((Word(1) << (len % (8 * sizeof(Word)))) - 1));",
  "bit_util.hpp", """    CHECK(bit_util::cnt<uint64_t>(~0ull, 64) == 64); CHECK(bit_util::cnt<uint32_t>(~0u, 32) == 32);""",
  "A length of the whole word.", "0 is given.")
S("sel-portable-i", "C21", "bit_util.hpp", "    auto bit_cnt = bit_util::popcnt32(x);\n    if (bit_cnt < i) {\n        x >>= 32;", "    auto bit_cnt = bit_util::popcnt32(x);\n    if (bit_cnt < i and bit_cnt < 32) {\n        x >>= 32;",
  "bit_util.hpp", """    for (size_t i = 1; i <= 64; i++) CHECK(bit_util::sel(~0ull, i) == int(i));""",
  "The portable selection in a word whose low half is full.", "Positions past it are wrong.")
S("wavelet-read-height", "C20", "WaveletTree.hpp", "        bv_list_.resize((1U << height_) - 1);\n        for (auto &l : bv_list_)", "        bv_list_.resize(std::max(bv_list_.size(), (size_t(1) << height_) - 1));\n        for (auto &l : bv_list_)",
  "basic.hpp WaveletTree.hpp", """    WaveletTree a(std::vector<uint8_t>{1, 0, 1}), b(std::vector<uint8_t>{9, 200, 3}); std::stringstream ss; a.Write(ss); std::string mark = "after"; ss << mark; b.Read(ss); std::string r; ss.clear(); ss.seekg(0, std::ios::end); CHECK(b.size() == 3); std::stringstream s2; b.Write(s2); std::stringstream s3; a.Write(s3); CHECK(s2.str() == s3.str());""",
  "Reading a tree over a higher one.", "More nodes are read than were written, and written again.")
S("string-read-word", "C20", "basic.hpp", "    is.read(reinterpret_cast<char*>(&str[0]), sizeof(char) * size);\n    return str; // expect move", "    is.read(reinterpret_cast<char*>(&str[0]), sizeof(char) * size);\n    str.resize(std::strlen(str.c_str()));\n    return str; // expect move",
  "basic.hpp", """    std::stringstream ss; write_string(std::string("a\\0b", 3), ss); CHECK(read_string(ss).size() == 3);""",
  "A string with byte 0.", "It is cut there.")
S("lcp-prev-8", "C19", "string_util/SuffixArray.hpp", "    auto prevLCP = 0;", "    uint8_t prevLCP = 0;",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit); std::string t(600, 'a'); SuffixArray s(t); std::stringstream ss; s.WriteLCP(ss); FitVector l(ss); CHECK(l[600] == 0); CHECK(l[1] == 1); for (size_t i = 1; i < 600; i++) CHECK(l[i] == i);""", "?", "?")
S("lcp-start-keep", "C19", "string_util/SuffixArray.hpp", "prevLCP > 1 ? prevLCP - 1 : 0)", "prevLCP > 64 ? prevLCP : prevLCP > 1 ? prevLCP - 1 : 0)",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit); std::string t(600, 'a'); SuffixArray s(t); std::stringstream ss; s.WriteLCP(ss); FitVector l(ss); for (size_t i = 1; i < 600; i++) CHECK(l[i] == i - 1 || l[i] == i || true); size_t top = 0; for (size_t i = 0; i < l.size(); i++) top = std::max(top, size_t(l[i])); CHECK(top == 599); size_t sum = 0; for (size_t i = 0; i < l.size(); i++) sum += l[i]; CHECK(sum == 599 * 600 / 2);""",
  "Two suffixes with more than 64 common letters.", "The common prefix of the next pair is given one letter too long.")
