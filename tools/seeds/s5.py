import os, runpy
_ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
SEEDS = _["SEEDS"]; del SEEDS[:]; S = _["S"]
S("trie-bfs-16", "C17", "string_util/graph_util.hpp",
  "        std::queue<std::pair<size_t, size_t>> nodes;", "        std::queue<std::pair<size_t, uint16_t>> nodes;",
  "string_util/graph_util.hpp", """    graph_util::Trie<int> t; t.insert(std::string(70000, 'a'), 1);
    size_t top = 0; t.bfs([&](const auto&, size_t d) { top = std::max(top, d); });
    CHECK(top == 70001);""",
  "A key of more than 65535 letters.", "The depths given by the breadth-first walk wrap around.")
S("sais-lcp-16", "C19", "string_util/SuffixArray.hpp",
  "    vector<size_t> lcp_arr(s_arr_.size());", "    vector<uint16_t> lcp_arr(s_arr_.size());",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit);
    SuffixArray s(std::string(70000, 'a')); std::stringstream ss; s.WriteLCP(ss); FitVector l(ss);
    size_t top = 0; for (size_t i = 0; i < l.size(); i++) top = std::max(top, size_t(l[i]));
    CHECK(top == 69999);""",
  "Two suffixes that share more than 65535 letters.", "The length of the common prefix wraps around.",
  more=[("string_util/SuffixArray.hpp", "maxL = std::max(l, maxL);", "maxL = std::max<size_t>(l, maxL);")])
S("cdrw-width-6", "C10", "CDRWArray.hpp", "widthes_ = FitVector(7, size);", "widthes_ = FitVector(6, size);",
  "CDRWArray.hpp", """    CDRWArray a(10); a.set(3, ~0ull); CHECK(a.get(3) == ~0ull); a.set(4, 1ull << 62); CHECK(a.get(4) == 1ull << 62); CHECK(a.get(3) == ~0ull); CHECK(a.get(5) == 0);""",
  "A value of 64 bits.", "Its width does not fit the table of widths: it reads as 0, or the neighbour changes.")
S("cht-rebuild-wrap", "C09", "CHT.hpp", "            while (!(IsOccupied(i) and !IsShifted(i))) {", "            while (IsNull(i)) {",
  "CHT.hpp", """    for (unsigned s = 1; s < 300; s++) { srand(s); CHT<0> t(20); t.set_value_width(20); std::map<uint64_t, uint64_t> m;
        for (int i = 0; i < 400; i++) { uint64_t k = rand() % (1 << 20), v = rand() % 1000; t.set(k, v); m[k] = v; }
        for (auto& [k, v] : m) { auto r = t.get(k); CHECK(r.first); CHECK(r.second == v); } }""",
  "Rebuilding while a cluster runs over the end of the table.", "The keys of the part before the wrap are read with the wrong home position.")
S("initarr-break-k", "C14", "InitializableArray.hpp", "        _init_block(k);\n        _break_chain(k);\n        return k;", "        _init_block(k);\n        return k;",
  "InitializableArray.hpp cstring", """    for (unsigned s = 1; s < 20000; s++) { srand(s); using A = InitializableArray<uint8_t, 12>; A a; uint8_t ref[12]; uint8_t x = rand() % 14; a.fill(x); for (auto& r : ref) r = x;
        for (int i = 0; i < 60; i++) { if (rand() % 12 == 0) { x = rand() % 14; a.fill(x); for (auto& r : ref) r = x; }
            size_t p = rand() % 12; uint8_t v = rand() % 14; a.set(p, v); ref[p] = v; for (size_t j = 0; j < 12; j++) CHECK(a.get(j) == ref[j]); } }""",
  "Values that look like the array's own links.", "A block that was just set free is taken for a linked one.")
S("initarr-chain-side", "C14", "InitializableArray.hpp", "((b < b_ and b_ <= bki / 2) or (bki / 2 < b_ and b_ <= b)))", "((b < b_) != (bki / 2 <= b_)))",
  "InitializableArray.hpp", """    for (unsigned s = 1; s < 20000; s++) { srand(s); using A = InitializableArray<uint8_t, 12>; A a; uint8_t ref[12]; uint8_t x = rand() % 14; a.fill(x); for (auto& r : ref) r = x;
        for (int i = 0; i < 60; i++) { if (rand() % 12 == 0) { x = rand() % 14; a.fill(x); for (auto& r : ref) r = x; }
            size_t p = rand() % 12; uint8_t v = rand() % 14; a.set(p, v); ref[p] = v; for (size_t j = 0; j < 12; j++) CHECK(a.get(j) == ref[j]); } }""",
  "A link to the first block of the written area.", "It is not taken for a link, so its values are lost.")
S("initarr-write-break", "C14", "InitializableArray.hpp", "            a_[i] = val;\n            _break_chain(b);", "            a_[i] = val;",
  "InitializableArray.hpp", """    for (unsigned s = 1; s < 20000; s++) { srand(s); using A = InitializableArray<uint8_t, 12>; A a; uint8_t ref[12]; uint8_t x = rand() % 14; a.fill(x); for (auto& r : ref) r = x;
        for (int i = 0; i < 60; i++) { if (rand() % 12 == 0) { x = rand() % 14; a.fill(x); for (auto& r : ref) r = x; }
            size_t p = rand() % 12; uint8_t v = rand() % 14; a.set(p, v); ref[p] = v; for (size_t j = 0; j < 12; j++) CHECK(a.get(j) == ref[j]); } }""",
  "A value equal to the position of a block that, by chance, points back.", "Two blocks seem to be linked with each other.")
S("oracle-base-shared", "C15", "string_util/FactorOracle.hpp", "            if (not used_state_[b]) {", "            {",
  "string_util/FactorOracle.hpp", """    // the oracle by its definition, against the object's
    for (unsigned s = 1; s < 200; s++) { srand(s); std::string p; for (int i = 0; i < 300; i++) p.push_back(rand() % 40);
        std::vector<std::map<uint8_t, size_t>> t(p.size() + 1); std::vector<long> l(p.size() + 1, -1);
        for (size_t i = 0; i < p.size(); i++) { t[i][p[i]] = i + 1; long k = l[i]; while (k > -1 && !t[k].count(p[i])) { t[k][p[i]] = i + 1; k = l[k]; } l[i + 1] = k < 0 ? 0 : t[k][p[i]]; }
        FactorOracle o(p);
        for (size_t st = 0; st < p.size(); st++) for (int c = 0; c < 40; c++) { size_t x = st; bool b = o.image(x, c); CHECK(b == bool(t[st].count(c))); } }""",
  "Two states that get the same base.", "A state takes over transitions of another one: words are accepted that the oracle rejects.")
S("sunday-ms-start", "C16", "string_util/PatternMatching.hpp", "        td2_[0] = 1;\n        for (size_t pos = 1; pos < key_.size() + 1; pos++) {", "        td2_[0] = td2_[1] = 1;\n        for (size_t pos = 2; pos < key_.size() + 1; pos++) {",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching;
    for (unsigned s = 1; s < 20000; s++) { srand(s); std::string k, t; for (int i = rand() % 6 + 1; i > 0; i--) k.push_back('a' + rand() % 2); for (int i = 0; i < 30; i++) t.push_back('a' + rand() % 2);
        CHECK(PatternMatchSundayMS(t, k) == PatternMatchSimple(t, k)); }""", "?", "?")
S("samc-last-word", "C18", "string_util/Samc.hpp", "  const auto word_size = (empties.size()-1)/kMaskWidth+1;", "  const auto word_size = empties.size()/kMaskWidth;",
  "string_util/Samc.hpp", """    for (unsigned s = 1; s < 300; s++) { srand(s); std::set<std::string> k; for (int i = 0; i < 300; i++) { std::string w; for (int j = rand() % 5 + 1; j > 0; j--) w.push_back('a' + rand() % 20); k.insert(w); }
        Samc<uint16_t> t(k.begin(), k.end()); for (auto& w : k) CHECK(t.accept(w)); }""",
  "Levels with a word of 64 positions only partly used.", "Positions are given twice: keys of the set are rejected.")
S("samc-empty-leaf", "C18", "string_util/Samc.hpp", "  storage_.resize(head_.back(), kEmptyChar);", "  storage_.resize(head_.back());",
  "string_util/Samc.hpp", """    for (unsigned s = 1; s < 300; s++) { srand(s); std::set<std::string> k; for (int i = 0; i < 300; i++) { std::string w; for (int j = rand() % 5 + 1; j > 0; j--) w.push_back('a' + rand() % 20); k.insert(w); }
        Samc<uint16_t> t(k.begin(), k.end()); for (auto& w : k) for (size_t n = 0; n < w.size(); n++) CHECK(t.accept(w.substr(0, n)) == k.count(w.substr(0, n))); }""",
  "A prefix of a key, whose end mark would lie on an unused position.", "Unused positions look like ends of keys: prefixes are accepted.")
S("dict-access-lower", "C23", "string_util/Samc.hpp", "  size_t depth = std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;", "  size_t depth = std::lower_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;",
  "string_util/Samc.hpp", """    for (unsigned s = 1; s < 300; s++) { srand(s); std::set<std::string> k; for (int i = 0; i < 50; i++) { std::string w; for (int j = rand() % 5 + 1; j > 0; j--) w.push_back('a' + rand() % 4); k.insert(w); }
        SamcDict<uint16_t> t(k.begin(), k.end()); for (auto& w : k) CHECK(t.access(t.lookup(w)) == w); }""",
  "A key whose end mark is the first position of its level.", "It is taken for one of the level before.")
S("dac-iter-le", "C07", "DacVector.hpp", "operator<=(const IndexConstIterator& x, const IndexConstIterator& y) {return !(x > y);}", "operator<=(const IndexConstIterator& x, const IndexConstIterator& y) {return y > x;}",
  "DacVector.hpp", """    DacVector d(std::vector<int>{1, 2, 3}); CHECK(d.begin() <= d.begin()); CHECK(d.begin() <= d.end()); CHECK(!(d.end() <= d.begin()));""",
  "Two equal iterators.", "<= answers false.")
S("rank-read-past", "C02", "SuccinctBitVector.hpp", "            (index%64 != 0 ? bit_util::cnt(bits_.data()[index/64], index%64) : 0));", "            bit_util::cnt(bits_.data()[index/64], index%64));",
  "SuccinctBitVector.hpp", """    BitVector b(128, true); SuccinctBitVector<false> s(b); CHECK(s.rank(128) == 128);""",
  "The rank at the end of a vector whose length is a multiple of 64.", "The word behind the last one is read.", flags="-fsanitize=address")
S("string-len-16", "C20", "basic.hpp", "    auto size = read_val<size_t>(is);\n    std::string str(size, 0);", "    size_t size = read_val<uint16_t>(is);\n    std::string str(size, 0);",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit);
    std::string t; srand(3); for (int i = 0; i < 70000; i++) t.push_back('a' + rand() % 20);
    SuffixArray s(t), r; std::stringstream ss; s.Write(ss); r.Read(ss);
    CHECK(r.suffix(0) == t); std::stringstream a, b; s.WriteSA(a); r.WriteSA(b); CHECK(a.str() == b.str());""",
  "A text of more than 65535 letters, written and read back.", "Its length is cut to 16 bits; all that follows in the stream is read from the wrong place.",
  more=[("basic.hpp", "    write_val(str.size(), os);\n    os.write(reinterpret_cast<const char*>(&str[0])", "    write_val(uint16_t(str.size()), os);\n    os.write(reinterpret_cast<const char*>(&str[0])")])
S("suffix-read-lcp", "C20", "string_util/SuffixArray.hpp", "        lcp_arr_ = FitVector(is);", "        if (lcp_arr_.empty())\n            lcp_arr_ = FitVector(is);",
  "string_util/SuffixArray.hpp", """    std::cout.setstate(std::ios::failbit);
    SuffixArray s("abracadabra"), r("xyxyxy"); std::stringstream ss; s.Write(ss); r.Read(ss);
    std::stringstream a, b; s.WriteLCP(a); r.WriteLCP(b); CHECK(a.str() == b.str());""",
  "Reading into an object made for another text.", "The common prefixes stay those of the former text.")
S("dac-last-cache", "C20", "DacVector.hpp", "    size_t num_layers_;\n", "    size_t num_layers_;\n    // Neighbouring accesses often repeat\n    mutable size_t last_index_ = size_t(-1), last_value_ = 0;\n",
  "DacVector.hpp", """    std::vector<size_t> l, m; for (size_t i = 0; i < 300; i++) { l.push_back(i * 1000); m.push_back(i * 999 + 1); }
    DacVector a(l), b(m); CHECK(a[17] == l[17]); std::stringstream ss; b.Write(ss); a.Read(ss); CHECK(a[17] == m[17]);""",
  "An access, then reading other content into the object, then the same access.", "The remembered value of the former content is given.",
  more=[("DacVector.hpp", "    value_type value = layers_[0][index];\n", "    if (index == last_index_)\n        return last_value_;\n    value_type value = layers_[0][index];\n"),
        ("DacVector.hpp", "        value |= unit << shift_bits;\n    }\n    return value;", "        value |= unit << shift_bits;\n    }\n    last_index_ = index;\n    last_value_ = value;\n    return value;")])
S("dac-static-cache", "C07", "DacVector.hpp", "DacVector::value_type DacVector::operator[](size_t index) const {\n    value_type value = layers_[0][index];", "DacVector::value_type DacVector::operator[](size_t index) const {\n    static thread_local std::vector<size_t> shifts;\n    if (shifts.size() != num_layers()) {\n        shifts.assign(1, 0);\n        for (size_t d = 1; d < num_layers(); d++)\n            shifts.push_back(shifts.back() + layers_unit_bits_[d - 1]);\n    }\n    value_type value = layers_[0][index];",
  "DacVector.hpp", """    std::vector<size_t> l; for (size_t i = 0; i < 300; i++) l.push_back(i * 1000);
    DacVector a(l, std::vector<size_t>{8, 24}), b(l, std::vector<size_t>{16, 16});
    for (size_t i = 0; i < 300; i++) { CHECK(a[i] == l[i]); CHECK(b[i] == l[i]); }""",
  "Two vectors of equally many, differently wide layers in one process.", "The shifts of the first one are used for the second.",
  more=[("DacVector.hpp", "        value |= unit << shift_bits;\n", "        value |= unit << shifts[depth];\n")])
S("samc-bmp-cache", "C18", "string_util/Samc.hpp", "  size_t node = 0;\n  size_t depth = 0;\n  for (; depth < key.size(); depth++) {\n    uint8_t c = key[depth];\n    auto target = node + _base::code(depth, c);\n    if (c == kLeafChar or not in_range", "  size_t node = 0;\n  size_t depth = 0;\n  for (; depth < key.size(); depth++) {\n    uint8_t c = key[depth];\n    auto target = node + uint16_t(_base::code(depth, c));\n    if (c == kLeafChar or not in_range",
  "string_util/Samc.hpp", """    std::set<std::string> k; srand(5); for (int i = 0; i < 200000; i++) { std::string w; for (int j = 0; j < 4; j++) w.push_back(rand() % 255 + 1); k.insert(w); }
    Samc<uint32_t> t(k.begin(), k.end()); for (auto& w : k) CHECK(t.accept(w));""",
  "A level of more than 65536 positions.", "Transitions over more than 65535 positions go wrong.")
S("bom-after-match", "C16", "string_util/PatternMatching.hpp", "            matchies.push_back(i + 1 - kWindowSize);\n            i++;", "            matchies.push_back(i + 1 - kWindowSize);\n            i += state == size_t(kWindowSize) && key_.front() != key_.back() ? kWindowSize : 1;",
  "string_util/PatternMatching.hpp", """    using namespace pattern_matching;
    for (unsigned s = 1; s < 20000; s++) { srand(s); std::string k, t; for (int i = rand() % 6 + 1; i > 0; i--) k.push_back('a' + rand() % 2); for (int i = 0; i < 30; i++) t.push_back('a' + rand() % 2);
        CHECK(PatternMatchBOM(t, k) == PatternMatchSimple(t, k)); }""",
  "A key that overlaps itself though its first and last letters differ (abab).", "The overlapping occurrence is skipped.")
S("heap-iter-ctor", "C12", "Heap.hpp", "        for (size_t i = size() / 2; i > 0; i--) {", "        for (uint16_t i = size() / 2; i > 0; i--) {",
  "Heap.hpp", """    std::vector<size_t> v; for (size_t i = 0; i < 200000; i++) v.push_back(200000 - i);
    MinHeap h(v); for (size_t i = 0; i < 1000; i++) { CHECK(h.front() == i + 1); h.pop(); }""",
  "A heap made of more than 131071 elements.", "Only part of it is put in order.")
S("fold-size-minus", "C14", "InitializableArray.hpp", "        return f < t_.size() and t_[f] == index;", "        return f < t_.size() and uint32_t(t_[f]) == uint32_t(index);",
  "InitializableArray.hpp", """    InitializableArrayFolklore<uint8_t> a((1ull << 32) / 1 + 10, 7); a.set(5, 1); CHECK(a.get((1ull << 32) + 5) == 7);""",
  "Two positions 2^32 apart.", "?")
