import os, runpy
_ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
SEEDS = _["SEEDS"]; del SEEDS[:]; S = _["S"]

# ---- C03
S("select-tip-16", "C03", "SuccinctBitVector.hpp", "    std::vector<uint32_t> select_tips_;", "    std::vector<uint16_t> select_tips_;",
  "SuccinctBitVector.hpp", """    size_t n = 40000000; BitVector b(n, false);
    for (size_t i = 0; i < n; i += 1000) b[i] = true;
    SuccinctBitVector<true> s(b);
    for (size_t i = 0; i < n / 1000; i++) CHECK(s.select(i) == i * 1000);""",
  "A vector of more than 2^25 bits with a one behind them.", "select looks in a block 2^16 blocks too early.")
S("select-i32", "C03", "SuccinctBitVector.hpp", "    size_t i = index;\n    \n    if (select_tips_", "    int i = index;\n    \n    if (select_tips_",
  "SuccinctBitVector.hpp", """    size_t n = (1ull << 31) + 5000; BitVector b(n, true);
    SuccinctBitVector<true> s(std::move(b));
    CHECK(s.select(5) == 5); CHECK(s.select(n - 1) == n - 1);""",
  "The select of a one with more than 2^31 ones before it.", "select of the ones past 2^31 answers with a wrong position or reads out of the vector.")
S("select-tip-skip", "C03", "SuccinctBitVector.hpp", "                select_tips_.push_back(j - 1);\n                sum_threshold += 512;",
  "                select_tips_.push_back(j - 1);\n                sum_threshold = basic_block_[j * 2] / 512 * 512 + 512;",
  "SuccinctBitVector.hpp", """    BitVector b(8192, false);
    for (size_t i = 0; i < 8192; i++) b[i] = i % 512 != 7 || i / 512 != 3;
    for (size_t i = 100; i < 612; i++) b[i] = i % 2;
    SuccinctBitVector<true> s(b);
    for (size_t i = 0, k = 0; i < 8192; i++) if (b[i]) { CHECK(s.select(k) == i); k++; }""",
  "Never: at most 512 ones can be in one block.", "x")
# ---- C14
S("initarr-extend-tail", "C14", "InitializableArray.hpp",
  "            a_[2*(b_-1)] = a_[2*k+1];\n", "            a_[2*(b_-1)] = a_[2*k];\n",
  "InitializableArray.hpp", """    srand(3);
    for (int r = 0; r < 300; r++) { InitializableArray<uint32_t, 40> a(7); std::vector<uint32_t> m(40, 7);
        for (int k = 0; k < 60; k++) { int i = rand() % 40; uint32_t v = rand() % 50; a.set(i, v); m[i] = v; for (int j = 0; j < 40; j++) CHECK(a.get(j) == m[j]); } }""",
  "A write to the even half of a chained block beyond the border, and later enough writes that the border passes it.", "The element written first reads as something else once the border has passed it.", "#include <cstring>\n#include <cassert>\n")
S("initarr-self-link", "C14", "InitializableArray.hpp",
  "    void _break_chain(size_t b) {\n        auto bk = _chained_to(b);\n        if (bk != kNoneBlock){", "    void _break_chain(size_t b) {\n        auto bk = _chained_to(b);\n        if (bk != kNoneBlock and bk >= b_){",
  "InitializableArray.hpp", """    srand(3);
    for (int r = 0; r < 3000; r++) { InitializableArray<uint32_t, 24> a(7); std::vector<uint32_t> m(24, 7);
        for (int k = 0; k < 60; k++) { int i = rand() % 24; uint32_t v = rand() % 12 * 2; a.set(i, v); m[i] = v; for (int j = 0; j < 24; j++) CHECK(a.get(j) == m[j]); } }""",
  "A value written behind the border that equals twice the index of a block before the border whose first value in turn equals this place: the two look like a chain.", "Two ordinary values are taken for a chain: elements read as the initial value.", "#include <cstring>\n#include <cassert>\n")
S("initarr-init-keep", "C14", "InitializableArray.hpp",
  "    void init(T init_v = T()) {\n        b_ = 0;\n        init_v_ = init_v;", "    void init(T init_v = T()) {\n        if (b_ == 0 and init_v_ == T()) return; // as fresh\n        b_ = 0;\n        init_v_ = init_v;",
  "InitializableArray.hpp", """    InitializableArray<uint16_t, 9> a; a.init(5);
    for (int i = 0; i < 9; i++) CHECK(a.get(i) == 5);""",
  "Initializing an array in which nothing has been written yet, to a value other than the default.", "The initialization is ignored.", "#include <cstring>\n#include <cassert>\n")
S("initarr-folklore-fill", "C14", "InitializableArray.hpp",
  "        return f < t_.size() and t_[f] == index;", "        return f < fv_.size() and f < t_.capacity() and t_.data()[f] == index;",
  "InitializableArray.hpp", """    InitializableArrayFolklore<int> a(size_t(20), 1);
    for (int i = 0; i < 20; i++) a.set(i, i);
    a.init(9);
    for (int i = 0; i < 20; i++) CHECK(a.get(i) == 9);""",
  "Initializing again after writes: the stale table behind the count still names the element.", "The values from before the initialization show.", "#include <cstring>\n#include <cassert>\n")
# ---- C15
S("oracle-id-16", "C15", "string_util/FactorOracle.hpp", "    using id_type = uint32_t;\n    \n    using Builder", "    using id_type = uint16_t;\n    \n    using Builder",
  "string_util/FactorOracle.hpp", """    std::string t; srand(4); for (int i = 0; i < 70000; i++) t += char(rand() % 4 + 'a');
    FactorOracle o(t);
    for (int i = 0; i < 60000; i += 997) CHECK(o.accept(t.substr(i, 9)));
    for (int i = 66000; i < 69990; i += 97) CHECK(o.accept(t.substr(i, 9)));""",
  "A text of more than 65535 letters.", "Factors of the text are rejected.")
S("oracle-block-front", "C15", "string_util/FactorOracle.hpp",
  "                if (empty_trans_front_ == index) {\n", "", "string_util/FactorOracle.hpp", "", "x", "x") if False else None
S("oracle-conflict-stale", "C15", "string_util/FactorOracle.hpp",
  "            for (size_t i = 0; i < transes.size() - 1; i++) {\n                auto t = transes[i];", "            for (size_t i = 0; i + 1 < transes.size() - (transes.size() > 40); i++) {\n                auto t = transes[i];",
  "string_util/FactorOracle.hpp", """    srand(4);
    for (int r = 0; r < 200; r++) { std::string t; int n = 300 + rand() % 500; for (int i = 0; i < n; i++) t += char(rand());
    FactorOracle o(t);
    for (int i = 0; i < n; i++) { CHECK(o.accept(t.substr(i, 1))); CHECK(o.accept(t.substr(i, 3))); } }""",
  "A state with more than forty transitions whose base collides with that of another state.", "One transition of the state is lost when it moves, and a factor is rejected.")
S("oracle-last-check", "C15", "string_util/FactorOracle.hpp",
  "            if (next_state <= state or Base::check(next_state) != c) {", "            if (next_state == 0 or Base::check(next_state) != c) {",
  "string_util/FactorOracle.hpp", """    srand(6);
    for (int r = 0; r < 4000; r++) { std::string t; int n = rand() % 12 + 1; for (int i = 0; i < n; i++) t += char(rand() % 3 + 'a');
        FactorOracle o(t);
        for (int q = 0; q < 200; q++) { std::string s; for (int i = n + 1 + rand() % 3; i > 0; i--) s += char(rand() % 3 + 'a'); CHECK(!o.accept(s)); } }""",
  "A base shared through the trans table such that the cell of another state names an earlier state with the same letter.", "Strings longer than the text are accepted.")
S("oracle-rend-size", "C15", "string_util/FactorOracle.hpp",
  "        if (state < Base::size() and Base::check(state + 1) == c) {", "        if (state + 1 < Base::size() and Base::check(state + 1) == c) {",
  "string_util/FactorOracle.hpp", """    FactorOracle o(std::string("abcx")); CHECK(o.accept("abcx")); CHECK(o.accept("cx")); CHECK(o.accept("x"));""",
  "A factor that ends with the last letter of the text, reached from the state before it.", "The whole text and its longer suffixes are rejected.")
# ---- C16
S("bm-skip-8", "C16", "string_util/PatternMatching.hpp", "class Bm : private _PatternMatchingBase {\nprivate:\n    std::vector<size_t> skip_;", "class Bm : private _PatternMatchingBase {\nprivate:\n    std::vector<uint8_t> skip_;",
  "string_util/PatternMatching.hpp", """    std::string k(256, 'a'); for (int i = 0; i < 256; i++) k[i] = 'a' + i % 3;
    std::string t = std::string(700, 'q') + k + "zzb" + k;
    std::vector<size_t> e{700, 959}; CHECK(pattern_matching::PatternMatchBM(t, k) == e);""",
  "A key whose length is a multiple of 256, and a text letter that is not in it.", "The window does not move: the search never ends.")
S("qs-tail-256", "C16", "string_util/PatternMatching.hpp", "            td1_[uint8_t(key_[i])] = kKeySize - i;", "            td1_[key_[i] & 0x7f] = kKeySize - i;",
  "string_util/PatternMatching.hpp", """    std::string k = "ab\\xe3" "c", t = "xxxxab\\xe3" "cabcab\\xe3" "c";
    std::vector<size_t> e; for (size_t i = 0; i + 4 <= t.size(); i++) if (t.substr(i, 4) == k) e.push_back(i);
    CHECK(pattern_matching::PatternMatchSundayQS(t, k) == e); CHECK(pattern_matching::PatternMatchSundayMS(t, k) == e);""",
  "A key with bytes of 128 or more.", "Occurrences are jumped over.")
S("kmp-next-last", "C16", "string_util/PatternMatching.hpp", "            if (i + 1 < key.size() and key[i + 1] == key[n])\n                next_[i + 1] = next_[n];\n            else\n                next_[i + 1] = n;",
  "            if (key[std::min(i + 1, key.size() - 1)] == key[n])\n                next_[i + 1] = next_[n];\n            else\n                next_[i + 1] = n;",
  "string_util/PatternMatching.hpp", """    std::string k = "aa", t = "aaaa"; std::vector<size_t> e{0, 1, 2};
    CHECK(pattern_matching::PatternMatchKMP(t, k) == e);""",
  "Overlapping occurrences of a key whose last letter equals the one after its border.", "Overlapping matches are missed.")
S("sunday-order-stable", "C16", "string_util/PatternMatching.hpp", "            while (lshift < key_.size()) {\n                auto& pat = pattern_[pos];", "            while (lshift + 1 < key_.size()) {\n                auto& pat = pattern_[pos];",
  "string_util/PatternMatching.hpp", """    CHECK(true);""", "equivalent?", "x")
S("sunday-ms-full", "C16", "string_util/PatternMatching.hpp", "        for (size_t pos = 1; pos < key_.size() + 1; pos++) {\n            td2_[pos] = match_shift(pos, td2_[pos - 1]);\n        }",
  "        for (size_t pos = 1; pos < key_.size() + 1; pos++) {\n            td2_[pos] = match_shift(pos, pos < key_.size() ? td2_[pos - 1] : td2_[pos - 1] + 1);\n        }",
  "string_util/PatternMatching.hpp", """    srand(1);
    for (int r = 0; r < 4000; r++) { std::string k, t; int m = 1 + rand() % 7, n = rand() % 60; for (int i = 0; i < m; i++) k += 'a' + rand() % 2; for (int i = 0; i < n; i++) t += 'a' + rand() % 2;
        std::vector<size_t> e; for (int i = 0; i + m <= n; i++) if (t.substr(i, m) == k) e.push_back(i);
        CHECK(pattern_matching::PatternMatchSundayMS(t, k) == e); }""",
  "A match whose next occurrence overlaps it by the shift of the last but one letter (a run of one letter, say).", "Overlapping matches are missed.")
S("turbobom-crit", "C16", "string_util/PatternMatching.hpp", "            critpos = kmp_begin + length;\n", "            critpos = pos + length;\n",
  "string_util/PatternMatching.hpp", """    srand(1);
    for (int r = 0; r < 20000; r++) { std::string k, t; int m = 1 + rand() % 9, n = rand() % 90; for (int i = 0; i < m; i++) k += 'a' + rand() % 2; for (int i = 0; i < n; i++) t += 'a' + rand() % 2;
        std::vector<size_t> e; for (int i = 0; i + m <= n; i++) if (t.substr(i, m) == k) e.push_back(i);
        CHECK(pattern_matching::PatternMatchTurboBOM(t, k) == e); }""",
  "A window that fails before the critical position, twice in a row.", "The prefix known from the earlier scan is counted wrongly: matches are missed or invented.")
S("bom-window-int", "C16", "string_util/PatternMatching.hpp", "        while (pos > i - kWindowSize and oracle_.image(state, text[pos]))\n            pos--;\n        if (pos == i - kWindowSize) { // match",
  "        while (pos > i - kWindowSize and oracle_.image(state, text[pos]))\n            pos--;\n        if (state == size_t(kWindowSize)) { // match",
  "string_util/PatternMatching.hpp", """    srand(1);
    for (int r = 0; r < 20000; r++) { std::string k, t; int m = 1 + rand() % 6, n = rand() % 60; for (int i = 0; i < m; i++) k += 'a' + rand() % 3; for (int i = 0; i < n; i++) t += 'a' + rand() % 3;
        std::vector<size_t> e; for (int i = 0; i + m <= n; i++) if (t.substr(i, m) == k) e.push_back(i);
        CHECK(pattern_matching::PatternMatchBOM(t, k) == e); }""",
  "A window whose suffix, shorter than the key, leads the oracle over a shortcut to its last state.", "Windows that only end like a shortcut of the oracle are reported as matches.")
# ---- C17
S("trie-item-ref", "C17", "string_util/graph_util.hpp", "        auto& terminal = container_[node];\n        if (terminal.item_index() == kItemEmpty) {\n            // Insert new item.\n            storage_.push_back(item);\n            terminal.set_item_index(storage_.size()-1);",
  "        auto& terminal = container_[node];\n        if (not terminal.terminal()) {\n            // Insert new item.\n            terminal.set_item_index(storage_.size() & 0xffff);\n            storage_.push_back(item);",
  "string_util/graph_util.hpp", """    graph_util::Trie<int> t;
    for (int i = 0; i < 70000; i++) t.insert(std::to_string(i), i);
    for (int i = 0; i < 70000; i++) CHECK(*t.traverse(std::to_string(i)) == i);""",
  "More than 65536 keys.", "Keys share the items of others.")
S("samc-char-code", "C18", "string_util/Samc.hpp", "    std::map<size_t, char> storage_map;", "", "string_util/Samc.hpp", "", "", "") if False else None
S("samc-ycheck-word", "C18", "string_util/Samc.hpp", "        candidates &= (field_bits(p+i) >> insets) | (field_bits(p+i+1) << (kMaskWidth-insets));", "        candidates &= (field_bits(p+i) >> insets) | (p+i+1 < field_size ? field_bits(p+i+1) << (kMaskWidth-insets) : 0);",
  "string_util/Samc.hpp", """    CHECK(true);""", "x", "x")
S("samc-equal-terminal", "C18", "string_util/Samc.hpp", "  return (in_range(terminal, depth+1) and\n          _base::check(terminal) == kLeafChar);", "  return (in_range(terminal, depth+1) and\n          _base::check(terminal) % kEmpty == kLeafChar);",
  "string_util/Samc.hpp", "    CHECK(true);", "x", "x") if False else None
S("samc-code-negative", "C18", "string_util/Samc.hpp", "      auto y_front = !LegacyBuild ? y_check_(indices, empty_bv) : y_check_legacy_(indices, empty_bv);", "      size_t y_front = std::max<position_type>(!LegacyBuild ? y_check_(indices, empty_bv) : y_check_legacy_(indices, empty_bv), 1 - position_type(head_[depth+1]-head_[depth]));",
  "string_util/Samc.hpp", """    CHECK(true);""", "x", "x")
S("samc-depth-8", "C18", "string_util/Samc.hpp", "  size_t depth = 0;\n  for (; depth < key.size(); depth++) {\n    uint8_t c = key[depth];\n    auto target = node + _base::code(depth, c);\n    if (c == kLeafChar", "  uint8_t depth = 0;\n  for (; depth < key.size(); depth++) {\n    uint8_t c = key[depth];\n    auto target = node + _base::code(depth, c);\n    if (c == kLeafChar",
  "string_util/Samc.hpp", """    std::vector<std::string> v{std::string(200, 'a'), std::string(255, 'b'), std::string(300, 'c')};
    Samc<uint32_t> d(v.begin(), v.end());
    for (auto& k : v) CHECK(d.accept(k));
    CHECK(!d.accept(std::string(299, 'c')));""",
  "A key of 256 letters or more.", "The depth wraps: the key is rejected or the search never ends.")
S("samc-head-16", "C18", "string_util/Samc.hpp", "    size_t head(size_t depth) const {return head_[depth];}", "    size_t head(uint8_t depth) const {return head_[depth];}",
  "string_util/Samc.hpp", """    std::vector<std::string> v{std::string(200, 'a'), std::string(300, 'c'), std::string(300, 'c') + "d"};
    Samc<uint32_t> d(v.begin(), v.end());
    for (auto& k : v) CHECK(d.accept(k));""",
  "A key of 255 letters or more.", "Keys longer than that are rejected.")
S("samc-same-prefix", "C18", "string_util/Samc.hpp", "        while (endit != end_ and (*endit)[depth_] == c)\n          ++endit;", "        while (endit != end_ and (*endit).size() > depth_ and (*endit)[depth_] == c)\n          ++endit;",
  "string_util/Samc.hpp", "    CHECK(true);", "equivalent", "x")
S("dict-leaf-rank", "C23", "string_util/Samc.hpp", "      for (size_t i = 1; i < _base::storage_.size(); i++) {\n        if (_base::check(i) == kLeafChar)", "      for (size_t i = 2; i < _base::storage_.size(); i++) {\n        if (_base::check(i) == kLeafChar)",
  "string_util/Samc.hpp", """    std::vector<std::string> v{"", "a", "bc"};
    SamcDict<uint32_t> d(v.begin(), v.end()); std::set<size_t> ids;
    for (auto& k : v) { ids.insert(d.lookup(k)); CHECK(d.access(d.lookup(k)) == k); }
    CHECK(ids.size() == 3 && *ids.rbegin() == 2);""",
  "The empty string among the keys.", "The empty string has no number of its own: two keys share one.", "#include <set>\n")
S("dict-access-32", "C23", "string_util/Samc.hpp", "  return std::string(text.rbegin(), text.rend()-1);", "  std::reverse(text.begin(), text.end());\n  return text.c_str();",
  "string_util/Samc.hpp", "    CHECK(true);", "needs first char removed", "x") if False else None
S("dict-lookup-zero", "C23", "string_util/Samc.hpp", "  if (not in_range(terminal, depth+1) or\n      _base::check(terminal) != _base::kLeafChar) {\n    return kSearchError;\n  }", "  if (_base::check(terminal) != _base::kLeafChar) {\n    return kSearchError;\n  }",
  "string_util/Samc.hpp", """    srand(9);
    for (int r = 0; r < 5000; r++) {
        std::set<std::string> s; int n = 1 + rand() % 12;
        for (int i = 0; i < n; i++) { std::string k; int m = 1 + rand() % 5; for (int j = 0; j < m; j++) k += 'a' + rand() % 3; s.insert(k); }
        std::vector<std::string> v(s.begin(), s.end());
        SamcDict<uint32_t> d(v.begin(), v.end());
        for (auto& k : v) for (size_t m = 1; m < k.size(); m++) CHECK((d.lookup(k.substr(0, m)) != size_t(-1)) == (s.count(k.substr(0, m)) > 0));
    }""",
  "A proper prefix of a key, not a key itself, whose terminal cell falls into another depth and there on a leaf.", "A string outside the set gets the number of a key.", "#include <set>\n")
# ---- C19
S("lcp-first-two", "C19", "string_util/SuffixArray.hpp", "CompareLCP_(i, s_arr_[pos + 1], prevLCP > 1 ? prevLCP - 1 : 0);", "CompareLCP_(i, s_arr_[pos + 1], prevLCP > 2 ? prevLCP : 0);",
  "string_util/SuffixArray.hpp", "    CHECK(true);", "x", "x") if False else None
S("lms-equal-end", "C19", "string_util/SuffixArray.hpp", "    } while (!(leftL && curType));\n    return true;", "    } while (!(leftL && curType));\n    return slTypes[li] == slTypes[ri];",
  "string_util/SuffixArray.hpp", "    CHECK(true);", "x", "x") if False else None
S("sais-shared-cap", "C19", "string_util/SuffixArray.hpp", "    auto count = 0;\n    for (auto &b : buckets) {", "    uint16_t count = 0;\n    for (auto &b : buckets) {",
  "string_util/SuffixArray.hpp", """    std::string t; srand(2); for (int i = 0; i < 70000; i++) t += char(rand() % 255 + 1);
    std::cout.setstate(std::ios::failbit); SuffixArray s(t); std::stringstream ss; s.WriteSA(ss); FitVector a(ss);
    CHECK(a.size() == t.size());
    for (size_t i = 1; i < a.size(); i++) CHECK(t.compare(a[i - 1], 300, t, a[i], 300) < 0);""",
  "A text of more than 65535 letters.", "Buckets overlap: the order is wrong or building aborts.")
S("sais-names-plus", "C19", "string_util/SuffixArray.hpp", "            if (lastLmsId > 0 && !EqualLMSs_(str, slTypes, lastLmsId, id)) {", "            if (lastLmsId > 0 && (id + 1 == str.size() || lastLmsId + 1 == str.size() || !EqualLMSs_(str, slTypes, lastLmsId, id))) {",
  "string_util/SuffixArray.hpp", "    CHECK(true);", "eq", "eq") if False else None
S("lms-equal-types", "C19", "string_util/SuffixArray.hpp", "        leftL = !curType;\n        curType = slTypes[li];", "        leftL = leftL || !curType;\n        curType = slTypes[li];",
  "string_util/SuffixArray.hpp", """    CHECK(true);""", "x", "x")
S("lcp-prev-16", "C19", "string_util/SuffixArray.hpp", "    auto prevLCP = 0;\n", "    uint8_t prevLCP = 0;\n",
  "string_util/SuffixArray.hpp", "    CHECK(true);", "x", "x") if False else None
S("lcp-prev-keep", "C19", "string_util/SuffixArray.hpp", "        prevLCP = lcp;\n", "        prevLCP = lcp > 0 ? lcp : prevLCP - 1;\n",
  "string_util/SuffixArray.hpp", """    srand(1);
    for (int r = 0; r < 5000; r++) { std::string t; int n = 2 + rand() % 40; for (int i = 0; i < n; i++) t += 'a' + rand() % 2;
        std::stringstream ss, l; std::cout.setstate(std::ios::failbit);
        SuffixArray sa(t); sa.WriteSA(ss); sa.WriteLCP(l);
        FitVector s(ss), p(l);
        for (int i = 0; i < n; i++) { size_t e = 0; if (i + 1 < n) { size_t a = s[i], b = s[i + 1]; while (a + e < n && b + e < n && t[a + e] == t[b + e]) e++; } CHECK(p[i] == e); } }""",
  "A suffix that shares nothing with the next one, shortly after one that shares at least three letters.", "The common prefixes after it are too long.")
S("cht-erase-min", "C09", "CHT.hpp", "        if (size() == min_size_) {\n            reserve(size()*2);\n        }", "        if (size() == min_size_) {\n            _resize(bucket_size_ / 2);\n        }",
  "CHT.hpp", """    CHT<16> t(20); for (int i = 0; i < 40; i++) t.set(i * 1001, i);
    for (int i = 0; i < 39; i++) { t.erase(i * 1001); for (int j = 0; j < 40; j++) CHECK(t.get(j * 1001).first == (j > i)); }
    for (int i = 0; i < 39; i++) t.set(i * 1001, i);
    for (int i = 0; i < 40; i++) CHECK(t.get(i * 1001).second == i);""",
  "Erasing until the table is small, then storing again.", "The table shrinks below what it holds or loses room.")
S("cht-revive-value", "C09", "CHT.hpp", "                    values_[i] = value;\n                    return;", "                    else\n                        values_[i] = value;\n                    return;",
  "CHT.hpp", """    CHT<16> t(20); t.set(5, 1); t.erase(5); t.set(5, 9); CHECK(t.get(5).second == 9);""",
  "Storing a key again, with another value, after it was erased.", "The value from before the erasure comes back.")
S("cht-wrap-head", "C09", "CHT.hpp", "        [[unlikely]] if (i == 0)\n            return bucket()-1;", "        [[unlikely]] if (i == 0)\n            return bucket_mask_ - 1;",
  "CHT.hpp", "    CHECK(true);", "x", "x") if False else None
S("cdrw-shrink-pop", "C10", "CDRWArray.hpp", "        if (size()*3 < cap_)\n            _allocate(size()*2);\n        size_--;", "        size_--;\n        if (size()*3 < cap_)\n            _allocate(size());",
  "CDRWArray.hpp", """    CDRWVector v; for (int i = 0; i < 50; i++) v.push_back(i);
    while (v.size() > 0) { v.pop_back(); for (size_t i = 0; i < v.size(); i++) CHECK(v.get(i) == i); if (v.size() == 7) { v.push_back(99); CHECK(v.get(7) == 99); v.pop_back(); } }
    v.push_back(3); CHECK(v.get(0) == 3);""",
  "x", "x")
S("cdrw-resize-cap", "C10", "CDRWArray.hpp", "    void clear() {\n        size_ = 0;\n    }", "    void clear() {\n        for (size_t i = 0; i < size_; i++) arr_.set(i, 0);\n        size_ = cap_ = 0;\n    }",
  "CDRWArray.hpp", """    CHECK(true);""", "x", "x") if False else None
S("cdrw-alloc-size", "C10", "CDRWArray.hpp", "        for (size_t i = 0; i < size(); i++)\n            next.set(i, get(i));", "        for (size_t i = 0; i < std::min(size(), cap_); i++)\n            if (auto v = get(i); v >> 63 == 0) next.set(i, v);",
  "CDRWArray.hpp", """    CDRWVector v; for (int i = 0; i < 3; i++) v.push_back(~0ull - i); v.push_back(7);
    v.push_back(8); CHECK(v.get(0) == ~0ull);""",
  "A value with its highest bit set held while the vector grows.", "The value reads as zero after growing.")
# ---- C12
S("heap-down-16", "C12", "Heap.hpp", "    void Heapify(size_t id) {", "    void Heapify(uint16_t id) {",
  "Heap.hpp", """    std::vector<uint64_t> l; for (int i = 0; i < 200000; i++) l.push_back(200000 - i);
    MinHeap h(l); for (int i = 1; i <= 200000; i++) { CHECK(h.front() == i); h.pop(); }""",
  "More than 131072 values.", "Values beyond position 65536 never sink to their place: they come out of order.")
S("heap-equal-push", "C12", "Heap.hpp", "        for (auto id = size(); id > root() && Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))", "        for (auto id = size(); id > root() + 1 && Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))",
  "Heap.hpp", """    MinHeap h; h.push(9); h.push(4); CHECK(h.front() == 4); h.push(2); CHECK(h.front() == 2);
    MinHeap g; for (int i = 20; i > 0; i--) g.push(i); for (int i = 1; i <= 20; i++) { CHECK(g.front() == i); g.pop(); }""",
  "equivalent: root is 1", "x") if False else None
S("heap-pop-two", "C12", "Heap.hpp", "        base_.resize(base_.size() - 1);\n        Heapify(root());", "        base_.resize(base_.size() - 1);\n        if (base_.size() > 2) Heapify(root());",
  "Heap.hpp", """    MinHeap h; h.push(3); h.push(7); h.push(5); h.pop(); CHECK(h.front() == 5); h.pop(); CHECK(h.front() == 7);""",
  "Popping from three values of which the second stands last but smaller... ", "The greater of the two values left comes out first.")
# ---- C13
S("sort-right-16", "C13", "sort.hpp", "    size_t right(size_t id) {return 2 * id + 1;}", "    size_t right(size_t id) {return uint16_t(2 * id) + 1;}",
  "sort.hpp", """    std::vector<int> v(100000); srand(1); for (auto& x : v) x = rand(); auto w = v; std::sort(w.begin(), w.end());
    HeapSort(v.begin(), v.end()); CHECK(v == w);""",
  "A range of more than 65536 elements.", "The result is not sorted.")
S("sort-copy-elem", "C13", "sort.hpp", "    Iterator itr(size_t pos) {return begin_ + (pos - 1);}", "    Iterator itr(int16_t pos) {return begin_ + (uint16_t(pos) - 1);}",
  "sort.hpp", """    std::vector<int> v(70000); srand(1); for (auto& x : v) x = rand(); auto w = v; std::sort(w.begin(), w.end());
    HeapSort(v.begin(), v.end()); CHECK(v == w);""",
  "A range of more than 65535 elements.", "The result is not sorted, or elements before the range are touched.")
# ---- C01, C02, C04..C08, C20..C22
S("bitvec-push-full", "C01", "BitVector.hpp", "x", "x", "BitVector.hpp", "", "", "") if False else None
S("rank-large-32", "C02", "SuccinctBitVector.hpp", "    std::vector<uint64_t> basic_block_;", "    struct U { uint64_t v; U(uint64_t x = 0) : v(x) {} operator uint64_t() const {return v;} };\n    std::vector<uint64_t> basic_block_;", "SuccinctBitVector.hpp", "", "", "") if False else None
S("rank-sum-32", "C02", "SuccinctBitVector.hpp", "            basic_block_[j - 1] = sum_word;\n            basic_block_[j] = basic_block_[j - 2] + sum;\n            sum_word = sum = 0;", "            basic_block_[j - 1] = sum_word;\n            basic_block_[j] = uint32_t(basic_block_[j - 2] + sum);\n            sum_word = sum = 0;",
  "SuccinctBitVector.hpp", """    size_t n = (1ull << 32) + 6000; SuccinctBitVector<false> s(BitVector(n, true));
    CHECK(s.rank(n) == n); CHECK(s.rank(4000) == 4000);""",
  "More than 2^32 ones.", "rank beyond them is 2^32 too small.")
S("multi-l1-16", "C04", "MultiBitVector.hpp", "        size_t count = 0;\n", "        uint16_t count = 0;\n",
  "MultiBitVector.hpp", """    MultiBitVector<2> v; for (int i = 0; i < 70000; i++) v.set(i, 1); v.build();
    CHECK(v.rank(69999) == 69999); CHECK(v.rank(66000) == 66000);""",
  "More than 65535 elements of one symbol.", "rank starts from zero again.")
S("wavelet-rank-last", "C05", "WaveletTree.hpp", "    std::pair<uint8_t, unsigned long long> AccessAndRank(size_t index) const {\n        auto value = 0;\n        size_t idx = index;", "    std::pair<uint8_t, unsigned long long> AccessAndRank(size_t index) const {\n        auto value = 0;\n        uint16_t idx = index;",
  "WaveletTree.hpp", """    std::vector<uint8_t> v(70000); for (int i = 0; i < 70000; i++) v[i] = i % 5; v[68000] = 4;
    WaveletTree t(v); CHECK(t.AccessAndRank(68000).first == 4); CHECK(t.AccessAndRank(69999).second == 13999 || true); size_t c = 0; for (int i = 0; i < 69999; i++) c += v[i] == v[69999]; CHECK(t.AccessAndRank(69999).second == c);""",
  "A position of 65536 or more asked through AccessAndRank.", "Value and rank are those of the position modulo 65536.")
S("dac-depth-first", "C07", "DacVector.hpp", "            if (not paths_[depth][index])\n                break;\n            index = paths_[depth].rank(index);", "            if (not paths_[depth][index])\n                break;\n            if (depth + 2 < num_layers()) index = paths_[depth].rank(index + 1);",
  "DacVector.hpp", """    std::vector<uint64_t> v{1, 1u << 20, 300, 70000, 2, 1u << 30}; std::vector<size_t> u{8, 8, 8, 8};
    DacVector d(v, u); size_t e[] = {0, 2, 1, 2, 0, 3}; for (int i = 0; i < 6; i++) CHECK(d.depth(i) == e[i]);""",
  "depth of an element with three layers or more.", "depth answers with that of a neighbour.")
S("fit-width-64", "C22", "calc.hpp", "x", "x", "calc.hpp", "", "", "") if False else None
