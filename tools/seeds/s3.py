import os, runpy
_ = runpy.run_path("/verif/tools/seeds/s1.py") if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")) else runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
SEEDS = _["SEEDS"]; del SEEDS[:]; S = _["S"]
INC = "#include <cstring>\n#include <cassert>\n"
RND = """    srand(3);
    for (int r = 0; r < 20000; r++) { uint32_t f = rand() %% 24; InitializableArray<uint32_t, 24> a(f); std::vector<uint32_t> m(24, f);
        for (int k = 0; k < 40; k++) { int i = rand() %% 24; uint32_t v = rand() %% %s; a.set(i, v); m[i] = v; for (int j = 0; j < 24; j++) CHECK(a.get(j) == m[j]);
            if (rand() %% 20 == 0) { f = rand() %% 24; a.init(f); m.assign(24, f); } } }"""
# ---- C14
S("initarr-same-init", "C14", "InitializableArray.hpp",
  "    void init(T init_v=T()) {\n        init_v_ = init_v;\n        t_.clear();", "    void init(T init_v=T()) {\n        if (init_v == init_v_) return;\n        init_v_ = init_v;\n        t_.clear();",
  "InitializableArray.hpp", """    InitializableArrayFolklore<int> a(size_t(20), 4);
    a.set(3, 1); a.init(4); CHECK(a.get(3) == 4);""",
  "Initializing again to the value of the initialization before.", "The values written since stay.", INC)
S("initarr-write-nobreak", "C14", "InitializableArray.hpp",
  "            a_[i] = val;\n            _break_chain(b);\n", "            a_[i] = val;\n",
  "InitializableArray.hpp", RND % "24", "A value written before the border which, read as a position, points to a place behind the border that happens to point back.", "The two blocks are taken for a chain: elements read as the initial value or as one another.", INC)
S("initarr-odd-link", "C14", "InitializableArray.hpp",
  "if (bki < kActualSize and bki % 2 == 0 and _to(bki) == 2 * b and", "if (bki < kActualSize and _to(bki) == 2 * b and",
  "InitializableArray.hpp", RND % "24", "An odd value in the even half of a block, and the twice its block's number in the odd half of a block on the other side of the border.", "A chain is seen where there is none.", INC)
S("initarr-extend-nobreak", "C14", "InitializableArray.hpp",
  "        _init_block(k);\n        _break_chain(k);\n", "        _init_block(k);\n",
  "InitializableArray.hpp", RND % "24", "An initial value that is an even position beyond the border whose place holds the number of the block that becomes free.", "A fresh block is taken for one end of a chain.", INC)
S("initarr-folklore-16", "C14", "InitializableArray.hpp",
  "        auto f = fv_[index].first;", "        uint16_t f = fv_[index].first;",
  "InitializableArray.hpp", """    InitializableArrayFolklore<int> a(size_t(70000), 4);
    for (int i = 0; i < 70000; i++) a.set(i, i);
    for (int i = 0; i < 70000; i++) CHECK(a.get(i) == i);""",
  "More than 65536 elements written since the last initialization.", "Elements written behind the first 65536 read as the initial value.", INC)
# ---- C06
S("fit-max-signed", "C06", "FitVector.hpp",
  "        auto max_e = *std::max_element(vector.begin(), vector.end());", "        unsigned max_e = *std::max_element(vector.begin(), vector.end());",
  "FitVector.hpp", """    std::vector<uint64_t> v{1, 1ull << 40, 77}; FitVector f(v);
    for (size_t i = 0; i < 3; i++) CHECK(f[i] == v[i]);""",
  "A source vector whose largest value needs more than 32 bits.", "Values are cut to too few bits.")
S("fit-abs-32", "C06", "FitVector.hpp",
  "    size_t abs_(size_t index) const {return index * bits_per_element_ / kBitsPerWord;}", "    size_t abs_(size_t index) const {return uint32_t(index * bits_per_element_) / kBitsPerWord;}",
  "FitVector.hpp", """    FitVector f(64, (1u << 26) + 10); f[3] = 5; f[(1u << 26) + 3] = 6; CHECK(f[3] == 5); CHECK(f[(1u << 26) + 3] == 6);""",
  "More than 2^32 bits of elements.", "Elements past 2^32 bits share their place with the first ones.")
S("fit-resize-val", "C06", "FitVector.hpp",
  "        for (size_t i = prev_size; i < new_size; i++)\n            operator[](i) = value;", "        for (uint16_t i = prev_size; i < new_size; i++)\n            operator[](i) = value;",
  "FitVector.hpp", """    FitVector f(7); f.resize(70000, 9);
    for (size_t i = 0; i < 70000; i++) CHECK(f[i] == 9);""",
  "Growing past 65536 elements with a value.", "The resize does not end.")
# ---- C08
S("multi-byte-int", "C08", "MultipleVector.hpp",
  "        id_type value = 0;\n        for (size_t i = 0; i < width; i++)\n            value |= static_cast<id_type>(bytes_[offset + i]) << (i * kBitsPerWord);", "        id_type value = 0;\n        for (size_t i = 0; i < width; i++)\n            value |= bytes_[offset + i] << (i * kBitsPerWord);",
  "MultipleVector.hpp", """    MultipleVector m({4, 1}); m.emplace_back(); m.set_nested_element<0>(0, 0x81000000u);
    CHECK(m.nested_element<0>(0) == 0x81000000u);""",
  "A field of four bytes or more whose fourth byte has its top bit set.", "The bytes behind the fourth read as ones or repeat the first.", "#include <functional>\n")
S("multi-push-size", "C08", "MultipleVector.hpp",
  "        bytes_.resize(offset_(size() + 1));\n        size_t i = 0;", "        bytes_.insert(bytes_.end(), block_size(), bytes_.empty() ? 0 : bytes_.back());\n        size_t i = 0;",
  "MultipleVector.hpp", """    MultipleVector m({2, 2}); m.push_back({1, 0xff00}); m.push_back({3});
    CHECK(m.nested_element<1>(1) == 0);""",
  "A push_back that names fewer values than there are fields, behind a row whose last byte is not zero.", "The fields left out are not zero.", "#include <functional>\n")
S("multi-resize-values", "C08", "MultipleVector.hpp",
  "            for (size_t i = prev_size; i < new_size; i++) {\n                auto b = block(i);", "            for (uint16_t i = prev_size; i < new_size; i++) {\n                auto b = block(i);",
  "MultipleVector.hpp", """    MultipleVector m({1, 2}); m.resize(70000, {1, 2});
    for (size_t i = 0; i < 70000; i++) { CHECK(m.nested_element<0>(i) == 1); CHECK(m.nested_element<1>(i) == 2); }""",
  "Growing past 65536 rows with values.", "The resize does not end.", "#include <functional>\n")
# ---- C09
S("cht-filled-used", "C09", "CHT.hpp",
  "                if (!IsDeleted(i)) {\n                    uint64_t x", "                if (!IsDeleted(i) or cnt + 1 == used_) {\n                    uint64_t x",
  "CHT.hpp", """    srand(5);
    for (int r = 0; r < 300; r++) { CHT<20> c(16); std::map<uint64_t, uint64_t> m;
        for (int k = 0; k < 400; k++) { uint64_t x = rand() % 300; if (rand() % 3) { c.set(x, k); m[x] = k; } else { c.erase(x); m.erase(x); }
            if (k % 20 == 0) for (uint64_t y = 0; y < 300; y++) { auto g = c.get(y); CHECK(g.first == (m.count(y) > 0)); if (g.first) CHECK(g.second == m[y]); } } }""",
  "A deleted entry that is the last one met when the table is rebuilt.", "The deleted key is back after the rebuild.", "#include <map>\n#include <queue>\n#include <functional>\n#include <iostream>\n")
S("cht-quo-32", "C09", "CHT.hpp",
  "    uint64_t Quotient(size_t i) const {", "    uint32_t Quotient(size_t i) const {",
  "CHT.hpp", """    CHT<20> c(44); srand(5); std::map<uint64_t, uint64_t> m;
    for (int k = 0; k < 3000; k++) { uint64_t x = (uint64_t(rand()) << 20 ^ rand()) & ((1ull << 44) - 1); c.set(x, k); m[x] = k; }
    for (auto& [x, v] : m) { auto g = c.get(x); CHECK(g.first); CHECK(g.second == v); }""",
  "Keys of more than 35 bits.", "Keys whose quotient does not fit in 32 bits are not found.", "#include <map>\n#include <queue>\n#include <functional>\n#include <iostream>\n")
S("cht-queue-16", "C09", "CHT.hpp",
  "            std::queue<uint64_t> qs;", "            std::queue<uint16_t> qs;",
  "CHT.hpp", """    CHT<20> c(40); 
    for (uint64_t k = 0; k < 100000; k++) c.set(k * 1000003, k);
    for (uint64_t k = 0; k < 100000; k++) { auto g = c.get(k * 1000003); CHECK(g.first); CHECK(g.second == k); }""",
  "A table of more than 65536 buckets that is rebuilt.", "Keys change when the table grows.", "#include <map>\n#include <queue>\n#include <functional>\n#include <iostream>\n")
# ---- C10
S("cdrw-width-keep", "C10", "CDRWArray.hpp",
  "        if (pw != 0 and pw != value_bits)\n            sat_table_[pw-1].erase(i);", "        if (pw != 0 and pw > value_bits)\n            sat_table_[pw-1].erase(i);",
  "CDRWArray.hpp", """    CDRWArray a(40); for (int i = 0; i < 40; i++) a.set(i, 1);
    for (int r = 0; r < 200; r++) for (int i = 0; i < 40; i++) { uint64_t v = (i * 7 + r * 13) % 90; a.set(i, v); CHECK(a.get(i) == v); }""",
  "Never visible: a stale entry is overwritten.", "x", "#include <queue>\n#include <functional>\n#include <iostream>\n#include <deque>\n#include \"sim_ds/basic.hpp\"\n")
S("cdrw-resize-fill", "C10", "CDRWArray.hpp",
  "            _allocate(std::max(new_size, cap_*2));\n        } else", "            _allocate(std::max(new_size, cap_*2));\n            for (size_t i = size(); i < new_size; i++) set(i, i < 2 ? 0 : get(i - 1) & 0);\n        } else",
  "CDRWArray.hpp", "", "Never.", "x", "") if False else None
# ---- C11
S("hash-mask-63", "C11", "BijectiveHash.hpp",
  "        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}", "        mask_(width < 63 ? (1ull<<width)-1 : ~0ll) {}",
  "BijectiveHash.hpp", """    SplitMixHash h(63); for (uint64_t k = 1; k < 10000; k++) { uint64_t x = k * 0x123456789abcdefull & (~0ull >> 1), y = h.hash(x); CHECK(y >> 63 == 0); CHECK(h.ihash(y) == x); }""",
  "Keys of 63 bits.", "The hash of a 63-bit key does not fit in 63 bits.")
S("hash-prime-58", "C11", "BijectiveHash.hpp",
  "{{288230376151711687ULL, 288230376151711681ULL, ", "{{288230376151711687ULL, 288230376151711683ULL, ",
  "BijectiveHash.hpp", """    SplitMixHash h(58); for (uint64_t k = 1; k < 1000; k++) { uint64_t x = k * 0x123456789abcdefull & ((1ull << 58) - 1); CHECK(h.ihash(h.hash(x)) == x); }""",
  "Keys of 58 bits.", "The inverse does not give the key back.")
S("hash-shift-width", "C11", "BijectiveHash.hpp",
  "shifts_((width+1)/2) {}", "shifts_(width < 40 ? (width+1)/2 : width/2) {}",
  "BijectiveHash.hpp", """    for (unsigned w = 40; w <= 64; w++) { SplitMixHash h(w); for (uint64_t k = 1; k < 2000; k++) { uint64_t x = k * 0x9E3779B97F4A7C15ull >> (64 - w); CHECK(h.ihash(h.hash(x)) == x); } }""",
  "An odd width of 41 bits or more and a key whose top and lowest bits meet in the shift.", "The inverse does not give the key back.")
# ---- C21
S("sel-byte-16", "C21", "bit_util.hpp",
  "    bit_cnt = bit_util::popcnt16(x);\n    if (bit_cnt < i) {\n        x >>= 16;\n        ret += 16;\n        i -= bit_cnt;\n    }", "    bit_cnt = bit_util::popcnt16(x);\n    if (bit_cnt < i) {\n        x = uint32_t(x) >> 16;\n        ret += 16;\n        i -= bit_cnt;\n    }",
  "bit_util.hpp", "", "Never.", "x", "") if False else None
S("popcnt111-top", "C21", "bit_util.hpp",
  "    x = (x&(x>>1)&(x>>2)) & 0x1249249249249249ull;", "    x = (x&(x>>1)&(x>>2)) & 0x0249249249249249ull;",
  "bit_util.hpp", """    CHECK(bit_util::popcnt111(~0ull) == 21); CHECK(bit_util::popcnt111(7ull << 60) == 1);""",
  "The last whole group of three bits, 60 to 62, all ones.", "That group is not counted.")
S("clz-half", "C21", "bit_util.hpp",
  "        x &= 0xFF00FF00FF00FF00;\n        c |= 8;", "        x &= 0xFF00FF00FF00FF00;\n        c += x ? 8 : 0;",
  "bit_util.hpp", "", "Never.", "x", "") if False else None
S("width-mask-63", "C21", "bit_util.hpp", "inline constexpr mask_type offset_mask = mask_type(1) << Offset;", "inline constexpr mask_type offset_mask = mask_type(1 << Offset);",
  "bit_util.hpp", """    CHECK(bit_util::offset_mask<31> == 0x80000000ull);""", "Offset 31.", "The mask has the upper half set.") 
S("swap-pi4", "C21", "bit_util.hpp", "    return ((x & 0xF0F0F0F0F0F0F0F0) >> 4) | ((x & 0x0F0F0F0F0F0F0F0F) << 4);", "    return ((x & 0xF0F0F0F0F0F0F0F0) >> 4) | ((x & 0x070F0F0F0F0F0F0F) << 4);",
  "bit_util.hpp", """    CHECK(bit_util::swap_pi4(0x0800000000000000ull) == 0x8000000000000000ull);""", "Bit 59 set.", "Bit 59 is lost.")
S("popcnt110-last", "C21", "bit_util.hpp", "    x = (~x&(x>>1)&(x>>2)) & 0x1249249249249249ull;\n#ifdef __POPCNT__\n    return _mm_popcnt_u64(x);\n#else\n    x = (x + (x>>3)) & 0x30C30C30C30C30C3ull;\n    return (((0x0041041041041041ull*x) >> 54) & 0x3F) + (x >> 60);",
  "    x = (~x&(x>>1)&(x>>2)) & 0x1249249249249249ull;\n#ifdef __POPCNT__\n    return _mm_popcnt_u64(x);\n#else\n    x = (x + (x>>3)) & 0x30C30C30C30C30C3ull;\n    return ((0x0041041041041041ull*x) >> 54) & 0x3F;",
  "bit_util.hpp", """    uint64_t x = 0; for (int k = 0; k < 21; k++) x |= 6ull << (3 * k); CHECK(bit_util::popcnt110(x) == 21);""", "The group at bits 60 to 62, in a build without the POPCNT instruction.", "That group is not counted.")
# ---- C22
S("cf-count-int", "C22", "calc.hpp",
  "        if (size > max_size) {\n            map.resize(size, 0);\n            max_size = size;\n        }", "        if (size > max_size) {\n            map.resize(size, map.empty() ? 0 : map.back() * 0 + (size > 40));\n            max_size = size;\n        }",
  "calc.hpp", """    std::vector<uint64_t> v{1, 1ull << 45}; std::vector<size_t> r; calc::bit_length_frequencies(v, &r);
    CHECK(r[0] == 1 && r[45] == 1 && r[20] == 0);""", "x", "x", "#include <algorithm>\n#include <iostream>\n#include <limits>\n") if False else None
S("split-min-tie", "C22", "calc.hpp",
  "        for (size_t i = 1; i < m; i++) {\n            pq.push_back(P(cf[i - 1] - cf[i], i));", "        for (size_t i = 1; i <= m; i++) {\n            pq.push_back(P(cf[i - 1] - cf[i], i));",
  "calc.hpp", "", "?", "?", "#include <algorithm>\n") if False else None
S("split-sum-zero", "C22", "calc.hpp",
  "        auto last_p = 0;\n        for (size_t i = 0; i < sep_pos.size(); i++) {", "        auto last_p = 0;\n        for (size_t i = 0; i + 1 < sep_pos.size(); i++) {",
  "calc.hpp", """    std::vector<uint64_t> v; for (int b = 0; b < 64; b++) for (int k = 0; k < (1 << std::max(0, 17 - b)); k++) v.push_back((1ull << b) | (b ? k & 1 : 0));
    for (size_t lv = 1; lv <= 8; lv++) { std::vector<size_t> r; calc::split_positions_optimized_for_dac(v, &r, lv); size_t s = 0; for (auto x : r) s += x; CHECK(s == 64); CHECK(r.size() <= lv); }""",
  "A list whose best split has more levels than allowed.", "The widths returned do not cover the widest value.", "#include <algorithm>\n#include <iostream>\n#include <limits>\n")
S("fits-list-first", "C22", "calc.hpp",
  "    while (static_cast<bool>(value >>= sizes[size++])) continue;", "    while (static_cast<bool>(uint32_t(value >>= sizes[size++]))) continue;",
  "calc.hpp", """    std::vector<size_t> s{8, 16, 40}; CHECK(calc::SizeFitsAsList(1ull << 50, s) == 3); CHECK(calc::SizeFitsAsList(1ull << 41, s) == 3);""",
  "A value whose bits behind a level are all above the 32 next ones.", "Too few levels are returned.", "#include <algorithm>\n#include <iostream>\n#include <limits>\n")
SEEDS[:] = [s for s in SEEDS if s]
