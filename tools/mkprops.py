#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I = "include/sim_ds/"
S = I + "string_util/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A bit vector is exactly the sequence of bits its history produced",
 "After any sequence of constructing, copying, resizing, appending, assigning, range filling, and writing through references and iterators, a bit vector has exactly the length and the bits that the same operations produce on an abstract sequence, for every way of reading it (indexing, checked access, front/back, iterators in both directions and with offsets). No operation changes any bit outside the positions it names, bits cut off by shrinking never come back when the vector grows again, a copy is independent of its source, and checked access outside the length is refused with an out-of-range error.",
 ["histories", "inputs"], "every history of operations, every length (in particular around multiples of the word size) and every bit pattern",
 "The tests build one vector of random bits, fill ranges once and read back by index; they run no histories of shrinking and growing, and no iterator arithmetic except forward walks.",
 [I+"BitVector.hpp", I+"BitReference.hpp"],
 [("word-wise range fill with begin/end masks", I+"BitVector.hpp: _fill"), ("resize/assign keep storage and size in step", I+"BitVector.hpp: _resize, _assign"), ("iterator and reference arithmetic", I+"BitReference.hpp")],
 [("storage", "64-bit words, last one partly used", I+"BitVector.hpp")], ["operator[]", "at", "iterators", "size"])

prop("C02", "Succinct bit vector: exact access and rank at every position",
 "A succinct bit vector built from any bit sequence of any length returns every bit unchanged, and for every position from 0 up to and including the length its rank is the number of ones strictly before that position, and its zero-rank the number of zeros. This holds for both variants of the structure (with and without select support), whether it was built by copying, moving, from a list, or was copied or moved afterwards.",
 ["inputs"], "every bit sequence of every length, every position including the one past the end",
 "The tests check one random vector of a fixed size; lengths at word and block boundaries, empty and constant vectors and rank at the length are not reached.",
 [I+"SuccinctBitVector.hpp", I+"bit_util.hpp"],
 [("two-level rank directory", I+"SuccinctBitVector.hpp: constructor"), ("in-word population count", I+"bit_util.hpp: cnt, popcnt")],
 [("basic_block_", "large tip and eight 9-bit small tips per 512 bits", I+"SuccinctBitVector.hpp")], ["operator[]", "rank", "rank_0", "size"])

prop("C03", "Succinct bit vector: select is the exact inverse of rank",
 "In a succinct bit vector with select support, for every k below the number of ones, select(k) is the position of the (k+1)-th one: that bit is set and exactly k ones lie before it. This holds for every length, density and clustering of the ones, including runs of empty blocks and ones in the last, partly used block.",
 ["inputs"], "every bit sequence and every k below the number of its ones",
 "The tests select in one random vector of density one half, so sparse and clustered vectors, where the sampled select directory decides, are never reached.",
 [I+"SuccinctBitVector.hpp", I+"bit_util.hpp"],
 [("select samples every 512 ones, then binary search over blocks", I+"SuccinctBitVector.hpp: select"), ("in-word select", I+"bit_util.hpp: sel, kLtSel")],
 [("select_tips_", "block of every 512-th one", I+"SuccinctBitVector.hpp")], ["select"])

prop("C04", "Multi-bit vector: stored types and per-type rank are exact",
 "In a vector of 1-, 2- or 3-bit types, every element reads back the value last written to it, in any order of writes, and elements never written read as 0. After building the rank directory, the rank at any position holding a non-zero type is the number of earlier positions holding the same type.",
 ["inputs", "histories"], "every unit size, every sequence of types of any length, every write order, every position with a non-zero type",
 "The tests use one short fixed pattern per unit size; block boundaries, large counts and overwriting are not reached.",
 [I+"MultiBitVector.hpp", I+"bit_util.hpp"],
 [("per-type two-level rank directory", I+"MultiBitVector.hpp: build, rank"), ("multi-bit population counts", I+"bit_util.hpp: popcnt10..popcnt111")],
 [("rank_tips_", "counts per type and block", I+"MultiBitVector.hpp")], ["operator[]", "rank"])

prop("C05", "Wavelet tree: access and rank agree with the original sequence",
 "A wavelet tree built from any non-empty sequence of values up to 255 has the length of that sequence, returns each element unchanged, and its rank at a position is the number of earlier occurrences of the element at that position. The combined access-and-rank query and the rank query that is told the element give the same answers.",
 ["inputs"], "every non-empty sequence over every alphabet of values 0..255, every position",
 "The tests use one random byte sequence; small and sparse alphabets (tree heights 1 to 8), single-symbol sequences and block boundaries inside nodes are not reached.",
 [I+"WaveletTree.hpp", I+"SuccinctBitVector.hpp", I+"calc.hpp"],
 [("descent by bit with rank_0/rank_1", I+"WaveletTree.hpp: rank, AccessAndRank, operator[]"), ("height from the largest value", I+"WaveletTree.hpp: constructor")],
 [("bv_list_", "one rank structure per tree node", I+"WaveletTree.hpp")], ["operator[]", "rank", "AccessAndRank", "size"])

prop("C06", "Fixed-width vector stores any width 1..64 without interference",
 "A packed vector of elements of any width from 1 to 64 bits holds exactly the sequence that its history of construction, writes, appends, assigns and resizes produces, for values that fit the width, through every way of reading it. Writing one element never changes another, elements added by growing without a value are zero even after an earlier shrink, copies are independent, a vector built from a list of values takes the smallest width that fits its largest one, and checked access outside the length is refused with an out-of-range error.",
 ["histories", "inputs"], "every width 1..64, every history, every value that fits the width",
 "The tests write one random array per construction and read it back; they do not interleave writes with shrinking and growing, nor cover all widths and straddling offsets.",
 [I+"FitVector.hpp", I+"BitsReference.hpp", I+"calc.hpp"],
 [("read and write across a word boundary", I+"BitsReference.hpp: operator value_type, operator="), ("storage size for a number of elements", I+"FitVector.hpp: resize")],
 [("storage_", "packed 64-bit words", I+"FitVector.hpp")], ["operator[]", "at", "front", "back", "size", "unit_width"])

prop("C07", "Directly addressable code vector returns every value exactly",
 "A variable-length code vector built from any list of 64-bit values, with automatically chosen layer widths or with explicit ones that cover the values, returns every value exactly by index, checked access, front/back and iteration, and reports the list's length. The depth it reports for an element is the number of extra layers needed by that value under the layer widths in use, and an empty list gives an empty vector.",
 ["inputs", "configurations"], "every list of 64-bit values and every list of layer widths covering them",
 "The tests use a few random lists; distributions that produce more than eight optimal layers, 64-bit values, one-layer and skewed lists, and explicit widths are not reached.",
 [I+"DacVector.hpp", I+"calc.hpp", I+"FitVector.hpp", I+"SuccinctBitVector.hpp"],
 [("layer split, path bits and rank to the next layer", I+"DacVector.hpp: constructor, operator[]"), ("optimal split positions", I+"calc.hpp: split_positions_optimized_for_dac")],
 [("layers_, paths_", "one packed vector and one rank structure per layer", I+"DacVector.hpp")], ["operator[]", "at", "depth", "begin/end"])

prop("C08", "Record vector keeps every field of every record independently",
 "A vector of fixed-layout records (fields of 1 to 8 bytes each) returns for every field of every record the value last written to it through any of the field, block or append interfaces, reduced to the field's width where a wider value is written through a block. Writing one field changes no other field or record, records added without values are zero, resizing keeps the records that remain, and restricted accessors transfer exactly the bytes of their type.",
 ["histories", "inputs"], "every layout of field sizes, every history of writes, appends and resizes",
 "The tests write one layout once and read it back; they do not interleave writes through the different interfaces or shrink and grow.",
 [I+"MultipleVector.hpp"],
 [("little-endian byte fields at computed offsets", I+"MultipleVector.hpp: _set, _get, set_, get_"), ("layout table", I+"MultipleVector.hpp: constructor, set_element_sizes")],
 [("bytes_, element_table_", "record bytes and field offsets", I+"MultipleVector.hpp")], ["block", "nested_element", "set_nested_element", "push_back", "resize"])

prop("C09", "The compact hash table is a map from keys to their last values",
 "Under any history of insertions, updates, erasures, reservations and lookups, a compact hash table answers every lookup with the value of the most recent insertion of that key if it was not erased since, and with absence otherwise, and its size is the number of keys present. This holds for every key width up to 60 bits, value width, initial table size (a power of two), load factor, and through every automatic growth and shrink, and copies are independent.",
 ["histories", "inputs", "configurations"], "every history, key set (in particular colliding and wrapping clusters), key width, value width and load factor",
 "The tests insert random keys and read them back; erasure, re-insertion of erased keys, clusters that wrap around the end of the table and resizing with erased entries are not reached.",
 [I+"CHT.hpp", I+"BijectiveHash.hpp", I+"FitVector.hpp"],
 [("quotient/remainder split with occupied, continuation, shifted and deleted flags", I+"CHT.hpp: get, set, erase, ToClusterHead"), ("rebuild on growth and shrink", I+"CHT.hpp: reserve, _resize")],
 [("arr_, values_", "flags with quotients, and values, per bucket", I+"CHT.hpp")], ["get", "set", "erase", "reserve", "size"])

prop("C10", "Compact dynamic rewritable arrays behave like plain arrays",
 "A compact rewritable array of any size returns for each index the value last written to it (zero if none), for any history of writes of 64-bit values of changing widths. Its growable form behaves like a dynamic array under any history of appending, removing the last element, resizing, reserving, shrinking, clearing, reading and writing: existing elements survive every reallocation, and elements that appear by resizing are zero.",
 ["histories", "inputs"], "every array size, every history of operations and values of every bit width",
 "The tests write each index once; rewriting an index with values of other widths, and growing after shrinking, are not reached.",
 [I+"CDRWArray.hpp", I+"CHT.hpp", I+"FitVector.hpp"],
 [("one hash table per value width plus a width array", I+"CDRWArray.hpp: get, set"), ("amortised reallocation", I+"CDRWArray.hpp: _allocate, resize, push_back, pop_back")],
 [("widthes_, sat_table_", "width of each element, and tables by width", I+"CDRWArray.hpp")], ["get", "set", "push_back", "pop_back", "resize", "size", "capacity"])

prop("C11", "The bijective hash is an invertible permutation for every width",
 "For every width from 1 to 64 bits, hashing maps every value below 2^width to a value below 2^width, and the inverse hash recovers the original exactly, in both orders of composition. Hence no two keys of that width ever share a hash, and this also holds for each of the building-block hashes at each of their stages.",
 ["inputs", "configurations"], "every width 1..64 and every value of that width",
 "The tests try the default width with random values only; every row of the constant tables and every shift distance is a separate case.",
 [I+"BijectiveHash.hpp"],
 [("modular inverse pairs per width", I+"BijectiveHash.hpp: PRIME_TABLE"), ("self-inverse xor-shift by at least half the width", I+"BijectiveHash.hpp: Xorshift")],
 [], ["hash", "ihash"])

prop("C12", "The heap always yields an extreme element of what it holds",
 "Under any history of building from a list, pushing and popping, the heap holds exactly the multiset of pushed and not yet popped values, its front is the least of them (the greatest for the maximum variant), and popping removes exactly one occurrence of it. Draining a heap therefore yields all its values in sorted order, duplicates included, and after raw changes of stored values a rebuild restores this, as does sifting down from its place a value made a later one (Heapify).",
 ["histories", "inputs"], "every multiset of values and every interleaving of build, push and pop",
 "The tests build once and drain; they do not interleave pushes with pops, and use few duplicates.",
 [I+"Heap.hpp"],
 [("sift down and sift up", I+"Heap.hpp: Heapify, push"), ("bottom-up build", I+"Heap.hpp: Build")],
 [("base_", "implicit binary tree", I+"Heap.hpp")], ["front", "push", "pop", "size"])

prop("C13", "Heap sort returns the sorted permutation of its input",
 "Heap sort of any random-access range, including empty and one-element ranges, sub-ranges and ranges with duplicates, leaves the range a permutation of its input that is ordered under the given comparison (ascending by default). Elements outside the range are not touched.",
 ["inputs"], "every range and every strict weak order",
 "The tests sort a few random arrays with two comparisons.",
 [I+"sort.hpp"],
 [("sift down and repeated extraction", I+"sort.hpp: HeapSorter")],
 [], ["the range after sorting"])

prop("C14", "Initializable arrays: constant-time init reads everywhere as the new value",
 "After any history of whole-array initialisations, element writes and reads, both initializable arrays return for each index the value last written since the latest initialisation, or that initialisation's value if there is none. This holds whatever the memory contained before and whatever values are written, including values that look like the array's own internal links; writing one element never changes another, and copies are independent.",
 ["histories", "inputs"], "every array size, history of init/fill/get/set and value, and every prior memory content",
 "The tests write random values in random order; the in-place array fails only for particular orders of writes around its boundary and for values that collide with chain links, or for particular stale memory.",
 [I+"InitializableArray.hpp"],
 [("back-pointer validation", I+"InitializableArray.hpp: _is_chained"), ("in-place chains between written and unwritten areas", I+"InitializableArray.hpp: set, _extend, _make_chain, _break_chain")],
 [("b_, a_", "boundary and in-place storage", I+"InitializableArray.hpp")], ["get", "set", "init", "fill", "operator[]", "size"])

prop("C15", "The factor oracle accepts every factor and exactly the oracle's language",
 "The factor oracle of any byte string (including the empty one and all byte values) accepts every factor of the string, and accepts exactly the language of the factor-oracle automaton of that string (Allauzen, Crochemore, Raffinot), so the only accepted string of full length is the string itself and none longer is accepted. A rejected query reports exactly how many leading characters were accepted.",
 ["inputs"], "every byte string and every query string",
 "The tests check acceptance of the factors of a few strings; wrongly accepted strings, all byte values and table growth are not reached.",
 [S+"FactorOracle.hpp"],
 [("on-line construction with supply links", S+"FactorOracle.hpp: _build"), ("double-array placement of external transitions", S+"FactorOracle.hpp: _find_base, _insert_trans"), ("transition check", S+"FactorOracle.hpp: image")],
 [("check_, base_, next_", "compact transition tables", S+"FactorOracle.hpp")], ["accept", "image"])

prop("C16", "Every matcher reports exactly all occurrences, in order",
 "For every non-empty key and every text over all byte values, each of the seven matching algorithms returns the increasing list of exactly the positions at which the key occurs in the text, overlapping occurrences included. A matcher object gives the right answer for every text it is used on, one after the other, and texts shorter than the key give no match.",
 ["inputs", "histories"], "every non-empty key, every text, every algorithm, every sequence of texts for one matcher",
 "The tests compare the algorithms on one random text and key; periodic keys and texts, where the shift tables differ, are hardly reached.",
 [S+"PatternMatching.hpp", S+"FactorOracle.hpp"],
 [("shift and failure tables", S+"PatternMatching.hpp: Kmp, Bm, SundayQS, SundayMS"), ("backward oracle scan and forward re-scan", S+"PatternMatching.hpp: Bom, TurboBom")],
 [], ["find_all", "PatternMatch*"])

prop("C17", "The trie is a map from strings to items and visits its nodes in order",
 "Under any history of insertions, looking a string up in the trie gives the item last inserted for exactly that string, and nothing for any other string, prefixes and extensions included. Its size is one plus the number of distinct non-empty prefixes of the stored strings with their end mark, and the depth-first (edges in byte order) and breadth-first visits reach every node exactly once, at its depth and with its edges.",
 ["histories", "inputs"], "every history of insertions of byte strings (the empty one included), every query, every index type",
 "The tests insert one list of words and look the same words up; absent strings that share prefixes, re-insertion, and the visits are not checked.",
 [S+"graph_util.hpp"],
 [("edge maps per node and end-mark nodes", S+"graph_util.hpp: insert, _traverse"), ("visits", S+"graph_util.hpp: dfs, bfs")],
 [("container_, storage_", "nodes and items", S+"graph_util.hpp")], ["insert", "traverse", "size", "dfs", "bfs", "node", "root"])

prop("C18", "The compact automaton accepts exactly its key set",
 "A compact automaton built from any sorted set of distinct strings without zero bytes (the empty set and the empty string included) accepts exactly the strings of that set. Prefixes, extensions, strings with other bytes at any position, and strings containing a zero byte are rejected, for both construction modes and every code type wide enough.",
 ["inputs"], "every sorted key set and every query string",
 "The tests accept the keys they inserted; rejections of near misses, all byte values, and dense layers are not checked.",
 [S+"Samc.hpp", I+"BitVector.hpp"],
 [("placement of the nodes of each depth by character shifts", S+"Samc.hpp: constructor, y_check_"), ("check of character and layer range on each step", S+"Samc.hpp: accept")],
 [("storage_, code_table_, head_", "check characters, shifts by depth and character, layer starts", S+"Samc.hpp")], ["accept"])

prop("C19", "The suffix array is the sorted order of suffixes with exact common prefixes",
 "For every string without zero bytes, the suffix array lists every start position exactly once, in the lexicographic order (by unsigned bytes) of the suffixes starting there. The accompanying array holds for each rank the exact length of the longest common prefix with the next suffix (zero for the last), and the suffix and character accessors return the text.",
 ["inputs"], "every string over bytes 1..255, in particular repetitive ones",
 "The tests sort one text; recursion depth, equal and distinct LMS substrings, bytes from 0x80 on and one-letter strings are not reached.",
 [S+"SuffixArray.hpp", I+"FitVector.hpp"],
 [("induced sorting with recursion on LMS names", S+"SuffixArray.hpp: Sais_, InducedSort_, Induce_"), ("LCP from neighbouring suffixes", S+"SuffixArray.hpp: BuildLCP_")],
 [("s_arr_, lcp_arr_", "suffix and LCP arrays", S+"SuffixArray.hpp")], ["Write", "WriteSA", "WriteLCP", "suffix", "char_at"])

prop("C20", "Writing a structure and reading it back gives an equal structure",
 "For every serialisable structure of the library and every content, empty ones included, reading what was written gives a structure that answers every query as the original did, and reading consumes exactly what writing produced, so that several structures can be written one after the other into one stream and read back in order. Reading into an object that already holds other content replaces that content entirely.",
 ["inputs", "histories"], "every serialisable type, every content, every concatenation of written objects, every previous content of the object read into",
 "The tests round-trip some types through one fresh object; concatenated streams, empty contents and reading into used objects are not reached.",
 [I+"basic.hpp", I+"BitVector.hpp", I+"SuccinctBitVector.hpp", I+"MultiBitVector.hpp", I+"WaveletTree.hpp", I+"FitVector.hpp", I+"DacVector.hpp", I+"MultipleVector.hpp", S+"Samc.hpp", S+"SuffixArray.hpp"],
 [("length-prefixed vectors and values", I+"basic.hpp: read_*, write_*"), ("Read/Write pairs", "each structure")],
 [], ["Read", "Write", "LoadFrom", "StoreTo", "stream constructors", "stream position"])

prop("C21", "Word operations mean the same under every CPU feature configuration",
 "Population counts (plain and of 2- and 3-bit fields), leading and trailing zero counts, in-word select, masks, field extraction, the exchange permutations and the 256-bit operations return their mathematical values for every word, in 8 to 64 bits, including zero and all-ones words. A word shown in print is the line of its digits from the highest to the lowest, with a blank behind each byte. The portable and the instruction-specific variants agree, whichever CPU feature flags the code is compiled with.",
 ["inputs", "configurations"], "every argument, and every combination of the CPU feature flags used by the code (without AVX-512)",
 "The tests are compiled with one configuration, so the other branches are never run, and check few values.",
 [I+"bit_util.hpp", I+"bit_util256.hpp", I+"log.hpp"],
 [("portable bit tricks next to intrinsics", I+"bit_util.hpp"), ("256-bit loops and AVX2", I+"bit_util256.hpp")],
 [], ["each function's result"])

prop("C22", "Width calculators give minimal widths and layer splits that cover all values",
 "The calculators of how many units, bits or bytes a value needs return the least positive number of units that can represent it, for every 64-bit value and unit size, and the variant for a list of unit sizes the least number of leading units that can. The histogram of bit lengths and its suffix sums count a list's values exactly, and the layer widths proposed for a non-empty list are all positive, at most as many as allowed, and add up to the bit length of its largest value.",
 ["inputs"], "every 64-bit value, every unit size 1..64, every list of values, every allowed number of layers",
 "The tests check a few small values; values using the top bits, units that do not divide 64, and skewed lists are not reached.",
 [I+"calc.hpp"],
 [("shifting until zero", I+"calc.hpp: SizeFitsInUnits, SizeFitsAsList"), ("dynamic program over bit lengths, merged down to the allowed number", I+"calc.hpp: split_positions_optimized_for_dac")],
 [], ["SizeFitsInUnits", "SizeFitsInBits", "SizeFitsInBytes", "SizeFitsAsList", "bit_length_frequencies", "cummulative_frequency_list", "split_positions_optimized_for_dac"])

prop("C23", "The string dictionary is a bijection between keys and identifiers",
 "A compact string dictionary built from any sorted set of n distinct strings without zero bytes maps each of them to a distinct identifier in 0..n-1, and mapping that identifier back returns exactly the same string. Looking up any other string, prefixes, extensions and strings with zero bytes included, reports absence.",
 ["inputs"], "every sorted key set, every identifier, every query string",
 "The tests map the inserted keys there and back; absence, all byte values and large sets are not checked.",
 [S+"Samc.hpp", I+"SuccinctBitVector.hpp"],
 [("rank and select over the leaves", S+"Samc.hpp: _SamcDictImpl::id, leaf"), ("walk back from the leaf", S+"Samc.hpp: SamcDict::access")],
 [("leaves_", "marks of the leaf cells", S+"Samc.hpp")], ["lookup", "access"])

prop("C24", "Recursive function objects and timers run what they are given",
 "The object that recursive(f) returns, called with any arguments, runs f once, with f itself as the first argument and those arguments behind it, references staying references; f may call itself through that argument to any depth. This holds whenever the call is made, long after recursive has returned, for copies of the object, and for functions with state of their own. The timing helpers run the given process exactly once and report the time that passed, at least that of the process, in the unit they are named after; successive readings of a stopwatch do not decrease.",
 ["inputs", "histories"], "every function with or without captured state, every tree of calls, every lifetime and copy of the returned object",
 "No test calls these helpers; a function without state works even when the object has lost it.",
 [I+"basic.hpp"],
 [("the function is kept with the returned object", I+"basic.hpp: recursive"), ("stopwatch around the process", I+"basic.hpp: millisec_time_in_process, microsec_time_in_process")],
 [("start_", "moment of construction", I+"basic.hpp: Stopwatch")], ["recursive", "Stopwatch", "millisec_time_in_process", "microsec_time_in_process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sc)
except ImportError: pass
print(len(P))
