"""The properties: harness, trace specification, models and generators of each."""
import gens, models, bigs, longs
PROPS = {}
# Large structures, recorded as runs: medium sizes (past 65536) in every build, huge ones (past 2^32 bits) without ASan
def runs(harness, gen, configs=("portable", "native", "asan"), **kw):
    return dict(harness=harness, module="RunsTrace", cfg="TraceRuns.cfg", gen=gen, configs=list(configs), **kw)
# and long strings, lists and key sets
def long(harness, module, gen, configs=("native", "asan"), **kw): return dict(harness=harness, module=module, gen=gen, configs=list(configs), **kw)
def huge(harness, gen, configs=("portable", "native")): return runs(harness, gen, configs, cpu=240)
def prop(pid, **kw):
    kw.setdefault("models", models.MODELS.get(pid, []))
    kw.setdefault("configs", ["portable", "popcnt", "native", "asan"])
    PROPS[pid] = kw
prop("C01", harness="bitvec", module="BitVecTrace", gen=gens.bitvec, configs=["portable", "native", "asan"],
     parts=[runs("runs_bv", bigs.bv), huge("runs_bv", bigs.bv_huge)])
prop("C02", harness="succinct", module="RankSelectTrace", gen=lambda r, t: gens.succinct(r, t, "rank"),
     parts=[runs("runs_sbv", lambda r, t: bigs.sbv(r, t, "rank")), huge("runs_sbv", lambda r, t: bigs.sbv_huge(r, t, "rank"))])
prop("C03", harness="succinct", module="RankSelectTrace", gen=lambda r, t: gens.succinct(r, t, "select"),
     parts=[runs("runs_sbv", lambda r, t: bigs.sbv(r, t, "select")), huge("runs_sbv", lambda r, t: bigs.sbv_huge(r, t, "select"))])
prop("C04", harness="multibit", module="MultiBitTrace", gen=gens.multibit,
     parts=[runs("runs_mbv", bigs.mbv), huge("runs_mbv", bigs.mbv_huge, ["native"])])
prop("C05", harness="wavelet", module="WaveletTrace", gen=gens.wavelet,
     parts=[runs("runs_wt", bigs.wt), huge("runs_wt", bigs.wt_huge, ["native"])])
prop("C06", harness="fitvec", module="FitVecTrace", gen=gens.fitvec, configs=["portable", "native", "asan"],
     parts=[runs("runs_fit", bigs.fit), huge("runs_fit", bigs.fit_huge)])
prop("C07", harness="dac", module="DacTrace", gen=gens.dac,
     parts=[runs("runs_dac", bigs.dac), huge("runs_dac", bigs.dac_huge, ["native"])])
prop("C08", harness="multiple", module="MultiTrace", gen=gens.multiple, configs=["portable", "native", "asan"],
     parts=[runs("runs_mul", bigs.mul), huge("runs_mul", bigs.mul_huge, ["native"])])
prop("C09", harness="cht", module="HashMapTrace", gen=gens.cht, configs=["portable", "native", "asan"],
     parts=[runs("runs_cht", bigs.cht)])
prop("C10", harness="cdrw", module="RewritableTrace", gen=gens.cdrw, configs=["portable", "native", "asan"],
     parts=[runs("runs_cdrw", bigs.cdrw)])
prop("C11", harness="bijhash", module="BijHashTrace", gen=gens.bijhash, configs=["portable", "native"])
prop("C12", harness="heap", module="HeapTrace", gen=gens.heap, configs=["portable", "native", "asan"],
     parts=[long("heap", "HeapTrace", longs.heap)])
prop("C13", harness="sort", module="SortTrace", gen=gens.heapsort, configs=["portable", "native", "asan"],
     parts=[long("sort", "SortTrace", longs.heapsort)])
prop("C14", harness="initarr", module="InitArrTrace", gen=gens.initarr, configs=["portable", "native", "asan"],
     parts=[runs("runs_ini", bigs.ini)])
prop("C15", harness="oracle", module="OracleTrace", gen=gens.oracle, configs=["portable", "native", "asan"],
     parts=[long("oracle", "OracleTrace", longs.oracle)])
prop("C16", harness="match", module="MatchTrace", gen=gens.match, configs=["portable", "native", "asan"],
     parts=[long("match", "MatchTrace", longs.match), long("match", "MatchTrace", longs.match_huge, ["native"], cpu=150)])
prop("C17", harness="trie", module="TrieTrace", gen=gens.trie, configs=["portable", "native", "asan"],
     parts=[long("trie", "TrieBigTrace", longs.trie), long("trie", "TrieDeepTrace", longs.trie_deep)])
prop("C18", harness="samc", module="SamcTrace", gen=lambda r, t: gens.samc(r, t, "acc"),
     parts=[long("samc", "SamcTrace", lambda r, t: longs.samc(r, t, "acc"))])
prop("C19", harness="suffix", module="SuffixTrace", gen=gens.suffix, configs=["portable", "native", "asan"],
     parts=[long("suffix", "SuffixTrace", longs.suffix)])
prop("C23", harness="samc", module="SamcTrace", gen=lambda r, t: gens.samc(r, t, "look"),
     parts=[long("samc", "SamcTrace", lambda r, t: longs.samc(r, t, "look"))])
prop("C20", harness="serial", module="StreamTrace", gen=gens.serial, configs=["portable", "native", "asan"],
     parts=[runs("runs_" + k, lambda r, t, k=k: bigs.io(r, t, k), ["native", "asan"]) for k in ("bv", "sbv", "mbv", "wt", "fit", "dac", "mul")] +
           [huge("runs_" + k, lambda r, t, k=k: bigs.io(r, t, k, True), ["native"]) for k in ("bv", "sbv", "fit")] +
           [long("serial", "StreamTrace", longs.serial)])
prop("C22", harness="calc", module="WidthsTrace", gen=gens.widths, configs=["portable", "native", "asan"],
     parts=[long("calc_long", "WidthsTrace", longs.widths, ["native"], cpu=240, optional=True)])
prop("C21", harness="words", module="WordsTrace", gen=gens.word_ops, configs=["portable", "popcnt", "bmi", "lzcnt", "native", "asan"])
prop("C24", harness="recurse", module="RecurseTrace", gen=gens.recurse, configs=["portable", "native", "asan"])
