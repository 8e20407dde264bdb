"""Which units and which failing-input searches decide which property."""
from cbmc import CbmcUnit
from leanunit import LeanUnit
from search import Search
from common import VERIF, REPO

LIBC = ("malloc, realloc, free, memmove, memcpy, memset: the model in cbmc/contract.h "
        "(fresh block of the size asked for or NULL, at most 2^54 bytes; contents kept; frees the argument)")
CBMC_BASE = ["CBMC 6.11.0 (goto-cc front end, symbolic execution, MiniSat2/CaDiCaL)", LIBC,
             "x86_64 LP64 data model, gcc 13 layout"]

PROPS = {}
NA = {}
T_CBMC = "contract harness on the real function, all inputs, decided by CBMC (SAT)"
T_CUT = "function contracts with loop invariants (while rule at cut loop heads) on the real code, decided by CBMC"
N_CBMC = ("Pre/postconditions of the real functions proved for every state and size (no bound): loop-free symbolic state, bytes by "
          "arbitrary witness offsets. Trusts CBMC, the libc model in cbmc/contract.h and the LP64 layout.")
N_CUT = ("Postcondition for every input of every length; loops by invariant and measure, no unrolling bound. Trusts CBMC, "
         "the loop-cutting extraction lib/cutloops.py and the LP64 layout.")
BUF = []
for op, parts in (("insert_raw", "012"), ("insert", "012"), ("append_raw", "02"), ("append", "02"), ("remove", "012"), ("clear", "2")):
    for p in parts:
        BUF.append(CbmcUnit("buffer/%s.%s" % (op, {"0": "prefix", "1": "suffix", "2": "rest"}[p]), "buffer.c", "unit_" + op,
                   ["buffer_" + op] + (["buffer_insert_raw"] if "append" in op else []) + ["buffer_reserve", "buffer_realloc", "buffer_good_alloc_size"],
                   ["-DPART=" + p, "-DNW=" + {"0": "1", "1": "2", "2": "1"}[p]], unwind=67,
                   weight=50 if p == "1" else 5))
BUF8 = []
for op in ("realloc", "reserve", "shrink", "acquire", "swap", "init_access"):
    BUF8.append(CbmcUnit("buffer/" + op, "buffer.c", "unit_" + op, ["buffer_" + op] if op != "init_access" else
                ["buffer_init", "buffer_fini", "buffer_size", "buffer_is_empty", "buffer_data", "buffer_const_data", "buffer_data_at", "buffer_const_data_at"],
                ["-DNW=1"], unwind=67, weight=3))
PROPS["C07"] = dict(technique=T_CBMC, note=N_CBMC, units=BUF, search=[Search("buffer.c")], trusted=CBMC_BASE)
PROPS["C08"] = dict(technique=T_CBMC, note=N_CBMC, units=BUF8 + BUF, search=[Search("buffer.c")], trusted=CBMC_BASE)

HEXC = ("encode/hex.c", {"hex_encode": ([0], 1), "hex_decode": ([0], 1)})
HEXB = dict(defs=["-DBOUND=6"], unwind=8, bound="at most 6 input bytes")
def hexu(n, fn):
    return CbmcUnit("hex/" + n, "hex.c", "unit_" + n, fn, cut=HEXC, fallback=HEXB)
PROPS["C01"] = dict(technique=T_CUT, note=N_CUT, search=[Search("encode.c", flags=["-DHEX_ENC"])],
                   units=[hexu("encode", ["hex_encode"])], trusted=CBMC_BASE)
PROPS["C02"] = dict(technique=T_CUT, note=N_CUT, search=[Search("encode.c", flags=["-DHEX_DEC"])],
                   units=[hexu("decode", ["hex_decode"]), hexu("decode_accepts", ["hex_decode"]), hexu("decode_rejects", ["hex_decode"]),
                           hexu("lemma_inverse", [])], trusted=CBMC_BASE)

B64C = ("encode/base64.c", {"base64_encode": ([0], 1), "base64_decode": ([1, 2], 3)})
B64B = dict(defs=["-DBOUND=8"], unwind=64, bound="at most 8 input bytes")
def b64u(n, fn, w=1, **k):
    return CbmcUnit("base64/" + n, "base64.c", "unit_" + n, fn, cut=B64C, fallback=B64B, unwind=64, weight=w, **k)
PROPS["C03"] = dict(technique=T_CUT, note=N_CUT, search=[Search("encode.c", flags=["-DB64_ENC"])],
                   units=[b64u("encode", ["base64_encode"])], trusted=CBMC_BASE)
PROPS["C04"] = dict(technique=T_CUT, note=N_CUT, search=[Search("encode.c", flags=["-DB64_DEC"])],
                   units=[b64u("decode", ["base64_decode"]), b64u("decode_accepts", ["base64_decode"], defs=["-DNOBYTES"]),
                           b64u("decode_rejects", ["base64_decode"], defs=["-DNOBYTES"], nocover=["base64_decode_2: back edge"]),
                           b64u("lemma_inverse", [])], trusted=CBMC_BASE)
def hashu(n, rel, fn, fam):
    return CbmcUnit("hash/" + n, "hash.c", "unit_" + n, [fn], ["-D" + fam], flags=["--z3"] if fam == "FNV" else [], cut=(rel, {fn: ([0], 1)}), unwind=9,
                    fallback=dict(defs=["-DBOUND=5"], unwind=9, bound="at most 5 input bytes"))
PROPS["C05"] = dict(technique=T_CUT, note=N_CUT, search=[Search("hash.c", flags=["-DCRC"])],
                   units=[hashu("crc32", "hash/crc32.c", "crc32", "CRC")], trusted=CBMC_BASE)
PROPS["C06"] = dict(technique=T_CUT, note=N_CUT, search=[Search("hash.c", flags=["-DFNV"])],
                   units=[hashu("fnv32", "hash/fnv1a.c", "fnv1a_32", "FNV"), hashu("fnv64", "hash/fnv1a.c", "fnv1a_64", "FNV")], trusted=CBMC_BASE)

ELEM = [("int8", "int8_t"), ("uint8", "uint8_t"), ("int16", "int16_t"), ("uint16", "uint16_t"), ("int32", "int32_t"), ("uint32", "uint32_t"),
        ("int64", "int64_t"), ("uint64", "uint64_t"), ("ptr", "PTR")]
def tdefs(t, ty):
    return ["-DT=" + t, "-DTY=" + ("VOIDPTR" if ty == "PTR" else ty)] + (["-DVOIDPTR=__typeof__(void*)"] if ty == "PTR" else []) + ["-DES=%d" % (8 if t == "ptr" else int(t.lstrip("uint")) // 8)]
ARR = []
for t, ty in ELEM:
    for u, fns in (("access", "init fini size is_empty data const_data get set"), ("insert", "insert insert_raw insert_n_raw append append_raw append_n"),
                   ("remove", "remove remove_n"), ("acquire", "acquire")):
        ARR.append(CbmcUnit("array_%s/%s" % (t, u), "array.c", "unit_" + u, ["array_%s_%s" % (t, f) for f in fns.split()], tdefs(t, ty), unwind=9,
                            nocover=["insert fails for size"] if t.endswith("int8") else []))
STK = []
for t, ty in ELEM:
    for u in ("typed", "typed_top"):
        STK.append(CbmcUnit("stack_%s/%s" % (t, u), "stack.c", "unit_" + u, ["stack_push_" + t, "stack_peek_" + t, "stack_pop_" + t],
                            [d for d in tdefs(t, ty) if "-DES" not in d], unwind=9))
for u in ("push_raw", "push", "peek_pop", "pop_raw", "misc"):
    STK.append(CbmcUnit("stack/" + u, "stack.c", "unit_" + u, ["stack_" + f for f in (u if u != "misc" else "init fini size is_empty data const_data swap acquire clear").replace("peek_pop", "peek pop").split()],
                        unwind=9))
PROPS["C09"] = dict(search=[Search("typed.c", flags=["-DSTACKS"])], technique=T_CBMC, note=N_CBMC, units=STK + BUF, trusted=CBMC_BASE)
PROPS["C10"] = dict(search=[Search("typed.c", flags=["-DARRAYS"])], technique=T_CBMC, note=N_CBMC, units=ARR + BUF, trusted=CBMC_BASE)
MCC = ("mem/memchunk.c", {"memchunk_fini": ([0], 1, "linked")})
def mcu(n, fn):
    return CbmcUnit("memchunk/" + n, "memchunk.c", "unit_" + n, fn, cut=MCC, fallback=dict(defs=["-DBOUND=4"], unwind=6, bound="at most 4 blocks"), unwind=3,
                    nocover=[] if n == "fini" else ["memchunk_fini_0: back edge"])
PROPS["C28"] = dict(technique=T_CUT, note=N_CUT, search=[Search("memchunk.c")], trusted=CBMC_BASE,
                   units=[mcu("alloc", ["memchunk_alloc"]), mcu("init", ["memchunk_init"]), mcu("fini", ["memchunk_fini"])])
MAL = []
def malu(name, entry, *defs, **k):
    MAL.append(CbmcUnit("malloca/" + name, "malloca.c", "unit_" + entry, ["MALLOCA_", "MALLOCA", "malloca_set_mark__", "FREEA"], list(defs), unwind=3, **k))
for n, st, tt in (("size_t", "size_t", "size_t"), ("int", "int", "int"), ("unsigned", "unsigned", "unsigned"), ("long", "long", "size_t"),
                  ("uchar_int", "__typeof__((unsigned char)0)", "int"), ("int_size_t", "int", "size_t"), ("size_t_int", "size_t", "int"), ("ushort_long", "__typeof__((unsigned short)0)", "long")):
    malu("types_" + n, "alloc_free", "-DST=" + st, "-DTT=" + tt)
for i, (s, t) in enumerate((("cnd ? a : b", "cnd ? t : u"), ("a ^ b", "t | u"), ("a & b", "t & u"), ("a >> 1", "t >> 2"), ("a == b ? 0 : a", "t < u ? t : u"), ("a && cnd ? b : a", "t || u ? t : 0"), ("a - a + b", "t"), ("b", "t ^ u"))):
    malu("expr_%d" % i, "alloc_free", "-DSIZE_EXPR=" + s, "-DTHR_EXPR=" + t)
for n in ("mark", "x", "ptr", "size", "threshold", "block", "mem", "m", "mark_", "_mark", "ptr_", "tmp", "free_"):
    malu("name_" + n, "alloc_free", "-DNAME=" + n)
for n in ("int", "char", "double", "__typeof__(unsigned char)", "__typeof__(char*)"):
    malu("ptr_" + "".join(c for c in n if c.isalnum()), "default", "-DPT=" + n)
for i, s in enumerate(("a", "cnd ? a : b", "a | b")):
    malu("default_%d" % i, "default", "-DSIZE_EXPR=" + s, "-DTHR_EXPR=0")
for n in ("void", "int", "char"):
    malu("two_" + n, "two", "-DPT=" + n)
PROPS["C29"] = dict(technique=T_CBMC, note="Contracts on the macro expansions for every size, threshold, block content and allocation outcome, for a list of argument forms, types and variable names. "
                    "alloca() is modelled as an always succeeding fresh block. Trusts CBMC and that model.",
                    search=[Search("malloca.c")], trusted=CBMC_BASE + ["alloca(): fresh non-heap block, never fails"], units=MAL)
DEFS = []
for n, ty, fl in [("int8", "int8_t", ["-DLOW=INT8_MIN"]), ("int16", "int16_t", ["-DLOW=INT16_MIN"]), ("int32", "int32_t", ["-DLOW=INT32_MIN"]), ("int64", "int64_t", ["-DLOW=INT64_MIN"]),
                  ("uint8", "uint8_t", ["-DUNS"]), ("uint16", "uint16_t", ["-DUNS"]), ("uint32", "uint32_t", ["-DUNS"]), ("uint64", "uint64_t", ["-DUNS"]), ("char", "__typeof__((char)0)", ["-DLOW=INT8_MIN"]),
                  ("float", "float", ["-DFLT"]), ("double", "double", ["-DFLT"]), ("llong", "__typeof__(0ll)", ["-DLOW=INT64_MIN"])]:
    for e, fns in (("minmax", "MIN MAX MIN3 MAX3"), ("clamp", "CLAMP"), ("abs", "ABS"), ("containers", "SIZEOF_ARRAY OFFSETOF CONTAINEROF STRINGIZE")):
        DEFS.append(CbmcUnit("defs/%s_%s" % (e, n), "defs.c", "unit_" + e, fns.split(), ["-DTY=" + ty] + fl, unwind=12))
for v in (1, 2):
    DEFS.append(CbmcUnit("defs/containers_offsetof%d" % v, "defs.c", "unit_containers", ["OFFSETOF", "CONTAINEROF"], ["-DTY=int", "-DLOW=INT32_MIN", "-DOFFSETOF_VARIANT=%d" % v], unwind=12))
PROPS["C31"] = dict(technique=T_CBMC, note="Contracts on the macro expansions for all operand values of twelve arithmetic types and a list of argument and context expressions; long double is not covered. Trusts CBMC (front end, IEEE floats).",
                    search=[Search("defs.c")], trusted=CBMC_BASE, units=DEFS)
MST = []
for u, f in (("create", "create"), ("read", "Read"), ("seek", "Seek"), ("copy", "CopyTo"), ("copy_same_kind", "CopyTo Write"), ("write", "Write SetSize Commit Revert Stat"), ("clone", "Clone"),
             ("refs", "AddRef Release QueryInterface"), ("resource", "create_from_resource")):
    MST.append(CbmcUnit("memstream/" + u, "memstream.c", "unit_" + u, ["memstream_" + x for x in f.split()], defs=["-DSTUB_NO_MEMFUNCS"] if u == "write" else [], incs=[VERIF + "/win32stub", REPO + "/win32"], unwind=9))
PROPS["C32"] = dict(technique=T_CBMC, note="Contracts on the stream methods, called through the COM table, for every block, position, request and outcome. The Windows headers are a stand-in (win32stub/): type widths, constants and "
                    "Interlocked* as sequential operations are trusted; concurrency of reference counting is not covered.",
                    search=[Search("memstream.c", flags=["-I" + VERIF + "/win32stub", "-I" + REPO + "/win32"])], trusted=CBMC_BASE + ["win32stub/windows.h, objidl.h stand in for the Windows SDK; Interlocked* sequential"], units=MST)

def vsearch(*tests, **k):
    return [Search("value.c", tests=list(tests), flags=["-fsanitize=float-cast-overflow"], optional=["-DWHITE"], **k)]
NUM = [("int32", "int32_t", "VALUE_INT32", []), ("uint32", "uint32_t", "VALUE_UINT32", []), ("int64", "int64_t", "VALUE_INT64", []), ("uint64", "uint64_t", "VALUE_UINT64", []),
       ("float", "float", "VALUE_FLOAT", ["SFLOAT"]), ("double", "double", "VALUE_DOUBLE", ["SFLOAT"])]
GRANGE = {"int32": ("INT32_MIN", "r <= INT32_MAX"), "uint32": ("0", "r <= UINT32_MAX"), "int64": ("INT64_MIN", "1"), "uint64": ("0", "1")}
VSC, VCO = [], []
for s, sty, sv, sf in NUM:
    for g, gty, gv, gf in NUM:
        d = ["-DST=" + s, "-DSTY=" + sty, "-DSV=" + sv, "-DGT=" + g, "-DGTY=" + gty, "-DGV=" + gv] + ["-D" + f for f in sf] + (["-DGFLOAT"] if gf else ["-DGMIN=" + GRANGE[g][0], "-DGMAXCHK=" + GRANGE[g][1]]) + (["-DGU64"] if g == "uint64" else [])
        VSC.append(CbmcUnit("value/%s_as_%s" % (s, g), "value_scalar.c", "unit_numeric", ["value_init_" + s, "value_" + s, "value_" + g, "value_init_simple", "value_init_ex", "value_payload", "value_type"], d, unwind=12))
    VCO.append(CbmcUnit("value/compatible_" + s, "value_scalar.c", "unit_compatible", ["value_is_compatible"], ["-DST=" + s, "-DSTY=" + sty, "-DSV=" + sv] + ["-D" + f for f in sf], flags=[] if sf else ["--conversion-check"], unwind=12, nocover=["large"] if s == "int32" else []))
    if sf:
        VCO.append(CbmcUnit("value/compatible_conv_" + s, "value_scalar.c", "unit_compatible", ["value_is_compatible"], ["-DNO_LOW_BOUND", "-DST=" + s, "-DSTY=" + sty, "-DSV=" + sv] + ["-D" + f for f in sf], flags=["--conversion-check"], unwind=12))
VOT = [CbmcUnit("value/other%d" % w, "value_scalar.c", "unit_other", ["value_init_null", "value_init_bool", "value_bool", "value_is_compatible", "value_int32", "value_uint32", "value_int64", "value_uint64", "value_float", "value_double"], ["-DWHICH=%d" % w], flags=["--object-bits", "11"], unwind=12) for w in range(7)]
PROPS["C19"] = dict(search=vsearch("scalar", "other"), technique=T_CBMC, note=N_CBMC, units=VSC + VOT, trusted=CBMC_BASE)
PROPS["C20"] = dict(search=vsearch("scalar", "other"), technique=T_CBMC, note=N_CBMC, units=VCO + VOT, trusted=CBMC_BASE)
VST = [CbmcUnit("value_string/" + n, "value_string.c", "unit_" + n, ["value_init_string_", "value_init_string", "value_string", "value_string_length", "value_fini", "value_init", "value_init_ex", "value_payload"],
                unwind=12, cut=("data/value.c", {}, ["value_array_clean", "value_dict_clean"])) for n in ("string", "cstring", "nostring")]
PROPS["C21"] = dict(search=vsearch("string"), technique=T_CBMC, note=N_CBMC, units=VST, trusted=CBMC_BASE)
VAC = ("data/value.c", {"value_array_remove_range": ([0], 1), "value_array_clean": ([0], 1)}, ["value_fini", "value_dict_clean"])
NOA = "get get_all size payload insert append remove remove_range clean"
VAR = [CbmcUnit("value_array/" + n, "value_array.c", "unit_" + n.split(".")[0], ["value_array_" + x for x in f.split()], ["-DAPP=%d" % (".append" in n or ".one" in n or (".int" in n) * 2 or ".null" in n)], unwind=66, cut=VAC, flags=["--object-bits", "11"],
                fallback=dict(defs=["-DBOUND=5"], unwind=66, bound="at most 5 elements"), nocover=["value_array_clean_0"] if "remove" in n else ["value_array_remove_range_0"] if n == "clean" else ["back edge reached"])
       for n, f in (("init", "init"), ("get", "get get_all size payload"), ("noarray", NOA), ("noarray.null", NOA), ("noarray.int", NOA), ("insert", "insert realloc good_alloc_size"), ("insert.append", "insert append realloc good_alloc_size"),
                    ("remove", "remove_range realloc good_alloc_size"), ("remove.one", "remove remove_range realloc good_alloc_size"), ("clean", "clean"))]
PROPS["C22"] = dict(search=vsearch("array"), technique=T_CUT, note=N_CUT, units=VAR, trusted=CBMC_BASE)

def listu(kind, ops):
    return [CbmcUnit("%slist/%s" % ({"DL": "", "SL": "s", "QL": "q"}[kind], o), "list.c", "unit_" + o, ["%slist_%s" % ({"DL": "", "SL": "s", "QL": "q"}[kind], x) for x in
            ([o] if o != "init" else ["init"]) + "is_empty head next end".split()], ["-D" + kind] if kind != "DL" else [], unwind=9, nocover=["beyond", "before the"]) for o in ops.split()]
N_SEQ = ("Contracts of the real functions over arbitrary sequences of any length: the nodes an operation addresses and an arbitrary witness place with its successor are materialised, all else is opaque "
         "(touching it fails an obligation). That link agreement at every place means the traversals visit the sequence is the standard induction over places, not machine-checked. Trusts CBMC and the LP64 layout.")
PROPS["C11"] = dict(technique=T_CBMC, note=N_SEQ, search=[Search("list.c", tests=["list"])], trusted=CBMC_BASE,
                    units=listu("DL", "init insert_after insert_before prepend append remove remove_head remove_tail"))
PROPS["C12"] = dict(technique=T_CBMC, note=N_SEQ, search=[Search("list.c", tests=["slist", "qlist"])], trusted=CBMC_BASE,
                    units=listu("SL", "init insert_after prepend remove remove_head") + listu("QL", "init insert_after prepend append remove remove_head"))

# ---- red-black tree ----
T_RB = T_CUT
N_RB = ("The tree is unbounded. Each loop is cut at its head: one arbitrary iteration on an arbitrary tree, of which the nodes the step may touch are materialised and each subtree hanging off them is one object with a ghost "
        "black height and colour (all else is opaque: touching it fails an obligation). Each operation is decided against the contracts of its callees. That valid contexts and replaced subtrees compose to a valid tree with the "
        "same in-order sequence, and that the height is at most 2*log2(n+1), is proved in Lean (lean/RB.lean). The induction over loop iterations and over the interval each subtree owns is the standard one, not machine-checked. Trusts CBMC and the LP64 layout.")
RB_SUBST = [(r"\(RBTREE_NODE\s*\*\)\s*\(", "CV_NODE_(")]
def rbu(name, entry, fns, loops, ren, defs=(), **k):
    k.setdefault("unwind", 130)
    return CbmcUnit("rbtree/" + name, "rbtree.c", entry, fns.split(), list(defs), cut=("data/rbtree.c", loops, ren.split(), RB_SUBST), **k)
RB_FIX = {"rbtree_insert_fixup": ([0], 1, "state"), "rbtree_remove_fixup": ([0], 1, "state")}
RBF = []
for l, dx, dp, dg in [(1, 0, 0, 0)] + [(2, x, 0, 0) for x in (0, 1)] + [(3, x, p, 0) for x in (0, 1) for p in (0, 1)] + [(4, x, p, 0) for x in (0, 1) for p in (0, 1)]:
    RBF.append(("insert_fixup_%d%d%d%d" % (l, dx, dp, dg), "unit_insert_fix", "insert", ["-DFIX_INSERT", "-DLEN=%d" % l, "-DDX=%d" % dx, "-DDP=%d" % dp], dict(weight=2 + l, nocover=["back edge"] if l < 3 else [])))
for l, dx, dg, sr in [(1, 0, 0, 0)] + [(2, x, 0, s) for x in (0, 1) for s in (0, 1)] + [(3, x, 0, s) for x in (0, 1) for s in (0, 1)]:
    RBF.append(("remove_fixup_%d%d%d%d" % (l, dx, dg, sr), "unit_remove_fix", "remove", ["-DFIX_REMOVE", "-DLEN=%d" % l, "-DDX=%d" % dx, "-DSRED=%d" % sr],
                dict(weight=10 * l if l > 1 else 1, nocover=["back edge", "red X"] if l == 1 else [])))
RBFIX = [rbu(n, e, "rbtree_%s_fixup rbtree_rotate_left rbtree_rotate_right" % w, {"rbtree_%s_fixup" % w: ([0], 1, "state")}, "", d + ["-DCUT_STATE"], flags=["--sat-solver", "cadical"], **k) for n, e, w, d, k in RBF]
RBL = lambda f: {f: ([0], 1, "linked")}
RB_LP = rbu("lookup_path", "unit_lookup_path", "rbtree_lookup_path", RBL("rbtree_lookup_path"), "")
RB_LM = rbu("leftmost_path", "unit_leftmost", "rbtree_leftmost_path", RBL("rbtree_leftmost_path"), "", ["-DDIR=0"])
RB_RM = rbu("rightmost_path", "unit_leftmost", "rbtree_rightmost_path", RBL("rbtree_rightmost_path"), "", ["-DDIR=1"])
RB_LU = rbu("lookup", "unit_lookup", "rbtree_lookup", RBL("rbtree_lookup"), "")
RB_IN = rbu("insert", "unit_insert", "rbtree_insert", {}, "rbtree_lookup_path rbtree_insert_fixup")
RB_RE = [rbu("remove%d" % c, "unit_remove", "rbtree_remove", {}, "rbtree_lookup_path rbtree_leftmost_path rbtree_remove_fixup", ["-DCASE=%d" % c]) for c in range(6)]
RB_IT = rbu("init", "unit_init", "rbtree_init rbtree_is_empty rbtree_current", {}, "")
RB_LEAN = LeanUnit("rbtree/composition", "RB.lean")
RB_S = [Search("rbtree.c", optional=["-DWHITE"])]
PROPS["C15"] = dict(technique=T_RB, note=N_RB, search=RB_S, trusted=CBMC_BASE, units=[RB_LEAN, RB_IT, RB_LP, RB_LM, RB_LU, RB_IN] + RB_RE + RBFIX)
PROPS["C16"] = dict(technique=T_RB, note=N_RB, search=RB_S, trusted=CBMC_BASE, units=[RB_LEAN, RB_LP, RB_LM, RB_RM, RB_IN] + RB_RE + RBFIX)
PROPS["C17"] = dict(technique=T_RB, note=N_RB, search=RB_S, trusted=CBMC_BASE, units=[RB_IT, RB_LP, RB_LM, RB_RM, RB_LU,
    rbu("lookup_ex", "unit_lookup_ex", "rbtree_lookup_ex rbtree_current", {}, "rbtree_lookup_path"),
    rbu("head", "unit_head", "rbtree_head rbtree_current", {}, "rbtree_leftmost_path", ["-DDIR=0"]), rbu("tail", "unit_head", "rbtree_tail rbtree_current", {}, "rbtree_rightmost_path", ["-DDIR=1"]),
    rbu("next", "unit_step", "rbtree_next", {"rbtree_next": ([0], 1)}, "rbtree_leftmost_path", ["-DDIR=0"]), rbu("prev", "unit_step", "rbtree_prev", {"rbtree_prev": ([0], 1)}, "rbtree_rightmost_path", ["-DDIR=1"])])
PROPS["C18"] = dict(technique=T_RB, note=N_RB, search=RB_S, trusted=CBMC_BASE, units=[RB_LEAN, RB_IT, rbu("fini_step", "unit_fini_step", "rbtree_fini_step", {"rbtree_fini_step": ([0], 1, "linkedv")}, "")])

# ---- dictionaries ----
N_VD = N_RB.replace("the height is at most 2*log2(n+1)", "the height is at most 2*log2(n+1)")
def vdu(name, entry, fns, loops, ren, defs=(), **k):
    k.setdefault("unwind", 130)
    return CbmcUnit("value_dict/" + name, "value_dict.c", entry, fns.split(), list(defs), cut=("data/value.c", loops, ren.split()), **k)
VDL = lambda f: {f: ([0], 1, "linked")}
VDFIX = [vdu(n.replace("fixup", "fix"), e, "value_dict_fix_after_%s value_dict_rotate_left value_dict_rotate_right" % w, {"value_dict_fix_after_" + w: ([0], 1, "state")}, "", d + ["-DCUT_STATE"], flags=["--sat-solver", "cadical"], **k) for n, e, w, d, k in RBF]
VKEY = "value_string value_string_length value_dict_cmp "
VD_GET = [vdu("get%d" % f, "unit_get", "value_dict_get_", VDL("value_dict_get_"), VKEY, ["-DUNIT_GET", "-DFL=%d" % f]) for f in (0, 3)]
VD_ADD = [vdu("get_or_add%d" % f, "unit_add", "value_dict_get_or_add_ value_init_new", VDL("value_dict_get_or_add_"), VKEY + "value_init_string_ value_dict_fix_after_insert", ["-DUNIT_ADD", "-DFL=%d" % f]) for f in range(4)]
VD_REM = [vdu("remove%d_%d" % (c, f), "unit_remove", "value_dict_remove_", VDL("value_dict_remove_"), VKEY + "value_dict_leftmost_path value_dict_fix_after_remove value_fini", ["-DREMOVE_UNIT", "-DNODE_FREE", "-DCASE=%d" % c, "-DFL=%d" % f],
              nocover=["back edge", "no dictionary"] if c else []) for c in range(6) for f in (0, 1, 2)]
VD_MOST = vdu("leftmost_path", "unit_leftmost", "value_dict_leftmost_path", VDL("value_dict_leftmost_path"), "", ["-DUNIT_MOST"])
VD_CMP = [vdu("default_cmp", "unit_default_cmp", "value_dict_default_cmp", {}, "", ["-DUNIT_MISC", "-DMEMCMP_STUB"])] + [vdu("cmp%d" % f, "unit_cmp", "value_dict_cmp", {}, "", ["-DUNIT_MISC", "-DMEMCMP_STUB", "-DFL=%d" % f], nocover=[]) for f in range(4)]
VD_INIT = [vdu("init", "unit_init", "value_init_dict value_init_dict_ex value_dict_flags value_dict_size", {}, "", ["-DUNIT_MISC", "-DMEMCMP_STUB", "-DEXACT_MEM"])] + [vdu("size%d" % f, "unit_size", "value_dict_size value_dict_flags", {}, "", ["-DUNIT_MISC", "-DMEMCMP_STUB", "-DFL=%d" % f]) for f in range(4)]
VD_WRAP = [vdu("wrappers", "unit_wrap", "value_dict_get value_dict_add value_dict_get_or_add value_dict_remove", {}, "value_dict_get_ value_dict_get_or_add_ value_dict_add_ value_dict_remove_", ["-DUNIT_WRAP"]),
           vdu("add", "unit_add_", "value_dict_add_", {}, "value_dict_get_ value_dict_get_or_add_", ["-DUNIT_WRAP"])]
VIT = "value_dict_leftmost_path "
VD_ENUM = [vdu("keys_sorted%d" % f, "unit_keys_sorted", "value_dict_keys_sorted", VDL("value_dict_keys_sorted"), VIT, ["-DUNIT_ITER", "-DUNIT_KEYS", "-DFL=%d" % f]) for f in (0, 1)] + \
          [vdu("keys_ordered%d" % f, "unit_keys_ordered", "value_dict_keys_ordered", VDL("value_dict_keys_ordered"), VIT, ["-DUNIT_ITER", "-DUNIT_KEYS", "-DFL=%d" % f], nocover=[] if f & 1 else ["back edge", "all", "some", "empty", "place j", "stopped"]) for f in range(4)] + \
          [vdu("walk_sorted%d" % f, "unit_walk_sorted", "value_dict_walk_sorted", VDL("value_dict_walk_sorted"), VIT, ["-DUNIT_ITER", "-DUNIT_WALK", "-DFL=%d" % f]) for f in (0, 1)] + \
          [vdu("walk_ordered%d" % f, "unit_walk_ordered", "value_dict_walk_ordered", VDL("value_dict_walk_ordered"), VIT, ["-DUNIT_ITER", "-DUNIT_WALK", "-DFL=%d" % f], nocover=[] if f & 1 else ["back edge", "all", "some", "empty", "place j", "stopped"]) for f in range(4)] + \
          [vdu("keys_nodict", "unit_keys_nodict", "value_dict_keys_sorted value_dict_keys_ordered", {**VDL("value_dict_keys_sorted"), **VDL("value_dict_keys_ordered")}, VIT, ["-DUNIT_ITER", "-DUNIT_KEYS"], nocover=["back edge"]), vdu("walk_nodict", "unit_walk_nodict", "value_dict_walk_sorted value_dict_walk_ordered", {**VDL("value_dict_walk_sorted"), **VDL("value_dict_walk_ordered")}, VIT, ["-DUNIT_ITER", "-DUNIT_WALK"], nocover=["back edge"])]
VD_CLEAN = [vdu("clean%d" % f, "unit_clean", "value_dict_clean", VDL("value_dict_clean"), VIT + "value_fini", ["-DUNIT_ITER", "-DUNIT_CLEAN", "-DNODE_FREE", "-DEXACT_MEM", "-DFL=%d" % f]) for f in range(4)]
VD_FINI = vdu("fini", "unit_fini", "value_fini", {}, "value_array_clean value_dict_clean", ["-DUNIT_FINI", "-DNODE_FREE"])
VD_S = vsearch("dict", "longkeys")
PROPS["C23"] = dict(technique=T_CUT, note=N_VD, search=VD_S, trusted=CBMC_BASE, units=[RB_LEAN, VD_MOST] + VD_GET + VD_ADD + VD_REM + VD_CMP + VD_INIT + VD_WRAP + VD_CLEAN + VDFIX)
PROPS["C24"] = dict(technique=T_CUT, note=N_VD, search=VD_S, trusted=CBMC_BASE, units=[RB_LEAN, VD_MOST] + VD_ENUM + VD_ADD + VD_REM + VD_CMP + VD_INIT + VD_CLEAN)
PROPS["C25"] = dict(technique=T_CUT, note=N_VD, search=VD_S, trusted=CBMC_BASE, units=[RB_LEAN, VD_MOST] + VD_ADD + VD_REM + VD_ENUM + VD_CLEAN + VDFIX)
PROPS["C27"] = dict(technique=T_CUT, note=N_VD, search=vsearch("array", "dict", "string"), trusted=CBMC_BASE, units=[VD_FINI, VD_MOST] + VD_CLEAN + VD_ADD + VD_REM + VD_INIT + VAR + VST)

# ---- hash table ----
N_HT = ("Contracts of the real functions over tables of any size and chains of any length: loops by invariant and measure (chain places, slots and planes are arbitrary witnesses), each operation against the contracts of its callees. "
        "Facts about remainders are proved in Lean (lean/HT.lean). That agreement at every place of every chain means the stored set is as described is the standard induction, not machine-checked. Trusts CBMC, the libc model and the LP64 layout.")
def htu(name, entry, fns, loops, ren, defs=(), mod=False, **k):
    k.setdefault("unwind", 12)
    return CbmcUnit("htable/" + name, "htable.c", entry, fns.split(), list(defs), cut=("data/htable.c", loops, ren.split(), [("%",)] if mod else []), **k)
HT_LEAN = LeanUnit("htable/remainders", "HT.lean")
HT_LOOK = htu("lookup_internal", "unit_lookup_internal", "htable_lookup_internal", {"htable_lookup_internal": ([0, 1], 2, "linkedv")}, "", ["-DUNIT_LOOKUP"], mod=True)
HT_FINI = htu("fini", "unit_fini", "htable_fini htable_init htable_is_empty", {"htable_fini": ([0, 1, 2], 3, "linkedv")}, "htable_free_all_planes", ["-DUNIT_FINI"])
HT_ALL = htu("free_all_planes", "unit_all", "htable_free_all_planes", {"htable_free_all_planes": ([0], 1, "linkedv")}, "", ["-DUNIT_ALL", "-DNODE_FREE"])
HT_SHRINK = htu("shrink", "unit_shrink", "htable_shrink", {"htable_shrink": ([0, 1], 2, "linkedv")}, "htable_free_all_planes", ["-DUNIT_SHRINK", "-DNODE_FREE"])
HT_GROW = htu("grow", "unit_grow", "htable_grow", {}, "", ["-DUNIT_GROW"])
HT_INS = htu("insert_internal", "unit_insert", "htable_insert_internal htable_is_empty", {}, "htable_lookup_internal htable_grow", ["-DUNIT_OPS"], mod=True)
HT_REM = htu("remove", "unit_remove", "htable_remove htable_is_empty", {}, "htable_lookup_internal htable_shrink", ["-DUNIT_OPS"])
HT_WRAP = htu("wrappers", "unit_wrappers", "htable_lookup htable_insert htable_insert_unsafe", {}, "htable_lookup_internal htable_insert_internal", ["-DUNIT_OPS"])
HT_S = [Search("htable.c", optional=["-DWHITE"])]
PROPS["C13"] = dict(technique=T_CUT, note=N_HT, search=HT_S, trusted=CBMC_BASE, units=[HT_LEAN, HT_LOOK, HT_GROW, HT_SHRINK, HT_ALL, HT_INS, HT_REM, HT_WRAP, HT_FINI])
PROPS["C14"] = dict(technique=T_CUT, note=N_HT, search=HT_S, trusted=CBMC_BASE, units=[HT_LEAN, HT_GROW, HT_SHRINK, HT_ALL, HT_FINI, HT_INS, HT_REM])

# ---- paths ----
N_VP = ("Contract of value_path/value_build_path for paths of any length: all four loops by invariant and measure, one arbitrary component against the contracts of the value getters and creators it calls (proved for C20, C22 and C23), index values as exact integers. "
        "Trusts CBMC and the LP64 layout.")
VP = CbmcUnit("value_path/path", "value_path.c", "unit_path", ["value_path_ex", "value_path", "value_build_path"], unwind=3,
              cut=("data/value.c", {"value_path_ex": ([0, 1, 2, 3], 4, "linkedv")}, "value_is_new value_init_array value_init_dict value_array_size value_array_get value_array_append value_dict_get_ value_dict_get_or_add_".split()),
              fallback=dict(defs=["-DBOUND=4"], unwind=7, bound="paths of at most 4 bytes"))
PROPS["C26"] = dict(technique=T_CUT, note=N_VP, search=vsearch("path", "index"), trusted=CBMC_BASE, units=[VP])

# ---- command line ----
N_CL = ("Contracts of the real functions for option tables, argument lists and strings of any size: all five loops by invariant and measure, one arbitrary token (character of a group) and one arbitrary option against the documented events; the string functions of libc by contract. "
        "Strings shorter than 2^31 bytes. Trusts CBMC, the model of six libc string functions and the LP64 layout.")
def clu(name, entry, fns, loops, ren, defs):
    return CbmcUnit("cmdline/" + name, "cmdline.c", entry, fns.split(), defs, unwind=7, cut=("misc/cmdline.c", loops, ren.split()))
CL_READ = clu("read", "unit_read", "cmdline_read", {"cmdline_read": ([0, 1, 2], 3, "linkedv")}, "cmdline_handle_short_opt_group", ["-DUNIT_READ"])
CL_GROUP = clu("group", "unit_group", "cmdline_handle_short_opt_group", {"cmdline_handle_short_opt_group": ([0, 1], 2, "linkedv")}, "", ["-DUNIT_GROUP"])
PROPS["C30"] = dict(technique=T_CUT, note=N_CL, search=[Search("cmdline.c")], trusted=CBMC_BASE + ["the model of strlen, strcmp, strncmp, strchr, strncpy and snprintf in cbmc/cmdline.c"], units=[CL_READ, CL_GROUP])
