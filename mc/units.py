"""Which programs decide which property."""
import itertools
import os
from . import reject
HERE = os.path.dirname(os.path.abspath(__file__))

ASAN = ["-O0", "-g0", "-fsanitize=address,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ASUB = ["-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
PLAIN = ["-O0", "-g0"]


class Unit:
    def __init__(self, name, source, args=(), cxx="g++", std="c++11", flags=ASAN, libs=(), timeout=240):
        self.name, self.source, self.args, self.cxx, self.std = name, source, list(args), cxx, std
        self.flags, self.libs, self.timeout = list(flags), list(libs), timeout
        self.cases, self.program, self.accept = (), None, True      # units that are judged by the compiler's verdict


class Prop:
    def __init__(self, units, mine=lambda v: True, bounds=None, rule="", assumptions=(), post=None, technique="", note=""):
        self.units, self.mine, self._bounds, self.rule, self.assumptions, self.post = units, mine, bounds, rule, list(assumptions), post
        self.technique, self.note = technique, note

    def bounds(self, tier):
        return self._bounds(tier) if callable(self._bounds) else (self._bounds or "")


# ---- histories on two variants ------------------------------------------------------------------------
# name -> bounded types; the letters of a type say copy/move: T throws, N nothrow; prefix D/X nothrow/throwing default
HIST = {
    "TT_TT": ["TT<0>", "TT<1>"],
    "TT_NT": ["TT<0>", "NT<1>"],
    "NT_TT_NN": ["NT<0>", "TT<1>", "NN<2>"],
    "TT_TN": ["TT<0>", "TN<1>"],
    "NT_TN": ["NT<0>", "TN<1>"],
    "TN_NN": ["TN<0>", "NN<1>"],
    "TNa_TT": ["TNa<0>", "TT<1>"],
    "XTT_TT": ["XTT<0>", "TT<1>"],
    "XNT_XTN": ["XNT<0>", "XTN<1>"],
    "CO_TT": ["CO<0>", "TT<1>"],
    "CO_TN": ["CO<0>", "TN<1>"],
    "TM_TT": ["TM<0>", "TT<1>"],
    "AMP_TT": ["AMP<0>", "TT<1>"],
    "NT_AMP_AMP": ["NT<0>", "AMP<1>", "AMP<2>"],
    "AMP_RW": ["AMP<0>", "boost::recursive_wrapper<AMP<1> >"],
    "SM_SM": ["SM<0>", "SM<1>"],
    "SM_NT_TT": ["SM<0>", "NT<1>", "TT<2>"],
    "AS_TT": ["AS<0>", "TT<1>"],
    "RWAS_AS_blank": ["boost::recursive_wrapper<AS<0> >", "AS<1>", "boost::blank"],
    "TNa_NN": ["TNa<0>", "NN<1>"],
    "NNa_DNN": ["NNa<0>", "DNN<1>"],
    "SW_TT": ["SW<0>", "TT<1>"],
    "BIG_TT": ["BIG<0>", "TT<1>"],
    "HOLD_TT": ["HOLD<0,TT<1> >", "TT<1>"],
    "HOLD_TN_blank": ["HOLD<0,TN<1> >", "TN<1>", "boost::blank"],
    "NN_HOLD": ["NN<1>", "HOLD<0,NN<1> >"],
    "HOLD_NT": ["HOLD<0,NT<1> >", "NT<1>"],
    "TN_RWHOLD": ["TN<1>", "boost::recursive_wrapper<HOLD<0,TN<1> > >"],
    "TT_blank": ["TT<0>", "boost::blank"],
    "TT_int": ["TT<0>", "int"],
    "int_TT_blank": ["int", "TT<1>", "boost::blank"],
    "DTT_TT": ["DTT<0>", "TT<1>"],
    "TT_DNN": ["TT<0>", "DNN<1>"],
    "DNT_TN": ["DNT<0>", "TN<1>"],
    "XTT_DTN": ["XTT<0>", "DTN<1>"],
    "MO_MOT_blank": ["MO<0>", "MOT<1>", "boost::blank"],
    "MO_MO": ["MO<0>", "MO<1>"],
    "RW_TT": ["boost::recursive_wrapper<TT<0> >", "TT<1>"],
    "TN_RW": ["TN<0>", "boost::recursive_wrapper<NN<1> >"],
    "RWint_TT": ["boost::recursive_wrapper<int>", "TT<1>"],
    "RW_int": ["boost::recursive_wrapper<TT<0> >", "int"],
    "TT": ["TT<0>"],
    "NNa_DNN_TT": ["NNa<0>", "DNN<1>", "TT<2>"],
    "TT_TT_TT": ["TT<0>", "TT<1>", "TT<2>"],
    "TT_NT_over": ["TT<0>", "NT<1>"],
    "GR_TT": ["GR<0>", "TT<1>"],
    "TN_GR_blank": ["TN<0>", "GR<1>", "boost::blank"],
    "TA_TT": ["TA<0>", "TT<1>"],
    "TD_TT": ["TD<0>", "TT<1>"],
    "EM_TT": ["EM<0>", "TT<1>"],
    "TR_EM_TD": ["TR<0>", "EM<1>", "TD<2>"],
    "CO_CO_blank": ["CO<0>", "CO<1>", "boost::blank"],
}
# more type lists for the thorough tier: every pair of kinds, alone and with a fallback
KINDS = ["TT", "NT", "TN", "NN", "TNa", "DTT", "DTN", "DNN", "DNT", "XTT", "XTN", "XNT", "NNa", "CO", "SW", "BIG", "TM", "AMP", "SM", "AS", "GR", "TA", "TD", "EM", "TR"]
HIST_ALL = dict(HIST)
for _a in KINDS:
    for _b in KINDS:
        HIST_ALL.setdefault("%s_%s_t" % (_a, _b), ["%s<0>" % _a, "%s<1>" % _b])
for _a in KINDS:
    HIST_ALL.setdefault("%s_RW_t" % _a, ["%s<0>" % _a, "boost::recursive_wrapper<TT<1> >"])
    HIST_ALL.setdefault("%s_TT_NT_t" % _a, ["%s<0>" % _a, "TT<1>", "NT<2>"])
    HIST_ALL.setdefault("%s_MO_blank_t" % _a, ["%s<0>" % _a, "MO<1>", "boost::blank"])


def hist_source(names, defs=""):
    s = defs + '#define MC_MAIN\n#include "hist.hpp"\nusing namespace mc;\nint main(int argc, char** argv) {\n'
    for n in names:
        ts = HIST_ALL[n]
        l = ", ".join(ts)
        v = "boost::make_variant_over<boost::mpl::list<%s > >::type" % l if n.endswith("_over") else "boost::variant<%s >" % l
        s += '    { typedef %s V; run_hist<Hist<V, %s > >("%s", argc, argv); }\n' % (v, l, n)
    return s + "    return 0;\n}\n"


def hist_units(tier, names=None, **kw):
    us = []
    for n in names or (HIST if tier == "quick" else HIST_ALL):
        args = kw.get("qargs", []) if tier == "quick" else ["--both", "--blind", "2"]
        us.append(Unit("hist_" + n, hist_source([n], kw.get("defs", "")), args=args, flags=kw.get("flags", ASAN if tier == "quick" else ASUB),
                       std=kw.get("std", "c++11"), cxx=kw.get("cxx", "g++"), timeout=240 if tier == "quick" else 1800))
    return us


HIST_RULE = ("breadth-first search over the real objects: a state is two live variants (alternative, value, in place or on the heap, allocations held), "
             "a transition is one public operation under one fault plan; every reachable state is expanded with every operation without fault, with every single fault and with every pair of faults")


def hist_bounds(tier):
    return ("2 variants, values {1,2,default,moved-from}, all operations, at most 2 faults per operation, all reachable states (fixpoint), %d type lists%s"
            % (len(HIST) if tier == "quick" else len(HIST_ALL), "" if tier == "quick" else "; plus every history of 2 operations without merging states"))


HIST_TECH = "explicit-state exploration of operation histories with exhaustive fault injection on the real code, against a pre/post reference model"
HIST_NOTE = ("Exhaustive within the bounds: all reachable states of two variants under all operations and up to two faults per operation, for each listed type list. "
             "Every transition is an execution of the real code. Trusts the instrumented content types, the state key, the compiler and ASan.")
HIST_ASSUME = ["content types' own operations throw only at the instrumented points and have the basic guarantee", "destructors do not throw", "single thread"]


def hist_prop(mine, names=None, **kw):
    return Prop(lambda tier: hist_units(tier, names, **kw), mine, hist_bounds, HIST_RULE, HIST_ASSUME, technique=HIST_TECH, note=HIST_NOTE)


def is_swap(v):
    return "swap" in v["op"]


def is_move(v):
    return v["op"].startswith(("move-", "assign-rvalue", "construct-rvalue", "assign-own-member-rvalue", "static", "member-swap", "free-swap"))


def cat(*cs):
    return lambda v: v["violation"] in cs or v["violation"] == "COMPILE"


def files(name, path, parts=(0,), stds=("c++11", "c++17"), **kw):
    """One unit per part and language level of mc/<path>."""
    defs = kw.pop("defs", "")
    return [Unit("%s_p%s_%s" % (name, p, s.replace("+", "x")), "%s#define MC_PART %s\n#include \"%s\"\n" % (defs, p, path), std=s, **kw) for p in parts for s in stds]


def matrix_prop(mk, what, bounds, assume=(), **kw):
    return Prop(mk, lambda v: True, bounds, kw.pop("rule", MATRIX_RULE), list(assume), technique=kw.pop("technique", MATRIX_TECH) + ": " + what,
                note=kw.pop("note", MATRIX_NOTE), **kw)


MATRIX_RULE = "every element of a finite product of prepared states and calls is executed on the real code; states are prepared variants (alternative x storage state), transitions are calls, each compared with an independently computed expectation"
MATRIX_TECH = "explicit-state enumeration of prepared states x calls on the real code"
MATRIX_NOTE = "Exhaustive over the listed product, which is a bounded part of all programs. Every case is an execution of the real code; trusts the instrumented types, the harness' expectation, the compiler and ASan."
ALLSTD = ("c++11", "c++14", "c++17", "c++20")

NOT_CLAIMED = {}


def properties():
    P = {}
    P["C01"] = hist_prop(cat("EMPTY", "CRASH"))
    P["C02"] = hist_prop(cat("LIFE", "CRASH"))
    P["C03"] = hist_prop(lambda v: v["violation"] == "VALUE" or (v["violation"] in ("CRASH", "EMPTY") and v["fired"] == 0) or v["violation"] == "COMPILE")
    P["C04"] = hist_prop(lambda v: v["violation"] in ("FAIL", "COMPILE") or (v["violation"] in ("CRASH", "VALUE", "EMPTY") and v["fired"] > 0))
    def fallback_units(t):
        def ty(k, i):
            return {"B": "boost::blank", "I": "int", "R": "boost::recursive_wrapper<E<%d> >" % i, "Q": "boost::recursive_wrapper<D<%d> >" % i}.get(k, "%s<%d>" % (k, i))
        words = ["".join(w) for w in itertools.product("EDFMIBRQ", repeat=2)] + ["".join(w) for w in itertools.product("EDB", repeat=4)]
        words += ["E" * 6] + ["E" * p + c + "E" * (5 - p) for c in "DB" for p in range(6)] + ["".join("D" if i == p else "B" if i == q else "E" for i in range(6)) for p in range(6) for q in range(6) if p != q]
        if t != "quick":
            words += ["".join(w) for w in itertools.product("EDFMIBRQ", repeat=3)] + ["".join(w) for w in itertools.product("EDMB", repeat=5)]
        words = [w for w in dict.fromkeys(words) if w.count("B") < 2 and w.count("I") < 2]
        n = 10
        return [Unit("fallback_%d" % (i // n), "#define MC_LISTS %s\n#include \"fallback.cpp\"\n" % " ".join('RUN("%s", %s)' % (w, ", ".join(ty(k, j) for j, k in enumerate(w))) for w in words[i:i + n]),
                     std=ALLSTD[i // n % 4] if t != "quick" else ("c++11", "c++17")[i // n % 2], flags=PLAIN if t == "quick" else ASUB, timeout=600) for i in range(0, len(words), n)]
    P["C04"].units = lambda t: hist_units(t) + fallback_units(t)
    c04 = P["C04"].mine
    P["C04"].mine = lambda v: c04(v) or v["unit"].startswith("fallback")
    P["C04"]._bounds = lambda t: hist_bounds(t) + "; %s over 8 kinds of type, failing assignment of every alternative over every other in 4 ways at every point, twice" % ("all lists of 2 types, all of 4 over 3 kinds, all of 6 with up to two nothrow default-constructible types" if t == "quick" else "all lists of 2 and 3 types, all of 4 and 5 over 3 and 4 kinds, all of 6 with up to two nothrow default-constructible types")
    P["C05"] = hist_prop(lambda v: v["violation"] in ("SWAP", "COMPILE") or is_swap(v))
    P["C06"] = hist_prop(lambda v: v["violation"] in ("MOVE", "COMPILE") or (is_move(v) and v["violation"] in ("CRASH", "VALUE", "EMPTY")))
    def place_units(t):
        us = files("place", "place.cpp", range(8), ("c++17",)) + hist_units(t)
        if t != "quick":
            us += files("place_clang", "place.cpp", range(8), ("c++11", "c++20"), cxx="clang++", flags=ASUB)
            for k in range(8):
                us += files("place3_%d" % k, "place.cpp", range(8), ("c++17",), defs="#define MC_SECOND %d\n" % k, timeout=1800)
        return us
    P["C18"] = hist_prop(lambda v: cat("PLACE")(v) or (v["violation"] == "CRASH" and "misaligned" in v["msg"]) or (v["unit"].startswith("place") and v["violation"] in ("VALUE", "CRASH")))
    P["C18"].units = place_units
    P["C18"]._bounds = lambda t: hist_bounds(t) + "; all ordered %s of 8 combinations of size and alignment (1 to 64), throwing or not, with and without a nothrow default-constructible alternative, every alternative reached in every way" % ("pairs" if t == "quick" else "pairs and triples")
    P["C24"] = hist_prop(lambda v: v["violation"] in ("OBS", "COMPILE") or (v["violation"] == "CRASH" and "while the result was observed" in v["msg"]), defs="#define MC_OBS\n")
    P["C07"] = matrix_prop(lambda t: files("visit", "visit.cpp", range(5), ("c++11", "c++17") if t == "quick" else ALLSTD, flags=ASAN if t == "quick" else ASUB) + (
        [] if t == "quick" else files("visit_clang", "visit.cpp", range(5), ALLSTD, cxx="clang++")),
        "alternative x storage state x variant category x visitor form x result type",
        "2 variants of 6 alternatives, 4 storage states, 4 value categories, 9 result types, 12 visitor forms")
    def multi_units(t):
        def forms(name, fs, parts=range(4, 9), stds=("c++17",), **kw):
            d = kw.pop("defs", "")
            return [u for f in fs for u in files("%s_f%d" % (name, f), "multi.cpp", parts, stds, defs=d + "#define MC_FORMS %d\n" % f, **kw)]
        if t == "quick":
            return forms("multi", (0, 1), (8, 7, 6, 5, 4), flags=PLAIN) + forms("multi", (2, 3), (8, 6, 5), flags=PLAIN) + files("multi", "multi.cpp", range(4), ("c++17",), flags=PLAIN) + files("multi", "multi.cpp", (0, 3), ("c++11",), flags=PLAIN) + forms("multi", (1,), (6, 7), ("c++11",), flags=PLAIN)
        kw = dict(defs="#define MC_DEEP\n", timeout=1800)
        return (forms("multi", range(4), stds=ALLSTD, flags=ASUB, **kw) + files("multi", "multi.cpp", range(4), ALLSTD, flags=ASUB, **kw)
                + forms("multi_clang", range(4), stds=("c++11", "c++17"), cxx="clang++", **kw) + files("multi_clang", "multi.cpp", range(4), ("c++11", "c++17"), cxx="clang++", **kw))
    P["C08"] = matrix_prop(multi_units,
        "2 to 5 operands: alternatives x storage states x value categories x visitor forms x result types",
        "2 operands: all 16 category pairs, 3x2 and 3x3 alternatives, in place and kept after failure; 3 operands: 8 (thorough 27) category triples; 4: 16; 5: 5 category tuples; 8 visitor forms; the same variant as 2 or 3 operands")
    def conv_lists():
        ts = ["bool", "char", "short", "int", "unsigned", "long long", "double", "Enum", "std::string", "const char*", "void*", "BaseC", "DerivedC", "FromInt", "FromStr"]
        ls = ["RUN(%s, %s)" % (a, b) for a in ts for b in ts if a != b]
        return [Unit("convlists%d" % i, "#define MC_PART 99\n#define MC_LISTS %s\n#include \"conv.cpp\"\n" % " ".join(ls[i:i + 3]), std=("c++11", "c++17")[i // 3 % 2], flags=PLAIN, timeout=600) for i in range(0, len(ls), 3)]
    def two_std(name, path, parts, tier, q=("c++11", "c++17"), **kw):
        if tier == "quick":
            return files(name, path, parts, q, flags=kw.get("qflags", ASAN))
        return files(name, path, parts, ALLSTD, flags=kw.get("tflags", ASUB), defs="#define MC_DEEP\n", timeout=1800) + files(name + "_clang", path, parts, ("c++11", "c++17"), cxx="clang++", flags=kw.get("cflags", ASAN), defs="#define MC_DEEP\n", timeout=1800)
    def relaxed(name, parts):
        return files(name + "_relaxed", "get.cpp", parts, ("c++14",), flags=PLAIN, defs="#define BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT\n")
    P["C09"] = matrix_prop(lambda t: two_std("get", "get.cpp", (0, 1, 2), t) + relaxed("get", (0, 1, 2)), "alternative x storage state x requested type x get form",
        "4 variants (up to 12 alternatives, with bases, convertible types, overloaded address operator, recursive content), 4 storage states, all bounded and 2 to 6 unbounded requested types, const and not, 5 forms, 3 functions")
    P["C10"] = matrix_prop(lambda t: two_std("pget", "get.cpp", (3, 4), t) + relaxed("pget", (3, 4)), "alternative x storage state x requested base x form",
        "4 variants over a hierarchy with single, multiple, virtual, empty, two-level bases and recursive_wrapper; all bases and unrelated types; 4 forms, 3 functions",
        assume=["requested bases are accessible and unambiguous (anything else does not compile)"])
    P["C11"] = matrix_prop(lambda t: two_std("compare", "compare.cpp", (0, 1), t), "all relation tables of the contents x alternatives x values x storage states x operators",
        "content relations == and <: all 256 pairs on 2 values, and 512 (thorough: all 262144 pairs) on 3 values, symmetric or not; 4 variant types, nested variants, built-in types with NaN; throwing operators")
    P["C12"] = matrix_prop(lambda t: two_std("hash", "compare.cpp", (2,), t, ("c++11", "c++17", "c++20")), "alternative x value x storage state x content hash",
        "3 variant types with 2 to 3 alternatives, 4 storage states, 6 content hashes, 20 alternatives x 13 content hashes pairwise, and 25 values of a recursive variant pairwise")
    P["C21"] = matrix_prop(lambda t: two_std("stream", "compare.cpp", (3, 4), t), "alternative x value x storage state x stream state x character type",
        "11 content types, nested variants, 64 stream states (flags, width, fill, precision, failed), exceptions on and off, throwing insertion, char and wchar_t")
    P["C13"] = matrix_prop(lambda t: files("conv", "conv.cpp", range(9), ("c++17",), flags=PLAIN) + files("conv", "conv.cpp", (0, 2), ("c++11",), flags=PLAIN) if t == "quick" else two_std("conv", "conv.cpp", range(9), t, tflags=PLAIN, cflags=PLAIN) + conv_lists(),
        "list of bounded types x argument type x argument category x construction or assignment over each alternative, against a plain overload set",
        lambda t: ("17 lists" if t == "quick" else "17 lists and all 210 ordered pairs of 15 types") + " of bounded types, 44 argument types and literals, const lvalue, lvalue and rvalue, construction and assignment over every alternative")
    P["C14"] = matrix_prop(lambda t: two_std("conv2", "conv2.cpp", range(6), t),
        "source alternative and storage x target alternative and storage x operation x every single fault and pair of faults",
        "11 pairs of variant types, all alternatives and storage states of both, 3 constructions and 3 assignments, every single fault and pair of faults at content operations, conversions and allocations",
        assume=HIST_ASSUME)
    P["C22"] = matrix_prop(lambda t: two_std("ref", "ref.cpp", range(2), t), "list of reference and value alternatives x alternative x way of making the variant x way of reaching the object",
        "6 lists with 1 to 4 alternatives (references, const references, values), 6 ways of making the variant, 14 ways of reaching the object, 5 kinds of write, conversions to value, base and const reference, 24 pairs of source and target lists x 4 source categories", assume=["rvalue visitation of reference alternatives is not judged"])
    P["C23"] = matrix_prop(lambda t: two_std("vptr", "vptr.cpp", range(4), t, qflags=PLAIN) + (files("vptr", "vptr.cpp", (4,), ("c++17",), flags=PLAIN) if t == "quick" else files("vptr", "vptr.cpp", (4,), ALLSTD[1:], flags=ASUB) + files("vptr_clang", "vptr.cpp", (4,), ALLSTD[1:], cxx="clang++")), "alternative x storage state x category x function form x result, and delayed against direct application",
        "visitor_ptr: 2 variants of 3 and 7 alternatives, 9 parameter types x 3 forms, 5 result types, 4 categories, 3 ways of applying, throwing or not; delayed: 1 to 3 operands, all alternatives and storage states, 4 result types, const and mutable visitors with and without result_type, sequences of up to 4 variants")
    P["C25"] = matrix_prop(lambda t: two_std("rw", "rw.cpp", range(3), t), "all reachable value pairs of two wrappers x operations x fault plans",
        "18 content types, 2 wrappers, values {1,2,default,moved-from}, all operations, every single fault and pair of faults, with and without allocation failures, all reachable states", assume=HIST_ASSUME,
        technique="explicit-state exploration of operation histories with exhaustive fault injection on the real code", rule="breadth-first search over pairs of real wrappers; every state is expanded with every operation under every fault plan")
    P["C26"] = matrix_prop(lambda t: two_std("const", "constc.cpp", range(4), t), "list of const and other alternatives x alternative x way of making the variant x fault x way of reading it",
        "8 lists of 2 or 3 alternatives of which 1 to 3 are const, all alternatives, 2 values, 9 ways of making the variant, every single fault, 25 ways of reading it, all ordered pairs of alternatives and values compared", assume=HIST_ASSUME)
    def tree_units(t):
        us = []
        for p in range(6):
            if t == "quick":
                us += files("tree", "tree.cpp", (p,), ("c++11",), defs="#define MC_NODES1 %d\n#define MC_NODES2 %d\n" % (4 if p < 3 else 3, 3 if p < 4 else 2))
            else:
                us += files("tree", "tree.cpp", (p,), ("c++11", "c++17"), defs="#define MC_NODES1 %d\n#define MC_NODES2 3\n#define MC_AFTER_SUCCESS\n" % (5 if p < 3 else 4), flags=["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], timeout=3000)
                us += files("tree2", "tree.cpp", (p,), ("c++11",), defs="#define MC_NODES1 1\n#define MC_NODES2 %d\n#define MC_SECOND_FAULT\n" % (3 if p < 4 else 2), flags=["-O1", "-g0", "-fsanitize=address"], cxx="clang++", timeout=3000)
        return us
    P["C15"] = matrix_prop(tree_units, "all pairs of trees up to a node bound x every operation x every single fault, then every operation again",
        lambda t: "6 recursive types (recursive_wrapper, make_recursive_variant, make_recursive_variant_over; one-, two- and many-child nodes; throwing and nothrow leaves; with and without boost::blank), 2 leaf values, all pairs of trees of up to %s nodes x 18 operations x every single fault; every operation after every failed one for trees of up to 3 nodes%s; chains of 300 nodes; two mutually recursive variants" % (("3 or 4", "") if t == "quick" else ("4 or 5", ", also after every successful one, and with a second fault")),
        assume=HIST_ASSUME + ["a child is copied out before it is assigned over the tree that contains it"],
        technique="explicit-state exploration of pairs of trees and two-step operation histories with exhaustive fault injection on the real code, against reference trees")
    def subst_units(t):
        d = "#define MC_PARTS %d\n#define MC_D2\n" % (8 if t == "quick" else 12)
        if t == "quick":
            return files("subst", "subst.cpp", range(8), ("c++11",), flags=PLAIN, defs=d + "#define MC_OVER 1\n") + files("subst", "subst.cpp", (0,), ("c++17",), flags=PLAIN, defs="#define MC_PARTS 1\n", cxx="clang++")
        d += "#define MC_D2B\n#define MC_OVER 1\n"
        return [u for c in ("g++", "clang++") for u in files("subst_" + c[:1], "subst.cpp", range(12), ALLSTD, flags=PLAIN, defs=d, cxx=c, timeout=1800)]
    P["C16"] = matrix_prop(subst_units, "every type term up to a depth, as first and as later alternative, given as arguments or as a sequence, against an independent substitution",
        lambda t: "all terms of depth %s over pointer, reference, cv, function pointer and 1- and 2-argument and variadic templates on {placeholder, const placeholder, int, class pointer}; 20 variants over library templates used at run time; inner variants, recursive or not" % ("1, and of depth 2 with a one-argument constructor outside," if t == "quick" else "1 and 2"),
        assume=["rvalue references, array and plain function types, and templates with non-type parameters are not in the documented forms"], technique="explicit-state enumeration of type terms, each decided by compiling and running the real code")
    # C20: the same programs under every configuration; outcome sets and violations must not differ
    R = "-DBOOST_VARIANT_"
    CONFIGS = {"base": ("g++", "c++11", []), "cxx17": ("g++", "c++17", []), "clang11": ("clang++", "c++11", []), "ndebug": ("clang++", "c++14", ["-DNDEBUG", "-O1"]), "clang20": ("clang++", "c++20", []),
               "minimize": ("clang++", "c++17", [R + "MINIMIZE_SIZE"]), "unroll1": ("clang++", "c++17", [R + "VISITATION_UNROLLING_LIMIT=1"]), "nortti": ("clang++", "c++17", ["-fno-rtti"]),
               "relaxed": ("clang++", "c++14", [R + "USE_RELAXED_GET_BY_DEFAULT", R + "DO_NOT_SPECIALIZE_STD_HASH"]), "minirtti": ("g++", "c++11", [R + "MINIMIZE_SIZE", "-fno-rtti", "-DNDEBUG", "-funsigned-char"])}
    DEEPC = dict(CONFIGS, **{"g14": ("g++", "c++14", []), "g20": ("g++", "c++20", []), "g23": ("g++", "c++23", []), "unroll2": ("g++", "c++14", [R + "VISITATION_UNROLLING_LIMIT=2"]), "unroll3": ("g++", "c++20", [R + "VISITATION_UNROLLING_LIMIT=3"]),
               "unroll40": ("clang++", "c++20", [R + "VISITATION_UNROLLING_LIMIT=40"]), "O2": ("g++", "c++17", ["-O2", "-DNDEBUG"]), "cO2": ("clang++", "c++17", ["-O2"]), "O3": ("g++", "c++20", ["-O3", "-fstrict-aliasing"]),
               "allmin": ("clang++", "c++20", [R + "MINIMIZE_SIZE", R + "VISITATION_UNROLLING_LIMIT=1", "-fno-rtti", "-DNDEBUG", "-O2"]), "glibcxx": ("g++", "c++17", ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG"])})
    NOEXC = {"base": ("g++", "c++11", []), "noexc": ("clang++", "c++17", ["-fno-exceptions"]), "bare": ("g++", "c++14", ["-fno-exceptions", "-fno-rtti", R + "MINIMIZE_SIZE"]), "cnoexc20": ("clang++", "c++20", ["-fno-exceptions", "-DNDEBUG"])}
    def cfg_units(t):
        us = []
        def add(group, cfgs, source, args=(), timeout=600):
            for c, (cxx, std, fl) in cfgs.items():
                u = Unit("%s__%s" % (group, c), source, args=args, cxx=cxx, std=std, flags=["-O0", "-g0"] + fl, timeout=timeout)
                us.append(u)
        big = {k: (c, st, fl + ["-ftemplate-depth=2000"]) for k, (c, st, fl) in {"c": ("clang++", "c++17", []), "cmin": ("clang++", "c++17", [R + "MINIMIZE_SIZE"])}.items()}
        names = ["TT_NT", "HOLD_TN_blank", "RW_TT", "CO_TT", "DTT_TT"]
        if t == "quick":
            add("cfg130", big, '#define MC_BIG 130\n#define MC_BIG_ONE\n#include "cfg.cpp"\n')
            add("hist", CONFIGS, hist_source(names), ["--faults", "1"])
            add("hist0", NOEXC, hist_source(names[:3]), ["--faults", "0"])
            add("cfg", dict(CONFIGS, **{k: v for k, v in NOEXC.items() if k != "base"}), '#include "cfg.cpp"\n')
            return us
        for n in HIST:
            add("hist_" + n, DEEPC, hist_source([n]), ["--faults", "2"], 1800)
            add("hist0_" + n, NOEXC, hist_source([n]), ["--faults", "0"])
        add("cfg", dict(DEEPC, **{k: v for k, v in NOEXC.items() if k != "base"}), '#include "cfg.cpp"\n')
        for n in (126, 127, 128, 130):
            add("cfg%d" % n, big, '#define MC_BIG %d\n#include "cfg.cpp"\n' % n, timeout=1800)
        at17 = {k: (c, "c++17", f) for k, (c, s_, f) in DEEPC.items()}
        for h, ps in (("get", 5), ("compare", 5), ("visit", 5), ("conv2", 6), ("vptr", 4), ("ref", 2), ("rw", 2)):
            for p in range(ps):
                add("%s%d" % (h, p), at17, '#define MC_PART %d\n#include "%s.cpp"\n' % (p, h), timeout=1800)
        return us
    def cfg_post(results, dump):
        groups, viols = {}, []
        for r in results:
            if r["stats"]:
                groups.setdefault(r["unit"].name.split("__")[0], []).append(r)
        for g, rs in sorted(groups.items()):
            def sig(r):
                return sorted((s["stats"], s.get("digest"), s.get("complete")) for s in r["stats"]), sorted({(v["violation"], v["op"]) for v in r["viol"]})
            sigs = [sig(r) for r in rs]
            if all(s == sigs[0] for s in sigs):
                continue
            # the odd one out against the most common signature
            best = max(range(len(rs)), key=lambda i: (sum(s == sigs[i] for s in sigs), rs[i]["unit"].name.endswith("__base")))
            for i, r in enumerate(rs):
                if sigs[i] != sigs[best] and len(viols) < 6:
                    a, b = dump(rs[best]), dump(r)
                    d = ["only with %s: %s" % (rs[best]["unit"].name.split("__")[1], x) for x in sorted(a - b)[:2]] + ["only with %s: %s" % (r["unit"].name.split("__")[1], x) for x in sorted(b - a)[:2]]
                    d += ["%s %s" % (v["op"], v["msg"][:200]) for v in r["viol"][:1]]
                    viols.append({"violation": "CONFIG", "unit": r["unit"].name, "against": rs[best]["unit"].name, "op": "compare configurations", "fired": 0, "trace": "", "msg": "the outcomes depend on the configuration; " + "; ".join(d)})
        return viols
    P["C20"] = Prop(cfg_units, lambda v: v["violation"] == "COMPILE", lambda t: ("10 configurations (2 compilers, C++11 to C++20, NDEBUG, size minimisation, unrolling limit, no RTTI, relaxed get, optimisation) and 3 without exceptions; history exploration of 5 type lists with single faults and a program over all alternatives, pairs and triples" if t == "quick" else
        "21 configurations and 3 without exceptions; history exploration of all %d type lists with up to two faults, get, compare, visit, conversion, reference, visitor_ptr and wrapper matrices; 126 to 130 alternatives with size minimisation" % len(HIST)),
        "each program explores its whole bounded state space in every configuration; the sets of transitions (state, operation, failed or not, next state) must be equal", ["C++11 to C++20 (gcc also C++23); clang in C++23 mode is left out: the library deliberately has no rvalue assignment there"],
        post=cfg_post, technique="explicit-state exploration of operation histories on the real code under every build configuration, comparing the complete transition sets", note="Exhaustive within the bounds of each program; configurations are single settings and a few combinations, not all combinations.")
    def thread_units(t):
        us, TS = [], ["-O1", "-g0", "-fsanitize=thread"]
        def add(part, slices, bound, cxx="g++", std="c++11"):
            for k in range(slices):
                us.append(Unit("threads_p%d_b%d_%s_%d" % (part, bound, cxx[:1], k), '#define MC_PART %d\n#include "threads.cpp"\n' % part, args=["--slice", str(k), str(slices), str(bound)], cxx=cxx, std=std, flags=TS, timeout=240 if t == "quick" else 3000))
        if t == "quick":
            add(0, 8, 2); add(1, 8, 1); add(2, 4, 1); add(3, 8, 1); add(4, 8, 1, std="c++17")
        else:
            for c, st in (("g++", "c++17"), ("clang++", "c++11")):
                add(0, 16, 3, c, st); add(1, 16, 2, c, st); add(2, 8, 2, c, st); add(3, 32, 2, c, st); add(4, 32, 2, c, st)
        return us
    def reject_units(t):
        us = []
        for cxx, std in ((("g++", "c++11"), ("clang++", "c++17")) if t == "quick" else [("g++", x) for x in ALLSTD] + [("clang++", x) for x in ALLSTD]):
            for n, cs, ok in reject.batches(100):
                u = Unit("%s_%s_%s" % (n, cxx[:1], std.replace("+", "x")), "", cxx=cxx, std=std, flags=["-O0", "-g0"] + (["-ferror-limit=0", "-fno-caret-diagnostics"] if cxx[0] == "c" else ["-fmax-errors=0", "-fno-diagnostics-show-caret"]))
                u.cases, u.program, u.accept = cs, reject.program, ok
                us.append(u)
        return us
    ncases = len(reject.cases())
    P["C27"] = Prop(reject_units, lambda v: True, lambda t: "%d programs: get, strict_get x 8 lists x 13 types x 5 forms; polymorphic_get x 4 lists x 7 types x 4 forms; 6 comparison operators x 6 right operands; visitors with every subset of 4 overloads x 5 ways, of 4 pairs x 2 ways, three operands with one combination missing; parameter x variant category for one and two operands; writing through const; lists of uncopyable or const contents; arguments with none or no best alternative; 25 pairs of lists; %s" % (ncases, "gcc C++11 and clang C++17" if t == "quick" else "gcc and clang, every language level"),
        "each family of programs is a complete product; a rule independent of the library says which ones must compile; they are compiled in batches, and one whose verdict differs is compiled again on its own", ["a compiler error attributed to a program by its line name means it is rejected"],
        technique="exhaustive enumeration of bounded families of programs against the real headers, verdict of the compiler against an independent rule", note="Exhaustive over the listed products. Only whether a program is accepted is judged, not the message.")
    P["C19"] = Prop(thread_units, lambda v: True, lambda t: "all schedules with at most %s preemptions, switching at content operations, visitor calls and allocations: every pair of 18 reading operations on shared variants (5 alternatives, in place and kept after failure), every pair with 10 operations on own variants, three threads, sequences of two operations per thread, and 17 further operations (conversion, 4 operands, void, address and lambda visitors, references, nested variants, fallback, nothrow and move-only lists, content kept after failure, placeholder recursion) against each other and the rest" % ("2 (shared reads) or 1" if t == "quick" else "3 (shared reads) or 2"),
        "depth-first enumeration of schedules on the real code by replaying choice prefixes, bounded in preemptions; in every schedule each thread's result must be its sequential one, and ThreadSanitizer, which does not see the scheduler, must report no pair of unordered conflicting accesses",
        ["content types' own operations are thread-safe for distinct objects and concurrent reads", "switches between two content operations, visitor calls or allocations are not explored; the race detector covers the accesses there"],
        technique="stateless exploration of thread schedules on the real code with a preemption bound, results against sequential execution and a race detector on every schedule",
        note="Exhaustive over the listed programs up to the preemption bound; every schedule is an execution of the real code. Trusts ThreadSanitizer and the compiler.")
    def many(n, seq=0, unroll=0, limit=0, std="c++11", cxx="g++", flags=PLAIN):
        d = "#define MC_N %d\n#define MC_SEQ %d\n" % (n, seq)
        if unroll: d += "#define BOOST_VARIANT_VISITATION_UNROLLING_LIMIT %d\n" % unroll
        if limit: d += "#define MC_LIMIT %d\n" % limit
        nm = "many_n%d_s%d_u%d_l%d_%s_%s" % (n, seq, unroll, limit, std.replace("+", "x"), cxx[:1])
        return Unit(nm, d + '#define MC_UNIT "%s"\n#include "many.cpp"\n' % nm, std=std, cxx=cxx, flags=flags, timeout=600)
    def many_units(t):
        us = [many(41, 1, cxx="clang++"), many(25, 0, limit=30), many(21, 3), many(21, 1, cxx="clang++", std="c++17"), many(20)]
        us += [many(n) for n in (1, 2, 3, 4, 7)] + [many(4, q) for q in range(1, 8)] + [many(11)]
        us += [many(8, 0, u) for u in (1, 2, 3, 7, 8, 9)] + [many(5, 1, std="c++17"), many(5, 3, 2, std="c++20")]
        if t == "quick":
            return us
        us += [many(n, 0, limit=50 if n > 20 else 0, cxx=("g++", "clang++")[n % 2], std=ALLSTD[n % 4]) for n in list(range(1, 25)) + [29, 30, 31, 39, 40, 41, 45, 50]]
        us += [many(n, 1, u, cxx="clang++", std=ALLSTD[(n + u) % 4]) for n in (6, 10, 15, 20, 24) for u in (1, 2, 5, 6, 10, 19, 20, 21)]
        us += [many(n, q, cxx=("g++", "clang++")[q % 2]) for n in (1, 2, 10, 20) for q in range(1, 8) if not (n == 20 and q == 7)] + [many(n, q, cxx="clang++") for n in (19, 39, 40, 42) for q in (1, 3, 4)]
        seen = {}
        for u in us:
            seen[u.name] = u
        return list(seen.values())
    P["C17"] = matrix_prop(many_units, "number of types x kind of sequence x unrolling limit x every alternative and ordered pair of alternatives x every operation",
        lambda t: ("1 to 41 types (11 counts), 8 ways of giving the types, 6 unrolling limits" if t == "quick" else "1 to 50 types (32 counts), 8 ways of giving the types, 12 unrolling limits, 4 language levels, 2 compilers") + "; all alternatives, all ordered pairs, failing assignments at each copy",
        assume=["more than 20 types as template arguments need BOOST_MPL_LIMIT_LIST_SIZE, as documented"])
    # conversions from other variants and from values are assignments, copies and moves too; wrappers own objects too
    def also(pid, more, mine, text):
        p = P[pid]; units, old, bounds = p.units, p.mine, p._bounds
        p.units = lambda t: units(t) + more(t)
        names = tuple(sorted({u.name.split("_")[0] + "_" for u in more("quick")}))
        p.mine = lambda v: mine(v) if v["unit"].startswith(names) else old(v)
        p._bounds = lambda t: (bounds(t) if callable(bounds) else bounds or "") + "; " + text
    conv2 = lambda t: two_std("conv2", "conv2.cpp", range(6), t)
    rw = lambda t: two_std("rw", "rw.cpp", range(3), t)
    ctext = "conversion from 5 other variant types and 2 convertible values to 9 variant types, every source and target state, up to two faults"
    also("C01", conv2, cat("EMPTY", "CRASH"), ctext)
    also("C02", lambda t: conv2(t) + rw(t), cat("LIFE", "CRASH"), ctext + "; the search over two recursive_wrappers of C25")
    also("C03", conv2, cat("VALUE", "CRASH", "EMPTY"), ctext)
    also("C04", conv2, cat("FAIL", "CRASH", "EMPTY"), ctext)
    also("C06", conv2, lambda v: v["violation"] == "MOVE" or (cat("CRASH", "EMPTY", "LIFE")(v) and "rvalue" in v["op"]), ctext)
    also("C18", conv2, cat("PLACE"), ctext)
    # large numbers of alternatives, for what visitation, get, comparison, hashing, copying and swapping promise of each
    wide = lambda t: [many(21, 3), many(20), many(11), many(8, 0, 3)] + ([] if t == "quick" else [many(41, 1, cxx="clang++"), many(25, 0, limit=30), many(8, 0, 7), many(2), many(7)])
    def says(*words):
        return lambda v: v["violation"] == "COMPILE" or v["violation"] == "CRASH" or any(w in v["msg"].split(" -- case")[0] for w in words)
    wtext = "lists of 8 to 21 types, every alternative and ordered pair"
    also("C01", wide, says("which() is", "visitation saw", "get<"), wtext)
    also("C02", wide, cat("LIFE", "CRASH"), wtext)
    also("C03", wide, lambda v: says("copy", "assignment", "construction")(v) and "fail" not in v["msg"], wtext)
    also("C04", wide, says("failed", "failure"), wtext)
    also("C05", wide, says("swap"), wtext)
    also("C06", wide, lambda v: says("move", "rvalue")(v), wtext)
    def deduce(parts):
        return lambda t: files("deduce", "deduce.cpp", parts, ("c++14",), flags=PLAIN) if t == "quick" else files("deduce", "deduce.cpp", parts, ("c++14", "c++17", "c++20"), flags=ASUB, timeout=900) + files("deduce_clang", "deduce.cpp", parts, ("c++14",), cxx="clang++", timeout=900)
    also("C07", deduce((0, 1, 4)), lambda v: True, "visitors without result_type: all pairs of 9 and triples of 4 result types, base and derived pointers and references, void, strings, 7 visitor and variant forms")
    also("C08", deduce((2, 3)), lambda v: True, "visitors without result_type: the four results of 2 x 2 alternatives over 4 type pairs; one of 8 combinations of 3 operands with another result type")
    also("C07", wide, says("visitation", "visitor"), wtext)
    also("C08", wide, says("binary visitation"), wtext)
    also("C09", wide, says("get"), wtext)
    also("C11", wide, says("== of", "< of", "> <= >="), wtext)
    also("C12", wide, says("hashes"), wtext)
    also("C21", wide, says("streamed"), wtext)
    return P
