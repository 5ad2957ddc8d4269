"""C24: enumerators, their names and what they select.

Analysed: every conversion between an enumerator and its name, size, C++ type, magic number or implementation, evaluated in the
normalised IR for every class of inputs the code can tell apart (all enumerators, all other values; all strings by length and by the
literals they start with); the list of enumerators comes from the syntax tree. The run-time dispatcher: which registered method is
called."""
import json, subprocess
from ..ir import ladd
from concurrent.futures import ThreadPoolExecutor
from ..lib import *
from ..lib import _reach_in
from ..content import Const, text
from ..renum import nt, nlin, nsame, index_of, vec_elem, covers_index, each_or
from .. import run, dyn
from .c05 import callargs, blocks_of, short
from .c06 import must_ret, is_ret

NAMES = ("DataType", "DistanceType", "FileSchema", "SlotMetadata", "SBO")
DECL = {"SBO": "SearchBufferOptimization"}
PARSED = ("DataType", "DistanceType", "FileSchema")
POL = "inline ^fmt::.*formatter::get_name$\nopaque ^std::filesystem\nopaque ^svs::lib::Type\nopaque ^svs::lib::(open_read|read_binary)$\nopaque ^svs::lib::UUID\nopaque ^svs::io::detail::read_header\n"
CPP = {"uint8": "unsigned char", "uint16": "unsigned short", "uint32": "unsigned int", "uint64": "unsigned long", "int8": "signed char",
       "int16": "short", "int32": "int", "int64": "long", "float16": "svs::float16::Float16", "float32": "float", "float64": "double", "byte": "std::byte"}
BYTES = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "float16": 2, "float32": 4, "float64": 8, "byte": 1, "undef": 0}
DIST = {"L2": "DistanceL2", "MIP": "DistanceIP", "Cosine": "DistanceCosineSimilarity"}
FILES = {"Vtest": r"io::vtest::NativeFile", "V1": r"io::v1::NativeFile", "Database": r"io::database::DatabaseProtoFile"}
DYN = -1
SUBSET = ("float32", "int8", "float16")


def enumerators(name):
    """{enumerator: value} of the enumeration as declared."""
    n = DECL.get(name, name)
    cmd = [run.CLANG, *run.FLAGS, *run.ARCH, *run.includes(), "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + n, os_path("enums.cpp")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise run.Broken("enums.cpp does not compile: " + r.stderr[-1500:])
    dec, i, s = json.JSONDecoder(), 0, r.stdout
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        if o.get("kind") == "EnumDecl" and o.get("name") == n and any(x.get("kind") == "EnumConstantDecl" for x in o.get("inner", [])):
            out, nxt = {}, 0
            for x in o["inner"]:
                if x.get("kind") != "EnumConstantDecl":
                    continue
                v = value_of(x)
                nxt = v if v is not None else nxt
                out[x["name"]] = nxt
                nxt += 1
            return out
    raise run.Broken("enumeration " + n + " not found")


def os_path(f):
    return run.ROOT + "/harness/" + f


def value_of(x):
    for y in x.get("inner", []):
        if y.get("kind") == "ConstantExpr" and "value" in y:
            return int(y["value"])
        v = value_of(y)
        if v is not None:
            return v
    return None


def check(ctx):
    with ThreadPoolExecutor(6) as ex:
        fe = [ex.submit(enumerators, n) for n in NAMES]
        m = ctx.analyse("enums.cpp", POL + dyn.entries(*labels()))
        E = dict(zip(NAMES, (f.result() for f in fe)))
    ctx.enums = E
    ctx.notes.append("enumerators: " + "; ".join(f"{k}: {', '.join(v)}" for k, v in E.items()))
    ctx.rule("name", "every enumerator has its own name, which is its identifier; other values have none")
    ctx.rule("parse", "a name parses to the enumerator it names; any other string is refused (an unknown element type is 'undef')")
    ctx.rule("size", "the element size of a type is that of its C++ type")
    ctx.rule("type", "element types and C++ types correspond one to one")
    ctx.rule("dispatch", "dispatch on a value reaches the implementation for that value and no other; other values are refused")
    ctx.rule("magic", "each magic number selects the file kind written with it; other numbers select none")
    ctx.rule("method", "the dispatcher calls the registered method it found to match, and none when no method matches")
    for n in NAMES:
        names(ctx, ctx.one(m, "name_" + n), E[n], n)
    for n in PARSED:
        parse(ctx, ctx.one(m, "parse_" + n), E[n], n)
    D = E["DataType"]
    fn = ctx.one(m, "size_DataType")
    for k, v in D.items():
        s = returned(fn, v)
        ctx.ob("size", k, s is not None and lone(s) == BYTES.get(k), fn.name, f"the size of {k} is {s}")
    unknown(ctx, "size", fn, D)
    for k in D:
        if k == "undef":
            continue
        f1 = ctx.one(m, "dt_" + k) if k in CPP else None
        ctx.ob("type", k + "/of C++ type", f1 is not None and all(f1.E(r.ops[0]) == ("c", D[k]) for r in f1.rets()) and f1.rets(), f1.name if f1 else k, f"the C++ type of {k} is given another element type")
        f2 = ctx.one(m, "cpp_" + k) if k in CPP else None
        ctx.ob("type", k + "/C++ type", f2 is not None and [targ(c) for c in sinks(f2)] == [CPP[k]], f2.name if f2 else k, f"{k} stands for another C++ type")
    fn = ctx.one(m, "dt_other")
    ctx.ob("type", "other types", all(fn.E(r.ops[0]) == ("c", D.get("undef")) for r in fn.rets()), fn.name, "a type without an element type is given one")
    selects(ctx, ctx.one(m, "distance"), E["DistanceType"], lambda k, c: bool(re.search(r"distance::" + DIST.get(k, "?") + r"\b", c)))
    selects(ctx, ctx.one(m, "file"), E["FileSchema"], lambda k, c: bool(re.search(FILES.get(k, "?") + r"\b", c)))
    selects(ctx, ctx.one(m, "match"), D, lambda k, c: c == CPP.get(k), none=("undef",))
    selects(ctx, ctx.one(m, "match3"), D, lambda k, c: c == CPP.get(k), none=tuple(k for k in D if k not in SUBSET))
    for l, want in (("conv_float32", "float32"), ("conv_int8", "int8"), ("load_float32", "float32"), ("load_uint8", "uint8")):
        fn = ctx.one(m, l)
        accepts(ctx, fn, D, {want})
    for l, want in (("conv_L2", "L2"), ("conv_MIP", "MIP"), ("conv_Cosine", "Cosine")):
        accepts(ctx, ctx.one(m, l), E["DistanceType"], {want})
    for l, ok in (("load_dyn", lambda d: True), ("load_128", lambda d: d == 128), ("best_dyn", lambda d: d == DYN), ("best_128", lambda d: d == 128)):
        fn = ctx.one(m, l)
        for d in (1, 64, 127, 128, 129, 256, DYN):
            v = lone(returned(fn, d))
            ctx.ob("dispatch", f"{l}/{d if d != DYN else 'dynamic'} dimensions", v is not None and bool(v & 1) == ok(d), fn.name, "a loader of another dimensionality is selected, or the right one is not")
    magic(ctx, m, E["FileSchema"])
    dispatcher(ctx, m)


def labels():
    return (["name_" + n for n in NAMES] + ["parse_" + n for n in PARSED] + ["size_DataType", "dt_other", "distance", "file", "match", "match3", "magic",
            "conv_float32", "conv_int8", "conv_L2", "conv_MIP", "conv_Cosine", "load_float32", "load_uint8", "load_dyn", "load_128", "best_dyn", "best_128", "best", "has", "invoke", "ext_dyn", "ext_128", "ext_dyn_best", "ext_128_best", "matcher_0", "matcher_1"]
            + ["dt_" + k for k in CPP] + ["cpp_" + k for k in CPP] + ["magic_" + k for k in FILES])


# ---- evaluation --------------------------------------------------------------------------
def resolve(K, e, d=0):
    """Expression with the phis and selects decided by K replaced."""
    if d > 30:
        return e
    if e[0] == "phi":
        i = K.fn.ins[e[1]]
        vs = {resolve(K, K.fn.E(val), d + 1) for val, b in i.r["inc"] if (b, i.b) in K.edges}
        return vs.pop() if len(vs) == 1 else e
    if e[0] == "sel":
        c = K.ev(e[1])
        if c is not None:
            return resolve(K, e[2] if c else e[3], d + 1)
    v = K.ev(e)
    return ("c", v) if v is not None else e


def fields(fn, e):
    """{field index: expression} of a returned aggregate."""
    out = {}
    while e[0] == "ins":
        i = fn.ins[e[2]]
        ix = tuple(i.r.get("idx", ()))
        out.setdefault(ix, fn.E(i.ops[1]))
        e = fn.E(i.ops[0])
    return out


def arg_is(v):
    m = lambda x: x & 0xFFFFFFFF if isinstance(x, int) else x
    def leaf(e):
        return v if e == ("arg", 0) else None
    return leaf


def returned(fn, v, leaf=None):
    """Values (resolved expressions) returned when the argument is v; empty when nothing is returned."""
    K = Const(fn, leaf or arg_is(v))
    return {resolve(K, fn.E(r.ops[0])) for r in fn.rets() if r.b in K.blocks}


def lone(s):
    s = list(s)
    return s[0][1] if len(s) == 1 and s[0][0] == "c" else None


def others(fn, vals):
    """Representatives of the values that are no enumerators, for a function that compares its argument with constants."""
    cs = set(vals)
    for i in fn.all():
        if i.op == "icmp":
            cs |= {fn.E(o)[1] for o in i.ops if fn.E(o)[0] == "c" and isinstance(fn.E(o)[1], int)}
        if i.op == "switch":
            cs |= {int(c[0]["c"]) for c in i.r["cases"]}
    out = set()
    for c in cs:
        out |= {c - 1, c, c + 1}
    return sorted(x for x in out | {255, 1000} if x not in vals and x >= 0 and x < 2**31)


def unknown(ctx, rule, fn, en):
    bad = [v for v in others(fn, set(en.values())) if returned(fn, v)]
    ctx.ob(rule, fn.label + "/other values", not bad, fn.name, f"values that are no enumerators are accepted: {bad[:3]}")


def names(ctx, fn, en, n):
    got = {}
    for k, v in en.items():
        K = Const(fn, arg_is(v))
        out = set()
        for r in fn.rets():
            if r.b in K.blocks:
                f = fields(fn, fn.E(r.ops[0]))
                l, p = (resolve(K, f[ix]) if ix in f else None for ix in ((0,), (1,)))
                t = text(fn, p) if p else None
                out.add(t[:l[1]] if t is not None and l and l[0] == "c" else None)
        ctx.ob("name", f"{n}::{k}", out == {k}, fn.name, f"{n}::{k} is named {sorted(map(str, out))}")
    unknown(ctx, "name", fn, en)


# ---- strings -----------------------------------------------------------------------------
def literals(fn):
    out, lens = set(), set()
    for c in fn.calls(r"^(bcmp|memcmp|strncmp)$|basic_string_view::compare$|^std::operator==$"):
        for a in c.args:
            if fn_is_ptr(fn, a):
                t = text(fn, fn.E(a))
                if t is not None:
                    n = fn.E(c.args[2]) if len(c.args) > 2 and c.name in ("bcmp", "memcmp", "strncmp") else None
                    out.add(t[:n[1]] if n and n[0] == "c" else t.split("\0")[0])
    for i in fn.all():
        es = [fn.E(o) for o in i.ops] if i.op in ("icmp",) else []
        lens |= {e[1] for e in es if e[0] == "c" and isinstance(e[1], int) and 0 <= e[1] < 200}
        if i.op == "switch":
            lens |= {int(c[0]["c"]) for c in i.r["cases"] if 0 <= int(c[0]["c"]) < 200}
    return out, lens


def string_leaf(fn, s, box):
    def leaf(e):
        if e == ("arg", 0):
            return len(s)
        if e[0] == "call" and e[1] in ("bcmp", "memcmp", "strncmp"):
            a = [fn.E(x) for x in fn.ins[e[2]].args]
            n = box[0].ev(a[2]) if box else None
            if n is None:
                return None
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                b, o, v = split(x)
                t = text(fn, y)
                if b == ("arg", 1) and not v and t is not None and o >= 0:
                    return int(s[o:o + n] != t[:n])
        if e[0] == "call" and re.search(r"char_traits::(compare)$", e[1]):
            a = [fn.E(x) for x in fn.ins[e[2]].args]
            n = box[0].ev(a[2]) if box else None
            t = text(fn, a[1])
            if n is not None and a[0] == ("arg", 1) and t is not None:
                return int(s[:n] != t[:n])
        return None
    return leaf


def parsed(fn, s):
    """(values returned, every decision was taken) for the string s."""
    box = []
    class C(Const):
        def __init__(self, f, l):
            box.append(self)
            super().__init__(f, l)
    K = C(fn, string_leaf(fn, s, box))
    sure = all(len(K.out(b)) < 2 for b in K.blocks if fn.term(b) is not None and fn.term(b).op in ("br", "switch") and len(fn.succ[b]) > 1)
    vals = {resolve(K, fn.E(r.ops[0])) for r in fn.rets() if r.b in K.blocks}
    return vals, sure


def classes(fn, en):
    lits, lens = literals(fn)
    lits |= set(en)
    lens |= {len(x) for x in lits}
    pre = {""} | lits | {x[:n] for x in lits for n in lens if n < len(x)}
    out = set()
    for p in pre:
        for n in lens | {x + 1 for x in lens} | {0}:
            if n >= len(p):
                out.add(p + "\x01" * (n - len(p)))
    return sorted(out)


def parse(ctx, fn, en, n):
    und = ("c", en["undef"]) if "undef" in en else None
    unsure = []
    for k, v in en.items():
        vals, sure = parsed(fn, k)
        if not sure:
            unsure.append(k)
            continue
        ctx.ob("parse", f"{n}/{k}", vals == {("c", v)}, fn.name, f"the name of {k} does not parse to it")
    if unsure:
        witness(ctx, fn, en, n, unsure)
        return
    bad = []
    for s in classes(fn, en):
        if s in en:
            continue
        vals, sure = parsed(fn, s)
        if not sure:
            unsure.append(s)
        elif vals - ({und} if und else set()):
            bad.append(s)
    if unsure:
        witness(ctx, fn, en, n, [])
        return
    ctx.ob("parse", f"{n}/other strings", not bad, fn.name, f"strings that name nothing are accepted: {[b.replace(chr(1), '?') for b in bad[:3]]}")


SPELL = {"DataType": ("svs::DataType", "svs::parse_datatype"), "DistanceType": ("svs::DistanceType", "svs::parse_distance_type"), "FileSchema": ("svs::io::FileSchema", "svs::io::parse_schema")}


def witness(ctx, fn, en, n, keys):
    """The parse function is not a chain of comparisons: let the compiler evaluate it on the names and their neighbours."""
    ty, pf = SPELL[n]
    src = ["#include \"svs/lib/preprocessor.h\"", "#include \"svs/core/distance.h\"", "#include \"svs/core/io/native.h\"",
           "#include <type_traits>", "template <auto V> struct C {};", "template <size_t N> struct S { char c[N]; constexpr S(const char (&s)[N]) { for (size_t i = 0; i < N; ++i) c[i] = s[i]; } constexpr std::string_view v() const { return {c, N - 1}; } };",
           f"template <S s> concept Ok = requires {{ typename C<{pf}(s.v())>; }};"]
    lines = {}
    def add(t, inst, why):
        src.append(t)
        lines[len(src)] = (inst, why)
    for k in en:
        add(f"static_assert({pf}(\"{k}\") == {ty}::{k});", f"{n}/{k}", f"the name of {k} does not parse to it")
    near = set()
    for k in en:
        near |= {k[:-1], k + "x", k.swapcase(), " " + k, k + " ", k[:-1] + "@"}
    for s in sorted(near - set(en)):
        if "undef" in en:
            add(f"static_assert({pf}(\"{s}\") == {ty}::undef);", f"{n}/other '{s}'", "a string that names nothing is accepted")
        else:
            add(f"static_assert(!Ok<S(\"{s}\")>);", f"{n}/other '{s}'", "a string that names nothing is accepted")
    with run.Workdir() as d:
        p = d + "/w.cpp"
        open(p, "w").write("\n".join(src) + "\n")
        r = subprocess.run(["g++", *[f for f in run.FLAGS if f != "-fsized-deallocation"], "-march=x86-64-v4", *run.includes(), "-w", "-fimplicit-constexpr", "-fsyntax-only", p], capture_output=True, text=True)
    failed = {}
    for l in r.stderr.splitlines():
        x = re.match(r".*w\.cpp:(\d+):\d+: error: (.*)", l)
        if x:
            failed.setdefault(int(x.group(1)), []).append(x.group(2))
    thrown = "throw-expression" in r.stderr
    for ln, (inst, why) in lines.items():
        f = failed.get(ln)
        if f is None:
            ctx.ob("parse", inst, True, fn.name)
        elif any("static assertion failed" in x for x in f) or thrown and any("non-constant condition" in x for x in f):
            ctx.ob("parse", inst, False, fn.name, why)
        else:
            ctx.notes.append(f"not decided: {inst}: {f[0][:100]}")


# ---- dispatch ----------------------------------------------------------------------------
def sinks(fn):
    return fn.calls(r"^Sink::operator\(\)$")


def targ(c):
    """Type a Sink was called with."""
    x = re.search(r"Sink::operator\(\)<(.*?)>\(", c.r.get("d") or "")
    t = x.group(1) if x else ""
    y = re.match(r"svs::lib::Type<(.*)>( const)?&?$", t)
    return y.group(1) if y else t


def selects(ctx, fn, en, right, none=()):
    for k, v in en.items():
        K = Const(fn, arg_is(v))
        cs = [c for c in sinks(fn) if c.b in K.blocks]
        if k in none:
            ctx.ob("dispatch", f"{fn.label}/{k}", not cs and not any(r.b in K.blocks for r in fn.rets()), fn.name, f"{k} is dispatched although it is not supported")
            continue
        ok = bool(cs) and all(right(k, targ(c)) for c in cs)
        ok = ok and all(fn.path(None, lambda x, r=r: x is r, avoid=cs, cut=K.cut) is None for r in fn.rets() if r.b in K.blocks)
        ok = ok and all(fn.path(c, c2) is None for c in cs for c2 in cs if c is not c2)
        ctx.ob("dispatch", f"{fn.label}/{k}", ok, cs[0].where if cs else fn.name, f"{k} does not reach its own implementation")
    bad = [v for v in others(fn, set(en.values())) if any(c.b in Const(fn, arg_is(v)).blocks for c in sinks(fn))]
    ctx.ob("dispatch", fn.label + "/other values", not bad, fn.name, f"values that are no enumerators are dispatched: {bad[:3]}")


def accepts(ctx, fn, en, want):
    for k, v in en.items():
        s = lone(returned(fn, v))
        ctx.ob("dispatch", f"{fn.label}/{k}", s is not None and bool(s & 1) == (k in want), fn.name, f"{k} is {'refused' if k in want else 'accepted'}")


def magic(ctx, m, en):
    fn = ctx.one(m, "magic")
    num = {}
    for k in en:
        if k not in FILES:
            ctx.ob("magic", k, False, fn.name, f"the file kind {k} is not known to the rule")
            continue
        f = ctx.one(m, "magic_" + k)
        vs = {f.E(r.ops[0]) for r in f.rets()}
        num[k] = lone(vs)
    M = lambda v: v & (2**64 - 1)
    ctx.ob("magic", "distinct", None not in num.values() and len({M(v) for v in num.values()}) == len(en), fn.name, "two file kinds share a magic number")
    if None in num.values():
        return
    def opt(v):
        K = Const(fn, lambda e: v if e == ("arg", 0) else None)
        out = set()
        for r in fn.rets():
            if r.b in K.blocks:
                x = K.ev(fn.E(r.ops[0]))
                out.add(None if x is None else (bool(M(x) >> 32 & 1), M(x) & 0xFFFFFFFF))
        return out
    for k, v in num.items():
        ctx.ob("magic", k, opt(v) == {(True, en[k])}, fn.name, f"files of kind {k} are not recognised as such")
    bad = []
    for v in set(num.values()):
        for w in (v ^ 1, v ^ (1 << 63), v ^ (1 << 32), M(v) & 0xFFFFFFFF, 0, 1):
            o = opt(w - 2**64 if w >= 2**63 else w)
            if M(w) not in {M(x) for x in num.values()} and any(x is None or x[0] for x in o):
                bad.append(hex(M(w)))
    ctx.ob("magic", "other numbers", not bad, fn.name, f"numbers of no file kind are recognised: {bad[:3]}")


# ---- the run-time dispatcher -------------------------------------------------------------
def dispatcher(ctx, m):
    for l in ("best", "has", "invoke"):
        fn = ctx.one(m, l)
        sel = selection(ctx, fn)
        if sel is None:
            continue
        idx, flag, size = sel
        if l == "best":
            st = {split(fn.E(i.ops[1]))[1]: fn.E(i.ops[0]) for i in fn.all("store") if split(fn.E(i.ops[1]))[0] == ("arg", 0)}
            ok = st.get(0) == idx and flag is not None and bits(st.get(8, ("c", 0))) == flag
            ctx.ob("method", "best match reported", ok, fn.name, "the method reported is not the one selected")
        elif l == "has":
            def says(e):
                e = bits(e)
                return e == flag or e[0] == "cmp" and e[1] in ("ne", "ult", "slt") and {e[2], e[3]} == {idx, size} or e[0] == "cmp" and e[1] == "ne" and bits(e[2]) == flag and e[3] == ("c", 0)
            ctx.ob("method", "whether there is a match", all(says(fn.E(r.ops[0])) for r in fn.rets()) and bool(fn.rets()), fn.name, "a match is reported although none was found, or one is missed")
        else:
            cs = fn.calls(r"^std::function::operator\(\)$")
            none = lambda a: found(a, flag, idx, size)
            ok = bool(cs) and all(elem_index(fn, fn.E(c.args[0]), 8) == idx and fn.guarded(c, none) for c in cs)
            ctx.ob("method", "selected method called", ok, cs[0].where if cs else fn.name, "a method other than the selected one is called, or one although none matches")
            ok = all(fn.path(None, lambda x, r=r: x is r, avoid=cs) is None for r in fn.rets()) and bool(fn.rets() or cs)
            ctx.ob("method", "a result only from a method", ok, fn.name, "invoking returns without having called a method")
            for c in cs:
                ctx.ob("method", "arguments passed in order", ordered([fn.E(x) for x in c.args[1:]]), c.where, "the arguments are not passed on in order")
    for l, n in (("ext_dyn", DYN), ("ext_128", 128)):
        f1, f2 = ctx.one(m, l), ctx.one(m, l + "_best")
        for v in (1, 127, 128, 129, DYN):
            for force in (0, 1):
                a, b = (truth(fn, lambda e: v if e == ("arg", 0) else force if e == ("arg", 1) else None) for fn in (f1, f2))
                want = (v == n or n == DYN and not force, v == n)
                ctx.ob("dispatch", f"{l}/{v if v != DYN else 'dynamic'}{' exactly' if force else ''}", (a, b) == want, f1.name, f"matched, matched best: {a}, {b} instead of {want}")
    for k, v in ctx.enums["DataType"].items():
        for x in (64, 128):
            at = lambda e: v if e == ("ld", ("arg", 0)) else x if e == ("ld", ("arg", 1)) else 1 if e == ("ld", mkaddr(("arg", 1), 8, ())) else None
            got = tuple(truth(ctx.one(m, f"matcher_{i}"), at) for i in (0, 1))
            ctx.ob("method", f"argument scores/{k}, {x}", got == (k == "float32", x == 128), "dispatcher.h", f"the scores of the arguments do not correspond to the arguments of the method: {got}")


def truth(fn, at):
    K = Const(fn, at)
    vs = set()
    for r in fn.rets():
        if r.b in K.blocks:
            x = K.ev(resolve(K, fn.E(r.ops[0])))
            vs.add(None if x is None else bool(x & 1))
    return vs.pop() if len(vs) == 1 else None


def ordered(es):
    """Values passed on: loads from the same or distinct locals/arguments at increasing positions."""
    def key(e):
        e = strip(e)
        n = 0
        while e[0] == "ld":
            b, o, v = split(e[1])
            if v:
                return None
            e, n = strip(b), n + 1
            if n == 1:
                off = o
        return (e, off) if n else None
    ks = [key(e) for e in es]
    return None not in ks and len(set(ks)) == len(ks)


def bits(e):
    e = strip(e)
    while e[0] == "bin" and e[1] == "and" and e[3] == ("c", 1):
        e = strip(e[2])
    return e


def found(a, flag, idx, size):
    if a[0] == "true":
        return bits(a[1]) == flag
    if a[0] == "cmp":
        l, r = bits(a[2]), bits(a[3])
        if flag is not None and a[1] == "ne" and {l, r} == {flag, ("c", 0)}:
            return True
        return flag is None and size is not None and (a[1] == "ne" and {l, r} == {idx, size} or a[1] in ("ult",) and (l, r) == (idx, size))
    return False


def unfound(a, flag, idx, size):
    if a[0] == "false":
        return bits(a[1]) == flag
    if a[0] == "cmp":
        l, r = bits(a[2]), bits(a[3])
        if flag is not None and a[1] == "eq" and {l, r} == {flag, ("c", 0)}:
            return True
        return flag is None and size is not None and (a[1] == "eq" and {l, r} == {idx, size} or a[1] == "uge" and (l, r) == (idx, size))
    return False


def elem_index(fn, e, off):
    """Index of the candidate whose field at the offset has this address."""
    b, o, v = split(e)
    if b[0] == "ld" and b[1][0] == "arg" and o == off and len(v) == 1:
        return v[0][0]
    return None


def selection(ctx, fn):
    """(index, flag, count) expressions after the loop that selects a method."""
    L = fn.label
    c = loop = base = None
    for i in fn.all():
        f = fn.E(i.r["ind"]) if i.is_call and i.r.get("ind") is not None else ("?",)
        cv = cover(fn, i, f[1]) if f[0] == "ld" else None
        if cv is None or cv.stride != 48 or c is not None:
            continue
        lo = [k for k in cv.lo if k != 1]
        if len(lo) == 1 and cv.lo == {lo[0]: 1} and lo[0][0] == "ld" and lo[0][1][0] == "arg":
            base = lo[0][1]
            end = ("ld", mkaddr(base, 8, ()))
            if nsub(cv.hi) == {end: 1}:
                c, loop = i, cv.loop
    ok = loop is not None and each_or(fn, loop, c)
    ctx.ob("method", L + "/every method considered", ok, c.where if c else fn.name, "not every registered method is matched against the arguments")
    if not ok:
        return None
    cnt = lambda l: {k: v * 48 for k, v in l.items()} == {end: 1, ("ld", base): -1}
    ivs = {("phi", p.id) for p, ini, bound, st, tb in sync_bounds(fn, loop, loop_bounds(fn, loop)) if ini == {} and st == 1}
    # the score of this method
    res = ("call", c.name, c.id)
    sc = {split(fn.E(s.ops[1]))[0] for s in fn.all("store") if res in walk(fn.E(s.ops[0]))}
    match = [b for b in sc if b[0] == "alloca"]
    match = match[0] if match else None
    iters = [p for p in fn.ins.values() if p.op == "phi" and p.b == loop.head]
    idx = flag = None
    takes = set()
    for p in iters:
        ts = take_edges(fn, ("phi", p.id), loop, lambda e: e in ivs)
        if ("phi", p.id) not in ivs and ts:
            idx, takes = ("phi", p.id), ts
    if idx is None:
        for p in iters:
            takes = takes or take_edges(fn, ("phi", p.id), loop, lambda x: x == ("c", 1))
    if not takes or match is None:
        ctx.ob("method", L + "/selection", False, c.where, "no method is selected")
        return None
    size = None
    for val, b in fn.ins[idx[1]].r["inc"] if idx else ():
        if b not in loop.body and cnt(nlin(fn.E(val))):
            size = fn.E(val)
    for p in iters:
        e = ("phi", p.id)
        if e == idx or e in ivs:
            continue
        if take_edges(fn, e, loop, lambda x: x == ("c", 1)) == takes and all(fn.E(v) == ("c", 0) for v, b in p.r["inc"] if b not in loop.body):
            flag = e
    ctx.ob("method", L + "/match recorded", flag is not None or size is not None, c.where, "whether a method was found is not recorded with it")
    at = [fn.blocks[b][-1] for b, _ in takes]
    # takes are edges: reach their source block's end
    def reach(cut):
        """A take edge reached from the match without crossing a cut edge, within one iteration."""
        cut = set(cut) | {(l, loop.head) for l in loop.latches}
        seen, work = {c.b}, [c.b]
        while work:
            b = work.pop()
            for s in fn.succ[b]:
                if (b, s) in cut:
                    continue
                if (b, s) in takes:
                    return True
                if s in loop.body and s not in seen:
                    seen.add(s)
                    work.append(s)
        return False
    # valid: every score is not negative
    nn = lambda a, es: a[0] == "cmp" and (a[1] == "sge" and a[3] == ("c", 0) and a[2] in es or a[1] == "sgt" and a[3] == ("c", -1) and a[2] in es or a[1] == "sle" and a[2] == ("c", 0) and a[3] in es)
    good = False
    for g in fn.loops:
        for p, ini, bound, st, tb in loop_bounds(fn, g, True) if set(g.body) < set(loop.body) else ():
            me = ("phi", p.id)
            es = set()
            for x in fn.all("load"):
                a = lin(fn.E(x.ops[0]))
                if x.b in g.body and me in a and subst(a, me, lin(ini) if not isinstance(ini, dict) else ini) == lin(match) and subst(a, me, bound) == lin(mkaddr(match, 16, ())) and a[me] * st == 8:
                    es.add(fn.EI(x))
            each = {(b, s) for b, s in fn.edges() if b in g.body and any(nn(a, es) for a in fn.edge_atoms(b, s))}
            out = set(exhausted_edges(fn, g, p, st))
            good |= bool(es and each and out) and g.head not in _reach_in(fn, g, each) and not reach(out)
    if not good:
        sv = lambda k: [("ld", mkaddr(match, 8 * k, ()))] + [fn.E(s.ops[0]) for s, so in fn.stores_raw(match[1]) if so == 8 * k]
        good = all(not reach(fn.cut_for(lambda a, k=k: nn(a, sv(k)))) for k in (0, 1))
    ctx.ob("method", L + "/only matching methods", good, c.where, "a method whose arguments do not match can be selected")
    # better than the best so far
    best = None
    for i in fn.all():
        if i.is_call and "memcpy" in i.name and i.b in loop.body and fn.E(i.args[1]) == match and fn.E(i.args[0])[0] == "alloca":
            best = fn.E(i.args[0])
            at2 = i
    ok = best is not None and all(b == at2.b or s == at2.b or at2.b in fn.idom and fn.dominates_b(at2.b, b) for b, s in takes)
    ctx.ob("method", L + "/best score kept", ok, c.where, "a method is selected without its score becoming the best one")
    def less(a):
        if a[0] != "cmp":
            return False
        e, op, k = strip(a[2]), a[1], strip(a[3])
        if op == "slt" and k == ("c", 0) or op == "sle" and k == ("c", -1):
            want = (match, best)
        elif op == "sgt" and k == ("c", 0) or op == "sge" and k == ("c", 1):
            want = (best, match)
        else:
            return False
        vs = [fn.E(v) for v, _ in fn.ins[e[1]].r["inc"]] if e[0] == "phi" else [e]
        three = [fn.ins[v[2]] for v in vs if v[0] == "call" and v[1].endswith("_Synth3way::operator()")]
        return bool(three) and all(v[0] == "c" and v[1] >= 0 or v[0] == "call" for v in vs) and all(compares(fn, x, want) for x in three)
    cut = fn.cut_for(lambda a: unfound(a, flag, idx, size) or less(a))
    ctx.ob("method", L + "/better or first", bool(cut) and not reach(cut), c.where, "a worse method replaces a better one")
    return idx, flag, size


def nsub(l):
    """Linear form with byte distances divided and multiplied again cancelled."""
    out = {}
    for k, v in l.items():
        out = ladd(out, nlin(k) if k != 1 else {1: 1}, v)
    return out


def compares(fn, x, want):
    a = callargs(fn, x)[-2:]
    es = [split(fn.E(y)) for y in a]
    return [e[0] for e in es] == list(want) and es[0][1:] == es[1][1:] and len(es[0][2]) == 1 and es[0][2][0][1] == 8


def take_edges(fn, e, loop, want):
    """Edges inside the loop on which the loop-carried value e becomes one satisfying want."""
    out, seen = set(), set()
    work = [e]
    while work:
        x = work.pop()
        if x in seen or x[0] != "phi":
            continue
        seen.add(x)
        i = fn.ins[x[1]]
        for val, b in i.r["inc"]:
            if b not in loop.body:
                continue
            v = fn.E(val)
            if want(v):
                out.add((b, i.b))
            elif v[0] == "phi" and fn.ins[v[1]].b in loop.body and v != e:
                work.append(v)
    return out
