"""C17 - distances are evaluated only against a distance prepared for that query. Every algorithm that evaluates distances is
instantiated with a distance functor whose preparation (fix_argument) and evaluation (compute) are declared only, so both stay
visible as calls. For each evaluation, every path to it must pass a preparation of the same functor object with the same
vector, after the values the vector depends on were last chosen, and nothing may prepare or hand on the functor in between."""
import re
from ..lib import *
from ..renum import nt, nlin, nsame, subst_e
from ..ir import lin, ladd, walk
from .. import dyn
from . import c04, c14, c18
from .c05 import callargs
from .c14 import job_of

FX = {"extra": ["-DDIST=svsa::Fix", "-include", "fixdist.h"]}
BASE = ("opaque ^svsa::\nmodel ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run\nopaque ^svs::threads::NativeThreadPoolBase::\nopaque ^svs::lib::(Timer|as_seconds)\n"
        "inline ^svs::data::(SimpleData::get_datum|detail::get_datum|GetDatumAccessor)\ninline ^svs::distance::\ninline ^svs::index::vamana::(greedy_search$|extensions::)\n")
IDX = "inline ^svs::index::\n"
TOTAL = c18.TOTAL
ORD = ("fix_cos", "eval_cos", "eval_cos_half", "bcast")
FIXP = "opaque ^svs::distance::(norm|norm_square|CosineSimilarity::compute)\nopaque ^std::vector::at$\n"


def check(ctx):
    ctx.rule("prepared", "every path to a distance evaluation passes a preparation of the same functor with the same vector, after that vector was chosen and with no other preparation in between")
    ctx.rule("own", "a functor prepared inside a parallel job was created inside that job")
    ctx.rule("functor", "preparing the cosine distance stores the norm of the complete vector, evaluating uses the stored norm, and each broadcast copy is the one asked for")
    jobs = [
        ("greedy.cpp", IDX + BASE + c18.entries("greedy.cpp"), FX),
        ("flat.cpp", IDX + BASE + "".join(TOTAL.format(n) for n in ("search", "search_pred", "subset", "patch")), FX),
        ("inverted.cpp", IDX + BASE + "".join(TOTAL.format(n) for n in ("search", "post")), FX),
        ("static.cpp", IDX + BASE + dyn.entries("search"), FX),
        ("builder.cpp", BASE + c14.POL.replace("greedy_search|", ""), FX),
        ("dynamic.cpp", BASE + "inline ^svs::index::vamana::(MutableVamanaIndex|VamanaIndex|VamanaSearch)\n" + c04.MAIN + dyn.entries("search", "exhaustive"), FX),
        ("prune.cpp", BASE + "".join(TOTAL.format(s + "_fix") for s in ("Iterative", "Progressive", "Legacy")), {"extra": ["-DDIST=svsa::Fix", "-include", "algo_model.h", "-include", "fixdist.h"]}),
        ("order.cpp", FIXP + "".join(TOTAL.format(n) for n in ORD)),
    ]
    ms = ctx.analyse_all(jobs)
    want = {"greedy.cpp": ("greedy_static", "greedy_dynamic"), "flat.cpp": ("search", "search_pred", "subset", "patch"), "inverted.cpp": ("search", "post"), "static.cpp": ("search",),
            "builder.cpp": ("generate", "reverse"), "dynamic.cpp": ("consolidate", "search", "exhaustive"), "prune.cpp": ("Iterative_fix", "Progressive_fix", "Legacy_fix")}
    for (h, *_), m in zip(jobs, ms):
        for l in want.get(h, ()):
            one(ctx, h[:-4], ctx.one(m, l))
    functor(ctx, ms[-1])
    ctx.minimum("prepared", 18)


FIXC, EVAL = r"^svsa::Fix::fix_argument$", r"^svsa::Fix::compute$"


def one(ctx, h, fn):
    ev = fn.calls(EVAL)
    fx = fn.calls(FIXC)
    ctx.ob("prepared", f"{h} {fn.label}: evaluations", bool(ev), fn.label, "no evaluation of a distance found")
    for c in ev:
        why = judge(fn, c, fx)
        ctx.ob("prepared", f"{h} {fn.label} {place(c)}", why is None, where_(c), why or "")
    for f in fx:
        w = job_of(fn, f)
        if w is None:
            continue
        b = base_of(fn, fn.E(callargs(fn, f)[0]))
        mk = makers(fn, b) if b is not None else []
        ok = any(fn.dominates(x, f) for x in mk) and all(fn.dominates(w, x) for x in mk)
        ctx.ob("own", f"{h} {fn.label} {place(f)}", ok, where_(f), "the functor prepared here is not one this job created: another worker may prepare it for its own query")


def chain(i):
    return i.r.get("chain") or []


def where_(i):
    """First place outside the distance concept itself."""
    return i.where if "concepts/distance" not in i.where else (i.where + " via " + " < ".join(chain(i)[:3]))


def place(i):
    for c in chain(i):
        if not re.search(r"maybe_fix_argument|distance::compute", c):
            return c.split("::")[-1]
    return i.where.split("/")[-1]


def parts(fn, c):
    a = callargs(fn, c)
    return fn.E(a[0]), fn.E(a[1]), (fn.E(a[2]) if len(a) > 2 else None)


def base_of(fn, e):
    b, o, v = split(e)
    n = 0
    while b[0] in ("ld", "ev") and n < 10:
        b, o, v = split(b[1])
        n += 1
    if b[0] == "call":
        c = fn.ins[b[2]]
        a = callargs(fn, c)
        if a and ACCESSOR.search(c.name):
            return base_of(fn, fn.E(a[0]))
    return b if b[0] in ("alloca", "arg", "g") else None


def makers(fn, b):
    """Instructions that give the object its contents."""
    out = []
    for i in fn.all():
        if i.op == "store":
            if base_direct(fn, i.ops[1]) == b:
                out.append(i)
        elif i.op in ("call", "invoke"):
            for a in writable_args(i):
                if fn_is_ptr(fn, a) and base_direct(fn, a) == b and not re.search(r"(::fix_argument|::compute|lifetime\.(start|end))$", i.name) and "lifetime" not in i.name:
                    out.append(i)
                    break
    return out


def base_direct(fn, a):
    b, o, v = split(fn.E(a))
    return b if b[0] in ("alloca", "arg", "g") else None


def same_vec(a, b):
    return a == b or nsame(a, b)


def moving(fn, *es):
    """Instructions whose result the expressions depend on: they choose another vector each time they run."""
    out = []
    for e in es:
        for x in walk(e):
            if isinstance(x, tuple) and x and x[0] == "phi" and x[1] in fn.ins:
                out.append(fn.ins[x[1]])
            elif isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and x[2] in fn.ins and not re.search(r"svsa_any_worker$", x[1]):
                out.append(fn.ins[x[2]])
    return out


def plain_copy(fn, b):
    """(copy instruction, source) of a local functor whose only contents are a copy of another functor."""
    ms = makers(fn, b)
    if len(ms) != 1:
        return None
    x = ms[0]
    if x.op == "store":
        v = fn.E(x.ops[0])
        return (x, v[1]) if v[0] == "ld" else None
    if x.name.startswith("llvm.memcpy"):
        return x, fn.E(x.args[1])
    return None


def judge(fn, c, fx, D=None, A=None, n=None):
    """c evaluates the distance - or copies the functor, as it stands, for an evaluation of this vector."""
    if D is None:
        D, A, n = parts(fn, c)
        b = base_of(fn, D)
        if b is not None and b[0] == "alloca" and D == b and not any(base_of(fn, parts(fn, f)[0]) == b for f in fx):
            cp = plain_copy(fn, b)
            if cp is not None and cp[1] != D:
                # the copy is as good as the functor was when it was taken, as long as the vector has not changed since
                for m in moving(fn, A):
                    if fn.path(m, lambda i: i is c, cut=fn.unwind_edges(), avoid=[cp[0]]):
                        return "the vector changes after the functor was copied"
                if fn.path(None, lambda i: i is c, cut=fn.unwind_edges(), avoid=[cp[0]]):
                    return "a path reaches the evaluation without the functor having been prepared for this vector"
                return judge(fn, cp[0], fx, cp[1], A, n)
    cut = fn.unwind_edges()
    good = [f for f in fx if same_vec(parts(fn, f)[0], D) and same_vec(parts(fn, f)[1], A) and (n is None or same_vec(parts(fn, f)[2], n))]
    if good:
        is_c = lambda i: i is c
        if fn.path(None, is_c, cut=cut, avoid=good):
            return "a path reaches the evaluation without the functor having been prepared for this vector"
        b = base_of(fn, D)
        for k in fn.calls():
            if k in good or k is c or re.search(EVAL, k.name):
                continue
            if k in fx:
                if base_of(fn, parts(fn, k)[0]) != b:
                    continue
            elif not hands_on(fn, k, D):
                continue
            if fn.path(k, is_c, cut=cut, avoid=good):
                return f"between the preparation and the evaluation {k.name.split('::')[-1]} ({k.where}) may prepare the functor for another vector"
        for i in fn.all("store"):
            if same_vec(fn.E(i.ops[1]), D) and fn.path(i, is_c, cut=cut, avoid=good):
                return f"the functor is overwritten ({i.where}) between its preparation and the evaluation"
        for m in moving(fn, D, A):
            if m not in good and fn.path(m, is_c, cut=cut, avoid=good):
                return "the vector changes after the functor was prepared"
        return None
    # functor i of a row of functors prepared for vector i, all of them before the first evaluation
    for f in fx:
        D2, A2, n2 = parts(fn, f)
        if base_of(fn, D2) != base_of(fn, D):
            continue
        for p in phis(fn, D2):
            for q in phis(fn, D):
                x, y = ("phi", p.id), ("phi", q.id)
                if not (same_vec(subst_e(D2, x, y), D) and same_vec(subst_e(A2, x, y), A) and (n is None or same_vec(n, n2))):
                    continue
                why = whole_row(fn, f, c, p, q)
                if why is None and (why := between(fn, f, c, fx)) is None:
                    return None
                return why
    if fx:
        return "the functor or the vector differs from the one that was prepared"
    return "the functor is never prepared"


def hands_on(fn, k, D):
    """The call receives the functor by reference and is not known to leave it alone."""
    if re.search(r"(lifetime|::comparator$|dbg)", k.name):
        return False
    return any(fn_is_ptr(fn, a) and same_vec(fn.E(a), D) for a in writable_args(k))


def phis(fn, e):
    return [fn.ins[x[1]] for x in walk(e) if isinstance(x, tuple) and x and x[0] == "phi" and x[1] in fn.ins]


def whole_row(fn, f, c, p, q):
    lf = [l for l in fn.loops_of(f) if l.head == p.b]
    lc = [l for l in fn.loops_of(c) if l.head == q.b]
    if not lf or not lc or c.b in lf[0].body:
        return "the functors of the row are not prepared one after another before the evaluation"
    bf = [x for x in loop_bounds(fn, lf[0]) if x[0] is p]
    bc = [x for x in loop_bounds(fn, lc[0]) if x[0] is q]
    if not bf or not bc or not every_iteration(fn, lf[0], f):
        return "not every functor of the row is prepared"
    if not (nl(bf[0][1]) == nl(bc[0][1]) and nl(bf[0][2]) == nl(bc[0][2]) and bf[0][3] == bc[0][3]):
        return "functors are prepared for a different range of queries than the one evaluated"
    if fn.path(None, lambda i: i is c, cut=fn.unwind_edges(), avoid=[fn.blocks[lf[0].head][0]]):
        return "a path reaches the evaluation without the functors having been prepared"
    # what both loops depend on is chosen before the preparation
    for e in list(bf[0][1]) + list(bf[0][2]):
        if isinstance(e, tuple):
            for m in moving(fn, e):
                if fn.path(m, lambda i: i is c, cut=fn.unwind_edges(), avoid=[fn.blocks[lf[0].head][0]]):
                    return "the range of queries changes after the functors were prepared"
    return None


def nl(l):
    out = {}
    for k, v in l.items():
        out[k if k == 1 else nt(k)] = v
    return out


def between(fn, f, c, fx):
    for k in fx:
        if k is not f and base_of(fn, parts(fn, k)[0]) == base_of(fn, parts(fn, f)[0]) and fn.path(k, lambda i: i is c, cut=fn.unwind_edges(), avoid=[f]):
            return "another preparation may come between"
    return None


# ------------------------------------------------------------------ the cosine functor
def functor(ctx, m):
    f = ctx.one(m, "fix_cos")
    ns = f.calls(r"::norm$")
    ok, w = False, "include/svs/core/distance/cosine.h"
    off = None
    for s in f.all("store"):
        v = f.E(s.ops[0])
        b, o, var = split(f.E(s.ops[1]))
        if b == ("arg", 0) and not var:
            for c in ns:
                sp = [f.E(a) for a in callargs(f, c)]
                full = span_is(f, c, 1)
                if v == ("call", c.name, c.id) and full:
                    ok, off = True, o
                    w = s.where
                    ok = must_ret(f, s)
    ctx.ob("functor", "preparing stores the norm of the whole vector", ok, w, "fix_argument does not store the norm of the vector it is given")
    for l in ("eval_cos", "eval_cos_half"):
        g = ctx.one(m, l)
        cs = g.calls(r"CosineSimilarity::compute$")
        ok = False
        for c in cs:
            a = [g.E(x) for x in callargs(g, c)]
            ok = len(a) >= 4 and a[0] == ("arg", 1) and a[1] == ("arg", 3) and stored(g, a[2], off) and a[3] in (("arg", 2), ("arg", 4)) and returns_call(g, c)
        ctx.ob("functor", f"{l} uses the stored norm", ok, cs[0].where if cs else w, "the kernel is not called with both vectors and the norm stored at preparation")
    g = ctx.one(m, "bcast")
    ok = False
    for r in g.all("ret"):
        e = g.E(r.ops[0]) if r.ops else None
        if e and e[0] == "call":
            c = g.ins[e[2]]
            a = [g.E(x) for x in callargs(g, c)]
            ok = bool(re.search(r"::(at|operator\[\])$", c.name)) and split(a[0])[0] == ("arg", 0) and nsame(a[1], ("arg", 1))
        elif e:
            b, o, v = split(e)
            ok = b[0] == "ld" and split(b[1])[0] == ("arg", 0) and len(v) == 1 and nsame(v[0][0], ("arg", 1)) and v[0][1] == 4
    ctx.ob("functor", "broadcast copy i is copy i", ok, "include/svs/concepts/distance.h", "the broadcast distance does not hand out the functor with the number asked for")


def must_ret(fn, s):
    return fn.path(None, lambda i: i.op == "ret", cut=fn.unwind_edges(), avoid=[s]) is None


def span_is(fn, c, k):
    """The call receives the span passed as arguments k, k+1 (by value or through a local copy)."""
    a = callargs(fn, c)
    es = [fn.E(x) for x in a]
    if ("arg", k) in es and ("arg", k + 1) in es:
        return True
    for x in a:
        if fn_is_ptr(fn, x):
            e = fn.E(x)
            b, o, v = split(e)
            if b[0] == "alloca":
                vals = {fn.E(s.ops[0]) for s in fn.all("store") if split(fn.E(s.ops[1]))[0] == b}
                if vals == {("arg", k), ("arg", k + 1)}:
                    return True
    return False


def stored(g, e, off):
    """The value kept in the functor (argument 0), possibly through a copy of the functor."""
    if e[0] != "ld":
        return False
    r = root(g, e[1])
    return r is not None and r[0] == ("arg", 0) and (off is None or r[1] == off)


def returns_call(g, c):
    return any(r.ops and g.E(r.ops[0]) == ("call", c.name, c.id) for r in g.all("ret"))
