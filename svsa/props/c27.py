"""C27 - random sampling stays inside the dataset. Every draw of a random element (k-means initialisation, choice of centroids)
is resolved to the distribution it comes from and the interval that distribution was made with: it must be [0, size) of the very
dataset (or size) the picks index. Picks are used only past a test that this value was not picked before, are recorded before
the next draw, and the number of different elements asked for is tested against the number there are before the first draw, so
that drawing ends."""
import re
from ..lib import *
from ..renum import nt, nlin, nsame, counted
from ..ir import lin, ladd, walk
from . import c18

POL = """opaque ^svsa::
model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run
opaque ^svs::threads::(NativeThreadPoolBase::|balance)
opaque ^svs::(distance|lib::Timer|lib::detail|logging)
opaque ^(std::(mersenne_twister_engine|uniform_int_distribution|unordered_set|set|_Hashtable|_Rb_tree|sort|unordered_map)|tsl)::
opaque ^std::sort$
opaque ^svs::(process_batch|find_nearest)
"""
DRAW = r"uniform_int_distribution::operator\(\)$"
SET = r"(?:unordered_set|robin_set|robin_map|std::set|_Hashtable|_Rb_tree)::"


def check(ctx):
    ctx.rule("range", "every random draw of an element is uniform over [0, size) of the dataset it picks from")
    ctx.rule("distinct", "a drawn element is used only if it was not picked before, and is recorded as picked before the next draw")
    ctx.rule("enough", "drawing starts only after testing that the dataset has as many elements as different ones are wanted")
    ctx.rule("count", "as many elements are picked as were asked for")
    E = lambda *ns: "".join(c18.TOTAL.format(n) for n in ns)
    m = ctx.analyse("sample.cpp", POL + E("train", "select", "picker") + "+opaque ^svs::index::inverted::randomly_select_centroids$\n", pch=True)
    n = ("ld", ("addr", ("arg", 2), 24, ()))
    train(ctx, ctx.one(m, "train"), n, ("ld", ("arg", 1)))
    select(ctx, ctx.one(m, "select"), ("arg", 1), ("arg", 2))
    picker(ctx, ctx.one(m, "picker"))
    ctx.minimum("range", 3)
    ctx.minimum("distinct", 3)
    ctx.minimum("enough", 2)
    ctx.minimum("count", 2)


def strip(fn, e):
    """Without checked conversions."""
    e = nt(e)
    while isinstance(e, tuple) and e[0] == "call" and re.search(r"::narrow(_impl|_cast)?$", e[1]):
        e = nt(fn.E(fn.ins[e[2]].args[0]))
    return e


def draws(fn):
    return [c for c in fn.calls() if re.search(DRAW, c.name)]


def alts(fn, e, seen=()):
    """The alternatives of a value, each with the edges it is chosen on."""
    e = strip(fn, e)
    if e[0] == "phi" and e[1] in fn.ins and e not in seen:
        p = fn.ins[e[1]]
        return [(x, g or [(b, p.b)]) for v, b in p.r["inc"] for x, g in alts(fn, fn.E(v), seen + (e,)) if x != e]
    if e[0] == "phi" and e in seen:
        return []
    if e[0] == "select":
        return [(x, None) for k in (2, 3) for x, g in alts(fn, e[k], seen + (e,))]
    return [(e, None)]


def in_range(fn, c, is_size):
    """The draw is from a distribution over [0, size)."""
    d = split(fn.E(c.args[0]))[0]
    cs = [i for i in fn.calls() if re.search(r"uniform_int_distribution::(uniform_int_distribution|param)$", i.name) and split(fn.E(i.args[0]))[0] == d]
    if len(c.args) > 2:
        return False                 # drawn with parameters of its own
    if not cs or not any(fn.dominates(i, c) for i in cs):
        return False
    for i in cs:
        if len(i.args) < 3 or nt(fn.E(i.args[1])) != ("c", 0):
            return False
        for x, g in alts(fn, fn.E(i.args[2])):
            if nlin(x).get(1) == -1 and any(is_size(nt(k)) and f == 1 for k, f in nlin(x).items() if k != 1) and len(nlin(x)) == 2:
                continue
            # nothing to draw from
            if x == ("c", 0):
                continue
            return False
    return True


def picks(fn, e):
    """The draws a value comes from; None if it may be something else."""
    out = []
    for x, _ in alts(fn, e):
        if x[0] == "call" and re.search(DRAW, x[1]):
            out.append(fn.ins[x[2]])
        else:
            return None
    return out or None


def held(fn, a, at):
    """The value in a local passed by reference."""
    b = split(fn.E(a))[0]
    ss = [s for s in fn.all("store") if split(fn.E(s.ops[1])) == (b, 0, ())]
    return [fn.E(s.ops[0]) for s in ss if fn.path(s, at, avoid=[x for x in ss if x is not s])]


def same_pick(fn, vals, idx):
    i = nt(idx)
    return bool(vals) and all(nt(v) == i for v in vals)


def enough(ctx, fn, name, ds, is_size, is_count):
    def ok(a):
        if a[0] != "cmp":
            return False
        l, r = nt(a[2]), nt(a[3])
        return a[1] in ("ule", "ult", "eq") and is_count(l) and is_size(r) or a[1] in ("uge", "ugt", "eq") and is_size(l) and is_count(r)
    for k, d in enumerate(ds):
        p = fn.path(None, d, cut=fn.cut_for(ok))
        ctx.ob("enough", f"{name}: draw {k + 1}", p is None, d.where, "drawing distinct elements can start when there are fewer elements than wanted, and then never ends")


def fresh_edge(fn, idx, neg):
    """Edges taken only if idx had not been picked before."""
    def pred(a):
        if a[0] not in ("true", "false", "cmp"):
            return False
        for x in walk(a[1] if a[0] != "cmp" else a[2]):
            if isinstance(x, tuple) and x and x[0] == "call" and re.search(SET, x[1]):
                c = fn.ins[x[2]]
                m = x[1].split("::")[-1]
                if len(c.args) < 2:
                    continue
                if not same_pick(fn, held(fn, c.args[1], c), idx) and nt(fn.E(c.args[1])) != nt(idx):
                    continue
                zero = a[0] == "cmp" and nt(a[3]) == ("c", 0)
                if m in ("contains", "count"):
                    return a[0] == "false" or zero and a[1] == "eq"
                if m in ("insert", "emplace"):
                    return a[0] == "true" or zero and a[1] == "ne"
                if m == "find" and a[0] == "cmp" and a[1] == "eq":
                    return any(isinstance(y, tuple) and y and y[0] == "call" and y[1].endswith("::end") for y in walk(a[3]))
        return False
    return fn.cut_for(pred)


def train(ctx, fn, size, count):
    is_size = lambda e: nt(e) == nt(size)
    is_count = lambda e: nt(e) == nt(count)
    ds = draws(fn)
    for k, d in enumerate(ds):
        ctx.ob("range", f"k-means: draw {k + 1}", in_range(fn, d, is_size), d.where, "the interval drawn from is not that of the dataset's indices")
    enough(ctx, fn, "k-means", ds, is_size, is_count)
    # element reads: rows of the dataset copied into centroids
    data = ("ld", ("arg", 2))
    uses = []
    for s in fn.all("store"):
        if s.b in fn.cold:
            continue
        for x in walk(fn.E(s.ops[0])):
            if isinstance(x, tuple) and x and x[0] == "ld":
                for r in rows(fn, x[1], data):
                    uses.append((s, r))
    ctx.ob("range", "k-means: initial centroids are elements", bool(uses), fn.label, "no element of the dataset is copied into the centroids")
    for k, (s, r) in enumerate(uses):
        p = picks(fn, r)
        ctx.ob("range", f"k-means: initial centroid {k + 1}", p is not None, s.where, "a centroid is initialised from an element that was not drawn")
        if p is None:
            continue
        ctx.ob("distinct", f"k-means: initial centroid {k + 1} is new", all(fn.path(d, s, cut=fresh_edge(fn, r, False)) is None for d in p), s.where, "a drawn element is used without testing that it was not picked before")
        rec = [c for c in fn.calls() if re.search(SET + r"(insert|emplace)$", c.name) and len(c.args) > 1 and (same_pick(fn, held(fn, c.args[1], c), r) or nt(fn.E(c.args[1])) == nt(r))]
        ok = bool(rec) and all(all(fn.path(d, s, avoid=rec) is None for d in p) or all(fn.path(s, d, avoid=rec) is None for d in ds) for _ in (0,))
        ctx.ob("distinct", f"k-means: initial centroid {k + 1} is recorded", ok, s.where, "a picked element can be picked again: it is not recorded before the next draw")
        loops = [l for l in fn.loops_of(s) for ph, ini, bound, st in counted(fn, l) if st == 1 and not ini and [x for x in bound if x != 1] and is_count(next(iter(x for x in bound if x != 1))) and not bound.get(1) and len(bound) == 1]
        ctx.ob("count", f"k-means: initial centroid {k + 1} for every cluster", bool(loops), s.where, "not one initial centroid per cluster")


def rows(fn, a, data):
    """Row index expressions of an address inside the dataset."""
    out = []
    seen = set()

    def go(a):
        if a in seen:
            return
        seen.add(a)
        b, o, v = split(a)
        if b[0] == "phi" and b[1] in fn.ins:
            for x, _ in fn.ins[b[1]].r["inc"]:
                go(fn.E(x))
        elif b == data:
            for e, s in v:
                e = nt(e)
                if e[0] == "bin" and e[1] == "mul":
                    for x, y in ((e[2], e[3]), (e[3], e[2])):
                        if nt(x) == ("ld", ("addr", ("arg", 2), 8, ())):
                            out.append(nt(y))
                            return
    go(a)
    return out


def select(ctx, fn, size, count):
    is_size = lambda e: strip(fn, e) == size
    is_count = lambda e: strip(fn, e) == count
    ds = draws(fn)
    ctx.ob("range", "centroids: drawn at random", bool(ds), fn.label, "no draw")
    for k, d in enumerate(ds):
        ctx.ob("range", f"centroids: draw {k + 1}", in_range(fn, d, is_size), d.where, "the interval drawn from is not that of the dataset's indices")
    enough(ctx, fn, "centroids", ds, is_size, is_count)
    # the result: (begin, end) of a set filled with draws, or elements pushed once known to be new
    res = [c for c in fn.calls() if re.search(r"std::vector::(vector|assign|insert)$", c.name) and any(re.search(SET + "(c?begin)$", x[1]) for a in c.args for x in walk(fn.E(a)) if isinstance(x, tuple) and x and x[0] == "call")]
    push = [c for c in fn.calls() if re.search(r"std::vector::(push_back|emplace_back)$", c.name)]
    if res:
        for c in res:
            bs = [fn.ins[x[2]] for a in c.args for x in walk(fn.E(a)) if isinstance(x, tuple) and x and x[0] == "call" and re.search(SET + "c?(begin|end)$", x[1])]
            objs = {split(fn.E(b.args[0]))[0] for b in bs}
            ok = len(objs) == 1 and {b.name.split("::")[-1].lstrip("c") for b in bs} == {"begin", "end"}
            ctx.ob("distinct", "centroids: all members of one set are returned", ok, c.where, "the result is not the whole set of different draws")
            o = next(iter(objs)) if objs else None
            ins = [i for i in fn.calls() if re.search(SET + r"(insert|emplace)$", i.name) and split(fn.E(i.args[0]))[0] == o]
            for k, i in enumerate(ins):
                vs = held(fn, i.args[1], i) or [fn.E(i.args[1])]
                ctx.ob("range", f"centroids: member {k + 1}", all(picks(fn, v) for v in vs), i.where, "a member of the result was not drawn")

            def full(a):
                if a[0] != "cmp":
                    return False
                sz = lambda e: e[0] == "call" and re.search(SET + "size$", e[1]) and split(fn.E(fn.ins[e[2]].args[0]))[0] == o
                l, r = nt(a[2]), nt(a[3])
                return a[1] in ("uge", "eq") and sz(l) and is_count(r) or a[1] in ("ule", "eq") and is_count(l) and sz(r)
            ctx.ob("count", "centroids: as many as asked for", fn.path(None, c, cut=fn.cut_for(full)) is None, c.where, "drawing can stop before there are as many different centroids as asked for")
            dn = [x for x in fn.calls() if re.search(SET + r"(erase|clear)$", x.name) and split(fn.E(x.args[0]))[0] == o]
            ctx.ob("count", "centroids: none taken back", not dn, c.where, "members are removed again")
            v = split(fn.E(c.args[0]))[0]
            bad = [x for x in fn.calls() if re.search(r"std::vector::(pop_back|erase|clear|resize|push_back|emplace_back|insert)$", x.name) and x is not c and split(fn.E(x.args[0]))[0] == v]
            ctx.ob("count", "centroids: the result is not cut", not bad, c.where, "the result is changed in size after it was made")
    else:
        ctx.ob("count", "centroids: result", bool(push), fn.label, "the drawn elements are not returned")
        for k, c in enumerate(push):
            vs = held(fn, c.args[1], c) or [fn.E(c.args[1])]
            p = [d for v in vs for d in (picks(fn, v) or [None])]
            ctx.ob("range", f"centroids: member {k + 1}", None not in p, c.where, "a member of the result was not drawn")
            if None in p:
                continue
            v = vs[0]
            ctx.ob("distinct", f"centroids: member {k + 1} is new", all(fn.path(d, c, cut=fresh_edge(fn, v, False)) is None for d in p), c.where, "a drawn element is used without testing that it was not picked before")
            rec = [i for i in fn.calls() if re.search(SET + r"(insert|emplace)$", i.name)]
            ctx.ob("distinct", f"centroids: member {k + 1} is recorded", bool(rec) and (all(fn.path(d, c, avoid=rec) is None for d in p) or all(fn.path(c, d, avoid=rec) is None for d in ds)), c.where, "a picked element can be picked again")


def picker(ctx, fn):
    cs = fn.calls(r"randomly_select_centroids$")
    ctx.ob("range", "centroids of a dataset: drawn", bool(cs), fn.label, "the centroids are not drawn by the sampling routine")
    for c in cs:
        a = [x for x in c.args if not (c.r.get("sret") and x is c.args[0])]
        x = 1 if fn.r["args"][0].get("sret") else 0
        ctx.ob("range", "centroids of a dataset: number of elements", strip(fn, fn.E(a[0])) == ("ld", ("addr", ("arg", x), 24, ())), c.where, "the sampling routine is not given the number of elements of the dataset")
