"""C18 - better and worse are decided by the distance's own order. The same template code is analysed as instantiated for a
smaller-is-better and for two larger-is-better distances, standard algorithms included: every ordering comparison of
floating-point values found in one instantiation must appear with the opposite sense in the other, in each function analysed.
A hard-wired order shows as a comparison that does not turn. In addition the orders, sentinels and search bounds of the
distances are compared with what they stand for, candidate lists are sorted over their whole length before they are cut or
pruned, and the exhaustive search sorts every row before handing it out."""
import re
from collections import Counter
from ..lib import *
from .. import dyn
from ..ir import lin, ladd, walk
from . import c04, c14
from .c05 import callargs

FLIP = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
WHOLE_SORT = "opaque ^std::(sort|stable_sort|partial_sort|sort_heap)$\n"
STD = "inline ^std::(sort|lower_bound|upper_bound|equal_range|stable_sort|.*heap.*|max|min|minmax|max_element|min_element|nth_element|partial_sort|merge|inplace_merge|is_sorted|__)\n"
TOTAL = "entry {0} ^h_{0}\\(((?!\\)::).)*$\n"
L2, IP, COS = "svs::distance::DistanceL2", "svs::distance::DistanceIP", "svs::distance::DistanceCosineSimilarity"
OPQ = "opaque ^svs::distance::compute$\nmodel ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run\nopaque ^svs::threads::NativeThreadPoolBase::\nopaque ^svs::data::SimpleData::(?!get_datum)\nopaque ^svs::lib::(Timer|as_seconds|narrow)\n"


def entries(h):
    from .. import run
    import os
    t = open(os.path.join(run.ROOT, "harness", h)).read()
    return "".join(TOTAL.format(n) for n in re.findall(r"^[\w:<>*&, ]+ h_(\w+)\(", t, re.M))


FAMILIES = [
    ("greedy.cpp", "inline ^svs::index::\n" + OPQ + "{E}", (L2, IP, COS)),
    ("flat.cpp", "inline ^svs::index::\n" + OPQ + "{E}", (L2, IP, COS)),
    ("inverted.cpp", "inline ^svs::index::\n" + OPQ + "{E}", (L2, IP)),
    ("builder.cpp", c14.POL, (L2, IP, COS)),
    ("static.cpp", dyn.POLICY + "opaque ^svs::index::vamana::(greedy_search|VamanaBuilder::(?!VamanaBuilder$))\n" + dyn.entries("search", "build"), (L2, IP, COS)),
    ("dynamic.cpp", c04.MAIN + dyn.entries("exhaustive", "search"), (L2, IP, COS)),
]
PRUNES = [f"{s}_{d}" for s in ("Iterative", "Progressive", "Legacy") for d in ("l2", "ip")]
ORD = [f"{k}_{x}" for k in ("cmp", "obj") for x in ("l2", "ip", "cos")] + [f"{k}_{x}" for k in ("lt", "gt") for x in ("plain", "visit", "valid")] + \
    [f"{k}_{x}" for k in ("sent", "tomb", "sent_int", "tomb_int", "sent_nb") for x in ("less", "greater")] + ["bound_l2", "bound_ip"]


def check(ctx):
    ctx.rule("mirror", "every ordering comparison of distances in code instantiated for a smaller-is-better distance appears reversed in the same code instantiated for a larger-is-better distance")
    ctx.rule("extreme", "constants standing for the worst or best possible distance turn with the distance")
    ctx.rule("named", "no code instantiated for one kind of distance ranks candidates with the fixed order of the other kind")
    ctx.rule("order", "the order of a distance is the one its kind needs: smaller first for Euclidean, larger first for inner product and cosine; neighbours compare by distance")
    ctx.rule("sentinel", "the value standing for 'worse than everything' (or 'no worse than anything') is the right extreme of the order it is used with")
    ctx.rule("bound", "the cut-off derived from the closest distance is never better than that distance, for either kind")
    ctx.rule("sorted", "a list of candidates is sorted over its whole length after the last candidate was added and before it is cut or pruned")
    ctx.rule("final", "the exhaustive search sorts every row of collected candidates before any row is handed out, and collects nothing afterwards")
    jobs, key = [], []
    for h, pol, ds in FAMILIES:
        for d in ds:
            jobs.append((h, STD + pol.replace("{E}", entries(h)), {"extra": ["-DDIST=" + d]}))
            key.append((h, d))
    for c in ("std::less<>", "std::greater<>"):
        jobs.append(("buffer.cpp", STD + "inline ^svs::index::\n" + BUF, {"extra": ["-DCMP=" + c]}))
        key.append(("buffer.cpp", c))
    jobs.append(("prune.cpp", STD + OPQ + "".join(TOTAL.format(n) for n in PRUNES)))
    jobs.append(("order.cpp", "".join(TOTAL.format(n) for n in ORD)))
    dist = {"extra": ["-DDIST=" + L2]}
    jobs.append(("builder.cpp", WHOLE_SORT + c14.POL, dist))
    jobs.append(("dynamic.cpp", WHOLE_SORT + c04.MAIN, dist))
    jobs.append(("flat.cpp", FLATP, dist))
    jobs = [(j[0], j[1], dict(j[2] if len(j) > 2 else {}, pch=True)) for j in jobs]
    ms = ctx.analyse_all(jobs)
    by = dict(zip(key, ms))
    for h, _, ds in FAMILIES:
        for d in ds[1:]:
            pair(ctx, h, by[h, ds[0]], by[h, d], d)
        for d in ds:
            named(ctx, h, by[h, d], d == L2, d)
    a, b = by["buffer.cpp", "std::less<>"], by["buffer.cpp", "std::greater<>"]
    pair(ctx, "buffer.cpp", a, b, "std::greater")
    named(ctx, "buffer.cpp", a, True, "std::less")
    named(ctx, "buffer.cpp", b, False, "std::greater")
    mp, mo, mb, md, mf = ms[len(key):]
    for s in ("Iterative", "Progressive", "Legacy"):
        mirror(ctx, f"prune.cpp {s}", ctx.one(mp, s + "_l2"), ctx.one(mp, s + "_ip"), "DistanceIP")
    orders(ctx, mo)
    for l in ("generate", "reverse"):
        sorted_lists(ctx, ctx.one(mb, l))
    sorted_lists(ctx, ctx.one(md, "consolidate"))
    final(ctx, mf)
    ctx.minimum("mirror", 40)
    ctx.minimum("sorted", 3)


BUF = "".join(TOTAL.format(f"{p}_{e}") for p in "sm" for e in ("insert", "can_skip", "change_maxsize", "change_config")) + TOTAL.format("m_cleanup")
FLATP = "opaque ^svs::index::flat::BulkInserter::\nopaque ^svs::index::flat::FlatIndex::search_subset$\nopaque ^std::(sort_heap|sort|stable_sort|push_heap|pop_heap|lower_bound|copy_backward)$\n" + OPQ + \
    "model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run\n" + "".join(TOTAL.format(n) for n in ("search", "search_pred")) + \
    "".join(TOTAL.format(n) + "+inline ^svs::index::flat::BulkInserter::\n" for n in ("bi_cleanup", "bi_insert"))


# ------------------------------------------------------------------ instantiations compared
def distance_like(fn, e, d=0):
    """The value may be a distance: it is not a constant, a count, or a time."""
    if not isinstance(e, tuple) or not e:
        return False
    k = e[0]
    if k in ("cf", "c", "uitofp", "sitofp"):
        return False
    if k == "call":
        return not re.search(r"narrow|as_seconds|[Tt]imer|chrono|log|sqrt", e[1]) if isinstance(e[1], str) else True
    if k == "bin":
        return any(distance_like(fn, x, d + 1) for x in e[2:])
    if k in ("fpext", "fptrunc", "fneg", "cast"):
        return any(distance_like(fn, x, d + 1) for x in e[1:])
    return True


def preds(fn):
    out, where = Counter(), {}
    for i in fn.all("fcmp"):
        p = i.r["pred"]
        if p not in FLIP:
            continue
        es = [fn.E(a) for a in i.ops]
        if any(e[0] in ("cf", "c") for e in es) or not all(distance_like(fn, e) for e in es):
            continue
        out[p] += 1
        where.setdefault(p, []).append(i.where)
    return out, where


def mirror(ctx, inst, f, g, d):
    a, wa = preds(f)
    b, wb = preds(g)
    # only the sense counts: x < y and y > x are the same comparison, so compare the multiset of senses function by function
    want = Counter({FLIP[p]: n for p, n in a.items()})
    ok = want == b
    why, w = "", (wa.get(next(iter(a), None)) or [""])[0]
    if not ok:
        bad = [p for p in b if b[p] > want.get(p, 0)]
        lines = Counter(x for p in bad for x in wb[p])
        # point at lines whose comparisons do not turn with the distance
        fixed = [l for l in lines if any(l in wa.get(p, []) for p in bad)]
        w = (fixed or list(lines) or [f.where if hasattr(f, "where") else inst])[0]
        why = f"comparisons {dict(a)} for the smaller-is-better instantiation, {dict(b)} for {short_d(d)}"
    ctx.ob("mirror", f"{inst} {f.label} / {short_d(d)}", ok, w, why)
    (a, wa), (b, wb) = extremes(f), extremes(g)
    if a or b:
        ctx.ob("extreme", f"{inst} {f.label} / {short_d(d)}", a == Counter({not s: n for s, n in b.items()}), next(iter({**wa, **wb}.values())),
               f"uses {dict(a)} (positive: count) for the smaller-is-better instantiation and {dict(b)} for {short_d(d)}")


def extremes(fn):
    """Signs of the largest-magnitude constants the function uses (sentinels)."""
    out, where = Counter(), {}

    def add(v, i):
        if abs(float(v)) >= 3.4e38:
            s = float(v) > 0
            out[s] += 1
            where.setdefault(s, i.where)
    for i in fn.all():
        for o in list(i.r.get("ops") or []) + list(i.r.get("args") or []) + [x[0] for x in i.r.get("inc") or []]:
            if not isinstance(o, dict):
                continue
            if "cf" in o:
                add(o["cf"], i)
            g = fn.mod.glob.get(o["g"], o) if "g" in o else {}
            for v in o.get("fp") or g.get("fp") or []:
                add(v, i)
    return out, where


def short_d(d):
    return d.split("::")[-1]


def pair(ctx, h, m, n, d):
    gs = {g.label: g for g in n.fns}
    for f in m.fns:
        if f.label in gs:
            mirror(ctx, h, f, gs[f.label], d)


RANK = r"Neighbor|Buffer|Inserter|[Ss]entinel|[Tt]omb|prune|Consolidat|Vamana|flat"


def named(ctx, h, m, smaller, d):
    bad = []
    wrong = "greater" if smaller else "less"
    for f in m.fns:
        for i in f.calls():
            t = i.r.get("d") or ""
            if f"std::{wrong}<void>" in t and re.search(RANK, t) and not (smaller is False and "DistanceL2" in t):
                bad.append((i.where, t[:120]))
        for i in f.all():
            for o in list(i.ops or []) + list(i.r.get("args") or []):
                g = o.get("g") if isinstance(o, dict) else None
                if g and re.search(r"St\d" + wrong + "IvE", g) and re.search(RANK, g):
                    bad.append((i.where, g[:160]))
    ctx.ob("named", f"{h} for {short_d(d)}", not bad, bad[0][0] if bad else "", f"uses {bad[0][1]}" if bad else "")


# ------------------------------------------------------------------ the orders themselves
def orders(ctx, m):
    def ret(l):
        f = ctx.one(m, l)
        rs = [i for i in f.all("ret") if i.ops]
        return f, (f.E(rs[0].ops[0]) if len(rs) == 1 else None)

    def sense(e, x, y):
        """'lt' / 'gt': what the comparison says about x against y."""
        if e and e[0] in ("zext", "cast") and len(e) > 1:
            e = e[-1]
        if not e or e[0] != "cmp" or e[1] not in FLIP:
            return None
        p = e[1] if (e[2], e[3]) == (x, y) else FLIP[e[1]] if (e[3], e[2]) == (x, y) else None
        return {"olt": "lt", "ogt": "gt"}.get(p)
    for t, want in (("l2", "lt"), ("ip", "gt"), ("cos", "gt")):
        for k, o in (("cmp", 0), ("obj", 1)):
            f, e = ret(f"{k}_{t}")
            ctx.ob("order", f"{k} {t}", sense(e, ("arg", o), ("arg", o + 1)) == want, "include/svs/core/distance", f"order of {t} is {e}")
    for k, want in (("lt", "lt"), ("gt", "gt")):
        for t in ("plain", "visit", "valid"):
            f, e = ret(f"{k}_{t}")
            ok = bool(e) and e[0] == "cmp" and e[2][0] == "ld" and e[3][0] == "ld"
            if ok:
                (b1, o1, v1), (b2, o2, v2) = split(e[2][1]), split(e[3][1])
                if b1 == ("arg", 0):
                    s = sense(e, e[2], e[3])
                else:
                    s = sense(e, e[3], e[2])
                ok = {b1, b2} == {("arg", 0), ("arg", 1)} and o1 == o2 and not v1 and not v2 and s == want
            ctx.ob("order", f"{k} {t} neighbours", ok, "include/svs/lib/neighbor.h", f"operator compares {e}")
    big = {"": 3.4e38, "int": 2147483647, "nb": 3.4e38}
    for c in ("less", "greater"):
        for k, sgn in (("sent", 1), ("tomb", -1)):
            for t in ("", "int", "nb"):
                if (k, t) == ("tomb", "nb"):
                    continue
                f, e = ret("_".join(x for x in (k, t, c) if x))
                v = float(e[1]) if e and e[0] in ("cf", "c") else None
                s = sgn if c == "less" else -sgn
                ctx.ob("sentinel", f"{k} {t} {c}".replace("  ", " "), v is not None and v * s >= big[t], "include/svs/lib/type_traits.h", f"value {e}")
    for t, sgn in (("l2", 1), ("ip", -1)):
        f, e = ret("bound_" + t)
        ok = True
        for x, eps in ((4.0, 0.0), (4.0, 0.5), (4.0, 3.0), (0.25, 1.0)):
            v = ev(e, {0: x, 1: eps})
            ok = ok and v is not None and (v - x) * sgn >= 0 and (eps == 0 or v != x)
        ctx.ob("bound", t, ok, "include/svs/index/inverted/clustering.h", f"bound is {e}")


def ev(e, env):
    """Value of a closed arithmetic expression over the arguments."""
    if not e:
        return None
    k = e[0]
    if k == "arg":
        return env.get(e[1])
    if k in ("cf", "c"):
        return float(e[1])
    if k in ("fpext", "fptrunc"):
        return ev(e[1], env)
    if k == "fneg":
        v = ev(e[1], env)
        return None if v is None else -v
    if k == "bin":
        a, b = ev(e[2], env), ev(e[3], env)
        if a is None or b is None:
            return None
        return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b if b else None}.get(e[1], lambda: None)()
    return None


# ------------------------------------------------------------------ sorted before cut or pruned
SORT = r"^std::(sort|stable_sort|partial_sort|ranges::sort|sort_heap|__sort)$"


def spans(fn, c):
    """Vectors whose storage the call receives as a span (or by reference)."""
    out = []
    for x in callargs(fn, c):
        e = fn.E(x)
        for y in [e] + ([val_at(fn, x, c)] if fn_is_ptr(fn, x) else []):
            if y and y[0] == "ld":
                out.append(y[1])
    return out


def sorted_lists(ctx, fn):
    adds = [c for c in fn.calls(r"vector::(push_back|emplace_back|insert)$")]
    prunes = fn.calls(r"heuristic_prune_neighbors$")
    ctx.ob("sorted", f"{fn.label}: candidates are pruned", bool(prunes), fn.label, "no pruning of candidates found")
    for p in prunes:
        pools = [v for v in spans(fn, p) if any(fn.E(callargs(fn, a)[0]) == v for a in adds)]
        ctx.ob("sorted", f"{fn.label}: list handed to the pruning", bool(pools), p.where, "the pruning does not receive a list of collected candidates")
        for v in pools[:1]:
            b, o, var = split(v)
            mine = [a for a in adds if fn.E(callargs(fn, a)[0]) == v]
            uses = [p] + [c for c in fn.calls(r"vector::(resize|erase|pop_back)$") if fn.E(callargs(fn, c)[0]) == v]
            ss = [c for c in fn.calls(SORT) if whole(fn, c, v)]
            cut = {c.b for c in ss}
            for u in uses:
                ok = bool(ss) and all(not reaches_without(fn, a, u, ss) for a in mine)
                ctx.ob("sorted", f"{fn.label}: before {u.name.split("::")[-1]}", ok, u.where, "candidates reach this place without having been sorted over their whole length since the last was added")


def reaches_without(fn, a, u, ss):
    return fn.path(a, lambda i: i is u, cut=fn.unwind_edges(), avoid=list(ss)) is not None


def whole(fn, c, v):
    """The call sorts the full range of the vector at v."""
    b, o, var = split(v)
    es = [fn.E(x) for x in callargs(fn, c)]
    def is_(e, off):
        if e[0] != "ld":
            return False
        bb, oo, vv = split(e[1])
        return (bb, vv) == (b, var) and oo == o + off
    ld = [e for e in es if e[0] == "ld"]
    if c.name.endswith("partial_sort"):
        return len(ld) >= 2 and is_(es[0], 0) and is_(es[2], 8)
    return any(is_(e, 0) for e in es[:2]) and any(is_(e, 8) for e in es[:2])


# ------------------------------------------------------------------ the exhaustive search
def final(ctx, m):
    heap = m.get("bi_insert") and ctx.one(m, "bi_insert").calls(r"^std::(push|pop|make)_heap$")
    for l in ("search", "search_pred"):
        fn = ctx.one(m, l)
        cl, rs = fn.calls(r"BulkInserter::cleanup$"), fn.calls(r"BulkInserter::(result|view)$")
        pr, sub = fn.calls(r"BulkInserter::prepare$"), fn.calls(r"(search_subset|BulkInserter::insert)$")
        ctx.ob("final", f"{l}: rows handed out", bool(rs), l, "no row of the collected candidates is read")
        for r in rs:
            ctx.ob("final", f"{l}: cleanup before result", bool(cl) and must_pass(fn, r, {c.b for c in cl}), r.where, "rows are handed out without having been sorted")
        for s in sub:
            ctx.ob("final", f"{l}: prepared before {s.name.split("::")[-1]}", bool(pr) and must_pass(fn, s, {c.b for c in pr}), s.where, "candidates are collected in rows that were not prepared")
            ctx.ob("final", f"{l}: nothing collected after cleanup", not any(fn.path(c, lambda i: i is s, cut=fn.unwind_edges()) for c in cl + rs), s.where, "candidates are collected after the rows were sorted")
    if not heap:
        return
    fn = ctx.one(m, "bi_cleanup")
    ss = fn.calls(r"^std::(sort_heap|sort|stable_sort)$")
    ok = any(every_iteration(fn, l, c) and any(not lo and st == 1 and full_row(fn, c, phi, hi) for phi, lo, hi, st, _ in loop_bounds(fn, l)) for c in ss for l in fn.loops_of(c))
    ctx.ob("final", "cleanup sorts every row", ok, ss[0].where if ss else "include/svs/index/flat/inserters.h", "rows kept as heaps are not all sorted over their whole length")


def full_row(fn, c, phi, hi):
    """[base + phi * width, base + (phi + 1) * width) for every phi below the number of rows."""
    es = [fn.E(x) for x in callargs(fn, c)[:2]]
    ph = fn.E({"v": phi.id}) if not isinstance(phi, tuple) else phi
    if len(hi) != 1 or list(hi.values()) != [1] or list(hi)[0][0] != "ld" or len(es) < 2:
        return False
    d = ladd(lin(es[1]), lin(es[0]), -1)
    if len(d) != 1:
        return False
    (w, k), = d.items()
    row = [x for x in walk(es[0]) if isinstance(x, tuple) and x and x[0] == "bin" and x[1] == "mul" and set(x[2:4]) == {w, ph}]
    return w[0] == "ld" and w != list(hi)[0] and bool(row)
