"""C20 - every query gets its own full row of results. On every search path (graph search over static and mutable indexes,
exhaustive search, inverted index) the writes into the caller's result arrays are resolved to (row, column, candidate): the row
is the query of this iteration of the worker's share of all queries, the columns run over all requested neighbours, id and
distance come from the same candidate, and that candidate was collected for this query in this iteration (or in the row kept
for this query)."""
import re
from ..lib import *
from ..renum import nt, nlin, nsame, share, covers_index, each_or, number, nothing_to_share, counted
from ..ir import lin, ladd, walk
from .. import dyn
from . import c18
from .c05 import callargs
from .c14 import job_of

TOTAL = c18.TOTAL
BASE = """opaque ^svsa::
model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run
opaque ^svs::threads::(NativeThreadPoolBase::|balance)
opaque ^svs::lib::(Timer|as_seconds)
opaque ^svs::index::vamana::(greedy_search$|SearchBuffer::(?!operator)|MutableBuffer::(?!operator)|OptionalTracker)
opaque ^svs::index::flat::(BulkInserter::(insert|prepare|cleanup)$|FlatIndex::search_subset$)
opaque ^svs::(distance|IDTranslator)::
opaque translate_to_external
inline ^svs::(index::vamana::(VamanaIndex|MutableVamanaIndex|extensions)|index::inverted|data|DenseArray)::
"""
Q = {"static": ("static.cpp", "search", 1, 2), "dynamic": ("dynamic.cpp", "search", 1, 2), "exhaustive": ("dynamic.cpp", "exhaustive", 2, 1), "flat": ("flat.cpp", "search", 1, 2),
     "flat with predicate": ("flat.cpp", "search_pred", 1, 2), "inverted": ("inverted.cpp", "search", 1, 2)}


def check(ctx):
    ctx.rule("row", "ids and distances go to row i, column j of the caller's arrays for every query i of every worker's share and every j below the number of neighbours")
    ctx.rule("pair", "id and distance written together come from the same candidate, and every candidate carries the distance between the query and the vector its id names")
    ctx.rule("fresh", "the candidates written for a query were collected for that query since the loop reached it, or are kept in that query's own row")
    ctx.rule("room", "before the search the candidate buffer holds at least as many candidates as neighbours are requested")
    ctx.rule("shape", "a result allocated by the library has one row per query and one column per requested neighbour")
    E = lambda *ns: "".join(TOTAL.format(n) for n in ns)
    jobs = [("static.cpp", BASE + dyn.entries("search", "batch")), ("dynamic.cpp", BASE + dyn.entries("search", "exhaustive")), ("flat.cpp", BASE + E("search", "search_pred", "patch", "bi_insert") + "+inline ^svs::index::flat::\n"),
            ("inverted.cpp", BASE + E("search")), ("greedy.cpp", BASE.replace("greedy_search$|", "") + E("greedy_static", "greedy_dynamic"))]
    ms = dict(zip(("static.cpp", "dynamic.cpp", "flat.cpp", "inverted.cpp", "greedy.cpp"), ctx.analyse_all([(h, p, {"pch": True}) for h, p in jobs])))
    for name, (h, l, r, q) in Q.items():
        rows(ctx, name, ctx.one(ms[h], l), ("arg", r), ("arg", q))
    nearest_first(ctx, ctx.one(ms["inverted.cpp"], "search"))
    for l in ("greedy_static", "greedy_dynamic"):
        candidates(ctx, f"graph search {l[7:]}", ctx.one(ms["greedy.cpp"], l), r"Buffer::(push_back|insert)$", ("arg", 3))
    candidates(ctx, "exhaustive search", ctx.one(ms["flat.cpp"], "patch"), r"BulkInserter::insert$", None)
    own_row(ctx, ctx.one(ms["flat.cpp"], "bi_insert"))
    shape(ctx, ctx.one(ms["static.cpp"], "batch"))
    ctx.minimum("row", 20)
    ctx.minimum("pair", 10)
    ctx.minimum("room", 3)


# ------------------------------------------------------------------ where results go
def rowcol(fn, a):
    """(pointer, stride, row, column, element size, rest) of an element of a two dimensional array."""
    b, o, v = split(a)
    if b[0] != "ld" and b[0] != "call":
        return None
    mul = [(e, s) for e, s in v if product(e)]
    col = [(e, s) for e, s in v if not product(e)]
    if len(mul) > 1 or len(col) > 1:
        return None
    st = row = None
    if mul:
        x, y = product(mul[0][0])
        st, row = (x, y) if is_dim(x) else (y, x)
    size = (mul or col)[0][1] if (mul or col) else None
    if any(s != size for _, s in v):
        return None
    return b, st, row, col[0][0] if col else ("c", 0), size, o


def product(e):
    e = nt(e)
    return (e[2], e[3]) if e[0] == "bin" and e[1] == "mul" else None


def is_dim(e):
    return e[0] == "ld"


def arr(fn, R, a):
    rc = rowcol(fn, a)
    if rc is None or rc[0][0] != "ld":
        return None
    r = root(fn, rc[0][1])
    return (r[1], rc) if r is not None and r[0] == R else None


def rows(ctx, name, fn, R, QA):
    out = []
    for i in fn.all("store"):
        if i.b in fn.cold:
            continue
        r = root(fn, fn.E(i.ops[1]))
        if r is None or r[0] != R or split(fn.E(i.ops[1]))[0][0] == "arg":
            continue
        a = arr(fn, R, fn.E(i.ops[1]))
        if not ctx.ob("row", f"{name}: write to the result", a is not None and a[1][2] is not None, i.where, "the place written in the result is not an element of row i, column j"):
            continue
        out.append((i, *a))
    offs = sorted({o for _, o, _ in out})
    if not ctx.ob("row", f"{name}: ids and distances", len(offs) == 2, fn.label, "a search writes both the ids and the distances"):
        return
    dims = lambda e: is_dim(e) and (root(fn, e[1]) or (None,))[0] == R
    done = {}
    for st, o, (b, stride, row, col, size, rest) in out:
        nm = f"{name} {'distances' if size == 4 else 'ids'}"
        s = nt(stride)
        ctx.ob("row", f"{nm}: stride", dims(s) and root(fn, s[1])[1] == o + 8 and rest == 0, st.where, "rows are not a full row of this array apart")
        sh = share(fn, st, row)
        ok = sh is not None and queries(fn, sh.n, R, QA)
        if ctx.ob("row", f"{nm}: every query", ok, st.where, "the rows written are not the worker's share of all queries"):
            ecut = fn.unwind_edges() | {(x, y) for x, y in fn.edges() if any(nothing_to_share(fn, a) or no_queries(fn, a, R, QA) for a in fn.edge_atoms(x, y))}
            heads = [fn.blocks[h][0] for h in sh.heads]
            w = job_of(fn, st)
            ctx.ob("row", f"{nm}: never skipped", w is None or fn.path(w, is_end(fn, w), cut=ecut, avoid=heads) is None, st.where, "a worker may leave out its queries")
            inner = covers_index(fn, st, col, {}, lambda l: len(l) == 1 and all(c == 1 and k != 1 and dims(k) and root(fn, k[1])[1] in {x + 8 for x in offs} for k, c in l.items()))
            ctx.ob("row", f"{nm}: every rank", inner is not None and every_iteration(fn, inner, st) and each_or(fn, sh.loop, fn.blocks[inner.head][0], lambda a: none_asked(fn, a, R)), st.where,
                   "some rank of the row may not be written")
        v = fn.E(st.ops[0])
        src = rowcol(fn, v[1]) if v[0] == "ld" else None
        if not ctx.ob("pair", f"{nm}: value", src is not None and nsame(src[3], col), st.where, "the value written at rank j is not taken from the candidate number j"):
            continue
        done.setdefault((canon_(row), canon_(col)), []).append((st, v, src, size))
        fresh(ctx, nm, fn, st, src, row, sh, QA, R)
    for k, l in done.items():
        a = [x for x in l if x[3] == 8]
        b = [x for x in l if x[3] != 8]
        ok = bool(a) and bool(b) and all(x[2][:5] == y[2][:5] or same_place(x[2], y[2]) for x in a for y in b) and all(x[2][5] != y[2][5] for x in a for y in b)
        ctx.ob("pair", f"{name}: id and distance", ok, (a or b)[0][0].where, "id and distance are not taken from the same candidate")


def canon_(e):
    return repr(nt(e))


def same_place(x, y):
    return x[0] == y[0] and x[4] == y[4] and all((p is None) == (q is None) and (p is None or nsame(p, q)) for p, q in zip(x[1:4], y[1:4]))


def is_end(fn, w):
    """Where the work of the worker is over: another worker starts, or the search returns."""
    return lambda i: i.op == "ret" or (i.is_call and i is not w and re.search(r"svsa_any_worker$", i.name or ""))


def queries(fn, n, R, QA):
    n = nt(n)
    if n[0] != "ld":
        return False
    r = root(fn, n[1])
    return r is not None and (r[0] == QA and r[1] != 8 or r[0] == R and r[1] in (16, 40))


def no_queries(fn, a, R, QA):
    return a[0] == "cmp" and a[1] in ("eq", "uge", "ule") and any(y == ("c", 0) and queries(fn, number(fn, x), R, QA) for x, y in ((a[2], a[3]), (a[3], a[2])))


def none_asked(fn, a, R):
    if a[0] != "cmp" or a[1] not in ("eq", "ule", "uge"):
        return False
    for x, y in ((a[2], a[3]), (a[3], a[2])):
        x = nt(x)
        if y == ("c", 0) and x[0] == "ld" and (root(fn, x[1]) or (None,))[0] == R:
            return True
    return False


# ------------------------------------------------------------------ what they are taken from
def query_row(fn, c, QA, row):
    """The call is given the vector of query `row`."""
    for a in callargs(fn, c):
        if not fn_is_ptr(fn, a):
            continue
        rc = rowcol(fn, fn.E(a))
        if rc and rc[2] is not None and rc[0][0] == "ld" and (root(fn, rc[0][1]) or (None,))[0] == QA:
            return nsame(rc[2], row) and rc[3] == ("c", 0) and rc[5] == 0
    return None


def buf_of(fn, src):
    b = src[0]
    while b[0] == "ld":
        b = split(b[1])[0]
    return b


def fresh(ctx, nm, fn, st, src, row, sh, QA, R):
    if src[2] is not None:
        # kept in the row of the query
        ctx.ob("fresh", f"{nm}: own row", nsame(src[2], row), st.where, "the row read is not the row of this query")
        s = nt(src[1])
        ok = len_of_row(fn, s, R)
        ctx.ob("room", f"{nm}: rows kept", ok, st.where, "the rows kept while searching are not as long as the rows asked for")
        return
    B = buf_of(fn, src)
    if not ctx.ob("fresh", f"{nm}: candidates", B[0] == "alloca" and sh is not None, st.where, "the candidates do not come from a buffer of this worker"):
        return
    head = fn.blocks[sh.loop.head][0]
    cut = fn.unwind_edges()
    gs = [c for c in fn.calls(r"greedy_search$")]
    mine = [c for c in gs if query_row(fn, c, QA, row)]
    direct = any(uses(fn, c, B) for c in gs)
    ctx.ob("fresh", f"{nm}: searched", bool(mine) and fn.path(head, st, cut=cut, avoid=mine) is None, st.where, "results can be written for a query that was not searched for")
    ctx.ob("fresh", f"{nm}: right query", all(c in mine for c in gs), gs[0].where if gs else st.where, "the search is given another query than the one whose row is written")
    if not direct:
        cl = [c for c in fn.calls(r"Buffer::clear$") if fn.E(callargs(fn, c)[0]) == B]
        ins = [c for c in fn.calls(r"Buffer::(insert|push_back)$") if fn.E(callargs(fn, c)[0]) == B]
        ctx.ob("fresh", f"{nm}: emptied", bool(cl) and fn.path(head, st, cut=cut, avoid=cl) is None and all(fn.path(head, i, cut=cut, avoid=cl) is None for i in ins), st.where, "candidates of an earlier query may remain in the buffer")
        ctx.ob("fresh", f"{nm}: collected", bool(ins) and fn.path(head, st, cut=cut) is not None, st.where, "no candidates are collected")
        for k, i in enumerate(ins):
            d = fn.E(callargs(fn, i)[-1])
            if d[0] == "call":
                ok = query_row(fn, fn.ins[d[2]], QA, row) and pre_iter_(fn, head, i, fn.ins[d[2]])
            else:
                # the distance the graph search found for the centroid
                ok = d[0] == "ld" and any(uses(fn, c, buf_of(fn, (split(d[1])[0],))) and fn.path(head, i, cut=cut, avoid=[c]) is None for c in mine)
            ctx.ob("fresh", f"{nm}: candidate {k}", bool(ok), i.where, "a candidate's distance is not one from this query")
    room(ctx, nm, fn, st, B, mine if direct else [c for c in fn.calls(r"Buffer::insert$") if fn.E(callargs(fn, c)[0]) == B], R)


def nearest_first(ctx, fn):
    """Inverted index: the walk over the clusters, nearest first, ends only at a cluster strictly beyond the cutoff - which is
    never better than the nearest one - so the nearest cluster is always searched."""
    n = 0
    for c in fn.calls(r"Buffer::insert$"):
        for l in fn.loops_of(c):
            for e in l.live_exits():
                for a in fn.edge_atoms(*e):
                    if a[0] != "cmp" or a[1] not in ("olt", "ogt", "ult", "ugt", "ole", "oge", "ule", "uge") or not any(isinstance(x, tuple) and x and x[0] in ("fpext", "fmul") or x == "fmul" for x in walk((a[2], a[3]))):
                        continue
                    n += 1
                    bound, cand = (a[2], a[3]) if a[1] in ("olt", "ult") else (a[3], a[2])
                    ok = a[1] in ("olt", "ult", "ogt", "ugt") and not moves_(fn, l, bound) and moves_(fn, l, cand)
                    ctx.ob("fresh", f"inverted: clusters searched {n}", ok, fn.blocks[e[0]][-1].where, "the walk over the clusters can stop before the nearest one: nothing is collected for the query")


def moves_(fn, l, e):
    return any(isinstance(x, tuple) and x and x[0] == "phi" and x[1] in fn.ins and fn.ins[x[1]].b in l.body for x in walk(e))


def pre_iter_(fn, head, i, c):
    return fn.path(head, i, cut=fn.unwind_edges(), avoid=[c]) is None


def uses(fn, c, B):
    """The call works on the buffer (directly, or through the closure it is given)."""
    return any(fn_is_ptr(fn, a) and split(fn.E(a))[0] == B for a in callargs(fn, c))


def is_n(fn, e, R):
    e = nt(e)
    if e[0] == "umax":
        return any(is_n(fn, x, R) for x in e[1:])
    return e[0] == "ld" and (root(fn, e[1]) or (None, 0))[0] == R and root(fn, e[1])[1] in (8, 32)


def len_of_row(fn, s, R):
    """The stride of the kept rows was set to the number of neighbours."""
    if s[0] != "ld":
        return False
    if is_n(fn, s, R):
        return True
    b, o, v = split(s[1])
    if b[0] != "alloca" or v:
        return False
    ss = [i for i in fn.all("store") if split(fn.E(i.ops[1])) == (b, o, v)]
    return bool(ss) and all(is_n(fn, fn.E(i.ops[0]), R) for i in ss)


def room(ctx, nm, fn, st, B, at, R):
    grow = [c for c in fn.calls(r"Buffer::change_maxsize$") if fn.E(callargs(fn, c)[0]) == B]
    good = [c for c in grow if all(is_n(fn, fn.E(a), R) for a in callargs(fn, c)[1:])]
    good += [c for c in fn.calls(r"Buffer::(SearchBuffer|MutableBuffer)$") if fn.E(callargs(fn, c)[0]) == B and sum(is_n(fn, fn.E(a), R) for a in callargs(fn, c)[1:3]) >= 1]
    big = lambda e: e[0] == "call" and re.search(r"Buffer::(capacity|target)$", e[1]) and fn.E(callargs(fn, fn.ins[e[2]])[0]) == B
    ecut = set()
    for x, y in fn.edges():
        for a in fn.edge_atoms(x, y):
            if a[0] == "cmp" and (a[1] in ("uge", "ugt", "eq") and big(nt(a[2])) and is_n(fn, a[3], R) or a[1] in ("ule", "ult", "eq") and big(nt(a[3])) and is_n(fn, a[2], R)):
                ecut.add((x, y))
    cut = fn.unwind_edges() | ecut
    for c in at:
        ok = fn.path(None, c, cut=cut, avoid=good) is None
        ctx.ob("room", f"{nm}: {c.name.split('::')[-1]}", ok, c.where, "the buffer may be smaller than the number of neighbours asked for")
    for c in grow:
        if c not in good:
            ctx.ob("room", f"{nm}: other size", all(fn.path(c, x, cut=fn.unwind_edges(), avoid=good) is None for x in at), c.where, "the buffer is given another size before the search")


# ------------------------------------------------------------------ candidates
def id_of(e):
    """The id inside a candidate passed in one register (id in the upper half), or the id itself."""
    e = nt(e)
    for x in walk(e):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "bin" and x[1] == "shl" and x[3] == ("c", 32):
            return x[2]
    return e


def candidates(ctx, name, fn, pat, query):
    cs = fn.calls(pat)
    ctx.ob("pair", f"{name}: candidates collected", bool(cs), fn.label, "no candidate is ever collected")
    for k, c in enumerate(cs):
        a = [fn.E(x) for x in callargs(fn, c)]
        d = a[-1]
        inst = f"{name}: candidate {k} ({c.name.split('::')[-1]})"
        if not ctx.ob("pair", inst, d[0] == "call" and re.search(r"distance::(.*::)?compute$", d[1]) is not None, c.where, "a candidate is collected with something else than a computed distance"):
            continue
        e = fn.ins[d[2]]
        ids = id_of(a[-2])
        ok = qok = False
        for x in callargs(fn, e):
            rc = rowcol(fn, fn.E(x)) if fn_is_ptr(fn, x) else None
            if rc and rc[2] is not None and nsame(rc[2], ids) and rc[3] == ("c", 0) and rc[5] == 0:
                ok = True
            if query is not None:
                qok |= fn.E(x) == query
            elif rc and rc[2] is not None and nsame(rc[2], a[1]) and rc[5] == 0:
                qok = True
        ctx.ob("pair", inst + ": vector", ok, c.where, "the distance collected for an id is not the distance to the vector with that id")
        ctx.ob("pair", inst + ": query", qok, c.where, "the distance collected is not the distance from this query")
        stale = [p for p in walk((a[-2], a[-1])) if isinstance(p, tuple) and p and p[0] == "phi" and p[1] in fn.ins]
        ctx.ob("pair", inst + ": same moment", all(fn.path(fn.ins[p[1]], c, cut=fn.unwind_edges(), avoid=[e]) is None for p in stale), c.where, "the id moves on after the distance was computed")


def own_row(ctx, fn):
    n = 0
    for i in fn.all():
        if i.b in fn.cold or not (i.op == "store" or i.is_call):
            continue
        for a in ([i.ops[1]] if i.op == "store" else [x for x in writable_args(i) if fn_is_ptr(fn, x)]):
            e = fn.E(a)
            b, o, v = split(e)
            if b[0] != "ld" or (root(fn, b[1]) or (None,))[0] != ("arg", 0):
                continue
            n += 1
            mul = [(x, s) for x, s in v if product(x) and ("arg", 1) in [nt(y) for y in product(x)]]
            rest = [x for x, s in v if (x, s) not in mul]
            ok = len(mul) == 1 and all(is_dim(y) or nt(y) == ("arg", 1) for y in product(mul[0][0])) and not any(("arg", 1) in set(walk(x)) for x in rest)
            ctx.ob("fresh", f"kept rows: {i.op if not i.is_call else i.name.split('::')[-1]} {n}", ok, i.where, "a candidate is put into the row of another query")
    ctx.ob("fresh", "kept rows: insertion writes", n > 0, fn.label, "a candidate is not kept")


def shape(ctx, fn):
    """search_batch_with(index, queries, n): the result (argument 0, returned in memory)."""
    s = ("arg", 0) if fn.r["args"][0].get("sret") else None
    if s is None:
        ctx.ob("shape", "result", False, fn.label, "the result is not returned in memory")
        return
    for o, what, acc in ((8, "columns", lambda e: e == ("arg", 3)), (32, "columns", lambda e: e == ("arg", 3)), (16, "rows", None), (40, "rows", None)):
        ss = [i for i in fn.all("store") if split(fn.E(i.ops[1])) == (s, o, ())]
        vals = [nt(fn.E(i.ops[0])) for i in ss]
        ok = bool(ss) and all(acc(v) if acc else v[0] == "ld" and root(fn, v[1]) is not None and root(fn, v[1])[0] == ("arg", 2) and root(fn, v[1])[1] != 8 for v in vals)
        ctx.ob("shape", f"{what} at {o}", ok, ss[0].where if ss else fn.label, "the result allocated does not have one row per query and one column per neighbour")
