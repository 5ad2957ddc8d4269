"""C12: adjacency lists never exceed the maximum degree or repeat a neighbour.

Analysed: every operation of SimpleGraphBase that reads or writes adjacency memory, instantiated for both concrete graph
classes (SimpleGraph, SimpleBlockedGraph) over 32-bit vertex ids. A row is the memory returned by data_.get_datum(vertex);
position 0 holds the length, positions 1.. the neighbours. Obligations are generated for every store that can reach graph
memory: which row it writes, whether the stored length is bounded by max_degree_, whether exactly as many neighbours as the
stored length are written, and under which conditions an edge is added."""
import re
from ..lib import *
from .. import ir, dyn

POLICY = r"""opaque ^svs::data::(SimpleData|DenseArray|Blocked)
opaque ^svs::lib::(narrow|prefetch)$
opaque ^svs::data::(copy|detail)
"""
OPS = "replace_span replace_vec add_edge get_node degree max_degree n_nodes has_edge clear_node reset ctor_data ctor".split()


def check(ctx):
    ctx.rule("own-row", "adjacency memory is written only in the row of the vertex named by the caller")
    ctx.rule("bounded", "a stored list length is zero, a minimum with max_degree, or one more than a length known to be below max_degree")
    ctx.rule("length", "the stored length equals the number of neighbours written (or kept) in the row")
    ctx.rule("no-self", "an edge is written only when its end points differ")
    ctx.rule("no-duplicate", "an edge is written only after every stored neighbour was compared with it and differed")
    ctx.rule("no-room", "an edge is written only when the list is not full, and every unrefused edge is written")
    ctx.rule("report", "the degree and list reported are the stored ones")
    ctx.rule("setup", "rows are allocated with max_degree + 1 entries and start empty; max_degree_ is the row size minus one")
    names = [f"{p}_{o}" for p in "sb" for o in OPS] + ["s_ctor_alloc", "b_resize", "b_add_node"]
    m = ctx.analyse("graph.cpp", POLICY + dyn.entries(*names))
    for p, cls in (("s", r"^svs::graphs::SimpleGraphBase<.*"), ("b", r"^svs::graphs::SimpleGraphBase<.*")):
        lays = [(n, l) for n, l in m.layouts.items() if re.match(r"^svs::graphs::SimpleGraphBase<", n) and "::" not in n[n.rfind(">"):] and (("Blocked" in n) == (p == "b"))]
        ctx.need(len(lays) == 1, "graph class layout")
        lay = lays[0][1]["members"]
        data = [(o, s) for o, s, n, t in lay if "SimpleData" in t]
        deg = [(o, s) for o, s, n, t in lay if ir.clean_ty(t) in ("unsigned int", "Idx", "uint32_t") or s == 4]
        ctx.need(len(data) == 1 and len(deg) == 1, "graph members (row storage, maximum degree)")
        one(ctx, m, p, data[0][0], deg[0][0])


def one(ctx, m, p, DATA, DEG):
    G = ("arg", 0)
    maxdeg = ("ld", mkaddr(G, DEG, ()))

    def is_max(e):
        return strip(e) == maxdeg

    def row(fn, e):
        """vertex expression when the address lies in an adjacency row; else None."""
        b, o, v = split(e)
        n = 0
        while b[0] == "phi" and n < 6:
            n += 1
            ini = [fn.E(x) for x, blk in fn.ins[b[1]].r["inc"]]
            ini = [x for x in ini if b not in set(walk(x))]
            if len(ini) != 1:
                return None
            b, o, v = split(ini[0])
        if b[0] == "ev" and b[2] == (0,):
            b = b[1]
        if b[0] == "ld" and split(b[1])[0][0] == "alloca":
            b = ("call", "x", None)
        if b[0] == "call" and b[2] is not None and re.search(r"::get_datum$", b[1]):
            c = fn.ins[b[2]]
            g = callarg(fn, c, 0)
            bb, oo, vv = split(g)
            if bb == G and oo == DATA:
                return callarg(fn, c, 1)
            if bb == G and DATA == 0:
                return callarg(fn, c, 1)
        return None

    def in_head(fn, e):
        """the address is position 0 of a row"""
        b, o, v = split(e)
        return b[0] in ("ev", "call") and o == 0 and not v and row(fn, e) is not None

    def row_len(fn, e, vtx=None):
        """e is the length stored in a row (of vertex vtx)"""
        e = strip(e)
        return e[0] == "ld" and in_head(fn, e[1]) and (vtx is None or same(row(fn, e[1]), vtx))

    def norm(fn, l):
        """linear form with row bases and lengths replaced by symbols"""
        out = {}
        for k, c in l.items():
            if isinstance(k, tuple):
                kk = strip(k)
                if row_len(fn, kk):
                    k = ("LEN",)
                elif kk[0] in ("ev", "call") and row(fn, kk) is not None:
                    k = ("ROW",)
                else:
                    k = kk
            out = ladd(out, {k: c})
        return out

    def nlin(fn, e):
        return norm(fn, lin(stripall(e)))

    def row_stores(fn):
        out = []
        for i in fn.all("store"):
            if i.b in fn.cold:
                continue
            a = fn.E(i.ops[1])
            v = row(fn, a)
            if v is not None:
                out.append((i, a, v))
        return out

    def foreign(fn, n):
        """writes into the graph that are not writes to a row of the named vertex"""
        for i in fn.all():
            if i.b in fn.cold:
                continue
            if i.op == "store":
                r = root(fn, fn.E(i.ops[1]))
                if r is not None and r[0] == G:
                    v = row(fn, fn.E(i.ops[1]))
                    ctx.ob("own-row", f"{p}:{n} store", v is not None and (n in ("reset", "ctor") or same(v, ("arg", 1))), i.where, "memory of another vertex or another member of the graph is written")
            elif i.is_call and not i.name.startswith("llvm."):
                if re.search(r"::get_datum$|::prefetch|narrow", i.name):
                    continue
                for a in writable_args(i):
                    r = root(fn, fn.E(a)) if fn_is_ptr(fn, a) else None
                    if r is not None and r[0] == G:
                        ctx.ob("own-row", f"{p}:{n} call {i.name.split('::')[-1]}", False, i.where, "an unrecognised operation may modify the graph")

    def heads(fn):
        return [(i, a, v) for i, a, v in row_stores(fn) if in_head(fn, a)]

    def elems(fn):
        return [(i, a, v) for i, a, v in row_stores(fn) if not in_head(fn, a)]

    def is_min(e, f):
        """e = min(..., x with f(x), ...)"""
        e = strip(e)
        if e[0] in ("umin", "smin"):
            return any(f(strip(x)) or is_min(x, f) for x in e[1:])
        if e[0] == "sel" and e[1][0] == "cmp":
            a, b = e[1][2], e[1][3]
            pr = e[1][1]
            x, y = strip(e[2]), strip(e[3])
            if {strip(a), strip(b)} == {x, y} and (f(x) or f(y)):
                if pr in ("ult", "ule"):
                    return x == strip(a)
                if pr in ("ugt", "uge"):
                    return x == strip(b)
        return False

    def below(fn, old):
        """atom: old length < max_degree (given the invariant old <= max_degree)"""
        lo = lin(stripall(old))

        def f(a):
            if a[0] != "cmp":
                return False
            x, y = a[2], a[3]
            for s, t, pr in ((x, y, a[1]), (y, x, ir.CMPSWAP.get(a[1], a[1]))):
                if not row_len(fn, s) and not any(row_len(fn, k) for k in lin(stripall(s)) if isinstance(k, tuple)):
                    continue
                d = ladd(nlin(fn, s), nlin(fn, t), -1)
                # d = len - max + k
                k = d.get(1, 0)
                if {z: c for z, c in d.items() if z != 1} != {("LEN",): 1, maxdeg: -1}:
                    continue
                if pr in ("ult", "slt") and k >= 0 and k <= 1:
                    return True
                if pr in ("ule", "sle") and k == 1:
                    return True
                if pr == "ne" and k == 0:
                    return True
            return False
        return f

    # ---- replacing a list -------------------------------------------------------------------
    for n in ("replace_span", "replace_vec"):
        fn = ctx.one(m, f"{p}_{n}")
        foreign(fn, n)
        hs, es = heads(fn), elems(fn)
        ctx.ob("length", f"{p}:{n} stores a length", bool(hs) and all(any(must_pass(fn, r, {h.b}) for h, _, _ in hs) for r in fn.rets()), fn.name, "a path returns without setting the length of the list")
        src = ("ld", ("arg", 2)) if n == "replace_vec" else ("arg", 2)
        if n == "replace_vec":
            cnt = ladd(lin(("ld", mkaddr(("arg", 2), 8, ()))), lin(("ld", ("arg", 2))), -1)
            cnt = lscale(cnt, Fraction(1, 4))
        else:
            cnt = lin(("arg", 3))

        def is_cnt(e):
            e = strip(e)
            while e[0] == "call" and re.search("narrow(_cast)?$", e[1]):
                x = fn.E(fn.ins[e[2]].args[0])
                x = val_at(fn, fn.ins[e[2]].args[0], fn.ins[e[2]]) if fn_is_ptr(fn, fn.ins[e[2]].args[0]) else x
                if x is None:
                    return False
                e = strip(x)
            return lin(stripall(e)) == cnt
        for h, a, v in hs:
            L = strip(fn.E(h.ops[0]))
            full = is_cnt(L) and fn.guarded(h, lambda a: a[0] == "cmp" and ((a[1] in ("ule", "ult", "eq") and is_cnt(a[2]) and is_max(a[3])) or (a[1] in ("uge", "ugt", "eq") and is_cnt(a[3]) and is_max(a[2]))))
            mx = is_max(L) and fn.guarded(h, lambda a: a[0] == "cmp" and ((a[1] in ("uge", "ugt", "eq") and is_cnt(a[2]) and is_max(a[3])) or (a[1] in ("ule", "ult", "eq") and is_cnt(a[3]) and is_max(a[2]))))
            mins = is_min(L, is_max)
            if L[0] == "phi":
                # clamped by a branch: each incoming value is bounded where it comes from
                mins, got = True, False
                for x, blk in fn.ins[L[1]].r["inc"]:
                    y = fn.E(x)
                    if is_max(y):
                        continue
                    got = got or is_cnt(y)
                    at = fn.blocks[blk][-1]
                    le = lambda a: a[0] == "cmp" and ((a[1] in ("ule", "ult") and is_cnt(a[2]) and is_max(a[3])) or (a[1] in ("uge", "ugt") and is_cnt(a[3]) and is_max(a[2])))
                    ed = any(le(z) for z in fn.edge_atoms(blk, fn.ins[L[1]].b))
                    mins = mins and is_cnt(y) and (ed or fn.guarded(at, le))
                isn = got
            else:
                isn = is_min(L, is_cnt) or full or mx
            ctx.ob("bounded", f"{p}:{n}", mins or full or mx, h.where, f"the stored length {fn.show_e(L)} is not limited to max_degree")
            ctx.ob("length", f"{p}:{n} takes as many neighbours as given and allowed", isn, h.where, f"the stored length {fn.show_e(L)} is not the number of neighbours given (limited to max_degree)")
            ok = False
            why = "no copy of exactly that many neighbours, from the start of the given list to the start of the row, is made"
            n4 = lscale(lin(L), 4)
            for e, ea, ev in es:
                c = cover(fn, e, ea)
                x = strip(fn.E(e.ops[0]))
                sc = cover(fn, e, x[1]) if x[0] == "ld" else None
                if c and sc and c.loop is sc.loop and every_iteration(fn, c.loop, e) and c.stride == 4 and sc.stride == 4:
                    if norm(fn, c.lo) == {("ROW",): 1, 1: 4} and lin(src) == sc.lo and norm(fn, ladd(c.hi, c.lo, -1)) == norm(fn, n4) and norm(fn, ladd(sc.hi, sc.lo, -1)) == norm(fn, n4):
                        ok = must_pass(fn, h, {c.loop.head}) or all(must_pass(fn, r, {c.loop.head}) for r in fn.rets())
            for c in fn.calls(r"^llvm\.mem(cpy|move)"):
                d, s, z = (fn.E(x) for x in c.args[:3])
                if row(fn, d) is not None and norm(fn, lin(d)) == {("ROW",): 1, 1: 4} and lin(s) == lin(src) and norm(fn, lin(z)) == norm(fn, n4):
                    ok = must_pass(fn, h, {c.b}) or all(must_pass(fn, r, {c.b}) for r in fn.rets())
            # several length stores (one per case) each need their own copy
            ctx.ob("length", f"{p}:{n} copies the neighbours", ok, h.where, why)

    # ---- adding an edge ---------------------------------------------------------------------
    fn = ctx.one(m, f"{p}_add_edge")
    foreign(fn, "add_edge")
    hs, es = heads(fn), elems(fn)
    A, B = ("arg", 1), ("arg", 2)
    ctx.ob("no-room", f"{p}:add_edge writes the edge", bool(hs) and bool(es), fn.name, "no edge is ever written")
    differ = lambda a: a[0] == "cmp" and a[1] in ("ne", "ult", "ugt") and {strip(a[2]), strip(a[3])} == {A, B}

    def unlike(a, el):
        return a[0] == "cmp" and a[1] == "ne" and ((strip(a[2]) in el and strip(a[3]) == B) or (strip(a[3]) in el and strip(a[2]) == B))

    def scans():
        """loops comparing every stored neighbour with the new one"""
        for loop in fn.loops:
            for ph, ini, bound, st, tb in sync_bounds(fn, loop, loop_bounds(fn, loop, partial=True)):
                me = ("phi", ph.id)
                cand = {fn.E(i.ops[0]) for i in fn.all("load") if i.b in loop.body}
                for a in cand:
                    l = lin(a)
                    if me in l and norm(fn, subst(l, me, ini)) == {("ROW",): 1, 1: 4} and norm(fn, subst(l, me, bound)) == {("ROW",): 1, 1: 4, ("LEN",): 4} and l[me] * st == 4:
                        yield loop, ("ld", a), exhausted_edges(fn, loop, fn.ins[[q for q in loop_bounds(fn, loop, partial=True)][0][0].id], loop_bounds(fn, loop, partial=True)[0][3])

    scan = []
    exits = {}
    for loop, el, ex in scans():
        cut = {(b, s) for b, s in fn.edges() if b in loop.body and any(unlike(x, [el]) for x in fn.edge_atoms(b, s))}
        if cut and loop.head not in _reach(fn, loop, cut):
            scan.append((loop, el))
            exits[loop.head] = ex
    for i, a, v in hs + es:
        what = "length" if in_head(fn, a) else "neighbour"
        ctx.ob("no-self", f"{p}:add_edge {what} store", fn.guarded(i, differ), i.where, "the list changes although both end points are the same vertex")
        free = any(i.b not in l.body and must_pass(fn, i, {l.head}) and i.b not in _after(fn, l, exits[l.head]) for l, el in scan)
        ctx.ob("no-duplicate", f"{p}:add_edge {what} store", free, i.where, "the list changes without every stored neighbour having been compared with the new one")
        full = below(fn, ("c", 0))
        ctx.ob("no-room", f"{p}:add_edge {what} store", fn.guarded(i, full), i.where, "the list changes although it may already hold max_degree neighbours")
    for h, a, v in hs:
        L = fn.E(h.ops[0])
        ctx.ob("bounded", f"{p}:add_edge", nlin(fn, L) == {("LEN",): 1, 1: 1}, h.where, f"the stored length {fn.show_e(L)} is not one more than the previous length")
        news = [(i, x) for i, x, _ in es if strip(fn.E(i.ops[0])) == B and pos_end(fn, x, i, norm, row, loops=fn.loops)]
        ctx.ob("length", f"{p}:add_edge stores the new neighbour", any(paired(fn, i, h) for i, x in news), h.where, "the new neighbour is not stored right behind the existing ones whenever the length grows")
        # refused only for the documented reasons
        ok_refuse = lambda a: (a[0] == "cmp" and a[1] == "eq" and ({strip(a[2]), strip(a[3])} == {A, B} or (any(strip(z) == B for z in a[2:4]) and any(strip(z)[0] == "ld" and row(fn, strip(z)[1]) is not None for z in a[2:4])))) \
            or (a[0] == "cmp" and a[1] in ("eq", "uge", "ugt", "ule") and ladd(nlin(fn, a[2]), nlin(fn, a[3]), -1) in ({("LEN",): 1, maxdeg: -1}, {("LEN",): -1, maxdeg: 1})) \
            or (a[0] == "cmp" and a[1] in ("ne",) and a[2][0] == "phi" and not lin(stripall(a[3])).get(maxdeg))
        cut = fn.cut_for(ok_refuse)
        r = fn.reachable(fn.entry, cut, {h.b})
        ctx.ob("no-room", f"{p}:add_edge refuses only for a reason", not any(x.b in r for x in fn.rets()), h.where, "an edge can be refused although it is new, not a self edge and there is room")
    for i, x, _ in es:
        if strip(fn.E(i.ops[0])) == B and pos_end(fn, x, i, norm, row, loops=fn.loops):
            continue
        # any other neighbour store must be a shift within an empty range (behind the last neighbour)
        ctx.ob("length", f"{p}:add_edge keeps the other neighbours", shift(fn, i, x, norm), i.where, "an existing neighbour may be overwritten")
    for r in fn.rets():
        vs = flat(fn, fn.E(r.ops[0]))
        ok = all(row_len(fn, x, A) or nlin(fn, x) == {("LEN",): 1, 1: 1} for x in vs)
        ctx.ob("report", f"{p}:add_edge returns the degree", ok, r.where, "the returned value is not the resulting degree")
        if r.ops and fn.E(r.ops[0])[0] == "phi":
            for x, blk in fn.ins[fn.E(r.ops[0])[1]].r["inc"]:
                x = fn.E(x)
                wrote = any(must_pass(fn, fn.blocks[blk][-1], {h.b}) for h, _, _ in hs)
                may = any(blk in fn.reachable(h.b) for h, _, _ in hs)
                inc = nlin(fn, x) == {("LEN",): 1, 1: 1}
                if x[0] == "phi":
                    continue
                ctx.ob("report", f"{p}:add_edge degree on path via block", inc == wrote and wrote == may, fn.blocks[blk][-1].where, "the returned degree does not match what was stored")

    # ---- clearing, reporting, set-up ---------------------------------------------------------
    fn = ctx.one(m, f"{p}_clear_node")
    foreign(fn, "clear_node")
    hs = heads(fn)
    ctx.ob("length", f"{p}:clear_node", any(strip(fn.E(h.ops[0])) == ("c", 0) and all(must_pass(fn, r, {h.b}) for r in fn.rets()) for h, _, _ in hs) and all(strip(fn.E(h.ops[0])) == ("c", 0) for h, _, _ in hs), fn.name, "the list length is not set to zero")
    for n, f in (("degree", lambda fn, e: row_len(fn, e, ("arg", 1))), ("max_degree", lambda fn, e: is_max(e)),
                 ("n_nodes", lambda fn, e: strip(e)[0] == "call" and strip(e)[1].endswith("::size") and split(callarg(fn, fn.ins[strip(e)[2]]))[:2] == (G, DATA))):
        fn = ctx.one(m, f"{p}_{n}")
        for r in fn.rets():
            ctx.ob("report", f"{p}:{n}", f(fn, fn.E(r.ops[0])), r.where, f"returns {fn.show_e(fn.E(r.ops[0]))}")
    fn = ctx.one(m, f"{p}_get_node")
    foreign(fn, "get_node")
    for r in fn.rets():
        d, n = agg(fn, r.ops[0], 0), agg(fn, r.ops[0], 1)
        ctx.ob("report", f"{p}:get_node list", d is not None and norm(fn, lin(d)) == {("ROW",): 1, 1: 4} and same(row(fn, d), ("arg", 1)), r.where, "the list returned does not start at the vertex's first neighbour")
        ctx.ob("report", f"{p}:get_node length", n is not None and row_len(fn, n, ("arg", 1)), r.where, f"the list returned does not have the stored length: {n and fn.show_e(n)}")
    for n in ["ctor", "ctor_data"] + (["ctor_alloc"] if p == "s" else []):
        fn = ctx.one(m, f"{p}_{n}")
        st = [i for i in fn.all("store") if i.b not in fn.cold and split(fn.E(i.ops[1])) == (G, DEG, ())]
        ctx.ob("setup", f"{p}:{n} max_degree", len(st) >= 1 and all(must_pass(fn, r, {i.b for i in st}) for r in fn.rets()), fn.name, "max_degree_ is not set")
        for i in st:
            v = strip(fn.E(i.ops[0]))
            if v[0] == "call" and re.search("narrow$", v[1]):
                c = fn.ins[v[2]]
                v = val_at(fn, c.args[0], c) if fn_is_ptr(fn, c.args[0]) else fn.E(c.args[0])
                v = strip(v) if v else ("c", None)
            if n == "ctor_data":
                ok = v[0] != "c" or v[1] is not None
                l = lin(v)
                ks = [k for k in l if k != 1]
                ok = len(ks) == 1 and l[ks[0]] == 1 and l.get(1) == -1 and strip(ks[0])[0] == "call" and strip(ks[0])[1].endswith("::dimensions") and split(callarg(fn, fn.ins[strip(ks[0])[2]]))[:2] == (G, DATA)
                mv = [c for c in fn.calls(r"::SimpleData$")]
                ok = ok and all(fn.dominates(c, fn.ins[strip(ks[0])[2]]) for c in mv if callarg(fn, c, 0) == mkaddr(G, DATA, ()))
            else:
                ok = v == ("arg", 2)
                mk = [c for c in fn.calls(r"::SimpleData$") if callarg(fn, c, 0) == mkaddr(G, DATA, ())]
                ctx.ob("setup", f"{p}:{n} row size", len(mk) == 1 and same(callarg(fn, mk[0], 1), ("arg", 1)) and lin(callarg(fn, mk[0], 2)) == {("arg", 2): 1, 1: 1}, fn.name, "rows are not allocated as (number of vertices, max_degree + 1)")
                ctx.ob("setup", f"{p}:{n} starts empty", cleared(fn, heads(fn)), fn.name, "not every list length is zeroed")
            ctx.ob("setup", f"{p}:{n} max_degree value", ok, i.where, f"max_degree_ is not the row size minus one: {fn.show_e(v) if v[0] != 'c' else v}")
    fn = ctx.one(m, f"{p}_reset")
    foreign(fn, "reset")
    ctx.ob("length", f"{p}:reset", cleared(fn, heads(fn)), fn.name, "not every list length is zeroed")
    if p == "b":
        for n, want in (("b_resize", {("arg", 1): 1}), ("b_add_node", None)):
            fn = ctx.one(m, n)
            cs = [c for c in fn.calls(r"::resize$") if callarg(fn, c, 0) == mkaddr(G, DATA, ())]
            ok = len(cs) == 1
            if ok:
                l = lin(callarg(fn, cs[0], 1))
                ok = l == want if want else (l.get(1) == 1 and any(isinstance(k, tuple) and strip(k)[0] == "call" and strip(k)[1].endswith("::size") for k in l))
            ctx.ob("setup", f"b:{n}", ok, fn.name, "the row storage is not resized to the requested number of vertices")
    ctx.assumptions.append("the caller-supplied list of replace_node holds no duplicates and no self reference (documented precondition; produced by pruning, see C13)")


def cleared(fn, hs):
    for h, a, v in hs:
        if strip(fn.E(h.ops[0])) != ("c", 0):
            return False
    for h, a, v in hs:
        for loop in fn.loops_of(h):
            for ph, ini, bound, st, tb in loop_bounds(fn, loop):
                vv = strip(v)
                while vv[0] == "bin" and vv[1] == "and" and vv[3] == ("c", 0xffffffff):
                    vv = strip(vv[2])
                full = ini == {} and st == 1 and len(bound) == 1 and list(bound.values()) == [1] and strip(list(bound)[0])[0] == "call" and strip(list(bound)[0])[1].endswith("::size")
                down = bound == {1: -1} and st == -1
                if vv == ("phi", ph.id) and full and every_iteration(fn, loop, h) and all(must_pass(fn, r, {loop.head}) for r in fn.rets()):
                    return True
    return False


def stripall(e):
    """strip width changes everywhere"""
    e = strip(e)
    if e[0] == "bin":
        return ("bin", e[1], stripall(e[2]), stripall(e[3]))
    return e


def flat(fn, e, d=0):
    e = strip(e)
    if e[0] == "phi" and d < 6:
        out = []
        for v, b in fn.ins[e[1]].r["inc"]:
            x = fn.E(v)
            if e not in set(walk(x)):
                out += flat(fn, x, d + 1)
        return out
    if e[0] == "sel":
        return flat(fn, e[2], d + 1) + flat(fn, e[3], d + 1)
    return [e]


def agg(fn, ref, k):
    """k-th field of an aggregate built with insertvalue."""
    n = 0
    while "v" in ref and n < 8:
        i = fn.ins[ref["v"]]
        n += 1
        if i.op == "insertvalue":
            if list(i.idx) == [k]:
                return fn.E(i.ops[1])
            ref = i.ops[0]
            continue
        if i.is_call:
            return ("ev", fn.E(ref), (k,))
        return None
    return None


def pos_end(fn, a, at, norm, row, loops):
    """the address is the one behind the last neighbour: directly, or a search pointer known to have reached the end"""
    end = {("ROW",): 1, 1: 4, ("LEN",): 4}
    if norm(fn, lin(a)) == end:
        return True
    if a[0] == "phi":
        def atend(x):
            return x[0] == "cmp" and x[1] == "eq" and any(s == a and norm(fn, lin(t)) == end for s, t in ((x[2], x[3]), (x[3], x[2])))
        return fn.guarded(at, atend)
    return False


def shift(fn, i, x, norm):
    """store inside a loop that moves [p, end) up by one, with p known to be the end: runs zero times"""
    end = {("ROW",): 1, 1: 4, ("LEN",): 4}
    for loop in fn.loops_of(i):
        for b, s in loop.live_exits():
            for at in fn.edge_atoms(b, s):
                if at[0] == "cmp" and at[1] == "eq" and b == loop.head:
                    for u, w in ((at[2], at[3]), (at[3], at[2])):
                        if u[0] == "phi" and fn.ins[u[1]].b == loop.head:
                            inits = [fn.E(v) for v, blk in fn.ins[u[1]].r["inc"] if blk not in loop.body]
                            if len(inits) == 1 and norm(fn, lin(inits[0])) == end and (norm(fn, lin(w)) == end or w[0] == "phi" and guarded_end(fn, w, loop, norm, end)):
                                return True
    return False


def guarded_end(fn, w, loop, norm, end):
    t = fn.blocks[loop.head][0]
    return fn.guarded(t, lambda x: x[0] == "cmp" and x[1] == "eq" and any(s == w and norm(fn, lin(y)) == end for s, y in ((x[2], x[3]), (x[3], x[2]))))


def _reach(fn, loop, cut):
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        for s in fn.succ[b]:
            if (b, s) in cut or s not in loop.body or s in seen:
                continue
            seen.add(s)
            work.append(s)
    return seen


def _after(fn, loop, good):
    """blocks reachable after leaving the loop through an exit that is not in `good`"""
    out = set()
    for b, s in loop.live_exits():
        if (b, s) not in good:
            out |= {s} | fn.reachable(s, frozenset(), frozenset({loop.head}))
    return out
