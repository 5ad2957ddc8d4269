"""C06: inserted points become searchable only once fully connected.

Analysed: MutableVamanaIndex::add_points composed with the copying of vectors and the clearing of adjacency lists (pool modelled
by one arbitrary worker), and the graph builder's batches (every vertex handed in is searched for, pruned and linked)."""
from ..lib import *
from ..renum import *
from .. import ir, dyn
from fractions import Fraction
from .c05 import elem_of, on, callargs, blocks_of, short, datum_src

EMPTY, VALID, DELETED = 0, 1, 2
DOM = (0, 1, 2)


def check(ctx):
    md, mb = ctx.analyse_all([("dynamic.cpp", dyn.POLICY + dyn.entries("add_points")), ("builder.cpp", BPOL)])
    R = dyn.Roles(md)
    add(ctx, ctx.one(md, "add_points"), R)
    ctx.rule("batches", "the builder runs through consecutive batches that together are all the vertices handed in, and searches for and links back each batch")
    ctx.rule("search", "every vertex of a batch gets the pruned result of a search of the graph for its own vector as its adjacency list")
    ctx.rule("back", "every edge to a found neighbour is linked back, at once or through the overflow buffer, which is applied in full")
    construct(ctx, ctx.one(mb, "construct"), vec=True)
    construct(ctx, ctx.one(mb, "construct_all"), vec=False)
    generate(ctx, ctx.one(mb, "generate"))
    reverse(ctx, ctx.one(mb, "reverse"))
    backbuf(ctx, ctx.one(mb, "bb_add"), ctx.one(mb, "bb_reset"))
    ctx.minimum("search", 4)
    ctx.minimum("back", 5)


BE = lambda l: f"entry {l} ^h_{l}\\(((?!\\)::).)*$\n"
BPOL = r"""opaque ^svs::index::vamana::(greedy_search|heuristic_prune_neighbors|SearchBuffer::|OptionalTracker::|VamanaBuilder::(generate_neighbors|add_reverse_edges)$)
opaque ^svs::index::vamana::BackedgeBuffer::
opaque ^svs::data::(SimpleData|DenseArray)::
opaque ^svs::graphs::
opaque ^svs::lib::Timer
opaque ^svs::lib::(as_seconds|narrow_cast)
opaque ^svs::distance::(DistanceL2::)?compute$
opaque ^svs::threads::balance
model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run
opaque ^svs::threads::NativeThreadPoolBase::
""" + BE("construct") + BE("construct_all") + BE("generate") + "+inline ^svs::index::vamana::VamanaBuilder::generate_neighbors$\n" + \
    BE("reverse") + "+inline ^svs::index::vamana::VamanaBuilder::add_reverse_edges$\n" + \
    BE("bb_add") + "+inline ^svs::index::vamana::BackedgeBuffer::\n" + BE("bb_reset") + "+inline ^svs::index::vamana::BackedgeBuffer::\n"


def construct(ctx, fn, vec):
    gen, rev = fn.calls(r"VamanaBuilder::generate_neighbors$"), fn.calls(r"VamanaBuilder::add_reverse_edges$")
    ctx.ob("batches", "both steps run", bool(gen and rev), fn.name, "the builder does not search and link back")

    def total(e):
        e = nt(e)
        if vec:
            return vec_count(fn, e, ("arg", 3), 8)
        return e[0] == "call" and e[1].endswith("::size") and canonical(fn, fn.E(callargs(fn, fn.ins[e[2]])[0])) == "data_"

    def bounds(c):
        pt = fn.E(callargs(fn, c)[1])
        if split(pt)[0][0] != "alloca":
            return None
        out = []
        for o in (0, 8):
            st = fn.reaching(split(pt)[0][1], split(pt)[1] + o, c)
            if not st or len({fn.E(x.ops[0]) for x in st}) != 1:
                return None
            e = fn.E(st[0].ops[0])
            if vec:
                b, off, v = split(e)
                e = index_of(off, v) if b == ("ld", ("arg", 3)) else None
            out.append(e)
        return None if None in out else out
    seen = set()
    for c in gen + rev:
        b = bounds(c)
        loops = fn.loops_of(c)
        key = b and (canon(b[0]), canon(b[1]))
        ok = False
        if b:
            for l in loops:
                ok |= (counter_batches(fn, l, b[0], b[1], total) or any_batches(fn, l, b, total)) and every_iteration(fn, l, c)
            if not loops:
                ok = canon(b[0]) == () and total(b[1])
        ctx.ob("batches", f"{c.name.split('::')[-1]} of {fn.label}", ok, c.where, "the batches do not add up to the vertices handed in")
        if ok:
            ctx.ob("batches", f"{c.name.split('::')[-1]} of {fn.label} always runs", fn.path(None, lambda i: i.op == "ret", avoid=[x for l in loops[-1:] for x in blocks_of(fn, l.head)] or [c]) is None, c.where, "vertices can be left out")
            seen.add((c.name.split("::")[-1], key))
    g, r = ({k for n, k in seen if n == x} for x in ("generate_neighbors", "add_reverse_edges"))
    ctx.ob("batches", f"same batches in {fn.label}", not g or not r or g == r or all(fn.path(y, x) is None for y in rev for x in gen), fn.name, "a batch searched for is not the one linked back")
    for c in rev:
        ctx.ob("batches", f"search first in {fn.label}", pre_reaches(fn, c, gen[0]) if len(gen) == 1 else True, c.where, "a batch is linked back before it was searched for")


def any_batches(fn, l, b, total):
    bt = batches(fn, l, total)
    return bt is not None and nsame(bt.start, b[0]) and nsame(bt.stop, b[1])


def canonical(fn, e):
    """Name of the builder's member an expression was loaded from."""
    if e[0] == "ld":
        n = fn.memname(e[1])
        if n and n[0]:
            return n[0][-1] if isinstance(n[0], (list, tuple)) else str(n[0]).split(".")[-1]
    return None


def share_loop(fn, at, node, lo, hi):
    """Loop in which node (expression *pointer) runs over a worker's balanced share of the elements [*lo, *hi)."""
    node = nt(node)
    if node[0] != "ld":
        return None
    cv = cover(fn, at, node[1])
    if cv is None or not cv.stride:
        return None
    k = Fraction(1, int(cv.stride))
    a, b = nform(lscale(ladd(cv.lo, lo, -1), k)), nform(lscale(ladd(cv.hi, lo, -1), k))
    if a == {} and b == nform(lscale(ladd(hi, lo, -1), k)):
        return cv.loop
    a, b = share_atom(a), share_atom(b)
    if not (a and b and a[0] == b[0] and (a[1], b[1]) == (0, 1)):
        return None
    n = number(fn, callarg(fn, fn.ins[a[0]], 0))
    if n is not None and lin(n) == lscale(ladd(hi, lo, -1), k):
        return cv.loop
    return None


def empty_share(fn, a):
    """Atom stating that there is nothing to share out, or that the worker's share is empty."""
    if a[0] != "cmp" or a[1] not in ("eq", "uge", "ule"):
        return False
    l, r = share_atom(nlin(a[2])), share_atom(nlin(a[3]))
    if l and r and l[0] == r[0] and l[1] != r[1]:
        return True
    for x, y in ((a[2], a[3]), (a[3], a[2])):
        if y == ("c", 0) and a[1] == "eq" and x[0] == "call" and re.search(r"::narrow(_cast)?$", x[1]):
            return True
        if a[1] == "eq" and x[0] == "ld" and y[0] == "ld":
            return split(x[1])[0] == split(y[1])[0] == ("arg", 1)
    return False


def ecut_of(fn):
    return {(b, s) for b, s in fn.edges() if any(empty_share(fn, a) for a in fn.edge_atoms(b, s))}


def always(fn, loop, ecut, stop):
    return fn.path(None, stop, avoid=blocks_of(fn, loop.head), cut=ecut) is None


def is_ret(i):
    return i.op == "ret"


PART = (lin(("ld", ("arg", 1))), lin(("ld", mkaddr(("arg", 1), 8, ()))))


def generate(ctx, fn):
    ecut = ecut_of(fn)
    pr = fn.calls(r"::heuristic_prune_neighbors$")
    gs = fn.calls(r"::greedy_search$")
    ctx.ob("search", "every vertex searched for", bool(pr and gs), fn.name, "vertices are not searched for and pruned")
    nodes = {}
    for c in pr:
        a = callargs(fn, c)
        cand = [(x, share_loop(fn, c, fn.E(x), *PART)) for x in a]
        cand = [(fn.E(x), l) for x, l in cand if l]
        ok = len(cand) == 1 and every_iteration(fn, cand[0][1], c) and always(fn, cand[0][1], ecut, is_ret)
        if not ctx.ob("search", "every vertex pruned", ok, c.where, "a vertex of the batch may get no adjacency list"):
            continue
        node, loop = cand[0]
        res = fn.E(a[-1])
        nodes[c] = (node, loop, res)
        # where the result goes
        b, o, v = split(res)
        tls = None
        if b[0] == "ld" and split(b[1])[0][0] == "ld":
            tls = b[1]           # address of the vector's end pointer
        put = None
        for e in fn.calls(r"::(emplace_back|push_back)$"):
            vec = fn.E(callargs(fn, e)[0])
            if e.b in loop.body and (tls == mkaddr(vec, 8, ()) and o < 0 and not v or b == ("call", e.name, e.id)):
                put = e
        okp = False
        if put is not None:
            ea = callargs(fn, put)
            if len(ea) > 2:
                key = val_at(fn, ea[1], put) if fn_is_ptr(fn, ea[1]) else fn.E(ea[1])
            else:
                key = val_at(fn, ea[1], put)
            okp = nsame(key, node) and pre_reaches(fn, c, put) and by_worker(fn, fn.E(ea[0]))
            tl = fn.E(callargs(fn, put)[0])
        ctx.ob("search", "pruned list recorded for its own vertex", okp, c.where, "the list found for a vertex is recorded for another one")
        # search for its own vector, from clean scratch state
        for g in gs:
            ga = callargs(fn, g)
            ctx.ob("search", "graph searched", canonical(fn, fn.E(ga[0])) == "graph_" and canonical(fn, fn.E(ga[1])) == "data_", g.where, "another graph or dataset is searched")
            q = fn.E(ga[3])
            src = [x for x in datum_of(fn, q, g)]
            ctx.ob("search", "search for the vertex itself", bool(src) and all(nsame(callarg(fn, s, 1), node) and canonical(fn, fn.E(callargs(fn, s)[0])) == "data_" for s in src), g.where, "the graph is searched for another vector")
            ctx.ob("search", "every vertex searched for", pre_reaches(fn, c, g) or len(gs) > 1, g.where, "a vertex can be pruned without search")
            ctx.ob("search", "from the given entry points", any(fn.E(x) == ("arg", 3) for x in ga), g.where, "the search does not start from the given entry points")
            buf = next((fn.E(x) for x in ga if "SearchBuffer" in str(obj_type(fn, x))), None)
            clears = [x for x in fn.calls(r"SearchBuffer::clear$") if buf is None or fn.E(callargs(fn, x)[0]) == buf]
            ctx.ob("search", "clean buffer", any(pre_iter(fn, loop, g, x) for x in clears), g.where, "results of the previous vertex's search stay in the buffer")
        pool = pool_of(fn, c, res)
        if pool is not None:
            fills = [x for x in fn.calls(r"::(push_back|emplace_back)$") if fn.E(callargs(fn, x)[0]) == pool]
            clears = [x for x in fn.calls(r"vector::clear$") if fn.E(callargs(fn, x)[0]) == pool] + \
                [x for x in fn.calls(r"vector::vector$") if fn.E(callargs(fn, x)[0]) == pool and x.b in loop.body]
            ctx.ob("search", "clean candidates", bool(fills) and all(any(pre_iter(fn, loop, f, x) for x in clears) for f in fills), c.where, "candidates of the previous vertex are kept")
            ctx.ob("search", "results are candidates", any(f.b in loop.body for f in fills), c.where, "the search result does not reach the pruning")
    # second run: apply
    reps = [c for c in fn.calls(r"::replace_node$") if canonical(fn, fn.E(callargs(fn, c)[0])) == "graph_"]
    okr = False
    for c in reps:
        node, lst = callargs(fn, c)[1:3]
        e = fn.E(node)
        for _ in range(4):
            if e[0] == "ld" and split(e[1])[0][0] == "alloca":
                st = fn.reaching(split(e[1])[0][1], split(e[1])[1], c)
                if st and len({fn.E(x.ops[0]) for x in st}) == 1:
                    e = fn.E(st[0].ops[0])
                    continue
            break
        if e[0] != "ld":
            continue
        cv = cover(fn, c, e[1])
        src = fn.E(lst)
        b, o, v = split(src)
        if b[0] == "alloca":
            cp = [x for x in fn.calls(r"vector::(vector|operator=)$") if fn.E(callargs(fn, x)[0]) == src]
            src = fn.E(callargs(fn, cp[0])[1]) if len(cp) == 1 else src
        d = lin_diff_addr(src, e[1])
        if cv is None or d is None or d != 8 and d != 4:
            continue
        # covers the whole of one worker's list
        lo = [k for k in cv.lo if k != 1]
        hi = [k for k in cv.hi if k != 1]
        if len(lo) != 1 or len(hi) != 1 or lo[0][0] != "ld" or hi[0] != ("ld", mkaddr(lo[0][1], 8, ())):
            continue
        if not every_iteration(fn, cv.loop, c):
            continue
        if fn.path(None, is_ret, avoid=blocks_of(fn, cv.loop.head)) is not None:
            continue
        okr |= by_worker(fn, lo[0][1])
    ctx.ob("search", "every recorded list applied to its vertex", okr, fn.name, "a list found for a vertex is not put into the graph as that vertex's list")
    for c, (node, loop, res) in nodes.items():
        ctx.ob("search", "applied after all searches", all(fn.path(r, c) is None for r in reps), c.where, "the graph changes while it is being searched")


def by_worker(fn, e):
    """The address depends on which worker runs."""
    w = lambda x: isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("svsa_any_worker")
    b, o, v = split(e)
    if b[0] == "call" and not w(b) and re.search(r"::(at|operator\[\])$", b[1]):
        return w(nt(callarg(fn, fn.ins[b[2]], 1)))
    return len(v) == 1 and w(nt(v[0][0]))


def lin_diff_addr(a, b):
    d = ladd(lin(a), lin(b), -1)
    return int(d.get(1, 0)) if set(d) <= {1} else None


def pre_iter(fn, loop, x, y):
    """Within each iteration of the loop, y is executed before the first x."""
    head = fn.blocks[loop.head][0]
    return y.b in loop.body and fn.path(head, x, avoid=[y]) is None


def obj_type(fn, ref):
    if "v" in ref and fn.ins[ref["v"]].op == "alloca":
        return fn.ins[ref["v"]].r.get("dty") or fn.ins[ref["v"]].r.get("aty") or fn.ins[ref["v"]].r.get("n") or ""
    return ""


def datum_of(fn, q, at):
    """get_datum calls whose result is held in the local q."""
    b, o, v = split(q)
    out = []
    if b[0] == "alloca":
        st = fn.reaching(b[1], o, at)
        for s in st or []:
            e = fn.E(s.ops[0])
            while e[0] == "ev":
                e = e[1]
            if e[0] == "call" and e[1].endswith("::get_datum"):
                out.append(fn.ins[e[2]])
            else:
                return []
    while q[0] == "ev":
        q = q[1]
    if q[0] == "call" and q[1].endswith("::get_datum"):
        out.append(fn.ins[q[2]])
    return out


def pool_of(fn, c, res):
    """Vector behind the span of candidates handed to the pruning."""
    for x in callargs(fn, c):
        e = fn.E(x)
        for y in ([e] + ([val_at(fn, x, c)] if fn_is_ptr(fn, x) else [])):
            if y[0] == "ld" and split(y[1])[0][0] == "alloca" and y[1] != res and split(y[1])[1] == 0:
                for f in fn.calls(r"vector::(push_back|emplace_back)$"):
                    if fn.E(callargs(fn, f)[0]) == y[1]:
                        return y[1]
    return None


def reverse(ctx, fn):
    ecut = ecut_of(fn)
    gets = [c for c in fn.calls(r"::get_node$") if canonical(fn, fn.E(callargs(fn, c)[0])) == "graph_"]
    done = False
    sinks = [c for c in fn.calls(r"::add_edge$")]
    for g in gets:
        node = callarg(fn, g, 1)
        loop = share_loop(fn, g, node, *PART)
        if loop is None or not every_iteration(fn, loop, g):
            continue
        # inner loop over the list
        inner = [l for l in fn.loops_of(sinks[0]) if l.head in loop.body] if sinks else []
        use = []
        for s in sinks:
            a = callargs(fn, s)
            who = canonical(fn, fn.E(a[0])) or ("buffer" if "BackedgeBuffer" in s.name else None)
            o = nt(fn.E(a[1]))
            cv = cover(fn, s, o[1]) if o[0] == "ld" else None
            ev = lambda n: ("ev", ("call", g.name, g.id), (n,))
            ok = cv is not None and cv.lo == lin(ev(0)) and nform(cv.hi) == nform(ladd(lin(ev(0)), lin(ev(1)), Fraction(4))) and nsame(fn.E(a[2]), node)
            ok &= who in ("graph_", "buffer")
            if who == "buffer":
                ok &= any("backedge_buffer_" in str(x) for x in [fn.memname(fn.E(a[0])) or ""]) or split(fn.E(a[0]))[0] == ("arg", 0)
            ctx.ob("back", f"edge back to the vertex ({'buffer' if who == 'buffer' else 'graph'})", ok, s.where, "the edge linked back does not lead from the found neighbour to the vertex")
            if ok:
                use.append((s, cv.loop))
        if not use:
            continue
        lp = use[0][1]
        done = all(l is lp or l.head == lp.head for _, l in use) and each_of(fn, lp, [s for s, _ in use]) and always(fn, loop, ecut, is_ret) and \
            fn.path(fn.blocks[loop.head][0], fn.blocks[loop.head][0], avoid=[g]) is None and fn.path(g, fn.blocks[loop.head][0], avoid=blocks_of(fn, lp.head)) is None
    ctx.ob("back", "every edge linked back", done, fn.name, "an edge to a found neighbour may not be linked back")
    # overflow buffer applied
    rs = [c for c in fn.calls(r"BackedgeBuffer::reset$")]
    for s in sinks:
        if "BackedgeBuffer" in s.name:
            ctx.ob("back", "buffer emptied first", any(fn.path(None, s, avoid=[r]) is None for r in rs) and all(fn.path(s, r) is None for r in rs), s.where, "edges of an earlier batch stay in the overflow buffer, or this one's are lost")
    rep = [c for c in fn.calls(r"::replace_node$") if canonical(fn, fn.E(callargs(fn, c)[0])) == "graph_"]
    pr = fn.calls(r"::heuristic_prune_neighbors$")
    ctx.ob("back", "overflow applied", bool(rep and pr), fn.name, "edges in the overflow buffer are not applied")
    for r in rep:
        src = callarg(fn, r, 1)
        key = src[0] == "ld" and src[1][0] == "call" and re.search(r"robin_iterator::operator(\*|->)$|::key$", src[1][1])
        key = key or src[0] == "call" and src[1].endswith("::key") or src[0] == "ld" and src[1][0] == "call" and src[1][1].endswith("::key")
        ctx.ob("back", "list replaced is the overflowing vertex's", bool(key), r.where, "the list replaced is not that of the overflowing vertex")
        out = fn.E(callargs(fn, r)[2])
        pp = [p for p in pr if fn.E(callargs(fn, p)[-1]) == out and any(nsame(fn.E(x), src) for x in callargs(fn, p))]
        ctx.ob("back", "replaced by its own pruned list", bool(pp) and fn.path(None, r, avoid=pp) is None and fn.path(r, r, avoid=pp) is None, r.where, "the list put in place is not what pruning chose for this vertex")
        loops = fn.loops_of(r)
        ctx.ob("back", "every overflowing vertex", len(loops) >= 2 and every_iteration(fn, loops[0], r) and iter_loop(fn, loops[0]), r.where, "an overflowing vertex can be skipped")
        for p in pp:
            pool = pool_of(fn, p, out)
            fills = [x for x in fn.calls(r"::(push_back|emplace_back)$") if pool is not None and fn.E(callargs(fn, x)[0]) == pool]
            clears = [x for x in fn.calls(r"vector::clear$") if fn.E(callargs(fn, x)[0]) == pool] + [x for x in fn.calls(r"vector::vector$") if fn.E(callargs(fn, x)[0]) == pool and x.b in loops[0].body]
            ctx.ob("back", "clean candidates", bool(fills) and all(any(pre_iter(fn, loops[0], f, x) for x in clears) for f in fills), p.where, "candidates of another vertex are kept")
            ov = [f for f in fills if any(pool_elem(fn, f, "robin_iterator::operator\\*"))]
            old = [f for f in fills if any(pool_elem(fn, f, "get_node"))]
            okv = any(exhaust(fn, f) for f in ov)
            ctx.ob("back", "all overflow edges are candidates", okv, p.where, "overflow edges are dropped before pruning")
            ctx.ob("back", "old list kept as candidates", bool(old), p.where, "the vertex's old neighbours are dropped")


def pool_elem(fn, f, pat):
    """Sources (calls matching pat) of the neighbour id stored by a push."""
    a = callargs(fn, f)[1]
    for e in ([val_at(fn, a, f)] if fn_is_ptr(fn, a) else []) + [fn.E(x) for x in callargs(fn, f)[1:]]:
        for x in values(fn, e):
            for y in walk(x):
                if isinstance(y, tuple) and y and y[0] == "call" and re.search(pat, y[1]):
                    yield y
                if isinstance(y, tuple) and y and y[0] == "phi":
                    for v, b in fn.ins[y[1]].r["inc"]:
                        for z in walk(fn.E(v)):
                            if isinstance(z, tuple) and z and z[0] == "call" and re.search(pat, z[1]):
                                yield z


def iter_loop(fn, l):
    """The loop is only left when an iterator comparison says so (or a counter is exhausted)."""
    ok = bool(l.live_exits())
    for b, s in l.live_exits():
        ok &= any(x[0] in ("true", "false") and any(isinstance(y, tuple) and y and y[0] == "call" and re.search(r"operator(!=|==)$", y[1]) for y in walk(x[1])) or x[0] == "cmp" and "phi" in str(x)
                  for x in fn.edge_atoms(b, s))
    return ok


def exhaust(fn, f):
    l = fn.loops_of(f)[0]
    return iter_loop(fn, l) and every_iteration(fn, l, f)


def each_of(fn, loop, ins):
    """Every iteration executes one of the instructions."""
    cut = fn.unwind_edges() | set(loop.exits())
    for s in fn.succ[loop.head]:
        if s in loop.body:
            stop = {i.b for i in ins}
            if s in stop:
                continue
            seen, work = {s}, [s]
            while work:
                b = work.pop()
                for t in fn.succ[b]:
                    if (b, t) in cut or t in stop:
                        continue
                    if t == loop.head:
                        return False
                    if t in loop.body and t not in seen:
                        seen.add(t)
                        work.append(t)
    return True


def backbuf(ctx, add, reset):
    """Overflow buffer: an edge is kept under its source vertex, in a bucket that is a function of that vertex."""
    ins = [c for c in add.calls(r"(robin_set|robin_hash|robin_map)::(insert|emplace)$")]
    ok = False
    for c in ins:
        a = callargs(add, c)
        v = val_at(add, a[1], c) if fn_is_ptr(add, a[1]) else add.E(a[1])
        if v != ("arg", 2):
            continue
        es = list(walk(add.E(a[0])))
        for x in list(es):
            if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"::(value|operator->|operator\*)$", x[1]):
                b = split(add.E(callargs(add, add.ins[x[2]])[0]))[0]
                if b[0] == "alloca":
                    es += [y for st, _ in add.stores_raw(b[1]) for y in walk(add.E(st.ops[0]))]
        s = [x for x in es if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"robin_map::(operator\[\]|at|try_emplace|emplace|insert)$", x[1])]
        for x in s:
            m = add.ins[x[2]]
            k = callargs(add, m)[1]
            if (val_at(add, k, m) if fn_is_ptr(add, k) else add.E(k)) == ("arg", 1) and must_ret(add, c):
                ok = True
    ctx.ob("back", "overflow edge kept under its vertex", ok, add.name, "an overflow edge is not kept under the vertex it leaves")
    cl = reset.calls(r"robin_map::clear$")
    okc = False
    for c in cl:
        cv = cover(reset, c, reset.E(callargs(reset, c)[0]))
        if cv is None or not every_iteration(reset, cv.loop, c):
            continue
        lo = [k for k in cv.lo if k != 1]
        okc |= len(lo) == 1 and cv.lo == {lo[0]: 1} and lo[0][0] == "ld" and split(lo[0][1])[0] == ("arg", 0) and cv.hi == lin(("ld", mkaddr(lo[0][1], 8, ())))
    ctx.ob("back", "reset empties every bucket", okc, reset.name, "resetting leaves edges of an earlier batch behind")


def must_ret(fn, c):
    return fn.path(None, is_ret, avoid=[c]) is None


def add(ctx, fn, R):
    X = 1     # the index is argument 1 (argument 0 is the returned vector)
    ctx.rule("free", "a slot chosen for a new point is empty, and is chosen once")
    ctx.rule("room", "exactly one slot is chosen per point: free slots first, then slots appended to data, graph and slot states alike")
    ctx.rule("pair", "external id, vector and cleared adjacency list go to the same slot")
    ctx.rule("link", "the graph is linked only after vectors and adjacency lists are in place, over the index's own graph, data and slots")
    ctx.rule("live", "a slot is marked live only after linking, and every new slot is")
    role = lambda e: R.role(fn, e, X)
    el = lambda r, e: elem_at(fn, R, X, r, e)
    ins = [c for c in fn.calls(r"IDTranslator::insert$") if role(callarg(fn, c, 0)) == "translator"]
    ctx.need(len(ins) == 1, "insertion into the id translation in add_points")
    ins = ins[0]
    S = fn.E(callargs(fn, ins)[2])
    IDS = fn.E(callargs(fn, ins)[1])
    ctx.ob("pair", "ids", IDS == ("arg", 3), ins.where, "the translation is given other ids than the caller's")

    def isn(e):
        for x in values(fn, e):
            x = nt(x)
            if x[0] == "call" and x[1].endswith("::size") and fn.E(callargs(fn, fn.ins[x[2]])[0]) == ("arg", 2):
                continue
            if vec_count(fn, x, ("arg", 3), 8):
                continue
            return False
        return True

    def count(e):
        return vec_count(fn, e, S, 8) or vec_count(fn, e, S, 4)

    def cmp_count(a, ps):
        """Atom count(S) <p> n with p in ps."""
        if a[0] != "cmp":
            return False
        p = a[1].lstrip("us") if a[1] not in ("eq", "ne") else a[1]
        sw = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
        if count(a[2]) and isn(a[3]):
            return p in ps
        if count(a[3]) and isn(a[2]):
            return sw[p] in ps
        return False
    below = {(b, s) for b, s in fn.edges() if any(cmp_count(a, ("ne", "lt")) for a in fn.edge_atoms(b, s))}
    full = {(b, s) for b, s in fn.edges() if any(cmp_count(a, ("eq", "ge")) for a in fn.edge_atoms(b, s))}
    # growth
    grow = {}
    for r, pat in (("data", r"::resize$"), ("graph", r"::(unsafe_resize|resize)$"), ("status", r"::resize$")):
        grow[r] = [c for c in fn.calls(pat) if role(callarg(fn, c, 0)) == r]
    cnt = next((fn.EI(i) for i in fn.all() if i.op in ("lshr", "ashr") and count(fn.EI(i))), None)

    def is_cur(e):
        """The number of slots before growing."""
        e = strip(e)
        if e[0] == "call" and re.search(r"::(size|n_nodes)$", e[1]):
            c = fn.ins[e[2]]
            r = role(callarg(fn, c, 0))
            return r in grow and not any(fn.path(g, c) for g in grow[r])
        return False

    def grown(e):
        """e == cur + n - count(S); returns cur."""
        lo, hi = vec_range(fn, S)
        l = nlin(e) if isinstance(e, tuple) else e
        for k in (4, 8, None):
            d = ladd(l, ladd(hi, lo, -1), Fraction(1, k)) if k else dict(l)
            if not k:
                m = [x for x in d if isinstance(x, tuple) and count(x) and d[x] == -1]
                if len(m) != 1:
                    continue
                del d[m[0]]
            cur = [x for x in d if isinstance(x, tuple) and is_cur(x)]
            n = [x for x in d if isinstance(x, tuple) and isn(x) and x not in cur]
            if len(d) == 2 and len(cur) == 1 and len(n) == 1 and d[cur[0]] == 1 and d[n[0]] == 1:
                return cur[0]
        return None
    curs = set()
    for r, cs in grow.items():
        for c in cs:
            g = grown(callarg(fn, c, 1))
            ctx.ob("room", f"{r} grown", g is not None, c.where, f"the {r} is not grown by exactly the number of slots missing")
            curs.add(g)
            if r == "status":
                a = callargs(fn, c)
                v = (val_at(fn, a[2], c) if fn_is_ptr(fn, a[2]) else fn.E(a[2])) if len(a) > 2 else ("c", 0)
                ctx.ob("room", "appended slots are empty", v == ("c", EMPTY), c.where, "appended slots are not marked empty")
    # slots chosen
    appends = []
    for i in fn.all():
        if not i.is_call or not callargs(fn, i) or fn.E(callargs(fn, i)[0]) != S:
            continue
        a = callargs(fn, i)
        if re.search(r"::(push_back|emplace_back)$", i.name):
            v = nt(val_at(fn, a[1], i) if fn_is_ptr(fn, a[1]) else fn.E(a[1]))
            g = lambda at: (lambda t: t is not None and el("status", t[0]) is not None and nsame(el("status", t[0]), v) and t[1] <= {EMPTY})(value_test(at, DOM))
            ext = range_of(fn, i, v)
            if ext is not None and grown_range(fn, ext, grown, is_cur):
                appends.append(i)
                continue
            if ctx.ob("free", f"slot chosen at {short(i)}", fn.guarded(i, g), i.where, "a slot that is not empty can be chosen"):
                ctx.ob("free", "chosen once", increasing(fn, i, v), i.where, "the same slot can be chosen twice")
                ctx.ob("room", "not more slots than points", fn.path(None, i, cut=below) is None and fn.path(i, i, cut=below) is None, i.where, "more slots than points can be chosen")
        elif re.search(r"::(insert|_M_range_insert|append_range)$", i.name):
            lo, hi = (fn.E(x) for x in a[-2:])
            if ctx.ob("room", f"slots appended at {short(i)}", is_cur(lo) and grown(strip_max(hi, lo)) is not None and grown(strip_max(hi, lo)) == strip(lo), i.where, "the slots chosen are not the ones that were appended"):
                appends.append(i)
        elif re.search(r"^llvm\.|::(reserve|size|begin|end|cbegin|cend|at|operator\[\]|~vector|vector|data|empty|capacity)$", i.name):
            pass
        else:
            ctx.ob("free", f"slots changed at {short(i)}", False, i.where, "the chosen slots are changed: " + i.name)
    ctx.ob("room", "one slot per point", fn.path(None, ins, avoid=appends if not any(fn.loops_of(a) for a in appends) else [fn.blocks[fn.loops_of(a)[0].head][0] for a in appends], cut=full) is None, ins.where, "the ids can be entered with fewer slots than points")
    for a in appends:
        for r, cs in grow.items():
            ctx.ob("room", f"{r} grown before its new slots are used", cs and fn.path(None, a, avoid=cs) is None, a.where, f"slots are used that the {r} does not have")
    # copies
    empty = lambda a: no_elements(fn, a, S, isn, count)
    ecut = {(b, s) for b, s in fn.edges() if any(empty(a) for a in fn.edge_atoms(b, s))}
    con = [c for c in fn.calls(r"VamanaBuilder::construct$")]
    ctx.need(con, "linking of the new points in add_points")
    done = {"copy": [], "clear": []}
    for c in on_x(fn, R, X, r"::set_datum$", "data"):
        k = vec_elem(fn, callarg(fn, c, 1), S)
        s = datum_src(fn, c)
        ok = k is not None and s is not None and fn.E(callargs(fn, s)[0]) == ("arg", 2) and nsame(callarg(fn, s, 1), k)
        if ctx.ob("pair", f"vector stored at {short(c)}", ok, c.where, "vector number k is not stored at the k-th slot"):
            l = full_cover(fn, c, k, S, isn, count)
            if l is not None and every_iteration(fn, l, c):
                done["copy"].append(l)
    for c in on_x(fn, R, X, r"::clear_node$", "graph"):
        k, l = slot_cover(fn, c, callarg(fn, c, 1), S, isn, count)
        if ctx.ob("pair", f"list cleared at {short(c)}", k, c.where, "the adjacency list cleared is not one of a new slot"):
            if l is not None and every_iteration(fn, l, c):
                done["clear"].append(l)
    for n, ls in done.items():
        for c in con:
            av = [x for l in ls for x in blocks_of(fn, l.head)]
            ctx.ob("link", n + " before linking", ls and fn.path(None, c, avoid=av, cut=ecut) is None, c.where, f"the graph can be linked before every new slot was handled ({n})")
            ctx.ob("link", n + " not after linking", all(fn.path(c, av_) is None for av_ in av), c.where, "slots are changed after they were linked")
    for c in on_x(fn, R, X, r"::set_datum$", "data") + on_x(fn, R, X, r"::clear_node$", "graph"):
        ctx.ob("pair", f"after the ids were entered ({short(c)})", fn.path(None, c, avoid=[ins]) is None, c.where, "vectors or lists are changed before the ids were accepted")
    for c in con:
        b = fn.E(callargs(fn, c)[0])
        mk = [x for x in fn.calls(r"VamanaBuilder::VamanaBuilder$") if fn.E(callargs(fn, x)[0]) == b]
        ok = mk and all(role(callarg(fn, x, 1)) == "graph" and role(callarg(fn, x, 2)) == "data" for x in mk)
        ctx.ob("link", "own graph and data", ok, c.where, "another graph or dataset is linked")
        ctx.ob("link", "the new slots", any(fn.E(a) == S for a in callargs(fn, c)), c.where, "linking is not given the new slots")
        ep = callarg(fn, c, 2)
        ctx.ob("link", "entry point", any(x[0] == "ld" and (role(x[1]) == "entry_point") for x in walk(ep)) or role(ep) == "entry_point", c.where, "linking does not start at the index's entry point")
    # live
    marks = []
    for s in fn.all("store"):
        k = el("status", fn.E(s.ops[1]))
        if k is None:
            continue
        v = fn.E(s.ops[0])
        if not ctx.ob("live", f"state stored at {short(s)}", v == ("c", VALID), s.where, "a state other than live is stored"):
            continue
        isl, l = slot_cover(fn, s, k, S, isn, count)
        ctx.ob("live", "only new slots", isl, s.where, "a slot that is not one of the new ones is marked live")
        ctx.ob("live", "after linking", fn.path(None, s, avoid=con) is None, s.where, "a slot can be marked live before it is linked")
        if l is not None and every_iteration(fn, l, s):
            marks.append(l)
    rets = [r for r in fn.rets()]
    ctx.ob("live", "every new slot", marks and fn.path(None, lambda i: i.op == "ret", avoid=[x for l in marks for x in blocks_of(fn, l.head)], cut=ecut) is None, fn.name, "a new point can stay unsearchable")
    ctx.minimum("pair", 4)


def elem_at(fn, R, X, role, e):
    e = strip(e)
    a = e[1] if e[0] == "ld" else e
    b, o, v = split(a)
    if b[0] == "ld" and R.role(fn, b, X) == role:
        return index_of(o, v)
    if b[0] == "call" and re.search(r"::(at|operator\[\]|getindex)$", b[1]) and not v:
        c = fn.ins[b[2]]
        if R.role(fn, callarg(fn, c, 0), X) == role:
            return callarg(fn, c, 1)
    return None


def on_x(fn, R, X, pat, role):
    return [c for c in fn.calls(pat) if R.role(fn, callarg(fn, c, 0), X) == role]


def strip_max(hi, lo):
    hi = strip(hi)
    if hi[0] in ("umax", "smax"):
        a, b = hi[1], hi[2]
        return b if strip(a) == strip(lo) else a
    return hi


def increasing(fn, at, v):
    """The value v at instruction `at` is strictly larger every time it is executed."""
    for l in fn.loops_of(at):
        for p, ini, st in l.inductions():
            if ("phi", p.id) == v and st and st > 0:
                return len(fn.loops_of(at)) == 1
    if v[0] == "ld":
        b, o, vv = split(v[1])
        if b[0] == "alloca" and not vv and len(fn.loops_of(at)) == 1:
            l = fn.loops_of(at)[0]
            inn = [s for s, so in fn.stores_raw(b[1]) if s.b in l.body]
            ok = inn and all(lin(fn.E(s.ops[0])).get(v) == 1 and set(lin(fn.E(s.ops[0]))) <= {v, 1} and lin(fn.E(s.ops[0])).get(1, 0) > 0 for s in inn)
            return bool(ok) and fn.path(at, at, avoid=inn) is None
    return False


def range_of(fn, at, v):
    for l in fn.loops_of(at):
        for phi, ini, bound, st in counted(fn, l):
            if phi == v and st == 1 and every_iteration(fn, l, at):
                return ini, bound
    return None


def grown_range(fn, ext, grown, is_cur):
    lo, hi = ext
    ks = [k for k in lo if k != 1]
    return len(ks) == 1 and lo == {ks[0]: 1} and is_cur(ks[0]) and grown(hi) == ks[0]


def no_elements(fn, a, S, isn, count):
    """Atom stating that a range of slots (all of them, or a worker's share) is empty."""
    if a[0] != "cmp" or a[1] not in ("eq", "ule", "sle", "uge", "sge"):
        return False
    l, r = nlin(a[2]), nlin(a[3])
    if a[1] in ("eq",):
        d = ladd(l, r, -1)
        lo, hi = vec_range(fn, S)
        if d in (ladd(hi, lo, -1), ladd(lo, hi, -1)):
            return True
        sl, sr = share_atom(l), share_atom(r)
        if sl and sr and sl[0] == sr[0] and sl[1] != sr[1]:
            return True
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if y == ("c", 0) and (count(x) or isn(x)):
                return True
        return False
    # begin >= end
    p, q = (l, r) if a[1] in ("uge", "sge") else (r, l)
    sl, sr = share_atom(p), share_atom(q)
    return bool(sl and sr and sl[0] == sr[0] and sl[1] == 0 and sr[1] == 1)


def full_cover(fn, at, k, S, isn, count):
    """Loop in which index k runs over all of [0, number of slots) (or a worker's share of it) at instruction `at`."""
    ph = phase(fn, at, nt(k))
    if ph is not None and (count(ph.n) or isn(ph.n)):
        return ph.loop
    for loop in fn.loops_of(at):
        for phi, ini, bound, st in counted(fn, loop):
            if nlin(k) == {phi: 1} and st == 1 and ini == {}:
                ks = [x for x in bound]
                if len(ks) == 1 and ks[0] != 1 and bound[ks[0]] == 1 and (count(ks[0]) or isn(ks[0])):
                    return loop
                if any(bound == nlin(("bin", op, ("bin", "sub", ("ld", ir.mkaddr(S, 8, ())), ("ld", S)), ("c", 3))) for op in ("lshr", "ashr", "lshrx", "ashrx")):
                    return loop
    return None


def slot_cover(fn, at, e, S, isn, count):
    """(e is a chosen slot, loop running over all of them)."""
    e = nt(strip(e))
    k = vec_elem(fn, e, S)
    if k is not None:
        return True, full_cover(fn, at, k, S, isn, count)
    if e[0] == "ld" and vec_ptr(fn, e[1], S):
        cv = cover(fn, at, e[1])
        if cv is None or cv.stride not in (4, 8):
            return True, None
        lo, hi = vec_range(fn, S)
        if cv.lo == lo and cv.hi == hi:
            return True, cv.loop
        a, b = nform(ladd(cv.lo, lo, -1)), nform(ladd(cv.hi, lo, -1))
        a, b = share_atom(lscale(a, Fraction(1, int(cv.stride)))), share_atom(lscale(b, Fraction(1, int(cv.stride))))
        if a and b and a[0] == b[0] and (a[1], b[1]) == (0, 1):
            n = callarg(fn, fn.ins[a[0]], 0)
            if count(n) or isn(n):
                return True, cv.loop
        return True, None
    return False, None
