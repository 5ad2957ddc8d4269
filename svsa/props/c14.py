"""C14: parallel graph construction changes a vertex only with exclusive access.

Analysed: the builder's two phases and its overflow buffer, and both phases of consolidation, with the job of a parallel run
inlined for one arbitrary worker. Everything a job does to the graph is classified: done under the lock of that vertex, done to
a vertex only this worker is responsible for, or a read."""
from ..lib import *
from ..renum import *
from .. import ir, dyn
from ..locks import Locks, LOCK, SHARED, UNLOCK
from .c05 import callargs, blocks_of, short
from .c06 import canonical, by_worker, must_ret, BPOL, BE
from . import c04
import re

POL = "opaque ^svs::SpinLock::\n" + BPOL + BE("bb_ctor") + "+inline ^svs::index::vamana::BackedgeBuffer::\n" + BE("ctor") + "+opaque ^svs::index::vamana::BackedgeBuffer::\n"
WRITE = r"::(add_edge|replace_node|clear_node|reset|unsafe_resize|add_node|resize|swap_ids|set_degree|get_node_mut\w*)$"
READ = r"::(get_node|get_node_degree|has_edge|greedy_search)$"
PURE = r"::(n_nodes|max_degree|size|prefetch_node|get_node|get_node_degree|has_edge|begin|end|c?begin|c?end|dimensions|empty|at|operator\[\])$"


def check(ctx):
    mb, mc = ctx.analyse_all([("builder.cpp", POL), ("dynamic.cpp", "opaque ^svs::SpinLock::\n" + c04.MAIN)])
    ctx.rule("lock", "a list that any worker may reach is changed only under the lock of that very vertex, shared by all workers, and the decision whether the edge fits is taken under it")
    ctx.rule("order", "a lock taken is released on every way out, and no second vertex is locked while one is")
    ctx.rule("bucket", "the overflow list of a vertex is changed only under the lock of its bucket, which is the same for every edge of that vertex")
    ctx.rule("owner", "lists replaced without a lock belong to vertices of the running worker alone")
    ctx.rule("apart", "a phase that replaces lists without a lock reads no list but the one it replaces, and a phase that reads other lists replaces none")
    gen, rev = ctx.one(mb, "generate"), ctx.one(mb, "reverse")
    gr = lambda fn: lambda e: canonical(fn, e) == "graph_"
    for fn in (gen, rev):
        job(ctx, fn, gr(fn), "generate" if fn is gen else "reverse")
    ctx.ob("lock", "graph extended in parallel", bool(writes(rev, gr(rev))), rev.name, "edges are not linked back")
    bucket(ctx, ctx.one(mb, "bb_add"))
    sizes(ctx, ctx.one(mb, "ctor"), ctx.one(mb, "bb_ctor"), rev, ctx.one(mb, "bb_add"))
    fn = ctx.one(mc, "consolidate")
    R = dyn.Roles(mc)
    job(ctx, fn, lambda e: R.role(fn, e, 0) == "graph", "consolidate")
    ctx.minimum("lock", 3)
    ctx.minimum("owner", 3)
    ctx.minimum("apart", 4)
    ctx.minimum("bucket", 3)


def writes(fn, is_graph):
    return [c for c in fn.calls(WRITE) if callargs(fn, c) and is_graph(fn.E(callargs(fn, c)[0]))]


def job_of(fn, i):
    """The parallel run an instruction belongs to (or comes after): the last worker start that dominates it."""
    best = None
    for w in fn.calls(r"svsa_any_worker$"):
        if fn.dominates(w, i) and (best is None or fn.dominates(best, w)):
            best = w
    return best


def graph_reads(fn, is_graph):
    """(instruction, vertex or None) for everything that reads lists of the graph."""
    out = []
    for c in fn.calls():
        a = callargs(fn, c)
        if not a or re.search(WRITE, c.name):
            continue
        if re.search(r"::(get_node|get_node_degree|has_edge)$", c.name) and is_graph(fn.E(a[0])):
            out.append((c, nt(fn.E(a[1]))))
        elif not re.search(PURE, c.name) and any(is_graph(fn.E(x)) for x in a):
            out.append((c, None))
    return out


def strides(lo, hi, s):
    """[lo, hi) in units of s, with the common base removed."""
    base = {k: v for k, v in lo.items() if k in hi and hi[k] == v and not (k[0] in ("ev", "rmw") if isinstance(k, tuple) else False)}
    f = Fraction(1, int(s))
    return lscale(ladd(lo, base, -1), f), lscale(ladd(hi, base, -1), f)


def own_ptr(fn, at, p, d=0):
    """The pointer runs over a part of a sequence that is this worker's alone; or lies in memory selected by the worker's number."""
    cv = cover(fn, at, p)
    if cv is None or not cv.stride:
        return False
    a, b = strides(nform(cv.lo), nform(cv.hi), cv.stride)
    x, y = share_atom(a), share_atom(b)
    if x and y and x[0] == y[0] and (x[1], y[1]) == (0, 1):
        return True
    if a and chunk_of(fn, a, b) is not None:
        return True
    # begin and end of a container selected by the worker's number
    ks = [k for k in cv.lo if k != 1]
    return len(ks) == 1 and ks[0][0] == "ld" and by_worker(fn, ks[0][1])


def owner(fn, at, e):
    """The vertex is one only this worker is responsible for."""
    e = nt(e)
    L = nlin(e)
    for k in L:
        if isinstance(k, tuple) and k[0] == "phi" and L[k] == 1 and share(fn, at, k) is not None:
            w = job_of(fn, at)
            rest = ladd(L, {k: 1}, -1)
            if all(not (j == 1) or True for j in rest) and all(not fn.dominates(w, fn.ins[n]) for j in rest if j != 1 for n in instrs(j) if n in fn.ins):
                return "share"
    if e[0] == "ld":
        if own_ptr(fn, at, e[1]):
            return "element"
        # key of a container entry reached from a container of this worker's own
        b, o, v = split(e[1])
        src = b
        if src[0] == "call" and re.search(r"robin_iterator::(operator(\*|->)|key)$", src[1]) and not v and o == 0:
            it = split(fn.E(callargs(fn, fn.ins[src[2]])[0]))[0]
            if it[0] == "alloca":
                begins = {x for st, _ in fn.stores_raw(it[1]) for x in walk(fn.E(st.ops[0])) if isinstance(x, tuple) and x and x[0] == "call"}
                ok = bool(begins)
                for x in begins:
                    c = fn.ins[x[2]]
                    ok &= bool(re.search(r"robin_(map|set|hash)::(c?begin|find)$", c.name)) and own_ptr(fn, c, fn.E(callargs(fn, c)[0]))
                if ok:
                    return "key"
    return None


def instrs(e):
    for x in walk(e):
        if isinstance(x, tuple) and x:
            if x[0] == "phi":
                yield x[1]
            elif x[0] in ("call", "rmw") and len(x) > 2:
                yield x[2]


def shared(fn, root, w):
    """The lock is one all workers use: not an object that comes to life within the job."""
    if root[0] != "alloca":
        return True
    a = fn.ins[root[1]]
    uses = [u for u in fn.users.get(a.id, [])] if isinstance(fn.users, dict) else []
    return not any(fn.dominates(w, u) and (u.op == "store" or u.is_call and not re.search(LOCK + "|" + UNLOCK, u.name)) for u in uses)


def lock_index(fn, h):
    b, o, v = split(h)
    return [x for x, _ in v]


def names(fn, h, node):
    """The lock is that of the vertex: chosen by it alone (its own, that of a group it belongs to, or one for all)."""
    idx = lock_index(fn, h)
    if not idx:
        return "one"
    if len(idx) == 1:
        L = nlin(idx[0])
        if nsame(idx[0], node):
            return "own"
        hidden = subst_e(nt(idx[0]), node, ("hole",))
        if hidden != nt(idx[0]) and not list(instrs(hidden)):
            return ("group", str(hidden))
    return None


def job(ctx, fn, is_graph, what):
    L = Locks(fn)
    ws = fn.calls(r"svsa_any_worker$")
    ctx.ob("apart", f"{what}: parallel runs found", len(ws) >= 2, fn.name, "a phase does not run as a parallel job")
    W = writes(fn, is_graph)
    kinds = {}
    for c in W:
        w = job_of(fn, c)
        a = callargs(fn, c)
        if w is None:
            continue            # before any worker starts
        if len(a) < 2:
            ctx.ob("owner", f"{what}: {c.name.split('::')[-1]} in a job", False, c.where, "a worker changes the whole graph")
            continue
        node = nt(fn.E(a[1]))
        held = [h for h in L.at(c) if h[1] == "x" and names(fn, h[0], node) and shared(fn, split(h[0])[0], w)]
        if held:
            kinds.setdefault(w.id, []).append((c, node, held))
            ctx.ob("lock", f"{what}: {c.name.split('::')[-1]} under the vertex' lock", True, c.where, "")
            # the test that the edge fits
            for t in fn.calls(r"::get_node_degree$"):
                if is_graph(fn.E(callargs(fn, t)[0])) and nsame(fn.E(callargs(fn, t)[1]), node) and job_of(fn, t) is w:
                    th = L.at(t)
                    ctx.ob("lock", f"{what}: room tested under the same lock", any(h in th for h in held), t.where, "whether the list has room is decided before the vertex is locked")
        elif L.ops and not c.name.endswith("replace_node") and owner(fn, c, node) is None:
            ctx.ob("lock", f"{what}: {c.name.split('::')[-1]} under the vertex' lock", False, c.where, "a list other workers may be changing is changed without holding the lock of that vertex")
            kinds.setdefault(w.id, []).append((c, node, []))
        else:
            o = owner(fn, c, node)
            ctx.ob("owner", f"{what}: {c.name.split('::')[-1]} of an own vertex", o is not None, c.where, "a list is changed without a lock and is not that of a vertex only this worker handles")
            kinds.setdefault(w.id, []).append((c, node, None))
    # all locks of one kind
    forms = {names(fn, h[0], n) for ks in kinds.values() for _, n, hs in ks if hs for h in hs}
    roots = [frozenset((split(h[0])[0], split(h[0])[1]) for h in hs) for ks in kinds.values() for _, n, hs in ks if hs]
    if roots:
        ctx.ob("lock", f"{what}: one lock per vertex", bool(frozenset.intersection(*roots)) and len(forms) >= 1, fn.name, "two places that change the same list use different locks")
    # reads
    for w in ws:
        mine = kinds.get(w.id, [])
        unlocked = [(c, n) for c, n, h in mine if h is None]
        reads = [(c, n) for c, n in graph_reads(fn, is_graph) if job_of(fn, c) is w]
        k = ws.index(w)
        if unlocked:
            bad = [c for c, n in reads if n is None or not any(nsame(n, m) for _, m in unlocked)]
            after = [c for c in bad if any(fn.path(w, c) is not None for _ in (0,))]
            ctx.ob("apart", f"{what}: run {k + 1} replaces lists and reads no others", not after, after[0].where if after else w.where, "a list is read while another worker may be replacing it")
        else:
            repl = [c for c, n, h in mine if c.name.endswith(("replace_node", "clear_node"))]
            ctx.ob("apart", f"{what}: run {k + 1} replaces no list that others read", not (repl and reads), repl[0].where if repl else w.where, "a list is replaced while another worker may be reading it")
    # updates handed from one run to the next
    for c in W:
        n = nt(fn.E(callargs(fn, c)[1])) if len(callargs(fn, c)) > 1 else None
        if n is not None and n[0] == "ld" and by_worker_elem(fn, c, n):
            updates(ctx, fn, c, n, what)
    # release, order
    for i, (k, a) in L.ops.items():
        if k == "u" or job_of(fn, fn.ins[i]) is None:
            continue
        o = fn.ins[i]
        ctx.ob("order", f"{what}: released", L.released(o), o.where, "the vertex stays locked on some way out")
        ctx.ob("order", f"{what}: one vertex at a time", not L.at(o), o.where, "a vertex is locked while another lock is held: two workers can wait for each other")


def by_worker_elem(fn, at, n):
    cv = cover(fn, at, n[1])
    if cv is None:
        return False
    ks = [k for k in cv.lo if k != 1]
    return len(ks) == 1 and ks[0][0] == "ld" and by_worker(fn, ks[0][1])


def updates(ctx, fn, c, n, what):
    """Lists collected per worker in an earlier run: each was put there by that worker, for a vertex of its own."""
    cv = cover(fn, c, n[1])
    base = [k for k in cv.lo if k != 1][0][1]
    root = split(base)[0]
    puts = 0
    for p in fn.calls(r"vector::(emplace_back|push_back)$"):
        a = callargs(fn, p)
        t = fn.E(a[0])
        if split(t)[0] != root or len(a) < 2 or not (split(t)[2] or split(t)[1] == split(base)[1]):
            continue
        w = job_of(fn, p)
        v = val_at(fn, a[1], p) if fn_is_ptr(fn, a[1]) else fn.E(a[1])
        while v[0] in ("ext", "trunc") and len(v) > 2:
            v = v[-1]
        puts += 1
        ctx.ob("owner", f"{what}: collected in the worker's own slot", w is not None and by_worker(fn, t) and w in [fn.ins[x] for e in [nt(split(t)[2][0][0])] if split(t)[2] for x in instrs(e) if x in fn.ins] or w is not None and by_worker(fn, t),
               p.where, "workers collect into the same list")
        ctx.ob("owner", f"{what}: collected for an own vertex", owner(fn, p, v) is not None, p.where, "the vertex collected is not one only this worker handles")
    ctx.ob("owner", f"{what}: lists applied were collected", puts > 0, c.where, "the origin of the lists applied is not the worker's own collection")


def bucket(ctx, fn):
    L = Locks(fn)
    ops = [c for c in fn.calls(r"(robin_map|robin_set|robin_hash|vector)::(operator\[\]|try_emplace|emplace|emplace_back|push_back|insert|insert_or_assign|at|find|value|erase|clear)$") if not re.search(r"vector::at$", c.name)]
    ctx.ob("bucket", "edges are recorded", bool(ops), fn.name, "an overflow edge is not recorded")
    idx = set()
    for c in ops:
        held = {h for h in L.at(c) if h[1] == "x" and split(h[0])[0][0] != "alloca"}
        good = []
        b = None
        for h in held:
            good.append(lock_index(fn, h[0]))
        t = fn.E(callargs(fn, c)[0])
        bi = [x for x, _ in split(t)[2]]
        if split(t)[0][0] == "ld" and bi:
            idx.add(str(nlin(bi[0])))
            b = bi[0]
            free = [x for x in walk(nt(b)) if isinstance(x, tuple) and x and x[0] in ("call", "phi", "rmw")]
            args = {x for x in walk(nt(b)) if isinstance(x, tuple) and x and x[0] == "arg"}
            flds = [x for x in walk(nt(b)) if isinstance(x, tuple) and x and x[0] == "ld" and split(x[1])[0] != ("arg", 0)]
            ctx.ob("bucket", "one bucket per vertex", not free and not flds and args <= {("arg", 0), ("arg", 1)}, c.where, "edges of one vertex can end up in different buckets")
            ok = any(not g or nsame(g[0], b) or nt(b) in list(walk(nt(g[0]))) and not [x for x in walk(subst_e(nt(g[0]), nt(b), ("hole",))) if isinstance(x, tuple) and x and x[0] == "arg" and x != ("arg", 0)] or
                     nt(g[0]) in list(walk(nt(b))) and nt(g[0]) != ("arg", 1) and False for g in good)
            # a coarser lock: chosen by the bucket alone, or one for all
            ctx.ob("bucket", "under the bucket's lock", ok, c.where, "the bucket is changed without holding its own lock")
        else:
            ctx.ob("bucket", "under a lock", bool(held), c.where, "the overflow list is changed without holding a lock")
    ctx.ob("bucket", "a bucket is chosen", len(idx) == 1, fn.name, "the bucket an edge is recorded in is not a function of its vertex")
    for i, (k, a) in L.ops.items():
        if k != "u":
            ctx.ob("order", "bucket lock released", L.released(fn.ins[i]), fn.ins[i].where, "the bucket stays locked on some way out")


def sizes(ctx, fn, bb, rev, add):
    """There is a lock for every vertex, and one for every bucket."""
    for h in {o[1] for o in Locks(rev).ops.values() if o[0] == "x"}:
        b, o, v = split(h)
        if b[0] != "ld" or not v:
            continue            # a single lock
        own, off, _ = split(b[1])
        if own != ("arg", 0) or not nlin(v[0][0]) or len(nlin(v[0][0])) != 1:
            continue
        ok = False
        for c in fn.calls(r"^std::vector::(vector|resize)$"):
            a = callargs(fn, c)
            if len(a) > 1 and split(fn.E(a[0]))[:2] == (("arg", 0), off):
                e = nt(fn.E(a[1]))
                ok |= e[0] == "call" and bool(re.search(r"::(size|n_nodes)$", e[1])) and split(fn.E(callargs(fn, fn.ins[e[2]])[0]))[0] in (("arg", 1), ("arg", 2)) and must_ret(fn, c)
        ctx.ob("lock", "a lock for every vertex", ok, fn.name, "there may be fewer locks than vertices")
    cnt = {}
    for c in bb.calls(r"^std::vector::(vector|resize)$"):
        a = callargs(bb, c)
        if len(a) > 1:
            cnt[split(bb.E(a[0]))[1]] = nt(bb.E(a[1]))
    use = {}
    L = Locks(add)
    for k, h in L.ops.values():
        b, o, v = split(h)
        if k == "x" and b[0] == "ld" and v:
            use["lock"] = split(b[1])[1], nlin(v[0][0])
    for c in add.calls(r"(robin_map)::(operator\[\]|try_emplace|emplace|insert|at)$"):
        b, o, v = split(add.E(callargs(add, c)[0]))
        if b[0] == "ld" and v:
            use["map"] = split(b[1])[1], nlin(v[0][0])
    if len(use) == 2 and use["lock"][1] == use["map"][1]:
        ctx.ob("bucket", "as many locks as buckets", use["lock"][0] in cnt and cnt.get(use["lock"][0]) == cnt.get(use["map"][0]), bb.name, "there may be fewer locks than buckets")
