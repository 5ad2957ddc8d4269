"""C04: consolidation removes every reference to deleted points.

Analysed: MutableVamanaIndex::consolidate composed with the graph consolidator (both pool phases modelled by one arbitrary
worker), with the choice of a new entry point, and the buffer holding the pending updates of a batch."""
from ..lib import *
from ..renum import *
from .. import ir, dyn
from .c05 import callargs, blocks_of, short
from .c06 import elem_at, pre_iter, by_worker, is_ret, pool_of, must_ret

EMPTY, VALID, DELETED = 0, 1, 2
DOM = (0, 1, 2)
BASE = r"""opaque ^svs::index::vamana::(heuristic_prune_neighbors$|BulkUpdate::%s)
opaque ^svs::IDTranslator::
opaque ^svs::threads::balance
opaque ^svs::data::(SimpleData|DenseArray)::
opaque ^svs::graphs::
opaque ^svs::distance::(DistanceL2::)?compute$
opaque ^svs::logging::
opaque ^svs::lib::narrow(_cast)?$
model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run
opaque ^svs::threads::NativeThreadPoolBase::
"""
MAIN = BASE % "" + "opaque ^svs::index::vamana::extensions\n" + dyn.entries("consolidate")
ENTRY = BASE % "|consolidate$" + "opaque ^svs::utils::(compute_|op_pairwise|CountSum)\n" + dyn.entries("consolidate")
BULK = "opaque ^svs::lib::narrow(_cast)?$\n" + dyn.entries("bu_insert", "bu_needs", "bu_get", "bu_prepare")


def check(ctx):
    mm, me, mb = ctx.analyse_all([("dynamic.cpp", MAIN), ("dynamic.cpp", ENTRY), ("consolidate.cpp", BULK)])
    ctx.rule("visit", "every live vertex of every batch is checked against its own neighbours, and left alone only when all of them are live")
    ctx.rule("collect", "candidates are the vertex's live neighbours and the neighbours of its deleted neighbours, collected afresh for each vertex")
    ctx.rule("live-only", "only live vertices reach the pruning, whose result becomes the pending list of that vertex")
    ctx.rule("apply", "every pending list replaces the list of its vertex, after the batch was examined and before the next one is")
    ctx.rule("batches", "the batches are all vertices of the graph, and each starts without pending updates")
    ctx.rule("entry", "a deleted entry point is replaced by a live vertex")
    ctx.rule("release", "deleted slots, and no others, become free, after every batch was applied")
    ctx.rule("pending", "a pending list is stored and returned under its own position, complete, and forgotten before the next batch")
    fn = ctx.one(mm, "consolidate")
    main(ctx, fn, dyn.Roles(mm))
    entry(ctx, ctx.one(me, "consolidate"), dyn.Roles(me))
    bulk(ctx, *(ctx.one(mb, "bu_" + x) for x in ("insert", "needs", "get", "prepare")))


class St:
    """Tests of slot states."""

    def __init__(self, fn, R):
        self.fn, self.R = fn, R

    def elem(self, e):
        k = elem_at(self.fn, self.R, 0, "status", e)
        if k is None:
            a = strip(e)
            a = a[1] if a[0] == "ld" else a
            b, o, v = split(a)
            if b[0] == "phi" and not v and o == 0:
                vb = vecbase(self.fn, b)
                if vb is not None and self.R.role(self.fn, vb, 0) == "status":
                    return ("at", b)
        return k

    def test(self, a):
        t = value_test(a, DOM)
        if t is None:
            return None
        k = self.elem(t[0])
        return None if k is None else (nt(k), t[1])

    def live(self, k):
        """Predicate: vertex k is not a deleted one."""
        return lambda a: (lambda t: t is not None and nsame(t[0], k) and DELETED not in t[1])(self.test(a))

    def dead(self, k):
        """Predicate: vertex k is not live."""
        return lambda a: (lambda t: t is not None and nsame(t[0], k) and VALID not in t[1])(self.test(a))


def list_of(fn, e):
    """(lo, hi) linear forms of the neighbour list returned by a get_node call."""
    ev = lambda n: ("ev", ("call", e.name, e.id), (n,))
    return lin(ev(0)), nform(ladd(lin(ev(0)), lin(ev(1)), Fraction(4)))


def skip_or(fn, loop, ins, preds, start=None):
    """Every iteration that comes round again executes one of the instructions or takes an edge on which a predicate holds."""
    cut = {(b, s) for b, s in fn.edges() if b in loop.body and any(p(a) for a in fn.edge_atoms(b, s) for p in preds)}
    cut |= fn.unwind_edges() | set(loop.exits())
    stop = {i.b for i in ins}
    if loop.head in stop:
        return True
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        for s in fn.succ[b]:
            if (b, s) in cut or s in seen or s in stop:
                continue
            if s == loop.head:
                return False
            seen.add(s)
            work.append(s)
    return True


def main(ctx, fn, R):
    st = St(fn, R)
    role = lambda e: R.role(fn, e, 0)
    total = lambda e: e[0] == "call" and re.search(r"::(n_nodes|size)$", e[1]) is not None and role(fn.E(callargs(fn, fn.ins[e[2]])[0])) in ("graph", "data")
    gets = [c for c in fn.calls(r"::get_node$") if role(fn.E(callargs(fn, c)[0])) == "graph"]
    INS = fn.calls(r"BulkUpdate::insert$")
    REP = [c for c in fn.calls(r"::replace_node$") if role(fn.E(callargs(fn, c)[0])) == "graph"]
    ctx.ob("visit", "lists collected", bool(INS), fn.name, "no list is replaced")
    ctx.ob("apply", "lists applied", bool(REP), fn.name, "no list is applied")
    PREP = fn.calls(r"BulkUpdate::prepare$")
    bt = None
    for l in fn.loops:
        b = batches(fn, l, lambda e: total(nt(e)))
        if b is not None and all(c.b in l.body for c in INS + REP):
            bt = b
    if not ctx.ob("batches", "all vertices", bt is not None, fn.name, "the batches are not consecutive, or do not add up to all vertices"):
        return
    BL = bt.loop
    ecut = {(b, s) for b, s in fn.edges() if any(nothing_to_share(fn, a) for a in fn.edge_atoms(b, s))}

    def blen(e):
        """e is the number of vertices of the batch."""
        e = nt(e)
        if batch_len(e, bt):
            return True
        # stop' - start with stop' = max(stop, start)
        l = lin(e)
        for k in l:
            if isinstance(k, tuple) and k[0] == "umax" and l[k] == 1:
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if nsame(a, bt.stop) and nsame(b, bt.start) and ladd(l, {k: 1}, -1) == lscale(nlin(bt.start), -1):
                        return True
        return False
    vertex = lambda i: ("bin", "add", bt.start, i)
    head = fn.blocks[BL.head][0]
    for c in INS:
        _, pos, lst = callargs(fn, c)[:3]
        i = nt(fn.E(pos))
        sh = share(fn, c, i)
        ok = sh is not None and blen(sh.n)
        if not ctx.ob("visit", "positions of a batch", ok, c.where, "the positions examined are not those of the batch"):
            continue
        k = nt(vertex(i))
        ctx.ob("visit", "every worker takes part", fn.path(None, lambda x: x in REP, avoid=[y for h in sh.heads for y in blocks_of(fn, h)], cut=ecut) is None, c.where, "vertices of a batch can be left out")
        own = [g for g in gets if nsame(callarg(fn, g, 1), k)]
        # loops through the vertex's own list that only go on past live neighbours
        clean = set()
        for g in own:
            lo, hi = list_of(fn, g)
            for l in fn.loops:
                if l.head not in sh.loop.body:
                    continue
                el = elem_exprs(fn, l, lo, hi)
                if el and skip_or(fn, l, [], [st.live(e) for e in el]):
                    clean |= {(b, s) for b, s in l.live_exits() if exit_by_end(fn, l, b, s)}
        dead = st.dead(k)
        cutE = {(b, s) for b, s in fn.edges() if b in sh.loop.body and any(dead(a) for a in fn.edge_atoms(b, s))} | clean
        ctx.ob("visit", "left alone only when dead or without deleted neighbours", iter_needs(fn, sh.loop, c, cutE), c.where, "a live vertex with a deleted neighbour can be left as it is")
        # pruning
        res = fn.E(lst)
        pr = [p for p in fn.calls(r"::heuristic_prune_neighbors$") if fn.E(callargs(fn, p)[-1]) == res]
        okp = bool(pr) and any(pre_iter(fn, sh.loop, c, p) for p in pr) and all(any(nsame(fn.E(x), k) for x in callargs(fn, p)) for p in pr)
        if not ctx.ob("live-only", "pruned for its own vertex", okp, c.where, "the pending list is not the pruning result of this vertex"):
            continue
        for p in pr:
            vec = vec_behind(fn, p, res)
            puts = [(x, v) for x, v in vec_puts(fn, vec)] if vec is not None else []
            ctx.ob("live-only", "candidates found", bool(puts), p.where, "no candidates reach the pruning")
            clears = [x for x in fn.calls(r"vector::clear$") if fn.E(callargs(fn, x)[0]) == vec]
            cand = None
            for x, v in puts:
                idx = put_id(fn, x)
                okl = idx is not None and fn.guarded(x, st.live(idx))
                ctx.ob("live-only", f"candidate at {short(x)}", okl, x.where, "a deleted vertex can become a neighbour")
                ctx.ob("live-only", "fresh candidates", any(pre_iter(fn, sh.loop, x, y) for y in clears), x.where, "candidates of another vertex are kept")
                if idx is None:
                    continue
                it = [y for y in walk(idx) if isinstance(y, tuple) and y and y[0] == "call" and re.search(r"robin_iterator::operator(\*|->)$|::key$", y[1])]
                lp = fn.loops_of(x)
                if ctx.ob("live-only", "from the collected set", bool(it) and len(lp) > 0, x.where, "candidates do not come from the collected set"):
                    cand = set_of(fn, fn.ins[it[0][2]])
                    ctx.ob("live-only", "all live ones", skip_or(fn, lp[0], [x], [st.dead(idx)]) and ended_by_iterator(fn, lp[0]), x.where, "live candidates are dropped")
            if cand is None:
                continue
            sinks = [x for x in fn.calls(r"robin_set::(insert|emplace)$") if fn.E(callargs(fn, x)[0]) == cand]
            sclear = [x for x in fn.calls(r"robin_set::clear$") if fn.E(callargs(fn, x)[0]) == cand]
            single, ranges = [], []
            for x in sinks:
                a = callargs(fn, x)
                if len(a) >= 3:
                    ranges.append(x)
                else:
                    single.append(x)
                ctx.ob("collect", f"collected afresh ({short(x)})", any(pre_iter(fn, sh.loop, x, y) for y in sclear), x.where, "candidates collected for another vertex are kept")
            ctx.ob("collect", "collected before pruning", all(fn.path(p, x, avoid=blocks_of(fn, sh.loop.head)) is None for x in sinks), p.where, "candidates are collected too late")
            done = False
            for g in own:
                lo, hi = list_of(fn, g)
                for l in fn.loops:
                    if l.head not in sh.loop.body:
                        continue
                    el = elem_exprs(fn, l, lo, hi)
                    if not el:
                        continue
                    ksrc = [x for x in single if x.b in l.body and any(nsame(single_val(fn, x), e) for e in el)]
                    rsrc = [x for x in ranges if x.b in l.body and range_is_list(fn, x, gets, el)]
                    rloops = inner_copies(fn, single, l, gets, el)
                    e0 = next(iter(el))
                    lives = [st.live(e) for e in el]
                    deads = [st.dead(e) for e in el]
                    anyr = rsrc + rloops
                    if not ksrc or not anyr:
                        continue
                    if skip_or(fn, l, ksrc, deads) and skip_or(fn, l, anyr, lives):
                        done = done or all(pre_iter(fn, sh.loop, p, fn.blocks[l.head][0]) for _ in (0,)) and all_exits_end(fn, l)
            ctx.ob("collect", "neighbours and neighbours of deleted neighbours", done, p.where, "a surviving connection through a deleted neighbour, or a live neighbour, is dropped")
    # apply
    for c in REP:
        a = callargs(fn, c)
        upd = [x for x in walk(fn.E(a[2])) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("BulkUpdate::get_update")]
        if not ctx.ob("apply", "pending list", len(upd) == 1, c.where, "the list put in place is not a pending one"):
            continue
        i = nt(callarg(fn, fn.ins[upd[0][2]], 1))
        ctx.ob("apply", "own vertex", nsame(fn.E(a[1]), vertex(i)), c.where, "the pending list replaces the list of another vertex")
        sh = share(fn, c, i)
        ok = sh is not None and blen(sh.n)
        if not ctx.ob("apply", "positions of the batch", ok, c.where, "the positions applied are not those of the batch"):
            continue
        def none(x):
            t = const_test(x)
            e = t[0] if t else (x[1] if x[0] in ("true", "false") else None)
            while e is not None and e[0] in ("tb", "trunc"):
                e = e[1] if e[0] == "tb" else e[2]
            neg = x[0] == "false" or t is not None and (t[1], t[2]) in (("eq", 0), ("ne", 1))
            return neg and e is not None and e[0] == "call" and e[1].endswith("BulkUpdate::needs_update") and nsame(callarg(fn, fn.ins[e[2]], 1), i)
        ctx.ob("apply", "every pending one", skip_or(fn, sh.loop, [c], [none]), c.where, "a pending list is not applied")
        avoid = [y for h in sh.heads for y in blocks_of(fn, h)]
        ctx.ob("apply", "always applied", all(fn.path(x, head, avoid=avoid, cut=ecut) is None for x in INS), c.where, "the next batch can start before the pending lists are applied")
        ctx.ob("apply", "after the examination", all(fn.path(c, x, avoid=blocks_of(fn, BL.head)) is None for x in INS + [g for g in gets]), c.where, "the graph changes while it is examined")
    for c in INS:
        ctx.ob("batches", "no stale updates", any(pre_iter(fn, BL, c, p) and all(fn.path(x, p, avoid=blocks_of(fn, BL.head)) is None for x in INS) for p in PREP), c.where, "pending updates of the previous batch are applied to this one")
    # room in the update buffer
    for c in fn.calls(r"BulkUpdate::BulkUpdate$"):
        n, m = callargs(fn, c)[1:3]
        step = lin_minus(bt)
        ctx.ob("pending", "room for a batch", step is not None and bounded(step, fn.E(n)), c.where, "a batch can be larger than the update buffer")
        okm = all(nsame(fn.E(callargs(fn, p)[0 if not p.r.get("sret") else 0]), fn.E(m)) for p in fn.calls(r"::heuristic_prune_neighbors$"))
        ctx.ob("pending", "room for a list", okm, c.where, "a pruned list can be longer than the update buffer's rows")
    # release
    rel = []
    exits = [fn.blocks[s][0] for b, s in BL.live_exits()]
    for s in fn.all("store"):
        k = st.elem(fn.E(s.ops[1]))
        if k is None:
            continue
        k = nt(k)
        v = fn.E(s.ops[0])
        only = fn.guarded(s, lambda a: (lambda t: t is not None and nsame(t[0], k) and VALID not in t[1])(st.test(a)))
        ctx.ob("release", "only dead slots", only, s.where, "the slot of a live point is changed")
        ctx.ob("release", "freed", v == ("c", EMPTY), s.where, "a slot is given another state than free")
        ctx.ob("release", "after the graph was cleaned", fn.path(None, s, avoid=blocks_of(fn, BL.head)) is None and all(fn.path(s, x) is None for x in INS + REP), s.where, "a slot can be reused while the graph still refers to it")
        lp = fn.loops_of(s)
        if lp and skip_or(fn, lp[0], [s], [lambda a: (lambda t: t is not None and nsame(t[0], k) and DELETED not in t[1])(st.test(a))]) and whole_status(fn, R, lp[0], s):
            rel.append(lp[0])
    ctx.ob("release", "all of them", bool(rel) and fn.path(None, is_ret, avoid=[y for l in rel for y in blocks_of(fn, l.head)]) is None, fn.name, "a deleted slot can stay unusable for ever")


def exit_by_end(fn, l, b, s):
    for p, ini, bound, stp, tb in sync_bounds(fn, l, loop_bounds(fn, l, partial=True)):
        if exit_bound(fn, l, b, s, p, stp) is not None:
            return True
    return False


def all_exits_end(fn, l):
    return bool(l.live_exits()) and all(exit_by_end(fn, l, b, s) for b, s in l.live_exits())


def iter_needs(fn, loop, ins, cut):
    """Every iteration that comes round again executes ins or uses a cut edge."""
    cut = set(cut) | fn.unwind_edges() | set(loop.exits())
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        if b == ins.b:
            continue
        for s in fn.succ[b]:
            if (b, s) in cut or s in seen:
                continue
            if s == loop.head:
                return False
            seen.add(s)
            work.append(s)
    return True


def vec_behind(fn, p, res):
    for x in callargs(fn, p):
        e = fn.E(x)
        for y in ([e] + ([val_at(fn, x, p)] if fn_is_ptr(fn, x) else [])):
            if y[0] == "ld" and y[1] != res:
                for f in fn.calls(r"vector::(push_back|emplace_back)$"):
                    if fn.E(callargs(fn, f)[0]) == y[1]:
                        return y[1]
    return None


def put_id(fn, x):
    """Id component of a neighbour pushed."""
    a = callargs(fn, x)
    e = val_at(fn, a[1], x) if fn_is_ptr(fn, a[1]) else fn.E(a[1])
    return nt(e) if e is not None else None


def set_of(fn, deref):
    """Set that an iterator local runs over."""
    it = split(fn.E(callargs(fn, deref)[0]))[0]
    if it[0] != "alloca":
        return None
    for s, so in fn.stores_raw(it[1]):
        e = fn.E(s.ops[0])
        while e[0] == "ev":
            e = e[1]
        if e[0] == "call" and re.search(r"::c?begin$", e[1]):
            return fn.E(callargs(fn, fn.ins[e[2]])[0])
    return None


def ended_by_iterator(fn, l):
    ok = bool(l.live_exits())
    for b, s in l.live_exits():
        ok &= any(any(isinstance(y, tuple) and y and y[0] == "call" and re.search(r"operator(!=|==)$", y[1]) for y in walk(x[1])) for x in fn.edge_atoms(b, s) if x[0] in ("true", "false", "cmp"))
    return ok


def elem_exprs(fn, l, lo, hi):
    """Element expressions of a loop over [lo, hi)."""
    out = set()
    for p, ini, bound, stp, tb in sync_bounds(fn, l, loop_bounds(fn, l, partial=True)):
        me = ("phi", p.id)
        for i in fn.all("load"):
            if i.b in l.body:
                a = fn.E(i.ops[0])
                L = lin(a)
                if me in L and subst(L, me, ini) == lo and nform(subst(L, me, bound)) == hi and L[me] * stp == 4:
                    out.add(("ld", a))
    return out


def single_val(fn, x):
    a = callargs(fn, x)
    return nt(val_at(fn, a[1], x) if fn_is_ptr(fn, a[1]) else fn.E(a[1]))


def range_is_list(fn, x, gets, el):
    a = callargs(fn, x)
    b, e = lin(fn.E(a[-2])), nform(lin(fn.E(a[-1])))
    return any(list_of(fn, g) == (b, e) and any(nsame(callarg(fn, g, 1), k) for k in el) for g in gets)


def inner_copies(fn, single, l, gets, el):
    """First instructions of loops that insert every element of the list of one of the vertices in el."""
    out = []
    for x in single:
        for l2 in fn.loops_of(x):
            if l2.head == l.head or l2.head not in l.body:
                continue
            for g in gets:
                if any(nsame(callarg(fn, g, 1), k) for k in el):
                    lo, hi = list_of(fn, g)
                    es = elem_exprs(fn, l2, lo, hi)
                    if any(nsame(single_val(fn, x), e) for e in es) and skip_or(fn, l2, [x], []) and all_exits_end(fn, l2):
                        out.append(fn.blocks[l2.head][0])
    return out


def lin_minus(bt):
    """Largest step of a batch: stop = min(start + step, total)."""
    for a in (bt.stop[1], bt.stop[2]):
        d = dict(lin(a))
        if d.pop(bt.start, 0) == 1:
            return d
    return None


def bounded(step, cap):
    if step == nlin(cap):
        return True
    ks = list(step)
    return len(ks) == 1 and ks[0] != 1 and step[ks[0]] == 1 and ks[0][0] == "umin" and any(nlin(x) == nlin(cap) for x in ks[0][1:])


def whole_status(fn, R, l, s):
    cv = cover(fn, s, fn.E(s.ops[1]))
    if cv is None:
        return False
    lo, hi = list(cv.lo), list(cv.hi)
    if len(lo) != 1 or lo[0] == 1 or lo[0][0] != "ld" or R.role(fn, lo[0][1], 0) != "status":
        return False
    return cv.hi == lin(("ld", mkaddr(lo[0][1], 8, ())))


def entry(ctx, fn, R):
    st = St(fn, R)
    role = lambda e: R.role(fn, e, 0)
    eps = [s for s in fn.all("store") if split(fn.E(s.ops[1]))[0][0] == "ld" and R.role(fn, split(fn.E(s.ops[1]))[0], 0) == "entry_point"]
    ok_entry = lambda a: (lambda t: t is not None and is_entry(fn, R, t[0]) and DELETED not in t[1])(st.test(a))
    cut = {(b, s) for b, s in fn.edges() if any(ok_entry(a) for a in fn.edge_atoms(b, s))}
    ctx.ob("entry", "replaced when deleted", fn.path(None, is_ret, avoid=eps, cut=cut) is None, fn.name, "a deleted entry point can stay the entry point")
    for s in eps:
        srcs, tls = sources(fn, fn.E(s.ops[0]))
        mem = [x for x in srcs if x[0] == "ld"]
        oth = [x for x in srcs if x[0] != "ld"]
        ctx.ob("entry", "chosen among the workers' best", bool(mem) and all(x[0] == "c" for x in oth), s.where, "the new entry point is not one of the vertices found")
        bases = {vecbase(fn, x[1]) for x in mem}
        puts = 0
        for p in fn.all("store"):
            b, o, v = split(fn.E(p.ops[1]))
            if b[0] == "ld" and b[1] in bases and o % 64 == 0 or b[0] == "phi" and vecbase(fn, fn.E(p.ops[1])) in bases and o == 0:
                val = nt(fn.E(p.ops[0]))
                if val[0] in ("c", "f"):
                    continue
                puts += 1
                ctx.ob("entry", f"live candidate ({short(p)})", fn.guarded(p, lambda a: st.live(val)(a) or False), p.where, "a deleted vertex can become the entry point")
        ctx.ob("entry", "candidates found", puts > 0, s.where, "no vertex is considered as entry point")
        sent = [x for x in oth if x[0] == "c"]
        seeded = any(i.op == "store" and False for i in fn.all())
        guard = lambda a: a[0] == "cmp" and a[1] in ("ne", "ult") and any(nt(x) in srcs or nt(x) == nt(fn.E(s.ops[0])) for x in (a[2], a[3]))
        ctx.ob("entry", "some live vertex exists", not sent or fn.guarded(s, guard), s.where, "when no live vertex is left, the entry point becomes an id that does not exist")


def is_entry(fn, R, k):
    return any(isinstance(x, tuple) and x and x[0] == "ld" and R.role(fn, x[1], 0) == "entry_point" for x in walk(k)) or (k[0] == "ld" and R.role(fn, split(k[1])[0], 0) == "entry_point")


def vecbase(fn, a, d=0):
    """Vector object a pointer expression runs over."""
    b, o, v = split(a)
    while b[0] == "phi" and d < 6:
        d += 1
        ins = [fn.E(x) for x, blk in fn.ins[b[1]].r["inc"]]
        nb = [split(x)[0] for x in ins if split(x)[0] != b]
        if not nb:
            return None
        b = nb[0]
    return b[1] if b[0] == "ld" else None


def sources(fn, e):
    out, seen, work = set(), set(), [nt(e)]
    while work:
        x = nt(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "phi":
            work += [fn.E(v) for v, b in fn.ins[x[1]].r["inc"]]
        elif x[0] == "sel":
            work += [x[2], x[3]]
        elif x[0] == "ld" and split(x[1])[0][0] == "alloca":
            vs = [fn.E(s.ops[0]) for s, so in fn.stores_raw(split(x[1])[0][1]) if so == split(x[1])[1]]
            work += vs
            if not vs:
                out.add(x)
        else:
            out.add(x)
    return out, None


def bulk(ctx, ins, needs, get, prep):
    b = ("arg", 0)
    # flag
    flag = None
    for s in ins.all("store"):
        a = ins.E(s.ops[1])
        bb, o, v = split(a)
        if ins.E(s.ops[0]) in (("c", 1), ("c", True), ("c", -1)) and bb[0] == "ld" and split(bb[1])[0] == b and index_of(o, v) is not None and nsame(index_of(o, v), ("arg", 1)) and must_ret(ins, s):
            flag = (bb, a)
    ctx.ob("pending", "noted", flag is not None, ins.name, "a pending list is not noted")
    if flag:
        rets = needs.rets()
        okn = all(any(isinstance(x, tuple) and x and x == ("ld", flag[1]) for x in walk(needs.E(r.ops[0]))) and
                  truth_set(needs, needs.E(r.ops[0]), lambda x: x == ("ld", flag[1]), (0, 1)) == {1} for r in rets)
        ctx.ob("pending", "asked", okn, needs.name, "a pending list is asked for at another position")
        okf = False
        for s in prep.all("store"):
            if prep.E(s.ops[0]) == ("c", 0) and prep.loops_of(s):
                cv = cover(prep, s, prep.E(s.ops[1]))
                if cv and cv.lo == lin(flag[0]) and every_iteration(prep, cv.loop, s):
                    d = ladd(cv.hi, cv.lo, -1)
                    okf |= len(d) == 1 and of_vector(prep, next(iter(d)), flag[0][1])
        for c in prep.calls(r"^(std::fill|llvm\.memset)"):
            a = prep.E(c.args[0])
            okf |= a == flag[0] and prep.E(c.args[1]) == ("c", 0)
        ctx.ob("pending", "forgotten", okf, prep.name, "pending updates survive into the next batch")
    # list
    row = None
    for s in ins.all("store"):
        v = ins.E(s.ops[0])
        if v[0] != "ld":
            continue
        src = cover(ins, s, v[1])
        dst = cover(ins, s, ins.E(s.ops[1]))
        if src and dst and src.lo == lin(("ld", ("arg", 2))) and src.hi == lin(("ld", mkaddr(("arg", 2), 8, ()))) and every_iteration(ins, src.loop, s):
            row = dst.lo
    for c in ins.calls(r"^llvm\.mem(cpy|move)"):
        if lin(ins.E(c.args[1])) == lin(("ld", ("arg", 2))):
            row = lin(ins.E(c.args[0]))
    ctx.ob("pending", "complete list stored", row is not None and ("arg", 1) in {y for k in row if k != 1 for y in walk(k)}, ins.name, "a pending list is not stored whole under its position")
    ln = None
    for s in ins.all("store"):
        bb, o, v = split(ins.E(s.ops[1]))
        if bb[0] == "ld" and split(bb[1])[0] == b and v and bb != (flag or (None,))[0] and nsame(index_of(o, v) or ("c", -1), ("arg", 1)):
            n = number(ins, ins.E(s.ops[0]))
            if vec_count(ins, n, ("arg", 2), 4) and must_ret(ins, s):
                ln = ins.E(s.ops[1])
    ctx.ob("pending", "length stored", ln is not None, ins.name, "the length of a pending list is not stored under its position")
    es = {}
    for r in get.rets():
        e = get.E(r.ops[0])
        while e[0] == "ins":
            i = get.ins[e[2]]
            es[tuple(i.r.get("idx", ()))] = get.E(i.ops[1])
            e = get.E(i.ops[0])
    vals = list(es.values())
    okg = row is not None and any(lin(v) == row for v in vals) and ln is not None and any(strip(nt(v)) == ("ld", ln) or number(get, v) == ("ld", ln) for v in vals)
    ctx.ob("pending", "returned as stored", okg, get.name, "the pending list returned is not the one stored")


def of_vector(fn, e, vec):
    """e is a size computed from the array object whose data pointer lies at vec."""
    lo = split(vec)
    for x in walk(e):
        if isinstance(x, tuple) and x and x[0] == "call":
            for a in fn.ins[x[2]].args:
                if fn_is_ptr(fn, a):
                    s = split(fn.E(a))
                    if s[0] == lo[0] and abs(s[1] - lo[1]) <= 24:
                        return True
        if isinstance(x, tuple) and x and x[0] == "ld":
            s = split(x[1])
            if s[0] == lo[0] and abs(s[1] - lo[1]) <= 24:
                return True
    return False
