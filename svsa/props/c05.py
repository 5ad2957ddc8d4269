"""C05: compaction moves data, graph, ids and entry point together.

Analysed: MutableVamanaIndex::compact composed with the list of occupied slots and its parallel phases (pool modelled by one
arbitrary worker), the batched moves of stored vectors of both dataset classes, and the order of operations when saving. One
list (new id -> old id) is identified by how it is filled; every renumbering must use that list or its inverse."""
from ..lib import *
from ..renum import *
from .. import ir, dyn

DOM = (0, 1, 2)


def check(ctx):
    P = dyn.POLICY
    md, ms, mc = ctx.analyse_all([
        ("dynamic.cpp", P + dyn.entries("compact")),
        ("dynamic.cpp", P + "opaque ^svs::index::vamana::MutableVamanaIndex::(consolidate|compact)$\nopaque ^svs::lib::save_to_disk$\n" + dyn.entries("save")),
        ("storage.cpp", "model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run\nopaque ^svs::threads::NativeThreadPoolBase::\nopaque ^svs::threads::balance\nopaque ^svs::data::(SimpleData|DenseArray)::(?!compact$)\n" + dyn.entries("compact_dense", "compact_blocked")),
    ])
    R = dyn.Roles(md)
    compact(ctx, ctx.one(md, "compact"), R)
    for l in ("compact_dense", "compact_blocked"):
        moves(ctx, ctx.one(mc, l), l)
    saving(ctx, ctx.one(ms, "save"), R)


def elem_of(fn, R, role, e):
    """Index when e is an element (value or address) of the index's vector member with that role."""
    e = strip(e)
    a = e[1] if e[0] == "ld" else e
    b, o, v = split(a)
    if b[0] == "ld" and R.role(fn, b, 0) == role:
        return index_of(o, v)
    if b[0] == "call" and re.search(r"::(at|operator\[\]|getindex)$", b[1]) and not v:
        c = fn.ins[b[2]]
        if R.role(fn, callarg(fn, c, 0), 0) == role:
            return callarg(fn, c, 1)
    return None


def on(fn, R, pat, role):
    return [c for c in fn.calls(pat) if R.role(fn, callarg(fn, c, 0), 0) == role]


def compact(ctx, fn, R):
    ctx.rule("list", "the list of ids to keep holds exactly the occupied slots, in ascending order")
    ctx.rule("inverse", "the map from old to new ids is the inverse of that list")
    ctx.rule("data", "stored vectors are moved by that list")
    ctx.rule("graph", "adjacency lists are moved by that list and every neighbour is renamed by the inverse map")
    ctx.rule("state", "slot states and external ids are moved by that list")
    ctx.rule("entry", "every entry point is renamed by the inverse map")
    ctx.rule("shrink", "graph, vectors and slot states are cut to the length of that list, after everything has been moved")
    rets = fn.rets()
    # the list: a local vector whose elements are slot numbers
    lists = {}
    for i in fn.all():
        if i.is_call and re.search(r"::(push_back|emplace_back)$", i.name):
            o = fn.E(callargs(fn, i)[0])
            if o[0] == "alloca":
                lists.setdefault(o, []).append(i)
    M = None
    for o, cs in lists.items():
        for c in cs:
            v = val_at(fn, c.args[1], c) if fn_is_ptr(fn, c.args[1]) else fn.E(c.args[1])
            for loop in fn.loops_of(c):
                if any(ph == nt(v) for ph, *_ in counted(fn, loop)):
                    M = o
    ctx.need(M is not None, "list of occupied slots in compact")
    stb = None
    for v, pc in [(v, c) for c, v in vec_puts(fn, M)]:
        if not ctx.ob("list", f"element put at {short(pc)}", v is not None, pc.where, "the list is changed other than by appending"):
            continue
        idx = nt(v)
        occupied = lambda a: st_set(fn, R, a, idx)
        def is_count(l):
            return any(l == nlin(("bin", "sub", h, b)) for h, b in status_counts(fn, R)) or any(k[0] == "call" and re.search(r"::size$", k[1]) for k in l if k != 1)
        loop = covers_index(fn, pc, idx, {}, is_count)
        ctx.ob("list", "every slot considered", loop is not None, pc.where, "the slots are not visited one by one from the first to the last")
        if loop:
            g = fn.guarded(pc, lambda a: (occupied(a) or frozenset(DOM)) <= {1, 2})
            ctx.ob("list", "only occupied slots", g, pc.where, "an empty slot can be kept")
            ctx.ob("list", "all occupied slots", each_or(fn, loop, pc, lambda a: (occupied(a) or frozenset(DOM)) <= {0}), pc.where, "an occupied slot can be dropped")
    total = lambda e: vec_count(fn, e, M, 4) or vec_count(fn, e, M, 8)
    ltotal = lambda l: any(l == nlin(e) for e in size_exprs(fn, M))
    # inverse map
    O = None
    for op in map_ops(fn):
        if op.map[0] != "alloca" or op.kind in ("ctor", "reserve", "size", "query", "find", "lookup", "iter", "refread"):
            continue
        if op.kind != "assign":
            ctx.ob("inverse", f"operation {op.kind}", False, op.ins.where, "the map is changed other than by adding entries")
            continue
        k, v = op.key, op.val
        ik = vec_elem(fn, k, M) if k is not None else None
        ctx.ob("inverse", "entry", ik is not None and v is not None and nsame(ik, v), op.ins.where, "an entry other than (old id at position p -> p) is added")
        if ik is not None and v is not None and nsame(ik, v):
            loop = covers_index(fn, op.ins, nt(v), {}, ltotal)
            if ctx.ob("inverse", "all entries", loop is not None and every_iteration(fn, loop, op.ins), op.ins.where, "not every position of the list is entered"):
                O = op.map
                built = loop
    ctx.need(O is not None, "inverse map in compact")

    def renamed(e):
        """Key when e is the inverse map's value for a key."""
        r = lookup_value(fn, e)
        return r[1] if r and r[0] == O else None
    # vectors
    mv = on(fn, R, r"::compact$", "data")
    ctx.ob("data", "vectors moved", mv and fn.path(None, lambda i: i.op == "ret", avoid=mv, cut=fn.unwind_edges()) is None, fn.name, "the stored vectors are not compacted on every path")
    for c in mv:
        a = [fn.E(x) for x in callargs_ref(fn, c)[1:3]]
        ok = a and (a[0] == ("ld", M) and total(a[1]) or a[0] == M)
        ctx.ob("data", f"list used at {short(c)}", ok, c.where, "vectors are moved by another list, or by a part of it")
    # graph
    reads = [c for c in on(fn, R, r"::get_node$", "graph")]
    temps = []
    moved = []
    for c in on(fn, R, r"::replace_node$", "graph") + on(fn, R, r"::set_node$", "graph"):
        moved.append(c)
    ctx.ob("graph", "lists written back", moved, fn.name, "no adjacency list is written")
    used = set()
    for c in moved:
        new = callarg(fn, c, 1)
        src = src_node(fn, c, 2)
        if not ctx.ob("graph", f"source of list written at {short(c)}", src is not None, c.where, "the list written is not a whole stored list"):
            continue
        temp, t2 = fn.E(callargs_ref(fn, src)[0]), callarg(fn, src, 1)
        if not ctx.ob("graph", "moved through a scratch graph", temp[0] == "alloca", c.where, "lists are written in place while others still have to be read"):
            continue
        bt = next((b for l in fn.loops_of(c) for b in [batches(fn, l, total)] if b), None)
        ph = phase(fn, c, nt(t2))
        ok = bt is not None and ph is not None and nlin(new) == ladd(lin(bt.start), nlin(t2)) and every_iteration(fn, ph.loop, c) and batch_len(ph.n, bt)
        ctx.ob("graph", "written to its new id", ok, c.where, "the list of position p of a batch is not written to new id start+p, for every p of every batch")
        if not ok:
            continue
        # the scratch graph's rows
        fills = [x for x in fn.calls(r"::replace_node$") if fn.E(callargs_ref(fn, x)[0]) == temp]
        ctx.ob("graph", "scratch rows filled", fills, c.where, "the scratch graph is not filled")
        for f in fills:
            t1 = callarg(fn, f, 1)
            p1 = phase(fn, f, nt(t1))
            ok = p1 is not None and batch_len(p1.n, bt) and every_iteration(fn, p1.loop, f) and f.b in bt.loop.body
            ctx.ob("graph", "scratch row filled for every position", ok, f.where, "not every position of a batch is filled")
            ctx.ob("graph", "filled before written back", fn.path(c, f, avoid=blocks_of(fn, bt.loop.head)) is None and not (p1 and p1.loop.body & ph.loop.body) , f.where, "rows are written back while rows of the same batch have still to be read")
            renlist(ctx, fn, R, f, M, reads, used, lambda i: nlin(i) == ladd(lin(bt.start), nlin(t1)), renamed)
        ctx.ob("graph", "all batches, in order", bt is not None, c.where)
        shr = on(fn, R, r"::(unsafe_resize|resize)$", "graph")
        ctx.ob("shrink", "graph after its lists were moved", shr and all(fn.path(s, c) is None and fn.path(s, x) is None for s in shr for x in reads), c.where, "the graph is cut before its lists were moved")
        # the batch loop is run
        ctx.ob("graph", "on every path", fn.path(None, lambda i: i.op == "ret", avoid=blocks_of(fn, bt.loop.head), cut=fn.unwind_edges()) is None, c.where, "a path skips the moving of adjacency lists")
    # cuts
    for role, pat in (("graph", r"::(unsafe_resize|resize)$"), ("data", r"::resize$"), ("status", r"::resize$")):
        cs = [c for c in fn.calls(pat) if R.role(fn, callarg(fn, c, 0), 0) == role and not re.search(r"shrink", c.name)]
        ctx.ob("shrink", role, cs and fn.path(None, lambda i: i.op == "ret", avoid=cs, cut=fn.unwind_edges()) is None and all(total(callarg(fn, c, 1)) for c in cs), cs[0].where if cs else fn.name, f"the {role} is not cut to the length of the list")
        if role == "data":
            ctx.ob("shrink", "vectors after they were moved", cs and all(fn.path(s, x) is None for s in cs for x in mv), fn.name, "vectors are dropped before they were moved")
    # slot states and ids
    sts = []
    for s in fn.all("store"):
        j = elem_of(fn, R, "status", fn.E(s.ops[1]))
        if j is None:
            continue
        i = elem_of(fn, R, "status", fn.E(s.ops[0]))
        k = vec_elem(fn, i, M) if i is not None else None
        ok = k is not None and nsame(k, j)
        ctx.ob("state", f"state stored at {short(s)}", ok, s.where, "a slot is given a state other than the one of the point moved there")
        if ok:
            sts.append((s, nt(j)))
    unmoved = lambda j: (lambda a: a[0] == "cmp" and a[1] == "eq" and any(nsame(x, j) and vec_elem(fn, y, M) is not None and nsame(vec_elem(fn, y, M), j) for x, y in ((a[2], a[3]), (a[3], a[2]))))
    done = None
    for s, j in sts:
        loop = covers_index(fn, s, j, {}, ltotal)
        if loop is not None and each_or(fn, loop, s, unmoved(j)):
            done = loop
    ctx.ob("state", "every moved slot's state", done is not None, fn.name, "the state of some moved point is not moved, or not in ascending order")
    cs = [c for c in fn.calls(r"::resize$") if R.role(fn, callarg(fn, c, 0), 0) == "status"]
    ctx.ob("shrink", "slot states after they were moved", all(fn.path(c, s) is None for c in cs for s, j in sts), fn.name, "slot states are dropped before they were moved")
    rm = on(fn, R, r"IDTranslator::remap_internal_id$", "translator")
    good = None
    for c in rm:
        a, b = callarg(fn, c, 1), callarg(fn, c, 2)
        k = vec_elem(fn, a, M)
        ok = k is not None and nsame(k, b)
        ctx.ob("state", f"ids renumbered at {short(c)}", ok, c.where, "an external id is moved to a slot other than its point's")
        if not ok:
            continue
        def isval(x, j):
            i = elem_of(fn, R, "status", x)
            if i is None:
                return False
            k = vec_elem(fn, i, M)
            return k is not None and nsame(k, j) or nsame(i, j)
        live = lambda a, want: (lambda t: t is not None and isval(t[0], b) and t[1] <= want)(value_test(a, DOM))
        loop = covers_index(fn, c, nt(b), {}, ltotal)
        ctx.ob("state", "only live points have an external id", fn.guarded(c, lambda a: live(a, {1})) , c.where, "an external id is looked up for a point that is not live")
        if loop is not None and each_or(fn, loop, c, lambda a: unmoved(b)(a) or live(a, {0, 2})):
            # the state looked at is the one of the point: read from the old slot, or from the new one after it was stored
            good = loop
    ctx.ob("state", "external id of every live moved point", good is not None, fn.name, "the external id of some live point that moved is not renumbered (in ascending order)")
    # entry points
    es = []
    for s in fn.all("store"):
        b, o, v = split(fn.E(s.ops[1]))
        if R.role(fn, fn.E(s.ops[1]), 0) == "entry_point" and b[0] in ("ld", "phi", "call"):
            k = renamed(fn.E(s.ops[0]))
            ok = k is not None and strip(k)[0] == "ld" and strip(k)[1] == fn.E(s.ops[1])
            ctx.ob("entry", f"entry point stored at {short(s)}", ok, s.where, "an entry point is not replaced by its own new id")
            if ok:
                es.append(s)
    lo = hi = None
    ok = False
    off = R.at["entry_point"][0]
    base = ir.mkaddr(("arg", 0), off, ())
    lo, hi = vec_range(fn, base)
    for s in es:
        cv = cover(fn, s, fn.E(s.ops[1]))
        if cv and cv.lo == lo and cv.hi == hi and cv.stride == 4 and every_iteration(fn, cv.loop, s) or fn.E(s.ops[1]) == ("ld", base):
            ok = fn.path(None, lambda i: i.op == "ret", avoid=[s] if not cv else blocks_of(fn, cv.loop.head), cut=fn.unwind_edges()) is None
    ctx.ob("entry", "every entry point", ok, fn.name, "an entry point can keep its old id")
    for what, l in (("slot states", done), ("external ids", good)):
        if l is not None:
            ctx.ob("state", what + ": on every path", fn.path(None, lambda i: i.op == "ret", avoid=blocks_of(fn, l.head), cut=fn.unwind_edges()) is None, fn.name, "a path skips it")
    ctx.minimum("graph", 8)


def blocks_of(fn, b):
    return [fn.blocks[b][0]]


def short(i):
    return i.where.rsplit("/", 1)[-1].split(":")[0]


def callargs(fn, c):
    return c.args[(1 if c.r.get("sret") else 0):]


callargs_ref = callargs


def size_exprs(fn, M):
    lo, hi = ("ld", M), ("ld", ir.mkaddr(M, 8, ()))
    d = ("bin", "sub", hi, lo)
    out = []
    for op in ("lshr", "lshrx", "ashr", "ashrx"):
        for k in (2, 3):
            out.append(("bin", op, d, ("c", k)))
    for i in fn.all():
        if i.is_call and i.name.endswith("::size") and i.args and fn.E(i.args[0]) == M:
            out.append(fn.EI(i))
        if i.op in ("lshr", "ashr", "sdiv", "udiv") and vec_count(fn, fn.EI(i), M, 4):
            out.append(fn.EI(i))
    return out


def status_counts(fn, R):
    off = R.at["status"][0]
    b = ir.mkaddr(("arg", 0), off, ())
    return [(("ld", ir.mkaddr(b, 8, ())), ("ld", b))]


def st_set(fn, R, a, idx):
    t = value_test(a, DOM)
    if t is None:
        return None
    i = elem_of(fn, R, "status", t[0])
    return t[1] if i is not None and nsame(i, idx) else None


def src_node(fn, c, k):
    """get_node call whose whole list is passed as argument k of c (a span by parts, or a span object)."""
    a = [fn.E(x) for x in callargs(fn, c)[k:]]
    if not a:
        return None
    if a[0][0] == "ev" and a[0][1][0] == "call" and a[0][2] == (0,) and len(a) > 1 and a[1] == ("ev", a[0][1], (1,)):
        g = fn.ins[a[0][1][2]]
        return g if g.name.endswith("::get_node") else None
    if a[0][0] == "alloca":
        x, n = val_off(fn, a[0], 0, c), val_off(fn, a[0], 8, c)
        if x and n and x[0] == "ev" and x[1][0] == "call" and x[2] == (0,) and n == ("ev", x[1], (1,)):
            g = fn.ins[x[1][2]]
            return g if g.name.endswith("::get_node") else None
        for s, so in fn.stores_raw(a[0][1]):
            e = fn.E(s.ops[0])
            if e[0] == "call" and e[1].endswith("::get_node"):
                return fn.ins[e[2]]
    return None


def val_off(fn, al, o, at):
    st = fn.reaching(al[1], o, at)
    es = {fn.E(s.ops[0]) for s in st or []}
    return es.pop() if len(es) == 1 else None


def renlist(ctx, fn, R, f, M, reads, used, is_new, renamed):
    """The list passed to scratch row f is the graph's list of M[new id], every neighbour renamed."""
    a = callargs(fn, f)[2]
    B = fn.E(a)
    if B[0] != "alloca":
        b = split(B)[0]
        B = b[1] if b[0] == "ld" else B
    if not ctx.ob("graph", f"renamed list at {short(f)}", B[0] == "alloca", f.where, "the list is not built locally"):
        return
    puts = vec_puts(fn, B)
    ctx.ob("graph", "neighbours renamed", puts, f.where, "no neighbour is put into the list")
    for p, v in puts:
        k = renamed(v) if v is not None else None
        key = strip(k) if k is not None else None
        if not ctx.ob("graph", f"neighbour put at {short(p)}", key is not None and key[0] == "ld", p.where, "a neighbour is not renamed by the inverse map"):
            continue
        r = split(key[1])[0]
        g = None
        cv = cover(fn, p, key[1])
        for c in reads:
            e = fn.EI(c)
            lo = lin(("ev", e, (0,)))
            hi = ladd(lo, lin(("ev", e, (1,))), 4)
            if cv and cv.lo == lo and cv.hi == hi and cv.stride == 4 and every_iteration(fn, cv.loop, p):
                g = c
        if not ctx.ob("graph", "every neighbour of the old list", g is not None, p.where, "the neighbours renamed are not all the neighbours of one stored list, in turn"):
            continue
        old = callarg(fn, g, 1)
        k = vec_elem(fn, old, M)
        ctx.ob("graph", "read from its old id", k is not None and is_new(k), g.where, "the list read is not the one of the old id of the position written")
        if p.op == "store":
            rs = [c for c in fn.calls(r"vector::resize$|vector::vector$|vector::assign$") if fn.E(callargs(fn, c)[0]) == B and any(nsame(fn.E(x), ("ev", fn.EI(g), (1,))) for x in callargs(fn, c)[1:])]
            ctx.ob("graph", "length of the renamed list", rs and all(fn.path(g, f, avoid=rs) is None for _ in (0,)), p.where, "the list does not have the length of the list it was made from")
            d = cover(fn, p, fn.E(p.ops[1]))
            ctx.ob("graph", "renamed in place order", d is not None and d.lo == lin(("ld", B)) and d.stride == 4, p.where, "renamed neighbours are not stored from the first position on")
        else:
            cl = [c for c in fn.all() if c.is_call and re.search(r"vector::(clear|vector|resize)$", c.name) and fn.E(callargs(fn, c)[0]) == B]
            ctx.ob("graph", "list emptied first", cl and fn.path(f, p, avoid=cl) is None, p.where, "neighbours of the previous vertex stay in the list")


def moves(ctx, fn, l):
    ctx.rule("block", "vectors are moved in ascending batches through scratch memory, each from its old to its new position")
    # arg0 data, arg1/2 list
    ptr = n = None
    for k, a in enumerate(fn.r["args"]):
        pass
    sets = fn.calls(r"::set_datum$")
    back = [c for c in sets if root(fn, callarg(fn, c, 0)) and root(fn, callarg(fn, c, 0))[0] == ("arg", 0)]
    ctx.ob("block", f"{l}: vectors written back", back, fn.name, "no vector is moved")

    def is_total(e):
        return nt(e) == ("arg", 2)

    for c in back:
        src = datum_src(fn, c)
        new = callarg(fn, c, 1)
        if not ctx.ob("block", f"{l}: source", src is not None and fn.E(callargs(fn, src)[0])[0] == "alloca", c.where, "the vector written is not read from scratch memory"):
            continue
        buf, t2 = fn.E(callargs(fn, src)[0]), callarg(fn, src, 1)
        bt = next((b for lp in fn.loops_of(c) for b in [batches(fn, lp, is_total)] if b), None)
        ph = phase(fn, c, nt(t2))
        ok = bt and ph and nlin(new) == ladd(lin(bt.start), nlin(t2)) and every_iteration(fn, ph.loop, c) and batch_len(ph.n, bt)
        if not ctx.ob("block", f"{l}: written to its new position", ok, c.where, "position p of a batch is not written to start+p for every p of every batch"):
            continue
        fills = [x for x in sets if fn.E(callargs(fn, x)[0]) == buf]
        ctx.ob("block", f"{l}: scratch filled", fills, c.where, "nothing is put into the scratch memory")
        for f in fills:
            t1 = callarg(fn, f, 1)
            p1 = phase(fn, f, nt(t1))
            ok = p1 and batch_len(p1.n, bt) and every_iteration(fn, p1.loop, f)
            ctx.ob("block", f"{l}: scratch filled for every position", ok, f.where, "not every position of a batch is filled")
            s = datum_src(fn, f)
            o = callarg(fn, s, 1) if s is not None and root(fn, callarg(fn, s, 0)) and root(fn, callarg(fn, s, 0))[0] == ("arg", 0) else None
            k = None
            if o is not None and strip(o)[0] == "ld":
                b, off, v = split(strip(o)[1])
                if b == ("arg", 1):
                    k = index_of(off, v)
            ctx.ob("block", f"{l}: read from its old position", k is not None and nlin(k) == ladd(lin(bt.start), nlin(t1)), f.where, "the vector put at position p is not the one the list names for start+p")
            ctx.ob("block", f"{l}: read before written back", fn.path(c, f, avoid=blocks_of(fn, bt.loop.head)) is None and not (p1 and p1.loop.body & ph.loop.body), f.where, "vectors are written back while vectors of the same batch have still to be read")
        ctx.ob("block", f"{l}: on every path", fn.path(None, lambda i: i.op == "ret", avoid=blocks_of(fn, bt.loop.head), cut=fn.unwind_edges()) is None, c.where, "a path skips the move")
        # room for a batch
        mk = [x for x in fn.calls(r"SimpleData::SimpleData$") if fn.E(callargs(fn, x)[0]) == buf]
        size = lin(bt.stop[1] if not is_total(bt.stop[1]) else bt.stop[2])
        room = ladd(size, lin(bt.start), -1)
        for x in mk:
            got = nlin(callarg(fn, x, 1))
            dims = callarg(fn, x, 2) if len(callargs(fn, x)) > 2 else None
            okr = got == room or any(isinstance(k, tuple) and k[0] == "call" and k[1].endswith("::size") and fn.E(callargs(fn, fn.ins[k[2]])[0]) == buf for k in room)
            ctx.ob("block", f"{l}: room for a batch", okr, x.where, "a batch can be longer than the scratch memory")
            ctx.ob("block", f"{l}: room for a vector", dims is not None and dims[0] == "call" and dims[1].endswith("::dimensions") and fn.E(callargs(fn, fn.ins[dims[2]])[0]) == ("arg", 0), x.where, "scratch vectors have another number of dimensions")
        ctx.ob("block", f"{l}: scratch memory", mk, c.where, "the scratch memory is not of the dataset class")


def datum_src(fn, c):
    a = [fn.E(x) for x in callargs(fn, c)[2:]]
    if a and a[0][0] == "ev" and a[0][1][0] == "call" and a[0][2] == (0,) and len(a) > 1 and a[1] == ("ev", a[0][1], (1,)):
        g = fn.ins[a[0][1][2]]
        return g if g.name.endswith("::get_datum") else None
    if a and a[0][0] == "alloca":
        x = val_off(fn, a[0], 0, c)
        if x and x[0] == "ev" and x[1][0] == "call" and x[2] == (0,):
            g = fn.ins[x[1][2]]
            return g if g.name.endswith("::get_datum") else None
    return None


def saving(ctx, fn, R):
    ctx.rule("save", "saving consolidates, then compacts, before anything is written")
    co = [c for c in fn.calls(r"MutableVamanaIndex::consolidate$") if fn.E(c.args[0]) == ("arg", 0)]
    cp = [c for c in fn.calls(r"MutableVamanaIndex::compact$") if fn.E(c.args[0]) == ("arg", 0)]
    sv = fn.calls(r"::save_to_disk$")
    ctx.need(len(sv) >= 3, "files written by save")
    for c in sv:
        ctx.ob("save", f"compacted before file {sv.index(c)}", fn.path(None, c, avoid=cp) is None and cp, c.where, "the index can be written without having been compacted")
    for c in cp:
        ctx.ob("save", "consolidated before compaction", co and fn.path(None, c, avoid=co) is None, c.where, "the index can be compacted while edges to deleted points remain")
        ctx.ob("save", "nothing written before", all(fn.path(x, c) is None and all(fn.path(x, d) is None for d in co) for x in sv), c.where, "something is written before compaction")
