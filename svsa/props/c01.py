"""C01 - id translation bijection. Every operation of the id translation is normalised (helpers, iterators and lambdas
dissolved) and its effects on the two hash maps are extracted with symbolic key and value. Rules: every assignment in one map
has its mirror image (key and value exchanged) in the other, control-equivalent with it; every erasure is paired with the
erasure of the partner entry, the partner being read before it is erased; a renumbering erases the old internal key; range
operations cover their whole range; lookups read the map of their direction with the id asked for; saving writes every entry
once as (key, value) and loading reads back the same sequence and widths and installs it through a mirrored assignment."""
import re
from ..lib import *
from .. import ir

H = ["insert", "insert_one", "delete_external", "delete_internal", "remap", "get_external", "get_internal",
     "has_external", "has_internal", "save", "load", "copy"]


def maps_of(m):
    """(offset of external->internal, offset of internal->external), by member type."""
    lay = m.layouts.get("svs::IDTranslator")
    if not lay:
        raise Exception("no IDTranslator layout")
    e2i = [o for o, s, n, t in lay["members"] if re.match(r"(tsl::robin_map|std::unordered_map|std::map)<unsigned long, unsigned int", t)]
    i2e = [o for o, s, n, t in lay["members"] if re.match(r"(tsl::robin_map|std::unordered_map|std::map)<unsigned int, unsigned long", t)]
    return e2i, i2e


def check(ctx):
    ctx.rule("mirror", "every assignment in one direction has a control-equivalent mirrored assignment in the other")
    ctx.rule("pair-erase", "every erasure is paired with the erasure of the partner entry")
    ctx.rule("lookup-before-erase", "the partner id is read before its entry is erased")
    ctx.rule("remap", "renumbering moves the entry: old key erased, both directions name the new internal id and the old external id")
    ctx.rule("range", "range operations treat every element of their range exactly once")
    ctx.rule("lookup", "lookups consult the map of their own direction with the id asked for")
    ctx.rule("entry", "an operation has its effect on the entry it was asked to change")
    ctx.rule("persist", "saved entries are read back in the same order and width, all of them, into the same roles")
    m = ctx.analyse("translation.cpp", "\n".join(f"entry {n} ^(svs::lib::\\S+ |svs::\\S+ )?h_{n}\\(" for n in H) + "\n")
    e2i, i2e = maps_of(m)
    ctx.need(len(e2i) == 1 and len(i2e) == 1, "the two translation maps as members")
    e2i, i2e = e2i[0], i2e[0]
    F = {n: ctx.one(m, n) for n in H}

    def which(fn, obj, root=0):
        b, o, v = split(obj)
        if b == ("arg", root) and not v:
            return "E" if o == e2i else "I" if o == i2e else None
        return None

    def effects(fn, root=0):
        out = []
        for op in map_ops(fn):
            w = which(fn, op.map, root)
            if w is None:
                continue
            if op.kind in ("assign", "erase", "clear", "swap", "insertrange", "eraserange") or op.kind.startswith("other"):
                op.w = w
                out.append(op)
            elif op.kind == "refread":
                # a default entry is created in one direction
                op.w = w
                op.kind = "refread"
                out.append(op)
        return out

    def mirrors(fn, n, effs):
        asg = [x for x in effs if x.kind == "assign"]
        for x in asg:
            # an assignment that overwrites the value of an existing entry obtained by lookup still needs its mirror
            ok = any(y.w != x.w and y.val is not None and x.val is not None and same(x.key, y.val) and same(x.val, y.key) and paired(fn, x.ins, y.ins) for y in asg)
            ctx.ob("mirror", f"{n}: {('external->internal' if x.w == 'E' else 'internal->external')} assignment", ok, x.ins.where,
                   f"{x} has no mirrored assignment in the other map on every path")
        for x in effs:
            if x.kind in ("clear", "swap"):
                ok = any(y.kind == x.kind and y.w != x.w and paired(fn, x.ins, y.ins) for y in effs)
                ctx.ob("mirror", f"{n}: {x.kind}", ok, x.ins.where, f"{x.kind} applied to one direction only")

    def partner(fn, k, w):
        """If key k of map w was obtained by translating another id, return (other map, other key, reading ins)."""
        r = lookup_value(fn, k)
        if r is None:
            return None
        return which(fn, r[0]), r[1], r[2]

    def erases(fn, n, effs, exempt=()):
        er = [x for x in effs if x.kind == "erase"]
        for x in er:
            if x in exempt:
                continue
            ok = False
            kx = x.key[2] if x.key and x.key[0] == "found" else x.key
            for y in er:
                if y.w == x.w or not paired(fn, x.ins, y.ins):
                    continue
                ky = y.key[2] if y.key and y.key[0] == "found" else y.key
                px, py = partner(fn, kx, x.w), partner(fn, ky, y.w)
                # x's key is the translation (through y's map) of y's key, or the other way round
                if px and px[0] == y.w and same(px[1], ky):
                    ok = True
                    rd, er2 = px[2], y.ins
                elif py and py[0] == x.w and same(py[1], kx):
                    ok = True
                    rd, er2 = py[2], x.ins
                else:
                    continue
                # the lookup must happen before the entry it reads is erased
                bad = fn.path(er2, rd, avoid=[]) is not None and not fn.dominates(rd, er2)
                ctx.ob("lookup-before-erase", f"{n}: {x.w}", fn.dominates(rd, er2), rd.where, "the entry is erased before the partner id is read from it")
            ctx.ob("pair-erase", f"{n}: {('external->internal' if x.w == 'E' else 'internal->external')} erase", ok, x.ins.where,
                   f"{x} has no control-equivalent erasure of the partner entry")

    # --- insertion -----------------------------------------------------------------------
    for n in ("insert", "insert_one"):
        fn = F[n]
        effs = effects(fn)
        asg = [x for x in effs if x.kind == "assign"]
        ctx.need(len([x for x in asg if x.w == "E"]) + len([x for x in asg if x.w == "I"]) >= 1, f"map assignment in {n}")
        mirrors(fn, n, effs)
        erases(fn, n, effs)
    fn = F["insert_one"]
    for x in effects(fn):
        if x.kind == "assign":
            k, v = (("arg", 1), ("arg", 2)) if x.w == "E" else (("arg", 2), ("arg", 1))
            ctx.ob("entry", f"insert_one: {x.w}", same(x.key, k) and x.val is not None and same(x.val, v) and pre_or_all(fn, x.ins), x.ins.where, "the entry installed is not the pair passed by the caller")
    fn = F["insert"]
    for x in [x for x in effects(fn) if x.kind == "assign"]:
        for e, role, arg, sz in ((x.key, "key", 1 if x.w == "E" else 2, 8 if x.w == "E" else 4), (x.val, "value", 2 if x.w == "E" else 1, 4 if x.w == "E" else 8)):
            e = strip(e) if e else None
            c = cover(fn, x.ins, e[1]) if e and e[0] == "ld" else None
            lo, hi = vec_range(fn, ("arg", arg))
            ok = c is not None and c.lo == lo and c.stride == sz and every_iteration(fn, c.loop, x.ins)
            if ok and c.hi != hi:
                # the other range may bound the loop when equal length has been established
                e1, e2 = vec_range(fn, ("arg", 1)), vec_range(fn, ("arg", 2))
                n1, n2 = lscale(ladd(e1[1], e1[0], -1), Fraction(1, 8)), lscale(ladd(e2[1], e2[0], -1), Fraction(1, 4))
                cnt = lscale(ladd(c.hi, c.lo, -1), Fraction(1, sz))
                want = n1 if arg == 1 else n2
                eqlen = lambda a: a[0] == "cmp" and a[1] == "eq" and ladd(lin(a[2]), lin(a[3]), -1) in (ladd(n1, n2, -1), ladd(n2, n1, -1))
                ok = cnt in (n1, n2) and fn.guarded(x.ins, eqlen)
            ctx.ob("range", f"insert: {x.w} {role}", ok, x.ins.where, "the loop does not take each element of the caller's range exactly once")

    # --- deletion ------------------------------------------------------------------------
    for n, w, sz in (("delete_external", "E", 8), ("delete_internal", "I", 4)):
        fn = F[n]
        effs = effects(fn)
        er = [x for x in effs if x.kind == "erase"]
        ctx.need(er, f"erasure in {n}")
        mirrors(fn, n, effs)
        erases(fn, n, effs)
        hit = False
        for x in er:
            k = x.key[2] if x.key and x.key[0] == "found" else x.key
            k = strip(k) if k else None
            if x.w == w and k and k[0] == "ld":
                c = cover(fn, x.ins, k[1])
                lo, hi = vec_range(fn, ("arg", 1))
                if c is not None and c.lo == lo and c.hi == hi and c.stride == sz and every_iteration(fn, c.loop, x.ins):
                    hit = True
        ctx.ob("range", f"{n}: every id of the range", hit, er[0].ins.where, "not every id of the caller's range is erased exactly once")

    # --- renumbering ---------------------------------------------------------------------
    fn = F["remap"]
    effs = effects(fn)
    mirrors(fn, "remap", effs)
    asgI = [x for x in effs if x.w == "I" and x.kind == "assign"]
    asgE = [x for x in effs if x.w == "E" and x.kind == "assign"]
    erI = [x for x in effs if x.w == "I" and x.kind == "erase"]
    erE = [x for x in effs if x.w == "E" and x.kind == "erase"]
    ctx.need(effs, "map updates in remap")
    FROM, TO = ("arg", 1), ("arg", 2)

    def extern(e):
        r = lookup_value(fn, e) if e else None
        return r is not None and which(fn, r[0]) == "I" and same(r[1], FROM)
    ctx.ob("remap", "internal->external entry of the new id", any(same(x.key, TO) and extern(x.val) and pre_or_all(fn, x.ins) for x in asgI), asgI[0].ins.where if asgI else fn.name, "the new internal id does not name the external id of the old one")
    ctx.ob("remap", "external->internal entry redirected", any(extern(x.key) and x.val and same(x.val, TO) and pre_or_all(fn, x.ins) for x in asgE), asgE[0].ins.where if asgE else fn.name, "the external id is not redirected to the new internal id")
    okr = False
    for x in erI:
        k = x.key[2] if x.key[0] == "found" and which(fn, x.key[1]) == "I" else x.key
        if same(k, FROM) and pre_or_all(fn, x.ins):
            okr = True
    ctx.ob("remap", "old internal id removed", okr, erI[0].ins.where if erI else fn.name, "the old internal id keeps its entry")
    # an erase of E in remap must be followed by a re-assignment of the same key
    for x in erE:
        ok = any(same(y.key, x.key) and fn.dominates(x.ins, y.ins) for y in asgE)
        ctx.ob("remap", "external entry not lost", ok, x.ins.where, "the external id's entry is erased and not reinstated")
    # lookups of the partner happen before the erase
    for x in erI:
        for y in asgI + asgE:
            for e in (y.key, y.val):
                r = lookup_value(fn, e) if e else None
                if r and which(fn, r[0]) == "I":
                    ctx.ob("lookup-before-erase", "remap", fn.dominates(r[2], x.ins), r[2].where, "entry read after it was erased")

    # --- lookups -------------------------------------------------------------------------
    for n, w in (("get_internal", "E"), ("get_external", "I")):
        fn = F[n]
        for r in fn.rets():
            e = fn.E(r.ops[0])
            es = alternatives(fn, e)
            for e in es:
                lv = lookup_value(fn, e)
                ok = lv is not None and which(fn, lv[0]) == w and same(lv[1], ("arg", 1))
                ctx.ob("lookup", n, ok, r.where, "the answer is not the entry of the id asked for in the map of this direction")
    for n, w in (("has_external", "E"), ("has_internal", "I")):
        fn = F[n]
        q = [x for x in map_ops(fn) if x.kind in ("query", "find")]
        ok = bool(q) and all(which(fn, x.map) == w and same(x.key, ("arg", 1)) for x in q)
        r = fn.rets()
        if ok and len(r) == 1 and q[0].kind == "query":
            e = fn.E(r[0].ops[0])
            # must be the query's own truth value
            ok = truth_of(fn, e, fn.EI(q[0].ins))
        ctx.ob("lookup", n, ok, q[0].ins.where if q else fn.name, "existence is not answered from the map of this direction, or inverted")

    # --- copies --------------------------------------------------------------------------
    fn = F["copy"]
    for op in map_ops(fn):
        if op.kind == "ctor" and len(op.ins.args) >= 2:
            ctx.ob("persist", f"copy of {'E' if split(op.map)[1] == e2i else 'I'}", split(fn.E(op.ins.args[1]))[1] == split(op.map)[1] and split(fn.E(op.ins.args[1]))[0] == ("arg", 1), op.ins.where, "copying mixes up the two directions")

    # --- persistence ---------------------------------------------------------------------
    persist(ctx, F["save"], F["load"], e2i, i2e, which)
    ctx.minimum("mirror", 4)
    ctx.minimum("pair-erase", 4)


def pre_or_all(fn, ins):
    """Executed on every normal path through the function."""
    return fn.path(None, lambda i: i.op == "ret", cut=fn.unwind_edges(), avoid=[ins]) is None


def alternatives(fn, e, d=0):
    if e[0] == "phi" and d < 5:
        out = []
        for v, b in fn.ins[e[1]].r["inc"]:
            if b in fn.cold:
                continue
            out += alternatives(fn, fn.E(v), d + 1)
        return out
    if e[0] == "sel":
        return alternatives(fn, e[2], d + 1) + alternatives(fn, e[3], d + 1)
    return [e]


def truth_of(fn, e, q):
    """e (a boolean expression) has the same truth value as q."""
    if e == q:
        return True
    at = ir.implied(e, True, fn)
    return any(a == ("true", q) or (a[0] == "cmp" and a[2] == q and a[1] in ("ne", "ugt") and a[3] == ("c", 0)) or (a[0] == "cmp" and a[2] == q and a[1] == "eq" and a[3] == ("c", 1)) for a in at)


def persist(ctx, sv, ld, e2i, i2e, which):
    wr = [i for i in sv.calls(r"ostream::write$|basic_ostream::write$")]
    ctx.need(wr, "binary writes in save")
    rd = [i for i in ld.calls(r"istream::read$|basic_istream::read$")]
    ctx.need(rd, "binary reads in load")
    # roles written, in order
    seq = []
    itmap = None
    for w in wr:
        a = sv.E(w.args[1])
        role, src = role_of(sv, a)
        size = sv.E(w.args[2])
        seq.append((role, size[1] if size[0] == "c" else None, w, src))
    order_ok = all(sv.dominates(x[2], y[2]) for x, y in zip(seq, seq[1:]))
    # which map is iterated
    its = [o for o in map_ops(sv) if o.kind == "iter"]
    mw = {split(o.map)[1] for o in its if split(o.map)[0] == ("arg", 1)}
    ctx.need(len(mw) == 1, "iteration over one translation map in save")
    first_is_ext = (mw == {e2i})
    wroles = []
    for role, size, w, src in seq:
        if role is None:
            wroles.append(None)
        else:
            ext = (role == "key") == first_is_ext
            wroles.append(("ext" if ext else "int", size))
    ctx.ob("persist", "save writes both ids of every entry", sorted([x for x in wroles if x], key=str) == [("ext", 8), ("int", 4)] and order_ok and len(wroles) == 2, wr[0].where, f"the ids written are {wroles}")
    loops = sv.loops_of(wr[0])
    ctx.ob("persist", "save writes inside the iteration over all entries", bool(loops) and all(l.body >= {w.b} for w in wr for l in loops[:1]) and all(every_iteration(sv, loops[0], w) for w in wr) and iter_all(sv, loops[0]), wr[0].where, "not every entry is written")
    # reads
    rl = ld.loops_of(rd[0])
    ctx.ob("persist", "load reads inside the entry loop", bool(rl) and all(r.b in rl[0].body and every_iteration(ld, rl[0], r) for r in rd), rd[0].where, "entries are not read in every iteration")
    rroles = []
    effs = [o for o in map_ops(ld) if o.kind == "assign" and split(o.map)[0][0] in ("arg", "alloca")]
    slots = []
    for r in rd:
        b, o, v = split(ld.E(r.args[1]))
        size = ld.E(r.args[2])
        slots.append((b, o, size[1] if size[0] == "c" else None))
    for x in effs:
        x.w = "E" if split(x.map)[1] == e2i else "I" if split(x.map)[1] == i2e else None
    ctx.need([x for x in effs if x.w], "map assignment in load")
    for b, o, size in slots:
        role = None
        for x in effs:
            if x.key and x.key[0] == "ld" and split(x.key[1])[:2] == (b, o):
                role = "ext" if x.w == "E" else "int"
        rroles.append((role, size))
    ctx.ob("persist", "load reads what save wrote", rroles == wroles and all(ld.dominates(x, y) for x, y in zip(rd, rd[1:])), rd[0].where, f"save writes {wroles} but load reads {rroles}")
    for x in effs:
        ok = any(y.w != x.w and x.val and y.val and same(x.key, y.val) and same(x.val, y.key) and paired(ld, x.ins, y.ins) for y in effs)
        ctx.ob("mirror", f"load: {x.w}", ok, x.ins.where, "an entry read from the file is not installed in both directions")
    # number of entries
    if rl:
        bs = loop_bounds(ld, rl[0])
        ok = any(ini == {} and st == 1 and len(bound) == 1 for p, ini, bound, st, tb in bs)
        ctx.ob("persist", "load reads exactly the stored number of entries", ok, rd[0].where, "the entry loop does not run from 0 to the stored count")


def role_of(fn, a):
    b, o, v = split(a)
    if b[0] == "alloca":
        # a temporary holding the value
        i = [s for s, so in fn.stores_raw(b[1])]
        if len(i) == 1:
            e = fn.E(i[0].ops[0])
            if e[0] == "ld":
                return role_of(fn, e[1])
        return None, None
    if b[0] == "call":
        n = b[1]
        if n.endswith("::key"):
            return "key", fn.ins[b[2]]
        if n.endswith("::value"):
            return "value", fn.ins[b[2]]
        if n.endswith("operator->") or n.endswith("operator*"):
            return ("key" if o == 0 else "value"), fn.ins[b[2]]
    return None, None


def iter_all(fn, loop):
    """Iterator loop: every live exit is the it == end test, the iterator starts at begin() and is advanced once per round."""
    ex = loop.live_exits()
    if not ex:
        return False
    for b, s in ex:
        at = fn.edge_atoms(b, s)
        if not any(("operator!=" in str(a) or "operator==" in str(a)) for a in at):
            return False
    inc = [i for i in fn.calls(r"iterator::operator\+\+$") if i.b in loop.body]
    return len(inc) == 1 and every_iteration(fn, loop, inc[0])
