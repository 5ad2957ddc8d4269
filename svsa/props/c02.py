"""C02 - a rejected update leaves the index as it was: on every path, the checks that can reject an update come before the
first modification they protect. For each mutating operation the set of modifications (stores and non-const calls reaching
the index's members, the output buffer or the id maps) is computed, and every modification must be dominated by the
rejecting checks, each of which must cover the caller's complete range (loop cover analysis) and test the right container."""
from ..lib import *
from .. import ir, dyn


def check(ctx):
    ctx.rule("sizes", "an operation given mismatched sizes raises before anything it could modify is modified")
    ctx.rule("unique", "repeated ids are rejected before the first modification")
    ctx.rule("present", "every id that must exist (or must be free) is checked before the first modification")
    ctx.rule("translation-first", "ids are claimed, with checking enabled, before vectors, graph, slot states or entry point change")
    pol = dyn.POLICY.replace("opaque ^svs::index::vamana::VamanaBuilder\n", "opaque ^svs::index::vamana::VamanaBuilder::(?!VamanaBuilder$)\n")
    mt, md, ms = ctx.analyse_all([
        ("translation.cpp", dyn.entries("insert", "delete_external", "delete_internal")),
        ("dynamic.cpp", pol + "opaque ^svs::lib::load_from_disk\n" + dyn.entries("add_points", "delete_entries", "reconstruct", "assemble", "build")),
        ("static.cpp", pol + dyn.entries("build", "reconstruct")),
    ])
    translation(ctx, mt)
    index(ctx, md)
    static(ctx, ms)
    ctx.minimum("sizes", 8)
    ctx.minimum("present", 8)
    ctx.minimum("unique", 6)


# ------------------------------------------------------------------ IDTranslator
def translation(ctx, m):
    from .c01 import maps_of
    e2i, i2e = maps_of(m)

    def which(fn, obj):
        b, o, v = split(obj)
        return {e2i[0]: "E", i2e[0]: "I"}.get(o) if b == ("arg", 0) and not v else None

    def muts(fn):
        return [x for x in map_ops(fn) if which(fn, x.map) and x.kind in ("assign", "erase", "clear", "swap", "refread", "insertrange", "eraserange")]

    def contains(fn, w, want, elems_ok=True):
        """Atom: element of the range is (want) in map w."""
        def p(a, elems):
            for x in walk(a):
                if isinstance(x, tuple) and x and x[0] == "call":
                    c = fn.ins[x[2]]
                    for op in map_ops(fn):
                        if op.ins is c and op.kind in ("query", "find") and which(fn, op.map) == w and op.key is not None and any(same(op.key, e) for e in elems):
                            return truth(a, x) is want
            return False
        return p

    def truth(a, q):
        """Truth of query q stated by atom a (find() compared with end() counts as absence)."""
        if a[0] == "true":
            return a[1] == q or None
        if a[0] == "false":
            return False if a[1] == q else None
        if a[0] == "cmp" and (a[2] == q or a[3] == q):
            o = a[3] if a[2] == q else a[2]
            if o == ("c", 0):
                return {"eq": False, "ne": True, "ugt": True, "sgt": True}.get(a[1])
            if o == ("c", 1) or o == ("c", -1):
                return {"eq": True, "ne": False, "ult": False}.get(a[1])
            if o[0] == "call" and o[1].endswith("end"):
                return {"eq": False, "ne": True}.get(a[1])
        return None

    def unchecked_cut(fn, argn):
        c = ("arg", argn)
        return fn.cut_for(lambda a: a == ("false", c) or a == ("cmp", "eq", c, ("c", 0)))

    fn = ctx.one(m, "insert")
    mu = muts(fn)
    ctx.need(mu, "map modification in insert")
    cut = unchecked_cut(fn, 3)
    ctx.need(cut, "the check switch of insert")
    ranges = {"E": (("arg", 1), 8), "I": (("arg", 2), 4)}
    n = {}
    for w, (b, sz) in ranges.items():
        lo, hi = vec_range(fn, b)
        n[w] = lscale(ladd(hi, lo, -1), Fraction(1, sz))
    leneq = lambda a: a[0] == "cmp" and a[1] == "eq" and len_diff(fn, a) in (ladd(n["E"], n["I"], -1), ladd(n["I"], n["E"], -1))
    for x in mu:
        ctx.ob("sizes", f"insert: {x.w if hasattr(x,'w') else which(fn, x.map)} modification", fn.guarded(x.ins, leneq), x.ins.where, "ids can be installed although the two ranges differ in length")
    for w, (b, sz) in ranges.items():
        lo, hi = vec_range(fn, b)
        loops = forall_guards(fn, lo, hi, sz, contains(fn, w, False))
        nm = "external" if w == "E" else "internal"
        for x in mu:
            ctx.ob("present", f"insert: {nm} ids free before {which(fn, x.map)} changes", any(must_pass(fn, x.ins, {l.head}, cut) and x.ins.b not in l.body for l in loops), x.ins.where,
                   f"an entry can be installed before every {nm} id has been checked to be free")
            ctx.ob("unique", f"insert: {nm} ids unique before {which(fn, x.map)} changes", uniq_guard(fn, x.ins, b, cut, sz), x.ins.where,
                   f"an entry can be installed before the {nm} ids have been checked for repetition")
    for nme, w, sz in (("delete_external", "E", 8), ("delete_internal", "I", 4)):
        fn = ctx.one(m, nme)
        mu = muts(fn)
        ctx.need(mu, f"map modification in {nme}")
        cut = unchecked_cut(fn, 2)
        lo, hi = vec_range(fn, ("arg", 1))
        loops = forall_guards(fn, lo, hi, sz, contains(fn, w, True))
        for x in mu:
            ctx.ob("present", f"{nme}: all ids present before {which(fn, x.map)} changes", any(must_pass(fn, x.ins, {l.head}, cut) and x.ins.b not in l.body for l in loops), x.ins.where,
                   "an entry can be erased before every id has been checked to exist")
            ctx.ob("unique", f"{nme}: ids unique before {which(fn, x.map)} changes", uniq_guard(fn, x.ins, ("arg", 1), cut, sz), x.ins.where,
                   "an entry can be erased before the ids have been checked for repetition")


def inserted_atom(fn, a, ins):
    """Atom 'the emplace result's second member is true', the result being held in a local."""
    if a[0] not in ("true", "cmp"):
        return False
    if a[0] == "cmp" and not (a[1] == "ne" and a[3] == ("c", 0) or a[1] == "eq" and a[3] == ("c", 1)):
        return False
    e = a[1] if a[0] == "true" else a[2]
    for x in walk(e):
        if isinstance(x, tuple) and x and x[0] == "ld":
            b, o, v = split(x[1])
            if b[0] == "alloca" and o > 0 and ins.r.get("sret") and fn.E(ins.args[0]) == b:
                return True
            if b[0] == "alloca" and o > 0 and any(i.name.startswith("llvm.memcpy") and split(fn.E(i.args[0]))[0] == b and ins.r.get("sret") and fn.E(i.args[1]) == fn.E(ins.args[0]) for i in fn.all() if i.is_call):
                return True
        if isinstance(x, tuple) and x and x[0] == "ev" and any(y == ("call", ins.name, ins.id) for y in walk(x)):
            return True
    return False


def len_diff(fn, a):
    return ladd(lin(a[2]), lin(a[3]), -1)


def uniq_guard(fn, ins, base, cut, sz=8):
    """ins is reached only after a loop over the complete range of `base` that stops unless each element could be newly
    inserted into a local set that starts empty."""
    lo, hi = vec_range(fn, base)

    def fresh(a, elems):
        for op in map_ops(fn):
            if op.kind != "assign" or op.key is None or "_set::" not in op.ins.name:
                continue
            if op.map[0] == "alloca" and inserted_atom(fn, a, op.ins) and any(same(op.key, e) for e in elems):
                return True
        return False
    loops = forall_guards(fn, lo, hi, sz, fresh)
    return any(must_pass(fn, ins, {l.head}, cut) and ins.b not in l.body for l in loops)


# ------------------------------------------------------------------ mutable index
GUARDED = ("graph", "data", "status", "entry_point", "translator")


def index(ctx, m):
    R = dyn.Roles(m)
    ctx.need(all(r in R.at for r in GUARDED), "graph, data, entry point, slot state and translation members of the mutable index")

    # -- add_points (arg1 = index, arg2 = points, arg3 = ids; arg0 = returned slots)
    fn = ctx.one(m, "add_points")
    X, P, IDS = 1, ("arg", 2), ("arg", 3)
    eff = [e for e in effects(fn) if e.base == ("arg", X) and R.of(e.off)[0] in GUARDED]
    ctx.need(eff, "modifications in add_points")
    ins = [e for e in eff if R.of(e.off)[0] == "translator" and re.search(r"IDTranslator::insert", e.kind)]
    ctx.need(ins, "id insertion in add_points")
    cnt_lo, cnt_hi = vec_range(fn, IDS)
    nids = lscale(ladd(cnt_hi, cnt_lo, -1), Fraction(1, 8))
    szguard = eq_atom(fn, lambda x: x[0] == "call" and x[1].endswith("::size") and callarg(fn, fn.ins[x[2]]) == P, lambda y: lin(y) == nids)
    checked = {c.ins.id for c in ins if fn.E(c.ins.args[1]) == IDS and last_true(fn, c.ins)}
    for e in eff:
        role = R.of(e.off)[0]
        grow = growth(fn, e, role)
        ctx.ob("sizes", f"add_points: {role} {short(e)}", grow or fn.guarded(e.ins, szguard), e.ins.where, "modified although the numbers of points and ids may differ")
        if role == "translator":
            ctx.ob("present", f"add_points: {short(e)}", e.ins.id in checked, e.ins.where, "ids are installed without checking, or not the ids of the caller")
        elif not grow:
            ctx.ob("translation-first", f"add_points: {role} {short(e)}", any(fn.dominates(fn.ins[c], e.ins) for c in checked), e.ins.where,
                   f"{role} is modified before the ids have been checked and claimed")

    # -- delete_entries (arg0 = index, arg1 = ids)
    fn = ctx.one(m, "delete_entries")
    IDS = ("arg", 1)
    eff = [e for e in effects(fn) if e.base == ("arg", 0) and R.of(e.off)[0] in GUARDED]
    ctx.need(eff, "modifications in delete_entries")
    lo, hi = vec_range(fn, IDS)

    def exists(a, elems):
        c = None
        t = a[1] if a[0] == "true" else a[2] if a[0] == "cmp" and a[1] == "ne" and a[3] == ("c", 0) else None
        return t is not None and t[0] == "call" and t[1].endswith("IDTranslator::has_external") and any(same(fn.E(fn.ins[t[2]].args[1]), e) for e in elems)
    loops = forall_guards(fn, lo, hi, 8, exists)
    calls = []
    for c in fn.calls(r"IDTranslator::check_external_exist$"):
        if R.role(fn, fn.E(c.args[0]), 0) == "translator" and lin(val_at(fn, c.args[1], c)) == lo and lin(val_at(fn, c.args[2], c)) == hi:
            calls.append(c)
    dele = [e for e in eff if R.of(e.off)[0] == "translator" and re.search(r"delete_external$", e.kind) and fn.E(e.ins.args[1]) == IDS and last_true(fn, e.ins)]
    for e in eff:
        role = R.of(e.off)[0]
        selfchk = e in dele
        ok = selfchk or any(fn.dominates(c, e.ins) for c in calls) or any(fn.dominates_b(l.head, e.ins.b) and e.ins.b not in l.body for l in loops)
        ctx.ob("present", f"delete_entries: {role} {short(e)}", ok, e.ins.where, f"{role} is modified before every id has been checked to exist")
        ok = selfchk or uniq_guard(fn, e.ins, IDS, frozenset())
        # a deletion from the translation that checks everything itself and comes first is as good
        if not ok:
            ok = any(fn.dominates(d.ins, e.ins) for d in dele)
        ctx.ob("unique", f"delete_entries: {role} {short(e)}", ok, e.ins.where, f"{role} is modified before repeated ids have been rejected")

    # -- reconstruct_at (arg0 = index, dst view, ids span)
    reconstruct(ctx, fn=ctx.one(m, "reconstruct"), kind="mutable")

    # -- assembling a mutable index from files
    fn = ctx.one(m, "assemble")
    g1 = eq_atom(fn, lambda x: iscall(fn, x, r"::size$", "alloca", r"data::"), lambda y: iscall(fn, y, r"::n_nodes$", "alloca"))
    ctx.ob("sizes", "assemble: data and graph", normal_ret_guarded(fn, g1), fn.name, "an index can be assembled although data and graph differ in size")
    isds = lambda y: iscall(fn, y, r"(data::SimpleData::size|::n_nodes)$", "alloca")
    g2 = eq_atom(fn, lambda x: iscall(fn, x, r"IDTranslator::size$", "alloca"), isds)
    ctx.ob("sizes", "assemble: translation", normal_ret_guarded(fn, g2), fn.name, "an index can be assembled although the translation has a different number of ids")

    def covered(a, elems):
        t = a[1] if a[0] == "true" else a[2] if a[0] == "cmp" and a[1] == "ne" and a[3] == ("c", 0) else None
        return t is not None and t[0] == "call" and t[1].endswith("IDTranslator::has_internal") and any(same(fn.E(fn.ins[t[2]].args[1]), e) for e in elems)
    his = []
    for l in fn.loops:
        for p, ini, bound, st, tb in loop_bounds(fn, l):
            if len(bound) == 1 and list(bound.values()) == [1] and isinstance(list(bound)[0], tuple) and any(isds(v) for v in values(fn, list(bound)[0])):
                his.append(bound)
    ok = False
    for h in his:
        for l in forall_guards(fn, {}, h, 1, covered, elem="index"):
            if all(fn.dominates_b(l.head, r.b) for r in fn.rets()):
                ok = True
    ctx.ob("present", "assemble: every slot has an id", ok, fn.name, "an index can be assembled although an internal id has no external id")

    # -- building a mutable index
    fn = ctx.one(m, "build")
    ic = [c for c in fn.calls(r"IDTranslator::insert$")]
    ctx.need(ic, "id insertion while building")
    for c in fn.calls(r"VamanaBuilder::construct$"):
        ctx.ob("present", "build: ids claimed before construction", any(fn.dominates(i, c) and fn.E(i.args[1]) == ("arg", 3) and last_true(fn, i) for i in ic), c.where, "the graph is built before the ids have been checked")
        builder_guard(ctx, fn, c, "mutable build")


def builder_guard(ctx, fn, c, nm):
    g = eq_atom(fn, lambda x: iscall(fn, x, r"::n_nodes$"), lambda y: iscall(fn, y, r"data::\w+::size$"))
    ctx.ob("sizes", f"{nm}: graph and data", fn.guarded(c, g), c.where, "construction starts although graph and data differ in size")


def iscall(fn, x, pat, base=None, pat2=None):
    for y in values(fn, x):
        if y[0] == "call" and re.search(pat, y[1]) and (pat2 is None or re.search(pat2, y[1])):
            if base is None or split(callarg(fn, fn.ins[y[2]]))[0][0] == base:
                return True
    return False


def last_true(fn, call):
    """The trailing 'check' flag of a translation call is the constant true."""
    v = fn.E(call.args[-1])
    return v[0] == "c" and v[1] not in (0,) and not fn_is_ptr(fn, call.args[-1])


def growth(fn, e, role):
    """Adding free capacity: resizing data/graph/slot states upwards, new slots Empty."""
    if role in ("data",):
        return e.kind.endswith("::resize")
    if role == "graph":
        return e.kind.endswith("::unsafe_resize")
    if role == "status":
        if e.kind.endswith("vector::resize"):
            return len(e.ins.args) == 2 or val_at(fn, e.ins.args[2], e.ins) == ("c", dyn.EMPTY)
    return False


def short(e):
    return e.kind.split("::")[-1]


def reconstruct(ctx, fn, kind):
    DST, IDS = 1, None
    sets = [c for c in fn.calls(r"::set_datum$")]
    ctx.need(sets, f"output writes in {kind} reconstruct_at")
    # ids: the span argument = (ptr, len) pieces or a pointer to it
    names = {i: [v["name"] for v in a.get("vars", []) if not v.get("inl")] for i, a in enumerate(fn.r["args"])}
    ida = [i for i, n in names.items() if "ids" in n]
    ctx.need(len(ida) >= 1, "ids argument")
    if len(ida) == 2:
        lo, n = lin(("arg", ida[0])), lin(("arg", ida[1]))
    else:
        lo, n = lin(("ld", ("arg", ida[0]))), lin(("ld", mkaddr(("arg", ida[0]), 8, ())))
    hi = ladd(lo, lscale(n, 8))
    X = [i for i, nn in names.items() if "x" in nn][0]
    D = [i for i, nn in names.items() if "dst" in nn][0]

    def of(e, base):
        r = root(fn, e)
        return r is not None and (r[0] == ("arg", base))

    def dcall(x, pat, base):
        return any(y[0] == "call" and re.search(pat, y[1]) and of(callarg(fn, fn.ins[y[2]]), base) for y in values(fn, x))
    gs = eq_atom(fn, lambda x: dcall(x, r"::size$", D), lambda y: lin(y) == n)
    gd = eq_atom(fn, lambda x: dcall(x, r"::dimensions$", D), lambda y: dcall(y, r"::dimensions$", X))

    def good(a, elems):
        if kind == "mutable":
            t = a[1] if a[0] == "true" else a[2] if a[0] == "cmp" and a[1] == "ne" and a[3] == ("c", 0) else None
            return t is not None and t[0] == "call" and t[1].endswith("IDTranslator::has_external") and any(same(fn.E(fn.ins[t[2]].args[1]), e) for e in elems)
        if a[0] != "cmp":
            return False
        for l, r, pr in ((a[2], a[3], a[1]), (a[3], a[2], ir.CMPSWAP.get(a[1], a[1]))):
            if pr == "ult" and any(same(l, e) for e in elems) and dcall(r, r"data::\w+::size$", X):
                return True
        return False
    loops = forall_guards(fn, lo, hi, 8, good)
    if not loops:
        loops = [l for l in forall_idx(fn, lo, n, good)]
    for s in sets:
        ctx.ob("sizes", f"{kind} reconstruct_at: ids and destination", fn.guarded(s, gs), s.where, "output is written although the numbers of ids and destination vectors may differ")
        ctx.ob("sizes", f"{kind} reconstruct_at: dimensions", fn.guarded(s, gd), s.where, "output is written although the dimensions may differ")
        ctx.ob("present", f"{kind} reconstruct_at: ids valid", any(fn.dominates_b(l.head, s.b) and s.b not in l.body for l in loops), s.where, "output is written before every id has been checked")


def forall_idx(fn, lo, n, good):
    """As forall_guards, for an element loop indexed 0..n over base lo."""
    return forall_guards(fn, lo, ladd(lo, lscale(n, 8)), 8, good)


def static(ctx, m):
    fn = ctx.one(m, "build")
    cs = list(fn.calls(r"VamanaBuilder::construct$"))
    ctx.need(cs, "construction in the static build")
    for c in cs:
        builder_guard(ctx, fn, c, "static build")
    reconstruct(ctx, ctx.one(m, "reconstruct"), "static")
