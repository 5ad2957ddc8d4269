"""C25: the type-erased index classes perform exactly the operation requested.

Analysed: every operation of Vamana, DynamicVamana and Flat: the public method (which virtual function it calls, with what), the
implementation of that virtual function (which operation of the concrete index it calls, with what), the accessors of the concrete
indexes and the places where the stored settings are used. Arguments passed in memory are compared word by word through copies."""
from ..lib import *
from ..content import Const, content
from .. import dyn
from .c06 import must_ret, is_ret
from .c24 import enumerators

CLS = ("DV", "VA", "FL")
NAME = {"DV": "DynamicVamana", "VA": "Vamana", "FL": "Flat"}
INDEX = {"DV": "svs::index::vamana::MutableVamanaIndex", "VA": "svs::index::vamana::VamanaIndex", "FL": "svs::index::flat::FlatIndex"}
OPS = ["size", "dimensions", "can_change_threads", "get_num_threads", "get_search_parameters", "set_search_parameters"]
VOPS = ["get_alpha", "set_alpha", "get_construction_window_size", "set_construction_window_size", "save", "reconstruct_at"]
IMPL_ONLY = ["get_max_candidates", "set_max_candidates", "reset_performance_parameters"]
DOPS = ["delete_points", "consolidate", "compact", "has_id"]
RENAMED = {"delete_points": "delete_entries"}
SETTINGS = ["search_parameters", "num_threads"]
VSETTINGS = ["alpha", "construction_window_size", "max_candidates", "full_search_history"]
POL = r"""opaque ^svs::index::(vamana|flat)::(MutableVamanaIndex|VamanaIndex|FlatIndex)::
opaque ^std::(filesystem|__cxx11|thread|operator)
opaque ^fmt::
opaque ^svs::lib::save_to_disk$
opaque ^svs::logging::
opaque ^svs::index::vamana::(SearchBuffer|MutableBuffer)::
entry any ^h_(DV|VA|FL)_(pub|slot|impl)_(?!search_n)
+inline ^svs::data::
entry searchn ^h_(DV|VA|FL)_pub_search_n
+inline ^svs::data::
+opaque ^svs::QueryResultImpl::(QueryResultImpl|view)$
entry acc ^h_((DV|VA|FL)_(get|set)_|view|anon|sp_|pool|res_|rv_)
+inline ^svs::(index|data)::
entry use ^h_(DV|VA)_use_
+inline ^svs::index::vamana::(MutableVamanaIndex|VamanaIndex)::(add_points|consolidate|save|scratchspace|search|get_\w+)
"""


def check(ctx):
    m = ctx.analyse("orch.cpp", dyn.POLICY + POL)
    F = {}
    for f in m.fns:
        n = re.match(r"h_(\w+?)(\[abi:\w+\])?\(", f.name)
        if n:
            F[n.group(1)] = f
    ctx.rule("public", "each public operation makes exactly one virtual call, of the operation of the same name, with its arguments unchanged and in order, and returns its result")
    ctx.rule("backend", "each implementation calls the operation of the same meaning on its index, with its arguments unchanged and in order, and returns its result")
    ctx.rule("erased", "queries reach the index as the element type they have, with their own pointer, count and dimension; unsupported types are refused")
    ctx.rule("settings", "a getter returns what the setter of the same name stored; set_search_window_size changes exactly the window; at least one thread is used")
    ctx.rule("use", "construction, consolidation, saving and searching use the stored or given settings, each in its own role")
    T = Templates(ctx, F)
    E = enumerators("DataType")
    for c in CLS:
        for op in OPS + ["query_types"] + (VOPS if c != "FL" else []) + (DOPS if c == "DV" else []):
            public(ctx, F, c, op, T)
            if op != "query_types":
                backend(ctx, F, c, op)
        public(ctx, F, c, "set_num_threads", T)
        backend(ctx, F, c, "set_num_threads")
        for t in ("float", "int8"):
            erasing(ctx, F, c, t, T, E)
        typed(ctx, F, c, T, E)
        default_search(ctx, F, c, T, E)
        query_types(ctx, F, c, E)
        for s in SETTINGS + (VSETTINGS if c != "FL" else []):
            setting(ctx, F, c, s, T)
        if c == "FL":
            continue
        for op in IMPL_ONLY:
            backend(ctx, F, c, op)
            if c == "VA" and op != "reset_performance_parameters":
                public(ctx, F, c, op, T)
        public(ctx, F, c, "experimental_backend_string", T)
        public(ctx, F, c, "reset_performance_parameters", T)
        calibrate_public(ctx, F, c, T, E)
        calibrate(ctx, F, c, T, E)
        window(ctx, F, c, T)
        search(ctx, F, c, T)
    visited(ctx, F, T)
    add_points(ctx, F, T)
    all_ids(ctx, F, T)
    use(ctx, F, T)
    ctx.minimum("public", 60)
    ctx.minimum("backend", 40)


class Templates:
    """Where sizes, pointers and settings live in the objects passed, read off their accessors."""

    def __init__(self, ctx, F):
        self.off = {}
        for n in ("view_size", "view_dims", "view_data", "anon_type", "anon_size", "anon_dims", "anon_data", "sp_window", "sp_capacity", "sp_visited"):
            f = F[n]
            os = set()
            for r in f.rets():
                for e in walk(f.E(r.ops[0])):
                    if e[0] == "ld" and split(e[1])[0] == ("arg", 0):
                        os.add(split(e[1])[1])
            ctx.need(len(os) == 1, "C25 accessor " + n)
            self.off[n] = os.pop() if len(os) == 1 else -1


def leaves(m, ty, base=0, d=0):
    """Offsets of the scalars (and library objects) of a class."""
    t = ir.clean_ty(ty).rstrip("&").strip()
    t = re.sub(r"^const ", "", t)
    lay = m.layouts.get(t)
    if lay is None or d > 8 or t.startswith("std::") and not re.match(r"std::(span|array)<", t) or not lay["members"]:
        return [base]
    out = []
    for o, s, n, ty2 in lay["members"]:
        if s:
            out += leaves(m, ty2, base + o, d + 1)
    return sorted(set(out)) or [base]


def mem(fn, e):
    return ("mem", e)


def word(fn, e, off, at, cut=frozenset()):
    """Sources of the word at off in the object expression e points to, at an instruction."""
    b, o, v = split(e)
    if b[0] != "alloca" or v:
        return {mem(fn, mkaddr(b, o + off, v))}
    out = set()
    for s in content(fn, b, o + off, at, cut):
        if s[0] == "val":
            x = strip(s[1])
            x = x[1] if x[0] == "tb" else x
            if x[0] == "bin" and x[1] == "and" and x[3] == ("c", 1):
                x = strip(x[2])
            sb = split(x[1])[0] if x[0] == "ld" else None
            out.add(mem(fn, x[1]) if x[0] == "ld" else ("val", x))
            if sb is not None and sb[0] == "alloca" and not split(x[1])[2]:
                out.discard(mem(fn, x[1]))
                ld = [i for i in fn.all("load") if fn.E(i.ops[0]) == x[1]]
                out |= word(fn, split(x[1])[0], split(x[1])[1], ld[0]) if ld else {("?",)}
        else:
            out.add(s)
    return out


def same_arg(fn, m, call, x, k, size=None, cut=frozenset()):
    """Argument x of the call is the k-th argument of the function: the same value, or a copy of the whole object."""
    e, want = fn.E(x), ("arg", k)
    if e == want:
        return True
    if not fn_is_ptr(fn, x) or split(e)[0][0] != "alloca":
        return False
    if size is not None:
        offs = range(0, size, 8)
    else:
        vs = fn.r["args"][k].get("vars")
        ty = vs[0]["ty"] if vs else ""
        offs = leaves(m, ty)
        if offs == [0] and not fn.mod.layouts.get(ir.clean_ty(ty)):
            sz = [i.args[2] for i in fn.all() if i.is_call and i.name.startswith("llvm.memcpy") and fn.E(i.args[1]) == want]
            offs = range(0, fn.E(sz[0])[1], 8) if sz and fn.E(sz[0])[0] == "c" else [0]
    return all(word(fn, e, o, call, cut) == {mem(fn, mkaddr(want, o, ()))} for o in offs)


def indirect(fn):
    out = []
    for i in fn.all():
        if i.is_call and i.r.get("ind") is not None and i.b not in fn.cold:
            f = fn.E(i.r["ind"])
            if f[0] == "ld":
                b, o, v = split(f[1])
                if b[0] == "ld" and not v:
                    out.append((i, b[1], o))
    return out


def arg_refs(c):
    """(receiver, other arguments) of a call."""
    a = c.args[(1 if c.r.get("sret") else 0):]
    return a[0] if a else None, a[1:]


def slot_of(F, c, op):
    ind = indirect(F[f"{c}_slot_{op}"])
    return ind[0][2] if len(ind) == 1 else None


def gives(fn, c):
    """The result of the call is the result of the function."""
    if has_sret(fn) or c.r.get("sret"):
        return has_sret(fn) and bool(c.r.get("sret")) and fn.E(c.args[0]) == ("arg", 0)
    rs = fn.rets()
    if not rs or not rs[0].ops:
        return True
    es = {e if (e := fn.E(r.ops[0]))[0] != "tb" else e[1] for r in rs}
    return all(boolish(e) == ("call", c.name, c.id) for e in es)


def boolish(e):
    while True:
        if e[0] == "cmp" and e[1] == "ne" and e[3] == ("c", 0):
            e = e[2]
        elif e[0] == "bin" and e[1] == "and" and e[3] == ("c", 1):
            e = e[2]
        elif e[0] == "tb":
            e = e[1]
        else:
            return e


def has_sret(fn):
    a = fn.r["args"]
    return bool(a) and bool(a[0].get("sret"))


def passes(ctx, rule, fn, c, inst, own):
    """Every argument of the function (after the receiver) reaches the call, in order and unchanged."""
    _, given = arg_refs(c)
    params = []  # [[(argument number, offset in the parameter)]]
    for k in range(own + 1, len(fn.r["args"])):
        v = (fn.r["args"][k].get("vars") or [{"name": k, "off": 0}])[0]
        if params and params[-1][0] == v["name"]:
            params[-1][1].append((k, v["off"]))
        else:
            params.append((v["name"], [(k, v["off"])]))
    for j, (n, parts) in enumerate(params):
        if not given:
            ctx.ob(rule, f"{inst}/argument {j}", False, c.where, "an argument is not passed on")
            continue
        if len(parts) > 1 and not fn.E(given[0])[0] == "arg" and fn_is_ptr(fn, given[0]) and split(fn.E(given[0]))[0][0] == "alloca":
            ok = all(word(fn, fn.E(given[0]), o, c) == {("val", ("arg", k))} for k, o in parts)
            given = given[1:]
        else:
            ok = len(given) >= len(parts) and all(same_arg(fn, fn.mod, c, x, k) for x, (k, o) in zip(given, parts))
            given = given[len(parts):]
        ctx.ob(rule, f"{inst}/argument {j}", ok, c.where, "an argument is passed on changed, or another one in its place")
    if given:
        ctx.ob(rule, inst + "/further arguments", False, c.where, "the operation is given something that was not asked for")


def public(ctx, F, c, op, T):
    fn = F[f"{c}_pub_{op}"]
    i = virtual(ctx, F, fn, c, op, op)
    if i is None:
        return
    own = 1 if has_sret(fn) else 0
    inst = f"{NAME[c]}::{op}"
    if op == "set_num_threads":
        _, a = arg_refs(i)
        ok = len(a) == 1 and fn.E(a[0]) in clamps(("arg", own + 1))
        ctx.ob("public", inst + "/argument 0", ok, i.where, "the number of threads requested is not the one set")
    else:
        passes(ctx, "public", fn, i, inst, own)
    ctx.ob("public", inst + "/result", gives(fn, i), i.where, "the result of the operation is not what is returned")


def clamps(e):
    return (e, ("umax", e, ("c", 1)), ("umax", ("c", 1), e), ("sel", ("cmp", "eq", e, ("c", 0)), ("c", 1), e), ("sel", ("cmp", "ne", e, ("c", 0)), e, ("c", 1)), ("sel", ("cmp", "ult", e, ("c", 1)), ("c", 1), e))


def virtual(ctx, F, fn, c, op, name):
    """The one virtual call of a public operation."""
    inst = f"{NAME[c]}::{name}"
    s = slot_of(F, c, op)
    ind = indirect(fn)
    hit = [i for i, r, o in ind if o == s]
    ok = s is not None and len(ind) == 1 and len(hit) == 1 and must_ret(fn, hit[0])
    ctx.ob("public", inst + "/operation", ok, ind[0][0].where if ind else fn.name, f"does not call {op} of the implementation exactly once on every path")
    return hit[0] if ok else None


def index_calls(fn, c, cut=None):
    out = []
    for i in fn.all():
        if i.is_call and i.b not in fn.cold and i.name.startswith(INDEX[c] + "::"):
            out.append(i)
    return out


def impl_receiver(fn, e, own):
    b, o, v = split(e)
    return b == ("arg", own) and not v


def backend(ctx, F, c, op):
    fn = F[f"{c}_impl_{op}"]
    inst = f"{NAME[c]}Impl::{op}"
    own = 1 if has_sret(fn) else 0
    want = f"{INDEX[c]}::{RENAMED.get(op, op)}"
    cs = index_calls(fn, c)
    ok = len(cs) == 1 and cs[0].name == want and must_ret(fn, cs[0])
    ctx.ob("backend", inst + "/operation", ok, cs[0].where if cs else fn.name, f"does not call {RENAMED.get(op, op)} of the index exactly once on every path")
    if not ok:
        return
    i = cs[0]
    if op == "can_change_threads" and not i.args:
        pass
    elif op == "set_num_threads":
        _, a = arg_refs(i)
        ctx.ob("backend", inst + "/argument 0", len(a) == 1 and fn.E(a[0]) in clamps(("arg", own + 1)), i.where, "the number of threads requested is not the one set")
    else:
        passes(ctx, "backend", fn, i, inst, own)
    ctx.ob("backend", inst + "/result", gives(fn, i), i.where, "the result of the operation is not what is returned")


# ---- queries ---------------------------------------------------------------------------------------
def erasing(ctx, F, c, t, T, E):
    fn = F[f"{c}_pub_search_{t}"]
    i = virtual(ctx, F, fn, c, "search", f"search<{t}>")
    if i is None:
        return
    inst = f"{NAME[c]}::search<{t}>"
    _, a = arg_refs(i)
    if len(a) != 3:
        ctx.ob("public", inst + "/number of arguments", False, i.where, "not all arguments are passed on")
        return
    ctx.ob("public", inst + "/result view", same_arg(fn, fn.mod, i, a[0], 1), i.where, "the results do not go where the caller asked")
    q = fn.E(a[1])
    k = E["float32"] if t == "float" else E["int8"]
    for f, want in (("data", {mem(fn, ("arg", 2, T.off["view_data"]))}), ("size", None), ("dims", None), ("type", {("val", ("c", k))})):
        want = {mem(fn, mkaddr(("arg", 2), T.off["view_" + f], ()))} if f != "type" else want
        ok = word(fn, q, T.off["anon_" + f], i) == want
        ctx.ob("erased", f"{inst}/{f}", ok, i.where, f"the {f} handed on is not the one of the queries")
    ctx.ob("public", inst + "/parameters", same_arg(fn, fn.mod, i, a[2], 3), i.where, "the search parameters are not the ones given")


def default_search(ctx, F, c, T, E):
    """search(queries, n): a fresh result of one row per query and n columns, filled with the current search parameters."""
    fn = F[f"{c}_pub_search_n"]
    inst = f"{NAME[c]}::search(n)"
    sg, sr = slot_of(F, c, "get_search_parameters"), slot_of(F, c, "search")
    ind = indirect(fn)
    gs, sc = [i for i, r, o in ind if o == sg], [i for i, r, o in ind if o == sr]
    ok = len(ind) == 2 and len(gs) == 1 and len(sc) == 1 and must_ret(fn, sc[0]) and fn.dominates(gs[0], sc[0])
    ctx.ob("public", inst + "/operation", ok, ind[0][0].where if ind else fn.name, "the queries are not searched exactly once with the current search parameters")
    if not ok:
        return
    i, g = sc[0], gs[0]
    _, a = arg_refs(i)
    q = lambda f: mkaddr(("arg", 2), T.off["view_" + f], ())
    mk = [x for x in fn.calls(r"^svs::QueryResultImpl::QueryResultImpl$") if fn.E(x.args[0]) == ("arg", 0)]
    ok = len(mk) == 1 and [fn.E(x) for x in mk[0].args[1:3]] == [("ld", q("size")), ("arg", 3)] and fn.dominates(mk[0], i)
    ctx.ob("public", inst + "/result shape", ok, mk[0].where if mk else i.where, "the result does not have a row for every query with the number of neighbours requested")
    vw = fn.E(a[0])
    src = set()
    for o in range(0, 48, 8):
        src |= {(s[0], s[1]) + tuple(x - o for x in s[2:]) for s in word(fn, vw, o, i) if s[0] == "res"} or {("?",)}
    views = [x for x in fn.calls(r"^svs::QueryResultImpl::view$") if fn.E(x.args[1]) == ("arg", 0)]
    ctx.ob("public", inst + "/result view", any(src == {("res", x.id, 0)} for x in views), i.where, "the results are not written to what is returned")
    for f, w in (("data", None), ("size", None), ("dims", None), ("type", {("val", ("c", E["float32"]))})):
        w = w or {mem(fn, q(f))}
        ctx.ob("erased", f"{inst}/{f}", word(fn, fn.E(a[1]), T.off["anon_" + f], i) == w, i.where, f"the {f} handed on is not the one of the queries")
    pe = fn.E(a[2])
    if g.r.get("sret"):
        n = g.r.get("sretsize") or 8
        ok = all(word(fn, pe, o, i) == {("res", g.id, o)} for o in range(0, n, 8))
    else:
        ok = all(len(w := word(fn, pe, 8 * k, i)) == 1 and picks(next(iter(w)), g, k) for k in (0, 1))
    ctx.ob("public", inst + "/parameters", ok, i.where, "the search does not use the current search parameters")


def picks(s, g, k):
    """The k-th part of the result of a call."""
    e = s[1] if s[0] == "val" else ("?",)
    return len(e) > 2 and e[0] == "ev" and e[1][0] == "call" and e[1][2] == g.id and e[-1] in (k, (k,))


def typed(ctx, F, c, T, E):
    fn = F[f"{c}_impl_search"]
    inst = f"{NAME[c]}Impl::search"
    cell = ("ld", mkaddr(("arg", 2), T.off["anon_type"], ()))
    for name, k in E.items():
        K = Const(fn, lambda e: k if e == cell else None)
        cs = [i for i in index_calls(fn, c) if i.b in K.blocks]
        out = [r for r in fn.rets() if r.b in K.blocks and not r.b in fn.cold]
        if name not in ("float32", "int8"):
            ctx.ob("erased", f"{inst}/{name} refused", not cs and not out, (cs or out or [fn])[0].where if cs or out else fn.name, "queries of an unsupported type are processed")
            continue
        ty = "float const" if name == "float32" else "signed char const"
        ok = len(cs) == 1 and cs[0].name == INDEX[c] + "::search" and not fn.path(fn.blocks[fn.entry][0], is_ret, K.cut, (cs[0],))
        ctx.ob("erased", f"{inst}/{name}/operation", ok, cs[0].where if cs else fn.name, "queries of this type are not searched exactly once")
        if not ok:
            continue
        i = cs[0]
        _, a = arg_refs(i)
        ok = len(a) == 3 and re.search(r"SimpleData<" + re.escape(ty) + ",", i.r["d"].split("search", 1)[1]) is not None
        ctx.ob("erased", f"{inst}/{name}/as its type", ok, i.where, "the queries are interpreted as another element type")
        if not ok:
            continue
        ctx.ob("backend", f"{inst}/{name}/result view", same_arg(fn, fn.mod, i, a[0], 1, cut=K.cut), i.where, "the results do not go where the caller asked")
        view(ctx, fn, i, a[1], {f: mem(fn, mkaddr(("arg", 2), T.off["anon_" + f], ())) for f in ("data", "size", "dims")}, T, f"{inst}/{name}", K.cut)
        ctx.ob("backend", f"{inst}/{name}/parameters", same_arg(fn, fn.mod, i, a[2], 3, cut=K.cut), i.where, "the search parameters are not the ones given")


def view(ctx, fn, i, x, want, T, inst, cut=frozenset()):
    for f, w in want.items():
        ok = word(fn, fn.E(x), T.off["view_" + f], i, cut) == {w}
        ctx.ob("erased", f"{inst}/{f}", ok, i.where, f"the {f} handed to the index is not the one given")


def calibrate_public(ctx, F, c, T, E):
    fn = F[f"{c}_pub_experimental_calibrate"]
    i = virtual(ctx, F, fn, c, "experimental_calibrate", "experimental_calibrate")
    if i is None:
        return
    inst = f"{NAME[c]}::experimental_calibrate"
    _, a = arg_refs(i)
    at = lambda k, f: ("ld", mkaddr(("arg", k), T.off["view_" + f], ()))
    ctx.ob("public", inst + "/number of arguments", len(a) == 10, i.where, "not all arguments are passed on")
    if len(a) != 10:
        return
    e = [fn.E(x) for x in a]
    want = [at(2, "data"), ("c", E["float32"]), at(2, "size"), at(2, "dims"), None, at(3, "size"), at(3, "dims"), ("arg", 4), ("arg", 5), None]
    for j, w in enumerate(want):
        if w is not None:
            ctx.ob("public", f"{inst}/argument {j}", e[j] == w, i.where, "an argument is passed on changed, or another one in its place")
    ok = word(fn, e[4], 0, i) == {mem(fn, at(3, "data")[1])} and word(fn, e[4], 8, i) == {("val", ("c", E["uint32"]))}
    ctx.ob("public", inst + "/ground truth", ok, i.where, "the ground truth passed on is not the one given")
    ctx.ob("public", inst + "/parameters", same_arg(fn, fn.mod, i, a[9], 6), i.where, "the calibration parameters are not the ones given")
    ctx.ob("public", inst + "/result", gives(fn, i), i.where, "the result of the operation is not what is returned")


def calibrate(ctx, F, c, T, E):
    fn = F[f"{c}_impl_experimental_calibrate"]
    inst = f"{NAME[c]}Impl::experimental_calibrate"
    u = E["uint32"]
    gt = ("ld", mkaddr(("arg", 6), 8, ()))
    for name, k in E.items():
        for g in (u, E["float32"]):
            K = Const(fn, lambda e: k if e == ("arg", 3) else g if e == gt else None)
            cs = [i for i in index_calls(fn, c) if i.b in K.blocks]
            out = [r for r in fn.rets() if r.b in K.blocks]
            if name not in ("float32", "int8") or g != u:
                if g == u or name == "float32":
                    ctx.ob("erased", f"{inst}/{name}/{g}/refused", not cs and not out, fn.name, "queries or ground truth of an unsupported type are processed")
                continue
            ty = "float const" if name == "float32" else "signed char const"
            ok = len(cs) == 1 and cs[0].name == INDEX[c] + "::calibrate" and not fn.path(fn.blocks[fn.entry][0], is_ret, K.cut, (cs[0],))
            ctx.ob("erased", f"{inst}/{name}/operation", ok, cs[0].where if cs else fn.name, "calibration does not run exactly once")
            if not ok:
                continue
            i = cs[0]
            _, a = arg_refs(i)
            ok = len(a) == 5 and re.search(r"SimpleData<" + re.escape(ty) + ",", i.r["d"].split("calibrate", 1)[1]) is not None
            ctx.ob("erased", f"{inst}/{name}/as its type", ok, i.where, "the queries are interpreted as another element type")
            if not ok:
                continue
            v = lambda n: ("val", ("arg", n))
            view(ctx, fn, i, a[0], {"data": v(2), "size": v(4), "dims": v(5)}, T, f"{inst}/{name}/queries", K.cut)
            view(ctx, fn, i, a[1], {"data": mem(fn, ("arg", 6)), "size": v(7), "dims": v(8)}, T, f"{inst}/{name}/ground truth", K.cut)
            for j, n in ((2, 9), (3, 10), (4, 11)):
                ctx.ob("backend", f"{inst}/{name}/argument {j}", same_arg(fn, fn.mod, i, a[j], n, cut=K.cut), i.where, "an argument is passed on changed, or another one in its place")
            ctx.ob("backend", f"{inst}/{name}/result", gives(fn, i), i.where, "the result of calibration is not what is returned")


def query_types(ctx, F, c, E):
    fn = F[f"{c}_impl_query_types"]
    want = [E["float32"], E["int8"]]
    got = set()
    for i in fn.all():
        if i.is_call and i.name == "std::vector::vector" and len(i.args) >= 3 and fn.E(i.args[0]) == ("arg", 0) and fn.E(i.args[2])[0] == "c":
            for k in range(fn.E(i.args[2])[1]):
                b, o, v = split(fn.E(i.args[1]))
                got |= {s for s in elements(fn, b, o + 4 * k, i)}
        elif i.is_call and i.name == "std::vector::push_back" and fn.E(i.args[0]) == ("arg", 0):
            b, o, v = split(fn.E(i.args[1]))
            got |= elements(fn, b, o, i)
    ctx.ob("erased", f"{NAME[c]}Impl::query_types", got == set(want), fn.name, "the element types reported are not the ones accepted")


def elements(fn, b, o, at):
    if b[0] == "alloca":
        return {s[1][1] if s[0] == "val" and s[1][0] == "c" else s for s in content(fn, b, o, at)}
    if b[0] == "g":
        ini = (fn.mod.glob.get(b[1]) or {}).get("init")
        return {ini[o // 4]} if ini and o // 4 < len(ini) and isinstance(ini[o // 4], int) else {("?", str(ini))}
    return {("?",)}


# ---- settings --------------------------------------------------------------------------------------
def ret_words(fn, own):
    """What a getter returns, as addresses of words of the receiver: {word offset: address}."""
    out = {}
    if own:
        offs = set()
        for i in fn.all():
            if i.is_call and i.name.startswith("llvm.memcpy") and fn.E(i.args[2])[0] == "c":
                b, o, v = split(fn.E(i.args[0]))
                if b == ("arg", 0) and not v:
                    offs |= set(range(o, o + fn.E(i.args[2])[1], 8))
            elif i.op == "store":
                b, o, v = split(fn.E(i.ops[1]))
                if b == ("arg", 0) and not v:
                    offs.add(o)
        for r in fn.rets():
            for o in offs:
                out.setdefault(o, set()).update(s[1] if s[0] == "mem" else s for s in word_arg(fn, ("arg", 0), o, r))
        return {o: s for o, s in out.items()}
    for r in fn.rets():
        i = fn.ins.get(r.ops[0].get("v")) if "v" in r.ops[0] else None
        if i is not None and i.op == "insertvalue":
            while i is not None and i.op == "insertvalue":
                e = fn.E(i.ops[1])
                k = i.r["idx"][0]
                out.setdefault(8 * k, set()).add(e[1] if e[0] == "ld" else e)
                i = fn.ins.get(i.ops[0].get("v"))
        else:
            e = boolish(fn.E(r.ops[0]))
            out.setdefault(0, set()).add(e[1] if e[0] == "ld" else e)
    return out


def word_arg(fn, base, off, at):
    out = set()
    for s in content(fn, base, off, at):
        if s[0] == "val" and strip(s[1])[0] == "ld":
            out.add(("mem", strip(s[1])[1]))
        else:
            out.add(s)
    return out


def set_words(fn):
    """Where a setter stores its argument: {word offset: address}."""
    out = {}
    rs = fn.rets()
    cells = set()
    for i in fn.all():
        if i.b in fn.cold:
            continue
        if i.op == "store":
            b, o, v = split(fn.E(i.ops[1]))
            if b == ("arg", 0):
                cells.add(o if not v else None)
        elif i.is_call and i.name.startswith("llvm.memcpy"):
            b, o, v = split(fn.E(i.args[0]))
            n = fn.E(i.args[2])
            if b == ("arg", 0):
                if v or n[0] != "c":
                    cells.add(None)
                else:
                    cells |= set(range(o, o + n[1], 8))
    if None in cells:
        return None
    for o in cells:
        for r in rs:
            for s in content(fn, ("arg", 0), o, r):
                if s[0] == "val":
                    e = boolish(strip(s[1]))
                    s = ("mem", e[1]) if e[0] == "ld" else s
                if s[0] == "mem":
                    b, k, v = split(s[1])
                    if b == ("arg", 1) and not v:
                        out.setdefault(k, set()).add(mkaddr(("arg", 0), o, ()))
                        continue
                return None
    return out


def setting(ctx, F, c, s, T):
    g, st = F[f"{c}_get_{s}"], F[f"{c}_set_{s}"]
    inst = f"{INDEX[c].split('::')[-1]}/{s}"
    if s == "num_threads":
        rz = [i for i in st.calls(r"NativeThreadPoolBase::resize$") if i.b not in st.cold]
        sz = g.calls(r"NativeThreadPoolBase::size$")
        ok = len(rz) == 1 and len(sz) == 1 and must_ret(st, rz[0]) and st.E(rz[0].args[0]) == g.E(sz[0].args[0]) and gives(g, sz[0])
        ctx.ob("settings", inst, ok, rz[0].where if rz else st.name, "the number of threads reported is not that of the pool resized")
        n = ("ld", ("arg", 1))
        if ok:
            a = st.E(rz[0].args[1])
            pub = F[f"{c}_pub_set_num_threads"]
            pa = [pub.E(arg_refs(i)[1][0]) for i, r, o in indirect(pub) if arg_refs(i)[1]]
            clamped = a != n or pa and pa[0] != ("arg", 1)
            ctx.ob("settings", inst + "/as requested", a in clamps(n), rz[0].where, "the pool is not given the number of threads requested")
            ctx.ob("settings", inst + "/at least one", bool(clamped), rz[0].where, "no thread at all can be requested")
        return
    own = 1 if has_sret(g) else 0
    rw = ret_words(g, own)
    sw = set_words(st)
    rw = {k: {re_base(x, own) for x in v} for k, v in rw.items()}
    ok = bool(rw) and sw is not None and rw == sw and all(len(v) == 1 for v in rw.values()) and writes_always(st, sw)
    ctx.ob("settings", inst, ok, st.name.split("(")[0], "the value returned by the getter is not the value stored by the setter")


def writes_always(fn, sw):
    for r in fn.rets():
        for v in sw.values():
            for a in v:
                b, o, _ = split(a)
                if ("init",) in content(fn, b, o, r):
                    return False
    return True


def re_base(x, own):
    b, o, v = split(x) if x and x[0] not in ("val", "clobber", "init", "res") else (x, 0, ())
    return mkaddr(("arg", 0), o, ()) if b == ("arg", own) and not v else x


# ---- operations composed of several ------------------------------------------------------------------
def window(ctx, F, c, T):
    fn = F[f"{c}_pub_set_search_window_size"]
    inst = f"{NAME[c]}::set_search_window_size"
    sg, ss = slot_of(F, c, "get_search_parameters"), slot_of(F, c, "set_search_parameters")
    ind = indirect(fn)
    gs, st = [i for i, r, o in ind if o == sg], [i for i, r, o in ind if o == ss]
    ok = len(ind) == 2 and len(gs) == 1 and len(st) == 1 and must_ret(fn, st[0]) and fn.dominates(gs[0], st[0])
    ctx.ob("settings", inst + "/operation", ok, ind[0][0].where if ind else fn.name, "the current parameters are not read, changed and set")
    if ok:
        i = st[0]
        e = fn.E(arg_refs(i)[1][0])
        lay = [ty for ty in fn.mod.layouts if ty == "svs::index::vamana::VamanaSearchParameters"]
        offs = set(leaves(fn.mod, lay[0])) if lay else set()
        ctx.need(bool(lay), "C25 VamanaSearchParameters")
        for o in sorted(offs):
            w = word(fn, e, o, i)
            if o in (T.off["sp_window"], T.off["sp_capacity"]):
                ok = w == {("val", ("arg", 1))}
            else:
                ok = len(w) == 1 and (x := next(iter(w)))[0] == "res" and x[1] == gs[0].id and x[2] == o
            ctx.ob("settings", f"{inst}/word {o}", ok, i.where, "the parameters set differ from the current ones in something other than the window, or the window is not the one given")
    fn = F[f"{c}_pub_get_search_window_size"]
    inst = f"{NAME[c]}::get_search_window_size"
    ctx.ob("settings", inst, read_param(F, fn, c, T.off["sp_window"]), fn.name.split("(")[0], "the window reported is not that of the current search parameters")


def read_param(F, fn, c, off):
    """Every result is the field at off of the parameters obtained from the implementation."""
    sg = slot_of(F, c, "get_search_parameters")
    ind = indirect(fn)
    if len(ind) != 1 or ind[0][2] != sg:
        return False
    i = ind[0][0]
    obj = fn.E(i.args[0])
    for r in fn.rets():
        e = boolish(fn.E(r.ops[0]))
        if e[0] != "ld":
            return False
        b, o, v = split(e[1])
        if v or b[0] != "alloca" or word_res(fn, b, o, r) != {("res", i.id, off)}:
            return False
    return bool(fn.rets())


def word_res(fn, b, o, at):
    return set(content(fn, b, o, at))


def visited(ctx, F, T):
    fn = F["VA_pub_visited_set_enabled"]
    ctx.ob("settings", "Vamana::visited_set_enabled", read_param(F, fn, "VA", T.off["sp_visited"]), fn.name, "the flag reported is not that of the current search parameters")
    for op, val in (("enable_visited_set", 1), ("disable_visited_set", 0)):
        fn = F["VA_pub_" + op]
        inst = "Vamana::" + op
        sg, ss = slot_of(F, "VA", "get_search_parameters"), slot_of(F, "VA", "set_search_parameters")
        ind = indirect(fn)
        gs, st = [i for i, r, o in ind if o == sg], [i for i, r, o in ind if o == ss]
        ok = len(ind) == 2 and len(gs) == 1 and len(st) == 1 and must_ret(fn, st[0]) and fn.dominates(gs[0], st[0])
        ctx.ob("settings", inst + "/operation", ok, ind[0][0].where if ind else fn.name, "the current parameters are not read, changed and set")
        if not ok:
            continue
        e = fn.E(arg_refs(st[0])[1][0])
        for o in leaves(fn.mod, "svs::index::vamana::VamanaSearchParameters"):
            w = word(fn, e, o, st[0])
            if o == T.off["sp_visited"]:
                ok = w == {("val", ("c", val))}
            else:
                ok = len(w) == 1 and (x := next(iter(w)))[0] == "res" and x[1] == gs[0].id and x[2] == o
            ctx.ob("settings", f"{inst}/word {o}", ok, st[0].where, "something other than the visited set is changed, or it is set the wrong way")


def add_points(ctx, F, T):
    fn = F["DV_pub_add_points"]
    i = virtual(ctx, F, fn, "DV", "add_points", "add_points")
    if i is not None:
        _, a = arg_refs(i)
        want = [("ld", mkaddr(("arg", 1), T.off["view_" + f], ())) for f in ("data", "size", "dims")] + [("arg", 2), ("arg", 3)]
        ok = [fn.E(x) for x in a] == want
        ctx.ob("public", "DynamicVamana::add_points/arguments", ok, i.where, "the points or ids passed on are not the ones given")
    fn = F["DV_impl_add_points"]
    cs = index_calls(fn, "DV")
    ok = len(cs) == 1 and cs[0].name.endswith("::add_points") and must_ret(fn, cs[0])
    ctx.ob("backend", "DynamicVamanaImpl::add_points/operation", ok, cs[0].where if cs else fn.name, "the points are not added exactly once")
    if not ok:
        return
    i = cs[0]
    _, a = arg_refs(i)
    v = lambda n: ("val", ("arg", n))
    view(ctx, fn, i, a[0], {"data": v(1), "size": v(2), "dims": v(3)}, T, "DynamicVamanaImpl::add_points")
    rest = [fn.E(x) for x in a[1:]]
    ids = rest == [("arg", 4), ("arg", 5)] or len(rest) == 1 and [word(fn, rest[0], o, i) for o in (0, 8)] == [{v(4)}, {v(5)}]
    ctx.ob("backend", "DynamicVamanaImpl::add_points/ids", ids, i.where, "the ids passed on are not the ones given")


def all_ids(ctx, F, T):
    fn = F["DV_pub_all_ids"]
    i = virtual(ctx, F, fn, "DV", "all_ids", "all_ids")
    if i is not None:
        _, a = arg_refs(i)
        ctx.ob("public", "DynamicVamana::all_ids/result", len(a) == 1 and fn.E(a[0]) == ("arg", 0), i.where, "the ids are not collected in the vector returned")
    fn = F["DV_impl_all_ids"]
    vec = ("arg", 1)
    cs = index_calls(fn, "DV")
    on = [i for i in cs if i.name.endswith("::on_ids")]
    ok = len(cs) == 1 and len(on) == 1 and must_ret(fn, on[0])
    ctx.ob("backend", "DynamicVamanaImpl::all_ids/operation", ok, cs[0].where if cs else fn.name, "not every id of the index is reported")
    if ok:
        clr = [i for i in fn.all() if i.is_call and i.name in ("std::vector::clear", "std::vector::resize", "std::vector::erase") and fn.E(i.args[0]) == vec]
        late = [i for i in clr if fn.path(on[0], lambda x: x is i)]
        good = any(i.name == "std::vector::clear" and fn.dominates(i, on[0]) for i in clr)
        ctx.ob("backend", "DynamicVamanaImpl::all_ids/starts empty", good and not late, on[0].where, "ids already in the vector are kept, or collected ids are dropped")
        a = fn.E(arg_refs(on[0])[1][0])
        ctx.ob("backend", "DynamicVamanaImpl::all_ids/into the result", word(fn, a, 0, on[0]) == {("val", vec)}, on[0].where, "the ids are not collected in the vector given")


# ---- use of the settings -------------------------------------------------------------------------------
def field(F, c, s):
    """Address in the index of a setting."""
    sw = set_words(F[f"{c}_set_{s}"])
    return {k: next(iter(v)) for k, v in sw.items()} if sw and all(len(v) == 1 for v in sw.values()) else {}


def build_fields(m):
    lay = m.layouts.get("svs::index::vamana::VamanaBuildParameters")
    return {n: o for o, s, n, t in lay["members"]} if lay else {}


ROLE = {"alpha": "alpha", "window_size": "construction_window_size", "max_candidate_pool_size": "max_candidates", "use_full_search_history": "full_search_history"}


def use(ctx, F, T):
    fn = F["DV_use_add"]
    A = {s: field(F, "DV", s).get(0) for s in VSETTINGS}
    bf = build_fields(fn.mod)
    ctx.need(all(f in bf for f in ROLE) and "prune_to" in bf and "graph_max_degree" in bf, "C25 VamanaBuildParameters")
    ctor = [i for i in fn.calls(r"VamanaBuilder::VamanaBuilder$") if i.b not in fn.cold]
    ctx.ob("use", "MutableVamanaIndex::add_points/builder", len(ctor) == 1, fn.name.split("(")[0], "new points are not linked by one builder")
    prune = None
    for i in ctor:
        par = [e for x in i.args[1:] if (e := fn.E(x))[0] == "alloca" and len(content(fn, e, bf["prune_to"], i)) == 1 and ("init",) not in content(fn, e, bf["prune_to"], i)]
        par = [e for e in par if not any(s[0] in ("clobber",) for s in content(fn, e, bf["alpha"], i))]
        if not par:
            ctx.ob("use", "MutableVamanaIndex::add_points/parameters", False, i.where, "the builder is not given the settings of the index")
            continue
        e = par[0]
        for f, s in ROLE.items():
            ctx.ob("use", f"MutableVamanaIndex::add_points/{f}", word(fn, e, bf[f], i) == {mem(fn, A[s])}, i.where, f"the builder's {f} is not the index's {s}")
        w = word(fn, e, bf["graph_max_degree"], i)
        ok = len(w) == 1 and (x := next(iter(w)))[0] == "val" and x[1][0] == "call" and x[1][1].endswith("::max_degree")
        ctx.ob("use", "MutableVamanaIndex::add_points/graph_max_degree", ok, i.where, "the builder's maximum degree is not that of the graph")
        w = word(fn, e, bf["prune_to"], i)
        prune = next(iter(w)) if len(w) == 1 else None
        ok = prune is not None and prune[0] == "mem" and split(prune[1])[0] == ("arg", 0) and prune[1] not in A.values()
        ctx.ob("use", "MutableVamanaIndex::add_points/prune_to", ok, i.where, "the builder's pruning target is not the one of the index")
    for i in fn.calls(r"VamanaBuilder::construct$"):
        es = [fn.E(x) for x in i.args]
        ctx.ob("use", "MutableVamanaIndex::add_points/construction alpha", len(es) > 1 and es[1] == ("ld", A["alpha"]), i.where, "points are linked with another alpha than the index's")
    fn = F["DV_use_consolidate"]
    cs = [i for i in fn.calls(r"vamana::consolidate$") if i.b not in fn.cold]
    ctx.ob("use", "MutableVamanaIndex::consolidate/call", len(cs) == 1, fn.name.split("(")[0], "the graph is not consolidated once")
    for i in cs:
        es = [fn.E(x) for x in i.args]
        want = [prune and ("ld", prune[1]), ("ld", A["max_candidates"]), ("ld", A["alpha"])]
        ctx.ob("use", "MutableVamanaIndex::consolidate/settings", es[3:6] == want, i.where, "pruning target, candidate limit or alpha of the consolidation is not the index's")
    # saving the static index
    fn = F["VA_use_save"]
    A = {s: field(F, "VA", s).get(0) for s in VSETTINGS}
    SPW = field(F, "VA", "search_parameters")
    lay = fn.mod.layouts.get("svs::index::vamana::VamanaIndexParameters")
    ctx.need(lay is not None, "C25 VamanaIndexParameters")
    at = {n: (o, t) for o, s, n, t in lay["members"]} if lay else {}
    bo, so = at.get("build_parameters", (0,))[0], at.get("search_parameters", (0,))[0]
    hit = [i for i in fn.calls(r"lib::save_to_disk$") if i.b not in fn.cold and fn.E(i.args[1]) == ("arg", 1)]
    ctx.ob("use", "VamanaIndex::save/parameters", len(hit) == 1 and must_ret(fn, hit[0]), fn.name.split("(")[0], "the parameters of the index are not saved")
    for i in hit:
        e = fn.E(i.args[0])
        for f, s in ROLE.items():
            ctx.ob("use", f"VamanaIndex::save/{f}", word(fn, e, bo + bf[f], i) == {mem(fn, A[s])}, i.where, f"the {f} saved is not the index's {s}")
        for o, a in SPW.items():
            w = {("mem", s[1]) if s[0] == "mem" else s for s in word(fn, e, so + o, i)}
            ctx.ob("use", f"VamanaIndex::save/search parameter word {o}", w == {("mem", a)}, i.where, "the search parameters saved are not the index's")
    fn = F["VA_use_scratch"]
    p = 2
    buffers(ctx, fn, p, T, "VamanaIndex::scratchspace", r"SearchBuffer::SearchBuffer$", True)


def buffers(ctx, fn, p, T, inst, pat, vis):
    cs = [i for i in fn.calls(pat) if i.b not in fn.cold and len(i.args) >= 3]
    ctx.ob("use", inst + "/buffer", len(cs) == 1, fn.name.split("(")[0], "not exactly one search buffer is made per worker")
    for i in cs:
        es = [boolish(fn.E(x)) for x in i.args[1:]]
        want = [("ld", mkaddr(("arg", p), T.off[k], ())) for k in ("sp_window", "sp_capacity")]
        ctx.ob("use", inst + "/window and capacity", es[:2] == want, i.where, "the search buffer is not sized by the parameters given")
        if vis:
            ctx.ob("use", inst + "/visited set", ("ld", mkaddr(("arg", p), T.off["sp_visited"], ())) in es[2:], i.where, "the visited set is not the one asked for")


def search(ctx, F, c, T):
    fn = F[f"{c}_use_search"]
    inst = INDEX[c].split("::")[-1] + "::search"
    buffers(ctx, fn, 3, T, inst, r"(SearchBuffer::SearchBuffer|MutableBuffer::MutableBuffer)$", c == "VA")
    lay = fn.mod.layouts.get("svs::index::vamana::VamanaSearchParameters")
    at = {n: o for o, s, n, t in lay["members"]} if lay else {}
    cl = [i for i in fn.calls(r"::greedy_search_closure$") if i.b not in fn.cold]
    ctx.ob("use", inst + "/search function", len(cl) == 1, fn.name.split("(")[0], "no search function is made for the parameters")
    for i in cl:
        es = [fn.E(x) for x in i.args[2:]]
        names = [n for n in at if "prefetch" in n]
        want = [("ld", mkaddr(("arg", 3), at[n], ())) for n in sorted(names, key=lambda n: at[n])]
        ok = es[:2] == want if len(es) >= 2 else len(es) == 1 and [word(fn, es[0], o, i) for o in (0, 8)] == [{mem(fn, w[1])} for w in want]
        ctx.ob("use", inst + "/prefetching", ok, i.where, "the prefetch settings are not the ones given")
