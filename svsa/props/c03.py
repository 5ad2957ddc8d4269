"""C03 - a deleted id is never returned. Decided over the composed instantiation of the mutable index: deletion marks the
slot of every id and drops its translation; a candidate's 'valid' flag is derived from exactly that slot state for exactly
that id; the clean-up that removes candidates without the flag lies on every path between the graph search and the copying
of results; exhaustive search inserts an element only where the slot state says it is live."""
from ..lib import *
from .. import ir, dyn
from fractions import Fraction

DOM = (0, 1, 2)   # Empty, Valid, Deleted


def check(ctx):
    ctx.rule("mark", "deleting ids marks the slot of every id as deleted, and removes every id from the translation")
    ctx.rule("flag", "a candidate built for a slot is flagged valid exactly when the slot is not deleted, keeping id and distance")
    ctx.rule("bind", "graph search of the mutable index builds its candidates from the index's own slot states")
    ctx.rule("clean", "unflagged candidates are removed after the graph search of a query and before its results are copied out")
    ctx.rule("filter", "the clean-up removes exactly the unflagged candidates")
    ctx.rule("candidates", "greedy search inserts only candidates built by the given builder for the vertex whose distance was computed")
    ctx.rule("predicate", "exhaustive search inserts an element only if the caller's predicate accepts that element")
    P = dyn.POLICY.replace("opaque ^svs::index::vamana::VamanaBuilder\n", "opaque ^svs::index::vamana::VamanaBuilder::(?!VamanaBuilder$)\n").replace("opaque ^svs::index::vamana::extensions\n", "")
    P = "opaque ^svs::index::vamana::greedy_search$\nopaque ^svs::index::vamana::MutableBuffer::\nopaque ^svs::index::flat::BulkInserter::\nopaque ^svs::distance::(DistanceL2::)?compute$\n" + P
    md, mb, mg = ctx.analyse_all([
        ("dynamic.cpp", P + dyn.entries("delete_entries", "is_deleted", "vb_valid", "vb_id", "vb_distance", "search", "exhaustive")),
        ("buffer.cpp", dyn.entries("m_cleanup", "m_valid")),
        ("greedy.cpp", "opaque ^svs::index::vamana::(MutableBuffer|SearchBuffer)::\nopaque ^svs::data::(SimpleData|DenseArray)::\nopaque ^svs::graphs::\nopaque ^svs::distance::(DistanceL2::)?compute$\n" + dyn.entries("greedy_dynamic")),
    ])
    R = dyn.Roles(md)
    ctx.need("status" in R.at and "translator" in R.at, "slot state and translation members")
    marking(ctx, md, R)
    flag(ctx, md, R)
    searching(ctx, md, R)
    cleanup(ctx, mb)
    greedy(ctx, mg)
    exhaustive(ctx, md, R)


def status_ref(fn, R, e, arg):
    """Index expression if address e is an element of the index's slot states."""
    b, o, v = split(e)
    if R.role(fn, b, arg) == "status" and len(v) == 1 and v[0][1] == 1 and b[0] in ("ld", "call"):
        return v[0][0]
    if b[0] == "call" and re.search(r"::(operator\[\]|at|getindex)$", b[1]) and not v:
        c = fn.ins[b[2]]
        if R.role(fn, callarg(fn, c, 0), arg) == "status":
            return callarg(fn, c, 1)
    return None


def marking(ctx, m, R):
    fn = ctx.one(m, "delete_entries")
    lo, hi = vec_range(fn, ("arg", 1))
    marks = []
    for s in fn.all("store"):
        i = status_ref(fn, R, fn.E(s.ops[1]), 0)
        if i is None:
            continue
        v = fn.E(s.ops[0])
        ctx.ob("mark", "delete_entries: state stored", v == ("c", dyn.DELETED), s.where, "a slot is given a state other than deleted")
        srcs = [i]
        r = root(fn, strip(i)) if i[0] == "ld" else None
        if r and r[0][0] == "alloca":
            srcs = [v for _, v in container_values(fn, r[0][1])]
        for src in srcs:
            src = strip(src)
            if src[0] == "call" and re.search(r"IDTranslator::get_internal$", src[1]):
                c = fn.ins[src[2]]
                el = strip(fn.E(c.args[1]))
                if el[0] == "ld":
                    cv = cover(fn, c, el[1])
                    if cv and cv.lo == lo and cv.hi == hi and cv.stride == 8 and every_iteration(fn, cv.loop, c):
                        marks.append((s, c))
    ok = False
    for s, c in marks:
        l = fn.loops_of(s)
        if s.b == c.b or (l and every_iteration(fn, l[0], s)):
            ok = ok or all(fn.dominates_b(l[0].head if l else s.b, r.b) for r in fn.rets())
    ctx.ob("mark", "delete_entries: every id's slot", ok, fn.name, "on some path the slot of a deleted id keeps its state")
    dele = [c for c in fn.calls(r"IDTranslator::delete_external$") if R.role(fn, fn.E(c.args[0]), 0) == "translator" and fn.E(c.args[1]) == ("arg", 1)]
    ctx.ob("mark", "delete_entries: translation", bool(dele) and all(any(fn.dominates(d, r) for d in dele) for r in fn.rets()), fn.name, "a deleted id can stay in the translation")
    # slots are looked up before the ids are dropped from the translation
    for s, c in marks:
        ctx.ob("mark", "delete_entries: lookup before removal", not any(fn.path(d, c) for d in dele), c.where, "the slot is looked up after the id has been removed from the translation")
    fn = ctx.one(m, "is_deleted")
    e = ret_atoms(fn)
    got = None
    if e is not None:
        got = truth_set(fn, e, lambda x: x[0] == "ld" and status_ref(fn, R, x[1], 0) == ("arg", 1), DOM)
    ctx.ob("mark", "is_deleted", got == {dyn.EMPTY, dyn.DELETED}, fn.name, f"is_deleted is true for slot states {sorted(got) if got is not None else 'not derived from the slot state'}; expected exactly empty and deleted")


def flag(ctx, m, R):
    fn = ctx.one(m, "vb_valid")
    e = ret_atoms(fn)
    got = None
    if e is not None:
        def var(x):
            if x[0] != "ld":
                return False
            b, o, v = split(x[1])
            return b == ("ld", ("arg", 0)) and o == 0 and v == ((("arg", 1), 1),)
        got = truth_set(fn, e, var, DOM)
    ctx.ob("flag", "valid flag", got is not None and dyn.DELETED not in got and dyn.VALID in got, fn.name, f"a candidate is flagged valid for slot states {sorted(got) if got is not None else '(not derived from the state of its own slot)'}")
    for n, k in (("vb_id", 1), ("vb_distance", 2)):
        fn = ctx.one(m, n)
        rs = fn.rets()
        ctx.ob("flag", n[3:], all(fn.E(r.ops[0]) == ("arg", k) for r in rs), fn.name, f"the candidate's {n[3:]} is not the one it was built from")


def buffer_objs(fn, call):
    """Locals passed to a call."""
    return [split(fn.E(a))[0] for a in call.args if fn_is_ptr(fn, a) and split(fn.E(a))[0][0] == "alloca"]


def searching(ctx, m, R):
    fn = ctx.one(m, "search")
    gs = list(fn.calls(r"vamana::greedy_search$"))
    ctx.ob("bind", "search: graph search", bool(gs), fn.name, "no graph search found in the search of the mutable index")
    outs = [s for s in fn.all("store") if fn_out(fn, s)]
    bufs = set()
    for c in gs:
        names = [split(fn.E(a))[0] for a in c.args if fn_is_ptr(fn, a)]
        bound = False
        for b in names:
            if b[0] == "alloca":
                for s, so in fn.stores_raw(b[1]):
                    v = fn.E(s.ops[0])
                    if R.role(fn, v, 0) == "status":
                        bound = True
        ctx.ob("bind", "search: slot states", bound, c.where, "the candidate builder of the graph search does not refer to the index's slot states")
        for i in fn.all():
            if i.is_call and re.search(r"MutableBuffer::MutableBuffer$", i.name):
                b = split(fn.E(i.args[0]))[0]
                if b in names:
                    bufs.add(b)
    ctx.ob("bind", "search: buffer", len(bufs) >= 1, fn.name, "the graph search does not fill a buffer that can drop candidates")
    for s in outs:
        v = strip(fn.E(s.ops[0]))
        frm = None
        if v[0] == "ld":
            r = root(fn, v)
            frm = r[0] if r else None
        if v[0] == "call" and v[1].endswith("get_external"):
            continue
        ctx.ob("clean", "search: source of results", frm in bufs, s.where, "a result entry is not taken from the cleaned candidate buffer")
        for c in gs:
            cl = [x for x in fn.calls(r"MutableBuffer::cleanup$") if split(fn.E(x.args[0]))[0] == frm]
            bad = fn.path(c, s, avoid=cl)
            ctx.ob("clean", "search: cleaned between search and copy", bad is None, s.where, "results can be copied out of the buffer without removing deleted candidates first")


def fn_out(fn, s):
    """Store into the result view (argument 1 of the search entry)."""
    r = root(fn, fn.E(s.ops[1]))
    return r is not None and r[0] == ("arg", 1)


def cleanup(ctx, m):
    fv = ctx.one(m, "m_valid")
    e = ret_atoms(fv)
    bit = [bit_test(a) for a in ir.implied(e, True, fv)] if e is not None else []
    bit = [(split(b[0]), b[1], b[2]) for b in bit if b]
    ctx.need(bit and bit[0][0][0] == ("arg", 0) and bit[0][2], "the valid flag of a candidate")
    off, mask = bit[0][0][1], bit[0][1]
    fn = ctx.one(m, "m_cleanup")
    res = [c for c in fn.calls(r"vector::(resize|erase)$")]
    ctx.ob("filter", "cleanup: shrinks", len(res) >= 1, fn.name, "the clean-up never shrinks the buffer")
    for c in res:
        args = c.args[(1 if c.r.get("sret") else 0):]
        lo, hi = vec_range(fn, fn.E(args[0]))
        ok = False
        for l in fn.loops:
            for f in filter_loop(fn, l):
                if not (f.lo == lo and f.hi == hi):
                    continue
                if c.name.endswith("resize"):
                    good = lscale(lin(fn.E(args[1])), f.stride) == ladd(f.out, lo, -1)
                else:
                    good = len(args) == 3 and lin(val_or(fn, args[1], c)) == f.out and lin(val_or(fn, args[2], c)) == hi

                def isbit(a, want):
                    b = bit_test(a)
                    return b is not None and b[1] == mask and b[2] is want and lin(b[0]) == ladd(f.elem, {1: Fraction(off)})
                if good and f.keep and f.drop and all(any(isbit(a, True) for a in fs) for fs in f.keep) and all(any(isbit(a, False) for a in fs) for fs in f.drop):
                    ok = True
        ctx.ob("filter", "cleanup: keeps exactly the flagged", ok, c.where, "the clean-up does not keep exactly the candidates flagged valid")


def val_or(fn, ref, at):
    """Value of an iterator argument passed by value (in a register or as a local object)."""
    e = fn.E(ref)
    return val_at(fn, ref, at) if split(e)[0][0] == "alloca" else e


class Filter:
    pass


def filter_loop(fn, loop):
    """Loops that walk a range and move some of its elements down over it."""
    out = []
    bs = sync_bounds(fn, loop, loop_bounds(fn, loop))
    ph = [i for i in fn.blocks[loop.head] if i.op == "phi"]
    for mv in fn.all():
        if mv.b not in loop.body or not mv.is_call or not mv.name.startswith("llvm.mem") or len(mv.args) < 3:
            continue
        D, S, n = lin(fn.E(mv.args[0])), lin(fn.E(mv.args[1])), fn.E(mv.args[2])
        for p, ini, bound, st, tb in bs:
            me = ("phi", p.id)
            if me not in S or n[0] != "c":
                continue
            for q in ph:
                o = ("phi", q.id)
                if q is p or o not in D or me in D or o in S:
                    continue
                step, init = {}, None
                for v, b in q.r["inc"]:
                    if b in loop.body:
                        collect_steps(fn, fn.E(v), b, loop.head, o, step, 0)
                    else:
                        init = lin(fn.E(v))
                f = Filter()
                f.elem, f.lo, f.hi, f.stride = S, subst(S, me, ini), subst(S, me, bound), S[me] * st
                f.out = D
                if f.stride != n[1] or init is None or subst(D, o, init) != f.lo:
                    continue
                inc = [k for k in step if k not in (0, None)]
                if None in step or len(inc) != 1 or D[o] * inc[0] != f.stride:
                    continue
                f.keep, f.drop = step[inc[0]], step.get(0, [])
                # nothing is kept without being moved down
                f.mv = mv
                out.append(f)
    return out


def collect_steps(fn, e, b, to, base, step, d):
    """Possible increments of a phi with the facts known on the edge that brings each."""
    if d > 8:
        step.setdefault(None, []).append([])
        return
    if e[0] == "phi" and e != base:
        i = fn.ins[e[1]]
        for v, pb in i.r["inc"]:
            collect_steps(fn, fn.E(v), pb, i.b, base, step, d + 1)
        return
    if e[0] == "sel":
        for k, br in ((True, e[2]), (False, e[3])):
            df = ladd(lin(br), lin(base), -1)
            c = df.get(1, Fraction(0)) if set(df) <= {1} else None
            step.setdefault(int(c) if c is not None else None, []).append(ir.implied(e[1], k, fn) + ir._blockfacts(fn, b, to, 0))
        return
    df = ladd(lin(e), lin(base), -1)
    c = df.get(1, Fraction(0)) if set(df) <= {1} else None
    fs = list(fn.edge_atoms(b, to)) if len(fn.succ[b]) > 1 else []
    step.setdefault(int(c) if c is not None else None, []).append(fs + ir._blockfacts(fn, b, to, 0))


def greedy(ctx, m):
    fn = ctx.one(m, "greedy_dynamic")
    n = 0
    for c in fn.calls(r"MutableBuffer::(insert|push_back|insert_inner)$"):
        n += 1
        i, d, fl = candidate(fn, c)
        dc = [x for x in walk(d)] if d is not None else []
        calls = [fn.ins[x[2]] for x in dc if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("compute")]
        got = set()
        for k in calls:
            for a in k.args:
                for y in walk(fn.E(a)):
                    if isinstance(y, tuple) and y and y[0] == "call" and y[1].endswith("get_datum"):
                        got.add(strip(fn.E(fn.ins[y[2]].args[1])))
        ctx.ob("candidates", f"greedy_search: {c.name.split('::')[-1]} distance", got == {strip(i)} if i is not None else False, c.where, "a candidate carries the distance of another vertex")
        ctx.ob("candidates", f"greedy_search: {c.name.split('::')[-1]} flag", fl is not None and flag_of(fn, fl, i), c.where, "a candidate's valid flag is not derived from the slot of that very vertex")
    ctx.ob("candidates", "greedy_search: insertions", n >= 2, fn.name, "greedy search does not insert entry points and neighbours")


def candidate(fn, c):
    """(id, distance, flags) of a candidate passed (by value, coerced or in memory) to a buffer call."""
    args = c.args[(1 if c.r.get("sret") else 0):][1:]
    if len(args) == 1 and fn_is_ptr(fn, args[0]):
        b, o, v = split(fn.E(args[0]))
        if b[0] != "alloca":
            return None, None, None
        val = {}
        for off in sorted({so for s, so in fn.stores_raw(b[1]) if so is not None}):
            st = fn.reaching(b[1], off, c)
            if st:
                es = {fn.E(s.ops[0]) for s in st}
                if len(es) == 1:
                    val[off - o] = (es.pop(), st[0].ops[0])
        return split_candidate(fn, val)
    return split_candidate(fn, {8 * k: (fn.E(a), a) for k, a in enumerate(args)})


def split_candidate(fn, val):
    """id at byte 4, distance at byte 8, flags at byte 0 of the candidate (Neighbor<uint32_t, flags>)."""
    at = {}
    for off, (e, ref) in val.items():
        for sh, part in parts(e, 0):
            at.setdefault(off + sh // 8, []).append(part)
    one = lambda k: strip(at[k][0]) if len(at.get(k, [])) == 1 else None
    return one(4), one(8), one(0)


def parts(e, sh):
    """Disjoint fields of an integer assembled by shifts and ors: (bit offset, expression); padding bits are dropped."""
    e = strip(e)
    if e[0] == "bin" and e[1] == "or":
        return parts(e[2], sh) + parts(e[3], sh)
    if e[0] == "bin" and e[1].startswith("shl") and e[3][0] == "c" and e[3][1] >= 8:
        return parts(e[2], sh + e[3][1])
    if e[0] == "bin" and e[1] == "and" and e[3][0] == "c" and e[3][1] & 0xff == 0:
        return []
    if e[0] == "undef":
        return []
    return [(sh, e)]


def flag_of(fn, fl, i):
    """The valid bit of the flags depends on the slot state of vertex i, and is clear when that is 'deleted'."""
    def var(x):
        if x[0] != "ld":
            return False
        b, o, v = split(x[1])
        return len(v) == 1 and v[0][1] == 1 and o == 0 and same(v[0][0], i) and s_is_status(fn, b)
    t = truth_set(fn, ("bin", "and", fl, ("c", 2)), var, DOM)
    return t is not None and dyn.DELETED not in t and dyn.VALID in t


def s_is_status(fn, b):
    r = root(fn, b)
    return r is not None and r[0][0] == "arg"


def exhaustive(ctx, m, R):
    fn = ctx.one(m, "exhaustive")
    ins = list(fn.calls(r"BulkInserter::insert$"))
    ctx.ob("predicate", "exhaustive_search: insertions", bool(ins), fn.name, "exhaustive search inserts nothing")
    for c in ins:
        ids = [strip(fn.E(a)) for a in c.args]
        ok = False
        for x in ids:
            if fn.guarded(c, lambda a: live_atom(fn, R, a, x)):
                ok = True
        ctx.ob("predicate", "exhaustive_search: live elements only", ok, c.where, "an element is inserted although its slot may be empty or deleted")


def live_atom(fn, R, a, x):
    t = value_test(a, DOM)
    if t is None or t[1] != frozenset({dyn.VALID}):
        return False
    e = t[0]
    if e[0] != "ld":
        return False
    i = status_ref(fn, R, e[1], 0)
    return i is not None and same(i, x)
