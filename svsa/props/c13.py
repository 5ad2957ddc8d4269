"""C13: pruning returns a bounded subset of its candidates, never the node itself.

Analysed: heuristic_prune_neighbors for each pruning rule (iterative, progressive, legacy) x distance direction (smaller and
larger is better) x result element (id, neighbour). For every push into the result the obligations are: the value comes from
the candidate list at a position inside it, that very candidate was compared with the vertex being pruned, the size of the
result was compared with the limit after the previous push, the position cannot be chosen again (positions are visited once,
or chosen positions are marked, tested and never unmarked), and the result was emptied first."""
import re
from ..lib import *
from .. import ir, dyn

POLICY = r"""opaque ^svs::data::(SimpleData|DenseArray|Blocked)
opaque ^svs::distance::(compute|maybe_fix_argument)$
"""
MAXN, NODE, POOL, RESULT = ("arg", 0), ("arg", 4), ("arg", 5), ("arg", 6)
WRITES = re.compile(r"^std::vector::(push_back|emplace_back|insert|resize|assign|operator=|swap|pop_back|erase|clear|reserve)$")


def const(e):
    if e[0] == "c":
        return e[1]
    if e[0] == "cf":
        try:
            return float(e[1])
        except ValueError:
            return None
    return None


def ev(e, var, val):
    """Value of e when the sub-expression var has the constant value val (None: unknown)."""
    e = strip(e)
    if e == var:
        return val
    k = const(e)
    if k is not None:
        return k
    if e[0] == "cmp":
        a, b = ev(e[2], var, val), ev(e[3], var, val)
        return cmpv(e[1], a, b)
    if e[0] == "sel":
        c = ev(e[1], var, val)
        if c is None:
            x, y = ev(e[2], var, val), ev(e[3], var, val)
            return x if x is not None and x == y else None
        return ev(e[2] if c else e[3], var, val)
    if e[0] == "bin":
        a, b = ev(e[2], var, val), ev(e[3], var, val)
        if e[1] == "and":
            if a == 0 or b == 0:
                return 0
            return a & b if isinstance(a, int) and isinstance(b, int) else None
        if e[1] == "or":
            return a | b if isinstance(a, int) and isinstance(b, int) else (1 if 1 in (a, b) and all(x in (0, 1, None) for x in (a, b)) else None)
        if e[1] == "xor":
            return a ^ b if isinstance(a, int) and isinstance(b, int) else None
    return None


BIG = 3e38


def cmpv(p, a, b):
    if a is None and b is None:
        return None
    if a is None or b is None:
        # an extreme constant against an ordinary value
        k, sw = (b, False) if a is None else (a, True)
        if not isinstance(k, float) or abs(k) < BIG:
            return None
        less = (k > 0) != sw      # unknown < k  (k on the right)
        q = p[-2:]
        if q in ("lt", "le"):
            return 1 if less else 0
        if q in ("gt", "ge"):
            return 0 if less else 1
        if q == "eq":
            return 0
        if q == "ne":
            return 1
        return None
    q = p[-2:]
    try:
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[q])
    except Exception:
        return None


def atom_val(a, var, val):
    if a[0] == "cmp":
        return cmpv(a[1], ev(a[2], var, val), ev(a[3], var, val))
    if a[0] == "true":
        return ev(a[1], var, val)
    if a[0] == "false":
        r = ev(a[1], var, val)
        return None if r is None else int(not r)
    return None


def check(ctx):
    ctx.rule("member", "what is put into the result is the candidate at a position inside the candidate list")
    ctx.rule("not-self", "the candidate put into the result was compared with the vertex being pruned and differs")
    ctx.rule("limit", "the result is below the requested size, as measured after the previous insertion")
    ctx.rule("distinct", "a candidate position cannot be put into the result twice")
    ctx.rule("fresh", "the result is emptied before anything else happens to it, on every path, including those that return early")
    ctx.rule("produces", "the result is filled at all")
    names = [f"{s}_{t}" for s in ("Iterative", "Progressive", "Legacy") for t in ("l2", "ip", "nbr")]
    m = ctx.analyse("prune.cpp", POLICY + dyn.entries(*names))
    for n in names:
        prune(ctx, ctx.one(m, n), n, 8 if n.endswith("nbr") else 4)
    callers(ctx)


def pool_pos(fn, a):
    """(index expression or pointer, field offset) when address a lies in the candidate list."""
    l = lin(a)
    base = ("ld", POOL)
    if base in l and l[base] == 1:
        off = int(l.get(1, 0))
        vs = {k: c for k, c in l.items() if k not in (base, 1)}
        if any(c % 8 for c in vs.values()):
            return None
        return tuple(sorted(((k, c / 8) for k, c in vs.items()), key=repr)), off % 8
    # pointer induction over the list
    b, o, v = split(a)
    if b[0] == "phi" and not v:
        ini = [fn.E(x) for x, blk in fn.ins[b[1]].r["inc"]]
        ini = [x for x in ini if b not in set(walk(x))]
        if len(ini) == 1 and lin(ini[0]) == {base: 1}:
            return ((b, Fraction(1)),), o
    return None


def prune(ctx, fn, n, esz):
    writes = []
    for i in fn.all():
        if i.is_call and WRITES.match(i.name) and i.b not in fn.cold and root(fn, fn.E(i.args[0])) == (RESULT, 0):
            writes.append(i)
        elif i.is_call and not i.name.startswith("llvm.") and i.b not in fn.cold and not WRITES.match(i.name):
            for a in writable_args(i):
                if fn_is_ptr(fn, a) and root(fn, fn.E(a)) == (RESULT, 0) and not re.search("::(begin|end|size|empty|back|front|data|cbegin|cend|capacity)$", i.name):
                    ctx.ob("fresh", f"{n}: {i.name}", False, i.where, "the result is modified by an operation that is not recognised")
        elif i.op == "store" and i.b not in fn.cold:
            r = root(fn, fn.E(i.ops[1]))
            if r is not None and r[0] == RESULT:
                ctx.ob("member", f"{n}: direct write", False, i.where, "the result is overwritten directly")
    op = lambda i: i.name.split("::")[-1]
    clears = [i for i in writes if op(i) == "clear" or (op(i) == "resize" and fn.E(i.args[1]) == ("c", 0))]
    pushes = [i for i in writes if op(i) in ("push_back", "emplace_back")]
    for i in writes:
        if i not in clears and i not in pushes and op(i) != "reserve":
            ctx.ob("fresh", f"{n}: {op(i)}", False, i.where, "the result is modified other than by emptying it or appending to it")
    ctx.ob("produces", n, bool(pushes), fn.name, "nothing is ever put into the result")
    cb = {i.b for i in clears}
    for r in fn.rets():
        ctx.ob("fresh", f"{n}: on return", must_pass(fn, r, cb), r.where, "a path returns with what an earlier call left in the result")
    for p in pushes:
        ctx.ob("fresh", f"{n}: before insertion", any(fn.dominates(c, p) for c in clears), p.where, "the result is not emptied before the first insertion")
        ctx.ob("fresh", f"{n}: not afterwards", all(fn.path(p, c) is None for c in clears), p.where, "chosen candidates can be dropped again")
        # the value
        poss = pushed(fn, p, esz)
        if poss is None:
            ctx.ob("member", n, False, p.where, "the value is not a candidate of the list")
            continue
        pos = poss
        idx = dict(pos)
        inb = lambda a: a[0] == "cmp" and below_size(fn, a, idx)
        single = len(idx) == 1 and list(idx.values()) == [1] and list(idx)[0][0] == "phi"
        phi = fn.ins[list(idx)[0][1]] if single else None
        isptr = single and phi.ty == "ptr"
        ok = fn.guarded(p, inb)
        if isptr:
            for loop in fn.loops_of(p):
                for q, ini, bound, st, tb in loop_bounds(fn, loop, partial=True):
                    if q is phi and st == 8 and ladd(bound, {("ld", POOL): 1}, -1) == {("ld", mkaddr(POOL, 8, ())): 8}:
                        ok = True
        ctx.ob("member", n, ok, p.where, "the position of the candidate is not known to be inside the list")
        isid = lambda x: strip(x)[0] == "ld" and pool_pos(fn, strip(x)[1]) == (pos, 0)
        ne = lambda a: a[0] == "cmp" and a[1] in ("ne", "ult", "ugt") and ((isid(a[2]) and strip(a[3]) == NODE) or (isid(a[3]) and strip(a[2]) == NODE))
        if phi is not None:
            # fresh since the position last changed
            ctx.ob("not-self", n, fn.guarded(p, ne) and fn.path(phi, p, cut=fn.cut_for(ne)) is None, p.where, "the vertex itself can be put into the result")
        else:
            ctx.ob("not-self", n, fn.guarded(p, ne), p.where, "the vertex itself can be put into the result")
        # the limit
        lim = limit_edges(fn, pushes, esz)
        okl = p.b not in fn.reachable(fn.entry, lim) and all(fn.path(q, p, cut=lim) is None for q in pushes)
        ctx.ob("limit", n, okl, p.where, "an insertion is not preceded by a comparison of the current size with the requested number")
        ctx.ob("distinct", n, phi is not None and (single_pass(fn, p, phi, isptr, pushes) or marked(fn, p, pos, phi, pushes)), p.where,
               "the position can be chosen again: it is neither visited only once nor marked in a way that is tested and kept")


def pushed(fn, p, esz):
    """position (tuple form) of the pool element whose id (and whole value) is appended"""
    a = p.args[1]
    e = fn.E(a)
    if split(e)[0][0] == "alloca":
        v = val_at(fn, a, p)
        cands = [v] if v is not None else []
    elif pool_pos(fn, e) is not None:
        x = pool_pos(fn, e)
        return x[0] if x[1] == 0 else None
    else:
        cands = [e]
    for v in cands:
        v = strip(v)
        if v[0] == "ld":
            x = pool_pos(fn, v[1])
            if x is not None and x[1] == 0:
                if esz == 8:
                    # the whole neighbour: copied in one piece or field by field
                    st = [s for s in fn.all("store") if split(fn.E(s.ops[1]))[0] == split(e)[0]]
                    for s in st:
                        y = strip(fn.E(s.ops[0]))
                        if y[0] != "ld" or pool_pos(fn, y[1]) is None or pool_pos(fn, y[1]) != (x[0], split(fn.E(s.ops[1]))[1] - split(e)[1]):
                            return None
                return x[0]
    # memcpy of the element into the temporary
    for c in fn.calls(r"^llvm\.mem(cpy|move)"):
        if split(fn.E(c.args[0]))[0] == split(e)[0] and fn.dominates(c, p):
            x = pool_pos(fn, fn.E(c.args[1]))
            if x is not None and x[1] == 0:
                return x[0]
    return None


def below_size(fn, a, idx):
    """atom idx < pool.size()"""
    size = ("ld", mkaddr(POOL, 8, ()))
    for x, y, pr in ((a[2], a[3], a[1]), (a[3], a[2], ir.CMPSWAP.get(a[1], a[1]))):
        d = ladd(lin(x), lin(y), -1)
        want = ladd({k: Fraction(c) for k, c in idx.items()}, {size: 1}, -1)
        k = ladd(d, want, -1)
        if set(k) <= {1}:
            k = k.get(1, 0)
            if pr in ("ult", "slt") and k >= 0 or pr in ("ule", "sle") and k >= 1 or pr == "ne" and k == 0 and len(idx) == 1:
                return True
    return False


def limit_edges(fn, pushes, esz):
    """edges over which result.size() < max holds, the size being read after any earlier insertion"""
    B, E_ = ("ld", RESULT), ("ld", mkaddr(RESULT, 8, ()))
    out = set()
    for b, s in fn.edges():
        for a in fn.edge_atoms(b, s):
            if a[0] != "cmp":
                continue
            ok = False
            for x, y, pr in ((a[2], a[3], a[1]), (a[3], a[2], ir.CMPSWAP.get(a[1], a[1]))):
                d = ladd(lin(x), lin(y), -1)
                want = {E_: Fraction(1, esz), B: Fraction(-1, esz), MAXN: Fraction(-1)}
                k = ladd(d, want, -1)
                if set(k) <= {1} and ((pr in ("ult", "slt") and k.get(1, 0) >= 0) or (pr in ("ule", "sle") and k.get(1, 0) >= 1) or (pr == "ne" and not k)):
                    ok = True
            if not ok:
                continue
            t = fn.term(b)
            # the loads of the result's extent: none may be separated from the branch by an insertion
            loads = [i for i in fn.all("load") if fn.E(i.ops[0]) in (RESULT, mkaddr(RESULT, 8, ()))]
            used = uses(fn, t)
            ls = [i for i in loads if i.id in used]
            if ls and all(fn.path(p, t, avoid=[i]) is None for p in pushes for i in ls):
                out.add((b, s))
    return out


def uses(fn, t):
    """ids of the instructions the branch condition is computed from"""
    seen, work = set(), [t]
    while work:
        i = work.pop()
        refs = []

        def w(o):
            if isinstance(o, dict):
                if "v" in o and isinstance(o["v"], int):
                    refs.append(o["v"])
                for x in o.values():
                    w(x)
            elif isinstance(o, list):
                for x in o:
                    w(x)
        w({k: v for k, v in i.r.items() if k in ("ops", "inc", "args", "base", "var")})
        for r in refs:
            if r not in seen:
                seen.add(r)
                j = fn.ins.get(r) if isinstance(fn.ins, dict) else fn.ins[r]
                if j is not None:
                    work.append(j)
    return seen


def single_pass(fn, p, phi, isptr, pushes):
    loops = fn.loops_of(p)
    if len(loops) != 1 or len(pushes) != 1:
        return False
    L = loops[0]
    if phi.b != L.head:
        return False
    me = ("phi", phi.id)
    want = Fraction(8 if isptr else 1)
    for v, b in phi.r["inc"]:
        if b in L.body:
            if lin(fn.E(v)) != {me: 1, 1: want}:
                return False
    return True


def marked(fn, p, pos, phi, pushes):
    if phi.ty == "ptr":
        return False
    idx = dict(pos)
    # the element stores of a local array at the chosen position
    for st in fn.all("store"):
        if st.b in fn.cold:
            continue
        arr = element(fn, fn.E(st.ops[1]))
        if arr is None or arr[1] != idx:
            continue
        added = const(strip(fn.E(st.ops[0])))
        if added is None or not paired(fn, st, p):
            continue
        A, w = arr[0], arr[2]
        var = ("ld", fn.E(st.ops[1]))
        # tested before insertion, since the position was taken
        notadded = lambda a: atom_val(a, var, added) == 0
        cut = fn.cut_for(notadded)
        if p.b in fn.reachable(fn.entry, cut) or fn.path(phi, p, cut=cut) is not None:
            continue
        good = True
        for s2 in fn.all("store"):
            if s2 is st or s2.b in fn.cold:
                continue
            a2 = fn.E(s2.ops[1])
            r = root(fn, a2)
            if r is None or r[0] != A or element(fn, a2) is None and not ptr_elem(fn, a2, A):
                if r is not None and r[0] == A:
                    good = False
                continue
            v2 = ("ld", a2)
            na = lambda a: atom_val(a, v2, added) == 0
            if fn.guarded(s2, na) and fresh_guard(fn, s2, na, a2):
                continue
            if ev(fn.E(s2.ops[0]), v2, added) == added:
                continue
            good = False
        for c in fn.all():
            if c.is_call and c.b not in fn.cold and WRITES.match(c.name) and root(fn, fn.E(c.args[0])) is not None and root(fn, fn.E(c.args[0]))[0] == A:
                if fn.path(st, c) is not None:
                    good = False
            if c.is_call and re.search(r"^std::(fill|fill_n|transform|for_each|replace|memset)|llvm\.memset", c.name) and any(fn_is_ptr(fn, a) and root(fn, fn.E(a)) is not None and root(fn, fn.E(a))[0] == A for a in c.args):
                if fn.path(st, c) is not None:
                    good = False
        if good:
            return True
    return False


def fresh_guard(fn, s, pred, addr):
    """the guard holds for the element's current position (re-tested after the index moved)"""
    phis = [x for x in walk(addr) if isinstance(x, tuple) and x and x[0] == "phi"]
    cut = fn.cut_for(pred)
    return all(fn.path(fn.ins[x[1]], s, cut=cut) is None for x in phis)


def element(fn, a):
    """(array local, index form, element size) for array[index]"""
    b, o, v = split(a)
    if b[0] == "ld" and split(b[1])[0][0] == "alloca" and len(v) == 1 and o == 0:
        return split(b[1])[0], dict(lin(v[0][0])), v[0][1]
    if b[0] == "alloca" and len(v) == 1:
        return b, dict(lin(v[0][0])), v[0][1]
    return None


def ptr_elem(fn, a, A):
    b, o, v = split(a)
    return b[0] == "phi"


def callers(ctx):
    pass
