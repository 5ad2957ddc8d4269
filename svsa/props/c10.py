"""C10: work partitions cover every index exactly once.

Analysed: threads::balance, the static and dynamic partition thunks reached through threads::run (over index ranges and over
vectors), every partition constructor, UnitRange, IteratorPair and IndexIterator. The static partition is decided by a
polynomial value analysis: start and stop of worker t are evaluated over the cases (division exact or not, t below the
remainder or not) as polynomials and the tiling identities start(0)=0, start(t+1)=stop(t), stop(last)=n are checked in every
case, so they hold for all sizes and thread counts. The dynamic partition is decided by identities between the batch bounds and
the value returned by the atomic counter."""
import re
from fractions import Fraction
from ..lib import *
from .. import ir, dyn

POLICY = r"""opaque ^(Body|Plain|VBody)::
opaque ^Pool::(size|worker)
opaque ^svs::lib::narrow$
"""


# ---- polynomials: {sorted tuple of symbols: coefficient} -----------------------------------------------------
def P(k):
    return {(): Fraction(k)} if k else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c * k
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            z = tuple(sorted(m + n))
            r[z] = r.get(z, 0) + c * d
            if r[z] == 0:
                del r[z]
    return r


def S(x):
    return {(x,): Fraction(1)}


def psub(p, sym, val):
    """substitute a polynomial for a symbol"""
    r = {}
    for m, c in p.items():
        t = P(c)
        for x in m:
            t = pmul(t, val if x == sym else S(x))
        r = padd(r, t)
    return r


class Undecided(Exception):
    pass


class Env:
    """n elements, T workers, worker t; n = T*D + r, with r = 0 or 1 <= r < T; t below r or not."""

    def __init__(self, name, n, T, D, r, t, phase):
        self.name, self.n, self.T, self.D, self.r, self.t, self.phase = name, n, T, D, r, t, phase

    def sign(self, d):
        """sign of polynomial d: 1 (>0), 0, -1, or None; '>=0' as 0.5"""
        if not d:
            return 0
        # lower bounds of the symbols: T >= 2, r >= 1, D >= 0, t >= 0, T - r >= 1, T - t >= 1, and the phase
        weak = None
        for k in (1, -1):
            for cand in self.shift():
                e = dict(d) if k == 1 else {m: -c for m, c in d.items()}
                for sym, val in cand:
                    e = psub(e, sym, val)
                if all(c > 0 for c in e.values()) and e:
                    if e.get((), 0) > 0:
                        return k
                    weak = k * 0.5
        return weak

    def shift(self):
        """substitutions x := lower bound + nonnegative remainder under which nonnegative coefficients prove d >= 0"""
        u, v, w = S("u"), S("v"), S("w")
        out = []
        if self.phase == "single":      # r = 0: t = u, T = t + 1 + v (T >= 2)
            out.append([("T", padd(padd(S("t"), P(1)), v))])
            out.append([("T", padd(P(2), v))])
        elif self.phase == "in":        # t <= r - 1 <= T - 2
            out.append([("T", padd(padd(S("r"), P(1)), u)), ("r", padd(padd(S("t"), P(1)), v))])
        elif self.phase == "out":       # r <= t <= T - 1, r >= 1
            out.append([("T", padd(padd(S("t"), P(1)), u)), ("t", padd(S("r"), v)), ("r", padd(P(1), w))])
        out.append([])
        return out


def evaluate(fn, env, leaf, out_stores):
    """Values of the wanted outputs when the function runs in abstract environment env."""
    came = {}
    memo = {}

    def cmp(p, a, b):
        d = padd(a, b, -1)
        s = env.sign(d)
        if s is None:
            raise Undecided()
        q = p[-2:]
        lo, hi = {1: (1, 9), 0: (0, 0), -1: (-9, -1), 0.5: (0, 9), -0.5: (-9, 0)}[s]
        tests = {"lt": lambda v: v < 0, "le": lambda v: v <= 0, "gt": lambda v: v > 0, "ge": lambda v: v >= 0, "eq": lambda v: v == 0, "ne": lambda v: v != 0}
        r = {tests[q](v) for v in (lo, hi)}
        if len(r) == 1:
            return r.pop()
        raise Undecided()

    def val(e):
        e = strip(e)
        if e in memo:
            return memo[e]
        r = _val(e)
        memo[e] = r
        return r

    def _val(e):
        l = leaf(e)
        if l is not None:
            return l
        k = e[0]
        if k == "c":
            return P(e[1])
        if k == "phi":
            i = fn.ins[e[1]]
            if i.b not in came:
                raise Undecided()
            for v, b in i.r["inc"]:
                if b == came[i.b]:
                    return val(fn.E(v))
            raise Undecided()
        if k == "bin":
            if e[1] in ("add", "sub", "mul"):
                a, b = val(e[2]), val(e[3])
                return padd(a, b) if e[1] == "add" else padd(a, b, -1) if e[1] == "sub" else pmul(a, b)
            if e[1] in ("udiv", "urem", "udivx", "sdiv", "srem"):
                a, b = val(e[2]), val(e[3])
                return divide(a, b, e[1].startswith("udiv") or e[1].startswith("sdiv"))
            if e[1] == "and" and e[3] == ("c", 1):
                return val(e[2])
            raise Undecided()
        if k == "cmp":
            return P(1 if cmp(e[1], val(e[2]), val(e[3])) else 0)
        if k == "sel":
            return val(e[2] if truth(e[1]) else e[3])
        if k in ("umin", "umax", "smin", "smax"):
            a, b = val(e[1]), val(e[2])
            s = env.sign(padd(a, b, -1))
            if s is None:
                # a clamp to the number of elements: redundant when the unclamped bounds tile the range (checked)
                if a == env.n:
                    return b
                if b == env.n:
                    return a
                raise Undecided()
            less = s <= 0
            return (a if less else b) if "min" in k else (b if less else a)
        if k == "call" and re.search("narrow$", e[1]):
            return val(callarg(fn, fn.ins[e[2]]))
        raise Undecided()

    def divide(a, b, quot):
        if b == env.T:
            d = padd(a, env.n, -1)
            if not d:
                return env.D if quot else env.r
            # (n + T - 1) / T
            if quot and d == padd(env.T, P(1), -1):
                return padd(env.D, P(1 if env.r else 0))
            if quot and d == P(-1):
                return env.D if env.r else padd(env.D, P(1), -1)
        if b == P(1):
            return a if quot else {}
        raise Undecided()

    def truth(c):
        c = strip(c)
        if c[0] == "tb":
            c = c[1]
        if c[0] == "bin" and c[1] in ("and", "or", "xor"):
            x, y = truth(c[2]), truth(c[3])
            return (x and y) if c[1] == "and" else (x or y) if c[1] == "or" else (x != y)
        if c[0] == "sel":
            return truth(c[2] if truth(c[1]) else c[3])
        v = val(c)
        if not v:
            return False
        if v == P(1):
            return True
        raise Undecided()

    b, n = fn.entry, 0
    stores = {}
    while True:
        n += 1
        if n > 100:
            raise Undecided()
        for i in fn.blocks[b]:
            if i.op == "store":
                stores[fn.E(i.ops[1])] = val(fn.E(i.ops[0]))
        t = fn.term(b)
        if t.op == "ret":
            return [stores.get(o) for o in out_stores]
        succ = fn.succ[b]
        if len(succ) == 1:
            s = succ[0]
        else:
            raw = fn._rawsucc(b)
            s = raw[0] if truth(fn.E(t.ops[0])) else raw[1]
        came[s] = b
        memo.clear()
        b = s


def tiling(fn, N, T_, t_, outs):
    """None when the ranges [start(t), stop(t)) of workers 0 <= t < T tile [0, n); otherwise the reason."""
    n0, T, D, r, t = S("n"), S("T"), S("D"), S("r"), S("t")

    def run(env):
        def leaf(e):
            if e == N:
                return env.n
            if e == T_:
                return env.T
            if e == t_:
                return env.t
            return None
        return evaluate(fn, env, leaf, outs)
    try:
        # no elements
        for TT, tt in ((P(1), P(0)), (T, t)):
            s, e = run(Env("n=0", P(0), TT, P(0), {}, tt, "single"))
            if s != e:
                return "an empty range is not given as empty"
        # one worker
        s, e = run(Env("T=1", S("D"), P(1), S("D"), {}, P(0), "one"))
        if s != {} or e != S("D"):
            return "a single worker does not get the whole range"
    except Undecided:
        return "the bounds for an empty range or a single worker cannot be evaluated"
    for name, n, rr, phases in (("workers divide n", pmul(T, padd(D, P(1))), {}, ["single"]), ("remainder", padd(pmul(T, D), r), r, ["in", "out"])):
        # in the exact case D + 1 >= 1 elements per worker
        DD = padd(D, P(1)) if name == "workers divide n" else D
        res = {}
        for ph in phases:
            try:
                res[ph] = run(Env(name, n, T, DD, rr, t, ph))
            except Undecided:
                return f"the bounds cannot be evaluated in the case '{name}', {ph}"
            if any(x is None for x in res[ph]):
                return f"no bounds are produced in the case '{name}'"
            size = padd(res[ph][1], res[ph][0], -1)
            if padd(size, DD, -1) not in ({}, P(1)):
                return f"in the case '{name}' a worker's share is neither n/T nor n/T+1"
        t1 = padd(t, P(1))
        first, last = phases[0], phases[-1]
        if psub(res[first][0], "t", P(0)) != {}:
            return f"in the case '{name}' the first worker does not start at the first index"
        if psub(res[last][1], "t", padd(T, P(1), -1)) != n:
            return f"in the case '{name}' the last worker does not end at the last index"
        for ph in phases:
            if psub(res[ph][0], "t", t1) != res[ph][1]:
                return f"in the case '{name}' a worker does not start where the previous one ends ({ph})"
        if len(phases) == 2:
            a = psub(res["in"][1], "t", padd(r, P(1), -1))
            b = psub(res["out"][0], "t", r)
            if a != b:
                return "where the share size changes, a worker does not start where the previous one ends"
    return None


def check(ctx):
    ctx.rule("static-tiling", "for every size and number of workers, the shares of consecutive workers meet, the first starts at zero, the last ends at the size")
    ctx.rule("static-call", "a worker's body is called once with exactly its share of the range, unless the share is empty, and with its own index")
    ctx.rule("dynamic-batch", "consecutive values of the shared counter give adjacent batches starting at zero, clamped to the size")
    ctx.rule("dynamic-draw", "each batch is drawn by one atomic increment of the counter shared by all workers, and workers stop only when the range is exhausted")
    ctx.rule("pool-size", "the number of shares is the number of workers of the pool, and only an empty range is skipped")
    ctx.rule("range", "partition constructors and iterators denote the range they were given")
    small = "sp_len sp_range sp_unit sp_vec dp_len dp_range dp_unit dp_vec ur_ctor ur_pair ur_begin ur_end ur_size ur_get ur_contains ur_empty ip_size ip_empty ip_get it_plus it_minus it_pluseq it_minuseq it_at it_diff it_inc it_dec it_postinc it_postdec it_nplus it_eq it_lt".split()
    m, m2 = ctx.analyse_all([("partition.cpp", POLICY + dyn.entries("balance", "balance64", "run_plain", "run_dynamic", "dynvec", *small)),
                             ("partition.cpp", POLICY + "opaque ^svs::threads::balance$\n" + dyn.entries("run_static", "statvec"))])
    for n in ("balance", "balance64"):
        fn = ctx.one(m, n)
        why = tiling(fn, ("arg", 1), ("arg", 2), ("arg", 3), [("arg", 0), mkaddr(("arg", 0), 8, ())])
        ctx.ob("static-tiling", n, why is None, fn.name, why or "")
    static(ctx, ctx.one(m2, "run_static"), "run_static", 1, "Body", 2)
    static(ctx, ctx.one(m2, "statvec"), "static over a vector", 0, "VBody", 2)
    dynamic(ctx, ctx.one(m, "run_dynamic"), "run_dynamic", 1, "Body", 2)
    dynamic(ctx, ctx.one(m, "dynvec"), "dynamic over a vector", 0, "VBody", 2)
    fn = ctx.one(m, "run_plain")
    cs = fn.calls(r"Plain::operator")
    ctx.ob("static-call", "run without partition", len(cs) == 1 and worker(fn, callarg(fn, cs[0], 1)) and all(must_pass(fn, r, {cs[0].b}) for r in fn.rets()) and not fn.loops_of(cs[0]), fn.name, "the body is not called once with the worker's index")
    table(ctx, m)


def worker(fn, e, arg=None):
    e = strip(e)
    if arg is not None:
        return e == arg
    return e[0] == "call" and e[1].endswith("::worker")


def unnarrow(fn, e):
    e = strip(e)
    while e[0] == "call" and re.search("narrow$", e[1]):
        e = strip(callarg(fn, fn.ins[e[2]]))
    return e


def nlin(fn, e):
    """linear form with narrow() removed"""
    out = {}
    for k, c in lin(strip(e)).items():
        kk = unnarrow(fn, k) if isinstance(k, tuple) else k
        if kk != k:
            out = ladd(out, lscale(nlin(fn, kk), c))
        else:
            out = ladd(out, {k: c})
    return out


def fields(fn, call, k):
    """(begin, end) of the range object passed by reference as argument k"""
    a = callarg(fn, call, k)
    if split(a)[0][0] != "alloca":
        return None, None
    r = []
    for off in (0, 8):
        st = [(s, so) for s, so in fn.stores_raw(split(a)[0][1]) if so == split(a)[1] + off and (fn.dominates(s, call))]
        r.append(fn.E(st[-1][0].ops[0]) if st else None)
    return r


def captured(fn, e, call=None):
    """Follow values captured in local closures back to what was stored into them."""
    e = strip(e)
    for _ in range(8):
        if e[0] != "ld":
            break
        b, o, v = split(e[1])
        if b[0] != "alloca" or v:
            break
        st = [s for s, so in fn.stores_raw(b[1]) if so == o]
        if len(st) == 1:
            e = strip(fn.E(st[0].ops[0]))
            continue
        cp = []
        for c in fn.calls(r"^llvm\.mem(cpy|move)"):
            d, do, dv = split(fn.E(c.args[0]))
            n = const(fn.E(c.args[2]))
            if d == b and not dv and n is not None and do <= o < do + n:
                cp.append((c, do))
        if len(cp) == 1 and not st:
            e = ("ld", mkaddr(fn.E(cp[0][0].args[1]), o - cp[0][1], ()))
            continue
        break
    return e


def const(e):
    return e[1] if e[0] == "c" else None


def rlin(fn, e):
    """linear form with closures and narrow() resolved"""
    out = {}
    for k, c in lin(strip(e)).items():
        if not isinstance(k, tuple):
            out = ladd(out, {k: c})
            continue
        if k[0] == "prod":
            fs = [captured(fn, unnarrow(fn, x)) for x in k[1:]]
            out = ladd(out, {("prod",) + tuple(sorted(fs, key=repr)): c})
            continue
        kk = captured(fn, unnarrow(fn, k))
        out = ladd(out, lscale(rlin(fn, kk), c)) if kk != k else ladd(out, {k: c})
    return out


def space(fn, arg, vec):
    b, e = ("ld", ("arg", arg)), ("ld", mkaddr(("arg", arg), 8, ()))
    sc = 4 if vec else 1
    return b, e, sc, lscale(ladd({e: Fraction(1)}, {b: Fraction(1)}, -1), Fraction(1, sc))


def empty_guard(fn, arg, sz):
    def f(a):
        if a[0] != "cmp":
            return False
        d = ladd(rlin(fn, a[2]), rlin(fn, a[3]), -1)
        return a[1] in ("eq", "ule", "sle", "ult") and (d == sz or d == lscale(sz, -1) and a[1] == "eq" or a[1] == "ult" and ladd(d, {1: 1}) == sz)
    return f


def static(ctx, fn, n, arg, body, tid):
    vec = body == "VBody"
    b, e, sc, sz = space(fn, arg, vec)
    cs = [c for c in fn.calls(rf"^{body}::operator") if c.b not in fn.cold]
    bal = [c for c in fn.calls(r"::balance$")]
    ok = len(cs) == 1 and len(bal) == 1
    ctx.ob("static-call", f"{n}: one call of the body", ok, fn.name, "the body is not called from exactly one place with a balanced share")
    if not ok:
        return
    c, bl = cs[0], bal[0]
    run = n == "run_static"
    isw = lambda x: worker(fn, x) if run else strip(x) == ("arg", 3)
    nth = lambda x: (strip(x)[0] == "call" and strip(x)[1].endswith("Pool::size")) if run else strip(x) == ("arg", 1)
    ctx.ob("pool-size", n, nth(captured(fn, callarg(fn, bl, 1))), bl.where, "the share is not computed for the number of workers of the pool")
    ctx.ob("static-call", f"{n}: share", rlin(fn, callarg(fn, bl, 0)) == sz and isw(captured(fn, callarg(fn, bl, 2))), bl.where, "the share is not computed from the size of the range and the worker's index")
    st = lambda k: ("ev", ("call", bl.name, bl.id), (k,))
    lo, hi = fields(fn, c, 1)
    ctx.ob("static-call", f"{n}: begin", lo is not None and rlin(fn, lo) == ladd({b: Fraction(1)}, {st(0): Fraction(sc)}), c.where, "the range passed does not begin at range begin + start of the share")
    ctx.ob("static-call", f"{n}: end", hi is not None and rlin(fn, hi) == ladd({b: Fraction(1)}, {st(1): Fraction(sc)}), c.where, "the range passed does not end at range begin + stop of the share")
    ctx.ob("static-call", f"{n}: worker index", isw(captured(fn, callarg(fn, c, 2))), c.where, "the body does not get the worker's own index")
    ctx.ob("static-call", f"{n}: body object", captured(fn, callarg(fn, c, 0)) == ("arg", 2), c.where, "another function object is called")
    ctx.ob("static-call", f"{n}: once", not fn.loops_of(c), c.where, "the body is called repeatedly")

    def skip(a):
        if a[0] != "cmp":
            return False
        x, y = strip(a[2]), strip(a[3])
        return a[1] == "eq" and {x, y} == {st(0), st(1)} or a[1] in ("uge",) and (x, y) == (st(0), st(1)) or a[1] == "ule" and (x, y) == (st(1), st(0))
    em = empty_guard(fn, arg, sz)
    cut = fn.cut_for(lambda a: skip(a) or (run and em(a)))
    ctx.ob("static-call", f"{n}: not skipped", not any(r.b in fn.reachable(fn.entry, cut, {c.b}) for r in fn.rets()) or fn.entry == c.b, fn.name, "a worker with a non-empty share may skip it")


def dynamic(ctx, fn, n, arg, body, tid):
    vec = body == "VBody"
    b, e, sc, sz = space(fn, arg, vec)
    run = n == "run_dynamic"
    cs = [c for c in fn.calls(rf"^{body}::operator") if c.b not in fn.cold]
    rm = [i for i in fn.all("atomicrmw")]
    ok = len(cs) == 1 and len(rm) >= 1 and all(x.r.get("rmw") == "add" and fn.E(x.ops[0]) == fn.E(rm[0].ops[0]) and fn.E(x.ops[1]) == fn.E(rm[0].ops[1]) for x in rm)
    ctx.ob("dynamic-draw", f"{n}: atomic draw", ok, fn.name, "batches are not drawn by one atomic addition to a shared counter")
    if not ok:
        return
    c, r = cs[0], rm[0]
    draws = [("rmw", "add", x.id) for x in rm]

    def isdraw(e, seen=()):
        e = strip(e)
        return e in draws or e[0] == "phi" and e not in seen and all(isdraw(fn.E(v), seen + (e,)) for v, blk in fn.ins[e[1]].r["inc"])
    inc = const(strip(fn.E(r.ops[1])))
    me = ("rmw", "add", r.id)
    ctr = fn.E(r.ops[0])
    st = [s for s, so in fn.stores_raw(split(ctr)[0][1]) if so == split(ctr)[1]] if split(ctr)[0][0] == "alloca" else []
    init = [s for s in st if strip(fn.E(s.ops[0])) == ("c", 0)]
    ctx.ob("dynamic-draw", f"{n}: counter starts at zero", len(st) == 1 and len(init) == 1 and all(fn.dominates(init[0], x) and not any(init[0].b in l.body for l in fn.loops_of(x)) for x in rm), r.where, "the shared counter does not start at zero")
    lo, hi = fields(fn, c, 1)
    if lo is None or hi is None:
        ctx.ob("dynamic-batch", f"{n}: bounds", False, c.where, "the range passed to the body cannot be determined")
        return
    hi = strip(hi)

    def prodlin(e):
        """polynomial of an expression (products expanded), closures resolved"""
        out = {}
        for k, v in rlin(fn, e).items():
            mono = () if k == 1 else k[1:] if isinstance(k, tuple) and k[0] == "prod" else (k,)
            mono = tuple(sorted((me if isdraw(x) else x for x in mono), key=repr))
            out[mono] = out.get(mono, 0) + v
        return {k: v for k, v in out.items() if v}

    def sub(p, sym, val):
        r_ = {}
        for mn, cf in p.items():
            t = {(): cf}
            for x in mn:
                t = pmulr(t, val if x == sym else {(x,): Fraction(1)})
            for k, v in t.items():
                r_[k] = r_.get(k, 0) + v
        return {k: v for k, v in r_.items() if v}

    def pmulr(a, b):
        r_ = {}
        for mn, cf in a.items():
            for m2, d in b.items():
                z = tuple(sorted(mn + m2, key=repr))
                r_[z] = r_.get(z, 0) + cf * d
        return r_
    base = {(b,): Fraction(1)}
    plo = prodlin(lo)
    start = padd(plo, base, -1)
    size = {(k,): v for k, v in lscale(sz, sc).items()}
    # clamp: end = base + min(size, x) in elements
    clamp = None
    stop = None
    hl = rlin(fn, hi)
    mins = [k for k in hl if isinstance(k, tuple) and k[0] in ("umin", "smin", "sel", "phi")]
    if len(mins) == 1:
        k = mins[0]
        alts = list(k[1:]) if k[0] != "sel" else [k[2], k[3]]
        if k[0] == "phi":
            alts = [fn.E(v) for v, blk in fn.ins[k[1]].r["inc"]]
        rest = {x: v for x, v in hl.items() if x != k}
        ends = []
        for x in alts:
            q = prodlin(x)
            z = {mn: cf * hl[k] for mn, cf in q.items()}
            for kk, v in rest.items():
                mono = () if kk == 1 else tuple(sorted(kk[1:], key=repr)) if isinstance(kk, tuple) and kk[0] == "prod" else (kk,)
                z[mono] = z.get(mono, 0) + v
            ends.append(padd({a: v for a, v in z.items() if v}, base, -1))
        full = [x for x in ends if x == size]
        other = [x for x in ends if x != size]
        if len(full) == 1 and len(other) == 1 and (k[0] in ("umin", "smin") or chosen_small(fn, k)):
            clamp, stop = True, other[0]
    g = inc
    if inc is None:
        incp = prodlin(fn.E(r.ops[1]))
    else:
        incp = {(): Fraction(inc)} if inc else {}
    ok = stop is not None and incp and sub(start, me, padd({(me,): Fraction(1)}, incp)) == stop
    ctx.ob("dynamic-batch", f"{n}: adjacent", ok, c.where, "a batch does not end where the batch of the next counter value begins")
    ctx.ob("dynamic-batch", f"{n}: clamped", bool(clamp), c.where, "the end of a batch is not limited to the size of the range")
    ctx.ob("dynamic-batch", f"{n}: first", sub(start, me, {}) == {}, c.where, "the first batch does not begin at zero")

    def more(a, neg=False):
        if a[0] != "cmp":
            return False
        d = padd(prodlin(a[2]), prodlin(a[3]), -1)
        want = padd(start, size, -1)
        want = {k: v / sc for k, v in want.items()}
        if neg:
            return d == want and a[1] in ("uge", "sge") or d == {k: -v for k, v in want.items()} and a[1] in ("ule", "sle")
        return d == want and a[1] in ("ult", "slt") or d == {k: -v for k, v in want.items()} and a[1] in ("ugt", "sgt")
    ctx.ob("dynamic-draw", f"{n}: inside the range", fn.guarded(c, more) and all(fn.path(y, c, cut=fn.cut_for(more)) is None for y in rm), c.where, "a batch beyond the end of the range is handed out")
    cut = fn.cut_for(lambda a: more(a, True))
    ctx.ob("dynamic-draw", f"{n}: drawn batches are run", all(fn.path(y, x, cut=cut, avoid=[c]) is None for y in rm for x in fn.rets() + rm), r.where, "a drawn batch may be dropped")
    ctx.ob("dynamic-draw", f"{n}: until exhausted", all(fn.path(c, x, avoid=rm) is None for x in fn.rets()), c.where, "a worker may stop while batches remain")
    em = empty_guard(fn, arg, sz)
    cut = fn.cut_for(lambda a: run and em(a))
    ctx.ob("pool-size", f"{n}: only an empty range is skipped", fn.entry in {y.b for y in rm} or not any(x.b in fn.reachable(fn.entry, cut, {y.b for y in rm}) for x in fn.rets()), fn.name, "a non-empty range may be skipped")
    isw = lambda x: worker(fn, x) if run else strip(x) == ("arg", 3)
    ctx.ob("static-call", f"{n}: worker index", isw(captured(fn, callarg(fn, c, 2))), c.where, "the body does not get the worker's own index")
    ctx.ob("static-call", f"{n}: body object", captured(fn, callarg(fn, c, 0)) == ("arg", 2), c.where, "another function object is called")


def chosen_small(fn, k):
    if k[0] == "sel" and k[1][0] == "cmp":
        x, y = strip(k[1][2]), strip(k[1][3])
        if k[1][1] in ("ult", "ule"):
            return (x, y) == (strip(k[2]), strip(k[3]))
        if k[1][1] in ("ugt", "uge"):
            return (y, x) == (strip(k[2]), strip(k[3]))
    if k[0] == "phi":
        # x > y decides the branch; accept when the edges say which one is smaller
        inc = fn.ins[k[1]].r["inc"]
        if len(inc) == 2:
            (v1, b1), (v2, b2) = inc
            for (v, blk), (w, _) in (((v1, b1), (v2, b2)), ((v2, b2), (v1, b1))):
                x, y = lin(fn.E(v)), lin(fn.E(w))
                at = list(fn.edge_atoms(blk, fn.ins[k[1]].b)) + fn.facts(fn.blocks[blk][-1])
                if any(a[0] == "cmp" and (a[1] in ("ult", "ule") and lin(a[2]) == x and lin(a[3]) == y or a[1] in ("ugt", "uge") and lin(a[3]) == x and lin(a[2]) == y) for a in at):
                    return True
    return False


def table(ctx, m):
    A = lambda k: ("arg", k)
    L = lambda a, o=0: ("ld", mkaddr(a, o, ()))

    def outs(fn, n=2):
        """values stored at offsets 0 and 8 (and 16) of the output argument, on every path"""
        r = []
        for o in (0, 8, 16)[:n]:
            st = [s for s in fn.all("store") if fn.E(s.ops[1]) == mkaddr(A(0), o, ())]
            r.append(fn.E(st[0].ops[0]) if len(st) == 1 and all(must_pass(fn, x, {st[0].b}) for x in fn.rets()) else None)
        return r

    def expect(name, got, want):
        fn = m.get(name)[0]
        for k, (g, w) in enumerate(zip(got, want)):
            if callable(w):
                ok = g is not None and w(strip(g))
            else:
                ok = g is not None and rlin(fn, g) == w
            ctx.ob("range", f"{name}[{k}]", ok, fn.name, f"denotes {fn.show_e(g) if g else 'nothing'} instead of what was given")

    one_ = {1: Fraction(1)}
    v = lambda x: {x: Fraction(1)}
    ve = lambda k: (v(L(A(k))), v(L(A(k), 8)))
    expect("sp_len", outs(ctx.one(m, "sp_len")), [{}, v(A(1))])
    expect("sp_range", outs(ctx.one(m, "sp_range")), [v(A(1)), v(A(2))])
    expect("sp_unit", outs(ctx.one(m, "sp_unit")), ve(1))
    expect("sp_vec", outs(ctx.one(m, "sp_vec")), ve(1))
    expect("dp_len", outs(ctx.one(m, "dp_len"), 3), [{}, v(A(1)), v(A(2))])
    expect("dp_range", outs(ctx.one(m, "dp_range"), 3), [v(A(1)), v(A(2)), v(A(3))])
    expect("dp_unit", outs(ctx.one(m, "dp_unit"), 3), [*ve(1), v(A(2))])
    expect("dp_vec", outs(ctx.one(m, "dp_vec"), 3), [*ve(1), v(A(2))])
    mx = lambda a, b: lambda g: (g[0] == "umax" and {strip(g[1]), strip(g[2])} == {a, b}) or (g[0] == "sel" and g[1][0] == "cmp" and {strip(g[2]), strip(g[3])} == {a, b} and
                                ((g[1][1] in ("ult", "ule") and (strip(g[1][2]), strip(g[1][3])) == (strip(g[3]), strip(g[2]))) or (g[1][1] in ("ugt", "uge") and (strip(g[1][2]), strip(g[1][3])) == (strip(g[2]), strip(g[3])))))
    expect("ur_ctor", outs(ctx.one(m, "ur_ctor")), [v(A(1)), mx(A(1), A(2))])
    expect("ur_pair", outs(ctx.one(m, "ur_pair")), [v(L(A(1))), mx(L(A(1)), L(A(1), 8))])

    def ret(name, want):
        fn = ctx.one(m, name)
        rs = fn.rets()
        g = fn.E(rs[0].ops[0]) if len(rs) == 1 else None
        expect(name, [g], [want])
    r0, r8 = v(L(A(0))), v(L(A(0), 8))
    ret("ur_begin", r0)
    ret("ur_end", r8)
    ret("ur_size", ladd(r8, r0, -1))
    ret("ur_get", ladd(r0, v(A(1))))
    eqf = lambda x, y: lambda g: g[0] == "cmp" and g[1] == "eq" and {strip(g[2]), strip(g[3])} == {x, y}
    ret("ur_empty", eqf(L(A(0)), L(A(0), 8)))
    ret("ip_size", ladd(r8, r0, -1))
    ret("ip_get", ladd(r0, v(A(1))))
    for n, w in (("it_plus", ladd(r0, v(A(1)))), ("it_minus", ladd(r0, v(A(1)), -1)), ("it_at", ladd(r0, v(A(1)))), ("it_nplus", ladd(v(L(A(1))), v(A(0)))), ("it_diff", ladd(r0, v(L(A(1))), -1))):
        ret(n, w)
    ret("it_eq", eqf(L(A(0)), L(A(1))))
    ret("it_lt", lambda g: g[0] == "cmp" and (g[1] == "ult" and (strip(g[2]), strip(g[3])) == (L(A(0)), L(A(1))) or g[1] == "ugt" and (strip(g[3]), strip(g[2])) == (L(A(0)), L(A(1)))))
    for n, d, post in (("it_pluseq", v(A(1)), 0), ("it_minuseq", lscale(v(A(1)), Fraction(-1)), 0), ("it_inc", one_, 0), ("it_dec", lscale(one_, Fraction(-1)), 0), ("it_postinc", one_, 1), ("it_postdec", lscale(one_, Fraction(-1)), 1)):
        fn = ctx.one(m, n)
        st = [s for s in fn.all("store") if fn.E(s.ops[1]) == A(0)]
        ctx.ob("range", f"{n}: position", len(st) == 1 and lin(fn.E(st[0].ops[0])) == ladd(r0, d), fn.name, "the iterator is not moved by the given distance")
        g = fn.E(fn.rets()[0].ops[0])
        ctx.ob("range", f"{n}: value", lin(g) in ([r0, ladd(r0, d)] if not post else [r0]), fn.name, "the value returned is not the iterator's")
    fn = ctx.one(m, "ip_empty")
    g = strip(fn.E(fn.rets()[0].ops[0]))
    d = ladd(rlin(fn, g[2]), rlin(fn, g[3]), -1) if g[0] == "cmp" else None
    ctx.ob("range", "ip_empty", d is not None and g[1] == "eq" and d in (ladd(r8, r0, -1), ladd(r0, r8, -1)), fn.name, "emptiness is not begin == end")
    fn = ctx.one(m, "ur_contains")
    lo = lambda a: a[0] == "cmp" and (a[1] in ("ule",) and same(a[2], L(A(0))) and same(a[3], L(A(1))) or a[1] == "uge" and same(a[2], L(A(1))) and same(a[3], L(A(0))))
    s8 = {L(A(0), 8): Fraction(1), 1: Fraction(-1)}
    hi = lambda a: a[0] == "cmp" and (a[1] == "ule" and same(a[2], L(A(1))) and lin(a[3]) == s8 or a[1] == "ult" and same(a[2], L(A(1))) and same(a[3], L(A(0), 8)) or a[1] == "ugt" and same(a[3], L(A(1))) and same(a[2], L(A(0), 8)) or a[1] == "uge" and same(a[3], L(A(1))) and lin(a[2]) == s8)
    e = fn.E(fn.rets()[0].ops[0])
    at = ir.implied(e, True, fn)
    ctx.ob("range", "ur_contains", any(lo(a) for a in at) and any(hi(a) for a in at), fn.name, "membership is not begin <= i < end")
    ctx.assumptions += ["index arithmetic does not overflow (sizes below 2^63, grain size times counter below 2^64)", "the grain size of a dynamic partition is not zero", "callers use worker indices below the pool size (C09)"]
