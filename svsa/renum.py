"""Recognising renumberings: index lists held in vectors, inverse maps, batched moves run on a pool."""
import re
from .lib import *
from . import ir
from .ir import split, lin, ladd, walk


def nt(e):
    """Expression without integer width changes (truncations and 32-bit masks) anywhere."""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "trunc":
        return nt(e[2])
    if e[0] == "bin" and e[1] == "and" and e[3] in (("c", 0xFFFFFFFF), ("c", 0xFFFFFFFFFFFFFFFF)):
        return nt(e[2])
    if e[0] in ("ld", "call", "arg", "alloca", "g", "phi"):
        return e
    e = tuple(nt(x) if isinstance(x, tuple) else x for x in e)
    if e[0] == "bin" and e[1] == "add":
        # a + min(t - a, s) == min(t, a + s)
        for a, m in ((e[2], e[3]), (e[3], e[2])):
            if isinstance(m, tuple) and m and m[0] in ("umin", "smin"):
                for x, y in ((m[1], m[2]), (m[2], m[1])):
                    if isinstance(x, tuple) and (x[:2] == ("bin", "sub") and x[3] == a or x[0] == "usub" and x[2] == a):
                        return (m[0], x[2] if x[0] == "bin" else x[1], ("bin", "add", a, y))
    return e


def nlin(e):
    return lin(nt(e))


def nsame(a, b):
    return a is not None and b is not None and nlin(a) == nlin(b)


def index_of(o, v):
    """Element index (expression) of an address base + o + sum(var*stride) with one stride; None otherwise."""
    ss = {k for _, k in v}
    if len(ss) > 1 or (o and not ss):
        return None
    if not ss:
        return ("c", 0)
    k = ss.pop()
    if not k or o % k:
        return None
    e = None
    for x, _ in v:
        e = x if e is None else ("bin", "add", e, x)
    return ("bin", "add", e, ("c", o // k)) if o else e


def vec_elem(fn, e, vec):
    """Index expression when e is the value (or address) of an element of the vector object at address expression vec."""
    e = strip(e)
    if e[0] == "ld":
        e = e[1]
    b, o, v = split(e)
    if b == ("ld", vec):
        return index_of(o, v)
    if b[0] == "call" and not v and o == 0 and re.search(r"::(at|operator\[\])$", b[1]):
        c = fn.ins[b[2]]
        if fn.E(c.args[0]) == vec:
            return callarg(fn, c, 1)
    return None


def vec_ptr(fn, addr, vec):
    """Pointer expression into the elements of the vector at vec (any position)."""
    b, o, v = split(addr)
    for _ in range(4):
        if b == ("ld", vec):
            return True
        if b[0] == "phi":
            p = fn.ins[b[1]]
            for val, blk in p.r["inc"]:
                x = fn.E(val)
                if b not in set(walk(x)):
                    b = split(x)[0]
                    break
            else:
                return False
        elif b[0] == "call" and re.search(r"::(data|begin|at|operator\[\])$", b[1]):
            return fn.E(fn.ins[b[2]].args[0]) == vec
        else:
            return b == ("ld", vec)
    return False


def vec_count(fn, e, vec, esz):
    """e is the number of elements of the vector at vec."""
    e = nt(e)
    if e[0] == "call" and e[1].endswith("::size") and fn.E(fn.ins[e[2]].args[0]) == vec:
        return True
    lo, hi = vec_range(fn, vec)
    want = ladd(hi, lo, -1)
    if e[0] == "bin" and e[1].rstrip("x") in ("lshr", "ashr", "sdiv", "udiv"):
        k = e[3][1] if e[3][0] == "c" else None
        n = (1 << k) if e[1].rstrip("x") in ("lshr", "ashr") and k is not None and k < 8 else k
        return n == esz and lin(e[2]) == want
    return esz == 1 and lin(e) == want


def vec_puts(fn, vec):
    """(instruction, value) for every element put into the vector at vec; value None when unknown (other writers)."""
    out = []
    for i in fn.all():
        if i.is_call and i.args:
            a = i.args[(1 if i.r.get("sret") else 0):]
            if not a or fn.E(a[0]) != vec:
                continue
            if re.search(r"::(push_back|emplace_back)$", i.name) and len(a) > 1:
                out.append((i, val_at(fn, a[1], i) if fn_is_ptr(fn, a[1]) else fn.E(a[1])))
            elif re.search(r"::(insert|emplace|assign|_M_\w*(insert|assign|append)\w*|operator=|swap|erase|pop_back|sort)$", i.name):
                out.append((i, None))
        elif i.op == "store" and vec_ptr(fn, fn.E(i.ops[1]), vec):
            out.append((i, fn.E(i.ops[0])))
    return out


def skip_edges(fn, loop, pred):
    return {(b, s) for b, s in fn.edges() if b in loop.body and any(pred(a) for a in fn.edge_atoms(b, s))}


def each_or(fn, loop, ins, pred=lambda a: False):
    """Every iteration of the loop that goes on to the next one executes ins, or takes an edge on which pred holds."""
    cut = skip_edges(fn, loop, pred) | fn.unwind_edges() | set(loop.exits())
    if ins.b == loop.head:
        return True
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        if b == ins.b:
            continue
        for s in fn.succ[b]:
            if (b, s) in cut or s in seen:
                continue
            if s == loop.head:
                return False
            seen.add(s)
            work.append(s)
    return True


def counted(fn, loop):
    """[(phi expression, first, exclusive bound, step)] of a loop that is left only when its induction reaches the bound; first
    and bound are linear forms without width changes."""
    out = []
    for p, ini, bound, st, tb in sync_bounds(fn, loop, loop_bounds(fn, loop)):
        out.append((("phi", p.id), nform(ini), nform(bound), st))
    return out


def nform(l):
    """Linear form with width changes removed inside its atoms."""
    r = {}
    for k, c in l.items():
        if k == 1:
            r = ladd(r, {1: c})
        else:
            r = ladd(r, nlin(k), c)
    return r


def covers_index(fn, ins, idx, first, is_count):
    """Instruction ins is executed for idx = first, first+1, ... up to (exclusive) a bound accepted by is_count(linear form):
    returns the loop."""
    L = nlin(idx)
    for loop in fn.loops_of(ins):
        for phi, ini, bound, st in counted(fn, loop):
            if phi not in L or st == 0:
                continue
            if subst(L, phi, ini) == first and L[phi] * st == 1 and is_count(subst(L, phi, bound)):
                return loop
    return None


class Phase:
    """A loop run by the workers of one pool run: index covers one share of a balanced partition of [0, n)."""

    def __init__(self, call, n, phi, loop):
        self.call, self.n, self.phi, self.loop = call, n, phi, loop


def phase(fn, ins, idx):
    """The balanced partition that idx (an expression) runs over at ins; n is the number of indices shared out."""
    L = nlin(idx)
    for loop in fn.loops_of(ins):
        for phi, ini, bound, st in counted(fn, loop):
            if phi not in L or st != 1:
                continue
            lo, hi = subst(L, phi, ini), subst(L, phi, bound)
            a, b = share_atom(lo), share_atom(hi)
            if a and b and a[0] == b[0] and a[1] == 0 and b[1] == 1 and nlin(idx) == {("phi", phi[1]): 1}:
                c = fn.ins[a[0]]
                return Phase(c, nt(callarg(fn, c, 0)), phi, loop)
    return None


def share_atom(l):
    ks = [k for k in l if k != 1]
    if len(ks) == 1 and l[ks[0]] == 1 and not l.get(1):
        k = ks[0]
        if k[0] == "ev" and k[1][0] == "call" and k[1][1].endswith("::balance") and len(k[2]) == 1:
            return k[1][2], k[2][0]
        if k[0] == "umax":
            # a share ends where it begins or later (C10)
            a, b = (share_atom(nlin(x)) for x in k[1:])
            if a and b and a[0] == b[0] and {a[1], b[1]} == {0, 1}:
                return a[0], 1
    return None


class Batches:
    """A loop over consecutive batches [start, stop) of [0, total)."""

    def __init__(self, loop, start, stop):
        self.loop, self.start, self.stop = loop, start, stop


def batches(fn, loop, is_total):
    """The loop visits [0, total) in consecutive batches: start is 0, then the previous stop; stop = min(start + size, total)."""
    for p in fn.blocks[loop.head]:
        if p.op != "phi":
            continue
        me = ("phi", p.id)
        ini = nxt = None
        bad = False
        for val, b in p.r["inc"]:
            e = nt(fn.E(val))
            if b in loop.body:
                bad |= nxt is not None and nxt != e
                nxt = e
            else:
                bad |= ini is not None and ini != e
                ini = e
        if bad or ini != ("c", 0) or nxt is None or nxt[0] not in ("umin", "smin"):
            continue
        a, b = nxt[1], nxt[2]
        if is_total(a):
            a, b = b, a
        if not is_total(b):
            continue
        d = dict(lin(a))
        if d.pop(me, 0) != 1 or any(isinstance(k, tuple) and me in set(walk(k)) for k in d):
            continue
        # left only when start reaches the total
        ok = bool(loop.live_exits())
        for x, s in loop.live_exits():
            ok &= any(at[0] == "cmp" and at[1] in ("uge", "sge", "eq") and nsame(at[2], me) and is_total(nt(at[3])) or
                      at[0] == "cmp" and at[1] in ("ule", "sle", "eq") and nsame(at[3], me) and is_total(nt(at[2])) for at in fn.edge_atoms(x, s))
        if ok:
            return Batches(loop, me, nxt)
    return None


def batch_len(e, bt):
    """e == stop - start of the batch."""
    e = nt(e)
    if e[0] == "usub":
        return e[1] == bt.stop and e[2] == bt.start
    return lin(e) == ladd(lin(bt.stop), lin(bt.start), -1)


# ---- batches given by a counter ----------------------------------------------------------
def canon(e):
    """Hashable normal form of an integer expression: linear forms with the operands of min/max normalised."""
    def atom(x):
        if isinstance(x, tuple) and x and x[0] in ("umin", "smin", "umax", "smax") and len(x) == 3:
            a, b = canon(x[1]), canon(x[2])
            if a == b:
                return a
            if x[0] == "umin" and () in (a, b):
                return ()
            return ((x[0][1:],) + tuple(sorted((a, b), key=repr)),)
        if isinstance(x, tuple) and x and x[0] == "prod":
            return None
        if isinstance(x, tuple) and x and x[0] == "bin":
            return (("bin", x[1], canon(x[2]), canon(x[3])),)
        return None
    out = {}
    for k, c in nlin(e).items():
        if isinstance(k, tuple) and k and k[0] == "prod":
            key = ("prod",) + tuple(sorted((_key(atom(f), f) for f in k[1:]), key=repr))
            out[key] = out.get(key, 0) + c
            continue
        a = atom(k) if k != 1 else None
        if a is None:
            out[k] = out.get(k, 0) + c
        elif len(a) and isinstance(a[0], tuple) and a[0] and isinstance(a[0][0], str):
            out[a[0]] = out.get(a[0], 0) + c
        else:
            for kk, cc in a:
                out[kk] = out.get(kk, 0) + c * cc
    return tuple(sorted(((k, c) for k, c in out.items() if c), key=repr))


def _key(a, f):
    return f if a is None else a


def subst_e(e, x, y):
    """Replace a sub-expression."""
    if e == x:
        return y
    if not isinstance(e, tuple):
        return e
    return tuple(subst_e(t, x, y) if isinstance(t, tuple) else t for t in e)


def counter_batches(fn, loop, start, stop, is_total):
    """start/stop (expressions of integers) run through consecutive batches of [0, total) while the loop's counter runs:
    the first starts at 0, each next one starts where the previous stopped, the last one stops at the total."""
    st, sp = nt(start), nt(stop)
    for p, ini, s in loop.inductions():
        me = ("phi", p.id)
        if s != 1 or me not in set(walk(st)) | set(walk(sp)):
            continue
        if canon(subst_e(st, me, nt(ini))) != ():
            continue
        if canon(subst_e(st, me, ("bin", "add", me, ("c", 1)))) != canon(sp):
            continue
        for a, b in ((sp[1], sp[2]), (sp[2], sp[1])) if sp[0] in ("umin", "smin") else ():
            if not is_total(b):
                continue
            for x, _s in loop.live_exits():
                for at in fn.edge_atoms(x, _s):
                    if at[0] != "cmp" or at[1] not in ("uge", "ule", "eq", "sge", "sle"):
                        continue
                    nb = at[3] if nt(at[2]) == me else at[2] if nt(at[3]) == me else None
                    if nb is None or (at[1] in ("uge", "sge")) != (nt(at[2]) == me) and at[1] != "eq":
                        continue
                    nb, ok = nt(nb), True
                    last = canon(subst_e(a, me, ("bin", "sub", nb, ("c", 1))))
                    q = [("bin", "add", ("bin", "udiv", b, nb), ("cmpv",)), ]
                    for y in walk(a):
                        if isinstance(y, tuple) and y and y[0] == "bin" and y[1] == "udiv" and nt(y[3]) == nb:
                            for z in walk(a):
                                if isinstance(z, tuple) and z and z[0] == "cmp" and z[1] in ("ne", "ugt") and nt(z[3]) == ("c", 0) and z[2][:2] == ("bin", "urem") and \
                                        canon(z[2][2]) == canon(b) and nt(z[2][3]) == nb and canon(y[2]) == canon(b):
                                    if last == canon(("bin", "mul", nb, ("bin", "add", y, z))):
                                        return True
                            if canon(y[2]) == canon(("bin", "sub", ("bin", "add", b, nb), ("c", 1))) and last == canon(("bin", "mul", nb, y)):
                                return True
    return False


# ---- a pool's share of [0, n), balanced or handed out in chunks -----------------------------
def number(fn, e, d=0):
    """Integer expression behind value preserving conversions."""
    e = nt(e)
    if e[0] == "call" and re.search(r"::narrow(_cast)?$", e[1]) and d < 4:
        c = fn.ins[e[2]]
        a = c.args[-1]
        return number(fn, val_at(fn, a, c) if fn_is_ptr(fn, a) else fn.E(a), d + 1)
    return e


class Share:
    """A loop in which an index runs over a worker's share of [0, n); `whole` are the heads of the loops that must not be skipped."""

    def __init__(self, n, loop, heads, phi):
        self.n, self.loop, self.heads, self.phi = n, loop, heads, phi


def share(fn, at, idx):
    ph = phase(fn, at, idx)
    if ph is not None:
        return Share(number(fn, ph.n), ph.loop, [ph.loop.head], ph.phi)
    L = nlin(idx)
    for loop in fn.loops_of(at):
        for phi, ini, bound, st in counted(fn, loop):
            if L != {phi: 1} or st != 1:
                continue
            n = chunk_of(fn, ini, bound)
            if n is not None:
                # the chunks are drawn until none is left
                outer = [l for l in fn.loops_of(at) if l is not loop and loop.head in l.body and drawn(fn, l, ini, n)]
                if outer:
                    return Share(number(fn, n), loop, [outer[0].head], phi)
    return None


def chunk_of(fn, lo, hi):
    """n when [lo, hi) is a chunk [k*c, min(k*c + c, n)) with k drawn from an atomic counter; None otherwise."""
    ks = [k for k in lo if k != 1]
    if len(ks) != 1 or ks[0][0] != "rmw" or ks[0][1] != "add" or lo.get(1):
        return None
    c = lo[ks[0]]
    r = fn.ins[ks[0][2]]
    if fn.E(r.ops[1]) != ("c", 1):
        return None
    hs = [k for k in hi if k != 1]
    if len(hs) != 1 or hi != {hs[0]: 1}:
        return None
    e = hs[0]
    if e[0] == "umax":
        a, b = e[1], e[2]
        if nlin(a) == lo:
            a, b = b, a
        if nlin(b) != lo:
            return None
        l = nlin(a)
        ls = [k for k in l if k != 1]
        if len(ls) != 1 or l != {ls[0]: 1}:
            return None
        e = ls[0]
    if e[0] != "umin":
        return None
    for a, b in ((e[1], e[2]), (e[2], e[1])):
        if nlin(a) == ladd(lo, {1: c}):
            return nt(b)
    return None


def drawn(fn, l, lo, n):
    """The loop is left only when the first index of the next chunk is past the end."""
    ok = bool(l.live_exits())
    for b, s in l.live_exits():
        ok &= any(a[0] == "cmp" and (a[1] == "uge" and nlin(a[2]) == lo and number(fn, a[3]) == number(fn, n) or a[1] == "ule" and nlin(a[3]) == lo and number(fn, a[2]) == number(fn, n))
                  for a in fn.edge_atoms(b, s))
    return ok


def nothing_to_share(fn, a):
    """Atom stating that there is nothing to share out, or that a worker's balanced share is empty."""
    if a[0] != "cmp" or a[1] not in ("eq", "uge", "ule"):
        return False
    l, r = share_atom(nlin(a[2])), share_atom(nlin(a[3]))
    if l and r and l[0] == r[0] and l[1] != r[1]:
        return True
    for x, y in ((a[2], a[3]), (a[3], a[2])):
        if y == ("c", 0) and a[1] == "eq" and x[0] == "call" and re.search(r"::narrow(_cast)?$", x[1]):
            return True
    return False
