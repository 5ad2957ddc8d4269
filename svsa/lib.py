"""Rule building blocks shared by the property checks."""
import re
from fractions import Fraction
from . import ir
from .ir import split, mkaddr, lin, ladd, lscale, walk


def strip(e):
    """Drop integer width changes."""
    while isinstance(e, tuple) and e and e[0] == "trunc":
        e = e[2]
    return e


def same(a, b):
    a, b = strip(a), strip(b)
    return a == b or (a is not None and b is not None and lin(a) == lin(b))


def val_at(fn, ref, at):
    """Expression of the object a pointer operand refers to, just before instruction `at`."""
    a = fn.E(ref)
    b, o, v = split(a)
    if b[0] == "alloca":
        if v:
            return ("ld", a)
        st = fn.reaching(b[1], o, at)
        if st is not None and len(st) == 1:
            return fn.E(st[0].ops[0])
        if st:
            es = {fn.E(s.ops[0]) for s in st}
            if len(es) == 1:
                return es.pop()
        return ("ld", a)
    return ("ld", a)


def root_path(fn, a):
    """(name path, type) for an address, tolerant of unknown."""
    m = fn.memname(a)
    if m:
        return ir.vecname(m[0]), m[1]
    return None, None


# ---- control equivalence ------------------------------------------------------------------
def post_reaches(fn, x, y):
    """Every normal path from x to a return (or back to x) executes y."""
    cut = fn.unwind_edges()
    return fn.path(x, lambda i: i.op == "ret" or i is x, cut=cut, avoid=[y]) is None


def pre_reaches(fn, x, y):
    """Every path to x (from the entry, or from the previous execution of x) executes y."""
    return fn.path(None, x, avoid=[y]) is None and fn.path(x, x, avoid=[y]) is None


def paired(fn, x, y):
    if x is y:
        return True
    return (post_reaches(fn, x, y) or pre_reaches(fn, x, y)) and (post_reaches(fn, y, x) or pre_reaches(fn, y, x))


# ---- loops --------------------------------------------------------------------------------
def subst(l, atom, val):
    """Replace an atom of a linear form by a linear form."""
    if atom not in l:
        return l
    l2 = dict(l)
    k = l2.pop(atom)
    return ladd(l2, val, k)


ONE = Fraction(1)


class Cover:
    """Elements visited by an access in a counted loop: addresses lo, lo+stride, ... < hi."""

    def __init__(self, lo, hi, stride, loop, phi):
        self.lo, self.hi, self.stride, self.loop, self.phi = lo, hi, stride, loop, phi


def exit_bound(fn, loop, b, s, p, st):
    """Exclusive bound (linear form) that induction p has reached when the loop is left over edge (b, s); None otherwise."""
    me = ("phi", p.id)
    atoms = list(fn.edge_atoms(b, s))
    # facts inside the loop that must hold at the exit
    x = b
    n = 0
    while x != loop.head and len(fn.pred[x]) == 1 and n < 20:
        q = fn.pred[x][0]
        if len(fn.succ[q]) > 1:
            atoms += fn.edge_atoms(q, x)
        x = q
        n += 1
    found = None
    for a in atoms:
        if a[0] != "cmp":
            continue
        pr, l, r = a[1], lin(a[2]), lin(a[3])
        d = ladd(l, r, -1)
        c = d.get(me)
        if c is None or any(isinstance(z, tuple) and z[0] == "phi" and z != me and fn.ins[z[1]].b in loop.body for z in d):
            continue
        # d = c*phi + rest  (pr) 0
        rest = dict(d)
        del rest[me]
        val = lscale(rest, -1 / c)  # phi == val at equality
        q = pr if c > 0 else ir.CMPSWAP[pr]
        if q == "eq":
            found = val
        elif st > 0 and q in ("uge", "sge"):
            found = val
        elif st > 0 and q in ("ugt", "sgt"):
            found = ladd(val, {1: abs(ONE)})
        elif st < 0 and q in ("ule", "sle"):
            found = val
        elif st < 0 and q in ("ult", "slt"):
            found = ladd(val, {1: -ONE})
        if found is not None:
            return found
    return None


def loop_bounds(fn, loop, partial=False):
    """[(phi ins, init lin, exclusive bound lin, step, test block)] for each induction whose bound ends the loop at every
    live exit; [] when some live exit is not a bound test (break, early return, ...), unless `partial`, in which case the
    exits that are bound tests decide."""
    ex = loop.live_exits()
    res = []
    for p, ini, st in loop.inductions():
        if st is None or st == 0 or not ex:
            continue
        bound, ok, tb = None, True, None
        for b, s in ex:
            found = exit_bound(fn, loop, b, s, p, st)
            if found is None and partial:
                continue
            if found is None or (bound is not None and bound != found):
                ok = False
                break
            bound, tb = found, b
        if ok and bound is not None:
            res.append((p, lin(ini), bound, st, tb))
    return res


def exhausted_edges(fn, loop, p, st):
    """Exit edges over which induction p has reached its bound."""
    return {(b, s) for b, s in loop.live_exits() if exit_bound(fn, loop, b, s, p, st) is not None}


def sync_bounds(fn, loop, bounds):
    """Extend bounds to the other inductions that advance in lockstep: value = init2 + (phi-init)*st2/st."""
    out = list(bounds)
    if not bounds:
        return out
    p0, i0, b0, s0, tb = bounds[0]
    for p, ini, st in loop.inductions():
        if st is None or st == 0 or any(p is q[0] for q in out):
            continue
        out.append((p, lin(ini), ladd(lin(ini), lscale(ladd(b0, i0, -1), st / s0)), st, tb))
    return out


def cover(fn, at, addr):
    """Cover of an access (address expression) executed at instruction `at`, over its innermost counted loop whose
    induction occurs in the address."""
    L = lin(addr)
    for loop in fn.loops_of(at):
        bs = sync_bounds(fn, loop, loop_bounds(fn, loop))
        for p, ini, bound, st, tb in bs:
            me = ("phi", p.id)
            if me not in L:
                continue
            if any(isinstance(z, tuple) and z[0] == "phi" and z != me and fn.ins[z[1]].b in loop.body for z in L):
                continue
            exb = {b for b, s in loop.live_exits()}
            fwd = within(fn, loop, at.b)
            before = not (fwd & exb) and at.b not in exb   # every test precedes the access in the iteration
            if not before and not all(fn.dominates_b(at.b, b) for b in exb):
                continue
            if not before:
                # do-while: access happens once more at the value that satisfies the exit test
                bound2 = ladd(bound, {1: st})
            else:
                bound2 = bound
            first = subst(L, me, ini)
            last = subst(L, me, bound2)
            stride = L[me] * st
            if stride < 0:
                first, last = ladd(last, {1: -stride}), ladd(first, {1: -stride})
                stride = -stride
            # must be executed in every iteration
            return Cover(first, last, stride, loop, p)
    return None


def within(fn, loop, b):
    """Blocks of the same iteration reachable after leaving block b."""
    seen, work = set(), [b]
    while work:
        x = work.pop()
        for s in fn.succ[x]:
            if s in loop.body and s != loop.head and s not in seen:
                seen.add(s)
                work.append(s)
    return seen


def every_iteration(fn, loop, ins):
    """ins is executed in every (normal) iteration of the loop: no path header -> latch avoiding it."""
    head = fn.blocks[loop.head][0]
    cut = fn.unwind_edges()
    inside = loop.body
    cut2 = cut | {(b, s) for b, s in loop.exits()}
    # path from loop head back to loop head avoiding ins
    if ins.b == loop.head:
        return True
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        if b == ins.b:
            continue
        for s in fn.succ[b]:
            if (b, s) in cut2 or s in seen:
                continue
            if s == loop.head:
                return False
            seen.add(s)
            work.append(s)
    return True


def vec_range(fn, base):
    """(begin, end) linear forms of the std::vector/span object at address expression base."""
    return lin(("ld", base)), lin(("ld", mkaddr(base, 8, ())))


# ---- opaque associative containers -----------------------------------------------------------
MAPOPS = {
    "contains": "query", "count": "query", "find": "find", "at": "lookup", "operator[]": "ref",
    "insert": "insert", "emplace": "insert", "try_emplace": "insert", "insert_or_assign": "insert", "emplace_hint": "insert",
    "erase": "erase", "erase_fast": "erase", "clear": "clear", "size": "size", "begin": "iter", "end": "iter", "cbegin": "iter",
    "cend": "iter", "empty": "size", "reserve": "reserve", "equal_range": "find", "swap": "swap", "operator=": "copy", "rehash": "reserve",
}
MAPRE = re.compile(r"^(?:tsl::robin_(?:map|set|pg_map|pg_set)|std::(?:__cxx11::)?(?:unordered_)?(?:map|set))::(~?[\w\[\]=]+(?: .*)?)$")


class MapOp:
    def __init__(self, fn, ins, kind, m, key=None, val=None):
        self.fn, self.ins, self.kind, self.map, self.key, self.val = fn, ins, kind, m, key, val

    def __repr__(self):
        return f"{self.kind}({self.fn.show_e(self.map)}, {self.fn.show_e(self.key) if self.key else ''}, {self.fn.show_e(self.val) if self.val else ''})@{self.ins.where}"


def map_ops(fn):
    """Operations on opaque hash maps/sets, with key and value expressions."""
    out = []
    for i in fn.all():
        if not i.is_call:
            continue
        m = MAPRE.match(i.name)
        if not m:
            continue
        op = m.group(1)
        k = MAPOPS.get(op)
        if k is None:
            if is_special(i.name):
                k = "ctor"
            else:
                k = "other:" + op
        sret = 1 if i.r.get("sret") else 0
        args = i.args[sret:]
        obj = fn.E(args[0])
        key = val = None
        pt = ir.param_types(i.r.get("d"))
        ps = pt[0] if pt else []
        if k in ("query", "find", "lookup"):
            key = keyval(fn, args[1], i, ps[0] if ps else "")
        elif k == "ref":
            key = keyval(fn, args[1], i, ps[0] if ps else "")
            ref = fn.EI(i)
            sts = [s for s in fn.all("store") if fn.E(s.ops[1]) == ref]
            for s in sts:
                out.append(MapOp(fn, s, "assign", obj, key, fn.E(s.ops[0])))
            if sts:
                continue
            k = "refread"
        elif k == "insert":
            rest = args[1:]
            if len(rest) == 1 and len(ps) == 1 and "pair<" in ps[0]:
                e = fn.E(rest[0])
                b, o, v = split(e)
                key, val = pair_at(fn, e, i)
            elif len(rest) == 1 and len(ps) == 1:
                key = keyval(fn, rest[0], i, ps[0])
            elif len(rest) >= 2:
                if op in ("emplace", "try_emplace", "insert_or_assign"):
                    key = keyval(fn, rest[0], i, ps[0] if ps else "")
                    val = keyval(fn, rest[1], i, ps[1] if len(ps) > 1 else "")
                else:
                    k = "insertrange"
            out.append(MapOp(fn, i, "assign" if k == "insert" else k, obj, key, val))
            continue
        elif k == "erase":
            if len(args) == 2:
                p0 = ps[0] if ps else ""
                if "iterator" in p0:
                    key = itkey(fn, args[1], i)
                else:
                    key = keyval(fn, args[1], i, p0)
            else:
                k = "eraserange"
        out.append(MapOp(fn, i, k, obj, key, val))
    return out


def is_special(n):
    p = n.split("::")
    return len(p) >= 2 and (p[-1] == p[-2] or p[-1].startswith("~"))


def keyval(fn, ref, at, ptype):
    """Key passed by reference or by value."""
    if ptype.endswith("&") or ptype.endswith("*") or "const&" in ptype or fn_is_ptr(fn, ref):
        return val_at(fn, ref, at)
    return fn.E(ref)


def fn_is_ptr(fn, ref):
    if "v" in ref:
        return fn.ins[ref["v"]].ty == "ptr"
    if "a" in ref:
        return fn.r["args"][ref["a"]]["ty"] == "ptr"
    return False


def pair_at(fn, e, at):
    """The two components of a std::pair<K,V> object held in an alloca (found by the store offsets)."""
    b, o, v = split(e)
    if b[0] != "alloca":
        return ("ld", e), None
    offs = sorted({so for s, so in fn.stores_raw(b[1]) if so is not None and so >= o})
    comp = []
    for so in offs:
        st = fn.reaching(b[1], so, at)
        if st and len({fn.E(s.ops[0]) for s in st}) == 1:
            comp.append(fn.E(st[0].ops[0]))
    if len(comp) >= 2:
        return comp[0], comp[1]
    return (comp[0] if comp else None), None


def itkey(fn, ref, at):
    """Key of the element an iterator obtained from find() refers to."""
    e = fn.E(ref)
    if split(e)[0][0] == "alloca":
        e = val_at(fn, ref, at)
    while e[0] in ("ev",):
        e = e[1]
    if e[0] == "call" and e[1].endswith("::find"):
        c = fn.ins[e[2]]
        args = c.args[(1 if c.r.get("sret") else 0):]
        return ("found", fn.E(args[0]), val_at(fn, args[1], c))
    return ("iter", e)


def lookup_value(fn, e):
    """If e is the value read from a map entry, return (map, key); understands at(), operator[], find()->second,
    and iteration *it. Otherwise None."""
    e = strip(e)
    if e[0] != "ld":
        return None
    a = e[1]
    b, o, v = split(a)
    if b[0] == "call":
        c = fn.ins[b[2]]
        n = c.name
        m = MAPRE.match(n)
        if m and m.group(1) in ("at", "operator[]") and o == 0 and not v:
            args = c.args[(1 if c.r.get("sret") else 0):]
            return fn.E(args[0]), val_at(fn, args[1], c), c
        if re.search(r"robin_iterator::(operator->|operator\*|value|key)$", n) or n.endswith("operator->") or n.endswith("operator*"):
            it = val_at(fn, c.args[0], c)
            while it[0] == "ev":
                it = it[1]
            if it[0] == "ld" and split(it[1])[0][0] == "call":
                pass
            if it[0] == "call" and it[1].endswith("::find"):
                f = fn.ins[it[2]]
                args = f.args[(1 if f.r.get("sret") else 0):]
                mp, key = fn.E(args[0]), val_at(fn, args[1], f)
                if n.endswith("::value") or o > 0:
                    return mp, key, c
                return ("key", mp, key, c) if False else None
    return None


# ---- roots and effects -------------------------------------------------------------------------
ACCESSOR = re.compile(r"::(get_datum|get_node|begin|end|cbegin|cend|data|operator\[\]|at|front|back|size|operator\*|operator->|get|prefetch|prefetch_datum|view|cview|n_nodes|max_degree|dimensions|get_node_degree|empty|capacity|element_size|operator\(\)|first|second|key|value|base|slice)$")


def root(fn, e, d=0, copies=True):
    """(base, offset) of the object graph a pointer expression reaches into: loads and accessors are followed back
    to the argument, local or global they start from. The offset is the one in that outermost object."""
    while d < 40:
        d += 1
        b, o, v = split(e)
        if b[0] == "alloca" and copies:
            src = copied_from(fn, b[1])
            if src is not None:
                e = mkaddr(src, o, ())
                continue
        if b[0] in ("arg", "alloca", "g"):
            return b, o
        if b[0] in ("ld",):
            e = b[1]
            continue
        if b[0] == "ev":
            e = b[1]
            continue
        if b[0] == "phi":
            # pointer induction: the initial value decides
            p = fn.ins[b[1]]
            for val, blk in p.r["inc"]:
                x = fn.E(val)
                if split(x)[0] != b and b not in set(walk(x)):
                    r = root(fn, x, d + 5)
                    if r is not None:
                        return r
            return None
        if b[0] == "sel":
            return root(fn, b[2], d + 5)
        if b[0] == "call":
            c = fn.ins[b[2]]
            a = c.args[(1 if c.r.get("sret") else 0):]
            if a and ACCESSOR.search(c.name):
                e = fn.E(a[0])
                continue
            return b, o
        return None
    return None


def copied_from(fn, aid):
    """Source of the object held in a local when the local is a plain (bitwise) copy of one object."""
    if not hasattr(fn, "_copies"):
        fn._copies = {}
        for i in fn.all():
            if i.is_call and i.name.startswith("llvm.memcpy"):
                b, o, v = split(fn.E(i.args[0]))
                if b[0] == "alloca":
                    fn._copies.setdefault(b[1], []).append((o, i))
    c = fn._copies.get(aid)
    if c and len(c) == 1 and c[0][0] == 0:
        src = fn.E(c[0][1].args[1])
        if split(src)[0] != ("alloca", aid):
            return src
    return None


class Eff:
    def __init__(self, ins, base, off, kind, addr, val, arg):
        self.ins, self.base, self.off, self.kind, self.addr, self.val, self.arg = ins, base, off, kind, addr, val, arg

    def __repr__(self):
        return f"{self.kind}@{self.ins.where}"


def effects(fn, want=None):
    """Stores and calls that may write through a pointer rooted in an argument, local or global."""
    out = []
    for i in fn.all():
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            a = fn.E(i.ops[1] if i.op == "store" else i.ops[0])
            r = root(fn, a)
            if r:
                out.append(Eff(i, r[0], r[1], "store", a, fn.E(i.ops[0]) if i.op == "store" else None, None))
        elif i.is_call:
            n = i.name
            if n.startswith("llvm.mem"):
                a = fn.E(i.args[0])
                r = root(fn, a)
                if r:
                    out.append(Eff(i, r[0], r[1], "mem", a, None, 0))
                continue
            if n.startswith("llvm.") or ACCESSOR.search(n):
                continue
            ro = readonly(i)
            for k, arg in enumerate(i.args):
                if not fn_is_ptr(fn, arg):
                    continue
                if k < len(ro) and ro[k]:
                    continue
                a = fn.E(arg)
                r = root(fn, a)
                if r:
                    out.append(Eff(i, r[0], r[1], n, a, None, k))
    if want is not None:
        out = [e for e in out if want(e)]
    return out


def readonly(call):
    return ir.readonly_args(call)


def writable_args(call):
    """The arguments through which the callee may write."""
    ro = readonly(call)
    return [a for k, a in enumerate(call.args) if not (k < len(ro) and ro[k])]


def mentions(fn, e, base, d=0):
    """The expression is computed from something rooted in base."""
    if e is None:
        return False
    for x in walk(e):
        if x == base:
            return True
        if isinstance(x, tuple) and x and x[0] == "call" and d < 6:
            c = fn.ins[x[2]]
            for a in c.args:
                if mentions(fn, fn.E(a), base, d + 1):
                    return True
    return False


def must_pass(fn, ins, blocks, cut=frozenset()):
    """Every path entry -> ins (not using cut edges) goes through one of the blocks."""
    return fn.entry in blocks or ins.b in blocks or ins.b not in fn.reachable(fn.entry, cut, frozenset(blocks)) or \
        fn.feasible((fn.entry, 0), lambda i: i is ins, cut, {fn.blocks[b][0].id for b in blocks}) is None


def forall_guards(fn, lo, hi, stride, pred, elem=None):
    """Loops that run over [lo, hi) and only continue to the next element when an atom satisfying pred(atom, elements)
    holds. lo/hi linear forms of addresses (or of integers, with stride 1 and elem='index').
    Returns the loops."""
    res = []
    for loop in fn.loops:
        bs = sync_bounds(fn, loop, loop_bounds_guarded(fn, loop, pred))
        elems = []
        for p, ini, bound, st, tb in bs:
            me = ("phi", p.id)
            if elem == "index":
                if ini == lo and bound == hi and st == 1:
                    elems.append(me)
                continue
            cand = set()
            for i in fn.all():
                if i.b not in loop.body:
                    continue
                if i.op == "load":
                    cand.add(fn.E(i.ops[0]))
                elif i.is_call:
                    cand |= {fn.E(x) for x in i.args if fn_is_ptr(fn, x)}
            for a in cand:
                L = lin(a)
                if me in L and subst(L, me, ini) == lo and subst(L, me, bound) == hi and L[me] * st == stride:
                    elems.append(("ld", a))
        if not elems:
            continue
        cut = {(b, s) for b, s in fn.edges() if b in loop.body and any(pred(x, elems) for x in fn.edge_atoms(b, s))}
        if cut and loop.head not in _reach_in(fn, loop, cut):
            res.append(loop)
    return res


def _reach_in(fn, loop, cut):
    seen, work = set(), [loop.head]
    while work:
        b = work.pop()
        for s in fn.succ[b]:
            if (b, s) in cut or s not in loop.body or s in seen:
                continue
            seen.add(s)
            work.append(s)
    return seen


def loop_bounds_guarded(fn, loop, pred):
    return loop_bounds(fn, loop)


def values(fn, e, d=0):
    """Possible value expressions of e, resolving loads of locals flow-insensitively and selecting phis' inputs."""
    e = strip(e)
    if d > 6:
        return [e]
    if e[0] == "ld":
        b, o, v = split(e[1])
        if b[0] == "alloca" and not v:
            st = [s for s, so in fn.stores_raw(b[1]) if so == o]
            if st and all(so is not None for s, so in fn.stores_raw(b[1])):
                out = []
                for s in st:
                    out += values(fn, fn.E(s.ops[0]), d + 1)
                return out
    return [e]


def call_of(fn, e, pat):
    """e is (possibly through a local) the result of a call whose simple name matches; returns the call instruction."""
    for x in values(fn, e):
        if x[0] == "call" and re.search(pat, x[1]):
            return fn.ins[x[2]]
    return None


def callarg(fn, c, k=0):
    """k-th explicit argument (after a struct-return slot)."""
    a = c.args[(1 if c.r.get("sret") else 0):]
    return fn.E(a[k]) if k < len(a) else None


def eq_atom(fn, f, g):
    """Predicate for atoms stating that an expression satisfying f equals one satisfying g."""
    return lambda a: a[0] == "cmp" and a[1] == "eq" and any((f(x) and g(y)) or (g(x) and f(y)) for x in values(fn, a[2]) for y in values(fn, a[3]))


def normal_ret_guarded(fn, pred, start=None):
    return all(fn.guarded(r, pred, start) for r in fn.rets())


# ---- tests of a value -----------------------------------------------------------------------------
def const_test(a):
    """Atom comparing something with a constant: (expr, pred, const), truth tests normalised to ne 0 / eq 0."""
    if a[0] == "true":
        return a[1], "ne", 0
    if a[0] == "false":
        return a[1], "eq", 0
    if a[0] == "cmp":
        l, r = strip(a[2]), strip(a[3])
        if r[0] == "c":
            return l, a[1], r[1]
        if l[0] == "c":
            return r, ir.CMPSWAP.get(a[1], a[1]), l[1]
    return None


def bit_test(a):
    """Atom testing one flag bit of a loaded byte: (address, mask, set?)."""
    t = const_test(a)
    if t is None:
        return None
    x, p, c = t
    mask = None
    while True:
        x = strip(x)
        if x[0] == "bin" and x[1] == "and" and x[3][0] == "c" and mask is None:
            mask, x = x[3][1], x[2]
        elif x[0] == "bin" and x[1].startswith("lshr") and x[3][0] == "c":
            mask, x = (mask if mask is not None else 1) << x[3][1], x[2]
        else:
            break
    if mask is None or x[0] != "ld":
        return None
    if p in ("eq", "ne") and c == 0:
        return x[1], mask, p == "ne"
    if p in ("eq", "ne") and c == mask:
        return x[1], mask, p == "eq"
    if p in ("ugt", "sgt") and c == 0:
        return x[1], mask, True
    return None


def value_test(a, domain):
    """Atom constraining a value over a small domain: (expr, set of values for which it holds)."""
    t = const_test(a)
    if t is None:
        return None
    x, p, c = t
    f = {"eq": lambda v: v == c, "ne": lambda v: v != c, "ult": lambda v: v < c, "slt": lambda v: v < c, "ule": lambda v: v <= c, "sle": lambda v: v <= c,
         "ugt": lambda v: v > c, "sgt": lambda v: v > c, "uge": lambda v: v >= c, "sge": lambda v: v >= c}.get(p)
    if f is None:
        return None
    return x, frozenset(v for v in domain if f(v))


def ret_atoms(fn):
    """Atoms equivalent to the (boolean) function returning true, when it is a single condition."""
    rs = fn.rets()
    if len(rs) != 1 or not rs[0].ops:
        return None
    return fn.E(rs[0].ops[0])


def truth_set(fn, expr, is_var, domain):
    """Values v of the domain for which boolean expression `expr` is true when the sub-expression satisfying is_var is v;
    None when the expression depends on anything else."""
    def ev(e, v):
        e = strip(e)
        if is_var(e):
            return v
        k = e[0]
        if k == "c":
            return e[1]
        if k == "tb":
            r = ev(e[1], v)
            return None if r is None else r & 1
        if k == "cmp":
            a, b = ev(e[2], v), ev(e[3], v)
            if a is None or b is None:
                return None
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b, "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}.get(e[1], 0))
        if k == "bin":
            a, b = ev(e[2], v), ev(e[3], v)
            if a is None or b is None:
                return None
            op = e[1].rstrip("x") if e[1] != "xor" else "xor"
            f = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b if b >= 0 else int(not a), "add": lambda: a + b, "sub": lambda: a - b, "shl": lambda: a << b, "lshr": lambda: a >> b}.get(op)
            return f() if f else None
        if k == "sel":
            c = ev(e[1], v)
            if c is None:
                return None
            return ev(e[2] if c else e[3], v)
        if k == "phi":
            if e in busy:
                return None
            busy.add(e)
            outs = set()
            i = fn.ins[e[1]]
            for val, b in i.r["inc"]:
                if feasible(b, i.b, v):
                    outs.add(ev(fn.E(val), v))
            busy.discard(e)
            return outs.pop() if len(outs) == 1 else None
        return None
    busy = set()

    def feasible(b, to, v):
        # the edge b->to and its dominating edges are consistent with the value
        for x, y in [(b, to)] + chain(b):
            t = fn.term(x)
            if t.op != "br" or len(fn.succ[x]) < 2:
                continue
            for a in fn.edge_atoms(x, y):
                r = atom_true(a, v)
                if r is False:
                    return False
        return True

    def chain(b):
        out = []
        n = 0
        while len(fn.pred[b]) == 1 and n < 20:
            out.append((fn.pred[b][0], b))
            b = fn.pred[b][0]
            n += 1
        return out

    def atom_true(a, v):
        if a[0] == "cmp":
            r = ev(("cmp", a[1], a[2], a[3]), v)
        elif a[0] in ("true", "false"):
            r = ev(a[1], v)
            r = None if r is None else (bool(r) == (a[0] == "true"))
        else:
            r = None
        return None if r is None else bool(r)
    out = set()
    for v in domain:
        r = ev(expr, v)
        if r is None:
            return None
        if r:
            out.add(v)
    return out


def container_values(fn, aid):
    """Value expressions put into a local container (push_back/emplace_back/insert of one element/element stores), with the
    instruction that puts them there. None as value when unknown."""
    out = []
    for i in fn.all():
        if i.is_call and re.search(r"::(push_back|emplace_back)$", i.name):
            a = i.args[(1 if i.r.get("sret") else 0):]
            if root(fn, fn.E(a[0])) and root(fn, fn.E(a[0]))[0] == ("alloca", aid) and len(a) > 1:
                out.append((i, val_at(fn, a[1], i) if fn_is_ptr(fn, a[1]) else fn.E(a[1])))
        elif i.op == "store":
            b, o, v = split(fn.E(i.ops[1]))
            if b[0] in ("ld", "call") and root(fn, b) and root(fn, b)[0] == ("alloca", aid):
                out.append((i, fn.E(i.ops[0])))
    return out
