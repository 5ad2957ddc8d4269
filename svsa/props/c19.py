"""C19 - the candidate buffers of graph search. Every operation of both buffers is analysed on its own, with the roles of the
members taken from the accessors: what reset, capacity changes, appending, insertion, sorting and handing out do to the stored
candidates, to the counters and to the cursor is decided on every path, case by case over the comparisons the code branches on.
Holding for one call from any state, the facts hold for every history of calls."""
from ..lib import *
from ..ir import lin, ladd, walk, split
from . import c18
from .c05 import callargs

POL = """opaque ^std::(sort|stable_sort|lower_bound|upper_bound|partition_point|copy_backward|move_backward|remove_if|vector::)
inline ^std::vector::(operator\\[\\]|data|begin|end|cbegin|cend|back|front|size|empty)$
opaque ^svs::index::vamana::VisitedFilter::
"""
FPOL = "opaque ^std::vector::\ninline ^std::vector::(operator\\[\\]|data|begin|end|cbegin|cend|size)$\n"
OPS = "place append sort clear done next full size at best window ctor change_maxsize change_config seen filtering".split()
SWAP = {"olt": "ogt", "ogt": "olt", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}
RELS = {"<": {"ult", "slt", "ule", "sle", "ne"}, "=": {"eq", "ule", "uge", "sle", "sge"}, ">": {"ugt", "sgt", "uge", "sge", "ne"}}


def check(ctx):
    ctx.rule("reset", "clear() zeroes every counter and the cursor, empties the list and resets the visited filter, on every path")
    ctx.rule("room", "construction and both ways of changing the capacity set capacity, window and storage to what was asked for, and keep the size within it")
    ctx.rule("full", "the buffer is full exactly when the number of counted candidates has reached the capacity")
    ctx.rule("append", "push_back stores the candidate behind the last one and counts it; it refuses only when full")
    ctx.rule("skip", "a candidate is turned away without looking for its place only when the buffer is full and its last candidate is strictly better")
    ctx.rule("place", "a candidate is inserted at its place in the whole sorted list, nothing else is overwritten, and the size grows by one up to the capacity")
    ctx.rule("twice", "insertion is given up for an id only when that id is in the list, and goes ahead only after all candidates that are not strictly better were compared")
    ctx.rule("cursor", "the next candidate handed out is the one at the cursor, it is marked, the cursor moves past marked candidates only, falls back to every insertion before it, and the search is done exactly when it reaches the end of the window")
    ctx.rule("account", "the number of valid candidates follows every candidate added or dropped")
    ctx.rule("window", "the end of the window of the mutable buffer stays one past its target-th valid candidate, or at the end of the list while there are fewer")
    ctx.rule("trim", "only candidates behind the window or behind the capacity-th valid one are dropped")
    ctx.rule("width", "positions in the list are kept in full width")
    ctx.rule("order", "sort() sorts the whole list")
    ctx.rule("filter", "the visited filter never confuses two ids and forgets everything when reset")
    E = lambda ns: "".join(c18.TOTAL.format(n) for n in ns)
    labels = [f"{k}_{o}" for k in "sm" for o in OPS] + ["s_capacity", "m_target", "m_valid_count", "m_valid"]
    cmps = ("std::less<>", "std::greater<>")
    ms = ctx.analyse_all([("buffer.cpp", POL + E(labels), {"extra": ["-DCMP=" + c]}) for c in cmps] + [("buffer.cpp", FPOL + E(["f_contains", "f_emplace", "f_reset"]))])
    for c, m in zip(cmps, ms):
        for k in "sm":
            Buf(ctx, m, k, "olt" if "less" in c else "ogt", f"{'static' if k == 's' else 'mutable'} buffer, {c[5:-2]}: ").run()
    filter_(ctx, ms[2])
    for r, n in (("reset", 16), ("room", 24), ("full", 4), ("append", 10), ("skip", 8), ("place", 12), ("twice", 8), ("cursor", 24), ("account", 6), ("window", 8), ("trim", 6), ("order", 4), ("filter", 4)):
        ctx.minimum(r, n)


def retval(fn):
    rs = [r for r in fn.rets() if r.ops]
    return fn.E(rs[0].ops[0]) if len(rs) == 1 else None


def is_ret(i):
    return i.op == "ret"


class Buf:
    def __init__(self, ctx, m, k, better, pre):
        self.ctx, self.k, self.bet, self.pre = ctx, k, better, pre
        self.vals = {}
        self.fn = {o: ctx.one(m, f"{k}_{o}") for o in OPS}
        self.static = k == "s"
        at = split(retval(self.fn["at"]))
        ctx.need(at[0][0] == "ld" and len(at[2]) == 1 and at[1] == 0, "operator[] addresses the candidate list")
        self.begin, self.step = at[0], at[2][0][1]
        fld = lambda o: retval(o)
        self.best, self.window = fld(self.fn["best"]), fld(self.fn["window"])
        self.on = next((x for x in walk(fld(self.fn["filtering"]) or ("c", 0)) if x[0] == "ld"), None)
        if self.static:
            self.size = fld(self.fn["size"])
            self.cap = fld(ctx.one(m, "s_capacity"))
            self.count = self.size
            self.fin = None
        else:
            self.cap, self.count = fld(ctx.one(m, "m_target")), fld(ctx.one(m, "m_valid_count"))
            self.size = retval(self.fn["size"])
            self.fin = next((e for e in walk(self.size) if e[0] == "ld" and e != self.begin), None)
            ctx.need(self.fin is not None, "size of the list")
        for n in ("best", "window", "cap", "count"):
            ctx.need(getattr(self, n) is not None and getattr(self, n)[0] == "ld" and self.member(getattr(self, n)[1]), f"{pre}member behind {n}")
        self.seenf = self.form(retval(self.fn["seen"]))
        self.validf = None if self.static else self.form(retval(ctx.one(m, "m_valid")))
        # the remaining counter of the mutable buffer: written when appending, neither of the others
        self.roi = None
        if not self.static:
            rest = [a for a in self.counters(self.fn["append"]) if a not in (self.best[1], self.count[1], self.window[1], self.cap[1])]
            ctx.need(len(set(rest)) == 1, "end of window")
            self.roi = ("ld", rest[0])
        # layout of a candidate, from what is stored when one is handed over
        self.dist = self.idoff = None
        ap = self.fn["append"]
        for s in ap.all("store"):
            b, o, v = split(ap.E(s.ops[1]))
            if ap.E(s.ops[0]) == ("arg", 2):
                self.dist = o % self.step if not v or self.static else o
        self.idoff = self.find_id()
        ctx.need(self.dist is not None and self.idoff is not None, "layout of a candidate")

    def find_id(self):
        ap = self.fn["append"]
        for s in ap.all("store"):
            e, o = ap.E(s.ops[0]), split(ap.E(s.ops[1]))[1]
            if e == ("arg", 1):
                return o
            for x in walk(e):
                if x[0] == "bin" and x[1] == "shl" and x[2] == ("arg", 1) and x[3][0] == "c":
                    return o + x[3][1] // 8
        return None

    # -------------------------------------------------------------- recognisers
    def member(self, a):
        b, o, v = split(a)
        return b == ("arg", 0) and not v

    def counters(self, fn):
        return [fn.E(s.ops[1]) for s in fn.all("store") if self.member(fn.E(s.ops[1]))]

    def form(self, e):
        """Shape of a flag test: the expression with the loaded byte replaced, and the byte's offset."""
        off = []

        def go(x):
            if x[0] == "ld":
                off.append(split(x[1])[1])
                return ("*",)
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        e = e or ("c", 0)
        e = strip(e)
        mask = next((x[3][1] for x in walk(e) if x[0] == "bin" and x[1] == "and" and x[3][0] == "c"), None)
        lds = [x for x in walk(e) if x[0] == "ld"]
        return (split(lds[0][1])[1] if lds else 0, mask)

    def addr_index(self, a):
        """(base, linear index, offset inside the candidate) of an address in the list."""
        b, o, v = split(a)
        idx = ladd({}, {}) if False else lin(("c", 0))
        for x, s in v:
            if s == self.step:
                idx = ladd(idx, lin(x))
            elif s == 1:
                # byte distance between two positions of the list
                l = lin(x)
                if self.fin is not None and l == ladd(lin(self.fin), lin(self.begin), -1) and b == self.begin:
                    b = self.fin
                else:
                    return None
            else:
                return None
        q = o // self.step
        idx = ladd(idx, lin(("c", q)))
        if self.fin is not None and b == self.fin:
            b, idx = self.begin, ladd(idx, lin(self.size))
        return b, idx, o - q * self.step

    def elem(self, e, off=None):
        """(base, index) when e loads a candidate's part at the offset."""
        if e[0] != "ld":
            return None
        r = self.addr_index(e[1])
        return (r[0], r[1]) if r and (off is None or r[2] == off) else None

    def flag(self, a, f):
        """(base, index, truth) of an atom testing a flag of a stored candidate."""
        off, mask = f
        if a[0] in ("true", "false"):
            e, t = strip(a[1]), a[0] == "true"
        elif a[0] == "cmp" and a[1] in ("eq", "ne") and a[3] == ("c", 0):
            e, t = strip(a[2]), a[1] == "ne"
        else:
            return None
        if e[0] == "bin" and e[1] == "and" and e[3][0] == "c":
            if mask is not None and e[3][1] != mask:
                return None
            e = strip(e[2])
        elif mask not in (None, 1):
            return None
        r = self.elem(e, off)
        return (r[0], r[1], t) if r else None

    def rel(self, a, x, y):
        """Predicate of an atom comparing x with y."""
        if a[0] != "cmp":
            return None
        if (a[2], a[3]) == (x, y):
            return a[1]
        if (a[3], a[2]) == (x, y):
            return SWAP.get(a[1])
        # differences compared with zero
        if a[3] == ("c", 0) and a[1] in SWAP and lin(a[2]) == ladd(lin(x), lin(y), -1) and a[1][0] in "se":
            return a[1]
        return None

    def arg_valid(self, a):
        """Truth of the handed-over candidate's validity implied by an atom."""
        if a[0] in ("true", "false"):
            e, want = a[1], a[0] == "true"
        elif a[0] == "cmp" and a[1] in ("eq", "ne") and a[3][0] == "c":
            e, want = a[2], None
        else:
            return None
        if ("arg", 3) not in list(walk(e)):
            return None
        out = []
        for v in (0, 1):
            r = ev(e, v)
            if r is None:
                return None
            out.append(bool(r & 1) == want if want is not None else (r == a[3][1]) == (a[1] == "eq"))
        return None if out[0] == out[1] else out[1]

    def stores(self, fn, fld):
        """Where a member gets its value: its stores, a store of several merged values at the blocks the values come from."""
        out = []
        for s in fn.all("store"):
            if fn.E(s.ops[1]) == fld[1]:
                self.sources(fn, s, fn.E(s.ops[0]), fld, out, set())
        return out

    def sources(self, fn, at, e, fld, out, seen):
        k = strip(e)
        if k[0] == "phi" and k not in seen:
            phi = fn.ins[k[1]]
            if not any(l.head == phi.b for l in fn.loops) and all(len(fn.succ[b]) == 1 or any(b in l.body and phi.b not in l.body for l in fn.loops) for v, b in phi.r["inc"]):
                seen.add(k)
                for v, b in phi.r["inc"]:
                    self.sources(fn, fn.term(b), fn.E(v), fld, out, seen)
                return
        self.vals[id(at), fld[1]] = e
        if at not in out:
            out.append(at)

    def V(self, fn, s, fld):
        return self.vals[id(s), fld[1]]

    def ob(self, rule, inst, ok, where="", why=""):
        return self.ctx.ob(rule, self.pre + inst, bool(ok), where, why)

    def cut(self, fn, *preds):
        c = set(fn.unwind_edges())
        for p in preds:
            c |= fn.cut_for(p)
        return c

    def must(self, fn, start, through, cut=()):
        """Every normal path from start to a return passes one of the instructions."""
        return bool(through) and fn.path(start, is_ret, cut=set(fn.unwind_edges()) | set(cut), avoid=list(through)) is None

    # -------------------------------------------------------------- the operations
    def run(self):
        self.reset()
        self.rooms()
        self.fulls()
        self.append()
        self.place()
        self.hand_out()
        self.sorting()

    def zeroed(self, fn, fld):
        return [s for s in self.stores(fn, fld) if self.V(fn, s, fld) == ("c", 0)]

    def reset(self):
        fn = self.fn["clear"]
        for n, f in self.fields():
            z = self.zeroed(fn, f)
            ok = self.must(fn, None, z) and not any(s not in z for s in self.stores(fn, f))
            self.ob("reset", f"clear(): {n}", ok, fn.name, f"{n} keeps its value from the previous query on some path")
        if not self.static:
            e = [c for c in fn.all() if c.is_call and (c.name.endswith("::clear") or c.name.endswith("::resize") and fn.E(c.args[1]) == ("c", 0)) and fn.E(c.args[0]) == self.begin[1]]
            e += [s for s in fn.all("store") if fn.E(s.ops[1]) == self.fin[1] and fn.E(s.ops[0]) == self.begin]
            self.ob("reset", "clear(): list", self.must(fn, None, e), fn.name, "the candidates of the previous query stay in the list")
        r = fn.calls(r"VisitedFilter::(reset|VisitedFilter)$")
        def disabled(a):
            e = a[1] if a[0] == "false" else a[2] if a[0] == "cmp" and a[1] == "eq" and a[3] == ("c", 0) else None
            return e is not None and any(x == self.on for x in walk(e)) and len([x for x in walk(e) if x[0] == "ld"]) == 1
        off = self.cut(fn, disabled)
        self.ob("reset", "clear(): visited filter", r and fn.path(None, is_ret, cut=off, avoid=r) is None, fn.name, "ids visited by the previous query stay marked although the filter is in use")

    def fields(self):
        return [("size", self.count), ("cursor", self.best)] + ([] if self.static else [("end of window", self.roi)])

    def rooms(self):
        for o, w, c in (("ctor", ("arg", 1), ("arg", 2)), ("change_maxsize", ("arg", 1), ("arg", 1)), ("change_config", ("arg", 1), ("arg", 2))):
            fn = self.fn[o]
            for n, f, v in (("window", self.window, w), ("capacity", self.cap, c)):
                ss = self.stores(fn, f)
                vals = {self.V(fn, s, f) for s in ss}
                ok = vals and all(strip_trunc(x) == v for x in vals) and self.must(fn, None, ss)
                self.ob("room", f"{o}: {n}", ok, fn.name, f"the {n} stored is not the one asked for")
                for s in ss:
                    e = self.V(fn, s, f)
                    if e[0] == "trunc":
                        bits = int(e[1][1:])
                        self.ob("room", f"{o}: {n} fits", fn.guarded(s, lambda a: fits(a, v, bits)), s.where, f"a {n} beyond {bits} bits is cut off instead of refused")
            if self.static:
                st = [x for x in fn.all() if x.is_call and x.name.endswith(("vector::vector", "vector::resize", "vector::assign")) and fn.E(x.args[0]) == self.begin[1]]
                ok = st and all(lin(fn.E(x.args[1])) == ladd(lin(c), lin(("c", 1))) for x in st) and self.must(fn, None, st)
                self.ob("room", f"{o}: storage", ok, fn.name, "the storage does not hold the capacity and the one candidate being shifted out")
                if o != "ctor":
                    ss = self.stores(fn, self.size)
                    ok = self.must(fn, None, ss, self.cut(fn, lambda a: self.rel(a, self.size, c) in ("ule", "ult"), lambda a: self.rel(a, self.size, self.cap) in ("ule", "ult"))) or False
                    ok = ok and all(self.clamped(self.V(fn, s, self.size), c) or self.V(fn, s, self.size) == c and fn.guarded(s, lambda a: self.rel(a, self.size, c) in ("ugt", "uge") or self.rel(a, self.size, self.cap) in ("ugt", "uge")) for s in ss)
                    self.ob("room", f"{o}: size", ok, fn.name, "more candidates than the new capacity stay counted")
            if o == "ctor":
                for n, f in self.fields():
                    self.ob("room", f"{o}: {n}", self.must(fn, None, self.zeroed(fn, f)), fn.name, f"{n} of a new buffer is not zero")
                if not self.static:
                    mk = [x for x in fn.all() if x.is_call and x.name.endswith("vector::vector") and fn.E(x.args[0]) == self.begin[1] and len(x.args) > 2]
                    cl = [x for x in fn.all() if x.is_call and x.name.endswith("vector::clear") and fn.E(x.args[0]) == self.begin[1]]
                    self.ob("room", f"{o}: list", not mk or all(self.must(fn, x, cl) for x in mk), fn.name, "a new buffer does not start empty")

    def clamped(self, e, c):
        return e[0] == "umin" and self.size in e[1:] and (c in e[1:] or self.cap in e[1:])

    def fulls(self):
        e = strip(retval(self.fn["full"]))
        ok = e[0] == "cmp" and self.rel(e[:4], self.count, self.cap) in ("eq", "uge")
        self.ob("full", "full()", ok, self.fn["full"].name, "full() is not equivalent to having reached the capacity")

    def fulledge(self, a):
        return self.rel(a, self.count, self.cap) in ("eq", "uge", "sge")

    def append(self):
        fn = self.fn["append"]
        if self.static:
            put = [s for s in fn.all("store") if fn.E(s.ops[0]) == ("arg", 2)]
            ok = put and all(self.addr_index(fn.E(s.ops[1])) == (self.begin, lin(self.size), self.dist) for s in put)
            self.ob("append", "push_back: position", ok, fn.name, "the candidate is not stored behind the last one")
            ss = self.stores(fn, self.size)
            ok = ss and all(lin(self.V(fn, s, self.size)) == ladd(lin(self.size), lin(("c", 1))) for s in ss) and all(self.must(fn, p, ss) or self.before(fn, ss, p) for p in put) and not any(fn.path(a, b) for a in ss for b in ss)
            self.ob("append", "push_back: counted", ok, fn.name, "an appended candidate is not counted exactly once")
            for p in put + ss:
                self.ob("append", "push_back: only below the capacity", fn.guarded(p, lambda a: self.rel(a, self.size, self.cap) in ("ne", "ult")), p.where, "a candidate is appended to a full buffer")
            self.ob("append", "push_back: refused", put and fn.path(None, is_ret, cut=self.cut(fn, self.fulledge), avoid=put) is None, fn.name, "a candidate is refused although there is room")
            return
        put = [c for c in fn.all() if c.is_call and c.name.endswith(("vector::push_back", "vector::emplace_back")) and fn.E(c.args[0]) == self.begin[1]]
        ok = put and fn.path(None, is_ret, cut=self.cut(fn, self.fulledge), avoid=put) is None and fn.path(None, is_ret, cut=self.cut(fn, lambda a: self.arg_valid(a) is True), avoid=put) is None
        self.ob("append", "push_back: refused", ok, fn.name, "a candidate is refused although there is room for valid ones or it is not valid")
        self.ob("append", "push_back: at most once", not any(fn.path(a, b) for a in put for b in put), fn.name, "a candidate is appended twice")
        self.count_arg(fn, put, "push_back")
        for p in put:
            ok = fn.path(None, p, cut=self.contrary(fn, [("count", "="), ("valid", 1)])) is None
            self.ob("append", "push_back: only below the capacity", ok, p.where, "a valid candidate is appended to a full buffer")
            rs = self.stores(fn, self.roi)
            ok = self.must(fn, p, rs) and all(self.V(fn, s, self.roi) == self.size and not any(fn.path(s, q) for q in put) for s in rs)
            self.ob("append", "push_back: window", ok, p.where, "the window does not cover the appended candidate")

    def before(self, fn, ss, p):
        """One of the stores lies on every path to p."""
        return fn.path(None, p, avoid=list(ss)) is None

    def count_arg(self, fn, put, what):
        """valid += validity of the candidate, once per candidate put into the list."""
        ss = [s for s in self.stores(fn, self.count) if self.plus(self.V(fn, s, self.count)) is not None]
        for p in put:
            for v in (0, 1):
                cut = self.contrary(fn, [("valid", v)])
                on = [s for s in ss if self.plus(self.V(fn, s, self.count), v)]
                reach = [s for s in on if fn.path(None, s, cut=cut) and (fn.path(s, p, cut=cut) or fn.path(p, s, cut=cut))]
                if v:
                    ok = reach and (fn.path(None, p, cut=cut, avoid=reach) is None or self.must(fn, p, reach, cut)) and not any(fn.path(a, b, cut=cut) for a in reach for b in reach)
                    self.ob("account", f"{what}: a valid candidate", ok, p.where, "a valid candidate put into the list is not counted exactly once")
                else:
                    self.ob("account", f"{what}: a deleted candidate", not reach, p.where, "a candidate that is not valid is counted")

    def plus(self, e, v=None):
        """The amount (for validity v) added to the counter by a stored value, None when it is no addition."""
        d = ladd(lin(e), lin(self.count), -1)
        if d == lin(("c", 1)):
            return 1
        if e[0] == "bin" and e[1] == "add" and self.count in e[2:4]:
            o = e[3] if e[2] == self.count else e[2]
            r = [ev(o, x) for x in (0, 1)]
            if None not in r and r[0] == 0 and r[1] == 1:
                return r[v] if v is not None else 1
        return None

    def contrary(self, fn, case):
        """Edges that cannot be taken in the given case."""
        def no(a):
            for k, v in case:
                if k == "valid":
                    r = self.arg_valid(a)
                    if r is not None and r != bool(v):
                        return True
                elif k == "below":
                    r = self.below(a)
                    if r is not None and r != bool(v):
                        return True
                else:
                    x, y = {"count": (self.count, self.cap), "target": (self.count, self.window), "split": (self.window, self.cap)}[k]
                    r = self.rel(a, x, y)
                    if r is not None and r not in RELS[v]:
                        return True
            return False
        out = set(fn.unwind_edges())
        for b, s in fn.edges():
            ats = fn.edge_atoms(b, s)
            if any(no(a) for a in ats):
                out.add((b, s))
            for a in ats:
                if a[0] == "nand" and all(self.holds(x, case) for x in a[1:3]):
                    out.add((b, s))
                elif a[0] == "or" and all(any(no(t) for t in implied_(x, True, fn)) for x in a[1:3]):
                    out.add((b, s))
        return out

    def holds(self, e, case):
        """The condition certainly holds in the case."""
        at = implied_(e, False, None)
        e = strip(e)
        for k, v in case:
            for a in at:
                if k == "valid":
                    r = self.arg_valid(a)
                    if r is not None and r != bool(v):
                        return True
                elif k in ("count", "target", "split"):
                    x, y = {"count": (self.count, self.cap), "target": (self.count, self.window), "split": (self.window, self.cap)}[k]
                    r = self.rel(a, x, y)
                    if r is not None and r not in RELS[v]:
                        return True
        return False

    def below(self, a):
        """Truth of 'inserted before the end of the window' implied by an atom."""
        if a[0] != "cmp":
            return None
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], SWAP.get(a[1]))):
            if y == self.roi and self.is_index(x):
                return {"ult": True, "uge": False, "slt": True, "sge": False}.get(p)
        return None

    def is_index(self, e):
        """The position found, as an index from the beginning of the list."""
        e = strip(e)
        if e[0] == "bin" and e[1] in ("sdivx", "udivx", "sdiv", "udiv", "lshr", "ashr") and e[3][0] == "c":
            return e[3][1] == self.step and self.pos is not None and lin(e[2]) == ladd(lin(self.pos), lin(self.begin), -1)
        return False

    def place(self):
        fn = self.fn["place"]
        found = [c for c in fn.all() if c.is_call and c.name in ("std::lower_bound", "std::upper_bound")]
        self.pos = None
        ok = len(found) == 1
        if ok:
            c = found[0]
            self.pos = ("call", c.name, c.id) if False else fn.E({"i": c.id}) if False else fn.EI(c)
            a = [fn.E(x) for x in c.args]
            end = self.addr_index(a[1])
            ok = a[0] == self.begin and end == (self.begin, lin(self.size), 0) and self.dist_arg(fn, c, a[2])
        if not self.ob("place", "insert: place", ok, fn.name, "the place of a candidate is not looked up by its distance in the whole list"):
            return
        pos = self.pos
        if self.static:
            put = [s for s in fn.all("store") if fn.E(s.ops[0]) == ("arg", 2) and split(fn.E(s.ops[1]))[0][0] != "alloca"]
            ok = put and all(self.addr_index(fn.E(s.ops[1])) in ((pos, lin(("c", 0)), self.dist),) or self.at_index(fn.E(s.ops[1])) for s in put)
            self.ob("place", "insert: stored", ok, fn.name, "the candidate is not stored at its place")
            sh = [c for c in fn.all() if c.is_call and c.name in ("std::copy_backward", "std::move_backward")]
            ok = sh and all(self.shift(fn, c) for c in sh)
            ok = ok or self.shift_loop(fn)
            first = sh or self.shift_loop(fn)
            ok = ok and all(self.before(fn, first, p) for p in put) and not any(fn.path(p, c) for p in put for c in first)
            self.ob("place", "insert: shifted", ok, fn.name, "the candidates behind the place are not moved up by one before it is overwritten")
            ss = self.stores(fn, self.size)
            grow = lambda e: e[0] == "umin" and self.cap in e[1:] and any(lin(x) == ladd(lin(self.size), lin(("c", 1))) for x in e[1:])
            one = lambda s: lin(self.V(fn, s, self.size)) == ladd(lin(self.size), lin(("c", 1))) and fn.guarded(s, lambda a: self.rel(a, self.size, self.cap) in ("ne", "ult"))
            fe = self.cut(fn, self.fulledge)
            ok = ss and all(grow(self.V(fn, s, self.size)) or one(s) for s in ss) and all(self.must(fn, p, ss, fe if all(one(s) for s in ss) else ()) for p in put)
            self.ob("place", "insert: size", ok and not any(fn.path(a, b) for a in ss for b in ss), fn.name, "the size does not grow by one up to the capacity")
            self.ob("place", "insert: counted only when stored", all(self.before(fn, put, s) for s in ss), fn.name, "the size grows without a candidate being stored")
            self.dup(fn, put)
        else:
            put = [c for c in fn.all() if c.is_call and c.name.endswith(("vector::insert", "vector::emplace")) and fn.E(c.args[0]) == self.begin[1]]
            ok = put and all(self.insert_pos(fn.E(c.args[1])) for c in put)
            self.ob("place", "insert: stored", ok, fn.name, "the candidate is not inserted at its place")
            self.ob("place", "insert: once", put and not any(fn.path(a, b) for a in put for b in put), fn.name, "the candidate is inserted twice")
            self.count_arg(fn, put, "insert")
            self.dup(fn, put)
            for p in put:
                self.table(fn, p)
                self.trims(fn, p)
        ss = self.stores(fn, self.best)
        isx = lambda e: e[0] == "umin" and self.best in e[1:] and any(self.is_index(x) for x in e[1:])
        low = lambda s: self.is_index(self.V(fn, s, self.best)) and fn.guarded(s, lambda a: self.cursor_above(a) is True)
        for s in ss:
            e = self.V(fn, s, self.best)
            self.ob("width", "insert: cursor", not any(x[0] == "trunc" for x in walk(e)), s.where, "the position of the insertion is cut off before it is compared with the cursor")
        ok = ss and all(isx(self.V(fn, s, self.best)) or low(s) for s in ss)
        keep = self.cut(fn, lambda a: self.cursor_above(a) is False) if not any(isx(self.V(fn, s, self.best)) for s in ss) else ()
        ok = ok and all(self.must(fn, p, ss, keep) for p in put)
        self.ob("cursor", "insert: cursor", ok, fn.name, "the cursor does not fall back to a candidate inserted before it")
        if not self.static:
            for f, s in [(f, s) for f in (self.roi, self.count) for s in self.stores(fn, f)]:
                self.ob("width", "insert: counters", not any(x[0] == "trunc" and ("arg", 3) not in list(walk(x)) for x in walk(self.V(fn, s, f))), s.where, "a position or count in the list is cut off: the list also holds deleted candidates and is not bounded by the capacity")

    def cursor_above(self, a):
        """Truth of 'inserted before the cursor' implied by an atom."""
        if a[0] != "cmp":
            return None
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], SWAP.get(a[1]))):
            if y == self.best and self.is_index(x):
                return {"ult": True, "ule": True, "uge": False, "ugt": False}.get(p)
        return None

    def dist_arg(self, fn, c, a):
        if a[0] != "alloca":
            return False
        return any(s.ops[1] and fn.E(s.ops[1]) == a and fn.E(s.ops[0]) == ("arg", 2) for s in fn.all("store"))

    def at_index(self, a):
        r = self.addr_index(a)
        return bool(r) and r[0] == self.begin and r[2] == self.dist and len(r[1]) == 1 and any(self.is_index(k) for k in dict(r[1]))

    def insert_pos(self, e):
        if e == self.pos:
            return True
        r = self.addr_index(e)
        return bool(r) and r[0] == self.begin and r[2] == 0 and any(k is not None and not isinstance(k, int) and self.is_index(k) for k in keys(r[1]))

    def shift(self, fn, c):
        a = [fn.E(x) for x in c.args]
        return (a[0] == self.pos or self.insert_pos(a[0])) and self.addr_index(a[1]) == (self.begin, lin(self.size), 0) and self.addr_index(a[2]) == (self.begin, ladd(lin(self.size), lin(("c", 1))), 0)

    def shift_loop(self, fn):
        """A loop moving every candidate from the end down to the place up by one: the instructions that end it."""
        for l in fn.loops:
            for phi in [i for i in fn.blocks[l.head] if i.op == "phi"]:
                P = ("phi", phi.id)
                ini = [fn.E(v) for v, b in phi.r["inc"] if b not in l.body]
                nxt = [fn.E(v) for v, b in phi.r["inc"] if b in l.body]
                if not all(self.addr_index(e) == (self.begin, lin(self.size), 0) for e in ini) or not all(split(e) == (P, -self.step, ()) for e in nxt):
                    continue
                moves, got = [], set()
                for i in [i for b in l.body for i in fn.blocks[b]]:
                    if i.is_call and i.name.startswith(("llvm.memcpy", "llvm.memmove")) and fn.E(i.args[2]) == ("c", self.step) and fn.E(i.args[0]) == P and split(fn.E(i.args[1])) == (P, -self.step, ()):
                        moves.append(i)
                        got = set(range(self.step))
                    if i.op == "store":
                        b, o, v = split(fn.E(i.ops[1]))
                        e = fn.E(i.ops[0])
                        if b == P and not v and e[0] == "ld" and split(e[1]) == (P, o - self.step, ()):
                            moves.append(i)
                            got |= set(range(o, o + i.r["size"]))
                done = lambda a: a[0] == "cmp" and a[1] in ("eq", "ule") and {a[2], a[3]} == {P, self.pos}
                out = [(b, s) for b, s in fn.edges() if b in l.body and s not in l.body]
                if got == set(range(self.step)) and all(every_iteration(fn, l, m) for m in moves) and out and all(any(done(a) for a in fn.edge_atoms(b, s)) for b, s in out):
                    return [phi]
        return []

    # -------------------------------------------------------------- duplicates
    def dup(self, fn, put):
        ideq = lambda a: a[0] == "cmp" and a[1] == "eq" and self.id_of(a) is not None
        worse = lambda a: self.bt(a) is not None
        back = lambda a: self.bt(a) == (self.begin, ladd(lin(self.size), lin(("c", -1))))
        known = self.cut(fn, ideq)
        self.ob("skip", "insert: turned away only when full", fn.path(None, is_ret, cut=known | self.cut(fn, self.fulledge), avoid=put) is None, fn.name, "a candidate is turned away although the buffer is not full and its id is new")
        self.ob("skip", "insert: turned away only when worse", fn.path(None, is_ret, cut=known | self.cut(fn, back), avoid=put) is None, fn.name, "a candidate is turned away although the last candidate kept is not strictly better and its id is new")
        # the scan
        loops = {}
        for b, s in fn.edges():
            for a in fn.edge_atoms(b, s):
                i = self.id_of(a)
                if i is not None:
                    for l in fn.loops:
                        if b in l.body:
                            loops.setdefault(l.head, (l, i))
        ok = len(loops) == 1
        if not self.ob("twice", "insert: scan", ok, fn.name, "ids are not compared with the candidates around the place in one loop"):
            return
        l, tested = next(iter(loops.values()))
        empty = lambda a: a[0] == "cmp" and a[1] == "eq" and {a[2], a[3]} == {self.pos, self.begin}
        atbegin = lambda a: a[0] == "cmp" and a[1] in ("eq", "ule") and self.begin in (a[2], a[3]) and self.same_elem(a[2] if a[3] == self.begin else a[3], tested)
        phibegin = lambda a: a[0] == "cmp" and a[1] in ("eq", "ule") and self.begin in (a[2], a[3]) and (a[2] if a[3] == self.begin else a[3])[0] == "phi"
        strictly = lambda a: self.bt(a) is not None and self.bt(a) == tested
        c = self.cut(fn, empty, atbegin, phibegin, strictly)
        self.ob("twice", "insert: goes ahead only after the scan", all(fn.path(None, p, cut=c) is None for p in put), l.head and fn.name, "a candidate is inserted without every candidate that is not strictly better having been compared with its id")
        ne = self.cut(fn, lambda a: a[0] == "cmp" and a[1] == "ne" and self.id_of(a) == tested)
        # one step back per round, compared in every round
        base, idx = tested
        phis = [i for i in fn.blocks[l.head] if i.op == "phi"]
        ok = False
        for ph in phis:
            if base != ("phi", ph.id):
                continue
            ins = [(fn.E(v), b) for v, b in ph.r["inc"]]
            start = [e for e, b in ins if b not in l.body]
            nxt = [e for e, b in ins if b in l.body]
            ok = all(e == self.pos for e in start) and all(self.addr_index(e) == (base, lin(("c", -1)), 0) or e == ("phi", ph.id) for e in nxt) and idx == lin(("c", -1))
        self.ob("twice", "insert: one step at a time", ok, fn.name, "the scan does not go back from the place one candidate at a time")
        lt = [b for b in l.latches]
        ok = all(fn.reach_in_loop(l, l.head, b, ne) is False for b in lt) if hasattr(fn, "reach_in_loop") else not in_loop(fn, l, lt, ne)
        self.ob("twice", "insert: every candidate compared", ok, fn.name, "a candidate is passed in the scan without its id being compared")
        # leaving because the beginning was reached only after the first candidate was compared
        outs = {(b, s) for b, s in fn.edges() if b in l.body and s not in l.body and any(atbegin(a) for a in fn.edge_atoms(b, s))}
        ok = not any(in_loop(fn, l, [b], ne) for b, s in outs)
        self.ob("twice", "insert: first candidate compared", ok, fn.name, "the scan ends at the beginning of the list without comparing the first candidate")
        # after the id was found nothing is stored
        fnd = [(b, s) for b, s in fn.edges() if any(a[0] == "cmp" and a[1] == "eq" and self.id_of(a) for a in fn.edge_atoms(b, s))]
        ok = fnd and not any(p.b in fn.reachable(s, fn.unwind_edges()) for b, s in fnd for p in put)
        chg = [x for _, f in self.fields() for x in self.stores(fn, f)]
        ok = ok and not any(x.b in fn.reachable(s, fn.unwind_edges()) for b, s in fnd for x in chg)
        self.ob("twice", "insert: found", ok, fn.name, "a candidate already in the list is inserted again, or the bookkeeping changes although it is not")

    def id_of(self, a):
        if a[0] != "cmp" or a[1] not in ("eq", "ne"):
            return None
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if y == ("arg", 1):
                return self.elem(x, self.idoff)
        return None

    def bt(self, a):
        """(base, index) of a stored candidate known to be strictly better than the one inserted."""
        if a[0] != "cmp":
            return None
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], SWAP.get(a[1]))):
            if y == ("arg", 2) and p == self.bet:
                return self.elem(x, self.dist)
        return None

    def same_elem(self, a, tested):
        r = self.addr_index(a)
        return bool(r) and (r[0], r[1]) == tested and r[2] == 0

    # -------------------------------------------------------------- the window of the mutable buffer
    def kinds(self, fn):
        """Stores to the end of the window by kind."""
        out = {"set": [], "inc": [], "dec": [], "other": []}
        for s in self.stores(fn, self.roi):
            e = self.V(fn, s, self.roi)
            d = ladd(lin(e), lin(self.roi), -1)
            k = "set" if e == self.size else "inc" if d == lin(("c", 1)) else "dec" if d == lin(("c", -1)) else "walk" if self.walked(fn, e) else "other"
            out.setdefault(k, []).append(s)
        return out

    def walked(self, fn, e):
        """(first index tested, last kept = e - 1) when e is one past the first valid candidate found walking back."""
        l = lin(e)
        ph = [k for k in keys(l) if isinstance(k, tuple) and k[0] == "phi"]
        if len(ph) != 1:
            return None
        phi = fn.ins[ph[0][1]]
        loop = next((x for x in fn.loops if phi.b in x.body), None)
        if loop is None:
            return None
        ins = [(fn.E(v), b) for v, b in phi.r["inc"]]
        ini = {repr(lin(x)): lin(x) for x, b in ins if b not in loop.body}
        nxt = [lin(x) for x, b in ins if b in loop.body]
        P = lin(ph[0])
        if len(ini) != 1 or any(n != ladd(P, lin(("c", -1))) for n in nxt):
            return None
        tested = ladd(l, lin(("c", -1)))
        inv = lambda a: (lambda r: r and r[:2] == (self.begin, tested) and r[2] is False)(self.flag(a, self.validf))
        val = lambda a: (lambda r: r and r[:2] == (self.begin, tested) and r[2] is True)(self.flag(a, self.validf))
        # the loop is repeated only for invalid candidates, left only at a valid one
        if in_loop(fn, loop, loop.latches, fn.cut_for(inv)):
            return None
        for b, s in fn.edges():
            if b in loop.body and s not in loop.body and not any(val(a) for a in fn.edge_atoms(b, s)):
                return None
        t0 = ladd(next(iter(ini.values())), ladd(tested, P, -1))
        return t0

    def table(self, fn, p):
        ks = self.kinds(fn)
        self.ob("window", "insert: changes recognised", not ks["other"], fn.name, "the end of the window is set to something that is neither the end of the list nor next to where it was")
        validat = lambda t: (lambda a: (lambda r: bool(r) and r[2] is t and r[0] == self.begin and self.is_roi(fn, r[1], ks))(self.flag(a, self.validf)))
        for rel in "<=>":
            for v in (0, 1):
                for b in (0, 1):
                    case = [("target", rel), ("valid", v), ("below", b)]
                    cut = self.contrary(fn, case)
                    if fn.path(p, is_ret, cut=cut) is None:
                        continue
                    reach = {k: [s for s in ss if fn.path(p, s, cut=cut)] for k, ss in ks.items()}
                    name = f"insert: {'fewer than' if rel == '<' else 'exactly' if rel == '=' else 'more than'} the target valid, {'valid' if v else 'deleted'} candidate {'inside' if b else 'outside'} the window"
                    n = {k: bool(x) for k, x in reach.items()}
                    if rel == "<":
                        ok = n["set"] and not n["inc"] and not n["dec"] and self.must(fn, p, reach["set"], cut)
                        why = "the window does not end at the end of the list while there are fewer valid candidates than wanted"
                    elif rel == "=" and v:
                        ok = self.walks(fn, p, reach, cut, validat, False) or not n["set"] and not n["inc"] and not n["dec"] and n.get("walk") and self.must(fn, p, reach["walk"], cut)
                        why = "the window does not end one past the last valid candidate when the target is reached"
                    elif not b:
                        ok = not any(n.values())
                        why = "the window changes although the candidate went in behind it"
                        if not ok and not v and rel == "=":
                            ok = False
                    elif not v:
                        ok = n["inc"] and not n["set"] and not n["dec"] and not n.get("walk") and self.must(fn, p, reach["inc"], cut) and not any(fn.path(x, y, cut=cut) for x in reach["inc"] for y in reach["inc"])
                        why = "the window does not grow by the deleted candidate that went in inside it"
                    else:
                        ok = self.walks(fn, p, reach, cut, validat, True) or not n["set"] and not n["inc"] and not n["dec"] and n.get("walk") and self.must(fn, p, reach["walk"], cut)
                        why = "the window does not move back to the previous valid candidate"
                    self.ob("window", name, ok, fn.name, why)

    def is_roi(self, fn, idx, ks):
        return idx == lin(self.roi) or any(idx == lin(self.V(fn, s, self.roi)) for s in ks["dec"])

    def walks(self, fn, p, reach, cut, validat, first):
        """The window's end walks back over deleted candidates and ends one past a valid one."""
        inc, dec = reach["inc"], reach["dec"]
        if reach["set"] or not inc or not self.must(fn, p, inc, cut):
            return False
        allr = self.stores(fn, self.roi)
        inv, val = ({(b, t) for b, t in fn.cut_for(validat(x)) if self.current(fn, b, self.validf, self.roi, allr)} for x in (False, True))
        if any(fn.path(i, x, cut=cut) for i in inc for x in inc + dec):
            return False
        if any(fn.path(p, i, cut=cut | val) for i in inc):
            return False
        if first:
            return bool(dec) and all(fn.path(p, i, cut=cut, avoid=dec) is None for i in inc) and not any(fn.path(d, x, cut=cut | inv) for d in dec for x in dec)
        return not any(fn.path(p, d, cut=cut | inv) for d in dec) and not any(fn.path(d, x, cut=cut | inv) for d in dec for x in dec)

    def trims(self, fn, p):
        """What is cut off the list after an insertion, and the count that goes with it."""
        cuts = [c for c in fn.all() if c.is_call and c.name.endswith(("vector::resize", "vector::erase", "vector::pop_back", "vector::clear")) and fn.E(c.args[0]) == self.begin[1] and fn.path(p, c)]
        self.ob("trim", "insert: cut by length", cuts and all(c.name.endswith("resize") for c in cuts), fn.name, "the list is not cut to a length after an insertion")
        down = [s for s in self.stores(fn, self.count) if ladd(lin(self.V(fn, s, self.count)), lin(self.count), -1) == lin(("c", -1))]
        other = [s for s in self.stores(fn, self.count) if s not in down and self.plus(self.V(fn, s, self.count)) is None]
        self.ob("account", "insert: changes recognised", not other, fn.name, "the number of valid candidates is set to something else than one more or less")
        after = [s for s in self.stores(fn, self.count) if self.plus(self.V(fn, s, self.count)) is not None and fn.path(p, s)]
        start = after[0] if len(after) == 1 else p
        one = lambda k: lin(("c", k))
        for split_ in (0, 1):
            for rel in "<=>":
                case = [("count", rel), ("split", "<" if split_ else "=")]
                cut = self.contrary(fn, case)
                got = [c for c in cuts if fn.path(start, c, cut=cut)]
                name = f"insert: {'separate window' if split_ else 'window of the capacity'}, {'fewer than' if rel == '<' else 'exactly' if rel == '=' else 'one more than'} the capacity valid"
                dn = [s for s in down if fn.path(start, s, cut=cut)]
                if rel == ">":
                    ok = self.must(fn, start, dn, cut) and not any(fn.path(a, b, cut=cut) for a in dn for b in dn)
                    self.ob("account", name, ok, fn.name, "the valid candidate dropped from the list stays counted, or is taken off twice")
                else:
                    self.ob("account", name, not dn, fn.name, "a valid candidate is taken off the count although none is dropped")
                vals = [fn.E(c.args[1]) for c in got]
                if not split_:
                    ok = all(e == self.roi for e in vals) and (rel == "<" or self.must(fn, start, got, cut))
                    why = "the list is not cut at the end of the window"
                elif rel == "<":
                    ok = not got
                    why = "candidates are dropped although the buffer is not full"
                else:
                    want = ladd(lin(self.size), one(-1 if rel == "=" else -2))
                    ok = self.must(fn, start, got, cut) and all(self.walked(fn, e) == want for e in vals) and not any(fn.path(a, b, cut=cut) for a in got for b in got)
                    why = "the list is not cut behind the last valid candidate that fits the capacity"
                self.ob("trim", name, ok, fn.name, why)

    # -------------------------------------------------------------- handing out
    def hand_out(self):
        fn = self.fn["done"]
        e = retval(fn)
        ok = e is not None and self.ends(fn, e, fn.rets()[0])
        self.ob("cursor", "done()", ok, fn.name, "the search does not end exactly when the cursor has reached the end of the window")
        fn = self.fn["next"]
        r = retval(fn)
        here = (self.begin, lin(self.best))
        at = self.addr_index(r) if r else None
        ok = at is not None and at == (self.begin, lin(self.best), 0)
        # the candidate is addressed before the cursor moves
        ss = self.stores(fn, self.best)
        lds = [i for i in fn.all("load") if fn.EI(i) == self.best] if ok else []
        src = self.origin(fn, fn.rets()[0].ops[0]) if ok else []
        ok = ok and src and not any(fn.path(s, i) for s in ss for i in src)
        self.ob("cursor", "next(): the candidate at the cursor", ok, fn.name, "the candidate handed out is not the one at the cursor")
        mk = [s for s in fn.all("store") if self.addr_index(fn.E(s.ops[1])) == (self.begin, lin(self.best), self.seenf[0]) and self.marks(fn.E(s.ops[0]))]
        mk = [s for s in mk if not any(fn.path(t, i) for t in ss for i in self.origin(fn, s.ops[1]))]
        self.ob("cursor", "next(): marked", self.must(fn, None, mk), fn.name, "the candidate handed out is not marked")
        oth = [s for s in fn.all("store") if s not in mk and s not in ss and split(fn.E(s.ops[1]))[0][0] != "alloca"]
        self.ob("cursor", "next(): nothing else changes", not oth, fn.name, "handing out a candidate changes something else")
        plus1 = lambda s: ladd(lin(self.V(fn, s, self.best)), lin(self.best), -1) == lin(("c", 1))
        self.ob("cursor", "next(): one step at a time", ss and all(plus1(s) or self.stepped(fn, s) for s in ss) and self.must(fn, None, ss), fn.name, "the cursor does not move on by one candidate at a time")
        seen = fn.cut_for(lambda a: (lambda r: bool(r) and r[2] is True and r[0] == self.begin and self.moved(fn, r[1], ss))(self.flag(a, self.seenf)))
        seen = {(b, t) for b, t in seen if self.current(fn, b, self.seenf, self.best, ss)}
        rep = [l for l in fn.loops]
        self.ob("cursor", "next(): only marked candidates are passed", rep and not any(in_loop(fn, l, l.latches, seen) for l in rep), fn.name, "the cursor passes a candidate that was not handed out")
        stop = fn.cut_for(lambda a: self.bound(fn, a, ss, False)) | fn.cut_for(lambda a: self.bound(fn, a, ss, True))
        inside = fn.cut_for(lambda a: self.bound(fn, a, ss, False))
        self.ob("cursor", "next(): stays inside the window", rep and not any(in_loop(fn, l, l.latches, inside) for l in rep), fn.name, "the cursor is not stopped at the end of the window")
        unseen = fn.cut_for(lambda a: (lambda r: bool(r) and r[2] is False and r[0] == self.begin and self.moved(fn, r[1], ss))(self.flag(a, self.seenf)))
        unseen = {(b, t) for b, t in unseen if self.current(fn, b, self.seenf, self.best, ss)}
        end = fn.cut_for(lambda a: self.bound(fn, a, ss, True))
        self.ob("cursor", "next(): stops at the first unmarked candidate or the end", fn.path(None, is_ret, cut=set(fn.unwind_edges()) | unseen | end) is None, fn.name, "the cursor stops at a candidate that was already handed out")

    def ends(self, fn, e, at):
        """The boolean says that the cursor has reached the end of the window."""
        e = strip(e)
        if e[0] == "phi":
            return all(self.ends(fn, fn.E(v), fn.term(b)) for v, b in fn.ins[e[1]].r["inc"])
        if e[0] == "bin" and e[1] == "and" and e[3] == ("c", 1):
            return self.ends(fn, e[2], at)
        if e[0] == "sel":
            short = self.rel(e[1][:4], self.count, self.window) if e[1][0] == "cmp" else None
            return short == "ult" and self.ends(fn, e[3], at) and self.ends(fn, ("cmp",) + e[2][1:4], None) if e[2][0] == "cmp" else False
        if e[0] != "cmp":
            return False
        for x, y, p in ((e[2], e[3], e[1]), (e[3], e[2], SWAP.get(e[1]))):
            if x == self.best and p in ("eq", "uge"):
                if self.limit(fn, y):
                    return True
                if not self.static and y == self.size:
                    return at is None or fn.guarded(at, lambda t: self.rel(t, self.count, self.window) == "ult")
        return False

    def current(self, fn, b, f, fld, ss):
        """Flag tests on an edge out of b that read the candidate at a cursor as it is there: the cursor is not stored between
        its load and the test, or the value tested is the one just stored."""
        ok = True
        t = fn.term(b)
        todo, seen, flags = list(fn.refs(t)), set(), []
        while todo:
            r = todo.pop()
            if "v" not in r or r["v"] in seen:
                continue
            seen.add(r["v"])
            i = fn.ins[r["v"]]
            if i.op == "load":
                if self.elem(fn.EI(i), f[0]) is not None:
                    flags.append(i)
                continue
            todo += fn.refs(i)
        for i in flags:
            idx = self.elem(fn.EI(i), f[0])[1]
            if idx != lin(fld):
                continue
            lds = [c for r in i.ops for c in self.origin(fn, r, fld)]
            if any(fn.path(c, s) and fn.path(s, i, avoid=[c]) for c in lds for s in ss):
                ok = False
        return ok

    def marks(self, e):
        if e == ("c", 1) or e == ("c", self.seenf[1] or 1):
            return True
        return e[0] == "bin" and e[1] == "or" and ("c", self.seenf[1] or 1) in e[2:4]

    def moved(self, fn, idx, ss):
        return idx == lin(self.best) or any(idx == lin(self.V(fn, s, self.best)) for s in ss) or any(isinstance(k, tuple) and k[0] == "phi" for k in keys(idx))

    def stepped(self, fn, s):
        """The stored cursor is a loop variable that starts behind the cursor and moves by one."""
        e = self.V(fn, s, self.best)
        ks = [k for k in keys(lin(e)) if isinstance(k, tuple) and k[0] == "phi"]
        if len(ks) != 1:
            return False
        phi = fn.ins[ks[0][1]]
        loop = next((x for x in fn.loops if phi.b in x.body), None)
        if loop is None:
            return False
        off = ladd(lin(e), lin(ks[0]), -1)
        P = lin(ks[0])
        for v, b in phi.r["inc"]:
            x = lin(fn.E(v))
            if b in loop.body:
                if x != ladd(P, lin(("c", 1))):
                    return False
            elif ladd(ladd(x, off), lin(self.best), -1) not in (lin(("c", 1)),) and ladd(x, lin(self.best), -1) not in (lin(("c", 1)), lin(("c", 0))):
                return False
        return True

    def bound(self, fn, a, ss, end):
        """An atom comparing the moved cursor with the end of the window."""
        if a[0] != "cmp":
            return False
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], SWAP.get(a[1]))):
            if self.moved(fn, lin(x), ss) and self.limit(fn, y, a):
                return p in (("eq", "uge") if end else ("ne", "ult"))
        return False

    def limit(self, fn, x, a=None):
        """x is the end of the window."""
        x = strip(x)
        if self.static:
            return x[0] == "umin" and set(x[1:3]) == {self.window, self.size}
        if x == self.roi:
            return True
        if x[0] == "phi":
            for v, b in fn.ins[x[1]].r["inc"]:
                e = strip(fn.E(v))
                if e == self.roi:
                    continue
                last = fn.term(b)
                if e != self.size or not fn.guarded(last, lambda t: self.rel(t, self.count, self.window) == "ult"):
                    return False
            return True
        if x[0] == "sel":
            c = x[1]
            return self.rel(c[:4], self.count, self.window) == "ult" and x[2] == self.size and x[3] == self.roi
        return False

    def origin(self, fn, ref, fld=None):
        """Loads of the cursor an address was computed from."""
        fld = fld or self.best
        out, todo, seen = [], [ref], set()
        while todo:
            r = todo.pop()
            if "v" not in r or r["v"] in seen:
                continue
            seen.add(r["v"])
            i = fn.ins[r["v"]]
            if i.op == "load" and fn.EI(i) == fld:
                out.append(i)
            todo += fn.refs(i)
        return out

    # -------------------------------------------------------------- sorting
    def sorting(self):
        fn = self.fn["sort"]
        cs = fn.calls(r"^std::(sort|stable_sort)$")
        ok = cs and self.must(fn, None, cs)
        for c in cs:
            a = [fn.E(x) for x in c.args[:2]]
            ok = ok and a[0] == self.begin and self.addr_index(a[1]) == (self.begin, lin(self.size), 0)
        self.ob("order", "sort(): whole list", ok, fn.name, "sort() does not sort the whole list")
        if self.static:
            return
        ks = self.kinds(fn)
        c = cs[0] if cs else None
        cut = self.contrary(fn, [("target", "<")])
        got = [s for s in self.stores(fn, self.roi) if fn.path(c, s, cut=cut)] if c else []
        self.ob("window", "sort(): fewer than the target valid", c and all(s in ks["set"] for s in got) and self.must(fn, c, got, cut), fn.name, "the window does not end at the end of the list while there are fewer valid candidates than wanted")
        cut = self.contrary(fn, [("target", ">")]) & self.contrary(fn, [("target", "=")])
        got = [s for s in self.stores(fn, self.roi) if fn.path(c, s, cut=cut)] if c else []
        self.ob("window", "sort(): at least the target valid", got and all(self.counted_to(fn, s) for s in got), fn.name, "the window does not end one past the target-th valid candidate")
        for s in self.stores(fn, self.roi):
            self.ob("width", "sort(): window", not any(x[0] == "trunc" for x in walk(self.V(fn, s, self.roi))), s.where, "a position in the list is cut off")
        drop = [x for x in fn.all() if x.is_call and x.name.endswith(("vector::resize", "vector::erase", "vector::pop_back", "vector::clear")) and fn.E(x.args[0]) == self.begin[1]]
        last = (self.begin, ladd(lin(self.size), lin(("c", -1))))
        lv = lambda t: (lambda a: (lambda r: bool(r) and r[:2] == last and r[2] is t)(self.flag(a, self.validf)))
        ok = all(x.name.endswith("pop_back") and fn.path(None, x, cut=fn.cut_for(lv(False))) is None and not any(fn.path(x, y, cut=fn.cut_for(lv(False))) for y in drop) for x in drop) if drop else True
        if drop and not ok:
            ok = all(x.name.endswith("resize") and self.walked(fn, fn.E(x.args[1])) == last[1] for x in drop)
        self.ob("trim", "sort(): only deleted candidates are dropped", ok, fn.name, "sort() drops a valid candidate")
        ok = all(fn.path(None, x, cut=self.contrary(fn, [("count", "<")])) is None for x in drop)
        self.ob("trim", "sort(): only when full", ok, fn.name, "sort() drops candidates although the buffer is not full")
        if c and drop and drop[0].name.endswith("pop_back"):
            cut = self.contrary(fn, [("count", "="), ("target", ">")]) & self.contrary(fn, [("count", "="), ("target", "=")])
            self.ob("trim", "sort(): a full buffer ends at a valid candidate", fn.path(c, is_ret, cut=cut | fn.cut_for(lv(True))) is None, fn.name, "a full buffer may keep deleted candidates behind its last valid one: the skip test would compare with them")

    def counted_to(self, fn, s):
        """The stored window end is one past an index whose candidate is the target-th valid one."""
        e = self.V(fn, s, self.roi)
        i = ladd(lin(e), lin(("c", -1)))
        val = lambda a: (lambda r: bool(r) and r[:2] == (self.begin, i) and r[2] is True)(self.flag(a, self.validf))
        if not fn.guarded(s, val):
            return False
        for b, t in fn.edges():
            for a in fn.edge_atoms(b, t):
                if a[0] != "cmp" or a[1] != "eq" or self.window not in (a[2], a[3]):
                    continue
                n = a[3] if a[2] == self.window else a[2]
                if fn.guarded(s, lambda z: z == a) and self.counts(fn, n, val):
                    return True
        return False

    def counts(self, fn, n, val):
        """n is a count that is raised by one for valid candidates only, from zero."""
        for k in keys(lin(n)):
            if not isinstance(k, tuple) or k[0] != "phi" or ladd(lin(n), lin(k), -1) != lin(("c", 1)):
                continue
            phi = fn.ins[k[1]]
            loop = next((x for x in fn.loops if phi.b in x.body), None)
            if loop is None:
                return False
            for v, b in phi.r["inc"]:
                if b not in loop.body and fn.E(v) != ("c", 0):
                    return False
            seen, todo = set(), [(v, b) for v, b in phi.r["inc"] if b in loop.body]
            while todo:
                v, b = todo.pop()
                e = fn.E(v)
                if e == k:
                    continue
                if e[0] == "phi" and e not in seen:
                    seen.add(e)
                    todo += [(x, y) for x, y in fn.ins[e[1]].r["inc"]]
                    continue
                if ladd(lin(e), lin(k), -1) == lin(("c", 1)) and fn.guarded(fn.term(b), val):
                    continue
                if e in seen:
                    continue
                return False
            return True
        return False


def keys(l):
    if isinstance(l, dict):
        return list(l)
    out = []
    for x in l:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int) and isinstance(x[0], tuple):
            out.append(x[0])
        elif isinstance(x, (tuple, list, frozenset)):
            out += keys(x)
    return out


def implied_(e, t, fn):
    from ..ir import implied
    return implied(strip(e), t, fn)


def strip_trunc(e):
    return e[2] if e[0] == "trunc" else e


def fits(a, v, bits):
    """The atom says that v fits the number of bits."""
    if a[0] != "cmp":
        return False
    m = (1 << bits) - 1
    for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], SWAP.get(a[1]))):
        if x == v and y[0] == "c":
            return p == "ule" and y[1] <= m or p == "ult" and y[1] <= m + 1
        if x == v and p == "eq" and (y[0] == "bin" and y[1] == "and" and y[2] == v and y[3] == ("c", m) or strip(y) == ("trunc", f"i{bits}", v) or y[0] in ("zext", "trunc") and v in list(walk(y))):
            return True
    return False


def ev(e, v):
    """Value of an expression over the validity of the candidate handed over."""
    k = e[0]
    if k == "c":
        return e[1]
    if e == ("arg", 3):
        return v
    if e == ("arg", 1):
        return 0
    if k in ("tb", "zext", "sext"):
        return ev(e[-1], v)
    if k == "trunc":
        return ev(e[2], v)
    if k == "sel":
        c = ev(e[1], v)
        return None if c is None else ev(e[2] if c & 1 else e[3], v)
    if k == "cmp":
        a, b = ev(e[2], v), ev(e[3], v)
        return None if a is None or b is None else {"eq": int(a == b), "ne": int(a != b)}.get(e[1])
    if k == "bin":
        a, b = ev(e[2], v), ev(e[3], v)
        if a is None or b is None:
            return None
        f = {"and": lambda: a & b, "or": lambda: a | b, "shl": lambda: a << b, "lshr": lambda: a >> b, "add": lambda: a + b, "xor": lambda: a ^ b}.get(e[1] if e[1] == "xor" else e[1].rstrip("x"))
        return f() if f else None
    return None


def in_loop(fn, loop, targets, cut):
    """Some block of targets is reached from the loop's head inside the loop without crossing an edge of cut (latches: the
    back edge itself included)."""
    seen, todo = {loop.head}, [loop.head]
    while todo:
        b = todo.pop()
        for s in fn.succ[b]:
            if (b, s) in cut:
                continue
            if s == loop.head:
                if b in targets and set(targets) == set(loop.latches):
                    return True
                continue
            if s in loop.body and s not in seen:
                seen.add(s)
                todo.append(s)
    if set(targets) == set(loop.latches):
        return False
    return any(t in seen for t in targets)


# ------------------------------------------------------------------ the visited filter
def filter_(ctx, m):
    slot = {}
    for o in ("contains", "emplace"):
        fn = ctx.one(m, "f_" + o)
        e = strip(retval(fn) or ("c", 0))
        got = None
        if e[0] == "cmp" and e[1] == "eq":
            for x, y in ((strip(e[2]), strip(e[3])), (strip(e[3]), strip(e[2]))):
                if x[0] == "ld":
                    got = slot_of(x[1]), value_of(y)
        ok = got is not None and None not in got and sum(got[1]) >= 32 - 0 if False else got is not None and None not in got and whole(got[0], got[1])
        slot[o] = got
        ctx.ob("filter", f"{o}: id compared", bool(ok), fn.name, "slot and stored part together do not determine the id: another id is taken for visited")
    fn = ctx.one(m, "f_emplace")
    ss = [s for s in fn.all("store") if split(fn.E(s.ops[1]))[0][0] != "alloca"]
    got = [(slot_of(fn.E(s.ops[1])), value_of(fn.E(s.ops[0]))) for s in ss]
    ok = ss and all(None not in g and g == slot["contains"] for g in got) and fn.path(None, is_ret, avoid=ss) is None
    ctx.ob("filter", "emplace: stored", bool(ok), fn.name, "the id stored is not the id looked for later")
    lds = [i for i in fn.all("load") if slot_of(fn.E(i.ops[0])) is not None]
    ctx.ob("filter", "emplace: looked up before it is stored", lds and not any(fn.path(s, l) for s in ss for l in lds), fn.name, "the slot is read after it was overwritten: every id is taken for visited")
    fn = ctx.one(m, "f_reset")
    base = None
    st = [s for s in fn.all("store") if split(fn.E(s.ops[1]))[0][0] != "alloca"]
    fill = [c for c in fn.all() if c.is_call and (c.name.startswith("llvm.memset") or c.name.endswith("vector::assign"))]
    ok = False
    for s in st:
        cv = cover(fn, s, fn.E(s.ops[1]))
        ok = ok or fn.E(s.ops[0])[0] == "c" and fn.E(s.ops[0])[1] & 0xffff == 0xffff and whole_vector(fn, s)
    for c in fill:
        ok = ok or c.name.endswith("assign") or fn.E(c.args[1]) in (("c", 255), ("c", -1)) and span(fn, c)
    ctx.ob("filter", "reset: every slot", ok, fn.name, "slots keep ids of the previous query")
    ctx.ob("filter", "reset: only with the empty mark", all(fn.E(s.ops[0])[0] == "c" and fn.E(s.ops[0])[1] & 0xffff == 0xffff for s in st), fn.name, "slots are reset to something that stands for an id")


def slot_of(a):
    """Number of low bits of the id selecting the slot."""
    b, o, v = split(a)
    if b[0] != "ld" or o or len(v) != 1:
        return None
    e = strip(v[0][0])
    if e[0] == "zext":
        e = strip(e[-1])
    if e[0] == "trunc" and e[2] == ("arg", 1):
        return (0, int(e[1][1:]))
    if e[0] == "bin" and e[1] == "and" and e[2] == ("arg", 1) and e[3][0] == "c" and (e[3][1] & (e[3][1] + 1)) == 0:
        return (0, e[3][1].bit_length())
    return None


def value_of(e):
    """(lowest bit, one past the highest bit) of the id that a stored value keeps."""
    e = strip(e)
    w = 32
    while e[0] in ("trunc", "zext"):
        if e[0] == "trunc":
            w = min(w, int(e[1][1:]))
        e = strip(e[-1])
    if e == ("arg", 1):
        return (0, min(32, w))
    if e[0] == "bin" and e[1] == "lshr" and e[2] == ("arg", 1) and e[3][0] == "c":
        return (e[3][1], min(32, e[3][1] + w))
    return None


def whole(slot, val):
    return val[1] == 32 and val[0] <= slot[1]


def whole_vector(fn, s):
    """The store runs from the beginning to the end of the slots."""
    a = fn.E(s.ops[1])
    b, o, v = split(a)
    for l in fn.loops_of(s):
        if b[0] == "phi" and not v and o == 0:
            phi = fn.ins[b[1]]
            ini = [fn.E(x) for x, y in phi.r["inc"] if y not in l.body]
            nx = [fn.E(x) for x, y in phi.r["inc"] if y in l.body]
            ex = [at for p, q in fn.edges() if p in l.body and q not in l.body for at in fn.edge_atoms(p, q)] + [at for p in fn.pred[l.head] if p not in l.body for at in fn.edge_atoms(p, l.head)]
            lds = {e for at in ex if at[0] == "cmp" for e in at[2:4] if e[0] == "ld"}
            return all(e[0] == "ld" and split(e[1])[0] == ("arg", 0) for e in ini) and all(split(e)[0] == b and split(e)[1] == s.r["size"] for e in nx) and any(split(x[1])[1] == split(ini[0][1])[1] + 8 for x in lds)
        c = cover(fn, s, a)
        if c is not None:
            return True
    return False


def span(fn, c):
    e = fn.E(c.args[0])
    n = lin(fn.E(c.args[2]))
    return e[0] == "ld" and n == ladd(lin(("ld", ("addr", split(e[1])[0], split(e[1])[1] + 8, ()))), lin(e), -1)
