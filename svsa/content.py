"""Where the contents of an object come from: backward dataflow over stores, memory copies and constructing calls, on the control
flow that remains feasible when selected values (for instance a version number) are known constants."""
from .lib import *
from . import ir


# ---- conditional constant propagation --------------------------------------------------------
class Const:
    """Edges executable when `leaf(expr)` fixes the value of some expressions."""

    def __init__(self, fn, leaf):
        self.fn, self.leaf = fn, leaf
        self.edges = set()
        self.blocks = {fn.entry}
        changed = True
        while changed:
            changed = False
            self.memo = {}
            for b in list(self.blocks):
                for s in self.out(b):
                    if (b, s) not in self.edges:
                        self.edges.add((b, s))
                        self.blocks.add(s)
                        changed = True
        self.memo = {}
        self.cut = frozenset((b, s) for b in fn.order for s in fn.succ[b] if (b, s) not in self.edges)

    def out(self, b):
        fn = self.fn
        t = fn.term(b)
        ss = fn.succ[b]
        if t is not None and t.op == "switch":
            v = self.ev(fn.E(t.ops[0]))
            if v is None:
                return ss
            m = lambda x: int(x) & 0xFFFFFFFFFFFFFFFF
            for c in t.r["cases"]:
                if m(c[0]["c"]) == m(v):
                    return [c[1]]
            return [t.r["default"]]
        if t is None or t.op != "br" or len(ss) != 2 or not t.ops:
            return ss
        v = self.ev(fn.E(t.ops[0]))
        if v is None:
            return ss
        raw = fn._rawsucc(b)
        return [raw[0] if v else raw[1]]

    def ev(self, e, d=0):
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = None
        r = self._ev(e, d)
        self.memo[e] = r
        return r

    def _ev(self, e, d):
        if d > 60 or not isinstance(e, tuple):
            return None
        v = self.leaf(e)
        if v is not None:
            return v
        k = e[0]
        if k == "c":
            return e[1]
        if k == "trunc":
            v = self.ev(e[2], d + 1)
            w = {"i8": 8, "i16": 16, "i32": 32}.get(e[1])
            if v is None or w is None:
                return v
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if k == "tb":
            v = self.ev(e[1], d + 1)
            return None if v is None else v & 1
        if k == "phi":
            i = self.fn.ins[e[1]]
            vs = set()
            for val, b in i.r["inc"]:
                if (b, i.b) in self.edges:
                    vs.add(self.ev(self.fn.E(val), d + 1))
            return vs.pop() if len(vs) == 1 else None
        if k == "cmp":
            a, b = self.ev(e[2], d + 1), self.ev(e[3], d + 1)
            if a is None or b is None:
                return None
            p = e[1]
            if p in ("eq", "ne"):
                return int((a == b) == (p == "eq"))
            if p.startswith("u") and (a < 0 or b < 0):
                a, b = a % (1 << 64), b % (1 << 64)
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[-2:]])
        if k == "sel":
            c = self.ev(e[1], d + 1)
            if c is None:
                x, y = self.ev(e[2], d + 1), self.ev(e[3], d + 1)
                return x if x == y else None
            return self.ev(e[2] if c else e[3], d + 1)
        if k in ("umin", "umax", "smin", "smax"):
            a, b = self.ev(e[1], d + 1), self.ev(e[2], d + 1)
            if a is None or b is None:
                return None
            key = (lambda x: x % (1 << 64)) if k[0] == "u" else None
            return (min if k.endswith("min") else max)(a, b, key=key)
        if k == "bin":
            a, b = self.ev(e[2], d + 1), self.ev(e[3], d + 1)
            op = e[1]
            if op == "and" and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                return None
            if op in ("lshr", "shl", "udiv", "urem") and b >= 0 and a >= 0:
                if op == "shl":
                    return (a << b) & ((1 << 64) - 1) if b < 64 else None
                if op == "lshr":
                    return a >> b if b < 64 else None
                return None if b == 0 else a // b if op == "udiv" else a % b
            f = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}
            return f.get(op)
        return None


NOCUT = frozenset()


def dests(fn, i):
    """(alloca/arg base, offset, size or None) regions an instruction writes."""
    if i.op == "store":
        b, o, v = split(fn.E(i.ops[1]))
        return [(b, None if v else o, i.r.get("size"))]
    if i.is_call:
        n = i.name
        if n.startswith("llvm.mem"):
            b, o, v = split(fn.E(i.args[0]))
            ln = fn.E(i.args[2])
            return [(b, None if v else o, ln[1] if ln[0] == "c" else None)]
        if n.startswith("llvm."):
            return []
        ro = readonly(i)
        out = []
        for k, a in enumerate(i.args):
            if not fn_is_ptr(fn, a) or (k < len(ro) and ro[k]):
                continue
            b, o, v = split(fn.E(a))
            out.append((b, None if v else o, i.r.get("sretsize") if k == 0 and i.r.get("sret") else "?"))
        return out
    return []


def storesize(fn, i):
    t = i.r.get("vty") or i.r.get("ops_ty") or ""
    return {"i8": 1, "i1": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}.get(t)


def content(fn, base, off, at, cut=NOCUT, d=0):
    """Sources of the scalar at base+off just before instruction `at`: a set of
    ("val", expr) | ("mem", address expr) | ("res", call id, delta) | ("clobber", id) | ("init",)."""
    out = set()
    if d > 12:
        return {("deep",)}
    preds = {}
    for b in fn.order:
        for s in fn.succ[b]:
            if (b, s) not in cut:
                preds.setdefault(s, []).append(b)
    seen = set()
    work = [(at.b, at.k - 1)]
    while work:
        b, k = work.pop()
        hit = False
        for j in range(k, -1, -1):
            i = fn.blocks[b][j]
            if i.op == "store":
                bb, o, v = split(fn.E(i.ops[1]))
                if bb == base and (v or o == off):
                    if v:
                        out.add(("clobber", i.id))
                    else:
                        out.add(("val", fn.E(i.ops[0])))
                    hit = True
                    break
                continue
            if i.op == "alloca" and base == ("alloca", i.id):
                out.add(("init",))
                hit = True
                break
            if not i.is_call:
                continue
            n = i.name
            if n.startswith("llvm.lifetime"):
                continue
            if n.startswith("llvm.mem"):
                bb, o, v = split(fn.E(i.args[0]))
                if bb != base:
                    continue
                ln = fn.E(i.args[2])
                if v or ln[0] != "c":
                    out.add(("clobber", i.id))
                    hit = True
                    break
                if not (o <= off < o + ln[1]):
                    continue
                if n.startswith("llvm.memset"):
                    out.add(("val", fn.E(i.args[1])))
                else:
                    sb, so, sv = split(fn.E(i.args[1]))
                    if sv:
                        out.add(("clobber", i.id))
                    elif sb[0] == "alloca":
                        out |= content(fn, sb, so + off - o, i, cut, d + 1)
                    else:
                        out.add(("mem", mkaddr(sb, so + off - o, ())))
                hit = True
                break
            if n.startswith("llvm."):
                continue
            ro = readonly(i)
            for q, a in enumerate(i.args):
                if not fn_is_ptr(fn, a) or (q < len(ro) and ro[q]):
                    continue
                bb, o, v = split(fn.E(a))
                if bb != base:
                    continue
                if q == 0 and i.r.get("sret"):
                    sz = i.r.get("sretsize")
                    if o <= off and (sz is None or off < o + sz):
                        out.add(("res", i.id, off - o))
                        hit = True
                    break
                if re.search(r"::~\w*$", n):
                    continue
                if is_ctor_copy(i) and q == 0:
                    sz = ctor_size(fn, i)
                    if not (o <= off and (sz is None or off < o + sz)):
                        continue
                    src = fn.E(i.args[1])
                    sb, so, sv = split(src)
                    if sb[0] == "alloca" and not sv:
                        c = content(fn, sb, so + off - o, i, cut, d + 1)
                        out |= c
                    else:
                        out.add(("mem", mkaddr(sb, so + off - o, ())))
                    hit = True
                    break
                if o <= off:
                    sz = ctor_size(fn, i)
                    if sz is not None and off >= o + sz:
                        continue
                    out.add(("clobber", i.id))
                    hit = True
                    break
            if hit:
                break
        if hit:
            continue
        if b == fn.entry:
            out.add(("init",))
            continue
        for p in preds.get(b, []):
            if p not in seen:
                seen.add(p)
                work.append((p, len(fn.blocks[p]) - 1))
    return out


def is_ctor_copy(i):
    """Copy or move constructor (or assignment) call."""
    n = i.name
    if not (ir.is_ctor(n) or n.endswith("::operator=")):
        return False
    d = i.r.get("d") or ""
    m = re.search(r"\(([^()]*)\)$", d)
    if not m:
        return False
    p = m.group(1)
    cls = n.split("::")[-1] if not n.endswith("operator=") else n.split("::")[-2]
    return bool(re.search(re.escape(cls) + r"(<.*>)?( const)?(&|&&)$", p)) and len(i.args) == 2


def ctor_size(fn, i):
    """Size of the object a member call works on, when its class is known."""
    d = i.r.get("d") or ""
    m = re.match(r"^(.*)::[^:]+$", d[:d.rfind("(")] if "(" in d else d)
    if m:
        t = ir.clean_ty(m.group(1))
        lay = fn.mod.layouts.get(t)
        if lay:
            return lay["size"]
    return None


def expand(fn, e, edges=None, d=0):
    """Possible values of an expression, through phis and selects (only along executable edges when given)."""
    e = strip(e)
    if d > 12:
        return {e}
    if e[0] == "phi":
        i = fn.ins[e[1]]
        out = set()
        for v, b in i.r["inc"]:
            if edges is None or (b, i.b) in edges:
                x = fn.E(v)
                if x != e:
                    out |= expand(fn, x, edges, d + 1)
        return out
    if e[0] == "sel":
        return expand(fn, e[2], edges, d + 1) | expand(fn, e[3], edges, d + 1)
    if e[0] == "bin" and e[1] == "and" and e[3] == ("c", 1):
        return expand(fn, e[2], edges, d + 1)
    if e[0] == "tb":
        return expand(fn, e[1], edges, d + 1)
    if e[0] in ("fpext", "fptrunc"):
        return expand(fn, e[1], edges, d + 1)
    return {e}


def text(fn, e):
    """Contents of the constant string an expression points to."""
    b, o, v = split(e)
    if b[0] == "g" and not v:
        g = fn.mod.glob.get(b[1]) or {}
        if "str" in g:
            return g["str"][o:]
        ini = g.get("init")
        if ini and len(ini) == 2 and isinstance(ini[1], dict) and o == 0:
            return ini[1]["str"][:int(ini[0])]
    return None


def view_text(fn, ref, at):
    """Text of a string passed as pointer to chars, or as pointer to a string_view."""
    e = fn.E(ref)
    t = text(fn, e)
    if t is not None:
        return t
    b, o, v = split(e)
    if b[0] == "alloca" and not v:
        c = content(fn, b, o + 8, at)
        l = content(fn, b, o, at)
        if len(c) == 1 and len(l) == 1:
            (c,), (l,) = c, l
            if c[0] == "val" and l[0] == "val" and l[1][0] == "c":
                t = text(fn, c[1])
                return None if t is None else t[:l[1][1]]
    return None
