"""Program model over irx output: CFG, dominance, canonical expressions, guards, loops, paths."""
import json, re
from fractions import Fraction
from functools import lru_cache


class Ins:
    __slots__ = ("fn", "r", "id", "op", "b", "k")

    def __init__(self, fn, r, b, k):
        self.fn, self.r, self.id, self.op, self.b, self.k = fn, r, r["i"], r["op"], b, k

    def __getattr__(self, n):
        return self.r.get(n)

    @property
    def where(self):
        f = self.r.get("file", "?")
        f = re.sub(r"^.*/repo/", "", f)
        return f"{f}:{self.r.get('line', 0)}"

    @property
    def name(self):
        return self.r.get("s") or ""

    @property
    def args(self):
        return self.r.get("args") or []

    @property
    def ops(self):
        return self.r.get("ops") or []

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    @property
    def origin(self):
        return self.r.get("in", "")

    def __repr__(self):
        return f"<{self.op} {self.id} {self.name} {self.where}>"


def clean_ty(t):
    t = t or ""
    t = re.sub(r"\bconst ", "", t)
    return t.strip()


class Module:
    def __init__(self, path):
        with open(path) as f:
            self.j = json.load(f)
        self.layouts = {clean_ty(k): v for k, v in self.j["layouts"].items()}
        self.enums = self.j["enums"]
        self.vtables = self.j["vtables"]
        self.matched = self.j["matched"]
        self.defined = dict((a, b) for a, b in self.j["defined"])
        self.fns = [Fn(self, f) for f in self.j["functions"]]
        self.by = {}
        self.glob = {}         # global name -> reference with its constant contents
        for f in self.fns:
            self.by.setdefault(f.label, []).append(f)
        del self.j["functions"]

    def get(self, label):
        return self.by.get(label, [])

    def member(self, ty, off, size=None, depth=0):
        """Descend a layout: list of (name, type) down to the scalar at offset, remaining offset."""
        out = []
        ty = clean_ty(ty)
        while True:
            lay = self.layouts.get(ty)
            if lay is None or depth > 30:
                return out, ty, off
            depth += 1
            best = None
            for o, s, n, t in lay["members"]:
                if s == 0:
                    continue
                sub = self.layouts.get(clean_ty(t))
                if sub is not None and not sub["members"]:
                    continue  # empty base / tag
                if o <= off < o + s:
                    if n == "<base>" and sub is not None and not self._has(clean_ty(t), off - o):
                        continue
                    best = (o, s, n, t)
                    break
            if best is None:
                return out, ty, off
            out.append((best[2], clean_ty(best[3])))
            off -= best[0]
            ty = clean_ty(best[3])

    def _has(self, ty, off, d=0):
        lay = self.layouts.get(ty)
        if lay is None:
            return True
        for o, s, n, t in lay["members"]:
            if s and o <= off < o + s:
                sub = clean_ty(t)
                if n == "<base>" and d < 10 and not self._has(sub, off - o, d + 1):
                    continue
                return True
        return False


CMPNEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
          "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle",
          "oeq": "une", "une": "oeq", "olt": "uge", "ogt": "ule", "ole": "ugt", "oge": "ult",
          "one": "ueq", "ueq": "one"}
CMPSWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
           "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
           "oeq": "oeq", "une": "une", "olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole",
           "one": "one", "ueq": "ueq"}


class Fn:
    def __init__(self, mod, r):
        self.mod, self.r = mod, r
        self.label, self.name, self.simple, self.mangled = r["label"], r["name"], r["simple"], r["mangled"]
        self.blocks = {}
        self.ins = {}
        self.succ, self.pred = {}, {}
        self.order = []
        for b in r["blocks"]:
            bid = b["b"]
            self.order.append(bid)
            self.blocks[bid] = []
            for i in b["ins"]:
                x = Ins(self, i, bid, len(self.blocks[bid]))
                self.blocks[bid].append(x)
                self.ins[x.id] = x
            ss = []
            for s in b["succ"]:
                if s not in ss:
                    ss.append(s)
            self.succ[bid] = ss
        for b in self.order:
            self.pred.setdefault(b, [])
        for b in self.order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.entry = self.order[0]
        self._e = {}
        self._dom = None
        self._cold = None
        self._loops = None
        self._reach = {}
        self._leafmemo = {}
        self._users = None
        self._stores = None

    # ---- CFG -------------------------------------------------------------------------
    def term(self, b):
        return self.blocks[b][-1]

    def unwind_edges(self):
        s = set()
        for b in self.order:
            t = self.term(b)
            if t.op == "invoke":
                s.add((b, t.unwind))
        return s

    @property
    def cold(self):
        """Blocks from which no return is reachable."""
        if self._cold is None:
            good = set()
            st = [b for b in self.order if self.term(b).op == "ret"]
            good.update(st)
            while st:
                x = st.pop()
                for p in self.pred[x]:
                    if p not in good:
                        good.add(p)
                        st.append(p)
            self._cold = set(self.order) - good
        return self._cold

    def reachable(self, src, cut=frozenset(), avoid=frozenset()):
        """Blocks reachable from block src (inclusive), not using edges in cut nor entering blocks in avoid."""
        seen, st = {src}, [src]
        while st:
            x = st.pop()
            for s in self.succ[x]:
                if (x, s) in cut or s in avoid or s in seen:
                    continue
                seen.add(s)
                st.append(s)
        return seen

    @property
    def idom(self):
        if self._dom is None:
            # simple iterative set-free dominators (Cooper-Harvey-Kennedy)
            rpo, seen = [], set()
            st = [(self.entry, iter(self.succ[self.entry]))]
            seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    rpo.append(b)
                    st.pop()
            rpo.reverse()
            num = {b: i for i, b in enumerate(rpo)}
            idom = {self.entry: self.entry}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates_b(self, a, b):
        d = self.idom
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = d[b]

    def dominates(self, x, y):
        """Instruction x dominates y."""
        if x.b == y.b:
            return x.k < y.k
        return self.dominates_b(x.b, y.b)

    def path(self, x, y, cut=frozenset(), avoid=()):
        """Is there a path from just after instruction x to instruction y avoiding instructions `avoid`
        (and edges in cut)? x may be None (= function entry); y may be a predicate over instructions."""
        avoid = set(a.id for a in avoid)
        target = (lambda i: i is y) if isinstance(y, Ins) else y
        start = (self.entry, 0) if x is None else (x.b, x.k + 1)
        if self._plain(start, target, cut, avoid) is None:
            return None
        return self.feasible(start, target, cut, avoid)

    def _plain(self, start, target, cut, avoid):
        seen = set()
        work = [start]
        while work:
            b, k = work.pop()
            blk = self.blocks[b]
            stop = False
            for j in range(k, len(blk)):
                i = blk[j]
                if target(i):
                    return i
                if i.id in avoid:
                    # an avoided invoke still may unwind; treat the call as done on both edges
                    stop = True
                    break
            if stop:
                continue
            for s in self.succ[b]:
                if (b, s) in cut or s in seen:
                    continue
                seen.add(s)
                work.append((s, 0))
        return None

    # ---- feasible paths: constants of flags and outcomes of tests are followed along the path -----------------
    def _leaves(self, e):
        r = self._leafmemo.get(e)
        if r is None:
            ids = set()
            r = ids
            for x in walk(e):
                if x[0] in ("phi", "call", "cmpxchg", "rmw", "ev"):
                    y = x[1] if x[0] == "ev" else x
                    ids.add(y[1] if y[0] in ("phi", "cmpxchg") else y[2] if len(y) > 2 else None)
                elif x[0] in ("ld", "ins", "alloca"):
                    r = None
                    break
            if r is not None and (None in ids or not all(isinstance(z, str) or isinstance(z, int) for z in ids)):
                r = None
            r = (r,)
            self._leafmemo[e] = r
        return r[0]

    def _eval(self, e, env, d=0):
        if e[0] == "c":
            return e[1]
        if e in env:
            return env[e]
        if d > 10:
            return None
        k = e[0]
        if k in ("tb", "zext", "sext", "trunc") and len(e) == 2:
            return self._eval(e[1], env, d + 1)
        if k == "cmp":
            a, b = self._eval(e[2], env, d + 1), self._eval(e[3], env, d + 1)
            if a is not None and b is not None and isinstance(a, int) and isinstance(b, int) and a >= 0 and b >= 0:
                t = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(e[1] if e[1] in ("eq", "ne") else e[1][-2:])
                return None if t is None or e[1][0] == "f" else int(t)
            n = CMPNEG.get(e[1])
            if n and ("cmp", n, e[2], e[3]) in env:
                return 1 - env[("cmp", n, e[2], e[3])]
            return None
        if k == "bin" and e[1] in ("and", "or", "xor"):
            a, b = self._eval(e[2], env, d + 1), self._eval(e[3], env, d + 1)
            if e[1] == "and" and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                if e[1] == "or" and 1 in (a, b) and _boolish(e):
                    return 1
                return None
            return a & b if e[1] == "and" else a | b if e[1] == "or" else a ^ b
        if k == "sel":
            c = self._eval(e[1], env, d + 1)
            if c is not None:
                return self._eval(e[2] if c else e[3], env, d + 1)
            a, b = self._eval(e[2], env, d + 1), self._eval(e[3], env, d + 1)
            return a if a is not None and a == b else None
        return None

    def feasible(self, start, target, cut=frozenset(), avoid=(), cap=6000):
        seen = set()
        work = [(start[0], start[1], ())]
        n = 0
        while work:
            b, k, envt = work.pop()
            n += 1
            if n > cap:
                return self._plain(start, target, cut, avoid)
            blk = self.blocks[b]
            stop = False
            for j in range(k, len(blk)):
                i = blk[j]
                if target(i):
                    return i
                if i.id in avoid:
                    stop = True
                    break
            if stop:
                continue
            env = dict(envt)
            t = self.term(b)
            raw = self._rawsucc(b)
            cond = self.E(t.ops[0]) if t.op == "br" and t.r.get("cond") and len(raw) == 2 and raw[0] != raw[1] else self.E(t.ops[0]) if t.op == "switch" else None
            val = self._eval(cond, env) if cond is not None else None
            for s in self.succ[b]:
                if (b, s) in cut:
                    continue
                e2 = env
                if cond is not None:
                    if t.op == "br":
                        truth = raw[0] == s
                        if val is not None and bool(val) != truth:
                            continue
                        atoms = implied(cond, truth)
                    else:
                        if val is not None:
                            hit = [c[1] for c in t.r["cases"] if int(c[0]["c"]) == val]
                            if s != (hit[0] if hit else t.r["default"]):
                                continue
                        vals = [int(c[0]["c"]) for c in t.r["cases"] if c[1] == s]
                        atoms = [("cmp", "eq", cond, ("c", vals[0]))] if len(vals) == 1 and t.r["default"] != s else []
                    bad = False
                    e2 = dict(env)
                    for a in atoms:
                        if a[0] in ("true", "false"):
                            v = self._eval(a[1], env)
                            if v is not None and bool(v) != (a[0] == "true"):
                                bad = True
                            if self._leaves(a[1]) is not None and a[0] == "false":
                                e2[a[1]] = 0
                            elif self._leaves(a[1]) is not None:
                                e2[a[1]] = 1
                        elif a[0] == "cmp":
                            v = self._eval(a, env)
                            if v == 0:
                                bad = True
                            if self._leaves(a) is not None:
                                e2[a] = 1
                                if a[1] == "eq" and a[3][0] == "c":
                                    e2[a[2]] = a[3][1]
                    if bad:
                        continue
                # phis of the successor take their values over this edge; everything else defined there is new
                new = {}
                defs = set()
                for i in self.blocks[s]:
                    defs.add(i.id)
                    if i.op == "phi":
                        for v, pb in i.r["inc"]:
                            if pb == b:
                                x = self.E(v)
                                c = self._eval(x, e2)
                                if c is not None and isinstance(c, int):
                                    new[("phi", i.id)] = c
                if defs:
                    e2 = {x: c for x, c in e2.items() if not (self._leaves(x) & defs)}
                e2.update(new)
                st = (s, tuple(sorted(e2.items(), key=repr)))
                if st in seen:
                    continue
                seen.add(st)
                work.append((s, 0, st[1]))
        return None

    # ---- uses ------------------------------------------------------------------------
    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.ins.values():
                for r in self.refs(i):
                    if "v" in r:
                        u.setdefault(r["v"], []).append(i)
            self._users = u
        return self._users

    def refs(self, i):
        out = []

        def walk(o):
            if isinstance(o, dict):
                if "v" in o or "a" in o:
                    out.append(o)
                else:
                    for z in o.values():
                        walk(z)
            elif isinstance(o, list):
                for z in o:
                    walk(z)
        for k in ("ops", "args", "inc", "base", "var", "ind"):
            if k in i.r and not (k == "var" and i.op == "alloca"):
                walk(i.r[k])
        return out

    def calls(self, pat=None):
        rx = re.compile(pat) if isinstance(pat, str) else pat
        return [i for b in self.order for i in self.blocks[b] if i.is_call and (rx is None or rx.search(i.name))]

    def all(self, op=None):
        return [i for b in self.order for i in self.blocks[b] if op is None or i.op == op]

    # ---- expressions -----------------------------------------------------------------
    def E(self, ref):
        """Canonical expression of an operand reference."""
        if isinstance(ref, Ins):
            return self.EI(ref)
        if "v" in ref:
            return self.EI(self.ins[ref["v"]])
        if "a" in ref:
            return ("arg", ref["a"])
        if "c" in ref:
            return ("c", int(ref["c"]))
        if "cf" in ref:
            return ("cf", ref["cf"])
        if "f" in ref:
            return ("f", ref["s"], ref["f"])
        if "gep" in ref:
            return mkaddr(self.E(ref["gep"]), ref["off"], ())
        if "g" in ref:
            self.mod.glob.setdefault(ref["g"], ref)
            return ("g", ref["g"])
        if "null" in ref:
            return ("c", 0)
        if "undef" in ref:
            return ("undef",)
        return ("k", json.dumps(ref, sort_keys=True))

    def EI(self, i):
        e = self._e.get(i.id)
        if e is None:
            self._e[i.id] = ("rec", i.id)
            e = self._build(i)
            self._e[i.id] = e
        return e

    def _build(self, i):
        op = i.op
        E = self.E
        if op in ("zext", "sext", "bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
            return E(i.ops[0])
        if op == "trunc":
            x = E(i.ops[0])
            if i.ty == "i1":
                return ("tb", x)
            return ("trunc", i.ty, x)
        if op == "getelementptr":
            if "off" in i.r:
                return mkaddr(E(i.r["base"]), i.r["off"], tuple((E(v), s) for v, s in i.r["var"]))
            return ("gepx", i.id)
        if op == "load":
            a = E(i.ops[0])
            v = self._alloca_value(a, i)
            if v is not None:
                return v
            return ("ld", a)
        if op == "alloca":
            return ("alloca", i.id)
        if op in ("call", "invoke"):
            n = i.name
            if n.startswith("llvm.") and re.match(r"llvm\.(umin|umax|smin|smax|abs|ctpop|cttz|ctlz|usub|fabs|sqrt|fma|fmuladd)", n):
                m = n.split(".")[1]
                return (m,) + tuple(E(a) for a in i.args)
            return ("call", n, i.id)
        if op == "phi":
            return ("phi", i.id)
        if op == "icmp" or op == "fcmp":
            return ("cmp", i.pred, E(i.ops[0]), E(i.ops[1]), i.ops_ty if i.ops_ty else None)
        if op == "select":
            return ("sel", E(i.ops[0]), E(i.ops[1]), E(i.ops[2]))
        if op == "extractvalue":
            return ("ev", E(i.ops[0]), tuple(i.idx))
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            ex = "x" if i.r.get("exact") else ""
            return ("bin", op + ex, E(i.ops[0]), E(i.ops[1]))
        if op in ("uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "fneg"):
            return (op, E(i.ops[0]))
        if op == "atomicrmw":
            return ("rmw", i.r.get("rmw"), i.id)
        if op == "cmpxchg":
            return ("cmpxchg", i.id)
        return ("ins", op, i.id)

    @property
    def stores(self):
        """alloca id -> list of (store ins, offset or None)"""
        if self._stores is None:
            m = {}
            for i in self.ins.values():
                if i.op == "store":
                    a = self.E(i.ops[1])
                    b, o, v = split(a)
                    if b[0] == "alloca":
                        m.setdefault(b[1], []).append((i, o if not v else None))
            self._stores = m
        return self._stores

    def _alloca_value(self, a, load):
        b, o, v = split(a)
        if b[0] != "alloca" or v:
            return None
        vals = self.reaching(b[1], o, load)
        if vals is not None and len(vals) == 1:
            return self.E(vals[0].ops[0])
        return None

    def reaching(self, aid, off, at):
        """Stores to alloca `aid` at `off` that reach instruction `at`; None when unknown (some path without a
        store, a variable-offset store, or the object is built by a call)."""
        res, seen = {}, set()
        sts = {}
        for i, o in self.stores_raw(aid):
            if o is None:
                return None
            if o == off:
                sts[i.id] = i
        if not sts:
            return None
        work = [(at.b, at.k - 1)]
        while work:
            b, k = work.pop()
            blk = self.blocks[b]
            hit = False
            for j in range(k, -1, -1):
                i = blk[j]
                if i.id in sts:
                    res[i.id] = i
                    hit = True
                    break
                if i.is_call and self._clobbers(i, aid, off):
                    return None
                if i.id == aid:
                    return None
            if hit:
                continue
            if b == self.entry:
                return None
            for p in self.pred[b]:
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(self.blocks[p]) - 1))
        return list(res.values())

    def stores_raw(self, aid):
        # like .stores but without building expressions of unrelated code (avoids recursion)
        if not hasattr(self, "_sraw"):
            self._sraw = {}
            for i in self.ins.values():
                if i.op == "store":
                    r = self._rawbase(i.ops[1])
                    if r is not None:
                        self._sraw.setdefault(r[0], []).append((i, r[1]))
        return self._sraw.get(aid, [])

    def _rawbase(self, ref, off=0):
        while "v" in ref:
            x = self.ins[ref["v"]]
            if x.op == "alloca":
                return (x.id, off)
            if x.op == "getelementptr":
                if "off" not in x.r or x.r["var"]:
                    off = None
                elif off is not None:
                    off += x.r["off"]
                ref = x.r["base"]
                continue
            if x.op in ("bitcast", "freeze"):
                ref = x.ops[0]
                continue
            return None
        return None

    def _clobbers(self, call, aid, off=None):
        n = call.name
        if n.startswith("llvm.mem"):
            r = self._rawbase(call.args[0])
            return r is not None and r[0] == aid
        if n.startswith("llvm.") or not n:
            return any("v" in a and (self._rawbase(a) or (None,))[0] == aid for a in call.args) and not n.startswith("llvm.")
        ro = None
        for k, a in enumerate(call.args):
            if "v" in a:
                r = self._rawbase(a)
                if r is not None and r[0] == aid:
                    if off is not None and r[1] is not None and r[1] > off:
                        continue          # handed a later member: earlier ones stay as they are
                    if ro is None:
                        ro = readonly_args(call)
                    if k >= len(ro) or not ro[k]:
                        return True
        return False

    def _clobbers_old(self, call, aid):
        """A call that (re)builds the object held in the alloca: sret / constructor target / memcpy target."""
        n = call.name
        if n.startswith("llvm.mem"):
            r = self._rawbase(call.args[0])
            return r is not None and r[0] == aid
        for k, a in enumerate(call.args):
            if "v" in a:
                r = self._rawbase(a)
                if r is not None and r[0] == aid:
                    if k == 0 and (call.r.get("sret") or is_ctor(n)):
                        return True
        return False

    # ---- linear forms ----------------------------------------------------------------
    def lin(self, e):
        return lin(e)

    # ---- naming ----------------------------------------------------------------------
    def argtype(self, n):
        a = self.r["args"][n]
        for v in a.get("vars", []):
            if not v.get("inl"):
                return v["ty"], v["off"], v["name"]
        return None

    def typed(self, e, d=0):
        """(pointee DI type, prefix name) of a pointer expression, or None."""
        if d > 30:
            return None
        if e[0] == "arg":
            t = self.argtype(e[1])
            if t is None:
                return None
            ty, off, nm = t
            ct = clean_ty(ty)
            if off == 0 and (ct.endswith("*") or ct.endswith("&")):
                return ct.rstrip("&*").strip() if not ct.endswith("**") else ct[:-1], nm
            if ct.endswith("*") or ct.endswith("&"):
                return None
            # pieces of a by-value aggregate, or by-value object passed by pointer
            if self.r["args"][e[1]]["ty"] == "ptr" and off == 0 and self.r["args"][e[1]].get("vars", [{}])[0].get("ty") and len([1 for x in self.r["args"] if any(v["name"] == nm for v in x.get("vars", []))]) == 1 and ct in self.mod.layouts and self.mod.layouts[ct]["size"] > 8:
                return ct, nm
            mem, lty, rest = self.mod.member(ct, off)
            if lty.endswith("*") or lty.endswith("&"):
                return lty[:-1], nm + "." + ".".join(m[0] for m in mem if m[0] != "<base>")
            return None
        if e[0] == "alloca":
            i = self.ins[e[1]]
            if i.r.get("vty"):
                ct = clean_ty(i.r["vty"])
                if ct.endswith("&") or ct.endswith("*"):
                    return None
                return ct, "%" + i.r.get("var", "")
            return None
        if e[0] == "ld":
            m = self.memname(e[1], d + 1)
            if m is None:
                return None
            nm, ty = m
            if ty.endswith("*") or ty.endswith("&"):
                return ty[:-1], nm
            if ty.endswith("&&"):
                return ty[:-2], nm
            return None
        if e[0] == "call":
            return None
        return None

    def memname(self, a, d=0):
        """(path name, type) of the object at an address expression."""
        b, o, v = split(a)
        t = self.typed(b, d + 1)
        if t is None:
            return None
        ty, nm = t
        if v:
            # array element(s): strides over the pointee
            nm += "[*]"
            sz = self.sizeof(ty)
            if sz:
                o = o % sz
        mem, lty, rest = self.mod.member(ty, o)
        if not v and rest and not mem:
            sz = self.sizeof(ty)
            if sz and rest % sz == 0:
                return nm + f"[{rest // sz}]", ty
        names = [m[0] for m in mem if m[0] != "<base>"]
        return ".".join([nm] + names), lty

    def sizeof(self, ty):
        l = self.mod.layouts.get(clean_ty(ty))
        if l:
            return l["size"]
        return {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "float": 4, "double": 8, "bool": 1,
                "unsigned char": 1, "signed char": 1, "char": 1, "short": 2, "unsigned short": 2}.get(clean_ty(ty)) or (8 if clean_ty(ty).endswith("*") else None)

    def show_e(self, e, d=0):
        return show(e, self, d)

    # ---- guards ----------------------------------------------------------------------
    def edge_atoms(self, b, s):
        """Atoms known to hold when control goes from b to s."""
        t = self.term(b)
        out = []
        if t.op == "br" and t.r.get("cond"):
            raw = next(x["succ"] for x in self.r["blocks"] if x["b"] == b) if False else self._rawsucc(b)
            c = self.E(t.ops[0])
            if raw[0] == raw[1]:
                return out
            if raw[0] == s:
                out += implied(c, True, self)
            elif raw[1] == s:
                out += implied(c, False, self)
        elif t.op == "switch":
            v = self.E(t.ops[0])
            vals = [int(c[0]["c"]) for c in t.r["cases"] if c[1] == s]
            if t.r["default"] == s:
                for c in t.r["cases"]:
                    if c[1] != s:
                        out.append(("cmp", "ne", v, ("c", int(c[0]["c"]))))
                if not vals:
                    pass
            elif len(vals) == 1:
                out.append(("cmp", "eq", v, ("c", vals[0])))
            else:
                out.append(("in", v, tuple(vals)))
        return out

    def _rawsucc(self, b):
        if not hasattr(self, "_rs"):
            self._rs = {x["b"]: x["succ"] for x in self.r["blocks"]}
        return self._rs[b]

    def edges(self):
        for b in self.order:
            for s in self.succ[b]:
                yield b, s

    def cut_for(self, pred):
        """Edges whose implied atoms include one satisfying pred."""
        return {(b, s) for b, s in self.edges() if any(pred(a) for a in self.edge_atoms(b, s))}

    def guarded(self, ins, pred, start=None):
        """Every path from the entry (or from just after `start`) to ins crosses an edge implying pred."""
        cut = self.cut_for(pred)
        if start is None:
            return ins.b not in self.reachable(self.entry, cut) or self.feasible((self.entry, 0), lambda i: i is ins, cut) is None
        return self.path(start, ins, cut=cut) is None

    def facts(self, ins):
        """All atoms implied on every path to ins (edge dominance)."""
        out = []
        b = ins.b
        d = self.idom
        if b not in d:
            return out
        while b != self.entry:
            p = d[b]
            # every edge entering the dominated region from p
            if len(self.succ[p]) > 1:
                for s in self.succ[p]:
                    if b not in self.reachable(self.entry, cut={(p, s)}):
                        out += [(a, p) for a in self.edge_atoms(p, s)]
            b = p
        return [a for a, _ in out]

    # ---- loops -----------------------------------------------------------------------
    @property
    def loops(self):
        if self._loops is None:
            heads = {}
            for b, s in self.edges():
                if b in self.idom and self.dominates_b(s, b):
                    heads.setdefault(s, []).append(b)
            L = []
            for h, latches in heads.items():
                body = {h}
                st = list(latches)
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += self.pred[x]
                L.append(Loop(self, h, body, latches))
            self._loops = L
        return self._loops

    def loops_of(self, ins):
        """Loops containing ins, innermost first."""
        return sorted((l for l in self.loops if ins.b in l.body), key=lambda l: len(l.body))

    # ---- misc ------------------------------------------------------------------------
    def throws(self):
        return [i for i in self.all() if i.is_call and i.name in ("__cxa_throw", "__cxa_rethrow")]

    def rets(self):
        return self.all("ret")

    def show(self, cold=False):
        out = [f"=== {self.name}"]
        for n, a in enumerate(self.r["args"]):
            out.append(f"   arg{n}: {a['ty']} {[(v['name'], v['ty'][:90], v['off']) for v in a.get('vars', []) if not v.get('inl')]}")
        for b in self.order:
            if not cold and b in self.cold:
                continue
            out.append(f" b{b} -> {[('X' if s in self.cold else '') + str(s) for s in self.succ[b]]}")
            for i in self.blocks[b]:
                if i.op in ("alloca", "getelementptr", "ptrtoint", "zext", "sext") or (i.op == "br" and not i.r.get("cond")):
                    continue
                out.append(f"    {i.id:4d} {self.show_i(i)}   @{i.where.split('/')[-1]}")
        return "\n".join(out)

    def show_i(self, i):
        if i.op == "store":
            return f"store {self.show_e(self.E(i.ops[0]))} -> {self.show_e(self.E(i.ops[1]))}" + (" atomic" if i.r.get("atomic") else "")
        if i.is_call:
            return f"{i.op} {i.name or 'ind ' + self.show_e(self.E(i.r['ind'])) if (i.name or 'ind' in i.r) else 'asm'}({', '.join(self.show_e(self.E(a)) for a in i.args)})"
        if i.op == "phi":
            return "phi " + ", ".join(f"[{self.show_e(self.E(v))}, {b}]" for v, b in i.r["inc"])
        if i.op == "br":
            return "br " + self.show_e(self.E(i.ops[0]))
        if i.op == "load":
            return f"load {self.show_e(self.E(i.ops[0]))} = {self.show_e(self.EI(i))}"
        if i.op == "ret":
            return "ret " + (self.show_e(self.E(i.ops[0])) if i.ops else "")
        return i.op + " " + self.show_e(self.EI(i)) + " " + " ".join(self.show_e(self.E(o)) for o in i.ops)


def param_types(d):
    """Top-level parameter types and const-ness of a demangled function name."""
    d = d or ""
    d = re.sub(r"\[abi:[^\]]*\]", "", d)
    d = re.sub(r" \[clone [^\]]*\]", "", d)
    d = d.replace("(anonymous namespace)", "{anon}")
    tail = ""
    m = re.match(r"^(.*\))((?: (?:const|volatile|noexcept)|&&|&| &| &&)*)( requires .*)?$", d, re.S)
    if not m:
        return None
    body, tail = m.group(1), m.group(2)
    depth = 0
    j = None
    for j in range(len(body) - 1, -1, -1):
        c = body[j]
        if c == ")":
            depth += 1
        elif c == "(":
            depth -= 1
            if depth == 0:
                break
    inner = body[j + 1:-1]
    out, cur, dep = [], "", 0
    k = 0
    while k < len(inner):
        c = inner[k]
        if inner.startswith("operator", k):
            pass
        if c in "<([{":
            dep += 1
        elif c in ">)]}":
            if not (c == ">" and k and inner[k - 1] == "-"):
                dep -= 1
        if c == "," and dep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        k += 1
    if cur.strip():
        out.append(cur.strip())
    return out, " const" in tail, body[:j]


_RO = {}


def readonly_args(call):
    """Per IR argument: True when the callee's declared parameter type does not let it write through it."""
    key = (call.r.get("callee"), bool(call.r.get("sret")), len(call.args))
    if key in _RO:
        return _RO[key]
    pt = param_types(call.r.get("d"))
    n = len(call.args)
    out = [False] * n
    if re.match(r"^svs::(logging::\w+|lib::narrow(_cast)?)$", call.name or ""):
        out = [not (call.r.get("sret") and k == 0) for k in range(n)]     # formatting and conversion only read their arguments
        pt = None
    if pt is not None:
        ps, cst, _ = pt
        sret = 1 if call.r.get("sret") else 0
        extra = n - sret - len(ps)
        flags = []
        if sret:
            flags.append(False)
        if extra == 1:
            flags.append(cst)
            if not _maybe_member(call) or any(len(_width(p) or ()) == 2 for p in ps):
                flags = None
        elif extra != 0:
            # by-value aggregates split over several IR arguments: only the leading `this` is certain
            flags = None
        if flags is not None:
            for p in ps:
                ref = p.endswith("&") or p.endswith("*")
                if ref and re.search(r"(\{lambda\(.*\)(#\d+)?\}|'lambda\d*'\(.*\))( const)?&+$", p):
                    ref = False          # captures of a closure are set where it is made
                if ref and p.endswith("&") and not p.endswith("&&") and re.search(r"::(emplace_back|emplace|try_emplace)$", call.name):
                    ref = False          # lvalues forwarded to a constructor are copied
                flags.append((not ref) or bool(re.search(r"\bconst ?(&|\*)$", p)) or bool(re.match(r"^.*const&$", p)))
            out = (flags + [False] * n)[:n]
        elif cst and sret + len(ps) < n:
            out[sret] = True
        if flags is None:
            # align the parameters whose number of IR arguments is known, from the left and from the right
            ws = [_width(p) for p in ps]
            this = 1 if cst else 0
            if None not in ws and _maybe_member(call):
                this = n - sret - sum(map(len, ws))
            if this:
                out[sret] = out[sret] or cst
            k = sret + this
            if this or None not in ws or not _maybe_member(call):
                for p in ps:
                    w = _width(p)
                    if w is None:
                        break
                    for b in w:
                        if k < n:
                            out[k] = out[k] or b
                        k += 1
            k = n
            for p in reversed(ps):
                w = _width(p)
                if w is None:
                    break
                for b in reversed(w):
                    k -= 1
                    if 0 <= k < n:
                        out[k] = out[k] or b
    _RO[key] = out
    return out


_SCALAR = re.compile(r"^(?:(?:unsigned|signed|long|short|int|char|bool|float|double|char8_t|char16_t|char32_t)\s*)+$")


def _maybe_member(call):
    """Could the callee be a non-static member function?  Namespaces of the library are lower case, its classes are not."""
    parts = (call.name or "").split("::")
    return len(parts) < 2 or parts[0] != "svs" or any(not re.match(r"^[a-z_0-9]+$", p) for p in parts[:-1])


def _width(p):
    """Which IR arguments a parameter of this type takes: True for each the callee cannot write through; None if unknown."""
    if p.endswith("&") or p.endswith("*"):
        if re.search(r"(\{lambda\(.*\)(#\d+)?\}|'lambda\d*'\(.*\))( const)?&+$", p):
            return [False]
        return [bool(re.search(r"\bconst ?(&|\*)$", p))]
    if _SCALAR.match(p.strip()):
        return [True]
    m = re.match(r"^std::span<(.*), (\d+)ul>$", p)
    if m:
        ro = m.group(1).rstrip().endswith("const")
        return [ro, True] if m.group(2) == "18446744073709551615" else [ro]
    return None


def is_ctor(n):
    parts = re.split(r"::", n)
    if len(parts) < 2:
        return False
    base = parts[-2].split("<")[0]
    return parts[-1] == base


def mkaddr(b, off, var):
    if b[0] == "addr":
        off += b[2]
        var = b[3] + tuple(var)
        b = b[1]
    var2 = []
    for v, s in var:
        if v[0] == "c":
            off += v[1] * s
        else:
            var2.append((v, s))
    if off == 0 and not var2:
        return b
    return ("addr", b, off, tuple(sorted(var2, key=repr)))


def split(a):
    if a[0] == "addr":
        return a[1], a[2], a[3]
    return a, 0, ()


def implied(c, truth, fn=None, depth=0):
    """Atoms implied by condition expression c having the given truth value."""
    if depth > 12:
        return []
    k = c[0]
    if k == "tb":
        # trunc to i1
        return implied(c[1], truth, fn, depth + 1)
    if k == "cmp":
        p, a, b = c[1], c[2], c[3]
        # (x & 1) ==/!= 0 and x ==/!= 0 over booleans
        if b == ("c", 0) and p in ("eq", "ne"):
            x = a
            if x[0] == "bin" and x[1] == "and" and x[3] == ("c", 1):
                x = x[2]
                return [("true" if (p == "ne") == truth else "false", x)] + implied(x, (p == "ne") == truth, fn, depth + 1) if x[0] in ("cmp", "bin", "phi", "sel", "tb") else [("true" if (p == "ne") == truth else "false", x)]
            if x[0] in ("cmp",) or (x[0] == "bin" and x[1] in ("and", "or", "xor") and _boolish(x)):
                return implied(x, (p == "ne") == truth, fn, depth + 1)
        pp = p if truth else CMPNEG.get(p, "?" + p)
        return [("cmp", pp, a, b)]
    if k == "bin" and c[1] == "and":
        if c[3] == ("c", 1):
            return implied(c[2], truth, fn, depth + 1)
        if truth:
            return implied(c[2], True, fn, depth + 1) + implied(c[3], True, fn, depth + 1)
        return [("nand", c[2], c[3])]
    if k == "bin" and c[1] == "or":
        if not truth:
            return implied(c[2], False, fn, depth + 1) + implied(c[3], False, fn, depth + 1)
        return [("or", c[2], c[3])]
    if k == "bin" and c[1] == "xor" and c[3] in (("c", 1), ("c", -1)):
        return implied(c[2], not truth, fn, depth + 1)
    if k == "sel":
        # select(a, b, false) = a && b ; select(a, true, b) = a || b
        if c[3] == ("c", 0):
            if truth:
                return implied(c[1], True, fn, depth + 1) + implied(c[2], True, fn, depth + 1)
            return [("nand", c[1], c[2])]
        if c[2] in (("c", 1), ("c", -1)):
            if not truth:
                return implied(c[1], False, fn, depth + 1) + implied(c[3], False, fn, depth + 1)
            return [("or", c[1], c[3])]
        return [("true" if truth else "false", c)]
    if k == "phi" and fn is not None:
        # bool phi with constants on all but one edge
        out = [("true" if truth else "false", c)]
        i = fn.ins[c[1]]
        live = [(v, b) for v, b in i.r["inc"] if not (("c" in v) and (int(v["c"]) != 0) != truth)]
        if len(live) == 1:
            v, b = live[0]
            if "c" not in v:
                out += implied(fn.E(v), truth, fn, depth + 1)
            # the phi value came through block b: facts on reaching b hold as well
            out += _blockfacts(fn, b, i.b, depth)
        return out
    if k == "c":
        return []
    return [("true" if truth else "false", c)]


def _boolish(x):
    """Could be a boolean (bitwise operators with other constants are arithmetic)."""
    if x[0] == "c":
        return x[1] in (0, 1, -1)
    if x[0] == "bin":
        return x[1] in ("and", "or", "xor") and _boolish(x[2]) and _boolish(x[3])
    return True


def _blockfacts(fn, b, to, depth):
    out = list(fn.edge_atoms(b, to)) if len(fn.succ[b]) > 1 and depth < 6 else []
    n = 0
    while len(fn.pred[b]) == 1 and n < 12:
        p = fn.pred[b][0]
        if len(fn.succ[p]) > 1 and depth < 6:
            out += fn.edge_atoms(p, b)
        b = p
        n += 1
    return out


class Loop:
    def __init__(self, fn, head, body, latches):
        self.fn, self.head, self.body, self.latches = fn, head, body, latches

    def exits(self):
        return [(b, s) for b in self.body for s in self.fn.succ[b] if s not in self.body]

    def live_exits(self):
        return [(b, s) for b, s in self.exits() if s not in self.fn.cold]

    def inductions(self):
        """[(phi ins, init expr, step (int) or None)] for header phis."""
        out = []
        fn = self.fn
        for i in fn.blocks[self.head]:
            if i.op != "phi":
                break
            init = [fn.E(v) for v, b in i.r["inc"] if b not in self.body]
            back = [fn.E(v) for v, b in i.r["inc"] if b in self.body]
            if not init:
                continue
            ini = init[0] if all(x == init[0] for x in init) else ("multi",)
            step = None
            for bk in back:
                l = lin(bk)
                l2 = dict(l)
                me = ("phi", i.id)
                if l2.get(me) == 1:
                    del l2[me]
                    if set(l2) <= {1}:
                        st = l2.get(1, Fraction(0))
                        step = st if step is None or step == st else "?"
                        continue
                step = "?"
            out.append((i, ini, step if step != "?" else None))
        return out

    def exit_conditions(self):
        """[(block, succ, atoms holding when the loop CONTINUES at that block)] for non-cold exits."""
        out = []
        for b, s in self.live_exits():
            cont = [x for x in self.fn.succ[b] if x in self.body]
            atoms = self.fn.edge_atoms(b, cont[0]) if len(cont) == 1 else []
            out.append((b, s, atoms, self.fn.edge_atoms(b, s)))
        return out


# ---- linear forms over Fractions: {atom: coeff, 1: const} ---------------------------------
def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, Fraction(0)) + c * k
        if r[x] == 0:
            del r[x]
    return r


def lscale(a, k):
    return {x: c * k for x, c in a.items()} if k != 0 else {}


@lru_cache(maxsize=None)
def _lin(e):
    k = e[0]
    if k == "c":
        return {1: Fraction(e[1])} if e[1] else {}
    if k == "addr":
        r = ladd(_lin(e[1]), {1: Fraction(e[2])}) if e[2] else dict(_lin(e[1]))
        for v, s in e[3]:
            r = ladd(r, _lin(v), Fraction(s))
        return r
    if k == "bin":
        op, a, b = e[1], e[2], e[3]
        if op == "add":
            return ladd(_lin(a), _lin(b))
        if op == "sub":
            return ladd(_lin(a), _lin(b), -1)
        if op == "xor" and b == ("c", -1):
            return ladd(lscale(_lin(a), Fraction(-1)), {1: Fraction(-1)})
        if op == "mul":
            la, lb = _lin(a), _lin(b)
            if set(lb) <= {1}:
                return lscale(la, lb.get(1, Fraction(0)))
            if set(la) <= {1}:
                return lscale(lb, la.get(1, Fraction(0)))
            # product of two sums of atoms
            r = {}
            for x, cx in la.items():
                for y, cy in lb.items():
                    if x == 1:
                        z = y
                    elif y == 1:
                        z = x
                    else:
                        z = ("prod",) + tuple(sorted(_pf(x) + _pf(y), key=repr))
                    r = ladd(r, {z: cx * cy})
            return r
        if op == "shl" and b[0] == "c":
            return lscale(_lin(a), Fraction(2) ** b[1])
        if op in ("ashrx", "lshrx") and b[0] == "c":
            return lscale(_lin(a), Fraction(1, 2 ** b[1]))
        if op in ("sdivx", "udivx") and b[0] == "c" and b[1]:
            return lscale(_lin(a), Fraction(1, b[1]))
        if op == "or" and b[0] == "c":
            pass
    return {e: Fraction(1)}


def _pf(x):
    return x[1:] if isinstance(x, tuple) and x and x[0] == "prod" else (x,)


def lin(e):
    return _lin(e)


def lin_eq(a, b):
    return lin(a) == lin(b)


def lin_diff(a, b):
    return ladd(lin(a), lin(b), -1)


def walk(e):
    """All sub-expressions."""
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            yield x
            if x[0] == "cmp":
                st += [x[2], x[3]]
            else:
                st += [y for y in x[1:] if isinstance(y, tuple)]
        else:
            st += [y for y in x if isinstance(y, tuple)]


def vecname(n):
    n = re.sub(r"\._M_impl\._M_start$", ".begin", n)
    n = re.sub(r"\._M_impl\._M_finish$", ".end", n)
    n = re.sub(r"\._M_impl\._M_end_of_storage$", ".cap", n)
    return n


def show(e, fn=None, d=0):
    if d > 12:
        return ".."
    k = e[0]
    S = lambda x: show(x, fn, d + 1)
    if k == "arg":
        t = fn.argtype(e[1]) if fn else None
        return (t[2] + (f"+{t[1]}" if t[1] else "")) if t else f"arg{e[1]}"
    if k in ("c", "cf"):
        return str(e[1])
    if k == "ld":
        m = fn.memname(e[1]) if fn else None
        if m:
            b, o, v = split(e[1])
            ix = "".join(f"{{{S(x)}}}" for x, s in v)
            return vecname(m[0]) + ix
        return "*" + S(e[1])
    if k == "addr":
        m = fn.memname(e) if fn else None
        ix = "".join(f"{{{S(x)}*{s}}}" for x, s in e[3])
        if m:
            return "&" + vecname(m[0]) + ix
        return f"({S(e[1])}+{e[2]}{ix})"
    if k == "call":
        return f"{e[1].split('::')[-1]}#{e[2]}"
    if k == "phi":
        return f"phi{e[1]}"
    if k == "alloca":
        nm = fn.ins[e[1]].r.get("var", "") if fn else ""
        return f"%{nm}{e[1]}"
    if k == "cmp":
        return f"({S(e[2])} {e[1]} {S(e[3])})"
    if k == "bin":
        return f"({S(e[2])} {e[1]} {S(e[3])})"
    if k == "g":
        return "@" + e[1]
    if k == "f":
        return "fn:" + e[1]
    if k == "ev":
        return f"{S(e[1])}.{'.'.join(map(str, e[2]))}"
    return k + "(" + ",".join(S(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e[1:]) + ")"
