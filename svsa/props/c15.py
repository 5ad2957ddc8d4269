"""C15: locks and lock-protected values give mutual exclusion.

Analysed: every method of SpinLock and of ReadWriteProtected (for a plain, a shared-pointer and a search-parameter value), the
registry of huge-page allocations, and every function of the logging interface that touches the shared logger."""
from ..lib import *
from ..renum import *
from .. import ir, dyn
from ..locks import Locks, LOCK, SHARED, UNLOCK
from .c05 import callargs, blocks_of, short
from .c06 import must_ret, is_ret
from .c24 import returned, Const
import re

RW = ("rf_get", "rf_pilfer", "rf_set", "rf_setm", "rf_copy", "rf_move", "rf_assign", "rf_massign", "rs_get", "rs_pilfer", "rs_set", "rs_setm", "rs_assign", "rw_get", "rw_set", "rw_setm")
LG = ("lg_get", "lg_set", "lg_setm", "lg_reset", "lg_level", "lg_setlevel", "lg_log", "lg_warn", "lg_cell")
SL = ("sl_try", "sl_lock", "sl_unlock", "sl_is", "sl_ctor", "sl_copy")
ENT = lambda n: f"entry {n} ^h_{n}\\(((?!\\)::).)*$\n"
COMMON = "opaque ^fmt\nopaque ^spdlog\nopaque ^svs::detail::hugepage_(mmap|unmap)\n"
POL = COMMON + "".join(ENT(x) for x in SL + RW + ("hp_alloc", "hp_free", "hp_list", "rw_exposed", "rw_alias"))
LPOL = COMMON + "inline ^svs::logging::\nopaque ^svs::logging::(detail::default_logger\\w*|\\w+_sink|detail::get_\\w+)$\nopaque ^svs::lib::ReadWriteProtected::\n" + "".join(ENT(x) for x in LG)

ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


def check(ctx):
    m, ml = ctx.analyse_all([("locks.cpp", POL), ("locks.cpp", LPOL)])
    ctx.rule("spin", "taking the spin lock is one atomic exchange from free to taken with acquire ordering, reported as taken only when it succeeded; releasing it stores free with release ordering; nothing else changes it")
    ctx.rule("guarded", "the protected value is read only while its own lock is held, and changed only while it is held exclusively")
    ctx.rule("released", "a lock taken is released before the function returns")
    ctx.rule("value", "what a getter returns is the protected value, and what a setter is given is what it stores")
    ctx.rule("hidden", "the protected value cannot be reached from outside: members are private, getters return copies, a spin lock cannot be copied")
    ctx.rule("registry", "the allocation registry is only used under its own lock, and an allocation leaves it before its memory is given back")
    ctx.rule("logger", "the shared logger is only reached through its protected cell")
    spin(ctx, m)
    for n in RW:
        guarded(ctx, ctx.one(m, n), n)
    for n in ("rw_exposed", "rw_alias", "sl_copy"):
        fn = ctx.one(m, n)
        ok = all(fn.E(r.ops[0]) in (("c", 0), ("c", False)) for r in fn.rets()) and bool(fn.rets())
        ctx.ob("hidden", {"rw_exposed": "members private", "rw_alias": "copies returned", "sl_copy": "spin lock not copyable"}[n], ok, fn.name,
               {"rw_exposed": "the protected value or its lock can be accessed directly", "rw_alias": "a reference to the protected value escapes its lock", "sl_copy": "a copied spin lock does not exclude holders of the original"}[n])
    registry(ctx, m)
    logger(ctx, ml)
    ctx.minimum("spin", 7)
    ctx.minimum("guarded", 14)
    ctx.minimum("released", 12)
    ctx.minimum("value", 12)
    ctx.minimum("registry", 7)
    ctx.minimum("logger", 9)


# ---- spin lock -----------------------------------------------------------------------------
def flag_writes(fn):
    out = []
    for i in fn.all():
        if i.op == "store" and split(fn.E(i.ops[1]))[0] == ("arg", 0):
            out.append(i)
        elif i.op in ("cmpxchg", "atomicrmw") and split(fn.E(i.ops[0]))[0] == ("arg", 0):
            out.append(i)
        elif i.is_call and any(split(fn.E(a))[0] == ("arg", 0) for a in callargs(fn, i) if "v" in a or "a" in a):
            out.append(i)
    return out


def exchange(fn, i):
    """(expression that is true when the exchange took the lock, negated?) if the instruction is an atomic exchange free -> taken."""
    if i.op == "cmpxchg" and i.r.get("atomic") in ACQ and not (split(fn.E(i.ops[0]))[1] or split(fn.E(i.ops[0]))[2]):
        if fn.E(i.ops[1]) == ("c", 0) and fn.E(i.ops[2]) == ("c", 1):
            return "cas"
    if i.op == "atomicrmw" and i.r.get("atomic") in ACQ and i.r.get("rmw") in ("xchg", "or") and fn.E(i.ops[1]) == ("c", 1):
        return "xchg"
    return None


def took(fn, e, i, neg=False):
    """The (boolean) expression says whether exchange i took the lock: True / False / None (unrelated)."""
    e = strip(e)
    if e[0] == "ext" or e[0] == "trunc":
        return took(fn, e[-1], i, neg)
    if e[0] == "ev" and e[1] == ("cmpxchg", i.id) and tuple(e[2]) == (1,):
        return not neg
    if e[0] == "rmw" and e[2] == i.id:
        return neg
    if e[0] == "cmp" and e[1] in ("eq", "ne"):
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if a[0] == "ev" and a[1] == ("cmpxchg", i.id) and tuple(a[2]) == (0,):
                return (b == ("c", 0)) == (e[1] == "eq") if b[0] == "c" and not neg else (b == ("c", 0)) != (e[1] == "eq") if b[0] == "c" else None
            if b[0] == "c" and b[1] in (0, 1, True, False):
                t = took(fn, a, i, neg)
                if t is not None:
                    return t if (e[1] == "eq") == bool(b[1]) else not t
    if e[0] == "bin" and e[1] == "xor" and e[3] in (("c", 1), ("c", True), ("c", -1)):
        t = took(fn, e[2], i, neg)
        return None if t is None else not t
    if e[0] == "bin" and e[1] == "and" and e[3] == ("c", 1):
        return took(fn, e[2], i, neg)
    return None


def won_edges(fn, x):
    """Edges taken only when exchange x took / did not take the lock."""
    won, lost = set(), set()
    for b, s in fn.edges():
        for a in fn.edge_atoms(b, s):
            if a[0] in ("true", "false"):
                t = took(fn, a[1], x)
            elif a[0] == "cmp" and a[1] in ("eq", "ne"):
                t = took(fn, ("cmp", a[1], a[2], a[3]), x)
            else:
                t = None
            if t is None:
                continue
            if a[0] == "false":
                t = not t
            (won if t else lost).add((b, s))
    return won, lost


def spin(ctx, m):
    t, l, u, q, c = (ctx.one(m, "sl_" + n) for n in ("try", "lock", "unlock", "is", "ctor"))
    for fn, what in ((t, "try_lock"), (l, "lock")):
        w = flag_writes(fn)
        ex = [i for i in w if exchange(fn, i)]
        ctx.ob("spin", f"{what}: changed only by an atomic exchange that acquires", bool(ex) and len(ex) == len(w), (w or fn.rets() or [fn])[0].where if w else fn.name, "the lock is taken by something other than one atomic exchange from free to taken with acquire ordering")
    # lock returns only after an exchange succeeded, and after one that succeeded does not try again
    ex = [i for i in flag_writes(l) if exchange(l, i)]
    won, lost = set(), set()
    for x in ex:
        a, b = won_edges(l, x)
        won, lost = won | a, lost | b
    ctx.ob("spin", "lock: returns only as the holder", bool(ex) and l.path(None, is_ret, cut=won) is None, l.name, "lock can return without having taken the lock")
    ctx.ob("spin", "lock: does not try again as the holder", bool(ex) and all(l.path(x, y, cut=lost) is None for x in ex for y in ex), l.name, "lock waits for itself after having taken the lock")
    # try_lock's answer
    ex = [i for i in flag_writes(t) if exchange(t, i)]
    ok = bool(ex)
    for r in t.rets():
        ok &= len(ex) == 1 and answer(t, t.E(r.ops[0]), ex[0]) or len(ex) == 1 and guarded_false(t, r, ex[0])
    ctx.ob("spin", "try_lock: the answer is whether the exchange succeeded", ok, t.name, "try_lock reports success without having taken the lock, or failure while holding it")
    w = flag_writes(u)
    ok = len(w) >= 1 and all((i.op == "store" and u.E(i.ops[0]) == ("c", 0) or i.op == "atomicrmw" and i.r.get("rmw") in ("xchg", "and") and u.E(i.ops[1]) == ("c", 0)) and i.r.get("atomic") in REL for i in w)
    ctx.ob("spin", "unlock: stores free with release ordering", ok and all(u.path(None, r, avoid=w) is None for r in u.rets()), (w[0].where if w else u.name), "releasing the lock does not publish the holder's writes, or does not free it")
    ctx.ob("spin", "islocked: only looks", not flag_writes(q), q.name, "asking whether the lock is held changes it")
    w = flag_writes(c)
    ctx.ob("spin", "starts free", len(w) == 1 and w[0].op == "store" and c.E(w[0].ops[0]) == ("c", 0), c.name, "a new lock does not start out free")


def answer(fn, e, x, d=0):
    """e is true exactly when exchange x took the lock."""
    if took(fn, e, x) is True:
        return True
    if e[0] == "phi" and d < 4:
        won, lost = won_edges(fn, x)
        ok = True
        p = fn.ins[e[1]]
        for val, b in p.r["inc"]:
            v = fn.E(val)
            if answer(fn, v, x, d + 1):
                continue
            # constant on a path decided by the exchange
            on = lambda edges, want: v in (("c", want), ("c", bool(want))) and ((b, p.b) in edges or fn.path(None, fn.blocks[b][-1], cut=edges) is None)
            untried = v in (('c', 0), ('c', False)) and b != x.b and fn.path(x, fn.blocks[b][-1]) is None
            ok &= on(won, 1) or on(lost, 0) or untried
        return ok
    return False


def guarded_false(fn, r, x):
    """Returns false without having tried (the lock was seen taken)."""
    return fn.E(r.ops[0]) == ("c", 0) and fn.path(x, r) is None


# ---- protected values ------------------------------------------------------------------------
def params(d):
    """Parameter types of a demangled signature, and whether the method is const."""
    depth, out, cur, seen = 0, [], "", False
    s = re.sub(r"operator(\(\)|<=>|->|<<|>>|<|>)", "operator", d or "")
    k = s.rfind(")")
    const = s[k + 1:].strip().startswith("const")
    i = k
    depth = 0
    while i >= 0:
        if s[i] in ")>":
            depth += 1
        if s[i] in "(<":
            depth -= 1
            if depth == 0 and s[i] == "(":
                break
        i -= 1
    inner = s[i + 1:k]
    depth = 0
    for ch in inner:
        if ch in "(<":
            depth += 1
        if ch in ")>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, const


def accesses(fn, root):
    """(instruction, 'r' | 'w') for every use of memory of the object, its lock apart."""
    L = Locks(fn)
    locks = {split(a)[1] for _, a in L.ops.values() if split(a)[0] == root}
    hit = lambda e: split(e)[0] == root and not (split(e)[1] in locks)
    out = []
    for i in fn.all():
        if i.op == "load" and hit(fn.E(i.ops[0])):
            out.append((i, "r"))
        elif i.op == "store":
            if hit(fn.E(i.ops[1])):
                out.append((i, "w"))
        elif i.op in ("cmpxchg", "atomicrmw") and hit(fn.E(i.ops[0])):
            out.append((i, "w"))
        elif i.is_call and i.id not in L.ops and not i.name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")):
            a = callargs(fn, i)
            for k, x in enumerate(a):
                if not isinstance(x, dict) or not hit(fn.E(x)):
                    continue
                if i.name.startswith("llvm.mem"):
                    out.append((i, "w" if k == 0 else "r"))
                    continue
                sret = bool(i.r.get("sret"))
                k2 = k - (1 if sret else 0)
                ps, const = params(i.r.get("d"))
                method = len(ps) == len(a) - (1 if sret else 0) - 1
                if method and k2 == 0:
                    out.append((i, "r" if const else "w"))
                else:
                    ty = ps[k2 - (1 if method else 0)] if 0 <= k2 - (1 if method else 0) < len(ps) else ""
                    out.append((i, "r" if "const&" in ty or "const &" in ty else "w"))
    return L, out


def guarded(ctx, fn, n):
    objs = [k for k, a in enumerate(fn.r["args"]) if any("ReadWriteProtected" in v["ty"] for v in a.get("vars", []))]
    ctor = n.endswith(("copy", "move"))
    for k in objs:
        root = ("arg", k)
        L, acc = accesses(fn, root)
        who = dyn.argname(fn, k) if hasattr(dyn, "argname") else fn.r["args"][k]["vars"][0]["name"]
        same = lambda h: split(h[0])[0] == root
        for i, kind in acc:
            held = [h for h in L.at(i) if same(h)]
            ok = any(h[1] == "x" for h in held) if kind == "w" else bool(held)
            ctx.ob("guarded", f"{n}: {'read' if kind == 'r' else 'changed'} under the lock of {who}", ok, i.where,
                   "the protected value is " + ("read while no lock on it is held" if kind == "r" else "changed without holding its lock exclusively"))
        if not n.endswith(("assign", "massign")) or True:
            want = "w" if "set" in n or ("assign" in n and who == "q") else "r"
            ctx.ob("value", f"{n}: {who} {'stored to' if want == 'w' else 'read'}", bool(acc), fn.name, "the protected value is not " + ("stored" if want == "w" else "returned"))
    if ctor:
        # the object under construction is not shared yet, but it receives the value
        w = [i for i in fn.all() if (i.op == "store" and split(fn.E(i.ops[1]))[:2] == (("arg", 0), 0) and fn.E(i.ops[0]) != ("c", 0))]
        ctx.ob("value", f"{n}: value taken over", any(carries(fn, i) for i in w), fn.name, "the new object does not receive the value")
    L = Locks(fn)
    for i, (k, a) in L.ops.items():
        if k != "u":
            ctx.ob("released", f"{n}", L.released(fn.ins[i]), fn.ins[i].where, "the lock stays taken on some way out")
    flow(ctx, fn, n)


def carries(fn, i):
    e = fn.E(i.ops[0])
    return e[0] == "ld" and split(e[1])[0] == ("arg", 1)


def flow(ctx, fn, n):
    """The value moves from where it should to where it should."""
    kind = n.split("_")[1]
    if kind not in ("get", "set", "setm", "assign", "massign"):
        return
    src, dst = (1, 0) if kind != "get" else (None, None)
    sret = bool(fn.r["args"] and fn.r["args"][0].get("sret"))
    ok = False
    if kind == "get":
        obj = 1 if sret else 0
        if not sret:
            ok = all(fn.E(r.ops[0])[0] == "ld" and split(fn.E(r.ops[0])[1])[0] == ("arg", 0) for r in fn.rets()) and bool(fn.rets())
        else:
            ok = bool(moves(fn, ("arg", 0), ("arg", 1)))
    else:
        mv = moves(fn, ("arg", 0), ("arg", 1))
        ok = bool(mv)
        if kind.startswith("set"):
            ok &= all(fn.path(None, r, avoid=mv) is None for r in fn.rets())
        else:
            cut = {(b, s) for b, s in fn.edges() for a in fn.edge_atoms(b, s) if a[0] == "cmp" and a[1] == "eq" and {a[2], a[3]} == {("arg", 0), ("arg", 1)}}
            ok &= all(fn.path(None, r, avoid=mv, cut=cut) is None for r in fn.rets()) and any(fn.path(None, r, cut=cut) is not None for r in fn.rets())
    ctx.ob("value", f"{n}: {'returns the value' if kind == 'get' else 'stores what it was given'}", ok, fn.name, "the value returned or stored is another one")


def moves(fn, to, frm, d=0):
    """Instructions that put a value coming from object `frm` into object `to`."""
    out = []
    for i in fn.all():
        if i.op == "store" and split(fn.E(i.ops[1]))[0] == to:
            e = fn.E(i.ops[0])
            if e == frm or e[0] == "ld" and split(e[1])[0] == frm or frm[0] == "arg" and e == frm:
                out.append(i)
            elif d < 2 and e[0] == "ld" and split(e[1])[0][0] == "alloca" and moves(fn, split(e[1])[0], frm, d + 1):
                out.append(i)
        elif i.is_call and not re.search(LOCK + "|" + UNLOCK + "|" + SHARED, i.name):
            a = [fn.E(x) for x in callargs(fn, i)]
            if len(a) >= 2 and split(a[0])[0] == to:
                b = split(a[1])[0]
                if b == frm or b[0] == "alloca" and d < 2 and moves(fn, b, frm, d + 1):
                    if i.name.startswith("llvm.mem") or re.search(r"::operator=$|::(\w+)$", i.name):
                        out.append(i)
    return out


# ---- registry ------------------------------------------------------------------------------
def registry(ctx, m):
    use = {}
    for n in ("hp_alloc", "hp_free", "hp_list"):
        fn = ctx.one(m, n)
        L = Locks(fn)
        lockroots = {split(a)[0] for _, a in L.ops.values()}
        maps = []
        for c in fn.calls(r"(robin_map|unordered_map|map)::"):
            for x in callargs(fn, c):
                b = split(fn.E(x))[0]
                if b[0] not in ("alloca", "arg", "c", "call", "ld") and b not in lockroots:
                    maps.append((c, b))
        ctx.ob("registry", f"{n}: uses the registry", bool(maps), fn.name, "the allocation registry is not used")
        for c, b in maps:
            held = {h[0] for h in L.at(c) if h[1] == "x" and split(h[0])[0][0] not in ("alloca", "arg")}
            use.setdefault(b, []).append((c, held))
            ctx.ob("registry", f"{n}: {c.name.split('::')[-1]} under the lock", bool(held), c.where, "the allocation registry is used without its lock")
        # iterators into the registry
        for c in fn.calls(r"robin_iterator::(operator(->|\*)|value|key)$"):
            held = {h[0] for h in L.at(c) if h[1] == "x" and split(h[0])[0][0] not in ("alloca", "arg")}
            ctx.ob("registry", f"{n}: entry read under the lock", bool(held), c.where, "an entry of the allocation registry is read without its lock")
        for i, (k, a) in L.ops.items():
            if k != "u":
                ctx.ob("released", n, L.released(fn.ins[i]), fn.ins[i].where, "the lock stays taken on some way out")
        if n == "hp_free":
            er = [c for c in fn.calls(r"robin_map::erase$")]
            un = fn.calls(r"hugepage_unmap$|(^|::)munmap$")
            ok = bool(er and un) and all(fn.path(None, u, avoid=er) is None for u in un)
            ctx.ob("registry", "entry removed before the memory is given back", ok, (un or er or [fn])[0].where if (un or er) else fn.name, "the memory is given back while the registry still lists it: another thread may be handed the same address")
        if n == "hp_alloc":
            ins = fn.calls(r"robin_map::(insert|emplace|try_emplace|insert_or_assign|operator\[\])$")
            ctx.ob("registry", "every allocation is registered", bool(ins) and all(fn.path(None, r, avoid=ins) is None for r in fn.rets()), fn.name, "an allocation is handed out without being registered")
    for b, us in use.items():
        common = frozenset.intersection(*[frozenset(h) for _, h in us])
        ctx.ob("registry", "one lock for all uses", bool(common), us[0][0].where, "different functions use the registry under different locks")


# ---- logger --------------------------------------------------------------------------------
def logger(ctx, m):
    cell = ctx.one(m, "lg_cell")
    roots = {split(cell.E(r.ops[0]))[0] for r in cell.rets()}
    ctx.ob("logger", "one shared cell", len(roots) == 1 and list(roots)[0][0] not in ("alloca", "call", "arg"), cell.name, "the shared logger is not one object")
    root = list(roots)[0]
    for n in LG:
        fn = ctx.one(m, n)
        init = fn.calls(r"__cxa_guard_acquire$")
        rel = fn.calls(r"__cxa_guard_release$")
        bad, gets, sets = [], [], []
        for i in fn.all():
            if i.op in ("load", "store", "cmpxchg", "atomicrmw"):
                a = fn.E(i.ops[1] if i.op == "store" else i.ops[0])
                if split(a)[0] == root:
                    bad.append(i)
            elif i.is_call:
                for x in callargs(fn, i):
                    if split(fn.E(x))[0] == root:
                        if re.search(r"ReadWriteProtected::get$", i.name):
                            gets.append(i)
                        elif re.search(r"ReadWriteProtected::set$", i.name):
                            sets.append(i)
                        elif re.search(r"ReadWriteProtected::~?ReadWriteProtected$|__cxa_atexit$", i.name):
                            if not (init and all(fn.path(None, i, avoid=init) is None for _ in (0,))):
                                bad.append(i)
                        else:
                            bad.append(i)
        ctx.ob("logger", f"{n}: only through the cell", not bad, bad[0].where if bad else fn.name, "the shared logger is used without its lock")
        if n in ("lg_set", "lg_setm", "lg_reset"):
            ctx.ob("logger", f"{n}: stored in the cell", bool(sets) and all(fn.path(None, r, avoid=sets) is None for r in fn.rets()), fn.name, "the new logger is not stored")
        elif n != "lg_cell":
            ctx.ob("logger", f"{n}: taken from the cell", bool(gets) and all(fn.path(None, r, avoid=gets) is None for r in fn.rets()), fn.name, "the logger used is not the shared one")
