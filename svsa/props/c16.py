"""C16 - searching does not modify the index or share scratch space. The write effects of every search path (graph search over
static and mutable indexes, exhaustive search, inverted index, reading vectors back) are enumerated from the IR with everything
between the entry and the traversal inlined: no store, atomic or call reached by a search may write through the index, the
queries, the settings or a global object; and inside the job given to the workers, whatever is written is either made by that
very run of the job, or the part of the results (of the candidate rows) that belongs to the queries of this worker's share."""
import re
from ..lib import *
from ..renum import nt
from ..ir import walk
from .. import dyn
from . import c18, c20
from .c14 import job_of
from .c17 import makers

BASE = c20.BASE
NOFLAT = BASE
INL = "+inline ^svs::index::flat::FlatIndex::\n"
# (name, harness, entry, index argument, arguments written)
S = [("static graph search", "static.cpp", "search", 0, (1,)), ("static batch search", "static.cpp", "batch", 1, (0,)), ("static read-back", "static.cpp", "reconstruct", 0, (1,)),
     ("mutable graph search", "dynamic.cpp", "search", 0, (1,)), ("mutable exhaustive search", "dynamic.cpp", "exhaustive", 0, (2,)), ("mutable read-back", "dynamic.cpp", "reconstruct", 0, (1,)),
     ("flat search", "flat.cpp", "search", 0, (1,)), ("flat search with predicate", "flat.cpp", "search_pred", 0, (1,)), ("flat search of a subset", "flat.cpp", "subset", 0, (4,)),
     ("inverted search", "inverted.cpp", "search", 0, (1,))]
G = [("static traversal", "greedy_static"), ("mutable traversal", "greedy_dynamic")]


def check(ctx):
    ctx.rule("index", "no store, atomic operation or call on a search path writes through the index, the queries or the settings")
    ctx.rule("global", "no store, atomic operation or call on a search path writes to an object shared by the whole process")
    ctx.rule("own", "what a job of a parallel search writes was made by that run of the job, or is the part of the results belonging to the worker's share of the queries")
    E = lambda *ns: "".join(c18.TOTAL.format(n) for n in ns)
    jobs = [("static.cpp", BASE + dyn.entries("search", "batch", "reconstruct")), ("dynamic.cpp", BASE + dyn.entries("search", "exhaustive", "reconstruct")),
            ("flat.cpp", BASE + "".join(E(n) + INL for n in ("search", "search_pred", "subset"))), ("inverted.cpp", BASE + E("search")),
            ("greedy.cpp", BASE.replace("greedy_search$|", "") + E("greedy_static", "greedy_dynamic"))]
    ms = dict(zip([h for h, _ in jobs], ctx.analyse_all([(h, p, {"pch": True, "extra": ["-DSVSA_POOL_LOOP"] + (["-DDIST=" + c18.COS] if h != "inverted.cpp" else [])}) for h, p in jobs])))
    for name, h, l, x, w in S:
        search(ctx, name, ctx.one(ms[h], l), x, w)
    for name, l in G:
        search(ctx, name, ctx.one(ms["greedy.cpp"], l), None, (5, 6) + tuple(k for k in range(7, 12)) if False else (5, 6), True)
    ctx.minimum("index", 30)
    ctx.minimum("own", 20)
    ctx.minimum("global", len(S) + len(G))


def what(e):
    return e.kind.split("::")[-1] if e.ins.is_call else e.kind


def search(ctx, name, fn, index, out, traversal=False):
    ng = nj = 0
    sret = bool(fn.r["args"] and fn.r["args"][0].get("sret"))
    for e in effects(fn):
        if e.ins.b in fn.cold or released(fn, e):
            continue
        b = e.base
        w = worker(fn, e.ins)
        if b[0] == "arg":
            if lock_only(e):
                continue
            ctx.ob("index", f"{name}: {what(e)} at {where(e)}", b[1] in out or (traversal and tracker(fn, b[1])), e.ins.where,
                   f"searching writes through argument {b[1]} of the operation" + (" (the index)" if b[1] == index else ""))
        elif b[0] in ("g", "global"):
            ng += 1
            if not thread_local(fn, b):
                ctx.ob("global", f"{name}: {what(e)} at {where(e)}", False, e.ins.where, "a search writes to an object shared by all threads")
        if w is None:
            continue
        nj += 1
        ctx.ob("own", f"{name}: {what(e)} at {where(e)}", owned(fn, e, w), e.ins.where, "a worker writes to something that other workers use as well")
    ctx.ob("global", f"{name}: all writes resolved", not any(e.base[0] not in ("arg", "alloca", "call", "g", "global") for e in effects(fn) if e.ins.b not in fn.cold), fn.label, "a write whose target cannot be resolved")
    for p in carried(fn):
        ctx.ob("own", f"{name}: value carried between jobs", False, p.where, "a job changes a variable that the other jobs of the same search change as well")
    if not traversal:
        ctx.ob("own", f"{name}: work is done by jobs", nj > 0, fn.label, "no parallel job writes results")


def worker(fn, i):
    """The start of the job whose body contains the instruction."""
    for l in fn.loops_of(i):
        for w in fn.calls(r"svsa_any_worker$"):
            if w.b in l.body and any(c.b in l.body for c in fn.calls(r"svsa_another_worker$")) and fn.dominates(w, i):
                return w
    return None


def carried(fn):
    """Values that one run of a job leaves behind for the next one."""
    out = []
    for l in fn.loops:
        if any(c.b in l.body and fn.loops_of(c)[0] is l for c in fn.calls(r"svsa_another_worker$")):
            for p in fn.blocks[l.head]:
                if p.op == "phi" and not all(fn.E(v)[0] in ("undef", "poison") or b in l.body for v, b in p.r["inc"]) and any(b in l.body and fn.E(v) != ("phi", p.id) for v, b in p.r["inc"]):
                    out.append(p)
    return out


def where(e):
    return e.ins.where.split("/")[-1].split(":")[0]


def released(fn, e):
    """Destruction of a local object is no use of it by another thread; the storage behind an owner goes with the owner."""
    return False


def lock_only(e):
    return bool(re.search(r"^std::(shared_mutex|mutex|shared_lock|lock_guard|unique_lock)::(lock|unlock|lock_shared|unlock_shared|try_lock)", e.kind)) or bool(re.search(r"pthread_(rwlock|mutex)_", e.kind))


def thread_local(fn, b):
    return "thread" in str(b[-1]).lower() and "threadlocal" in str(b).lower()


def tracker(fn, k):
    return "Tracker" in (fn.r["args"][k].get("ty") or "")


def depends_on_share(fn, e):
    """The address or row is chosen by which worker runs, or by what it claimed."""
    for x in walk(nt(e)):
        if isinstance(x, tuple) and x and x[0] == "call" and (x[1].endswith("svsa_any_worker") or x[1].endswith("threads::balance")):
            return True
        if isinstance(x, tuple) and x and x[0] == "rmw":
            return True
    return False


def loops_share(fn, e, depth=0):
    """... or by a loop variable that starts there."""
    if depth > 3:
        return False
    if depends_on_share(fn, e):
        return True
    for x in walk(nt(e)):
        if isinstance(x, tuple) and x and x[0] == "phi" and x[1] in fn.ins:
            p = fn.ins[x[1]]
            if any(y != e and loops_share(fn, y, depth + 1) for y in (fn.E(v) for v, _ in p.r["inc"]) if not any(z == x for z in walk(y))):
                return True
    return False


def owned(fn, e, w):
    if e.ins.r.get("atomic") or e.ins.op in ("rmw", "cmpxchg") or lock_only(e):
        return True
    b = e.base
    if b[0] == "alloca":
        mk = [x for x in makers(fn, b) if not fn.dominates(w, x)]
        if not mk and any(x for x in makers(fn, b)) or not mk and e.ins.op == "store":
            return True
    elif b[0] == "call" and b[2] in fn.ins and fn.dominates(w, fn.ins[b[2]]):
        return True
    if e.ins.is_call and re.search(r"::(insert|set)$", e.kind):
        return any(loops_share(fn, fn.E(a)) for a in e.ins.args[1:2])
    return loops_share(fn, e.addr)
