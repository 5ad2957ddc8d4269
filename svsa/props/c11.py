"""C11: the hand-off between controller and worker cannot lose a wake-up, a job or an error.

Analysed: every controller operation of ThreadControlBlock (assign, shutdown, wait), the worker loop with its spin and sleep phases
inlined, and the Thread wrapper (construction, assignment, error retrieval, shutdown, destruction). The rules are order and typestate
rules over the atomic state variable, the condition variable and its mutex, the job slot and the promise; they hold for every
interleaving because each side's obligations are local: what must happen before an update of the state becomes visible and what must
be re-examined after every wake-up."""
import re
from ..lib import *
from .. import ir, dyn
from .c09 import isjob

WORKING, SPINNING, SLEEPING, EXCEPTION, REQUEST, SHUTDOWN = range(6)
ALL = range(6)
POLICY = r"""opaque ^std::(promise|__future_base|future|exception_ptr)
inline ^std::condition_variable::wait$
inline ^std::(thread::_Invoker|__invoke|__invoke_impl)
inline ^std::thread::_State_impl
"""
WRAP = r"opaque ^svs::threads::ThreadControlBlock::(assign|shutdown|unsafe_run|wait_while_busy|is_okay|is_shutdown)$" + "\n" + r"entry t_body ^std::thread::_State_impl<.*>::_M_run\(\)$" + "\n"
LOCK = r"^(std::mutex::lock|pthread_mutex_lock)$"
UNLOCK = r"^(std::mutex::unlock|pthread_mutex_unlock)$"
WAIT = r"^std::condition_variable::wait$"
NOTIFY = r"^std::condition_variable::notify_(one|all)$"


class Proto:
    """Accesses of a function to the hand-off variables of the control block it is given."""

    def __init__(self, fn, state=("arg", 0)):
        self.fn, self.state = fn, state
        self.cas = [i for i in fn.all("cmpxchg") if strip(fn.E(i.ops[0])) == state]
        self.stores = [i for i in fn.all("store") if strip(fn.E(i.ops[1])) == state]
        self.loads = [i for i in fn.all("load") if strip(fn.E(i.ops[0])) == state]
        self.unwind = frozenset((b, s) for b, s in fn.unwind_edges() if not fn.term(b).name in ("__cxa_throw", "__cxa_rethrow") and not isjob(fn.term(b)))
        self._st = {}

    def isstate(self, e, seen=()):
        """the expression is a value the state variable was observed to have"""
        e = strip(e)
        if e == ("ld", self.state):
            return True
        if e in seen:
            return True
        if e[0] == "phi":
            return all(self.isstate(self.fn.E(v), seen + (e,)) for v, b in self.fn.ins[e[1]].r["inc"])
        for c in self.cas:
            if e == strip(self.fn.E(c.ops[1])) and e[0] != "c":
                return True
            if e[0] in ("ev", "xv") and self.iscas(e, c, 0):
                return True
        return False

    def iscas(self, e, c, k):
        e = strip(e)
        return e[0] == "ev" and e[1] == ("cmpxchg", c.id) and tuple(e[2]) == (k,)

    def known(self, a):
        """set of states an atom restricts the observed state to, or None"""
        if a[0] == "in" and self.isstate(a[1]):
            return set(a[2])
        if a[0] != "cmp":
            return None
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], ir.CMPSWAP.get(a[1], a[1]))):
            if y[0] == "c" and self.isstate(x):
                k = y[1]
                f = {"eq": lambda s: s == k, "ne": lambda s: s != k, "ult": lambda s: s < k, "ule": lambda s: s <= k, "ugt": lambda s: s > k, "uge": lambda s: s >= k}.get(p)
                return {s for s in ALL if f(s)} if f else None
        return None

    def edges_in(self, states):
        """edges over which the observed state is known to be one of `states`"""
        out = set()
        for b, s in self.fn.edges():
            k = set(ALL)
            hit = False
            for a in self.fn.edge_atoms(b, s):
                r = self.known(a)
                if r is not None:
                    k &= r
                    hit = True
            # the default edge of a switch carries one atom per case
            if hit and k <= set(states):
                out.add((b, s))
        return frozenset(out)

    def success(self, c, ok):
        f = lambda a: a[0] == ("true" if ok else "false") and self.iscas(a[1], c, 1)
        return frozenset(self.fn.cut_for(f))


def order(i):
    return i.r.get("atomic") or ""


ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


def check(ctx):
    ctx.rule("publish", "a job is stored in full, while the worker is not working, before the update that signals it, and not changed afterwards")
    ctx.rule("signal", "an operation only returns after its update of the state succeeded, and a sleeping worker is notified after the update with its mutex taken in between")
    ctx.rule("restore", "an update of a crashed or stopped worker's state is undone before the operation ends")
    ctx.rule("sleep", "a worker goes to sleep only by an update from spinning made under the mutex it sleeps on, keeps the mutex until it waits, and re-checks the state after every wake-up")
    ctx.rule("run", "a worker runs the stored job only after observing the request with acquire order, once per request, and never after a shutdown request")
    ctx.rule("complete", "completion is published with release order only after the job finished; a failed job leaves the exception state and the error in the promise, and ends the worker")
    ctx.rule("observe", "the controller observes completion with acquire order and only when the worker is no longer working")
    ctx.rule("wrap", "a thread starts in the boot state, is only handed out once running, keeps its control block until the worker is joined, and hands its error to the controlling thread")
    m, w = ctx.analyse_all([("threads.cpp", POLICY + dyn.entries("cb_wait", "cb_assign", "cb_shutdown", "cb_sleep", "cb_run", "cb_okay", "cb_isshut", "t_okay", "t_isshut", "t_wait")),
                            ("threads.cpp", POLICY + WRAP + dyn.entries("t_ctor", "t_assign", "t_get", "t_shutdown", "t_dtor"))])
    runf = ctx.one(m, "cb_run")
    slot = job_slot(runf)
    ctx.ob("run", "job slot", slot is not None, runf.name, "the worker does not call the job stored in the control block")
    controller(ctx, ctx.one(m, "cb_assign"), "assign", WORKING, slot)
    controller(ctx, ctx.one(m, "cb_shutdown"), "shutdown", REQUEST, None)
    sleep(ctx, ctx.one(m, "cb_sleep"), "try_sleep")
    sleep(ctx, runf, "worker loop")
    same_primitives(ctx, ctx.one(m, "cb_assign"), ctx.one(m, "cb_shutdown"), runf)
    worker(ctx, runf)
    wait(ctx, ctx.one(m, "cb_wait"), "wait_while_busy")
    t = ctx.one(m, "t_wait")
    wait(ctx, t, "Thread::wait", control(t))
    for n, st, neg in (("cb_okay", EXCEPTION, True), ("cb_isshut", SHUTDOWN, False), ("t_okay", EXCEPTION, True), ("t_isshut", SHUTDOWN, False)):
        query(ctx, ctx.one(m, n), n, st, neg)
    wrapper(ctx, w)
    ctx.assumptions += ["one controlling thread at a time uses a control block (the pool's mutex, C09)", "atomics, mutexes, condition variables, promises and threads behave as the C++ standard says",
                        "the worker is never seen in a state only it can leave (spinning and sleeping are excluded by the rules; exception and shutdown end the worker)"]


def job_slot(fn):
    for j in fn.all():
        if isjob(j):
            e = strip(fn.E(j.r["ind"]))
            if e[0] == "ld" and split(e[1])[0] == ("arg", 0):
                return e[1]
    return None


def control(fn):
    """address of the state for a Thread: the control block it points to"""
    for i in fn.all("load"):
        e = strip(fn.E(i.ops[0]))
        if e[0] == "ld" and split(e[1])[0] == ("arg", 0):
            return e
    return ("arg", 0)


def writes(fn, base, lo, hi):
    """instructions writing into [base+lo, base+hi)"""
    out = []
    for i in fn.all():
        if i.op == "store":
            a, n = fn.E(i.ops[1]), i.r.get("size") or 8
        elif i.is_call and re.match(r"llvm\.mem(cpy|move|set)", i.name):
            a, c = fn.E(i.args[0]), strip(fn.E(i.args[2]))
            n = c[1] if c[0] == "c" else 1 << 30
        else:
            continue
        b, o, v = split(a)
        if b == base and not v and o < hi and o + n > lo:
            out.append((i, o, n))
    return out


def controller(ctx, fn, n, target, slot):
    p = Proto(fn)
    cas = p.cas
    ok = bool(cas) and all(strip(fn.E(c.ops[2])) == ("c", target) for c in cas)
    ctx.ob("signal", f"{n}: update", ok, fn.name, "the state is not updated to the requested state by compare-and-swap")
    if not ok:
        return
    for c in cas:
        ctx.ob("signal", f"{n}: expected value", p.isstate(fn.E(c.ops[1])), c.where, "the value replaced is not the one last observed")
        ctx.ob("signal", f"{n}: order", order(c) in REL, c.where, "the update does not release what was stored before it")
    okedges = frozenset().union(*[p.success(c, True) for c in cas])
    fails = frozenset().union(*[p.success(c, False) for c in cas])
    spin = p.edges_in({SPINNING})
    notes = fn.calls(NOTIFY)
    locks = fn.calls(LOCK)
    good = []
    for x in notes:
        held = [l for l in locks if all(fn.dominates(l, c) and all(fn.path(l, u) is None or fn.path(u, c, avoid=[l]) is None for u in fn.calls(UNLOCK)) for c in cas)]
        if held or all(fn.path(c, x, cut=p.unwind, avoid=locks) is None for c in cas):
            good.append(x)
    undo = [s for s in p.stores if p.isstate(fn.E(s.ops[0]))]
    other = [s for s in p.stores if s not in undo]
    ctx.ob("signal", f"{n}: other updates", not other, other[0].where if other else fn.name, "the controller stores the state directly")
    for r in fn.rets():
        for c in cas:
            ctx.ob("signal", f"{n}: wake-up", fn.path(c, r, cut=p.unwind | fails | spin, avoid=good + (undo if n != "assign" else [])) is None, c.where, "the operation returns although a worker that may be asleep was not notified after the update (with its mutex taken in between)")
        stopped = frozenset() if n == "assign" else p.edges_in({EXCEPTION, SHUTDOWN})
        ctx.ob("signal", f"{n}: retried until it succeeds", fn.path(None, r, cut=p.unwind | okedges | stopped) is None, r.where, "the operation may return without its update of the state having succeeded")
        if n == "assign":
            ctx.ob("signal", f"{n}: undone", all(fn.path(u, r, cut=p.unwind) is None for u in undo), r.where, "assign returns normally after undoing its update")
    live = p.edges_in({SPINNING, SLEEPING})
    for x in fn.rets() + [i for i in fn.all() if i.name in ("__cxa_throw",) and i.is_call]:
        for c in cas:
            ctx.ob("restore", f"{n}: {x.op} ({x.id})", fn.path(c, x, cut=p.unwind | fails | live, avoid=undo) is None, x.where, "the state of a crashed or stopped worker is left changed")
    if slot is None:
        return
    base, off, _ = split(slot)
    ws = writes(fn, base, off, off + 24)
    ctx.ob("publish", "stored", bool(ws), fn.name, "the job is not stored in the control block")
    cov = set()
    for i, o, k in ws:
        if all(fn.dominates(i, c) for c in cas):
            cov |= set(range(max(o, off), min(o + k, off + 24)))
            src = None
            if i.op == "store":
                src = copied(fn, fn.E(i.ops[0]), o - off)
            else:
                src = copied_addr(fn, fn.E(i.args[1]), o - off)
            ctx.ob("publish", f"value at {o - off}", src, i.where, "what is stored is not the job given")
    ctx.ob("publish", "complete", cov >= set(range(off, off + 24)), fn.name, "a part of the job is not stored before the update that signals it")
    idle = p.edges_in(set(ALL) - {WORKING})
    for i, o, k in ws:
        ctx.ob("publish", f"not while working ({o - off})", fn.path(None, i, cut=idle) is None, i.where, "the job may be overwritten while the worker is still working")
        ctx.ob("publish", f"not after the signal ({o - off})", all(fn.path(c, i, cut=p.unwind) is None for c in cas), i.where, "the job is written after the worker was signalled")
    for l in p.loads:
        if any(fn.path(l, i[0], cut=frozenset(), avoid=[x for x in p.loads if x is not l]) is not None and idle_through(p, l, i[0]) for i in ws):
            ctx.ob("publish", f"observed idle ({l.id})", order(l) in ACQ, l.where, "the end of the previous job is not observed with acquire order")


def idle_through(p, l, i):
    """the write can be reached from load l over an edge deciding on it, without a later load"""
    return p.fn.path(l, i, avoid=[x for x in p.loads if x is not l]) is not None


def copied_addr(fn, e, k, d=0):
    """the memory at address e holds the argument's byte range k.."""
    b, o, v = split(e)
    if b == ("arg", 1) and not v:
        return o == k
    if b[0] != "alloca" or v or d > 8:
        return False
    for c in fn.calls(r"^llvm\.mem(cpy|move)"):
        if split(fn.E(c.args[0])) == (b, 0, ()) or split(fn.E(c.args[0]))[0] == b:
            o2 = split(fn.E(c.args[0]))[1]
            sb, so, sv = split(fn.E(c.args[1]))
            return copied_addr(fn, mkaddr(sb, so + o - o2, sv), k, d + 1)
    return False


def copied(fn, e, k):
    e = strip(e)
    return e[0] == "ld" and copied_addr(fn, e[1], k)


def same_primitives(ctx, *fns):
    names = {"mutex": LOCK, "condition variable": NOTIFY + "|" + WAIT}
    for what, rx in names.items():
        s = {fn.E(c.args[0]) for fn in fns for c in fn.calls(rx) if split(fn.E(c.args[0]))[0] == ("arg", 0)}
        n = {fn.E(c.args[0]) for fn in fns for c in fn.calls(rx)}
        ctx.ob("signal", f"one {what}", len(s) == 1, fns[0].name, f"controller and worker do not use the same {what}")


def sleep(ctx, fn, n):
    p = Proto(fn)
    cas = p.cas
    waits = fn.calls(WAIT)
    locks, unl = fn.calls(LOCK), fn.calls(UNLOCK)
    ctx.ob("sleep", f"{n}: waits", bool(waits) and bool(cas), fn.name, "the worker does not wait on the condition variable after updating its state")
    for c in cas:
        ctx.ob("sleep", f"{n}: from spinning", strip(fn.E(c.ops[1])) == ("c", SPINNING) and strip(fn.E(c.ops[2])) == ("c", SLEEPING), c.where, "the worker does not go from spinning to sleeping")
        ls = [l for l in locks if fn.dominates(l, c)]
        ctx.ob("sleep", f"{n}: mutex held at the update", any(all(fn.path(u, c, avoid=[l]) is None or fn.path(l, u, avoid=[c]) is None for u in unl) for l in ls), c.where, "the update to sleeping is not made under the mutex")
        for w in waits:
            ctx.ob("sleep", f"{n}: mutex kept until the wait", fn.path(c, w, cut=p.unwind) is None or all(fn.path(c, u, cut=p.unwind, avoid=waits) is None or fn.path(u, w, cut=p.unwind, avoid=[c]) is None for u in unl), c.where, "the mutex is released between the update to sleeping and the wait")
    okedges = frozenset().union(*[p.success(c, True) for c in cas]) if cas else frozenset()
    for w in waits:
        ctx.ob("sleep", f"{n}: only after the update", fn.path(None, w, cut=okedges) is None, w.where, "the worker may wait although its update to sleeping failed")
        awake = p.edges_in({WORKING, REQUEST})
        fresh = [l for l in p.loads if order(l) in ACQ]
        ends = fn.rets() + [j for j in fn.all() if isjob(j)]
        for x in ends:
            ctx.ob("sleep", f"{n}: re-check before {x.op} ({x.id})", fn.path(w, x, cut=p.unwind | awake) is None, w.where, "the worker leaves its sleep without having seen a request")
            ctx.ob("sleep", f"{n}: state read again before {x.op} ({x.id})", fn.path(w, x, cut=p.unwind, avoid=fresh) is None, w.where, "the state is not read again (acquire) after a wake-up")
        for st in (WORKING, REQUEST):
            ignore = p.edges_in(set(ALL) - {st})
            for l in p.loads:
                ctx.ob("sleep", f"{n}: awake for request {st} ({l.id})", fn.path(l, w, cut=p.unwind | ignore, avoid=[x for x in p.loads if x is not l] + cas) is None, w.where, "the worker may go on sleeping although it has seen a request")
        ctx.ob("sleep", f"{n}: no direct store", all(fn.path(c, s, cut=p.unwind, avoid=ends + p.loads) is None for c in cas for s in p.stores), w.where, "the worker overwrites the state after going to sleep")


def worker(ctx, fn):
    p = Proto(fn)
    jobs = [j for j in fn.all() if isjob(j)]
    ok = len(jobs) == 1
    ctx.ob("run", "one call", ok, fn.name, "the job is not run from one place")
    if not ok:
        return
    j = jobs[0]
    slot = job_slot(fn)
    b, o, v = split(slot) if slot else (None, 0, ())
    L = lambda k: ("ld", mkaddr(b, o + k, v))
    ctx.ob("run", "argument and index", slot is not None and [strip(fn.E(x)) for x in j.args] == [L(8), L(16)], j.where, "the job is not called with its stored argument and index")
    parts = [i for i in fn.all("load") if slot and fn.E(i.ops[0]) in (slot, mkaddr(b, o + 8, v), mkaddr(b, o + 16, v))]
    # request observed (acquire), not spinning, not shutdown
    for l in p.loads:
        others = [x for x in p.loads if x is not l]
        if fn.path(l, j, cut=p.unwind, avoid=others + [j]) is None:
            continue
        ctx.ob("run", f"request observed ({l.id})", order(l) in ACQ, l.where, "the request is not observed with acquire order before the job is read")
        noshut = p.edges_in(set(ALL) - {REQUEST})
        ctx.ob("run", f"no shutdown ({l.id})", fn.path(l, j, cut=p.unwind | noshut, avoid=others + [j]) is None, l.where, "the job may run after a shutdown request")
        busy = p.edges_in(set(ALL) - {SPINNING})
        slept = [c for c in p.cas]
        ok = fn.path(l, j, cut=p.unwind | busy, avoid=others + [j]) is None or \
            fn.path(None, l, cut=p.unwind, avoid=slept) is None and fn.path(j, l, cut=p.unwind, avoid=slept) is None and bool(slept)
        if not ok and fn.path(l, j, cut=p.unwind | busy, avoid=others + [j]) is not None:
            ok = bool(slept) and fn.path(None, l, cut=p.unwind, avoid=slept) is None and fn.path(j, l, cut=p.unwind, avoid=slept) is None
        ctx.ob("run", f"not while spinning ({l.id})", ok, l.where, "the job may run although no request was observed")
        for x in parts:
            ctx.ob("run", f"job read after the request ({x.id})", fn.path(x, j, avoid=[x]) is None or fn.path(x, l, cut=p.unwind, avoid=[j]) is None, x.where, "the job is read before the request is observed")
    ctx.ob("run", "request needed", fn.path(None, j, avoid=p.loads) is None and fn.path(j, j, avoid=p.loads) is None, j.where, "the job runs without a request having been observed")
    # completion
    exits = fn.rets() + fn.all("resume")
    un = fn.blocks[j.unwind][0] if j.op == "invoke" else None
    ctx.ob("complete", "failures caught", un is not None, j.where, "an exception of the job is not caught")
    normal = frozenset({(j.b, j.unwind)}) if un is not None else frozenset()
    done = [s for s in p.stores if strip(fn.E(s.ops[0])) == ("c", SPINNING)]
    exc = [s for s in p.stores if strip(fn.E(s.ops[0])) == ("c", EXCEPTION)]
    shut = [s for s in p.stores if strip(fn.E(s.ops[0])) == ("c", SHUTDOWN)]
    rest = [s for s in p.stores if s not in done + exc + shut]
    ctx.ob("complete", "states stored", not rest, rest[0].where if rest else fn.name, "the worker stores a state that is not its to set")
    for x in exits + [j]:
        ctx.ob("complete", f"published before {x.op} ({x.id})", fn.path(j, x, cut=p.unwind | normal, avoid=done) is None, j.where, "a finished job is not published")
    for l in p.loads:
        ctx.ob("complete", f"published before looking for work ({l.id})", fn.path(j, l, cut=p.unwind | normal, avoid=done) is None, j.where, "a finished job is not published before the worker looks for the next request")
    for s in done:
        if fn.path(j, s, cut=p.unwind | normal, avoid=p.loads) is not None or any(fn.path(l, s, cut=p.unwind) is not None for l in p.loads):
            ctx.ob("complete", f"release ({s.id})", order(s) in REL, s.where, "completion is not published with release order")
            ctx.ob("complete", f"after the job ({s.id})", all(fn.path(l, s, cut=p.unwind, avoid=[j]) is None for l in p.loads), s.where, "completion may be published before the job ran")
        ctx.ob("complete", f"not on failure ({s.id})", un is None or fn.path(un, s, cut=p.unwind) is None, s.where, "a failed job is published as finished")
        ctx.ob("complete", f"before the job ({s.id})", fn.path(s, j, avoid=p.loads) is None, s.where, "completion is published before the job runs")
    if un is not None:
        clear = fn.calls(r"^std::promise::set_exception(_at_thread_exit)?$")
        for x in exits:
            ctx.ob("complete", f"exception state before {x.op} ({x.id})", x.b != j.unwind and fn.path(un, x, cut=p.unwind, avoid=exc) is None, j.where, "a failed job does not leave the exception state")
            ctx.ob("complete", f"error stored before {x.op} ({x.id})", x.b != j.unwind and fn.path(un, x, cut=p.unwind, avoid=clear) is None, j.where, "the error of a failed job is not stored in the promise")
        ctx.ob("complete", "worker ends after a failure", all(fn.path(un, l, cut=p.unwind) is None for l in p.loads), j.where, "the worker goes on after a failed job")
        cur = fn.calls(r"current_exception$")
        for c in clear:
            ok = any(x.args and fn.E(x.args[0]) == fn.E(c.args[1]) or strip(fn.E(c.args[1])) == ("call", x.name, x.id) for x in cur)
            ctx.ob("complete", f"the job's own error ({c.id})", ok, c.where, "the promise does not receive the current exception")
    for s in exc:
        ctx.ob("complete", f"exception only on failure ({s.id})", un is not None and fn.path(None, s, cut=p.unwind | {(j.b, j.unwind)}) is None and order(s) in REL, s.where, "the exception state is set without a failed job")
    # shutdown
    req = p.edges_in({REQUEST})
    for s in shut:
        ctx.ob("complete", f"shutdown on request ({s.id})", fn.path(None, s, cut=req) is None, s.where, "the worker shuts down without having been asked to")
    for x in fn.rets():
        ctx.ob("complete", f"end state ({x.id})", fn.path(None, x, cut=p.unwind, avoid=exc + shut) is None, x.where, "the worker ends without telling so")
    promise = fn.calls(r"^std::promise::set_(value|exception)")
    for x in fn.rets():
        ctx.ob("complete", f"result ({x.id})", fn.path(None, x, cut=p.unwind, avoid=promise) is None, x.where, "the worker ends without a result in its promise")


def wait(ctx, fn, n, state=("arg", 0)):
    p = Proto(fn, state)
    ctx.ob("observe", f"{n}: state", bool(p.loads), fn.name, "the state is not read")
    idle = p.edges_in(set(ALL) - {WORKING})
    for r in fn.rets():
        ctx.ob("observe", f"{n}: not working", fn.path(None, r, cut=idle) is None, r.where, "the wait may end while the worker is working")
        for l in p.loads:
            if order(l) not in ACQ:
                ctx.ob("observe", f"{n}: acquire ({l.id})", fn.path(l, r, avoid=[x for x in p.loads if order(x) in ACQ]) is None, l.where, "the end of the job is not observed with acquire order")


def query(ctx, fn, n, st, neg):
    state = control(fn) if n.startswith("t_") else ("arg", 0)
    p = Proto(fn, state)
    e = strip(fn.E(fn.rets()[0].ops[0]))
    T = truth_set(fn, e, lambda x: strip(x) == ("ld", state), list(ALL)) if p.loads else None
    want = set(ALL) - {st} if neg else {st}
    ctx.ob("observe", n, T is not None and set(T) == want and all(order(l) in ACQ for l in p.loads), fn.name, "the worker's state is misreported")


def wrapper(ctx, w):
    fn = ctx.one(w, "t_ctor")
    th = fn.calls(r"^std::thread::thread$")
    th = [c for c in th if len(c.args) > 1]
    sts = [s for s in fn.all("store") if strip(fn.E(s.ops[0])) == ("c", SHUTDOWN)]
    lds = [i for i in fn.all("load") if order(i)]
    state = strip(fn.E(lds[0].ops[0])) if lds else None
    p = Proto(fn, state) if state else None
    ctx.ob("wrap", "boot state", bool(th) and any(fn.dominates(s, t) for s in sts for t in th), fn.name, "the worker is started before its state is the boot state")
    ctx.ob("wrap", "no state change while starting", p is not None and all(fn.path(t, s) is None for t in th for s in fn.all("store") if order(s)), fn.name, "the state is overwritten while the worker starts")
    started = p.edges_in(set(ALL) - {SHUTDOWN}) if p else frozenset()
    ctx.ob("wrap", "started", p is not None and bool(th) and all(fn.path(t, r, cut=started) is None for t in th for r in fn.rets()), fn.name, "construction may end before the worker is running")
    fu = fn.calls(r"^std::promise::get_future$")
    ctx.ob("wrap", "future", bool(fu) and all(any(fn.dominates(f, t) for f in fu) for t in th), fn.name, "the error channel is not set up before the worker starts")
    for b in w.get("t_body"):
        u = b.calls(r"ThreadControlBlock::unsafe_run$")
        ctx.ob("wrap", "worker body", len(u) == 1 and not b.loops_of(u[0]) and all(must_pass(b, r, {u[0].b}) for r in b.rets()) and strip(b.E(u[0].args[0]))[0] == "ld", b.name, "the started thread does not run the worker loop on its control block")
    ctx.ob("wrap", "worker body present", bool(w.get("t_body")), fn.name, "the started thread has no body")
    fn = ctx.one(w, "t_assign")
    a = fn.calls(r"ThreadControlBlock::assign$")
    ok = len(a) == 1 and copied_addr(fn, callarg(fn, a[0], 1), 0) and not fn.loops_of(a[0])
    ctx.ob("wrap", "assign", ok and all(must_pass(fn, r, {a[0].b}) for r in fn.rets()), fn.name, "the job is not handed to the control block once")
    if len(a) == 1 and a[0].op == "invoke":
        un = fn.blocks[a[0].unwind][0]
        ctx.ob("wrap", "failed assignment", not any(r.b == un.b or fn.path(un, r) is not None for r in fn.rets()), a[0].where, "assign returns normally although the worker did not take the job")
    fn = ctx.one(w, "t_get")
    g = fn.calls(r"^std::future::get$")
    ctx.ob("wrap", "error retrieval", bool(g) and not fn.rets() and all(fn.path(None, i, avoid=g) is None for i in fn.throws()), fn.name, "the worker's error is not taken from its future, or retrieval may end without an error")
    for n in ("t_shutdown", "t_dtor"):
        fn = ctx.one(w, n)
        s = fn.calls(r"ThreadControlBlock::shutdown$")
        j = fn.calls(r"^std::thread::join$")
        null = fn.cut_for(lambda a: a[0] == "cmp" and a[1] == "eq" and {strip(a[2])[0], strip(a[3])[0]} == {"ld", "c"} and ("c", 0) in (strip(a[2]), strip(a[3])) and not any(isinstance(x, tuple) and x[0] == "call" for x in walk(a[2])))
        nj = fn.cut_for(lambda a: a[0] == "false" and strip(a[1])[0] == "call" and strip(a[1])[1].endswith("thread::joinable") or a[0] == "cmp" and a[1] == "eq" and any(strip(x)[0] == "call" and strip(x)[1].endswith("joinable") for x in (a[2], a[3])))
        ends = fn.rets() + fn.calls(r"^operator delete$")
        for x in ends:
            ctx.ob("wrap", f"{n}: requested before {x.op} {x.name} ({x.id})", bool(s) and fn.path(None, x, cut=null, avoid=s) is None, x.where, "the worker is not asked to shut down")
            ctx.ob("wrap", f"{n}: joined before {x.op} {x.name} ({x.id})", bool(j) and fn.path(None, x, cut=nj, avoid=j) is None, x.where, "the worker is not joined")
        ctx.ob("wrap", f"{n}: order", all(fn.path(None, y, cut=null, avoid=s) is None for y in j), fn.name, "the worker is joined without having been asked to shut down")
