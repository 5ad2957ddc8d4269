"""C09: a parallel run waits for every worker and reports every failure.

Analysed: NativeThreadPoolBase construction, size, resize and run (with the exception management inlined), the sequential pool and
the function references handed to workers. Thread operations are opaque here (C11 covers them). Rules follow the exceptional edges
of the job call and of the retrieval of a worker's error, so a handler that lets an exception type escape is a path that misses
the wait loop."""
import re
from ..lib import *
from .. import ir, dyn

POLICY = r"""opaque ^std::(promise|__future_base|future|thread|exception_ptr)
opaque ^svs::threads::ThreadImpl::
opaque ^svs::threads::DefaultBuilder::build
"""
T = r"^svs::threads::ThreadImpl::"


def isjob(i):
    return i.is_call and i.r.get("ind") is not None


class View:
    """A function with the exceptional edges that matter: those of the job, of error retrieval and of explicit throws."""

    def __init__(self, fn):
        self.fn = fn
        self.keep = {i.b for i in fn.all() if i.op == "invoke" and (isjob(i) or re.search(T + "unsafe_get_exception$", i.name) or i.name in ("__cxa_throw", "__cxa_rethrow"))}
        self.cut = frozenset((b, s) for b, s in fn.unwind_edges() if b not in self.keep)

    def exits(self):
        return [i for i in self.fn.all() if i.op in ("ret", "resume") or i.op == "call" and i.name in ("__cxa_throw", "__cxa_rethrow")]

    def path(self, x, y, cut=(), avoid=()):
        return self.fn.path(x, y, cut=self.cut | frozenset(cut), avoid=avoid)

    def loop_cover(self, loop, addr):
        """(first, last, stride, exhausted edges) of an address over a counted loop; None when it is not one."""
        fn = self.fn
        L = lin(addr)
        exits = [e for e in loop.exits() if e not in self.cut]
        for p, ini, st in loop.inductions():
            me = ("phi", p.id)
            if st is None or st == 0:
                continue
            done = {}
            for b, s in exits:
                v = exit_bound(fn, loop, b, s, p, st)
                if v is not None:
                    done[(b, s)] = v
            if not done or len({repr(sorted(v.items(), key=repr)) for v in done.values()}) != 1:
                continue
            bound = next(iter(done.values()))
            ini = lin(ini)
            for q, i2, s2 in loop.inductions():
                m2 = ("phi", q.id)
                if s2 in (None, 0) or m2 not in L:
                    continue
                if any(isinstance(z, tuple) and z[0] == "phi" and z != m2 and fn.ins[z[1]].b in loop.body for z in L):
                    continue
                b2 = bound if q is p else ladd(lin(i2), lscale(ladd(bound, ini, -1), Fraction(s2) / st))
                first, last, stride = subst(L, m2, lin(i2)), subst(L, m2, b2), L[m2] * s2
                if stride < 0:
                    first, last, stride = ladd(last, {1: -stride}), ladd(first, {1: -stride}), -stride
                return first, last, stride, set(done)
        return None

    def every(self, loop, ins):
        """every path head -> latch goes through ins"""
        fn = self.fn
        if ins.b == loop.head:
            return True
        seen, work = set(), [loop.head]
        while work:
            b = work.pop()
            if b == ins.b:
                continue
            for s in fn.succ[b]:
                if (b, s) in self.cut or s not in loop.body or s in seen:
                    continue
                if s == loop.head:
                    return False
                seen.add(s)
                work.append(s)
        return True

    def within(self, loop, src, blocked=(), cut=frozenset()):
        """is the loop head reachable from after instruction src, staying in the loop, avoiding instructions and edges"""
        fn = self.fn
        bl = {x.b for x in blocked if x is not src}
        seen, work = set(), [src.b]
        while work:
            b = work.pop()
            if b in bl and b != src.b:
                continue
            for s in fn.succ[b]:
                if (b, s) in self.cut or (b, s) in cut or s not in loop.body:
                    continue
                if s == loop.head:
                    return True
                if s not in seen and s not in bl:
                    seen.add(s)
                    work.append(s)
        return False


def check(ctx):
    ctx.rule("hand-off", "run assigns the job once to every worker thread, with worker indices one to the number of threads, and runs index zero itself")
    ctx.rule("wait", "once the job was started, every way out of run (return or exception) goes through a completed loop that waits for every worker")
    ctx.rule("surface", "after all workers finished, every worker's state is tested, and a failure of any worker or of the caller's share ends in an exception")
    ctx.rule("restart", "before an exception leaves run, each failed worker's error has been retrieved and the worker has been replaced")
    ctx.rule("lock", "run and resize hold the pool's mutex while they use the threads")
    ctx.rule("size", "a pool of n workers owns n - 1 threads, and resize gives the requested number")
    ctx.rule("reference", "function references call the stored function with the stored argument and index")
    m, = ctx.analyse_all([("threads.cpp", POLICY + dyn.entries("pool_ctor", "pool_size", "pool_resize", "pool_run", "seq_run", "seq_size", "fref", "tref", "tcall"))])
    run(ctx, ctx.one(m, "pool_run"))
    size(ctx, m)
    resize(ctx, ctx.one(m, "pool_resize"))
    ctor(ctx, ctx.one(m, "pool_ctor"))
    refs(ctx, m)
    ctx.assumptions += ["assign and wait do not throw for a worker that has not crashed (C11); starting a thread and formatting a message do not fail for lack of resources",
                        "a pool is created with at least one worker"]


def thread_base(fn, addr):
    """address of the vector whose elements addr points into: lin(addr) = begin + ..."""
    for k in lin(addr):
        for x in walk(k) if isinstance(k, tuple) else ():
            if isinstance(x, tuple) and x[0] == "ld" and split(x[1])[0] == ("arg", 0):
                return x[1]
            if isinstance(x, tuple) and x[0] == "phi":
                for v, b in fn.ins[x[1]].r["inc"]:
                    for y in walk(fn.E(v)):
                        if isinstance(y, tuple) and y[0] == "ld" and split(y[1])[0] == ("arg", 0):
                            return y[1]
    return None


def run(ctx, fn):
    v = View(fn)
    jobs = [i for i in fn.all() if isjob(i) and strip(fn.E(i.r["ind"])) == ("arg", 1)]
    asg = fn.calls(T + "(unsafe_)?assign$")
    ok = len(jobs) == 1 and len(asg) == 1
    ctx.ob("hand-off", "one assignment site and one call of the caller's share", ok, fn.name, "the job is not handed out from one place and run once by the caller")
    if not ok:
        return
    job, a = jobs[0], asg[0]
    base = thread_base(fn, callarg(fn, a))
    ctx.ob("hand-off", "threads", base is not None, a.where, "the assigned thread is not one of the pool's")
    if base is None:
        return
    lo, hi = vec_range(fn, base)

    def full(loop, call):
        c = v.loop_cover(loop, callarg(fn, call))
        return c[3] if c and c[0] == lo and c[1] == hi and v.every(loop, call) else None

    def loops_with(pat):
        out = []
        for c in fn.calls(pat):
            ls = fn.loops_of(c)
            if ls:
                e = full(ls[0], c)
                if e:
                    out.append((ls[0], c, e))
        return out
    # hand-off
    la = fn.loops_of(a)
    e = full(la[0], a) if len(la) == 1 else None
    ctx.ob("hand-off", "every thread is assigned", e is not None and all(v.path(None, r, cut=e) is None for r in fn.rets()), a.where, "a worker may be left without the job")
    arg = callarg(fn, a, 1)
    f = [None] * 3
    if split(arg)[0][0] == "alloca":
        for k in range(3):
            st = [s for s, so in fn.stores_raw(split(arg)[0][1]) if so == split(arg)[1] + 8 * k and fn.dominates(s, a)]
            f[k] = fn.E(st[-1].ops[0]) if st else None
    ctx.ob("hand-off", "the job assigned", f[0] == ("arg", 1) and f[1] == ("arg", 2), a.where, "another function is assigned to the workers")
    # index = (address - begin)/stride + 1
    okidx = False
    if e is not None and f[2] is not None:
        c = v.loop_cover(la[0], callarg(fn, a))
        L = ladd(lin(callarg(fn, a)), lo, -1)
        want = ladd(lscale(L, Fraction(1) / c[2]), {1: Fraction(1)})
        okidx = lin(f[2]) == want or inlock(fn, v, la[0], f[2], c, lo, callarg(fn, a))
    ctx.ob("hand-off", "worker index", okidx, a.where, "thread i of the pool is not given index i + 1")
    ctx.ob("hand-off", "the caller's share", strip(fn.E(job.args[0])) == ("arg", 2) and strip(fn.E(job.args[1])) == ("c", 0) and not fn.loops_of(job) and all(v.path(None, r, avoid=[job]) is None for r in fn.rets()), job.where, "the caller does not run index zero exactly once")
    # wait
    waits = loops_with(T + "wait$")
    edges = set().union(*[x[2] for x in waits]) if waits else set()
    ctx.ob("wait", "wait loops", bool(waits), fn.name, "no loop waits for every worker")
    for k, (what, start) in enumerate((("the caller's share", job), ("handing out the job", a))):
        for x in v.exits():
            ctx.ob("wait", f"from {what} to {x.op}", v.path(start, x, cut=edges) is None, x.where, "run can be left while workers are still running")
    # surface
    un = fn.blocks[job.unwind][0] if job.op == "invoke" else None
    ctx.ob("surface", "failure of the caller's share", un is None or not any(r.b == job.unwind or v.path(un, r) is not None for r in fn.rets()), job.where, "run may return normally although the caller's share failed")
    oks = [(l, c, ed) for l, c, ed in loops_with(T + "is_okay$")]
    good = []
    for l, c, ed in oks:
        w = [x for x in waits if x[0] is l and fn.dominates(x[1], c) and same(callarg(fn, x[1]), callarg(fn, c))]
        others = set().union(*[x[2] for x in waits if x[0] is not l]) if waits else set()
        if not w and (v.path(a, c, cut=others) is not None or v.path(job, c, cut=others) is not None):
            continue
        good.append((l, c, ed))
    gedges = set().union(*[x[2] for x in good]) if good else set()
    for r in fn.rets():
        ctx.ob("surface", "every worker tested before returning", bool(good) and v.path(job, r, cut=gedges) is None, r.where, "run may return without having tested a worker's state after it finished")
    # an unsuccessful test never leads back to a normal return
    for c in fn.calls(T + "is_okay$"):
        cc = ("call", c.name, c.id)
        tt = fn.cut_for(lambda at: at[0] == "true" and strip(at[1]) == cc)
        ctx.ob("surface", f"failed worker at {c.where.split('/')[-1]} ({c.id})", all(v.path(c, r, cut=tt, avoid=[c]) is None for r in fn.rets()), c.where, "run may return normally although a worker failed")
    # restart: loops whose iterations replace failed workers
    rest = set()
    for l, c, ed in loops_with(T + "is_okay$"):
        cc = ("call", c.name, c.id)
        tt = fn.cut_for(lambda at: at[0] == "true" and strip(at[1]) == cc)
        addr = callarg(fn, c)
        at = lambda pat: [x for x in fn.calls(pat) if x.b in l.body and same(callarg(fn, x), addr)]
        get, shut, mv = at(T + "unsafe_get_exception$"), at(T + "shutdown$"), at(T + "operator=$")
        if not (get and mv and shut):
            continue
        if v.within(l, c, mv, tt) or any(v.path(c, x, cut=tt, avoid=shut) is not None for x in mv) or any(v.path(c, x, cut=tt, avoid=get) is not None for x in shut):
            continue
        if not all(built(fn, x) for x in mv):
            continue
        w = [x for x in waits if x[0] is l and fn.dominates(x[1], c)]
        others = set().union(*[x[2] for x in waits if x[0] is not l]) if waits else set()
        if not w and v.path(job, c, cut=others) is not None:
            continue
        rest |= ed
    for x in v.exits():
        if x.op != "ret":
            ctx.ob("restart", f"exception out of run ({x.id})", v.path(job, x, cut=rest) is None, x.where, "an exception leaves run before every failed worker was replaced")
    ctx.ob("restart", "replacement loop", bool(rest), fn.name, "failed workers are not replaced by new ones")
    locked(ctx, fn, "run", lambda i: isjob(i) or re.search(T, i.name), v)


def built(fn, mv):
    """the moved-from thread was made by the builder just before"""
    src = callarg(fn, mv, 1)
    return any(fn.E(b.args[0]) == src and fn.dominates(b, mv) for b in fn.calls(r"::build$") if b.args)


def inlock(fn, v, loop, idx, c, lo, addr):
    """idx advances in lockstep with the element address and starts at one"""
    L = lin(idx)
    A = lin(addr)
    ind = {("phi", p.id): (lin(i), st) for p, i, st in loop.inductions() if st not in (None, 0)}
    ks = [k for k in L if k in ind]
    if len(ks) != 1:
        return False
    i0, st = ind[ks[0]]
    first = subst(L, ks[0], i0)
    fa = None
    for k in A:
        if k in ind:
            fa = subst(A, k, ind[k][0])
            step = A[k] * ind[k][1]
    return fa == lo and first == {1: Fraction(1)} and L[ks[0]] * st == Fraction(step) / c[2]


def locked(ctx, fn, n, use, v):
    locks = fn.calls(r"^(std::mutex|std::lock_guard|std::unique_lock)::lock$|^pthread_mutex_lock$")
    unl = fn.calls(r"^(std::mutex|std::unique_lock)::unlock$|^pthread_mutex_unlock$")
    uses = [i for i in fn.all() if i.is_call and use(i)]
    ctx.ob("lock", n, bool(locks) and bool(uses) and all(any(fn.dominates(l, u) for l in locks) for u in uses), fn.name, "the pool's threads are used without holding its mutex")
    ctx.ob("lock", f"{n}: kept", all(fn.path(u, x) is None for u in unl for x in uses), fn.name, "the pool's mutex is released while the threads are still used")


def nthreads(fn):
    """linear form of threads_.size() from loads of the function's pool argument"""
    for i in fn.all("load"):
        e = fn.EI(i)
        if e[0] == "ld" and split(e[1])[0] == ("arg", 0):
            a = e[1]
            b = mkaddr(a, 8, ())
            if any(fn.EI(j) == ("ld", b) for j in fn.all("load")):
                return a
    return None


def size(ctx, m):
    fn = ctx.one(m, "pool_size")
    base = nthreads(fn)
    lo, hi = vec_range(fn, base) if base else (None, None)
    want = ladd(lscale(ladd(hi, lo, -1), Fraction(1, 32)), {1: Fraction(1)}) if base else None
    sz = m.sizeof("x") if False else 32
    e = fn.E(fn.rets()[0].ops[0])
    ctx.ob("size", "size", base is not None and lin(e) == want, fn.name, "the size of the pool is not the number of its threads plus one")
    fn = ctx.one(m, "seq_size")
    ctx.ob("size", "sequential size", strip(fn.E(fn.rets()[0].ops[0])) == ("c", 1), fn.name, "the sequential pool does not have one worker")


def resize(ctx, fn):
    base = None
    for c in fn.calls(r"^std::vector::(push_back|emplace_back|resize)$"):
        base = callarg(fn, c)
    ctx.ob("size", "resize changes the threads", base is not None, fn.name, "resize does not change the threads")
    if base is None:
        return
    lo, hi = vec_range(fn, base)
    cur = ladd(lscale(ladd(hi, lo, -1), Fraction(1, 32)), {1: Fraction(1)})
    cut = fn.unwind_edges()
    want = [("umax", ("arg", 1), ("c", 1)), ("umax", ("c", 1), ("arg", 1))]

    def isnew(l, k=0):
        """linear form is max(n, 1) + k"""
        r = ladd(l, {1: Fraction(-k)})
        if len(r) == 1:
            (z, cf), = r.items()
            if cf == 1 and (z in want or isinstance(z, tuple) and maxone(fn, z)):
                return True
        return False
    rs = [c for c in fn.calls(r"^std::vector::resize$")]
    ctx.ob("size", "shrink", all(isnew(lin(callarg(fn, c, 1)), -1) for c in rs), fn.name, "the number of threads kept is not the requested number minus one")

    def rel(a, tests):
        if a[0] != "cmp":
            return False
        for x, y, p in ((a[2], a[3], a[1]), (a[3], a[2], ir.CMPSWAP[a[1]])):
            d = ladd(lin(x), cur, -1)
            if isnew(d) is False and not any(isinstance(k, tuple) and (k in want or maxone(fn, k)) for k in lin(x)):
                continue
            # new + kx  p  cur + ky
            kx = ladd(lin(x), {k: 1 for k in lin(x) if isinstance(k, tuple) and (k in want or maxone(fn, k))}, -1)
            ky = ladd(lin(y), cur, -1)
            dd = ladd(kx, ky, -1)
            if set(dd) - {1}:
                continue
            if (p, dd.get(1, 0)) in tests:
                return True
        return False
    up = fn.cut_for(lambda a: rel(a, {("ule", 0), ("ult", 1), ("ult", 0), ("eq", 0)}))      # new <= size
    down = fn.cut_for(lambda a: rel(a, {("uge", 0), ("ugt", 1), ("ugt", 0), ("eq", 0), ("ugt", -1)}))    # new >= size
    for r in fn.rets():
        ok1 = fn.path(None, r, cut=cut | up, avoid=rs) is None
        ok2 = fn.path(None, r, cut=cut | down, avoid=rs) is None
        ctx.ob("size", "resize grows enough", ok1, r.where, "resize may return with fewer workers than requested")
        ctx.ob("size", "resize shrinks enough", ok2, r.where, "resize may return with more workers than requested")
    locked(ctx, fn, "resize", lambda i: re.search(r"^std::vector::|::build$", i.name), None)


def maxone(fn, e):
    """select/phi forms of max(arg1, 1)"""
    if e in (("umax", ("arg", 1), ("c", 1)), ("umax", ("c", 1), ("arg", 1))):
        return True
    if e[0] == "sel" and e[1][0] == "cmp":
        return {strip(e[2]), strip(e[3])} == {("arg", 1), ("c", 1)}
    if e[0] == "phi":
        return {strip(fn.E(v)) for v, b in fn.ins[e[1]].r["inc"]} == {("arg", 1), ("c", 1)}
    return False


def ctor(ctx, fn):
    pb = fn.calls(r"^std::vector::(push_back|emplace_back)$")
    ok = False
    if len(pb) == 1 and len(fn.loops_of(pb[0])) == 1:
        l = fn.loops_of(pb[0])[0]
        for p, ini, bound, st, tb in loop_bounds(fn, l):
            n = lscale(ladd(bound, ini, -1), Fraction(1) / st)
            ok = ok or n == {("arg", 1): Fraction(1), 1: Fraction(-1)} and every_iteration(fn, l, pb[0])
    ctx.ob("size", "construction", ok, fn.name, "a pool of n workers is not given n - 1 threads")


def refs(ctx, m):
    A = lambda k: ("arg", k)
    fn = ctx.one(m, "fref")
    c = fn.calls(r"^Job::operator\(\)$")
    ctx.ob("reference", "FunctionRef", len(c) == 1 and fn.E(c[0].args[0]) == A(0) and fn.E(c[0].args[1]) == A(1) and not fn.loops_of(c[0]) and must_pass(fn, fn.rets()[0], {c[0].b}), fn.name, "a function reference does not call the object with the index")
    fn = ctx.one(m, "tref")
    st = {fn.E(s.ops[1]): fn.E(s.ops[0]) for s in fn.all("store")}
    ctx.ob("reference", "ThreadFunctionRef", st == {A(3): A(0), mkaddr(A(3), 8, ()): A(1), mkaddr(A(3), 16, ()): A(2)}, fn.name, "a thread function reference does not hold what it was given")
    fn = ctx.one(m, "tcall")
    js = [i for i in fn.all() if isjob(i)]
    L = lambda o: ("ld", mkaddr(A(0), o, ()))
    ctx.ob("reference", "call", len(js) == 1 and strip(fn.E(js[0].r["ind"])) == L(0) and [strip(fn.E(x)) for x in js[0].args] == [L(8), L(16)] and must_pass(fn, fn.rets()[0], {js[0].b}), fn.name, "the stored function is not called with the stored argument and index")
    fn = ctx.one(m, "seq_run")
    js = [i for i in fn.all() if isjob(i)]
    ctx.ob("hand-off", "sequential pool", len(js) == 1 and strip(fn.E(js[0].r["ind"])) == A(0) and [strip(fn.E(x)) for x in js[0].args] == [A(1), ("c", 0)] and must_pass(fn, fn.rets()[0], {js[0].b}) and not fn.loops_of(js[0]), fn.name, "the sequential pool does not run index zero once")
