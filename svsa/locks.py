"""Which locks are certainly held where."""
from .lib import *
from .renum import *
import re

LOCK = r"(^|::)(SpinLock|mutex|recursive_mutex|timed_mutex|shared_mutex|shared_timed_mutex)::lock$|^pthread_(mutex_lock|rwlock_wrlock|spin_lock)$"
SHARED = r"::(shared_mutex|shared_timed_mutex)::lock_shared$|^pthread_rwlock_rdlock$"
UNLOCK = r"(^|::)(SpinLock|mutex|recursive_mutex|timed_mutex|shared_mutex|shared_timed_mutex)::unlock(_shared)?$|^pthread_(mutex|rwlock|spin)_unlock$"
TRY = r"(^|::)(SpinLock|mutex|shared_mutex)::try_lock(_shared)?$|^pthread_\w+_trylock$"


def operand(fn, c):
    return fn.E(callargs(fn, c)[0])


def callargs(fn, c):
    from .props.c05 import callargs as f
    return f(fn, c)


def ids_in(e):
    return {x[1] if x[0] == "phi" else x[2] for x in walk(e) if isinstance(x, tuple) and x and (x[0] == "phi" or x[0] == "call" and len(x) > 2)}


class Locks:
    """Forward must-analysis: facts are (address of the lock, 'x' | 's', id of the locking call)."""

    def __init__(self, fn):
        self.fn = fn
        self.ops = {}
        for i in fn.calls(LOCK):
            self.ops[i.id] = ("x", operand(fn, i))
        for i in fn.calls(SHARED):
            self.ops[i.id] = ("s", operand(fn, i))
        for i in fn.calls(UNLOCK):
            self.ops[i.id] = ("u", operand(fn, i))
        self.back = {(b, l.head): l for l in fn.loops for b in l.body for s in fn.succ[b] if s == l.head}
        self.in_ = {}
        entry = fn.entry
        self.in_[entry] = frozenset()
        work = [entry]
        while work:
            b = work.pop()
            out = self.flow(b, self.in_[b])
            for s in fn.succ[b]:
                o = self.cross(b, s, out)
                n = o if s not in self.in_ else self.in_[s] & o
                if s not in self.in_ or n != self.in_[s]:
                    self.in_[s] = n
                    work.append(s)

    def cross(self, b, s, held):
        # a lock named by something recomputed in the next iteration is no longer the one the name stands for
        l = self.back.get((b, s))
        if l is not None:
            inside = {i.id for x in l.body for i in self.fn.blocks[x]}
            held = frozenset(h for h in held if not (ids_in(h[0]) & inside))
        # the edge out of a successful try_lock
        for a in self.fn.edge_atoms(b, s):
            if a[0] == "true":
                for x in walk(a[1]):
                    if isinstance(x, tuple) and x and x[0] == "call" and re.search(TRY, x[1]):
                        c = self.fn.ins[x[2]]
                        held |= {(operand(self.fn, c), "s" if "shared" in x[1] else "x", c.id)}
        return held

    def flow(self, b, held, upto=None):
        for i in self.fn.blocks[b]:
            if upto is not None and i.id == upto:
                return held
            op = self.ops.get(i.id)
            if op is None:
                continue
            if op[0] == "u":
                same = {h for h in held if h[0] == op[1]}
                held = held - same if same else frozenset()      # an unlock we cannot name may be of any lock
            else:
                held = held | {(op[1], op[0], i.id)}
        return held

    def at(self, ins):
        return self.flow(ins.b, self.in_.get(ins.b, frozenset()), ins.id)

    def released(self, op):
        """No return is reached from the locking call without passing an unlock of the same lock."""
        fn = self.fn
        un = [fn.ins[i] for i, (k, a) in self.ops.items() if k == "u" and a == self.ops[op.id][1]]
        return fn.path(op, lambda i: i.op == "ret", avoid=un) is None
