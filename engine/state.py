"""Execution state, solver access and path forking."""
import bisect, time
import z3
from val import *
from mem import *


class PathEnd(Exception):
    def __init__(self, kind, info='', cond=None):
        self.kind = kind       # done | infeasible | violation | crash | abort | limit | unsupported
        self.info = info
        self.cond = cond       # extra condition a counterexample must satisfy


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.discharged = 0
        self.steps = 0
        self.forks = 0
        self.unknown = 0


class Solver:
    """one incremental solver, synchronised with the constraint list of whichever state asks"""
    def __init__(self, stats, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.cur = []
        self.stats = stats

    def sync(self, cons):
        cur = self.cur
        i = 0
        n = min(len(cur), len(cons))
        while i < n and cur[i] is cons[i]:
            i += 1
        if len(cur) > i:
            self.s.pop(len(cur) - i)
            del cur[i:]
        for c in cons[i:]:
            self.s.push()
            self.s.add(c)
            cur.append(c)

    def check(self, cons, extra=None, model=False):
        self.sync(cons)
        t = time.time()
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        r = self.s.check()
        m = self.s.model() if (r == z3.sat and model) else None
        if extra is not None:
            self.s.pop()
        if r == z3.unknown:
            # from scratch: bit blasting instead of the incremental core
            q = z3.SolverFor('QF_BV')
            q.set('timeout', 90000)
            q.add(cons)
            if extra is not None:
                q.add(extra)
            r = q.check()
            m = q.model() if (r == z3.sat and model) else None
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
            raise PathEnd('unsupported', 'solver answered unknown')
        return (r == z3.sat, m) if model else r == z3.sat


class State:
    def __init__(self, mach):
        self.m = mach
        self.own = object()
        self.r = [0] * 33
        self.x = [None] * 32
        self.fl = ('ex', False, False, False, False, False)   # cf zf sf of pf
        self.pc = 0
        self.breg = {}          # bid -> Region
        self.cstart = []        # sorted concrete region starts
        self.creg = []
        self.cons = []
        self.model = None
        self.inputs = []        # (kind, value term, width bytes)
        self.log = []
        self.covers = set()
        self.info = {}          # misc, copied shallowly
        self.low = {}           # bid -> (nbits, value) known low bits
        self.fsbase = 0
        self.ndec = 0
        self.trace = []
        self.mxcsr = 0x1f80
        self.thr = None         # running thread, see threads.py
        self.shared = False

    def clone(self):
        n = State.__new__(State)
        n.__dict__.update(self.__dict__)
        n.own = object()
        self.own = object()
        n.r = self.r[:]
        n.x = self.x[:]
        n.breg = dict(self.breg)
        n.cstart = self.cstart[:]
        n.creg = self.creg[:]
        n.cons = self.cons[:]
        n.inputs = self.inputs[:]
        n.log = self.log[:]
        n.covers = set(self.covers)
        n.info = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.info.items()}
        n.low = dict(self.low)
        n.trace = self.trace[:]
        return n

    # ---- constraints
    def assume(self, c):
        """add a constraint; path ends if it is unsatisfiable"""
        if c is True:
            return
        if c is False:
            raise PathEnd('infeasible')
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            self.cons.append(c)
            return
        self.cons.append(c)
        ok, mo = self.m.solver.check(self.cons, None, True)
        if not ok:
            raise PathEnd('infeasible')
        self.model = mo

    def getmodel(self):
        if self.model is None:
            ok, mo = self.m.solver.check(self.cons, None, True)
            if not ok:
                raise PathEnd('infeasible')
            self.model = mo
        return self.model

    def feasible(self, c):
        if c is True or c is False:
            return c
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        return self.m.solver.check(self.cons, c)

    def decide(self, c):
        """truth of a condition on this path; forks when both outcomes are possible.
        Must be called before the current instruction changes anything."""
        if c is True or c is False:
            return c
        mo = self.getmodel()
        v = z3.is_true(mo.eval(c, model_completion=True))
        other = z3.Not(c) if v else c
        ok, mo2 = self.m.solver.check(self.cons, other, True)
        if ok:
            n = self.clone()
            n.cons.append(other)
            n.model = mo2
            n.ndec += 1
            self.m.fork(n)
            self.cons.append(c if v else z3.Not(c))
            self.ndec += 1
        return v

    def concretize(self, e, w, limit=4096):
        """a concrete value for e on this path; the other values are forked"""
        if type(e) is int:
            return e
        e = bv(e, w)
        mo = self.getmodel()
        v = mo.eval(e, model_completion=True).as_long()
        c = e == z3.BitVecVal(v, w)
        ok, mo2 = self.m.solver.check(self.cons, z3.Not(c), True)
        if ok:
            n = self.clone()
            n.cons.append(z3.Not(c))
            n.model = mo2
            n.ndec += 1
            if n.ndec > limit:
                raise PathEnd('unsupported', 'too many values of ' + str(e)[:80])
            self.m.fork(n)
            self.cons.append(c)
            self.ndec += 1
        return v

    def divisor(self, b, w):
        """a divisor; if it can only be a power of two the possible values are forked"""
        if type(b) is int:
            return b
        b = bv(b, w)
        if self.m.solver.check(self.cons, (b & (b - 1)) != 0):
            return b
        return self.concretize(b, w)

    # ---- memory
    def add_region(self, r):
        r.own = self.own
        if r.bid is not None:
            self.breg[r.bid] = r
        else:
            i = bisect.bisect(self.cstart, r.start)
            self.cstart.insert(i, r.start)
            self.creg.insert(i, r)

    def del_region(self, r):
        if r.bid is not None:
            del self.breg[r.bid]
        else:
            i = bisect.bisect(self.cstart, r.start) - 1
            assert self.cstart[i] == r.start
            del self.cstart[i]
            del self.creg[i]

    def find(self, a, n):
        """(region, offset) for an n byte access at a; faults when not mapped"""
        t = type(a)
        if t is Ptr:
            r = self.breg.get(a.b)
            if r is not None and 0 <= a.o and a.o + n <= r.size:
                if self.thr is not None:
                    touch(self, r, a.o)
                return r, a.o
            if r is not None:
                raise PathEnd('crash', 'access of %d bytes outside %s: start%+d (size %d)' % (n, r.name, a.o, r.size))
            raise PathEnd('crash', 'access of %d bytes in released memory %s%+d' % (n, a.b, a.o))
        if t is int:
            i = bisect.bisect(self.cstart, a) - 1
            if i >= 0:
                r = self.creg[i]
                if a + n <= r.start + r.size:
                    if self.thr is not None:
                        touch(self, r, a - r.start)
                    return r, a - r.start
            raise PathEnd('crash', 'access of %d bytes at unmapped address %#x' % (n, a))
        return self.find(self.resolve(a, n), n)

    def resolve(self, a, n):
        a = norm(a)
        if type(a) is not BV:
            return a
        W = PTR_W[0]
        # can it be outside of everything?
        outs = []
        for b, r in self.breg.items():
            s = BASESYM[b]
            outs.append(z3.ULT(a - s, z3.BitVecVal(r.size - n + 1, W)))
        for r in self.creg:
            if r.size >= n:
                outs.append(z3.ULT(a - z3.BitVecVal(r.start, W), z3.BitVecVal(r.size - n + 1, W)))
        bad = z3.Not(z3.Or(*outs))
        ok, mo = self.m.solver.check(self.cons, bad, True)
        if ok:
            raise PathEnd('crash', 'access of %d bytes at an address that can be outside all memory: %s' % (n, str(a)[:200]), bad)
        mo = self.getmodel()
        v = mo.eval(a, model_completion=True).as_long()
        p = None
        for b, r in self.breg.items():
            s = mo.eval(BASESYM[b], model_completion=True).as_long()
            if s <= v < s + r.size:
                p = Ptr(b, v - s)
                break
        if p is None:
            p = v
        c = a == bv(p, W)
        ok, mo2 = self.m.solver.check(self.cons, z3.Not(c), True)
        if ok:
            k = self.clone()
            k.cons.append(z3.Not(c))
            k.model = mo2
            k.ndec += 1
            if k.ndec > 5000:
                raise PathEnd('unsupported', 'symbolic address has too many values')
            self.m.fork(k)
            self.cons.append(c)
            self.ndec += 1
        return p

    def rd(self, a, n):
        r, o = self.find(a, n)
        return r.get(o, n)

    def wr(self, a, n, v):
        r, o = self.find(a, n)
        if not r.w:
            raise PathEnd('crash', 'write of %d bytes to read-only memory %s+%#x' % (n, r.name, o))
        if r.own is not self.own:
            r = self.cow(r)
        r.put(o, n, v)

    def cow(self, r):
        n = r.copy(self.own)
        if r.bid is not None:
            self.breg[r.bid] = n
        else:
            i = bisect.bisect(self.cstart, r.start) - 1
            self.creg[i] = n
        return n

    def rde(self, a, n):
        r, o = self.find(a, n)
        return r.entries(o, n)

    def wre(self, a, es):
        n = len(es)
        r, o = self.find(a, n)
        if not r.w:
            raise PathEnd('crash', 'write of %d bytes to read-only memory %s+%#x' % (n, r.name, o))
        if r.own is not self.own:
            r = self.cow(r)
        r.put_entries(o, es)

    # ---- low bits of symbolic region starts
    def lowbits(self, b, k):
        """value of the low k bits of region start b (forks over the unknown ones)"""
        n, v = self.low[b]
        if k > n:
            s = z3.Extract(k - 1, 0, BASESYM[b])
            v = self.concretize(norm(s), k)
            self.low[b] = (k, v)
        return v & ((1 << k) - 1)


from threads import touch
