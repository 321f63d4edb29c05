"""Path-based symbolic execution of LLVM IR over mathematical integers and
reals, with z3 deciding branch feasibility and assertions.

 * iN values are mathematical integers kept in the signed range of their type.
   Every add/sub/mul that could leave the range is checked by the solver (or by
   exact interval bounds); if it can, it is either reported (nsw -> UB) or
   wrapped exactly (unsigned arithmetic).
 * double/long double values are exact reals (rounding is outside the model;
   harnesses that rely on this say so), sin/cos are a pair (s,c), s^2+c^2=1.
 * Division by a constant introduces q,r with the defining inequalities, so
   all path conditions of the integer code stay linear.
 * memory: objects of concrete size with cells at concrete offsets; a symbolic
   index forks over its feasible values.
The executor knows nothing about the project: it runs whatever IR it is given."""
import sys, time, re, math, random
from fractions import Fraction
import z3
import vpir
from vpir import PTR

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds            # list of z3 bools, exhaustive


class PathEnd(Exception):
    pass


class Var:
    __slots__ = ('id', 'name', 'kind', 'z', 'relaxed')

    def __init__(self, id, name, kind, relaxed=False):
        self.id, self.name, self.kind, self.relaxed = id, name, kind, relaxed
        self.z = z3.Int(name) if kind == 'I' and not relaxed else z3.Real(name)


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


class Poly:
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = {m: norm(c) for m, c in d.items() if c != 0}
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def var(v):
        return Poly({(v,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def linear(self):
        return all(len(m) <= 1 for m in self.d)

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for m2, c2 in o.d.items():
                mm = tuple(sorted(m + m2))
                d[mm] = d.get(mm, 0) + c * c2
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()})

    def vars(self):
        return {v for m in self.d for v in m}


class UF:
    """value that is neither int nor pointer: undef"""


UNDEF = UF()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off        # off: Poly

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off.d)


NULL = Ptr(0, Poly({}))


class FnPtr:
    def __init__(self, name):
        self.name = name


class Obj:
    __slots__ = ('size', 'cells', 'const', 'name', 'zero', 'alive')

    def __init__(self, size, name, const=False, zero=False):
        self.size, self.name, self.const, self.zero = size, name, const, zero
        self.cells = {}
        self.alive = True

    def copy(self):
        o = Obj(self.size, self.name, self.const, self.zero)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class VaTok:
    def __init__(self, args):
        self.args = args


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'ip', 'prev', 'retto', 'allocas', 'visits', 'va')

    def __init__(self, fn):
        self.fn, self.env, self.blk, self.ip, self.prev, self.retto = fn, {}, fn.blocks[0], 0, None, None
        self.allocas = []
        self.visits = {}
        self.va = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.blk, f.ip, f.prev, f.retto = self.fn, dict(self.env), self.blk, self.ip, self.prev, self.retto
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.va = self.va
        return f


class State:
    angles = hyps = ()

    def __init__(self):
        self.pc = []            # z3 bools
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.bounds = {}        # var id -> (lo, hi)
        self.memo = {}          # z3 ast id -> bool
        self.defs = set()
        self.inputs = []        # (name, kind, Poly)
        self.trail = []
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.bounds = dict(self.bounds)
        s.memo = dict(self.memo)
        s.defs = set(self.defs)
        s.inputs = list(self.inputs)
        s.trail = list(self.trail)
        s.steps = self.steps
        s.angles, s.hyps = self.angles, self.hyps
        s.stop = None
        s.retval = None
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o


class Violation:
    def __init__(self, msg, inputs, kind):
        self.msg, self.inputs, self.kind = msg, inputs, kind


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(max_paths=200000, loop_bound=400, timeout_ms=60000, check_nsw=True, wall=800,
                      max_fork=80)
        self.o.update(opts or {})
        self.vars = []
        self.cache = {}
        self.deffs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.o['timeout_ms'])
        self.sstack = []
        self.stats = dict(queries=0, solver_s=0.0, paths=0, asserts=0, assert_queries=0, forks=0, unknown=0, steps=0)
        self.violations = []
        self.reached = {}
        self.inconclusive = []
        self.funcs_run = {}
        self.nobj = 1
        self.globals = {}
        self.base = State()
        self.init_globals()
        # functions whose result is abstracted: any number, also through pointers to doubles
        self.trigarg, self.pairs, self.hyper = {}, {}, set()
        self.angleof = {}
        self.brief = None
        self.logs, self.roots, self.invs = {}, {}, {}
        self.hooks = {n: lambda self, st, a: self.havoc(st, a) for n in self.o.get('abstract', ())}
        self.prof = {}
        self.loops = 0
        self.has_relaxed = False
        self.quo = {}
        self.dumped = []
        self.bcond = {}
        self.assert_msgs = {}
        self.want_cross = self.o.get('cross', 0)

    # ---------------------------------------------------------------- vars
    def newvar(self, name, kind, st, lo=None, hi=None, relaxed=False):
        v = Var(len(self.vars), '%s!%d' % (name, len(self.vars)), kind, relaxed)
        self.vars.append(v)
        st.bounds[v.id] = (lo, hi)
        return Poly.var(v.id)

    def havoc(self, st, args):
        for x in args:
            if isinstance(x, Ptr) and x.obj:
                self.store(st, x, ('fp', 'double'), self.newvar('abs', 'R', st, -100, 100))
        return self.newvar('abs', 'R', st, -100, 100)

    def is_int_poly(self, p):
        for m, c in p.d.items():
            if not isinstance(c, int):
                return False
            for v in m:
                if self.vars[v].kind != 'I':
                    return False
        return True

    def is_zint(self, p):
        """integer-valued and encoded with integer-sorted solver variables only"""
        return self.is_int_poly(p) and not (self.has_relaxed and any(self.vars[v].relaxed for m in p.d for v in m))

    def z(self, p, real=None):
        """Poly -> z3 term"""
        if real is None:
            real = not self.is_zint(p)
        terms = []
        for m, c in sorted(p.d.items()):
            t = None
            for v in m:
                x = self.vars[v].z
                if real and self.vars[v].kind == 'I' and not self.vars[v].relaxed:
                    x = z3.ToReal(x)
                t = x if t is None else t * x
            if real:
                cz = z3.Q(Fraction(c).numerator, Fraction(c).denominator)
            else:
                cz = z3.IntVal(c)
            if t is None:
                t = cz
            elif c != 1:
                t = cz * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def interval(self, p, st):
        lo = hi = 0
        for m, c in p.d.items():
            a = b = c
            if m:
                if len(m) == 1:
                    vl, vh = st.bounds.get(m[0], (None, None))
                elif len(m) == 2 and m[0] == m[1]:
                    vl, vh = st.bounds.get(m[0], (None, None))
                    if vl is None or vh is None:
                        vl, vh = 0, None
                    else:
                        x = [vl * vl, vh * vh]
                        vl, vh = (0 if vl <= 0 <= vh else min(x)), max(x)
                else:
                    vl, vh = 1, 1
                    ok = True
                    for v in m:
                        l2, h2 = st.bounds.get(v, (None, None))
                        if l2 is None or h2 is None:
                            ok = False
                            break
                        x = [vl * l2, vl * h2, vh * l2, vh * h2]
                        vl, vh = min(x), max(x)
                    if not ok:
                        vl = vh = None
                if c < 0:
                    vl, vh = vh, vl
                a = None if vl is None else c * vl
                b = None if vh is None else c * vh
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi

    # ------------------------------------------------------------- solver
    def sync(self, st):
        pc = st.pc
        n = 0
        while n < len(pc) and n < len(self.sstack) and self.sstack[n] is pc[n]:
            n += 1
        if len(self.sstack) > n:
            self.solver.pop(len(self.sstack) - n)
            del self.sstack[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.sstack.append(c)

    def check(self, st, extra=None, timeout=None):
        self.sync(st)
        t = time.time()
        self.stats['queries'] += 1
        self.solver.set('timeout', timeout or self.o.get('inc_ms', 400))
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            if r == z3.sat:
                self.last_model = self.solver.model()
            self.solver.pop()
        else:
            r = self.solver.check()
            if r == z3.sat:
                self.last_model = self.solver.model()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            r = self.check_fresh(st, extra)
        return r

    def check_fresh(self, st, extra):
        """second attempt, non-incremental"""
        t = time.time()
        if extra is not None and self.nlsat_unsat(st, extra):
            self.stats['solver_s'] += time.time() - t
            return z3.unsat
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.brief or self.o['timeout_ms'])
        s.add(*st.pc)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat:
            self.last_model = s.model()
        if r == z3.unknown and not self.brief:
            self.stats['unknown'] += 1
        return r

    def varset(self, c):
        """(names of the variables of a constraint, is it over the reals only)"""
        k = ('vs', c.get_id())
        if k not in self.cache:
            seen, todo, names, real = set(), [c], set(), True
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_int(x):
                    real = False
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(x.decl().name())
                todo += x.children()
            self.cache[k] = (frozenset(names), real)
            self.cache[('vsk', c.get_id())] = c
        return self.cache[k]

    def nlsat_unsat(self, st, extra, recent=None):
        """nonlinear real arithmetic: the constraints over reals that are connected with the question, given to nlsat.
        Leaving constraints out is sound when the answer is unsat, which is the only one used"""
        names, real = self.varset(extra)
        if not real:
            return False
        if recent is None and not self.brief:
            for n in self.o.get('recent', ()):      # the question may be settled by the latest constraints
                if self.nlsat_unsat(st, extra, n):
                    return True
        rest = [(self.varset(c), c) for c in st.pc]
        rest = [(v, c) for v, c in rest if v[1]]
        if recent is not None:
            k = len(rest) - recent
            rest = [(v, c) for i, (v, c) in enumerate(rest) if i >= k or len(v[0]) == 1]
        rest = [(v[0], c) for v, c in rest]
        use, names, grown = [], set(names), True
        while grown:
            grown, left = False, []
            for v, c in rest:
                if v & names:
                    use.append(c)
                    if not v <= names:
                        names |= v
                        grown = True
                else:
                    left.append((v, c))
            rest = left
        s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', self.brief or self.o.get('nlsat_ms', 15000))
        s.add(*use)
        s.add(extra)
        self.stats['queries'] += 1
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def add(self, st, c, poly=None):
        st.pc.append(c)

    def assume(self, st, c):
        """add python-bool / z3 bool; no feasibility check"""
        if isinstance(c, bool):
            if not c:
                raise PathEnd('infeasible')
            return
        st.pc.append(c)
        st.memo[c.get_id()] = (True, c)
        self.tighten(st, c)

    def tighten(self, st, c):
        info = self.cinfo.get(c.get_id())
        if not info:
            return
        kind, p = info[0], info[1]
        self._tighten(st, kind, p)

    cinfo = {}

    def _tighten(self, st, kind, p):
        # p <= 0 or p < 0 or p == 0 ; bound propagation through linear p (one round)
        if not p.linear():
            return
        for sgn in ((1,) if kind in ('le', 'lt') else (1, -1) if kind == 'eq' else ()):
            q = p if sgn == 1 else -p
            strict_int = kind == 'lt' and self.is_int_poly(q)
            for m, c in q.d.items():
                if not m:
                    continue
                v = m[0]
                rest = Poly({mm: cc for mm, cc in q.d.items() if mm != m})
                lo, hi = self.interval(rest, st)
                if lo is None:
                    continue
                # c*v <= -rest  <= -lo  (strict: <= -lo-1)
                b = -lo - (1 if strict_int else 0)
                vl, vh = st.bounds.get(v, (None, None))
                isI = self.vars[v].kind == 'I'
                if c > 0:
                    nb = Fraction(b) / c
                    nb = nb.numerator // nb.denominator if isI else norm(nb)
                    if vh is None or nb < vh:
                        vh = nb
                else:
                    nb = Fraction(b) / c
                    nb = -((-nb.numerator) // nb.denominator) if isI else norm(nb)
                    if vl is None or nb > vl:
                        vl = nb
                st.bounds[v] = (vl, vh)

    def cmp(self, st, kind, p):
        """kind in le lt eq ne, about p ? 0.  returns python bool or z3 bool"""
        if p.is_const():
            c = p.cval()
            return {'le': c <= 0, 'lt': c < 0, 'eq': c == 0, 'ne': c != 0}[kind]
        lo, hi = self.interval(p, st)
        if kind == 'le':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif kind == 'lt':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif kind in ('eq', 'ne'):
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return kind == 'ne'
        isint = self.is_int_poly(p)
        if isint and p.linear():
            # gcd normalisation
            from math import gcd
            g = 0
            for m, c in p.d.items():
                if m:
                    g = gcd(g, abs(c))
            c0 = p.cval()
            if g > 1:
                if kind in ('eq', 'ne') and c0 % g:
                    return kind == 'ne'
                if kind == 'lt':
                    kind, c0 = 'le', c0 + 1
                if kind == 'le':
                    c0 = -((-c0) // g) * g      # ceil to a multiple: g*X + c0 <= 0 <=> X <= floor(-c0/g)
                d = {m: c // g for m, c in p.d.items() if m}
                d[()] = c0 // g
                p = Poly(d)
            elif kind == 'lt':
                kind, p = 'le', p + Poly.const(1)
        key = ('c', kind, p.key())
        r = self.cache.get(key)
        if r is None:
            zt = self.z(p)
            zero = z3.IntVal(0) if self.is_zint(p) else z3.RealVal(0)
            r = {'le': lambda: zt <= zero, 'lt': lambda: zt < zero, 'eq': lambda: zt == zero,
                 'ne': lambda: zt != zero}[kind]()
            self.cache[key] = r
            self.cinfo[r.get_id()] = (kind, p, r)
            neg = {'le': ('lt', -p), 'lt': ('le', -p), 'eq': ('ne', p), 'ne': ('eq', p)}[kind]
            nr = z3.Not(r)
            self.cinfo[nr.get_id()] = (neg[0], neg[1], nr)
            self.cache[('neg', r.get_id())] = nr
        return r

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        r = self.cache.get(('neg', c.get_id()))
        if r is None:
            r = z3.Not(c)
            self.cache[('neg', c.get_id())] = r
            self.cache[('keep', c.get_id())] = c
        return r

    def decide(self, st, c):
        """truth value of condition in this state, forking when both are possible"""
        if isinstance(c, bool):
            return c
        m = st.memo.get(c.get_id())
        if m is not None:
            return m[0]
        info = self.cinfo.get(c.get_id())
        if info:
            r = self.cmp(st, info[0], info[1])
            if isinstance(r, bool):
                st.memo[c.get_id()] = (r, c)
                return r
        nc = self.neg(c)
        self.brief = self.o.get('branch_ms')        # what remains unknown is explored
        r1 = self.check(st, c)
        if r1 == z3.unsat:
            self.brief = None
            st.memo[c.get_id()] = (False, c)
            return False
        r2 = self.check(st, nc)
        self.brief = None
        if r2 == z3.unsat:
            st.memo[c.get_id()] = (True, c)
            return True
        raise Fork([c, nc])

    def must(self, st, c):
        """True if c holds on the path (solver), no forking"""
        if isinstance(c, bool):
            return c
        m = st.memo.get(c.get_id())
        if m is not None:
            return m[0]
        r = self.check(st, self.neg(c)) == z3.unsat
        if r:
            st.memo[c.get_id()] = (True, c)
        return r

    # ----------------------------------------------------------- integers
    def rng(self, n):
        return -(1 << (n - 1)), (1 << (n - 1)) - 1

    def fit(self, st, p, n, nsw, what):
        """bring mathematical p into signed n-bit range"""
        if n == 1:
            raise Unsupported('i1 arith')
        lo, hi = self.rng(n)
        if p.is_const():
            v = p.cval()
            if lo <= v <= hi:
                return p
            if nsw and self.o['check_nsw']:
                self.ub(st, 'signed overflow in ' + what)
            v &= (1 << n) - 1
            if v > hi:
                v -= 1 << n
            return Poly.const(v)
        a, b = self.interval(p, st)
        if a is not None and b is not None and lo <= a and b <= hi:
            return p
        over = self.cmp(st, 'le', Poly.const(hi + 1) - p)
        under = self.cmp(st, 'le', p - Poly.const(lo - 1))
        if not self.decide_b(st, over) and not self.decide_b(st, under):
            return p
        if nsw and self.o['check_nsw']:
            self.ub(st, 'signed overflow in ' + what)
        o, u = self.decide(st, over), self.decide(st, under)
        if not o and not u:
            return p
        k = 1 << n
        q = p - Poly.const(k) if o else p + Poly.const(k)
        a, b = self.interval(q, st)
        if a is not None and b is not None and lo <= a and b <= hi:
            return q
        # general wrap: q = p - k*t
        t = self.fdiv(st, p - Poly.const(lo), k)
        return p - t.scale(k)

    def decide_b(self, st, c):
        return self.decide(st, c)

    def unsigned(self, st, p, n):
        if p.is_const():
            return Poly.const(p.cval() & ((1 << n) - 1))
        if self.decide(st, self.cmp(st, 'lt', p)):
            return p + Poly.const(1 << n)
        return p

    def fdiv(self, st, p, c):
        """floor division of an integer Poly by positive integer constant"""
        assert c > 0
        if c == 1:
            return p
        if not self.is_int_poly(p):
            raise Unsupported('fdiv of real')
        A, B = {}, {}
        for m, k in p.d.items():
            if k % c == 0:
                A[m] = k // c
            elif not m:
                A[m] = k // c
                B[m] = k % c
            else:
                B[m] = k
        A, B = Poly(A), Poly(B)
        if B.is_const():
            return A + Poly.const(B.cval() // c)
        lo, hi = self.interval(B, st)
        if lo is not None and hi is not None and lo // c == hi // c:
            return A + Poly.const(lo // c)
        if self.o.get('anchor', True) and B.linear():
            r = self.anchor(st, B, c, lo, hi)
            if r is not None:
                return A + r
        key = ('fdiv', B.key(), c)
        q = self.cache.get(key)
        if q is None:
            q = self.newvar('q', 'I', st)
            self.cache[key] = q
            self.deffs[key] = [q.scale(c) - B, B - q.scale(c) - Poly.const(c - 1)]
            self.quo[next(iter(q.d))[0]] = (B, c)
        if key not in st.defs:
            st.defs.add(key)
            qid = next(iter(q.d))[0]
            st.bounds[qid] = (None if lo is None else lo // c, None if hi is None else hi // c)
            for x in self.deffs[key]:
                r = self.cmp(st, 'le', x)
                if not isinstance(r, bool):
                    self.assume(st, r)
        qid = next(iter(q.d))[0]
        return A + q

    def relax(self, p):
        """linear Poly over quotient variables -> (linear Poly over the other variables, lo, hi) with
        p = poly + e, e in [lo, hi], using B/c - (c-1)/c <= floor(B/c) <= B/c"""
        key = ('relax', p.key())
        r = self.cache.get(key)
        if r is not None:
            return r
        out, lo, hi = {}, 0, 0
        for m, k in p.d.items():
            if m and m[0] in self.quo:
                B, c = self.quo[m[0]]
                b, l, h = self.relax(B)
                f = Fraction(k, 1) / c
                for m2, k2 in b.d.items():
                    out[m2] = out.get(m2, 0) + k2 * f
                l, h = l - (c - 1), h
                l, h = (l * f, h * f) if f > 0 else (h * f, l * f)
                lo, hi = lo + l, hi + h
            else:
                out[m] = out.get(m, 0) + k
        r = (Poly(out), lo, hi)
        self.cache[key] = r
        return r

    def anchor(self, st, B, c, lo, hi):
        """if floor(B/c) provably stays within a few units of an integer combination T of the non-quotient variables, split
        on floor(B/c) - T (an exhaustive case split) so that no new variable is needed"""
        b, el, eh = self.relax(B)
        T = {}
        for m, k in b.d.items():
            if m:
                s = Fraction(k, 1) / c
                n = (2 * s.numerator + s.denominator) // (2 * s.denominator)
                if n:
                    T[m] = n
        if not T:
            return None
        T = Poly(T)
        D = b - T.scale(c)
        l, h = self.interval(D, st)
        if l is None or h is None:
            return None
        l, h = l + el, h + eh
        k0, k1 = int(l // c), int(h // c)
        if k1 - k0 > 4 or (lo is not None and hi is not None and (hi // c - lo // c) <= k1 - k0):
            return None
        conds = []
        for k in range(k0, k1 + 1):
            q = T + Poly.const(k)
            c1 = self.cmp(st, 'le', q.scale(c) - B)
            c2 = self.cmp(st, 'le', B - q.scale(c) - Poly.const(c - 1))
            if c1 is False or c2 is False:
                continue
            conds.append((q, c1, c2))
        for n, (q, c1, c2) in enumerate(conds):
            if n == len(conds) - 1:
                return q
            if self.decide(st, c2):
                # smallest k whose upper limit is respected
                return q
        return None

    def sdiv(self, st, a, b):
        if not b.is_const():
            # fork over small divisor sets is not needed by the code base
            raise Unsupported('division by symbolic value')
        c = b.cval()
        if c == 0:
            self.ub(st, 'division by zero')
            raise PathEnd('div0')
        if a.is_const():
            x = a.cval()
            q = abs(x) // abs(c)
            return Poly.const(q if (x >= 0) == (c > 0) else -q)
        s = 1
        if c < 0:
            c, s = -c, -1
        if c == 1:
            return a.scale(s)
        neg = self.decide(st, self.cmp(st, 'lt', a))
        if neg:
            q = -self.fdiv(st, -a, c)
        else:
            q = self.fdiv(st, a, c)
        return q.scale(s)

    # ---------------------------------------------------------------- UB / violations
    def model_inputs(self, st, m):
        out = []
        for name, kind, p in st.inputs:
            z = self.z(p)
            v = m.eval(z, model_completion=True)
            if kind == 'R':
                if z3.is_int_value(v):
                    out.append((name, kind, float(v.as_long())))
                elif z3.is_algebraic_value(v):
                    out.append((name, kind, float(v.approx(20).as_fraction())))
                else:
                    out.append((name, kind, float(v.as_fraction())))
            else:
                if z3.is_rational_value(v) and not z3.is_int_value(v):
                    out.append((name, kind, int(v.as_fraction())))
                else:
                    out.append((name, kind, v.as_long()))
        return out

    def ub(self, st, msg, cond=None):
        r = self.check(st, cond)
        if r == z3.sat:
            self.report(st, msg, self.last_model, 'ub', cond)
        elif r == z3.unknown:
            self.inconclusive.append(msg)

    def report(self, st, msg, model, kind, extra=None):
        key = (kind, msg)
        if self.has_relaxed:
            xs = [self.vars[v].z for _, _, p in st.inputs for m in p.d for v in m if self.vars[v].relaxed]
            if xs:
                s = z3.Solver()
                s.set('timeout', 60000)
                s.add(*st.pc)
                if extra is not None:
                    s.add(extra)
                for x in xs:
                    s.add(z3.IsInt(x))
                r = s.check()
                if r != z3.sat:
                    self.inconclusive.append('only the rational relaxation violates: %s (%s)' % (msg, r))
                    return
                model = s.model()
        n = sum(1 for v in self.violations if (v.kind, v.msg) == key)
        if n < 3:
            self.violations.append(Violation(msg, self.model_inputs(st, model), kind))

    def assert_(self, st, c, msg):
        self.stats['asserts'] += 1
        self.assert_msgs[msg] = self.assert_msgs.get(msg, 0) + 1
        if c is True:
            return
        if c is False:
            r = self.check(st)
            if r == z3.sat:
                self.report(st, msg, self.last_model, 'assert')
            elif r == z3.unknown:
                self.inconclusive.append(msg)
            raise PathEnd('assert')
        m = st.memo.get(c.get_id())
        if m is not None and m[0]:
            return
        nc = self.neg(c)
        self.stats['assert_queries'] += 1
        if len(self.dumped) < self.want_cross:
            self.dumped.append(list(st.pc) + [nc])
        r = self.check(st, nc)
        if r == z3.sat:
            self.report(st, msg, self.last_model, 'assert', nc)
            self.assume(st, c)
            if self.check(st) == z3.unsat:
                raise PathEnd('assert')
        elif r == z3.unknown:
            self.inconclusive.append(msg)
        else:
            st.memo[c.get_id()] = (True, c)

    # ----------------------------------------------------------------- memory
    def alloc(self, st, size, name, const=False, zero=False):
        oid = self.nobj
        self.nobj += 1
        st.mem[oid] = Obj(size, name, const, zero)
        st.owned.add(oid)
        return Ptr(oid, Poly({}))

    def init_globals(self):
        st = self.base
        for g in self.mod.globals.values():
            if g.init is None:
                # external data (stderr, stdout, ...): opaque
                try:
                    self.globals[g.name] = self.alloc(st, self.mod.size(g.ty), g.name, False, True)
                except vpir.ParseError:
                    pass
                continue
            sz = self.mod.size(g.ty)
            p = self.alloc(st, sz, g.name, g.const)
            self.globals[g.name] = p
        for g in self.mod.globals.values():
            if g.init is None:
                continue
            self.store_const(st, st.mem[self.globals[g.name].obj], 0, g.ty, g.init)

    def store_const(self, st, obj, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            self.zero_fill(obj, off, ty)
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                obj.cells[off + i] = (1, 'i', Poly.const(b - 256 if b > 127 else b))
            return
        if k == 'arr':
            es = self.mod.size(ty[2])
            for i, (t, x) in enumerate(v[1]):
                self.store_const(st, obj, off + i * es, t, x)
            return
        if k == 'structv':
            for i, (t, x) in enumerate(v[1]):
                self.store_const(st, obj, off + self.mod.field_offset(ty, i), t, x)
            return
        val = self.const(st, ty, v)
        obj.cells[off] = (self.mod.size(ty), self.kindof(ty), val)

    def zero_fill(self, obj, off, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'arr':
            es = self.mod.size(ty[2])
            for i in range(ty[1]):
                self.zero_fill(obj, off + i * es, ty[2])
        elif ty[0] == 'struct':
            for i, t in enumerate(ty[1]):
                self.zero_fill(obj, off + self.mod.field_offset(ty, i), t)
        elif ty[0] == 'ptr':
            obj.cells[off] = (8, 'p', NULL)
        elif ty[0] == 'fp':
            obj.cells[off] = (self.mod.size(ty), 'f', Poly({}))
        else:
            obj.cells[off] = (self.mod.size(ty), 'i', Poly({}))

    def kindof(self, ty):
        return {'int': 'i', 'ptr': 'p', 'fp': 'f'}[ty[0]]

    def concretize(self, st, p, what):
        """int Poly -> python int, forking over feasible values"""
        if p.is_const():
            return p.cval()
        vals = []
        extra = []
        self.sync(st)
        while True:
            r = self.check(st, z3.And(*extra) if extra else None)
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported('concretize unknown ' + what)
            v = self.last_model.eval(self.z(p), model_completion=True).as_long()
            vals.append(v)
            extra.append(self.z(p) != v)
            if len(vals) > self.o['max_fork']:
                raise Unsupported('too many values for ' + what)
        if len(vals) == 1:
            e = self.cmp(st, 'eq', p - Poly.const(vals[0]))
            return vals[0]
        conds = []
        for v in vals:
            e = self.cmp(st, 'eq', p - Poly.const(v))
            if e is True:
                return v
            conds.append(e)
        for v, c in zip(vals, conds):
            m = st.memo.get(c.get_id())
            if m is not None and m[0]:
                return v
        raise Fork(conds)

    def addr(self, st, ptr, size, what):
        if ptr is UNDEF or not isinstance(ptr, Ptr):
            self.ub(st, 'bad pointer in ' + what)
            raise PathEnd('badptr')
        if ptr.obj == 0:
            self.ub(st, 'null dereference in ' + what)
            raise PathEnd('null')
        obj = st.mem[ptr.obj]
        if not obj.alive:
            self.ub(st, 'use after scope in ' + what)
            raise PathEnd('dead')
        off = ptr.off
        if not off.is_const():
            inb = self.decide(st, self.cmp(st, 'le', -off)) and \
                self.decide(st, self.cmp(st, 'le', off - Poly.const(obj.size - size)))
            if not inb:
                self.ub(st, 'out-of-bounds %s of %s' % (what, obj.name))
                raise PathEnd('oob')
            off = self.concretize(st, off, what + ' of ' + obj.name)
        else:
            off = off.cval()
        if off < 0 or off + size > obj.size:
            self.ub(st, 'out-of-bounds %s of %s' % (what, obj.name))
            raise PathEnd('oob')
        return off

    def load(self, st, ptr, ty):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        k = self.kindof(ty)
        if isinstance(ptr, Ptr) and ptr.obj and not ptr.off.is_const() and self.o.get('array_select') and \
                st.mem[ptr.obj].const and k in 'if':
            return self.load_select(st, ptr, size, k)
        off = self.addr(st, ptr, size, 'load')
        return self.load_at(st, st.mem[ptr.obj], off, size, k)

    def load_select(self, st, ptr, size, k):
        obj = st.mem[ptr.obj]
        if not (self.decide(st, self.cmp(st, 'le', -ptr.off)) and
                self.decide(st, self.cmp(st, 'le', ptr.off - Poly.const(obj.size - size)))):
            self.ub(st, 'out-of-bounds load of ' + obj.name)
            raise PathEnd('oob')
        key = ('sel', ptr.obj, size, ptr.off.key())
        v = self.cache.get(key)
        if v is None:
            v = self.newvar('sel', 'I' if k == 'i' else 'R', st)
            self.cache[key] = v
        if key not in st.defs:
            st.defs.add(key)
            fk = ('fun', ptr.obj, size)
            ent = sorted((o, c[2].cval()) for o, c in obj.cells.items() if c[0] == size)
            z0 = self.z(ptr.off)
            lo, hi = self.interval(ptr.off, st)
            ent = [(o, c) for o, c in ent if (lo is None or o >= lo) and (hi is None or o <= hi)]
            # run-length compressed ite chain
            t = z3.IntVal(ent[-1][1]) if k == 'i' else z3.RealVal(Fraction(ent[-1][1]))
            for o, c in reversed(ent[:-1]):
                t = z3.If(z0 <= o, z3.IntVal(c) if k == 'i' else z3.RealVal(Fraction(c)), t)
            st.pc.append(self.z(v) == t)
            vid = next(iter(v.d))[0]
            st.bounds[vid] = (min(c for _, c in ent), max(c for _, c in ent))
        return v

    def load_at(self, st, obj, off, size, k):
        c = obj.cells.get(off)
        if c and c[0] == size and (c[1] == k):
            return c[2]
        if c and c[0] == size and c[2] is not UNDEF and c[1] in 'pi' and k in 'pi':
            if k == 'p' and isinstance(c[2], Poly) and c[2].is_const() and c[2].cval() == 0:
                return NULL
            return c[2]
        if k == 'i':
            tot = Poly({})
            for i in range(size):
                b = self.byte_at(st, obj, off + i)
                if b is UNDEF:
                    return UNDEF
                if i == size - 1:
                    tot = tot + b.scale(1 << (8 * i))            # signed top byte
                else:
                    tot = tot + self.unsigned(st, b, 8).scale(1 << (8 * i))
            return tot
        if obj.zero and c is None:
            return Poly({}) if k != 'p' else NULL
        if k == 'f' and all(self.byte_at(st, obj, off + i) is not UNDEF and
                            isinstance(self.byte_at(st, obj, off + i), Poly) and
                            self.byte_at(st, obj, off + i).is_const() and
                            self.byte_at(st, obj, off + i).cval() == 0 for i in range(size)):
            return Poly({})
        return UNDEF

    def byte_at(self, st, obj, off):
        c = obj.cells.get(off)
        if c and c[0] == 1:
            return c[2]
        for o in range(off, max(-1, off - 16), -1):
            c = obj.cells.get(o)
            if c:
                if o + c[0] <= off:
                    break
                if c[1] != 'i' or c[2] is UNDEF:
                    if c[1] == 'f' and isinstance(c[2], Poly) and c[2].is_const() and c[2].cval() == 0:
                        return Poly({})
                    return UNDEF
                if not isinstance(c[2], Poly):
                    return UNDEF
                u = self.unsigned(st, c[2], 8 * c[0])
                sh = self.fdiv(st, u, 1 << (8 * (off - o)))
                b = sh - self.fdiv(st, sh, 256).scale(256)
                if b.is_const():
                    v = b.cval()
                    return Poly.const(v - 256 if v > 127 else v)
                if self.decide(st, self.cmp(st, 'lt', Poly.const(127) - b)):
                    return b - Poly.const(256)
                return b
        if obj.zero:
            return Poly({})
        return UNDEF

    def clobber(self, st, obj, off, size):
        for o in range(off - 15, off + size):
            c = obj.cells.get(o)
            if c is None:
                continue
            if o + c[0] <= off:
                continue
            if o >= off and o + c[0] <= off + size:
                del obj.cells[o]
                continue
            # partial overlap: split into bytes
            if c[1] == 'i' and c[2] is not UNDEF:
                bs = [self.byte_at(st, obj, o + i) for i in range(c[0])]
                del obj.cells[o]
                for i, b in enumerate(bs):
                    obj.cells[o + i] = (1, 'i', b)
                for i in range(off, off + size):
                    obj.cells.pop(i, None)
            else:
                del obj.cells[o]
                for i in range(c[0]):
                    obj.cells[o + i] = (1, 'i', UNDEF)

    def store(self, st, ptr, ty, v):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        off = self.addr(st, ptr, size, 'store')
        if st.mem[ptr.obj].const:
            self.ub(st, 'store to constant ' + st.mem[ptr.obj].name)
            raise PathEnd('const')
        obj = st.wobj(ptr.obj)
        c = obj.cells.get(off)
        if not (c and c[0] == size):
            self.clobber(st, obj, off, size)
        obj.cells[off] = (size, self.kindof(ty), v)

    # ------------------------------------------------------------- operands
    def const(self, st, ty, v):
        k = v[0]
        ty = self.mod.resolve(ty)
        if k == 'int':
            if ty == ('int', 1):
                return bool(v[1] & 1)
            n = ty[1]
            x = v[1] & ((1 << n) - 1)
            if x >= 1 << (n - 1):
                x -= 1 << n
            return Poly.const(x)
        if k == 'fp':
            x = v[1]
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                return UNDEF
            return Poly.const(norm(Fraction(x)))
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return NULL if ty[0] == 'ptr' else Poly({})
        if k == 'global':
            if v[1] in self.globals:
                return self.globals[v[1]]
            return FnPtr(v[1])
        if k == 'gep':
            return self.gep(st, v[1], [(t, self.const(st, t, x)) for t, x in v[2]])
        if k == 'cast' and v[1] in ('bitcast', 'addrspacecast'):
            return self.const(st, v[2][0], v[2][1])
        raise Unsupported('const %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'local':
            return st.frames[-1].env[v[1]]
        return self.const(st, ty, v)

    def gep(self, st, sty, ops):
        base = ops[0][1]
        if base is UNDEF or not isinstance(base, Ptr):
            raise Unsupported('gep on non pointer')
        off = base.off
        t = sty
        first = True
        for ot, iv in ops[1:]:
            if first:
                off = off + self.ipoly(iv).scale(self.mod.size(t))
                first = False
                continue
            t = self.mod.resolve(t)
            if t[0] == 'arr':
                t = t[2]
                off = off + self.ipoly(iv).scale(self.mod.size(t))
            elif t[0] == 'struct':
                n = iv.cval()
                off = off + Poly.const(self.mod.field_offset(t, n))
                t = t[1][n]
            else:
                raise Unsupported('gep into %r' % (t,))
        return Ptr(base.obj, off)

    def ipoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return Poly.const(-1 if v else 0)
        raise Unsupported('integer expected, got %r' % (v,))

    # ------------------------------------------------------------------ run
    def run(self, entry, args=()):
        t0 = time.time()
        st = self.base.copy()
        st.retval = None
        fn = self.mod.funcs[entry]
        fr = Frame(fn)
        st.frames.append(fr)
        work = [st]
        self.t0 = t0
        while work:
            if self.stats['paths'] > self.o['max_paths'] or time.time() - t0 > self.o['wall']:
                self.inconclusive.append('path or time limit (%d paths, %d left)' % (self.stats['paths'], len(work)))
                break
            st = work.pop()
            try:
                self.run_path(st)
                self.stats['paths'] += 1
            except Fork as f:
                self.stats['forks'] += 1
                if self.o.get('profile'):
                    k = (st.frames[-1].fn.name, st.frames[-1].blk.name, st.frames[-1].ip)
                    self.prof[k] = self.prof.get(k, 0) + 1
                for c in reversed(f.conds):
                    s2 = st.copy()
                    try:
                        self.assume(s2, c)
                        work.append(s2)
                    except PathEnd:
                        pass
            except PathEnd as e:
                self.stats['paths'] += 1
            except Unsupported as e:
                self.inconclusive.append('unsupported: %s' % e)
                self.stats['paths'] += 1
            if len(self.violations) >= self.o.get('max_viol', 4):
                break
        self.stats['wall'] = time.time() - t0

    def run_path(self, st):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blk.ins[fr.ip]
            self.stats['steps'] += 1
            self.step(st, fr, ins)

    def goto(self, st, fr, name):
        n = fr.visits.get(name, 0) + 1
        fr.visits[name] = n
        if n > self.o.get('cut', {}).get(fr.fn.name, n):       # a stated bound of the task
            self.stats['cut'] = self.stats.get('cut', 0) + 1
            raise PathEnd('bound of the task')
        if n > self.o['loop_bound']:
            self.loop_exceeded(st, fr)
        old = fr.blk.name
        blk = fr.fn.bmap[name]
        # phis in parallel
        vals = {}
        ip = 0
        for i in blk.ins:
            if i.op != 'phi':
                break
            for v, b in i.x['inc']:
                if b == old:
                    vals[i.res] = self.val(st, i.ty, v)
                    break
            else:
                raise Unsupported('phi')
            ip += 1
        fr.env.update(vals)
        fr.prev, fr.blk, fr.ip = old, blk, ip

    def loop_exceeded(self, st, fr):
        """the unwinding bound was reached: never silent. The path's inputs become a candidate non-termination, which the
        native replay confirms or refutes; either way the task is no longer fully decided"""
        self.inconclusive.append('loop bound %d in %s' % (self.o['loop_bound'], fr.fn.name))
        if self.loops < 2:
            self.loops += 1
            r = self.check(st)
            if r == z3.sat:
                self.report(st, 'loop bound %d exceeded in %s' % (self.o['loop_bound'], fr.fn.name), self.last_model, 'loop')
        raise PathEnd('loop')

    # -------------------------------------------------- path merging
    MERGE_OPS = vpir.BINOPS | vpir.CASTS | {'icmp', 'select', 'getelementptr', 'load', 'phi', 'br', 'cbr', 'freeze',
                                            'switch'}
    MERGE_CALLS = {'isdigit', 'isupper', 'islower', 'isalpha', 'isalnum', 'isspace', 'isxdigit', 'ispunct', 'toupper',
                   'tolower'}

    def succs(self, b):
        t = b.ins[-1]
        if t.op == 'br':
            return [t.ops[0]]
        if t.op == 'cbr':
            return [t.ops[1], t.ops[2]]
        if t.op == 'switch':
            return [t.x['default']] + [l for _, l in t.x['cases']]
        return []

    def ipdoms(self, fn):
        k = ('ipdom', fn.name)
        if k in self.cache:
            return self.cache[k]
        names = [b.name for b in fn.blocks]
        full = set(names) | {'$exit'}
        succ = {b.name: (self.succs(b) or ['$exit']) for b in fn.blocks}
        pd = {n: set(full) for n in names}
        pd['$exit'] = {'$exit'}
        ch = True
        while ch:
            ch = False
            for n in reversed(names):
                new = set.intersection(*[pd[x] for x in succ[n]]) | {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        ip = {}
        for n in names:
            c = pd[n] - {n}
            for x in c:
                if all(y == x or y in pd[x] for y in c):
                    ip[n] = x
        self.cache[k] = (ip, succ)
        return self.cache[k]

    def region(self, fn, blk):
        k = ('region', fn.name, blk.name)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = None
        if len(fn.blocks) > 600:
            return None
        ip, succ = self.ipdoms(fn)
        j = ip.get(blk.name)
        if j is None or j == '$exit' or j == blk.name:
            return None
        seen, work, order = set(), list(succ[blk.name]), []
        while work:
            x = work.pop()
            if x == j or x in seen:
                continue
            if x == blk.name:
                return None
            seen.add(x)
            order.append(x)
            work += succ[x]
        if len(seen) > self.o.get('merge_blocks', 8):
            return None
        # acyclic?
        state = {}

        def cyc(x):
            if x == j or x not in seen:
                return False
            if state.get(x) == 1:
                return True
            if state.get(x) == 2:
                return False
            state[x] = 1
            r = any(cyc(y) for y in succ[x])
            state[x] = 2
            return r
        if any(cyc(x) for x in succ[blk.name]):
            return None
        n = 0
        for x in seen:
            for i in fn.bmap[x].ins:
                n += 1
                if i.op in self.MERGE_OPS:
                    if i.op == 'load' and i.ty[0] == 'ptr':
                        return None
                    if i.op in ('sdiv', 'srem', 'udiv', 'urem') :
                        continue
                    continue
                if i.op == 'call' and i.x['callee'][0] == 'global' and i.x['callee'][1] in self.MERGE_CALLS:
                    continue
                return None
        if n > self.o.get('merge_ins', 40):
            return None
        # phis at the join must be integers
        for i in fn.bmap[j].ins:
            if i.op != 'phi':
                break
            if i.ty[0] != 'int':
                return None
        self.cache[k] = j
        return j

    def merge_region(self, st, fr, ins, j):
        s0 = st.copy()
        s0.frames = [s0.frames[-1]]
        s0.stop = j
        n0 = len(s0.pc)
        work, done = [s0], []
        nv0 = len(self.violations)
        while work:
            s = work.pop()
            try:
                while s.frames[-1].blk.name != j or s.frames[-1].prev is None or s is s0 and s.frames[-1].blk is fr.blk:
                    f = s.frames[-1]
                    self.stats['steps'] += 1
                    self.step(s, f, f.blk.ins[f.ip])
                    if s.frames[-1].blk.name == j:
                        break
                done.append(s)
            except Fork as f:
                self.stats['forks'] += 1
                for c in reversed(f.conds):
                    s2 = s.copy()
                    s2.stop = j
                    try:
                        self.assume(s2, c)
                        work.append(s2)
                    except PathEnd:
                        pass
            except PathEnd:
                pass
            if len(done) + len(work) > 64:
                return False
        if not done:
            raise PathEnd('merge')
        phis = []
        for i in fr.fn.bmap[j].ins:
            if i.op != 'phi':
                break
            phis.append(i)
        vals = {}
        if len(done) > 1:
            for i in phis:
                vs = [s.frames[-1].env[i.res] for s in done]
                if any(v is UNDEF or isinstance(v, Ptr) for v in vs):
                    return False
                conds = None
                if all(isinstance(v, Poly) for v in vs):
                    groups = {}
                    for s, v in zip(done, vs):
                        groups.setdefault(v.key(), (v, []))[1].append(s)
                    if len(groups) == 1:
                        vals[i.res] = vs[0]
                        continue
                    gl = sorted(groups.values(), key=lambda g: -len(g[0].d))
                    base = gl[-1][0]
                    if not all(self.boolish(v - base) for v, _ in gl):
                        if len(gl) > self.o.get('merge_general', 0):
                            return False
                    vals[i.res] = ('g', gl, base)
                elif all(isinstance(v, (bool, z3.BoolRef)) for v in vs):
                    vals[i.res] = ('b', list(zip(done, vs)))
                else:
                    return False
        if len(done) == 1:
            s = done[0]
            st.pc[:] = s.pc
            st.bounds, st.memo, st.defs = s.bounds, s.memo, s.defs
            f = s.frames[-1]
            fr.env, fr.visits, fr.prev, fr.blk, fr.ip = f.env, f.visits, f.prev, f.blk, f.ip
            return True

        def cond(s):
            d = s.pc[n0:]
            return d[0] if len(d) == 1 else z3.And(*d) if d else z3.BoolVal(True)
        pend = []
        for r, v in vals.items():
            if isinstance(v, Poly):
                continue
            if v[0] == 'g':
                gl, base = v[1], v[2]
                for vv, _ in gl:
                    for m in vv.d:
                        for x in m:
                            if x in self.bcond:
                                self.bvar(st, self.bcond[x])
                tot = base
                for vv, ss in gl[:-1]:
                    cs = [cond(s) for s in ss]
                    c = cs[0] if len(cs) == 1 else z3.Or(*cs)
                    tot = tot + self.gate(st, vv - base, c)
                vals[r] = tot
            else:
                cs = []
                for s, x in v[1]:
                    if x is False:
                        continue
                    cs.append(cond(s) if x is True else z3.And(cond(s), x))
                vals[r] = False if not cs else cs[0] if len(cs) == 1 else z3.Or(*cs)
        n = fr.visits.get(j, 0) + 1
        fr.visits[j] = n
        if n > self.o['loop_bound']:
            self.loop_exceeded(st, fr)
        fr.env.update(vals)
        fr.prev = fr.blk.name
        fr.blk = fr.fn.bmap[j]
        fr.ip = len(phis)
        # not every path of the region survives (infeasible/aborting ones): keep the disjunction
        st.pc.append(z3.Or(*[cond(s) for s in done]))
        self.stats['merges'] = self.stats.get('merges', 0) + 1
        return True

    def truth(self, st, v):
        if v is UNDEF:
            raise Unsupported('branch on undef')
        if isinstance(v, Poly):
            v = self.cmp(st, 'ne', v)
        return self.decide(st, v)

    def step(self, st, fr, i):
        op = i.op
        if op == 'br':
            self.goto(st, fr, i.ops[0])
            return
        if op == 'cbr':
            v = self.val(st, ('int', 1), i.ops[0])
            if self.o.get('merge', True) and not isinstance(v, bool) and v is not UNDEF:
                if isinstance(v, Poly):
                    v = self.cmp(st, 'ne', v)
                if self.quick(st, v) is None:
                    reg = self.region(fr.fn, fr.blk)
                    if reg and not getattr(st, 'stop', None) and self.merge_region(st, fr, i, reg):
                        return
            c = self.truth(st, v)
            self.goto(st, fr, i.ops[1] if c else i.ops[2])
            return
        if op == 'switch':
            v = self.val(st, i.ty, i.ops[0])
            if v is UNDEF:
                raise Unsupported('switch on undef')
            if isinstance(v, (bool, z3.BoolRef)):
                raise Unsupported('switch i1')
            for cv, lab in i.x['cases']:
                if self.decide(st, self.cmp(st, 'eq', v - Poly.const(cv))):
                    self.goto(st, fr, lab)
                    return
            self.goto(st, fr, i.x['default'])
            return
        if op == 'ret':
            v = self.val(st, i.ty, i.ops[0]) if i.ops else None
            for oid in fr.allocas:
                st.wobj(oid).alive = False
            st.frames.pop()
            if not st.frames:
                st.retval = v
            if st.frames:
                up = st.frames[-1]
                if fr.retto is not None:
                    up.env[fr.retto] = v
                up.ip += 1
            return
        if op == 'unreachable':
            raise PathEnd('unreachable')
        if op == 'call':
            self.call(st, fr, i)
            return
        r = self.compute(st, fr, i)
        if i.res is not None:
            fr.env[i.res] = r
        fr.ip += 1

    def compute(self, st, fr, i):
        op = i.op
        if op in vpir.BINOPS:
            a = self.val(st, i.ty, i.ops[0])
            b = self.val(st, i.ty, i.ops[1])
            if a is UNDEF or b is UNDEF:
                return UNDEF
            return self.binop(st, i, op, i.ty, a, b, fr)
        if op == 'fneg':
            a = self.val(st, i.ty, i.ops[0])
            return UNDEF if a is UNDEF else -a
        if op == 'icmp':
            a = self.val(st, i.ty, i.ops[0])
            b = self.val(st, i.ty, i.ops[1])
            return self.icmp(st, i.x['pred'], i.ty, a, b)
        if op == 'fcmp':
            a = self.val(st, i.ty, i.ops[0])
            b = self.val(st, i.ty, i.ops[1])
            if a is UNDEF or b is UNDEF:
                return UNDEF
            pr = i.x['pred']
            if pr in ('true', 'false'):
                return pr == 'true'
            if pr in ('ord', 'uno'):
                return pr == 'ord'
            k = pr[1:]
            d = a - b
            return {'eq': lambda: self.cmp(st, 'eq', d), 'ne': lambda: self.cmp(st, 'ne', d),
                    'lt': lambda: self.cmp(st, 'lt', d), 'le': lambda: self.cmp(st, 'le', d),
                    'gt': lambda: self.cmp(st, 'lt', -d), 'ge': lambda: self.cmp(st, 'le', -d)}[k]()
        if op == 'select':
            return self.select(st, self.val(st, ('int', 1), i.ops[0]), self.val(st, i.ty, i.ops[1]),
                               self.val(st, i.ty, i.ops[2]))
        if op == 'alloca':
            n = 1
            if i.x['n']:
                n = self.concretize(st, self.val(st, i.x['n'][0], i.x['n'][1]), 'alloca size')
            p = self.alloc(st, self.mod.size(i.ty) * n, '%s.%s' % (fr.fn.name, i.res))
            fr.allocas.append(p.obj)
            return p
        if op == 'load':
            return self.load_i1(self.load(st, self.val(st, PTR, i.ops[0]), i.ty), i.ty, st)
        if op == 'store':
            v = self.val(st, i.ty, i.ops[0])
            self.store(st, self.val(st, PTR, i.ops[1]), i.ty, v)
            return None
        if op == 'getelementptr':
            return self.gep(st, i.ty, [(t, self.val(st, t, x)) for t, x in i.ops])
        if op in vpir.CASTS:
            return self.cast(st, op, i.x['src'], i.ty, self.val(st, i.x['src'], i.ops[0]))
        if op == 'freeze':
            return self.val(st, i.ty, i.ops[0])
        if op == 'extractvalue':
            v = self.val(st, i.ty, i.ops[0])
            for k in i.x['idx']:
                v = v[k]
            return v
        if op == 'insertvalue':
            v = self.val(st, i.ty, i.ops[0])
            t = self.mod.resolve(i.ty)
            if v is UNDEF:
                v = (UNDEF,) * len(t[1])
            v = list(v)
            v[i.x['idx'][0]] = self.val(st, i.x['t2'], i.ops[1])
            return tuple(v)
        raise Unsupported(op)

    def quick(self, st, c):
        """cheap truth value or None"""
        if isinstance(c, bool):
            return c
        m = st.memo.get(c.get_id())
        if m is not None:
            return m[0]
        info = self.cinfo.get(c.get_id())
        if info:
            r = self.cmp(st, info[0], info[1])
            if isinstance(r, bool):
                return r
        return None

    def bvar(self, st, c):
        """0/1 integer Poly equivalent to the condition c"""
        q = self.quick(st, c)
        if q is not None:
            return Poly.const(1 if q else 0)
        key = ('b', c.get_id())
        b = self.cache.get(key)
        if b is None:
            b = self.newvar('b', 'I', st)
            self.cache[key] = b
            self.cache[('keepb', c.get_id())] = c
            self.bcond[next(iter(b.d))[0]] = c
        if key not in st.defs:
            st.defs.add(key)
            bid = next(iter(b.d))[0]
            st.bounds[bid] = (0, 1)
            z = self.vars[bid].z
            st.pc.append(z3.And(z >= 0, z <= 1, (z == 1) == c))
        return b


    def boolish(self, d):
        """integer polynomial that is linear in a few 0/1 condition variables"""
        if not self.is_int_poly(d):
            return False
        return d.is_const() or len(d.d) <= 4 and all(not m or len(m) == 1 and m[0] in self.bcond for m in d.d)

    def gate(self, st, d, c):
        """d if c else 0"""
        b = self.bvar(st, c)
        if d.is_const() or b.is_const() or not self.boolish(d):
            return d * b
        tot = Poly.const(0)
        for m, k in d.d.items():
            if not m:
                tot = tot + b.scale(k)
            else:
                tot = tot + self.bvar(st, self.mkand(c, self.bcond[m[0]])).scale(k)
        return tot

    def select(self, st, c, a, b):
        if c is UNDEF:
            raise Unsupported('select on undef')
        if isinstance(c, Poly):
            c = self.cmp(st, 'ne', c)
        q = self.quick(st, c)
        if q is not None:
            return a if q else b
        if self.o.get('merge', True):
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = a - b
                if not d.d:
                    return a
                if self.boolish(d):
                    return b + self.gate(st, d, c)
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a if a == b else (c if a else self.neg(c))
                if b is False:
                    return self.mkand(c, a)
                if a is True:
                    return self.mkor(c, b)
                if b is True:
                    return self.mkor(self.neg(c), a)
                if a is False:
                    return self.mkand(self.neg(c), b)
                return z3.Or(z3.And(c, a), z3.And(self.neg(c), b))
        return a if self.decide(st, c) else b

    def mkand(self, a, b):
        k = ('and', a.get_id(), b.get_id())
        if k not in self.cache:
            self.cache[k] = (z3.And(a, b), a, b)
        return self.cache[k][0]

    def mkor(self, a, b):
        k = ('or', a.get_id(), b.get_id())
        if k not in self.cache:
            self.cache[k] = (z3.Or(a, b), a, b)
        return self.cache[k][0]

    def load_i1(self, v, ty, st):
        return v

    def as_i(self, v):
        """i1 -> z3/py int poly not possible; keep bool"""
        return v

    def binop(self, st, i, op, ty, a, b, fr):
        if ty == ('int', 1) or isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            A, B = self.tobool(st, a), self.tobool(st, b)
            if op == 'and':
                if A is False or B is False:
                    return False
                if A is True:
                    return B
                if B is True:
                    return A
                return self.mkand(A, B)
            if op == 'or':
                if A is True or B is True:
                    return True
                if A is False:
                    return B
                if B is False:
                    return A
                return self.mkor(A, B)
            if op == 'xor':
                if isinstance(A, bool):
                    return self.neg(B) if A else B
                if isinstance(B, bool):
                    return self.neg(A) if B else A
                return z3.Xor(A, B)
            raise Unsupported('i1 ' + op)
        if op[0] == 'f':
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return self.fmul(st, a, b)
            if op == 'fdiv':
                return self.fdivide(st, a, b)
            raise Unsupported(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return a.off - b.off
            if op == 'add':
                if isinstance(a, Ptr):
                    return Ptr(a.obj, a.off + b)
                return Ptr(b.obj, b.off + a)
            raise Unsupported('pointer arithmetic ' + op)
        n = ty[1]
        what = '%s (%s)' % (op, fr.fn.name)
        nsw = 'nsw' in i.x.get('flags', ())
        if op == 'add':
            return self.fit(st, a + b, n, nsw, what)
        if op == 'sub':
            return self.fit(st, a - b, n, nsw, what)
        if op == 'mul':
            if not a.is_const() and not b.is_const():
                p = a * b
                return self.fit(st, p, n, nsw, what)
            return self.fit(st, a * b, n, nsw, what)
        if op == 'sdiv':
            return self.fit(st, self.sdiv(st, a, b), n, True, what)
        if op == 'srem':
            return a - self.sdiv(st, a, b) * b
        if op in ('udiv', 'urem'):
            ua, ub_ = self.unsigned(st, a, n), self.unsigned(st, b, n)
            if not ub_.is_const():
                raise Unsupported('udiv symbolic')
            if ub_.cval() == 0:
                self.ub(st, 'division by zero')
                raise PathEnd('div0')
            q = self.fdiv(st, ua, ub_.cval())
            if op == 'urem':
                q = ua - q.scale(ub_.cval())
            return self.fit(st, q, n, False, what)
        if op == 'shl':
            if not b.is_const():
                b = Poly.const(self.concretize(st, b, 'shift'))
            return self.fit(st, a.scale(1 << b.cval()), n, False, what)
        if op in ('lshr', 'ashr'):
            if not b.is_const():
                b = Poly.const(self.concretize(st, b, 'shift'))
            if op == 'lshr':
                a = self.unsigned(st, a, n)
            return self.fit(st, self.fdiv(st, a, 1 << b.cval()), n, False, what)
        if op in ('and', 'or', 'xor'):
            if a.is_const() and b.is_const():
                x, y = a.cval(), b.cval()
                return Poly.const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if a.is_const():
                a, b = b, a
            if op == 'xor' and b.is_const() and b.cval() == -1:
                return -a - Poly.const(1)
            if op == 'and' and b.is_const():
                m = b.cval()
                r = self.bitterms(st, a, m)
                if r is not None:
                    return r
                if m >= 0 and (m & (m + 1)) == 0:
                    # a mod 2^k (two's complement)
                    return a - self.fdiv(st, a, m + 1).scale(m + 1)
                if m >= 0:
                    # contiguous mask at a shift
                    s = (m & -m).bit_length() - 1
                    if ((m >> s) & ((m >> s) + 1)) == 0:
                        t = self.fdiv(st, a, 1 << s)
                        k = (m >> s) + 1
                        return (t - self.fdiv(st, t, k).scale(k)).scale(1 << s)
                if m < 0:
                    # clear low bits
                    k = -m
                    if (k & (k - 1)) == 0:
                        return self.fdiv(st, a, k).scale(k)
            if op == 'or':
                # disjoint: a multiple of 2^k, 0 <= b < 2^k
                for x, y in ((a, b), (b, a)):
                    lo, hi = self.interval(y, st)
                    if lo is not None and hi is not None and lo >= 0:
                        k = 1 << max(hi, 0).bit_length()
                        if all(isinstance(c, int) and c % k == 0 for c in x.d.values()):
                            return x + y
                if b.is_const() and b.cval() >= 0:
                    return a + b - self.binop(st, i, 'and', ty, a, b, fr)
            if op == 'xor' and b.is_const() and b.cval() >= 0:
                return a + b - self.binop(st, i, 'and', ty, a, b, fr).scale(2)
            # small: concretize
            v = self.concretize(st, b, op)
            w = self.concretize(st, a, op)
            return Poly.const({'and': v & w, 'or': v | w, 'xor': v ^ w}[op])
        raise Unsupported(op)

    def bitterms(self, st, a, m):
        """a & m where a is a sum of distinct powers of two times 0/1 variables"""
        if m < 0 or len(a.d) < 2:
            return None
        used, out = 0, {}
        for t, k in a.d.items():
            if not isinstance(k, int) or k <= 0:
                return None
            if t:
                if len(t) != 1 or k & (k - 1) or st.bounds.get(t[0]) not in ((0, 1), (0, 0), (1, 1)):
                    return None
                if k & m:
                    out[t] = k
            elif k & m:
                out[t] = k & m
            if used & k:
                return None
            used |= k
        return Poly(out)

    def tobool(self, st, v):
        if isinstance(v, Poly):
            if len(v.d) == 1:           # a condition turned into 0 or 1
                (m, k), = v.d.items()
                if len(m) == 1 and m[0] in self.bcond and k:
                    return self.bcond[m[0]]
            return self.cmp(st, 'ne', v)
        return v

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            A, B = self.tobool(st, a), self.tobool(st, b)
            if isinstance(A, bool) and isinstance(B, bool):
                e = A == B
            elif isinstance(A, bool):
                e = B if A else self.neg(B)
            elif isinstance(B, bool):
                e = A if B else self.neg(A)
            else:
                e = A == B
            if pred == 'eq':
                return e
            if pred == 'ne':
                return self.neg(e)
            raise Unsupported('i1 icmp')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if pred == 'eq' else not e
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if pred in ('eq', 'ne'):
                        return self.cmp(st, pred, a.off - b.off)
                    d = a.off - b.off
                    return {'ult': lambda: self.cmp(st, 'lt', d), 'ule': lambda: self.cmp(st, 'le', d),
                            'ugt': lambda: self.cmp(st, 'lt', -d), 'uge': lambda: self.cmp(st, 'le', -d)}[pred]()
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
            raise Unsupported('pointer compare')
        n = ty[1]
        if pred[0] == 'u':
            la, _ = self.interval(a, st)
            lb, _ = self.interval(b, st)
            if not (la is not None and la >= 0):
                a = self.unsigned(st, a, n)
            if not (lb is not None and lb >= 0):
                b = self.unsigned(st, b, n)
        d = a - b
        k = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': lambda: self.cmp(st, 'eq', d), 'ne': lambda: self.cmp(st, 'ne', d),
                'lt': lambda: self.cmp(st, 'lt', d), 'le': lambda: self.cmp(st, 'le', d),
                'gt': lambda: self.cmp(st, 'lt', -d), 'ge': lambda: self.cmp(st, 'le', -d)}[k]()

    def cast(self, st, op, sty, dty, v):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'fpext', 'fptrunc', 'addrspacecast'):
            return v
        if op == 'zext':
            if isinstance(v, (bool, z3.BoolRef)):
                return self.bvar(st, v)
            return self.unsigned(st, v, sty[1])
        if op == 'sext':
            if isinstance(v, (bool, z3.BoolRef)):
                return -self.bvar(st, v)
            return v
        if op == 'trunc':
            if isinstance(v, Ptr):
                raise Unsupported('trunc ptr')
            if dty == ('int', 1):
                r = v - self.fdiv(st, v, 2).scale(2)
                return self.cmp(st, 'ne', r)
            return self.fit(st, v, dty[1], False, 'trunc')
        if op == 'sitofp':
            if isinstance(v, (bool, z3.BoolRef)):
                return Poly.const(-1 if self.decide(st, v) else 0)
            return v
        if op == 'uitofp':
            if isinstance(v, (bool, z3.BoolRef)):
                return Poly.const(1 if self.decide(st, v) else 0)
            return self.unsigned(st, v, sty[1])
        if op in ('fptosi', 'fptoui'):
            r = self.ftrunc(st, v)
            return self.fit(st, r, dty[1], True, 'fptosi')
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            return v
        raise Unsupported(op)

    # ------------------------------------------------------------ reals
    def fmul(self, st, a, b):
        if self.o.get('normal'):
            return self.normal(a * b)
        return self.reduce(a * b)

    def normal(self, p):
        """p rewritten with s^2+c^2=1, the squares of roots and inv(b) * b = 1 until nothing applies"""
        for _ in range(400):
            p = self.reduce2(p)
            for m in p.d:
                hit = None
                for v in set(m):
                    lm = self.invlead(v)
                    if lm is None:
                        continue
                    rest = list(m)
                    rest.remove(v)
                    try:
                        for x in lm[0]:
                            rest.remove(x)
                    except ValueError:
                        continue
                    hit = (v, lm, rest)
                    break
                if hit:
                    break
            else:
                return p
            v, (l, k), rest = hit[0], hit[1], hit[2]
            # inv(b) * l = (1 - inv(b) * (b - k l)) / k
            r = dict(p.d)
            c = r.pop(m)
            b = self.invs[v] - Poly({l: k})
            f = (Poly.const(1) - b * Poly.var(v)) * Poly({tuple(sorted(rest)): norm(Fraction(c) / Fraction(k))})
            p = Poly(r) + f
        return p

    def invlead(self, v):
        b = self.invs.get(v)
        if b is None:
            return None
        m = max(b.d, key=lambda m: (len(m), tuple(-x for x in sorted(m))))
        return (m, b.d[m]) if m else None

    def reduce(self, p):
        """apply s^2 = 1 - c^2 for known sin/cos pairs, s^2 = c^2 - 1 for sinh/cosh"""
        if not getattr(self, 'pairs', None):
            return p
        changed = True
        while changed:
            changed = False
            d = {}
            for m, c in p.d.items():
                hit = None
                for s, co in self.pairs.items():
                    if m.count(s) >= 2:
                        hit = (s, co)
                        break
                if hit:
                    changed = True
                    l = list(m)
                    l.remove(hit[0]); l.remove(hit[0])
                    m1 = tuple(l)
                    k = -c if hit[0] in self.hyper else c
                    d[m1] = d.get(m1, 0) + k
                    m2 = tuple(sorted(l + [hit[1], hit[1]]))
                    d[m2] = d.get(m2, 0) - k
                else:
                    d[m] = d.get(m, 0) + c
            p = Poly(d)
        return p

    def reduce2(self, p):
        """reduce(), and the squares of square roots"""
        for _ in range(60):
            p = self.reduce(p)
            hit = next(((m, v) for m in p.d for v in self.roots if m.count(v) >= self.roots[v][0]), None)
            if hit is None:
                return p
            n, w = self.roots[hit[1]]
            r = Poly({})
            for m, c in p.d.items():
                k = m.count(hit[1])
                q = Poly({tuple(sorted(tuple(x for x in m if x != hit[1]) + (hit[1],) * (k % n))): c})
                for _ in range(k // n):
                    q = q * w
                r = r + q
            p = r
        return p

    def divided(self, p, w):
        """p / w if w divides p"""
        order = lambda m: (len(m), tuple(-x for x in sorted(m)))
        l = max(w.d, key=order)
        k = Fraction(w.d[l])
        q = {}
        for _ in range(400):
            if not p.d:
                return Poly(q)
            m = max(p.d, key=order)
            rest = list(m)
            for x in l:
                if x not in rest:
                    return None
                rest.remove(x)
            c = norm(Fraction(p.d[m]) / k)
            rest = tuple(sorted(rest))
            q[rest] = q.get(rest, 0) + c
            p = p - Poly({rest: c}) * w
        return None

    def square_root(self, p):
        r = self.square_root1(p)
        if r is not None or len(p.d) < 2 or not self.o.get('normal'):
            return r
        used = set(x for m in p.d for x in m)
        for s, c in self.pairs.items():
            if c in used:
                w = Poly.const(1) - Poly.var(c) * Poly.var(c)
                q = self.divided(p, -w if s in self.hyper else w)
                if q is not None:
                    r = self.square_root(q)
                    if r is not None:
                        return r * Poly.var(s)
        for v, (n, w) in self.roots.items():
            if n == 2 and not w.is_const():
                q = self.divided(p, w)
                if q is not None:
                    r = self.square_root(q)
                    if r is not None:
                        return r * Poly.var(v)
        return None

    def square_root1(self, p):
        """q with q * q == p, if p is the square of a polynomial of more than one term or of a variable"""
        n = len(p.d)
        if n == 0 or n > 40:
            return None
        if any(not all(self.vars[x].kind == 'R' for x in m) for m in p.d):
            return None

        def order(m):       # graded by degree, then lexicographic
            return (len(m), tuple(-x for x in sorted(m)))

        def root(c):
            from math import isqrt
            c = Fraction(c)
            if c <= 0:
                return None
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            return norm(Fraction(a, b)) if a * a == c.numerator and b * b == c.denominator else None

        def divm(a, b):
            l = list(a)
            for x in b:
                if x not in l:
                    return None
                l.remove(x)
            return tuple(l)
        q, rest = None, p
        for _ in range(12):
            if not rest.d:
                return q
            m = max(rest.d, key=order)
            c = rest.d[m]
            if q is None:
                h = []
                for x in sorted(set(m)):
                    if m.count(x) % 2:
                        return None
                    h += [x] * (m.count(x) // 2)
                r = root(c)
                if r is None:
                    return None
                q = lead = Poly({tuple(h): r})
                lm, lc = tuple(h), r
                rest = p - q * q
            else:
                d = divm(m, lm)
                if d is None:
                    return None
                t = Poly({tuple(sorted(d)): norm(Fraction(c) / (2 * Fraction(lc)))})
                q = q + t
                rest = p - q * q
        return None

    def cleared(self, p):
        """p times a product of divisors (known not to be zero), without fractions"""
        p = self.reduce2(p)
        for _ in range(40):
            vs = [v for v in self.invs if any(v in m for m in p.d)]
            if not vs or len(p.d) > 3000:
                return p
            v = max(vs)
            k = max(m.count(v) for m in p.d)
            b = self.invs[v]
            pw = [Poly.const(1)]
            for _ in range(k):
                pw.append(self.reduce2(pw[-1] * b))
            r = Poly({})
            for m, c in p.d.items():
                r = r + Poly({tuple(x for x in m if x != v): c}) * pw[k - m.count(v)]
            p = self.reduce2(r)
        return p

    def fdivide(self, st, a, b):
        if b.is_const():
            if b.cval() == 0:
                return UNDEF
            return a.scale(Fraction(1) / Fraction(b.cval()))
        if self.decide(st, self.cmp(st, 'eq', b)):
            return UNDEF
        if self.o.get('quotients') and not a.is_const():
            key = ('quo', a.key(), b.key())
            q = self.cache.get(key)
            if q is None:
                self.cache[key] = q = self.newvar('quo', 'R', st)
                self.trigarg[next(iter(q.d))[0]] = lambda val, a=a, b=b: val(a) / val(b)
            if key not in st.defs:
                st.defs.add(key)
                st.bounds[next(iter(q.d))[0]] = (None, None)
                st.pc.append(self.z(q, True) * self.z(b, True) == self.z(a, True))
            return q
        if self.o.get('normal') and not b.is_const():
            # 1 / (x y b') = 1/x 1/y 1/b'
            com = set.intersection(*[set(m) for m in b.d])
            if com and (len(b.d) > 1 or len(next(iter(b.d))) > 1 or b.d[next(iter(b.d))] != 1 or com & (set(self.roots) | set(self.invs))):
                x = max(com)
                rest = {}
                for m, c in b.d.items():
                    l = list(m)
                    l.remove(x)
                    rest[tuple(l)] = c
                if x in self.roots and self.roots[x][0] == 2:      # 1 / sqrt(w) = sqrt(w) / w
                    return self.fdivide(st, self.fdivide(st, self.normal(a * Poly.var(x)), self.roots[x][1]), Poly(rest))
                if x in self.invs:      # 1 / (1/z) = z
                    return self.fdivide(st, self.normal(a * self.invs[x]), Poly(rest))
                return self.fdivide(st, self.fdivide(st, a, Poly.var(x)), Poly(rest))
            k = b.d[max(b.d, key=lambda m: (len(m), tuple(-x for x in sorted(m))))]
            if k != 1:
                b, a = b.scale(1 / Fraction(k)), a.scale(1 / Fraction(k))
        key = ('inv', b.key())
        q = self.cache.get(key)
        if q is None:
            q = self.newvar('inv', 'R', st)
            self.cache[key] = q
            self.trigarg[next(iter(q.d))[0]] = lambda val, b=b: 1. / val(b)
            self.invs[next(iter(q.d))[0]] = b
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(q.d))[0]] = (None, None)
            st.pc.append(self.z(q, True) * self.z(b, True) == 1)
        if self.o.get('normal'):
            return self.normal(a * q)
        return a * q

    def ffloor(self, st, v):
        """floor of a real Poly -> int Poly"""
        A, B = {}, {}
        for m, c in v.d.items():
            isI = all(self.vars[x].kind == 'I' for x in m) and isinstance(norm(c), int)
            if isI:
                A[m] = c
            elif not m:
                f = Fraction(c)
                A[m] = f.numerator // f.denominator
                B[m] = f - A[m]
            else:
                B[m] = c
        A, B = Poly(A), Poly(B)
        if B.is_const():
            return A
        # common denominator, pure int numerators -> integer floor division
        if all(self.vars[x].kind == 'I' for m in B.d for x in m):
            from math import lcm
            L = 1
            for c in B.d.values():
                L = lcm(L, Fraction(c).denominator)
            return A + self.fdiv(st, B.scale(L), L)
        lo, hi = self.interval(B, st)
        fl = lambda x: Fraction(x).numerator // Fraction(x).denominator
        if lo is not None and hi is not None and fl(lo) == fl(hi):
            return A + Poly.const(fl(lo))
        key = ('floor', B.key())
        q = self.cache.get(key)
        if q is None:
            q = self.newvar('fl', 'I', st)
            self.cache[key] = q
        if key not in st.defs:
            st.defs.add(key)
            qid = next(iter(q.d))[0]
            st.bounds[qid] = (None if lo is None else fl(lo), None if hi is None else fl(hi))
            for c in (self.cmp(st, 'le', q - B), self.cmp(st, 'lt', B - q - Poly.const(1))):
                if not isinstance(c, bool):
                    self.assume(st, c)
        return A + q

    def ftrunc(self, st, v):
        if v.is_const():
            f = Fraction(v.cval())
            q = abs(f.numerator) // f.denominator
            return Poly.const(q if f >= 0 else -q)
        if self.is_int_poly(v):
            return v
        if self.decide(st, self.cmp(st, 'lt', v)):
            return -self.ffloor(st, -v)
        return self.ffloor(st, v)

    def sqrt(self, st, v):
        if v.is_const():
            c = Fraction(v.cval())
            from math import isqrt
            if c >= 0:
                a, b = isqrt(c.numerator), isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return Poly.const(norm(Fraction(a, b)))
        w = self.square_root(self.reduce2(v))
        if w is not None:
            return -w if self.decide(st, self.cmp(st, 'lt', w)) else w
        if self.decide(st, self.cmp(st, 'lt', v)):
            return UNDEF
        key = ('sqrt', v.key())
        q = self.cache.get(key)
        if q is None:
            q = self.newvar('sqrt', 'R', st)
            self.cache[key] = q
            self.trigarg[next(iter(q.d))[0]] = lambda val, v=v: math.sqrt(val(v))
            self.roots[next(iter(q.d))[0]] = (2, v)
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(q.d))[0]] = (0, None)
            st.pc.append(self.z(q, True) * self.z(q, True) == self.z(v, True))
            st.pc.append(self.z(q, True) >= 0)
        return q

    def trig(self, st, v):
        """(sin, cos) of v.  Uses angle addition for integer combinations of atoms"""
        if v.is_const() and v.cval() == 0:
            return Poly({}), Poly.const(1)
        # canonical sign
        k0 = v.key()
        sgn = 1
        if k0[0][1] < 0:
            v, sgn = -v, -1
        k = v.d.get((), 0)
        if k:      # quarter turns
            n = round(float(k) / (math.pi / 2))
            if n and abs(float(k) - n * math.pi / 2) < 1e-11 * abs(n):
                s, c = self.trig(st, v - Poly.const(k))
                for _ in range(n % 4):
                    s, c = c, -s
                return (s if sgn == 1 else -s), c
        # a sum of angles whose sines and cosines are known already
        if len(v.d) > 1 or abs(v.cval() if v.is_const() else next(iter(v.d.values()))) == 2:
            parts = []
            for m, k in v.d.items():
                if len(m) != 1 or k not in (1, -1, 2, -2) or ('trig', (((m[0],), '%.11e' % 1.),)) not in self.cache:
                    break
                parts.append((Poly.var(m[0]), k))
            else:
                s, c = Poly({}), Poly.const(1)
                for q, k in parts:
                    s1, c1 = self.trig(st, q)
                    s1 = s1 if k > 0 else -s1
                    for _ in range(abs(k)):
                        s, c = self.reduce(s * c1 + c * s1), self.reduce(c * c1 - s * s1)
                return (s if sgn == 1 else -s), c
        # angles equal to about 1 part in 1e11 are the same angle: a different order of the same constants
        # in the source must not matter
        key = ('trig', tuple((m, '%.11e' % float(c)) for m, c in v.key()))
        p = self.cache.get(key)
        if p is None:
            c = self.newvar('cos', 'R', st)
            s = self.newvar('sin', 'R', st)
            self.cache[key] = p = (s, c)
            self.trigarg[next(iter(s.d))[0]] = lambda val, v=v: math.sin(val(v))
            self.trigarg[next(iter(c.d))[0]] = lambda val, v=v: math.cos(val(v))
            self.pairs[next(iter(s.d))[0]] = next(iter(c.d))[0]
            self.angleof[s.key(), c.key()] = self.angleof[(-s).key(), c.key()] = v
        s, c = p
        if key not in st.defs and len(s.d) == len(c.d) == 1 and len(next(iter(s.d))) == len(next(iter(c.d))) == 1:
            st.defs.add(key)
            for x in (s, c):
                st.bounds[next(iter(x.d))[0]] = (-1, 1)
                st.pc.append(self.z(x, True) >= -1)
                st.pc.append(self.z(x, True) <= 1)
            st.pc.append(self.z(s, True) * self.z(s, True) + self.z(c, True) * self.z(c, True) == 1)
            if self.o.get('lipschitz'):
                V = self.z(v, True)
                for v2, s2, c2 in st.angles[-2:]:
                    d = V - self.z(v2, True)
                    for x, y in ((s, s2), (c, c2)):
                        e = self.z(x - y, True)
                        st.pc.append(z3.Or(z3.And(e <= d, -e <= d), z3.And(e <= -d, -e <= -d)))
                st.angles = st.angles + ((v, s, c),)
        return (s if sgn == 1 else -s), c

    # ------------------------------------------------------------- calls
    def cstring(self, st, p):
        out = []
        off = p.off.cval()
        o = st.mem[p.obj]
        while True:
            b = self.load_at(st, o, off, 1, 'i')
            if b is UNDEF or not b.is_const():
                return None
            if b.cval() == 0:
                return bytes(x & 255 for x in out)
            out.append(b.cval())
            off += 1

    def call(self, st, fr, i):
        cal = i.x['callee']
        if cal[0] == 'global':
            name = cal[1]
        else:
            f = self.val(st, PTR, cal)
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call')
            name = f.name
        args = [self.val(st, t, v) for t, v in i.ops]
        if name in self.hooks:
            r = self.hooks[name](self, st, args)
        elif name in self.mod.funcs:
            fn = self.mod.funcs[name]
            self.funcs_run[name] = self.funcs_run.get(name, 0) + 1
            if self.o.get('summarize', True) and self.pure(name) and fn.ret[0] == 'int':
                r = self.summary(st, fn, args)
                if i.res is not None:
                    fr.env[i.res] = r
                fr.ip += 1
                return
            nf = Frame(fn)
            for (t, nm), v in zip(fn.params, args):
                nf.env[nm] = v
            nf.retto = i.res
            nf.va = args[len(fn.params):]
            if len(st.frames) > 200:
                raise Unsupported('recursion depth')
            st.frames.append(nf)
            return
        else:
            m = getattr(self, 'ext_' + name.replace('.', '_'), None)
            if m is None:
                base = name
                if base.startswith('llvm.'):
                    base = '_'.join(base.split('.')[:2])
                    m = getattr(self, 'ext_' + base, None)
            if m is None:
                raise Unsupported('call to ' + name)
            r = m(st, args)
        if i.res is not None:
            fr.env[i.res] = r
        fr.ip += 1

    PURE_EXT = {'isdigit', 'isupper', 'islower', 'isalpha', 'isalnum', 'isspace', 'isxdigit', 'ispunct', 'toupper',
                'tolower', 'strlen', 'strchr', 'atoi', 'atol', 'memcmp', 'strcmp', 'strncmp', 'abs', 'labs', 'strstr'}

    def pure(self, name):
        k = ('pure', name)
        if k not in self.cache:
            self.cache[k] = False
            ok = True
            for b in self.mod.funcs[name].blocks:
                for i in b.ins:
                    if i.op in ('store', 'alloca', 'unreachable'):
                        ok = False
                    elif i.op == 'call':
                        c = i.x['callee']
                        if c[0] != 'global':
                            ok = False
                        elif c[1] in self.mod.funcs:
                            ok = ok and self.pure(c[1])
                        elif c[1] not in self.PURE_EXT and not c[1].startswith('llvm.abs'):
                            ok = False
            self.cache[k] = ok
        return self.cache[k]

    def summary(self, st, fn, args):
        """explore a side-effect free function on its own and merge the results into one value
        defined by a disjunction over its paths"""
        s0 = st.copy()
        s0.frames = [Frame(fn)]
        for (t, nm), v in zip(fn.params, args):
            s0.frames[0].env[nm] = v
        n0 = len(s0.pc)
        work, done = [s0], []
        while work:
            s = work.pop()
            try:
                s.retval = None
                self.run_path(s)
                done.append(s)
            except Fork as f:
                self.stats['forks'] += 1
                for c in reversed(f.conds):
                    s2 = s.copy()
                    try:
                        self.assume(s2, c)
                        work.append(s2)
                    except PathEnd:
                        pass
            except PathEnd:
                pass
            if len(done) + len(work) > 2000:
                raise Unsupported('summary of %s too large' % fn.name)
        if not done:
            raise PathEnd('summary')
        if len(done) == 1:
            s = done[0]
            st.pc[:] = s.pc
            st.bounds, st.memo, st.defs = s.bounds, s.memo, s.defs
            return s.retval
        vals = [s.retval for s in done]
        if any(v is UNDEF for v in vals):
            raise Unsupported('summary returns undef')
        if all(isinstance(v, Poly) for v in vals):
            if all(v.key() == vals[0].key() for v in vals):
                return vals[0]
            r = self.newvar('ret', 'I', st)
            rid = next(iter(r.d))[0]
            los, his = [], []
            cases = []
            for s, v in zip(done, vals):
                lo, hi = self.interval(v, s)
                los.append(lo)
                his.append(hi)
                cases.append(z3.And(*(s.pc[n0:] + [self.z(r) == self.z(v)])))
            st.pc.append(z3.Or(*cases))
            st.bounds[rid] = (None if None in los else min(los), None if None in his else max(his))
            if st.bounds[rid][0] is not None:
                st.pc.append(self.vars[rid].z >= st.bounds[rid][0])
            if st.bounds[rid][1] is not None:
                st.pc.append(self.vars[rid].z <= st.bounds[rid][1])
            return r
        # booleans
        cs = []
        for s, v in zip(done, vals):
            v = self.tobool(s, v)
            if v is False:
                continue
            cs.append(z3.And(*(s.pc[n0:] + ([] if v is True else [v]))))
        if not cs:
            return False
        return z3.Or(*cs)

    # harness intrinsics -------------------------------------------------
    def inp(self, st, name, kind, lo, hi, relaxed=False):
        n = self.cstring(st, name).decode()
        if (n, len(st.inputs)) in self.cache:
            v = self.cache[(n, len(st.inputs))]
        else:
            v = self.newvar('in_' + n, kind, st, relaxed=relaxed)
            self.cache[(n, len(st.inputs))] = v
        vid = next(iter(v.d))[0]
        st.bounds[vid] = (lo, hi)
        z = self.vars[vid].z
        if lo is not None:
            st.pc.append(z >= (lo if kind == 'I' else z3.Q(Fraction(lo).numerator, Fraction(lo).denominator)))
        if hi is not None:
            st.pc.append(z <= (hi if kind == 'I' else z3.Q(Fraction(hi).numerator, Fraction(hi).denominator)))
        st.inputs.append((n, kind, v))
        return v

    def ext_vp_long(self, st, a):
        return self.inp(st, a[0], 'I', a[1].cval(), a[2].cval())

    def ext_vp_rint(self, st, a):
        """an integer input the solver may treat as a rational (sound for proofs; counterexamples are re-solved with
        the integrality constraint before they are believed)"""
        self.has_relaxed = True
        return self.inp(st, a[0], 'I', a[1].cval(), a[2].cval(), relaxed=True)

    def ext_vp_choose(self, st, a):
        """an input whose values are explored one path each (case split chosen by the harness)"""
        n, lo, hi = self.cstring(st, a[0]).decode(), a[1].cval(), a[2].cval()
        key = (n, len(st.inputs))
        if key not in self.cache:
            self.cache[key] = self.newvar('in_' + n, 'I', st)
        v = self.cache[key]
        st.bounds[next(iter(v.d))[0]] = (lo, hi)
        conds = []
        for k in range(lo, hi + 1):
            c = self.cmp(st, 'eq', v - Poly.const(k))
            if c is True or (not isinstance(c, bool) and st.memo.get(c.get_id(), (False,))[0]):
                st.inputs.append((n, 'I', v))
                return Poly.const(k)
            conds.append(c)
        raise Fork(conds)

    def ext_vp_int(self, st, a):
        return self.inp(st, a[0], 'I', a[1].cval(), a[2].cval())

    def ext_vp_double(self, st, a):
        return self.inp(st, a[0], 'R', norm(Fraction(a[1].cval())), norm(Fraction(a[2].cval())))

    def ext_vp_assume(self, st, a):
        c = self.tobool(st, a[0])
        if isinstance(c, bool):
            if not c:
                raise PathEnd('assume')
            return None
        m = st.memo.get(c.get_id())
        if m is not None:
            if not m[0]:
                raise PathEnd('assume')
            return None
        self.assume(st, c)
        r = self.check(st)
        if r == z3.unsat:
            raise PathEnd('assume')
        return None

    def ext_vp_assert(self, st, a):
        msg = self.cstring(st, a[1]).decode()
        if a[0] is UNDEF:
            self.ub(st, 'undefined value reaches: ' + msg)
            return None
        self.assert_(st, self.tobool(st, a[0]), msg)

    def ext_vp_assert_req(self, st, a):
        """exact real equality (symbolic) ; |a-b|<=tol natively"""
        msg = self.cstring(st, a[3]).decode()
        if a[0] is UNDEF or a[1] is UNDEF:
            self.ub(st, 'undefined value reaches: ' + msg)
            return None
        tol = Fraction(a[2].cval())
        d = self.reduce(a[0] - a[1])
        if self.invs and not self.cleared(d).d:
            d = Poly({})
        if d.is_const():
            self.assert_(st, abs(Fraction(d.cval())) <= tol, msg)
            return
        if self.trig_violation(st, d, tol, msg):
            return
        if tol == 0:
            self.assert_(st, self.cmp(st, 'eq', d), msg)
        else:
            common = set.intersection(*[set(m) for m in d.d]) if d.d else set()
            common = [v for v in common if v in self.pairs or v in self.pairs.values()]
            if common:
                # a common factor that is a sine or cosine: it is enough that the rest is within the tolerance
                f = Poly({})
                for m, c in d.d.items():
                    m = list(m)
                    for v in common:
                        m.remove(v)
                    f = f + Poly({tuple(m): c})
                ok = True
                for x in (f, -f):
                    c = self.cmp(st, 'le', x - Poly.const(norm(tol)))
                    ok = ok and c is not False and (c is True or self.check(st, self.neg(c)) == z3.unsat)
                if ok:
                    self.stats['asserts'] += 1
                    return
            self.assert_(st, self.cmp(st, 'le', d - Poly.const(norm(tol))), msg)
            self.assert_(st, self.cmp(st, 'le', -d - Poly.const(norm(tol))), msg)

    def trig_violation(self, st, d, tol, msg):
        """the solver treats (sin, cos) of an angle as any point of the unit circle; a difference that survives the
        reduction s^2+c^2=1 is first tried at the true sines and cosines of some models of the path condition"""
        ta = self.trigarg
        if not any(v in ta for m in d.d for v in m):
            return False
        lo, hi = self.interval(d, st)
        if lo is not None and hi is not None and -tol <= lo and hi <= tol:
            return False
        rnd = random.Random(1)
        reals = [p for n, k, p in st.inputs if k == 'R']
        for k in range(6):
            extra = []
            for q in reals:
                vid = next(iter(q.d))[0]
                b = st.bounds.get(vid, (None, None))
                if k and b[0] is not None and b[1] is not None and b[0] < b[1]:
                    f = Fraction(rnd.randrange(1, 1000), 1000)
                    x = Fraction(b[0]) + (Fraction(b[1]) - Fraction(b[0])) * f
                    w = (Fraction(b[1]) - Fraction(b[0])) / 64
                    extra.append(self.z(q - Poly.const(norm(x - w)), True) >= 0)
                    extra.append(self.z(q - Poly.const(norm(x + w)), True) <= 0)
            so = z3.Solver()
            so.set('timeout', 3000)
            skip = set(v for v in ta)
            so.add(*[c for c in st.pc if not self.mentions_trig(c)])
            so.add(*extra)
            self.stats['queries'] += 1
            if so.check() != z3.sat:
                continue
            model = so.model()
            env = {}

            def val(p):
                t = 0.
                for m, c in p.d.items():
                    x = float(c)
                    for v in m:
                        if v not in env:
                            if v in ta:
                                env[v] = ta[v](val)
                            else:
                                z = model.eval(self.vars[v].z, model_completion=True)
                                env[v] = float(z.approx(20).as_fraction()) if z3.is_algebraic_value(z) else float(z.as_fraction() if not z3.is_int_value(z) else z.as_long())
                        x *= env[v]
                    t += x
                return t
            self.stats['assert_queries'] += 1
            try:
                if not abs(val(d)) > float(tol) or not all(self.roughly(c, val, model) for c in st.pc if self.mentions_trig(c)):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if True:
                n = sum(1 for v in self.violations if (v.kind, v.msg) == ('assert', msg))
                self.stats['asserts'] += 1
                if n < 3:
                    self.violations.append(Violation(msg, self.model_inputs(st, model), 'assert'))
                return True
        return False

    def roughly(self, c, val, model):
        """does constraint c hold, to rounding, at the numbers that val() gives for the variables?"""
        byz = {}
        for k, v in enumerate(self.vars):
            byz[v.z.get_id()] = k
        memo = {}

        def num(e):
            k = e.get_id()
            if k not in memo:
                memo[k] = num_(e)
            return memo[k]

        def num_(e):
            if e.get_id() in byz:
                return val(Poly.var(byz[e.get_id()]))
            if z3.is_rational_value(e):
                return float(e.as_fraction())
            if z3.is_int_value(e):
                return float(e.as_long())
            ch = e.children()
            op = e.decl().kind()
            if op == z3.Z3_OP_TO_REAL or op == z3.Z3_OP_TO_INT:
                return num(ch[0])
            if op == z3.Z3_OP_ITE:
                return num(ch[1] if boo(ch[0]) else ch[2])
            x = [num(k) for k in ch]
            if op == z3.Z3_OP_ADD:
                return sum(x)
            if op == z3.Z3_OP_SUB:
                return x[0] - sum(x[1:])
            if op == z3.Z3_OP_UMINUS:
                return -x[0]
            if op == z3.Z3_OP_MUL:
                return math.prod(x)
            if op == z3.Z3_OP_DIV:
                return x[0] / x[1]
            raise ValueError(e)

        def boo(e):
            ch, op = e.children(), e.decl().kind()
            if op in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
                if z3.is_bool(ch[0]):
                    return (boo(ch[0]) == boo(ch[1])) != (op == z3.Z3_OP_DISTINCT)
                x, y = num(ch[0]), num(ch[1])
                eps = 1e-9 * (1. + abs(x) + abs(y))
                return {z3.Z3_OP_EQ: abs(x - y) <= eps, z3.Z3_OP_LE: x <= y + eps, z3.Z3_OP_GE: x >= y - eps,
                        z3.Z3_OP_LT: x < y, z3.Z3_OP_GT: x > y, z3.Z3_OP_DISTINCT: x != y}[op]
            if op == z3.Z3_OP_AND:
                return all(boo(k) for k in ch)
            if op == z3.Z3_OP_OR:
                return any(boo(k) for k in ch)
            if op == z3.Z3_OP_NOT:
                k = ch[0]
                if k.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE):
                    x, y = num(k.children()[0]), num(k.children()[1])
                    return x > y if k.decl().kind() == z3.Z3_OP_LE else x < y
                return not boo(k)
            if op == z3.Z3_OP_IMPLIES:
                return not boo(ch[0]) or boo(ch[1])
            if op in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                return op == z3.Z3_OP_TRUE
            raise ValueError(e)
        return boo(c)

    def mentions_trig(self, c):
        k = ('mt', c.get_id())
        if k not in self.cache:
            ta = self.trigarg
            ids = {self.vars[v].z.get_id() for v in ta}
            seen, todo, r = set(), [c], False
            while todo and not r:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                r = x.get_id() in ids
                todo += x.children()
            self.cache[k] = r
            self.cache[('mtk', c.get_id())] = c
        return self.cache[k]

    def ext_vp_reach(self, st, a):
        n = self.cstring(st, a[0]).decode()
        if n not in self.reached:
            w = self.numeric_witness(st) if self.o.get('branch_ms') else None
            if w is not None:
                self.reached[n] = w
            elif not self.o.get('branch_ms') and self.check(st) == z3.sat:
                self.reached[n] = self.model_inputs(st, self.last_model)

    def numeric_witness(self, st):
        """inputs that take this path, found by trial; the native run has to confirm it"""
        rnd = random.Random(1)
        for k in range(300):
            env = {}
            for n, kind, p in st.inputs:
                vid = next(iter(p.d))[0]
                lo, hi = st.bounds.get(vid, (None, None))
                if kind != 'R' or lo is None or hi is None:
                    return None
                x = float(lo) + (float(hi) - float(lo)) * rnd.random()
                if rnd.random() < .7:           # also numbers close to zero, or to the lower end
                    x *= 10. ** -rnd.randrange(2, 12)
                    x = x if lo <= x else float(lo) + abs(x)
                env[vid] = x

            def val(p):
                t = 0.
                for m, c in p.d.items():
                    x = float(c)
                    for v in m:
                        if v not in env:
                            env[v] = self.trigarg[v](val)
                        x *= env[v]
                    t += x
                return t
            try:
                if all(self.roughly(c, val, None) for c in st.pc):
                    return [(n, kind, val(p)) for n, kind, p in st.inputs]
            except (KeyError, ValueError, ArithmeticError):
                pass
        return None

    # libc ----------------------------------------------------------------
    def copybytes(self, st, dst, src, n):
        if n == 0:
            return
        so = self.addr(st, src, n, 'memcpy read')
        do = self.addr(st, dst, n, 'memcpy write')
        s = st.mem[src.obj]
        cells = {}
        o = so
        while o < so + n:
            c = s.cells.get(o)
            if c and o + c[0] <= so + n:
                cells[do + o - so] = c
                o += c[0]
            else:
                b = self.byte_at(st, s, o)
                cells[do + o - so] = (1, 'i', b)
                o += 1
        d = st.wobj(dst.obj)
        if d.const:
            self.ub(st, 'store to constant')
            raise PathEnd('const')
        self.clobber(st, d, do, n)
        d.cells.update(cells)

    def ext_llvm_memcpy(self, st, a):
        n = self.concretize(st, a[2], 'memcpy length')
        self.copybytes(st, a[0], a[1], n)

    ext_llvm_memmove = ext_llvm_memcpy

    def ext_memcpy(self, st, a):
        self.ext_llvm_memcpy(st, a)
        return a[0]

    ext_memmove = ext_memcpy

    def ext_llvm_memset(self, st, a):
        n = self.concretize(st, a[2], 'memset length')
        if n == 0:
            return
        do = self.addr(st, a[0], n, 'memset')
        d = st.wobj(a[0].obj)
        self.clobber(st, d, do, n)
        for i in range(n):
            d.cells[do + i] = (1, 'i', a[1])

    def ext_memset(self, st, a):
        v = a[1]
        if v.is_const():
            x = v.cval() & 255
            v = Poly.const(x - 256 if x > 127 else x)
        self.ext_llvm_memset(st, [a[0], v, a[2]])
        return a[0]

    def ext_strlen(self, st, a):
        off = 0
        while True:
            b = self.load(st, Ptr(a[0].obj, a[0].off + Poly.const(off)), ('int', 8))
            if b is UNDEF:
                raise Unsupported('strlen of undef')
            if self.decide(st, self.cmp(st, 'eq', b)):
                return Poly.const(off)
            off += 1

    def ext_strcpy(self, st, a):
        n = self.ext_strlen(st, [a[1]]).cval()
        self.copybytes(st, a[0], a[1], n + 1)
        return a[0]

    def ext_llvm_lifetime(self, st, a):
        return None

    def ext_llvm_assume(self, st, a):
        return None

    def ext_llvm_abs(self, st, a):
        return -a[0] if self.decide(st, self.cmp(st, 'lt', a[0])) else a[0]

    ext_abs = ext_labs = ext_llvm_abs

    def fsh32(self, st, a, left):
        x, y, n = (self.concretize(st, v, 'funnel shift') for v in a)
        v = ((x % (1 << 32)) << 32) | (y % (1 << 32))
        n %= 32
        r = (v >> (32 - n) if left else v >> n) % (1 << 32)
        return Poly.const(r - (1 << 32) if r >> 31 else r)

    def ext_llvm_fshl_i32(self, st, a):
        return self.fsh32(st, a, True)

    def ext_llvm_fshr_i32(self, st, a):
        return self.fsh32(st, a, False)

    def ext_llvm_fabs(self, st, a):
        if a[0] is UNDEF:
            return UNDEF
        return -a[0] if self.decide(st, self.cmp(st, 'lt', a[0])) else a[0]

    ext_fabs = ext_fabsl = ext_llvm_fabs

    def ext_llvm_floor(self, st, a):
        return self.ffloor(st, a[0])

    ext_floor = ext_floorl = ext_llvm_floor

    def ext_llvm_ceil(self, st, a):
        return -self.ffloor(st, -a[0])

    ext_ceil = ext_llvm_ceil

    def ext_llvm_is_fpclass_f64(self, st, a):
        if a[0] is UNDEF:
            return UNDEF
        m = a[1].cval()
        if m == 504:            # finite
            return True
        if m & 504 == 0:        # infinite or NaN
            return False
        raise Unsupported('fpclass')

    def ext_fmod(self, st, a):
        x, y = a
        if not y.is_const() or y.cval() == 0:
            raise Unsupported('fmod')
        q = self.ftrunc(st, x.scale(1 / Fraction(abs(y.cval()))))
        return x - q.scale(abs(y.cval()))

    def ext_llvm_fmuladd(self, st, a):
        return self.fmul(st, a[0], a[1]) + a[2]

    def ext_sqrt(self, st, a):
        return self.sqrt(st, a[0])

    ext_sqrtl = ext_llvm_sqrt = ext_sqrt

    def ext_sin(self, st, a):
        return self.trig(st, a[0])[0]

    def ext_cos(self, st, a):
        return self.trig(st, a[0])[1]

    ext_sinl, ext_cosl = ext_sin, ext_cos

    def hyp(self, st, v):
        """(sinh, cosh) of v"""
        if v.is_const() and v.cval() == 0:
            return Poly({}), Poly.const(1)
        sgn = 1
        if v.key()[0][1] < 0:
            v, sgn = -v, -1
        key = ('hyp', tuple((m, '%.11e' % float(c)) for m, c in v.key()))
        p = self.cache.get(key)
        if p is None:
            c = self.newvar('cosh', 'R', st)
            s = self.newvar('sinh', 'R', st)
            self.cache[key] = p = (s, c)
            sv, cv = next(iter(s.d))[0], next(iter(c.d))[0]
            self.trigarg[sv] = lambda val, v=v: math.sinh(val(v))
            self.trigarg[cv] = lambda val, v=v: math.cosh(val(v))
            self.pairs[sv] = cv
            self.hyper.add(sv)
            self.angleof[s.key()] = v
        s, c = p
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(s.d))[0]] = (None, None)
            st.bounds[next(iter(c.d))[0]] = (1, None)
            S, C, V = self.z(s, True), self.z(c, True), self.z(v, True)
            st.pc.append(C >= 1)
            st.pc.append(C * C - S * S == 1)
            st.pc.append(S * V >= 0)
            if self.o.get('lipschitz'):
                for v2, s2, c2 in st.hyps[-2:]:
                    d = V - self.z(v2, True)
                    w = C + self.z(c2, True)
                    for x, y in ((s, s2), (c, c2)):
                        e = self.z(x - y, True)
                        st.pc.append(z3.Or(z3.And(e <= d * w, -e <= d * w), z3.And(e <= -d * w, -e <= -d * w)))
                st.hyps = st.hyps + ((v, s, c),)
        return (s if sgn == 1 else -s), c

    def ext_sinh(self, st, a):
        return self.hyp(st, a[0])[0]

    def ext_cosh(self, st, a):
        return self.hyp(st, a[0])[1]

    def ext_asinh(self, st, a):
        x = a[0]
        if x.is_const() and x.cval() == 0:
            return x
        for y, k in ((x, 1), (-x, -1)):
            v = self.angleof.get(y.key())
            if v is not None:
                return v.scale(k)
        key = ('asinh', x.key())
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = r = self.newvar('asinh', 'R', st)
            self.trigarg[next(iter(r.d))[0]] = lambda val, x=x: math.asinh(val(x))
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(r.d))[0]] = (None, None)
            s, c = self.hyp(st, r)
            st.pc.append(self.z(s, True) == self.z(x, True))
        return r

    def ext_log(self, st, a):
        """the logarithm: a fresh number, whose multiples exp() knows"""
        x = a[0]
        if x.is_const() and x.cval() == 1:
            return Poly({})
        if self.decide(st, self.cmp(st, 'le', x)):
            return UNDEF
        key = ('log', x.key())
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = r = self.newvar('log', 'R', st)
            self.trigarg[next(iter(r.d))[0]] = lambda val, x=x: math.log(val(x))
            self.logs[next(iter(r.d))[0]] = x
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(r.d))[0]] = (None, None)
            # log(x) <= x - 1,  log(x) >= 1 - 1/x
            R, X = self.z(r, True), self.z(x, True)
            st.pc.append(R <= X - 1)
            st.pc.append(R * X >= X - 1)
        return r

    def ext_exp(self, st, a):
        x = a[0]
        if x.is_const() and x.cval() == 0:
            return Poly.const(1)
        key = ('exp', x.key())
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = r = self.newvar('exp', 'R', st)
            self.trigarg[next(iter(r.d))[0]] = lambda val, x=x: math.exp(val(x))
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(r.d))[0]] = (0, None)
            R, X = self.z(r, True), self.z(x, True)
            st.pc.append(R > 0)
            st.pc.append(R >= 1 + X)
            if len(x.d) == 1:
                (m, k), = x.d.items()
                if len(m) == 1 and m[0] in self.logs:     # exp( log( y) * p / q)
                    f = Fraction(k).limit_denominator(12)
                    if abs(float(f) - float(k)) < 1e-15 and abs(f.numerator) <= 12:
                        y = self.z(self.logs[m[0]], True)
                        n, q = f.numerator, f.denominator
                        if n > 0 and q > 1:
                            w = Poly.const(1)
                            for _ in range(n):
                                w = w * self.logs[m[0]]
                            self.roots[next(iter(r.d))[0]] = (q, w)
                        lhs, rhs = z3.RealVal(1), z3.RealVal(1)
                        for _ in range(q):
                            lhs = lhs * R
                        for _ in range(abs(n)):
                            if n > 0:
                                rhs = rhs * y
                            else:
                                lhs = lhs * y
                        st.pc.append(lhs == rhs)
        return r

    def anglevar(self, st, key, name, lo, hi, num, eqs, pair=None):
        """an angle in lo..hi defined by equations for its sine and cosine, or by these"""
        a = self.cache.get(key)
        if a is None:
            self.cache[key] = a = self.newvar(name, 'R', st)
            self.trigarg[next(iter(a.d))[0]] = num
            if pair:
                self.cache[('trig', tuple((m, '%.11e' % float(c)) for m, c in a.key()))] = pair
        if key not in st.defs:
            st.defs.add(key)
            st.bounds[next(iter(a.d))[0]] = (lo, hi)
            st.pc.append(self.z(a - Poly.const(lo), True) >= 0)
            st.pc.append(self.z(a - Poly.const(hi), True) <= 0)
            s, c = self.trig(st, a)
            for e in eqs(s, c):
                st.pc.append(self.z(e, True) == 0)
            if lo < 0:          # the angle has the sign of its sine
                st.pc.append(self.z(a, True) * self.z(s, True) >= 0)
                if lo > -3:
                    st.pc.append(self.z(s, True) * self.z(s, True) <= self.z(a, True) * self.z(a, True))
        return a

    PI_UP = Fraction(3141592653589794, 10 ** 15)

    def ext_atan2(self, st, a):
        y, x = a
        if y is UNDEF or x is UNDEF:
            return UNDEF
        v = self.angleof.get((y.key(), x.key()))
        if v is not None:           # the angle whose sine and cosine these are
            if y.key()[0][1] < 0:
                v = -v
            lo, hi = self.interval(v, st)
            if lo is not None and hi is not None and -self.PI_UP < lo and hi < self.PI_UP - Fraction(1, 10 ** 9):
                return v
        r2 = self.reduce(self.fmul(st, x, x) + self.fmul(st, y, y))
        if self.decide(st, self.cmp(st, 'eq', r2)):
            return Poly({})
        r = self.sqrt(st, r2)
        s, c = self.fdivide(st, y, r), self.fdivide(st, x, r)
        return self.anglevar(st, ('atan2', y.key(), x.key(), r.key()), 'atan2', -self.PI_UP, self.PI_UP,
                             lambda val: math.atan2(val(y), val(x)), lambda s, c: (), (s, c))

    def ext_atan(self, st, a):
        x = a[0]
        r = self.sqrt(st, self.fmul(st, x, x) + Poly.const(1))
        return self.anglevar(st, ('atan', x.key(), r.key()), 'atan', -self.PI_UP / 2, self.PI_UP / 2,
                             lambda val: math.atan(val(x)), lambda s, c: (), (self.fdivide(st, x, r), self.fdivide(st, Poly.const(1), r)))

    def ext_asin(self, st, a):
        x = a[0]
        r = self.sqrt(st, Poly.const(1) - self.fmul(st, x, x))
        if r is UNDEF:
            return UNDEF
        return self.anglevar(st, ('asin', x.key(), r.key()), 'asin', -self.PI_UP / 2, self.PI_UP / 2,
                             lambda val: math.asin(val(x)), lambda s, c: (), (x, r))

    def ext_acos(self, st, a):
        x = a[0]
        r = self.sqrt(st, Poly.const(1) - self.fmul(st, x, x))
        if r is UNDEF:
            return UNDEF
        return self.anglevar(st, ('acos', x.key(), r.key()), 'acos', Fraction(0), self.PI_UP,
                             lambda val: math.acos(val(x)), lambda s, c: (), (r, x))

    exit_ok = False

    def die(self, st, what):
        if not self.exit_ok:
            self.ub(st, what)
        raise PathEnd(what)

    def ext_abort(self, st, a):
        self.die(st, 'abort() called')

    def ext_exit(self, st, a):
        self.die(st, 'exit() called')

    def ext___assert_fail(self, st, a):
        self.die(st, 'assert() failed: %s' % (self.cstring(st, a[0]) or b'').decode())

    def ext_printf(self, st, a):
        return Poly.const(0)

    ext_fprintf = ext_puts = ext_printf

    # ---- byte inputs
    def byte_inp(self, st, name, p, off, lo, hi):
        v = self.inp(st, name, 'I', lo, hi)
        self.store(st, Ptr(p.obj, p.off + Poly.const(off)), ('int', 8), v)

    def ext_vp_bytes(self, st, a):
        for k in range(a[2].cval()):
            self.byte_inp(st, a[0], a[1], k, -128, 127)

    def ext_vp_bytes_in(self, st, a):
        for k in range(a[2].cval()):
            self.byte_inp(st, a[0], a[1], k, a[3].cval(), a[4].cval())

    def ext_vp_string(self, st, a):
        n = a[2].cval()
        for k in range(n):
            self.byte_inp(st, a[0], a[1], k, -128, 127)
        self.store(st, Ptr(a[1].obj, a[1].off + Poly.const(n)), ('int', 8), Poly({}))

    def ext_vp_char(self, st, a):
        return self.inp(st, a[0], 'I', -128, 127)

    def ext_vp_allow_exit(self, st, a):
        self.exit_ok = bool(a[0].cval())

    # ---- ctype / strings
    def ranges(self, st, x, rs):
        """0/1 Poly: x in one of the closed ranges"""
        if x is UNDEF:
            self.ub(st, 'use of uninitialised byte')
            raise PathEnd('undef')
        cs = []
        for lo, hi in rs:
            a = self.cmp(st, 'le', Poly.const(lo) - x)
            b = self.cmp(st, 'le', x - Poly.const(hi))
            a, b = [self.quick(st, y) if self.quick(st, y) is not None else y for y in (a, b)]
            if a is False or b is False:
                continue
            if a is True and b is True:
                return Poly.const(1)
            cs.append(b if a is True else a if b is True else self.mkand(a, b))
        if not cs:
            return Poly.const(0)
        c = cs[0]
        for y in cs[1:]:
            c = self.mkor(c, y)
        return self.bvar(st, c)

    def ext_isdigit(self, st, a):
        return self.ranges(st, a[0], [(48, 57)])

    def ext_isupper(self, st, a):
        return self.ranges(st, a[0], [(65, 90)])

    def ext_islower(self, st, a):
        return self.ranges(st, a[0], [(97, 122)])

    def ext_isalpha(self, st, a):
        return self.ranges(st, a[0], [(65, 90), (97, 122)])

    def ext_isalnum(self, st, a):
        return self.ranges(st, a[0], [(48, 57), (65, 90), (97, 122)])

    def ext_isxdigit(self, st, a):
        return self.ranges(st, a[0], [(48, 57), (65, 70), (97, 102)])

    def ext_isspace(self, st, a):
        return self.ranges(st, a[0], [(9, 13), (32, 32)])

    def ext_ispunct(self, st, a):
        return self.ranges(st, a[0], [(33, 47), (58, 64), (91, 96), (123, 126)])

    def ext_toupper(self, st, a):
        b = self.ranges(st, a[0], [(97, 122)])
        return a[0] - b.scale(32)

    def ext_tolower(self, st, a):
        b = self.ranges(st, a[0], [(65, 90)])
        return a[0] + b.scale(32)

    def byte(self, st, p, k):
        b = self.load(st, Ptr(p.obj, p.off + Poly.const(k)) if isinstance(p, Ptr) else p, ('int', 8))
        if b is UNDEF:
            self.ub(st, 'use of uninitialised byte of ' + st.mem[p.obj].name)
            raise PathEnd('undef')
        return b

    def is0(self, st, b):
        return self.decide(st, self.cmp(st, 'eq', b))

    def eqb(self, st, a, b):
        return self.decide(st, self.cmp(st, 'eq', a - b))

    def schar(self, st, c):
        if c.is_const():
            v = c.cval() & 255
            return Poly.const(v - 256 if v > 127 else v)
        return c

    def ext_strchr(self, st, a):
        c = self.schar(st, a[1])
        k = 0
        lit = self.cstring(st, a[0]) if isinstance(a[0], Ptr) and a[0].off.is_const() and st.mem[a[0].obj].const else None
        if lit is not None and not c.is_const() and self.o.get('merge', True):
            # membership in a constant set: one decision, offset left symbolic
            pos = {}
            for j, ch in enumerate(lit + b'\0'):
                pos.setdefault(ch, j)
            inn = self.ranges(st, c, [(ch, ch) for ch in pos])
            if not self.decide(st, self.cmp(st, 'ne', inn)):
                return NULL
            key = ('strchr', lit, c.key())
            v = self.cache.get(key)
            if v is None:
                v = self.newvar('pos', 'I', st)
                self.cache[key] = v
            if key not in st.defs:
                st.defs.add(key)
                st.bounds[next(iter(v.d))[0]] = (0, len(lit))
                st.pc.append(z3.Or(*[z3.And(self.z(c) == ch, self.z(v) == j) for ch, j in pos.items()]))
            return Ptr(a[0].obj, a[0].off + v)
        while True:
            b = self.byte(st, a[0], k)
            if self.eqb(st, b, c):
                return Ptr(a[0].obj, a[0].off + Poly.const(k))
            if self.is0(st, b):
                return NULL
            k += 1

    def ext_strrchr(self, st, a):
        c = self.schar(st, a[1])
        k, r = 0, NULL
        while True:
            b = self.byte(st, a[0], k)
            if self.eqb(st, b, c):
                r = Ptr(a[0].obj, a[0].off + Poly.const(k))
            if self.is0(st, b):
                return r
            k += 1

    def ext_memchr(self, st, a):
        c = self.schar(st, a[1])
        for k in range(self.concretize(st, a[2], 'memchr')):
            if self.eqb(st, self.byte(st, a[0], k), c):
                return Ptr(a[0].obj, a[0].off + Poly.const(k))
        return NULL

    def ub8(self, st, b):
        return self.unsigned(st, b, 8)

    def cmpstr(self, st, p, q, n, stop0):
        k = 0
        while n is None or k < n:
            a, b = self.byte(st, p, k), self.byte(st, q, k)
            if not self.eqb(st, a, b):
                return self.ub8(st, a) - self.ub8(st, b)
            if stop0 and self.is0(st, a):
                return Poly({})
            k += 1
        return Poly({})

    def ext_strcmp(self, st, a):
        return self.cmpstr(st, a[0], a[1], None, True)

    def ext_strncmp(self, st, a):
        return self.cmpstr(st, a[0], a[1], self.concretize(st, a[2], 'strncmp'), True)

    def ext_memcmp(self, st, a):
        return self.cmpstr(st, a[0], a[1], self.concretize(st, a[2], 'memcmp'), False)

    ext_bcmp = ext_memcmp

    def ext_strstr(self, st, a):
        n = self.ext_strlen(st, [a[1]]).cval()
        k = 0
        while True:
            ok = True
            for j in range(n):
                if not self.eqb(st, self.byte(st, a[0], k + j), self.byte(st, a[1], j)):
                    ok = False
                    break
            if ok:
                return Ptr(a[0].obj, a[0].off + Poly.const(k))
            if self.is0(st, self.byte(st, a[0], k)):
                return NULL
            k += 1

    def ext_strcat(self, st, a):
        n = self.ext_strlen(st, [a[0]])
        m = self.ext_strlen(st, [a[1]]).cval()
        self.copybytes(st, Ptr(a[0].obj, a[0].off + n), a[1], m + 1)
        return a[0]

    def ext_strncpy(self, st, a):
        n = self.concretize(st, a[2], 'strncpy')
        k = 0
        while k < n and not self.is0(st, self.byte(st, a[1], k)):
            k += 1
        self.copybytes(st, a[0], a[1], k)
        for j in range(k, n):
            self.store(st, Ptr(a[0].obj, a[0].off + Poly.const(j)), ('int', 8), Poly({}))
        return a[0]

    def ext_strtol(self, st, a):
        base = a[2].cval()
        v, k, any_ = self.parse_int(st, a[0], base)
        if isinstance(a[1], Ptr) and a[1].obj:
            self.store(st, a[1], PTR, Ptr(a[0].obj, a[0].off + Poly.const(k if any_ else 0)))
        return v

    def parse_int(self, st, p, base=10):
        if base != 10:
            raise Unsupported('strtol base %d' % base)
        k, neg = 0, False
        while self.decide(st, self.cmp(st, 'ne', self.ranges(st, self.byte(st, p, k), [(9, 13), (32, 32)]))):
            k += 1
        b = self.byte(st, p, k)
        if self.eqb(st, b, Poly.const(45)):
            neg = True
            k += 1
        elif self.eqb(st, b, Poly.const(43)):
            k += 1
        v, any_ = Poly({}), False
        n = 0
        while True:
            b = self.byte(st, p, k)
            if not self.decide(st, self.cmp(st, 'ne', self.ranges(st, b, [(48, 57)]))):
                break
            v = v.scale(10) + b - Poly.const(48)
            any_ = True
            k += 1
            n += 1
            if n > 18:
                raise Unsupported('number longer than 18 digits')
        return (-v if neg else v), k, any_

    def parse_real(self, st, p):
        """value, length used and whether anything was converted; exact decimal value as a real.
        'inf', 'nan' and hexadecimal floats are outside the model"""
        def is_digit(b):
            return self.decide(st, self.cmp(st, 'ne', self.ranges(st, b, [(48, 57)])))
        k, neg = 0, False
        while self.decide(st, self.cmp(st, 'ne', self.ranges(st, self.byte(st, p, k), [(9, 13), (32, 32)]))):
            k += 1
        b = self.byte(st, p, k)
        if self.eqb(st, b, Poly.const(45)):
            neg = True
            k += 1
        elif self.eqb(st, b, Poly.const(43)):
            k += 1
        v, any_ = Poly({}), False
        first = k
        while True:
            b = self.byte(st, p, k)
            if not is_digit(b):
                break
            v = v.scale(10) + b - Poly.const(48)
            any_ = True
            k += 1
        if not any_:
            for x, y in ('in', 'na'):
                if self.decide(st, self.cmp(st, 'ne', self.ranges(st, b, [(ord(x), ord(x)), (ord(x) - 32, ord(x) - 32)]))) and \
                        self.decide(st, self.cmp(st, 'ne', self.ranges(st, self.byte(st, p, k + 1), [(ord(y), ord(y)), (ord(y) - 32, ord(y) - 32)]))):
                    raise Unsupported('strtod of inf/nan')
        if any_ and k == first + 1 and self.decide(st, self.cmp(st, 'ne', self.ranges(st, b, [(88, 88), (120, 120)]))) \
                and self.eqb(st, self.byte(st, p, first), Poly.const(48)):
            raise Unsupported('strtod of a hexadecimal number')
        if self.eqb(st, b, Poly.const(46)):
            j, s = k + 1, Fraction(1)
            while True:
                b = self.byte(st, p, j)
                if not is_digit(b):
                    break
                s /= 10
                v = v + (b - Poly.const(48)).scale(s)
                any_ = True
                j += 1
            if any_:
                k = j
        if any_ and self.decide(st, self.cmp(st, 'ne', self.ranges(st, self.byte(st, p, k), [(69, 69), (101, 101)]))):
            j, eneg, e, got = k + 1, False, Poly({}), False
            b = self.byte(st, p, j)
            if self.eqb(st, b, Poly.const(45)):
                eneg, j = True, j + 1
            elif self.eqb(st, b, Poly.const(43)):
                j += 1
            while is_digit(self.byte(st, p, j)):
                e = e.scale(10) + self.byte(st, p, j) - Poly.const(48)
                got, j = True, j + 1
            if got:
                e = self.concretize(st, e, 'exponent')
                if e > 400:
                    raise Unsupported('strtod of a huge exponent')
                v = v.scale(Fraction(1, 10 ** e) if eneg else 10 ** e)
                k = j
        return (-v if neg else v), (k if any_ else 0), any_

    def ext_atof(self, st, a):
        return self.parse_real(st, a[0])[0]

    def ext_strtod(self, st, a):
        v, k, any_ = self.parse_real(st, a[0])
        if isinstance(a[1], Ptr) and a[1].obj:
            self.store(st, a[1], PTR, Ptr(a[0].obj, a[0].off + Poly.const(k)))
        return v

    ext_strtold = ext_strtod

    def ext_atoi(self, st, a):
        return self.fit(st, self.parse_int(st, a[0])[0], 32, False, 'atoi')

    def ext_atol(self, st, a):
        return self.parse_int(st, a[0])[0]

    def ext_llvm_va_start(self, st, a):
        self.store(st, a[0], PTR, VaTok(st.frames[-1].va))

    def ext_llvm_va_end(self, st, a):
        return None

    def digits(self, st, u, base=10, n=None):
        """list of digit Polys, most significant first; u >= 0 (exactly n digits if n is given)"""
        n0, n = n, n or 1
        while not n0 and not self.decide(st, self.cmp(st, 'le', u - Poly.const(base ** n - 1))):
            n += 1
            if n > 20:
                raise Unsupported('digits')
        out = []
        for k in range(n - 1, -1, -1):
            hi = self.fdiv(st, u, base ** k)
            out.append(hi - self.fdiv(st, u, base ** (k + 1)).scale(base))
        return out

    def fmt(self, st, f, args):
        """printf formatting -> list of byte Polys"""
        import re as _re
        out = []
        args = list(args)
        pos = 0
        F = f.decode('latin1')
        for m in _re.finditer(r'%([-0+ #]*)(\*|\d+)?(?:\.(\*|\d*))?(ll|l|z|h|hh|L)?([a-zA-Z%])', F):
            out += [Poly.const(ord(c) if ord(c) < 128 else ord(c) - 256) for c in F[pos:m.start()]]
            pos = m.end()
            fl, w, pr, ln, cv = m.groups()
            if cv == '%':
                out.append(Poly.const(37))
                continue
            if w == '*':
                w = self.concretize(st, args.pop(0), 'width')
                if w < 0:
                    fl += '-'
                    w = -w
            else:
                w = int(w or 0)
            if pr == '*':
                pr = self.concretize(st, args.pop(0), 'precision')
            elif pr is not None:
                pr = int(pr or 0)
            x = args.pop(0)
            body, sign = [], []
            if cv == 'c':
                body = [self.schar(st, x)]
            elif cv == 's':
                k = 0
                while pr is None or k < pr:
                    b = self.byte(st, x, k)
                    if self.is0(st, b):
                        break
                    body.append(b)
                    k += 1
            elif cv in 'diuxX':
                if x is UNDEF:
                    self.ub(st, 'printf of uninitialised value')
                    raise PathEnd('undef')
                n = 64 if ln in ('l', 'll', 'z') else 32
                if cv in 'di':
                    if self.decide(st, self.cmp(st, 'lt', x)):
                        sign = [Poly.const(45)]
                        x = -x
                    elif '+' in fl:
                        sign = [Poly.const(43)]
                    elif ' ' in fl:
                        sign = [Poly.const(32)]
                else:
                    x = self.unsigned(st, x, n)
                wid = None
                if cv in 'diu' and ('0' in fl and '-' not in fl and pr is None or pr):
                    wid = pr or w - len(sign)
                    if wid < 2 or wid > 18 or x.is_const() or not self.must(st, self.cmp(st, 'le', x - Poly.const(10 ** wid - 1))):
                        wid = None
                for dg in self.digits(st, x, 16 if cv in 'xX' else 10, wid):
                    if cv in 'xX':
                        big = self.decide(st, self.cmp(st, 'le', Poly.const(10) - dg))
                        body.append(dg + Poly.const(((65 if cv == 'X' else 97) - 10) if big else 48))
                    else:
                        body.append(dg + Poly.const(48))
                if pr is not None and len(body) < pr:
                    body = [Poly.const(48)] * (pr - len(body)) + body
            elif cv == 'f':
                body, sign = self.fmt_f(st, x, 6 if pr is None else pr, fl)
            else:
                raise Unsupported('printf %' + cv)
            pad = w - len(body) - len(sign)
            if pad > 0:
                if '-' in fl:
                    body = body + [Poly.const(32)] * pad
                elif '0' in fl and cv not in 'cs':
                    body = [Poly.const(48)] * pad + body
                else:
                    sign = [Poly.const(32)] * pad + sign
            out += sign + body
        out += [Poly.const(ord(c) if ord(c) < 128 else ord(c) - 256) for c in F[pos:]]
        return out

    def fmt_f(self, st, x, pr, fl):
        """%.<pr>f of an exact real: nearest decimal, ties to even are resolved by a fork that
        excludes them (an exact tie is reported as a bound of the model)"""
        if x is UNDEF:
            raise Unsupported('printf of undef float')
        sign = []
        if self.decide(st, self.cmp(st, 'lt', x)):
            sign, x = [Poly.const(45)], -x
        elif '+' in fl:
            sign = [Poly.const(43)]
        elif ' ' in fl:
            sign = [Poly.const(32)]
        n = self.ffloor(st, x.scale(10 ** pr) + Poly.const(Fraction(1, 2)))
        hi = self.fdiv(st, n, 10 ** pr)
        body = [d + Poly.const(48) for d in self.digits(st, hi)]
        if pr:
            body.append(Poly.const(46))
            for k in range(pr - 1, -1, -1):
                body.append(self.fdiv(st, n, 10 ** k) - self.fdiv(st, n, 10 ** (k + 1)).scale(10) + Poly.const(48))
        return body, sign

    def put(self, st, buf, size, bytes_):
        n = len(bytes_)
        if size > 0:
            for k, b in enumerate(bytes_[:size - 1]):
                self.store(st, Ptr(buf.obj, buf.off + Poly.const(k)), ('int', 8), b)
            self.store(st, Ptr(buf.obj, buf.off + Poly.const(min(n, size - 1))), ('int', 8), Poly({}))
        return Poly.const(n)

    def fmtstr(self, st, p):
        f = self.cstring(st, p)
        if f is None:
            raise Unsupported('symbolic format')
        return f

    def ext_snprintf(self, st, a):
        out = self.fmt(st, self.fmtstr(st, a[2]), a[3:])
        return self.put(st, a[0], self.concretize(st, a[1], 'snprintf size'), out)

    def ext_sprintf(self, st, a):
        out = self.fmt(st, self.fmtstr(st, a[1]), a[2:])
        return self.put(st, a[0], 1 << 30, out)

    def ext_vsnprintf(self, st, a):
        tok = self.load(st, a[3], PTR)
        if not isinstance(tok, VaTok):
            raise Unsupported('va_list')
        out = self.fmt(st, self.fmtstr(st, a[2]), tok.args)
        return self.put(st, a[0], self.concretize(st, a[1], 'vsnprintf size'), out)

    def ext_fputs(self, st, a):
        return Poly.const(0)

    def ext_malloc(self, st, a):
        return self.alloc(st, self.concretize(st, a[0], 'malloc'), 'malloc')

    def ext_calloc(self, st, a):
        return self.alloc(st, self.concretize(st, a[0], 'calloc') * self.concretize(st, a[1], 'calloc'), 'calloc', zero=True)

    def ext_free(self, st, a):
        return None

    def scan_ws(self, st, p, k):
        while self.decide(st, self.cmp(st, 'ne', self.ranges(st, self.byte(st, p, k), [(9, 13), (32, 32)]))):
            k += 1
        return k

    def ext_sscanf(self, st, a):
        """%d %u %ld %lf %f %c %s %n with optional width on %c/%s only"""
        p, f, args = a[0], self.fmtstr(st, a[1]).decode('latin1'), list(a[2:])
        k = n = j = 0
        at = lambda m: Ptr(p.obj, p.off + Poly.const(m))
        while j < len(f):
            ch = f[j]
            if ch.isspace():
                k = self.scan_ws(st, p, k)
                j += 1
                continue
            m = re.match(r'%(\*?)(\d*)([lL]?)([duifgcsn])', f[j:])
            if ch == '%' and not m:
                raise Unsupported('sscanf format ' + f)
            if not m:
                b = self.byte(st, p, k)
                if not self.eqb(st, b, Poly.const(ord(ch))):
                    return Poly.const(-1 if n == 0 and self.is0(st, b) else n)
                k += 1
                j += 1
                continue
            j += m.end()
            star, width, ell, conv = m.groups()
            if conv == 'n':
                self.store(st, args.pop(0), ('int', 64 if ell else 32), Poly.const(k))
                continue
            if width and conv not in 'cs':
                raise Unsupported('sscanf width')
            if conv != 'c':
                k = self.scan_ws(st, p, k)
            if self.is0(st, self.byte(st, p, k)):
                return Poly.const(-1 if n == 0 else n)
            if conv in 'du':
                v, u, ok = self.parse_int(st, at(k))
                if not ok:
                    return Poly.const(n)
                if not star:
                    self.store(st, args.pop(0), ('int', 64 if ell else 32), v if ell else self.fit(st, v, 32, False, 'sscanf'))
                k += u
            elif conv in 'fg':
                v, u, ok = self.parse_real(st, at(k))
                if not ok:
                    return Poly.const(n)
                if not star:
                    self.store(st, args.pop(0), ('fp', {'l': 'double', 'L': 'x86_fp80'}.get(ell, 'float')), v)
                k += u
            elif conv in 'cs':
                w = int(width) if width else (1 if conv == 'c' else 1 << 30)
                out = []
                while len(out) < w:
                    b = self.byte(st, p, k)
                    if self.is0(st, b) or (conv == 's' and self.decide(st, self.cmp(st, 'ne', self.ranges(st, b, [(9, 13), (32, 32)])))):
                        break
                    out.append(b)
                    k += 1
                if conv == 'c' and len(out) < w:
                    return Poly.const(n)
                if not star:
                    d = args.pop(0)
                    for q, b in enumerate(out + ([Poly({})] if conv == 's' else [])):
                        self.store(st, Ptr(d.obj, d.off + Poly.const(q)), ('int', 8), b)
            else:
                raise Unsupported('sscanf %' + conv)
            if not star:
                n += 1
        return Poly.const(n)

    ext___isoc99_sscanf = ext___isoc23_sscanf = ext_sscanf

    def casecmp(self, st, p, q, n):
        lower = lambda b: self.ext_tolower(st, [b])
        for k in range(n):
            x, y = lower(self.ub8(st, self.byte(st, p, k))), lower(self.ub8(st, self.byte(st, q, k)))
            if not self.eqb(st, x, y):
                return x - y
            if self.is0(st, x):
                break
        return Poly({})

    def ext_strncasecmp(self, st, a):
        return self.casecmp(st, a[0], a[1], self.concretize(st, a[2], 'strncasecmp'))

    def ext_strcasecmp(self, st, a):
        return self.casecmp(st, a[0], a[1], 1 << 30)
