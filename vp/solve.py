"""Solver layer: SymBool constraints -> z3 (LRA monomial abstraction, then NRA)."""
import time
from fractions import Fraction as Fr
import z3
from sym import Sym, SymBool

z3.set_param('memory_max_size', 6000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.lra = 0
        self.nra = 0
        self.unknown = 0
        self.unsat = 0
        self.sat = 0
        self.maxt = 0.0


class Vars:
    """variable table of one path"""

    def __init__(self):
        self.info = []     # dict(name, lo, hi, kind, arg...)
        self.atoms = {}    # (kind, key) -> id
        self.bykind = {}

    def new(self, name, lo, hi, kind, **kw):
        d = dict(name=name, lo=None if lo is None else Fr(lo), hi=None if hi is None else Fr(hi), kind=kind)
        d.update(kw)
        self.info.append(d)
        return len(self.info) - 1


def add_iv(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def scale_iv(c, a):
    lo, hi = a
    if c < 0:
        lo, hi = hi, lo
    return (None if lo is None else lo * c, None if hi is None else hi * c)


def mul_iv(a, b):
    if None in a or None in b:
        # sign-only reasoning
        def s(x):
            if x[0] is not None and x[0] >= 0:
                return 1
            if x[1] is not None and x[1] <= 0:
                return -1
            return 0
        sg = s(a) * s(b)
        return (Fr(0), None) if sg > 0 else (None, Fr(0)) if sg < 0 else (None, None)
    c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(c), max(c))


def pow_iv(a, e):
    if e < 0:
        lo, hi = a
        if lo is not None and lo > 0:
            a = (Fr(0) if hi is None else 1 / hi, 1 / lo)
        elif hi is not None and hi < 0:
            a = (1 / hi, Fr(0) if lo is None else 1 / lo)
        elif lo is not None and lo >= 0:
            a = (Fr(0) if hi is None else 1 / hi if hi else Fr(0), None)
        elif hi is not None and hi <= 0:
            a = (None, Fr(0))
        else:
            return (Fr(0), None) if e % 2 == 0 else (None, None)
        e = -e
    if e == 1:
        return a
    lo, hi = a
    if e % 2 == 0:
        if lo is None and hi is None:
            return (Fr(0), None)
        if lo is not None and lo >= 0:
            return (lo ** e, None if hi is None else hi ** e)
        if hi is not None and hi <= 0:
            return (hi ** e, None if lo is None else lo ** e)
        if lo is None or hi is None:
            return (Fr(0), None)
        return (Fr(0), max(lo ** e, hi ** e))
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def rat(c):
    return z3.RatVal(c.numerator, c.denominator)


class Solver:
    def __init__(self, rt, stats):
        self.rt = rt
        self.stats = stats
        self.zv = {}
        self.zm = {}

    # ---------- intervals
    def mono_iv(self, m):
        r = (Fr(1), Fr(1))
        for v, e in m:
            i = self.rt.vars.info[v]
            r = mul_iv(r, pow_iv((i['lo'], i['hi']), e))
        return r

    def poly_iv(self, p):
        if p.__class__ is not Sym:
            f = Fr(p)
            return (f, f)
        if p._b is not None:
            return p._b
        r = (Fr(0), Fr(0))
        for m, c in p.t.items():
            r = add_iv(r, scale_iv(c, self.mono_iv(m)))
            if r == (None, None):
                break
        p._b = r
        return r

    def iv_truth(self, b):
        """truth value of a SymBool from interval arithmetic alone, or None"""
        o = b.op
        if o in ('and', 'or'):
            vs = [self.iv_truth(x) for x in b.a]
            if o == 'and':
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if o in ('near', 'far'):
            lo, hi = self.poly_iv(b.a[0])
            tol = b.a[1]
            if lo is not None and hi is not None and -tol <= lo and hi <= tol:
                return o == 'near'
            if (lo is not None and lo > tol) or (hi is not None and hi < -tol):
                return o == 'far'
            return None
        lo, hi = self.poly_iv(b.a)
        if o == 'lt':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif o == 'le':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return o == 'ne'
            if lo == 0 and hi == 0:
                return o == 'eq'
        return None

    # ---------- variables used
    def collect(self, bs):
        seen, todo, monos = set(), [], set()

        def poly(p):
            if p.__class__ is Sym:
                for m in p.t:
                    if m not in monos:
                        monos.add(m)
                        for v, e in m:
                            if v not in seen:
                                seen.add(v)
                                todo.append(v)

        def boolean(b):
            if b.op in ('and', 'or'):
                for x in b.a:
                    boolean(x)
            elif b.op in ('near', 'far'):
                poly(b.a[0])
            else:
                poly(b.a)
        for b in bs:
            boolean(b)
        defs = []
        while todo:
            v = todo.pop()
            i = self.rt.vars.info[v]
            for b in self.rt.atom_constraints(v):
                boolean(b)
                defs.append(b)
        return seen, monos, defs

    # ---------- encodings
    def var(self, v):
        x = self.zv.get(v)
        if x is None:
            x = self.zv[v] = z3.Real('x%d' % v)
        return x

    def mono_lin(self, m):
        if not m:
            return z3.RealVal(1)
        if len(m) == 1 and m[0][1] == 1:
            return self.var(m[0][0])
        x = self.zm.get(m)
        if x is None:
            x = self.zm[m] = z3.Real('m' + '_'.join('%d^%d' % q for q in m))
        return x

    def mono_nl(self, m):
        fs = []
        for v, e in m:
            x = self.var(v)
            if e < 0:
                x = self.inv(v)
                e = -e
            fs += [x] * e
        if not fs:
            return z3.RealVal(1)
        return z3.Product(*fs) if len(fs) > 1 else fs[0]

    def inv(self, v):
        self.invs.add(v)
        return z3.Real('i%d' % v)

    def poly(self, p, lin):
        if p.__class__ is not Sym:
            return rat(Fr(p))
        f = self.mono_lin if lin else self.mono_nl
        ts = [rat(c) if m == () else (f(m) if c == 1 else rat(c) * f(m)) for m, c in p.t.items()]
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def enc(self, b, lin):
        o = b.op
        if o == 'and':
            return z3.And(*[self.enc(x, lin) for x in b.a])
        if o == 'or':
            return z3.Or(*[self.enc(x, lin) for x in b.a])
        if o in ('near', 'far'):
            e = self.poly(b.a[0], lin)
            t = rat(Fr(b.a[1]))
            return z3.And(e <= t, e >= -t) if o == 'near' else z3.Or(e > t, e < -t)
        e = self.poly(b.a, lin)
        if o == 'lt':
            return e < 0
        if o == 'le':
            return e <= 0
        if o == 'eq':
            return e == 0
        return e != 0

    def check(self, bs, timeout_ms=4000, want_model=True):
        """-> ('unsat', None) | ('sat', {var: Fraction}) | ('unknown', None)"""
        t0 = time.time()
        st = self.stats
        st.queries += 1
        r = self._check(bs, timeout_ms)
        dt = time.time() - t0
        st.time += dt
        st.maxt = max(st.maxt, dt)
        setattr(st, r[0], getattr(st, r[0]) + 1)
        return r

    def check_pairs(self, pairs, timeout_ms):
        """is some |a-b| > tol?  (monomials as free variables)"""
        t0 = time.time()
        st = self.stats
        st.queries += 1
        st.lra += 1
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', timeout_ms)
        ds = []
        for a, b, tol in pairs:
            e = self.poly(a, True) - self.poly(b, True)
            ds += [e > rat(Fr(tol)), e < rat(-Fr(tol))]
        s.add(z3.Or(*ds))
        r = str(s.check())
        setattr(st, r, getattr(st, r) + 1)
        dt = time.time() - t0
        st.time += dt
        st.maxt = max(st.maxt, dt)
        return r

    def _check(self, bs, timeout_ms):
        bs = list(bs)
        seen, monos, defs = self.collect(bs)
        allb = bs + defs
        st = self.stats
        # --- stage A: linear abstraction
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', timeout_ms)
        nonlin = False
        for v in seen:
            i = self.rt.vars.info[v]
            x = self.var(v)
            if i['lo'] is not None:
                s.add(x >= rat(i['lo']))
            if i['hi'] is not None:
                s.add(x <= rat(i['hi']))
        for m in monos:
            if len(m) > 1 or (m and m[0][1] != 1):
                nonlin = True
                x = self.mono_lin(m)
                lo, hi = self.mono_iv(m)
                if lo is not None:
                    s.add(x >= rat(lo))
                if hi is not None:
                    s.add(x <= rat(hi))
        for b in allb:
            s.add(self.enc(b, True))
        for l in self.lemmas(monos):
            s.add(l)
        st.lra += 1
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        cand = None
        if r == z3.sat:
            cand = self.model(s, seen)
            if cand is not None:
                # atoms recomputed from the inputs
                w = {v: x for v, x in cand.items() if self.rt.vars.info[v]['kind'] in ('in', 'sys', 'undef')}
                if all(self.rt.evalb(b, w) for b in bs):
                    return 'sat', w
            if not nonlin and not any(self.rt.vars.info[v]['kind'] in ('pow', 'exp', 'sqrt', 'atan', 'fn') for v in seen):
                # only fails through float evaluation of atoms
                return 'sat', cand
        # --- stage B: non-linear real arithmetic
        self.invs = set()
        s = z3.Solver() if nonlin else z3.SolverFor('QF_LRA')
        s.set('timeout', timeout_ms)
        enc = [self.enc(b, False) for b in allb]
        for v in seen:
            i = self.rt.vars.info[v]
            x = self.var(v)
            if i['lo'] is not None:
                s.add(x >= rat(i['lo']))
            if i['hi'] is not None:
                s.add(x <= rat(i['hi']))
        for e in enc:
            s.add(e)
        for v in self.invs:
            s.add(z3.Real('i%d' % v) * self.var(v) == 1)
        st.nra += 1
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', self.model(s, seen)
        return 'unknown', None

    def lemmas(self, monos):
        """sound linear facts about monomials: x*inv pairs sharing a factor of known sign are left to NRA"""
        out = []
        big = [m for m in monos if len(m) > 1 or (m and m[0][1] != 1)]
        if len(big) > 60:
            big = [m for m in big if len(m) == 1]
        ms = set(monos)
        # reciprocals of positive variables: monotone at a few points
        for m in big:
            if len(m) == 1 and m[0][1] == -1:
                i = self.rt.vars.info[m[0][0]]
                if i['lo'] is not None and i['lo'] >= 0:
                    x, y = self.var(m[0][0]), self.mono_lin(m)
                    out.append(y > 0)
                    for a in (Fr(1, 5), Fr(1, 2), Fr(9, 10), Fr(1), Fr(11, 10), Fr(2), Fr(9, 2), Fr(5)):
                        out.append(z3.Or(x < rat(a), y <= rat(1 / a)))
                        out.append(z3.Or(x > rat(a), y >= rat(1 / a)))
        # m = f * rest with f of known sign/bounds: f in [lo,hi], rest monomial present
        for m in big:
            for v, e in m:
                i = self.rt.vars.info[v]
                f = pow_iv((i['lo'], i['hi']), e)
                if f[0] is None or f[1] is None or f[0] < 0:
                    continue
                rest = tuple(q for q in m if q[0] != v)
                if rest not in ms and rest != ():
                    continue
                if rest == ():
                    continue
                R = self.mono_lin(rest)
                X = self.mono_lin(m)
                ri = self.mono_iv(rest)
                lo, hi = rat(f[0]), rat(f[1])
                # f>=0: X between lo*R and hi*R depending on the sign of R
                out.append(z3.Implies(R >= 0, z3.And(X >= lo * R, X <= hi * R)))
                out.append(z3.Implies(R <= 0, z3.And(X <= lo * R, X >= hi * R)))
        return out

    def model(self, s, seen):
        m = s.model()
        d = {}
        for v in seen:
            x = m.eval(self.var(v), model_completion=True)
            try:
                if z3.is_rational_value(x):
                    d[v] = Fr(x.numerator_as_long(), x.denominator_as_long())
                elif z3.is_algebraic_value(x):
                    a = x.approx(20)
                    d[v] = Fr(a.numerator_as_long(), a.denominator_as_long())
                else:
                    d[v] = Fr(0)
            except Exception:
                return None
        return d
