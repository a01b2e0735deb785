"""Symbolic reals: Laurent polynomials with exact rational coefficients.

A Sym is a finite sum of coefficient * monomial; monomials are sorted tuples of
(variable id, exponent).  Variables are inputs, system-function results, or
"atoms": |p|, 1/p, p^c, exp(p), sqrt(p) ... introduced with a defining
constraint.  Arithmetic is real arithmetic (rounding of the *executed*
operations is abstracted; constants are the exact values of the doubles that
are in the compiled code).
"""
from fractions import Fraction as Fr
import math

RT = None          # current engine (set by engine.py)
_mulcache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mulcache.get(k)
    if r is None:
        d = dict(a)
        for v, e in b:
            ne = d.get(v, 0) + e
            if ne:
                d[v] = ne
            else:
                d.pop(v, None)
        r = tuple(sorted(d.items()))
        if len(_mulcache) > 400000:
            _mulcache.clear()
        _mulcache[k] = r
    return r


class NonFinite(Exception):
    pass


def frac(x):
    if x.__class__ is float:
        if x != x or x in (math.inf, -math.inf):
            raise NonFinite()
        return Fr(x)
    return Fr(x)


def mk(t):
    """Sym or float from a term dict (zero coefficients removed)"""
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return float(t[()])
    return Sym(t)


class Sym:
    __slots__ = ('t', '_k', '_b', 'z')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._b = None
        self.z = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    __hash__ = None

    def __add__(self, o):
        oc = o.__class__
        if oc is float or oc is int:
            if o == 0:
                return self
            try:
                t = dict(self.t)
                c = t.get((), 0) + frac(o)
            except NonFinite:
                return o
            if c:
                t[()] = c
            else:
                t.pop((), None)
            return mk(t)
        if oc is not Sym:
            return NotImplemented
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        t = dict(a)
        for m, c in b.items():
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = s + c
                if s:
                    t[m] = s
                else:
                    del t[m]
        return mk(t)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        oc = o.__class__
        if oc is float or oc is int:
            if o == 0:
                return 0.0
            if o == 1:
                return self
            try:
                f = frac(o)
            except NonFinite:
                return RT.nonfinite_mul(self, o)
            return Sym({m: c * f for m, c in self.t.items()})
        if oc is not Sym:
            return NotImplemented
        if len(self.t) * len(o.t) > 60000:
            raise RT.Budget('polynomial too large')
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                s = t.get(m)
                t[m] = c1 * c2 if s is None else s + c1 * c2
        # inv atoms: inv(p)*p is recognised through z3, not here
        return mk({m: c for m, c in t.items() if c})

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __lt__(self, o):
        return cmp0('lt', self - o)

    def __le__(self, o):
        return cmp0('le', self - o)

    def __gt__(self, o):
        return cmp0('lt', o - self)

    def __ge__(self, o):
        return cmp0('le', o - self)

    def __eq__(self, o):
        if o.__class__ not in (Sym, float, int):
            return NotImplemented
        return cmp0('eq', self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r ^ True

    def __float__(self):
        raise RT.Unsup('float() of a symbolic value')

    def __bool__(self):
        raise RT.Unsup('bool() of a symbolic number')

    def __repr__(self):
        return 'Sym(%s)' % show(self)


def show(p, n=8):
    if p.__class__ is not Sym:
        return repr(p)
    out = []
    for m, c in list(p.t.items())[:n]:
        out.append('%.6g%s' % (float(c), ''.join('*%s%s' % (RT.vname(v), '' if e == 1 else '^%d' % e) for v, e in m)))
    return ' + '.join(out) + (' + ...(%d)' % len(p.t) if len(p.t) > n else '')


def div(a, b):
    bc = b.__class__
    if bc is float or bc is int:
        if a.__class__ is Sym:
            if b == 0:
                return RT.div_by_zero(a)
            if b in (math.inf, -math.inf):
                return 0.0
            f = frac(b)
            return Sym({m: c / f for m, c in a.t.items()})
        if b == 0:
            a = float(a)
            if a == 0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    # symbolic denominator
    if a.__class__ is not Sym and a == 0:
        return 0.0
    if len(b.t) == 1:
        (m, c), = b.t.items()
        RT.need_nonzero(b)
        mi = tuple((v, -e) for v, e in m)
        return a * Sym({mi: 1 / c})
    if a.__class__ is Sym and len(a.t) == len(b.t):
        # scalar multiple?
        m0 = next(iter(b.t))
        if m0 in a.t:
            r = a.t[m0] / b.t[m0]
            if all(a.t.get(m) == c * r for m, c in b.t.items()):
                RT.need_nonzero(b)
                return float(r)
    RT.need_nonzero(b)
    # factor out common monomial of b
    lead = max(b.t.items())[1]
    nb = Sym({m: c / lead for m, c in b.t.items()})
    return a * RT.atom('inv', nb) * Sym({(): 1 / lead})


def close(p, q, tol=Fr(1, 10**11)):
    """coefficient-wise equality up to a relative tolerance"""
    if p.__class__ is not Sym and q.__class__ is not Sym:
        if p == q:
            return True
        try:
            return abs(p - q) <= 1e-11 * max(1.0, abs(p))
        except TypeError:
            return p is q
    pt = p.t if p.__class__ is Sym else ({(): Fr(p)} if p else {})
    qt = q.t if q.__class__ is Sym else ({(): Fr(q)} if q else {})
    for m, c in pt.items():
        d = qt.get(m, 0)
        if c != d and abs(c - d) > tol * max(1, abs(c)):
            return False
    for m, c in qt.items():
        if m not in pt and abs(c) > tol:
            return False
    return True


class SymBool:
    __slots__ = ('op', 'a', '_k', 'z')

    def __init__(self, op, a):
        self.op = op      # lt le eq ne : a is Sym compared with 0;  and/or: tuple;  near: (p,tol) |p|<=tol
        self.a = a
        self._k = None
        self.z = None

    def key(self):
        if self._k is None:
            if self.op in ('and', 'or'):
                self._k = (self.op, tuple(x.key() for x in self.a))
            elif self.op in ('near', 'far'):
                self._k = (self.op, self.a[0].key(), self.a[1])
            else:
                self._k = (self.op, self.a.key())
        return self._k

    __hash__ = None

    def neg(self):
        o = self.op
        if o == 'lt':
            return SymBool('le', -self.a)
        if o == 'le':
            return SymBool('lt', -self.a)
        if o == 'eq':
            return SymBool('ne', self.a)
        if o == 'ne':
            return SymBool('eq', self.a)
        if o == 'near':
            return SymBool('far', self.a)
        if o == 'far':
            return SymBool('near', self.a)
        return SymBool('or' if o == 'and' else 'and', tuple(x.neg() for x in self.a))

    def __bool__(self):
        return RT.decide(self)

    def __xor__(self, o):
        if o is True:
            return self.neg()
        if o is False:
            return self
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        if o.__class__ is SymBool:
            return SymBool('and', (self, o))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if o is True:
            return True
        if o is False:
            return self
        if o.__class__ is SymBool:
            return SymBool('or', (self, o))
        return NotImplemented

    __ror__ = __or__

    def __repr__(self):
        if self.op in ('and', 'or'):
            return '(%s)' % ((' %s ' % self.op).join(map(repr, self.a)))
        if self.op in ('near', 'far'):
            return '|%s| %s %g' % (show(self.a[0]), '<=' if self.op == 'near' else '>', float(self.a[1]))
        return '(%s %s 0)' % (show(self.a), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[self.op])


def cmp0(op, p):
    """SymBool or bool for p op 0"""
    if p.__class__ is not Sym:
        if op == 'lt':
            return p < 0
        if op == 'le':
            return p <= 0
        return p == 0
    # normalise scale so that equal conditions share a key
    lead = abs(max(p.t.items())[1])
    if lead != 1:
        p = Sym({m: c / lead for m, c in p.t.items()})
    if op == 'eq' and max(p.t.items())[1] < 0:
        p = -p
    return SymBool(op, p)
