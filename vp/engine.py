"""Path-exploring symbolic executor for translated LLVM IR (see llvmir.py)."""
import os
import json
import math
import random
import struct
import sys
import time
from fractions import Fraction as Fr

import llvmir
import sym
from sym import Sym, SymBool, cmp0, close, mk, frac
from solve import Solver, Stats, Vars, mul_iv, pow_iv

sys.setrecursionlimit(20000)
INF, NAN = math.inf, math.nan


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class Cut(PathEnd):
    pass


class Stop(PathEnd):
    pass


class Budget(PathEnd):
    pass


class Unsup(PathEnd):
    pass


class ProgError(PathEnd):
    """memory error, trap, uncaught exception: a property violation candidate"""


class CxxExc(Exception):
    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class FBits:
    """integer image of a symbolic (or undefined) floating point value"""
    __slots__ = ('v', 'tag')

    def __init__(self, v, tag):
        self.v = v
        self.tag = tag

    def __and__(self, o):
        if o == 0x7fffffffffffffff and self.tag == 'd':
            return FBits(RT.fabs(self.v), 'd')
        if o == {'d': 0xffffffffffffffff, 'f': 0xffffffff}.get(self.tag):
            return self
        if isinstance(o, int) and o == 0:
            return 0
        raise Unsup('bit operation on a symbolic float: and %r' % (o,))
    __rand__ = __and__

    def __xor__(self, o):
        if o == 0x8000000000000000 and self.tag == 'd':
            return FBits(-self.v, 'd')
        raise Unsup('bit operation on a symbolic float: xor %r' % (o,))
    __rxor__ = __xor__

    def __or__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        raise Unsup('bit operation on a symbolic float: or %r' % (o,))
    __ror__ = __or__

    def _no(self, *a):
        raise Unsup('integer operation on a symbolic float')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __rshift__ = __lshift__ = _no
    __hash__ = None


class HalfBits:
    """part of an uninitialised word (copies only)"""


def s64(x):
    return x - (1 << 64) if x >= 1 << 63 else x


RT = None
SIZES = {'d': 8, 'f': 4}


def tsize(tag):
    return SIZES.get(tag, tag)


class Engine:
    Budget = Budget
    Unsup = Unsup

    def __init__(self, mod, seed=1, opts=None):
        global RT
        RT = self
        sym.RT = self
        self.mod = mod
        self.seed = seed
        o = dict(max_paths=4000, time=100.0, steps=1500000, query_ms=4000, assert_ms=15000)
        o.update(opts or {})
        self.o = o
        self.stats = Stats()
        self.funcs_run = set()
        self.M = {}
        self.race = []            # non-empty inside a parallel region of several threads
        self.ns = self.namespace()
        self.ext = self.ns['ext']
        self.violations = []      # dicts
        self.inconclusive = []
        self.seen_fail = {}
        self.asserts = {}         # msg -> [evaluated, witnessed]
        self.cuts = {}
        self.paths = 0
        self.paths_complete = 0
        self.infeasible = 0
        self.pruned = 0
        self.steps_total = 0
        self.assert_obligations = 0
        self.concrete = None

    # ------------------------------------------------------------------ setup
    def namespace(self):
        ns = dict(M=self.M, Unsup=Unsup, INF=INF, NAN=NAN, CxxExc=CxxExc, fdiv=sym.div, frem=self.frem, f32=self.f32, sel=self.sel,
                  ordered=self.ordered, udiv=self.udiv, urem=self.urem, sdiv=self.sdiv, srem=self.srem, b_xor=self.b_xor,
                  ld=self.ld, st=self.st, alloca=self.alloca, bits2f=self.bits2f, f2bits=self.f2bits,
                  fptoint=self.fptoint, insval=self.insval, unreachable=self.unreachable, icall=self.icall,
                  landingpad=self.landingpad, resume=self.resume, undef_f=self.undef_f, tick=self.tick,
                  unsupported=self.unsupported, race=self.race, acc=self.acc)
        ns['ext'] = Ext(self)
        return ns

    def func(self, name):
        """make function `name` (and, lazily, its callees) available; return the callable"""
        py = self.mod.pyname(name)
        f = self.ns.get(py)
        if f is not None:
            return f
        f = self.mod.funcs[name]
        if llvmir.IsDeclaration(f):
            return self.ext[name]
        todo = [name]
        while todo:
            n = todo.pop()
            p = self.mod.pyname(n)
            if p in self.ns:
                continue
            g = llvmir.FnGen(self.mod, n)
            src = g.gen()
            self.ns[p] = True
            exec(compile(src, '<%s>' % n, 'exec'), self.ns)
            self.funcs_run.add(n)
            for c in g.calls:
                if not llvmir.IsDeclaration(self.mod.funcs[c]):
                    todo.append(c)
        return self.ns[py]

    # --------------------------------------------------------------- per path
    def reset(self, prefix, witness):
        self.M.clear()
        self.M.update(self.mod.init_cells)
        self.sizes = {a >> 32: s for a, (s, n) in self.mod.gsize.items()}
        self.kinds = {}
        self.ginit_ids = {a >> 32 for a in self.mod.gsize}
        self.next_id = self.mod.first_free_id
        self.vars = Vars()
        self.solver = Solver(self, self.stats)
        self.pc = []
        self.pckeys = {}
        self.decisions = []
        self.prefix = prefix
        self.witness = dict(witness or {})
        self.wcache = {}
        self.rng = random.Random(self.seed)
        self.inputs = []
        self.syscalls = {}
        self.sysorder = []
        self.pending = []
        self.pairs = []
        self.steps = 0
        self.exc_objs = {}
        self.caught = []
        self.rethrow = {}
        self.adjusted = {}
        self.log = []
        self.guards = set()
        self.zeroed = []
        self.undef_used = False
        del self.race[:]
        self.ext.omp_reset()

    # ---- parallel regions: conflicting accesses
    # unit: who performs an access (0: inside a synchronised section; 1 + t: thread t outside the loop; 1000 + i: chunk i of
    # the loop, whichever thread runs it).  Two units of a region touching one byte, one of them writing: a data race
    # under some assignment of the chunks to threads.
    def acc(self, p, n, w):
        x = self.ext
        u = x.unit
        if p.__class__ is not int:
            return
        if p >> 32 >= x.base:
            u = 1 + x.tid if u else 0      # made by a thread of this region
            if self.kinds.get(p >> 32) == 'stack' and x.stackof.setdefault(p >> 32, x.tid) == x.tid:
                return
        A = x.accesses
        for q in range(p, p + n):
            c = A.get(q)
            if c is None:
                A[q] = (u, None) if w else (None, u)
                continue
            wu, ru = c                     # unit that wrote / that read (-1: several)
            if (wu is not None and wu != u) or (w and ru is not None and ru != u):
                raise ProgError('race', 'conflicting accesses of two threads in a parallel region')
            if w:
                A[q] = (u, ru)
            elif ru is None:
                A[q] = (wu, u)
            elif ru != u:
                A[q] = (wu, -1)

    def tick(self):
        self.steps += 1
        if self.steps > self.o['steps']:
            raise ProgError('nontermination', 'step limit %d exceeded' % self.o['steps'])
        if not self.steps & 0xfff and time.time() > self.deadline:
            raise Budget('time')

    # ----------------------------------------------------------------- memory
    def alloca(self, n):
        return self.alloc(n, 'stack')

    def alloc(self, n, kind):
        i = self.next_id
        self.next_id += 1
        self.sizes[i] = n
        self.kinds[i] = kind
        return i << 32

    def chk(self, p, n, what):
        s = self.sizes.get(p >> 32)
        if s is None:
            raise ProgError('memory', '%s of %d bytes at invalid or freed address' % (what, n))
        off = p & 0xffffffff
        if off + n > s:
            raise ProgError('memory', 'out-of-bounds %s of %d bytes at offset %d of an object of %d bytes' %
                            (what, n, off if off < 1 << 31 else off - (1 << 32), s))

    def ld(self, p, tag):
        M = self.M
        n = tsize(tag)
        if p.__class__ is not int:
            raise Unsup('symbolic pointer')
        self.chk(p, n, 'read')
        c = M.get(p)
        if c is not None:
            ct, v = c
            if tsize(ct) == n:
                if ct == tag:
                    return v
                if tag == 'd' or tag == 'f':
                    return self.bits2f(v, tag)
                return self.f2bits(v, ct)
        # composite
        if self.zero_region(p, n):
            return 0.0 if tag in ('d', 'f') else 0
        bs = []
        undef = 0
        i = 0
        while i < n:
            b = self.byte_at(p + i)
            if b is None:
                undef += 1
                bs.append(0)
            else:
                bs.append(b)
            i += 1
        if undef:
            if undef < n and tag not in ('d', 'f'):
                # partially initialised (struct padding copied as an integer)
                pass
            if tag in ('d', 'f'):
                v = self.undef_f()
                M[p] = (tag, v)
                return v
            if undef == n:
                if n == 8:
                    # most likely an uninitialised double copied as an integer
                    v = FBits(self.undef_f(), 'd')
                    return v
                return 0
        v = int.from_bytes(bytes(bs), 'little')
        return self.bits2f(v, tag) if tag in ('d', 'f') else v

    def zero_region(self, p, n):
        return False

    def byte_at(self, q):
        M = self.M
        for k in range(0, 16):
            c = M.get(q - k)
            if c is not None:
                s = tsize(c[0])
                if s > k:
                    v = c[1]
                    if c[0] in ('d', 'f'):
                        v = self.f2bits(v, c[0])
                    if v.__class__ is not int:
                        raise Unsup('byte of a symbolic value')
                    return (v >> (8 * k)) & 255
        if (q >> 32) in self.ginit_ids and (q & 0xffffffff0000 or True):
            return 0 if ((q >> 32) << 32) in self.mod.ginit else None
        return None

    def st(self, p, tag, v):
        M = self.M
        n = tsize(tag)
        if p.__class__ is not int:
            raise Unsup('symbolic pointer')
        self.chk(p, n, 'write')
        if v.__class__ is FBits and tag not in ('d', 'f'):
            if tag == tsize(v.tag):
                tag, v = v.tag, v.v
            else:
                raise Unsup('narrow store of symbolic bits')
        c = M.get(p)
        if c is not None and tsize(c[0]) == n:
            M[p] = (tag, v)
            return
        self.clear(p, n)
        M[p] = (tag, v)

    def clear(self, p, n):
        """remove cells overlapping [p,p+n), keeping the bytes outside"""
        M = self.M
        for q in range(p - 15, p + n):
            c = M.get(q)
            if c is None:
                continue
            s = tsize(c[0])
            if q + s <= p:
                continue
            if q >= p and q + s <= p + n:
                del M[q]
                continue
            v = c[1]
            if c[0] in ('d', 'f'):
                v = self.f2bits(v, c[0])
            if v.__class__ is not int:
                raise Unsup('partial overwrite of a symbolic value')
            del M[q]
            for k in range(s):
                if not (p <= q + k < p + n):
                    M[q + k] = (1, (v >> (8 * k)) & 255)

    def memcpy(self, d, s, n, *a):
        if n == 0 or d == s:
            return d
        self.chk(s, n, 'read')
        self.chk(d, n, 'write')
        if self.race:
            self.acc(s, n, 0)
            self.acc(d, n, 1)
        M = self.M
        cells = []
        q = s
        end = s + n
        # cells starting before s and overlapping
        for k in range(15, 0, -1):
            c = M.get(s - k)
            if c is not None and tsize(c[0]) > k:
                for j in range(s, min(end, s - k + tsize(c[0]))):
                    cells.append((j - s, (1, self.byte_at(j))))
        while q < end:
            c = M.get(q)
            if c is None:
                q += 1
                continue
            sz = tsize(c[0])
            if q + sz > end:
                for j in range(q, end):
                    cells.append((j - s, (1, self.byte_at(j))))
            else:
                cells.append((q - s, c))
            q += sz
        zero = ((s >> 32) << 32) in self.mod.ginit
        self.clear(d, n)
        for off, c in cells:
            M[d + off] = c
        if zero:
            # initialised global: missing bytes are zero
            for k in range(n):
                if self.byte_at(d + k) is None:
                    M[d + k] = (1, 0)
        return d

    def memset(self, d, v, n, *a):
        if n == 0:
            return d
        self.chk(d, n, 'write')
        if self.race:
            self.acc(d, n, 1)
        self.clear(d, n)
        M = self.M
        v &= 255
        k = 0
        w = int.from_bytes(bytes([v] * 8), 'little')
        while k + 8 <= n and not (d + k) & 7:
            M[d + k] = (8, w)
            k += 8
        while k < n:
            M[d + k] = (1, v)
            k += 1
        return d

    def free(self, p, kind='heap'):
        if p == 0:
            return
        i = p >> 32
        if i not in self.sizes:
            raise ProgError('memory', 'double free or free of an invalid pointer')
        if p & 0xffffffff or self.kinds.get(i) != 'heap':
            raise ProgError('memory', 'free of a pointer not obtained from the allocator')
        if self.race:
            self.acc(p, self.sizes[i], 1)
        self.drop(p, self.sizes.pop(i))

    def drop(self, p, n):
        M = self.M
        if n > 4 * len(M):
            for q in [q for q in M if p <= q < p + n]:
                del M[q]
            return
        for q in range(p, p + n):
            if q in M:
                del M[q]

    def cstr(self, p):
        out = []
        while True:
            b = self.ld(p, 1)
            if b == 0:
                break
            out.append(b)
            p += 1
        return bytes(out).decode('latin1')

    # ------------------------------------------------------------- scalar ops
    def bits2f(self, v, tag):
        if v.__class__ is FBits:
            return v.v
        if v.__class__ is not int:
            return v
        if tag == 'd':
            return struct.unpack('<d', struct.pack('<Q', v & (1 << 64) - 1))[0]
        return struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]

    def f2bits(self, v, tag):
        if v.__class__ is float:
            if tag == 'd':
                return struct.unpack('<Q', struct.pack('<d', v))[0]
            return struct.unpack('<I', struct.pack('<f', v))[0]
        if v.__class__ is int or v.__class__ is bool or v.__class__ is FBits:
            return v
        return FBits(v, tag)

    def f32(self, x):
        if x.__class__ is float:
            try:
                return struct.unpack('<f', struct.pack('<f', x))[0]
            except OverflowError:
                return math.copysign(INF, x)
        return x

    def frem(self, a, b):
        if a.__class__ is Sym or b.__class__ is Sym:
            raise Unsup('frem')
        return math.fmod(a, b)

    def ordered(self, a, b):
        return not ((a.__class__ is float and a != a) or (b.__class__ is float and b != b))

    def sel(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a.__class__ is Sym and b.__class__ is Sym and a.key() == b.key():
            return a
        # |x| idiom: x < 0 ? -x : x
        return a if c else b

    def b_xor(self, a, b):
        if a.__class__ is SymBool or b.__class__ is SymBool:
            return a ^ b
        return bool(a) ^ bool(b)

    def udiv(self, a, b):
        if b == 0:
            raise ProgError('arith', 'integer division by zero')
        return a // b

    def urem(self, a, b):
        if b == 0:
            raise ProgError('arith', 'integer division by zero')
        return a % b

    def sdiv(self, a, b):
        if b == 0:
            raise ProgError('arith', 'integer division by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def srem(self, a, b):
        if b == 0:
            raise ProgError('arith', 'integer division by zero')
        r = abs(a) % abs(b)
        return -r if a < 0 else r

    def insval(self, agg, v, ix):
        l = list(agg)
        if len(ix) == 1:
            l[ix[0]] = v
        else:
            l[ix[0]] = self.insval(l[ix[0]], v, ix[1:])
        return tuple(l)

    def unreachable(self, where):
        raise ProgError('unreachable', 'unreachable code reached in ' + where)

    def unsupported(self, s):
        raise Unsup(s)

    def icall(self, p, *args):
        n = self.mod.addrf.get(p)
        if n is None:
            raise ProgError('memory', 'call through an invalid function pointer')
        return self.func(n)(*args)

    # ------------------------------------------------------------- exceptions
    def ti_bases(self, ti):
        """[(base typeinfo, offset)]"""
        nm = self.mod.gsize.get(ti, (0, ''))[1]
        std = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
               '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
               '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
               '_ZTISt16invalid_argument': '_ZTISt11logic_error'}
        if nm in std:
            b = self.mod.gname.get(std[nm])
            return [(b, 0)] if b else []
        vt = self.mod.init_cells.get(ti)
        if vt is None:
            return []
        vn = self.mod.gsize.get((vt[1] >> 32) << 32, (0, ''))[1]
        if '__si_class_type_info' in vn:
            return [(self.mod.init_cells[ti + 16][1], 0)]
        if '__vmi_class_type_info' in vn:
            n = self.mod.init_cells[ti + 20][1]
            r = []
            for i in range(n):
                b = self.mod.init_cells[ti + 24 + 16 * i][1]
                of = self.mod.init_cells[ti + 32 + 16 * i][1]
                r.append((b, s64(of) >> 8))
            return r
        return []

    def ti_match(self, ti, want, off=0):
        if ti == want:
            return off
        a = self.mod.gsize.get(ti, (0, 1))[1]
        if a and a == self.mod.gsize.get(want, (0, 2))[1]:
            return off
        for b, o in self.ti_bases(ti):
            r = self.ti_match(b, want, off + o)
            if r is not None:
                return r
        return None

    def landingpad(self, exc, clauses, cleanup):
        for kind, ti in clauses:
            if kind == 'catch':
                if ti == 0:
                    self.adjusted[exc.ptr] = exc.ptr
                    return (exc.ptr, 1)
                off = self.ti_match(exc.ti, ti)
                if off is not None:
                    self.adjusted[exc.ptr] = exc.ptr + off
                    return (exc.ptr, ti >> 32)
            else:
                if not any(self.ti_match(exc.ti, t) is not None for t in ti):
                    return (exc.ptr, (1 << 32) - 1)
        if cleanup:
            return (exc.ptr, 0)
        raise exc

    def resume(self, v):
        raise CxxExc(v[0], self.exc_objs[v[0]])

    # -------------------------------------------------------------- symbolics
    def vname(self, v):
        return self.vars.info[v]['name']

    def newvar(self, name, lo, hi, kind, **kw):
        v = self.vars.new(name, lo, hi, kind, **kw)
        x = self.witness.get(v)
        if x is not None and not lo <= x <= hi:
            del self.witness[v]         # left over from a longer sibling path
        return Sym({((v, 1),): Fr(1)})

    def undef_f(self):
        self.undef_used = True
        if self.concrete is not None:
            return 0.0
        return self.newvar('undef%d' % len(self.vars.info), -1000, 1000, 'undef')

    def atom(self, kind, p, *extra):
        V = self.vars
        k = (kind, p.key(), extra)
        v = V.atoms.get(k)
        if v is None:
            for q, w in V.bykind.get(kind, ()):
                if V.info[w]['extra'] == extra and len(q.t) == len(p.t) and close(p, q):
                    v = w
                    break
            if v is None:
                lo, hi = self.solver.poly_iv(p)
                if kind == 'abs':
                    b = (Fr(0), None if lo is None or hi is None else max(abs(lo), abs(hi)))
                    if lo is not None and lo > 0:
                        b = (lo, hi)
                elif kind == 'inv':
                    b = pow_iv((lo, hi), -1)
                elif kind == 'sqrt':
                    b = (Fr(0), None if hi is None else Fr(0) if hi <= 0 else Fr(math.sqrt(hi)) * Fr(1000001, 1000000))
                    if lo is not None and lo > 0:
                        b = (Fr(math.sqrt(lo)) * Fr(999999, 1000000), b[1])
                elif kind == 'pow':
                    b = (Fr(0), None)
                    c = extra[0]
                    try:
                        if lo is not None and lo > 0:
                            e = Fr(float(lo) ** c)
                            b = (b[0], e * Fr(1000001, 1000000)) if c < 0 else (e * Fr(999999, 1000000), b[1])
                        if hi is not None and hi > 0:
                            e = Fr(float(hi) ** c)
                            b = (e * Fr(999999, 1000000), b[1]) if c < 0 else (b[0], e * Fr(1000001, 1000000))
                    except (OverflowError, ZeroDivisionError):
                        pass
                elif kind == 'exp':
                    b = (Fr(0), None)
                elif kind == 'atan':
                    e = Fr(1, 10 ** 12)
                    b = (Fr(-157080, 100000) if lo is None else Fr(math.atan(lo)) - e,
                         Fr(157080, 100000) if hi is None else Fr(math.atan(hi)) + e)
                else:
                    b = (None, None)
                v = V.new('%s%d' % (kind, len(V.info)), b[0], b[1], kind, arg=p, extra=extra)
                self.witness.pop(v, None)
                V.bykind.setdefault(kind, []).append((p, v))
            V.atoms[k] = v
        return Sym({((v, 1),): Fr(1)})

    def atom_constraints(self, v):
        i = self.vars.info[v]
        k = i['kind']
        if k in ('in', 'sys', 'undef'):
            return ()
        if 'cons' in i:
            return i['cons']
        p = i['arg']
        x = Sym({((v, 1),): Fr(1)})
        c = []

        def B(op, q):
            r = cmp0(op, q)
            return r if r.__class__ is SymBool else None
        if k == 'abs':
            a, b = B('eq', x - p), B('eq', x + p)
            if a is not None and b is not None:
                c.append(SymBool('or', (a, b)))
        elif k == 'inv':
            c.append(B('eq', x * p - 1.0))
        elif k == 'sqrt':
            c.append(B('eq', x * x - p))
        elif k == 'pow':
            e = i['extra'][0]
            piv = {0.25, 1.0, 1.4, 4.0}
            for a in (5.0, 0.2):
                try:
                    a = a ** (1.0 / e)
                    if 1e-15 < a < 1e15:
                        piv.add(a)
                except (OverflowError, ZeroDivisionError):
                    pass
            for a in sorted(piv):
                up, dn = B('le', p - a), B('le', a - p)
                if up is None:
                    continue
                y = Fr(a ** e)
                d = Fr(1, 10 ** 12) if a != 1.0 else 0
                lo1, hi1 = B('le', Sym({((v, 1),): Fr(1)}) + float(-(y + d))), B('le', float(y - d) - x)
                if e < 0:
                    c.append(SymBool('or', (dn, hi1)))    # p<=a -> x>=a^e
                    c.append(SymBool('or', (up, lo1)))
                else:
                    c.append(SymBool('or', (dn, lo1)))
                    c.append(SymBool('or', (up, hi1)))
            for q, w in self.vars.bykind['pow']:
                if w < v and self.vars.info[w]['extra'] == i['extra']:
                    y = Sym({((w, 1),): Fr(1)})
                    # monotone
                    d = p - q
                    lt, le = B('le', d), B('le', -d)
                    o1, o2 = B('le', x - y), B('le', y - x)
                    if lt is not None:
                        if e < 0:
                            o1, o2 = o2, o1
                        c.append(SymBool('or', (B('lt', -d), o1)))
                        c.append(SymBool('or', (B('lt', d), o2)))
        elif k == 'atan':
            # monotone, and its values at a few points
            for a in (-1.0, -0.5, -math.tan(0.101), -math.tan(0.1), -math.tan(0.099), 0.0, 0.5, 1.0, 3.0):
                e = 1e-12 if a else 0.0
                up, lo = B('le', p - a), B('le', a - p)
                if up is not None and lo is not None:
                    c.append(SymBool('or', (lo.neg(), B('le', (math.atan(a) - e) - x))))
                    c.append(SymBool('or', (up.neg(), B('le', x - (math.atan(a) + e)))))
        c = [q for q in c if q is not None]
        i['cons'] = c
        return c

    def need_nonzero(self, p):
        pass

    def div_by_zero(self, a):
        if a.__class__ is Sym:
            b = a > 0.0
            if b:
                return INF
            return -INF if (a < 0.0) else NAN
        return NAN

    def nonfinite_mul(self, s, o):
        if o != o:
            return NAN
        if s > 0.0:
            return o
        return -o if s < 0.0 else NAN

    def fabs(self, x):
        if x.__class__ is not Sym:
            return abs(x)
        t = self.solver.iv_truth(SymBool('le', -x))
        if t is True:
            return x
        if self.solver.iv_truth(SymBool('le', x)) is True:
            return -x
        k = cmp0('le', -x)
        if k.__class__ is SymBool:
            for q, s in ((k, x), (cmp0('le', x), -x)):
                if self.pckeys.get(q.key()) is True:
                    return s
        # scale and sign canonical
        lead = max(x.t.items())[1]
        p = Sym({m: c / lead for m, c in x.t.items()})
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) > 1:
                r = None
                for v, e in m:
                    f = self.fabs(Sym({((v, 1),): Fr(1)}))
                    f = f if e > 0 else sym.div(1.0, f)
                    for _ in range(abs(e)):
                        r = f if r is None else r * f
                return r * Sym({(): abs(lead)})
            if m[0][1] != 1:
                f = self.fabs(Sym({((m[0][0], 1),): Fr(1)}))
                f = f if m[0][1] > 0 else sym.div(1.0, f)
                r = f
                for _ in range(abs(m[0][1]) - 1):
                    r = r * f
                return r * Sym({(): abs(lead)})
        return self.atom('abs', p) * Sym({(): abs(lead)})

    # witness evaluation ------------------------------------------------------
    def wval(self, v, w):
        x = w.get(v)
        if x is not None:
            return x
        i = self.vars.info[v]
        k = i['kind']
        if k in ('in', 'sys', 'undef'):
            lo, hi = i['lo'], i['hi']
            r = random.Random('%s/%d/%s' % (self.seed, v, i['name']))
            x = lo + (hi - lo) * Fr(r.randrange(1, 1024), 1024)
        else:
            a = self.evalp(i['arg'], w)
            if k == 'abs':
                x = abs(a)
            elif k == 'inv':
                x = 1 / a if a else Fr(10) ** 30
            else:
                try:
                    f = float(a)
                    x = {'sqrt': lambda: math.sqrt(f) if f > 0 else 0.0, 'pow': lambda: f ** i['extra'][0] if f > 0 else 0.0,
                         'exp': lambda: math.exp(f), 'atan': lambda: math.atan(f), 'fn': lambda: i['extra'][0](f)}[k]()
                    x = Fr(x)
                except (OverflowError, ZeroDivisionError, ValueError):
                    x = Fr(10) ** 30
        w[v] = x
        return x

    def evalp(self, p, w):
        if p.__class__ is not Sym:
            return Fr(p)
        r = Fr(0)
        for m, c in p.t.items():
            for v, e in m:
                x = self.wval(v, w)
                if e == 1:
                    c = c * x
                elif e > 0:
                    c = c * x ** e
                else:
                    c = c * (1 / x if x else Fr(10) ** 30) ** -e
            r += c
        return r

    def evalb(self, b, w):
        o = b.op
        if o == 'and':
            return all(self.evalb(x, w) for x in b.a)
        if o == 'or':
            return any(self.evalb(x, w) for x in b.a)
        if o in ('near', 'far'):
            r = abs(self.evalp(b.a[0], w)) <= b.a[1]
            return r if o == 'near' else not r
        x = self.evalp(b.a, w)
        if o == 'lt':
            return x < 0
        if o == 'le':
            return x <= 0
        if o == 'eq':
            return x == 0
        return x != 0

    # decisions -----------------------------------------------------------------
    def known(self, b):
        k = self.pckeys.get(b.key())
        if k is not None:
            return k
        t = self.solver.iv_truth(b)
        if t is not None:
            return t
        if b.op in ('and', 'or'):
            vs = [self.known(x) for x in b.a]
            if b.op == 'and':
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    def add_pc(self, b):
        self.pc.append(b)
        self.pckeys[b.key()] = True
        self.pckeys[b.neg().key()] = False
        if b.op == 'and':
            for x in b.a:
                self.pckeys[x.key()] = True
                self.pckeys[x.neg().key()] = False
        elif b.op == 'lt':
            self.pckeys[('le', b.a.key())] = True
            self.pckeys[('lt', (-b.a).key())] = False
            e = cmp0('eq', b.a)
            self.pckeys[e.key()] = False
            self.pckeys[e.neg().key()] = True
            self.tighten(b.a)
        elif b.op == 'le':
            self.tighten(b.a)
        elif b.op == 'eq':
            for q in (b.a, -b.a):
                self.pckeys[('le', q.key())] = True
                self.pckeys[('lt', q.key())] = False

    def tighten(self, p):
        pass

    def decide(self, b):
        k = self.known(b)
        if k is not None:
            return k
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != 'b':
                raise Unsup('replay mismatch')
            r = d[1]
            self.decisions.append(d)
        else:
            r = self.evalb(b, self.witness)
            self.decisions.append(('b', r, b, len(self.pc)))
        self.add_pc(b if r else b.neg())
        return r

    def choose(self, n):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[1]
        self.decisions.append(('v', 0, n, len(self.pc)))
        return 0

    def inrange(self, p, k, w, signed):
        """SymBool: trunc(p) == k"""
        if k > 0:
            return cmp0('le', float(k) - p) & cmp0('lt', p - float(k + 1))
        if k < 0:
            return cmp0('lt', float(k - 1) - p) & cmp0('le', p - float(k))
        return cmp0('lt', -1.0 - p) & cmp0('lt', p - 1.0)

    def fptoint(self, p, w, signed):
        if p.__class__ is float:
            if p != p or p in (INF, -INF):
                return 1 << (w - 1)
            k = int(p)
            if signed and not (-(1 << (w - 1)) <= k < 1 << (w - 1)):
                return 1 << (w - 1)
            return k & ((1 << w) - 1)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != 'k':
                raise Unsup('replay mismatch')
            k = d[1]
            self.decisions.append(d)
        else:
            x = self.evalp(p, self.witness)
            k = int(x)
            self.decisions.append(('k', k, (p, w, signed, frozenset()), len(self.pc)))
        b = self.inrange(p, k, w, signed)
        if b.__class__ is SymBool:
            self.add_pc(b)
        return k & ((1 << w) - 1)

    def assume(self, b):
        if b is True or b == 1 and b.__class__ is not SymBool:
            return
        if b is False or b.__class__ is int:
            raise Infeasible('assumption false')
        k = self.known(b)
        if k is True:
            return
        if k is False:
            raise Infeasible('assumption contradicts the path')
        self.add_pc(b)
        if not self.evalb(b, self.witness):
            r, m = self.solver.check(self.slice(self.pc, [b]), self.o['query_ms'])
            if r == 'unsat':
                raise Infeasible('assumption')
            if r == 'sat':
                self.set_witness(m)

    def set_witness(self, m):
        w = {v: x for v, x in self.witness.items() if v >= len(self.vars.info) or self.vars.info[v]['kind'] in ('in', 'sys', 'undef')}
        for v, x in m.items():
            if self.vars.info[v]['kind'] in ('in', 'sys', 'undef'):
                w[v] = x
        self.witness = w

    def varsof(self, b):
        s = set()
        todo = [b]
        vs = []

        def addp(p):
            if p.__class__ is Sym:
                for m in p.t:
                    for v, e in m:
                        if v not in s:
                            s.add(v)
                            vs.append(v)
        while todo:
            x = todo.pop()
            if x.op in ('and', 'or'):
                todo += x.a
            elif x.op in ('near', 'far'):
                addp(x.a[0])
            else:
                addp(x.a)
        i = 0
        while i < len(vs):
            q = self.vars.info[vs[i]]
            i += 1
            if 'arg' in q:
                addp(q['arg'])
        return s

    def slice(self, pc, targets):
        """constraints of pc connected to the targets"""
        vs = set()
        for b in targets:
            vs |= self.varsof(b)
        rest = [(b, self.varsof(b)) for b in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for b, s in rest:
                if s & vs:
                    vs |= s
                    out.append(b)
                    ch = True
                else:
                    nr.append((b, s))
            rest = nr
        return out

    # asserts -----------------------------------------------------------------
    def vp_assert(self, b, msg):
        a = self.asserts.setdefault(msg, [0, 0])
        a[0] += 1
        self.pathmsgs.add(msg)
        if b.__class__ is not SymBool:
            if b.__class__ is FBits:
                raise Unsup('assert on bits')
            if not b:
                self.pending.append((len(self.pc), None, msg))
            self.assert_obligations += 1
            return
        self.assert_obligations += 1
        if self.pckeys.get(b.key()) is True:
            return
        self.pending.append((len(self.pc), b, msg))

    def near(self, a, b, tol, msg):
        if self.concrete is not None:
            self.log += [a, b]
        if a.__class__ is not Sym and b.__class__ is not Sym:
            ok = abs(a - b) <= tol if a == a and b == b and not (math.isinf(a) or math.isinf(b)) else (a == b or (a != a and b != b))
            return self.vp_assert(ok, msg)
        d = a - b
        if d.__class__ is not Sym:
            if abs(d) <= tol:
                # equal after normalisation: still handed to the solver, both sides encoded separately
                self.pairs.append((a, b, tol))
                self.asserts.setdefault(msg, [0, 0])[0] += 1
                self.pathmsgs.add(msg)
                self.assert_obligations += 1
                return
            return self.vp_assert(False, msg)
        self.vp_assert(SymBool('near', (d, Fr(tol))), msg)

    # system function ---------------------------------------------------------
    def sysfn(self, fid, args, m, B):
        calls = self.syscalls.setdefault((fid, m), [])
        for a, out in calls if self.concrete is None else ():
            if len(a) == len(args) and all(close(p, q) for p, q in zip(a, args)):
                return out
        if self.concrete is not None:
            out = [self.smooth(fid, args, i) for i in range(m)]
        else:
            n = len(calls)
            out = [self.newvar('f%d_%d_%d' % (fid, n, i), -B, B, 'sys') for i in range(m)]
        calls.append((args, out))
        self.sysorder.append((fid, args, out))
        return out

    @staticmethod
    def smooth(fid, args, i):
        # identical arithmetic in harness/native.cpp
        s = 0.25 * (i + 1) + 0.125 * fid
        c = 0.5
        for a in args:
            s = s + c * a
            c = c * -0.75
        return s / (1.0 + s * s) + 0.0625 * (i + 1) * s

    # ------------------------------------------------------------- exploration
    def explore(self, entry):
        self.entry = entry
        t0 = time.time()
        self.deadline = t0 + self.o['time']
        fn = self.func(entry)
        self.work = [([], {})]
        self.incomplete = []
        while self.work:
            if self.paths >= self.o['max_paths']:
                self.incomplete.append('path limit (%d pending)' % len(self.work))
                break
            if time.time() > self.deadline:
                self.incomplete.append('time limit (%d pending)' % len(self.work))
                break
            prefix, wit = self.work.pop()
            self.run_path(fn, prefix, wit)
        self.wall = time.time() - t0

    def global_ctors(self):
        a = self.mod.gname.get('llvm.global_ctors')
        if a is None:
            return
        n = self.mod.gsize[a][0] // 24
        for i in range(n):
            c = self.M.get(a + 24 * i + 8)
            if c:
                self.icall(c[1])

    def run_path(self, fn, prefix, wit):
        self.reset(prefix, wit)
        self.paths += 1
        self.pathmsgs = set()
        end = 'ok'
        try:
            self.global_ctors()
            fn()
            self.paths_complete += 1
        except Stop:
            self.paths_complete += 1
        except Infeasible as e:
            end = 'infeasible'
            self.infeasible += 1
        except Cut as e:
            end = 'cut'
            self.cuts[str(e)] = self.cuts.get(str(e), 0) + 1
        except Budget as e:
            end = 'budget'
            self.incomplete.append('budget: %s' % e)
        except Unsup as e:
            end = 'unsup'
            if os.environ.get('VP_TB'):
                import traceback
                traceback.print_exc()
            self.incomplete.append('unsupported: %s' % e)
        except ProgError as e:
            self.pending.append((len(self.pc), None, '%s: %s' % (e.args[0], e.args[1] if len(e.args) > 1 else '')))
            self.asserts.setdefault('no runtime error', [0, 0])[0] += 1
            end = 'error'
        except CxxExc as e:
            self.pending.append((len(self.pc), None, 'uncaught C++ exception (%s)' % self.mod.gsize.get(e.ti, (0, '?'))[1]))
            end = 'error'
        except RecursionError:
            end = 'budget'
            self.incomplete.append('recursion')
        except sym.NonFinite:
            end = 'unsup'
            self.incomplete.append('unsupported: non-finite arithmetic')
        self.steps_total += self.steps
        if end != 'infeasible':
            self.flush_asserts()
            # reachability: the witness satisfies every path constraint exactly
            try:
                if all(self.evalb(b, self.witness) for b in self.pc):
                    for m in self.pathmsgs:
                        self.asserts[m][1] += 1
                elif end == 'ok' and any(self.asserts[m][1] == 0 for m in self.pathmsgs):
                    r, m = self.solver.check(self.pc, self.o['query_ms'])
                    if r == 'sat':
                        for q in self.pathmsgs:
                            self.asserts[q][1] += 1
            except (ZeroDivisionError, OverflowError):
                pass
        self.flip(end)

    def flip(self, end):
        new = []
        for i in range(len(self.prefix), len(self.decisions)):
            d = self.decisions[i]
            if time.time() > self.deadline:
                self.incomplete.append('time limit while branching')
                break
            base = [x[:2] if x[0] != 'k' else x for x in self.decisions[:i]]
            npc = d[3]
            if d[0] == 'v':
                for k in range(1, d[2]):
                    new.append((base + [('v', k)], self.base_wit()))
                continue
            if d[0] == 'b':
                t = d[2].neg() if d[1] else d[2]
                if self.solver.iv_truth(t) is False:
                    self.pruned += 1
                    continue
                r, m = self.solver.check(self.slice(self.pc[:npc], [t]) + [t], self.o['query_ms'])
                if r == 'unsat':
                    self.pruned += 1
                    continue
                w = self.base_wit()
                if m:
                    w.update({v: x for v, x in m.items() if self.vars.info[v]['kind'] in ('in', 'sys', 'undef')})
                new.append((base + [('b', not d[1])], w))
            else:
                p, w_, sg, ex = d[2]
                ex = ex | {d[1]}
                ts = []
                for k in ex:
                    b = self.inrange(p, k, w_, sg)
                    ts.append(b.neg() if b.__class__ is SymBool else b ^ True)
                if any(t is False for t in ts):
                    self.pruned += 1
                    continue
                ts = [t for t in ts if t is not True]
                r, m = self.solver.check(self.slice(self.pc[:npc], ts) + ts, self.o['query_ms'])
                if r == 'unsat':
                    self.pruned += 1
                    continue
                if r == 'unknown':
                    self.incomplete.append('unknown integer conversion')
                    continue
                w = self.base_wit()
                w.update({v: x for v, x in m.items() if self.vars.info[v]['kind'] in ('in', 'sys', 'undef')})
                k2 = int(self.evalp(p, dict(w)))
                if k2 in ex:
                    self.incomplete.append('integer conversion')
                    continue
                new.append((base + [('k', k2, (p, w_, sg, ex), npc)], w))
        self.work += new

    def base_wit(self):
        I = self.vars.info
        return {v: x for v, x in self.witness.items() if v < len(I) and I[v]['kind'] in ('in', 'sys', 'undef')}

    def flush_asserts(self):
        if self.pairs:
            r = self.solver.check_pairs(self.pairs, self.o['assert_ms'])
            if r != 'unsat':
                self.inconclusive.append(dict(msg='equalities', why='solver %s' % r, cond=''))
            self.pairs = []
        todo = [p for p in self.pending if self.seen_fail.get(p[2], 0) < 4]
        self.pending = []
        if not todo:
            return
        sy = [(b, msg) for n, b, msg in todo if b is not None]
        conc = [(n, b, msg) for n, b, msg in todo if b is None]
        if sy:
            neg = [b.neg() for b, _ in sy]
            q = neg[0] if len(neg) == 1 else SymBool('or', tuple(neg))
            r, m = self.solver.check(self.slice(self.pc, [q]) + [q], self.o['assert_ms'])
            if r != 'unsat':
                for b, msg in sy:
                    if self.seen_fail.get(msg, 0) >= 4:
                        continue
                    t = b.neg()
                    sl = self.slice(self.pc, [t])
                    r, m = self.solver.check(sl + [t], self.o['assert_ms'])
                    if r == 'unsat':
                        continue
                    if r == 'unknown':
                        self.inconclusive.append(dict(msg=msg, why='solver unknown', cond=repr(b)[:300]))
                        m = None
                    self.candidate(b, msg, sl, m)
        for n, b, msg in conc:
            if self.seen_fail.get(msg, 0) >= 4:
                continue
            r, m = self.solver.check(self.pc[:], self.o['assert_ms']) if self.pc else ('sat', {})
            if r == 'unsat':
                self.infeasible += 1
                continue
            self.candidate(None, msg, self.pc, m if r == 'sat' else None)

    def candidate(self, b, msg, sl, m):
        """several models of the violation (largest margins first), to be replayed natively"""
        self.seen_fail[msg] = self.seen_fail.get(msg, 0) + 1
        models = []
        if b is not None and b.op == 'near':
            p = b.a[0]
            for big in (Fr(1), Fr(1, 1000)):
                if big > 4 * b.a[1]:
                    r, mm = self.solver.check(sl + [SymBool('far', (p, big))], self.o['query_ms'])
                    if r == 'sat':
                        models.append(mm)
                        break
        # strict version of the path condition
        strict = []
        for c in sl:
            if c.op in ('lt', 'le'):
                q = c.a + 1e-3 * float(max(abs(x) for x in c.a.t.values()))
                c = cmp0('le', q)
                if c.__class__ is not SymBool:
                    continue
            strict.append(c)
        if strict:
            t = [b.neg()] if b is not None else []
            r, mm = self.solver.check(strict + t, self.o['query_ms'])
            if r == 'sat':
                models.append(mm)
        if m is not None:
            models.append(m)
        if b is None and not models:
            models.append({})
        # random points inside the bounds (helps when the solver's model sits on a boundary)
        for k in range(6):
            w = {}
            rr = random.Random('%s/%s/%d' % (self.seed, msg, k))
            for v, i in enumerate(self.vars.info):
                if i['kind'] in ('in', 'sys', 'undef'):
                    w[v] = i['lo'] + (i['hi'] - i['lo']) * Fr(rr.randrange(1, 64), 64)
            if all(self.evalb(c, w) for c in sl) and (b is None or not self.evalb(b, w)):
                models.append(w)
                break
        reps = []
        for mm in models:
            w = self.base_wit()
            w.update({v: x for v, x in mm.items() if self.vars.info[v]['kind'] in ('in', 'sys', 'undef')})
            reps.append(self.replay_record(w))
        self.violations.append(dict(entry=self.entry, msg=msg, cond=repr(b)[:400] if b is not None else '', models=reps,
                                    undef=self.undef_used))

    def replay_record(self, w):
        def f(x):
            x = self.evalp(x, w) if x.__class__ is Sym else x
            try:
                return float(x)
            except OverflowError:
                return 1e300
        ins = []
        for k, v in self.inputs:
            ins.append([k, f(v) if k == 'r' else v])
        return dict(inputs=ins, sys=[[fid, [f(a) for a in args], [f(o) for o in out]] for fid, args, out in self.sysorder])


class Ext(dict):
    """external functions (everything the harness modules do not define)"""

    def __init__(self, rt):
        super().__init__()
        self.rt = rt
        r = rt
        d = self
        one = {}

        def fn1(name, f):
            def g(x):
                if x.__class__ is Sym:
                    raise Unsup('%s of a symbolic value' % name)
                try:
                    return f(x)
                except (ValueError, OverflowError):
                    return NAN
            return g
        def atan(x):
            return r.atom('atan', x) if x.__class__ is Sym else math.atan(x)
        d['atan'] = atan
        for n in ('sin', 'cos', 'tan', 'log', 'tanh', 'sinh', 'cosh', 'cbrt', 'log10', 'asin', 'acos'):
            d[n] = d['llvm.%s.f64' % n] = fn1(n, getattr(math, n))

        def exp(x):
            if x.__class__ is Sym:
                return r.atom('exp', x)
            return math.exp(x)
        d['exp'] = d['llvm.exp.f64'] = exp

        def sqrt(x):
            if x.__class__ is Sym:
                return r.atom('sqrt', x)
            return math.sqrt(x) if x >= 0 else NAN
        d['sqrt'] = d['llvm.sqrt.f64'] = sqrt
        d['cabs'] = d['hypot'] = lambda x, y: sqrt(x * x + y * y)

        def powf(x, y):
            if x.__class__ is Sym:
                if y.__class__ is Sym:
                    raise Unsup('pow with a symbolic exponent')
                if y == int(y) and abs(y) <= 12:
                    k = int(y)
                    if k == 0:
                        return 1.0
                    p = x
                    for _ in range(abs(k) - 1):
                        p = p * x
                    return p if k > 0 else sym.div(1.0, p)
                return r.atom('pow', x, y)
            if y.__class__ is Sym:
                raise Unsup('pow with a symbolic exponent')
            try:
                return math.pow(x, y)
            except ZeroDivisionError:
                return INF
            except ValueError:
                return INF if x == 0 else NAN
            except OverflowError:
                return INF
        d['pow'] = d['llvm.pow.f64'] = powf
        d['llvm.powi.f64.i32'] = lambda x, n: powf(x, float(n if n < 1 << 31 else n - (1 << 32)))
        d['llvm.fabs.f64'] = d['fabs'] = d['llvm.fabs.f32'] = d['fabsf'] = r.fabs

        def vfabs(v):
            return tuple(r.fabs(x) for x in v)
        d['llvm.fabs.v2f64'] = vfabs

        def unary(name, f):
            def g(x):
                if x.__class__ is Sym:
                    t = r.fptoint(x, 64, True)
                    t = s64(t)
                    if name == 'floor':
                        return float(t if not (float(t) > x) else t - 1)
                    if name == 'ceil':
                        return float(t if not (float(t) < x) else t + 1)
                    if name == 'trunc':
                        return float(t)
                    raise Unsup(name)
                return float(f(x)) if math.isfinite(x) else x
            return g
        d['floor'] = d['llvm.floor.f64'] = unary('floor', math.floor)
        d['ceil'] = d['llvm.ceil.f64'] = unary('ceil', math.ceil)
        d['trunc'] = d['llvm.trunc.f64'] = unary('trunc', math.trunc)
        d['round'] = d['llvm.round.f64'] = unary('round', lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1))
        d['fmod'] = r.frem

        def fmx(a, b):
            return a if (a > b) else b

        def fmn(a, b):
            return a if (a < b) else b
        for n in ('fmax', 'llvm.maxnum.f64', 'llvm.maximum.f64'):
            d[n] = fmx
        for n in ('fmin', 'llvm.minnum.f64', 'llvm.minimum.f64'):
            d[n] = fmn
        d['llvm.copysign.f64'] = d['copysign'] = self.copysign
        d['llvm.fmuladd.f64'] = d['llvm.fma.f64'] = d['fma'] = lambda a, b, c: a * b + c
        for w in (8, 16, 32, 64):
            s = 1 << (w - 1)
            f = 1 << w

            def S(x, s=s, f=f):
                return x - f if x >= s else x
            d['llvm.umax.i%d' % w] = max
            d['llvm.umin.i%d' % w] = min
            d['llvm.smax.i%d' % w] = lambda a, b, S=S, f=f: max(S(a), S(b)) % f
            d['llvm.smin.i%d' % w] = lambda a, b, S=S, f=f: min(S(a), S(b)) % f
            d['llvm.abs.i%d' % w] = lambda a, b, S=S, f=f: abs(S(a)) % f
            d['llvm.usub.sat.i%d' % w] = lambda a, b: max(0, a - b)
            d['llvm.uadd.sat.i%d' % w] = lambda a, b, f=f: min(f - 1, a + b)
            d['llvm.ctpop.i%d' % w] = lambda a: bin(a).count('1')
            d['llvm.ctlz.i%d' % w] = lambda a, z, w=w: w - a.bit_length()
            d['llvm.cttz.i%d' % w] = lambda a, z, w=w: (a & -a).bit_length() - 1 if a else w
            d['llvm.umul.with.overflow.i%d' % w] = lambda a, b, f=f: ((a * b) % f, a * b >= f)
            d['llvm.uadd.with.overflow.i%d' % w] = lambda a, b, f=f: ((a + b) % f, a + b >= f)
            d['llvm.usub.with.overflow.i%d' % w] = lambda a, b, f=f: ((a - b) % f, a < b)
            d['llvm.fshl.i%d' % w] = lambda a, b, c, w=w, f=f: (((a << (c % w)) | (b >> (w - c % w))) % f) if c % w else a
            d['llvm.fshr.i%d' % w] = lambda a, b, c, w=w, f=f: (((a << (w - c % w)) | (b >> (c % w))) % f) if c % w else b
            d['llvm.bswap.i%d' % w] = lambda a, w=w: int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            d['llvm.expect.i%d' % w] = lambda a, b: a
        d['llvm.expect.i1'] = lambda a, b: a
        d['llvm.is.constant.i64'] = d['llvm.is.constant.i32'] = lambda *a: False
        d['llvm.objectsize.i64.p0'] = lambda *a: (1 << 64) - 1
        d['llvm.threadlocal.address.p0'] = lambda p: p
        d['llvm.stacksave.p0'] = d['llvm.stacksave'] = lambda: 0
        d['llvm.donothing'] = lambda *a: None
        d['llvm.prefetch.p0'] = lambda *a: None
        d['llvm.is.fpclass.f64'] = self.fpclass

        def life_start(n, p):
            s = r.sizes.get(p >> 32)
            if s is not None:
                n = s if n == (1 << 64) - 1 else n
                r.drop(p, n)
        d['llvm.lifetime.start.p0'] = life_start
        d['llvm.lifetime.end.p0'] = life_start
        for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.inline.p0.p0.i64', 'memcpy', 'memmove'):
            d[n] = r.memcpy
        d['llvm.memset.p0.i64'] = d['memset'] = r.memset
        d['memcmp'] = d['bcmp'] = self.memcmp
        d['strlen'] = lambda p: len(r.cstr(p))
        d['strcmp'] = lambda p, q: (lambda a, b: 0 if a == b else 1 if a > b else (1 << 32) - 1)(r.cstr(p), r.cstr(q))
        alloc = lambda n, *a: r.alloc(n, 'heap')
        for n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            d[n] = alloc
        d['aligned_alloc'] = lambda a, n: r.alloc(n, 'heap')
        d['calloc'] = lambda a, b: r.memset(r.alloc(a * b, 'heap'), 0, a * b)
        d['posix_memalign'] = self.posix_memalign
        d['realloc'] = self.realloc
        fr = lambda p, *a: r.free(p)
        for n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            d[n] = fr
        # exceptions
        d['__cxa_allocate_exception'] = lambda n: r.alloc(n, 'heap')
        d['__cxa_free_exception'] = fr
        d['__cxa_throw'] = self.throw
        d['__cxa_begin_catch'] = self.begin_catch
        d['__cxa_end_catch'] = self.end_catch
        d['__cxa_rethrow'] = self.do_rethrow
        d['__cxa_get_exception_ptr'] = lambda p: r.adjusted.get(p, p)
        d['llvm.eh.typeid.for'] = d['llvm.eh.typeid.for.p0'] = lambda ti: ti >> 32
        d['_Unwind_Resume'] = lambda p: r.resume((p, 0))
        d['__cxa_guard_acquire'] = self.guard_acquire
        d['__cxa_guard_release'] = lambda p: r.st(p, 1, 1)
        d['__cxa_guard_abort'] = lambda p: None
        d['__cxa_atexit'] = lambda *a: 0
        d['__cxa_pure_virtual'] = lambda: r.unreachable('pure virtual call')

        def err(kind, what):
            def g(*a):
                raise ProgError(kind, what)
            return g
        for n in ('abort', 'exit', '_exit', '_ZSt9terminatev', 'llvm.trap', '__assert_fail', '__cxa_bad_cast', '__cxa_bad_typeid',
                  '__clang_call_terminate', '_ZN5boost16assertion_failedEPKcS1_S1_l',
                  '_ZN5boost20assertion_failed_msgEPKcS1_S1_S1_l'):
            d[n] = err('abort', n)
        for n, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
                      ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'),
                      ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                      ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                      ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                      ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call')):
            d[n] = self.std_throw(ti)
        nop = lambda *a: a[0] if a else 0
        self.nop = nop
        d['sprintf'] = d['snprintf'] = self.sprintf
        d['printf'] = d['puts'] = d['fprintf'] = lambda *a: 0
        # harness primitives
        d['vp_real'] = self.vp_real
        d['vp_choose'] = self.vp_choose
        d['vp_assume'] = r.assume
        d['vp_assert'] = lambda b, m: r.vp_assert(b, r.cstr(m))
        d['vp_near'] = lambda a, b, t, m: r.near(a, b, t, r.cstr(m))
        d['vp_sys'] = self.vp_sys
        d['vp_cut'] = self.vp_cut
        d['vp_stop'] = self.vp_stop
        d['vp_log'] = lambda x: r.log.append(x)
        d['vp_symbolic'] = lambda: False if r.concrete is not None else True
        d['vp_fix'] = self.vp_fix
        d['vp_live'] = lambda p: 1 if (p >> 32) in r.sizes else 0
        self.install_omp()

    def __missing__(self, name):
        if name.startswith(('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2')):
            return self.empty_string      # the text of messages is not modelled
        if name == '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructEmc':
            return self.string_fill
        if name.startswith('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_construct'):
            return self.empty_string
        if name.startswith('_ZNKSt7__cxx11') and name.endswith('E3strEv'):
            return self.empty_string      # of a string stream
        if name in ('_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv', '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4dataEv'):
            return lambda p: self.rt.ld(p, 8)
        if name.startswith(('_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD', '_ZNSt9exceptionD', '_ZNSt11logic_errorC',
                            '_ZNSt11logic_errorD', '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD', '_ZNSt14overflow_errorC',
                            '_ZNSt14overflow_errorD', '_ZNSt16invalid_argumentC', '_ZNSt16invalid_argumentD',
                            '_ZNSt7__cxx1112basic_string', '_ZNSt8ios_base4InitC', '_ZNSt8ios_base4InitD', '_ZNSo', '_ZStls', '_ZSt4endl',
                            '_ZNSolsE', '_ZSt16__ostream_insert', '_ZNSt15__exception_ptr', '_ZNKSt13runtime_error4what',
                            '_ZNSt6locale', '_ZNSt9basic_ios', '_ZNSt15basic_streambuf', '_ZNSt18basic_stringstream',
                            '_ZNSt7__cxx1118basic_stringstream', '_ZNSt7__cxx1115basic_stringbuf', '_ZNSt7__cxx1119basic_ostringstream')):
            # error-message text and stream output: no effect on the properties
            self[name] = self.nop
            return self.nop

        def g(*a):
            raise Unsup('external function ' + name)
        self[name] = g
        return g

    def copysign(self, a, b):
        r = self.rt
        if a.__class__ is Sym or b.__class__ is Sym:
            m = r.fabs(a)
            return -m if (b < 0.0) else m
        return math.copysign(a, b)

    def fpclass(self, x, mask):
        if x.__class__ is Sym:
            x = 1.0
        c = 0
        if x != x:
            c = 3
        elif math.isinf(x):
            c = 512 if x > 0 else 4
        elif x == 0:
            c = 64 if math.copysign(1, x) > 0 else 32
        else:
            c = 256 if x > 0 else 8
        return bool(c & mask)

    def memcmp(self, p, q, n):
        r = self.rt
        for i in range(n):
            a, b = r.ld(p + i, 1), r.ld(q + i, 1)
            if a != b:
                return 1 if a > b else (1 << 32) - 1
        return 0

    def posix_memalign(self, pp, al, n):
        r = self.rt
        r.st(pp, 8, r.alloc(n, 'heap'))
        return 0

    def realloc(self, p, n):
        r = self.rt
        q = r.alloc(n, 'heap')
        if p:
            r.memcpy(q, p, min(n, r.sizes[p >> 32]))
            r.free(p)
        return q

    def throw(self, p, ti, dtor):
        r = self.rt
        r.exc_objs[p] = ti
        raise CxxExc(p, ti)

    def std_throw(self, tiname):
        def g(*a):
            r = self.rt
            p = r.alloc(16, 'heap')
            ti = r.mod.gname.get(tiname, 1)
            r.exc_objs[p] = ti
            raise CxxExc(p, ti)
        return g

    def begin_catch(self, p):
        r = self.rt
        r.caught.append(p)
        return r.adjusted.get(p, p)

    def end_catch(self):
        if self.rt.caught:
            self.rt.caught.pop()

    def do_rethrow(self):
        r = self.rt
        p = r.caught[-1]
        raise CxxExc(p, r.exc_objs[p])

    def guard_acquire(self, p):
        r = self.rt
        c = r.M.get(p)
        if c is not None and c[1]:
            return 1 if not (c[1] & 1) else 0
        return 1

    def empty_string(self, p, *a):
        self.rt.st(p, 8, p + 16)
        self.rt.st(p + 8, 8, 0)
        self.rt.st(p + 16, 1, 0)

    def string_fill(self, p, n, c):
        """std::string::_M_construct(n, c): digits of a number are written into it afterwards"""
        if n > 64 or n < 0:
            raise Unsup('string of %r characters' % (n,))
        q = p + 16
        if n > 15:
            q = self['_Znwm'](n + 1)
            self.rt.st(p + 16, 8, n)
        self.rt.st(p, 8, q)
        self.rt.st(p + 8, 8, n)
        for i in range(n):
            self.rt.st(q + i, 1, c & 255)
        self.rt.st(q + n, 1, 0)

    def sprintf(self, buf, *a):
        self.rt.st(buf, 1, 0)
        return 0

    # harness primitives
    def vp_real(self, lo, hi):
        r = self.rt
        if r.concrete is not None:
            v = lo + (hi - lo) * r.concrete.randrange(1, 64) / 64.0
            r.inputs.append(('r', v))
            return v
        v = r.newvar('in%d' % len(r.inputs), lo, hi, 'in')
        r.inputs.append(('r', v))
        return v

    def vp_choose(self, n):
        r = self.rt
        if r.concrete is not None:
            k = r.concrete.randrange(n)
        else:
            k = r.choose(n)
        r.inputs.append(('c', k))
        return k

    def vp_fix(self, x):
        """concrete value of x if it is constant on this path"""
        return x

    def vp_sys(self, fid, x, n, t, out, m, B):
        r = self.rt
        args = [r.ld(x + 8 * i, 'd') for i in range(n)] + [t]
        o = r.sysfn(fid, args, m, B)
        for i in range(m):
            r.st(out + 8 * i, 'd', o[i])

    def vp_cut(self, m):
        raise Cut(self.rt.cstr(m))

    def vp_stop(self):
        raise Stop()

    # OpenMP runtime model: a team of `team` threads executed one after the other; the chunks of a
    # dynamic / runtime schedule are given to any thread (`omode` 0), in turns (1) or all to the last one (2)
    def omp_reset(self):
        self.team = 1
        self.tid = 0
        self.omode = 0
        self.nreg = 0
        self.unit = 1
        self.base = 1 << 60
        self.accesses = {}
        self.stackof = {}
        self.level = 0

    def install_omp(self):
        r = self.rt
        d = self
        self.omp_reset()

        def S(x, w):
            return x - (1 << w) if x >= 1 << (w - 1) else x

        def fork(loc, n, fn, *args):
            team = self.team if self.level == 0 else 1
            self.level += 1
            g = r.alloc(8, 'stack')
            b = r.alloc(8, 'stack')
            r.st(b, 4, 0)
            if self.level == 1:
                self.loops = []
                self.nreg += 1
                self.phase = 0
                self.accesses = {}
                self.stackof = {}
                self.base = r.next_id
                if team > 1 and r.mod.race:
                    r.race.append(1)
            elif r.race:
                raise r.Unsup('nested parallel region')
            for t in range(team):
                if self.level == 1:
                    self.tid = t
                    self.unit = 1 + t
                    self.nloop = 0
                r.st(g, 4, t if self.level == 1 else self.tid)
                r.icall(fn, g, b, *args)
            self.level -= 1
            if self.level == 0:
                self.tid = 0
                self.unit = 1
                self.base = 1 << 60
                del r.race[:]

        def static_init(w):
            def f(loc, gtid, sched, plast, plow, pup, pstride, incr, chunk):
                lo, up = S(r.ld(plow, w // 8), w), S(r.ld(pup, w // 8), w)
                if S(incr, w) != 1 or (sched & 0xff) != 34:
                    raise r.Unsup('static schedule %d' % sched)
                n = up - lo + 1
                T, t = (self.team if self.level == 1 else 1), (self.tid if self.level == 1 else 0)
                ch = (n + T - 1) // T if n > 0 else 0
                a, b = lo + t * ch, min(up, lo + (t + 1) * ch - 1)
                r.st(plast, 4, 1 if n > 0 and a <= up and b == up else 0)
                r.st(plow, w // 8, a % (1 << w))
                r.st(pup, w // 8, b % (1 << w))
            return f

        def dispatch_init(w):
            def f(loc, gtid, sched, lo, up, stride, chunk):
                lo, up, stride = S(lo, w), S(up, w), S(stride, w)
                n = (up - lo) // stride + 1 if (up >= lo if stride > 0 else up <= lo) else 0
                if n > 64:
                    raise r.Unsup('%d iterations of a parallel loop' % n)
                T = self.team if self.level == 1 else 1
                k = self.nloop if self.level == 1 else None
                if k is not None and k < len(self.loops):
                    L = self.loops[k]
                else:
                    own = []
                    for i in range(n):
                        if T == 1:
                            o = 0
                        elif self.omode == 0 and r.concrete is None:
                            o = r.choose(T)
                        else:
                            o = T - 1 if self.omode == 2 else (i + self.nreg) % T
                        r.inputs.append(('o', o))
                        own.append(o)
                    L = dict(lo=lo, up=up, stride=stride, n=n, own=own)
                    if k is not None:
                        self.loops.append(L)
                if k is not None:
                    self.nloop += 1
                self.cur = (L, [i for i in range(n) if L['own'][i] == (self.tid if self.level == 1 else 0)])
            return f

        def dispatch_next(w):
            def f(loc, gtid, plast, plo, pup, pst):
                L, todo = self.cur
                if not todo:
                    if self.level == 1:
                        self.unit = 1 + self.tid
                    return 0
                i = todo.pop(0)
                if self.level == 1:
                    self.unit = 1000 + i
                v = (L['lo'] + i * L['stride']) % (1 << w)
                r.st(plast, 4, int(i == L['n'] - 1))
                r.st(plo, w // 8, v)
                r.st(pup, w // 8, v)
                r.st(pst, w // 8, L['stride'] % (1 << w))
                return 1
            return f

        def sync(ret):
            def f(*a):
                self.keep = self.unit
                self.unit = 0
                return ret
            return f

        def unsync(*a):
            self.unit = self.keep

        def barrier(*a):
            if r.race:
                raise r.Unsup('barrier inside a parallel region')
        d['__kmpc_fork_call'] = fork
        for w in (32, 64):
            for u in ('', 'u'):
                b = '%d%s' % (w // 8, u)
                d['__kmpc_for_static_init_' + b] = static_init(w)
                d['__kmpc_dispatch_init_' + b] = dispatch_init(w)
                d['__kmpc_dispatch_next_' + b] = dispatch_next(w)
                d['__kmpc_dispatch_fini_' + b] = lambda *a: None
        d['__kmpc_for_static_fini'] = lambda *a: None
        d['__kmpc_barrier'] = barrier
        d['__kmpc_global_thread_num'] = lambda *a: self.tid
        d['omp_get_thread_num'] = lambda: self.tid if self.level == 1 else 0
        d['omp_get_max_threads'] = d['omp_get_num_procs'] = d['omp_get_thread_limit'] = lambda: self.team
        d['omp_get_num_threads'] = lambda: self.team if self.level == 1 else 1
        d['omp_in_parallel'] = lambda: int(self.level > 0 and self.team > 1)

        def set_team(n):
            self.team = n

        def set_mode(m):
            self.omode = m
        d['vp_omp_team'] = set_team
        d['vp_omp_mode'] = set_mode
        d['omp_set_num_threads'] = set_team
        d['__kmpc_push_num_threads'] = lambda *a: None
        d['__kmpc_reduce_nowait'] = d['__kmpc_reduce'] = sync(1)
        d['__kmpc_end_reduce_nowait'] = d['__kmpc_end_reduce'] = unsync
        d['__kmpc_critical'] = sync(None)
        d['__kmpc_end_critical'] = unsync
