"""Symbolic machine state: memory objects, path condition, bounds, wrap-around views."""
from term import (Poly, ATOMS, atom, le, lt, ge, eq, ne, neg, conj, disj, iadd, imul, iscale)
import term as T
from irparse import Unsupported


class Fork(Exception):
    """alternatives (exhaustive) the current step has to be split into"""

    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    """the current path is infeasible"""


class Ptr:
    __slots__ = ('obj', 'off', 'bnd')

    def __init__(self, obj, off, bnd=None):
        self.obj = obj
        self.off = off
        self.bnd = bnd          # (first, end) of the member array it points into

    def plus(self, d):
        return Ptr(self.obj, self.off + d, self.bnd)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class PInt:
    """a pointer converted to an integer: address(ptr) + add"""
    __slots__ = ('ptr', )

    def __init__(self, ptr):
        self.ptr = ptr


class F64:
    """IEEE double by its bit pattern (a term congruent mod 2^64)"""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __eq__(self, o):
        return isinstance(o, F64) and self.bits == o.bits

    def __hash__(self):
        return hash(('F64', self.bits))


class F32:
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __eq__(self, o):
        return isinstance(o, F32) and self.bits == o.bits

    def __hash__(self):
        return hash(('F32', self.bits))


class FP:
    """an abstract floating value: constructor and arguments, compared by identity of form"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __eq__(self, o):
        return isinstance(o, FP) and self.kind == o.kind and self.args == o.args

    def __hash__(self):
        return hash((self.kind, self.args))

    def __repr__(self):
        return 'FP(%s,%s)' % (self.kind, self.args)


class Pieces:
    """bytes read together that are not all known integers: may be copied, not computed with"""
    __slots__ = ('bs',)

    def __init__(self, bs):
        self.bs = bs


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'cells', 'owner', 'data', 'dead', 'writable', 'frame')

    def __init__(self, id, name, size, kind, owner, writable=True):
        self.id = id
        self.name = name
        self.size = size
        self.kind = kind
        self.cells = {}
        self.owner = owner
        self.data = None       # model data: constant bytes, rope, array, ...
        self.dead = False
        self.writable = writable
        self.frame = None

    def clone(self, owner):
        o = Obj(self.id, self.name, self.size, self.kind, owner, self.writable)
        o.cells = dict(self.cells)
        o.data = self.data
        o.dead = self.dead
        o.frame = self.frame
        return o


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'env', 'prev', 'ret', 'allocas', 'meta')

    def __init__(self, fn):
        self.fn = fn
        self.block = None
        self.idx = 0
        self.env = {}
        self.prev = None
        self.ret = None        # (result name, normal dest, unwind dest) in the caller
        self.allocas = []
        self.meta = None

    def clone(self):
        f = Frame(self.fn)
        f.block = self.block
        f.idx = self.idx
        f.env = dict(self.env)
        f.prev = self.prev
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.meta = dict(self.meta) if self.meta else None
        return f


class State:
    def __init__(self, ex):
        self.ex = ex
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.bounds = {}
        self.memo = {}
        self.nf = 0
        self.nobj = 0
        self.result = None
        self.thrown = None
        self.steps = 0
        self.ghost = {}
        self.loops = {}
        self.cleared = {}
        self.owner_tok = object()

    def clone(self):
        s = State(self.ex)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.bounds = dict(self.bounds)
        s.memo = dict(self.memo)
        s.nf = self.nf
        s.nobj = self.nobj
        s.result = self.result
        s.thrown = self.thrown
        s.steps = self.steps
        s.ghost = dict(self.ghost)
        s.loops = dict(self.loops)
        self.owner_tok = object()   # both sides now copy on write
        return s

    def become(self, s):
        """take over the contents of s (a successful clone)"""
        for a in ('frames', 'mem', 'pc', 'pcset', 'bounds', 'memo', 'nf', 'nobj', 'result', 'thrown', 'steps',
                  'ghost', 'loops', 'owner_tok'):
            setattr(self, a, getattr(s, a))

    # ---- names
    def fresh(self, tag, lo=None, hi=None):
        self.nf += 1
        return atom('%s#%d' % (tag, self.nf), lo, hi)

    # ---- intervals
    def _key(self, p):
        """(canonical linear part, scale, const): p = scale*key + const"""
        c = p.const()
        q = p - c if c else p
        g = T._content(q)
        m0 = min(q.t)
        if q.t[m0] < 0:
            g = -g
        if g != 1:
            q = Poly({m: k // g for m, k in q.t.items()})
        return q, g, c

    def ival(self, p):
        if isinstance(p, int):
            return p, p
        lo = hi = 0
        for m, c in p.t.items():
            x = (1, 1)
            for i in m:
                b = self.bounds.get(i)
                if b is None:
                    a = ATOMS[i]
                    b = (a.lo, a.hi)
                x = imul(x, b)
            x = iscale(x, c)
            lo = iadd(lo, x[0])
            hi = iadd(hi, x[1])
        if len(p.t) - (() in p.t) > 1 or (lo is None or hi is None):
            q, g, c = self._key(p)
            b = self.bounds.get(q)
            if b is not None:
                l2, h2 = iscale(b, g)
                l2 = iadd(l2, c)
                h2 = iadd(h2, c)
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
                if h2 is not None and (hi is None or h2 < hi):
                    hi = h2
        return lo, hi

    def _tighten(self, p, lo, hi):
        """record lo <= p <= hi"""
        q, g, c = self._key(p)
        if lo is not None:
            lo -= c
        if hi is not None:
            hi -= c
        if g < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            g = -g
        if lo is not None:
            lo = -((-lo) // g)
        if hi is not None:
            hi = hi // g
        a = q.single()
        k = q if a is None else a
        b = self.bounds.get(k)
        if b is None:
            if a is not None:
                b = (ATOMS[a].lo, ATOMS[a].hi)
            else:
                b = self.ival(q)
        if b[0] is not None and (lo is None or b[0] > lo):
            lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi):
            hi = b[1]
        self.bounds[k] = (lo, hi)
        if lo is not None and hi is not None and lo > hi:
            raise Dead()

    def quick(self, c):
        """True/False/None by intervals and syntactic membership only"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'and':
            r = True
            for x in c[1]:
                q = self.quick(x)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r if r else (True if c in self.pcset else None)
        if k == 'or':
            r = False
            for x in c[1]:
                q = self.quick(x)
                if q is True:
                    return True
                if q is None:
                    r = None
            if r is False:
                return False
            return True if c in self.pcset else None
        p = c[1]
        lo, hi = self.ival(p)
        if k == 'le':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            z = None
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                z = False
            elif lo == 0 and hi == 0:
                z = True
            if z is not None:
                return z if k == 'eq' else not z
        if c in self.pcset:
            return True
        if neg(c) in self.pcset:
            return False
        return None

    def assume(self, c):
        """add c to the path condition; raises Dead when plainly infeasible"""
        if c is True:
            return
        if c is False:
            raise Dead()
        if c[0] == 'and':
            for x in c[1]:
                self.assume(x)
            return
        q = self.quick(c)
        if q is False:
            raise Dead()
        if q is True and c[0] != 'or':
            return
        if c[0] == 'or':
            left = [x for x in c[1] if self.quick(x) is not False]
            if len(left) == 1:
                self.assume(left[0])
                return
        self.pc.append(c)
        self.pcset.add(c)
        if c[0] == 'le':
            self._tighten(c[1], None, 0)
        elif c[0] == 'eq':
            self._tighten(c[1], 0, 0)
        elif c[0] == 'ne':
            lo, hi = self.ival(c[1])
            if lo == 0:
                self._tighten(c[1], 1, None)
            elif hi == 0:
                self._tighten(c[1], None, -1)

    def entails(self, c, what='query'):
        q = self.quick(c)
        if q is not None:
            return q
        return self.ex.ctx.check(self.pc, [neg(c)], what=what) == 'unsat'

    def feasible(self, c=True):
        q = self.quick(c)
        if q is False:
            return False
        return self.ex.ctx.check(self.pc, [] if c is True else [c]) != 'unsat'

    def decide(self, c):
        q = self.quick(c)
        if q is not None:
            return q
        ctx = self.ex.ctx
        r1 = ctx.check(self.pc, [c])
        if r1 == 'unsat':
            self.assume(neg(c))
            return False
        r2 = ctx.check(self.pc, [neg(c)])
        if r2 == 'unsat':
            self.assume(c)
            return True
        raise Fork([c, neg(c)])

    def concretize(self, p, limit=80, what='value'):
        """the integer p equals on this path, forking over its feasible values"""
        if isinstance(p, int):
            return p
        lo, hi = self.ival(p)
        if lo is not None and lo == hi:
            return lo
        ctx = self.ex.ctx
        vals = []
        extra = []
        while True:
            r, m = ctx.check(self.pc, extra, want_model=True)
            if r == 'unsat':
                break
            if r == 'unknown':
                raise Unsupported('concretize: solver unknown')
            for i in p.atoms():
                if i not in m:
                    m[i] = ATOMS[i].lo if ATOMS[i].lo is not None else 0
            v = T.evalp(p, m)
            if v in vals or any(len(mm) > 1 for mm in p.t):
                raise Unsupported('concretize: no model value for ' + what)
            vals.append(v)
            extra.append(ne(p, v))
            if len(vals) > limit:
                raise Unsupported('too many values for ' + what)
        if not vals:
            raise Dead()
        if len(vals) == 1:
            self.assume(eq(p, vals[0]))
            return vals[0]
        vals.sort()
        raise Fork([eq(p, v) for v in vals])

    # ---- machine-integer views
    def _reduce(self, t, w):
        """drop multiples of 2^w from the coefficients"""
        M = 1 << w
        if isinstance(t, int):
            return t % M
        ch = False
        d = {}
        for m, c in t.t.items():
            if m and abs(c) >= M:
                ch = True
                c %= M
                if c >= M // 2:
                    c -= M
                if not c:
                    continue
            d[m] = c
        return T.norm(d) if ch else t

    def _wrap(self, t, w, base):
        """the representative of t mod 2^w in [base, base+2^w)"""
        M = 1 << w
        if isinstance(t, int):
            return (t - base) % M + base
        lo, hi = self.ival(t)
        if lo is not None and hi is not None and lo >= base and hi < base + M:
            return t
        k = ('w', t, w, base)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._wrap0(t, w, base, M)
        self.memo[k] = r
        return r

    def _wrap0(self, t, w, base, M):
        t = self._reduce(t, w)
        if isinstance(t, int):
            return (t - base) % M + base
        lo, hi = self.ival(t)
        if lo is not None and hi is not None:
            a, b = (lo - base) // M, (hi - base) // M
            if a == b:
                return t - a * M
        # known in range by the path condition?
        if self.entails(conj(ge(t, base), lt(t, base + M)), 'wrap'):
            self._tighten(t, base, base + M - 1)
            return t
        if lo is not None and hi is not None and b - a <= 2:
            for q in range(a, b):
                # t < base + (q+1)*M ?
                if self.decide(lt(t, base + (q + 1) * M)):
                    return t - q * M
            return t - b * M
        q, r = self.divdef(t - base, M)
        return r + base

    def uns(self, t, w):
        if t.__class__ is bool or t.__class__ is tuple:
            return self.b2i(t)
        if t is UNDEF:
            self.ex.obligation(self, False, 'undefined-value', 'undefined value used')
            raise Dead()
        if not isinstance(t, (int, Poly)):
            self._notint(t)
        return self._wrap(t, w, 0)

    def sgn(self, t, w):
        if t.__class__ is bool or t.__class__ is tuple:
            return -self.b2i(t)
        if t is UNDEF:
            self.ex.obligation(self, False, 'undefined-value', 'undefined value used')
            raise Dead()
        if not isinstance(t, (int, Poly)):
            self._notint(t)
        return self._wrap(t, w, -(1 << (w - 1)))

    def _notint(self, t):
        if isinstance(t, Pieces) and any(b is None or b is UNDEF for b in t.bs):
            self.ex.obligation(self, False, 'uninitialised', 'uninitialised bytes used')
            raise Dead()
        raise Unsupported('integer expected, got %r' % (t,))

    def b2i(self, c):
        if c is True:
            return 1
        if c is False:
            return 0
        return 1 if self.decide(c) else 0

    def divdef(self, t, c):
        """(floor(t/c), t mod c) for a constant c>0, by definition atoms"""
        if isinstance(t, int):
            return t // c, t % c
        if c == 1:
            return t, 0
        # split t = c*A + R
        A = {}
        R = {}
        for m, k in t.t.items():
            if m and k % c == 0:
                A[m] = k // c
            else:
                R[m] = k
        R = T.norm(R)
        A = T.norm(A)
        if isinstance(R, int):
            return A + R // c, R % c
        k0 = R.const()
        if k0 // c:
            A = A + k0 // c
            R = R - (k0 // c) * c
        lo, hi = self.ival(R)
        if lo is not None and hi is not None and lo // c == hi // c:
            return A + lo // c, R - (lo // c) * c
        # floor(R/c) where g | all coefs and c, const aside
        g = T._content(R)
        from math import gcd
        gg = gcd(g, c)
        if gg > 1:
            k0 = R.const()
            r0 = k0 % gg
            R2 = T.norm({m: (k if m else k - r0) // gg for m, k in R.t.items() if (k if m else k - r0)})
            q, r = self.divdef(R2, c // gg)
            return A + q, r * gg + r0
        # R = g*U + W with g | c and 0 <= W < g: the low part W does not matter for the quotient
        for g in sorted({gcd(k, c) for m, k in R.t.items() if m}, reverse=True):
            if g == 1:
                break
            W = T.norm({m: (k if m else k % g) for m, k in R.t.items() if not m or k % g})
            wl, wh = self.ival(W)
            if wl is not None and wh is not None and wl >= 0 and wh < g:
                U = T.norm({m: k // g for m, k in R.t.items() if k // g and (not m or not k % g)})
                q, r = self.divdef(U, c // g)
                return A + q, r * g + W
        from solver import static_ival
        slo, shi = static_ival(R)
        nm = 'div(%s,%d)' % (R, c)
        q = atom('q' + nm, None if slo is None else slo // c, None if shi is None else shi // c)
        qa = ATOMS[q.single()]
        r = R - q * c
        if not qa.defs:
            qa.defs = (ge(r, 0), lt(r, c))
            qa.info = ('div', R, c)
        # bounds known on this path
        self._tighten(q, None if lo is None else lo // c, None if hi is None else hi // c)
        self._tighten(r, 0, c - 1)
        return A + q, r

    # ---- memory
    def new_obj(self, name, size, kind, writable=True):
        self.nobj += 1
        oid = '%s@%d' % (name, self.nobj)
        o = Obj(oid, name, size, kind, self.owner_tok, writable)
        self.mem[oid] = o
        return o

    def obj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            o = self.ex.global_obj(oid)
            if o is None:
                raise Unsupported('unknown object %s' % oid)
        return o

    def wobj(self, oid):
        o = self.obj(oid)
        if o.owner is not self.owner_tok:
            o = o.clone(self.owner_tok)
            self.mem[oid] = o
        return o
