"""lexi::detail::BigInteger: symbolic limb arrays, specification sequences, loop invariants
(Houdini over templates) and contracts.

An operation on limbs is specified elementwise by a carry sequence K and a result sequence R with
    R(j) + B*K(j+1) = c*A(j) + K(j),  0 <= R(j) < B = 2^64,
which determines R and K and (lemma/bigint) makes sum R(j)B^j + K(n)B^n = c * sum A(j)B^j + K(0).
Operations that only call other operations are specified on the value itself."""
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj, implies
import term as T
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, UNDEF
import symex
from symex import THROW, INLINE
import loops
from loops import explore, Dry, loops_of
import models
from contracts import Contract, CONTRACTS, post, Missing

B = 1 << 64
CLS = 'class.lexi::detail::BigInteger'
Q = 'lexi::detail::BigInteger::'


class Layout:
    pass


def layout(ex):
    r = getattr(ex, 'big_layout', None)
    if r is not None:
        return r
    for m in ex.prog.mods.values():
        if CLS in m.types:
            t = m.resolve(('named', CLS)) if False else m.types[CLS]
            t = m.resolve(t)
            L = Layout()
            if t[0] != 'struct':
                raise Unsupported('BigInteger layout')
            arr = cnt = None
            for i, e in enumerate(t[1]):
                fo, ft = m.field_off(t, i)
                ft = m.resolve(ft)
                if ft[0] == 'array' and m.resolve(ft[2]) == ('i', 64) and arr is None:
                    arr = (fo, ft[1])
                elif ft == ('i', 64) and cnt is None:
                    cnt = fo
                else:
                    raise Unsupported('BigInteger layout')
            if arr is None or cnt is None:
                raise Unsupported('BigInteger layout')
            L.lo, L.cap, L.cnt, L.size = arr[0], arr[1], cnt, m.size(t)
            L.hi = L.lo + 8 * L.cap
            ex.big_layout = L
            return L
    raise Missing('BigInteger')


def canon(st, i):
    if isinstance(i, Poly):
        lo, hi = st.ival(i)
        if lo is not None and lo == hi:
            return lo
    return i


def possibly(st, c):
    return st.quick(c) is not False


# ---------------------------------------------------------------- sequences
class Seq:
    """a sequence of integers indexed by terms; elements are atoms, congruence by Ackermann"""

    def __init__(self, name, lo, hi):
        self.name = name
        self.lo = lo
        self.hi = hi

    def make(self, i):
        return atom('%s[%s]' % (self.name, i), self.lo, self.hi)

    def at(self, st, i):
        i = canon(st, i)
        if i.__class__ is bool:
            i = int(i)
        key = ('idx', self.name)
        known = st.ghost.get(key, ())
        if i in known:
            return self.make(i)
        t = self.make(i)
        cong = []
        for j in known:
            c = eq(i, j)
            q = st.quick(c)
            if q is False:
                continue
            if q is True:
                return self.make(j)
            cong.append(disj(neg(c), eq(t, self.make(j))))
        st.ghost[key] = known + (i,)
        for c in cong:
            st.assume(c)
        self.axioms(st, i, t)
        return t

    def axioms(self, st, i, t):
        pass


class Arr(Seq):
    """the limbs of an operand"""

    def __init__(self, name, n, halves=False):
        Seq.__init__(self, name, 0, B - 1)
        self.n = n
        self.halves = halves
        self.specs = []
        self.pair = None        # (other Arr, D): equal at every index above D, both below n

    def make(self, i):
        if self.halves:
            return atom('%s.hi[%s]' % (self.name, i), 0, 2**32 - 1) * 2**32 + atom('%s.lo[%s]' % (self.name, i), 0, 2**32 - 1)
        return atom('%s[%s]' % (self.name, i), 0, B - 1)

    def axioms(self, st, i, t):
        if self.pair is not None:
            o, D = self.pair
            st.assume(disj(le(i, D), eq(t, o.at(st, i))))
        for s in self.specs:
            s.step(st, i)


class Carry:
    """R(j) + B*K(j+1) = c*A(j) + K(j); K(0) = K0"""

    def __init__(self, A, c, K0, kmax, cap, absorbing=False):
        self.A = A
        self.c = c
        self.K0 = K0
        self.kmax = kmax            # K(j) <= kmax for j >= 1 (a term)
        self.absorbing = absorbing
        self.R_ = Seq('R', 0, B - 1)
        self.K_ = Seq('K', 0, cap)
        A.specs.append(self)

    def K(self, st, i):
        i = canon(st, i)
        if isinstance(i, int) and i == 0:
            return self.K0
        known = st.ghost.get(('idx', 'K'), ())
        new = i not in known
        t = self.K_.at(st, i)
        if new and t.single() is not None and ATOMS[t.single()].name.startswith('K['):
            st.assume(disj(ne(i, 0), eq(t, self.K0)))
            st.assume(disj(le(i, 0), le(t, self.kmax)))
            if self.absorbing:
                for j in known + (0,):
                    tj = self.K0 if j == 0 else self.K_.make(j)
                    for x, tx, y, ty in ((i, t, j, tj), (j, tj, i, t)):
                        c = disj(ne(tx, 0), gt(x, y), eq(ty, 0))
                        if st.quick(c) is not True:
                            st.assume(c)
        return t

    def R(self, st, i):
        self.step(st, i)
        return self.R_.at(st, i)

    def step(self, st, i):
        i = canon(st, i)
        key = ('step', i)
        if st.ghost.get(key):
            return
        if st.entails(ge(i, 0)) is not True:
            return
        st.ghost[key] = True
        a = self.A.at(st, i)
        r = self.R_.at(st, i)
        k, k1 = self.K(st, i), self.K(st, i + 1)
        st.assume(eq(r + k1 * B, a * self.c + k))
        if isinstance(self.c, Poly):
            # facts of multiplication the linear back end does not know
            st.assume(disj(ne(a, 1), eq(a * self.c, self.c)))
            st.assume(disj(ne(a, 0), eq(a * self.c, 0)))
            st.assume(disj(eq(a, 0), ge(a * self.c, self.c)))


class Shift(Carry):
    """the carries of a multiplication by c = 2^r, solved: K(j+1) = A(j) div 2^(64-r), R(j) = c*(A(j) mod 2^(64-r)) + K(j)"""

    def step(self, st, i):
        i = canon(st, i)
        key = ('step', i)
        if st.ghost.get(key):
            return
        if st.entails(ge(i, 0)) is not True:
            return
        st.ghost[key] = True
        q, r = st.divdef(self.A.at(st, i), B // self.c)
        st.assume(eq(self.K(st, i + 1), q))
        st.assume(eq(self.R_.at(st, i), r * self.c + self.K(st, i)))


class Borrow:
    """R(j) - B*K(j+1) = a(j) - b(j) - K(j), b(j) = 0 from nb on; K(0) = 0; top = highest j with R(j) != 0"""

    def __init__(self, a, na, b, nb, top):
        self.a, self.na, self.b, self.nb, self.top = a, na, b, nb, top
        self.R_ = Seq('R', 0, B - 1)
        self.K_ = Seq('K', 0, 1)
        a.specs.append(self)
        b.specs.append(self)

    def K(self, st, i):
        i = canon(st, i)
        if isinstance(i, int) and i == 0:
            return 0
        known = st.ghost.get(('idx', 'K'), ())
        t = self.K_.at(st, i)
        if i not in known:
            st.assume(disj(ne(i, 0), eq(t, 0)))
        return t

    def R(self, st, i):
        self.step(st, i)
        return self.R_.at(st, i)

    def step(self, st, i):
        i = canon(st, i)
        key = ('step', i)
        if st.ghost.get(key):
            return
        if st.entails(ge(i, 0)) is not True:
            return
        st.ghost[key] = True
        a, b = self.a.at(st, i), self.b.at(st, i)
        r = self.R_.at(st, i)
        k, k1 = self.K(st, i), self.K(st, i + 1)
        st.assume(disj(ge(i, self.nb), eq(r - k1 * B, a - b - k)))
        st.assume(disj(lt(i, self.nb), eq(r - k1 * B, a - k)))
        st.assume(disj(le(i, self.top), ge(i, self.na), eq(r, 0)))
        st.assume(disj(ne(i, self.top), ge(r, 1)))


# ---------------------------------------------------------------- limb arrays in memory
class Limbs:
    """contents of the limb array: a log of writes over an initial sequence"""

    def __init__(self, L, log=()):
        self.L = L
        self.log = tuple(log)

    def plus(self, *e):
        return Limbs(self.L, self.log + e)

    # -- index of a byte offset
    def index(self, ex, st, off, size, what):
        L = self.L
        if isinstance(off, int):
            if size != 8 or (off - L.lo) % 8:
                raise Unsupported('partial access to limbs')
            return (off - L.lo) // 8
        ex.obligation(st, conj(ge(off, L.lo), le(off + size, L.hi)), 'memory', '%s within the limb array' % what)
        d = off - L.lo
        if size != 8:
            raise Unsupported('partial access to limbs')
        if isinstance(d, int):
            return d // 8
        if any(c % 8 for c in d.t.values()):
            raise Unsupported('misaligned access to limbs')
        return T.norm({m: c // 8 for m, c in d.t.items()})

    def load(self, ex, st, o, off, size):
        if isinstance(off, int) and not (self.L.lo <= off < self.L.hi):
            return NotImplemented
        return self.read(ex, st, self.index(ex, st, off, size, 'read'))

    def store(self, ex, st, o, off, size, v):
        if isinstance(off, int) and not (self.L.lo <= off < self.L.hi):
            return NotImplemented
        i = self.index(ex, st, off, size, 'write')
        v = st.uns(v, 64)
        w = st.wobj(o.id)
        w.data = w.data.plus(('pt', i, v))

    def read(self, ex, st, i):
        i = canon(st, i)
        for e in reversed(self.log):
            k = e[0]
            if k == 'pt':
                if e[1] == i:
                    return e[2]
                if st.decide(eq(i, e[1])):
                    return e[2]
                continue
            lo, hi = e[1], e[2]
            if not st.decide(conj(ge(i, lo), lt(i, hi))):
                continue
            if k == 'fill':
                return e[3]
            if k == 'copy':
                return e[3].read(ex, st, i - e[4])
            if k == 'seq':
                return e[3](st, i - e[4])
            raise AssertionError(k)
        ex.fail(st, 'uninitialised', 'read of limb %s, which was never written' % (i,))

    # -- bulk operations
    def span(self, ex, st, p, n, what):
        """(first limb, number of limbs) of n bytes at p"""
        L = self.L
        ex.obligation(st, conj(ge(p.off, L.lo), le(p.off + n, L.hi)), 'memory', '%s within the limb array' % what)
        for x in (p.off - L.lo, n):
            if isinstance(x, int):
                if x % 8:
                    raise Unsupported('partial limbs')
            elif any(c % 8 for c in x.t.values()):
                raise Unsupported('partial limbs')

        def d8(x):
            return x // 8 if isinstance(x, int) else T.norm({m: c // 8 for m, c in x.t.items()})
        return d8(p.off - L.lo), d8(n)

    def copy_sym(self, ex, st, dst, src, n):
        return bulk_copy(ex, st, self.L, dst, src, n)

    def copy(self, ex, st, do, doff, so, soff, n):
        return bulk_copy(ex, st, self.L, Ptr(do.id, doff), Ptr(so.id, soff), n)

    def set_sym(self, ex, st, p, v, n):
        if isinstance(n, int) and n == 0:
            return p
        if isinstance(p.off, int) and p.off >= self.L.hi:
            return NotImplemented
        v = st.uns(v, 8)
        if not isinstance(v, int):
            raise Unsupported('fill with a symbolic byte')
        o = st.obj(p.obj)
        ex.check_frame(st, o, p.off, 8)
        # a fill of no bytes touches nothing
        i, k = self.span(ex, st, p, n, 'fill')
        w = st.wobj(p.obj)
        w.data = w.data.plus(('fill', i, i + k, v * (B - 1) // 255))
        return p

    def cmp_sym(self, ex, st, p, q, n):
        oq = st.obj(q.obj)
        if not isinstance(oq.data, Limbs):
            raise Unsupported('comparison of limbs with other bytes')
        i, k = self.span(ex, st, p, n, 'read')
        j, _ = oq.data.span(ex, st, q, n, 'read')
        ap, aq = self, oq.data
        for d, x in ((ap, i), (aq, j)):
            # every byte read is initialised: checked at an arbitrary limb below
            pass
        e = st.fresh('same', 0, 1)
        if st.decide(eq(e, 1)):
            # equal throughout: instantiated where the specification needs it
            for x in getattr(ex, 'big_points', []):
                if st.entails(conj(ge(x, i), lt(x, i + k))) is True:
                    u = ap.read(ex, st, x)
                    v = aq.read(ex, st, x - i + j)
                    st.assume(eq(u, v))
            w = st.fresh('limb', 0, self.L.cap)
            st2 = st.clone()
            try:
                st2.assume(conj(ge(w, 0), lt(w, k)))
                ap.read(ex, st2, w + i)
                aq.read(ex, st2, w + j)
            except Dead:
                pass
            return 0
        w = st.fresh('limb', 0, self.L.cap)
        st.assume(conj(ge(w, 0), lt(w, k)))
        u = ap.read(ex, st, w + i)
        v = aq.read(ex, st, w + j)
        st.assume(ne(u, v))
        r = st.fresh('order', -1, 1)
        st.assume(ne(r, 0))
        return r


def limbs_of(ex, st, p):
    """the limb log of the object p points to, attached on first use"""
    o = st.obj(p.obj)
    if isinstance(o.data, Limbs):
        return o.data
    if isinstance(o.data, AbsVal):
        open_value(ex, st, p.obj)
        return st.obj(p.obj).data
    L = layout(ex)
    if o.data is not None or o.size != L.size:
        return None
    w = st.wobj(p.obj)
    log = []
    for k in sorted(k for k in w.cells if isinstance(k, int) and L.lo <= k < L.hi):
        s, v = w.cells.pop(k)
        if s != 8 or (k - L.lo) % 8:
            raise Unsupported('partial limbs')
        log.append(('pt', (k - L.lo) // 8, v))
    w.data = Limbs(L, log)
    return w.data


def bulk_copy(ex, st, L, dst, src, n):
    ld, ls = limbs_of(ex, st, dst), limbs_of(ex, st, src)
    if ld is None or ls is None:
        raise Unsupported('copy between limbs and other bytes')
    do, so = st.obj(dst.obj), st.obj(src.obj)
    if isinstance(n, int) and n == 0:
        return dst
    ex.check_frame(st, do, dst.off, 8)
    if isinstance(n, int) and n == L.size and dst.off == 0 and src.off == 0:
        c = so.cells.get(L.cnt)
        w = st.wobj(dst.obj)
        if c is not None:
            w.cells[L.cnt] = c
        w.data = w.data.plus(('copy', 0, L.cap, ls, 0))
        return dst
    if isinstance(n, int) and isinstance(dst.off, int) and dst.off == L.cnt:
        return NotImplemented
    i, k = ld.span(ex, st, dst, n, 'copy into')
    j, _ = ls.span(ex, st, src, n, 'copy from')
    w = st.wobj(dst.obj)
    w.data = w.data.plus(('copy', i, i + k, ls, i - j))
    return dst


# ---------------------------------------------------------------- values (operations above the limbs)
class AbsVal:
    """a BigInteger known by its value: cells['V']"""

    def __init__(self, L):
        self.L = L

    def load(self, ex, st, o, off, size):
        open_value(ex, st, o.id)
        o = st.obj(o.id)
        r = o.data.load(ex, st, o, off, size)
        return ex.raw_load(st, o, off, size) if r is NotImplemented else r

    def store(self, ex, st, o, off, size, v):
        open_value(ex, st, o.id)
        o = st.obj(o.id)
        return o.data.store(ex, st, o, off, size, v)

    def copy_sym(self, ex, st, dst, src, n):
        return bulk_copy(ex, st, self.L, dst, src, n)

    def copy(self, ex, st, do, doff, so, soff, n):
        return bulk_copy(ex, st, self.L, Ptr(do.id, doff), Ptr(so.id, soff), n)


def open_value(ex, st, oid):
    """limbs of an object known by its value"""
    w = st.wobj(oid)
    L = w.data.L
    V = w.cells.pop('V')[1]
    n = st.fresh('cnt', 1, L.cap)
    st.nf += 1
    A = Arr('D%d' % st.nf, n)
    d0 = A.at(st, 0)
    st.assume(disj(ge(n, 2), eq(V, d0)))
    st.assume(disj(eq(n, 1), ge(V, B)))
    w.cells[L.cnt] = (8, n)
    w.data = Limbs(L, [('seq', 0, n, A.at, 0)])


def value_of(ex, st, p):
    o = st.obj(p.obj)
    if isinstance(o.data, AbsVal):
        return o.cells['V'][1]
    ls = limbs_of(ex, st, p)
    if ls is None:
        raise Unsupported('not a BigInteger')
    c = st.obj(p.obj).cells.get(ls.L.cnt)
    if c is None:
        ex.fail(st, 'uninitialised', 'the limb count was never set')
    n = st.concretize(st.uns(c[1], 64), 4, 'limb count')
    V = 0
    for i in range(n):
        V = V + st.uns(ls.read(ex, st, i), 64) * B**i
    return V


def set_value(ex, st, p, V):
    w = st.wobj(p.obj)
    for k in [k for k in w.cells]:
        del w.cells[k]
    w.cells['V'] = (8, V)
    w.data = AbsVal(layout(ex))


CAPV = None


def capv():
    """2^(64*capacity), of which only that it exceeds every single limb matters"""
    return atom('CAPACITY', B, None)


def p5(st, e):
    """5^e"""
    e = canon(st, e)
    if isinstance(e, int):
        return 5**e
    k = st.ghost.get('p5', ())
    if e not in k:
        st.ghost['p5'] = k + (e,)
    return atom('pow5[%s]' % e, 1, None)


def p5_lemmas(st, V):
    """instances of 5^e = 5^L * 5^(e-L), 5^e >= 1, multiplied by the value V >= 0"""
    for L in st.ghost.get('mul5', ()):
        for e in st.ghost.get('p5', ()):
            if st.entails(ge(e, L)) is True:
                st.assume(eq(V * p5(st, e), V * p5(st, e - L) * 5**L))
                st.assume(ge(V * p5(st, e - L), V))
    ks = [e for e in st.ghost.get('p5', ()) if isinstance(e, Poly)]
    for i, e in enumerate(ks):
        for d in ks[:i]:
            if st.entails(eq(e, d)) is True:
                st.assume(eq(V * p5(st, e), V * p5(st, d)))
    for e in st.ghost.get('p5', ()):
        lo, hi = st.ival(e)
        k = None
        if lo is not None and lo == hi:
            k = lo
        elif lo is not None and hi is not None and hi - lo < 64:
            for x in range(lo, hi + 1):
                if st.entails(eq(e, x)) is True:
                    k = x
        if k is not None:
            st.assume(eq(V * atom('pow5[%s]' % e, 1, None), V * 5**k))


def tdec(ex, st, i):
    """the number the first i characters of the text denote"""
    i = canon(st, i)
    if isinstance(i, int) and i == 0:
        return 0
    return ex.big_T.at(st, i)


def oflow(ex, st, p, V, prop=None):
    """store V, or throw because it cannot be stored"""
    if st.decide(lt(V, capv())):
        set_value(ex, st, p, V)
        return None
    set_value(ex, st, p, st.fresh('V', 0, None))
    return models.throw_std(ex, st, '_ZTISt13runtime_error')


class BigContract(Contract):
    def __init__(self, sig, f):
        self.name = Q + sig
        self.f = f

    def usable(self, ex, fn):
        return fn is not None and ex.top != self.name and getattr(ex, 'big_value', False)

    def apply(self, ex, st, args, ins):
        p = args[0]
        if not isinstance(p, Ptr) or p.obj is None:
            return INLINE
        return self.f(ex, st, p, args)


def c_mul(w):
    def f(ex, st, p, a):
        m = st.uns(a[1], w)
        V = value_of(ex, st, p)
        if isinstance(m, int) and m > 1:
            k, L = m, 0
            while k % 5 == 0:
                k //= 5
                L += 1
            if k == 1:
                st.ghost['mul5'] = st.ghost.get('mul5', ()) + (L,)
                st.ghost['mulV'] = V
        r = oflow(ex, st, p, V * m)
        return p if r is None else r
    return f


def c_add(ex, st, p, a):
    r = oflow(ex, st, p, value_of(ex, st, p) + st.uns(a[1], 64))
    return p if r is None else r


def c_shl(ex, st, p, a):
    k = canon(st, st.uns(a[1], 64))
    if not isinstance(k, int):
        k = st.concretize(k, 64, 'shift')
    V = value_of(ex, st, p)
    if k > 4096:
        raise Unsupported('large shift')
    r = oflow(ex, st, p, V * 2**k)
    return p if r is None else r


def c_set(ex, st, p, a):
    set_value(ex, st, p, st.uns(a[1], 64))
    return p


def c_zero(ex, st, p, a):
    return eq(value_of(ex, st, p), 0)


def c_eqw(ex, st, p, a):
    return eq(value_of(ex, st, p), st.uns(a[1], 64))


def c_pow5(ex, st, p, a):
    e = canon(st, st.uns(a[1], 32))
    if not isinstance(e, int):
        e = st.concretize(e, 64, 'exponent')
    r = oflow(ex, st, p, value_of(ex, st, p) * 5**e)
    return p if r is None else r


def block(ex, st, first, last):
    """(start, length) of a range of the text, both obligations checked"""
    T_ = getattr(ex, 'big_text', None)
    if T_ is None or not isinstance(first, Ptr) or not isinstance(last, Ptr) or first.obj != T_ or last.obj != T_:
        return None
    n = canon(st, last.off - first.off)
    if not isinstance(n, int):
        n = st.concretize(n, 64, 'block length')
    if n > 19 or n < 0:
        return None
    if n:
        ex.access(st, Ptr(first.obj, first.off), n, 'read')
    return first.off, n


def blk(st, i, n):
    """the number that characters i .. i+n-1 denote"""
    if n == 0:
        return 0
    return atom('block[%s,%d]' % (canon(st, i), n), 0, 10**n - 1)


class DigitText:
    """a text of decimal digits; reading a character states what the prefix up to it denotes"""

    def load(self, ex, st, o, off, size):
        if size != 1:
            raise Unsupported('wide load from the text')
        off = canon(st, off)
        c = atom('char[%s]' % off, 48, 57)
        if getattr(ex, 'big_T', None) is not None:
            st.assume(eq(tdec(ex, st, off + 1), tdec(ex, st, off) * 10 + c - 48))
        return c

    def store(self, *a):
        raise Unsupported('store into the text')

    def copy(self, *a):
        raise Unsupported('copy of the text')


def c_parse(ex, st, args):
    b = block(ex, st, args[0], args[1])
    if b is None:
        return INLINE
    i, n = b
    x = blk(st, i, n)
    if getattr(ex, 'big_T', None) is not None and n:
        st.ghost['blks'] = st.ghost.get('blks', ()) + (n,)
        st.assume(eq(tdec(ex, st, i + n), tdec(ex, st, i) * 10**n + x))      # definition of the number the text denotes
    return x


def c_addblk(ex, st, p, a):
    b = block(ex, st, a[1], a[2])
    if b is None or getattr(ex, 'big_T', None) is None:
        return INLINE
    i, n = b
    st.ghost['blks'] = st.ghost.get('blks', ()) + (n,)
    V = value_of(ex, st, p)
    x = blk(st, i, n)
    st.assume(eq(tdec(ex, st, i + n), tdec(ex, st, i) * 10**n + x))      # definition of the number the text denotes
    return oflow(ex, st, p, V * 10**n + x)


class ParseContract(BigContract):
    def apply(self, ex, st, args, ins):
        return c_parse(ex, st, args)


for sig, f in (('operator*=(unsigned long)', c_mul(64)), ('operator*=(unsigned int)', c_mul(32)),
               ('operator+=(unsigned long)', c_add), ('operator<<=(unsigned long)', c_shl),
               ('operator=(unsigned long)', c_set), ('isZero() const', c_zero), ('operator==(unsigned long) const', c_eqw),
               ('mulPow5(unsigned int)', c_pow5), ('add(char const*, char const*)', c_addblk)):
    CONTRACTS[Q + sig] = BigContract(sig, f)
CONTRACTS[Q + 'parse(char const*, char const*)'] = ParseContract('parse(char const*, char const*)', None)


# ---------------------------------------------------------------- loop rule
class NoExit(Unsupported):
    pass


class BigRule:
    """invariants: counters move by constants; written stretches of limb arrays hold a specification
    sequence; scalars equal an element of a specification sequence; linear bounds on the counters.
    Candidates that do not hold on entry or are not preserved are dropped (Houdini)."""

    def __call__(self, ex, st, fr, label):
        fn = fr.fn
        ls = loops_of(fn)
        if label not in ls:
            return None
        try:
            return self.apply(ex, st, fn, label, ls)
        except NoExit as e:
            return None         # a round at least is certain: run it and look again

    def apply(self, ex, st, fn, label, ls):
        depth = len(st.frames)
        key = (depth, fn.name, label)
        act = st.ghost.get('active', frozenset())
        if key in act:
            return None
        body = ls[label]
        s0 = st.clone()
        s0.ghost['active'] = act | {key}
        s0.ghost['abs'] = True
        self.valued = getattr(ex, 'big_value', False)
        if self.valued:
            for oid, o in list(s0.mem.items()):
                if isinstance(o.data, Limbs) and isinstance(o.cells.get(o.data.L.cnt, (8, None))[1], int):
                    set_value(ex, s0, Ptr(oid, 0), value_of(ex, s0, Ptr(oid, 0)))
        with Dry(ex):
            backs, exits = explore(ex, s0.clone(), depth, label, body)
        backs = [b for b in backs if b.feasible()]
        exits = [b for b in exits if b.feasible()]
        if not backs:
            return None
        if self.valued and self.few(ex, backs, depth, label, body):
            return None         # run them
        Un = Unsupported if exits else NoExit
        # --- what changes, and how
        try:
            cls = {}
            regions = {}        # oid -> [(p0, d)]
            self.consts = {}
            si = s0
            t = None
            for attempt in range(8):
                grew = self.observe(s0, si, backs, cls)
                grew |= self.observe_arrays(ex, s0, si, backs, regions, t)
                if attempt > 0 and not grew:
                    break
                si, t = self.induct(ex, s0, cls, regions, None)
                with Dry(ex):
                    backs, _ = explore(ex, si.clone(), depth, label, body)
                backs = [b for b in backs if b.feasible()]
            else:
                raise Unsupported('loop classification does not settle')
            n5 = len(s0.ghost.get('mul5', ()))
            nk = len(s0.ghost.get('blks', ()))
            self.blocks = sorted({sum(b.ghost.get('blks', ())[nk:]) for b in backs} - {0})[-1:]
            self.fives = sorted({sum(b.ghost.get('mul5', ())[n5:]) for b in backs} - {0})[:2]
            # --- candidates
            contents = [None]
            rl = [(o, k) for o in regions for k in range(len(regions[o]))]
            if rl:
                import itertools
                opts = [self.contents(ex, s0, cls, regions[o][k], o) for o, k in rl]
                contents = [dict(zip(rl, c)) for c in itertools.islice(itertools.product(*opts), 40)] + [None]
            best = None
            for con in contents:
                r = self.houdini(ex, s0, cls, regions, con, depth, label, body)
                if r is not None:
                    best = r
                    break
            if best is None:
                raise Unsupported('no inductive invariant found')
            si, cands = best
        except NoExit:
            raise
        except Unsupported as e:
            raise Un(*e.args)
        # --- recorded
        backs, exits = explore(ex, si.clone(), depth, label, body)
        for b in backs:
            if not b.feasible():
                continue
            for txt, f in cands:
                def chk(s, txt=txt, f=f):
                    c = f(s)
                    if c is not True:
                        ex.obligation(s, c, 'invariant', txt)
                ex.with_forks(b, chk)
        out = []
        for s in exits:
            s.ghost['active'] = act
            out.append(s)
        ex.loop_invariants = getattr(ex, 'loop_invariants', 0) + len(cands)
        if not out:
            raise Dead()
        return out

    def few(self, ex, backs, depth, label, body):
        """are there only a few rounds, whatever the input?"""
        for k in range(24):
            if len(backs) != 1:
                return False
            with Dry(ex):
                backs, _ = explore(ex, backs[0].clone(), depth, label, body)
            backs = [b for b in backs if b.feasible()]
            if not backs:
                return True
        return False

    # -- classification of scalar cells
    def observe(self, s0, si, backs, cls):
        ch = set()
        for b in backs:
            ch |= loops.changed(si, b)
        grew = False
        for ok in ch:
            if cls.get(ok, (None,))[0] in ('havoc', 'drop'):
                continue
            c0 = s0.obj(ok[0]).cells.get(ok[1])
            if c0 is None:
                if ok not in cls:
                    cls[ok] = ('drop',)
                    grew = True
                continue
            new = self.classify(si, backs, ok, c0)
            if ok in cls and cls[ok] != new:
                new = self.havoc(c0)
            if cls.get(ok) != new:
                cls[ok] = new
                grew = True
        return grew

    def havoc(self, c0):
        if isinstance(c0[1], (int, Poly)) or (self.valued and isinstance(c0[1], Ptr) and c0[1].obj is not None):
            return ('havoc', c0[0])
        raise Unsupported('loop changes a %s in an unrecognised way' % type(c0[1]).__name__)

    def classify(self, base, backs, ok, c0):
        v0 = base.obj(ok[0]).cells.get(ok[1])
        if v0 is None or ok[1] == 'V':
            return self.havoc(c0)
        v0 = v0[1]
        ds = set()
        for b in backs:
            c = b.obj(ok[0]).cells.get(ok[1])
            if c is None:
                return self.havoc(c0)
            v = c[1]
            if isinstance(v0, Ptr):
                if not isinstance(v, Ptr) or v.obj != v0.obj:
                    raise Unsupported('loop changes a pointer')
                d = v.off - v0.off
            elif isinstance(v0, (int, Poly)) and isinstance(v, (int, Poly)):
                d = v - v0
            else:
                return self.havoc(c0)
            if not isinstance(d, int):
                return self.havoc(c0)
            if not isinstance(v0, Ptr):
                W = 1 << (8 * c0[0])
                d = (d + W // 2) % W - W // 2
            ds.add(d)
        if len(ds) == 1:
            return ('aff', ds.pop())
        return self.havoc(c0)

    # -- limb arrays written
    def observe_arrays(self, ex, s0, si, backs, regions, t):
        grew = False
        for b in backs:
            for oid, o in b.mem.items():
                if not isinstance(o.data, Limbs):
                    continue
                o0 = si.mem.get(oid)
                if o0 is None or not isinstance(o0.data, Limbs):
                    raise Unsupported('limb array created in a loop')
                if o0.data is o.data:
                    continue
                n0 = len(o0.data.log)
                if o.data.log[:n0] != o0.data.log:
                    raise Unsupported('limb array rewritten in a loop')
                for e in o.data.log[n0:]:
                    if e[0] != 'pt':
                        raise Unsupported('bulk operation on limbs in a loop')
                    if t is None:
                        if oid not in regions:
                            regions[oid] = []
                            grew = True
                        continue
                    p = e[1]
                    ta = t.single()
                    lo, hi = b.ival(t)
                    if lo is not None and lo == hi:
                        continue        # a particular round: no pattern to be seen
                    d = p.t.get((ta,), 0) if isinstance(p, Poly) else 0
                    p0 = p - t * d
                    if d not in (1, -1):
                        raise Unsupported('limbs written in an unrecognised pattern: %s' % (p,))
                    if isinstance(p0, Poly) and any(ATOMS[a].name.startswith('any') for a in p0.atoms()):
                        raise Unsupported('limbs written in an unrecognised pattern')
                    if (p0, d) not in regions[oid]:
                        regions[oid].append((p0, d))
                        grew = True
                    v = canon(b, e[2])
                    if isinstance(v, int):
                        self.consts.setdefault((oid, p0, d), set()).add(v)
        return grew

    def stretch(self, p0, d, t):
        return (p0, p0 + t) if d == 1 else (p0 - t + 1, p0 + 1)

    def induct(self, ex, s0, cls, regions, con):
        si = s0.clone()
        t = si.fresh('round', 0, 1 << 62)
        for (oid, k), c in sorted(cls.items(), key=str):
            o = si.wobj(oid)
            if c[0] == 'drop':
                o.cells.pop(k, None)
                continue
            sz, v = o.cells[k]
            if c[0] == 'aff':
                o.cells[k] = (sz, Ptr(v.obj, v.off + t * c[1]) if isinstance(v, Ptr) else v + t * c[1])
            elif k == 'V':
                o.cells[k] = (sz, si.fresh('anyV', 0, None))
            elif isinstance(v, Ptr):
                o.cells[k] = (sz, Ptr(v.obj, si.fresh('any', 0, 1 << 62)))
            else:
                o.cells[k] = (sz, si.fresh('any', 0, (1 << (8 * sz)) - 1))
        for oid in regions:
            w = si.wobj(oid)
            for k, (p0, d) in enumerate(regions[oid]):
                lo, hi = self.stretch(p0, d, t)
                if con is not None and con.get((oid, k)) is not None:
                    seq, sh = con[(oid, k)]
                    w.data = w.data.plus(('seq', lo, hi, seq, sh))
                else:
                    si.nf += 1
                    w.data = w.data.plus(('seq', lo, hi, Seq('any%d' % si.nf, 0, B - 1).at, 0))
            if not regions[oid]:
                si.nf += 1
                w.data = w.data.plus(('seq', 0, w.data.L.cap, Seq('any%d' % si.nf, 0, B - 1).at, 0))
        return si, t

    @staticmethod
    def locals(s0, cls):
        """values of the integer variables of this call that the loop leaves alone"""
        out = []
        for a in s0.frames[-1].allocas:
            o = s0.mem.get(a)
            if o is None or (a, 0) in cls or 0 not in o.cells:
                continue
            sz, v = o.cells[0]
            if isinstance(v, Poly) and sz >= 4:
                v = s0.uns(v, 8 * sz)
                if v not in out:
                    out.append(v)
        return out

    # -- candidate invariants
    def counters(self, s0, cls):
        """counters and their steps; of a pointer into limbs, in limbs"""
        out = []
        for ok, c in sorted(cls.items(), key=str):
            if c[0] == 'aff':
                d = c[1]
                v = s0.obj(ok[0]).cells[ok[1]][1]
                if isinstance(v, Ptr) and v.obj is not None and isinstance(s0.obj(v.obj).data, Limbs):
                    if d % 8 or self.get(s0, ok) is None:
                        continue
                    d //= 8
                out.append((ok, d))
        return out

    @staticmethod
    def get(s, ok):
        v = s.obj(ok[0]).cells[ok[1]]
        v = v[1]
        if not isinstance(v, Ptr):
            return v
        if v.obj is not None and isinstance(s.obj(v.obj).data, Limbs):
            x = v.off - s.obj(v.obj).data.L.lo
            if isinstance(x, int):
                return x // 8 if x % 8 == 0 else None
            if any(c % 8 for c in x.t.values()):
                return None
            return T.norm({m: c // 8 for m, c in x.t.items()})
        return v.off

    @staticmethod
    def raw(s, ok):
        v = s.obj(ok[0]).cells[ok[1]][1]
        return v.off if isinstance(v, Ptr) else v

    def getu(self, s, ok):
        sz, v = s.obj(ok[0]).cells[ok[1]]
        if ok[1] == 'V':
            return v
        if isinstance(v, Ptr):
            return v.off
        return s.uns(v, 8 * sz)

    def contents(self, ex, s0, cls, region, oid):
        p0, d = region
        out = []
        for v in sorted(self.consts.get((oid, p0, d), ()))[:2]:
            out.append((lambda s, i, v=v: v, 0))
        shifts = [0]
        for ok, dd in self.counters(s0, cls):
            v0 = self.get(s0, ok)
            if dd == d and isinstance(v0, (int, Poly)):
                for e in (0, -1, 1):
                    sh = canon(s0, p0 - v0 - e)
                    if sh not in shifts:
                        shifts.append(sh)
        for nm, seq in ex.big_out:
            for sh in shifts:
                out.append((seq, sh))
        return out

    def candidates(self, ex, s0, cls):
        out = []
        g, gu = self.get, self.getu
        cnt = self.counters(s0, cls)
        if self.valued:
            # steps may vary
            cnt = cnt + [(ok, None) for ok, c in sorted(cls.items(), key=str) if c[0] == 'havoc' and ok[1] != 'V']
            bounds = list(ex.big_bounds)
            for v in self.locals(s0, cls):
                if all(v is not b and v != b for _, b in bounds):
                    bounds.append((str(v), v))
            bounds = bounds[:8]
        else:
            bounds = ex.big_bounds
        for ok, d in cnt:
            for nm, b in bounds:
                out.append(('%s <= %s' % (ok, nm), lambda s, ok=ok, b=b: le(g(s, ok), b)))
                out.append(('%s >= %s' % (ok, nm), lambda s, ok=ok, b=b: ge(g(s, ok), b)))
        for ok, c in sorted(cls.items(), key=str):
            if c[0] != 'havoc':
                continue
            if ok[1] == 'V':
                out.append(('the value fits', lambda s, ok=ok: lt(gu(s, ok), capv())))
                for nm, f in getattr(ex, 'big_values', []):
                    for ck, d in self.counters(s0, cls):
                        # so many fives in each round
                        c0 = g(s0, ck)
                        if d in (1, -1) and isinstance(c0, (int, Poly)):
                            for K in self.blocks:
                                out.append(('value: %s at %d*%s' % (nm, K, ck), lambda s, ok=ok, ck=ck, f=f, K=K, c0=c0, d=d: f(s, gu(s, ok), (g(s, ck) - c0) * (K * d))))
                            for K in self.fives:
                                for nb, base in bounds[1:]:
                                    out.append(('value: %s at %s - %d*%s' % (nm, nb, K, ck), lambda s, ok=ok, ck=ck, f=f, base=base, K=K, c0=c0, d=d: f(s, gu(s, ok), base - (g(s, ck) - c0) * (K * d))))
                    for ck, d in cnt:
                        out.append(('value: %s at %s' % (nm, ck), lambda s, ok=ok, ck=ck, f=f: f(s, gu(s, ok), g(s, ck))))
                continue
            out.append(('%s <= 1' % (ok,), lambda s, ok=ok: le(gu(s, ok), 1)))
            for nm, seq in ex.big_seqs:
                for ck, d in cnt:
                    if d is None or abs(d) != 1:
                        continue
                    for e in (0, -1, 1):
                        out.append(('%s = %s(%s%+d)' % (ok, nm, ck, e), lambda s, ok=ok, ck=ck, e=e, seq=seq: eq(gu(s, ok), seq(s, g(s, ck) + e))))
            for nm, b in getattr(ex, 'big_after', []):
                # once a counter has passed b the cell is b+1
                for ck, d in cnt:
                    out.append(('%s = %s+1 after it' % (ok, nm), lambda s, ok=ok, ck=ck, b=b: disj(le(g(s, ck), b), eq(gu(s, ok), b + 1))))
        return out

    def holds(self, ex, st, f):
        ok = [True]

        def chk(s):
            if not ok[0]:
                return
            try:
                c = f(s)
            except Unsupported:
                ok[0] = False
                return
            if s.entails(c) is not True:
                ok[0] = False
        with Dry(ex):
            ex.with_forks(st, chk)
        return ok[0]

    def houdini(self, ex, s0, cls, regions, con, depth, label, body):
        C = [c for c in self.candidates(ex, s0, cls) if self.holds(ex, s0, c[1])]
        for rnd in range(30):
            si, t = self.induct(ex, s0, cls, regions, con)
            try:
                for txt, f in C:
                    si.assume(f(si))
            except Fork:
                raise Unsupported('candidate needs a case split')
            with Dry(ex):
                backs, _ = explore(ex, si.clone(), depth, label, body)
            backs = [b for b in backs if b.feasible()]
            keep = [c for c in C if all(self.holds(ex, b, c[1]) for b in backs)]
            if len(keep) == len(C):
                break
            C = keep
        else:
            return None
        # counters and contents
        for ok, c in cls.items():
            if c[0] == 'havoc' and ok[1] != 'V':
                v0 = si.obj(ok[0]).cells[ok[1]][1]
                for b in backs:
                    v = b.obj(ok[0]).cells.get(ok[1], (0, None))[1]
                    if isinstance(v0, Ptr) != isinstance(v, Ptr) or isinstance(v, Ptr) and v.obj != v0.obj:
                        return None
            if c[0] != 'aff':
                continue
            v0 = self.raw(si, ok)
            W = 1 << (8 * si.obj(ok[0]).cells[ok[1]][0])
            for b in backs:
                d = self.raw(b, ok) - v0
                if not isinstance(d, int) or (d - c[1]) % W:
                    return None
        for oid in regions:
            d0 = si.obj(oid).data
            for b in backs:
                new = b.obj(oid).data.log[len(d0.log):]
                if len(new) != len(regions[oid]) and con is not None:
                    return None
                for k, (p0, d) in enumerate(regions[oid]):
                    m = [e for e in new if e[1] == p0 + t * d or b.entails(eq(e[1], p0 + t * d)) is True]
                    if len(m) != 1:
                        return None
                    if con is not None and con.get((oid, k)) is not None:
                        seq, sh = con[(oid, k)]
                        if not self.holds(ex, b, lambda s, m=m, seq=seq, sh=sh: eq(m[0][2], seq(s, m[0][1] - sh))):
                            return None
        cands = list(C)
        for oid in regions:
            for k, (p0, d) in enumerate(regions[oid]):
                if con is not None and con.get((oid, k)) is not None:
                    seq, sh = con[(oid, k)]

                    def f(s, oid=oid, n0=len(si.obj(oid).data.log), p=p0 + t * d, seq=seq, sh=sh):
                        m = [e for e in s.obj(oid).data.log[n0:] if e[1] == p or s.entails(eq(e[1], p)) is True]
                        return eq(m[0][2], seq(s, p - sh)) if m else False
                    cands.append(('limbs of %s written so far are the specified ones' % oid, f))
        return si, cands
