"""Contracts of the floating-point code: DiyFp arithmetic, cached powers, digit generation,
layout, and the text of a double as seen by its callers."""
from fractions import Fraction
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj
import term as T
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, F64, F32, FP, UNDEF
from contracts import Contract, CONTRACTS, INLINE, Missing, post, must_return, room, rd
import symex

NS = 'lexi::detail::'
INFB = 0x7FF << 52
H52, H53, H63, H64 = 1 << 52, 1 << 53, 1 << 63, 1 << 64
DIGIT_ROOM = 17       # bytes generateDigits may write
LAYOUT_ROOM = 25      # bytes prettify may use
DTOA_ROOM = 26
KK = (-339, 358)


def mod0(ex):
    return ex.prog.mods['driver']


def get_fp(ex, st, p):
    """(f, e) of a DiyFp object"""
    f = st.uns(ex.load(st, p, ('i', 64), mod0(ex)), 64)
    e = st.sgn(ex.load(st, Ptr(p.obj, p.off + 8), ('i', 32), mod0(ex)), 32)
    return f, e


def put_fp(ex, st, p, f, e):
    ex.store(st, p, f, ('i', 64), mod0(ex))
    ex.store(st, Ptr(p.obj, p.off + 8), e, ('i', 32), mod0(ex))


def new_fp(st, name, f=None, e=None, writable=False):
    o = st.new_obj(name, 16, 'arg', writable)
    if f is not None:
        o.cells[0] = (8, f)
        o.cells[8] = (4, e)
    return Ptr(o.id, 0)


def pre(ex, st, c, what):
    return ex.obligation(st, c, 'pre', 'precondition of ' + what)


def fork_msb(st, f, top=64):
    """bit length of f > 0, forking"""
    lo, hi = st.ival(f)
    a = max(lo or 1, 1).bit_length()
    b = (hi if hi is not None else (1 << top) - 1).bit_length()
    while a < b:
        if st.decide(lt(f, 1 << a)):
            return a
        a += 1
    return a


def ret_fp(r):
    if not isinstance(r, list) or len(r) != 2:
        raise Unsupported('DiyFp result')
    return r


class FpContract(Contract):
    def fn(self, ex):
        fn = ex.prog.func(self.name)
        if fn is None:
            raise Missing(self.name)
        ex.top = self.name
        return fn


# ---------------------------------------------------------------- DiyFp
class FromDouble(FpContract):
    """requires finite d.  ensures f * 2^e == |d|, 2^52 <= f < 2^53 or e == -1074"""
    name = NS + 'DiyFp::DiyFp(double)'
    P = 'C03,C06'

    def spec(self, st, bits):
        u = st.uns(bits, 64)
        m = u - H63 if st.decide(ge(u, H63)) else u
        q, r = st.divdef(m, H52)
        if st.decide(eq(q, 0)):
            return r, -1074
        return r + H52, q - 1075

    def apply(self, ex, st, args, ins):
        this, d = args
        if not isinstance(d, F64):
            return INLINE
        f, e = self.spec(st, d.bits)
        put_fp(ex, st, this, f, e)
        return None

    def check(self, ex):
        fn = self.fn(ex)
        st = State(ex)
        b = atom('bits', 0, H64 - 1)
        ex.inputs['bits'] = b
        this = new_fp(st, 'this', writable=True)
        ex.start(fn, [this, F64(b)], st)

        def end(s):
            must_return(ex, s, self.P, self.name)
            f, e = get_fp(ex, s, this)
            sf, se = self.spec(s, b)
            post(ex, s, eq(f, sf), self.P, 'significand of the double')
            post(ex, s, eq(e, se), self.P, 'exponent of the double')
        ex.run(st, end)


class Mul(FpContract):
    """ensures |2^64 * f - l.f * r.f| <= 2^63, e == l.e + r.e + 64"""
    name = NS + 'mul(lexi::detail::DiyFp const&, lexi::detail::DiyFp const&)'
    P = 'C03,C06'

    def apply(self, ex, st, args, ins):
        lf, le_ = get_fp(ex, st, args[0])
        rf, re_ = get_fp(ex, st, args[1])
        pre(ex, st, conj(ge(le_, -5000), le(le_, 5000), ge(re_, -5000), le(re_, 5000)), 'mul: exponents in range')
        p = lf * rf
        if isinstance(p, int):
            return INLINE
        lo, hi = st.ival(p)
        h = st.fresh('mul', 0, H64 - 1)
        st.assume(le(h * H64 - p, H63))
        st.assume(ge(h * H64 - p, -H63))
        if lo is not None and hi is not None:
            st._tighten(h, max(0, (lo - H63) // H64), min(H64 - 1, (hi + H63) // H64))
        return [h, le_ + re_ + 64]

    def check(self, ex):
        fn = self.fn(ex)
        st = State(ex)
        ps = []
        fs = []
        for n in ('left', 'right'):
            a, b = atom(n + '.hi', 0, 2**32 - 1), atom(n + '.lo', 0, 2**32 - 1)
            e = atom(n + '.e', -5000, 5000)
            f = a * 2**32 + b
            ex.inputs[n + '.f'] = f
            ps.append(new_fp(st, n, f, e))
            fs.append((f, e))
        ex.start(fn, ps, st)

        def end(s):
            must_return(ex, s, self.P, self.name)
            h, e = ret_fp(s.result)
            h, e = s.uns(h, 64), s.sgn(e, 32)
            d = h * H64 - fs[0][0] * fs[1][0]
            post(ex, s, conj(le(d, H63), ge(d, -H63)), self.P, 'mul: the rounded product is within half a unit')
            post(ex, s, eq(e, fs[0][1] + fs[1][1] + 64), self.P, 'mul: exponent')
        ex.run(st, end)


class Normalize(FpContract):
    """requires 0 < f (< 2^top).  ensures f' * 2^e' == f * 2^e, f' >= 2^63"""
    P = 'C03,C06'

    def __init__(self, fname, top):
        self.name = NS + fname + '(lexi::detail::DiyFp const&)'
        self.top = top

    def apply(self, ex, st, args, ins):
        f, e = get_fp(ex, st, args[0])
        pre(ex, st, conj(ge(f, 1), lt(f, 1 << self.top), ge(e, -5000), le(e, 5000)), self.name)
        n = fork_msb(st, f)
        return [f * (1 << (64 - n)), e - (64 - n)]

    def check(self, ex):
        for n in range(1, self.top + 1):
            self.check1(ex, n)

    def check1(self, ex, n):
        fn = self.fn(ex)
        st = State(ex)
        f = atom('f', 1 << (n - 1), (1 << n) - 1)
        e = atom('e', -5000, 5000)
        ex.inputs['f'] = f
        ex.start(fn, [new_fp(st, 'diyfp', f, e)], st)

        def end(s):
            must_return(ex, s, self.P, self.name)
            f2, e2 = ret_fp(s.result)
            f2, e2 = s.uns(f2, 64), s.sgn(e2, 32)
            post(ex, s, eq(f2, f * (1 << (64 - n))), self.P, '%s: the same value, top bit set' % self.name)
            post(ex, s, eq(e2, e - (64 - n)), self.P, '%s: exponent' % self.name)
        ex.run(st, end)


class Boundaries(FpContract):
    """requires 0 < f < 2^53.  ensures plus == (2f+1) * 2^(e-1), normalised; minus == (2f-1) * 2^(e-1), or
    (4f-1) * 2^(e-2) for f == 2^52 (either when e == -1074), at the exponent of plus"""
    name = NS + 'DiyFp::normalizedBoundaries(lexi::detail::DiyFp*, lexi::detail::DiyFp*) const'
    P = 'C03,C06'

    def apply(self, ex, st, args, ins):
        this, minus, plus = args
        f, e = get_fp(ex, st, this)
        pre(ex, st, conj(ge(f, 1), lt(f, H53), ge(e, -1074), le(e, 971)), self.name)
        if isinstance(f, int):
            return INLINE
        p = f * 2 + 1
        n = fork_msb(st, p)
        s = 64 - n
        put_fp(ex, st, plus, p * (1 << s), e - 1 - s)
        if st.decide(eq(f, H52)):
            m = (f * 4 - 1) * (1 << (s - 1))
            if st.decide(eq(e, -1074)):
                m2 = (f * 2 - 1) * (1 << s)
                x = st.fresh('minus', min(m, m2) if isinstance(m, int) else 0, H64 - 1)
                st.assume(disj(eq(x, m), eq(x, m2)))
                m = x
        else:
            m = (f * 2 - 1) * (1 << s)
        put_fp(ex, st, minus, m, e - 1 - s)
        return None

    def check(self, ex):
        fn = self.fn(ex)
        st = State(ex)
        f = atom('f', 1, H53 - 1)
        e = atom('e', -1074, 971)
        ex.inputs['f'] = f
        ex.inputs['e'] = e
        mi, pl = new_fp(st, 'minus', writable=True), new_fp(st, 'plus', writable=True)
        ex.start(fn, [new_fp(st, 'this', f, e), mi, pl], st)

        def end(s):
            must_return(ex, s, self.P, self.name)
            pf, pe = get_fp(ex, s, pl)
            mf, me = get_fp(ex, s, mi)
            n = fork_msb(s, f * 2 + 1)
            sh = 64 - n
            post(ex, s, conj(eq(pf, (f * 2 + 1) * (1 << sh)), eq(pe, e - 1 - sh)), self.P, 'upper boundary')
            post(ex, s, eq(me, pe), self.P, 'both boundaries have one exponent')
            wide = eq(mf, (f * 2 - 1) * (1 << sh))
            if s.decide(eq(f, H52)):
                nar = eq(mf, (f * 4 - 1) * (1 << (sh - 1)))
                if s.decide(eq(e, -1074)):
                    post(ex, s, disj(wide, nar), self.P, 'lower boundary')
                else:
                    post(ex, s, nar, self.P, 'lower boundary of a power of two')
            else:
                post(ex, s, wide, self.P, 'lower boundary')
        ex.run(st, end)


# ---------------------------------------------------------------- cached powers
class CachedPower(FpContract):
    """requires e in [-1137, 960].  ensures 2^63 <= f < 2^64, -60 <= e + e' + 64 <= -32,
    |f - 10^(-k) * 2^(-e')| <= 1/2"""
    name = NS + 'getCachedPower(int, int*)'
    P = 'C03,C06'
    RANGE = (-1137, 960)

    def apply(self, ex, st, args, ins):
        e = st.sgn(args[0], 32)
        if isinstance(e, int):
            return INLINE         # evaluated on the spot
        raise Unsupported('cached power of a symbolic exponent')

    def check(self, ex, rng=None):
        fn = self.fn(ex)
        for e in rng or range(self.RANGE[0], self.RANGE[1] + 1):
            st = State(ex)
            k = st.new_obj('k', 4, 'arg')
            ex.inputs['e'] = e
            ex.start(fn, [e, Ptr(k.id, 0)], st)

            def end(s):
                must_return(ex, s, self.P, self.name)
                F, E = ret_fp(s.result)
                F, E = s.uns(F, 64), s.sgn(E, 32)
                kv = s.sgn(rdi(ex, s, Ptr(k.id, 0)), 32)
                if not (isinstance(F, int) and isinstance(E, int) and isinstance(kv, int)):
                    raise Unsupported('cached power not determined')
                post(ex, s, H63 <= F < H64, self.P, 'cached power for exponent %d is normalised' % e)
                post(ex, s, -60 <= e + E + 64 <= -32, self.P, 'cached power for exponent %d brings the product into range' % e)
                c = Fraction(10) ** (-kv) * Fraction(2) ** (-E)
                post(ex, s, abs(F - c) <= Fraction(1, 2), self.P, 'cached power for exponent %d is correctly rounded' % e)
            ex.run(st, end)


def rdi(ex, st, p, w=32):
    return ex.load(st, p, ('i', w), mod0(ex))


# ---------------------------------------------------------------- rounding of the last digit
class Round(FpContract):
    """requires rest < tk, rest <= delta, delta - rest < (c - 47) * tk for the last digit c.
    ensures c' == c - t, rest' == rest + t*tk <= delta, and no neighbour in range is nearer"""
    name = NS + 'grisuRound(char*, int, unsigned long, unsigned long, unsigned long, unsigned long)'
    P = 'C06'
    PS = 'C03,C06'

    def apply(self, ex, st, args, ins):
        buf, n, delta, rest, tk, wp = args
        n = st.sgn(n, 32)
        delta, rest, tk, wp = (st.uns(x, 64) for x in (delta, rest, tk, wp))
        if not isinstance(tk, int) or not isinstance(n, int):
            raise Unsupported('grisuRound with a symbolic unit')
        q = Ptr(buf.obj, buf.off + (n - 1))
        c = st.uns(ex.load(st, q, ('i', 8), mod0(ex)), 8)
        pre(ex, st, conj(n >= 1, lt(rest, tk), le(rest, delta), ge(c, 48), le(c, 57), lt(delta - rest, (c - 47) * tk)), 'grisuRound')
        if all(isinstance(x, int) for x in (c, delta, rest, wp)):
            return INLINE
        t = st.fresh('t', 0, 9)
        r2 = rest + t * tk
        st.assume(le(r2, delta))
        st.assume(disj(gt(r2 + tk, delta), le(wp * 2, r2 * 2 + tk)))
        st.assume(disj(eq(t, 0), ge(wp * 2, r2 * 2 - tk)))
        ex.store(st, q, c - t, ('i', 8), mod0(ex))
        return None

    def check(self, ex, n=None):
        fn = self.fn(ex)
        for c in range(48, 58):
            for n in (1, 2, 17):
                st = State(ex)
                b = st.new_obj('buffer', 17, 'arg')
                for i in range(17):
                    b.cells[i] = (1, atom('b%d' % i, 0, 255))
                b.cells[n - 1] = (1, c)
                delta, rest, tk, wp = (atom(x, 0, H64 - 1) for x in ('delta', 'rest', 'ten_kappa', 'wp_w'))
                for x in ('delta', 'rest', 'ten_kappa', 'wp_w'):
                    ex.inputs[x] = atom(x, 0, H64 - 1)
                ex.inputs['digit'] = c
                try:
                    st.assume(lt(rest, tk))
                    st.assume(le(rest, delta))
                    st.assume(lt(delta - rest, tk * (c - 47)))
                except Dead:
                    continue
                if not st.feasible():
                    continue
                ex.start(fn, [Ptr(b.id, 0), n, delta, rest, tk, wp], st)

                def end(s):
                    must_return(ex, s, self.PS, self.name)
                    for i in range(17):
                        if i != n - 1:
                            x = ex.byte_at(s, s.obj(b.id), i)
                            post(ex, s, eq(s.uns(x, 8), atom('b%d' % i, 0, 255)), self.PS, 'grisuRound leaves the other digits')
                    c2 = s.uns(rd(ex, s, b.id, n - 1), 8)
                    t = c - s.concretize(c2, 16, 'last digit')
                    post(ex, s, t >= 0, self.PS, 'grisuRound only lowers the last digit')
                    r2 = rest + tk * t
                    post(ex, s, le(r2, delta), self.PS, 'grisuRound stays inside the interval')
                    post(ex, s, disj(gt(r2 + tk, delta), le(wp * 2, r2 * 2 + tk)), self.P, 'grisuRound: the next lower number is not nearer')
                    post(ex, s, disj(t == 0, ge(wp * 2, r2 * 2 - tk)), self.P, 'grisuRound: the next higher number is not nearer')
                ex.run(st, end)


# ---------------------------------------------------------------- digit generation
class Digits(FpContract):
    """requires Mp.e == W.e in [-60, -32], 2^61 <= Mp.f, W.f <= Mp.f, Mp.f - W.f <= delta, 1 <= delta <= 3/4 Mp.f,
    Mp.f < 10^16 delta, 17 bytes at buffer.
    ensures 1 <= L <= 17 digits, the first not 0, 1 <= L + kappa <= 10; with S = 10^kappa * 2^-e and D the number
    of the digits: Mp - delta <= D*S <= Mp; D*S is nearest to W among its neighbours in that range; no multiple of 10*S lies in
    (Mp - delta, Mp].   *k is raised by kappa."""
    name = NS + 'generateDigits(lexi::detail::DiyFp const&, lexi::detail::DiyFp const&, unsigned long, char*, int*, int*)'

    def requires(self, W, M, delta):
        return conj(ge(M, 1 << 61), le(M, H64 - 1), le(W, M), ge(W, 0), le(M - W, delta), ge(delta, 1), le(delta * 4, M * 3),
                    lt(M, delta * 10**16))

    def apply(self, ex, st, args, ins):
        Wp, Mpp, delta, buf, lenp, kp = args
        W, We = get_fp(ex, st, Wp)
        M, Me = get_fp(ex, st, Mpp)
        delta = st.uns(delta, 64)
        if not isinstance(Me, int) or not isinstance(We, int):
            raise Unsupported('generateDigits with a symbolic exponent')
        pre(ex, st, conj(We == Me, -60 <= Me <= -32), 'generateDigits: exponents')
        for c in self.requires(W, M, delta)[1] if isinstance(self.requires(W, M, delta), tuple) else [self.requires(W, M, delta)]:
            pre(ex, st, c, 'generateDigits: interval')
        if isinstance(W, int) and isinstance(M, int) and isinstance(delta, int):
            return INLINE
        r = room(st, buf)
        pre(ex, st, r is not None and ge(r, DIGIT_ROOM), 'generateDigits: room for 17 digits')
        k0 = st.sgn(rdi(ex, st, kp), 32)
        if not isinstance(k0, int):
            raise Unsupported('generateDigits with a symbolic *k')
        bs = [st.fresh('g%d' % i, 0, 255) for i in range(DIGIT_ROOM)]
        for i, b in enumerate(bs):
            ex.store(st, Ptr(buf.obj, buf.off + i), b, ('i', 8), mod0(ex))
        L = st.fresh('L', 1, 17)
        kap = st.fresh('kappa', -16, 9)
        st.assume(conj(ge(L + kap, 1), le(L + kap, 10)))
        ex.store(st, lenp, L, ('i', 32), mod0(ex))
        ex.store(st, kp, kap + k0, ('i', 32), mod0(ex))
        O = 1 << -Me
        X = 10**17
        Y = st.fresh('Y', 0, None)       # D * 10^(kappa+17)
        U = st.fresh('U', 10, 10**26)    # 10^(kappa+17)
        Q = st.fresh('Q', 0, None)       # q * 10^(kappa+18)
        st.assume(le(Y * O, M * X))
        st.assume(ge(Y * O, (M - delta) * X))
        rest = M * X - Y * O
        wp = (M - W) * X
        tk = U * O
        st.assume(disj(gt(rest + tk, delta * X), le(wp * 2, rest * 2 + tk)))
        st.assume(disj(lt(rest, tk), ge(wp * 2, rest * 2 - tk)))
        st.assume(le(Q * O, (M - delta) * X))
        st.assume(gt((Q + U * 10) * O, M * X))
        st.ghost['digits'] = dict(buf=buf, bs=bs, L=L, kap=kap, Y=Y, U=U, Q=Q, k0=k0)
        return None

    def check(self, ex, E):
        fn = self.fn(ex)
        st = State(ex)
        M = atom('Mp.f', 1 << 61, H64 - 1)
        W = atom('W.f', 0, H64 - 1)
        delta = atom('delta', 1, H64 - 1)
        ex.inputs.update({'Mp.f': M, 'W.f': W, 'delta': delta, 'e': E})
        st.assume(self.requires(W, M, delta))
        K0 = 1000
        b = st.new_obj('buffer', DIGIT_ROOM, 'arg')
        n = st.new_obj('len', 4, 'arg')
        k = st.new_obj('k', 4, 'arg')
        k.cells[0] = (4, K0)
        ex.start(fn, [new_fp(st, 'W', W, E), new_fp(st, 'Mp', M, E), delta, Ptr(b.id, 0), Ptr(n.id, 0), Ptr(k.id, 0)], st)
        A, P3, P6 = 'C03,C05,C06', 'C03', 'C06'

        def end(s):
            must_return(ex, s, A, 'generateDigits')
            L = s.concretize(s.sgn(rdi(ex, s, Ptr(n.id, 0)), 32), 40, 'length')
            kap = s.concretize(s.sgn(rdi(ex, s, Ptr(k.id, 0)), 32), 40, 'k') - K0
            post(ex, s, 1 <= L <= 17, A, 'between 1 and 17 digits')
            post(ex, s, 1 <= L + kap <= 10, A, 'decimal exponent of the digits')
            D = 0
            q = 0
            us = []
            for i in range(L):
                u = s.uns(rd(ex, s, b.id, i), 8)
                us.append(u)
                post(ex, s, conj(ge(u, 49 if i == 0 else 48), le(u, 57)), A, 'character %d is a digit%s' % (i, ' other than 0' if i == 0 else ''))
                q = D
                D = D * 10 + (u - 48)
            z = 10 ** max(0, -kap)
            S = 10 ** max(0, kap) * (1 << -E)      # z * (10^kappa 2^-E)
            m, d, w = M * z, delta * z, W * z
            post(ex, s, le(D * S, m), P3, 'the digits are not above the interval')
            post(ex, s, ge(D * S, m - d), P3, 'the digits are not below the interval')
            rest = m - D * S
            wp = m - w
            post(ex, s, disj(gt(rest + S, d), le(wp * 2, rest * 2 + S)), P6, 'the next lower number is not nearer')
            post(ex, s, disj(lt(rest, S), ge(wp * 2, rest * 2 - S)), P6, 'the next higher number is not nearer')
            post(ex, s, le(q * (S * 10), m - d), P6, 'dropping the last digit leaves the interval')
            post(ex, s, gt((q + 1) * (S * 10), m), P6, 'rounding up to one digit less leaves the interval')
        ex.run(st, end)


# ---------------------------------------------------------------- grisu2
def scaled(*xs):
    """[(poly, p10, p2)] -> integer polys at a common scale"""
    a = min(x[1] for x in xs)
    b = min(x[2] for x in xs)
    return [x[0] * (10 ** (x[1] - a) << (x[2] - b)) for x in xs]


class Grisu2(FpContract):
    """requires finite value > 0, 17 bytes at buffer.  ensures L = *length in 1..17 digits, the first not 0, and with D their number
    and K = *k: D * 10^K lies strictly inside the rounding interval of value (C03); D's neighbours D-1, D+1 are not nearer to the value
    by more than 2^-60 of it, unless outside the interval or within 1% of its width of an end (C06); no multiple of
    10^(K+1) lies in the interval more than 1% of its width away from its ends (C06); -339 <= L+K <= 358"""
    name = NS + 'grisu2(double, char*, int*, int*)'

    def apply(self, ex, st, args, ins):
        v, buf, lenp, kp = args
        if not isinstance(v, F64):
            raise Unsupported('grisu2 of an abstract value')
        m = st.uns(v.bits, 64)
        pre(ex, st, conj(ge(m, 1), lt(m, INFB)), 'grisu2: positive and finite')
        r = room(st, buf)
        pre(ex, st, r is not None and ge(r, DIGIT_ROOM), 'grisu2: room for 17 digits')
        Lb, ds, kk = g2_atoms(m)
        st.ghost['g2'] = st.ghost.get('g2', ()) + (str(m),)
        L = st.concretize(Lb, 40, 'digits')
        for i in range(DIGIT_ROOM):
            ex.store(st, Ptr(buf.obj, buf.off + i), ds[i] if i < L else st.fresh('junk', 0, 255), ('i', 8), mod0(ex))
        ex.store(st, lenp, L, ('i', 32), mod0(ex))
        ex.store(st, kp, kk - L, ('i', 32), mod0(ex))
        return None

    def check(self, ex, be, frac=None):
        """biased exponent be; frac: (lo, hi) of the fraction field"""
        fn = self.fn(ex)
        st = State(ex)
        lo, hi = frac
        fr = atom('fraction', lo, hi) if lo < hi else lo
        bits = fr + be * H52
        ex.inputs['bits'] = bits
        b = st.new_obj('buffer', DIGIT_ROOM, 'arg')
        n = st.new_obj('length', 4, 'arg')
        k = st.new_obj('k', 4, 'arg')
        ex.start(fn, [F64(bits), Ptr(b.id, 0), Ptr(n.id, 0), Ptr(k.id, 0)], st)
        f = fr if be == 0 else fr + H52
        e = -1074 if be == 0 else be - 1075
        A, P3, P6 = 'C03,C05,C06', 'C03', 'C06'

        def end(s):
            must_return(ex, s, A, 'grisu2')
            L = s.sgn(rdi(ex, s, Ptr(n.id, 0)), 32)
            K = s.sgn(rdi(ex, s, Ptr(k.id, 0)), 32)
            rec = s.ghost.get('digits')
            hi_ = (f * 2 + 1, 0, e - 1)
            lo_ = (f * 4 - 1, 0, e - 2) if isinstance(f, int) and f == H52 and e > -1074 else (f * 2 - 1, 0, e - 1)
            if rec is None:
                if not (isinstance(L, int) and isinstance(K, int)):
                    raise Unsupported('grisu2 result not determined')
                post(ex, s, 1 <= L <= 17, A, 'between 1 and 17 digits')
                us = [s.uns(rd(ex, s, b.id, i), 8) for i in range(L)]
                if not all(isinstance(u, int) for u in us):
                    raise Unsupported('grisu2 digits not determined')
                post(ex, s, all(48 <= u <= 57 for u in us) and us[0] != 48, A, 'digits, the first not 0')
                D = int(''.join(map(chr, us)))
                post(ex, s, KK[0] <= L + K <= KK[1], A, 'decimal exponent in range')
                # largest multiple of 10 units below the shrunk interval, exactly
                u = Fraction(10) ** K
                H = Fraction(hi_[0]) * Fraction(2) ** hi_[2]
                Lw = Fraction(lo_[0]) * Fraction(2) ** lo_[2]
                wd = (H - Lw) / 100
                q = (Lw + wd) // (10 * u)
                Y, U, Q, k0 = (D, K), (1, K), (int(q) * 10, K), 0
            else:
                post(ex, s, isinstance(L, Poly) and L == rec['L'] and not isinstance(K - rec['kap'], Poly), A, 'length and exponent are those of the digits')
                same = all(same_term(ex.byte_at(s, s.obj(b.id), i), rec['bs'][i]) for i in range(DIGIT_ROOM)) and rec['buf'] == Ptr(b.id, 0)
                post(ex, s, same, A, 'the digits are left as generated')
                k0 = K - rec['kap']
                post(ex, s, KK[0] <= k0 + 1 and k0 + 10 <= KK[1], A, 'decimal exponent in range')
                Y, U, Q = (rec['Y'], k0 - 17), (rec['U'], k0 - 17), (rec['Q'], k0 - 17)
            t, u, q, h, l, v = scaled((Y[0], Y[1], Y[1] * 0), (U[0], U[1], 0), (Q[0], Q[1], 0), hi_, lo_, (f, 0, e))
            post(ex, s, lt(t, h), P3, 'below the midpoint to the next double')
            post(ex, s, gt(t, l), P3, 'above the midpoint to the previous double')
            # times 100 * 2^60, to keep to integers
            w = h - l
            c = 100 << 60
            lo1 = (l * 100 + w) * (1 << 60)
            hi1 = (h * 100 - w) * (1 << 60)
            tol = v * 100
            post(ex, s, disj(le((t - v) * (2 * c), u * c + tol), lt((t - u) * c, lo1)), P6, 'the next lower number of this length is not nearer')
            post(ex, s, disj(le((v - t) * (2 * c), u * c + tol), gt((t + u) * c, hi1)), P6, 'the next higher number of this length is not nearer')
            post(ex, s, le(q * c, lo1), P6, 'no shorter number in the interval (below)')
            post(ex, s, ge((q + u * 10) * c, hi1), P6, 'no shorter number in the interval (above)')
        ex.run(st, end)


def same_term(a, b):
    return a is b or (type(a) is type(b) and a == b)


def g2_atoms(m):
    """the digits grisu2 gives for the positive double of bit pattern m"""
    L = atom('len<%s>' % (m,), 1, 17)
    ds = [atom('dig%d<%s>' % (i, m), 49 if i == 0 else 48, 57) for i in range(17)]
    kk = atom('pt<%s>' % (m,), *KK)
    return L, ds, kk


# ---------------------------------------------------------------- layout
def exp_digits(st, x, tag):
    n = 1 if st.decide(lt(x, 10)) else 2 if st.decide(lt(x, 100)) else 3
    out = []
    v = 0
    for i in range(n):
        d = st.fresh(tag, 49 if i == 0 and n > 1 else 48, 57)
        out.append(d)
        v = v * 10 + (d - 48)
    st.assume(eq(v, x))
    return out


def layout(st, L, ds, kk):
    """the bytes of the text of 0.d1..dL * 10^kk in the fixed notation; forks"""
    ds = list(ds[:L])
    if st.decide(conj(ge(kk, -5), le(kk, 21))):
        p = st.concretize(kk, 40, 'point')
        if p <= 0:
            return [48, 46] + [48] * (-p) + ds
        if p >= L:
            return ds + [48] * (p - L) + [46, 48]
        return ds[:p] + [46] + ds[p:]
    x = kk - 1
    sg = []
    if st.decide(lt(x, 0)):
        sg = [45]
        x = -x
    return ds[:1] + ([46] + ds[1:] if L > 1 else []) + [101] + sg + exp_digits(st, x, 'x')


def check_layout(ex, s, bs, L, ds, kk, what):
    """bs is the text of the digits with the point at kk: the notation (C05) and the number (C03)"""
    us = [s.uns(b, 8) for b in bs]
    # the number it denotes
    m, fr, xs, i, n = 0, 0, None, 0, 0
    seen = False
    while i < len(us):
        u = us[i]
        if s.decide(conj(ge(u, 48), le(u, 57))):
            m = m * 10 + (u - 48)
            fr += 1 if seen else 0
            n += 1
        elif not seen and s.decide(eq(u, 46)):
            seen = True
        else:
            break
        i += 1
    X = 0
    ok = n > 0
    if i < len(us):
        ok = ok and s.decide(disj(eq(us[i], 101), eq(us[i], 69)))
        i += 1
        sg = 1
        if ok and i < len(us) and s.decide(eq(us[i], 45)):
            sg, i = -1, i + 1
        ok = ok and i < len(us)
        while ok and i < len(us):
            ok = s.decide(conj(ge(us[i], 48), le(us[i], 57)))
            X = X * 10 + (us[i] - 48)
            i += 1
        X = X * sg
    post(ex, s, ok, 'C03,C05,C06', '%s: the text is a number' % what)
    D = 0
    for d in ds[:L]:
        D = D * 10 + (d - 48)
    # m * 10^(X - fr) == D * 10^(kk - L)
    sh = (X - fr) - (kk - L)
    sh = s.concretize(sh, 64, 'scale') if isinstance(sh, Poly) else sh
    post(ex, s, eq(m * 10 ** max(0, sh), D * 10 ** max(0, -sh)), 'C03,C05,C06', '%s: the text denotes the digits times the power of ten' % what)
    want = layout(s, L, ds, kk)
    post(ex, s, len(us) == len(want), 'C05', '%s: length of the notation' % what)
    for j, (u, w) in enumerate(zip(us, want)):
        post(ex, s, eq(u, w), 'C05', '%s: character %d of the notation' % (what, j))


class Prettify(FpContract):
    """requires L digits in the buffer, 25 bytes.  ensures the text of digits * 10^k in the fixed notation,
    terminated; returns the address of the terminator"""
    name = NS + 'prettify(char*, int, int)'

    def apply(self, ex, st, args, ins):
        buf, L, k = args
        L = st.sgn(L, 32)
        k = st.sgn(k, 32)
        if not isinstance(L, int):
            raise Unsupported('prettify with a symbolic length')
        r = room(st, buf)
        pre(ex, st, r is not None and ge(r, LAYOUT_ROOM), 'prettify: room for the text')
        pre(ex, st, conj(1 <= L <= 17, ge(k + L, KK[0]), le(k + L, KK[1])), 'prettify: length and exponent')
        ds = [st.uns(ex.load(st, Ptr(buf.obj, buf.off + i), ('i', 8), mod0(ex)), 8) for i in range(L)]
        for i, d in enumerate(ds):
            pre(ex, st, conj(ge(d, 49 if i == 0 else 48), le(d, 57)), 'prettify: digits')
        bs = layout(st, L, ds, k + L)
        for i in range(LAYOUT_ROOM):
            ex.store(st, Ptr(buf.obj, buf.off + i), bs[i] if i < len(bs) else 0 if i == len(bs) else st.fresh('junk', 0, 255), ('i', 8), mod0(ex))
        return buf.plus(len(bs))

    def check(self, ex, L):
        fn = self.fn(ex)
        st = State(ex)
        b = st.new_obj('buffer', LAYOUT_ROOM, 'arg')
        ds = [atom('digit%d' % i, 49 if i == 0 else 48, 57) for i in range(L)]
        for i in range(LAYOUT_ROOM):
            if i < DIGIT_ROOM:
                b.cells[i] = (1, ds[i] if i < L else atom('junk%d' % i, 0, 255))
        kk = atom('point', *KK)
        ex.inputs['k'] = kk - L
        for i in range(L):
            ex.inputs['digit%d' % i] = ds[i] - 48
        ex.start(fn, [Ptr(b.id, 0), L, kk - L], st)

        def end(s):
            must_return(ex, s, 'C03,C05,C06', 'prettify')
            p = s.result
            post(ex, s, isinstance(p, Ptr) and p.obj == b.id, 'C03,C05', 'prettify returns a pointer into the buffer')
            n = s.concretize(p.off, 64, 'end')
            post(ex, s, 3 <= n < LAYOUT_ROOM, 'C03,C05,C13', 'the text and its terminator fit')
            bs = [rd(ex, s, b.id, i) for i in range(n)]
            post(ex, s, eq(s.uns(rd(ex, s, b.id, n), 8), 0), 'C03,C05,C14', 'the text is terminated')
            check_layout(ex, s, bs, L, ds, kk, 'prettify')
        ex.run(st, end)


# ---------------------------------------------------------------- dtoa
def absbits(st, bits):
    """(|v| as a bit pattern, negative?)"""
    u = st.uns(bits, 64)
    if st.decide(ge(u, H63)):
        return u - H63, True
    return u, False


def text_atoms(st, m):
    """the text dtoa gives for the positive double of bit pattern m; forks on its length"""
    n = st.concretize(atom('tlen<%s>' % (m,), 3, 24), 40, 'text length')
    return [atom('txt%d<%s>' % (i, m), 45, 101) for i in range(n)]


class Dtoa(FpContract):
    """requires finite value, 26 bytes.  ensures "0.0" for zero; otherwise '-' exactly when value < 0, then the layout of
    the digits grisu2 gives for |value|; terminated; returns the address of the terminator"""
    name = NS + 'dtoa(double, char*)'

    def apply(self, ex, st, args, ins):
        v, buf = args
        if not isinstance(v, F64):
            raise Unsupported('dtoa of an abstract value')
        m, ng = absbits(st, v.bits)
        pre(ex, st, lt(m, INFB), 'dtoa: finite')
        r = room(st, buf)
        pre(ex, st, r is not None and ge(r, DTOA_ROOM), 'dtoa: room for the text')
        if st.decide(eq(m, 0)):
            bs = [48, 46, 48]
        else:
            bs = ([45] if ng else []) + text_atoms(st, m)
            st.ghost['txt'] = st.ghost.get('txt', ()) + (str(m),)
        for i in range(DTOA_ROOM):
            ex.store(st, Ptr(buf.obj, buf.off + i), bs[i] if i < len(bs) else 0 if i == len(bs) else st.fresh('junk', 0, 255), ('i', 8), mod0(ex))
        return buf.plus(len(bs))

    def check(self, ex, L):
        fn = self.fn(ex)
        st = State(ex)
        bits = atom('bits', 0, H64 - 1)
        ex.inputs['bits'] = bits
        b = st.new_obj('buffer', DTOA_ROOM, 'arg')
        st.assume(disj(lt(bits, INFB), conj(ge(bits, H63), lt(bits, H63 + INFB))))
        ex.start(fn, [F64(bits), Ptr(b.id, 0)], st)
        if L:
            for m in (bits, bits - H63):
                st.assume(eq(g2_atoms(m)[0], L))
        A = 'C03,C05,C06,C07'

        def end(s):
            must_return(ex, s, A, 'dtoa')
            p = s.result
            post(ex, s, isinstance(p, Ptr) and p.obj == b.id, A, 'dtoa returns a pointer into the buffer')
            n = s.concretize(p.off, 64, 'end')
            post(ex, s, 1 <= n < DTOA_ROOM, A + ',C13', 'the text and its terminator fit')
            bs = [s.uns(rd(ex, s, b.id, i), 8) for i in range(n)]
            post(ex, s, eq(s.uns(rd(ex, s, b.id, n), 8), 0), A + ',C14', 'the text is terminated')
            m, ng = absbits(s, bits)
            if s.decide(eq(m, 0)):
                post(ex, s, n == 3, 'C07,C05', 'zero is 0.0')
                for u, w in zip(bs, b'0.0'):
                    post(ex, s, eq(u, w), 'C07,C05', 'zero is 0.0')
                return
            if ng:
                post(ex, s, eq(bs[0], 45), 'C07', "a negative number starts with '-'")
                bs = bs[1:]
            post(ex, s, bool(bs) and conj(ge(bs[0], 48), le(bs[0], 57)), 'C07', "only a negative number starts with '-'")
            Lb, ds, kk = g2_atoms(m)
            ex.weak = str(m) not in s.ghost.get('g2', ())
            try:
                post(ex, s, 3 <= len(bs) <= 24, A, 'length of the text')
                check_layout(ex, s, bs, s.concretize(Lb, 40, 'digits'), ds, kk, 'dtoa')
            finally:
                ex.weak = False
        ex.run(st, end)


for c in (FromDouble(), Mul(), Normalize('normalize', 53), Normalize('normalizeBoundary', 54), Boundaries(), CachedPower(), Round(),
          Digits(), Grisu2(), Prettify(), Dtoa()):
    CONTRACTS[c.name] = c


# ---------------------------------------------------------------- what callers must render
SPECIAL = {'nan': b'NaN', 'inf': b'Infinity', '-inf': b'-Infinity'}


def spec_text(ex, st, v):
    """the text the value must have (bytes as terms), forking"""
    if isinstance(v, F32):
        v = ex.fpconv(st, v, 'float', 'double')
    elif isinstance(v, FP):
        v = ex.fpconv(st, v, 'x86_fp80', 'double')
    m, ng = absbits(st, v.bits)
    if st.decide(gt(m, INFB)):
        return list(SPECIAL['nan']), True
    if st.decide(eq(m, INFB)):
        return list(SPECIAL['-inf' if ng else 'inf']), True
    if st.decide(eq(m, 0)):
        return [48, 46, 48], True
    if str(m) in st.ghost.get('g2', ()) and str(m) not in st.ghost.get('txt', ()):
        # dtoa is not called under that name: the layout of the digits, directly
        L, ds, kk = g2_atoms(m)
        return ([45] if ng else []) + layout(st, st.concretize(L, 40, 'digits'), ds, kk), False
    if str(m) not in st.ghost.get('txt', ()):
        ex.weak = True
    return ([45] if ng else []) + text_atoms(st, m), False


def check_text_of(ex, x, v, text, props, what):
    try:
        want, special = spec_text(ex, x, v)
        pr = (props if not special or props == 'C14' else 'C14,C07') if props.startswith('C14') else 'C07,C20' if special else 'C03,C05,C06,C07,C20'
        post(ex, x, len(text) == len(want), pr, '%s: length of the text' % what)
        for i, (a, b) in enumerate(zip(text, want)):
            post(ex, x, eq(x.uns(a, 8), b), pr, '%s: character %d of the text' % (what, i))
    finally:
        ex.weak = False
