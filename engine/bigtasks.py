"""Proof tasks for lexi::detail::BigInteger (C15, C16; safety for C13, frames for C17)."""
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj, implies, iff
import term as T
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, UNDEF
import bigint as G
from bigint import B, Q, Arr, Seq, Carry, Shift, Borrow, Limbs, AbsVal, BigRule, layout, value_of, set_value, capv, p5, p5_lemmas, tdec
from contracts import post, Missing
from tasks import task, start, threw

RT = '_ZTISt13runtime_error'
F_ADD = Q + 'operator+=(unsigned long)'
F_MUL = Q + 'operator*=(unsigned long)'
F_MUL32 = Q + 'operator*=(unsigned int)'
F_SHL = Q + 'operator<<=(unsigned long)'
F_EQ = Q + 'operator==(' + Q[:-2] + ' const&) const'
F_EQW = Q + 'operator==(unsigned long) const'
F_CMP = Q + 'compare(' + Q[:-2] + ' const&) const'
F_DIF = Q + 'difference(' + Q[:-2] + ' const&, ' + Q[:-2] + '*) const'
F_POW5 = Q + 'mulPow5(unsigned int)'
F_ADDB = Q + 'add(char const*, char const*)'
F_PARSE = Q + 'parse(char const*, char const*)'
F_CT = Q + 'BigInteger(char const*, unsigned long)'
F_CW = Q + 'BigInteger(unsigned long)'
F_CC = Q + 'BigInteger(' + Q[:-2] + ' const&)'
F_AW = Q + 'operator=(unsigned long)'
F_AC = Q + 'operator=(' + Q[:-2] + ' const&)'
F_CNT = Q + 'count() const'
F_DIG = Q + 'digit(unsigned long) const'
F_ZERO = Q + 'isZero() const'

SMALL = (1, 2, 3)
MID = (1, 2, 3, 4, 5)
LONG = tuple(range(1, 13)) + (20,)


def fresh(ex):
    """an independent run: new atoms, new solver"""
    T.reset()
    ex.ctx.reset()
    return State(ex)


def big(ex, st, name, n=None, halves=False, writable=True):
    """an arbitrary valid BigInteger: (pointer, limbs, count)"""
    L = layout(ex)
    if n is None:
        n = atom(name + '.count', 1, L.cap)
    A = Arr(name, n, halves)
    o = st.new_obj(name, L.size, 'arg', writable=writable)
    o.data = Limbs(L, [('seq', 0, n, A.at, 0)])
    o.cells[L.cnt] = (8, n)
    st.assume(disj(eq(n, 1), ge(A.at(st, n - 1), 1)))
    return Ptr(o.id, 0), A, n


def raw(ex, st, name):
    L = layout(ex)
    o = st.new_obj(name, L.size, 'arg')
    o.data = Limbs(L)
    return Ptr(o.id, 0)


def setup(ex, st, A, n, spec=None, more=(), points=()):
    """what the loop rule may use"""
    ex.loop_rules = [] if isinstance(n, int) else [BigRule()]
    ex.big_points = list(points)
    ex.big_bounds = [('0', 0), ('1', 1), ('n', n), ('n-1', n - 1), ('n+1', n + 1)] + list(more)
    ex.big_seqs = [('A', A.at)]
    ex.big_out = [('A', A.at)]
    ex.big_after = []
    if spec is not None:
        ex.big_seqs += [('R', spec.R), ('K', spec.K)]
        ex.big_out = [('R', spec.R), ('A', A.at)]
        for i in st.ghost.get(('idx', A.name), ()):
            spec.step(st, i)


def lits(ex, name, A, n, op):
    """counterexamples become programs for the native probe"""
    if not isinstance(n, int):
        return

    def prog(m, one=False):
        def ev(t):
            if isinstance(t, int):
                return t
            env = dict(m)
            for i in t.atoms():
                env.setdefault(i, ATOMS[i].lo or 0)
            return T.evalp(t, env)
        v = sum(ev(A.make(i)) << (64 * i) for i in range(n))
        return '%s"%d,' % (name, v) + (op(ev) if op else '')
    return prog


def count_of(ex, s, p, prop, what):
    L = layout(ex)
    c = s.obj(p.obj).cells.get(L.cnt)
    if c is None:
        post(ex, s, False, prop, '%s: the limb count is set' % what)
        raise Dead()
    return s.uns(c[1], 64)


def check_limbs(ex, s, p, n, f, prop, what):
    """the object holds exactly the n limbs f(0) .. f(n-1), the highest non-zero unless alone"""
    c = count_of(ex, s, p, prop, what)
    post(ex, s, eq(c, n), prop, '%s: number of limbs' % what)
    L = layout(ex)
    ls = s.obj(p.obj).data
    if isinstance(n, int):
        for j in range(n):
            post(ex, s, eq(ls.read(ex, s, j), f(s, j)), prop, '%s: limb %d' % (what, j))
    else:
        x = s.clone()
        j = atom('anylimb', 0, L.cap)

        def one(x):
            x.assume(lt(j, n))
            post(ex, x, eq(ls.read(ex, x, j), f(x, j)), prop, '%s: every limb' % what)
        ex.with_forks(x, one)
    post(ex, s, disj(eq(n, 1), ge(ls.read(ex, s, n - 1), 1)), prop, '%s: no leading zero limb' % what)


def ret_self(ex, s, p, prop, what):
    post(ex, s, s.result == p, prop, '%s returns the object itself' % what)


def carry_end(ex, p, sp, n, off, what, prop='C15', ret=True):
    def end(s):
        L = layout(ex)
        kn = sp.K(s, n)
        over = s.decide(gt(kn, 0))
        total = n + off + (1 if over else 0)
        if s.thrown is not None:
            threw(ex, s, prop, what)
            post(ex, s, gt(total, L.cap), prop, '%s throws only if the result has more limbs than fit' % what)
            return
        post(ex, s, le(total, L.cap), prop, '%s throws if the result has more limbs than fit' % what)
        if ret:
            ret_self(ex, s, p, prop, what)

        def f(x, j):
            if not (isinstance(off, int) and off == 0):
                if x.decide(lt(j, off)):
                    return 0
            if over and x.decide(eq(j, n + off)):
                return kn
            return sp.R(x, j - off)
        check_limbs(ex, s, p, total, f, prop, what)
    return end


# ---------------------------------------------------------------- += word
def t_add(ns):
    def run(ex):
        for n0 in ns:
            st = fresh(ex)
            p, A, n = big(ex, st, 'a', n0)
            d = atom('word', 0, B - 1)
            sp = Carry(A, 1, d, 1, B - 1, absorbing=True)
            setup(ex, st, A, n, sp)
            ex.inputs['word'] = d
            ex.inputs['program'] = lits(ex, 'a', A, n, lambda ev: 'a+%d,' % ev(d))
            start(ex, F_ADD, [p, d], st)
            ex.run(st, carry_end(ex, p, sp, n, 0, '+='))
    return run


# ---------------------------------------------------------------- *= word
def t_mul(fname, w, ns, ms, op):
    def run(ex):
        for n0 in ns:
            for m0 in ms:
                st = fresh(ex)
                p, A, n = big(ex, st, 'a', n0, halves=True)
                if m0 == 'any':
                    if w == 64:
                        mh = atom('word.hi', 0, 2**32 - 1)
                        ml = atom('word.lo', 0, 2**32 - 1)
                        m = mh * 2**32 + ml
                    else:
                        m = atom('word', 0, 2**32 - 1)
                    st.assume(ge(m, 2))
                else:
                    m = m0
                sp = Carry(A, m, 0, m - 1 if m0 else 0, (1 << w) - 2)
                setup(ex, st, A, n, sp)
                ex.inputs['word'] = m
                ex.inputs['program'] = lits(ex, 'a', A, n, lambda ev, m=m: 'a%s%d,' % (op, ev(m)))
                start(ex, fname, [p, m], st)
                if m0 == 0:
                    def end(s):
                        if s.thrown is not None:
                            post(ex, s, False, 'C15', '*= 0 does not throw')
                            return
                        ret_self(ex, s, p, 'C15', '*=')
                        check_limbs(ex, s, p, 1, lambda x, j: 0, 'C15', '*= 0')
                    ex.run(st, end)
                else:
                    ex.run(st, carry_end(ex, p, sp, n, 0, '*='))
    return run


# ---------------------------------------------------------------- <<=
def t_shl(rs, ns, offs=(None,)):
    def run(ex):
        for n0 in ns:
            for r in rs:
                for off0 in offs:
                    for zero in (False, True):
                        if zero and (r != rs[0] or n0 not in (None, 1)):
                            continue
                        st = fresh(ex)
                        p, A, n = big(ex, st, 'a', 1 if zero else n0)
                        off = atom('words', 0, 2**58 - 1) if off0 is None else off0
                        sh = off * 64 + r
                        ex.inputs['shift'] = sh
                        ex.inputs['program'] = lits(ex, 'a', A, n, lambda ev: 'a<%d,' % ev(sh))
                        if zero:
                            st.assume(eq(A.at(st, 0), 0))
                        else:
                            st.assume(disj(ge(n, 2), ge(A.at(st, 0), 1)))
                        sp = Shift(A, 1 << r, 0, (1 << r) - 1, (1 << r) - 1)
                        setup(ex, st, A, n, sp)
                        if n0 is None and off0 is None:
                            ex.big_bounds += [('words', off), ('n+words', n + off)]
                        start(ex, F_SHL, [p, sh], st)
                        if zero:
                            def end(s):
                                if s.thrown is not None:
                                    post(ex, s, False, 'C15', '<<= of zero does not throw')
                                    return
                                ret_self(ex, s, p, 'C15', '<<=')
                                check_limbs(ex, s, p, 1, lambda x, j: 0, 'C15', '<<= of zero')
                            ex.run(st, end)
                        else:
                            ex.run(st, carry_end(ex, p, sp, n, off, '<<='))
    return run


# ---------------------------------------------------------------- two operands
def pair(ex, st, na, nb, D):
    pa, A, n = big(ex, st, 'a', na, writable=False)
    pb, Bv, m = big(ex, st, 'b', nb, writable=False)
    return pa, A, n, pb, Bv, m


def cases(ex, small=None):
    """every relative position of two values: (state, pa, A, na, pb, Bv, nb, order, D)"""
    for kind in ('count', 'limb', 'same'):
        combos = [(None, None)] if small is None else [(i, j) for i in small for j in small if (i != j) == (kind == 'count')]
        for na, nb in combos:
            for order in ((-1, 1) if kind != 'same' else (0,)):
                if small is not None and kind == 'count' and (na < nb) != (order < 0):
                    continue
                Ds = [None] if small is None or kind != 'limb' else list(range(na))
                for D0 in Ds:
                    st = fresh(ex)
                    if kind == 'count':
                        pa, A, n, pb, Bv, m = pair(ex, st, na, nb, None)
                        st.assume(lt(n, m) if order < 0 else lt(m, n))
                        D = None
                    else:
                        n = m = na if na is not None else atom('count', 1, layout(ex).cap)
                        pa, A, n, pb, Bv, m = pair(ex, st, n, n, None)
                        D = -1 if kind == 'same' else (D0 if D0 is not None else atom('highest', 0, layout(ex).cap - 1))
                        if isinstance(D, Poly):
                            st.assume(lt(D, n))
                        A.pair = (Bv, D)
                        Bv.pair = (A, D)
                        # the instances made before the pairing
                        for i in st.ghost.get(('idx', 'a'), ()) + st.ghost.get(('idx', 'b'), ()):
                            st.assume(disj(le(i, D), eq(A.at(st, i), Bv.at(st, i))))
                        if kind == 'limb':
                            x, y = A.at(st, D), Bv.at(st, D)
                            st.assume(lt(x, y) if order < 0 else lt(y, x))
                    yield st, pa, A, n, pb, Bv, m, order, D


def two_prog(ex, A, n, Bv, m, op):
    f, g = lits(ex, 'a', A, n, None), lits(ex, 'b', Bv, m, None)
    if f is None or g is None:
        return
    ex.inputs['program'] = lambda mm: f(mm) + g(mm) + op


def bounds2(ex, A, n, Bv, m, D):
    more = [('nb', m), ('nb-1', m - 1)]
    if D is not None:
        more += [('D', D), ('D+1', D + 1)]
    setup(ex, None, A, n, None, more, [D] if D is not None and not (isinstance(D, int) and D < 0) else [])
    ex.big_seqs.append(('B', Bv.at))


def t_cmp(small):
    def run(ex):
        for st, pa, A, n, pb, Bv, m, order, D in cases(ex, small):
            bounds2(ex, A, n, Bv, m, D)
            two_prog(ex, A, n, Bv, m, 'a?b,b?a,')
            start(ex, F_CMP, [pa, pb], st)

            def end(s):
                if s.thrown is not None:
                    post(ex, s, False, 'C16', 'compare does not throw')
                    return
                r = s.sgn(s.result, 32)
                post(ex, s, lt(r, 0) if order < 0 else gt(r, 0) if order > 0 else eq(r, 0), 'C16',
                     'compare: %s than the other' % ('negative if this is less' if order < 0 else 'positive if this is greater' if order else 'zero if equal'))
            ex.run(st, end)
        alias(ex, F_CMP, small, lambda s: eq(s.sgn(s.result, 32), 0), 'compare with itself is zero')
    return run


def alias(ex, fname, small, cond, msg):
    for n0 in ([None] if small is None else small):
        st = fresh(ex)
        pa, A, n = big(ex, st, 'a', n0, writable=False)
        setup(ex, st, A, n)
        start(ex, fname, [pa, pa], st)

        def end(s):
            if s.thrown is not None:
                post(ex, s, False, 'C16', '%s (it throws)' % msg)
                return
            post(ex, s, cond(s), 'C16', msg)
        ex.run(st, end)


def as_bool(s):
    r = s.result
    return r if isinstance(r, (bool, tuple)) else ne(s.uns(r, 1), 0)


def t_eq(small):
    def run(ex):
        for st, pa, A, n, pb, Bv, m, order, D in cases(ex, small):
            bounds2(ex, A, n, Bv, m, D)
            two_prog(ex, A, n, Bv, m, 'a?b,b?a,')
            start(ex, F_EQ, [pa, pb], st)

            def end(s):
                if s.thrown is not None:
                    post(ex, s, False, 'C16', '== does not throw')
                    return
                post(ex, s, as_bool(s) if order == 0 else neg(as_bool(s)), 'C16', '== holds exactly for equal values')
            ex.run(st, end)
        alias(ex, F_EQ, small, lambda s: as_bool(s), '== with itself holds')
    return run


def t_dif(small):
    def run(ex):
        for st, pa, A, n, pb, Bv, m, order, D in cases(ex, small):
            bounds2(ex, A, n, Bv, m, D)
            two_prog(ex, A, n, Bv, m, 'a-bc,b-ac,')
            po = raw(ex, st, 'out')
            L = layout(ex)
            st.wobj(po.obj).cells[L.cnt] = (8, atom('out.count', 1, L.cap))
            sp = None
            if order:
                X, nx, Y, ny = (A, n, Bv, m) if order > 0 else (Bv, m, A, n)
                tops = [atom('top', 0, L.cap - 1)] if small is None else list(range(nx))
            else:
                tops = [None]
            for top in tops:
                s1 = st.clone()
                ex.loop_rules = [BigRule()] if small is None else []
                if order:
                    X.specs, Y.specs = [], []
                    s1.assume(lt(top, nx))
                    sp = Borrow(X, nx, Y, ny, top)
                    for i in set(s1.ghost.get(('idx', 'a'), ()) + s1.ghost.get(('idx', 'b'), ())):
                        sp.step(s1, i)
                    sp.step(s1, top)
                    if small is not None:
                        for i in range(nx):
                            sp.step(s1, i)
                        if not s1.feasible():
                            continue
                    ex.big_seqs = [('R', sp.R), ('K', sp.K), ('A', A.at), ('B', Bv.at)]
                    ex.big_out = [('R', sp.R)]
                    ex.big_after = [('top', top)]
                    bn = [b for b in ex.big_bounds if not b[0].startswith('top')]
                    ex.big_bounds = bn + [('top', top), ('top+1', top + 1)]
                start(ex, F_DIF, [pa, pb, po], s1)

                def end(s):
                    if order == 0:
                        threw(ex, s, 'C16', 'difference of equal values')
                        return
                    if s.thrown is not None:
                        post(ex, s, False, 'C16', 'difference of unequal values does not throw')
                        return
                    b = as_bool(s)
                    post(ex, s, b if order < 0 else neg(b), 'C16', 'difference reports whether this is the smaller one')
                    check_limbs(ex, s, po, top + 1, lambda x, j: sp.R(x, j), 'C16', 'difference')
                ex.run(s1, end)
    return run


# ---------------------------------------------------------------- simple ones
def t_copy(fname, how, ns):
    def run(ex):
        for n0 in ns:
            st = fresh(ex)
            pa, A, n = big(ex, st, 'a', n0, writable=False)
            if how == 'self':
                pa, A, n = big(ex, st, 'b', n0)
                po = pa
            elif how == 'assign':
                po, Bv, m = big(ex, st, 'old')
            else:
                po = raw(ex, st, 'new')
            setup(ex, st, A, n)
            ex.inputs['program'] = lits(ex, 'a', A, n, lambda ev: 'b@ac,c@a,')
            start(ex, fname, [po, pa], st)

            def end(s):
                if s.thrown is not None:
                    post(ex, s, False, 'C15', 'copying does not throw')
                    return
                if how != 'new':
                    ret_self(ex, s, po, 'C15', 'assignment')
                check_limbs(ex, s, po, n, lambda x, j: A.at(x, j), 'C15', 'copy')
            ex.run(st, end)
    return run


def t_word(fname, new):
    def run(ex):
        st = fresh(ex)
        d = atom('word', 0, B - 1)
        if new:
            p = raw(ex, st, 'new')
        else:
            p, A, n = big(ex, st, 'a')
        ex.inputs['program'] = lambda m: 'a=%d,' % m.get(d.single(), 0)
        start(ex, fname, [p, d], st)

        def end(s):
            if s.thrown is not None:
                post(ex, s, False, 'C15', 'a word can always be stored')
                return
            if not new:
                ret_self(ex, s, p, 'C15', 'assignment')
            check_limbs(ex, s, p, 1, lambda x, j: d, 'C15', 'value of a word')
        ex.run(st, end)
    return run


def t_get(ex):
    L = layout(ex)
    st = fresh(ex)
    p, A, n = big(ex, st, 'a', writable=False)
    setup(ex, st, A, n)
    start(ex, F_CNT, [p], st)

    def end(s):
        ok = s.thrown is None
        post(ex, s, ok and eq(s.uns(s.result, 64), n), 'C15,C16', 'count() is the number of limbs')
    ex.run(st, end)
    st = fresh(ex)
    p, A, n = big(ex, st, 'a', writable=False)
    i = atom('index', 0, B - 1)
    start(ex, F_DIG, [p, i], st)

    def end2(s):
        if s.decide(lt(i, n)):
            post(ex, s, s.thrown is None and eq(s.uns(s.result, 64), A.at(s, i)), 'C15,C16', 'digit(i) is limb i')
        else:
            threw(ex, s, 'C15,C16', 'digit(i) past the last limb')
    ex.run(st, end2)
    st = fresh(ex)
    p, A, n = big(ex, st, 'a', writable=False)
    start(ex, F_ZERO, [p], st)

    def end3(s):
        z = conj(eq(n, 1), eq(A.at(s, 0), 0))
        post(ex, s, s.thrown is None and iff(as_bool(s), z), 'C15,C16', 'isZero() holds exactly for zero')
    ex.run(st, end3)
    st = fresh(ex)
    p, A, n = big(ex, st, 'a', writable=False)
    d = atom('word', 0, B - 1)
    start(ex, F_EQW, [p, d], st)

    def end4(s):
        z = conj(eq(n, 1), eq(A.at(s, 0), d))
        post(ex, s, s.thrown is None and iff(as_bool(s), z), 'C16', '== word holds exactly for that value')
    ex.run(st, end4)


# ---------------------------------------------------------------- on values
def absval(ex, st, name='a'):
    L = layout(ex)
    o = st.new_obj(name, L.size, 'arg')
    V = atom('value', 0, None)
    st.assume(lt(V, capv()))
    o.cells['V'] = (8, V)
    o.data = AbsVal(L)
    return Ptr(o.id, 0), V


def t_pow5(es):
    def run(ex):
        for e0 in es:
            ex.big_value = True
            st = fresh(ex)
            p, V = absval(ex, st)
            e = atom('exponent', 0, 2**32 - 1) if e0 is None else e0
            ex.inputs['exponent'] = e
            ex.inputs['program'] = lambda m: 'a=3,a5%d,' % (m.get(e.single(), 0) if isinstance(e, Poly) else e)
            W = V * p5(st, e)

            def inv(s, v, c):
                p5(s, c)
                u = s.ghost.get('mulV')
                for x in ([] if u is None else [u]) + ([v] if isinstance(v, Poly) else []):
                    p5_lemmas(s, x)
                return eq(v * p5(s, c), W)
            ex.loop_rules = [] if e0 is not None else [BigRule()]
            ex.big_points = []
            ex.big_bounds = [('0', 0), ('exponent', e)]
            ex.big_seqs, ex.big_out = [], []
            ex.big_values = [('value * 5^counter is the result', inv)]
            start(ex, F_POW5, [p, e], st)

            def end(s):
                u = s.ghost.get('mulV', V)
                for x in {u, V} | ({value_of(ex, s, p)} if s.thrown is None else set()):
                    p5_lemmas(s, x)
                if s.thrown is not None:
                    threw(ex, s, 'C15', 'mulPow5')
                    post(ex, s, ge(W, capv()), 'C15', 'mulPow5 throws only if the result does not fit')
                    return
                ret_self(ex, s, p, 'C15', 'mulPow5')
                v = value_of(ex, s, p)
                post(ex, s, eq(v, W), 'C15', 'mulPow5 multiplies by the power of five')
                post(ex, s, lt(v, capv()), 'C15', 'mulPow5: the result fits')
            ex.run(st, end)
    return run


def t_addblk(ex):
    """add: the value times ten to the length of the block, plus the block"""
    for n in range(1, 20):
        ex.big_value = True
        st = fresh(ex)
        p, V = absval(ex, st)
        i = atom('start', 0, 1 << 40)
        o = st.new_obj('text', i + n, 'arg', writable=False)
        o.data = G.DigitText()
        ex.big_text = o.id
        ex.big_T = Seq('T', 0, None)
        x = G.blk(st, i, n)
        st.assume(eq(G.tdec(ex, st, i + n), G.tdec(ex, st, i) * 10**n + x))      # definition
        W = V * 10**n + x
        ex.inputs['value'] = V
        start(ex, F_ADDB, [p, Ptr(o.id, i), Ptr(o.id, i + n)], st)

        def end(s):
            if s.thrown is not None:
                threw(ex, s, 'C15', 'add')
                post(ex, s, ge(W, capv()), 'C15', 'add throws only if the result does not fit')
                return
            v = value_of(ex, s, p)
            post(ex, s, eq(v, W), 'C15', 'add appends the decimal digits')
        ex.run(st, end)


def t_parse(ex):
    for n in range(0, 20):
        st = fresh(ex)
        o = st.new_obj('text', n, 'arg', writable=False)
        cs = [atom('char%d' % k, -128, 127) for k in range(n)]
        for k in range(n):
            o.cells[k] = (1, cs[k])
            ex.inputs['digit%d' % k] = cs[k] - 48
        start(ex, F_PARSE, [Ptr(o.id, 0), Ptr(o.id, n)], st)

        def end(s):
            dig = conj(*[conj(ge(c, 48), le(c, 57)) for c in cs])
            if s.thrown is not None:
                threw(ex, s, 'C15', 'parse')
                post(ex, s, neg(dig), 'C15', 'parse accepts digits')
                return
            post(ex, s, dig, 'C15', 'parse rejects what is no digit')
            v = 0
            for c in cs:
                v = v * 10 + (c - 48)
            post(ex, s, eq(s.uns(s.result, 64), v), 'C15', 'parse gives the number the digits denote')
        ex.run(st, end)


def t_ctor(ns):
    def run(ex):
        for n0 in ns:
            ex.big_value = True
            st = fresh(ex)
            p = raw(ex, st, 'new')
            n = atom('length', 0, 1 << 40) if n0 is None else n0
            o = st.new_obj('text', n, 'arg', writable=False)
            o.data = G.DigitText()
            ex.big_text = o.id
            ex.big_T = Seq('T', 0, None)
            ex.inputs['program'] = lambda m: 'a"' + ('9' * (m.get(n.single(), 0) if isinstance(n, Poly) else n))[:9000] + ','

            def inv(s, v, c):
                return eq(v, tdec(ex, s, c))
            ex.loop_rules = [] if n0 is not None else [BigRule()]
            ex.big_points = []
            ex.big_bounds = [('0', 0), ('length', n)]
            ex.big_seqs, ex.big_out = [], []
            ex.big_values = [('value is the number the characters up to the counter denote', inv)]
            start(ex, F_CT, [p, Ptr(o.id, 0), n], st)

            def end(s):
                t = tdec(ex, s, n)
                if s.thrown is not None:
                    threw(ex, s, 'C15', 'constructor')
                    for i in s.ghost.get(('idx', 'T'), ()):
                        # a longer prefix denotes no smaller number
                        s.assume(disj(gt(i, n), ge(t, ex.big_T.make(i))))
                    post(ex, s, ge(t, capv()), 'C15', 'the constructor throws only if the number does not fit')
                    return
                v = value_of(ex, s, p)
                post(ex, s, eq(v, t), 'C15', 'the constructor gives the number the digits denote')
            ex.run(st, end)
    return run


# ---------------------------------------------------------------- lemmas
def lemma(ex):
    """from limbs to values: inductions over the limb index, one step each"""
    st = fresh(ex)

    def ob(c, msg):
        ex.obligation(st, c, 'post:C15,C16', 'lemma: ' + msg, assume=False)
    nn = lambda x: atom(x, 0, None)
    W, A, c, K, K1, PA, PR = (atom('W', 1, None), nn('A'), nn('c'), nn('K'), nn('K1'), nn('PA'), nn('PR'))
    K0 = nn('K0')
    # carry: PR + K*W = c*PA + K0 is kept by PR += R*W, PA += A*W, W *= B
    R = c * A + K - K1 * B
    ob(eq((PR + R * W) + K1 * (W * B) - c * (PA + A * W) - K0, PR + K * W - c * PA - K0), 'carry step keeps the value')
    ob(eq(0 + K0 * 1, c * 0 + K0), 'carry sequence starts with the addend')
    # 0 <= P < W is kept: A = B-1-a, P = W-1-u
    a, u = nn('a'), nn('u')
    ob(ge(W * B - 1 - ((W - 1 - u) + (B - 1 - a) * W), 0), 'a prefix is less than the next power')
    # carries stay below the multiplier: c*A + K <= c*(B-1) + c-1 = c*B - 1
    k = nn('k')
    ob(ge((c + 1) * B - 1 - ((c + 1) * (B - 1 - a) + (c - k)), 0), 'a carry is less than the multiplier')
    # shifting: the solved form is a carry sequence (k below 2^r, q and r quotient and remainder by 2^(64-r))
    for sh in range(64):
        cc = 1 << sh
        q, r, kk = atom('q%d' % sh, 0, cc - 1), atom('r%d' % sh, 0, B // cc - 1), atom('k%d' % sh, 0, cc - 1)
        ob(eq((r * cc + kk) + q * B, (q * (B // cc) + r) * cc + kk), 'a shift is a carry sequence')
        ob(conj(ge(r * cc + kk, 0), lt(r * cc + kk, B)), 'the limbs of a shift are limbs')
    # adding a word: A + K <= 2B-2 < 2B
    a2 = nn('a2')
    ob(lt((B - 1 - a) + (B - 1 - a2), 2 * B), 'a carry of an addition is at most one')
    # size: value = PR + K*W, PR = W-1-u; K = 0 fits n limbs; 1 <= K <= B-1 needs exactly n+1
    ob(lt(W - 1 - u, W), 'no carry out: the value fits the limbs')
    ob(ge((W - 1 - u) + (k + 1) * W - W, 0) if False else ge((k + 1) * W, W), 'a carry out: the value does not fit the limbs')
    ob(ge(W * B - 1 - ((W - 1 - u) + (B - 1 - a) * W), 0), 'a carry out: one more limb suffices')
    # top limb non-zero: P >= W of the limb below
    ob(ge((a + 1) * W + u, W), 'a non-zero top limb: the value needs all limbs')
    # order: equal above the highest difference, which decides
    p, q, x, y = nn('p'), nn('q'), nn('x'), nn('y')
    # (x+1+y)*W + P1 > y... : A(D) = b+1+x, B(D) = b, PA >= 0, PB = W-1-q
    b = nn('b')
    ob(gt((b + 1 + x) * W + p, b * W + (W - 1 - q)), 'the highest differing limb decides the order')
    ob(gt((x + 1) * W + p, W - 1 - q), 'more limbs, greater value')
    # borrow: PR - K*W = PX - PY is kept
    Y = nn('Y')
    PX, PY = nn('PX'), nn('PY')
    R2 = A - Y - K + K1 * B
    ob(eq((PR + R2 * W) - K1 * (W * B) - (PX + A * W) + (PY + Y * W), PR - K * W - PX + PY), 'borrow step keeps the value')
    # no final borrow: PR = W-1-u, PR - K*W = X - Y > 0 forces K = 0
    ob(lt((W - 1 - u) - (k + 1) * W, 0), 'no borrow out when the minuend is the greater')
    # powers
    P = atom('P', 1, None)
    ob(eq(P * 5**27, P * 5 * 5**26), 'powers of five')
    ob(ge(u * (P - 1 + 0), 0) if False else ge(u * nn('P1') + u, u), 'a positive factor does not lower a value')
    # decimal prefixes
    ob(ge(u * 10 + nn('dig'), u), 'a longer prefix denotes no smaller number')


ANY = (None,)
BN = 'operands of at most 3 limbs'
BM = 'operands of at most 5 limbs'
BL = 'operands of at most 12 limbs and of 20'
task('lemma/bigint', ['C15', 'C16'], lemma)
task('big/+=', ['C15'], t_add(ANY), fallback=t_add(LONG), bound=BL, under=F_ADD, weight=3)
MS = [2, 3, 10, 2**32 - 1]
for fn_, w, op in ((F_MUL, 64, '*'), (F_MUL32, 32, '.')):
    task('big/*=%d' % w, ['C15'], t_mul(fn_, w, ANY, (0, 1, 'any'), op), under=fn_, weight=3, variants=('gnu', 'clang', 'other'),
         fallback=t_mul(fn_, w, SMALL, [0, 1] + MS + ([2**32, 5**27, 2**64 - 1] if w == 64 else []), op), bound=BN + ', selected multipliers')
for g in range(8):
    task('big/<<=/%d' % g, ['C15'], t_shl([g + 8 * k for k in range(8)], ANY), under=F_SHL, weight=4,
         fallback=t_shl([g + 8 * k for k in range(8)], MID, (0, 1, 2, 3)), bound=BM + ', shifts below 256')
task('big/compare', ['C16'], t_cmp(None), fallback=t_cmp(LONG), bound=BL, under=F_CMP)
task('big/==', ['C16'], t_eq(None), fallback=t_eq(LONG), bound=BL, under=F_EQ)
task('big/difference', ['C16'], t_dif(None), fallback=t_dif(MID), bound=BM, under=F_DIF, weight=3)
task('big/copy', ['C15'], t_copy(F_CC, 'new', ANY), fallback=t_copy(F_CC, 'new', LONG), bound=BL, under=F_CC)
task('big/assign', ['C15'], t_copy(F_AC, 'assign', ANY), fallback=t_copy(F_AC, 'assign', LONG), bound=BL, under=F_AC)
task('big/assign-self', ['C15'], t_copy(F_AC, 'self', ANY), fallback=t_copy(F_AC, 'self', LONG), bound=BL, under=F_AC)
task('big/word', ['C15'], t_word(F_CW, True), under=F_CW)
task('big/=word', ['C15'], t_word(F_AW, False), under=F_AW)
task('big/accessors', ['C15', 'C16'], t_get, under=F_DIG)
task('big/mulPow5', ['C15'], t_pow5(ANY), fallback=t_pow5(list(range(0, 60)) + [81, 100, 135]), bound='exponents below 60 and a few above', under=F_POW5)
task('big/add-block', ['C15'], t_addblk, under=F_ADDB)
task('big/parse', ['C15'], t_parse, under=F_PARSE)
task('big/decimals', ['C15'], t_ctor(ANY), fallback=t_ctor(range(0, 80)), bound='texts of at most 79 digits', under=F_CT)
