"""Contract framework: specifications of the real functions, checked against their bodies
(check) and used in place of the bodies at call sites (apply)."""
import time
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj, implies, iff
import term as T
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, F64, F32, FP, UNDEF
import symex
from symex import Exec, Budget, THROW
import models
from models import Rope, Src, Str, RopeBuf, CStrBuf, get_str, set_str, rope_bytes

INLINE = symex.INLINE

INT_TYPES = {   # name -> (bits, signed)
    'schar': (8, True), 'uchar': (8, False), 'short': (16, True), 'ushort': (16, False),
    'int': (32, True), 'uint': (32, False), 'long': (64, True), 'ulong': (64, False),
    'llong': (64, True), 'ullong': (64, False)}


def int_range(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


class Contract:
    name = None
    prop = 'C13'

    def usable(self, ex, fn):
        return fn is not None and ex.top != self.name

    def apply(self, ex, st, args, ins):
        return INLINE


def room(st, p):
    """bytes available at p, as a term, or None"""
    if not isinstance(p, Ptr) or p.obj is None:
        return None
    o = st.obj(p.obj)
    if o.dead or not o.writable or o.kind == 'extglobal':
        return None
    return (o.size if p.bnd is None else p.bnd[1]) - p.off


def post(ex, st, c, prop, msg):
    return ex.obligation(st, c, 'post:' + prop, msg)


def must_return(ex, st, prop, what):
    if st.thrown is not None:
        post(ex, st, False, prop, '%s returns normally (it throws %s)' % (what, st.thrown[0]))
        raise Dead()


def result_string(ex, st, ptr, prop, what):
    o = st.obj(ptr.obj)
    c = o.cells.get(ptr.off)
    if c is None or not isinstance(c[1], Str):
        post(ex, st, False, prop, '%s leaves a string in its result' % what)
        raise Dead()
    return c[1].rope


def show_rope(r):
    return repr(r)


def check_decimal(ex, st, bs, x, prop, what):
    """bytes bs are the canonical decimal text of x"""
    n = len(bs)
    if st.decide(lt(x, 0)):
        post(ex, st, n >= 2, prop, '%s: a negative number has a sign and a digit' % what)
        post(ex, st, eq(st.uns(bs[0], 8), 45), prop, "%s: negative numbers start with '-'" % what)
        bs = bs[1:]
        x = -x
        n -= 1
    post(ex, st, n >= 1, prop, '%s: at least one digit' % what)
    v = 0
    us = [st.uns(b, 8) for b in bs]
    for i, u in enumerate(us):
        post(ex, st, conj(ge(u, 48), le(u, 57)), prop, '%s: character %d from the left is a digit' % (what, i))
        v = v * 10 + (u - 48)
    if n > 1:
        post(ex, st, ne(us[0], 48), prop, '%s: no leading zero' % what)
    post(ex, st, eq(v, x), prop, '%s: the digits denote the value' % what)


def string_bytes(ex, st, rope, prop, what, maxlen=64):
    if not rope.concrete():
        raise Unsupported('%s: text of symbolic length' % what)
    return [p[1] for p in rope.parts]


def forks_digits(st, v, maxd):
    """number of decimal digits of v >= 0, forking"""
    n = 1
    while n < maxd and not st.decide(lt(v, 10 ** n)):
        n += 1
    return n


def fresh_digits(st, v, n, tag):
    """n digit characters denoting v"""
    out = []
    s = 0
    for i in range(n):
        d = st.fresh(tag + 'd%d' % i, 49 if (i == 0 and n > 1) else 48, 57)
        out.append(d)
        s = s * 10 + (d - 48)
    st.assume(eq(s, v))
    return out


class ToA(Contract):
    """u32toa, i32toa, u64toa, i64toa"""
    prop = 'C01'

    def __init__(self, name, w, signed):
        self.name = name
        self.w = w
        self.signed = signed
        self.maxlen = (20 if w == 64 and not signed else 19 if w == 64 else 10) + (1 if signed else 0)
        self.room = 22 if w == 64 and signed else 21 if w == 64 else 12 if signed else 11

    def apply(self, ex, st, args, ins):
        v, buf = args
        r = room(st, buf)
        if r is None or not st.entails(ge(r, self.room)) or not isinstance(buf.off, int):
            return INLINE
        x = st.sgn(v, self.w) if self.signed else st.uns(v, self.w)
        bs = []
        if self.signed and st.decide(lt(x, 0)):
            bs.append(45)
            x = -x
        n = forks_digits(st, x, self.maxlen)
        bs += fresh_digits(st, x, n, 'toa')
        for i in range(self.room):
            ex.raw_store(st, buf.obj, buf.off + i, 1, bs[i] if i < len(bs) else st.fresh('junk', 0, 255))
        return buf.plus(len(bs))

    def check(self, ex):
        fn = ex.prog.func(self.name)
        if fn is None:
            raise Missing(self.name)
        st = State(ex)
        b = st.new_obj('buffer', self.room, 'arg')
        lo, hi = int_range(self.w, self.signed)
        v = atom('value', lo, hi)
        ex.inputs['value'] = v
        ex.top = self.name
        ex.start(fn, [v, Ptr(b.id, 0)], st)

        def end(s):
            must_return(ex, s, self.prop, self.name)
            p = s.result
            post(ex, s, isinstance(p, Ptr) and p.obj == b.id, self.prop, 'returns a pointer into the buffer')
            n = s.concretize(p.off, 32)
            post(ex, s, 1 <= n < self.room, self.prop, 'the text and a terminator fit')
            bs = [rd(ex, s, b.id, i) for i in range(n)]
            check_decimal(ex, s, bs, v, self.prop, self.name)
        ex.run(st, end)


def rd(ex, st, oid, off):
    b = ex.byte_at(st, st.obj(oid), off)
    if b is None or b is UNDEF:
        ex.fail(st, 'uninitialised', 'byte %s of the result was never written' % off)
    return b


class Missing(Exception):
    pass


CONTRACTS = {}
for nm, w, s, a in (('u32toa', 32, False, 'unsigned int'), ('i32toa', 32, True, 'int'),
                    ('u64toa', 64, False, 'unsigned long'), ('i64toa', 64, True, 'long')):
    c = ToA('lexi::detail::%s(%s, char*)' % (nm, a), w, s)
    CONTRACTS[c.name] = c


# ---------------------------------------------------------------- escape / jsonify
class EscapeSpec:
    name = 'escape'

    def consume(self, ex, st, c, bs, kind, what):
        """bs starts with the image of byte c; the number of bytes it takes"""
        esc = conj(le(c, 126), neg(disj(conj(ge(c, 48), le(c, 57)), conj(ge(c, 65), le(c, 90)), conj(ge(c, 97), le(c, 122)))))
        want = [92, c] if st.decide(esc) else [c]
        return self.match(ex, st, want, bs, kind, what)

    def match(self, ex, st, want, bs, kind, what):
        ex.obligation(st, len(bs) >= len(want), kind, '%s: %d bytes for an input byte' % (what, len(want)))
        for i, w in enumerate(want):
            ex.obligation(st, eq(st.uns(bs[i], 8), w), kind, '%s: byte %d of %d for an input byte' % (what, i + 1, len(want)))
        return len(want)


class JsonSpec(EscapeSpec):
    name = 'jsonify'
    SHORT = {8: 98, 9: 116, 10: 110, 12: 102, 13: 114, 34: 34, 92: 92}

    def consume(self, ex, st, c, bs, kind, what):
        if not st.decide(disj(lt(c, 32), eq(c, 34), eq(c, 92))):
            return self.match(ex, st, [c], bs, kind, what)
        k = st.concretize(c, 40, 'input byte')
        ex.obligation(st, len(bs) >= 2, kind, '%s: an escape for byte %d' % (what, k))
        ex.obligation(st, eq(st.uns(bs[0], 8), 92), kind, '%s: backslash for byte %d' % (what, k))
        if k in self.SHORT and st.decide(eq(st.uns(bs[1], 8), self.SHORT[k])):
            return 2
        ex.obligation(st, eq(st.uns(bs[1], 8), 117), kind, '%s: escape letter for byte %d' % (what, k))
        ex.obligation(st, len(bs) >= 6, kind, '%s: four hex digits for byte %d' % (what, k))
        for i, ch in enumerate('%04x' % k):
            ex.obligation(st, disj(eq(st.uns(bs[2 + i], 8), ord(ch)), eq(st.uns(bs[2 + i], 8), ord(ch.upper()))), kind,
                          '%s: hex digit %d for byte %d' % (what, i, k))
        return 6


SPECS = {'escape': EscapeSpec(), 'jsonify': JsonSpec()}


def check_mapped(ex, st, parts, g, src, prop, what):
    """parts are the images under g of the bytes of src, in order"""
    kind = 'post:' + prop
    i = 0
    k = 0
    parts = list(parts)
    while k < len(parts):
        p = parts[k]
        if p[0] == 'm':
            if isinstance(p[2], Fixed) and isinstance(src, Fixed) and p[1] is g:
                ex.obligation(st, i + p[2].n <= src.n, kind, '%s: images of the input bytes' % what)
                for j in range(p[2].n):
                    ex.obligation(st, eq(p[2].at(st, j), src.at(st, i + j)), kind, '%s: images of the input bytes' % what)
                i += p[2].n
                k += 1
                continue
            ex.obligation(st, p[1] is g and p[2] is src, kind, '%s: images of the input bytes' % what)
            ex.obligation(st, eq(p[3], i), kind, '%s: no input byte skipped or repeated' % what)
            i = p[4]
            k += 1
        elif p[0] == 'b':
            ex.obligation(st, lt(i, src.n), kind, '%s: nothing after the last input byte' % what)
            j = k
            while j < len(parts) and parts[j][0] == 'b':
                j += 1
            k += g.consume(ex, st, src.at(st, i), [x[1] for x in parts[k:j]], kind, what)
            i = i + 1
        else:
            ex.obligation(st, False, kind, '%s: unescaped input in the result' % what)
            raise Dead()
    ex.obligation(st, eq(i, src.n), kind, '%s: every input byte is in the result' % what)


class Fixed:
    """a source of known length"""

    def __init__(self, bs):
        self.bs = bs
        self.n = len(bs)
        self.name = 'fixed%s' % (bs,)

    def __repr__(self):
        return self.name

    def at(self, st, i):
        return self.bs[i]


def sym_string(st, name, n=None, lo=0, dec=None):
    """(object pointer, Src) of a std::string argument with arbitrary contents"""
    if n is None:
        n = atom(name + '.size', 0, 1 << 40)
    src = Src(name, n, dec, lo)
    o = st.new_obj(name, 32, 'arg', writable=False)
    if isinstance(n, int):
        r = rope_bytes([src.at(st, i) for i in range(n)])
    else:
        r = Rope([('s', src, 0, n)])
    o.cells[0] = (32, Str(r))
    return Ptr(o.id, 0), src


def sret(st):
    o = st.new_obj('result', 32, 'arg')
    return Ptr(o.id, 0)


class MapFn(Contract):
    """lexi::detail::escape, lexi::detail::jsonify"""

    def __init__(self, name, g, prop):
        self.name = name
        self.g = g
        self.prop = prop

    def apply(self, ex, st, args, ins):
        dst, src = args
        r = get_str(ex, st, src).rope
        if r.concrete() and len(r.parts) > 1:
            f = Fixed([st.uns(p[1], 8) for p in r.parts])
            set_str(ex, st, dst, Rope([('m', self.g, f, 0, f.n)]))
            return None
        if not any(p[0] == 's' for p in r.parts) or any(p[0] != 's' for p in r.parts):
            return INLINE
        set_str(ex, st, dst, Rope([('m', self.g, p[1], p[2], p[3]) for p in r.parts]))
        return None

    def check(self, ex, n=None):
        from loops import MapRule
        fn = ex.prog.func(self.name)
        if fn is None:
            raise Missing(self.name)
        st = State(ex)
        sp, src = sym_string(st, 'src', n)
        dst = sret(st)
        if n is not None:
            for i in range(n):
                ex.inputs['src[%d]' % i] = src.at(st, i)
        else:
            ex.inputs['src.size'] = src.n
            ex.loop_rules = [MapRule(self.g, src)]
        ex.top = self.name
        ex.start(fn, [dst, sp], st)

        def end(s):
            must_return(ex, s, self.prop, self.name)
            r = result_string(ex, s, dst, self.prop, self.name)
            check_mapped(ex, s, r.parts, self.g, src, self.prop, self.name)
        ex.run(st, end)


for nm, pr in (('escape', 'C09'), ('jsonify', 'C08')):
    c = MapFn('lexi::detail::%s(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)' % nm,
              SPECS[nm], pr)
    CONTRACTS[c.name] = c
