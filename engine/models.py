"""Assumed contracts: C library, C++ runtime and std::string.  Every one that is used in
a run is listed in the evidence as an assumption."""
import re
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj
import term as T
from irparse import Unsupported
from state import (Fork, Dead, Ptr, NULL, FnPtr, PInt, F64, F32, FP, UNDEF)
import symex
from symex import THROW

STR = re.escape('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >')
MAXSTR = 1 << 62


# ---------------------------------------------------------------- ropes
class Src:
    """a symbolic byte sequence of symbolic length"""

    def __init__(self, name, n, dec=None, lo=0):
        self.name = name
        self.n = n
        self.lo = lo
        self.dec = dec      # ghost: what number the text denotes, for abstract decimal text

    def at(self, st, i):
        i0 = i
        if isinstance(i, Poly):
            lo, hi = st.ival(i)
            if lo is not None and lo == hi:
                i = lo
        known = st.ghost.get(('idx', self.name), ())
        if i not in known:
            for j in known:
                d = eq(i, j)
                if st.quick(d) is False:
                    continue
                if st.decide(d):
                    i = j
                    break
            else:
                st.ghost[('idx', self.name)] = known + (i,)
        return atom('%s[%s]' % (self.name, i), self.lo, 255)

    def __repr__(self):
        return self.name


class Rope:
    """immutable byte sequence: parts ('b', term) | ('s', src, lo, hi) | ('m', g, src, lo, hi)"""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def length(self, st):
        n = 0
        for p in self.parts:
            if p[0] == 'b':
                n = n + 1
            elif p[0] == 's':
                n = n + (p[3] - p[2])
            else:
                n = n + maplen(p)
        return n

    def add(self, st, other):
        parts = list(self.parts)
        for p in other.parts:
            parts = append_part(st, parts, p)
        return Rope(parts)

    def concrete(self):
        return all(p[0] == 'b' for p in self.parts)

    def __repr__(self):
        s = []
        for p in self.parts:
            if p[0] == 'b':
                s.append(repr(chr(p[1])) if isinstance(p[1], int) else str(p[1]))
            else:
                s.append(str(p))
        return 'Rope(' + ' '.join(s) + ')'


def maplen(p):
    return atom('len_%s(%s,%s,%s)' % (p[1].name, p[2], p[3], p[4]), 0, MAXSTR)


def append_part(st, parts, p):
    if p[0] == 's':
        lo, hi = p[2], p[3]
        if isinstance(hi - lo, int):
            k = hi - lo
            if k <= 64:
                return parts + [('b', p[1].at(st, lo + i)) for i in range(k)]
        if parts and parts[-1][0] == 's' and parts[-1][1] is p[1] and parts[-1][3] == p[2]:
            return parts[:-1] + [('s', p[1], parts[-1][2], p[3])]
    if p[0] == 'm':
        if p[3] == p[4]:
            return parts
        if parts and parts[-1][0] == 'm' and parts[-1][1] is p[1] and parts[-1][2] is p[2] and parts[-1][4] == p[3]:
            return parts[:-1] + [('m', p[1], p[2], parts[-1][3], p[4])]
    return parts + [p]


def rope_bytes(bs):
    return Rope([('b', b) for b in bs])


def rope_at(st, r, i):
    """byte at index i (0 <= i < length known)"""
    pos = 0
    for p in r.parts:
        if p[0] == 'b':
            if isinstance(pos, int) and isinstance(i, int):
                if pos == i:
                    return p[1]
            elif st.decide(eq(i, pos)):
                return p[1]
            pos = pos + 1
        elif p[0] == 's':
            n = p[3] - p[2]
            if st.decide(lt(i, pos + n)):
                return p[1].at(st, p[2] + (i - pos))
            pos = pos + n
        else:
            n = maplen(p)
            if st.decide(lt(i, pos + n)):
                raise Unsupported('index into a mapped string')
            pos = pos + n
    raise Unsupported('rope index')


class Str:
    """value of a std::string object"""
    __slots__ = ('rope', 'buf')

    def __init__(self, rope, buf=None):
        self.rope = rope
        self.buf = buf


class RopeBuf:
    """the character storage of a std::string: a view of its owner's rope"""

    def __init__(self, oobj, ooff):
        self.oobj = oobj
        self.ooff = ooff

    def owner(self, ex, st, o):
        ow = st.obj(self.oobj)
        c = ow.cells.get(self.ooff)
        if ow.dead or c is None or not isinstance(c[1], Str) or c[1].buf != o.id:
            ex.fail(st, 'memory', 'use of string storage after the string changed or was destroyed')
        return c[1]

    def load(self, ex, st, o, off, size):
        s = self.owner(ex, st, o)
        if size != 1:
            t = 0
            for i in range(size):
                t = t + st.uns(self.load(ex, st, o, off + i, 1), 8) * (1 << (8 * i))
            return t
        n = s.rope.length(st)
        if st.decide(eq(off, n)):
            return 0
        return rope_at(st, s.rope, off)

    def store(self, ex, st, o, off, size, v):
        s = self.owner(ex, st, o)
        if size != 1 or not s.rope.concrete():
            raise Unsupported('write into string storage')
        off = st.concretize(off, 64)
        if off == len(s.rope.parts):
            ex.obligation(st, eq(st.uns(v, 8), 0), 'memory', 'terminator of a string not overwritten')
            return
        parts = list(s.rope.parts)
        parts[off] = ('b', v)
        ow = st.wobj(self.oobj)
        ow.cells[self.ooff] = (32, Str(Rope(parts), s.buf))

    def copy(self, ex, st, do, doff, so, soff, n):
        if isinstance(n, Poly):
            n = st.concretize(n, 64, 'copy size')
        vals = []
        for i in range(n):
            if so.data is not None and not isinstance(so.data, tuple):
                vals.append(so.data.load(ex, st, so, soff + i, 1))
            else:
                k = st.concretize(soff, 64)
                b = ex.byte_at(st, so, k + i)
                if b is None:
                    ex.fail(st, 'uninitialised', 'copy of uninitialised bytes into a string')
                vals.append(b)
        if do.data is not None and not isinstance(do.data, tuple):
            for i, v in enumerate(vals):
                do.data.store(ex, st, do, doff + i, 1, v)
        else:
            k = st.concretize(doff, 64)
            for i, v in enumerate(vals):
                ex.raw_store(st, do.id, k + i, 1, v)


# ---------------------------------------------------------------- string helpers
def get_str(ex, st, p):
    o, off = ex.access(st, p, 32, 'use of a string')
    if not isinstance(off, int):
        off = st.concretize(off, 16)
    c = o.cells.get(off)
    if c is None or not isinstance(c[1], Str):
        ex.fail(st, 'memory', 'use of a string that is not alive')
    if o.kind == 'global' and o.writable:
        ex.check_mutable_global(st, o)
    return c[1]


def set_str(ex, st, p, rope):
    o, off = ex.access(st, p, 32, 'use of a string')
    ex.check_frame(st, o, off, 32)
    w = st.wobj(o.id)
    ex.clear(st, w, off, 32)
    w.cells[off] = (32, Str(rope))


def kill_str(ex, st, p):
    o, off = ex.access(st, p, 32, 'destruction of a string')
    w = st.wobj(o.id)
    w.cells.pop(off, None)


def data_ptr(ex, st, p):
    s = get_str(ex, st, p)
    o, off = ex.access(st, p, 32, 'use of a string')
    if s.buf is None:
        b = st.new_obj('chars', s.rope.length(st) + 1, 'strbuf')
        b.writable = True
        b.data = RopeBuf(o.id, off)
        b.kind = 'heap'
        w = st.wobj(o.id)
        w.cells[off] = (32, Str(s.rope, b.id))
        return Ptr(b.id, 0)
    return Ptr(s.buf, 0)


def read_range(ex, st, p, n):
    """n bytes at p as a rope"""
    if isinstance(n, int) and n == 0:
        return Rope()
    o, off = ex.access(st, p, n, 'read')
    if o.kind == 'global' and o.writable:
        ex.check_mutable_global(st, o)
    if isinstance(o.data, RopeBuf):
        s = o.data.owner(ex, st, o)
        return sub_rope(ex, st, s.rope, off, n)
    if isinstance(n, Poly):
        n = st.concretize(n, 64, 'length')
    if isinstance(off, Poly):
        off = st.concretize(off, 64, 'offset')
    out = []
    for i in range(n):
        if o.data is not None and not isinstance(o.data, tuple):
            out.append(o.data.load(ex, st, o, off + i, 1))
            continue
        b = ex.byte_at(st, o, off + i)
        if b is None or b is UNDEF:
            ex.fail(st, 'uninitialised', 'read of uninitialised bytes at offset %d of %s' % (off + i, o.name))
        if isinstance(b, tuple):
            raise Unsupported('pointer bytes in text')
        out.append(b)
    return rope_bytes(out)


def sub_rope(ex, st, r, off, n):
    """[off, off+n) of r"""
    tot = r.length(st)
    if isinstance(off, int) and off == 0 and st.quick(eq(n, tot)):
        return r
    if isinstance(off, int) and off == 0 and st.entails(eq(n, tot)):
        return r
    if r.concrete():
        off = st.concretize(off, 64)
        n = st.concretize(n, 64)
        return Rope(r.parts[off:off + n])
    if len(r.parts) == 1 and r.parts[0][0] == 's':
        p = r.parts[0]
        return Rope(append_part(st, [], ('s', p[1], p[2] + off, p[2] + off + n)))
    if isinstance(n, Poly):
        n = st.concretize(n, 64)
    return rope_bytes([rope_at(st, r, off + i) for i in range(n)])


def cstr_len(ex, st, p):
    """strlen at p; forks on symbolic contents"""
    o, off = ex.access(st, p, 1, 'read')
    if isinstance(o.data, RopeBuf):
        s = o.data.owner(ex, st, o)
        if not s.rope.concrete():
            if len(s.rope.parts) == 1 and s.rope.parts[0][0] == 's':
                src = s.rope.parts[0][1]
                if getattr(src, 'nonul', False):
                    return s.rope.length(st) - off
                # the end, or a NUL before it (the bytes in between are not constrained: more behaviours than there are)
                n = s.rope.length(st) - off
                m = st.fresh('strlen', 0, 1 << 40)
                if st.decide(eq(m, n)):
                    return n
                st.assume(lt(m, n))
                st.assume(eq(rope_at(st, s.rope, off + m), 0))
                return m
            raise Unsupported('strlen of a symbolic string')
        off = st.concretize(off, 64)
        parts = s.rope.parts
        for i in range(off, len(parts)):
            if st.decide(eq(st.uns(parts[i][1], 8), 0)):
                return i - off
        return len(parts) - off
    off = st.concretize(off, 64)
    i = off
    while True:
        ex.access(st, Ptr(o.id, i), 1, 'read')
        b = ex.byte_at(st, o, i) if not (o.data is not None and not isinstance(o.data, tuple)) else o.data.load(ex, st, o, i, 1)
        if b is None or b is UNDEF:
            ex.fail(st, 'uninitialised', 'strlen reads an uninitialised byte of %s' % o.name)
        if st.decide(eq(st.uns(b, 8), 0)):
            return i - off
        i += 1


def cstr_rope(ex, st, p):
    if not isinstance(p, Ptr) or p.obj is None:
        ex.fail(st, 'memory', 'null passed as a C string')
    o = st.obj(p.obj)
    if isinstance(o.data, Src):
        return Rope([('s', o.data, 0, o.data.n)])
    if isinstance(o.data, CStrBuf):
        return o.data.rope_from(ex, st, o, p.off)
    n = cstr_len(ex, st, p)
    return read_range(ex, st, p, n)


class CStrBuf:
    """a C string argument: NUL-terminated bytes of a Src without NULs"""

    def __init__(self, src):
        self.src = src

    def load(self, ex, st, o, off, size):
        if size != 1:
            raise Unsupported('wide load from C string')
        if st.decide(eq(off, self.src.n)):
            return 0
        return self.src.at(st, off)

    def store(self, *a):
        raise Unsupported('store into C string')

    def copy(self, ex, st, do, doff, so, soff, n):
        raise Unsupported('copy of C string')

    def rope_from(self, ex, st, o, off):
        return Rope(append_part(st, [], ('s', self.src, off, self.src.n)))


def rope_eq(ex, st, a, b):
    """condition a == b (bytewise)"""
    if a.parts == b.parts:
        return True
    if a.concrete() and b.concrete():
        if len(a.parts) != len(b.parts):
            return False
        return conj(*[eq(st.uns(x[1], 8), st.uns(y[1], 8)) for x, y in zip(a.parts, b.parts)])
    if b.concrete() or a.concrete():
        if a.concrete():
            a, b = b, a
        n = len(b.parts)
        la = a.length(st)
        if not st.decide(eq(la, n)):
            return False
        # same length: compare byte by byte
        cs = []
        for i in range(n):
            cs.append(eq(st.uns(rope_at(st, a, i), 8), st.uns(b.parts[i][1], 8)))
        return conj(*cs)
    raise Unsupported('comparison of two symbolic strings')


def compare_ropes(ex, st, a, b):
    if st.decide(rope_eq(ex, st, a, b)):
        return 0
    r = st.fresh('cmp', -(2**31), 2**31 - 1)
    if st.decide(lt(r, 0)):
        return r
    st.assume(gt(r, 0))
    return r


def throw_std(ex, st, ti):
    e = st.new_obj('exception', 16, 'exc')
    ex.throw(st, (ti, Ptr(e.id, 0)))
    return THROW


TABLE = []


def model(rx):
    def d(f):
        TABLE.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def lookup(ex, name, dem):
    k = (name, dem)
    if k not in _cache:
        r = None
        for rx, f in TABLE:
            if rx.fullmatch(dem) or rx.fullmatch(name):
                r = f
                break
        _cache[k] = r
    return _cache[k]


def S(m):
    return STR + '::' + m


STRR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
STRC = re.escape(STRR + ' const&')
STRM = re.escape(STRR + '&&')


# ---------------------------------------------------------------- allocator, iterators
@model(r'std::(allocator|__new_allocator)<char>::.*')
def m_alloc(ex, st, a, ins):
    return None


# ---------------------------------------------------------------- constructors
@model(S(r'basic_string\(\)') + '|' + S(r'basic_string\(std::allocator<char> const&\)'))
def m_ctor(ex, st, a, ins):
    set_str(ex, st, a[0], Rope())


@model(S(r'basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)'))
def m_ctor_c(ex, st, a, ins):
    set_str(ex, st, a[0], cstr_rope(ex, st, a[1]))


@model(S(r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)'))
def m_ctor_cn(ex, st, a, ins):
    set_str(ex, st, a[0], read_range(ex, st, a[1], st.uns(a[2], 64)))


@model(S(r'basic_string\(' + STRC + r'\)') + '|' + S(r'basic_string\(' + STRC + r', std::allocator<char> const&\)'))
def m_ctor_copy(ex, st, a, ins):
    set_str(ex, st, a[0], get_str(ex, st, a[1]).rope)


@model(S(r'basic_string\(' + STRM + r'(, std::allocator<char> const&)?\)'))
def m_ctor_move(ex, st, a, ins):
    r = get_str(ex, st, a[1]).rope
    set_str(ex, st, a[1], Rope())
    set_str(ex, st, a[0], r)


@model(S(r'basic_string(<std::allocator<char> >)?\(unsigned long, char, std::allocator<char> const&\)'))
def m_ctor_nc(ex, st, a, ins):
    n = st.concretize(st.uns(a[1], 64), 64, 'string size')
    set_str(ex, st, a[0], rope_bytes([a[2]] * n))


@model(S(r'basic_string\(' + STRC + r', unsigned long(, unsigned long)?\)') + '|' + S(r'substr\(unsigned long, unsigned long\) const'))
def m_substr(ex, st, a, ins):
    r = get_str(ex, st, a[1]).rope
    pos = st.uns(a[2], 64)
    n = r.length(st)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    k = n - pos
    if len(a) > 3:
        m = st.uns(a[3], 64)
        if st.decide(lt(m, k)):
            k = m
    set_str(ex, st, a[0], sub_rope(ex, st, r, pos, k))


@model(S(r'basic_string<.*>\(.*, std::allocator<char> const&\)'))
def m_ctor_iter(ex, st, a, ins):
    p, q = a[1], a[2]
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj):
        raise Unsupported('string from iterators')
    set_str(ex, st, a[0], read_range(ex, st, p, q.off - p.off) if p.obj is not None else Rope())


@model(S(r'~basic_string\(\)'))
def m_dtor(ex, st, a, ins):
    get_str(ex, st, a[0])
    kill_str(ex, st, a[0])


# ---------------------------------------------------------------- assignment
@model(S(r'(operator=|assign)\(' + STRC + r'\)'))
def m_asg(ex, st, a, ins):
    set_str(ex, st, a[0], get_str(ex, st, a[1]).rope)
    return a[0]


@model(S(r'(operator=|assign)\(' + STRM + r'\)'))
def m_asgm(ex, st, a, ins):
    r = get_str(ex, st, a[1]).rope
    set_str(ex, st, a[1], Rope())
    set_str(ex, st, a[0], r)
    return a[0]


@model(S(r'(operator=|assign)\(char const\*\)'))
def m_asgc(ex, st, a, ins):
    set_str(ex, st, a[0], cstr_rope(ex, st, a[1]))
    return a[0]


@model(S(r'assign\(char const\*, unsigned long\)'))
def m_asgcn(ex, st, a, ins):
    set_str(ex, st, a[0], read_range(ex, st, a[1], st.uns(a[2], 64)))
    return a[0]


@model(S(r'operator=\(char\)'))
def m_asgch(ex, st, a, ins):
    set_str(ex, st, a[0], rope_bytes([a[1]]))
    return a[0]


@model(S(r'assign\(unsigned long, char\)'))
def m_asgn(ex, st, a, ins):
    set_str(ex, st, a[0], rope_bytes([a[2]] * st.concretize(st.uns(a[1], 64), 64)))
    return a[0]


# ---------------------------------------------------------------- appending
def app(ex, st, p, r):
    s = get_str(ex, st, p)
    set_str(ex, st, p, s.rope.add(st, r))


@model(S(r'push_back\(char\)'))
def m_push(ex, st, a, ins):
    app(ex, st, a[0], rope_bytes([a[1]]))


@model(S(r'operator\+=\(char\)'))
def m_pluseq(ex, st, a, ins):
    app(ex, st, a[0], rope_bytes([a[1]]))
    return a[0]


@model(S(r'(append|operator\+=)\(char const\*\)'))
def m_app_c(ex, st, a, ins):
    app(ex, st, a[0], cstr_rope(ex, st, a[1]))
    return a[0]


@model(S(r'append\(char const\*, unsigned long\)'))
def m_app_cn(ex, st, a, ins):
    app(ex, st, a[0], read_range(ex, st, a[1], st.uns(a[2], 64)))
    return a[0]


@model(S(r'(append|operator\+=)\(' + STRC + r'\)'))
def m_app_s(ex, st, a, ins):
    app(ex, st, a[0], get_str(ex, st, a[1]).rope)
    return a[0]


@model(S(r'append\(unsigned long, char\)'))
def m_app_nc(ex, st, a, ins):
    app(ex, st, a[0], rope_bytes([a[2]] * st.concretize(st.uns(a[1], 64), 64)))
    return a[0]


@model(S(r'append\(' + STRC + r', unsigned long, unsigned long\)'))
def m_app_sub(ex, st, a, ins):
    r = get_str(ex, st, a[1]).rope
    pos = st.uns(a[2], 64)
    n = r.length(st)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    k = n - pos
    m = st.uns(a[3], 64)
    if st.decide(lt(m, k)):
        k = m
    app(ex, st, a[0], sub_rope(ex, st, r, pos, k))
    return a[0]


@model('.*' + S(r'(append|_M_append)<.*>\(.*\)'))
def m_app_it(ex, st, a, ins):
    p, q = a[1], a[2]
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj):
        raise Unsupported('append of iterators')
    app(ex, st, a[0], read_range(ex, st, p, q.off - p.off))
    return a[0]


@model(S(r'append\(std::initializer_list<char>\)') + '|' + S(r'operator\+=\(std::initializer_list<char>\)'))
def m_app_il(ex, st, a, ins):
    app(ex, st, a[0], read_range(ex, st, a[1], st.uns(a[2], 64)))
    return a[0]


def ins_at(ex, st, p, pos, r):
    s = get_str(ex, st, p).rope
    n = s.length(st)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    if isinstance(pos, int) and pos == 0:
        set_str(ex, st, p, r.add(st, s))
    elif st.decide(eq(pos, n)):
        set_str(ex, st, p, s.add(st, r))
    else:
        if not s.concrete():
            raise Unsupported('insert into a symbolic string')
        pos = st.concretize(pos, 64)
        set_str(ex, st, p, Rope(s.parts[:pos] + r.parts + s.parts[pos:]))
    return p


@model(S(r'insert\(unsigned long, char const\*\)'))
def m_ins_c(ex, st, a, ins):
    return ins_at(ex, st, a[0], st.uns(a[1], 64), cstr_rope(ex, st, a[2]))


@model(S(r'insert\(unsigned long, ' + STRC + r'\)'))
def m_ins_s(ex, st, a, ins):
    return ins_at(ex, st, a[0], st.uns(a[1], 64), get_str(ex, st, a[2]).rope)


@model(S(r'insert\(unsigned long, char const\*, unsigned long\)'))
def m_ins_cn(ex, st, a, ins):
    return ins_at(ex, st, a[0], st.uns(a[1], 64), read_range(ex, st, a[2], st.uns(a[3], 64)))


@model(S(r'insert\(unsigned long, unsigned long, char\)'))
def m_ins_nc(ex, st, a, ins):
    return ins_at(ex, st, a[0], st.uns(a[1], 64), rope_bytes([a[3]] * st.concretize(st.uns(a[2], 64), 64)))


@model(S(r'insert\(__gnu_cxx::__normal_iterator<char( const)?\*, .*>, char\)'))
def m_ins_it(ex, st, a, ins):
    r = ins_at(ex, st, a[0], a[1].off, rope_bytes([a[2]]))
    if r is THROW:
        return r
    return Ptr(data_ptr(ex, st, a[0]).obj, a[1].off)


# ---------------------------------------------------------------- queries
@model(S(r'(size|length)\(\) const'))
def m_size(ex, st, a, ins):
    return get_str(ex, st, a[0]).rope.length(st)


@model(S(r'capacity\(\) const') + '|' + S(r'max_size\(\) const'))
def m_cap(ex, st, a, ins):
    raise Unsupported('capacity')


@model(S(r'empty\(\) const'))
def m_empty(ex, st, a, ins):
    return eq(get_str(ex, st, a[0]).rope.length(st), 0)


@model(S(r'(data|c_str|begin|cbegin)\(\)( const)?'))
def m_data(ex, st, a, ins):
    return data_ptr(ex, st, a[0])


@model(S(r'(end|cend)\(\)( const)?'))
def m_end(ex, st, a, ins):
    p = data_ptr(ex, st, a[0])
    return Ptr(p.obj, get_str(ex, st, a[0]).rope.length(st))


@model(S(r'front\(\)( const)?'))
def m_front(ex, st, a, ins):
    n = get_str(ex, st, a[0]).rope.length(st)
    ex.obligation(st, gt(n, 0), 'memory', 'front() of a non-empty string')
    return data_ptr(ex, st, a[0])


@model(S(r'back\(\)( const)?'))
def m_back(ex, st, a, ins):
    n = get_str(ex, st, a[0]).rope.length(st)
    ex.obligation(st, gt(n, 0), 'memory', 'back() of a non-empty string')
    p = data_ptr(ex, st, a[0])
    return Ptr(p.obj, n - 1)


@model(S(r'operator\[\]\(unsigned long\)( const)?'))
def m_index(ex, st, a, ins):
    n = get_str(ex, st, a[0]).rope.length(st)
    i = st.uns(a[1], 64)
    ex.obligation(st, le(i, n), 'memory', 'string index within size')
    p = data_ptr(ex, st, a[0])
    return Ptr(p.obj, i)


@model(S(r'at\(unsigned long\)( const)?'))
def m_at(ex, st, a, ins):
    n = get_str(ex, st, a[0]).rope.length(st)
    i = st.uns(a[1], 64)
    if st.decide(ge(i, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    p = data_ptr(ex, st, a[0])
    return Ptr(p.obj, i)


@model(S(r'(reserve|shrink_to_fit)\(.*\)'))
def m_reserve(ex, st, a, ins):
    s = get_str(ex, st, a[0])
    set_str(ex, st, a[0], s.rope)


@model(S(r'clear\(\)'))
def m_clear(ex, st, a, ins):
    get_str(ex, st, a[0])
    set_str(ex, st, a[0], Rope())


@model(S(r'pop_back\(\)'))
def m_pop(ex, st, a, ins):
    r = get_str(ex, st, a[0]).rope
    ex.obligation(st, gt(r.length(st), 0), 'memory', 'pop_back() of a non-empty string')
    if not r.parts or r.parts[-1][0] != 'b':
        raise Unsupported('pop_back of a symbolic string')
    set_str(ex, st, a[0], Rope(r.parts[:-1]))


@model(S(r'resize\(unsigned long(, char)?\)'))
def m_resize(ex, st, a, ins):
    r = get_str(ex, st, a[0]).rope
    if not r.concrete():
        raise Unsupported('resize of a symbolic string')
    n = st.concretize(st.uns(a[1], 64), 64)
    c = a[2] if len(a) > 2 else 0
    parts = list(r.parts[:n]) + [('b', c)] * max(0, n - len(r.parts))
    set_str(ex, st, a[0], Rope(parts))


@model(S(r'compare\(char const\*\) const'))
def m_cmp_c(ex, st, a, ins):
    return compare_ropes(ex, st, get_str(ex, st, a[0]).rope, cstr_rope(ex, st, a[1]))


@model(S(r'compare\(' + STRC + r'\) const'))
def m_cmp_s(ex, st, a, ins):
    return compare_ropes(ex, st, get_str(ex, st, a[0]).rope, get_str(ex, st, a[1]).rope)


@model(S(r'compare\(unsigned long, unsigned long, char const\*\) const'))
def m_cmp_sub(ex, st, a, ins):
    r = get_str(ex, st, a[0]).rope
    pos, k = st.uns(a[1], 64), st.uns(a[2], 64)
    n = r.length(st)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    m = n - pos
    if st.decide(lt(k, m)):
        m = k
    return compare_ropes(ex, st, sub_rope(ex, st, r, pos, m), cstr_rope(ex, st, a[3]))


@model(S(r'compare\(unsigned long, unsigned long, ' + STRC + r'\) const') + '|' + S(r'compare\(unsigned long, unsigned long, char const\*, unsigned long\) const'))
def m_cmp_sub2(ex, st, a, ins):
    r = get_str(ex, st, a[0]).rope
    pos, k = st.uns(a[1], 64), st.uns(a[2], 64)
    n = r.length(st)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    m = n - pos
    if st.decide(lt(k, m)):
        m = k
    o = get_str(ex, st, a[3]).rope if len(a) == 4 else read_range(ex, st, a[3], st.uns(a[4], 64))
    return compare_ropes(ex, st, sub_rope(ex, st, r, pos, m), o)


@model(S(r'copy\(char\*, unsigned long, unsigned long\) const'))
def m_str_copy(ex, st, a, ins):
    n = get_str(ex, st, a[0]).rope.length(st)
    k, pos = st.uns(a[2], 64), st.uns(a[3], 64)
    if st.decide(gt(pos, n)):
        return throw_std(ex, st, '_ZTISt12out_of_range')
    m = n - pos
    if st.decide(lt(k, m)):
        m = k
    if not st.decide(eq(m, 0)):
        p = data_ptr(ex, st, a[0])
        m = st.concretize(m, 64, 'copy size') if isinstance(m, Poly) else m
        ex.copy(st, a[1], p.plus(pos) if hasattr(p, 'plus') else Ptr(p.obj, p.off + pos), m)
    return m


@model(S(r'swap\(' + re.escape(STRR) + r'&\)') + r'|void std::swap<char, .*>\(' + re.escape(STRR) + r'&, ' + re.escape(STRR) + r'&\)')
def m_str_swap(ex, st, a, ins):
    x, y = get_str(ex, st, a[0]).rope, get_str(ex, st, a[1]).rope
    set_str(ex, st, a[0], y)
    set_str(ex, st, a[1], x)


def str_or_c(ex, st, v, kind):
    return cstr_rope(ex, st, v) if kind == 'c' else get_str(ex, st, v).rope


@model(r'bool std::operator(==|!=)<char, .*>\(.*\)')
def m_streq(ex, st, a, ins):
    dem = ex.prog.demangle(ins.a[0][1])
    args = dem[dem.rindex('>(') + 2:-1] if '>(' in dem else dem
    params = split_params(dem)
    k = ['c' if p.strip().startswith('char const*') else 's' for p in params]
    r = rope_eq(ex, st, str_or_c(ex, st, a[0], k[0]), str_or_c(ex, st, a[1], k[1]))
    return neg(r) if 'operator!=' in dem else r


def split_params(dem):
    """parameter list of a demangled function name"""
    d = 0
    i = len(dem) - 1
    if dem.endswith(' const'):
        i -= 6
    j = i
    while j >= 0:
        if dem[j] == ')':
            d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    s = dem[j + 1:i]
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


@model(r'std::__cxx11::basic_string<char.* std::operator\+<.*>\(.*\)')
def m_plus(ex, st, a, ins):
    dem = ex.prog.demangle(ins.a[0][1])
    ps = split_params(dem)
    rs = []
    for p, v in zip(ps, a[1:]):
        p = p.strip()
        if p.startswith('char const*'):
            rs.append(cstr_rope(ex, st, v))
        elif p == 'char':
            rs.append(rope_bytes([v]))
        else:
            rs.append(get_str(ex, st, v).rope)
    for p, v in zip(ps, a[1:]):
        if p.strip().endswith('&&'):
            set_str(ex, st, v, Rope())
    set_str(ex, st, a[0], rs[0].add(st, rs[1]))


# ---------------------------------------------------------------- C library
@model(r'llvm\.mem(cpy|move)\..*|memcpy|memmove')
def m_memcpy(ex, st, a, ins):
    n = st.uns(a[2], 64)
    so = st.obj(a[1].obj) if isinstance(a[1], Ptr) and a[1].obj else None
    do = st.obj(a[0].obj) if isinstance(a[0], Ptr) and a[0].obj else None
    if isinstance(n, Poly):
        for o in (do, so):
            if o is not None and hasattr(o.data, 'copy_sym'):
                return o.data.copy_sym(ex, st, a[0], a[1], n)
        n = st.concretize(n, 600, 'copy size')
    if 'memcpy' in ins.a[0][1] and a[0].obj == a[1].obj and n:
        ex.obligation(st, disj(le(a[0].off + n, a[1].off), le(a[1].off + n, a[0].off), eq(a[0].off, a[1].off)),
                      'memory', 'memcpy regions do not overlap')
    ex.copy(st, a[0], a[1], n)
    return a[0]


@model(r'llvm\.memset\..*|memset')
def m_memset(ex, st, a, ins):
    n = st.uns(a[2], 64)
    o = st.obj(a[0].obj) if isinstance(a[0], Ptr) and a[0].obj else None
    if o is not None and hasattr(o.data, 'set_sym'):
        if o.data.set_sym(ex, st, a[0], a[1], n) is not NotImplemented:
            return a[0]
    if isinstance(n, Poly):
        n = st.concretize(n, 600, 'memset size')
    if n == 0:
        return a[0]
    o, off = ex.access(st, a[0], n, 'write')
    ex.check_frame(st, o, off, n)
    if o.data is not None and not isinstance(o.data, tuple):
        for i in range(n):
            o.data.store(ex, st, o, off + i, 1, a[1])
        return a[0]
    off = st.concretize(off, 64)
    w = st.wobj(o.id)
    ex.clear(st, w, off, n)
    for i in range(n):
        w.cells[off + i] = (1, a[1])
    return a[0]


@model(r'strlen')
def m_strlen(ex, st, a, ins):
    o = st.obj(a[0].obj) if isinstance(a[0], Ptr) and a[0].obj else None
    if o is not None and isinstance(o.data, CStrBuf):
        return o.data.src.n - a[0].off
    return cstr_len(ex, st, a[0])


@model(r'memcmp|bcmp')
def m_memcmp(ex, st, a, ins):
    n = st.uns(a[2], 64)
    o = st.obj(a[0].obj) if isinstance(a[0], Ptr) and a[0].obj else None
    if o is not None and hasattr(o.data, 'cmp_sym'):
        r = o.data.cmp_sym(ex, st, a[0], a[1], n)
        if r is not NotImplemented:
            return r
    if isinstance(n, Poly):
        n = st.concretize(n, 64, 'memcmp size')
    x = read_range(ex, st, a[0], n)
    y = read_range(ex, st, a[1], n)
    return compare_ropes(ex, st, x, y)


@model(r'strcmp')
def m_strcmp(ex, st, a, ins):
    return compare_ropes(ex, st, cstr_rope(ex, st, a[0]), cstr_rope(ex, st, a[1]))


@model(r'strchr|memchr')
def m_strchr(ex, st, a, ins):
    mem = len(a) > 2
    c = st.uns(a[1], 8)
    n = st.concretize(st.uns(a[2], 64), 128, 'memchr size') if mem else 4096
    o, _ = ex.access(st, a[0], 1 if n else 0, 'read')
    if not mem and (isinstance(o.data, CStrBuf) or isinstance(o.data, RopeBuf) and not o.data.owner(ex, st, o).rope.concrete()):
        raise Unsupported('strchr in a symbolic string')
    for i in range(n):
        x = st.uns(ex.load(st, a[0].plus(i), ('i', 8), st.frames[-1].fn.mod), 8)
        if st.decide(eq(x, c)):
            return a[0].plus(i)
        if not mem and st.decide(eq(x, 0)):
            return NULL
    if not mem:
        raise Unsupported('strchr: no end')
    return NULL


@model(S(r'find(_first_of)?\((char|char const\*|' + STRC + r'), unsigned long\) const'))
def m_str_find(ex, st, a, ins):
    dem = ex.prog.demangle(ins.a[0][1])
    r = get_str(ex, st, a[0]).rope
    if not r.concrete():
        raise Unsupported('find in a symbolic string')
    k = split_params(dem)[0].strip()
    if k == 'char':
        pat = [st.uns(a[1], 8)]
    else:
        w = cstr_rope(ex, st, a[1]) if k.startswith('char const*') else get_str(ex, st, a[1]).rope
        if not w.concrete():
            raise Unsupported('find of a symbolic string')
        pat = [st.uns(p[1], 8) for p in w.parts]
    text = [st.uns(p[1], 8) for p in r.parts]
    pos = st.concretize(st.uns(a[2], 64), 64, 'find position')
    first = 'find_first_of' in dem
    for i in range(pos, len(text) + 1):
        if first:
            if i < len(text) and st.decide(disj(*[eq(text[i], p) for p in pat])):
                return i
        elif i + len(pat) <= len(text) and st.decide(conj(*[eq(x, p) for x, p in zip(text[i:], pat)])):
            return i
    return 2**64 - 1


@model(r'strncmp')
def m_strncmp(ex, st, a, ins):
    n = st.concretize(st.uns(a[2], 64), 64)
    for i in range(n):
        x = st.uns(ex.load(st, a[0].plus(i), ('i', 8), st.frames[-1].fn.mod), 8)
        y = st.uns(ex.load(st, Ptr(a[1].obj, a[1].off + i), ('i', 8), st.frames[-1].fn.mod), 8)
        if not st.decide(eq(x, y)):
            return -1 if st.decide(lt(x, y)) else 1
        if st.decide(eq(x, 0)):
            return 0
    return 0


@model(r'strncpy')
def m_strncpy(ex, st, a, ins):
    n = st.concretize(st.uns(a[2], 64), 64)
    k = None
    src = cstr_rope_n(ex, st, a[1], n)
    mod = st.frames[-1].fn.mod
    for i in range(n):
        ex.store(st, a[0].plus(i), src[i] if i < len(src) else 0, ('i', 8), mod)
    return a[0]


@model(r'strcpy|stpcpy')
def m_strcpy(ex, st, a, ins):
    r = cstr_rope(ex, st, a[1])
    if not r.concrete():
        raise Unsupported('strcpy of a symbolic string')
    mod = st.frames[-1].fn.mod
    bs = [p[1] for p in r.parts] + [0]
    for i, b in enumerate(bs):
        ex.store(st, a[0].plus(i), b, ('i', 8), mod)
    return a[0] if ins.a[0][1] == 'strcpy' else a[0].plus(len(bs) - 1)


def cstr_rope_n(ex, st, p, n):
    """bytes of the C string at p, at most n"""
    out = []
    mod = st.frames[-1].fn.mod
    for i in range(n):
        b = ex.load(st, p.plus(i), ('i', 8), mod)
        if st.decide(eq(st.uns(b, 8), 0)):
            break
        out.append(b)
    return out


WS = (9, 10, 11, 12, 13, 32)


def parse_decimal(ex, st, p):
    """(negative, magnitude term, any digits) of the text at p, C strto* syntax base 10"""
    mod = st.frames[-1].fn.mod
    i = 0

    def at(k):
        return st.uns(ex.load(st, p.plus(k), ('i', 8), mod), 8)
    while st.decide(disj(*[eq(at(i), w) for w in WS])):
        i += 1
    ng = False
    c = at(i)
    if st.decide(eq(c, 45)):
        ng = True
        i += 1
    elif st.decide(eq(c, 43)):
        i += 1
    v = 0
    n = 0
    while True:
        c = at(i)
        if not st.decide(conj(ge(c, 48), le(c, 57))):
            break
        v = v * 10 + (c - 48)
        i += 1
        n += 1
    return ng, v, n, i


@model(r'(__isoc23_)?strto(ull|ul|ll|l|umax|imax)')
def m_strtoull(ex, st, a, ins):
    name = ins.a[0][1]
    base = st.concretize(st.sgn(a[2], 32), 4)
    if base != 10:
        raise Unsupported('strtoull base %d' % base)
    uns = 'strtou' in name
    p = a[0]
    o = st.obj(p.obj)
    if isinstance(o.data, RopeBuf) and isinstance(p.off, int) and p.off == 0:
        s = o.data.owner(ex, st, o).rope
        if len(s.parts) == 1 and s.parts[0][0] == 's' and s.parts[0][1].dec is not None:
            if not (isinstance(a[1], Ptr) and a[1].obj is None):
                e = st.fresh('end', 0, 1 << 41)
                st.assume(le(e, s.parts[0][1].n if not callable(s.parts[0][1].n) else s.length()))
                ex.store(st, a[1], Ptr(p.obj, e), ('ptr',), st.frames[-1].fn.mod)
            ng, v = s.parts[0][1].dec
            return finish_strto(ex, st, st.decide(ng), v, uns)
    ng, v, n, i = parse_decimal(ex, st, p)
    if isinstance(a[1], Ptr) and a[1].obj is not None:
        ex.store(st, a[1], p.plus(i) if n else p, ('ptr',), st.frames[-1].fn.mod)
    return finish_strto(ex, st, ng, v, uns)


def finish_strto(ex, st, ng, v, uns):
    top = 2**64 - 1 if uns else 2**63 if ng else 2**63 - 1
    if st.decide(gt(v, top)):
        ex.raw_store(st, errno_obj(ex, st), 0, 4, 34)
        return top if uns or not ng else -top
    return -v if ng else v


@model(r'strto(d|f|ld)|atof')
def m_strtod(ex, st, a, ins):
    name = ins.a[0][1]
    p = a[0]
    if name == 'atof':
        name = 'strtod'
    elif isinstance(a[1], Ptr) and a[1].obj is not None:
        ex.store(st, a[1], Ptr(p.obj, p.off + st.fresh('end', 0, 1 << 41)), ('ptr',), st.frames[-1].fn.mod)
    o = st.obj(p.obj)
    if isinstance(o.data, RopeBuf) and isinstance(p.off, int) and p.off == 0:
        s = o.data.owner(ex, st, o).rope
        ident = s.parts
    else:
        ident = cstr_rope(ex, st, p).parts
    if 'errno' in st.ghost and name != 'atof' and st.decide(eq(st.fresh('range', 0, 1), 1)):
        ex.raw_store(st, st.ghost['errno'], 0, 4, 34)
    v = FP(name, ident)
    if name == 'strtod':
        return ex.abstract_double(st, v)
    return v


@model(r'isalnum|isalpha|isdigit|isupper|islower|isspace|isprint|iscntrl|ispunct|isgraph|isxdigit')
def m_ctype(ex, st, a, ins):
    c = st.sgn(a[0], 32)
    ex.obligation(st, conj(ge(c, -1), le(c, 255)), 'memory', '%s argument is an unsigned char or EOF' % ins.a[0][1])
    up = conj(ge(c, 65), le(c, 90))
    lo = conj(ge(c, 97), le(c, 122))
    dg = conj(ge(c, 48), le(c, 57))
    al = disj(up, lo)
    pr = conj(ge(c, 32), le(c, 126))
    f = {'isalnum': disj(al, dg), 'isalpha': al, 'isdigit': dg, 'isupper': up, 'islower': lo,
         'isspace': disj(*[eq(c, w) for w in WS]), 'isprint': pr, 'iscntrl': disj(conj(ge(c, 0), lt(c, 32)), eq(c, 127)),
         'ispunct': conj(pr, neg(al), neg(dg), ne(c, 32)), 'isgraph': conj(pr, ne(c, 32)),
         'isxdigit': disj(dg, conj(ge(c, 65), le(c, 70)), conj(ge(c, 97), le(c, 102)))}[ins.a[0][1]]
    if st.decide(f):
        return 1
    return 0


@model(r'toupper|tolower')
def m_toupper(ex, st, a, ins):
    c = st.sgn(a[0], 32)
    if ins.a[0][1] == 'toupper':
        return c - 32 if st.decide(conj(ge(c, 97), le(c, 122))) else c
    return c + 32 if st.decide(conj(ge(c, 65), le(c, 90))) else c


@model(r'abs|labs|llabs')
def m_abs(ex, st, a, ins):
    w = ins.ty[1]
    x = st.sgn(a[0], w)
    ex.obligation(st, gt(x, -(1 << (w - 1))), 'overflow', 'abs does not overflow')
    return x if st.decide(ge(x, 0)) else -x


# ---------------------------------------------------------------- C++ runtime
@model(r'__cxa_allocate_exception')
def m_excalloc(ex, st, a, ins):
    e = st.new_obj('exception', st.uns(a[0], 64), 'exc')
    return Ptr(e.id, 0)


@model(r'__cxa_free_exception')
def m_excfree(ex, st, a, ins):
    return None


@model(r'std::(runtime_error|invalid_argument|out_of_range|length_error|logic_error|range_error|overflow_error)::\1\(.*\)')
def m_excctor(ex, st, a, ins):
    return None


@model(r'std::(runtime_error|invalid_argument|out_of_range|length_error|logic_error|range_error|overflow_error)::~\1\(\)')
def m_excdtor(ex, st, a, ins):
    return None


@model(r'__cxa_throw')
def m_throw(ex, st, a, ins):
    ti = a[1]
    name = ti.obj.split(':', 1)[1] if isinstance(ti, Ptr) else str(ti)
    if name.count(':'):
        name = name.split(':')[-1]
    ex.throw(st, (name, a[0]))
    return THROW


@model(r'std::__throw_(\w+)\(.*\)')
def m_throwx(ex, st, a, ins):
    dem = ex.prog.demangle(ins.a[0][1])
    k = re.match(r'std::__throw_(\w+)', dem).group(1)
    m = {'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range',
         'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
         'runtime_error': '_ZTISt13runtime_error', 'invalid_argument': '_ZTISt16invalid_argument'}
    if k not in m:
        raise Unsupported(dem)
    return throw_std(ex, st, m[k])


@model(r'__cxa_begin_catch')
def m_bc(ex, st, a, ins):
    return a[0]


@model(r'__cxa_end_catch')
def m_ec(ex, st, a, ins):
    return None


@model(r'__cxa_rethrow')
def m_rethrow(ex, st, a, ins):
    ex.throw(st, st.ghost['exc'])
    return THROW


@model(r'std::terminate\(\)|abort|__assert_fail')
def m_term(ex, st, a, ins):
    ex.fail(st, 'termination', 'the program does not terminate abnormally')


@model(r'operator new(\[\])?\(unsigned long\)|malloc')
def m_new(ex, st, a, ins):
    n = st.concretize(st.uns(a[0], 64), 64)
    o = st.new_obj('heap', n, 'heap')
    return Ptr(o.id, 0)


@model(r'operator delete(\[\])?\(void\*(, unsigned long)?\)|free')
def m_del(ex, st, a, ins):
    if isinstance(a[0], Ptr) and a[0].obj is not None:
        w = st.wobj(a[0].obj)
        if w.dead or w.kind != 'heap':
            ex.fail(st, 'memory', 'invalid delete')
        w.dead = True
    return None


# ---------------------------------------------------------------- intrinsics
@model(r'llvm\.(lifetime|dbg|invariant|experimental\.noalias|donothing|prefetch).*|llvm\.assume|llvm\.var\.annotation.*')
def m_nop(ex, st, a, ins):
    return None


@model(r'llvm\.trap|llvm\.ubsantrap')
def m_trap(ex, st, a, ins):
    ex.fail(st, 'termination', 'trap is not reached')


@model(r'llvm\.expect\..*')
def m_expect(ex, st, a, ins):
    return a[0]


@model(r'llvm\.eh\.typeid\.for.*')
def m_typeid(ex, st, a, ins):
    p = a[0]
    name = p.obj.split(':')[-1] if isinstance(p, Ptr) else str(p)
    return ex.prog.typeid_index(name)


@model(r'llvm\.ctlz\.i\d+')
def m_ctlz(ex, st, a, ins):
    w = ins.ty[1]
    x = st.uns(a[0], w)
    if a[1] is True or a[1] == 1:
        ex.obligation(st, ne(x, 0), 'shift', 'count-leading-zeros argument is not zero')
    if isinstance(x, int):
        return w - x.bit_length()
    lo, hi = st.ival(x)
    alts = []
    vals = []
    for n in range((lo or 0).bit_length(), (hi if hi is not None else (1 << w) - 1).bit_length() + 1):
        c = conj(ge(x, 1 << (n - 1)), lt(x, 1 << n)) if n else eq(x, 0)
        if st.quick(c) is not False:
            alts.append(c)
            vals.append(w - n)
    if len(alts) == 1:
        st.assume(alts[0])
        return vals[0]
    feas = [(c, v) for c, v in zip(alts, vals) if st.feasible(c)]
    if not feas:
        raise Dead()
    if len(feas) == 1:
        st.assume(feas[0][0])
        return feas[0][1]
    raise Fork([c for c, v in feas])


@model(r'llvm\.(u|s)(min|max)\.i\d+')
def m_minmax(ex, st, a, ins):
    w = ins.ty[1]
    nm = ins.a[0][1].split('.')[1]
    v = st.uns if nm[0] == 'u' else st.sgn
    x, y = v(a[0], w), v(a[1], w)
    c = st.decide(le(x, y))
    return (x if c else y) if nm[1:] == 'min' else (y if c else x)


@model(r'llvm\.abs\.i\d+')
def m_labs(ex, st, a, ins):
    w = ins.ty[1]
    x = st.sgn(a[0], w)
    if a[1] is True:
        ex.obligation(st, gt(x, -(1 << (w - 1))), 'overflow', 'abs does not overflow')
    return x if st.decide(ge(x, 0)) else -x


@model(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i\d+')
def m_ovf(ex, st, a, ins):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', ins.a[0][1])
    w = int(m.group(3))
    M = 1 << w
    if m.group(1) == 'u':
        x, y, b = st.uns(a[0], w), st.uns(a[1], w), 0
    else:
        x, y, b = st.sgn(a[0], w), st.sgn(a[1], w), -(M >> 1)
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
    return [r, neg(conj(ge(r, b), lt(r, b + M)))]


@model(r'llvm\.is\.fpclass\.f64')
def m_fpclass(ex, st, a, ins):
    mask = a[1]
    u = st.uns(a[0].bits, 64)
    H = 1 << 63
    INFB = 0x7FF << 52
    Q = 1 << 51
    c = []
    sn = conj
    if mask & 0x3:
        n = []
        for base in (0, H):
            if mask & 1:
                n.append(conj(gt(u, base + INFB), lt(u, base + INFB + Q)))
            if mask & 2:
                n.append(conj(ge(u, base + INFB + Q), lt(u, base + H)))
        c += n
    for bit, lo, hi in ((0x4, H + INFB, H + INFB), (0x8, H + (1 << 52), H + INFB - 1), (0x10, H + 1, H + (1 << 52) - 1),
                        (0x20, H, H), (0x40, 0, 0), (0x80, 1, (1 << 52) - 1), (0x100, 1 << 52, INFB - 1), (0x200, INFB, INFB)):
        if mask & bit:
            c.append(conj(ge(u, lo), le(u, hi)))
    return disj(*c)


@model(r'llvm\.fabs\.f64|fabs')
def m_fabs(ex, st, a, ins):
    u = st.uns(a[0].bits, 64)
    H = 1 << 63
    return F64(u - H if st.decide(ge(u, H)) else u)


@model(r'llvm\.(ceil|floor|trunc|rint|nearbyint|round)\.f64|ceil|floor|trunc')
def m_ceil(ex, st, a, ins):
    import math
    if not ex.concrete_f64(a[0]):
        raise Unsupported('ceil of a symbolic double')
    d = symex.f64_of_bits(a[0].bits)
    nm = ins.a[0][1].replace('llvm.', '').replace('.f64', '')
    if nm not in ('ceil', 'floor', 'trunc'):
        raise Unsupported(nm)
    return F64(symex.bits_of_f64(float(getattr(math, nm)(d))))


@model(r'llvm\.bswap\..*')
def m_bswap(ex, st, a, ins):
    raise Unsupported('bswap')


# the error indicator: unknown before the call, set by the number parsers
def errno_obj(ex, st):
    i = st.ghost.get('errno')
    if i is None:
        o = st.new_obj('errno', 4, 'alloca')
        ex.raw_store(st, o.id, 0, 4, st.fresh('errno', 0, 200))
        i = st.ghost['errno'] = o.id
    return i


@model(r'__errno_location')
def m_errno(ex, st, a, ins):
    return Ptr(errno_obj(ex, st), 0)


@model(r'llvm\.threadlocal\.address.*')
def m_tls(ex, st, a, ins):
    return a[0]         # storage shared by the calls of a thread: treated like any other mutable global


# ---------------------------------------------------------------- function-local statics
# Executed as the first call of the function.  Later calls find the same contents, because the initialiser
# may not depend on the call (checked at the release) and nothing may write the object afterwards (frame).
def guarded(st, p):
    n = st.obj(p.obj).name
    return p.obj.replace('_ZGV', '_Z') if n.startswith('_ZGV') else None


@model(r'__cxa_guard_acquire')
def m_gacq(ex, st, a, ins):
    g = guarded(st, a[0])
    if g is None:
        raise Unsupported('guard')
    st.ghost['initing'] = st.ghost.get('initing', ()) + (g,)
    return 1


@model(r'__cxa_guard_abort')
def m_gabort(ex, st, a, ins):
    g = guarded(st, a[0])
    st.ghost['initing'] = tuple(x for x in st.ghost.get('initing', ()) if x != g)


@model(r'__cxa_guard_release')
def m_grel(ex, st, a, ins):
    g = guarded(st, a[0])
    st.ghost['initing'] = tuple(x for x in st.ghost.get('initing', ()) if x != g)
    st.ghost[('static', st.obj(a[0].obj).name)] = True
    o = st.obj(g)
    for k, (sz, v) in o.cells.items():
        r = v.rope if isinstance(v, Str) else None
        if isinstance(v, Poly) or (r is not None and any(q[0] != 'b' or isinstance(q[1], Poly) for q in r.parts)):
            ex.obligation(st, False, 'shared-state', 'the static object %s keeps what the first call gave it' % o.name, assume=False)
        elif not isinstance(v, (int, Str, F64, F32)):
            if not (isinstance(v, Ptr) and (v.obj is None or v.obj.startswith(('G:', 'X:')))):
                raise Unsupported('static object %s' % o.name)


@model(r'__cxa_atexit|__cxa_thread_atexit')
def m_atexit(ex, st, a, ins):
    return 0
