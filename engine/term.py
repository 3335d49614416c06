"""Mathematical-integer terms: polynomials over named atoms with interval bounds,
and conditions over them.  Every machine integer of width w is represented by a term
congruent to it modulo 2^w (see state.uns / state.sgn)."""
from math import gcd

INF = None   # "no bound"


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'defs', 'info')

    def __init__(self, id, name, lo, hi):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.defs = ()     # conditions defining the atom (total definitions only)
        self.info = None


ATOMS = []
_BYNAME = {}


def atom(name, lo=None, hi=None):
    """the atom called `name` with these bounds, as a Poly"""
    k = (name, lo, hi)
    a = _BYNAME.get(k)
    if a is None:
        n = name if (name,) not in _BYNAME else '%s~%d' % (name, len(ATOMS))
        a = Atom(len(ATOMS), n, lo, hi)
        _BYNAME[(name,)] = a
        ATOMS.append(a)
        _BYNAME[k] = a
    return Poly({(a.id,): 1})


def reset():
    ATOMS.clear()
    _BYNAME.clear()


class Poly:
    __slots__ = ('t', '_k', '_h')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        return False

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            t = dict(self.t)
            c = t.get((), 0) + o
            if c:
                t[()] = c
            else:
                t.pop((), None)
            return Poly(t)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            c += t.get(m, 0)
            if c:
                t[m] = c
            else:
                t.pop(m, None)
        return norm(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if (m1 and m2) else (m1 or m2)
                c = t.get(m, 0) + c1 * c2
                if c:
                    t[m] = c
                else:
                    t.pop(m, None)
        return norm(t)

    __rmul__ = __mul__

    def const(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def single(self):
        """atom id if the poly is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            n = '*'.join(ATOMS[i].name for i in m)
            out.append(('%d*%s' % (c, n) if c != 1 else n) if m else str(c))
        return '(' + ' + '.join(out) + ')'


def norm(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def iadd(a, b):
    return None if a is None or b is None else a + b


def imul(x, y):
    """product of intervals"""
    (a, b), (c, d) = x, y
    if a is not None and b is not None and c is not None and d is not None:
        v = (a * c, a * d, b * c, b * d)
        return min(v), max(v)
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, None
    return None, None


def iscale(x, k):
    a, b = x
    if k >= 0:
        return (None if a is None else a * k), (None if b is None else b * k)
    return (None if b is None else b * k), (None if a is None else a * k)


# ---- conditions ----------------------------------------------------------
# True | False | ('le', p) p<=0 | ('eq', p) p==0 | ('ne', p) | ('and', cs) | ('or', cs)

def _content(p):
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    return g


def le(a, b):
    p = a - b
    if isinstance(p, int):
        return p <= 0
    g = _content(p)
    if g > 1:
        t = {m: c // g for m, c in p.t.items() if m}
        k = p.const()
        k = -((-k) // g)     # ceil(k/g)
        if k:
            t[()] = k
        p = Poly(t)
    return ('le', p)


def lt(a, b):
    return le(a + 1, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    p = a - b
    if isinstance(p, int):
        return p == 0
    g = _content(p)
    if g > 1:
        if p.const() % g:
            return False
        p = Poly({m: c // g for m, c in p.t.items()})
    # canonical sign
    m0 = min(m for m in p.t if m)
    if p.t[m0] < 0:
        p = -p
    return ('eq', p)


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'le':
        return ('le', (-c[1]) + 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return disj(*[neg(x) for x in c[1]])
    if k == 'or':
        return conj(*[neg(x) for x in c[1]])
    raise AssertionError(c)


def ne(a, b):
    return neg(eq(a, b))


def conj(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def disj(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == 'or':
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def implies(a, b):
    return disj(neg(a), b)


def iff(a, b):
    return conj(implies(a, b), implies(b, a))


def cond_polys(c, out):
    if c is True or c is False:
        return
    if c[0] in ('and', 'or'):
        for x in c[1]:
            cond_polys(x, out)
    else:
        out.append(c[1])


def evalp(p, env):
    """value of p under env: atom id -> int"""
    if isinstance(p, int):
        return p
    s = 0
    for m, c in p.t.items():
        for i in m:
            c *= env[i]
        s += c
    return s
