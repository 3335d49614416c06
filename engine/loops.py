"""Loop rules: invariants found by running the body once and checked inductively."""
import time
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, F64, F32, FP, UNDEF
from symex import Budget
import models
from models import Rope, Str, RopeBuf


def loops_of(fn):
    """header label -> set of body labels (natural loops)"""
    r = getattr(fn, '_loops', None)
    if r is not None:
        return r
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        if t.op == 'br':
            s = [t.a[0]]
        elif t.op == 'condbr':
            s = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            s = [t.a[1]] + [l for _, l in t.a[2]]
        elif t.op == 'invoke':
            s = list(t.a[2])
        else:
            s = []
        succ[b] = s
    pred = {b: [] for b in fn.order}
    for b in succ:
        for s in succ[b]:
            pred[s].append(b)
    allb = set(fn.order)
    dom = {b: set(allb) for b in fn.order}
    dom[fn.order[0]] = {fn.order[0]}
    ch = True
    while ch:
        ch = False
        for b in fn.order[1:]:
            ps = [dom[p] for p in pred[b]]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    out = {}
    for b in succ:
        for h in succ[b]:
            if h in dom[b]:
                body = out.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(pred[x])
    fn._loops = out
    return out


def explore(ex, st, depth, header, body):
    """run from the loop header once round: states back at the header, states out of the loop"""
    backs, exits = [], []
    st.ghost['moved'] = False
    work = [st]
    n = 0
    while work:
        s = work.pop()
        while True:
            if len(s.frames) < depth or s.thrown is not None:
                exits.append(s)
                break
            fr = s.frames[-1]
            if len(s.frames) == depth:
                if fr.block == header:
                    if s.ghost.get('moved'):
                        backs.append(s)
                        break
                elif fr.block not in body:
                    exits.append(s)
                    break
            n += 1
            s.steps += 1
            if n % 256 == 0 and ex.deadline and time.time() > ex.deadline:
                raise Budget('time')
            if n > 200000:
                raise Budget('steps')
            ins = fr.fn.blocks[fr.block][fr.idx]
            term = len(s.frames) == depth and ins.op in ('br', 'condbr', 'switch', 'invoke')
            try:
                r = ex.step(s, fr, ins)
                if term:
                    s.ghost['moved'] = True
            except Fork as f:
                for a in f.alts:
                    s2 = s.clone()
                    try:
                        s2.assume(a)
                    except Dead:
                        continue
                    work.append(s2)
                break
            except Dead:
                break
            if r is not None:
                work.extend(r)
                break
    return backs, exits


class Dry:
    """obligations inside are assumed, not recorded"""

    def __init__(self, ex):
        self.ex = ex

    def __enter__(self):
        self.ex.dry += 1

    def __exit__(self, *a):
        self.ex.dry -= 1


def changed(s0, s1):
    out = set()
    for oid, o in s1.mem.items():
        o0 = s0.mem.get(oid)
        if o0 is o or o0 is None:
            continue
        if o0.dead or o.dead:
            continue
        for k, c in o.cells.items():
            c0 = o0.cells.get(k)
            if c0 is None or c0[0] != c[0] or not same(c0[1], c[1]):
                out.add((oid, k))
        for k in o0.cells:
            if k not in o.cells:
                out.add((oid, k))
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Str) and isinstance(b, Str):
        return a.rope.parts == b.rope.parts
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


class MapRule:
    """for each byte of src in turn, append g(byte) to a string"""

    def __init__(self, g, src):
        self.g = g
        self.src = src

    def __call__(self, ex, st, fr, label):
        fn = fr.fn
        ls = loops_of(fn)
        if label not in ls:
            return None
        depth = len(st.frames)
        key = (depth, fn.name, label)
        act = st.ghost.get('active', frozenset())
        if key in act:
            return None
        body = ls[label]
        s0 = st.clone()
        s0.ghost['active'] = act | {key}
        s0.ghost['abs'] = True
        with Dry(ex):
            backs, exits = explore(ex, s0.clone(), depth, label, body)
        backs = [b for b in backs if b.feasible()]
        exits = [b for b in exits if b.feasible()]
        if not backs or not exits:
            return None
        if not any(isinstance(s0.obj(o).cells[k][1], Str) for b in backs for o, k in changed(s0, b)
                   if k in s0.obj(o).cells):
            return None
        # a constant number of further rounds?
        cls = {}
        for attempt in range(6):
            ch = set()
            for b in backs:
                ch |= changed(s0 if attempt == 0 else si, b)
            grew = False
            for ok in ch:
                if ok in cls and cls[ok][0] == 'havoc':
                    continue
                base = s0 if attempt == 0 else si
                o0 = s0.obj(ok[0])
                c0 = o0.cells.get(ok[1])
                if c0 is None:
                    # first written in the body: not live into the next round
                    if ok not in cls:
                        cls[ok] = ('drop',)
                        grew = True
                    continue
                if ok in cls and cls[ok][0] == 'drop':
                    continue
                new = self.classify(base, backs, ok, c0)
                if ok not in cls or cls[ok] != new:
                    if ok in cls and cls[ok][0] == 'acc':
                        continue
                    if ok in cls:
                        new = self.havoc_class(c0)
                    cls[ok] = new
                    grew = True
            if attempt > 0 and not grew:
                break
            si, t = self.induct(ex, s0, cls)
            with Dry(ex):
                backs, exits = explore(ex, si.clone(), depth, label, body)
            backs = [b for b in backs if b.feasible()]
        else:
            raise Unsupported('loop classification does not settle')
        # the inductive step, recorded
        backs, exits = explore(ex, si.clone(), depth, label, body)
        for b in backs:
            ex.with_forks(b, lambda s: self.check_back(ex, s, si, cls, t))
        out = []
        for s in exits:
            s.ghost['active'] = act
            out.append(s)
        ex.loop_invariants = getattr(ex, 'loop_invariants', 0) + 1
        if not out:
            raise Dead()
        return out

    def havoc_class(self, c0):
        if isinstance(c0[1], (int, Poly)) or isinstance(c0[1], bool):
            return ('havoc', c0[0])
        raise Unsupported('loop changes a %s in an unrecognised way' % type(c0[1]).__name__)

    def classify(self, base, backs, ok, c0):
        v0 = base.obj(ok[0]).cells.get(ok[1])
        if v0 is None:
            return self.havoc_class(c0)
        v0 = v0[1]
        vals = []
        for b in backs:
            c = b.obj(ok[0]).cells.get(ok[1])
            if c is None:
                return self.havoc_class(c0)
            vals.append(c[1])
        if isinstance(v0, Str):
            for v in vals:
                if not isinstance(v, Str) or v.rope.parts[:len(v0.rope.parts)] != v0.rope.parts:
                    raise Unsupported('loop rewrites a string')
            return ('acc',)
        if isinstance(v0, Ptr):
            ds = set()
            for v in vals:
                if not isinstance(v, Ptr) or v.obj != v0.obj:
                    raise Unsupported('loop changes a pointer')
                d = v.off - v0.off
                if not isinstance(d, int):
                    raise Unsupported('pointer stride')
                ds.add(d)
            if len(ds) == 1:
                return ('aff', ds.pop())
            raise Unsupported('pointer stride varies')
        if isinstance(v0, (int, Poly)) and not isinstance(v0, bool):
            ds = set()
            for v in vals:
                if not isinstance(v, (int, Poly)):
                    return self.havoc_class(c0)
                d = v - v0
                if not isinstance(d, int):
                    return self.havoc_class(c0)
                ds.add(d)
            if len(ds) == 1:
                return ('aff', ds.pop())
        return self.havoc_class(c0)

    def induct(self, ex, s0, cls):
        si = s0.clone()
        t = si.fresh('round', 0, 1 << 62)
        si.assume(le(t, self.src.n))
        for (oid, k), c in sorted(cls.items(), key=str):
            o = si.wobj(oid)
            if c[0] == 'drop':
                o.cells.pop(k, None)
                continue
            sz, v = o.cells[k]
            if c[0] == 'aff':
                if isinstance(v, Ptr):
                    o.cells[k] = (sz, Ptr(v.obj, v.off + t * c[1]))
                else:
                    o.cells[k] = (sz, v + t * c[1])
            elif c[0] == 'acc':
                o.cells[k] = (sz, Str(Rope(v.rope.parts + (('m', self.g, self.src, 0, t),))))
            else:
                o.cells[k] = (sz, si.fresh('any', 0, (1 << (8 * sz)) - 1))
        return si, t

    def check_back(self, ex, s, si, cls, t):
        ok = []
        ok.append(self.need(ex, s, lt(t, self.src.n), 'at most one round for each input byte'))
        for (oid, k), c in cls.items():
            if c[0] in ('drop', 'havoc'):
                continue
            v0 = si.obj(oid).cells[k][1]
            v1 = s.obj(oid).cells[k][1]
            if c[0] == 'aff':
                if isinstance(v0, Ptr):
                    if v1.obj != v0.obj:
                        raise Unsupported('loop not inductive')
                    cond = eq(v1.off - v0.off, c[1])
                else:
                    cond = eq(v1 - v0, c[1])
                if s.entails(cond) is not True:
                    raise Unsupported('loop not inductive')
            elif c[0] == 'acc':
                p0, p1 = v0.rope.parts, v1.rope.parts
                if p1[:len(p0)] != p0:
                    raise Unsupported('loop rewrites a string')
                tail = p1[len(p0):]
                if any(x[0] != 'b' for x in tail):
                    raise Unsupported('loop appends more than bytes')
                k = self.g.consume(ex, s, self.src.at(s, t), [x[1] for x in tail], 'invariant',
                                   'appended for one input byte')
                self.need(ex, s, k == len(tail), 'nothing else is appended in a round')

    def need(self, ex, s, c, msg):
        return ex.obligation(s, c, 'invariant', msg)
