"""Symbolic executor over LLVM IR: verification-condition generation by path splitting,
callees replaced by their contracts where they have one, inlined otherwise."""
import re
import struct
import sys
import time
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj
import term as T
from irparse import Unsupported, Module
from state import (State, Frame, Obj, Fork, Dead, Ptr, NULL, FnPtr, PInt, F64, F32, FP, UNDEF, Pieces)
from solver import Ctx

sys.setrecursionlimit(10000)


class Failure:
    """a failed obligation"""

    def __init__(self, kind, msg, where, model, status, path):
        self.kind = kind
        self.msg = msg
        self.where = where
        self.model = model
        self.status = status       # 'refuted' | 'unknown'
        self.path = path
        self.exact = False

    def as_dict(self):
        return dict(kind=self.kind, obligation=self.msg, where=self.where, status=self.status,
                    counterexample=self.model, path=self.path, exact=self.exact)


class Budget(Exception):
    pass


def f64_of_bits(b):
    return struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]


def bits_of_f64(d):
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def signalling(u):
    """the bits of a signalling NaN"""
    m = 0x7FF << 52
    return disj(*[conj(gt(u, s + m), lt(u, s + m + 2**51)) for s in (0, 2**63)])


class Exec:
    def __init__(self, prog, contracts=None, timeout_ms=20000, deadline=None):
        self.prog = prog
        self.ctx = Ctx(timeout_ms)
        self.contracts = contracts or {}
        self.failures = []
        self.n_obl = 0
        self.by = {}
        self.kinds = {}
        self.inputs = {}            # display name -> term, reported in counterexamples
        self.inlined = set()
        self.applied = set()
        self.externals = set()
        self.globals_read = set()
        self.frame_ok = None        # predicate(state, Obj, off, size) for stores to non-local objects
        self.max_steps = 60000
        self.max_paths = 200000
        self.n_paths = 0
        self.n_feasible = 0
        self.n_vacuous = 0          # runs without a feasible complete path
        self.deadline = deadline
        self.gobjs = {}
        self.initing = None
        self.escapes = set()        # mutable globals read whose address is passed on somewhere
        self.loop_rules = []        # callables (ex, st, frame, header) -> None | list of states
        self.assumed = set()
        self.top = None
        self.weak = False         # the obligation compares with something the path has no definition of: a model refutes nothing
        self.covered = set()
        self.max_failures = 12
        self.unroll_limit = 700
        self.dry = 0

    # ------------------------------------------------------------------ obligations
    def where(self, st):
        out = []
        for f in st.frames[-3:]:
            ln = None
            try:
                ins = f.fn.blocks[f.block][min(f.idx, len(f.fn.blocks[f.block]) - 1)]
                ln = self.prog.line_of(f.fn, ins)
            except Exception:
                pass
            out.append('%s%s' % (self.prog.short(f.fn), ':%s' % ln if ln else ''))
        return ' > '.join(out)

    def obligation(self, st, c, kind, msg, assume=True):
        """require c on this path; records success or failure; afterwards assumes c"""
        if self.dry:
            if c is False:
                raise Dead()
            if assume:
                st.assume(c)
            return True
        self.n_obl += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        q = st.quick(c)
        if q is True:
            self.by['interval'] = self.by.get('interval', 0) + 1
            return True
        if kind == 'shared-state' and any(f.kind == kind and f.msg == msg for f in self.failures):
            return False
        r, m = self.ctx.check(st.pc, [neg(c)], want_model=True, what=kind)
        if r == 'unsat':
            self.by[self.ctx.last] = self.by.get(self.ctx.last, 0) + 1
            if assume and c is not False:
                st.assume(c)
            return True
        if r == 'sat' and not self.genuine(st, c, m):
            r = 'unknown'
        if r == 'unknown':
            # split on the first undecided disjunction? report as unproved
            self.failures.append(Failure(kind, msg, self.where(st), None, 'unknown', len(st.pc)))
        else:
            self.failures.append(Failure(kind, msg, self.where(st), self.show_model(st, m), 'unknown' if self.weak or st.ghost.get('approx') else 'refuted', len(st.pc)))
            # exact: no loop was summarised on the way here and limbs are limbs, so the model is a run of the code
            self.failures[-1].exact = getattr(self, 'big_layout', None) is not None and not getattr(self, 'big_value', False) and \
                not st.ghost.get('abs')
        if len(self.failures) >= self.max_failures:
            raise Budget('too many failures')
        if assume:
            if c is False:
                raise Dead()
            st.assume(c)
        return False

    def genuine(self, st, c, m):
        """products of variables are opaque to the solver: is its model a real one?"""
        ps = []
        for x in list(st.pc) + [c]:
            T.cond_polys(x, ps)
        if not any(len(k) > 1 for p in ps if isinstance(p, Poly) for k in p.t):
            return True
        if not m:
            return False
        env = dict(m)
        for p in ps:
            if isinstance(p, Poly):
                for i in p.atoms():
                    env.setdefault(i, ATOMS[i].lo if ATOMS[i].lo is not None else 0)

        def ev(x):
            if x is True or x is False:
                return x
            if x[0] == 'and':
                return all(ev(y) for y in x[1])
            if x[0] == 'or':
                return any(ev(y) for y in x[1])
            v = T.evalp(x[1], env)
            return v <= 0 if x[0] == 'le' else v == 0 if x[0] == 'eq' else v != 0
        return all(ev(x) for x in st.pc) and not ev(c)

    def show_model(self, st, m):
        out = {}
        if m is None:
            return out
        for k, t in self.inputs.items():
            try:
                if isinstance(t, int):
                    out[k] = t
                elif isinstance(t, Poly):
                    env = dict(m)
                    for i in t.atoms():
                        env.setdefault(i, ATOMS[i].lo if ATOMS[i].lo is not None else 0)
                    out[k] = T.evalp(t, env)
                elif callable(t):
                    out[k] = t(m)
            except Exception:
                pass
        return out

    def fail(self, st, kind, msg):
        self.obligation(st, False, kind, msg)
        raise Dead()

    # ------------------------------------------------------------------ globals
    def global_obj(self, oid):
        return self.gobjs.get(oid)

    def global_ptr(self, mod, name):
        m, g = self.prog.find_global(mod, name)
        if g is None:
            f = self.prog.find_func(mod, name)
            if f is not None or True:
                return FnPtr((mod.name, name)) if (f is not None or name in mod.decls) else self.ext_global(mod, name)
        oid = 'G:%s:%s' % (m.name, name)
        if oid not in self.gobjs:
            if g.get('error') or g['ty'] is None:
                raise Unsupported('global %s: %s' % (name, g.get('error')))
            o = Obj(oid, name, m.size(g['ty']), 'global', None, writable=not g['const'])
            self.gobjs[oid] = o
            if g['init'] is not None:
                self.init_const(m, o, 0, g['ty'], g['init'])
                o.data = ('init', m, g)
            if o.writable:
                self.dynamic_init(m, o)
        return Ptr(oid, 0)

    def dynamic_init(self, m, o):
        """the contents a namespace-scope object gets before main"""
        for n, f in m.funcs.items():
            if n.startswith('__cxx_global_var_init') and re.search('@"?' + re.escape(o.name) + '"?[ ,)]', '\n'.join(f.raw)):
                st = State(self)
                self.start(f, [], st)
                ends = []
                self.dry += 1
                self.initing = o.id
                try:
                    self.run(st, lambda s: ends.append(s))
                finally:
                    self.dry -= 1
                    self.initing = None
                if len(ends) != 1 or ends[0].thrown is not None:
                    raise Unsupported('dynamic initialisation of %s' % o.name)
                r = ends[0].obj(o.id)
                o.cells = dict(r.cells)
                o.data = None

    def ext_global(self, mod, name):
        oid = 'X:%s' % name
        if oid not in self.gobjs:
            self.gobjs[oid] = Obj(oid, name, 16, 'extglobal', None, writable=False)
        return Ptr(oid, 0)

    def init_const(self, mod, o, off, ty, v):
        ty = mod.resolve(ty)
        k = v[0]
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif k == 'zero':
            n = mod.size(ty)
            for i in range(n):
                o.cells[off + i] = (1, 0)
        elif k == 'agg':
            if ty[0] == 'array':
                es = mod.size(ty[2])
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(mod, o, off + i * es, t, e)
            else:
                for i, (t, e) in enumerate(v[1]):
                    fo, _ = mod.field_off(ty, i)
                    self.init_const(mod, o, off + fo, t, e)
        elif k == 'undef':
            pass
        else:
            val = self.const_value(mod, ty, v)
            o.cells[off] = (mod.size(ty), val)

    def const_value(self, mod, ty, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'fc':
            if v[2][0] == 'double':
                return F64(v[1])
            if v[2][0] == 'float':
                return F32(v[1])
            return FP('const80', v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(mod, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = mod.resolve(ty)
            if t[0] == 'i':
                return 0
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'double':
                return F64(0)
            if t[0] == 'float':
                return F32(0)
            if t[0] == 'x86_fp80':
                return FP('const80', 0)
            if t[0] == 'struct':
                return [self.const_value(mod, e, ('zero', e)) for e in t[1]]
            if t[0] == 'array':
                return [self.const_value(mod, t[2], ('zero', t[2])) for _ in range(t[1])]
            raise Unsupported('zeroinitializer')
        if k == 'agg':
            return [self.const_value(mod, t, e) for t, e in v[1]]
        if k == 'cgep':
            base = self.const_value(mod, v[2][0][0], v[2][0][1])
            off = self.gep_off_const(mod, v[1], [x[1] for x in v[2][1:]])
            return Ptr(base.obj, base.off + off)
        if k == 'ccast':
            x = self.const_value(mod, v[2], v[3])
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr' and x == 0:
                return NULL
            if isinstance(x, int):
                return x
            raise Unsupported('const cast')
        if k == 'cbin':
            a = self.const_value(mod, v[2], v[3])
            b = self.const_value(mod, v[2], v[4])
            if isinstance(a, int) and isinstance(b, int):
                return {'add': a + b, 'sub': a - b, 'mul': a * b}[v[1]]
            raise Unsupported('const expr')
        raise Unsupported('constant %r' % (k,))

    def gep_off_const(self, mod, sty, idx):
        off = 0
        t = sty
        for i, ix in enumerate(idx):
            n = ix[1]
            if ix[0] != 'c':
                raise Unsupported('const gep')
            w = ix[2][1]
            if n >= 1 << (w - 1):
                n -= 1 << w
            if i == 0:
                off += n * mod.size(t)
            else:
                t = mod.resolve(t)
                if t[0] == 'array':
                    t = t[2]
                    off += n * mod.size(t)
                else:
                    fo, t = mod.field_off(t, n)
                    off += fo
        return off

    # ------------------------------------------------------------------ operands
    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'l':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('no value for %%%s' % v[1])
        if k == 'c':
            if v[2] == ('i', 1):
                return bool(v[1])
            return v[1]
        return self.const_value(st.frames[-1].fn.mod, ty, v)

    def ptr(self, st, v):
        p = self.val(st, v)
        return p

    # ------------------------------------------------------------------ memory access
    def access(self, st, p, size, what):
        """obligations for an access of size bytes at p; returns (obj, off)"""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.fail(st, 'memory', '%s through an indeterminate pointer' % what)
            raise Unsupported('%s through %r' % (what, p))
        if p.obj is None:
            self.fail(st, 'memory', '%s through a null pointer' % what)
        o = st.obj(p.obj)
        if o.dead:
            self.fail(st, 'memory', '%s of %s after its lifetime' % (what, o.name))
        off = p.off
        if p.bnd is not None and not (isinstance(size, int) and size == 0):
            self.obligation(st, conj(ge(off, p.bnd[0]), le(off + size, p.bnd[1])), 'memory', '%s within the member array of %s' % (what, o.name))
        if not (isinstance(off, int) and isinstance(o.size, int)):
            self.obligation(st, conj(ge(off, 0), le(off + size, o.size)), 'memory',
                            '%s within %s' % (what, o.name))
            if isinstance(off, Poly):
                lo, hi = st.ival(off)
                if lo is not None and lo == hi:
                    off = lo
        else:
            self.n_obl += 1
            self.kinds['memory'] = self.kinds.get('memory', 0) + 1
            if off < 0 or off + size > o.size:
                self.n_obl -= 1
                self.kinds['memory'] -= 1
                self.fail(st, 'memory', '%s of %d bytes at offset %d of %s (%s bytes)' % (what, size, off, o.name, o.size))
            self.by['interval'] = self.by.get('interval', 0) + 1
        return o, off

    def load(self, st, p, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] in ('struct', 'array'):
            if ty[0] == 'struct':
                out = []
                for i, e in enumerate(ty[1]):
                    fo, _ = mod.field_off(ty, i)
                    out.append(self.load(st, Ptr(p.obj, p.off + fo), e, mod))
                return out
            es = mod.size(ty[2])
            return [self.load(st, Ptr(p.obj, p.off + i * es), ty[2], mod) for i in range(ty[1])]
        size = (ty[1] + 7) // 8 if ty[0] == 'i' else (10 if ty[0] == 'x86_fp80' else mod.size(ty))
        o, off = self.access(st, p, size, 'read')
        if o.kind == 'global' and o.writable:
            self.check_mutable_global(st, o)
        if o.kind == 'extglobal':
            raise Unsupported('read of external global %s' % o.name)
        if o.data is not None and not isinstance(o.data, tuple):
            v = o.data.load(self, st, o, off, size)
            if v is not NotImplemented:
                return self.conv(st, v, ty, size)
        if isinstance(off, Poly):
            return self.conv(st, self.load_sym(st, o, off, size), ty, size)
        return self.conv(st, self.raw_load(st, o, off, size), ty, size)

    def check_mutable_global(self, st, o):
        """a non-const global may be read only if nothing in the program can write it"""
        if o.name in self.globals_read:
            return
        w = self.prog.global_written(o)
        if w == 'escapes':
            # calls of unverified functions might write it: noted, and every write of the verified ones is seen
            self.escapes.add(o.name)
        elif w:
            self.obligation(st, False, 'shared-state',
                            'result depends on mutable shared object %s' % o.name, assume=False)
        self.globals_read.add(o.name)

    def raw_load(self, st, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        bs = [self.byte_at(st, o, off + i) for i in range(size)]
        if all(b is None for b in bs):
            self.fail(st, 'uninitialised', 'read of uninitialised bytes %s of %s' % (off, o.name))
        if all(b is UNDEF for b in bs):
            return UNDEF
        if any(b is None or b is UNDEF or isinstance(b, tuple) for b in bs):
            if all(isinstance(b, tuple) and b[0] == 'piece' and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)) \
               and size == 8:
                return bs[0][1]
            return Pieces(bs)
        t = 0
        for i, b in enumerate(bs):
            t = t + st.uns(b, 8) * (1 << (8 * i))
        return t

    def byte_at(self, st, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1]
        for d in range(0, 32):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return self.byte_of(st, c[1], c[0], d)
                return None
        return None

    def byte_of(self, st, v, size, d):
        if isinstance(v, (F64, F32)):
            v = v.bits
        if isinstance(v, bool) or isinstance(v, tuple):
            v = st.b2i(v)
        if v is UNDEF:
            return UNDEF
        if not isinstance(v, (int, Poly)):
            return ('piece', v, d)
        u = st.uns(v, 8 * size)
        q, _ = st.divdef(u, 1 << (8 * d))
        _, r = st.divdef(q, 256)
        return r

    def load_sym(self, st, o, off, size):
        """load at a symbolic offset: constant tables in closed form, otherwise fork on the offset"""
        if not o.writable or o.kind == 'global':
            v = self.table_read(st, o, off, size)
            if v is not None:
                return v
        k = st.concretize(off, 600, 'offset into %s' % o.name)
        return self.raw_load(st, o, k, size)

    def table_read(self, st, o, off, size):
        lo, hi = st.ival(off)
        if lo is None or hi is None:
            return None
        key, g, c = st._key(off)
        if g < 0:
            key, g = -key, -g
        # off = g*key + c,  key in [a,b]
        klo, khi = st.ival(key)
        if klo is None or khi is None or khi - klo > 5000:
            return None
        ok = []
        for k in range(klo, khi + 1):
            a = g * k + c
            if 0 <= a and a + size <= o.size:
                try:
                    v = self.raw_load(st, o, a, size)
                except (Dead, Unsupported):
                    return None
                if isinstance(v, (F64, F32)):
                    return None
                if not isinstance(v, int):
                    return None
                ok.append((k, v))
        if not ok:
            return None
        k0, v0 = ok[0]
        if all(v == v0 for _, v in ok):
            return v0
        # affine
        if len(ok) > 1:
            k1, v1 = ok[1]
            if (v1 - v0) % (k1 - k0) == 0:
                s = (v1 - v0) // (k1 - k0)
                if all(v == v0 + s * (k - k0) for k, v in ok):
                    return key * s + (v0 - s * k0)
        for m in (10, 100, 16, 2):
            if len(ok) > m:
                b = None
                if all(v - v0 == (k // m) - (k0 // m) for k, v in ok):
                    q, r = st.divdef(key, m)
                    return q + (v0 - k0 // m)
                if all(v - v0 == (k % m) - (k0 % m) for k, v in ok):
                    q, r = st.divdef(key, m)
                    return r + (v0 - k0 % m)
        return None

    def conv(self, st, v, ty, size):
        """reinterpret a loaded value at type ty"""
        k = ty[0]
        if isinstance(v, Pieces):
            return v
        if k == 'i':
            if isinstance(v, (F64, F32)):
                return v.bits
            if isinstance(v, Ptr):
                return PInt(v)
            if ty[1] == 1:
                if isinstance(v, (bool, tuple)):
                    return v
                return ne(st.divdef(st.uns(v, 8), 2)[1], 0)
            if isinstance(v, (bool, tuple)):
                return st.b2i(v)
            return v
        if k == 'ptr':
            if isinstance(v, PInt):
                return v.ptr
            if isinstance(v, int) and v == 0:
                return NULL
            return v
        if k == 'double':
            if isinstance(v, F64) or v is UNDEF:
                return v
            if isinstance(v, FP):
                return v
            return F64(v)
        if k == 'float':
            if isinstance(v, (F32, FP)) or v is UNDEF:
                return v
            return F32(v)
        if k == 'x86_fp80':
            return v
        raise Unsupported('load type %r' % (ty,))

    def store(self, st, p, v, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            for i, e in enumerate(ty[1]):
                fo, _ = mod.field_off(ty, i)
                self.store(st, Ptr(p.obj, p.off + fo), v[i], e, mod)
            return
        if ty[0] == 'array':
            es = mod.size(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.obj, p.off + i * es), v[i], ty[2], mod)
            return
        size = (ty[1] + 7) // 8 if ty[0] == 'i' else (10 if ty[0] == 'x86_fp80' else mod.size(ty))
        o, off = self.access(st, p, size, 'write')
        self.check_frame(st, o, off, size)
        if isinstance(v, tuple) or isinstance(v, bool):
            v = st.b2i(v)
        if o.data is not None and not isinstance(o.data, tuple):
            if o.data.store(self, st, o, off, size, v) is not NotImplemented:
                return
        if isinstance(off, Poly):
            off = st.concretize(off, 200, 'store offset into %s' % o.name)
        if isinstance(v, Pieces):
            w = st.wobj(o.id)
            self.clear(st, w, off, size)
            for i in range(size):
                if v.bs[i] is not None:
                    w.cells[off + i] = (1, v.bs[i])
            return
        self.raw_store(st, o.id, off, size, v)

    def check_frame(self, st, o, off, size):
        self.n_obl += 1
        self.kinds['frame'] = self.kinds.get('frame', 0) + 1
        if o.kind in ('alloca', 'heap', 'exc'):
            self.by['syntactic'] = self.by.get('syntactic', 0) + 1
            return
        if o.kind in ('global', 'extglobal'):
            self.n_obl -= 1
            self.kinds['frame'] -= 1
            if not o.writable:
                self.fail(st, 'memory', 'write to constant %s' % o.name)
            if o.id == self.initing or o.id in st.ghost.get('initing', ()):
                return
            self.obligation(st, False, 'shared-state', 'write to shared object %s' % o.name, assume=False)
            return
        if not o.writable:
            self.n_obl -= 1
            self.kinds['frame'] -= 1
            self.obligation(st, False, 'frame', 'write to %s, which the contract does not allow' % o.name, assume=False)
            return
        self.by['syntactic'] = self.by.get('syntactic', 0) + 1

    def raw_store(self, st, oid, off, size, v):
        o = st.wobj(oid)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            self.clear(st, o, off, size)
        cells[off] = (size, v)

    def clear(self, st, o, off, size):
        """remove [off, off+size), splitting cells that overlap its ends"""
        cells = o.cells
        for k in range(off - 31, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del cells[k]
            if k < off or k + c[0] > off + size:
                for d in range(c[0]):
                    a = k + d
                    if a < off or a >= off + size:
                        cells[a] = (1, self.byte_of(st, c[1], c[0], d))

    def copy(self, st, dst, src, n):
        """memmove semantics on cells, n concrete"""
        if n == 0:
            return
        so, soff = self.access(st, src, n, 'read')
        do, doff = self.access(st, dst, n, 'write')
        self.check_frame(st, do, doff, n)
        if (do.data is not None and not isinstance(do.data, tuple)) or \
           (so.data is not None and not isinstance(so.data, tuple)):
            h = do.data if do.data is not None and not isinstance(do.data, tuple) else so.data
            if h.copy(self, st, do, doff, so, soff, n) is not NotImplemented:
                return
        if so.kind == 'global' and so.writable:
            self.check_mutable_global(st, so)
        if not isinstance(soff, int):
            soff = st.concretize(soff, 200, 'copy source')
        if not isinstance(doff, int):
            doff = st.concretize(doff, 200, 'copy destination')
        items = []
        a = soff
        if n > 100000:
            raise Unsupported('large copy')
        scells = so.cells
        while a < soff + n:
            c = scells.get(a)
            if c is not None and a + c[0] <= soff + n:
                items.append((a - soff, c[0], c[1]))
                a += c[0]
            else:
                b = self.byte_at(st, so, a)
                if b is not None:
                    items.append((a - soff, 1, b))
                a += 1
        d = st.wobj(do.id)
        self.clear(st, d, doff, n)
        for r, s, v in items:
            d.cells[doff + r] = (s, v)

    # ------------------------------------------------------------------ running
    def start(self, fn, args, st=None):
        st = st or State(self)
        f = Frame(fn.parse())
        if fn.error:
            raise Unsupported('%s: %s' % (fn.name, fn.error))
        f.block = fn.order[0]
        for (t, at, nm), a in zip(fn.params, args):
            f.env[nm] = a
        st.frames.append(f)
        return st

    def run(self, st, on_end):
        """explore every path from st; on_end(state) at the end of each (may fork)"""
        work = [st]
        ended, feasible = 0, self.dry > 0
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            try:
                new = self.run_path(st)
            except Dead:
                continue
            if new is not None:
                work.extend(reversed(new))
                continue
            # ended
            self.n_paths += 1
            ended += 1
            if not feasible and ended <= 60:
                # vacuity guard: some complete path must have a satisfiable path condition
                if self.ctx.check(st.pc, [], what='vacuity') == 'sat':
                    self.n_feasible += 1
                    feasible = True
            if self.n_paths > self.max_paths:
                raise Budget('paths')
            self.with_forks(st, on_end)
        if not feasible:
            self.n_vacuous += 1

    def with_forks(self, st, fn):
        work = [st]
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            c = s.clone()
            try:
                fn(c)
            except Fork as f:
                for a in reversed(f.alts):
                    s2 = s.clone()
                    try:
                        s2.assume(a)
                    except Dead:
                        continue
                    work.append(s2)
            except Dead:
                pass

    def run_path(self, st):
        """run until the end (returns None) or a split (returns list of states)"""
        n = 0
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            st.steps += 1
            n += 1
            if st.steps > self.max_steps:
                raise Budget('steps')
            if n % 256 == 0 and self.deadline and time.time() > self.deadline:
                raise Budget('time')
            try:
                r = self.step(st, fr, ins)
            except Fork as f:
                out = []
                for a in f.alts:
                    s2 = st.clone()
                    try:
                        s2.assume(a)
                    except Dead:
                        continue
                    out.append(s2)
                return out
            if r is not None:
                return r
        return None

    def jump(self, st, fr, label):
        fr.prev = fr.block
        fr.block = label
        fr.idx = 0
        # phis
        blk = fr.fn.blocks[label]
        vals = []
        for ins in blk:
            if ins.op != 'phi':
                break
            for v, l in ins.a[0]:
                if l == fr.prev:
                    vals.append((ins.res, self.val(st, v, ins.ty)))
                    break
            else:
                raise Unsupported('phi')
        for k, v in vals:
            fr.env[k] = v
        fr.idx = len(vals)
        key = (len(st.frames), fr.fn.name, label)
        c = st.loops.get(key, 0) + 1
        st.loops[key] = c
        if c > self.unroll_limit:
            raise Unsupported('loop in %s not bounded by its operands' % self.prog.short(fr.fn))
        for rule in self.loop_rules:
            r = rule(self, st, fr, label)
            if r is not None:
                return r
        return None

    def step(self, st, fr, ins):
        op = ins.op
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                a = self.val(st, ins.a[0], ins.ty)
                b = self.val(st, ins.a[1], ins.ty)
                fr.env[ins.res] = self.binop(st, op, a, b, ins.ty[1], ins.flags)
                fr.idx += 1
                return None
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                fr.env[ins.res] = self.fbin(st, op, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty), ins.ty)
                fr.idx += 1
                return None
            raise Unsupported('instruction %s' % op)
        return h(st, fr, ins)

    # ---- instructions
    def i_alloca(self, st, fr, ins):
        mod = fr.fn.mod
        n = 1
        if ins.a[0] is not None:
            n = self.val(st, ins.a[0])
            if not isinstance(n, int):
                raise Unsupported('variable-length array')
        o = st.new_obj(ins.res, mod.size(ins.ty) * n, 'alloca')
        o.frame = len(st.frames)
        fr.allocas.append(o.id)
        fr.env[ins.res] = Ptr(o.id, 0)
        fr.idx += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, ins.a[0])
        if 'atomic' in ins.flags:
            # only the guard of a function-local static: run as the first call; see models.m_gacq
            if not (isinstance(p, Ptr) and p.obj is not None and p.off == 0 and st.obj(p.obj).name.startswith('_ZGV')):
                raise Unsupported('atomic access')
            fr.env[ins.res] = 1 if ('static', st.obj(p.obj).name) in st.ghost else 0
            fr.idx += 1
            return
        fr.env[ins.res] = self.load(st, p, ins.ty, fr.fn.mod)
        fr.idx += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, ins.a[0], ins.ty)
        p = self.val(st, ins.a[1])
        self.store(st, p, v, ins.ty, fr.fn.mod)
        fr.idx += 1

    def i_getelementptr(self, st, fr, ins):
        sty, base, idx = ins.a
        p = self.val(st, base)
        mod = fr.fn.mod
        off = 0
        t = sty
        arr = None
        for i, (ity, ix) in enumerate(idx):
            v = self.val(st, ix, ity)
            v = st.sgn(v, ity[1])
            if i and mod.resolve(t)[0] == 'array':
                arr = (off, off + mod.size(t))
            elif i:
                arr = None
            if i == 0:
                off = off + v * mod.size(t)
            else:
                t = mod.resolve(t)
                if t[0] == 'array':
                    t = t[2]
                    off = off + v * mod.size(t)
                else:
                    fo, t = mod.field_off(t, v)
                    off = off + fo
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.fail(st, 'memory', 'arithmetic on an indeterminate pointer')
            raise Unsupported('gep on %r' % (p,))
        if p.obj is None and not (isinstance(off, int) and off == 0):
            self.fail(st, 'memory', 'arithmetic on a null pointer')
        bnd = p.bnd if len(idx) == 1 and t[0] == 'i' else None
        if arr is not None and p.obj is not None and isinstance(p.off, int) and isinstance(arr[0], int):
            o = st.obj(p.obj)
            if isinstance(o.size, int) and arr[1] - arr[0] < o.size:
                bnd = (p.off + arr[0], p.off + arr[1])
        fr.env[ins.res] = Ptr(p.obj, p.off + off, bnd)
        fr.idx += 1

    def i_icmp(self, st, fr, ins):
        pred, ty, a, b = ins.a
        a = self.val(st, a, ty)
        b = self.val(st, b, ty)
        fr.env[ins.res] = self.icmp(st, pred, a, b, ty)
        fr.idx += 1

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = a == b
                return same if pred == 'eq' else not same
            if a.obj != b.obj:
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                raise Unsupported('ordering of unrelated pointers')
            x, y = a.off, b.off
            return {'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge,
                    'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](x, y)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt):
                return self.icmp(st, pred, a.ptr, b.ptr, ('ptr',))
            raise Unsupported('comparison of addresses')
        w = ty[1]
        if w == 1:
            a = a if isinstance(a, (bool, tuple)) else bool(a)
            b = b if isinstance(b, (bool, tuple)) else bool(b)
            if pred == 'eq':
                return T.iff(a, b)
            if pred == 'ne':
                return neg(T.iff(a, b))
            raise Unsupported('i1 compare')
        if pred in ('eq', 'ne'):
            if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
                M = 1 << w
                x = st.ival(a)
                y = st.ival(b)

                def inr(v, base):
                    return v[0] is not None and v[1] is not None and v[0] >= base and v[1] < base + M
                for base in (0, -(M >> 1)):
                    bb = b
                    if isinstance(b, int):
                        bb = (b - base) % M + base
                    if inr(x, base) and (isinstance(b, int) or inr(y, base)):
                        return eq(a, bb) if pred == 'eq' else ne(a, bb)
            a = st.uns(a, w)
            b = st.uns(b, w)
            return eq(a, b) if pred == 'eq' else ne(a, b)
        if pred[0] == 'u':
            a = st.uns(a, w)
            b = st.uns(b, w)
        else:
            a = st.sgn(a, w)
            b = st.sgn(b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)

    def binop(self, st, op, a, b, w, flags):
        if w == 1:
            a = a if isinstance(a, (bool, tuple)) else bool(a % 2)
            b = b if isinstance(b, (bool, tuple)) else bool(b % 2)
            if op == 'and':
                return conj(a, b)
            if op == 'or':
                return disj(a, b)
            if op == 'xor':
                return neg(T.iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.ptr.obj != b.ptr.obj:
                    self.fail(st, 'memory', 'difference of pointers into different objects')
                return a.ptr.off - b.ptr.off
            if op == 'add' and isinstance(a, PInt) and isinstance(b, (int, Poly)):
                return PInt(Ptr(a.ptr.obj, a.ptr.off + b))
            raise Unsupported('integer arithmetic on addresses')
        if isinstance(a, Pieces) and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
            return Pieces(a.bs[b // 8:] + [0] * (b // 8))
        if isinstance(a, Pieces):
            st._notint(a)
        if isinstance(b, Pieces):
            st._notint(b)
        if a is UNDEF or b is UNDEF:
            self.fail(st, 'uninitialised', 'arithmetic on an indeterminate value')
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags or 'nuw' in flags:
                if 'nsw' in flags:
                    x, y = st.sgn(a, w), st.sgn(b, w)
                    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                    self.obligation(st, conj(ge(r, -(M >> 1)), lt(r, M >> 1)), 'overflow', 'no signed overflow in %s' % op)
                    return r
                x, y = st.uns(a, w), st.uns(b, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                self.obligation(st, conj(ge(r, 0), lt(r, M)), 'overflow', 'no overflow in %s' % op)
                return r
            if op == 'mul':
                # keep products of in-range views, so that interval reasoning works
                if isinstance(a, Poly) and isinstance(b, Poly):
                    a, b = st.uns(a, w), st.uns(b, w)
                return a * b
            if op == 'add':
                # adding 2^w-k is subtracting k
                if isinstance(b, int) and b >= M >> 1:
                    b -= M
                if isinstance(a, int) and a >= M >> 1:
                    a -= M
                r = a + b
            else:
                r = a - b
            return st._reduce(r, w) if isinstance(r, Poly) else r % M
        if op in ('udiv', 'urem'):
            a, b = st.uns(a, w), st.uns(b, w)
            self.obligation(st, ne(b, 0), 'division', 'divisor is not zero')
            if isinstance(b, Poly):
                b = st.concretize(b, 64, 'divisor')
            q, r = st.divdef(a, b)
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            a, b = st.sgn(a, w), st.sgn(b, w)
            self.obligation(st, conj(ne(b, 0), neg(conj(eq(a, -(M >> 1)), eq(b, -1)))), 'division',
                            'divisor is not zero and the quotient fits')
            if isinstance(b, Poly):
                b = st.concretize(b, 64, 'divisor')
            sa = 1
            if not st.decide(ge(a, 0)):
                sa, a = -1, -a
            sb = 1
            if b < 0:
                sb, b = -1, -b
            q, r = st.divdef(a, b)
            return q * (sa * sb) if op == 'sdiv' else r * sa
        if op in ('shl', 'lshr', 'ashr'):
            b = st.uns(b, w)
            self.obligation(st, lt(b, w), 'shift', 'shift amount below the width')
            k = st.concretize(b, 130, 'shift amount')
            if op == 'shl':
                if 'nsw' in flags:
                    r = st.sgn(a, w) * (1 << k)
                    self.obligation(st, conj(ge(r, -(M >> 1)), lt(r, M >> 1)), 'overflow', 'no signed overflow in shift')
                    return r
                if 'nuw' in flags:
                    r = st.uns(a, w) * (1 << k)
                    self.obligation(st, lt(r, M), 'overflow', 'no overflow in shift')
                    return r
                x = a
                if isinstance(x, Poly):
                    # low w-k bits matter only; use the in-range view when it does not overflow
                    x = st.uns(x, w)
                    lo, hi = st.ival(x)
                    if hi is None or hi >= (1 << (w - k)):
                        if not st.entails(lt(x, 1 << (w - k))):
                            x = st.divdef(x, 1 << (w - k))[1]
                        else:
                            st._tighten(x, 0, (1 << (w - k)) - 1)
                return x * (1 << k) if isinstance(x, Poly) else (x << k) % M
            if op == 'lshr':
                return st.divdef(st.uns(a, w), 1 << k)[0]
            return st.divdef(st.sgn(a, w), 1 << k)[0]
        if op == 'and':
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(b, int):
                b %= M
                if isinstance(a, int):
                    return (a % M) & b
                if b == 0:
                    return 0
                if b == M - 1:
                    return a
                x = st.uns(a, w)
                return self.mask(st, x, b, w)
            raise_ = self.disjoint(st, a, b, w)
            x, y = st.uns(a, w), st.uns(b, w)
            for u, v in ((x, y), (y, x)):
                lo, hi = st.ival(u)
                if lo is not None and hi is not None and hi - lo <= 1:
                    return self.binop(st, 'and', v, st.concretize(u), w, flags)
            return self.both(st, x, y)
        if op == 'or':
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(a, int) and isinstance(b, int):
                return (a % M) | (b % M)
            if isinstance(b, int) and b % M == 0:
                return a
            x, y = st.uns(a, w), st.uns(b, w)
            if self.disjoint(st, x, y, w) or self.disjoint(st, y, x, w):
                return x + y
            if isinstance(y, int):
                # x | y = x + (y with the bits of x removed) = x + y - (x & y)
                return x + y - self.mask(st, x, y, w)
            for u, v in ((x, y), (y, x)):
                lo, hi = st.ival(u)
                if lo is not None and hi is not None and hi - lo <= 1:
                    return self.binop(st, 'or', v, st.concretize(u), w, flags)
            return x + y - self.both(st, x, y)
        if op == 'xor':
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(a, int) and isinstance(b, int):
                return (a % M) ^ (b % M)
            if isinstance(b, int):
                b %= M
                if b == 0:
                    return a
                if b == M - 1:
                    return -1 - a
                x = st.uns(a, w)
                return x + b - self.mask(st, x, b, w) * 2
            x, y = st.uns(a, w), st.uns(b, w)
            for u, v in ((x, y), (y, x)):
                lo, hi = st.ival(u)
                if lo is not None and hi is not None and hi - lo <= 1:
                    return self.binop(st, 'xor', v, st.concretize(u), w, flags)
            return x + y - self.both(st, x, y) * 2
        raise Unsupported(op)

    def both(self, st, x, y):
        """x & y, known only to lie within 0 .. min(x, y), and to be x when x = y"""
        st.ghost['approx'] = True
        a, b = sorted((x, y), key=str)
        r = atom('both<%s,%s>' % (a, b), 0, None)
        st.assume(conj(ge(r, 0), le(r, a), le(r, b), disj(ne(a, b), eq(r, a))))
        return r

    def mask(self, st, x, b, w):
        """x & b for 0 <= x < 2^w, b constant: sum over the runs of ones of b"""
        if isinstance(x, int):
            return x & b
        lo, hi = st.ival(x)
        if hi is not None and hi >= 0:
            b &= (1 << hi.bit_length()) - 1
        out = 0
        i = 0
        n = 0
        while b >> i:
            if not (b >> i) & 1:
                i += 1
                continue
            j = i
            while (b >> j) & 1:
                j += 1
            n += 1
            if n > 4:
                raise Unsupported('mask with many runs')
            q = st.divdef(x, 1 << i)[0]
            r = st.divdef(q, 1 << (j - i))[1]
            out = out + r * (1 << i)
            i = j
        return out

    def disjoint(self, st, x, y, w):
        """x is a multiple of 2^k and 0 <= y < 2^k for some k"""
        lo, hi = st.ival(y)
        if lo is None or hi is None or lo < 0:
            return False
        k = hi.bit_length()
        if isinstance(x, int):
            return x % (1 << k) == 0
        return all(c % (1 << k) == 0 for c in x.t.values())

    def i_zext(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        if isinstance(x, PInt):
            raise Unsupported('zext address')
        fr.env[ins.res] = st.uns(x, ty[1])
        fr.idx += 1

    def i_sext(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        fr.env[ins.res] = st.sgn(x, ty[1])
        fr.idx += 1

    def i_trunc(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        if ins.ty[1] == 1:
            if isinstance(x, (int, Poly)) and not isinstance(x, bool):
                u = st.uns(x, ty[1])
                x = ne(st.divdef(u, 2)[1], 0)
            fr.env[ins.res] = x
        else:
            if isinstance(x, Poly):
                x = st._reduce(x, ins.ty[1])
            elif isinstance(x, int):
                x %= 1 << ins.ty[1]
            elif x is UNDEF:
                pass
            elif isinstance(x, Pieces) and ins.ty[1] % 8 == 0:
                x = Pieces(x.bs[:ins.ty[1] // 8])
            else:
                raise Unsupported('trunc of %r' % (x,))
            fr.env[ins.res] = x
        fr.idx += 1

    def i_bitcast(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        if ins.ty[0] == 'double' and isinstance(x, (int, Poly)):
            x = F64(x)
        elif ins.ty[0] == 'i' and isinstance(x, (F64, F32)):
            x = x.bits
        elif ins.ty[0] == 'float' and isinstance(x, (int, Poly)):
            x = F32(x)
        fr.env[ins.res] = x
        fr.idx += 1

    def i_ptrtoint(self, st, fr, ins):
        ty, v = ins.a
        p = self.val(st, v, ty)
        fr.env[ins.res] = 0 if p == NULL else PInt(p)
        fr.idx += 1

    def i_inttoptr(self, st, fr, ins):
        ty, v = ins.a
        p = self.val(st, v, ty)
        if isinstance(p, PInt):
            fr.env[ins.res] = p.ptr
        elif isinstance(p, int) and p == 0:
            fr.env[ins.res] = NULL
        else:
            raise Unsupported('inttoptr')
        fr.idx += 1

    def i_freeze(self, st, fr, ins):
        fr.env[ins.res] = self.val(st, ins.a[0], ins.ty)
        fr.idx += 1

    # ---- floating point
    def i_fpext(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        fr.env[ins.res] = self.fpconv(st, x, ty[0], ins.ty[0])
        fr.idx += 1

    def i_fptrunc(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        fr.env[ins.res] = self.fpconv(st, x, ty[0], ins.ty[0])
        fr.idx += 1

    def fpconv(self, st, x, a, b):
        if x is UNDEF:
            self.fail(st, 'uninitialised', 'conversion of an indeterminate value')
        rank = {'float': 0, 'double': 1, 'x86_fp80': 2}
        if rank[b] > rank[a]:
            # exact extension
            if isinstance(x, F32) and isinstance(x.bits, int) and b == 'double':
                f = struct.unpack('<f', struct.pack('<I', x.bits % 2**32))[0]
                return F64(bits_of_f64(f))
            if b == 'double':
                r = self.abstract_double(st, FP('ext', a, b, x))
                st.assume(neg(signalling(r.bits)))
                return r
            return FP('ext', a, b, x)
        # narrowing: undo an exact extension when possible
        if isinstance(x, FP) and x.kind == 'ext':
            src = x.args[0]
            if rank[src] <= rank[b]:
                y = x.args[2]
                if src == b:
                    if src == 'double' and isinstance(y, F64):
                        # a conversion makes a NaN quiet
                        u = st.uns(y.bits, 64)
                        if st.decide(signalling(u)):
                            return F64(u + 2**51)
                    return y
                return self.fpconv(st, y, src, b)
        if b == 'double':
            r = self.abstract_double(st, FP('trunc', a, b, x))
            st.assume(neg(signalling(r.bits)))
            return r
        return FP('trunc', a, b, x)

    def abstract_double(self, st, fp):
        """an arbitrary double, one for each abstract form"""
        b = atom('bits<%s>' % (fp,), 0, 2**64 - 1)
        ATOMS[b.single()].info = fp
        return F64(b)

    def concrete_f64(self, x):
        return isinstance(x, F64) and isinstance(x.bits, int)

    def fbin(self, st, op, a, b, ty):
        if ty[0] == 'double' and self.concrete_f64(a) and self.concrete_f64(b):
            x, y = f64_of_bits(a.bits), f64_of_bits(b.bits)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
            except ZeroDivisionError:
                raise Unsupported('fdiv by zero')
            return F64(bits_of_f64(r))
        return FP(op, ty[0], a, b)

    def i_fneg(self, st, fr, ins):
        x = self.val(st, ins.a[0], ins.ty)
        w = {'double': 64, 'float': 32}.get(ins.ty[0])
        if isinstance(x, (F64, F32)):
            u = st.uns(x.bits, w)
            H = 1 << (w - 1)
            r = u - H if st.decide(ge(u, H)) else u + H
            fr.env[ins.res] = x.__class__(r)
        else:
            fr.env[ins.res] = FP('fneg', ins.ty[0], x)
        fr.idx += 1

    def i_sitofp(self, st, fr, ins):
        ty, v = ins.a
        x = st.sgn(self.val(st, v, ty), ty[1])
        x = st.concretize(x, 64, 'integer converted to floating point')
        self._itofp(st, fr, ins, x)

    def i_uitofp(self, st, fr, ins):
        ty, v = ins.a
        x = st.uns(self.val(st, v, ty), ty[1])
        x = st.concretize(x, 64, 'integer converted to floating point')
        self._itofp(st, fr, ins, x)

    def _itofp(self, st, fr, ins, x):
        if ins.ty[0] != 'double':
            raise Unsupported('int to ' + ins.ty[0])
        fr.env[ins.res] = F64(bits_of_f64(float(x)))
        fr.idx += 1

    def i_fptosi(self, st, fr, ins):
        ty, v = ins.a
        x = self.val(st, v, ty)
        if not self.concrete_f64(x):
            raise Unsupported('fptosi of a symbolic value')
        d = f64_of_bits(x.bits)
        if d != d or d in (float('inf'), float('-inf')):
            self.fail(st, 'overflow', 'conversion of a non-finite value to integer')
        r = int(d)
        w = ins.ty[1]
        ok = -(1 << (w - 1)) <= r < (1 << (w - 1)) if ins.op == 'fptosi' else 0 <= r < (1 << w)
        self.obligation(st, ok, 'overflow', 'converted value fits')
        fr.env[ins.res] = r
        fr.idx += 1

    i_fptoui = i_fptosi

    def i_fcmp(self, st, fr, ins):
        pred, ty, a, b = ins.a
        a = self.val(st, a, ty)
        b = self.val(st, b, ty)
        fr.env[ins.res] = self.fcmp(st, pred, a, b, ty)
        fr.idx += 1

    def fcmp(self, st, pred, a, b, ty):
        if pred in ('true', 'false'):
            return pred == 'true'
        if ty[0] == 'x86_fp80' or ty[0] == 'float':
            # comparisons with the constant zero of exactly extended values carry over
            def down(x):
                if isinstance(x, FP) and x.kind == 'ext' and x.args[0] == 'double':
                    return x.args[2]
                if isinstance(x, FP) and x.kind == 'const80' and x.args[0] == 0:
                    return F64(0)
                return None
            x, y = down(a), down(b)
            if x is not None and y is not None:
                return self.fcmp(st, pred, x, y, ('double',))
            raise Unsupported('comparison of %s' % ty[0])
        if not isinstance(a, F64) or not isinstance(b, F64):
            raise Unsupported('comparison of abstract doubles')
        if self.concrete_f64(a) and self.concrete_f64(b):
            x, y = f64_of_bits(a.bits), f64_of_bits(b.bits)
            un = x != x or y != y
            o = {'eq': x == y, 'ne': x != y and not un, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            return (not un and o[pred[1:]]) if pred[0] == 'o' else (un or o[pred[1:]])
        # symbolic: total order key of a double: sign-magnitude
        INFB = 0x7FF << 52
        H = 1 << 63

        def parts(v):
            if isinstance(v.bits, int):
                u = v.bits % 2**64
            else:
                u = st.uns(v.bits, 64)
            neg_ = st.decide(ge(u, H))
            m = u - H if neg_ else u
            return m, neg_
        ma, na = parts(a)
        mb, nb = (ma, na) if a == b else parts(b)
        una = gt(ma, INFB)
        unb = gt(mb, INFB)
        un = disj(una, unb)
        if pred == 'ord':
            return neg(un)
        if pred == 'uno':
            return un
        ka = -ma if na else ma
        kb = -mb if nb else mb
        base = {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](ka, kb)
        return conj(neg(un), base) if pred[0] == 'o' else disj(un, base)

    # ---- control
    def i_br(self, st, fr, ins):
        return self.jump(st, fr, ins.a[0])

    def i_condbr(self, st, fr, ins):
        c = self.val(st, ins.a[0], ('i', 1))
        if c is UNDEF:
            self.fail(st, 'uninitialised', 'branch on an indeterminate value')
        if not isinstance(c, (bool, tuple)):
            c = ne(st.divdef(st.uns(c, 1), 2)[1], 0)
        try:
            t = st.decide(c)
        except Fork:
            # both ways to the same block without effect (short-circuit operators)?
            for a, b, k in ((ins.a[1], ins.a[2], neg(c)), (ins.a[2], ins.a[1], c)):
                if self.leads_to(st, b, a, k):
                    return self.jump(st, fr, a)
            raise
        return self.jump(st, fr, ins.a[1] if t else ins.a[2])

    PURE = {'load', 'icmp', 'getelementptr', 'zext', 'sext', 'trunc', 'br', 'condbr', 'bitcast'}

    def leads_to(self, st, b, target, c):
        """under c, does block b reach target by effect-free instructions only?"""
        fn = st.frames[-1].fn
        if fn.blocks[target][0].op == 'phi':
            return False
        lab = b
        for _ in range(3):
            blk = fn.blocks[lab]
            if len(blk) > 14 or any(i.op not in self.PURE for i in blk):
                return False
            t = blk[-1]
            if t.op == 'br':
                succ = [t.a[0]]
            elif t.op == 'condbr':
                succ = [t.a[1], t.a[2]]
            else:
                return False
            if target in succ:
                break
            if len(succ) != 1:
                return False
            lab = succ[0]
        else:
            return False
        s = st.clone()
        try:
            s.assume(c)
            fr = s.frames[-1]
            fr.prev, fr.block, fr.idx = fr.block, b, 0
            for _ in range(60):
                if fr.block == target and fr.idx == 0:
                    return True
                i = fr.fn.blocks[fr.block][fr.idx]
                if i.op not in self.PURE:
                    return False
                if i.op == 'br':
                    fr.prev, fr.block, fr.idx = fr.block, i.a[0], 0
                elif i.op == 'condbr':
                    v = self.val(s, i.a[0], ('i', 1))
                    if not isinstance(v, (bool, tuple)):
                        return False
                    d = s.decide(v)
                    fr.prev, fr.block, fr.idx = fr.block, i.a[1] if d else i.a[2], 0
                else:
                    self.step(s, fr, i)
        except (Fork, Dead, Unsupported):
            return False
        return False

    def i_switch(self, st, fr, ins):
        v, d, cases = ins.a
        x = self.val(st, v, ins.ty)
        w = ins.ty[1]
        for k, lab in cases:
            c = self.icmp(st, 'eq', x, k, ins.ty)
            if st.decide(c):
                return self.jump(st, fr, lab)
        return self.jump(st, fr, d)

    def i_select(self, st, fr, ins):
        c, a, b = ins.a
        cv = self.val(st, c, ('i', 1))
        if not isinstance(cv, (bool, tuple)):
            cv = bool(cv)
        fr.env[ins.res] = self.val(st, a if st.decide(cv) else b, ins.ty)
        fr.idx += 1

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi not at block start')

    def i_unreachable(self, st, fr, ins):
        self.fail(st, 'unreachable', 'code marked unreachable is not reached')

    def i_extractvalue(self, st, fr, ins):
        v, ix = ins.a
        x = self.val(st, v, ins.ty)
        if x is UNDEF:
            fr.env[ins.res] = UNDEF
        else:
            for i in ix:
                x = x[i]
            fr.env[ins.res] = x
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        v, ety, e, ix = ins.a
        x = self.val(st, v, ins.ty)
        ev = self.val(st, e, ety)
        t = fr.fn.mod.resolve(ins.ty)
        if len(ix) != 1:
            raise Unsupported('nested insertvalue')
        if x is UNDEF:
            n = len(t[1]) if t[0] == 'struct' else t[1]
            x = [UNDEF] * n
        x = list(x)
        x[ix[0]] = ev
        fr.env[ins.res] = x
        fr.idx += 1

    def i_ret(self, st, fr, ins):
        v = None if ins.a[0] is None else self.val(st, ins.a[0], ins.ty)
        self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.wobj(a)
            o.dead = True
        if not st.frames:
            st.result = v
            return
        res, normal, unwind = fr.ret
        c = st.frames[-1]
        if res is not None:
            c.env[res] = v
        if normal is None:
            c.idx += 1
        else:
            self.jump(st, c, normal)

    def throw(self, st, exc):
        """unwind with exception exc = (type name, pointer)"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op == 'invoke':
                dest = ins.a[2]
                fr.prev = fr.block
                fr.block = dest[1]
                fr.idx = 0
                if fr.meta is None:
                    fr.meta = {}
                fr.meta['exc'] = exc
                return
            f = st.frames.pop()
            for a in f.allocas:
                st.wobj(a).dead = True
        st.thrown = exc

    def i_landingpad(self, st, fr, ins):
        exc = fr.meta['exc']
        clauses = ins.a[0]
        sel = 0
        for c in clauses:
            if c[0] == 'catch':
                if c[1][0] == 'null':
                    sel = 1
                    break
                name = c[1][1] if c[1][0] == 'g' else None
                if name and self.prog.exc_matches(exc[0], name):
                    sel = self.prog.typeid_index(name)
                    break
        else:
            if not any(c[0] == 'cleanup' for c in clauses):
                # not caught here: keep unwinding
                f = st.frames.pop()
                for a in f.allocas:
                    st.wobj(a).dead = True
                self.throw(st, exc)
                return None
        fr.env[ins.res] = [exc[1], sel]
        st.ghost['exc'] = exc
        fr.idx += 1

    def i_resume(self, st, fr, ins):
        exc = fr.meta['exc'] if fr.meta and 'exc' in fr.meta else st.ghost.get('exc')
        f = st.frames.pop()
        for a in f.allocas:
            st.wobj(a).dead = True
        self.throw(st, exc)

    def i_call(self, st, fr, ins):
        return self.call(st, fr, ins)

    i_invoke = i_call

    def call(self, st, fr, ins):
        callee, args, dest = ins.a
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(st, callee)
            if not isinstance(p, FnPtr):
                raise Unsupported('indirect call')
            name = p.name[1]
        mod = fr.fn.mod
        avs = []
        for t, v, at in args:
            x = UNDEF if t[0] == 'metadata' else self.val(st, v, t)
            if 'byval' in at:
                raise Unsupported('byval argument')
            avs.append(x)
        fn = self.prog.find_func(mod, name)
        dem = self.prog.demangle(name)
        dem = self.prog.as_contract.get(dem, dem)
        con = self.contracts.get(dem)
        if con is not None and self.top is not None and dem == self.top and len(st.frames) == 0:
            con = None
        handler = None
        if con is not None and con.usable(self, fn):
            handler = lambda s: con.apply(self, s, avs, ins)
        elif fn is None or name.startswith('llvm.') or self.prog.model_override(dem):
            import models
            h = models.lookup(self, name, dem)
            if h is None:
                if fn is None:
                    raise Unsupported('no contract for external %s' % dem)
            else:
                handler = lambda s: h(self, s, avs, ins)
                if not name.startswith('llvm.'):
                    self.externals.add(dem)
        if handler is not None:
            s2 = st.clone()
            depth = len(s2.frames)
            r = handler(s2)
            if r is INLINE:
                handler = None
            else:
                st.become(s2)
        if handler is not None:
            if con is not None and con.usable(self, fn):
                self.applied.add(dem)
            if r is THROW:
                return None
            fr = st.frames[-1]
            if ins.res is not None:
                fr.env[ins.res] = r
            if dest is not None:
                return self.jump(st, fr, dest[0])
            fr.idx += 1
            return None
        # inline
        fn.parse()
        if fn.error:
            raise Unsupported('%s: %s' % (dem, fn.error))
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        self.inlined.add(dem)
        f = Frame(fn)
        f.block = fn.order[0]
        for (t, at, nm), a in zip(fn.params, avs):
            f.env[nm] = a
        f.ret = (ins.res, dest[0] if dest else None, dest[1] if dest else None)
        for k in [k for k in st.loops if k[0] > len(st.frames)]:
            del st.loops[k]
        st.frames.append(f)
        return None


THROW = object()
INLINE = object()
