"""Obligation back ends: interval arithmetic first, then z3 on linear integer
arithmetic (non-linear monomials are opaque variables with interval bounds), then cvc5."""
import time
import z3
from term import ATOMS, Poly, imul
import term as T


def static_ival(p):
    """interval of p from the atoms' own bounds"""
    if isinstance(p, int):
        return p, p
    lo = hi = 0
    for m, c in p.t.items():
        x = (1, 1)
        for i in m:
            a = ATOMS[i]
            x = imul(x, (a.lo, a.hi))
        x = T.iscale(x, c)
        lo = T.iadd(lo, x[0])
        hi = T.iadd(hi, x[1])
    return lo, hi


class Ctx:
    """one z3 solver, kept in step with the path condition of the state asking"""

    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.reset()
        self.stats = {}
        self.time = {}
        self.unknowns = 0

    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout)
        self.stack = []          # conditions asserted, one scope each
        self.declared = [set()]
        self.pcache = {}

    # -- translation
    def mono(self, m):
        v = self.pcache.get(m)
        if v is None:
            if len(m) == 1:
                v = z3.Int('a%d' % m[0])
            else:
                v = z3.Int('m' + '_'.join(map(str, m)))
            self.pcache[m] = v
        return v

    def poly(self, p):
        if isinstance(p, int):
            return z3.IntVal(p)
        v = self.pcache.get(p)
        if v is None:
            args = []
            for m, c in p.t.items():
                if not m:
                    args.append(z3.IntVal(c))
                else:
                    x = self.mono(m)
                    args.append(x if c == 1 else z3.IntVal(c) * x)
            v = args[0] if len(args) == 1 else z3.Sum(args)
            self.pcache[p] = v
        return v

    def cond(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        k = c[0]
        if k in ('le', 'eq', 'ne'):
            p = c[1]
            k0 = p.const()
            lhs = self.poly(p - k0 if k0 else p)
            if k == 'le':
                return lhs <= -k0
            if k == 'eq':
                return lhs == -k0
            return lhs != -k0
        xs = [self.cond(x) for x in c[1]]
        return z3.And(xs) if k == 'and' else z3.Or(xs)

    def is_declared(self, m):
        return any(m in d for d in self.declared)

    def declare(self, c):
        """assert bounds and definitions of every atom of c not known yet"""
        polys = []
        T.cond_polys(c, polys)
        todo = polys
        while todo:
            p = todo.pop()
            if isinstance(p, int):
                continue
            for m in p.t:
                if not m or self.is_declared(m):
                    continue
                self.declared[-1].add(m)
                if len(m) == 1:
                    a = ATOMS[m[0]]
                    v = self.mono(m)
                    if a.lo is not None:
                        self.s.add(v >= a.lo)
                    if a.hi is not None:
                        self.s.add(v <= a.hi)
                    for d in a.defs:
                        ps = []
                        T.cond_polys(d, ps)
                        todo.extend(ps)
                        self.s.add(self.cond(d))
                else:
                    lo, hi = static_ival(Poly({m: 1}))
                    v = self.mono(m)
                    if lo is not None:
                        self.s.add(v >= lo)
                    if hi is not None:
                        self.s.add(v <= hi)

    def sync(self, pc):
        n = 0
        for a, b in zip(self.stack, pc):
            if a is b or a == b:
                n += 1
            else:
                break
        while len(self.stack) > n:
            self.s.pop()
            self.stack.pop()
            self.declared.pop()
        for c in pc[n:]:
            self.s.push()
            self.stack.append(c)
            self.declared.append(set())
            self.declare(c)
            self.s.add(self.cond(c))

    def check(self, pc, extra, want_model=False, what='query', timeout=None):
        """'sat' | 'unsat' | 'unknown' (and model) of pc and extra"""
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        self.declared.append(set())
        model = None
        try:
            for c in extra:
                self.declare(c)
                self.s.add(self.cond(c))
            if timeout:
                self.s.set('timeout', timeout)
            r = str(self.s.check())
            if r == 'sat' and want_model:
                model = self.model(self.s.model())
        except z3.Z3Exception:
            r = 'unknown'
        finally:
            if timeout:
                self.s.set('timeout', self.timeout)
            self.s.pop()
            self.declared.pop()
        be = 'z3'
        dt = time.time() - t0
        self.stats['z3'] = self.stats.get('z3', 0) + 1
        self.time['z3'] = self.time.get('z3', 0) + dt
        if r == 'unknown':
            self.unknowns += 1
            t0 = time.time()
            r2, model2 = self.second(pc, extra, want_model)
            self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
            self.time['cvc5'] = self.time.get('cvc5', 0) + time.time() - t0
            if r2 != 'unknown':
                r, model = r2, model2
                be = 'cvc5'
        self.last = be
        return (r, model) if want_model else r

    def model(self, m):
        env = {}
        for d in m.decls():
            n = d.name()
            if n[0] == 'a' and n[1:].isdigit():
                v = m[d]
                try:
                    env[int(n[1:])] = v.as_long()
                except Exception:
                    pass
        return env

    def second(self, pc, extra, want_model):
        """a fresh z3 solver with a different strategy, then cvc5"""
        s = z3.Solver()
        old = self.s, self.stack, self.declared
        self.s, self.stack, self.declared = s, [], [set()]
        try:
            s.set('timeout', self.timeout)
            s.set('random_seed', 7)
            for c in list(pc) + list(extra):
                self.declare(c)
                s.add(self.cond(c))
            r = str(s.check())
            if r != 'unknown':
                return r, (self.model(s.model()) if r == 'sat' and want_model else None)
            smt = '(set-logic QF_LIA)\n' + s.sexpr() + '\n(check-sat)\n'
        finally:
            self.s, self.stack, self.declared = old
        try:
            import cvc5
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption('tlimit-per', str(self.timeout))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
            sm = p.getSymbolManager()
            out = ''
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out += str(cmd.invoke(slv, sm))
            out = out.strip().split('\n')[-1] if out.strip() else 'unknown'
            if out in ('sat', 'unsat'):
                return out, ({} if out == 'sat' else None)
        except Exception:
            pass
        return 'unknown', None
