"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under
verification.  Only what clang -O0 emits for C++ without vectors or inline asm is
supported; anything else raises Unsupported for the function that contains it."""
import re
import struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]*))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[A-Z]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_$.][\w$.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


def unq(name):
    """%"a b" -> a b"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def cstr_bytes(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


# ---- types: tuples ------------------------------------------------------
VOID = ('void',)
PTR = ('ptr',)


def I(n):
    return ('i', n)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly',
    'writeonly', 'readnone', 'returned', 'immarg', 'writable', 'dead_on_unwind', 'nofree',
    'nest', 'swiftself', 'allocptr', 'allocalign', 'captures',
}
FUNC_KW = {
    'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
    'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable',
    'default', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc',
    'coldcc', 'thread_local', 'externally_initialized', 'dllimport', 'dllexport',
}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'afn', 'reassoc', 'nneg', 'disjoint', 'volatile', 'atomic', 'samesign', 'nusw'}


class Cur:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def val(self, k=0):
        return self.peek(k)[1]

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def eat(self, s):
        if self.val() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported('expected %r got %r in %r' % (s, self.val(), ' '.join(x[1] for x in self.t)))

    def done(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if self.val() == 'addrspace':
                    raise Unsupported('addrspace')
            elif v == 'void':
                t = VOID
            elif re.fullmatch(r'i\d+', v):
                t = I(int(v[1:]))
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128', 'bfloat'):
                t = (v,)
            elif v in ('metadata', 'label', 'token', 'opaque'):
                t = (v,)
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            t = ('struct', tuple(el), False)
        elif v == '<':
            if self.val() == '{':
                self.next()
                el = []
                while not self.eat('}'):
                    el.append(self.type())
                    self.eat(',')
                self.expect('>')
                t = ('struct', tuple(el), True)
            else:
                raise Unsupported('vector type')
        else:
            raise Unsupported('type tok %r' % v)
        # function type
        if self.val() == '(' and t[0] != 'label':
            save = self.i
            try:
                self.next()
                ps = []
                va = False
                while not self.eat(')'):
                    if self.peek()[0] == 'dots':
                        self.next()
                        va = True
                    else:
                        ps.append(self.type())
                    self.eat(',')
                t = ('func', t, tuple(ps), va)
            except Unsupported:
                self.i = save
        return t

    def attrs(self):
        """skip parameter attributes, return dict of the interesting ones"""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.next()
                out[v] = True
            elif k == 'id' and v in ('align',):
                self.next()
                if self.eat('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null'):
                self.next()
                self.expect('(')
                out[v] = int(self.next()[1])
                self.expect(')')
            elif k == 'id' and v in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                self.next()
                self.expect('(')
                out[v] = self.type()
                self.expect(')')
            elif k == 'id' and v in ('range', 'nofpclass', 'memory', 'initializes'):
                self.next()
                self.expect('(')
                d = 1
                while d:
                    x = self.next()[1]
                    d += (x == '(') - (x == ')')
            else:
                return out

    def value(self, ty):
        """parse an operand of type ty -> operand tuple"""
        k, v = self.next()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) % (1 << ty[1]), ty)
            raise Unsupported('num for type %r' % (ty,))
        if k in ('hex', 'flt'):
            return ('fc', fconst(v, ty), ty)
        if k == 'cstr':
            return ('bytes', cstr_bytes(v))
        if k == 'id':
            if v == 'true':
                return ('c', 1, I(1))
            if v == 'false':
                return ('c', 0, I(1))
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'getelementptr':
                inb = False
                while self.peek()[0] == 'id' and self.val() in FLAGS:
                    self.next()
                    inb = True
                self.expect('(')
                sty = self.type()
                self.expect(',')
                ops = []
                while True:
                    if self.val() == 'inrange':
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
                self.expect(')')
                return ('cgep', sty, ops)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                o = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, o, t2)
            if v in ('add', 'sub', 'mul'):
                while self.peek()[0] == 'id' and self.val() in FLAGS:
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cbin', v, t, a, b)
            raise Unsupported('const ' + v)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<':
                if self.val() == '{':
                    self.next()
                    close = '}>'
                else:
                    raise Unsupported('vector const')
            el = []
            while self.val() != close[0]:
                t = self.type()
                el.append((t, self.value(t)))
                self.eat(',')
            for c in close:
                self.expect(c)
            return ('agg', el)
        raise Unsupported('value %r' % (v,))

    def tv(self):
        t = self.type()
        self.attrs()
        if t[0] == 'metadata':
            while self.val() not in (',', ')', None):
                self.next()
            return t, ('undef', t)
        return t, self.value(t)


def fconst(v, ty):
    """returns bit pattern (int) for float/double; for x86_fp80 ('ld', hexstring)"""
    if ty[0] == 'x86_fp80':
        if v.startswith('0xK'):
            return int(v[3:], 16)
        raise Unsupported('fp80 const ' + v)
    if v.startswith('0x'):
        if not re.fullmatch(r'0x[0-9A-Fa-f]+', v):
            raise Unsupported('fp const ' + v)
        bits = int(v, 16)
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
    else:
        d = float(v)
        bits = struct.unpack('<Q', struct.pack('<d', d))[0]
    if ty[0] == 'double':
        return bits
    if ty[0] == 'float':
        return struct.unpack('<I', struct.pack('<f', d))[0]
    raise Unsupported('fp const type')


class Func:
    def __init__(self, name, mod, ret, params, line, internal):
        self.name = name
        self.mod = mod
        self.ret = ret
        self.params = params      # (type, attrs, name)
        self.blocks = {}          # label -> [instr]
        self.order = []
        self.line = line
        self.error = None
        self.internal = internal
        self.raw = []
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        try:
            self._parse()
        except Unsupported as e:
            self.error = str(e)
        return self

    def _parse(self):
        cur = None
        lines = self.raw
        i = 0
        n = len(lines)
        if not re.match(r'^("?[-\w$. ]+"?):', lines[0] if lines else ''):
            # implicit entry label: numbered after unnamed params
            cnt = 0
            for (_, _, nm) in self.params:
                if nm is not None and nm.isdigit():
                    cnt = max(cnt, int(nm) + 1)
            cur = str(cnt)
            self.blocks[cur] = []
            self.order.append(cur)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', ln)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            # continuation lines: switch [...], invoke "to label", landingpad clauses
            if re.match(r'^\s*switch\b', ln) and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if re.search(r'(^|= )invoke\b', s) and ' to label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if re.search(r'= landingpad\b', s):
                while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            self.blocks[cur].append(parse_instr(s, self.mod))


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'flags')

    def __init__(self, op, res, ty, a, text, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text
        self.flags = flags

    def __repr__(self):
        return self.text


def parse_instr(s, mod):
    # strip trailing metadata
    t = tokenize(s)
    # cut metadata attachments ", !dbg !12"
    for j in range(len(t)):
        if t[j][0] == 'meta' and j > 0 and t[j - 1][1] == ',' and not any(x[1] == 'metadata' for x in t[:j]):
            t = t[:j - 1]
            break
    c = Cur(t, mod)
    res = None
    if c.peek()[0] == 'loc' and c.val(1) == '=':
        res = unq(c.next()[1])
        c.next()
    while c.val() in ('tail', 'notail', 'musttail'):
        c.next()
    op = c.next()[1]
    flags = set()
    while c.peek()[0] == 'id' and c.val() in FLAGS:
        flags.add(c.next()[1])
    if op in BINOPS:
        ty = c.type()
        a = c.value(ty)
        c.expect(',')
        b = c.value(ty)
        return Ins(op, res, ty, (a, b), s, flags)
    if op in CASTS:
        ty = c.type()
        a = c.value(ty)
        c.expect('to')
        ty2 = c.type()
        return Ins(op, res, ty2, (ty, a), s, flags)
    if op == 'alloca':
        ty = c.type()
        n = None
        if c.eat(','):
            if c.val() != 'align':
                nt, n = c.tv()
        return Ins(op, res, ty, (n,), s)
    if op == 'load':
        ty = c.type()
        c.expect(',')
        _, p = c.tv()
        return Ins(op, res, ty, (p,), s, flags)
    if op == 'store':
        if 'atomic' in flags:
            raise Unsupported('atomic')
        ty, v = c.tv()
        c.expect(',')
        _, p = c.tv()
        return Ins(op, None, ty, (v, p), s, flags)
    if op == 'getelementptr':
        sty = c.type()
        c.expect(',')
        _, base = c.tv()
        idx = []
        while c.eat(','):
            idx.append(c.tv())
        return Ins(op, res, PTR, (sty, base, idx), s, flags)
    if op in ('icmp', 'fcmp'):
        pred = c.next()[1]
        ty = c.type()
        a = c.value(ty)
        c.expect(',')
        b = c.value(ty)
        return Ins(op, res, I(1), (pred, ty, a, b), s, flags)
    if op == 'br':
        if c.val() == 'label':
            c.next()
            return Ins('br', None, None, (unq(c.next()[1]),), s)
        ty, v = c.tv()
        c.expect(',')
        c.expect('label')
        l1 = unq(c.next()[1])
        c.expect(',')
        c.expect('label')
        l2 = unq(c.next()[1])
        return Ins('condbr', None, None, (v, l1, l2), s)
    if op == 'switch':
        ty, v = c.tv()
        c.expect(',')
        c.expect('label')
        d = unq(c.next()[1])
        c.expect('[')
        cases = []
        while not c.eat(']'):
            _, cv = c.tv()
            c.expect(',')
            c.expect('label')
            cases.append((cv[1], unq(c.next()[1])))
        return Ins('switch', None, ty, (v, d, cases), s)
    if op == 'phi':
        ty = c.type()
        inc = []
        while c.eat('['):
            v = c.value(ty)
            c.expect(',')
            inc.append((v, unq(c.next()[1])))
            c.expect(']')
            c.eat(',')
        return Ins('phi', res, ty, (inc,), s)
    if op == 'select':
        ct, cv = c.tv()
        c.expect(',')
        ty, a = c.tv()
        c.expect(',')
        _, b = c.tv()
        return Ins('select', res, ty, (cv, a, b), s)
    if op in ('call', 'invoke'):
        while c.peek()[0] == 'id' and c.val() in FUNC_KW:
            c.next()
        c.attrs()
        ty = c.type()
        if ty[0] == 'func':
            rty = ty[1]
        else:
            rty = ty
        k, v = c.next()
        if k == 'glob':
            callee = ('g', unq(v))
        elif k == 'loc':
            callee = ('l', unq(v))
        elif v == 'asm':
            raise Unsupported('inline asm')
        else:
            raise Unsupported('callee ' + v)
        c.expect('(')
        args = []
        while not c.eat(')'):
            t0 = c.type()
            at = c.attrs()
            if t0[0] == 'metadata':
                d = 0
                while not (d == 0 and c.val() in (',', ')')):
                    x = c.next()[1]
                    d += (x in ('(', '{')) - (x in (')', '}'))
                args.append((t0, ('undef', t0), at))
            else:
                args.append((t0, c.value(t0), at))
            c.eat(',')
        dest = None
        if op == 'invoke':
            while c.val() != 'to':
                c.next()
            c.next()
            c.expect('label')
            n1 = unq(c.next()[1])
            c.expect('unwind')
            c.expect('label')
            n2 = unq(c.next()[1])
            dest = (n1, n2)
        return Ins(op, res, rty, (callee, args, dest), s)
    if op == 'ret':
        if c.val() == 'void':
            return Ins('ret', None, VOID, (None,), s)
        ty, v = c.tv()
        return Ins('ret', None, ty, (v,), s)
    if op == 'unreachable':
        return Ins('unreachable', None, None, (), s)
    if op == 'extractvalue':
        ty, v = c.tv()
        ix = []
        while c.eat(','):
            ix.append(int(c.next()[1]))
        return Ins(op, res, ty, (v, ix), s)
    if op == 'insertvalue':
        ty, v = c.tv()
        c.expect(',')
        ety, e = c.tv()
        ix = []
        while c.eat(','):
            ix.append(int(c.next()[1]))
        return Ins(op, res, ty, (v, ety, e, ix), s)
    if op == 'landingpad':
        ty = c.type()
        clauses = []
        while not c.done():
            k = c.next()[1]
            if k == 'cleanup':
                clauses.append(('cleanup',))
            elif k in ('catch', 'filter'):
                t0 = c.type()
                clauses.append((k, c.value(t0)))
            else:
                raise Unsupported('landingpad clause')
        return Ins(op, res, ty, (clauses,), s)
    if op == 'resume':
        ty, v = c.tv()
        return Ins(op, None, ty, (v,), s)
    if op == 'fneg':
        ty, v = c.tv()
        return Ins(op, res, ty, (v,), s)
    if op == 'freeze':
        ty, v = c.tv()
        return Ins(op, res, ty, (v,), s)
    raise Unsupported('instruction ' + op)


class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.globals = {}      # name -> (type, initoperand|None, constant, linkage, align)
        self.aliases = {}
        self.decls = {}
        self.uses_text = None
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';\t ':
                continue
            if ln[0] == '%':
                m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                c = Cur(tokenize(m.group(2)), self)
                if m.group(2).startswith('opaque'):
                    continue
                self.types[unq(m.group(1))] = c.type()
            elif ln[0] == '@':
                self._global(ln)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                self.decls[unq(m.group(1))] = ln

    def _global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
        name = unq(m.group(1))
        rest = m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0].split('@')[0]):
            tgt = re.findall(r'@(?:"[^"]*"|[-\w$.]+)', rest)[-1]
            self.aliases[name] = unq(tgt)
            return
        try:
            c = Cur(tokenize(rest), self)
            link = []
            tls = False
            while True:
                k, v = c.peek()
                if k == 'id' and v in FUNC_KW:
                    link.append(v)
                    c.next()
                    if v == 'thread_local':
                        tls = True
                        if c.eat('('):
                            c.next()
                            c.expect(')')
                elif k == 'id' and v == 'comdat':
                    c.next()
                else:
                    break
            kind = c.next()[1]
            if kind not in ('global', 'constant'):
                return
            ty = c.type()
            init = None
            if not c.done() and c.val() != ',' and not ('external' in link):
                init = c.value(ty)
            self.globals[name] = dict(ty=ty, init=init, const=(kind == 'constant'), link=link, tls=tls)
        except Unsupported as e:
            self.globals[name] = dict(ty=None, init=None, const=False, link=[], tls=False, error=str(e))

    def _func(self, ln, body):
        c = Cur(tokenize(ln), self)
        c.next()
        link = []
        while c.peek()[0] == 'id' and c.val() in FUNC_KW:
            link.append(c.next()[1])
        c.attrs()
        ret = c.type()
        if ret[0] == 'func':
            raise Unsupported('func type in define')
        name = unq(c.next()[1])
        c.expect('(')
        params = []
        while not c.eat(')'):
            if c.peek()[0] == 'dots':
                c.next()
                params.append((('...',), {}, None))
                continue
            t = c.type()
            at = c.attrs()
            nm = None
            if c.peek()[0] == 'loc':
                nm = unq(c.next()[1])
            params.append((t, at, nm))
            c.eat(',')
        cnt = 0
        ps = []
        for t, at, nm in params:
            if nm is None:
                nm = str(cnt)
                cnt += 1
            ps.append((t, at, nm))
        f = Func(name, self, ret, ps, ln, 'internal' in link or 'private' in link)
        f.raw = body
        self.funcs[name] = f

    # ---- layout -----
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types:
                raise Unsupported('opaque type ' + t[1])
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(e) for e in t[1]] or [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for e in t[1]:
                if not t[2]:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.size(e)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += self.size(e)
        raise Unsupported('field index')
