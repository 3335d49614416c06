"""The proof tasks: each starts the real function (or a caller of a public template) from an
arbitrary state satisfying its precondition and checks its postcondition on every path."""
from term import Poly, ATOMS, atom, le, lt, ge, gt, eq, ne, neg, conj, disj, implies, iff
import term as T
from irparse import Unsupported
from state import State, Fork, Dead, Ptr, NULL, FnPtr, F64, F32, FP, UNDEF
import models
from models import Rope, Src, Str, CStrBuf, get_str, rope_bytes, rope_eq
import contracts
from contracts import (CONTRACTS, INT_TYPES, int_range, post, must_return, result_string, check_decimal,
                       string_bytes, check_mapped, sym_string, sret, SPECS, Missing, rd, MapFn, ToA, Fixed)

TASKS = {}


class Task:
    def __init__(self, name, props, run, variants=('gnu',), fallback=None, bound=None, weight=1, under=None):
        self.name = name
        self.props = set(props)
        self.run = run                # run(ex)
        self.variants = variants
        self.fallback = fallback      # bounded stand-in, run(ex), used when run is beyond reach
        self.bound = bound
        self.weight = weight
        self.under = under            # function under contract


def task(name, props, run, **kw):
    TASKS[name] = Task(name, props, run, **kw)


def start(ex, name, args, st):
    fn = ex.prog.func(name)
    if fn is None:
        raise Missing(name)
    ex.top = name
    ex.start(fn, args, st)
    return st


OPS = ('lexi', 'string', 'escape', 'jsonify')


# ---------------------------------------------------------------- integers: text
def fmt_int(op, T_, w, s, props):
    def run(ex):
        st = State(ex)
        lo, hi = int_range(w, s)
        v = atom('value', lo, hi)
        ex.inputs['value'] = v
        r = sret(st)
        name = 'd_%s_%s' % (op, T_)
        start(ex, name, [r, v], st)

        def end(x):
            must_return(ex, x, props, name)
            rope = result_string(ex, x, r, props, name)
            check_decimal(ex, x, string_bytes(ex, x, rope, props, name), v, props, name)
        ex.run(st, end)
    return run


def ext_int(fname, w, s, prop, cstr=False, digits=None, sign=None):
    def run(ex):
        st = State(ex)
        if digits is None:
            V = atom('magnitude', 0, 2**64 - 1)
            sg = atom('minus', 0, 1)
            ex.inputs['magnitude'] = V
            ex.inputs['minus'] = sg
            n = atom('text.size', 1, 1 << 40)
            src = Src('text', n, (eq(sg, 1), V), 1)
            rope = Rope([('s', src, 0, n)])
            minus = eq(sg, 1)
        else:
            ds = [atom('digit%d' % i, 0, 9) for i in range(digits)]
            V = 0
            for i, d in enumerate(ds):
                V = V * 10 + d
                ex.inputs['digit%d' % i] = d
            ex.inputs['minus'] = 1 if sign else 0
            st.assume(le(V, 2**64 - 1))
            minus = bool(sign)
            rope = rope_bytes(([45] if sign else []) + [d + 48 for d in ds])
        if cstr:
            o = st.new_obj('text', 0, 'arg', writable=False)
            if digits is None:
                o.size = src.n + 1
                o.data = CStrBuf(src)
            else:
                o.size = len(rope.parts) + 1
                for i, p in enumerate(rope.parts):
                    o.cells[i] = (1, p[1])
                o.cells[len(rope.parts)] = (1, 0)
        else:
            o = st.new_obj('text', 32, 'arg', writable=False)
            o.cells[0] = (32, Str(rope))
        start(ex, fname, [Ptr(o.id, 0)], st)

        def end(x):
            must_return(ex, x, prop, fname)
            val = -V if x.decide(minus) else V
            r = x.sgn(x.result, w) if s else x.uns(x.result, w)
            e = x.sgn(val, w) if s else x.uns(val, w)
            post(ex, x, eq(r, e), prop, '%s: the value of the text, reduced to the type' % fname)
        ex.run(st, end)
    return run


def ext_int_bounded(fname, w, s, prop, cstr=False):
    def run(ex):
        for sign in (False, True):
            for n in list(range(1, 23)) + [25, 40]:
                ext_int(fname, w, s, prop, cstr, n, sign)(ex)
    return run


def rt_int(fname, w, s, prop):
    def run(ex):
        st = State(ex)
        lo, hi = int_range(w, s)
        v = atom('value', lo, hi)
        ex.inputs['value'] = v
        start(ex, fname, [v], st)

        def end(x):
            must_return(ex, x, prop, fname)
            r = x.sgn(x.result, w) if s else x.uns(x.result, w)
            post(ex, x, eq(r, v), prop, '%s: extracting the formatted value gives it back' % fname)
        ex.run(st, end)
    return run


BND = 'texts of at most 22, or 25 or 40 digits with an optional minus sign'
for t, (w, s) in INT_TYPES.items():
    for op in OPS:
        task('fmt/%s/%s' % (op, t), ['C01', 'C20'], fmt_int(op, t, w, s, 'C01,C20'))
    for f, cs in (('d_ext_' + t, False), ('d_extc_' + t, True), ('d_exobj_' + t, False)):
        task('ext/' + f, ['C02'], ext_int(f, w, s, 'C02', cs), fallback=ext_int_bounded(f, w, s, 'C02', cs), bound=BND)
    for k in ('rt', 'rtj'):
        task('rt/%s/%s' % (k, t), ['C02'], rt_int('d_%s_%s' % (k, t), w, s, 'C02'))
for t, (w, s) in list(INT_TYPES.items()) + [('char', (8, True)), ('plain', (32, False))]:
    for op in OPS:
        task('fmt/%s/E_%s' % (op, t), ['C12', 'C20'], fmt_int(op, 'E_' + t, w, s, 'C12,C20'))
    for f, cs in (('d_ext_E_' + t, False), ('d_extc_E_' + t, True), ('d_exobj_E_' + t, False)):
        task('ext/' + f, ['C12'], ext_int(f, w, s, 'C12', cs), fallback=ext_int_bounded(f, w, s, 'C12', cs), bound=BND)
    for k in ('rt', 'rtj'):
        task('rt/%s/E_%s' % (k, t), ['C12'], rt_int('d_%s_E_%s' % (k, t), w, s, 'C12'))
for op in OPS:
    task('fmt/%s/spos' % op, ['C12', 'C20'], fmt_int(op, 'spos', 64, True, 'C12,C20'))
task('ext/d_ext_spos', ['C12'], ext_int('d_ext_spos', 64, True, 'C12'),
     fallback=ext_int_bounded('d_ext_spos', 64, True, 'C12'), bound=BND)
task('rt/rt/spos', ['C12'], rt_int('d_rt_spos', 64, True, 'C12'))
for c in list(CONTRACTS.values()):
    if isinstance(c, ToA):
        task('contract/' + c.name, ['C01', 'C02', 'C12', 'C14', 'C20'], c.check, under=c.name)


# ---------------------------------------------------------------- escape and jsonify
def map_bounded(c):
    def run(ex):
        for n in (0, 1, 2):
            ex.loop_rules = []
            c.check(ex, n)
    return run


for c in list(CONTRACTS.values()):
    if isinstance(c, MapFn):
        task('contract/lexi::detail::' + c.g.name, [c.prop, 'C20'], c.check, fallback=map_bounded(c),
             bound='strings of at most 2 bytes', under=c.name)


def str_arg(st, kind, ex):
    """argument of the string entry points: (pointer, Src)"""
    if kind in ('str', 'dstr'):
        p, src = sym_string(st, 'src')
        return p, src
    if kind in ('ccp', 'cp'):
        n = atom('src.size', 0, 1 << 40)
        src = Src('src', n, None, 1)
        o = st.new_obj('src', n + 1, 'arg', writable=False)
        o.data = CStrBuf(src)
        return Ptr(o.id, 0), src
    k = int(kind[3:])
    o = st.new_obj('src', k, 'arg', writable=False)
    for i in range(k - 1):
        a = atom('src[%d]' % i, 0, 255)
        ex.inputs['src[%d]' % i] = a
        o.cells[i] = (1, a)
    o.cells[k - 1] = (1, 0)
    return Ptr(o.id, 0), None


def fmt_str(op, kind):
    name = 'd_%s_%s' % (op, kind)
    props = {'lexi': 'C20', 'string': 'C20', 'escape': 'C20,C09', 'jsonify': 'C20,C08'}[op]

    def run(ex):
        st = State(ex)
        p, src = str_arg(st, kind, ex)
        r = sret(st)
        if src is not None and op in SPECS:
            from loops import MapRule
            ex.loop_rules = [MapRule(SPECS[op], src)]
        start(ex, name, [r, p], st)

        def end(x):
            must_return(ex, x, props, name)
            rope = result_string(ex, x, r, props, name)
            parts = list(rope.parts)
            if src is None:
                o = x.obj(p.obj)
                bs = []
                for i in range(o.size):
                    b = x.uns(o.cells[i][1], 8)
                    if x.decide(eq(b, 0)):
                        break
                    bs.append(b)
                s = Fixed(bs)
            else:
                s = src
            if op in ('lexi', 'string'):
                if src is None:
                    want = rope_bytes(s.bs)
                    post(ex, x, rope_eq(ex, x, rope, want), props, '%s: the argument byte for byte' % name)
                else:
                    same_as(ex, x, parts, s, props, name)
                return
            if op == 'jsonify':
                ok = len(parts) >= 2 and parts[0][0] == 'b' and parts[-1][0] == 'b'
                post(ex, x, ok, props, '%s: enclosed in quotes' % name)
                post(ex, x, conj(eq(x.uns(parts[0][1], 8), 34), eq(x.uns(parts[-1][1], 8), 34)), props,
                     '%s: enclosed in quotes' % name)
                parts = parts[1:-1]
            check_mapped(ex, x, parts, SPECS[op], s, props, name)
        ex.run(st, end)
    return run


def same_as(ex, st, parts, src, props, what):
    i = 0
    for p in parts:
        if p[0] == 's' and p[1] is src:
            post(ex, st, eq(p[2], i), props, '%s: no byte skipped' % what)
            i = p[3]
        elif p[0] == 'b':
            post(ex, st, lt(i, src.n), props, '%s: nothing added' % what)
            post(ex, st, eq(st.uns(p[1], 8), src.at(st, i)), props, '%s: the same byte' % what)
            i = i + 1
        else:
            post(ex, st, False, props, '%s: the argument byte for byte' % what)
            raise Dead()
    post(ex, st, eq(i, src.n), props, '%s: every byte passed through' % what)


for op in OPS:
    for k in ('str', 'dstr', 'ccp', 'cp', 'arr3', 'arr1'):
        task('str/%s/%s' % (op, k), ['C20'] + {'escape': ['C09'], 'jsonify': ['C08']}.get(op, []), fmt_str(op, k))


# ---------------------------------------------------------------- bool, null, char
def fmt_literal(name, args, texts, props):
    """texts: [(condition, text)]"""
    def run(ex):
        st = State(ex)
        r = sret(st)
        start(ex, name, [r] + args(ex), st)

        def end(x):
            must_return(ex, x, props, name)
            rope = result_string(ex, x, r, props, name)
            for c, t in texts(ex):
                if x.decide(c):
                    post(ex, x, rope_eq(ex, x, rope, rope_bytes(t)), props, '%s gives %r' % (name, t))
                    return
        ex.run(st, end)
    return run


def bool_arg(ex):
    b = atom('value', 0, 1)
    ex.inputs['value'] = b
    return [ne(b, 0)]


def bool_texts(ex):
    b = atom('value', 0, 1)
    return [(ne(b, 0), b'true'), (eq(b, 0), b'false')]


def ext_literal(fname, cstr, words, props, check):
    """words: {text: value}; runtime_error for every other string"""
    def run(ex, n=None):
        st = State(ex)
        if cstr:
            n_ = n if n is not None else atom('text.size', 0, 1 << 40)
            src = Src('text', n_, None, 1)
            o = st.new_obj('text', n_ + 1, 'arg', writable=False)
            o.data = CStrBuf(src)
            p = Ptr(o.id, 0)
        else:
            p, src = sym_string(st, 'text', n)
        ex.inputs['text.size'] = src.n
        for i in range(6):
            ex.inputs['text[%d]' % i] = src.at(st, i)
        st.ghost.pop(('idx', 'text'), None)
        start(ex, fname, [p], st)

        def end(x):
            for t, v in words.items():
                is_t = x.decide(eq(src.n, len(t)))
                if is_t:
                    is_t = x.decide(conj(*[eq(src.at(x, i), b) for i, b in enumerate(t)]))
                if is_t:
                    must_return(ex, x, props, '%s(%r)' % (fname, t))
                    check(ex, x, v, '%s(%r)' % (fname, t), props)
                    return
            threw(ex, x, props, '%s of any other text' % fname)
        ex.run(st, end)
    return run


def threw(ex, x, props, what):
    ok = x.thrown is not None and ex.prog.exc_matches(x.thrown[0], '_ZTISt13runtime_error')
    post(ex, x, ok, props, '%s throws a runtime error' % what)


def chk_bool(ex, x, v, what, props):
    c = x.result
    if not isinstance(c, (bool, tuple)):
        c = ne(x.uns(c, 8), 0)
    post(ex, x, c if v else neg(c), props, '%s returns %s' % (what, v))


def chk_null(ex, x, v, what, props):
    post(ex, x, x.result == NULL or x.result == 0, props, '%s returns null' % what)


def bounded_lens(run, lens):
    def r(ex):
        for n in lens:
            run(ex, n)
    return r


for op in OPS:
    task('fmt/%s/bool' % op, ['C10', 'C20'], fmt_literal('d_%s_bool' % op, bool_arg, bool_texts, 'C10,C20'))
    task('fmt/%s/null' % op, ['C10', 'C20'],
         fmt_literal('d_%s_null' % op, lambda ex: [NULL], lambda ex: [(True, b'null')], 'C10,C20'))
LB = 'texts of at most 6 bytes'
for f, cs in (('d_ext_bool', False), ('d_extc_bool', True), ('d_exobj_bool', False)):
    r = ext_literal(f, cs, {b'true': True, b'false': False}, 'C10', chk_bool)
    task('ext/' + f, ['C10'], r, fallback=bounded_lens(r, range(7)), bound=LB)
for f, cs in (('d_ext_null', False), ('d_extc_null', True), ('d_exobj_null', False)):
    r = ext_literal(f, cs, {b'null': None}, 'C10', chk_null)
    task('ext/' + f, ['C10'], r, fallback=bounded_lens(r, range(7)), bound=LB)


def char_arg(signed):
    def f(ex):
        c = atom('value', *((-128, 127) if signed else (0, 255)))
        ex.inputs['value'] = c
        return c
    return f


def fmt_char(op):
    name = 'd_%s_char' % op
    props = {'lexi': 'C11,C20', 'string': 'C11,C20', 'escape': 'C09,C11,C20', 'jsonify': 'C08,C11,C20'}[op]

    def run(ex):
        st = State(ex)
        c = char_arg(True)(ex)
        r = sret(st)
        start(ex, name, [r, c], st)

        def end(x):
            must_return(ex, x, props, name)
            parts = list(result_string(ex, x, r, props, name).parts)
            u = x.uns(c, 8)
            char_form(ex, x, op, parts, u, props, name)
        ex.run(st, end)
    return run


def char_form(ex, x, op, parts, u, props, name):
    if any(p[0] != 'b' for p in parts):
        raise Unsupported('text of symbolic length')
    if op in ('lexi', 'string'):
        post(ex, x, len(parts) == 1, props, '%s: one byte' % name)
        post(ex, x, eq(x.uns(parts[0][1], 8), u), props, '%s: that byte' % name)
        return
    if op == 'jsonify':
        post(ex, x, len(parts) >= 2, props, '%s: enclosed in quotes' % name)
        post(ex, x, conj(eq(x.uns(parts[0][1], 8), 34), eq(x.uns(parts[-1][1], 8), 34)), props, '%s: enclosed in quotes' % name)
        parts = parts[1:-1]
    check_mapped(ex, x, parts, SPECS[op], Fixed([u]), props, name)


def ext_char(fname, cstr, signed):
    def run(ex, n=None):
        st = State(ex)
        if cstr:
            n_ = n if n is not None else atom('text.size', 0, 1 << 40)
            src = Src('text', n_, None, 1)
            o = st.new_obj('text', n_ + 1, 'arg', writable=False)
            o.data = CStrBuf(src)
            p = Ptr(o.id, 0)
        else:
            p, src = sym_string(st, 'text', n)
        ex.inputs['text.size'] = src.n
        ex.inputs['text[0]'] = src.at(st, 0)
        start(ex, fname, [p], st)

        def end(x):
            if x.decide(eq(src.n, 0)):
                threw(ex, x, 'C11', '%s of the empty text' % fname)
                return
            must_return(ex, x, 'C11', fname)
            post(ex, x, eq(x.uns(x.result, 8), src.at(x, 0)), 'C11', '%s: the first byte' % fname)
        ex.run(st, end)
    return run


for op in OPS:
    task('fmt/%s/char' % op, ['C11', 'C20'] + {'escape': ['C09'], 'jsonify': ['C08']}.get(op, []), fmt_char(op))
for f, cs, sg in (('d_ext_char', False, True), ('d_extc_char', True, True), ('d_exobj_char', False, True),
                  ('d_exobj_charu', False, False)):
    r = ext_char(f, cs, sg)
    task('ext/' + f, ['C11'], r, fallback=bounded_lens(r, range(4)), bound='texts of at most 3 bytes')


# ---------------------------------------------------------------- formatter objects
def new_formatter(ex, st, kind):
    """storage for a formatter of this kind"""
    s2 = State(ex)
    start(ex, 'd_sizeof_' + kind, [], s2)
    out = []
    ex.run(s2, lambda x: out.append(x.result))
    o = st.new_obj('formatter', out[0], 'arg')
    return Ptr(o.id, 0)


def obj_value(kind, tag):
    """(argument for the driver, spec of the text)"""
    k, _, t = kind.partition('_')
    if k in ('Int', 'Enum'):
        w, s = INT_TYPES[t]
        return atom(tag, *int_range(w, s))
    if k == 'Char':
        return atom(tag, -128, 127)
    if k == 'UChar':
        return atom(tag, 0, 255)
    if k == 'Bool':
        return ne(atom(tag, 0, 1), 0)
    if k == 'Null':
        return NULL
    if t == 'double':
        return F64(atom(tag, 0, 2**64 - 1))
    if t == 'float':
        return F32(atom(tag, 0, 2**32 - 1))
    return FP('arg80', tag)


def check_views(ex, x, kind, v, out, props, what, own=''):
    """the Views block at out against the text the value v must have"""
    o = x.obj(out.obj)
    mod = ex.prog.mods['driver']
    size = x.uns(ex.load(x, Ptr(o.id, 0), ('i', 64), mod), 64)
    length = x.uns(ex.load(x, Ptr(o.id, 8), ('i', 64), mod), 64)
    data = ex.load(x, Ptr(o.id, 16), ('ptr',), mod)
    cstr = ex.load(x, Ptr(o.id, 24), ('ptr',), mod)
    post(ex, x, eq(size, length), props, '%s: size() == length()' % what)
    n = x.concretize(size, 64, 'size()')
    post(ex, x, isinstance(data, Ptr) and isinstance(cstr, Ptr) and data.obj is not None and cstr.obj is not None,
         props, '%s: data() and c_str() are valid' % what)
    texts = []
    for q, nm in ((data, 'data()'), (cstr, 'c_str()')):
        bs = []
        for i in range(n + 1):
            b = x.uns(ex.load(x, Ptr(q.obj, q.off + i), ('i', 8), mod), 8)
            bs.append(b)
        post(ex, x, eq(bs[n], 0), props, '%s: %s is null-terminated at size()' % (what, nm))
        texts.append(bs[:n])
    text = texts[0]
    post(ex, x, conj(*[eq(a, b) for a, b in zip(texts[0], texts[1])]), props, '%s: data() and c_str() give the same text' % what)
    k, _, t = kind.partition('_')
    if k not in ('Char', 'UChar'):
        for i, b in enumerate(text):
            post(ex, x, ne(b, 0), props, '%s: the text does not end before size()' % what)
    # the content
    cp = props + own
    if k in ('Int', 'Enum'):
        check_decimal(ex, x, text, v, cp, what)
    elif k in ('Char', 'UChar'):
        post(ex, x, n == 1, cp, '%s: one byte' % what)
        post(ex, x, eq(text[0], x.uns(v, 8)), cp, '%s: that byte' % what)
    elif k in ('Bool', 'Null'):
        w = b'null' if k == 'Null' else (b'true' if x.decide(v) else b'false')
        post(ex, x, n == len(w), cp, '%s: text %r' % (what, w))
        for i, b in enumerate(w):
            post(ex, x, eq(text[i], b), cp, '%s: text %r' % (what, w))
    else:
        import floats
        floats.check_text_of(ex, x, v, text, cp, what)
    for off, nm in ((32, 'string()'), (64, 'escape()'), (96, 'jsonify()'), (128, 'conversion to string')):
        c = o.cells.get(off)
        if c is None or not isinstance(c[1], Str):
            post(ex, x, False, props, '%s: %s gives a string' % (what, nm))
            raise Dead()
        parts = list(c[1].rope.parts)
        if k in ('Char', 'UChar') and off in (64, 96):
            char_form(ex, x, 'escape' if off == 64 else 'jsonify', parts, x.uns(v, 8), props, what + ' ' + nm)
            continue
        if any(p[0] != 'b' for p in parts):
            raise Unsupported('text of symbolic length')
        post(ex, x, len(parts) == n, cp, '%s: %s has size() bytes' % (what, nm))
        for i in range(n):
            post(ex, x, eq(x.uns(parts[i][1], 8), text[i]), cp, '%s: %s renders the same text' % (what, nm))


# what the text of a formatter of that kind is a case of
OWN = {'Int': ['C01'], 'Enum': ['C12'], 'Bool': ['C10'], 'Null': ['C10'], 'Char': ['C11'], 'UChar': ['C11'], 'Float': ['C03', 'C05', 'C06', 'C07']}


def obj_task(kind, how):
    two = how in ('assign', 'massign', 'copychange', 'assignback')
    props = 'C14'
    own = ''.join(',' + p for p in OWN[kind.partition('_')[0]]) if how in ('make', 'makedef') else ''

    def run(ex):
        st = State(ex)
        f = new_formatter(ex, st, kind)
        v = obj_value(kind, 'value')
        args = [f, v]
        if two:
            args.append(obj_value(kind, 'other'))
        for nm, a in zip(('value', 'other'), args[1:]):
            if isinstance(a, Poly):
                ex.inputs[nm] = a
            elif isinstance(a, (F64, F32)):
                ex.inputs[nm + ' bits'] = a.bits
        start(ex, 'd_%s_%s' % (how, kind), args[:1] if how.endswith('def') else args, st)

        def mid(x):
            must_return(ex, x, props, 'd_%s_%s' % (how, kind))
            o = x.new_obj('views', 160, 'arg')
            x.result = None
            start(ex, 'd_observe_' + kind, [f, Ptr(o.id, 0)], x)
            n0 = ex.n_paths

            def end(y):
                must_return(ex, y, props, 'd_observe_' + kind)
                check_views(ex, y, kind, v, Ptr(o.id, 0), props, '%s %s' % (how, kind), own)
                if how not in ('make', 'copy'):
                    return
                # asking again gives the same answers
                o2 = y.new_obj('views again', 160, 'arg')
                y.result = None
                start(ex, 'd_observe_' + kind, [f, Ptr(o2.id, 0)], y)

                def end2(z):
                    must_return(ex, z, props, 'd_observe_' + kind)
                    check_views(ex, z, kind, v, Ptr(o2.id, 0), props, '%s %s, asked again' % (how, kind))
                ex.run(y, end2)
            ex.run(x, end)
        ex.run(st, mid)
    return run


OBJ_KINDS = ['Int_' + t for t in INT_TYPES] + ['Enum_schar', 'Enum_uint', 'Enum_llong', 'Enum_ullong', 'Bool', 'Null', 'Char',
                                               'UChar', 'Float_float', 'Float_double', 'Float_ldouble']
for h in ('makedef', 'copydef'):
    task('obj/%s/Null' % h, ['C14', 'C10'], obj_task('Null', h))
OBJ_HOW = ('make', 'copy', 'copycopy', 'move', 'assign', 'massign', 'self', 'copychange', 'assignback')
for k in OBJ_KINDS:
    for h in OBJ_HOW:
        if k in ('Float_float', 'Float_ldouble') and h not in ('make', 'copy'):
            continue
        if k.startswith(('Int_', 'Enum_')) and h not in ('make', 'copy', 'assign') and k not in ('Int_llong', 'Int_ullong', 'Enum_llong'):
            continue
        pr = ['C14'] + (OWN[k.partition('_')[0]] if h == 'make' else [])
        task('obj/%s/%s' % (h, k), pr, obj_task(k, h))


# ---------------------------------------------------------------- classification
def classify(fname, spec):
    name = 'lexi::detail::%s(double)' % fname

    def run(ex):
        st = State(ex)
        b = atom('bits', 0, 2**64 - 1)
        ex.inputs['bits'] = b
        start(ex, name, [F64(b)], st)

        def end(x):
            must_return(ex, x, 'C18', name)
            c = x.result
            if not isinstance(c, (bool, tuple)):
                c = ne(x.uns(c, 8), 0)
            r = x.decide(c)
            sign = 1 if x.decide(ge(b, 2**63)) else 0
            m = b - sign * 2**63
            s = spec(m, sign)
            post(ex, x, s if r else neg(s), 'C18', '%s returns %s exactly for the bit patterns of the definition' % (fname, r))
        ex.run(st, end)
    return name, run


INFB = 0x7FF << 52
for f, spec in (('isNan', lambda m, s: gt(m, INFB)), ('isInf', lambda m, s: eq(m, INFB)),
                ('isInfinity', lambda m, s: conj(eq(m, INFB), s == 0)),
                ('isNegativeInfinity', lambda m, s: conj(eq(m, INFB), s == 1)),
                ('isFinite', lambda m, s: lt(m, INFB)), ('isZero', lambda m, s: eq(m, 0)),
                ('isPositive', lambda m, s: s == 0)):
    nm, r = classify(f, spec)
    task('contract/' + nm, ['C18', 'C07'], r, under=nm)


# ---------------------------------------------------------------- powers of ten
def pow10(n):
    name = 'lexi::detail::pow10(int)'

    def run(ex):
        for k in n:
            st = State(ex)
            ex.inputs['n'] = k
            start(ex, name, [k], st)

            def end(x):
                must_return(ex, x, 'C19', name)
                r = x.result
                if not (isinstance(r, F64) and isinstance(r.bits, int)):
                    raise Unsupported('value of pow10(%d) not determined' % k)
                from symex import bits_of_f64
                post(ex, x, r.bits == bits_of_f64(float('1e%d' % k)), 'C19', 'pow10(%d) is the double nearest to 10^%d' % (k, k))
            ex.run(st, end)
    return name, run


for a in range(0, 309, 40):
    nm, r = pow10(range(a, min(309, a + 40)))
    task('contract/%s %d..' % (nm, a), ['C19'], r, under=nm)


# ---------------------------------------------------------------- floating point
import floats
from floats import H52

FTYPES = {'float': lambda tag: F32(atom(tag, 0, 2**32 - 1)), 'double': lambda tag: F64(atom(tag, 0, 2**64 - 1)),
          'ldouble': lambda tag: FP('arg80', tag)}
STRTO = {'float': 'strtof', 'double': 'strtod', 'ldouble': 'strtold'}


def fmt_float(op, t):
    name = 'd_%s_%s' % (op, t)
    props = 'C03,C05,C06,C07,C20'

    def run(ex):
        st = State(ex)
        v = FTYPES[t]('value')
        if isinstance(v, (F64, F32)):
            ex.inputs['bits'] = v.bits
        r = sret(st)
        start(ex, name, [r, v], st)

        def end(x):
            must_return(ex, x, props, name)
            rope = result_string(ex, x, r, props, name)
            floats.check_text_of(ex, x, v, string_bytes(ex, x, rope, props, name), props, name)
        ex.run(st, end)
    return run


def same_float(ex, x, t, r, parts):
    """r is the library conversion for t of the text"""
    w = FP(STRTO[t], tuple(parts))
    v = w
    if t == 'double':
        w = ex.abstract_double(x, w)
    if type(r) is type(w) and r == w:
        return True
    # another conversion of that same text is wrong; any other form might give the same number (of a shorter equal text, say)
    f = r
    if isinstance(f, F64) and isinstance(f.bits, Poly) and f.bits.single() is not None:
        f = ATOMS[f.bits.single()].info
    while isinstance(f, FP) and f.kind not in STRTO.values() and any(isinstance(a, (FP, F64)) for a in f.args):
        f = [a for a in f.args if isinstance(a, (FP, F64))][0]
        if isinstance(f, F64):
            f = ATOMS[f.bits.single()].info if isinstance(f.bits, Poly) and f.bits.single() is not None else None
    ex.weak = not (isinstance(f, FP) and f.kind in STRTO.values() and f.args == v.args)
    return False


def ext_float(fname, t, cstr):
    def run(ex, n=None):
        st = State(ex)
        n_ = n if n is not None else atom('text.size', 0, 1 << 40)
        src = Src('text', n_, None, 1)
        if cstr:
            o = st.new_obj('text', n_ + 1, 'arg', writable=False)
            o.data = CStrBuf(src)
        else:
            o = st.new_obj('text', 32, 'arg', writable=False)
            o.cells[0] = (32, Str(Rope([('s', src, 0, n_)])))
        start(ex, fname, [Ptr(o.id, 0)], st)

        def end(x):
            must_return(ex, x, 'C04', fname)
            try:
                post(ex, x, same_float(ex, x, t, x.result, [('s', src, 0, n_)]), 'C04',
                     '%s: the value of the whole text, rounded once to %s' % (fname, t))
            finally:
                ex.weak = False
        ex.run(st, end)
    return run


def rt_float(fname, t):
    """formatting a finite value and extracting it reads exactly the formatted text, at this type"""
    def run(ex):
        st = State(ex)
        v = FTYPES[t]('value')
        ex.inputs['bits'] = v.bits
        start(ex, fname, [v], st)

        def end(x):
            must_return(ex, x, 'C04', fname)
            want, special = floats.spec_text(ex, x, v)
            if special and len(want) == 3 and want[0] == 78 or special and len(want) > 3:
                return
            r = x.result
            w = FP(STRTO[t], rope_bytes(want).parts)
            ok = False
            got = r
            if t == 'double':
                info = None
                if isinstance(r, F64) and isinstance(r.bits, Poly) and r.bits.single() is not None:
                    info = ATOMS[r.bits.single()].info
                got = info
            if not isinstance(got, FP):
                raise Unsupported('%s: result form' % fname)
            post(ex, x, got.kind == w.kind, 'C04', '%s: extracted with a single rounding to %s' % (fname, t))
            parts = got.args[0]
            post(ex, x, len(parts) == len(want) and all(p[0] == 'b' for p in parts), 'C04', '%s: extracted from the formatted text' % fname)
            for p, b in zip(parts, want):
                post(ex, x, eq(x.uns(p[1], 8), b), 'C04', '%s: extracted from the formatted text' % fname)

        def wend(x):
            try:
                end(x)
            finally:
                ex.weak = False
        ex.run(st, wend)
    return run


def lemma_float_interval(ex):
    """every decimal inside the rounding interval of a float's value as a double is inside its rounding interval as a float,
    so the single rounding to float gives the float back"""
    for e in range(-149, 105):
        f = atom('f', 1 if e == -149 else 2**23, 2**24 - 1)
        st = State(ex)
        # float midpoints around f*2^e (narrow one below a power of two), and the double midpoints of the same number,
        # whose spacing is at most 2^(e-29) when f has 24 bits and 2^(msb-53) below
        n = floats.fork_msb
        for k in range(1, 25) if e == -149 else (24,):
            s = State(ex)
            s.assume(conj(ge(f, 1 << (k - 1)), lt(f, 1 << k)))
            half = k - 1 - 53                       # log2 of half a double spacing, relative to 2^e
            lo = f * 4 - (1 if k == 24 and e > -149 else 2)   # 4 * lower float midpoint
            hi = f * 4 + 2
            z = 60
            post(ex, s, conj(ge(f * (4 << z) - (4 << (z + half)), lo * (1 << z)), le(f * (4 << z) + (4 << (z + half)), hi * (1 << z))),
                 'C04', 'the double interval of a float lies inside its float interval (e=%d)' % e)


for t in FTYPES:
    for op in OPS:
        task('fmt/%s/%s' % (op, t), ['C03', 'C05', 'C06', 'C07', 'C20'], fmt_float(op, t))
    for f, cs in (('d_ext_' + t, False), ('d_extc_' + t, True), ('d_exobj_' + t, False)):
        task('ext/' + f, ['C04'], ext_float(f, t, cs))
    if t != 'ldouble':
        for k in ('rt', 'rtj'):
            task('rt/%s/%s' % (k, t), ['C04'], rt_float('d_%s_%s' % (k, t), t))
task('lemma/float-interval', ['C04'], lemma_float_interval)

FC = {c.name[len('lexi::detail::'):].split('(')[0]: c for c in CONTRACTS.values() if isinstance(c, floats.FpContract)}
CORE = ['C03', 'C04', 'C05', 'C06']
BOTH = ('gnu', 'clang', 'other')
for n in ('DiyFp::DiyFp', 'mul', 'normalize', 'normalizeBoundary', 'DiyFp::normalizedBoundaries', 'grisuRound'):
    task('contract/lexi::detail::' + n, CORE, FC[n].check, variants=BOTH, under=FC[n].name)
for a in range(-1137, 961, 600):
    task('contract/lexi::detail::getCachedPower %d..' % a, CORE,
         lambda ex, a=a: FC['getCachedPower'].check(ex, range(a, min(961, a + 600))), variants=BOTH, under=FC['getCachedPower'].name)
for E in range(-60, -31):
    task('contract/lexi::detail::generateDigits e=%d' % E, CORE, lambda ex, E=E: FC['generateDigits'].check(ex, E), variants=BOTH,
         under=FC['generateDigits'].name, weight=3)


def grisu2(a, b):
    def run(ex):
        for be in range(a, b):
            if be:
                FC['grisu2'].check(ex, be, (0, 0))
            FC['grisu2'].check(ex, be, (1, H52 - 1))
    return run


for a in range(0, 2047, 128):
    task('contract/lexi::detail::grisu2 exponent field %d..' % a, CORE, grisu2(a, min(2047, a + 128)), variants=BOTH, under=FC['grisu2'].name,
         weight=6)
for L in range(1, 18):
    task('contract/lexi::detail::prettify %d digits' % L, ['C03', 'C04', 'C05', 'C06'], lambda ex, L=L: FC['prettify'].check(ex, L), under=FC['prettify'].name, weight=2)
    task('contract/lexi::detail::dtoa %d digits' % L, ['C03', 'C04', 'C05', 'C06', 'C07', 'C14'], lambda ex, L=L: FC['dtoa'].check(ex, L), under=FC['dtoa'].name)

import bigtasks  # noqa: E402  (registers the BigInteger tasks)
