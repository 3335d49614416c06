"""Front end: compile /repo's current sources to LLVM IR and index them.

Dropped by the extraction: nothing of the functions' bodies -- the IR is clang's own
unoptimised lowering of the real translation units.  What differs from the library build
is the compiler (clang 18 instead of g++ 13) and, in the 'gnu' variant, the value of
__GNUC__ (6.3.0), so that the same preprocessor branches are chosen as under g++."""
import os
import re
import subprocess
import hashlib
from concurrent.futures import ThreadPoolExecutor
from irparse import Module, Unsupported

REPO = os.environ.get('LEXI_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ['clang++', '-std=c++14', '-O0', '-fPIC', '-include', 'cstdint', '-Xclang', '-disable-O0-optnone',
        '-fno-discard-value-names', '-ffp-contract=off', '-gline-tables-only', '-w', '-S', '-emit-llvm']
VARIANTS = {'gnu': ['-fgnuc-version=6.3.0'], 'clang': [], 'other': ['-U__GNUC__']}


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


class CompileError(Exception):
    pass


class Prog:
    def __init__(self, variant, outdir, driver=True):
        self.variant = variant
        self.mods = {}
        self.outdir = outdir
        os.makedirs(outdir, exist_ok=True)
        files = [(os.path.relpath(s, os.path.join(REPO, 'src')), s) for s in sources()]
        if driver:
            files.append(('driver', os.path.join(HERE, 'driver.cpp')))

        def comp(f):
            name, path = f
            o = os.path.join(outdir, name.replace('/', '_') + '.ll')
            p = subprocess.run(BASE + VARIANTS[variant] + ['-I' + os.path.join(REPO, 'include'), path, '-o', o],
                               capture_output=True, text=True)
            if p.returncode:
                raise CompileError('%s: %s' % (path, p.stderr[-2000:]))
            return name, open(o).read()
        with ThreadPoolExecutor(8) as tp:
            res = list(tp.map(comp, files))
        self.texts = {}
        for name, text in res:
            self.texts[name] = text
            self.mods[name] = Module(name, text)
        self._index()

    def _index(self):
        self.ext = {}
        self.extg = {}
        syms = set()
        for m in self.mods.values():
            for n, f in m.funcs.items():
                syms.add(n)
                if not f.internal:
                    if n not in self.ext:
                        self.ext[n] = f
            for n in m.aliases:
                syms.add(n)
            for n in m.decls:
                syms.add(n)
            for n, g in m.globals.items():
                if g['init'] is not None and 'internal' not in g['link'] and 'private' not in g['link']:
                    self.extg.setdefault(n, (m, g))
        for m in self.mods.values():
            for a, t in m.aliases.items():
                if t in m.funcs:
                    self.ext.setdefault(a, m.funcs[t])
        syms = sorted(syms)
        p = subprocess.run(['c++filt'], input='\n'.join(syms), capture_output=True, text=True)
        self.dem = {}
        for s, d in zip(syms, p.stdout.split('\n')):
            self.dem[s] = norm_dem(d)
        # prefer C1 over C2 when both demangle alike: same body
        self.by_dem = {}
        for n, f in self.ext.items():
            self.by_dem.setdefault(self.dem.get(n, n), f)
        for m in self.mods.values():
            for n, f in m.funcs.items():
                self.by_dem.setdefault(self.dem.get(n, n), f)
        self._lines = {}
        self._written = {}

    alias = {}            # contract name -> the function now playing that part (alias.py)
    as_contract = {}

    def func(self, dem):
        return self.by_dem.get(self.alias.get(dem, dem))

    def demangle(self, n):
        return self.dem.get(n, n)

    def short(self, f):
        d = self.demangle(f.name)
        i = d.find('(')
        return d[:i] if i > 0 else d

    def find_func(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        a = mod.aliases.get(name)
        if a is not None and a in mod.funcs:
            return mod.funcs[a]
        return self.ext.get(name)

    def find_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and (g['init'] is not None or g.get('error')):
            return mod, g
        if name in self.extg:
            return self.extg[name]
        return mod, None

    def line_of(self, fn, ins):
        m = re.search(r'!dbg !(\d+)', ins.text)
        if not m:
            return None
        mod = fn.mod
        d = self._lines.get(mod.name)
        if d is None:
            d = {}
            for k, l in re.findall(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', self.texts[mod.name], re.M):
                d[k] = l
            self._lines[mod.name] = d
        return d.get(m.group(1))

    STRCLS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'

    def model_override(self, dem):
        return dem.startswith(self.STRCLS + '::') or dem.startswith('std::allocator<char>::') or \
            dem.startswith('std::__new_allocator<char>::') or \
            re.match(r'std::__cxx11::basic_string<char.* std::operator\+<', dem) is not None or \
            re.match(r'bool std::operator[=!]=<char', dem) is not None

    def exc_matches(self, thrown, caught):
        H = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt15underflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'], '_ZTISt9exception': []}
        if thrown == caught:
            return True
        if thrown in H:
            return caught in H[thrown]
        raise Unsupported('exception type %s' % thrown)

    def typeid_index(self, name):
        return 100 + (int(hashlib.md5(name.encode()).hexdigest()[:6], 16))

    def global_written(self, o):
        """can any instruction of the program write the (mutable) global o, or does its address escape?"""
        if o.id in self._written:
            return self._written[o.id]
        _, mname, gname = o.id.split(':', 2)
        mods = [self.mods[mname]]
        g = self.mods[mname].globals.get(gname)
        r = False
        if 'internal' not in g['link'] and 'private' not in g['link']:
            mods = list(self.mods.values())
        for m in mods:
            for n, gg in m.globals.items():
                if n != gname and gg.get('init') is not None and mentions(gg['init'], gname) :
                    # address stored in another global: fine only if that one is a constant
                    if not gg['const']:
                        r = r or ('ptr in ' + n)
            for f in m.funcs.values():
                if f.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I_')):
                    continue
                txt = '\n'.join(f.raw)
                if '@' + gname not in txt and '@"' + gname not in txt:
                    continue
                f.parse()
                if f.error:
                    r = True
                    continue
                derived = set()
                ch = True
                while ch:
                    ch = False
                    for b in f.order:
                        for ins in f.blocks[b]:
                            if ins.op == 'getelementptr' and ins.res not in derived:
                                base = ins.a[1]
                                if opis(base, gname, derived):
                                    derived.add(ins.res)
                                    ch = True
                for b in f.order:
                    for ins in f.blocks[b]:
                        if ins.op == 'load':
                            continue
                        if ins.op == 'getelementptr':
                            if any(opis(x[1], gname, derived) for x in ins.a[2]):
                                r = True
                            continue
                        if ins.op == 'icmp':
                            continue
                        if any(opis(x, gname, derived) for x in operands(ins)):
                            # a pure source operand of memcpy is a read
                            if ins.op in ('call', 'invoke') and ins.a[0][0] == 'g' and re.match(r'llvm\.mem(cpy|move)', ins.a[0][1]):
                                if not opis(ins.a[1][0][1], gname, derived):
                                    continue
                            if ins.op in ('call', 'invoke'):
                                if not self.only_read(ins, gname, derived):
                                    r = r or 'escapes'
                                continue
                            r = True
        self._written[o.id] = r
        return r

    def only_read(self, ins, gname, derived):
        """is the global passed to this call as the object of a const member function, a const& or a guard?"""
        if ins.a[0][0] != 'g':
            return False
        n = ins.a[0][1]
        if n.startswith(('__cxa_guard', '__cxa_atexit')):
            return True
        d = self.dem.get(n)
        if d is None:
            return False
        args = [x[1] for x in ins.a[1]]
        pos = [i for i, x in enumerate(args) if opis(x, gname, derived)]
        if '_ZGV' + gname[2:] in (m2 for mm in self.mods.values() for m2 in mm.globals) and pos == [0] and \
           re.search(r'(\w+)(<.*>)?::\1(<[^()]*>)?\(', d.replace('__cxx11::', '')):
            return True         # the constructor, under the guard
        member_const = d.endswith(' const')
        if member_const and all(i in (0, 1) for i in pos):      # 1: after a returned object
            return True
        # the last parameters are those of the signature
        depth = 0
        ps, cur = [], ''
        body = d[:-6] if member_const else d
        if not body.endswith(')'):
            return False
        i = len(body) - 1
        k = 0
        while i >= 0:
            if body[i] == ')':
                k += 1
            elif body[i] == '(':
                k -= 1
                if k == 0:
                    break
            i -= 1
        for ch in body[i + 1:-1]:
            if ch in '<(':
                depth += 1
            elif ch in '>)':
                depth -= 1
            if ch == ',' and depth == 0:
                ps.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            ps.append(cur.strip())
        off = len(args) - len(ps)
        return all(q >= off and ps[q - off].endswith((' const&', ' const*')) for q in pos)


def mentions(v, name):
    if isinstance(v, tuple) or isinstance(v, list):
        if len(v) == 2 and v[0] == 'g' and v[1] == name:
            return True
        return any(mentions(x, name) for x in v)
    return False


def opis(v, gname, derived):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'g':
        return v[1] == gname
    if v[0] == 'l':
        return v[1] in derived
    if v[0] in ('cgep', 'ccast', 'agg', 'cbin'):
        return mentions(v, gname)
    return False


def operands(ins):
    out = []

    def rec(x):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('l', 'g', 'cgep', 'ccast'):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
    rec(ins.a)
    return out


def norm_dem(d):
    d = d.replace('unsigned long long', 'unsigned long long')
    return d.replace('[abi:cxx11]', '')
