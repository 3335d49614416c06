"""Replay of counterexamples against the real library, and search for failing inputs.

The library is compiled by g++ from /repo's sources with the flags of its own build; the probe
judges each call against an exact oracle (see probe.cpp)."""
import os
import re
import shutil
import struct
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from prog import REPO, HERE, sources

GROUP = {'C18': 2, 'C19': 2, 'C15': 3, 'C16': 3}
SANMODES = ['C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20']
FLAGS = {'plain': ['-O1'], 'san': ['-O0', '-DSAN', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
         'tsan': ['-O1', '-DSAN', '-fsanitize=thread']}


class BuildError(Exception):
    pass


class Native:
    def __init__(self, out, jobs=8):
        self.out = out
        self.jobs = jobs
        self.libs = {}
        self.bins = {}
        self.dict = ([], [])
        os.makedirs(out, exist_ok=True)

    def lib(self, kind):
        if kind not in self.libs:
            objs = []

            def comp(s):
                o = os.path.join(self.out, '%s_%s.o' % (kind, os.path.relpath(s, REPO).replace('/', '_')))
                p = subprocess.run(['g++', '-std=c++14', '-g', '-w', '-include', 'cstdint', '-I' + os.path.join(REPO, 'include')] + FLAGS[kind]
                                   + ['-c', s, '-o', o], capture_output=True, text=True)
                if p.returncode:
                    raise BuildError('library: ' + p.stderr[-1500:])
                return o
            with ThreadPoolExecutor(self.jobs) as tp:
                objs = list(tp.map(comp, sources()))
            self.libs[kind] = objs
        return self.libs[kind]

    def build(self, group, kind='plain'):
        k = (group, kind)
        if k not in self.bins:
            objs = self.lib(kind)
            b = os.path.join(self.out, 'probe%d_%s' % k)
            p = subprocess.run(['g++', '-std=c++17', '-g', '-w', '-include', 'cstdint', '-DGROUP=%d' % group, '-I' + os.path.join(REPO, 'include')]
                               + FLAGS[kind] + [os.path.join(HERE, 'probe.cpp')] + objs + ['-o', b, '-lpthread'], capture_output=True, text=True)
            if p.returncode:
                self.bins[k] = BuildError('probe: ' + p.stderr[:1500])
            else:
                self.bins[k] = b
        if isinstance(self.bins[k], Exception):
            raise self.bins[k]
        return self.bins[k]

    def prebuild(self, wants):
        with ThreadPoolExecutor(self.jobs) as tp:
            kinds = sorted({k for _, k in wants})
            list(tp.map(lambda k: self._try(lambda: self.lib(k)), kinds))
            list(tp.map(lambda w: self._try(lambda: self.build(*w)), wants))

    @staticmethod
    def _try(f):
        try:
            f()
        except BuildError:
            pass

    def run(self, mode, secs, seed, cases=(), kind='plain', shards=8):
        """(number of cases tried, samples, failure or None); failure: dict(case, message, log)"""
        b = self.build(GROUP.get(mode, 1), kind)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1',
                   LEXI_DICT=':'.join(map(str, self.dict[0])), LEXI_TEXTS=':'.join(x.hex() for x in self.dict[1]))

        def one(i):
            args = [b, mode, str(seed), str(secs), str(i), str(shards)] + (list(cases) if i == 0 else [])
            p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            try:
                o, e = p.communicate(timeout=secs + 30)
            except subprocess.TimeoutExpired:
                p.terminate()
                try:
                    o, e = p.communicate(timeout=10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, e = p.communicate()
            return p.returncode, o.decode('latin-1'), e.decode('latin-1')
        n = 0
        samples = []
        fail = None
        with ThreadPoolExecutor(shards) as tp:
            for rc, o, e in tp.map(one, range(shards)):
                m = re.search(r'^FAIL\t(.*?)\t(.*)$', o, re.M)
                if m:
                    if fail is None:
                        fail = dict(mode=mode, case=m.group(1), message=m.group(2), build=kind, log=e[-4000:])
                    continue
                m = re.search(r'^DONE\t(\d+)\t(.*)$', o, re.M)
                if m:
                    n += int(m.group(1))
                    if m.group(2) and len(samples) < 3:
                        samples.append(m.group(2)[:200])
                elif fail is None and kind == 'san' and 'ERROR: AddressSanitizer' in e:
                    fail = dict(mode=mode, case='', message='stopped by the sanitizer', build=kind, log=e[-4000:])
        return n, samples, fail

    def confirm(self, f):
        """does the reported case fail again on its own?"""
        try:
            b = self.build(GROUP.get(f['mode'], 1), f['build'])
            case = f['case']
            if len(case) > 60000:
                case = os.path.join(self.out, 'case')
                open(case, 'w').write(f['case'])
                case = '@' + case
            p = subprocess.run([b, f['mode'], '--case', case], capture_output=True, timeout=60)
            return b'FAIL\t' in p.stdout
        except Exception:
            return False

    def cleanup(self):
        shutil.rmtree(self.out, ignore_errors=True)


def dictionary(pg):
    """constants the library compares with, and its literals: candidates for the search"""
    nums, texts = set(), set()
    for m in pg.mods.values():
        for f in m.funcs.values():
            if 'lexi' not in pg.demangle(f.name):
                continue
            sw = False
            for l in f.raw:
                if re.search(r'= (icmp|and|urem|udiv|srem|sdiv|sub|add|lshr) ', l):
                    l = l.split('!dbg')[0]
                    nums |= {int(x) % 2**64 for x in re.findall(r'(?<=[ ,])-?\d{1,20}(?=,|$| )', l)}
                elif ' switch ' in l or sw:
                    nums |= {int(x) % 2**64 for x in re.findall(r'i\d+ (-?\d+), label', l)}
                    sw = ']' not in l
                elif '= fcmp ' in l:
                    for x in re.findall(r'0x([0-9A-Fa-f]{16})|(?<= )(-?\d+\.\d+e[+-]\d+)', l):
                        v = struct.unpack('<Q', struct.pack('<d', float(x[1])))[0] if x[1] else int(x[0], 16)
                        nums.add(v)
        for c in re.findall(r' c"((?:[^"\\]|\\.)*)"', pg.texts[m.name]):
            b = re.sub(rb'\\([0-9A-Fa-f]{2}|\\)', lambda k: b'\\' if k.group(1) == b'\\' else bytes([int(k.group(1), 16)]), c.encode('latin-1'))
            if len(b) < 40 and b'basic_string' not in b:
                texts.add(b.rstrip(b'\0'))
    return sorted(nums)[:600], sorted(texts)[:80]


def seeds_of(failures):
    """probe cases from the verifier's counterexamples"""
    out = []

    def add(c):
        if c not in out and len(out) < 400 and len(c) < 60000 and sum(map(len, out)) < 1000000:
            out.append(c)
    for f in failures:
        m = f.get('counterexample') or {}
        for k in ('value', 'other'):
            v = m.get(k)
            if isinstance(v, int):
                o = m.get('other', 0) if k == 'value' else m.get('value', 0)
                o = o if isinstance(o, int) else 0
                for d in (0, 1, -1):
                    add('I:%d:%d' % ((v + d) % 2**64, o % 2**64))
                add('S:%02x' % (v % 256))
        for k in ('bits', 'value bits', 'other bits'):
            v = m.get(k)
            if isinstance(v, int):
                o = m.get('other bits', 0)
                for d in (0, 1, -1):
                    add('D:%016x:%016x' % ((v + d) % 2**64, o))
                    if v < 2**32:
                        add('F:%08x' % ((v + d) % 2**32))
        if isinstance(m.get('n'), int):
            add('I:%d:0' % (m['n'] % 2**64))
        if 'magnitude' in m:
            t = ('-' if m.get('minus') else '') + str(m['magnitude'])
            add('S:' + t.encode().hex())
        ds = sorted((int(k[5:]), v) for k, v in m.items() if re.match(r'digit\d+$', k))
        if ds:
            t = ('-' if m.get('minus') else '') + ''.join(str(v) for _, v in ds)
            add('S:' + t.encode().hex())
        for nm in ('text', 'src'):
            bs = {int(k[len(nm) + 1:-1]): v for k, v in m.items() if re.match(nm + r'\[\d+\]$', k) and isinstance(v, int)}
            n = m.get(nm + '.size')
            if isinstance(n, int) or bs:
                n = n if isinstance(n, int) else max(bs) + 1
                if 0 <= n <= 5000:
                    t = bytes(bs.get(i, 97) % 256 for i in range(n))
                    add('S:' + t.hex())
                    add('S:' + t[:len(bs)].hex())
                for v in bs.values():
                    add('S:%02x' % (v % 256))
        if isinstance(m.get('program'), str):
            add('B:' + m['program'])
    return out
