"""mutate.py OUT N SEED [FILE-REGEX]: small random edits of the sources in a scratch copy; runs the proof tasks that reach a changed
function and records, per mutant, whether some obligation was refuted, only left undecided, or everything was proved (to be looked at:
an equivalent edit, or a gap).  A tool for finding gaps, not a check."""
import os, re, sys, json, time, random, shutil, subprocess, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
sys.setrecursionlimit(20000)
d = tempfile.mkdtemp(prefix='lexi-mu-')
os.environ['LEXI_REPO'] = d
shutil.copytree('/repo/src', d + '/src')
shutil.copytree('/repo/include', d + '/include')
import check, prog
import tasks as TK
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
RX = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
rnd = random.Random(SEED)


def bodies(p):
    out = {}
    for mn, m in p.mods.items():
        g = {}
        for l in p.texts[mn].split('\n'):
            if l.startswith('@'):
                g[l.split(' ', 1)[0]] = re.sub(r'!dbg !\d+|#\d+|, align \d+', '', l)
        for n, f in m.funcs.items():
            t = re.sub(r'#\d+|!\d+', '', re.sub(r',? !\w+ !\d+', '', '\n'.join(f.raw)))
            for x in sorted(set(re.findall(r'@[\w.$"]+', t))):
                if x in g:
                    t += '\n' + g[x]
            out[p.demangle(n)] = out.get(p.demangle(n), '') + t
    return out


def muts(path):
    src = open(path).read()
    out = []
    pp = []
    incom = False
    pos = 0
    for line in src.split('\n'):
        s = line.strip()
        st = pos
        pos += len(line) + 1
        if s.startswith('/*'):
            incom = '*/' not in s
            continue
        if incom:
            incom = '*/' not in s
            continue
        if s.startswith('#'):
            if s.startswith('#if'):
                pp.append(s)
            elif s.startswith('#el') and pp:
                pp[-1] = s if s.startswith('#elif') else 'else'
            elif s.startswith('#endif') and pp:
                pp.pop()
            continue
        if s.startswith('//') or any('MSC' in x or '_WIN32' in x and not x.startswith('#if !defined') for x in pp):
            continue
        code = line.split('//')[0]
        if re.search(r'template|<\w+>|_v<|std::\w+<', code):
            continue
        for m in re.finditer(r'<=|>=|==|!=|&&|\|\||(?<![<>\-=])[<>](?![<>=\w])|(?<= )[+\-*/%&|](?= )|\+\+|--|\+=|-=|<<=?|>>=?|\b0[xX][0-9A-Fa-f]+|\b\d+\b|\btrue\b|\bfalse\b|~', code):
            t = m.group()
            rep = {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<': ['<='], '>': ['>='],
                   '+': ['-'], '-': ['+'], '*': ['+'], '/': ['%'], '%': ['/'], '&': ['|'], '|': ['&'], '++': ['--'], '--': ['++'],
                   '+=': ['-=', '='], '-=': ['+='], '<<': ['>>'], '>>': ['<<'], '<<=': ['>>='], '>>=': ['<<='], 'true': ['false'], 'false': ['true'], '~': ['']}.get(t)
            if rep is None:
                if t[:2].lower() == '0x':
                    v = int(t, 16)
                    rep = [hex(v ^ 1), hex(v ^ (1 << (v.bit_length() // 2)))]
                elif t.isdigit():
                    rep = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
                else:
                    continue
            for r in rep:
                out.append((st + m.start(), st + m.end(), r, s))
        for m in re.finditer(r"'(.|\\.)'", code):
            out.append((st + m.start(), st + m.end(), "'x'" if m.group() != "'x'" else "'y'", s))
        if re.match(r'\s+[\w*(\[&:].*;\s*$', code) and not re.match(r'\s*(return|using|typedef|static|const|public|throw|break|template|u?int|size_t|bool|char|std::|operator|Format|Extract|enable)', code):
            out.append((st, st + len(code), '    ;', 'DELETE ' + s))
    return src, out


base = prog.Prog('gnu', d + '/ir')
base2 = prog.Prog('clang', d + '/irc')
B0 = {'gnu': bodies(base), 'clang': bodies(base2)}
res = check.pool([(t, 'gnu', False) for t in TK.TASKS.values()], {'gnu': base}, time.time() + 3000, 20000, 150)
reach = {r['name']: set(r['inlined']) | {TK.TASKS[r['name']].under} for r in res}
files = []
for top in ('src', 'include'):
    for dd, _, fs in os.walk(d + '/' + top):
        files += [dd + '/' + f for f in fs if re.search(r'\.[ch]pp$', f)]
allm = []
for f in sorted(files):
    if not RX.search(f) or 'strtod' in f:
        continue
    src, ms = muts(f)
    tab = [m for m in ms if re.match(r"(0[xX]|[-\d' ,]|1e)", m[3])]
    if len(tab) > 40:
        keep = set(rnd.sample(tab, 25))
        ms = [m for m in ms if m not in tab or m in keep]
    allm += [(f, src, m) for m in ms]
print(len(allm), 'mutants possible', flush=True)
rnd.shuffle(allm)
with open(OUT, 'a') as log:
    for f, src, (a, b, r, s) in allm[:N]:
        t0 = time.time()
        open(f, 'w').write(src[:a] + r + src[b:])
        ln = src[:a].count('\n') + 1
        rec = dict(file=os.path.relpath(f, d), line=ln, old=src[a:b], new=r, text=s)
        try:
            progs = {}
            changed = {}
            for v in ('gnu', 'clang'):
                progs[v] = prog.Prog(v, d + '/irm')
                nb = bodies(progs[v])
                changed[v] = {n for n in set(nb) | set(B0[v]) if nb.get(n) != B0[v].get(n)}
            rec['changed'] = sorted(changed['gnu'] | changed['clang'])[:6]
            jobs = []
            for t in TK.TASKS.values():
                rc = reach[t.name]
                if rc & changed['gnu']:
                    jobs.append((t, 'gnu', False))
                elif rc & changed['clang'] and 'clang' in t.variants:
                    jobs.append((t, 'clang', False))
            jobs.sort(key=lambda j: -j[0].weight)
            out = check.pool(jobs, progs, time.time() + 240, 20000, 60)
            ref = []
            und = []
            bad = [x for x in out if (x['error'] or x['failures']) and TK.TASKS[x['name']].fallback]
            fb = {x['name']: x for x in check.pool([(TK.TASKS[x['name']], x['variant'], True) for x in bad], progs, time.time() + 200, 20000, 60)}
            for x in out:
                if x['name'] in fb:
                    y = fb[x['name']]
                    rf = [z for z in y['failures'] if z['status'] == 'refuted']
                    if rf:
                        ref.append((x['name'], rf[0]['obligation'], rf[0]['kind'], 'bounded'))
                    else:
                        und.append((x['name'], x['error'] or x['failures'][0]['obligation'], 'bounded: ' + (y['error'] or ('failed' if y['failures'] else 'PASSES'))))
                    continue
                rf = [y for y in x['failures'] if y['status'] == 'refuted']
                if rf and not TK.TASKS[x['name']].fallback:
                    ref.append((x['name'], rf[0]['obligation'], rf[0]['kind']))
                elif x['error'] or x['failures']:
                    und.append((x['name'], x['error'] or x['failures'][0]['obligation'], bool(rf)))
            rec['tasks'] = len(jobs)
            rec['verdict'] = 'nochange' if not rec['changed'] else 'refuted' if ref else 'undecided' if und else 'PROVED'
            rec['refuted'] = ref[:3]
            rec['undecided'] = und[:3]
            rec['n'] = (len(ref), len(und))
        except prog.CompileError as e:
            rec['verdict'] = 'nocompile'
        except Exception as e:
            rec['verdict'] = 'error ' + repr(e)[:200]
        open(f, 'w').write(src)
        rec['s'] = round(time.time() - t0, 1)
        log.write(json.dumps(rec) + '\n')
        log.flush()
shutil.rmtree(d)
