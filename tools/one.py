"""one.py REGEX [variant] [fb]: run single proof tasks, print what fails"""
import sys, os, re, time, json, tempfile, shutil, pickle
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
sys.setrecursionlimit(20000)
import check, prog
import tasks as TK
v = sys.argv[2] if len(sys.argv) > 2 else 'gnu'
fb = len(sys.argv) > 3
d = tempfile.mkdtemp()
p = {v: prog.Prog(v, d + '/ir')}
import alias, contracts
al = alias.propose(p, contracts.CONTRACTS) if not os.environ.get("NOALIAS") else {}
if al:
    print('proposed', al)
js = [(t, v, fb) for t in TK.TASKS.values() if re.search(sys.argv[1], t.name)]
rs = check.pool(js, p, time.time() + 3000, 20000, float(os.environ.get('BUDGET', '150')))
for r in sorted(rs, key=lambda r: r['name']):
    print('%-40s %-6s obl %d/%d paths %d %.1fs %s' % (r['name'], 'ok' if not r['error'] and not r['failures'] else 'FAIL', r['discharged'], r['obligations'], r['paths'], r['wall'], r['error'] or ''))
    for f in r['failures'][:6]:
        print('    ', f['status'], f['kind'], f['obligation'], f['where'], json.dumps(f['counterexample'], default=str)[:600])
shutil.rmtree(d)
