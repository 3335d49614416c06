import sys, os, time, tempfile, shutil, cProfile, pstats
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
sys.setrecursionlimit(20000)
import prog, symex, term, contracts
import tasks as TK, bigtasks
d = tempfile.mkdtemp()
p = prog.Prog('gnu', d + '/ir')
shutil.rmtree(d)
term.reset()
ex = symex.Exec(p, contracts.CONTRACTS, timeout_ms=20000, deadline=time.time()+float(sys.argv[2]))
import solver
oc = type(ex.ctx).check
log=[]
def chk(self, pc, extra, *a, **k):
    t=time.time()
    r=oc(self, pc, extra, *a, **k)
    dt=time.time()-t
    log.append((dt, r if isinstance(r,str) else r[0], len(pc), k.get('what'), str(extra)[:300]))
    if dt>2:
        print('%.1f'%dt, log[-1][1:]); sys.stdout.flush()
    return r
type(ex.ctx).check = chk
if os.environ.get('DBG'): exec(open('/tmp/w/dbg.py').read())
pr = cProfile.Profile(); pr.enable()
try:
    eval(sys.argv[1], dict(vars(bigtasks)))(ex)
except BaseException as e:
    print(repr(e))
pr.disable()
print(len(log), sum(x[0] for x in log))
for f in ex.failures[:5]: print(f.as_dict())
for x in sorted(log, key=lambda x:-x[0])[:15]: print('%.2f'%x[0], x[1:])
print(ex.ctx.stats, ex.ctx.time)
pstats.Stats(pr).sort_stats('tottime').print_stats(8)
