#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree.

1. compile /repo's sources (and the template instantiations of driver.cpp) to LLVM IR;
2. generate and discharge every proof obligation of the property's tasks (engine/);
3. where an obligation is refuted, replay the counterexample against the library built by g++ and,
   if it does not fail there, search for a failing input;
4. write evidence/PROPERTY.json, print VIOLATION / KNOWN-FINDING lines, exit 0 or 1."""
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)

SAFETY = {'memory', 'uninitialised', 'overflow', 'shift', 'division', 'unreachable', 'undefined-value', 'frame', 'pre', 'termination'}
JOBS = 8


def run_task(task, variant, progs, budget, timeout_ms, fallback=False):
    """in a child process: run one task, return a plain dict"""
    import symex
    import term
    import contracts
    from irparse import Unsupported
    term.reset()
    t0 = time.time()
    ex = symex.Exec(progs[variant], contracts.CONTRACTS, timeout_ms=timeout_ms, deadline=t0 + budget)
    err = None
    try:
        (task.fallback if fallback else task.run)(ex)
    except (Unsupported, contracts.Missing, symex.Budget) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        err = 'RecursionError'
    except MemoryError:
        err = 'MemoryError'
    except Exception as e:
        err = 'engine error %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    fs = [f.as_dict() for f in ex.failures]
    if err is None and not fs and (ex.n_obl == 0 or ex.n_paths == 0 and not task.name.startswith('lemma/')):
        err = 'vacuous: %d obligations on %d complete paths' % (ex.n_obl, ex.n_paths)
    if err is None and not fs and ex.escapes:
        err = 'Unsupported: reads mutable globals that may be written elsewhere: ' + ', '.join(sorted(ex.escapes))
    if err is None and not fs and not fallback and ex.n_vacuous:
        err = 'vacuous: %d runs without a feasible complete path' % ex.n_vacuous
    if err is None and not fs and ex.n_feasible == 0 and not task.name.startswith('lemma/'):
        err = 'vacuous: no complete path is feasible'
    return dict(name=task.name, variant=variant, error=err, failures=fs, obligations=ex.n_obl,
                discharged=ex.n_obl - len(fs), by=ex.by, kinds=ex.kinds, paths=ex.n_paths,
                queries=ex.ctx.stats, solver_s=ex.ctx.time, wall=time.time() - t0, fallback=fallback,
                inlined=sorted(ex.prog.demangle(n) if isinstance(n, str) else str(n) for n in ex.inlined),
                applied=sorted(map(str, ex.applied)), externals=sorted(map(str, ex.externals)), assumed=sorted(map(str, ex.assumed)))


def pool(jobs, progs, deadline, timeout_ms, budget):
    """jobs: [(task, variant, fallback)] -> results; every task in a process of its own"""
    todo = list(jobs)[::-1]
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < JOBS:
            j = todo.pop()
            if time.time() > deadline:
                out.append(dict(name=j[0].name, variant=j[1], error='Budget: not started in time', failures=[], obligations=0, discharged=0,
                                by={}, kinds={}, paths=0, queries={}, solver_s={}, wall=0, fallback=j[2], inlined=[], applied=[], externals=[], assumed=[]))
                continue
            r, w = os.pipe()
            b = min(budget, max(5, deadline - time.time()))
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(int(b) + 60)
                    res = run_task(j[0], j[1], progs, b, timeout_ms, j[2])
                    data = json.dumps(res, default=str).encode()
                    while data:
                        data = data[os.write(w, data):]
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, j, bytearray())
        if not live:
            continue
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            d = os.read(r, 1 << 16)
            pid, j, buf = live[r]
            if d:
                buf += d
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out.append(json.loads(bytes(buf)))
            except Exception:
                out.append(dict(name=j[0].name, variant=j[1], error='worker ended without a result', failures=[], obligations=0, discharged=0,
                                by={}, kinds={}, paths=0, queries={}, solver_s={}, wall=0, fallback=j[2], inlined=[], applied=[], externals=[], assumed=[]))
    return out


def closure(p, under, cn, memo):
    """the text that a task about the function depends on: its body, those of the functions it calls that are verified in it, and
    the globals they name"""
    import re
    if (id(p), under) in memo:
        return memo[id(p), under]
    out = {}
    work = [f for m in p.mods.values() for n, f in m.funcs.items() if p.as_contract.get(p.demangle(n), p.demangle(n)) == under]
    mod = {id(f): m for m in p.mods.values() for f in m.funcs.values()}
    seen = set()
    while work:
        f = work.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        m = mod.get(id(f))
        t = re.sub(r',? !\w+ !\d+', '', '\n'.join(f.raw))
        t = re.sub(r'#\d+|!\d+', '', t)
        out.setdefault(f.name, set()).add(t)
        for n in set(re.findall(r'@([\w.$]+|"[^"]*")', t)):
            n = n.strip('"')
            g = p.find_func(m, n)
            if g is not None:
                d = p.demangle(g.name)
                if p.as_contract.get(d, d) not in cn:
                    work.append(g)
                continue
            _, gl = p.find_global(m, n)
            out['@' + n] = re.sub(r' at 0x\w+', '', str({k: gl[k] for k in ('init', 'link') if k in gl})) if gl is not None else None
    memo[id(p), under] = out
    return out


def relevant(P, task, f):
    k = f['kind']
    if k.startswith('post:'):
        return P in k[5:].split(',')
    if k == 'shared-state':
        return P == 'C17'
    if k in SAFETY:
        return P == 'C13' or (P in task.props and P != 'C17')
    return False


def known_findings():
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: '):
                out.append(json.loads(l[len('finding: '):]))
    except OSError:
        pass
    return out


def main():
    P = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier != 'thorough'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='lexi-verif-')
    try:
        code = check(P, tier, seed, quick, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(P, tier, seed, quick, t0, scratch):
    import prog
    import probe
    import alias
    import tasks as TK
    from concurrent.futures import ThreadPoolExecutor
    ev_path = os.path.join(ROOT, 'evidence', P + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    native = probe.Native(os.path.join(scratch, 'native'))
    progs = {}
    notes = []
    violations = []

    def load(v):
        try:
            return v, prog.Prog(v, os.path.join(scratch, 'ir-' + v))
        except prog.CompileError as e:
            return v, e
    wants = [(probe.GROUP.get(P, 1), 'plain')]
    if P == 'C13':
        wants = [(1, 'san'), (2, 'san'), (3, 'san')]
    import threading
    bg = threading.Thread(target=native.prebuild, args=(wants,))
    bg.start()
    for v in prog.VARIANTS:
        v, p = load(v)
        if isinstance(p, Exception):
            notes.append('variant %s does not compile: %s' % (v, str(p)[-400:]))
        else:
            progs[v] = p
    bg.join()
    sel = [t for t in TK.TASKS.values() if P in t.props or P in ('C13', 'C17')]
    results = []
    fallbacks = []
    if 'gnu' in progs:
        aliases = alias.propose(progs, TK.CONTRACTS)
        sel += [t for t in TK.TASKS.values() if t.under in aliases and t not in sel]
        back = progs['gnu'].as_contract
        jobs = []
        cn = set(TK.CONTRACTS)
        order = [v for v in prog.VARIANTS if v in progs]
        memo = {}
        for t in sel:
            for v in t.variants:
                if v not in progs:
                    continue
                if tier != 'thorough':
                    # identical code in an earlier variant: that proof is the proof
                    if any(closure(progs[u], t.under, cn, memo) == closure(progs[v], t.under, cn, memo)
                           for u in order[:order.index(v)] if u in t.variants):
                        continue
                jobs.append((t, v, False))
        jobs.sort(key=lambda j: -j[0].weight)
        results = pool(jobs, progs, t0 + (400 if quick else 5000), 20000 if quick else 60000, 150 if quick else 1200)
        while aliases:
            bad = {TK.TASKS[r['name']].under for r in results if r['error'] or r['failures']} & set(aliases)
            if not bad:
                notes.append('renamed functions, proved against the contract: %s' % ', '.join('%s for %s' % (n, c) for c, n in sorted(aliases.items())))
                break
            # not the function the contract is about: once more without the proposal
            notes.append('proposed and dropped, not proved: %s' % ', '.join('%s for %s' % (aliases[c], c) for c in sorted(bad)))
            if time.time() > t0 + (200 if quick else 3000):
                bad = set(aliases)
            for c in bad:
                del aliases[c]
            alias.use(progs, aliases)
            results = pool(jobs, progs, time.time() + (200 if quick else 3000), 20000 if quick else 60000, 120 if quick else 1200)
        # bounded stand-ins where the unbounded argument did not go through
        fj = []
        for r in results:
            t = TK.TASKS[r['name']]
            if (r['error'] or r['failures']) and t.fallback:
                fj.append((t, r['variant'], True))
        if fj:
            fallbacks = pool(fj, progs, t0 + (520 if quick else 7000), 20000, 120 if quick else 1200)
    else:
        notes.append('no IR: nothing proved')
    fb = {(r['name'], r['variant']): r for r in fallbacks}
    refuted, undecided, bounded = [], [], []
    for r in results:
        t = TK.TASKS[r['name']]
        rel = [f for f in r['failures'] if relevant(P, t, f)]
        ref = [f for f in rel if f['status'] == 'refuted']
        other = [f for f in r['failures'] if f not in ref]
        shared = any(f['kind'] == 'shared-state' for f in r['failures'])
        if not r['error'] and not r['failures']:
            continue
        b = fb.get((r['name'], r['variant']))
        if b is not None:
            brel = [f for f in b['failures'] if relevant(P, t, f) and f['status'] == 'refuted']
            hard = [f for f in ref if f.get('exact')]
            if hard:
                refuted += [dict(f, task=r['name']) for f in hard]
                continue
            if brel:
                refuted += [dict(f, task=r['name'], bounded=t.bound) for f in brel]
            elif b['error'] or b['failures']:
                undecided.append('%s: %s; bounded stand-in: %s' % (r['name'], r['error'] or 'not inductive', b['error'] or 'failed'))
            else:
                bounded.append('%s: %s (bounded: %s)' % (r['name'], r['error'] or 'not inductive', t.bound))
            continue
        if ref and not (shared and P != 'C17'):
            refuted += [dict(f, task=r['name']) for f in ref]
        elif r['error'] or rel or (ref and shared) or (shared and P != 'C13' and P in t.props):
            why = r['error'] or '; '.join('%s (%s)' % (f['obligation'], f['status']) for f in (rel or r['failures'])[:2])
            undecided.append('%s: %s' % (r['name'], why))
    # ---- replay and search on the real library
    seeds = probe.seeds_of(refuted + [f for r in results + fallbacks for f in r['failures'] if f['status'] == 'unknown' and f['counterexample']])
    if 'gnu' in progs:
        native.dict = probe.dictionary(progs['gnu'])
    worry = bool(refuted or undecided or bounded or notes)
    tried, samples, conf, perr = 0, [], None, None
    if P == 'C13':
        plan = [(m, 'san') for m in probe.SANMODES]
        per = (1.5 if not worry else 12) if quick else 60
    elif P == 'C17':
        plan = [('C17', 'plain')] + ([('C17', 'tsan')] if refuted or undecided else [])
        per = (4 if not worry else 20) if quick else 120
    else:
        plan = [(P, 'plain')]
        per = (4 if not worry else (60 if refuted else 40)) if quick else 300
    if P == 'C13' and worry:      # first the parts whose obligations failed
        hot = [p for f in refuted for p in TK.TASKS[f['task']].props]
        plan.sort(key=lambda m: -hot.count(m[0]))
        hotm = {m for m, _ in plan if hot.count(m)}
    for m, kind in plan:
        left = t0 + (780 if quick else 20000) - time.time()
        if left < per + 35:
            notes.append('search of %s skipped: out of time' % m)
            continue
        try:
            p = per
            if P == 'C13' and worry and refuted and m not in hotm:
                p = 2
            n, s, f = native.run(m, p, seed, seeds, kind)
            tried += n
            samples += s[:1] if P == 'C13' else s
            if f is not None:
                if f['case'] and not native.confirm(f) and P != 'C17':
                    notes.append('a failure of %s did not repeat: %s' % (m, f['message'][:200]))
                    continue
                if kind == 'tsan' and 'unexpected memory mapping' in f['log']:
                    continue
                conf = f
                break
        except probe.BuildError as e:
            perr = str(e)
            if perr.startswith('library'):
                print('the library does not compile: %s' % perr[:500])
                return 2
            notes.append('probe group %s does not compile: %s' % (m, perr[:300]))
    replay = os.path.join(ROOT, 'replay', P + '.json')
    line = None
    if conf is not None:
        rec = dict(property=P, kind='failing input on the real library', **conf)
        rec['failed_obligations'] = refuted[:6]
        rec['undecided'] = undecided[:10]
        rec['how_to_replay'] = 'build engine/probe.cpp with -DGROUP=%d (%s) against /repo/src, then: probe %s --case %s' % (
            probe.GROUP.get(conf['mode'], 1), ' '.join(probe.FLAGS[conf['build']]), conf['mode'], conf['case'][:2000])
        json.dump(rec, open(replay, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s' % (P, replay)
        print('%s %s: %s' % (P, conf['mode'], conf['message'][:600]))
        violations.append(conf['message'][:600])
    elif refuted:
        json.dump(dict(property=P, kind='failed obligation, no failing input found', failed_obligations=refuted[:12]), open(replay, 'w'), indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (P, replay)
        for f in refuted[:4]:
            print('%s: obligation "%s" [%s] refuted at %s; counterexample %s' % (f['task'], f['obligation'], f['kind'], f['where'], json.dumps(f['counterexample'])[:300]))
        violations.append(refuted[0]['obligation'])
    elif ('gnu' not in progs) and perr:
        # the public interface no longer compiles for the supported types
        json.dump(dict(property=P, kind='the callers of the public interface do not compile', notes=notes), open(replay, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (P, replay)
        violations.append('callers do not compile')
    for k in known_findings():
        if k.get('property') == P:
            print('KNOWN-FINDING: property=%s %s' % (P, k['what']))
    # ---- evidence
    allr = results
    nobl = sum(r['obligations'] for r in allr)
    ok = [r for r in allr if not r['error'] and not r['failures']]
    by = {}
    kinds = {}
    st = {}
    for r in allr:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in r['solver_s'].items():
            st[k] = round(st.get(k, 0) + v, 2)
    if P == 'C13':
        kinds_rel = {k: v for k, v in kinds.items() if k in SAFETY}
    elif P == 'C17':
        kinds_rel = {k: v for k, v in kinds.items() if k in ('frame', 'shared-state', 'memory')}
    else:
        kinds_rel = {k: v for k, v in kinds.items() if k in SAFETY or k == 'invariant' or (k.startswith('post:') and P in k[5:].split(','))}
    under = sorted({TK.TASKS[r['name']].under for r in ok if TK.TASKS[r['name']].under})
    inl = sorted({n for r in ok for n in r['inlined'] if not n.startswith('d_')})
    ext = sorted({n for r in allr for n in r['externals']})
    slow = sorted(((round(r['wall'], 1), r['name'], r['variant']) for r in allr), reverse=True)[:5]
    ev = dict(property=P, tier='quick' if quick else 'thorough', seed=seed, level='proof',
              coverage=dict(obligations=nobl, discharged=sum(r['discharged'] for r in allr),
                            checker_cmd='python3-vt /verif/check.py %s %s' % (P, 'quick' if quick else 'thorough'),
                            trusted_base=TRUSTED + ['modelled external functions: ' + ', '.join(ext)],
                            proof_tasks=len(allr), proof_tasks_fully_discharged=len(ok), complete_paths=sum(r['paths'] for r in allr),
                            obligations_of_this_property=sum(kinds_rel.values()), obligations_by_kind=kinds, discharged_by_back_end=by,
                            solver_seconds=st, slowest_tasks=slow,
                            functions_under_contract=under, functions_verified_in_their_callers=inl,
                            bounded_stand_ins=bounded, undecided=undecided,
                            native_inputs_tried=tried, native_samples=samples[:6], notes=notes),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(violations))
    json.dump(ev, open(ev_path, 'w'), indent=1)
    print('%s: %d obligations in %d tasks, %d discharged; %d bounded, %d undecided tasks; %d native inputs; %.0f s' % (
        P, nobl, len(allr), ev['coverage']['discharged'], len(bounded), len(undecided), tried, time.time() - t0))
    for u in undecided[:8]:
        print('  undecided: %s' % u[:300])
    for u in notes[:5]:
        print('  note: %s' % u[:300])
    if line:
        print(line)
        return 1
    return 0


TRUSTED = [
    'clang 18 front end: the verified text is its unoptimised LLVM IR of the real sources (libraries are normally built by g++)',
    'the verification-condition generator in /verif/engine (symbolic execution of LLVM IR, loop rules, term normaliser, interval domain)',
    'z3 and cvc5',
    'the models of libstdc++ std::string and of the C library in /verif/engine/models.py',
    'x86-64 Linux data layout, IEEE-754 binary64 arithmetic']
ASSUME = [
    'strtof/strtod/strtold/strtoll/strtoull round and convert correctly (external)',
    'operator new does not fail; strings are shorter than 2^40 bytes',
    'the current locale is "C"; the rounding mode is to nearest',
    'arithmetic is exact machine arithmetic with wrap-around (no mathematical-integer idealisation)']

if __name__ == '__main__':
    main()
