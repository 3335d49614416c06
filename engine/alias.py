"""Contracts follow renamed functions.

A contract names the function it specifies.  When that name is gone from the tree, a function that the
pinned tree did not have and that has the same IR signature is proposed for it.  The proposal is only
used when that function is itself proved against the contract in the same run (check.py drops the
proposal and starts again otherwise), so nothing rests on the guess."""
import json
import os
import re
import difflib

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'names.json')


def sig(f):
    t = lambda x: re.sub(r'%?(class|struct)\.[\w:."]+', '%S', str(x))
    return [t(f.ret), [t(p[0]) + (' sret' if 'sret' in str(p[1]) else '') for p in f.params]]


def shape(n):
    """member or not, and the parameter list with the classes' names left out"""
    i = n.index('(')
    return n[:i].count('::'), re.sub(r'lexi::[\w:]+', 'X', n[i:])


def lexi_functions(prog):
    out = {}
    for n, f in prog.by_dem.items():
        if f.mod.name == 'driver' or n.startswith(('std::', '__', '_GLOBAL', 'void std', 'bool std')) or n.startswith('_Z'):
            continue
        out[n] = f
    return out


def record(prog, contracts):
    """write names.json from the pinned tree"""
    fs = lexi_functions(prog)
    json.dump({'known': sorted(fs), 'sig': {c: sig(prog.by_dem[c]) for c in sorted(contracts) if c in prog.by_dem}},
              open(FILE, 'w'), indent=0)


def propose(progs, contracts):
    """set prog.alias / prog.as_contract in every variant; returns {contract: function}"""
    try:
        base = json.load(open(FILE))
    except OSError:
        return {}
    p0 = next(iter(progs.values()))
    fs = lexi_functions(p0)
    known = set(base['known'])
    new = {n: f for n, f in fs.items() if n not in known}
    out = {}
    used = set()
    cands = []
    for c, s in base['sig'].items():
        if c in p0.by_dem or c not in contracts:
            continue
        for n, f in new.items():
            if '(' in n and sig(f) == s:
                a, b = c.split('(')[0], n.split('(')[0]
                r = difflib.SequenceMatcher(None, a.split('::')[-1], b.split('::')[-1]).ratio()
                cands.append((shape(c) != shape(n), -r, -difflib.SequenceMatcher(None, a, b).ratio(), c, n))
    for _, _, _, c, n in sorted(cands):
        if c in out or n in used:
            continue
        out[c] = n
        used.add(n)
    use(progs, out)
    return out


def use(progs, names):
    for p in progs.values():
        p.alias = {c: n for c, n in names.items() if n in p.by_dem}
        p.as_contract = {n: c for c, n in p.alias.items()}
