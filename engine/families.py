"""The state spaces under analysis and the two-pass candidate partition."""
import lib
from query import Q
from bdd import Node

RS = ['cc00_rs', 'hc00_rs', 'hc0pm_rs', 'hcpm0_rs', 'hcpmpm_rs']
DUB = [a + b for a in ('cc00_dubins', 'cc0pm_dubins', 'ccpm0_dubins', 'ccpmpm_dubins') for b in ('_f', '_b')]
G1 = ['dubins_f', 'dubins_b', 'rs']
HCCC = RS + DUB
GROUP = 20


def false(c):
    return type(c) is int and c == 0


def pass1(prog, fam, drv='ctl_', **kw):
    stale = kw.pop('stale', None)
    q = Q(prog, **kw)
    if stale:
        q.stale = stale
    q.fam = fam
    q.discover(drv + fam)
    n = len(q.exist)
    if n < (12 if fam in DUB else 60):
        raise lib.Broken('%s: only %d candidate paths recognised in the selection' % (fam, n))
    return q


def groups(q):
    ids = sorted(q.exist)
    return [ids[i:i + GROUP] for i in range(0, len(ids), GROUP)]


def per_group(prog, fam, fn, drv='ctl_', nproc=4, prep=None, **kw):
    """run fn(q, ids, pc) for every group of candidates; each in its own process; returns the list of results"""
    q = pass1(prog, fam, drv, **kw)
    if prep:
        q = prep(q) or q
    out = []

    def task(ids):
        def f():
            pc = q.scenarios(ids)
            q.I.reports = []
            q.I.rep_keys = set()
            q.I.heap0 = len(q.I.heap)
            q.run(drv + fam, pc)
            return fn(q, ids, pc)
        return f
    gs = groups(q)
    if len(gs) == 1:
        return [task(gs[0])()]
    lib.fan([('%s/%d' % (fam, i), task(g)) for i, g in enumerate(gs)], lambda n, r: out.append(r), nproc)
    return out


def merge(results):
    tot = {'counts': {}, 'viol': [], 'samples': []}
    for r in results:
        for k, v in r.get('counts', {}).items():
            tot['counts'][k] = tot['counts'].get(k, 0) + v
        tot['viol'] += r.get('viol', [])
        tot['samples'] += r.get('samples', [])[:2]
    return tot
