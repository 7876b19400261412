"""P10: parallel save and load."""
import itertools
import numpy as np
from mc import scen, sched
from mc.num import close

RULE = ('every put of an array calls the put function once, on rank 0, with the complete array, and returns only after '
        'it; every get calls the get function once, on rank 0, and leaves all workers with the data; modes and '
        'coefficients from the loaded decomposition equal those of the original')
BOUNDS = ('6 decompositions + LTI projection x 1..5 workers x memory limits x 2..6, 12 and 25 vectors x real/complex x 4 '
          'schedule/delivery variants; one object loading up to three times from two sources, the contents new every time, after and without a '
          'computation, 1..3 (5) workers; DPOR and preemption bound on 2 workers')


def judge_for(kind, deep=False):
    def judge(res):
        puts = {}
        for rank, key, val in res.puts:
            if key.startswith('ARR:'):
                if rank != 0:
                    return 'rank %d calls the put function for %s' % (rank, key)
                puts.setdefault(key[4:], []).append(sched.decode(val))
        for k, v in puts.items():
            if len(v) != 1:
                return '%s saved %d times' % (k, len(v))
        loading, gets = {}, []
        for e in res.events:
            if e[1] == 'loadstart':
                loading[e[0]] = True
            elif e[1] == 'loadend':
                loading[e[0]] = False
            elif e[1] == 'get' and e[2].startswith('ARR:') and loading.get(e[0]):
                if e[0] != 0:
                    return 'rank %d calls the get function for %s' % (e[0], e[2])
                gets.append(e[2][4:])
        if len(set(gets)) != len(gets):
            return 'loaded more than once: %s' % sorted(gets)
        o0 = res.results[0]
        want = set(k[2:] for k in o0 if k.startswith('G:'))
        if set(gets) != want:
            return 'loaded %s instead of %s' % (sorted(set(gets)), sorted(want))
        saved = set(k[2:] for k in o0 if k.startswith('P:') or k.startswith('S:'))
        if set(puts) != saved:
            return 'saved %s instead of %s' % (sorted(puts), sorted(saved))
        for r, o in enumerate(res.results):
            for k in o:
                if k.startswith('S:') or k.startswith('G:'):
                    m = close(puts[k[2:]][0], o[k], 0., '%s %s on rank %d' % (
                        'saved' if k[0] == 'S' else 'loaded', k[2:], r))
                    if m:
                        return m
                if k.startswith('P:'):
                    if o[k] is None:
                        return 'rank %d returns before %s is saved' % (r, k[2:])
                if k[:3] in ('LM:', 'LC:') and k[1:] in o:
                    m = close(np.array(o[k], dtype=complex) if k[1] == 'M' else np.concatenate(
                        [np.ravel(z) for z in o[k]]), np.array(o[k[1:]]) if k[1] == 'M' else np.concatenate(
                        [np.ravel(z) for z in o[k[1:]]]), 1e-9, '%s after loading, rank %d' % (k[3:], r))
                    if m:
                        return m
                if kind == 'gal' and k in 'ABC':
                    m = close(puts[k][0], o[k], 0., 'saved ' + k)
                    if m:
                        return m
        d = sched.same_on_all([{k: v for k, v in o.items() if k[:2] in ('G:', 'LC')} for o in res.results])
        if d:
            return 'ranks %s hold different loaded data' % d
        return ''
    return judge


def case_io(n, lay, kind, nv, maxv, cplx):
    if kind == 'gal':
        job = ('mc.scen', 'galerkin', dict(nb=nv, maxv=maxv, cplx=cplx))
    else:
        job = ('mc.scen', 'pipeline', dict(kind=kind, nv=nv, maxv=maxv, cplx=cplx, atol=1e-12,
                                           ops=['modes', 'coeffs', 'puts', 'gets', 'cputs', 'cgets']))
    return sched.sweep(n, lay, job, judge_for(kind))


def judge_reload(kind, k, rounds, cplx):
    def judge(res):
        inside, gets = {}, {}
        for e in res.events:
            if e[1] in ('load', 'loaded'):
                inside[e[0]] = e[1] == 'load'
            elif e[1] == 'get' and e[2].startswith('ARR:') and inside.get(e[0]):
                if e[0] != 0:
                    return 'rank %d calls the get function for %s' % (e[0], e[2])
                gets[e[2][4:]] = gets.get(e[2][4:], 0) + 1
        for sfx in set(s for s, _ in rounds):
            t = sum(s == sfx for s, _ in rounds)
            for f, ns in scen.LOADS[kind]:
                for n in ns:
                    if gets.get(n + sfx, 0) != t:
                        return '%s loaded %d times by %d calls of %s' % (n + sfx, gets.get(n + sfx, 0), t, f)
        for r, o in enumerate(res.results):
            i = 0
            for sfx, rnd in rounds:
                for f, ns in scen.LOADS[kind]:
                    for n, a in zip(ns, o[i]):
                        m = close(a, scen.reload_data(n, rnd, k, cplx), 0., '%s after %s of %s, rank %d' % (n, f, n + sfx, r))
                        if m:
                            return m
                    i += 1
        return ''
    return judge


def case_reload(n, kind, k, rounds, computed, cplx):
    """Histories of loading with one object: the same source with new content, other sources, after a computation."""
    return sched.sweep(n, 'one', ('mc.scen', 'reload', dict(kind=kind, k=k, rounds=rounds, computed=computed, cplx=cplx)),
                       judge_reload(kind, k, rounds, cplx), sched.VARIANTS[:3])


def case_deep(n, kind, nv, ops, bound, dev=0):
    if kind == 'gal':
        job = ('mc.scen', 'galerkin', dict(nb=nv, maxv=100))
    else:
        job = ('mc.scen', 'pipeline', dict(kind=kind, nv=nv, maxv=100, atol=1e-12, ops=ops))
    return sched.deep(n, 'one', job, judge_for(kind), bound=bound, deviations=dev, max_runs=20000)


def run(ck):
    q = ck.quick
    cs = []
    for n in range(1, 5 if q else 7):
        for lay in (['one', 'each'] if n > 2 and not q else ['one']):
            for maxv in (1, 1000):
                for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq', 'gal'):
                    for nv in (2, 3, 4) if q else (2, 3, 4, 5, 6):
                        for cplx in (False, True):
                            cs.append(dict(n=n, lay=lay, kind=kind, nv=nv, maxv=maxv, cplx=cplx))
    ck.domain('io', cs, timeout=200)
    hist = [[[s, i] for i, s in enumerate(h)] for L in (1, 2, 3) for h in itertools.product('ab', repeat=L) if h[0] == 'a']
    ck.domain('reload', [dict(n=n, kind=kd, k=k, rounds=h, computed=c, cplx=z) for n in range(1, 4 if q else 6)
                         for kd in ('pod', 'bpod', 'dmd', 'tls') for k in ((2, 5) if q else (1, 2, 3, 5, 12)) for h in hist
                         for c in (False, True) for z in ((k == 5,) if q else (False, True))], timeout=200)
    dp = []
    for kind in ('pod', 'gal') if q else ('pod', 'bpod', 'dmdseq', 'tlsseq', 'gal'):
        dp.append(dict(n=2, kind=kind, nv=2, ops=['coeffs', 'puts', 'gets'], bound=1))
        if not q:
            dp.append(dict(n=3, kind=kind, nv=2, ops=['coeffs', 'puts', 'gets'], bound=0, dev=1))
    ck.domain('deep', dp, timeout=700, chunk=1)
    ck.domain('io', [dict(n=n, lay='one', kind=k, nv=v, maxv=x, cplx=c) for n, x in ((1, 1000), (2, 6), (3, 1000))
                     for k in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq', 'gal') for v in (12, 25) for c in (False, True)], timeout=300, chunk=1)
