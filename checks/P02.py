"""P02: parallel linear combinations."""
import numpy as np
from mc import scen, sched
from mc.core import grid
from mc.num import close

RULE = ('output j = sum_i coeff(i, j) basis_i, stored exactly once by exactly one worker; with column indices the '
        'outputs follow them; no other handle written')
BOUNDS = ('1..5 workers, layouts one/each/two/uneven, 1..7 basis vectors x 1..7 outputs, up to 257 on few workers, memory limits giving 3,4,5 '
          'and many vectors per worker, all column index lists of length <= 3 over 3 columns, zero coefficients with infinite and nan data, magnitudes 2^-40..2^20, four schedule+delivery '
          'variants, DPOR + preemption bound + single-send deviations on small sizes')


def _judge(nb, ns, cplx, dt, cols, ncols, cc=None):
    ref = scen.lincomb_ref(nb, ns, cplx, dt, cols, ncols, cc)
    f = 2. ** int(dt.split('*')[1]) if '*' in dt else 1

    def judge(res):
        names = ['out%d' % j for j in range(ns)]
        seen = {}
        for rank, key, val in res.puts:
            if key not in names:
                return 'rank %d writes %s' % (rank, key)
            if key in seen:
                return '%s stored twice (ranks %d and %d)' % (key, seen[key], rank)
            seen[key] = rank
            m = close(sched.decode(val) / f, ref[names.index(key)] / f, 1e-12, key)
            if m:
                return m
        miss = [k for k in names if k not in seen]
        if miss:
            return 'outputs %s never stored' % miss
        for r, o in enumerate(res.results):
            if o['mut']:
                return 'coefficients modified'
            if o['got'] is not None:
                for j in range(ns):
                    if o['got'][j] is None:
                        return 'rank %d returns before %s is stored' % (r, names[j])
        return ''
    return judge


def case_lin(n, lay, nb, ns, maxv, data='float', vk='arr', cols=None, ncols=None, form='2d', verb=0):
    cplx = data.split('*')[0] in ('complex', 'mixed', 'mixedreal')
    dt = {'complex': 'float', 'mixedreal': 'mixed'}.get(data, data).replace('complex', 'float')
    cc = False if data == 'mixedreal' else None
    rcols = list(range(*cols)) if form == 'range' else cols
    job = ('mc.scen', 'lincomb', dict(nb=nb, ns=ns, maxv=maxv, cplx=cplx, dt=dt, vk=vk, cols=cols, ncols=ncols,
                                      form=form, verbosity=verb, ccplx=cc))
    return sched.sweep(n, lay, job, _judge(nb, ns, cplx, dt, rcols, ncols, cc))


def case_deep(n, lay, nb, ns, maxv, bound=0, dev=1, read=True):
    job = ('mc.scen', 'lincomb', dict(nb=nb, ns=ns, maxv=maxv, cplx=True, read=read))
    return sched.deep(n, lay, job, _judge(nb, ns, True, 'float', None, None), bound=bound, deviations=dev,
                      max_runs=30000)


def run(ck):
    import itertools
    q = ck.quick
    cs = []
    for n in range(1, 6 if q else 8):
        for lay in (['one', 'each', 'two', 'uneven'] if n > 1 else ['one']):
            if lay in ('two', 'uneven') and n == 2:
                continue
            for maxv in sched.minmaxv(n, lay)[:None if not q or lay == 'one' else 2]:
                for nb in range(1, 6 if q else 9):
                    for ns in range(1, 8 if q else 11):
                        if q and lay != 'one' and (nb + ns) % 2:
                            continue
                        cs.append(dict(n=n, lay=lay, nb=nb, ns=ns, maxv=maxv,
                                       data=['float', 'complex'][(nb + ns) % 2] if q else 'complex'))
    ck.domain('lin', cs)
    for n, nb, ns in ((1, 33, 65), (1, 70, 60), (1, 130, 2), (1, 1, 257), (2, 20, 33), (2, 65, 3), (3, 33, 20), (3, 2, 65)):
        for maxv in (1, 7, 1000):       # many vectors
            for d in ('float', 'complex'):
                cs.append(dict(n=n, lay='one', nb=nb, ns=ns, maxv=maxv, data=d))
    cc = []
    for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        for maxv in (1, 1000):
            for L in range(1, 4 if q else 5):
                for cols in itertools.product(range(3), repeat=L):
                    cc.append(dict(n=n, lay='one', nb=2, ns=L, maxv=maxv, data='complex', cols=list(cols), ncols=3))
            for a, b in ((0, 3), (1, 3), (0, 1), (2, 3)):
                cc.append(dict(n=n, lay='one', nb=3, ns=b - a, maxv=maxv, cols=[a, b], ncols=3, form='range'))
                cc.append(dict(n=n, lay='one', nb=3, ns=b - a, maxv=maxv, cols=list(range(a, b)), ncols=3, form='nparr'))
            for nb, ns, form in ((1, 3, '1d'), (3, 1, '1d'), (1, 1, '1d'), (2, 3, 'list'), (3, 2, 'list')):
                cc.append(dict(n=n, lay='one', nb=nb, ns=ns, maxv=maxv, form=form, verb=1))
            for nb, ns in ((1, 1), (2, 2), (3, 4), (4, 1)):
                for d, vk in (('int', 'arr'), ('i1', 'arr'), ('u2', 'obj'), ('mixed', 'arr'), ('mixed', 'obj'), ('mixedreal', 'arr'), ('float', 'obj'), ('inf', 'arr'), ('inf', 'obj')):
                    cc.append(dict(n=n, lay='one', nb=nb, ns=ns, maxv=maxv, data=d, vk=vk))
            for d in ('float', 'complex', 'mixed'):
                for e in ((-40, -20, 20) if q else range(-60, 61, 10)):
                    cc.append(dict(n=n, lay='one', nb=3, ns=4, maxv=maxv, data='%s*%d' % (d, e)))
    ck.domain('lin', cc)
    dp = []
    for n, nb, ns, maxv, b in ((2, 1, 2, 1, 1), (2, 3, 3, 1, 0), (3, 2, 4, 1, 0), (3, 4, 2, 1000, 0)) + (
            () if q else ((3, 3, 7, 1, 0), (4, 3, 4, 1, 0), (4, 5, 5, 1, 0), (2, 5, 7, 1, 0), (2, 2, 2, 1, 2))):
        for rd in (False, True):
            dp.append(dict(n=n, lay='one', nb=nb, ns=ns, maxv=maxv, bound=b, dev=1 if q else 2, read=rd))
    ck.domain('deep', dp, timeout=700, chunk=1)
