"""P01: parallel inner product arrays."""
import numpy as np
from mc import scen, sched
from mc.core import grid
from mc.num import close

RULE = 'entry (i,j) = user inner product of row i, column j; complete and identical on every worker'
BOUNDS = ('1..5 workers, node layouts one/each/two/uneven, 1..6 rows x 1..7 columns, up to 257 on few workers, memory limits giving 3,4,5 '
          'and many vectors per worker, real/complex/integer/mixed data, the same handles on both sides, precisions of magnitudes 2^-40..2^20 (2^-60..2^60), 4 schedule+delivery variants; DPOR, '
          'preemption-bounded and single-send delivery deviations on small sizes')


def _judge(nr, nc, cplx, dt, symm, zero=None, hid=0):
    rows = scen.data('r', scen.NST, nr, cplx, dt)
    cols = scen.data('c', scen.NST, nc, cplx, dt)
    if zero is not None:
        for z in zero:
            if z < nr:
                rows[z] = rows[z] * 0
            if z < nc:
                cols[z] = cols[z] * 0
    cols = {'same': rows, 'equal': rows, 'rev': rows[::-1], 'part': rows[:1] + cols}.get(hid, cols)
    ref = scen.ip_ref(rows, rows if symm else cols, scen.NST)
    f = 2. ** (2 * int(dt.split('*')[1])) if '*' in dt else 1

    def judge(res):
        for r, o in enumerate(res.results):
            m = close(np.asarray(o['out']) / f, ref / f, 1e-12, 'inner product array on rank %d' % r)
            if m:
                return m
            if res.puts:
                return 'an input handle was written'
        d = sched.same_on_all([o['out'] for o in res.results])
        if d:
            return 'ranks %s return a different array' % d
        return ''
    return judge


def case_ip(n, lay, nr, nc, maxv, data='float', symm=False, vk='arr', zero=None, hid=0, verb=0):
    cplx = data.split('*')[0] in ('complex', 'mixed')
    dt = data.replace('complex', 'float')
    job = ('mc.scen', 'inner', dict(nr=nr, nc=nc, maxv=maxv, cplx=cplx, dt=dt, vk=vk, symm=symm, zero=zero, hid=hid,
                                    verbosity=verb))
    return sched.sweep(n, lay, job, _judge(nr, nc, cplx, dt, symm, zero, hid))


def case_deep(n, lay, nr, nc, maxv, symm=False, bound=1, dev=1):
    job = ('mc.scen', 'inner', dict(nr=nr, nc=nc, maxv=maxv, cplx=True, symm=symm))
    return sched.deep(n, lay, job, _judge(nr, nc, True, 'float', symm), bound=bound, deviations=dev, max_runs=30000)


def run(ck):
    q = ck.quick
    R = range(1, 5) if q else range(1, 8)
    C = range(1, 6) if q else range(1, 10)
    cs, sy = [], []
    for n in range(1, 6 if q else 8):
        for lay in (['one', 'each', 'two', 'uneven'] if n > 1 else ['one']):
            if lay == 'two' and n == 2 or lay == 'uneven' and n == 2:
                continue
            for maxv in sched.minmaxv(n, lay)[:None if not q or lay == 'one' else 2]:
                for nr in R:
                    for nc in C:
                        if q and lay != 'one' and (nr + nc) % 2:
                            continue
                        cs.append(dict(n=n, lay=lay, nr=nr, nc=nc, maxv=maxv,
                                       data=['float', 'complex'][(nr + nc) % 2] if q else 'complex'))
                for nv in range(1, 10 if q else 14):
                    sy.append(dict(n=n, lay=lay, nr=nv, nc=1, maxv=maxv, data='complex', symm=True))
    ck.domain('ip', cs)
    ck.domain('ip', sy)
    ex = []
    # many vectors
    for n, nr, nc in ((1, 33, 65), (1, 70, 60), (1, 130, 2), (1, 1, 257), (2, 20, 33), (2, 65, 3), (3, 33, 20), (3, 2, 65)):
        for maxv in (1, 7, 1000):
            for d in ('float', 'complex'):
                ex.append(dict(n=n, lay='one', nr=nr, nc=nc, maxv=maxv, data=d))
    ex += [dict(n=n, lay='one', nr=nv, nc=1, maxv=maxv, data=d, symm=True) for n, nv in ((1, 65), (1, 130), (2, 33), (3, 34))
           for maxv in (1, 7, 1000) for d in ('float', 'complex')]
    for n in (1, 2, 3):
        for maxv in (1, 1000):
            for nr, nc in ((1, 1), (2, 3), (3, 2), (1, 4), (4, 4)):
                for d, vk in (('int', 'arr'), ('prec', 'arr'), ('mixed', 'arr'), ('mixed', 'obj'), ('float', 'obj')):
                    for symm in (False, True):
                        ex.append(dict(n=n, lay='one', nr=nr, nc=nc, maxv=maxv, data=d, vk=vk, symm=symm, verb=1))
                for z in ([0], [1], [0, 1]):
                    for symm in (False, True):
                        ex.append(dict(n=n, lay='one', nr=nr, nc=nc, maxv=maxv, data='complex', symm=symm, zero=z))
            ex.append(dict(n=n, lay='one', nr=1, nc=3, maxv=maxv, data='complex', hid=1))
            ex += [
                dict(n=n, lay='one', nr=nr, nc=nc, maxv=maxv, data=d, hid=x) for x in ('same', 'equal', 'rev', 'part') for nr in (1, 2, 3, 5, 8)
                for nc in ((1, 4) if x == 'part' else (1,)) for d in ('float', 'complex', 'int')]
            for d in ('float', 'complex', 'mixed'):
                for e in ((-40, -20, -10, 20) if q else range(-60, 61, 10)):
                    for symm in (False, True):
                        ex.append(dict(n=n, lay='one', nr=3, nc=4, maxv=maxv, data='%s*%d' % (d, e), symm=symm))
    ck.domain('ip', ex)
    dp = []
    for n, nr, nc, maxv in ((2, 1, 2, 1), (2, 3, 3, 1), (3, 2, 3, 1), (3, 4, 4, 1000)) + (
            () if q else ((3, 3, 5, 1), (4, 3, 4, 1), (4, 5, 5, 1), (2, 7, 7, 1))):
        for symm in (False, True):
            dp.append(dict(n=n, lay='one', nr=nr, nc=nc, maxv=maxv, symm=symm,
                           bound=1 if n == 2 and (nr < 2 or not q) else 0, dev=1 if q else 2))
    ck.domain('deep', dp, timeout=700, chunk=1)
