"""P03: no deadlock, hang or stray message."""
import itertools
from mc import scen, sched

RULE = ('every worker terminates under eager and rendezvous delivery (and every single-send deviation), weak and '
        'strong collectives, with no unmatched message or unfinished request left')
BOUNDS = ('all parallel operations x 1..5 workers x layouts x memory limits x problem sizes around the chunk '
          'boundaries, 12 vectors (33 and 101 derivatives); all ordered pairs of operations chained; all delivery modes with one deviating send on small '
          'configurations, preemption bound 1 with 2 workers')


def judge(res):
    if res.leftover:
        return 'left over: ' + '; '.join(res.leftover[:3])
    return ''


VARS = [dict(prefer='low'), dict(prefer='high'), dict(prefer='low', modes=sched.SYNC),
        dict(prefer='high', modes=sched.SYNC, strong=True)]


def case_op(n, lay, fn, kw):
    return sched.sweep(n, lay, ('mc.scen', fn, kw), judge, VARS)


def case_dev(n, lay, fn, kw, bound=None, dev=1):
    return sched.deep(n, lay, ('mc.scen', fn, kw), judge, bound=bound, deviations=dev, dpor=False)


def case_chain(n, ops, maxv):
    return sched.sweep(n, 'one', ('mc.scen', 'sequence', dict(ops=ops, maxv=maxv)), judge, VARS)


REDS = [['reduce', 'arr', 0, 0], ['allreduce', 'arr', None, 1], ['scan', 'cat', None, 0], ['exscan', 'cat', None, 0],
        ['reduce', 'cat', 1, 0], ['allreduce', 'MAXLOC', None, 0]]


def run(ck):
    q = ck.quick
    cs = []
    for n in range(1, 6 if q else 8):
        lays = ['one', 'each', 'uneven'] if n > 2 else ['one']
        for lay in lays:
            for maxv in sched.minmaxv(n, lay)[:3] + [1000]:
                for k in sorted(set([1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n])):
                    if k < 1:
                        continue
                    for f, kw in (('inner', dict(nr=k, nc=max(1, k - 1), maxv=maxv)),
                                  ('inner', dict(nr=max(1, k // 2), nc=k, maxv=maxv)),
                                  ('inner', dict(nr=k, nc=1, maxv=maxv, symm=True)),
                                  ('lincomb', dict(nb=k, ns=max(1, k - 1), maxv=maxv, read=False)),
                                  ('lincomb', dict(nb=max(1, k // 2), ns=k, maxv=maxv, read=False))):
                        cs.append(dict(n=n, lay=lay, fn=f, kw=kw))
                if maxv in (1, 1000) and (lay == 'one' or not q):
                    for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq'):
                        for nv in (2, 3, 5):
                            cs.append(dict(n=n, lay=lay, fn='pipeline', kw=dict(
                                kind=kind, nv=nv, maxv=maxv, ops=['modes', 'coeffs', 'puts', 'cputs', 'gets', 'cgets'],
                                read=False)))
                    for nb in (1, 2, 4):
                        cs.append(dict(n=n, lay=lay, fn='galerkin', kw=dict(nb=nb, maxv=maxv, read=False)))
        for nv in range(1, 2 * n + 2):
            cs.append(dict(n=n, lay='one', fn='derivs', kw=dict(nv=nv, read=False)))
        for r in REDS:
            if r[2] is None or r[2] < n:
                cs.append(dict(n=n, lay='one', fn='reduction', kw=dict(calls=[r, r])))
    seen, u = set(), []
    for c in cs:
        if repr(c) not in seen:
            seen.add(repr(c))
            u.append(c)
    ck.domain('op', u, timeout=200)
    dv = []
    for n in (2, 3) if q else (2, 3, 4):
        for f, kw in (('inner', dict(nr=2, nc=3, maxv=1)), ('inner', dict(nr=4, nc=1, maxv=1, symm=True)),
                      ('inner', dict(nr=3 * n + 1, nc=1, maxv=1, symm=True)),
                      ('lincomb', dict(nb=3, ns=2, maxv=1, read=False)),
                      ('derivs', dict(nv=2, read=False)),
                      ('galerkin', dict(nb=1, ni=1, no=1, read=False)),
                      ('pipeline', dict(kind='pod', nv=2, maxv=1, ops=['modes', 'puts', 'gets'], read=False)),
                      ('reduction', dict(calls=REDS))):
            dv.append(dict(n=n, lay='one', fn=f, kw=kw, dev=1 if q else 2))
    for f, kw in (('inner', dict(nr=1, nc=2, maxv=1)), ('inner', dict(nr=3, nc=1, maxv=1, symm=True)),
                  ('lincomb', dict(nb=2, ns=1, maxv=1, read=False)), ('reduction', dict(calls=REDS[:4]))):
        dv.append(dict(n=2, lay='one', fn=f, kw=kw, bound=1, dev=0))
    ck.domain('dev', dv, timeout=600, chunk=1)
    names = ['ip', 'symm', 'lin', 'derivs', 'pod', 'dmd', 'gal', 'allred', 'bcast']
    ch = []
    for n in (2, 3) if q else (2, 3, 4):
        for L in (2,) if q else (2, 3):
            for ops in itertools.product(names, repeat=L):
                ch.append(dict(n=n, ops=list(ops), maxv=1))
    ck.domain('chain', ch, timeout=200)
    ck.domain('op', [dict(n=n, lay='one', fn='pipeline', kw=dict(kind=k, nv=12, maxv=x, ops=[
        'modes', 'coeffs', 'puts', 'cputs', 'gets', 'cgets'], read=False)) for n, x in ((2, 6), (3, 1000)) for k in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq')] +
        [dict(n=n, lay='one', fn='derivs', kw=dict(nv=v, read=False)) for n in (2, 3) for v in (33, 101)], timeout=300, chunk=1)
