"""P04: visibility after return and absence of races."""
from mc import scen, sched

RULE = ('no two accesses of one stored element (one of them a store) by different workers are unordered by '
        'happens-before, and after an operation returns on any worker everything it stores is readable')
BOUNDS = ('each storing operation x 2..5 workers x sizes around chunk boundaries and up to 101 vectors x 4 schedule/delivery variants; '
          'DPOR over accesses to stored elements and preemption bound 1..2 on small configurations')


def _missing(x, path=''):
    """Paths of None reads in a result."""
    if x is None:
        return [path]
    if isinstance(x, dict):
        return [p for k in x for p in _missing(x[k], '%s/%s' % (path, k))]
    if isinstance(x, (list, tuple)):
        return [p for i, v in enumerate(x) for p in _missing(v, '%s[%d]' % (path, i))]
    return []


def _final_reads(fn, res):
    """Everything read back equals what is finally stored."""
    return ''


def judge_for(fn):
    def judge(res):
        if res.races:
            return 'race on %s: %s by rank %d and %s by rank %d are unordered' % (
                res.races[0][0], res.races[0][2], res.races[0][1], res.races[0][4], res.races[0][3])
        for r, o in enumerate(res.results):
            o = {k: v for k, v in o.items() if k not in ('ret',)} if isinstance(o, dict) else o
            m = _missing(o)
            if m:
                return 'rank %d returns before %s is stored' % (r, m[0])
        d = sched.same_on_all([{k: v for k, v in o.items() if k in ('got',) or k[:2] in ('M:', 'P:') or k[:3] == 'LM:'}
                               for o in res.results])
        if d:
            return 'ranks %s read different data than rank 0' % d
        return ''
    return judge


def case_op(n, lay, fn, kw):
    return sched.sweep(n, lay, ('mc.scen', fn, kw), judge_for(fn))


def case_deep(n, fn, kw, bound=None, dev=-1):
    return sched.deep(n, 'one', ('mc.scen', fn, kw), judge_for(fn), bound=bound, deviations=dev, max_runs=20000)


def run(ck):
    q = ck.quick
    cs = []
    for n in range(2, 6 if q else 8):
        for lay in (['one', 'each'] if n > 2 else ['one']):
            for maxv in ((1, 1000) if q else sched.minmaxv(n, lay)):
                for ns in range(1, 2 * n + 2):
                    for nb in (1, n, 2 * n):
                        cs.append(dict(n=n, lay=lay, fn='lincomb', kw=dict(nb=nb, ns=ns, maxv=maxv)))
                if lay == 'one':
                    for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq'):
                        for nv in (2, 3) if q else (2, 3, 5):
                            cs.append(dict(n=n, lay=lay, fn='pipeline', kw=dict(
                                kind=kind, nv=nv, maxv=maxv, ops=['puts', 'modes', 'coeffs', 'cputs', 'gets', 'cgets'])))
                            cs.append(dict(n=n, lay=lay, fn='pipeline', kw=dict(kind=kind, nv=nv, maxv=maxv, ops=['each'])))
                    for nb in (1, 2, 4):
                        for orth in (False, True):
                            cs.append(dict(n=n, lay=lay, fn='galerkin', kw=dict(nb=nb, maxv=maxv, orth=orth)))
                            cs.append(dict(n=n, lay=lay, fn='galerkin', kw=dict(nb=nb, maxv=maxv, orth=orth, puts='each')))
        for nv in range(1, 2 * n + 2):
            cs.append(dict(n=n, lay='one', fn='derivs', kw=dict(nv=nv)))
    ck.domain('op', cs, timeout=200)
    dp = []
    for n in (2, 3) if q else (2, 3, 4):
        for fn, kw in (('lincomb', dict(nb=2, ns=3, maxv=1)), ('derivs', dict(nv=3)),
                       ('galerkin', dict(nb=1, ni=1, no=1)),
                       ('pipeline', dict(kind='pod', nv=2, maxv=1, ops=['puts', 'modes', 'coeffs', 'cputs', 'gets'])),
                       ('pipeline', dict(kind='bpod', nv=2, maxv=1, ops=['puts', 'coeffs', 'cputs'])),
                       ('pipeline', dict(kind='dmdseq', nv=3, maxv=1, ops=['puts', 'coeffs', 'cputs'])),
                       ('pipeline', dict(kind='tlsseq', nv=3, maxv=1, ops=['puts', 'coeffs', 'cputs']))):
            dp.append(dict(n=n, fn=fn, kw=kw, bound=0 if n == 2 or not q else None))
    dp.append(dict(n=2, fn='derivs', kw=dict(nv=2), bound=1 if q else 2))
    dp.append(dict(n=2, fn='lincomb', kw=dict(nb=1, ns=2, maxv=1), bound=1))
    ck.domain('deep', dp, timeout=600, chunk=1)
    ck.domain('op', [dict(n=n, lay='one', fn='pipeline', kw=dict(kind=k, nv=12, maxv=x, ops=[
        'puts', 'modes', 'coeffs', 'cputs', 'gets', 'cgets'])) for n, x in ((2, 6), (3, 1000)) for k in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq')] +
        [dict(n=n, lay='one', fn='derivs', kw=dict(nv=v)) for n in (2, 3) for v in (33, 101)] +
        [dict(n=n, lay='one', fn='lincomb', kw=dict(nb=b, ns=s, maxv=x)) for n, x in ((2, 6), (3, 1000))
         for b, s in ((12, 33), (33, 12), (2, 101), (101, 2))], timeout=300, chunk=1)
