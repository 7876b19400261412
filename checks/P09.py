"""P09: clock readings and verbosity never influence results."""
import itertools
from mc import scen, sched
from mc.num import close

RULE = ('for every combination of clock behaviours on the workers (constant, advancing, jumping backwards, every '
        'periodic advance/stand-still pattern) and every verbosity the results, stored vectors and termination are '
        'those of the run with constant clocks and verbosity 0')
BOUNDS = ('1..4 workers; clock policy product {const, jump, back}^n and all advance patterns of period <= 3 (quick) / 4 '
          'per worker, unequal steps of 1 and 50 with period <= 4; verbosity 0,1,2; inner products, symmetric products, linear combinations, 6 decompositions')
_REF = {}


def _flat(o):
    d = {}
    for k, v in o.items():
        if k in ('live', 'gets', 'xgets', 'mvp'):
            continue
        d[k] = v
    return d


def _cmp(a, b, what):
    if isinstance(b, dict):
        if set(a) != set(b):
            return '%s: different results %s' % (what, sorted(set(a) ^ set(b)))
        for k in b:
            m = _cmp(a[k], b[k], '%s %s' % (what, k))
            if m:
                return m
        return ''
    if isinstance(b, (list, tuple)) and not (b and isinstance(b[0], (int, float, complex))):
        if len(a) != len(b):
            return '%s: %d instead of %d' % (what, len(a), len(b))
        for x, y in zip(a, b):
            m = _cmp(x, y, what)
            if m:
                return m
        return ''
    if b is None or isinstance(b, (str, bool)):
        return '' if a == b else '%s: %r instead of %r' % (what, a, b)
    return close(a, b, 1e-9, what)


def _reference(n, lay, fn, kw):
    k = (n, lay, fn, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if k not in _REF:
        if len(_REF) > 200:
            _REF.clear()
        k2 = dict(kw, verbosity=0)
        r = sched.cluster(n, lay).run(('mc.scen', fn, k2), prefer='low')
        _REF[k] = r
    return _REF[k]


def case_clock(n, lay, fn, kw, clocks):
    ref = _reference(n, lay, fn, kw)
    if sched.bad_end(ref):
        return sched.bad_end(ref)
    rp = {}
    for _, k, v in ref.puts:
        rp.setdefault(k, []).append(sched.decode(v))

    def judge(res):
        for r in range(n):
            m = _cmp(_flat(res.results[r]), _flat(ref.results[r]), 'rank %d' % r)
            if m:
                return m
        p = {}
        for _, k, v in res.puts:
            p.setdefault(k, []).append(sched.decode(v))
        return _cmp(p, rp, 'stored')
    job = ('mc.scen', fn, kw, [tuple(c) for c in clocks])
    return sched.sweep(n, lay, job, judge, sched.VARIANTS[:1])


def run(ck):
    q = ck.quick
    ops = [('inner', dict(nr=2, nc=5)), ('inner', dict(nr=5, nc=3)), ('inner', dict(nr=7, nc=1, symm=True)),
           ('inner', dict(nr=1, nc=1)), ('inner', dict(nr=1, nc=1, symm=True)),
           ('lincomb', dict(nb=3, ns=5)), ('lincomb', dict(nb=1, ns=1)), ('lincomb', dict(nb=5, ns=2))]
    pol = (['const'], ['jump'], ['back'])
    per = 3 if q else 4
    bits = [['bits', list(b)] for L in range(2, per + 1) for b in itertools.product((0, 1), repeat=L)
            if 0 < sum(b) < L]
    cs = []
    for fn, kw in ops:
        for n in range(1, 4 if q else 5):
            for maxv in (1, 1000):
                for v in (0, 1, 2):
                    prod = itertools.product(pol, repeat=n)
                    for cl in prod:
                        if q and n == 3 and v == 2:
                            continue
                        cs.append(dict(n=n, lay='one', fn=fn, kw=dict(kw, maxv=maxv, verbosity=v), clocks=list(cl)))
                for a in bits:
                    for b in (bits if n == 2 or not q else [['const'], ['jump']]):
                        if n == 1 and b != bits[0] and b != ['const']:
                            continue
                        cl = [a, b, ['jump'], ['back']][:n]
                        cs.append(dict(n=n, lay='one', fn=fn, kw=dict(kw, maxv=maxv, verbosity=1), clocks=cl))
    # readings that advance by unequal steps, chunks of medium size
    steps = [['bits', list(b)] for L in range(2, 5) for b in itertools.product((1, 50), repeat=L) if len(set(b)) > 1]
    for fn, kw in (('inner', dict(nr=9, nc=9)), ('inner', dict(nr=9, nc=1, symm=True)), ('lincomb', dict(nb=3, ns=19))):
        for n in (2, 3):
            for maxv in (5 * n,) if q else (4 * n, 5 * n, 8 * n):
                for a in steps:
                    for b in (['const'], ['jump'], ['bits', a[1][1:] + a[1][:1]]):
                        for cl in ([a, b, b][:n], [b, a, a][:n]):
                            cs.append(dict(n=n, lay='one', fn=fn, kw=dict(kw, maxv=maxv, verbosity=1), clocks=cl))
    seen, out = set(), []
    for c in cs:
        k = str(sorted(c.items(), key=str))
        if k not in seen:
            seen.add(k)
            out.append(c)
    ck.domain('clock', out)
    cs = []
    for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq'):
        for n in (1, 2, 3):
            for v in (0, 1):
                for cl in itertools.product(pol, repeat=n):
                    if q and n == 3 and len(set(map(str, cl))) == 1:
                        continue
                    cs.append(dict(n=n, lay='one', fn='pipeline', clocks=list(cl), kw=dict(
                        kind=kind, nv=3, maxv=1, cplx=True, verbosity=v, ops=['modes', 'coeffs', 'puts', 'gets'])))
    for n in (1, 2, 3):
        for v in (0, 1):
            for cl in itertools.product(pol, repeat=n):
                cs.append(dict(n=n, lay='one', fn='galerkin', clocks=list(cl), kw=dict(nb=3, maxv=1, verbosity=v)))
    ck.domain('clock', cs)
