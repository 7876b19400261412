"""V05: results follow the units of the data."""
from mc import mag
from checks import E02, E04, E05, E06, E07

RULE = ('data (or weights) multiplied by a power of two, with tolerances that are multiplied alike, give the same number of '
        'components, eigenvalues, singular values, coefficients and modes multiplied by the power they have in the definition; '
        'likewise identification, projection, balanced truncation and factorisations with each signal in its own unit')
BOUNDS = ('POD, BPOD, DMD, total-least-squares DMD by arrays (both methods) and handles x 6 shapes x sequential/paired x '
          'real/complex x weights none/1D/2D x factors 2^-30..2^24 (2^-60..2^60) of the data or (twice the exponent) the weights x truncation; ERA, '
          'OKID, Galerkin projection, balanced truncation, SVD, eigh, eig_biorthog in the sizes of their checks')

case_mag = mag.case_mag
case_okid = E04.case_units
case_era = E02.case_units
case_weak = E07.case_weak
case_fact = E06.case_mag
case_galerkin = E05.case_arrays
case_galerkin_handles = E05.case_handles


def run(ck):
    q = ck.quick
    B = (False, True)
    cs = []
    for alg in ('pod', 'bpod', 'dmd', 'tls'):
        for hnd in B:
            for c in mag.cases(alg, q, hnd):
                cs += [c] + ([] if c.get('fix') else [dict(c, what='weights')])
    ck.domain('mag', cs)
    U = ([0, 0, 0], [-20, -20, -20], [15, 15, 15], [0, -6, 0], [3, -3, 5], [12, -12, 0])
    IO = (1, 2) if q else (1, 2, 3)
    ck.domain('okid', [dict(n=n, ni=i, no=o, cplx=c, dk=True, eu=a, ey=b) for n in (1, 2, 3) for i in IO for o in IO
                       for c in B for a in U for b in U if max(a[:i] + b[:o]) - min(a[:i] + b[:o]) <= 24])
    ck.domain('okid', [dict(n=n, ni=i, no=o, cplx=c, dk=True, eu=[a] * 3, ey=[b] * 3) for n in (1, 2, 3) for i in (1, 2, 3)
                       for o in (1, 2, 3) for c in B for a, b in ((0, -32), (-32, 0), (0, 30), (30, 0), (20, -12), (-40, -8))])
    ck.domain('era', [dict(n=n, ni=i, no=o, cplx=c, nt=t, eu=a, ey=b) for n in (1, 2, 3) for i in IO for o in IO
                      for c in B for t in (8, 12) for a in U for b in U])
    ck.domain('weak', [dict(n=n, ni=i, no=o, cplx=c, eps=1., mag=g) for n in (1, 2, 3, 4) for i in IO for o in IO
                       for c in B for g in (-20, -12, -6, 6, 12, 20)])
    ck.domain('fact', [dict(fn=f, m=m, n=n, kind=k, cplx=c, e=e) for f, kk in (
        ('svd', ('full', 'less')), ('eigh', ('any', 'pd', 'neg')), ('eig', ('gen', 'rot', 'herm'))) for k in kk
        for m in ((1, 2, 4) if f == 'svd' else (0,)) for n in (1, 2, 3, 4) for c in B
        for e in ((-50, -20, 20, 50) if q else range(-80, 81, 8))])
    for fn, kw in (('galerkin', dict(form='arr')), ('galerkin_handles', dict(vk='1d', maxv=1000))):
        ck.domain(fn, [dict(kw, ns=s, nb=b, ni=1, no=2, w=w, sym=y, orth=t, cb=c, cv=v, rel=r) for s in (1, 2, 4)
                       for b in range(1, s + 1) for w in ('none', '1d', '2dc') for y in B for t in B for c in B for v in B
                       for r in ('tiny', 'big')])
