"""D01: POD array functions satisfy the definition of POD."""
import itertools
import numpy as np
from mc import serial, ref, mag
from mc.ref import H
from mc.num import close, nz, mat

RULE = ('both methods: descending leading eigenvalues of X* W X, orthonormal modes = X U E^-1/2, projection coefficients = '
        'modes* W X, modes times coefficients = orthogonal projection of X; equal between methods up to phases')
BOUNDS = ('state sizes 1..5 (7) and up to 501, 1..6 and up to 257 vectors, every rank, real/complex/integer data, weights none/1D/list/2D real/2D complex, '
          'tolerances between all neighbouring eigenvalues, memory layouts, repeated eigenvalues; units 2**-60..2**60; rank-deficient data in units that lift '
          'rounding errors above the tolerance')


LARGE = [(70, 60, 60), (60, 70, 30), (5, 130, 5), (130, 5, 5), (3, 101, 2), (33, 33, 20), (130, 129, 40), (4, 257, 4)]


def _data(n, k, kind, rank):
    if kind == 'int':
        a = np.round(4 * mat(n, k, False, 5)).astype(int)
        return a
    if kind == 'equal':                     # repeated eigenvalues (non-unique eigenvectors)
        return ref.rank_mat(n, k, True, rank, sv=[1.] * 10)
    a = ref.rank_mat(n, k, kind[0] == 'c', rank)
    if kind[1:] == 'F':
        return np.asfortranarray(a)
    if kind[1:] == 's':
        b = np.zeros((2 * n, 2 * k), a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    if kind[1:] == 'l':
        return a.tolist()
    return a


def _run(m, meth, X, w, **kw):
    f = {'snaps': m.compute_POD_arrays_snaps_method, 'direct': m.compute_POD_arrays_direct_method}[meth]
    return f(X, inner_product_weights=w, **kw)


def case_pod(n, k, kind, rank, w):
    m = serial.modred()
    Xin = _data(n, k, kind, rank)
    X = np.array(Xin)
    wa, W = ref.wkinds(w, n)
    G = H(X).dot(W).dot(X)
    ev = np.linalg.eigvalsh(0.5 * (G + H(G)))
    r = int((ev > 1e-9 * max(ev.max(), 1e-30)).sum()) if ev.max() > 1e-12 else 0
    out, res = [], {}
    for meth, atol in (('snaps', 1e-10), ('direct', 1e-6)):
        p = _run(m, meth, Xin, wa, atol=atol)
        res[meth] = p
        if meth == 'snaps':
            out += nz(close(p.correlation_array, G, 1e-12, 'correlation array'))
        out += ['%s: %s' % (meth, q) for q in ref.pod(X, W, p.eigvals, p.modes, p.proj_coeffs, p.eigvecs, r)]
        if not out:
            out += nz(close(p.modes.dot(p.proj_coeffs), X, 1e-8, meth + ': projection of the data'))
    if not out and kind != 'equal' and r:
        a, b = res['snaps'], res['direct']
        e = a.eigvals
        if len(e) < 2 or (np.abs(np.diff(e)) > 1e-3 * e[0]).all():
            out += nz(close(a.eigvals, b.eigvals, 1e-8, 'eigenvalues of both methods'),
                      ref.same_up_to_phase(a.modes, b.modes, 1e-6, 'modes of both methods'))
    return out


def case_trunc(n, k, cplx, w, cut, rel, meth):
    """Tolerance between eigenvalues (singular values) number cut and cut + 1."""
    m = serial.modred()
    X = ref.rank_mat(n, k, cplx, min(n, k))
    wa, W = ref.wkinds(w, n)
    full = _run(m, meth, X, wa, atol=1e-12)
    v = full.eigvals if meth == 'snaps' else full.eigvals ** .5
    t = np.sqrt(v[cut - 1] * v[cut]) if cut < len(v) else 0.5 * v[-1]
    kw = dict(atol=t) if not rel else dict(atol=1e-12, rtol=t / v[0])
    p = _run(m, meth, X, wa, **kw)
    out = ref.pod(X, W, p.eigvals, p.modes, p.proj_coeffs, p.eigvecs, cut)
    if not out:
        P = p.modes.dot(H(p.modes)).dot(W)
        out += nz(close(p.modes.dot(p.proj_coeffs), P.dot(X), 1e-8, 'projection of the data'),
                  close(p.eigvals, full.eigvals[:cut], 1e-12, 'kept eigenvalues'),
                  ref.same_up_to_phase(p.modes, full.modes[:, :cut], 1e-7, 'kept modes'))
    return out


case_mag = mag.case_mag
case_noise = mag.case_noise


def run(ck):
    q = ck.quick
    cs, tr = [], []
    N = range(1, 6 if q else 8)
    for n in N:
        for k in range(1, 6 if q else 8):
            for w in ('none', '1d', 'list', '2d', '2dc', 'int', '2dlist'):
                for kind in ('r', 'c', 'int', 'equal', 'cF', 'rs', 'cl'):
                    for rank in range(0, min(n, k) + 1) if kind != 'int' else [0]:
                        cs.append(dict(n=n, k=k, kind=kind, rank=rank, w=w))
                for meth in ('snaps', 'direct'):
                    for cut in range(1, min(n, k) + 1):
                        for cplx in (False, True):
                            for rel in (False, True):
                                tr.append(dict(n=n, k=k, cplx=cplx, w=w, cut=cut, rel=rel, meth=meth))
    # more states than the size at which the weighted methods warn
    cs += [dict(n=n, k=3, kind=kind, rank=rank, w=w) for n in (500, 501) for w in ('none', '1d', '2d', '2dc')
           for kind in ('r', 'c') for rank in (2, 3)]
    # many vectors
    cs += [dict(n=n, k=k, kind=kind, rank=rank, w=w) for n, k, rank in LARGE for w in ('none', '1d', '2d')
           for kind in ('r', 'c')]
    ck.domain('pod', cs)
    ck.domain('trunc', tr)
    ck.domain('mag', mag.cases('pod', q))
    ck.domain('noise', mag.noise_cases('pod'))
