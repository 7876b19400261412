"""D03: DMD array functions satisfy the definition of DMD."""
import numpy as np
from mc import serial, ref, mag
from mc.ref import H
from mc.num import mat

RULE = ('leading eigenpairs of X* W X; biorthonormal eigenpairs of the projected map; projected, exact and adjoint modes, '
        'projection and spectral coefficients recomputed from data and returned eigenpairs; both methods and both input '
        'forms agree up to order and phase')
BOUNDS = ('state sizes 1..5 (8) and up to 501, 1..5 and up to 257 pairs, exact linear data / generic pairs / every rank / maps with repeated or zero eigenvalues / advanced data equal or related to the data in 13 ways, real/complex/integer, weights '
          'none/1D/list/2D/2D complex, truncation between all neighbouring components by atol, rtol, max_num_eigvals; units 2**-60..2**60; '
          'rank-deficient data in units that lift rounding errors above the tolerance')


# repeated eigenvalues: scalar dynamics, a reflection, two pairs, equal rotations
REP = {'scal': (0, 0, 0, 0), 'refl': (0, 0, 1, 0), 'pairs': (0, 1, 0, 1), 'rots': (0, 0, 0, 0)}


# advanced data that are related to the data
REL = {'is': lambda X: X, 'same': lambda X: X.copy(), 'neg': lambda X: -X, 'conj': np.conj, 'cols': lambda X: X[:, ::-1].copy(),
       'abs': np.abs, 'roll': lambda X: np.roll(X, 1, axis=1), 'rows': lambda X: X[::-1].copy(), 'phase': lambda X: X * np.exp(0.7j),
       'rowneg': lambda X: X * np.where(np.arange(len(X)) % 2, -1, 1)[:, None], 'first': lambda X: X + 0.5 * X[:, :1],
       'orth': lambda X: np.linalg.qr(X)[0].dot(np.eye(min(X.shape), X.shape[1])), 'sum': lambda X: np.cumsum(X, axis=1)}


def rep(kind):
    return 'zero' if kind == 'zero' else kind in REP or kind[:4] == 'rel-'


def data(n, k, kind, cplx, rank):
    """X, Y (paired) or a sequence of k + 1 vectors."""
    A = mat(n, n, cplx, 32) * 0.8 + np.diag(0.3 * np.arange(1, n + 1))
    if kind == 'seq':
        v = [mat(n, 1, cplx, 33)[:, 0]]
        for _ in range(k):
            v.append(A.dot(v[-1]))
        return np.array(v).T, None
    if kind == 'seqgen':
        return mat(n, k + 1, cplx, 53), None
    X = ref.rank_mat(n, k, cplx, rank, 7)
    if kind == 'zero':
        m = min(n, k)
        M = mat(m, m, cplx, 32) * 0.8 + np.diag(0.3 * np.arange(1, m + 1))
        M[:, 0] = M[:, 1:].sum(axis=1)
        return X, (M.dot(X) if n <= k else X.dot(M))
    if kind in REP:
        v = np.array([(0.9, -0.5)[REP[kind][i % 4]] for i in range(n)]) * ((0.6 + 0.8j) if cplx else 1)
        S = mat(n, n, cplx, 8, 'orth') if kind == 'refl' and n > 1 else mat(n, n, cplx, 4) + 2 * np.eye(n)
        if kind == 'rots':
            M = np.kron(np.eye(n), [[0.5, 1], [-1, 0.5]])[:n, :n]
            return X, S.dot(M).dot(np.linalg.inv(S)).dot(X)
        return X, (S * v).dot(np.linalg.inv(S)).dot(X)
    if kind[:4] == 'rel-':
        return X, REL[kind[4:]](X)
    if kind == 'map':
        return X, A.dot(X)
    if kind == 'int':
        return (np.round(3 * mat(n, k, False, 54)) + np.eye(n, k)).astype(int), (np.round(3 * mat(n, k, False, 55))).astype(int)
    return X, mat(n, k, cplx, 34)


def truncs(g, direct):
    """Name -> (atol, rtol, max, kept) for all neighbouring components."""
    g = np.abs(np.asarray(g))
    g = g[g > 1e-9 * g.max()] if g.size and g.max() > 1e-12 else g[:0]
    v = g ** .5 if direct else g
    lo = 1e-6 if direct else 1e-10
    out = {'full': (lo, None, None, len(v))}
    gap = [i for i in range(1, len(v)) if g[i - 1] / g[i] > 1.2]
    if len(v) > 9:
        gap = gap[:2] + gap[-1:]
    for i in gap:
        t = float(np.sqrt(v[i - 1] * v[i]))
        out['a%d' % i], out['r%d' % i], out['m%d' % i] = (t, None, None, i), (lo, t / float(v[0]), None, i), (lo, None, i, i)
    if 1 in gap and 2 in gap:
        t = float(np.sqrt(v[1] * v[2]))
        out['x1'] = (t, t / float(v[0]), 1, 1)
        out['x2'] = (t, None, 5, 2)
        out['x3'] = (float(np.sqrt(v[0] * v[1])), t / float(v[0]), 2, 1)
    return out


def case_dmd(n, k, kind, cplx, rank, w):
    m = serial.modred()
    wa, W = ref.wkinds(w, n)
    vecs, adv = data(n, k, kind, cplx, rank)
    X, Y = (vecs[:, :-1], vecs[:, 1:]) if adv is None else (vecs, adv)
    G = H(X).dot(W).dot(X)
    g = np.linalg.eigvalsh(0.5 * (G + H(G)))[::-1]
    out, ks, ag = [], 0, 0
    res = {}
    for meth in ('snaps', 'direct'):
        f = getattr(m, 'compute_DMD_arrays_%s_method' % meth)
        for j, (atol, rtol, mx, kept) in truncs(g, meth == 'direct').items():
            if not ref.good_map(X, Y, W, kept, rep(kind)):
                continue
            kw = dict(inner_product_weights=wa, atol=atol, rtol=rtol, max_num_eigvals=mx)
            p = f(vecs, adv_vecs=adv, **kw)
            ks += 1
            lab = '%s atol %.3g rtol %s max %s: ' % (meth, atol, rtol, mx)
            out += [lab + q for q in ref.dmd(p, X, Y, W, kept, arrays=meth == 'snaps')]
            if adv is None and not out:
                out += [lab + 'sequence and pairs differ: ' + q for q in ref.dmd_agree(p, f(X, adv_vecs=Y, **kw))]
            res[meth, j] = p
            if out:
                return out
            if meth == 'direct' and ('snaps', j) in res:
                ag += 1
                out += [lab + 'methods differ: ' + q for q in ref.dmd_agree(res['snaps', j], p, rep=rep(kind))]
    return out, {'states': ks, 'compared': ag}


def cases(q, N):
    cs = []
    for n in N:
        for k in N:
            for w in ('none', '1d', 'list', '2d', '2dc'):
                for cplx in (False, True):
                    for kind in ('seq', 'seqgen', 'int'):
                        if not (kind == 'int' and cplx):
                            cs.append(dict(n=n, k=k, kind=kind, cplx=cplx, rank=0, w=w))
                    for kind in ('map', 'gen', 'zero') + tuple(REP) + tuple('rel-' + x for x in REL):
                        for rank in range(1, min(n, k) + 1):
                            cs.append(dict(n=n, k=k, kind=kind, cplx=cplx, rank=rank, w=w))
    # more states than the size at which the weighted methods warn
    cs += [dict(n=n, k=k, kind=kind, cplx=cplx, rank=rank, w=w) for n, k, rank in
           ((70, 40, 20), (5, 130, 5), (130, 5, 5), (3, 101, 2), (33, 33, 15), (130, 129, 12), (4, 257, 4))
           for w in ('none', '1d', '2d') for cplx in (False, True) for kind in ('seqgen', 'map', 'gen')]
    return cs + [dict(n=n, k=3, kind=kind, cplx=cplx, rank=3 * (kind == 'gen'), w=w) for n in (500, 501)
                 for w in ('none', '1d', '2d', '2dc') for cplx in (False, True) for kind in ('seqgen', 'gen')]


case_mag = mag.case_mag
case_noise = mag.case_noise


def run(ck):
    ck.domain('dmd', cases(ck.quick, range(1, 6 if ck.quick else 9)))
    ck.domain('mag', mag.cases('dmd', ck.quick))
    ck.domain('noise', mag.noise_cases('dmd'))
