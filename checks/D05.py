"""D05: handle-based decompositions equal the array-based ones."""
import numpy as np
from mc import serial, ref, mag, hand
from mc.ref import H
from mc.num import close, nz
from checks import D02, D03

RULE = ('the handle objects satisfy all relations of the definitions (D01..D04) with the data and agree with the array '
        'functions: eigenvalues, correlation and Hankel arrays, coefficients, modes up to a common phase per component')
BOUNDS = ('as D02/D03 with state sizes and numbers of vectors 1..4 and up to 130; inner products identity, diagonal, full, complex; '
          'vector objects 1D arrays, 2D arrays, user class, in-memory handles; per-node limits 2, 3 and none; truncation '
          'between all neighbouring components by every setting; units and rank-deficient data as D01, D03')


def _pairs(kind, A, B):
    """Common phases per component from the eigenvectors."""
    n = {'pod': 'eigvecs', 'bpod': 'R_sing_vecs'}[kind]
    a, b = np.asarray(getattr(A, n)), np.asarray(getattr(B, n))
    if a.shape != b.shape:
        return None
    p = (a.conj() * b).sum(axis=0)
    return p / np.where(np.abs(p) > 0, np.abs(p), 1)


def agree_ph(kind, A, B, tol=1e-6):
    p = _pairs(kind, A, B)
    if p is None:
        return ['different numbers of components']
    out = []
    for n in hand.DECOMP[kind][1:] + hand.MODES[kind]:
        out += nz(ref._c(np.asarray(getattr(A, n)) * p, getattr(B, n), tol, n + ' of handles and arrays'))
    for n in hand.COEFFS[kind]:
        out += nz(ref._c(np.asarray(getattr(A, n)) * p.conj()[:, None], getattr(B, n), tol, n + ' of handles and arrays'))
    for n in hand.DECOMP[kind][:1] + hand.ARRAYS[kind]:
        out += nz(ref._c(getattr(A, n), getattr(B, n), 1e-9, n + ' of handles and arrays'))
    return out


def sep(v):
    v = np.asarray(v)
    return len(v) < 2 or (v[:-1] / v[1:]).min() > 1.1


def case_pod(n, k, cplx, rank, w, vk, maxv):
    wa, W = ref.wkinds(w, n)
    X = ref.rank_mat(n, k, cplx, rank)
    G = H(X).dot(W).dot(X)
    g = np.linalg.eigvalsh(0.5 * (G + H(G)))[::-1]
    ks = 0
    for atol, rtol, mx, kept in D03.truncs(g, False).values():
        if mx is not None:
            continue
        kw = dict(atol=atol, rtol=rtol)
        o = hand.make('pod', W, maxv=maxv)
        ret = hand.decomp(o, 'pod', X, None, vk=vk, **kw)
        p = hand.result(o, 'pod', vk=vk)
        ks += 1
        out = ref.pod(X, W, p.eigvals, p.modes, p.proj_coeffs, p.eigvecs, kept)
        out += nz(close(ret[0], p.eigvals, 0, 'returned eigenvalues'), close(ret[1], p.eigvecs, 0, 'returned eigenvectors'),
                  close(p.correlation_array, G, 1e-10, 'correlation array'))
        if not out and sep(g[:kept]):
            out += agree_ph('pod', p, hand.arrays('pod', X, None, wa, **kw))
        if out:
            return ['atol %.3g rtol %s: %s' % (atol, rtol, q) for q in out]
    return '', {'states': ks}


def case_bpod(n, ni, no, td, ta, cplx, w, vk, maxv):
    wa, W = ref.wkinds(w, n)
    X, Y = D02.data(n, ni, no, td, ta, cplx, W)
    s = np.linalg.svd(H(Y).dot(W).dot(X), compute_uv=False)
    ks = 0
    for atol, rtol, mx, kept in D03.truncs(s, False).values():
        if mx is not None or not ref.gap_ok(s, atol, rtol):
            continue
        kw = dict(atol=atol, rtol=rtol)
        o = hand.make('bpod', W, maxv=maxv)
        ret = hand.decomp(o, 'bpod', X, Y, ni, no, vk=vk, **kw)
        p = hand.result(o, 'bpod', vk=vk)
        ks += 1
        out = D02.relations(p, X, Y, W, kept)
        for a, b in zip(ret, hand.DECOMP['bpod']):
            out += nz(close(a, getattr(p, b), 0, 'returned ' + b))
        if not out and sep(p.sing_vals):
            out += agree_ph('bpod', p, hand.arrays('bpod', X, Y, wa, ni=ni, no=no, **kw))
        if out:
            return ['atol %.3g rtol %s: %s' % (atol, rtol, q) for q in out]
    return '', {'states': ks}


def case_dmd(alg, n, k, kind, cplx, rank, w, vk, maxv):
    wa, W = ref.wkinds(w, n)
    vecs, adv = D03.data(n, k, kind, cplx, rank)
    X, Y = (vecs[:, :-1], vecs[:, 1:]) if adv is None else (vecs, adv)
    G, G2 = H(X).dot(W).dot(X), H(Y).dot(W).dot(Y)
    S = G + G2 if alg == 'tls' else G
    e, V = np.linalg.eigh(0.5 * (S + H(S)))
    e, V = e[::-1], V[:, ::-1]
    ks = 0
    for atol, rtol, mx, kept in D03.truncs(e, False).values():
        Xp, Yp, kept2 = X, Y, kept
        if alg == 'tls':
            if kept < len(e) and e[kept] > 0.9 * e[kept - 1]:
                continue
            P = V[:, :kept].dot(H(V[:, :kept]))
            Xp, Yp = X.dot(P), Y.dot(P)
            c = np.linalg.eigvalsh(H(Xp).dot(W).dot(Xp))[::-1]
            c = np.where(c > 1e-13, c, 0)
            if not ref.gap_ok(c[c > 0], atol, rtol):
                continue
            kept2 = ref.count(c, atol, rtol, mx)
        if not ref.good_map(Xp, Yp, W, kept2, D03.rep(kind)):
            continue
        kw = dict(atol=atol, rtol=rtol, max_num_eigvals=mx)
        o = hand.make(alg, W, maxv=maxv)
        ret = hand.decomp(o, alg, vecs, adv, vk=vk, **kw)
        p = hand.result(o, alg, vk=vk)
        ks += 1
        out = []
        if alg == 'dmd':
            out += ref.dmd(p, X, Y, W, kept)
        else:
            se, sv = p.sum_correlation_array_eigvals, p.sum_correlation_array_eigvecs
            if se.shape != (kept,):
                out.append('%s components of the sum kept instead of %d' % (se.shape, kept))
            else:
                out += nz(ref._c(se, e[:kept], 1e-9, 'sum eigenvalues'), ref._c(sv.dot(H(sv)), P, 1e-7, 'sum eigenvectors'))
            out += nz(ref._c(o.sum_correlation_array, S, 1e-9, 'sum correlation array'),
                      ref._c(o.proj_correlation_array, H(Xp).dot(W).dot(Xp), 1e-7, 'projected correlation array'),
                      ref._c(p.correlation_array, G, 1e-10, 'correlation array'),
                      ref._c(p.cross_correlation_array, H(X).dot(W).dot(Y), 1e-10, 'cross correlation array'),
                      ref._c(p.adv_correlation_array, G2, 1e-10, 'advanced correlation array'))
            out += ref.dmd(p, Xp, Yp, W, kept2, 1e-6, 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs')
        for a, b in zip(ret, hand.DECOMP[alg]):
            out += nz(close(a, getattr(p, b), 0, 'returned ' + b))
        if not out:
            a = hand.arrays(alg, vecs, adv, wa, **kw)
            out += ref.dmd_agree(p, a, rep=D03.rep(kind))
            for q in hand.ARRAYS[alg] + (['correlation_array_eigvals'] if alg == 'dmd' else
                                         ['sum_correlation_array_eigvals', 'proj_correlation_array_eigvals']):
                out += nz(ref._c(getattr(p, q), getattr(a, q), 1e-9, q + ' of handles and arrays'))
        if out:
            return ['atol %.3g rtol %s max %s: %s' % (atol, rtol, mx, q) for q in out]
    return '', {'states': ks}


case_mag = mag.case_mag
case_noise = mag.case_noise


def run(ck):
    q = ck.quick
    po, bp, dm = [], [], []
    N = range(1, 5 if q else 7)
    VK = [('1d', None), ('2d', 2), ('obj', 3), ('mem', None)]
    for cplx in (False, True):
        for w in ('none', '1d', '2d', '2dc'):
            for vk, maxv in VK:
                for n in N:
                    for k in N:
                        for rank in range(1, min(n, k) + 1):
                            po.append(dict(n=n, k=k, cplx=cplx, rank=rank, w=w, vk=vk, maxv=maxv))
                        for alg in ('dmd', 'tls'):
                            if q and (w == '2dc') != cplx and w != '1d':
                                continue
                            for kind in ('seq', 'seqgen'):
                                dm.append(dict(alg=alg, n=n, k=k, kind=kind, cplx=cplx, rank=0, w=w, vk=vk, maxv=maxv))
                            for kind in ('map', 'gen', 'zero') + tuple(D03.REP) + (tuple('rel-' + x for x in D03.REL) if vk == 'mem' or not q else ()):
                                for rank in range(1, min(n, k) + 1):
                                    dm.append(dict(alg=alg, n=n, k=k, kind=kind, cplx=cplx, rank=rank, w=w, vk=vk, maxv=maxv))
                for n in ((2, 4) if q else (1, 2, 3, 4, 6)):
                    for ni in (1, 2, 3):
                        for no in (1, 2, 3):
                            for td in ((1, 2, 3) if q else (1, 2, 3, 5)):
                                for ta in ((1, 2, 3) if q else (1, 2, 3, 5)):
                                    if w == '2dc' and not cplx:
                                        continue
                                    bp.append(dict(n=n, ni=ni, no=no, td=td, ta=ta, cplx=cplx, w=w, vk=vk, maxv=maxv))
    # many vectors
    for cplx in (False, True):
        for w in ('none', '1d'):
            for maxv in (None, 2, 7):
                c = dict(cplx=cplx, w=w, vk='1d', maxv=maxv)
                po += [dict(c, n=a, k=b, rank=r) for a, b, r in ((40, 30, 30), (30, 60, 20), (3, 101, 2), (4, 130, 4))]
                bp += [dict(c, n=a, ni=i, no=o, td=t, ta=s) for a, i, o, t, s in D02.LARGE if a < 100]
                dm += [dict(c, alg=alg, kind=kind, n=a, k=b, rank=r) for alg in ('dmd', 'tls') for kind in ('seqgen', 'map')
                       for a, b, r in ((40, 30, 15), (30, 40, 12), (3, 65, 2), (4, 101, 3))]
    ck.domain('pod', po)
    ck.domain('bpod', bp)
    ck.domain('dmd', dm)
    ck.domain('mag', mag.cases('pod', q, True))
    ck.domain('mag', mag.cases('bpod', q, True))
    ck.domain('mag', mag.cases('dmd', q, True))
    ck.domain('mag', mag.cases('tls', q, True))
    for a in ('pod', 'dmd', 'tls'):
        ck.domain('noise', mag.noise_cases(a, True))
