"""D04: total-least-squares DMD is DMD of the subspace-projected data."""
import numpy as np
from mc import serial, ref, mag
from mc.ref import H
from checks import D03

RULE = ('leading eigenpairs of X* W X + Y* W Y; then all DMD relations (D03) for X P and Y P, P the projector on those '
        'eigenvectors; both methods and both input forms agree; equals the DMD function applied to the projected data')
BOUNDS = D03.BOUNDS + '; truncation applied to both stages'


def case_tls(n, k, kind, cplx, rank, w):
    m = serial.modred()
    wa, W = ref.wkinds(w, n)
    vecs, adv = D03.data(n, k, kind, cplx, rank)
    X, Y = (vecs[:, :-1], vecs[:, 1:]) if adv is None else (vecs, adv)
    S = H(X).dot(W).dot(X) + H(Y).dot(W).dot(Y)
    s = np.linalg.eigvalsh(0.5 * (S + H(S)))[::-1]
    rep = D03.rep(kind)
    out, ks, ag = [], 0, 0
    res = {}
    for meth in ('snaps', 'direct'):
        f = getattr(m, 'compute_TLSqrDMD_arrays_%s_method' % meth)
        g = getattr(m, 'compute_DMD_arrays_%s_method' % meth)
        for j, (atol, rtol, mx, kept) in D03.truncs(s, meth == 'direct').items():
            e, V = np.linalg.eigh(0.5 * (S + H(S)))
            V = V[:, ::-1][:, :kept]
            if kept < len(s) and s[kept] > 0.9 * s[kept - 1]:
                continue
            P = V.dot(H(V))
            Xp, Yp = X.dot(P), Y.dot(P)
            c = np.linalg.eigvalsh(H(Xp).dot(W).dot(Xp))[::-1]
            c = np.where(c > 1e-13, c, 0)
            v = c ** .5 if meth == 'direct' else c
            if not ref.gap_ok(v[v > 0], atol, rtol):
                continue
            kept2 = ref.count(v, atol, rtol, mx)
            if not ref.good_map(Xp, Yp, W, kept2, rep):
                continue
            kw = dict(inner_product_weights=wa, atol=atol, rtol=rtol, max_num_eigvals=mx)
            p = f(vecs, adv_vecs=adv, **kw)
            ks += 1
            lab = '%s atol %.3g rtol %s max %s: ' % (meth, atol, rtol, mx)
            se, sv = np.asarray(p.sum_correlation_array_eigvals), np.asarray(p.sum_correlation_array_eigvecs)
            if se.shape != (kept,):
                out.append(lab + '%s components of the sum kept instead of %d (%s)' % (se.shape, kept, s))
            else:
                out += [lab + q for q in ref.nz(
                    ref._c(se, s[:kept], 1e-9, 'sum eigenvalues'),
                    ref._c(sv.dot(H(sv)), P, 1e-7, 'sum eigenvectors'),
                    ref._c(S.dot(sv), sv * se, 1e-9, 'sum eigenvectors'))]
            if hasattr(p, 'correlation_array'):
                out += [lab + q for q in ref.nz(
                    ref._c(p.correlation_array, H(X).dot(W).dot(X), 1e-10, 'correlation array'),
                    ref._c(p.cross_correlation_array, H(X).dot(W).dot(Y), 1e-10, 'cross correlation array'),
                    ref._c(p.adv_correlation_array, H(Y).dot(W).dot(Y), 1e-10, 'advanced correlation array'))]
            out += [lab + q for q in ref.dmd(p, Xp, Yp, W, kept2, 1e-6, 'proj_correlation_array_eigvals',
                                             'proj_correlation_array_eigvecs')]
            if not out:
                d = g(Xp, adv_vecs=Yp, **kw)
                out += [lab + 'differs from DMD of projected data: ' + q for q in ref.dmd_agree(p, d, rep=rep)]
            if adv is None and not out:
                out += [lab + 'sequence and pairs differ: ' + q for q in ref.dmd_agree(p, f(X, adv_vecs=Y, **kw))]
            res[meth, j] = p
            if out:
                return out
            if meth == 'direct' and ('snaps', j) in res and res['snaps', j].eigvals.shape == p.eigvals.shape:
                ag += 1
                out += [lab + 'methods differ: ' + q for q in ref.dmd_agree(res['snaps', j], p, 1e-5, rep)]
    return out, {'states': ks, 'compared': ag}


case_mag = mag.case_mag
case_noise = mag.case_noise


def run(ck):
    ck.domain('tls', D03.cases(ck.quick, range(1, 6 if ck.quick else 9)))
    ck.domain('mag', mag.cases('tls', ck.quick))
    ck.domain('noise', mag.noise_cases('tls'))
