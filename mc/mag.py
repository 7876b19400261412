"""Data of other magnitudes: everything scales with the data (factors are powers of two, so rounding is the same)."""
import numpy as np
from . import hand, ref, serial

EXP = {'pod': dict(eigvals=2, eigvecs=0, modes=0, proj_coeffs=1, correlation_array=2),
       'bpod': dict(sing_vals=2, L_sing_vecs=0, R_sing_vecs=0, direct_modes=0, adjoint_modes=0, direct_proj_coeffs=1,
                    adjoint_proj_coeffs=1, Hankel_array=2),
       'dmd': dict(eigvals=0, R_low_order_eigvecs=0, L_low_order_eigvecs=0, correlation_array_eigvals=2,
                   correlation_array_eigvecs=0, exact_modes=0, proj_modes=0, adjoint_modes=0, spectral_coeffs=1,
                   proj_coeffs=1, adv_proj_coeffs=1, correlation_array=2, cross_correlation_array=2)}
EXP['tls'] = dict({k: v for k, v in EXP['dmd'].items() if not k.startswith('correlation_array_')},
                  sum_correlation_array_eigvals=2, sum_correlation_array_eigvecs=0, proj_correlation_array_eigvals=2,
                  proj_correlation_array_eigvecs=0, adv_correlation_array=2)


def diff(a, r, tol=1e-6, what=''):
    """'' if a equals r, relative to its largest entry, up to a phase per column or row."""
    a, r = np.asarray(a), np.asarray(r)
    if a.shape != r.shape:
        return '%s: shape %s instead of %s' % (what, a.shape, r.shape)
    if not r.size:
        return ''
    s = float(np.abs(r).max())
    if s == 0:
        return '' if not a.any() else '%s: nonzero' % what
    a, r = a / s, r / s
    if np.abs(a - r).max() <= tol:
        return ''
    for ax in (0, 1):
        if a.ndim == 2:
            ph = np.sum(a * r.conj(), axis=ax, keepdims=True)
            ph = ph / np.where(np.abs(ph) > 0, np.abs(ph), 1)
            if np.abs(a - r * ph).max() <= tol:
                return ''
    return '%s: off by %.3g of its size' % (what, np.abs(a - r).max())


def case_mag(alg, meth, n, k, seq, cplx, w, e, mx=None, fix=False, what='data'):
    from checks import D02, D03
    wa, W = ref.wkinds(w, n)
    ni = no = 1
    if alg == 'bpod':
        X, Y = D02.data(n, 1, 1, k, k, cplx, W)
    elif alg == 'pod':
        X, Y = ref.rank_mat(n, k, cplx, min(n, k)), None
    else:
        X, Y = D03.data(n, k, 'seqgen' if seq else 'gen', cplx, 0 if seq else min(n, k))

    def go(f):
        # tolerances scale with what they are compared with
        t = 1e-9 * f ** (1 if meth == 'direct' else 2)
        kw = {} if fix else dict(atol=t)
        if mx:
            kw['max_num_eigvals'] = mx
        x, y = X * f, Y * f if Y is not None else None
        wa1, W1 = wa, W
        if what == 'weights':               # the weights in other units instead
            x, y = X, Y
            W1 = W * f ** 2
            wa1 = W1 if wa is None else wa * f ** 2
        if meth == 'handles':
            o = hand.make(alg, W1)
            hand.decomp(o, alg, x, y, ni, no, **kw)
            return hand.result(o, alg)
        return hand.arrays(alg, x, y, wa1, meth, ni=ni, no=no, **kw)
    a, f = go(1.), 2. ** e
    b = go(f)
    out = []
    for nm, p in EXP[alg].items():
        if hasattr(a, nm) != hasattr(b, nm):
            out.append('%s missing' % nm)
        elif hasattr(a, nm):
            if what == 'weights' and nm.endswith('modes'):
                p -= 1
            d = diff(np.asarray(getattr(b, nm)) / f ** p, getattr(a, nm), 1e-6, nm)
            if d:
                out.append('%s times 2**%d: %s' % (what, e if what == 'data' else 2 * e, d))
    c = np.asarray(getattr(a, hand.COUNT[alg])).size if hasattr(a, hand.COUNT[alg]) else 0
    if mx and c > mx:
        out.append('%d components kept' % c)
    return out, {'states': 2}


POS = {'pod': ['eigvals'], 'bpod': ['sing_vals'], 'dmd': ['correlation_array_eigvals'],
       'tls': ['sum_correlation_array_eigvals', 'proj_correlation_array_eigvals']}
FIN = {'pod': ['modes', 'proj_coeffs', 'eigvecs'], 'bpod': ['direct_modes', 'adjoint_modes', 'direct_proj_coeffs'],
       'dmd': ['eigvals', 'proj_modes', 'proj_coeffs', 'R_low_order_eigvecs'],
       'tls': ['eigvals', 'proj_modes', 'proj_coeffs', 'R_low_order_eigvecs']}


def case_noise(alg, meth, n, k, rank, seq, cplx, w, e, atol):
    """Data of deficient rank in units that lift rounding errors above the tolerance: still, only positive values are kept
    and nothing is infinite or nan."""
    wa, W = ref.wkinds(w, n)
    f = 2. ** e
    X = ref.rank_mat(n, k, cplx, rank) * f
    Y = None
    if alg in ('dmd', 'tls') and not seq:
        Y = ref.rank_mat(n, k, cplx, rank, 7) * f
    kw = {} if atol == 'default' else dict(atol=atol)
    with np.errstate(all='ignore'):
        if meth == 'handles':
            o = hand.make(alg, W)
            hand.decomp(o, alg, X, Y, 1, 1, **kw)
            res = hand.result(o, alg)
        else:
            res = hand.arrays(alg, X, Y, wa, meth, **kw)
    out = []
    for nm in POS[alg]:
        v = np.asarray(getattr(res, nm))
        if v.dtype.kind != 'f' or not (v > 0).all():
            out.append('%s kept: %s' % (nm, v))
    for nm in FIN[alg]:
        v = np.asarray(getattr(res, nm))
        if not np.isfinite(v).all():
            out.append('%s is not finite' % nm)
    if not out and alg in ('pod', 'dmd'):
        Z = X[:, :-1] if alg == 'dmd' and seq else X
        G = Z.conj().T.dot(W).dot(Z)
        g = np.linalg.eigvalsh(0.5 * (G + G.conj().T))[::-1]
        r = int((g > 1e-9 * g[0]).sum())
        v = np.asarray(getattr(res, POS[alg][0]))
        if v.size < r or np.abs(v[:r] - g[:r]).max() > 1e-9 * g[0]:
            out.append('%s %s instead of %s' % (POS[alg][0], v, g[:r]))
    return out


def noise_cases(alg, handles=False):
    out = []
    for meth in (('handles',) if handles else ('snaps', 'direct')):
        for n, k in ((3, 5), (6, 4), (9, 6), (5, 12), (20, 8)):
            for rank in (1, 2, 3):
                if rank >= min(n, k - 1):
                    continue
                for seq in ((False, True) if alg in ('dmd', 'tls') else (False,)):
                    for cplx in (False, True):
                        for w in ('none', '1d'):
                            for e in (0, 6, 14, 24):
                                for atol in ('default', None, 0.) if meth != 'direct' else ('default', 1e-12):
                                    out.append(dict(alg=alg, meth=meth, n=n, k=k, rank=rank, seq=seq, cplx=cplx, w=w, e=e,
                                                    atol=atol))
    return out


def cases(alg, q, handles=False):
    out = []
    for meth in (('handles',) if handles else ('snaps',) if alg == 'bpod' else ('snaps', 'direct')):
        for n, k in ((1, 2), (3, 2), (2, 4), (4, 3), (5, 5), (6, 4)):
            for seq in ((False, True) if alg in ('dmd', 'tls') else (False,)):
                for cplx in (False, True):
                    for w in ('none', '1d', '2d'):
                        for e in ((-30, -12, 9, 12, 24) if q else range(-60, 61, 4)):
                            for mx in ((None, 1, 2) if alg in ('dmd', 'tls') else (None,)):
                                if mx and mx >= min(n, k - seq):
                                    continue
                                if alg == 'tls' and mx is None:
                                    continue
                                out.append(dict(alg=alg, meth=meth, n=n, k=k, seq=seq, cplx=cplx, w=w, e=e, mx=mx))
                                # default tolerances (absolute): large data truncated by number only
                                if mx and e > 0:
                                    out.append(dict(out[-1], fix=True))
    return out
