"""Independent relations of the decompositions (plain linear algebra)."""
import numpy as np
from .num import close, nz, mat, herm


def H(a):
    return np.asarray(a).conj().T


def rank_mat(n, k, cplx, r, salt=0, sv=None, gap=0.6):
    """n x k array of exact numerical rank r with well separated singular
    values 2 * gap**i (or those given)."""
    r = min(r, n, k)
    if r == 0:
        return np.zeros((n, k), complex if cplx else float)
    u = mat(n, n, cplx, salt + 901, 'orth')[:, :r]
    v = mat(k, k, cplx, salt + 902, 'orth')[:, :r]
    s = 2. * max(gap, 0.03 ** (1. / r)) ** np.arange(r) if sv is None else np.asarray(sv, float)[:r]
    return (u * s).dot(H(v))


def wkinds(kind, n):
    """(weights as passed, full array)"""
    r = np.arange(n)
    w = 0.5 + 0.75 * r
    if kind == 'none':
        return None, np.eye(n)
    if kind == '1d':
        return w, np.diag(w)
    if kind == 'list':
        return list(w), np.diag(w)
    if kind == 'int':
        return 1 + r, np.diag(1. + r)
    if kind == '2d':
        W = herm(n, False, 3)
        return W, W
    if kind == '2dc':
        W = herm(n, True, 3)
        return W, W
    if kind == '2dlist':
        W = herm(n, False, 3)
        return W.tolist(), W
    raise ValueError(kind)


def sq(W):
    """Hermitian square root."""
    e, v = np.linalg.eigh(W)
    return (v * np.sqrt(e)).dot(H(v))


def count(vals, atol=None, rtol=None, mx=None):
    """Number of leading values kept by the settings."""
    vals = np.sort(np.abs(np.asarray(vals)))[::-1]
    k = len(vals)
    if atol is not None:
        k = min(k, int((vals > atol).sum()))
    if rtol is not None and len(vals):
        k = min(k, int((vals > rtol * vals[0]).sum()) if vals[0] > 0 else 0)
    if mx is not None:
        k = min(k, mx)
    return k


def gap_ok(vals, atol=None, rtol=None, margin=0.02):
    """The settings do not fall on a value."""
    vals = np.abs(vals)
    for t in ([atol] if atol is not None else []) + ([rtol * vals.max()] if rtol is not None and len(vals) else []):
        if t > 0 and (np.abs(vals / t - 1) < margin).any():
            return False
    return True


def pod(X, W, E, M, C, U, nkeep=None, tol=1e-8):
    """Problems of a POD (eigvals, modes, coefficients, eigenvectors)."""
    G = H(X).dot(W).dot(X)
    ev = np.linalg.eigvalsh(0.5 * (G + H(G)))[::-1]
    E, M, C, U = (np.asarray(a) for a in (E, M, C, U))
    r = E.size
    out = []
    if nkeep is not None and r != nkeep:
        return ['%d components kept instead of %d (eigenvalues %s)' % (r, nkeep, ev)]
    if np.iscomplexobj(E) or E.ndim != 1:
        out.append('eigenvalues are not a real 1D array')
    if (np.diff(E) > 1e-12).any():
        out.append('eigenvalues not in descending order')
    out += nz(close(E, ev[:r], tol, 'eigenvalues'),
              close(H(U).dot(U), np.eye(r), tol, 'orthonormality of eigenvectors'),
              close(G.dot(U), U * E, tol, 'eigenvector relation'),
              close(H(M).dot(W).dot(M), np.eye(r), tol, 'orthonormality of modes') if M.shape[1] == r else
              'number of modes %d' % M.shape[1],
              close(M, X.dot(U) * (E ** -.5), tol, 'modes') if M.shape[1] == r else '',
              close(C, H(M).dot(W).dot(X), tol, 'projection coefficients') if M.shape[1] == r else '')
    return out


def same_up_to_phase(A, B, tol=1e-7, what=''):
    """Columns agree up to a unit factor each."""
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return '%s shape %s instead of %s' % (what, A.shape, B.shape)
    p = np.sum(A.conj() * B, axis=0)
    ab = np.abs(p)
    p = np.where(ab > 0, p / np.where(ab > 0, ab, 1), 1)
    return close(A * p, B, tol, what)


def _c(a, b, tol, what, scale=1.):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s shape %s instead of %s' % (what, a.shape, b.shape)
    if a.size == 0:
        return ''
    d = np.abs(a - b)
    if not np.isfinite(d).all():
        return '%s not finite' % what
    s = max(1., scale) + np.abs(b).max()
    return '' if d.max() <= tol * s else '%s off by %.3g (scale %.3g)' % (what, d.max(), s)


def nrm(*a):
    p = 1.
    for x in a:
        x = np.asarray(x)
        p *= np.abs(x).max() if x.size else 1.
    return p


def eigpairs(Al, lam, R, L, tol=1e-8, side='left'):
    """Problems of a biorthonormal eigendecomposition."""
    n = Al.shape[0]
    lam, R, L = np.asarray(lam), np.asarray(R), np.asarray(L)
    if lam.shape != (n,):
        return ['eigenvalues shape %s instead of %s' % (lam.shape, (n,))]
    unit = R if side == 'left' else L
    return nz(_c(Al.dot(R), R * lam, tol, 'right eigenvector relation', nrm(R)),
              _c(H(L).dot(Al), lam[:, None] * H(L), tol, 'left eigenvector relation', nrm(L)),
              _c(H(L).dot(R), np.eye(n), tol, 'biorthonormality', nrm(L, R) * n),
              _c(np.sqrt((np.abs(unit) ** 2).sum(axis=0)), np.ones(n), tol, 'norm of the unscaled eigenvectors'))


def dmd(p, X, Y, W, nkeep=None, tol=1e-7, ev='correlation_array_eigvals', vv='correlation_array_eigvecs', arrays=True,
        modes=True):
    """Problems of a DMD of the pairs X -> Y (all relations with the data)."""
    G, C = H(X).dot(W).dot(X), H(X).dot(W).dot(Y)
    g = np.linalg.eigvalsh(0.5 * (G + H(G)))[::-1]
    E, V = np.asarray(getattr(p, ev)), np.asarray(getattr(p, vv))
    r = E.size
    if E.ndim != 1 or np.iscomplexobj(E):
        return ['eigenvalues of the correlation array are not a real 1D array']
    if nkeep is not None and r != nkeep:
        return ['%d components kept instead of %d (eigenvalues %s)' % (r, nkeep, g)]
    out = nz(_c(E, g[:r], 1e-9, 'correlation array eigenvalues'),
             _c(H(V).dot(V), np.eye(r), 1e-9, 'orthonormality of correlation array eigenvectors'),
             _c(G.dot(V), V * E, 1e-9, 'correlation array eigenvectors'))
    if arrays and hasattr(p, 'correlation_array') and ev == 'correlation_array_eigvals':
        out += nz(_c(p.correlation_array, G, 1e-10, 'correlation array'),
                  _c(p.cross_correlation_array, C, 1e-10, 'cross correlation array'))
    if out:
        return out
    U = X.dot(V * E ** -.5)
    T = V * E ** -.5
    Al = H(U).dot(W).dot(Y).dot(T)
    lam, R, L = p.eigvals, np.asarray(p.R_low_order_eigvecs), np.asarray(p.L_low_order_eigvecs)
    out = eigpairs(Al, lam, R, L, tol)
    if out:
        return out
    adj = U.dot(L)
    c = H(adj).dot(W).dot(X)
    out = nz(_c(p.proj_coeffs, c, tol, 'projection coefficients', nrm(L)),
             _c(p.adv_proj_coeffs, H(adj).dot(W).dot(Y), tol, 'advanced projection coefficients', nrm(L)),
             _c(p.spectral_coeffs, np.abs(c[:, 0]), tol, 'spectral coefficients', nrm(L)))
    if modes:
        ok = np.abs(lam) > 1e-6
        out += nz(_c(p.proj_modes, U.dot(R), tol, 'projected modes'),
                  _c(p.adjoint_modes, adj, tol, 'adjoint modes', nrm(L)),
                  _c(np.asarray(p.exact_modes)[:, ok] if np.ndim(p.exact_modes) == 2 else p.exact_modes,
                     (Y.dot(T).dot(R))[:, ok] / np.asarray(lam)[ok], tol, 'exact modes', nrm(1 / np.abs(lam[ok]))))
    return out


def good_map(X, Y, W, nkeep, rep=False):
    """The projected map of the leading nkeep components is well conditioned:
    gap after them, separated nonzero eigenvalues, good eigenvectors."""
    G, C = H(X).dot(W).dot(X), H(X).dot(W).dot(Y)
    g, V = np.linalg.eigh(0.5 * (G + H(G)))
    g, V = g[::-1], V[:, ::-1]
    if nkeep == 0 or nkeep > len(g) or g[nkeep - 1] < 1e-8 * g[0]:
        return False
    if nkeep < len(g) and g[nkeep] > 0.9 * g[nkeep - 1]:
        return False
    T = V[:, :nkeep] * g[:nkeep] ** -.5
    Al = H(T).dot(C).dot(T)
    lam, R = np.linalg.eig(Al)
    if rep == 'zero':       # one zero eigenvalue
        z = np.abs(lam) < 1e-3
        lam = np.where(z & (np.abs(lam) < 1e-11), -7., lam)
    if np.abs(lam).min() < 1e-3 or np.linalg.cond(R) > 1e3:
        return False
    if rep and rep != 'zero':         # repeated (to rounding) or separated
        d = np.abs(lam[:, None] - lam[None, :])
        return not ((d > 1e-10) & (d < 1e-3)).any()
    d = np.abs(lam[:, None] - lam[None, :]) + 10 * np.eye(nkeep)
    return d.min() > 1e-3


def dmd_agree(a, b, tol=1e-6, rep=False):
    """Two results agree up to order and phases (well conditioned maps), with repeated eigenvalues up to the choice of
    the eigenvectors."""
    la, lb = np.asarray(a.eigvals), np.asarray(b.eigvals)
    if la.shape != lb.shape:
        return ['numbers of eigenvalues %d and %d' % (la.size, lb.size)]
    if la.size == 0:
        return []
    if rep and rep != 'zero':
        inv = lambda p: dict((x + ' ' + y, np.asarray(getattr(p, x)).dot(
            H(getattr(p, y)) if y == 'adjoint_modes' else np.asarray(getattr(p, y))))
            for x in ('proj_modes', 'exact_modes') for y in ('adjoint_modes', 'proj_coeffs', 'adv_proj_coeffs'))
        ia, ib = inv(a), inv(b)
        D = np.abs(la[:, None] - lb[None, :])
        if D.min(axis=0).max() > tol or D.min(axis=1).max() > tol or abs(la.sum() - lb.sum()) > tol * la.size:
            return ['eigenvalues %s and %s' % (la, lb)]
        return nz(*[_c(ia[q], ib[q], tol, 'products of ' + q) for q in ia])
    D = np.abs(la[:, None] - lb[None, :])
    perm = D.argmin(axis=1)
    if len(set(perm)) != la.size or D.min(axis=1).max() > tol * (1 + np.abs(la).max()):
        return ['eigenvalues %s and %s' % (la, lb)]
    pr = np.asarray(a.proj_modes)
    q = np.asarray(b.proj_modes)[:, perm]
    f = (pr.conj() * q).sum(axis=0)
    f = f / np.abs(f)
    out = nz(_c(np.asarray(b.spectral_coeffs)[perm], a.spectral_coeffs, tol, 'spectral coefficients of the two'))
    for n in ('proj_modes', 'exact_modes', 'adjoint_modes'):
        A, B = np.asarray(getattr(a, n)), np.asarray(getattr(b, n))[:, perm]
        if rep == 'zero' and n == 'exact_modes':
            nzc = np.abs(la) > 1e-8
            out += nz(_c((A * f)[:, nzc], B[:, nzc], tol, n + ' of the two', nrm(A[:, nzc])))
            continue
        out += nz(_c(A * f, B, tol, n + ' of the two', nrm(A)))
    for n in ('proj_coeffs', 'adv_proj_coeffs'):
        A, B = np.asarray(getattr(a, n)), np.asarray(getattr(b, n))[perm]
        out += nz(_c(A * f.conj()[:, None], B, tol, n + ' of the two', nrm(A)))
    return out
