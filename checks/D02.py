"""D02: BPOD array function satisfies the definition of BPOD."""
import numpy as np
from mc import serial, ref, mag
from mc.ref import H
from mc.num import close, nz, mat

RULE = ('Hankel array = adjoint* W direct; returned factors are its truncated SVD; adjoint modes* W direct modes = I; modes = '
        'data times scaled singular vectors; coefficients = inner products of the opposite modes with the data')
BOUNDS = ('state sizes 1..5, 1..3 inputs and outputs, 1..4 direct and adjoint time steps (independent), up to 501 states or 130 vectors, real/complex, adjoint data equal or related to the direct data in 13 ways, '
          'weights none/1D/list/2D real/2D complex, truncation between all singular values (absolute, relative)')


LARGE = [(60, 3, 2, 2, 2), (501, 2, 2, 2, 2), (5, 1, 1, 60, 50), (5, 3, 2, 40, 30), (5, 2, 3, 3, 70), (4, 1, 2, 101, 1),
         (30, 40, 1, 1, 1), (30, 1, 40, 2, 1)]


def data(n, ni, no, td, ta, cplx, W):
    """Direct and adjoint impulse responses."""
    A = mat(n, n, cplx, 35, 'orth').dot(np.diag(0.95 * 0.8 ** np.arange(n))).dot(H(mat(n, n, cplx, 45, 'orth')))
    B = mat(n, ni, cplx, 36)
    C = mat(n, no, cplx, 37)
    X, Y = [], []
    for _ in range(td):
        X.append(B)
        B = A.dot(B)
    Wi = np.linalg.inv(W)
    Aa, Ca = Wi.dot(H(A)).dot(W), Wi.dot(C)
    for _ in range(ta):
        Y.append(Ca)
        Ca = Aa.dot(Ca)
    return np.hstack(X), np.hstack(Y)


def relations(p, X, Y, W, nkeep, tol=1e-7):
    G = H(Y).dot(W).dot(X)
    s = np.linalg.svd(G, compute_uv=False)
    E = np.asarray(p.sing_vals)
    r = E.size
    if E.ndim != 1 or np.iscomplexobj(E):
        return ['singular values are not a real 1D array']
    if nkeep is not None and r != nkeep:
        return ['%d components kept instead of %d (singular values %s)' % (r, nkeep, s)]
    out = nz(close(p.Hankel_array, G, 1e-9, 'Hankel array'),
             close(E, s[:r], 1e-9, 'singular values'),
             close(H(p.L_sing_vecs).dot(p.L_sing_vecs), np.eye(r), 1e-9, 'orthonormality of L_sing_vecs'),
             close(H(p.R_sing_vecs).dot(p.R_sing_vecs), np.eye(r), 1e-9, 'orthonormality of R_sing_vecs'),
             close(G.dot(p.R_sing_vecs), p.L_sing_vecs * E, 1e-9, 'singular vectors'),
             close(H(G).dot(p.L_sing_vecs), p.R_sing_vecs * E, 1e-9, 'singular vectors'))
    if out:
        return out
    D, A = p.direct_modes, p.adjoint_modes
    return nz(close(D, X.dot(p.R_sing_vecs * E ** -.5), tol, 'direct modes'),
              close(A, Y.dot(p.L_sing_vecs * E ** -.5), tol, 'adjoint modes'),
              close(H(A).dot(W).dot(D), np.eye(r), tol, 'biorthonormality'),
              close(p.direct_proj_coeffs, H(A).dot(W).dot(X), tol, 'direct projection coefficients'),
              close(p.adjoint_proj_coeffs, H(D).dot(W).dot(Y), tol, 'adjoint projection coefficients'))


def case_bpod(n, ni, no, td, ta, cplx, w):
    m = serial.modred()
    wa, W = ref.wkinds(w, n)
    X, Y = data(n, ni, no, td, ta, cplx, W)
    s = np.linalg.svd(H(Y).dot(W).dot(X), compute_uv=False)
    out, k = [], 0
    ths = [(1e-9, None)]
    for i in range(len(s) - 1):
        if s[i + 1] > 1e-6 * s[0] and s[i] / s[i + 1] > 1.05:
            t = np.sqrt(s[i] * s[i + 1])
            ths += [(t, None), (1e-9, t / s[0]), (t, 1e-7)]
    for atol, rtol in ths:
        if not ref.gap_ok(s, atol, rtol):
            continue
        k += 1
        p = m.compute_BPOD_arrays(X, Y, num_inputs=ni, num_outputs=no, inner_product_weights=wa, atol=atol, rtol=rtol)
        out += ['atol %.3g rtol %s: %s' % (atol, rtol, q) for q in relations(p, X, Y, W, ref.count(s, atol, rtol))]
        if out:
            break
    return out, {'states': k}


REL = {'is': lambda X: X, 'same': lambda X: X.copy(), 'neg': lambda X: -X, 'conj': np.conj, 'twice': lambda X: 2 * X,
       'cols': lambda X: X[:, ::-1].copy(), 'rows': lambda X: X[::-1].copy(), 'phase': lambda X: X * np.exp(0.7j), 'abs': np.abs,
       'rowneg': lambda X: X * np.where(np.arange(len(X)) % 2, -1, 1)[:, None], 'fewer': lambda X: X[:, :1], 'first': lambda X: X + .5 * X[:, :1],
       'orth': lambda X: np.linalg.qr(X)[0].dot(np.eye(min(X.shape), X.shape[1]))}


def case_rel(n, k, cplx, rank, w, rel):
    """Adjoint data that are the direct data, or related to them."""
    m = serial.modred()
    wa, W = ref.wkinds(w, n)
    X = ref.rank_mat(n, k, cplx, rank, 17)
    Y = REL[rel](X)
    s = np.linalg.svd(H(Y).dot(W).dot(X), compute_uv=False)
    pos = s[s > 1e-9 * s[0]]
    if pos[-1] < 1e-5 or (len(pos) < len(s) and s[len(pos)] > 1e-12):
        return '', {'skipped': 1}
    out, c = [], 0
    for i in range(1, len(pos) + 1):
        if i < len(pos) and pos[i - 1] < 1.05 * pos[i]:
            continue
        t = 1e-8 if i == len(pos) else float(np.sqrt(pos[i - 1] * pos[i]))
        c += 1
        p = m.compute_BPOD_arrays(X, Y, num_inputs=X.shape[1], num_outputs=Y.shape[1], inner_product_weights=wa, atol=t)
        out += ['atol %.3g: %s' % (t, q) for q in relations(p, X, Y, W, i)]
        if out:
            break
    return out, {'states': c}


def case_self(n, ni, td, cplx, w, rel):
    """Self-adjoint systems: the adjoint data are the direct data."""
    m = serial.modred()
    wa, W = ref.wkinds(w, n)
    R = np.linalg.cholesky(W)               # W = R R*; A = R^-* S R* with S self-adjoint
    Q = mat(n, n, cplx, 35, 'orth') if n > 1 else np.eye(1)
    S = (Q * ((-1.) ** np.arange(n) * 0.95 * 0.8 ** np.arange(n))).dot(H(Q))
    A = np.linalg.inv(H(R)).dot(0.5 * (S + H(S))).dot(H(R))
    X = [mat(n, ni, cplx, 36)]
    for _ in range(td - 1):
        X.append(A.dot(X[-1]))
    X = np.hstack(X)
    Y = REL[rel](X)
    s = np.linalg.svd(H(Y).dot(W).dot(X), compute_uv=False)
    out, c = [], 0
    for i in range(1, len(s) + 1):
        if s[i - 1] < 1e-6 * s[0] or (i < len(s) and s[i - 1] < 1.05 * s[i]):
            continue
        t = 1e-9 if i == len(s) or s[i] < 1e-12 else float(np.sqrt(s[i - 1] * s[i]))
        if t < 1e-10:
            continue
        c += 1
        p = m.compute_BPOD_arrays(X, Y, num_inputs=ni, num_outputs=ni, inner_product_weights=wa, atol=t)
        out += ['atol %.3g: %s' % (t, q) for q in relations(p, X, Y, W, i)]
        if out:
            break
    return out, {'states': c}


case_mag = mag.case_mag


def run(ck):
    q = ck.quick
    cs = []
    T = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 7)
    for n in ((1, 2, 3, 5) if q else range(1, 8)):
        for ni in (1, 2, 3):
            for no in (1, 2, 3):
                for td in T:
                    for ta in T:
                        for cplx in (False, True):
                            for w in ('none', '1d', '2d', '2dc', 'list'):
                                if w == '2dc' and not cplx:
                                    continue
                                cs.append(dict(n=n, ni=ni, no=no, td=td, ta=ta, cplx=cplx, w=w))
    # many states, inputs, outputs or time steps
    cs += [dict(n=n, ni=ni, no=no, td=td, ta=ta, cplx=cplx, w=w) for n, ni, no, td, ta in LARGE
           for cplx in (False, True) for w in ('none', '1d', '2d')]
    ck.domain('bpod', cs)
    ck.domain('rel', [dict(n=n, k=k, cplx=c, rank=r, w=w, rel=x) for n in range(1, 5 if q else 7) for k in range(1, 5 if q else 7)
                      for r in range(1, min(n, k) + 1) for c in (False, True) for w in ('none', '1d', '2d', '2dc') for x in REL])
    ck.domain('self', [dict(n=n, ni=i, td=t, cplx=c, w=w, rel=x) for n in range(1, 5 if q else 7) for i in (1, 2, 3) for t in (1, 2, 3, 4)
                       for c in (False, True) for w in ('none', '1d', '2d', '2dc') for x in ('is', 'same', 'neg', 'twice', 'phase')])
    ck.domain('mag', mag.cases('bpod', q))
