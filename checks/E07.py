"""E07: balanced truncation balances discrete-time systems."""
import numpy as np
from mc import serial
from mc.ref import H
from mc.num import close, nz, mat

RULE = ('Gramians of the returned realisation (summed here) equal each other and the diagonal of the returned singular values, '
        'which are those of the system; same impulse response without truncation; order k gives the leading k states of the '
        'untruncated realisation; inputs unchanged')
BOUNDS = ('discrete-time systems of 1..5 (6) states, 1..3 inputs and outputs, real and complex, normal, triangular, rotated, symmetric, self-adjoint, circulant '
          'dynamics (orthogonal ones of 8, 12 and 33 states with up to 40 inputs and outputs too) with resolvable Hankel singular values (ratio above 1e-4), states nearly untouched by inputs and outputs (down to 1e-5), eigenvalues up to 1e-4 (1e-6) from the unit circle, inputs and outputs in other units, every order and none, with and without '
          'singular values, arrays and lists')


def system(kind, n, ni, no, cplx):
    if kind == 'orth':
        A = 0.8 * mat(n, n, cplx, 3, 'orth') if n > 1 else np.array([[0.5 + (0.3j if cplx else 0)]])
    elif kind == 'diag':
        A = np.diag((-1.) ** np.arange(n) * (0.9 - 0.17 * np.arange(n)))
    elif kind == 'tri':
        A = np.diag((-1.) ** np.arange(n) * (0.85 - 0.2 * np.arange(n))) + 0.3 * np.triu(np.ones((n, n)), 1)
    else:
        A = mat(n, n, cplx, 9)
        A = 0.9 * A / np.abs(np.linalg.eigvals(A)).max()
    if kind in ('symm', 'herm', 'circ', 'same'):
        # reciprocal: A = A^T and C = B^T; self-adjoint: A = A^*, C = B^*; shift invariant; A general, C = B^T
        Q = mat(n, n, cplx, 3, 'orth') if n > 1 else np.eye(1)
        lam = (-1.) ** np.arange(n) * (0.9 - 0.17 * np.arange(n))
        A = (Q * lam).dot(H(Q))
        if kind == 'symm':
            A = Q.dot(np.diag(lam)).dot(Q.T)
            A = 0.9 * A / max(1., np.abs(np.linalg.eigvals(A)).max())
            A = 0.5 * (A + A.T)
        elif kind == 'circ':
            c = lam[0] * mat(1, n, cplx, 6)[0]
            A = c[np.add.outer(np.arange(n), -np.arange(n)) % n]
            A = 0.85 * A / np.abs(np.linalg.eigvals(A)).max()
        elif kind == 'same':
            A = mat(n, n, cplx, 9)
            A = 0.9 * A / np.abs(np.linalg.eigvals(A)).max()
        else:
            A = 0.5 * (A + H(A))
        B = mat(n, ni, cplx, 4) + 0.4
        return A, B, (H(B) if kind == 'herm' else B.T).copy()
    if cplx and kind in ('diag', 'tri'):
        A = A * np.exp(0.7j)
    return A, mat(n, ni, cplx, 4) + 0.4, mat(no, n, cplx, 5) + 0.3


def gram(A, B):
    W = X = B.dot(H(B))
    P = A
    for _ in range(14):             # doubling: sum of 2**14 terms
        W = W + P.dot(W).dot(H(P))
        P = P.dot(P)
    return W


def case_bt(kind, n, ni, no, cplx, lists):
    u = serial.modred().util
    A, B, C = system(kind, n, ni, no, cplx)
    Wc, Wo = gram(A, B), gram(H(A), H(C))
    hsv = np.sqrt(np.abs(np.sort_complex(np.linalg.eigvals(Wc.dot(Wo)))[::-1]))
    hsv = np.sort(hsv)[::-1]
    cond = max(np.linalg.cond(Wc), np.linalg.cond(Wo))
    if hsv[-1] < 1e-4 * hsv[0] or cond > 1e7:
        return '', {'skipped': 1}
    tol = max(1e-9, 1e-13 * cond * hsv[0] / hsv[-1])
    args = (A.tolist(), B.tolist(), C.tolist()) if lists else (A, B, C)
    keep = [np.array(a) for a in args]
    full = u.balanced_truncation(*args, return_sing_vals=True)
    a, b, c, E = full
    out = []
    if np.shape(E) != (n,) or np.shape(a) != (n, n) or np.shape(b) != (n, ni) or np.shape(c) != (no, n):
        return 'shapes %s %s %s %s' % tuple(np.shape(x) for x in full), {}
    if (np.diff(E) > 0).any():
        out.append('singular values not descending')
    out += nz(close(E, hsv, tol, 'Hankel singular values'), close(gram(a, b), np.diag(E), tol, 'controllability Gramian'),
              close(gram(H(a), H(c)), np.diag(E), tol, 'observability Gramian'))
    x, X = b, B
    for i in range(3 * n + 2):
        out += nz(close(c.dot(x), C.dot(X), tol, 'Markov parameter %d' % i))
        x, X = a.dot(x), A.dot(X)
    if out:
        return out, {}
    r = u.balanced_truncation(*args)
    if len(r) != 3:
        out.append('%d arrays returned' % len(r))
    out += nz(*[close(p, q, 1e-12, 'system without singular values') for p, q in zip(r, full)])
    for k in range(1, n + 2):
        for sv in (False, True):
            r = u.balanced_truncation(*args, order=k, return_sing_vals=sv)
            e = (a[:k, :k], b[:k], c[:, :k], E)[:4 if sv else 3]
            if len(r) != len(e):
                out.append('%d arrays returned' % len(r))
            for p, q, w in zip(r, e, ('A', 'B', 'C')):
                out += nz(close(p, q, 1e-10, '%s truncated to order %d' % (w, k)))
            if sv and np.shape(r[3])[0] not in (n, min(k, n)):
                out.append('%d singular values' % np.size(r[3]))
            elif sv:
                out += nz(close(r[3], E[:len(r[3])], 1e-10, 'singular values'))
    if not all(np.array_equal(p, q) for p, q in zip(keep, args)):
        out.append('inputs changed')
    return out, {'states': 2 * n + 4}



def case_weak(n, ni, no, cplx, eps, mag):
    """Decoupled states that the inputs and outputs hardly touch; other units of inputs and outputs."""
    u = serial.modred().util
    d = eps ** np.arange(n)
    A = np.diag(0.9 - 0.6 * np.arange(n) / max(n - 1, 1)) * (np.exp(0.3j) if cplx else 1)
    B, C = d[:, None] * (mat(n, ni, cplx, 4) + 1.) * 2. ** mag, (mat(no, n, cplx, 5) + 1.) * d * 2. ** mag
    # states scaled to equal size give well conditioned Gramians
    Rc, Ro = np.linalg.cholesky(gram(A, B / d[:, None])), np.linalg.cholesky(gram(H(A), H(C / d)))
    hsv = np.linalg.svd((H(Ro) * d ** 2).dot(Rc), compute_uv=False)
    if hsv[-1] < 1e-11 * max(1., hsv[0]):       # below the accuracy of the decompositions
        return '', {'skipped': 1}
    a, b, c, E = u.balanced_truncation(A, B, C, return_sing_vals=True)
    if np.shape(a) != (n, n) or np.shape(E) != (n,):
        return '%s states and %s singular values instead of %d' % (np.shape(a), np.shape(E), n), {}
    out = nz(close(E / hsv, np.ones(n), 1e-2, 'Hankel singular values (relative)'))
    s = np.abs(C.dot(B)).max()
    x, X = b, B
    for i in range(3 * n):
        out += nz(close(c.dot(x) / s, C.dot(X) / s, 1e-6, 'Markov parameter %d' % i))
        x, X = a.dot(x), A.dot(X)
    for k in range(1, n):
        r = u.balanced_truncation(A, B, C, order=k)
        if np.shape(r[0]) != (k, k):
            out.append('%s states instead of %d' % (np.shape(r[0]), k))
    return out


def case_slow(kind, n, ni, no, cplx, r):
    """Eigenvalues at distance 10^-r and more from the unit circle."""
    u = serial.modred().util
    lam = (1 - 10. ** (-r) * 2. ** np.arange(n)) * np.exp((0.7j if cplx else 1j * np.pi) * (np.arange(n) if cplx else np.arange(n) % 2))
    lam = lam if cplx else lam.real
    if np.abs(lam).max() >= 1 or (np.abs(lam) < 0.05).any():
        return '', {'skipped': 1}
    Q = mat(n, n, cplx, 8, 'orth') if n > 1 and kind == 'orth' else np.eye(n)
    A = (Q * lam).dot(H(Q))
    b, c = mat(n, ni, cplx, 4) + 1.5, mat(no, n, cplx, 5) + 1.5
    den = 1 - np.outer(lam, lam.conj())
    Rc, Ro = b.dot(H(b)) / den, H(c).dot(c) / (1 - np.outer(lam.conj(), lam))
    cond = max(np.linalg.cond(Rc), np.linalg.cond(Ro))
    w, V = np.linalg.eigh(Ro)
    L = V * np.sqrt(np.maximum(w, 0))
    hsv = np.sqrt(np.maximum(np.linalg.eigvalsh(H(L).dot(Rc).dot(L))[::-1], 0))
    if cond > 1e6 or hsv[-1] < 1e-4 * hsv[0]:
        return '', {'skipped': 1}
    B, C = Q.dot(b), c.dot(H(Q))
    tol = max(1e-6, 1e-13 * cond * hsv[0] / hsv[-1]) * 10. ** max(r - 3, 0)
    a, b2, c2, E = u.balanced_truncation(A, B, C, return_sing_vals=True)
    if np.shape(a) != (n, n) or np.shape(E) != (n,):
        return '%s states and %s singular values instead of %d' % (np.shape(a), np.shape(E), n), {}
    out = nz(close(E / hsv[0], hsv / hsv[0], tol, 'Hankel singular values (relative)'))
    # the Gramians of the result solve its own equations
    D = np.diag(E) / E[0]
    out += nz(close(D - a.dot(D).dot(H(a)), b2.dot(H(b2)) / E[0], tol, 'controllability Gramian equation'),
              close(D - H(a).dot(D).dot(a), H(c2).dot(c2) / E[0], tol, 'observability Gramian equation'))
    x, X = b2, B
    for i in range(3 * n + 2):
        s = max(1., np.abs(C.dot(X)).max())
        out += nz(close(c2.dot(x) / s, C.dot(X) / s, tol, 'Markov parameter %d' % i))
        x, X = a.dot(x), A.dot(X)
    return out, {'states': 1}


def run(ck):
    q = ck.quick
    ck.domain('slow', [dict(kind=k, n=n, ni=i, no=o, cplx=c, r=r) for k in ('diag', 'orth') for n in range(1, 7) for i in (1, 2, 3)
                       for o in (1, 2, 3) for c in (False, True) for r in range(1, 5 if q else 7)])
    B = (False, True)
    ck.domain('bt', [dict(kind=k, n=n, ni=i, no=o, cplx=c, lists=l) for k in ('orth', 'diag', 'tri', 'gen')
                     for n in range(1, 6 if q else 7) for i in (1, 2, 3) for o in (1, 2, 3) for c in B for l in B])
    ck.domain('bt', [dict(kind=k, n=n, ni=i, no=i, cplx=c, lists=l) for k in ('symm', 'herm', 'circ', 'same')
                     for n in range(1, 6 if q else 8) for i in (1, 2, 3) for c in B for l in B])
    ck.domain('weak', [dict(n=n, ni=i, no=o, cplx=c, eps=e, mag=g) for n in (1, 2, 3, 4) for i in (1, 2) for o in (1, 2)
                       for c in B for e in (1., 0.1, 1e-2, 1e-3, 1e-4, 1e-5) for g in (-12, -6, 0, 6, 12, 20)
                       if n > 1 or e == 1.])
    ck.domain('bt', [dict(kind='orth', n=n, ni=i, no=o, cplx=c, lists=False) for n in (8, 12, 33) for i, o in ((1, 1), (3, 2), (12, 11), (40, 40))
                     for c in B], chunk=2)
