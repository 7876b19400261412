"""E06: factorisation wrappers return valid, ordered, complete factorisations."""
import itertools, warnings
import numpy as np
from mc import serial, ref
from mc.ref import H
from mc.num import close, nz, mat

RULE = ('SVD: orthonormal factors, descending singular values equal to those of the array, U S V* = best approximation; '
        'eigh: orthonormal eigenvectors, eigenvalues in descending magnitude, eigenvector relation, none missing above the '
        'tolerances, only positive ones when declared positive definite; eig_biorthog: eigenvector relations, L* R = I, chosen '
        'side scaled, other side of unit norm, all eigenvalues; inputs unchanged')
BOUNDS = ('arrays of 1..5 (6) x 1..5 (6), every rank from 0 and with the structure '
          'of symmetric, Hermitian, skew, circulant, unitary, triangular, imaginary, nearly real arrays with equal values or zero rows, real/complex, every tolerance in the gaps of the values, None and '
          '0; every set of up to 4 eigenvalues out of 7 (8) of both signs, zero and below tolerance, diagonal and rotated, and with repetitions; '
          'arrays, lists, integers, Fortran order; non-normal arrays of up to 5 (6) with real, complex, repeated and close (1e-13..0.1) eigenvalues, Jordan blocks; magnitudes 2^-60..2^60; also arrays up to '
          '130 x 5, 5 x 130, 65 x 33 (SVD), 130 (eigh, with up to 11 negative and zero eigenvalues) and 70 (eig_biorthog)')


def tols(v):
    v = [x for x in v if x > 0]
    t = [float(np.sqrt(a * b)) for a, b in zip(v[:-1], v[1:]) if a > 1.05 * b]
    if v:
        t += [0.5 * v[-1]]
    return t


SPECIAL = ('eye', 'perm', 'csym', 'herm', 'neg', 'skew', 'ones', 'tri', 'unitary', 'pairs', 'circ', 'imag', 'nearreal', 'strip')


def special(kind, n, cplx):
    """Arrays with a structure: symmetries, equal singular values, zero rows."""
    G = mat(n, n, cplx, 3)
    Q = mat(n, n, cplx, 8, 'orth') if n > 1 else np.ones((1, 1))
    if kind == 'eye':
        return np.eye(n) * (1 + (0.5j if cplx else 0))
    if kind == 'perm':
        return np.roll(np.eye(n), 1, axis=1) * (1j if cplx else 1)
    if kind == 'csym':
        return G + G.T
    if kind == 'herm':
        return G + H(G)
    if kind == 'neg':
        X = -(Q * np.arange(1., n + 1)).dot(H(Q))
        return 0.5 * (X + H(X))
    if kind == 'skew':
        return G - H(G) + (np.diag(1j * np.arange(1., n + 1)) if cplx else 0)
    if kind == 'ones':
        return np.ones((n, n)) * (1 + (1j if cplx else 0))
    if kind == 'tri':
        return np.tril(np.ones((n, n))) * (1 + (1j if cplx else 0))
    if kind == 'unitary':
        return Q * 2
    if kind == 'pairs':
        return (Q * 2. ** -(np.arange(n) // 2)).dot(H(mat(n, n, cplx, 6, 'orth')) if n > 1 else np.ones((1, 1)))
    if kind == 'circ':
        return np.array([np.roll(G[0], i) for i in range(n)])
    if kind == 'imag':
        return 1j * G
    if kind == 'nearreal':
        return G.real + 1e-9j * np.roll(G.real, 1, axis=0)
    if kind == 'strip':
        X = G.copy()
        X[::2] = 0
        X[:, 1::3] = 0
        return X


def case_svd(m, n, r, cplx, form):
    u = serial.modred().util
    if r >= 0:
        X = ref.rank_mat(m, n, cplx, r, 3)
    if form in SPECIAL:
        X = special(form, m, cplx)[:, :n]
    if form == 'int':
        X = np.round(16 * mat(m, n, False, 5)).astype(int)
    if form == 'cint':
        X = np.arange(m * n).reshape(m, n) * (1j if cplx else 1)
    arg = X.tolist() if form == 'list' else np.asfortranarray(X) if form == 'F' else X
    keep = np.array(arg)
    s = np.linalg.svd(np.array(X), compute_uv=False)
    s[s < 1e-12] = 0
    tt = tols(s)
    k = 0
    for a in [1e-13, 'd', None, 0.] + tt + [1e3]:
        for rt in [None, 'd', 1e-12] + ([t / s[0] for t in tt] if s.size and s[0] > 0 else []):
            if a in (None, 0.) and rt in (None, 'd') and (s == 0).any():
                continue        # rounding decides
            kw = {}
            if a != 'd':
                kw['atol'] = a
            if rt != 'd':
                kw['rtol'] = rt
            k += 1
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                U, S, V = u.svd(arg, **kw)
            c = ref.count(s, 1e-13 if a == 'd' else a, None if rt == 'd' else rt)
            w = 'atol=%s rtol=%s ' % (a, rt)
            if np.shape(S) != (c,) or U.shape != (m, c) or V.shape != (n, c):
                return w + 'shapes %s %s %s, %d values expected of %s' % (U.shape, np.shape(S), V.shape, c, s), {}
            out = nz(close(S, s[:c], 1e-11, 'singular values'), close(H(U).dot(U), np.eye(c), 1e-11, 'U'),
                     close(H(V).dot(V), np.eye(c), 1e-11, 'V'), close(H(U).dot(keep), S[:, None] * H(V), 1e-11, 'U* X'),
                     close(keep.dot(V), U * S, 1e-11, 'X V'))
            if (np.diff(S) > 1e-12).any():
                out.append('not descending')
            if out:
                return [w + x for x in out], {}
            if c == len(s) or not s[c:].any():
                r_ = close((U * S).dot(H(V)), keep, 1e-11, 'U S V*')
                if r_:
                    return w + r_, {}
    if not np.array_equal(keep, arg):
        return 'input changed', {}
    return '', {'states': k}


EV = [-2., -0.5, -1e-15, 0., 1e-6, 1., 3.3, 0.02]


def case_eigh(vals, cplx, rot, form):
    u = serial.modred().util
    n = len(vals)
    v = np.array(vals)
    if rot:
        Q = mat(n, n, cplx, 8, 'orth') if n > 1 else np.ones((1, 1))
        X = (Q * v).dot(H(Q))
        X = 0.5 * (X + H(X))
    else:
        X = np.diag(v)
    arg = X.tolist() if form == 'list' else X
    keep = np.array(arg)
    mag = np.sort(np.abs(v))[::-1]
    big = mag[0] if mag[0] > 0 else 1.
    k = 0
    for pd in (False, True, None):
        for a in ['d', None, 0., 1e-10, 1e-3, 0.7, 2.5, 10.]:
            for rt in ['d', None, 1e-9, 0.003, 0.2, 0.7]:
                kw = {}
                if a != 'd':
                    kw['atol'] = a
                if rt != 'd':
                    kw['rtol'] = rt
                if pd is not None:
                    kw['is_positive_definite'] = pd
                av, rv = 1e-13 if a == 'd' else a, None if rt == 'd' else rt
                if rv is not None and any(0.9 < m / (rv * big) < 1.1 for m in mag):
                    continue
                # values within rounding of the tolerance cannot be judged exactly
                fuzzy = ((av is None or av < 1e-13) and rv is None and (np.abs(v) < 1e-12).any() and rot) or \
                    (pd and (np.abs(v) < 1e-12).any() and rot and (av is None or av < 1e-13) and rv is None)
                k += 1
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    E, V = u.eigh(arg, **kw)
                w = 'atol=%s rtol=%s pd=%s ' % (a, rt, pd)
                out = []
                c = np.size(E)
                if np.ndim(E) != 1 or np.shape(V) != (n, c):
                    return w + 'shapes %s %s' % (np.shape(E), np.shape(V)), {}
                out += nz(close(H(V).dot(V), np.eye(c), 1e-11, 'eigenvectors'),
                          close(keep.dot(V), V * E, 1e-11, 'eigenvector relation'))
                if (np.diff(np.abs(E)) > 1e-12).any():
                    out.append('not in descending magnitude: %s' % E)
                if pd and (E <= 0).any():
                    out.append('%s: eigenvalue not positive' % E)
                if not fuzzy:
                    if pd and v.min() <= 0 and (av is None or -v.min() > av):
                        t = -v.min()
                    else:
                        t = av
                    exp = [x for x in sorted(v, key=lambda x: -abs(x)) if (t is None or abs(x) > t) and (
                        rv is None or abs(x) > rv * big)]
                    # eigenvalues without truncation include all of them
                    out += nz(close(E, np.array(exp), 1e-11, 'eigenvalues'))
                if out:
                    return [w + x for x in out], {}
    if not np.array_equal(keep, arg):
        return 'input changed', {}
    return '', {'states': k}


def case_eigh_large(n, neg, zero, cplx, rot):
    """Many eigenvalues: ``neg`` negative, ``zero`` zero ones, the others positive."""
    u = serial.modred().util
    v = 1.07 ** -np.arange(n) * 3.
    v[1:2 * neg + 1:2][:neg] *= -1
    neg = int((v < 0).sum())
    if zero:
        v[-zero:] = 0
    Q = mat(n, n, cplx, 8, 'orth') if rot else np.eye(n)[::-1]
    X = (Q * v).dot(H(Q))
    X = 0.5 * (X + H(X))
    keep = X.copy()
    mag = np.sort(np.abs(v))[::-1]
    out = []
    for pd in (False, True):
        for j in sorted({j for j in (1, n // 2, n - zero) if j <= n - zero}):     # number above the tolerance
            t = 1e-10 if j == n - zero else np.sqrt(mag[j - 1] * mag[j])
            for kw in (dict(atol=t), dict(rtol=t / mag[0])) if t > 1e-10 or not zero else (dict(atol=t), dict(rtol=1e-12)):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    E, V = u.eigh(X, is_positive_definite=pd, **kw)
                tt = -v.min() if pd and v.min() < -kw.get('atol', 1e-13) else None
                cut = max(t, tt or 0)
                e = np.array([x for x in sorted(v, key=lambda x: -abs(x)) if abs(x) > cut * (1 + 1e-12)])
                w = 'positive definite=%s %s: ' % (pd, kw)
                if np.shape(E) != e.shape:
                    return w + '%d eigenvalues instead of %d' % (np.size(E), e.size)
                out += nz(*[w + x if x else x for x in (
                    close(E, e, 1e-11, 'eigenvalues'), close(X.dot(V), V * E, 1e-11, 'eigenvector relation'),
                    close(H(V).dot(V), np.eye(e.size), 1e-11, 'eigenvectors'))])
    if not np.array_equal(keep, X):
        out.append('input changed')
    return out


def bmat(kind, n, cplx):
    if kind == 'gen':
        return mat(n, n, cplx, 3) + np.diag(0.3 * np.arange(n))
    if kind == 'rot':
        X = np.zeros((n, n), complex if cplx else float)
        for i in range(0, n - 1, 2):
            X[i:i + 2, i:i + 2] = [[0.5, 1 + i], [-1 - i, 0.5]]
        if n % 2:
            X[-1, -1] = -0.7
        S = mat(n, n, cplx, 4) + 2 * np.eye(n)
        return S.dot(X).dot(np.linalg.inv(S))
    if kind == 'tri':
        return np.triu(np.ones((n, n))) * (1 + (0.3j if cplx else 0)) + np.diag(np.arange(n) * 1.)
    if kind == 'herm':
        X = mat(n, n, cplx, 9)
        return X + H(X) + np.diag(np.arange(n) * 3.)
    if kind == 'sing':
        X = bmat('gen', n, cplx)
        X[:, 0] = 0
        return X
    if isinstance(kind, list):
        # repeated eigenvalues in generic, orthonormal and integer bases
        pat, basis = kind
        v = np.array([(0.9, -0.5, 0.4 + (0.8j if cplx else 0), 0.)[k] for k in pat[:n]])
        if basis == 'rotpair':
            X = np.zeros((n, n))
            for i in range(0, n - 1, 2):
                X[i:i + 2, i:i + 2] = [[0.5, 1], [-1, 0.5]]
            if n % 2:
                X[-1, -1] = 0.5
            S = mat(n, n, cplx, 4) + 2 * np.eye(n)
            return S.dot(X).dot(np.linalg.inv(S))
        S = mat(n, n, cplx, 8, 'orth') if basis == 'orth' and n > 1 else mat(n, n, cplx, 4) + 2 * np.eye(n)
        if basis == 'int':
            S = np.triu(np.ones((n, n))) - np.eye(n, k=-1)
        return (S * v).dot(np.linalg.inv(S))
    if kind in SPECIAL:
        return special(kind, n, cplx)
    if kind == 'int':
        return (np.triu(np.ones((n, n))) + np.diag(np.arange(n)) * 2).astype(int)


def case_biorthog(kind, n, cplx, sc, form):
    u = serial.modred().util
    X = bmat(kind, n, cplx)
    arg = X.tolist() if form == 'list' else np.asfortranarray(X) if form == 'F' else X
    keep = np.array(arg)
    l0, R0 = np.linalg.eig(keep)
    if np.linalg.cond(R0) > (1e6 if isinstance(kind, list) else 1e4):
        return '', {'skipped': 1}
    lam, R, L = u.eig_biorthog(arg) if sc is None else u.eig_biorthog(arg, scale_choice=sc)
    side = 'left' if sc is None else sc.lower()
    out = ref.eigpairs(keep, lam, R, L, 1e-9, side)
    D = np.abs(np.asarray(lam)[:, None] - l0[None, :])
    if not out and n:
        from scipy.optimize import linear_sum_assignment
        p = linear_sum_assignment(D)
        if D[p].max() > 1e-8 * (1 + np.abs(l0).max()):
            out.append('eigenvalues %s instead of %s' % (lam, l0))
    if not np.array_equal(keep, arg):
        out.append('input changed')
    return out



def case_defective(blocks, lead, basis, sc, cplx):
    """Jordan blocks: no biorthogonal set, but the unscaled side are unit eigenvectors and the eigenvalues are right."""
    u = serial.modred().util
    n = sum(blocks)
    B = np.zeros((n, n), complex if cplx else float)
    i = 0
    ex = []
    for j, b in enumerate(blocks):
        l = (lead + 0.7 * j) * ((0.6 + 0.8j) if cplx else 1)
        B[i:i + b, i:i + b] = l * np.eye(b) + np.eye(b, k=1)
        ex += [l] * b
        i += b
    X = B
    if basis:
        Q = mat(n, n, cplx, 8, 'orth')
        X = Q.dot(B).dot(H(Q))
    keep = X.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        lam, R, L = u.eig_biorthog(X, scale_choice=sc)
    out = []
    if np.shape(lam) != (n,) or R.shape != (n, n) or L.shape != (n, n):
        return ['shapes %s %s %s' % (np.shape(lam), R.shape, L.shape)]
    V, rel = (R, X.dot(R) - R * lam) if sc == 'left' else (L, H(X).dot(L) - L * np.conj(lam))
    if not np.abs(rel).max() < 1e-11:
        out.append('eigenvector relation of the unscaled side off by %.3g' % np.abs(rel).max())
    if not np.abs(np.sqrt((np.abs(V) ** 2).sum(axis=0)) - 1).max() < 1e-11:
        out.append('unscaled side not of unit norm')
    D = np.abs(np.asarray(lam)[:, None] - np.array(ex)[None, :])
    from scipy.optimize import linear_sum_assignment
    if D[linear_sum_assignment(D)].max() > 0.05:
        out.append('eigenvalues %s instead of %s' % (lam, ex))
    if not np.array_equal(keep, X):
        out.append('input changed')
    return out


def case_close(n, lead, what, e, basis):
    """Normal array with two eigenvalues at a distance of 10^e (``real``, or complex conjugates) has just those."""
    u = serial.modred().util
    d = 10. ** e
    B = np.diag([lead * (1 + .3 * i) for i in range(n)]).astype(float)
    if what == 'real':
        B[1, 1] = lead + d
        ex = np.diag(B).astype(complex)
    else:
        B[:2, :2] = [[lead, d], [-d, lead]]
        ex = np.concatenate(([lead + 1j * d, lead - 1j * d], np.diag(B)[2:]))
    X = B
    if basis:
        Q = mat(n, n, False, 8, 'orth')
        X = Q.dot(B).dot(Q.T)
    lam, R, L = u.eig_biorthog(X)
    out = ref.eigpairs(X, lam, R, L, 1e-9, 'left')
    D = np.abs(np.asarray(lam)[:, None] - ex[None, :])
    from scipy.optimize import linear_sum_assignment
    p = linear_sum_assignment(D)
    if D[p].max() > 1e-14 * n * max(1., np.abs(ex).max()):
        out.append('eigenvalues %s instead of %s' % (lam, ex))
    return out


def case_mag(fn, m, n, kind, cplx, e):
    """Arrays of another magnitude (tolerances alike) give the same factors and scaled values."""
    u = serial.modred().util
    f = 2. ** e
    if fn == 'svd':
        X = ref.rank_mat(m, n, cplx, min(m, n) if kind == 'full' else max(1, min(m, n) - 1), 3)
        g = lambda c: u.svd(c * X, atol=1e-10 * c)
    elif fn == 'eigh':
        X = mat(n, n, cplx, 9)
        X = X + H(X) + np.diag(np.arange(n) * 3.)
        if kind == 'pd':
            X = X.dot(X) + np.eye(n)
        if kind == 'neg':       # one small negative eigenvalue, and one between it and the largest
            Q = mat(n, n, cplx, 9, 'orth') if n > 1 else np.ones((1, 1))
            X = (Q * np.array([3., -1e-5, 2e-5, 0.2, 1., 2.])[:n]).dot(H(Q))
            X = 0.5 * (X + H(X))
        g = lambda c: u.eigh(c * X, atol=1e-10 * c, is_positive_definite=kind in ('pd', 'neg'))
    else:
        X = bmat(kind, n, cplx) * 1.
        if np.linalg.cond(np.linalg.eig(X)[1]) > 1e4:
            return '', {'skipped': 1}
        g = lambda c: u.eig_biorthog(c * X)
    a, b = g(1.), g(f)
    vals = {'svd': 1}.get(fn, 0)
    if [np.shape(x) for x in a] != [np.shape(x) for x in b]:
        return 'shapes %s and, times 2**%d, %s' % ([np.shape(x) for x in a], e, [np.shape(x) for x in b])
    if fn == 'eig':
        lam, R, L = b
        return ref.eigpairs(X, np.asarray(lam) / f, R, L, 1e-9, 'left')
    c = np.asarray(b[vals]) / f
    out = nz(close(c, a[vals], 1e-9, 'values of the array times 2**%d' % e))
    if fn == 'svd':
        U, S, V = b[0], c, b[2]
        out += nz(close(H(U).dot(U), np.eye(len(S)), 1e-11, 'U'), close(H(V).dot(V), np.eye(len(S)), 1e-11, 'V'),
                  close((U * S).dot(H(V)), X, 1e-9, 'U S V*'))
    else:
        out += nz(close(X.dot(b[1]), b[1] * c, 1e-9, 'eigenvector relation'),
                  close(H(b[1]).dot(b[1]), np.eye(len(c)), 1e-11, 'eigenvectors'))
    return out


def case_bad(sc):
    u = serial.modred().util
    try:
        u.eig_biorthog(np.eye(2), scale_choice=sc)
    except ValueError:
        return ''
    return 'scale_choice %r accepted' % sc


def run(ck):
    q = ck.quick
    N = 5 if q else 6
    B = (False, True)
    ck.domain('svd', [dict(m=m, n=n, r=r, cplx=c, form=f) for m in range(1, N + 1) for n in range(1, N + 1)
                      for r in range(0, min(m, n) + 1) for c in B for f in ('arr', 'list', 'F')] +
              [dict(m=m, n=n, r=-1, cplx=c, form=f) for m in range(1, N + 1) for n in range(1, N + 1) for c in B
               for f in ('int', 'cint') if not (f == 'int' and c)])
    ck.domain('svd', [dict(m=m, n=n, r=-1, cplx=c, form=f) for m in range(1, N + 1) for n in range(1, m + 1) for c in B
                      for f in SPECIAL])
    ev = EV[:7] if q else EV
    ck.domain('eigh', [dict(vals=list(v), cplx=c, rot=r, form='arr') for n in range(2, 5 if q else 6)
                       for v in itertools.combinations_with_replacement((-2., -0.5, 0., 1., 3.3), n) if len(set(v)) < n
                       for r in B for c in (B if r else (False,))], chunk=4)
    ck.domain('biorthog', [dict(kind=k, n=n, cplx=c, sc=s, form='arr') for k in SPECIAL if k != 'herm'
                           for n in range(1, N + 1) for c in B for s in ('left', 'right')])
    ck.domain('eigh', [dict(vals=list(v), cplx=c, rot=r, form=f) for n in range(1, 5) for v in itertools.combinations(ev, n)
                       for r in B for c in (B if r else (False,)) for f in ('arr', 'list')], chunk=4)
    ck.domain('biorthog', [dict(kind=k, n=n, cplx=c, sc=s, form=f) for k in ('gen', 'rot', 'tri', 'herm', 'sing', 'int')
                           for n in range(1, N + 1) for c in B for s in (None, 'left', 'right', 'LEFT', 'Right')
                           for f in ('arr', 'list', 'F') if not (k == 'int' and c)])
    PAT = [p for n in range(2, N + 1) for p in itertools.product(range(4), repeat=n)
           if len(set(p)) < n and list(p) == sorted(p) and p.count(3) < 2]
    ck.domain('biorthog', [dict(kind=[list(p), b], n=len(p), cplx=c, sc=s, form=f) for p in PAT
                           for b in ('gen', 'orth', 'int') for c in B for s in ('left', 'right') for f in ('arr', 'F')] +
              [dict(kind=[[], 'rotpair'], n=n, cplx=c, sc=s, form='arr') for n in range(2, N + 3) for c in B
               for s in ('left', 'right')])
    ck.domain('defective', [dict(blocks=list(b), lead=l, basis=x, sc=sc, cplx=c) for m in (1, 2, 3)
                            for b in itertools.product((1, 2, 3), repeat=m) if max(b) > 1 and sum(b) <= N
                            for l in (0., 0.5, 1.) for x in B for sc in ('left', 'right') for c in B])
    ck.domain('close', [dict(n=n, lead=l, what=w, e=e, basis=b) for n in range(2, N + 1) for l in (0., 1., -0.7)
                        for w in ('real', 'complex') for e in range(-13, 0) for b in B])
    MG = (-60, -30, -10, 10, 30, 60)
    ck.domain('mag', [dict(fn=f, m=m, n=n, kind=k, cplx=c, e=e) for f, kk in (
        ('svd', ('full', 'less')), ('eigh', ('any', 'pd', 'neg')), ('eig', ('gen', 'rot', 'tri', 'herm', 'int'))) for k in kk
        for m in (range(1, N + 1) if f == 'svd' else (0,)) for n in range(1, N + 1) for c in B for e in MG
        if not (k == 'int' and c)])
    ck.domain('bad', [dict(sc=s) for s in ('', 'both', 'none', 'l')])
    ck.domain('svd', [dict(m=m, n=n, r=r, cplx=c, form='arr') for m, n in ((12, 12), (40, 11), (11, 40), (130, 5), (5, 130), (257, 3),
                                                                           (65, 33)) for r in (2, 5, 11) if r <= min(m, n)
                      for c in B], chunk=2)
    ck.domain('eigh_large', [dict(n=n, neg=g, zero=z, cplx=c, rot=r) for n in (12, 33, 101, 130) for g in (0, 1, 5, 11)
                             for z in (0, 1, 11) if g + z < n for c in B for r in B], chunk=4)
    ck.domain('biorthog', [dict(kind=k, n=n, cplx=c, sc=s, form='arr') for k in ('gen', 'herm', 'sing') for n in (12, 33, 70)
                           for c in B for s in (None, 'right')])
