"""D07: truncation settings keep exactly the components they allow."""
import itertools
import numpy as np
from mc import serial, ref, hand
from mc.ref import H
from mc.num import close, nz, mat
from checks import D02

RULE = ('number of kept components = leading values > atol and > rtol * largest, at most max_num_eigvals, for every entry '
        'point; kept values and components equal those of the untruncated result; defaults (atol 1e-13, no other) apply '
        'when settings are omitted; order/num_states select the leading states')
BOUNDS = ('4 components; atol below, between and above all neighbouring values and None; rtol likewise and None; '
          'max_num_eigvals None, 1..r+1: the full product; all array functions, handle objects (compute_decomp and '
          'compute_eigendecomp/compute_SVD), svd and eigh wrappers, ERA, balanced truncation; real/complex; 12 and 40 components with '
          'tolerances in up to 6 gaps and 7 numbers of eigenvalues')

NS, R = 6, 4


def thr(v):
    """thresholds in all gaps: below the last, ..., above all but one"""
    v = np.asarray(v)
    return [float(np.sqrt(v[i - 1] * v[i])) for i in range(1, len(v))] + [float(0.3 * v[-1])]


def settings(v, mx):
    v = np.asarray(v, float)
    out = []
    for a in [None, 'd'] + thr(v):
        for r in [None, 'd'] + [t / v[0] for t in thr(v)]:
            for m in mx:
                out.append((a, r, m))
    return out


def kws(s):
    k = {}
    if s[0] != 'd':
        k['atol'] = s[0]
    if s[1] != 'd':
        k['rtol'] = s[1]
    if s[2] not in ('d', '-'):
        k['max_num_eigvals'] = s[2]
    return k


def expect(v, s):
    return ref.count(v, 1e-13 if s[0] == 'd' else s[0], None if s[1] == 'd' else s[1], None if s[2] in ('d', '-') else s[2])


def data(kind, cplx, seq):
    W = np.diag(1. + 0.25 * np.arange(NS))
    if kind == 'bpod':
        X, Y = D02.data(NS, 2, 1, 2, 4, cplx, W)
        return X, Y, W, dict(ni=2, no=1)
    # enough states for exactly R components of full rank
    X = ref.rank_mat(NS, R, cplx, R, 3, gap=0.7)
    if kind == 'pod':
        return X, None, W, {}
    Y = (mat(NS, NS, cplx, 32) * 0.8 + np.diag(0.3 * np.arange(1, NS + 1))).dot(X)
    if seq:
        v = np.hstack((X, Y[:, -1:]))
        return v, None, W, {}
    return X, Y, W, {}


def vals(kind, X, Y, W):
    if kind == 'bpod':
        return np.linalg.svd(H(Y).dot(W).dot(X), compute_uv=False)
    if kind in ('dmd', 'tls') and Y is None:
        X, Y = X[:, :-1], X[:, 1:]
    G = H(X).dot(W).dot(X)
    if kind == 'tls':
        G = G + H(Y).dot(W).dot(Y)
    return np.linalg.eigvalsh(0.5 * (G + H(G)))[::-1]


def second(X, Y, W, kept):
    """eigenvalues of the projected correlation array (TLS)"""
    if Y is None:
        X, Y = X[:, :-1], X[:, 1:]
    S = H(X).dot(W).dot(X) + H(Y).dot(W).dot(Y)
    e, V = np.linalg.eigh(0.5 * (S + H(S)))
    V = V[:, ::-1][:, :kept]
    c = np.linalg.eigvalsh(H(V).dot(H(X).dot(W).dot(X)).dot(V))[::-1]
    return c


def check_counts(kind, res, X, Y, W, v, s, direct, what):
    """res: object with decomposition arrays"""
    g = np.sqrt(v) if direct else v
    kept = expect(g, s)
    if kind == 'pod':
        names = [('eigvals', v[:kept])]
    elif kind == 'bpod':
        names = [('sing_vals', v[:kept])]
    elif kind == 'dmd':
        names = [('correlation_array_eigvals', v[:kept])]
    else:
        c = second(X, Y, W, kept)
        cg = np.sqrt(c) if direct else c
        atol, rtol = 1e-13 if s[0] == 'd' else s[0], None if s[1] == 'd' else s[1]
        if not ref.gap_ok(cg, atol, rtol):
            return [], False
        k2 = expect(cg, s)
        names = [('sum_correlation_array_eigvals', v[:kept]), ('proj_correlation_array_eigvals', c[:k2])]
        if s[0] is None and kept < R:
            names = names[:1]        # rounding noise of the projected array is not truncated
    out = []
    for n, e in names:
        a = np.asarray(getattr(res, n))
        if a.shape != e.shape:
            out.append('%s settings %s: %d values kept in %s instead of %d (values %s)' % (what, s, a.size, n, e.size, g))
        else:
            out += nz(ref._c(a, e, 1e-9, '%s settings %s: %s' % (what, s, n)))
    return out, True


def skip(kind, X, Y, W, v, s, direct):
    """nothing kept: outside the scope"""
    g = np.sqrt(v) if direct else v
    k = expect(g, s)
    if k == 0:
        return True
    if kind == 'tls':
        c = second(X, Y, W, k)
        cg = np.sqrt(c) if direct else c
        if s[0] is None and k < len(v):
            return True
        return expect(cg, s) == 0
    return False


def case_arrays(kind, meth, cplx, seq):
    serial.modred()
    X, Y, W, kw = data(kind, cplx, seq)
    v = vals(kind, X, Y, W)
    direct = meth == 'direct'
    g = np.sqrt(v) if direct else v
    mx = ['-'] if kind in ('pod', 'bpod') else ['d', None] + list(range(1, R + 2))
    ks = 0
    w = np.diag(W)
    full = hand.arrays(kind, X, Y, w, meth, **kw)
    for s in settings(g, mx):
        if skip(kind, X, Y, W, v, s, direct):
            continue
        p = hand.arrays(kind, X, Y, w, meth, **dict(kw, **kws(s)))
        out, ok = check_counts(kind, p, X, Y, W, v, s, direct, '%s arrays %s' % (kind, meth))
        if not ok:
            continue
        ks += 1
        if not out and kind in ('pod', 'bpod'):
            for n in hand.MODES[kind]:
                k = np.asarray(getattr(p, n)).shape[1]
                out += nz(ref.same_up_to_phase(getattr(p, n), getattr(full, n)[:, :k], 1e-7, '%s settings %s' % (n, s)))
        if not out and kind != 'pod' and kind != 'bpod':
            k = np.asarray(p.eigvals).size
            for n in hand.MODES[kind]:
                if np.asarray(getattr(p, n)).shape != (NS, k):
                    out.append('%s has shape %s with %d eigenvalues' % (n, np.shape(getattr(p, n)), k))
        if out:
            return out
    return '', {'states': ks}


def case_handles(kind, cplx, seq, entry):
    serial.modred()
    X, Y, W, kw = data(kind, cplx, seq)
    v = vals(kind, X, Y, W)
    mx = ['-'] if kind in ('pod', 'bpod') else ['d', None] + list(range(1, R + 2))
    ks = 0
    o = hand.make(kind, W)
    hand.decomp(o, kind, X, Y, **kw)
    redo = o.compute_SVD if kind == 'bpod' else o.compute_eigendecomp
    for s in settings(v, mx):
        if skip(kind, X, Y, W, v, s, False):
            continue
        if entry == 'decomp':
            o = hand.make(kind, W)
            hand.decomp(o, kind, X, Y, **dict(kw, **kws(s)))
        elif entry == 'redo':
            redo(**kws(s))
        else:                           # arrays set by the user
            o2 = hand.make(kind, W)
            for n in hand.ARRAYS[kind]:
                setattr(o2, n, np.array(getattr(o, n)))
            (o2.compute_SVD if kind == 'bpod' else o2.compute_eigendecomp)(**kws(s))
        q = o2 if entry == 'set' else o
        out, ok = check_counts(kind, q, X, Y, W, v, s, False, '%s handles %s' % (kind, entry))
        if not ok:
            continue
        ks += 1
        if out:
            return out
    return '', {'states': ks}


def case_wrap(fn, n, k, cplx, sign):
    """svd and eigh wrappers, thresholds in every gap, above everything and None."""
    m = serial.modred()
    ks = 0
    r = min(n, k)
    if fn == 'svd':
        A = ref.rank_mat(n, k, cplx, r, 5)
        v = np.linalg.svd(A, compute_uv=False)
    else:
        q = mat(n, n, cplx, 6, 'orth')
        v = 2. * 0.6 ** np.arange(n)
        if sign < 3:
            pat = [(-1.) ** (i * sign) for i in range(n)]
        else:                       # the bits of sign - 3 give the signs
            pat = [-1. if (sign - 3) >> i & 1 else 1. for i in range(n)]
        A = (q * (v * np.array(pat))).dot(H(q))
    T = thr(v) + [1.5 * v[0]]
    for atol in [None, 'd'] + T:
        for rtol in [None, 'd'] + [t / v[0] for t in T]:
            s = (atol, rtol, '-')
            kept = expect(v, s)
            ks += 1
            if fn == 'svd':
                U, S, V = m.util.svd(A, **kws(s))
                out = nz(ref._c(S, v[:kept], 1e-10, 'singular values'))
                if not out:
                    out = nz(ref._c(U.shape, (n, kept), 0, 'U shape'), ref._c(V.shape, (k, kept), 0, 'V shape'))
                if not out:
                    u, sv, vh = np.linalg.svd(A)
                    out = nz(ref._c((U * S).dot(H(V)), (u[:, :kept] * sv[:kept]).dot(vh[:kept]), 1e-9, 'truncated array'))
            else:
                e, E = m.util.eigh(A, **kws(s))
                out = nz(ref._c(np.abs(e), v[:kept], 1e-10, 'magnitudes of eigenvalues'))
                if not out:
                    out = nz(ref._c(E.shape, (n, kept), 0, 'shape of eigenvectors'))
                if not out:
                    out = nz(ref._c(A.dot(E), E * e, 1e-9, 'eigenpairs'), ref._c(H(E).dot(E), np.eye(kept), 1e-9, 'orthonormality'))
            if out:
                return ['atol %s rtol %s: %s' % (atol, rtol, o) for o in out]
    return '', {'states': ks}


def case_pd(n, neg, cplx):
    """is_positive_definite: only positive eigenvalues, nothing larger than the negative part lost."""
    m = serial.modred()
    v = 2. * 0.6 ** np.arange(n)
    q = mat(n, n, cplx, 6, 'orth')
    ks = 0
    for pat in itertools.product((1, -1), repeat=n):
        if neg == 'one' and sum(p < 0 for p in pat) > 1:
            continue
        e0 = v * np.array(pat)
        if max(e0) <= 0:
            continue
        A = (q * e0).dot(H(q))
        A = 0.5 * (A + H(A))
        worst = max([-e for e in e0 if e < 0] + [0])
        for atol in [None, 'd', 0.] + thr(v):
            for rtol in (None, 0.3):
                kw = kws((atol, 'd' if rtol is None else rtol, '-'))
                e, E = m.util.eigh(A, is_positive_definite=True, **kw)
                ks += 1
                a = max(worst, 1e-13 if atol == 'd' else (atol or 0.))
                exp = sorted([x for x in e0 if x > a * (1 + 1e-9) and (rtol is None or x > rtol * v[0])], reverse=True)
                out = nz(ref._c(e, np.array(exp), 1e-10, 'eigenvalues %s atol %s rtol %s' % (e0, atol, rtol)))
                if not out and len(exp):
                    out = nz(ref._c(A.dot(E), E * e, 1e-9, 'eigenpairs'))
                if out:
                    return out
    return '', {'states': ks}


def case_states(ni, no, n, what):
    """ERA num_states and balanced truncation order keep the leading states."""
    m = serial.modred()
    A = np.diag(0.8 * 0.7 ** np.arange(n)) + 0.05 * mat(n, n, False, 3)
    B, C = mat(n, ni, False, 4) + 0.3, mat(no, n, False, 5) + 0.3
    ks = 0
    if what == 'era':
        M = np.array([C.dot(np.linalg.matrix_power(A, i)).dot(B) for i in range(2 * n + 2)])
        t, Ms = m.make_sampled_format(np.arange(len(M)), M)
        o = m.ERA(verbosity=0)
        full = o.compute_model(Ms, n)
        for k in range(1, n + 1):
            for f in (lambda: m.ERA(verbosity=0).compute_model(Ms, k), lambda: o.compute_model(Ms, k),
                      lambda: m.compute_ERA_model(Ms, k)):
                a, b, c = f()
                ks += 1
                out = nz(ref._c(a, full[0][:k, :k], 1e-7, 'A of %d states' % k), ref._c(b, full[1][:k], 1e-9, 'B'),
                         ref._c(c, full[2][:, :k], 1e-9, 'C'))
                if out:
                    return out
    else:
        full = m.balanced_truncation(A, B, C, return_sing_vals=True)
        for k in range(1, len(full[3]) + 1):
            if full[3][k - 1] < 1e-6 * full[3][0]:
                break
            a, b, c = m.balanced_truncation(A, B, C, order=k)
            ks += 1
            p = np.sign((c * full[2][:, :k]).sum(axis=0))
            out = nz(ref._c(a * p * p[:, None], full[0][:k, :k], 1e-6, 'A of order %d' % k),
                     ref._c(b * p[:, None], full[1][:k], 1e-6, 'B'), ref._c(c * p, full[2][:, :k], 1e-6, 'C'))
            if out:
                return out
    return '', {'states': ks}


def case_many(kind, meth, cplx, seq, R):
    """More components."""
    serial.modred()
    n, kw = R + 4, {}
    W = np.diag(1. + 0.25 * np.arange(n))
    if kind == 'bpod':
        X, Y = D02.data(n, 3, 2, R // 3 + 1, R // 2 + 1, cplx, W)
        kw = dict(ni=3, no=2)
    else:
        X = ref.rank_mat(n, R, cplx, R, 3, gap=0.7)
        Y = None
        if kind != 'pod':
            Y = (mat(n, n, cplx, 32) * 0.8 + np.diag(0.3 * np.arange(1, n + 1)) / n).dot(X)
        if seq:
            X, Y = mat(n, R + 1, cplx, 53), None
    v = vals(kind, X, Y, W)
    v = v[v > 1e-9 * v[0]]
    direct = meth == 'direct'
    g = np.sqrt(v) if direct else v
    r, ks = len(v), 0
    T = [(1, 9, 10, 11, r // 2, r - 1)[i] for i in range(6)]
    T = [float(np.sqrt(g[k - 1] * g[k])) for k in sorted(set(T)) if 0 < k < r and g[k - 1] > 1.001 * g[k]]
    S = [(a, 'd', '-') for a in T + [1e-9]] + [('d', t / g[0], '-') for t in T] + [(T[0], T[-1] / g[0], '-'), (T[-1], T[0] / g[0], '-')]
    if kind in ('dmd', 'tls'):
        S += [(1e-9, 'd', m) for m in (1, 9, 10, 11, r - 1, r, r + 1)] + [(T[-1], 'd', 10), (T[len(T) // 2], 'd', r)]
    o = hand.make(kind, W)
    if meth == 'redo':
        hand.decomp(o, kind, X, Y, **kw)
    for s in S:
        if skip(kind, X, Y, W, v, s, direct):
            continue
        if meth == 'hnd':
            o = hand.make(kind, W)
            hand.decomp(o, kind, X, Y, **dict(kw, **kws(s)))
            p = o
        elif meth == 'redo':
            (o.compute_SVD if kind == 'bpod' else o.compute_eigendecomp)(**kws(s))
            p = o
        else:
            p = hand.arrays(kind, X, Y, np.diag(W), meth, **dict(kw, **kws(s)))
        out, ok = check_counts(kind, p, X, Y, W, v, s, direct, '%s %s' % (kind, meth))
        ks += ok
        if out:
            return out
    return '', {'states': ks}


def run(ck):
    q = ck.quick
    ar, hn = [], []
    for kind in ('pod', 'bpod', 'dmd', 'tls'):
        for cplx in (False, True):
            for seq in ((False, True) if kind in ('dmd', 'tls') else (False,)):
                for meth in ('snaps', 'direct') if kind != 'bpod' else ('snaps',):
                    ar.append(dict(kind=kind, meth=meth, cplx=cplx, seq=seq))
                for entry in ('decomp', 'redo', 'set'):
                    hn.append(dict(kind=kind, cplx=cplx, seq=seq, entry=entry))
    ck.domain('arrays', ar, chunk=1)
    ck.domain('handles', hn, chunk=1)
    wr = [dict(fn='svd', n=n, k=k, cplx=c, sign=0) for n in range(1, 6) for k in range(1, 6) for c in (False, True)]
    wr += [dict(fn='eigh', n=n, k=n, cplx=c, sign=s) for n in range(1, 7) for c in (False, True)
           for s in list(range(3)) + list(range(3, 3 + 2 ** n))]
    ck.domain('wrap', wr)
    ck.domain('pd', [dict(n=n, neg=g, cplx=c) for n in range(1, 6 if q else 9) for g in ('one', 'all') for c in (False, True)])
    ck.domain('states', [dict(ni=a, no=b, n=n, what=w) for a in (1, 2, 3) for b in (1, 2, 3) for n in (2, 3, 4)
                         for w in ('era', 'bal')])
    ck.domain('many', [dict(kind=k, meth=m, cplx=c, seq=s, R=R) for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True)
                       for s in ((False, True) if k in ('dmd', 'tls') else (False,)) for R in (12, 40)
                       for m in (('snaps', 'direct', 'hnd', 'redo') if k != 'bpod' else ('snaps', 'hnd', 'redo'))], chunk=1)
    ck.domain('wrap', [dict(fn='svd', n=n, k=k, cplx=c, sign=0) for n, k in ((12, 11), (11, 33), (40, 12)) for c in (False, True)] +
              [dict(fn='eigh', n=n, k=n, cplx=c, sign=s) for n in (12, 33) for c in (False, True) for s in (0, 1, 2)])
    ck.domain('states', [dict(ni=a, no=b, n=n, what=w) for a, b, n in ((1, 1, 6), (2, 3, 12), (12, 11, 12), (3, 1, 11))
                         for w in ('era', 'bal')])
