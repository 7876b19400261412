"""E02: ERA reproduces the impulse response of every low-order system."""
import numpy as np
from checks import E07
from mc import serial
from mc.ref import H
from mc.num import close, nz, mat

RULE = ('C A**i B of the identified model equal the Markov parameters of the system at every sample and beyond; Hankel '
        'arrays hold the documented samples 2(i+j) and 2(i+j)+1; singular vectors reproduce the Hankel array; dimensions that '
        'cannot be filled raise; inputs unchanged')
BOUNDS = ('orders 1..4, inputs 1..3, outputs 1..3, sampling periods P = 1, 2, 3, even and odd numbers of samples up to 16 (20), and 41..150, '
          'every mc and mo (including those that must be rejected), given at construction, per call, one of them or none; '
          'arrays of 1, 2 and 3 dimensions, lists, integer samples, real and complex systems; other units of inputs and outputs; reciprocal, self-adjoint and '
          'shift-invariant systems (symmetric Hankel arrays); 9 sequences of putting results; '
          'states that contribute down to 1e-9 of the strongest')


def system(n, ni, no, cplx):
    if isinstance(cplx, str):
        return E07.system(cplx.split('-')[0], n, ni, no, cplx.endswith('c'))
    A = 0.85 * mat(n, n, cplx, 3, 'orth')
    if n == 1:
        A = np.array([[0.7 + (0.4j if cplx else 0)]])
    return A, mat(n, ni, cplx, 4) + 0.4, mat(no, n, cplx, 5) + 0.3


_mk = {}


def markov(n, ni, no, cplx, k):
    key = (n, ni, no, cplx)
    if key not in _mk:
        A, B, C = system(n, ni, no, cplx)
        P, X = [], B
        for _ in range(300):
            P.append(C.dot(X))
            X = A.dot(X)
        _mk[key] = np.array(P)
    return _mk[key][k]


def times(P, nt):
    t = []
    i = 0
    while len(t) < nt:
        t += [i, i + 1]
        i += P
    return t[:nt]


def sample(n, ni, no, cplx, P, nt, form):
    M = np.array([markov(n, ni, no, cplx, k) for k in times(P, nt)])
    if form == '1d':
        return M[:, 0, 0]
    if form == '2d':
        return M[:, :, 0]
    if form == 'list':
        return M.tolist()
    return M


def expected(nt, mc, mo):
    """(mc, mo) used, or None if it must be rejected"""
    mx = (nt // 2) + 1          # nt even part: nt//2 pairs
    if mc is None and mo is None:
        a = b = mx // 2
    elif mc is None:
        a, b = mx - mo, mo
    elif mo is None:
        a, b = mc, mx - mc
    else:
        a, b = mc, mo
    if a < 1 or b < 1 or a + b > mx:
        return None
    return a, b


def case_era(n, ni, no, cplx, P, nt, form):
    m = serial.modred()
    M = sample(n, ni, no, cplx, P, nt, form)
    M0 = np.array(M)
    mx = nt // 2 + 1
    checked = 0
    dims = [(None, None)] + [(a, None) for a in range(0, mx + 2)] + [(None, b) for b in range(0, mx + 2)] + [
        (a, b) for a in range(0, mx + 1) for b in range(0, mx + 2 - a)]
    for mc, mo in dims:
        e = expected(nt, mc, mo)
        if e is None:
            bad = 0
            for how in (0, 1):
                try:
                    o = m.ERA(verbosity=0) if how == 0 else m.ERA(mc=mc, mo=mo, verbosity=0)
                    o.compute_model(M, n, **(dict(mc=mc, mo=mo) if how == 0 else {}))
                    bad = 1
                except ValueError:
                    pass
            if bad:
                return 'mc=%s, mo=%s with %d samples accepted' % (mc, mo, nt), {}
            continue
        a, b = e
        E1 = np.array([[markov(n, ni, no, cplx, P * (i + j)) for j in range(a)] for i in range(b)])
        E2 = np.array([[markov(n, ni, no, cplx, P * (i + j) + 1) for j in range(a)] for i in range(b)])
        E1, E2 = (x.swapaxes(1, 2).reshape(b * no, a * ni) for x in (E1, E2))
        s = np.linalg.svd(E1, compute_uv=False)
        good = len(s) >= n and s[n - 1] > 1e-5 * s[0]
        # the data resolve the order only if the Hankel array has rank n
        for how in ('call', 'ctor', 'mixed') if mc is not None or mo is not None else ('call', 'fn'):
            if how == 'fn':
                if not good:
                    continue
                A, B, C = m.compute_ERA_model(M, n)
                o = None
            else:
                if how == 'call':
                    o = m.ERA(verbosity=0)
                    kw = {k: v for k, v in (('mc', mc), ('mo', mo)) if v is not None}
                elif how == 'ctor':
                    o, kw = m.ERA(mc=mc, mo=mo, verbosity=0), {}
                else:
                    # constructor values overridden where given per call
                    o = m.ERA(mc=mc if mo is not None else None, mo=mo if mc is None else None, verbosity=0)
                    kw = dict(mo=mo) if mo is not None else dict(mc=mc)
                A, B, C = o.compute_model(M, n, **kw)
            checked += 1
            out = []
            if o is not None:
                out += nz(close(o.Hankel_array, E1, 1e-12, 'Hankel array'), close(o.Hankel_array2, E2, 1e-12, 'Hankel array 2'))
                if not out:
                    L, S, R = o.L_sing_vecs, o.sing_vals, o.R_sing_vecs
                    k = S.size
                    out += nz(close((L * S).dot(H(R)), E1, 1e-10, 'decomposition of the Hankel array'),
                              close(H(L).dot(L), np.eye(k), 1e-10, 'left singular vectors'),
                              close(H(R).dot(R), np.eye(k), 1e-10, 'right singular vectors'))
                    if (np.diff(S) > 1e-12).any() or (S <= 1e-13).any():
                        out.append('singular values %s' % S)
            if good and not out:
                if A.shape != (n, n) or B.shape != (n, ni) or C.shape != (no, n):
                    out.append('model of sizes %s %s %s' % (A.shape, B.shape, C.shape))
                else:
                    X = B
                    tol = 1e-11 * s[0] / s[n - 1] + 1e-9
                    for i in range(P * (a + b) + 8):
                        r = close(C.dot(X), markov(n, ni, no, cplx, i), tol, 'Markov parameter %d of the model' % i)
                        if r:
                            out.append(r)
                            break
                        X = A.dot(X)
                    # balanced: both factors carry half of the singular values
                    if o is not None and not out:
                        Er = S[:n]
                        out += nz(close(C[:no], (L[:no, :n] * Er ** .5), 1e-9, 'C'),
                                  close(B, (Er[:, None] ** .5) * H(R)[:n, :ni], 1e-9, 'B'))
            if out:
                return ['mc=%s mo=%s (%s): %s' % (mc, mo, how, x) for x in out], {}
    if not np.array_equal(np.array(M), M0):
        return 'Markov parameters changed', {}
    return '', {'states': checked}



def case_long(n, ni, no, cplx, P, nt, mc, mo):
    """Long series and large Hankel arrays."""
    m = serial.modred()
    M = np.array([markov(n, ni, no, cplx, k) for k in times(P, nt)])
    o = m.ERA(verbosity=0)
    A, B, C = o.compute_model(M, n, **{k: v for k, v in (('mc', mc), ('mo', mo)) if v is not None})
    a, b = expected(nt, mc, mo)
    k = P * np.add.outer(np.arange(b), np.arange(a))
    E1 = markov(n, ni, no, cplx, k).swapaxes(1, 2).reshape(b * no, a * ni)
    E2 = markov(n, ni, no, cplx, k + 1).swapaxes(1, 2).reshape(b * no, a * ni)
    out = nz(close(o.Hankel_array, E1, 1e-12, 'Hankel array'), close(o.Hankel_array2, E2, 1e-12, 'Hankel array 2'),
             close((o.L_sing_vecs * o.sing_vals).dot(H(o.R_sing_vecs)), E1, 1e-10, 'decomposition of the Hankel array'))
    s = np.linalg.svd(E1, compute_uv=False)
    if not out and (len(s) < n or s[n - 1] < 1e-5 * s[0]):      # the data do not resolve the order
        return '', {'states': 1}
    if A.shape != (n, n) or B.shape != (n, ni) or C.shape != (no, n):
        out.append('model of sizes %s %s %s' % (A.shape, B.shape, C.shape))
    if out:
        return out, {}
    X = B
    for i in range(60):
        r = close(C.dot(X), markov(n, ni, no, cplx, i), 1e-7, 'Markov parameter %d of the model' % i)
        if r:
            return r, {}
        X = A.dot(X)
    return '', {'states': 1}


def case_units(n, ni, no, cplx, nt, eu, ey):
    """Samples in other units: the model and its singular values follow."""
    m = serial.modred()
    M = np.array([markov(n, ni, no, cplx, k) for k in times(1, nt)])
    f = 2. ** (np.array(ey[:no])[:, None] - np.array(eu[:ni])[None, :])
    o = m.ERA(verbosity=0)
    s = np.linalg.svd(np.hstack([np.vstack([(M * f)[2 * (i + j)] for i in range(nt // 4)]) for j in range(nt // 4)]),
                      compute_uv=False)
    if len(s) < n or s[n - 1] < 1e-6 * s[0] or s[n - 1] < 1e-11 or (len(s) > n and s[n] > 1e-3 * s[n - 1]):
        return '', {'skipped': 1}
    A, B, C = o.compute_model(M * f, n)
    if A.shape != (n, n):
        return '%s states instead of %d' % (A.shape, n)
    out, X = [], B
    for i in range(nt):
        r = close(C.dot(X) / f, markov(n, ni, no, cplx, i), 1e-4, 'units 2**%s, 2**%s: Markov parameter %d' % (eu, ey, i))
        if r:
            return r
        X = A.dot(X)
    return ''


def case_weak(n, ni, no, cplx, nt, d):
    """States that contribute little (the smallest 1e-2 to 1e-9 of the largest) are states."""
    m = serial.modred()
    g = (10. ** -d) ** (np.arange(n) / max(n - 1., 1))
    a = np.array([.9, -.6, .3])[:n] * np.exp(0.3j * np.arange(n) if cplx else 0)
    # every state through its own channel where there are as many, else through all
    B = (g ** .5)[:, None] * (np.eye(n, ni) if min(ni, no) >= n else np.ones((n, ni)))
    C = (np.eye(no, n) if min(ni, no) >= n else np.ones((no, n))) * g ** .5
    M = np.array([(C * a ** k).dot(B) for k in times(1, nt)])
    o = m.ERA(verbosity=0)
    r = o.compute_model(M, n)
    s = np.linalg.svd(o.Hankel_array, compute_uv=False)
    if s[n - 1] < 1e-12 * s[0] or s[n - 1] < 1e-12:
        return '', {'skipped': 1}
    if r[0].shape != (n, n) or r[1].shape != (n, ni) or r[2].shape != (no, n):
        return 'model of sizes %s %s %s' % tuple(x.shape for x in r)
    X = r[1]
    for i in range(nt):
        q = close(r[2].dot(X), (C * a ** i).dot(B), 1e-12, 'weak states 1e-%d: Markov parameter %d' % (d, i))
        if q:
            return q
        X = r[0].dot(X)
    return ''


def case_put(n, ni, no, cplx, nt, seq):
    """Everything put goes through put_array to its own destination and is the latest result."""
    m = serial.modred()
    got = []
    o = m.ERA(put_array=lambda a, d: got.append((d, np.array(a))), verbosity=0)
    last = None
    for k, op in enumerate(seq):
        if op in 'cC':
            r = o.compute_model(np.array([markov(n, ni, no, cplx, j) for j in times(1, nt)]) * (1. if op == 'c' else 2.), n)
            last = dict(A=r[0], B=r[1], C=r[2], s=o.sing_vals, L=o.L_sing_vecs, R=o.R_sing_vecs, H=o.Hankel_array,
                        I=o.Hankel_array2)
            last = {a: np.array(b) for a, b in last.items()}
            if got:
                return 'put without being asked'
            continue
        {'m': lambda: o.put_model('A', 'B', 'C'), 'd': lambda: o.put_decomp('s', 'L', 'R', 'H', 'I'),
         's': lambda: o.put_sing_vals('s')}[op]()
        w = {'m': 'ABC', 'd': 'sLRHI', 's': 's'}[op]
        if sorted(d for d, _ in got) != sorted(w):
            return 'put to %s instead of %s' % (sorted(d for d, _ in got), sorted(w))
        for d, a in got:
            r = close(a, last[d], 1e-14, 'after %s: what is put to %s' % (seq[:k + 1], d))
            if r:
                return r
        del got[:]
    return ''


def case_int(ni, no, nt):
    """Integer samples (single precision and integer data are promoted)."""
    m = serial.modred()
    M = np.array([[[(i + 1) * (j + 2) * (2 ** (8 - k // 2 - k % 2)) for i in range(ni)] for j in range(no)]
                  for k in range(nt)])
    out = []
    ref = m.ERA(verbosity=0)
    r = ref.compute_model(M.astype(float), 1)
    for dt in (int, np.int32, np.float32, bool):
        X = M.astype(dt)
        o = m.ERA(verbosity=0)
        g = o.compute_model(X, 1)
        if dt is not bool:
            out += nz(*[close(a, b, 1e-9, 'model from %s samples' % np.dtype(dt).name) for a, b in zip(g, r)])
            X = g[1]
            for k in range(4):
                out += nz(close(g[2].dot(X), M[2 * k].astype(float), 1e-9, 'Markov parameter'))
                X = g[0].dot(X)
    return out


def run(ck):
    q = ck.quick
    cs = []
    for n in (1, 2, 3, 4):
        for ni in (1, 2, 3):
            for no in (1, 2, 3):
                for c in (False, True):
                    for P in (1, 2, 3):
                        for nt in ((2, 3, 5, 8, 12) if q else range(2, 21)):
                            forms = ['3d']
                            if ni == 1:
                                forms.append('2d')
                            if ni == no == 1:
                                forms.append('1d')
                            if P == 1:
                                forms.append('list')
                            for f in forms:
                                cs.append(dict(n=n, ni=ni, no=no, cplx=c, P=P, nt=nt, form=f))
    # reciprocal, self-adjoint and shift-invariant systems: symmetric Hankel arrays
    for n in (1, 2, 3, 4):
        for ni in (1, 2, 3):
            for k in ('symm', 'herm', 'circ', 'same'):
                for c in '', '-c':
                    cs += [dict(n=n, ni=ni, no=ni, cplx=k + c, P=P, nt=nt, form='3d') for P in (1, 2)
                           for nt in ((5, 8, 12) if q else range(2, 17))]
    ck.domain('era', cs, chunk=8)
    EU = ([0, 0, 0], [-20, -20, -20], [15, 15, 15], [0, -6, 0], [3, -3, 5], [-8, -1, 1])
    ck.domain('units', [dict(n=n, ni=i, no=o, cplx=c, nt=t, eu=a, ey=b) for n in (1, 2, 3, 4) for i in (1, 2, 3)
                        for o in (1, 2, 3) for c in (False, True) for t in (8, 16) for a in EU for b in EU])
    ck.domain('weak', [dict(n=n, ni=i, no=o, cplx=c, nt=t, d=d) for n in (1, 2, 3) for i in (1, 2, 3) for o in (1, 2, 3)
                       for c in (False, True) for t in (12, 13, 20) for d in ((0, 2, 4, 6, 7, 8, 9) if n > 1 else (0,))])
    ck.domain('put', [dict(n=n, ni=i, no=o, cplx=c, nt=12, seq=s) for n in (1, 2, 3) for i in (1, 2) for o in (1, 2)
                      for c in (False, True) for s in ('cm', 'cd', 'cs', 'cmds', 'cmCm', 'cdCd', 'csCs', 'cCmds', 'csmCdcms')])
    ck.domain('int', [dict(ni=i, no=o, nt=t) for i in (1, 2) for o in (1, 2) for t in (8, 9, 12)])
    ck.domain('long', [dict(n=n, ni=i, no=o, cplx=c, P=P, nt=t, mc=a, mo=b) for n in (1, 4) for i in (1, 3) for o in (1, 2)
                       for c in (False, True) for P in (1, 2, 3) for t in (41, 64, 101, 150)
                       for a, b in ((None, None), (3, None), (None, 4), (15, 5), (5, 16), (10, 11))
                       if P * t < 400])
