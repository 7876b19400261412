"""E04: OKID recovers the Markov parameters the data determines."""
import itertools
import warnings
import numpy as np
from mc import serial
from mc.num import close, nz, mat

RULE = ('from noise-free data of a system (zero initial state, direct feed-through D) the estimates are D, C B, C A B, ... '
        'within the conditioning of the data; 1D, list, integer, Fortran ordered data give the same; inputs unchanged; '
        'numbers of samples that differ raise ValueError')
BOUNDS = ('orders 1..5 (7), inputs 1..3, outputs 1..3, with and without feed-through, stable real and complex systems, every '
          'number of Markov parameters from the observability index to 3 (5) above it, two lengths of data, up to 600 more samples and 45 more parameters; inputs and outputs each in its own unit; one input with every beginning '
          'of up to 3 (4) samples out of -1, 0, 2, followed by zeros, a step or repetitions, with and without delay (deconvolution)')


def system(n, ni, no, cplx, dk):
    A = 0.8 * mat(n, n, cplx, 3, 'orth')
    if n == 1:
        A = np.array([[0.6 + (0.4j if cplx else 0)]])
    D = mat(no, ni, cplx, 6) if dk else np.zeros((no, ni))
    return A, mat(n, ni, cplx, 4) + 0.4, mat(no, n, cplx, 5) + 0.3, D


def simulate(sys, U):
    A, B, C, D = sys
    x = np.zeros(A.shape[0], np.result_type(A, U))
    Y = []
    for u in U.T:
        Y.append(C.dot(x) + D.dot(u))
        x = A.dot(x) + B.dot(u)
    return np.array(Y).T


def inputs(ni, N, cplx):
    rs = np.random.RandomState(77 + ni)
    U = rs.uniform(-1, 1, (ni, N))
    return U + 1j * rs.uniform(-1, 1, (ni, N)) if cplx else U


def call(m, U, Y, p):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return m.OKID(U, Y, p)


def case_okid(n, ni, no, cplx, dk, extra, more):
    m = serial.modred()
    s = system(n, ni, no, cplx, dk)
    A, B, C, D = s
    p = 1
    O = C
    while np.linalg.matrix_rank(O) < n:
        O = np.vstack((O, C.dot(np.linalg.matrix_power(A, p))))
        p += 1
    if np.linalg.cond(O) > 300:
        return '', {'skipped': 1}
    p += extra
    p = max(p, 1)
    N = ni * (2 * p + 2 * n + 2) + (ni + no) * p + n + (15 if more is True else int(more))
    U = inputs(ni, N, cplx)
    Y = simulate(s, U)
    e = [D]
    X = B
    for _ in range(p - 1):
        e.append(C.dot(X))
        X = A.dot(X)
    e = np.array(e)
    out = []
    U0, Y0 = U.copy(), Y.copy()
    g = call(m, U, Y, p)
    out += nz(close(g, e, 1e-6, 'Markov parameters'))
    forms = [('list', U.tolist(), Y.tolist()), ('fortran', np.asfortranarray(U), np.asfortranarray(Y))]
    if ni == 1:
        forms.append(('1d input', U[0], Y))
    if no == 1:
        forms.append(('1d output', U, Y[0]))
    if ni == no == 1:
        forms.append(('1d', U[0], Y[0]))
    for w, a, b in forms:
        out += nz(close(call(m, a, b, p), g, 1e-8, 'from %s data, Markov parameters' % w))
    if not (np.array_equal(U, U0) and np.array_equal(Y, Y0)):
        out.append('inputs changed')
    return out, {'states': 1 + len(forms)}



def case_units(n, ni, no, cplx, dk, eu, ey):
    """Inputs and outputs in other units (powers of two), each its own."""
    m = serial.modred()
    A, B, C, D = system(n, ni, no, cplx, dk)
    O, p = C, 1
    while np.linalg.matrix_rank(O) < n:
        O = np.vstack((O, C.dot(np.linalg.matrix_power(A, p))))
        p += 1
    if np.linalg.cond(O) > 50:
        return '', {'skipped': 1}
    p += 1
    U = inputs(ni, ni * (2 * p + 2 * n + 2) + (ni + no) * p + n + 15, cplx)
    Y = simulate((A, B, C, D), U)
    du, dy = 2. ** np.array(eu[:ni]), 2. ** np.array(ey[:no])
    e, X = [D], B
    for _ in range(p - 1):
        e.append(C.dot(X))
        X = A.dot(X)
    g = call(m, U * du[:, None], Y * dy[:, None], p)
    if np.shape(g) != np.shape(e):
        return 'shape %s' % (np.shape(g),)
    z = list(eu[:ni]) + list(ey[:no])
    tol = max(1e-4, 0.03 * 2. ** (max(z) - min(z) - 24))        # the conditioning of such data
    if len(set(eu[:ni])) == len(set(ey[:no])) == 1:
        tol = max(1e-4, 2e-3 * 2. ** (max(z) - min(z) - 32))
    return close(np.array(g) * du / dy[:, None], np.array(e), tol, 'Markov parameters of the data in units 2**%s, 2**%s,' % (eu, ey))


def case_input(n, no, cplx, dk, u, tail, delay, extra):
    """One input that begins with the samples u: its response determines all parameters by deconvolution."""
    m = serial.modred()
    s = system(n, 1, no, cplx, dk)
    A, B, C, D = s
    O, p = C, 1
    while np.linalg.matrix_rank(O) < n:
        O = np.vstack((O, C.dot(np.linalg.matrix_power(A, p))))
        p += 1
    if np.linalg.cond(O) > 300:
        return '', {'skipped': 1}
    p += extra
    U = np.concatenate((np.zeros(delay), u, np.resize({'zero': [0.], 'step': u[-1:], 'wave': u}[tail], 5 * p + 3 * n + 8)))[None]
    Y = simulate(s, U)
    e, X = [D], B
    for _ in range(p - 1):
        e.append(C.dot(X))
        X = A.dot(X)
    inv = np.linalg.norm(np.linalg.inv(np.array([[U[0, delay + i - j] if i >= j else 0. for j in range(p)] for i in range(p)])), 2)
    if inv > 1e4:                   # an input whose deconvolution amplifies errors
        return '', {'skipped': 1}
    return close(call(m, U, Y, p), np.array(e), 1e-8 * inv, 'Markov parameters')


def case_int(ni, no, p):
    """integer data of a finite impulse response system: exact estimates"""
    m = serial.modred()
    n = 1
    U = np.round(4 * inputs(ni, 40, False)).astype(int)
    h = [np.arange(1, no * ni + 1).reshape(no, ni) * (-1) ** k * (k + 1) for k in range(2)]
    Y = h[0].dot(U)
    Y[:, 1:] += h[1].dot(U[:, :-1])
    e = np.array((h + [np.zeros((no, ni))] * p)[:p], float)
    out = []
    for dt in (int, np.int16, float, np.float32):
        g = call(m, U.astype(dt), Y.astype(dt), p)
        out += nz(close(g, e, 1e-5 if dt is np.float32 else 1e-8, 'from %s data, Markov parameters' % np.dtype(dt).name))
    return out, {'states': 4}


def case_bad(ni, no, N, M):
    m = serial.modred()
    U, Y = inputs(ni, N, False), inputs(no, M, False)
    for a, b in [(U, Y)] + ([(U[0], Y[0])] if ni == no == 1 else []):
        try:
            call(m, a, b, 2)
            return '%d input and %d output samples accepted' % (N, M)
        except ValueError:
            pass
    return ''


def run(ck):
    q = ck.quick
    ck.domain('okid', [dict(n=n, ni=i, no=o, cplx=c, dk=d, extra=x, more=w) for n in (range(1, 6) if q else range(1, 8))
                       for i in (1, 2, 3) for o in (1, 2, 3) for c in (False, True) for d in (False, True)
                       for x in (range(4) if q else range(6)) for w in (False, True)])
    ck.domain('okid', [dict(n=n, ni=i, no=o, cplx=c, dk=d, extra=x, more=w) for n in (1, 3, 5) for i in (1, 3) for o in (1, 2)
                       for c in (False, True) for d in (False, True) for x, w in ((0, 150), (1, 600), (8, 40), (12, 300), (30, 20), (45, 100))])
    ck.domain('input', [dict(n=n, no=o, cplx=c, dk=d, u=list(u), tail=t, delay=k, extra=x) for n in range(1, 5 if q else 7) for o in (1, 2, 3)
                        for c in (False, True) for d in (False, True) for L in range(1, 4 if q else 5)
                        for u in itertools.product((-1., 0., 2.), repeat=L) if u[0]
                        for t in ('zero', 'step', 'wave') for k in (0, 1, 3) for x in (0, 2)], chunk=64)
    EU = ([0, 0, 0], [-20, -20, -20], [20, 20, 20], [0, -20, 0], [0, -24, -10], [12, -12, 0], [-8, 9, 1])
    ck.domain('units', [dict(n=n, ni=i, no=o, cplx=c, dk=d, eu=a, ey=b) for n in (1, 2, 3, 4) for i in (1, 2, 3)
                        for o in (1, 2, 3) for c in (False, True) for d in (False, True) for a in EU for b in EU
                        if max(a[:i] + b[:o]) - min(a[:i] + b[:o]) <= 24])
    ck.domain('int', [dict(ni=i, no=o, p=p) for i in (1, 2, 3) for o in (1, 2, 3) for p in (2, 3, 4)])
    ck.domain('bad', [dict(ni=i, no=o, N=a, M=b) for i in (1, 2) for o in (1, 2) for a in range(9, 15) for b in range(9, 15)
                      if a != b])
