"""E03: sampled format, impulse response and simulation agree with A, B, C."""
import itertools
import numpy as np
from mc import serial
from mc.num import close, nz, mat

RULE = ('outputs equal the recursion x(n+1) = A x(n) + B u(n), y(n) = C x(n) evaluated here; impulse()[i] = C A**i B; the '
        'sampled format repeats samples; non-uniform times raise; inputs unchanged; simulation is linear in input and '
        'initial state and causal by exhaustive unit inputs')
BOUNDS = ('real systems of 1..4 states, 1..3 inputs and outputs, stable, unstable, defective and zero; all unit inputs and '
          'unit initial states at every time step up to 6 (8) steps plus all ternary scalar inputs of length 4 (5); number of '
          'time steps 1..8 and default; sampled format: 2..9 (12) times, offsets and periods, every single time displaced by '
          'amounts below and above the tolerance, real/complex/integer data; '
          'also up to 101 states, 11 inputs, 13 outputs, 1030 time steps and samples')


def system(kind, n, ni, no):
    B, C = mat(n, ni, False, 4) + 0.4, mat(no, n, False, 5) + 0.3
    if kind == 'stable':
        A = 0.8 * mat(n, n, False, 3, 'orth')
    elif kind == 'unstable':
        A = 1.3 * mat(n, n, False, 7, 'orth')
    elif kind == 'defective':
        A = 0.5 * np.eye(n) + np.diag(np.ones(n - 1), 1)
    elif kind == 'zero':
        A = np.zeros((n, n))
    elif kind == 'int':
        A = np.round(3 * mat(n, n, False, 9)).astype(int)
        B, C = np.round(3 * B).astype(int), np.round(3 * C).astype(int)
    return A, B, C


def sim(A, B, C, U, x0):
    x = np.zeros(A.shape[0]) if x0 is None else np.array(x0, float)
    Y = []
    for u in U:
        Y.append(C.dot(x))
        x = A.dot(x) + B.dot(u)
    return np.array(Y)


def case_lsim(kind, n, ni, no, nt, lists):
    u = serial.modred().util
    A, B, C = system(kind, n, ni, no)
    a = (A.tolist(), B.tolist(), C.tolist()) if lists else (A, B, C)
    keep = [np.array(x) for x in a]
    ins = [(np.zeros((nt, ni)), None)]
    for t in range(nt):
        for i in range(ni):
            U = np.zeros((nt, ni))
            U[t, i] = 1.5
            ins.append((U, None))
    for j in range(n):
        x0 = np.zeros(n)
        x0[j] = -2.
        ins.append((np.zeros((nt, ni)), x0))
    g = mat(nt, ni, False, 11) if nt >= ni else np.ones((nt, ni))
    ins += [(g, None), (g, mat(n, 1, False, 12)[:, 0]), (g, np.ones(n)), (np.ones((nt, ni), int), None)]
    out = []
    for U, x0 in ins:
        U0, k0 = U.copy(), None if x0 is None else x0.copy()
        Y = u.lsim(*a, inputs=U) if x0 is None else u.lsim(*a, inputs=U, initial_condition=x0)
        e = sim(A, B, C, U, x0)
        r = close(Y, e, 1e-9, 'outputs')
        if r:
            out.append('u=%s x0=%s: %s' % (U.tolist(), x0, r))
            break
        if not np.array_equal(U, U0) or (x0 is not None and not np.array_equal(x0, k0)):
            out.append('inputs changed')
    if not all(np.array_equal(x, y) for x, y in zip(keep, a)):
        out.append('system changed')
    return out, {'states': len(ins)}


def case_long(kind, n, ni, no, nt):
    u = serial.modred().util
    A, B, C = system(kind, n, ni, no)
    U = np.sin(np.arange(nt)[:, None] * (0.3 + np.arange(ni)) + 0.2)
    out = []
    for x0 in (None, np.cos(np.arange(n) * 0.7)):
        out += nz(close(u.lsim(A, B, C, U, **({} if x0 is None else dict(initial_condition=x0))), sim(A, B, C, U, x0), 1e-9, 'outputs'))
    return out


def case_manysamples(nt, no, ni, period):
    m = serial.modred()
    t = period * np.arange(nt)
    M = np.sin(np.arange(nt * no * ni) * 0.37).reshape(nt, no, ni)
    ts, Ms = m.make_sampled_format(t, M)[:2]
    e = [k for i in range(nt - 1) for k in (i, i + 1)]
    if list(ts) != e:
        return 'time steps %s instead of %s' % (list(ts), e)
    out = nz(close(Ms, M[e], 1e-14, 'samples'))
    for i in (1, nt // 2, nt - 2, nt - 1):
        d = t.astype(float).copy()
        d[i] += 0.01
        try:
            m.make_sampled_format(d, M)
            out.append('time %d displaced accepted' % i)
        except ValueError:
            pass
    return out


def case_ternary(kind, nt):
    u = serial.modred().util
    A, B, C = system(kind, 2, 1, 2)
    k = 0
    for s in itertools.product((-1., 0., 1.), repeat=nt):
        U = np.array(s).reshape(-1, 1)
        for x0 in (None, [1., 0.], [-1., 2.]):
            k += 1
            r = close(u.lsim(A, B, C, U, initial_condition=x0), sim(A, B, C, U, x0), 1e-9, 'outputs')
            if r:
                return 'u=%s x0=%s: %s' % (s, x0, r), {}
    return '', {'states': k}


def case_impulse(kind, n, ni, no, nt):
    u = serial.modred().util
    A, B, C = system(kind, n, ni, no)
    keep = [x.copy() for x in (A, B, C)]
    g = u.impulse(A, B, C) if nt == 0 else u.impulse(A, B, C, nt) if nt % 2 else u.impulse(A, B, C, num_time_steps=nt)
    if nt and g.shape != (nt, no, ni):
        return 'size %s instead of %s' % (g.shape, (nt, no, ni))
    if g.ndim != 3 or g.shape[1:] != (no, ni):
        return 'size %s' % (g.shape,)
    X = np.array(B, float)
    for i in range(g.shape[0]):
        r = close(g[i], C.dot(X), 1e-8, 'sample %d' % i)
        if r:
            return r
        X = A.dot(X)
        if np.abs(X).max() > 1e12:
            break
    if not all(np.array_equal(x, y) for x, y in zip(keep, (A, B, C))):
        return 'system changed'
    # simulation of unit impulses gives the same, one step later
    if nt and kind != 'int':
        for i in range(ni):
            U = np.zeros((nt + 1, ni))
            U[0, i] = 1
            r = close(u.lsim(A, B, C, U)[1:], g[:, :, i], 1e-8, 'simulated impulse response')
            if r:
                return r
    return ''


def case_sampled(nt, no, ni, dt, t0, period, form):
    m = serial.modred()
    t = t0 + period * np.arange(nt)
    M = mat(nt, no * ni, dt == 'complex', 13) if nt >= no * ni else mat(no * ni, nt, dt == 'complex', 13).T
    M = M.reshape(nt, no, ni)
    if dt == 'int':
        M = np.round(100 * M).astype(int)
    if dt == 'f32':
        M = M.astype(np.float32)
    tt, MM = (list(t), M.tolist()) if form == 'list' else (t, M)
    keep = [np.array(tt), np.array(MM)]
    ts, Ms = m.make_sampled_format(tt, MM)[:2]
    e = [k for i in range(nt - 1) for k in (i, i + 1)]
    out = []
    if list(ts) != e:
        out.append('time steps %s instead of %s' % (list(ts), e))
    out += nz(close(Ms, np.array([M[k] for k in e]).reshape(len(e), no, ni), 1e-12, 'samples'))
    if not np.array_equal(keep[0], tt) or not np.array_equal(keep[1], MM):
        out.append('inputs changed')
    # every displaced time
    n = 1
    if nt > 2:
        for tol in (None, 1e-3):
            kw = {} if tol is None else {'dt_tol': tol}
            for i in range(nt):
                for sgn in (-1, 1):
                    for f, ok in ((0.2, True), (20., False)):
                        n += 1
                        d = t.astype(float).copy()
                        d[i] += sgn * f * (tol or 1e-6)
                        try:
                            g = m.make_sampled_format(d, M, **kw)
                            acc = True
                        except ValueError:
                            acc = False
                        if acc != ok:
                            out.append('time %d displaced by %g (tolerance %s): %s' % (
                                i, sgn * f * (tol or 1e-6), tol, 'accepted' if acc else 'rejected'))
                            return out, {}
                        if acc and list(g[0]) != e:
                            out.append('time steps %s' % list(g[0]))
                            return out, {}
        for i in range(1, nt - 1):          # a missing sample
            n += 1
            try:
                m.make_sampled_format(np.delete(t, i), np.delete(M, i, axis=0))
                if nt > 3:
                    return 'missing sample %d accepted' % i, {}
            except ValueError:
                if nt == 3:
                    return 'two samples rejected', {}
    return out, {'states': n}


def run(ck):
    q = ck.quick
    K = ['stable', 'unstable', 'defective', 'zero', 'int']
    ck.domain('lsim', [dict(kind=k, n=n, ni=i, no=o, nt=t, lists=l) for k in K for n in (1, 2, 3, 4) for i in (1, 2, 3)
                       for o in (1, 2, 3) for t in ((1, 2, 3, 6) if q else range(1, 9)) for l in (False, True)])
    ck.domain('ternary', [dict(kind=k, nt=t) for k in K for t in ((1, 2, 4) if q else (1, 2, 3, 4, 5))])
    ck.domain('impulse', [dict(kind=k, n=n, ni=i, no=o, nt=t) for k in K for n in (1, 2, 3, 4) for i in (1, 2, 3)
                          for o in (1, 2, 3) for t in range(0, 9)])
    ck.domain('sampled', [dict(nt=t, no=o, ni=i, dt=d, t0=z, period=p, form=f) for t in range(2, 10 if q else 13)
                          for o in (1, 2, 3) for i in (1, 2, 3) for d in ('float', 'int', 'complex', 'f32')
                          for z in (0, 0.5, -3) for p in (1, 0.1, 2, 5.5) for f in ('array', 'list')], chunk=32)
    ck.domain('long', [dict(kind=k, n=n, ni=i, no=o, nt=t) for k in ('stable', 'zero') for n in (2, 12, 33, 101) for i in (1, 11)
                       for o in (1, 13) for t in (33, 101, 257, 1030)])
    ck.domain('impulse', [dict(kind=k, n=n, ni=i, no=o, nt=t) for k in ('stable', 'zero') for n in (3, 12, 33, 101) for i in (1, 11)
                          for o in (2, 13) for t in (0, 33, 101, 130)])
    ck.domain('manysamples', [dict(nt=t, no=o, ni=i, period=p) for t in (33, 101, 130, 1030) for o in (1, 11) for i in (1, 12)
                              for p in (1, 0.1)])
