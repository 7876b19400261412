"""E08: signal files load into time and [path, time, signal] arrays."""
import itertools, os
import numpy as np
from mc import serial
from mc.core import scratch

RULE = ('times are exactly the first columns, signals the other columns, 1D and 2D; several files are stacked in the order '
        'given; files without signals, with a differing time value, or of different size raise ValueError')
BOUNDS = ('1..4 (6) rows x 1..3 (4) signals x 1..3 (4) files, every order of the files and repeated files, delimiters blank, '
          'comma, semicolon, tab; number formats integer, decimal, exponent, negative; every single time value of every file '
          'changed; every single file with a row or a signal too many or too few; also up to 1030 '
          'rows, 130 signals, 102 files; every assignment of 0, -0.5 and 3 to up to 2x2 (3x2) signals, alone and among other files, with '
          'ordinary, zero, equal, negative times')

DEL = {'blank': None, 'comma': ',', 'semi': ';', 'tab': '\t'}
FMT = {'int': '%d', 'dec': '%.6f', 'exp': '%.17e', 'short': '%g'}


def signals(f, nt, ns):
    a = np.arange(nt * ns).reshape(nt, ns) * 3. + 100 * (f + 1)
    return a * (-1) ** (np.arange(ns) + f)


def values(fmt, nt):
    return np.arange(nt) * (1. if fmt == 'int' else 0.25) + 2


def write(name, t, s, delim, fmt, newline=True):
    p = os.path.join(scratch(), name)
    d = DEL[delim] or '  '
    with open(p, 'w') as f:
        rows = [d.join(FMT[fmt] % x for x in [a] + list(b)) for a, b in zip(t, s)]
        f.write('\n'.join(rows) + ('\n' if newline else ''))
    return p


def sig(f, nt, ns, fmt):
    a = signals(f, nt, ns)
    return a if fmt == 'int' else a + 0.125


def case_one(nt, ns, delim, fmt, newline):
    u = serial.modred().util
    t, s = values(fmt, nt), sig(0, nt, ns, fmt)
    p = write('one', t, s, delim, fmt, newline)
    a, b = u.load_signals(p) if DEL[delim] is None else u.load_signals(p, delimiter=DEL[delim])
    if np.shape(a) != (nt,) or not np.array_equal(a, t):
        return 'times %s instead of %s' % (a, t)
    if np.shape(b) != (nt, ns) or not np.array_equal(b, s):
        return 'signals %s instead of %s' % (b, s)
    os.remove(p)
    return ''


def case_many(nt, ns, nf, delim, fmt):
    u = serial.modred().util
    t = values(fmt, nt)
    ps = [write('f%d' % i, t, sig(i, nt, ns, fmt), delim, fmt) for i in range(nf)]
    k = 0
    for L in range(1, nf + 1):
        for c in itertools.product(range(nf), repeat=L):
            k += 1
            a, b = u.load_multiple_signals([ps[i] for i in c], **({} if DEL[delim] is None else dict(delimiter=DEL[delim])))
            e = np.array([sig(i, nt, ns, fmt) for i in c])
            if np.shape(a) != (nt,) or not np.array_equal(a, t):
                return 'files %s: times %s instead of %s' % (c, a, t), {}
            if np.shape(b) != (L, nt, ns) or not np.array_equal(b, e):
                return 'files %s: signals %s instead of %s' % (c, np.asarray(b).tolist(), e.tolist()), {}
    for p in ps:
        os.remove(p)
    return '', {'states': k}


def case_order(nt, ns, nf, delim):
    """Many files: in the order given, forwards, backwards, rotated."""
    u = serial.modred().util
    t = values('dec', nt)
    ps = [write('o%d' % i, t, sig(i, nt, ns, 'dec'), delim, 'dec') for i in range(nf)]
    kw = {} if DEL[delim] is None else dict(delimiter=DEL[delim])
    for c in (range(nf), range(nf)[::-1], [(i + 1) % nf for i in range(nf)], [i * 7 % nf for i in range(nf)]):
        a, b = u.load_multiple_signals([ps[i] for i in c], **kw)
        e = np.array([sig(i, nt, ns, 'dec') for i in c])
        if np.shape(a) != (nt,) or not np.array_equal(a, t):
            return 'files %s: times differ' % list(c)
        if np.shape(b) != e.shape or not np.array_equal(b, e):
            return 'files %s: signals differ' % list(c)
    for p in ps:
        os.remove(p)
    return ''


def case_bad(nt, ns, nf, delim):
    u = serial.modred().util
    kw = {} if DEL[delim] is None else dict(delimiter=DEL[delim])
    t = values('dec', nt)

    def files(bad, tt, ss):
        return [write('b%d' % i, tt if i == bad else t, ss if i == bad else sig(i, nt, ns, 'dec'), delim, 'dec')
                for i in range(nf)]
    out = []
    k = 0
    for i in range(nf):
        v = []
        for j in range(nt if nf > 1 else 0):
            for d in (0.01, -1., 0.125):
                tt = t.copy()
                tt[j] += d
                v.append(('time %d of file %d changed by %g' % (j, i, d), tt, sig(i, nt, ns, 'dec')))
        if nf > 1:
            v.append(('one row more in file %d' % i, values('dec', nt + 1), sig(i, nt + 1, ns, 'dec')))
            v.append(('one signal more in file %d' % i, t, sig(i, nt, ns + 1, 'dec')))
            if nt > 1:
                v.append(('one row less in file %d' % i, t[:-1], sig(i, nt - 1, ns, 'dec')))
            if ns > 1:
                v.append(('one signal less in file %d' % i, t, sig(i, nt, ns - 1, 'dec')))
        v.append(('no signals in file %d' % i, t, np.zeros((nt, 0))))
        for w, tt, ss in v:
            k += 1
            ps = files(i, tt, ss)
            try:
                u.load_multiple_signals(ps, **kw)
                return '%s: accepted' % w, {}
            except ValueError:
                pass
    p = write('n', t, np.zeros((nt, 0)), delim, 'dec')
    try:
        u.load_signals(p, **kw)
        return 'file without signals accepted', {}
    except ValueError:
        pass
    return '', {'states': k + 1}


def case_scale(nt, dt, start, nf):
    """Times in any unit and from any start: a shift or stretch by a part of the step is rejected."""
    u = serial.modred().util
    t = (np.arange(nt) + start) * dt
    k = 0
    good = [write('s%d' % i, t, sig(i, nt, 2, 'exp'), 'blank', 'exp') for i in range(nf)]
    a, b = u.load_multiple_signals(good)
    if not np.array_equal(a, t) or not np.array_equal(b, np.array([sig(i, nt, 2, 'exp') for i in range(nf)])):
        return 'times or signals differ', {}
    for i in range(1, nf):
        bad = [('times later by %g steps' % d, t + d * dt) for d in (1, -1, .5, 0.1)]
        bad += [('times twice as fast', (np.arange(nt) * 2 + start) * dt)] if nt > 1 else []
        for j in range(nt):
            tt = t.copy()
            tt[j] += 0.25 * dt
            bad.append(('time %d later by a quarter of a step' % j, tt))
        for w, tt in bad:
            k += 1
            p = write('s_bad', tt, sig(i, nt, 2, 'exp'), 'blank', 'exp')
            try:
                u.load_multiple_signals(good[:i] + [p] + good[i + 1:])
                return 'file %d with %s accepted' % (i, w), {}
            except ValueError:
                pass
    return '', {'states': k + 1}


VALUES = (0., -0.5, 3.)


def case_values(nt, ns, kind, code):
    """Every assignment of a few values, zero among them, to the signals of a file; the same file first, in the middle, last."""
    u = serial.modred().util
    d, x = [], code
    for _ in range(nt * ns):
        d.append(VALUES[x % len(VALUES)])
        x //= len(VALUES)
    s = np.array(d).reshape(nt, ns)
    t = dict(std=np.arange(nt) * 0.25, zero=np.zeros(nt), neg=-np.arange(nt) - 1., equal=np.full(nt, 2.),
             signal=s[:, 0])[kind]
    o = np.ones((nt, ns))
    p, r = write('v', t, s, 'blank', 'dec'), write('w', t, o, 'blank', 'dec')
    a, b = u.load_signals(p)
    if np.shape(a) != (nt,) or not np.array_equal(a, t) or np.shape(b) != (nt, ns) or not np.array_equal(b, s):
        return 'times %s, signals %s instead of %s, %s' % (a, np.asarray(b).tolist(), t, s.tolist()), {}
    for c in ((p,), (p, r), (r, p), (r, p, r), (p, p)):
        a, b = u.load_multiple_signals(list(c))
        e = np.array([s if x == p else o for x in c])
        if np.shape(a) != (nt,) or not np.array_equal(a, t) or np.shape(b) != e.shape or not np.array_equal(b, e):
            return 'times %s, signals %s instead of %s, %s' % (a, np.asarray(b).tolist(), t, e.tolist()), {}
    return '', {'states': 6}


def run(ck):
    q = ck.quick
    ck.domain('values', [dict(nt=t, ns=s, kind=k, code=c) for t, s in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2)) + (() if q else ((3, 2), (2, 3)))
                         for k in ('std', 'zero', 'neg', 'equal', 'signal') for c in range(len(VALUES) ** (t * s))], chunk=64)
    T = range(1, 5 if q else 7)
    S = range(1, 4 if q else 5)
    ck.domain('one', [dict(nt=t, ns=s, delim=d, fmt=f, newline=n) for t in T for s in S for d in DEL for f in FMT
                      for n in (True, False)])
    ck.domain('many', [dict(nt=t, ns=s, nf=n, delim=d, fmt=f) for t in T for s in S for n in range(1, 4 if q else 5)
                       for d in DEL for f in FMT], chunk=4)
    ck.domain('scale', [dict(nt=t, dt=d, start=s, nf=n) for t in range(2, 5 if q else 8)
                        for d in (1e-12, 1e-9, 1e-4, 1., 3e5) for s in (0, 7, -3, 10 ** 6) for n in (2, 3)])
    ck.domain('bad', [dict(nt=t, ns=s, nf=n, delim=d) for t in T for s in S for n in range(1, 4 if q else 5) for d in DEL],
              chunk=4)
    ck.domain('one', [dict(nt=t, ns=s, delim=d, fmt='dec', newline=True) for t, s in ((12, 11), (130, 3), (1030, 1), (3, 130), (1, 33))
                      for d in DEL])
    ck.domain('order', [dict(nt=t, ns=s, nf=n, delim=d) for t, s, n in ((2, 1, 12), (12, 3, 33), (130, 2, 11), (3, 40, 102))
                        for d in DEL], chunk=1)
    ck.domain('scale', [dict(nt=t, dt=d, start=s, nf=n) for t, n in ((12, 11), (130, 3)) for d in (1e-9, 1., 3e5)
                        for s in (0, -3, 10 ** 6)], chunk=1)
