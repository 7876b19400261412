"""V02: trapezoidal and uniform inner products."""
import itertools
import numpy as np
from mc import serial
from mc.num import mat, close, nz

RULE = ('grid inner product of every pair of basis arrays (real and imaginary units) equals the tensor trapezoidal '
        'weight; general arrays by explicit sums; wrong shapes rejected; uniform product = sum of conj(a) b')
BOUNDS = ('grids of 1..3 dimensions (4 thorough) with 1..4 points each from 10 grid kinds (uniform, stretched, tiny, far from 0, almost uniform by 1e-3..1e-9, '
          'descending, irregular integer), up to 1320 points; integer types whose products exceed them; all pairs of basis arrays; every wrong shape obtained by changing, swapping, '
          'adding or dropping a dimension')


def gridpts(kind, n):
    i = np.arange(n)
    if kind in '3579':        # almost uniform: one step off by a relative 1e-3 .. 1e-9
        return i * 0.5 + (i == n - 1) * 0.5 * 10. ** -int(kind)
    return {'u': i * 0.5, 's': i ** 2 * 0.3 + 0.1 * i - 1., 'd': -1. * i * (i + 1) / 3. + 2, 'i': i * (i + 3) // 2,
            'n': (200 - i * (i + 1) // 2).astype('u1'), 'g': (1 + i * (i + 2)).astype('u2'), 't': i * 1e-9, 'o': 1e6 + i * 0.5 + 0.1 * i ** 2}[kind]


def w1(g):
    g = np.asarray(g, float)
    n = len(g)
    w = [0.] * n
    for k in range(n - 1):
        h = 0.5 * (g[k + 1] - g[k])
        w[k] += h
        w[k + 1] += h
    return np.array(w)


def wts(grids):
    w = np.ones(())
    for g in grids:
        w = np.multiply.outer(w, w1(g))
    return w


def case_basis(shape, kinds):
    m = serial.modred()
    gs = [gridpts(k, n) for k, n in zip(kinds, shape)]
    ip = m.InnerProductTrapz(*gs)
    W = wts(gs)
    n = 0
    cells = list(itertools.product(*(range(s) for s in shape)))
    for a in cells:
        for b in cells:
            for ca, cb in ((1., 1.), (1., 1j), (1j, 1.), (2., -1.)) if a == b else ((1., 1j),):
                u, v = np.zeros(shape, type(ca)), np.zeros(shape, type(cb))
                u[a], v[b] = ca, cb
                n += 1
                r = np.conj(ca) * cb * W[a] if a == b else 0.
                for f in (ip, ip.inner_product):
                    g = f(u, v)
                    if np.ndim(g):
                        return 'result is not a scalar: %r' % (g,)
                    if abs(g - r) > 1e-12 * abs(r):
                        return 'entries %s, %s: %r instead of %r' % (a, b, g, r)
    return '', {'states': n, 'transitions': n, 'traces': n}


def case_general(shape, kinds, tu, tv):
    m = serial.modred()
    gs = [gridpts(k, n) for k, n in zip(kinds, shape)]
    ip = m.InnerProductTrapz(*gs)
    N = int(np.prod(shape))

    def arr(t, s):
        if t[0] in 'ub' or t[0] == 'i' and t[1:]:      # a type that does not hold the products
            b = np.round(7 * mat(N, 1, False, s) + (7 if t[0] == 'u' else 0)).reshape(shape)
            return b.astype(t) if t[0] == 'b' else (b * (8 if t[1] == '1' else 2000 if t[1] == '2' else 10 ** 8)).astype(t)
        if t == 'i':
            return np.round(5 * mat(N, 1, False, s)).astype(int).reshape(shape)
        a = mat(N, 1, t[0] == 'c', s).reshape(shape)
        return np.asfortranarray(a) if t[1:] == 'F' else (a[::-1][::-1] if t[1:] == 'v' else a)
    u, v, x = arr(tu, 1), arr(tv, 2), arr('c', 3)
    W = wts(gs)
    uni = m.inner_product_array_uniform
    r, ru = 0, 0
    for c in itertools.product(*(range(s) for s in shape)):
        uv = np.conj(complex(u[c])) * v[c]
        r = r + uv * W[c]
        ru = ru + uv
    if 'c' not in tu + tv:
        r, ru = np.real(r), np.real(ru)
    return nz(close(ip(u, v), r, 1e-12, 'grid product'), close(uni(u, v), ru, 1e-12, 'uniform product'),
              close(ip(v, u), np.conj(r), 1e-12, 'conjugate symmetry'),
              close(uni(v, u), np.conj(ru), 1e-12, 'conjugate symmetry (uniform)'),
              close(ip(u, 2j * v + x), 2j * ip(u, v) + ip(u, x), 1e-12, 'linearity'),
              close(uni(u, 2j * v + x), 2j * uni(u, v) + uni(u, x), 1e-12, 'linearity (uniform)'))


def case_reject(shape, bad, which):
    m = serial.modred()
    ip = m.InnerProductTrapz(*[gridpts('u', n) for n in shape])
    good, b = np.ones(shape), np.ones(tuple(bad))
    args = {0: (b, good), 1: (good, b), 2: (b, b)}[which]
    for f in (ip, ip.inner_product):
        try:
            r = f(*args)
        except (TypeError, ValueError, RuntimeError, IndexError):
            continue
        return 'vector of shape %s accepted for grid shape %s: %r' % (bad, shape, r)


def case_ctor(what):
    m = serial.modred()
    exc = {'none': ValueError}.get(what, TypeError)
    a = {'none': (), 'list': ([0., 1.],), 'second': (np.arange(3.), [0., 1.]), 'tuple': ((0., 1.),),
         'third': (np.arange(3.), np.arange(2.), 3)}[what]
    try:
        m.InnerProductTrapz(*a)
    except exc:
        return ''
    return 'accepted'


def run(ck):
    q = ck.quick
    S = range(1, 5)
    shapes = [[a] for a in range(1, 7)] + [list(x) for x in itertools.product(S, repeat=2)] + \
             [list(x) for x in itertools.product(range(1, 4), repeat=3)]
    if not q:
        shapes += [list(x) for x in itertools.product((1, 2, 3), repeat=4)]
    cs, gn, rj = [], [], []
    for s in shapes:
        for kinds in itertools.product('usdi' if len(s) < 3 or not q else 'si', repeat=len(s)):
            if len(s) > 3 and len(set(kinds)) != 3:
                continue
            cs.append(dict(shape=s, kinds=''.join(kinds)))
        for k in '3579to':
            for kinds in sorted({k * len(s), ('u' * 3 + k)[-len(s):]}):
                cs.append(dict(shape=s, kinds=kinds))
        for tu, tv in itertools.product(('r', 'c', 'i', 'cF', 'rv'), repeat=2):
            for kinds in ('su', 'di'):
                gn.append(dict(shape=s, kinds=(kinds * 2)[:len(s)], tu=tu, tv=tv))
        bad = set()
        for k in range(len(s)):
            for d in (-1, 1):
                b = list(s)
                b[k] += d
                bad.add(tuple(b))
            b = list(s)
            b[k] = 1
            bad.add(tuple(b))
            bad.add(tuple(s[:k] + s[k + 1:]))
        for p in itertools.permutations(s):
            bad.add(tuple(p))
        bad.update([tuple(s) + (1,), (1,) + tuple(s), (int(np.prod(s)),)])
        for b in sorted(bad - {tuple(s)}):
            for w in range(3):
                rj.append(dict(shape=s, bad=list(b), which=w))
    ck.domain('basis', cs)
    for s in shapes:
        for t in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'b'):
            for tu, tv in ((t, t), (t, 'r'), ('c', t)):
                gn += [dict(shape=s, kinds=(kinds * 2)[:len(s)], tu=tu, tv=tv) for kinds in ('su', 'ng')]
    gn += [dict(shape=s, kinds=kinds[:len(s)], tu=tu, tv=tv) for s in ([101], [1025], [33, 34], [2, 130], [130, 2], [12, 11, 10])
           for kinds in ('sud', 'dis', 'uuu') for tu, tv in (('r', 'r'), ('c', 'c'), ('r', 'c'), ('u1', 'u1'))]
    ck.domain('general', gn)
    ck.domain('reject', rj)
    ck.domain('ctor', [dict(what=w) for w in ('none', 'list', 'second', 'tuple', 'third')])
