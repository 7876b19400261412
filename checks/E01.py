"""E01: Hankel arrays have constant skew diagonals."""
import numpy as np
from mc import serial
from mc.num import mat

RULE = ('entry (chunk) [i, j] is first_col[i + j] while i + j < number of rows, else last_row[i + j - rows + 1]; zeros for an '
        'omitted last row (square); documented size; inputs unchanged')
BOUNDS = ('all lengths 1..7 (10 thorough) of first column and last row; list, tuple, integer, float, complex, 2D column/row '
          'input; first element of the last row equal or unequal; chunks of 1..3 x 1..3 with 1..4 (6) chunks each way; also lengths 12..200, '
          'chunks up to 11 x 2 and 4 x 17 and 30 chunks each way')


def vec(kind, n, s):
    r = np.arange(1, n + 1) * (1 if s == 0 else 10) + 100 * s
    if kind == 'int':
        return r, r
    if kind == 'list':
        return [int(x) for x in r], r
    if kind == 'tuple':
        return tuple(float(x) for x in r), r * 1.
    if kind == 'float':
        return r + 0.25, r + 0.25
    if kind == 'complex':
        return r + 0.5j * r, r + 0.5j * r
    if kind == 'col':
        return (r * 1.5).reshape(-1, 1), r * 1.5
    if kind == 'row':
        return (r * 1.5).reshape(1, -1), r * 1.5
    if kind == 'neg':
        return (-r * 1.)[::-1][::-1], -r * 1.


KINDS = ['int', 'list', 'tuple', 'float', 'complex', 'col', 'row', 'neg']


def case_elem(ka, kb, m, n):
    u = serial.modred().util
    a, av = vec(ka, m, 0)
    b, bv = (None, None) if kb == 'none' else vec(kb, n, 1)
    keep = [np.array(x) if x is not None else None for x in (a, b)]
    h = u.Hankel(a) if b is None else (u.Hankel(a, b) if n % 2 else u.Hankel(a, last_row=b))
    nc = m if b is None else n
    if h.shape != (m, nc):
        return 'size %s instead of %s' % (h.shape, (m, nc))
    for i in range(m):
        for j in range(nc):
            k = i + j
            e = av[k] if k < m else (0 if b is None else bv[k - m + 1])
            if h[i, j] != e:
                return 'entry %d, %d is %s instead of %s' % (i, j, h[i, j], e)
    for x, y in zip((a, b), keep):
        if x is not None and (not np.array_equal(np.array(x), y) or np.shape(x) != y.shape):
            return 'input changed'
    # the result shares nothing with the input
    if h.size and isinstance(a, np.ndarray):
        h[0, 0] = -77
        if a.ravel()[0] == -77:
            return 'result shares memory with the first column'
    return ''


def case_chunks(p, q, m, n, dt, none, view):
    u = serial.modred().util

    def chunk(k):
        c = np.arange(p * q).reshape(p, q) + 100. * k
        if dt == 'int':
            c = c.astype(int)
        elif dt == 'complex':
            c = c * (1 + 0.5j)
        return np.asfortranarray(c) if view else c
    first = [chunk(k) for k in range(m)]
    last = None if none else [chunk(900)] + [chunk(m + k) for k in range(n - 1)]
    f0, l0 = [c.copy() for c in first], None if none else [c.copy() for c in last]
    nf = len(first)
    h = u.Hankel_chunks(first) if none else u.Hankel_chunks(first, last_row_chunks=last)
    nc = m if none else n
    if h.shape != (m * p, nc * q):
        return 'size %s instead of %s' % (h.shape, (m * p, nc * q))
    for i in range(m):
        for j in range(nc):
            k = i + j
            e = chunk(k) if k < m or not none else np.zeros((p, q))
            g = h[i * p:(i + 1) * p, j * q:(j + 1) * q]
            if not np.array_equal(g, e):
                return 'chunk %d, %d is %s instead of %s' % (i, j, g.tolist(), e.tolist())
    if len(first) != nf or not all(np.array_equal(a, b) for a, b in zip(first, f0)):
        return 'first column changed'
    if last is not None and (len(last) != n or not all(np.array_equal(a, b) for a, b in zip(last, l0))):
        return 'last row changed'
    if p == q == 1:
        e = u.Hankel([c[0, 0] for c in first]) if none else u.Hankel([c[0, 0] for c in first], [c[0, 0] for c in last])
        if not np.array_equal(h, e):
            return 'differs from the element-wise Hankel array'
    return ''


def run(ck):
    N = 7 if ck.quick else 10
    ck.domain('elem', [dict(ka=a, kb=b, m=m, n=n) for a in KINDS for b in KINDS + ['none'] for m in range(1, N + 1)
                       for n in (range(1, N + 1) if b != 'none' else [0])])
    C = 4 if ck.quick else 6
    ck.domain('elem', [dict(ka=a, kb=b, m=m, n=n) for a in ('int', 'list', 'complex', 'col') for b in ('float', 'row', 'none')
                       for m in (12, 33, 65, 101, 130) for n in ((1, 11, 64, 129, 200) if b != 'none' else [0])])
    ck.domain('chunks', [dict(p=p, q=q, m=m, n=n, dt=d, none=z, view=v) for p in (1, 2, 3) for q in (1, 2, 3)
                         for m in range(1, C + 1) for z in (False, True) for n in (range(1, C + 1) if not z else [0])
                         for d in ('float', 'int', 'complex') for v in (False, True)])
    ck.domain('chunks', [dict(p=p, q=q, m=m, n=n, dt=d, none=z, view=False) for p, q in ((1, 1), (2, 1), (3, 4), (11, 2), (4, 17))
                         for m in (10, 23) for z in (False, True) for n in ((9, 12, 30) if not z else [0])
                         for d in ('float', 'complex')])
