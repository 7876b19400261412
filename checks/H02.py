"""H02: text files of arrays round-trip."""
import itertools, os
import numpy as np
from mc import serial
from mc.core import scratch

RULE = 'load(save(a)) has the same shape (1D as column) and exactly equal elements; the file has the documented layout'
BOUNDS = ('all dtypes (bool, 8 integer kinds, float16/32/64, complex64/128, lists) x memory layouts x shapes up to 4x4 '
          '(1D up to 5) x delimiters x value alphabet incl. inf, nan, -0, denormal, extremes; handles and default '
          'save/load functions; mixed sequences of saves to one file; also up to 1030 rows, '
          '2049 columns, 2210 elements')

DT = ['bool', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'f2', 'f4', 'f8', 'c8', 'c16', 'list', 'clist', 'intlist']
LAYOUTS = ['C', 'F', 'slice', 'rev', 'T', 'be', 'ro']
SPECIAL = [0., -0., 1., -1., 0.1, 1. / 3, 1e300, -1e-300, 5e-324, np.inf, -np.inf, np.nan, 123456789.123456789,
           2. ** 53, 1.7976931348623157e308]


def data(shape, dt, special=0):
    n = int(np.prod(shape))
    base = (np.arange(n) * 7 % 11 - 4) * 0.3 + 0.05
    im = (np.arange(n) * 5 % 13 - 6) * 0.7 + 0.01
    if special:
        base = np.array([SPECIAL[(i + special) % len(SPECIAL)] for i in range(n)])
        im = np.array([SPECIAL[(3 * i + 5 + special) % len(SPECIAL)] for i in range(n)])
    base, im = base.reshape(shape), im.reshape(shape)
    if dt == 'bool':
        return base > 0
    if dt[0] in 'iu' and dt != 'intlist':
        return np.round(np.abs(base) * 10).astype(dt) if dt[0] == 'u' else np.round(base * 10).astype(dt)
    if dt[0] == 'f':
        with np.errstate(all='ignore'):
            return base.astype(dt)
    if dt in ('c8', 'c16', 'clist'):
        z = np.empty(shape, complex)
        z.real, z.imag = base, im
        with np.errstate(all='ignore'):
            z = z.astype('c8' if dt == 'c8' else 'c16')
        return z.tolist() if dt == 'clist' else z
    if dt == 'list':
        return base.tolist()
    if dt == 'intlist':
        return np.round(base * 10).astype(int).tolist()


def lay(a, how):
    if isinstance(a, list):
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'slice':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'rev':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'T':
        return np.ascontiguousarray(a.T).T
    if how == 'be':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'ro':
        a = a.copy()
        a.setflags(write=False)
        return a
    return a


def same(a, b):
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if np.iscomplexobj(b) != np.iscomplexobj(a):
        return 'type %s instead of %s' % (a.dtype, b.dtype)
    for x, y in ((a.real, b.real), (a.imag, b.imag)):
        if not np.array_equal(x, y, equal_nan=True) or not np.array_equal(np.signbit(x) & (x == 0), np.signbit(y) & (y == 0)):
            return 'elements differ:\n%s\n%s' % (a, b)
    return ''


def expect(a):
    b = np.array(a)
    b = b.astype(complex if b.dtype.kind == 'c' else float)
    return b.reshape(-1, 1) if b.ndim == 1 else b


def case_round(shape, dt, layout, delim, special, via):
    m = serial.modred()
    a = lay(data(tuple(shape), dt, special), layout)
    keep = np.array(a)
    ex = expect(a)
    cplx = np.iscomplexobj(ex)
    f = os.path.join(scratch(), 'a.txt')
    kw = {} if delim is None else {'delimiter': delim}
    if via == 'util':
        m.util.save_array_text(a, f, **kw)
        got = m.util.load_array_text(f, is_complex=cplx, **kw)
        txt = open(f).read()
        rows = [[float(t) for t in (l.split() if delim in (None, '\t', ' ') else l.split(delim))]
                for l in txt.splitlines() if l.strip()]
        flat = np.empty((ex.shape[0], ex.shape[1] * (2 if cplx else 1)))
        if cplx:
            flat[:, ::2], flat[:, 1::2] = ex.real, ex.imag
        else:
            flat[:] = ex
        p = same(np.array(rows), flat)
        if p:
            return 'file layout: ' + p
    else:
        h = m.VecHandleArrayText(f, is_complex=cplx)
        h.put(a)
        got = h.get()
    p = same(np.asarray(got), ex)
    if p:
        return p
    k2 = np.array(a)
    if k2.dtype != keep.dtype or same(np.atleast_2d(k2), np.atleast_2d(keep)):
        return 'the saved array was altered'
    got2 = m.util.load_array_text(f, is_complex=cplx, **kw)
    return same(np.asarray(got2), ex)


def case_seq(shapes):
    """Saving to one path repeatedly always leaves the last array."""
    m = serial.modred()
    f = os.path.join(scratch(), 'b.txt')
    for k, (shape, dt) in enumerate(shapes):
        a = data(tuple(shape), dt, k)
        m.util.save_array_text(a, f)
        ex = expect(a)
        p = same(m.util.load_array_text(f, is_complex=np.iscomplexobj(ex)), ex)
        if p:
            return p
    return ''


def case_odd(cols):
    """Complex loading of an odd number of columns is refused."""
    m = serial.modred()
    f = os.path.join(scratch(), 'c.txt')
    m.util.save_array_text(np.ones((2, cols)), f)
    try:
        r = m.util.load_array_text(f, is_complex=True)
    except ValueError:
        return '' if cols % 2 else 'refused'
    return 'accepted' if cols % 2 else same(r, np.ones((2, cols // 2)) * (1 + 1j))


def run(ck):
    q = ck.quick
    S1 = [[n] for n in range(1, 6)]
    S2 = [[a, b] for a in range(1, 4 if q else 6) for b in range(1, 4 if q else 6)] + [[4, 4], [1, 7], [7, 1]]
    cs = []
    for shape in S1 + S2:
        for dt in DT:
            for l in LAYOUTS if 'list' not in dt else ['C']:
                if l == 'T' and len(shape) == 1:
                    continue
                if dt in ('bool', 'i1', 'u1') and l == 'be':
                    continue
                for delim in (None, ',', ';', '\t', ' ') if l in ('C', 'F') or not q else (None,):
                    for via in ('util', 'handle') if delim is None else ('util',):
                        cs.append(dict(shape=shape, dt=dt, layout=l, delim=delim, special=0, via=via))
                if dt in ('f4', 'f8', 'c8', 'c16', 'list', 'clist', 'f2'):
                    for sp in (range(1, len(SPECIAL)) if l == 'C' or not q else (3,)):
                        cs.append(dict(shape=shape, dt=dt, layout=l, delim=None, special=sp, via='util'))
    ck.domain('round', cs)
    el = [([3], 'f8'), ([2, 2], 'c16'), ([1, 3], 'i4'), ([1], 'c8'), ([4, 1], 'f4'), ([1, 1], 'f8')]
    L = 3 if q else 5
    ck.domain('seq', [dict(shapes=list(s)) for s in itertools.product(el, repeat=L)])
    ck.domain('odd', [dict(cols=c) for c in range(1, 9)])
    ck.domain('round', [dict(shape=s, dt=d, layout=l, delim=e, special=p, via='util')
                        for s in ([130], [1030], [12, 11], [101, 3], [3, 101], [1001, 1], [1, 1001], [40, 33], [130, 17], [1, 2049])
                        for d in ('f8', 'c16', 'f4', 'i4', 'list', 'clist') for l in (('C', 'F') if 'list' not in d else ('C',)) for e in (None, ',')
                        for p in ((0, 3) if d not in ('i4',) else (0,))], chunk=8)
    ck.domain('odd', [dict(cols=c) for c in (31, 32, 99, 100, 101, 102, 255, 256, 257)])
