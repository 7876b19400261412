"""H01: vector handles over all bounded histories of get/put operations."""
import itertools, os
import numpy as np
from mc import serial
from mc.core import scratch
from mc.num import close

RULE = ('after every history of puts and gets on a set of handles sharing stored vectors, base handles and scale '
        'factors, every get returns (last stored - what the base delivers) * scale; returned and stored vectors are '
        'never altered afterwards')
BOUNDS = ('13 handle configurations (chains of bases, equal paths/vectors with different scale, base or class) x 8 '
          'storage kinds; all histories of length <= 4..6 over every get, every put of 2 values and (file storage) the caller '
          'altering in place what it got and put; 28 unusual scale factors (within rounding of 1, tiny, huge, 0, complex, other types) x '
          '8 unusual base vectors x 6 vectors x 3 storage kinds, to rounding')

V = [np.array([[1., -2.], [3., 0.5]]), np.array([[0., 5.], [-1., 2.]]), np.array([[7., 1.], [2., -3.]])]
VC = [V[0] + 1j * V[1], V[1] - 2j * V[2], 1j * V[2]]

# configuration: list of (storage, base handle index or None, scale); handles on the same storage share it
CONFIGS = {
    'plain': [(0, None, None), (1, None, 2.)],
    'base': [(0, None, None), (1, 0, None), (2, 0, -0.5)],
    'twobases': [(0, None, None), (1, None, None), (2, 0, None), (2, 1, None)],
    'scaledbase': [(0, None, None), (0, None, 2.), (1, 0, None), (1, 1, None)],
    'chain': [(0, None, None), (1, 0, None), (2, 1, None)],
    'chainscale': [(0, None, 3.), (1, 0, 2.), (2, 1, -1.)],
    'basewithbase': [(0, None, None), (1, None, None), (1, 0, None), (2, 1, None), (2, 2, None)],
    'samebase': [(0, None, None), (0, None, None), (1, 0, None), (2, 1, 0.5)],
    'selfstore': [(0, None, None), (0, 0, 2.)],
    'zeroscale': [(0, None, None), (1, 0, 0.)],
    'cscale': [(0, None, None), (1, 0, 1j), (1, 0, None)],
    'scaletypes': [(0, None, None), (1, 0, 1), (1, 0, -1)],
    'eqscale1': [(0, None, 1.), (0, None, -1.), (1, 0, None), (1, 1, None)],
}
def _uvec():
    m = serial.modred()
    global UVec
    if 'UVec' not in globals():
        class UVec(m.Vector):
            def __init__(self, a):
                self.a = a

            def __add__(self, o):
                return UVec(self.a + o.a)

            def __mul__(self, s):
                return UVec(self.a * s)
        UVec.__qualname__ = 'UVec'
        UVec.__module__ = __name__
        globals()['UVec'] = UVec
    return globals()['UVec']


class MinVec(object):
    """The documented minimum: + and scalar multiplication."""
    def __init__(self, a):
        self.a = a

    def __add__(self, o):
        return MinVec(self.a + o.a)

    def __mul__(self, s):
        return MinVec(self.a * s)


def _raw(v):
    return getattr(v, 'a', v)


def _mk(cfg, kind, init):
    """Handles of a configuration with initial contents."""
    m = serial.modred()
    mk = (lambda a: _uvec()(a.copy())) if kind == 'objpickle' or kind == 'objmem' else (
        lambda a: MinVec(a.copy())) if kind == 'minmem' else (lambda a: a.copy())
    hs = []
    d = scratch() if kind in ('text', 'ctext', 'pickle', 'objpickle') else None
    for st, b, sc in CONFIGS[cfg]:
        base = hs[b] if b is not None else None
        if d is None:
            hs.append(m.VecHandleInMemory(mk(init[st]), base_vec_handle=base, scale=sc))
        elif kind in ('text', 'ctext'):
            kw = dict(is_complex=True) if kind == 'ctext' else {}
            hs.append(m.VecHandleArrayText(os.path.join(d, 's%d' % st), base_vec_handle=base, scale=sc, **kw))
        else:
            hs.append(m.VecHandlePickle(os.path.join(d, 's%d' % st), base_vec_handle=base, scale=sc))
    if d is not None:
        for i, (st, b, sc) in enumerate(CONFIGS[cfg]):
            hs[i].put(mk(init[st]))
    return hs, mk


def _play(cfg, kind, ops):
    C = CONFIGS[cfg]
    vals = VC if kind in ('ctext', 'cmem', 'pickle') else V
    init = vals
    hs, mk = _mk(cfg, kind, init)
    shared = kind not in ('mem', 'cmem', 'objmem', 'minmem')
    store = {}
    for i, (st, b, sc) in enumerate(C):
        store[st if shared else i] = init[st]
    kept = []

    def model(i):
        st, b, sc = C[i]
        v = store[st if shared else i]
        if b is not None:
            v = v - model(b)
        return v if sc is None else v * sc
    for n, op in enumerate(ops):
        if op[0] == 'm':            # the caller alters what it got and put
            for v in [x for x, _ in kept]:
                r = _raw(v)
                if r.flags.writeable:
                    r += 7.
            kept = []
        elif op[0] == 'g':
            v = hs[op[1]].get()
            m = close(_raw(v), model(op[1]), 1e-12, 'after %s, get from handle %d' % (_show(ops[:n]), op[1]))
            if m:
                return m
            kept.append((v, np.array(_raw(v))))
        else:
            v = mk(vals[op[2]])
            r = hs[op[1]].put(v)
            store[C[op[1]][0] if shared else op[1]] = vals[op[2]]
            kept.append((v, np.array(_raw(v))))
    for v, c in kept:
        if not np.array_equal(_raw(v), c):
            return 'after %s: a vector put or returned earlier was altered' % _show(ops)
    return ''


def _show(ops):
    return '[%s]' % ' '.join('%s%s%s' % (o[0], o[1] if len(o) > 1 else '', '=%d' % o[2] if len(o) > 2 else '') for o in ops)


def alphabet(cfg, kind):
    n = len(CONFIGS[cfg])
    own = [] if kind.endswith('mem') else [['m']]
    return own + [['g', i] for i in range(n)] + [['p', i, v] for i in range(n) for v in (1, 2)]


def case_hist(cfg, kind, first, depth):
    """All histories of the given length that begin with ``first`` and end in
    a get (a get of every handle is appended)."""
    A = alphabet(cfg, kind)
    gets = [a for a in A if a[0] == 'g']
    k = 0
    seen = set()
    for mid in itertools.product(A, repeat=depth - 2):
        for last in gets:
            ops = [first] + list(mid) + [last]
            k += 1
            m = _play(cfg, kind, ops)
            if m:
                return m, {'states': k, 'transitions': k * depth, 'traces': k}
    return '', {'states': k, 'transitions': k * depth, 'traces': k}


SCALES = {'1': 1, '1.': 1., 'True': True, '0': 0, '-0.': -0., '-1': -1, '-1.': -1., '1+ulp': np.nextafter(1., 2.),
          '1-ulp': np.nextafter(1., 0.), '1+1e-9': 1 + 1e-9, '1-1e-12': 1 - 1e-12, '1+1e-6': 1 + 1e-6, '-1-1e-9': -1 - 1e-9,
          '1e-9': 1e-9, '1e-20': 1e-20, '1e-300': 1e-300, '1e9': 1e9, '1e200': 1e200, '2': 2, '0.5': .5, '1/3': 1 / 3.,
          'float32': np.float32(1 / 3.), 'int64': np.int64(3), '0d': np.array(0.3), 'complex': 1 + 1e-9j, '1j': 1j,
          '1+0j': 1 + 0j, 'none': None}
BASES = ('none', 'zero', 'equal', 'near', 'tiny', 'huge', 'ordinary', 'scaled')
VALS = {'ordinary': np.array([[1., -2.], [3., 0.5]]), 'tiny': 1e-200 * np.array([[1., -2.], [3., 0.5]]),
        'huge': 1e80 * np.array([[1., -2.], [3., 0.5]]), 'mixed': np.array([[1e9, -2e-9], [0., 3.]]),
        'row': np.array([[1e-9, 2., -3e5]]), 'cplx': np.array([[1e-9j, 2. + 1e-12j, -3e5]])}


def case_scale(kind, scale, base, val):
    """Unusual scale factors and base vectors: the result of get is exact to rounding."""
    m = serial.modred()
    v, s = VALS[val], SCALES[scale]
    b = {'none': None, 'zero': 0. * v, 'equal': v.copy(), 'near': v * (1 + 1e-10), 'tiny': 1e-13 * v[..., ::-1], 'huge':
         1e12 * v[..., ::-1], 'ordinary': v[..., ::-1].copy(), 'scaled': v[..., ::-1].copy()}[base]
    d = None if kind == 'mem' else scratch()

    def mk(name, a, **kw):
        if d is None:
            return m.VecHandleInMemory(a.copy(), **kw)
        if kind == 'text':
            kw['is_complex'] = bool(np.iscomplexobj(a))
        h = {'text': m.VecHandleArrayText, 'pickle': m.VecHandlePickle}[kind](os.path.join(d, name), **kw)
        h.put(a.copy())
        return h
    bh = None if b is None else mk('b', b, scale=0.25 if base == 'scaled' else None)
    bb = None if b is None else b * (0.25 if base == 'scaled' else 1.)
    h = mk('v', v, base_vec_handle=bh, scale=s)
    with np.errstate(all='ignore'):
        e = v if bb is None else v - bb
        e = e if s is None else e * s
        big = np.abs(v) + (0. if bb is None else np.abs(bb))
        big = big if s is None else big * np.abs(s)
    for i in range(2):
        with np.errstate(all='ignore'):
            g = np.asarray(h.get())
        if g.shape != e.shape:
            return 'shape %s instead of %s' % (g.shape, e.shape)
        if not np.isfinite(e).all():
            return '', {'skipped': 1}
        # the text format keeps 17 digits
        if not (np.abs(g - e) <= 8 * 2.3e-16 * big + 1e-315).all():
            return 'get %d: %s instead of %s' % (i, g.tolist(), e.tolist())
    return ''


def run(ck):
    q = ck.quick
    cs = []
    for cfg in CONFIGS:
        for kind in ('mem', 'cmem', 'objmem', 'minmem', 'pickle', 'objpickle', 'text', 'ctext'):
            A = alphabet(cfg, kind)
            if kind == 'text' and cfg == 'cscale':
                pass
            slow = kind not in ('mem', 'cmem', 'objmem', 'minmem')
            limit = (10000 if slow else 60000) if q else (60000 if slow else 500000)
            depth = 3
            while depth < 7 and len(A) ** (depth + 1) // 3 <= limit:
                depth += 1
            for a in A:
                cs.append(dict(cfg=cfg, kind=kind, first=a, depth=depth))
    ck.domain('scale', [dict(kind=k, scale=s, base=b, val=v) for k in ('mem', 'pickle', 'text') for s in SCALES
                        for b in BASES for v in VALS])
    ck.domain('hist', cs, chunk=1, timeout=600)
