"""V03: what modred requires of user vectors, the Vector base class and sanity_check."""
import itertools
import numpy as np
from mc import serial, hand
from mc.num import close, nz, mat, herm

RULE = ('objects that offer nothing but v + w and v * s give in every operation the results of the same data held in plain '
        'arrays; Vector supplies s * v and v - w from + and v * s and refuses what is not defined; sanity_check accepts every '
        'correct vector of any magnitude and precision, leaves it unaltered, and refuses every wrong one')
BOUNDS = ('6 kinds of vectors (minimal and strict, with left multiplication, Vector subclass, 2D and 3D arrays, nested lists of '
          'arrays) x 13 operations x sizes x memory limits 2, 3, unlimited; 18 defects of addition, multiplication and inner '
          'product x magnitudes 1e-9..1e9 x 4 precisions x 4 sizes x 5 classes')


class Refused(Exception):
    pass


class Min(object):
    """Addition of its own kind and multiplication by a scalar on the right."""
    __slots__ = ('_a',)

    def __init__(self, a):
        a = np.array(a)
        a.flags.writeable = False
        self._a = a

    def __add__(self, o):
        if type(o) is not type(self):
            raise Refused('vector + %s' % type(o).__name__)
        return type(self)(self._a + o._a)

    def __mul__(self, s):
        if type(s) is type(self) or np.ndim(s):
            raise Refused('vector * %s' % type(s).__name__)
        return type(self)(self._a * s)


class Left(Min):
    __slots__ = ()

    def __rmul__(self, s):
        return self * s


_SUB = []


def sub():
    if not _SUB:
        class Sub(serial.modred().Vector):
            def __init__(self, a):
                self._a = np.array(a)
                self._a.flags.writeable = False

            def __add__(self, o):
                return Sub(self._a + o._a)

            def __mul__(self, s):
                return Sub(self._a * s)
        _SUB.append(Sub)
    return _SUB[0]


class Two(object):
    """A vector made of several fields."""
    def __init__(self, f):
        self.f = f

    def __add__(self, o):
        return Two([x + y for x, y in zip(self.f, o.f)])

    def __mul__(self, s):
        return Two([x * s for x in self.f])


KINDS = {'min': Min, 'left': Left, 'sub': lambda a: sub()(a), 'a2': lambda a: np.array(a).reshape(-1, 1),
         'a3': lambda a: np.array(a).reshape(1, -1, 1), 'two': lambda a: Two([np.array(a[:1]), np.array(a[1:])])}


def flat(v):
    if isinstance(v, Two):
        return np.concatenate(v.f)
    return np.asarray(getattr(v, '_a', v)).reshape(-1)


class In(object):
    def __init__(self, a, k):
        self.a, self.k = a, k

    def get(self):
        return KINDS[self.k](self.a)


class Out(object):
    def __init__(self):
        self.v = None

    def put(self, v):
        self.v = v


def case_use(op, kind, ns, nv, cplx, maxv):
    m = serial.modred()
    W = herm(ns, cplx, 2)
    X, Y = mat(ns, nv, cplx, 1), mat(ns, nv, cplx, 2)

    def ip(a, b):
        return flat(a).conj().dot(W).dot(flat(b))

    def h(A):
        return [In(A[:, j], kind) for j in range(A.shape[1])]

    def same(outs, E, what):
        r = []
        for j, o in enumerate(outs):
            if o.v is None:
                r.append('%s %d not stored' % (what, j))
            elif kind in ('min', 'left', 'two', 'sub') and type(o.v) is not type(KINDS[kind](X[:, 0])):
                r.append('%s %d stored as %s' % (what, j, type(o.v).__name__))
            else:
                r += nz(close(flat(o.v), E[:, j], 1e-9, '%s %d' % (what, j)))
        return r
    kw = dict(inner_product=ip, max_vecs_per_node=maxv, verbosity=0)
    if op in ('ip', 'symm', 'lin'):
        vs = m.VectorSpaceHandles(**kw)
        if op == 'ip':
            return close(vs.compute_inner_product_array(h(X), h(Y)), X.conj().T.dot(W).dot(Y), 1e-10, 'inner products')
        if op == 'symm':
            return close(vs.compute_symm_inner_product_array(h(X)), X.conj().T.dot(W).dot(X), 1e-10, 'inner products')
        C = mat(nv, 3, cplx, 4)
        outs = [Out() for _ in range(3)]
        vs.lin_combine(outs, h(X), C)
        return same(outs, X.dot(C), 'linear combination')
    if op == 'derivs':
        outs = [Out() for _ in range(nv)]
        m.compute_derivs_handles(h(X), h(Y), outs, 0.25)
        return same(outs, (Y - X) / 0.25, 'derivative')
    if op == 'base':
        b = m.VecHandleInMemory(KINDS[kind](X[:, 0]))
        hs = [m.VecHandleInMemory(KINDS[kind](Y[:, j]), base_vec_handle=b, scale=s)
              for j in range(nv) for s in (None, -2.)]
        E = np.array([(Y[:, j] - X[:, 0]) * (s or 1) for j in range(nv) for s in (None, -2.)]).T
        r = []
        for j, o in enumerate(hs):
            o2 = Out()
            o2.v = o.get()
            r += same([o2], E[:, j:j + 1], 'base-subtracted vector')
        return r
    if op == 'galerkin':
        g = m.LTIGalerkinProjectionHandles(ip, h(X), adjoint_basis_vec_handles=h(Y), verbosity=0, max_vecs_per_node=maxv)
        A, B, C = g.compute_model(h(Y[:, ::-1]), h(X[:, :1]), [np.array([1., 2.])] * nv)
        T = np.linalg.inv(Y.conj().T.dot(W).dot(X))
        return nz(close(A, T.dot(Y.conj().T).dot(W).dot(Y[:, ::-1]), 1e-7, 'A'),
                  close(B, T.dot(Y.conj().T).dot(W).dot(X[:, :1]), 1e-7, 'B'))
    if op == 'sane':
        for c in ('PODHandles', 'BPODHandles', 'DMDHandles', 'TLSqrDMDHandles', 'VectorSpaceHandles'):
            getattr(m, c)(**kw).sanity_check(In(X[:, 0], kind))
        return ''
    # decompositions: modes, in the kind of the data, against those from plain arrays
    tag, seq = op.split('_')
    ref = hand.make(tag, W, maxv=1000)
    o = getattr(m, hand.CLS[tag])(put_array=hand.mem_put, get_array=hand.mem_get, **kw)
    Z = None if seq == 'seq' else Y
    hand.decomp(ref, tag, X, Z)
    xh, yh = h(X), (h(Y) if Z is not None else None)
    if tag == 'pod':
        o.compute_decomp(xh)
    elif tag == 'bpod':
        o.compute_decomp(xh, yh, num_inputs=1, num_outputs=1)
    else:
        o.compute_decomp(xh, adv_vec_handles=yh)
    r = []
    for n in hand.DECOMP[tag] + hand.ARRAYS[tag]:
        r += nz(close(getattr(o, n), getattr(ref, n), 1e-7, n))
    if r:
        return r
    e = hand.modes(ref, tag)
    for n in hand.MODES[tag]:
        outs = [Out() for _ in range(e[n].shape[1])]
        getattr(o, 'compute_' + n)(list(range(len(outs))), outs)
        r += same(outs, e[n], n)
    return r


def case_vector(form, s):
    """The Vector base class."""
    m = serial.modred()
    s = {'c': 1j, 'npf': np.float32(2), 'npi': np.int64(3)}.get(s, s)
    a, b = np.array([1., -2., 4.]), np.array([0.5, 3., 1.])

    class V(m.Vector):
        def __init__(self, x):
            self.x = x

        def __add__(self, o):
            return V(self.x + o.x)

        def __mul__(self, t):
            return V(self.x * t)
    v, w = V(a.copy()), V(b.copy())
    g, e = {'sub': lambda: (v - w, a - b), 'subself': lambda: (v - v, a - a), 'chain': lambda: (v - w - v * s, a - b - a * s),
            'right': lambda: (v * s, a * s), 'left': lambda: (s * v, s * a), 'lmul': lambda: (v.__lmul__(s), s * a),
            'comb': lambda: (s * v - w * s + v, s * a - b * s + a)}[form]()
    if not isinstance(g, V):
        return '%s gives %s' % (form, type(g).__name__)
    return nz(close(g.x, e, 1e-14, form), close(v.x, a, 0, 'first operand'), close(w.x, b, 0, 'second operand'))


def case_missing(what):
    m = serial.modred()

    class V(m.Vector):
        def __init__(self):
            pass

    class A(V):
        def __add__(self, o):
            return self

    class M(V):
        def __mul__(self, o):
            return self
    f = {'init': lambda: m.Vector(), 'add': lambda: V() + V(), 'mul': lambda: V() * 2., 'rmul': lambda: 2. * V(),
         'add2': lambda: M() + M(), 'mul2': lambda: A() * 2., 'rmul2': lambda: 2 * A(), 'sub': lambda: V() - V(),
         'sub2': lambda: M() - M(), 'sub3': lambda: A() - A()}[what]
    try:
        f()
    except NotImplementedError:
        return ''
    return 'accepted'


def good(dtype, n, mag, form):
    a = mat(n, 1, dtype[0] == 'c', n)[:, 0]
    return ((a + 0.1) * mag).astype(dtype).reshape({'1d': (-1,), '2d': (1, -1), '3d': (-1, 1, 1), 'min': (-1,)}[form])


def case_accept(cls, dtype, n, mag, form):
    m = serial.modred()
    a = good(dtype, n, mag, form)
    v = Min(a) if form == 'min' else a.copy()
    o = getattr(m, cls)(inner_product=lambda x, y: np.vdot(getattr(x, '_a', x), getattr(y, '_a', y)), verbosity=0)

    class Hd(object):
        def get(self):
            return v

        def put(self, x):
            raise Refused('put')
    r = o.sanity_check(Hd())
    if r is not None and r is False:
        return 'returns False for a correct vector'
    return close(getattr(v, '_a', v), a, 0, 'vector after the check')


DEFECTS = ['mul_inplace', 'mul_alters', 'mul_ignores', 'mul_square', 'mul_plus', 'mul_first', 'add_inplace', 'add_alters',
           'add_ignores', 'add_mean', 'add_minus', 'ip_cubic', 'ip_norm', 'ip_const', 'mul_reverse', 'add_double', 'mul_cube',
           'mul_sqrt']


def case_refuse(cls, dtype, n, mag, defect):
    m = serial.modred()
    a = good(dtype, n, mag, '1d')

    class V(object):
        def __init__(self, x):
            self.x = x

        def __add__(self, o):
            if defect == 'add_inplace':
                self.x += o.x
                return self
            if defect == 'add_alters':
                self.x += o.x
                return V(self.x.copy())
            if defect == 'add_ignores':
                return V(self.x.copy())
            if defect == 'add_mean':
                return V((self.x + o.x) / 2)
            if defect == 'add_minus':
                return V(self.x - o.x)
            if defect == 'add_double':
                return V(self.x + 2 * o.x)
            return V(self.x + o.x)

        def __mul__(self, s):
            if defect == 'mul_inplace':
                self.x *= s
                return self
            if defect == 'mul_alters':
                self.x *= s
                return V(self.x.copy())
            if defect == 'mul_ignores':
                return V(self.x.copy())
            if defect == 'mul_square':
                return V(self.x * s * s)
            if defect == 'mul_cube':
                return V(self.x * s * s * s)
            if defect == 'mul_sqrt':
                return V(self.x * np.sqrt(abs(s)))
            if defect == 'mul_plus':
                return V(self.x * (s + 0.25))
            if defect == 'mul_first':
                y = self.x.copy()
                y[0] *= s
                return V(y if n > 1 else y * 1.1)
            if defect == 'mul_reverse':
                return V(self.x * -s)
            return V(self.x * s)

    def ip(x, y):
        if defect == 'ip_cubic':
            return np.vdot(x.x / mag, (y.x / mag) ** 2)
        if defect == 'ip_norm':
            return np.sqrt(abs(np.vdot(x.x, y.x)))
        if defect == 'ip_const':
            return 1.
        return np.vdot(x.x, y.x)
    o = getattr(m, cls)(inner_product=ip, verbosity=0)
    h = m.VecHandleInMemory(V(a.copy()))
    try:
        o.sanity_check(h)
    except ValueError:
        return ''
    return 'accepts vectors of magnitude %g with defect %s' % (mag, defect)


def case_noip(cls):
    m = serial.modred()
    o = getattr(m, cls)(inner_product=None, verbosity=0) if cls == 'VectorSpaceHandles' else getattr(m, cls)(None, verbosity=0)
    try:
        o.sanity_check(m.VecHandleInMemory(np.array([1., 2.])))
    except RuntimeError:
        return ''
    return 'accepted without inner product'


OPS = ['ip', 'symm', 'lin', 'derivs', 'base', 'galerkin', 'sane', 'pod_', 'bpod_', 'dmd_', 'dmd_seq', 'tls_', 'tls_seq']
CL = ['VectorSpaceHandles', 'PODHandles', 'BPODHandles', 'DMDHandles', 'TLSqrDMDHandles']


def run(ck):
    q = ck.quick
    B = (False, True)
    ck.domain('use', [dict(op=o, kind=k, ns=s, nv=v, cplx=c, maxv=x) for o in OPS for k in KINDS
                      for s, v in (((4, 3), (5, 2), (3, 1)) if q else itertools.product((3, 4, 5, 6), (1, 2, 3)))
                      for c in B for x in (2, 3, 1000) if not (v == 1 and o.endswith('seq'))], chunk=16)
    ck.domain('vector', [dict(form=f, s=s) for f in ('sub', 'subself', 'chain', 'right', 'left', 'lmul', 'comb')
                         for s in (0, 1, -1, 2.5, -0.5, 'c', 'npf', 'npi')
                         if not (s in ('npf', 'npi') and f in ('left', 'comb'))])
    ck.domain('missing', [dict(what=w) for w in ('init', 'add', 'mul', 'rmul', 'add2', 'mul2', 'rmul2', 'sub', 'sub2', 'sub3')])
    M = (1e-9, 1e-6, 1e-3, 1., 1e3, 1e6, 1e9) if q else tuple(10. ** k for k in range(-12, 13))
    ck.domain('accept', [dict(cls=c, dtype=t, n=n, mag=g, form=f) for c in CL for t in ('f8', 'c16', 'f4', 'c8')
                         for n in (1, 2, 7, 40) + (() if q else (1000, 30000)) for g in M for f in ('1d', '2d', '3d', 'min')])
    ck.domain('refuse', [dict(cls=c, dtype=t, n=n, mag=g, defect=d) for c in CL for t in ('f8', 'c16', 'f4', 'c8')
                         for n in (1, 2, 7, 40) for g in M for d in DEFECTS])
    ck.domain('noip', [dict(cls=c) for c in CL])
