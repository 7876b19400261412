"""Handle-based decompositions run serially on in-memory handles."""
import shutil, tempfile
from types import SimpleNamespace
import numpy as np
from . import serial
from .ref import H


class Vec(object):
    """Minimal vector object: addition and multiplication by scalars."""
    def __init__(self, a):
        self.a = a

    def __add__(self, o):
        return Vec(self.a + o.a)

    def __mul__(self, s):
        return Vec(self.a * s)


class Out(object):
    """Output handle remembering what was stored."""
    def __init__(self):
        self.v = []

    def put(self, v):
        self.v.append(np.array(getattr(v, 'a', v)).reshape(-1))


class In(object):
    def __init__(self, a, vk):
        self.a, self.vk = np.array(a), vk

    def get(self):
        if self.vk == 'obj':
            return Vec(self.a.copy())
        if self.vk == '2d':
            return self.a.copy().reshape(1, -1)
        return self.a.copy()

    def put(self, v):
        raise AssertionError('input stored')


class Pool(object):
    """Handles that stay the same (objects, or paths of files) when their vectors are replaced."""
    def __init__(self, kind):
        self.kind, self.h, self.lists, self.dir = kind, {}, {}, None
        if kind == 'file':
            self.dir = tempfile.mkdtemp(prefix='mc_pool_')

    def get(self, role, X):
        m = serial.modred()
        k = X.shape[1]
        for j in range(k):
            if self.kind == 'file':
                self.h[role, j] = m.VecHandlePickle('%s/%s%d' % (self.dir, role, j))
            else:
                self.h.setdefault((role, j), m.VecHandleInMemory())
            self.h[role, j].put(X[:, j].copy())
        new = [self.h[role, j] for j in range(k)]
        return new if self.kind == 'file' else self.lists.setdefault((role, k), new)

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def handles(X, vk='1d', role='x'):
    m = serial.modred()
    if isinstance(vk, Pool):
        return vk.get(role, X)
    if vk == 'mem':
        return [m.VecHandleInMemory(X[:, j].copy()) for j in range(X.shape[1])]
    return [In(X[:, j], vk) for j in range(X.shape[1])]


def ipW(W):
    def ip(a, b):
        a, b = (np.asarray(getattr(v, 'a', v)).reshape(-1) for v in (a, b))
        return a.conj().dot(W).dot(b)
    return ip


STORE = {}


def mem_put(a, dest):
    STORE[dest] = np.array(a)


def mem_get(src):
    return STORE[src].copy()


CLS = {'pod': 'PODHandles', 'bpod': 'BPODHandles', 'dmd': 'DMDHandles', 'tls': 'TLSqrDMDHandles'}
DECOMP = {'pod': ['eigvals', 'eigvecs'], 'bpod': ['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
          'dmd': ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals',
                  'correlation_array_eigvecs'],
          'tls': ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                  'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']}
ARRAYS = {'pod': ['correlation_array'], 'bpod': ['Hankel_array'], 'dmd': ['correlation_array', 'cross_correlation_array'],
          'tls': ['correlation_array', 'cross_correlation_array', 'adv_correlation_array']}
MODES = {'pod': ['modes'], 'bpod': ['direct_modes', 'adjoint_modes'], 'dmd': ['exact_modes', 'proj_modes', 'adjoint_modes']}
MODES['tls'] = MODES['dmd']
COEFFS = {'pod': ['proj_coeffs'], 'bpod': ['direct_proj_coeffs', 'adjoint_proj_coeffs'],
          'dmd': ['spectral_coeffs', 'proj_coeffs', 'adv_proj_coeffs']}
COEFFS['tls'] = COEFFS['dmd']
COUNT = {'pod': 'eigvals', 'bpod': 'sing_vals', 'dmd': 'correlation_array_eigvals', 'tls': 'proj_correlation_array_eigvals'}


def make(kind, W, put=mem_put, get=mem_get, maxv=None, **kw):
    m = serial.modred()
    return getattr(m, CLS[kind])(inner_product=ipW(W), put_array=put, get_array=get, max_vecs_per_node=maxv, verbosity=0, **kw)


def decomp(o, kind, X, Y, ni=1, no=1, vk='1d', **tr):
    """compute_decomp with handles of the data."""
    xh = handles(X, vk)
    yh = handles(Y, vk, 'y') if Y is not None else None
    if kind == 'pod':
        return o.compute_decomp(xh, **tr)
    if kind == 'bpod':
        return o.compute_decomp(xh, yh, num_inputs=ni, num_outputs=no, **tr)
    return o.compute_decomp(xh, adv_vec_handles=yh, **tr)


def nmodes(o, kind):
    return np.asarray(getattr(o, COUNT[kind])).size


def one_modes(o, kind, name, idx, **kw):
    outs = [Out() for _ in idx]
    getattr(o, 'compute_' + name)(idx, outs, **kw)
    for h in outs:
        if len(h.v) != 1:
            raise AssertionError('%d vectors stored through one handle' % len(h.v))
    return np.array([h.v[0] for h in outs]).T if outs else np.zeros((0, 0))


def modes(o, kind, idx=None, X=None, Y=None, vk='1d'):
    """All kinds of modes (with explicit handles if data are given)."""
    r = {}
    for name in MODES[kind]:
        kw = {}
        if X is not None:
            if kind == 'pod':
                kw = dict(vec_handles=handles(X, vk))
            elif name == 'direct_modes':
                kw = dict(direct_vec_handles=handles(X, vk))
            elif kind == 'bpod':
                kw = dict(adjoint_vec_handles=handles(Y, vk, 'y'))
            elif name == 'exact_modes':
                kw = dict(adv_vec_handles=handles(Y if Y is not None else X[:, 1:], vk, 'y'))
            else:
                kw = dict(vec_handles=handles(X, vk))
        r[name] = one_modes(o, kind, name, list(range(nmodes(o, kind))) if idx is None else idx, **kw)
    return r


def coeffs(o, kind):
    if kind == 'pod':
        return {'proj_coeffs': o.compute_proj_coeffs()}
    if kind == 'bpod':
        return {'direct_proj_coeffs': o.compute_direct_proj_coeffs(), 'adjoint_proj_coeffs': o.compute_adjoint_proj_coeffs()}
    s = o.compute_spectrum()
    p, a = o.compute_proj_coeffs()
    return {'spectral_coeffs': s, 'proj_coeffs': p, 'adv_proj_coeffs': a}


def result(o, kind, idx=None, X=None, Y=None, arrays=True, vk='1d'):
    """Namespace with the names of the array results."""
    d = {n: np.array(getattr(o, n)) for n in DECOMP[kind] + (ARRAYS[kind] if arrays else [])}
    d.update(coeffs(o, kind))
    d.update(modes(o, kind, idx, X, Y, vk))
    return SimpleNamespace(**d)


def arrays_fn(kind, meth='snaps'):
    m = serial.modred()
    return {'pod': lambda: getattr(m, 'compute_POD_arrays_%s_method' % meth), 'bpod': lambda: m.compute_BPOD_arrays,
            'dmd': lambda: getattr(m, 'compute_DMD_arrays_%s_method' % meth),
            'tls': lambda: getattr(m, 'compute_TLSqrDMD_arrays_%s_method' % meth)}[kind]()


def arrays(kind, X, Y, w, meth='snaps', ni=1, no=1, **kw):
    f = arrays_fn(kind, meth)
    if kind == 'pod':
        return f(X, inner_product_weights=w, **kw)
    if kind == 'bpod':
        return f(X, Y, num_inputs=ni, num_outputs=no, inner_product_weights=w, **kw)
    return f(X, adv_vecs=Y, inner_product_weights=w, **kw)
