"""D09: a saved decomposition can be loaded and continued without loss."""
import os
import numpy as np
from mc import serial, ref, hand
from mc.core import scratch, grid
from mc.num import close, nz, mat
from checks.D08 import GET

RULE = ('every array saved and loaded is identical; modes, coefficients, spectra and re-truncations computed by the object '
        'that loaded equal those of the object that saved; a second save of the loaded object gives the same')
BOUNDS = ('POD, BPOD, DMD, TLSqrDMD; 1..5 retained components of up to 5; sequential/paired data; real/complex/complex with imaginary parts of 1e-9; saved by '
          'put_decomp or by every single put function; formats: in memory, the default text format (loader told which arrays '
          'are complex), text with a delimiter, numpy files, and the default loader alone where everything saved is real; '
          'one or two generations; all numbers of components kept by the re-truncation')

NS = 7
COEF = {'pod': [('get_proj_coeffs', 'put_proj_coeffs', ['proj_coeffs'])],
        'bpod': [('get_direct_proj_coeffs', 'put_direct_proj_coeffs', ['direct_proj_coeffs']),
                 ('get_adjoint_proj_coeffs', 'put_adjoint_proj_coeffs', ['adjoint_proj_coeffs'])],
        'dmd': [('get_spectral_coeffs', 'put_spectral_coeffs', ['spectral_coeffs']),
                ('get_proj_coeffs', 'put_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])]}
COEF['tls'] = COEF['dmd']
EXTRA = {'tls': ['sum_correlation_array', 'proj_correlation_array']}
# order of put_decomp arguments
DEC = hand.DECOMP


def data(kind, R, cplx, seq):
    NS = max(7, R + 2)
    W = np.diag(1. + 0.25 * np.arange(NS))
    tiny = cplx == 'tiny'                   # complex numbers that are almost real
    cplx = cplx is True
    A = mat(NS, NS, cplx, 32) * 0.8 + np.diag(0.3 * np.arange(1, NS + 1))
    X = ref.rank_mat(NS, R, cplx, R, 3, gap=0.7)
    if tiny:
        A = A + 1e-9j * A[::-1]
        X = X + 1e-9j * X[::-1]
    if kind == 'pod':
        return X, None, W
    if kind == 'bpod':
        # Hankel structured: powers of A
        Wi = np.linalg.inv(W)
        b, c = mat(NS, 1, cplx, 5) + 0.2, mat(NS, 1, cplx, 6) + 0.2
        X, Y = [], []
        A = 0.6 * A
        for _ in range(R):
            X.append(b)
            Y.append(c)
            b, c = A.dot(b), Wi.dot(A.conj().T).dot(W).dot(c)
        return np.hstack(X), np.hstack(Y), W
    Y = A.dot(X)
    if seq:
        v = [X[:, :1]]
        for _ in range(R):
            v.append(0.7 * A.dot(v[-1]))
        return np.hstack(v), None, W
    return X, Y, W


class Store(object):
    """A format: put(array, dest) and get(source)."""
    def __init__(self, fmt, tag):
        self.fmt, self.mem, self.cx = fmt, {}, {}
        self.dir = os.path.join(scratch(), 'd09' + tag)
        os.makedirs(self.dir, exist_ok=True)
        self.put, self.get = {'mem': (self.mput, self.mget), 'text': (self.tput, self.tget), 'delim': (self.tput, self.tget),
                              'npy': (self.nput, self.nget), 'default': (None, None)}[fmt]
        self.delim = ',' if fmt == 'delim' else None

    def path(self, name):
        return os.path.join(self.dir, name + ('.npy' if self.fmt == 'npy' else '.txt'))

    def mput(self, a, dest):
        self.mem[dest] = np.array(a)

    def mget(self, src):
        return self.mem[src].copy()

    def tput(self, a, dest):
        self.cx[dest] = np.iscomplexobj(a)
        serial.modred().util.save_array_text(a, dest, delimiter=self.delim)

    def tget(self, src):
        return serial.modred().util.load_array_text(src, delimiter=self.delim, is_complex=self.cx[src])

    def nput(self, a, dest):
        np.save(dest, a)

    def nget(self, src):
        return np.load(src)


def make(kind, W, st):
    kw = {}
    if st.put:
        kw = dict(put_array=st.put, get_array=st.get)
    return getattr(serial.modred(), hand.CLS[kind])(inner_product=hand.ipW(W), verbosity=0, **kw)


def save(o, kind, st, single):
    if single:
        for n in DEC[kind]:
            getattr(o, 'put_' + n)(st.path(n))
    else:
        o.put_decomp(*[st.path(n) for n in DEC[kind]])
    for n in hand.ARRAYS[kind] + EXTRA.get(kind, []):
        getattr(o, 'put_' + n)(st.path(n))
    for _, p, names in COEF[kind]:
        getattr(o, p)(*[st.path(n) for n in names])


def load(o, kind, st, arrays=True):
    o.get_decomp(*[st.path(n) for n in DEC[kind]])
    if arrays:
        for n in hand.ARRAYS[kind] + EXTRA.get(kind, []):
            getattr(o, 'get_' + n)(st.path(n))
    for g, _, names in COEF[kind]:
        getattr(o, g)(*[st.path(n) for n in names])


def compare(o, p, kind, names, tol=1e-13):
    out = []
    for n in names:
        out += nz(close(getattr(p, n), getattr(o, n), tol, 'loaded ' + n))
    return out


def allnames(kind, arrays=True):
    return DEC[kind] + ((hand.ARRAYS[kind] + EXTRA.get(kind, [])) if arrays else []) + hand.COEFFS[kind]


def red(o, kind, **kw):
    return (o.compute_SVD if kind == 'bpod' else o.compute_eigendecomp)(**kw)


def mx(kind, o, R, k):
    """settings keeping k components"""
    if k == R:
        return {}
    if kind == 'pod':
        v = np.linalg.eigvalsh(o.correlation_array)[::-1]
    elif kind == 'bpod':
        v = np.linalg.svd(o.Hankel_array, compute_uv=False)
    else:
        return {'max_num_eigvals': k}
    return {'atol': float(np.sqrt(v[k - 1] * v[k]))}


def run1(kind, R, k, cplx, seq, fmt, single, gens):
    serial.modred()
    X, Y, W = data(kind, R, cplx, seq)
    st = Store(fmt, '%s%d' % (kind, 0))
    o = make(kind, W, st)
    hand.decomp(o, kind, X, Y, atol=1e-12)
    if hand.nmodes(o, kind) != R:
        return ['harness: %d components of %d' % (hand.nmodes(o, kind), R)]
    if k < R:
        red(o, kind, **mx(kind, o, R, k))
    c = hand.coeffs(o, kind)
    if kind in ('dmd', 'tls'):
        o.proj_coeffs, o.adv_proj_coeffs = c['proj_coeffs'], c['adv_proj_coeffs']
        o.spectral_coeffs = c['spectral_coeffs']
    else:
        for n, v in c.items():
            setattr(o, n, v)
    if hand.nmodes(o, kind) != k:
        return ['%d components kept instead of %d' % (hand.nmodes(o, kind), k)]
    save(o, kind, st, single)
    p = make(kind, W, st)
    load(p, kind, st)
    for _ in range(gens - 1):
        st2 = Store(fmt, '%s%d' % (kind, 1))
        p.put_array, p.get_array = (st2.put, st2.get) if st2.put else (p.put_array, p.get_array)
        save(p, kind, st2, not single)
        p = make(kind, W, st2)
        load(p, kind, st2)
    out = compare(o, p, kind, allnames(kind))
    if out:
        return out
    cp = hand.coeffs(p, kind)
    for n in c:
        out += nz(close(cp[n], c[n], 1e-10, n + ' recomputed'))
    a, b = hand.modes(o, kind, None, X, Y), hand.modes(p, kind, None, X, Y)
    for n in a:
        out += nz(close(b[n], a[n], 1e-10, n))
    if out:
        return out
    # decomposition alone: modes only
    s = make(kind, W, st)
    s.get_decomp(*[st.path(n) for n in DEC[kind]])
    b = hand.modes(s, kind, None, X, Y)
    for n in a:
        out += nz(close(b[n], a[n], 1e-10, n + ' (decomposition loaded alone)'))
    if kind == 'pod':
        out += nz(close(s.compute_proj_coeffs(), c['proj_coeffs'], 1e-10, 'coefficients of the decomposition alone'))
    elif kind == 'bpod':
        for n, v in hand.coeffs(s, kind).items():
            out += nz(close(v, c[n], 1e-10, n + ' (decomposition loaded alone)'))
    else:
        out += nz(close(s.compute_spectrum(), c['spectral_coeffs'], 1e-10, 'spectrum of the decomposition alone'))
    if out:
        return out
    # further truncation from the loaded arrays, loaded without the decomposition
    for j in range(1, R + 1):
        t = make(kind, W, st)
        for n in hand.ARRAYS[kind]:
            getattr(t, GET[n])(st.path(n))
        kw = dict(atol=1e-12) if j == R else mx(kind, o, R, j)
        red(t, kind, **kw)
        red(o, kind, **kw)
        out += compare(o, t, kind, DEC[kind], 1e-10)
        if out:
            return ['re-truncation to %d: %s' % (j, x) for x in out]
    return []


def case_rt(kind, R, cplx, seq, fmt):
    n = 0
    for k in range(1, R + 1):
        for single in (False, True):
            for gens in (1, 2):
                n += 1
                out = run1(kind, R, k, cplx, seq, fmt, single, gens)
                if out:
                    return ['%d components, single=%s, generations=%d: %s' % (k, single, gens, x) for x in out], {}
    return '', {'states': n}


def case_default_dmd_arrays(kind, R, seq):
    """Default loader, arrays of real DMD data that are real."""
    serial.modred()
    X, Y, W = data(kind, R, False, seq)
    st = Store('default', kind)
    o = make(kind, W, st)
    hand.decomp(o, kind, X, Y, atol=1e-12)
    p = make(kind, W, st)
    out = []
    names = hand.ARRAYS[kind] + EXTRA.get(kind, [])
    for n in names:
        getattr(o, 'put_' + n)(st.path(n))
        getattr(p, 'get_' + n)(st.path(n))
    out = compare(o, p, kind, names)
    o.compute_spectrum()
    o.put_spectral_coeffs(st.path('s'))
    p.get_spectral_coeffs(st.path('s'))
    out += compare(o, p, kind, ['spectral_coeffs'])
    if not out:
        red(p, kind, atol=1e-12)
        out += compare(o, p, kind, DEC[kind], 1e-10)
    return out


def case_default_complex(kind, cplx):
    """Default save and default load of a decomposition with complex arrays."""
    serial.modred()
    X, Y, W = data(kind, 3, cplx, True)
    st = Store('default', kind)
    o = make(kind, W, st)
    hand.decomp(o, kind, X, Y, atol=1e-12)
    o.put_decomp(*[st.path(n) for n in DEC[kind]])
    p = make(kind, W, st)
    p.get_decomp(*[st.path(n) for n in DEC[kind]])
    return compare(o, p, kind, DEC[kind])


def run(ck):
    q = ck.quick
    cs = [dict(kind=k, R=r, cplx=c, seq=s, fmt=f) for k in ('pod', 'bpod', 'dmd', 'tls')
          for s in ((True, False) if k in ('dmd', 'tls') else (True,)) for c in (False, True)
          for f in ('mem', 'text', 'delim', 'npy') for r in range(1, 5 if q else 6)]
    cs += [dict(kind=k, R=r, cplx=False, seq=True, fmt='default') for k in ('pod', 'bpod') for r in range(1, 6)]
    ck.domain('rt', cs, timeout=300, chunk=1)
    ck.domain('rt', [dict(kind=k, R=r, cplx='tiny', seq=s, fmt=f) for k in ('pod', 'bpod', 'dmd', 'tls')
                     for s in ((True, False) if k in ('dmd', 'tls') else (True,)) for f in ('mem', 'text') for r in (2, 3)],
              timeout=300, chunk=1)
    ck.domain('default_dmd_arrays', list(grid(kind=['dmd', 'tls'], R=[1, 2, 3, 4], seq=[True, False])))
    ck.domain('default_complex', [dict(kind=k, cplx=True) for k in ('pod', 'bpod', 'dmd', 'tls')] +
              [dict(kind=k, cplx=False) for k in ('dmd', 'tls')])
    ck.domain('rt', [dict(kind=k, R=r, cplx=c, seq=k in ('pod', 'bpod'), fmt=f) for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True)
                     for f in ('mem', 'text') for r in ((11,) if k != 'bpod' else (5,))], timeout=300, chunk=1)
