"""Scenarios executed inside each simulated rank (Engine S)."""
import pickle
import numpy as np
from .num import mat, close

LIVE = [0, 0]            # live tracked vectors, maximum


def _modred():
    import modred
    return modred


_VEC = {}


def vec_class():
    """A minimal user vector class (documented contract: + and *), tracked."""
    if 'c' not in _VEC:
        m = _modred()

        class Vec(m.Vector):
            def __init__(self, a):
                self.a = a
                LIVE[0] += 1
                if LIVE[0] > LIVE[1]:
                    LIVE[1] = LIVE[0]

            def __del__(self):
                LIVE[0] -= 1

            def __add__(self, o):
                return Vec(self.a + o.a)

            def __mul__(self, s):
                return Vec(self.a * s)

            def __reduce__(self):
                return (_mkvec, (self.a,))

            def __deepcopy__(self, memo):
                return Vec(self.a.copy())
        _VEC['c'] = Vec
    return _VEC['c']


def _mkvec(a):
    return vec_class()(a)


def raw(v):
    return getattr(v, 'a', v)


class InH(object):
    """Input handle: immutable data, counts retrievals, reports stores."""
    def __init__(self, ctx, name, data, vk):
        self.ctx, self.name, self.data, self.vk = ctx, name, data, vk
        self.gets = 0
        self.gave = []

    def get(self):
        self.gets += 1
        if self.vk == 'arr':
            return self.data.copy()
        return vec_class()(self.data.copy())

    def put(self, v):
        self.ctx.call('put', 'INPUT:' + self.name, pickle.dumps(raw(v), 4))

    def __eq__(self, o):
        return isinstance(o, InH) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class OutH(object):
    def __init__(self, ctx, name, vk='arr'):
        self.ctx, self.name, self.vk = ctx, name, vk

    def put(self, v):
        self.ctx.call('put', self.name, pickle.dumps(raw(v), 4))

    def get(self):
        b = self.ctx.call('get', self.name)
        if b is None:
            return None
        a = pickle.loads(b)
        return a if self.vk == 'arr' else vec_class()(a)


def data(name, nstates, nvecs, cplx, dt='float', salt=0):
    """Columns of the fixed data alphabet as a list of vectors."""
    if '*' in dt:                   # of another magnitude
        dt, e = dt.split('*')
        return [c * 2. ** int(e) for c in data(name, nstates, nvecs, cplx, dt, salt)]
    salt = salt + {'r': 1, 'c': 2, 'x': 3, 'y': 4, 'b': 5, 'a': 6, 'z': 7}.get(name, 9)
    if dt in ('i1', 'u2'):          # integers with which products do not fit
        a = mat(nstates, nvecs, False, salt, 'int')
        a = (40 * a).astype(dt) if dt == 'i1' else (20000 * np.abs(a)).astype(dt)
    elif dt == 'int':
        a = mat(nstates, nvecs, False, salt, 'int').astype(int)
    elif dt == 'gen':
        a = mat(nstates, nvecs, cplx, salt, 'generic')
    else:
        a = np.round(mat(nstates, nvecs, cplx, salt, 'int') + 0.25 * mat(nstates, nvecs, cplx, salt + 50, 'int'), 4)
    cols = [a[:, j].copy() for j in range(nvecs)]
    if dt == 'mixed' and cols:
        cols[0] = np.real(cols[0]).astype(int)
        if not cols[0].any():
            cols[0][0] = 1
    if dt == 'prec' and cols:       # the first in single precision
        cols[0] = cols[0].astype('c8' if cplx else 'f4')
        cols[1:] = [c / 3 for c in cols[1:]]
    if dt == 'inf':                 # values that are not finite, each in an entry of its own
        for j, c in enumerate(cols):
            c[j % nstates] = (np.inf, np.nan, -np.inf)[j % 3]
    return cols


def lin_coeff(nb, nco, cc, dt):
    coeff = np.round(mat(nb, nco, cc, 77, 'int') + .5 * mat(nb, nco, cc, 78, 'int'), 3)
    if dt in ('i1', 'u2'):
        coeff = (2 * np.real(coeff)).astype(int)
    if dt == 'inf':                 # half of the coefficients are zero
        coeff[np.add.outer(np.arange(nb), np.arange(nco)) % 2 == 1] = 0
    return coeff


def ip_fn(nstates):
    w = 1. + np.arange(nstates)

    def ip(a, b):
        a, b = raw(a), raw(b)
        if a.dtype.kind == 'i' and b.dtype.kind == 'i':
            return int(np.vdot(a, b * np.arange(1, nstates + 1)))
        return np.vdot(a, w.astype(np.real(b).dtype) * b) if b.dtype.kind in 'fc' else np.vdot(a, w * b)
    return ip


def ip_ref(rows, cols, nstates):
    ip = ip_fn(nstates)
    return np.array([[ip(a, b) for b in cols] for a in rows])


NST = 5


def _handles(ctx, name, cols, vk):
    return [InH(ctx, '%s%d' % (name, i), c, vk) for i, c in enumerate(cols)]


def _space(maxv, verbosity=0, print_interval=10):
    m = _modred()
    kw = {}
    return m.VectorSpaceHandles(inner_product=ip_fn(NST), max_vecs_per_node=maxv,
                                verbosity=verbosity, print_interval=print_interval, **kw)


def inner(ctx, nr, nc, maxv, cplx=False, dt='float', vk='arr', symm=False, verbosity=0,
          print_interval=10, hid=0, zero=None):
    LIVE[1] = LIVE[0]
    base = LIVE[0]
    rows = data('r', NST, nr, cplx, dt)
    cols = data('c', NST, nc, cplx, dt)
    if zero is not None:                   # zero vectors: entries that are exactly 0
        for z in zero:
            if z < nr:
                rows[z] = rows[z] * 0
            if z < nc:
                cols[z] = cols[z] * 0
    rh = _handles(ctx, 'r', rows, vk)
    ch = _handles(ctx, 'c', cols, vk)
    vs = _space(maxv, verbosity, print_interval)
    if symm:
        out = vs.compute_symm_inner_product_array(rh)
    elif nr == 1 and hid == 1:
        out = vs.compute_inner_product_array(rh[0], ch)
    elif hid == 'same':                 # the same list on both sides
        out = vs.compute_inner_product_array(rh, rh)
    elif hid == 'equal':
        out = vs.compute_inner_product_array(rh, list(rh))
    elif hid == 'rev':
        out = vs.compute_inner_product_array(rh, rh[::-1])
    elif hid == 'part':                 # handles of the rows among those of the columns
        out = vs.compute_inner_product_array(rh, rh[:1] + ch)
    else:
        out = vs.compute_inner_product_array(rh, ch)
    return {'out': np.asarray(out), 'type': type(out).__name__,
            'gets': [h.gets for h in rh] + [h.gets for h in ch], 'nr': nr,
            'live': LIVE[1] - base, 'mvp': vs.max_vecs_per_proc}


def lincomb(ctx, nb, ns, maxv, cplx=False, dt='float', vk='arr', cols=None, ncols=None, form='2d',
            verbosity=0, print_interval=10, read=True, ccplx=None):
    """cols: column index list (or None); ncols: columns in the coefficients."""
    LIVE[1] = LIVE[0]
    base = LIVE[0]
    basis = data('b', NST, nb, cplx, dt)
    nco = ncols if ncols is not None else ns
    cc = cplx if ccplx is None else ccplx
    coeff = lin_coeff(nb, nco, cc, dt)
    bh = _handles(ctx, 'b', basis, vk)
    oh = [OutH(ctx, 'out%d' % j, vk) for j in range(ns)]
    vs = _space(maxv, verbosity, print_interval)
    c = coeff
    if form == '1d':
        c = coeff[0] if nb == 1 else coeff[:, 0]
    elif form == 'list':
        c = coeff.tolist()
    elif form == 'range':
        cols = range(*cols)
    elif form == 'nparr':
        cols = np.array(cols)
    coeff0 = np.array(c)
    ret = vs.lin_combine(oh if not (form == '1d' and ns == 1) else oh[0],
                         bh if nb > 1 or form != '1d' else bh[0], c, coeff_array_col_indices=cols)
    got = None
    live = LIVE[1] - base
    if read:
        got = [raw(h.get()) for h in oh]
    return {'ret': ret, 'got': got, 'gets': [h.gets for h in bh], 'live': live,
            'mvp': vs.max_vecs_per_proc, 'mut': not np.array_equal(coeff0, np.array(c))}


def lincomb_ref(nb, ns, cplx, dt, cols, ncols, ccplx=None):
    basis = data('b', NST, nb, cplx, dt)
    nco = ncols if ncols is not None else ns
    cc = cplx if ccplx is None else ccplx
    coeff = lin_coeff(nb, nco, cc, dt)
    ci = list(cols) if cols is not None else list(range(ns))
    if dt in ('i1', 'u2'):
        basis = [b.astype(float) for b in basis]
    return [sum(basis[i] * coeff[i, j] for i in range(nb)) for j in ci]


# ---------------------------------------------------------------- perturbation
_ORIG = {}


def perturb(on, rank):
    """Rank-dependent but valid choices of eigen/singular vectors: signs or
    phases and, for the general eigenproblem, the order."""
    import scipy.linalg as sl
    if not _ORIG:
        _ORIG.update(eigh=np.linalg.eigh, svd=np.linalg.svd, eig=np.linalg.eig,
                     seig=sl.eig, sinv=np.linalg.inv)
    if not on:
        np.linalg.eigh, np.linalg.svd, np.linalg.eig = _ORIG['eigh'], _ORIG['svd'], _ORIG['eig']
        sl.eig = _ORIG['seig']
        return

    def sg(k):
        return np.array([(-1.) ** ((i * (rank + 1) + rank) % 2 + (rank // 2) * (i % 3 == 1)) for i in range(k)])

    def eigh(a, *x, **k):
        r = _ORIG['eigh'](a, *x, **k)
        return r[0], r[1] * sg(r[1].shape[1])

    def svd(a, *x, **k):
        r = _ORIG['svd'](a, *x, **k)
        if not isinstance(r, tuple):
            return r
        u, s, vh = r
        n = len(s)
        g = sg(n)
        u = u.copy()
        vh = vh.copy()
        u[:, :n] *= g
        vh[:n] *= g[:, None]
        return u, s, vh

    def _perm(n):
        return np.roll(np.arange(n), rank)

    def seig(a, *x, **k):
        r = _ORIG['seig'](a, *x, **k)
        if not isinstance(r, tuple):
            return r
        p = _perm(len(r[0]))
        g = sg(len(p))
        return (r[0][p],) + tuple(v[:, p] * g for v in r[1:])

    def eig(a, *x, **k):
        w, v = _ORIG['eig'](a, *x, **k)
        p = _perm(len(w))
        return w[p], v[:, p] * sg(len(p))
    np.linalg.eigh, np.linalg.svd, np.linalg.eig, sl.eig = eigh, svd, eig, seig


def _put_array(ctx):
    def put(a, dest):
        ctx.call('put', 'ARR:' + dest, pickle.dumps(np.array(a), 4))
    return put


def _get_array(ctx):
    def get(src):
        return pickle.loads(ctx.call('get', 'ARR:' + src))
    return get


def _outs(ctx, name, k, vk='arr'):
    return [OutH(ctx, '%s%d' % (name, i), vk) for i in range(k)]


def _read(ctx, hs):
    return [raw(h.get()) for h in hs]


NSTP = 7


def nst(nv):
    """number of states of the data with nv vectors"""
    return NSTP if nv <= 10 else nv + 5


def _ipgen(n):
    w = 1. + 0.25 * np.arange(n)

    def ip(a, b):
        return np.vdot(raw(a), w * raw(b))
    return ip


def pipe_data(kind, nv, cplx, salt=0, ni=1, no=1):
    """Data for the decomposition pipelines (fixed, well conditioned).  For BPOD
    nv is the number of time steps of the impulse responses."""
    N = nst(nv)
    if kind == 'bpod':
        W = 1. + 0.25 * np.arange(N)
        A = mat(N, N, cplx, 35 + salt, 'orth') * 0.9
        B = mat(N, ni, cplx, 36 + salt, 'orth' if ni <= N else 'generic')
        C = mat(N, no, cplx, 37 + salt, 'orth')
        Aa = (A.conj().T * W) / W[:, None]
        x, y, b, c = [], [], B, C / W[:, None]
        for _ in range(nv):
            x += [b[:, j].copy() for j in range(ni)]
            y += [c[:, j].copy() for j in range(no)]
            b, c = A.dot(b), Aa.dot(c)
        return {'x': x, 'y': y}
    x = mat(N, nv, cplx, 31 + salt, 'generic')
    if kind in ('dmdseq', 'tlsseq'):
        A = mat(N, N, cplx, 32 + salt, 'generic' if N == NSTP else 'orth') * (0.8 if N == NSTP else 1.)
        v = [mat(N, 1, cplx, 33 + salt, 'generic')[:, 0]]
        for _ in range(nv - 1):
            v.append(A.dot(v[-1]))
        return {'x': v, 'y': None}
    y = mat(N, nv, cplx, 34 + salt, 'generic')
    if kind in ('dmd', 'tls'):
        A = mat(N, N, cplx, 32 + salt, 'generic') * 0.8
        y = A.dot(x)
    return {'x': [x[:, j] for j in range(nv)], 'y': [y[:, j] for j in range(nv)]}


def pipeline(ctx, kind, nv, maxv=None, cplx=False, pert=False, modes=None, ops=(), vk='arr', verbosity=0,
             ni=1, no=1, maxeig=None, read=True, atol=1e-8, stage=''):
    """A full decomposition; ops is a subset of the operations to do after it."""
    m = _modred()
    d = pipe_data(kind, nv, cplx, 0, ni, no)
    out = {}
    xh = _handles(ctx, 'x', [np.array(v) for v in d['x']], vk)
    yh = _handles(ctx, 'y', [np.array(v) for v in d['y']], vk) if d['y'] is not None else None
    kw = dict(inner_product=_ipgen(nst(nv)), put_array=_put_array(ctx), get_array=_get_array(ctx),
              max_vecs_per_node=maxv, verbosity=verbosity)
    perturb(pert, ctx.rank)
    try:
        if kind == 'pod':
            o = m.PODHandles(**kw)
            o.compute_decomp(xh, atol=atol)
            names = ['eigvals', 'eigvecs', 'correlation_array']
            mk = {'modes': lambda i, h: o.compute_modes(i, h)}
            coeffs = ['compute_proj_coeffs']
            puts = [('put_decomp', ['eigvals', 'eigvecs']), ('put_correlation_array', ['correlation_array'])]
            cputs = [('put_proj_coeffs', ['proj_coeffs'])]
        elif kind == 'bpod':
            o = m.BPODHandles(**kw)
            o.compute_decomp(xh, yh, num_inputs=ni, num_outputs=no, atol=atol)
            names = ['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array']
            mk = {'direct': lambda i, h: o.compute_direct_modes(i, h),
                  'adjoint': lambda i, h: o.compute_adjoint_modes(i, h)}
            coeffs = ['compute_direct_proj_coeffs', 'compute_adjoint_proj_coeffs']
            puts = [('put_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs']),
                    ('put_Hankel_array', ['Hankel_array'])]
            cputs = [('put_direct_proj_coeffs', ['direct_proj_coeffs']),
                     ('put_adjoint_proj_coeffs', ['adjoint_proj_coeffs'])]
        elif kind in ('dmd', 'dmdseq'):
            o = m.DMDHandles(**kw)
            o.compute_decomp(xh, adv_vec_handles=yh, atol=atol, max_num_eigvals=maxeig)
            dn = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
                  'correlation_array_eigvals', 'correlation_array_eigvecs']
            names = dn + ['correlation_array', 'cross_correlation_array']
            coeffs = ['compute_spectrum', 'compute_proj_coeffs']
            puts = [('put_decomp', dn), ('put_correlation_array', ['correlation_array']),
                    ('put_cross_correlation_array', ['cross_correlation_array'])]
            cputs = [('put_spectral_coeffs', ['spectral_coeffs']),
                     ('put_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])]
            mk = {'exact': lambda i, h: o.compute_exact_modes(i, h),
                  'proj': lambda i, h: o.compute_proj_modes(i, h),
                  'adj': lambda i, h: o.compute_adjoint_modes(i, h)}
        elif kind in ('tls', 'tlsseq'):
            o = m.TLSqrDMDHandles(**kw)
            o.compute_decomp(xh, adv_vec_handles=yh, atol=atol, max_num_eigvals=maxeig)
            dn = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
                  'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                  'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']
            names = dn + ['correlation_array', 'cross_correlation_array', 'adv_correlation_array']
            coeffs = ['compute_spectrum', 'compute_proj_coeffs']
            puts = [('put_decomp', dn), ('put_correlation_array', ['correlation_array']),
                    ('put_cross_correlation_array', ['cross_correlation_array']),
                    ('put_adv_correlation_array', ['adv_correlation_array']),
                    ('put_sum_correlation_array', ['sum_correlation_array']),
                    ('put_proj_correlation_array', ['proj_correlation_array'])]
            cputs = [('put_spectral_coeffs', ['spectral_coeffs']),
                     ('put_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])]
            mk = {'exact': lambda i, h: o.compute_exact_modes(i, h),
                  'proj': lambda i, h: o.compute_proj_modes(i, h),
                  'adj': lambda i, h: o.compute_adjoint_modes(i, h)}
        nm = None
        for n in names:
            out[n] = np.array(getattr(o, n))
        nm = len(out[names[0]].reshape(-1))
        out['nm'] = nm
        for op in ops:
            ctx.call('event', 'begin', stage + op)
            if op == 'modes':
                idx = list(range(nm)) if modes is None else [i for i in modes if i < nm]
                for name, f in mk.items():
                    hs = _outs(ctx, name, len(idx), vk)
                    f(idx, hs)
                    ctx.call('event', 'returned', name)
                    if read:
                        out['M:' + name] = _read(ctx, hs)
                out['idx'] = idx
            elif op == 'coeffs':
                for c in coeffs:
                    r = getattr(o, c)()
                    out['C:' + c] = [np.array(z) for z in (r if isinstance(r, tuple) else (r,))]
            elif op in ('puts', 'cputs'):
                for f, ns in (puts if op == 'puts' else cputs):
                    getattr(o, f)(*ns)
                    ctx.call('event', 'returned', f)
                    if read:
                        for n in ns:
                            out['P:' + n] = _get_array(ctx)(n)
                    for n in ns:
                        out['S:' + n] = np.array(getattr(o, n))
            elif op == 'each':          # every array by itself
                for n in [n for _, ns in puts for n in ns if hasattr(o, 'put_' + n)]:
                    getattr(o, 'put_' + n)('E:' + n)
                    ctx.call('event', 'returned', 'put_' + n)
                    if read:
                        out['P:' + n] = _get_array(ctx)('E:' + n)
                    out['S:' + n] = np.array(getattr(o, n))
            elif op in ('gets', 'cgets'):
                o2 = type(o)(**kw)
                fs = [(f.replace('put_', 'get_', 1), ns) for f, ns in (puts if op == 'gets' else cputs)]
                ctx.call('event', 'loadstart', '')
                for f, ns in fs:
                    if not hasattr(o2, f):
                        continue
                    getattr(o2, f)(*ns)
                    for n in ns:
                        out['G:' + n] = np.array(getattr(o2, n))
                ctx.call('event', 'loadend', '')
                if op == 'gets':
                    for c in coeffs:
                        r = getattr(o2, c)()
                        out['LC:' + c] = [np.array(z) for z in (r if isinstance(r, tuple) else (r,))]
                    if kind == 'pod':
                        mk2 = {'modes': lambda i, h: o2.compute_modes(i, h, vec_handles=xh)}
                    elif kind == 'bpod':
                        mk2 = {'direct': lambda i, h: o2.compute_direct_modes(i, h, direct_vec_handles=xh),
                               'adjoint': lambda i, h: o2.compute_adjoint_modes(i, h, adjoint_vec_handles=yh)}
                    else:
                        mk2 = {'exact': lambda i, h: o2.compute_exact_modes(
                                   i, h, adv_vec_handles=yh if yh is not None else xh[1:]),
                               'proj': lambda i, h: o2.compute_proj_modes(i, h, vec_handles=xh),
                               'adj': lambda i, h: o2.compute_adjoint_modes(i, h, vec_handles=xh)}
                    idx = list(range(nm))
                    for name, f in mk2.items():
                        hs = _outs(ctx, 'L' + name, len(idx), vk)
                        f(idx, hs)
                        ctx.call('event', 'returned', name)
                        if read:
                            out['LM:' + name] = _read(ctx, hs)
        out['xgets'] = [h.gets for h in xh]
    finally:
        perturb(False, ctx.rank)
    return out


LOADS = {'pod': [('get_decomp', ['eigvals', 'eigvecs']), ('get_correlation_array', ['correlation_array']),
                 ('get_proj_coeffs', ['proj_coeffs'])],
         'bpod': [('get_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs']), ('get_Hankel_array', ['Hankel_array']),
                  ('get_direct_proj_coeffs', ['direct_proj_coeffs']), ('get_adjoint_proj_coeffs', ['adjoint_proj_coeffs'])],
         'dmd': [('get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals',
                                 'correlation_array_eigvecs']), ('get_correlation_array', ['correlation_array']),
                 ('get_cross_correlation_array', ['cross_correlation_array']), ('get_spectral_coeffs', ['spectral_coeffs']),
                 ('get_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])]}
LOADS['tls'] = [('get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                                'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals',
                                'proj_correlation_array_eigvecs'])] + LOADS['dmd'][1:] + [
    ('get_%s_correlation_array' % w, ['%s_correlation_array' % w]) for w in ('adv', 'sum', 'proj')]


def reload_data(name, rnd, k, cplx):
    """What is stored under a name in a round of loading."""
    salt = 100 + 7 * rnd + sum(map(ord, name)) % 61
    vec = name.endswith('eigvals') or name in ('sing_vals', 'spectral_coeffs')
    return np.abs(mat(1, k, False, salt))[0] + 0.1 if vec else mat(k, k, cplx, salt)


def reload(ctx, kind, k, rounds, computed=False, cplx=False):
    """One object loads arrays again and again; rounds: list of [source suffix, number of the data]."""
    from modred import parallel
    m = _modred()
    cls = {'pod': m.PODHandles, 'bpod': m.BPODHandles, 'dmd': m.DMDHandles, 'tls': m.TLSqrDMDHandles}[kind]
    o = cls(inner_product=_ipgen(nst(3)), put_array=_put_array(ctx), get_array=_get_array(ctx), verbosity=0)
    if computed:
        d = pipe_data(kind, 3, cplx, 0, 1, 1)
        xh = _handles(ctx, 'x', [np.array(v) for v in d['x']], 'arr')
        yh = _handles(ctx, 'y', [np.array(v) for v in d['y']], 'arr') if d['y'] is not None else None
        if kind == 'pod':
            o.compute_decomp(xh)
            o.compute_proj_coeffs()
        elif kind == 'bpod':
            o.compute_decomp(xh, yh, num_inputs=1, num_outputs=1)
            o.compute_direct_proj_coeffs()
            o.compute_adjoint_proj_coeffs()
        else:
            o.compute_decomp(xh, adv_vec_handles=yh)
            o.compute_spectrum()
            o.compute_proj_coeffs()
    out = []
    for suffix, rnd in rounds:
        for f, ns in LOADS[kind]:
            for n in ns:
                if ctx.rank == 0:
                    _put_array(ctx)(reload_data(n, rnd, k, cplx), n + suffix)
            parallel.barrier()
            ctx.call('event', 'load', f)
            getattr(o, f)(*[n + suffix for n in ns])
            ctx.call('event', 'loaded', f)
            out.append([np.array(getattr(o, n)) for n in ns])
            parallel.barrier()
    return out


def galerkin(ctx, nb, ni=2, no=2, maxv=100, cplx=False, symmetric=False, orth=False, puts=True, read=True,
             vk='arr', verbosity=0):
    m = _modred()
    N = nst(nb)
    b = mat(N, nb, cplx, 41, 'generic')
    a = mat(N, nb, cplx, 42, 'generic') + b
    A = mat(N, N, cplx, 43)
    B = mat(N, ni, cplx, 44)
    C = mat(no, N, cplx, 45)
    H = lambda nme, M: _handles(ctx, nme, [M[:, j].copy() for j in range(M.shape[1])], vk)
    bh, ah = H('b', b), H('a', a)
    o = m.LTIGalerkinProjectionHandles(
        _ipgen(N), bh, adjoint_basis_vec_handles=None if symmetric else ah,
        is_basis_orthonormal=orth, put_array=_put_array(ctx), verbosity=verbosity, max_vecs_per_node=maxv)
    Cb = C.dot(b)
    r = o.compute_model(H('x', A.dot(b)), H('y', B), [Cb[:, j] for j in range(nb)])
    out = {'A': np.array(r[0]), 'B': np.array(r[1]), 'C': np.array(r[2])}
    if puts == 'each':
        for n in 'ABC':
            getattr(o, 'put_%s_reduced' % n)(n)
            ctx.call('event', 'returned', 'put_%s_reduced' % n)
            if read:
                out['P:' + n] = _get_array(ctx)(n)
    elif puts:
        o.put_model('A', 'B', 'C')
        ctx.call('event', 'returned', 'put_model')
        if read:
            for n in 'ABC':
                out['P:' + n] = _get_array(ctx)(n)
    return out


def galerkin_ref(nb, ni, no, cplx, symmetric, orth):
    N = nst(nb)
    b = mat(N, nb, cplx, 41, 'generic')
    a = b if symmetric else mat(N, nb, cplx, 42, 'generic') + b
    A = mat(N, N, cplx, 43)
    B = mat(N, ni, cplx, 44)
    C = mat(no, N, cplx, 45)
    W = np.diag(1. + 0.25 * np.arange(N))
    g = np.eye(nb) if orth else np.linalg.inv(a.conj().T.dot(W).dot(b))
    P = g.dot(a.conj().T).dot(W)
    return {'A': P.dot(A).dot(b), 'B': P.dot(B), 'C': C.dot(b)}


def derivs(ctx, nv, cplx=False, vk='arr', dt=0.5, read=True, seq=''):
    from modred.ltigalerkinproj import compute_derivs_handles
    x = mat(NST, nv, cplx, 51)
    y = mat(NST, nv, cplx, 52)
    xh = _handles(ctx, 'x', [x[:, j] for j in range(nv)], vk)
    yh = _handles(ctx, 'y', [y[:, j] for j in range(nv)], vk)
    if seq == 'seq':            # the next vectors by the same handles
        yh = xh[1:] + yh[-1:]
    elif seq == 'back':
        yh = yh[:1] + xh[:-1]
    elif seq == 'same':
        yh = xh
    elif seq == 'rep':          # one vector, next vectors in pairs
        xh, yh = [xh[0]] * nv, [yh[j - j % 2] for j in range(nv)]
    oh = _outs(ctx, 'out', nv, vk)
    compute_derivs_handles(xh, yh, oh, dt)
    ctx.call('event', 'returned', 'derivs')
    return {'got': _read(ctx, oh) if read else None}


def sequence(ctx, ops, maxv=None):
    """Chains several collective operations in one execution (P03)."""
    m = _modred()
    outs = []
    for i, op in enumerate(ops):
        if op == 'ip':
            outs.append(inner(ctx, 2, 3, maxv)['out'])
        elif op == 'symm':
            outs.append(inner(ctx, 4, 1, maxv, symm=True)['out'])
        elif op == 'lin':
            outs.append(np.array(lincomb(ctx, 3, 2, maxv)['got']))
        elif op == 'derivs':
            outs.append(np.array(derivs(ctx, 2)['got']))
        elif op == 'pod':
            outs.append(pipeline(ctx, 'pod', 3, maxv, ops=('modes', 'puts', 'gets'))['eigvals'])
        elif op == 'dmd':
            outs.append(pipeline(ctx, 'dmdseq', 3, maxv, ops=('modes', 'coeffs'))['eigvals'])
        elif op == 'gal':
            outs.append(galerkin(ctx, 2, maxv=maxv)['A'])
        elif op == 'allred':
            from modred import parallel
            outs.append(np.array(parallel.custom_comm.allreduce(ctx.rank + 1) if parallel.is_distributed() else 1))
        elif op == 'bcast':
            from modred import parallel
            outs.append(np.array(parallel.bcast(ctx.rank + 7)))
        else:
            raise ValueError(op)
    return outs


# ---------------------------------------------------------------- reductions
class Word(object):
    """Free monoid: concatenation is associative and not commutative."""
    def __init__(self, s):
        self.s = s


def cat(a, b):
    return a + b


def matmul(a, b):
    return np.dot(a, b)


def first(a, b):
    return a


def last(a, b):
    return b


def _contrib(op, r, salt=0):
    if op in ('cat', 'first', 'last'):
        return '<%d.%d>' % (r, salt)
    if op == 'matmul':
        return np.array([[1, r + 1], [1, r + 2 + salt]])
    if op in ('MINLOC', 'MAXLOC'):
        return [[3, 1, 1, 5, 3, 1, 5, 2], [0, 0, 0, 0, 0, 0, 0, 0], [1, 2, 3, 4, 5, 6, 7, 8], [8, 7, 6, 5, 4, 3, 2, 1]][salt % 4][r]
    if op == 'arr' and salt > 9:
        return np.arange(float(salt)) * (r + 1) - salt
    if op == 'cat' and salt > 9:
        return '<%d.%d>' % (r, salt) * salt
    if op == 'arr':
        return np.arange(6.).reshape(2, 3) * (r + 1) + salt
    return (r * 7 + 3 + salt) % 5


def getop(MPI, op):
    return {'cat': cat, 'matmul': matmul, 'first': first, 'last': last, 'arr': MPI.SUM}.get(op) or getattr(MPI, op)


def reduction(ctx, calls):
    """calls: list of (name, op, root or None, salt)"""
    from mpi4py import MPI
    from modred import parallel
    c = parallel.custom_comm
    out = []
    for name, op, root, salt in calls:
        v = _contrib(op, ctx.rank, salt)
        v0 = pickle.dumps(v, 4)
        f = getop(MPI, op)
        if name == 'reduce':
            r = c.reduce(v, op=f, root=root)
        elif name == 'allreduce':
            r = c.allreduce(v, op=f)
        elif name == 'scan':
            r = c.scan(v, op=f)
        elif name == 'exscan':
            r = c.exscan(v, op=f)
        elif name == 'reduce_default':
            r = c.reduce(v)
        elif name == 'allreduce_default':
            r = c.allreduce(v)
        out.append((r, pickle.dumps(v, 4) == v0))
    return out


def reduction_ref(size, calls):
    from . import simmpi
    outs = [[] for _ in range(size)]
    for name, op, root, salt in calls:
        f = {'cat': cat, 'matmul': matmul, 'first': first, 'last': last,
             'arr': lambda a, b: a + b}.get(op) or getattr(simmpi, op)
        vals = [_contrib(op, r, salt) for r in range(size)]
        if op in ('MINLOC', 'MAXLOC'):
            vals = [(v, r) for r, v in enumerate(vals)]

        def fold(vs):
            acc = vs[0]
            for v in vs[1:]:
                acc = f(acc, v)
            return acc
        for r in range(size):
            if name.startswith('reduce'):
                outs[r].append(fold(vals) if r == (root or 0) else None)
            elif name.startswith('allreduce'):
                outs[r].append(fold(vals))
            elif name == 'scan':
                outs[r].append(fold(vals[:r + 1]))
            elif name == 'exscan':
                outs[r].append(fold(vals[:r]) if r else None)
    return outs


# ---------------------------------------------------------------- error inputs
def bad(ctx, what, **k):
    """Inconsistent inputs (E09): returns the exception class raised."""
    m = _modred()
    x = [np.array(v) for v in pipe_data('dmd', 4, False)['x']]
    y = [np.array(v) for v in pipe_data('dmd', 4, False)['y']]
    X, Y = np.array(x).T, np.array(y).T
    H = lambda n, l: _handles(ctx, n, l, 'arr')
    ipf = _ipgen(NSTP)
    try:
        if what == 'POD_snaps':
            m.compute_POD_arrays_snaps_method(X)
        elif what == 'POD_direct':
            m.compute_POD_arrays_direct_method(X)
        elif what == 'BPOD':
            m.compute_BPOD_arrays(X, Y)
        elif what == 'DMD_snaps':
            m.compute_DMD_arrays_snaps_method(X)
        elif what == 'DMD_direct':
            m.compute_DMD_arrays_direct_method(X)
        elif what == 'TLS_snaps':
            m.compute_TLSqrDMD_arrays_snaps_method(X)
        elif what == 'TLS_direct':
            m.compute_TLSqrDMD_arrays_direct_method(X)
        elif what == 'LTI_arrays':
            m.LTIGalerkinProjectionArrays(X)
        elif what == 'lin_rows':
            vs = _space(50)
            vs.lin_combine(_outs(ctx, 'o', k['ns']), H('x', x[:k['nb']]), np.ones((k['cr'], k['cc'])))
        elif what == 'dmd_len':
            o = m.DMDHandles(inner_product=ipf, verbosity=0, max_vecs_per_node=60, put_array=_put_array(ctx))
            o.compute_decomp(H('x', x[:k['a']]), adv_vec_handles=H('y', y[:k['b']]))
        elif what == 'tls_len':
            o = m.TLSqrDMDHandles(inner_product=ipf, verbosity=0, max_vecs_per_node=60, put_array=_put_array(ctx))
            o.compute_decomp(H('x', x[:k['a']]), adv_vec_handles=H('y', y[:k['b']]))
        elif what == 'derivs_len':
            from modred.ltigalerkinproj import compute_derivs_handles
            compute_derivs_handles(H('x', x[:k['a']]), H('y', y[:k['b']]), _outs(ctx, 'o', k['c']), 1.)
        elif what == 'noip':
            vs = m.VectorSpaceHandles(inner_product=None, max_vecs_per_node=60, verbosity=0)
            vs.compute_inner_product_array(H('x', x), H('y', y))
        else:
            raise SystemExit(what)
    except Exception as e:
        return type(e).__name__
    return None


def worker_info(ctx):
    from modred import parallel as p
    assert p.get_num_procs() == p.get_num_MPI_workers()
    return (p.get_rank(), p.get_num_MPI_workers(), p.get_num_nodes(), bool(p.is_rank_zero()), bool(p.is_distributed()))


def limits(ctx, maxv):
    """max_vecs_per_proc of every object that holds vectors."""
    m = _modred()
    kw = dict(inner_product=_ipgen(NSTP), max_vecs_per_node=maxv, verbosity=0)
    out = {'VectorSpaceHandles': m.VectorSpaceHandles(**kw).max_vecs_per_proc}
    for c in (m.PODHandles, m.BPODHandles, m.DMDHandles, m.TLSqrDMDHandles):
        out[c.__name__] = c(**kw).vec_space.max_vecs_per_proc
    x = _handles(ctx, 'x', [np.ones(NSTP)], 'arr')
    out['LTIGalerkinProjectionHandles'] = m.LTIGalerkinProjectionHandles(
        kw['inner_product'], x, max_vecs_per_node=maxv, verbosity=0).vec_space.max_vecs_per_proc
    return out
