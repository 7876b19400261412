"""H03: inputs and earlier results are never modified; calls are repeatable."""
import itertools, os
import numpy as np
from mc import serial
from mc.core import scratch
from mc.num import mat, herm, weights, close

RULE = ('every array, list, vector and handle passed to a computation is bitwise unchanged afterwards, also when it is '
        'read-only; every result returned or stored earlier is unchanged by all later calls; repeating the call gives '
        'the same result')
BOUNDS = ('every public computation (array functions, handle classes, projection, identification, utilities) x real/'
          'complex/integer data x weights x memory layouts (C, Fortran, view, read-only) x option values; for objects '
          'all sequences of length <= 3 of their operations')

N, K = 5, 3


def snap(x, seen=None):
    """Deep immutable snapshot of a value."""
    m = serial.modred()
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, x.dtype.str, x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, snap(x[k])) for k in sorted(x))
    if isinstance(x, m.VecHandle):
        d = dict(x.__dict__)
        return ('h', id(x)) + tuple((k, snap(d[k])) for k in sorted(d))
    if isinstance(x, UV):
        return ('uv', snap(x.a))
    if isinstance(x, np.generic):
        return ('g', x.dtype.str, x.tobytes())
    if callable(x):
        return ('f', id(x))
    if x is None or isinstance(x, (int, float, complex, str, bool, range)):
        return x
    return ('o', id(x))


class UV(object):
    def __init__(self, a):
        self.a = a

    def __add__(self, o):
        return UV(self.a + o.a)

    def __mul__(self, s):
        return UV(self.a * s)

    def __rmul__(self, s):
        return UV(self.a * s)

    def __sub__(self, o):
        return UV(self.a - o.a)

    def __iadd__(self, o):
        self.a += o.a
        return self

    def __imul__(self, s):
        self.a *= s
        return self


def lay(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'view':
        b = np.zeros((a.shape[0] + 1,) + a.shape[1:], a.dtype)
        b[1:] = a
        return b[1:]
    if how == 'ro':
        a = a.copy()
        a.setflags(write=False)
    if how == 'list':
        return a.tolist()
    return a


def _X(cplx, dt, how, salt=0, n=N, k=K):
    a = mat(n, k, cplx, 21 + salt, 'generic')
    if dt == 'int':
        a = np.round(a * 8).astype(int)
    return lay(a, how)


def wts(w, cplx):
    if w == 'int':
        return 1 + np.arange(N)
    if w == 'list':
        return list(0.5 + 0.25 * np.arange(N))
    if w == 'col':
        return (0.5 + 0.25 * np.arange(N)).reshape(-1, 1)
    if w == '2da':                      # Hermitian but for the last digits
        W = weights('2d', N, cplx)
        W[0, 1] *= 1 + 1e-13
        return W
    if w == '2dint':
        return np.eye(N, dtype=int) * 2
    return weights(w, N, cplx)


def array_calls(cplx, dt, how, w):
    """name -> (function, positional args, keyword args)"""
    m = serial.modred()
    W = wts(w, cplx)
    X, Y = _X(cplx, dt, how), _X(cplx, dt, how, 1)
    S = _X(cplx, dt, how, 2, N, K + 1)
    ws = {'inner_product_weights': W}
    mi = [1, 0]
    out = {}
    for f in ('compute_POD_arrays_snaps_method', 'compute_POD_arrays_direct_method'):
        out[f] = (getattr(m, f), [X], dict(ws))
        out[f + ' idx'] = (getattr(m, f), [X], dict(ws, mode_indices=mi, atol=1e-9, rtol=1e-9))
    out['compute_BPOD_arrays'] = (m.compute_BPOD_arrays, [X, Y], dict(
        ws, num_inputs=1, num_outputs=1, direct_mode_indices=mi, adjoint_mode_indices=mi))
    for f in ('compute_DMD_arrays_snaps_method', 'compute_DMD_arrays_direct_method',
              'compute_TLSqrDMD_arrays_snaps_method', 'compute_TLSqrDMD_arrays_direct_method'):
        out[f + ' seq'] = (getattr(m, f), [S], dict(ws, max_num_eigvals=2))
        out[f + ' pair'] = (getattr(m, f), [X], dict(ws, adv_vecs=Y, mode_indices=mi, max_num_eigvals=2))
    VS = m.VectorSpaceArrays
    if how != 'list':
        out['ip'] = (lambda a, b, w: VS(weights=w).compute_inner_product_array(a, b), [X, Y, W], {})
        out['symm'] = (lambda a, w: VS(weights=w).compute_symm_inner_product_array(a), [X, W], {})
        out['lin'] = (lambda a, c, i: VS().lin_combine(a, c, coeff_array_col_indices=i),
                      [X, lay(mat(K, K, cplx), how), [1, 1]], {})
    P = m.LTIGalerkinProjectionArrays

    def proj(b, a, w, A, B, C):
        p = P(b, adjoint_basis_vecs=a, inner_product_weights=w)
        return p.compute_model(A, B, C)
    out['proj'] = (proj, [X, lay(mat(N, K, cplx, 7) + np.asarray(X), how), W, Y, X, lay(mat(2, K, cplx), how)], {})
    out['proj symm'] = (proj, [X, None, W, Y, X, lay(mat(2, K, cplx), how)], {})
    out['derivs'] = (m.compute_derivs_arrays, [X, Y, 0.5], {})
    return out


def util_calls(cplx, dt, how):
    m = serial.modred()
    u = m.util
    q = lambda a: lay(np.round(a * 8).astype(int) if dt == 'int' else a, how)
    A, B, C = mat(K, K, cplx, 3) * 0.4, mat(K, 2, cplx, 4), mat(2, K, cplx, 5)
    A, B, C = (lay(x, how) for x in (A, B, C))
    H = lay(herm(K, cplx), how)
    M = lay(mat(12, 4, False, 9).reshape(12, 2, 2), how)
    f = os.path.join(scratch(), 'h03.txt')
    out = {
        'svd': (u.svd, [q(mat(4, 3, cplx))], dict(atol=1e-3, rtol=1e-3)),
        'eigh': (u.eigh, [H], dict(atol=1e-3, rtol=1e-3, is_positive_definite=True)),
        'eig_biorthog l': (u.eig_biorthog, [q(mat(4, 4, cplx))], {}),
        'eig_biorthog r': (u.eig_biorthog, [q(mat(4, 4, cplx))], dict(scale_choice='right')),
        'sum_arrays': (u.sum_arrays, [q(mat(2, 2, cplx)), q(mat(2, 2, cplx, 1))], {}),
        'sum_lists': (u.sum_lists, [[1, 2], [3, 4]], {}),
        'atleast_2d_row': (u.atleast_2d_row, [q(mat(3, 1, cplx)[:, 0])], {}),
        'atleast_2d_col': (u.atleast_2d_col, [q(mat(3, 1, cplx)[:, 0])], {}),
        'flatten': (u.flatten_list, [[[1, 2], [3]]], {}),
        'Hankel1': (u.Hankel, [q(mat(4, 1, cplx)[:, 0])], {}),
        'Hankel_chunks': (u.Hankel_chunks, [[np.asarray(q(mat(2, 2, cplx, i))) for i in range(3)],
                                            [np.asarray(q(mat(2, 2, cplx, i))) for i in (2, 5)]], {}),
        'Hankel_chunks1': (u.Hankel_chunks, [[np.asarray(q(mat(2, 2, cplx, i))) for i in range(3)]], {}),
        'save': (lambda a: (u.save_array_text(a, f), open(f).read())[1], [q(mat(3, 3, cplx))], {}),
        'save1': (lambda a: (u.save_array_text(a, f), open(f).read())[1], [q(mat(3, 1, cplx)[:, 0])], {}),
    }
    if how != 'list':
        out['Hankel2'] = (u.Hankel, [q(mat(4, 1, cplx)[:, 0]), q(mat(3, 1, cplx, 2)[:, 0])], {})
    if not cplx:
        Ad = lay(mat(K, K, False, 3, 'orth') * 0.7, how)
        if how != 'list':
            out['impulse'] = (u.impulse, [Ad, B, C, 5], {})
        out['lsim'] = (u.lsim, [Ad, B, C, q(mat(6, 2, False, 1))], dict(initial_condition=lay(np.ones(K), how)))
        out['balanced_truncation'] = (u.balanced_truncation, [Ad, B, C], dict(order=2, return_sing_vals=True))
        out['make_sampled_format'] = (m.make_sampled_format, [lay(np.arange(12) * .5, how), M], {})
        out['ERA'] = (m.compute_ERA_model, [M, 2], {})
        out['OKID'] = (m.OKID, [lay(mat(2, 12, False, 4), how), lay(mat(2, 12, False, 5), how), 3], {})
        out['OKID1'] = (m.OKID, [lay(mat(1, 12, False, 4)[0], how), lay(mat(1, 12, False, 5)[0], how), 3], {})
        v = mat(3, 4, cplx, 6)
        g = [np.array([0., 1., 3.]), np.array([0., .5, 1., 2.])]
        out['trapz'] = (lambda a, b, *gr: m.InnerProductTrapz(*gr)(a, b), [v.copy(), v.copy()] + g, {})
        out['uniform'] = (m.inner_product_array_uniform, [v.copy(), v.copy()], {})
    return out


def _judge(fn, args, kw):
    import contextlib, io
    before = [snap(args), snap(kw)]
    with contextlib.redirect_stdout(io.StringIO()):
        r1 = fn(*args, **kw)
        if snap(args) != before[0] or snap(kw) != before[1]:
            return 'an input was modified'
        s1 = snap(r1)
        r2 = fn(*args, **kw)
        if snap(r1) != s1:
            return 'an earlier result was modified by a repeated call'
        if snap(args) != before[0] or snap(kw) != before[1]:
            return 'an input was modified by the second call'
    for a, b in zip(_leaves(r1), _leaves(r2)):
        m = close(b, a, 1e-12, 'repeated call') if not isinstance(a, str) else ('' if a == b else 'repeated call differs')
        if m:
            return m
    return ''


def _leaves(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in _leaves(y)]
    return [r]


def case_array(name, cplx, dt, how, w):
    return _judge(*array_calls(cplx, dt, how, w)[name])


def case_util(name, cplx, dt, how):
    return _judge(*util_calls(cplx, dt, how)[name])


# ------------------------------------------------------------------ objects
def _hs(m, A, kind):
    if kind == 'mem':
        return [m.VecHandleInMemory(A[:, j].copy()) for j in range(A.shape[1])]
    if kind == 'obj':
        return [m.VecHandleInMemory(UV(A[:, j].copy())) for j in range(A.shape[1])]
    base = m.VecHandleInMemory(np.ones(A.shape[0]))
    return [m.VecHandleInMemory(A[:, j].copy(), base_vec_handle=base, scale=2.) for j in range(A.shape[1])]


def _ip(a, b):
    return np.vdot(getattr(a, 'a', a), getattr(b, 'a', b))


OBJ = {
    'vs': ['ip', 'ip1', 'symm', 'lin', 'lin1', 'lincol', 'linunit', 'derivs'],
    'pod': ['decomp', 'modes', 'modes1', 'coeffs', 'eig'],
    'bpod': ['decomp', 'direct', 'adjoint', 'dcoef', 'acoef', 'svd'],
    'dmd': ['decomp', 'seq', 'exact', 'proj', 'adj', 'spec', 'coef', 'eig'],
    'tls': ['decomp', 'seq', 'exact', 'proj', 'adj', 'spec', 'coef', 'eig'],
    'era': ['model', 'model2'],
    'gal': ['A', 'B', 'C', 'model'],
    'galarr': ['A', 'B', 'C', 'model'],
}


def case_object(cls, kind, cplx, ops):
    """Every operation sequence: nothing passed in or handed out changes."""
    m = serial.modred()
    X, Y = mat(N + 1, K, cplx, 21), mat(N + 1, K, cplx, 22)
    xh, yh = _hs(m, X, kind), _hs(m, Y, kind)
    kw = dict(inner_product=_ip, verbosity=0, max_vecs_per_node=4)
    watch = [('data handles', xh), ('second data handles', yh)]
    coeff = mat(K, K, cplx, 9)
    idx = [1, 0]
    unit = np.array([[1., 0., -1.], [2., 1., 1.], [0., 1., 3.]])
    watch += [('coefficients', coeff), ('unit coefficients', unit), ('indices', idx)]
    Mk = mat(16, 4, False, 9).reshape(16, 2, 2)
    Cv = [mat(2, 1, cplx, i)[:, 0] for i in range(K)]
    Cm = mat(2, K, cplx, 5)
    watch += [('Markov parameters', Mk), ('outputs', Cv), ('output array', Cm), ('X', X), ('Y', Y)]
    o = {'vs': lambda: m.VectorSpaceHandles(**kw), 'pod': lambda: m.PODHandles(**kw),
         'bpod': lambda: m.BPODHandles(**kw), 'dmd': lambda: m.DMDHandles(**kw), 'tls': lambda: m.TLSqrDMDHandles(**kw),
         'era': lambda: m.ERA(verbosity=0),
         'gal': lambda: m.LTIGalerkinProjectionHandles(_ip, xh, adjoint_basis_vec_handles=yh, verbosity=0),
         'galarr': lambda: m.LTIGalerkinProjectionArrays(X, adjoint_basis_vecs=Y)}[cls]()

    def outs(k):
        hs = [m.VecHandleInMemory() for _ in range(k)]
        return hs
    opening = {'pod': ['decomp'], 'bpod': ['decomp'], 'dmd': ['decomp'], 'tls': ['decomp']}.get(cls, [])
    snaps = [(w, v, snap(v)) for w, v in watch]
    data = (xh, yh, Mk, X, Y, Cm, Cv)
    alt = (yh, xh, Mk[::-1] * 0.5, Y, X, Cm * 2., Cv[::-1])
    watch += [('other data', alt)]
    snaps.append(('other data', alt, snap(alt)))
    for n, op in enumerate(opening + list(ops)):
        res = None
        # every other operation gets other data of the same size
        xh, yh, Mk, X, Y, Cm, Cv = data if n % 2 == 0 else alt
        if op in ('ip', 'ip1'):
            res = o.compute_inner_product_array(xh if op == 'ip' else xh[0], yh)
        elif op == 'symm':
            res = o.compute_symm_inner_product_array(xh)
        elif op in ('lin', 'lin1', 'lincol', 'linunit'):
            b = xh[:1] if op == 'lin1' else xh
            c = np.ones((1, 2)) if op == 'lin1' else unit if op == 'linunit' else coeff
            k = 2 if op in ('lin1', 'lincol') else K
            res = outs(k)
            o.lin_combine(res, b, c, coeff_array_col_indices=idx if op == 'lincol' else None)
        elif op == 'derivs':
            res = outs(K)
            from modred.ltigalerkinproj import compute_derivs_handles
            compute_derivs_handles(xh, yh, res, 1.)
        elif op == 'decomp':
            a = dict(atol=1e-12)
            res = o.compute_decomp(xh, yh, num_inputs=1, num_outputs=1, **a) if cls == 'bpod' else (
                o.compute_decomp(xh, adv_vec_handles=yh, **a) if cls in ('dmd', 'tls') else o.compute_decomp(xh, **a))
            res = list(res) + [o.__dict__.get(k) for k in ('correlation_array', 'cross_correlation_array',
                                                           'adv_correlation_array', 'Hankel_array')]
        elif op == 'seq':
            res = list(o.compute_decomp(xh, atol=1e-12)) + [o.correlation_array, o.cross_correlation_array]
        elif op in ('eig', 'svd'):
            (o.compute_eigendecomp if op == 'eig' else o.compute_SVD)(atol=1e-10)
            res = [v for k, v in sorted(o.__dict__.items()) if isinstance(v, np.ndarray)]
        elif op in ('modes', 'modes1', 'direct', 'adjoint', 'exact', 'proj', 'adj'):
            k = 1 if op == 'modes1' else 2
            res = outs(k)
            f = {'modes': 'compute_modes', 'modes1': 'compute_modes', 'direct': 'compute_direct_modes',
                 'adjoint': 'compute_adjoint_modes', 'exact': 'compute_exact_modes', 'proj': 'compute_proj_modes',
                 'adj': 'compute_adjoint_modes'}[op]
            getattr(o, f)([0] if k == 1 else idx, res)
        elif op in ('coeffs', 'coef', 'dcoef', 'acoef', 'spec'):
            f = {'coeffs': 'compute_proj_coeffs', 'coef': 'compute_proj_coeffs', 'dcoef': 'compute_direct_proj_coeffs',
                 'acoef': 'compute_adjoint_proj_coeffs', 'spec': 'compute_spectrum'}[op]
            res = getattr(o, f)()
        elif cls == 'era':
            res = list(o.compute_model(Mk, 2, **({} if op == 'model' else dict(mc=2, mo=3)))) + [
                o.Hankel_array, o.Hankel_array2, o.sing_vals, o.L_sing_vecs, o.R_sing_vecs]
        else:
            arg = {'gal': (yh, xh, Cv), 'galarr': (Y, X, Cm)}[cls]
            if op == 'model':
                res = o.compute_model(*arg)
            else:
                res = getattr(o, 'reduce_' + op)(arg['ABC'.index(op)])
        for w, v, s in snaps:
            if snap(v) != s:
                return '%s modified by %s after %s' % (w, op, (opening + list(ops))[:n])
        snaps.append(('result of ' + op, res, snap(res)))
    return ''


def run(ck):
    q = ck.quick
    names = {}
    cs, us = [], []
    for cplx in (False, True):
        for dt in ('float', 'int'):
            if cplx and dt == 'int':
                continue
            for how in ('C', 'F', 'view', 'ro', 'list'):
                for w in ('none', '1d', '2d', '2da', 'int', 'list', 'col', '2dint'):
                    for nme in array_calls(cplx, dt, how, w):
                        cs.append(dict(name=nme, cplx=cplx, dt=dt, how=how, w=w))
                for nme in util_calls(cplx, dt, how):
                    us.append(dict(name=nme, cplx=cplx, dt=dt, how=how))
    ck.domain('array', cs)
    ck.domain('util', us)
    ob = []
    for cls in OBJ:
        for kind in ('mem', 'obj', 'base') if cls not in ('era', 'galarr') else ('mem',):
            for cplx in (False, True):
                for L in range(1, 4 if q else 5):
                    for ops in itertools.product(OBJ[cls], repeat=L):
                        ob.append(dict(cls=cls, kind=kind, cplx=cplx, ops=list(ops)))
    ck.domain('object', ob)
