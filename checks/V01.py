"""V01: array inner products and linear combinations for all weights."""
import itertools
import numpy as np
from mc import serial
from mc.core import grid
from mc.num import mat, herm, close, nz

RULE = 'inner product array = X* W Y entrywise (explicit sums); lin_combine = X C[:, idx]; 1D weights w equal diag(w)'
BOUNDS = ('vector length 1..5 (7), 1..4 (6) columns each side, weights none/1D/2D Hermitian real and complex/diagonal/'
          'integer/list/row shaped, real/complex/integer data in all combinations, C/F/strided layouts, magnitudes 2^-45..2^25, every column index list '
          'of length <= 3 over 3 columns and negative indices; '
          'arrays equal or related to each other in 12 ways; weights times 2^-60..2^40, weights nearly diagonal or nearly the identity (1e-3..1e-11); also up to length 1030 and 257 columns')


def wts(kind, n):
    """Weights as given and as a full array; 'kind*e' times 2^e, 'diag~e' and 'eye~e' plus Hermitian parts of size 10^-e."""
    r = np.arange(n)
    if '*' in kind:
        k, e = kind.split('*')
        w, W = wts(k, n)
        f = 2. ** int(e)
        return type(w)(x * f for x in w) if isinstance(w, (list, tuple)) and k != '2dlist' else \
            (np.asarray(w) * f).tolist() if k == '2dlist' else w * f, W * f
    if '~' in kind:
        k, e = kind.split('~')
        w = (np.eye(n) if k[:3] == 'eye' else np.diag(0.5 + 0.75 * r)) + 10. ** -int(e) * herm(n, k[-1] == 'c', 3)
        return w, w
    if kind == 'none':
        return None, np.eye(n)
    if kind in ('1d', 'list', 'int', 'row', 'col', 'tuple'):
        w = 0.5 + 0.75 * r if kind != 'int' else 1 + 2 * r
        return {'1d': w, 'int': w, 'list': list(w), 'row': w.reshape(1, -1), 'col': w.reshape(-1, 1),
                'tuple': tuple(w)}[kind], np.diag(w)
    if kind in ('2d', '2dlist', '2dF'):
        w = herm(n, False, 3)
        return {'2d': w, '2dlist': w.tolist(), '2dF': np.asfortranarray(w)}[kind], w
    if kind == 'diag':
        w = np.diag(0.5 + 0.75 * r)
        return w, w
    if kind == '2dc':
        w = herm(n, True, 3)
        return w, w
    raise ValueError(kind)


def dat(n, k, kind, salt):
    if '*' in kind:
        kind, e = kind.split('*')
        return dat(n, k, kind, salt) * 2. ** int(e)
    if kind == 'int':
        return np.round(8 * mat(n, k, False, salt)).astype(int)
    a = mat(n, k, kind[0] == 'c', salt)
    if kind[1:] == 'F':
        return np.asfortranarray(a)
    if kind[1:] == 's':
        b = np.zeros((2 * n, 3 * k), a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    return a


def ipref(X, W, Y):
    n, p, q = X.shape[0], X.shape[1], Y.shape[1]
    out = np.zeros((p, q), complex)
    for i in range(p):
        for j in range(q):
            t = 0
            for a in range(n):
                for b in range(n):
                    t += np.conj(X[a, i]) * W[a, b] * Y[b, j]
            out[i, j] = t
    return out


def case_ip(n, p, q, w, x, y):
    m = serial.modred()
    X, Y = dat(n, p, x, 11), dat(n, q, y, 12)
    wa, W = wts(w, n)
    vs = m.VectorSpaceArrays(weights=wa)
    r = ipref(X, W, Y)
    g = vs.compute_inner_product_array(X, Y)
    s = vs.compute_symm_inner_product_array(X)
    rs = ipref(X, W, X)
    h = vs.compute_inner_product_array(Y, X)
    f, fs = ([2. ** sum(int((z.split('*') + ['0'])[1]) for z in zs) for zs in ((x, y), (x, x))])
    out = nz(close(g / f, r / f, 1e-12, 'inner products'), close(s / fs, rs / fs, 1e-12, 'symmetric inner products'),
             close(h / f, r.conj().T / f, 1e-12, 'conjugate symmetry'))
    if w in ('1d', 'list', 'int', 'tuple'):
        g2 = m.VectorSpaceArrays(weights=W).compute_inner_product_array(X, Y)
        out += nz(close(g / f, g2 / f, 1e-13, '1D against 2D weights'))
    return out


def case_lin(n, nb, nc, x, c, idx, form):
    m = serial.modred()
    X, C = dat(n, nb, x, 13), dat(nb, nc, c, 14)
    ii = {'list': lambda: list(idx), 'tuple': lambda: list(idx), 'arr': lambda: np.array(idx, dtype=int),
          'range': lambda: range(idx[0], idx[-1] + 1), 'none': lambda: None}[form]()
    cols = list(range(nc)) if form == 'none' else (list(ii))
    g = m.VectorSpaceArrays().lin_combine(X, C.tolist() if x == 'rF' else C, coeff_array_col_indices=ii)
    r = np.zeros((n, len(cols)), complex)
    for k, j in enumerate(cols):
        for i in range(nb):
            r[:, k] += X[:, i] * C[i, j]
    f = 2. ** sum(int((z.split('*') + ['0'])[1]) for z in (x, c))
    return close(g / f, r / f, 1e-12, 'linear combinations')


def case_big(n, p, q, w, x, y):
    """Many columns, long vectors."""
    m = serial.modred()
    X, Y = dat(n, p, x, 11), dat(n, q, y, 12)
    wa, W = wts(w, n)
    vs = m.VectorSpaceArrays(weights=wa)
    r, rs = (np.einsum('ai,ab,bj->ij', X.conj(), W, Z, optimize=True) for Z in (Y, X))
    f = 1. + max(np.abs(r).max(), np.abs(rs).max())
    return nz(close(vs.compute_inner_product_array(X, Y) / f, r / f, 1e-12, 'inner products'),
              close(vs.compute_symm_inner_product_array(X) / f, rs / f, 1e-12, 'symmetric inner products'),
              close(vs.compute_inner_product_array(Y, X) / f, r.conj().T / f, 1e-12, 'conjugate symmetry'))


def case_biglin(n, nb, nc, x, c, step):
    m = serial.modred()
    X, C = dat(n, nb, x, 13), dat(nb, nc, c, 14)
    ii = {0: None, 1: list(range(nc)), -1: list(range(nc))[::-1], 3: [i * 7 % nc for i in range(0, nc, 3)]}[step]
    g = m.VectorSpaceArrays().lin_combine(X, C, coeff_array_col_indices=ii)
    r = np.einsum('ai,ij->aj', X, C)[:, ii if ii is not None else slice(None)]
    f = 1. + np.abs(r).max()
    return close(g / f, r / f, 1e-12, 'linear combinations')


def case_wmag(n, p, q, w, cplx):
    """Weights of any magnitude, nearly diagonal weights, weights nearly the identity."""
    m = serial.modred()
    X, Y = mat(n, p, cplx, 11), mat(n, q, cplx, 12)
    wa, W = wts(w, n)
    vs = m.VectorSpaceArrays(weights=wa)
    f = np.abs(W).max()
    r, rs = ipref(X, W / f, Y), ipref(X, W / f, X)
    return nz(close(vs.compute_inner_product_array(X, Y) / f, r, 1e-13, 'inner products'),
              close(vs.compute_symm_inner_product_array(X) / f, rs, 1e-13, 'symmetric inner products'),
              close(vs.compute_inner_product_array(Y, X) / f, r.conj().T, 1e-13, 'conjugate symmetry'))


REL = {'is': lambda X: X, 'same': lambda X: X.copy(), 'view': lambda X: X[:], 'neg': lambda X: -X, 'conj': np.conj,
       'cols': lambda X: X[:, ::-1].copy(), 'phase': lambda X: X * 1j, 'abs': np.abs, 'fewer': lambda X: X[:, :1], 'near': lambda X: X * (1 + 1e-9j),
       'rows': lambda X: X[::-1].copy(), 'real': lambda X: np.real(X).copy()}


def case_rel(n, p, w, cplx, rel):
    """Arrays that are the same or related."""
    m = serial.modred()
    X = mat(n, p, cplx, 11)
    Y = REL[rel](X)
    wa, W = wts(w, n)
    vs = m.VectorSpaceArrays(weights=wa)
    return nz(close(vs.compute_inner_product_array(X, Y), ipref(X, W, Y), 1e-13, 'inner products'),
              close(vs.compute_inner_product_array(Y, X), ipref(Y, W, X), 1e-13, 'inner products, exchanged'))


def case_eqw(n, w):
    """Weights are those given at construction, also with zero columns."""
    m = serial.modred()
    wa, W = wts(w, n)
    vs = m.VectorSpaceArrays(weights=wa)
    X = mat(n, 2, True, 5)
    return nz(close(vs.compute_inner_product_array(X[:, :0], X), np.zeros((0, 2)), 0, 'no rows'),
              close(vs.compute_inner_product_array(X, X[:, :0]), np.zeros((2, 0)), 0, 'no columns'))


def run(ck):
    q = ck.quick
    K = range(1, 4 if q else 7)
    cs = []
    for n in range(1, 6 if q else 9):
        for w in ('none', '1d', 'list', 'tuple', 'int', 'row', 'col', '2d', '2dlist', '2dF', 'diag', '2dc'):
            for x, y in itertools.product(('r', 'c', 'int', 'cF', 'rs', 'cs'), repeat=2):
                for a in K:
                    for b in K:
                        if (q and a != b and x + y not in ('rc', 'cc', 'cr')):
                            continue
                        cs.append(dict(n=n, p=a, q=b, w=w, x=x, y=y))
        for w in ('none', '1d', 'int', '2d', '2dc'):
            for x, y in (('r*-30', 'r*-30'), ('c*-30', 'c*25'), ('c*25', 'c*25'), ('r*-45', 'c'), ('c*-12', 'r*-12')):
                for a in K:
                    cs.append(dict(n=n, p=a, q=2, w=w, x=x, y=y))
    ck.domain('ip', cs)
    ck.domain('wmag', [dict(n=n, p=a, q=b, w=w, cplx=c) for n in range(1, 6 if q else 9) for a in K for b in K for c in (False, True)
                       for w in ['%s*%d' % (k, e) for k in ('1d', 'list', 'tuple', '2d', '2dlist', 'diag', '2dc', 'eye~9', 'diag~9')
                                 for e in (-60, -40, -27, -10, 20, 40)] +
                       ['%s~%d' % (k, e) for k in ('eye', 'diag', 'eyec', 'diagc') for e in (3, 6, 9, 11)]])
    ln = []
    for n in (1, 2, 4):
        for nb in K:
            for d in (('r*-30', 'c*-10'), ('c*25', 'r*25'), ('c*-45', 'c')):
                ln.append(dict(n=n, nb=nb, nc=3, x=d[0], c=d[1], idx=[], form='none'))
            for x, c in itertools.product(('r', 'c', 'int', 'rF', 'cs'), ('r', 'c', 'int', 'cF')):
                for nc in (1, 3):
                    ln.append(dict(n=n, nb=nb, nc=nc, x=x, c=c, idx=[], form='none'))
                for L in range(0, 4 if q else 5):
                    for idx in itertools.product(range(3), repeat=L):
                        ln.append(dict(n=n, nb=nb, nc=3, x=x, c=c, idx=list(idx), form='list'))
                for idx in ([-1], [0, -1, 1], [2, -3]):
                    ln.append(dict(n=n, nb=nb, nc=3, x=x, c=c, idx=idx, form='list'))
                for idx in ([0, 1, 2], [1, 2], [2]):
                    for form in ('arr', 'range'):
                        ln.append(dict(n=n, nb=nb, nc=3, x=x, c=c, idx=idx, form=form))
    ck.domain('lin', ln)
    ck.domain('rel', [dict(n=n, p=k, w=w, cplx=c, rel=r) for n in range(1, 6 if q else 9) for k in K for c in (False, True) for r in REL
                      for w in ('none', '1d', 'list', 'int', '2d', '2dlist', 'diag', '2dc')])
    ck.domain('eqw', list(grid(n=[1, 2, 3], w=['none', '1d', '2d', '2dc'])))
    big = [(n, a, b) for n, a, b in ((12, 11, 13), (33, 1, 40), (101, 12, 2), (501, 3, 2), (1030, 1, 1), (3, 130, 12), (2, 12, 257))]
    ck.domain('big', [dict(n=n, p=a, q=b, w=w, x=x, y=y) for n, a, b in big for w in ('none', '1d', 'list', 'int', 'col', '2d', '2dlist', '2dc')
                      for x, y in itertools.product(('r', 'c', 'int', 'cs'), repeat=2) if n < 1000 or w not in ('2dlist', '2d')], chunk=16)
    ck.domain('biglin', [dict(n=n, nb=a, nc=b, x=x, c=c, step=t) for n, a, b in big for x in ('r', 'c', 'int') for c in ('r', 'c', 'int')
                         for t in (0, 1, -1, 3)], chunk=16)
