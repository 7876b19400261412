"""Small numerical helpers and the fixed data alphabet."""
import numpy as np


def close(a, b, tol=1e-9, what=''):
    """'' if equal within tol (relative to the size of b), else a message."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return '%s shape %s instead of %s' % (what, a.shape, b.shape)
    if a.size == 0:
        return ''
    if a.dtype == object or b.dtype == object:
        return '' if (a == b).all() else '%s differs' % what
    d = np.abs(a - b)
    if not np.isfinite(d).all():
        if np.array_equal(np.isfinite(a), np.isfinite(b)):
            m = np.isfinite(b)
            if np.array_equal(a[~m], b[~m], equal_nan=True):
                d = d[m]
                if d.size == 0:
                    return ''
            else:
                return '%s not finite' % what
        else:
            return '%s not finite' % what
    s = 1. + np.abs(b[np.isfinite(b)]).max()
    if d.max() > tol * s:
        return '%s off by %.3g (scale %.3g)' % (what, d.max(), s)
    return ''


_cache = {}


def mat(m, n, cplx=False, salt=0, kind='generic'):
    """Fixed matrix of the alphabet.  kinds: generic (well conditioned random
    numbers, fixed seed), int (small integers), lowrank (rank 1 less than full),
    orth (orthonormal columns/rows)."""
    key = (m, n, bool(cplx), salt, kind)
    if key not in _cache:
        rs = np.random.RandomState((m * 1009 + n * 9176 + int(bool(cplx)) * 77 + salt * 131 + 12345) % (2 ** 31))
        def one():
            if kind == 'int':
                return rs.randint(-3, 4, size=(m, n)).astype(float)
            return rs.uniform(-1, 1, size=(m, n))
        a = one() + 1j * one() if cplx else one()
        if kind == 'generic' and min(m, n) > 0:
            # well separated singular values
            u, s, v = np.linalg.svd(a, full_matrices=False)
            s = 2.0 * max(0.6, 0.03 ** (1. / len(s))) ** np.arange(len(s))
            a = (u * s).dot(v)
        elif kind == 'lowrank':
            u, s, v = np.linalg.svd(a, full_matrices=False)
            s = 2.0 * 0.6 ** np.arange(len(s))
            s[-1] = 0.
            a = (u * s).dot(v)
        elif kind == 'orth':
            a = np.linalg.qr(a if m >= n else a.conj().T)[0]
            a = a if m >= n else a.conj().T
        a.setflags(write=False)
        _cache[key] = a
    return _cache[key].copy()


def herm(n, cplx=False, salt=0, lo=0.5):
    """Hermitian positive definite matrix, well conditioned."""
    q = mat(n, n, cplx, salt + 500, 'orth')
    d = lo + 0.75 * np.arange(n)
    return (q * d).dot(q.conj().T) if n else np.zeros((0, 0))


def weights(kind, n, cplx=False):
    if kind == 'none':
        return None
    if kind == '1d':
        return 0.5 + 0.25 * np.arange(n)
    if kind == '2d':
        w = herm(n, cplx, 3)
        return 0.5 * (w + w.conj().T)
    if kind == '2ddiag':
        return np.diag(0.5 + 0.25 * np.arange(n))
    raise ValueError(kind)


def fullW(w, n):
    if w is None:
        return np.eye(n)
    w = np.asarray(w)
    return np.diag(w) if w.ndim == 1 else w


def nz(*msgs):
    return [m for m in msgs if m]


def phase_align(a, b):
    """Column-wise unit phases p with a * p ~ b."""
    ip = np.sum(a.conj() * b, axis=0)
    ab = np.abs(ip)
    return np.where(ab > 0, ip / np.where(ab > 0, ab, 1), 1)
