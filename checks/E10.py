"""E10: generated test systems have the requested sizes and stable real poles."""
import itertools
import numpy as np
from mc import serial
from mc.num import mat

RULE = ('drss/rss return real A (n x n), B (n x inputs), C (outputs x n); all eigenvalues of A are real; of magnitude below '
        'one (drss) or negative (rss), whatever the random numbers are')
BOUNDS = ('1..3 (4) states, 1..3 inputs, 1..3 outputs; the random number generator is replaced by a tape: every matrix of '
          'transformations with entries out of {-1.5, 0.5, 1} (uniform: {0.1, 0.5, 0.9}) and condition below 1e6 for up to two '
          'states, every circulant/triangular family member above; every vector of eigenvalue draws from the alphabet; 1..130 (400) states with an orthonormal transformation; 2..12 (20) '
          'states with 20 (100) transformations of each condition number 10..1e5')
ZN = (-1.5, 0.5, 1.)
ZU = (0.1, 0.5, 0.9)


class Tape(object):
    """Answers of the random number generator: standard draws in the order asked, cyclically repeated."""
    def __init__(self, mats, vec):
        self.mats, self.vec, self.n = mats, vec, 0

    def draw(self, size, uniform):
        size = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        src = self.mats[1 if uniform else 0]
        k = int(np.prod(size)) if size else 1
        if len(size) == 2 and size[0] == size[1] == src.shape[0]:
            a = src
        elif len(size) < 2 and uniform:
            a = np.resize(self.vec, k)
        else:
            a = np.resize(np.concatenate((src.ravel(), self.vec)), k)
        return np.array(a, dtype=float).reshape(size) if size else float(a.ravel()[0])

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.draw(size, False)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.draw(size, True)

    def random(self, size=None):
        return self.draw(size, True)

    def rand(self, *d):
        return self.draw(d or None, True)

    def randn(self, *d):
        return self.draw(d or None, False)

    def standard_normal(self, size=None):
        return self.draw(size, False)


NAMES = {'normal': 'normal', 'uniform': 'uniform', 'random': 'random', 'random_sample': 'random', 'ranf': 'random',
         'sample': 'random', 'rand': 'rand', 'randn': 'randn', 'standard_normal': 'standard_normal'}


def with_tape(tape, f):
    old = {k: getattr(np.random, k) for k in NAMES}
    try:
        for k, v in NAMES.items():
            setattr(np.random, k, getattr(tape, v))
        return f()
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


def mats(n):
    """Pairs (normal alphabet, uniform alphabet) of transformations."""
    if n <= 2:
        for idx in itertools.product(range(3), repeat=n * n):
            yield tuple(np.array([z[i] for i in idx]).reshape(n, n) for z in (ZN, ZU))
    else:
        for idx in itertools.product(range(3), repeat=n):
            circ = np.array([[(j - i) % n for j in range(n)] for i in range(n)])
            yield tuple(np.array([z[i] for i in idx])[circ] for z in (ZN, ZU))
            d = np.array([idx[(i + j) % n] for i in range(n) for j in range(n)]).reshape(n, n)
            yield tuple(np.array(z)[d] * (1 + np.tril(np.ones((n, n)), -1) * 0.5) for z in (ZN, ZU))


def case_sys(kind, n, ni, no):
    u = serial.modred().util
    k = 0
    for M in mats(n):
        if max(np.linalg.cond(x) for x in M) > 1e6:
            continue
        for vec in itertools.product(ZU, repeat=n):
            k += 1
            A, B, C = with_tape(Tape(M, np.array(vec)), lambda: getattr(u, kind)(n, ni, no))
            for nm, x, s in (('A', A, (n, n)), ('B', B, (n, ni)), ('C', C, (no, n))):
                if np.shape(x) != s or np.iscomplexobj(x) or not np.isfinite(x).all():
                    return '%s is %s %s, expected real %s' % (nm, np.shape(x), np.asarray(x).dtype, s), {}
            e = np.linalg.eigvals(A)
            tol = 1e-5
            if np.abs(e.imag).max() > tol:
                return 'complex poles %s' % e, {}
            if kind == 'drss' and np.abs(e).max() > 1 - 1e-4 or kind == 'rss' and e.real.max() > -1e-4:
                return 'unstable poles %s' % e, {}
    return '', {'states': k}


def case_size(kind, n, ni, no):
    """Many states: orthonormal transformations, distinct draws."""
    u = serial.modred().util
    Q = mat(n, n, False, 8, 'orth') if n > 1 else np.ones((1, 1))
    vec = (np.arange(n) + 0.5) / n
    A, B, C = with_tape(Tape((Q, Q), vec), lambda: getattr(u, kind)(n, ni, no))
    for nm, x, s in (('A', A, (n, n)), ('B', B, (n, ni)), ('C', C, (no, n))):
        if np.shape(x) != s or np.iscomplexobj(x) or not np.isfinite(x).all():
            return '%s is %s %s, expected real %s' % (nm, np.shape(x), np.asarray(x).dtype, s), {}
    e = np.linalg.eigvals(A)
    if np.abs(e.imag).max() > 1e-9:
        return 'complex poles %s' % e, {}
    if kind == 'drss' and np.abs(e).max() > 1 - 1e-4 or kind == 'rss' and e.real.max() > -1e-4:
        return 'unstable poles %s' % e, {}
    return ''


def case_ill(kind, n, cond, salt, ni, no):
    """Nearly singular transformations."""
    u = serial.modred().util
    l = np.logspace(0, -np.log10(cond), n)
    T = (mat(n, n, False, salt, 'orth') * l).dot(mat(n, n, False, salt + 50, 'orth').T) * 2.
    vec = (np.arange(n) + 0.5) / n
    A, B, C = with_tape(Tape((T, T), vec), lambda: getattr(u, kind)(n, ni, no))
    for nm, x, s in (('A', A, (n, n)), ('B', B, (n, ni)), ('C', C, (no, n))):
        if np.shape(x) != s or np.iscomplexobj(x) or not np.isfinite(x).all():
            return '%s is %s %s, expected real %s' % (nm, np.shape(x), np.asarray(x).dtype, s)
    e = np.linalg.eigvals(A)
    if np.abs(e.imag).max() > 1e-5:
        return 'complex poles %s' % e
    if kind == 'drss' and np.abs(e).max() > 1 - 1e-4 or kind == 'rss' and e.real.max() > -1e-4:
        return 'unstable poles %s' % e
    return ''


def run(ck):
    q = ck.quick
    ck.domain('ill', [dict(kind=k, n=n, cond=c, salt=s, ni=2, no=1) for k in ('drss', 'rss') for n in range(2, 13 if q else 21)
                      for c in (1e1, 1e2, 1e3, 1e4, 1e5) for s in range(20 if q else 100)], chunk=32)
    ck.domain('sys', [dict(kind=k, n=n, ni=i, no=o) for k in ('drss', 'rss') for n in range(1, 4 if q else 5)
                   for i in range(1, 4) for o in range(1, 4)])
    ck.domain('size', [dict(kind=k, n=n, ni=i, no=o) for k in ('drss', 'rss') for n in range(1, 131 if q else 401)
                       for i, o in ((1, 1), (5, 2), (2, 70))])
