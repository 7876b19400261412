"""V04: results do not depend on how the numbers are stored."""
import contextlib, io
import numpy as np
from mc import serial
from mc.num import weights
from checks import H03

RULE = ('a computation on nested lists, tuples, Fortran-ordered, strided, reversed, read-only or byte-swapped '
        'arrays, array subclasses (matrices where arrays are made of them), or integers of the same values gives what it '
        'gives for C-ordered double precision arrays, up to rounding and the phases of modes, as plain arrays')
BOUNDS = ('every array-based computation and utility x real/complex x weights (none, 1D, 2D; stored likewise) x '
          '10 ways of storing all arguments or one argument at a time; 8 integer types with products beyond their range')

HOWS = ['F', 'view', 'stride', 'rev', 'ro', 'swap', 'sub', 'list', 'tuple', 'matrix']


class Sub(np.ndarray):
    """An array subclass that behaves as an array."""


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def lay(a, how):
    a = np.array(a)
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'view':
        b = np.full((a.shape[0] + 1,) + a.shape[1:], 7, a.dtype)
        b[1:] = a
        return b[1:]
    if how == 'stride':
        b = np.full(tuple(2 * s for s in a.shape), 7, a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'rev':
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return np.array(a[r])[r]
    if how == 'ro':
        a.setflags(write=False)
        return a
    if how == 'swap':
        return a.astype(a.dtype.newbyteorder())
    if how == 'sub':
        return a.view(Sub)
    if how == 'list':
        return a.tolist()
    if how == 'tuple':
        return tup(a.tolist())
    if how == 'matrix':
        return np.matrix(a) if a.ndim == 2 else a
    return a


def calls(kind, cplx, dt, w):
    """The calls with C-ordered arguments."""
    c = H03.array_calls(cplx, dt, 'C', w) if kind == 'array' else H03.util_calls(cplx, dt, 'C')
    return {k: v for k, v in c.items() if k not in ('trapz', 'uniform', 'flatten', 'sum_lists')}


# functions that take the arrays they are given as they are
PLAIN = ('ip', 'symm', 'lin')


def excluded(name, how):
    return (name in PLAIN and how in ('list', 'tuple', 'matrix')
            or name in ('impulse', 'Hankel_chunks1') and how in ('list', 'tuple') or name == 'lsim' and how == 'matrix')


def relay(x, how):
    if isinstance(x, np.ndarray):
        return lay(x, how)
    if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
        return [lay(y, how) for y in x]
    return x


def call(fn, args, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kw)


def leaves(r, name=''):
    if isinstance(r, (tuple, list)):
        f = getattr(r, '_fields', range(len(r)))
        return [x for n, y in zip(f, r) for x in leaves(y, '%s %s' % (name, n))]
    return [(name, r)]


def diff(a, r):
    """a equals r up to a phase per column or per row."""
    a, r = np.asarray(a), np.asarray(r)
    if a.shape != r.shape:
        return 'shape %s instead of %s' % (a.shape, r.shape)
    s = max(1e-300, float(np.abs(r).max())) if r.size else 1.
    if not r.size or np.abs(a - r).max() <= 1e-7 * s:
        return ''
    for ax in (0, 1):
        if a.ndim == 2:
            ph = np.sum(a * r.conj(), axis=ax, keepdims=True)
            ph = ph / np.where(np.abs(ph) > 0, np.abs(ph), 1)
            if np.abs(a - r * ph).max() <= 1e-7 * s:
                return ''
    return 'differs by %.2e: %s instead of %s' % (np.abs(a - r).max(), a.tolist(), r.tolist())


def case_store(kind, name, cplx, dt, w, how, which):
    fn, args, kw = calls(kind, cplx, dt, w)[name]
    if dt == 'int':
        F = lambda x: x.astype(float) if isinstance(x, np.ndarray) else x
        want = call(fn, [F(a) if not isinstance(a, list) else [F(b) for b in a] for a in args],
                    {k: F(v) for k, v in kw.items()})
    else:
        want = call(fn, args, kw)
    fn, args, kw = calls(kind, cplx, dt, w)[name]
    n = -1
    new = []
    for a in args:
        b = relay(a, how)
        if b is not a:
            n += 1
            b = b if which in (-1, n) else a
        new.append(b)
    nk = {}
    for k, v in kw.items():
        b = relay(v, how)
        if b is not v:
            n += 1
            b = b if which in (-1, n) else v
        nk[k] = b
    if which > n:
        return '', {'states': 0}
    got = call(fn, new, nk)
    if isinstance(want, str):
        return ('' if got == want else 'text differs: %r instead of %r' % (got[:200], want[:200])), {}
    A, B = leaves(got), leaves(want)
    if [x for x, _ in A] != [x for x, _ in B]:
        return 'results %s instead of %s' % ([x for x, _ in A], [x for x, _ in B]), {}
    for (nm, a), (_, b) in zip(A, B):
        if how == 'matrix' and isinstance(a, np.matrix):
            return '%s is a matrix' % nm, {}
        d = diff(a, b)
        if d:
            return '%s %s' % (nm, d), {}
    return '', {}


# integer types and factors with which the numbers fit but not their products
NARROW = {'i1': 6, 'i2': 1500, 'i4': 10 ** 8, 'i8': 2 * 10 ** 9, 'u1': 12, 'u2': 3000, 'u4': 2 * 10 ** 8, 'u8': 4 * 10 ** 9}


def case_narrow(name, t, w):
    fn, args, kw = calls('util' if name in NUTIL else 'array', False, 'int', w)[name]

    if name in NUTIL:
        args = [args[0]] + [np.round(8 * a) for a in args[1:3]] + args[3:]

    def big(x):
        if not isinstance(x, np.ndarray) or not np.array_equal(x, np.round(x)) or x.dtype.kind == 'f' and name not in NUTIL:
            return x, x
        x = np.abs(x) if t[0] == 'u' else x
        b = x if np.abs(x).max() < 7 and name not in NUTIL and w != 'none' and x.shape[-1] == x.shape[0] else x * NARROW[t]
        return b.astype(t), b.astype(float)

    A, K = [big(a) for a in args], {k: big(v) for k, v in kw.items()}
    if not any(a is not b for a, b in A):
        return 'no array of integers'
    for i in range(-1, len(args) if w != 'none' or len(args) > 1 else 0):
        got = call(fn, [a[0] if i in (-1, j) else a[1] for j, a in enumerate(A)], {k: a[0] if i < 0 else a[1] for k, a in K.items()})
        want = call(fn, [a[1] for a in A], {k: a[1] for k, a in K.items()})
        for (nm, a), (_, b) in zip(leaves(got), leaves(want)):
            d = diff(a, b)
            if d:
                return '%s of %s (argument %d): %s' % (nm, t, i, d), {}
    return '', {}


NUTIL = ('balanced_truncation',)


def run(ck):
    q = ck.quick
    cs = []
    for cplx in (False, True):
        for dt in ('float', 'int'):
            if cplx and dt == 'int':
                continue
            for kind in ('array', 'util'):
                for w in ('none', '1d', '2d') if kind == 'array' else ('none',):
                    for name, (fn, args, kw) in calls(kind, cplx, dt, w).items():
                        nargs = sum(relay(a, 'F') is not a for a in args) + sum(relay(v, 'F') is not v for v in kw.values())
                        for how in HOWS:
                            if excluded(name, how):
                                continue
                            for which in [-1] + (list(range(nargs)) if nargs > 1 else []):
                                cs.append(dict(kind=kind, name=name, cplx=cplx, dt=dt, w=w, how=how, which=which))
    ck.domain('store', cs, chunk=16)
    cs = [dict(name=name, t=t, w=w) for w in ('none', '1d', 'int', '2dint') for t in NARROW
          for name in calls('array', False, 'int', w)]
    cs += [dict(name=name, t=t, w='none') for t in NARROW for name in NUTIL]
    ck.domain('narrow', cs, chunk=16)
