"""D06: a subset of modes is exactly those columns of the complete set."""
import itertools
import numpy as np
from mc import serial, ref, hand
from mc.num import close, nz
from checks import D02, D03

RULE = ('for every index list, modes equal the complete set at those indices in that order; every other result is '
        'unchanged; lists, tuples, ranges and index arrays are equivalent; index containers and inputs are not modified')
BOUNDS = ('4 (3) components: all index lists up to length 3 (4 thorough) with repetitions, complete permutations, ranges; '
          'all decompositions by array functions (both methods) and by handles (per-node limits 2 and none); real/complex; '
          'sequential/paired; direct x adjoint index lists for BPOD; 12 and 33 components with every single index and 9 longer lists')


def setup(kind, cplx, seq, r=4):
    """data with r components."""
    W = np.eye(6)
    if kind == 'bpod':
        X, Y = D02.data(6, 2, 2, 2, 2, cplx, W)
        return X, Y, dict(ni=2, no=2)
    vecs, adv = D03.data(6, r, 'seq' if seq else 'map', cplx, r)
    return vecs, (None if kind == 'pod' else adv), {}


def same(A, B, n, tol=1e-10):
    return ref._c(A, B, tol, n)


def wrap(form, idx):
    return {'list': lambda: list(idx), 'tuple': lambda: tuple(idx), 'array': lambda: np.array(idx, dtype=int),
            'int32': lambda: [np.int32(i) for i in idx]}[form]()


def case_arrays(kind, meth, cplx, seq, depth, form):
    serial.modred()
    X, Y, kw = setup(kind, cplx, seq)
    full = hand.arrays(kind, X, Y, None, meth, atol=1e-8, **kw)
    names = hand.MODES[kind]
    r = np.asarray(getattr(full, names[0])).shape[1]
    ks = 0
    rest = [n for n in full._fields if n not in names]
    for idx in lists(r, depth):
        w = wrap(form, idx)
        w0 = np.array(w)
        X0, Y0 = X.copy(), None if Y is None else Y.copy()
        if kind == 'bpod':
            p = hand.arrays(kind, X, Y, None, meth, atol=1e-8, direct_mode_indices=w, **kw)
            p2 = hand.arrays(kind, X, Y, None, meth, atol=1e-8, adjoint_mode_indices=w, **kw)
            exp = {'direct_modes': full.direct_modes[:, idx], 'adjoint_modes': full.adjoint_modes}
            exp2 = {'direct_modes': full.direct_modes, 'adjoint_modes': full.adjoint_modes[:, idx]}
            todo = [(p, exp), (p2, exp2)]
        else:
            p = hand.arrays(kind, X, Y, None, meth, atol=1e-8, mode_indices=w, **kw)
            todo = [(p, {n: np.asarray(getattr(full, n))[:, idx] for n in names})]
        for p, exp in todo:
            ks += 1
            out = [same(getattr(p, n), exp[n], '%s for indices %s' % (n, list(idx))) for n in names]
            out += [same(getattr(p, n), getattr(full, n), '%s for indices %s' % (n, list(idx))) for n in rest]
            if not np.array_equal(np.array(w), w0):
                out.append('index list modified')
            if not np.array_equal(X, X0) or (Y is not None and not np.array_equal(Y, Y0)):
                out.append('data modified')
            out = nz(*out)
            if out:
                return out, {}
    return '', {'states': ks}


def lists(r, depth):
    L = [t for d in range(1, depth + 1) for t in itertools.product(range(r), repeat=d)]
    L += [p for p in itertools.permutations(range(r)) if r > depth]
    L += [tuple(range(r)) + tuple(range(r))]
    return [list(t) for t in L]


def case_bpod2(cplx, hnd):
    """direct x adjoint index lists."""
    X, Y, kw = setup('bpod', cplx, False)
    full = hand.arrays('bpod', X, Y, None, atol=1e-8, **kw)
    r, ks = full.sing_vals.size, 0
    for a, b in itertools.product(lists(r, 2)[:r + r * r], repeat=2):
        p = hand.arrays('bpod', X, Y, None, atol=1e-8, direct_mode_indices=a, adjoint_mode_indices=b, **kw)
        ks += 1
        out = nz(same(p.direct_modes, full.direct_modes[:, a], 'direct modes for %s, %s' % (a, b)),
                 same(p.adjoint_modes, full.adjoint_modes[:, b], 'adjoint modes for %s, %s' % (a, b)))
        if out:
            return out, {}
    return '', {'states': ks}


def case_range(kind, meth, cplx, seq):
    """ranges of every kind."""
    X, Y, kw = setup(kind, cplx, seq)
    full = hand.arrays(kind, X, Y, None, meth, atol=1e-8, **kw)
    o = hand.make(kind, np.eye(6))
    hand.decomp(o, kind, X, Y, atol=1e-8, **kw)
    names = hand.MODES[kind]
    r, ks = np.asarray(getattr(full, names[0])).shape[1], 0
    allm = hand.modes(o, kind)
    for a in range(r):
        for b in range(a + 1, r + 1):
            for rg in [range(a, b, s) for s in (1, 2)] + [range(b - 1, a - 1, -1)]:
                if a == 0 and rg.step == -1:
                    rg = range(b - 1, -1, -1)
                ks += 1
                key = ('direct_mode_indices', 'adjoint_mode_indices') if kind == 'bpod' else ('mode_indices',)
                p = hand.arrays(kind, X, Y, None, meth, atol=1e-8, **dict(kw, **{k: rg for k in key}))
                got = hand.modes(o, kind, rg)
                for n in names:
                    out = nz(same(getattr(p, n), np.asarray(getattr(full, n))[:, list(rg)], '%s for %r' % (n, rg)),
                             same(got[n], allm[n][:, list(rg)], '%s by handles for %r' % (n, rg)))
                    if out:
                        return out, {}
    return '', {'states': ks}


def case_handles(kind, cplx, seq, depth, form, maxv):
    X, Y, kw = setup(kind, cplx, seq)
    o = hand.make(kind, np.eye(6), maxv=maxv)
    hand.decomp(o, kind, X, Y, atol=1e-8, **kw)
    full = hand.result(o, kind)
    names = hand.MODES[kind]
    r, ks = hand.nmodes(o, kind), 0
    if r < 3:
        return 'only %d components' % r
    for idx in lists(r, depth):
        w = wrap(form, idx)
        got = hand.modes(o, kind, w)
        ks += 1
        out = [same(got[n], getattr(full, n)[:, idx], '%s for indices %s' % (n, idx)) for n in names]
        out += [same(getattr(o, n), getattr(full, n), '%s after modes %s' % (n, idx))
                for n in hand.DECOMP[kind] + hand.ARRAYS[kind]]
        if list(w) != list(idx):
            out.append('index list modified')
        if nz(*out):
            return nz(*out), {}
    c = hand.coeffs(o, kind)
    return nz(*[same(c[n], getattr(full, n), n) for n in c]), {'states': ks}


def case_many(kind, meth, cplx, seq, R, maxv=None):
    """More components: every single index, and long lists."""
    serial.modred()
    n, kw = R + 4, {}
    if kind == 'bpod':
        ni, no = 3, 2
        X, Y = D02.data(n, ni, no, R // 3 + 1, R // 2 + 1, cplx, np.eye(n))
        kw = dict(num_inputs=ni, num_outputs=no) if meth == 'hnd' else {}
    else:
        X, Y = D03.data(n, R, 'seqgen' if seq else 'map', cplx, R)
        Y = None if kind == 'pod' else Y
    names = hand.MODES[kind]
    kw = dict(ni=3, no=2) if kind == 'bpod' else {}
    if meth == 'hnd':
        o = hand.make(kind, np.eye(n), maxv=maxv)
        hand.decomp(o, kind, X, Y, atol=1e-8, **kw)
        full = hand.result(o, kind)
    else:
        full = hand.arrays(kind, X, Y, None, meth, atol=1e-8, **kw)
    r = np.asarray(getattr(full, names[0])).shape[1]
    if r < min(R, 10):
        return 'only %d of %d components' % (r, R)
    L = [[i] for i in range(r)] + [list(range(r))[::-1], list(range(0, r, 2)), [r - 1, 0], [r - 1, 9, r - 2, 8],
                                   [(i * 7) % r for i in range(r)], list(range(r)) * 2, [r // 2] * (r + 3),
                                   list(range(r // 2, r)), [9, 10 % r, 11 % r]]
    ks = 0
    for idx in L:
        for form in ('list', 'array'):
            w = wrap(form, idx)
            ks += 1
            if meth == 'hnd':
                got = hand.modes(o, kind, w)
            else:
                key = ('direct_mode_indices', 'adjoint_mode_indices') if kind == 'bpod' else ('mode_indices',)
                p = hand.arrays(kind, X, Y, None, meth, atol=1e-8, **dict(kw, **{k: w for k in key}))
                got = {m: getattr(p, m) for m in names}
            out = nz(*[same(got[m], np.asarray(getattr(full, m))[:, idx], '%s for indices %s' % (m, idx)) for m in names])
            if out:
                return out, {}
    return '', {'states': ks}


def run(ck):
    q = ck.quick
    ar, hn, rg = [], [], []
    for kind in ('pod', 'bpod', 'dmd', 'tls'):
        for cplx in (False, True):
            for seq in ((False, True) if kind in ('dmd', 'tls') else (False,)):
                for meth in ('snaps', 'direct') if kind != 'bpod' else ('snaps',):
                    for form in ('list', 'tuple', 'array', 'int32'):
                        ar.append(dict(kind=kind, meth=meth, cplx=cplx, seq=seq, form=form,
                                       depth=(3 if form == 'list' else 2) if q else (5 if form == 'list' else 3)))
                    rg.append(dict(kind=kind, meth=meth, cplx=cplx, seq=seq))
                for form in ('list', 'tuple', 'array', 'int32'):
                    for maxv in (None, 2):
                        hn.append(dict(kind=kind, cplx=cplx, seq=seq, form=form, maxv=maxv,
                                       depth=(3 if form == 'list' else 2) if q else (5 if form == 'list' else 3)))
    ck.domain('arrays', ar, chunk=1)
    ck.domain('handles', hn, chunk=1)
    ck.domain('range', rg, chunk=1)
    ck.domain('bpod2', [dict(cplx=c, hnd=False) for c in (False, True)])
    ck.domain('many', [dict(kind=k, meth=m, cplx=c, seq=s, R=R) for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True)
                       for s in ((False, True) if k in ('dmd', 'tls') else (False,)) for R in (12, 33)
                       for m in (('snaps', 'direct') if k != 'bpod' else ('snaps',))] +
              [dict(kind=k, meth='hnd', cplx=c, seq=s, R=R, maxv=x) for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True)
               for s in ((False, True) if k in ('dmd', 'tls') else (False,)) for R, x in ((12, 3), (33, None))], chunk=1)
