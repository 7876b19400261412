"""E09: inconsistent inputs are rejected before anything is stored."""
import os, itertools
import numpy as np
from mc import serial, ref, hand, scen, sched
from mc.core import scratch
from mc.num import mat

RULE = ('every combination of sizes that does not fit raises (ValueError, RuntimeError, TypeError or UndefinedError as the '
        'function announces; any exception where numpy detects it) and stores nothing; every combination that fits is '
        'accepted; with 2..4 workers array-only functions raise RuntimeError on every worker and inconsistent handles raise '
        'on every worker in every schedule')
BOUNDS = ('all numbers of vectors/coefficients/handles/samples/rows 0..4 (5) independently in every argument; all mode index '
          'lists of length 0..2 (3) with one index out of range or a number of handles differing by any amount; grids of 1..3 '
          'dimensions with every dimension off by one')

ANY = Exception


def rejected(kind, f, what, outs=()):
    """'' if f raises kind and stores nothing"""
    try:
        f()
    except kind:
        pass
    except Exception as e:
        return '%s raises %s: %s' % (what, type(e).__name__, str(e)[:100])
    else:
        return '%s accepted' % what
    if any(o.v for o in outs):
        return '%s: stored before it was rejected' % what
    return ''


def case_arrays(fn, ns, nv, ns2, nv2):
    m = serial.modred()
    X, Y = mat(ns, nv, False, 1), mat(ns2, nv2, False, 2)
    f = getattr(m, fn)
    if fn == 'compute_BPOD_arrays':
        if ns == ns2:
            return ''
        return rejected(ValueError, lambda: f(X, Y), 'lengths %d and %d' % (ns, ns2))
    if X.shape == Y.shape:
        f(X, adv_vecs=Y)
        return ''
    return rejected(ValueError, lambda: f(X, adv_vecs=Y), 'shapes %s and %s' % (X.shape, Y.shape))


def case_weights(fn, ns, nv, shape):
    m = serial.modred()
    X, Y = mat(ns, nv, False, 1), mat(ns, nv, False, 2)
    f = getattr(m, fn)
    W = np.eye(*shape) if len(shape) == 2 and 1 not in shape else np.ones(shape)
    g = {'compute_BPOD_arrays': lambda: f(X, Y, inner_product_weights=W),
         'LTIGalerkinProjectionArrays': lambda: f(X, inner_product_weights=W).reduce_A(Y),
         'VectorSpaceArrays': lambda: f(weights=W).compute_inner_product_array(X, Y)}.get(
             fn, lambda: f(X, inner_product_weights=W))
    fits = tuple(shape) in ((ns,), (ns, ns)) or (len(shape) == 2 and 1 in shape and max(shape) == ns)
    if fits:
        g()
        return ''
    # singleton dimensions are ignored
    if max(shape) == ns and int(np.prod(shape)) == ns:
        return ''
    return rejected((ValueError, np.linalg.LinAlgError), g, 'weights of shape %s' % (shape,))


def case_bpodcount(nd, na, ni, no, hnd):
    m = serial.modred()
    X, Y = mat(5, 5, False, 1)[:, :nd], mat(5, 5, False, 2)[:, :na]
    if hnd:
        f = lambda: hand.decomp(hand.make('bpod', np.eye(5)), 'bpod', X, Y, ni=ni, no=no)
    else:
        f = lambda: m.compute_BPOD_arrays(X, Y, num_inputs=ni, num_outputs=no)
    if nd % ni or na % no:
        return rejected(ANY, f, '%d direct and %d adjoint vectors for %d inputs and %d outputs' % (nd, na, ni, no))
    f()
    return ''


def case_indices(fn, idx):
    m = serial.modred()
    X, Y = mat(5, 3, False, 1), mat(5, 3, False, 2)
    f = getattr(m, fn)
    if fn == 'compute_BPOD_arrays':
        out = []
        for k in ('direct_mode_indices', 'adjoint_mode_indices'):
            out.append(rejected(ANY, lambda: f(X, Y, **{k: idx}), '%s %s of 3 modes' % (k, idx)))
        return [x for x in out if x]
    kw = {} if 'POD' in fn else {'adv_vecs': Y}
    return rejected(ANY, lambda: f(X, mode_indices=idx, **kw), 'mode indices %s of 3 modes' % (idx,))


def case_hlen(kind, a, b):
    X, Y = mat(5, 5, False, 1)[:, :a], mat(5, 5, False, 2)[:, :b]
    o = hand.make(kind, np.eye(5))
    f = lambda: hand.decomp(o, kind, X, Y)
    if a != b:
        return rejected(ValueError, f, '%d vectors, %d advanced' % (a, b))
    if a:
        f()
    return ''


KW = {'pod': {'modes': 'vec_handles'}, 'bpod': {'direct_modes': 'direct_vec_handles', 'adjoint_modes': 'adjoint_vec_handles'},
      'dmd': {'exact_modes': 'adv_vec_handles', 'proj_modes': 'vec_handles', 'adjoint_modes': 'vec_handles'}}
KW['tls'] = KW['dmd']


def case_hmodes(kind, name, idx, nh, nv, cplx, state):
    """modes from nv vectors (None: those of the decomposition) with nh handles"""
    m = serial.modred()
    X, Y = mat(5, 3, cplx, 1), None if kind == 'pod' else mat(5, 3, cplx, 2)
    if kind == 'bpod':
        from checks import D02
        X, Y = D02.data(5, 1, 1, 3, 3, cplx, np.eye(5))
    o = hand.make(kind, np.eye(5))
    hand.decomp(o, kind, X, Y)
    if state == 'loaded':
        o2 = hand.make(kind, np.eye(5))
        for n in hand.DECOMP[kind]:
            setattr(o2, n, getattr(o, n))
        o = o2
    outs = [hand.Out() for _ in range(nh)]
    kw = {} if nv is None else {KW[kind][name]: hand.handles(mat(5, 5, cplx, 4)[:, :nv])}
    f = lambda: getattr(o, 'compute_' + name)(idx, outs, **kw)
    N = hand.nmodes(o, kind)
    if N != 3:
        return 'harness: %d modes' % N
    nv_ok = (nv is None and state != 'loaded') or nv == 3 or (nv == 4 and kind in ('dmd', 'tls') and name != 'exact_modes')
    if nv_ok and nh == len(idx) and all(i < N for i in idx):
        f()
        if any(len(x.v) != 1 for x in outs):
            return 'not every mode stored once'
        return ''
    exc = ANY
    if all(i < N for i in idx) and nv is not None:
        exc = (ValueError,)
    if nv is None and state == 'loaded' and kind == 'bpod':
        exc = m.util.UndefinedError
    return rejected(exc, f, '%s %s with %d handles from %s vectors (%s)' % (name, idx, nh, nv, state), outs)


def case_lin(nb, ns, shape, idx):
    m = serial.modred()
    outs = [hand.Out() for _ in range(ns)]
    vs = m.VectorSpaceHandles(inner_product=np.vdot, verbosity=0)
    c = np.ones(shape)
    kw = {} if idx is None else dict(coeff_array_col_indices=idx)
    f = lambda: vs.lin_combine(outs, hand.handles(mat(4, 5)[:, :nb]), c, **kw)
    full = tuple(shape) if len(shape) == 2 else ((1, shape[0]) if nb == 1 else (shape[0], 1))
    cols = full[1] if idx is None else len(idx)
    bad_idx = idx is not None and any(i >= full[1] for i in idx)
    if full[0] == nb and cols == ns and not bad_idx:
        if nb and ns:
            f()
            if any(len(o.v) != 1 for o in outs):
                return 'not every sum stored once'
        return ''
    return rejected(ValueError if not bad_idx else ANY, f, '%d basis vectors, %d sums, coefficients %s, columns %s' % (
        nb, ns, shape, idx), outs)


def case_derivs(a, b, c):
    m = serial.modred()
    outs = [hand.Out() for _ in range(c)]
    f = lambda: m.compute_derivs_handles(hand.handles(mat(4, 5)[:, :a]), hand.handles(mat(4, 5)[:, :b]), outs, 0.1)
    if a == b == c:
        f()
        return '' if all(len(o.v) == 1 for o in outs) else 'not every derivative stored once'
    return rejected(RuntimeError, f, '%d, %d, %d vectors' % (a, b, c), outs)


def case_basis(s1, s2):
    m = serial.modred()
    X, Y = mat(*s1), mat(*s2)
    out = []
    f = lambda: m.LTIGalerkinProjectionArrays(X, adjoint_basis_vecs=Y)
    g = lambda: m.LTIGalerkinProjectionHandles(np.vdot, hand.handles(X), adjoint_basis_vec_handles=hand.handles(Y), verbosity=0)
    if tuple(s1) == tuple(s2):
        f()
    else:
        out.append(rejected(ValueError, f, 'basis %s and adjoint basis %s' % (s1, s2)))
    if s1[1] == s2[1]:
        g()
    else:
        out.append(rejected(ValueError, g, '%d basis and %d adjoint basis handles' % (s1[1], s2[1])))
    return [x for x in out if x]


def case_sampled(nt, nm, no, ni):
    m = serial.modred()
    f = lambda: m.make_sampled_format(np.arange(nt), np.ones((nm, no, ni)))
    if nt == nm:
        if nt > 1:
            f()
        return ''
    return rejected(RuntimeError, f, '%d times, %d samples' % (nt, nm))


def case_eradim(shape):
    m = serial.modred()
    f = lambda: m.ERA(verbosity=0).compute_model(np.ones(shape), 1)
    if len(shape) <= 3:
        f()
        return ''
    return rejected(RuntimeError, f, 'Markov parameters of shape %s' % (shape,))


def case_okid(nu, ny):
    m = serial.modred()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = lambda: m.OKID(mat(1, nu, False, 1), mat(1, ny, False, 2), 1)
        if nu == ny:
            f()
            return ''
        return rejected(ValueError, f, '%d input and %d output samples' % (nu, ny))


def case_grid(shape, which, dim, d, swap):
    m = serial.modred()
    ip = m.InnerProductTrapz(*[np.linspace(0, 1, n) ** 2 for n in shape])
    a = np.ones(shape)
    s = list(shape)
    if dim is None:
        s = s[:-1] if d < 0 else s + [2]
    else:
        s[dim] += d
    if swap:
        s = s[::-1]
    b = np.ones(s)
    if tuple(s) == tuple(shape):
        ip(a, b)
        return ''
    return rejected(TypeError, lambda: ip(*((a, b) if which == 1 else (b, a) if which == 0 else (b, b))),
                    'vector of shape %s on grid %s' % (s, shape))


def case_misc():
    m = serial.modred()
    u = m.util
    out = []
    out.append(rejected(ValueError, lambda: m.InnerProductTrapz(), 'no grid'))
    for g in ([0, 1, 2], (0., 1.), 3):
        out.append(rejected(TypeError, lambda: m.InnerProductTrapz(g), 'grid %r' % (g,)))
        out.append(rejected(TypeError, lambda: m.InnerProductTrapz(np.arange(3.), g), 'second grid %r' % (g,)))
    p = os.path.join(scratch(), 'e09')
    for s in ((2, 2, 2), (1, 1, 1), (1, 2, 1, 3)):
        if os.path.exists(p):
            os.remove(p)
        for c in (1, 1j):
            out.append(rejected(RuntimeError, lambda: u.save_array_text(c * np.ones(s), p), 'save of shape %s' % (s,)))
            if os.path.exists(p):
                out.append('save of shape %s: rejected after storing' % (s,))
    for k in (1, 3, 5):
        np.savetxt(p, np.ones((2, k)))
        out.append(rejected(ValueError, lambda: u.load_array_text(p, is_complex=True), '%d columns as complex' % k))
    out.append(rejected(ValueError, lambda: m.VectorSpaceArrays(weights=np.ones((2, 2, 2))), '3D weights'))
    vs = m.VectorSpaceHandles(inner_product=None, verbosity=0)
    H = hand.handles(mat(4, 3))
    out.append(rejected(RuntimeError, lambda: vs.compute_inner_product_array(H, H), 'no inner product'))
    out.append(rejected(RuntimeError, lambda: vs.compute_symm_inner_product_array(H), 'no inner product'))
    out.append(rejected(AssertionError, lambda: u.sum_lists([1, 2], [1]), 'lists of 2 and 1'))
    return [x for x in out if x]


class BadH(hand.In):
    pass


def case_sanity(kind, defect):
    """sanity_check rejects vectors violating the requirements"""
    m = serial.modred()
    vec = np.array([1., -2., 0.5])

    class V(object):
        def __init__(self, a):
            self.a = a

        def __add__(self, o):
            if defect == 'add':
                return V(self.a + 1.1 * o.a)
            if defect == 'add_inplace':
                self.a += o.a
                return V(self.a.copy())
            return V(self.a + o.a)

        def __mul__(self, s):
            if defect == 'mul':
                return V(self.a * s * 1.1)
            if defect == 'mul_inplace':
                self.a *= s
                return V(self.a.copy())
            return V(self.a * s)
        __rmul__ = __mul__

    def ip(x, y):
        return x.a.dot(y.a)
    h = m.VecHandleInMemory(V(vec.copy()))
    o = getattr(m, kind)(inner_product=ip, verbosity=0)
    if defect == 'none':
        o.sanity_check(h)
        return '' if np.array_equal(h.get().a, vec) else 'vector altered'
    return rejected(ValueError, lambda: o.sanity_check(h), 'vectors with wrong %s' % defect)


def case_par(n, lay, what, k):
    job = ('mc.scen', 'bad', dict(what=what, **k))

    def judge(res):
        if res.puts:
            return '%s stored %d vectors or arrays' % (what, len(res.puts))
        e = EXP[what]
        for r, x in enumerate(res.results):
            if x is None or (e is not None and x not in e):
                return 'rank %d: %s instead of %s' % (r, x or 'accepted', e)
        return ''
    return sched.sweep(n, lay, job, judge)


EXP = {a: ('RuntimeError',) for a in ('POD_snaps', 'POD_direct', 'BPOD', 'DMD_snaps', 'DMD_direct', 'TLS_snaps', 'TLS_direct',
                                      'LTI_arrays', 'noip', 'derivs_len')}
EXP.update({'lin_rows': ('ValueError',), 'dmd_len': ('ValueError',), 'tls_len': ('ValueError',)})


def run(ck):
    q = ck.quick
    N = 4 if q else 5
    R = range(1, N + 1)
    F = ['compute_%s_arrays_%s_method' % (a, b) for a in ('DMD', 'TLSqrDMD') for b in ('snaps', 'direct')]
    P = ['compute_POD_arrays_%s_method' % b for b in ('snaps', 'direct')]
    ck.domain('arrays', [dict(fn=f, ns=a, nv=b, ns2=c, nv2=d) for f in F + ['compute_BPOD_arrays'] for a in R for b in R
                         for c in R for d in R if f == 'compute_BPOD_arrays' and b == d or f in F and (
                             (a, b) != (c, d) or (a >= b))])
    ck.domain('weights', [dict(fn=f, ns=a, nv=b, shape=s) for f in F + P + ['compute_BPOD_arrays', 'LTIGalerkinProjectionArrays',
                          'VectorSpaceArrays'] for a in R for b in (2, 3) if b <= a
                          for s in [[i] for i in R] + [[i, j] for i in R for j in R] + [[2, 2, 2]]])
    ck.domain('bpodcount', [dict(nd=a, na=b, ni=i, no=o, hnd=h) for a in R for b in R for i in (1, 2, 3) for o in (1, 2, 3)
                            for h in (False, True)])
    L = 2 if q else 3
    idx = [list(t) for n in range(0, L + 1) for t in itertools.product((0, 2, 3, 7), repeat=n)]
    ck.domain('indices', [dict(fn=f, idx=i) for f in F + P + ['compute_BPOD_arrays'] for i in idx if any(x > 2 for x in i)])
    ck.domain('hlen', [dict(kind=k, a=a, b=b) for k in ('dmd', 'tls') for a in range(0, N + 1) for b in range(0, N + 1)])
    ck.domain('hmodes', [dict(kind=k, name=n, idx=i, nh=h, nv=v, cplx=c, state=s) for k in KW for n in KW[k] for i in idx
                         for h in range(0, L + 2) for v in (None, 0, 1, 2, 3, 4, 5) for c in (False, True)
                         for s in ('computed', 'loaded') if h or i], chunk=32)
    sh = [[i] for i in R] + [[i, j] for i in R for j in R]
    ck.domain('lin', [dict(nb=b, ns=s, shape=h, idx=i) for b in R for s in R for h in sh
                      for i in [None] + ([list(range(k)) for k in R] + [[0] * k for k in R if k > 1] if len(h) == 2 else [])])
    ck.domain('derivs', [dict(a=a, b=b, c=c) for a in range(0, N + 1) for b in range(0, N + 1) for c in range(0, N + 1)])
    S = [[a, b] for a in R for b in R]
    ck.domain('basis', [dict(s1=a, s2=b) for a in S for b in S])
    ck.domain('sampled', [dict(nt=a, nm=b, no=o, ni=i) for a in range(0, 8) for b in range(1, 8) for o in (1, 2) for i in (1, 2)])
    ck.domain('eradim', [dict(shape=s) for s in ([8], [8, 2], [8, 2, 3], [8, 1, 1, 1], [8, 2, 2, 2], [8, 1, 1, 1, 1])])
    ck.domain('okid', [dict(nu=a, ny=b) for a in range(1, 13) for b in range(1, 13) if a != b or a > 5])
    ck.domain('grid', [dict(shape=list(s), which=w, dim=d, d=x, swap=p) for n in (1, 2, 3)
                       for s in itertools.product((2, 3, 4), repeat=n) for w in (0, 1, 2) for d in [None] + list(range(n))
                       for x in (-1, 0, 1) for p in (False, True) if not (d is None and (x == 0 or p))])
    ck.domain('misc', [{}])
    ck.domain('sanity', [dict(kind=k, defect=d) for k in ('VectorSpaceHandles', 'PODHandles', 'BPODHandles', 'DMDHandles',
                                                          'TLSqrDMDHandles')
                         for d in ('none', 'add', 'mul', 'add_inplace', 'mul_inplace')])
    par = []
    for n in ((2, 3) if q else (2, 3, 4)):
        for lay in (['one', 'each'] if n > 2 else ['one']):
            for w in EXP:
                if w == 'lin_rows':
                    ks = [dict(ns=a, nb=b, cr=c, cc=d) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3) for d in (1, 2, 3)
                          if (b != c or a != d)]
                elif w.endswith('_len') and w != 'derivs_len':
                    ks = [dict(a=a, b=b) for a in (1, 2, 3) for b in (1, 2, 3) if a != b]
                elif w == 'derivs_len':
                    ks = [dict(a=a, b=b, c=c) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3) if not a == b == c]
                else:
                    ks = [{}]
                par += [dict(n=n, lay=lay, what=w, k=k) for k in ks]
    ck.domain('par', par, timeout=200)
