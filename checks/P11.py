"""P11: parallel computations give the results of a serial run."""
import itertools
import numpy as np
from mc import scen, sched
from mc.num import close

RULE = ('for every number of workers, node layout, memory limit, mode selection and truncation, what the workers return '
        'and store together equals what the same call gives on one worker, up to rounding and the phase of each mode')
BOUNDS = ('POD, BPOD (1..3 inputs x 1..2 outputs), DMD and total-least-squares DMD with paired and sequential data x '
          '2..8 workers x layouts x memory limits x 2..7, 12 and 25 vectors x mode selections (all, one, reversed, repeated gaps) x '
          'truncation; Galerkin projection with 1..5, 12 and 33 basis vectors and with 1..3 and 12 inputs/outputs; time derivatives of up to 101 vectors, with shared handles; '
          '4 schedule/delivery variants each')
SEL = {'all': None, 'first': [0], 'rev': [2, 1, 0], 'gap': [0, 2], 'last': [1]}
MODES = {'pod': ['modes'], 'bpod': ['direct', 'adjoint']}
TOL = 1e-6


def stored(puts, name):
    d = {}
    for rank, key, val in puts:
        if key.startswith(name) and key[len(name):].isdigit():
            if int(key[len(name):]) in d:
                raise ValueError('%s%s stored twice' % (name, key[len(name):]))
            d[int(key[len(name):])] = np.array(sched.decode(val))
    return d


def outer(v):
    v = np.asarray(v).reshape(-1, 1)
    return v.dot(v.conj().T)


def pair(ev, rv):
    """For every eigenvalue of ev the index of the nearest in rv; injective or an error."""
    used, p = set(), []
    for e in ev:
        k = min((k for k in range(len(rv)) if k not in used), key=lambda k: abs(rv[k] - e))
        used.add(k)
        p.append(k)
    return p


def pipe_judge(kind, ref, refmodes, sel):
    """ref: serial results; refmodes: {name: {i: vector}} for all modes."""
    names = MODES.get(kind, ['exact', 'proj', 'adj'])
    evn = 'sing_vals' if kind == 'bpod' else 'eigvals'
    arrays = [k for k in ref if 'correlation_array' in k and 'eig' not in k or k == 'Hankel_array']

    def judge(res):
        got = stored_all = {}
        try:
            stored_all = {nm: stored(res.puts, nm) for nm in names}
        except ValueError as e:
            return str(e)
        for r, o in enumerate(res.results):
            if o['nm'] != ref['nm']:
                return 'rank %d has %d modes, the serial run %d' % (r, o['nm'], ref['nm'])
            for a in arrays:
                p = close(o[a], ref[a], 1e-9, a)
                if p:
                    return 'rank %d: %s' % (r, p)
            ev, rv = np.ravel(o[evn]), np.ravel(ref[evn])
            perm = pair(ev, rv)
            p = close(ev, rv[perm], TOL, evn)
            if p:
                return 'rank %d: %s' % (r, p)
            for c in [k for k in ref if k.startswith('C:')]:
                if len(o[c]) != len(ref[c]):
                    return '%s returned %d arrays' % (c, len(o[c]))
                for a, b in zip(o[c], ref[c]):
                    if a.shape != b.shape:
                        return '%s has shape %s, serially %s' % (c, a.shape, b.shape)
                    for i, k in enumerate(perm):
                        p = close(outer(a[i]), outer(b[k]), TOL, '%s row %d' % (c, i))
                        if p:
                            return 'rank %d: %s' % (r, p)
            for a, b in (('eigvecs', 'eigvecs'), ('L_sing_vecs', 0), ('R_sing_vecs', 0)):
                if a in ref:
                    for i, k in enumerate(perm):
                        p = close(outer(o[a][:, i]), outer(ref[a][:, k]), TOL, '%s column %d' % (a, i))
                        if p:
                            return p
            want = [i for i in (range(o['nm']) if sel is None else sel) if i < o['nm']]
            if o['idx'] != want:
                return 'idx %s' % o['idx']
        for nm in names:
            s = stored_all[nm]
            if sorted(s) != list(range(len(want))):
                return 'stored %s of the %d %s modes' % (sorted(s), len(want), nm)
            for j, i in enumerate(want):
                p = close(outer(s[j]), outer(refmodes[nm][perm[i]]), TOL, '%s mode %d' % (nm, i))
                if p:
                    return p
        return ''
    return judge


_R = {}


def serial(kw):
    k = repr(sorted(kw.items()))
    if k not in _R:
        r = sched.cluster(1).run(('mc.scen', 'pipeline', kw), prefer='low')
        p = sched.bad_end(r)
        if p:
            raise ValueError('serial run: ' + p)
        names = MODES.get(kw['kind'], ['exact', 'proj', 'adj'])
        _R[k] = (r.results[0], {nm: stored(r.puts, nm) for nm in names})
    return _R[k]


def case_pipe(n, lay, kind, nv, maxv, cplx, sel='all', maxeig=None, ni=1, no=1, verbosity=0):
    kw = dict(kind=kind, nv=nv, cplx=cplx, atol=1e-9, ops=['modes', 'coeffs'], maxeig=maxeig, ni=ni, no=no,
              read=False)
    try:
        ref, rm = serial(dict(kw, maxv=1000))
    except ValueError as e:
        return [str(e)], {'traces': 1}
    job = ('mc.scen', 'pipeline', dict(kw, maxv=maxv, modes=SEL[sel], verbosity=verbosity))
    return sched.sweep(n, lay, job, pipe_judge(kind, ref, rm, SEL[sel]))


def case_galerkin(n, lay, nb, ni, no, maxv, cplx, symmetric, orth):
    kw = dict(nb=nb, ni=ni, no=no, cplx=cplx, symmetric=symmetric, orth=orth, puts=False)
    r = sched.cluster(1).run(('mc.scen', 'galerkin', dict(kw, maxv=1000)), prefer='low')
    p = sched.bad_end(r)
    if p:
        return ['serial run: ' + p], {'traces': 1}
    ref = r.results[0]

    def judge(res):
        for k, o in enumerate(res.results):
            for a in 'ABC':
                p = close(o[a], ref[a], 1e-8, 'rank %d: reduced %s' % (k, a))
                if p:
                    return p
        return ''
    return sched.sweep(n, lay, ('mc.scen', 'galerkin', dict(kw, maxv=maxv)), judge)


def case_derivs(n, lay, nv, cplx, seq=''):
    kw = dict(nv=nv, cplx=cplx, read=False, seq=seq)
    r = sched.cluster(1).run(('mc.scen', 'derivs', kw), prefer='low')
    p = sched.bad_end(r)
    if p:
        return ['serial run: ' + p], {'traces': 1}
    ref = stored(r.puts, 'out')

    def judge(res):
        try:
            s = stored(res.puts, 'out')
        except ValueError as e:
            return str(e)
        if sorted(s) != sorted(ref):
            return 'stored derivatives %s, serially %s' % (sorted(s), sorted(ref))
        for i in s:
            p = close(s[i], ref[i], 1e-12, 'derivative %d' % i)
            if p:
                return p
        return ''
    return sched.sweep(n, lay, ('mc.scen', 'derivs', kw), judge)


def lays(n):
    return ['one'] if n == 1 else ['one', 'each'] if n == 2 else ['one', 'each', 'two', 'uneven']


def run(ck):
    q = ck.quick
    cs, gs, ds = [], [], []
    kinds = ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq')
    for n in (2, 3, 4, 6) if q else range(2, 9):
        for lay in (lays(n) if not q else lays(n)[:2]):
            lim = sched.minmaxv(n, lay)
            for kind in kinds:
                for nv in (3, 5) if q else range(2, 8):
                    for cplx in (False, True):
                        for maxv in (lim[:2] + lim[-1:] if q else lim):
                            cs.append(dict(n=n, lay=lay, kind=kind, nv=nv, maxv=maxv, cplx=cplx))
                for sel, cplx in itertools.product(SEL, (False, True)):
                    if sel != 'all':
                        cs.append(dict(n=n, lay=lay, kind=kind, nv=5, maxv=lim[1], cplx=cplx, sel=sel))
                if kind not in ('pod', 'bpod'):
                    for me in (1, 2, 3) if q else (1, 2, 3, 4, 9):
                        cs.append(dict(n=n, lay=lay, kind=kind, nv=5, maxv=lim[1], cplx=bool(me % 2), maxeig=me))
                if kind == 'bpod':
                    for ni, no in ((2, 1), (1, 2), (3, 2)):
                        cs.append(dict(n=n, lay=lay, kind=kind, nv=3, maxv=lim[1], cplx=False, ni=ni, no=no))
                        cs.append(dict(n=n, lay=lay, kind=kind, nv=3, maxv=lim[1], cplx=True, ni=ni, no=no, sel='rev'))
                cs.append(dict(n=n, lay=lay, kind=kind, nv=4, maxv=lim[0], cplx=False, verbosity=1))
            for nb in (1, 2, 4) if q else range(1, 6):
                for sym, orth in itertools.product((False, True), repeat=2):
                    for maxv in (lim[:1] + lim[-1:] if q else lim):
                        gs.append(dict(n=n, lay=lay, nb=nb, ni=2, no=2, maxv=maxv, cplx=bool(nb % 2) != sym,
                                       symmetric=sym, orth=orth))
                for ni, no in ((1, 1), (3, 1), (1, 3)):
                    gs.append(dict(n=n, lay=lay, nb=nb, ni=ni, no=no, maxv=lim[0], cplx=False, symmetric=False,
                                   orth=False))
            for nv in (1, 2, 5) if q else range(1, 10):
                for cplx in (False, True):
                    ds.append(dict(n=n, lay=lay, nv=nv, cplx=cplx))
    ck.domain('pipe', cs, timeout=200)
    ck.domain('galerkin', gs, timeout=200)
    ck.domain('derivs', ds, timeout=200)
    ck.domain('derivs', [dict(d, seq=s) for d in ds for s in ('seq', 'back', 'same', 'rep')], timeout=200)
    # many vectors and modes
    ck.domain('pipe', [dict(n=n, lay='one', kind=k, nv=nv, maxv=x, cplx=c, sel=s) for n, x in ((2, 6), (3, 1000), (4, 24))
                       for k in kinds for nv in (12, 25) for c in (False, True) for s in ('all', 'gap')], timeout=300, chunk=1)
    ck.domain('galerkin', [dict(n=n, lay='one', nb=b, ni=i, no=o, maxv=x, cplx=c, symmetric=False, orth=t)
                           for n, x in ((2, 6), (3, 1000)) for b, i, o in ((12, 2, 3), (33, 1, 1), (4, 12, 11))
                           for c in (False, True) for t in (False, True)], timeout=300, chunk=1)
    ck.domain('derivs', [dict(n=n, lay='one', nv=v, cplx=c) for n in (2, 3, 5) for v in (12, 33, 101)
                         for c in (False, True)], timeout=300, chunk=1)
