"""D08: results depend only on the most recent inputs (operation histories)."""
import itertools
from types import SimpleNamespace
import numpy as np
from mc import serial, ref, hand
from mc.num import close, nz, mat
from checks import D03

RULE = ('after every operation of every history, arrays, coefficients and modes equal those of a fresh object given only '
        'the inputs most recently supplied (slots: correlation arrays, decomposition, handles)')
BOUNDS = ('all histories up to length 3 (4 thorough) of supply operations: decompositions of 3 data sets (sequential, '
          'longer sequential, paired), truncated decompositions, re-truncation, arrays set by the user, loading of saved '
          'decompositions with and without correlation arrays; results queried after every operation or only at the end, '
          'with remembered or explicit handles, new ones or the same ones (objects, files) with replaced vectors; ERA and LTI projection objects likewise; real and complex')

NS = 5


def dataset(kind, d, cplx):
    """a: 3 pairs, b: 4 pairs, c: 3 pairs (paired data)"""
    k = {'a': 3, 'b': 4, 'c': 3}[d]
    s = {'a': 1, 'b': 2, 'c': 3}[d]
    A = mat(NS, NS, cplx, 60 + s) * 0.8 + np.diag(0.3 * np.arange(1, NS + 1))
    if kind == 'pod':
        return ref.rank_mat(NS, k, cplx, k, s), None
    if kind == 'bpod':
        X, Y, b, c = [], [], mat(NS, 1, cplx, 70 + s), mat(NS, 1, cplx, 80 + s)
        for _ in range(k):
            X.append(b)
            Y.append(c)
            b, c = A.dot(b), A.conj().T.dot(c)
        return np.hstack(X), np.hstack(Y)
    if d == 'c':
        X = ref.rank_mat(NS, k, cplx, k, s)
        return X, A.dot(X)
    v = [mat(NS, 1, cplx, 90 + s)]
    for _ in range(k):
        v.append(A.dot(v[-1]))
    return np.hstack(v), None


TR = {'f': {}, 't': {'atol': 1e-10, 'm': 2}, 'r': {'rtol': 0.2}}


def trunc(kind, t, d, cplx):
    """settings by name, always keeping at least one component"""
    if t == 'f':
        return {'atol': 1e-11}
    if kind in ('dmd', 'tls') and t == 't':
        return {'max_num_eigvals': 2, 'atol': 1e-11}
    return {'rtol': 0.2, 'atol': 1e-11}


def red(o, kind):
    return o.compute_SVD if kind == 'bpod' else o.compute_eigendecomp


_fresh = {}


def fresh(kind, d, t, cplx):
    """Results of a fresh object."""
    key = (kind, d, t, cplx)
    if key not in _fresh:
        X, Y = dataset(kind, d, cplx)
        o = hand.make(kind, np.eye(NS))
        hand.decomp(o, kind, X, Y, **trunc(kind, t, d, cplx))
        r = hand.result(o, kind)
        for n in hand.DECOMP[kind] + hand.ARRAYS[kind] + (['sum_correlation_array', 'proj_correlation_array']
                                                          if kind == 'tls' else []):
            hand.STORE[(key, n)] = np.array(getattr(o, n))
        _fresh[key] = r
    return _fresh[key]


GET = {'correlation_array': 'get_correlation_array', 'cross_correlation_array': 'get_cross_correlation_array',
       'adv_correlation_array': 'get_adv_correlation_array', 'Hankel_array': 'get_Hankel_array'}


class Model(object):
    corr = dec = None
    hx = hy = None


def apply(o, mdl, kind, op, cplx, vk='1d'):
    f, d, t = op[0], op[1], op[2]
    if f == 'D':
        X, Y = dataset(kind, d, cplx)
        hand.decomp(o, kind, X, Y, vk=vk, **trunc(kind, t, d, cplx))
        mdl.corr, mdl.dec, mdl.hx = d, (d, t), d
    elif f == 'E':
        red(o, kind)(**trunc(kind, t, mdl.corr, cplx))
        mdl.dec = (mdl.corr, t)
    elif f == 'S':                      # user supplied arrays
        fresh(kind, d, 'f', cplx)
        for n in hand.ARRAYS[kind]:
            setattr(o, n, hand.STORE[((kind, d, 'f', cplx), n)].copy())
        red(o, kind)(**trunc(kind, t, d, cplx))
        mdl.corr, mdl.dec = d, (d, t)
    else:                               # L: decomposition; A: and the arrays
        fresh(kind, d, t, cplx)
        key = (kind, d, t, cplx)
        o.get_decomp(*[(key, n) for n in hand.DECOMP[kind]])
        mdl.dec = (d, t)
        if f == 'A':
            for n in hand.ARRAYS[kind]:
                getattr(o, GET[n])((key, n))
            mdl.corr = d


def query(o, mdl, kind, cplx, explicit, vk='1d'):
    d, t = mdl.dec
    r = fresh(kind, d, t, cplx)
    out = []
    for n in hand.DECOMP[kind]:
        out += nz(close(getattr(o, n), getattr(r, n), 1e-9, n))
    if mdl.corr is not None:
        rc = fresh(kind, mdl.corr, 'f', cplx)
        for n in hand.ARRAYS[kind]:
            out += nz(close(getattr(o, n), getattr(rc, n), 1e-9, n))
    if out:
        return out
    if kind in ('dmd', 'tls'):
        out += nz(close(o.compute_spectrum(), r.spectral_coeffs, 1e-9, 'spectral coefficients'))
        if mdl.corr == d:
            p, a = o.compute_proj_coeffs()
            out += nz(close(p, r.proj_coeffs, 1e-9, 'projection coefficients'),
                      close(a, r.adv_proj_coeffs, 1e-9, 'advanced projection coefficients'))
    else:
        c = hand.coeffs(o, kind)
        for n in c:
            out += nz(close(c[n], getattr(r, n), 1e-9, n))
    X, Y = dataset(kind, d, cplx)
    if explicit or mdl.hx != d:
        g = hand.modes(o, kind, None, X, Y, vk)
        mdl.hx = d
    else:
        g = hand.modes(o, kind)
    for n in g:
        out += nz(close(g[n], getattr(r, n), 1e-8, n))
    return out


def ops(kind):
    o = [('D', 'a', 'f'), ('D', 'b', 'f'), ('D', 'a', 't'), ('E', '', 't'), ('E', '', 'f'), ('S', 'b', 'f'),
         ('L', 'a', 't'), ('A', 'b', 'f')]
    if kind in ('dmd', 'tls'):
        o += [('D', 'c', 'f'), ('A', 'c', 't'), ('D', 'c', 'r')]
    else:
        o += [('D', 'b', 'r')]
    return o


def case_hist(kind, cplx, first, depth, explicit, share=None):
    """All histories starting with operation number ``first``."""
    serial.modred()
    vk = hand.Pool(share) if share else '1d'
    try:
        return _hist(kind, cplx, first, depth, explicit, vk)
    finally:
        if share:
            vk.close()


def _hist(kind, cplx, first, depth, explicit, vk):
    O = ops(kind)
    n = 0
    for L in range(depth):
        for rest in itertools.product(range(len(O)), repeat=L):
            h = [O[first]] + [O[i] for i in rest]
            for every in ((True,) if L == 0 else (True, False)):
                o = hand.make(kind, np.eye(NS))
                mdl = Model()
                ok = True
                for i, op in enumerate(h):
                    if op[0] == 'E' and mdl.corr is None:
                        ok = False
                        break
                    apply(o, mdl, kind, op, cplx, vk)
                    if every or i == len(h) - 1:
                        n += 1
                        out = query(o, mdl, kind, cplx, explicit, vk)
                        if out:
                            return ['history %s (queried %s): %s' % ([''.join(x) for x in h[:i + 1]],
                                                                     'always' if every else 'at the end', q) for q in out], {}
                if not ok:
                    break
    return '', {'states': n}


def era_ops():
    def M(n, ni, no, s, nt=12):
        A = np.diag(0.8 * 0.7 ** np.arange(n)) + 0.05 * mat(n, n, False, s)
        B, C = mat(n, ni, False, s + 1) + 0.3, mat(no, n, False, s + 2) + 0.3
        P = np.array([C.dot(np.linalg.matrix_power(A, i)).dot(B) for i in range(nt)])
        return serial.modred().make_sampled_format(np.arange(nt), P)[1]
    m1, m2, m3 = M(3, 1, 1, 3), M(2, 2, 1, 4), M(3, 1, 2, 5, 9)
    return [(m1, 3, {}), (m2, 2, {}), (m1, 2, {}), (m1, 3, dict(mc=4, mo=5)), (m3, 3, {}), (m2, 2, dict(mc=3)),
            (m1[:, 0, 0], 3, dict(mo=4)), (m3[:-1], 2, dict(mc=3, mo=3)), (m1[:, :, 0], 1, {})]


def case_era(first, depth, mc, mo):
    m = serial.modred()
    O = era_ops()
    ctor = dict(mc=mc, mo=mo, verbosity=0)
    names = ['A', 'B', 'C', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2']
    fr = []
    for M, k, kw in O:
        o = m.ERA(**ctor)
        M0 = M.copy()
        o.compute_model(M, k, **kw)
        if not np.array_equal(M, M0):
            return 'Markov parameters modified'
        fr.append([np.array(getattr(o, n)) for n in names])
    n = 0
    for L in range(depth):
        for rest in itertools.product(range(len(O)), repeat=L):
            o = m.ERA(**ctor)
            for i in (first,) + rest:
                r = o.compute_model(O[i][0], O[i][1], **O[i][2])
                n += 1
                out = []
                for q, e in zip(names, fr[i]):
                    out += nz(close(getattr(o, q), e, 1e-9, q))
                for a, e in zip(r, fr[i]):
                    out += nz(close(a, e, 1e-9, 'returned array'))
                if out:
                    return ['ERA history %s: %s' % ((first,) + rest, q) for q in out], {}
            d = {}
            o.put_array = lambda a, dest: d.__setitem__(dest, np.array(a))
            o.put_model('A', 'B', 'C')
            o.put_decomp('sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2')
            o.put_sing_vals('s')
            last = ((first,) + rest)[-1]
            out = []
            for q, e in zip(names, fr[last]):
                out += nz(close(d[q], e, 1e-9, 'put ' + q))
            out += nz(close(d['s'], fr[last][3], 1e-9, 'put singular values'))
            if out:
                return out, {}
    return '', {'states': n}


def case_lti(first, depth, hnd, orth, sym, cplx, share=False):
    m = serial.modred()
    vk = hand.Pool('mem') if share else '1d'
    nb = 2
    W = ref.wkinds('2d', NS)[1]
    Phi, Psi = mat(NS, nb, cplx, 1), mat(NS, nb, cplx, 2)
    src = {'A': [mat(NS, nb, cplx, 3), mat(NS, nb, True, 4)], 'B': [mat(NS, 1, cplx, 5), mat(NS, 3, cplx, 6)],
           'C': [mat(1, nb, cplx, 7), mat(2, nb, cplx, 8)]}
    P = Phi if sym else Psi
    IP = P.conj().T.dot(W)
    T = np.eye(nb) if orth else np.linalg.inv(IP.dot(Phi))

    def exp(w, i):
        return src[w][i] if w == 'C' else T.dot(IP.dot(src[w][i]))
    O = [(w, i) for w in 'ABC' for i in (0, 1)] + [('M', 0), ('M', 1)]
    n = 0
    for L in range(depth):
        for rest in itertools.product(range(len(O)), repeat=L):
            if hnd:
                o = m.LTIGalerkinProjectionHandles(hand.ipW(W), hand.handles(Phi),
                                                   adjoint_basis_vec_handles=None if sym else hand.handles(Psi),
                                                   is_basis_orthonormal=orth, put_array=hand.mem_put, verbosity=0)
                arg = lambda w, i: list(src[w][i].T) if w == 'C' else hand.handles(src[w][i], vk, w)
            else:
                o = m.LTIGalerkinProjectionArrays(Phi, adjoint_basis_vecs=None if sym else Psi, is_basis_orthonormal=orth,
                                                  inner_product_weights=W, put_array=hand.mem_put)
                arg = lambda w, i: src[w][i]
            cur = {}
            for j in (first,) + rest:
                w, i = O[j]
                if w == 'M':
                    r = o.compute_model(arg('A', i), arg('B', i), arg('C', i))
                    cur = {'A': i, 'B': i, 'C': i}
                    got = dict(zip('ABC', r))
                else:
                    got = {w: getattr(o, 'reduce_' + w)(arg(w, i))}
                    cur[w] = i
                n += 1
                out = []
                for q in got:
                    out += nz(close(got[q], exp(q, cur[q]), 1e-8, 'returned %s' % q))
                for q in cur:
                    out += nz(close(getattr(o, q + '_reduced'), exp(q, cur[q]), 1e-8, 'reduced %s' % q))
                    getattr(o, 'put_%s_reduced' % q)(q)
                    out += nz(close(hand.STORE[q], exp(q, cur[q]), 1e-8, 'put %s' % q))
                if len(cur) == 3:
                    o.put_model('mA', 'mB', 'mC')
                    for q in cur:
                        out += nz(close(hand.STORE['m' + q], exp(q, cur[q]), 1e-8, 'put model %s' % q))
                if out:
                    return ['history %s: %s' % ([O[x] for x in (first,) + rest], q) for q in out], {}
    return '', {'states': n}


def run(ck):
    q = ck.quick
    D = 3 if q else 4
    hs = [dict(kind=k, cplx=c, first=f, depth=D, explicit=e) for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True)
          for e in (False, True) for f in range(len(ops(k)))]
    # the same handles (objects or files) with replaced vectors
    hs += [dict(kind=k, cplx=c, first=f, depth=D if s == 'mem' and k != 'tls' else 2, explicit=e, share=s)
           for k in ('pod', 'bpod', 'dmd', 'tls') for c in (False, True) for s in ('mem', 'file')
           for e in (False, True) for f in range(len(ops(k)))]
    ck.domain('hist', hs, timeout=600, chunk=1)
    ck.domain('era', [dict(first=f, depth=D, mc=a, mo=b) for f in range(9) for a, b in ((None, None), (3, None), (None, 2), (3, 4))],
              timeout=600, chunk=1)
    ck.domain('lti', [dict(first=f, depth=D, hnd=h, orth=o, sym=s, cplx=c) for f in range(8) for h in (False, True)
                      for o in (False, True) for s in (False, True) for c in (False, True)] +
              [dict(first=f, depth=D, hnd=True, orth=o, sym=s, cplx=False, share=True) for f in range(8)
               for o in (False, True) for s in (False, True)], timeout=600, chunk=1)
