"""E05: Galerkin projection yields the Petrov-Galerkin reduced model."""
import itertools
import numpy as np
from mc import serial, ref, hand
from mc.num import close, nz, mat

RULE = ('A_r = T Psi* W A_phi, B_r = T Psi* W B with T = inv(Psi* W Phi) or the identity when the basis is declared '
        'orthonormal, C_r = supplied outputs as columns; a full-dimensional projection reproduces the impulse response of the '
        'system; arrays and handles agree; inputs unchanged; derivatives (next - current)/dt; standard basis')
BOUNDS = ('1..5 (7) states, every number of basis vectors up to them, 1..3 inputs and outputs, all kinds of weights, with and '
          'without adjoint basis, real/complex basis x real/complex vectors, declared orthonormal or not (whether or not it '
          'is), arrays/lists/integer input, vectors as 1D, 2D arrays, minimal objects or in memory; adjoint bases related to the basis in 13 ways, other magnitudes; every order of the reduce '
          'functions; memory limits 2, 3, 1000; derivatives of 0..5 vectors for several time steps, also with shared handles; also up to 130 states, 101 basis vectors, '
          '13 inputs and 101 outputs, derivatives of 129 vectors')


REL = {'same': lambda P: P.copy(), 'neg': lambda P: -P, 'abs': np.abs, 'conj': np.conj, 'twice': lambda P: 2 * P,
       'phase': lambda P: P * 1j, 'cols': lambda P: P[:, ::-1].copy(), 'near': lambda P: P * (1 + 1e-7 * np.arange(P.size).reshape(P.shape)),
       'rowneg': lambda P: P * np.where(np.arange(len(P)) % 2, -1, 1)[:, None], 'orth': lambda P: np.linalg.qr(P)[0],
       'firstcol': lambda P: np.hstack([P[:, :1] + P[:, -1:], P[:, 1:]]), 'tiny': lambda P: P * 2. ** -40, 'big': lambda P: P * 2. ** 30}


def model(ns, nb, ni, no, cb, cv, rel=''):
    Phi, Psi = mat(ns, nb, cb, 1), mat(ns, nb, cb, 2)
    if ns >= nb:
        Phi, Psi = Phi + np.eye(ns, nb), Psi + 1.5 * np.eye(ns, nb)
    if rel:
        Psi = REL[rel](Phi)
    if rel in ('tiny', 'big'):          # the whole problem in other units
        Phi = REL[rel](Phi)
        return Phi, Psi, mat(ns, nb, cv, 3) * 2. ** 7, mat(ns, ni, cv, 4) * 2. ** -20, mat(no, nb, cv, 5) * 2. ** 33
    return Phi, Psi, mat(ns, nb, cv, 3), mat(ns, ni, cv, 4), mat(no, nb, cv, 5)


def rclose(a, b, what):
    """Relative to the largest entry."""
    s = np.abs(b).max() if np.size(b) else 1.
    s = s if s > 0 else 1.
    return close(np.asarray(a) / s, np.asarray(b) / s, 1e-8, what)


def case_arrays(ns, nb, ni, no, w, sym, orth, cb, cv, form, rel=''):
    m = serial.modred()
    Phi, Psi, A, B, C = model(ns, nb, ni, no, cb, cv, rel)
    wt, W = ref.wkinds(w, ns)
    if form == 'int':
        Phi, Psi, A, B, C = (np.round(8 * x).astype(int) for x in (Phi, Psi, A, B, C))
        if abs(np.linalg.det(ref.H(Psi if not sym else Phi).dot(W).dot(Phi))) < 1e-3:
            Phi = Phi + 9 * np.eye(ns, nb, dtype=int)
    P = Phi if sym else Psi
    I = ref.H(P).dot(W)
    G = I.dot(Phi)
    if not orth and np.linalg.cond(G) > 1e4:
        return '', {'skipped': 1}
    T = np.eye(nb) if orth else np.linalg.inv(G)
    e = {'A': T.dot(I).dot(A), 'B': T.dot(I).dot(B), 'C': C}
    f = {'list': lambda x: x.tolist(), 'F': np.asfortranarray, 'int': lambda x: x, 'arr': lambda x: x}[form]
    args = [f(x) for x in (Phi, Psi, A, B, C)]
    keep = [np.array(x) for x in args]
    kw = dict(is_basis_orthonormal=orth, inner_product_weights=wt)
    if not sym:
        kw['adjoint_basis_vecs'] = args[1]
    out = []
    n = 0
    for order in list(itertools.permutations('ABC')) + ['M']:
        n += 1
        o = m.LTIGalerkinProjectionArrays(args[0], put_array=hand.mem_put, **kw)
        if order == 'M':
            r = dict(zip('ABC', o.compute_model(args[2], args[3], args[4])))
        else:
            r = {k: getattr(o, 'reduce_' + k)(args[2 + 'ABC'.index(k)]) for k in order}
        for k in 'ABC':
            out += nz(rclose(r[k], e[k], 'reduced %s' % k), rclose(getattr(o, k + '_reduced'), e[k], 'kept ' + k))
        if out:
            return ['order %s: %s' % (''.join(order), x) for x in out], {}
    o.put_model('a', 'b', 'c')
    for k in 'ABC':
        out += nz(rclose(hand.STORE[k.lower()], e[k], 'put ' + k))
    if not all(np.array_equal(x, y) for x, y in zip(keep, args)):
        out.append('inputs changed')
    return out, {'states': n}


def case_handles(ns, nb, ni, no, w, sym, orth, cb, cv, vk, maxv, rel=''):
    m = serial.modred()
    Phi, Psi, A, B, C = model(ns, nb, ni, no, cb, cv, rel)
    W = ref.wkinds(w, ns)[1]
    P = Phi if sym else Psi
    I = ref.H(P).dot(W)
    G = I.dot(Phi)
    if not orth and np.linalg.cond(G) > 1e4:
        return '', {'skipped': 1}
    T = np.eye(nb) if orth else np.linalg.inv(G)
    e = {'A': T.dot(I).dot(A), 'B': T.dot(I).dot(B), 'C': C}
    out = []
    n = 0
    for order in ('ABC', 'BAC', 'CBA', 'M'):
        n += 1
        kw = {} if sym else dict(adjoint_basis_vec_handles=hand.handles(Psi, vk))
        o = m.LTIGalerkinProjectionHandles(hand.ipW(W), hand.handles(Phi, vk), is_basis_orthonormal=orth,
                                           put_array=hand.mem_put, verbosity=0, max_vecs_per_node=maxv, **kw)
        arg = {'A': hand.handles(A, vk), 'B': hand.handles(B, vk), 'C': [c.copy() for c in C.T]}
        if order == 'M':
            r = dict(zip('ABC', o.compute_model(arg['A'], arg['B'], arg['C'])))
        else:
            r = {k: getattr(o, 'reduce_' + k)(arg[k]) for k in order}
        for k in 'ABC':
            out += nz(rclose(r[k], e[k], 'reduced %s' % k), rclose(getattr(o, k + '_reduced'), e[k], 'kept ' + k))
        if out:
            return ['order %s: %s' % (order, x) for x in out], {}
    for k in 'ABC':
        getattr(o, 'put_%s_reduced' % k)(k)
        out += nz(rclose(hand.STORE[k], e[k], 'put ' + k))
    return out, {'states': n}


def case_full(ns, ni, no, w, sym, cplx, hnd):
    """Projection on a complete basis is a similarity transformation."""
    m = serial.modred()
    Phi, Psi, _, _, _ = model(ns, ns, ni, no, cplx, cplx)
    wt, W = ref.wkinds(w, ns)
    if np.linalg.cond(ref.H(Phi if sym else Psi).dot(W).dot(Phi)) > 1e4:
        return '', {'skipped': 1}
    A, B, C = 0.9 * mat(ns, ns, cplx, 6), mat(ns, ni, cplx, 7), mat(no, ns, cplx, 8)
    if hnd:
        o = m.LTIGalerkinProjectionHandles(hand.ipW(W), hand.handles(Phi), verbosity=0,
                                           **({} if sym else dict(adjoint_basis_vec_handles=hand.handles(Psi))))
        a, b, c = o.compute_model(hand.handles(A.dot(Phi)), hand.handles(B), list(C.dot(Phi).T))
    else:
        o = m.LTIGalerkinProjectionArrays(Phi, inner_product_weights=wt, **({} if sym else dict(adjoint_basis_vecs=Psi)))
        a, b, c = o.compute_model(A.dot(Phi), B, C.dot(Phi))
    out = []
    x, X = b, B
    for i in range(2 * ns + 1):
        out += nz(close(c.dot(x), C.dot(X), 1e-8, 'Markov parameter %d' % i))
        x, X = a.dot(x), A.dot(X)
    return out


def case_shared(ns, nv, cplx, vk, seq):
    """Derivatives of vectors whose handles occur more than once."""
    m = serial.modred()
    X = mat(ns, nv + 1, cplx, 1)
    ix, iy = {'seq': (range(nv), range(1, nv + 1)), 'back': (range(1, nv + 1), range(nv)), 'same': (range(nv), range(nv)),
              'rep': ([0] * nv, [1 + j - j % 2 for j in range(nv)]), 'rev': (range(nv), range(nv - 1, -1, -1))}[seq]
    h = hand.handles(X, vk)
    outs = [hand.Out() for _ in range(nv)]
    m.compute_derivs_handles([h[i] for i in ix], [h[i] for i in iy], outs, 0.1)
    out = []
    for j, (a, b) in enumerate(zip(ix, iy)):
        if len(outs[j].v) != 1:
            return 'derivative %d stored %d times' % (j, len(outs[j].v))
        out += nz(close(outs[j].v[0], (X[:, b] - X[:, a]) / 0.1, 1e-12, 'derivative %d' % j))
    return out


def case_derivs(ns, nv, cplx, dt, vk):
    m = serial.modred()
    X, Y = mat(max(ns, 1), max(nv, 1), cplx, 1)[:, :nv], mat(max(ns, 1), max(nv, 1), cplx, 2)[:, :nv]
    e = (Y - X) / dt
    out = []
    if vk in ('arr', 'list', 'int'):
        x, y = (X.tolist(), Y.tolist()) if vk == 'list' else (X, Y)
        if vk == 'int':
            x, y = np.round(9 * X).astype(int), np.round(9 * Y).astype(int)
            e = (y - x) / float(dt)
        k = [np.array(x), np.array(y)]
        out += nz(close(m.compute_derivs_arrays(x, y, dt), e, 1e-12, 'derivatives'))
        if not np.array_equal(k[0], x) or not np.array_equal(k[1], y):
            out.append('inputs changed')
        return out
    outs = [hand.Out() for _ in range(nv)]
    xh, yh = hand.handles(X, vk), hand.handles(Y, vk)
    m.compute_derivs_handles(xh, yh, outs, dt)
    for j, o in enumerate(outs):
        if len(o.v) != 1:
            out.append('derivative %d stored %d times' % (j, len(o.v)))
        else:
            out += nz(close(o.v[0], e[:, j], 1e-12, 'derivative %d' % j))
    if vk == 'mem':
        for j in range(nv):
            if not np.array_equal(xh[j].get(), X[:, j]) or not np.array_equal(yh[j].get(), Y[:, j]):
                out.append('inputs changed')
    return out


def case_basis(n):
    b = serial.modred().standard_basis(n)
    if not isinstance(b, list) or len(b) != n:
        return 'not a list of %d vectors' % n
    for i, v in enumerate(b):
        if np.shape(v) != (n,) or not np.array_equal(v, [1. if j == i else 0. for j in range(n)]):
            return 'vector %d is %s' % (i, v)
    return ''


def run(ck):
    q = ck.quick
    S = range(1, 6 if q else 8)
    B = (False, True)
    WK = ('none', '1d', 'list', 'int', '2d', '2dc', '2dlist')
    ck.domain('arrays', [dict(ns=s, nb=b, ni=i, no=o, w=w, sym=y, orth=t, cb=c, cv=v, form=f)
                         for s in S for b in range(1, s + 1) for i, o in ((1, 1), (1, 2), (3, 1), (2, 3)) for w in WK
                         for y in B for t in B for c in B for v in B for f in ('arr', 'list', 'F', 'int')
                         if not (f == 'int' and (c or v)) and not (q and f in 'listF' and w not in ('none', '2dc'))], chunk=64)
    ck.domain('handles', [dict(ns=s, nb=b, ni=i, no=o, w=w, sym=y, orth=t, cb=c, cv=v, vk=k, maxv=x)
                          for s in ((1, 3, 4) if q else S) for b in range(1, s + 1) for i, o in ((1, 1), (3, 2))
                          for w in ('none', '2d', '2dc') for y in B for t in B for c in B for v in B
                          for k in ('1d', '2d', 'obj', 'mem') for x in ((2, 1000) if q else (2, 3, 1000))], chunk=32)
    RW = ('none', '1d', '2dc')
    ck.domain('arrays', [dict(ns=s, nb=b, ni=1, no=2, w=w, sym=False, orth=t, cb=c, cv=v, form='arr', rel=r)
                         for s in S for b in range(1, s + 1) for w in RW for t in B for c in B for v in B for r in REL
                         if c or r not in ('conj',)], chunk=64)
    ck.domain('handles', [dict(ns=s, nb=b, ni=1, no=2, w=w, sym=False, orth=t, cb=c, cv=v, vk='1d', maxv=1000, rel=r)
                          for s in S for b in range(1, s + 1) for w in RW for t in B for c in B for v in B for r in REL
                          if c or r not in ('conj',)], chunk=64)
    ck.domain('full', [dict(ns=s, ni=i, no=o, w=w, sym=y, cplx=c, hnd=h) for s in S for i in (1, 2, 3) for o in (1, 2, 3)
                       for w in ('none', '1d', '2d', '2dc') for y in B for c in B for h in B], chunk=32)
    ck.domain('shared', [dict(ns=s, nv=n, cplx=c, vk=k, seq=o) for s in (1, 3) for n in range(1, 7) for c in B
                         for k in ('1d', 'mem') for o in ('seq', 'back', 'same', 'rep', 'rev')])
    ck.domain('derivs', [dict(ns=s, nv=n, cplx=c, dt=d, vk=k) for s in (1, 2, 5) for n in range(0, 6) for c in B
                         for d in (1, 2, 0.1, -0.5, 1e-3) for k in ('arr', 'list', 'int', '1d', '2d', 'obj', 'mem')
                         if not (k == 'int' and c) and not (n == 0 and k in ('arr', 'list', 'int'))])
    ck.domain('basis', [dict(n=n) for n in range(1, 9)])
    big = [(12, 11), (40, 12), (101, 3), (130, 101), (33, 33)]
    ck.domain('arrays', [dict(ns=s, nb=b, ni=i, no=o, w=w, sym=y, orth=t, cb=c, cv=v, form='arr')
                         for s, b in big for i, o in ((1, 1), (11, 13), (2, 101)) for w in ('none', '1d', '2dc')
                         for y in B for t in B for c in B for v in B], chunk=8)
    ck.domain('handles', [dict(ns=s, nb=b, ni=i, no=o, w=w, sym=y, orth=t, cb=c, cv=v, vk='1d', maxv=x)
                          for s, b in big for i, o in ((1, 1), (11, 13)) for w in ('none', '2dc')
                          for y in B for t in B for c in B for v in B for x in ((7, 1000) if b < 40 else (10000,))
                          if b < 40 or (y and not t and i == 1)], chunk=4)
    ck.domain('derivs', [dict(ns=s, nv=n, cplx=c, dt=0.1, vk=k) for s in (3, 130) for n in (12, 33, 129) for c in B
                         for k in ('arr', 'int', '1d', 'mem') if not (k == 'int' and c)])
    ck.domain('basis', [dict(n=n) for n in (10, 33, 101, 260)])
