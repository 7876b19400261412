"""P05: rank agreement of decompositions and derived results."""
import numpy as np
from mc import scen, sched
from mc.num import close

RULE = ('all workers hold bitwise identical decompositions and coefficients even if eigen/singular vectors returned by '
        'the library differ in sign or order between workers, and the modes stored by all workers together satisfy '
        'the relations of that one decomposition')
BOUNDS = ('6 decomposition kinds x 2..5 workers x layouts x memory limits x 2..5 and 12, 25 vectors x real/complex x with and '
          'without worker-dependent eigenvector sign/order, 4 schedule/delivery variants')


def _modes(puts, name):
    d = {}
    for rank, key, val in puts:
        if key.startswith(name) and key[len(name):].isdigit():
            d[int(key[len(name):])] = sched.decode(val)
    return np.array([d[i] for i in sorted(d)]).T if d else None


def make_judge(kind, nv, cplx):
    d = scen.pipe_data(kind, nv, cplx)
    X = np.array(d['x']).T
    if d['y'] is None:
        X, Y = X[:, :-1], X[:, 1:]
    else:
        Y = np.array(d['y']).T
    W = np.diag(1. + 0.25 * np.arange(scen.nst(nv)))
    H = lambda a: a.conj().T

    def judge(res):
        outs = [{k: v for k, v in o.items() if k != 'xgets'} for o in res.results]
        for k in outs[0]:
            b = sched.same_on_all([o.get(k) for o in outs])
            if b:
                return 'ranks %s hold a different %s than rank 0' % (b, k)
        o = outs[0]
        tol = 1e-6
        P = []
        if kind == 'pod':
            M = _modes(res.puts, 'modes')
            P.append(close(M, X.dot(o['eigvecs']).dot(np.diag(o['eigvals'] ** -.5)) if d['y'] is None else
                           X.dot(o['eigvecs']).dot(np.diag(o['eigvals'] ** -.5)), tol, 'modes'))
            P.append(close(o['C:compute_proj_coeffs'][0], H(M).dot(W).dot(X), tol, 'projection coefficients'))
        elif kind == 'bpod':
            D, A = _modes(res.puts, 'direct'), _modes(res.puts, 'adjoint')
            s = np.diag(o['sing_vals'] ** -.5)
            P.append(close(D, X.dot(o['R_sing_vecs']).dot(s), tol, 'direct modes'))
            P.append(close(A, Y.dot(o['L_sing_vecs']).dot(s), tol, 'adjoint modes'))
            P.append(close(H(A).dot(W).dot(D), np.eye(o['nm']), tol, 'biorthogonality'))
            P.append(close(o['C:compute_direct_proj_coeffs'][0], H(A).dot(W).dot(X), tol, 'direct coefficients'))
            P.append(close(o['C:compute_adjoint_proj_coeffs'][0], H(D).dot(W).dot(Y), tol, 'adjoint coefficients'))
        else:
            E, Pm, A = _modes(res.puts, 'exact'), _modes(res.puts, 'proj'), _modes(res.puts, 'adj')
            if kind in ('dmd', 'dmdseq'):
                K = Y.dot(np.linalg.pinv(X))
                P.append(close(H(A).dot(W).dot(Pm), np.eye(o['nm']), tol, 'biorthogonality'))
                P.append(close(o['C:compute_proj_coeffs'][0], H(A).dot(W).dot(X), tol, 'coefficients'))
                P.append(close(o['C:compute_proj_coeffs'][1], H(A).dot(W).dot(Y), tol, 'advanced coefficients'))
                P.append(close(o['C:compute_spectrum'][0], np.abs(H(A).dot(W).dot(X))[:, 0], tol, 'spectrum'))
                Ws = np.sqrt(W)
                Kw = np.linalg.inv(Ws).dot((Ws.dot(Y)).dot(np.linalg.pinv(Ws.dot(X)))).dot(Ws)
                P.append(close(Kw.dot(E), E * o['eigvals'], tol, 'eigenvector relation'))
            else:
                P.append(close(H(A).dot(W).dot(Pm), np.eye(o['nm']), tol, 'biorthogonality'))
                P.append(close(o['C:compute_spectrum'][0], np.abs(o['C:compute_proj_coeffs'][0])[:, 0], tol, 'spectrum'))
        for p in P:
            if p:
                return p
        return ''
    return judge


def case_pipe(n, lay, kind, nv, maxv, cplx, pert):
    job = ('mc.scen', 'pipeline', dict(kind=kind, nv=nv, maxv=maxv, cplx=cplx, pert=pert, atol=1e-12,
                                       ops=['modes', 'coeffs', 'puts', 'gets']))
    return sched.sweep(n, lay, job, make_judge(kind, nv, cplx))


def run(ck):
    q = ck.quick
    cs = []
    for n in range(2, 5 if q else 7):
        for lay in (['one', 'each'] if n > 2 else ['one']):
            for maxv in (1, 1000) if q else sched.minmaxv(n, lay):
                for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq'):
                    for nv in (2, 3, 5) if q else (2, 3, 4, 5, 6):
                        for cplx in (False, True):
                            for pert in (False, True):
                                cs.append(dict(n=n, lay=lay, kind=kind, nv=nv, maxv=maxv, cplx=cplx, pert=pert))
    ck.domain('pipe', cs, timeout=200)
    ck.domain('pipe', [dict(n=n, lay='one', kind=k, nv=nv, maxv=x, cplx=c, pert=p) for n, x in ((2, 1), (3, 1000))
                       for k in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq') for nv in (12, 25) for c in (False, True)
                       for p in (False, True)], timeout=300, chunk=1)
