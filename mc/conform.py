"""Conformance of the simulated MPI: the same scenarios on the real code under the real MPI library and under the
simulator give identical results on every worker and identical stored elements.

    /opt/venv/bin/python mc/conform.py [max workers]         (controller)
"""
import os, sys, json, pickle, subprocess, tempfile, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('MODRED_REPO', '/repo')


def jobs(n):
    J = []
    for nr, nc in ((1, 1), (2, 3), (4, 2), (5, 5), (7, 3)):
        for maxv in (1, 1000):
            J.append(('inner', dict(nr=nr, nc=nc, maxv=maxv, cplx=True)))
            J.append(('inner', dict(nr=nr, nc=nr, maxv=maxv, symm=True)))
            J.append(('lincomb', dict(nb=nr, ns=nc, maxv=maxv, cplx=True)))
    for kind in ('pod', 'bpod', 'dmd', 'dmdseq', 'tls', 'tlsseq'):
        for nv in (2, 4):
            J.append(('pipeline', dict(kind=kind, nv=nv, maxv=1000, cplx=True, modes=list(range(nv // 2)),
                                       ops=('modes', 'coeffs', 'puts', 'gets'))))
    J.append(('galerkin', dict(nb=3)))
    J.append(('derivs', dict(nv=5)))
    for op in ('cat', 'SUM', 'MINLOC', 'MAXLOC', 'matmul', 'first', 'last', 'arr', 'MAX'):
        for root in range(n):
            J.append(('reduction', dict(calls=[['reduce', op, root, 0], ['allreduce', op, 0, 1], ['scan', op, 0, 2],
                                               ['exscan', op, 0, 3]])))
    return J


class FileCtx(object):
    """Stored elements in files shared by the workers."""
    def __init__(self, rank, size, d):
        self.rank, self.size, self.d, self.puts = rank, size, d, []

    def call(self, op, *a):
        import hashlib
        if op == 'event':
            return None
        p = os.path.join(self.d, hashlib.md5(a[0].encode()).hexdigest())
        if op == 'put':
            self.puts.append((a[0], a[1]))
            if a[0].startswith('INPUT:'):
                return None
            with open(p + '.%d' % self.rank, 'wb') as f:
                f.write(a[1])
            os.rename(p + '.%d' % self.rank, p)
            return None
        if op == 'get':
            with open(p, 'rb') as f:
                return f.read()
        raise ValueError(op)


def worker(d, jobfile):
    sys.path.insert(0, REPO)
    from mpi4py import MPI
    import modred
    from mc import scen
    c = MPI.COMM_WORLD
    out = []
    for i, (fn, kw) in enumerate(json.load(open(jobfile))):
        w = os.path.join(d, 'j%d' % i)
        if c.rank == 0:
            os.makedirs(w)
        c.Barrier()
        ctx = FileCtx(c.rank, c.size, w)
        try:
            r = ('ok', getattr(scen, fn)(ctx, **kw))
        except Exception as e:
            r = ('error', type(e).__name__, str(e))
        out.append((r, ctx.puts))
        c.Barrier()
    pickle.dump(out, open(os.path.join(d, 'out%d' % c.rank), 'wb'))


def same(a, b):
    """equal up to rounding (the order of message arrival never matters, that of library calls may)"""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-10 * (1 + abs(b))
    return a == b


def main():
    from mc import sched
    top = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    d = tempfile.mkdtemp(prefix='conform_')
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', MODRED_REPO=REPO)
    total = bad = 0
    try:
        for n in range(1, top + 1):
            w = os.path.join(d, 'n%d' % n)
            os.makedirs(w)
            J = jobs(n)
            json.dump(J, open(w + '/jobs', 'w'))
            t = time.time()
            r = subprocess.run([os.path.join(os.path.dirname(sys.executable), 'mpiexec'), '-n', str(n), sys.executable,
                                os.path.abspath(__file__), '-w', w, w + '/jobs'],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode:
                print('mpiexec -n %d ended with %d\n%s' % (n, r.returncode, r.stdout[-2000:]))
                return 2
            real = [pickle.load(open(w + '/out%d' % k, 'rb')) for k in range(n)]
            cl = sched.cluster(n, 'one')
            for i, (fn, kw) in enumerate(J):
                res = cl.run(('mc.scen', fn, kw))
                for k in range(n):
                    total += 1
                    (rr, puts) = real[k][i]
                    msg = ''
                    if res.status != 'ok':
                        if True:
                            msg = 'simulator: %s %s' % (res.status, res.detail)
                    elif rr[0] != 'ok':
                        msg = 'real MPI: %s' % (rr,)
                    else:
                        v = dict(rr[1]) if isinstance(rr[1], dict) else rr[1]
                        s = res.results[k]
                        if isinstance(v, dict):          # counters of live objects depend on garbage of other jobs
                            v.pop('live', None)
                            s = {x: y for x, y in s.items() if x != 'live'}
                        if not same(v, s):
                            msg = 'results differ: %s / %s' % (str(v)[:300], str(s)[:300])
                        sp = sorted((key, val) for rk, key, val in res.puts if rk == k and not key.startswith('INPUT:'))
                        rp = sorted((key, val) for key, val in puts if not key.startswith('INPUT:'))
                        if [x[0] for x in sp] != [x[0] for x in rp] or not all(
                                same(pickle.loads(x[1]), pickle.loads(y[1])) for x, y in zip(sp, rp)):
                            msg = msg or 'stored elements differ'
                    if msg:
                        bad += 1
                        if bad < 10:
                            print('n=%d rank %d %s %s: %s' % (n, k, fn, kw, msg))
            print('%d workers: %d scenarios compared with the real MPI library (%.1f s)' % (n, len(J), time.time() - t), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print('%d comparisons, %d differ' % (total, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['-w']:
        worker(*sys.argv[2:4])
    else:
        rc = main()
        sys.stdout.flush()
        os._exit(rc)
