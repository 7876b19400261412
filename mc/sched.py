"""Engine S helpers for the checks: cluster cache and standard judgements."""
import os, pickle
import numpy as np
from . import simmpi, core
from .simmpi import explore_bounded, explore_dpor, explore_modes

_C = {}
SYNC = lambda i: True


def layout(n, kind='one'):
    if kind == 'one':
        return ['node0'] * n
    if kind == 'each':
        return ['node%d' % i for i in range(n)]
    if kind == 'two':
        return ['node%d' % (i % 2) for i in range(n)]
    if kind == 'uneven':
        return ['nodeA'] + ['nodeB'] * (n - 1)
    raise ValueError(kind)


def nnodes(n, kind):
    return len(set(layout(n, kind)))


def cluster(n, kind='one'):
    k = (n, kind)
    c = _C.get(k)
    if c is None or not c.alive:
        if len(_C) > 4:                      # keep few processes around
            for kk in list(_C):
                _C.pop(kk).close()
        try:
            c = simmpi.Cluster(n, layout(n, kind))
        except simmpi.ImportFailed as e:
            raise core.Problem('importing the package on %d workers: %s' % (n, e))
        _C[k] = c
    return c


def bad_end(res):
    """Problem string if the execution did not end well, else ''."""
    if res.status != 'ok':
        return '%s: %s' % (res.status, res.detail)
    return ''


def same_on_all(results, fields=None):
    """All ranks returned bitwise identical values."""
    b = [pickle.dumps(canon(r), 4) for r in results]
    return [i for i in range(len(b)) if b[i] != b[0]]


def canon(v):
    if isinstance(v, np.ndarray):
        a = np.ascontiguousarray(v)
        return ('nd', a.shape, a.dtype.str, a.tobytes())
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, canon(v[k])) for k in sorted(v))
    if isinstance(v, np.generic):
        return ('g', v.dtype.str, v.tobytes())
    return v


def decode(b):
    return None if b is None else pickle.loads(b)


def minmaxv(n, kind):
    """Per-node limits giving 3, 4 and many vectors per worker, and too small."""
    nn = nnodes(n, kind)
    per = n / float(nn)
    return sorted(set([1, int(np.ceil(3 * per)), int(np.ceil(4 * per)), int(np.ceil(5 * per)) , 1000]))


VARIANTS = [dict(prefer='low'), dict(prefer='high'), dict(prefer='high', modes=SYNC),
            dict(prefer='low', modes=SYNC, strong=True)]


class Sum(object):
    """Accumulates execution counts and problems of one case."""
    def __init__(self):
        self.info = {'states': 0, 'transitions': 0, 'traces': 0}
        self.problems = []

    def add(self, res):
        self.info['traces'] += 1
        self.info['states'] += 1
        self.info['transitions'] += len(res.steps)

    def stats(self, st):
        self.info['traces'] += st['schedules']
        self.info['states'] += st['schedules']
        self.info['transitions'] += st['steps']
        if not st['complete']:
            self.info['complete'] = False

    def bad(self, msg):
        if msg and msg not in self.problems and len(self.problems) < 5:
            self.problems.append(msg)

    def out(self):
        return self.problems, self.info


def sweep(n, lay, job, judge, variants=VARIANTS):
    """Runs the canonical schedules/delivery modes; judge(res) -> problem or ''."""
    s = Sum()
    cl = cluster(n, lay)
    for v in variants:
        r = cl.run(job, **v)
        s.add(r)
        p = bad_end(r) or judge(r)
        for x in ([p] if isinstance(p, str) else p):
            if x:
                s.bad('%s [%s]' % (x, ' '.join('%s=%s' % (k, 'sync' if k == 'modes' else w) for k, w in sorted(v.items()))))
        if s.problems:
            break
    return s.out()


def deep(n, lay, job, judge, bound=None, deviations=0, dpor=True, max_runs=None, deadline=200):
    """DPOR and/or preemption-bounded exploration and delivery-mode deviations."""
    s = Sum()
    cl = cluster(n, lay)

    def check(res, label):
        p = bad_end(res) or judge(res)
        for x in ([p] if isinstance(p, str) else p):
            if x:
                s.bad('%s [schedule %s]' % (x, label))
                s.info['schedule'] = label
        return bool(s.problems)
    import time
    dl = time.time() + deadline if deadline else None
    if dpor:
        s.stats(explore_dpor(cl, job, check, max_runs=max_runs, deadline=dl))
    if not s.problems and bound is not None:
        s.stats(explore_bounded(cl, job, check, bound, max_runs=max_runs, deadline=dl))
    if not s.problems and deviations is not None and deviations >= 0:
        s.stats(explore_modes(cl, job, check, deviations=deviations, deadline=dl))
    return s.out()
