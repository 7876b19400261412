"""P07: task assignment."""
import itertools
import numpy as np
from mc import sched
from mc.serial import modred

RULE = ('assignments partition the list in order into one consecutive run per worker; equal weights: counts differ by '
        'at most what the fair share plus one allows, nobody idle while another has two or more')
BOUNDS = ('0..24 equal-weight tasks x 1..10 workers; every weight list of length <= 5 over a five-element alphabet '
          '(including 0, tiny and huge) x 1..5 workers; decreasing/increasing/cyclic patterns up to length 40; also up to '
          '1025 tasks and 257 workers')


def assign(tasks, weights, n):
    m = modred()
    p = m.parallel
    old = p._num_MPI_workers
    p._num_MPI_workers = n
    try:
        t = list(tasks)
        w = None if weights is None else list(weights)
        out = p.find_assignments(tasks, weights) if weights is not None else p.find_assignments(tasks)
        if list(tasks) != t or (w is not None and list(weights) != w):
            raise AssertionError('inputs modified')
        return out, p.check_for_empty_tasks(out)
    finally:
        p._num_MPI_workers = old


def judge(tasks, weights, n):
    out, empty = assign(tasks, weights, n)
    P = []
    if len(out) != n:
        P.append('%d assignments for %d workers' % (len(out), n))
    flat = [t for a in out for t in a]
    if flat != list(tasks):
        P.append('assignment %s of tasks %s with weights %s' % ([list(a) for a in out], list(tasks)[:12], weights))
    if bool(empty) != any(len(a) == 0 for a in out):
        P.append('check_for_empty_tasks gives %r for %r' % (empty, out))
    cnt = [len(a) for a in out]
    if weights is None or (len(set(weights)) == 1 and weights[0] > 0):
        share = len(tasks) / float(n)
        if max(cnt) > share + 1:
            P.append('equal weights, counts %s for %d tasks' % (cnt, len(tasks)))
        if min(cnt) == 0 and max(cnt) >= 2:
            P.append('equal weights, idle worker: counts %s' % cnt)
    return P


def case_equal(k, n, kind='list'):
    tasks = {'list': list(range(5, 5 + k)), 'str': ['t%d' % (i % 3) for i in range(k)],
             'tup': [(i, 'x') for i in range(k)]}[kind]
    return judge(tasks, None, n) + judge(tasks, [2.5] * k, n)


def case_weights(k, n, alphabet):
    P, c = [], 0
    for w in itertools.product(alphabet, repeat=k):
        c += 1
        P += judge(list(range(k)), list(w), n)
        P += judge(list(range(k)), np.array(w), n) if c % 7 == 0 else []
        if P:
            break
    return P[:3], {'states': c, 'transitions': c, 'traces': c}


def case_pattern(pattern, k, n):
    w = {'dec': lambda i: k - i, 'inc': lambda i: i + 1, 'cyc': lambda i: 1 + i % 3, 'exp': lambda i: 2. ** -i,
         'last': lambda i: 100. if i == k - 1 else 1., 'first': lambda i: 100. if i == 0 else 1.,
         'tail0': lambda i: 1. if i < k // 2 else 0., 'head0': lambda i: 0. if i < k // 2 else 1.}[pattern]
    return judge(list(range(k)), [w(i) for i in range(k)], n)


def case_ranks(n, lay):
    """The number of workers comes from the communicator."""
    def jd(res):
        for r, o in enumerate(res.results):
            if o != (r, n, sched.nnodes(n, lay), r == 0, n > 1):
                return 'rank %d reports %r' % (r, o)
        return ''
    return sched.sweep(n, lay, ('mc.scen', 'worker_info', {}), jd, sched.VARIANTS[:1])


def run(ck):
    q = ck.quick
    ck.domain('equal', [dict(k=k, n=n, kind=kd) for k in range(0, 25 if q else 60) for n in range(1, 11 if q else 17)
                        for kd in ('list', 'str', 'tup')])
    ck.domain('weights', [dict(k=k, n=n, alphabet=a) for k in range(1, 6 if q else 7) for n in range(1, 6 if q else 9)
                          for a in ([1, 2, 5], [0., 1., 3.], [1e-9, 1., 1e9], [0.1, 0.2, 0.3, 1.], [0, 1, 2, 4, 7])],
              timeout=300)
    ck.domain('pattern', [dict(pattern=p, k=k, n=n) for p in ('dec', 'inc', 'cyc', 'exp', 'last', 'first', 'tail0', 'head0')
                          for k in range(1, 41 if q else 80) for n in range(1, 9)])
    ck.domain('ranks', [dict(n=n, lay=l) for n in range(1, 6) for l in (('one', 'each', 'two', 'uneven') if n > 1 else ('one',))])
    ck.domain('equal', [dict(k=k, n=n, kind='list') for k in (33, 64, 65, 99, 100, 101, 128, 129, 257, 1000, 1025)
                        for n in list(range(1, 13)) + [16, 31, 32, 33, 64, 100, 257]])
    ck.domain('pattern', [dict(pattern=p, k=k, n=n) for p in ('dec', 'inc', 'cyc', 'exp', 'last', 'first', 'tail0', 'head0')
                          for k in (101, 129, 500) for n in (1, 2, 3, 5, 8, 11, 33, 130)])
