"""P06: custom reductions."""
import itertools
import numpy as np
from mc import scen, sched
from mc.num import close

RULE = 'reduce/allreduce = rank-ordered fold, scan/exscan = inclusive/exclusive prefix, reduce result only on the root'
BOUNDS = ('1..9 workers, every root, non-commutative (concatenation, matrix product, first, last), commutative and '
          'min/max-with-location operations, contributions of up to 20000 numbers, chains of up to 3 reductions and of 12 and 40 equal ones, 4 schedule/delivery variants, single-send '
          'deviations and preemption bounds on small sizes')


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is not None and b is not None and not close(a, b, 1e-14)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (not isinstance(a, (str, type(None))) and not isinstance(b, (str, type(None))) and a == b)


def make_judge(n, calls):
    ref = scen.reduction_ref(n, calls)

    def judge(res):
        for r in range(n):
            for i, c in enumerate(calls):
                v, intact = res.results[r][i]
                if not same(v, ref[r][i]):
                    return '%s(op=%s, root=%s) on rank %d gives %r instead of %r' % (c[0], c[1], c[2], r, v, ref[r][i])
                if not intact:
                    return '%s(op=%s) modifies the contribution of rank %d' % (c[0], c[1], r)
        return ('left over: ' + res.leftover[0]) if res.leftover else ''
    return judge


def case_red(n, calls):
    return sched.sweep(n, 'one', ('mc.scen', 'reduction', dict(calls=calls)), make_judge(n, calls))


def case_deep(n, calls, bound, dev):
    return sched.deep(n, 'one', ('mc.scen', 'reduction', dict(calls=calls)), make_judge(n, calls), bound=bound,
                      deviations=dev)


OPS = ['cat', 'matmul', 'first', 'last', 'arr', 'SUM', 'MAX', 'MIN', 'PROD', 'MINLOC', 'MAXLOC']


def run(ck):
    q = ck.quick
    cs = []
    for n in range(1, 9):
        for op in OPS:
            for salt in (range(4) if op in ('MINLOC', 'MAXLOC') else (0, 1)):
                for root in range(n):
                    cs.append(dict(n=n, calls=[['reduce', op, root, salt]]))
                for f in ('allreduce', 'scan', 'exscan'):
                    cs.append(dict(n=n, calls=[[f, op, None, salt]]))
        cs.append(dict(n=n, calls=[['reduce_default', 'SUM', None, 0]]))
        cs.append(dict(n=n, calls=[['allreduce_default', 'arr', None, 0]]))
    ck.domain('red', cs)
    ch = []
    for n in (2, 3, 4, 5):
        base = [['reduce', 'cat', 0, 0], ['reduce', 'cat', n - 1, 1], ['allreduce', 'cat', None, 2],
                ['scan', 'cat', None, 3], ['exscan', 'cat', None, 4]]
        for L in (2,) if q else (2, 3):
            for c in itertools.product(base, repeat=L):
                ch.append(dict(n=n, calls=[list(x) for x in c]))
    ck.domain('red', ch)
    dp = []
    for n in (2, 3) if q else (2, 3, 4):
        for f, root in (('reduce', 0), ('reduce', 1), ('allreduce', None), ('scan', None), ('exscan', None)):
            dp.append(dict(n=n, calls=[[f, 'cat', root, 0]], bound=99 if n == 2 else (2 if n == 3 else 1), dev=2))
        dp.append(dict(n=n, calls=[['scan', 'cat', None, 0], ['exscan', 'cat', None, 1]],
                       bound=3 if n == 2 else 1, dev=1 if q else 3))
    ck.domain('deep', dp, timeout=600, chunk=1)
    ck.domain('red', [dict(n=n, calls=[[f, 'arr' if f == 'allreduce' else 'cat', 0 if f == 'reduce' else None, z]]) for n in (2, 3, 5, 8)
                      for f in ('reduce', 'allreduce', 'scan', 'exscan') for z in (10, 100, 1000, 20000)] +
              [dict(n=n, calls=[[f, 'cat', 0 if f == 'reduce' else None, i % 5] for i in range(z)]) for n in (2, 3)
               for f in ('reduce', 'allreduce', 'scan', 'exscan') for z in (12, 40)], timeout=200)
