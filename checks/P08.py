"""P08: memory bound and retrieval counts."""
import math
from mc import scen, sched

RULE = ('live vectors on a worker <= max(3, per-worker share of the limit) + SLACK; every vector retrieved at most as '
        'often as the number of chunks implied by the limit (plus the timing retrievals of the first one)')
BOUNDS = ('1..5 workers, layouts one/each/two/uneven, all limits giving 3..6 vectors per worker and below the minimum, '
          'up to 4 chunks per worker; shares 3..12 (20), 16, 25, 33 with one to three times as many vectors compared to each other; live tracked vector objects counted at every construction')
SLACK = 4
TIMING = 3          # extra retrievals of the first vector of each list, per worker


def share(n, lay, maxv):
    nn = sched.nnodes(n, lay)
    return max(3, maxv * nn // n)


def case_ip(n, lay, nr, nc, maxv, symm=False):
    M = share(n, lay, maxv)

    def judge(res):
        for r, o in enumerate(res.results):
            if o['mvp'] > M:
                return 'limit per worker %d exceeds the share %d' % (o['mvp'], M)
            judge.mx = max(getattr(judge, 'mx', -99), o['live'] - M)
            if o['live'] > M + SLACK:
                return '%d vectors alive on rank %d, share %d' % (o['live'], r, M)
        tot = [sum(o['gets'][i] for o in res.results) for i in range(len(res.results[0]['gets']))]
        rg, cg = tot[:nr], tot[nr:]
        if symm:
            chunks = int(math.ceil(nr / float((M - 1) * n)))
            lim = [(rg, chunks)]
        else:
            a, b = (rg, cg) if nr <= nc else (cg, rg)
            loops = int(math.ceil(math.ceil(len(a) / float(n)) / (M - 1)))
            lim = [(a, 1), (b, loops)]
        for g, m in lim:
            for i, v in enumerate(g):
                if v > m + (TIMING * n if i == 0 else 0):
                    return 'vector %d retrieved %d times, %d chunks (share %d)' % (i, v, m, M)
        return ''
    job = ('mc.scen', 'inner', dict(nr=nr, nc=nc, maxv=maxv, vk='obj', symm=symm))
    p, info = sched.sweep(n, lay, job, judge, sched.VARIANTS[:2])
    info['max_excess'] = judge.mx
    return p, info


def case_lin(n, lay, nb, ns, maxv):
    M = share(n, lay, maxv)

    def judge(res):
        for r, o in enumerate(res.results):
            judge.mx = max(getattr(judge, 'mx', -99), o['live'] - M)
            if o['live'] > M + SLACK:
                return '%d vectors alive on rank %d, share %d' % (o['live'], r, M)
        tot = [sum(o['gets'][i] for o in res.results) for i in range(nb)]
        it = int(math.ceil(math.ceil(ns / float(n)) / (M - 1)))
        for i, v in enumerate(tot):
            if v > it + (TIMING * n if i == 0 else 0):
                return 'basis vector %d retrieved %d times, %d chunks (share %d)' % (i, v, it, M)
        return ''
    job = ('mc.scen', 'lincomb', dict(nb=nb, ns=ns, maxv=maxv, vk='obj', read=False))
    p, info = sched.sweep(n, lay, job, judge, sched.VARIANTS[:2])
    info['max_excess'] = judge.mx
    return p, info


def case_const(n, op, limits, reps, uneven):
    """The temporaries beyond the share: as many for all limits and numbers of vectors as for the smallest ones."""
    ex, k = {}, 0
    for M in limits:
        for rep in reps:
            a, b = rep * M * n, rep * M * n + (1 if uneven else 0)
            if a * b > 12000:
                continue
            job = {'ip': ('inner', dict(nr=a, nc=b)), 'ipT': ('inner', dict(nr=b + 1, nc=a)),
                   'symm': ('inner', dict(nr=b, nc=1, symm=True)), 'lin': ('lincomb', dict(nb=a, ns=b, read=False))}[op]
            mx = []

            def judge(res):
                mx.append(max(o['live'] for o in res.results) - M)
                return ''
            sched.sweep(n, 'one', ('mc.scen', job[0], dict(job[1], maxv=M * n, vk='obj')), judge, sched.VARIANTS[:1])
            ex[M, rep] = max(mx)
            k += 1
    low = max(v for (M, rep), v in ex.items() if M <= 5)
    for (M, rep), v in ex.items():
        if v > low:
            return '%d vectors alive with a share of %d and %d vectors per worker, at most %d more than the share with shares ' \
                'of 3 to 5' % (v + M, M, rep * M, low), {}
    return '', {'states': k}


def case_limit(n, lay, maxv):
    """The limit taken by every parallel object."""
    M = share(n, lay, maxv)

    def judge(res):
        for r, o in enumerate(res.results):
            for k, v in o.items():
                if v > M or v < 3:
                    return '%s holds up to %d vectors on rank %d, share %d' % (k, v, r, M)
        return ''
    return sched.sweep(n, lay, ('mc.scen', 'limits', dict(maxv=maxv)), judge, sched.VARIANTS[:1])


def run(ck):
    q = ck.quick
    ip, lin, lm = [], [], []
    for n in range(1, 5 if q else 7):
        for lay in (['one', 'each', 'two', 'uneven'] if n > 2 else (['one', 'each'] if n == 2 else ['one'])):
            nn = sched.nnodes(n, lay)
            lims = sorted(set([1] + [int(math.ceil(k * n / float(nn))) + d for k in (3, 4, 6) for d in (-1, 0)]))
            for maxv in lims:
                lm.append(dict(n=n, lay=lay, maxv=maxv))
                M = share(n, lay, maxv)
                for a, b in ((1, 1), (M * n, M * n + 1), (2 * M * n, 2 * M * n + 3), (M * n + 1, 3), (2, 3 * M * n)):
                    if a * b > (1200 if q else 4000):
                        continue
                    ip.append(dict(n=n, lay=lay, nr=a, nc=b, maxv=maxv))
                for a in (1, (M - 1) * n, (M - 1) * n + 1, 3 * (M - 1) * n):
                    if a <= (40 if q else 80):
                        ip.append(dict(n=n, lay=lay, nr=a, nc=1, maxv=maxv, symm=True))
                for nb, ns in ((1, 1), (M * n, M * n + 1), (2 * n, 3 * (M - 1) * n), (3 * M * n, 2), (3, (M - 1) * n + 1)):
                    if nb * ns <= (1200 if q else 4000):
                        lin.append(dict(n=n, lay=lay, nb=nb, ns=ns, maxv=maxv))
    f = lambda l: [d for i, d in enumerate(l) if d not in l[:i]]
    ck.domain('limit', f(lm))
    ck.domain('const', [dict(n=n, op=o, limits=list(range(3, 13 if q else 21)) + [16, 25, 33] * (n < 3 or not q), reps=[1, 2, 3], uneven=u) for n in range(1, 4 if q else 6)
                        for o in ('ip', 'ipT', 'symm', 'lin') for u in (False, True)], timeout=300, chunk=1)
    ck.domain('ip', f(ip), timeout=300)
    ck.domain('lin', f(lin), timeout=300)
