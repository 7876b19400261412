"""Validates the simulator on programs with known behaviour (run by setup)."""
import os, sys, math, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import simmpi


def main():
    fails = []

    def chk(name, cond, info=''):
        if not cond:
            fails.append(name)
            print('FAIL', name, info)
    c = simmpi.Cluster(3)
    c2 = simmpi.Cluster(2)
    J = lambda f, **k: ('mc.scen_self', f, k)
    sync = lambda i: True
    for m in (None, sync):
        for strong in (False, True):
            r = c.run(J('ring_ok'), modes=m, strong=strong)
            chk('ring', r.status == 'ok' and r.results == [('v', 2), ('v', 0), ('v', 1)] and not r.leftover, r.status)
    chk('hh-buffered', c.run(J('head_to_head')).status == 'ok')
    chk('hh-sync', c.run(J('head_to_head'), modes=sync).status == 'deadlock')
    chk('hh-one', c.run(J('head_to_head'), modes=lambda i: i != 1).status == 'ok')
    chk('wbr', c.run(J('wait_before_recv'), modes=sync).status == 'deadlock')
    chk('wbr-b', c.run(J('wait_before_recv')).status == 'ok')
    chk('stray', bool(c.run(J('stray')).leftover))
    r = c.run(J('race', sync=True)); chk('norace', r.status == 'ok' and not r.races and r.results == [b'1'] * 3)
    r = c.run(J('race', sync=False)); chk('race', bool(r.races))
    outs = set()
    st = simmpi.explore_dpor(c, J('race', sync=False), lambda r, ch: outs.add(tuple(r.results)) and None)
    chk('race-outs', len(outs) == 4 and st['complete'], (outs, st))
    r = c.run(J('race_bcast')); chk('race-bcast', bool(r.races))
    outs = set()
    st = simmpi.explore_dpor(c, J('wildcard'), lambda r, ch: outs.add(tuple(r.results[0])) and None)
    st = simmpi.explore_dpor(c, J('wildcard'), lambda r, ch: outs.add(tuple(r.results[0])) and None)
    chk('wildcard', outs == {(1, 2), (2, 1)}, (outs, st))
    c.wild = False
    chk('mismatch', c.run(J('mismatch')).status == 'mismatch')
    r = c.run(J('colls'))
    exp = [[[0, 1, 2], 'a', [0, 1, 4] if k == 0 else None, 10 + k, 6, 3 if k == 1 else None,
            [1, 3, 6][k], [None, 1, 3][k], (-2, 2), [(j, k) for j in range(3)], (k - 1) % 3, [3., 3.]]
           for k in range(3)]
    chk('colls', r.status == 'ok' and r.results == exp, (r.status, r.detail, r.results))
    # counting: 2 ranks x 2 independent steps -> C(4,2)=6 interleavings unbounded, DPOR 1
    st = simmpi.explore_bounded(c2, J('twocells'), lambda r, ch: None, 99)
    chk('count6', st['schedules'] == 6, st)
    st = simmpi.explore_bounded(c2, J('twocells'), lambda r, ch: None, 0)
    chk('count2', st['schedules'] == 2, st)
    st = simmpi.explore_dpor(c2, J('twocells'), lambda r, ch: None)
    chk('dpor1', st['schedules'] == 1, st)
    for ex in ('dpor', 'bounded'):
        outs = set()
        f = lambda r, ch: outs.add(r.store['n']) and None
        st = simmpi.explore_dpor(c, J('lost_update'), f) if ex == 'dpor' else \
            simmpi.explore_bounded(c, J('lost_update'), f, 99)
        chk('lost-' + ex, outs == {b'1', b'2', b'3'}, (outs, st))
    simmpi.Cluster.STEP_LIMIT = 2000
    chk('spin', c.run(J('spin')).status == 'livelock')
    simmpi.Cluster.STEP_LIMIT = 200000
    c.wild = False
    r = c.run(J('fail_one')); chk('fail', r.status == 'error' and r.errors[1][0] == 'ValueError', r.errors)
    chk('after', c.run(J('ring_ok')).status == 'ok')
    t = time.time(); n = 0
    for _ in range(50):
        n += len(c.run(J('colls')).steps)
    print('simulator selftest: %s, %.0f steps/s' % ('FAILED %s' % fails if fails else 'ok', n / (time.time() - t)))
    c.close(); c2.close()
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
