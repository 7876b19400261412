"""Check runner: exhaustive case enumeration in parallel, verdicts, evidence."""
import os, sys, json, time, signal, hashlib, traceback, itertools, importlib, multiprocessing as mp
import multiprocessing.connection as mpc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MODRED_REPO', '/repo')
NPROC = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Problem(Exception):
    """A property violation found inside a case."""


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def case_key(fn, args):
    return fn + ' ' + json.dumps(args, sort_keys=True, default=str)


def run_case(mod, fn, args, timeout=120):
    """Runs one case.  Returns (problems, info)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        out = getattr(mod, 'case_' + fn)(**args)
        problems, info = [], {}
        if isinstance(out, tuple):
            out, info = out
        if out:
            problems = [out] if isinstance(out, str) else list(out)
    except CaseTimeout:
        problems, info = ['does not terminate within %d s' % timeout], {}
    except ModelFailure:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if REPO in f.filename]
        loc = where[-1] if where else tb[-1]
        problems = ['raises %s: %s (%s:%s)' % (type(e).__name__, str(e)[:300], os.path.basename(loc.filename), loc.name)]
        info = {'tb': traceback.format_exc()}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return problems, info


class ModelFailure(Exception):
    """The machinery failed; not a verdict."""


def die_with_parent():
    """The kernel ends this process when its parent ends."""
    try:
        import ctypes
        ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def _work(mod, fn, cases, order, counter, chunk, conn, deadline, timeout):
    """Worker: takes chunks of cases until none are left."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    die_with_parent()
    n = len(cases)
    while True:
        with counter.get_lock():
            lo = counter.value
            counter.value = lo + chunk
        if lo >= n:
            break
        res = []
        for j in range(lo, min(n, lo + chunk)):
            i = order[j] if order else j
            if deadline and time.time() > deadline:
                res.append((i, None, None))
                continue
            try:
                p, info = run_case(mod, fn, cases[i], timeout)
            except ModelFailure as e:
                p, info = 'MODELFAILURE ' + str(e), traceback.format_exc()
            res.append((i, p, info))
        conn.send(res)
    conn.send(None)
    conn.close()


def _results(mod, fn, cases, n, chunk, deadline, timeout):
    """Runs all cases in n forked workers, yields (i, problems, info).  The
    workers are killed when the generator is closed."""
    ctx = mp.get_context('fork')
    counter = ctx.Value('l', 0)
    n = min(n, (len(cases) + chunk - 1) // chunk)
    procs, conns = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for _ in range(n):
            r, w = ctx.Pipe(False)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    r.close()
                    for c in conns:
                        c.close()
                    _work(mod, fn, cases, None, counter, chunk, w, deadline, timeout)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            w.close()
            procs.append(pid)
            conns.append(r)
        live = list(conns)
        while live:
            for c in mpc.wait(live):
                try:
                    res = c.recv()
                except (EOFError, OSError):
                    raise ModelFailure('a worker process of %s ended' % fn)
                if res is None:
                    live.remove(c)
                    continue
                for x in res:
                    yield x
    finally:
        for pid in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in procs:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for c in conns:
            c.close()


def load_known():
    """Lines: 'known: property=<id> case=<fn> args=<json subset> what=<text>'
    and 'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:'):
                rest = line[6:].strip()
                pid = rest.split()[0].split('=', 1)[1]
                fn = rest.split(' case=', 1)[1].split(' ', 1)[0]
                js = rest.split(' args=', 1)[1]
                args, end = json.JSONDecoder().raw_decode(js)
                what = js[end:].strip()
                if what.startswith('what='):
                    what = what[5:]
                out.append({'pid': pid, 'fn': fn, 'args': args, 'what': what})
    return out


class Check(object):
    def __init__(self, pid, tier, modname):
        self.pid, self.tier = pid, tier
        self.modname = modname
        self.mod = importlib.import_module(modname)
        self.quick = tier == 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        budget = float(os.environ.get('MC_BUDGET', '0')) or (
            getattr(self.mod, 'QUICK_BUDGET', 240.) if self.quick else getattr(self.mod, 'THOROUGH_BUDGET', 780.))
        self.deadline = self.t0 + budget
        self.violations = []
        self.known_hit = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.exhaustive = True
        self.assumptions = list(getattr(self.mod, 'ASSUMPTIONS', []))
        self.domains = []
        self.known = [k for k in load_known() if k['pid'] == pid]

    # ------------------------------------------------------------------
    def domain(self, fn, cases, timeout=120, chunk=None, max_violations=12, procs=None):
        """Runs case_<fn> on every element of ``cases`` (dicts).  The info dict a
        case returns may carry 'states', 'transitions', 'traces' and any other
        counters, which are summed, and 'distinct' (hashable summary)."""
        cases = list(cases)
        keys = set(case_key(fn, c) for c in cases)
        if len(keys) != len(cases):
            raise ModelFailure('duplicate cases in %s' % fn)
        done = nviol = 0
        distinct = set()
        t0 = time.time()
        rec = {'domain': fn, 'cases': len(cases)}
        sums = {}
        if cases:
            n = procs or NPROC
            chunk = chunk or max(1, min(32, len(cases) // (n * 4)))
            gen = _results(self.mod, fn, cases, n, chunk, self.deadline, timeout)
            try:
                for i, p, info in gen:
                    if p is None:
                        continue
                    if isinstance(p, str):
                        raise ModelFailure(p + '\n' + str(info))
                    done += 1
                    info = info or {}
                    for k, v in info.items():
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, (int, float)):
                            if k.startswith('max_'):
                                sums[k] = max(sums.get(k, 0), v)
                            else:
                                sums[k] = sums.get(k, 0) + v
                    if 'distinct' in info:
                        d = info['distinct']
                        distinct.update(d if isinstance(d, (list, set)) else [d])
                    if info.get('complete') is False:
                        self.exhaustive = False
                    if len(self.samples) < 24 and (done % max(1, len(cases) // 4) == 1):
                        self.samples.append({'case': fn, 'args': cases[i],
                                             'outcome': info.get('outcome', 'holds' if not p else p[0][:200])})
                    for msg in p:
                        nviol += self.report(fn, cases[i], msg, info)
                    if nviol >= max_violations:
                        break
            finally:
                gen.close()
        if done < len(cases) and nviol < max_violations:
            self.exhaustive = False
        self.states += int(sums.pop('states', 0)) or done
        self.transitions += int(sums.pop('transitions', 0)) or done
        self.traces += int(sums.pop('traces', 0)) or done
        rec.update({'completed': done, 'wall_s': round(time.time() - t0, 2)})
        if distinct:
            rec['distinct_outcomes'] = len(distinct)
        for k, v in sums.items():
            rec[k] = round(v, 6) if isinstance(v, float) else v
        self.domains.append(rec)
        return rec

    def report(self, fn, args, msg, info=None):
        for k in self.known:
            if k['fn'] == fn and all(json.dumps(args.get(a), default=str) == json.dumps(v) for a, v in k['args'].items()):
                self.known_hit.setdefault(k['what'], 0)
                self.known_hit[k['what']] += 1
                return 0
        self.violations.append({'case': fn, 'args': args, 'problem': msg,
                                'detail': {a: b for a, b in (info or {}).items() if a in ('tb', 'schedule', 'trace')}})
        return 1

    # ------------------------------------------------------------------
    def finish(self):
        cov = {'states': int(self.states), 'transitions': int(self.transitions),
               'traces_validated_against_impl': int(self.traces),
               'samples': self.samples[:24], 'domains': self.domains,
               'exhaustive': bool(self.exhaustive and not self.violations),
               'bounds': getattr(self.mod, 'BOUNDS', ''),
               'rule': getattr(self.mod, 'RULE', '')}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        tmp = path + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, path)
        for what, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for d in self.domains:
            print('  %s' % json.dumps(d))
        if not self.violations:
            print('OK property=%s tier=%s states=%d transitions=%d exhaustive=%s %.1fs' % (
                self.pid, self.tier, self.states, self.transitions, cov['exhaustive'], ev['wall_s']))
            return 0
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        # simplest case first
        self.violations.sort(key=lambda v: len(json.dumps(v['args'], default=str)))
        v = self.violations[0]
        h = hashlib.sha1(case_key(v['case'], v['args']).encode()).hexdigest()[:10]
        rp = os.path.join(rd, '%s-%s.json' % (self.pid, h))
        with open(rp, 'w') as f:
            json.dump({'property': self.pid, 'module': self.modname, 'case': v['case'],
                       'args': v['args'], 'problem': v['problem'], 'detail': v['detail'],
                       'others': [{k: w[k] for k in ('case', 'args', 'problem')} for w in self.violations[1:10]]},
                      f, indent=1, default=str)
        for w in self.violations[:5]:
            print('  %s %s: %s' % (w['case'], json.dumps(w['args'], default=str)[:300], w['problem'][:400]))
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1


def grid(**kw):
    """Cartesian product of named lists, as dicts (first name varies slowest)."""
    names = list(kw)
    for vals in itertools.product(*(kw[n] for n in names)):
        yield dict(zip(names, vals))


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    if not os.path.isdir(os.path.join(REPO, 'modred')):
        print('no modred in %s' % REPO)
        return 2
    modname = 'checks.' + pid
    import tempfile, shutil
    top = tempfile.mkdtemp(prefix='mc_%s_' % pid, dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['MC_SCRATCH'] = top
    try:
        ck = Check(pid, tier, modname)
        try:
            ck.mod.run(ck)
        except ModelFailure:
            traceback.print_exc()
            return 2
        return ck.finish()
    finally:
        shutil.rmtree(top, ignore_errors=True)


_SCRATCH = [None, None]


def scratch():
    """A scratch directory of this process, removed by the check when it ends."""
    import tempfile
    if _SCRATCH[0] != os.getpid():
        top = os.environ.get('MC_SCRATCH')
        if not top or not os.path.isdir(top):
            top = None
        d = tempfile.mkdtemp(prefix='mc_', dir=top)
        if top is None:
            import atexit, shutil
            atexit.register(shutil.rmtree, d, True)
        _SCRATCH[:] = [os.getpid(), d]
    return _SCRATCH[1]
