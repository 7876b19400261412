"""Engine S: run real modred code on N simulated MPI ranks under a controlled
scheduler.

One OS process per rank.  Every communication call and every access to a shared
store cell is a request to the controller, which decides who proceeds.  Exactly
one rank computes at any time, so an execution is a function of the sequence of
choices the controller makes.
"""
import os, sys, pickle, struct, socket, select, signal, traceback, itertools, time as _time

from .core import die_with_parent

REPO = os.environ.get('MODRED_REPO', '/repo')
ANY = -1
_HDR = struct.Struct('<I')


# --------------------------------------------------------------------------
# worker side
# --------------------------------------------------------------------------
class Abort(BaseException):
    """Raised inside a rank when the controller ends an execution early."""


class _Chan(object):
    def __init__(self, sock):
        self.s = sock

    def send(self, obj):
        b = pickle.dumps(obj, 4)
        self.s.sendall(_HDR.pack(len(b)) + b)

    def _read(self, n):
        parts = []
        while n:
            b = self.s.recv(min(n, 1 << 20))
            if not b:
                raise EOFError
            parts.append(b)
            n -= len(b)
        return b''.join(parts)

    def recv(self):
        n, = _HDR.unpack(self._read(4))
        return pickle.loads(self._read(n))


class RankCtx(object):
    """Worker-side endpoint."""
    def __init__(self, rank, size, chan):
        self.rank, self.size, self.chan = rank, size, chan
        self.free = False      # True: outside an execution (import phase)

    def call(self, *op):
        self.chan.send(op)
        ok, val = self.chan.recv()
        if ok == 'abort':
            raise Abort(val)
        if ok == 'err':
            raise RuntimeError(val)
        return val


CTX = None


class Status(object):
    def __init__(self):
        self.source = ANY
        self.tag = ANY

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Op(object):
    def __init__(self, name, fn, loc=False):
        self.name, self.fn, self.loc = name, fn, loc

    def __call__(self, x, y):
        return self.fn(x, y)

    def Is_commutative(self):
        return True

    def __eq__(self, o):
        return isinstance(o, Op) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


def _loc(cmp):
    # MPI semantics of MINLOC / MAXLOC on (value, location): best value, lowest
    # location among equals -- as mpi4py implements it on Python objects.
    def f(x, y):
        u, i = x
        v, j = y
        if u == v:
            return (u, min(i, j))
        return (u, i) if cmp(u, v) else (v, j)
    return f


SUM = Op('SUM', lambda x, y: x + y)
PROD = Op('PROD', lambda x, y: x * y)
MAX = Op('MAX', lambda x, y: y if y > x else x)
MIN = Op('MIN', lambda x, y: y if y < x else x)
LAND = Op('LAND', lambda x, y: bool(x) & bool(y))
LOR = Op('LOR', lambda x, y: bool(x) | bool(y))
BAND = Op('BAND', lambda x, y: x & y)
BOR = Op('BOR', lambda x, y: x | y)
BXOR = Op('BXOR', lambda x, y: x ^ y)
MINLOC = Op('MINLOC', _loc(lambda a, b: a < b), True)
MAXLOC = Op('MAXLOC', _loc(lambda a, b: a > b), True)


class Request(object):
    def __init__(self, rid=None):
        self.rid = rid

    def wait(self, status=None):
        return _wait(self.rid, status)

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        flag, val = CTX.call('test', self.rid)
        if not flag:
            return (False, None)
        return (True, _dec(val, status))

    def Test(self, status=None):
        return self.test(status)[0]

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    def Free(self):
        CTX.call('reqfree', self.rid)

    def free(self):
        self.Free()

    def Cancel(self):
        pass


def _dec(val, status):
    if val is None:
        return None
    src, tag, data = val
    if status is not None:
        status.source, status.tag = src, tag
    return pickle.loads(data)


def _wait(rid, status=None):
    if rid is None:
        return None
    return _dec(CTX.call('wait', rid), status)


def _fold(vals, op):
    acc = vals[0]
    for v in vals[1:]:
        acc = op(acc, v)
    return acc


class Comm(object):
    cid = 0

    def __new__(cls, comm=None):
        o = object.__new__(cls)
        if comm is not None:
            o.cid = comm.cid
        return o

    # -- info
    def Get_size(self):
        return CTX.size

    def Get_rank(self):
        return CTX.rank
    size = property(lambda self: CTX.size)
    rank = property(lambda self: CTX.rank)
    name = property(lambda self: 'SIM')

    def Get_name(self):
        return 'SIM'

    def Get_attr(self, key):
        return 268435455 if key == TAG_UB else None

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    def Dup(self, info=None):
        c = Comm.__new__(type(self))
        c.cid = CTX.call('dup', self.cid)
        return c
    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=0):
        CTX.call('mpiabort', code)

    def __eq__(self, o):
        return isinstance(o, Comm) and o.cid == self.cid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.cid)

    # -- point to point, objects
    def _post(self, kind, obj, dest, tag):
        return CTX.call('send', kind, self.cid, dest, tag, pickle.dumps(obj, 4))

    def send(self, obj, dest, tag=0):
        self._post('send', obj, dest, tag)

    def ssend(self, obj, dest, tag=0):
        self._post('ssend', obj, dest, tag)

    def bsend(self, obj, dest, tag=0):
        self._post('bsend', obj, dest, tag)

    def isend(self, obj, dest, tag=0):
        return Request(self._post('isend', obj, dest, tag))

    def issend(self, obj, dest, tag=0):
        return Request(self._post('issend', obj, dest, tag))

    def ibsend(self, obj, dest, tag=0):
        return Request(self._post('ibsend', obj, dest, tag))

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        return _dec(CTX.call('recv', self.cid, source, tag), status)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(CTX.call('irecv', self.cid, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY,
                 recvtag=ANY, status=None):
        # MPI: as if send and receive were posted concurrently
        r = CTX.call('irecv', self.cid, source, recvtag)
        s = self._post('isend', sendobj, dest, sendtag)
        out = _wait(r, status)
        _wait(s)
        return out

    def probe(self, source=ANY, tag=ANY, status=None):
        src, t = CTX.call('probe', self.cid, source, tag)
        if status is not None:
            status.source, status.tag = src, t
        return True

    def iprobe(self, source=ANY, tag=ANY, status=None):
        return CTX.call('iprobe', self.cid, source, tag)

    # -- collectives, objects
    def _coll(self, name, root=None, obj=None):
        return CTX.call('coll', name, self.cid, root, pickle.dumps(obj, 4))

    def barrier(self):
        self._coll('barrier')
    Barrier = barrier

    def ibarrier(self):
        raise NotImplementedError('ibarrier')

    def bcast(self, obj=None, root=0):
        return pickle.loads(self._coll('bcast', root, obj if CTX.rank == root else None)[0])

    def gather(self, sendobj, recvobj=None, root=0):
        r = self._coll('gather', root, sendobj)
        return [pickle.loads(x) for x in r] if CTX.rank == root else None

    def scatter(self, sendobj=None, recvobj=None, root=0):
        if CTX.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != CTX.size:
                raise ValueError('expecting %d items' % CTX.size)
        return pickle.loads(self._coll('scatter', root, sendobj)[0])[CTX.rank]

    def allgather(self, sendobj, recvobj=None):
        return [pickle.loads(x) for x in self._coll('allgather', None, sendobj)]

    def alltoall(self, sendobj, recvobj=None):
        r = self._coll('allgather', None, list(sendobj))
        return [pickle.loads(x)[CTX.rank] for x in r]

    def reduce(self, sendobj, recvobj=None, op=SUM, root=0):
        if op.loc if isinstance(op, Op) else False:
            sendobj = (sendobj, CTX.rank)
        r = self._coll('gather', root, sendobj)
        return _fold([pickle.loads(x) for x in r], op) if CTX.rank == root else None

    def allreduce(self, sendobj, recvobj=None, op=SUM):
        if op.loc if isinstance(op, Op) else False:
            sendobj = (sendobj, CTX.rank)
        return _fold([pickle.loads(x) for x in self._coll('allgather', None, sendobj)], op)

    def scan(self, sendobj, recvobj=None, op=SUM):
        r = self._coll('scan', None, sendobj)
        return _fold([pickle.loads(x) for x in r[:CTX.rank + 1]], op)

    def exscan(self, sendobj, recvobj=None, op=SUM):
        r = self._coll('scan', None, sendobj)
        return _fold([pickle.loads(x) for x in r[:CTX.rank]], op) if CTX.rank else None

    # -- buffer variants (numpy arrays)
    @staticmethod
    def _buf(b):
        import numpy as np
        if isinstance(b, (list, tuple)):
            b = b[0]
        return np.asarray(b)

    @staticmethod
    def _fill(dst, src):
        d = Comm._buf(dst)
        d.reshape(-1)[:src.size] = src.reshape(-1)

    def Send(self, buf, dest, tag=0):
        self.send(self._buf(buf), dest, tag)

    def Ssend(self, buf, dest, tag=0):
        self.ssend(self._buf(buf), dest, tag)

    def Isend(self, buf, dest, tag=0):
        return self.isend(self._buf(buf), dest, tag)

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        self._fill(buf, self.recv(None, source, tag, status))

    def Irecv(self, buf, source=ANY, tag=ANY):
        outer = self
        inner = self.irecv(None, source, tag)

        class _R(Request):
            def wait(s, status=None):
                outer._fill(buf, inner.wait(status))
        return _R(None)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY,
                 recvtag=ANY, status=None):
        self._fill(recvbuf, self.sendrecv(
            self._buf(sendbuf), dest, sendtag, None, source, recvtag, status))

    def Bcast(self, buf, root=0):
        self._fill(buf, self.bcast(self._buf(buf), root))

    def _inplace(self, sendbuf, recvbuf):
        return self._buf(recvbuf) if sendbuf is IN_PLACE else self._buf(sendbuf)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._fill(recvbuf, Comm.allreduce(self, self._inplace(sendbuf, recvbuf), op=op))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        v = Comm.reduce(self, self._inplace(sendbuf, recvbuf), op=op, root=root)
        if CTX.rank == root:
            self._fill(recvbuf, v)

    def Allgather(self, sendbuf, recvbuf):
        import numpy as np
        self._fill(recvbuf, np.array(self.allgather(self._buf(sendbuf))))

    def Gather(self, sendbuf, recvbuf, root=0):
        import numpy as np
        v = self.gather(self._buf(sendbuf), root=root)
        if CTX.rank == root:
            self._fill(recvbuf, np.array(v))


class Intracomm(Comm):
    pass


TAG_UB = 7001
IN_PLACE = object()


def make_fake_modules():
    import types
    MPI = types.ModuleType('mpi4py.MPI')
    g = globals()
    for n in ('SUM PROD MAX MIN LAND LOR BAND BOR BXOR MINLOC MAXLOC Op Status '
              'Request Comm Intracomm TAG_UB IN_PLACE').split():
        setattr(MPI, n, g[n])
    MPI.ANY_SOURCE = ANY
    MPI.ANY_TAG = ANY
    MPI.PROC_NULL = -2
    MPI.COMM_WORLD = Intracomm()
    MPI.COMM_SELF = None
    MPI.Wtime = lambda: _time.time()
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Get_processor_name = lambda: socket.gethostname()
    MPI.THREAD_MULTIPLE = 3
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.MPI = MPI
    pkg.__version__ = '0-sim'
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = MPI


class Clock(object):
    """All clocks of a rank.  policy: ('const',) | ('jump',) | ('bits', seq)
    where every reading advances by 1000 s times the next number."""
    def __init__(self):
        self.now, self.policy, self.n = 1.0e9, ('const',), 0

    def set(self, policy):
        self.now, self.policy, self.n = 1.0e9, tuple(policy), 0

    def __call__(self):
        p = self.policy
        if p[0] == 'jump':
            self.now += 1000.
        elif p[0] == 'back':
            self.now += 1000. if self.n % 3 != 2 else -2500.
        elif p[0] == 'bits':
            bits = p[1]
            if bits:
                self.now += 1000. * bits[self.n % len(bits)]
        self.n += 1
        return self.now


CLOCK = Clock()


def _worker_main(rank, size, hosts, sock, quiet=True):
    global CTX
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.dont_write_bytecode = True
    chan = _Chan(sock)
    CTX = RankCtx(rank, size, chan)
    if quiet:
        dn = os.open('/dev/null', os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = open('/dev/null', 'w')
        sys.stderr = open('/dev/null', 'w')
    try:
        make_fake_modules()
        socket.gethostname = lambda: hosts[rank]
        import platform
        platform.node = lambda: hosts[rank]
        for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
            setattr(_time, n, CLOCK)
            setattr(_time, n + '_ns', lambda: int(CLOCK() * 1e9))
        import timeit
        timeit.default_timer = CLOCK
        for k in [k for k in sys.modules if k == 'modred' or k.startswith('modred.')]:
            del sys.modules[k]
        if REPO in sys.path:
            sys.path.remove(REPO)
        sys.path.insert(0, REPO)
        import modred                                    # noqa
        import modred.parallel, modred.vectors
        res = ('done', modred.__file__)
    except Abort:
        res = ('error', 'Abort', 'aborted during import', '')
    except BaseException as e:
        res = ('error', type(e).__name__, str(e), traceback.format_exc())
    chan.send(res)
    while True:
        try:
            job = chan.recv()
        except EOFError:
            os._exit(0)
        mod, fn, kwargs, clock = job
        try:
            CLOCK.set(clock)
            modred.vectors.VecHandle.cached_base_vec_handle = None
            modred.vectors.VecHandle.cached_base_vec = None
            m = __import__(mod, fromlist=['x'])
            out = getattr(m, fn)(CTX, **kwargs)
            res = ('done', out)
        except Abort as e:
            res = ('error', 'Abort', str(e), '')
        except BaseException as e:
            res = ('error', type(e).__name__, str(e), traceback.format_exc())
        try:
            chan.send(res)
        except Exception as e:                      # unpicklable result
            chan.send(('error', 'Unpicklable', repr(e), ''))


# --------------------------------------------------------------------------
# controller side
# --------------------------------------------------------------------------
class ModelError(Exception):
    """The machinery itself failed (never a verdict on the code)."""


class Msg(object):
    __slots__ = ('src', 'dst', 'tag', 'cid', 'data', 'sync', 'matched', 'clk', 'seq', 'rid')


class Req(object):
    __slots__ = ('kind', 'owner', 'msg', 'done', 'cid', 'src', 'tag')


class Step(object):
    __slots__ = ('rank', 'op', 'acc', 'clk', 'pre', 'enabled')


class Result(object):
    """Outcome of one execution."""
    def __init__(self):
        self.status = None          # ok | error | deadlock | hang | livelock | mismatch
        self.detail = ''
        self.results = None         # per rank value (status ok)
        self.errors = None          # per rank (type, msg, tb) or None
        self.steps = []
        self.puts = []              # (rank, key, bytes)
        self.events = []            # (rank, kind, key) all store operations in order
        self.store = {}
        self.races = []
        self.leftover = []
        self.nsends = 0
        self.wild = False

    def key(self):
        return (self.status, self.detail)


class Cluster(object):
    """N persistent ranks."""
    STEP_LIMIT = 200000

    def __init__(self, size, hosts=None, hang_timeout=60.):
        self.size = size
        self.hosts = list(hosts) if hosts else ['node0'] * size
        self.hang_timeout = hang_timeout
        self.procs = []
        self.alive = False
        self.wild = False
        self.start()

    def start(self):
        self.chans, self.socks, self.procs = [], [], []
        pairs = [socket.socketpair() for _ in range(self.size)]
        sys.stdout.flush()
        sys.stderr.flush()
        for r in range(self.size):
            pid = os.fork()
            if pid == 0:
                try:
                    die_with_parent()
                    for i, (a, b) in enumerate(pairs):
                        a.close()
                        if i != r:
                            b.close()
                    _worker_main(r, self.size, self.hosts, pairs[r][1])
                finally:
                    os._exit(1)
            self.procs.append(pid)
        for a, b in pairs:
            b.close()
            self.chans.append(_Chan(a))
            self.socks.append(a)
        self.alive = True
        ex = Execution(self, None)
        self.import_result = ex.run()
        if self.import_result.status != 'ok':
            r = self.import_result
            self.close()
            raise ImportFailed(r)
        f = self.import_result.results[0]
        if not os.path.abspath(f).startswith(os.path.abspath(REPO) + os.sep):
            raise ModelError('modred imported from %s' % f)

    def close(self):
        for s in self.socks:
            try:
                s.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        self.procs = []
        self.alive = False

    def run(self, job, **kw):
        """job = (module, function, kwargs[, clock policies per rank])"""
        if not self.alive:
            self.start()
        return Execution(self, job, **kw).run()


class ImportFailed(Exception):
    def __init__(self, res):
        Exception.__init__(self, '%s %s' % (res.status, res.detail))
        self.res = res


def _vmax(a, b):
    return tuple(x if x > y else y for x, y in zip(a, b))


class Execution(object):
    """One run.  ``chooser(ex, enabled, last)`` picks the rank to move (None:
    default policy).  ``modes(i)`` tells whether the i-th posted standard-mode
    send is synchronous.  ``strong`` makes all collectives synchronising."""

    def __init__(self, cluster, job, chooser=None, modes=None, strong=False,
                 store=None, prefer='low'):
        self.c = cluster
        self.n = cluster.size
        self.job = job
        self.chooser = chooser
        self.modes = modes or (lambda i: False)
        self.strong = strong
        self.prefer = prefer
        self.res = Result()
        if store:
            self.res.store.update(store)
        self.res.wild = cluster.wild

    # -- channel helpers
    def _recv_from(self, r):
        s = self.c.socks[r]
        rd, _, _ = select.select([s], [], [], self.c.hang_timeout)
        if not rd:
            raise TimeoutError(r)
        return self.c.chans[r].recv()

    def run(self):
        n = self.n
        R = self.res
        self.pending = [None] * n
        self.finished = [None] * n
        self.clk = [tuple(1 if i == j else 0 for j in range(n)) for i in range(n)]
        self.mail = {}            # (cid, dst) -> list of unmatched Msg in arrival order
        self.posted = {}          # (cid, dst) -> list of unmatched recv Req
        self.reqs = {}
        self.nreq = 0
        self.coll = {}            # (cid, seq) -> dict
        self.collseq = {}         # (rank, cid) -> next index
        self.collof = [None] * n
        self.dups = {}
        self.access = {}          # obj -> list of (step index, rank, is_write, clk)
        self.blocked_sync = {}    # rank -> Msg (blocking send waiting for match)
        self.nsend = 0
        self.seq = 0
        try:
            if self.job is not None:
                mod, fn, kwargs = self.job[:3]
                clocks = self.job[3] if len(self.job) > 3 else [('const',)] * n
                for r in range(n):
                    self.c.chans[r].send((mod, fn, kwargs, clocks[r]))
            for r in range(n):
                self._incoming(r, self._recv_from(r))
            last = None
            while True:
                if R.status == 'mismatch':
                    break
                enabled = [r for r in range(n) if self.pending[r] is not None and self._enabled(r)]
                if not enabled:
                    break
                if self.chooser is not None:
                    r = self.chooser(self, enabled, last)
                    if r not in enabled:
                        raise ModelError('replay diverged: rank %r not enabled in %r' % (r, enabled))
                elif last in enabled:
                    r = last
                else:
                    r = enabled[0] if self.prefer == 'low' else enabled[-1]
                last = r
                self._execute(r, enabled)
                if len(R.steps) > self.c.STEP_LIMIT:
                    R.status = 'livelock'
                    R.detail = 'step limit'
                    break
        except TimeoutError as e:
            R.status = 'hang'
            R.detail = 'rank %s does not reach its next operation' % e
            self.c.close()
            return R
        except EOFError:
            R.status = 'error'
            R.detail = 'a rank process died'
            R.errors = [('Died', '', '')] * n
            self.c.close()
            return R
        self._finish()
        return R

    def _finish(self):
        R, n = self.res, self.n
        if R.status is None:
            unfinished = [r for r in range(n) if self.finished[r] is None]
            errs = [f if f and f[0] == 'error' else None for f in self.finished]
            if any(errs):
                R.status = 'error'
                i = [k for k in range(n) if errs[k]][0]
                R.detail = 'rank %d: %s: %s' % (i, errs[i][1], errs[i][2])
                if unfinished:
                    R.detail += ' (ranks %s left waiting)' % unfinished
            elif unfinished:
                R.status = 'deadlock'
                R.detail = '; '.join('rank %d blocked in %s' % (r, self._opname(r)) for r in unfinished)
            else:
                R.status = 'ok'
        R.errors = [tuple(f[1:]) if f and f[0] == 'error' else None for f in self.finished]
        for r in range(n):
            if self.finished[r] is None:
                # unwind
                try:
                    while self.finished[r] is None:
                        self.c.chans[r].send(('abort', 'execution ended: %s' % R.status))
                        self._incoming(r, self._recv_from(r), True)
                except (TimeoutError, EOFError, OSError):
                    self.c.close()
                    break
        if R.status == 'ok':
            R.results = [f[1] for f in self.finished]
            for (cid, dst), l in self.mail.items():
                for m in l:
                    R.leftover.append('message %d->%d tag %d never received' % (m.src, m.dst, m.tag))
            for (cid, dst), l in self.posted.items():
                for q in l:
                    R.leftover.append('receive posted by %d never matched' % dst)
            for rid, q in self.reqs.items():
                if not q.done:
                    R.leftover.append('request of rank %d never completed (%s)' % (q.owner, q.kind))

    def _opname(self, r):
        op = self.pending[r]
        if op is None:
            return 'synchronous send' if r in self.blocked_sync else '?'
        if op[0] == 'coll':
            return op[1]
        if op[0] in ('recv', 'irecv'):
            return '%s(source=%s, tag=%s)' % (op[0], op[2], op[3])
        if op[0] == 'wait':
            q = self.reqs.get(op[1])
            return 'wait for %s' % (q.kind if q else '?')
        return op[0]

    # -- requests arriving
    def _incoming(self, r, msg, unwinding=False):
        if msg[0] in ('done', 'error'):
            self.finished[r] = msg
            self.pending[r] = None
            return
        if unwinding:
            return
        self.pending[r] = msg
        if msg[0] == 'coll':
            _, name, cid, root, data = msg
            k = self.collseq.get((r, cid), 0)
            self.collseq[(r, cid)] = k + 1
            d = self.coll.setdefault((cid, k), {'name': name, 'root': root, 'in': {}, 'clk': {}, 'out': 0})
            if d['name'] != name or d['root'] != root:
                self.res.status = 'mismatch'
                self.res.detail = 'rank %d calls %s(root=%s) where others call %s(root=%s)' % (
                    r, name, root, d['name'], d['root'])
            d['in'][r] = data
            d['clk'][r] = self.clk[r]
            self.collof[r] = (cid, k)

    # -- enabledness
    def _match(self, cid, dst, src, tag):
        """First matching unmatched message of each source, in order."""
        out, seen = [], set()
        for m in self.mail.get((cid, dst), ()):
            if src not in (ANY, m.src) or tag not in (ANY, m.tag) or m.src in seen:
                continue
            seen.add(m.src)
            out.append(m)
        return out

    def _enabled(self, r):
        op = self.pending[r]
        k = op[0]
        if r in self.blocked_sync:
            return self.blocked_sync[r].matched
        if k == 'recv':
            return bool(self._match(op[1], r, op[2], op[3]))
        if k == 'probe':
            return bool(self._match(op[1], r, op[2], op[3]))
        if k == 'wait':
            q = self.reqs.get(op[1])
            return q is None or self._reqdone(q)
        if k == 'coll':
            d = self.coll[self.collof[r]]
            name, root, inn = d['name'], d['root'], d['in']
            if self.strong or name in ('barrier', 'allgather'):
                return len(inn) == self.n
            if name in ('bcast', 'scatter'):
                return r == root or root in inn
            if name == 'gather':
                return r != root or len(inn) == self.n
            if name == 'scan':
                return all(i in inn for i in range(r + 1))
            raise ModelError(name)
        return True

    def _reqdone(self, q):
        if q.done:
            return True
        if q.kind in ('isend', 'issend', 'ibsend'):
            return (not q.msg.sync) or q.msg.matched
        return q.msg is not None

    # -- executing one step
    def _reply(self, r, val):
        self.pending[r] = None
        self.c.chans[r].send(('ok', val))
        self._incoming(r, self._recv_from(r))

    def _execute(self, r, enabled):
        op = self.pending[r]
        st = Step()
        st.rank = r
        st.enabled = enabled
        st.pre = self.clk[r]
        st.acc = ()
        k = op[0]
        st.op = op[:2] if k in ('coll', 'get', 'put', 'putarr', 'getarr', 'event') else op[:1]
        self.clk[r] = tuple(v + 1 if i == r else v for i, v in enumerate(self.clk[r]))
        R = self.res
        R.steps.append(st)
        val = None
        reply = True
        if k == 'send':
            _, kind, cid, dst, tag, data = op
            if r in self.blocked_sync:           # second half of a synchronous send
                self.clk[r] = _vmax(self.clk[r], self.blocked_sync[r].clk)
                del self.blocked_sync[r]
                st.op = ('send-complete',)
            elif dst == -2:
                val = None
            else:
                if not 0 <= dst < self.n:
                    self.pending[r] = None
                    self.c.chans[r].send(('err', 'invalid destination rank %s' % dst))
                    self._incoming(r, self._recv_from(r))
                    return
                m = Msg()
                m.src, m.dst, m.tag, m.cid, m.data = r, dst, tag, cid, data
                m.matched = False
                m.clk = self.clk[r]
                if kind in ('ssend', 'issend'):
                    m.sync = True
                elif kind in ('bsend', 'ibsend'):
                    m.sync = False
                else:
                    m.sync = bool(self.modes(self.nsend))
                    self.nsend += 1
                    R.nsends = self.nsend
                st.acc = ((('mbox', dst), True),) if R.wild else ()
                rid = None
                if kind[0] == 'i':
                    q = Req()
                    q.kind, q.owner, q.msg, q.done = kind, r, m, False
                    rid = self._newreq(q)
                # match a posted receive first
                for q in self.posted.get((cid, dst), ()):
                    if q.src in (ANY, r) and q.tag in (ANY, tag):
                        q.msg = m
                        m.matched = True
                        m.clk = _vmax(m.clk, self.clk[dst])
                        self.posted[(cid, dst)].remove(q)
                        break
                else:
                    self.mail.setdefault((cid, dst), []).append(m)
                val = rid
                if kind in ('send', 'ssend') and m.sync and not m.matched:
                    self.blocked_sync[r] = m
                    reply = False
        elif k in ('recv', 'irecv'):
            _, cid, src, tag = op
            if src == ANY:
                self._wild()
                st.acc = ((('mbox', r), True),)
            ms = self._match(cid, r, src, tag)
            m = ms[0] if ms else None
            if m is not None:
                self.mail[(cid, r)].remove(m)
                m.matched = True
            if k == 'recv':
                self.clk[r] = _vmax(self.clk[r], m.clk)
                m.clk = self.clk[r]
                val = (m.src, m.tag, m.data)
            else:
                q = Req()
                q.kind, q.owner, q.msg, q.done = 'irecv', r, m, False
                q.src, q.tag, q.cid = src, tag, cid
                if m is None:
                    self.posted.setdefault((cid, r), []).append(q)
                else:
                    m.clk = _vmax(m.clk, self.clk[r])
                val = self._newreq(q)
        elif k in ('wait', 'test'):
            q = self.reqs.get(op[1])
            if k == 'test':
                self._wild()
                st.acc = ((('mbox', r), True),)
            if q is None:
                val = None if k == 'wait' else (True, None)
            elif k == 'test' and not self._reqdone(q):
                val = (False, None)
            else:
                q.done = True
                v = None
                if q.kind == 'irecv':
                    self.clk[r] = _vmax(self.clk[r], q.msg.clk)
                    v = (q.msg.src, q.msg.tag, q.msg.data)
                elif q.msg.sync:
                    self.clk[r] = _vmax(self.clk[r], q.msg.clk)
                del self.reqs[op[1]]
                val = v if k == 'wait' else (True, v)
        elif k == 'reqfree':
            q = self.reqs.pop(op[1], None)
        elif k in ('probe', 'iprobe'):
            self._wild()
            st.acc = ((('mbox', r), False),)
            ms = self._match(op[1], r, op[2], op[3])
            val = (ms[0].src, ms[0].tag) if k == 'probe' else bool(ms)
        elif k == 'coll':
            key = self.collof[r]
            d = self.coll[key]
            name, root = d['name'], d['root']
            if name == 'barrier':
                val, src = None, range(self.n)
            elif name == 'allgather':
                val, src = [d['in'][i] for i in range(self.n)], range(self.n)
            elif name in ('bcast', 'scatter'):
                val, src = [d['in'][root]], [root]
            elif name == 'gather':
                src = range(self.n) if r == root else []
                val = [d['in'][i] for i in range(self.n)] if r == root else None
            elif name == 'scan':
                src = range(r + 1)
                val = [d['in'][i] for i in range(r + 1)]
            for i in src:
                self.clk[r] = _vmax(self.clk[r], d['clk'][i])
            if self.strong and name != 'barrier':
                pass
            d['out'] += 1
            self.collof[r] = None
        elif k == 'dup':
            seqk = self.dups.get(r, 0)
            self.dups[r] = seqk + 1
            val = 100 + seqk
        elif k == 'get':
            key = op[1]
            st.acc = ((('cell', key), False),)
            R.events.append((r, 'get', key))
            val = R.store.get(key)
        elif k == 'put':
            key = op[1]
            st.acc = ((('cell', key), True),)
            R.events.append((r, 'put', key))
            R.puts.append((r, key, op[2]))
            R.store[key] = op[2]
        elif k == 'event':
            R.events.append((r,) + tuple(op[1:]))
        elif k == 'mpiabort':
            self.pending[r] = None
            self.c.chans[r].send(('err', 'MPI_Abort'))
            self._incoming(r, self._recv_from(r))
            return
        else:
            raise ModelError('unknown op %r' % (op,))
        st.clk = self.clk[r]
        for obj, w in st.acc:
            if obj[0] == 'cell':
                l = self.access.setdefault(obj, [])
                for (r2, w2, c2) in l:
                    if r2 != r and (w or w2) and not c2[r2] <= st.pre[r2]:
                        R.races.append((obj[1], r2, 'put' if w2 else 'get', r, 'put' if w else 'get'))
                l.append((r, w, st.clk))
        if reply:
            self._reply(r, val)
        else:
            # keep pending: completes when matched
            pass

    def _newreq(self, q):
        self.nreq += 1
        self.reqs[self.nreq] = q
        return self.nreq

    def _wild(self):
        # from now on message arrivals at a mailbox are dependent operations
        self.res.wild = True
        self.c.wild = True


# --------------------------------------------------------------------------
# explorers
# --------------------------------------------------------------------------
class Prefix(object):
    """Replays ``choices`` then follows the default non-preemptive policy."""
    def __init__(self, choices, prefer='low'):
        self.choices, self.i, self.prefer = list(choices), 0, prefer
        self.trace = []           # (enabled, chosen, last)

    def __call__(self, ex, enabled, last):
        if self.i < len(self.choices):
            r = self.choices[self.i]
        elif last in enabled:
            r = last
        else:
            r = enabled[0] if self.prefer == 'low' else enabled[-1]
        self.i += 1
        self.trace.append((enabled, r, last))
        return r


def explore_bounded(cluster, job, check, bound, modes=None, strong=False, store=None,
                    max_runs=None, deadline=None, prefer='low'):
    """Plain preemption-bounded exploration of all interleavings (no reduction).
    ``check(result, choices)`` is called for every complete execution.  Returns
    statistics; stats['complete'] tells whether the bound was covered."""
    stats = {'schedules': 0, 'steps': 0, 'complete': True}
    stack = [[]]
    while stack:
        if (max_runs and stats['schedules'] >= max_runs) or (deadline and _wall() > deadline):
            stats['complete'] = False
            break
        prefix = stack.pop()
        ch = Prefix(prefix, prefer)
        res = cluster.run(job, chooser=ch, modes=modes, strong=strong, store=store)
        stats['schedules'] += 1
        stats['steps'] += len(res.steps)
        if check(res, [c for _, c, _ in ch.trace]):
            return stats
        cost = 0
        costs = []
        for en, c, last in ch.trace:
            costs.append(cost)
            if last in en and c != last:
                cost += 1
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            en, c, last = ch.trace[i]
            add = 1 if last in en else 0
            if costs[i] + add > bound:
                continue
            for alt in en:
                if alt != c:
                    stack.append([x for _, x, _ in ch.trace[:i]] + [alt])
    return stats


def explore_dpor(cluster, job, check, modes=None, strong=False, store=None,
                 max_runs=None, deadline=None, prefer='low'):
    """Dynamic partial order reduction (Flanagan-Godefroid) with sleep sets over
    store cells and wildcard receptions.  Point-to-point messages with explicit
    source commute and only induce happens-before edges."""
    stats = {'schedules': 0, 'steps': 0, 'complete': True, 'races': 0}
    wild = [False]
    backtrack = {}        # tuple(prefix) -> set of ranks still to try
    done = {}
    stack = [()]
    seen = set()
    while stack:
        if (max_runs and stats['schedules'] >= max_runs) or (deadline and _wall() > deadline):
            stats['complete'] = False
            break
        prefix = stack.pop()
        if prefix in seen:
            continue
        seen.add(prefix)
        ch = Prefix(prefix, prefer)
        res = cluster.run(job, chooser=ch, modes=modes, strong=strong, store=store)
        stats['schedules'] += 1
        stats['steps'] += len(res.steps)
        choices = [c for _, c, _ in ch.trace]
        if check(res, choices):
            return stats
        steps = res.steps
        for i in range(len(steps)):
            done.setdefault(tuple(choices[:i]), set()).add(choices[i])
        # races -> backtrack points
        last_acc = {}
        for j, s in enumerate(steps):
            for obj, w in s.acc:
                for (i, w2) in reversed(last_acc.get(obj, ())):
                    t = steps[i]
                    if t.rank == s.rank or not (w or w2):
                        continue
                    if t.clk[t.rank] <= s.pre[t.rank]:
                        continue          # ordered
                    stats['races'] += 1
                    pre = tuple(choices[:i])
                    cand = [s.rank] if s.rank in t.enabled else list(t.enabled)
                    for q in cand:
                        if q not in done.setdefault(pre, set()):
                            done[pre].add(q)
                            stack.append(pre + (q,))
                    break
                last_acc.setdefault(obj, []).append((j, w))
    return stats


_wall = _time.time


def explore_modes(cluster, job, check, deviations=1, strong_also=True, store=None,
                  deadline=None, max_sends=None):
    """Delivery modes: all buffered, all synchronous, and every deviation of up
    to ``deviations`` single sends from either extreme; with weak and strong
    collectives."""
    stats = {'schedules': 0, 'steps': 0, 'complete': True, 'max_sends': 0}

    def go(fn, strong, label):
        if deadline and _wall() > deadline:
            stats['complete'] = False
            return None
        res = cluster.run(job, modes=fn, strong=strong, store=store)
        stats['schedules'] += 1
        stats['steps'] += len(res.steps)
        stats['max_sends'] = max(stats['max_sends'], res.nsends)
        stop = check(res, label)
        return None if stop else res

    for strong in ((False, True) if strong_also else (False,)):
        for base in (False, True):
            r0 = go(lambda i: base, strong, ('all', base, strong))
            if r0 is None:
                return stats
            n = r0.nsends if max_sends is None else min(r0.nsends, max_sends)
            if n < r0.nsends:
                stats['complete'] = False
            for d in range(1, deviations + 1):
                for comb in itertools.combinations(range(n), d):
                    cs = set(comb)
                    if go(lambda i: (i in cs) != base, strong, ('dev', base, strong, comb)) is None:
                        return stats
    return stats
