"""E11: helper functions honour their stated contracts."""
import io, itertools, os, shutil, sys
import numpy as np
from mc import serial
from mc.core import scratch
from mc.num import mat

RULE = ('flatten_list concatenates in order; make_iterable returns iterables unchanged and wraps anything else in a one-element '
        'list; atleast_2d_row/col give rows/columns and leave 2D arrays alone; sum_arrays and sum_lists add elementwise without '
        'touching their arguments; smart_eq is true exactly for objects of one type that are equal in every element; '
        'get_file_list gives exactly the files with the extension; get_data_members exactly the data members; '
        'InnerProductBlock the array of inner products; print_msg writes the message and a newline to the chosen channel; '
        'run_script runs in the given name spaces')
BOUNDS = ('all lists of up to 4 lists of up to 3 elements; all pairs out of 30 values for smart_eq; arrays of 0..2 dimensions '
          'with extents 1..4; all subsets of 8 file names x 9 extensions; 1..4 x 1..4 vectors, real/complex; '
          'also lists of 130 lists, arrays of 1030 and 65 x 40 elements, 101 vectors')


def u():
    return serial.modred().util


def case_flatten(shape):
    n = itertools.count()
    L = [[next(n) for _ in range(k)] for k in shape]
    want = list(range(sum(shape)))
    P = []
    for v in (L, [tuple(x) for x in L], [np.array(x, dtype=int) for x in L], tuple(L)):
        got = u().flatten_list(v)
        if not isinstance(got, list) or [int(x) for x in got] != want:
            P.append('flatten_list(%r) = %r' % (v, got))
    w = [['a%d' % x for x in l] for l in L]
    if u().flatten_list(w) != ['a%d' % x for x in want]:
        P.append('strings')
    if [list(x) for x in L] != [list(range(sum(shape[:i]), sum(shape[:i + 1]))) for i in range(len(shape))]:
        P.append('argument modified')
    return P, {'states': 5}


class Plain(object):
    pass


class HasGet(object):
    def get(self):
        return 1


def case_iterable():
    P = []
    for v in ([], [1], (1, 2), np.arange(3), np.zeros((0,)), {1: 2}, 'ab', {1}, range(3), iter([1])):
        if u().make_iterable(v) is not v:
            P.append('make_iterable(%r) is another object' % (v,))
    for v in (1, 2.5, 1j, None, Plain(), HasGet(), len, np.float64(3), np.array(5), True):
        r = u().make_iterable(v)
        if not isinstance(r, list) or len(r) != 1 or r[0] is not v:
            P.append('make_iterable(%r) = %r' % (v, r))
    return P, {'states': 20}


def case_2d(shape, cplx, form):
    a = np.arange(int(np.prod(shape)) + 1.)[1:].reshape(shape) * (1 + 1j if cplx else 1)
    if form == 'int':
        a = np.real(a).astype(int)
    v = a.tolist() if form == 'list' else np.asfortranarray(a) if form == 'F' else a
    keep = np.array(v)
    P = []
    for f, want in (('atleast_2d_row', a if a.ndim == 2 else a.reshape(1, -1)),
                    ('atleast_2d_col', a if a.ndim == 2 else a.reshape(-1, 1))):
        r = getattr(u(), f)(v)
        if not isinstance(r, np.ndarray) or r.shape != want.shape or not np.array_equal(r, want):
            P.append('%s of shape %s gives %s %s' % (f, shape, np.shape(r), r))
        if np.asarray(r).dtype != want.dtype:
            P.append('%s changes the data type to %s' % (f, r.dtype))
    if not np.array_equal(keep, v):
        P.append('argument modified')
    return P, {'states': 2}


def case_sums(shape, kinds):
    k = max(4, *shape)
    mk = {'f': lambda s: mat(k, k, False, s)[:shape[0], :shape[1]], 'c': lambda s: mat(k, k, True, s)[:shape[0], :shape[1]],
          'i': lambda s: np.arange(shape[0] * shape[1]).reshape(shape) + s}
    a, b = mk[kinds[0]](1), mk[kinds[1]](2)
    P = []
    for f, x, y in (('sum_arrays', a, b), ('sum_arrays', a.tolist(), b), ('sum_arrays', a, b.tolist()),
                    ('sum_lists', list(a), list(b)), ('sum_lists', a.ravel().tolist(), b.ravel().tolist()),
                    ('sum_lists', tuple(a), list(b))):
        kx, ky = np.array(x), np.array(y)
        r = getattr(u(), f)(x, y)
        if not isinstance(r, np.ndarray if f == 'sum_arrays' else list) or not np.array_equal(np.array(r), kx + ky):
            P.append('%s(%s) = %r' % (f, kinds, r))
        if not np.array_equal(kx, x) or not np.array_equal(ky, y):
            P.append('%s modified its arguments' % f)
    try:
        u().sum_lists([1], [1, 2])
        P.append('sum_lists accepted lists of different lengths')
    except (AssertionError, ValueError, IndexError):
        pass
    return P, {'states': 7}


def values():
    yield from [1, 2, 1., True, 'a', 'b', '', None, (), (1,), (1, 2), [], [1], [1, 2], [2, 1], {}, {'a': 1}, {'a': 2}]
    yield from [np.zeros(0), np.array([1.]), np.array([1]), np.array([1., 2.]), np.array([2., 1.]), np.array([1. + 0j, 2.]),
                np.array([[1., 2.]]), np.array([[1.], [2.]]), np.array([[1., 2.], [3., 4.]]), np.array([[1., 2.], [3., 5.]]),
                np.array(1.), np.array([True, False]), np.float64(1.)]


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and all(x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return a == b


def case_eq():
    P, k = [], 0
    V, Wv = list(values()), list(values())
    for a in V:
        for b in Wv:
            k += 1
            r = u().smart_eq(a, b)
            if np.ndim(r) != 0 or bool(r) != same(a, b):
                P.append('smart_eq(%r, %r) = %r' % (a, b, r))
    return P[:5], {'states': k}


FILES = ['a.txt', 'b.txt', 'a.dat', 'txt', '.txt', 'c.txt.bak', 'd', 'e.TXT']
EXT = [None, '.txt', 'txt', '.dat', '.bak', '.txt.bak', '.none', 't', 'a.txt']


def case_files(names, ext):
    d = os.path.join(scratch(), 'fl')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f in names:
            open(os.path.join(d, f), 'w').close()
        P = []
        for e in EXT if ext == 'all' else [ext]:
            r = u().get_file_list(d) if e is None else u().get_file_list(d, e)
            want = sorted(f for f in names if e is None or f.endswith(e))
            if sorted(r) != want:
                P.append('get_file_list(%s, %r) = %s' % (names, e, r))
            if e is not None and sorted(u().get_file_list(d, file_extension=e)) != want:
                P.append('by keyword')
        return P, {'states': len(EXT)}
    finally:
        shutil.rmtree(d)


class Obj(object):
    cls = 5

    def __init__(self, kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def method(self):
        return 1


def case_members(n):
    P = []
    names = ['a', '_b', 'c_', 'arr', 'fn', 'none']
    vals = [1, 'x', [1], np.arange(3), len, None]
    for sub in itertools.combinations(range(6), n):
        d = {names[i]: vals[i] for i in sub}
        r = u().get_data_members(Obj(d))
        want = dict(d, cls=5)
        if set(r) != set(want) or any(r[k] is not want[k] for k in d):
            P.append('get_data_members of %s gives %s' % (sorted(want), sorted(r)))
    return P, {'states': n + 1}


def case_block(n1, n2, cplx):
    X, Y = mat(5, n1, cplx, 3), mat(5, n2, cplx, 4)
    r = u().InnerProductBlock(np.vdot)(list(X.T), list(Y.T))
    want = X.conj().T.dot(Y)
    if r.shape != want.shape or np.abs(r - want).max() > 1e-12 or np.iscomplexobj(r) != cplx:
        return 'block %s instead of %s' % (r, want)
    return ''


def case_print():
    m = serial.modred()
    P = []
    for msg in ('', 'a', 'a\nb', '%d %s', 'x' * 100):
        for ch, name in (('stdout', 0), ('STDOUT', 0), ('Stdout', 0), ('stderr', 1), ('STDERR', 1), (None, 0)):
            old = sys.stdout, sys.stderr
            bufs = io.StringIO(), io.StringIO()
            sys.stdout, sys.stderr = bufs
            try:
                m.print_msg(msg) if ch is None else m.print_msg(msg, ch)
            finally:
                sys.stdout, sys.stderr = old
            got = [b.getvalue() for b in bufs]
            if got[name] != msg + '\n' or got[1 - name] != '':
                P.append('print_msg(%r, %r) wrote %r' % (msg, ch, got))
        for f, name in (('print_stdout', 0), ('print_stderr', 1)):
            old = sys.stdout, sys.stderr
            bufs = io.StringIO(), io.StringIO()
            sys.stdout, sys.stderr = bufs
            try:
                getattr(m, f)(msg)
            finally:
                sys.stdout, sys.stderr = old
            if bufs[name].getvalue() != msg + '\n' or bufs[1 - name].getvalue():
                P.append('%s(%r)' % (f, msg))
    for ch in ('', 'file', 'stdin', 'out'):
        try:
            m.print_msg('x', ch)
            P.append('channel %r accepted' % ch)
        except ValueError:
            pass
    return P[:5], {'states': 44}


def case_script():
    m = serial.modred()
    p = os.path.join(scratch(), 's.py')
    P = []
    with open(p, 'w') as f:
        f.write('import math\nimport os as system\ndef g(x):\n    return math.floor(x) + base\nres = g(2.5)\nlst = [g(i) for i in range(3)]')
    ns = {'base': 10}
    m.run_script(p, ns, ns)
    if ns.get('res') != 12 or ns.get('lst') != [10, 11, 12]:
        P.append('one name space: %r' % {k: ns.get(k) for k in ('res', 'lst')})
    ns = {'base': 1, '__name__': 'x'}
    m.run_script(p, globals=ns, locals=ns)
    if ns.get('res') != 3:
        P.append('keywords')
    G, Lc = {'q': 5}, {}
    with open(p, 'w') as f:
        f.write('r = q + 1\n')
    m.run_script(p, G, Lc)
    if Lc.get('r') != 6 or 'r' in G:
        P.append('separate name spaces: %r %r' % (Lc, 'r' in G))
    exec(compile('rs(p)', 'x', 'exec'), {'rs': m.run_script, 'p': p, 'q': 7}, {})
    g = {'rs': m.run_script, 'p': p, 'q': 7}
    exec(compile('rs(p)', 'x', 'exec'), g)
    if g.get('r') != 8:
        P.append('name space of the caller: %r' % g.get('r'))
    with open(p, 'w') as f:
        f.write('raise KeyError(3)\n')
    try:
        m.run_script(p, {}, {})
        P.append('exception swallowed')
    except KeyError:
        pass
    os.remove(p)
    return P, {'states': 5}


def run(ck):
    q = ck.quick
    ck.domain('flatten', [dict(shape=list(s)) for k in range(0, 5 if q else 6) for s in itertools.product(range(4), repeat=k)],
              chunk=64)
    for d in ('iterable', 'eq', 'print', 'script'):
        ck.domain(d, [dict()])
    ck.domain('2d', [dict(shape=list(s), cplx=c, form=f)
                     for s in [()] + [(i,) for i in range(1, 5)] + list(itertools.product(range(1, 5), repeat=2))
                     for c in (False, True) for f in ('array', 'list', 'F', 'int')], chunk=32)
    ck.domain('sums', [dict(shape=list(s), kinds=k) for s in itertools.product(range(1, 5), repeat=2)
                       for k in ('ff', 'fc', 'cf', 'cc', 'if', 'ii', 'ic')], chunk=32)
    ck.domain('files', [dict(names=[FILES[i] for i in range(8) if b >> i & 1], ext='all') for b in range(256)], chunk=32)
    ck.domain('members', [dict(n=n) for n in range(7)])
    ck.domain('block', [dict(n1=a, n2=b, cplx=c) for a in range(1, 5) for b in range(1, 5) for c in (False, True)], chunk=8)
    ck.domain('flatten', [dict(shape=[n] * k) for n in (1, 12, 101) for k in (11, 33, 130)])
    ck.domain('2d', [dict(shape=list(s), cplx=c, form=f) for s in ((12,), (101,), (1030,), (12, 11), (1, 101), (101, 1), (65, 40))
                     for c in (False, True) for f in ('array', 'list', 'F', 'int')])
    ck.domain('sums', [dict(shape=list(s), kinds=k) for s in ((12, 11), (101, 3), (1, 130), (130, 1), (40, 65)) for k in ('ff', 'fc', 'ii')])
    ck.domain('block', [dict(n1=a, n2=b, cplx=c) for a, b in ((1, 12), (12, 11), (33, 2), (101, 3)) for c in (False, True)], chunk=1)
