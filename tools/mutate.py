"""Mutation analysis: small edits of one module, which of the module's checks notice them.

    python tools/mutate.py MODULE [-j N] [-o log] [-l first-last] [-s every nth]
"""
import ast, copy, os, sys, json, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {
    'era': 'E02 E03 E09 D07 D08 H03 V04', 'okid': 'E04 E09 H03',
    'util': 'E11 E10 H02 E01 E06 E07 E08 E03 E09 D07 E05 D01 D02 D03 E02 H03 P02',
    'vectors': 'V03 V02 H01 E09 H03', 'ltigalerkinproj': 'E05 E09 D08 H03 P01 P10 P04 P03 P11',
    'pod': 'D01 D06 D07 D08 D09 D05 E09 P10 P05 P04 P03', 'bpod': 'D02 D06 D07 D08 D09 D05 E09 P10 P05 P04 P03',
    'dmd': 'D03 D04 D06 D07 D08 D09 D05 E09 P10 P05 P04 P03',
    'parallel': 'P07 P10 P06 P03 P04 P02 P01', 'reductions': 'P06 P03',
    'vectorspace': 'V01 P10 P09 P02 P01 P03 P04 P08 V03 E09 H03 D06 E05 P11',
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.FloorDiv: ast.Div,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.BitXor: ast.BitOr}


def is_msg(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'print' in ast.unparse(n.value.func)


def mutants(tree):
    """yields (line, description, edit, undo)"""
    skip = set()
    for n in ast.walk(tree):
        if is_msg(n) or isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []

    def put(n, f, v, d):
        old = getattr(n, f)
        out.append((getattr(n, 'lineno', 0), d, lambda: setattr(n, f, v), lambda: setattr(n, f, old)))

    def puti(lst, i, v, d, line):
        old = lst[i]
        out.append((line, d, lambda: lst.__setitem__(i, v), lambda: lst.__setitem__(i, old)))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            o = CMP.get(type(n.ops[0]))
            if o:
                puti(n.ops, 0, o(), 'cmp %s' % ast.unparse(n), n.lineno)
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            o = BIN.get(type(n.op))
            if o and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, 'op', o(), 'op %s' % ast.unparse(n))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, 'value', not v, 'bool %s line %d' % (v, n.lineno))
            elif isinstance(v, int):
                put(n, 'value', v + 1, 'const %d+1' % v)
                if v > 0:
                    put(n, 'value', v - 1, 'const %d-1' % v)
            elif isinstance(v, float):
                put(n, 'value', v * 2 + (v == 0), 'const %g*2' % v)
        elif isinstance(n, ast.BoolOp):
            put(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And(), 'bool op %s' % ast.unparse(n))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, 'op', ast.UAdd(), 'neg %s' % ast.unparse(n))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n, 'lower', None, 'slice lower %s' % ast.unparse(n))
            if n.upper is not None:
                put(n, 'upper', None, 'slice upper %s' % ast.unparse(n))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n, 'test', ast.Constant(False), 'if False: %s' % ast.unparse(n.test))
            if isinstance(n, ast.If):
                put(n, 'test', ast.Constant(True), 'if True: %s' % ast.unparse(n.test))
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                old = n.keywords
                new = old[:i] + old[i + 1:]
                put(n, 'keywords', new, 'drop kw %s in %s' % (k.arg, ast.unparse(n.func)))
            if len(n.args) >= 2:
                put(n, 'args', [n.args[1], n.args[0]] + n.args[2:], 'swap args %s' % ast.unparse(n)[:60])
        # expression replaced by a part of it
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for i, c in enumerate(vs):
                if not isinstance(c, ast.expr) or id(c) in skip:
                    continue
                r = None
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in (
                        'conj', 'copy', 'transpose', 'squeeze') and not c.args:
                    r = c.func.value
                elif isinstance(c, ast.Attribute) and c.attr == 'T':
                    r = c.value
                elif isinstance(c, ast.Call) and len(c.args) >= 1 and ast.unparse(c.func) in (
                        'np.abs', 'abs', 'np.array', 'np.real', 'list', 'int', 'np.ceil', 'np.ravel', 'reversed', 'np.sqrt',
                        'np.diag', 'util.atleast_2d_col', 'util.make_iterable', 'float', 'np.round', 'sorted', 'np.triu',
                        'atleast_2d_col', 'make_iterable', 'np.asarray', 'set'):
                    r = c.args[0]
                if r is None:
                    continue
                d = 'strip %s' % ast.unparse(c)[:70]
                if isinstance(v, list):
                    puti(v, i, r, d, c.lineno)
                else:
                    old = c
                    out.append((c.lineno, d, (lambda n=n, f=f, r=r: setattr(n, f, r)), (lambda n=n, f=f, c=c: setattr(n, f, c))))
        # statements
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if id(s) in skip or not isinstance(s, ast.stmt):
                    continue
                if isinstance(s, ast.Expr) or (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)) or \
                        isinstance(s, (ast.AugAssign, ast.Delete)) or (
                            isinstance(s, ast.Assign) and ast.unparse(s.targets[0]) in ast.unparse(s.value)):
                    puti(b, i, ast.Pass(), 'del %s' % ast.unparse(s)[:70], s.lineno)
            if isinstance(n, (ast.FunctionDef, ast.For, ast.If)) and len(b) > 1:
                for i in range(len(b) - 1):
                    s, t = b[i], b[i + 1]
                    if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and 'self' in ast.unparse(s):
                        pass
    return out


def main():
    args = sys.argv[1:]

    def opt(o, d):
        if o in args:
            i = args.index(o)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return d
    j = int(opt('-j', 4))
    log = opt('-o', '/tmp/mut/log')
    rng = opt('-l', '')
    procs = opt('-m', '2')
    step = int(opt('-s', 1))
    mod = args[0]
    src = open('/repo/modred/%s.py' % mod).read()
    tree = ast.parse(src)
    texts, seen = [], set()
    ms = mutants(tree)
    base = ast.unparse(tree)
    for line, d, do, undo in ms:
        if rng and not int(rng.split('-')[0]) <= line <= int(rng.split('-')[1]):
            continue
        do()
        try:
            ast.fix_missing_locations(tree)
            t = ast.unparse(tree)
            compile(t, mod, 'exec')
        except Exception:
            t = None
        undo()
        if t and t != base and t not in seen:
            seen.add(t)
            texts.append((line, d, t))
    texts = texts[::step]
    print('%d mutants of %s' % (len(texts), mod), flush=True)
    root = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    import queue
    pool = queue.Queue()
    for i in range(j):
        w = '%s/%d' % (root, i)
        os.makedirs(w + '/verif')
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call('git -C %s ls-files -z -co --exclude-standard | grep -zv ^seeded/ | xargs -0 cp --parents -t %s/verif'
                              % (VERIF, w), shell=True, cwd=VERIF)
        pool.put(w)
    checks = CHECKS[mod].split()

    def one(k):
        line, d, t = texts[k]
        w = pool.get()
        try:
            open('%s/repo/modred/%s.py' % (w, mod), 'w').write(t)
            t0 = time.time()
            verdict, by = 'SURVIVED', ''
            for c in checks:
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', 'run.py', c, 'quick'], cwd=w + '/verif', text=True,
                                       env=dict(os.environ, MODRED_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick',
                                                MC_PROCS=procs, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    verdict, by = 'TIMEOUT', c
                    break
                if r.returncode == 1:
                    verdict, by = 'killed', c
                    break
                if r.returncode not in (0, 1):
                    verdict, by = 'BROKEN', c + ' ' + r.stdout[-200:].replace('\n', ' ')
                    break
            return '%s %s:%d %s [%s] %.0f s' % (verdict, mod, line, d.replace('\n', ' '), by, time.time() - t0)
        finally:
            pool.put(w)
    try:
        with open(log, 'a') as f, ThreadPoolExecutor(j) as ex:
            for x in ex.map(one, range(len(texts))):
                f.write(x + '\n')
                f.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
