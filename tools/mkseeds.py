"""Builds /verif/seeded/<id>/ from the definitions in seeds_def*.py: applies the edit to a scratch copy of /repo
(bind-mounted over /repo in a namespace of its own), checks the demo with and without it and runs the stable tests.

    python tools/mkseeds.py [ids...]         (-j N in parallel)
"""
import os, sys, json, shutil, subprocess, tempfile, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
PY = '/opt/venv/bin/python'

SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run in /repo
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
S="$(mktemp -d)" || exit 99
trap 'rm -rf "$S"' EXIT
cd "$S"
timeout -k 5 %d %s/opt/venv/bin/python "$D/demo.py"
'''
HEAD_MPI = '''import sys, traceback
from mpi4py import MPI
def _hook(t, v, tb):
    traceback.print_exception(t, v, tb)
    sys.stderr.flush()
    MPI.COMM_WORLD.Abort(1)
sys.excepthook = _hook
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def in_copy(copy, cmd):
    """runs cmd with copy mounted over /repo"""
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (copy, cmd))


def build(sid, s, stable):
    w = tempfile.mkdtemp(prefix='seed_%s_' % sid, dir='/tmp')
    try:
        copy = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', copy])
        d = os.path.join(w, 'd')
        os.makedirs(d)
        n = s.get('n', 1)
        with open(d + '/demo.py', 'w') as f:
            f.write((HEAD_MPI if n > 1 else '') + s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(SH % (s.get('timeout', 60), '/opt/venv/bin/mpiexec -n %d ' % n if n > 1 else ''))
        os.chmod(d + '/demo.sh', 0o755)
        a = in_copy(copy, 'bash %s/demo.sh' % d)
        if a.returncode:
            return sid, 'DEMO FAILS UNPATCHED (%d)\n%s' % (a.returncode, a.stdout[-1500:])
        for path, old, new in s['edits']:
            p = os.path.join(copy, 'modred', path)
            t = open(p).read()
            i = s.get('count', 1)
            if t.count(old) != i:
                return sid, 'EDIT %r found %d times' % (old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', copy, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        b = in_copy(copy, 'bash %s/demo.sh' % d)
        if b.returncode == 0:
            return sid, 'DEMO PASSES PATCHED'
        t = in_copy(copy, 'bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh %s/out.json' % w)
        try:
            r = json.load(open(w + '/out.json'))
        except Exception:
            return sid, 'TESTS DID NOT RUN\n' + t.stdout[-1500:]
        bad = sorted(set(stable) - set(r['passed']) - {'modred.tests.testera.testERA::test_compute_model'})
        if bad:
            return sid, 'TESTS FAIL: %s' % bad
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(d + '/meta.json', 'w'), indent=1)
        dst = os.path.join(OUT, sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return sid, 'ok (demo: %s)' % b.stdout.strip().splitlines()[-1:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    defs = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'seeds_def*.py'))):
        sp = importlib.util.spec_from_file_location('sd', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        defs.update(m.SEEDS)
    args = sys.argv[1:]
    j = 3
    if '-j' in args:
        i = args.index('-j')
        j = int(args[i + 1])
        args = args[:i] + args[i + 2:]
    ids = [i for i in defs if (not args and not os.path.exists(os.path.join(OUT, i, 'meta.json'))) or
           any(i == a or i.startswith(a + '-') for a in args)]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    with ThreadPoolExecutor(j) as ex:
        for f in [ex.submit(build, i, defs[i], stable) for i in ids]:
            print(('%s: %s' % f.result())[-500:], flush=True)


if __name__ == '__main__':
    main()
