"""Runs the check of each planted bug's property on a scratch copy of /repo with the bug (or, with -p, other checks).

    python tools/runseeds.py [ids...] [-j N] [-p P01,P02] [-t thorough]
"""
import os, sys, json, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'seeded')


def run(sid, props, tier):
    w = tempfile.mkdtemp(prefix='rs_%s_' % sid, dir='/tmp')
    res = []
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call('mkdir %s/verif && git -C %s ls-files -z -co --exclude-standard | grep -zv ^seeded/ | '
                              'xargs -0 cp --parents -t %s/verif' % (w, VERIF, w), shell=True, cwd=VERIF)
        if sid != '-':
            subprocess.check_call(['git', '-C', w + '/repo', 'apply', os.path.join(OUT, sid, 'patch.diff')])
            props = props or [json.load(open(os.path.join(OUT, sid, 'meta.json')))['property']]
        for p in props:
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', 'run.py', p, tier], cwd=w + '/verif', text=True,
                               env=dict(os.environ, MODRED_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
            res.append('%-22s %s rc=%d violations=%d %4.0f s %s %s' % (
                sid, p, r.returncode, len(v), time.time() - t,
                'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'BROKEN',
                '' if r.returncode in (0, 1) else r.stdout[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(res)


def main():
    args = sys.argv[1:]

    def opt(o, d):
        if o in args:
            i = args.index(o)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return d
    j = int(opt('-j', 2))
    props = opt('-p', '')
    tier = opt('-t', 'quick')
    ids = args or sorted(os.listdir(OUT))
    with ThreadPoolExecutor(j) as ex:
        for f in [ex.submit(run, i, props.split(',') if props else None, tier) for i in ids]:
            print(f.result(), flush=True)


if __name__ == '__main__':
    main()
