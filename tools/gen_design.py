"""Writes DESIGN.md: fixed text below plus tables from the checks, properties, findings and planted bugs."""
import os, sys, json, importlib, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()


def eng(t):
    return 'S' if 'interleav' in t else 'H' if 'histories' in t else 'D'


out = [HEAD]
out.append('## Properties and how each is decided\n')
out.append('One check per property, `checks/<id>.py`; statement in `properties.jsonl`. "Oracle" is what every explored '
           'execution is compared with, "bounds" what is enumerated completely in the quick tier (the thorough bound in '
           'parentheses where it differs). Costs are those of the last run in this sandbox (8 cores).\n')
for p in props:
    i = p['id']
    if i not in man:
        out.append('### %s %s\n\nNot claimed.\n' % (i, p['title']))
        continue
    m = importlib.import_module('checks.' + i)
    ev = os.path.join(V, 'evidence', i + '.json')
    cost = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e.get('coverage', {})
        if e.get('tier') == 'quick':
            s = c.get('states') or 0
            digits = max(0, len(str(s)) - 2)
            cost = ' Cost (quick): about %s states.' % format(round(s, -digits), ',')
    out.append('### %s %s\n' % (i, p['title']))
    out.append('Engine %s. *Oracle:* %s.\n\n*Bounds:* %s.%s\n' % (eng(man[i]['technique']), m.RULE.rstrip('.'), m.BOUNDS.rstrip('.'), cost))
    out.append('*Why beyond tests:* %s\n' % p['why_tests_cant'])
out.append('## Defects found in the unchanged code\n')
fx, kn = [], []
for l in open(os.path.join(V, 'known_findings.txt')):
    l = l.strip()
    if l.startswith('fixed:'):
        _, pr, h, *r = l.split(' ')
        fx.append((pr.split('=')[1], h, ' '.join(r)))
    elif l.startswith('known:'):
        kn.append(l)
out.append('Repaired, one `fix:` commit each in /repo (%d commits):\n' % len(set(h for _, h, _ in fx)))
out.append('| property | commit | what failed |\n|---|---|---|')
out += ['| %s | %s | %s |' % x for x in fx]
out.append('\nRecorded, not repaired (`known_findings.txt`, printed as KNOWN-FINDING): the default `put_array`/`get_array` text '
           'format interleaves real and imaginary columns and `load_array_text` must be told that a file is complex, so with '
           'the *default* functions saved complex arrays (always so for DMD eigenvalues) cannot be loaded back. Curing it '
           'needs a change of file format or of signatures, which is the maintainers\' choice. %d entries, all of D09.\n' % len(kn))
sd = os.path.join(V, 'seeded')
rows = []
if os.path.isdir(sd):
    for d in sorted(os.listdir(sd)):
        f = os.path.join(sd, d, 'meta.json')
        if os.path.exists(f):
            x = json.load(open(f))
            rows.append((d, x['property'], x['what_it_breaks'], x['needs']))
resf = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(resf)) if os.path.exists(resf) else {}
out.append('## Planted bugs\n')
out.append('Every one builds, passes the existing tests and has a demonstration that fails with it. "Caught" is the verdict of the '
           'quick check of its property.\n')
out.append('| planted bug | breaks | needs | caught |\n|---|---|---|---|')
out += ['| %s | %s | %s | %s |' % (d, b, n, res.get(d, '?')) for d, p, b, n in rows]
out.append('')
out.append(TAIL)
t = '\n'.join(out)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
print(len(t.split()), 'words')
