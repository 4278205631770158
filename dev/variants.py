"""try source variants: variants.py PROP[,PROP] FILE
FILE is a list [(label, file in htmltools, old, new)] or a script defining V (and PRE: {file: (old, new)});
new may be a list of further (old, new) pairs when several places change"""
import sys, subprocess, json, os

W = os.environ.get('VARW', '/tmp/w')
prop = sys.argv[1]
only = sys.argv[3] if len(sys.argv) > 3 else None
src = open(sys.argv[2]).read()
ns = {}
if src.lstrip().startswith('['):
    vs = eval(src)
else:
    exec(src, ns)
    vs = ns['V']
PRE = ns.get('PRE', {})
for lab, f, old, new in vs:
    if only and only not in lab:
        continue
    p = W + '/htmltools/' + f
    o = open('/repo/htmltools/' + f).read()
    s = o
    if f in PRE:
        assert PRE[f][0] in s
        s = s.replace(*PRE[f], 1)
    if isinstance(old, str):
        old = [(old, new)]
    for a, b in old:
        assert a in s, (lab, a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=W, capture_output=True, text=True)
    tests = t.stdout.strip().split('\n')[-1][:60]
    outs = []
    for pr in prop.split(','):
        r = subprocess.run(['python3', 'check.py', pr, 'quick'], cwd='/verif', capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': W})
        l = [x for x in r.stdout.split('\n')]
        und = [x for x in l if 'undecided' in x]
        det = [l[i - 2] for i, x in enumerate(l) if x.startswith('VIOLATION')] + [l[i - 1] for i, x in enumerate(l) if x.startswith('      scenario')]
        outs.append((pr, r.returncode, [u.strip()[:20] for u in und], [d.strip()[:230] for d in det[:1]], [x.strip()[:120] for x in l if x.startswith('    ')][:1] if und else '', (r.stderr or '')[-200:]))
    print(lab, '|', tests, '|', outs, flush=True)
    open(p, 'w').write(o)
