"""Applies each seeded bug to /repo, runs the checks of its property (or those given with -p), and undoes it.
Usage: matrix.py [-t tier] [-p C01,C02] [ids ...]; prints one line per bug."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier, props, ids = 'quick', None, []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-t':
        tier = a.pop(0)
    elif x == '-p':
        props = a.pop(0).split(',')
    else:
        ids.append(x)
for i in ids or sorted(os.listdir(os.path.join(R, 'seeded'))):
    d = os.path.join(R, 'seeded', i)
    p = json.load(open(os.path.join(d, 'meta.json')))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
    try:
        for q in props or [p]:
            t = time.time()
            r = subprocess.run([os.path.join(R, 'check'), q, '--tier', tier], cwd=R, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.split('\n') if l.strip()]
            k = [n for n, l in enumerate(v) if l.startswith('VIOLATION')]
            print('%s %s exit %d %.0f s %s' % (i, q, r.returncode, time.time() - t,
                                               v[k[0] + 1].strip()[:150] if k else (v or [''])[-1][:150]), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
