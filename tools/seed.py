"""Evaluate a planted bug: /repo must be dirty with it (or pass an id whose patch.diff exists).

seed.py ID PROP NEEDS BREAKS   (dirty /repo: record patch and meta, evaluate, restore)
seed.py ID                     (apply the recorded patch, evaluate, restore)
options: --notest --nocheck
"""
import json, os, subprocess, sys
V = '/verif'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
sid = args[0]
D = f'{V}/seeded/{sid}'
os.makedirs(D, exist_ok=True)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


dirty = sh('git -C /repo status --porcelain').stdout.strip()
if len(args) > 1:
    assert dirty, '/repo is clean'
    open(f'{D}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    json.dump(dict(property=args[1], needs=args[2], what_it_breaks=args[3]), open(f'{D}/meta.json', 'w'), indent=1)
else:
    assert not dirty
    r = sh(f'git -C /repo apply {D}/patch.diff')
    assert r.returncode == 0, r.stderr
meta = json.load(open(f'{D}/meta.json'))
P = meta['property']
res = {}
try:
    d = sh(f'bash {D}/demo.sh', cwd='/repo')
    res['demo_bug'] = d.returncode
    if d.returncode == 0:
        print(d.stdout[-1500:], d.stderr[-1500:])
    else:
        res['demo_out'] = (d.stdout + d.stderr).strip().splitlines()[-1][:160] if (d.stdout + d.stderr).strip() else ''
    if '--notest' not in sys.argv:
        t = sh('bash /opt/vp/test.sh /tmp/w/seed.json >/tmp/w/seedtest.log 2>&1; python3 /tmp/w/cmp.py /tmp/w/seed.json')
        res['tests'] = t.stdout.strip()
    if '--nocheck' not in sys.argv and os.path.exists(f'{V}/mc/checks/{P.lower()}.py'):
        c = sh(f'cd {V} && ./run.sh {P}')
        res['check'] = c.returncode
        v = [l for l in c.stdout.splitlines() if ' :: ' in l]
        res['viol'] = [x.strip()[:140] for x in v[:3]]
        res['n'] = len(v)
finally:
    sh('git -C /repo checkout -- .')
d = sh(f'bash {D}/demo.sh', cwd='/repo')
res['demo_clean'] = d.returncode
if d.returncode:
    print(d.stdout[-1500:], d.stderr[-1500:])
ok = res['demo_bug'] != 0 and res['demo_clean'] == 0 and ("missing []" in res.get('tests', 'missing []'))
print(sid, P, 'VALID' if ok else 'INVALID', 'CAUGHT' if res.get('check') == 1 else 'MISSED' if 'check' in res else 'NOCHECK')
print(json.dumps(res, indent=0))
