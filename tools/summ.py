"""development helper: run a check and summarise violations by the tail of their key"""
import subprocess, sys, re, collections
out = subprocess.run(['./run.sh'] + sys.argv[1:] + ['-v'], capture_output=True, text=True, cwd='/verif').stdout
lines = out.splitlines()
cat = collections.defaultdict(list)
for l in lines:
    m = re.match(r'  (\S.*?) :: (.*)', l)
    if m:
        t = m.group(1).split('|')
        k = re.sub(r'#[0-9a-f]{16}', '', '|'.join(t[2:])) if len(t) > 2 and not t[0].startswith('[') else 'TASK' + t[-1][-20:]
        cat[k].append((m.group(1), m.group(2)))
for k, v in sorted(cat.items(), key=lambda x: -len(x[1]))[:25]:
    print(len(v), k[:100])
    for a, b in v[:3]:
        print('      ', a[:90], '::', b[:230])
print([l for l in lines if l.startswith(sys.argv[1])])
print(lines[-1][:300])
