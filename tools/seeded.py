#!/usr/bin/env python3
"""seeded.py OUT.jsonl [ids]: runs, for every planted bug, the check of its own property on a scratch copy (not part of any check)"""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, only = sys.argv[1], sys.argv[2:]
done = set()
if os.path.exists(out):
    done = {json.loads(l)['id'] for l in open(out)}
for i in sorted(os.listdir(V + '/seeded')):
    if i in done or (only and i not in only): continue
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='seeded.')
    t = d + '/zksigma'
    subprocess.run(['cp', '-a', '/repo', t], check=True)
    r = subprocess.run(['git', '-C', t, 'apply', f'{V}/seeded/{i}/patch.diff'])
    rc, runs, secs = -1, 0, 0
    if r.returncode == 0:
        e = dict(os.environ, ZKDST_REPO=t, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        p = subprocess.run([V + '/check.sh', 'check', m['property']], capture_output=True, text=True, env=e)
        rc = p.returncode
        s = re.search(r': (\d+) runs.* (\d+) s$', p.stdout, re.M)
        if s: runs, secs = int(s[1]), int(s[2])
    with open(out, 'a') as f:
        f.write(json.dumps({'id': i, 'property': m['property'], 'rc': rc, 'runs': runs, 's': secs, 'needs': m['needs']}) + '\n')
    print(i, m['property'], rc, runs, secs, flush=True)
    shutil.rmtree(d)
