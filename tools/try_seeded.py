#!/usr/bin/env python3
"""tools/try_seeded.py [ID...]: apply each seeded change to a scratch copy of /repo, run the check of its property on it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
for i in sorted(sys.argv[1:] or os.listdir(S)):
    d = tempfile.mkdtemp(prefix='seeded-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        subprocess.run(['git', '-C', d, 'apply', os.path.join(S, i, 'patch.diff')], check=True)
        prop = json.load(open(os.path.join(S, i, 'meta.json')))['property']
        t = time.time()
        p = subprocess.run(['./check', prop], cwd=V, env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        l = p.stdout.strip().split('\n')
        print(i, prop, {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'ERROR'), '%.0fs' % (time.time() - t), ' | '.join(l[-3:-1])[:200], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
