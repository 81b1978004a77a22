#!/usr/bin/env python3
"""catch.py DIR [id...]: (in a world) apply each planted bug under DIR and run the check of its property"""
import json, os, subprocess, sys, time
D = sys.argv[1]
for i in sys.argv[2:] or sorted(os.listdir(D)):
    m = json.load(open('%s/%s/meta.json' % (D, i)))
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (D, i)], check=True)
    t = time.time()
    r = subprocess.run(['python3-vt', '/verif/check.py', m['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split('\n') if 'violation:' in l]
    u = [l for l in r.stdout.split('\n') if 'undecided' in l or 'candidate' in l]
    print('%-24s %s %s %4.0fs %s' % (i, m['property'], 'caught' if r.returncode == 1 else '**** MISSED rc=%d' % r.returncode, time.time() - t, (v or [''])[0][:160]), flush=True)
    if r.returncode != 1:
        for l in u[:8]:
            print('      ', l[:220], flush=True)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
