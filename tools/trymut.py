#!/usr/bin/env python3
"""trymut.py FILE [name...]: FILE defines M = [(name, expect, checks, [(path, old, new), ...])]; applies each edit to /repo, runs
the checks, undoes it.  expect: 'bug' or 'same'."""
import subprocess, sys, runpy, time
M = runpy.run_path(sys.argv[1])['M']
sel = sys.argv[2:]
try:
    for name, expect, checks, edits in M:
        if sel and name not in sel:
            continue
        for p, old, new in edits:
            q = '/repo/src/' + p
            s = open(q).read()
            assert s.count(old) >= 1, (name, p, old, s.count(old))
            open(q, 'w').write(s.replace(old, new, 1))
        for c in checks:
            t = time.time()
            r = subprocess.run(['python3-vt', '/verif/check.py', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = (r.returncode == 1) == (expect == 'bug') and r.returncode in (0, 1)
            print('%-28s %-4s %s rc=%d %s %.0fs' % (name, expect, c, r.returncode, 'ok' if ok else '**** WRONG', time.time() - t), flush=True)
            for l in r.stdout.split('\n'):
                if 'violation:' in l or 'undecided' in l or (not ok and 'candidate' in l) or 'Error' in l or 'error' in l :
                    print('      ', l[:230])
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
