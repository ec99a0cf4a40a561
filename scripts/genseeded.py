#!/usr/bin/env python3
"""Writes and validates /verif/seeded: genseeded.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
V = os.path.abspath(V)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedbugs import BUGS
LIB = os.path.join(V, 'scripts', 'seedlib')
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = 0
for b in BUGS:
    if len(sys.argv) > 1 and b['id'] not in sys.argv[1:]: continue
    d = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/smtpd')
    for f in ('demo.sh', 'lib_test.go'): shutil.copy(os.path.join(LIB, f), d)
    for f in os.listdir(V + '/stub/smtpd'): shutil.copy(V + '/stub/smtpd/' + f, d + '/smtpd')
    imports = b.get('imports', ['testing'])
    open(d + '/demo_test.go', 'w').write('package main\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imports) + ')\n\n' + b['demo'].strip() + '\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp()
    try:
        run(['git', 'clone', '-q', '/repo', w + '/r'], w)
        r = w + '/r'
        ok = run(['bash', d + '/demo.sh'], r)
        for f, old, new in b['edits']:
            s = open(r + '/' + f).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(r + '/' + f, 'w').write(s.replace(old, new))
        p = run(['git', 'diff'], r).stdout
        open(d + '/patch.diff', 'w').write(p)
        no = run(['bash', d + '/demo.sh'], r)
        good = ok.returncode == 0 and no.returncode != 0 and '--- FAIL' in no.stdout
        print(b['id'], b['property'], 'ok' if good else 'BAD', ok.returncode, no.returncode)
        if not good:
            bad += 1
            print(ok.stdout[-1500:]); print(no.stdout[-1500:])
    finally:
        shutil.rmtree(w)
sys.exit(bad)
