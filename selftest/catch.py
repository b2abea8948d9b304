#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a scratch copy with the bug applied. usage: catch.py [regex] [--all]"""
import sys, os, re, json, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'sa'))
pat = sys.argv[1] if len(sys.argv) > 1 else '.'
import registry
for sid in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    if not re.search(pat, sid): continue
    meta = json.load(open(os.path.join(VERIF, 'seeded', sid, 'meta.json')))
    d = tempfile.mkdtemp(prefix='catch.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', 'apply', os.path.join(VERIF, 'seeded', sid, 'patch.diff')], cwd=d + '/repo', check=True)
        props = list(registry.PROPS) if '--all' in sys.argv else [meta['property']]
        for p in props:
            if p not in registry.PROPS: print('%-30s %s not claimed' % (sid, p)); continue
            r = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, GDO_REPO=d + '/repo'))
            out = r.stdout.decode('utf8', 'replace').strip().splitlines()
            print('%-30s %s %s %s' % (sid, p, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode), (out or [''])[0][:200])); sys.stdout.flush()
    finally: shutil.rmtree(d)
