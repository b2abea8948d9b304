#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from seed definitions and confirms each in a scratch copy of /repo:
the changed tree builds, its stable tests pass, the demonstration fails on it and passes on the unchanged tree.
usage: seeds.py [regex]"""
import sys, os, re, json, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seed_defs

PRE = '''#!/bin/bash
# run in the root of a built gendlopen tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
gen=$PWD/_build/src/gendlopen
src=$PWD/src
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def build_tree(d):
    """build.sh works on /repo; do the same on a copy"""
    return sh(['ninja', '-C', os.path.join(d, '_build')], d)

def one(s):
    sid = s['id']; out = os.path.join(VERIF, 'seeded', sid)
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); tree = os.path.join(d, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        for f, old, new in s['edits']:
            p = os.path.join(tree, f); t = open(p).read()
            if t.count(old) != 1: return sid, 'edit of %s matches %d times' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, stdout=subprocess.PIPE).stdout
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().strip()
        cur = None; orig = False
        for l in diff.decode().splitlines():
            if l.startswith('--- '): cur = set(subprocess.run(['git', 'show', base + ':' + l[6:]], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().splitlines())
            elif l.startswith('-'):
                if l[1:] not in cur: return sid, 'changes a line that is not original: ' + l
                orig = True
        if not orig: return sid, 'changes no original line'
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(PRE + s['demo']); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        for n, c in s.get('files', {}).items(): open(os.path.join(out, n), 'w').write(c)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(d, 'demo'); shutil.copytree(out, demo)
        a = sh(['bash', os.path.join(demo, 'demo.sh')], '/repo', timeout=300)
        if a.returncode: return sid, 'demo fails on the unchanged tree: ' + a.stdout.decode('utf8', 'replace')[-600:]
        # build the changed tree with the official scripts in a mount-free way: path-rewritten copies of the scripts
        for n in ('build.sh', 'test.sh', 'run_tests.py', 'results.py'):
            t = open('/opt/vp/' + n).read().replace('/repo', tree).replace('/opt/vp', d)
            open(os.path.join(d, n), 'w').write(t)
        shutil.rmtree(os.path.join(tree, '_build'))
        b = sh(['bash', os.path.join(d, 'build.sh')], tree)
        if b.returncode: return sid, 'does not build: ' + b.stdout.decode('utf8', 'replace')[-600:]
        r = sh(['bash', os.path.join(d, 'test.sh'), os.path.join(d, 'o.json')], tree)
        if not os.path.exists(os.path.join(d, 'o.json')): return sid, 'tests: ' + r.stdout.decode('utf8', 'replace')[-500:]
        o = json.load(open(os.path.join(d, 'o.json')))
        failed = o.get('failed') or []
        if failed: return sid, 'tests fail: %s' % failed[:4]
        c = sh(['bash', os.path.join(demo, 'demo.sh')], tree, timeout=300)
        if c.returncode == 0: return sid, 'demo passes on the changed tree'
        return sid, 'ok (%s)' % c.stdout.decode('utf8', 'replace').strip().splitlines()[-1:]
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    ss = [s for s in seed_defs.S if re.search(pat, s['id'])]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for sid, msg in ex.map(one, ss): print('%-30s %s' % (sid, msg)); sys.stdout.flush()
