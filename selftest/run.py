#!/usr/bin/env python3
"""Self-test of the checkers: applies each mutant of mutants.py to a scratch copy of /repo and runs the
checks of its property on it (GDO_REPO).  Not part of any registered check."""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import M
def one(m):
    name, prop, file, old, new, only = (list(m) + [None])[:6]
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/src', d + '/'], check=True)
        for x in ('README.md', 'meson.build', 'CMakeLists.txt', 'examples', 'tests'):
            if os.path.exists('/repo/' + x): subprocess.run(['cp', '-a', '/repo/' + x, d + '/'])
        p = os.path.join(d, file); s = open(p).read()
        if callable(old): t = old(s)
        else:
            if s.count(old) < 1: return name, 'NOMATCH', ''
            t = s.replace(old, new, 1)
        open(p, 'w').write(t)
        v = tempfile.mkdtemp(prefix='mutv.', dir='/tmp')
        try:
            for x in ('check.py', 'sa', 'harness', 'tools', 'known_findings.txt', 'build'):
                if os.path.exists('/verif/' + x): subprocess.run(['cp', '-a', '/verif/' + x, v + '/'], check=True)
            r = subprocess.run(['python3', v + '/check.py', prop] + (['--only', only] if only else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, GDO_REPO=d), cwd=v, timeout=900)
        finally: shutil.rmtree(v)
        out = r.stdout.decode('utf8', 'replace')
        return name, {0: 'quiet', 1: 'CAUGHT', 2: 'ERROR'}.get(r.returncode, str(r.returncode)), out
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    ms = [m for m in M if re.search(pat, m[0])]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for n, r, out in ex.map(one, ms):
            exp = 'quiet' if n.startswith('same-') else 'CAUGHT'
            l = [x for x in out.splitlines() if x]
            print('%-4s %-40s %s   %s' % ('ok' if r == exp else 'BAD', n, r, (l[0] if l else '')[:230])); sys.stdout.flush()
            if r == 'ERROR' or '-v' in sys.argv: print(out[-1500:])
