"""Builds what the analyses need from /repo's current tree: irdump, the generator, generated
loaders and their LLVM IR.  Everything lands in a private scratch directory."""
import os, subprocess, hashlib, json, glob, sys, tempfile, atexit, shutil
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get('GDO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'build')
SRC = os.path.join(REPO, 'src')

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return p

def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('utf8', 'replace')[-3000:]))
    return p.stdout

def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='gdosa.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def cached(name, key, make):
    """make(tmpdir) builds into tmpdir; result dir CACHE/name-key"""
    d = os.path.join(CACHE, '%s-%s' % (name, key))
    if os.path.isdir(d): return d
    os.makedirs(CACHE, exist_ok=True)
    t = tempfile.mkdtemp(prefix='.tmp-' + name, dir=CACHE)
    try:
        make(t)
        try: os.rename(t, d)
        except OSError:
            if not os.path.isdir(d): raise
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True); raise
    # drop stale versions
    olds = sorted((p for p in glob.glob(os.path.join(CACHE, name + '-*')) if p != d), key=os.path.getmtime)
    for p in olds[:-3]: shutil.rmtree(p, ignore_errors=True)
    return d

def irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    def mk(t):
        fl = must(['llvm-config-18', '--cxxflags']).decode().split()
        ld = must(['llvm-config-18', '--ldflags']).decode().split()
        must(['clang++', '-O1', '-o', os.path.join(t, 'irdump'), src] + fl + ['-fno-rtti'] + ld + ['-lLLVM-18'])
    return os.path.join(cached('irdump', sha([src]), mk), 'irdump')

CXXFLAGS = ['-std=gnu++23', '-D_FILE_OFFSET_BITS=64', '-DHAVE_PROGRAM_INVOCATION_SHORT_NAME']

def src_files():
    out = []
    for root, d, fs in os.walk(SRC):
        for f in fs: out.append(os.path.join(root, f))
    return out

def generator():
    """directory with gendlopen, templates_data.cpp built from the current tree"""
    def mk(t):
        must(['gcc', '-O0', '-o', os.path.join(t, 'gen_templates_data'), os.path.join(SRC, 'gen_templates_data.c')])
        must([os.path.join(t, 'gen_templates_data'), os.path.join(SRC, 'templates'), os.path.join(t, 'templates_data.cpp')])
        inc = ['-I' + t, '-I' + SRC]
        jobs = []
        for f in sorted(glob.glob(os.path.join(SRC, '*.cpp'))) + [os.path.join(t, 'templates_data.cpp'), os.path.join(SRC, 'lex.yy.c')]:
            o = os.path.join(t, os.path.basename(f) + '.o')
            cc = ['gcc', '-std=gnu11'] if f.endswith('.c') else ['g++'] + CXXFLAGS
            jobs.append((cc + ['-w', '-O2' if b'<regex>' in open(f, 'rb').read() else '-O0', '-c', f, '-o', o] + inc + (['-D_FILE_OFFSET_BITS=64'] if f.endswith('.c') else []), o))
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: must(j[0]), jobs))
        must(['g++', '-o', os.path.join(t, 'gendlopen')] + [j[1] for j in jobs])
        for j in jobs: os.unlink(j[1])
    return cached('gen', sha(src_files()), mk)

def gendlopen(args, stdin=None, cwd=None, env=None, ok=True):
    exe = os.path.join(generator(), 'gendlopen')
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'}
    if env: e.update(env)
    p = run([exe] + args, input=stdin, cwd=cwd or scratch(), env=e, timeout=120)
    if ok and p.returncode: raise BuildError('gendlopen %s: %s' % (' '.join(args), p.stderr.decode('utf8', 'replace')))
    return p

def to_ir(src, flags, lang=None, name=None):
    """compile a source file to mem2reg'd IR and load it"""
    s = scratch(); b = os.path.join(s, (name or os.path.basename(src)) + '.' + hashlib.md5((src + repr(flags)).encode()).hexdigest()[:8])
    cc = 'clang++' if (lang == 'c++' or src.endswith(('.cpp', '.cxx'))) else 'clang'
    must([cc, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names', '-emit-llvm', '-c'] + flags + [src, '-o', b + '.bc'])
    must(['opt-18', '-passes=mem2reg', b + '.bc', '-o', b + '.m.bc'])
    js = must([irdump(), b + '.m.bc'])
    for e in ('.bc', '.m.bc'): os.unlink(b + e)
    return ir.Module(json.loads(js))

def program():
    """path of the whole generator program's IR (JSON): all sources, templates and the lexer linked"""
    def mk(t):
        must(['gcc', '-O0', '-o', os.path.join(t, 'gen_templates_data'), os.path.join(SRC, 'gen_templates_data.c')])
        must([os.path.join(t, 'gen_templates_data'), os.path.join(SRC, 'templates'), os.path.join(t, 'templates_data.cpp')])
        inc = ['-I' + t, '-I' + SRC, '-D_FILE_OFFSET_BITS=64', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names', '-emit-llvm', '-c']
        jobs = []
        for f in sorted(glob.glob(os.path.join(SRC, '*.cpp'))) + [os.path.join(t, 'templates_data.cpp'), os.path.join(SRC, 'lex.yy.c')]:
            o = os.path.join(t, os.path.basename(f) + '.bc')
            cc = ['clang', '-std=gnu11'] if f.endswith('.c') else ['clang++', '-std=gnu++23', '-DHAVE_PROGRAM_INVOCATION_SHORT_NAME', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
            jobs.append((cc + inc + [f, '-o', o], o))
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: must(j[0]), jobs))
        a = os.path.join(t, 'all.bc'); b = os.path.join(t, 'all.m.bc')
        must(['llvm-link-18', '-o', a] + [j[1] for j in jobs])
        must(['opt-18', '-passes=mem2reg', a, '-o', b])
        js = must([irdump(), b])
        with open(os.path.join(t, 'all.json'), 'wb') as f: f.write(js)
        for j in [x[1] for x in jobs] + [a, b]: os.unlink(j)
    return os.path.join(cached('prog', sha(src_files() + [os.path.join(VERIF, 'tools', 'irdump.cpp')]), mk), 'all.json')
