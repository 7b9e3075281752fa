"""Builds: the engine, the IR of /repo's current sources plus a harness, and native replay binaries."""
import os, re, subprocess, hashlib, sys, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18/bin/'
CLANG, CLANGXX = LLVM + 'clang', LLVM + 'clang++'
INC = ['-I' + REPO, '-I' + REPO + '/ext/kissfft', '-I' + REPO + '/ext/kissfft/tools', '-Dkiss_fft_scalar=double', '-DUSE_PTHREADS', '-DNDEBUG', '-w']
CINC = ['-DNO_BLAS_WRAP', '-DADD_', '-I' + REPO + '/ext/clapack/include', '-I' + REPO + '/ext/cblas/include']
NPROC = os.cpu_count() or 8

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(['make', '-s', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + BUILD])
    return os.path.join(BUILD, 'vpexec')

def sources():
    txt = open(os.path.join(REPO, 'build/general/Makefile.inc')).read().replace('\\\n', ' ')
    v = {}
    for line in txt.split('\n'):
        m = re.match(r'\s*([A-Z_]+)\s*:?=\s*(.*)$', line)
        if m: v[m.group(1)] = m.group(2)
    out = []
    for t in (v['SOURCES'] + ' ' + v.get('CLAPACK_SRC', '') + ' ' + v.get('CBLAS_SRC', '')).split():
        if t.startswith('$'): continue
        if t not in out and os.path.exists(os.path.join(REPO, t)): out.append(t)
    return out

_hdr = None
def hdrhash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ('.git', 'tests', '_build', '.hg'))
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.hh', '.inc')):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def cached(key, suffix, make):
    d = os.path.join(BUILD, 'cache'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(key.encode()).hexdigest()[:32] + suffix)
    if not os.path.exists(p):
        t = p + '.tmp%d' % os.getpid()
        make(t); os.replace(t, p)
    return p

def _compile(src, flags, suffix, std):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    c = src.endswith('.c')
    cmd0 = ([CLANG] + INC + CINC) if c else ([CLANGXX, '-std=' + std] + INC)
    key = hdrhash() + open(path, errors='replace').read() + path + ' '.join(cmd0 + flags)
    if path.startswith(VERIF):
        for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
            if f.endswith('.h'): key += open(os.path.join(VERIF, 'harness', f)).read()
    return cached(key, suffix, lambda t: run(cmd0 + flags + ['-c', path, '-o', t]))

IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-ffp-contract=off', '-fno-math-errno', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control']
NATFLAGS = ['-O1', '-g1', '-ffp-contract=off', '-fno-access-control']
def pmap(f, xs):
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(f, xs))

def lib_ir():
    return pmap(lambda s: _compile(s, IRFLAGS, '.bc', 'gnu++98'), sources())

def harness_bc(harness, defs=()):
    """bitcode of one harness linked with the library, optimised as a whole"""
    eng = engine()
    lib = lib_ir()
    hp = os.path.join(VERIF, 'harness', harness)
    hb = _compile(hp, IRFLAGS + ['-I' + os.path.join(VERIF, 'harness')] + list(defs), '.bc', 'gnu++11')
    rt = _compile(os.path.join(VERIF, 'engine', 'rt.cpp'), IRFLAGS, '.bc', 'gnu++11')
    key = 'link' + ' '.join([hb, rt] + lib) + str(os.path.getmtime(eng))
    def mk(t):
        run([LLVM + 'llvm-link', '-o', t + '.l', hb, rt] + lib)
        run([eng, t + '.l', '--opt-only', t]); os.unlink(t + '.l')
    return cached(key, '.opt.bc', mk)

def native(harness, kind='asan', defs=()):
    """kind: asan (replay), plain (for valgrind / value comparison)"""
    extra = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'plain': [], 'tsan': ['-fsanitize=thread']}[kind]
    hp = os.path.join(VERIF, 'harness', harness); threads = 'VP_THREADS' in open(hp).read()
    fl = NATFLAGS + extra
    def comp(s):
        return _compile(s, fl + (['-include', os.path.join(VERIF, 'harness', 'vp_shim.h')] if threads and kind != 'tsan' and s.startswith('thread/') else []), '.o', 'gnu++98')
    src = sources() if not (threads and kind == 'tsan') else [s for s in sources() if s.startswith('thread/')]
    objs = pmap(comp, src)
    hf = fl + ['-I' + os.path.join(VERIF, 'harness')] + list(defs)
    h = _compile(hp, hf + (['-include', os.path.join(VERIF, 'harness', 'vp_shim.h')] if threads and kind != 'tsan' else []), '.o', 'gnu++11'); n = _compile(os.path.join(VERIF, 'harness', 'vp_native.cpp'), hf, '.o', 'gnu++11')
    hs = [h, n] + ([_compile(os.path.join(VERIF, 'harness', 'vp_sched.cpp'), hf + ([] if kind != 'tsan' else ['-DVP_TSAN']), '.o', 'gnu++11')] if threads else [])
    key = 'nat' + kind + ' '.join(hs + objs)
    ar = cached(key, '.a', lambda t: run([LLVM + 'llvm-ar', 'rcs', t] + objs))
    return cached(key, '.bin', lambda t: run([CLANGXX] + extra + ['-o', t] + hs + [ar, '-lpthread', '-lm']))
if __name__ == '__main__':
    print(harness_bc(sys.argv[1])); print(native(sys.argv[1], 'asan'))
