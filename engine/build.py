"""Builds, from /repo's current working tree: the linked LLVM IR that is encoded, and the native replay program."""
import glob, os, subprocess, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CM_REPO', '/repo')
LIB = REPO + '/ColorMagic'
BASE = ['-std=c++14', '-fms-extensions', '-Wno-nonportable-include-path', '-w', '-isystem', ROOT + '/shim', '-include', 'msvc_compat.h', '-I' + LIB, '-I' + REPO, '-I' + ROOT + '/harness', '-DNDEBUG']
SYM = ['-fno-pic', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-builtin-rand', '-isystem', ROOT + '/shim_sym', '-emit-llvm', '-c']
NAT = ['-O2', '-c']
SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-c']
CXX = 'clang++-18'
BIN = '/usr/lib/llvm-18/bin/'

class BuildError(Exception): pass

def sources():
    out = []
    for d in ('', 'manipulation/', 'spaces/', 'utils/'):
        for f in sorted(glob.glob(LIB + '/' + d + '*.cpp')):
            if os.path.basename(f).lower() == 'dllmain.cpp': continue
            out.append(f)
    return out

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def build(work, harness, sym=True, native=True, san=False):
    os.makedirs(work, exist_ok=True)
    src = sources() + [harness]
    jobs = []
    objs = {'sym': [], 'nat': [], 'san': []}
    with cf.ThreadPoolExecutor(8) as ex:
        for kind, on, fl, ext in (('sym', sym, SYM, 'bc'), ('nat', native, NAT, 'o'), ('san', san, SAN, 'san.o')):
            if not on: continue
            for i, s in enumerate(src):
                o = '%s/%02d_%s.%s' % (work, i, os.path.basename(s).replace('.cpp', ''), ext)
                objs[kind].append(o)
                # order matters: shim_sym must come before the system headers
                jobs.append(ex.submit(run, [CXX] + fl + BASE + [s, '-o', o]))
            if kind != 'sym':
                o = work + '/runtime.' + ext
                objs[kind].append(o)
                jobs.append(ex.submit(run, [CXX] + fl + ['-std=c++14', ROOT + '/native/runtime.cpp', '-o', o]))
        for j in jobs: j.result()
    res = {}
    if sym:
        run([BIN + 'llvm-link', '-S', '-o', work + '/all.ll'] + objs['sym'])
        res['ll'] = work + '/all.ll'
    for kind, name, extra in (('nat', 'native', []), ('san', 'native_san', ['-fsanitize=address,undefined'])):
        if objs[kind]:
            run([CXX, '-rdynamic', '-o', work + '/' + name] + objs[kind] + extra + ['-ldl'])
            res[name] = work + '/' + name
    return res
