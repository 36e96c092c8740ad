"""Front end: current /repo sources -> LLVM IR (for the verifier) and -> shared objects (for replay)."""
import os
import subprocess
import hashlib
import tempfile
import atexit
import shutil
import threading
import ir

REPO = os.environ.get('GMLIB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMD_D = ['-DCPU_FLAG_SSE2', '-DCPU_FLAG_AVX2', '-DCPU_FLAG_AES', '-DCPU_FLAG_MOVBE', '-DCPU_FLAG_BMI2',
          '-DCPU_FLAG_RDSEED', '-DCPU_FLAG_RDRAND', '-DCPU_FLAG_PCLMUL']
SIMD_M = ['-msse2', '-mavx2', '-maes', '-mmovbe', '-mbmi2', '-mrdseed', '-mrdrnd', '-mpclmul']
COMMON = ['-DSUPPORT_SM3_YANG15', '-DSUPPORT_SM4_LANG18']

_work = None
_owner = None


def work():
    global _work, _owner
    if _work is None:
        _work = tempfile.mkdtemp(prefix='gmlib-vc-')
        _owner = os.getpid()

        def rm():
            if os.getpid() == _owner:
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(rm)
    return _work


class BuildError(Exception):
    pass


def flags(cfg):
    f = list(COMMON)
    if cfg == 'simd':
        f += SIMD_D + SIMD_M
    return f


_mods = {}
_lock = threading.Lock()


def src(path):
    return path if path.startswith('/') else os.path.join(REPO, 'src', path)


def compile_ir(path, cfg, extra=()):
    p = src(path)
    base = os.path.join(work(), hashlib.sha1(('%s|%s|%s' % (p, cfg, extra)).encode()).hexdigest()[:16])
    cmd = ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
           '-fno-strict-aliasing', '-w', '-DVC_VERIFY'] + flags(cfg) + ['-I' + REPO + '/include', '-I' + VERIF + '/native'] + list(extra) + \
          ['-S', '-emit-llvm', p, '-o', base + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang++ failed on %s: %s' % (p, r.stderr[-2000:]))
    r = subprocess.run(['opt', '-S', '-passes=sroa,instsimplify', base + '.ll', '-o', base + '.o.ll'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt failed on %s: %s' % (p, r.stderr[-2000:]))
    return base + '.o.ll'


def modules(specs):
    """specs: [(path, cfg)] -> [ir.Module]; compiled in parallel, parsed once"""
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in specs if s not in _mods]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: compile_ir(s[0], s[1], s[2] if len(s) > 2 else ()), todo))
    for s, o in zip(todo, outs):
        with open(o) as fh:
            text = fh.read()
            _mods[s] = ir.Module(text, s[0])
            _digest[s] = hashlib.sha1('\n'.join(l for l in text.split('\n') if not l.startswith(('attributes #', '!', 'source_filename', ';'))
                                                ).encode()).hexdigest()
        os.unlink(o)
    return [_mods[s] for s in specs]


_digest = {}


def same_ir(a, b):
    """both specs compile to the same IR (up to target attributes)"""
    modules([a, b])
    return _digest[a] == _digest[b]


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


_so = {}


def shared(name, cfg, sources=None, driver=None, extra=(), opt='-O2', sanitize=False, statics=False):
    """build a shared object from the current sources (and an optional driver)"""
    import ctypes
    if name in _so:
        return _so[name]
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(work(), 'so-%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    srcs = [src(s) for s in (sources if sources is not None else all_sources())]
    if driver:
        srcs.append(driver if driver.startswith('/') else os.path.join(VERIF, 'native', driver))

    def one(s):
        o = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + '.o')
        cmd = ['g++', '-std=c++17', opt, '-fPIC', '-w', '-c'] + flags(cfg) + ['-I' + REPO + '/include', '-I' + VERIF + '/native'] + list(extra) + (['-fkeep-static-functions'] if statics else []) + [s, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('g++ failed on %s: %s' % (s, r.stderr[-2000:]))
        if statics:
            subprocess.run(['objcopy', '--wildcard', '--globalize-symbol=_ZN*L*', o], check=True)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = os.path.join(d, 'lib.so')
    r = subprocess.run(['g++', '-shared', '-o', so] + objs, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('link failed: ' + r.stderr[-2000:])
    lib = ctypes.CDLL(so)
    _so[name] = lib
    return lib


def program(specs):
    import exec as E
    return E.Program(modules(specs))


def lazy_shared(*a, **k):
    return lambda: shared(*a, **k)
