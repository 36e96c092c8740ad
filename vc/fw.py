"""Framework: obligations of one property, run in parallel, with replay of counterexamples and evidence."""
import ctypes
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import term as T
import exec as E
import fe

VERIF = fe.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'        # proved | refuted | undecided | bounded
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.contract = set()         # functions verified against their contract here
        self.assumed = set()          # contracts used at call sites
        self.inlined = set()
        self.notes = []
        self.violations = []          # dicts
        self.bounded = None           # description of bounded evidence
        self.bounded_n = 0
        self.samples = []
        self.inductions = []          # lemmas that lift concrete counts to every count
        self.time = 0.0
        self.solver_time = 0.0
        self.assumptions = set()

    def ok(self, backend, n=1):
        self.obligations += n
        self.discharged += n
        self.backends[backend] = self.backends.get(backend, 0) + n

    def fail(self, kind='undecided'):
        """undecided: a limit was hit; failed: analysed to the end, not discharged; refuted: a counterexample"""
        self.obligations += 1
        rank = ['proved', 'bounded', 'undecided', 'failed', 'refuted']
        if rank.index(kind) > rank.index(self.status):
            self.status = kind

    def merge_exec(self, ex):
        n = ex.nob
        d = ex.nob_discharged
        self.obligations += d
        self.discharged += d
        if d:
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + d
        self.assumed |= set(ex.called)
        self.inlined |= set(ex.inlined)


class Task:
    def __init__(self, name, fn, limit=200, group=None):
        self.name = name
        self.fn = fn
        self.limit = limit


class Timeout(Exception):
    pass


def searched(name, fn, search, limit=200):
    """a task whose failure is followed by a search for a failing input on the real code; search() returns a description"""
    def run(r):
        err = None
        try:
            fn(r)
        except Exception as e:
            err = e
        if err is None and r.status in ('proved', 'bounded') or any(v.get('confirmed') for v in r.violations):
            return
        try:
            w = search()
        except Exception as e:
            r.notes.append('search failed: %s' % e)
            w = None
        if w:
            r.fail('refuted')
            if err:
                r.notes.append('%s: %s' % ('outside the verified subset' if isinstance(err, E.Unsupported) else type(err).__name__, err))
            r.violations.append({'obligation': name, 'what': w, 'confirmed': True, 'verifier_output': list(r.notes)})
        elif err is not None:
            raise err
    return Task(name, run, limit)


def _alarm(sig, frm):
    raise Timeout()


def _run_task(i):
    t = _TASKS[i]
    r = Result(t.name)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t.limit, 5)      # again every 5 s: a first one may be swallowed by a destructor
    random.seed(SEED * 1000003 + i)
    try:
        import smt
        s0 = smt.STAT['time']
        t.fn(r)
        r.solver_time = smt.STAT['time'] - s0
    except Timeout:
        r.fail()
        r.notes.append('time limit of %d s reached' % t.limit)
    except E.TimeBudget as e:
        r.fail()
        r.notes.append(str(e))
    except E.Unsupported as e:
        # a completed analysis that could not discharge the obligations of the current code
        r.fail('failed')
        r.notes.append('outside the verified subset: %s' % e)
    except fe.BuildError as e:
        r.fail()
        r.notes.append('build: %s' % e)
    except RecursionError:
        r.fail()
        r.notes.append('recursion limit')
    except Exception as e:
        r.fail()
        r.notes.append('internal: %s' % traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.time = time.time() - t0
    return r


_TASKS = []

TRUSTED = [
    'clang 18 front end (C++ to LLVM IR), opt sroa/instsimplify',
    'this verifier: vc/ir.py, vc/exec.py, vc/term.py, vc/intrin.py, vc/arith.py (cross-checked by random evaluation)',
    'z3',
]
ASSUMPTIONS = [
    'the compiler used to build the library preserves the LLVM IR semantics produced by clang 18 at -O1 without passes',
    'x86 intrinsics behave as modelled in vc/intrin.py',
    'machine integers are modelled bit-exactly; signed overflow is treated as wrapping',
]


def infrastructure_failure(pid, tb):
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'proof',
          'coverage': {'obligations': 1, 'discharged': 0, 'checker_cmd': './check ' + pid, 'trusted_base': list(TRUSTED),
                       'undecided': [{'obligation': 'all', 'why': tb[-1500:]}]},
          'assumptions': [], 'wall_s': 0, 'violations': 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: the checker could not run; nothing decided' % pid)
    return 0


def _rss():
    try:
        with open('/proc/self/statm') as fh:
            return int(fh.read().split()[1]) * 4096
    except OSError:
        return 0


def _worker(conn):
    while True:
        try:
            i = conn.recv()
        except EOFError:
            break
        if i is None:
            break
        r = _run_task(i)
        conn.send((r, _rss()))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


RECYCLE = 1300 << 20        # a worker that grew beyond this is replaced before its next task
TOTAL_QUICK = 600


def run_tasks(tasks, procs=8):
    """run the tasks in forked workers; a worker that dies or grows too large is replaced"""
    global _TASKS
    _TASKS = tasks
    if len(tasks) == 1 or procs == 1:
        return [_run_task(i) for i in range(len(tasks))]
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    res = [None] * len(tasks)
    queue = list(range(len(tasks)))[::-1]
    died = {}
    workers = {}
    bad = 0
    stop = False
    t_end = time.time() + (TOTAL_QUICK if TIER == 'quick' else 6 * 3600)

    def give_up(i, note):
        r = res[i] = Result(tasks[i].name)
        r.fail()
        r.notes.append(note)

    def spawn():
        sys.stdout.flush()
        a, b = ctx.Pipe()
        pr = ctx.Process(target=_worker, args=(b,), daemon=False)
        pr.start()
        b.close()
        w = {'conn': a, 'proc': pr, 'task': None}
        workers[a] = w
        return w

    def retire(w, kill=False):
        workers.pop(w['conn'], None)
        try:
            if not kill:
                w['conn'].send(None)
        except OSError:
            pass
        w['conn'].close()
        if kill:
            w['proc'].kill()
        w['proc'].join(5)

    def assign(w):
        if queue:
            w['task'] = queue.pop()
            w['t0'] = time.time()
            w['conn'].send(w['task'])
        else:
            w['task'] = None
            retire(w)

    for _ in range(min(procs, len(tasks))):
        assign(spawn())
    while workers:
        for c in wait(list(workers), timeout=5):
            w = workers[c]
            i = w['task']
            try:
                r, rss = c.recv()
            except (EOFError, OSError):
                retire(w, True)
                died[i] = died.get(i, 0) + 1
                if died[i] >= 2:
                    give_up(i, 'worker process died')
                else:
                    queue.insert(0, i)      # retried last, when fewer workers run
                if queue and not stop:
                    assign(spawn())
                continue
            res[i] = r
            if r.violations or r.status == 'failed':
                bad += 1 if not any(v.get('confirmed') for v in r.violations) else 3
            if bad >= 12 and not stop:
                stop = True
                queue.clear()
            if rss > RECYCLE and queue:
                retire(w)
                w = spawn()
            assign(w)
        now = time.time()
        if now > t_end and queue:
            stop = True
            queue.clear()
        for w in list(workers.values()):
            if w['task'] is not None and now - w['t0'] > tasks[w['task']].limit + 60:
                give_up(w['task'], 'time limit reached')
                retire(w, True)
                if queue:
                    assign(spawn())
    for i in range(len(tasks)):
        if res[i] is None:
            give_up(i, 'not run: the outcome is already decided or the total time limit was reached')
    return res


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def main(pid, tasks, trusted=(), assumptions=(), level='proof', bounded_note=None, checker=None):
    t0 = float(os.environ.get('VC_T0', time.time()))
    only = os.environ.get('VC_ONLY')
    if only:
        tasks = [t for t in tasks if only in t.name]
    res = run_tasks(tasks)
    known = load_known()
    ob = sum(r.obligations for r in res)
    dis = sum(r.discharged for r in res)
    be = {}
    for r in res:
        for k, v in r.backends.items():
            be[k] = be.get(k, 0) + v
    viol = []
    kf = []
    for r in res:
        for v in r.violations:
            v.setdefault('obligation', r.name)
            hit = None
            for f in known.get('findings', []):
                if f['property'] == pid and v.get('key') and f.get('key') == v.get('key'):
                    hit = f
            if hit:
                kf.append((hit, v))
            else:
                viol.append(v)
    for r in res:
        if r.status == 'failed' and not r.violations:
            viol.append({'obligation': r.name, 'what': 'not discharged: ' + '; '.join(r.notes)[:1500], 'confirmed': False,
                         'verifier_output': r.notes})
    und = [r for r in res if r.status in ('undecided', 'failed')]
    print('%s: %d obligations, %d discharged, %d tasks (%d undecided), back ends %s' % (pid, ob, dis, len(res), len(und), be))
    for r in und:
        print('  undecided: %s: %s' % (r.name, ' '.join('; '.join(r.notes).split())[-220:]))
    if os.environ.get('VC_VERBOSE'):
        for r in sorted(res, key=lambda r: -r.time)[:40]:
            print('  %7.2fs %-10s %s %s' % (r.time, r.status, r.name, ' '.join('; '.join(r.notes).split())[-120:]))
    cov = {
        'obligations': ob,
        'discharged': dis,
        'checker_cmd': checker or './check %s' % pid,
        'trusted_base': list(trusted),
        'back_ends': be,
        'solver_time_s': round(sum(r.solver_time for r in res), 3),
        'functions_under_contract': sorted(set().union(*[r.contract for r in res])) if res else [],
        'contracts_used_at_calls': sorted(set().union(*[r.assumed for r in res])) if res else [],
        'functions_executed_inline': sorted(set().union(*[r.inlined for r in res]))[:400] if res else [],
        'tasks': len(res),
        'undecided': [{'obligation': r.name, 'why': '; '.join(r.notes)[:500]} for r in und],
        'bounded': [{'obligation': r.name, 'bound': r.bounded, 'evaluations': r.bounded_n} for r in res if r.bounded],
        'inductions': sum([r.inductions for r in res], []),
        'samples': sum([r.samples for r in res], [])[:5],
    }
    asm = set(assumptions)
    for r in res:
        asm |= r.assumptions
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
        'assumptions': sorted(asm), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    seen = set()
    for f, v in kf:
        if f['key'] not in seen:
            seen.add(f['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if viol:
        # prefer violations confirmed on the real code
        viol.sort(key=lambda v: 0 if v.get('confirmed') else 1)
        conf = [v for v in viol if v.get('confirmed')]
        show = conf[:5] if conf else viol[:5]
        for i, v in enumerate(show):
            path = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (pid, i))
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1, default=str)
            print('  failed obligation: %s' % v.get('obligation'))
            print('  %s' % str(v.get('what', ''))[:400])
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v.get('confirmed') else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1
    if ob == 0:
        print('no obligations generated')
    sys.stdout.flush()
    return 0


# ------------------------------------------------------------------ concrete environments
CORNERS = [0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe]


def gen_value(R, w, special=()):
    k = R.randrange(10)
    M = (1 << w) - 1
    if k == 0:
        return 0
    if k == 1:
        return M
    if k == 2 and special:
        v = R.choice(special)
        return (v + R.choice([-2, -1, 0, 0, 0, 1, 2])) & M
    if k == 3:
        return R.choice([1, 2, M - 1, 1 << (w - 1), (1 << (w - 1)) - 1]) & M
    if k <= 6 and w > 8:
        # words of corner values
        g = R.choice([8, 16, 32, 64])
        v = 0
        for i in range(0, w, g):
            x = R.choice([0, (1 << g) - 1, (1 << g) - 1, 1, R.getrandbits(g), 1 << (g - 1)])
            v |= x << i
        return v & M
    return R.getrandbits(w)


def gen_env(R, gens=None, special=()):
    env = {}

    def d(t):
        if gens and t.aux in gens:
            return gens[t.aux](R)
        for _ in range(50):
            v = gen_value(R, t.w, special)
            if t.lo <= v <= t.hi:
                return v
        return R.randrange(t.lo, t.hi + 1)
    env['__default__'] = d
    return env


# ------------------------------------------------------------------ native buffers with guard pages
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Guarded:
    """a buffer that ends exactly at an inaccessible page"""

    def __init__(self, data):
        n = len(data)
        self.n = n
        pages = (n + 4095) // 4096 + 1
        self.len = (pages + 1) * 4096
        self.base = libc.mmap(None, self.len, 3, 0x22, -1, 0)
        # filler before the buffer
        ctypes.memset(self.base, 0xA5, self.len - 4096)
        libc.mprotect(self.base + self.len - 4096, 4096, 0)
        self.addr = self.base + self.len - 4096 - n
        if n:
            ctypes.memmove(self.addr, bytes(data), n)

    def read(self):
        return ctypes.string_at(self.addr, self.n) if self.n else b''

    def before_intact(self):
        m = min(64, self.addr - self.base)
        return ctypes.string_at(self.addr - m, m) == b'\xA5' * m

    def free(self):
        libc.munmap(self.base, self.len)


def in_child(f, timeout=60):
    """run f() in a forked child, return ('ok', value) | ('signal', n) | ('timeout',)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            v = f()
            with os.fdopen(w, 'w') as fh:
                fh.write(json.dumps(v))
            os._exit(0)
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
            except Exception:
                pass
            os._exit(77)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        n = os.WTERMSIG(st)
        return ('timeout',) if n == signal.SIGALRM else ('signal', n)
    if os.WEXITSTATUS(st) != 0:
        return ('error', os.WEXITSTATUS(st))
    return ('ok', json.loads(data))


# ------------------------------------------------------------------ function-level verification
class Goal:
    __slots__ = ('label', 'got', 'want', 'backend', 'pc', 'where')

    def __init__(self, label, got, want, where=None, backend=None, pc=()):
        self.label = label
        self.got = got
        self.want = want
        self.where = where     # ('mem', obj, off, n) or ('ret',)
        self.backend = backend
        self.pc = pc


class Setup:
    """symbolic pre-state of one function under contract"""

    def __init__(self, ex, st):
        self.ex = ex
        self.st = st
        self.init = []      # (obj, off, term)
        self.args = []
        self.pre = []
        self.gens = {}
        self.special = ()
        self.objs = []

    def obj(self, name, size, cells=(), const=False):
        o = E.Obj(name, size, 'arg', const)
        self.objs.append(o)
        for off, t in cells:
            n = t.w // 8
            m = self.ex.cells_of(self.st, o, True)
            for i in range(n):
                m.cells[off + i] = (t, i)
            self.init.append((o, off, t))
        return o

    def arg(self, a):
        self.args.append(a)
        return a

    def ptr(self, o, off=0):
        return E.Ptr(o, T.const(off, 64))

    def init_of(self, name):
        for o, off, t in self.init:
            if t.op == 'v' and t.aux == name:
                return t
        # aliased parameters share one variable
        for o, off, t in self.init:
            return t

    def require(self, c):
        self.pre.append(c)
        self.ex.assume(self.st, c)


def mem_get(ex, st, o, off, n):
    w, sz = o.writable, o.size
    return ex.load_bytes(st, E.Ptr(o, T.const(off, 64)), n, 'post')


def frame_goals(ex, st, su, writable):
    """every byte of the input objects outside the writable ranges keeps its value"""
    bad = []
    for o, off, t in su.init:
        for i in range(t.w // 8):
            if any(o is wo and wlo <= off + i < wlo + wn for wo, wlo, wn in writable):
                continue
            c = ex.cells_of(st, o).cells.get(off + i)
            if c is None or c[0] is not t or c[1] != i:
                b = mem_get(ex, st, o, off + i, 1)
                e = T.ext(t, 8 * i, 8)
                if b is not e:
                    bad.append(Goal('frame %s[%d]' % (o.name, off + i), b, e, ('mem', o, off + i, 1)))
    return bad


def native_args(su, args, env, ufs):
    """concrete buffers and arguments for a native call"""
    bufs = {}
    for o in su.objs:
        size = o.size if isinstance(o.size, int) else 0
        data = bytearray(random.Random(o.id).randbytes(size))
        bufs[o] = data
    terms = [t for _, _, t in su.init]
    vals = T.evaluate(terms, env, ufs) if terms else []
    for (o, off, t), v in zip(su.init, vals):
        n = t.w // 8
        bufs[o][off:off + n] = v.to_bytes(n, 'little')
    return bufs


def run_native(lib, sym, su, args, env, ufs, restype, reads):
    """call the real function; returns dict with ret and the requested memory ranges"""
    bufs = native_args(su, args, env, ufs)
    gb = {o: Guarded(d) for o, d in bufs.items()}
    glob = {}

    def materialise(o):
        """native copy of a constant global"""
        if o not in glob:
            cells = su.ex.prog.init_cells(o)
            size = o.size
            data = bytearray(size)
            i = 0
            while i < size:
                if i not in cells:
                    i += 1
                    continue
                v, k = cells[i]
                if isinstance(v, E.Ptr):
                    a = materialise(v.obj) + v.off.aux if v.obj is not None else 0
                    data[i:i + 8] = a.to_bytes(8, 'little')
                    i += 8
                    continue
                data[i] = (v.aux >> (8 * k)) & 255
                i += 1
            b = ctypes.create_string_buffer(bytes(data), max(size, 1))
            glob[o] = b
        return ctypes.addressof(glob[o])
    for a in args:
        if isinstance(a, E.Ptr) and a.obj is not None and a.obj.kind == 'global':
            materialise(a.obj)

    def call():
        fn = getattr(lib, sym)
        fn.restype = restype
        ca = []
        for a in args:
            if isinstance(a, E.Ptr):
                if a.obj is None:
                    ca.append(ctypes.c_void_p(0))
                else:
                    off = T.evaluate([a.off], env, ufs)[0]
                    base = gb[a.obj].addr if a.obj in gb else materialise(a.obj)
                    ca.append(ctypes.c_void_p(base + off))
            else:
                v = T.evaluate([a], env, ufs)[0]
                ca.append({8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64, 1: ctypes.c_uint8}[a.w](v))
        r = fn(*ca)
        out = {'ret': int(r) if r is not None else None}
        for o, off, n in reads:
            out['%d:%d:%d' % (o.id, off, n)] = ctypes.string_at(gb[o].addr + off, n).hex()
        for o in su.objs:
            if not gb[o].before_intact():
                out['underrun'] = o.name
        return out
    r = in_child(call)
    for g in gb.values():
        g.free()
    return r, {o.name: bytes(d).hex() for o, d in bufs.items()}


class FnSpec:
    """contract of one function on one aliasing pattern / case"""

    def __init__(self, name, func, setup, post, contracts=None, lib=None, sym=None, ret=None, ufs=None, backends=('arith', 'smt'),
                 tries=200, limit=None, frame=None, budget=3000000, decide=None, throws_ok=None, arith_subs=None):
        self.__dict__.update(locals())


RET = {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64, 1: ctypes.c_uint8}


def verify(r, prog, spec):
    """run the function symbolically and discharge its postcondition; fills Result r"""
    ex = E.Exec(prog, spec.contracts or {}, decide=spec.decide, budget=spec.budget)
    st = E.State()
    su = Setup(ex, st)
    f = spec.func if isinstance(spec.func, object) and hasattr(spec.func, 'blocks') else prog.fn(spec.func)
    spec.setup(su)
    r.contract.add(E.short(f.name))
    oob = None
    try:
        st2, ret = ex.call(f, su.args, st)
    except E.OutOfBounds as e:
        r.merge_exec(ex)
        r.fail('refuted')
        cex_memory(r, spec, su, f, str(e), ex)
        return
    r.merge_exec(ex)
    # vacuity: the precondition is satisfiable and the function returns
    goals = []
    if st2 is None:
        if not spec.throws_ok:
            r.fail('refuted')
            r.violations.append({'what': 'no normal return', 'obligation': spec.name, 'confirmed': False})
            return
    else:
        goals = list(spec.post(su, ex, st2, ret))
        if spec.frame is not None:
            goals += frame_goals(ex, st2, su, spec.frame(su))
            r.ok('simplifier')
    for t in ex.throws:
        if spec.throws_ok is None or spec.throws_ok is False:
            goals.append(Goal('no exception (%s in %s)' % (t.what, t.fn), T.TRUE, T.FALSE, None, None, t.pc))
    for o in ex.obs:
        goals.append(Goal('%s: %s' % (o.kind, o.desc), o.cond, T.TRUE, ('ob',), None, o.pc))
    discharge(r, spec, su, f, ex, goals)


def conj(facts):
    c = T.TRUE
    for f in facts:
        c = T.and_(c, f)
    return c


def discharge(r, spec, su, f, ex, goals):
    import arith
    import smt
    pend = []
    for g in goals:
        if g.got is g.want:
            r.ok('simplifier')
        else:
            pend.append(g)
    if not pend:
        return
    R = random.Random(SEED)
    ufs = spec.ufs or {}
    # concrete search for counterexamples first: cheap and gives real inputs
    tries = spec.tries
    terms = []
    for g in pend:
        terms += [g.got, g.want]
    for k in range(tries):
        env = gen_env(R, su.gens, su.special)
        try:
            if su.pre and not all(T.evaluate(su.pre, env, ufs)):
                continue
            bad = None
            memo = {}
            for g in pend:
                a = T._eval(g.got, env, memo, ufs)
                b = T._eval(g.want, env, memo, ufs)
                if a != b and all(T._eval(c, env, memo, ufs) for c in g.pc):
                    bad = (g, a, b)
                    break
            if bad:
                report_cex(r, spec, su, f, env, bad[0], bad[1], bad[2], pend)
                return
        except KeyError as e:
            r.notes.append('cannot evaluate %s' % e)
            break
    rest = []
    if 'arith' in spec.backends:
        A = arith.Arith()
        A.set_cuts(terms)
        if spec.arith_subs:
            spec.arith_subs(A, su)
        for g in pend:
            if g.backend is not None:
                rest.append(g)
                continue
            try:
                d = arith.padd(A.val(g.got), A.val(g.want), -1)
                d = {m: c for m, c in d.items() if arith.norm(c) != 0}
                if not d:
                    r.ok('integer polynomials')
                    continue
                if os.environ.get('VC_DEBUG'):
                    print('arith residual', spec.name, g.label, A.show(d))
            except arith.Undecided as e:
                pass
            rest.append(g)
    else:
        rest = pend
    slow = False
    for g in rest:
        t0 = smt.STAT['timeouts']
        if g.backend is not None:
            ok = g.backend(g, su, ex)
            if ok:
                r.ok(ok if isinstance(ok, str) else 'custom')
                continue
            if getattr(g.backend, 'final', False) and T.size([g.got, g.want]) > 400:
                r.fail('failed')
                r.notes.append('not discharged: %s' % g.label)
                continue
        if 'smt' in spec.backends:
            s, env = smt.check(list(g.pc) + su.pre, T.eq(g.got, g.want), 20000 if slow else 100000)
            if s == 'proved':
                r.ok('z3')
                continue
            if s == 'refuted':
                env = dict(env)
                env['__default__'] = lambda t: t.lo
                try:
                    a, b = T.evaluate([g.got, g.want], env, ufs)
                    if a != b:
                        report_cex(r, spec, su, f, env, g, a, b, pend)
                        return
                except KeyError:
                    pass
        r.fail('undecided' if slow and smt.STAT['timeouts'] > t0 and g.backend is None else 'failed')
        r.notes.append('not discharged: %s' % g.label)
        slow = True


def report_cex(r, spec, su, f, env, g, a, b, pend):
    """confirm on the real code"""
    r.fail('refuted')
    ufs = spec.ufs or {}
    v = {'obligation': '%s: %s' % (spec.name, g.label), 'function': E.short(f.name), 'symbol': f.name,
         'verifier': {'code computes': hex(a), 'contract requires': hex(b)}, 'confirmed': False}
    inp = {}
    for o, off, t in su.init:
        inp['%s[%d..%d]' % (o.name, off, off + t.w // 8)] = hex(T.evaluate([t], env, ufs)[0])
    for i, x in enumerate(su.args):
        if isinstance(x, T.T):
            inp['arg%d' % i] = hex(T.evaluate([x], env, ufs)[0])
        elif isinstance(x, E.Ptr) and x.obj is not None:
            inp['arg%d' % i] = '&%s' % x.obj.name
    v['input'] = inp
    lib = spec.lib() if callable(spec.lib) else spec.lib
    if lib is not None and getattr(spec, 'replay', None):
        try:
            what = spec.replay(lib, spec.sym or f.name.lstrip('@').strip('"'), env)
            if what:
                v['confirmed'] = True
                v['what'] = what
            else:
                v['what'] = 'the verifier refutes %s but the replayed input does not show it' % g.label
        except Exception as e:
            v['what'] = 'replay failed: %s' % e
    elif lib is not None:
        sym = spec.sym or f.name.lstrip('@').strip('"')
        reads = [gg.where[1:4] for gg in pend if gg.where and gg.where[0] == 'mem']
        if g.where and g.where[0] == 'mem' and g.where[1:4] not in reads:
            reads.append(g.where[1:4])
        rt = None
        rw = f.mod.resolve(f.rty)
        if rw[0] == 'i':
            rt = RET.get(rw[1])
        try:
            res, bufs = run_native(lib, sym, su, su.args, env, ufs, rt, reads)
            v['native_input'] = bufs
            if res[0] == 'ok':
                out = res[1]
                for gg in pend:
                    if not gg.where:
                        continue
                    want = T.evaluate([gg.want], env, ufs)[0]
                    if gg.where[0] == 'mem':
                        o, off, n = gg.where[1:4]
                        got = int.from_bytes(bytes.fromhex(out['%d:%d:%d' % (o.id, off, n)]), 'little')
                        gw = want
                    elif gg.where[0] == 'ret':
                        got = (out['ret'] or 0) & ((1 << gg.got.w) - 1)
                        gw = want
                    else:
                        continue
                    if got != gw:
                        v['confirmed'] = True
                        v['what'] = '%s on the input below: %s is %#x, the contract requires %#x' % (E.short(f.name), gg.label, got, gw)
                        break
                if out.get('underrun'):
                    v['confirmed'] = True
                    v['what'] = 'write before the start of ' + out['underrun']
            elif res[0] == 'signal':
                v['confirmed'] = True
                v['what'] = '%s crashes with signal %d on the input below' % (E.short(f.name), res[1])
            elif res[0] == 'timeout':
                v['confirmed'] = True
                v['what'] = '%s does not terminate on the input below' % E.short(f.name)
            if not v['confirmed']:
                v['what'] = 'the verifier refutes %s but the replayed input does not show it' % g.label
        except Exception as e:
            v['what'] = 'replay failed: %s' % e
    else:
        v['what'] = '%s fails: code computes %#x, contract requires %#x' % (g.label, a, b)
    r.violations.append(v)


def cex_memory(r, spec, su, f, msg, ex):
    """an access outside an object was executed on a path: replay with guarded buffers"""
    v = {'obligation': '%s: memory safety' % spec.name, 'function': E.short(f.name), 'what': msg, 'confirmed': False}
    lib = spec.lib() if callable(spec.lib) else spec.lib
    if lib is not None:
        R = random.Random(SEED)
        ufs = spec.ufs or {}
        sym = spec.sym or f.name.lstrip('@').strip('"')
        rw = f.mod.resolve(f.rty)
        rt = RET.get(rw[1]) if rw[0] == 'i' else None
        for k in range(20):
            env = gen_env(R, su.gens, su.special)
            try:
                if su.pre and not all(T.evaluate(su.pre, env, ufs)):
                    continue
                res, bufs = run_native(lib, sym, su, su.args, env, ufs, rt, [])
            except Exception as e:
                break
            if res[0] == 'signal' or (res[0] == 'ok' and res[1].get('underrun')):
                v['confirmed'] = True
                v['native_input'] = bufs
                v['what'] = msg + '; replayed: signal %s' % (res[1],)
                break
    r.violations.append(v)
