import sys, random
sys.path.insert(0, '/verif/vc')
import term as T
NENV = 6
def run(seed, n=60):
    R = random.Random(seed)
    envs = []
    vs = [('a', 8), ('b', 8), ('c', 16), ('d', 32), ('e', 1), ('f', 1), ('g', 64), ('h', 8)]
    names = {n: w for n, w in vs}
    for i in range(NENV):
        envs.append({n: R.choice([0, 1, (1 << w) - 1, R.getrandbits(w), R.getrandbits(w), 1 << (w - 1)]) & ((1 << w) - 1) for n, w in vs})
    pool = [(T.var(n, w), [e[n] for e in envs]) for n, w in vs]
    for k in range(n):
        op = R.choice(['add', 'sub', 'mul', 'xor', 'and', 'or', 'not', 'ext', 'zext', 'sext', 'cat', 'shl', 'lshr', 'ashr', 'eq', 'ult', 'slt', 'ite', 'udiv', 'urem', 'tbl', 'sel', 'scale', 'addc', 'andc', 'orc', 'eqc', 'ultc', 'sltc','ultc2'])
        x, xv = R.choice(pool)
        w = x.w
        M = (1 << w) - 1
        same = [p for p in pool if p[0].w == w]
        y, yv = R.choice(same)
        cst = R.choice([0, 1, 2, 3, 255, M, 1 << (w - 1), R.getrandbits(w), 0xff00 & M, 0x7f & M]) & M
        sg = T.signed
        if op == 'add': r, v = T.add(x, y), [(p + q) & M for p, q in zip(xv, yv)]
        elif op == 'sub': r, v = T.sub(x, y), [(p - q) & M for p, q in zip(xv, yv)]
        elif op == 'mul':
            if R.random() < .5: continue
            r, v = T.mul(x, y), [(p * q) & M for p, q in zip(xv, yv)]
        elif op == 'xor': r, v = T.xor(x, y), [p ^ q for p, q in zip(xv, yv)]
        elif op == 'and': r, v = T.and_(x, y), [p & q for p, q in zip(xv, yv)]
        elif op == 'or': r, v = T.or_(x, y), [p | q for p, q in zip(xv, yv)]
        elif op == 'not': r, v = T.not_(x), [p ^ M for p in xv]
        elif op == 'scale': r, v = T.scale(x, cst), [(p * cst) & M for p in xv]
        elif op == 'addc': r, v = T.add(x, T.const(cst, w)), [(p + cst) & M for p in xv]
        elif op == 'andc': r, v = T.and_(x, T.const(cst, w)), [p & cst for p in xv]
        elif op == 'orc': r, v = T.or_(x, T.const(cst, w)), [p | cst for p in xv]
        elif op == 'ext':
            lo = R.randrange(w); n2 = R.randrange(1, w - lo + 1)
            r, v = T.ext(x, lo, n2), [(p >> lo) & ((1 << n2) - 1) for p in xv]
        elif op == 'zext':
            n2 = w + R.choice([0, 1, 8, 24]); 
            if n2 > 130: continue
            r, v = T.zext(x, n2), xv
        elif op == 'sext':
            n2 = w + R.choice([0, 1, 8, 24]);
            if n2 > 130: continue
            r, v = T.sext(x, n2), [sg(p, w) & ((1 << n2) - 1) for p in xv]
        elif op == 'cat':
            z, zv = R.choice(pool)
            if w + z.w > 130: continue
            r, v = T.cat(x, z), [(p << z.w) | q for p, q in zip(xv, zv)]
        elif op in ('shl', 'lshr', 'ashr'):
            n2 = R.randrange(w)
            f = {'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}[op]
            r = f(x, n2)
            v = [(p << n2) & M if op == 'shl' else p >> n2 if op == 'lshr' else (sg(p, w) >> n2) & M for p in xv]
        elif op == 'eq': r, v = T.eq(x, y), [int(p == q) for p, q in zip(xv, yv)]
        elif op == 'ult': r, v = T.ult(x, y), [int(p < q) for p, q in zip(xv, yv)]
        elif op == 'slt': r, v = T.slt(x, y), [int(sg(p, w) < sg(q, w)) for p, q in zip(xv, yv)]
        elif op == 'eqc': r, v = T.eq(x, T.const(cst, w)), [int(p == cst) for p in xv]
        elif op == 'ultc': r, v = T.ult(x, T.const(cst, w)), [int(p < cst) for p in xv]
        elif op == 'ultc2': r, v = T.ult(T.const(cst, w), x), [int(p > cst) for p in xv]
        elif op == 'sltc': r, v = T.slt(x, T.const(cst, w)), [int(sg(p, w) < sg(cst, w)) for p in xv]
        elif op == 'ite':
            c, cv = R.choice([p for p in pool if p[0].w == 1])
            r, v = T.ite(c, x, y), [p if s else q for s, p, q in zip(cv, xv, yv)]
        elif op == 'udiv':
            if not cst: continue
            r, v = T.udiv(x, T.const(cst, w)), [p // cst for p in xv]
        elif op == 'urem':
            if not cst: continue
            r, v = T.urem(x, T.const(cst, w)), [p % cst for p in xv]
        elif op == 'tbl':
            if w > 8: continue
            tb = tuple(R.getrandbits(32) for _ in range(1 << w))
            r, v = T.tbl(tb, 32, x), [tb[p] for p in xv]
        elif op == 'sel':
            i, iv = R.choice([p for p in pool if p[0].w == 1])
            r, v = T.sel(i, [x, y]), [(p, q)[s] for s, p, q in zip(iv, xv, yv)]
        assert r.w <= 4000
        for e, val in zip(envs, v):
            got = T.evaluate([r], dict(e))[0]
            if got != val:
                print('MISMATCH seed', seed, op, 'x=', T.show(x, 5), 'y=', T.show(y, 4), 'cst', hex(cst), 'r=', T.show(r, 6), 'got', hex(got), 'want', hex(val), e)
                return False
            if not (r.lo <= val <= r.hi):
                print('RANGE seed', seed, op, T.show(x, 5), T.show(y, 4), hex(cst), T.show(r, 6), hex(val), r.lo, r.hi)
                return False
        pool.append((r, v))
        if len(pool) > 40: pool.pop(R.randrange(8, len(pool)))
    return True
bad = 0
for s in range(int(sys.argv[1]), int(sys.argv[2])):
    if not run(s):
        bad += 1
        if bad > 3: break
print('bad', bad)
