"""Self-test of rng.py: every True/False answer is cross-checked with z3 on random terms."""
import random, z3, rng, sys
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
V = [z3.BitVec('a', 16), z3.BitVec('b', 16), z3.BitVec('c', 8)]


def term(n, d):
    k = R.randrange(14) if d else R.randrange(2)
    if k == 0: return z3.BitVecVal(R.choice([0, 1, 2, 3, 7, 8, 255, (1 << n) - 1, (1 << n) - 5, R.randrange(1 << n)]), n)
    if k == 1:
        v = R.choice(V)
        if v.size() == n: return v
        return z3.ZeroExt(n - v.size(), v) if v.size() < n else z3.Extract(n - 1, 0, v)
    a = term(n, d - 1)
    if k in (2, 3, 4): return a + term(n, d - 1)
    if k == 5: return a * z3.BitVecVal(R.choice([2, 3, 5, 16, 256 % (1 << n)]), n)
    if k == 6: return z3.LShR(a, R.randrange(n))
    if k == 7: return z3.UDiv(a, z3.BitVecVal(R.randrange(1, 20), n))
    if k == 8: return z3.URem(a, z3.BitVecVal(R.randrange(1, 20), n))
    if k == 9: return a & term(n, d - 1)
    if k == 10: return z3.If(cond(d - 1), a, term(n, d - 1))
    if k == 11: return a - term(n, d - 1)
    if k == 12: return a | term(n, d - 1)
    m = R.choice([x for x in (8, 16, 24) if x != n])
    x = term(m, d - 1)
    return z3.ZeroExt(n - m, x) if m < n else z3.Extract(n - 1, 0, x) if R.random() < .5 else z3.Extract(m - 1, m - n, x)


def cond(d):
    n = R.choice([8, 16, 24])
    a, b = term(n, d), term(n, d)
    return R.choice([z3.ULE, z3.ULT, z3.UGE, z3.UGT, lambda x, y: x <= y, lambda x, y: x < y, lambda x, y: x == y, lambda x, y: x != y])(a, b)


st = [0, 0]
for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 20000):
    pc = []; r = {}
    for _ in range(R.randrange(4)):
        c = z3.simplify(cond(1))
        if z3.is_true(c) or z3.is_false(c): continue
        pc.append(c); r = rng.learn(c, r)
    c = z3.simplify(cond(3))
    if z3.is_true(c) or z3.is_false(c): continue
    d = rng.decide(c, r)
    st[0] += 1
    if d is None: continue
    st[1] += 1
    so = z3.Solver(); so.add(pc); so.add(z3.Not(c) if d else c)
    if so.check() == z3.sat:
        print('WRONG', d, pc, c, so.model()); sys.exit(1)
print('ok', st)
