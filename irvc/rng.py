"""Cheap sound pre-check: interval + exact-linear reasoning over bit-vector terms.
decide(c, rng) -> True (c holds for every assignment within the recorded ranges), False (fails for every), None."""
import z3
K = z3
(ADD, MUL, CONCAT, EXTRACT, ITE) = (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ITE)
LIM = 300


class Cx:
    __slots__ = ('rng', 'memo', 'n')

    def __init__(s, rng):
        s.rng = rng; s.memo = {}; s.n = 0


def iv(x):
    return x[0], x[1]


def ex(e, cx):
    """-> (lo, hi, const, terms) exact integer value of e = const + sum coeff*leaf, leaf in its interval"""
    i = e.get_id()
    m = cx.memo.get(i)
    if m is not None: return m[0]
    r = _ex(e, cx)
    h = cx.rng.get(i)
    if h is not None and (h[1] > r[0] or h[2] < r[1]):
        r = (max(r[0], h[1]), min(r[1], h[2]), r[2], r[3])
    cx.memo[i] = (r, e)
    return r


def leaf(e, lo, hi):
    return (lo, hi, 0, {e.get_id(): (1, lo, hi, e)})


def _ex(e, cx):
    n = e.size()
    full = (1 << n) - 1
    if z3.is_bv_value(e):
        v = e.as_long()
        return (v, v, v, {})
    h = cx.rng.get(e.get_id())
    L, H = (h[1], h[2]) if h is not None else (0, full)
    cx.n += 1
    if cx.n > LIM: return leaf(e, L, H)
    k = e.decl().kind()
    if k == ADD:
        ch = [ex(c, cx) for c in e.children()]
        lo = sum(c[0] for c in ch); hi = sum(c[1] for c in ch)
        off = None
        w = lo >> n
        if hi >> n == w: off = -(w << n)
        if off is not None:
            c0 = off; t = {}
            for c in ch:
                c0 += c[2]
                for a, (co, l, u, x) in c[3].items():
                    if a in t: t[a] = (t[a][0] + co, l, u, x)
                    else: t[a] = (co, l, u, x)
            t = {a: v for a, v in t.items() if v[0]}
            lo2 = c0 + sum(v[0] * (v[1] if v[0] > 0 else v[2]) for v in t.values())
            hi2 = c0 + sum(v[0] * (v[2] if v[0] > 0 else v[1]) for v in t.values())
            return (max(lo + off, lo2), min(hi + off, hi2), c0, t)
        return leaf(e, L, H)
    if k == MUL:
        ch = e.children()
        if len(ch) == 2 and z3.is_bv_value(ch[0]):
            c = ch[0].as_long(); x = ex(ch[1], cx)
            if x[1] * c <= full:
                return (x[0] * c, x[1] * c, x[2] * c, {a: (v[0] * c, v[1], v[2], v[3]) for a, v in x[3].items()})
        elif len(ch) == 2:
            a, b = ex(ch[0], cx), ex(ch[1], cx)
            if a[1] * b[1] <= full: return leaf(e, max(L, a[0] * b[0]), min(H, a[1] * b[1]))
        return leaf(e, L, H)
    if k == CONCAT:
        ch = e.children()
        if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
            lo = hi = 0; sh = 0; c0 = 0; t = {}
            for c in reversed(ch[1:]):
                x = ex(c, cx)
                lo += x[0] << sh; hi += x[1] << sh; c0 += x[2] << sh
                for a, v in x[3].items():
                    if a in t: t[a] = (t[a][0] + (v[0] << sh), v[1], v[2], v[3])
                    else: t[a] = (v[0] << sh, v[1], v[2], v[3])
                sh += c.size()
            return (lo, hi, c0, t)
        lo = hi = 0
        for c in ch:
            x = ex(c, cx)
            lo = (lo << c.size()) + x[0]; hi = (hi << c.size()) + x[1]
        return leaf(e, max(L, lo), min(H, hi))
    if k == EXTRACT:
        hb, lb = e.params()
        x = ex(e.children()[0], cx)
        if x[0] >> (hb + 1) == x[1] >> (hb + 1):
            top = (x[0] >> (hb + 1)) << (hb + 1)
            if lb == 0: return (x[0] - top, x[1] - top, x[2] - top, x[3])
            # exact division when every coefficient is a multiple
            c0 = x[2] - top
            d = 1 << lb
            if all(v[0] % d == 0 for v in x[3].values()) and x[3] and c0 >= 0:
                return ((x[0] - top) >> lb, (x[1] - top) >> lb, c0 >> lb, {a: (v[0] // d, v[1], v[2], v[3]) for a, v in x[3].items()})
            return leaf(e, max(L, (x[0] - top) >> lb), min(H, (x[1] - top) >> lb))
        if lb == 0:
            # low bits: drop terms that are multiples of 2^(hb+1)
            M = 1 << (hb + 1)
            t = {a: v for a, v in x[3].items() if v[0] % M}
            if len(t) < len(x[3]):
                lo2 = x[2] + sum(v[0] * (v[1] if v[0] > 0 else v[2]) for v in t.values())
                hi2 = x[2] + sum(v[0] * (v[2] if v[0] > 0 else v[1]) for v in t.values())
                if lo2 // M == hi2 // M:
                    o = (lo2 // M) * M
                    return (lo2 - o, hi2 - o, x[2] - o, t)
        return leaf(e, L, H)
    if k == ITE:
        c, a, b = e.children()
        d = dec(c, cx)
        if d is True: return ex(a, cx)
        if d is False: return ex(b, cx)
        x, y = ex(a, cx), ex(b, cx)
        return leaf(e, max(L, min(x[0], y[0])), min(H, max(x[1], y[1])))
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        a, b = e.children()
        if z3.is_bv_value(b) and b.as_long():
            x = ex(a, cx); d = b.as_long()
            return leaf(e, max(L, x[0] // d), min(H, x[1] // d))
        return leaf(e, L, H)
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        a, b = e.children()
        y = ex(b, cx)
        if y[0] > 0:
            x = ex(a, cx)
            if x[1] < y[0]: return x
            if z3.is_bv_value(b):
                d = b.as_long()
                if x[0] // d == x[1] // d: return (x[0] % d, x[1] % d, x[2] - (x[0] // d) * d, x[3])
            return leaf(e, L, min(H, y[1] - 1, x[1]))
        return leaf(e, L, H)
    if k == z3.Z3_OP_BAND:
        hi = H
        for c in e.children(): hi = min(hi, ex(c, cx)[1])
        return leaf(e, L, hi)
    if k == z3.Z3_OP_BOR:
        lo = L; b = 0
        for c in e.children():
            x = ex(c, cx); lo = max(lo, x[0]); b = max(b, x[1].bit_length())
        return leaf(e, lo, min(H, (1 << b) - 1))
    if k == z3.Z3_OP_BXOR:
        b = 0
        for c in e.children(): b = max(b, ex(c, cx)[1].bit_length())
        return leaf(e, L, min(H, (1 << b) - 1))
    if k == z3.Z3_OP_BNOT:
        x = ex(e.children()[0], cx)
        return leaf(e, max(L, full - x[1]), min(H, full - x[0]))
    if k == z3.Z3_OP_BLSHR:
        x = ex(e.children()[0], cx); y = ex(e.children()[1], cx)
        return leaf(e, max(L, x[0] >> min(y[1], n)), min(H, x[1] >> min(y[0], n)))
    if k == z3.Z3_OP_BSHL:
        x = ex(e.children()[0], cx); y = ex(e.children()[1], cx)
        if y[1] < n and x[1] << y[1] <= full: return leaf(e, max(L, x[0] << y[0]), min(H, x[1] << y[1]))
        return leaf(e, L, H)
    if k == z3.Z3_OP_ZERO_EXT: return ex(e.children()[0], cx)
    return leaf(e, L, H)


def diff(a, b):
    """interval of b - a"""
    c = b[2] - a[2]
    t = {}
    for s, x in ((1, b), (-1, a)):
        for i, v in x[3].items():
            if i in t: t[i] = (t[i][0] + s * v[0], v[1], v[2])
            else: t[i] = (s * v[0], v[1], v[2])
    lo = hi = c
    for co, l, u in t.values():
        if co > 0: lo += co * l; hi += co * u
        elif co < 0: lo += co * u; hi += co * l
    return max(lo, b[0] - a[1]), min(hi, b[1] - a[0])


def dec(c, cx):
    h = cx.rng.get(c.get_id())
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = dec(c.children()[0], cx)
        return None if r is None else not r
    if k == z3.Z3_OP_AND:
        rs = True
        for x in c.children():
            r = dec(x, cx)
            if r is False: return False
            if r is None: rs = None
        return rs
    if k == z3.Z3_OP_OR:
        rs = False
        for x in c.children():
            r = dec(x, cx)
            if r is True: return True
            if r is None: rs = None
        return rs
    if cx.n > LIM: return None
    ch = c.children()
    if len(ch) != 2 or not z3.is_bv(ch[0]): return None
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_EQ):
        a, b = ex(ch[0], cx), ex(ch[1], cx)
        if a[0] > a[1] or b[0] > b[1]: return None
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT):
            hb = 1 << (ch[0].size() - 1)
            if a[1] < hb and b[1] < hb: pass
            elif a[0] >= hb and b[0] >= hb: pass
            elif a[1] < hb and b[0] >= hb: return k in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
            elif a[0] >= hb and b[1] < hb: return k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT)
            else: return None
        lo, hi = diff(a, b)
        if k == z3.Z3_OP_EQ:
            if lo == hi == 0: return True
            if lo > 0 or hi < 0: return False
            return None
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ): lo, hi = -hi, -lo; st = False
        elif k in (z3.Z3_OP_UGT, z3.Z3_OP_SGT): lo, hi = -hi, -lo; st = True
        elif k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT): st = True
        else: st = False
        m = 1 if st else 0
        if lo >= m: return True
        if hi < m: return False
    return None


def decide(c, rng):
    return dec(c, Cx(rng))


def learn(c, rng):
    """record range facts of an assumed constraint; returns new rng (or the same)"""
    k = c.decl().kind()
    neg = False
    if k == z3.Z3_OP_NOT:
        neg = True; c = c.children()[0]; k = c.decl().kind()
    ch = c.children()
    if k == z3.Z3_OP_AND and not neg:
        for x in ch: rng = learn(x, rng)
        return rng
    if len(ch) != 2 or not z3.is_bv(ch[0]): return rng
    a, b = ch
    n = a.size()
    full = (1 << n) - 1
    out = None

    def put(e, lo, hi):
        nonlocal out
        i = e.get_id()
        h = (out or rng).get(i)
        if h: lo, hi = max(lo, h[1]), min(hi, h[2])
        elif lo <= 0 and hi >= full: return
        if out is None: out = dict(rng)
        out[i] = (e, lo, hi)
    if k == z3.Z3_OP_EQ and not neg:
        for x, y in ((a, b), (b, a)):
            if z3.is_bv_value(y) and not z3.is_bv_value(x):
                v = y.as_long(); put(x, v, v)
                if x.decl().kind() == EXTRACT:
                    hb, lb = x.params(); e = x.children()[0]
                    if hb == e.size() - 1:
                        lo, hi = v << lb, ((v + 1) << lb) - 1
                        put(e, lo, hi)
                        r = ex(e, Cx(rng))
                        if len(r[3]) == 1:
                            (i, (co, l, u, le)), = r[3].items()
                            if co > 0 and not z3.is_bv_value(le): put(le, max(0, -((r[2] - lo) // co)), max(0, (hi - r[2]) // co))
    elif k == z3.Z3_OP_EQ and neg:
        for x, y in ((a, b), (b, a)):
            if z3.is_bv_value(y) and y.as_long() == 0: put(x, 1, full)
    elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ):
        cx = Cx(rng)
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ):
            x = ex(a, cx); y = ex(b, cx); hb = 1 << (n - 1)
            if k == z3.Z3_OP_SGEQ: a, b, x, y = b, a, y, x
            # a <=s b
            if neg: a, b, x, y = b, a, y, x          # a <s b now (strict)
            st = 1 if neg else 0
            if x[1] < hb and x[0] >= 0 and y[1] < hb:
                pass
            elif z3.is_bv_value(a) and a.as_long() < hb:        # const <=s b : b in [const, 2^(n-1))
                put(b, a.as_long() + st, hb - 1); return out or rng
            else: return rng
            if not z3.is_bv_value(b): put(b, x[0] + st, full)
            if not z3.is_bv_value(a): put(a, 0, y[1] - st)
            return out or rng
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT): a, b = b, a
        st = 1 if k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT) else 0
        if neg: a, b, st = b, a, 1 - st
        x = ex(a, cx); y = ex(b, cx)
        if not z3.is_bv_value(b): put(b, x[0] + st, full)
        if not z3.is_bv_value(a): put(a, 0, y[1] - st)
        # a single leaf with coefficient: c0 + co*leaf <= hi
        for side, hi_ in ((x, y[1] - st),):
            if len(side[3]) == 1:
                (i, (co, l, u, le)), = side[3].items()
                if co > 0 and not z3.is_bv_value(le):
                    put(le, 0, (hi_ - side[2]) // co)
        for side, lo_ in ((y, x[0] + st),):
            if len(side[3]) == 1:
                (i, (co, l, u, le)), = side[3].items()
                if co > 0 and not z3.is_bv_value(le): put(le, -((side[2] - lo_) // co), (1 << le.size()) - 1)
    return out or rng
