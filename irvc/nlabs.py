"""Abstraction of non-linear bit-vector terms: products of two unknowns, divisions and remainders become
uninterpreted functions (products are distributed over sums first), plus the defining axioms of division for the
terms that occur.  Every model of the original formula is a model of the abstraction, so unsat carries over."""
import z3

MUL = z3.Z3_OP_BMUL
DIV = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
REM = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)


def nonlinear(es):
    seen = set()
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            k = e.decl().kind()
            if k == MUL and sum(not z3.is_bv_value(c) for c in e.children()) > 1: return True
            if (k in DIV or k in REM) and not z3.is_bv_value(e.arg(1)): return True
            stack.extend(e.children())
    return False


class Abs:
    def __init__(s): s.memo = {}; s.keep = []; s.ax = []; s.fn = {}

    def f(s, nm, w):
        k = (nm, w)
        if k not in s.fn: s.fn[k] = z3.Function('nl_%s%d' % (nm, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return s.fn[k]

    def sums(s, e):
        """e as list of (coefficient, [factors])"""
        w = e.size(); m = 1 << w
        if z3.is_bv_value(e): return [(e.as_long(), [])]
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD: return [t for c in e.children() for t in s.sums(c)]
        if k == z3.Z3_OP_BSUB:
            r = s.sums(e.arg(0))
            for c in e.children()[1:]: r = r + [(-a % m, fs) for a, fs in s.sums(c)]
            return r
        if k == z3.Z3_OP_BNEG: return [(-a % m, fs) for a, fs in s.sums(e.arg(0))]
        if k == MUL:
            r = [(1, [])]
            for c in e.children():
                r = [(a * b % m, f + g) for a, f in r for b, g in s.sums(c)]
                if len(r) > 64: raise OverflowError
            return r
        return [(1, [e])]

    def mul2(s, a, b, w):
        if a.get_id() > b.get_id(): a, b = b, a
        return s.f('mul', w)(a, b)

    def go(s, e):
        i = e.get_id()
        if i in s.memo: return s.memo[i]
        r = e
        if z3.is_app(e) and e.num_args():
            k = e.decl().kind()
            if k == MUL and sum(not z3.is_bv_value(c) for c in e.children()) > 1:
                w = e.size(); r = z3.BitVecVal(0, w)
                for co, fs in s.sums(e):
                    fs = sorted((s.go(x) for x in fs), key=lambda x: x.get_id())
                    t = None
                    for x in fs: t = x if t is None else s.mul2(t, x, w)
                    t = z3.BitVecVal(co, w) if t is None else (t if co == 1 else t * z3.BitVecVal(co, w))
                    r = r + t
                r = z3.simplify(r)
            elif (k in DIV or k in REM) and not z3.is_bv_value(e.arg(1)):
                w = e.size(); a, b = s.go(e.arg(0)), s.go(e.arg(1))
                q, m = s.f('div', w)(a, b), s.f('rem', w)(a, b)
                p = s.mul2(q, b, w)
                s.ax += [p + m == a, z3.Implies(b != 0, z3.And(z3.ULT(m, b), z3.ULE(p, a), z3.ULE(q, a)))]
                r = q if k in DIV else m
            else:
                cs = [s.go(c) for c in e.children()]
                if any(not c.eq(d) for c, d in zip(cs, e.children())): r = e.decl()(*cs)
        s.memo[i] = r; s.keep += [e, r]
        return r


def abstract(es):
    a = Abs()
    try: out = [a.go(e) for e in es]
    except (OverflowError, z3.Z3Exception): return None
    return out + a.ax
