"""Translation of bit-vector formulas to linear integer arithmetic with uninterpreted functions.  Every bit-vector
operation is either translated exactly (with explicit wrap-around / quotient / remainder variables) or over-approximated
by an unconstrained integer of the right range, so every model of the original formula is a model of the translation:
unsat carries over; sat does not and is never reported."""
import z3
import rng as RG

OK = {}
for n in ('BADD', 'BSUB', 'BNEG', 'BMUL', 'BNOT', 'CONCAT', 'EXTRACT', 'ZERO_EXT', 'SIGN_EXT', 'BUDIV', 'BUDIV_I', 'BUREM', 'BUREM_I', 'BSHL', 'BLSHR', 'BAND', 'BOR', 'ITE', 'ULEQ', 'ULT', 'UGEQ', 'UGT', 'SLEQ', 'SLT', 'SGEQ', 'SGT', 'EQ', 'DISTINCT', 'AND', 'OR', 'NOT', 'IMPLIES', 'XOR', 'IFF', 'TRUE', 'FALSE', 'UNINTERPRETED'):
    OK[getattr(z3, 'Z3_OP_' + n)] = n
REMDIV = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)


def has_div(es):
    """contains a division or remainder by a constant that is not a power of two"""
    seen = set(); stack = list(es)
    while stack:
        e = stack.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() in REMDIV and z3.is_bv_value(e.arg(1)):
                c = e.arg(1).as_long()
                if c & (c - 1): return True
            stack.extend(e.children())
    return False


class Tr:
    def __init__(s, rng):
        s.memo = {}; s.keep = []; s.ax = []; s.n = 0; s.cx = RG.Cx(rng); s.fn = {}; s.div = {}

    def fresh(s, lo, hi):
        s.n += 1; v = z3.Int('lia!%d' % s.n); s.ax += [v >= lo, v <= hi]; return v

    def hi(s, e):
        s.cx.n = 0
        try: r = RG.ex(e, s.cx)
        except Exception: return 0, (1 << e.size()) - 1
        return r[0], r[1]

    def lin(s, e, k, acc):
        """adds k*e (as integers modulo 2^w) to acc: dict id -> [coef, term]"""
        w = e.size()
        if z3.is_bv_value(e): acc[None] = acc.get(None, 0) + k * e.as_long(); return
        op = e.decl().kind()
        if op == z3.Z3_OP_BADD:
            for c in e.children(): s.lin(c, k, acc)
        elif op == z3.Z3_OP_BSUB:
            s.lin(e.arg(0), k, acc)
            for c in e.children()[1:]: s.lin(c, -k, acc)
        elif op == z3.Z3_OP_BNEG: s.lin(e.arg(0), -k, acc)
        elif op == z3.Z3_OP_BNOT: acc[None] = acc.get(None, 0) - k; s.lin(e.arg(0), -k, acc)
        elif op == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            c = e.arg(0).as_long()
            if c >> (w - 1): c -= 1 << w
            s.lin(e.arg(1), k * c, acc)
        elif op == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            n = e.arg(1).as_long()
            if n < w: s.lin(e.arg(0), k << n, acc)
        else:
            i = e.get_id()
            if i in acc: acc[i][0] += k
            else: acc[i] = [k, e]

    def divmod(s, x, c, lo, hi):
        key = (x.get_id(), c)
        if key not in s.div:
            q = s.fresh(lo // c, hi // c); r = s.fresh(0, c - 1); s.ax.append(x == c * q + r); s.div[key] = (q, r, x)
        return s.div[key][:2]

    def sg(s, e):
        w = e.size(); lo, hi = s.hi(e); x = s.bv(e)
        if hi < 1 << (w - 1): return x
        if lo >= 1 << (w - 1): return x - (1 << w)
        return z3.If(x >= 1 << (w - 1), x - (1 << w), x)

    def bv(s, e):
        i = e.get_id()
        if i in s.memo: return s.memo[i]
        r = s.bv_(e); s.memo[i] = r; s.keep += [e, r]
        return r

    def bv_(s, e):
        w = e.size(); m = (1 << w) - 1
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        op = e.decl().kind(); nm = OK.get(op); ch = e.children()
        if nm in ('BADD', 'BSUB', 'BNEG', 'BMUL', 'BNOT', 'BSHL'):
            acc = {}; s.lin(e, 1, acc); c0 = acc.pop(None, 0)
            if not (len(acc) == 1 and e.get_id() in acc):
                if c0 > (m + 1) // 2 and c0 <= m: c0 -= m + 1
                lo = hi = c0; t = [z3.IntVal(c0)]
                for k, x in acc.values():
                    if k % (m + 1) == 0: continue
                    a, b = s.hi(x); lo += min(k * a, k * b); hi += max(k * a, k * b); t.append(s.bv(x) * k)
                v = z3.Sum(t)
                L, H = s.hi(e)
                if lo >= 0 and hi <= m: return v
                kl, kh = lo // (m + 1), hi // (m + 1)
                r = s.fresh(max(0, L), min(m, H))
                if kl == kh: s.ax.append(r == v - kl * (m + 1))
                else:
                    k = s.fresh(kl, kh); s.ax.append(r == v - k * (m + 1))
                return r
            if nm == 'BMUL':
                a, b = sorted((s.bv(x) for x in ch[:2]), key=lambda x: x.get_id())
                L, H = s.hi(e); h = s.hi(ch[0])[1] * s.hi(ch[1])[1]
                if len(ch) == 2 and h <= m:
                    f = s.uf('mul', (z3.IntSort(), z3.IntSort())); r = f(a, b); s.ax += [r >= L, r <= H]; return r
            return s.opaque(e)
        if nm == 'CONCAT':
            r = None
            for c in ch:
                x = s.bv(c); r = x if r is None else r * (1 << c.size()) + x
            return r
        if nm == 'EXTRACT':
            h, l = e.params(); x = s.bv(e.arg(0)); lo, hi = s.hi(e.arg(0))
            if l: x, _ = s.divmod(x, 1 << l, lo, hi); lo >>= l; hi >>= l
            if hi >> w: _, x = s.divmod(x, 1 << w, lo, hi)
            return x
        if nm == 'ZERO_EXT': return s.bv(ch[0])
        if nm == 'SIGN_EXT':
            x = s.sg(ch[0]); return z3.If(x < 0, x + (m + 1), x)
        if nm in ('BUDIV', 'BUDIV_I', 'BUREM', 'BUREM_I') and z3.is_bv_value(ch[1]) and ch[1].as_long():
            lo, hi = s.hi(ch[0]); q, r = s.divmod(s.bv(ch[0]), ch[1].as_long(), lo, hi)
            return q if 'DIV' in nm else r
        if nm == 'BLSHR' and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w: return z3.IntVal(0)
            lo, hi = s.hi(ch[0]); return s.divmod(s.bv(ch[0]), 1 << n, lo, hi)[0]
        if nm == 'BAND':
            cs = [c for c in ch if z3.is_bv_value(c)]
            if len(ch) == 2 and cs and cs[0].as_long() & (cs[0].as_long() + 1) == 0:
                x = ch[0] if ch[1] is cs[0] or ch[1].eq(cs[0]) else ch[1]; lo, hi = s.hi(x)
                return s.divmod(s.bv(x), cs[0].as_long() + 1, lo, hi)[1]
            r = s.opaque(e); s.ax += [r <= s.bv(c) for c in ch]; return r
        if nm == 'BOR':
            r = s.opaque(e); s.ax += [r >= s.bv(c) for c in ch]; return r
        if nm == 'ITE': return z3.If(s.bo(ch[0]), s.bv(ch[1]), s.bv(ch[2]))
        if nm == 'UNINTERPRETED' and ch:
            a = []
            for c in ch:
                if z3.is_bv(c): a.append(s.bv(c))
                else: return s.opaque(e)
            L, H = s.hi(e); r = s.uf('u_' + e.decl().name() + str([c.size() for c in ch]), tuple(x.sort() for x in a))(*a); s.ax += [r >= L, r <= H]; return r
        return s.opaque(e)

    def uf(s, nm, sorts):
        if (nm, len(sorts)) not in s.fn: s.fn[(nm, len(sorts))] = z3.Function(nm, *sorts, z3.IntSort())
        return s.fn[(nm, len(sorts))]

    def opaque(s, e):
        L, H = s.hi(e); return s.fresh(L, H)

    def bo(s, e):
        i = e.get_id()
        if i in s.memo: return s.memo[i]
        r = s.bo_(e); s.memo[i] = r; s.keep += [e, r]
        return r

    def bo_(s, e):
        nm = OK.get(e.decl().kind()); ch = e.children()
        if nm in ('TRUE', 'FALSE'): return e
        if nm == 'AND': return z3.And([s.bo(c) for c in ch])
        if nm == 'OR': return z3.Or([s.bo(c) for c in ch])
        if nm == 'NOT': return z3.Not(s.bo(ch[0]))
        if nm == 'IMPLIES': return z3.Implies(s.bo(ch[0]), s.bo(ch[1]))
        if nm == 'XOR' and len(ch) == 2: return z3.Xor(s.bo(ch[0]), s.bo(ch[1]))
        if nm == 'ITE': return z3.If(s.bo(ch[0]), s.bo(ch[1]), s.bo(ch[2]))
        if nm in ('EQ', 'IFF') and z3.is_bool(ch[0]): return s.bo(ch[0]) == s.bo(ch[1])
        if nm == 'EQ' and z3.is_bv(ch[0]): return s.bv(ch[0]) == s.bv(ch[1])
        if nm == 'DISTINCT' and len(ch) == 2 and z3.is_bv(ch[0]): return s.bv(ch[0]) != s.bv(ch[1])
        if nm == 'ULEQ': return s.bv(ch[0]) <= s.bv(ch[1])
        if nm == 'ULT': return s.bv(ch[0]) < s.bv(ch[1])
        if nm == 'UGEQ': return s.bv(ch[0]) >= s.bv(ch[1])
        if nm == 'UGT': return s.bv(ch[0]) > s.bv(ch[1])
        if nm == 'SLEQ': return s.sg(ch[0]) <= s.sg(ch[1])
        if nm == 'SLT': return s.sg(ch[0]) < s.sg(ch[1])
        if nm == 'SGEQ': return s.sg(ch[0]) >= s.sg(ch[1])
        if nm == 'SGT': return s.sg(ch[0]) > s.sg(ch[1])
        if z3.is_const(e) and nm == 'UNINTERPRETED': return e
        s.n += 1; return z3.Bool('liab!%d' % s.n)


def translate(es, rng):
    """list of integer formulas; unsat of the result implies unsat of es.  Interval facts used are themselves consequences of es
    (rng holds path facts), so they are sound as assumptions."""
    t = Tr(rng)
    out = [t.bo(e) for e in es]
    return out + t.ax
