"""Polynomial identities over bit-vectors: both sides of an equation are normalised to polynomials over
exact integer leaves (interval analysis shows that the inner sums do not wrap) modulo 2^width."""
import z3, rng as RG


def _mul(a, b, m):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            k = tuple(sorted(x + y)); r[k] = (r.get(k, 0) + c * d) % m
    return r


def _add(a, b, m, f=1):
    r = dict(a)
    for k, c in b.items(): r[k] = (r.get(k, 0) + f * c) % m
    return r


def poly(e, m, cx, d=0):
    """e as polynomial: value of e modulo m where m <= 2^size(e)"""
    k = e.decl().kind()
    if z3.is_bv_value(e): return {(): e.as_long() % m}
    if m <= (1 << e.size()):
        if k == z3.Z3_OP_BMUL:
            r = {(): 1}
            for c in e.children():
                r = _mul(r, poly(c, m, cx, d + 1), m)
                if len(r) > 200: raise OverflowError
            return r
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            cs = e.children(); r = poly(cs[0], m, cx, d + 1)
            for c in cs[1:]: r = _add(r, poly(c, m, cx, d + 1), m, 1 if k == z3.Z3_OP_BADD else -1)
            return r
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and not z3.is_bv_value(e.arg(1)):     # a % b = a - (a / b) * b
            return _add(poly(e.arg(0), m, cx, d + 1), _mul(poly(z3.UDiv(e.arg(0), e.arg(1)), m, cx, d + 1), poly(e.arg(1), m, cx, d + 1), m), m, -1)
        if k == z3.Z3_OP_BNEG: return _add({}, poly(e.arg(0), m, cx, d + 1), m, -1)
        if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0: return poly(e.arg(0), m, cx, d + 1)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < e.size():
            return _mul(poly(e.arg(0), m, cx, d + 1), {(): 1 << e.arg(1).as_long()}, m)
        if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and e.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
            n = e.arg(1).size(); x = e.arg(0).arg(0); hb, lb = e.arg(0).params()
            if lb == n and x.size() >= e.size():       # Concat(x[..:n], low) with low == x mod 2^n is x
                q = _add(poly(e.arg(1), 1 << n, cx, d + 1), poly(x, 1 << n, cx, d + 1), 1 << n, -1)
                if not any(q.values()): return poly(x, m, cx, d + 1)
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(e.num_args() - 1)) and e.num_args() == 2:
            w = e.arg(1).size(); hi = e.arg(0)      # hi*2^w + c, hi only matters modulo m >> w
            if m > (1 << w):
                r = poly(hi, m >> w, cx, d + 1) if (m >> w) <= (1 << hi.size()) else None
                if r is not None:
                    r = {k2: (c << w) % m for k2, c in r.items()}
                    return _add(r, {(): e.arg(1).as_long()}, m)
    v = RG.ex(e, cx)
    r = {(): v[2] % m}
    for i, (co, lo, hi, l) in v[3].items():
        r = _add(r, {(i,): co % m}, m)
    return r


def equal(eq, rng):
    """True if the equation holds by polynomial normal form"""
    a, b = eq.arg(0), eq.arg(1)
    if not z3.is_bv(a): return False
    m = 1 << a.size(); cx = RG.Cx(rng)
    try: r = _add(poly(a, m, cx), poly(b, m, cx), m, -1)
    except OverflowError: return False
    return not any(r.values())
