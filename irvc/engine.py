"""Deductive VC generator over the LLVM IR of the real /repo sources.

Symbolic execution over *all* inputs of a contract harness.  Every vc_assert (post-
condition), loop-invariant clause, callee pre-condition, in-bounds / shift / division
side condition is one obligation, discharged by an SMT solver.  Loops with a symbolic
trip count are cut at an inductive invariant (base + preservation obligations).
"""
import math, re, time, subprocess, os, itertools, math
import z3
import rng as RG, poly as PL, nlabs as NL, lia as LI
from irparse import (Module, Unsupported, T, INT, PTR, VOID, META, size_of, align_of, offsets, loops, succs)

M64 = (1 << 64) - 1
z3.set_param('memory_max_size', 6000)


class Undecided(Exception):
    """the tool could not follow the code (never reported as a violation)"""


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- linear offsets
class Lin:
    __slots__ = ('c', 't')      # const (int mod 2^64), terms {ast_id: (ast, coeff)}

    def __init__(s, c, t):
        s.c = c & M64
        s.t = t

    def __repr__(s):
        return 'Lin(%d,%s)' % (s.c, {str(a): c for a, c in s.t.values()})


def sgn(x, n=64):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


def lin_add(a, b, mb=1):
    if not isinstance(a, Lin): a = Lin(a, {})
    if not isinstance(b, Lin): b = Lin(b, {})
    t = dict(a.t)
    for k, (e, c) in b.t.items():
        c = (c * mb)
        if k in t:
            n = (t[k][1] + c) & M64
            n = sgn(n)
            if n == 0: del t[k]
            else: t[k] = (e, n)
        else:
            n = sgn(c & M64)
            if n: t[k] = (e, n)
    c = (a.c + b.c * mb) & M64
    if not t: return c
    return Lin(c, t)


def lin_scale(a, m):
    if not isinstance(a, Lin): return (a * m) & M64
    t = {}
    for k, (e, c) in a.t.items():
        n = sgn((c * m) & M64)
        if n: t[k] = (e, n)
    if not t: return (a.c * m) & M64
    return Lin(a.c * m, t)


def lin_bv(a):
    if not isinstance(a, Lin): return a & M64
    r = None
    for k in sorted(a.t):
        e, c = a.t[k]
        x = e if c == 1 else e * z3.BitVecVal(c & M64, 64)
        r = x if r is None else r + x
    if a.c:
        r = r + z3.BitVecVal(a.c, 64)
    return r


_keep = {}


def flag01(A):
    """the condition c when A is (c ? 1 : 0), else None"""
    if isinstance(A, int): return bool(A) if A < 2 else None
    if z3.is_bv_value(A): return bool(A.as_long()) if A.as_long() < 2 else None
    if z3.is_app_of(A, z3.Z3_OP_ITE):
        c, x, y = A.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() == 1 and y.as_long() == 0: return c
    return None


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o):
        s.r = r; s.o = o

    def __repr__(s):
        return 'Ptr(%s,%r)' % (s.r, s.o)


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(s, n): s.name = n

    def __repr__(s): return 'Fn(%s)' % s.name


class PInt:
    """integer made from a pointer"""
    __slots__ = ('p',)

    def __init__(s, p): s.p = p


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class FTop:
    """a floating-point value nothing is known about (over-approximation)"""


FTOP = FTop()


def isc(v):
    return isinstance(v, int)


def bv(v, n):
    if isinstance(v, int): return z3.BitVecVal(v, n)
    return v


def tobool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    return v


def b_not(c):
    if isinstance(c, bool): return not c
    return z3.simplify(z3.Not(c))


# ---------------------------------------------------------------- regions
class Region:
    __slots__ = ('rid', 'size', 'name', 'cells', 'below', 'freed', 'const', 'wild', 'al')

    def __init__(s, rid, size, name, below=('undef',)):
        s.rid = rid; s.size = size; s.name = name; s.cells = {}; s.below = below
        s.freed = False; s.const = False; s.wild = 0; s.al = 8

    def clone(s):
        r = Region.__new__(Region)
        r.rid = s.rid; r.size = s.size; r.name = s.name; r.cells = dict(s.cells); r.below = s.below
        r.freed = s.freed; r.const = s.const; r.wild = s.wild; r.al = s.al
        return r


class Frame:
    __slots__ = ('f', 'blk', 'ip', 'regs', 'prev', 'ins', 'snaps', 'allocas', 'kind', 'extra')

    def __init__(s, f):
        s.f = f; s.blk = f.entry; s.ip = 0; s.regs = {}; s.prev = None; s.ins = None; s.snaps = None
        s.allocas = (); s.kind = None; s.extra = None

    def copy(s):
        r = Frame.__new__(Frame)
        r.f = s.f; r.blk = s.blk; r.ip = s.ip; r.regs = dict(s.regs); r.prev = s.prev; r.ins = s.ins
        r.snaps = dict(s.snaps) if s.snaps else None
        r.allocas = s.allocas; r.kind = s.kind; r.extra = s.extra
        return r


class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.owned = set(); s.pc = (); s.pcids = frozenset()
        s.exc = None; s.caught = (); s.cuts = (); s.specs = (); s.bound = {}; s.wlog = None; s.ghost = {}
        s.steps = 0; s.rely = None; s.repl = (); s.trace = (); s.forks = 0; s.unw = {}; s.lin = 0; s.uncaught = None; s.rng = {}

    def copy(s):
        r = State.__new__(State)
        r.frames = [f.copy() for f in s.frames]
        r.mem = dict(s.mem)
        s.owned = set(); r.owned = set()
        r.pc = s.pc; r.pcids = s.pcids; r.exc = s.exc; r.caught = s.caught; r.cuts = s.cuts; r.specs = s.specs
        r.bound = dict(s.bound); r.wlog = list(s.wlog) if s.wlog is not None else None
        r.ghost = dict(s.ghost); r.steps = s.steps; r.repl = s.repl; r.rely = s.rely; r.trace = s.trace; r.forks = s.forks
        r.unw = dict(s.unw); r.lin = s.lin; r.uncaught = s.uncaught; r.rng = s.rng
        return r

    def wr(s, rid):
        r = s.mem[rid]
        if rid not in s.owned:
            r = r.clone()
            s.mem[rid] = r
            s.owned.add(rid)
        return r

    def assume(s, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        s.rng = RG.learn(c, s.rng)
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return
        i = c.get_id()
        if i in s.pcids: return
        s.pc = (s.pc, c)
        s.pcids = s.pcids | {i}
        s.rng = RG.learn(c, s.rng)

    def pclist(s):
        o = []
        p = s.pc
        while p:
            p, c = p
            o.append(c)
        o.reverse()
        return o


# ---------------------------------------------------------------- obligations
class Ob:
    __slots__ = ('kind', 'label', 'status', 'time', 'solver', 'model', 'where', 'count')

    def __init__(s, kind, label, status, t, solver, model=None, where=''):
        s.kind = kind; s.label = label; s.status = status; s.time = t; s.solver = solver; s.model = model
        s.where = where; s.count = 1


class LoopSpec:
    __slots__ = ('rx', 'fn', 'nacc', 'k', 'now')

    def __init__(s, rx, fn, nacc, k, now=False):
        s.rx = rx; s.fn = fn; s.nacc = nacc; s.k = k; s.now = now


class Snap:
    __slots__ = ('st', 'done')

    def __init__(s, st): s.st = st; s.done = False


def vars_of(e, cache={}):
    i = e.get_id()
    r = cache.get(i)
    if r is not None: return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen: continue
        seen.add(j)
        cc = cache.get(j)
        if cc is not None:
            out |= cc[1]; continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    r = frozenset(out)
    cache[i] = (e, r)
    return r


class Engine:
    def __init__(s, mod, opts=None):
        s.itecache = {}; s.conccache = {}; s.divcache = {}
        s.mod = mod
        s.opts = dict(timeout=20000, ftimeout=1500, unwind=70, maxsteps=3_000_000, maxpaths=20000, deadline=None,
                      memsafe=True, verbose=False, cvc5=True, stop_on_fail=True)
        if opts: s.opts.update(opts)
        s.nrid = 1
        s.nvar = 0
        s.obs = []
        s.recording = True
        s.inv_mode = None
        s.inputs = {}        # name -> z3 const / info
        s.arrays = {}
        s.covers = {}
        s.notes = []
        s.paths = 0
        s.steps = 0
        s.dem = {}
        s.feas_cache = {}
        s.lin_cache = {}
        s.solver_time = 0.0
        s.trusted = set()
        s.calls = set()
        s.bounded = []
        s.frozen_obs = {}
        s.defines = set()
        s.globals_rid = {}
        s.fail = None
        s.curst = None
        s.loopinfo = []; s.gbound = {}
        s.tactic_cache = {}
        s.memob = {}

    # ------------------------------------------------------------ names
    def demangle(s, n):
        d = s.dem.get(n)
        if d is None:
            names = [x for x in list(s.mod.funcs) + list(s.mod.decls) if x not in s.dem]
            if n not in names: names.append(n)
            p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
            for a, b in zip(names, p.stdout.split('\n')):
                s.dem[a] = b
            d = s.dem.get(n, n)
        return d

    def fresh(s, name, n):
        s.nvar += 1
        return z3.BitVec('%s!%d' % (name, s.nvar), n)

    # ------------------------------------------------------------ solver
    def slice(s, pc, goal_vars):
        vs = set(goal_vars)
        rest = [(c, vars_of(c)) for c in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, v in rest:
                if v & vs or not v:
                    out.append(c); vs |= v; ch = True
                else:
                    nr.append((c, v))
            rest = nr
        return out

    def check(s, asserts, timeout):
        t0 = time.time()
        g = z3.Goal()
        for a in asserts: g.add(a)
        pr = z3.Probe('is-qfbv')(g)
        so = z3.SolverFor('QF_BV') if pr == 1.0 and s.opts.get('qfbv', True) else z3.Solver()
        so.set('timeout', int(timeout))
        for a in asserts: so.add(a)
        r = so.check()
        s.solver_time += time.time() - t0
        return r, so

    def feasible(s, st, c):
        """is pc && c satisfiable?  True / False (unknown counts as True)"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        d = RG.decide(c, st.rng)
        if d is not None: return d
        pc = s.slice(st.pclist(), vars_of(c))
        key = (frozenset(x.get_id() for x in pc), c.get_id())
        h = s.feas_cache.get(key)
        if h is not None: return h[0]
        if s.divs(c) or any(s.divs(x) for x in pc):
            r = s.lia(pc + [c], st, s.opts['ftimeout'])
            v = r != z3.unsat
            if r == z3.unknown: v = s.check(pc + [c], s.opts['ftimeout'])[0] != z3.unsat
        else:
            r, _ = s.check(pc + [c], s.opts['ftimeout'])
            v = r != z3.unsat
        s.feas_cache[key] = (v, pc, c)
        s.deadline()
        return v

    def deadline(s):
        if s.opts['deadline'] and time.time() > s.opts['deadline']:
            raise Undecided('time budget exhausted')

    def must(s, st, c):
        """True if pc => c is valid (quick, incomplete)"""
        if isinstance(c, bool): return c
        return not s.feasible(st, z3.Not(c))

    def prove(s, st, c, kind, label):
        """record obligation pc => c"""
        if not s.recording:
            return True
        where = s.where(st)
        if isinstance(c, bool) and c:
            s.obs.append(Ob(kind, label, 'proved', 0.0, 'simplifier', where=where)); return True
        cc = tobool(c)
        g = z3.simplify(z3.Not(cc))
        if z3.is_false(g):
            s.obs.append(Ob(kind, label, 'proved', 0.0, 'simplifier', where=where)); return True
        if RG.decide(g, st.rng) is False:
            s.obs.append(Ob(kind, label, 'proved', 0.0, 'intervals', where=where)); return True
        if z3.is_not(g) and z3.is_eq(g.arg(0)) and PL.equal(g.arg(0), st.rng):
            s.obs.append(Ob(kind, label, 'proved', 0.0, 'polynomial normal form', where=where)); return True
        pc = s.slice(st.pclist(), vars_of(g))
        key = (frozenset(x.get_id() for x in pc), g.get_id())
        if key in s.frozen_obs:
            ob = s.frozen_obs[key][0]
            if ob.status == 'proved':
                s.obs.append(Ob(kind, label, 'proved', 0.0, ob.solver + '(cached)', where=where)); return True
        t0 = time.time()
        status, solver, model = s.discharge(pc, g, st)
        ob = Ob(kind, label, status, time.time() - t0, solver, model, where)
        s.frozen_obs[key] = (ob, pc, g)
        s.obs.append(ob)
        if s.opts['verbose']:
            print('   [%s] %s %s %.2fs %s %s' % (status, kind, label, ob.time, solver, where), flush=True)
        s.deadline()
        if status != 'proved' and s.opts['stop_on_fail']:
            s.fail = ob
            raise PathEnd()
        return status == 'proved'

    def lia(s, es, st, timeout):
        t0 = time.time()
        try:
            q = LI.translate(es, st.rng)
            so = z3.Solver(); so.set('timeout', int(timeout))
            for a in q: so.add(a)
            r = so.check()
        except z3.Z3Exception:
            r = z3.unknown
        s.solver_time += time.time() - t0
        return r

    def divs(s, e):
        h = s.divcache.get(e.get_id())
        if h is None: h = s.divcache[e.get_id()] = (LI.has_div([e]), e)
        return h[0]

    def rewrite(s, pc, g):
        eqs = []
        for x in pc:
            if z3.is_eq(x) and z3.is_bv(x.arg(0)):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    k = a.decl().kind()
                    if (k == z3.Z3_OP_UNINTERPRETED and a.num_args() > 0 or s.divs(a) and k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)) and not z3.is_bv_value(a): eqs.append((a, b)); break
        h = g; did = False
        for r in range(6):
            n = z3.simplify(z3.substitute(h, *eqs)) if eqs else h
            if n.eq(h): break
            h = n; did = True
        return h if did else None

    def discharge(s, pc, g, st):
        tried = False
        if s.divs(g):                        # rewrite quotients by the equalities known for them
            h = s.rewrite(pc, g)
            if h is not None:
                if z3.is_false(h) or RG.decide(h, st.rng) is False: return 'proved', 'rewriting', None
                hv = vars_of(h)
                if s.check([x for x in pc if not z3.is_or(x) and not s.divs(x) and vars_of(x) & hv] + [h], 800)[0] == z3.unsat: return 'proved', 'z3', None
        if s.divs(g) or any(s.divs(x) for x in pc):
            tried = True
            pl = [x for x in pc if not s.divs(x)]
            if len(pl) < len(pc) and not s.divs(g) and s.check(pl + [g], 300)[0] == z3.unsat: return 'proved', 'z3', None
            if s.lia(pc + [g], st, 1500 if len(pc) > 24 else 4000) == z3.unsat: return 'proved', 'z3 (linear integers)', None
            if len(pc) > 24:                # without the disjunctive facts
                if s.lia([x for x in pc if not z3.is_or(x)] + [g], st, 2500) == z3.unsat: return 'proved', 'z3 (linear integers)', None
                if s.lia(pc + [g], st, 4000) == z3.unsat: return 'proved', 'z3 (linear integers)', None
        if NL.nonlinear(pc + [g]):
            ab = NL.abstract(pc + [g])
            if ab is not None:
                r, so = s.check(ab, min(s.opts['timeout'], 2000))
                if r == z3.unsat: return 'proved', 'z3 (products abstracted)', None
        r, so = s.check(pc + [g], min(s.opts['timeout'], 4000))
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat:
            # re-check on the full path condition for a complete model
            full = st.pclist()
            if len(full) != len(pc):
                r2, so2 = s.check(full + [g], s.opts['timeout'])
                if r2 == z3.unsat: return 'proved', 'z3', None
                if r2 == z3.sat: so = so2
                else: return 'refuted', 'z3', s.model_of(so.model())
            return 'refuted', 'z3', s.model_of(so.model())
        if not tried and s.lia(pc + [g], st, 4000) == z3.unsat: return 'proved', 'z3 (linear integers)', None
        if s.opts['cvc5']:
            q = s.smt2(pc + [g])
            for o in s.opts.get('cvc5_opts', [[], ['--solve-bv-as-int=sum', '--nl-ext-tplanes']]):
                t0 = time.time()
                try:
                    p = subprocess.run(['cvc5', '--tlimit=%d' % s.opts['timeout'], '-q'] + o + ['-'], input=q, text=True,
                                       capture_output=True, timeout=s.opts['timeout'] / 1000 + 5)
                    out = p.stdout.strip()
                except subprocess.TimeoutExpired:
                    out = ''
                s.solver_time += time.time() - t0
                if out.startswith('unsat'): return 'proved', 'cvc5' + ' '.join(o), None
                if out.startswith('sat'): return 'refuted', 'cvc5', None
                s.deadline()
        r, so = s.check(pc + [g], s.opts['timeout'])
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return 'refuted', 'z3', s.model_of(so.model())
        return 'unknown', 'z3+cvc5', None

    def smt2(s, asserts):
        so = z3.Solver()
        for a in asserts: so.add(a)
        return '(set-logic ALL)\n' + so.to_smt2()

    def model_of(s, m):
        out = {}
        for name, e in s.inputs.items():
            v = m.eval(e, model_completion=True)
            try: out[name] = v.as_long()
            except Exception:
                out[name] = 1 if z3.is_true(v) else 0
        arrs = {}
        for name, (slots, count, stride) in s.arrays.items():
            d = {}
            for (c, w), fn in slots.items():
                try:
                    it = m[fn]
                    if it is None: continue
                    for k in range(it.num_entries()):
                        e = it.entry(k)
                        d['%d,%d,%d' % (c, w, e.arg_value(0).as_long())] = e.value().as_long()
                    ev = it.else_value()
                    if ev is not None and z3.is_bv_value(ev): d['%d,%d,*' % (c, w)] = ev.as_long()
                except Exception:
                    pass
            arrs[name] = d
        if arrs: out['__arrays'] = arrs
        return out

    def where(s, st):
        o = []
        for f in st.frames[-4:]:
            o.append(s.demangle(f.f.name).split('(')[0][-50:])
        return ' > '.join(o)

    # ------------------------------------------------------------ linear view
    def lin(s, v, st=None):
        if isinstance(v, int): return v & M64
        k = v.get_id()
        h = s.lin_cache.get(k)
        if h is not None: return h[1]
        v2 = z3.simplify(v)
        r = s._lin(v2, st)
        s.lin_cache[k] = (v, r)
        return r

    def _lin(s, e, st):
        if z3.is_bv_value(e): return e.as_long()
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_BADD:
            r = 0
            for x in ch: r = lin_add(r, s._lin(x, st))
            return r
        if k == z3.Z3_OP_BSUB:
            return lin_add(s._lin(ch[0], st), s._lin(ch[1], st), -1)
        if k == z3.Z3_OP_BNEG:
            return lin_scale(s._lin(ch[0], st), -1)
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            if z3.is_bv_value(ch[0]): return lin_scale(s._lin(ch[1], st), ch[0].as_long())
            if z3.is_bv_value(ch[1]): return lin_scale(s._lin(ch[0], st), ch[1].as_long())
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            return lin_scale(s._lin(ch[0], st), 1 << ch[1].as_long())
        # concat(extract(hi..), 0s) == shl ; treat concat(x, 0:n) as x << n when x is zero/any extended
        return Lin(0, {e.get_id(): (e, 1)})

    # ------------------------------------------------------------ memory
    def new_region(s, st, size, name, below=('undef',)):
        rid = s.nrid
        s.nrid += 1
        r = Region(rid, size, name, below)
        st.mem[rid] = r
        st.owned.add(rid)
        return rid

    def scaled_bounds(s, o, size, w):
        """offset g*x + c0 with an access inside one element of size g of an array of m elements: x < m suffices"""
        if not isinstance(o, Lin) or not isinstance(w, int): return None
        g = 0
        for e, k in o.t.values(): g = math.gcd(g, abs(k))
        if g < 2: return None
        c0 = sgn(o.c) % g
        if c0 + w > g: return None
        x = bv(lin_bv(Lin((sgn(o.c) - c0) // g, {i: (e, k // g) for i, (e, k) in o.t.items()})), 64)
        if isinstance(size, int):
            if size // g == 0: return None
            return [z3.ULT(x, size // g)]
        if not isinstance(size, Lin) or sgn(size.c) < 0 or any(k % g for e, k in size.t.values()): return None
        m = bv(lin_bv(Lin(sgn(size.c) // g, {i: (e, k // g) for i, (e, k) in size.t.items()})), 64)
        return [z3.ULT(x, m), z3.ULE(m, (1 << 62) // g)]

    def bounds(s, st, p, w, what):
        """in-bounds obligation for access of w bytes at p"""
        if not isinstance(p, Ptr):
            s.prove(st, False, 'memory', 'dereference of non-pointer in %s' % what)
            raise PathEnd()
        if p.r == 0:
            s.prove(st, False, 'memory', 'null/invalid pointer dereference (%s)' % what)
            raise PathEnd()
        r = st.mem.get(p.r)
        if r is None:
            s.prove(st, False, 'memory', 'access to dead object (%s)' % what)
            raise PathEnd()
        if r.freed:
            s.prove(st, False, 'memory', 'use after free of %s (%s)' % (r.name, what))
            raise PathEnd()
        if not s.opts['memsafe'] or r.size is None: return r
        o = p.o
        if isinstance(o, int) and isinstance(r.size, int) and isinstance(w, int):
            if sgn(o) < 0 or o + w > r.size:
                s.prove(st, False, 'memory', 'out-of-bounds access to %s: offset %d size %d width %d (%s)' % (r.name, sgn(o), r.size, w, what))
                raise PathEnd()
            return r
        if not s.recording: return r
        ob = bv(lin_bv(o), 64)
        c = s.scaled_bounds(o, r.size, w) or []
        if c: pass
        elif isinstance(r.size, int):
            if isinstance(w, int):
                if r.size < w: c.append(z3.BoolVal(False))
                else: c.append(z3.ULE(ob, z3.BitVecVal(r.size - w, 64)))
            else:
                wv = bv(w, 64)
                c += [z3.ULE(wv, r.size), z3.ULE(ob, z3.BitVecVal(r.size, 64) - wv)]
        else:
            sz = bv(lin_bv(r.size), 64)
            wv = bv(w, 64)
            c += [z3.ULE(wv, sz), z3.ULE(ob, sz - wv)]
        if isinstance(o, Lin) and not s.scaled_bounds(o, r.size, w):
            for e, k in o.t.values():
                if k > 1:
                    if isinstance(r.size, int):
                        c.append(z3.ULE(e, r.size // k))
        cond = z3.And(*c) if len(c) > 1 else c[0]
        key = (cond.get_id(), st.pcids)
        if key in s.memob: return r
        if s.prove(st, cond, 'memory', 'in-bounds access to %s (%s)' % (r.name, what)):
            s.memob[key] = cond
        return r

    def has_ite(s, e):
        k = e.get_id()
        h = s.itecache.get(k)
        if h is None:
            seen = set(); stk = [e]; r = False
            while stk:
                x = stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I): r = True; break
                    stk.extend(x.children())
            h = s.itecache[k] = (r, e)
        return h[0]

    def conc(s, st, p):
        """pointer whose offset the path condition already fixes -> concrete offset"""
        if not isinstance(p, Ptr) or not isinstance(p.o, Lin): return p
        if not any(s.has_ite(e) for e, c in p.o.t.values()):
            r = st.mem.get(p.r)
            if r is None or not any(isinstance(c[1], Ptr) and c[1].r != p.r for c in r.cells.values()): return p
        o = lin_bv(p.o)
        vs = vars_of(o)
        pc = s.slice(st.pclist(), vs)
        key = (frozenset(x.get_id() for x in pc), o.get_id())
        h = s.conccache.get(key)
        if h is None:
            v = None
            r, so = s.check(pc, s.opts['ftimeout'])
            if r == z3.sat:
                m = so.model().eval(o, model_completion=True)
                if z3.is_bv_value(m):
                    r2, _ = s.check(pc + [o != m], s.opts['ftimeout'])
                    if r2 == z3.unsat: v = m.as_long()
            h = s.conccache[key] = (v, o, pc)
        return p if h[0] is None else Ptr(p.r, h[0])

    def load(s, st, p, t):
        p = s.conc(st, p)
        if t.k == 'st' or t.k == 'arr' or t.k == 'vec':
            out = []
            if t.k == 'st':
                offs = offsets(t)
                for o, ft in zip(offs, t.fs): out.append(s.load(st, Ptr(p.r, lin_add(p.o, o)), ft))
            else:
                es = size_of(t.el)
                for i in range(t.n): out.append(s.load(st, Ptr(p.r, lin_add(p.o, i * es)), t.el))
            return out
        w = (t.n + 7) // 8 if t.k == 'i' else size_of(t)
        r = s.bounds(st, p, w, 'load')
        v = s.read(st, r, p.o, w)
        return s.conv(st, v, t, p, w)

    def conv(s, st, v, t, p=None, w=None):
        if v is UNDEF:
            if t.k == 'i':
                n = 8 * ((t.n + 7) // 8)
                v = s.fresh('undef', n)
                # make it stable: later reads see the same value
                if p is not None and isinstance(p.o, int):
                    st.wr(p.r).cells[p.o] = (w, v)
                if t.n == 1: return v == 1
                if n != t.n: return z3.Extract(t.n - 1, 0, v)
                return v
            return UNDEF
        if t.k == 'i':
            if isinstance(v, Ptr): return PInt(v)
            if isinstance(v, (PInt, float, Fn)): 
                if isinstance(v, float):
                    import struct
                    return int.from_bytes(struct.pack('<d' if t.n == 64 else '<f', v), 'little')
                return v
            n = t.n
            if n == 1:
                if isinstance(v, int): return bool(v & 1)
                return s.trunc1(v)
            if n % 8:
                if isinstance(v, int): return v & ((1 << n) - 1)
                return z3.Extract(n - 1, 0, v)
            return v
        if t.k == 'ptr':
            if isinstance(v, int):
                if v == 0: return NULL
                return Ptr(0, v)
            if isinstance(v, PInt): return v.p
            if isinstance(v, (Ptr, Fn)): return v
            raise Undecided('load pointer from integer data')
        if t.k == 'f':
            if isinstance(v, int):
                import struct
                return struct.unpack('<d' if t.n == 64 else '<f', v.to_bytes(t.n // 8, 'little'))[0]
            return v
        raise Unsupported('conv %r' % t)

    def trunc1(s, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v): return bool(v.as_long() & 1)
        if v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                x, y = a.as_long() & 1, b.as_long() & 1
                if x == 1 and y == 0: return c
                if x == 0 and y == 1: return z3.Not(c)
                return bool(x)
        return z3.Extract(0, 0, v) == 1

    def store(s, st, p, t, v):
        p = s.conc(st, p)
        if t.k in ('st', 'arr', 'vec'):
            if v is UNDEF: return
            if t.k == 'st':
                for o, ft, x in zip(offsets(t), t.fs, v): s.store(st, Ptr(p.r, lin_add(p.o, o)), ft, x)
            else:
                es = size_of(t.el)
                for i in range(t.n): s.store(st, Ptr(p.r, lin_add(p.o, i * es)), t.el, v[i])
            return
        w = (t.n + 7) // 8 if t.k == 'i' else size_of(t)
        r = s.bounds(st, p, w, 'store')
        if r.const:
            s.prove(st, False, 'memory', 'write to constant %s' % r.name)
            raise PathEnd()
        if t.k == 'i':
            n = t.n
            if n == 1:
                if isinstance(v, bool): v = int(v)
                elif z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif n % 8 and not isinstance(v, int):
                v = z3.ZeroExt(8 * w - n, v)
        elif t.k == 'f' and isinstance(v, float):
            import struct
            v = int.from_bytes(struct.pack('<d' if t.n == 64 else '<f', v), 'little')
        s.write(st, p, w, v)

    def write(s, st, p, w, v):
        r = st.wr(p.r)
        o = p.o
        if st.wlog is not None: st.wlog.append((p.r, o if isinstance(o, int) else None, w))
        if isinstance(o, int):
            cells = r.cells
            c = cells.get(o)
            if c is not None and c[0] == w:
                cells[o] = (w, v); return
            s.clear_range(r, o, w)
            cells[o] = (w, v)
        else:
            if r.cells:
                r.below = ('cells', r.below, r.cells)
                r.cells = {}
            r.below = ('store', r.below, o, w, v)
            r.wild += 1

    def clear_range(s, r, o, w):
        """remove/split cells overlapping [o,o+w)"""
        cells = r.cells
        if w > 64 and w > len(cells) * 2:
            cand = [k for k in cells if k < o + w and k + cells[k][0] > o]
        else:
            cand = [k for k in range(o - 31, o + w) if k in cells and k + cells[k][0] > o]
        for k in cand:
            w2, v2 = cells.pop(k)
            for b in range(w2):
                a = k + b
                if a < o or a >= o + w:
                    cells[a] = (1, s.byte_of(v2, w2, b))

    def byte_of(s, v, w, b):
        if isinstance(v, int): return (v >> (8 * b)) & 0xff
        if v is UNDEF: return UNDEF
        if isinstance(v, (Ptr, PInt, Fn)):
            return ('pb', v, b)
        if isinstance(v, tuple): raise Undecided('pointer byte split')
        if w == 1: return v
        return z3.Extract(8 * b + 7, 8 * b, v)

    def join(s, bs):
        """little-endian list of byte values -> value"""
        w = len(bs)
        if w == 1:
            return bs[0]
        if all(isinstance(b, int) for b in bs):
            x = 0
            for i, b in enumerate(bs): x |= b << (8 * i)
            return x
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs): return UNDEF
            bs = [s.fresh('undef', 8) if b is UNDEF else b for b in bs]
        if isinstance(bs[0], tuple):
            v = bs[0][1]
            if w == 8 and all(isinstance(b, tuple) and b[1] is v and b[2] == i for i, b in enumerate(bs)):
                return v
            raise Undecided('partial pointer bytes')
        # join adjacent extracts
        return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def read(s, st, r, o, w):
        if isinstance(o, int):
            c = r.cells.get(o)
            if c is not None and c[0] == w: return c[1]
            cells = r.cells
            lo = o - 31
            hit = False
            for k in range(lo, o + w):
                c = cells.get(k)
                if c is not None and k + c[0] > o:
                    hit = True; break
            if not hit:
                if r.below[0] == 'undef': return UNDEF
                if r.below[0] == 'zero': return 0
                return s.rnode(st, r.below, o, w, r)
            # one bigger cell containing it?
            c = cells.get(k)
            if k <= o and k + c[0] >= o + w:
                v = c[1]
                if isinstance(v, int): return (v >> (8 * (o - k))) & ((1 << (8 * w)) - 1)
                if v is UNDEF: return UNDEF
                if z3.is_expr(v):
                    d = o - k
                    return z3.simplify(z3.Extract(8 * (d + w) - 1, 8 * d, v))
            bs = []
            for a in range(o, o + w):
                got = None
                for k in range(a, a - 32, -1):
                    c = cells.get(k)
                    if c is not None and k + c[0] > a:
                        got = s.byte_of(c[1], c[0], a - k); break
                else:
                    got = s.rnode(st, r.below, a, 1, r)
                bs.append(got)
            return s.join(bs)
        if r.cells:
            return s.rnode(st, ('cells', r.below, r.cells), o, w, r)
        return s.rnode(st, r.below, o, w, r)

    def rnode(s, st, node, o, w, reg):
        alts = []          # (cond, value) newest first
        base = None
        while True:
            k = node[0]
            if k == 'undef':
                base = UNDEF; break
            if k == 'zero':
                base = 0; break
            if k == 'uf':
                base = s.ufread(st, node, o, w); break
            if k == 'store':
                r = s.overlap(st, o, w, node[2], node[3], node[4])
                if r == 'no': pass
                elif r == 'bytes': return s.bytes_read(st, reg, alts, node, o, w)
                elif r[0] is True:
                    base = r[1]; break
                else:
                    alts.append(r)
                node = node[1]
            elif k == 'cells':
                cells = node[2]
                done = False
                if isinstance(o, int):
                    rr = Region(0, None, 'tmp'); rr.cells = cells; rr.below = node[1]
                    base = s.read(st, rr, o, w)
                    break
                if len(cells) > 8 and s.table_ok(cells, o, w):
                    base = s.table_read(st, cells, o, w, reg)
                    done = True
                else:
                    for o2, (w2, v2) in cells.items():
                        r = s.overlap(st, o, w, o2, w2, v2)
                        if r == 'no': continue
                        if r == 'bytes': return s.bytes_read(st, reg, alts, node, o, w)
                        if r[0] is True:
                            base = r[1]; done = True; break
                        alts.append(r)
                if done: break
                node = node[1]
            elif k == 'bulk':
                # ('bulk', below, dstoff, len, srcnode, srcoff)
                _, below, d0, ln, src, s0 = node
                diff = lin_add(o, d0, -1)
                inside = s.in_range(st, diff, w, ln)
                if inside is False:
                    node = below; continue
                v = None
                if inside is not False:
                    so = lin_add(s0, diff)
                    v = s.rnode(st, src, so, w, reg)
                if inside is True:
                    base = v; break
                alts.append((inside, v))
                node = below
            elif k == 'fill':
                _, below, d0, ln, val = node
                diff = lin_add(o, d0, -1)
                inside = s.in_range(st, diff, w, ln)
                if inside is False:
                    node = below; continue
                v = s.join([val] * w) if not isinstance(val, int) else int.from_bytes(bytes([val]) * w, 'little')
                if inside is True:
                    base = v; break
                alts.append((inside, v))
                node = below
            else:
                raise Unsupported('node ' + k)
        return s.compose(st, alts, base, w)

    def compose(s, st, alts, base, w):
        if not alts: return base
        v = base
        if any(isinstance(x, (Ptr, PInt, Fn)) for _, x in alts) or isinstance(base, (Ptr, PInt, Fn)):
            raise ForkValue(alts, base)
        if v is UNDEF: v = s.fresh('undef', 8 * w)
        v = bv(v, 8 * w)
        for c, x in reversed(alts):
            if x is UNDEF: x = s.fresh('undef', 8 * w)
            v = z3.If(c, bv(x, 8 * w), v)
        return v

    def scaled(s, st, w, *xs):
        """the values divided by w where all of them are small multiples of w, else None"""
        out = []
        for x in xs:
            if isinstance(x, int):
                if sgn(x) % w: return None
                out.append(z3.BitVecVal((sgn(x) // w) & M64, 64)); continue
            if not isinstance(x, Lin) or not x.t: return None
            c0 = sgn(x.c)
            if c0 % w or any(k % w for e, k in x.t.values()): return None
            cx = RG.Cx(st.rng); tot = abs(c0)
            for e, k in x.t.values(): tot += abs(k) * RG.ex(e, cx)[1]
            if tot >= 1 << 62: return None
            out.append(bv(lin_bv(Lin((c0 // w) & M64, {i: (e, k // w) for i, (e, k) in x.t.items()})), 64))
        return out

    def in_range(s, st, diff, w, ln):
        """is [diff, diff+w) inside [0, ln)?  True/False/cond; assumes no straddling (checked)"""
        if isinstance(diff, int) and isinstance(ln, int):
            d = sgn(diff)
            if d >= 0 and d + w <= ln: return True
            if d + w <= 0 or d >= ln: return False
            raise Undecided('read straddles a bulk copy boundary')
        q = s.scaled(st, w, diff, ln) if w > 1 else None
        if q is None:
            d = bv(lin_bv(diff), 64)
            l = bv(lin_bv(ln), 64)
        if q is not None:
            c = z3.ULT(q[0], q[1])
        elif w == 1:
            c = z3.ULT(d, l)
        else:
            c = z3.And(z3.ULT(d, l), z3.ULE(d + w, l))
            st_ = z3.Or(z3.And(z3.ULT(d, l), z3.ULT(l, d + w)), z3.And(z3.ULT(z3.BitVecVal(-w & M64, 64), d), l != 0))
            if not s.must(st, z3.Not(st_)):
                raise Undecided('read may straddle a bulk copy boundary')
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.must(st, c): return True
        if s.must(st, z3.Not(c)): return False
        return c

    def overlap(s, st, o, w, o2, w2, v2):
        """relation of read [o,w) to store [o2,w2)=v2: 'no' | (True|cond, value) | 'bytes'"""
        d = lin_add(o, o2, -1)
        if isinstance(d, int):
            d = sgn(d)
            if d == 0 and w == w2: return (True, v2)
            if d + w <= 0 or d >= w2: return 'no'
            if d >= 0 and d + w <= w2:
                return (True, s.sub_value(v2, w2, d, w))
            return 'bytes'
        g = 0
        for e, c in d.t.values(): g = math.gcd(g, abs(c))
        r = d.c % g
        y = None
        if g > 1:      # terms known to be small: g*y + r == r exactly when y == 0
            cx = RG.Cx(st.rng); tot = abs(sgn(d.c))
            for e, k in d.t.values(): tot += abs(k) * RG.ex(e, cx)[1]
            if tot < 1 << 62: y = bv(lin_bv(Lin((sgn(d.c) - r) // g, {i: (e, k // g) for i, (e, k) in d.t.items()})), 64)
        if w == w2 and r == 0 and w <= g:
            c = (bv(lin_bv(d), 64) if y is None else y) == 0
        elif r >= w2 and r + w <= g:
            return 'no'
        elif r + w <= w2 <= g:
            c = bv(lin_bv(d), 64) == r if y is None else y == 0
            v2 = s.sub_value(v2, w2, r, w)
        elif w == 1:
            dd = bv(lin_bv(d), 64)
            if isinstance(v2, (Ptr, PInt, Fn)) or v2 is UNDEF:
                if s.must(st, z3.UGE(dd, w2)): return 'no'
                raise Undecided('byte read over pointer')
            c = z3.ULT(dd, w2)
            x = bv(v2, 8 * w2)
            amt = z3.Extract(7, 0, dd) if 8 * w2 <= 0 else dd
            sh = (z3.Extract(8 * w2 - 1, 0, dd) if 8 * w2 <= 64 else z3.ZeroExt(8 * w2 - 64, dd)) * 8
            v2 = z3.Extract(7, 0, z3.LShR(x, sh)) if w2 > 1 else x
        else:
            return 'bytes'
        c = z3.simplify(c)
        if z3.is_true(c): return (True, v2)
        if z3.is_false(c): return 'no'
        if s.opts.get('resolve', True):
            if not s.feasible(st, c): return 'no'
            if not s.feasible(st, z3.Not(c)): return (True, v2)
        return (c, v2)

    def sub_value(s, v, w2, d, w):
        if isinstance(v, int): return (v >> (8 * d)) & ((1 << (8 * w)) - 1)
        if v is UNDEF: return UNDEF
        if isinstance(v, (Ptr, PInt, Fn)):
            if d == 0 and w == w2: return v
            if w == 1: return ('pb', v, d)
            raise Undecided('partial pointer read')
        return z3.simplify(z3.Extract(8 * (d + w) - 1, 8 * d, v))

    def bytes_read(s, st, reg, alts, node, o, w):
        if w == 1: raise Undecided('byte-level overlap')
        bs = []
        for i in range(w):
            bs.append(s.rnode(st, node, lin_add(o, i), 1, reg))
        if any(isinstance(b, tuple) for b in bs): raise Undecided('pointer bytes')
        return s.compose(st, alts, s.join(bs), w)

    def table_ok(s, cells, o, w):
        if not isinstance(o, Lin): return False
        for o2, (w2, v2) in cells.items():
            if w2 != w or o2 % w or not isinstance(v2, int): return False
        g = 0
        for e, c in o.t.values(): g = math.gcd(g, abs(c))
        return g % w == 0 and o.c % w == 0

    def table_read(s, st, cells, o, w, reg):
        """read from a fully concrete table at a symbolic index: balanced ITE tree"""
        ks = sorted(cells)
        idx = bv(lin_bv(o), 64)
        lo, hi = ks[0] // w, ks[-1] // w
        # index in units of w
        key = ('tbl', tuple((k, cells[k][1]) for k in ks[:4]), len(ks), idx.get_id())
        def build(a, b):
            if a == b: return z3.BitVecVal(cells[ks[a]][1], 8 * w)
            m = (a + b + 1) // 2
            l = build(a, m - 1); r = build(m, b)
            if l.eq(r): return l
            return z3.If(z3.ULT(idx, ks[m]), l, r)
        v = build(0, len(ks) - 1)
        # entries not present in cells are read as the below node: require contiguity
        if (hi - lo + 1) != len(ks):
            raise Undecided('sparse table')
        return v

    def ufread(s, st, node, o, w):
        """('uf', name, stride, {(c,w): FuncDecl})"""
        _, name, g, slots = node
        if isinstance(o, Lin):
            ok = all(c % g == 0 for e, c in o.t.values())
            if not ok:
                if g == 1: ok = True
            if ok:
                r = o.c % g
                if r > g // 2 and False: pass
                q = Lin(0, {k: (e, c // g) for k, (e, c) in o.t.items()})
                q = lin_add(q, sgn(o.c) // g if g > 1 else o.c)
                r = sgn(o.c) % g if g > 1 else 0
                idx = bv(lin_bv(q), 64)
            else:
                raise Undecided('unaligned symbolic access to %s' % name)
        else:
            idx = z3.BitVecVal(sgn(o) // g, 64); r = sgn(o) % g
        fn = slots.get((r, w))
        if fn is not None: return fn(idx)
        # inside a wider slot or spanning several
        if w == 1:
            for (c, w2), fn in slots.items():
                if c <= r < c + w2:
                    x = fn(idx)
                    return x if w2 == 1 else z3.Extract(8 * (r - c) + 7, 8 * (r - c), x)
            return UNDEF
        bs = [s.ufread(st, node, lin_add(o, i), 1) for i in range(w)]
        return s.join(bs)

    def mkuf(s, name, stride, slots):
        s.nvar += 1
        d = {}
        for c, w in slots:
            d[(c, w)] = z3.Function('%s!%d@%d:%d' % (name, s.nvar, c, w), z3.BitVecSort(64), z3.BitVecSort(8 * w))
        return ('uf', name, stride, d)

    def snapshot(s, r):
        return ('cells', r.below, dict(r.cells)) if r.cells else r.below

    def memcpy(s, st, dst, src, n, what='memcpy'):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int):
            n = s.lin(n)
        if isinstance(n, int):
            rs = s.bounds(st, src, n, what); rd = s.bounds(st, dst, n, what)
            if isinstance(dst.o, int) and isinstance(src.o, int) and n <= 65536:
                # copy cells
                if dst.r == src.r and dst.o == src.o: return
                items = []
                a = src.o
                end = src.o + n
                cells = rs.cells
                while a < end:
                    c = cells.get(a)
                    if c is not None and a + c[0] <= end:
                        items.append((a - src.o, c[0], c[1])); a += c[0]
                        continue
                    hit = None
                    for k in range(a, a - 32, -1):
                        c = cells.get(k)
                        if c is not None and k + c[0] > a:
                            hit = (k, c); break
                    if hit:
                        items.append((a - src.o, 1, s.byte_of(hit[1][1], hit[1][0], a - hit[0]))); a += 1
                        continue
                    # gap: up to next cell
                    if rs.below[0] in ('undef', 'zero'):
                        e = a + 1
                        if len(cells) > 4 * (end - a):
                            while e < end and e not in cells: e += 1
                        else:
                            e = min([k for k in cells if k > a] + [end])
                            e = min(e, end)
                        items.append((a - src.o, e - a, ('gap', rs.below[0])))
                        a = e
                    else:
                        items.append((a - src.o, 1, s.rnode(st, rs.below, a, 1, rs))); a += 1
                r = st.wr(dst.r)
                if st.wlog is not None: st.wlog.append((dst.r, dst.o, n))
                s.clear_range(r, dst.o, n)
                for d, w, v in items:
                    if isinstance(v, tuple) and v[0] == 'gap':
                        if v[1] == 'undef':
                            if r.below[0] != 'undef':
                                for q in range(w): r.cells[dst.o + d + q] = (1, UNDEF)
                        elif r.below[0] != 'zero':
                            q = 0
                            while q < w:
                                if w - q >= 8: r.cells[dst.o + d + q] = (8, 0); q += 8
                                else: r.cells[dst.o + d + q] = (1, 0); q += 1
                    else:
                        r.cells[dst.o + d] = (w, v)
                return
            if n <= 64:
                # small symbolic-offset copy: widest pieces
                vals = []
                a = 0
                while a < n:
                    for w in (16, 8, 4, 2, 1):
                        if a + w <= n:
                            break
                    # prefer natural chunk present in source
                    vals.append((a, w, None)); a += w
                pieces = s.copy_pieces(st, rs, src.o, n)
                for a, w, v in pieces:
                    s.write(st, Ptr(dst.r, lin_add(dst.o, a)), w, v)
                return
        else:
            rs = s.bounds(st, src, lin_bv(n), what); rd = s.bounds(st, dst, lin_bv(n), what)
        node = s.snapshot(rs)
        r = st.wr(dst.r)
        if st.wlog is not None: st.wlog.append((dst.r, None, n))
        if r.cells:
            r.below = ('cells', r.below, r.cells); r.cells = {}
        r.below = ('bulk', r.below, dst.o, n, node, src.o)
        r.wild += 1

    def copy_pieces(s, st, rs, o, n):
        """read n bytes as a list of pieces (offset, width, value), one value when possible"""
        if n in (1, 2, 4, 8, 16):
            v = s.read(st, rs, o, n)
            return [(0, n, v)]
        if isinstance(o, int):
            out = []
            a = 0
            while a < n:
                c = rs.cells.get(o + a)
                if c is not None and a + c[0] <= n:
                    out.append((a, c[0], c[1])); a += c[0]
                else:
                    out.append((a, 1, s.read(st, rs, o + a, 1))); a += 1
            return out
        # symbolic source: try widths descending with preference to uf slots
        b = rs.below
        while b[0] in ('store', 'cells', 'bulk', 'fill'): b = b[1]
        if b[0] == 'uf' and isinstance(o, Lin):
            g = b[2]
            out = []
            a = 0
            while a < n:
                r = (sgn(o.c) + a) % g
                w = 1
                for (c, w2) in b[3]:
                    if c == r and a + w2 <= n: w = w2
                out.append((a, w, s.read(st, rs, lin_add(o, a), w))); a += w
            return out
        return [(a, 1, s.read(st, rs, lin_add(o, a), 1)) for a in range(n)]

    def memset(s, st, dst, val, n):
        if not isinstance(n, int): n = s.lin(n)
        if isinstance(n, int) and n == 0: return
        s.bounds(st, dst, n if isinstance(n, int) else lin_bv(n), 'memset')
        r = st.wr(dst.r)
        if st.wlog is not None: st.wlog.append((dst.r, dst.o if isinstance(dst.o, int) and isinstance(n, int) else None, n))
        if not isinstance(val, int):
            vv = z3.simplify(val)
            if z3.is_bv_value(vv): val = vv.as_long()
        if isinstance(dst.o, int) and isinstance(n, int):
            if dst.o == 0 and isinstance(r.size, int) and n == r.size and val == 0:
                r.cells = {}; r.below = ('zero',); return
            if n <= 4096:
                s.clear_range(r, dst.o, n)
                a = 0
                while a < n:
                    w = 8 if n - a >= 8 and (dst.o + a) % 8 == 0 else 1
                    v = int.from_bytes(bytes([val & 0xff]) * w, 'little') if isinstance(val, int) else (val if w == 1 else z3.Concat(*[val] * w))
                    r.cells[dst.o + a] = (w, v); a += w
                return
        if r.cells:
            r.below = ('cells', r.below, r.cells); r.cells = {}
        r.below = ('fill', r.below, dst.o, n, val & 0xff if isinstance(val, int) else val)
        r.wild += 1

    # ------------------------------------------------------------ globals / constants
    def global_ptr(s, st, name):
        if name in s.mod.funcs or name in s.mod.decls: return Fn(name)
        rid = s.globals_rid.get(name)
        if rid is None:
            rid = s.nrid; s.nrid += 1
            s.globals_rid[name] = rid
        if rid not in st.mem:
            g = s.mod.glob(name)
            if g[0] == 'alias':
                v = s.const(st, PTR, g[1])
                return v
            t, init, isconst = g
            try: sz = size_of(t)
            except Unsupported: sz = None
            r = Region(rid, sz, '@' + name)
            st.mem[rid] = r
            if init is None:
                r.size = None
                r.below = ('undef',)
            else:
                r.below = ('zero',)
                st.owned.add(rid)
                s.init_const(st, r, 0, t, init)
            r.const = isconst
            st.owned.discard(rid)
        return Ptr(rid, 0)

    def init_const(s, st, r, o, t, c):
        k = c[0]
        if k in ('zero', 'undef'):
            return
        if k == 'null': return
        if t.k in ('arr', 'vec'):
            es = size_of(t.el)
            if k == 'str':
                for i, b in enumerate(c[1]):
                    if b or True: r.cells[o + i] = (1, b)
                return
            for i, (et, e) in enumerate(c[1]): s.init_const(st, r, o + i * es, et, e)
            return
        if t.k == 'st':
            for off, (et, e) in zip(offsets(t), c[1]): s.init_const(st, r, o + off, et, e)
            return
        v = s.const(st, t, c)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, float):
            import struct
            v = int.from_bytes(struct.pack('<d' if t.n == 64 else '<f', v), 'little')
        r.cells[o] = (size_of(t), v)

    def const(s, st, t, c):
        k = c[0]
        if k == 'i':
            return bool(c[1]) if t.n == 1 else c[1]
        if k == 'g': return s.global_ptr(st, c[1])
        if k == 'null': return NULL
        if k == 'f': return c[1]
        if k == 'undef':
            if t.k == 'st': return [s.const(st, f, c) for f in t.fs]
            if t.k == 'arr': return [s.const(st, t.el, c) for _ in range(t.n)]
            if t.k == 'i':
                return False if t.n == 1 else 0
            if t.k == 'ptr': return NULL
            return UNDEF
        if k == 'zero':
            if t.k == 'st': return [s.const(st, f, c) for f in t.fs]
            if t.k in ('arr', 'vec'): return [s.const(st, t.el, c) for _ in range(t.n)]
            if t.k == 'i': return False if t.n == 1 else 0
            if t.k == 'ptr': return NULL
            return 0.0
        if k == 'agg':
            return [s.const(st, et, e) for et, e in c[1]]
        if k == 'gep':
            bt, ops = c[1], c[2]
            base = s.const(st, PTR, ops[0][1])
            return s.gep(st, bt, base, [(it, s.const(st, it, iv)) for it, iv in ops[1:]])
        if k == 'cast':
            v = s.const(st, c[2], c[3])
            return s.cast(st, c[1], c[2], v, c[4])
        raise Unsupported('const %s' % (c,))

    def gep(s, st, bt, base, idx):
        if isinstance(base, PInt): base = base.p
        if isinstance(base, Fn): raise Undecided('gep on function')
        if base is UNDEF: raise Undecided('gep on undef')
        off = base.o
        t = bt
        first = True
        for it, iv in idx:
            if first:
                off = lin_add(off, s.idx(st, iv, it), size_of(t)) if not (isinstance(iv, int) and iv == 0) else off
                first = False
                continue
            if t.k == 'st':
                off = lin_add(off, offsets(t)[iv])
                t = t.fs[iv]
            elif t.k in ('arr', 'vec'):
                off = lin_add(off, s.idx(st, iv, it), size_of(t.el))
                t = t.el
            else:
                raise Unsupported('gep into %r' % t)
        return Ptr(base.r, off)

    def idx(s, st, v, t):
        if isinstance(v, int): return sgn(v, t.n) & M64
        if isinstance(v, PInt): raise Undecided('pointer as index')
        if t.n < 64: v = z3.SignExt(64 - t.n, v)
        return s.lin(v, st)

    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, t, a, b, flags=()):
        if t.k == 'vec':
            return [s.binop(st, op, t.el, x, y, flags) for x, y in zip(a, b)]
        n = t.n
        m = (1 << n) - 1
        if n == 1:
            return s.bool_op(op, a, b)
        if a is UNDEF: a = s.fresh('undef', n)
        if b is UNDEF: b = s.fresh('undef', n)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(a.p, Fn):
                if op == 'and' and isinstance(b, int) and b < 16: return 0          # functions are 16-byte aligned
                raise Undecided('integer arithmetic on function address (%s)' % op)
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.r == b.p.r:
                    return lin_bv(lin_add(a.p.o, b.p.o, -1))
                raise Undecided('difference of pointers into different objects')
            if op == 'add':
                if isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.r, lin_add(a.p.o, s.lin(b))))
                if isinstance(b, PInt) and not isinstance(a, PInt): return PInt(Ptr(b.p.r, lin_add(b.p.o, s.lin(a))))
            if op == 'sub' and isinstance(a, PInt):
                return PInt(Ptr(a.p.r, lin_add(a.p.o, s.lin(b), -1)))
            if op in ('and', 'urem') and isinstance(a, PInt) and isinstance(b, int):
                r = st.mem.get(a.p.r)
                al = (b + 1) if op == 'and' else b
                if al and al & (al - 1) == 0 and al <= 64 and isinstance(a.p.o, int):
                    return a.p.o & (al - 1)
            raise Undecided('integer arithmetic on pointer (%s)' % op)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n: return s.fresh('poison', n)     # unspecified value, as in LLVM (may be speculated)
                if op == 'shl': return (a << b) & m
                if op == 'lshr': return a >> b
                return (sgn(a, n) >> b) & m
            if b == 0:
                s.prove(st, False, 'undefined-behaviour', 'division by zero')
                raise PathEnd()
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (x - q * y) & m
            raise Unsupported(op)
        # cheap identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
            if op == 'and' and b == m: return a
            if b == 0 and op in ('udiv', 'urem', 'sdiv', 'srem'):
                s.prove(st, False, 'undefined-behaviour', 'division by zero'); raise PathEnd()
            if op in ('shl', 'lshr', 'ashr') and b >= n: return s.fresh('poison', n)
        elif isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul'): return 0
            if a == 1 and op == 'mul': return b
            if a == m and op == 'and': return b
        A, B = bv(a, n), bv(b, n)
        if n == 64 and isinstance(b, int) and op in ('udiv', 'sdiv', 'lshr', 'ashr'):      # element counts from byte distances
            k = b if op[1:] == 'div' else 1 << b
            if 1 < k < 1 << 32:
                lo, hi, c0, ts = RG.ex(z3.simplify(A), RG.Cx(st.rng))
                if 0 < len(ts) < 5 and 0 <= lo and hi < 1 << 63 and c0 % k == 0 and all(v[0] % k == 0 and v[3].size() == n for v in ts.values()):
                    r = z3.BitVecVal((c0 // k) & m, n) if c0 else None
                    for v in ts.values():
                        x = v[3] if v[0] == k else v[3] * z3.BitVecVal((v[0] // k) & m, n)
                        r = x if r is None else r + x
                    return r
        if op == 'add': return A + B
        if op == 'sub':
            if A.eq(B): return 0
            return A - B
        if op == 'mul': return A * B
        if op in ('and', 'or', 'xor'):
            x, y = flag01(A), flag01(B)
            if x is not None and y is not None:
                c = s.bool_op(op, x, y)
                return int(c) if isinstance(c, bool) else z3.If(c, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if op == 'and': return A & B
        if op == 'or': return A | B
        if op == 'xor': return A ^ B
        if op in ('shl', 'lshr', 'ashr'):
            r = A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B
            if not isinstance(b, int) and not s.must(st, z3.ULT(B, n)):
                # an oversized shift yields an unspecified value (LLVM poison; clang may speculate it into a select)
                r = z3.If(z3.ULT(B, n), r, s.fresh('poison', n))
            return r
        if not isinstance(b, int):
            s.prove(st, B != 0, 'undefined-behaviour', 'division by zero')
        if op == 'udiv': return z3.UDiv(A, B)
        if op == 'urem': return z3.URem(A, B)
        if op == 'sdiv':
            if isinstance(b, int) and 0 < b < (1 << (n - 1)) and s.must(st, A >= 0): return z3.UDiv(A, B)
            return A / B
        if op == 'srem':
            if isinstance(b, int) and 0 < b < (1 << (n - 1)) and s.must(st, A >= 0): return z3.URem(A, B)
            return z3.SRem(A, B)
        raise Unsupported(op)

    def bool_op(s, op, a, b):
        if a is UNDEF: a = False
        if b is UNDEF: b = False
        if isinstance(a, bool) and isinstance(b, bool):
            if op == 'and': return a and b
            if op == 'or': return a or b
            if op in ('xor', 'add', 'sub'): return a != b
        if op == 'and':
            if a is False or b is False: return False
            if a is True: return b
            if b is True: return a
            return z3.And(a, b)
        if op == 'or':
            if a is True or b is True: return True
            if a is False: return b
            if b is False: return a
            return z3.Or(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool): return z3.Not(b) if a else b
            if isinstance(b, bool): return z3.Not(a) if b else a
            return z3.Xor(a, b)
        raise Unsupported('i1 ' + op)

    def icmp(s, st, pred, t, a, b):
        if t.k == 'ptr' or isinstance(a, (Ptr, Fn, PInt)) or isinstance(b, (Ptr, Fn, PInt)):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                if pred == 'eq': return e
                if pred == 'ne': return not e
                raise Unsupported('fn compare')
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Undecided('pointer compare with integer')
            if a.r != b.r:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Undecided('ordering of pointers into different objects')
            d = lin_add(a.o, b.o, -1)
            if isinstance(d, int):
                d = sgn(d)
                return {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0,
                        'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}[pred]
            d = lin_bv(d)
            return {'eq': lambda: d == 0, 'ne': lambda: d != 0, 'ult': lambda: d < 0, 'ule': lambda: d <= 0,
                    'ugt': lambda: d > 0, 'uge': lambda: d >= 0, 'slt': lambda: d < 0, 'sle': lambda: d <= 0,
                    'sgt': lambda: d > 0, 'sge': lambda: d >= 0}[pred]()
        n = t.n
        if n == 1:
            if pred in ('eq', 'ne'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) if pred == 'eq' else (a != b)
                if isinstance(a, bool): a, b = b, a
                if isinstance(b, bool):
                    return a if (b == (pred == 'eq')) else z3.Not(a)
                return (a == b) if pred == 'eq' else z3.Xor(a, b)
            raise Unsupported('i1 icmp ' + pred)
        if a is UNDEF: a = s.fresh('undef', n)
        if b is UNDEF: b = s.fresh('undef', n)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if pred[0] == 's' else (a, b)
            p = pred[-2:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if pred in ('eq', 'ne') and (isinstance(a, int) or isinstance(b, int)):
            k, x = (b, flag01(a)) if isinstance(b, int) else (a, flag01(b))
            if x is not None and k < 2 and not isinstance(x, bool): return x if (k == 1) == (pred == 'eq') else z3.Not(x)
        A, B = bv(a, n), bv(b, n)
        return {'eq': lambda: A == B, 'ne': lambda: A != B,
                'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()

    def cast(s, st, op, ft, v, tt):
        if op in ('bitcast', 'addrspacecast'):
            if tt.k == ft.k: return v
            if ft.k == 'i' and tt.k == 'f' and isinstance(v, int):
                import struct
                return struct.unpack('<d' if tt.n == 64 else '<f', v.to_bytes(tt.n // 8, 'little'))[0]
            if ft.k == 'f' and tt.k == 'i':
                import struct
                return int.from_bytes(struct.pack('<d' if ft.n == 64 else '<f', v), 'little')
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            if v is UNDEF: return 0
            if isinstance(v, Ptr) and v.r == 0 and isinstance(v.o, int): return v.o
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int): return Ptr(0, v)
            raise Undecided('inttoptr of data')
        if op in ('zext', 'sext', 'trunc'):
            if v is UNDEF: v = s.fresh('undef', ft.n) if ft.n > 1 else False
            if ft.k == 'vec':
                return [s.cast(st, op, ft.el, x, tt.el) for x in v]
            fn, tn = ft.n, tt.n
            if isinstance(v, PInt):
                if op == 'trunc' : raise Undecided('truncated pointer')
                return v
            if fn == 1:
                if isinstance(v, bool):
                    if op == 'sext': return ((1 << tn) - 1) if v else 0
                    return int(v)
                one = ((1 << tn) - 1) if op == 'sext' else 1
                return z3.If(v, z3.BitVecVal(one, tn), z3.BitVecVal(0, tn))
            if isinstance(v, int):
                if op == 'zext': return v
                if op == 'sext': return sgn(v, fn) & ((1 << tn) - 1)
                x = v & ((1 << tn) - 1)
                return bool(x) if tn == 1 else x
            if op == 'zext': 
                return s.zext(st, v, fn, tn)
            if op == 'sext': 
                if fn == 32 and tn == 64 and s.must(st, v >= 0):
                    return s.zext(st, v, fn, tn)
                return z3.SignExt(tn - fn, v)
            if tn == 1:
                c = flag01(v)
                return s.trunc1(v) if c is None else c
            if v.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                x = v.children()[0]
                if x.size() == tn: return x
                if x.size() < tn:
                    return z3.ZeroExt(tn - x.size(), x) if v.decl().kind() == z3.Z3_OP_ZERO_EXT else z3.SignExt(tn - x.size(), x)
                return z3.Extract(tn - 1, 0, x)
            return z3.Extract(tn - 1, 0, v)
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                r = float(v if op == 'uitofp' else sgn(v, ft.n))
                return s.rnd(r, tt)
            return FTOP
        if v is FTOP: return FTOP if op in ('fpext', 'fptrunc') else s.fresh('float', tt.n)
        if op in ('fptoui', 'fptosi'):
            return int(v) & ((1 << tt.n) - 1)
        if op in ('fpext', 'fptrunc'): return s.rnd(v, tt)
        raise Unsupported('cast ' + op)

    def zext(s, st, v, fn, tn):
        """zero-extension; pushed through + when the sum provably does not wrap"""
        if v.decl().kind() == z3.Z3_OP_EXTRACT and v.params() == [fn - 1, 0] and v.children()[0].size() == tn:
            x = v.children()[0]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.get_id() not in st.rng: pass
            elif s.must(st, z3.ULE(x, (1 << fn) - 1)): return x
        if tn == 64 and s.opts.get('pushzext', True):
            k = v.get_id()
            e = z3.simplify(v)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD:
                ch = e.children()
                wide = [z3.ZeroExt(tn - fn, c) for c in ch]
                sm = wide[0]
                for w in wide[1:]: sm = sm + w
                if s.must(st, z3.ULE(sm, (1 << fn) - 1)):
                    return sm
                if len(ch) == 2 and z3.is_bv_value(ch[0]):
                    c = ch[0].as_long()
                    neg = (1 << fn) - c
                    if s.must(st, z3.UGE(ch[1], neg)):
                        return z3.ZeroExt(tn - fn, ch[1]) - neg
        return z3.ZeroExt(tn - fn, v)

    def rnd(s, r, t):
        if t.n == 32:
            import struct
            return struct.unpack('<f', struct.pack('<f', r))[0]
        return r

    def ite(s, st, c, a, b, t):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if t.k == 'i':
            if t.n == 1:
                if isinstance(a, bool) and isinstance(b, bool):
                    if a == b: return a
                    return c if a else z3.Not(c)
                return z3.If(c, tobool(a), tobool(b))
            if isinstance(a, (PInt, Undef)) or isinstance(b, (PInt, Undef)): raise ForkCond(c)
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            return z3.If(c, bv(a, t.n), bv(b, t.n))
        if t.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            if isinstance(a.o, int) and isinstance(b.o, int) and a.o == b.o: return a
        raise ForkCond(c)


class ForkCond(Exception):
    def __init__(s, c): s.c = c


class ForkValue(Exception):
    def __init__(s, alts, base): s.alts = alts; s.base = base
