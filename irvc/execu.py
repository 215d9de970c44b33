"""Path exploration, calls, exceptions, loop cutting and the contract intrinsics."""
import re, time, itertools
import z3
from engine import *
from engine import _keep


class Event(Exception):
    pass


class LatchEv(Event):
    def __init__(s, cut): s.cut = cut


class RetEv(Event):
    def __init__(s, v): s.v = v


class DropEv(Event):
    pass


class CutTrigger(Exception):
    def __init__(s, st): s.st = st


class Cut:
    __slots__ = ('depth', 'header', 'body', 'trial', 'latches', 'fn', 'on_latch', 'drop_exit')

    def __init__(s, depth, fn, header, body, trial, on_latch=None, drop_exit=False):
        s.depth = depth; s.fn = fn; s.header = header; s.body = body; s.trial = trial; s.latches = []
        s.on_latch = on_latch; s.drop_exit = drop_exit


def same_const(v):
    if isinstance(v, int): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    return None


class Exec(Engine):
    def __init__(s, mod, opts=None):
        super().__init__(mod, opts)
        s.handlers = {}
        for n in dir(s):
            if n.startswith('h_'): s.handlers[n[2:]] = getattr(s, n)
        s.ufs = {}
        s.handler_cache = {}
        s.execfuncs = set()
        s.typeids = {}

    # ------------------------------------------------------------ top level
    def run_harness(s, fname, ctors=True):
        st = State()
        if ctors:
            g = s.mod._gtext.get('llvm.global_ctors')
            if g:
                t, init, _ = s.mod.glob('llvm.global_ctors')
                for et, e in init[1]:
                    fnv = e[1][1][1]
                    res = s.run_call(st, fnv[1], [])
                    if len(res) != 1: raise Undecided('static initialiser forked')
                    st = res[0][0]
        f = s.mod.func(fname)
        s.push(st, f, [], None)
        s.explore([st], 0, s.done_path)

    def done_path(s, st, v):
        s.paths += 1

    def push(s, st, f, args, ins):
        fr = Frame(f)
        fr.ins = ins
        for (t, nm, byval), a in zip(f.params, args):
            fr.regs[nm] = a
        if len(args) < len(f.params): raise Undecided('too few arguments to ' + f.name)
        st.frames.append(fr)
        if len(st.frames) > 200: raise Undecided('recursion too deep')
        s.execfuncs.add(f.name)

    def run_call(s, st, fname, args):
        """execute fname(args) to completion on st; returns [(state, value)] for every path"""
        f = s.mod.func(fname)
        depth = len(st.frames)
        out = []
        s.push(st, f, args, None)
        st.frames[-1].kind = 'sub'
        s.explore([st], depth, lambda q, v: out.append((q, v)))
        return out

    def explore(s, stack, base, sink):
        while stack:
            st = stack.pop()
            try:
                s.run(st, base, stack)
            except RetEv as e:
                sink(st, e.v)
            except LatchEv as e:
                c = e.cut
                if c.trial: c.latches.append(st)
                else: c.on_latch(st)
            except (DropEv, Infeasible):
                pass
            except PathEnd:
                pass
            except CutTrigger as e:
                try:
                    ns = s.enter_cut(e.st, stack)
                    stack.extend(ns)
                except (PathEnd, Infeasible):
                    pass
            if s.fail is not None and s.opts['stop_on_fail']:
                return
            if s.paths > s.opts['maxpaths'] or len(stack) > s.opts['maxpaths']: raise Undecided('path limit')

    # ------------------------------------------------------------ control
    def val(s, st, fr, t, v):
        k = v[0]
        if k == 'r':
            return fr.regs[v[1]]
        if k == 'i':
            return bool(v[1]) if t.n == 1 else v[1]
        return s.const(st, t, v)

    def goto(s, st, fr, B):
        depth = len(st.frames)
        if st.cuts:
            top = st.cuts[-1]
            if top.depth == depth:
                if B == top.header:
                    fr.prev = fr.blk; fr.blk = B; fr.ip = 0
                    raise LatchEv(top)
                if B not in top.body:
                    if top.drop_exit: raise DropEv()
                    st.cuts = st.cuts[:-1]
        lps = fr.f.loops
        cur = fr.blk
        if fr.snaps:
            for h in list(fr.snaps):
                if B not in lps[h]:
                    del fr.snaps[h]
        fr.prev = cur; fr.blk = B; fr.ip = 0
        if B in lps:
            if cur in lps[B]:
                k = (depth, B)
                st.unw[k] = st.unw.get(k, 0)
            else:
                st.unw[(depth, B)] = 0
                if st.specs:
                    sp = s.pending(st, fr.f.name, B)
                    if sp is not None:
                        if sp.now or (fr.f.name, B) in st.bound:
                            raise CutTrigger(st)
                        if fr.snaps is None: fr.snaps = {}
                        fr.snaps[B] = Snap(st.copy())
        # phis
        blk = fr.f.blocks[B]
        if blk[0].op == 'phi':
            news = []
            n = 0
            for ins in blk:
                if ins.op != 'phi': break
                t, inc = ins.a
                for v, b in inc:
                    if b == cur:
                        news.append((ins.dst, s.val(st, fr, t, v))); break
                else:
                    raise Undecided('phi without edge')
                n += 1
            for d, v in news: fr.regs[d] = v
            fr.ip = n

    def spec_id(s, st, sp):
        """a loop contract is the n-th registration of its invariant function"""
        return (sp.fn, sum(1 for q in st.specs[:sp.k] if q.fn == sp.fn))

    def pending(s, st, fname, header):
        k = (fname, header)
        if k in st.bound: return st.specs[st.bound[k]]
        g = s.gbound.get(k)
        if g is not None:
            for sp in st.specs:
                if s.spec_id(st, sp) == g and sp.k not in st.bound.values() and any(sp.rx.search(s.demangle(f.f.name)) for f in st.frames): return sp
        gu = set(s.gbound.values())
        used = set(st.bound.values()) | set(sp.k for sp in st.specs if s.spec_id(st, sp) in gu)
        for i, sp in enumerate(st.specs):
            if i in used: continue
            for f in st.frames:
                if sp.rx.search(s.demangle(f.f.name)):
                    return sp
        return None

    def branch(s, st, fr, c, a, b, stack):
        """conditional jump"""
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        if isinstance(c, bool):
            s.goto(st, fr, a if c else b); return
        nc = z3.Not(c)
        t = s.feasible(st, c)
        if not t:
            st.assume(nc); s.goto(st, fr, b); return
        if not s.feasible(st, nc):
            st.assume(c); s.goto(st, fr, a); return
        # both feasible
        depth = len(st.frames)
        lps = fr.f.loops
        inner = None
        for h, body in lps.items():
            if fr.blk in body and (a not in body or b not in body):
                if inner is None or len(body) < len(lps[inner]): inner = h
        if inner is not None:
            top = st.cuts[-1] if st.cuts else None
            if not (top and top.depth == depth and top.header == inner):
                if fr.snaps and inner in fr.snaps:
                    sn = fr.snaps[inner]
                    if sn.done: raise DropEv()
                    sn.done = True
                    raise CutTrigger(sn.st.copy())
                k = (depth, inner)
                st.unw[k] = st.unw.get(k, 0) + 1
                if st.unw[k] > s.opts['unwind']:
                    raise Undecided('loop without invariant: more than %d symbolic iterations in %s' % (s.opts['unwind'], s.demangle(fr.f.name)))
        st2 = st.copy()
        st.forks += 1
        st2.forks += 1
        fr2 = st2.frames[-1]
        try:
            st2.assume(nc)
            s.goto(st2, fr2, b)
            stack.append(st2)
        except (DropEv, Infeasible): pass
        except LatchEv as e:
            if e.cut.trial: e.cut.latches.append(st2)
            else:
                try: e.cut.on_latch(st2)
                except PathEnd: pass
        except CutTrigger as e:
            stack.extend(s.enter_cut(e.st, stack))
        if s.fail is not None and s.opts['stop_on_fail']: raise PathEnd()
        st.assume(c)
        s.goto(st, fr, a)

    def fork_bool(s, st, c):
        pass

    def pop(s, st, base):
        fr = st.frames.pop()
        for rid in fr.allocas:
            st.mem.pop(rid, None)
        d = len(st.frames)
        while st.cuts and st.cuts[-1].depth > d:
            top = st.cuts[-1]
            if top.drop_exit: raise DropEv()
            st.cuts = st.cuts[:-1]
        return fr

    def ret(s, st, v, base):
        fr = s.pop(st, base)
        if len(st.frames) == base: raise RetEv(v)
        if fr.kind == 'sub': raise Undecided('sub-call escaped')
        ins = fr.ins
        nf = st.frames[-1]
        if ins is not None:
            if ins.dst is not None: nf.regs[ins.dst] = v
            if ins.a[3]:
                s.goto(st, nf, ins.a[3])

    def unwind(s, st, base):
        """propagate st.exc"""
        while True:
            fr = st.frames[-1]
            ins = None
            popped = s.pop(st, base)
            if len(st.frames) <= base:
                st.uncaught = st.exc
                s.prove(st, False, 'exception', 'uncaught exception (%s) leaves %s' % (s.exc_name(st), s.demangle(popped.f.name)))
                raise PathEnd()
            ins = popped.ins
            if popped.kind == 'sub':
                raise Undecided('exception out of a specification function')
            nf = st.frames[-1]
            if ins is not None and ins.op == 'call' and ins.a[4]:
                s.goto(st, nf, ins.a[4]); return

    def exc_name(s, st):
        try: return s.demangle('_ZTI' + st.exc[1][4:]) if st.exc[1] else '?'
        except Exception: return '?'

    def throw_here(s, st, base):
        """exception raised by the call instruction currently executing in the top frame"""
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk][fr.ip - 1]
        if ins.op == 'call' and ins.a[4]:
            s.goto(st, fr, ins.a[4])
        else:
            s.unwind(st, base)

    # ------------------------------------------------------------ main loop
    def run(s, st, base, stack):
        tick = 0
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            ins = blk[fr.ip]
            fr.ip += 1
            s.steps += 1
            tick += 1
            if tick & 1023 == 0:
                s.deadline()
                if s.steps > s.opts['maxsteps']: raise Undecided('step limit')
            op = ins.op
            regs = fr.regs
            try:
                if op == 'load':
                    t, a = ins.a
                    p = s.val(st, fr, PTR, a)
                    if isinstance(p, PInt): p = p.p
                    if st.rely is not None: s.interfere(st, p, t)
                    regs[ins.dst] = s.load(st, p, t)
                elif op == 'store':
                    t, v, a = ins.a
                    p = s.val(st, fr, PTR, a)
                    if isinstance(p, PInt): p = p.p
                    if st.rely is not None: s.interfere(st, p, t, s.val(st, fr, t, v))
                    s.store(st, p, t, s.val(st, fr, t, v))
                elif op == 'gep':
                    bt, ops, inb = ins.a
                    regs[ins.dst] = s.gep(st, bt, s.val(st, fr, PTR, ops[0][1]), [(it, s.val(st, fr, it, iv)) for it, iv in ops[1:]])
                elif op == 'icmp':
                    pred, t, a, b = ins.a
                    regs[ins.dst] = s.icmp(st, pred, t, s.val(st, fr, t, a), s.val(st, fr, t, b))
                elif op == 'br':
                    s.goto(st, fr, ins.a[0])
                elif op == 'cbr':
                    c, a, b = ins.a
                    s.branch(st, fr, s.val(st, fr, INT(1), c), a, b, stack)
                elif op == 'call':
                    s.call(st, fr, ins, base, stack)
                elif op == 'cast':
                    o, t, a, tt = ins.a
                    regs[ins.dst] = s.cast(st, o, t, s.val(st, fr, t, a), tt)
                elif op == 'alloca':
                    t, n = ins.a
                    cnt = 1
                    if n is not None:
                        cnt = s.val(st, fr, n[0], n[1])
                    sz = size_of(t) * cnt if isinstance(cnt, int) else lin_scale(s.lin(s.zx(cnt, 64)), size_of(t))
                    rid = s.new_region(st, sz, '%s' % (ins.dst,))
                    fr.allocas = fr.allocas + (rid,)
                    regs[ins.dst] = Ptr(rid, 0)
                elif op == 'ret':
                    t, v = ins.a
                    s.ret(st, None if v is None else s.val(st, fr, t, v), base)
                elif op == 'select':
                    c, t, a, b = ins.a
                    c = s.val(st, fr, INT(1), c)
                    if not isinstance(c, bool):
                        if t.k != 'i' or t.n > 1:
                            if s.must(st, c): c = True
                            elif s.must(st, z3.Not(c)): c = False
                    regs[ins.dst] = s.ite(st, c, s.val(st, fr, t, a), s.val(st, fr, t, b), t)
                elif op == 'switch':
                    s.switch(st, fr, ins, stack)
                elif op == 'extractvalue':
                    t, a, idx = ins.a
                    v = s.val(st, fr, t, a)
                    for i in idx: v = v[i]
                    regs[ins.dst] = v
                elif op == 'insertvalue':
                    t, a, et, v, idx = ins.a
                    x = s.val(st, fr, t, a)
                    y = s.val(st, fr, et, v)

                    def insv(x, idx):
                        x = list(x)
                        if len(idx) == 1: x[idx[0]] = y
                        else: x[idx[0]] = insv(x[idx[0]], idx[1:])
                        return x
                    regs[ins.dst] = insv(x, idx)
                elif op == 'fbin':
                    o, t, a, b = ins.a
                    x = s.val(st, fr, t, a); y = s.val(st, fr, t, b)
                    if x is FTOP or y is FTOP: regs[ins.dst] = FTOP; continue
                    if not isinstance(x, (int, float)) or not isinstance(y, (int, float)): raise Undecided('symbolic floating point')
                    if o == 'fadd': r = x + y
                    elif o == 'fsub': r = x - y
                    elif o == 'fmul': r = x * y
                    elif o == 'fdiv':
                        if y == 0: r = math.inf if x > 0 else (-math.inf if x < 0 else math.nan)
                        else: r = x / y
                    else: raise Unsupported(o)
                    regs[ins.dst] = s.rnd(r, t)
                elif op == 'fneg':
                    regs[ins.dst] = -s.val(st, fr, ins.a[0], ins.a[1])
                elif op == 'fcmp':
                    pred, t, a, b = ins.a
                    x = s.val(st, fr, t, a); y = s.val(st, fr, t, b)
                    if not isinstance(x, (int, float)) or not isinstance(y, (int, float)): raise Undecided('symbolic floating point')
                    un = x != x or y != y
                    base_ = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'rd': not un, 'no': un}[pred[-2:]]
                    regs[ins.dst] = bool((base_ and not un) if pred[0] == 'o' else (base_ or un))
                elif op == 'landingpad':
                    s.landingpad(st, fr, ins, base)
                elif op == 'resume':
                    s.unwind(st, base)
                elif op == 'unreachable':
                    s.prove(st, False, 'undefined-behaviour', 'unreachable code reached in ' + s.demangle(fr.f.name))
                    raise PathEnd()
                elif op == 'freeze':
                    regs[ins.dst] = s.val(st, fr, ins.a[0], ins.a[1])
                elif op == 'atomicrmw':
                    o, t, a, v = ins.a
                    p = s.val(st, fr, PTR, a)
                    if st.rely is not None: s.interfere(st, p, t)
                    old = s.load(st, p, t)
                    x = s.val(st, fr, t, v)
                    if o == 'xchg': new = x
                    else: new = s.binop(st, o, t, old, x)
                    if st.rely is not None: s.interfere(st, p, t, new, False)
                    s.store(st, p, t, new)
                    regs[ins.dst] = old
                elif op == 'cmpxchg':
                    t, a, cv, nv = ins.a
                    p = s.val(st, fr, PTR, a)
                    if st.rely is not None: s.interfere(st, p, t)
                    old = s.load(st, p, t)
                    c = s.icmp(st, 'eq', t, old, s.val(st, fr, t, cv))
                    if st.rely is not None: s.interfere(st, p, t, s.ite(st, c, s.val(st, fr, t, nv), old, t), False)
                    s.store(st, p, t, s.ite(st, c, s.val(st, fr, t, nv), old, t))
                    regs[ins.dst] = [old, c]
                elif op == 'nop':
                    pass
                elif op == 'phi':
                    raise Undecided('phi in the middle')
                elif op == 'unsupported':
                    raise Undecided('unsupported instruction: ' + ins.txt[:80])
                else:
                    t, a, b, flags = ins.a
                    regs[ins.dst] = s.binop(st, op, t, s.val(st, fr, t, a), s.val(st, fr, t, b), flags)
            except ForkCond as e:
                s.refork(st, fr, [e.c, z3.Not(e.c)], stack)
            except ForkValue as e:
                conds = []
                rest = []
                for c, v in e.alts:
                    conds.append(z3.And(*(rest + [c])) if rest else c)
                    rest.append(z3.Not(c))
                conds.append(z3.And(*rest) if len(rest) > 1 else rest[0])
                s.refork(st, fr, conds, stack)

    def zx(s, v, n):
        if isinstance(v, int): return v
        if v.size() < n: return z3.ZeroExt(n - v.size(), v)
        return v

    def refork(s, st, fr, conds, stack):
        fr.ip -= 1
        ok = [c for c in conds if s.feasible(st, c)]
        if not ok: raise Infeasible()
        for c in ok[1:]:
            q = st.copy()
            try:
                q.assume(c); stack.append(q)
            except Infeasible: pass
        st.assume(ok[0])

    def switch(s, st, fr, ins, stack):
        t, v, d, cs = ins.a
        x = s.val(st, fr, t, v)
        if isinstance(x, int):
            for c, b in cs:
                if c == x:
                    s.goto(st, fr, b); return
            s.goto(st, fr, d); return
        outs = []
        neg = []
        for c, b in cs:
            e = x == c
            neg.append(x != c)
            if s.feasible(st, e): outs.append((e, b))
        dn = z3.And(*neg) if neg else True
        if s.feasible(st, dn): outs.append((dn, d))
        if not outs: raise Infeasible()
        for e, b in outs[1:]:
            q = st.copy()
            try:
                q.assume(e)
                s.goto(q, q.frames[-1], b); stack.append(q)
            except (Infeasible, DropEv): pass
            except LatchEv as ev:
                if ev.cut.trial: ev.cut.latches.append(q)
                else:
                    try: ev.cut.on_latch(q)
                    except PathEnd: pass
        st.assume(outs[0][0])
        s.goto(st, fr, outs[0][1])

    # ------------------------------------------------------------ exceptions
    def landingpad(s, st, fr, ins, base):
        t, cleanup, cl = ins.a
        ti = st.exc[1]
        for k, v in cl:
            if k == 'catch':
                if v[0] == 'null' or s.is_base(v[1], ti):
                    fr.regs[ins.dst] = [st.exc[0], 0 if v[0] == 'null' else s.typeid(v[1])]
                    if v[0] == 'null': fr.regs[ins.dst][1] = s.typeid('*')
                    return
        if cleanup:
            fr.regs[ins.dst] = [st.exc[0], 0]; return
        s.unwind(st, base)

    def typeid(s, n):
        if n not in s.typeids: s.typeids[n] = len(s.typeids) + 1
        return s.typeids[n]

    def is_base(s, want, have):
        seen = set()
        todo = [have]
        while todo:
            x = todo.pop()
            if x == want: return True
            if x is None or x in seen: continue
            seen.add(x)
            try: g = s.mod.glob(x)
            except KeyError: continue
            if g[0] == 'alias' or g[1] is None: continue
            def walk(c):
                if c[0] == 'g' and c[1].startswith('_ZTI'): todo.append(c[1])
                elif c[0] == 'agg':
                    for _, e in c[1]: walk(e)
            walk(g[1])
        return False

    # ------------------------------------------------------------ calls
    def call(s, st, fr, ins, base, stack):
        t, callee, args, to, un = ins.a
        if callee[0] == 'asm':
            s.asm(st, fr, ins, callee[1], args)
            return
        if callee[0] == 'g': fn = callee[1]
        else:
            fv = s.val(st, fr, PTR, callee)
            if not isinstance(fv, Fn): raise Undecided('call through a non-function pointer')
            fn = fv.name
        h = s.handler_cache.get(fn)
        if h is None:
            h = s.find_handler(fn)
            s.handler_cache[fn] = h
        av = []
        if h is not False or not fn.startswith('llvm.dbg'):
            for at, v, byval in args:
                if at is META: av.append(None); continue
                x = s.val(st, fr, at, v)
                if byval:
                    rid = s.new_region(st, size_of(byval), 'byval')
                    fr.allocas = fr.allocas + (rid,)
                    s.memcpy(st, Ptr(rid, 0), x, size_of(byval))
                    x = Ptr(rid, 0)
                av.append(x)
        if h is not False:
            s.cur = (st, fr, ins, base, stack)
            depth = len(st.frames)
            r = h(st, av, ins)
            if r is TAIL:      # handler arranged control itself
                return
            if ins.dst is not None: fr.regs[ins.dst] = r
            if to: s.goto(st, fr, to)
            return
        for rx, target in st.repl:
            if rx.search(s.demangle(fn)) and not any(f.f.name == target for f in st.frames):
                fn = target
                break
        if fn in s.mod.aliases: fn = s.mod.aliases[fn]
        if fn not in s.mod.funcs:
            raise Undecided('call to external function ' + s.demangle(fn))
        f = s.mod.func(fn)
        s.push(st, f, av, ins)

    def find_handler(s, fn):
        h = s.handlers.get(fn)
        if h: return h
        if fn.startswith('llvm.'):
            b = fn[5:].split('.')[0]
            h = s.handlers.get('llvm_' + b)
            if h: return h
            b2 = '_'.join(fn[5:].split('.')[:2])
            h = s.handlers.get('llvm_' + b2)
            if h: return h
            for k in s.handlers:
                if k.startswith('llvm_') and fn[5:].replace('.', '_').startswith(k[5:]): return s.handlers[k]
            raise Undecided('intrinsic ' + fn)
        return False

    def asm(s, st, fr, ins, txt, args):
        if 'popcnt' in txt:
            v = s.val(st, fr, args[0][0], args[0][1])
            fr.regs[ins.dst] = s.popcount(v, args[0][0].n)
            return
        if 'cpuid' in txt or txt == '""':
            raise Undecided('inline asm ' + txt)
        raise Undecided('inline asm ' + txt)

    def popcount(s, v, n):
        if isinstance(v, int): return bin(v).count('1')
        fn = s.ufs.get(('popcnt', n))
        r = None
        # exact: tree sum
        bits = [z3.ZeroExt(n - 1, z3.Extract(i, i, v)) for i in range(n)]
        if s.opts.get('popcnt_uf'):
            f = s.getuf('popcnt%d' % n, [n], n)
            return f(v)
        while len(bits) > 1:
            bits = [bits[i] + bits[i + 1] if i + 1 < len(bits) else bits[i] for i in range(0, len(bits), 2)]
        return bits[0]

    def getuf(s, name, argw, retw):
        k = (name, tuple(argw), retw)
        f = s.ufs.get(k)
        if f is None:
            srt = [z3.BitVecSort(w) for w in argw] + [z3.BitVecSort(retw)]
            f = s.ufs[k] = z3.Function(name, *srt)
        return f

    def cstr(s, st, p):
        if not isinstance(p, Ptr): raise Undecided('string argument')
        r = st.mem[p.r]
        o = p.o
        b = bytearray()
        while True:
            v = s.read(st, r, o, 1)
            if not isinstance(v, int): raise Undecided('symbolic string')
            if v == 0: break
            b.append(v); o += 1
        return b.decode('latin1')

    # ------------------------------------------------------------ llvm intrinsics
    def h_llvm_dbg(s, st, a, ins): return None
    def h_llvm_lifetime(s, st, a, ins): return None
    def h_llvm_assume(s, st, a, ins): return None
    def h_llvm_stacksave(s, st, a, ins): return NULL
    def h_llvm_stackrestore(s, st, a, ins): return None
    def h_llvm_experimental(s, st, a, ins): return None
    def h_llvm_expect(s, st, a, ins): return a[0]
    def h_llvm_prefetch(s, st, a, ins): return None
    def h_llvm_objectsize(s, st, a, ins): return M64
    def h_llvm_is_constant(s, st, a, ins): return False

    def h_llvm_memcpy(s, st, a, ins):
        s.memcpy(st, a[0], a[1], a[2])

    def h_llvm_memmove(s, st, a, ins):
        s.memcpy(st, a[0], a[1], a[2])

    def h_llvm_memset(s, st, a, ins):
        s.memset(st, a[0], a[1], a[2])

    def h_llvm_trap(s, st, a, ins):
        s.prove(st, False, 'undefined-behaviour', 'trap reached'); raise PathEnd()

    def h_llvm_bswap(s, st, a, ins):
        n = ins.a[0].n
        v = a[0]
        if isinstance(v, int): return int.from_bytes(v.to_bytes(n // 8, 'little'), 'big')
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)])

    def h_llvm_ctpop(s, st, a, ins): return s.popcount(a[0], ins.a[0].n)

    def h_llvm_umin(s, st, a, ins): return s.ite(st, s.icmp(st, 'ult', ins.a[0], a[0], a[1]), a[0], a[1], ins.a[0])
    def h_llvm_umax(s, st, a, ins): return s.ite(st, s.icmp(st, 'ugt', ins.a[0], a[0], a[1]), a[0], a[1], ins.a[0])
    def h_llvm_smin(s, st, a, ins): return s.ite(st, s.icmp(st, 'slt', ins.a[0], a[0], a[1]), a[0], a[1], ins.a[0])
    def h_llvm_smax(s, st, a, ins): return s.ite(st, s.icmp(st, 'sgt', ins.a[0], a[0], a[1]), a[0], a[1], ins.a[0])

    def h_llvm_abs(s, st, a, ins):
        t = ins.a[0]
        return s.ite(st, s.icmp(st, 'slt', t, a[0], 0), s.binop(st, 'sub', t, 0, a[0]), a[0], t)

    def h_llvm_fshl(s, st, a, ins):
        n = ins.a[0].n
        k = a[2]
        if not isinstance(k, int): raise Undecided('symbolic fshl')
        k %= n
        if k == 0: return a[0]
        t = ins.a[0]
        return s.binop(st, 'or', t, s.binop(st, 'shl', t, a[0], k), s.binop(st, 'lshr', t, a[1], n - k))

    def h_llvm_fshr(s, st, a, ins):
        n = ins.a[0].n
        k = a[2] % n
        if k == 0: return a[1]
        t = ins.a[0]
        return s.binop(st, 'or', t, s.binop(st, 'shl', t, a[0], n - k), s.binop(st, 'lshr', t, a[1], k))

    def clz(s, v, n):
        if isinstance(v, int): return n - v.bit_length()
        r = z3.BitVecVal(n, n)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i, n), r)
        return r

    def h_llvm_ctlz(s, st, a, ins): return s.clz(a[0], ins.a[0].n)

    def h_llvm_cttz(s, st, a, ins):
        n = ins.a[0].n
        v = a[0]
        if isinstance(v, int): return n if v == 0 else (v & -v).bit_length() - 1
        r = z3.BitVecVal(n, n)
        for i in reversed(range(n)):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, n), r)
        return r

    def ovf(s, st, a, ins, op, signed):
        t = ins.a[0].fs[0]
        n = t.n
        r = s.binop(st, op, t, a[0], a[1])
        if all(isinstance(x, int) for x in a[:2]):
            x, y = (sgn(a[0], n), sgn(a[1], n)) if signed else (a[0], a[1])
            z = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            o = not (-(1 << (n - 1)) <= z < (1 << (n - 1))) if signed else not (0 <= z < (1 << n))
            return [r, o]
        A, B = bv(a[0], n), bv(a[1], n)
        if signed: raise Undecided('signed overflow intrinsic')
        if op == 'add': o = z3.ULT(bv(r, n), A)
        elif op == 'sub': o = z3.ULT(A, B)
        else: o = z3.Not(z3.BVMulNoOverflow(A, B, False))
        return [r, o]

    def h_llvm_umul(s, st, a, ins): return s.ovf(st, a, ins, 'mul', False)
    def h_llvm_uadd(s, st, a, ins): return s.ovf(st, a, ins, 'add', False)
    def h_llvm_usub(s, st, a, ins): return s.ovf(st, a, ins, 'sub', False)
    def h_llvm_sadd(s, st, a, ins): return s.ovf(st, a, ins, 'add', True)
    def h_llvm_smul(s, st, a, ins): return s.ovf(st, a, ins, 'mul', True)
    def h_llvm_ssub(s, st, a, ins): return s.ovf(st, a, ins, 'sub', True)

    def h_llvm_fabs(s, st, a, ins): return abs(a[0])
    def h_llvm_floor(s, st, a, ins): return float(math.floor(a[0]))
    def h_llvm_ceil(s, st, a, ins): return float(math.ceil(a[0]))
    def h_llvm_fmuladd(s, st, a, ins): return FTOP if any(isinstance(x, FTop) for x in a[:3]) else s.rnd(a[0] * a[1] + a[2], ins.a[0])
    def h_llvm_eh_typeid_for(s, st, a, ins):
        p = a[0]
        for n, rid in s.globals_rid.items():
            if isinstance(p, Ptr) and rid == p.r: return s.typeid(n)
        if isinstance(p, Fn): return s.typeid(p.name)
        raise Undecided('typeid')
    h_llvm_eh = h_llvm_eh_typeid_for

    # libm on concrete doubles
    def _m(f):
        def g(s, st, a, ins):
            if not all(isinstance(x, (int, float)) for x in a): raise Undecided('symbolic floating point')
            return f(*a)
        return g
    h_pow = _m(lambda x, y: math.pow(x, y))
    h_ceil = _m(lambda x: float(math.ceil(x)))
    h_floor = _m(lambda x: float(math.floor(x)))
    h_log = _m(lambda x: math.log(x))
    h_log2 = _m(lambda x: math.log2(x))
    h_sqrt = _m(lambda x: math.sqrt(x))
    h_round = _m(lambda x: float(math.floor(x + 0.5)))
    h_exp = _m(lambda x: math.exp(x))

    # ------------------------------------------------------------ runtime
    def alloc(s, st, n, name, below=('undef',)):
        if isinstance(n, int): sz = n
        else:
            sz = s.lin(n)
        return Ptr(s.new_region(st, sz, name, below), 0)

    def h__Znwm(s, st, a, ins): return s.alloc(st, a[0], 'new')
    def h__Znam(s, st, a, ins): return s.alloc(st, a[0], 'new[]')
    def h_malloc(s, st, a, ins): return s.alloc(st, a[0], 'malloc')

    def h_calloc(s, st, a, ins):
        return s.alloc(st, s.binop(st, 'mul', INT(64), a[0], a[1]), 'calloc', ('zero',))

    def h_free(s, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and p.r == 0: return None
        r = st.mem.get(p.r)
        if r is None or r.freed or not (isinstance(p.o, int) and p.o == 0):
            s.prove(st, False, 'memory', 'invalid free of %s' % (r.name if r else '?')); raise PathEnd()
        r = st.wr(p.r)
        r.freed = True; r.cells = {}; r.below = ('undef',)
        return None
    h__ZdlPv = h_free
    h__ZdaPv = h_free
    h__ZdlPvm = h_free
    h__ZdaPvm = h_free

    # ------------------------------------------------------------ specification library (specstl)
    def h_vc_stl_alloc(s, st, a, ins): return Ptr(s.new_region(st, None, 'vector', ('undef',)), 0)

    def h_vc_stl_free(s, st, a, ins):
        p = a[0]
        if not isinstance(p, Ptr) or p.r == 0 or p.r not in st.mem: return None
        if st.mem[p.r].freed:
            s.prove(st, False, 'memory', 'container storage freed twice'); raise PathEnd()
        r = st.wr(p.r)
        r.freed = True; r.cells = {}; r.below = ('undef',)
        return None

    def h_vc_stl_bounds(s, st, a, ins):
        c = s.as_bool(a[0])
        lab = s.cstr(st, a[1])
        if lab.startswith('insert only'):
            if c is True or (not isinstance(c, bool) and s.must(st, c)): return None
            raise Undecided('vector insert in the middle')
        s.prove(st, c, 'library precondition', lab)
        st.assume(c)
        if c is False: raise PathEnd()

    def h_vc_stl_copy(s, st, a, ins):
        n = a[2]
        if not isinstance(n, int):
            n2 = z3.simplify(n)
            if z3.is_bv_value(n2): n = n2.as_long()
        s.memcpy(st, a[0], a[1], n, 'container copy'); return None
    h_vc_stl_move = h_vc_stl_copy

    def h_vc_stl_zero(s, st, a, ins):
        if isinstance(a[1], int) and a[1] == 0: return None
        s.memset(st, a[0], 0, a[1]); return None

    def h_vc_stl_concrete(s, st, a, ins):
        # only used to print numbers into messages / file names
        if isinstance(a[0], int): return a[0]
        return 0

    def h___errno_location(s, st, a, ins):
        rid = st.ghost.get('errno')
        if rid is None or rid not in st.mem:
            rid = s.new_region(st, 4, 'errno', ('undef',)); st.ghost['errno'] = rid
            st.mem[rid].cells[0] = (4, s.fresh('errno', 32))
        return Ptr(rid, 0)

    def h_strerror(s, st, a, ins):
        rid = s.new_region(st, 8, 'strerror', ('zero',))
        return Ptr(rid, 0)

    def h_gettimeofday(s, st, a, ins):
        s.write(st, a[0], 8, s.fresh('tv', 64)); s.write(st, Ptr(a[0].r, lin_add(a[0].o, 8)), 8, s.fresh('tv', 64)); return 0

    def h_memcpy(s, st, a, ins):
        s.memcpy(st, a[0], a[1], a[2]); return a[0]
    h_memmove = h_memcpy

    def h_memset(s, st, a, ins):
        v = a[1]
        v = v & 0xff if isinstance(v, int) else z3.Extract(7, 0, v)
        s.memset(st, a[0], v, a[2]); return a[0]

    def h_strlen(s, st, a, ins):
        return len(s.cstr(st, a[0]))

    def h_memcmp(s, st, a, ins):
        n = a[2]
        if not isinstance(n, int): raise Undecided('memcmp of symbolic length')
        if n == 0: return 0
        x = s.bounds(st, a[0], n, 'memcmp'); y = s.bounds(st, a[1], n, 'memcmp')
        r = 0
        for i in reversed(range(n)):
            p = s.read(st, x, lin_add(a[0].o, i), 1); q = s.read(st, y, lin_add(a[1].o, i), 1)
            if isinstance(p, int) and isinstance(q, int):
                if p != q: r = 1 if p > q else (1 << 32) - 1
            else:
                p, q = bv(p, 8), bv(q, 8)
                r = z3.If(p == q, bv(r, 32), z3.If(z3.UGT(p, q), z3.BitVecVal(1, 32), z3.BitVecVal((1 << 32) - 1, 32)))
        return r

    def h___assert_fail(s, st, a, ins):
        s.prove(st, False, 'assertion', 'assert(%s) in the code under test' % s.cstr(st, a[0])); raise PathEnd()

    def h_abort(s, st, a, ins):
        s.prove(st, False, 'abort', 'abort() reached'); raise PathEnd()

    def h_vc_abort_ok(s, st, a, ins):
        """std::terminate is an acceptable end of the run exactly when *flag is set"""
        s.term_ok = a[0]

    def h__ZSt9terminatev(s, st, a, ins):
        if getattr(s, 'term_ok', None) is not None:
            v = s.read(st, s.bounds(st, s.term_ok, 1, "load"), s.term_ok.o, 1)
            s.prove(st, s.as_bool(v) if isinstance(v, int) else bv(v, 8) != 0, 'abort', 'std::terminate reached without a failed operation'); raise PathEnd()
        s.prove(st, False, 'abort', 'std::terminate reached'); raise PathEnd()
    h___clang_call_terminate = h__ZSt9terminatev

    def h___cxa_allocate_exception(s, st, a, ins): return s.alloc(st, a[0], 'exception')
    def h___cxa_free_exception(s, st, a, ins): return None
    def h___cxa_atexit(s, st, a, ins): return 0
    def h___cxa_guard_acquire(s, st, a, ins):
        v = s.load(st, a[0], INT(8))
        return 1 if (isinstance(v, int) and v == 0) else 0

    def h___cxa_guard_release(s, st, a, ins):
        s.store(st, a[0], INT(8), 1)

    def h___cxa_guard_abort(s, st, a, ins): return None
    def h___cxa_pure_virtual(s, st, a, ins): raise Undecided('pure virtual')

    def gname(s, p):
        if isinstance(p, Fn): return p.name
        for n, rid in s.globals_rid.items():
            if rid == p.r: return n
        return None

    def h___cxa_throw(s, st, a, ins):
        st.exc = (a[0], s.gname(a[1]))
        s.throw_here(st, s.cur[3])
        return TAIL

    def h___cxa_begin_catch(s, st, a, ins):
        st.caught = st.caught + (st.exc,)
        return a[0]

    def h___cxa_end_catch(s, st, a, ins):
        st.caught = st.caught[:-1]
        return None

    def h___cxa_rethrow(s, st, a, ins):
        st.exc = st.caught[-1]
        s.throw_here(st, s.cur[3])
        return TAIL

    def h___cxa_get_exception_ptr(s, st, a, ins): return a[0]
    def h___gxx_personality_v0(s, st, a, ins): raise Undecided('personality')
    def h__Unwind_Resume(s, st, a, ins): raise Undecided('unwind_resume')

    # ------------------------------------------------------------ contract intrinsics
    def inp(s, st, a, n):
        name = s.cstr(st, a[0])
        base = name
        i = 1
        key = 'in:' + name
        c = st.ghost.get(key, 0)
        st.ghost[key] = c + 1
        if c: name = '%s#%d' % (name, c)
        e = z3.BitVec(name, n)
        s.inputs[name] = e
        return e

    def h_vc_u8(s, st, a, ins): return s.inp(st, a, 8)
    def h_vc_u16(s, st, a, ins): return s.inp(st, a, 16)
    def h_vc_u32(s, st, a, ins): return s.inp(st, a, 32)
    def h_vc_u64(s, st, a, ins): return s.inp(st, a, 64)

    def h_vc_u128(s, st, a, ins):
        v = s.inp(st, a, 128)
        if ins.a[0].k == 'st': return [z3.Extract(63, 0, v), z3.Extract(127, 64, v)]
        return v

    def h_vc_range(s, st, a, ins):
        e = s.inp(st, a, 64)
        st.assume(z3.And(z3.UGE(e, bv(a[1], 64)), z3.ULE(e, bv(a[2], 64))))
        return e

    def h_vc_case(s, st, a, ins):
        """vc_case(name, lo, hi): forks over all concrete values (complete case split)"""
        e = s.inp(st, a, 64)
        lo, hi = a[1], a[2]
        st0, fr, ins, base, stack = s.cur
        vals = list(range(lo, hi + 1))
        sh = s.opts.get('shard')
        if sh and not st.ghost.get('sharded'):
            vals = vals[sh[0]::sh[1]]
            st.ghost['sharded'] = True
        if not vals: raise Infeasible()
        lo = vals[0]
        for v in vals[1:]:
            q = st.copy()
            q.assume(e == v)
            qf = q.frames[-1]
            qf.regs[ins.dst] = v
            if ins.a[3]: s.goto(q, qf, ins.a[3])
            stack.append(q)
        st.assume(e == lo)
        return lo

    def h_vc_split(s, st, a, ins):
        """vc_split(x, lo, hi): returns x as a concrete value, forking; obligation lo<=x<=hi"""
        x, lo, hi = a[0], a[1], a[2]
        if isinstance(x, int): return x
        s.prove(st, z3.And(z3.UGE(x, lo), z3.ULE(x, hi)), 'split', 'case split covers the range')
        st0, fr, ins, base, stack = s.cur
        vals = [v for v in range(lo, hi + 1) if s.feasible(st, x == v)]
        if not vals: raise Infeasible()
        for v in vals[1:]:
            q = st.copy()
            q.assume(x == v)
            qf = q.frames[-1]
            qf.regs[ins.dst] = v
            if ins.a[3]: s.goto(q, qf, ins.a[3])
            stack.append(q)
        st.assume(x == vals[0])
        return vals[0]

    def h_vc_assume(s, st, a, ins):
        c = s.as_bool(a[0])
        if not isinstance(c, bool) and not s.feasible(st, c): raise Infeasible()
        st.assume(c)

    def as_bool(s, c):
        if isinstance(c, bool): return c
        if isinstance(c, int): return c != 0
        if z3.is_bool(c): return c
        return c != 0

    def h_vc_assert(s, st, a, ins):
        c = s.as_bool(a[0])
        lab = s.cstr(st, a[1])
        s.prove(st, c, 'postcondition', lab)
        st.assume(c)

    def h_vc_require(s, st, a, ins):
        """callee precondition: obligation at the call site"""
        c = s.as_bool(a[0])
        s.prove(st, c, 'precondition', s.cstr(st, a[1]))
        st.assume(c)

    def h_vc_inv(s, st, a, ins):
        c = s.as_bool(a[0])
        if s.inv_mode == 'assume':
            if not isinstance(c, bool) and not s.feasible(st, c): raise Infeasible()
            st.assume(c)
        else:
            s.prove(st, c, 'invariant-' + (s.inv_mode or 'check'), s.cstr(st, a[1]))
            st.assume(c)

    def h_vc_inv_assuming(s, st, a, ins): return s.inv_mode == 'assume'

    def h_vc_cover(s, st, a, ins):
        lab = s.cstr(st, a[0])
        if s.recording and lab not in s.covers:
            r, _ = s.check(st.pclist(), 20000)
            if r == z3.sat: s.covers[lab] = True
            elif r == z3.unknown: s.covers.setdefault(lab, None) if False else None
        return None

    def h_vc_unreachable(s, st, a, ins):
        s.prove(st, False, 'unreachable', s.cstr(st, a[0])); raise PathEnd()

    def h_vc_array(s, st, a, ins):
        """void* vc_array(name, count, stride, slots "c:w,c:w")"""
        name = s.cstr(st, a[0])
        count, stride = a[1], a[2]
        slots = [tuple(map(int, x.split(':'))) for x in s.cstr(st, a[3]).split(',')]
        key = 'arr:' + name
        c = st.ghost.get(key, 0); st.ghost[key] = c + 1
        if c: name = '%s#%d' % (name, c)
        node = s.ufs.get(('arr', name))
        if node is None:
            d = {}
            for cc, w in slots:
                d[(cc, w)] = z3.Function('%s@%d:%d' % (name, cc, w), z3.BitVecSort(64), z3.BitVecSort(8 * w))
            node = s.ufs[('arr', name)] = ('uf', name, stride, d)
            s.arrays[name] = (d, count, stride)
        if isinstance(count, int): sz = count * stride
        else: sz = lin_scale(s.lin(count), stride)
        rid = s.new_region(st, sz, name, node)
        return Ptr(rid, 0)

    def h_vc_havoc(s, st, a, ins):
        """vc_havoc(ptr, bytes) : concrete small range gets fresh bytes"""
        p, n = a
        s.bounds(st, p, n, 'havoc')
        if not isinstance(n, int): raise Undecided('havoc symbolic size')
        i = 0
        while i < n:
            w = 8 if n - i >= 8 else 1
            s.write(st, Ptr(p.r, lin_add(p.o, i)), w, s.fresh('havoc', 8 * w)); i += w

    def h_vc_havoc_region(s, st, a, ins):
        """vc_havoc_region(ptr, stride, slots): whole object behind ptr gets arbitrary contents"""
        p = a[0]
        slots = [tuple(map(int, x.split(':'))) for x in s.cstr(st, a[2]).split(',')]
        r = st.wr(p.r)
        r.cells = {}
        r.below = s.mkuf('havoc', a[1], slots)
        if st.wlog is not None: st.wlog.append((p.r, None, 0))

    def _uf(s, st, a, n):
        name = s.cstr(st, a[0])
        args = [bv(x, 64) for x in a[1:]]
        f = s.getuf(name, [64] * len(args), 64)
        return f(*args)

    def h_vc_uf1(s, st, a, ins): return s._uf(st, a, 1)
    def h_vc_uf2(s, st, a, ins): return s._uf(st, a, 2)
    def h_vc_uf3(s, st, a, ins): return s._uf(st, a, 3)
    def h_vc_uf4(s, st, a, ins): return s._uf(st, a, 4)

    def h_vc_define(s, st, a, ins):
        """unfolding of the definition of a specification function (conservative axiom)"""
        s.defines.add(s.cstr(st, a[1]))
        st.assume(s.as_bool(a[0]))

    def h_vc_trust(s, st, a, ins):
        """assumed fact about trusted code; listed in the evidence"""
        s.trusted.add(s.cstr(st, a[1]))
        st.assume(s.as_bool(a[0]))

    def h_vc_replace(s, st, a, ins):
        rx = s.cstr(st, a[0])
        if not isinstance(a[1], Fn): raise Undecided('vc_replace target')
        st.repl = st.repl + ((re.compile(rx), a[1].name),)

    def h_vc_loop(s, st, a, ins):
        """vc_loop(regex, inv_fn, nacc)"""
        rx = s.cstr(st, a[0])
        st.specs = st.specs + (LoopSpec(re.compile(rx), a[1].name, a[2], len(st.specs)),)

    def h_vc_local(s, st, a, ins):
        """address of a local variable of the innermost active function that matches"""
        rx = re.compile(s.cstr(st, a[0])); nm = s.cstr(st, a[1])
        for f in reversed(st.frames):
            if rx.search(s.demangle(f.f.name)):
                v = f.regs.get(nm, f.regs.get('%' + nm))
                if isinstance(v, Ptr): return v
                raise Undecided('%s has no local variable %s in memory' % (s.demangle(f.f.name)[:60], nm))
        raise Undecided('no active function matches ' + rx.pattern)

    def h_vc_interfere(s, st, a, ins):
        """from here on other threads set bits of the words of this object between any two accesses (null: no longer);
        the code under contract may only set bits too"""
        st.rely = a[0].r if isinstance(a[0], Ptr) and a[0].r else None

    def interfere(s, st, p, t, new=None, step=True):
        if not isinstance(p, Ptr) or p.r != st.rely or t.k != 'i': return
        cur = s.load(st, p, t)
        if step:
            cur = s.binop(st, 'or', t, cur, s.fresh('others', t.n)); s.store(st, p, t, cur)
        if new is not None:
            s.prove(st, s.icmp(st, 'eq', t, s.binop(st, 'and', t, new, cur), cur), 'postcondition', 'a bit set by another thread is not lost')

    def h_vc_symstep(s, st, a, ins):
        """loop effects may be linear in the iteration number with a symbolic (loop-invariant) step"""
        s.opts['symstep'] = True

    def h_vc_loop_now(s, st, a, ins):
        """like vc_loop, but the loop is cut on entry even when its iterations are concrete"""
        st.specs = st.specs + (LoopSpec(re.compile(s.cstr(st, a[0])), a[1].name, a[2], len(st.specs), True),)

    def h_vc_note(s, st, a, ins): return None

    def h_vc_is_symbolic(s, st, a, ins): return True

    def h_vc_concrete(s, st, a, ins): return isinstance(a[0], int)

    def h_vc_print(s, st, a, ins):
        print('VC_PRINT', s.cstr(st, a[0]), [str(z3.simplify(x) if z3.is_expr(x) else x)[:2000] for x in a[1:]])

    def h_vc_pc(s, st, a, ins):
        for c in st.pclist(): print('   PC', str(c)[:300])

    def h_vc_ite(s, st, a, ins):
        return s.ite(st, s.as_bool(a[0]), a[1], a[2], ins.a[0])

    # ------------------------------------------------------------ loop cutting
    def enter_cut(s, st, outer_stack):
        """st stands at a loop header (frame.blk = header, ip = 0, prev = preheader), phis not executed."""
        fr = st.frames[-1]
        H = fr.blk
        f = fr.f
        body = f.loops[H]
        depth = len(st.frames)
        sp = s.pending(st, f.name, H)
        k = (f.name, H)
        if k not in st.bound: st.bound[k] = sp.k
        s.gbound.setdefault(k, s.spec_id(st, sp))
        blk = f.blocks[H]
        phis = [i for i in blk if i.op == 'phi']
        init = {}
        for ins in phis:
            t, inc = ins.a
            for v, b in inc:
                if b == fr.prev: init[ins.dst] = s.val(st, fr, t, v)
        ptypes = {i.dst: i.a[0] for i in phis}
        s.loopinfo.append('%s:%s' % (s.demangle(f.name).split('(')[0], H))
        rec = s.recording

        def latch_vals(q):
            qf = q.frames[-1]
            out = {}
            for ins in phis:
                t, inc = ins.a
                for v, b in inc:
                    if b == qf.prev: out[ins.dst] = s.val(q, qf, t, v)
            return out

        def start(q, vals):
            qf = q.frames[-1]
            for d, v in vals.items(): qf.regs[d] = v
            qf.ip = len(phis)
            q.unw[(depth, H)] = 0

        # ---- trial 0
        s.recording = False
        q = st.copy()
        cut = Cut(depth, f.name, H, body, True, drop_exit=True)
        q.cuts = q.cuts + (cut,)
        q.wlog = []
        start(q, init)
        mark = s.nrid
        s.explore([q], -1, lambda *a: None)
        s.recording = rec
        if not cut.latches:             # the back edge is not reachable from here: no invariant needed
            q = st.copy(); start(q, init)
            return [q]
        aff = {}      # phi -> step (or None => havoc)
        for d, t in ptypes.items():
            steps = set()
            for q in cut.latches:
                steps.add(s.delta(latch_vals(q)[d], init[d], t))
            aff[d] = steps.pop() if len(steps) == 1 else None
        cells = {}    # (rid,off,w) -> step/None
        regions = {}  # rid -> list of (off,w)
        preexist = lambda rid: rid in st.mem

        def scan(latches, ref, n, first):
            ch = False
            gl = {r: nm for nm, r in s.globals_rid.items()}
            for q in latches:
                for rid, o, w in q.wlog:
                    if rid in gl and rid not in st.mem: s.global_ptr(st, gl[rid])     # lazily created global
                    if not preexist(rid) or rid not in q.mem: continue
                    if rid in regions: continue
                    if o is None:
                        regions[rid] = s.region_shape(q.mem[rid], st.mem[rid])
                        for kk in [x for x in cells if x[0] == rid]: del cells[kk]
                        ch = True
                        continue
                    if w not in (1, 2, 4, 8, 16):
                        # block write at a concrete place: per-cell
                        for k2 in range(o, o + w):
                            c = q.mem[rid].cells.get(k2)
                            if c and (rid, k2, c[0]) not in cells:
                                cells[(rid, k2, c[0])] = 'new'; ch = True
                        continue
                    if (rid, o, w) not in cells:
                        cells[(rid, o, w)] = 'new'; ch = True
            for kk, stp in list(cells.items()):
                if not isinstance(stp, str): continue
                rid, o, w = kk
                ds = set()
                ref0 = s.read(st, st.mem[rid], o, w)
                for q in latches:
                    if rid not in q.mem and rid in gl: s.global_ptr(q, gl[rid])
                    v = s.read(q, q.mem[rid], o, w)
                    ds.add(s.delta(v, ref0, None) if first else s.delta_n(q, v, ref0, n, w))
                cells[kk] = ds.pop() if len(ds) == 1 else None
            return ch
        scan(cut.latches, None, 0, True)

        def generic(n, accs_out=None):
            q = st.copy()
            vals = {}
            q.wlog = []
            for d, t in ptypes.items():
                if aff[d] is not None: vals[d] = s.step_val(init[d], aff[d], n, t)
                else: vals[d] = s.havoc_val(init[d], t, d)
            for rid, shape in regions.items():
                r = q.wr(rid)
                r.cells = {}
                r.below = s.mkuf('loop_' + re.sub(r'\W', '_', r.name), shape[0], shape[1])
            cv = {}
            for (rid, o, w), stp in cells.items():
                if rid in regions: continue
                ref0 = s.read(st, st.mem[rid], o, w)
                if stp is not None: v = s.step_val(ref0, stp, n, INT(8 * w))
                else: v = s.havoc_val(ref0, INT(8 * w), 'cell')
                r = q.wr(rid)
                s.clear_range(r, o, w)
                r.cells[o] = (w, v)
                cv[(rid, o, w)] = v
            return q, vals, cv

        # ---- fixpoint of modified set / affine steps
        for it in range(8):
            s.recording = False
            n = s.fresh('n', 64)
            q, vals, cv = generic(n)
            q.assume(z3.ULT(n, 1 << 40))
            cut = Cut(depth, f.name, H, body, True, drop_exit=True)
            starts = [q]
            if sp.nacc == 0:
                mode = s.inv_mode
                s.inv_mode = 'assume'
                q.wlog = None
                starts = [x for x, _ in s.run_call(q, sp.fn, [n])]
                s.inv_mode = mode
            for q in starts:
                q.cuts = q.cuts + (cut,)
                q.wlog = []
                start(q, vals)
            s.explore(starts, -1, lambda *a: None)
            s.recording = rec
            ch = False
            for d, t in ptypes.items():
                if aff[d] is None: continue
                for q in cut.latches:
                    nv = latch_vals(q)[d]
                    if not s.equal_step(q, nv, init[d], aff[d], n + 1, t):
                        aff[d] = None; ch = True; break
            for kk in list(cells):
                rid, o, w = kk
                if cells[kk] is None or rid in regions: continue
                ref0 = s.read(st, st.mem[rid], o, w)
                for q in cut.latches:
                    if rid not in q.mem: s.global_ptr(q, {r: nm for nm, r in s.globals_rid.items()}[rid])
                    v = s.read(q, q.mem[rid], o, w)
                    if not s.equal_step(q, v, ref0, cells[kk], n + 1, INT(8 * w)):
                        cells[kk] = None; ch = True; break
            if scan(cut.latches, None, n, False): ch = True
            if not ch: break
        else:
            raise Undecided('loop effect inference did not stabilise')

        if s.opts.get('debug'): print('LOOP', f.name[:60], H, 'phi', {d: aff[d] for d in aff}, 'cells', [(st.mem[k[0]].name, k[1], k[2], v) for k, v in cells.items()], 'regions', [st.mem[r].name for r in regions])
        # ---- accumulators
        cand = [('phi', d) for d in ptypes if aff[d] is None and ptypes[d].k == 'i' and ptypes[d].n > 1]
        cand += [('cell', kk) for kk in cells if cells[kk] is None and kk[0] not in regions and kk[2] <= 8
                 and (isinstance(s.read(st, st.mem[kk[0]], kk[1], kk[2]), int) or z3.is_expr(s.read(st, st.mem[kk[0]], kk[1], kk[2])))]
        assigns = list(itertools.permutations(cand, sp.nacc)) if sp.nacc else [()]
        if not assigns: raise Undecided('loop invariant: accumulator not found (%d candidates)' % len(cand))

        def z64(v):
            if isinstance(v, int): return v
            if v is UNDEF: return s.fresh('undef', 64)
            return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v

        def accval(q, a, vals):
            if a[0] == 'phi': return z64(vals[a[1]])
            rid, o, w = a[1]
            return z64(s.read(q, q.mem[rid], o, w))

        def inv(q, mode, n, accs):
            m = s.inv_mode
            s.inv_mode = mode
            try:
                return [x for x, _ in s.run_call(q, sp.fn, [n] + accs)]
            finally:
                s.inv_mode = m

        def attempt(asg, drop):
            q0 = st.copy()
            q0.cuts = ()
            inv(q0, 'base', 0, [accval(st, a, init) for a in asg])
            if s.fail is not None: return None
            n = s.fresh('n', 64)
            q, vals, cv = generic(n)
            q.wlog = st.wlog
            if q.wlog is not None:
                q.wlog = list(q.wlog) + [kk for kk in cells] + [(rid, None, 0) for rid in regions]
            q.assume(z3.ULT(n, 1 << 40))

            def on_latch(x):
                x = x.copy()
                nv = latch_vals(x)
                x.cuts = x.cuts[:-1]
                for d, t in ptypes.items():
                    if aff[d] is not None:
                        if not s.equal_step(x, nv[d], init[d], aff[d], n + 1, t):
                            raise Undecided('loop induction step changed')
                def same_object(a, b):
                    a = a.p if isinstance(a, PInt) else a; b = b.p if isinstance(b, PInt) else b
                    if isinstance(a, Ptr) and not (isinstance(b, Ptr) and b.r == a.r): raise Undecided('loop-carried pointer changes its object')
                for d, t in ptypes.items():
                    if aff[d] is None: same_object(init[d], nv[d])
                for (rid, o, w), stp in cells.items():
                    if stp is None and rid not in regions and rid in x.mem: same_object(s.read(st, st.mem[rid], o, w), s.read(x, x.mem[rid], o, w))
                acc = [accval(x, a, nv) for a in asg]
                cs = x.cuts
                x.cuts = ()
                inv(x, 'step', n + 1, acc)
            cut = Cut(depth, f.name, H, body, False, on_latch, drop_exit=drop)
            sv = q.cuts; q.cuts = ()
            starts = inv(q, 'assume', n, [accval(q, a, vals) for a in asg])
            for x in starts:
                x.cuts = sv + (cut,)
                start(x, vals)
            return starts
        if len(assigns) > 1:
            good = None
            for asg in assigns:
                ob0 = len(s.obs); rec0 = s.recording; f0 = s.fail
                s.recording = True; s.fail = None
                try:
                    stt = attempt(asg, True)
                    if stt is not None and s.fail is None: s.explore(stt, -1, lambda *a: None)
                except PathEnd: pass
                ok = s.fail is None
                if s.opts.get('debug'): print('ASSIGN', asg, ok, s.fail and (s.fail.kind, s.fail.label, s.fail.where, s.fail.model))
                del s.obs[ob0:]
                s.recording = rec0; s.fail = f0
                if ok:
                    good = asg; break
            if good is None:
                # report the failing obligation under the first assignment
                good = assigns[0]
            assigns = [good]
        return attempt(assigns[0], False) or []

    def equal(s, st, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.r != b.r: return False
            d = lin_add(a.o, b.o, -1)
            if isinstance(d, int): return d == 0
            return s.must(st, lin_bv(d) == 0)
        if isinstance(a, Fn) or isinstance(b, Fn):
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if a is UNDEF or b is UNDEF: return a is b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
        if isinstance(a, list):
            return all(s.equal(st, x, y) for x, y in zip(a, b))
        return s.must(st, a == b)

    def equal_step(s, st, nv, init, step, n, t):
        want = s.step_val(init, step, n, t)
        if z3.is_expr(step):
            if not z3.is_expr(nv) or nv.size() != step.size(): return False
            e = z3.simplify(nv == want)
            return z3.is_true(e) or (z3.is_eq(e) and PL.equal(e, st.rng))
        return s.equal(st, nv, want)

    def delta(s, new, old, t):
        """constant difference new-old or None"""
        if isinstance(new, PInt): new = new.p
        if isinstance(old, PInt): old = old.p
        if isinstance(new, Ptr) and isinstance(old, Ptr):
            if new.r != old.r: return None
            d = lin_add(new.o, old.o, -1)
            return sgn(d) if isinstance(d, int) else None
        if isinstance(new, (Ptr, Fn)) or isinstance(old, (Ptr, Fn)):
            if isinstance(new, Fn) and isinstance(old, Fn) and new.name == old.name: return 0
            return None
        if new is UNDEF or old is UNDEF: return None
        if isinstance(new, bool) or isinstance(old, bool) or z3.is_bool(new) or z3.is_bool(old):
            if isinstance(new, bool) and isinstance(old, bool): return 0 if new == old else None
            if z3.is_expr(new) and z3.is_expr(old) and new.eq(old): return 0
            return None
        if isinstance(new, float) or isinstance(old, float):
            return 0 if new == old else None
        if isinstance(new, list): return None
        if isinstance(new, int) and isinstance(old, int):
            return new - old
        n = new.size() if z3.is_expr(new) else old.size()
        d = z3.simplify(bv(new, n) - bv(old, n))
        if z3.is_bv_value(d): return sgn(d.as_long(), n)
        return d if s.opts.get('symstep') and n >= 32 else None

    def delta_n(s, q, v, ref0, n, w):
        return None

    def step_val(s, init, step, n, t):
        if z3.is_expr(step):
            w = step.size(); nn = bv(n, 64)
            nn = z3.Extract(w - 1, 0, nn) if w < 64 else z3.ZeroExt(w - 64, nn) if w > 64 else nn
            return bv(init, w) + nn * step
        if step == 0: return init
        if isinstance(init, PInt): return PInt(s.step_val(init.p, step, n, t))
        if isinstance(init, Ptr):
            return Ptr(init.r, lin_add(init.o, s.lin(n) if z3.is_expr(n) else n, step))
        w = t.n if t is not None and t.k == 'i' else 64
        if isinstance(n, int):
            if isinstance(init, int): return (init + n * step) & ((1 << w) - 1)
        nn = bv(n, 64)
        if w < 64: nn = z3.Extract(w - 1, 0, nn)
        elif w > 64: nn = z3.ZeroExt(w - 64, nn)
        if w < 64 and isinstance(n, int): nn = z3.BitVecVal(n, w)
        x = nn if step == 1 else nn * z3.BitVecVal(step & ((1 << w) - 1), w)
        if isinstance(init, int) and init == 0: return x
        return bv(init, w) + x

    def havoc_val(s, init, t, nm):
        if isinstance(init, PInt): init = init.p
        if isinstance(init, Ptr):
            if init.r == 0: raise Undecided('loop-carried pointer starts null')
            e = s.fresh('off_' + str(nm), 64)
            return Ptr(init.r, Lin(0, {e.get_id(): (e, 1)}))
        if isinstance(init, Fn): raise Undecided('loop-carried function pointer')
        if isinstance(init, float): raise Undecided('loop-carried floating point')
        if t.k == 'i':
            if t.n == 1: 
                s.nvar += 1
                return z3.Bool('b!%d' % s.nvar)
            return s.fresh('h_' + str(nm), t.n)
        raise Undecided('loop-carried %r' % t)

    def region_shape(s, new, old):
        """(stride, slots) describing how the loop writes this region"""
        b = old.below
        while b[0] in ('store', 'cells', 'bulk', 'fill'): b = b[1]
        if b[0] == 'uf': return (b[2], list(b[3]))
        node = new.below
        stores = []
        bulk = False
        stop = old.below
        while node is not stop and node[0] in ('store', 'cells', 'bulk', 'fill'):
            if node[0] == 'store': stores.append((node[2], node[3]))
            elif node[0] == 'bulk':
                bulk = True
                sn = node[4]
            node = node[1]
        if bulk or not stores: return (1, [(0, 1)])
        g = 0
        for o, w in stores:
            for e, c in o.t.values(): g = math.gcd(g, abs(c))
        slots = set()
        for o, w in stores: slots.add((o.c % g if g else 0, w))
        ss = sorted(slots)
        end = 0
        for c, w in ss:
            if c < end or c + w > g: return (1, [(0, 1)])
            end = c + w
        return (g, ss)


TAIL = object()
