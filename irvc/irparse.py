"""Parser for the textual LLVM IR (clang 18, opaque pointers) that clang -O0 emits
for the real sources in /repo.  Nothing is dropped: an instruction or constant this
parser does not know raises Unsupported when (and only when) it is executed."""
import re, pickle, os


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<com>;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?)
 | (?P<int>-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[$a-zA-Z_][-$a-zA-Z._0-9]*)
 | (?P<p>[()\[\]{}<>,=*|:^])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('tokenize: ' + s[pos:pos + 60])
        k = m.lastgroup
        pos = m.end()
        if k == 'ws':
            continue
        if k == 'com':
            continue
        out.append((k, m.group()))
    return out


def unq(name):
    # %"a b" -> a b ; keep sigil off
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


# ---- types -------------------------------------------------------------------
class T:
    __slots__ = ('k', 'n', 'el', 'fs', 'packed', 'name', '_sz', '_al', '_offs')

    def __init__(s, k, n=0, el=None, fs=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.fs = fs; s.packed = packed; s.name = name
        s._sz = None; s._al = None; s._offs = None

    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'st': return '{%s}' % ', '.join(map(repr, s.fs)) if s.name is None else '%' + s.name
        return s.k

    def __getstate__(s):
        return tuple(getattr(s, a) for a in T.__slots__)

    def __setstate__(s, st):
        for a, v in zip(T.__slots__, st):
            setattr(s, a, v)


PTR = T('ptr'); VOID = T('void'); LABEL = T('label'); META = T('metadata')
INTS = {}


def INT(n):
    t = INTS.get(n)
    if t is None:
        t = INTS[n] = T('i', n)
    return t


FLOATS = {'float': T('f', 32), 'double': T('f', 64), 'half': T('f', 16), 'x86_fp80': T('f', 80)}


def align_of(t):
    if t._al is None:
        if t.k == 'i':
            b = (t.n + 7) // 8
            a = 1
            while a < b: a *= 2
            t._al = min(a, 16)
        elif t.k == 'ptr': t._al = 8
        elif t.k == 'f': t._al = 16 if t.n == 80 else t.n // 8
        elif t.k in ('arr',): t._al = align_of(t.el)
        elif t.k == 'vec': t._al = max(1, size_of(t))
        elif t.k == 'st':
            t._al = 1 if t.packed else max([1] + [align_of(f) for f in t.fs])
        else: t._al = 1
    return t._al


def size_of(t):
    if t._sz is None:
        if t.k == 'i':
            b = (t.n + 7) // 8
            a = align_of(t)
            t._sz = (b + a - 1) // a * a
        elif t.k == 'ptr': t._sz = 8
        elif t.k == 'f': t._sz = 16 if t.n == 80 else t.n // 8
        elif t.k in ('arr', 'vec'): t._sz = t.n * size_of(t.el)
        elif t.k == 'st':
            offsets(t)
        else:
            raise Unsupported('size_of ' + t.k)
    return t._sz


def offsets(t):
    if t._offs is None:
        off = 0
        o = []
        for f in t.fs:
            if not t.packed:
                a = align_of(f)
                off = (off + a - 1) // a * a
            o.append(off)
            off += size_of(f)
        if not t.packed:
            a = align_of(t)
            off = (off + a - 1) // a * a
        t._offs = o
        t._sz = off
    return t._offs


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'nest', 'inreg', 'immarg', 'swiftself', 'allocptr', 'allocalign', 'writable',
               'dead_on_unwind'}
FN_PRE = {'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'weak', 'private', 'external', 'available_externally',
          'linkonce', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'fastcc',
          'ccc', 'tail', 'musttail', 'notail', 'extern_weak', 'common', 'appending'}


class P:
    """token stream"""

    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod

    def peek(s, d=0):
        return s.t[s.i + d] if s.i + d < len(s.t) else ('eof', '')

    def nxt(s):
        x = s.t[s.i]; s.i += 1
        return x

    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1
            return True
        return False

    def exp(s, v):
        x = s.nxt()
        if x[1] != v:
            raise Unsupported('expected %s got %s in %s' % (v, x[1], ' '.join(a[1] for a in s.t)[:200]))

    def type(s):
        k, v = s.nxt()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                t = INT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if s.acc('addrspace'):
                    s.exp('('); s.nxt(); s.exp(')')
            elif v == 'void': t = VOID
            elif v in FLOATS: t = FLOATS[v]
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = T('st', fs=[])
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = s.mod.named(unq(v))
        elif v == '[':
            n = int(s.nxt()[1]); s.exp('x'); el = s.type(); s.exp(']')
            t = T('arr', n, el)
        elif v == '{':
            fs = []
            if not s.acc('}'):
                while True:
                    fs.append(s.type())
                    if s.acc('}'): break
                    s.exp(',')
            t = T('st', fs=fs)
        elif v == '<':
            if s.peek()[1] == '{':
                t = s.type(); t = T('st', fs=t.fs, packed=True)
                s.exp('>')
            else:
                n = int(s.nxt()[1]); s.exp('x'); el = s.type(); s.exp('>')
                t = T('vec', n, el)
        else:
            raise Unsupported('type tok ' + v)
        # function type "i32 (ptr, ...)"
        if s.peek()[1] == '(' and t.k != 'label' and s._is_fnty():
            d = 0
            while True:
                x = s.nxt()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            t = T('fn', el=t)
        return t

    def _is_fnty(s):
        # a '(' directly after a type: function type in call with varargs
        j = s.i + 1
        k, v = s.t[j] if j < len(s.t) else ('eof', '')
        if v == ')' or v == '...': return True
        return (k == 'id' and (v in ('ptr', 'void', 'double', 'float') or (v[0] == 'i' and v[1:].isdigit())))\
            or k == 'loc' and (s.t[j + 1][1] in (',', ')')) or v in ('[', '{')

    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if k == 'id' and v in PARAM_ATTRS:
                s.i += 1
            elif k == 'id' and v in ('align',):
                s.i += 1
                if s.peek()[1] == '(':
                    s.skip_paren()
                else:
                    s.i += 1
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype',
                                     'preallocated', 'inalloca', 'memory', 'range', 'nofpclass'):
                s.i += 1
                s.skip_paren()
            else:
                return

    def skip_paren(s):
        s.exp('(')
        d = 1
        while d:
            x = s.nxt()[1]
            if x == '(': d += 1
            elif x == ')': d -= 1

    def value(s, t):
        """value of type t: returns ('r',name) | ('c', const) """
        k, v = s.nxt()
        if k == 'loc': return ('r', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'int':
            if t.k == 'i': return ('i', int(v) & ((1 << t.n) - 1))
            if t.k == 'f': return ('f', float(v))
            raise Unsupported('int const type %r' % t)
        if k == 'flt': return ('f', float(v))
        if k == 'hex':
            if v[2] in 'KLMHR': return ('f', 0.0)
            import struct
            if t.n == 32:
                return ('f', struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0])
            return ('f', struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0])
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v == 'zeroinitializer': return ('zero',)
        if k == 'cstr': return ('str', cstr(v))
        if v == '[':
            es = []
            if not s.acc(']'):
                while True:
                    et = s.type(); es.append((et, s.value(et)))
                    if s.acc(']'): break
                    s.exp(',')
            return ('agg', es)
        if v == '{' or v == '<':
            br = v == '<'
            if br and s.peek()[1] == '{':
                s.nxt(); close = '}'
            elif br:
                close = '>'
            else:
                close = '}'
            es = []
            if not s.acc(close):
                while True:
                    et = s.type(); es.append((et, s.value(et)))
                    if s.acc(close): break
                    s.exp(',')
            if br and close == '}':
                s.exp('>')
            return ('agg', es)
        if v == 'getelementptr':
            while s.peek()[1] in ('inbounds', 'nuw', 'nusw'): s.nxt()
            s.exp('(')
            bt = s.type(); s.exp(',')
            ops = []
            while True:
                s.acc('inrange')
                et = s.type(); ops.append((et, s.value(et)))
                if s.acc(')'): break
                s.exp(',')
            return ('gep', bt, ops)
        if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('(')
            et = s.type(); x = s.value(et); s.exp('to'); tt = s.type(); s.exp(')')
            return ('cast', v, et, x, tt)
        if v in ('add', 'sub', 'mul', 'xor', 'icmp'):
            raise Unsupported('constexpr ' + v)
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            raise Unsupported('const ' + v)
        raise Unsupported('value %s' % v)


def cstr(v):
    b = bytearray()
    s = v[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                b.append(92); i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            b.append(ord(s[i])); i += 1
    return bytes(b)


class Function:
    def __init__(s):
        s.name = None; s.params = []; s.blocks = {}; s.entry = None; s.ret = None; s.vararg = False
        s.lines = None; s.parsed = False; s.src = None


class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.ctors = []
        s._gtext = {}; s.aliases = {}

    def named(s, n):
        t = s.types.get(n)
        if t is None:
            t = s.types[n] = T('st', fs=[], name=n)
        return t

    def parse(s, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|\S+)) = type (.*)$', ln)
                nm = unq(m.group(1))
                t = s.named(nm)
                if m.group(2) != 'opaque':
                    p = P(tokenize(m.group(2)), s)
                    tt = p.type()
                    t.fs = tt.fs; t.packed = tt.packed
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                s._gtext[unq(m.group(1))] = m.group(2)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = s._func_header(ln)
                f.lines = lines[i + 1:j]
                s.funcs[f.name] = f
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                s.decls[unq(m.group(1))] = ln
            i += 1
        return s

    def _func_header(s, ln):
        f = Function()
        toks = tokenize(ln[len('define '):])
        p = P(toks, s)
        while True:
            k, v = p.peek()
            if k == 'id' and (v in FN_PRE or v in PARAM_ATTRS):
                p.nxt()
            elif k == 'id' and v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                p.skip_attrs()
            else:
                break
        f.ret = p.type()
        k, v = p.nxt()
        f.name = unq(v)
        p.exp('(')
        f.params = []
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                    p.exp(')')
                    break
                t = p.type()
                byval = None
                j = p.i
                p.skip_attrs()
                for q in range(j, p.i):
                    if p.t[q][1] == 'byval':
                        byval = True
                k, v = p.peek()
                if k == 'loc':
                    p.nxt(); nm = unq(v)
                else:
                    nm = str(len(f.params))
                f.params.append((t, nm, byval))
                if p.acc(')'): break
                p.exp(',')
        return f

    def glob(s, name):
        """parse a global: returns (type, const or None, is_const)"""
        g = s.globals.get(name)
        if g is None:
            txt = s._gtext[name]
            p = P(tokenize(txt), s)
            ext = False
            while True:
                k, v = p.peek()
                if k == 'id' and (v in FN_PRE):
                    if v in ('external', 'extern_weak'): ext = True
                    p.nxt()
                elif v == 'thread_local':
                    p.nxt()
                    if p.peek()[1] == '(': p.skip_paren()
                else:
                    break
            k, v = p.nxt()
            if v == 'alias':
                t = p.type(); p.exp(',')
                tt = p.type()
                g = ('alias', p.value(tt))
            else:
                assert v in ('global', 'constant'), txt[:100]
                t = p.type()
                init = None
                if not ext:
                    init = p.value(t)
                g = (t, init, v == 'constant')
            s.globals[name] = g
        return g

    def func(s, name):
        f = s.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            parse_body(f, s)
        return f


LABEL_RE = re.compile(r'^((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):')


class Ins:
    __slots__ = ('op', 'dst', 'a', 'line')

    def __init__(s, op, dst, a, line):
        s.op = op; s.dst = dst; s.a = a; s.line = line


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
        'fptrunc', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg',
         'disjoint', 'volatile'}


def parse_body(f, mod):
    f.parsed = True
    cur = None
    lines = f.lines
    # merge continuation lines
    merged = []
    for ln in lines:
        if not ln.strip():
            continue
        st = ln.strip()
        if ln.startswith('          ') and merged and not LABEL_RE.match(ln):
            merged[-1] += ' ' + st
        elif st.startswith(']') and merged:
            merged[-1] += ' ' + st
        elif merged and merged[-1].lstrip().startswith('switch') and ']' not in merged[-1]:
            merged[-1] += ' ' + st
        else:
            merged.append(ln)
    for ln in merged:
        if not ln.startswith(' '):
            m = LABEL_RE.match(ln)
            if not m:
                raise Unsupported('label? ' + ln)
            nm = m.group(1)
            if nm.startswith('"'): nm = nm[1:-1]
            cur = []
            f.blocks[nm] = cur
            if f.entry is None: f.entry = nm
            continue
        if cur is None:
            cur = []
            f.blocks['__entry'] = cur
            f.entry = '__entry'
        cur.append(parse_ins(ln.strip(), mod))
    # unnamed entry label is numbered: fine, only used by phi
    f.lines = None
    loops(f)


def parse_ins(txt, mod):
    try:
        return _parse_ins(txt, mod)
    except Unsupported as e:
        return Ins('unsupported', None, (str(e),), txt)
    except (IndexError, ValueError) as e:
        return Ins('unsupported', None, ('parse: %r' % e,), txt)


def _parse_ins(txt, mod):
    p = P(tokenize(txt), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.nxt()[1]); p.nxt()
    k, op = p.nxt()
    while op in ('tail', 'musttail', 'notail'):
        k, op = p.nxt()
    flags = set()

    def fl():
        while p.peek()[1] in FLAGS:
            flags.add(p.nxt()[1])
    if op in BIN or op in FBIN:
        fl()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins(op if op in BIN else 'fbin', dst, (t, a, b, flags) if op in BIN else (op, t, a, b), txt)
    if op == 'fneg':
        fl(); t = p.type(); return Ins('fneg', dst, (t, p.value(t)), txt)
    if op in CAST:
        fl()
        t = p.type(); a = p.value(t); p.exp('to'); tt = p.type()
        return Ins('cast', dst, (op, t, a, tt), txt)
    if op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Ins('alloca', dst, (t, n), txt)
    if op == 'load':
        p.acc('atomic'); fl()
        t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
        return Ins('load', dst, (t, a), txt)
    if op == 'store':
        p.acc('atomic'); fl()
        t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); a = p.value(pt)
        return Ins('store', None, (t, v, a), txt)
    if op == 'getelementptr':
        fl()
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            et = p.type(); ops.append((et, p.value(et)))
            if not p.acc(','): break
            if p.peek()[0] == 'meta': break
        return Ins('gep', dst, (bt, ops, 'inbounds' in flags), txt)
    if op == 'icmp':
        fl()
        pred = p.nxt()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins('icmp', dst, (pred, t, a, b), txt)
    if op == 'fcmp':
        fl()
        pred = p.nxt()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins('fcmp', dst, (pred, t, a, b), txt)
    if op == 'br':
        t = p.type()
        if t is LABEL:
            return Ins('br', None, (unq(p.nxt()[1]),), txt)
        c = p.value(t); p.exp(','); p.exp('label'); a = unq(p.nxt()[1]); p.exp(','); p.exp('label'); b = unq(p.nxt()[1])
        return Ins('cbr', None, (c, a, b), txt)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = unq(p.nxt()[1]); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[1], unq(p.nxt()[1])))
        return Ins('switch', None, (t, v, d, cs), txt)
    if op == 'phi':
        fl()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = unq(p.nxt()[1]); p.exp(']')
            inc.append((v, b))
            if not p.acc(','): break
            if p.peek()[0] == 'meta': break
        return Ins('phi', dst, (t, inc), txt)
    if op == 'select':
        fl()
        ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Ins('select', dst, (c, t, a, b), txt)
    if op == 'ret':
        t = p.type()
        return Ins('ret', None, (t, None if t is VOID else p.value(t)), txt)
    if op == 'unreachable':
        return Ins('unreachable', None, (), txt)
    if op in ('call', 'invoke'):
        fl()
        while p.peek()[1] in FN_PRE: p.nxt()
        p.skip_attrs()
        t = p.type()
        if t.k == 'fn': t = t.el
        if p.peek()[1] == 'asm':
            p.nxt()
            while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect'): p.nxt()
            callee = ('asm', p.nxt()[1]); p.exp(','); p.nxt()
        else:
            callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                j = p.i
                if at is META:
                    # metadata argument: skip to , or )
                    d = 0
                    while True:
                        x = p.peek()[1]
                        if d == 0 and x in (',', ')'): break
                        if x == '(': d += 1
                        if x == ')': d -= 1
                        p.nxt()
                    args.append((META, None, None))
                else:
                    p.skip_attrs()
                    byval = any(p.t[q][1] == 'byval' for q in range(j, p.i))
                    if byval:
                        # byval(%T)
                        q = [q for q in range(j, p.i) if p.t[q][1] == 'byval'][0]
                        pp = P(p.t[q + 2:p.i], mod)
                        byval = pp.type()
                    args.append((at, p.value(at), byval or None))
                if p.acc(')'): break
                p.exp(',')
        to = un = None
        if op == 'invoke':
            while p.peek()[1] != 'to': p.nxt()
            p.nxt(); p.exp('label'); to = unq(p.nxt()[1]); p.exp('unwind'); p.exp('label'); un = unq(p.nxt()[1])
        return Ins('call', dst, (t, callee, args, to, un), txt)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.i < len(p.t):
            k, v = p.nxt()
            if v == 'cleanup': cleanup = True
            elif v == 'catch':
                tt = p.type(); cl.append(('catch', p.value(tt)))
            elif v == 'filter':
                tt = p.type(); cl.append(('filter', p.value(tt)))
            else: break
        return Ins('landingpad', dst, (t, cleanup, cl), txt)
    if op == 'resume':
        t = p.type(); return Ins('resume', None, (t, p.value(t)), txt)
    if op == 'extractvalue':
        t = p.type(); a = p.value(t); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.nxt()[1]))
        return Ins('extractvalue', dst, (t, a, idx), txt)
    if op == 'insertvalue':
        t = p.type(); a = p.value(t); p.exp(','); et = p.type(); v = p.value(et); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.nxt()[1]))
        return Ins('insertvalue', dst, (t, a, et, v, idx), txt)
    if op == 'atomicrmw':
        fl()
        o = p.nxt()[1]; pt = p.type(); a = p.value(pt); p.exp(','); t = p.type(); v = p.value(t)
        return Ins('atomicrmw', dst, (o, t, a, v), txt)
    if op == 'cmpxchg':
        p.acc('weak'); fl()
        pt = p.type(); a = p.value(pt); p.exp(','); t = p.type(); c = p.value(t); p.exp(','); t2 = p.type(); n = p.value(t2)
        return Ins('cmpxchg', dst, (t, a, c, n), txt)
    if op == 'fence':
        return Ins('nop', None, (), txt)
    if op == 'freeze':
        t = p.type(); return Ins('freeze', dst, (t, p.value(t)), txt)
    raise Unsupported('instruction ' + op)


def succs(block):
    i = block[-1]
    if i.op == 'br': return [i.a[0]]
    if i.op == 'cbr': return [i.a[1], i.a[2]]
    if i.op == 'switch': return [i.a[2]] + [c[1] for c in i.a[3]]
    if i.op == 'call' and i.a[3]: return [i.a[3], i.a[4]]
    return []


def loops(f):
    """natural loops: f.loops: header -> set(blocks)"""
    # dominators (simple iterative on rpo)
    order = []
    seen = set()
    stack = [(f.entry, iter(succs(f.blocks[f.entry])))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(f.blocks[s]))))
                adv = True
                break
        if not adv:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    f.loops = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if dom(s, b):
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
