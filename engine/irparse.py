"""Parser for the subset of LLVM 18 textual IR that clang emits for this repository.

The IR is produced from /repo's current working tree on every run (see build.py); nothing is
executed.  Only what the analyses need is kept: types, globals, functions, blocks, instructions
with debug line numbers, loops."""
import re, struct
from fractions import Fraction


class ParseError(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'b')
    # k: 'i' (a=bits) | 'f' (a=bits) | 'p' | 'arr' (a=n,b=elem) | 'st' (a=[fields], b=packed)
    #    'void' | 'named' (a=name) | 'other' | 'vec'

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.a
        if self.k == 'f': return {32: 'float', 64: 'double'}.get(self.a, 'f%d' % self.a)
        if self.k == 'p': return 'ptr'
        if self.k == 'arr': return '[%s x %r]' % (self.a, self.b)
        if self.k == 'st': return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named': return '%' + self.a
        return self.k


class Lexer:
    TOK = re.compile(r'''\s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
     |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
     |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
     |(?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
     |(?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
     |(?P<attr>\#\d+)
     |(?P<id>[a-zA-Z_][a-zA-Z_0-9.]*)
     |(?P<p>\.\.\.|[()\[\]{}<>,=*|:])
     )''', re.X)

    def __init__(self, s):
        self.t = []
        i = 0
        n = len(s)
        while i < n:
            m = self.TOK.match(s, i)
            if not m:
                if s[i:].strip() == '': break
                raise ParseError('lex: ' + s[i:i + 60])
            i = m.end()
            k = m.lastgroup
            self.t.append((k, m.group(k)))
        self.i = 0

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise ParseError('expected %r got %r' % (v, self.t[self.i:self.i + 5]))


def parse_type(lx):
    k, v = lx.next()
    t = None
    if k == 'id':
        if re.fullmatch(r'i\d+', v): t = Ty('i', int(v[1:]))
        elif v == 'double': t = Ty('f', 64)
        elif v == 'float': t = Ty('f', 32)
        elif v == 'x86_fp80': t = Ty('f', 80)
        elif v == 'ptr': t = Ty('p')
        elif v == 'void': t = Ty('void')
        elif v in ('metadata', 'label', 'token', 'opaque'): t = Ty('other', v)
        else: raise ParseError('type ' + v)
    elif k == 'loc':
        t = Ty('named', v[1:])
    elif v == '[':
        n = int(lx.next()[1]); lx.expect('x'); e = parse_type(lx); lx.expect(']')
        t = Ty('arr', n, e)
    elif v == '{':
        fs = []
        if not lx.eat('}'):
            while True:
                fs.append(parse_type(lx))
                if lx.eat('}'): break
                lx.expect(',')
        t = Ty('st', fs, False)
    elif v == '<':
        if lx.eat('{'):
            fs = []
            while True:
                fs.append(parse_type(lx))
                if lx.eat('}'): break
                lx.expect(',')
            lx.expect('>')
            t = Ty('st', fs, True)
        else:
            n = int(lx.next()[1]); lx.expect('x'); e = parse_type(lx); lx.expect('>')
            t = Ty('vec', n, e)
    else:
        raise ParseError('type tok %r' % v)
    # function type suffix:  void (ptr, ...)  -> treat as 'other'
    if lx.peek()[1] == '(' and t.k in ('void', 'i', 'f', 'p', 'named', 'st'):
        # could be a call's function type; the caller handles by checking
        pass
    return t


class Mod:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> dict(const=bool, ty, init(text), linkage)
        self.funcs = {}
        self.decls = {}
        self.dbg = {}         # !id -> line
        self.src = None

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'i': return max(1, min(8, (t.a + 7) // 8))
        if t.k == 'f': return {32: 4, 64: 8, 80: 16}[t.a]
        if t.k == 'p': return 8
        if t.k in ('arr',): return self.align(t.b)
        if t.k == 'vec': return self.size(t)
        if t.k == 'st': return 1 if t.b else max([self.align(f) for f in t.a] or [1])
        raise ParseError('align %r' % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t.a]
        if t.k == 'f': return {32: 4, 64: 8, 80: 16}[t.a]
        if t.k == 'p': return 8
        if t.k in ('arr', 'vec'): return t.a * self.size(t.b)
        if t.k == 'st':
            o = 0
            for f in t.a:
                al = 1 if t.b else self.align(f)
                o = (o + al - 1) // al * al + self.size(f)
            al = self.align(t)
            return (o + al - 1) // al * al
        raise ParseError('size %r' % t)

    def field_off(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, f in enumerate(t.a):
            al = 1 if t.b else self.align(f)
            o = (o + al - 1) // al * al
            if j == i: return o
            o += self.size(f)
        raise ParseError('field')


# operands: ('loc',name) ('int',v) ('fp',Fraction) ('null',) ('undef',) ('glb',name) ('zero',ty)
#           ('true'/'false' as ('int',1/0)) ('cexpr',text)
def parse_const_fp(txt):
    if txt.startswith('0x'):
        h = txt[2:]
        if h[0] in 'KMLHR': raise ParseError('fp80 const')
        d = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    else:
        d = float(txt)
    if d != d or d in (float('inf'), float('-inf')):
        return ('fpspecial', d)
    ex = Fraction(d)
    if ex == 0: return ('fp', ex)
    ap = ex.limit_denominator(5040)
    if ap != 0 and abs(ap - ex) <= abs(ex) * Fraction(1, 2 ** 51):
        ex = ap
    return ('fp', ex)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'line', 'blk')

    def __init__(self, op, res, ty, ops, x=None, line=0):
        self.op, self.res, self.ty, self.ops, self.x, self.line = op, res, ty, ops, x, line
        self.blk = None

    def __repr__(self):
        return '%s=%s %r %r %r' % (self.res, self.op, self.ty, self.ops, self.x)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, attrs dict)
        self.ret = None
        self.blocks = {}      # name -> [Inst]
        self.order = []
        self.entry = None
        self.line = 0
        self.variadic = False
        self.internal = False
        self.mod = None


ATTR_WORDS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
              'zeroext', 'inreg', 'returned', 'immarg', 'dead_on_unwind', 'writable', 'nofree', 'noalias',
              'inrange', 'swiftself', 'nest', 'allocptr', 'allocalign'}
ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'memory', 'captures',
            'nofpclass', 'allocsize', 'elementtype', 'initializes'}


def parse_attrs(lx):
    at = {}
    while True:
        k, v = lx.peek()
        if k == 'id' and v in ATTR_WORDS:
            lx.next(); at[v] = True
        elif k == 'id' and v in ATTR_ARG:
            lx.next()
            if v == 'align' and lx.peek()[0] == 'num':
                lx.next(); continue
            lx.expect('(')
            if v in ('byval', 'sret', 'elementtype'):
                at[v] = parse_type(lx)
                lx.expect(')')
            else:
                d = 1
                while d:
                    x = lx.next()[1]
                    if x == '(': d += 1
                    elif x == ')': d -= 1
                    elif x is None: raise ParseError('attr')
                at[v] = True
        elif k == 'str' :
            lx.next()
            if lx.eat('='): lx.next()
        else:
            return at


def parse_value(lx, ty=None):
    k, v = lx.next()
    if k == 'loc': return ('loc', v[1:])
    if k == 'glb': return ('glb', v[1:])
    if k == 'num':
        if ty is not None and ty.k == 'f': return parse_const_fp(v)
        return ('int', int(v))
    if k == 'id':
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero', ty)
        if v == 'getelementptr':
            lx.eat('inbounds')
            lx.expect('(')
            sty = parse_type(lx); lx.expect(',')
            args = []
            while True:
                lx.eat('inrange')
                t = parse_type(lx)
                args.append((t, parse_value(lx, t)))
                if lx.eat(')'): break
                lx.expect(',')
            return ('cgep', sty, args)
        # other constant expression
        d = 0
        txt = [v]
        while True:
            kk, vv = lx.peek()
            if vv is None: break
            if vv == '(': d += 1
            if vv == ')':
                if d == 0: break
                d -= 1
            if vv == ',' and d == 0: break
            txt.append(vv); lx.next()
        return ('cexpr', ' '.join(txt))
    if v in ('[', '{', '<'):
        d = 1
        items = [v]
        while d:
            x = lx.next()[1]
            if x in ('[', '{', '<'): d += 1
            elif x in (']', '}', '>'): d -= 1
            items.append(x)
        return ('agg', items)
    if k == 'str': return ('str', v)
    raise ParseError('value %r' % (v,))


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'fpext', 'fptrunc', 'ptrtoint',
        'inttoptr', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast',
         'volatile', 'disjoint', 'nneg', 'tail', 'musttail', 'notail', 'atomic'}
CC = {'ccc', 'fastcc', 'coldcc'}


def parse_inst(line, dbg):
    ln = 0
    m = re.search(r', !dbg (!\d+)', line)
    if m: ln = m.group(1)
    # strip metadata suffix
    line = re.sub(r',\s*![a-zA-Z_.]+\s+!?[{\w][^,]*(?=(,|$))', '', line)
    lx = Lexer(line)
    res = None
    if lx.peek()[0] == 'loc' and lx.peek(1)[1] == '=':
        res = lx.next()[1][1:]
        lx.next()
    op = lx.next()[1]
    while op in ('tail', 'musttail', 'notail'): op = lx.next()[1]
    fl = set()

    def flags():
        while lx.peek()[1] in FLAGS:
            fl.add(lx.next()[1])
    flags()
    if op in BIN:
        t = parse_type(lx); a = parse_value(lx, t); lx.expect(','); b = parse_value(lx, t)
        return Inst(op, res, t, [a, b], fl, ln)
    if op == 'fneg':
        t = parse_type(lx); a = parse_value(lx, t)
        return Inst(op, res, t, [a], None, ln)
    if op in ('icmp', 'fcmp'):
        flags()
        pr = lx.next()[1]; t = parse_type(lx); a = parse_value(lx, t); lx.expect(','); b = parse_value(lx, t)
        return Inst(op, res, t, [a, b], pr, ln)
    if op in CAST:
        t = parse_type(lx); a = parse_value(lx, t); lx.expect('to'); t2 = parse_type(lx)
        return Inst(op, res, t2, [a], t, ln)
    if op == 'alloca':
        t = parse_type(lx); cnt = None
        while lx.eat(','):
            if lx.eat('align'): lx.next(); continue
            t2 = parse_type(lx); cnt = parse_value(lx, t2)
        return Inst(op, res, t, [cnt] if cnt else [], None, ln)
    if op == 'load':
        t = parse_type(lx); lx.expect(','); parse_type(lx); p = parse_value(lx)
        return Inst(op, res, t, [p], fl, ln)
    if op == 'store':
        t = parse_type(lx); v = parse_value(lx, t); lx.expect(','); parse_type(lx); p = parse_value(lx)
        return Inst(op, res, t, [v, p], fl, ln)
    if op == 'getelementptr':
        sty = parse_type(lx); lx.expect(','); parse_type(lx); base = parse_value(lx)
        idx = []
        while lx.eat(','):
            t = parse_type(lx); idx.append((t, parse_value(lx, t)))
        return Inst(op, res, sty, [base], idx, ln)
    if op == 'phi':
        t = parse_type(lx); inc = []
        while True:
            lx.expect('['); v = parse_value(lx, t); lx.expect(','); b = lx.next()[1][1:]; lx.expect(']')
            inc.append((v, b.strip('"')))
            if not lx.eat(','): break
        return Inst(op, res, t, [v for v, _ in inc], [b for _, b in inc], ln)
    if op == 'select':
        flags()
        parse_type(lx); c = parse_value(lx); lx.expect(','); t = parse_type(lx); a = parse_value(lx, t)
        lx.expect(','); t2 = parse_type(lx); b = parse_value(lx, t2)
        return Inst(op, res, t, [c, a, b], None, ln)
    if op == 'br':
        if lx.eat('label'):
            return Inst(op, None, None, [], [lx.next()[1][1:].strip('"')], ln)
        parse_type(lx); c = parse_value(lx); lx.expect(','); lx.expect('label'); a = lx.next()[1][1:]
        lx.expect(','); lx.expect('label'); b = lx.next()[1][1:]
        return Inst(op, None, None, [c], [a.strip('"'), b.strip('"')], ln)
    if op == 'switch':
        t = parse_type(lx); c = parse_value(lx, t); lx.expect(','); lx.expect('label'); d = lx.next()[1][1:].strip('"')
        lx.expect('['); cs = []
        while not lx.eat(']'):
            t2 = parse_type(lx); v = parse_value(lx, t2); lx.expect(','); lx.expect('label')
            cs.append((v[1], lx.next()[1][1:].strip('"')))
        return Inst(op, None, t, [c], (d, cs), ln)
    if op == 'ret':
        t = parse_type(lx)
        if t.k == 'void': return Inst(op, None, t, [], None, ln)
        return Inst(op, None, t, [parse_value(lx, t)], None, ln)
    if op == 'unreachable': return Inst(op, None, None, [], None, ln)
    if op == 'call':
        flags()
        while lx.peek()[1] in CC: lx.next()
        parse_attrs(lx)
        t = parse_type(lx)
        if lx.peek()[1] == '(':          # function type
            d = 0
            while True:
                x = lx.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        k, v = lx.peek()
        callee = parse_value(lx)
        lx.expect('(')
        args = []
        if not lx.eat(')'):
            while True:
                at = parse_type(lx)
                if at.k == 'other':
                    # metadata operand
                    d = 0
                    while lx.peek()[1] not in (',', ')') or d:
                        x = lx.next()[1]
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append((at, ('undef',), {}))
                else:
                    aa = parse_attrs(lx)
                    args.append((at, parse_value(lx, at), aa))
                if lx.eat(')'): break
                lx.expect(',')
        return Inst(op, res, t, [callee], args, ln)
    if op in ('extractvalue',):
        t = parse_type(lx); a = parse_value(lx, t); idx = []
        while lx.eat(','): idx.append(int(lx.next()[1]))
        return Inst(op, res, t, [a], idx, ln)
    if op == 'insertvalue':
        t = parse_type(lx); a = parse_value(lx, t); lx.expect(','); t2 = parse_type(lx); b = parse_value(lx, t2)
        idx = []
        while lx.eat(','): idx.append(int(lx.next()[1]))
        return Inst(op, res, t, [a, b], idx, ln)
    if op == 'freeze':
        t = parse_type(lx); a = parse_value(lx, t)
        return Inst(op, res, t, [a], None, ln)
    return Inst('unknown:' + op, res, None, [], line, ln)


def parse_init(m, lx, ty, off, out):
    """constant initialiser -> out[byte offset] = (scalar type, operand)"""
    t = m.resolve(ty)
    k, v = lx.peek()
    if v == 'zeroinitializer':
        lx.next()
        _zero_init(m, t, off, out)
        return
    if v in ('undef', 'poison'):
        lx.next()
        return
    if t.k == 'arr':
        lx.expect('[')
        sz = m.size(t.b)
        for i in range(t.a):
            if i: lx.expect(',')
            et = parse_type(lx)
            parse_init(m, lx, et, off + i * sz, out)
        lx.expect(']')
        return
    if t.k == 'st':
        pk = False
        if lx.eat('<'): pk = True
        lx.expect('{')
        o = 0
        for i, ft in enumerate(t.a):
            if i: lx.expect(',')
            et = parse_type(lx)
            if not t.b:
                al = m.align(ft)
                o = (o + al - 1) // al * al
            parse_init(m, lx, et, off + o, out)
            o += m.size(ft)
        lx.expect('}')
        if pk: lx.expect('>')
        return
    out[off] = (t, parse_value(lx, t))


def _zero_init(m, t, off, out):
    t = m.resolve(t)
    if t.k == 'arr':
        sz = m.size(t.b)
        if t.a * sz > 65536: raise ParseError('large')
        for i in range(t.a): _zero_init(m, t.b, off + i * sz, out)
    elif t.k == 'st':
        o = 0
        for ft in t.a:
            if not t.b:
                al = m.align(ft)
                o = (o + al - 1) // al * al
            _zero_init(m, ft, off + o, out)
            o += m.size(ft)
    else:
        out[off] = (t, ('int', 0) if t.k == 'i' else ('fp', Fraction(0)) if t.k == 'f' else ('null',))


def const_data(m, g):
    """{offset: (type, operand)} of a constant global, or None"""
    if 'data' not in g:
        g['data'] = None
        lx = g.pop('lx', None)
        if lx is not None:
            out = {}
            try:
                parse_init(m, lx, g['ty'], 0, out)
                g['data'] = out
            except Exception:
                g['data'] = None
    return g['data']


def parse_module(text, src=None):
    m = Mod()
    m.src = src
    lines = text.split('\n')
    i = 0
    # debug lines
    for l in lines:
        mm = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
        if mm: m.dbg[mm.group(1)] = int(mm.group(2))
        mm = re.match(r'(!\d+) = distinct !DISubprogram\(.*?line: (\d+)', l)
        if mm: m.dbg[mm.group(1)] = int(mm.group(2))
    while i < len(lines):
        l = lines[i]
        mm = re.match(r'%(\S+) = type (.*)$', l)
        if mm:
            if mm.group(2).strip() != 'opaque':
                m.types[mm.group(1).strip('"')] = parse_type(Lexer(mm.group(2)))
        elif l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
            name, rest = mm.group(1).strip('"'), mm.group(2)
            g = {'text': rest, 'const': bool(re.search(r'\bconstant\b', rest.split('{')[0].split('c"')[0])),
                 'external': bool(re.match(r'(external|extern_weak)\b', rest)),
                 'tls': 'thread_local' in rest.split('c"')[0]}
            m2 = re.search(r'\b(?:global|constant) (.*)$', rest)
            if m2:
                try:
                    lx = Lexer(re.sub(r'c"(?:[^"\\]|\\.)*"', 'zeroinitializer', m2.group(1)))
                    g['ty'] = parse_type(lx)
                    g['init'] = m2.group(1)
                    if g['const']:
                        g['lx'] = lx
                except ParseError:
                    pass
            m.globals[name] = g
        elif l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            m.decls[mm.group(1).strip('"')] = l
        elif l.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            f = Func(mm.group(1).strip('"'))
            f.mod = m
            f.internal = ' internal ' in l.split('@')[0]
            md = re.search(r'!dbg (!\d+)', l)
            f.line = m.dbg.get(md.group(1), 0) if md else 0
            # params
            s = l[mm.end() - 1:]
            d = 0
            for j, ch in enumerate(s):
                if ch == '(': d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0: break
            lx = Lexer(s[1:j])
            while lx.peek()[1] is not None:
                if lx.eat('...'):
                    f.variadic = True
                    break
                t = parse_type(lx)
                at = parse_attrs(lx)
                k, v = lx.peek()
                nm = None
                if k == 'loc':
                    nm = v[1:]; lx.next()
                f.params.append((t, nm, at))
                lx.eat(',')
            i += 1
            cur = None
            implicit = len(f.params)
            while lines[i] != '}':
                l = lines[i]
                mb = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if mb and not l.startswith(' '):
                    cur = mb.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    if f.entry is None: f.entry = cur
                elif l.strip() and not l.strip().startswith(';') and not l.strip().startswith('#dbg'):
                    if cur is None:
                        cur = '0'
                        f.blocks[cur] = []; f.order.append(cur); f.entry = cur
                    s = l.strip()
                    if s.startswith('switch'):
                        while ']' not in s:
                            i += 1
                            s += ' ' + lines[i].strip()
                    ins = parse_inst(s, m.dbg)
                    ins.line = m.dbg.get(ins.line, 0) if ins.line else 0
                    ins.blk = cur
                    f.blocks[cur].append(ins)
                i += 1
            m.funcs[f.name] = f
        i += 1
    return m


# ------------------------------------------------------------------ CFG / loops
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.children = []
        self.latches = []

    def __repr__(self):
        return 'Loop(%s)' % self.header


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        self.pred = {b: [] for b in f.blocks}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br': s = list(dict.fromkeys(t.x))
            elif t.op == 'switch': s = list(dict.fromkeys([t.x[0]] + [x[1] for x in t.x[1]]))
            else: s = []
            self.succ[b] = s
            for x in s: self.pred[x].append(b)
        # RPO
        seen = set(); post = []
        st = [(f.entry, iter(self.succ[f.entry]))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.reach = seen
        # dominators
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.num[a] > self.num[c]: a = idom[a]
                        while self.num[c] > self.num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n; ch = True
        self.idom = idom
        # loops
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.num and self.dominates(s, b):
                    L = self.loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            wl += [p for p in self.pred[x] if p in self.reach]
                elif s in self.num and self.num[s] <= self.num[b]:
                    self.irreducible = True
        hs = sorted(self.loops.values(), key=lambda L: len(L.blocks))
        for i, L in enumerate(hs):
            for M in hs[i + 1:]:
                if L.header in M.blocks and M is not L:
                    L.parent = M; M.children.append(L)
                    break
        self.inner = {}
        for L in hs[::-1]:
            for b in L.blocks: self.inner[b] = L

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == self.f.entry: return False
            b = self.idom[b]


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        m = parse_module(open(p).read())
        for f in m.funcs.values():
            c = CFG(f)
            unk = [i for b in f.blocks.values() for i in b if i.op.startswith('unknown')]
            print(p, f.name, len(f.blocks), len(c.loops), 'irr' if c.irreducible else '', unk)
