"""Abstract values of the value-flow analysis.

 * integers   -> polynomials (class P) with rational coefficients over hash-consed atoms
 * reals      -> hash-consed terms (class F) identified by a fingerprint: their value at a fixed random
                 point of the field GF(2^127-1) (Schwartz-Zippel / random interpretation); two terms are
                 the same rational function iff (with overwhelming probability) the fingerprints agree
 * conditions -> decision diagrams over canonical comparison variables (sign of an integer polynomial,
                 sign of a real term)
 * every SSA value is a decision diagram (class M) whose leaves are P / F / Ptr / bool

Nothing here runs program code: these are the normal forms of the equations of the gated SSA form."""
import hashlib
from fractions import Fraction
from math import gcd

PR = (1 << 127) - 1


class Undecided(Exception):
    """the analysis cannot resolve something: no verdict for the obligation"""


def H(key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:20], 'big') % (PR - 2) + 1


def fmod(fr):
    if isinstance(fr, int): return fr % PR
    return fr.numerator % PR * pow(fr.denominator, PR - 2, PR) % PR


def finv(x):
    return pow(x, PR - 2, PR)


EMPTY = frozenset()


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'key', 'kind', 'name', 'args', 'rnd', 'isint', 'lo', 'hi', 'facts', 'support', 'base',
                 'basemap', 'sub', 'info', '_fdone')

    def __repr__(self):
        a = ','.join(repr(x) for x in self.args)
        return '%s%s' % (self.name if self.kind in ('par', 'iv', 'phi') else self.kind + ':' + str(self.name),
                         '(%s)' % a if a else '')


class AtomTable:
    def __init__(self):
        self.tab = {}
        self.byid = []

    def get(self, kind, name, args=(), isint=True, lo=None, hi=None, sub=None, base=None, info=None):
        """sub: function(newargs)->value used when arguments are substituted (default: same kind)"""
        key = (kind, name, tuple(a.fp for a in args), isint)
        a = self.tab.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.byid)
            a.key, a.kind, a.name, a.args = key, kind, name, tuple(args)
            a.rnd = H(key)
            a.isint = isint
            a.lo, a.hi = lo, hi
            a.facts = []
            s = {a.id}
            for x in args: s |= x.support
            a.support = frozenset(s)
            a.sub = sub
            a.base = base
            a.basemap = None
            a.info = info
            a._fdone = False
            self.tab[key] = a
            self.byid.append(a)
        return a


AT = AtomTable()


# ------------------------------------------------------------------ integer polynomials
class P:
    __slots__ = ('m', 'fp', 'support', '_key')
    tab = {}

    def __new__(cls, m):
        key = tuple(sorted(m.items()))
        o = P.tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.m = m
            o._key = key
            f = 0
            s = set()
            for mono, c in m.items():
                t = fmod(c)
                for a in mono:
                    t = t * AT.byid[a].rnd % PR
                    s |= AT.byid[a].support
                f += t
            o.fp = f % PR
            o.support = frozenset(s) if s else EMPTY
            P.tab[key] = o
        return o

    def const(self):
        m = self.m
        if not m: return 0
        if len(m) == 1 and () in m: return m[()]
        return None

    def __add__(a, b):
        if not isinstance(b, P): b = pc_(b)
        if not b.m: return a
        if not a.m: return b
        m = dict(a.m)
        for k, v in b.m.items():
            n = m.get(k, 0) + v
            if n == 0: m.pop(k, None)
            else: m[k] = n
        return P(m)

    def scale(a, c):
        if c == 0: return ZERO
        if c == 1: return a
        return P({k: _norm(v * c) for k, v in a.m.items()})

    def __neg__(a): return a.scale(-1)

    def __sub__(a, b):
        if not isinstance(b, P): b = pc_(b)
        return a + b.scale(-1)

    def __mul__(a, b):
        if not isinstance(b, P): b = pc_(b)
        ca, cb = a.const(), b.const()
        if ca is not None: return b.scale(ca)
        if cb is not None: return a.scale(cb)
        m = {}
        for k1, v1 in a.m.items():
            for k2, v2 in b.m.items():
                k = tuple(sorted(k1 + k2))
                n = m.get(k, 0) + v1 * v2
                if n == 0: m.pop(k, None)
                else: m[k] = n
        return P(m)

    def atoms(self):
        s = set()
        for k in self.m: s.update(k)
        return s

    def lin(self):
        """linear? -> True when every monomial has degree <= 1"""
        return all(len(k) <= 1 for k in self.m)

    def coef(self, aid):
        return self.m.get((aid,), 0)

    def bounds(self):
        """interval from the atoms' own static bounds"""
        lo = hi = 0
        for k, c in self.m.items():
            if not k:
                lo = None if lo is None else lo + c
                hi = None if hi is None else hi + c
                continue
            l, h = 1, 1
            ok = True
            for a in k:
                at = AT.byid[a]
                al, ah = at.lo, at.hi
                if al is None and ah is None: ok = False; break
                if len(k) == 1:
                    l, h = al, ah
                else:
                    if al is None or al < 0: ok = False; break
                    l = l * al if l is not None else None
                    h = h * ah if (h is not None and ah is not None) else None
            if not ok: return None, None
            if c < 0: l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
        return lo, hi

    def __repr__(self):
        if not self.m: return '0'
        out = []
        for k, c in sorted(self.m.items(), key=lambda kv: (-len(kv[0]), kv[0])):
            s = '*'.join(repr(AT.byid[a]) for a in k)
            if not k: out.append('%s' % c)
            elif c == 1: out.append(s)
            elif c == -1: out.append('-' + s)
            else: out.append('%s*%s' % (c, s))
        return '+'.join(out).replace('+-', '-')


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c


_pcc = {}


def pc_(v):
    r = _pcc.get(v)
    if r is None:
        v2 = _norm(v)
        r = _pcc[v] = P({(): v2} if v2 != 0 else {})
    return r


ZERO = P({})
ONE = pc_(1)


def pa(atom):
    return P({(atom.id,): 1})


# ------------------------------------------------------------------ real terms
class F:
    __slots__ = ('op', 'a', 'fp', 'support', 'lo', 'hi')
    tab = {}
    byfp = {}

    def __repr__(self): return frepr(self)


def frepr(f, d=0):
    if d > 6: return '...'
    if f.op == 'c': return str(f.a[0]) if f.a[0].denominator == 1 or f.a[0].denominator < 10000 else '%g' % float(f.a[0])
    if f.op == 'at': return repr(f.a[0])
    if f.op == 'i': return '(real)' + repr(f.a[0])
    if f.op in ('+', '-', '*', '/'): return '(%s%s%s)' % (frepr(f.a[0], d + 1), f.op, frepr(f.a[1], d + 1))
    if f.op == 'sum': return 'SUM[%r](%s)' % (f.a[1], frepr(f.a[0], d + 1))
    return '%s%r' % (f.op, f.a)


def _mkF(op, a, fp, support):
    key = (op, a)
    o = F.tab.get(key)
    if o is None:
        o = object.__new__(F)
        o.op, o.a, o.fp, o.support = op, a, fp, support
        # keep the first representative for each fingerprint (canonical leaf)
        o2 = F.byfp.setdefault(fp, o)
        F.tab[key] = o2
        o = o2
    return o


def fc(v):
    v = Fraction(v)
    if v != 0 and abs(v) < Fraction(1, 10 ** 200): v = Fraction(0)     # guard constants such as 1e-299
    return _mkF('c', (v,), fmod(v), EMPTY)


def fat(atom): return _mkF('at', (atom,), atom.rnd, atom.support)


def fint(p):
    c = p.const()
    if c is not None: return fc(c)
    return _mkF('i', (p,), p.fp, p.support)


def fconst(f):
    """rational constant value of a term, or None"""
    return f.a[0] if f.op == 'c' else None


def fadd(x, y):
    if x.op == 'c' and y.op == 'c': return fc(x.a[0] + y.a[0])
    if x.op == 'c' and x.a[0] == 0: return y
    if y.op == 'c' and y.a[0] == 0: return x
    return _mkF('+', (x, y), (x.fp + y.fp) % PR, x.support | y.support)


def fsub(x, y):
    if x.op == 'c' and y.op == 'c': return fc(x.a[0] - y.a[0])
    if y.op == 'c' and y.a[0] == 0: return x
    if x.fp == y.fp: return fc(0)
    return _mkF('-', (x, y), (x.fp - y.fp) % PR, x.support | y.support)


def fmul(x, y):
    if x.op == 'c' and y.op == 'c': return fc(x.a[0] * y.a[0])
    for p, q in ((x, y), (y, x)):
        if p.op == 'c':
            if p.a[0] == 1: return q
            if p.a[0] == 0: return fc(0)
    return _mkF('*', (x, y), x.fp * y.fp % PR, x.support | y.support)


def fdiv(x, y):
    if y.op == 'c':
        if y.a[0] == 0:
            return fat(AT.get('div0', '', (x,), isint=False))
        if x.op == 'c': return fc(x.a[0] / y.a[0])
        if y.a[0] == 1: return x
    if y.fp == 0: return fat(AT.get('div0', '', (x,), isint=False))
    return _mkF('/', (x, y), x.fp * finv(y.fp) % PR, x.support | y.support)


def fneg(x): return fsub(fc(0), x)


def fsum(body, n, depth):
    """sum of `body` over the index kappa_depth in [0,n): a linear functional of the body"""
    mu = H(('sum', n.fp, depth))
    return _mkF('sum', (body, n, depth), body.fp * mu % PR, body.support | n.support)


def fpow(x, n):
    if n == 0: return fc(1)
    if n < 0: return fdiv(fc(1), fpow(x, -n))
    r = x
    for _ in range(n - 1): r = fmul(r, x)
    return r


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('obj', 'off', 'facts', 'fp', 'support')
    tab = {}

    def __new__(cls, obj, off, facts=()):
        key = (obj, off, facts)
        o = Ptr.tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.obj, o.off, o.facts = obj, off, facts
            o.fp = H(('ptr', obj.name if obj else None, off.fp))
            s = off.support
            if obj is not None: s = s | obj.support
            o.support = s
            Ptr.tab[key] = o
        return o

    def __repr__(self): return '&%s+%r' % (self.obj.name if self.obj else 'NULL', self.off)


class Obj:
    """abstract memory object"""
    __slots__ = ('name', 'kind', 'size', 'support', 'ty', 'args', 'line', 'atom', 'mod')

    def __init__(self, name, kind, size=None, ty=None):
        self.name, self.kind, self.size, self.ty = name, kind, size, ty
        self.support = EMPTY
        self.args = ()
        self.line = 0
        self.atom = None

    def __repr__(self): return 'Obj(%s)' % (self.name,)


class Undef:
    __slots__ = ('fp', 'support')

    def __init__(self): self.fp = 12345; self.support = EMPTY

    def __repr__(self): return 'undef'


UNDEF = Undef()


# ------------------------------------------------------------------ decision diagrams
class M:
    __slots__ = ('var', 'hi', 'lo', 'leaf', 'id', 'support')

    def __repr__(self): return mrepr(self)


def mrepr(m, d=0):
    if m.var is None: return repr(m.leaf)
    if d > 4: return '...'
    return '{%s ? %s : %s}' % (varname(m.var), mrepr(m.hi, d + 1), mrepr(m.lo, d + 1))


_leafs = {}
_nodes = {}
_cnt = [0]
NODE_LIMIT = 3000000


def leaf(x):
    if x is True or x is False:
        k = ('b', x)
    elif isinstance(x, P): k = ('p', id(x))
    elif isinstance(x, F):
        k = ('f', x.fp)
    elif isinstance(x, Ptr): k = ('q', id(x.obj), id(x.off))
    else: k = ('u', id(x))
    m = _leafs.get(k)
    if m is None:
        m = object.__new__(M)
        m.var = None; m.hi = m.lo = None; m.leaf = x
        _cnt[0] += 1
        m.id = _cnt[0]
        m.support = EMPTY if (x is True or x is False) else x.support
        _leafs[k] = m
    return m


TRUE = leaf(True)
FALSE = leaf(False)
UND = leaf(UNDEF)


def mk(var, hi, lo):
    if hi is lo: return hi
    k = (var, hi.id, lo.id)
    m = _nodes.get(k)
    if m is None:
        m = object.__new__(M)
        m.var, m.hi, m.lo, m.leaf = var, hi, lo, None
        _cnt[0] += 1
        if _cnt[0] - _base[0] > NODE_LIMIT: raise Undecided('decision diagram size limit')
        m.id = _cnt[0]
        m.support = hi.support | lo.support | VARS[var].support
        _nodes[k] = m
    return m


class Var:
    __slots__ = ('kind', 'sub', 'term', 'support', 'idx')
    # kind 'i' (term P) or 'f' (term F) or 'o' (opaque, term Atom); sub 'E' (==0) / 'L' (<0 given !=0)

    def __repr__(self): return '%s%s[%r]' % (self.kind, self.sub, self.term)


VARS = []
_vartab = {}


def varname(i):
    v = VARS[i]
    return '%s %s 0' % (v.term, '==' if v.sub == 'E' else '<') if v.kind != 'o' else repr(v.term)


def getvar(kind, sub, term, key):
    k = (kind, sub, key)
    i = _vartab.get(k)
    if i is None:
        # allocate E and L adjacent
        subs = ('E', 'L') if kind != 'o' else ('O',)
        for s in subs:
            v = Var()
            v.kind, v.sub, v.term = kind, s, term
            v.support = term.support
            v.idx = len(VARS)
            VARS.append(v)
            _vartab[(kind, s, key)] = v.idx
        i = _vartab[k]
    return i


def mvar(i): return mk(i, TRUE, FALSE)


_ap2 = {}


def apply2(opn, f, a, b):
    if a.var is None and b.var is None:
        r = f(a.leaf, b.leaf)
        return r if isinstance(r, M) else leaf(r)
    k = (opn, a.id, b.id)
    r = _ap2.get(k)
    if r is not None: return r
    if a.var is None: v = b.var
    elif b.var is None: v = a.var
    else: v = min(a.var, b.var)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    h = apply2(opn, f, ah, bh)
    l = apply2(opn, f, al, bl)
    r = combine(v, h, l)
    _ap2[k] = r
    return r


def combine(v, h, l):
    """node for variable v with arbitrary children (children may test smaller variables)"""
    if h is l: return h
    if (h.var is None or h.var > v) and (l.var is None or l.var > v): return mk(v, h, l)
    return ite(mvar(v), h, l)


_ap1 = {}


def apply1(opn, f, a):
    if a.var is None:
        r = f(a.leaf)
        return r if isinstance(r, M) else leaf(r)
    k = (opn, a.id)
    r = _ap1.get(k)
    if r is not None: return r
    h = apply1(opn, f, a.hi)
    l = apply1(opn, f, a.lo)
    r = combine(a.var, h, l)
    _ap1[k] = r
    return r


def map1(f, a, memo=None):
    """apply1 without global memo (f depends on context)"""
    if memo is None: memo = {}
    if a.var is None:
        r = f(a.leaf)
        return r if isinstance(r, M) else leaf(r)
    r = memo.get(a.id)
    if r is None:
        r = memo[a.id] = combine(a.var, map1(f, a.hi, memo), map1(f, a.lo, memo))
    return r


def map2(f, a, b, memo=None):
    if memo is None: memo = {}
    if a.var is None and b.var is None:
        r = f(a.leaf, b.leaf)
        return r if isinstance(r, M) else leaf(r)
    k = (a.id, b.id)
    r = memo.get(k)
    if r is not None: return r
    if a.var is None: v = b.var
    elif b.var is None: v = a.var
    else: v = min(a.var, b.var)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    r = memo[k] = combine(v, map2(f, ah, bh, memo), map2(f, al, bl, memo))
    return r


_ite = {}


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.var is None:
        raise Undecided('non-boolean condition %r' % c)
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None: return r
    v = c.var
    if a.var is not None and a.var < v: v = a.var
    if b.var is not None and b.var < v: v = b.var
    ch, cl = (c.hi, c.lo) if c.var == v else (c, c)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    h = ite(ch, ah, bh)
    l = ite(cl, al, bl)
    r = mk(v, h, l)
    _ite[k] = r
    return r


def band(a, b): return ite(a, b, FALSE)


def bor(a, b): return ite(a, TRUE, b)


def bnot(a): return ite(a, FALSE, TRUE)


_cons = {}


def constrain(f, c):
    """simplify f knowing c (restrict): equal to f wherever c holds"""
    if c is TRUE or f.var is None or c is FALSE: return f
    k = (f.id, c.id)
    r = _cons.get(k)
    if r is not None: return r
    if c.var < f.var:
        if c.hi is FALSE: r = constrain(f, c.lo)
        elif c.lo is FALSE: r = constrain(f, c.hi)
        else: r = constrain(f, bor(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is FALSE: r = constrain(f.lo, c.lo)
        elif c.lo is FALSE: r = constrain(f.hi, c.hi)
        else: r = mk(f.var, constrain(f.hi, c.hi), constrain(f.lo, c.lo))
    else:
        r = mk(f.var, constrain(f.hi, c), constrain(f.lo, c))
    _cons[k] = r
    return r


def leaves(m, guard=TRUE):
    """list of (guard, leaf) pairs"""
    out = {}

    def go(n, g):
        if n.var is None:
            out[n.id] = (bor(out[n.id][0], g) if n.id in out else g, n.leaf)
            return
        gh = band(g, mvar(n.var))
        if gh is not FALSE: go(n.hi, gh)
        gl = band(g, bnot(mvar(n.var)))
        if gl is not FALSE: go(n.lo, gl)
    go(m, guard)
    return list(out.values())


def leafset(m):
    seen = set(); out = []
    st = [m]
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.var is None: out.append(n.leaf)
        else: st += [n.hi, n.lo]
    return out


def bsupport(c):
    seen = set(); vs = set()
    st = [c]
    while st:
        n = st.pop()
        if n.id in seen or n.var is None: continue
        seen.add(n.id); vs.add(n.var)
        st += [n.hi, n.lo]
    return vs


_ess = {}


def essential(c):
    """literals (var, polarity) implied by c"""
    r = _ess.get(c.id)
    if r is not None: return r
    if c is FALSE or c is TRUE: return []
    r = sorted(_impl(c))
    _ess[c.id] = r
    return r


_implm = {}


def _impl(c):
    if c is TRUE: return EMPTY
    r = _implm.get(c.id)
    if r is None:
        if c.hi is FALSE: r = _impl(c.lo) | {(c.var, False)}
        elif c.lo is FALSE: r = _impl(c.hi) | {(c.var, True)}
        else:
            r = _impl(c.hi)
            if r: r = r & _impl(c.lo)
        _implm[c.id] = r
    return r


_rest = {}


def restrict(c, v, val):
    if c.var is None or c.var > v: return c
    if c.var == v: return c.hi if val else c.lo
    k = (c.id, v, val)
    r = _rest.get(k)
    if r is None:
        r = _rest[k] = mk(c.var, restrict(c.hi, v, val), restrict(c.lo, v, val))
    return r


def cubes(c, limit=256):
    """list of cubes (list of (var,pol)) covering c"""
    out = []

    def go(n, acc):
        if n is FALSE: return
        if n is TRUE:
            out.append(list(acc))
            if len(out) > limit: raise Undecided('too many cubes')
            return
        acc.append((n.var, True)); go(n.hi, acc); acc.pop()
        acc.append((n.var, False)); go(n.lo, acc); acc.pop()
    go(c, [])
    return out


# ------------------------------------------------------------------ comparisons
class Ctx:
    """global analysis context: sign oracle for real terms and integer facts"""
    sign = None          # function(F) -> set subset of {'-','0','+'} or None
    intsign = None
    extra = ()           # list of P >= 0


CTX = Ctx()


def _canon_int(p):
    """scale to primitive integer coefficients; returns (p', flipped)"""
    g = 0
    den = 1
    for c in p.m.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1: p = p.scale(den)
    for c in p.m.values(): g = gcd(g, abs(int(c)))
    if g > 1:
        p = p.scale(Fraction(1, g))
    lead = max((k for k in p.m if k), default=())
    if p.m.get(lead, 1) < 0: return -p, True
    return p, False


def sgn_int(p):
    """(E, L) diagrams: p==0, p<0"""
    c = p.const()
    if c is not None: return (TRUE if c == 0 else FALSE), (TRUE if c < 0 else FALSE)
    if any(isinstance(v, Fraction) for v in p.m.values()):
        pass
    lo, hi = p.bounds()
    if (lo is None or hi is None or (lo <= 0 <= hi)) and CTX.intsign is not None:
        s = CTX.intsign(p)
        if s is not None: lo, hi = s
    if lo is not None and lo > 0: return FALSE, FALSE
    if hi is not None and hi < 0: return FALSE, TRUE
    # parity / gcd: g does not divide the constant -> p != 0
    q, fl = _canon_int(p)
    nz = False
    g = 0
    for k, v in q.m.items():
        if k: g = gcd(g, abs(int(v)))
    if g > 1 and q.m.get((), 0) % g: nz = True
    e = getvar('i', 'E', q, id(q))
    l = getvar('i', 'L', q, id(q))
    if nz: E = FALSE
    else: E = mvar(e)
    # L variable: q<0 given q!=0
    qlo, qhi = (None if hi is None else -hi, None if lo is None else -lo) if fl else (lo, hi)
    if qlo is not None and qlo >= 0: Lq = FALSE
    elif qhi is not None and qhi <= 0: Lq = bnot(E)
    else: Lq = mvar(l) if E is FALSE else mk(e, FALSE, mvar(l))
    if not fl: return E, Lq
    return E, band(bnot(E), bnot(Lq))


def sgn_real(f):
    c = fconst(f)
    if c is None and f.fp == 0: c = 0
    if c is None:
        # recognise small rational constants produced by cancellation
        pass
    if c is not None: return (TRUE if c == 0 else FALSE), (TRUE if c < 0 else FALSE)
    if f.op == 'i':
        return sgn_int(f.a[0])
    nfp = (-f.fp) % PR
    fl = nfp < f.fp
    allowed = None
    if CTX.sign is not None: allowed = CTX.sign(f)
    if allowed is not None:
        if '0' not in allowed and '+' not in allowed: return FALSE, TRUE
        if '0' not in allowed and '-' not in allowed: return FALSE, FALSE
        if '-' not in allowed and '+' not in allowed: return TRUE, FALSE
    rep = f if not fl else fneg(f)
    key = min(f.fp, nfp)
    e = getvar('f', 'E', rep, key)
    l = getvar('f', 'L', rep, key)
    if allowed is not None and '0' not in allowed: E = FALSE
    else: E = mvar(e)
    if allowed is not None and '-' not in allowed: return E, FALSE
    if allowed is not None and '+' not in allowed: return E, bnot(E)
    Lq = mvar(l) if E is FALSE else mk(e, FALSE, mvar(l))
    if not fl: return E, Lq
    return E, band(bnot(E), bnot(Lq))


def cmpz(E, L, pred):
    """pred on sign: eq ne lt le gt ge"""
    if pred == 'eq': return E
    if pred == 'ne': return bnot(E)
    if pred == 'lt': return L
    if pred == 'le': return bor(E, L)
    if pred == 'gt': return band(bnot(E), bnot(L))
    if pred == 'ge': return bnot(L)
    raise Undecided('pred ' + pred)


def icmp(a, pred, b):
    """P,P -> condition"""
    E, L = sgn_int(a - b)
    return cmpz(E, L, pred)


def rcmp(a, pred, b):
    E, L = sgn_real(fsub(a, b))
    return cmpz(E, L, pred)


# ------------------------------------------------------------------ substitution
class Subst:
    """simultaneous substitution of atoms by P / F (M-valued replacements allowed for values)"""

    def __init__(self, mp):
        self.mp = mp                      # atom id -> P or F or M
        self.ids = frozenset(mp)
        self.pm, self.fm, self.mm, self.am = {}, {}, {}, {}
        self.bm = {}

    def hit(self, support):
        return not self.ids.isdisjoint(support)

    # every result is an M (decision diagram), because replacements may be conditional
    def atom(self, a):
        r = self.am.get(a.id)
        if r is not None: return r
        if a.id in self.mp:
            v = self.mp[a.id]
            r = v if isinstance(v, M) else leaf(v)
        elif not self.hit(a.support):
            r = leaf(pa(a)) if a.isint else leaf(fat(a))
        else:
            args = [self.val(x) for x in a.args]
            r = self._args(a, args, [])
        self.am[a.id] = r
        return r

    def _args(self, a, args, done):
        if not args:
            if a.sub is not None:
                v = a.sub(tuple(done))
                return v if isinstance(v, M) else leaf(v)
            lo, hi = (a.lo, a.hi)
            n = AT.get(a.kind, a.name, tuple(done), a.isint, lo, hi, None, a.base or a, a.info)
            if n is not a and n.basemap is None:
                n.base = a.base or a
                n.basemap = tuple(done)
            return leaf(pa(n)) if n.isint else leaf(fat(n))
        x = args[0]
        return map1(lambda l: self._args(a, args[1:], done + [l]), x)

    def val(self, x):
        if isinstance(x, P): return self.p(x)
        if isinstance(x, F): return self.f(x)
        if isinstance(x, Ptr): return self.ptr(x)
        if isinstance(x, M): return self.m(x)
        return leaf(x)

    def p(self, p):
        if not self.hit(p.support): return leaf(p)
        r = self.pm.get(id(p))
        if r is None:
            r = leaf(ZERO)
            for mono, c in p.m.items():
                t = leaf(pc_(c))
                for aid in mono:
                    t = apply2('imul', lambda x, y: _tok(x) * _tok(y), t, self.atom(AT.byid[aid]))
                r = apply2('iadd', lambda x, y: _tok(x) + _tok(y), r, t)
            self.pm[id(p)] = r
        return r

    def f(self, f):
        if not self.hit(f.support): return leaf(f)
        r = self.fm.get(id(f))
        if r is None:
            # iterative post-order to avoid deep recursion
            st = [f]
            while st:
                x = st[-1]
                if id(x) in self.fm: st.pop(); continue
                if not self.hit(x.support):
                    self.fm[id(x)] = leaf(x); st.pop(); continue
                if x.op in ('+', '-', '*', '/'):
                    pend = [y for y in x.a if id(y) not in self.fm]
                    if pend: st += pend; continue
                    u, v = self.fm[id(x.a[0])], self.fm[id(x.a[1])]
                    op = {'+': fadd, '-': fsub, '*': fmul, '/': fdiv}[x.op]
                    self.fm[id(x)] = apply2('f' + x.op, op, u, v)
                elif x.op == 'at':
                    self.fm[id(x)] = map1(lambda l: l if isinstance(l, F) else fint(l), self.atom(x.a[0]))
                elif x.op == 'i':
                    self.fm[id(x)] = map1(fint, self.p(x.a[0]))
                elif x.op == 'sum':
                    b = self.f(x.a[0]); n = self.p(x.a[1])
                    d = x.a[2]
                    self.fm[id(x)] = map2(lambda bb, nn: fsum(bb, nn, d), b, n)
                else:
                    self.fm[id(x)] = leaf(x)
                st.pop()
            r = self.fm[id(f)]
        return r

    def ptr(self, q):
        if not self.hit(q.support): return leaf(q)
        o = q.obj
        if o is not None and self.hit(o.support) and o.atom is not None:
            na = self.atom(o.atom)
            if na.var is None and isinstance(na.leaf, P) and len(na.leaf.m) == 1:
                (mono, c), = na.leaf.m.items()
                if len(mono) == 1 and c == 1:
                    o = AT.byid[mono[0]].info['obj'](AT.byid[mono[0]])
        return map1(lambda l: Ptr(o, l, q.facts), self.p(q.off))

    def cond(self, i):
        r = self.bm.get(i)
        if r is None:
            v = VARS[i]
            if not self.hit(v.support): r = mvar(i)
            elif v.kind == 'i':
                r = map1(lambda l: (sgn_int(l)[0] if v.sub == 'E' else self._L(sgn_int(l))), self.p(v.term))
            elif v.kind == 'f':
                r = map1(lambda l: (sgn_real(l)[0] if v.sub == 'E' else self._L(sgn_real(l))), self.f(v.term))
            else:
                na = self.atom(v.term)
                r = map1(lambda l: mvar(getvar('o', 'O', _only(l), id(_only(l)))), na)
            self.bm[i] = r
        return r

    def _L(self, el):
        return el[1]

    def m(self, m):
        if m.var is None: return self.val(m.leaf)
        if not self.hit(m.support): return m
        r = self.mm.get(m.id)
        if r is None:
            r = self.mm[m.id] = ite(self.cond(m.var), self.m(m.hi), self.m(m.lo))
        return r


def _ind(v):
    """real atom with value 1 where the literal holds, 0 elsewhere"""
    def sub(args, v=v):
        el = sgn_int(args[0]) if v.kind == 'i' else sgn_real(args[0])
        return ite(el[0] if v.sub == 'E' else el[1], leaf(fc(1)), leaf(fc(0)))
    if v.kind == 'o': return fat(AT.get('indo', '', (pa(v.term),), False))
    return fat(AT.get('ind', v.sub, (v.term,), False, sub=sub))


def indicator(m, aid):
    """turn the decisions that depend on atom aid into indicator factors, so that the value can go under a sum (aid None: all of them)"""
    memo = {}

    def go(x):
        if x.var is None or aid is not None and aid not in x.support: return x
        r = memo.get(x.id)
        if r is None:
            v = VARS[x.var]
            h, l = go(x.hi), go(x.lo)
            if aid is None or aid in v.support:
                i = _ind(v)
                r = map2(lambda a, b: fadd(fmul(i, _tof(a)), fmul(fsub(fc(1), i), _tof(b))), h, l)
            else: r = ite(mvar(x.var), h, l)
            memo[x.id] = r
        return r
    return go(m)


def _only(l):
    (mono, c), = l.m.items()
    return AT.byid[mono[0]]


def _only_leaf(m):
    if m.var is not None: raise ValueError('conditional')
    return m.leaf


def _tok(x):
    if isinstance(x, P): return x
    if isinstance(x, Undef): return pa(AT.get('undef', ''))
    raise Undecided('integer arithmetic on %r' % (x,))


# ------------------------------------------------------------------ linear reasoning
def atom_facts(aid, seen=None):
    """polynomials >= 0 that hold for this atom"""
    a = AT.byid[aid]
    out = []
    if a.lo is not None: out.append(pa(a) - a.lo)
    if a.hi is not None: out.append(pc_(a.hi) - pa(a))
    out += a.facts
    if a.base is not None and a.base is not a and a.base.facts:
        mp = {a.base.id: pa(a) if a.isint else fat(a)}
        for x, y in zip(a.base.args, a.basemap or ()):
            if isinstance(x, P) and len(x.m) == 1:
                (mono, c), = x.m.items()
                if len(mono) == 1 and c == 1: mp[mono[0]] = y
        s = Subst(mp)
        for f in a.base.facts:
            r = s.p(f)
            if r.var is None: out.append(r.leaf)
    return out


def fm_infeasible(cons, depth=0):
    """cons: list of P meaning P >= 0 (monomials treated as variables). True if surely infeasible."""
    rows = []
    seen = set()
    for p in cons:
        c = p.const()
        if c is not None:
            if c < 0: return True
            continue
        r = _tighten(p.m)
        if r is None: return True
        k = tuple(sorted(r.items()))
        if k in seen: continue
        seen.add(k)
        rows.append(r)
    for _ in range(60):
        if not rows: return False
        # variable with the fewest products
        occ = {}
        for r in rows:
            for v, c in r.items():
                if v == (): continue
                o = occ.setdefault(v, [0, 0])
                o[0 if c > 0 else 1] += 1
        if not occ: return False
        v = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x))
        pos = [r for r in rows if r.get(v, 0) > 0]
        neg = [r for r in rows if r.get(v, 0) < 0]
        rest = [r for r in rows if v not in r]
        if len(pos) * len(neg) > 400: return False
        best = {}
        for r in rest: _addrow(best, r)
        for a in pos:
            for b in neg:
                ca, cb = a[v], -b[v]
                n = {}
                for k, c in a.items():
                    if k != v: n[k] = n.get(k, 0) + c * cb
                for k, c in b.items():
                    if k != v: n[k] = n.get(k, 0) + c * ca
                n = {k: c for k, c in n.items() if c != 0}
                if not any(k for k in n):
                    if n.get((), 0) < 0: return True
                    continue
                n = _tighten(n)
                if n is None: return True
                _addrow(best, n)
        rows = [dict(k, **{}) if False else dict(list(k) + ([((), c)] if c else [])) for k, c in best.items()]
        if len(rows) > 300: return False
    return False


def _addrow(best, r):
    k = tuple(sorted((a, b) for a, b in r.items() if a != ()))
    c = r.get((), 0)
    if k not in best or best[k] > c: best[k] = c


def _tighten(m):
    g = 0
    den = 1
    for k, c in m.items():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    if den != 1: m = {k: int(c * den) for k, c in m.items()}
    for k, c in m.items():
        if k: g = gcd(g, abs(int(c)))
    if g > 1:
        m2 = {}
        for k, c in m.items():
            if k: m2[k] = int(c) // g
            else:
                f = int(c) // g          # floor
                if f: m2[k] = f
        m = m2
    else:
        m = dict(m)
    return m


def lits_to_cons(lits):
    """(var,pol) literals -> linear constraints (>=0), disequalities"""
    E, L = {}, {}
    for v, pol in lits:
        x = VARS[v]
        if x.kind != 'i': continue
        (E if x.sub == 'E' else L)[id(x.term)] = (x.term, pol)
    cons, ne = [], []
    for k, (t, pol) in E.items():
        if pol:
            cons += [t, -t]
        else:
            if k in L:
                cons.append(-t - 1 if L[k][1] else t - 1)
            else: ne.append(t)
    for k, (t, pol) in L.items():
        if k in E: continue
        # L given unknown E:  L true -> t<=0 ambiguous (E dominates) ; diagrams test E first, so treat weakly
        cons.append(-t if pol else t)
    return cons, ne


def close_facts(cons, extra=()):
    """add facts about all atoms occurring in cons (two rounds)"""
    out = list(cons) + list(extra)
    done = set()
    for _ in range(3):
        ats = set()
        for p in out: ats |= p.atoms()
        new = ats - done
        if not new: break
        for a in new:
            done.add(a)
            out += atom_facts(a)
    return out


def infeasible(lits, extra=()):
    cons, ne = lits_to_cons(lits)
    base = close_facts(cons, list(extra) + list(CTX.extra))
    if fm_infeasible(base): return True
    # equality-driven substitution of real sign literals and disequalities
    eqs = []
    for v, pol in lits:
        x = VARS[v]
        if x.kind == 'i' and x.sub == 'E' and pol: eqs.append(x.term)
    for p in list(extra):
        if -p in extra: eqs.append(p)
    for t in eqs:
        s = solve_for_atom(t)
        if s is None: continue
        aid, val = s
        sb = Subst({aid: val})
        g = TRUE
        for v, pol in lits:
            if VARS[v].kind == 'i' and VARS[v].term is t: continue
            c = sb.cond(v)
            g = band(g, c if pol else bnot(c))
            if g is FALSE: return True
    for t in ne[:3]:
        if fm_infeasible(base + [t - 1]) and fm_infeasible(base + [-t - 1]): return True
    # an atom at the edge of its range and excluded from it
    rng = {}
    for t in ne:
        if len(t.m) > 2: continue
        at = t.atoms()
        if len(at) != 1: continue
        a = next(iter(at))
        x = AT.byid[a]
        c = t.coef(a)
        if c not in (1, -1) or x.lo is None or x.hi is None: continue
        v = (t - pa(x).scale(c)).const()
        if v is not None: rng.setdefault(a, set()).add(-v * c)
    for a, vs in rng.items():
        x = AT.byid[a]
        if x.hi - x.lo < 8 and all(v in vs for v in range(int(x.lo), int(x.hi) + 1)): return True
    return False


def solve_for_atom(t):
    """t == 0 -> (atom id, P) with unit coefficient"""
    best = None
    for k, c in t.m.items():
        if len(k) == 1 and c in (1, -1):
            aid = k[0]
            if any(aid in kk for kk in t.m if kk != k): continue
            rest = t - P({k: c})
            if aid in rest.support: continue
            if best is None or aid > best[0]:
                best = (aid, rest.scale(-1) if c == 1 else rest)
    return best


_imp = {}


def implies(pc, cond, limit=64):
    """does pc imply cond?  (False = not shown)"""
    cond = constrain(cond, pc)
    if cond is TRUE or pc is FALSE: return True
    if cond is FALSE: return unsat(pc)
    neg = band(pc, bnot(cond))
    if neg is FALSE: return True
    return unsat(neg, limit)


_unsat = {}


def clear_unsat(): _unsat.clear()


def unsat(c, limit=64):
    if c is FALSE: return True
    if c is TRUE: return False
    r = _unsat.get(c.id)
    if r is not None: return r
    es = essential(c)
    if infeasible(es):
        r = True
    else:
        # project away variables that cannot matter: keep cubes
        try:
            cs = cubes(c, limit)
            r = all(infeasible(q) for q in cs)
        except Undecided:
            r = False
    _unsat[c.id] = r
    return r


def sat_cubes(c, budget=3000):
    """paths of the diagram to TRUE that are not shown contradictory, contradictory prefixes cut early"""
    left = [budget]
    es = essential(c) if c is not TRUE and c is not FALSE else []

    def go(n, path):
        if n is FALSE: return
        if n is TRUE:
            if not infeasible(path): yield list(path)
            return
        for pol, ch in ((True, n.hi), (False, n.lo)):
            if ch is FALSE: continue
            left[0] -= 1
            if left[0] < 0: raise Undecided('too many cubes')
            p2 = path + [(n.var, pol)]
            if n.lo is not FALSE and n.hi is not FALSE or len(p2) % 6 == 0:
                cons, ne = lits_to_cons(p2 + [l for l in es if l not in p2])
                if fm_infeasible(close_facts(cons, list(CTX.extra))): continue
            yield from go(ch, p2)
    yield from go(c, [])


def implied_ge0(pc, p):
    """pc => p >= 0"""
    c = p.const()
    if c is not None: return c >= 0
    lo, hi = p.bounds()
    if lo is not None and lo >= 0: return True
    if infeasible_with(pc, [-p - 1]): return True
    return False


def infeasible_with(pc, cons):
    es = essential(pc)
    c, ne = lits_to_cons(es)
    base = close_facts(c + list(cons), CTX.extra)
    if fm_infeasible(base): return True
    return False


def mk_int(fn):
    return fn


def I(v): return leaf(pc_(v))


def R(v): return leaf(fc(v))


def iadd(a, b): return apply2('iadd', lambda x, y: _tok(x) + _tok(y), a, b)


def isub(a, b): return apply2('isub', lambda x, y: _tok(x) - _tok(y), a, b)


def imul(a, b): return apply2('imul', lambda x, y: _tok(x) * _tok(y), a, b)


def _tof(x):
    if isinstance(x, F): return x
    if isinstance(x, Undef): return fat(AT.get('undef', '', (), False))
    if isinstance(x, P): return fint(x)
    raise Undecided('real arithmetic on %r' % (x,))


def radd(a, b): return apply2('f+', lambda x, y: fadd(_tof(x), _tof(y)), a, b)


def rsub(a, b): return apply2('f-', lambda x, y: fsub(_tof(x), _tof(y)), a, b)


def rmul(a, b): return apply2('f*', lambda x, y: fmul(_tof(x), _tof(y)), a, b)


def rdiv(a, b): return apply2('f/', lambda x, y: fdiv(_tof(x), _tof(y)), a, b)


def mcmp_i(a, pred, b): return apply2('icmp' + pred, lambda x, y: icmp(_tok(x), pred, _tok(y)), a, b)


def reset_all():
    """fresh diagram tables (start of an analysis run)"""
    for t in (_nodes, _ite, _cons, _ess, _rest, _implm, _ap2, _ap1, _unsat, _imp): t.clear()
    _base[0] = _cnt[0]


_base = [0]


def reset_caches():
    """comparison results depend on CTX: drop memo tables that embed them"""
    for t in (_ap2, _ap1, _unsat, _imp): t.clear()
