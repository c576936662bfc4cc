"""Hash-consed terms.

Value  = Poly: a polynomial with integer coefficients over interned atoms.
Atom   = (kind, args) interned; kinds
   sym   named unknown (parameter, fresh result)        args (name,)
   rgn   base address of a distinct object              args (name,)
   ld    content of memory at analysis entry            args (addr Poly, size, version)
   op    interpreted operator (div, rem, bit ops, ...)  args (name, Poly...)
   app   uninterpreted function (contract results)      args (name, Poly...)
   b2i   truth value of a condition                     args (Cond,)
   unk   value the analysis lost precision on           args (n, why)
   uninit  read of storage never written                args (region, off)
   fp    floating point expression                      args (op, ...)
Conditions: Cond(kind, poly, neg): eq -> poly == 0 ; le -> poly <= 0.
"""
import struct
import random


class Atom:
    __slots__ = ('kind', 'args', 'id', 'lo', 'hi', 'bits', 'isptr', 'flags', '_deps')

    def __repr__(s):
        k, a = s.kind, s.args
        if k in ('sym', 'rgn'):
            return str(a[0])
        if k == 'ld':
            return 'mem[%r]%s' % (a[0], '' if not a[2] else "'%s" % (a[2],))
        if k in ('op', 'app', 'fp'):
            return '%s(%s)' % (a[0], ', '.join(map(repr, a[1:])))
        if k == 'b2i':
            return '[%r]' % (a[0],)
        return '%s%r' % (k, a)


_atoms = {}
_alist = []


def atom(kind, args, bits=64, lo=None, hi=None, isptr=False, flags=()):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        a.id = len(_alist)
        a.bits = bits
        a.isptr = isptr
        a.flags = frozenset(flags)
        if lo is None and bits < 64:
            lo = -(1 << (bits - 1))
        if hi is None and bits < 64:
            hi = (1 << (bits - 1)) - 1
        a.lo, a.hi = lo, hi
        a._deps = None
        _atoms[key] = a
        _alist.append(a)
    return a


class Poly:
    __slots__ = ('t', 'h')

    def __init__(s, t):
        s.t = t
        s.h = hash(t)

    def __hash__(s):
        return s.h

    def __eq__(s, o):
        return s is o or (isinstance(o, Poly) and s.t == o.t)

    def __ne__(s, o):
        return not s == o

    def __repr__(s):
        if not s.t:
            return '0'
        out = []
        for m, c in s.t:
            f = '*'.join(repr(_alist[i]) for i in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            else:
                out.append('%d*%s' % (c, f))
        return ' + '.join(out)

    def isconst(s):
        return not s.t or (len(s.t) == 1 and s.t[0][0] == ())

    def cval(s):
        return s.t[0][1] if s.t else 0

    def const(s):
        for m, c in s.t:
            if m == ():
                return c
        return 0

    def nonconst(s):
        return Poly(tuple((m, c) for m, c in s.t if m != ()))

    def atoms(s):
        r = []
        for m, _ in s.t:
            for i in m:
                r.append(_alist[i])
        return r

    def single(s):
        """the atom if the poly is exactly one atom"""
        if len(s.t) == 1 and len(s.t[0][0]) == 1 and s.t[0][1] == 1:
            return _alist[s.t[0][0][0]]
        return None


def mk(d):
    return Poly(tuple(sorted((m, c) for m, c in d.items() if c != 0)))


def const(n):
    return Poly((((), n),)) if n else ZERO


ZERO = Poly(())
ONE = const(1)


def var(a):
    return Poly((((a.id,), 1),))


def add(a, b, k=1):
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + k * c
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return mk({m: c * k for m, c in a.t})


def mul(a, b):
    d = {}
    for m, c in a.t:
        for n, e in b.t:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return mk(d)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Atom):
        return var(x)
    raise TypeError(x)


def sym(name, bits=64, lo=None, hi=None, isptr=False, flags=()):
    return var(atom('sym', (name,), bits, lo, hi, isptr, flags))


def rgn(name, flags=()):
    return var(atom('rgn', (name,), 64, 4096, None, True, flags))


def app(name, *args, **kw):
    return var(atom('app', (name,) + tuple(P(a) for a in args), **kw))


_uniq = [0]


def fresh(name, **kw):
    _uniq[0] += 1
    return sym('%s#%d' % (name, _uniq[0]), **kw)


def unk(why, bits=64):
    _uniq[0] += 1
    return var(atom('unk', (_uniq[0], why), bits))


def reset():
    _atoms.clear()
    del _alist[:]
    _uniq[0] = 0


# ----------------------------------------------------------- conditions
class Cond:
    __slots__ = ('k', 'p', 'neg', 'h')

    def __init__(s, k, p, neg=False):
        s.k, s.p, s.neg = k, p, neg
        s.h = hash((k, p, neg))

    def __hash__(s):
        return s.h

    def __eq__(s, o):
        return isinstance(o, Cond) and (s.k, s.p, s.neg) == (o.k, o.p, o.neg)

    def __repr__(s):
        if s.k == 'c':
            return str(s.p)
        if s.k == 'eq':
            return '(%r %s 0)' % (s.p, '!=' if s.neg else '==')
        if s.k == 'le':
            return '(%r <= 0)' % (s.p,)
        return '%s%s%r' % ('!' if s.neg else '', s.k, s.p)


TRUE = Cond('c', True)
FALSE = Cond('c', False)


def cnot(c):
    if c.k == 'c':
        return FALSE if c.p else TRUE
    if c.k == 'le':
        return Cond('le', sub(ONE, c.p))
    return Cond(c.k, c.p, not c.neg)


def _canon_sign(p):
    """sign-normalise for equality"""
    if p.t and p.nonconst().t and p.nonconst().t[0][1] < 0:
        return scale(p, -1)
    return p


def ceq(a, b):
    p = sub(P(a), P(b))
    if p.isconst():
        return TRUE if p.cval() == 0 else FALSE
    # [cond] compared with 0/1
    nc = p.nonconst()
    if len(nc.t) == 1 and len(nc.t[0][0]) == 1:
        a0 = _alist[nc.t[0][0][0]]
        if a0.kind == 'b2i':
            k, c = nc.t[0][1], p.const()
            # k*b + c == 0
            if c == 0:
                return cnot(a0.args[0])
            if -c == k:
                return a0.args[0]
            return FALSE
        if abs(nc.t[0][1]) != 1 and p.const() % abs(nc.t[0][1]):
            return FALSE
    g = 0
    from math import gcd
    for m, c in p.t:
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        if p.const() % g:
            return FALSE
        p = Poly(tuple((m, c // g) for m, c in p.t))
    return Cond('eq', _canon_sign(p))


def cle(a, b):
    """a <= b"""
    p = sub(P(a), P(b))
    if p.isconst():
        return TRUE if p.cval() <= 0 else FALSE
    nc = p.nonconst()
    if len(nc.t) == 1 and len(nc.t[0][0]) == 1:
        a0 = _alist[nc.t[0][0][0]]
        if a0.kind == 'b2i':
            at0, at1 = p.const() <= 0, p.const() + nc.t[0][1] <= 0
            return (TRUE if at1 else cnot(a0.args[0])) if at0 else (a0.args[0] if at1 else FALSE)
    from math import gcd
    g = 0
    for m, c in p.t:
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        # g*x + c <= 0  <=>  x <= floor(-c/g)
        c = p.const()
        d = {m: k // g for m, k in p.t if m != ()}
        d[()] = -((-c) // g)
        p = mk(d)
    return Cond('le', p)


def clt(a, b):
    return cle(add(P(a), ONE), b)


# ----------------------------------------------------------- traversal
def deps(x, acc=None):
    """all atoms reachable in a Poly/Cond (transitively)"""
    if acc is None:
        acc = set()
    if isinstance(x, Cond):
        if x.k == 'c':
            return acc
        if isinstance(x.p, tuple):
            for y in x.p:
                deps(y, acc)
            return acc
        return deps(x.p, acc)
    if isinstance(x, Poly):
        for m, _ in x.t:
            for i in m:
                a = _alist[i]
                if a not in acc:
                    acc.add(a)
                    for y in a.args:
                        if isinstance(y, (Poly, Cond)):
                            deps(y, acc)
    return acc


def substitute(x, f, memo=None):
    """rebuild x replacing atoms by polys: f(atom)-> Poly or None"""
    if memo is None:
        memo = {}
    if isinstance(x, Cond):
        if x.k == 'c':
            return x
        if isinstance(x.p, tuple):
            return Cond(x.k, tuple(substitute(y, f, memo) for y in x.p), x.neg)
        p = substitute(x.p, f, memo)
        if x.k == 'eq':
            c = ceq(p, ZERO)
            return cnot(c) if x.neg else c
        return cle(p, ZERO)
    hit = memo.get(x)
    if hit is not None:
        return hit
    res = ZERO
    changed = False
    for m, c in x.t:
        q = None
        for i in m:
            a = _alist[i]
            r = _subatom(a, f, memo)
            if r is not None:
                changed = True
            v = r if r is not None else var(a)
            q = v if q is None else mul(q, v)
        t = const(c) if q is None else scale(q, c)
        res = add(res, t)
    r = res if changed else x
    memo[x] = r
    return r


def _subatom(a, f, memo):
    key = ('a', a.id)
    if key in memo:
        return memo[key]
    r = f(a)
    if r is None:
        na = []
        ch = False
        for y in a.args:
            if isinstance(y, (Poly, Cond)):
                z = substitute(y, f, memo)
                ch |= z != y
                na.append(z)
            else:
                na.append(y)
        if ch:
            r = rebuild(a, tuple(na))
    memo[key] = r
    return r


_rebuild_hook = {}


def rebuild(a, na):
    h = _rebuild_hook.get(a.kind)
    if h:
        r = h(a, na)
        if r is not None:
            return r
    if a.kind == 'b2i':
        c = na[0]
        if c.k == 'c':
            return ONE if c.p else ZERO
    return var(atom(a.kind, na, a.bits, a.lo, a.hi, a.isptr, a.flags))


# ----------------------------------------------------------- random interpretation
class Env:
    """One interpretation of all atoms: consistent random values, used only to
    *refute* equality of two terms (random interpretation)."""

    def __init__(s, seed, mode):
        s.r = random.Random(seed)
        s.seed = seed
        s.mode = mode
        s.fix = {}
        s.memo = {}
        s.ldtab = {}
        s.apptab = {}

    def pick(s, a):
        lo, hi = a.lo, a.hi
        if a.kind == 'rgn' or a.isptr:
            return s.r.randrange(1, 1 << 20) * (1 << 40) + 16 * s.r.randrange(64)
        m = s.mode
        if m == 'small':
            l, h = -3, 6
        elif m == 'mid':
            l, h = -500, 3000
        else:
            l, h = ((-(1 << 45), 1 << 45) if a.bits >= 64 else (-(1 << 18), 1 << 18))
        if s.r.random() < 0.25:
            l, h = -2, 3
        if lo is not None and lo > l:
            l, h = lo, max(h, lo + (h - l if h > l else 8))
        if hi is not None and hi < h:
            h = hi
            l = min(l, h) if lo is None else max(lo, min(l, h))
        m = 1 << (a.bits - 1 if a.bits and a.bits <= 64 else 63)
        l, h = max(l, -m), min(h, 2 * m - 1 if lo is not None and lo >= 0 and hi is not None and hi >= m else m - 1)
        if l > h:
            l, h = (lo if lo is not None else h), (hi if hi is not None else l)
        return s.r.randint(l, h)

    def atom(s, a):
        v = s.fix.get(a)
        if v is not None:
            return v
        v = s.memo.get(a)
        if v is not None:
            return v
        k = a.kind
        if k == 'ld':
            key = (s.poly(a.args[0]), a.args[1], a.args[2])
            if key not in s.ldtab:
                s.ldtab[key] = s.pick(a)
            v = s.ldtab[key]
        elif k == 'app':
            key = (a.args[0],) + tuple(s.poly(x) for x in a.args[1:])
            if key not in s.apptab:
                s.apptab[key] = s.pick(a)
            v = s.apptab[key]
        elif k == 'op':
            v = evop(a.args[0], [s.poly(x) for x in a.args[1:]], a)
        elif k == 'b2i':
            v = int(s.cond(a.args[0]))
        elif k == 'fp':
            v = evfp(a.args[0], [s.poly(x) if isinstance(x, Poly) else x for x in a.args[1:]])
        else:
            v = s.pick(a)
        s.memo[a] = v
        return v

    def poly(s, p):
        t = 0
        for m, c in p.t:
            q = c
            for i in m:
                q *= s.atom(_alist[i])
            t += q
        return t

    def cond(s, c):
        if c.k == 'c':
            return c.p
        if c.k == 'eq':
            return (s.poly(c.p) == 0) != c.neg
        if c.k == 'le':
            return s.poly(c.p) <= 0
        if c.k == 'ult':
            a, b = s.poly(c.p[0]) % (1 << 64), s.poly(c.p[1]) % (1 << 64)
            return (a < b) != c.neg
        raise ArithmeticError(c.k)


class NoVal(Exception):
    pass


class Fp(float):
    """a floating point value: no exact comparison"""


def evfp(op, v):
    if op == 'const':
        t = str(v[0])
        if t.startswith('0x'):
            if t[2:3] in 'KLMHR':
                raise NoVal()
            return Fp(struct.unpack('>d', int(t, 16).to_bytes(8, 'big'))[0])
        return Fp(t)
    if not all(isinstance(x, (int, float)) for x in v):
        raise NoVal()
    try:
        if op in ('sitofp', 'fpext'):
            return Fp(v[0])
        if op == 'fadd':
            return Fp(v[0] + v[1])
        if op == 'fsub':
            return Fp(v[0] - v[1])
        if op == 'fmul':
            return Fp(v[0] * v[1])
        if op == 'fdiv':
            return Fp(v[0] / v[1])
        if op == 'fneg':
            return Fp(-v[0])
    except (ZeroDivisionError, OverflowError):
        pass
    raise NoVal()


def differ(a, b):
    """two values that no rounding makes equal"""
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) > 1e-6 * max(1e-3, abs(a), abs(b))
    return a != b


def evop(name, v, a):
    if name in ('sdiv', 'srem', 'udiv', 'urem'):
        x, y = v
        if y == 0:
            raise NoVal()
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q if name.endswith('div') else x - q * y
    if name == 'trunc':
        b = v[1]
        x = v[0] & ((1 << b) - 1)
        return x - (1 << b) if x >> (b - 1) else x
    if name == 'zext':
        return v[0] & ((1 << v[1]) - 1)
    if name == 'and':
        return v[0] & v[1]
    if name == 'or':
        return v[0] | v[1]
    if name == 'xor':
        return v[0] ^ v[1]
    if name == 'shl':
        if not 0 <= v[1] < 64:
            raise NoVal()
        return v[0] << v[1]
    if name == 'ashr':
        if not 0 <= v[1] < 64:
            raise NoVal()
        return v[0] >> v[1]
    if name == 'lshr':
        if not 0 <= v[1] < 64:
            raise NoVal()
        return (v[0] & ((1 << a.bits) - 1)) >> v[1]
    if name == 'min':
        return min(v)
    if name == 'max':
        return max(v)
    raise NoVal()
