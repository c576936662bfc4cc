"""Trace-partitioned abstract interpretation of LLVM IR.

Values are symbolic normal forms (terms.py); memory is a log of abstract
stores resolved by value-numbered addresses; undecided branches partition the
abstract state; loops are summarised once per loop by a generic iteration
(induction variables solved in closed form, other loop-carried values
abstracted, element-wise stores turned into quantified 'fill' stores).  Nothing
is executed and no path is handed to a solver."""
import time
import sys
from terms import *
import terms as T
from irparse import find_loops, succs

sys.setrecursionlimit(20000)


class Imprecise(Exception):
    """the analysis gives up on this query (never a violation)"""


class State:
    __slots__ = ('mem', 'facts', 'sub', 'rng', 'neq', 'ev', 'freed', 'forall', 'accs', 'dead', '_nm', 'meta')

    def __init__(s):
        s.mem = None
        s.facts = ()
        s.sub = {}
        s.rng = {}
        s.neq = frozenset()
        s.ev = None          # (event, prev)
        s.freed = frozenset()
        s.forall = ()
        s.accs = ()
        s.dead = False
        s._nm = {}
        s.meta = {}

    def copy(s):
        n = State()
        n.mem, n.facts, n.sub, n.rng, n.neq = s.mem, s.facts, s.sub, s.rng, s.neq
        n.ev, n.freed, n.forall, n.accs = s.ev, s.freed, s.forall, s.accs
        n._nm = s._nm
        n.meta = dict(s.meta)
        return n

    def bump(s, name):
        k = ('cnt', name)
        s.meta = dict(s.meta)
        s.meta[k] = s.meta.get(k, 0) + 1
        return s.meta[k]

    # ---- normal form under the equalities known in this state
    def norm(s, x):
        if not s.sub:
            return x
        r = s._nm.get(x)
        if r is not None:
            return r
        y = x
        for _ in range(12):
            z = substitute(y, s.sub.get)
            if z == y:
                break
            y = z
        s._nm[x] = y
        return y

    # ---- intervals
    def arange(s, a):
        lo, hi = a.lo, a.hi
        p = var(a)
        r = s.rng.get(p)
        if r:
            lo = r[0] if lo is None else (lo if r[0] is None else max(lo, r[0]))
            hi = r[1] if hi is None else (hi if r[1] is None else min(hi, r[1]))
        if a.kind == 'op':
            n = a.args[0]
            if n in ('srem', 'urem'):
                xl, xh = s.interval(a.args[1])
                yl, yh = s.interval(a.args[2])
                if xl is not None and xl >= 0:
                    lo = max(lo or 0, 0)
                    if yl is not None and yl > 0 and yh is not None:
                        hi = yh - 1 if hi is None else min(hi, yh - 1)
                    if xh is not None:
                        hi = xh if hi is None else min(hi, xh)
                elif n == 'srem' and yl is not None and yh is not None:
                    m = max(abs(yl), abs(yh)) - 1
                    lo = -m if lo is None else max(lo, -m)
                    hi = m if hi is None else min(hi, m)
            elif n in ('sdiv', 'udiv'):
                xl, xh = s.interval(a.args[1])
                yl, yh = s.interval(a.args[2])
                if xl is not None and xl >= 0 and yl is not None and yl > 0:
                    lo = max(lo or 0, 0)
                    if xh is not None:
                        h = xh // yl
                        hi = h if hi is None else min(hi, h)
            elif n == 'ashr' and a.args[2].isconst():
                xl, xh = s.interval(a.args[1])
                k = a.args[2].cval()
                if xl is not None:
                    lo = xl >> k if lo is None else max(lo, xl >> k)
                if xh is not None:
                    hi = xh >> k if hi is None else min(hi, xh >> k)
            elif n == 'and':
                for q in a.args[1:]:
                    if q.isconst() and q.cval() >= 0:
                        lo = max(lo or 0, 0)
                        hi = q.cval() if hi is None else min(hi, q.cval())
        elif a.kind == 'b2i':
            lo, hi = 0, 1
        return lo, hi

    def interval(s, p):
        if p.isconst():
            c = p.cval()
            return c, c
        lo = hi = 0
        for m, c in p.t:
            if m == ():
                l = h = c
            else:
                l, h = s.mono(m)
                if c > 0:
                    l = None if l is None else l * c
                    h = None if h is None else h * c
                else:
                    l, h = (None if h is None else h * c), (None if l is None else l * c)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        nc = p.nonconst()
        c0 = p.const()
        k = T._canon_sign(nc)
        r = s.rng.get(k)
        if r:
            rl, rh = r
            if k != nc:
                rl, rh = (None if rh is None else -rh), (None if rl is None else -rl)
            if rl is not None and (lo is None or rl + c0 > lo):
                lo = rl + c0
            if rh is not None and (hi is None or rh + c0 < hi):
                hi = rh + c0
        return lo, hi

    def mono(s, m):
        l, h = s.arange(T._alist[m[0]])
        for i in m[1:]:
            l2, h2 = s.arange(T._alist[i])
            if l is not None and l2 is not None and l >= 0 and l2 >= 0:
                l, h = l * l2, (None if h is None or h2 is None else h * h2)
            elif None in (l, h, l2, h2):
                return None, None
            else:
                v = [l * l2, l * h2, h * l2, h * h2]
                l, h = min(v), max(v)
        if len(m) == 2 and m[0] == m[1]:
            l = max(0, l or 0)
        return l, h

    # ---- decide
    def decide(s, c, deep=True):
        c = s.norm(c)
        if c.k == 'c':
            return c.p
        if c.k == 'eq':
            r = s._deceq(c.p, deep)
            return None if r is None else (r != c.neg)
        if c.k == 'le':
            return s._decle(c.p, deep)
        if c.k == 'ult':
            a, b = c.p
            al, ah = s.interval(a)
            bl, bh = s.interval(b)
            if al is not None and bl is not None and al >= 0 and bl >= 0:
                r = s.decide(clt(a, b))
                return None if r is None else (r != c.neg)
            if c in s.facts:
                return True
            if cnot(c) in s.facts:
                return False
        return None

    def _deceq(s, p, deep):
        lo, hi = s.interval(p)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
        if p in s.neq:
            return False
        # object identity
        if ptrdistinct(s, p):
            return False
        # an address moved by a varying offset stays inside its object: it is
        # neither null nor one of the special values
        if len(p.nonconst().t) > 1 and abs(p.const()) <= 4096:
            ps = [(m, c) for m, c in p.t if len(m) == 1 and T._alist[m[0]].isptr]
            if len(ps) == 1 and abs(ps[0][1]) == 1 and not any(T._alist[i].isptr or T._alist[i].kind == 'rgn' for m, c in p.t if m != ps[0][0] for i in m):
                return False
        if deep:
            if s._decle(p, False) is False or s._decle(scale(p, -1), False) is False:
                return False
            # factor:  c*x*y == 0 with x,y != 0
            if len(p.t) == 1 and len(p.t[0][0]) > 1:
                if all(s._deceq(T.var(T._alist[i]), False) is False for i in p.t[0][0]):
                    return False
        return None

    def _decle(s, p, deep):
        lo, hi = s.interval(p)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        if not deep:
            return None
        q = sub(ONE, p)          # not(p<=0)  <=>  q <= 0
        da = {a for a in p.atoms()}
        fs = s.lefacts(da)
        # also multiply linear facts by nonnegative atoms occurring in products
        for tgt, res in ((p, True), (q, False)):
            # monomials without an upper bound must be cancelled by the facts
            U, ms = set(), set()
            for m, c in tgt.t:
                if m == ():
                    continue
                ms.add(m)
                l, h = s.mono(m)
                if (h if c > 0 else l) is None:
                    U.add(m)
            need = U or ms
            cand = []
            for f in fs:
                fm = {m for m, _ in f.t}
                if not fm & need:
                    continue
                cand.append((f, fm))
                if U <= fm:
                    l, h = s.interval(sub(tgt, f))
                    if h is not None and h <= 0:
                        return res
            if len(fs) <= 24:
                for i, (f, fm) in enumerate(cand):
                    d0 = sub(tgt, f)
                    # what is left to cancel, including what f brought in
                    left = set()
                    for m, c in d0.t:
                        if m != ():
                            l, h = s.mono(m)
                            if (h if c > 0 else l) is None:
                                left.add(m)
                    for g in fs:
                        gm = {m for m, _ in g.t}
                        if not left <= gm or not left and not gm & ms:
                            continue
                        l, h = s.interval(sub(d0, g))
                        if h is not None and h <= 0:
                            return res
        return None

    def lefacts(s, da):
        """facts f with f <= 0 that may help on atoms da"""
        out = []
        for k, (lo, hi) in s.rng.items():
            if len(k.t) == 1 and len(k.t[0][0]) == 1:
                continue
            if hi is not None:
                out.append(sub(k, const(hi)))
            if lo is not None:
                out.append(sub(const(lo), k))
        for a in list(da):
            if a.kind == 'op' and a.args[0] in ('srem', 'urem'):
                xl, _ = s.interval(a.args[1])
                yl, _ = s.interval(a.args[2])
                if xl is not None and xl >= 0 and yl is not None and yl > 0:
                    out.append(add(sub(var(a), a.args[2]), ONE))
        # products: fact f<=0 times atom>=0 for degree-2 monomials
        extra = []
        for f in out:
            if all(len(m) <= 1 for m, _ in f.t):
                for a in da:
                    l, h = s.arange(a)
                    if l is not None and l >= 0 and not a.isptr:
                        extra.append(mul(f, var(a)))
        return out + extra[:40]

    # ---- assume: returns False when contradictory
    def assume(s, c):
        c = s.norm(c)
        if c.k == 'c':
            if not c.p:
                s.dead = True
            return c.p
        r = s.decide(c)
        if r is False:
            s.dead = True
            return False
        s.facts = s.facts + (c,)
        if r is True and c.k != 'eq':
            return True
        if c.k == 'eq' and not c.neg:
            return s._asseq(c.p)
        if c.k == 'eq':
            return s._assne(c.p)
        if c.k == 'le':
            return s._assle(c.p)
        return True

    def _asseq(s, p):
        best = None
        for m, k in p.t:
            if len(m) == 1 and k in (1, -1):
                a = T._alist[m[0]]
                if a.kind == 'rgn':
                    continue
                rest = sub(p, scale(var(a), k))
                if a in deps(rest):
                    continue
                score = {'ld': 3, 'app': 3, 'sym': 3, 'unk': 4, 'op': 1, 'b2i': 1}.get(a.kind, 0)
                score = (score, a.id)
                if best is None or score > best[0]:
                    best = (score, a, scale(rest, -k))
        if best is None:
            s.rng = dict(s.rng)
            s.rng[T._canon_sign(p.nonconst())] = (0, 0) if not p.const() else ((-p.const(),) * 2 if T._canon_sign(p.nonconst()) == p.nonconst() else (p.const(),) * 2)
            return True
        _, a, v = best
        lo, hi = s.arange(a)
        vl, vh = s.interval(v)
        if (lo is not None and vh is not None and vh < lo) or (hi is not None and vl is not None and vl > hi):
            s.dead = True
            return False
        oldrng, oldneq = s.rng, s.neq
        s.sub = dict(s.sub)
        s.sub[a] = v
        s._nm = {}
        # keep the eliminated atom's bounds on its definition
        if not v.isconst():
            s.rng = dict(s.rng)
        todo = []
        f = {a: v}.get
        nr = {}
        for k, (l, h) in oldrng.items():
            k2 = substitute(k, f) if a in deps(k) else k
            if k2 is k or k2 == k:
                nr[k] = (l, h)
            else:
                todo.append((k2, l, h))
        s.rng = nr
        nn = set()
        for q in oldneq:
            q2 = substitute(q, f) if a in deps(q) else q
            if q2.isconst():
                if q2.cval() == 0:
                    s.dead = True
                    return False
                continue
            nn.add(T._canon_sign(q2))
        s.neq = frozenset(nn)
        for k2, l, h in todo:
            if h is not None and not s._assle(sub(k2, const(h))):
                return False
            if l is not None and not s._assle(sub(const(l), k2)):
                return False
        if not v.isconst() and not v.single():
            if hi is not None and a.kind != 'rgn' and not s._assle(sub(v, const(hi))):
                return False
            if lo is not None and not s._assle(sub(const(lo), v)):
                return False
        elif v.single() and not a.isptr:
            b = v.single()
            if hi is not None and (b.hi is None or b.hi > hi) and not s._assle(sub(v, const(hi))):
                return False
            if lo is not None and (b.lo is None or b.lo < lo) and not s._assle(sub(const(lo), v)):
                return False
        for q in list(s.neq):
            if s._deceq0(q):
                s.dead = True
                return False
        return True

    def _deceq0(s, p):
        lo, hi = s.interval(p)
        return lo == 0 and hi == 0

    def _assne(s, p):
        p = T._canon_sign(p)
        s.neq = s.neq | {p}
        lo, hi = s.interval(p)
        if lo == 0:
            return s._assle(sub(ONE, p))
        if hi == 0:
            return s._assle(add(p, ONE))
        return True

    def _assle(s, p):
        p = s.norm(p)
        if p.isconst():
            if p.cval() > 0:
                s.dead = True
            return p.cval() <= 0
        nc = p.nonconst()
        bound = -p.const()       # nc <= bound
        g = 0
        from math import gcd
        for m, c in nc.t:
            g = gcd(g, abs(c))
        if g > 1:
            nc = Poly(tuple((m, c // g) for m, c in nc.t))
            bound = bound // g
        k = T._canon_sign(nc)
        s.rng = dict(s.rng)
        lo, hi = s.rng.get(k, (None, None))
        if k == nc:
            hi = bound if hi is None else min(hi, bound)
        else:
            lo = -bound if lo is None else max(lo, -bound)
        s.rng[k] = (lo, hi)
        l, h = s.interval(k)
        if l is not None and h is not None:
            if l > h:
                s.dead = True
                return False
            if l == h:
                return s._asseq(sub(k, const(l))) if not s.norm(k).isconst() else True
        # disequality at an end point
        ch = True
        while ch:
            ch = False
            l, h = s.interval(k)
            if l is not None and T._canon_sign(sub(k, const(l))) in s.neq:
                s.rng[k] = (l + 1, s.rng[k][1])
                ch = True
            elif h is not None and T._canon_sign(sub(k, const(h))) in s.neq:
                s.rng[k] = (s.rng[k][0], h - 1)
                ch = True
            if ch:
                l, h = s.interval(k)
                if l is not None and h is not None and l > h:
                    s.dead = True
                    return False
        return True

    # ---- event / memory logs
    def event(s, *e):
        s.ev = (e, s.ev)

    def events(s, upto=None):
        out = []
        e = s.ev
        while e is not None and e is not upto:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out

    def log(s, upto=None):
        out = []
        m = s.mem
        while m is not None and m is not upto:
            out.append(m[0])
            m = m[1]
        out.reverse()
        return out


def base_of(p):
    """(base atom, offset poly) of an address; base None when absolute"""
    cands = []
    for m, c in p.t:
        if len(m) == 1 and c == 1:
            a = T._alist[m[0]]
            if a.kind == 'rgn' or a.isptr:
                cands.append(a)
    if len(cands) == 1:
        return cands[0], sub(p, var(cands[0]))
    if not cands:
        # single linear atom of 64 bits acts as pointer
        c2 = [T._alist[m[0]] for m, c in p.t if len(m) == 1 and c == 1 and T._alist[m[0]].bits == 64 and T._alist[m[0]].kind in ('ld', 'app', 'unk', 'sym')]
        if len(c2) == 1:
            return c2[0], sub(p, var(c2[0]))
        return None, p
    rg = [a for a in cands if a.kind == 'rgn']
    if len(rg) == 1:
        return rg[0], sub(p, var(rg[0]))
    return None, p


def isobj(a):
    """atoms that denote the base address of an allocated object (non null)"""
    return a is not None and (a.kind == 'rgn' or 'obj' in a.flags)


def ptrdistinct(s, p):
    """p == 0 impossible because it compares addresses of different objects,
    or an object's address with null"""
    pos = [T._alist[m[0]] for m, c in p.t if len(m) == 1 and c == 1]
    neg = [T._alist[m[0]] for m, c in p.t if len(m) == 1 and c == -1]
    po = [a for a in pos if isobj(a)]
    no = [a for a in neg if isobj(a)]
    rest = [m for m, c in p.t if m != () and not (len(m) == 1 and c in (1, -1) and isobj(T._alist[m[0]]))]
    if len(po) == 1 and len(no) == 1 and not rest:
        a, b = po[0], no[0]
        if a.kind == 'rgn' or b.kind == 'rgn':
            return True
        if a.kind == b.kind == 'app' and a.args[0] == b.args[0]:
            return any(s.decide(ceq(x, y)) is False for x, y in zip(a.args[1:], b.args[1:]))
        return True
    if len(po) + len(no) == 1 and not rest:
        return -4096 < p.const() < 1 << 40 if po else -(1 << 40) < p.const() < 4096
    return False


def samebase(s, a, b):
    """True / False(distinct objects) / None"""
    if a is b:
        return True
    if isobj(a) and isobj(b):
        if a.kind == b.kind == 'app' and a.args[0] == b.args[0]:
            d = [s.decide(ceq(x, y)) for x, y in zip(a.args[1:], b.args[1:])]
            if all(x is True for x in d):
                return True
            if any(x is False for x in d):
                return False
            return False      # assumption: differently named handles are distinct objects
        return False
    return False              # assumption: distinct access paths, distinct objects


class LoopEv:
    """summary of one loop"""

    def __init__(s):
        s.loc = s.kappa = s.upper = None
        s.iters = []        # IterTrace for back edges
        s.terms = []        # terminal traces inside the loop (abort etc.)
        s.phis = []
        s.fn = None
        s.exits = 0

    def __repr__(s):
        return 'Loop@%s:%s κ<%r iters=%d' % (s.loc[0], s.loc[1], s.upper, len(s.iters))


class Iter:
    def __init__(s):
        s.facts = ()
        s.events = []
        s.writes = []      # st entries
        s.st = None
        s.kind = None


class Leaf:
    __slots__ = ('kind', 'st', 'env', 'block', 'prev', 'val', 'loc')

    def __init__(s, kind, st, env=None, block=None, prev=None, val=None, loc=None):
        s.kind, s.st, s.env, s.block, s.prev, s.val, s.loc = kind, st, env, block, prev, val, loc


class Frame:
    def __init__(s, f, depth, chain):
        s.f = f
        s.loops = find_loops(f)
        s.depth = depth
        s.chain = chain


OUTFN = {'printf': 0, 'puts': None, 'putchar': None, 'fprintf': 1, 'fputs': None, 'perror': None, 'fputc': None, 'fwrite': None, 'vfprintf': 1, 'vprintf': 0, 'putc': None, 'write': None}

STREAM = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3}


def told(events):
    """something is written to standard error (or to a stream not known here)"""
    for e in events:
        if e[0] == 'out':
            n, args = e[1], e[3]
            if n in ('printf', 'puts', 'putchar', 'vprintf'):
                continue
            if n == 'write' and args and args[0].isconst() and args[0].cval() != 2:
                continue
            k = STREAM.get(n)
            if k is not None and k < len(args) and repr(args[k]).startswith('mem[@stdout'):
                continue
            return True
        if e[0] == 'loop' and any(told(it.events) for it in e[1].iters):
            return True
    return False


class Engine:
    def __init__(s, mod, contracts=None, const_globals=True):
        s.m = mod
        s.contracts = dict(contracts or {})
        s.rinfo = {}        # rgn atom -> dict(kind, size, ...)
        s.budget = 60000
        s.maxdepth = 24
        s.fnvisited = set()
        s.deadline = None
        s.calledc = set()
        s.nbranch = 0
        s.nstate = 0
        s.nloops = 0
        s.stuck = []
        s.unroll = 20
        s.written_globals = None
        s.ginit = set()     # names of non-const globals whose initialiser is taken as content

    # ------------------------------------------------------------ regions
    def region(s, name, kind, size=None, uninit=False):
        a = atom('rgn', (name,), 64, 4096, None, True, ())
        s.rinfo[a] = dict(kind=kind, size=size, uninit=uninit)
        return var(a)

    def newregion(s, name, kind, size=None, uninit=True):
        T._uniq[0] += 1
        return s.region('%s#%d' % (name, T._uniq[0]), kind, size, uninit)

    def newobj(s, st, name, kind, size, uninit=True):
        """object created on this path, named by its ordinal so that two
        analyses of equivalent code use the same name"""
        n = st.bump(name)
        n = s.objperm.get(name, {}).get(n, n)
        a = atom('rgn', ('%s%d' % (name, n),), 64, 4096, None, True, ())
        s.rinfo.setdefault(a, dict(kind=kind, size=None, uninit=uninit))
        st.meta = dict(st.meta)
        st.meta[('size', a)] = size
        return var(a)

    def freshn(s, st, name, **kw):
        n = st.bump('ret:' + name)
        return sym('%s()%d' % (name, n), **kw)

    def rsize(s, st, base):
        z = st.meta.get(('size', base))
        if z is not None:
            return z
        ri = s.rinfo.get(base)
        return ri.get('size') if ri else None

    def gaddr(s, name):
        if name in s.m.funcs or name in s.m.decls:
            a = atom('rgn', ('fn:' + name,), 64, 4096, None, True, ())
            s.rinfo.setdefault(a, dict(kind='fn', size=None, uninit=False))
            return var(a)
        g = s.m.globals.get(name)
        if g is not None and g.const and g.internal and g.init is not None and g.init[0] == 'str':
            a = atom('rgn', ('@%r' % (g.init[1],),), 64, 4096, None, True, ())
        else:
            a = atom('rgn', ('@' + name,), 64, 4096, None, True, ())
        if a not in s.rinfo:
            s.rinfo[a] = dict(kind='global', size=const(s.m.size(g.ty)) if g is not None and s.m.res(g.ty).k != 'opaque' else None, uninit=False, g=g)
        return var(a)

    # ------------------------------------------------------------ values
    def val(s, st, env, v, ty):
        k = v[0]
        if k == 'i':
            return const(v[1])
        if k == 'v':
            return env[v[1]]
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'g':
            return s.gaddr(v[1])
        if k == 'undef':
            return var(atom('uninit', ('undef',), 64))
        if k == 'gep':
            vals = [(t, s.val(st, env, x, t)) for t, x in v[2]]
            return s.gep(v[1], vals)
        if k == 'cast':
            x = s.val(st, env, v[3], v[2])
            return x
        if k == 'bin':
            a, b = s.val(st, env, v[2], ty), s.val(st, env, v[3], ty)
            return {'add': add, 'sub': sub, 'mul': mul}[v[1]](a, b)
        if k == 'fp':
            return var(atom('fp', ('const', v[1])))
        raise Imprecise('value %r' % (v,))

    def gep(s, bt, vals):
        p = vals[0][1]
        p = add(p, scale(vals[1][1], s.m.size(bt))) if len(vals) > 1 else p
        t = bt
        for ty, i in vals[2:]:
            t = s.m.res(t)
            if t.k == 'struct':
                n = i.cval()
                p = add(p, const(s.m.foff(t, n)))
                t = t.fields[n]
            else:
                t = t.elem
                p = add(p, scale(i, s.m.size(t)))
        return p

    # ------------------------------------------------------------ memory
    def load(s, st, addr, size, ty=None, raw=False):
        addr = st.norm(addr)
        bits = size * 8
        isptr = ty is not None and ty.k == 'ptr'
        base, off = base_of(addr)
        m = st.mem
        while m is not None:
            e = m[0]
            m = m[1]
            k = e[0]
            if k == 'st':
                ea = st.norm(e[1])
                d = sub(addr, ea)
                if d.isconst():
                    dv = d.cval()
                    if dv == 0 and e[2] == size:
                        return st.norm(e[3])
                    if -size < dv < e[2]:
                        if e[3].isconst() and dv >= 0 and dv + size <= e[2]:
                            v = (e[3].cval() >> (8 * dv)) & ((1 << bits) - 1)
                            return const(v - (1 << bits) if v >> (bits - 1) and bits < 64 else v)
                        if dv == 0 and size < e[2]:
                            # the low part of what was stored
                            x = st.norm(e[3])
                            lo, hi = st.interval(x)
                            if lo is not None and hi is not None and lo >= -(1 << (bits - 1)) and hi < 1 << (bits - 1):
                                return x
                            return var(atom('op', ('trunc', x, const(bits)), bits))
                        return unk('overlap', bits)
                    continue
                eb, eo = base_of(ea)
                if base is not None and eb is not None and samebase(st, base, eb) is False:
                    continue
                if base is None or eb is None:
                    if base is None and eb is None and False:
                        pass
                    continue
                # same object, symbolic distance
                if st.decide(cle(const(e[2]), d)) or st.decide(cle(add(d, const(size)), ZERO)):
                    continue
                dd = sub(off, eo)
                if st.decide(ceq(dd, ZERO)) is True and e[2] == size:
                    return st.norm(e[3])
                if st.decide(ceq(dd, ZERO)) is False and s.samestride(dd, size, e[2]):
                    continue
                if e[2] == size:
                    s.split = ceq(dd, ZERO)
                return unk('mayalias %r vs %r' % (addr, ea), bits)
            elif k == 'fill':
                _, fa, fsz, fv, kb, up, step = e[:7]
                fa0 = st.norm(substitute(fa, {kb: ZERO}.get))
                eb, eo = base_of(fa0)
                if base is None or eb is None or samebase(st, base, eb) is False:
                    continue
                d = st.norm(sub(addr, fa0))
                q = polydiv(d, step)
                if q is not None:
                    if st.decide(cle(up, q)) is True or st.decide(clt(q, ZERO)) is True:
                        continue
                    if fsz == size and st.decide(clt(q, up)) is True and st.decide(cle(ZERO, q)) is True:
                        if fv is None:
                            und = None
                            for cs, v in (e[7] or ()):
                                r = True
                                for c in cs:
                                    c = substitute(c, {kb: q}.get)
                                    d1 = st.decide(c)
                                    if d1 is False:
                                        r = False
                                        break
                                    if d1 is None:
                                        r = None
                                        und = und if und is not None else c
                                if r is True:
                                    return st.norm(substitute(v, {kb: q}.get))
                            s.split = und
                            if und is None and e[7]:
                                s.split = 'dead'     # no iteration can have run so
                            return unk('guarded fill', bits)
                        return st.norm(substitute(fv, {kb: q}.get))
                    if fsz == size and (fv is not None or e[7]):
                        s.split = s.undecided(st, clt(q, ZERO), clt(q, up))
                    return unk('fill?' if fsz == size else 'overlap', bits)
                # constant offset inside stride that misses the field
                sc = step.cval() if step.isconst() else None
                if sc and sc > 0 and st.decide(cle(add(d, const(size)), ZERO)) is True:
                    continue        # below the first element
                if sc:
                    ok = True
                    for mm, c in d.t:
                        if mm != () and c % sc:
                            ok = False
                    if ok:
                        r = d.const() % abs(sc)
                        if r >= fsz and r + size <= abs(sc):
                            continue
                return unk('fill??', bits)
            elif k == 'cp':
                _, da, sa, n, smem = e[:5]
                d = st.norm(sub(addr, da))
                eb, _ = base_of(st.norm(da))
                if eb is not None and base is not None and samebase(st, base, eb) is False:
                    continue
                if st.decide(cle(ZERO, d)) is True and st.decide(cle(add(d, const(size)), n)) is True:
                    t2 = st.copy()
                    t2.mem = smem
                    return s.load(t2, add(sa, d), size, ty)
                if st.decide(cle(add(d, const(size)), ZERO)) is True or st.decide(cle(n, d)) is True:
                    continue
                s.split = s.undecided(st, clt(d, ZERO), clt(d, n))
                return unk('copy', bits)
            elif k == 'set':
                _, da, b, n = e[:4]
                d = st.norm(sub(addr, da))
                eb, _ = base_of(st.norm(da))
                if eb is not None and base is not None and samebase(st, base, eb) is False:
                    continue
                if st.decide(cle(ZERO, d)) is True and st.decide(cle(add(d, const(size)), n)) is True:
                    bv = st.norm(b)
                    if bv.isconst():
                        x = bv.cval() & 255
                        v = 0
                        for _i in range(size):
                            v = v << 8 | x
                        return const(v - (1 << bits) if v >> (bits - 1) else v)
                    return unk('set', bits)
                if st.decide(cle(add(d, const(size)), ZERO)) is True or st.decide(cle(n, d)) is True:
                    continue
                s.split = s.undecided(st, clt(d, ZERO), clt(d, n))
                return unk('set', bits)
            elif k == 'hv':
                r = e[1](st, addr, base, off, size)
                if r is True:
                    return unk('havoc ' + str(e[2]), bits)
                if r:
                    if isptr:
                        r.single().isptr = True
                    return st.norm(r)
            elif k == 'ver':
                pass
        return s.initial(st, addr, base, off, size, isptr)

    split = None
    nsplit = 0

    def splitbool(s, st, d):
        """a comparison between truth values: decide them first"""
        d = st.norm(d)
        bs = [T._alist[i] for m, _ in d.t for i in m if T._alist[i].kind == 'b2i']
        if not bs or len(d.t) - (1 if d.const() else 0) < 2:
            return [st]
        b = bs[0]
        out = []
        for c, v in ((b.args[0], ONE), (cnot(b.args[0]), ZERO)):
            s2 = st.copy()
            if s2.assume(c):
                s2.sub = dict(s2.sub)
                s2.sub[b] = v
                s2._nm = {}
                out += s.splitbool(s2, substitute(d, {b: v}.get))
        return out or [st]

    def undecided(s, st, *conds):
        for c in conds:
            if st.decide(c) is None:
                return c
        return None

    def loadsplit(s, st, addr, size, ty=None, depth=4):
        """load, forking the state on aliasing questions that decide the value"""
        s.split = None
        v = s.load(st, addr, size, ty)
        c = s.split
        s.split = None
        a = v.single()
        if isinstance(c, str):
            st.dead = True
            return []
        if c is None or a is None or a.kind != 'unk' or depth == 0 or s.nsplit > 400:
            return [(st, v)]
        s.nsplit += 1
        out = []
        for cc in (c, cnot(c)):
            s2 = st.copy()
            if s2.assume(cc):
                out += s.loadsplit(s2, addr, size, ty, depth - 1)
        return out

    def samestride(s, dd, sz, esz):
        """dd != 0 and all its coefficients are multiples of the access size"""
        return all(c % max(sz, esz) == 0 for _, c in dd.t)

    def initial(s, st, addr, base, off, size, isptr):
        bits = size * 8
        if base is not None and base.kind == 'rgn':
            ri = s.rinfo.get(base)
            if ri:
                if ri.get('uninit'):
                    return var(atom('uninit', (repr(base), addr, size), bits, isptr=isptr))
                g = ri.get('g')
                if g is not None and (g.const or g.name in s.ginit) and g.init is not None:
                    if off.isconst():
                        v = s.ginitval(g.ty, g.init, off.cval(), size)
                        if v is not None:
                            return v
        return var(atom('ld', (addr, size, 0), bits, isptr=isptr))

    def ginitval(s, ty, init, off, size):
        t = s.m.res(ty)
        if init[0] == 'zero':
            return ZERO if 0 <= off and off + size <= s.m.size(t) else None
        if init[0] == 'undef':
            return ZERO if 0 <= off and off + size <= s.m.size(t) else None
        if t.k in ('int', 'ptr'):
            if off == 0 and size == s.m.size(t):
                return s.val(None, {}, init, t)
            return None
        if init[0] == 'str':
            b = init[1]
            if 0 <= off and off + size <= len(b):
                v = int.from_bytes(b[off:off + size], 'little', signed=True)
                return const(v)
            return None
        if init[0] == 'agg':
            if t.k == 'arr':
                es = s.m.size(t.elem)
                i = off // es
                if 0 <= i < len(init[1]):
                    return s.ginitval(init[1][i][0], init[1][i][1], off - i * es, size)
            if t.k == 'struct':
                for i, (ft, fv) in enumerate(init[1]):
                    o = s.m.foff(t, i)
                    if o <= off < o + s.m.size(ft):
                        return s.ginitval(ft, fv, off - o, size)
        return None

    def check_access(s, st, addr, size, what, loc):
        """memory-safety events"""
        a = st.norm(addr)
        base, off = base_of(a)
        if a.isconst():
            st.event('nullderef', what, a, loc)
            return False
        if base is not None and base.kind == 'uninit':
            st.event('uninitptr', what, a, loc)
            return False
        if base is not None and base in st.freed:
            st.event('uaf', what, a, loc)
        if base is not None and base.kind == 'rgn':
            z = s.rsize(st, base)
            if z is not None:
                sz = st.norm(z)
                lo, hi = cle(ZERO, off), cle(add(off, const(size)), sz)
                if st.decide(lo) is False or st.decide(hi) is False:
                    st.event('oob', what, a, sz, size, loc)
                elif s.rinfo[base]['kind'] != 'fn':
                    for c in (lo, hi):
                        if not c.p.isconst() if c.k != 'c' else False:
                            if st.decide(c) is None:
                                st.event('mayoob', what, c, loc)
        return True

    def store(s, st, addr, size, v, loc):
        st.mem = (('st', st.norm(addr), size, v, loc), st.mem)

    # ------------------------------------------------------------ operators
    def binop(s, st, op, a, b, bits, flags):
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        a, b = st.norm(a), st.norm(b)
        return s.nop(st, op, a, b, bits)

    def nop(s, st, op, a, b, bits):
        ca, cb = a.isconst(), b.isconst()
        if ca and cb:
            try:
                aa = atom('op', (op, a, b), bits)
                return const(evop(op, [a.cval(), b.cval()], aa))
            except NoVal:
                return unk('op', bits)
        if op == 'shl' and cb and 0 <= b.cval() < 64:
            return scale(a, 1 << b.cval())
        lo, hi = st.interval(a)
        nonneg = lo is not None and lo >= 0
        if op in ('ashr', 'lshr') and cb and (op == 'ashr' or nonneg):
            k = 1 << b.cval()
            q, r = splitdiv(st, a, k)
            if q is not None:
                return q
            return s.mkop(st, 'ashr' if nonneg else op, a, b, bits)
        if op in ('and', 'or', 'xor') and ca and not cb:
            a, b, ca, cb = b, a, cb, ca
            lo, hi = st.interval(a)
            nonneg = lo is not None and lo >= 0
        if op in ('and', 'or', 'xor'):
            la, ha = lo, hi
            lb, hb = st.interval(b)
            if la is not None and la >= 0 and ha is not None and ha <= 1 and \
                    lb is not None and lb >= 0 and hb is not None and hb <= 1:
                # both are 0 or 1
                if cb:
                    k = b.cval()
                    return {'and': a if k else ZERO, 'or': ONE if k else a, 'xor': sub(ONE, a) if k else a}[op]
                c = cle(const(2), add(a, b)) if op == 'and' else cle(ONE, add(a, b)) if op == 'or' else cnot(ceq(a, b))
                return var(atom('b2i', (c,), 2, 0, 1)) if c.k != 'c' else const(int(c.p))
        if op == 'and' and cb:
            k = b.cval() + 1
            if k > 0 and (k & (k - 1)) == 0:
                q, r = splitdiv(st, a, k)
                if q is not None:
                    return r
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                l, h = st.interval(y)
                if l is not None and l >= 0 and h is not None:
                    k = 1
                    while k <= h:
                        k <<= 1
                    if all(c % k == 0 for _, c in x.t):
                        return add(x, y)
            if b.isconst() and b.cval() == 0:
                return a
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if op[0] == 'u':
                bl, _ = st.interval(b)
                if nonneg and bl is not None and bl >= 0:
                    op = 's' + op[1:]
            if cb and b.cval() == 1:
                return a if op.endswith('div') else ZERO
            if cb and b.cval() > 0 and nonneg and op[0] == 's':
                q, r = splitdiv(st, a, b.cval())
                if q is not None:
                    return q if op == 'sdiv' else r
                k = b.cval()
                if k & (k - 1) == 0:
                    # floor semantics: one canonical form
                    if op == 'sdiv':
                        return s.mkop(st, 'ashr', a, const(k.bit_length() - 1), bits)
                    return s.mkop(st, 'and', a, const(k - 1), bits)
            if not cb and op[0] == 's':
                x = splitsym(st, a, b)
                if x is not None:
                    return x[0] if op == 'sdiv' else x[1]
                if nonneg and st.decide(clt(a, b)) is True:
                    return ZERO if op == 'sdiv' else a
        return s.mkop(st, op, a, b, bits)

    def mkop(s, st, op, a, b, bits):
        return var(atom('op', (op, a, b), bits))

    def cast(s, st, op, x, frm, to):
        x = st.norm(x)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return x
        if op == 'sext':
            if frm.bits == 1:
                return scale(x, -1)
            return x
        if op == 'zext':
            if frm.bits == 1:
                return x
            lo, hi = st.interval(x)
            if lo is not None and lo >= 0:
                return x
            if x.isconst():
                return const(x.cval() & ((1 << frm.bits) - 1))
            return var(atom('op', ('zext', x, const(frm.bits)), to.bits, 0, (1 << frm.bits) - 1))
        if op == 'trunc':
            lo, hi = st.interval(x)
            b = to.bits
            if lo is not None and hi is not None and lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
                return x
            if x.isconst():
                v = x.cval() & ((1 << b) - 1)
                return const(v - (1 << b) if v >> (b - 1) else v)
            a = x.single()
            if a is not None and a.kind == 'op' and a.args[0] == 'zext' and a.args[2].cval() == b:
                return a.args[1]
            return var(atom('op', ('trunc', x, const(b)), b))
        return var(atom('fp', (op, x)))

    def icmp(s, st, pred, a, b, ty):
        a, b = st.norm(a), st.norm(b)
        if pred == 'eq':
            return ceq(a, b)
        if pred == 'ne':
            return cnot(ceq(a, b))
        if pred == 'slt':
            return clt(a, b)
        if pred == 'sle':
            return cle(a, b)
        if pred == 'sgt':
            return clt(b, a)
        if pred == 'sge':
            return cle(b, a)
        # unsigned / pointer
        la, _ = st.interval(a)
        lb, _ = st.interval(b)
        if (la is not None and la >= 0 and lb is not None and lb >= 0):
            return {'ult': clt(a, b), 'ule': cle(a, b), 'ugt': clt(b, a), 'uge': cle(b, a)}[pred]
        ba, _o = base_of(a)
        bb, _o = base_of(b)
        if ba is not None and ba is bb:
            return {'ult': clt(a, b), 'ule': cle(a, b), 'ugt': clt(b, a), 'uge': cle(b, a)}[pred]
        if ty.k == 'int':
            if pred in ('uge', 'ule', 'ult', 'ugt'):
                x, y, n = {'ult': (a, b, False), 'uge': (a, b, True), 'ugt': (b, a, False), 'ule': (b, a, True)}[pred]
                # x <u const  with x possibly negative: keep as opaque unsigned compare
                return Cond('ult', (x, y), n)
        x, y, n = {'ult': (a, b, False), 'uge': (a, b, True), 'ugt': (b, a, False), 'ule': (b, a, True)}[pred]
        return Cond('ult', (x, y), n)

    # ------------------------------------------------------------ execution
    def run(s, fname, args, st, depth=0, chain=()):
        """abstract outcomes of calling fname: list of Leaf(ret/abort/exit/crash)"""
        f = s.m.funcs.get(fname)
        if f is None:
            raise Imprecise('no function ' + fname)
        if len(args) != len(f.params):
            raise Imprecise('%s has %d parameters, expected %d' % (fname, len(f.params), len(args)))
        s.fnvisited.add(fname)
        fr = Frame(f, depth, chain + (fname,))
        env = {}
        for (n, t), a in zip(f.params, args):
            env[n] = a
        return s.blocks(fr, st, env, f.entry, None, None)

    def blocks(s, fr, st, env, block, prev, stop, skiploop=None):
        work = [(st, env, block, prev)]
        leaves = []
        first = True
        while work:
            st, env, block, prev = work.pop()
            if st.dead:
                continue
            if not first and stop is not None:
                tag = stop(prev, block)
                if tag:
                    leaves.append(Leaf('stop', st, env, block, prev, tag))
                    continue
            if block in fr.loops and not (block == skiploop):
                lv = s.loop(fr, st, env, block, prev)
                first = False
                for l in lv:
                    if l.kind == 'stop':
                        work.append((l.st, l.env, l.block, l.prev))
                    else:
                        leaves.append(l)
                continue
            first = False
            s.budget -= 1
            if s.budget < 0:
                raise Imprecise('state budget')
            if s.deadline and time.time() > s.deadline:
                raise Imprecise('time budget')
            nxt = s.block(fr, st, env, block, prev, leaves)
            work.extend(nxt)
        return leaves

    def phis(s, fr, st, env, block, prev):
        new = {}
        for I in fr.f.blocks[block]:
            if I.op != 'phi':
                break
            for v, l in I.extra:
                if l == prev:
                    new[I.dst] = s.val(st, env, v, I.ty)
                    break
            else:
                raise Imprecise('phi')
        if new:
            env = dict(env)
            env.update(new)
        return env

    def block(s, fr, st, env, block, prev, leaves, phidone=False):
        """execute one block; returns list of (st, env, nextblock, prevblock)"""
        if prev is not None and prev != '*':
            env = s.phis(fr, st, env, block, prev)
        else:
            env = dict(env)
        instrs = fr.f.blocks[block]
        # a list of (state, env) alternatives because calls may split
        cur = [(st, dict(env))]
        out = []
        for I in instrs:
            op = I.op
            if op == 'phi':
                continue
            nxt = []
            for st, env in cur:
                if op == 'call':
                    for st2, rv in s.call(fr, st, env, I, leaves):
                        e2 = dict(env)
                        if I.dst is not None:
                            e2[I.dst] = rv if rv is not None else unk('noret')
                        nxt.append((st2, e2))
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable'):
                    out.extend(s.term(fr, st, env, I, block, leaves))
                    continue
                if op == 'select':
                    c = s.tocond(st, s.val(st, env, I.args[0][1], I.args[0][0]))
                    a = s.val(st, env, I.args[1][1], I.ty)
                    b = s.val(st, env, I.args[2][1], I.ty)
                    if I.ty.k == 'int' and I.ty.bits == 1 or a == b or st.decide(c) is not None:
                        d = st.decide(c)
                        if a == b or d is not None:
                            env[I.dst] = a if (a == b or d) else b
                            nxt.append((st, env))
                            continue
                    for cc, v in ((c, a), (cnot(c), b)):
                        s2 = st.copy()
                        if s2.assume(cc):
                            e2 = dict(env)
                            e2[I.dst] = v
                            nxt.append((s2, e2))
                    continue
                if op == 'icmp':
                    alts = s.splitbool(st, sub(s.val(st, env, I.args[0][1], I.args[0][0]), s.val(st, env, I.args[1][1], I.args[1][0])))
                    for st2 in alts:
                        e2 = env if len(alts) == 1 else dict(env)
                        if s.simple(fr, st2, e2, I, leaves) is not False:
                            nxt.append((st2, e2))
                    continue
                if op == 'load':
                    a = s.val(st, env, I.args[0][1], I.args[0][0])
                    sz = s.m.size(I.ty)
                    loc = s.m.loc(I.dbg)
                    if not s.check_access(st, a, sz, 'load', loc):
                        leaves.append(Leaf('crash', st, loc=loc))
                        continue
                    r = s.loadsplit(st, a, sz, I.ty)
                    for st2, v in r:
                        e2 = env if len(r) == 1 else dict(env)
                        e2[I.dst] = v
                        if 'yesno' in I.flags:
                            s.yesno(st2, v)
                        nxt.append((st2, e2))
                    continue
                r = s.simple(fr, st, env, I, leaves)
                if r is False:
                    continue
                nxt.append((st, env))
            cur = nxt
            if not cur:
                break
        return out

    def yesno(s, st, v):
        """v was read from state that only ever holds 0 or 1 (see flags.py)"""
        v = st.norm(v)
        for c in (cle(ZERO, v), cle(v, ONE)):
            if not v.isconst() and st.decide(c) is None:
                st.assume(c)

    def tocond(s, st, v):
        v = st.norm(v)
        return cnot(ceq(v, ZERO))

    def simple(s, fr, st, env, I, leaves):
        op = I.op
        if op == 'alloca':
            n = s.val(st, env, I.args[0][1], I.args[0][0])
            size = scale(n, s.m.size(I.ty))
            env[I.dst] = s.newregion('local:%s%s' % (fr.f.name, I.dst), 'alloca', size)
        elif op == 'load':
            a = s.val(st, env, I.args[0][1], I.args[0][0])
            sz = s.m.size(I.ty)
            loc = s.m.loc(I.dbg)
            if not s.check_access(st, a, sz, 'load', loc):
                leaves.append(Leaf('crash', st, loc=loc))
                return False
            env[I.dst] = s.load(st, a, sz, I.ty)
            if 'yesno' in I.flags:
                s.yesno(st, env[I.dst])
        elif op == 'store':
            v = s.val(st, env, I.args[0][1], I.args[0][0])
            a = s.val(st, env, I.args[1][1], I.args[1][0])
            sz = s.m.size(I.args[0][0])
            loc = s.m.loc(I.dbg)
            if not s.check_access(st, a, sz, 'store', loc):
                leaves.append(Leaf('crash', st, loc=loc))
                return False
            s.store(st, a, sz, v, loc)
        elif op == 'getelementptr':
            vals = [(t, s.val(st, env, v, t)) for t, v in I.args]
            env[I.dst] = s.gep(I.ty, vals)
        elif op == 'icmp':
            a = s.val(st, env, I.args[0][1], I.args[0][0])
            b = s.val(st, env, I.args[1][1], I.args[1][0])
            c = s.icmp(st, I.extra, a, b, I.args[0][0])
            d = st.decide(c)
            if d is True:
                env[I.dst] = ONE
            elif d is False:
                env[I.dst] = ZERO
            else:
                env[I.dst] = var(atom('b2i', (c,), 2, 0, 1))
        elif op in ('fcmp',):
            env[I.dst] = unk('fcmp', 1)
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze'):
            x = s.val(st, env, I.args[0][1], I.args[0][0])
            env[I.dst] = s.cast(st, op, x, I.args[0][0], I.ty) if op != 'freeze' else x
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            xs = tuple(s.val(st, env, v, t) for t, v in I.args)
            if op in ('fadd', 'fmul'):
                xs = tuple(sorted(xs, key=repr))
            env[I.dst] = var(atom('fp', (op,) + xs))
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr'):
            a = s.val(st, env, I.args[0][1], I.ty)
            b = s.val(st, env, I.args[1][1], I.ty)
            if I.ty.bits == 1:
                ca, cb = s.tocond(st, a), s.tocond(st, b)
                env[I.dst] = s.bool1(st, op, ca, cb)
            else:
                env[I.dst] = s.binop(st, op, a, b, I.ty.bits, I.flags)
        else:
            raise Imprecise('op ' + op)
        return True

    def bool1(s, st, op, a, b):
        da, db = st.decide(a), st.decide(b)
        if op == 'xor':
            if db is not None:
                c = cnot(a) if db else a
                return var(atom('b2i', (c,), 2, 0, 1)) if c.k != 'c' else const(int(c.p))
            if da is not None:
                c = cnot(b) if da else b
                return var(atom('b2i', (c,), 2, 0, 1)) if c.k != 'c' else const(int(c.p))
        if op == 'and':
            if da is False or db is False:
                return ZERO
            if da is True:
                return var(atom('b2i', (b,), 2, 0, 1)) if db is None else ONE
            if db is True:
                return var(atom('b2i', (a,), 2, 0, 1))
        if op == 'or':
            if da is True or db is True:
                return ONE
            if da is False:
                return var(atom('b2i', (b,), 2, 0, 1)) if db is None else ZERO
            if db is False:
                return var(atom('b2i', (a,), 2, 0, 1))
        x, y = (var(atom('b2i', (c,), 2, 0, 1)) for c in (a, b))
        c = cle(const(2), add(x, y)) if op == 'and' else cle(ONE, add(x, y)) if op == 'or' else cnot(ceq(x, y))
        return var(atom('b2i', (c,), 2, 0, 1)) if c.k != 'c' else const(int(c.p))

    def branch(s, fr, st, c, I):
        """[(state, truth)]"""
        d = st.decide(c)
        if d is not None:
            s2 = st
            return [(s2, d)]
        for a in deps(c):
            if a.kind == 'uninit':
                st.event('uninitbranch', repr(c), s.m.loc(I.dbg))
                break
        s.nbranch += 1
        out = []
        for cc, v in ((c, True), (cnot(c), False)):
            s2 = st.copy()
            if s2.assume(cc):
                out.append((s2, v))
        return out

    def term(s, fr, st, env, I, block, leaves):
        if I.op == 'ret':
            v = s.val(st, env, I.args[0][1], I.args[0][0]) if I.args else None
            leaves.append(Leaf('ret', st, env, None, block, st.norm(v) if v is not None else None, s.m.loc(I.dbg)))
            return []
        if I.op == 'unreachable':
            return []
        if I.op == 'br':
            if len(I.extra) == 1:
                return [(st, env, I.extra[0], block)]
            c = s.tocond(st, s.val(st, env, I.args[0][1], I.args[0][0]))
            r = []
            alts = [st]
            if c.k in ('le', 'eq') and st.decide(c) is None:
                alts = s.splitbool(st, c.p)
            for s2, v in [x for a in alts for x in s.branch(fr, a, c, I)]:
                r.append((s2, env if len(I.extra) < 2 else dict(env), I.extra[0] if v else I.extra[1], block))
            return r
        # switch
        x = s.val(st, env, I.args[0][1], I.args[0][0])
        d, cases = I.extra
        x = st.norm(x)
        if x.isconst():
            for v, l in cases:
                if v == x.cval():
                    return [(st, env, l, block)]
            return [(st, env, d, block)]
        r = []
        rest = st.copy()
        for v, l in cases:
            s2 = rest.copy()
            if s2.assume(ceq(x, const(v))):
                r.append((s2, dict(env), l, block))
            if not rest.assume(cnot(ceq(x, const(v)))):
                return r
        r.append((rest, env, d, block))
        return r

    # ------------------------------------------------------------ calls
    def gstr(s, p):
        a, off = base_of(p)
        if a is not None and a.kind == 'rgn':
            g = s.rinfo.get(a, {}).get('g')
            if g is not None and g.init is not None and g.init[0] == 'str' and off.isconst():
                b = g.init[1][off.cval():]
                return b.split(b'\0')[0].decode('latin1')
        return None

    def call(s, fr, st, env, I, leaves):
        """yield (state, return value)"""
        args = [s.val(st, env, v, t) for t, v in I.args]
        args = [st.norm(a) for a in args]
        loc = s.m.loc(I.dbg)
        if I.fn[0] == 'g':
            name = I.fn[1]
        else:
            fv = st.norm(env[I.fn[1]]).single()
            if fv is not None and fv.kind == 'rgn' and str(fv.args[0]).startswith('fn:'):
                name = fv.args[0][3:]
            else:
                st.event('icall', env[I.fn[1]], tuple(args), loc)
                bits = I.ty.bits or 64
                return [(st, s.freshn(st, 'icall', bits=bits, isptr=I.ty.k == 'ptr'))]
        return s.docall(fr, st, name, args, I, loc, leaves)

    def docall(s, fr, st, name, args, I, loc, leaves):
        h = s.contracts.get(name)
        if h is not None:
            r = h(s, st, args, loc, leaves)
            if r is not None:
                s.calledc.add(name)
                return r
        if name in s.m.funcs and fr.depth < s.maxdepth and name not in fr.chain:
            r = []
            for l in s.run(name, args, st, fr.depth + 1, fr.chain):
                if l.kind == 'ret':
                    r.append((l.st, l.val))
                else:
                    leaves.append(l)
            return r
        if name in s.m.funcs:
            raise Imprecise('recursion through %s' % name)
        return s.extern(fr, st, name, args, I, loc, leaves)

    def extern(s, fr, st, name, args, I, loc, leaves):
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                return s.memcpy(st, args[0], args[1], args[2], loc)
            if name.startswith('llvm.memset'):
                s.memset(st, args[0], args[1], args[2], loc)
                return [(st, None)]
            if name.startswith(('llvm.fmuladd.', 'llvm.fma.')):
                m = var(atom('fp', ('fmul',) + tuple(sorted(args[:2], key=repr))))
                return [(st, var(atom('fp', ('fadd',) + tuple(sorted((m, args[2]), key=repr)))))]
            if name.startswith('llvm.smax') or name.startswith('llvm.smin'):
                r = []
                mx = 'smax' in name
                for c, v in ((cle(args[0], args[1]), args[1] if mx else args[0]), (clt(args[1], args[0]), args[0] if mx else args[1])):
                    s2 = st.copy()
                    if s2.assume(c):
                        r.append((s2, v))
                return r
            if I.ty is None or I.ty.k == 'void':
                return [(st, None)]     # markers without effect
            return [(st, unk(name, I.ty.bits or 64))]
        if name in ('memcpy', 'memmove'):
            r = s.memcpy(st, args[0], args[1], args[2], loc)
            return [(x, args[0]) for x, _ in r]
        if name == 'memset':
            s.memset(st, args[0], args[1], args[2], loc)
            return [(st, args[0])]
        if name in ('abort', 'exit', '_exit', '__assert_fail'):
            st.event('end', name, tuple(args), loc)
            leaves.append(Leaf('abort' if name in ('abort', '__assert_fail') else 'exit', st, val=args[0] if args else None, loc=loc))
            return []
        if name in OUTFN:
            k = OUTFN[name]
            fmt = None
            if k is not None and k < len(args):
                fmt = s.gstr(args[k])
            elif name in ('puts', 'perror'):
                fmt = s.gstr(args[0])
            st.event('out', name, fmt, tuple(args), loc)
            return [(st, s.freshn(st, 'out', bits=32))]
        if name in ('fflush', 'setbuf', 'setvbuf'):
            return [(st, ZERO)]
        if name in ('malloc', 'calloc'):
            size = args[0] if name == 'malloc' else mul(args[0], args[1])
            size = st.norm(size)
            if 'loopdepth' in st.meta and st.meta['loopdepth']:
                r = s.newregion('heap', 'heap', size, uninit=True)
            else:
                r = s.newobj(st, 'heap', 'heap', size, uninit=True)
            out = []
            if s.oom:
                s2 = st.copy()
                s2.event('malloc', ZERO, size, loc)
                out.append((s2, ZERO))
            st.event('malloc', r, size, loc)
            if name == 'calloc':
                st.mem = (('set', r, ZERO, size), st.mem)
            out.append((st, r))
            return out
        if name == 'realloc':
            r = s.newobj(st, 'rheap', 'heap', args[1], uninit=False)
            st.event('realloc', args[0], r, args[1], loc)
            return [(st, r)]
        if name == 'free':
            p = st.norm(args[0])
            b, off = base_of(p)
            if b is not None and b in st.freed:
                st.event('doublefree', p, loc)
            st.event('free', p, loc)
            if b is not None:
                st.freed = st.freed | {b}
            return [(st, None)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            n = st.norm(args[1]) if k == 2 else None
            fmt = s.gstr(args[k])
            if fmt is not None and (n is None or n.isconst() and n.cval() >= len(fmt) + 24 * fmt.count('%')) and '%s' not in fmt:
                c = app('text', sym('fmt:' + fmt), *args[k + 1:])
                rv = app('strlen', c, ZERO, bits=32)
                st.event('ext', 'sprintf', (args[0], sym('fmt:' + fmt)) + tuple(args[k + 1:]), rv, loc)
                s.clobber(st, [args[0]], c, False)
                return [(st, rv)]
        if name == 'strlen':
            p = st.norm(args[0])
            t = s.gstr(p)
            if t is not None:
                return [(st, const(len(t)))]
            b, off = base_of(p)
            mods = []
            for e in reversed(st.log()):
                if b is None:
                    break
                if e[0] == 'hv' and getattr(e[1], 'bases', None) is not None:
                    o = [o for b2, i, o in e[1].bases if b2 is b]
                    if o:
                        r = app('strlen', e[1].content, sub(off, o[0]), *mods, bits=32)
                        for i in range(0, len(mods), 3):
                            # a terminator at a known place bounds the length
                            if mods[i + 1] == ONE and mods[i + 2] == ZERO:
                                st.assume(cle(r, sub(ZERO, mods[i])))
                                st.assume(cle(ZERO, r))
                        return [(st, r)]
                elif e[0] != 'hv':
                    b2, o2 = base_of(st.norm(e[1]))
                    if b2 is b and e[0] == 'st' and e[3] is not None:
                        mods += [sub(off, o2), const(e[2]), e[3]]
                    elif b2 is b or b2 is None:
                        break
            else:
                if b is not None:
                    # a string nobody has touched
                    r = app('strlen', p, *mods, bits=32)
                    st.assume(cle(ZERO, r))
                    return [(st, r)]
            return [(st, unk('strlen', 64))]
        # unknown external: opaque result; memory its arguments point to may change
        ty = I.ty
        bits = ty.bits if ty is not None and ty.k == 'int' else 64
        rv = s.freshn(st, name, bits=bits, isptr=ty is not None and ty.k == 'ptr') if ty is not None and ty.k != 'void' else None
        s.opaque(st, name, args, rv, loc, 'ext')
        return [(st, rv)]

    def opaque(s, st, name, args, rv, loc, kind='call', whole=False):
        """uninterpreted call: result rv, later reads of memory reachable from
        its arguments (of all non-local memory when whole) give deterministic
        uninterpreted terms"""
        st.event(kind, name, tuple(args), rv, loc)
        s.clobber(st, args, sym('%s@%d' % (name, st.bump('opaque'))), whole)

    def clobber(s, st, args, content, whole):
        bases = []
        for i, a in enumerate(args):
            b, off = base_of(st.norm(a))
            if b is not None and (b.kind == 'rgn' or b.isptr):
                g = s.rinfo.get(b, {}).get('g')
                if g is not None and g.const:
                    continue
                if s.rinfo.get(b, {}).get('kind') == 'fn':
                    continue
                bases.append((b, i, off))
        eng = s

        def pred(st2, addr, base, off, size):
            for b, i, o in bases:
                if base is b or (base is not None and samebase(st2, base, b) is not False):
                    return app('after', content, const(i), sub(off, o), bits=size * 8)
            if whole and (base is None or eng.rinfo.get(base, {}).get('kind') not in ('alloca',)):
                return app('after', content, const(-1), addr, bits=size * 8)
            return None
        pred.bases, pred.content = bases, content
        st.mem = (('hv', pred, repr(content)), st.mem)

    oom = False
    objperm = {}

    def check_ranges(s, st, what_addr, n, loc):
        for what, a in what_addr:
            if not a.isconst():
                b, off = base_of(a)
                if b is not None and b in st.freed:
                    st.event('uaf', what, a, loc)
            elif not (n.isconst() and n.cval() == 0):
                st.event('nullderef', what, a, loc)
        for what, a in what_addr:
            b, off = base_of(a)
            if b is not None and b.kind == 'rgn' and b in s.rinfo and s.rinfo[b]['kind'] != 'fn':
                z = s.rsize(st, b)
                if z is not None:
                    for c in (cle(ZERO, off), cle(add(off, n), st.norm(z))):
                        d = st.decide(c)
                        if d is False:
                            st.event('oob', what, a, z, n, loc)
                        elif d is None:
                            st.event('mayoob', what, c, loc)

    def memset(s, st, dst, c, n, loc):
        n = st.norm(n)
        s.check_ranges(st, (('store', st.norm(dst)),), n, loc)
        st.event('memset', dst, c, n, loc)
        st.mem = (('set', dst, c, n), st.mem)

    def memcpy(s, st, dst, src, n, loc):
        dst, src, n = st.norm(dst), st.norm(src), st.norm(n)
        s.check_ranges(st, (('store', dst), ('load', src)), n, loc)
        st.event('memcpy', dst, src, n, loc)
        st.mem = (('cp', dst, src, n, st.mem), st.mem)
        return [(st, dst)]

    # ------------------------------------------------------------ loops
    def loop(s, fr, st, env, header, prev):
        s.nloops += 1
        body = fr.loops[header]

        def stop(p, b):
            if b == header and p in body:
                return 'back'
            if p in body and b not in body:
                return 'exit'
            return None

        # 1. loops whose every exit decision is already determined
        r = s.try_unroll(fr, st, env, header, prev, stop)
        if r is not None:
            return r
        if s.peel:
            return s.peeled(fr, st, env, header, prev, stop)
        return s.generic(fr, st, env, header, prev, stop, body)

    peel = 0

    def peeled(s, fr, st, env, header, prev, stop):
        """the first iterations of the loop one by one, later ones left out:
        what this shows to differ differs, what it shows to agree proves nothing"""
        cur = [(st.copy(), s.phis(fr, st, env, header, prev))]
        res = []
        for it in range(s.peel + 1):
            nxt = []
            for st1, env1 in cur:
                for l in s.iterate(fr, st1, env1, header, stop):
                    if l.kind == 'stop' and l.val == 'back':
                        nxt.append((l.st, s.phis(fr, l.st, l.env, header, l.prev)))
                    else:
                        res.append(l)
            cur = nxt[:s.peelmax]
            if len(res) > 4 * s.peelmax:
                break
        return res[:4 * s.peelmax]

    peelmax = 32

    def iterate(s, fr, st, env, header, stop):
        """one pass over the loop body from the header with phis already set"""
        leaves = []
        nxt = s.block(fr, st, env, header, '*', leaves)
        out = list(leaves)
        for st2, env2, b, p in nxt:
            if st2.dead:
                continue
            tag = stop(p, b)
            if tag:
                out.append(Leaf('stop', st2, env2, b, p, tag))
                continue
            out.extend(s.blocks2(fr, st2, env2, b, p, stop, header))
        return out

    def blocks2(s, fr, st, env, b, p, stop, header):
        work = [(st, env, b, p)]
        out = []
        while work:
            st, env, b, p = work.pop()
            if st.dead:
                continue
            tag = stop(p, b)
            if tag:
                out.append(Leaf('stop', st, env, b, p, tag))
                continue
            if b in fr.loops:
                for l in s.loop(fr, st, env, b, p):
                    if l.kind == 'stop':
                        work.append((l.st, l.env, l.block, l.prev))
                    else:
                        out.append(l)
                continue
            s.budget -= 1
            if s.budget < 0:
                raise Imprecise('state budget')
            if s.deadline and time.time() > s.deadline:
                raise Imprecise('time budget')
            work.extend(s.block(fr, st, env, b, p, out))
        return out

    def try_unroll(s, fr, st, env, header, prev, stop):
        save = (s.budget, s.nbranch)
        cur = [(st.copy(), s.phis(fr, st, env, header, prev))]
        res = []
        for it in range(s.unroll):
            nxt = []
            for st1, env1 in cur:
                lv = s.iterate(fr, st1, env1, header, stop)
                tags = {l.val for l in lv if l.kind == 'stop'}
                if len(tags) > 1:
                    s.nbranch = save[1]
                    return None
                for l in lv:
                    if l.kind == 'stop' and l.val == 'back':
                        nxt.append((l.st, s.phis(fr, l.st, l.env, header, l.prev)))
                    else:
                        res.append(l)
            if not nxt:
                return res
            if len(nxt) > 24 or len(res) > 60:
                return None
            cur = nxt
        return None

    def generic(s, fr, st0, env0, header, prev, stop, body):
        f = fr.f
        hins = [I for I in f.blocks[header] if I.op == 'phi']
        initenv = s.phis(fr, st0, env0, header, prev)
        init = {I.dst: st0.norm(initenv[I.dst]) for I in hins}
        tyof = {I.dst: I.ty for I in hins}
        mark = len(T._alist)
        T._uniq[0] += 1
        lid = T._uniq[0]
        loc = s.header_loc(fr, header)
        kappa = atom('sym', ('κ%d' % lid,), 64, 0, None)
        K = var(kappa)
        # classification of every loop-carried quantity:
        #   ('fix',)            unchanged
        #   ('aff', step)       init + step*kappa
        #   ('sym', atom)       abstracted
        cls = {d: ('sym', s.phisym(lid, d, tyof[d])) for d in init}
        memloc = {}     # (addr,size) -> dict(cls, init, isptr)
        fills = []      # list of dict(addr(kb),size,val,step) / guarded
        dropped = set()
        hist = 0
        stable_rounds = 0
        while True:
            hist += 1
            if hist > 14:
                raise Imprecise('loop does not stabilise at %s:%s' % loc)
            st = st0.copy()
            env = dict(initenv)
            if not st.assume(cle(ZERO, K)):
                return []
            for d in init:
                env[d] = s.clsval(cls[d], init[d], K)
            # loop carried memory
            for e in fills:
                st.mem = (s.fillentry(e, K, lid), st.mem)
            for (a, sz), q in memloc.items():
                st.mem = (('st', a, sz, s.clsval(q['cls'], q['init'], K), loc), st.mem)
            for d in init:
                s.symfacts(st, cls[d], init[d])
            for q in memloc.values():
                s.symfacts(st, q['cls'], q['init'])
            top, topev, nf = st.mem, st.ev, len(st.facts)
            mark2 = len(T._alist)
            stx = st.copy()
            dep = stx.meta.get('loopdepth', 0)
            stx.meta['loopdepth'] = dep + 1
            leaves = s.iterate(fr, stx, env, header, stop)
            for l in leaves:
                l.st.meta = dict(l.st.meta)
                l.st.meta['loopdepth'] = dep
            backs = [l for l in leaves if l.kind == 'stop' and l.val == 'back']
            changed = False
            # ---- upper bound of kappa from facts shared by all back traces
            # ---- memory effects
            newlocs = {}
            varying = []
            for l in backs:
                for e in self_log(l.st, top):
                    if e[0] == 'st':
                        a = e[1]
                        b, off = base_of(a)
                        if b is not None and b.id >= mark2 and b.kind == 'rgn':
                            continue      # object created inside the iteration
                        if b is not None and s.rinfo.get(b, {}).get('iter'):
                            continue
                        if s.invariant(a, mark, kappa, cls, memloc):
                            newlocs[(a, e[2])] = True
                        else:
                            varying.append((a, e[2], l, e))
                    elif e[0] in ('cp', 'set'):
                        a = e[1]
                        b, off = base_of(a)
                        if b is not None and b.id >= mark2 and b.kind == 'rgn':
                            continue
                        varying.append((a, None, l, e))
            for k in newlocs:
                if k not in memloc:
                    a, sz = k
                    v = s.load(st0, a, sz)
                    memloc[k] = dict(cls=('sym', s.phisym(lid, 'm:%r' % (a,), None, sz * 8, v)), init=v)
                    changed = True
            # ---- next values
            for d in init:
                nx = []
                for l in backs:
                    for I in hins:
                        if I.dst == d:
                            for v, lab in I.extra:
                                if lab == l.prev:
                                    nx.append(l.st.norm(s.val(l.st, l.env, v, I.ty)))
                c2 = s.classify(cls[d], init[d], nx, K, kappa, mark, st, backs, cls, memloc)
                if c2 != cls[d]:
                    cls[d] = c2
                    changed = True
            for (a, sz), q in memloc.items():
                nx = [l.st.norm(s.load(l.st, a, sz)) for l in backs]
                c2 = s.classify(q['cls'], q['init'], nx, K, kappa, mark, st, backs, cls, memloc)
                if c2 != q['cls']:
                    q['cls'] = c2
                    changed = True
                q['next'] = nx
            # ---- fills
            nf2 = s.mkfills(varying, backs, kappa, K, mark, lid, st, nf)
            if not s.samefills(nf2, fills):
                fills = nf2
                changed = True
            if not changed:
                # cells taken for loop-carried before the address was known to vary
                stale = [k for k in memloc if k not in newlocs and k not in dropped]
                if not stale:
                    break
                for k in stale:
                    dropped.add(k)
                    del memloc[k]
        # ---------------- build the summary
        ev = LoopEv()
        ev.loc, ev.kappa, ev.fn = loc, kappa, fr.chain
        ev.header = header
        ev.init, ev.cls = dict(init), dict(cls)
        ev.mem = {k: dict(v) for k, v in memloc.items()}
        ev.fills = fills
        ub = s.upper(backs, nf, kappa, mark)
        ev.upper = ub
        ev.entryfacts = st.facts
        accs = []
        ev.top = top
        ev.exitl = []
        for l in leaves:
            if l.kind != 'stop' or l.val == 'exit':
                it = Iter()
                it.facts = l.st.facts[nf:]
                it.events = l.st.events(topev)
                it.st = l.st
                it.kind = 'leave' if l.kind == 'stop' else l.kind
                it.target = l.block
                ev.exitl.append(it)
        for l in backs:
            it = Iter()
            it.facts = l.st.facts[nf:]
            it.events = l.st.events(topev)
            it.writes = [e for e in self_log(l.st, top)]
            it.st = l.st
            it.kind = 'back'
            it.next = {}
            for I in hins:
                for v, lab in I.extra:
                    if lab == l.prev:
                        it.next[I.dst] = l.st.norm(s.val(l.st, l.env, v, I.ty))
            it.memnext = {k: l.st.norm(s.load(l.st, k[0], k[1])) for k in memloc}
            ev.iters.append(it)
        for l in leaves:
            if l.kind != 'stop':
                it = Iter()
                it.facts = l.st.facts[nf:]
                it.events = l.st.events(topev)
                it.st = l.st
                it.kind = l.kind
                ev.terms.append(it)
        for d in init:
            if cls[d][0] == 'sym':
                accs.append((cls[d][1], init[d], tuple(it.next.get(d) for it in ev.iters), ev))
        for k, q in memloc.items():
            if q['cls'][0] == 'sym':
                accs.append((q['cls'][1], q['init'], tuple(it.memnext[k] for it in ev.iters), ev))
        out = []
        for l in leaves:
            if l.kind == 'stop' and l.val == 'back':
                continue
            # event order: before loop, summary, this (partial) iteration
            own = l.st.events(topev)
            l.st.ev = topev
            l.st.event('loop', ev)
            for e in own:
                l.st.event(*e)
            l.st.accs = l.st.accs + tuple(accs)
            if ub is not None and l.st.decide(cle(ub, K)) is True:
                # left because kappa reached its bound: kappa == max(0, ub)
                d = l.st.decide(cle(ZERO, ub))
                alts = []
                if d is not False:
                    s2 = l.st if d is True else l.st.copy()
                    if s2.assume(cle(ZERO, ub)) and s2.assume(ceq(K, ub)):
                        alts.append(s2)
                if d is not True:
                    s2 = l.st.copy()
                    if s2.assume(clt(ub, ZERO)) and s2.assume(ceq(K, ZERO)):
                        alts.append(s2)
                for s2 in alts:
                    if l.kind == 'stop':
                        s.tryaccs(s2)
                    if not s2.dead:
                        out.append(Leaf(l.kind, s2, l.env, l.block, l.prev, l.val, l.loc))
            else:
                if ub is not None:
                    # kappa never exceeds the bound while iterating
                    if l.st.decide(cle(ZERO, ub)) is True and not l.st.assume(cle(K, ub)):
                        continue
                out.append(l)
        ev.exits = len([l for l in out if l.kind == 'stop'])
        if not out:
            s.stuck.append((st0, loc))      # entered and never left
        return out

    def tryaccs(s, st):
        pass

    def header_loc(s, fr, header):
        best = None
        for I in fr.f.blocks[header]:
            if I.dbg is not None:
                l = s.m.loc(I.dbg)
                if l[1]:
                    best = l
                    break
        return best or s.m.fnloc(fr.f)

    def phisym(s, lid, d, ty, bits=None, initv=None):
        isptr = ty is not None and ty.k == 'ptr'
        if ty is not None:
            bits = ty.bits if ty.k == 'int' else 64
        if initv is not None:
            a0 = initv.single()
            if a0 is not None and (a0.isptr or a0.kind == 'rgn'):
                isptr = True
        return atom('sym', ('φ%d%s' % (lid, d),), bits, None, None, isptr, ())

    def clsval(s, c, init, K):
        if c[0] == 'fix':
            return init
        if c[0] == 'aff':
            return add(init, mul(c[1], K))
        return var(c[1])

    def symfacts(s, st, c, init):
        if c[0] == 'sym' and len(c) > 2:
            x = var(c[1])
            for kind, v in c[2]:
                if kind == 'ge':
                    st.assume(cle(v, x))
                elif kind == 'le':
                    st.assume(cle(x, v))

    def invariant(s, p, mark, kappa, cls, memloc):
        for a in deps(p):
            if a is kappa:
                return False
            if a.id >= mark and a.kind in ('sym', 'unk'):
                return False
        return True

    def classify(s, cur, init, nx, K, kappa, mark, st, backs, cls, memloc):
        if not nx:
            return ('fix',) if cur[0] != 'fix' else cur
        now = s.clsval(cur, init, K)
        if cur[0] == 'fix':
            if all(n == init or l.st.norm(init) == n for n, l in zip(nx, backs)):
                return cur
            return s.demote(cur, init, nx, mark)
        if cur[0] == 'aff':
            want = add(init, mul(cur[1], add(K, ONE)))
            if all(n == want or l.st.norm(want) == n for n, l in zip(nx, backs)):
                return cur
            return s.demote(cur, init, nx, mark)
        x = var(cur[1])
        if len(cur) > 3 and cur[3]:
            # already demoted: only refine bounds
            return s.bounds(cur, init, nx, x, backs)
        if all(n == x for n in nx):
            return ('fix',)
        ds = [sub(n, x) for n in nx]
        if all(d == ds[0] for d in ds) and s.invariant(ds[0], mark, kappa, cls, memloc) and cur[1] not in deps(ds[0]):
            return ('aff', ds[0])
        if all(l.st.norm(init) == n or n == init for n, l in zip(nx, backs)):
            return ('fix',)
        return s.bounds(cur, init, nx, x, backs)

    def demote(s, cur, init, nx, mark):
        T._uniq[0] += 1
        bits = 64
        isptr = False
        a0 = init.single()
        if a0 is not None:
            bits, isptr = a0.bits, a0.isptr or a0.kind == 'rgn'
        else:
            for n in nx:
                a1 = n.single()
                if a1 is not None:
                    bits, isptr = a1.bits, a1.isptr or a1.kind == 'rgn'
                    break
        return ('sym', atom('sym', ('φd%d' % T._uniq[0],), bits, None, None, isptr, ()), (), True)

    def bounds(s, cur, init, nx, x, backs):
        dem = cur[3] if len(cur) > 3 else False
        b = []
        old = cur[2] if len(cur) > 2 else None
        # candidate invariants: value >= init, value <= init ; kept only if inductive
        up = dn = True
        for n, l in zip(nx, backs):
            d = sub(n, x)
            stt = l.st
            if not (stt.decide(cle(ZERO, d)) is True or (init.isconst() and n.isconst() and n.cval() >= init.cval()) or stt.decide(cle(init, n)) is True):
                up = False
            if not (stt.decide(cle(d, ZERO)) is True or (init.isconst() and n.isconst() and n.cval() <= init.cval()) or stt.decide(cle(n, init)) is True):
                dn = False
        if cur[1].isptr:
            up = dn = False
        if up:
            b.append(('ge', init))
            if init.isconst() and all(n.isconst() or n == x for n in nx):
                b.append(('le', const(max([init.cval()] + [n.cval() for n in nx if n.isconst()]))))
        if dn:
            b.append(('le', init))
            if init.isconst() and all(n.isconst() or n == x for n in nx):
                b.append(('ge', const(min([init.cval()] + [n.cval() for n in nx if n.isconst()]))))
        if not up and not dn and init.isconst() and all(n.isconst() or n == x for n in nx):
            vs = [init.cval()] + [n.cval() for n in nx if n.isconst()]
            b = [('ge', const(min(vs))), ('le', const(max(vs)))]
        b = tuple(b)
        if old:
            # invariants may only be dropped, never re-added, once assumed
            keep = tuple(z for z in old if z in b)
            if keep == old:
                return cur
            return (cur[0], cur[1], keep, dem)
        if not b:
            return cur if len(cur) > 2 else (cur[0], cur[1], (), dem)
        if len(cur) > 2:
            return cur
        return (cur[0], cur[1], b, dem)

    def mkfills(s, varying, backs, kappa, K, mark, lid, st, nf):
        groups = {}
        for a, sz, l, e in varying:
            groups.setdefault((a, sz), []).append((l, e))
        out = []
        for (a, sz), les in groups.items():
            ks = substitute(a, {kappa: add(K, ONE)}.get)
            step = sub(ks, a)
            others = [x for x in deps(a) if x is not kappa and x.id >= mark and x.kind in ('sym', 'unk')]
            if sz is None or others or kappa in deps(step) or step == ZERO or kappa not in deps(a):
                out.append(dict(kind='hv', addr=a, size=sz))
                continue
            ls = {id(l) for l, _ in les}
            val = None
            alts = None
            bad = lambda x: any(y.id >= mark and y.kind in ('sym', 'unk', 'uninit') and y is not kappa for y in deps(x))
            if len(varying) < 40 and len(backs) <= 12:
                alts = []
                for l in backs:
                    v = l.st.norm(s.load(l.st, a, sz))
                    cs = tuple(l.st.norm(c) if l.st.sub else c for c in l.st.facts[nf:])
                    cs = tuple(c for c in l.st.facts[nf:])
                    if bad(v) or any(bad(c) for c in cs):
                        alts = None
                        break
                    alts.append((cs, v))
            if len(ls) == len(backs):
                # value finally stored on every trace
                vs = {id(l): l.st.norm(s.load(l.st, a, sz)) for l, _ in les}
                vals = set(vs.values())
                if len(vals) == 1:
                    v = vals.pop()
                    if not any(x.id >= mark and x.kind in ('sym', 'unk', 'uninit') and x is not kappa for x in deps(v)):
                        val = v
            out.append(dict(kind='fill', addr=a, size=sz, val=val, step=step, alts=alts if val is None else None))
        return out

    def samefills(s, a, b):
        def key(e):
            return (e['kind'], e['addr'], e['size'], e.get('val'), e.get('step'), repr(e.get('alts')))
        return [key(x) for x in a] == [key(x) for x in b]

    def fillentry(s, e, K, lid):
        if e['kind'] == 'hv':
            bb, _ = base_of(e['addr'])

            def pred(st, addr, base, off, size, bb=bb, e=e):
                if bb is None:
                    return False
                if base is None:
                    return False
                return samebase(st, base, bb) is not False
            return ('hv', pred, 'loop', e['addr'], e['size'])
        kb = atom('sym', ('κb%d' % lid,), 64, 0, None)
        ka = K.single()
        f = {ka: var(kb)}.get
        return ('fill', substitute(e['addr'], f), e['size'], None if e['val'] is None else substitute(e['val'], f), kb, K, e['step'],
                None if e.get('alts') is None else tuple((tuple(substitute(c, f) for c in cs), substitute(v, f)) for cs, v in e['alts']))

    def upper(s, backs, nf, kappa, mark):
        """B such that every continuing trace has kappa < B"""
        cand = None
        for l in backs:
            mine = set()
            for c in l.st.facts[nf:]:
                p = c.p
                if c.k == 'le':
                    for m, k in p.t:
                        if m == (kappa.id,) and k == 1:
                            rest = sub(p, var(kappa))
                            if kappa not in deps(rest):
                                mine.add(sub(ONE, rest))     # kappa + rest <= 0 -> kappa < 1 - rest
                elif c.k == 'eq' and c.neg:
                    for m, k in p.t:
                        if m == (kappa.id,) and k in (1, -1):
                            rest = sub(p, scale(var(kappa), k))
                            if kappa not in deps(rest):
                                bnd = scale(rest, -k)
                                if l.st.decide(cle(ZERO, bnd)) is True:
                                    mine.add(bnd)
            cand = mine if cand is None else cand & mine
        if not cand:
            return None
        cand = [c for c in cand if not any(a.id >= mark and a.kind in ('sym', 'unk') for a in deps(c))]
        if not cand:
            return None
        return sorted(cand, key=repr)[0]


def self_log(st, upto):
    return st.log(upto)


def polydiv(d, step):
    """q with d == q*step, or None"""
    if step.isconst():
        k = step.cval()
        if k == 0:
            return None
        out = []
        for m, c in d.t:
            if c % k:
                return None
            out.append((m, c // k))
        return Poly(tuple(out))
    if len(step.t) == 1:
        m0, c0 = step.t[0]
        out = {}
        for m, c in d.t:
            mm = list(m)
            for i in m0:
                if i in mm:
                    mm.remove(i)
                else:
                    return None
            if c % c0:
                return None
            out[tuple(mm)] = out.get(tuple(mm), 0) + c // c0
        return mk(out)
    return None


def splitdiv(st, a, k):
    """a = k*q + r with 0 <= r < k provable"""
    q, r = {}, {}
    for m, c in a.t:
        if m == ():
            q[m] = c // k
            r[m] = c % k
        elif c % k == 0:
            q[m] = c // k
        else:
            r[m] = c
    rp = mk(r)
    lo, hi = st.interval(rp)
    if lo is not None and lo >= 0 and hi is not None and hi < k:
        return mk(q), rp
    return None, None


def splitsym(st, a, b):
    """a = b*q + r, 0<=r<b, q>=0 provable for symbolic b (a single monomial)"""
    if len(b.t) != 1 or b.t[0][1] != 1:
        return None
    m0 = b.t[0][0]
    q, r = {}, {}
    for m, c in a.t:
        mm = list(m)
        ok = True
        for i in m0:
            if i in mm:
                mm.remove(i)
            else:
                ok = False
                break
        if ok:
            q[tuple(mm)] = q.get(tuple(mm), 0) + c
        else:
            r[m] = c
    if not q:
        return None
    qp, rp = mk(q), mk(r)
    if st.decide(cle(ZERO, rp)) is True and st.decide(clt(rp, b)) is True and st.decide(cle(ZERO, qp)) is True:
        return qp, rp
    return None
