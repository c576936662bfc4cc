"""Relational comparison of the abstract outcomes of a function with those of
its reference model.

Every pair (outcome of the code, outcome of the model) whose path facts are
jointly satisfiable must agree on: way of ending, return value, visible memory,
effects on the contracts' objects.  A pair is
  PROVED   both sides have the same normal form
  REFUTED  an interpretation of the unknowns satisfies the facts of both paths
           and gives the two sides different values (random interpretation)
  UNKNOWN  neither
Loops with loop-carried unknowns are compared by a generic iteration: same
initial values, same bound, same transition."""
import itertools
import time
from terms import *
import terms as T
from engine import State, Imprecise, base_of, LoopEv, samebase, told

PROVED, UNKNOWN, REFUTED = 0, 1, 2
VN = ['PROVED', 'UNKNOWN', 'REFUTED']

TAINT = ('unk',)


def tainted(p):
    for a in deps(p):
        if a.kind == 'unk':
            return True
        if a.kind == 'app' and a.args[0] == 'after' and False:
            return True
    return False


def loopsyms(x):
    return {a for a in deps(x) if a.kind == 'sym' and str(a.args[0])[0] in 'φκ'}


class JEnv(Env):
    """random interpretation respecting the equalities of a state"""

    def __init__(s, seed, mode, st):
        Env.__init__(s, seed, mode)
        s.st = st
        s.busy = set()

    def atom(s, a):
        if a in s.st.sub and a not in s.busy:
            v = s.memo.get(a)
            if v is None:
                s.busy.add(a)
                try:
                    v = s.poly(s.st.sub[a])
                finally:
                    s.busy.discard(a)
                s.memo[a] = v
            return v
        if a.kind in ('sym', 'ld', 'app', 'unk', 'uninit') and a not in s.memo:
            r = s.st.rng.get(var(a))
            if r:
                v = s.pickr(a, r[0], r[1])
                if a.kind == 'ld':
                    key = (s.poly(a.args[0]), a.args[1], a.args[2])
                    v = s.ldtab.setdefault(key, v)
                elif a.kind == 'app':
                    key = (a.args[0],) + tuple(s.poly(x) for x in a.args[1:])
                    v = s.apptab.setdefault(key, v)
                s.memo[a] = v
                return v
        return Env.atom(s, a)

    def pickr(s, a, lo, hi):
        if lo is not None:
            lo = max(lo, a.lo) if a.lo is not None else lo
        else:
            lo = a.lo
        if hi is not None:
            hi = min(hi, a.hi) if a.hi is not None else hi
        else:
            hi = a.hi

        class B:
            pass
        b = B()
        b.kind, b.bits, b.isptr, b.lo, b.hi = a.kind, a.bits, a.isptr, lo, hi
        if a.isptr and (hi is None or hi > 1 << 40):
            return s.pick(a)
        b.isptr = False
        return s.pick(b)


MODES = ('small', 'mid', 'small', 'big')


class Cmp:
    def __init__(s, E, seed=1, tries=240, opts=None):
        s.E = E
        s.seed = seed
        s.tries = tries
        s.opts = opts or {}
        s.miscount = set()
        s.npairs = 0
        s.nterms = 0
        s.nwit = 0
        s.loopmemo = {}
        s.findings = []
        s.unknowns = []

    def tick(s):
        if s.E.deadline and time.time() > s.E.deadline:
            raise Imprecise('time budget')

    # -------------------------------------------------------- witnesses
    logbases = frozenset()
    logaddrs = frozenset()

    def setlogs(s, *logs):
        out = set()
        for log in logs:
            for e in log:
                if e[0] in ('st', 'fill', 'cp', 'set'):
                    b, _ = base_of(e[1])
                    if b is not None:
                        out.add(b)
                    if e[0] == 'cp':
                        b, _ = base_of(e[2])
                        if b is not None:
                            out.add(b)
        s.logbases = frozenset(out)
        s.logaddrs = {e[1] for log in logs for e in log if e[0] in ('st', 'cp', 'set')}

    def distinct(s, e, st, terms):
        """the analysis treats different access paths as different objects:
        an interpretation in which two of them coincide proves nothing"""
        acc = set()
        for c in st.facts:
            deps(c, acc)
        for t in terms:
            deps(t, acc)
        bs = {}
        todo = set(s.logbases)
        absolute = []
        for a in acc:
            if a.kind == 'ld':
                b, _ = base_of(st.norm(a.args[0]))
                if b is not None:
                    todo.add(b)
                if base_of(a.args[0])[0] is None:
                    absolute.append(a.args[0])
        for b in todo:
            b = st.norm(var(b)).single() or b
            try:
                v = e.atom(b)
            except (NoVal, RecursionError):
                return False
            for w, b2 in bs.items():
                if b2 is not b and abs(w - v) < 1 << 16:
                    return False
            bs[v] = b
        for p in absolute:
            try:
                v = e.poly(p)
            except (NoVal, RecursionError):
                return False
            if any(abs(w - v) < 1 << 16 for w in bs):
                return False
            for q in s.logaddrs:
                try:
                    if abs(e.poly(q) - v) < 1 << 16:
                        return False
                except (NoVal, RecursionError):
                    pass
        return True

    def envs(s, st, n=None, want=6, terms=()):
        """interpretations satisfying every fact of st"""
        k = 0
        for i in range(n or s.tries):
            e = JEnv((s.seed, i, 'w').__repr__(), MODES[i % len(MODES)], st)
            try:
                ok = all(e.cond(c) for c in st.facts)
            except (NoVal, RecursionError, ArithmeticError):
                continue
            if ok and s.distinct(e, st, terms):
                k += 1
                yield e
                if k >= want:
                    return

    def wild(s, st):
        """do the facts speak of loops that have no counterpart?  What such a
        loop leaves behind is not free to choose, so nothing is refuted"""
        for c in st.facts:
            for a in loopsyms(c) - s.paired:
                if loopsyms(st.norm(var(a))) - s.paired:
                    return True
            if tainted(c):
                return True
        return False

    onesided = frozenset()

    def extnames(s, evs, acc):
        for e in evs:
            if e[0] == 'ext':
                acc.add(e[1])
            elif e[0] == 'loop':
                for it in e[1].iters + e[1].exitl:
                    s.extnames(it.events, acc)
        return acc

    def foreign(s, *ts):
        """results of library functions that only one side calls and whose
        meaning the analysis does not know"""
        for t in ts:
            for a in deps(t):
                n = None
                if a.kind == 'app' and a.args[0] in ('after', 'strlen'):
                    n = str(a.args[1]).split('@')[0]
                elif a.kind == 'sym' and '()' in str(a.args[0]):
                    n = str(a.args[0]).split('()')[0]
                if n in s.onesided:
                    return True
        return False

    def sat(s, st):
        if s.wild(st):
            return None
        for e in s.envs(st, want=1):
            s.nwit += 1
            return e
        return None

    # -------------------------------------------------------- terms
    def eqterm(s, st, a, b):
        """compare two values under the facts of st"""
        s.nterms += 1
        s.tick()
        if a is None or b is None:
            return PROVED if a is b else UNKNOWN
        a, b = st.norm(a), st.norm(b)
        if a == b:
            return PROVED
        d = st.decide(ceq(a, b))
        if d is True:
            return PROVED
        if tainted(a) or tainted(b):
            return UNKNOWN
        if any(x.kind == 'uninit' for x in deps(b)):
            return PROVED           # the model leaves it open
        if any(x.kind == 'uninit' for x in deps(a)):
            return REFUTED if s.sat(st) else UNKNOWN
        bad = (loopsyms(a) | loopsyms(b)) - s.paired
        if bad or s.wild(st) or s.onesided and s.foreign(a, b):
            return UNKNOWN
        for e in s.envs(st, want=8, terms=(a, b)):
            try:
                va, vb = e.poly(a), e.poly(b)
            except (NoVal, RecursionError):
                continue
            if differ(va, vb):
                s.nwit += 1
                s.why = 'code: %s  model: %s' % (short(a), short(b))
                return REFUTED
        return UNKNOWN

    paired = frozenset()
    phibad = False
    why = ''

    jcache = ()

    def joint(s, fi, fs, eqs=(), pre=()):
        seq = list(eqs) + list(pre) + list(fs) + list(fi)
        # resume from the longest prefix shared with the last query
        old = s.jcache
        n = 0
        while n < len(seq) and n < len(old) and (old[n][0] is seq[n] or old[n][0] == seq[n]):
            n += 1
        new = list(old[:n])
        s.jcache = new
        if n:
            if new[-1][1] is None:
                return None
            st = new[-1][1].copy()
        else:
            st = State()
        for c in seq[n:]:
            if not st.assume(c):
                new.append((c, None))
                return None
            new.append((c, st.copy()))
        return st

    # -------------------------------------------------------- events
    def events(s, evs):
        out = []
        for e in evs:
            if e[0] in ('call', 'ext', 'free', 'malloc', 'realloc', 'icall'):
                out.append(e)
            elif e[0] == 'memcpy':
                if not (e[3].isconst() and e[3].cval() <= 256):
                    out.append(e)
            elif e[0] == 'memset':
                if not (e[3].isconst() and e[3].cval() <= 256):
                    out.append(e)
        return out

    def loops(s, evs):
        return [e[1] for e in evs if e[0] == 'loop' and s.significant(e[1])]

    def significant(s, L):
        r = getattr(L, '_sig', None)
        if r is None:
            r = L._sig = s._significant(L)
        return r

    def _significant(s, L):
        if any(c[0] == 'sym' for c in L.cls.values()) and s.liveφ(L):
            return True
        if any(q['cls'][0] == 'sym' for k, q in L.mem.items() if s.visible(k[0])):
            return True
        if any(it.kind != 'leave' for it in L.exitl) or len(L.exitl) > 1:
            return True
        for it in L.iters:
            if s.events(it.events) or any(e[0] == 'out' for e in it.events) or s.loops(it.events):
                return True
        if any(f['kind'] != 'fill' or f['val'] is None for f in L.fills):
            return True
        return False

    def liveφ(s, L):
        return True

    def visible(s, addr, extra=()):
        b, off = base_of(addr)
        if b is None:
            return True
        if b.kind == 'rgn':
            ri = s.E.rinfo.get(b)
            if ri:
                if ri['kind'] == 'alloca':
                    return False
                if ri['kind'] == 'global':
                    g = ri.get('g')
                    nm = str(b.args[0])[1:]
                    if g is not None and g.internal:
                        return nm in s.opts.get('globals', WATCH) or nm in extra
        return True

    # -------------------------------------------------------- memory
    def cells(s, log, st, extra=()):
        """addresses written (visible), as (addr, size, facts)"""
        out = {}
        for e in log:
            if e[0] == 'st':
                if s.visible(e[1], extra):
                    out[(st.norm(e[1]), e[2])] = ()
            elif e[0] == 'fill':
                _, fa, fsz, fv, kb, up, step = e[:7]
                if not s.visible(substitute(fa, {kb: ZERO}.get), extra):
                    continue
                k = sym('κq%d' % e[4].id, 64, 0, None)
                a = substitute(fa, {kb: k}.get)
                out[(a, fsz)] = (cle(ZERO, k), clt(k, up))
            elif e[0] in ('cp', 'set'):
                n = st.norm(e[3])
                if n.isconst() and n.cval() <= 256 and s.visible(e[1], extra):
                    i = 0
                    while i < n.cval():
                        z = 8 if n.cval() - i >= 8 else 4 if n.cval() - i >= 4 else 1
                        out[(st.norm(add(e[1], const(i))), z)] = ()
                        i += z
        return out

    def hasloophv(s, log):
        return [e for e in log if e[0] == 'hv' and len(e) > 3]

    def cmpcell(s, j, a, z, sti, sts, depth=4):
        ji = j.copy()
        ji.mem, ji.meta = sti.mem, sti.meta
        js = j.copy()
        js.mem, js.meta = sts.mem, sts.meta
        s.E.split = None
        vi = s.E.load(ji, a, z)
        c1, s.E.split = s.E.split, None
        vs = s.E.load(js, a, z)
        c2, s.E.split = s.E.split, None
        if isinstance(c1, str) or isinstance(c2, str):
            return (PROVED, '')
        v = s.eqterm(j, vi, vs)
        if v == UNKNOWN and depth and (c1 is not None or c2 is not None):
            worst = (PROVED, '')
            for c in (c1 if c1 is not None else c2,):
                for cc in (c, cnot(c)):
                    j2 = j.copy()
                    if j2.assume(cc):
                        r = s.cmpcell(j2, a, z, sti, sts, depth - 1)
                        if r[0] > worst[0]:
                            worst = r
            return worst
        if v == UNKNOWN and z == 8 and any(x is not None and any(y.kind == 'unk' and str(y.args[-1]) == 'overlap' for y in deps(x)) for x in (vi, vs)):
            # written in smaller pieces, padding left out
            return max((s.cmpcell(j, add(a, const(o)), 4, sti, sts, depth) for o in (0, 4)), key=lambda r: r[0])
        if v != PROVED:
            return (v, 'content of %s: code %s, required %s' % (short(a), short(j.norm(vi)), short(j.norm(vs))))
        return (PROVED, '')

    def cmpmem(s, J, sti, sts, logi, logs):
        """compare final memory; returns list of (verdict, text)"""
        ci = s.cells(logi, J)
        gone = (sti.freed & sts.freed) | (sti.meta.get('freeslots', frozenset()) & sts.meta.get('freeslots', frozenset()))
        gs = set()
        for e in logs:
            if e[0] in ('st', 'cp', 'set'):
                b, _ = base_of(e[1])
                if b is not None and b.kind == 'rgn' and str(b.args[0]).startswith('@'):
                    gs.add(str(b.args[0])[1:])
        if gs:
            ci = s.cells(logi, J, gs)
        cs = s.cells(logs, J, gs)
        res = []
        seen = set()
        for (a, z), fx in list(ci.items()) + list(cs.items()):
            if (a, z) in seen:
                continue
            seen.add((a, z))
            if gone and base_of(a)[0] in gone:
                continue            # released by both
            j = J
            paired = s.paired
            if fx:
                j = J.copy()
                if not all(j.assume(c) for c in fx):
                    continue
                s.paired = s.paired | loopsyms(a)
            try:
                res.append(s.cmpcell(j, a, z, sti, sts))
            finally:
                s.paired = paired
        for log, w in ((logi, 'code'), (logs, 'model')):
            if s.hasloophv(log):
                for e in s.hasloophv(log):
                    ls_ = loopsyms(e[3])
                    if ls_ and ls_ <= s.paired:
                        continue        # stores of a loop compared step by step
                    if s.visible(e[3]):
                        res.append((UNKNOWN, '%s has an unsummarised store' % w))
        return res

    # -------------------------------------------------------- events
    def evname(s, e):
        return (e[0], e[1] if e[0] in ('call', 'ext') else '')

    def evargs(s, e):
        if e[0] in ('call', 'ext'):
            return e[2]
        if e[0] == 'malloc':
            return (e[2],)
        if e[0] == 'free':
            return (e[1],)
        if e[0] == 'realloc':
            return (e[1], e[3])
        if e[0] == 'icall':
            return (e[1],) + tuple(e[2])
        return e[1:4]

    def islocal(s, p):
        b, _ = base_of(p)
        return b is not None and b.kind == 'rgn' and s.E.rinfo.get(b, {}).get('kind') == 'alloca'

    def cmpev1(s, J, a, b, sti, sts):
        """two events of the same name: worst verdict over the arguments"""
        worst = PROVED
        txt = ''
        if a[0] == 'call' and a[1] == 'Type_struct':
            return s.cmpbuilder(J, a, b)
        if len(s.evargs(a)) != len(s.evargs(b)):
            return REFUTED, 'different number of arguments'
        for i, (x, y) in enumerate(zip(s.evargs(a), s.evargs(b))):
            if a[0] == 'malloc' and J.decide(cle(y, x)) is True:
                continue            # at least as much as is needed
            if s.islocal(x) and s.islocal(y):
                continue
            if s.islocal(y) and not s.islocal(x) or s.islocal(x) and not s.islocal(y):
                v = UNKNOWN
            else:
                v = s.eqterm(J, x, y)
                if v == REFUTED and a[0] == 'malloc':
                    J2 = J.copy()
                    v = REFUTED if J2.assume(clt(x, y)) and s.sat(J2) else UNKNOWN
            if v > worst:
                worst, txt = v, 'argument %d of %s: code %s, required %s' % (i + 1, s.evname(a)[1] or a[0], short(J.norm(x)), short(J.norm(y)))
        return worst, txt

    def cmpbuilder(s, J, a, b):
        """calls of the general type builder: count, and block k for every k"""
        ai, bi = a[2], b[2]
        for i in (0, 4):
            if s.islocal(ai[i]) and s.islocal(bi[i]):
                continue
            v = s.eqterm(J, ai[i], bi[i])
            if v != PROVED:
                return v, 'builder argument %d: code %s, required %s' % (i + 1, short(J.norm(ai[i])), short(J.norm(bi[i])))
        k = sym('κblk', 64, 0, None)
        j = J.copy()
        if not (j.assume(cle(ZERO, k)) and j.assume(clt(k, bi[0]))):
            return PROVED, ''
        s.paired = s.paired | {k.single()}
        for i, z, nm in ((1, 4, 'block length'), (2, 8, 'displacement'), (3, 8, 'element type')):
            ji, js = j.copy(), j.copy()
            ji.mem, js.mem = a[3].mem, b[3].mem
            vi = s.E.load(ji, add(ai[i], scale(k, z)), z)
            vs = s.E.load(js, add(bi[i], scale(k, z)), z)
            v = s.eqterm(j, vi, vs)
            if v != PROVED:
                return v, '%s of block k: code %s, required %s' % (nm, short(j.norm(vi)), short(j.norm(vs)))
        return PROVED, ''

    def cmpevents(s, J, ei, es, sti, sts):
        res = []
        ei, es = s.events(ei), s.events(es)
        # freed/allocated scratch memory: drop matched malloc/free of storage that is both created and freed here
        ei, es = s.dropscratch(ei), s.dropscratch(es)
        ordered = s.opts.get('ordered')
        if ordered:
            oi = [e for e in ei if e[0] == 'call' and e[1] in ordered]
            os_ = [e for e in es if e[0] == 'call' and e[1] in ordered]
            if [e[1] for e in oi] != [e[1] for e in os_]:
                v = REFUTED if s.sat(J) else UNKNOWN
                s.miscount |= {e[1] for e in oi + os_}
                return [(v, 'sequence of calls: code %s, required %s' % ([e[1] for e in oi], [e[1] for e in os_]))]
            for a, b in zip(oi, os_):
                res.append(s.cmpev1(J, a, b, sti, sts))
            ei = [e for e in ei if e not in oi]
            es = [e for e in es if e not in os_]
        names = []
        for e in ei + es:
            if s.evname(e) not in names:
                names.append(s.evname(e))
        for n in names:
            li = [e for e in ei if s.evname(e) == n]
            ls = [e for e in es if s.evname(e) == n]
            if len(li) != len(ls):
                v = REFUTED if s.sat(J) else UNKNOWN
                if n[0] == 'ext' and n[1] not in CRITICAL or n[0] in ('malloc', 'memset', 'realloc'):
                    v = min(v, UNKNOWN)
                elif n[0] == 'memcpy' and s.othercopy(J, *((ls, sti) if len(li) < len(ls) else (li, sts))):
                    v = min(v, UNKNOWN)
                elif v == REFUTED and n[0] == 'call':
                    s.miscount.add(n[1])
                    if s.opts.get('firm') and not s.firm(J, n[1], li, ls, sti, sts):
                        v = UNKNOWN
                what = n[1] or n[0]
                l = (li or ls)[0][-1]
                res.append((v, '%s: code has %d, required %d (%s)' % (what, len(li), len(ls), at(l))))
                continue
            # best assignment (few events)
            best = None
            perms = itertools.permutations(range(len(ls))) if len(ls) <= 4 else [tuple(range(len(ls)))]
            for pm in perms:
                r = [s.cmpev1(J, a, ls[k], sti, sts) for a, k in zip(li, pm)]
                w = max([x[0] for x in r], default=PROVED)
                if best is None or w < best[0]:
                    best = (w, r)
                if w == PROVED:
                    break
            res.extend(best[1])
        return res

    def othercopy(s, J, copies, st):
        """does the side with fewer block copies write the destination of one
        of the other side's in another way (element by element, say)?"""
        dst = {base_of(J.norm(e[1]))[0] for e in copies}
        for e in st.log():
            if e[0] == 'hv':
                if len(e) <= 3:
                    continue
                w = e[3]
            elif e[0] == 'cp' and not J.norm(e[3]).isconst():
                continue
            else:
                w = e[1]
            b = base_of(J.norm(w))[0]
            if b is None or b in dst:
                return True
        return False

    def firm(s, J, name, li, ls, sti, sts):
        """one side moves data, the other writes nothing at all: a difference
        however the data is moved, unless there is nothing to move"""
        if name not in ('Pcopy_data2', 'copy_data2') or li and ls:
            return False
        for e in (sts if li else sti).log():
            if e[0] == 'hv':
                if len(e) > 3 and not s.visible(e[3]) or name in str(e[2]):
                    continue
                return False
            if s.visible(e[1]):
                return False
        J = J.copy()
        a = (li or ls)[0][2]
        if len(a) != 6:
            return False
        if not (J.assume(clt(ZERO, a[1])) and J.assume(clt(ZERO, a[4])) and J.assume(cnot(ceq(a[0], a[3])))):
            return False
        return bool(s.sat(J))

    def latewrites(s, st):
        """writes to a type's map after its bounds were taken"""
        for a, mem, loc in st.meta.get('bounds', ()):
            b = base_of(st.norm(a))[0]
            for e in st.log(mem):
                if e[0] == 'hv' and len(e) <= 3:
                    continue
                w = e[3] if e[0] == 'hv' else e[1]
                b2, off = base_of(st.norm(w))
                if b is not None and b2 is not None and samebase(st, b, b2) is False:
                    continue
                if b2 is b and e[0] == 'st' and off.isconst() and off.cval() + e[2] <= 48 and off.cval() >= 4:
                    continue
                if not s.visible(w):
                    continue
                return [(UNKNOWN, 'the type is written after its bounds were computed (%s)' % at(loc))]
        return []

    def dropscratch(s, evs):
        made = {e[1] for e in evs if e[0] == 'malloc'}
        freed = {e[1] for e in evs if e[0] == 'free'}
        both = made & freed
        return [e for e in evs if not (e[0] in ('malloc', 'free') and e[1] in both)]

    SAFETY = {'nullderef': 'null pointer dereference', 'uaf': 'use after free', 'doublefree': 'double free',
              'oob': 'access out of bounds', 'uninitptr': 'use of an uninitialised pointer',
              'uninituse': 'use of an uninitialised handle', 'uninitbranch': 'decision on an uninitialised value'}

    def safety(s, J, ei, es):
        res = []
        have = {e[0] for e in es}
        for e in ei:
            if e[0] in s.SAFETY and e[0] not in have:
                v = REFUTED if s.sat(J) else UNKNOWN
                res.append((v, '%s at %s' % (s.SAFETY[e[0]], at(e[-1]))))
        return res + s.bounds(J, ei, es)

    def bounds(s, J, ei, es):
        """accesses to memory of known size whose place depends on values of
        the run: some values allowed here put one of the code's outside"""
        res = []
        todo = [(e, J, frozenset()) for e in ei if e[0] == 'mayoob']
        for e in ei:
            if e[0] == 'loop' and not s.significant(e[1]):
                todo += s.loopbounds(J, e[1])
        if not todo:
            return res
        ok = [e[2] for e in es if e[0] == 'mayoob']
        done = set()
        for e, j, free in todo:
            if e[2] in done:
                continue
            done.add(e[2])
            if {a for a in loopsyms(e[2]) if str(a.args[0])[0] == 'φ' or a not in s.paired | free}:
                continue
            j = j.copy()
            if not all(j.assume(c) for c in ok) or not j.assume(cnot(e[2])):
                continue
            if s.abstracted(e[2], j.facts):
                continue
            if s.sat(j):
                res.append((REFUTED, 'access out of bounds (%s) at %s when %s' % (e[1], at(e[3]), facts(j))))
        return res

    def abstracted(s, c, facts):
        """c depends, directly or through facts, on values known only in part"""
        acc = {a for a in deps(c)}
        left = [deps(f) for f in facts]
        n = -1
        while n != len(acc):
            n = len(acc)
            for d in left:
                if d & acc:
                    acc |= d
        return any(a.kind == 'sym' and str(a.args[0])[0] == 'φ' for a in acc)

    def loopbounds(s, J, L):
        """the same in an arbitrary iteration of a loop in closed form"""
        out = []
        if L.upper is None or any(c[0] == 'sym' for c in L.cls.values()) or any(q['cls'][0] == 'sym' for q in L.mem.values()):
            return out
        # the loop's counter has its final value in J: a name of its own here
        k = sym('κi%d' % L.kappa.id, 64, 0, None)
        f = {L.kappa: k}.get
        for it in L.iters + L.exitl:
            es = [e for e in it.events if e[0] == 'mayoob']
            if not es:
                continue
            j = J.copy()
            if not all(j.assume(substitute(c, f)) for c in list(L.entryfacts) + list(it.facts)):
                continue
            out += [((e[0], e[1], substitute(e[2], f), e[3]), j, frozenset((k.single(),))) for e in es]
        return out

    # -------------------------------------------------------- loops
    def carried(s, L, allq):
        out = []
        for d, c in L.cls.items():
            if c[0] == 'sym' or (allq and c[0] == 'aff'):
                out.append(dict(val=s.E.clsval(c, L.init[d], var(L.kappa)), init=L.init[d], next=[it.next.get(d) for it in L.iters], key=d))
        for k, q in L.mem.items():
            if q['cls'][0] == 'sym' or (allq and q['cls'][0] == 'aff'):
                out.append(dict(val=s.E.clsval(q['cls'], q['init'], var(L.kappa)), init=q['init'], next=[it.memnext[k] for it in L.iters], key=k))
        return out

    def liveset(s, L, outer, acc=None):
        """carried quantities that matter: appear in facts, events, writes, in
        other live quantities, or in the enclosing outcome"""
        acc = set() if acc is None else acc
        acc |= outer
        s.liveuses(L, acc)
        qs = s.carried(L, True)
        live = []
        ch = True
        while ch:
            ch = False
            for q in qs:
                if any(q is x for x in live):
                    continue
                a = q['val'].single()
                if a is not None and a in acc:
                    live.append(q)
                    for n in q['next']:
                        if n is not None:
                            deps(n, acc)
                    # what that keeps alive inside inner loops
                    s.liveuses(L, acc)
                    ch = True
        return live

    def liveuses(s, L, acc):
        r = getattr(L, '_uses', None)
        if r is None:
            own, inner = set(), []
            for it in L.iters + L.exitl:
                for c in it.facts:
                    deps(c, own)
                for e in it.events:
                    if e[0] == 'loop':
                        inner.append(e)
                    else:
                        s.evdeps(e, own)
            for it in L.iters:
                for w in it.writes:
                    if w[0] == 'st' and s.visible(w[1]):
                        deps(w[1], own)
                        if (w[1], w[2]) not in L.mem:
                            deps(w[3], own)
            r = L._uses = (own, inner)
        acc |= r[0]
        for e in r[1]:
            s.evdeps(e, acc)

    def evdeps(s, e, acc):
        for x in e:
            if isinstance(x, (Poly, Cond)):
                deps(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Poly, Cond)):
                        deps(y, acc)
            elif isinstance(x, LoopEv):
                for q in s.liveset(x, acc, acc):
                    deps(q['init'], acc)

    def endless(s, L):
        """once an iteration is complete no exit of L is possible any more"""
        r = getattr(L, '_endless', None)
        if r is not None:
            return r
        L._endless = ''
        if not L.exitl:
            return ''           # nothing is known about how it ends
        first = {L.kappa: ZERO}.get
        for it in L.iters:
            f0 = [c for c in (substitute(c, first) for c in it.facts) if not any(str(a.args[0])[0] == 'φ' for a in loopsyms(c))]
            J = s.joint([substitute(c, first) for c in L.entryfacts], f0)
            if J is None:
                continue
            if any(s.joint(L.entryfacts, list(f0) + list(ex.facts), [cle(ONE, var(L.kappa))]) is not None for ex in L.exitl):
                continue
            if len(f0) == len(it.facts) and s.sat(J):
                L._endless = 'the loop at %s does not end when %s' % (at(L.loc), facts(J))
                break
        return L._endless

    def noiter(s, J, L, eqs):
        """no iteration of L is possible under J"""
        eq0 = [ceq(var(L.kappa), ZERO)]
        for q in s.carried(L, True):
            c = ceq(q['val'], q['init'])
            if c is FALSE:
                return False
            if c is not TRUE:
                eq0.append(c)
        # the unknowns of L now denote its first iteration: drop facts on them
        own = {L.kappa}
        for q in s.carried(L, True):
            own |= loopsyms(q['val'])
        own = {a for a in own if a in (L.kappa,) or any(a in loopsyms(q['val']) and a not in loopsyms(q['init']) for q in s.carried(L, True))}
        ent = set()
        for c in L.entryfacts:
            ent |= loopsyms(c)
        for it in L.iters + L.exitl:
            for c in it.facts:
                own |= loopsyms(c) - ent
        keep = [c for c in J.facts if not (deps(c) & own)]
        for it in L.iters + L.exitl:
            if it.kind == 'leave':
                continue
            if s.joint(keep + list(L.entryfacts), it.facts, eq0) is not None:
                return False
        return True

    def unify(s, Li, Ls, eqs, outer_i, outer_s):
        """compare two loops; returns (eqs', verdicts dict, paired symbols) or None"""
        live_i = s.liveset(Li, outer_i)
        live_s = s.liveset(Ls, outer_s)
        key = (id(Li), id(Ls), tuple(sorted(repr(q['key']) for q in live_i)), tuple(sorted(repr(q['key']) for q in live_s)), eqs)
        s.tick()
        r = s.loopmemo.get(key)
        if r is None:
            r = s.loopmemo[key] = s._unify(Li, Ls, eqs, live_i, live_s)
            s._keep = getattr(s, '_keep', [])
            s._keep.append((Li, Ls))
        return r

    def _unify(s, Li, Ls, eqs, live_i, live_s):
        base = s.joint(Li.entryfacts, Ls.entryfacts, eqs)
        if base is None:
            return ('dead',)
        qs = [q for q in live_s]
        kqs = {q['key'] for q in qs}
        qi = [q for q in live_i]
        # every live unknown of either side must be paired; a closed-form
        # quantity of the other side may serve as partner
        all_i, all_s = s.carried(Li, True), s.carried(Ls, True)
        options = []
        for q in qs:
            c = []
            for r in all_i:
                v = s.eqterm(base, r['init'], q['init'])
                c.append((v, r))
            options.append(sorted(c, key=lambda x: (x[0], -s.alike(x[1], Li, q, Ls))))
        best = None
        tried = 0
        for combo in s.assignments(options):
            tried += 1
            if tried > 40:
                break
            used = {r['key'] for _, r in combo}
            left = [r for r in qi if r['key'] not in used]
            pairs = [(r, q) for (_, r), q in zip(combo, qs)]
            # left-over unknowns of the code must pair with closed forms of the model
            ok = True
            for r in left:
                f = [q for q in all_s if q['key'] not in kqs and s.eqterm(base, r['init'], q['init']) == PROVED]
                if not f:
                    ok = False
                    break
                pairs.append((r, f[0]))
            if not ok:
                continue
            nd = sum(1 for r, q in pairs if s.eqterm(base, r['init'], q['init']) != PROVED)
            if nd > 1:
                continue
            res = s.trypairs(Li, Ls, eqs, pairs)
            if res is None:
                continue
            score = sum(res[1][k][0] for k in res[1])
            if best is None or score < best[0]:
                best = (score, res)
            if score == 0:
                break
        return best[1] if best else None

    def shape(s, q, L):
        """how a carried quantity changes, with the loop's own unknowns blanked"""
        r = q.get('shape')
        if r is None:
            k = var(L.kappa)
            a0 = q['val'].single()
            W = {}

            def f(a):
                if a is L.kappa:
                    return sym('κ*', 64, 0, None)
                if a is a0:
                    return sym('φself', a.bits)
                if a.kind == 'sym' and str(a.args[0])[0] in 'φκ':
                    return sym('φother', a.bits)
                return None
            r = []
            for n in q['next']:
                if n is None:
                    continue
                try:
                    r.append(repr(substitute(sub(n, q['val']), f)))
                except Exception:
                    r.append('?')
            q['shape'] = r
        return r

    def alike(s, r, Li, q, Ls):
        a, b = s.shape(r, Li), s.shape(q, Ls)
        a, b = set(a), set(b)
        w = 0.5 if (type(r['key']) is type(q['key'])) else 0
        w += 0.5 if r['val'].single() is not None and q['val'].single() is not None and r['val'].single().bits == q['val'].single().bits else 0
        return 2.0 * len(a & b) / max(1, len(a | b)) + w

    def assignments(s, options):
        if not options:
            yield []
            return
        def rec(i, used):
            if i == len(options):
                yield []
                return
            for v, r in options[i]:
                if id(r) in used:
                    continue
                for rest in rec(i + 1, used | {id(r)}):
                    yield [(v, r)] + rest
        yield from rec(0, frozenset())

    def trypairs(s, Li, Ls, eqs, pairs):
        neweqs = eqs + (ceq(var(Li.kappa), var(Ls.kappa)),)
        comp = {'init': (PROVED, ''), 'bound': (PROVED, ''), 'step': (PROVED, '')}
        base0 = s.joint(Li.entryfacts, Ls.entryfacts, eqs)
        for r, q in pairs:
            # equality of the paired quantities is only a candidate invariant:
            # where it fails, nothing is refuted
            v = min(UNKNOWN, s.eqterm(base0, r['init'], q['init']))
            if v > comp['init'][0]:
                comp['init'] = (v, 'start value: code %s, required %s' % (short(base0.norm(r['init'])), short(base0.norm(q['init']))))
            c = ceq(r['val'], q['val'])
            if c == FALSE:
                return None
            if c != TRUE:
                neweqs = neweqs + (c,)
        sp = s.paired
        s.paired = s.paired | {Li.kappa, Ls.kappa}
        for r, q in pairs:
            s.paired |= loopsyms(r['val']) | loopsyms(q['val'])
        paired = s.paired
        try:
            base = s.joint(Li.entryfacts, Ls.entryfacts, neweqs)
            if base is None:
                return None
            worst = (PROVED, '')
            phibad, s.phibad = s.phibad, comp['init'][0] != PROVED
            ti = [('back', it, i) for i, it in enumerate(Li.iters)] + [(it.kind, it, None) for it in Li.exitl]
            ts = [('back', it, i) for i, it in enumerate(Ls.iters)] + [(it.kind, it, None) for it in Ls.exitl]
            ent = tuple(Ls.entryfacts) + tuple(Li.entryfacts)
            for ks, b, nb in ts:
                for ki, a, na in ti:
                    J = s.joint(a.facts, b.facts, neweqs, ent)
                    if J is None:
                        continue
                    if ki != ks:
                        if ki in ('leave', 'ret') and ks in ('leave', 'ret'):
                            continue
                        r = s.cmploops(J, a.events, b.events, neweqs, set(), set(), a.facts, b.facts, Li, Ls)
                        if r == 'dead':
                            continue
                        if r is None or r[0] == 'differ':
                            v = UNKNOWN
                        else:
                            J = r[0]
                            sp2, s.paired = s.paired, r[3]
                            v = REFUTED if s.sat(J) else UNKNOWN
                            s.paired = sp2
                            if any(c[0] != PROVED for comp in r[2] for c in comp.values()):
                                v = UNKNOWN
                        r = (v, 'iteration of the loop at %s: code %s, required %s when %s' % (at(Li.loc), KN(ki), KN(ks), facts(J)))
                    elif ki == 'back':
                        r = s.cmpiter(J, Li, Ls, a, b, na, nb, pairs, neweqs)
                    else:
                        continue
                    if len(r) > 2:
                        # a difference in what one iteration stores and in
                        # nothing else: settled by the memory after the loop
                        # where that is known
                        if r[0] > comp.get('mem', (PROVED,))[0]:
                            comp['mem'] = r[:2]
                    elif r[0] > worst[0]:
                        worst = r
            if s.phibad:
                worst = (min(worst[0], UNKNOWN), worst[1])
            s.phibad = phibad
            comp['step'] = worst
            return (neweqs, comp, paired)
        finally:
            s.paired = sp

    def cmpiter(s, J, Li, Ls, a, b, na, nb, pairs, eqs):
        r = s.cmploops(J, a.events, b.events, eqs, set(), set(), a.facts, b.facts, Li, Ls)
        if r == 'dead':
            return (PROVED, '')
        if r is None:
            return (UNKNOWN, 'inner loops differ in shape')
        if r[0] == 'differ':
            return s.combine([], r[1], False)
        J2, eqs2, comps, paired = r
        sp = s.paired
        s.paired = paired
        try:
            res = []
            for r_, q in pairs:
                x, y = r_['next'][na], q['next'][nb]
                v = min(UNKNOWN, s.eqterm(J2, x, y))
                if v:
                    s.phibad = True
                res.append((v, 'next value in the loop at %s: code %s, required %s when %s' % (at(Li.loc), short(J2.norm(x)), short(J2.norm(y)), facts(J2)) if v else ''))
            res += s.cmpevents(J2, a.events, b.events, a.st, b.st)
            res += s.safety(J2, a.events, b.events)
            li = a.st.log(Li.top)
            ls = b.st.log(Ls.top)
            keysi = {k for k in Li.mem}
            li2 = [e for e in li if not (e[0] == 'st' and (e[1], e[2]) in Li.mem)]
            ls2 = [e for e in ls if not (e[0] == 'st' and (e[1], e[2]) in Ls.mem)]
            r = s.combine(res, comps, False)
            m = s.cmpmem(J2, a.st, b.st, li2, ls2)
            if r[0] == PROVED and not s.calls(a.events) and not s.calls(b.events):
                m = max(m, key=lambda x: x[0], default=r)
                return m + ('mem',) if m[0] != PROVED else r
            return s.combine(res + m, comps, False)
        finally:
            s.paired = sp

    def calls(s, evs):
        return any(e[0] in ('call', 'ext', 'icall', 'memcpy', 'memset') or e[0] == 'loop' and any(s.calls(i.events) for i in e[1].iters + e[1].exitl) for e in evs)

    def cmploops(s, J, evi, evs, eqs, outer_i, outer_s, fi, fs, Pi, Ps):
        """unify the significant loops of two event lists; None when impossible"""
        li, ls = s.loops(evi), s.loops(evs)
        comps = []
        paired = s.paired
        li, ls = list(li), list(ls)
        # only trailing context matters for liveness: collect everything else
        while li or ls:
            r = None
            if li and ls:
                a, b = li[0], ls[0]
                oi, os_ = set(outer_i), set(outer_s)
                for c in fi:
                    deps(c, oi)
                for c in fs:
                    deps(c, os_)
                for e in evi:
                    if not (e[0] == 'loop' and e[1] is a):
                        s.evdeps(e, oi)
                for e in evs:
                    if not (e[0] == 'loop' and e[1] is b):
                        s.evdeps(e, os_)
                sp = s.paired
                s.paired = paired
                r = s.unify(a, b, eqs, oi, os_)
                s.paired = sp
            good = r is not None and r[0] != 'dead' and all(c[0] == PROVED for c in r[1].values())
            if not good and (len(li) != len(ls) or r is None):
                J1 = s.joint(J.facts, (), eqs)
                if J1 is None:
                    return 'dead'
                if li and s.noiter(J1, li[0], eqs):
                    li.pop(0)
                    continue
                if ls and s.noiter(J1, ls[0], eqs):
                    ls.pop(0)
                    continue
            if r is None or r[0] == 'dead':
                return None
            li.pop(0)
            ls.pop(0)
            eqs, comp, pr = r
            paired = paired | pr
            comps.append(comp)
        if comps:
            J2 = s.joint([c for c in J.facts], (), eqs)
            if J2 is None:
                # (what an iteration stores is compared where both outcomes
                # are possible together)
                if any(c[0] != PROVED for comp in comps for k, c in comp.items() if k != 'mem'):
                    # the loops themselves differ: nothing follows from their
                    # not being left in the same state
                    return ('differ', comps)
                return 'dead'
            J = J2
        return J, eqs, comps, paired

    @staticmethod
    def aspect(t):
        if t.startswith('ends by') or t.startswith('exit status'):
            return 'diag' if 'without a diagnostic' in t else 'kind'
        if t.startswith('iteration of'):
            return 'safety' if 'code an invalid access' in t else 'kind' if 'code abort()' in t or 'required abort()' in t else 'mem'
        if t.startswith(('output on', 'a required diagnostic')):
            return 'quiet'
        if t.startswith(tuple(Cmp.SAFETY.values())):
            return 'safety'
        return 'value' if t.startswith('returns ') else 'mem'

    def combine(s, res, comps, top=True):
        asp = s.opts.get('aspects') if top else None
        if asp:
            res = [x for x in res if x[0] == PROVED or s.aspect(x[1]) in asp]
            if 'mem' not in asp:
                worst = max(res, key=lambda x: x[0], default=(PROVED, ''))
                bad = [c for comp in comps for c in comp.values() if c[0] != PROVED]
                if bad and worst[0] != PROVED:
                    return (UNKNOWN, worst[1])
                for c in bad:
                    if s.aspect(c[1]) in asp and c[0] > worst[0]:
                        worst = c
                return worst
        worst = max(res, key=lambda x: x[0], default=(PROVED, ''))
        bad = [(k, c) for comp in comps for k, c in comp.items() if c[0] != PROVED]
        if not bad:
            return worst
        if worst[0] == PROVED and len(bad) == 1:
            return bad[0][1]
        return (UNKNOWN, worst[1] or bad[0][1][1])

    # -------------------------------------------------------- outcomes
    def outdeps(s, l):
        acc = set()
        if l.val is not None:
            deps(l.val, acc)
        done = set()
        for e in l.st.log():
            if e[0] == 'st' and s.visible(e[1]):
                a = l.st.norm(e[1])
                if (a, e[2]) in done:
                    continue
                done.add((a, e[2]))
                deps(e[1], acc)
                # what remains at the end, not what was there in between
                st = l.st.copy()
                s.E.split = None
                v = s.E.load(st, a, e[2])
                s.E.split = None
                if v is not None:
                    deps(v, acc)
                    deps(l.st.norm(v), acc)
            elif e[0] == 'fill':
                deps(e[1], acc)
                if e[3] is not None:
                    deps(e[3], acc)
                deps(e[5], acc)
        return acc

    def pair(s, li, ls):
        """verdict for one pair of outcomes; None when jointly impossible"""
        s.tick()
        J = s.joint(li.st.facts, ls.st.facts)
        if J is None:
            return None
        evi, evs = li.st.events(), ls.st.events()
        s.setlogs(li.st.log(), ls.st.log())
        s.onesided = s.extnames(evi, set()) ^ s.extnames(evs, set())
        r = s.cmploops(J, evi, evs, (), s.outdeps(li), s.outdeps(ls), li.st.facts, ls.st.facts, None, None)
        if r == 'dead':
            return None
        if r is None:
            if s.loops(evi) or s.loops(evs):
                return (UNKNOWN, 'loops differ in shape')
            r = (J, (), [], s.paired)
        if r[0] == 'differ':
            return s.combine([], r[1])
        J, eqs, comps, paired = r
        sp = s.paired
        s.paired = paired
        try:
            s.npairs += 1
            if li.kind != ls.kind:
                v = REFUTED if s.sat(J) else UNKNOWN
                if v == UNKNOWN:
                    return (v, 'ends by %s, required %s (no witness)' % (li.kind, ls.kind))
                return s.combine([(v, 'ends by %s%s, required %s when %s' % (KN(li.kind), ' at ' + at(li.loc) if li.loc else '', KN(ls.kind), facts(J)))], comps)
            res = []
            if li.kind == 'ret' and ls.val is not None and li.val is not None:
                v = s.eqterm(J, li.val, ls.val)
                res.append((v, 'returns %s, required %s when %s' % (short(J.norm(li.val)), short(J.norm(ls.val)), facts(J)) if v else ''))
            if li.kind == 'exit' and ls.val is not None:
                v = s.eqterm(J, li.val, ls.val)
                if v == REFUTED and s.opts.get('anyexit', True):
                    # only success or failure of the process matters
                    a, b = J.norm(li.val), J.norm(ls.val)
                    if a.isconst() and b.isconst() and (a.cval() & 255 != 0) == (b.cval() & 255 != 0):
                        v = PROVED
                res.append((v, 'exit status %s, required %s' % (short(li.val), short(ls.val)) if v else ''))
            if li.kind in ('abort', 'exit') and s.opts.get('diag', True):
                if s.hasout(evs) and not told(evi):
                    v = REFUTED if s.sat(J) else UNKNOWN
                    res.append((v, 'ends by %s at %s without a diagnostic%s' % (KN(li.kind), at(li.loc), ' on standard error' if s.hasout(evi) else '')))
            if li.kind == 'ret':
                if s.opts.get('quiet') and s.hasout(evi) and not s.hasout(evs):
                    v = REFUTED if s.sat(J) else UNKNOWN
                    o = [e for e in evi if e[0] == 'out']
                    res.append((v, 'output on a successful path%s' % (' at ' + at(o[0][-1]) if o else '')))
                if s.hasout(evs) and not s.hasout(evi) and s.opts.get('quiet'):
                    v = REFUTED if s.sat(J) else UNKNOWN
                    res.append((v, 'a required diagnostic is missing'))
                m = s.cmpmem(J, li.st, ls.st, li.st.log(), ls.st.log())
                if all(x[0] == PROVED for x in m) and not s.hasloophv(li.st.log()) and not s.hasloophv(ls.st.log()):
                    comps = [{k: c for k, c in comp.items() if k != 'mem'} for comp in comps]
                res += m
                res += s.cmpevents(J, evi, evs, li.st, ls.st)
                res += s.latewrites(li.st) + s.latewrites(ls.st)
            elif not s.opts.get('effects_before_abort'):
                # nobody sees the memory of a program that has ended
                comps = [{k: c for k, c in comp.items() if k != 'mem'} for comp in comps]
            else:
                res += s.cmpevents(J, evi, evs, li.st, ls.st)
            res += s.safety(J, evi, evs)
            return s.combine(res, comps)
        finally:
            s.paired = sp

    def hasout(s, evs):
        for e in evs:
            if e[0] == 'out':
                return True
            if e[0] == 'loop':
                if any(s.hasout(it.events) for it in e[1].iters):
                    return True
        return False


CRITICAL = ('gethostname', 'gettimeofday', 'clock_gettime', 'mpi_get_fort_pointers_')
WATCH = {'initialized', 'f_MPI_STATUS_IGNORE', 'f_MPI_STATUSES_IGNORE', 'f_MPI_IN_PLACE', 'nextfree', 'blocks',
         'nblocks', 'need_to_init', 'block0'}


def KN(k):
    return {'ret': 'returning', 'abort': 'abort()', 'exit': 'exit()', 'crash': 'an invalid access', 'back': 'continues', 'leave': 'leaving the loop'}.get(k, k)


def at(loc):
    try:
        return '%s:%d' % (loc[0], loc[1])
    except Exception:
        return '?'


def short(x, n=220):
    t = repr(x)
    return t if len(t) <= n else t[:n] + '...'


def facts(st, n=6):
    fs = [repr(c) for c in st.facts if not (c.k == 'le' and False)]
    fs = [f for f in fs if len(f) < 120]
    return ' and '.join(fs[-n:]) if fs else 'always'


def args_for(E, f, names=None):
    out = []
    for i, (n, t) in enumerate(f.params):
        nm = 'arg%d' % (i + 1)
        if t.k == 'ptr':
            out.append(sym(nm, 64, None, None, True))
        elif t.k == 'int':
            out.append(sym(nm, t.bits))
        else:
            out.append(sym(nm))
    return out
