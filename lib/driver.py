"""Conformance of a function with its reference model(s)."""
import itertools
import sys
import time
import traceback
sys.setrecursionlimit(20000)
import terms as T
from terms import *
import engine
import build
import contracts as C
import compare
from compare import PROVED, UNKNOWN, REFUTED, Cmp, VN


class Verdict:
    def __init__(s, v, text='', loc=None, stats=None):
        s.v, s.text, s.loc, s.stats = v, text, loc, stats or {}

    def __repr__(s):
        return '%s %s' % (VN[s.v], s.text)


def c_assume(E, st, args, loc, leaves):
    a = st.norm(args[0])
    c = E.tocond(st, a) if hasattr(E, 'tocond') else None
    if not st.assume(cnot(ceq(a, ZERO))):
        return []
    return [(st, None)]


def symargs(f):
    out = []
    for i, (n, t) in enumerate(f.params):
        nm = 'arg%d' % (i + 1)
        if t.k == 'ptr':
            out.append(sym(nm + 'p', 64, 4096, None, True))
        elif t.k == 'int':
            out.append(sym(nm if t.bits == 32 else nm + '_%d' % t.bits, t.bits))
        else:
            out.append(sym(nm + 'x'))
    return out


class Conf:
    """one analysis configuration: contracts in force"""

    def __init__(s, name, groups=(), without=(), opaque=(), opaque_all=False, whole=False):
        s.name, s.groups, s.without, s.opaque = name, groups, without, opaque
        s.opaque_all = opaque_all
        s.whole = whole


def mkengine(B, conf, fn=None):
    E = engine.Engine(B.mod)
    t = C.table(B.mod, *conf.groups, without=tuple(conf.without))
    op = conf.opaque
    if conf.opaque_all:
        op = [n for n in list(B.mod.funcs) if n.startswith('MPI_') or n in ('FGet_address',)]
    for n in op:
        f = B.mod.funcs.get(n)
        if f is not None and n != fn and n not in conf.without:
            t[n] = C.opaque_mpi(n, f, B.mod, conf.whole)
    t['spec_assume'] = c_assume
    t.pop(fn, None)
    E.contracts = t
    E.fnname = fn
    return E


def leaves(B, E, fn, args, pre=None):
    st = pre.copy() if pre is not None else engine.State()
    return E.run(fn, args, st)


def preconditions(B, E, fn, args, scenario=False):
    """what the callers of fn guarantee (spec__pre_<fn>): one state per case.
    spec__peel_<fn>: the small cases in which a difference is looked for when
    the general comparison is inconclusive"""
    p = 'spec__pre_' + fn
    if scenario and 'spec__peel_' + fn in B.mod.funcs:
        p = 'spec__peel_' + fn
    if p not in B.mod.funcs:
        return [None]
    out = []
    for l in leaves(B, E, p, args):
        if l.kind == 'ret':
            st = engine.State()
            if all(st.assume(c) for c in l.st.facts):
                out.append(st)
    return out


# arguments with a meaning of their own, besides ordinary ones:
# (argument index, value): MPI_IN_PLACE, MPI_STATUS(ES)_IGNORE, MPI_BOTTOM
SPECIAL = {}
for _n, _k in dict(Gather=0, Gatherv=0, Allgather=0, Allgatherv=0, Scatter=3, Scatterv=4, Reduce=0, Allreduce=0,
                   Reduce_scatter=0, Scan=0, Alltoall=0, Alltoallv=0, Alltoallw=0).items():
    SPECIAL['MPI_' + _n] = [(_k, -1)]
for _n, _k in dict(Recv=6, Sendrecv=11, Iprobe=4, Probe=3, Test=2, Wait=1, Testany=4, Waitany=3, Testall=3, Waitall=2,
                   Testsome=4, Waitsome=4).items():
    SPECIAL['MPI_' + _n] = [(_k, 0)]
for _n in ('Isend', 'Irecv', 'Send', 'Ssend', 'Rsend', 'Irsend', 'Recv', 'Bcast', 'Gather', 'Scatter', 'Allgather', 'Alltoall',
           'Reduce', 'Allreduce', 'Pack', 'Get_address', 'Address'):
    SPECIAL.setdefault('MPI_' + _n, []).append((0, 0))
for _n, _k in dict(Unpack=3, Gather=3, Scatter=3, Allgather=3, Alltoall=3, Reduce=1, Allreduce=1, Sendrecv=5).items():
    SPECIAL.setdefault('MPI_' + _n, []).append((_k, 0))
for _n, _k in (('copy_data2', 0), ('copy_data2', 3), ('Pcopy_data2', 0), ('Pcopy_data2', 3), ('Pack', 0), ('Unpack', 3)):
    SPECIAL.setdefault(_n, []).append((_k, 0))

# arrays of no elements may be null; a program may be started without arguments
EMPTY = {'MPI_Init': [(0, 1)], 'MPI_Init_thread': [(0, 1)], 'MPI_Waitall': [(0, 1, 2)], 'MPI_Testall': [(0, 1, 3)],
         'MPI_Testany': [(0, 1)], 'MPI_Waitany': [(0, 1)], 'MPI_Testsome': [(0, 1, 3)], 'MPI_Waitsome': [(0, 1, 3)],
         'MPI_Group_incl': [(1, 2)], 'MPI_Group_range_incl': [(1, 2)], 'MPI_Group_translate_ranks': [(1, 2, 4)],
         'MPI_Cart_create': [(1, 2, 3)], 'MPI_Cart_get': [(1, 2, 3, 4)], 'MPI_Cart_coords': [(2, 3)], 'MPI_Dims_create': [(1, 2)],
         'MPI_Type_struct': [(0, 1, 2, 3)], 'Type_struct': [(0, 1, 2, 3)], 'MPI_Type_hindexed': [(0, 1, 2)], 'Type_hindexed': [(0, 1, 2)],
         'MPI_Type_indexed': [(0, 1, 2)], 'Type_indexed': [(0, 1, 2)], 'MPI_Type_create_indexed_block': [(0, 2)],
         'Type_create_indexed_block': [(0, 2)]}


def situations(fn, args):
    yield args
    for z in [[kv] for kv in SPECIAL.get(fn, ())] + [[(k, 0) for k in ks] for ks in EMPTY.get(fn, ())]:
        a = list(args)
        for k, v in z:
            if k < len(a):
                a[k] = const(v)
        yield a


def conform1(B, fn, spec, conf, opts, pre=None, perms=None):
    """compare fn with one model under one configuration"""
    f, g = B.mod.funcs[fn], B.mod.funcs[spec]
    E = mkengine(B, conf, fn)
    E.deadline = opts.get('deadline')
    E.peel = opts.get('peel', 0)
    args = symargs(g)
    if len(f.params) != len(g.params):
        return Verdict(REFUTED, '%s takes %d parameters, %d required' % (fn, len(f.params), len(g.params)), B.mod.fnloc(f))
    for (n, t), (n2, t2) in zip(f.params, g.params):
        if t.k != t2.k or (t.k == 'int' and t.bits != t2.bits):
            return Verdict(REFUTED, '%s: parameter types differ from the declared interface' % fn, B.mod.fnloc(f))
    worst = Verdict(PROVED)
    npair = npaths = nmodel = 0
    nterms = nwit = nloops = 0
    touched, differ, objs, nobj = set(), set(), set(), {}
    cases = [(p, a) for a in situations(fn, args) for p in preconditions(B, E, fn, a, opts.get('scenario'))]
    order = sorted(range(len(cases)), key=lambda i: i != opts.get('first'))
    for case in order:
        pst, args = cases[case]
        E.calledc = set()
        E.objperm = {}
        E.stuck = []
        li = leaves(B, E, fn, args, pst)
        stuck, E.stuck = E.stuck, []
        touched |= set(E.fnvisited)
        calli, E.calledc = E.calledc, set()
        E.objperm = perms or {}
        ls = leaves(B, E, spec, args, pst)
        E.objperm = {}
        c = Cmp(E, opts=opts)
        if not any(c.endless(e[1]) for b in ls for e in b.st.events() if e[0] == 'loop'):
            for a in li:
                for e in a.st.events():
                    if e[0] == 'loop' and c.endless(e[1]):
                        worst = Verdict(REFUTED, c.endless(e[1]), e[1].loc)
        for st, loc in stuck if not E.peel else ():
            for b in ls:
                J = c.joint(st.facts, b.st.facts) if b.kind == 'ret' else None
                if J is not None and c.sat(J):
                    worst = Verdict(REFUTED, 'the loop at %s:%s does not end when %s' % (loc[0], loc[1], compare.facts(J)), loc)
                    break
        for a in li if worst.v != REFUTED else ():
            for b in ls:
                r = c.pair(a, b)
                if r is None:
                    continue
                npair += 1
                v, t = r
                if v > worst.v:
                    worst = Verdict(v, t, a.loc)
                    if v == REFUTED:
                        break
            if worst.v == REFUTED:
                break
        npaths += len(li)
        nmodel += len(ls)
        nterms += c.nterms
        nwit += c.nwit
        differ |= (calli ^ E.calledc) | c.miscount
        for l in ls:
            for k in l.st.meta:
                if isinstance(k, tuple) and k[0] == 'cnt' and l.st.meta[k] > 1:
                    objs.add(k[1])
                    nobj[k[1]] = max(nobj.get(k[1], 0), l.st.meta[k])
        if worst.v == REFUTED:
            worst.case = case
            break
    touched = sorted(touched)
    worst.stats = dict(paths=npaths, model_paths=nmodel, pairs=npair, terms=nterms, witnesses=nwit, loops=E.nloops, functions=[t for t in touched if not t.startswith('spec_')])
    worst.bypassed = differ & set(E.contracts)
    worst.objs = sorted(objs)
    worst.nobj = nobj
    if npair == 0 and worst.v != REFUTED:
        worst = Verdict(UNKNOWN, 'no joint outcome', stats=worst.stats)
        worst.objs = []
    return worst


def permutations(v):
    kinds = [k for k in v.objs if 1 < v.nobj[k] <= 3]
    ps = []
    for k in kinds:
        n = v.nobj[k]
        ps.append([(k, p) for p in itertools.permutations(range(1, n + 1))])
    for combo in itertools.islice(itertools.product(*ps), 1, 24):
        yield {k: dict(zip(range(1, len(p) + 1), p)) for k, p in combo}


RELEVANT = set()
for _g in (C.HANDLES, C.LISTS, C.TYPES, C.BUILDER, C.COPY, C.BOUNDS):
    RELEVANT |= set(_g)


def attempt(B, fn, sp, conf, opts, limit):
    opts = dict(opts, deadline=time.time() + limit)
    try:
        v = conform1(B, fn, sp, conf, opts)
        if v.v == REFUTED and getattr(v, 'objs', None):
            for pm in permutations(v):
                w = conform1(B, fn, sp, conf, opts, perms=pm)
                if w.v < v.v:
                    v = w
                if v.v == PROVED:
                    break
    except (engine.Imprecise, RecursionError) as e:
        v = Verdict(UNKNOWN, 'analysis gave up: %s' % (e,))
    except Exception as e:
        if opts.get('debug'):
            raise
        v = Verdict(UNKNOWN, 'analysis error: %s' % traceback.format_exc()[-600:])
    v.conf, v.spec = conf.name, sp
    return v


def conform(B, fn, specs, conf, opts=None, limit=60):
    """PROVED when some model of fn is proved.  REFUTED when every model is
    refuted, also with those internal helpers inlined on both sides that only
    one side calls (a helper that was bypassed is not a violation as such)."""
    opts = opts or {}
    if fn not in B.mod.funcs:
        return Verdict(REFUTED, '%s is not defined' % fn) if opts.get('exported', True) else Verdict(UNKNOWN, '%s is not defined' % fn)
    t0 = time.time()
    vs = []
    for sp in specs:
        if sp not in B.mod.funcs:
            vs.append(Verdict(UNKNOWN, 'model %s did not compile' % sp))
            continue
        v = rounds(B, fn, sp, conf, opts, limit)
        v.stats['wall'] = round(time.time() - t0, 2)
        vs.append(v)
        if v.v == PROVED:
            return v
    worst = min(vs, key=lambda x: x.v)
    if worst.v == UNKNOWN and opts.get('peeling', True):
        # loops that could not be matched: look for a difference within their
        # first iterations; agreement there proves nothing
        ws = []
        for sp, v in zip(specs, vs):
            if v.v == REFUTED:
                ws.append(v)
                continue
            for k in (0, 1, 2, 3) if 'spec__peel_' + fn in B.mod.funcs else (1, 2, 3):
                w = rounds(B, fn, sp, conf, dict(opts, peel=k or 3, scenario=k == 0), limit / 4)
                if w.v == REFUTED:
                    break
            if w.v != REFUTED:
                return worst
            w.text += ' (in the first %d iterations of the loops)' % k if k else ' (small case)'
            w.stats['wall'] = round(time.time() - t0, 2)
            ws.append(w)
        return ws[0]
    return worst


def rounds(B, fn, sp, conf, opts, limit):
    v = rounds1(B, fn, sp, conf, opts, limit)
    if v.v == UNKNOWN and v.conf != conf.name:
        # inconclusive with the helpers that one side does not call analysed
        # as well: differences that do not depend on how those work?
        w = attempt(B, fn, sp, conf, dict(opts, firm=True), limit)
        if w.v == REFUTED:
            return w
    return v


def rounds1(B, fn, sp, conf, opts, limit):
    wo = set(conf.without) | (set(C.BOUNDS) if opts.get('peel') else set())
    cf = Conf(conf.name, conf.groups, tuple(wo), conf.opaque, conf.opaque_all, conf.whole)
    for rnd in range(4):
        v = attempt(B, fn, sp, cf, opts, limit)
        if v.v != REFUTED:
            break
        by = (getattr(v, 'bypassed', set()) & (RELEVANT if opts.get('strict') else RELEVANT | set(B.mod.funcs))) - wo
        if not by:
            break
        wo |= by
        opts = dict(opts, first=getattr(v, 'case', None))
        cf = Conf(conf.name + '-' + '-'.join(sorted(wo)), conf.groups, tuple(wo), conf.opaque, conf.opaque_all, conf.whole)
    return v
