"""Deciders that are not a comparison with a reference model: tables, constants,
interfaces, configurations, and rules over all functions."""
import os
import re
import shutil
import subprocess
import tempfile
import json
import build
import contracts as C
import engine
import irparse
from driver import Conf, mkengine, Verdict, symargs
from compare import PROVED, UNKNOWN, REFUTED
from terms import *
import terms as T


class Ob:
    """outcome of one obligation"""

    def __init__(s, name, v, text='', loc=None, stats=None, rule=''):
        s.name, s.v, s.text, s.loc, s.stats, s.rule = name, v, text, loc, stats or {}, rule


def scratch(fn):
    def f(*a, **k):
        d = tempfile.mkdtemp(prefix='verif-chk-')
        try:
            open(os.path.join(d, 'config.h'), 'w').write(build.CONFIG)
            return fn(*a, d=d, **k)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    f.__name__ = fn.__name__
    return f


@scratch
def probe(exprs, headers, defines=(), d=None):
    """values of C constant expressions over /repo's headers (the compiler's
    constant folder, read from the IR)"""
    src = ''.join('#include "%s"\n' % h for h in headers) + '#include <stddef.h>\n#include <wchar.h>\n'
    for i, e in enumerate(exprs):
        src += 'const long long P_%d = (long long)(%s);\n' % (i, e)
    c = os.path.join(d, 'p.c')
    open(c, 'w').write(src)
    o = os.path.join(d, 'p.ll')
    rc, out, err = build.run([build.CLANG(), '-S', '-emit-llvm', '-O0', '-w', '-DHAVE_CONFIG_H', '-I' + d, '-I' + build.REPO]
                             + ['-D' + x for x in defines] + ['-o', o, c])
    if rc:
        return None, err
    m = irparse.Module().parse(open(o).read())
    r = []
    for i in range(len(exprs)):
        g = m.globals['P_%d' % i]
        if g.init[0] == 'i':
            v = g.init[1]
            r.append(v - (1 << 64) if v >= 1 << 63 else v)
        elif g.init[0] in ('zero', 'null'):
            r.append(0)
        else:
            r.append(None)
    return r, ''


def probe1(exprs, headers, defines=()):
    """as probe, tolerating expressions that do not compile"""
    r, err = probe(exprs, headers, defines)
    if r is not None:
        return r
    out = []
    for e in exprs:
        q, er = probe([e], headers, defines)
        out.append(q[0] if q is not None else None)
    return out


# --------------------------------------------------------------- constant runs
def runconst(B, fn, args, st=None, conf=None, ginit=()):
    E = mkengine(B, conf or Conf('plain'), fn)
    E.ginit = set(ginit)
    E.deadline = None
    st = st or engine.State()
    return E, E.run(fn, args, st)


# --------------------------------------------------------------- T01
CTYPES = [  # name, elements (C type, offset expression), extent expression
    ('MPI_CHAR', [('char', '0')], 'sizeof(char)'), ('MPI_SIGNED_CHAR', [('signed char', '0')], 'sizeof(signed char)'),
    ('MPI_WCHAR', [('wchar_t', '0')], 'sizeof(wchar_t)'), ('MPI_SHORT', [('short', '0')], 'sizeof(short)'),
    ('MPI_INT', [('int', '0')], 'sizeof(int)'), ('MPI_LONG', [('long', '0')], 'sizeof(long)'),
    ('MPI_UNSIGNED_CHAR', [('unsigned char', '0')], 'sizeof(unsigned char)'),
    ('MPI_UNSIGNED_SHORT', [('unsigned short', '0')], 'sizeof(unsigned short)'),
    ('MPI_UNSIGNED', [('unsigned', '0')], 'sizeof(unsigned)'), ('MPI_UNSIGNED_LONG', [('unsigned long', '0')], 'sizeof(unsigned long)'),
    ('MPI_FLOAT', [('float', '0')], 'sizeof(float)'), ('MPI_DOUBLE', [('double', '0')], 'sizeof(double)'),
    ('MPI_LONG_DOUBLE', [('long double', '0')], 'sizeof(long double)'),
    ('MPI_BYTE', [('char', '0')], '1'), ('MPI_PACKED', [('char', '0')], '1'),
    ('MPI_LONG_LONG_INT', [('long long', '0')], 'sizeof(long long)'), ('MPI_LONG_LONG', [('long long', '0')], 'sizeof(long long)'),
    ('MPI_UNSIGNED_LONG_LONG', [('unsigned long long', '0')], 'sizeof(unsigned long long)'),
    ('MPI_OFFSET', [('MPI_Offset', '0')], 'sizeof(MPI_Offset)'),
]
for _a, _n in (('float', 'MPI_FLOAT_INT'), ('double', 'MPI_DOUBLE_INT'), ('long', 'MPI_LONG_INT'), ('int', 'MPI_2INT'),
               ('short', 'MPI_SHORT_INT'), ('long double', 'MPI_LONG_DOUBLE_INT')):
    _s = 'struct{%s a; int b;}' % _a
    CTYPES.append((_n, [(_a, '0'), ('int', 'offsetof(%s,b)' % _s)], 'sizeof(%s)' % _s))
FT = {'MPI_INTEGER': 4, 'MPI_LOGICAL': 4, 'MPI_CHARACTER': 1, 'MPI_INTEGER1': 1, 'MPI_INTEGER2': 2, 'MPI_INTEGER4': 4,
      'MPI_INTEGER8': 8, 'MPI_INTEGER16': 16, 'MPI_REAL4': 4, 'MPI_REAL8': 8, 'MPI_REAL16': 16, 'MPI_COMPLEX8': 8,
      'MPI_COMPLEX16': 16, 'MPI_COMPLEX32': 32}


def fortsizes(defines):
    d = dict(x.split('=') for x in defines if '=' in x)
    r = int(d.get('CONFIG_FORT_REAL', 4))
    dp = int(d.get('CONFIG_FORT_DOUBLE', 8))
    f = dict(FT)
    f.update({'MPI_REAL': r, 'MPI_DOUBLE_PRECISION': dp, 'MPI_COMPLEX': 2 * r, 'MPI_DOUBLE_COMPLEX': 2 * dp})
    pairs = {'MPI_2REAL': r, 'MPI_2DOUBLE_PRECISION': dp, 'MPI_2INTEGER': 4}
    return f, pairs


def marker(B, n, h, kind, L, ts):
    """MPI_LB, MPI_UB: one element of the kind the type builder recognises"""
    nm = 'bound marker ' + n
    try:
        E, lv = runconst(B, 'mpi_handle_to_datatype', [const(h)], ginit=ts)
        if len(lv) != 1 or lv[0].kind != 'ret' or kind is None:
            return Ob(nm, UNKNOWN, 'handle %d is not decoded by one path' % h)
        st = lv[0].st
        p = st.norm(E.load(st, lv[0].val, 8))
        got = {}
        for k, z in (('count', 4), ('ub', 8), ('lb', 8), ('committed', 4), ('o_lb', 4), ('o_ub', 4)):
            got[k] = st.norm(E.load(st, add(p, const(L[k])), z))
        got['kind'] = st.norm(E.load(st, add(p, const(L['pairs'] + L['pt'])), 4))
        if not all(v.isconst() for v in got.values()):
            return Ob(nm, UNKNOWN, 'descriptor of %s is not constant' % n)
        g = {k: v.cval() for k, v in got.items()}
        if g['kind'] != kind or g['count'] < 1:
            return Ob(nm, REFUTED, 'the element of %s is not the marker the type constructors look for' % n)
        if g['ub'] or g['lb'] or g['o_lb'] or g['o_ub'] or not g['committed']:
            return Ob(nm, REFUTED, '%s has lb %d, ub %d, overriding bounds %d %d, committed %d' % (n, g['lb'], g['ub'], g['o_lb'], g['o_ub'], g['committed']))
        return Ob(nm, PROVED)
    except engine.Imprecise as e:
        return Ob(nm, UNKNOWN, str(e))


def predefined(ctx):
    B = ctx.B
    f, pairs = fortsizes(B.defines)
    want = []
    exprs = []
    for n, els, ext in CTYPES:
        exprs += [n] + ['sizeof(%s)' % t for t, o in els] + [o for t, o in els] + [ext]
    exprs += list(f) + list(pairs) + ['MPI_LB', 'MPI_UB', 'MPI_DATATYPE_NULL']
    lay = {k: 'offsetof(Typestruct,%s)' % k for k in ('count', 'ub', 'lb', 'committed', 'o_lb', 'o_ub', 'pairs')}
    lay.update(pd='offsetof(typepair,disp)', pt='offsetof(typepair,type)', ps='sizeof(typepair)')
    lv = probe1(list(lay.values()), ['type.h'], B.defines)
    if any(v is None for v in lv):
        return [Ob('datatype layout', UNKNOWN, 'the descriptor has no such fields')]
    L = dict(zip(lay, lv))
    vals = probe1(exprs, ['type.h'], B.defines)
    i = 0
    for n, els, ext in CTYPES:
        k = len(els)
        h = vals[i]
        sz, of, ex = vals[i + 1:i + 1 + k], vals[i + 1 + k:i + 1 + 2 * k], vals[i + 1 + 2 * k]
        want.append((n, h, list(zip(of, sz)), ex))
        i += 2 + 2 * k
    for n in f:
        want.append((n, vals[i], [(0, f[n])], f[n]))
        i += 1
    for n in pairs:
        want.append((n, vals[i], [(0, pairs[n]), (pairs[n], pairs[n])], 2 * pairs[n]))
        i += 1
    res = []
    ts = [g for g in B.mod.globals if B.mod.globals[g].init is not None and B.mod.globals[g].init[0] == 'agg']
    seen = {}
    conf = Conf('plain')
    kinds = {}
    for n, h, els, ext in want:
        nm = 'predefined type ' + n
        if h is None:
            res.append(Ob(nm, REFUTED, '%s is not defined in mpi.h' % n))
            continue
        if h >= 0:
            res.append(Ob(nm, REFUTED, '%s = %d is not a predefined handle' % (n, h)))
            continue
        al = {'MPI_LONG_LONG': 'MPI_LONG_LONG_INT'}.get(n, n)
        if h in seen and seen[h] != al:
            res.append(Ob(nm, REFUTED, '%s and %s have the same handle %d' % (n, seen[h], h)))
            continue
        seen[h] = al
        bad, loc = '', None
        try:
            E, lv = runconst(B, 'mpi_handle_to_datatype', [const(h)], ginit=ts)
            rets = [l for l in lv if l.kind == 'ret']
            if len(rets) != 1 or len(lv) != 1:
                res.append(Ob(nm, UNKNOWN, 'handle %d is not decoded by one path' % h))
                continue
            st = rets[0].st

            def ld(p, k):
                v = E.load(st, p, k)
                return st.norm(v)
            p = ld(rets[0].val, 8)
            if [e for e in st.events() if e[0] == 'oob']:
                res.append(Ob(nm, REFUTED, 'handle %d is outside the table of predefined types' % h))
                continue
            # padding ends up: extent rule, with the real lengths
            got = {k: ld(add(p, const(L[k])), 8 if k in ('ub', 'lb') else 4) for k in ('count', 'ub', 'lb', 'committed', 'o_lb', 'o_ub')}
            if not all(v.isconst() for v in got.values()):
                res.append(Ob(nm, UNKNOWN, 'descriptor of %s is not constant: %s' % (n, {k: repr(v)[:60] for k, v in got.items()})))
                continue
            g = {k: (v.cval() - (1 << 32) if k not in ('ub', 'lb') and v.cval() >= 1 << 31 else v.cval()) for k, v in got.items()}
            exp = dict(count=len(els), lb=0, ub=ext, committed=1, o_lb=0, o_ub=0)
            for k in exp:
                if (g[k] != exp[k]) if k != 'committed' else not g[k]:
                    bad = '%s has %s %d, %d required' % (n, {'ub': 'upper bound', 'lb': 'lower bound'}.get(k, k), g[k], exp[k])
            for j, (off, size) in enumerate(els):
                if bad:
                    break
                pd = ld(add(p, const(L['pairs'] + j * L['ps'] + L['pd'])), 8)
                pt = ld(add(p, const(L['pairs'] + j * L['ps'] + L['pt'])), 4)
                if not pd.isconst() or not pt.isconst():
                    bad = None
                    break
                if pd.cval() != off:
                    bad = 'element %d of %s is at offset %d, %d required' % (j, n, pd.cval(), off)
                    break
                kinds.setdefault(pt.cval(), n)
                E2, l2 = runconst(B, 'Simpletype_length', [pt])
                r2 = [x for x in l2 if x.kind == 'ret' and x.val is not None and x.st.norm(x.val).isconst()]
                if len(l2) != 1 or (len(r2) != 1 and l2[0].kind == 'ret'):
                    bad = None
                    break
                if not r2 or r2[0].st.norm(r2[0].val).cval() != size:
                    bad = 'element %d of %s has length %s, %d required' % (j, n, r2[0].st.norm(r2[0].val).cval() if r2 else '(none: the process ends)', size)
                    break
            if bad is None:
                res.append(Ob(nm, UNKNOWN, 'not constant'))
            elif bad:
                res.append(Ob(nm, REFUTED, bad))
            else:
                res.append(Ob(nm, PROVED, stats=dict(elements=len(els))))
        except engine.Imprecise as e:
            res.append(Ob(nm, UNKNOWN, str(e)))
    # bound markers: no data
    mk = dict(zip(('MPI_LB', 'MPI_UB'), probe1(['SIMPLE_LOWER', 'SIMPLE_UPPER'], ['type.h'], B.defines)))
    k = vals[-3:]
    for n, h in (('MPI_LB', k[0]), ('MPI_UB', k[1])):
        if h is None or h >= 0 or h in seen:
            res.append(Ob('bound marker ' + n, REFUTED, '%s is not a handle of its own' % n))
        else:
            seen[h] = n
            res.append(marker(B, n, h, mk[n], L, ts))
    if k[2] is None or k[2] in seen:
        res.append(Ob('MPI_DATATYPE_NULL', REFUTED, 'the null datatype is a datatype'))
    else:
        res.append(Ob('MPI_DATATYPE_NULL', PROVED))
    for o in res:
        o.rule = 'constant propagation through the handle decoder and the descriptor initialisers'
        o.loc = o.loc or ('type_const.c', 0)
    return res


# --------------------------------------------------------------- Fortran side
@scratch
def fdump(src, d=None):
    f = shutil.which('gfortran')
    if not f:
        return None
    try:
        p = subprocess.run([f, '-fsyntax-only', '-cpp', '-DHAVE_CONFIG_H', '-I' + d, '-I' + build.REPO, '-J' + d, '-fdump-fortran-original', src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, timeout=120)
    except Exception:
        return None
    if p.returncode:
        return ('error', p.stderr)
    return ('ok', p.stdout)


def fparams(txt):
    out = {}
    for m in re.finditer(r"symtree: '(\w+)'\s*\|\| symbol: '(\w+)'[^\n]*\n((?:(?!\s*symtree)[^\n]*\n)+)", txt):
        body = m.group(3)
        v = re.search(r'^\s*value: (-?\d+)', body, re.M)
        if v and 'PARAMETER' in body:
            out[m.group(1).upper()] = int(v.group(1))
    return out


def fcalls(txt):
    """procedure -> [(callee, [arguments])]"""
    out = {}
    cur = None
    for l in txt.splitlines():
        m = re.match(r'\s*procedure name = (\w+)', l)
        if m:
            cur = m.group(1)
        m = re.match(r'\s*CALL (\w+) ?(\(.*\))?', l)
        if m and cur:
            args = re.findall(r'\(((?:[^()]|\([^()]*\))*)\)', (m.group(2) or '')[1:-1]) if m.group(2) else []
            out.setdefault(cur, []).append((m.group(1), [a.split(':')[-1].split('(')[0] if not re.match(r'-?\d+$', a) else a for a in args], args))
    return out


NOT_SHARED = {'MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR', 'MPI_ADDRESS_KIND', 'MPI_OFFSET_KIND'}


def fortconsts(ctx):
    """every named constant of mpif.h that mpi.h has too has the same value; status
    indices are the field positions; kinds have the widths of the C types"""
    res = []
    d = fdump(os.path.join(build.REPO, 'mpif.F90'))
    rule = 'comparison of the compiler-evaluated constants of mpif.h and mpi.h'
    if d is None:
        return [Ob('mpif.h', UNKNOWN, 'no Fortran front end', rule=rule)]
    if d[0] == 'error':
        return [Ob('mpif.h', REFUTED, 'mpif.F90 does not compile: ' + d[1][:300], ('mpif.F90', 0), rule=rule)]
    P = fparams(d[1])
    names = sorted(n for n in P if n.startswith('MPI_') and n not in NOT_SHARED)
    vals = probe1(names, ['mpi.h'])
    for n, v in zip(names, vals):
        if v is None:
            if n.startswith('MPI_MODE') or n in FT_ONLY:
                continue
            res.append(Ob('constant ' + n, UNKNOWN, '%s only exists in Fortran' % n, ('mpif.h', 0), rule=rule))
        elif v != P[n]:
            res.append(Ob('constant ' + n, REFUTED, '%s is %d in mpif.h and %d in mpi.h' % (n, P[n], v), ('mpif.h', 0), rule=rule))
        else:
            res.append(Ob('constant ' + n, PROVED, rule=rule))
    for n in MUST:
        if n not in P:
            res.append(Ob('constant ' + n, REFUTED, '%s is not defined in mpif.h' % n, ('mpif.h', 0), rule=rule))
    off = probe1(['offsetof(MPI_Status,%s)' % f for f in ('MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR')]
                 + ['sizeof(MPI_Status)', 'sizeof(MPI_Fint)', 'sizeof(MPI_Aint)', 'sizeof(MPI_Offset)', 'sizeof(MPI_Status_int)',
                    '((MPI_Aint)-1)<0'], ['mpi.h'])
    for f, o in zip(('MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR'), off):
        if f not in P:
            res.append(Ob('status field ' + f, REFUTED, '%s is not defined in mpif.h' % f, ('mpif.h', 0), rule=rule))
            continue
        ok = o is not None and (P[f] - 1) * 4 == o
        res.append(Ob('status field ' + f, PROVED if ok else REFUTED, '' if ok else 'status(%s) is word %s in Fortran, byte %s in C' % (f, P[f], o), ('mpif.h', 0), rule=rule))
    ok = off[3] == 4 * P.get('MPI_STATUS_SIZE', -1)
    res.append(Ob('status size', PROVED if ok else REFUTED, '' if ok else 'MPI_STATUS_SIZE is %s words, the C status %s bytes' % (P.get('MPI_STATUS_SIZE'), off[3]), ('mpif.h', 0), rule=rule))
    for n, w, what in (('MPI_ADDRESS_KIND', off[5], 'MPI_Aint'), ('MPI_OFFSET_KIND', off[6], 'MPI_Offset')):
        ok = P.get(n) == w and w == 8
        res.append(Ob(n, PROVED if ok else REFUTED, '' if ok else '%s is %s, %s has %s bytes' % (n, P.get(n), what, w), ('mpif.F90', 0), rule=rule))
    ok = off[4] == 4 and off[7] == 4
    res.append(Ob('MPI_Fint', PROVED if ok else REFUTED, '' if ok else 'a Fortran INTEGER has 4 bytes, MPI_Fint %s' % off[4], ('mpi.h', 0), rule=rule))
    ok = off[8] == 1
    res.append(Ob('MPI_Aint signed', PROVED if ok else REFUTED, '' if ok else 'MPI_Aint cannot hold a negative displacement', ('mpi.h', 0), rule=rule))
    return res


FT_ONLY = {'MPI_TAG_UB', 'MPI_VERSION', 'MPI_SUBVERSION'}
MUST = ['MPI_COMM_WORLD', 'MPI_COMM_NULL', 'MPI_ANY_SOURCE', 'MPI_ANY_TAG', 'MPI_PROC_NULL', 'MPI_ROOT', 'MPI_REQUEST_NULL',
        'MPI_GROUP_NULL', 'MPI_GROUP_EMPTY', 'MPI_UNDEFINED', 'MPI_SUCCESS', 'MPI_STATUS_SIZE', 'MPI_DATATYPE_NULL', 'MPI_INTEGER',
        'MPI_REAL', 'MPI_DOUBLE_PRECISION', 'MPI_COMPLEX', 'MPI_DOUBLE_COMPLEX', 'MPI_LOGICAL', 'MPI_CHARACTER', 'MPI_BYTE', 'MPI_PACKED',
        'MPI_2REAL', 'MPI_2DOUBLE_PRECISION', 'MPI_2INTEGER', 'MPI_INTEGER1', 'MPI_INTEGER2', 'MPI_INTEGER4', 'MPI_INTEGER8',
        'MPI_REAL4', 'MPI_REAL8', 'MPI_SUM', 'MPI_MAX', 'MPI_MIN', 'MPI_INFO_NULL', 'MPI_ADDRESS_KIND', 'MPI_OFFSET_KIND']


def distinct(ctx):
    """special values that share an argument position are different"""
    rule = 'constant evaluation'
    sets = [('source and destination ranks', ['MPI_ANY_SOURCE', 'MPI_PROC_NULL', 'MPI_ROOT', '0']),
            ('groups', ['MPI_GROUP_NULL', 'MPI_GROUP_EMPTY', 'MPI_GROUP_ONE']),
            ('communicators', ['MPI_COMM_NULL', 'MPI_COMM_WORLD']),
            ('thread levels', ['MPI_THREAD_SINGLE', 'MPI_THREAD_FUNNELED', 'MPI_THREAD_SERIALIZED', 'MPI_THREAD_MULTIPLE']),
            ('request index', ['MPI_UNDEFINED', '0']),
            ('buffers', ['(long)MPI_IN_PLACE', '(long)MPI_BOTTOM']),
            ('return codes', ['MPI_SUCCESS', 'MPI_ERR_OTHER'])]
    sets += [('return codes', ['MPI_SUCCESS', e]) for e in ('MPI_ERR_RANK', 'MPI_ERR_TYPE', 'MPI_ERR_COUNT', 'MPI_ERR_TRUNCATE', 'MPI_ERR_ARG', 'MPI_ERR_UNKNOWN')]
    res = []
    for what, ns in sets:
        v = probe1(ns, ['mpiP.h'])
        miss = [n for n, x in zip(ns, v) if x is None]
        dup = [(a, b) for i, a in enumerate(ns) for j, b in enumerate(ns) if i < j and v[i] is not None and v[i] == v[j]]
        if dup:
            res.append(Ob('%s: %s' % (what, ' '.join(ns)), REFUTED, '%s and %s are the same value' % dup[0], ('mpi.h', 0), rule=rule))
        elif miss:
            res.append(Ob('%s: %s' % (what, ' '.join(ns)), UNKNOWN, '%s not defined' % miss, rule=rule))
        else:
            res.append(Ob('%s: %s' % (what, ' '.join(ns)), PROVED, rule=rule))
    for n, what in (('MPI_ANY_TAG', 'tag'), ('MPI_UNDEFINED', 'colour, rank or index'), ('MPI_ANY_SOURCE', 'rank'), ('MPI_PROC_NULL', 'rank'), ('MPI_ROOT', 'rank')):
        v = probe1([n], ['mpi.h'])[0]
        res.append(Ob('%s is no %s' % (n, what), UNKNOWN if v is None else PROVED if v < 0 else REFUTED, '%s is %s, a valid %s' % (n, v, what), ('mpi.h', 0), rule=rule))
    want = [('MPI_SUCCESS', 0), ('MPI_COMM_WORLD', 1)]
    for (n, w), v in zip(want, probe1([n for n, w in want], ['mpi.h'])):
        res.append(Ob(n, PROVED if v == w else REFUTED, '' if v == w else '%s is %s' % (n, v), ('mpi.h', 0), rule=rule))
    v = probe1(['MPI_THREAD_SINGLE < MPI_THREAD_FUNNELED && MPI_THREAD_FUNNELED < MPI_THREAD_SERIALIZED && MPI_THREAD_SERIALIZED < MPI_THREAD_MULTIPLE'], ['mpi.h'])[0]
    res.append(Ob('thread levels ordered', PROVED if v == 1 else REFUTED, '' if v == 1 else 'thread levels are not increasing', ('mpi.h', 0), rule=rule))
    return res


def fexpr(txt, env):
    """value of an integer expression of the Fortran front end's dump for given
    values of its variables, None when it has other parts"""
    tok = re.findall(r'__\w+\[\[|\]\]|[()]|[^\s()\[\]]+', txt)
    i = [0]

    def one():
        t = tok[i[0]]
        i[0] += 1
        if t.startswith('__'):
            i[0] += 1
            xs = []
            while tok[i[0]] != ')':
                i[0] += 1
                xs.append(one())
                i[0] += 1
            i[0] += 2
            f = {'__min_i4[[': min, '__max_i4[[': max}.get(t)
            if f is None or None in xs:
                return None
            return f(xs)
        if t == '(':
            op = tok[i[0]]
            if op not in ('+', '-', '*'):
                x = one()
                i[0] += 1
                return x
            i[0] += 1
            xs = []
            while tok[i[0]] != ')':
                xs.append(one())
            i[0] += 1
            if None in xs:
                return None
            if op == '-':
                return -xs[0] if len(xs) == 1 else xs[0] - xs[1]
            return sum(xs) if op == '+' else xs[0] * xs[1]
        if re.match(r'-?\d+$', t):
            return int(t)
        return env.get(t)
    try:
        return one()
    except IndexError:
        return None


def fortsave(ctx):
    """the Fortran start-up code hands the sentinels' addresses over in the order
    in which C stores them, in one COMMON block, and the constants in the order in
    which C checks them"""
    rule = "the Fortran front end's call arguments, position by position"
    d = fdump(os.path.join(build.REPO, 'fort.F90'))
    if d is None:
        return [Ob('fort.F90', UNKNOWN, 'no Fortran front end', rule=rule)]
    if d[0] == 'error':
        return [Ob('fort.F90', REFUTED, 'fort.F90 does not compile: ' + d[1][:300], ('fort.F90', 0), rule=rule)]
    calls = fcalls(d[1])
    res = []

    def want(proc, callee, names):
        cs = [c for c in calls.get(proc, []) if c[0] == callee]
        nm = '%s calls %s' % (proc, callee)
        if not cs:
            res.append(Ob(nm, REFUTED, '%s does not call %s' % (proc, callee), ('fort.F90', 0), rule=rule))
            return
        for c in cs:
            bad = [(i, a, w) for i, (a, w) in enumerate(zip(c[1], names)) if w is not None and a != w]
            if len(c[1]) != len(names):
                res.append(Ob(nm, REFUTED, '%d arguments, %d required' % (len(c[1]), len(names)), ('fort.F90', 0), rule=rule))
            elif bad:
                res.append(Ob(nm, REFUTED, 'argument %d is %s, %s required' % (bad[0][0] + 1, bad[0][1], bad[0][2]), ('fort.F90', 0), rule=rule))
            else:
                res.append(Ob(nm, PROVED, stats=dict(arguments=len(names)), rule=rule))
    want('mpi_get_fort_pointers', 'mpi_save_fort_pointers', ['mpi_status_ignore', 'mpi_statuses_ignore', 'mpi_in_place'])
    want('mpi_init_thread', 'mpi_init', ['ierror'])
    P = fparams(d[1])
    order = ['MPI_COMM_WORLD', 'MPI_ANY_SOURCE', 'MPI_ANY_TAG', 'MPI_PROC_NULL', 'MPI_ROOT', 'MPI_COMM_NULL', 'MPI_REQUEST_NULL',
             'MPI_GROUP_NULL', 'MPI_GROUP_EMPTY', 'MPI_UNDEFINED', 'MPI_MAX_ERROR_STRING', 'MPI_MAX_PROCESSOR_NAME', 'MPI_STATUS_SIZE',
             'MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR']
    names = [str(P.get(n)) for n in order] + ['status'] * 4 + [str(P.get('MPI_INTEGER')), 'fint', 'fint', str(P.get('MPI_LOGICAL')), 'flog', 'flog',
             str(P.get('MPI_REAL')), 'freal', 'freal', str(P.get('MPI_DOUBLE_PRECISION')), 'fdub', 'fdub', str(P.get('MPI_COMPLEX')), 'fcomp', 'fcomp', 'ierror']
    want('mpi_init', 'mpi_init_fort', names)
    m = re.search(r'procedure name = mpi_get_fort_pointers\n(?:[^\n]*\n)*?\s*common: /\w*/ ([^\n]*)', d[1])
    ok = m and all(x in [y.strip() for y in m.group(1).split(',')] for x in ('mpi_status_ignore', 'mpi_statuses_ignore', 'mpi_in_place'))
    res.append(Ob('sentinels in COMMON', PROVED if ok else REFUTED, '' if ok else 'the sentinels are not one COMMON block: their address differs between program units', ('mpif.h', 0), rule=rule))
    asg = re.findall(r'ASSIGN mpi_init_thread:provided (.*)', d[1])
    nm = 'mpi_init_thread provided'
    vals = [fexpr(asg[-1].strip(), {'mpi_init_thread:required': k}) for k in range(4)] if asg else []
    if not asg or (None not in vals and vals != list(range(4))):
        res.append(Ob(nm, REFUTED, 'PROVIDED is not set to the level required', ('fort.F90', 0), rule=rule))
    else:
        res.append(Ob(nm, UNKNOWN if None in vals else PROVED, 'PROVIDED is computed in another way', rule=rule))
    return res


# --------------------------------------------------------------- start-up check
FORTARGS = ['MPI_COMM_WORLD', 'MPI_ANY_SOURCE', 'MPI_ANY_TAG', 'MPI_PROC_NULL', 'MPI_ROOT', 'MPI_COMM_NULL', 'MPI_REQUEST_NULL',
            'MPI_GROUP_NULL', 'MPI_GROUP_EMPTY', 'MPI_UNDEFINED', 'MPI_MAX_ERROR_STRING', 'MPI_MAX_PROCESSOR_NAME', 'MPI_STATUS_SIZE',
            'MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR']


def initfort(ctx):
    """mpi_init_fort: consistent values start the library; a Fortran constant, a
    status index or a size that differs from C's ends the process with a message"""
    B = ctx.B
    fn = 'mpi_init_fort_'
    rule = 'abstract interpretation with one unknown Fortran value at a time'
    f = B.mod.funcs.get(fn)
    if f is None:
        return [Ob(fn, REFUTED, 'mpi_init_fort is not defined', rule=rule)]
    if len(f.params) != 36:
        return [Ob(fn, UNKNOWN, 'interface changed', rule=rule)]
    off = ['offsetof(MPI_Status,%s)/sizeof(int)+1' % x for x in ('MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR')]
    names = FORTARGS[:13] + off + ['MPI_INTEGER', 'MPI_LOGICAL', 'MPI_REAL', 'MPI_DOUBLE_PRECISION', 'MPI_COMPLEX']
    V = probe1(names, ['mpi.h'], B.defines)
    if None in V:
        return [Ob(fn, UNKNOWN, 'constants missing', rule=rule)]
    fz, _ = fortsizes(B.defines)
    sizes = [fz[n] for n in ('MPI_INTEGER', 'MPI_LOGICAL', 'MPI_REAL', 'MPI_DOUBLE_PRECISION', 'MPI_COMPLEX')]
    ts = [g for g in B.mod.globals if B.mod.globals[g].init is not None and B.mod.globals[g].init[0] == 'agg']
    res = []

    def runone(which, sz=None):
        conf = Conf('startup', opaque=['MPI_Init'])
        E = mkengine(B, conf, fn)
        E.ginit = set(ts)
        import time
        E.deadline = time.time() + 60
        st = engine.State()
        args = [sym('fa%d' % i, 64, 4096, None, True) for i in range(36)]
        # scalar arguments
        x = sym('fv', 32)
        pos = list(range(16)) + [20, 23, 26, 29, 32]
        for k, i in enumerate(pos):
            v = x if k == which else const(V[k] & 0xffffffff if V[k] >= 0 else V[k])
            E.store(st, args[i], 4, v, None)
        y = sym('fs', 32, 0, 4096)
        for k, i in enumerate((21, 24, 27, 30, 33)):
            args[i + 1] = add(args[i], y if sz == k else const(sizes[k]))
        return x, y, E, E.run(fn, args, st)

    def judge(nm, var, val, lv, warn=False, only=True):
        """exactly val is accepted"""
        oks = [l for l in lv if l.kind == 'ret']
        bads = [l for l in lv if l.kind != 'ret']
        # accepted for another value?
        for l in oks:
            s2 = l.st.copy()
            if not warn and s2.assume(cnot(ceq(var, val))):
                w = [c for c in (0, 1, 2, 5, 77) if const(c) != val and l.st.copy().assume(ceq(var, const(c)))]
                if w:
                    return Ob(nm, REFUTED, '%s: the value %d is accepted, %s required' % (nm, w[0], repr(val)), l.loc, rule=rule)
                return Ob(nm, UNKNOWN, 'accepting path not pinned', rule=rule)
        for l in bads:
            if l.st.copy().assume(ceq(var, val)):
                d = l.st.copy()
                if d.assume(ceq(var, val)):
                    return Ob(nm, REFUTED, '%s: the right value ends the process' % nm, l.loc, rule=rule)
            if not engine.told(l.st.events()):
                return Ob(nm, REFUTED, '%s: ends without a message on standard error' % nm, l.loc, rule=rule)
        if not any(l.st.copy().assume(ceq(var, val)) for l in oks):
            return Ob(nm, REFUTED, '%s: the right value is not accepted' % nm, ('mpi.c', 0), rule=rule)
        return Ob(nm, PROVED, stats=dict(paths=len(lv)), rule=rule)
    labels = FORTARGS + ['MPI_INTEGER', 'MPI_LOGICAL', 'MPI_REAL', 'MPI_DOUBLE_PRECISION', 'MPI_COMPLEX']
    for k in range(17):
        nm = 'start-up check of ' + labels[k]
        try:
            x, y, E, lv = runone(k)
            res.append(judge(nm, x, const(V[k]), lv))
        except engine.Imprecise as e:
            res.append(Ob(nm, UNKNOWN, str(e), rule=rule))
    for k in range(5):
        nm = 'start-up check of the size of ' + labels[16 + k]
        try:
            x, y, E, lv = runone(None, k)
            res.append(judge(nm, y, const(sizes[k]), lv))
        except engine.Imprecise as e:
            res.append(Ob(nm, UNKNOWN, str(e), rule=rule))
    try:
        x, y, E, lv = runone(None, None)
        good = all(l.kind == 'ret' for l in lv) and lv
        q = [l for l in lv if l.kind == 'ret' and any(e[0] == 'out' for e in l.st.events())]
        init = all(any(e[0] == 'call' and e[1] == 'MPI_Init' for e in l.st.events()) for l in lv)
        nm = 'start-up with consistent values'
        if not good:
            res.append(Ob(nm, REFUTED, 'consistent values end the process', lv[0].loc if lv else None, rule=rule))
        elif q:
            res.append(Ob(nm, REFUTED, 'consistent values produce a message', q[0].loc, rule=rule))
        elif not init:
            res.append(Ob(nm, UNKNOWN, 'MPI_Init is not called', rule=rule))
        else:
            res.append(Ob(nm, PROVED, rule=rule))
    except engine.Imprecise as e:
        res.append(Ob('start-up', UNKNOWN, str(e), rule=rule))
    return res


# --------------------------------------------------------------- interfaces
@scratch
def protos(header, d=None):
    c = os.path.join(d, 'h.c')
    open(c, 'w').write('#include "%s"\n' % header)
    rc, out, err = build.run([build.CLANG(), '-fsyntax-only', '-w', '-DHAVE_CONFIG_H', '-I' + d, '-I' + build.REPO, '-Xclang', '-ast-dump=json', c])
    if rc:
        return None
    t = json.loads(out)
    r = {}
    for n in t.get('inner', []):
        if n.get('kind') == 'FunctionDecl' and n['name'].startswith(('MPI_', 'mpi_')):
            r[n['name']] = (n['type']['qualType'], sum(1 for k in n.get('inner', []) if k.get('kind') == 'ParmVarDecl'))
    return r


STANDARD = set('''MPI_Init MPI_Init_thread MPI_Initialized MPI_Finalize MPI_Abort MPI_Wtime MPI_Get_processor_name MPI_Error_string
MPI_Get_library_version MPI_Comm_size MPI_Comm_rank MPI_Comm_dup MPI_Comm_create MPI_Comm_split MPI_Comm_free MPI_Comm_group
MPI_Comm_f2c MPI_Comm_c2f MPI_Group_f2c MPI_Group_c2f MPI_Request_f2c MPI_Request_c2f MPI_Op_f2c MPI_Op_c2f
MPI_Intercomm_create MPI_Intercomm_merge MPI_Group_incl MPI_Group_range_incl MPI_Group_union MPI_Group_intersection
MPI_Group_difference MPI_Group_free MPI_Group_translate_ranks MPI_Cart_create MPI_Cart_get MPI_Cart_coords MPI_Dims_create
MPI_Barrier MPI_Bcast MPI_Gather MPI_Gatherv MPI_Allgather MPI_Allgatherv MPI_Scatter MPI_Scatterv MPI_Reduce MPI_Allreduce
MPI_Reduce_scatter MPI_Scan MPI_Alltoall MPI_Alltoallv MPI_Alltoallw MPI_Op_create MPI_Op_free MPI_Send MPI_Ssend MPI_Rsend
MPI_Isend MPI_Irsend MPI_Recv MPI_Irecv MPI_Sendrecv MPI_Probe MPI_Iprobe MPI_Test MPI_Wait MPI_Testany MPI_Waitany MPI_Testall
MPI_Waitall MPI_Testsome MPI_Waitsome MPI_Request_free MPI_Pack MPI_Unpack MPI_Pack_size MPI_Get_count MPI_Get_elements
MPI_Type_contiguous MPI_Type_vector MPI_Type_hvector MPI_Type_create_hvector MPI_Type_indexed MPI_Type_hindexed
MPI_Type_create_indexed_block MPI_Type_struct MPI_Type_dup MPI_Type_commit MPI_Type_free MPI_Type_extent MPI_Type_size MPI_Type_lb
MPI_Type_ub MPI_Address MPI_Get_address MPI_Info_create MPI_Info_set MPI_Info_free MPI_Errhandler_set'''.split())


def declared(ctx):
    rule = 'declarations of mpi.h against the definitions in the linked IR'
    P = protos('mpi.h')
    if P is None:
        return [Ob('mpi.h', REFUTED, 'mpi.h does not compile on its own', ('mpi.h', 0), rule=rule)]
    res = []
    B = ctx.B
    for n, (ty, k) in sorted(P.items()):
        f = B.mod.funcs.get(n)
        if f is None:
            res.append(Ob('declared ' + n, REFUTED, '%s is declared in mpi.h and not defined in the library' % n, ('mpi.h', 0), rule=rule))
        elif len(f.params) != k:
            res.append(Ob('declared ' + n, REFUTED, '%s: %d parameters declared, %d defined' % (n, k, len(f.params)), B.mod.fnloc(f), rule=rule))
        else:
            res.append(Ob('declared ' + n, PROVED, rule=rule))
    for n in sorted(STANDARD):
        if n not in P:
            res.append(Ob('standard ' + n, REFUTED, '%s is not declared in mpi.h' % n, ('mpi.h', 0), rule=rule))
    import sys
    sys.path.insert(0, os.path.join(build.HERE, 'tools'))
    from gen_fort import FORT
    for n in FORT + ['mpi_init_fort_', 'mpi_save_fort_pointers_', 'mpi_get_library_version_']:
        f = B.mod.funcs.get(n)
        res.append(Ob('binding ' + n, PROVED if f is not None else REFUTED, '' if f is not None else 'the Fortran binding %s is not defined' % n, rule=rule))
    return res


# externals the library may need: the C library, and the Fortran callback
def linkage(ctx):
    """each function the library calls is defined in it, in the C library or in
    fort.F90"""
    rule = 'call graph of the linked IR'
    B = ctx.B
    res = []
    called = {}
    for n in B.repofuncs:
        f = B.mod.funcs[n]
        for bb in f.blocks.values():
            for I in bb:
                if I.op == 'call' and I.fn[0] == 'g':
                    called.setdefault(I.fn[1], B.mod.loc(I.dbg))
    for c, loc in sorted(called.items()):
        if c in B.repofuncs or c.startswith('llvm.'):
            continue
        if c.lower().startswith('mpi_') and c != 'mpi_get_fort_pointers_':
            res.append(Ob('call ' + c, REFUTED, '%s is called and not defined' % c, loc, rule=rule))
        else:
            res.append(Ob('call ' + c, PROVED, rule=rule))
    return res


@scratch
def compiles(ctx, d=None):
    """every source compiles, without undeclared functions, in each supported
    build configuration"""
    rule = "the compiler's type checker, one run per source and configuration"
    res = []
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    confs = dict(build.CONFIGS)
    for nm, mangle in (('underscore', 'FORTRAN_UNDERSCORE_'), ('same', 'FORTRAN_SAME'), ('caps', 'FORTRAN_CAPS_'), ('gnuf2c', 'FORTRAN_GNUF2C')):
        confs['mangling-' + nm] = mangle
    for c, defs in confs.items():
        for src in build.csources():
            jobs.append((c, defs, src))

    def one(j):
        c, defs, src = j
        cmd = [build.CLANG(), '-fsyntax-only', '-w', '-I' + build.REPO]
        if isinstance(defs, str):
            cmd += ['-D' + defs]
        else:
            cmd += ['-DHAVE_CONFIG_H', '-I' + d] + ['-D' + x for x in defs]
        rc, out, err = build.run(cmd + ['-Werror=implicit-function-declaration', os.path.join(build.REPO, src)])
        return j, rc, err
    with ThreadPoolExecutor(8) as ex:
        for (c, defs, src), rc, err in ex.map(one, jobs):
            nm = '%s in configuration %s' % (src, c)
            if rc:
                m = re.search(r'([\w.]+):(\d+):\d+: error: (.*)', err)
                res.append(Ob(nm, REFUTED, '%s does not compile: %s' % (nm, m.group(3) if m else err[:200]), (m.group(1), int(m.group(2))) if m else (src, 0), rule=rule))
            else:
                res.append(Ob(nm, PROVED, rule=rule))
    for src in ('fort.F90', 'mpif.F90'):
        r = fdump(os.path.join(build.REPO, src))
        if r is None:
            res.append(Ob(src, UNKNOWN, 'no Fortran front end', rule=rule))
        else:
            res.append(Ob(src, PROVED if r[0] == 'ok' else REFUTED, '' if r[0] == 'ok' else r[1][:200], (src, 0), rule=rule))
    return res


# --------------------------------------------------------------- allocation
def oom(ctx):
    """a failed allocation ends the process with a message: on no path is the null
    result used or returned as success"""
    B = ctx.B
    rule = 'abstract interpretation with failing allocations'
    ALLOC = {'malloc', 'calloc', 'realloc', 'strdup'}
    callers = {}
    for n in B.repofuncs:
        f = B.mod.funcs[n]
        for bb in f.blocks.values():
            for I in bb:
                if I.op == 'call' and I.fn[0] == 'g' and I.fn[1] in ALLOC:
                    callers.setdefault(n, []).append((I.fn[1], B.mod.loc(I.dbg)))
    res = []
    import time
    work = sorted(callers)
    seen = set(work)
    while work:
        n = work.pop(0)
        f = B.mod.funcs[n]
        E = mkengine(B, Conf('oom', (C.HANDLES, C.TYPES)), n)
        E.oom = True
        E.deadline = time.time() + 60
        nm = 'allocation in %s (%s)' % (n, ', '.join('%s:%s' % l for _, l in callers.get(n, ()) if l) or 'through a callee')
        try:
            lv = E.run(n, symargs(f), engine.State())
        except (engine.Imprecise, RecursionError) as e:
            res.append(Ob(nm, UNKNOWN, str(e), rule=rule))
            continue
        except Exception as e:
            res.append(Ob(nm, UNKNOWN, 'analysis error %r' % e, rule=rule))
            continue
        bad = None
        k = 0

        def failed(evs):
            for e in evs:
                if e[0] == 'malloc' and e[1] == ZERO:
                    return True
            return False
        for l in lv:
            ev = l.st.events()
            if not failed(ev):
                continue
            k += 1
            if any(e[0] in ('nullderef',) for e in ev) or l.kind == 'crash':
                e = next((e for e in ev if e[0] == 'nullderef'), None)
                bad = Ob(nm, REFUTED, '%s uses the result of a failed allocation' % n, e[-1] if e else l.loc, rule=rule)
            elif l.kind == 'ret' and f.ret.k == 'ptr' and l.val is not None and l.st.norm(l.val) == ZERO:
                # the caller is told: the callers are analysed with it inlined
                more = sorted(c for c in B.repofuncs if n in B.callees(c) and c not in seen)
                seen.update(more)
                work += more
                if not any(n in B.callees(c) for c in B.repofuncs):
                    bad = Ob(nm, REFUTED, '%s returns no memory to the caller of the library' % n, l.loc, rule=rule)
            elif l.kind == 'ret':
                bad = Ob(nm, REFUTED, '%s succeeds although an allocation failed' % n, l.loc, rule=rule)
            elif not engine.told(ev):
                bad = Ob(nm, REFUTED, '%s ends without a message on standard error when an allocation fails' % n, l.loc, rule=rule)
            if bad:
                break
        if bad:
            res.append(bad)
        elif not k:
            res.append(Ob(nm, UNKNOWN, 'no failing path reached', rule=rule))
        else:
            res.append(Ob(nm, PROVED, stats=dict(failing_paths=k), rule=rule))
    return res


# --------------------------------------------------------------- outputs
def writes_through(B, fn, k, seen=None):
    """is there a store through parameter k of fn, in it or in a callee the
    parameter is handed to?  (def-use closure of the parameter)"""
    seen = seen or set()
    if (fn, k) in seen:
        return False
    seen.add((fn, k))
    f = B.mod.funcs.get(fn)
    if f is None:
        return True                     # unknown callee: may write
    if k >= len(f.params):
        return True
    der = {f.params[k][0]}
    ins = [I for bb in f.blocks.values() for I in bb]
    ch = True

    def isd(v):
        return v[0] == 'v' and v[1] in der
    while ch:
        ch = False
        for I in ins:
            ops = [v for _, v in (I.args or ())]
            if I.op == 'phi':
                ops = [x for e in (I.extra or ()) if isinstance(e, tuple) for x in e if isinstance(x, tuple)] + ops
            if I.op in ('getelementptr', 'phi', 'select', 'bitcast') and I.dst not in der and any(isd(v) for v in ops):
                der.add(I.dst)
                ch = True
    for I in ins:
        if I.op == 'store' and (isd(I.args[1][1]) or isd(I.args[0][1])):
            return True
        if I.op == 'call':
            for j, (_, v) in enumerate(I.args):
                if isd(v):
                    if I.fn[0] != 'g' or writes_through(B, I.fn[1], j, seen):
                        return True
    return False


def cartget(ctx):
    """every output array of the topology query is written"""
    B, fn = ctx.B, 'MPI_Cart_get'
    rule = 'def-use closure of each output parameter must reach a store'
    f = B.mod.funcs.get(fn)
    if f is None or len(f.params) != 5:
        return [Ob(fn, UNKNOWN, 'not defined', rule=rule)]
    res = []
    for k, n in ((2, 'dims'), (3, 'periods'), (4, 'coords')):
        w = writes_through(B, fn, k)
        res.append(Ob('%s writes %s' % (fn, n), PROVED if w else REFUTED, '' if w else 'output argument %s is never written' % n, B.mod.fnloc(f), rule=rule))
    return res


# --------------------------------------------------------------- stack
def stack(ctx):
    """no call takes an amount of stack that grows with its arguments: the stack is
    limited and running out of it ends the program without a word"""
    rule = 'data dependence of the size of every stack allocation in the linked IR'
    B = ctx.B
    res = []
    for n in sorted(B.repofuncs):
        f = B.mod.funcs[n]
        defs, cmps, dyn = {}, [], []
        for bb in f.blocks.values():
            for I in bb:
                if I.dst:
                    defs[I.dst] = I
                if I.op == 'icmp':
                    cmps.append(I)
                if I.op == 'alloca' and I.args and I.args[0][1][0] != 'i':
                    dyn.append(I)
        params = {p[0] for p in f.params}

        def slice_(op, seen):
            """local values an operand is computed from; None when it is not plain arithmetic"""
            if op[0] != 'v':
                return seen
            if op[1] in seen:
                return seen
            seen.add(op[1])
            I = defs.get(op[1])
            if I is None:
                return seen if op[1] in params else None
            if I.op not in ('mul', 'add', 'sub', 'shl', 'sext', 'zext', 'trunc'):
                return None
            for _, a in I.args:
                if slice_(a, seen) is None:
                    return None
            return seen
        bad = None
        for I in dyn:
            sl = slice_(I.args[0][1], set())
            if sl is None:
                bad = bad or (UNKNOWN, I)
                continue
            bounded = any(a[0] == 'v' and a[1] in sl and b[0] == 'i' and abs(b[1]) > 1
                          for c in cmps for x, y in (c.args[:2], c.args[1::-1]) for a, b in ((x[1], y[1]),))
            if bounded:
                bad = bad or (UNKNOWN, I)
            else:
                bad = (REFUTED, I)
        if bad:
            res.append(Ob('stack of ' + n, bad[0], '%s puts an array on the stack whose size is only bounded by its arguments' % n, B.mod.loc(bad[1].dbg) or (n, 0), rule=rule))
        else:
            res.append(Ob('stack of ' + n, PROVED, rule=rule))
    return res


# --------------------------------------------------------------- representation
def widths(name, items, why):
    """each internal record can represent what is put there: (expression, header,
    bytes, signed)"""
    rule = "the compiler's layout of the type: size and signedness of the member"

    def decide(ctx):
        res = []
        for what, tp, hd, size, signed in items:
            sz, neg = probe1(['sizeof(%s)' % tp, '(__typeof__(%s))-1 < 0' % tp if signed else '1'], hd, ctx.B.defines)
            nm = 'representation of ' + what
            loc = (hd[-1], 0)
            if sz is None or neg is None:
                res.append(Ob(nm, UNKNOWN, '%s not found' % tp, loc, rule=rule))
            elif sz < size:
                res.append(Ob(nm, REFUTED, '%s has %d bytes, %d needed for %s' % (what, sz, size, why), loc, rule=rule))
            elif signed and not neg and sz < 4:
                res.append(Ob(nm, REFUTED, '%s is unsigned, %s can be negative' % (what, what), loc, rule=rule))
            else:
                res.append(Ob(nm, PROVED, stats=dict(bytes=sz), rule=rule))
        return res
    decide.__name__ = name
    return decide


def mem(t, f):
    return '((%s *)0)->%s' % (t, f)


REQH, TYPEH, LISTH, HANDH = ['mpiP.h'], ['type.h'], ['listops.h', 'listP.h'], ['handles.c']
req_widths = widths('req_widths',
    [('request %s' % f, mem('Req', f), REQH, n, s) for f, n, s in
     (('source', 1, True), ('tag', 4, True), ('count', 4, True), ('type', 4, True), ('handle', 4, False), ('buf', 8, False), ('listitem', 8, False))]
    + [('communicator %s' % f, mem('Comm', f), REQH, 8, False) for f in ('sendlist', 'recvlist')], 'any argument of a call')
type_widths = widths('type_widths',
    [('entry displacement', mem('typepair', 'disp'), TYPEH, 8, True), ('entry count', mem('Typestruct', 'count'), TYPEH, 4, False),
     ('upper bound', mem('Typestruct', 'ub'), TYPEH, 8, True), ('lower bound', mem('Typestruct', 'lb'), TYPEH, 8, True)], 'any datatype')
list_widths = widths('list_widths',
    [('list size', mem('List', 'count'), LISTH, 4, False)] + [('list item %s' % f, mem('Listitem', f), LISTH, 8, False) for f in ('data', 'prev', 'next')],
    'any number of items')
handle_widths0 = widths('handle_widths0', [('item handle', mem('Handleitem', 'handle'), HANDH, 4, False)], 'any handle')
status_widths = widths('status_widths',
    [('status %s' % f, mem('MPI_Status', f), ['mpi.h'], 4, True) for f in ('MPI_SOURCE', 'MPI_TAG', 'get_count')], 'any received message')
public_widths = widths('public_widths',
    [(t, t, ['mpi.h'], n, s) for t, n, s in (('MPI_Aint', 8, True), ('MPI_Offset', 8, True), ('MPI_Comm', 4, False), ('MPI_Request', 4, False), ('MPI_Group', 4, True),
                                              ('MPI_Datatype', 4, True), ('MPI_Fint', 4, True))], 'its Fortran counterpart')


def handle_widths(ctx):
    """the room of a handle holds each kind of object, and the pool as many as documented"""
    rule = "the compiler's layout of the type"
    res = handle_widths0(ctx)
    data = 'sizeof(%s)' % mem('Handleitem', 'data')
    for what, need in (('communicator', 'sizeof(Comm)'), ('request', 'sizeof(Req)'), ('datatype', 'sizeof(void *)'), ):
        a, b = probe1([data, need], HANDH, ctx.B.defines)
        nm = 'room for a ' + what
        if a is None or b is None:
            res.append(Ob(nm, UNKNOWN, 'not found', rule=rule))
        else:
            res.append(Ob(nm, PROVED if a >= b else REFUTED, 'a handle has room for %d bytes, a %s needs %d' % (a, what, b), ('handles.c', 0), rule=rule))
    n = probe1(['(long)MAX_BLOCKS * BLOCK_ITEMS'], HANDH, ctx.B.defines)[0]
    res.append(Ob('capacity of the pool', UNKNOWN if n is None else PROVED if n >= 262144 else REFUTED,
                  'the pool holds %s objects, 256k documented' % n, ('handles.c', 0), rule=rule))
    return res


# --------------------------------------------------------------- initial state
def fresh(ctx):
    """what the library says and does before anything else was called, from the
    initial values of its variables"""
    B = ctx.B
    rule = 'constant propagation from the initial values of the variables'
    gl = {n for n, g in B.mod.globals.items() if g.init is not None and not n.startswith(('K_', 'spec_'))}
    res = []

    def runit(fn, n, judge):
        nm = 'first call: ' + fn
        if fn not in B.mod.funcs or len(B.mod.funcs[fn].params) != n:
            res.append(Ob(nm, UNKNOWN, 'interface changed', rule=rule))
            return
        args = [sym('p%d' % i, 64, 4096, None, True) for i in range(n)]
        try:
            import time
            E = mkengine(B, Conf('plain'), fn)
            E.ginit = gl
            E.deadline = time.time() + 60
            lv = E.run(fn, args, engine.State())
        except (engine.Imprecise, RecursionError) as e:
            res.append(Ob(nm, UNKNOWN, str(e), rule=rule))
            return
        bad = None
        for l in lv:
            # a path that may be ruled out by a failed allocation or the like decides nothing
            if l.kind != 'ret':
                if len(lv) == 1:
                    bad = (REFUTED, 'the first call of %s ends the program' % fn, l.loc)
                continue
            r = judge(E, l, args)
            if r and not bad:
                bad = r + (l.loc,)
        res.append(Ob(nm, bad[0], bad[1], bad[2], rule=rule) if bad else Ob(nm, PROVED, stats=dict(paths=len(lv)), rule=rule))

    def flag(E, l, a):
        v = E.load(l.st, a[0], 4, None)
        if v == const(0):
            return None
        return (REFUTED if v.isconst() else UNKNOWN, 'before MPI_Init the library reports the flag %r' % v)

    def handle(E, l, a):
        v = E.load(l.st, a[0], 4, None)
        if not v.isconst():
            return (UNKNOWN, 'first handle %r' % v)
        return (REFUTED, 'the first handle is null') if v == const(0) else None
    runit('MPI_Initialized', 1, flag)
    runit('mpi_alloc_handle', 2, handle)
    runit('MPI_Init', 2, lambda E, l, a: None)
    return res


# --------------------------------------------------------------- the pool as built
def pool(ctx):
    """the pool of handles as the code builds it: the free list reachable after a first
    call (from the initial values; from a destroyed pool) and after a call that finds
    the pool exhausted is walked in the abstract state, and every slot on it must be
    one whose handle the library translates back to that slot"""
    B = ctx.B
    rule = 'walk of the free list in the abstract state built by the code; translation of every handle on it'
    res = []
    gl = {n for n, g in B.mod.globals.items() if g.init is not None and not n.startswith(('K_', 'spec_'))}
    off = probe1(['__builtin_offsetof(Handleitem, %s)' % f for f in ('handle', 'next', 'data')], HANDH, B.defines)
    need = ('nextfree', 'nblocks', 'need_to_init')
    rinfo = {}
    PP = [sym('p%d' % i, 64, 4096, None, True) for i in range(2)]

    def engine_for(fn, g):
        import time
        E = mkengine(B, Conf('plain'), fn)
        E.ginit = g
        E.unroll, E.budget = 1100, 10 ** 6
        E.deadline = time.time() + 120
        E.rinfo = rinfo
        return E

    def ask(st, g, fn, args):
        E = engine_for(fn, g)
        lv = [l for l in E.run(fn, args, st) if l.kind == 'ret' and not l.st.dead]
        return E, lv

    def old_content(v):
        # what a slot held before: whether it is still good is not known here
        return any(a.kind == 'ld' and '@nblocks' not in repr(var(a)) for a in T.deps(v))

    def case(nm, g, setup, least):
        if any(o is None for o in off) or any(n not in B.mod.globals for n in need):
            return (UNKNOWN, 'the pool is represented differently', None)
        E = engine_for('mpi_alloc_handle', g)
        st = engine.State()
        setup(E, st)
        if st.dead:
            return (UNKNOWN, 'no such state', None)
        E, lv = ask(st, g, 'mpi_alloc_handle', PP)
        if len(lv) != 1:
            return (UNKNOWN, '%d outcomes' % len(lv), None)
        st = lv[0].st
        loc = lv[0].loc
        for e in st.events():
            if e[0] in ('oob', 'nullderef', 'uninitptr', 'uaf'):
                return (REFUTED, 'building the pool reaches outside its memory (%s)' % e[0], e[-1])
        ld = lambda a, n: st.norm(E.load(st, a, n, None))
        items = [(ld(PP[0], 4), ld(PP[1], 8))]
        p = ld(E.gaddr('nextfree'), 8)
        seen = []
        while not (p.isconst() and p.cval() == 0):
            if any(q is p or q == p for q in seen):
                return (REFUTED, 'the free list is circular', loc)
            if len(seen) > 5000:
                return (UNKNOWN, 'the free list does not end', loc)
            b = engine.base_of(p)[0]
            if b is None or b.kind != 'rgn':
                return (REFUTED if p.isconst() or b is not None and b.kind == 'uninit' or 'uninit' in repr(p)[:6] else UNKNOWN, 'the free list goes on at %r' % p, loc)
            seen.append(p)
            h = ld(add(p, const(off[0])), 4)
            items.append((h, add(p, const(off[2]))))
            p = ld(add(p, const(off[1])), 8)
        if len({repr(h) for h, _ in items}) != len(items):
            return (REFUTED, 'two slots of the pool carry the same handle', loc)
        for h, d in items:
            if old_content(h):
                return (UNKNOWN, 'a slot keeps its handle %r' % h, loc)
            if h == const(0):
                return (REFUTED, 'a slot of the pool carries the null handle', loc)
            E2, lr = ask(st.copy(), g, 'mpi_handle_to_ptr', [h])
            lr = [l for l in lr if not (l.val is not None and l.val == d)]
            for l in lr:
                v = l.st.norm(l.val)
                if v == l.st.norm(d):
                    continue
                if l.st.decide(ceq(v, d)) is False:
                    return (REFUTED, 'handle %r of slot %r is translated to %r' % (h, d, v), l.loc)
                return (UNKNOWN, 'handle %r of slot %r is translated to %r' % (h, d, v), l.loc)
        E3, l2 = ask(st.copy(), g, 'mpi_alloc_handle', PP)
        for l in l2:
            again = [l.st.norm(E3.load(l.st, q, n, None)) for q, n in ((PP[0], 4), (PP[1], 8))]
            if again[0] == items[0][0] or again[1] == items[0][1]:
                return (REFUTED, 'the next object gets the slot or handle of the one before', l.loc)
        if len(items) < least:
            return (REFUTED, 'only %d of 256 handles of a block can be had' % len(items), loc)
        return (PROVED, len(items), loc)

    def put(E, st, name, v):
        E.store(st, E.gaddr(name), B.mod.size(B.mod.globals[name].ty), v, None)

    def old(E, st):
        put(E, st, 'need_to_init', const(1))

    def full(E, st):
        put(E, st, 'need_to_init', const(0))
        put(E, st, 'nextfree', const(0))
        n = E.load(st, E.gaddr('nblocks'), 4, None)
        st.assume(cle(const(1), n))
        st.assume(cle(n, const(1023)))
    for nm, g, setup, least in (('initial values', gl, lambda E, st: None, 255), ('destroyed pool', set(), old, 255), ('exhausted pool', set(), full, 255)):
        try:
            r = case(nm, g, setup, least)
        except (engine.Imprecise, RecursionError) as e:
            r = (UNKNOWN, str(e), None)
        nm = 'pool built from: ' + nm
        res.append(Ob(nm, PROVED, stats=dict(slots=r[1]), rule=rule) if r[0] == PROVED else Ob(nm, r[0], r[1], r[2], rule=rule))
    return res


# --------------------------------------------------------------- flow-sensitive diagnostics
FLOW = ['uninitialized', 'return-stack-address', 'array-bounds', 'free-nonheap-object', 'nonnull', 'fortify-source',
        'shift-count-overflow', 'shift-count-negative', 'division-by-zero', 'infinite-recursion', 'memset-transposed-args']


@scratch
def diagnose(ctx, flags, d=None):
    """the compiler's own analyses over every source: (file, line, function-less text, flag)"""
    def one(f):
        rc, out, err = build.run([build.CLANG(), '-fsyntax-only', '-Wno-everything', '-fno-caret-diagnostics'] + ['-W' + w for w in flags]
                                 + ['-Wno-error=' + w for w in ('implicit-function-declaration', 'int-conversion')]
                                 + ['-DHAVE_CONFIG_H', '-I' + d, '-I' + build.REPO] + ['-D' + x for x in ctx.B.defines] + [os.path.join(build.REPO, f)])
        return [(os.path.basename(m[0]), int(m[1]), m[2], m[3]) for m in re.findall(r'^(.*?):(\d+):\d+: warning: (.*) \[-W([\w-]+)', err, re.M)]
    from concurrent.futures import ThreadPoolExecutor
    fs = build.csources()
    with ThreadPoolExecutor(8) as ex:
        return fs, dict(zip(fs, ex.map(one, fs)))


def flow(ctx):
    """no source does what the compiler's analyses already show to be undefined on every
    path through it: a variable read before it is set, an access beyond a known size, ..."""
    rule = "the compiler's flow-sensitive analyses of definite misuse: " + ', '.join(FLOW)
    fs, w = diagnose(ctx, FLOW)
    return [Ob('definite misuse in ' + f, REFUTED if w[f] else PROVED, '%s (-W%s)' % w[f][0][2:] if w[f] else '', w[f][0][:2] if w[f] else None,
               stats=dict(analyses=len(FLOW)), rule=rule) for f in fs]


def formats(ctx):
    """every message has the arguments its format asks for: text where it says text, a number
    where it says a number.  A difference in the width of a number alone is let pass"""
    rule = 'type check of the arguments of every formatted output against its format'
    fs, w = diagnose(ctx, ['format', 'format-insufficient-args'])
    res = []
    for f in fs:
        bad = None
        for fn, ln, text, fl in w[f]:
            m = re.search(r"type '([^']*)' but the argument has (?:underlying )?type '([^']*)'", text)
            if m and ('*' in m.group(1)) == ('*' in m.group(2)) and '*' not in m.group(1) and 'double' not in m.group(1) + m.group(2):
                continue
            if not m and "more '%' conversions" not in text:
                continue
            if m and m.group(1) == 'void *':
                continue
            bad = bad or (fn, ln, text)
        res.append(Ob('messages of ' + f, REFUTED if bad else PROVED, bad[2] if bad else '', bad[:2] if bad else None, rule=rule))
    return res
