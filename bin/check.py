#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current sources.
Exit 0 held, 1 violated (with a VIOLATION line), 2 the analysis could not run."""
import json
import multiprocessing
import os
import signal
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'tools')]
import build
import checks
import registry
import contracts
from driver import conform, Conf
from compare import PROVED, UNKNOWN, REFUTED, VN
from gen_fort import FORT

TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
T0 = time.time()
BUDGET = 700 if TIER == 'quick' else 3400
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
RULE = ('relational abstract interpretation of the LLVM IR of the function against its reference model: value numbering with '
        'interval and linear facts, loops summarised; every joint path must agree on outcome, results, memory effects and calls')


def obligations(p, B, cname):
    """(name, thunk) for each obligation of the property in one configuration"""
    out, seen = [], set()
    quiet = cname in ('default', 'fort8', 'type-checking', 'checks')

    def model(fn, extra=None):
        specs, conf, opts = registry.VARIANTS.get(fn, (['spec_' + fn], registry.CON, {}))
        opts = dict(opts, **(extra or {}))
        if quiet:
            opts['quiet'] = 1
        if extra is None:
            opts.pop('quiet', None)
        internal = not fn.startswith('MPI_') and not fn.endswith('_')
        if internal:
            opts['exported'] = False
        out.append((fn, lambda: conform(B, fn, specs, conf, opts)))
        for sp in registry.ALSO.get(fn, ()):
            o2 = dict(opts)
            o2.pop('quiet', None)
            out.append((sp[5:], lambda: conform(B, fn, [sp], conf, o2)))

    def fort(fn, extra=None):
        opts = dict(ordered=[])
        opts.update(extra or {})
        if extra and quiet:
            opts['quiet'] = 1

        def decide():
            v = conform(B, fn, ['spec_' + fn], registry.BIND, opts)
            if v.v == UNKNOWN:
                # inconclusive with the C calls kept opaque: analyse them too
                w = conform(B, fn, ['spec_' + fn], registry.CON, {k: x for k, x in opts.items() if k != 'ordered'})
                if w.v != UNKNOWN:
                    return w
            return v
        out.append((fn, decide))

    for kind, what in closure(p, B):
        if (kind, what) in seen:
            continue
        seen.add((kind, what))
        if kind == 'model':
            model(what)
        elif kind == 'fort':
            fort(what)
        elif kind == 'custom':
            if cname == 'default':
                out.append((what, lambda w=what: getattr(checks, w)(Ctx(B))))
        elif kind == 'aspects':
            asp = dict(aspects=frozenset(what.split(',')))
            if 'quiet' in asp['aspects'] and not quiet:
                continue
            fns = sorted({s[5:].split('__')[0] for s in B.specfuncs if s[5:6] != '_' and s[5:] != 'assume'})
            for fn in fns:
                if fn in FORT:
                    fort(fn, asp)
                else:
                    model(fn, asp)
    return out


def closure(p, B):
    """the obligations of p and of the internal functions whose contracts they rely on"""
    out = list(p.obls)
    todo = [w for k, w in out if k == 'model']
    done = set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        for g in B.callees(f) | B.callees('spec_' + f):
            todo.append(g)
            if g in contracts.MODULAR and 'spec_' + g in B.specfuncs and ('model', g) not in out:
                out.append(('model', g))
            if g == 'Simpletype_length' and ('custom', 'predefined') not in out:
                out.append(('custom', 'predefined'))
    return out


class Ctx:
    def __init__(s, B):
        s.B = B


def where(l):
    return '%s:%s' % (l[0], l[1]) if l and l[0] else ''


def plain(r):
    """verdict or list of obligations, as plain data"""
    if isinstance(r, list):
        return [(o.name, o.v, str(o.text)[:600], where(o.loc), o.stats, o.rule) for o in r]
    return [(None, r.v, str(r.text)[:600], where(r.loc), r.stats, RULE + '; contracts: ' + str(getattr(r, 'conf', '')))]


JOBS = []


def work(i):
    name, fn = JOBS[i]
    t = time.time()
    try:
        r = plain(fn())
    except Exception as e:
        r = [(None, UNKNOWN, 'analysis error %r' % (e,), '', {}, RULE)]
    return i, [(a or name, v, x, l, st, ru) for a, v, x, l, st, ru in r], round(time.time() - t, 2)


def known(pid):
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known: property=%s ' % pid):
            key, _, what = l[len('known: property=%s ' % pid):].partition(' -- ')
            out.append((key.strip(), what.strip()))
    return out


def main():
    pid = [a for a in sys.argv[1:] if not a.startswith('-')][0]
    p = next(x for x in registry.PROPS if x.id == pid)
    confs = ['default'] if TIER == 'quick' else list(build.CONFIGS)
    results, notes, specfail, nfun, srcs = [], [], {}, 0, []
    for c in confs:
        try:
            B = build.Build(build.CONFIGS[c])
        except build.AnalysisBroken as e:
            if c == 'default':
                print('cannot analyse: %s' % e)
                return 2
            notes.append('configuration %s: %s' % (c, str(e)[:200]))
            continue
        specfail.update(B.specfail)
        nfun, srcs = max(nfun, B.nfunc), B.srcs
        JOBS[:] = obligations(p, B, c)
        done = set()
        if JOBS:
            ctx = multiprocessing.get_context('fork')
            pool = ctx.Pool(min(8, len(JOBS)), maxtasksperchild=None)
            it = pool.imap_unordered(work, range(len(JOBS)))
            for _ in JOBS:
                try:
                    i, rs, w = it.next(timeout=max(5, BUDGET - (time.time() - T0)))
                except multiprocessing.TimeoutError:
                    break
                done.add(i)
                results += [(c, i) + r + (w,) for r in rs]
            pool.terminate()
            for i, (n, _) in enumerate(JOBS):
                if i not in done:
                    results.append((c, i, n, UNKNOWN, 'time limit', '', {}, RULE, 0))
    results.sort(key=lambda r: (confs.index(r[0]), r[1]))
    kn = known(pid)
    viol, found = [], []
    for c, i, n, v, x, l, st, ru, w in results:
        if v != REFUTED:
            continue
        k = next((k for k in kn if k[0] == n), None)
        if k:
            found.append((n, k[1]))
        else:
            viol.append(dict(configuration=c, obligation=n, construct=l, violation=x, rule=ru))
    nd = sum(r[3] == PROVED for r in results)
    nu = [dict(configuration=r[0], obligation=r[2], why=r[4][:200]) for r in results if r[3] == UNKNOWN]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=registry.level(p), wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=registry.ASSUME)
    cov = dict(sources=srcs, functions_in_ir=nfun, configurations=confs, obligations=len(results), discharged=nd,
               undecided=nu, known_findings=[f[0] for f in found], rule=RULE if not p.technique else p.technique,
               programs=len({r[2] for r in results}),
               disagreements_checked=sum(int(r[6].get('pairs') or 1) for r in results),
               explanation='Static analysis of the current sources: each obligation compares one function (or table, interface, '
                           'constant) with what the property requires, for all inputs; paths and joint outcomes are counted on this run. '
                           'An obligation the analysis cannot settle is listed as undecided and raises no alarm.',
               samples=[dict(configuration=r[0], obligation=r[2], verdict=VN[r[3]], seconds=r[8],
                             **{k: r[6][k] for k in ('paths', 'model_paths', 'pairs', 'terms', 'loops', 'functions') if k in r[6]}) for r in results[:60]])
    if notes:
        cov['notes'] = notes
    if specfail:
        cov['models_not_compiled'] = specfail
    ev['coverage'] = cov
    if viol:
        ev['violation_list'] = viol[:50]
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for n, what in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, n, what))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s' % (pid, len(results), nd, len(nu), len(viol), time.time() - T0))
    for u in nu[:20]:
        print('  undecided: %(obligation)s [%(configuration)s]: %(why)s' % u)
    if viol:
        rp = os.path.join(EVID, pid + '.violation.json')
        json.dump(dict(property=pid, violations=viol), open(rp, 'w'), indent=1)
        for v in viol[:10]:
            print('  violated: %(obligation)s at %(construct)s: %(violation)s' % v)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if not nd and results:
        print('nothing could be decided')
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
