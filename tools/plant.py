#!/usr/bin/env python3
"""plant.py verify [ID...]: for each planted bug, applies it to /repo, builds, runs the stable tests,
runs the demonstration and the check of its property, and takes it out again."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, 'seeded')


def sh(c, cwd='/repo', t=400, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=e)
    return r.returncode, r.stdout


def clean():
    sh('git checkout -- .')


def orig(ident):
    """all removed lines (or the neighbours of pure additions) are of the base commit"""
    base = sh('git rev-list --max-parents=0 HEAD')[1].split()[0]
    p = os.path.join(SD, ident, 'patch.diff')
    rc, o = sh('git diff --stat %s HEAD -- . | tail -1' % base)
    f = ln = None
    bad = 0
    n = 0
    for l in open(p):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            ln = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            rc, o = sh('git blame -s -L%d,%d HEAD -- %s' % (ln, ln, f))
            c = o.split()[0].lstrip('^')
            if not base.startswith(c):
                bad += 1
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return n, bad


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    rc, o = sh('bash /opt/vp/test.sh /tmp/plant.json')
    r = json.load(open('/tmp/plant.json'))
    return b, r, o.strip().splitlines()[-1] if o.strip() else ''


def main():
    ids = sys.argv[2:] or sorted(os.listdir(SD))
    if sh('git status --porcelain')[1].strip():
        sys.exit('/repo is not clean')
    for i in ids:
        d = os.path.join(SD, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        out = [i, meta['property']]
        try:
            rc, o = sh('git apply %s/patch.diff' % d)
            if rc:
                print(i, 'does not apply', o)
                continue
            n, bad = orig(i)
            out.append('orig %d/%d' % (n - bad, n))
            rc, o = sh('bash /opt/vp/build.sh')
            out.append('build %d' % rc)
            b, r, last = stable()
            out.append(last)
            rc, o = sh('bash %s/demo.sh' % d)
            out.append('demo-with %d' % rc)
            if rc == 0:
                out.append('BAD')
            rc, o = sh('python3 bin/check.py %s' % meta['property'], cwd=HERE, env=dict(VERIF_EVIDENCE='/tmp/plant-ev'), t=900)
            out.append('CAUGHT' if rc == 1 else 'MISSED(%d)' % rc)
            out.append(next((l.strip() for l in o.splitlines() if 'violated' in l and l.startswith('  ')), next((l.strip() for l in o.splitlines() if 'undecided:' in l), ''))[:200])
        finally:
            clean()
        sh('bash /opt/vp/build.sh')
        rc, o = sh('bash %s/demo.sh' % d)
        out.append('demo-clean %d%s' % (rc, ' BAD ' + o[-300:] if rc else ''))
        print(' | '.join(out), flush=True)


main()
