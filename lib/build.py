"""Compile /repo's current sources (and the reference models of /verif/spec)
to LLVM IR and load them.  Everything is written to a scratch directory."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import irparse
import flags

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tool(*names):
    for n in names:
        p = n if n.startswith('/') and os.path.exists(n) else (None if n.startswith('/') else shutil.which(n))
        if p:
            return p
    raise AnalysisBroken('no tool ' + ' '.join(names))


class AnalysisBroken(Exception):
    pass


CLANG = lambda: tool('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang', 'clang-18', 'clang')
OPT = lambda: tool('/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt', 'opt-18', 'opt')
LINK = lambda: tool('/usr/bin/llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link', 'llvm-link-18', 'llvm-link')
PASSES = 'sroa,mem2reg,loop-simplify,lcssa'
CONFIG = '''#define FC_FUNC(name,NAME) name ## _
#define FC_FUNC_(name,NAME) name ## _
'''


def sources():
    txt = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'libmpi_serial_a_SOURCES\s*=\s*(.*)', txt)
    if not m:
        raise AnalysisBroken('libmpi_serial_a_SOURCES not found in Makefile.am')
    out = []
    for w in m.group(1).split():
        if w not in out:
            out.append(w)
    return out


def csources():
    return [s for s in sources() if s.endswith('.c')]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, **kw)
    return r.returncode, r.stdout, r.stderr


class Build:
    def __init__(s, defines=(), specs=True):
        s.defines = tuple(defines)
        s.dir = tempfile.mkdtemp(prefix='verif-ir-')
        s.specfail = {}
        try:
            s._build(specs)
        finally:
            shutil.rmtree(s.dir, ignore_errors=True)

    def cc(s, src, out, extra=()):
        return run([CLANG(), '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-w',
                    '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
                    '-DHAVE_CONFIG_H', '-I' + s.dir, '-I' + REPO, '-I' + os.path.join(HERE, 'spec')]
                   + ['-D' + d for d in s.defines] + list(extra) + ['-o', out, src])

    def _build(s, specs):
        open(os.path.join(s.dir, 'config.h'), 'w').write(CONFIG)
        srcs = csources()
        s.srcs = srcs

        def one(f):
            o = os.path.join(s.dir, f.replace('/', '_') + '.ll')
            rc, out, err = s.cc(os.path.join(REPO, f), o, ['-g'])
            return f, o, rc, err

        def onespec(f):
            o = os.path.join(s.dir, 'spec_' + f + '.ll')
            rc, out, err = s.cc(os.path.join(HERE, 'spec', f), o)
            if rc:
                return f, None, err
            o2 = o + '.o'
            rc, out, err = run([OPT(), '-S', '-passes=' + PASSES, '-o', o2, o])
            return f, (o2 if not rc else None), err

        with ThreadPoolExecutor(8) as ex:
            r1 = list(ex.map(one, srcs))
            specfiles = sorted(f for f in os.listdir(os.path.join(HERE, 'spec')) if f.endswith('.c')) if specs else []
            r2 = list(ex.map(onespec, specfiles))
        for f, o, rc, err in r1:
            if rc:
                raise AnalysisBroken('cannot compile %s: %s' % (f, err[-2000:]))
        allll = os.path.join(s.dir, 'all.ll')
        rc, out, err = run([LINK(), '-S', '-o', allll] + [o for _, o, _, _ in r1])
        if rc:
            raise AnalysisBroken('llvm-link: ' + err[-2000:])
        optll = os.path.join(s.dir, 'opt.ll')
        rc, out, err = run([OPT(), '-S', '-passes=' + PASSES, '-o', optll, allll])
        if rc:
            raise AnalysisBroken('opt: ' + err[-2000:])
        s.mod = irparse.Module().parse(open(optll).read())
        s.repofuncs = set(s.mod.funcs)
        s.consts = {}
        s.specfuncs = set()
        for f, o, err in r2:
            if o is None:
                s.specfail[f] = err[-1500:]
                continue
            txt = open(o).read()
            tag = re.sub(r'\W', '', f)
            txt = re.sub(r'@(\.str|__const\.|__func__|__PRETTY_FUNCTION__)', r'@%s\1' % tag, txt)
            txt = re.sub(r'%(struct|union)\.anon', r'%%\1.%sanon' % tag, txt)
            m2 = irparse.Module().parse(txt)
            for n, fn in m2.funcs.items():
                if n.startswith('spec_'):
                    if n in s.mod.funcs:
                        raise AnalysisBroken('duplicate model ' + n)
                    s.mod.funcs[n] = fn
                    fn.dbg = None
                    s.specfuncs.add(n)
            for n, g in m2.globals.items():
                if n.startswith(('K_', 'spec_')):
                    s.mod.globals[n] = g
                    if g.init is not None and g.init[0] == 'i':
                        s.consts[n[2:]] = g.init[1]
                    elif g.init is not None and g.init[0] in ('zero', 'null'):
                        s.consts[n[2:]] = 0
                elif n not in s.mod.globals:
                    s.mod.globals[n] = g
            for n, t in m2.structs.items():
                if n not in s.mod.structs:
                    s.mod.structs[n] = t
            for n in m2.decls:
                if n not in s.mod.decls and n not in s.mod.funcs:
                    s.mod.decls[n] = m2.decls[n] if isinstance(m2.decls, dict) else None
        s.nfunc = len(s.repofuncs)
        s.yesno = flags.compute(s.mod, s.repofuncs)

    def callees(s, fn):
        f = s.mod.funcs.get(fn)
        if f is None:
            return set()
        return {I.fn[1] for b in f.blocks.values() for I in b if I.op == 'call' and I.fn[0] == 'g'} & set(s.mod.funcs)


CONFIGS = {
    'default': (),
    'type-checking': ('TYPE_CHECKING',),
    'info': ('INFO',),
    'checks': ('CHECKS',),
    'handle-info': ('HANDLE_INFO',),
    'test-internal': ('TEST_INTERNAL',),
    'fort8': ('CONFIG_FORT_REAL=8', 'CONFIG_FORT_DOUBLE=16'),
}
