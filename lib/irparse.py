"""Parser for the subset of textual LLVM 18 IR that clang -O0 + sroa/mem2reg/
loop-simplify/lcssa produces for C.  Pure Python, no dependencies."""
import re

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*"            # c string
  | "(?:[^"\\]|\\.)*"
  | [%@][-a-zA-Z$._0-9]+
  | [%@]"[^"]*"
  | ![-a-zA-Z$._0-9]*
  | \#[0-9]+
  | 0x[KLMHR]?[0-9A-Fa-f]+
  | -?\d+\.\d+(?:e[+-]?\d+)?
  | -?\d+
  | \.\.\.
  | [-a-zA-Z$._][-a-zA-Z$._0-9]*
  | [()\[\]{}<>,=*:]
''', re.X)


class IRError(Exception):
    pass


class Ty:
    __slots__ = ('k', 'bits', 'elem', 'n', 'name', 'fields', 'packed')

    def __init__(s, k, **kw):
        s.k = k
        s.bits = s.elem = s.n = s.name = s.fields = None
        s.packed = False
        for a, b in kw.items():
            setattr(s, a, b)

    def __repr__(s):
        return {'int': 'i%s' % s.bits, 'arr': '[%s x %s]' % (s.n, s.elem)}.get(s.k, s.name or s.k)


PTR = Ty('ptr')
VOID = Ty('void')
INT = {b: Ty('int', bits=b) for b in (1, 8, 16, 32, 64, 128)}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'extra', 'dbg', 'fn', 'flags', 'raw')

    def __init__(s, op):
        s.op = op
        s.dst = s.ty = s.extra = s.dbg = s.fn = s.raw = None
        s.args = []
        s.flags = ()

    def __repr__(s):
        return '<%s %s>' % (s.op, (s.raw or '')[:80])


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []      # (name, Ty)
        s.ret = None
        s.blocks = {}      # label -> [Instr]
        s.order = []
        s.entry = None
        s.dbg = None
        s.internal = False
        s.loops = None


class Global:
    def __init__(s, name, ty, init, const, internal, ext):
        s.name, s.ty, s.init, s.const, s.internal, s.ext = name, ty, init, const, internal, ext


class P:
    """token stream"""

    def __init__(s, text):
        s.t = TOK.findall(text)
        s.i = 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        v = s.next()
        if v != x:
            raise IRError('expected %r got %r in %r' % (x, v, ' '.join(s.t[:40])))


ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly signext zeroext inreg
 returned nofree immarg readnone dereferenceable dereferenceable_or_null align byval sret
 nosync willreturn writable dead_on_unwind range captures'''.split())
LINK = set('''private internal external linkonce linkonce_odr weak weak_odr common appending
 extern_weak available_externally dso_local dso_preemptable hidden protected default
 unnamed_addr local_unnamed_addr'''.split())


class Module:
    def __init__(s):
        s.structs = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.md = {}
        s.files = {}

    # ---------- types
    def ptype(s, p):
        t = p.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.fullmatch(r'i\d+', t):
            b = int(t[1:])
            r = INT.get(b) or INT.setdefault(b, Ty('int', bits=b))
        elif t in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
            r = Ty('fp', bits={'double': 64, 'float': 32, 'half': 16, 'x86_fp80': 128, 'fp128': 128}[t], name=t)
        elif t == '[':
            n = int(p.next())
            p.expect('x')
            e = s.ptype(p)
            p.expect(']')
            r = Ty('arr', n=n, elem=e)
        elif t == '<' and p.peek() == '{':
            p.next()
            f = []
            while not p.eat('}'):
                f.append(s.ptype(p))
                p.eat(',')
            p.expect('>')
            r = Ty('struct', fields=f, packed=True)
        elif t == '<':
            n = int(p.next())
            p.expect('x')
            e = s.ptype(p)
            p.expect('>')
            r = Ty('vec', n=n, elem=e)
        elif t == '{':
            f = []
            while not p.eat('}'):
                f.append(s.ptype(p))
                p.eat(',')
            r = Ty('struct', fields=f)
        elif t.startswith('%'):
            r = Ty('named', name=t)
        elif t == 'label':
            r = Ty('label')
        elif t == 'metadata':
            r = Ty('metadata')
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise IRError('type? %r in %r' % (t, ' '.join(p.t[:30])))
        if p.peek() == '(' and r.k in ('void', 'int', 'ptr', 'fp', 'named') and s._isfnty(p):
            # function type  "i32 (ptr, ...)"
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        return r

    def _isfnty(s, p):
        # after a type, '(' starts a function type only in call instructions
        d = 0
        j = p.i
        while j < len(p.t):
            if p.t[j] == '(':
                d += 1
            elif p.t[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        nxt = p.t[j + 1] if j + 1 < len(p.t) else None
        return bool(nxt) and (nxt[0] in '@%')

    def res(s, t):
        while t.k == 'named':
            t = s.structs[t.name]
        return t

    def align(s, t):
        t = s.res(t)
        if t.k == 'int':
            return max(1, min(16, (t.bits + 7) // 8))
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return t.bits // 8
        if t.k in ('arr', 'vec'):
            return s.align(t.elem)
        if t.k == 'struct':
            return 1 if t.packed else max([s.align(f) for f in t.fields] or [1])
        raise IRError('align %s' % t.k)

    def size(s, t):
        t = s.res(t)
        if t.k == 'int':
            return max(1, (t.bits + 7) // 8)
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return t.bits // 8
        if t.k in ('arr', 'vec'):
            return t.n * s.size(t.elem)
        if t.k == 'struct':
            o = 0
            for f in t.fields:
                a = 1 if t.packed else s.align(f)
                o = (o + a - 1) // a * a + s.size(f)
            a = s.align(t)
            return (o + a - 1) // a * a
        raise IRError('size %s' % t.k)

    def foff(s, t, i):
        t = s.res(t)
        o = 0
        for k, f in enumerate(t.fields):
            a = 1 if t.packed else s.align(f)
            o = (o + a - 1) // a * a
            if k == i:
                return o
            o += s.size(f)
        raise IRError('field')

    # ---------- values: ('i',n) ('null',) ('undef',) ('g',name) ('v',name) ('gep',ty,[vals]) ('cast',op,val) ('agg',[..]) ('str',bytes) ('zero',) ('fp',x) ('md',)
    def pval(s, p, ty):
        t = p.next()
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t in ('true', 'false'):
            return ('i', int(t == 'true'))
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if re.fullmatch(r'-?\d+', t):
            return ('i', int(t))
        if re.fullmatch(r'-?\d+\.\d+(?:e[+-]?\d+)?', t) or t.startswith('0x'):
            return ('fp', t)
        if t.startswith('@'):
            return ('g', t[1:].strip('"'))
        if t.startswith('%'):
            return ('v', t)
        if t.startswith('c"'):
            b = bytearray()
            x = t[2:-1]
            i = 0
            while i < len(x):
                if x[i] == '\\' and x[i + 1] == '\\':
                    b.append(92)
                    i += 2
                elif x[i] == '\\':
                    b.append(int(x[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(x[i]))
                    i += 1
            return ('str', bytes(b))
        if t in ('{', '[') or (t == '<' and p.peek() == '{'):
            if t == '<':
                p.next()
                close = '}'
            else:
                close = {'{': '}', '[': ']'}[t]
            out = []
            while not p.eat(close):
                et = s.ptype(p)
                out.append((et, s.pval(p, et)))
                p.eat(',')
            if t == '<':
                p.expect('>')
            return ('agg', out)
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
            p.expect('(')
            bt = s.ptype(p)
            p.expect(',')
            vals = []
            while True:
                vt = s.ptype(p)
                vals.append((vt, s.pval(p, vt)))
                if p.eat(')'):
                    break
                p.expect(',')
            return ('gep', bt, vals)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext', 'addrspacecast'):
            p.expect('(')
            vt = s.ptype(p)
            v = s.pval(p, vt)
            p.expect('to')
            tt = s.ptype(p)
            p.expect(')')
            return ('cast', t, vt, v, tt)
        if t in ('add', 'sub', 'mul'):
            while p.peek() in ('nsw', 'nuw'):
                p.next()
            p.expect('(')
            t1 = s.ptype(p)
            v1 = s.pval(p, t1)
            p.expect(',')
            t2 = s.ptype(p)
            v2 = s.pval(p, t2)
            p.expect(')')
            return ('bin', t, v1, v2)
        if t.startswith('!'):
            return ('md',)
        raise IRError('value? %r in %r' % (t, ' '.join(p.t[:30])))

    def skipattrs(s, p):
        while p.peek() in ATTRS:
            a = p.next()
            if a == 'align':
                if re.fullmatch(r'\d+', p.peek() or ''):
                    p.next()
            if p.peek() == '(' and a in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'align', 'captures'):
                d = 0
                while True:
                    x = p.next()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break

    # ---------- instructions
    def pinstr(s, line):
        m = re.search(r', !dbg !(\d+)', line)
        dbg = int(m.group(1)) if m else None
        line = re.sub(r', ![a-zA-Z_.]+ !\d+', '', line)
        line = re.sub(r' #\d+', '', line)
        p = P(line)
        I = Instr(None)
        I.dbg = dbg
        I.raw = line.strip()
        if p.peek().startswith('%') and p.peek(1) == '=':
            I.dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I.op = op
        if op == 'alloca':
            while p.peek() in ('inalloca',):
                p.next()
            I.ty = s.ptype(p)
            I.args = [(INT[64], ('i', 1))]
            if p.eat(',') and p.peek() != 'align':
                t = s.ptype(p)
                I.args = [(t, s.pval(p, t))]
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            I.ty = s.ptype(p)
            p.expect(',')
            t = s.ptype(p)
            I.args = [(t, s.pval(p, t))]
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = s.ptype(p)
            v = s.pval(p, t)
            p.expect(',')
            t2 = s.ptype(p)
            I.args = [(t, v), (t2, s.pval(p, t2))]
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            I.ty = s.ptype(p)
            while p.eat(','):
                t = s.ptype(p)
                I.args.append((t, s.pval(p, t)))
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'samesign'):
                p.next()
            I.extra = p.next()
            t = s.ptype(p)
            a = s.pval(p, t)
            p.expect(',')
            I.args = [(t, a), (t, s.pval(p, t))]
            I.ty = INT[1]
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                I.args = []
                I.extra = [p.next()]
            else:
                t = s.ptype(p)
                I.args = [(t, s.pval(p, t))]
                p.expect(',')
                p.expect('label')
                a = p.next()
                p.expect(',')
                p.expect('label')
                I.extra = [a, p.next()]
        elif op == 'switch':
            t = s.ptype(p)
            I.args = [(t, s.pval(p, t))]
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                t = s.ptype(p)
                v = s.pval(p, t)
                p.expect(',')
                p.expect('label')
                cs.append((v[1], p.next()))
            I.extra = (d, cs)
        elif op == 'ret':
            t = s.ptype(p)
            if t.k != 'void':
                I.args = [(t, s.pval(p, t))]
        elif op == 'unreachable':
            pass
        elif op == 'phi':
            while p.peek() in ('fast', 'nnan'):
                p.next()
            I.ty = s.ptype(p)
            I.extra = []
            while True:
                p.expect('[')
                v = s.pval(p, I.ty)
                p.expect(',')
                l = p.next()
                p.expect(']')
                I.extra.append((v, l))
                if not p.eat(','):
                    break
        elif op == 'call':
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan') or p.peek() in ATTRS:
                if p.peek() in ATTRS:
                    s.skipattrs(p)
                else:
                    p.next()
            I.ty = s.ptype(p)
            c = p.next()
            if c == 'asm':
                raise IRError('inline asm')
            I.fn = ('g', c[1:].strip('"')) if c.startswith('@') else ('v', c)
            if I.fn[0] == 'g' and I.fn[1].startswith('llvm.dbg'):
                return None
            p.expect('(')
            while not p.eat(')'):
                t = s.ptype(p)
                s.skipattrs(p)
                I.args.append((t, s.pval(p, t)))
                p.eat(',')
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = s.ptype(p)
            I.args = [(t, s.pval(p, t))]
            p.expect('to')
            I.ty = s.ptype(p)
        elif op == 'select':
            t = s.ptype(p)
            I.args = [(t, s.pval(p, t))]
            for _ in range(2):
                p.expect(',')
                t = s.ptype(p)
                I.args.append((t, s.pval(p, t)))
            I.ty = I.args[1][0]
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'fadd', 'fsub', 'fmul', 'fdiv'):
            fl = []
            while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'disjoint', 'nnan', 'contract'):
                fl.append(p.next())
            I.flags = tuple(fl)
            I.ty = s.ptype(p)
            a = s.pval(p, I.ty)
            p.expect(',')
            I.args = [(I.ty, a), (I.ty, s.pval(p, I.ty))]
        elif op in ('fneg', 'freeze'):
            I.ty = s.ptype(p)
            I.args = [(I.ty, s.pval(p, I.ty))]
        elif op in ('extractvalue', 'insertvalue', 'va_arg', 'fence', 'cmpxchg', 'atomicrmw'):
            I.op = 'unsupported'
        else:
            raise IRError('instr? ' + line)
        return I

    # ---------- module
    def parse(s, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                nm, d = L.split(' = type ', 1)
                s.structs[nm] = s.ptype(P(d))
            elif L.startswith('@'):
                s.pglobal(L)
            elif L.startswith('declare'):
                m = re.search(r'@([-\w.$]+)\(', L)
                s.decls[m.group(1)] = L
            elif L.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                s.pfunc(L, lines[i + 1:j])
                i = j
            elif L.startswith('!') and ' = ' in L:
                m = re.match(r'!(\d+) = (.*)', L)
                if m:
                    s.md[int(m.group(1))] = m.group(2)
            i += 1
        return s

    def pglobal(s, L):
        L = re.sub(r', ![a-zA-Z]+ !\d+', '', L)
        L = re.sub(r', align \d+', '', L)
        L = re.sub(r', section "[^"]*"', '', L)
        p = P(L)
        name = p.next()[1:].strip('"')
        p.expect('=')
        internal = ext = False
        while p.peek() in LINK:
            w = p.next()
            internal |= w in ('private', 'internal')
            ext |= w == 'external'
        k = p.next()
        if k not in ('global', 'constant'):
            return
        ty = s.ptype(p)
        init = None
        if p.peek() is not None and p.peek() not in (',',):
            init = s.pval(p, ty)
        s.globals[name] = Global(name, ty, init, k == 'constant', internal, ext)

    def pfunc(s, head, body):
        m = re.search(r'@([-\w.$]+)\(', head)
        f = Func(m.group(1))
        f.internal = ' internal ' in head
        md = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(md.group(1)) if md else None
        pre = head[:m.start()]
        p = P(pre)
        toks = [t for t in p.t[1:] if t not in LINK and t not in ATTRS and t not in ('ccc', 'fastcc')]
        f.ret = s.ptype(P(' '.join(toks))) if toks else VOID
        # params
        d = 0
        j = m.end() - 1
        for k in range(j, len(head)):
            d += (head[k] == '(') - (head[k] == ')')
            if d == 0:
                break
        ps = P(head[j + 1:k])
        idx = 0
        while ps.peek() is not None:
            if ps.peek() == '...':
                ps.next()
                continue
            t = s.ptype(ps)
            s.skipattrs(ps)
            nm = ps.next() if (ps.peek() or '').startswith('%') else '%%%d' % idx
            f.params.append((nm, t))
            idx += 1
            ps.eat(',')
        # unnamed values count params first; the entry block takes the next number
        cur = None
        buf = None
        for L in body:
            if not L.strip():
                continue
            mm = re.match(r'^([-\w.$]+|"[^"]*"):', L)
            if mm:
                cur = '%' + mm.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%entry' if any(not x[0][1:].isdigit() for x in f.params) else '%%%d' % len(f.params)
                f.blocks[cur] = []
                f.order.append(cur)
                f.entry = cur
            if buf is not None:
                buf += ' ' + L.strip()
                if L.strip().startswith(']'):
                    L = buf
                    buf = None
                else:
                    continue
            elif re.match(r'\s+switch ', L) and ']' not in L:
                buf = L
                continue
            try:
                I = s.pinstr(L)
            except (IRError, AttributeError, IndexError, KeyError, ValueError, TypeError) as e:
                # not understood: paths through it are not analysed
                I = Instr(None)
                I.raw = L.strip()
                I.op = 'not understood: ' + I.raw[:60]
                I.dbg = None
                I.args = []
                mm = re.match(r'\s*(%[-\w.$]+) = ', L)
                if mm:
                    I.dst = mm.group(1)
            if I is not None:
                f.blocks[cur].append(I)
        f.entry = f.order[0]
        s.funcs[f.name] = f

    # ---------- debug info
    def loc(s, dbg):
        """(file, line) for a DILocation id"""
        if dbg is None:
            return ('?', 0)
        t = s.md.get(dbg, '')
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        return (s._file(dbg), line)

    def _file(s, d, depth=0):
        if d in s.files:
            return s.files[d]
        t = s.md.get(d, '')
        r = '?'
        if 'DIFile(' in t:
            m = re.search(r'filename: "([^"]*)"', t)
            r = m.group(1).rsplit('/', 1)[-1] if m else '?'
        elif depth < 40:
            m = re.search(r'file: !(\d+)', t) or re.search(r'scope: !(\d+)', t)
            if m:
                r = s._file(int(m.group(1)), depth + 1)
        s.files[d] = r
        return r

    def fnloc(s, f):
        t = s.md.get(f.dbg, '') if f.dbg is not None else ''
        m = re.search(r'line: (\d+)', t)
        return (s._file(f.dbg) if f.dbg is not None else '?', int(m.group(1)) if m else 0)


# ---------- CFG helpers
def succs(block):
    t = block[-1]
    if t.op == 'br':
        return list(t.extra)
    if t.op == 'switch':
        return [t.extra[0]] + [l for _, l in t.extra[1]]
    return []


def find_loops(f):
    """natural loops: header -> set of body blocks (dominator based)"""
    if f.loops is not None:
        return f.loops
    succ = {b: succs(f.blocks[b]) for b in f.order}
    pred = {b: [] for b in f.order}
    reach = []
    seen = set()
    st = [f.entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        reach.append(b)
        st.extend(succ[b])
    for b in seen:
        for c in succ[b]:
            pred[c].append(b)
    dom = {b: set(seen) for b in seen}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b not in seen or b == f.entry:
                continue
            ds = [dom[p] for p in pred[b]]
            nd = set.intersection(*ds) | {b} if ds else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in seen:
        for c in succ[b]:
            if c in dom[b]:
                body = loops.setdefault(c, {c})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    # blocks from which the function cannot return (they abort or exit) belong
    # to the loops that lead to them
    live = {b for b in f.blocks if b in seen and f.blocks[b][-1].op == 'ret'}
    grow = True
    while grow:
        grow = False
        for b in seen:
            if b not in live and any(x in live for x in succ[b]):
                live.add(b)
                grow = True
    if live:
        for body in loops.values():
            st = [x for b in body for x in succ[b]]
            while st:
                x = st.pop()
                if x not in body and x not in live:
                    body.add(x)
                    st += succ[x]
    f.loops = loops
    return loops
