"""Yes/no state: fields of internal records and static variables that every
store of the library sets to 0 or 1.  What is read from them is 0 or 1 in
every state the library can reach (induction over the stores), so code may
test them in any form (x, x != 0, x == 1, x ? 1 : 0)."""
import re

PUBLIC = ('MPI_Status',)


def base(t):
    m = re.match(r'%?(?:struct\.)?(\w+?)(?:\.\d+)?$', t.name or '')
    return m.group(1) if m else None


def key(mod, defs, v, t):
    if t is None or t.k != 'int' or t.bits > 32:
        return None
    if v[0] == 'g':
        g = mod.globals.get(v[1])
        if g is None or g.const or mod.res(g.ty).k != 'int':
            return None
        return ('g', v[1])
    if v[0] != 'v':
        return None
    I = defs.get(v[1])
    if I is None or I.op != 'getelementptr' or mod.res(I.ty).k != 'struct' or len(I.args) != 3:
        return None
    z, k = I.args[1][1], I.args[2][1]
    b = base(I.ty)
    if z != ('i', 0) or k[0] != 'i' or b is None or b.startswith(PUBLIC):
        return None
    return (b, k[1])


def address(mod, defs, v):
    if v[0] == 'g':
        return ('g', v[1])
    I = defs.get(v[1])
    if I is None or I.op != 'getelementptr' or mod.res(I.ty).k != 'struct' or len(I.args) != 3:
        return None
    b, k = base(I.ty), I.args[2][1]
    return (b, k[1]) if b and k[0] == 'i' else None


def yesno(mod, defs, v, good, depth=0):
    if v[0] == 'i':
        return v[1] in (0, 1)
    if v[0] in ('zero', 'null'):
        return True
    if v[0] != 'v' or depth > 12:
        return False
    I = defs.get(v[1])
    if I is None:
        return False
    if I.op == 'icmp':
        return True
    if I.op in ('and', 'or', 'xor'):
        return all(yesno(mod, defs, x, good, depth + 1) for t, x in I.args)
    if I.op in ('zext', 'trunc'):
        return (I.op == 'zext' and I.args[0][0].bits == 1) or yesno(mod, defs, I.args[0][1], good, depth + 1)
    if I.op == 'load':
        return key(mod, defs, I.args[0][1], I.ty) in good
    if I.op == 'phi':
        return all(x == v or yesno(mod, defs, x, good, depth + 1) for x, l in I.extra)
    if I.op == 'select':
        return all(yesno(mod, defs, x, good, depth + 1) for t, x in I.args[1:])
    return False


def compute(mod, repofuncs):
    """marks the loads (Instr.flags) that read yes/no state; returns its names"""
    defs = {}
    for n, f in mod.funcs.items():
        defs[n] = {I.dst: I for b in f.blocks.values() for I in b if I.dst is not None}
    stores, loads = {}, {}
    for n, f in mod.funcs.items():
        for b in f.blocks.values():
            for I in b:
                if I.op == 'store' and n in repofuncs:
                    k = key(mod, defs[n], I.args[1][1], I.args[0][0])
                    if k:
                        stores.setdefault(k, []).append((n, I.args[0][1]))
                elif I.op == 'load':
                    k = key(mod, defs[n], I.args[0][1], I.ty)
                    if k:
                        loads.setdefault(k, []).append(I)
    good = set(stores)
    # an address that is used for anything but a plain load or store says
    # nothing about what is written there
    for n, f in mod.funcs.items():
        for b in f.blocks.values():
            for I in b:
                for j, (t, v) in enumerate(I.args or ()):
                    if v[0] in ('v', 'g') and not (I.op == 'load' or I.op == 'store' and j == 1):
                        good.discard(address(mod, defs[n], v))
    for k in list(good):
        if k[0] == 'g':
            g = mod.globals[k[1]]
            i = g.init
            if i is None or not (i[0] in ('zero', 'null') or i[0] == 'i' and i[1] in (0, 1)):
                good.discard(k)
    while True:
        bad = {k for k in good if not all(yesno(mod, defs[n], v, good) for n, v in stores[k])}
        if not bad:
            break
        good -= bad
    for k in good:
        for I in loads.get(k, ()):
            I.flags = tuple(I.flags) + ('yesno',)
    return good
