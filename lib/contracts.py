"""Contracts of internal functions.  Each is anchored by name and verified on
its own (the models of the same functions in /verif/spec).  A contract that no
longer fits the function's signature is not used and the function is inlined."""
from terms import *
import terms as T
from engine import base_of, Leaf

OBJ = ('obj',)


def unset(st, h, loc, leaves):
    """a handle that was never given a value: nothing follows"""
    if any(a.kind == 'uninit' for a in deps(h)):
        st.event('uninituse', h, loc)
        leaves.append(Leaf('crash', st, loc=loc))
        return True
    return False


def newhandle(E, st):
    n = st.bump('handle')
    n = E.objperm.get('hobj', {}).get(n, n)
    h = sym('newh%d' % n, 32, 1, None)
    o = E.newobj(st, 'hobj', 'hobj', None, uninit=True)
    st.meta[('h2p', h)] = o
    return h, o


def c_alloc(E, st, args, loc, leaves):
    h, o = newhandle(E, st)
    E.store(st, args[0], 4, h, loc)
    E.store(st, args[1], 8, o, loc)
    st.event('call', 'mpi_alloc_handle', (h, o), None, loc)
    # handles in use are different from a new one
    return [(st, None)]


def known(st, h):
    h = st.norm(h)
    for k, v in st.meta.items():
        if isinstance(k, tuple) and k[0] == 'h2p' and st.norm(k[1]) == h:
            return v
    return None


def c_h2p(E, st, args, loc, leaves):
    h = st.norm(args[0])
    if unset(st, h, loc, leaves):
        return []
    o = known(st, h)
    if o is not None:
        return [(st, o)]
    d = st.decide(ceq(h, ZERO))
    if d is True:
        return [(st, ZERO)]
    r = []
    if d is None:
        s2 = st.copy()
        if s2.assume(ceq(h, ZERO)):
            r.append((s2, ZERO))
        if not st.assume(cnot(ceq(h, ZERO))):
            return r
    r.append((st, app('h2p', st.norm(h), isptr=True, flags=OBJ)))
    return r


def c_h2d(E, st, args, loc, leaves):
    h = st.norm(args[0])
    if unset(st, h, loc, leaves):
        return []
    o = known(st, h)
    if o is not None:
        return [(st, o)]
    # null handle is not a datatype: assumption of every caller
    return [(st, app('dtslot', h, isptr=True, flags=OBJ))]


def c_freeh(E, st, args, loc, leaves):
    d = st.decide(ceq(st.norm(args[0]), ZERO))
    if d is True:
        return [(st, None)]         # the null handle: nothing happens
    h = st.norm(args[0])
    st.event('call', 'mpi_free_handle', (h,), None, loc)
    # what is left in the slot is of no consequence
    o = known(st, h)
    st.meta = dict(st.meta)
    st.meta['freeslots'] = st.meta.get('freeslots', frozenset()) | ({base_of(o)[0]} if o is not None else
        {base_of(app(f, h, isptr=True, flags=OBJ))[0] for f in ('h2p', 'dtslot')})
    return [(st, None)]


def c_extent(E, st, args, loc, leaves):
    E.store(st, args[1], 8, app('extent', st.norm(args[0])), loc)
    return [(st, ZERO)]


def c_slen(E, st, args, loc, leaves):
    a = st.norm(args[0])
    if a.isconst():
        return None
    return [(st, app('slen', a, bits=32, lo=1, hi=64))]


def event(name, ret=None, nargs=None):
    def h(E, st, args, loc, leaves):
        st.event('call', name, tuple(st.norm(a) for a in args), None, loc)
        r = ret(E, st, args) if ret else None
        return [(st, r)]
    return h


def c_listnew(E, st, args, loc, leaves):
    o = E.newobj(st, 'list', 'list', None, uninit=True)
    st.event('call', 'AP_list_new', (o,), None, loc)
    return [(st, o)]


def c_append(E, st, args, loc, leaves):
    o = E.newobj(st, 'item', 'item', None, uninit=True)
    st.event('call', 'AP_list_append', (st.norm(args[0]), st.norm(args[1])), None, loc)
    E.store(st, o, 8, args[1], loc)
    return [(st, o)]


def c_typestruct(E, st, args, loc, leaves):
    st2 = st.copy()
    st.event('call', 'Type_struct', tuple(st.norm(a) for a in args), st2, loc)
    o = E.newobj(st, 'newtype', 'newtype', None, uninit=True)
    E.store(st, args[4], 8, o, loc)
    return [(st, ZERO)]


def c_pcopy(E, st, args, loc, leaves):
    st.event('call', 'Pcopy_data2', tuple(st.norm(a) for a in args), None, loc)
    return [(st, ZERO)]


HANDLES = {'mpi_alloc_handle': (c_alloc, 2), 'mpi_handle_to_ptr': (c_h2p, 1), 'mpi_free_handle': (c_freeh, 1)}
LISTS = {'AP_list_new': (c_listnew, 0), 'AP_list_append': (c_append, 2),
         'AP_list_delete_item': (event('AP_list_delete_item'), 2), 'AP_list_free': (event('AP_list_free'), 1)}
TYPES = {'mpi_handle_to_datatype': (c_h2d, 1), 'Type_extent': (c_extent, 2), 'Simpletype_length': (c_slen, 1)}
def c_bound(name):
    def h(E, st, args, loc, leaves):
        # a function of the type's map as it is now; Cmp.latewrites sees to it
        # that the map does not change afterwards
        a = st.norm(args[0])
        st.meta = dict(st.meta)
        st.meta['bounds'] = st.meta.get('bounds', ()) + ((a, st.mem, loc),)
        return [(st, app(name, a))]
    return h


BOUNDS = {'calc_lb': (c_bound('calc_lb'), 1), 'calc_ub': (c_bound('calc_ub'), 1)}
BUILDER = {'Type_struct': (c_typestruct, 5)}
COPY = {'Pcopy_data2': (c_pcopy, 6)}

ALIAS = {'MPI_Ssend': 'MPI_Send', 'MPI_Rsend': 'MPI_Send', 'MPI_Address': 'MPI_Get_address',
         'FGet_address': 'MPI_Get_address',
         'MPI_Type_create_hvector': 'MPI_Type_hvector'}


def opaque_mpi(name, f, mod, whole=False):
    name = ALIAS.get(name, name)
    bits = f.ret.bits if f.ret.k == 'int' else 64

    def h(E, st, args, loc, leaves):
        args = tuple(st.norm(a) for a in args)
        rv = E.freshn(st, name, bits=bits)
        if f.ret.k in ('double', 'float'):
            pass
        E.opaque(st, name, args, rv, loc, 'call', whole)
        return [(st, rv)]
    return h


def table(mod, *groups, without=()):
    out = {}
    for g in groups:
        for n, (h, k) in g.items():
            f = mod.funcs.get(n)
            if n in without or f is None or len(f.params) != k:
                continue
            out[n] = h
    return out


MODULAR = set(HANDLES) | set(LISTS) | set(TYPES) | set(BUILDER) | set(COPY) | set(BOUNDS)
