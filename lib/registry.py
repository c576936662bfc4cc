"""The properties: statement, where they are anchored, and the obligations that
decide each of them."""
import contracts as C
from compare import WATCH
from driver import Conf

CON = Conf('contracts', (C.HANDLES, C.LISTS, C.TYPES, C.BUILDER, C.COPY, C.BOUNDS))
BIND = Conf('bindings', (), opaque_all=True)
PTP = ['MPI_Irecv', 'MPI_Isend', 'MPI_Send', 'MPI_Recv', 'MPI_Wait', 'MPI_Waitall', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Irsend', 'MPI_Probe', 'MPI_Iprobe', 'MPI_Test']
OPQ = Conf('calls', (C.HANDLES, C.LISTS, C.TYPES, C.BUILDER, C.COPY, C.BOUNDS), opaque=PTP)

# functions with several acceptable models, or special settings
TABLE = {'nextfree', 'blocks', 'nblocks'}
VARIANTS = {
    'FGet_address': (['spec_MPI_Get_address'], CON, {}),
    'MPI_Sendrecv': (['spec_MPI_Sendrecv'] + ['spec_MPI_Sendrecv__%d' % i for i in range(2, 7)], OPQ, dict(ordered=PTP, strict=1)),
    'MPI_Type_contiguous': (['spec_MPI_Type_contiguous', 'spec_MPI_Type_contiguous__one', 'spec_MPI_Type_contiguous__guard'], CON, {}),
    # the table of blocks means nothing once need_to_init is set
    'mpi_destroy_handles': (['spec_mpi_destroy_handles', 'spec_mpi_destroy_handles__down'], CON, dict(globals=WATCH - TABLE)),
    'MPI_Finalize': (['spec_MPI_Finalize'], CON, dict(globals=WATCH - TABLE)),
    'MPI_Waitall': (['spec_MPI_Waitall', 'spec_MPI_Waitall__testall'], CON, {}),
    # the time of day, to the microsecond or better
    'MPI_Wtime': (['spec_MPI_Wtime', 'spec_MPI_Wtime__realtime'], CON, {}),
    'Pack': (['spec_Pack', 'spec_Pack__whole'], CON, {}),
    'Unpack': (['spec_Unpack', 'spec_Unpack__whole'], CON, {}),
    # what follows the terminating NUL is nobody's
    'MPI_Get_library_version': (['spec_MPI_Get_library_version', 'spec_MPI_Get_library_version__copy'], CON, {}),
}
# separately decided cases of a function (all must hold)
ALSO = {'MPI_Comm_free': ['spec_MPI_Comm_free__pending']}

HANDLES = ['mpi_alloc_handle', 'mpi_handle_to_ptr', 'mpi_free_handle']
LISTS = ['AP_list_new', 'AP_list_append', 'AP_list_delete_item', 'AP_list_free']
LISTX = ['AP_list_prepend', 'AP_list_search', 'AP_list_search_func', 'AP_list_delete', 'AP_list_size', 'AP_listitem_prev',
         'AP_listitem_next', 'AP_listitem_data', 'AP_list_head_item', 'AP_list_head', 'AP_list_tail', 'AP_list_next', 'AP_list_apply', 'AP_list_braindead_next']
TYPES = ['mpi_handle_to_datatype', 'Type_extent']
COPY = ['Pcopy_data2', 'copy_data2'] + TYPES
ARRAYS = ['MPI_Testany', 'MPI_Waitany', 'MPI_Testall', 'MPI_Waitall', 'MPI_Testsome', 'MPI_Waitsome']
CTORS = ['MPI_Type_struct', 'MPI_Type_contiguous', 'MPI_Type_hvector', 'MPI_Type_create_hvector', 'MPI_Type_vector',
         'MPI_Type_hindexed', 'MPI_Type_indexed', 'MPI_Type_create_indexed_block']
ROOTED = ['MPI_Bcast', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatter', 'MPI_Scatterv', 'MPI_Reduce']
SYMM = ['MPI_Barrier', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Alltoallw']
REDUCE = ['MPI_Reduce', 'MPI_Allreduce', 'MPI_Reduce_scatter', 'MPI_Scan']
COMMNEW = ['mpi_comm_new', 'MPI_Comm_dup', 'MPI_Comm_create', 'MPI_Comm_split', 'MPI_Intercomm_create', 'MPI_Intercomm_merge']
GROUPS = ['MPI_Group_incl', 'MPI_Group_range_incl', 'MPI_Group_union', 'MPI_Group_intersection', 'MPI_Group_difference',
          'MPI_Group_free', 'MPI_Comm_group']
F2C = ['MPI_%s_%s' % (k, d) for k in ('Comm', 'Group', 'Request', 'Op') for d in ('f2c', 'c2f')]
SENT = ['mpi_c_status', 'mpi_c_statuses', 'mpi_c_in_place', 'mpi_save_fort_pointers_']


def M(*fns):
    """conformance of functions with their reference models"""
    out = []
    for f in fns:
        for g in ([f] if isinstance(f, str) else f):
            out.append(('model', g))
    return out


def F(names):
    return [('fort', n + '_') for n in names.split()]


def X(*names):
    return [('custom', n) for n in names]


PROPS = []


class Prop:
    def __init__(s, id, title, statement, over, quant, why, files, mech, obls, note='', state=(), technique=None):
        s.id, s.title, s.statement, s.over, s.quant, s.why = id, title, ' '.join(statement.split()), over.split(), quant, why
        s.files, s.mech, s.obls, s.note, s.state = files.split(), mech, obls, note, state
        s.technique = technique
        PROPS.append(s)


INP, PRG, HIS, CFG, FLT = 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'
EX = 'the test programs exercise a handful of '

Prop('H01', 'Handles name their own object for as long as they are live',
     '''Every handle given out for a new communicator, request or datatype is not null and differs from every other handle in use,
     however many are in use at once and in whatever order they were released, and every later call with it reaches that same object.
     Null is accepted where a handle is looked up or released and denotes no object.
     Releasing a handle makes exactly that one available again; asking for a handle when the pool is exhausted ends the program with a message on standard error.''',
     'histories inputs', 'all interleavings of creating and releasing objects, at every fill level of the pool',
     EX + 'handles; block boundaries, reuse orders and exhaustion of the pool are never reached',
     'handles.c', [('block pool and free list', 'handles.c: mpi_alloc_handle, mpi_free_handle'), ('lookup by number', 'handles.c: mpi_handle_to_ptr')],
     M('MPI_Comm_free', 'MPI_Type_free', 'MPI_Test', 'MPI_Request_free', 'mpi_comm_new', 'MPI_Isend', 'MPI_Irecv', 'mpi_handle_to_datatype', 'MPI_Type_dup', CTORS) + M(HANDLES) + X('handle_widths', 'fresh', 'pool'), state=[('pool', 'blocks of handle slots and the list of free slots', 'handles.c')])

Prop('H02', 'Finalizing releases the handle pool and the library can be started afresh',
     '''Ending the library releases every block of handles that was allocated, each exactly once, and none that is part of the program image.
     After it the library counts as not initialized, and the next object created gets a handle from a fresh pool in its initial state.
     Ending it when nothing was ever created does nothing and is not an error.''',
     'histories', 'every fill level of the handle pool when the library ends',
     'the tests end the library once, with few handles in use, and never inspect the pool',
     'handles.c mpi.c', [('release of blocks', 'handles.c: mpi_destroy_handles'), ('end', 'mpi.c: MPI_Finalize')],
     M(HANDLES, 'MPI_Init', 'MPI_Init_thread') + M('mpi_destroy_handles', 'MPI_Finalize', 'mpi_alloc_handle', 'MPI_Initialized') + X('pool'))

Prop('L01', 'The queues of pending messages keep their order and lose nothing',
     '''The queues of pending operations are proper doubly linked lists: adding an operation puts it at the end, and the number of entries and both
     ends stay right. Removing any one entry - first, last, only or in the middle - removes exactly that one, releases it once and leaves the order of the others unchanged.
     Searching a queue returns the oldest entry that satisfies the criterion, or none when none does.''',
     'histories', 'all lists, of any length, and all positions in them',
     EX + 'short queues, mostly emptied from the front',
     'list.c list.h listops.h listP.h', [('list operations', 'list.c: AP_list_append, AP_list_delete_item, AP_list_search_func')],
     M('MPI_Isend', 'MPI_Irecv', 'MPI_Iprobe') + M(LISTS, LISTX) + X('list_widths'), state=[('list', 'head, tail and count of a queue', 'listP.h')])

Prop('M01', 'A failed memory allocation is diagnosed, never used',
     '''When the system cannot provide memory for a queue entry, a datatype or a block of handles, the call that needed it ends the program with a message on standard error.
     It never goes on with the missing memory and never returns success.''',
     'fault_sequences', 'failure of any allocation, in any call that allocates',
     'no test makes an allocation fail',
     'handles.c list.c type.c', [('checked allocation', 'handles.c: mpi_malloc'), ('allocation of types', 'type.c: Type_struct, Type_dup')],
     M('mpi_alloc_handle', 'AP_list_new', 'AP_list_append', 'Type_struct', 'MPI_Type_dup') + X('oom') + M('mpi_malloc', 'mpi_free'), technique='abstract interpretation of the LLVM IR with failing allocations')

Prop('T01', 'Every predefined datatype describes exactly its language type',
     '''Each predefined datatype of C and Fortran that the header files name denotes one element (two for the pair types used with minloc and maxloc) that has the size
     and, inside pairs, the displacement of the language type it stands for, is committed, has lower bound 0 and an upper bound equal to its size as laid out by the compiler.
     Its type handle in C and in Fortran selects this description and no other.''',
     'inputs configurations', 'all predefined datatypes, with every supported size of the Fortran REAL and DOUBLE PRECISION',
     'the tests use a few of the predefined types and only the default sizes',
     'type_const.c type.h mpi.h type.c mpif.h', [('table of types', 'type_const.c: simpletypes'), ('element sizes', 'type.c: Simpletype_length')],
     X('predefined') + M('mpi_handle_to_datatype', 'Simpletype_length'), technique='table extraction from LLVM IR, compared with the standard\'s list and the compiler\'s own sizes')

Prop('T02', 'Fortran and C agree on every constant, kind and record layout',
     '''Every named constant that both the C and the Fortran header define has the same value in both; handles and statuses can therefore be passed between the languages unchanged.
     The status is an integer array of the declared size whose source, tag and count entries are where the C structure has them, and the address and offset kinds are as wide as the C address type.''',
     'inputs configurations', 'every constant in either header', EX + 'constants; most are never compared across the languages',
     'mpif.h mpi.h', [('constants', 'mpif.h, mpi.h')], X('fortconsts', 'public_widths'), technique='constant extraction from the compilers\' own views of both headers')

Prop('T03', 'Derived datatype constructors lay out blocks as the standard says',
     '''The contiguous, vector, hvector, indexed, hindexed, indexed-block and struct constructors create a new datatype with the blocks the caller described, in order: each block has its own
     length, old type and byte displacement, where displacements and strides given in elements are multiplied by the extent of the old type and those given in bytes are taken as they are.
     The old types are unchanged and the new type has a handle of its own.''',
     'inputs', 'all counts (including zero), block lengths, displacements (including negative ones and beyond 2 GB) and old types',
     EX + 'small, positive shapes', 'type.c',
     [('constructors', 'type.c: MPI_Type_vector, MPI_Type_indexed, ...'), ('general builder', 'type.c: Type_struct')],
     M(CTORS, 'Type_extent', 'mpi_handle_to_datatype', HANDLES, 'Type_struct') + X('type_widths'))

Prop('T04', 'The bounds of a derived datatype follow from its entries and markers',
     '''A derived datatype has as lower bound the smallest displacement of its entries and as upper bound the largest end of an entry, or 0 when it has none, unless a lower- or upper-bound marker,
     or a component with such a bound, sets it explicitly; then the explicit bounds decide.
     Its extent is the difference of the bounds, rounded up to a multiple of its largest basic element when no bound is explicit.''',
     'inputs', 'all types, of any number of entries and any displacements', EX + 'types with two or three entries',
     'type.c', [('bounds', 'type.c: calc_lb, calc_ub'), ('extent', 'type.c: Type_extent'), ('markers', 'type.c: Type_struct')],
     M(CTORS, 'MPI_Type_dup') + M('calc_lb', 'calc_ub', 'Type_extent', 'Type_struct', 'MPI_Type_lb', 'MPI_Type_ub', 'MPI_Type_extent', 'mpi_handle_to_datatype') + X('type_widths'))

Prop('T05', 'Datatype queries report size, extent, bounds and addresses exactly',
     '''The size of a datatype is the sum of the sizes of its entries; its extent, lower and upper bound are those it was constructed with, at full address width.
     The address of a location is that location, so that differences of addresses are byte distances.
     No query changes the datatype.''',
     'inputs', 'all datatypes, predefined and derived', EX + 'datatypes', 'type.c',
     [('queries', 'type.c: MPI_Type_size, MPI_Type_extent, MPI_Type_lb, MPI_Type_ub, MPI_Get_address')],
     M(TYPES) + F('mpi_type_size mpi_type_extent mpi_type_lb mpi_type_ub mpi_address mpi_get_address') + M('MPI_Type_size', 'Type_size', 'MPI_Type_extent', 'Type_extent', 'MPI_Type_lb', 'MPI_Type_ub', 'MPI_Get_address', 'MPI_Address', 'FGet_address', 'mpi_handle_to_datatype') + X('type_widths'))

Prop('T06', 'Committing, duplicating and freeing a datatype affect just that datatype',
     '''Committing marks the given datatype as usable in communication and changes nothing else.
     Duplicating gives a new handle for a datatype with the same entries, bounds and commit state that shares no storage with the original.
     Freeing releases the datatype and its handle exactly once and sets the caller's handle to null; no other datatype is affected.''',
     'inputs histories', 'all datatypes, with any number of entries', EX + 'datatypes, with few entries',
     'type.c', [('commit, dup, free', 'type.c: MPI_Type_commit, Type_dup, MPI_Type_free')],
     M('Type_struct', CTORS) + F('mpi_type_commit mpi_type_dup mpi_type_free') + M('MPI_Type_commit', 'MPI_Type_dup', 'MPI_Type_free', 'mpi_handle_to_datatype', HANDLES))

Prop('T07', 'Counts reported for a received message are those of the message',
     '''The count obtained from a status is the number of elements recorded by the call that completed the communication.
     The number of basic elements is that count times the number of entries of the datatype.''',
     'inputs', 'all statuses and datatypes', EX + 'messages', 'getcount.c',
     [('counts', 'getcount.c: MPI_Get_count, MPI_Get_elements')],
     M('MPI_Isend', 'MPI_Irecv', 'MPI_Recv', 'MPI_Sendrecv', 'MPI_Probe', ARRAYS) + F('mpi_get_count mpi_get_elements') + M('MPI_Get_count', 'MPI_Get_elements', 'mpi_handle_to_datatype', 'MPI_Test', 'MPI_Wait', 'MPI_Iprobe') + X('status_widths', 'req_widths'))

Prop('K01', 'Data moves element by element between the described locations only',
     '''Whenever data is moved from one described buffer to another, the k-th basic element of the source lands in the k-th basic element of the destination, at the byte offset given by the
     datatype's extent, instance number and displacement, for as many elements as the destination describes; no other byte is written.
     Uncommitted datatypes and sources with fewer elements than the destination end the program with a message instead of moving anything.''',
     'inputs', 'all counts, all pairs of datatypes with any number of entries, all buffers',
     EX + 'counts and datatype pairs', 'copy.c type.c type_const.c',
     [('copy engine', 'copy.c: Pcopy_data2, copy_data2'), ('element sizes', 'type.c: Simpletype_length')],
     M('MPI_Isend', 'MPI_Irecv', ROOTED, SYMM, REDUCE) + M(COPY) + X('predefined'))

Prop('K02', 'Packing and unpacking are inverse and stay inside the buffer',
     '''Packing appends the elements of the described data in order at the current position and advances the position by their total size; unpacking reads them back in the same order
     into the described locations. Neither touches bytes outside the announced size of the pack buffer: when it would be exceeded the program ends with a message.''',
     'inputs', 'all datatypes, counts, buffer sizes and start positions', EX + 'pack buffers that are large enough',
     'pack.c type.c', [('pack and unpack', 'pack.c: Pack, Unpack, MPI_Pack, MPI_Unpack')],
     F('mpi_pack mpi_unpack') + M('Pack', 'Unpack', 'MPI_Pack', 'MPI_Unpack', TYPES))

Prop('K03', 'The announced pack size is enough for what packing writes',
     '''The size reported for packing a number of elements of a datatype is exactly the number of bytes that packing them writes. Asking for it prints nothing and changes nothing.''',
     'inputs', 'all datatypes and counts', EX + 'datatypes', 'pack.c', [('size of packed data', 'pack.c: MPI_Pack_size')],
     F('mpi_pack_size') + M('MPI_Pack_size', 'Pack', 'MPI_Pack', 'mpi_handle_to_datatype', 'Type_extent'))

Prop('S01', 'A send and a receive are paired in order and the data arrives once',
     '''A posted send completes with the oldest pending receive on the same communicator whose tag accepts it, and a posted receive with the oldest pending send it accepts; both then are complete, are pending no longer, the data is
     moved once from the send buffer to the receive buffer, and the receive knows the message's source and tag.
     When nothing matches, the operation becomes pending at the end of its queue and completes no earlier than its partner appears.
     Operations with no process complete at once without moving data, and a rank other than this process ends the program with a message.''',
     'histories inputs', 'all sequences of posted operations, with any tags, wildcards, counts and datatypes, on any communicator',
     EX + 'orders of sends and receives', 'send.c recv.c list.c copy.c',
     [('matching of sends', 'send.c: MPI_Isend'), ('matching of receives', 'recv.c: MPI_Irecv'), ('queues', 'list.c')],
     M('MPI_Send', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Irsend', 'MPI_Recv', 'MPI_Sendrecv', 'MPI_Test', 'mpi_comm_new') + M('MPI_Isend', 'MPI_Irecv', LISTS, HANDLES, COPY) + X('req_widths'), state=[('queues', 'pending sends and receives of a communicator', 'mpiP.h: Comm')])

Prop('S02', 'Blocking communication is posting followed by completion',
     '''A blocking, synchronous or ready send behaves as posting the send and waiting for it, and a blocking receive as posting the receive and waiting for it with the caller's status; nothing stays behind when they return.
     A combined send and receive can match its own message and reports the status of the receive.
     An operation that cannot complete because its partner was never posted ends the program with a message instead of hanging or returning.''',
     'histories inputs', 'all sequences of calls and all argument values', EX + 'matching pairs; unmatched ones would end the test program',
     'send.c recv.c req.c', [('blocking calls', 'send.c: MPI_Send, MPI_Sendrecv; recv.c: MPI_Recv')],
     M('MPI_Test', HANDLES, LISTS, COPY) + M('MPI_Send', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Irsend', 'MPI_Recv', 'MPI_Sendrecv', 'MPI_Wait', 'MPI_Isend', 'MPI_Irecv'))

Prop('S03', 'Probing reports the message the next receive would get and removes nothing',
     '''A probe reports the oldest pending send that the given tag accepts, with its source, tag and count, and leaves it pending; without such a message the non-blocking probe answers no and the blocking one ends the program with a message.
     Probing no process succeeds at once with an empty status. The caller may ignore the status.''',
     'histories inputs', 'all queue contents, tags and wildcards', EX + 'probes', 'probe.c',
     [('probe', 'probe.c: MPI_Iprobe, MPI_Probe')], M('MPI_Irecv', 'AP_list_search_func') + M('MPI_Iprobe', 'MPI_Probe', HANDLES))

Prop('R01', 'Completing a request reports it once, releases it once and nulls it',
     '''Testing or waiting for a complete request reports its source, tag and count in the status unless that is ignored, releases the request exactly once and sets it to null; a pending request is left as it is by a test, and waiting for it ends the program with a message.
     A null request counts as complete with an empty status.''',
     'histories inputs', 'all request states and status arguments', EX + 'requests', 'req.c',
     [('completion', 'req.c: MPI_Test, MPI_Wait')], M('MPI_Isend', 'MPI_Irecv', 'MPI_Recv', 'MPI_Sendrecv', ARRAYS) + M('MPI_Test', 'MPI_Wait', HANDLES))

Prop('R02', 'Array completions agree with completing the requests one by one',
     '''Waiting for or testing all, any or some of an array of requests completes exactly the requests the standard says - all of them or none, the first that is complete, every one that is complete - with statuses, indices and counts in the right places,
     skipping null entries; an array without active requests yields the undefined index or count and empty statuses.
     Statuses may be ignored. Waiting when nothing can complete ends the program with a message.''',
     'histories inputs', 'arrays of any length with any mixture of null, pending and complete requests',
     EX + 'arrays in which everything is complete', 'req.c', [('array completions', 'req.c: MPI_Testany, MPI_Waitall, ...')],
     M(ARRAYS, 'MPI_Test', 'MPI_Wait', HANDLES))

Prop('R03', 'A freed request is released exactly once, after its operation completes',
     '''Freeing a request sets the caller's handle to null. A complete request is released at once; a pending one still takes part in matching and is released when it completes, so that its handle is never given to a new object while it is pending.''',
     'histories', 'all orders of posting, freeing and matching', 'no test frees a pending request', 'req.c send.c recv.c',
     [('deferred release', 'req.c: MPI_Request_free; send.c, recv.c: release on match')],
     M('MPI_Test', ARRAYS) + M('MPI_Request_free', 'MPI_Isend', 'MPI_Irecv', HANDLES))

Prop('G01', 'Every communicator has one process, rank 0',
     '''For every communicator the size is 1 and the rank of the caller is 0.''',
     'inputs', 'all communicators', EX + 'communicators', 'comm.c', [('size and rank', 'comm.c: MPI_Comm_size, MPI_Comm_rank')],
     M('MPI_Comm_size', 'MPI_Comm_rank'))

Prop('G02', 'New communicators are fresh, and null exactly when the standard says',
     '''Duplicating, splitting, creating, joining and merging communicators give a new communicator with a handle of its own and no pending messages, so messages on one communicator are never seen on another.
     The result is the null communicator exactly for an undefined split colour, for a creation from an empty or null group and when both communicators to be joined are null.''',
     'inputs histories', 'all arguments', EX + 'communicators', 'comm.c ic_merge.c',
     [('creation', 'comm.c: mpi_comm_new, MPI_Comm_split, MPI_Comm_create')], M(COMMNEW, 'AP_list_new', HANDLES))

Prop('G03', 'Freeing a communicator releases its queues and its handle once',
     '''Freeing a communicator releases its queue of pending sends, its queue of pending receives and its handle, each exactly once, and sets the caller's handle to null; no other communicator is affected.''',
     'histories', 'all communicators, with any pending operations', EX + 'communicators', 'comm.c list.c',
     [('release', 'comm.c: MPI_Comm_free')], M('mpi_comm_new', 'AP_list_size') + M('MPI_Comm_free', 'AP_list_free', HANDLES))

Prop('G04', 'Group operations follow set algebra on zero or one members',
     '''The group of a communicator has its one process, or is null for the null communicator; union, intersection and difference of groups give the group with one member exactly when set algebra does, and the empty group otherwise.
     Inclusion by ranks or ranges gives the empty group for an empty selection or an empty group, and the one-member group when rank 0 alone is selected; freeing sets the handle to null.
     Null groups and impossible ranks end the program with a message.''',
     'inputs', 'all groups, rank lists and ranges', EX + 'groups', 'group.c comm.c',
     [('algebra', 'group.c: MPI_Group_union, MPI_Group_incl, ...')], X('distinct') + M(GROUPS))

Prop('G05', 'Rank translation maps each rank to itself or to undefined',
     '''Translating ranks between groups gives, for each rank in the list, 0 when both groups have the process and the undefined rank when the target group lacks it, in the position of the rank it translates.
     Ranks that are not in the first group, and null groups, end the program with a message.''',
     'inputs', 'rank lists of any length and all groups', EX + 'single ranks', 'group.c', [('translation', 'group.c: MPI_Group_translate_ranks')],
     X('distinct') + M('MPI_Group_translate_ranks'))

Prop('G06', 'Handle conversion between C and Fortran is a bijection',
     '''Converting a communicator, group, request or operation handle from C to Fortran and back, or from Fortran to C and back, gives the handle one started with, and a handle denotes the same object in both languages.''',
     'inputs', 'all handle values', EX + 'handles', 'comm.c group.c req.c op.c collective.c', [('conversion', 'MPI_Comm_f2c, MPI_Comm_c2f, ...')],
     M(F2C))

Prop('G07', 'Cartesian topologies of one process',
     '''Creating a cartesian topology whose dimensions are all at most 1 gives a new communicator, and any larger one ends the program with a message; the dimensions reported or chosen are all 1, every coordinate of rank 0 is 0, for exactly the requested number of dimensions.
     Asking for another rank, or for dimensions for more than one process, ends the program with a message.
     A topology query fills in all its outputs, the periodicity included.''',
     'inputs', 'all numbers of dimensions and all dimension values', EX + 'dimensions', 'cart.c',
     [('topology', 'cart.c: MPI_Cart_create, MPI_Cart_get, MPI_Cart_coords, MPI_Dims_create')],
     M('MPI_Comm_dup') + M('MPI_Cart_create', 'MPI_Cart_get', 'MPI_Cart_coords', 'MPI_Dims_create', 'mpi_comm_new') + X('cartget'))

Prop('C01', 'Rooted collectives deliver the root\'s own data to the right place',
     '''Broadcast, gather, scatter, their vector forms and reduction to a root move the caller's send data into its receive buffer once, with the counts and datatypes of each side and, in the vector forms, at the first displacement in units of the datatype's extent.
     Nothing moves for a broadcast, for an in-place argument or when the caller is the root of another group. A root that does not exist ends the program with a message.''',
     'inputs', 'all counts, displacements, datatypes, buffers and roots', EX + 'counts, mostly with displacement 0', 'collective.c copy.c',
     [('rooted collectives', 'collective.c: MPI_Gatherv, MPI_Scatterv, ...')], M(ROOTED, COPY))

Prop('C02', 'All-to-all style collectives copy each process\'s own contribution',
     '''Allgather, alltoall and their vector forms move the caller's own contribution into its receive buffer once, with the counts and datatypes of each side and at the first displacement, in units of the extent or, for alltoallw, in bytes.
     Nothing moves for an in-place argument, and a barrier returns at once and does nothing.''',
     'inputs', 'all counts, displacements, datatypes and buffers', EX + 'counts, mostly with displacement 0', 'collective.c copy.c',
     [('symmetric collectives', 'collective.c: MPI_Allgatherv, MPI_Alltoallw, ...')], M(SYMM, COPY))

Prop('C03', 'A reduction over one process is a copy, whatever the operation',
     '''Reduce, allreduce, reduce-scatter and scan over one process give the caller's own operand: the receive buffer gets the announced number of elements of the send buffer, for every datatype and operation, predefined or created by the user.
     With the in-place argument the receive buffer is left as it is.''',
     'inputs', 'all counts, datatypes and operations', EX + 'operations', 'collective.c op.c copy.c',
     [('reductions', 'collective.c: MPI_Reduce, MPI_Allreduce, MPI_Scan, MPI_Reduce_scatter')], M(REDUCE, COPY))

Prop('F01', 'Fortran point-to-point and completion calls mirror the C calls',
     '''Each Fortran send, receive, probe, test, wait and request call performs the C call of the same name with the same arguments in the same order, returns its result in the error argument, accepts the Fortran ignore-status arguments and writes outputs, including 1-based request indices, into the caller's variables.''',
     'inputs programs', 'all arguments of all these calls', EX + 'the Fortran calls', 'send.c recv.c req.c probe.c',
     [('bindings', 'FC_FUNC functions')],
     F('mpi_isend mpi_send mpi_ssend mpi_rsend mpi_irsend mpi_sendrecv mpi_irecv mpi_recv mpi_test mpi_wait mpi_waitany mpi_testany mpi_testall mpi_waitall mpi_testsome mpi_waitsome mpi_request_free mpi_iprobe mpi_probe')
     + M('mpi_c_status', 'mpi_c_statuses'))

Prop('F02', 'Fortran collective calls mirror the C calls',
     '''Each Fortran collective and operation call performs the C call of the same name with the same arguments in the same order, passes the Fortran in-place argument on as the C one, and returns its result in the error argument.''',
     'inputs programs', 'all arguments of all these calls', EX + 'the Fortran collectives', 'collective.c op.c',
     [('bindings', 'FC_FUNC functions')],
     F('mpi_barrier mpi_bcast mpi_gather mpi_gatherv mpi_allgather mpi_allgatherv mpi_scatter mpi_scatterv mpi_reduce mpi_allreduce mpi_reduce_scatter mpi_scan mpi_alltoall mpi_alltoallv mpi_alltoallw mpi_op_create mpi_op_free')
     + M('mpi_c_in_place'))

Prop('F03', 'Fortran datatype and pack calls mirror the C calls',
     '''Each Fortran datatype, count, address and pack call performs the C call of the same name with the same arguments in the same order, with displacements and results as wide as the Fortran interface declares them, and returns its result in the error argument.''',
     'inputs programs', 'all arguments of all these calls', EX + 'the Fortran datatype calls', 'type.c pack.c getcount.c',
     [('bindings', 'FC_FUNC functions')],
     F('mpi_pack mpi_unpack mpi_pack_size mpi_type_extent mpi_type_struct mpi_type_contiguous mpi_type_hvector mpi_type_create_hvector mpi_type_vector mpi_type_hindexed mpi_type_indexed mpi_type_create_indexed_block mpi_type_dup mpi_type_size mpi_type_lb mpi_type_ub mpi_type_commit mpi_type_free mpi_address mpi_get_address mpi_get_count mpi_get_elements') + M('FGet_address'))

Prop('F04', 'Fortran communicator, group, topology and environment calls mirror the C calls',
     '''Each Fortran communicator, group, topology, info and environment call performs the C call of the same name with the same arguments in the same order and returns its result in the error argument; the clock function returns the C clock's value.''',
     'inputs programs', 'all arguments of all these calls', EX + 'the Fortran calls', 'comm.c group.c cart.c info.c error.c mpi.c time.c ic_merge.c',
     [('bindings', 'FC_FUNC functions')],
     F('mpi_comm_free mpi_comm_size mpi_comm_rank mpi_comm_dup mpi_comm_create mpi_comm_split mpi_comm_group mpi_intercomm_create mpi_intercomm_merge mpi_group_incl mpi_group_range_incl mpi_group_union mpi_group_intersection mpi_group_difference mpi_group_free mpi_group_translate_ranks mpi_cart_create mpi_cart_get mpi_cart_coords mpi_dims_create mpi_info_create mpi_info_set mpi_info_free mpi_abort mpi_error_string mpi_get_processor_name mpi_initialized mpi_finalize mpi_errhandler_set mpi_wtime mpi_get_version') + M('mpi_get_library_version_'))

Prop('F05', 'The Fortran ignore and in-place arguments are recognised, and nothing else is',
     '''The Fortran ignore-status, ignore-statuses and in-place variables are three distinct storage locations made known to the library when it starts; passing one of them has the effect of the corresponding C constant, and every other variable is used as the caller's own data.''',
     'inputs programs', 'all argument addresses', EX + 'the special arguments', 'mpi.c fort.F90 mpif.h',
     [('recognition', 'mpi.c: mpi_c_status, mpi_c_statuses, mpi_c_in_place'), ('registration', 'fort.F90; mpi.c: mpi_save_fort_pointers')],
     F('mpi_sendrecv mpi_recv mpi_test mpi_wait mpi_waitany mpi_testany mpi_testall mpi_waitall mpi_testsome mpi_waitsome mpi_iprobe mpi_probe mpi_gather mpi_gatherv mpi_allgather mpi_allgatherv mpi_scatter mpi_scatterv mpi_reduce mpi_allreduce mpi_reduce_scatter mpi_scan mpi_alltoall mpi_alltoallv mpi_alltoallw') + M(SENT, 'MPI_Init', 'MPI_Init_thread') + X('fortsave'))

Prop('F06', 'Starting from Fortran checks the interface and starts the library',
     '''Starting the library from Fortran verifies that the sizes of the status and of the basic numeric types and the values of the special constants that the Fortran program was compiled with are the ones this library was built for.
     Any mismatch ends the program with a message; without one the library is started and success is returned.''',
     'inputs configurations', 'all combinations of matching and differing values', 'the tests run with matching values only', 'mpi.c fort.F90',
     [('start-up check', 'mpi.c: mpi_init_fort')], X('initfort', 'fortsave') + M('MPI_Init'), technique='abstract interpretation of the start-up check over all argument values')

Prop('I01', 'Everything documented is declared, defined and callable from C and Fortran',
     '''Every call in the list of supported calls, and every call the C header declares, is defined by the library with the declared parameters; every supported call has a Fortran entry point, and no call of the library refers to an undefined function.''',
     'programs configurations', 'all documented calls', EX + 'the calls; an unused one may be missing without notice', 'mpi.h README mpi.c type.c',
     [('declarations', 'mpi.h')], X('declared', 'linkage'), technique='symbol and prototype analysis of header, documentation and IR')

Prop('I02', 'Initialization state is tracked and reported exactly',
     '''Starting the library, with or without a thread level, creates the world communicator with the handle the header gives it, learns the Fortran special arguments and marks the library as initialized; ending it undoes that; the query reports this state at any time.
     The thread level provided is the one required.''',
     'histories inputs', 'all orders of starting, querying and ending', EX + 'orders', 'mpi.c comm.c',
     [('start and end', 'mpi.c: MPI_Init, MPI_Init_thread, MPI_Finalize, MPI_Initialized')],
     F('mpi_initialized mpi_finalize') + M('MPI_Init', 'MPI_Init_thread', 'MPI_Finalize', 'MPI_Initialized', 'mpi_comm_new', 'mpi_alloc_handle', 'mpi_destroy_handles') + X('fresh'))

Prop('I03', 'Text results are terminated, bounded and have the reported length',
     '''The error string, processor name and library version are terminated texts within the size the header announces, and the length returned is the length of the text.
     This also holds for host names that are too long or cannot be determined. In Fortran the library version is padded with blanks to the announced size.''',
     'inputs fault_sequences', 'all host names, failing name lookups and error codes', 'the tests run on one host', 'mpi.c',
     [('texts', 'mpi.c: MPI_Error_string, MPI_Get_processor_name, MPI_Get_library_version')],
     F('mpi_error_string mpi_get_processor_name') + M('mpi_get_library_version_') + M('MPI_Error_string', 'MPI_Get_processor_name', 'MPI_Get_library_version'))

Prop('I04', 'The clock returns the time of day in seconds',
     '''The clock returns seconds, including the fraction to the microsecond; a failing system clock ends the program with a message.''',
     'inputs fault_sequences', 'all clock readings and clock failure', 'the tests only see that time goes on', 'time.c',
     [('clock', 'time.c: MPI_Wtime')], M('MPI_Wtime') + F('mpi_wtime'))

Prop('I05', 'Aborting ends the process with the given code',
     '''Aborting ends the process at once, with a message on standard error and the caller's error code as exit status; it never returns.''',
     'inputs', 'all codes', 'a test that aborts cannot go on', 'mpi.c', [('abort', 'mpi.c: MPI_Abort')], M('MPI_Abort') + F('mpi_abort'))

Prop('I06', 'Calls without an effect in one process succeed and disturb nothing',
     '''Setting an error handler, creating, filling and freeing info objects and creating and freeing operations succeed, set their output handles and have no other effect. The version reported is the one the interface promises.''',
     'inputs', 'all arguments', EX + 'these calls', 'info.c error.c op.c mpi.c',
     [('stubs', 'info.c, error.c, op.c')],
     F('mpi_errhandler_set mpi_op_create mpi_op_free mpi_info_create mpi_info_set mpi_info_free mpi_get_version') + M('MPI_Errhandler_set', 'MPI_Op_create', 'MPI_Op_free', 'MPI_Info_create', 'MPI_Info_set', 'MPI_Info_free', 'MPI_Get_Version'))

Prop('I07', 'Special values cannot be mistaken for each other or for real ones',
     '''The null handles, predefined datatypes, the three groups, wildcards, special ranks and the undefined value are pairwise different wherever they can be confused, and no special rank or wildcard is a valid rank or tag; the in-place and ignore arguments of C are not addresses of user data.''',
     'inputs', 'all pairs of special values', EX + 'special values', 'mpi.h', [('constants', 'mpi.h')], X('distinct'),
     technique='constant extraction from the headers')

Prop('X01', 'The library compiles in every supported configuration',
     '''All sources compile, calling declared functions only, in the default build, with each supported Fortran naming convention and real size, and with each of the documented debugging and checking options switched on.''',
     'configurations', 'each supported configuration', 'the tests are built in one configuration', 'mpiP.h mpi.c type.h',
     [('configuration switches', 'preprocessor conditionals')], X('compiles'), technique='the compiler\'s type checker, per source and configuration')

Prop('E01', 'Only invalid use ends the program, and always with a diagnostic',
     '''No valid sequence of calls ends the program from within the library. A call the library cannot serve in one process, such as one naming another rank or root, waiting for what cannot complete, mismatched sizes or an exhausted pool, ends it with a message on standard error and a failure status, and never returns as if it had succeeded. Nor does a valid call run out of stack: what a call puts there does not grow with its arguments.''',
     'inputs histories', 'all arguments and states of all calls', 'a test that ends the program cannot go on; few invalid uses are tested', 'mpi.c send.c recv.c req.c collective.c group.c cart.c copy.c pack.c handles.c',
     [('diagnosed aborts', 'abort, exit after a message'), ('temporaries', 'type.c arrays of the constructors')], [('aspects', 'kind,diag'), ('custom', 'stack'), ('custom', 'formats')])

Prop('E02', 'Successful calls print nothing',
     '''In the default configuration no call that succeeds writes anything to standard output or standard error; the one exception is the warning when a communicator with pending operations is freed.''',
     'inputs histories', 'all calls and arguments', 'the tests do not compare the output', 'mpi.c send.c recv.c type.c pack.c comm.c',
     [('debug output', 'under preprocessor conditionals only')], [('aspects', 'quiet')])

Prop('E03', 'No call reads or writes memory it was not given',
     '''No call, for any valid arguments, accesses memory outside the buffers, arrays and status variables the caller passed and the library's own live objects: no access out of bounds, to released memory or through null; nothing is released twice, and nothing is decided by a variable that was never set.''',
     'inputs histories', 'all calls and arguments', EX + 'arguments and do not detect stray accesses', 'type.c copy.c pack.c list.c handles.c req.c',
     [('bounds and lifetimes', 'loops over user arrays; handle and list releases')], [('aspects', 'safety,mem'), ('custom', 'flow')])


Prop('U01', 'What is created and then released leaves no memory or handle behind',
     '''Completing or freeing every request, and freeing every datatype and communicator, returns all memory and handles that these objects used, each exactly once, whatever happened to them in between.
     A communication whose message has been delivered leaves no queue entry behind.''',
     'histories', 'all histories of creating, using and releasing objects, of any length', EX + 'objects; a lost slot or queue entry goes unnoticed',
     'handles.c list.c type.c comm.c req.c send.c recv.c', [('release paths', 'MPI_Type_free, MPI_Comm_free, MPI_Test, MPI_Request_free'), ('queue entries', 'list.c')],
     M('MPI_Ssend', 'MPI_Rsend', 'MPI_Irsend', 'MPI_Comm_dup', 'MPI_Comm_create', 'MPI_Comm_split', 'MPI_Cart_create', CTORS) + M(HANDLES, LISTS, 'MPI_Type_free', 'MPI_Comm_free', 'MPI_Test', 'MPI_Wait', ARRAYS, 'MPI_Request_free', 'MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv', 'MPI_Sendrecv',
       'mpi_destroy_handles', 'mpi_malloc', 'mpi_free', 'MPI_Type_dup', 'mpi_comm_new'))


class NA:
    def __init__(s, id, title, statement, over, quant, why, files, mech, note):
        s.id, s.title, s.statement, s.over, s.quant, s.why = id, title, ' '.join(statement.split()), over.split(), quant, why
        s.files, s.mech, s.note, s.state = files.split(), mech, note, ()


NOT_APPLICABLE = [
    NA('N01', 'A program computes what it would compute with a full MPI on one process',
       '''A correct MPI program that uses only supported calls gives the same results when linked with this library as when run as one process of a full MPI implementation.''',
       'programs', 'all MPI programs', 'the tests are a handful of programs with built-in expectations', 'mpi.h', [('whole library', 'all sources')],
       'needs a second implementation to run against; no other MPI is installed, and running programs is not static analysis. The per-call properties cover what can be decided from the source.'),
    NA('N02', 'Calls from several threads are safe when such a thread level was granted',
       '''When the level of thread support granted allows it, simultaneous calls from several threads behave as if made one after the other.''',
       'schedules', 'all interleavings of calls from several threads', 'the tests have one thread', 'mpi.c handles.c', [('thread level', 'mpi.c: MPI_Init_thread')],
       'the library has no locks and its documentation promises nothing about threads: MPI_Init_thread grants any level asked for. A lock-set analysis would only restate that every call is unprotected; there is nothing whose breakage could be detected.'),
    NA('N03', 'The clock advances with real time',
       '''Successive readings of the clock by one program never decrease, and their difference is the elapsed time.''',
       'histories', 'all sequences of readings', 'the tests take few readings', 'time.c', [('clock', 'time.c: MPI_Wtime')],
       'depends on the behaviour of the system clock at run time (it may be set back); the conversion of the reading itself is decided under I04.'),
]


ASSUME = [
    'the analyser (lib/*.py) and clang 18 as the front end are trusted',
    'callers pass valid, non-overlapping buffers of the sizes the MPI standard requires; one thread at a time calls the library',
    'handles passed in are null or live; datatypes outlive the communication that uses them',
    'internal functions used through a contract satisfy it: the contract is an obligation of its own (handles H01, lists L01, types T05, copying K01, building T04)',
]


def level(p):
    return 'other' if p.technique else 'translation_validation'


NOTE = ('Decides, for all inputs and states, that each function involved behaves as its reference model (lib/ analyser, spec/ models); '
        'sound for what is discharged under the listed assumptions, silent where undecided. Trusts the analyser, the models and clang.')
