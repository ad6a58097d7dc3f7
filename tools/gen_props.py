# writes /verif/properties.jsonl (kept in git; rerun only when a property changes)
import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Live object handles are non-null, distinct and stable",
 "Every handle the library gives out for a request, communicator or datatype is non-null and different from every other handle that is still live, however many are live at once. A live handle keeps designating the same object, with its contents untouched, until that handle itself is released. Releasing a handle affects no other handle, and releasing the null handle does nothing.",
 ["histories"],"every history of handle creations and releases, of any length and with any number live at once, including growth past each storage block",
 "The tests hold at most a few dozen handles; the table grows in blocks of 256 and reuses slots, so aliasing can depend on an arbitrarily long history.",
 ["handles.c"],[("mpi_alloc_handle","handles.c"),("mpi_free_handle","handles.c"),("mpi_handle_to_ptr","handles.c"),("init_block / init_handles","handles.c")],
 [("handle table","blocks of items, free list threaded through free items","handles.c: blocks, nblocks, nextfree")],["mpi_alloc_handle","mpi_handle_to_ptr"])
p("C02","Message queues behave as exact sequences",
 "The ordered queues that hold pending sends and receives behave as sequences: appending puts an element last, deleting removes exactly the named element, and every other element keeps its identity and relative order. A search returns the first element, from the front, that satisfies the predicate, and reports none exactly when no element satisfies it. The reported size is always the number of elements, and no element or bookkeeping node is lost, duplicated or accessed after it was removed.",
 ["histories"],"every sequence of append, prepend, insert, delete and search operations on queues of any length",
 "Tests use queues of a handful of elements and delete mostly at the head; link corruption shows only for particular positions and lengths.",
 ["list.c","listP.h"],[("AP_list_append","list.c"),("AP_list_delete_item","list.c"),("AP_list_search_func","list.c")],
 [("List","head, tail and element count","listP.h"),("Listitem","doubly linked node","listP.h")],["AP_list_*"])
p("C03","Messages match in order: earliest compatible partner, non-overtaking",
 "A send is paired with the earliest posted, still unmatched receive on the same communicator whose tag is the send's tag or the any-tag wildcard, and a receive is paired with the earliest still unmatched send on the same communicator whose tag it accepts. When there is no such partner the operation becomes pending behind every operation already pending on its side. Matching removes exactly that one partner, marks both operations complete, and leaves every other pending operation and its order unchanged.",
 ["histories","inputs"],"every history of sends and receives on any number of communicators, all tags, the any-tag and any-source wildcards, and queues of any length",
 "Tests exercise a few fixed orders with few outstanding messages; ordering must hold for every interleaving of posts and any queue length.",
 ["send.c","recv.c","list.c"],[("MPI_Isend / mpi_match_recv","send.c"),("MPI_Irecv / mpi_match_send","recv.c"),("AP_list_search_func","list.c")],
 [("Comm.sendlist / Comm.recvlist","pending sends and receives in posting order","mpiP.h")],["MPI_Isend","MPI_Irecv","MPI_Send","MPI_Recv","MPI_Sendrecv"])
p("C04","Communicators are isolated and operations to no process move nothing",
 "A message sent on one communicator is only ever received, probed or matched through that same communicator, whatever tags are used. A send to, or receive from, the null process completes at once, transfers no data, and touches no queue; the receive's status reports the null process, any tag and a count of zero. Sends and receives naming any process other than rank 0 (or the any-source wildcard for receives) are refused by terminating the program.",
 ["histories","inputs"],"every set of communicators obtained by duplication, splitting or creation, every tag, and every source or destination value",
 "Tests use one or two communicators and a few rank values.",
 ["send.c","recv.c","probe.c","comm.c"],[("MPI_Isend","send.c"),("MPI_Irecv","recv.c"),("mpi_comm_new","comm.c")],
 [("Comm.sendlist / Comm.recvlist","one pair of queues per communicator","mpiP.h")],["MPI_Isend","MPI_Irecv","MPI_Iprobe"])
p("C05","Data transfer writes exactly the described bytes in type-map order",
 "When data described by one buffer, count and datatype is transferred to another, the n-th basic element of the destination's type map (repeated at its extent) receives the bytes of the n-th basic element of the source's type map, for every n transferred. No byte outside the destination elements is changed and the source is not changed. The number of elements is what the two descriptions allow: a source that is shorter than the destination demands is refused (collective copies) or leaves the remaining destination elements untouched (messages).",
 ["inputs"],"every pair of committed datatypes (arbitrary type maps, negative, overlapping-free and very large displacements), counts and buffer addresses, including absolute addresses",
 "Tests compare a few small layouts; offsets, extents and element sizes range over all type maps and all of the address range.",
 ["copy.c","type.c","send.c","recv.c"],[("Pcopy_data2","copy.c"),("copy_data2","copy.c"),("Type_extent","type.c")],
 [("Typestruct.pairs","flattened type map","type.h")],["copy_data2","MPI_Isend","MPI_Irecv"])
p("C06","Completion calls release a request exactly when it is complete",
 "Testing a request reports completion exactly when its operation has been matched; then the status receives the message's source, tag and received count, the request is released once, and the caller's variable becomes the null request. An incomplete request is left entirely unchanged, and waiting on it terminates the program instead of returning. Testing or waiting on a null request succeeds immediately with an empty status, and no status is written when the caller asked to ignore it.",
 ["histories","inputs"],"every request state reachable by any history of posts and matches, with and without a status",
 "Tests wait for a few ordinary requests; the property covers every request state and every order of completion.",
 ["req.c","send.c","recv.c"],[("MPI_Test","req.c"),("MPI_Wait","req.c"),("MPI_Request_free","req.c")],
 [("Req.complete","operation has been matched","mpiP.h")],["MPI_Test","MPI_Wait"])
p("C07","Multi-request completion calls honour their all/any/some contracts",
 "Test-all and wait-all complete every request of the array or, when some request is incomplete, test-all changes no request and wait-all terminates the program. Test-any and wait-any complete exactly one, the first complete active request, and report its position, or report 'undefined' when no request is active. Test-some and wait-some complete every complete active request and report their number, positions in increasing order and statuses in the same compact order, or 'undefined' when none is active; statuses may be ignored in all of them.",
 ["inputs","histories"],"every array length, every mix of null, complete and incomplete requests, with and without statuses",
 "Tests use arrays where every request is already complete; the property ranges over all mixes and lengths.",
 ["req.c"],[("MPI_Testall / MPI_Waitall","req.c"),("MPI_Testany / MPI_Waitany","req.c"),("MPI_Testsome / MPI_Waitsome","req.c")],
 [("array_of_requests","caller's request array","req.c")],["MPI_Waitall","MPI_Testany","MPI_Testsome"])
p("C08","Probing reports exactly the message the next receive would take",
 "A probe for a source and tag on a communicator finds a message exactly when a receive with the same arguments would be matched at once, and reports source 0, the tag and the element count of the very message that receive would take. Probing changes no pending message, request or queue. A blocking probe with no such message, or a probe for a source other than rank 0 or the any-source wildcard, terminates the program.",
 ["histories","inputs"],"every history of pending sends on any communicators, every tag and wildcard",
 "Tests probe queues holding one or two messages.",
 ["probe.c","recv.c"],[("MPI_Iprobe","probe.c"),("MPI_Probe","probe.c")],
 [("Comm.sendlist","pending sends","mpiP.h")],["MPI_Iprobe","MPI_Probe"])
p("C09","Datatype constructors build exactly the standard's type map",
 "Contiguous, vector, hvector, indexed, hindexed, indexed-block and struct datatypes have as type map the concatenation, in order, of the type map of each component, block by block and element by element, each element displaced by the block's displacement plus its index in the block times the component's extent. Strides and displacements count extents of the old type in vector/indexed forms and bytes in the h-forms and struct. The old types and the caller's argument arrays are not changed, and a new type is not committed until the commit call.",
 ["inputs"],"every count, block length, stride, displacement (negative ones included) and nesting of datatypes",
 "Tests build about ten small types; nested maps of any shape and size must flatten correctly.",
 ["type.c"],[("Type_struct","type.c"),("Type_contiguous / Type_hvector / Type_vector","type.c"),("Type_hindexed / Type_indexed / Type_create_indexed_block","type.c")],
 [("Typestruct","flattened type map, bounds, committed flag","type.h")],["MPI_Type_*"])
p("C10","Datatype size, bounds and extent follow from the type map",
 "The size of a datatype is the sum of the sizes of its basic elements. Its lower and upper bounds are the least displacement and greatest element end of the type map, or, when lower- or upper-bound markers occur in it, the least lower and greatest upper marker position (inherited through nesting, and negative positions included). Its extent is upper minus lower bound, rounded up to a multiple of the largest basic element only when there are no markers.",
 ["inputs"],"every datatype that can be constructed, with bound markers at any position, negative and very large displacements, and empty types",
 "Tests print a few extents; markers with negative positions, nested markers and large displacements are never sampled.",
 ["type.c"],[("Type_extent / calc_padding","type.c"),("calc_lb / calc_ub","type.c"),("Type_size / Type_lb / Type_ub","type.c"),("Type_struct bounds","type.c")],
 [("lb, ub, o_lb, o_ub","bounds and marker flags","type.h")],["MPI_Type_extent","MPI_Type_size","MPI_Type_lb","MPI_Type_ub"])
p("C11","Every predefined datatype is usable and has its native size",
 "Every predefined datatype constant of the C and Fortran interfaces resolves to a committed datatype whose type map is the corresponding native type (or pair of types at the native structure's offsets), with that type's size, lower bound zero and the native type's extent. Querying, constructing from, packing or transferring any of them never terminates the program or reads an entry that does not exist. The bound-marker constants resolve to markers.",
 ["inputs"],"every predefined datatype constant in mpi.h and mpif.h",
 "Tests use a dozen of about fifty constants.",
 ["type_const.c","type.c","mpi.h","mpif.h"],[("simpletypes","type_const.c"),("Simpletype_length","type.c"),("mpi_handle_to_datatype","type.c")],
 [("simpletypes","table indexed by -1-handle","type_const.c")],["MPI_Type_size","MPI_Type_extent"])
p("C12","Pack and unpack are inverse, bounded and position-exact",
 "Packing appends, at the current position of the output buffer, the bytes of each basic element of the described data in type-map order, advances the position by exactly the data's size, and changes nothing else. Unpacking from a position reads the same bytes back into the described layout, advances the position equally and changes nothing else, so unpacking what was packed with the same type signature restores every element. Neither accesses the packed buffer outside its stated size: when the data does not fit, the program is terminated before any access beyond the end.",
 ["inputs"],"every datatype, count, position, buffer size and buffer contents, and every sequence of packs followed by unpacks",
 "Tests pack a few fixed records.",
 ["pack.c","type.c"],[("Pack / MPI_Pack","pack.c"),("Unpack / MPI_Unpack","pack.c")],
 [("position","offset in the packed buffer","pack.c")],["MPI_Pack","MPI_Unpack"])
p("C13","The pack-size query is exact",
 "The size reported for packing a count of a datatype is that count times the datatype's size, which is exactly how far packing the same data advances the position, so a buffer of the reported size always suffices. The query reads only the datatype, changes nothing but its result, and writes nothing to the program's output.",
 ["inputs"],"every datatype and non-negative count whose size is representable",
 "Tests ignore or print the value for one type.",
 ["pack.c"],[("MPI_Pack_size / Pack_size","pack.c")],(),["MPI_Pack_size"])
p("C14","Collectives on one process deliver exactly the caller's own contribution",
 "On the single process every collective leaves in the receive buffer exactly the process's own contribution: gather, scatter, all-to-all, reduce, all-reduce, reduce-scatter and scan copy the send data to the receive buffer in type-map order, and the variable-count forms use displacement element zero (in extents, or bytes for the w-form) and count element zero on the proper side. Broadcast and barrier change no data. Nothing outside the described receive elements changes, and pending point-to-point messages are unaffected.",
 ["inputs"],"every datatype, count, displacement, operation and buffer, for every collective",
 "Tests call each collective once with small contiguous integers and displacement zero.",
 ["collective.c","copy.c"],[("MPI_Gatherv / MPI_Scatterv / MPI_Allgatherv / MPI_Alltoallv / MPI_Alltoallw","collective.c"),("MPI_Reduce / MPI_Allreduce / MPI_Reduce_scatter / MPI_Scan","collective.c")],
 (),["MPI_Gather","MPI_Alltoallv","MPI_Reduce"])
p("C15","In-place collectives leave the buffer alone and bad roots are refused",
 "When the in-place marker is passed to a collective on the side where it is allowed, the collective succeeds, leaves the buffer's contents exactly as they were, and the marker is never read or written as if it were data. A rooted collective moves data only for root 0, and terminates the program before moving any when it is asked to move data for a root that is neither rank 0 nor the inter-communicator root marker. The same holds through the Fortran interface with the Fortran in-place constant.",
 ["inputs"],"every collective that accepts in-place, every root value, C and Fortran callers",
 "Tests use in-place for two collectives and never a bad root.",
 ["collective.c","mpi.c"],[("MPI_IN_PLACE tests","collective.c"),("mpi_c_in_place","mpi.c")],(),["MPI_Reduce","MPI_Gather","mpi_reduce"])
p("C16","Group operations obey set algebra over the two possible groups",
 "Every non-null group is either empty or contains exactly rank 0; a communicator's group, union, intersection, difference, inclusion and range inclusion return the group that set algebra prescribes for their arguments. Rank translation maps rank 0 to rank 0 when the target group contains it and to 'undefined' otherwise, writing exactly the requested number of results. Null groups, and nonempty rank or range lists other than exactly rank 0 taken from the one-process group, are refused by terminating the program; anything taken from the empty group is the empty group.",
 ["inputs"],"every combination of groups (including the null and empty groups) and every rank list or range list",
 "Tests cover a few combinations.",
 ["group.c"],[("MPI_Group_*","group.c")],(),["MPI_Group_incl","MPI_Group_range_incl","MPI_Group_translate_ranks"])
p("C17","Communicator constructors and queries describe one process",
 "Every communicator has size 1 and rank 0, its group is the one-process group, and duplicates, splits and creations yield a fresh communicator with empty message queues, or the null communicator exactly when the caller is not a member (undefined colour, null or empty group). Inter-communicator creation and merging likewise yield a fresh communicator, or the null communicator when given only null communicators. Freeing a communicator releases it and sets the caller's variable to the null communicator without affecting others.",
 ["inputs","histories"],"every argument combination and every history of communicator creation and freeing",
 "Tests create a few communicators.",
 ["comm.c","ic_merge.c","mpi.c"],[("MPI_Comm_dup / split / create / free","comm.c"),("mpi_comm_new","comm.c"),("MPI_Intercomm_create / merge","comm.c, ic_merge.c")],
 [("Comm","queues and number","mpiP.h")],["MPI_Comm_dup","MPI_Comm_split"])
p("C18","Cartesian topology queries describe the 1x...x1 grid",
 "Creating a Cartesian topology yields a fresh communicator with empty message queues when no dimension exceeds 1, and terminates the program when any does. Its queries report dimension 1 and coordinate 0 for exactly the requested number of dimensions and write nothing else; coordinates of any rank but 0 are refused by terminating the program. Choosing dimensions sets every requested dimension to 1, and refuses more than one node.",
 ["inputs"],"every number of dimensions and every dimension, coordinate and rank value",
 "Tests call these with one or two dimensions.",
 ["cart.c"],[("MPI_Cart_create / get / coords","cart.c"),("MPI_Dims_create","cart.c")],(),["MPI_Cart_create","MPI_Dims_create"])
p("C19","Erroneous communication is refused, valid communication is not",
 "Transferring with an uncommitted datatype on either side, collectively receiving more basic elements than are contributed, a ready send without a posted receive, or aborting explicitly terminates the program and never returns as if it had succeeded. Conversely no call with valid arguments terminates the program. Nothing has been written to the destination when a transfer is refused.",
 ["inputs","histories"],"every datatype, count and request state, valid or not",
 "Tests only make valid calls, and one call of each kind.",
 ["copy.c","send.c","mpi.c"],[("Pcopy_data2 checks","copy.c"),("MPI_Irsend","send.c"),("MPI_Abort","mpi.c")],(),["copy_data2","MPI_Irsend"])
p("C20","Environment queries, state flags and strings are exact and bounded",
 "The initialized query is true exactly between a successful initialization and the finalization, and finalization resets the handle table so that a later initialization again yields the world communicator. Error, processor-name and library-version strings are terminated, never longer than the documented maximum, and reported with their exact length (blank-padded, not terminated, in Fortran for the version string). Threaded initialization grants the requested level, the reported version is constant, and creating operations, info objects and error handlers succeeds without touching anything but the result.",
 ["inputs","histories"],"every sequence of initialization, queries and finalization, every error code and string length",
 "Tests check a few values once.",
 ["mpi.c","error.c","time.c","op.c","info.c"],[("MPI_Init / MPI_Initialized / MPI_Finalize","mpi.c"),("MPI_Get_processor_name / MPI_Error_string / MPI_Get_library_version","mpi.c, error.c")],
 [("initialized","library state flag","mpi.c")],["MPI_Initialized","MPI_Get_library_version"])
p("C21","Every Fortran entry point performs exactly the C operation",
 "Calling any Fortran routine performs exactly the corresponding C operation once, with the same arguments in the corresponding positions, and stores that operation's return code in the error argument. The Fortran constants for ignored status(es) and in-place buffers are translated to their C counterparts wherever they are allowed, any other address is passed through unchanged, and array positions are reported counting from one. Nothing else in the caller's memory is read or written.",
 ["inputs"],"every Fortran entry point and every argument value",
 "The Fortran tests call about half of the entry points, each with one argument combination.",
 ["send.c","recv.c","req.c","probe.c","collective.c","comm.c","group.c","cart.c","type.c","pack.c","getcount.c","mpi.c","op.c","time.c","info.c","fort.F90"],
 [("FC_FUNC wrappers","all .c files"),("mpi_c_status / mpi_c_statuses / mpi_c_in_place","mpi.c"),("mpi_get_fort_pointers","fort.F90")],
 [("sentinel addresses","addresses of Fortran constants","mpi.c")],["mpi_*_"])
p("C22","C and Fortran agree on constants, status layout and handle values",
 "Every constant that exists in both the C and the Fortran interface has the same value, and the Fortran status array positions for source, tag and error are the positions of the C status fields, with the same total size. Converting any handle between C and Fortran, in either direction, preserves the object it names. Handles stored through one language are usable through the other.",
 ["inputs","configurations"],"every constant of the two interfaces and every handle value",
 "No test compares the two headers; Fortran tests sample a few constants.",
 ["mpi.h","mpif.h","comm.c","group.c","req.c","op.c"],[("mpi.h / mpif.h constants","mpi.h, mpif.h"),("MPI_*_f2c / c2f","comm.c, group.c, req.c, type.c")],(),["MPI_Comm_c2f"])
p("C23","No storage misuse: no stale access, overrun, double free or leak",
 "No call with valid arguments reads or writes freed, unallocated or out-of-bounds storage, or frees storage twice, whatever calls preceded it. Completed messages leave no queue entries or queue nodes behind, and freeing a communicator, datatype or request returns its storage exactly once. A request that is freed while its operation is pending never lets a later message write through it or a later handle reuse its storage while it is still queued.",
 ["histories"],"every history of valid calls of any length",
 "Tests run short histories without a memory checker.",
 ["handles.c","list.c","send.c","recv.c","req.c","type.c","comm.c"],[("AP_list_delete_item","list.c"),("mpi_free_handle","handles.c"),("MPI_Comm_free / MPI_Type_free / MPI_Request_free","comm.c, type.c, req.c")],
 [("pending queues","nodes point at live requests","mpiP.h")],["MPI_Finalize"])
p("C24","Received-count queries report what was actually received",
 "After a receive completes, by whichever call, the count query on its status gives the number of datatype elements actually received (never the receiver's larger capacity), and the elements query gives that number times the elements per datatype. Statuses of null-process receives and of null requests give zero. The queries change nothing but their result.",
 ["inputs","histories"],"every sent and received count and type, both arrival orders, every completion call",
 "Tests only query after equal-size blocking receives.",
 ["getcount.c","recv.c","req.c"],[("MPI_Get_count / MPI_Get_elements","getcount.c"),("MPI_Test / MPI_Recv","req.c, recv.c")],
 [("MPI_Status.get_count","received count","mpi.h")],["MPI_Get_count"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
