"""The properties, in one place.  `python3 vf/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, reason=None):
    P.append(dict(line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                            why_tests_cant=why,
                            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                         observe_at=observe, hook_needed=None)),
                  technique=technique, note=note, claimed=claimed, reason=reason))


DIST_T = 'runtime monitoring: generated programs on the real runtime over MPI, with delayed and reordered delivery, judged by online and end-of-run monitors; ASan+UBSan'
COMP_T = 'runtime monitoring: randomized workloads on the real component, every result compared with an independent model as it happens; ASan+UBSan'
DIST_N = 'Held on the executions observed (the counts are in the evidence file). Trusts the monitors, the checkpoint stand-in, OpenMPI and the sanitizers.'
COMP_N = 'Held on the generated operation sequences (the counts are in the evidence file). Trusts the reference model and the sanitizers.'
S = 'src/vt/'

prop('C01', 'Active messages arrive exactly once and intact',
     'Every message a rank sends or broadcasts is handled exactly once on each rank it is addressed to and on no other rank, with the contents it was sent with and the right sender, whatever its size, whether it is copied, serialized, split into chunks or carries a separate payload. This holds for any timing and order in which the network delivers. By the time the enclosing collective epoch is declared finished all of its messages have been handled.',
     ['schedules', 'inputs', 'configurations'], 'all message kinds, sizes, send-size limits, rank counts and delivery orders',
     'The tests send a few fixed sizes between two ranks at whatever timing the machine happens to produce; losses need concurrent senders, chunk boundaries or delayed data.',
     [S + f for f in ('messaging/active.cc', 'messaging/active.h', 'messaging/active.impl.h', 'serialization/messaging/serialized_messenger.impl.h', 'group/global/group_default.cc', 'collective/tree/tree.cc')],
     [('pending receives, chunking, put payloads', S + 'messaging/active.cc'), ('broadcast down a spanning tree', S + 'group/global/group_default.cc')],
     ['user handlers'], DIST_T, DIST_N)

prop('C02', 'An epoch ends exactly when all of its work is done',
     'An epoch is declared finished only after every message sent in it, directly or transitively, has been handled and every nested epoch has finished, and it is always declared finished eventually. Every action registered for the end of an epoch runs exactly once, after that point. This holds for collective and rooted epochs and for either detection algorithm.',
     ['schedules', 'programs', 'configurations'], 'all message graphs, nestings, epoch kinds, detector choices, rank counts and delivery orders',
     'Premature termination needs particular overlaps of in-flight messages and detection waves; a test sees a handful of timings and no long or nested message chains.',
     [S + f for f in ('termination/termination.cc', 'termination/term_state.cc', 'termination/term_action.cc', 'termination/dijkstra-scholten/ds.cc', 'termination/dijkstra-scholten/comm.cc', 'epoch/epoch_window.cc')],
     [('four-counter wave detector', S + 'termination/termination.cc'), ('Dijkstra-Scholten detector', S + 'termination/dijkstra-scholten/ds.cc')],
     ['handlers, epoch actions, isEpochTerminated'], DIST_T, DIST_N)

prop('C03', 'Collectives deliver one correct result to everyone who should get it',
     'A reduction delivers exactly one result per stamp or sequence, to the root or to all ranks as asked for, and the result combines the contribution of every rank exactly once, for any operator, payload, root and any order in which ranks contribute to different reductions. No rank leaves a barrier (blocking or continuation) before every rank has entered it and every rank does leave. A scatter delivers to each rank its own part. MPI operations enqueued in a collective scope run exactly once on every rank, in an order that is the same on all ranks.',
     ['schedules', 'inputs', 'programs'], 'all sets of concurrent collectives, entry orders, operators, payload sizes, roots, rank counts and delivery orders',
     'Tests run one collective at a time; mixing up contributions, tags or phases needs several outstanding at once, entered in different orders by different ranks.',
     [S + f for f in ('collective/reduce/reduce.cc', 'collective/reduce/reduce.impl.h', 'collective/reduce/reduce_scope.h', 'collective/reduce/operators', 'collective/barrier/barrier.cc', 'collective/scatter/scatter.cc', 'collective/scatter/scatter.impl.h', 'collective/collective_scope.cc', 'collective/collective_alg.cc', 'collective/tree/tree.cc')],
     [('reduction state per stamp', S + 'collective/reduce/reduce.impl.h'), ('barrier state', S + 'collective/barrier/barrier.cc'), ('agreement on MPI operation order', S + 'collective/collective_alg.cc')],
     ['reduction targets, barrier exits, scatter handlers, MPI operation actions'], DIST_T, DIST_N)

prop('C04', 'Collection elements exist once, keep their state and get every message',
     'A collection consists of exactly the elements asked for, each on exactly one rank (the one its map names until it moves), made by the constructor given; dynamic insertion and destruction change exactly the elements named, and destroying the collection destroys every element. A message sent to an element from any rank is handled exactly once, by that element, whatever its size and while the element migrates, before the enclosing epoch ends. An element that migrates arrives where it was sent with its state intact, its migration hooks and listeners each run once, and it is found there afterwards.',
     ['schedules', 'histories', 'configurations'], 'all index dimensions, maps, ways to construct, histories of insertion, destruction and migration, message kinds, rank counts and delivery orders',
     'Messages meet migrations, stale location records and re-insertions only under particular timing; tests migrate elements at quiet moments.',
     [S + f for f in ('vrt/collection/manager.impl.h', 'vrt/collection/manager.cc', 'vrt/collection/holders', 'vrt/collection/migrate', 'vrt/collection/param', 'vrt/collection/destroy', 'vrt/collection/listener', 'topos/location/location.impl.h', 'topos/location/record', 'topos/location/cache')],
     [('forwarding and location records', S + 'topos/location/location.impl.h'), ('element holders', S + 'vrt/collection/holders/holder.impl.h'), ('insertion and destruction', S + 'vrt/collection/manager.impl.h')],
     ['element handlers, local indices, migration hooks, element listeners'], DIST_T, DIST_N)

prop('C05', 'Collection broadcasts and reductions cover each element exactly once',
     'A broadcast to a collection, from any rank, runs its handler once on every element, with the message intact, wherever the elements are and however they were moved before. A reduction over a collection (to a rank, an element, every element or a callback; with the default or an explicit stamp; any number outstanding) produces one result, in the place asked for, made of exactly one contribution of every element combined with the given operator, also when ranks hold no element at all.',
     ['schedules', 'histories', 'configurations'], 'all placements of elements over ranks, sequences of reductions and broadcasts, senders, rank counts and delivery orders',
     'Which ranks hold elements, and in which order contributions and stamps meet on the spanning tree, varies with every migration and schedule.',
     [S + f for f in ('vrt/collection/manager.impl.h', 'vrt/collection/broadcast', 'vrt/collection/reducable', 'vrt/collection/holders', 'collective/reduce', 'group', 'phase/phase_manager.h')],
     [('broadcast to local elements', S + 'vrt/collection/manager.impl.h'), ('collection group over the ranks with elements', S + 'vrt/collection/holders/elm_holder.impl.h'), ('contributions per rank', S + 'collective/reduce/reduce.impl.h')],
     ['element handlers', 'reduction targets and callbacks'], DIST_T, DIST_N)

prop('C06', 'Phases and load balancing keep every element, and what is measured is what happened',
     'At the end of a phase the hooks run in their order, once, on the ranks they are for. Whatever balancer runs, every element exists afterwards exactly once with its state intact, is where the balancer put it, and is reachable; a balancer that only describes a placement (rotation, a recorded placement, none) produces that placement. The load of an element recorded for a phase is at least the time it was busy and at most the length of the phase, is recorded once on its rank, and the communication recorded between two elements is the messages and bytes that passed.',
     ['schedules', 'histories', 'configurations'], 'all balancers, placements, loads, communication graphs, rank counts (odd, even, ranks without elements) and sequences of phases',
     'Balancers are exercised by tests for a fixed number of ranks and even loads; ranks without elements, idle elements, and changes of balancer between phases are not.',
     [S + f for f in ('phase/phase_manager.cc', 'vrt/collection/balance/lb_invoke/lb_manager.cc', 'vrt/collection/balance/baselb', 'vrt/collection/balance/node_lb_data.cc', 'vrt/collection/balance/hierarchicallb', 'vrt/collection/balance/temperedlb', 'vrt/collection/balance/greedylb', 'vrt/collection/balance/randomlb', 'vrt/collection/balance/rotatelb', 'vrt/collection/balance/offlinelb', 'vrt/collection/balance/lb_data_restart_reader.cc', 'elm/elm_lb_data.cc')],
     [('migration after a balancer', S + 'vrt/collection/balance/lb_invoke/lb_manager.cc'), ('measurements', S + 'elm/elm_lb_data.cc'), ('phase hooks', S + 'phase/phase_manager.cc')],
     ['element state and placement', 'phase hooks', 'node LB data'], DIST_T, DIST_N)

prop('C07', 'What a checkpoint of a collection holds is what is restored',
     'A checkpoint of a collection saves every element with its contents, once, wherever it happens to be, and leaves the collection as it was. Restoring in place brings back every element with the contents and at the place it had when it was saved, whatever was done to the collection since, also from a checkpoint of another collection of that shape; restoring afresh makes a separate collection with the label, the elements and the contents saved, which can be used like any other: messages from every rank reach every element, elements migrate, phases pass. Restored elements belong to the collection they are in and have identities of their own. Checkpoints do not disturb each other, may be overwritten, and a checkpoint that is not there is refused.',
     ['histories', 'inputs', 'schedules'], 'all shapes, sparse and dense collections, contents, placements, directory layouts, and sequences of work, migrations, phases, checkpoints and restarts',
     'Whether a restored collection is right depends on all that happened before and on what is done with it afterwards; the tests restore once, at the place the elements came from, and look at the contents only.',
     [S + f for f in ('vrt/collection/manager.impl.h', 'vrt/collection/collection_builder.impl.h', 'vrt/collection/collection_directory.h', 'vrt/collection/types/indexable.impl.h', 'vrt/collection/types/migratable.impl.h', 'vrt/collection/balance/col_lb_data.impl.h')],
     [('saving and restoring', S + 'vrt/collection/manager.impl.h'), ('elements put where they were', S + 'vrt/collection/collection_builder.impl.h')],
     ['contents, places, identities and proxies of all elements; messages sent to them'], DIST_T, DIST_N)

prop('C08', 'Remote reads, writes and accumulates reach the cells they name',
     'A handle made by an object group, a set of handles made by its ranks, or the handles of the elements of a collection each stand for memory of the size asked for. A put, get, accumulate or fetch-and-operate through a handle, whoever issues it, touches exactly the cells named by target, offset and length; a read returns what was last written before the synchronisation that precedes it; concurrent accumulates and fetches lose no contribution and every fetched value is one the cell held. Blocking operations have taken effect when they return and non-blocking ones when their request has been waited for, and an action attached to a request runs once. The size and the element count of a handle are those given. The contents belonging to an element follow it when it migrates, and migration or destruction of one set of handles leaves other sets alone. Ranks without an element are fine.',
     ['schedules', 'inputs', 'histories'], 'all sizes, layouts, targets, offsets, lengths, lock modes, interleavings of operations of several ranks, migrations and delivery orders',
     'An offset that is wrong by another element of the same rank, a lost accumulate, or contents left behind by a migration show only for certain layouts and histories; no test of the handles is in the stable suite.',
     [S + f for f in ('rdmahandle/handle.node.impl.h', 'rdmahandle/handle.index.impl.h', 'rdmahandle/holder.impl.h', 'rdmahandle/sub_handle.impl.h', 'rdmahandle/manager.impl.h', 'rdmahandle/manager.collection.impl.h', 'rdmahandle/cache.h', 'rdmahandle/request_holder.cc', 'rdmahandle/lock_mpi.h', 'rdmahandle/type_mpi.h', 'rdmahandle/handle_set.h')],
     [('where an element is', S + 'rdmahandle/sub_handle.impl.h'), ('locking and offsets', S + 'rdmahandle/holder.impl.h'), ('requests and actions', S + 'rdmahandle/request_holder.cc')],
     ['values read and fetched, local memory between synchronisations, sizes and counts of handles'], DIST_T, DIST_N)

prop('C09', 'A group delivers to its members and to nobody else',
     'A group made from a list, a range or by each rank saying whether it belongs becomes ready exactly once, before the epoch it was made in ends, on every rank that asked. A message broadcast to a group from any rank is handled exactly once on each member and on no other rank, before its epoch ends, whatever its size; a reduction over a group combines one contribution of each member and its result reaches the root asked for; a group communicator has exactly the members as ranks, in rank order. All ranks agree about membership and the root is a member. Deleting a group leaves the others as they were.',
     ['schedules', 'inputs', 'configurations'], 'all member sets including the empty and the full one, ways to describe them, creators, rank counts and delivery orders',
     'Groups form trees over arbitrary subsets while messages to them are under way; tests use one or two fixed subsets on few ranks, where the interesting trees do not arise.',
     [S + f for f in ('group/group_manager.cc', 'group/group_manager_active_attorney.cc', 'group/group_info.cc', 'group/group_info.impl.h', 'group/collective/group_info_collective.cc', 'group/collective/group_collective_finished.cc', 'group/rooted/group_info_rooted.cc', 'group/global/group_default.cc', 'group/id/group_id.h', 'group/region', 'collective/tree/tree.cc')],
     [('tree of a collective group', S + 'group/collective/group_info_collective.cc'), ('rooted group set up and broadcast', S + 'group/rooted/group_info_rooted.cc'), ('handing messages to groups', S + 'group/group_manager.cc')],
     ['user handlers, ready actions, group queries, reduction targets'], DIST_T, DIST_N)

prop('C10', 'An object group is one object per rank, and every operation reaches the right ones',
     'Making an object group gives every rank one object under one proxy that no other group has. A send, broadcast, multicast, invoke, update or reduction through the proxy runs the named member function exactly once on the object of each rank addressed and on no other, with the arguments given and the sender known, before its epoch ends, also when it arrives before the object is there. Replacing an object destroys the old one and leads to the new one; destroying the group destroys its objects exactly once, except those the user owns.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of making, using, replacing and destroying groups, kinds of object ownership, member sets, message kinds and sizes, rank counts and delivery orders',
     'Messages reach a rank before it made its object, and several groups of one type live at once, only under timing that tests do not produce.',
     [S + f for f in ('objgroup/manager.cc', 'objgroup/manager.impl.h', 'objgroup/proxy/proxy_objgroup.impl.h', 'objgroup/proxy/proxy_objgroup_elm.impl.h', 'objgroup/proxy/proxy_bits.cc', 'objgroup/holder', 'objgroup/type_registry', 'group/group_manager.cc')],
     [('proxy to object', S + 'objgroup/manager.cc'), ('multicast over a region', S + 'objgroup/proxy/proxy_objgroup.impl.h')],
     ['member functions, object constructors and destructors, proxy queries'], DIST_T, DIST_N)

prop('C11', 'A callback runs what it was made for, where it was made for, once per trigger',
     'Each trigger of a callback, on whatever rank it is triggered, runs its target exactly once at each place it names (a rank, all ranks, an object of a group, an element, a function with a context) with the arguments given, before the epoch of the trigger ends. A callback can be copied, sent in messages and triggered any number of times, unless it was made for one use. Callbacks are equal exactly if one was copied from the other.',
     ['schedules', 'inputs', 'histories'], 'all kinds of callbacks, targets, ranks that trigger, numbers of triggers, messages they travel in and delivery orders',
     'Tests trigger each kind once or twice from one rank; the bookkeeping of listeners and pipes matters when callbacks travel, are triggered repeatedly and from several ranks.',
     [S + f for f in ('pipe/pipe_manager.cc', 'pipe/pipe_manager.impl.h', 'pipe/pipe_manager_base.cc', 'pipe/pipe_manager_base.impl.h', 'pipe/pipe_manager_tl.impl.h', 'pipe/pipe_manager_typed.impl.h', 'pipe/callback', 'pipe/id', 'pipe/state', 'pipe/signal', 'pipe/interface')],
     [('listeners of a pipe', S + 'pipe/signal/signal_holder.impl.h'), ('which kind a callback is', S + 'pipe/callback/cb_union/cb_raw_base.h'), ('lifetime of a pipe', S + 'pipe/state/pipe_state.cc')],
     ['callback targets, callback comparison'], DIST_T, DIST_N)

prop('C12', 'Steps of a chain run in order, each after the work of the one before',
     'The steps added to the chain of an element run exactly once each, in the order added; a step starts only after the step before it has finished together with all work it caused anywhere. A merged step waits for both chains and both wait for it; a collective step waits for every element. This holds across migrations of the elements, with chains of different elements otherwise independent, and every step has run when the epoch around the chains ends. The chain set has exactly one chain per element, at its rank or at its home as asked for.',
     ['schedules', 'histories', 'programs'], 'all sequences of plain, merged and collective steps over several collections, further work of the steps, placements, migrations and delivery orders',
     'Order between steps is a property of all schedules; a step that starts too early usually goes unnoticed without delayed deliveries.',
     [S + f for f in ('messaging/dependent_send_chain.h', 'messaging/collection_chain_set.h', 'messaging/collection_chain_set.impl.h', 'messaging/pending_send.h', 'messaging/pending_send.cc', 'vrt/collection/listener')],
     [('linking the epochs of steps', S + 'messaging/dependent_send_chain.h'), ('chains that follow elements', S + 'messaging/collection_chain_set.impl.h')],
     ['steps and the work they cause, iteration over a chain set'], DIST_T, DIST_N)

prop('C13', 'What the runtime is given is released, once, and not before its time',
     'A message, the state captured by a lambda or an action, the value of a reduction, an element and an object live until the last work that needs them is done, are destroyed exactly once, and are gone afterwards: when all epochs have ended no message, captured state or value is left on any rank, the elements left are those of living collections, the objects left are those of living groups, whatever was sent, forwarded, held back, migrated or destroyed meanwhile; and at the end of the program nothing the runtime allocated has become unreachable without being released.',
     ['histories', 'schedules', 'inputs'], 'all sequences of sends, broadcasts, forwards, reductions, callbacks, epochs, migrations and destructions, message kinds and sizes, rank counts and delivery orders',
     'A reference that is dropped too early or never shows as a crash or as growth only long afterwards; tests look at the count of one message handled at once.',
     [S + f for f in ('messaging/message/smart_ptr.h', 'messaging/message/refs.h', 'messaging/message/shared_message.h', 'messaging/active.cc', 'messaging/active.impl.h', 'messaging/request_holder.h', 'messaging/async_op_mpi.h', 'vrt/collection/manager.impl.h', 'vrt/collection/migrate/manager_migrate_attorney.impl.h', 'vrt/collection/holders/elm_holder.impl.h', 'objgroup/manager.cc', 'serialization/messaging/serialized_messenger.impl.h', 'collective/reduce/reduce.impl.h')],
     [('counting references', S + 'messaging/message/smart_ptr.h'), ('sends under way', S + 'messaging/active.cc'), ('elements', S + 'vrt/collection/holders/elm_holder.impl.h')],
     ['constructions and destructions of tracked members, unreachable heap blocks at exit'], DIST_T, DIST_N)

prop('C14', 'What a trace says is what happened',
     'With tracing on, each rank leaves a trace that can be read: well-formed lines in the order of their times between a header and a footer that agree with them. Processing begins and ends are properly nested and all closed, an interrupted handler is shown as suspended and resumed, idle time lies outside of processing. Every note, number and user event the program records while tracing is on appears exactly once, unchanged, with its name, in order, within the handler that recorded it and nowhere else; nothing recorded while tracing is off appears. Every handler run is there with the entry point it has in the index file and is linked to the one creation, on the rank that made it and not later, of the message that caused it. This holds whatever is flushed when, and whichever phases or ranks tracing is restricted to.',
     ['histories', 'schedules', 'inputs'], 'all programs, interleavings of handlers, idle times and scheduler entries, all flush sizes, notes, trace modes, specifications of phases, and rank counts',
     'The existing tests look at whether files exist; wrong nesting or links need handlers interrupted by others, tracing switched in between, flushes in the middle.',
     [S + f for f in ('trace/trace.cc', 'trace/trace_lite.cc', 'trace/trace_log.h', 'trace/trace_user.cc', 'trace/trace_user_event.cc', 'trace/trace_containers.cc', 'trace/trace_registry.cc', 'context/runnable_context/trace.cc', 'utils/file_spec/spec.cc')],
     [('begin and end of processing', S + 'trace/trace.cc'), ('writing the log', S + 'trace/trace_lite.cc'), ('handlers', S + 'context/runnable_context/trace.cc')],
     ['the files written (log, sts), against what the program did'], DIST_T, DIST_N)

prop('C15', 'Memory from the pool is private, large enough and reusable',
     'A block handed out by the memory pool is at least as large as asked for (including any extra space asked for), overlaps no other live block, and keeps its contents until it is freed. It can be freed once, in any order, and freeing or allocating other blocks never disturbs it; growing a block in place succeeds only when the bytes are really there.',
     ['histories', 'inputs'], 'all sequences of allocations, growths and frees of all sizes',
     'The existing tests allocate nothing from the pool; an overlap needs a particular sequence of sizes around bucket limits and page growth.',
     [S + f for f in ('pool/pool.cc', 'pool/pool.h', 'pool/header/pool_header.cc', 'pool/static_sized/memory_pool_equal.h', 'pool/static_sized/memory_pool_equal.impl.h')],
     [('buckets by size, header in front of each block', S + 'pool/pool.cc')], ['alloc, dealloc, tryGrowAllocation'], COMP_T + '; LSan', COMP_N)

prop('C16', 'Epoch identifiers are never shared by live epochs',
     'The identifiers given to epochs that are alive at the same time are distinct, carry the kind and owner they were created with, and an identifier is reused only after its epoch has terminated. An epoch is reported terminated exactly when it has been closed. The interval sets that record this contain exactly the values inserted and not erased, for any order of operations and copies.',
     ['histories', 'inputs'], 'all sequences of epoch creation and termination in any order, all set operation sequences',
     'Wrong answers need wrap-around of the window, out-of-order terminations or a particular order of insertions next to existing intervals; tests of this are few and fixed.',
     [S + f for f in ('epoch/epoch_window.cc', 'epoch/epoch_manip.cc', 'epoch/epoch_impl_type.h', 'termination/interval/integral_set.h', 'termination/interval/interval.h', 'termination/interval/strong_integral_set.h')],
     [('window of epochs', S + 'epoch/epoch_window.cc'), ('integral set', S + 'termination/interval/integral_set.h')],
     ['makeNewEpoch, isEpochTerminated, getNextEpoch; set membership'], COMP_T, COMP_N)

prop('C17', 'Identifiers and envelopes return every field packed into them',
     'Every field stored in a packed identifier (handlers, proxies, element ids, groups, pipes, object groups, user events, tags) or in a message envelope reads back as stored, and setting one field changes no other. Two identifiers made from different field values are different.',
     ['inputs', 'histories'], 'all field values and all orders in which fields are set',
     'A test packs a few small values; truncation and overlap show only for values near the width of a field or for particular combinations.',
     [S + f for f in ('utils/bits/bits_packer.impl.h', 'utils/bits/bits_common.h', 'handler/handler.h', 'messaging/envelope', 'elm/elm_id_bits.h', 'elm/elm_id.cc', 'objgroup/proxy/proxy_bits.cc', 'group/id/group_id.cc', 'pipe/id/pipe_id.cc', 'epoch/epoch_manip.h', 'trace/trace_user_event.h')],
     [('bit packing', S + 'utils/bits/bits_packer.impl.h')], ['getters of each identifier'], COMP_T, COMP_N)

prop('C18', 'Index order, mappings and bounded caches are consistent',
     'Linearizing an index within its range and back is the identity and numbers the elements without gaps, iterating a range visits each index once, and indices compare, hash and print consistently. Every default mapping sends each index to an existing rank, and block and round-robin mappings balance the elements within one. A bounded least-recently-used cache never exceeds its size, returns the last value stored for a key and evicts the least recently used.',
     ['inputs', 'histories'], 'all index dimensions, sizes and rank counts, all cache operation sequences',
     'Errors appear for dimensions, remainders or negative indices that no existing test uses.',
     [S + f for f in ('topos/index/dense/dense_array.h', 'topos/index/dense/dense_array.impl.h', 'topos/index/traits', 'topos/mapping/dense/dense.impl.h', 'topos/mapping/dense/unbounded_default.h', 'topos/location/cache/cache.impl.h')],
     [('dense index arithmetic', S + 'topos/mapping/dense/dense.impl.h'), ('LRU cache', S + 'topos/location/cache/cache.impl.h')],
     ['mapping results, cache lookups'], COMP_T, COMP_N)

prop('C19', 'Group regions denote one set of nodes',
     'Membership, size, iteration, copy and containment of a group region agree with the set of nodes it was made from, for strided ranges, sorted and unsorted lists. Splitting a region in any number of parts yields parts that are disjoint, nearly equal in size and together make up the whole region.',
     ['inputs', 'histories'], 'all ranges, strides, lists, and numbers of parts, applied repeatedly',
     'No existing test builds a group region; errors need strides that do not divide the range or unsorted lists.',
     [S + f for f in ('group/region/group_range.cc', 'group/region/group_list.cc', 'group/region/group_shallow_list.cc', 'group/region/group_region.cc')],
     [('region classes', S + 'group/region/')], ['contains, getSize, splitN, splitInto, splice'], COMP_T, COMP_N)

prop('C20', 'Compressed and JSON output reads back exactly',
     'Bytes written through the compressor, in any pieces and sizes, decompress to the same bytes; a JSON document written by the streaming appender parses, and holds exactly what was added; a file written by this code, compressed or not, reads back equal. A truncated or corrupted stream is reported and never yields memory errors or made-up data.',
     ['inputs', 'fault_sequences'], 'all documents, chunk sizes, quality settings, cuts and corruptions of the stream',
     'Errors depend on where chunk borders fall relative to internal buffers, which fixed small test documents never vary.',
     [S + f for f in ('utils/compress/compressor.cc', 'utils/compress/compressor.impl.h', 'utils/compress/decompressor.impl.h', 'utils/json/json_reader.cc', 'utils/json/json_appender.h', 'utils/json/decompression_input_container.cc', 'utils/json/output_adaptor.h')],
     [('streaming compression', S + 'utils/compress/compressor.cc'), ('chunked input', S + 'utils/json/decompression_input_container.cc')],
     ['bytes in and out'], COMP_T, COMP_N)

prop('C23', 'Containers and online statistics agree with their exact models',
     'The circular buffer, the work queue and the priority queue return exactly the elements put in and not yet taken, in their specified order, for any interleaving of operations and wrap-around. The approximate histogram keeps exact counts, minimum and maximum, is exact while it has room for every value, and its estimates stay within the observed range and are monotone, also after merging. Load statistics (count, extremes, sum, mean, variance, skewness, kurtosis, imbalance) merged in any grouping and order are those of all the values together. Linear regression returns the least-squares line, and time values behave as numbers of seconds.',
     ['inputs', 'histories'], 'all operation sequences and all sequences of values and merges',
     'Wrap-around, ties, single-bin and merged histograms are sampled by a few fixed sequences only.',
     [S + f for f in ('utils/container/circular_buffer.h', 'utils/adt/histogram_approx.h', 'utils/stats/linear_regression.h', 'vrt/collection/balance/stats_msg.h', 'scheduler/work_unit.h', 'scheduler/queue.h', 'scheduler/priority_queue.h', 'timing/timing_type.h')],
     [('ring indices', S + 'utils/container/circular_buffer.h'), ('centroid merging', S + 'utils/adt/histogram_approx.h')],
     ['public operations'], COMP_T + '; LSan', COMP_N)

prop('C24', 'Names, memory amounts and times are printed faithfully',
     'The readable name derived from a handler or type keeps its namespace, function and parameter parts, for any nesting of templates and parameter lists. An amount of memory or a time converted to a unit and text denotes the original amount to the printed precision, in the largest unit in which it is at least one, and unit names and text round-trip.',
     ['inputs'], 'all well-formed names, all amounts, units and precisions',
     'A few fixed names and times are tested; mistakes need nested templates, odd widths or values at unit borders.',
     [S + f for f in ('utils/demangle/demangle.cc', 'utils/memory/memory_units.cc', 'utils/memory/memory_units.h', 'timing/timing.cc')],
     [('name parsing', S + 'utils/demangle/demangle.cc'), ('unit selection', S + 'utils/memory/memory_units.cc')],
     ['returned text'], COMP_T, COMP_N)

prop('C25', 'The scheduler runs each action once, in order, and resumes it intact',
     'Every action given to the scheduler runs exactly once: in the order queued, or, with priorities on, highest priority first; a priority reads back as set per level and more significant levels dominate. Time triggers fire in order when their period has passed and neither earlier, nor twice, nor after removal; begin and end of idleness alternate. A handler sees its own epoch and sender, also after it was suspended in a user-level thread and resumed, with its local state unchanged, and its epoch does not end meanwhile.',
     ['schedules', 'histories', 'configurations'], 'all sequences of enqueues, nested scheduler loops, triggers, suspensions and resumptions',
     'Tests use a few fixed tasks and two threads in a fixed order; errors need particular interleavings of queued work, removals in actions and resumptions in other orders.',
     [S + f for f in ('scheduler/scheduler.cc', 'scheduler/scheduler.impl.h', 'scheduler/priority_manip.cc', 'scheduler/thread_action.cc', 'scheduler/thread_manager.cc', 'scheduler/suspended_units.cc', 'timetrigger/time_trigger_manager.cc', 'timetrigger/trigger.h', 'runnable/runnable.cc', 'context/runnable_context')],
     [('work queue and events', S + 'scheduler/scheduler.cc'), ('trigger queue', S + 'timetrigger/time_trigger_manager.cc'), ('context switching', S + 'scheduler/thread_action.cc')],
     ['actions, triggers, handlers'], DIST_T, DIST_N)

prop('C26', 'Components start in dependency order; trees and epoch graphs are well formed',
     'Exactly the components asked for and those they depend on, directly or transitively, are constructed, each once and after everything it needs at startup is initialized; all are started after all are initialized, polled once per progress call if pollable, and torn down in the opposite order. The spanning tree over the ranks has one root, agrees between parent and child on every rank, and counts descendants right. Merging epoch graphs keeps the edges of both, and cycles are reported.',
     ['inputs', 'configurations', 'programs'], 'all dependency graphs, registration orders and subsets of components, all rank counts, all epoch graphs',
     'Tests construct one or two components by hand; ordering errors need particular graphs and registration orders.',
     [S + f for f in ('runtime/component/component_pack.cc', 'runtime/component/component_pack.impl.h', 'runtime/component/component_registry.h', 'collective/tree/tree.cc', 'termination/graph/epoch_graph.cc', 'epoch/epoch_manip.cc', 'utils/mpi_limits/mpi_max_tag.cc')],
     [('topological construction', S + 'runtime/component/component_pack.cc'), ('binary tree', S + 'collective/tree/tree.cc'), ('graph merge', S + 'termination/graph/epoch_graph.cc')],
     ['component callbacks, tree queries, graph output'], COMP_T, COMP_N)

prop('C21', 'What is recorded for load balancing is complete, survives files, and models and configuration follow it',
     'For every history of phases and subphases, an element reports exactly the load and communication recorded for each, and data of other phases is untouched when one is released. Load-balancing data written to a file and read back is the same: objects with home, index and migratability, loads and subphase loads, every kind of communication, user data, attributes, skipped and identical phases. A configuration file of balancers selects for every phase the exact entry, else the first periodic one that applies, with its parameters; a specification file enables exactly the phases it covers. Every load model returns what its definition says about the recorded data, and lists exactly the objects.',
     ['inputs', 'histories'], 'all recording histories, documents, configuration files, phases, subphases and model compositions',
     'Tests use in-order subphases, fixed documents and one or two objects; errors appear for out-of-order subphases, empty phases, odd spacing or particular windows.',
     [S + f for f in ('elm/elm_lb_data.cc', 'vrt/collection/balance/lb_data_holder.cc', 'vrt/collection/balance/read_lb.cc', 'utils/file_spec/spec.cc', 'vrt/collection/balance/lb_common.h', 'vrt/collection/balance/model/load_model.h', 'vrt/collection/balance/model/proposed_reassignment.cc', 'utils/stats/linear_regression.h')],
     [('recording', S + 'elm/elm_lb_data.cc'), ('reading back', S + 'vrt/collection/balance/lb_data_holder.cc'), ('configuration', S + 'vrt/collection/balance/read_lb.cc')],
     ['return values of the recording, reading and model interfaces'], COMP_T, COMP_N)

prop('C22', 'Every argument reaches its addressee, the right source wins, and a written configuration reads back the same',
     'Arguments are split between vt and the application exactly as the modes on the command line say, in order, and nothing is lost or invented; what vt does not know is rejected with a message. The value in effect of every option is that of the command line, else of the INI file, else of the YAML file, else what the application or the default says. A configuration written as YAML or INI and read back gives the same values. File names built from the configuration follow it for every name.',
     ['inputs', 'configurations'], 'all command lines, all combinations of sources for all 132 options, all configurations written',
     'Tests parse a handful of fixed command lines and files; one wrong label, missing entry or inverted flag among the hundred is invisible to them.',
     [S + f for f in ('configs/arguments/args.cc', 'configs/arguments/args.h', 'configs/arguments/app_config.h', 'configs/arguments/argv_container.h')],
     [('parsing', S + 'configs/arguments/args.cc'), ('values', S + 'configs/arguments/app_config.h'), ('kept arguments', S + 'configs/arguments/argv_container.h')],
     ['configuration and argv after parsing'], COMP_T, COMP_N)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['line']['id']):
            f.write(json.dumps(p['line']) + '\n')
    m = dict(version=1, setup_cmd='python3 vf/setup.py', hooks=dict(guard='VF_NO_HOOKS_NEEDED', enable='no hooks: the checks observe through public interfaces, interposed MPI calls and sanitizers', source_commits=[]),
             checks=[], not_applicable=[])
    for p in sorted(P, key=lambda p: p['line']['id']):
        id = p['line']['id']
        if p['claimed']:
            m['checks'].append(dict(property=id, quick_cmd='./check ' + id, thorough_cmd='VERIF_TIER=thorough ./check ' + id,
                                    evidence_file='evidence/%s.json' % id, technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            m['not_applicable'].append(dict(property=id, reason=p['reason']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
