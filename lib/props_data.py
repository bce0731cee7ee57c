prop("C01", "Every chunk holds header, user header and payload apart, aligned, in bounds",
 "For every combination of payload size, payload alignment, user-header size and user-header alignment that is accepted, the chunk header, the user header and the payload lie inside the chunk, do not overlap each other or the back-reference stored before the payload, and the user header and payload meet their requested alignments. From the payload address alone the same chunk header is always found again, and combinations that cannot be satisfied (non power of two, overflow) are rejected with an error instead of producing a chunk that is too small.",
 "inputs", "all 64-bit payload sizes, all 32-bit alignments and user header sizes, all chunk addresses aligned for a header",
 "Tests use a table of a few dozen sizes and alignments; overflow and off-by-one in the layout arithmetic show only for particular combinations.",
 ["iceoryx_posh/source/mepoo/chunk_settings.cpp", "iceoryx_posh/source/mepoo/chunk_header.cpp"],
 [("required chunk size computation", "iceoryx_posh/source/mepoo/chunk_settings.cpp"), ("payload placement and back offset", "iceoryx_posh/source/mepoo/chunk_header.cpp")])
prop("C02", "Free-list hands out each index to exactly one owner, none is lost",
 "Under any interleaving of concurrent takes and returns, the lock-free index list never gives the same index to two owners at a time, only gives out indices below its capacity, fails a take only when every index was taken, and afterwards still holds exactly the indices not taken. Returning an index that is out of range or not taken is refused and changes nothing.",
 "schedules inputs histories", "all interleavings of the shared memory accesses of 2 to 3 threads and all sequences of operations within the bounds",
 "The stress tests sample a handful of schedules; ABA-type interleavings need a preemption at one exact instruction.",
 ["iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp", CB + "mpmc_loffli.hpp"], [("ABA-counted compare-and-swap of the list head", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp pop/push")])
prop("C03", "Memory pools never hand out a live, foreign or too small chunk",
 "A chunk request is served from the smallest configured pool whose chunks are large enough, each chunk given out is inside that pool's memory, at least as large as requested, overlaps no other chunk in use, and its header describes the request. When that pool is exhausted the request fails with an error and changes nothing, releasing makes the chunk available again, and the reported used/free counts always equal the chunks outstanding; this holds with several threads allocating and releasing at the same time.",
 "inputs histories schedules configurations", "all request sizes, all sequences of requests and releases, all interleavings of two threads, within the bounds",
 "Tests fix pool configurations and sizes and run single threaded.",
 [MP + "memory_manager.cpp", MP + "mem_pool.cpp", MP + "mepoo_config.cpp"], [("pool selection", MP + "memory_manager.cpp getChunk"), ("index to address mapping", MP + "mem_pool.cpp")])
prop("C04", "A chunk returns to its pool exactly when its last owner lets go",
 "For any sequence or interleaving of copying, moving, assigning, releasing and adopting owners of a chunk, the chunk stays allocated and its content intact while at least one owner exists, and it is returned to its pool exactly once when the last owner is gone. The hand-over form stored in shared memory keeps exactly one ownership share until it is turned back into an owner.",
 "histories schedules", "all operation sequences and all interleavings of 2 to 3 threads within the bounds",
 "Tests check individual operations with one owner history each; double release needs particular alias patterns or interleavings.",
 [MP + "shared_chunk.cpp", MP + "shm_safe_unmanaged_chunk.cpp", MP + "chunk_management.cpp"], [("reference counter", MP + "shared_chunk.cpp"), ("unmanaged form", MP + "shm_safe_unmanaged_chunk.cpp")])
prop("C05", "After an application dies, every chunk it held can be reclaimed",
 "The list of chunks a user process holds accepts chunks up to its capacity, gives back exactly the chunk that was asked for and refuses unknown ones. If the process is killed between any two memory accesses of an insert or a remove, a cleanup by the daemon releases every chunk that was recorded, releases none twice and leaves no chunk of a completed insert behind.",
 "crash_points histories inputs", "every crash point between shared memory accesses and every operation history within the bounds",
 "A test cannot stop a process at every individual store.",
 [IM + "popo/used_chunk_list.hpp", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"], [("crash-tolerant list updates", IM + "popo/used_chunk_list.inl")])
prop("C11", "Single-producer single-consumer queue is a lossless FIFO",
 "Every value pushed into the non-overflowing single-producer single-consumer queue is popped exactly once, unchanged and in push order; a push fails only when the queue is full and a pop fails only when it is empty. This holds for every interleaving of one producer and one consumer, and the handing over of each value is ordered by the memory model so the consumer never reads a half-written value.",
 "schedules histories inputs", "all interleavings of one producer and one consumer and all operation sequences within the bounds",
 "Stress tests sample schedules on one strongly ordered machine; a weakened memory order is invisible there.",
 [CB + "spsc_fifo.hpp", CB + "spsc_fifo.inl"], [("write/read position protocol", CB + "spsc_fifo.inl")])
prop("C12", "Overflowing single-producer queue loses only the oldest, and tells which",
 "The overflowing single-producer single-consumer queue never blocks: when it is full a push evicts exactly the oldest value and hands it to the producer. Under every interleaving each pushed value ends up exactly once either at the consumer or as evicted, both in push order, with at least as many of the newest values available as the capacity promises.",
 "schedules histories inputs", "all interleavings of one producer and one consumer and all operation sequences within the bounds",
 "The interesting window (consumer and producer taking the same oldest element) is a few instructions wide.",
 [CB + "spsc_sofi.hpp", CB + "spsc_sofi.inl"], [("read position compare-and-swap", CB + "spsc_sofi.inl")])
prop("C06", "Delivery reaches each connected queue once; late joiners get the history",
 "Delivering a chunk puts it exactly once into every queue that is connected at that time and into no other, newest value kept according to the queue's full policy, and never blocks unless a blocking queue and a waiting publisher were both requested. A queue that joins later receives exactly the newest min(requested, kept) chunks of the history, oldest first; removing, closing and cleaning up queues releases what they referenced, so that the chunks in use always equal those still queued, in history or owned.",
 "histories schedules configurations inputs", "all sequences of deliver / connect / disconnect / drain / clean-up operations and all interleavings of delivery with connecting and disconnecting within the bounds",
 "Tests use fixed sequences; the interaction of history, full queues and changes of the subscriber set is combinatorial and partly concurrent.",
 [BB + "chunk_distributor.inl", BB + "chunk_distributor_data.inl", BB + "chunk_queue_pusher.inl", BB + "chunk_queue_popper.inl"], [("delivery loop and history ring", BB + "chunk_distributor.inl"), ("queue full handling", BB + "chunk_queue_pusher.inl")])
prop("C07", "A publisher's loaned chunks are exclusive, sent unchanged, and never leak",
 "A sender can hold at most the configured number of loaned chunks; each loaned chunk is exclusive until it is sent or released, is delivered to every queue with the sender's identity and a strictly increasing sequence number and unchanged content, and is reused for a later loan only when nobody else references it. Sending or releasing a chunk the sender does not hold is refused and changes nothing, and after releasing everything no chunk is left in use.",
 "histories inputs", "all sequences of loan / send / publish-without-delivery / release / last-chunk reuse operations within the bounds, with symbolic payload size and content",
 "Tests check single operations in fixed order; leaks and double ownership need specific sequences with the last-chunk reuse.",
 [BB + "chunk_sender.inl", BB + "chunk_sender_data.inl", IM + "popo/used_chunk_list.inl"], [("loan bookkeeping and last chunk reuse", BB + "chunk_sender.inl")])
prop("C08", "A subscriber gets chunks in order, may hold its limit, and leaks none",
 "A receiver obtains the queued chunks in the order they were pushed, each exactly once, and may hold the documented number of chunks in parallel; when that limit is exceeded the request fails with an error and the surplus chunk goes back to its pool instead of leaking. Releasing returns exactly the given chunk, releasing something that is not held is refused without effect, and releasing everything frees all chunks.",
 "histories", "all sequences of push / get / release / clear / release-all within the bounds",
 "Tests only exercise the limit in one fixed order.",
 [BB + "chunk_receiver.inl", BB + "chunk_receiver_data.inl", BB + "chunk_queue_popper.inl"], [("held-chunk limit", BB + "chunk_receiver.inl tryGet")])
prop("C13", "Multi-producer queue delivers each value once, in each producer's order",
 "With several threads pushing into and popping from the lock-free multi-producer queue, every value pushed successfully is obtained exactly once, either by a consumer or as the evicted value of an overflowing push, unchanged, and values of the same producer are seen in the order pushed. A plain push fails only on a full queue, a pop only on an empty one, an overflowing push always succeeds, and changing the capacity only drops the oldest values.",
 "schedules histories inputs", "all interleavings of 2 to 3 threads and all operation sequences including capacity changes within the bounds",
 "The lock-free cycle arithmetic fails only for particular interleavings and wrap-arounds.",
 [CB + "mpmc_lockfree_queue/mpmc_lockfree_queue.inl", CB + "mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl", CB + "mpmc_lockfree_queue/mpmc_index_queue.inl"], [("index queues with cycle counters", CB + "mpmc_lockfree_queue/mpmc_index_queue.inl")])
prop("C14", "Locks and semaphores in shared memory exclude, count and wake correctly",
 "At most one thread at a time is inside a section guarded by the inter-process lock, whatever the interleaving; a recursive lock can be taken repeatedly by its owner only and is free after as many unlocks. The inter-process semaphore never lets more waits succeed than its initial value plus the posts, a successful post always lets a waiter proceed, a try never blocks, and a timed wait reports a timeout only without an available token.",
 "schedules histories inputs", "all interleavings of 2 to 3 threads and all operation sequences within the bounds",
 "Mutual exclusion and lost wake-ups are properties of all interleavings.",
 ["iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp", "iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp", "iceoryx_hoofs/design/include/iox/semaphore_interface.hpp"], [("flag, owner and recursion count", "iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp"), ("atomic token counter", "iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp")],
 "as for the others; one genuine defect (owner check across processes reads process id and thread id separately) is listed in known_findings.json")
prop("C15", "No notification is lost or invented, and a waiter always wakes",
 "Every notification sent through a condition variable is reported by a wait that ends after it was sent, a wait reports only sources notified since they were last reported and each at most once, and a thread that waits while or after a notification arrives always returns. A timed wait without a notification returns empty, and destroying the listener ends a wait that is in progress.",
 "schedules histories inputs", "all interleavings of one waiting and up to two notifying threads and all sequential histories within the bounds",
 "A lost wake-up needs a notification at one exact instruction of the waiting thread.",
 ["iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp"], [("flag array plus semaphore", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp waitImpl")])
prop("C17", "Relative pointers denote the same place in every process",
 "A relative pointer made from an address inside a registered segment stores that segment's id and offset, so reading it in any process that maps the segment elsewhere gives the same position in that segment, and copies, moves and rebuilt pointers agree with it. Null stays null, addresses outside all registered segments are kept as they are, an id is given out at most once until it is removed, and the compact form used in shared memory keeps every valid id and offset.",
 "inputs histories configurations", "all segment addresses, sizes and pointers and all sequences of registering and removing segments within the bounds",
 "Tests map two or three fixed segments; boundaries, address order and re-registration are not varied.",
 ["iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl", "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl", "iceoryx_hoofs/memory/source/relative_pointer_data.cpp"], [("segment search", "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl searchId"), ("compact encoding", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer_data.inl")])
prop("C26", "Shared memory is divided into disjoint, aligned, sufficient blocks",
 "For every set of memory blocks (sizes, alignments) the memory provider requests enough memory with sufficient alignment and gives every block its own aligned area inside it without overlap, and the bump allocator beneath never returns an area that is misaligned, overlapping or out of bounds and fails only when the request does not fit. The memory computed for a memory pool configuration is always sufficient to hold all configured chunks; a failed creation or destruction is reported and memory is created, announced and destroyed exactly once.",
 "inputs configurations fault_sequences histories", "all block sizes, alignments, base addresses and pool configurations within the bounds, creation and destruction failing or not",
 "Tests use a few fixed sizes; alignment gaps and arithmetic overflow depend on combinations.",
 ["iceoryx_hoofs/memory/source/bump_allocator.cpp", "iceoryx_posh/source/roudi/memory/memory_provider.cpp", "iceoryx_posh/source/roudi/memory/mempool_collection_memory_block.cpp", "iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp"], [("size computation and block placement", "iceoryx_posh/source/roudi/memory/memory_provider.cpp create"), ("bump allocation", "iceoryx_hoofs/memory/source/bump_allocator.cpp")])
prop("C20", "Fixed-capacity strings behave as bounded character sequences",
 "A fixed-capacity string always holds at most its capacity of characters, is zero-terminated, and every construction, assignment, append, insert, substring, search, comparison and element access gives exactly the result the same operation has on a plain character sequence. A source that does not fit is either cut to the capacity or refused with the string unchanged, as the operation documents, and an access outside the string is stopped instead of reading foreign memory.",
 "inputs histories", "all contents and lengths up to the capacity, all positions and counts and all short sequences of operations within the bounds",
 "Tests use hand-picked literals and positions; off-by-one errors sit at exact combinations of length, capacity and position.",
 ["iceoryx_hoofs/vocabulary/include/iox/detail/string.inl", "iceoryx_hoofs/vocabulary/include/iox/string.hpp", "iceoryx_hoofs/vocabulary/include/iox/detail/string_internal.hpp"], [("copying with truncation", "iceoryx_hoofs/vocabulary/include/iox/detail/string.inl")])
prop("C21", "Fixed-capacity containers keep exactly their elements and their lifetimes",
 "For every sequence of operations the fixed-capacity vector, list, forward list, stack and position container hold exactly the elements an unbounded reference container would, in the same order, refuse (without effect) what exceeds their capacity or is not there, and construct and destroy every element exactly once, including on copy, move, resize, erase and clear. An access outside the container or through a stale position is stopped instead of touching foreign memory.",
 "histories inputs", "all operation sequences, positions and element values within the bounds",
 "Element life-time errors need particular sequences of insertions and removals on partly filled containers.",
 ["iceoryx_hoofs/container/include/iox/detail/vector.inl", "iceoryx_hoofs/container/include/iox/detail/list.inl", "iceoryx_hoofs/container/include/iox/detail/forward_list.inl", "iceoryx_hoofs/container/include/iox/detail/fixed_position_container.inl", "iceoryx_hoofs/buffer/include/iox/detail/stack.inl"], [("index links and element storage", "iceoryx_hoofs/container/include/iox/detail/list.inl"), ("element construction and destruction", "iceoryx_hoofs/container/include/iox/detail/vector.inl")])
RD = "iceoryx_posh/source/roudi/"; PO = "iceoryx_posh/source/popo/"
prop("C09", "Publishers and subscribers are connected exactly when they match",
 "After a discovery run, a publisher and a subscriber are connected exactly when both use the same service, the publisher offers, the subscriber is subscribed, their options are compatible and the connection limit is not exceeded, whatever the order in which they were created, offered, subscribed, stopped and restarted. While connected the subscriber receives every published sample exactly once and in order, a late subscriber first receives the newest samples of the history it asked for, and no order of requests makes the daemon terminate.",
 "histories configurations", "all sequences of offer / stop offer / subscribe / unsubscribe / publish / discovery and all quality of service settings of up to two publishers and two subscribers within the bounds",
 "Tests script a handful of orders; the port state machines and the matching code interact over long histories.",
 [RD + "port_manager.cpp", PO + "ports/publisher_port_roudi.cpp", PO + "ports/subscriber_port_single_producer.cpp", PO + "ports/subscriber_port_multi_producer.cpp"], [("matching of ports", RD + "port_manager.cpp doDiscovery"), ("offer and subscription state machines", PO + "ports/subscriber_port_multi_producer.cpp")])
prop("C10", "Requests reach the server, responses only the client that asked",
 "After a discovery run a client is connected exactly when it wants to be, a server with compatible options offers the service and the client limit is not exceeded; otherwise it waits for an offer. Every request of a connected client reaches the server exactly once, in order and unchanged, the response goes to the client that sent that request and to no other, with the request's sequence id, and a request or response whose counterpart is gone is refused with the matching error and leaks nothing.",
 "histories configurations", "all sequences of offer / stop offer / connect / disconnect / request / take / respond / discovery and all blocking policies of one server and up to two clients within the bounds",
 "Tests script a handful of orders with one client.",
 [RD + "port_manager.cpp", PO + "ports/client_port_roudi.cpp", PO + "ports/client_port_user.cpp", PO + "ports/server_port_roudi.cpp", PO + "ports/server_port_user.cpp"], [("connection state machine", PO + "ports/client_port_roudi.cpp"), ("response routing", PO + "ports/server_port_user.cpp")])
prop("C18", "Service discovery lists exactly the services that are offered",
 "The service registry lists a service exactly when at least one publisher or server offers it, exactly once and with the exact number of publishers and servers, and a search returns exactly the services of the wanted kind whose service, instance and event match the pattern. Every change of what is offered is announced, so that after the next discovery run an application that looks for services sees the present state; a service is refused only when the registry is full.",
 "histories inputs", "all sequences of adding, removing and purging services and of offering, stopping and destroying ports, and all search patterns, within the bounds",
 "Tests follow a few fixed sequences and rarely mix publishers and servers of the same service.",
 [RD + "service_registry.cpp", RD + "port_manager.cpp", "iceoryx_posh/source/runtime/service_discovery.cpp"], [("reference counts and change flag", RD + "service_registry.cpp"), ("publication of the registry", RD + "port_manager.cpp publishServiceRegistry")])
prop("C19", "When an application ends, all it had is freed and nobody else is harmed",
 "Whether an application crashes, shuts down or destroys its ports in an orderly way, and at whatever point of its communication, all its ports and condition variables are removed, its services disappear and every chunk it held, queued or kept as history returns to its pool once nobody else refers to it. Other applications keep the samples they already received or that were already delivered, intact and in order, are told that they are disconnected, can go on working, and the same application can be started again.",
 "histories crash_points", "all sequences of communication operations of two applications with publisher, subscriber, client and server before the end, and the three ways to end, within the bounds",
 "Tests end applications in one fixed state each.",
 [RD + "port_manager.cpp", RD + "port_pool.cpp", PO + "ports/publisher_port_roudi.cpp", PO + "ports/client_port_roudi.cpp", PO + "ports/server_port_roudi.cpp"], [("removal of all ports of a process", RD + "port_manager.cpp deletePortsOfProcess"), ("release of chunks", PO + "ports/base_port.cpp")])
prop("C16", "Waiting applications get every event, and only events that happened",
 "A wait on a wait set returns exactly the attached events that were triggered since they were last reported and the attached states that are satisfied, each once with its id, and never reports something detached; it never stays blocked while an attached state is satisfied or an attached event was triggered. A listener runs the callback of an attached event after each trigger, never without one, and not any more once detaching it returned. Attaching twice or beyond the capacity is refused and changes nothing.",
 "schedules histories", "all sequences of attaching, detaching, triggering, delivering, taking and waiting and all interleavings of a notifying with a waiting thread within the bounds",
 "A lost wake-up or a stale notification needs one exact interleaving or one exact order of detaching and attaching.",
 [IM + "popo/wait_set.inl", "iceoryx_posh/source/popo/listener.cpp", "iceoryx_posh/source/popo/trigger_handle.cpp", "iceoryx_posh/source/popo/user_trigger.cpp", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp"], [("collection of notifications and states", IM + "popo/wait_set.inl waitAndReturnTriggeredTriggers"), ("attachment book-keeping", IM + "popo/wait_set.inl"), ("callback dispatch", "iceoryx_posh/source/popo/listener.cpp threadLoop")])
prop("C25", "Durations convert, add, subtract, scale and compare exactly or saturate",
 "A duration made from any number of nano-, micro-, milliseconds, seconds, minutes, hours or days of any integer type has exactly that value, a negative number gives zero and a value too large gives the longest duration. Converting to a unit or to the operating system's time structures gives the exact, rounded-down value or, if that does not fit, the largest one. Sums, products with integers and comparisons are exact or saturate at the longest duration, and a difference that would be negative is zero.",
 "inputs", "all 64-bit second counts, all nanosecond parts and all integer source values, pairwise for sums, differences and comparisons",
 "Tests use a few values per unit; carries, saturation limits and overflows occur only at particular values out of 2^94.",
 ["iceoryx_hoofs/time/include/iox/detail/duration.inl", "iceoryx_hoofs/time/source/duration.cpp"], [("saturating arithmetic", "iceoryx_hoofs/time/include/iox/detail/duration.inl"), ("time structures", "iceoryx_hoofs/time/source/duration.cpp timespec")])
VO = "iceoryx_hoofs/vocabulary/include/iox/detail/"
prop("C22", "Value holders keep each object alive exactly once, and hold what was put in",
 "An optional, variant, expected, stored function, unique pointer or scope guard contains exactly what the last assignment, copy, move or emplacement put in. Over any sequence of such operations, including self-assignment and swap, every contained object is constructed before and destroyed exactly once after its use, only ever with its own class's operations; an owned object's deleter and a guard's clean-up run exactly once, unless released, and asking for a content that is not there is refused.",
 "histories inputs", "all sequences of construction, assignment, copy, move, self-assignment, swap, emplacement, reset, access and destruction on two holders within the bounds",
 "Tests check single operations with simple element types; a double or missing destruction or a wrong-type access needs a particular order of operations.",
 [VO + "optional.inl", VO + "variant.inl", VO + "expected.inl", "iceoryx_hoofs/functional/include/iox/detail/storable_function.inl", "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl", "iceoryx_hoofs/memory/include/iox/detail/scope_guard.inl"], [("typed storage dispatch", VO + "variant_internal.hpp"), ("type-erased copy, move and destroy", "iceoryx_hoofs/functional/include/iox/detail/storable_function.inl")])
prop("C23", "File names, paths and user names are accepted exactly when they are valid",
 "A file name, path, path to a file, user name or group name is created from a text exactly when the text has only allowed characters and valid content (no empty or relative file name, no relative or dot-ended last component, no leading digit or dash in a user name) and fits; otherwise the error names the reason. The text is kept unchanged, insertion and appending put the text in the right place or refuse and change nothing, and the stand-alone path checks agree with the same rules.",
 "inputs", "all texts of arbitrary bytes up to the length bound, all insert positions and counts",
 "Tests list a few dozen texts; a wrong rule for one character or one combination of dots and separators is missed.",
 [VO + "semantic_string.inl", "iceoryx_hoofs/posix/vocabulary/include/iox/detail/path_and_file_verifier.inl", "iceoryx_hoofs/posix/vocabulary/source/file_path.cpp", "iceoryx_hoofs/posix/vocabulary/source/user_name.cpp"], [("content rules", "iceoryx_hoofs/posix/vocabulary/include/iox/detail/path_and_file_verifier.inl"), ("creation and insertion", VO + "semantic_string.inl")])
prop("C27", "A loaned or received sample, request or response has exactly one owner",
 "A sample, request or response that an application loans or takes through the typed or untyped user interface belongs to exactly one holder: its content and headers stay unchanged while it is held, moving passes it on, and dropping it without publishing or sending returns it. Publishing or sending hands it over once with the given content and empties the holder, so a second attempt is refused without effect; received data arrives once, in order, aligned for its type, and the reported presence or loss of data is exact. Afterwards nothing is left in use.",
 "histories inputs", "all sequences of loan, publish, send, drop, move, self-move, take and repeated publish on two holders per side with all values, within the bounds",
 "Tests mock the ports and check single calls; leaks and double ownership need particular sequences across holder, interface and port.",
 [IM + "popo/publisher_impl.inl", IM + "popo/subscriber_impl.inl", IM + "popo/untyped_publisher_impl.inl", IM + "popo/untyped_subscriber_impl.inl", IM + "popo/client_impl.inl", IM + "popo/server_impl.inl", IM + "popo/smart_chunk.inl", IM + "popo/sample.inl", IM + "popo/base_publisher.inl", IM + "popo/base_subscriber.inl"], [("ownership of the holder", IM + "popo/smart_chunk.inl release"), ("hand-over to the port", IM + "popo/publisher_impl.inl publish")])
