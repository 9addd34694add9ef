#!/usr/bin/env python3
"""source of properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


X = "iceoryx_posh/include/iceoryx_posh/internal/popo/"
prop("S01", "Subscribers receive every published sample, in order, unchanged",
     """A subscriber connected to a publisher of its service receives every sample published while it is connected exactly once, in
     the publisher's order and with the published content, except for samples its queue had no room for. It never receives a
     sample that was not published to its service, and its data-available, missed-data, subscription-state and the
     publisher's has-subscribers answers agree with that history, whichever of the typed, untyped or C APIs is used on either
     side and however producers, consumers and discovery interleave.""",
     "histories schedules configurations",
     """all sequences of create/destroy/offer/stop-offer/subscribe/unsubscribe/loan/publish/take/release/discovery over several
     publishers, subscribers, services and applications, all interleavings of concurrent publishers and takers, all option
     values""",
     """The tests send a handful of samples through one or two hand-picked pairs; the guarantee quantifies over histories
     (re-subscription, several publishers, overflow in between) and over interleavings.""",
     X + "building_blocks/chunk_distributor.inl " + X + "building_blocks/chunk_queue_popper.inl " + X
     + "building_blocks/chunk_queue_pusher.inl " + X + "building_blocks/chunk_sender.inl " + X
     + "building_blocks/chunk_receiver.inl iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/popo/ports",
     [("delivery to all connected queues under the distributor's lock", X + "building_blocks/chunk_distributor.inl"),
      ("matching of publishers and subscribers", "iceoryx_posh/source/roudi/port_manager.cpp")],
     ["Publisher", "Subscriber", "UntypedPublisher", "UntypedSubscriber", "iox_pub_*", "iox_sub_*"])
prop("S02", "Late joiners get exactly the most recent samples they asked for",
     """When a subscription is established, the subscriber first receives the most recent samples of each offering publisher of its service, as
     many as it requested but not more than the publisher keeps or has published, oldest first and before any sample
     published afterwards, with none missing and none repeated in between. A subscriber that demands history support is never
     connected to a publisher without it, and samples that do not fit into the queue are reported as missed.""",
     "histories schedules configurations",
     "all history capacities, requests and queue capacities; all orders of publishing, subscribing, un- and re-subscribing, offering; all interleavings of a publish with the establishment of the subscription",
     "Tests use one publisher, one subscriber and a fixed number of samples; the relation between capacity, request, queue size and history, and the race between publishing and joining, are not sampled.",
     X + "building_blocks/chunk_distributor.inl " + X + "building_blocks/chunk_distributor_data.inl iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/runtime/posh_runtime_impl.cpp",
     [("history hand-over when a queue is added", X + "building_blocks/chunk_distributor.inl"),
      ("compatibility check", "iceoryx_posh/source/roudi/port_manager.cpp")])
prop("S03", "A full queue drops the oldest sample or blocks the publisher, as configured",
     """When a subscriber's queue is full, a discarding subscriber loses only its oldest queued samples, keeps the newest ones up to its
     queue capacity in order, and is told that it missed data; nothing is lost or reported as missed otherwise. A
     subscriber that asked the publisher to wait never loses a sample: publishing returns only after every such subscriber has
     room or is gone, it does return then, and such a subscriber is only connected to publishers that agreed to wait.""",
     "histories schedules configurations",
     "all queue capacities, policy combinations, burst lengths, and all interleavings of publishing with taking, unsubscribing and destruction of the slow subscriber",
     "Tests check single overflows and one blocking publisher with fixed timing; they do not explore bursts over several subscribers or the interleaving of making room and publishing.",
     X + "building_blocks/chunk_distributor.inl " + X + "building_blocks/chunk_queue_pusher.inl iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue iceoryx_posh/source/roudi/port_manager.cpp",
     [("push with overflow, wait loop", X + "building_blocks/chunk_distributor.inl"),
      ("overflowing lock-free queue", "iceoryx_hoofs/concurrent/buffer")])
prop("S04", "A sample's memory is never shared or changed while somebody uses it",
     """Memory handed out as a loan overlaps no other loan, no queued, held or history sample, and no memory outside the pool it comes
     from, and belongs exclusively to the caller until it is published or released. A received sample's content stays
     unchanged until its receiver releases it, whatever publishers, other receivers and the daemon do meanwhile.""",
     "histories schedules crash_points",
     "all histories and interleavings of loans, publications, takes, releases, history redelivery, overflow, unsubscription and clean-up after a crash",
     "A premature release or double free only shows when the chunk is reused while somebody else still reads it; tests hold one or two samples for a moment.",
     "iceoryx_posh/include/iceoryx_posh/internal/mepoo iceoryx_posh/source/mepoo " + X + "building_blocks iceoryx_hoofs/memory",
     [("reference counting of chunks", "iceoryx_posh/source/mepoo/shared_chunk.cpp"),
      ("free list", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp")])
prop("S05", "No chunk is ever leaked and limits on loans and held samples are exact",
     """At every moment the number of chunks in use in each pool equals the number of distinct samples that are loaned, queued, held or kept as
     history (plus at most one sample per sender kept for reuse), and it is zero when everybody is gone. An allocation fails only because
     the matching pool really is exhausted, no pool is large enough, or the caller reached its documented limit of
     simultaneous loans, and a take is refused only when the documented number of samples is held; after a release the refused operation works again.""",
     "histories schedules",
     "all histories of loans, publications, takes, releases, refused operations, destruction and re-creation, for publish/subscribe and request/response",
     "A leak needs a particular sequence (overflow while history is full, a refused take, a failed send) and exhausts the pool only much later; tests check single sequences.",
     "iceoryx_posh/source/mepoo/memory_manager.cpp " + X + "used_chunk_list.inl " + X + "building_blocks/chunk_sender.inl " + X + "building_blocks/chunk_receiver.inl",
     [("used-chunk lists", X + "used_chunk_list.inl"), ("reference counting", "iceoryx_posh/source/mepoo/shared_chunk.cpp")])
prop("S07", "Every response reaches exactly the client that asked, and only it",
     """A request sent by a connected client arrives exactly once at the one server of its service, in order per client, with content and sequence id unchanged; a
     response arrives exactly once, and only, at the client whose request it answers, with that request's sequence id and the server's error mark. Sending
     reports precisely whether a connected peer existed, overflow and blocking follow the configured policies and are reported as missed, and connection
     state and has-clients/has-requests/has-responses answers agree with the history, for the typed, untyped and C APIs, without leaking or sharing memory.""",
     "histories schedules configurations",
     "all histories of creating, destroying, connecting, offering, sending, taking and releasing over several clients, servers and services, including servers that vanish and return and clients that leave before their answer",
     "Tests exercise one client and one server on the happy path and single port state transitions, not histories of reconnection, limits and several clients.",
     "iceoryx_posh/source/popo/ports/client_port_user.cpp iceoryx_posh/source/popo/ports/server_port_user.cpp iceoryx_posh/source/popo/ports/client_port_roudi.cpp iceoryx_posh/source/popo/ports/server_port_roudi.cpp iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/popo/rpc_header.cpp",
     [("routing of responses by queue id", X + "building_blocks/chunk_distributor.inl"),
      ("connection handshake", "iceoryx_posh/source/roudi/port_manager.cpp")])
prop("S10", "A dead application is cleaned up completely and hurts nobody else",
     """When an application dies or terminates at any point between two of its API calls, the daemon removes all its publishers, subscribers, clients, servers and
     service entries and returns every chunk it loaned, held or had queued, and its resources can be used by others afterwards. All other applications keep every sample
     they hold or have queued, unchanged, keep communicating with each other, and see the dead application's services disappear. With monitoring, an
     application that gives no sign of life is noticed, and one that is alive is never removed; at shutdown RouDi signals exactly the registered processes.""",
     "crash_points histories",
     "every point between API calls of every history, for any number of deaths and restarts under the same name",
     "Tests kill an application in one or two fixed states.",
     "iceoryx_posh/source/roudi/process_manager.cpp iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/roudi/port_pool.cpp " + X + "used_chunk_list.inl",
     [("deletion of all ports of a process", "iceoryx_posh/source/roudi/port_manager.cpp"),
      ("releaseAll of used chunks", X + "used_chunk_list.inl")])
prop("S26", "The C API behaves exactly like the C++ API",
     """Publishers, subscribers, clients, servers, user triggers, wait sets, listeners, service discovery and their options, results, states, notifications and headers behave through the C functions exactly as
     through the C++ classes: same delivery, same error for the same situation, same ownership of memory, same origin, id, context and callback of a notification, nothing reported after detaching, also when one side uses C and the
     other C++. Every option value set in C takes effect in the created endpoint, defaults are those of C++, and what one side writes into a chunk, request or response header the other reads.""",
     "histories configurations inputs",
     "all histories of C API calls, all option values, all pairings of C and C++ endpoints",
     "The C binding tests check each function once against a mock or a fixed scenario.",
     "iceoryx_binding_c/source",
     [("translation of options and results", "iceoryx_binding_c/source"), ("enum conversion", "iceoryx_binding_c/source/cpp2c_enum_translation.cpp")])

B = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
prop("S09", "Wait sets and listeners report every event, once, and never sleep through one",
     """Every event or satisfied state of an attached origin is reported by the next wait of its wait set, or leads to a later call of its listener callback, with the
     right origin, id, context and callback; wait never blocks while something unreported has happened or an attached state holds, and returns nothing that did not happen since it was last reported.
     After detaching, or after the destruction of the origin or of the wait set or listener, nothing more is reported or called; a callback never runs when detach has returned.
     Attaching twice and attaching beyond the capacity are refused without side effects.""",
     "histories schedules",
     "all sequences of attach, detach, trigger, publish, take, wait and destruction over several origins, and all interleavings of triggering threads, the waiting or listener thread and attaching or detaching threads",
     "A lost wake-up or a call after detach needs a particular interleaving of notifier and waiter; tests use fixed sleeps and one order.",
     "iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl iceoryx_posh/source/popo/listener.cpp iceoryx_posh/source/popo/trigger_handle.cpp iceoryx_posh/source/popo/trigger.cpp iceoryx_posh/source/popo/building_blocks/condition_listener.cpp iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp",
     [("notification flags and semaphore", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp"), ("detach and call-back locking", "iceoryx_posh/source/popo/listener.cpp")],
     ["WaitSet", "Listener", "UserTrigger"])
prop("S13", "The lock-free queues are linearizable FIFO queues",
     """Under any interleaving of their permitted callers, every push, overflowing push, conditional and plain pop, size and emptiness query of the lock-free queues (MPMC with and without resize, SPSC FIFO,
     overflowing SoFi, and the variant queue over them) takes effect as one atomic step of a bounded FIFO queue of the configured capacity: no element is lost, duplicated, reordered, torn or
     invented, exactly the oldest element is evicted and returned on overflow, and a push or pop fails only when the queue is full or empty.""",
     "schedules histories configurations",
     "all interleavings at every memory access of two to four threads, all capacities, sequences with wrap-around, overflow and resize",
     "Stress tests sample a tiny part of the schedules and cannot reach particular windows of a few instructions.",
     B + "mpmc_lockfree_queue.hpp " + B + "mpmc_resizeable_lockfree_queue.hpp " + B + "spsc_fifo.inl " + B + "spsc_sofi.inl " + B + "mpmc_lockfree_queue",
     [("index queues with cyclic indices", "iceoryx_hoofs/concurrent/buffer"), ("overflowing SPSC queue", B + "spsc_sofi.inl")])
prop("S14", "The free list and reference counts never hand out or free anything twice",
     """Under any interleaving, the lock-free free list and the memory pool hand out an index or chunk to at most one owner at a time, accept back exactly what is out, fail only
     when nothing is free, and lose nothing; a chunk whose references are copied and dropped concurrently returns to its pool exactly once, when the last reference goes.""",
     "schedules histories",
     "all interleavings at every memory access of allocating, freeing, copying and dropping threads, all capacities including reuse of the same index (ABA)",
     "The windows (ABA between two loads and the exchange, last reference dropped by two threads) are not reached by stress tests.",
     "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp iceoryx_posh/source/mepoo/mem_pool.cpp iceoryx_posh/source/mepoo/shared_chunk.cpp",
     [("ABA counter in the list head", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"), ("reference counter", "iceoryx_posh/source/mepoo/shared_chunk.cpp")])

prop("S08", "Service discovery reports exactly the offered services",
     """After a discovery run, a query for services (with any combination of given and wildcard service, instance and event names, for publish/subscribe or request/response, through C++ or C) returns
     exactly the matching services that some publisher or server currently offers, each once, with their names unchanged. Services appear when the first endpoint offers them and vanish
     when the last one stops offering, is destroyed, or its application is lost; attached observers are notified of every such change, and each side of a service offered through both patterns is judged by itself.""",
     "histories inputs configurations",
     "all sequences of creating, offering, stopping and destroying publishers and servers over several applications, application losses, registry additions, removals and purges up to and beyond capacity, and all queries with names up to the maximum length",
     "Tests query one or two services at one point; what goes wrong are particular orders of offering and stopping on both patterns, full registries and names of maximum length.",
     "iceoryx_posh/source/roudi/service_registry.cpp iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/runtime/service_discovery.cpp iceoryx_binding_c/source/c_service_discovery.cpp iceoryx_binding_c/source/cpp2c_service_description_translation.cpp",
     [("registry with reference counts per pattern", "iceoryx_posh/source/roudi/service_registry.cpp"), ("publication of the registry", "iceoryx_posh/source/roudi/port_manager.cpp")],
     ["ServiceDiscovery::findService", "iox_service_discovery_*", "ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED"])
V = "iceoryx_hoofs/"
prop("S16", "Fixed-capacity containers behave like std containers up to capacity",
     """iox::vector, list, forward_list, stack and FixedPositionContainer hold, after any sequence of their operations, exactly the elements the corresponding standard container would hold, in the same order, as
     long as the capacity is not exceeded; operations beyond the capacity fail as documented and change nothing. Every element is constructed once and destroyed once, in the storage reserved for it; no operation touches a
     non-existing element. Iterators of the lists and of FixedPositionContainer stay valid until their own element is erased, copies and moves leave the source and target in the documented state, and use that violates a documented precondition ends the program instead of corrupting memory.""",
     "histories inputs configurations",
     "all sequences of insert, emplace, erase, resize, clear, copy, move, swap-like and iterator operations on two containers, with trivial, over-aligned and lifetime-tracked element types and several capacities including 1",
     "Tests use short fixed sequences on one capacity; index and free-list errors need particular histories of erasures and insertions, aliasing or full containers.",
     V + "container/include/iox/detail/vector.inl " + V + "container/include/iox/detail/list.inl " + V + "container/include/iox/detail/forward_list.inl " + V + "container/include/iox/detail/fixed_position_container.inl " + V + "buffer/include/iox/detail/stack.inl",
     [("element storage and free lists", V + "container/include/iox/detail")],
     ["iox::vector", "iox::list", "iox::forward_list", "iox::stack", "iox::FixedPositionContainer"])

prop("S17", "Fixed-capacity strings behave like std::string up to their capacity",
     """An iox::string holds, after any sequence of operations, exactly the bytes a std::string would hold, zero-terminated, as long as they fit; assignments and appends that do not fit either are refused without
     any change or truncate at exactly the capacity, as documented for the operation. Comparison, search, substring, insertion, element access and conversion agree with std::string, for all capacities and pairs of capacities, and
     no operation reads or writes outside the string's own storage and its argument.""",
     "inputs histories configurations",
     "all byte contents including zero bytes and bytes above 127, lengths around every capacity, positions beyond the end, self-assignment, and mixed capacities",
     "Tests use a few fixed capacities and texts; off-by-one errors at capacity, position overflow and embedded zeros are left out.",
     V + "vocabulary/include/iox/detail/string.inl",
     [("bounded copy and length bookkeeping", V + "vocabulary/include/iox/detail/string.inl")], ["iox::string"])
prop("S18", "Vocabulary types track their content's value and lifetime exactly",
     """optional, variant, expected, function, function_ref, unique_ptr, ScopeGuard and span always know whether and what they contain: the contained value is what was last put in by construction, assignment, emplacement,
     copy or move; every contained object is constructed and destroyed exactly once, in proper order, and never used outside its lifetime; accesses to absent content are refused or end the program as
     documented; monadic calls run exactly the documented branch; deleters and scope guards run exactly once; spans cover exactly the documented range.""",
     "histories inputs",
     "all sequences of construction, assignment, emplacement, copy, move, self-assignment, reset and access over several objects, empty states and alternatives",
     "Tests call each operation once from one state; errors show for particular pairs of states (empty to full, different alternatives, moved-from) and only as lifetime errors.",
     V + "vocabulary/include/iox/detail/optional.inl " + V + "vocabulary/include/iox/detail/variant.inl " + V + "vocabulary/include/iox/detail/expected.inl " + V + "functional/include/iox/detail/storable_function.inl " + V + "memory/include/iox/detail/unique_ptr.inl " + V + "vocabulary/include/iox/detail/span.inl",
     [("in-place storage of the content", V + "vocabulary/include/iox/detail")],
     ["iox::optional", "iox::variant", "iox::expected", "iox::function", "iox::function_ref", "iox::unique_ptr", "iox::ScopeGuard", "iox::span"])
prop("S19", "Duration arithmetic is exact and saturates instead of wrapping",
     """Creation of an iox::units::Duration from any unit and integer type, addition, subtraction, multiplication, comparison and conversion to any unit and to timespec, timeval and std::chrono give the exact result when it is representable,
     zero when the true result is negative, and the maximum when it is too large; multiplication with floating-point numbers is right up to rounding, also for infinities and NaN as documented. No value ever wraps around.""",
     "inputs",
     "all pairs of durations and factors over the whole range of every integer and floating-point type, in particular near all limits of seconds, nanoseconds and 64-bit values",
     "Tests sample a handful of values; carry and saturation errors hide at particular combinations of seconds and nanoseconds.",
     V + "time/include/iox/detail/duration.inl " + V + "time/source/duration.cpp",
     [("split representation with carry", V + "time/include/iox/detail/duration.inl")], ["iox::units::Duration"])
prop("S20", "Numbers are converted from and to text without loss or false acceptance",
     """convert::from_string accepts exactly the texts that denote a value of the target type and returns that value; everything else (other characters, out-of-range values, a sign where none is allowed, empty text) is refused
     without a result. Converting an integer to text and back yields the same value; all supported integer, floating-point, character, bool and string types follow these rules.""",
     "inputs",
     "all texts near valid numbers and near all limits of the types, and all values",
     "Tests check a few limits per type; sign, whitespace and range handling between types of different width are sampled only.",
     V + "utility/include/iox/detail/convert.inl",
     [("range checks around strtoull and friends", V + "utility/include/iox/detail/convert.inl")], ["iox::convert::from_string", "iox::into"])
prop("S21", "Validated names and paths accept exactly the documented grammar",
     """FileName, FilePath, Path, UserName, GroupName and the platform path and name predicates accept exactly the texts that follow the documented rules and refuse all others, also when an existing value is modified by append or
     insert; a value, once created, holds exactly the accepted text, compares like it, and a refused modification leaves it unchanged.""",
     "inputs histories",
     "all texts over the whole character range up to and beyond maximum length, in particular dots, slashes, empty parts and control characters, and sequences of modifications",
     "Tests list some dozens of good and bad names.",
     V + "filesystem/source/filesystem.cpp " + V + "posix/vocabulary/source " + V + "vocabulary/include/iox/detail/semantic_string.inl",
     [("path predicates", V + "posix/vocabulary/include/iox/detail/path_and_file_verifier.inl"), ("semantic string", V + "vocabulary/include/iox/detail/semantic_string.inl")],
     ["iox::FileName", "iox::FilePath", "iox::Path", "iox::UserName", "iox::GroupName"])
prop("S06", "Every chunk fits its payload and user header, aligned and disjoint",
     """For every payload size and alignment and user-header size and alignment that is accepted, the chunk granted to the user is large enough, payload and user header are aligned as requested, lie inside the chunk, do not overlap each
     other or the chunk header, and the payload pointer leads back to the same chunk header. A request is served from the smallest configured pool whose chunks are large enough, chunks in use never overlap, a request that cannot be
     served is refused with an error and changes nothing, and the numbers of used and free chunks agree with what is held. Allocations inside a management segment are aligned, disjoint and within bounds, however large the request.""",
     "inputs histories configurations",
     "all sizes and alignments over the whole 32- and 64-bit range, all pool configurations, all sequences of requests and releases",
     "Tests check hand-picked sizes; overlaps and overflows depend on particular combinations of size, alignment and header.",
     "iceoryx_posh/source/mepoo/chunk_settings.cpp iceoryx_posh/source/mepoo/chunk_header.cpp iceoryx_posh/source/mepoo/memory_manager.cpp iceoryx_posh/source/mepoo/mem_pool.cpp " + V + "memory/source/bump_allocator.cpp",
     [("required chunk size", "iceoryx_posh/source/mepoo/chunk_settings.cpp"), ("payload offset and back-offset", "iceoryx_posh/source/mepoo/chunk_header.cpp"),
      ("pool choice", "iceoryx_posh/source/mepoo/memory_manager.cpp"), ("bump allocation", V + "memory/source/bump_allocator.cpp")],
     ["ChunkSettings", "ChunkHeader", "MemoryManager", "MemPool", "BumpAllocator"])
prop("S22", "Daemon messages survive encoding; malformed ones are refused",
     """Values written into a serialization or an IpcMessage (entries of text, numbers, service descriptions, port options, relative pointers) are read back unchanged, in number and order. A text that is not the encoding of the expected
     entries is reported as invalid and never leads to an access outside of it, a partly read result being reported as success, or a different value than the one written.""",
     "inputs",
     "all lists of values over the full range of their types, all texts including truncations and corruptions of valid encodings",
     "Tests round-trip a few examples and try few malformed texts.",
     V + "utility/include/iox/detail/serialization.inl iceoryx_posh/source/runtime/ipc_message.cpp iceoryx_posh/source/capro/service_description.cpp",
     [("length-prefixed entries", V + "utility/include/iox/detail/serialization.inl"), ("separator-terminated entries", "iceoryx_posh/source/runtime/ipc_message.cpp")],
     ["Serialization", "IpcMessage", "capro::ServiceDescription", "PublisherOptions and the other option types"])
prop("S24", "Position independent pointers denote the same object in every mapping",
     """A relative pointer that refers into a registered segment, or is null, denotes the same object through copies, assignments, arithmetic-free conversions, and in every process that maps the segment at another address; the segment
     id and offset are those of the memory it points to; relocatable pointers denote the object at the same distance after the memory holding both was moved or mapped elsewhere. Registering and unregistering segments affects only pointers
     into these segments, and a registration that is not possible is refused.""",
     "inputs histories",
     "all sequences of registration, unregistration, pointer assignment, copy and dereference over several segments of different sizes and addresses",
     "Tests use two segments and few pointers.",
     V + "memory/include/iox/detail/pointer_repository.inl " + V + "memory/include/iox/detail/relative_pointer.inl " + V + "memory/include/iox/detail/relocatable_ptr.inl " + V + "memory/include/iox/detail/relative_pointer_data.inl",
     [("segment table", V + "memory/include/iox/detail/pointer_repository.inl")], ["RelativePointer", "RelocatablePointer", "PointerRepository", "RelativePointerData"])
prop("S11", "The daemon answers every request rightly and survives every message",
     """RouDi answers each well-formed request of a registered application exactly once, to that application, with the acknowledgement or the error that fits its state, and a granted endpoint is the requested one, exclusively owned by
     the requester. A message that is malformed, has the wrong number of entries, unparsable numbers or options, an invalid, reserved or unknown name or an unknown command has no effect beyond its documented answer; versions that are
     incompatible at the configured level are not admitted. No message makes RouDi crash, hang or stop serving other applications.""",
     "inputs histories configurations",
     "all sequences of requests of several applications, all texts that may arrive on the daemon's channel, application channels that appear and vanish",
     "Tests send a few messages of each kind; the state space of registered applications, their ports and malformed texts is not sampled.",
     "iceoryx_posh/source/roudi/roudi.cpp iceoryx_posh/source/roudi/process_manager.cpp iceoryx_posh/source/roudi/process.cpp iceoryx_posh/source/runtime/ipc_interface_base.cpp iceoryx_posh/source/version/version_info.cpp",
     [("message dispatch", "iceoryx_posh/source/roudi/roudi.cpp"), ("process list and answers", "iceoryx_posh/source/roudi/process_manager.cpp")],
     ["RouDi's IPC channel", "the applications' IPC channels"])
prop("S12", "Exhausted resources are refused gracefully and usable again when freed",
     """Every process registration, publisher, subscriber, client, server, condition variable and interface that is requested is granted as long as fewer than the configured maximum exist (and, for publishers and servers, the service is permitted and not taken),
     and refused with the matching error otherwise, without harming RouDi or anybody else. A place is free again as soon as its endpoint was destroyed and discovery ran, or its application terminated; no place is ever lost, counted twice or given to two owners.""",
     "histories",
     "all histories of creation, destruction, termination and re-registration by several applications around all limits",
     "Tests fill one list once; loss of places shows only over long histories.",
     "iceoryx_posh/source/roudi/port_pool.cpp iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/roudi/process_manager.cpp iceoryx_posh/source/runtime/posh_runtime_impl.cpp",
     [("port lists", "iceoryx_posh/source/roudi/port_pool.cpp"), ("destruction of ports", "iceoryx_posh/source/roudi/port_manager.cpp")],
     ["PoshRuntime::getMiddleware*", "RouDi's answers"])
prop("S25", "Command lines and configuration files take effect exactly as given",
     """Every command line that follows the documented syntax is accepted and yields exactly the given values, defaults where nothing is given, by short or long name; every other one (unknown, repeated, incomplete or missing required options,
     values that do not convert or do not fit) is refused through the error or failure callback. This holds for the option parser and the structs built with it and for RouDi's options. A RouDi or gateway configuration file yields exactly the
     segments, groups, pools and services it lists, in order, with the documented defaults and combined with the command line's options; a file that breaks the rules or limits is reported with a fitting error. No input makes a parser crash or terminate.""",
     "inputs configurations",
     "all option sets and argument vectors, all configuration files near the documented format",
     "Tests parse a few fixed command lines and files; combinations, limits and malformed inputs are not sampled.",
     "iceoryx_hoofs/cli/source/command_line_parser.cpp iceoryx_hoofs/cli/source/option_definition.cpp iceoryx_hoofs/cli/source/option_manager.cpp iceoryx_hoofs/cli/include/iox/cli/arguments.inl iceoryx_posh/source/roudi/roudi_cmd_line_parser.cpp iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp",
     [("option parser", "iceoryx_hoofs/cli/source/command_line_parser.cpp"), ("configuration file", "iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp")],
     ["parseCommandLineArguments", "IOX_CLI_DEFINITION structs", "CmdLineParser::parse", "TomlRouDiConfigFileProvider::parse", "TomlGatewayConfigParser::parse"])
prop("S27", "Introspection reports exactly what exists",
     """Once the system is at rest, the introspection topics report within their period exactly what there is: every registered process with its name and pid (RouDi included) and nothing else; every existing publisher and subscriber with its
     service, owner, effective options and, at the same index, its subscription state; and for every segment its groups and for every pool its chunk size, number of chunks, used chunks and smallest number of free chunks so far. Ended processes
     and destroyed endpoints disappear; samples always are complete up to the configured limits.""",
     "histories configurations",
     "all histories of registration, termination, creation, destruction, offer, subscription and loans up to the limits",
     "Tests mock the ports and check single samples; agreement with the real state over histories is not tested.",
     "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/mempool_introspection.inl iceoryx_posh/source/mepoo/mem_pool.cpp iceoryx_posh/source/roudi/port_manager.cpp",
     [("port introspection", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl"), ("process introspection", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl")],
     ["introspection topics"])
prop("S28", "Users get exactly the access their groups are configured for",
     """A user may write to a payload segment exactly if it is in the segment's writer group and may read it exactly if it is in the reader or writer group; this is what RouDi's segment mapping says, what the kernel enforces on the segments RouDi
     created and how an application maps them, for all configured segments up to the maximum. Nobody else outside RouDi's own group has access. Users, groups, ownership and permissions looked up by name or id agree with the system's user database and file
     system, and access control lists are written exactly as composed or refused without any change.""",
     "inputs configurations histories",
     "all user databases, group memberships and segment configurations; all sequences of permission entries",
     "Tests run as one user and ask a mocked segment; what other users really can do is not tested.",
     "iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl iceoryx_posh/source/runtime/shared_memory_user.cpp iceoryx_hoofs/posix/auth/source/posix_user.cpp iceoryx_hoofs/posix/auth/source/posix_group.cpp",
     [("segment mapping", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl"), ("rights on the segment", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl")],
     ["SegmentManager", "open() of the segments by other users", "PosixUser", "PosixGroup", "PosixAcl"])
prop("S23", "Channels, shared memory, files and locks between processes behave as documented",
     """Messages sent through a unix domain socket, named pipe or message queue arrive complete, unchanged, once and in order at the server of that name; sending or receiving blocks, times out or is refused exactly when the channel is full or
     empty, and too long messages or invalid names are refused without effect. Shared memory objects and files are opened, created, purged or refused as the open mode says, have the requested size, rights and content, share what is written and
     disappear with their owner only. A file lock is held by at most one holder, is refused only while held, and is free after release or death. Bad input from other programs never corrupts memory; nothing leaks.""",
     "histories schedules crash_points inputs",
     "all histories of opening, sending, receiving, reading, writing, closing and death over several names; all schedules and death points of locks and pipes",
     "Tests exercise single calls; races between processes, leftovers of dead ones, limits of sizes and names and foreign messages are not sampled.",
     V + "posix/ipc/source/unix_domain_socket.cpp " + V + "posix/ipc/include/iox/detail/named_pipe.inl " + V + "posix/ipc/source/named_pipe.cpp " + V + "posix/ipc/include/iox/detail/message_queue.inl " + V + "posix/ipc/source/posix_shared_memory_object.cpp " + V + "posix/filesystem/source/file.cpp " + V + "posix/filesystem/source/file_lock.cpp",
     [("channels", V + "posix/ipc/source/unix_domain_socket.cpp"), ("file lock", V + "posix/filesystem/source/file_lock.cpp")],
     ["UnixDomainSocket", "NamedPipe", "MessageQueue", "PosixSharedMemoryObject", "File", "FileLock"])
prop("S29", "Locks, semaphores, timers, tasks and signal handling do what they promise",
     """A mutex, spin lock or smart lock is held by at most one thread of all processes; lock, try_lock and unlock succeed, block or fail exactly as ownership and the configured behaviour (recursive, deadlock detection, robust) say, a waiting thread
     gets a released lock, and the death of an owner is reported and repairable. Every wait on a semaphore (named, unnamed, spin) consumes exactly one post; waits return only for a post or after the full timeout, whatever signals are handled meanwhile;
     named ones exist as open mode and ownership say. Deadline timers, periodic tasks, threads, signal guards and waiting for termination requests act exactly when due.""",
     "histories schedules crash_points",
     "all operation histories and schedules of several threads and processes, deaths of owners, signals at any time, all configurations",
     "Tests use one or two threads in fixed orders; hand-over, death of owners, interruptions by signals and races are not sampled.",
     V + "posix/sync/source/mutex.cpp " + V + "posix/sync/source/named_semaphore.cpp " + V + "posix/sync/source/semaphore_helper.cpp " + V + "posix/sync/source/signal_watcher.cpp " + V + "concurrent/sync_extended/source/spin_lock.cpp " + V + "concurrent/sync_extended/source/spin_semaphore.cpp " + V + "concurrent/sync/include/iox/detail/smart_lock.inl " + V + "concurrent/sync_extended/include/iox/detail/periodic_task.inl " + V + "posix/time/source/deadline_timer.cpp",
     [("mutex", V + "posix/sync/source/mutex.cpp"), ("spin lock", V + "concurrent/sync_extended/source/spin_lock.cpp"), ("semaphores", V + "posix/sync/source/semaphore_helper.cpp")],
     ["mutex", "SpinLock", "smart_lock", "UnnamedSemaphore", "NamedSemaphore", "SpinSemaphore", "deadline_timer", "PeriodicTask", "registerSignalHandler", "waitForTerminationRequest"])
prop("S15", "The daemon's memory is divided into complete, disjoint and aligned blocks",
     """Whatever blocks (sizes, alignments, up to the maximum number) are added to the memory providers of the daemon: when the memory is created, every block gets its own part of it, of the requested size and alignment, inside the memory and disjoint
     from all others, and is told so exactly once per creation, after all providers have their memory; pointers into it are relative to the provider's segment. Before it is created and after it was destroyed, no block and no provider claims to have memory; blocks are told
     before their memory goes. Additions and creations that come too late, are too many or repeated are refused without effect, a failed creation is reported, and no memory is left behind.""",
     "inputs configurations histories",
     "all sets of blocks and providers, all histories of creation, announcement and destruction, with failures",
     "Tests use one or two fixed blocks and a mocked provider.",
     "iceoryx_posh/source/roudi/memory/memory_provider.cpp iceoryx_posh/source/roudi/memory/memory_block.cpp iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp iceoryx_posh/source/roudi/memory/posix_shm_memory_provider.cpp iceoryx_hoofs/memory/source/bump_allocator.cpp",
     [("blocks of a provider", "iceoryx_posh/source/roudi/memory/memory_provider.cpp"), ("manager", "iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp")],
     ["MemoryProvider", "MemoryBlock", "RouDiMemoryManager"])
prop("S30", "Gateways are told of every service and keep exactly one channel per service",
     """A gateway on an interface is told, after each discovery, of every offer and every end of an offer of publishers and servers that do not come from its own interface: the messages add up to what changed, none is repeated or untrue, and one that
     joins late learns of everything offered. A gateway keeps at most one channel per service: adding a service that has one returns it, with wildcards or beyond the limit is refused; finding, visiting, counting and discarding concern exactly the existing channels. The two
     terminals of a channel belong to its service, are shared by no other channel and exist until the channel is discarded and no copy is left. A running gateway gets to channels of exactly the existing services, forwards on each repeatedly, and does nothing after shutdown.""",
     "histories schedules",
     "all histories of services, gateways and channels up to the limits",
     "Tests mock the gateway's base or its terminals and add a handful of channels.",
     "iceoryx_posh/source/gateway/gateway_base.cpp iceoryx_posh/include/iceoryx_posh/gateway/gateway_generic.hpp iceoryx_posh/include/iceoryx_posh/internal/gateway/gateway_generic.inl iceoryx_posh/include/iceoryx_posh/internal/gateway/channel.inl iceoryx_posh/source/roudi/port_manager.cpp iceoryx_posh/source/popo/ports/interface_port.cpp",
     [("channels", "iceoryx_posh/include/iceoryx_posh/internal/gateway/gateway_generic.inl"), ("messages to interfaces", "iceoryx_posh/source/roudi/port_manager.cpp")],
     ["GatewayBase::getCaProMessage", "GatewayGeneric", "Channel"])
# MORE

P.sort(key=lambda p: p["id"])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
