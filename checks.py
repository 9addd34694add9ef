"""Registry: build variants, harnesses and, per property, the tests that decide it."""

# every shared resource the harnesses create carries this prefix, so that cleaning up touches nothing else
PREFIX = "vrf1"

# a small deployment: limits are reached within short histories
_DEPLOY = {
    "IOX_EXPERIMENTAL_POSH": "ON",
    "IOX_DEFAULT_RESOURCE_PREFIX": PREFIX,
    "IOX_MAX_PUBLISHERS": "24", "IOX_MAX_SUBSCRIBERS": "32", "IOX_MAX_SUBSCRIBERS_PER_PUBLISHER": "6",
    "IOX_MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY": "4", "IOX_MAX_PUBLISHER_HISTORY": "6",
    "IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY": "12",
    "IOX_MAX_PROCESS_NUMBER": "16", "IOX_MAX_NODE_NUMBER": "16", "IOX_MAX_NUMBER_OF_CONDITION_VARIABLES": "8",
    "IOX_MAX_SERVERS": "8", "IOX_MAX_CLIENTS": "16", "IOX_MAX_CLIENTS_PER_SERVER": "4",
    "IOX_MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY": "5", "IOX_MAX_RESPONSE_QUEUE_CAPACITY": "6",
    "IOX_MAX_REQUEST_QUEUE_CAPACITY": "8", "IOX_MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY": "3",
    "IOX_MAX_NUMBER_OF_NOTIFIERS": "16",
}
VARIANTS = {
    # the system as users build it, with the small deployment
    "sys": {"cc": "gcc", "cxx": "g++", "cflags": "-O1 -g0", "defs": _DEPLOY},
    # instrumented with calls at every atomic and plain memory access; lib/sched.hpp provides them (no sanitizer runtime)
    "sched": {"cc": "clang", "cxx": "clang++",
              "cflags": "-O1 -g0 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0",
              "plain_cflags": "-O1 -g0", "defs": _DEPLOY},
}
VARIANTS["asan"] = {"cc": "clang", "cxx": "clang++",
                    "cflags": "-O1 -g0 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all "
                              "-fno-omit-frame-pointer", "ldflags": "-fsanitize=address,undefined -fno-sanitize=vptr,function",
                    "defs": _DEPLOY}
_HOOFS = ["hoofs", "platform"]
_ALL = ["binding_c", "posh_roudi", "posh", "hoofs", "platform"]
HARNESSES = {
    "pubsub": {"src": ["pubsub.cpp"], "libs": _ALL},
    "discovery": {"src": ["discovery.cpp"], "libs": _ALL},
    "strings": {"src": ["strings.cpp"], "libs": _HOOFS},
    "mem": {"src": ["mem.cpp"], "libs": ["posh", "hoofs", "platform"]},
    "vocab": {"src": ["vocab.cpp"], "libs": _HOOFS},
    "roudi": {"src": ["roudi.cpp"], "libs": _ALL},
    "introspection": {"src": ["introspection.cpp"], "libs": _ALL},
    "config": {"src": ["config.cpp"], "libs": ["posh_gateway", "posh_config", "posh_roudi", "posh", "hoofs", "platform"]},
    "ipc": {"src": ["ipc.cpp"], "libs": _HOOFS},
    "locks": {"src": ["locks.cpp"], "libs": _HOOFS},
    "sync": {"src": ["sync.cpp", "sched_rt.cpp"], "plain": ["sched_rt.cpp"], "libs": _HOOFS},
    "access": {"src": ["access.cpp"], "libs": _ALL},
    "interrupts": {"src": ["interrupts.cpp"], "libs": _ALL},
    "c_api": {"src": ["c_api.cpp"], "libs": _ALL},
    "gateway": {"src": ["gateway.cpp"], "libs": ["posh_gateway"] + _ALL},
    "containers": {"src": ["containers.cpp"], "libs": _HOOFS},
    "rpc": {"src": ["rpc.cpp"], "libs": _ALL},
    "conc": {"src": ["conc.cpp", "sched_rt.cpp"], "plain": ["sched_rt.cpp"], "libs": _ALL},
    "events": {"src": ["events.cpp", "sched_rt.cpp"], "plain": ["sched_rt.cpp"], "libs": _ALL},
    "lockfree": {"src": ["lockfree.cpp", "sched_rt.cpp"], "plain": ["sched_rt.cpp"], "libs": _ALL},
}
ASSUMPTIONS = [
    "x86-64 Linux, glibc, one machine; the compilers installed here (g++ 13, clang++ 18)",
    "the deployment limits are reduced (see checks.py) so that they are reached by short histories",
    "generated search: absence of a violation is evidence for the explored cases, not a proof",
]

_T = {"quick": 36, "thorough": 600}
_TH = {"quick": 20, "thorough": 400}  # cheap to explore: many cases per second
_PS_RULE = ("a case is a generated history (set-up of pools, publishers and subscribers with generated options, then up "
            "to 200 operations); non-trivial: at least 3 messages were published and at least 3 were received; "
            "distinct: different hash of the choices that were drawn")
_RPC_RULE = ("a case is a generated history over clients and servers; non-trivial: at least 3 requests reached a server "
             "and at least 2 responses reached a client; distinct: different hash of the choices that were drawn")


def _p(variant, harness, tests, weight=1.0, **kw):
    return dict(variant=variant, harness=harness, tests=tests.split(","), weight=weight, **kw)


_SC = "randomised schedule exploration of generated operation sequences against linearizability and conservation oracles"
_LF_RULE = ("a case is a set of short operation sequences, one per simulated thread, and a schedule (preemptions at every "
            "atomic operation and, in half of the cases, at every memory access); non-trivial: at least 4 operations took "
            "effect; distinct: different hash of the choices that were drawn")
_MB = "stateful property-based testing against a reference model, with shrinking"
CHECKS = {
    "S01": {
        "parts": [_p("sys", "pubsub", "delivery,bursts", 2), _p("sys", "pubsub", "full", 1),
                  _p("sched", "conc", "steady,join,toggle", 2)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "Generated histories over the real typed, untyped and C endpoints; every take, query and pool state is "
                "compared with a reference model. Trusts the model and the in-process environment.",
    },
    "S02": {
        "parts": [_p("sys", "pubsub", "history", 2), _p("sys", "pubsub", "full", 1), _p("sched", "conc", "join,toggle", 2)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "As S01 with generators biased to late joiners, re-subscription and history capacities around the queue "
                "capacity.",
    },
    "S03": {
        "parts": [_p("sys", "pubsub", "policies,bursts", 2), _p("sched", "conc", "blocking,blocking_toggle,steady", 2)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "As S01 with small queues and both policies; a publisher that has to wait runs in a thread of its own and is "
                "watched until room is made.",
    },
    "S04": {
        "parts": [_p("sys", "pubsub", "memory,limits", 2), _p("sys", "rpc", "rpc_memory", 1),
                  _p("sched", "conc", "scarce,toggle,rpc_toggle", 2)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "Every payload carries a pattern that is re-verified while it is held or loaned; new loans are checked for "
                "overlap with everything that is referenced.",
    },
    "S05": {
        "parts": [_p("sys", "pubsub", "memory,limits", 2), _p("sys", "rpc", "rpc_memory", 1),
                  _p("sched", "conc", "scarce,toggle,rpc_toggle", 2)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "The pools' use counts are compared with what the model says is referenced, after operations and at the end.",
    },
    "S07": {
        "parts": [_p("sys", "rpc", "rpc,rpc_bursts,rpc_many", 3), _p("sys", "rpc", "rpc_full", 1),
                  _p("sched", "conc", "rpc_steady,rpc_join,rpc_toggle,rpc_blocking,rpc_blocking_toggle", 3)],
        "time": _T, "level": "exploration", "rule": _RPC_RULE, "technique": _MB,
        "note": "Generated histories over the real typed, untyped and C clients and servers against a reference model.",
    },
    "S08": {
        "parts": [_p("sys", "discovery", "registry,discovery,discovery_full", 1)],
        "time": _T, "level": "exploration", "rule": "a case is a generated history of creating, offering, stopping, destroying and "
        "losing publishers and servers, with discovery runs and queries (or of registry calls); non-trivial: at least 3 offered "
        "services were found (or 3 registry changes made); distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Every query result, through C++ and C, with all kinds of wildcards, is compared with the set of endpoints that offer; "
                "registry-changed events are compared with changes of that set.",
    },
    "S09": {
        "parts": [_p("sched", "events", "waitset,waitset_conc,listener,listener_own", 6), _p("sys", "interrupts", "interrupted_waits", 1)],
        "time": _T, "level": "exploration", "rule": "a case is either a generated history of attach/detach/trigger/consume/wait "
        "operations (non-trivial: at least two reports) or a set of triggering, attaching and waiting threads with a generated "
        "schedule (non-trivial: something was triggered and waited for, or detached); distinct: different hash of the choices drawn",
        "technique": _MB + "; " + _SC,
        "note": "Sequential histories against a model of attachments and pending events; concurrent runs under a controlled scheduler "
                "that reports missing, late, spurious and too late reports and calls. Sequential consistency is assumed.",
    },
    "S10": {
        "parts": [_p("sys", "pubsub", "crash", 2), _p("sys", "rpc", "rpc_crash", 1), _p("sys", "roudi", "monitoring", 1, jobs=32)],
        "time": _T, "level": "fault_enumeration", "rule": _PS_RULE, "technique": "stateful property-based testing with injected "
        "application deaths against a reference model",
        "note": "Applications disappear between operations without running any destructor; RouDi's clean-up is then compared "
                "with the model.",
    },
    "S11": {
        "parts": [_p("asan", "roudi", "messages", 4), _p("asan", "roudi", "limits", 2), _p("asan", "roudi", "processes", 1)],
        "time": _T, "level": "exploration",
        "rule": "a case is a sequence of generated, partly mutated, requests from several applications to a complete RouDi; non-trivial: at least 3 answers arrived and at least one message was refused; "
        "distinct: different hash of the choices that were drawn",
        "technique": "model-based generation and mutation fuzzing of the daemon's messages, with shrinking",
        "note": "Answers, the daemon's inventory of ports and the service to an uninvolved application are compared with a model after every few messages; sanitizers observe RouDi.",
    },
    "S12": {
        "parts": [_p("asan", "roudi", "runtimes", 2), _p("asan", "roudi", "limits", 2), _p("asan", "roudi", "processes", 2)],
        "time": {"quick": 30, "thorough": 600}, "level": "exploration",
        "rule": "a case is a history of creations and destructions by several applications around the limits; non-trivial: at least 5 were granted and at least one was refused; "
        "distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Granted or refused is compared with exact counts, through the application runtime and through raw requests.",
    },
    "S13": {
        "parts": [_p("sched", "lockfree", "mpmc,resize,fifo,sofi,variant_queue", 1)],
        "time": _T, "level": "exploration", "rule": _LF_RULE, "technique": _SC,
        "note": "The recorded history of every run is checked for linearizability against a sequential queue. Sequential "
                "consistency is assumed: missing fences that only matter on weaker hardware are not seen.",
    },
    "S14": {
        "parts": [_p("sched", "lockfree", "free_list,mempool,refcount", 1)],
        "time": _T, "level": "exploration", "rule": _LF_RULE, "technique": _SC,
        "note": "Every index or chunk handed out is checked against the set of those that are out; at the end everything can be "
                "allocated again exactly once. Sequential consistency is assumed.",
    },
    "S16": {
        "parts": [_p("asan", "containers", "vector,list,forward_list,fixed_position,stack", 1)],
        "time": _TH, "level": "exploration", "rule": "a case is a generated sequence of operations on two containers of a generated element "
        "type and capacity; non-trivial: at least 3 elements were added or removed; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Compared with standard containers after every operation; element lifetimes are tracked; built with the address and "
                "undefined-behaviour sanitizers; misuse runs in a child process that has to end.",
    },
    "S17": {
        "parts": [_p("asan", "strings", "string", 1)],
        "time": _TH, "level": "exploration", "rule": "a case is a generated sequence of operations on iox::strings of several capacities with arbitrary bytes; "
        "non-trivial: at least 3 operations were checked; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Every operation is compared with std::string cut to the documented capacity rules; built with the address and undefined-behaviour sanitizers.",
    },
    "S18": {
        "parts": [_p("asan", "vocab", "optional,variant,expected,function,owners,span", 1)],
        "time": _TH, "level": "exploration", "rule": "a case is a generated sequence of operations on two or three objects of a vocabulary type with "
        "lifetime-tracked contents; non-trivial: at least 3 operations changed the state; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Value, emptiness and the lifetime of every contained object are compared with a model after every operation; built with the address and undefined-behaviour sanitizers.",
    },
    "S19": {
        "parts": [_p("asan", "vocab", "duration", 1)],
        "time": {"quick": 15, "thorough": 300}, "level": "exploration", "rule": "a case is a set of durations and factors with values near all limits; non-trivial: a "
        "non-zero duration was combined; distinct: different hash of the choices that were drawn",
        "technique": "property-based testing against exact 128-bit arithmetic",
        "note": "Results are compared with exact arithmetic and saturation; floating-point factors with a relative tolerance. Built with the undefined-behaviour sanitizer.",
    },
    "S20": {
        "parts": [_p("asan", "strings", "convert", 1)],
        "time": {"quick": 15, "thorough": 300}, "level": "exploration", "rule": "a case is a generated number or text near valid numbers; non-trivial: a conversion was compared; "
        "distinct: different hash of the choices that were drawn",
        "technique": "property-based testing: round-trip and differential against an independent parser",
        "note": "Acceptance, value and rejection are compared with an independently written parser over exact arithmetic for every supported type.",
    },
    "S21": {
        "parts": [_p("asan", "strings", "names", 1)],
        "time": _TH, "level": "exploration", "rule": "a case is a set of generated texts near the grammar of a name type and a sequence of modifications; non-trivial: a creation or "
        "modification was judged; distinct: different hash of the choices that were drawn",
        "technique": "property-based testing against an independent recogniser of the documented grammar",
        "note": "Acceptance of every text and modification is compared with an independent recogniser; one recorded finding about insert and append.",
    },
    "S06": {
        "parts": [_p("asan", "mem", "layout,pools,bump", 1)],
        "time": {"quick": 30, "thorough": 600}, "level": "exploration",
        "rule": "a case is a generated chunk setting (payload size and alignment, user header size and alignment, chunk size), a generated pool configuration with a history of "
        "chunk requests and releases, or a sequence of bump allocations; non-trivial: a chunk was laid out, requested or granted; distinct: different hash of the choices that were drawn",
        "technique": "property-based testing: invariants of the layout over exact arithmetic and a reference model of the pools",
        "note": "Regions are computed with unlimited arithmetic and must lie inside the chunk, be aligned and not overlap; pool choice and usage are compared with a model; sanitizers observe all accesses.",
    },
    "S22": {
        "parts": [_p("asan", "mem", "wire,ipc_message", 1)],
        "time": _TH, "level": "exploration",
        "rule": "a case is a list of generated values encoded and decoded, or a generated or mutated text that is decoded; non-trivial: at least one entry was decoded or refused by rule; "
        "distinct: different hash of the choices that were drawn",
        "technique": "property-based testing: round-trip and differential against an independently written decoder",
        "note": "Encoded values must come back; corrupted texts must be refused or decoded exactly as the independent decoder does.",
    },
    "S24": {
        "parts": [_p("asan", "mem", "relptr,relptr_data,relocatable", 1)],
        "time": _TH, "level": "exploration",
        "rule": "a case is a history of segment registrations and pointer operations, with segments mapped at two addresses; non-trivial: a pointer was dereferenced or compared; "
        "distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Every pointer is compared with a model (segment, offset); the same memory is mapped at different addresses and copied elsewhere to judge relocatability.",
    },
    "S26": {
        "parts": [_p("sys", "pubsub", "cbinding", 3), _p("sys", "rpc", "rpc_c", 2), _p("sys", "c_api", "c_waitset,c_listener,c_headers,c_options", 4)],
        "time": _T, "level": "exploration", "rule": _PS_RULE, "technique": _MB,
        "note": "The histories of S01 and S07 driven through the C API, mixed with C++ endpoints on the other side; histories of wait sets, listeners and user triggers of all kinds of origins against a model; chunk, "
        "request and response headers and every option compared with what the C++ side sees.",
    },
    "S25": {
        "parts": [_p("asan", "config", "definition,structs,roudi_args,toml,gateway", 1)],
        "time": _TH, "level": "exploration",
        "rule": "a case is a generated option set with argument vectors, an argument vector for RouDi, or a generated configuration file, valid or with generated mistakes; non-trivial: "
        "it was accepted and its values compared; distinct: different hash of the choices that were drawn",
        "technique": "property-based testing against independently written rules of the command line and the configuration file",
        "note": "Acceptance, every value, default and kind of error are compared; mutated files must neither crash nor terminate. Two recorded findings about the config file option.",
    },
    "S27": {
        "parts": [_p("sys", "introspection", "introspection", 1, jobs=32)],
        "time": _T, "level": "exploration",
        "rule": "a case is a history of registrations, creations, offers, subscriptions, loans and disappearances in a complete RouDi, with introspection samples read in between; "
        "non-trivial: several samples of each topic were compared; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Every introspection sample that was published after the system came to rest is compared with the model of what exists. Periodic tasks run faster than in production.",
    },
    "S28": {
        "parts": [_p("sys", "access", "segments", 3), _p("sys", "access", "identities,acl,ownership", 1)],
        "time": _T, "level": "exploration",
        "rule": "a case is a generated user database and segment configuration probed by processes with these identities, or a sequence of user, group, ACL or ownership operations; "
        "non-trivial: at least one right was granted and one denied (or 3 answers compared); distinct: different hash of the choices that were drawn",
        "technique": "property-based testing: the kernel's verdict for forked processes with generated identities, and the segment mapping, against a model of the configured rights",
        "note": "Access is tried for real by unprivileged children; users and groups come from a generated database.",
    },
    "S15": {
        "parts": [_p("asan", "gateway", "mem_blocks", 1)],
        "time": _TH, "level": "exploration",
        "rule": "a case is a set of memory providers (of the harness or POSIX shared memory) with generated blocks and a history of creating, announcing and destroying their memory, with injected failures; "
        "non-trivial: memory was created and announced at least once; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Every block is filled by the harness and must lie aligned and disjoint inside the memory and keep its content; guard bytes around the memory; sanitizers on.",
    },
    "S30": {
        "parts": [_p("asan", "gateway", "gw_channels,gw_messages,gw_loop", 1)],
        "time": _TH, "level": "exploration",
        "rule": "a case is a history of channels of one or two gateways up to the limit, of publishers and servers that appear, change and disappear while gateways join, leave and poll, or of a running gateway; "
        "non-trivial: at least 3 channels, 2 messages or one comparison of a running gateway; distinct: different hash of the choices that were drawn",
        "technique": _MB,
        "note": "Channels, terminals and their lifetimes against a map; the received messages must add up to what changed; a running gateway must get to exactly the existing services.",
    },
    "S23": {
        "parts": [_p("asan", "ipc", "uds,pipe,mq,uds_threads,shm,file,lock", 3), _p("sched", "sync", "lock_conc,pipe_conc", 1)],
        "time": _T, "level": "exploration",
        "rule": "a case is a history of operations on channels, shared memory objects, files or locks with generated names, sizes, open modes and messages, or a set of processes "
        "with a generated schedule and deaths; non-trivial: at least two messages, grants or accesses were compared; distinct: different hash of the choices that were drawn",
        "technique": _MB + "; " + _SC,
        "note": "The real operating system objects against a model of what each name refers to and what was sent or written; locks and pipes also under the controlled scheduler. Sanitizers on.",
    },
    "S29": {
        "parts": [_p("asan", "locks", "mutex_hist,unnamed_hist,spin_sem_hist,named_hist,deadline,periodic,threads,signal_guards,termination", 2),
                  _p("sched", "sync", "spin_lock_conc,spin_sem_conc,smart_lock_conc", 1)],
        "time": _T, "level": "exploration",
        "rule": "a case is a history of operations of threads and processes on one lock, semaphore, timer, task or signal (with deaths of owners and signals during waits), or a set of threads with "
        "a generated schedule; non-trivial: somebody waited, was refused or died; distinct: different hash of the choices that were drawn",
        "technique": _MB + "; " + _SC,
        "note": "Ownership and counters are modelled exactly; an operation that has to block must block until the model allows it to return. Spin and smart locks also under the controlled scheduler.",
    },
}
