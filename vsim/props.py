"""What each property's simulators are built from and how many runs each tier makes."""

def b(name, flavor, sources, quick, thorough, **kw):
    d = dict(name=name, flavor=flavor, sources=sources, quick=quick, thorough=thorough); d.update(kw); return d

PROPS = {}

PROPS["C01"] = dict(
    builds=[
        b("plain", "P", ["c01.cpp"], [("delivery", 1000000), ("bulk", 40000), ("vanish", 200000)], [("delivery", 40000000), ("bulk", 2000000), ("vanish", 4000000)]),
        b("asan", "A", ["c01.cpp"], [("delivery", 60000), ("bulk", 1500)], [("delivery", 2000000), ("bulk", 60000)]),
        b("fast", "P3", ["c01.cpp"], [("longhaul29", 29, 3), ("longhaul32", 19, 1)], [("longhaul29", 87, 8), ("longhaul32", 116, 8)]),
    ],
    rule="Each run opens 1-4 sessions (all 29 algorithms stratified over the runs, random seeds/keys), sends their messages through a simulated lossy, duplicating, reordering transport and drains them through a reader with short and interrupted reads, buffer reuse, checkpoints and crash/restart; bulk runs deliver pieces of up to a megabyte; vanish runs pass pieces of 2^13 to 2^41 bytes whose pages are gone behind the first, which a call has to find out; long-haul runs push 2^29 and 2^32 bytes.",
    states="(algorithm, pending bytes mod block, size of the update)",
    real=["all hash algorithms and HMAC (headers of /repo/include)"],
    stub=["network transport, reader, session host and its stable storage (simulator)", "expected digests: reference implementation ref.cpp; long-haul prefixes: states of the reference computed once (longhaul.txt)"],
    assumptions=["x86-64, little-endian", "reference implementations agree with hashlib (checked by setup)"])
PROPS["C01"]["note"] = "Seeded search over delivery schedules and faults against an independent reference; sampled, not exhaustive. Trusts the reference implementation (checked against hashlib) and the compilers."

PROPS["C02"] = dict(
    builds=[
        b("plain", "P", ["c02.cpp"], [("lifecycle", 1500000), ("sequence", 400000)], [("lifecycle", 60000000), ("sequence", 10000000)]),
        b("asan", "A", ["c02.cpp"], [("lifecycle", 80000), ("sequence", 20000)], [("lifecycle", 2000000), ("sequence", 400000)]),
    ],
    rule="Each run keeps a pool of 2-5 hash objects and two saved copies (stable storage) and applies 4-43 seeded operations (construct three equivalent ways or seeded, update, result, assign, self-assign, copy, move, swap, save, host crash and restore into memory with arbitrary content, abandoned twins); every result is compared with the reference state machine of the same history. A second scenario reads long output sequences with crashes between elements.",
    states="(algorithm, number of results so far, pending bytes mod block)",
    real=["all hash algorithms and HMAC (headers of /repo/include)"],
    stub=["the host, its memory and its stable storage (simulator)", "expected results: reference implementation ref.cpp"],
    assumptions=["x86-64, little-endian"],
    note="Seeded search over histories with crashes and restores against an independent state machine; sampled, not exhaustive.")

PROPS["C03"] = dict(
    builds=[
        b("plain", "P", ["c03.cpp"], [("channel", 1200000), ("keyspace", 1500000)], [("channel", 40000000), ("keyspace", 40000000)]),
        b("asan", "A", ["c03.cpp"], [("channel", 30000), ("keyspace", 60000)], [("channel", 800000), ("keyspace", 1500000)]),
    ],
    rule="Each run is a sender and a verifier sharing 2-3 key epochs (often close relatives of each other) over a channel that loses, duplicates, reorders, flips, cuts, extends, splices, permutes and re-keys messages until it heals; every accept/reject decision is compared with the ground truth and the reference, and every message must be accepted within a bounded number of steps after the heal. A second scenario compares a key with single-bit, truncated, extended, reversed and hashed relatives.",
    states="(algorithm, message length, fault kind of the delivered packet) and (algorithm, key length, key relation)",
    real=["HMAC, siphash and every seeded algorithm (headers of /repo/include)"],
    stub=["channel, clocks and both ends' message loops (simulator)", "expected tags: reference implementation ref.cpp"],
    assumptions=["x86-64, little-endian", "no accidental collision of tags of 128 bits or more within the runs"],
    note="Seeded search over channel faults and key relations, ground truth plus independent reference; sampled, not exhaustive.")

TYPES = ["types_a.cpp", "types_b.cpp", "types_c.cpp"]

PROPS["C05"] = dict(
    builds=[
        b("plain", "P", ["c05.cpp"] + TYPES, [("values", 2000000), ("ranges", 600000), ("sizes", 100000), ("replog", 150000), ("large", 6000)], [("values", 80000000), ("ranges", 20000000), ("sizes", 2000000), ("replog", 8000000), ("large", 300000)]),
        b("asan", "A", ["c05.cpp"] + TYPES, [("values", 60000), ("ranges", 30000), ("sizes", 10000), ("replog", 6000), ("large", 300)], [("values", 2000000), ("ranges", 600000), ("sizes", 100000), ("replog", 200000), ("large", 12000)]),
        b("big", "P3", ["c05big.cpp"], [("bigrange", 9, 1)], [("bigrange", 180, 9)]),
    ],
    rule="values: a value of one of the registered types is generated and rebuilt on 1-3 replicas through other operation histories (insertion order, junk inserted and erased, capacity, bucket count and hasher seed, dirty memory and padding, either zero), in other floating-point environments; every message and digest is compared with an independent peer that encodes the model of the value. ranges, sizes: the range and size functions over iterators of every category. replog: replicas with different container types apply one replicated log over a lossy, duplicating, reordering network with crashes and restarts from snapshots; digests are checked at every stage. bigrange: ranges beyond 2^31 and 2^32 elements and bytes.",
    states="(value type, number of leaves, low byte of the model's hash) and (replica kind, sequence length, map size, flavor)",
    real=["hash_append and all of its dispatch, flavors, detail/write.hpp, get_integral_result, all hash algorithms (headers of /repo/include)", "containers of libstdc++, boost::container, boost::unordered"],
    stub=["network, log, snapshots, floating-point environment (simulator)", "expected messages: value models and encoder in values.hpp; expected digests: ref.cpp", "bigrange: counting hash algorithm supplied as a user-defined algorithm"],
    assumptions=["x86-64, little-endian; run-time evaluation on big-endian hosts is not simulated"],
    note="Seeded search over values, operation histories, replication faults and rounding modes against an independent encoder; sampled, not exhaustive.")

PROPS["C06"] = dict(
    builds=[
        b("plain", "P", ["c06.cpp"] + TYPES, [("scrub", 1500000), ("pool", 600000), ("boundary", 3000000), ("masses", 60000), ("needle", 8000)], [("scrub", 60000000), ("pool", 20000000), ("boundary", 80000000), ("masses", 3000000), ("needle", 400000)]),
        b("asan", "A", ["c06.cpp"] + TYPES, [("scrub", 50000), ("pool", 20000), ("boundary", 60000), ("masses", 1500), ("needle", 300)], [("scrub", 1000000), ("pool", 400000), ("boundary", 1000000), ("masses", 40000), ("needle", 12000)]),
    ],
    rule="scrub: replicas of a value are corrupted (loss, duplication, reordering, bit flips, moved elements) and a scrubber compares messages and digests with the primary and with each other, repairs and promotes. pool: chains of corrupted values of one type; no two different ones may share a message or digest. boundary: one flat content, made of elements that look like encoded sizes, is cut into neighbouring containers at two different places.",
    states="(value type, number of leaves, corrupted or not, flavor) and (container, elements, groups, outer form and flavor)",
    real=["hash_append and all of its dispatch, flavors, get_integral_result, all hash algorithms (headers of /repo/include)"],
    stub=["replica corruption and the scrubber (simulator)", "equality of values: models in values.hpp; excuses for genuine collisions of weak algorithms: ref.cpp"],
    assumptions=["no accidental collision of 64-bit or wider results of the strong algorithms within the runs"],
    note="Seeded search over corruptions and regroupings; sampled, not exhaustive. A collision is excused only when the reference peer shows that the algorithm itself collides.")

PROPS["C07"] = dict(
    builds=[
        b("plain", "P", ["c07.cpp"], [("retry", 1200000)], [("retry", 70000000)]),
        b("asan", "A", ["c07.cpp"], [("retry", 20000)], [("retry", 2000000)]),
    ],
    rule="Each run appends 1-3 values of 28 instrumented kinds (sized, contiguous, fixed, unordered, nested, tuple-like, described, tag_invoke; standard containers of failing elements) to one session; any of 16 kinds of fault point (iterator copy, comparison, increment, dereference, begin/end, data/size, element copy, tag_invoke at three points, get, hash copy, hash update before and after absorbing, hash result, allocation) throws one of four exception types at a seeded position; the append is then retried from the copy saved before it.",
    states="(value kind, fault kind, exception type, position of the fault)",
    real=["hash_append and all of its dispatch, flavors, get_integral_result; the hash algorithms behind the failing wrapper (headers of /repo/include)"],
    stub=["iterators, containers, elements, hash wrapper and allocator that fail on command (simulator)", "expected messages and digests: values.hpp encoder and ref.cpp"],
    assumptions=["one failure per call; retries fail again at other points"],
    note="Seeded search over fault points and retries; sampled, not exhaustive.")

PROPS["C08"] = dict(
    builds=[
        b("plain", "P", ["c08.cpp"], [("residue", 2000000)], [("residue", 80000000)]),
        b("O0", "P0", ["c08.cpp"], [("residue", 100000)], [("residue", 3000000)]),
        b("clang", "PC", ["c08.cpp"], [("residue", 500000)], [("residue", 20000000)]),
    ],
    rule="One seeded history (construction default, seeded or keyed; updates in arbitrary pieces; several results; migrations by copy) runs on nine machines whose secrets differ in every byte; at crash points between operations the object representation of all nine is captured. A byte is plaintext when it equals the same secret byte on all nine machines.",
    states="(algorithm, pending bytes mod block, finished or not, number of secrets)",
    real=["all documented hash algorithms and HMAC (headers of /repo/include), at three optimisation settings"],
    stub=["machines, power loss and memory capture (simulator)"],
    assumptions=["only the object itself is captured, not stack or registers; legacy algorithms, whose seeds are their initial state, are outside the property"],
    note="Seeded search over histories and crash points with a differential oracle that cannot mistake coincidences for plaintext; sampled, not exhaustive.")

PROPS["C10"] = dict(
    builds=[
        b("plain", "P", ["c10.cpp"], [("buffers", 1000000), ("memory", 400000), ("journal", 1500000), ("compare", 1000000)], [("buffers", 40000000), ("memory", 10000000), ("journal", 80000000), ("compare", 40000000)]),
        b("asan", "A", ["c10.cpp"], [("buffers", 60000), ("memory", 20000), ("journal", 80000), ("compare", 40000)], [("buffers", 2000000), ("memory", 400000), ("journal", 2000000), ("compare", 1000000)]),
    ],
    rule="buffers: to_chars into ranges of every size that end at an inaccessible page or between canaries. memory: to_string with the n-th allocation failing. journal: digests and other text are inserted into streams with seeded width, fill, alignment, flags, exception masks and states over stream buffers that accept short writes, fill up, fail, throw or run into flow control, next to a twin stream that receives the expected string; texts, states, exceptions and remaining width must be the same after every operation. compare: digests that differ in nothing, one bit, or one byte.",
    states="(digest size, range size class) and (digest size, width class, stream buffer fault, stream state)",
    real=["digest, to_chars, to_string, operator<<, comparison (headers of /repo/include)", "libstdc++ iostreams"],
    stub=["stream buffers, allocator failures, memory around the output range (simulator)", "expected text: independent hexadecimal formatter"],
    assumptions=["stream combinations on which libstdc++ itself terminates (unitbuf with an exception mask) are left out"],
    note="Seeded search over ranges, stream states and buffer faults against a twin stream; sampled, not exhaustive.")

TOOLSEAMS = ["fopen=vsim_fopen", "fopen64=vsim_fopen64", "exit=vsim_exit"]
TOOLS = [("example/md5sum.cpp", "md5sum", TOOLSEAMS), ("example/hash2sum.cpp", "hash2sum", TOOLSEAMS)]

PROPS["C11"] = dict(
    builds=[
        b("plain", "P", ["c11.cpp"], [("shell", 250000), ("usage", 50000)], [("shell", 20000000), ("usage", 1000000)], tools=TOOLS),
        b("asan", "A", ["c11.cpp"], [("shell", 12000), ("usage", 3000)], [("shell", 1000000), ("usage", 100000)], tools=TOOLS),
        b("fast", "P3", ["c11.cpp"], [("huge29", 22, 1), ("huge32", 11, 1)], [("huge29", 88, 11), ("huge32", 88, 1)], tools=TOOLS),
    ],
    rule="shell: one or two invocations of md5sum or hash2sum (all ten algorithms) over up to 38 operands; files of 0 to 70000 bytes with odd names are opened with every stdio buffering mode and read with short reads; opens fail, reads fail at any offset for good or once, files grow after end of file, descriptors run out, names are missing or repeated. usage: wrong or damaged algorithm names. huge: files of more than 2^29 and 2^32 bytes.",
    states="(algorithm, number of operands, number of failing operands, read style)",
    real=["example/md5sum.cpp and example/hash2sum.cpp, unchanged (main, fopen and exit are renamed in their object files)", "hash algorithms and digest", "glibc stdio"],
    stub=["files, descriptors, read and open errors, standard output and error (simulator, through fopencookie)", "expected digests: ref.cpp"],
    assumptions=["a read interrupted once (EINTR) may be retried or reported, both are accepted"],
    note="Seeded search over file contents, read sizes and I/O failures against an independent reference; sampled, not exhaustive.")

C13 = ["c13.cpp", "c13a.cpp", "c13b.cpp", "c13c.cpp", "c13d.cpp"]
PROPS["C13"] = dict(
    builds=[
        b("plain", "P", C13, [("tables", 250000)], [("tables", 10000000)]),
        b("asan", "A", C13, [("tables", 15000)], [("tables", 500000)]),
    ],
    rule="Each run is one service of 35 (key type, table type, algorithm, hasher form) combinations: 5 to 44 operations (insert four ways, erase, find, rehash, copy, swap, clear, re-seeding, purity probes) with the n-th allocation failing, power loss with a partly lost log and restart under a new seed; keys are rebuilt through other histories (either zero, other capacity, other bucket layout, dirty padding) before each use. Every answer is compared with a std::map over canonical models of the keys and every hash value with the reference.",
    states="(service, algorithm, number of entries, kind of seed)",
    real=["hash_append, get_integral_result, the hash algorithms (headers of /repo/include)", "std::unordered_map, boost::unordered_map, unordered_flat_map, unordered_node_map"],
    stub=["allocator, log, power loss (simulator)", "key models and expected hash values: values.hpp and ref.cpp"],
    assumptions=["x86-64: std::size_t has 64 bits"],
    note="Seeded search over operation histories with allocation failures and restarts against a sequential map; sampled, not exhaustive.")

PROPS["C14"] = dict(
    builds=[
        b("plain", "P", ["c14.cpp"], [("store", 400000)], [("store", 20000000)]),
        b("unsigned-char", "P", ["c14.cpp"], [("store", 60000)], [("store", 2000000)], defs=["-funsigned-char"]),
        b("ubsan", "U", ["c14.cpp"], [("store", 40000)], [("store", 1000000)]),
    ],
    rule="Each run is a store sharded by get_integral_result for one of 15 result types (8- to 64-bit integers, digests, byte arrays) and 14 target types: 2-4 routers put and get up to 1024 keys whose results are random, come from a real algorithm, or are consecutive or strided; requests are duplicated, routers crash and forget, the store is re-sharded to other target types with crashes in the middle of the migration. Every entry must be in the shard that any router computes at any time; target types of equal width must agree; digests give their low-order bytes; a target that can hold the whole result keeps different results apart; with many keys, every bit of the target varies, every bit of an integral result matters for some key, and both ends of the target are spread.",
    states="(result type, target type, population, number of re-shardings and keys)",
    real=["get_integral_result; all hash algorithms as sources of results (headers of /repo/include)"],
    stub=["routers, shards, journal, migrations (simulator)"],
    assumptions=["x86-64 integer widths", "statistical quality beyond these conditions is C16"],
    note="Seeded search over populations, types and histories; sampled, not exhaustive.")

PROPS["C15"] = dict(
    builds=[
        b("plain", "P", ["c15.cpp"], [("replicas", 400000)], [("replicas", 20000000)]),
        b("clang-c++20", "C", ["c15.cpp"], [("replicas", 150000)], [("replicas", 5000000)], defs=["-std=c++20"]),
    ],
    rule="Each run has one of some 800 types (47 leaves: integers, characters, enumerations, pointers, floating point, classes with and without padding and with equality of their own, described classes, classes for which the program specialised the traits; alone and in 19 kinds of array, tuple, range and container, with declared, undeclared and denied constant size) and a writer and a replica that exchange values over a network that loses, duplicates and reorders; the replica restarts and rebuilds its objects in memory with other dirt. Nodes take every shortcut the traits allow: memcmp for equality, the image instead of the message, no byte swapping, no size. Each shortcut must agree with the model of the value and with the documented message under three flavors; specialisations of the program must take effect, and const types must be classified alike.",
    states="(type, number of elements, size of the value domain)",
    real=["is_trivially_equality_comparable, is_endian_independent, is_contiguously_hashable, has_constant_size, hash_append (headers of /repo/include)"],
    stub=["nodes, network, restarts, memory (simulator)", "documented messages: models in c15.cpp", "a hash algorithm that records its message"],
    assumptions=["x86-64, little-endian host", "the types of the zoo stand for all types"],
    note="Seeded search over types, values and histories; sampled, not exhaustive. A type whose classification breaks compilation is a broken build, not a verdict.")

PROPS["C09"] = dict(
    builds=[b("plain", "P", ["c09.cpp"], [("fleet", 500000), ("constants", 40000), ("native_order", 60000), ("haul32", 12, 1)], [("fleet", 25000000), ("constants", 250000), ("native_order", 2000000), ("haul32", 520, 1)], link=["-ldl"])],
    prepare="fleet",
    nodes=[
        ("gcc-c++11-O0", "g++ -std=c++11 -O0"), ("gcc-c++14-O2-unsigned-char", "g++ -std=c++14 -O2 -funsigned-char"), ("gcc-c++17-O3", "g++ -std=c++17 -O3"), ("gcc-c++20-Os", "g++ -std=c++20 -Os"),
        ("gcc-c++23-O2-portable", "g++ -std=c++23 -O2 -DVSIM_PORTABLE"), ("gcc-c++11-O3-portable-unsigned-char", "g++ -std=c++11 -O3 -DVSIM_PORTABLE -funsigned-char"),
        ("clang-c++11-O2-portable", "clang++ -std=c++11 -O2 -DVSIM_PORTABLE"), ("clang-c++14-O0-NDEBUG", "clang++ -std=c++14 -O0 -DNDEBUG"), ("clang-c++17-O3-unsigned-char", "clang++ -std=c++17 -O3 -funsigned-char"),
        ("clang-c++20-O1", "clang++ -std=c++20 -O1"), ("clang-c++23-O2-NDEBUG", "clang++ -std=c++23 -O2 -DNDEBUG"), ("gcc-c++17-O1-portable-fwrapv", "g++ -std=c++17 -O1 -DVSIM_PORTABLE -fwrapv -fno-strict-aliasing"),
    ],
    ct_nodes=[
        ("gcc-c++14-constant", "g++ -std=c++14 -O0"), ("gcc-c++17-constant", "g++ -std=c++17 -O0 -funsigned-char"), ("gcc-c++20-constant", "g++ -std=c++20 -O0"),
        ("clang-c++14-constant", "clang++ -std=c++14 -O0 -funsigned-char"), ("clang-c++17-constant", "clang++ -std=c++17 -O0"), ("clang-c++20-constant", "clang++ -std=c++20 -O0"),
    ],
    big_nodes=[("s390x-c++11-big-endian", "clang++ --target=s390x-linux-gnu -std=c++11"), ("s390x-c++20-big-endian", "clang++ --target=s390x-linux-gnu -std=c++20 -fsigned-char")],
    narrow_nodes=[("i386-c++17-32-bit", "clang++ --target=i386-linux-gnu -march=i686 -std=c++17 -O2"), ("i386-c++11-32-bit-sse2", "clang++ --target=i386-linux-gnu -march=pentium4 -mfpmath=sse -std=c++11 -O1 -funsigned-char")],
    foreign_nodes=[("s390x-64-bit-big-endian", "clang++ --target=s390x-linux-gnu -std=c++20"), ("i386-32-bit-little-endian", "clang++ --target=i386-linux-gnu -std=c++17"), ("powerpc-32-bit-big-endian", "clang++ --target=powerpc-linux-gnu -std=c++20")],
    rule="fleet: 2-4 replicas, each a node built in one of 12 ways (gcc and clang, C++11 to C++23, -O0 to -O3, signed and unsigned char, with and without the compiler builtins), execute a growing log of seeded operations (29 algorithms, three kinds of seed, both update overloads, results, text, integral results of 14 types, hash_append and the range functions of 58 types in four flavors); replicas miss messages, receive them twice, and are upgraded to another build in the middle and replay the log. Two of the nodes are simulated big-endian machines (clang's s390x code with every access to memory byte-reversed) and two are 32-bit processes (i386 code that runs on this host). haul32: a 64-bit and a 32-bit node hash the same stream whose length passes 2^32 bytes. constants: seeded programs are evaluated by two compilers in three language standards, and for three foreign targets (64- and 32-bit big-endian, 32-bit little-endian), at compile time and executed by the run-time nodes. native_order: the default flavor is the flavor of the node's byte order. All answers must be identical; plain digests are compared with the reference too.",
    states="(build, algorithm, operation, value type and flavor) and (program, number of constant evaluations)",
    real=["all hash algorithms, hash_append, get_integral_result, digest output (headers of /repo/include), 12 run-time builds, 2 big-endian and 2 32-bit run-time builds, 6 compile-time evaluations and 3 for foreign targets"],
    stub=["network, upgrades (simulator)", "VSIM_PORTABLE nodes undefine the two builtin macros after detail/config.hpp, standing for compilers without them", "big-endian memory: bigend.py reverses every scalar of clang's s390x IR on its way to and from memory; pointers keep the host's order, streams and legacy algorithms are left out there", "C library of the 32-bit processes: a few memory functions and two system calls in c09_node.cpp (there is no 32-bit C library here)"],
    assumptions=["no MSVC; 32-bit big-endian targets only as far as clang evaluates constant expressions for them"],
    note="Seeded search over programs, builds and upgrades; sampled, not exhaustive. A value that all builds get wrong in the same way is the business of C01 and C05.")

WRAP = ["-Wl," + ",".join("--wrap=" + w for w in "memcmp bcmp strlen pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once".split())]
VTF = dict(core=["core.cpp", "ref.cpp", "vt.cpp", "sched.cpp", "fiber.cpp"], core_flavor="C", link=WRAP)
VT = dict(core=["core.cpp", "ref.cpp", "vt.cpp", "sched.cpp"], core_flavor="C", link=WRAP)

PROPS["C04"] = dict(
    builds=[
        b("O1", "T", ["c04.cpp"] + TYPES, [("threads", 60000)], [("threads", 4000000)], **VT),
        b("O0", "T0", ["c04.cpp"] + TYPES, [("threads", 6000)], [("threads", 400000)], **VT),
    ],
    rule="Each run is a fresh process with 2-4 threads that execute seeded programs (construct with and without seeds and keys, update from shared and own buffers, results, copies of shared const hashers, hash_append of shared const and own values of every registered type, digest text, streams, comparisons, integral results, look-ups in shared const tables keyed through the library). Real threads pass a baton: every load, store, atomic operation and lock of the instrumented library and program is a point at which the scheduler may switch; schedules are random with five densities, priority-based with one to four preemptions, a single preemption anywhere in the first thread, or directed at memory that the threads' solo runs show to be in conflict. Vector clocks over every access report unordered conflicting accesses; every thread's results are compared with those of a process in which it ran alone.",
    states="(algorithm, number of threads and preemptions, first operations)",
    real=["all hash algorithms, hash_append, digest, get_integral_result (headers of /repo/include), compiled with the compiler's thread instrumentation", "libstdc++, boost containers (inline parts instrumented too)"],
    stub=["thread scheduling, mutexes, once flags, guards of function-local statics, memory allocation (simulator run-time library vt.cpp, sched.cpp)"],
    assumptions=["interleavings are sequentially consistent; executions that differ only through weak memory order are covered by the race detection, not executed", "accesses inside precompiled libstdc++ and libc code are not seen, except memcmp and strlen"],
    note="Seeded search over interleavings at memory-access granularity with happens-before race detection; sampled, not exhaustive.")

PROPS["C17"] = dict(
    builds=[
        b("O1", "T", ["c17.cpp"] + TYPES, [("fibers", 60000)], [("fibers", 4000000)], **VTF),
        b("O0", "T0", ["c17.cpp"] + TYPES, [("fibers", 6000)], [("fibers", 400000)], **VTF),
    ],
    rule="Each run is a fresh process with 2-5 seeded programs (as for C04) on one thread. At seeded loads, stores, atomic operations or locks of the instrumented library and program the running program is left: either another one runs to completion in between, as a signal handler or a user callback would, possibly interrupted itself, or the programs are fibers that are switched in any order; some are abandoned in the middle and never continued. Interruption points are random with four densities, one to four points anywhere, or directed at memory that several programs use when they run alone. Every program's results must equal those of a process in which it ran alone and undisturbed; abandoned programs, and one finished one, are run again from the beginning afterwards. A lock or flag that the interrupted operation holds shows as a hang.",
    states="(algorithm, number of programs and switches, first operation, nesting depth)",
    real=["all hash algorithms, hash_append, digest, get_integral_result (headers of /repo/include), compiled with the compiler's thread instrumentation", "libstdc++, boost containers (inline parts instrumented too)"],
    stub=["interrupts and fiber switches (fiber.cpp), mutexes, guards of function-local statics, memory allocation (simulator run-time library vt.cpp)"],
    assumptions=["no interruption inside precompiled libstdc++ and libc code, or while a function-local static is being initialised"],
    note="Seeded search over interruption points at memory-access granularity; sampled, not exhaustive.")

PROPS["C12"] = dict(
    builds=[
        b("plain", "P", ["c12.cpp"] + TYPES, [("session", 800000), ("ranges", 500000), ("values", 200000), ("text", 500000)], [("session", 40000000), ("ranges", 20000000), ("values", 10000000), ("text", 10000000)], **VT),
        b("police", "T", ["c12.cpp"] + TYPES, [("session", 400000), ("ranges", 400000), ("values", 120000), ("text", 250000)], [("session", 10000000), ("ranges", 10000000), ("values", 5000000), ("text", 5000000)], defs=["-DC12_POLICE"], **VT),
        b("asan", "A", ["c12.cpp"] + TYPES, [("session", 150000), ("ranges", 80000), ("text", 60000)], [("session", 2000000), ("ranges", 1000000), ("text", 1000000)], core=["core.cpp", "ref.cpp", "vt_none.cpp"]),
        b("ubsan", "U", ["c12.cpp"] + TYPES, [("session", 150000), ("ranges", 80000), ("values", 40000), ("text", 60000)], [("session", 2000000), ("ranges", 1000000), ("values", 1000000), ("text", 1000000)], core=["core.cpp", "ref.cpp", "vt.cpp"], link=WRAP),
    ],
    rule="session: seeded histories on three objects, each on pages of its own that are accessible only to the calls that involve it (read-only when it is a const argument); sources of every length and alignment end or begin at inaccessible pages, are read-only during the call, and are overwritten and revoked when it returns; zero-length updates and seeds get null, dangling, misaligned and non-canonical pointers. ranges: arrays and the three range functions over 15 element types in such memory. values: values of every registered type, with all their heap storage read-only during hash_append and gone afterwards. text: digests and output ranges at page edges between canaries. In the police build the simulator sees each load and store of a call and compares it with what the call was granted: its object, its arguments, its own stack frames, memory it allocated, and the guarded first initialisation of constants. Digests are compared with the reference, so a remembered source shows too.",
    states="(algorithm, operation, length, alignment) and (element type, kind of range, length, flavor) and (value type, leaves, flavor)",
    real=["all hash algorithms, hash_append, digest, to_chars, to_string, comparison, get_integral_result (headers of /repo/include)"],
    stub=["memory: page protections, revocation, dirt (simulator), access instrumentation in the police build (vt.cpp)", "expected digests: ref.cpp and values.hpp"],
    assumptions=["reads of constants outside the regions of the simulator are allowed", "accesses inside precompiled libc code are seen through page protections, AddressSanitizer interceptors and the memcmp and strlen wrappers only"],
    note="Seeded search over histories, placements and revocations with access checks per load and store; sampled, not exhaustive.")

NA = {
    "C16": "a statistical statement about pure functions; simulation with fault injection does not decide it",
}
