import json
I="include/boost/hash2/"
ALG=[I+x for x in ("fnv1a.hpp","xxhash.hpp","siphash.hpp","md5.hpp","sha1.hpp","sha2.hpp","ripemd.hpp","hmac.hpp")]
LEG=[I+"legacy/murmur3.hpp",I+"legacy/spooky2.hpp"]
DET=[I+"detail/"+x for x in ("read.hpp","write.hpp","rot.hpp","memcpy.hpp","memset.hpp")]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Digests depend only on the byte stream, not on how it was delivered",
 "For every hash algorithm, every HMAC and every seed or key, the value returned by result() is the published algorithm's value for the concatenation of the bytes passed to update(). It does not depend on how the stream was cut into update() calls (zero-length updates with any pointer included), on which update overload carried each piece, on the alignment or later fate of the source buffers, on interleaving with other sessions, or on the session having been checkpointed by copy and resumed. This holds for every stream length, including streams and single updates longer than 2^29 and 2^32 bytes.",
 ["inputs","schedules","fault_sequences","histories"],
 "All algorithms x all seeds/keys x all byte streams x all delivery schedules (short reads, interrupted reads, duplicated and reordered segments before reassembly, buffer reuse, checkpoint/resume, interleaving of sessions).",
 "The tests feed a few fixed strings whole or in a handful of fixed splits; the defect space is the product of pending-byte count, chunk sizes, block boundaries, counters past 2^32 and resume points, which no fixed list reaches.",
 ALG+LEG+DET,
 [("pending block buffer flushed on exact fill","update() in every algorithm header"),("64-bit byte counter used for the length padding","result() of md5, sha1, sha2, ripemd"),("endian-explicit block reads","detail/read.hpp")],
 [("buffer_","pending bytes of the last partial block","every algorithm class"),("n_","bytes absorbed so far","every algorithm class")],
 ["value returned by result() of the session","equality of resumed and uninterrupted sessions"])

p("C02","Copies, restores and repeated results follow one state machine",
 "A hash object behaves as a deterministic state machine whose observable behaviour is a function only of how it was constructed and of the sequence of bytes and result() calls applied to it: default construction, seed 0 and the empty byte seed are equivalent, every result() finishes the current message and leaves the object ready to continue the same documented output sequence, and no two different histories are merged or confused. A copy (constructed, assigned, self-assigned, moved, swapped or restored from a saved copy into memory with arbitrary prior content) is indistinguishable from its original at the moment of copying. After that, operations on one object never influence any other object.",
 ["histories","crash_points","inputs"],
 "All interleaved histories of construct / update / result / copy / assign / move / swap / destroy / crash-and-restore over a pool of objects of every algorithm, with arbitrary prior memory content.",
 "Tests exercise result() at most a few times on fresh, uncopied objects; the interplay of pending bytes, result(), copying and continuing has unboundedly many histories.",
 ALG+LEG,
 [("result() absorbs the padding and keeps the state usable","result() in each algorithm header"),("constructors delegate to update()+result()","seed constructors"),("trivially copyable value state","all algorithm classes")],
 [("state words, buffer_, m_, n_","whole value of a hash object","every algorithm class")],
 ["each returned digest against a reference state machine with the same history"])

p("C03","Keyed and seeded hashes authenticate messages over a faulty channel",
 "With a shared key or seed, a verifier that recomputes a keyed digest accepts exactly the messages that were sent unmodified under the same key: any bit flip, truncation, extension, splice, block exchange, replay under another key, or single-bit change of a key or seed of any length changes the digest, except for equalities that the published algorithm itself implies. HMAC keys of every length (empty, shorter than, equal to and longer than a block) and seeds of every width take effect in all their bytes. Once the channel stops misbehaving, every retransmitted message is accepted.",
 ["fault_sequences","inputs","configurations"],
 "All keyed algorithms (HMAC over every digest, siphash with keys, every algorithm seeded by integer or bytes) x key lengths x messages x channel fault sequences.",
 "Tests check a few RFC vectors per HMAC with two or three key lengths; nothing perturbs single key or message bytes or mixes key epochs.",
 ALG,
 [("key padding / hashing of long keys","hmac::init"),("direct key for siphash of the exact key size, absorbed seed otherwise","siphash constructors"),("seed absorption","seed constructors of every algorithm")],
 [("outer_, inner_","the two halves of an HMAC session","hmac.hpp")],
 ["accept/reject decision of the verifier versus the channel's ground truth"])

p("C04","Distinct objects may be hashed on different threads at the same time",
 "Operations on distinct hash objects, digests and containers from different threads, and concurrent const operations on a shared value, never conflict: no data race exists inside the library and every thread obtains exactly the result it would have obtained running alone. This holds under every thread interleaving, including first use of any function and preemption in the middle of a block transform, of a seed construction or of a container traversal.",
 ["schedules"],
 "All interleavings, at memory-access granularity, of threads running independent sessions, appending shared const values, copying a shared seeded hasher, formatting digests.",
 "The tests are single-threaded.",
 ALG+[I+"hash_append.hpp",I+"digest.hpp",I+"get_integral_result.hpp"],
 [("no mutable namespace-scope, static-local or mutable-member state","all headers"),("copy constructor reads its source only","all algorithm classes")],
 [],["per-thread digests versus sequential execution","vector-clock race detection on every access made inside the library"])

p("C05","Equal values hash equal on every replica, as the documented encoding",
 "hash_append of equal values sends the hash algorithm the documented message for that value and flavor, so that all replicas holding equal values compute equal digests. The message does not depend on how the value was built or is represented: insertion order, capacity, bucket layout and hash function of unordered containers, contiguous versus node-based sequences, array kinds, padding bytes and addresses, positive versus negative zero, or the thread's floating-point environment. For a flavor with a fixed byte order and size type the message is the documented sequence of bytes; for unordered containers it is the documented order-independent combination of element digests and the count.",
 ["histories","inputs","configurations","fault_sequences"],
 "All supported value types (scalars, enums, pointers, floats, arrays, contiguous, linked, ordered, unordered containers, tuples, described classes, tag_invoke classes, nestings) x operation histories reaching the same value x flavors x hash algorithms.",
 "Tests hash a few literal values per type and compare to precomputed constants; they do not quantify over histories leading to the same value, nestings, or sizes beyond a few elements.",
 [I+"hash_append.hpp",I+"get_integral_result.hpp",I+"flavor.hpp",I+"endian.hpp",I+"is_contiguously_hashable.hpp",I+"is_trivially_equality_comparable.hpp",I+"is_endian_independent.hpp",I+"has_constant_size.hpp",I+"detail/write.hpp",I+"detail/bit_cast.hpp",I+"detail/has_tag_invoke.hpp"],
 [("type dispatch","detail::do_hash_append overloads"),("commutative sum over copies of the hash","hash_append_unordered_range"),("byte-copy fast path only for padding-free types in native order","is_contiguously_hashable")],
 [],["digest and received byte message on each replica","digest of an independent reference peer implementing the documentation"])

p("C06","Different container contents send different messages",
 "When two replicas of the same type hold values that differ (an element lost, duplicated, changed, moved to another position of a sequence, or moved across the boundary between neighbouring containers), hash_append sends the hash algorithm different messages and their digests differ, except for equalities implied by a collision of the chosen algorithm. Every hash_append call, of any value including empty ones, sends at least one byte. No permutation of an ordered sequence, and no regrouping of nested containers, is confused with the original.",
 ["fault_sequences","inputs","histories"],
 "All corruptions (loss, duplication, reordering, boundary shift, bit flip, swap between nested containers) of replicas of every supported container nesting.",
 "Tests compare a few hand-written pairs of unequal values.",
 [I+"hash_append.hpp",I+"get_integral_result.hpp",I+"has_constant_size.hpp",I+"is_contiguously_hashable.hpp"],
 [("size appended after the elements of every variable-size range","hash_append_size calls"),("zero byte for empty constant-size values","do_hash_append for arrays, tuples, described classes"),("64-bit element digests summed for unordered ranges","hash_append_unordered_range")],
 [],["equality of digests versus equality of values"])

p("C07","A failure inside hash_append propagates cleanly and is retryable",
 "If an operation used by hash_append fails by throwing (an iterator, a user tag_invoke, the hash algorithm's copy, update or result, or memory allocation) the same exception reaches the caller, the hash object has then received exactly a prefix of the message it would have received without the failure and nothing more, and every temporary has been destroyed. The hashed value is never modified. Retrying from a copy of the hash object saved before the call yields the digest of an undisturbed call.",
 ["fault_sequences","crash_points","inputs"],
 "All failure points (the k-th iterator operation, element append, hash copy, update, result, allocation) in hash_append of every container kind and nesting.",
 "The tests contain no throwing iterator, hash or element.",
 [I+"hash_append.hpp",I+"detail/has_tag_invoke.hpp"],
 [("no catch blocks, no owned resources, copies of the hash as automatic objects","hash_append.hpp"),("const access to the value","hash_append.hpp")],
 [],["exception identity, sequence of updates received, live-object count, digest after retry"])

p("C08","A crash image of a finished hash object holds no plaintext",
 "After result() has been called, and after construction from a byte seed that is not used as a direct key, the memory of a hash object contains none of the message or seed bytes verbatim. For the cryptographic algorithms, HMAC and siphash the same holds during streaming for everything except the bytes of the still incomplete last block.",
 ["crash_points","histories","inputs"],
 "All crash points between operations x all algorithms x all message lengths, chunkings and histories with several results.",
 "plaintext_leak.cpp looks for one 4-byte word after one message length per algorithm; leaks at other residues of the block size, after several results or across update splits are not sampled.",
 ALG,
 [("clearing of the buffer after it has been consumed","update() and result(): 'clear buffered plaintext'")],
 [("buffer_","pending plaintext","every algorithm class")],
 ["object representation captured at the crash point"])

p("C09","Differently built nodes of one fleet compute identical digests",
 "For identical inputs, all builds of the library (compilers, language standards from C++11 to C++23, optimisation levels, signedness of plain char, availability of compiler builtins, byte order and word size of the target, and compile-time evaluation where the interface is constexpr) return identical digests, hash_append messages for fixed-order flavors, integral results and textual digests. Evaluating an expression at compile time gives the value run-time evaluation gives. The default flavor is the flavor of the target's byte order.",
 ["configurations","histories","inputs"],
 "All supported build configurations x operation histories; constant evaluation as one more configuration.",
 "Each test runs in each configuration against the same few constants, but never the same generated history in several configurations; compile-time evaluation is tested for a few literals.",
 ALG+[I+"hash_append.hpp",I+"digest.hpp",I+"get_integral_result.hpp",I+"detail/is_constant_evaluated.hpp",I+"detail/bit_cast.hpp",I+"detail/config.hpp"]+DET+[I+"detail/memcmp.hpp"],
 [("is_constant_evaluated() selects portable loops","detail/*.hpp"),("explicit-width, explicit-endian arithmetic","detail/read.hpp, detail/write.hpp")],
 [],["digests, messages and strings returned by each node for one history"])

p("C10","Digest output is complete, bounded and honest about failures",
 "Formatting a digest yields exactly two lowercase hexadecimal digits per byte, in order, and nothing else: to_chars writes only inside the range it is given (returning null and writing nothing when it is too short, and a terminating null exactly for the array form), to_string returns the full string or throws when memory is exhausted. operator<< behaves as insertion of that string would for any stream state, width, fill and alignment, and any failing or throwing stream buffer; comparison is true exactly when all bytes are equal, and every accessor presents those bytes.",
 ["fault_sequences","inputs","configurations"],
 "All digest sizes and values x buffer sizes and positions x stream states and formatting flags x sink failure points x allocation failures.",
 "digest.cpp prints a few digests to a healthy stringstream and tries two buffer sizes.",
 [I+"digest.hpp",I+"detail/memcmp.hpp"],
 [("length check before writing","to_chars"),("single formatted insertion","operator<<")],
 [],["bytes accepted by the sink, stream state, exceptions, canaries around buffers"])

p("C11","Checksum tools print a digest only for files they read completely",
 "The shipped checksum tools print, for each file operand, the correct digest of exactly the bytes read to end of file, whatever the sizes of the individual reads; if the file cannot be opened or any read fails, they print a diagnostic and no digest for that file, and continue with the remaining operands.",
 ["fault_sequences","inputs"],
 "All file contents and lengths x operand lists x short reads, read errors and open failures at any point x algorithms.",
 "The examples are only compiled by the test suite; they are not run.",
 ["example/hash2sum.cpp","example/md5sum.cpp",I+"digest.hpp"]+ALG[3:7],
 [("fread loop with ferror check","example/hash2sum.cpp, example/md5sum.cpp")],
 [],["lines written to stdout and stderr per operand"])

p("C12","The library touches only the memory it was given",
 "update(), the seed constructors and hash_append read only the bytes of their arguments, never write them, and do not refer to them after returning; an operation on a hash object writes only that object and its own automatic storage. Zero-length updates and seeds with a null or otherwise arbitrary pointer access nothing and have no undefined behaviour. digest and to_chars accesses stay within the digest and the given output range.",
 ["inputs","histories","schedules"],
 "All algorithms and value types x lengths, offsets and alignments of source regions x revocation of the source memory immediately after each call.",
 "The tests use ordinary buffers with slack around them; over-reads, writes to sources and retained pointers go unnoticed.",
 ALG+LEG+DET+[I+"hash_append.hpp",I+"digest.hpp"],
 [("exact lengths handed to memcpy and block loops","update() in every algorithm"),("early return on n == 0","update()"),("no stored source pointers","all algorithm classes")],
 [],["every load and store issued inside library calls"])

p("C13","Hash tables keyed through the library never lose or invent entries",
 "A hash table whose hash function is built from the library as documented (seeded or unseeded hasher, hash_append of the key, integral result) returns, after any history of insertions, erasures, rehashes, copies, allocation failures and restarts with a new seed, exactly the entries a sequential map would. Equal keys of any supported type (strings, sequences, pairs, enums, floating-point numbers with either zero, described structures) always find each other, and a hasher is a pure function of seed and key.",
 ["histories","fault_sequences","crash_points"],
 "All operation histories with allocation failures and crash/restart over key types, hash algorithms, seeds and table implementations.",
 "The examples are compiled and run once with fixed data; no test drives a hash table.",
 ["example/hash_with_any_seed.cpp","example/hash_with_byte_seed.cpp","example/hash_with_uint64_seed.cpp","example/hash_without_seed.cpp",I+"hash_append.hpp",I+"get_integral_result.hpp"]+ALG[:3],
 [("hasher copies a seeded prototype, appends the key and reduces the result","example/hash_with_*"),("key equality implies message equality","hash_append.hpp")],
 [],["lookup results versus a sequential map"])

p("C17","Hashing is re-entrant: an interrupted operation shares nothing with others",
 "While any library operation is in progress (hash object construction, update, result or copy, hash_append and its range functions, get_integral_result, digest comparison and formatting), operations on other objects can begin and complete on the same thread: from a signal handler at any instruction, from a user callback (tag_invoke, an iterator, a stream buffer), or by switching between fibers in any order. Neither the interrupted nor the interrupting operations' results change, none of them waits for another, and an operation that is abandoned in the middle does not affect anything that runs later.",
 ["schedules","histories"],
 "All points of all operations at which another operation, or a switch to another fiber, can take place, nested or interleaved, including abandonment.",
 "Tests never interrupt an operation; thread-local or static scratch storage is invisible to them and to thread checkers.",
 ALG+LEG+[I+"hash_append.hpp",I+"digest.hpp",I+"get_integral_result.hpp",I+"hmac.hpp"],
 [("all working storage is in the object or on the stack; no static or thread-local state","all headers"),("temporaries are local to the call","operator<<, to_string, hash_append_unordered_range, hmac::init")],
 [],["results of every operation versus an undisturbed run"])

p("C14","get_integral_result spreads results over the whole target type",
 "get_integral_result<T> maps each supported result type deterministically to the integral type T, using the low-order bytes of the digest for digest results and extending narrower integers so that all bits of T vary with the result. No supported pair of result and target type loses information that T could hold.",
 ["inputs"],
 "All result values of the supported result types x integral target types.",
 "Tests check a handful of values and a statistical sample.",
 [I+"get_integral_result.hpp"],
 [("multiplicative extension and truncation","get_integral_result.hpp")],[],["returned integer"])

p("C15","Type traits classify types soundly",
 "is_trivially_equality_comparable, is_endian_independent, is_contiguously_hashable and has_constant_size report true only for types for which the optimisation they enable preserves the documented hash_append message, and user specialisations are honoured.",
 ["programs","configurations"],
 "All types a program can define.",
 "Tests instantiate the traits for a fixed list of types.",
 [I+"is_trivially_equality_comparable.hpp",I+"is_endian_independent.hpp",I+"is_contiguously_hashable.hpp",I+"has_constant_size.hpp"],
 [("trait definitions","the four headers")],[],["trait values"])

p("C16","Unkeyed and seeded outputs are statistically well distributed",
 "For non-adversarial inputs, outputs of every algorithm and every consecutive result() have the avalanche and collision behaviour of a random function of the same width.",
 ["inputs"],
 "All inputs; a statistical statement.",
 "quality.cpp samples small integer keys.",
 ALG,[("final mixing","result() of fnv1a, xxhash, siphash")],[],["distribution of outputs"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
