#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["src/arpc/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/arpc/" + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/arpc/" + w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOCOMP = ("This half of the library is not even compiled by the repository's build (a submodule is missing); "
          "its own tests, where they exist, are single threaded. ")
NOTEST = "No test exercises this code at all; it is only compiled. "

# ---------------------------------------------------------------- serialization
p("S01", "Every supported value survives an encode/decode round trip",
  "Decoding the bytes that an encoder produced for a value, with the matching decoder and into an object of the same type, gives back an equal value, consumes exactly the bytes produced, and leaves the stream positioned so that the next value decodes correctly. This holds for scalars, enums, strings, every kind of sequence and associative container of any length, tuples, aggregates, classes with declared fields (of every supported number) and base classes, custom save/load, optionals, durations and time points with integer ticks, nested arbitrarily, and whatever the target object contained before decoding. It holds for both byte orders. (The relative order of elements with equal keys in a multi container is not part of its value.)",
  ["inputs", "programs"], "all values of a universe of types (all shapes up to nesting 2) over boundary alphabets, all container sizes around each power of the size encoding, both byte orders, all pairs written to one stream",
  NOTEST + "Trait tests only check which encoder applies, never that bytes decode back; sizes of 128 and more, dirty targets and consecutive values need enumeration.",
  ["binary_codecs.h", "io_adapters.cpp", "string_adapters.cpp"], [("binary_encoder/binary_decoder", "binary_codecs.h"), ("write_variant/read_variant", "binary_codecs.h")], ["decoded value", "number of bytes consumed"])
p("S02", "Encoded bytes follow one fixed, portable layout",
  "The bytes produced for a value are exactly those of the documented layout: fixed width scalars in the chosen byte order, 64-bit tick counts for times, a one byte presence mark for optional and owned values, compact sizes and numbers as 7-bit groups with the least significant group first and the high bit meaning that more follow, no size for fixed-size containers, base classes before fields before custom data, and elements in iteration order. A compact number that does not fit the machine's word is rejected when read, never shortened. The layout depends only on the value and the byte order, never on the container that held it, on memory layout or on earlier output. (long double is excluded: part of its representation has no defined value.)",
  ["inputs", "programs"], "the same universe of types and values as S01, compared byte for byte with an independently written reference encoder, for both byte orders; compact sizes of every encoded length up to past the word size",
  NOTEST + "A codec that is wrong the same way on both sides round-trips; only an independent oracle over all shapes can see that a peer built from another version would not understand it.",
  ["binary_codecs.h"], [("binary_encoder", "binary_codecs.h"), ("write_variant", "binary_codecs.h")], ["output bytes"])
p("S03", "Shared object graphs keep their shape through encoding",
  "When a graph of shared, weak and uniquely owned objects is encoded and decoded, two pointers of the decoded graph refer to the same object exactly when the corresponding pointers of the original did: null stays null, sharing, cycles and weak references are preserved, and each object appears once in the output; whatever pointers the target held before are replaced, nulls included, without touching the objects they referred to. Polymorphic objects come back with their exact dynamic class and contents, through base or derived pointers.",
  ["inputs", "programs"], "all pointer graphs of up to 4 nodes with up to 2 typed edges each (shared, weak, unique), null, cyclic, self-referential, with polymorphic node classes, both byte orders, across consecutive writes to one encoder, plus graphs of more than 128 objects, and all targets already holding own, common or the source's objects",
  NOTEST + "The examples serialize one acyclic graph; identity depends on the whole pattern of references.",
  ["binary_codecs.h", "registry.h"], [("shared_object_map_/shared_object_vector_", "binary_codecs.h"), ("class_info_map_/class_info_vector_", "binary_codecs.h")], ["pointer identity partition of the decoded graph"])
p("S04", "Decoding arbitrary bytes is safe",
  "Whatever bytes a decoder is given, for whatever target type, it either produces a value of that type or reports an error by throwing one of the library's error classes or a standard length/allocation error; it never reads past the input, touches memory it does not own, creates an invalid value or performs any other undefined operation. Truncating a valid encoding at any point is always reported as an end of input. (Nesting as deep as the stack is excluded, as are containers of elements that take no bytes, whose declared size no input bounds.)",
  ["inputs"], "every byte string up to length 3-5 over a boundary alphabet and every single-byte corruption, truncation and short-read pattern of valid encodings, for a universe of target types, under address and undefined-behaviour instrumentation",
  NOTEST + "The set of malformed inputs is unbounded and a memory error is invisible without instrumentation.",
  ["binary_codecs.h", "io_adapters.cpp", "string_adapters.cpp"], [("read_fully end-of-input check", "io_adapters.cpp"), ("object and class id range checks", "binary_codecs.h")], ["exception class", "instrumentation reports"])
p("S05", "Only registered, compatible classes are instantiated from input",
  "A polymorphic object is created from input only when the named class is registered, the structure fingerprint in the input equals that of the registered class, and the class is the pointed-to class or derives from it; every other input is rejected with an error and the target pointer never refers to an object of an incompatible type. A reference to an already decoded object is accepted only through a pointer type that the object really is compatible with.",
  ["inputs", "histories"], "all crafted streams of up to 3 pointer records over a class hierarchy (registered, unregistered, unrelated, base, derived names; right and wrong fingerprints; new, repeated and out-of-range ids) times all target pointer types",
  NOTEST + "Type confusion needs combinations of class names, ids and pointer types that no valid program writes.",
  ["binary_codecs.h", "registry.h", "dynamic_base_class.h"], [("is_subclass check", "binary_codecs.h"), ("check_dynamic_compatibility", "registry.h"), ("type hash check", "binary_codecs.h")], ["dynamic type of the created object", "exception class"])
p("S06", "Verified reads accept exactly matching structures",
  "A value written with structure verification is read back by a verified read into a type with the same structure fingerprint and is rejected with a data mismatch error, before any part of the target is changed, for every type with a different fingerprint. Verification adds exactly the 4-byte fingerprint in front of the ordinary encoding.",
  ["inputs", "programs"], "all ordered pairs of writer and reader types in a universe of types, both byte orders, plus every single-bit corruption of the fingerprint",
  NOTEST, ["binary_codecs.h", "type_hash.h"], [("verify_structure overloads", "binary_codecs.h")], ["exception", "target value before/after"])
p("S07", "Structure fingerprints identify the encoded structure",
  "Two types whose encodings have the same structure (for example a vector and a list of the same elements, or a fixed array and its elements) get the same fingerprint, fingerprints do not depend on compilation order, platform word names or object addresses, and types with different structure, or classes whose custom serialization has a different version, get different fingerprints throughout the supported type universe, recursion included.",
  ["programs"], "all pairs of types from a generated universe (scalars, containers, tuples, classes, pointers, recursive and polymorphic classes to nesting depth 2)",
  "The tests compare a handful of hand-picked types with constants; whether any two distinct structures collide is a question over all pairs.",
  ["type_hash.h"], [("type_hash", "type_hash.h")], ["fingerprint value"])
# ---------------------------------------------------------------- packets and streams
p("P01", "Byte stuffing is a bijection onto zero-free strings",
  "Framing any byte string yields output without zero bytes, of length at most one plus a 254th more than the input, and unframing that output returns exactly the original bytes, including the empty string, strings made of zeros, and strings with runs of non-zero bytes around and beyond 254.",
  ["inputs"], "every string over {0,1,0xff} up to length 9, and every string built of up to 3 runs with lengths around 0,1,253..255,508..510, compared with a reference implementation",
  NOTEST, ["packet_codecs.cpp"], [("cobs_codec", "packet_codecs.cpp")], ["encoded and decoded strings"])
p("P02", "Unframing arbitrary bytes is safe and exact",
  "For every byte string without zeros, unframing either reports a data mismatch or returns the unique string whose framing is that input (up to a redundant final group); it never reads or writes outside its buffers and never fails with another kind of error.",
  ["inputs"], "every byte string up to length 6 over a boundary alphabet and all truncations/one-byte changes of long frames, compared with a reference decoder",
  NOTEST, ["packet_codecs.cpp"], [("cobs_codec::decode", "packet_codecs.cpp")], ["decoded string or exception class"])
p("P03", "Authenticated packets reject every modification",
  "A packet protected with a message authentication code is returned intact under the same key, and every packet that was changed, truncated, extended or created under another key is rejected with a data mismatch error. The code appended is the fixed 8-byte keyed hash of the contents.",
  ["inputs"], "for all payloads up to length 4 over a boundary alphabet and lengths around the hash block size: every single-bit and every single-byte change, every truncation and extension, every other key of a key set",
  NOTEST, ["packet_codecs.cpp", "highway_hash.cpp"], [("mac_codec", "packet_codecs.cpp")], ["decoded string or exception class"])
p("P04", "The keyed hash is standard, streaming and stable",
  "The keyed hash computes the standard HighwayHash-64 function of key and message, whatever way the message is split into successive pieces and whatever the alignment of the buffers, and a reused hasher gives the same results as a fresh one.",
  ["inputs", "histories"], "every message length 0..100, every split into up to 3 pieces, several keys and alignments, compared with an independently written reference implementation and published test vectors",
  NOTEST, ["highway_hash.cpp", "highway_hash.h"], [("highway_hash_generator", "highway_hash.cpp")], ["64-bit hash"])
p("P05", "Serial-line packets survive corruption of their neighbours",
  "Over a byte link protected by framing and authentication, packets sent are received intact and in order; when any byte of the stream is corrupted, lost, duplicated or inserted, every packet delivered is one that was sent, no undamaged packet that is separated from the damage by an intact delimiter is lost, and reading never fails other than by reporting the damage or the end of the link. A packet whose frame exceeds the receiver's limit is reported as an error and does not affect later ones.",
  ["inputs", "fault_sequences"], "all sequences of up to 3 packets from a payload alphabet, times every single (thorough: pairs of) byte corruption/deletion/insertion/duplication of the stream and every chunking with up to 2 short reads or writes",
  NOTEST, ["packet_protocols.h", "packet_codecs.cpp"], [("protocol_serial", "packet_protocols.h")], ["packets received, in order"])
p("P06", "Stream packets keep their boundaries under any chunking",
  "Over a reliable byte stream, the sequence of packets received equals the sequence sent, byte for byte and with the same boundaries, for any packet sizes including empty ones and however the stream is cut into pieces; a stream that ends inside a packet, or whose packet length cannot be represented or allocated, is reported as an error and never yields a partial packet.",
  ["inputs", "fault_sequences"], "all sequences of up to 3 packets with sizes from {0,1,2,127,128,129,300,16383,16384}, every chunking with up to 2 short reads, every truncation point",
  NOTEST, ["packet_protocols.h"], [("protocol_stream", "packet_protocols.h")], ["packets received, in order"])
p("P07", "Byte adapters neither lose, reorder nor invent bytes",
  "Full reads and writes through any byte stream adapter transfer exactly the requested bytes in order when the underlying transfer is cut into arbitrary pieces, report an end-of-input error when and only when fewer bytes are available, and never touch bytes beyond the requested range; one-byte transfers agree with block transfers. Bytes that could not be written are reported by the write or by the flush that follows it.",
  ["inputs", "fault_sequences", "histories"], "all sequences of up to 4 operations over a small domain on string, iostream and scripted adapters, with every pattern of short transfers and end of input, compared with a reference byte queue",
  NOTEST, ["io_adapters.cpp", "string_adapters.cpp", "iostream_adapters.cpp"], [("read_fully/getc/putc", "io_adapters.cpp")], ["bytes transferred", "exception class"])
# ---------------------------------------------------------------- containers, values, errors
p("D01", "Sorted flat map and set behave like ordered unique containers",
  "After any sequence of operations, a flat map or set contains exactly the keys (and mapped values) an ordered container with unique keys would contain after the same operations, iterates them in comparator order, and every operation returns the same result: insertion reports whether it inserted and where, lookups and range queries find the same elements, erasure returns the same counts and successors, missing keys are reported by the checked access. Copies, moves, swaps and comparators with state obey the same rules.",
  ["histories", "inputs"], "every operation sequence up to depth 4-5 over a 3-4 key alphabet with default, reversed and stateful comparators, copy/move/swap included, compared step by step with std::map/std::set",
  "The tests run fixed scripts over the default comparator; order-dependent states (insert in the middle, erase ranges, hints, copies with a non-default comparator) are only covered at a few points.",
  ["container/detail/flat_tree.h", "container/flat_map.h", "container/flat_set.h"], [("flat_tree", "container/detail/flat_tree.h")], ["contents, results, iterators' positions"])
p("D02", "Sorted flat multimap and multiset behave like ordered multi containers",
  "After any sequence of operations, a flat multimap or multiset contains exactly the elements an ordered container allowing equal keys would contain, sorted by the comparator, and counts, range queries, lookups and erasures give the same results. Inserting never drops or merges elements and erasing a key removes all its elements and no other. (The order among elements with equal keys is left open.)",
  ["histories", "inputs"], "every operation sequence up to depth 4-5 over a 3 key alphabet, compared step by step with std::multimap/std::multiset",
  "The tests run fixed scripts.",
  ["container/detail/flat_tree.h", "container/flat_map.h", "container/flat_set.h"], [("flat_tree", "container/detail/flat_tree.h")], ["contents, results"])
p("E01", "Errors cross process boundaries with class and message",
  "Every error class of the library, and every class an application declares (in the global namespace) and registers, turned into its portable form and back, is thrown again as the same class with the same message; every other exception becomes the catch-all error class carrying its description; an unknown class name received from a peer is still reported as an error that carries the original message. Catching by a base class of the hierarchy works after the round trip.",
  ["inputs", "programs"], "every error class times a message alphabet, through the registry and through the wire form of a response, plus foreign exceptions and unknown names",
  NOTEST, ["errors.cpp", "errors.h", "message_defs.h"], [("error_factory/error_registrar", "errors.h")], ["class and message caught"])
p("E02", "A result slot yields exactly what was last stored in it",
  "A slot for a value or an exception is empty, holds a value, or holds an exception; after any sequence of stores, clears, copies and moves its observers agree with the last store, reading an empty slot is reported as an error, reading an exception rethrows that very exception, and storing a copy never changes the caller's object.",
  ["histories"], "every operation sequence up to depth 5 over the slot operations for value, void, move-only and reference payloads, compared with a reference state machine",
  NOTEST, ["result_holder.h"], [("result_holder", "result_holder.h")], ["observers, value, exception"])
p("E03", "A guarded object is never used after it was withdrawn",
  "Once withdrawing a guarded object returns, no user holds or can obtain access to it until it is offered again; until then every user that obtained access can go on using the object, withdrawal waits for all of them, and users that arrive later are told there is none. Users, withdrawers and offerers in different threads never deadlock, lose a wake-up or race on memory.",
  ["schedules"], "all interleavings (up to a preemption bound) of 2-3 threads taking and releasing access while another withdraws, offers or destroys the guard",
  NOTEST + "Whether a withdrawal can return while a user is inside depends on the schedule.",
  ["usage_lock.h"], [("usage_lock", "usage_lock.h")], ["liveness of the object at each use", "data races"])
p("E05", "Names of enumerated values and composed functions are exact",
  "The name of a value of a named enumeration is the one declared for it (the first, if several are), and the unknown name for every value that was not declared. A composed function - chained, guarded by an error handler, or wrapped - does exactly what calling its parts in that order does: arguments and results pass through unchanged and uncopied, each part runs as often and in the same order, only the named class of errors and what derives from it reaches the handler (as the original object), all others pass, and it can be called again.",
  ["inputs", "programs"], "every value of 8 and 16 bit enumerations, neighbours and single-bit changes of all declared values of wider ones; all compositions of functions with and without values, each part with five outcomes, to nesting depth 2, compared with plain calls",
  NOTEST, ["enum.h", "function.h"], [("enum_names::name", "enum.h"), ("compose_pipe/compose_catch/compose_wrap", "function.h")], ["name", "log of calls, result or exception"])
p("E04", "Addresses are well-behaved values",
  "Socket addresses keep their bytes through construction, copying and moving, give back the host and port they were made from, and never share, leak or misuse storage; address lists iterate every resolved entry in order and release the resolver's storage exactly once; an endpoint built from name, service and options describes exactly those.",
  ["inputs", "histories"], "all sequences up to depth 4 of construct/copy/move/iterate over IPv4, IPv6 and local addresses of different sizes, under memory instrumentation",
  NOTEST, ["address.cpp", "address.h"], [("address", "address.cpp")], ["address bytes, memory instrumentation"])
# ---------------------------------------------------------------- awaitables and threads
p("T01", "Waiting on an event flag never misses or invents a wake-up",
  "A waiter on an event flag returns only if the flag was set at some moment during its wait, and always if the flag is set and stays set: setting wakes every waiter, resetting makes later waits block, repeated sets and resets are idempotent, and reading the state returns the effect of the last completed change. This holds for any number of threads and for callers whose context is cancelled or past its deadline.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of 2-3 threads doing set/reset/wait/read, and all single-threaded sequences to depth 6, including in cancelled contexts",
  NOCOMP + "Lost wake-ups exist only in particular interleavings.",
  ["flag.cpp", "flag.h", "pipe.cpp"], [("flag", "flag.cpp")], ["is_set/wait outcomes", "deadlock detection"])
p("T02", "The awaitable mutex gives exclusive, leak-free ownership",
  "At most one thread holds an awaitable mutex at any time, a released mutex is always obtained by some waiter, and no attempt that reports failure, cancellation or a timeout leaves the mutex held. Data written before a release is visible to the next holder.",
  ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of 2-3 threads using lock, try-lock, awaited lock with timeouts, in plain, cancelled and deadline-limited contexts",
  NOCOMP, ["mutex.cpp", "mutex.h", "flag.cpp"], [("mutex::maybe_lock", "mutex.cpp")], ["holder count", "data races", "deadlock detection"])
p("T03", "A queue delivers each item exactly once, in order, within capacity",
  "Every item put into a queue is taken out exactly once, items of one producer are taken in the order they were put, the number of items held never exceeds the capacity, takers block only while the queue is empty and putters only while it is full, and size and emptiness queries agree with the contents. An attempt that is cancelled, times out or reports that it would block neither takes nor puts anything.",
  ["schedules", "histories"], "all single-threaded operation sequences to depth 6 and all interleavings up to a preemption bound of 2-3 producers/consumers with 2-3 items, capacities 1 and 2, timeouts and cancellation",
  NOCOMP, ["queue.h", "semaphore.h", "flag.cpp"], [("queue", "queue.h")], ["items taken, order, size"])
p("T04", "A promise completes its future exactly once",
  "A future obtained from a promise becomes ready when and only when the promise is given a value or exception or is destroyed or replaced without one, and then yields exactly that value, that exception, or a broken-promise error; waiting threads are always woken. Continuations run once, see that outcome, and pass their own result or exception on.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of a fulfilling, a waiting and a chaining thread, and all single-threaded histories over promise/future operations to depth 5",
  NOCOMP, ["future.cpp", "future.h"], [("future_state", "future.h")], ["value or exception obtained", "deadlock detection"])
p("T05", "Waiting for several events reports exactly the ones it consumed",
  "A wait over several events returns only when at least one of them occurred, reports for each event exactly the outcome of its action (value, exception or nothing), and has run the action of an event only if it reports its outcome: when the wait ends by cancellation, deadline or error, no event's effect is consumed and lost. Events that lose a race keep waiting without being reported.",
  ["schedules", "inputs", "fault_sequences"], "all combinations of readiness, timeout, losing and failing actions for up to 3 events (single and in lists), in plain, cancelled and expired contexts, and interleavings with a second thread competing for the same events",
  NOCOMP, ["select.h", "awaitable.h"], [("select", "select.h")], ["returned outcomes vs. executed actions"])
p("T06", "Timeouts and deadlines are measured from when they were set",
  "A wait limited by a timeout or deadline ends no later than that limit (to the millisecond) even if it is woken in vain any number of times before, never ends by timeout before the limit, and a wait whose event is already there does not time out. Polling waits repeat their action at the requested period until it succeeds.",
  ["schedules", "inputs"], "all orders of up to 3 vain wake-ups and timer expiries in virtual time for plain timeouts, polling and deadlines of the context, nested up to 2",
  NOCOMP + "Tests in real time cannot control the order of wake-ups and expiries.",
  ["select.h", "awaitable.h", "wait.cpp", "context.cpp"], [("select elapsed-time accounting", "select.h")], ["virtual time at which the wait ends"])
p("T07", "Chained reactions transform outcomes faithfully",
  "Attaching a continuation, an exception handler or a decoration to an event gives an event that fires exactly when the original does: a continuation gets the value once and its result becomes the outcome, exceptions bypass continuations and reach the first matching handler, unhandled exceptions pass through, and no reaction runs more than once per firing or before the event fires.",
  ["inputs", "programs"], "every chain of up to 3 reactions (value-transforming, void, throwing, matching/not matching handlers) over ready, failing and losing events of void, value and move-only types",
  NOCOMP + "The tests cover chains of length one or two with one exception type.",
  ["awaitable.h"], [("awaitable::then/except", "awaitable.h")], ["outcome, number of runs"])
p("T08", "A thread pool runs every accepted task exactly once",
  "Every task accepted by a thread pool is run exactly once by one worker while the pool lives, and a task that fails does not stop its worker; submitting blocks rather than dropping tasks when the pool is busy; destroying the pool does not deadlock, ends its workers and releases the tasks not started without running them. Tasks whose submission was cancelled are not run.",
  ["schedules"], "all interleavings up to a preemption bound of 1-2 submitters with 1-3 tasks on 1-2 workers and queue sizes 0-2, including shutdown with pending tasks",
  NOCOMP, ["executor.cpp", "executor.h", "queue.h"], [("thread_pool", "executor.cpp")], ["run count per task, future outcome"])
# ---------------------------------------------------------------- contexts
p("X01", "Cancellation reaches every descendant and nothing else",
  "Cancelling a context makes every context below it, existing or created later, cancelled, wakes every operation blocked in any of them with a cancellation error, and affects no ancestor, sibling or shielded descendant. A new context, on any thread, starts cancelled exactly when its parent is.",
  ["schedules", "histories"], "all context trees of up to 4 nodes with shields, all cancel/create/destroy/wait histories to depth 5, and all interleavings up to a preemption bound of cancel with child creation, blocking and destruction",
  NOCOMP, ["context.cpp", "context.h", "thread.h"], [("context::cancel", "context.cpp"), ("add_child", "context.cpp")], ["is_cancelled and wait outcomes per node"])
p("X02", "Deadlines only tighten down the context tree",
  "The effective deadline of a context is the earlier of its own and the one its parent had when it was created; setting a later deadline never extends it, and setting an earlier one applies to it and to the contexts created under it afterwards but not to ancestors or siblings. Operations that have to wait in a context past its deadline fail with a deadline error.",
  ["schedules", "histories"], "all trees of up to 4 nodes, all sequences of set/create to depth 5 over 3 deadlines, and interleavings of set with child creation, in virtual time",
  NOCOMP, ["context.cpp", "context.h"], [("context::deadline", "context.cpp")], ["deadline per node"])
p("X03", "A context outlives its children and threads inherit it",
  "Destroying a context waits until all contexts created under it, on any thread (shields excepted), are gone and then proceeds; it never deadlocks on contexts that are being destroyed and never touches a destroyed one. A thread started under a context runs in a child of it, each thread sees its own innermost live context, and leaving a context restores the previous one.",
  ["schedules"], "all interleavings up to a preemption bound of parents and children on 2-3 threads created, cancelled and destroyed in every order",
  NOCOMP, ["context.cpp", "context.h", "thread.h"], [("context::~context", "context.cpp"), ("thread", "thread.h")], ["use after free, deadlock, current context identity"])
p("X04", "Context data is inherited but never leaks upwards or sideways",
  "Data attached to a context is visible in it and in contexts created under it afterwards, with the innermost value winning, and changing it in a child never affects the parent, siblings or previously created contexts. Transmission of a context to another process carries its data, its deadline and whether it is cancelled, unchanged.",
  ["histories", "schedules"], "all trees of up to 3 nodes and all set/read/create sequences to depth 5 over 2 kinds of data, plus interleavings of set with child creation",
  NOCOMP, ["context.cpp", "context.h"], [("context::data/set_data", "context.h")], ["data visible per node", "data races"])
# ---------------------------------------------------------------- channels
p("I01", "Every descriptor is closed exactly once",
  "Whatever sequence of opening, moving, assigning, swapping, releasing, closing and failing operations is performed on channels, pipes, files, sockets and listeners, every operating-system descriptor obtained by the library is closed exactly once, none is used after being closed, and none leaks when an operation fails half-way.",
  ["histories", "fault_sequences"], "all operation sequences up to depth 5 over two channels, and every single failing system call in each creation path, against a virtual operating system",
  NOCOMP, ["channel.cpp", "pipe.cpp", "socket.cpp", "file.cpp", "flag.cpp"], [("channel", "channel.cpp")], ["virtual descriptor table"])
p("I02", "Channel reads and writes transfer exactly what they report",
  "A read or write reports exactly the number of bytes the operating system transferred, in order, treats would-block as waiting and end of file and errors as such, and full transfers complete for any pattern of partial transfers, interruptions and waits. A blocked transfer ends with a cancellation or deadline error when its context does, without losing bytes it had not reported.",
  ["fault_sequences", "schedules"], "all answers of the virtual operating system (full, partial, would-block, end, error) up to 3 deviations per operation, with a concurrent peer and cancellation",
  NOCOMP, ["channel.cpp", "channel.h"], [("channel::maybe_read/maybe_write", "channel.cpp")], ["bytes transferred, error class"])
p("I03", "Dialing and listening return a usable connection or the right error",
  "Dialing tries the resolved addresses until one connects, returns a connected channel for the first that does, reports an error when none does, and closes every other attempt; accepting returns each incoming connection once with its peer address. Invalid option combinations and failing system calls are reported as errors.",
  ["fault_sequences"], "all combinations of per-address outcomes (immediate, in progress then ok, refused, failing call) for up to 3 addresses, and every failing system call in listen and accept",
  NOCOMP, ["socket.cpp", "address_resolver.cpp"], [("dial/listen", "socket.cpp")], ["virtual socket table, error class"])
p("I05", "Files and sockets are opened and set up as asked",
  "A file opened in a given mode can be read and written just as the mode says, starts out truncated, at its beginning or appending accordingly, and is created only by the modes that create, with the permissions the user's mask leaves; each socket setting takes effect as asked, changes nothing else - flushing sends out what is held back and leaves all settings alone - and anything the system refuses is reported as an error. Addresses reported are those of the socket and its peer.",
  ["histories", "fault_sequences"], "all open modes on missing, empty and filled files followed by all sequences of up to 4 reads and writes, all sequences of up to 3 settings, with failing system calls, against a virtual operating system",
  NOCOMP, ["file.cpp", "channel.cpp", "socket.cpp"], [("file", "file.cpp"), ("channel settings", "channel.cpp")], ["virtual files and socket options, error class"])
p("I06", "Every name resolution gets its own answer",
  "Each resolution - waited for or picked up later, from any thread, in any number - ends with the addresses, in their order, or the error that the system gave for exactly its name, service and options, which is asked for at most once; a failing, slow or given up resolution changes nothing for the others, waiting ends promptly on cancellation or deadline, a full queue only delays, a resolver that goes away leaves nobody waiting forever, and every list of addresses is given back exactly once.",
  ["schedules", "fault_sequences"], "all combinations of six kinds of answers and four ways to ask for two threads, all orders of picking up three outstanding answers, giving up in four ways, a full queue, destruction with open questions, and all sequences of options and of questions to one resolver, at every interleaving up to a deviation bound",
  NOCOMP + "The outcome depends on how requesters, the resolving thread and cancellation interleave.",
  ["address_resolver.cpp", "address_resolver.h", "address.cpp"], [("resolver thread", "address_resolver.cpp"), ("async_resolve", "address_resolver.cpp")], ["addresses per request, calls of the model resolver, live address lists"])
p("I04", "A connection hands each user a live channel or says it is gone",
  "Using a reconnecting connection yields a live link or an error, a disconnection is noticed by every user exactly once and followed by a fresh link on the next use, bytes of one link never appear on another, and disconnecting wakes all who read or write and leaves those who await data an open channel; concurrent users, disconnections and reconnections never deadlock, leak a link or touch a closed one.",
  ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of a reader, a writer and a disconnecting thread over scripted links that fail or end at every point",
  NOCOMP, ["connection.cpp", "connection.h"], [("connection", "connection.h")], ["link used per operation, errors, deadlock detection"])
# ---------------------------------------------------------------- RPC
p("R01", "Each remote call gets exactly its own outcome",
  "A remote call, synchronous or not, returns the value, or throws the error (its class if it is one of the library's, and its message), that the server's method produced for exactly that call's arguments, for methods of any signature, any number of concurrent calls from several threads and clients, nested calls, and whatever order and grouping the responses arrive in. The method is executed exactly once for a call that completes, and at most once for one that fails because of its link; calls over one live connection do not make another one.",
  ["schedules", "histories", "fault_sequences"], "all orders, outcomes and groupings of three responses at the client; all ordered pairs of twelve kinds of methods, and all kinds of exceptions, end to end in both byte orders; all interleavings up to a deviation bound of two or three calling threads, two clients, nested calls, failing or partial reads and writes at every point, and TCP",
  NOCOMP + "One example performs a single call.",
  ["client.h", "server.h", "interface.h", "result_holder.h"], [("client_connection", "client.h"), ("server", "server.h")], ["call outcome, server-side execution log"])
p("R02", "No remote call waits for an answer that cannot come",
  "When the connection ends or cannot be made, or something that is no response arrives over it, every call pending on it completes promptly with an error, also while other calls are stuck sending; so does a call whose own response is malformed, and every pending call when the client is destroyed (which never hangs). A call whose context is cancelled or whose deadline or time limit passes ends right then, alone unless it was cut off in the middle of sending, its cancellation is sent to the server, its bookkeeping is released and a late response to it is ignored. Afterwards, calls succeed again as soon as the peer can be reached and answers.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound (1, thorough 2) of one to three pending calls with ten ways of breaking the link, five malformed responses, unreachable and hanging peers, peers that do not read, cancellation, expiry and destruction, and failing or short reads and writes at every point",
  NOCOMP, ["client.h"], [("client_connection pending-call table", "client.h"), ("receiver, timeout and cancellation threads", "client.h")], ["call outcome, deadlock detection, open descriptors"])
p("R03", "The server answers every request once and survives bad ones",
  "A server answers every request whose header is well-formed exactly once, with the method's result or an error naming what was wrong (unknown object, unknown method or signature, malformed arguments), and never executes a method for a request it rejects; one of a number that another one under way on its connection has is not executed. A packet that is no request or cancellation, a malformed one or a lost or jammed link ends, at most, its own connection, which is given back once; other and new connections are served all along, whatever the number of workers and the length of their queue, also after failures to accept one. Registering an object under a name replaces whatever had it; once an object is unregistered, it is no longer called.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of up to two (thorough three) packets from an alphabet of eighteen kinds; all interleavings up to a deviation bound of one or two packets, simultaneous requests, seven ways of losing a connection, peers that do not read, six register/unregister operations, and failing accepts",
  NOCOMP, ["server.h", "interface.h", "executor.cpp", "usage_lock.h"], [("server::connection_wrapper", "server.h"), ("server::execute", "server.h"), ("connection_producer", "server.h")], ["responses, execution log, connections given back, open descriptors"])
p("R04", "Call context travels with the call",
  "A method runs in a context with the deadline that is the earliest of the caller's and those of the client's and server's options, ends when it passes, and holds the data set on the caller's context and nothing else; what it sets there stays there. Cancelling the call at the client cancels the context of that request and of no other (not of the same number on another connection, nor of an earlier or later request of the same number), promptly; the server keeps nothing of a request when it is finished.",
  ["schedules", "histories"], "all 27 combinations of limits and 32 of context data of two calls, all interleavings up to a deviation bound of one of two calls cancelled in two ways, and of requests and cancellations as seven sequences of packets",
  NOCOMP, ["client.h", "server.h", "context.cpp"], [("CANCEL_REQUEST handling", "server.h"), ("client_connection::cancel_request", "client.h")], ["server-side context observations", "open descriptors"])
p("R05", "Stopping a server is orderly",
  "Stopping or destroying a server, in whatever state its connections and requests are, completes promptly (destruction as soon as methods that take no notice of their cancellation are done), cancels the requests in progress, closes its connections, calls no method and uses no object afterwards, and releases everything; a stopped server can be stopped again and started again. A lost connection is given back once, after its last use, while its requests are received, executed or answered.",
  ["schedules", "histories"], "all interleavings up to a deviation bound of stop, restart and destruction with requests in nine states, with connections and requests arriving, and of connections lost in nine ways, over in-memory links and sockets",
  NOCOMP, ["server.h", "executor.cpp", "thread.h"], [("server::stop", "server.h"), ("connection_wrapper::fail", "server.h")], ["use after free, deadlock detection, execution log, open descriptors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
