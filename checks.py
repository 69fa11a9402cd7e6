"""The table of checks: what each one builds, explores and claims."""
W = "-w"  # the repository's own warnings are not the subject here
FLAVOURS = {
    # Sequential harnesses: the repository's compiler and options plus address
    # and undefined-behaviour instrumentation.
    "asan": {
        "cxx": "g++",
        "flags": "-std=c++17 -fno-rtti -O1 -g0 -D_GLIBCXX_SANITIZE_VECTOR=1 -include {verif}/lib/instrumented_strings.h " + W + " -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -I{repo}/src -I{verif}/lib -I{verif}/include -I{verif}/harness",
        "rtflags": "-std=c++17 -O1 -g0 " + W + " -I{verif}/lib",
        "link": "-fsanitize=address,undefined -lpthread",
        "runtime": ["lib/mc.cpp", "lib/main.cpp"],
        "repo": "sync",
    },
    # The same without instrumentation, for checks without memory to corrupt.
    "plain": {
        "cxx": "g++",
        "flags": "-std=c++17 -fno-rtti -O0 -g0 " + W + " -I{repo}/src -I{verif}/lib -I{verif}/include -I{verif}/harness",
        "rtflags": "-std=c++17 -O1 -g0 " + W + " -I{verif}/lib",
        "link": "-lpthread",
        "runtime": ["lib/mc.cpp", "lib/main.cpp"],
        "repo": "sync",
    },
}
WRAPPED = """pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock pthread_mutex_destroy
 pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock
 pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_cond_destroy pthread_cond_init
 pthread_once pthread_self pthread_equal pthread_create pthread_join pthread_detach
 __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_atexit __cxa_thread_atexit
 clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep sched_yield
 pipe pipe2 read recv write send readv writev close poll ppoll fcntl fcntl64 ioctl dup socket socketpair bind listen connect accept accept4
 setsockopt getsockopt getsockname getpeername shutdown open lseek getaddrinfo freeaddrinfo""".split()
# The controlled scheduler and virtual operating system (lib/sched.cpp, lib/vos.cpp):
# ThreadSanitizer's instrumentation, but linked against our own runtime.
FLAVOURS["sched"] = {
    "cxx": "clang++",
    "flags": "-std=c++17 -fno-rtti -O1 -gline-tables-only " + W + " -fno-pie -femulated-tls -include {verif}/lib/instrumented_strings.h -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -I{repo}/src -I{verif}/lib -I{verif}/include -I{verif}/harness",
    "rtflags": "-std=c++17 -O2 -g0 -fPIC " + W + " -I{verif}/lib",
    "link": "-no-pie -Wl,-z,now -Wl,-rpath,'$$ORIGIN' " + " ".join("-Wl,--wrap=" + x for x in WRAPPED) + " -lpthread",
    "runtime": ["lib/main.cpp"],
    "rtlib": ["lib/mc.cpp", "lib/sched.cpp", "lib/vos.cpp"],
    "repo": "all",
}
WIDE = ["harness/wide_small.cpp", "harness/wide_middle.cpp", "harness/wide_large.cpp"]
UNI = ["harness/uni_scalar.cpp", "harness/uni_container1.cpp", "harness/uni_container2.cpp", "harness/uni_container3.cpp", "harness/uni_compound1.cpp", "harness/uni_compound2.cpp"]
CHECKS = {}
def check(pid, harness, flavour, level, technique, rule, note, **kw):
    d = dict(exe=kw.pop("exe", pid), sources=[harness] if isinstance(harness, str) else harness, flavour=flavour, level=level,
             technique=technique, rule=rule, note=note)
    d.update(kw)
    CHECKS[pid] = d
check("S01", ["harness/S01.cpp"] + WIDE + UNI, "asan", "exploration", "exhaustive bounded enumeration of typed values through the real codecs",
      "one case per (type, byte order, value, initial state of the target) or (ordered pair of types, values, byte order); non-trivial: the value was encoded and decoded completely",
      "Every value of the bounded universe is round-tripped through the real encoder and decoder under address/UB instrumentation; types and sizes outside the universe are not covered.")
check("S02", ["harness/S02.cpp"] + WIDE + UNI, "asan", "exploration", "exhaustive bounded enumeration of typed values against a reference encoder",
      "one case per (type, byte order, value, output stream kind); non-trivial: bytes were compared with the independent reference encoding",
      "Bytes compared with an independently written encoder over the whole bounded universe.")
check("S03", ["harness/S03.cpp", "harness/S03_classes.cpp"], "asan", "exploration", "exhaustive enumeration of bounded object graphs and encoder histories",
      "one case per pointer graph (nodes, edges, classes, roots, byte order) or history of one encoder; non-trivial: the graph was encoded, compared with a reference encoding, decoded and compared for isomorphism",
      "All pointer graphs within the node and edge bounds; larger graphs only along the size boundaries of the id encoding.")
check("S04", ["harness/S04.cpp"] + UNI, "asan", "exploration", "exhaustive enumeration of short inputs, damages and truncations under memory and undefined-behaviour instrumentation",
      "one case per (target type, byte order, input) or (type, value, damage or truncation); non-trivial: decoded or rejected, and the target written and read again",
      "All inputs up to the length bound over a boundary alphabet, all single damages and truncations of sample encodings; memory is capped so that absurd sizes fail to allocate.")
check("S05", "harness/S05.cpp", "asan", "exploration", "exhaustive enumeration of crafted pointer records against a reference acceptance rule",
      "one case per sequence of crafted pointer records and target pointer types; non-trivial: a record was rejected, or every record of the sequence was decoded and compared",
      "All streams of up to three records over the class hierarchy; the decoder is also used again after it rejected a record.")
check("S06", ["harness/S06.cpp"] + UNI, "asan", "exploration", "exhaustive enumeration of writer/reader type pairs and wrong fingerprints",
      "one case per (writer type, reader type, value, byte order, target) or (type, wrong fingerprint); non-trivial: a verified read was attempted and judged",
      "All ordered pairs of the bounded type universe; wrong fingerprints differ from the right one in one or two bits or are special values.")
check("S07", ["harness/S07.cpp", "harness/S07_a.cpp", "harness/S07_b.cpp", "harness/S07_c.cpp", "harness/S07_d.cpp"], "plain", "exploration", "exhaustive comparison of all type pairs of a generated type universe",
      "one case per type, compared with every other type; non-trivial: the whole row of the pair matrix agreed with independently written structure descriptions",
      "All pairs of a generated universe of about two thousand types; types outside it are not covered.")
check("P01", "harness/P01.cpp", "asan", "exploration", "exhaustive enumeration of inputs against a reference decoder",
      "one case per input string; non-trivial: framed, judged by a reference decoder and unframed",
      "All short strings over a boundary alphabet, all run-length combinations around the group limit, every length to 1300.")
check("P02", "harness/P02.cpp", "asan", "exploration", "exhaustive enumeration of frames against a reference decoder",
      "one case per frame; non-trivial: unframed and compared with a reference decoder",
      "All short frames over a boundary alphabet, all truncations and single changes of long frames.")
check("P03", "harness/P03.cpp", "asan", "fault_enumeration", "exhaustive enumeration of single and double modifications",
      "one case per payload and key with all modifications of a kind (transitions count the modified packets); non-trivial: all were judged",
      "Every single-bit, single-byte, length and neighbour-swap change of each payload; a 64-bit code can collide for changes beyond those enumerated.")
check("P04", "harness/P04.cpp", "asan", "exploration", "exhaustive enumeration of lengths and splits against an independent implementation",
      "one case per (message, key, alignment) or per split into pieces; non-trivial: all results compared with the reference",
      "All lengths and splits within the bounds, three keys.")
check("D01", "harness/D01.cpp", "asan", "model_checking", "exhaustive enumeration of operation sequences, lock-step against std::map/std::set",
      "one case per sequence of operations (with comparator); non-trivial: after every operation the result and all observers agreed with the standard container",
      "All operation sequences within the depth bound; key alphabet of 3 to 5 keys, three comparator states.")
check("D02", "harness/D02.cpp", "asan", "model_checking", "exhaustive enumeration of operation sequences, lock-step against std::multimap/std::multiset",
      "one case per sequence of operations (with comparator); non-trivial: after every operation the result and all observers agreed with the standard container",
      "All operation sequences within the depth bound; the order among equal keys is left open.")
check("P05", "harness/P05.cpp", "asan", "fault_enumeration", "exhaustive enumeration of damage to packet streams against a reference receiver",
      "one case per packet sequence and damage (position and kind); non-trivial: every frame of the stream was judged delivered, reported or lost",
      "All single damages of all short packet sequences, pairs of damages of some; damages the 64-bit code cannot see are not enumerated.")
check("P06", "harness/P06.cpp", "asan", "fault_enumeration", "exhaustive enumeration of packet sequences, truncations and link chunkings",
      "one case per packet sequence, truncation and kind of link; non-trivial: every packet and the end of the stream were judged",
      "All sequences of up to three packets over boundary sizes and every truncation of six of them.")
check("P07", "harness/P07.cpp", "asan", "model_checking", "exhaustive enumeration of operation sequences, lock-step against a reference byte queue",
      "one case per adapter, source and sequence of operations; non-trivial: every transfer was compared with the reference queue",
      "All operation sequences within the depth bound over short sources and sinks.")
check("E01", "harness/E01.cpp", "asan", "exploration", "exhaustive enumeration of error classes, messages and ways across",
      "one case per class or name, message and way across; non-trivial: the class, message and bases caught were compared",
      "Every error class of the library and two of an application.")
check("E02", "harness/E02.cpp", "asan", "model_checking", "exhaustive enumeration of operation sequences, lock-step against a reference slot",
      "one case per payload type and sequence of operations; non-trivial: all observers agreed with the reference after every operation",
      "All operation sequences within the depth bound for five payload types.")
check("E05", "harness/E05.cpp", "asan", "exploration", "exhaustive enumeration of values and of compositions, lock-step with plain calls",
      "one case per (enumeration, value) or (composition, what each part throws, how often it is called); non-trivial: the name or everything observable was compared",
      "Every value of the 8 and 16 bit enumerations, all neighbours of declared values of wider ones; all compositions of value/void functions with five outcomes each.")
check("E04", "harness/E04.cpp", "asan", "model_checking", "exhaustive enumeration of operation sequences, lock-step against reference values",
      "one case per sequence of operations or list; non-trivial: every address was compared with its reference",
      "All operation sequences within the depth bound; lists are made by the system's own resolver from numeric hosts.")
SCHED = "stateless model checking of the implementation: all schedules up to a deviation bound under a controlled scheduler"
SRULE = "one case per vector of scheduling, timing and fault decisions (and enumerated operations); non-trivial: the scenario ran to its end with every observation judged"
check("E03", "harness/E03.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules of two to three threads with up to 3 (thorough 4) preemptions; data races, uses of freed memory and deadlocks are checked on each.")
check("T06", "harness/T06.cpp", "sched", "model_checking", SCHED, SRULE,
      "Waits over up to three limits, deadlines and vain wake-ups in virtual time, compared with a model of when they end.")
check("T05", "harness/T05.cpp", "sched", "model_checking", SCHED, SRULE,
      "Waits over up to three events of every kind and action in every form, with events arriving and contexts ending at every point.")
check("T01", "harness/T01.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules of two and three threads over all short programs of operations, judged by a linearizability check; all histories of one thread.")
check("T02", "harness/T02.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules of two and three threads over all ways of locking, with contexts that end meanwhile; races on the guarded data are checked.")
check("T03", "harness/T03.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules of two and three threads over all short programs on short queues, judged by a linearizability check against a bounded FIFO queue.")
check("T04", "harness/T04.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules of a writer and one or two readers over all ways of completing and reading; all histories of one thread; all chains of up to three continuations.")
check("T07", "harness/T07.cpp", "sched", "model_checking", "exhaustive enumeration of chains of reactions, compared with a model of their outcome, under the controlled scheduler and clock", SRULE,
      "All chains of up to three (thorough four) links of twelve kinds on seven kinds of event and five first outcomes.")
check("T08", "harness/T08.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules within the deviation bound of one or two submitters and one or two workers, with failing and blocking tasks, cancelled submitters and early destruction.")
check("X01", "harness/X01.cpp", "sched", "model_checking", SCHED, SRULE,
      "All histories of one thread over trees of up to five contexts; all schedules of one and two blocked threads, of creation, destruction and cancellation at the same time.")
check("X02", "harness/X02.cpp", "sched", "model_checking", SCHED, SRULE,
      "All histories of one thread over trees of up to four contexts, in virtual time; all schedules of setting, reading and inheriting deadlines.")
check("X03", "harness/X03.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules within the deviation bound of contexts to three levels created and destroyed by up to three threads; all nestings of one thread.")
check("X04", "harness/X04.cpp", "sched", "model_checking", SCHED, SRULE,
      "All histories of one thread over trees of up to three contexts and three kinds of data; all schedules of setting, reading, inheriting and encoding.")
check("I01", "harness/I01.cpp", "sched", "fault_enumeration", "exhaustive enumeration of ownership histories and of failing system calls against a model of the operating system", SRULE,
      "All histories of up to five (thorough six) ownership operations on two channels; every creation path of the library with up to two (thorough three) failing system calls.")
check("I02", "harness/I02.cpp", "sched", "fault_enumeration", "exhaustive enumeration of schedules and of answers of a model of the operating system", SRULE,
      "All answers (complete, partial, would block, interrupted, end, error) of the modelled system and all schedules within the deviation bound, for streams of up to seven bytes through channels holding two to four.")
check("I03", "harness/I03.cpp", "sched", "fault_enumeration", "exhaustive enumeration of peers' behaviour, schedules and failing system calls against a model of the operating system", SRULE,
      "All combinations of six behaviours of up to three addresses, without limit, with a deadline and cancelled at four times; all listeners on one or two sockets with up to three clients; up to two (thorough three) failing or interrupted calls.")
check("I05", "harness/I05.cpp", "sched", "model_checking", "exhaustive enumeration of histories and failing system calls against a model of the operating system, lock-step with a reference", SRULE,
      "All open modes on missing, empty and filled files followed by up to four (thorough five) uses; all sequences of up to three (thorough four) socket settings.")
check("I06", "harness/I06.cpp", "sched", "model_checking", SCHED, SRULE,
      "All answers (one, two, no addresses, failure, immediate or late) and all ways to ask for two threads or three outstanding questions; questions given up by letting go, cancellation or deadline; a full queue; resolvers that go away with open questions; all schedules within the deviation bound.")
check("I04", "harness/I04.cpp", "sched", "model_checking", SCHED, SRULE,
      "All histories of up to five (thorough six) uses of a reconnecting connection over scripted links; all schedules within the deviation bound of users, disconnections and reconnections over scripted links and sockets.")
check("R02", "harness/R02.cpp", "sched", "fault_enumeration", SCHED + ", with all ways in which links and peers fail", SRULE,
      "All schedules within the deviation bound of one to three calls with every way in which links, peers and callers fail, over an in-memory link and a peer that speaks the protocol byte by byte.")
check("R03", "harness/R03.cpp", "sched", "fault_enumeration", SCHED + ", over all sequences of packets from an alphabet", SRULE,
      "All sequences of up to two (thorough three) of eighteen kinds of packets, and all schedules within the deviation bound of packets, lost and jammed connections, busy workers, registrations and failing accepts, against the answers and calls they have to lead to.")
check("R05", "harness/R05.cpp", "sched", "model_checking", SCHED, SRULE,
      "All schedules within the deviation bound of stopping, restarting and destroying a server, and of losing its connections, with requests in nine states; uses of freed memory, deadlocks, open descriptors and calls made too late are checked on each.")
check("R04", "harness/R04.cpp", "sched", "model_checking", SCHED, SRULE,
      "All combinations of limits of caller, client and server, of data of the caller's context, and all schedules within the deviation bound of calls being cancelled, end to end and packet by packet.")
check("R01", "harness/R01.cpp", "sched", "model_checking", SCHED, SRULE,
      "All orders, outcomes and groupings of three answers; all ordered pairs of twelve kinds of methods and all errors, end to end in both byte orders; all schedules within the deviation bound of two or three calling threads, two clients, nested calls, failing links and TCP.")
NOT_APPLICABLE = {}
if __import__("os").environ.get("MC_DEV"):
    check("ZZ", "harness/ZZ.cpp", "sched", "model_checking", "dev", "dev", "dev")
