def JT(src, **k): return dict(src=[src], lib_src=['sched.cpp'], mc=True, shards=8, std='gnu++17', flags=['-DMC_SCHED', '-I{repo}/Extras/JThread', '-DAWL_JTHREAD_EXTRAS'], **k)
def MT(src, **k): return dict(src=[src], lib_src=['sched.cpp'], mc=True, shards=8, **k)
AWL_IO = ['{repo}/Awl/Io/AtomicStorage.cpp', '{repo}/Awl/Io/OptionalStorage.cpp', '{repo}/Awl/Io/PersistentObject.cpp']
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'open lseek read write pread pwrite ftruncate fsync fdatasync fstat close access'.split())]
def CRASH(args): return dict(src=['crash.cpp'], repo_src=AWL_IO, link=WRAP, args=args, shards=8)
SCHED = 'stateless exploration of the real code under a controlled scheduler (all interleavings up to a preemption bound), with happens-before race, lifetime, leak and deadlock detection'
BFS = 'explicit-state breadth-first search whose states are real objects rebuilt by replaying histories, merged by a canonical form, every transition compared with a reference model'
DFSW = 'exhaustive depth-first enumeration of all operation/choice sequences of the real code within bounds, each compared with a reference model'
SEQ = 'exhaustive enumeration of a bounded input space, each input executed on the real code and compared with an independent oracle'
SCA = ['C++ atomics are explored as sequentially consistent; too weak memory orders show as data races on what they publish (vector clocks follow the orders given), not as reordered values of the atomics themselves',
       'interleavings are complete up to the stated number of preemptions; switches at blocking operations are unlimited']
PROPS = {
 'C01': dict(level='model_checking', bfs=True, harnesses=[dict(src=['vector_set.cpp'])], bounds=''),
 'C02': dict(level='model_checking', bfs=True, harnesses=[dict(src=['vector_set.cpp'], args=['--balance'])], bounds=''),
 'C03': dict(level='model_checking', bfs=True, harnesses=[dict(src=['ring.cpp'])], bounds=''),
 'A01': dict(level='model_checking', harnesses=[CRASH(['--crash'])], bounds=''),
 'A02': dict(level='model_checking', harnesses=[CRASH(['--faults'])], bounds=''),
 'U01': dict(level='model_checking', harnesses=[MT('update_queue.cpp'), dict(src=['update_queue_seq.cpp'], shards={'quick': 4, 'thorough': 8})], bounds=''),
 'J01': dict(level='model_checking', harnesses=[JT('stop_token.cpp'), dict(src=['stop_token_seq.cpp'], std='gnu++17', flags=['-I{repo}/Extras/JThread'], shards=8)], bounds=''),
 'J02': dict(level='model_checking', harnesses=[JT('cv2.cpp')], bounds=''),
 'J03': dict(level='model_checking', harnesses=[JT('jthread.cpp')], bounds=''),
 'T01': dict(level='model_checking', harnesses=[MT('sleep.cpp'), JT('sleep.cpp')], bounds=''),
 'T02': dict(level='model_checking', harnesses=[MT('watch_dog.cpp'), JT('watch_dog.cpp')], bounds=''),
 'A03': dict(level='model_checking', harnesses=[dict(src=['save_concurrent.cpp'], repo_src=AWL_IO, link=WRAP, lib_src=['sched.cpp'], mc=True, shards=8)], bounds=''),
 'C04': dict(level='model_checking', bfs=True, harnesses=[dict(src=['lists.cpp'], shards=3)], bounds=''),
 'C05': dict(level='model_checking', bfs=True, harnesses=[dict(src=['bitmap.cpp'], shards=4)], bounds=''),
 'C06': dict(level='model_checking', harnesses=[dict(src=['comparers.cpp'])], bounds=''),
 'C07': dict(level='model_checking', bfs=True, harnesses=[dict(src=['pool.cpp'], shards=2)], bounds=''),
 'C08': dict(level='model_checking', bfs=True, harnesses=[dict(src=['ownership.cpp'])], bounds=''),
 'O01': dict(level='model_checking', bfs=True, harnesses=[dict(src=['observers.cpp'])], bounds=''),
 'D01': dict(level='model_checking', harnesses=[dict(src=['decimal.cpp'], args=['--text'], flags=['-Wno-narrowing'], shards=8)], bounds=''),
 'D02': dict(level='model_checking', harnesses=[dict(src=['decimal.cpp'], args=['--arithmetic'], san=['-fsanitize=undefined', '-fno-sanitize-recover=undefined'], shards=8)], bounds=''),
 'D03': dict(level='model_checking', harnesses=[dict(src=['decimal.cpp'], args=['--compare'], san=['-fsanitize=undefined', '-fno-sanitize-recover=undefined'], shards=8)], bounds=''),
 'O02': dict(level='model_checking', bfs=True, harnesses=[dict(src=['observable_set.cpp'])], bounds=''),
 'O03': dict(level='model_checking', bfs=True, harnesses=[dict(src=['mirror.cpp'], shards=8)], bounds=''),
 'S01': dict(level='model_checking', harnesses=[dict(src=['rw.cpp'], opt='-O0', flags=['-DPART=%d' % p], shards=n) for p, n in [(0, 1), (1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (6, 6)]], bounds=''),
 'S02': dict(level='model_checking', harnesses=[dict(src=['damage.cpp'], opt='-O1' if p == 2 else '-O0', flags=['-DPART=%d' % p], shards=8) for p in range(3)], bounds=''),
 'S03': dict(level='model_checking', harnesses=[dict(src=['vts.cpp'], opt='-O0', flags=['-DPART=%d' % p], shards=2) for p in range(4)], bounds=''),
 'S04': dict(level='model_checking', harnesses=[dict(src=['hash_stream.cpp'], shards=8)], bounds=''),
 'S05': dict(level='model_checking', harnesses=[dict(src=['snapshot.cpp'], opt='-O0', flags=['-DPART=%d' % p], shards=n) for p, n in enumerate([8, 1, 4, 2, 4, 1])], bounds=''),
 'G01': dict(level='model_checking', harnesses=[dict(src=['generators.cpp'], shards=8)], bounds=''),
 'G02': dict(level='model_checking', harnesses=[dict(src=['tasks.cpp'], shards=8)], bounds=''),
 'G03': dict(level='model_checking', harnesses=[dict(src=['time_queue.cpp'], shards=8)], bounds=''),
 'X01': dict(level='model_checking', harnesses=[dict(src=['text.cpp'])], bounds=''),
 'X02': dict(level='model_checking', harnesses=[dict(src=['runner.cpp'], repo_src=['{repo}/Awl/Testing/TestMap.cpp', '{repo}/Awl/Testing/TestConsole.cpp', '{repo}/Awl/Testing/CommandLineProvider.cpp', '{repo}/Main/main.cpp'], flags=['-D_tmain=awl_main'], shards=8)], bounds=''),
 'H01': dict(level='model_checking', harnesses=[dict(src=['digests.cpp'])], bounds=''),
 'R01': dict(level='model_checking', harnesses=[dict(src=['reflection.cpp'], opt='-O0', nosan=q > 1, flags=['-DPART=%d' % q]) for q in range(5)], bounds=''),
 'M01': dict(level='model_checking', harnesses=[dict(src=['numbers.cpp'])], bounds=''),
 'T03': dict(level='model_checking', harnesses=[dict(src=['times.cpp'])], bounds=''),
 'T04': dict(level='model_checking', harnesses=[dict(src=['times.cpp'], flags=['-DLOGGERS'])], bounds=''),
 'X03': dict(level='model_checking', harnesses=[dict(src=['registry.cpp'])], bounds=''),
}
# Texts for MANIFEST.json, the evidence and DESIGN.md.
def doc(id, technique, bounds, note, assumptions=()):
    PROPS[id].update(technique=technique, bounds=bounds, note=note, assumptions=list(assumptions))
doc('C01', BFS, 'closure (no depth bound reached) of all operations over 6 keys (thorough: 7), every tree shape and colouring they reach; closure over 3 keys (4) with the element constructor or the node allocation failing in every insertion',
 'Real vector_set; a state is the concrete memory graph of the set up to renaming of addresses, so every reachable tree shape, colouring, list order and counter combination of the key set is expanded; after every transition all observers are compared with a sorted vector. Address sanitizer, allocator and element accounting run along.',
 ['more keys than the closure has only add tree shapes of the same local patterns (deeper rotations are covered by C02 runs of up to 200 elements)'])
doc('C02', BFS, 'closure of insert/erase over 7 keys (thorough: 9); all pairs of 7 insertion and 7 deletion orders for 4..70 (200) elements; growth to 500 (1500) elements in 9 orders; sliding windows up to 18 (40) wide, 150 (400) steps; a lookup of every key and gap after every step',
 'The number of elements a lookup examines is measured through the comparator and must be at most floor(2*log2(n+1)). One known finding: see below; a lookup that is too slow is taken for it only when a tree with exactly that defect, run along, is too slow for the same key by at least as much.',
 ['the comparator sees every examined element'])
doc('C03', BFS, 'closure over capacities 0..4 (thorough: 6), two values, two rings, aliasing arguments and throwing copies, i.e. every (capacity, size, wrap position, contents)',
 'Real ring; state = concrete memory graph; every observer compared with a deque model after every transition; element construction/destruction accounting and address sanitizer.')
doc('A01', 'exhaustive crash-point and torn-write enumeration of the real code on an in-memory file system', 'all histories of saves, loads and reopens up to depth 3 (4) for 3 values and 7 storage configurations (wrappers, block sizes, with and without mutex, optional storage); a crash after every file operation x every sector-wise combination of old and new data x every byte-granular tear of the last write x every such crash of the recovery (second generation; thorough: third)',
 'The file calls of the real code are linked to an in-memory disk which records what is durable; every image a crash can leave is loaded by a fresh process of the real code. Oracle: the set of values a Load may yield. One known finding (Save before any Load after a crash).',
 ['creation of the two files is durable before the first Save returns; fsync makes a file durable; sectors are written atomically or torn at a byte position of the last write', 'CRC64 collisions of torn images are not explored separately'])
doc('A02', 'exhaustive fault enumeration (every call, error or short transfer, once / persistent / in pairs) of the real code on an in-memory file system', 'every file operation of every history (depth 2, thorough 3 and pairs of faults) of every configuration fails or transfers less; afterwards a crash at every point, a Load and a new Save',
 'Same machinery as A01 with a fault decision at every call. Oracle: I/O exception or success, no other exception, no termination, no leaked descriptor, the old or the new value afterwards, recovery once the fault has passed.',
 ['close() does not fail; open failing is reported and leaves the storage closed'])
doc('A03', SCHED, 'a saving thread (or two that exclude each other) against one or two threads modifying the value: 3 preemptions (thorough: 5) with two threads, 2 (3) with three; every file call is a scheduling point; a crash of the process after every file call of every schedule',
 'Real AtomicStorage/OptionalStorage with EuphoricallySerializable on the in-memory file system, under the controlled scheduler. Every image the files have between two calls is loaded by the real code: it must be a value at one instant, not older than the last finished Save and not newer than the value; no file call under the mutex; unsynchronised accesses are races.', SCA)
doc('U01', SCHED, 'two producers with two updates each against an applying and clearing thread, nested pushes, throwing updates, moves: 6 preemptions (thorough: 12); sequential histories with up to 4 updates and failing copies',
 'Real UpdateQueue. Bookkeeping of every closure; the ring of blocks is covered by race, use-after-free and leak detection of the scheduler.', SCA)
doc('J01', SCHED, '14 programs of two or three threads requesting, registering, deregistering (also from inside callbacks), copying and destroying: 3 preemptions with two threads (thorough: 4), 2 (3) with three; all sequential histories of 2 sources, 2 tokens and callbacks up to a depth',
 'Real stop_token.hpp (C++17 replacement); its spin loops are scheduling points; livelock, deadlock, races, use after free and leaks are detected.', SCA)
doc('J02', SCHED, '38 programs of waiters, notifiers and stoppers in all wait variants: 3 preemptions (5), three threads 1 (2), one spurious wake-up per execution, timers expiring early or only when nothing else can run, virtual time',
 'Real condition_variable_any2.hpp. The predicate and the return are checked to happen under the lock; a missed wake-up shows as deadlock or as return at a timeout of an hour of virtual time.', SCA)
doc('J03', SCHED, '14 programs constructing, moving, swapping, assigning, detaching and destroying jthreads: 5 preemptions (8) with two threads, 2 (4) with three or four',
 'Real jthread.hpp; every thread must be joined by its owner and be stopped only by request.', SCA)
doc('T01', SCHED, '10 programs with one or two sleepers and up to two requesters: 4 preemptions (6), three threads 1 (2), one (two) spurious wake-ups, early and late timers, virtual time; with std::stop_token and with the C++17 replacement',
 'Real Sleep.h. Returning early without a request, or at the end of an hour although stop was requested, is a violation.', SCA)
doc('T02', SCHED, '8 programs with one or two watchdogs, timeouts that elapse, nearly elapse or never do, and a parent that is stopped before, during or never: 2 preemptions (3), one spurious wake-up, virtual time; with std::stop_token and with the C++17 replacement',
 'Real WatchDog.h; member lifetime errors show as races or uses of destroyed memory.', SCA)
doc('C04', BFS, 'closure over two lists and 3 elements for movable and for plain links, over two lists with elements in lists of three kinds at once, and over two single lists; thorough: 4 elements up to depth 6',
 'Real quick_list and single_list; state = memory graph of lists and elements; after every operation both directions of iteration, size, front/back and included() of every link are compared with vectors. Address sanitizer and poisoned memory find stale links.')
doc('C05', BFS, 'closure over all values of a bitmap of 1, 2, 3, 5 and 6 flags with every operand, 9 flags with single flags or 4 chosen ones (thorough: 9), boundary flags and their combinations for 32, 33, 63, 64, 65, 128, 255 and 300 flags; all 256 values and every edit of every name of 5 enums',
 'Real bitmap and EnumTraits; oracle: vector<bool> and the declared list of names.')
doc('C06', SEQ, 'all pairs and triples of 20 (thorough: 38) objects with three keys, and all keys, for 40 comparers over values and raw, shared and unique pointers (keys, functions, reversed, composed, composed of composed); lookups of every key in std::set and vector_set',
 'Real comparers; oracle: lexicographic comparison of the tuple of keys.')
doc('C07', BFS, 'closure over a pool with up to 5 objects (thorough: 7), several owners and a weak pointer, 5 reactions of a finaliser (nothing, make and drop, release another, make for a slot, clear the pool), allocation failure at each position and throwing constructors; singletons with 3 holders',
 'Real object_pool and singletons; oracle: owner table; construction, finalisation, destruction and allocation accounting.')
doc('C08', BFS, 'closure over 3 guards (thorough: 4) of a movable action and virtual ones, over owning pointers, over aggregators of 1 to 3 arguments: all constructions, moves, self-assignments, releases, resets, cancellations and destructions',
 'Real scope_guard, unique_ptr, aggregator; oracle: table of owed actions.')
doc('O01', BFS, 'closure over 2 subjects and 2 observers with one more place to move to (thorough: 3 observers); in every state every combination of 6 reactions of the notified observers, and nested notification or subscription by any one of them',
 'Real Observable/Observer in raw memory that is poisoned after destruction; oracle: list of subscribed observers per subject.',
 ['an observer that unsubscribes the next one during a notification is outside the contract (the code documents only itself)'])
doc('O02', BFS, 'closure over two sets of up to 2 keys (thorough: 3) and two observers that attach and leave at any moment (also from inside a notification): insertion of all kinds, emplacement, erasure of all kinds, clearing, copying, moving, swapping, migration, self-assignment, destruction; throwing element copies',
 'Real observable_set; every observer keeps a replica from its notifications alone, which must equal the set after every operation, and every notification must be the expected one at the expected moment.')
doc('O03', BFS, 'closure (no depth bound reached) over ten arrangements of up to two sources of up to three keys (thorough: four) and two or three foreign keys, up to three mirrors (mirrors of mirrors included) and two foreign sets, of values, shared, unique and plain pointers, which attach, detach, move, are copied, assigned and destroyed at any moment',
 'Real mirror_set and foreign_set on real observable_sets; a state is the concrete memory graph of all of them. After every transition each attached mirror must hold the elements of its source in its own order and each foreign set must group exactly the present elements by foreign key; a watcher checks the notifications of the foreign set too.',
 ['the copy constructor of an element does not throw while a source notifies; a mirror is not assigned from its own mirror'])
FORMS = 'about 95 types and nestings of them (every arithmetic, enum, string, container, optional, variant, pointer, time, bitmap, decimal, tuple and structure support of Io/Rw, and structures holding them)'
doc('S01', SEQ, FORMS + ' with all values of bounded generators (sequences of up to 2 elements, thorough: 3), each read into targets holding every other value, through 7 kinds of streams, in every format (plain, version-tolerant, Reader/PlainReader, Serializable wrappers), several objects in one stream; sequences with lengths around 65536 bytes, elements and multiples',
 'Real Read/Write. Oracle: the value itself in a canonical text; the position in the stream; a map from bytes to values finds two values with the same bytes.', ['variants with two equal alternatives and the padding of long double are left out (unsupported, indeterminate)'])
doc('S02', SEQ, FORMS + ': every truncation, 8 to 14 (thorough: 255) changes of every byte, with and without more data behind, nine huge numbers at every position, thorough: pairs of bytes; all formats including hashed and headered ones with several block sizes; all combinations of six format names, versions and limits',
 'Real Read. An outcome other than an I/O exception or a value that is valid, can be written and is read equal again is a violation, so is an allocation of more than 4 MB, a crash, a finding of the sanitizers, a truncated form that is accepted, a hashed form that is accepted although it differs, or an object changed by a failed atomic read.', ['flag bytes other than 0 and 1 are taken for true', 'elements without any bytes (empty structures) are left out'])
doc('S03', SEQ, 'every ordered pair of versions: flat structures of up to 3 of 6 fields in every order with type changes; 5 versions of a nested structure in 9 kinds of containers; two nested structures and types with equal names; deleted fields of 9 further types; all renamings of 3 fields over 40 new versions; two objects per stream',
 'Real Writer and Reader instantiated for each version. Oracle: field by field, the written value where name and type agree, the default otherwise, an I/O exception where the type of a name changed (or deletion is not allowed), the stream exactly at the end. Two known findings about vector<bool>.', ['a reader that does not know a type of a deleted field reports it (documented: types are skipped by name)', 'a structure has at least one field'])
doc('S04', SEQ, 'all ways to cut up to 10 (thorough: 12) bytes into writes and reads, empty ones included, for 4 hashes and 5 block sizes; for 7 block sizes, up to 19 (33) bytes of four patterns: all 255 changes of every byte, bursts of 2 to 8 bytes, lost, repeated, exchanged and added bytes, every cut; every failing call of the stream below, reading on afterwards; CRC of all strings of up to 2 bytes and of longer patterns; objects in every block size from 9 to 419',
 'Real hash streams. Oracle: a bitwise CRC-64 (Jones) and the block layout; delivered bytes are compared with the blocks in front of the damage.', ['what is left of a block after a cut may by chance be data and its hash (counted, not judged)', 'damage beyond bursts of 8 bytes is detected with the probability of the CRC only'])
doc('S05', SEQ, 'all histories of 4 (thorough: 6) operations on an object of 2 values, 3 (4) on one of 3: set, take a snapshot, write a snapshot, write directly, read back, write a snapshot to a failing stream, for 3 wrappers and 4 block sizes; measured, buffered, snapshot and direct bytes of ' + FORMS + ' with every value and every buffer size',
 'Real wrappers and streams. Oracle: the bytes of the direct write of a fresh object, themselves compared with header and version-tolerant form composed by hand.')
DEC = 'all 65536 values of a 16-bit decimal; for 32, 64 (exponents of 4, 5, 6 bits) and 128 bits (4, 5, 6) grids of mantissas: small ones, around every power of ten and of two, around the limits and the square roots and quotients of the limits, both signs'
doc('D01', SEQ, DEC + ', with every number of digits; every text of up to 6 characters (thorough: 8) of the alphabet "+-.019 e" for 16 bits, 5 (6) for the others, every other character inserted anywhere, and texts around every limit with up to 65537 zeros before, between and after the digits',
 'Real decimal, char and wchar_t. Oracle: an independent parser and printer on wide integers. Texts lie in exact-size heap blocks under the address sanitizer.', ['the global locale is the classic one'])
doc('D02', SEQ, DEC + ': every unary operation with every target number of digits (and 255); all pairs of the grids (16 bits: about 900 values, thorough 1800; 64 and 128 bits: several hundred values); integers and doubles around every limit with every number of digits',
 'Real decimal. Oracle: exact integer arithmetic on 512-bit integers; an exception is required exactly when the result does not fit. Undefined behaviour sanitizer throughout. One known finding: the constructor takes more digits than there can be.', ['aligning the operands of an addition is part of the addition: if that overflows an exception is right'])
doc('D03', SEQ, 'all pairs of about 3000 values of a 16-bit decimal (thorough: all 65536 x 65536 pairs) and of the grids for 32, 64 and 128 bits', 'Real decimal. All six operators are compared with the order of the exact values, which implies transitivity and totality.')
doc('G01', SEQ, 'every producer script of up to 3 steps (thorough: 4) of yielding a named object or a temporary, throwing, returning, delegating to a nested script of up to 2 (3) steps with and without catching, and fmap with a throwing function; async: also suspending; times every consumer of up to 5 steps: advance, stop, move, assign over, swap, reset, self-assign (one manipulation, thorough: two; three with two generators), and for async generators every order of resuming two consumers and of destroying suspended ones',
 'Real generator (of values, references, constant and rvalue references), fmap and async_generator. Oracle: the flat list of values and the exception of the script; every local, parameter, temporary and frame is accounted for as soon as its producer ends or is dropped.')
doc('G02', SEQ, 'every task script of up to 3 steps of 13 kinds (suspend, throw, await a new, kept, void or update task, catch, drop, move, release) with children of up to 2 suspensions or throws (thorough: also 4 steps with children of up to 1 and 2 steps with children of up to 3), times every order of resuming the suspended ones, awaiting the root before or after it ended, and moving, releasing or destroying it',
 'Real ProcessTask and UpdateTask. Oracle: the result computed from the script; every task ends once, every awaiter is resumed once and after that, frames and objects are accounted for.')
doc('G03', SEQ, 'up to 4 coroutines (thorough: 5) with one or two sleeps of 0 to 7 ticks, in every combination, also started from resumed coroutines; the virtual clock advances or not at each of the first 2 to 4 (8) readings',
 'Real TimeQueue and TimeAwaitable; the clock and nanosleep are replaced. Oracle: the due times recorded at registration.', ['resumed coroutines do not throw into the loop'])
doc('X01', SEQ, '128-bit integers around every power of ten and of two and all sums of two powers of two, 7 widths x 3 fills x 2 alignments, char and wchar_t; all pairs of strings of up to 3 characters (thorough: 4), triples of up to 2; all lists of up to 3 items; all 256 values of 3 enums and all names of up to 4 (5) characters; all 16-bit values and every pair of bytes of wider ones; all wide strings of up to 4 boundary code points and invalid byte strings; attribute values at the limits of every type',
 'Real helpers. Oracles: schoolbook doubling in decimal, ASCII lowering, a UTF-8 encoder, plain lists.', ['a width set for a signed 128-bit integer is rejected by an exception (documented)', 'floating point attributes are only tried with values of few digits'])
doc('X02', SEQ, 'every command line of up to 2 options (thorough: 3) of a menu of 39 (filters, lists of tests, loops, outputs, attributes with valid, invalid and missing values, wrong ones), each without a failing test and with each of 6 tests failing (with loops: at each round), 3 orders of linking',
 'The real main(), TestConsole, TestMap, CommandLineProvider and attributes over 6 linked tests. Oracle: an independent interpreter of the command line; executed tests, attribute values, output, summary and exit code are compared.', ['tests throw only TestException; timeouts are checked by T02'])
doc('H01', SEQ, 'all byte strings of up to 2 bytes (thorough: 3) and of up to 6 (8) over 5 boundary bytes, times 6 seeds; every single-bit seed; lengths up to 300; every split of the strings of up to 6 (7) bytes over 4; 5 iterator kinds; 11 element types; every burst of up to 11 (14) bits at every position of 12 (24) bytes',
 'Real Crc64, Int64Hash and FixedHash. Oracle: the CRC computed bit by bit from the polynomial of the specification.', ['the digests of OpenSSL are not built here'])
doc('R01', SEQ, 'all lists of up to 4 names (thorough: 5) out of 6 with every choice of blanks around every comma; all pairs of objects of 5 structures over small values; all 121 tuple shapes of up to 4 elements of 3 types; 253 type nestings; 5 structures of structures',
 'Real macros and templates, instantiated for every shape. Oracles: plain lists, a second writing of the type names, a CRC bit by bit.', ['std::hash distinguishes small integers and short strings, as in libstdc++'])
doc('M01', SEQ, 'all values of 8-bit types, all boundaries of wider ones; rounding of every sixteenth in -400..400 (thorough: 4000) and of every power of two with their neighbours, to 5 integer types; every half degree of four turns; all sequences of up to 6 (8) elements over 3 values', 
 'Real helpers. Oracle: the definition, in wider arithmetic.')
doc('T03', SEQ, 'every day of 1968..2102 (thorough: 1902..2200) in 3 zones, every second of one day, every half hour of two years in 2 zones with daylight saving time; durations of 9 units around every change of digits; 1596 histories of a stop watch',
 'Real make_time, StopWatch and format_duration; the clock of the watch is replaced. Oracles: counting days year by year, localtime, integer arithmetic.', ['a local time which the clock skips may be mapped to either side'])
doc('T04', SEQ, 'all messages of up to 3 (thorough: 4) of 7 special characters and of up to 5000 characters, as char and wchar_t, pointers and strings, at 5 levels', 
 'Real Logger, LogString and ConsoleLogger. The lines of the output are taken apart and compared; the time lies between readings before and after.')
doc('X03', SEQ, 'all histories of up to 4 registrations (thorough: 6) of 6 names with all 10 lookups after each; all histories of up to 3 (4) registrations of 4 functions under 4 names with creations by 10 names; the macros', 
 'Real StaticChain, StaticLink and create on a chain restarted for every history. Oracle: the list of registrations.', ['which of several links of the same name is found is left open'])
