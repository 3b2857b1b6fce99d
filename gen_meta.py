#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (PROPERTIES) and props.PROPS (the checks)."""
import json, os
import props
HERE = os.path.dirname(os.path.abspath(__file__))
PROPERTIES = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None)))

A = 'Awl/'
prop('C01', 'vector_set behaves as a sorted set with stable elements',
 'After any sequence of insertions, emplacements, erasures, clears, copies, moves and assignments (self-assignment included) a vector_set holds exactly the distinct values put in and not erased, in comparator order: iteration in both directions, front/back, find/contains, lower/upper bound, access by index and index_of all agree with that sequence, at() and index_of() of something absent throw std::out_of_range. An element keeps its address until it is erased, and every element and node is destroyed exactly once and returned to the allocator, also when an element constructor or the allocator throws.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of operations over a small key set (closed under all operations), every tree shape and colouring those reach',
 'Tests run a few fixed scripts and one random run; the index counters, links and list order must be right in every tree shape, including those only deletions in a particular order produce.',
 [A+'VectorSet.h', A+'QuickList.h', A+'QuickLink.h', A+'DoubleNodeIterator.h'], [('InsertNode/RemoveNode/rotations keep list, tree and subtree counts in step', A+'VectorSet.h'), ('intrusive list of nodes gives the iteration order', A+'QuickList.h')], ['vector_set public API'])
prop('C02', 'vector_set operations stay logarithmic',
 'However a vector_set was filled and emptied, looking up a key among n elements takes a number of comparisons proportional to log2(n+1): never more than a red-black tree of n elements may need (height at most 2*log2(n+1), at most two comparisons per level).',
 ['histories'], 'every history of insertions and erasures over a small key set, plus menus of insertion/erasure orders and sliding windows with up to hundreds of elements',
 'The tests compare contents, never the cost; a lost rotation or recolouring leaves every result right and the tree a list.',
 [A+'VectorSet.h'], [('BalanceAfterInsert', A+'VectorSet.h'), ('BalanceAfterRemove', A+'VectorSet.h')], ['comparator calls'])
prop('C03', 'ring is a bounded double-ended queue that overwrites the far end when full',
 'For any sequence of operations a ring contains exactly the most recently pushed values that fit its capacity, minus those popped, in push order: pushing to one end of a full ring discards the element at the other end, reserve keeps the newest elements that fit, copies and moves are independent of their source, and a default-constructed or moved-from ring is empty. Indexing, iterators in both directions, front/back, size/full/capacity and equality all describe that sequence, at() throws std::out_of_range for every index not smaller than size(), and every stored element is constructed and destroyed exactly once, also when the pushed value is an element of the ring or its copy throws.',
 ['histories', 'inputs'], 'every history over capacities 0..6 and two values, i.e. every (capacity, size, wrap position, contents)',
 'The tests use a few capacities and positions; wrap-around, overwrite, shrink and aliasing interact only in particular positions.',
 [A+'Ring.h'], [('allocate_next/allocate_prev', A+'Ring.h'), ('address/next/prev wrap-around', A+'Ring.h')], ['ring public API'])
prop('C04', 'Intrusive lists keep every link exactly where it was put',
 'For any sequence of push, pop, insert, exclude, splice, move and destruction, a quick_list or single_list contains exactly the linked elements in order, forwards and backwards, and each element knows whether it is included; an element that is excluded disappears from the list and its neighbours stay linked to each other, a movable link that is moved (also to itself) keeps its place through the moved-to element, and an element with several links is in several lists independently. Moving a list transfers all the elements and leaves the source empty and usable. (An element with a plain link has to be excluded before it is destroyed, and clear() only forgets the elements.)',
 ['histories'], 'every history of list and link operations over two lists and up to four elements',
 'Tests check a handful of insertions; broken back links only show in a later reverse iteration or exclusion.',
 [A+'QuickList.h', A+'QuickLink.h', A+'SingleList.h', A+'SingleLink.h', A+'DoubleIterator.h', A+'SingleIterator.h'], [('basic_quick_link insert/exclude', A+'QuickLink.h'), ('quick_list splice/attach', A+'QuickList.h')], ['list iteration, link.included()'])
prop('C05', 'bitmap is an exact set of enum values',
 'A bitmap reports precisely the flags that were set and not cleared since, for any sequence of set, reset, assignment, union, intersection, exclusive or, complement and comparison, for enums of any size (beyond 64 flags as well); each enum value has exactly the name and index it was declared with, whatever the spacing of the declaration.',
 ['histories', 'inputs'], 'all subsets and all operation pairs over them for several enum sizes',
 'Tests try a few flags of one enum; masks and shifts go wrong at the edges (first, last, all, none).',
 [A+'BitMap.h', A+'EnumTraits.h'], [('bitmap operators', A+'BitMap.h')], ['bitmap public API'])
prop('C06', 'Composed comparers are strict weak orders and agree on keys',
 'KeyCompare, CompositeCompare, TransparentCompositeCompare, ReverseCompare and the pointer variants order objects exactly as the lexicographic tuple of their keys (reversed where asked): irreflexive, asymmetric, transitive, with transitive equivalence. Comparing an object with a key gives the same answer as comparing it with any object having that key, in both argument orders.',
 ['inputs'], 'all pairs and triples over a small domain of composite objects for every comparer combination',
 'The tests sort one or two vectors; a wrong branch shows only for particular ties.',
 [A+'KeyCompare.h', A+'CompositeCompare.h', A+'TransparentCompositeCompare.h', A+'ReverseCompare.h', A+'Getters.h'], [('Compare<Index>', A+'CompositeCompare.h')], ['comparer call results'])
prop('C07', 'Pooled objects have one owner at a time and are finalised exactly once per use',
 'object_pool hands out an object that nobody else holds, returns it to the pool when its last owner releases it, runs its finalisation exactly once per use, creates a new object only when no free one exists, and destroys each object exactly once, at the latest when the pool is destroyed (which has to outlive its users); the finalisation may itself use the pool, and a failing allocation or constructor leaves the pool as it was. Shared and on-demand singletons are created once and live exactly as long as someone holds them.',
 ['histories'], 'every history of make/release/copy/destroy operations up to a depth with up to four objects',
 'Tests follow one happy path; the bug classes are double release and resurrection in a particular order.',
 [A+'ObjectPool.h', A+'PooledObject.h', A+'SharedSingleton.h', A+'StaticSingleton.h'], [('pool deleter', A+'ObjectPool.h')], ['constructor/destructor/finalise counts'])
prop('C08', 'Ownership helpers act exactly once',
 'A scope guard runs its action exactly once, when the guard that finally owns it is destroyed or told to, and never after it was released, however guards were moved; an owning pointer deletes exactly the objects it was not told to release; an aggregator calls its function once, with the values set last, exactly when every argument has been set and it was not cancelled. Self-assignments change nothing. (What happens to the action of an engaged guard that another guard is assigned over, and an aggregator after its call, are not specified.)',
 ['histories'], 'every sequence of construct, move, assign, release, reset, set and destroy operations up to a depth over two or three objects',
 'Tests cover construction and one move.',
 [A+'ScopeGuard.h', A+'UniquePtr.h', A+'Aggregator.h'], [('scope_guard engaged flag', A+'ScopeGuard.h')], ['action counts'])
prop('O01', 'Observers get every notification exactly once and lifetimes unsubscribe safely',
 'A notification reaches every observer subscribed at that moment exactly once, in subscription order, even when observers unsubscribe, move or destroy themselves or unsubscribe earlier ones as a consequence; an exception of an observer ends the notification and comes out of it, and NotifyWhileTrue stops at the first refusal. Arguments reach every observer undamaged. Destroying or moving an observer or an observable in any order leaves the remaining ones consistently linked: a moved observer stays subscribed in its place, a moved observable keeps its observers, a destroyed or overwritten one leaves them unsubscribed, and assigning one to itself changes nothing.',
 ['histories'], 'every history of subscribe/unsubscribe/move/destroy/notify operations, with every reaction of an observer during a notification, up to a depth with two observables and three observers',
 'Tests cover one reaction at a time; iterator invalidation depends on which neighbour goes.',
 [A+'Observable.h', A+'QuickLink.h', A+'QuickList.h'], [('Observable::Notify iterates with a saved next', A+'Observable.h'), ('Observer move re-links', A+'QuickLink.h')], ['callbacks received'])
prop('O02', 'observable_set tells its observers exactly what happens to it',
 'The history of an observable_set is reproduced by replaying its notifications: each added element is announced exactly once after it is in the set, each removed element exactly once while it is still there, clearing announces itself once, and nothing is announced when nothing changes. A replica driven only by the notifications always equals the set.',
 ['histories'], 'every history of insert/emplace/erase/clear/assign/copy/move over a small key set',
 'Tests check two or three fixed histories.',
 [A+'ObservableSet.h'], [('insert/erase/clear notify', A+'ObservableSet.h')], ['observer callbacks'])
prop('O03', 'mirror_set and foreign_set always reflect their sources',
 'At every moment a mirror_set contains exactly the elements of its source ordered its own way, and a foreign_set groups exactly the present elements by their foreign key, whatever sequence of changes the source undergoes, whenever they were attached, and after the source or the mirror is destroyed.',
 ['histories'], 'every history of source changes over a small element set, from every attachment point',
 'Tests check fixed additions and removals.',
 [A+'MirrorSet.h', A+'ForeignSet.h', A+'ObservableSet.h'], [('OnAdded/OnRemoving/OnClearing handlers', A+'MirrorSet.h')], ['contents after each change'])
prop('D01', 'A decimal survives conversion to text, bits and streams',
 'Converting a decimal to text and back gives an equal value, and its bit representation and writing and reading it keep the number of digits and the sign as well; the text is the canonical fixed-point notation of the value. Text that is not a number, or that does not fit, is rejected with an exception and never yields a value.',
 ['inputs'], 'every representable value for small mantissa widths, every string over {digits, sign, point, junk} up to a length, and boundary values for 64 and 128 bit',
 'Tests convert a few dozen literals.',
 [A+'Decimal.h', A+'DecimalData.h', A+'DecimalConstants.h'], [('from_string/to_string', A+'Decimal.h')], ['strings, bits'])
prop('D02', 'Decimal arithmetic and rescaling are exact or reported',
 'Addition, subtraction, negation, multiplication of two decimals, conversion from and to integers, rescaling, truncation, rounding up and down (also of negative values) and removal of trailing zeros return exactly the mathematical result at the stated precision, and conversion from and to floating point is correct within the precision of a double. If the result cannot be represented an exception is thrown: no operation ever returns a silently wrapped or truncated value. (The operators * and / work through double by design.)',
 ['inputs'], 'all operand pairs for a 16-bit mantissa, boundary grids for 32, 64 and 128 bits, compared with exact integer arithmetic',
 'Tests use a few literals; carries at mantissa limits, mixed exponents and signs need systematic pairs.',
 [A+'Decimal.h', A+'DecimalData.h'], [('rescale/normalize', A+'Decimal.h')], ['results or exceptions'])
prop('D03', 'Decimal comparison is a total order consistent with equality',
 'For any two decimals exactly one of less, equal and greater holds, it is the order of the mathematical values whatever the numbers of digits and the sign of zero, and all six comparison operators agree.',
 ['inputs'], 'all pairs (and all triples of a subset) for small mantissa widths; boundary grids for 64 and 128 bit',
 'Tests compare a few literals of equal scale.',
 [A+'Decimal.h'], [('compare', A+'Decimal.h')], ['comparison results'])
prop('S01', 'Everything written can be read back equal, consuming exactly what was written',
 'For every supported type and nesting (arithmetic, enum, string, containers, optional, variant, pointers, time, bitmap, decimal, tuples and reflected structures) reading what Write produced gives an equal value, whatever value the target held before, and consumes exactly the bytes written; two values that differ never have the same bytes.',
 ['inputs', 'programs'], 'all values of a bounded generator per type, all pairs of (previous target value, written value), through every stream kind and chunking',
 'Tests write one value of each type into a fresh target.',
 [A+'Io/ReadWrite.h', A+'Io/Rw', A+'Io/VectorStream.h', A+'Io/StdStream.h', A+'Io/PlainSerializable.h'], [('Read/Write overloads', A+'Io/Rw')], ['bytes and values'])
prop('S02', 'Truncated or damaged input is reported, never misread or fatal',
 'Reading a stream that ends early, at any byte, or whose type indices, counts or enum values are out of range, throws an I/O exception; it never crashes, hangs, allocates memory out of proportion to the input, quietly succeeds with missing data or yields something that is not a value of its type, and an object whose reading failed keeps its previous value where the format promises so. (A flag byte other than 0 counts as true.)',
 ['inputs', 'fault_sequences'], 'every truncation point and every single-byte change (all or boundary values) of serialized bounded values in every format',
 'Tests corrupt one chosen byte of one file.',
 [A+'Io/SequentialStream.h', A+'Io/Reader.h', A+'Io/Rw', A+'Io/HeaderedSerializable.h', A+'Io/EuphoricallySerializable.h', A+'Io/IoException.h'], [('ReadRaw end-of-file checks', A+'Io/Rw'), ('format header checks', A+'Io/HeaderedSerializable.h')], ['exceptions, target values'])
prop('S03', 'Version-tolerant data keeps the fields the two versions share',
 'Data written by one version of a structure and read by another with fields added, removed or reordered (also inside nested structures, vectors, optionals and variants) yields, for every field both versions have with the same name and type, the written value, leaves every field the old version did not have at its default, ignores the deleted ones (unless told not to allow deletion), and leaves the stream exactly at the end of the data; fields and types that were renamed are found by the map given for them, and a field whose type has changed is reported. (A reader has to know the types of the fields it skips.)',
 ['programs', 'inputs'], 'all pairs of (old, new) structure versions drawn from all ordered subsets of a field pool, with nesting, times small value sets',
 'Tests define two versions and one value.',
 [A+'Io/Reader.h', A+'Io/Writer.h', A+'Io/PrototypeContainer.h', A+'Io/FieldMap.h', A+'Io/Vts.h', A+'Io/VersionTolerantSerializable.h', A+'Prototype.h', A+'Mp/TypeDescriptor.h'], [('field map by name', A+'Io/FieldMap.h'), ('skippers for deleted fields', A+'Io/Reader.h')], ['values read, stream position'])
prop('S04', 'A hashed stream returns the written bytes or reports corruption',
 'Whatever the sizes of the individual writes and reads and the block size, a hash stream returns exactly the byte sequence written followed by end-of-file; if any byte of the stored form is changed, or the stored form is cut inside a block, reading up to that point throws a corruption exception and never delivers a byte that was not verified, not even when the reader goes on after the exception. A stream cut exactly between two blocks ends there. A failure of the stream below is reported, and a block is never written twice because of it.',
 ['inputs', 'fault_sequences'], 'all write/read chunkings of short sequences for all small block sizes, every single-byte and burst change, every truncation',
 'Tests corrupt one position with one block size.',
 [A+'Io/HashStream.h', A+'Io/HashingSerializable.h', A+'Crypto'], [('block hash check', A+'Io/HashStream.h')], ['bytes delivered, exceptions'])
prop('S05', 'Measured, buffered and snapshot writing produce the same bytes as direct writing',
 'The size predicted by measuring equals the number of bytes written, an object saved through a snapshot, a buffer or any combination of headers and hashing produces exactly the bytes of the direct write of the value it had when the snapshot was taken, and changes made afterwards do not show.',
 ['inputs', 'programs', 'histories'], 'bounded values of every serializable wrapper, every buffer size, every modification after the snapshot',
 'Tests compare one value.',
 [A+'Io/MeasureStream.h', A+'Io/BufferedStream.h', A+'Io/Snapshotable.h', A+'Io/SerializationContext.h', A+'Io/VersionTolerantSerializable.h'], [('MakeShanpshot/WriteSnapshot', A+'Io/Snapshotable.h')], ['bytes'])
prop('A01', 'An atomically stored value survives a crash at any moment',
 'If the process or machine stops at any point during Save or during recovery, with any subset of the unsynced data lost or torn, a later Load yields a complete value: the one being saved or the last one whose Save had returned, never a mixture, never an older one and never nothing once a Save has returned. Loading after a crash can itself be interrupted any number of times without changing this.',
 ['crash_points', 'histories'], 'every prefix of the I/O log of 1-3 saves (and of recovery), every subset of unsynced writes dropped, kept or torn at sector granularity, file size updated or not',
 'Tests save and load without any crash; the ordering of writes and syncs between the two files is invisible to them.',
 [A+'Io/AtomicStorage.cpp', A+'Io/AtomicStorage.h', A+'Io/PersistentObject.cpp', 'Platforms/Posix/Awl/Io/Native'], [('backup first, flush, then master, flush, truncate backup', A+'Io/AtomicStorage.cpp'), ('hash decides which copy is valid', A+'Io/HashingSerializable.h')], ['Load result'])
prop('A02', 'Storage errors are reported and never lose the stored value',
 'If any file operation fails or transfers less than asked (disk full, I/O error) while saving or loading, the operation throws an I/O exception, nothing terminates the process, the file handles stay usable or closed, and a later Load still yields the value being saved or the last successfully saved one; after the fault has passed a new Save works.',
 ['fault_sequences'], 'every single failing call (and every pair) of every history of up to three operations, each error kind',
 'Tests never make I/O fail.',
 [A+'Io/AtomicStorage.cpp', A+'Io/OptionalStorage.cpp', A+'Io/PersistentObject.cpp', A+'Io/HashStream.h', 'Platforms/Posix/Awl/Io/Native'], [('exceptions from PosixStream', 'Platforms/Posix/Awl/Io/Native')], ['exceptions, Load result'])
prop('A03', 'Saving concurrently with modification stores a consistent snapshot',
 'When a value guarded by a mutex is saved with that mutex while other threads modify it under the mutex, what is stored is the value at one instant between the start and the end of the Save, and so is what a crash during the Save leaves (or the value saved before); the mutex is held only while the snapshot is taken and never during a file operation, it is released when the Save fails, and no schedule deadlocks or races.',
 ['schedules'], 'all interleavings up to a preemption bound of 2-3 threads doing 1-2 operations',
 'Tests save from one thread.',
 [A+'Io/AtomicStorage.cpp', A+'OptionalMutex.h', A+'Io/Snapshotable.h'], [('snapshot under lock', A+'Io/AtomicStorage.cpp')], ['stored value'])
prop('U01', 'Every queued update is applied exactly once, in order',
 'In any interleaving of threads pushing updates with the thread applying or clearing them, each pushed update is applied exactly once or cleared exactly once, never both and never after that; updates of one producer are applied in the order they were pushed, an update pushed before an apply begins is applied by it or by an earlier one, and the resources of an update are released once. Updates may push further updates; an update that throws ends that apply, the rest of its batch is released without being applied, and the queue stays usable.',
 ['schedules', 'histories'], 'all interleavings up to a preemption bound of two or three producers with a consumer, one to three operations each; all single-threaded histories with re-entrant and throwing updates up to a depth',
 'The test runs one random schedule and checks a total.',
 [A+'UpdateQueue.h'], [('lock-protected lists of blocks', A+'UpdateQueue.h')], ['applied updates'])
prop('J01', 'A stop request reaches every callback exactly once',
 'Exactly one stop request on a stop state succeeds; every registered callback runs exactly once, in the requesting thread or in its own constructor if the request came first; deregistering waits for its own running callback in another thread, does not wait for others or for itself, and afterwards the callback never runs. Tokens, sources and callbacks may be copied, moved and destroyed in any order and thread without leak, race or deadlock.',
 ['schedules', 'histories'], 'all interleavings up to a preemption bound of 2-3 threads, and all single-threaded histories up to a depth',
 'Stress tests sample schedules.',
 ['Extras/JThread/JThreadExtras/stop_token.hpp'], [('stop state with lock bits and reference counts', 'Extras/JThread/JThreadExtras/stop_token.hpp')], ['callback calls, return values'])
prop('J02', 'An interruptible wait never misses a notification or a stop',
 'A waiting thread wakes up when notified or when stop is requested, whatever the interleaving with the entry to the wait; the wait returns with the lock held and its result equals the predicate, and no schedule deadlocks or touches a destroyed condition variable.',
 ['schedules'], 'all interleavings up to a preemption bound of a waiter, a notifier and a stopper',
 'Race tests sample schedules.',
 ['Extras/JThread/JThreadExtras/condition_variable_any2.hpp'], [('stop callback takes the internal mutex', 'Extras/JThread/JThreadExtras/condition_variable_any2.hpp')], ['wait results'])
prop('J03', 'A jthread is always stopped and joined',
 'Destroying or assigning over a joinable jthread requests stop and joins its thread; moving transfers the thread and its stop source; a thread function taking a stop token gets the token of its own jthread; no schedule leaves a thread running, unjoined or stopped without a request.',
 ['schedules', 'histories'], 'all interleavings up to a preemption bound of an owner and its threads; all ownership histories up to a depth',
 'Tests run each constructor once.',
 ['Extras/JThread/JThreadExtras/jthread.hpp'], [('destructor', 'Extras/JThread/JThreadExtras/jthread.hpp')], ['joined threads'])
prop('T01', 'An interruptible sleep ends at the timeout or promptly on stop',
 'sleep_for with a stop token returns no earlier than the timeout unless stop was requested, and promptly once stop is requested at any moment before or during the sleep; a request is never missed, and no schedule deadlocks, races or leaves a callback behind.',
 ['schedules'], 'all interleavings of sleeper and stopper up to a preemption bound under a virtual clock',
 'Tests use real sleeps, where the window is microseconds wide.',
 [A+'Sleep.h'], [('stop callback notifies the condition variable', A+'Sleep.h')], ['virtual time of return'])
prop('T02', 'A watchdog reports a stall once it happens and only then, and stops cleanly',
 'A watchdog calls its log function exactly once when its timeout has elapsed while it existed and stop was not requested, never earlier and never after its destruction, and then requests stop on its token; a stop of its parent token stops its token without logging; destroying it before the timeout is prompt. No schedule races, deadlocks or uses destroyed members.',
 ['schedules'], 'all interleavings of the watchdog thread with its owner up to a preemption bound under a virtual clock',
 'Tests use real time and one schedule.',
 [A+'WatchDog.h'], [('thread loop', A+'WatchDog.h')], ['log calls'])
prop('G01', 'Generators yield every value once, in order, and release their frame',
 'Iterating a generator or an async generator yields exactly the values produced, in order, once, passes on an exception thrown by the producer at the point where it happens, and destroys the coroutine frame and everything in it exactly once wherever the consumer stops, also after moves.',
 ['histories', 'programs'], 'all producer scripts (yield, await, throw, return, recursion) up to a length times all consumer scripts (advance, stop, move, destroy)',
 'Tests iterate one generator to the end.',
 [A+'Coro/Generator.h', A+'Coro/AsyncGenerator.h'], [('promise and iterator', A+'Coro/Generator.h')], ['values, exceptions, frame destruction'])
prop('G02', 'Coroutine tasks complete exactly once and hand over result or exception',
 'A task runs to its result exactly once, an awaiting coroutine is resumed exactly once after it with its value or exception, whether the task finished before or after being awaited, and frames are destroyed exactly once in every order of destruction, move and release of the task objects; a released update task runs to its end and then frees itself, whether it is released before or after that.',
 ['histories', 'programs'], 'all scripts of tasks awaiting each other, suspending and throwing, times all resume/destroy orders up to a depth',
 'Tests run one chain.',
 [A+'Coro/ProcessTask.h', A+'Coro/UpdateTask.h'], [('continuation in final_suspend', A+'Coro/ProcessTask.h')], ['values, resumptions'])
prop('G03', 'Timers fire in order of their due time',
 'Coroutines sleeping in the time queue are resumed exactly once, never before their due time, in the order of due times, and the loop ends when none is left.',
 ['histories', 'inputs'], 'all sets of up to four timers with due times from a small set, registered in any order, also from resumed coroutines, under a virtual clock',
 'No test looks at the order.',
 [A+'Testing/TimeQueue.h'], [('priority queue by target time', A+'Testing/TimeQueue.h')], ['resumption order'])
prop('X01', 'Text helpers are exact',
 'Formatting 128-bit integers (with any width, fill and alignment), joining with separators, comparing C strings with and without case (for ASCII; a strict weak order consistent with equality for all characters), converting enums to names and back, converting to and from big-endian byte arrays, multi-byte conversion, fixed strings and the text form of test attributes give the exact, mutually consistent result for every input, and reject what has none.',
 ['inputs'], 'all values near every digit and byte boundary, all strings over a small alphabet up to a length (all pairs)',
 'Tests use single examples.',
 [A+'String.h', A+'StringFormat.h', A+'Separator.h', A+'EnumTraits.h', A+'FixedString.h', A+'Int2Array.h', A+'Testing/Formatter.h'], [('operator << for int128', A+'String.h')], ['strings'])
prop('X02', 'The test runner runs exactly the selected tests with the given attributes',
 'Selecting tests by a filter (a regular expression matching the whole name), by a list of names or by default runs each selected linked test exactly once (or as often as the loop option says) in name order and no other, and stops at the first that fails; the summary, the output mode and the exit code (zero exactly if everything passed) tell the truth; command-line options reach the tests with the given value, or with the declared default if absent or malformed; a wrong command line is reported and runs nothing.',
 ['inputs', 'configurations'], 'all filters and command lines from a small grammar over a small set of linked tests',
 'The runner is what runs the tests; none tests it.',
 [A+'Testing/TestMap.cpp', A+'Testing/TestConsole.cpp', A+'Testing/CommandLineProvider.cpp', A+'Testing/LocalAttribute.h', A+'Testing/TestChain.h', A+'Testing/TestAssert.h', 'Main/main.cpp'], [('TestMap::RunAll', A+'Testing/TestMap.cpp')], ['executed tests, attribute values'])
prop('H01', 'A digest is the same portable function of the bytes everywhere',
 'The checksum of a sequence is the specified CRC-64 (Jones) with the given seed for every sequence, whatever iterator, container, literal or string type it is read through, at run time and at compile time, with wider elements counted as their bytes in big-endian order; it continues over a split by seeding with the digest of the head, and it changes when a burst of bits is damaged, a byte is lost or added, or unequal neighbours are swapped.',
 ['inputs'], 'all byte strings up to a length, all seeds of a set, all splits, all bursts of a width at every position',
 'Tests check round trips through hash streams, for which any function would do.',
 [A+'Crypto/Crc64.h', A+'Crypto/IntHash.h', A+'Crypto/FixedHash.h', A+'Int2Array.h'], [('operator ()', A+'Crypto/Crc64.h')], ['digests'])
prop('R01', 'Reflection, member-wise operators and type names follow the declaration',
 'A reflected structure lists exactly its members, by name and in the given order, for every spelling of the list; its tuple refers to the members themselves; member-wise comparison is the lexicographic order of the members, equal objects hash equally and the hash depends on every member; prototypes give each field its name and type index; tuple helpers visit every element once in order and keep types and references; the name and hash of a type are those the version tolerant format defines, and the types collected from a structure are all types it contains, each once, in order of first occurrence.',
 ['inputs', 'programs'], 'all member lists of up to four names in every spelling, all pairs of small objects, all tuple shapes of up to four elements of three types, all type nestings up to a depth',
 'Tests have a few structures and spellings.',
 [A+'Reflection.h', A+'Tuplizable.h', A+'Hashable.h', A+'Prototype.h', A+'TupleHelpers.h', A+'Mp/TypeDescriptor.h', A+'Mp/TypeCollector.h', A+'Mp/TypeHash.h', A+'Mp/TupleToVariant.h', A+'Mp/VariantFromStructs.h'], [('MemberList', A+'Reflection.h'), ('type_descriptor', A+'Mp/TypeDescriptor.h')], ['names, tuples, relations, type lists'])
prop('M01', 'Numeric helpers are exact on the whole range',
 'sign, clamp (by any order), rounding to the nearest integer (positive and negative), conversion of angles, integer ranges and the test whether a changed element is out of order in its range are right for every value of the type, and every thread has a random engine of its own.',
 ['inputs'], 'all values of small types, all boundary values and halves with their neighbours of wide ones, all short sequences',
 'There are no tests of most of them.',
 [A+'Math.h', A+'IntRange.h', A+'RangeUtil.h', A+'Random.h'], [('round', A+'Math.h'), ('position_changed', A+'RangeUtil.h')], ['results'])
prop('T03', 'Times and durations are converted exactly',
 'make_time gives the time point at which the local clock shows the given year, month (from 0), day, hour, minute and second, in summer and winter, with the added fraction; a stop watch shows exactly the time since its start or reset in every unit and reports an interval as elapsed from its end on; a duration is printed as hours, minutes, seconds and all its fractional digits, with its sign.',
 ['inputs', 'histories'], 'all days of a century in several time zones, durations around every change of digits, all histories of a stop watch over a set of gaps under a virtual clock',
 'Tests convert one time, and only where localtime_s exists.',
 [A+'Time.h', A+'StopWatch.h'], [('make_time', A+'Time.h'), ('HasElapsed', A+'StopWatch.h')], ['time points, texts'])
prop('T04', 'A logger passes every message on once, unchanged, with its level',
 'Whatever string type a message (text without null characters) comes as, each logging function hands exactly its text with the level of its name to the sink, once, and the console logger writes one line per message in order: the current time, the name of the level and the text.',
 ['inputs', 'histories'], 'all messages of up to three special characters and long ones, in four string types, at all levels',
 'No test looks at the output.',
 [A+'Logger.h', A+'LogString.h', A+'ConsoleLogger.h', A+'LogLevel.h'], [('log', A+'ConsoleLogger.h')], ['log lines'])
prop('X03', 'Static chains and factories find exactly what was registered',
 'Iterating a static chain visits every registered link once, a lookup finds a link exactly if its name was registered (names are compared as a whole and with case) and gives its value, which can be changed in place; create calls a function registered under the name with these argument types exactly once, passes the arguments on without copying and its result or exception back, and reports a name that is not registered by an exception naming it.',
 ['histories', 'inputs'], 'all histories of registrations of up to four names (equal, prefix, case, empty), each followed by all lookups and creations',
 'Tests register a few names once.',
 [A+'StaticChain.h', A+'StaticFactory.h', A+'StaticSingleton.h'], [('find', A+'StaticChain.h'), ('create', A+'StaticFactory.h')], ['links, calls'])

NOT_YET = 'no check built yet'
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES: f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    ids = {p['id'] for p in PROPERTIES}
    for p in PROPERTIES:
        s = props.PROPS.get(p['id'])
        if s and s.get('claim', True):
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                thorough_cmd='python3 check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                technique=s.get('technique', 'bounded exhaustive model checking of the real code'), level=s['level'], level_note=s.get('note', 'to be described')))
        else:
            na.append(dict(property=p['id'], reason=(s or {}).get('na', NOT_YET)))
    for k in props.PROPS: assert k in ids, k
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='Harnesses include the real sources of /repo and enumerate bounded behaviours exhaustively; no hooks in /repo are needed.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    import glob
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(open(os.path.join(HERE, 'design_head.md')).read())
        for p in PROPERTIES:
            s = props.PROPS.get(p['id'])
            f.write('\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
            if not s:
                f.write('Planned: %s. %s\n' % (p['quantifier']['text'], p['why_tests_cant']))
                continue
            f.write('* Method: %s.\n* Bounds: %s.\n* How and against what: %s\n* Beyond the tests: %s\n' % (s.get('technique', ''), s.get('bounds', ''), s.get('note', ''), p['why_tests_cant']))
            for a in s.get('assumptions', []): f.write('* Assumes: %s.\n' % a)
        f.write('\n' + open(os.path.join(HERE, 'design_tail.md')).read())
        f.write('| planted bug | property | needs | caught by |\n|---|---|---|---|\n')
        caught = {}
        fn = os.path.join(HERE, 'seeded_results.txt')
        if os.path.exists(fn):
            for l in open(fn):
                k = l.split(None, 1)
                if len(k) == 2: caught[k[0]] = k[1].strip()
        for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
            m = json.load(open(d))
            i = os.path.basename(os.path.dirname(d))
            f.write('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), caught.get(i, 'not run yet')))
    print(len(checks), 'checks,', len(na), 'not claimed')
if __name__ == '__main__': main()
