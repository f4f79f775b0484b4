#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None)))

S='schedules'; C='crash_points'; I='inputs'; PR='programs'; H='histories'; CF='configurations'; F='fault_sequences'
AS='Awl/Io/AtomicStorage.cpp'; ASH='Awl/Io/AtomicStorage.h'; NS='Platforms/Posix/Awl/Io/NativeStream.h'

prop('C01','Saved state survives a crash at any point',
 'After a power loss or a process kill at any instant, including while a previous recovery is running, reopening and loading the atomic storage yields a value equal as a whole to the last value whose save had completed or to one whose save had been started after it, never a mixture, never garbage. Once a save or a load has returned a value, nothing older is loaded any more. If nothing was ever saved completely, loading either reports failure and leaves the object as it was or yields a value whose save had been started.',
 [C,H,F],'every history of sessions that open, load and then save and reload, every crash point between two disk operations, every subset and tearing of the writes not yet flushed, nested crashes during recovery, every block size and value size',
 'Tests only save, truncate or overwrite whole files between operations; no test stops in the middle of a save or lets unsynced sectors reach the disk in another order.',
 [AS,ASH,'Awl/Io/PersistentObject.h',NS,'Awl/Io/HashStream.h'],
 [('backup is written and flushed before the master, cleared after it',AS),('recovery restores the master from a valid backup before dropping it',AS),('blocks carry hashes',"Awl/Io/HashStream.h"),('truncate and fsync after each write',ASH)],
 ['value returned by load after reboot'],[('master and backup file','the two copies',ASH)])

prop('C02','A failing disk never costs the last saved value and is never hidden',
 'Whatever I/O calls fail during a save (errors, full disk, short transfers), the save either throws a catchable I/O error or succeeds; it never terminates the program and never reports success for a value that is not on disk. After any number of failed saves, also combined with a crash or a reopen, the value loaded is the last successfully saved one or one whose save was attempted later, and once the faults stop the next save on the same storage succeeds and sticks.',
 [F,C,H],'every sequence of failing write/truncate/flush/seek/read calls with errno EIO, ENOSPC, EDQUOT, every disk capacity, interleaved with crashes, reopen, load and retries',
 'No test makes a system call fail; the only failures tested are corrupted file contents.',
 [AS,ASH,NS,'Awl/Io/HashStream.h','Awl/Io/HashingSerializable.h'],
 [('the master is only touched after the backup is safely on disk',AS),('errors of system calls become exceptions',NS),('buffered data is flushed and checked before the save is acknowledged','Awl/Io/HashStream.h')],
 ['exception or success of save','value returned by load'])

prop('C03','Damaged files never load as a value; the intact copy is used',
 'If stored bytes of one or both copies are changed, cut short or lost, loading never yields anything but a value that was saved, never crashes, and leaves the object as it was when it reports that nothing could be loaded. As long as one complete copy is intact the load succeeds with it, and after a successful load the storage holds a value that can be loaded again.',
 [I,F,H],'every corruption (bit flips, overwritten and zeroed ranges, truncation, bytes added, empty or missing file; not whole valid blocks moved or added) of master and/or backup, every value and block size, every transient read error while loading, followed by further loads and saves',
 'Tests corrupt a handful of fixed patterns in one file with one block size and no read errors.',
 [AS,'Awl/Io/HashStream.h','Awl/Io/HashingSerializable.h','Awl/Io/EuphoricallySerializable.h','Awl/Io/VersionTolerantSerializable.h'],
 [('per block hash checked before bytes are used','Awl/Io/HashStream.h'),('object is only assigned after the whole value was read','Awl/Io/VersionTolerantSerializable.h'),('backup first, master second',AS)],
 ['load result and object value'])

prop('C04','Saving under a lock stores one point in time and blocks writers only briefly',
 'When a value shared between threads is saved with its mutex passed in, what reaches the files is a state the value had while that mutex was held during the save, never a torn one, for every interleaving with threads that modify the value under the mutex. The mutex is released on every path, including when the save fails, and is not held while the files are being written.',
 [S,F,C],'all interleavings of saving and modifying threads, failing allocations and disk faults during the save, crashes',
 'The only test saves from one thread.',
 [AS,'Awl/Io/EuphoricallySerializable.h','Awl/Io/Snapshotable.h','Awl/OptionalMutex.h'],
 [('serialize to memory under the lock, write the snapshot after unlocking',AS),('unique_lock',AS)],
 ['stored value','lock state seen by other threads'])

prop('C05','Hashed streams deliver exactly what was written or report corruption',
 'Bytes written through a hashing output stream in any pieces come back in order from the hashing input stream when read back in any pieces, for every block size. If the stored bytes are altered (other than replacing whole blocks by other complete valid ones), or cut anywhere inside a block, reading reports corruption or the end of the data instead of ever delivering a byte that differs from the one written at that position; this holds as well for what is read after an error was reported. Failures of the underlying stream reach the caller and never terminate the program; output that was not completely handed to the underlying stream is never reported as written.',
 [I,F,H],'every sequence of writes and reads, block sizes and hashes, every alteration or truncation of the stored bytes, every failure point of the underlying stream',
 'Tests corrupt single bytes at a few places for a few block sizes; no test fails or splits the underlying transfers.',
 ['Awl/Io/HashStream.h','Awl/Io/BufferedStream.h','Awl/Crypto/Crc64.h','Awl/Crypto/BasicHash.h'],
 [('hash appended to every block','Awl/Io/HashStream.h'),('hash compared before any byte of the block is handed out','Awl/Io/HashStream.h')],
 ['bytes delivered, exceptions'])

prop('C06','Version tolerant loading is all or nothing',
 'Loading a stored value (plain, version tolerant, hashed or headered), of the same or of an older layout, into an object either completes or throws, and when it throws, for any reason (data cut short at any byte, stream error, incompatible or missing field types and, for movable values, a failing allocation), the object has exactly the value it had before. When it completes, all fields present in both layouts have the stored values, whatever fields were added, removed, renamed or reordered, also if a structure had no fields yet when it was stored, and for types whose names have changed if the reader is told the new names. A failed load leaks nothing and the same object can be loaded again. A header that names another format or a later version is refused; with an earlier version the version found is handed to the application and the value is not touched.',
 [F,I,H],'every cut point and failing read, every failing allocation, movable and non-movable value types, every pair of layouts in a family of added/removed/renamed/reordered fields',
 'Tests check full reads of intact data and a few specific mismatches; no test fails in the middle of a read.',
 ['Awl/Io/VersionTolerantSerializable.h','Awl/Io/Reader.h','Awl/Io/Vts.h','Awl/Io/Rw/OptionalReadWrite.h','Awl/Io/Rw/CollectionReadWrite.h','Awl/Io/Rw/PointerReadWrite.h'],
 [('read into a temporary and move it','Awl/Io/VersionTolerantSerializable.h'),('snapshot and restore for types that cannot be moved','Awl/Io/VersionTolerantSerializable.h'),('field map by name and type','Awl/Io/Reader.h')],
 ['object value after the load'])

prop('C07','Optional storage never lets I/O errors escape and never lies',
 'With the optional storage no I/O failure while opening or saving propagates to the caller; each is reported as a warning through the logger. If opening failed the storage is closed, saving is a silent no-op, and no file descriptor is left open; if it is open it gives the same durability as the atomic storage, and it can be opened again later.',
 [F,H],'every sequence of open/save/load/close with failing system calls at any point',
 'No test makes open or write fail.',
 ['Awl/Io/OptionalStorage.cpp','Awl/Io/OptionalStorage.h',ASH],
 [('catch and log','Awl/Io/OptionalStorage.cpp'),('close both files when opening fails',ASH)],
 ['exceptions, log, open descriptors, loaded value'])

prop('C08','Native file streams transfer all bytes in order or throw',
 'For every sequence of reads, writes, seeks, truncations and length queries, a native file stream behaves like an array of bytes with a position even when the operating system interrupts calls or transfers fewer bytes than asked for: a read is short only at the end of the file, a write either stores everything or throws. Real errors are thrown as I/O exceptions, except those of closing, which never end the program. Every descriptor is closed exactly once, also when streams are moved or an exception is thrown.',
 [F,H],'every operation sequence with EINTR, short reads, short writes, errors and a full disk at any call',
 'Tests run on a real file system where transfers are never short and never interrupted.',
 [NS,'Platforms/Posix/Awl/Io/UniqueHandle.h'],
 [('result of every call is checked',NS),('unique ownership of the descriptor','Platforms/Posix/Awl/Io/UniqueHandle.h')],
 ['bytes, positions, exceptions, open descriptors'])

prop('C09','Queued updates run exactly once, in order, without losing any',
 'Every update pushed to the update queue by any thread before the last apply is executed exactly once by an apply, with the arguments given to that apply, or is discarded by a clear that overlapped it; the updates of one producer run in the order they were pushed. Pushing never waits for running updates, everything written before a push is visible to the update, and there is no data race, deadlock or lost wake for any schedule.',
 [S,H],'all interleavings of several pushing threads, one applying thread and clearing threads',
 'The test pushes and applies from one thread.',
 ['Awl/UpdateQueue.h','Awl/QuickList.h','Awl/QuickLink.h'],
 [('mutex protected pending list moved as a whole','Awl/UpdateQueue.h'),('updates run without the lock','Awl/UpdateQueue.h')],
 ['order of executed updates'])

prop('C10','The update queue survives updates that push, throw or cannot be stored',
 'Updates may push or clear from inside an update; what they push runs in the next apply. If an update throws, the exception reaches the caller of apply, the updates behind it are dropped, every captured object is released and the queue works as before afterwards. If an update cannot be queued (copying it or allocating memory fails), the push throws, nothing is queued and nothing leaks, and the captured state of every update is released at the latest when the apply that ran it ends, when it is cleared, or when the queue is destroyed.',
 [PR,F,H],'every sequence of pushes, applies and clears with updates that push, clear or throw and with failing allocations and copies',
 'The test uses updates that do not throw and memory that never runs out.',
 ['Awl/UpdateQueue.h','Awl/ScopeGuard.h'],
 [('guard recycles messages on every exit','Awl/UpdateQueue.h')],
 ['executed updates, live captured objects, leaks'])

prop('C11','An interruptible sleep never oversleeps a stop request and never wakes early',
 'A sleep with a stop token returns without waiting for its timeout when a stop is requested, whether before, during or after it starts waiting and from any thread. Without a stop request, or with a token that nobody can stop, it returns only after the full duration and not later than that plus scheduling delay, whatever spurious wake-ups happen. It touches nothing after it has returned.',
 [S,H],'all interleavings of the sleeping thread with one or more threads requesting stop, spurious wakeups, delayed threads, all durations within the range of the clock including zero',
 'The lost wakeup needs the stop request to fall into a window of a few instructions; tests only cancel long after the sleep began.',
 ['Awl/Sleep.h'],
 [('stop callback notifies the condition variable','Awl/Sleep.h'),('predicate is checked under the mutex','Awl/Sleep.h')],
 ['simulated time at return'])

prop('C12','The watchdog fires once, on time, and only if it has to',
 'A watchdog requests stop on its own token and reports the timeout exactly once if it lives longer than its timeout without being cancelled, and never before. If the outer token is stopped first its own token is stopped promptly and no timeout is reported unless it expired anyway. Destroying it at any moment ends promptly, joins its thread, and leaves no thread using it or its report function.',
 [S,H],'all interleavings of timeout, outer stop, destruction and thread start, including timeouts of zero',
 'The tests never destroy the watchdog around the moment it fires and cannot control when its thread starts.',
 ['Awl/WatchDog.h','Awl/Sleep.h'],
 [('dedicated thread with interruptible sleep','Awl/WatchDog.h'),('stop callback links the outer token','Awl/WatchDog.h')],
 ['stop state of the token, calls of the report function, simulated time'])

JT='Extras/JThread/JThreadExtras/'
prop('C13','Stop requests reach every registered callback exactly once',
 'Copies, moves, swaps and assignments of tokens and sources refer to the stop state of what they were taken from. Exactly one of any number of concurrent stop requests reports that it made the request, and afterwards every token of that state sees it. A callback registered with a token runs exactly once if it stays registered until the request has returned (inside its registration if stop was already requested), at most once if it is deregistered while the request is being made, and never otherwise or later. Destroying a callback waits until a concurrent run of it in another thread has finished but never deadlocks when done from inside it. The shared state lives exactly as long as something refers to it, and stop becomes impossible once no source is left and none was requested.',
 [S,H],'all interleavings of threads requesting stop, registering, deregistering, copying, moving, swapping and destroying tokens, sources and callbacks, including from inside callbacks',
 'The bundled tests run a few fixed thread programs under the real scheduler.',
 [JT+'stop_token.hpp'],
 [('state word with lock bit and reference counts',JT+'stop_token.hpp'),('intrusive list of callbacks; destructor waits for the running one',JT+'stop_token.hpp')],
 ['callback executions, return values, object lifetimes'])

prop('C14','Interruptible condition waits lose neither notifications nor stop requests',
 'A wait with a stop token returns as soon as its predicate holds after a notification, or promptly once a stop is requested from any thread at any instant, or when its deadline passes, and its result is the value of the predicate at that time; it always returns with the lock held. Notifications, timeouts and stop requests may coincide with each other, with spurious wakeups and with the destruction of other waiters without a lost wakeup, deadlock or data race.',
 [S,H],'all interleavings of waiting, notifying and stopping threads, timed and untimed waits, spurious wakeups, delayed threads',
 'The bundled tests run fixed programs under the real scheduler.',
 [JT+'condition_variable_any2.hpp',JT+'stop_token.hpp'],
 [('stop callback takes the internal lock before notifying',JT+'condition_variable_any2.hpp'),('predicate rechecked after every wake up',JT+'condition_variable_any2.hpp')],
 ['results, lock ownership, simulated time'])

prop('C15','A joining thread is always stopped and joined',
 'Destroying or assigning over a joinable interruptible thread requests its stop and then waits for it to end, exactly once, so nothing it uses is touched afterwards; moves and swaps transfer the thread and its stop state together, and joining explicitly does not request a stop. The thread function receives the stop token if it can take one, and if the thread cannot be created the error is thrown and nothing leaks.',
 [S,F,H],'all interleavings of owner and thread, moves, swaps, early returns, failing thread creation and allocations',
 'The bundled tests run fixed programs under the real scheduler and creation never fails.',
 [JT+'jthread.hpp',JT+'stop_token.hpp'],
 [('destructor and move assignment request stop and join',JT+'jthread.hpp')],
 ['thread lifetime, stop state, leaks'])

prop('C16','Awaited process tasks deliver their result or exception exactly once',
 'A task coroutine runs eagerly to its first suspension; whoever awaits it, before or after it has finished, resumes exactly once with its value, or with its exception, and never before it has finished. Asking a finished task directly gives the same value or exception. Frames and values are destroyed exactly once for every order of completion, moving, assignment and destruction, also when a frame cannot be allocated.',
 [S,PR,F],'every order in which suspended leaf operations complete, trees of awaiting tasks, throwing bodies, destruction of suspended task trees, failing allocations',
 'Tests run two or three fixed coroutines with real timers.',
 ['Awl/Coro/ProcessTask.h'],
 [('continuation handle resumed at final suspend','Awl/Coro/ProcessTask.h'),('exception pointer rethrown on await','Awl/Coro/ProcessTask.h')],
 ['resumption order, values, live frames'])

prop('C17','Update tasks resume their awaiter exactly once and never leak or outlive',
 'An update task, awaited or detached, runs to completion exactly once; the coroutine that awaits it resumes exactly once and only after it has finished. A detached task frees itself when it finishes, at once if it has already finished, and an owned one is freed by its owner, whatever the order of completion, move, detaching and destruction.',
 [S,PR],'every order in which suspended leaf operations complete, nested awaits, detaching before and after completion',
 'Tests use fixed sequences and do not check frames for leaks.',
 ['Awl/Coro/UpdateTask.h'],
 [('ownership flag in the promise','Awl/Coro/UpdateTask.h'),('continuation resumed at final suspend','Awl/Coro/UpdateTask.h')],
 ['resumption order, live frames'])

prop('C18','Generators yield every element once, in order, and propagate exceptions',
 'Iterating an asynchronous or a plain generator yields exactly the produced elements in order and then the end, however producer and consumer suspend in between; an exception of the producer reaches the consumer at the position where it was thrown. A generator may be destroyed, moved, assigned over or abandoned at any suspension point and everything alive inside it is destroyed exactly once.',
 [S,PR,F],'every interleaving of suspensions of producer and consumer, nested and mapped generators, throwing producers and consumers, abandonment at every element, failing allocations',
 'Tests iterate fixed sequences to the end.',
 ['Awl/Coro/AsyncGenerator.h','Awl/Coro/Generator.h'],
 [('symmetric transfer between producer and consumer','Awl/Coro/AsyncGenerator.h'),('exception stored in the promise','Awl/Coro/Generator.h')],
 ['sequence seen by the consumer, live objects'])

prop('C19','Timed coroutines resume in deadline order, never early, and all of them',
 'A coroutine that waits for a duration on the timer queue is resumed exactly once, not before its deadline and, as long as resumed code does not itself take time, not noticeably after it. Waits with different deadlines resume in deadline order irrespective of the order they were started in, and the loop ends exactly when no wait is left. An exception that leaves the loop comes from the coroutine just resumed; when the loop is run again, every other wait is still served.',
 [S,H],'every set of waits with any deadlines, started before or while the loop runs, slow clocks, slow resumed code and exceptions',
 'The tests measure nothing and start their timers in one order.',
 ['Awl/Testing/TimeQueue.h','Awl/KeyCompare.h'],
 [('priority queue by deadline','Awl/Testing/TimeQueue.h'),('sleep until the first deadline','Awl/Testing/TimeQueue.h')],
 ['simulated time and order of resumption'])

prop('C20','The indexed set matches a sorted set after any history and any exception',
 'After every operation the indexed set holds the same elements in the same order as a reference ordered set; index, position, bounds, forward and backward iteration agree with it and the tree stays balanced. An insertion that throws (failing allocation, element constructor or comparer) leaves it unchanged, and after copies and assignments that throw every set involved is still valid. Nothing leaks and nothing is destroyed twice.',
 [H,F],'every history of insertions, emplacements, erasures, lookups, copies, moves, clears with a failure injected at any allocation, element construction or comparison',
 'Tests compare with std::set only without failures.',
 ['Awl/VectorSet.h'],
 [('red-black tree with subtree counts','Awl/VectorSet.h')],
 ['contents, order, indices, leaks'])

prop('C21','The ring keeps the newest elements and survives throwing elements',
 'After every operation the ring buffer holds, in order, exactly what a double ended queue limited to its capacity would: pushing onto a full ring drops the opposite element. If constructing or copying an element or allocating memory throws, the ring keeps a valid sequence of live elements that can go on being used; nothing leaks, nothing is destroyed twice or used uninitialised. Index checks reject every index outside of the contents, including on a ring without any capacity.',
 [H,F],'every history of pushes, pops, reserve, resize, copies, moves and element access with a failure injected at any element construction, copy or allocation',
 'Tests use elements that never throw.',
 ['Awl/Ring.h'],
 [('head and size over raw storage','Awl/Ring.h')],
 ['contents, live elements, leaks'])

prop('C22','Notification reaches every subscriber once while subscribers come and go',
 'A notification calls each observer subscribed during the whole notification exactly once, in order of subscription, and none that is no longer subscribed, even when observers called by it subscribe new observers, unsubscribe, move or destroy themselves, or unsubscribe observers already called, and when one throws. Subscriptions follow moved observers and moved observables, and end cleanly whichever side is destroyed first.',
 [H,PR,F],'every history of subscribing, unsubscribing, moving and destroying observers and observables with such actions or exceptions inside notifications',
 'Tests use a fixed set of observers which do not change during notification.',
 ['Awl/Observable.h','Awl/QuickList.h','Awl/QuickLink.h'],
 [('intrusive subscription list','Awl/Observable.h'),('links detach themselves on destruction','Awl/QuickLink.h')],
 ['sequence of calls'])

prop('C23','Mirrored and observed sets stay equal to their source, even on failure',
 'An observable set tells its observers of exactly the changes that happened to it, so that a mirror or a foreign-key view built from notifications always equals the source contents projected accordingly, after any history of inserts, erases, clears, assignments and moves. If an insertion fails by an exception before the element is stored the observers are not told and nothing changes.',
 [H,F],'every history of modifications on the source with failing allocations and throwing elements and comparers',
 'Tests use a few fixed insertions and removals.',
 ['Awl/ObservableSet.h','Awl/MirrorSet.h','Awl/ForeignSet.h'],
 [('notification after the change of the underlying set','Awl/ObservableSet.h')],
 ['contents of source and views'])

prop('C24','The object pool hands out each object to one owner and takes every object back',
 'An object obtained from a pool belongs to exactly one owner until it is released, then becomes available again, and every object is destroyed exactly once, for every history of acquiring, sharing and releasing and with allocations failing at any point. A failed acquisition throws and changes nothing.',
 [H,F],'every history of acquisitions and releases in any order with failing allocations and throwing constructors',
 'Tests acquire and release in one order and memory never runs out.',
 ['Awl/ObjectPool.h','Awl/PooledObject.h','Awl/UniquePtr.h'],
 [('free list and custom deleter','Awl/ObjectPool.h')],
 ['ownership, live objects'])

prop('C25','Serialized data that ends early or fails midway is reported, never accepted',
 'Reading any supported kind of value from a stream that ends before the value is complete, or that fails at any transfer, throws an I/O or allocation error instead of returning, whatever the cut point and however the value is composed. The failure leaks nothing and reads nothing beyond the available bytes; writing to a stream that fails reports the failure. The same data read completely gives back exactly the value written, whatever the target held before, and consumes exactly its bytes.',
 [F,I],'every composition of numbers, strings, vectors, arrays, optionals, pointers, variants, collections, enumerations, bit sets and structures, every cut point, failing transfer and failing allocation',
 'Tests read complete data only.',
 ['Awl/Io/Rw/ReadRaw.h','Awl/Io/ReadWrite.h','Awl/Io/Rw/StringReadWrite.h','Awl/Io/Rw/VectorReadWrite.h','Awl/Io/Rw/CollectionReadWrite.h','Awl/Io/Rw/VariantReadWrite.h','Awl/Io/Rw/OptionalReadWrite.h','Awl/Io/Rw/PointerReadWrite.h','Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h','Awl/Io/VectorStream.h','Awl/Io/StdStream.h'],
 [('short reads throw','Awl/Io/Rw/ReadRaw.h')],
 ['exceptions, value, leaks'])

NA='These guarantees have no schedule, clock, fault or history in them.'
prop('C26','A scope guard runs its action exactly once on every way out of the scope',
 'The action of an engaged scope guard runs exactly once when the scope is left, normally or by an exception, in reverse order of the guards; the action of a released or disengaged guard never runs, and moving a guard, plain or type erased, moves the duty with its state. If the initial action of a guard or the creation of the guard throws the action does not run.',
 [H,F],'every nesting of guards, releases, moves and exceptions, with failing allocations',
 'The test uses one guard and no exceptions or moves.',
 ['Awl/ScopeGuard.h'],
 [('scope_guard','Awl/ScopeGuard.h')],
 ['sequence of actions'])

prop('C27','Intrusive lists keep their order through splices, moves and destruction',
 'An intrusive list always contains exactly the elements inserted and not removed, in the order of the insertions, seen equally by both directions of iteration, its size and its ends, whatever the history of insertions, removals, splices, list moves and swaps, element moves, assignments and destructions. An element takes itself out of its list when it is destroyed and keeps its place when it is moved, can be in several lists over different links at once, and an abandoned operation leaves the lists intact.',
 [H,F],'every history of operations on several lists and links, with elements destroyed and moved at any point and failing allocations',
 'Tests use one list and a fixed order of a few operations.',
 ['Awl/QuickList.h','Awl/QuickLink.h','Awl/SingleList.h','Awl/SingleLink.h','Awl/DoubleIterator.h','Awl/SingleIterator.h'],
 [('exclude and include of links','Awl/QuickLink.h'),('splicing','Awl/QuickList.h')],
 ['sequence of elements','size'])

prop('C28','The test runner runs every selected test and never reports a failure as success',
 'The test runner runs each selected test exactly as often as requested, in the order of the names, and stops at the first failure: an assertion that does not hold, an unknown test, an invalid filter or option, or two tests of one name are reported as a failure with the output of the failed test, and the tests are reported as passed, also by the exit code, only if all of them passed. A test is asked to stop when its timeout elapses, which is reported, or when a stop is requested from outside, and for no other reason, whatever the schedule.',
 [S,F,H],'every selection, order, failure, timeout, stop request and schedule of the watching thread',
 'The repository does not test its own test runner.',
 ['Awl/Testing/TestConsole.cpp','Awl/Testing/TestMap.cpp','Awl/Testing/TestChain.h','Awl/Testing/TestAssert.h','Awl/Testing/CommandLineProvider.cpp','Awl/Testing/LocalAttribute.h','Awl/WatchDog.h','Awl/StopWatch.h'],
 [('loop, timeout and output of a test','Awl/Testing/TestMap.cpp'),('result of the run','Awl/Testing/TestConsole.cpp')],
 ['tests run','output','exit code','stop tokens'])

prop('C29','A storage reports truthfully what it opened and removal leaves nothing behind',
 'Opening a storage or a persistent object reports whether one of its files had existed before, also when several threads open different storages at the same time or an earlier attempt to open failed halfway; a failed open never reports an existing one. An open storage is empty exactly if both of its files are. After closing, destroying or moving no descriptor of it stays open, and after removing a persistent object it is closed, its files are gone and nothing can be loaded from them; it can be opened again. A removal that fails is reported.',
 [S,F,H],'every history of opening, closing, saving, removing, failing and crashing, by several threads on different files',
 'Tests open one storage in one thread without failures.',
 ['Awl/Io/PersistentObject.h','Awl/Io/AtomicStorage.h','Awl/Io/OptionalStorage.cpp','Platforms/Posix/Awl/Io/NativeStream.h'],
 [('existence of the files','Platforms/Posix/Awl/Io/NativeStream.h'),('opening both files','Awl/Io/AtomicStorage.h'),('removal','Awl/Io/PersistentObject.h')],
 ['result of open and IsEmpty','files','descriptors'])

prop('C30','Decimal arithmetic is exact or reports overflow',
 'Decimal conversion, comparison, addition, subtraction, multiplication, division and formatting give the exact result, or the correctly rounded one where documented, or report that it is not representable.',
 [I],'all pairs of decimals','Tests check a list of values.',
 ['Awl/Decimal.h','Awl/DecimalData.h'],[('scaled integers','Awl/Decimal.h')])
prop('C31','Names and types of reflected structures survive the round trip without faults',
 'A value written and read back with intact data in one process compares equal, and type names, field names and indices computed from a structure are the same in every build.',
 [I,PR],'all reflected types and values','Tests cover a few types.',
 ['Awl/Reflection.h','Awl/Mp/TypeDescriptor.h','Awl/Tuplizable.h'],[('compile time reflection','Awl/Reflection.h')])
prop('C32','Parsing and formatting of numbers, time and strings are inverse',
 'Formatting a number, duration or time stamp and parsing it again gives the same value, and case conversion, comparison and splitting of strings follow their definition for every input.',
 [I],'all strings and numbers','Tests use sample strings.',
 ['Awl/String.h','Awl/Time.h','Awl/StringFormat.h','Awl/Separator.h'],[('stream formatting','Awl/StringFormat.h')])
prop('C33','Composite and key comparers are strict weak orders consistent with their parts',
 'Every comparer built from comparers of members or keys orders values lexicographically and is a strict weak order whenever its parts are.',
 [I],'all comparers and values','Tests use a few values.',
 ['Awl/CompositeCompare.h','Awl/TransparentCompositeCompare.h','Awl/KeyCompare.h'],[('lexicographic combination','Awl/CompositeCompare.h')])
prop('C34','A stop watch measures elapsed time only, never the wall clock',
 'Every elapsed time a stop watch reports, in whatever unit, lies between the time that passed from the end of its last start (construction, reset or copied start point) to the begin of the call and the time from the begin of the start to the end of the call, and an interval has elapsed exactly if that time has reached it. This holds however the wall clock is set in between, however long the thread is suspended, and for copies and watches started at a given point.',
 [S,F,H],'every history of starts, copies, resets and readings with sleeps from nanoseconds to days, jumps of the wall clock and slow threads',
 'Tests can not set the wall clock and allow for wide tolerances.',
 ['Awl/StopWatch.h'],[('elapsed time','Awl/StopWatch.h')],['elapsed times'])
prop('C35','An aggregated call is made once, with the last arguments, when all have arrived',
 'An aggregator whose arguments are delivered in any order, also by several threads that take turns under a lock, calls its function exactly once, within the delivery of the last missing argument, never before, with the value delivered last for each argument, moved and not copied. It is not called if the aggregator was cancelled or destroyed before. It reports whether all arguments have arrived, an exception of the function reaches the deliverer, and arguments and function are destroyed exactly once on every path.',
 [S,H,F],'every order and number of deliveries, cancellations and destructions, functions that throw, failing allocations, arguments that can only be moved or are taken by reference',
 'The test delivers each argument once, in order.',
 ['Awl/Aggregator.h'],[('call when all arguments are set','Awl/Aggregator.h')],['calls and their arguments','live arguments'])

prop('C36','Invalid enumerators and overlong strings are refused wherever they are nested',
 'A sequential enumeration whose stored byte was changed to one outside its range is refused with an I/O error when it is read, and a value outside its range is refused before it is written, however it is nested in other values. With a context that limits the length of strings no string longer than the limit, in bytes, is written or read, however it is nested; when a stored length was altered the string is refused before memory is allocated for it. Valid values are not affected.',
 [I,F],'every kind of value that can contain an enumeration or a string, every altered byte and length, every limit',
 'The tests read a few enumerators and two strings that are not nested.',
 ['Awl/Io/Rw/EnumReadWrite.h','Awl/Io/Rw/StringReadWrite.h','Awl/Io/SerializationContext.h','Awl/Io/Rw/CollectionReadWrite.h','Awl/Io/Rw/VectorReadWrite.h','Awl/Io/Rw/VariantReadWrite.h'],
 [('check of the range','Awl/Io/Rw/EnumReadWrite.h'),('check of the limit','Awl/Io/Rw/StringReadWrite.h'),('context handed to the elements','Awl/Io/Rw/CollectionReadWrite.h')],['exceptions, bytes written and memory requested'])

prop('C37','A singleton is made once and only once, also after an attempt that failed',
 'A static singleton is constructed exactly once however many threads ask for it first, everyone gets the same complete object, and it is destroyed once, at the end, after those that use it. A shared singleton is made by the first request, shared by all owners, destroyed when the last one lets go, and then never made again (requests return null); an on-demand singleton is made again. There are never two instances at a time. An exception while one is made reaches the caller, leaves nothing behind, and the next request tries again. A factory function is found under exactly the name it was registered with; an unknown name is reported.',
 [S,H,F],'every order of requests and releases, every schedule of the first uses, failing allocations and constructors, owners that outlive the statics',
 'The test makes one singleton once in a process that has one life.',
 ['Awl/SharedSingleton.h','Awl/StaticSingleton.h','Awl/StaticChain.h','Awl/StaticFactory.h'],[('weak reference to the instance','Awl/SharedSingleton.h'),('function-local static','Awl/StaticSingleton.h'),('lookup by name','Awl/StaticChain.h')],['constructions and destructions, returned pointers'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
