# What check.py runs for each property.
INC = ['-I/repo', '-I/repo/Platforms/Posix', '-DAWL_INT_128']
CPP20 = ['-std=gnu++20'] + INC
JTHREAD = ['-std=gnu++17', '-I/repo/Extras/JThread'] + INC

BINARIES = {
    'storage': dict(src='storage.cpp', flags=CPP20, lib=['Awl/Io/*.cpp']),
    'threads': dict(src='threads.cpp', flags=CPP20, lib=[]),
    'coro': dict(src='coro.cpp', flags=CPP20, lib=[]),
    'containers': dict(src='containers.cpp', flags=CPP20, lib=[]),
    'streams': dict(src='streams.cpp', flags=CPP20, lib=[]),
    'rw': dict(src='serial.cpp', flags=CPP20 + ['-DRW', '-I/repo/Extras/Boost'], lib=[], parts=5),
    'layouts': dict(src='serial.cpp', flags=CPP20 + ['-DLAYOUTS'], lib=[], parts=8),
    'reject': dict(src='reject.cpp', flags=CPP20, lib=[]),
    'lists': dict(src='lists.cpp', flags=CPP20, lib=[]),
    'runner': dict(src='runner.cpp', flags=CPP20, lib=['Awl/Testing/*.cpp']),
    'misc': dict(src='misc.cpp', flags=CPP20, lib=[]),
    'jthread': dict(src='jthread.cpp', flags=JTHREAD, lib=[]),
}

SIM = 'simulated: thread scheduler and pthread mutex/condition variable/thread calls, clocks, heap, C++ atomics (interleaved at every access, sequentially consistent values, happens-before from their memory orders)'
DISK = 'simulated: open/read/write/lseek/ftruncate/fsync/fstat/close over a sector disk with volatile and durable state'
COMMON = [
    'the compiler instrumentation (-fsanitize=thread, compile only) reports every access of the code under test; code inside libstdc++.so is not instrumented',
    'atomics are interleaved as sequentially consistent; a missing release/acquire is found as a data race on the data it protects, not as a stale value',
    'search over seeds is not exhaustive',
]
DISKA = COMMON + ['a power loss keeps what was fsynced and any subset of later sector writes, truncations and size changes, each sector of a write independently; a kill keeps all completed calls',
                  'a failed fsync loses any subset of the sectors it should have written and a later fsync does not bring them back']

def sc(name, bin, weight=1):
    return dict(name=name, bin=bin, weight=weight)

PROPS = {
    'C01': dict(oracle='the history of attempted and completed saves',
                scenarios=[sc('crash_plain', 'storage', 2), sc('crash_object', 'storage')], quick=20, thorough=600,
                real=['AtomicStorage', 'PersistentObject', 'NativeStream', 'UniqueHandle', 'HashStream', 'Crc64', 'VersionTolerantSerializable', 'EuphoricallySerializable', 'Reader and Writer'],
                stub=[DISK, SIM], assumptions=DISKA, must=['CRASH', 'crash: power loss', 'crash: process killed', 'crash with unsynced data'],
                states='hash of the durable and the visible contents of both files'),
    'C02': dict(oracle='the history of attempted, completed and failed saves',
                scenarios=[sc('faults_plain', 'storage', 2), sc('faults_object', 'storage')], quick=20, thorough=600,
                real=['AtomicStorage', 'PersistentObject', 'NativeStream', 'UniqueHandle', 'HashStream', 'Crc64', 'VersionTolerantSerializable', 'EuphoricallySerializable', 'Reader and Writer'],
                stub=[DISK, SIM], assumptions=DISKA + ['after a load that failed because of an injected error the application loads successfully before it saves again'],
                must=['WRITE_ERR', 'WRITE_SHORT', 'FSYNC_ERR', 'TRUNC_ERR', 'ENOSPC', 'READ_ERR'],
                states='hash of the durable and the visible contents of both files'),
    'C03': dict(oracle='the set of saved values and the intact copies',
                scenarios=[sc('damage_plain', 'storage', 2), sc('damage_object', 'storage')], quick=20, thorough=600,
                real=['AtomicStorage', 'PersistentObject', 'NativeStream', 'HashStream', 'Crc64', 'VersionTolerantSerializable', 'EuphoricallySerializable', 'Reader and Writer'],
                stub=[DISK, SIM], assumptions=DISKA + ['damage that replaces whole blocks by other valid blocks is not injected: the format does not chain its blocks'],
                must=['CORRUPT'], states='hash of the damaged files'),
    'C04': dict(oracle='the values the object had while its mutex was held',
                scenarios=[sc('locked_save', 'storage'), sc('locked_save_headered', 'storage')], quick=20, thorough=500,
                real=['AtomicStorage', 'OptionalStorage', 'EuphoricallySerializable', 'HeaderedSerializable', 'Snapshotable', 'OptionalMutex', 'NativeStream', 'HashStream', 'VectorStream'],
                stub=[DISK, SIM], assumptions=DISKA, must=['value modified during the save', 'ALLOC', 'WRITE_ERR'],
                states='hash of the durable and the visible contents of both files'),
    'C05': dict(oracle='the written bytes',
                scenarios=[sc('hash_streams', 'streams')], quick=20, thorough=400,
                real=['HashStream', 'BufferedStream', 'Crc64', 'VectorStream', 'StdStream'], stub=[SIM, 'underlying streams and stream buffers that fail and transfer parts on request'], assumptions=COMMON[2:] + ['alterations that replace whole blocks by other valid blocks are not injected: the format does not chain its blocks'],
                must=['CORRUPT', 'STREAM', 'ALLOC', 'cut inside of a block', 'output abandoned'], states='block size, length and number of failures'),
    'C06': dict(oracle='the value before the load and, for each pair of layouts, a conversion written by hand',
                scenarios=[sc('layout_changes', 'layouts')], quick=20, thorough=400,
                real=['Reader', 'Writer', 'VersionTolerantSerializable', 'PlainSerializable', 'EuphoricallySerializable', 'HeaderedSerializable', 'FieldMap', 'Rw/*'],
                stub=[SIM, 'streams that end, fail and transfer a part on request'],
                assumptions=COMMON[2:] + ['data that does not come with a hash is cut or fails but is not altered', 'restoring a value that can not be moved needs memory: no allocation fails while it is restored'],
                must=['STREAM', 'ALLOC', 'CORRUPT', 'loaded another layout', 'load of an incompatible layout', 'load of cut data', 'old version recognised', 'reader used again'],
                states='pair of layouts, format, lengths and outcome'),
    'C07': dict(oracle='the history of saves and the disk contents',
                scenarios=[sc('optional_storage', 'storage')], quick=15, thorough=400,
                real=['OptionalStorage', 'AtomicStorage', 'NativeStream', 'UniqueHandle', 'HashStream', 'PersistentObject'],
                stub=[DISK, SIM, 'logger that counts warnings'], assumptions=DISKA, must=['OPEN_ERR', 'WRITE_ERR', 'ENOSPC'],
                states='hash of the durable and the visible contents of both files'),
    'C08': dict(oracle='a model of the files as byte arrays with a position per stream',
                scenarios=[sc('native_stream', 'streams')], quick=20, thorough=400,
                real=['PosixStream', 'UniqueHandle', 'CreateUniqueFile', 'OpenUniqueFile'], stub=[DISK, SIM], assumptions=COMMON[2:] + ['close does not fail and a failed lseek has no effect'],
                must=['READ_SHORT', 'READ_EINTR', 'WRITE_SHORT', 'WRITE_EINTR', 'WRITE_ERR', 'ENOSPC', 'FSYNC_ERR', 'TRUNC_ERR', 'OPEN_ERR', 'write fails after a part'], states='sizes of the files and number of failures'),
    'C09': dict(oracle='the history of pushes, applies, clears and runs of the updates',
                scenarios=[sc('update_queue_threads', 'threads')], quick=20, thorough=500,
                real=['UpdateQueue', 'quick_list'], stub=[SIM], assumptions=COMMON,
                must=['update discarded by a clear', 'update taken by a concurrent apply', 'a push completes while an update runs'],
                states='hash of the order in which the updates ran'),
    'C10': dict(oracle='a model list of the pending updates',
                scenarios=[sc('update_queue_faults', 'threads')], quick=20, thorough=400,
                real=['UpdateQueue', 'quick_list'], stub=[SIM], assumptions=COMMON,
                must=['ALLOC', 'THROW'], states='hash of the applied updates'),
    'C11': dict(oracle='the simulated clock and the time of the stop request',
                scenarios=[sc('interruptible_sleep', 'threads')], quick=20, thorough=400,
                real=['sleep_for', 'sleep_until', 'std::condition_variable_any of libstdc++'], stub=[SIM], assumptions=COMMON,
                must=['SPURIOUS', 'CLOCK'], states='outcome and simulated duration of the sleeps'),
    'C12': dict(oracle='the simulated clock and the life of the watched object',
                scenarios=[sc('watch_dog', 'threads')], quick=20, thorough=400,
                real=['watch_dog', 'sleep_for', 'std::jthread and std::stop_token of libstdc++'], stub=[SIM], assumptions=COMMON,
                must=['SPURIOUS', 'CLOCK'], states='number and times of the reports'),
    'C13': dict(oracle='the history of requests, registrations, callbacks and deregistrations',
                scenarios=[sc('stop_state', 'jthread')], quick=25, thorough=600,
                real=['Extras/JThread stop_token.hpp'], stub=[SIM], assumptions=COMMON,
                must=['WEAKCAS', 'callback destroys another one', 'callback destroys itself', 'destructor waits for the callback'],
                states='which callbacks ran and whether their registration ran them'),
    'C14': dict(oracle='the predicate under the lock, the simulated clock and the time of the stop request',
                scenarios=[sc('condvar', 'jthread')], quick=20, thorough=500,
                real=['Extras/JThread condition_variable_any2.hpp', 'Extras/JThread stop_token.hpp'], stub=[SIM], assumptions=COMMON,
                must=['SPURIOUS', 'CLOCK', 'destroyed while waits are returning', 'wait stopped', 'wait timed out'],
                states='simulated end time and remaining tickets'),
    'C15': dict(oracle='the state of every thread function at the time its handle is joined, assigned or destroyed',
                scenarios=[sc('jthread_owner', 'jthread')], quick=20, thorough=400,
                real=['Extras/JThread jthread.hpp', 'Extras/JThread condition_variable_any2.hpp', 'Extras/JThread stop_token.hpp'], stub=[SIM], assumptions=COMMON,
                must=['SPURIOUS', 'ALLOC', 'THREAD', 'thread creation fails'], states='states of the threads at the end'),
    'C16': dict(oracle='the recorded outcome of every coroutine',
                scenarios=[sc('process_task', 'coro')], quick=20, thorough=400,
                real=['ProcessTask'], stub=[SIM, 'leaf operations completed in an order chosen by the simulator'], assumptions=COMMON[:1] + COMMON[2:] + ['a coroutine that awaits a task it does not own is not destroyed before that task has finished'],
                must=['ALLOC', 'THROW', 'suspended task destroyed', 'task awaited by a coroutine that does not own it', 'no memory for a frame'],
                states='outcomes of all coroutines of a run'),
    'C17': dict(oracle='the recorded outcome of every coroutine',
                scenarios=[sc('update_task', 'coro')], quick=20, thorough=400,
                real=['UpdateTask'], stub=[SIM, 'leaf operations completed in an order chosen by the simulator'], assumptions=COMMON[:1] + COMMON[2:] + ['the bodies of update tasks do not throw: they terminate the program by design', 'a coroutine that awaits a task it does not own is not destroyed before that task has finished'],
                must=['ALLOC', 'suspended task destroyed', 'suspended task detached', 'finished task detached', 'task awaited by a coroutine that does not own it'],
                states='outcomes of all coroutines of a run'),
    'C18': dict(oracle='the sequence recorded by every producer',
                scenarios=[sc('async_generators', 'coro'), sc('generators', 'coro')], quick=20, thorough=400,
                real=['async_generator', 'generator', 'fmap', 'ProcessTask'], stub=[SIM, 'leaf operations completed in an order chosen by the simulator'], assumptions=COMMON[:1] + COMMON[2:],
                must=['ALLOC', 'THROW', 'generator abandoned', 'exception of a generator reaches the consumer', 'destroyed while it is suspended'],
                states='number of elements and outcome of every generator of a run'),
    'C19': dict(oracle='the simulated clock and the deadlines of all waits',
                scenarios=[sc('time_queue', 'coro', 2), sc('coroutine_timers', 'coro', 3), sc('endless_timers', 'coro')], quick=20, thorough=400,
                real=['TimeQueue', 'TimeAwaitable', 'ProcessTask'], stub=[SIM], assumptions=COMMON[:1] + COMMON[2:],
                must=['CLOCK', 'ALLOC', 'resumed code takes time', 'a timer can not be set'], states='simulated durations of all waits'),
    'C20': dict(oracle='a model of the sorted contents',
                scenarios=[sc('indexed_set', 'containers')], quick=20, thorough=400,
                real=['vector_set', 'quick_list'], stub=[SIM, 'elements, comparers and allocators that fail on request'], assumptions=COMMON[2:],
                must=['ALLOC', 'THROW', 'a copy assignment throws', 'big tree thinned out', 'assigned to itself', 'move assigned'],
                states='hash of the operation and the contents of the set'),
    'C21': dict(oracle='a model queue limited to the capacity',
                scenarios=[sc('ring_history', 'containers')], quick=20, thorough=400,
                real=['ring'], stub=[SIM, 'elements and allocators that fail on request'], assumptions=COMMON[2:],
                must=['ALLOC', 'THROW', 'push on a full ring', 'an element of the ring is pushed', 'a copy assignment throws', 'reserve'],
                states='operation, size, capacity and outcome'),
    'C22': dict(oracle='a model of the lists of subscriptions',
                scenarios=[sc('notification', 'containers')], quick=20, thorough=400,
                real=['Observable', 'Observer', 'quick_list', 'movable links'], stub=[SIM], assumptions=COMMON[2:] + ['the observer that follows the one being called in the list does not leave the list or move until that call returns: not supported by the design', 'an observable is not moved or destroyed while it notifies'],
                must=['THROW', 'an observer destroys itself', 'an observer moves itself', 'an observer destroys another one', 'nested notification', 'observable moved', 'observable destroyed first'],
                states='numbers of observers before, after and called'),
    'C23': dict(oracle='a model of the contents of the sources, projected',
                scenarios=[sc('set_views', 'containers')], quick=20, thorough=400,
                real=['observable_set', 'mirror_set', 'foreign_set', 'vector_set', 'Observable'], stub=[SIM, 'elements and comparers that fail on request'], assumptions=COMMON[2:] + ['after an observer has failed on an element that is stored the views are built again: the source does not roll back'],
                must=['ALLOC', 'THROW', 'an insertion fails', 'source moved', 'source assigned', 'migrated', 'source destroyed first', 'view moved'],
                states='operation, sizes and number of views'),
    'C24': dict(oracle='a model of the owners of all objects',
                scenarios=[sc('object_pool', 'containers', 3), sc('unique_owner', 'containers')], quick=20, thorough=300,
                real=['object_pool', 'pooled_object', 'unique_ptr', 'quick_list'], stub=[SIM, 'objects whose constructors fail on request'], assumptions=COMMON[2:] + ['the pool outlives its objects and is used by one thread'],
                must=['ALLOC', 'THROW', 'released', 'an object owns another one', 'acquired while another one is finalized', 'cleared'],
                states='numbers of objects in use and living'),
    'C25': dict(oracle='the value written',
                scenarios=[sc('readers_and_writers', 'rw')], quick=20, thorough=400,
                real=['Rw/*', 'VectorStream', 'StdInputStream', 'MeasureStream', 'LimitedContext'],
                stub=[SIM, 'streams and stream buffers that end, fail and transfer a part on request'],
                assumptions=COMMON[2:] + ['the data is cut or its transfer fails; it is not altered'],
                must=['STREAM', 'ALLOC', 'cut data', 'a transfer fails', 'a write fails', 'an allocation fails'],
                states='kind of value, lengths and outcome'),
    'C26': dict(oracle='the expected sequence of actions',
                scenarios=[sc('scope_guards', 'containers')], quick=15, thorough=200,
                real=['scope_guard', 'make_scope_guard', 'virtual_guard'], stub=[SIM, 'actions and initial actions that fail on request'], assumptions=COMMON[2:] + ['a guard is assigned to only while it is disengaged'],
                must=['ALLOC', 'THROW', 'a disengaged guard moved', 'an engaged guard moved', 'the initial action throws'],
                states='number of actions'),
    'C27': dict(oracle='three reference sequences',
                scenarios=[sc('intrusive_lists', 'lists')], quick=20, thorough=300,
                real=['quick_list', 'single_list', 'quick_link', 'movable_link', 'single_link', 'double_iterator', 'single_iterator', 'static_chain'], stub=[SIM, 'callers that throw in the middle of a history'],
                assumptions=COMMON[2:] + ['an element of a list that was cleared is not removed from it again', 'an element is not assigned to itself'],
                must=['ALLOC', 'THROW', 'element moved', 'element assigned', 'spliced', 'list moved', 'cleared'],
                states='lengths of the lists'),
    'C28': dict(oracle='the tests that were to run and what they did',
                scenarios=[sc('test_runner', 'runner')], quick=20, thorough=300,
                real=['TestConsole', 'TestMap', 'TestLink and the test chain', 'CommandLineProvider', 'LocalAttribute', 'Assert', 'watch_dog', 'sleep_for', 'StopWatch'], stub=[SIM, 'the buffer of the standard output', 'tests that pass, fail, sleep and throw on request'],
                assumptions=COMMON + ['the standard output may be written to by several threads at once'],
                must=['THROW', 'CLOCK', 'a test is asked to stop by the timeout', 'a test is asked to stop from outside', 'timeout reported', 'failure reported', 'output of a failed test shown', 'tests listed', 'two tests of one name'],
                states='number of tests run and passed, output mode'),
    'C29': dict(oracle='the files on the simulated disk and the history of saves and removals',
                scenarios=[sc('storage_lifecycle', 'storage')], quick=20, thorough=400,
                real=['PersistentObject', 'AtomicStorage', 'OptionalStorage', 'NativeStream', 'UniqueHandle', 'HeaderedSerializable', 'EuphoricallySerializable'],
                stub=[DISK, SIM, 'unlink'], assumptions=DISKA + ['each thread has its own files', 'thread local variables are kept per simulated thread'],
                must=['CRASH', 'OPEN_ERR', 'opened existing files', 'opened new files', 'removed', 'open failed', 'remove failed', 'empty', 'not empty'],
                states='number of owners, saves and disk operations'),
    'C34': dict(oracle='the simulated monotonic clock',
                scenarios=[sc('stop_watch', 'misc')], quick=12, thorough=150,
                real=['StopWatch'], stub=[SIM], assumptions=COMMON[2:],
                must=['CLOCK', 'CLOCKJUMP', 'elapsed', 'not elapsed', 'reset', 'started in the past'], states='simulated seconds'),
    'C35': dict(oracle='the arguments delivered so far',
                scenarios=[sc('aggregated_call', 'misc')], quick=12, thorough=150,
                real=['aggregator', 'make_shared_aggregator'], stub=[SIM, 'functions that throw on request'], assumptions=COMMON + ['after the call no further argument is delivered'],
                must=['ALLOC', 'THROW', 'called', 'cancelled', 'dropped', 'an argument is set again', 'all arguments of a cancelled call'], states='number of deliveries and calls'),
    'C36': dict(oracle='the range of the enumeration, the limit and the lengths of the strings put into the value',
                scenarios=[sc('refused_values', 'reject')], quick=15, thorough=200,
                real=['Rw/*', 'EnumTraits', 'LimitedContext', 'Reader and Writer', 'VectorStream'], stub=[SIM, 'an allocator of strings that records requests'], assumptions=COMMON[2:] + ['one stored enumerator or one stored length is altered'],
                must=['CORRUPT', 'a string is refused', 'an altered length is refused', 'an altered enumerator is refused', 'an invalid enumerator is not written'], states='kind of value and position or byte'),
    'C37': dict(oracle='the constructions, destructions and owners counted outside of the program',
                scenarios=[sc('singletons', 'misc')], quick=10, thorough=120,
                real=['SharedSingleton', 'StaticSingleton', 'StaticChain', 'StaticFactory'], stub=[SIM, 'the begin and the end of the process: statics are reset for each run and destroyed at its end', 'constructors that throw on request'], assumptions=COMMON + ['shared_singleton and ondemand_singleton are called by one thread at a time'],
                must=['ALLOC', 'THROW', 'made', 'made again', 'it was destroyed', 'the instance exists', 'an attempt fails', 'a constructor of a static throws', 'statics that use each other', 'held until after the end', 'an unknown name'], states='instances made and owners of each singleton'),
}
