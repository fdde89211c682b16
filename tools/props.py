"""Property texts. tools/gen.py writes properties.jsonl and MANIFEST.json from these and from specs.SPECS."""
P = {}


def p(pid, title, statement, over, quant, why, files, mech, state=(), observe=(), technique='', note='', level='exploration'):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                           'observe_at': list(observe), 'hook_needed': None},
                  technique=technique, note=note, level=level)


DICT = ['src/db.cpp', 'src/dict.cpp', 'src/dict_mem.cpp', 'src/detail/search_engine.cpp']

p('C01', 'A database behaves as a map from keys to values',
  'After any sequence of completed Add, overwrite, Remove and reopen calls, Find and InDB report for every key exactly the value of the latest '
  'successful update or that the key is absent, and Count is the number of keys present. Add without overwrite of a present key and Remove of an '
  'absent key fail (IN_DICT, NOT_EXIST) and change nothing. This holds for all keys of 1 to 256 arbitrary bytes and all values of 1 to 32767 bytes, '
  'in disk, memory-only and jemalloc databases, through the writer handle and through any reader handle. A value which was returned, and each copy of it, stays what it is, whatever happens to the others.',
  ['inputs', 'histories', 'configurations'],
  'every history of updates and lookups over every key set, value size, block size, memory cap and storage mode',
  'Unit tests insert a few key families (sequential, SHA) and never mix splits, merges of edges, removals and overwrites of related keys of every length.',
  DICT, [('edge split, node growth, edge removal', 'src/dict_mem.cpp InsertNode/AddLink/UpdateNode/RemoveEdgeByIndex'), ('value storage', 'src/dict.cpp Add/Remove/ReserveData')],
  [('header count', 'number of entries', 'src/drm_base.h IndexHeader'), ('edge', 'label, flags and target of one tree edge', 'src/dict_mem.h EdgePtrs')],
  ['return values and values of Find, InDB, Add, Remove, Count'],
  technique='model-based runtime monitor (online std::map oracle) over generated histories, ASan/UBSan builds, on-disk tree walker',
  note='Every result of every call in the generated histories is compared with an executable model, and the on-disk tree is walked by an independent reader; nothing is claimed for histories that were not generated.')
p('C02', 'Longest prefix lookup returns exactly the longest stored prefix',
  'FindLongestPrefix returns the value and the length of the longest stored key that is a prefix of the given key, and NOT_EXIST if and only if no stored key is a prefix of it.',
  ['inputs', 'histories', 'configurations'],
  'every stored key set (also after removals, overwrites and resource collection) and every query of 1 to 256 bytes',
  'The tests query a fixed word list; whether matches inside an edge, at an inner node, at the root and after removals are all found depends on the shape of the tree.',
  ['src/db.cpp', 'src/detail/search_engine.cpp', 'src/dict.cpp'], [('last match kept while walking down', 'src/detail/search_engine.cpp findPrefixPath'), ('match flags of nodes and edges', 'src/dict_mem.h')],
  [], ['value, match length and return code of FindLongestPrefix'],
  technique='model-based runtime monitor over generated histories, ASan/UBSan builds',
  note='Each query is compared with a scan of the model. Prefix cache off here; C17 covers it.')
p('C03', 'Lower bound lookup returns the greatest key not above the query',
  'FindLowerBound returns the value, and on request the key, of the greatest stored key that is less than or equal to the given key in bytewise order, and NOT_EXIST if and only if every stored key is greater.',
  ['inputs', 'histories', 'configurations'],
  'every stored key set and every query of 1 to 256 arbitrary bytes, without concurrent updates',
  'The tests use numeric keys of equal length; backtracking to a smaller sibling at any depth, keys that are prefixes of each other and bytes above 127 are not sampled.',
  ['src/db.cpp', 'src/detail/search_engine.cpp'], [('descent with remembered smaller branch', 'src/detail/search_engine.cpp lowerBound')],
  [], ['value, key and return code of FindLowerBound'],
  technique='model-based runtime monitor over generated histories, ASan/UBSan builds',
  note='Each query is compared with upper_bound of the model. The library documents that this call is not for use during updates.')
p('C04', 'Iteration visits every entry exactly once',
  'Without concurrent updates, a full iteration yields every stored key exactly once with its current value and nothing else, and an iteration over a prefix yields exactly the stored keys that start with the prefix. A copy of an iterator goes on from where it was made, independently of the original.',
  ['inputs', 'histories', 'configurations'],
  'every stored key set, also after removals and resource collection, and every prefix',
  'Tests iterate over one word list; tree shapes with inner-node entries, root entries and long edges cut by the prefix are not sampled.',
  ['src/iterator.cpp', 'src/db.cpp', 'src/dict.cpp', 'src/detail/search_engine.cpp'], [('depth-first walk with node and edge stacks', 'src/iterator.cpp'), ('start node of a prefix', 'src/detail/search_engine.cpp findPrefix / dict.cpp')],
  [], ['keys and values the iterator yields'],
  technique='model-based runtime monitor over generated histories, ASan/UBSan builds',
  note='The yielded multiset is compared with the model after each history step that iterates.')
p('C05', 'A closed database reopens with exactly the same contents',
  'After the writer and all readers of a disk database close, opening it again (as writer or reader, with any compatible memory cap, in the same or a new process) shows exactly the entries, values and count it had, and it can be updated further without loss.',
  ['histories', 'configurations'],
  'every history with any number of close and reopen steps, data spread over several files, with and without mapped memory',
  'Tests reopen once or twice after plain inserts; whether every header field, free space boundary and file is written back correctly depends on the history before the close.',
  ['src/db.cpp', 'src/dict.cpp', 'src/drm_base.h', 'src/rollable_file.cpp', 'src/mmap_file.cpp'], [('header in shared memory', 'src/drm_base.cpp'), ('files opened on demand', 'src/rollable_file.cpp')],
  [('m_data_offset, m_index_offset', 'end of used space', 'src/drm_base.h')], ['all lookups after reopen', 'files of the closed database'],
  technique='model-based runtime monitor with reopen in the same and in fresh processes, offline walker over the closed files',
  note='Compared with the model after each reopen; the walker parses the files without the library.')
p('C06', 'A killed writer loses nothing that was completed',
  'If the writer process dies at any moment (during an update, RemoveAll, resource collection, opening, closing, or the very creation of the database), the next writer can open the database, and then every update that had returned is there, the interrupted one is either done or not done as a whole, the structure is sound, and the database can be used further. Readers that were open all the time go on working. With an async writer, every queued update is run by the next one; only additions which it made during a resource collection may be lost with it, as AbnormalExitTest states. A jemalloc database kept across restarts is either complete or, as documented, reset to empty. Count() may be off by one for each kill.',
  ['crash points', 'histories', 'configurations'],
  'every single store to the shared files of every operation on every reachable database state is a possible crash point',
  'No existing test kills a writer; the recovery code was never called. The states between two stores exist for nanoseconds in a normal run.',
  ['src/dict.cpp', 'src/dict_mem.cpp', 'src/db.cpp', 'src/mb_rc.cpp', 'src/async_writer.cpp'],
  [('intent log in the header', 'src/drm_base.h excep_*'), ('recovery at open', 'src/dict.cpp ExceptionRecovery, src/mb_rc.cpp ExceptionRecovery')],
  [('excep_updating_status, excep_buff, excep_offset, excep_lf_offset', 'the store in progress', 'src/drm_base.h'), ('rc_m_index_off_pre, rc_m_data_off_pre', 'resource collection in progress', 'src/drm_base.h')],
  ['contents, iteration, file walk and further updates after each kill'],
  technique='crash-point injection (compiler instrumentation kills the process at a chosen store, or in the middle of a copy) with model comparison and offline file walker after recovery',
  note='Every store of single operations is enumerated, long histories are sampled. Process death only: the page cache survives.')
p('C07', 'Lookups by readers are linearizable while the writer updates',
  'While one writer adds, overwrites, removes and clears entries, every Find or InDB of a reader returns a complete value that was current at some moment during that call (or NOT_EXIST if the key was absent at some moment during it), never a torn, stale or foreign value, and later calls never go back to older versions. Every call ends with such an answer: it neither fails nor retries without end.',
  ['schedules', 'histories', 'configurations'],
  'every interleaving of the memory accesses of one writer and several readers, in disk, memory-only and jemalloc databases',
  'The multi-threaded tests run free for a moment with keys whose value equals the key, so a stale value cannot be told from a current one and rare interleavings are not met.',
  ['src/lock_free.cpp', 'src/detail/lf_guard.h', 'src/detail/search_engine.cpp', 'src/dict_mem.cpp', 'src/dict.cpp'],
  [('writer announces the edge it modifies', 'src/lock_free.cpp WriterLockFreeStart/Stop'), ('readers check their path', 'src/detail/lf_guard.h')],
  [('counter, offset, offset_cache', 'what the writer modified last', 'src/lock_free.h LockFreeShmData')], ['invocation, response and value of each call against the version log of the writer'],
  technique='controlled-schedule runtime monitoring: every shared-memory access is a switch point (compiler instrumentation), online per-key linearizability oracle; free-running thread and process stress',
  note='Sequentially consistent interleavings at the granularity of single memory accesses, chosen by seeded random, priority and parking schedulers; free-running runs add real hardware behaviour.')
p('C08', 'Prefix lookups and iterators stay consistent while the writer updates',
  'While one writer updates, FindLongestPrefix of a reader returns an entry that was current during the call and never misses a longer stored prefix that was present throughout the call. An iteration returns every entry that is present throughout it exactly once, no key twice, and only complete values that were current during the iteration.',
  ['schedules', 'histories', 'configurations'],
  'every interleaving of the memory accesses of one writer and several readers, without RemoveAll during an iteration',
  'No test iterates or does prefix lookups while the tree changes under them.',
  ['src/iterator.cpp', 'src/detail/search_engine.cpp', 'src/lock_free.cpp', 'src/detail/lf_guard.h'],
  [('iterator reloads a node when its path changed', 'src/iterator.cpp'), ('prefix match rechecked with its path', 'src/detail/search_engine.cpp findPrefixPath')],
  [], ['entries returned and their versions'],
  technique='controlled-schedule runtime monitoring at memory-access granularity with interval oracles; free-running stress',
  note='Same scheduler as C07.')
p('C11', 'Resource collection keeps every entry and gives space back',
  'CollectResource changes neither the set of keys nor any value or the count, whatever was updated before; afterwards the database works as before and the space of removed and replaced entries has been given back. This holds for a run that is triggered by thresholds, a forced run, repeated runs and runs after a reopen.',
  ['histories', 'configurations'],
  'every history of updates interleaved with any number of collections with any thresholds',
  'Tests collect once after a fixed pattern of removals; which nodes, edge strings and values move, and in which order, depends on the history.',
  ['src/mb_rc.cpp', 'src/dict.cpp', 'src/dict_mem.cpp', 'src/rollable_file.cpp'], [('reorder and move buffers down', 'src/mb_rc.cpp'), ('shrink files', 'src/rollable_file.cpp RemoveUnused')],
  [('rc_m_index_off_pre, rc_m_data_off_pre', 'limit of the moved area', 'src/drm_base.h')], ['all lookups and the tree walker after each collection', 'used space before and after'],
  technique='model-based runtime monitor, offline walker after each collection, space accounting',
  note='Compared with the model and walked after every collection.')
p('C14', 'Space is never shared by two live objects and is reused',
  'At every quiescent point all nodes, edge strings and data buffers reachable in the database lie inside the used area of their files and do not overlap one another or any buffer that is marked free. Repeating updates that keep the number and sizes of entries bounded does not grow the used space without bound.',
  ['histories', 'inputs', 'configurations'],
  'every history of adds, overwrites with different sizes, removals, collections and reopen steps',
  'Tests look at return values; an overlap only shows when the second owner is written later, and the accounting is checked for a few sizes only.',
  ['src/free_list.cpp', 'src/dict.cpp', 'src/dict_mem.cpp', 'src/rollable_file.cpp'], [('free lists by size', 'src/free_list.cpp'), ('reserve and release', 'src/dict.cpp ReserveData/ReleaseBuffer, src/dict_mem.cpp')],
  [('free lists', 'buffers that may be reused', 'src/free_list.h')], ['files of the database', 'free lists', 'used space after each cycle'],
  technique='structural monitor: independent walker of the files plus free-list audit after random histories, plateau check over update cycles',
  note='Exact at each checkpoint of the generated histories.')
p('C17', 'The prefix cache never changes the result of a lookup',
  'A database created with the embedded prefix cache returns for every Find and InDB the same result as one without it, through every writer or reader '
  'handle, whether or not that handle itself was opened with the option, after any history of adds, overwrites, removals, RemoveAll, resource collection '
  'and reopens, and while the writer is changing the database.',
  ['inputs', 'histories', 'schedules'],
  'every history and every interleaving of one writer with readers that seed their lookups from cached edges',
  'A stale cache entry shows only when a cached edge was split, moved or released by a later update of a related key and the same prefix is then looked up; the tests use the cache on insert-only data.',
  ['src/util/prefix_cache.cpp', 'src/dict.cpp', 'src/detail/search_engine.h'], [('cache entry publication', 'src/util/prefix_cache.cpp PutAtDepth/GetDepth'), ('seeding and invalidation', 'src/dict.cpp SeedCanonicalBoundariesAfterAdd'), ('seeded lookup', 'src/detail/search_engine.h seedFromCache')],
  [('tag2/tag3/tag4', 'which prefix an entry belongs to', 'src/util/prefix_cache.h')], ['results of Find and InDB with the option on and off'],
  technique='model-based runtime monitor over generated histories plus schedule exploration with an online linearizability monitor, ASan/UBSan builds',
  note='Cache fill is measured through DumpPrefixCacheStats at every full check.')
p('C22', 'RemoveAll empties the database and leaves it fully usable',
  'After RemoveAll no key is found by any handle, Count is 0, iteration and prefix lookups yield nothing, and the space is available again; entries added later behave as in a new database, also after a reopen and in reader handles opened before.',
  ['histories', 'configurations'],
  'every history with any number of RemoveAll calls in any storage mode',
  'Tests clear a small database once or twice and do not go on with readers that stay open, resource collection or reopen steps.',
  ['src/dict.cpp', 'src/dict_mem.cpp', 'src/db.cpp', 'src/rollable_file.cpp'], [('reset of offsets, free lists and root', 'src/dict.cpp RemoveAll, src/dict_mem.cpp ClearMem')],
  [], ['all lookups after RemoveAll and after later updates'],
  technique='model-based runtime monitor over generated histories, tree walker, ASan/UBSan builds',
  note='Readers during a RemoveAll may get READ_ERROR (documented); that case is part of C07.')

p('C09', 'Queued updates of all producers are applied exactly once and in order',
  'Every Add, Remove and RemoveAll that a reader handle of any thread or process queued successfully is applied by the async writer exactly once, '
  'and the updates of one producer are applied in the order in which it made them; an update that was refused (TRY_AGAIN) is not applied. Once the queue has '
  'drained, every handle sees exactly the result. Updates queued when the writer closes are applied by the next async writer. A producer that dies at any '
  'moment loses at most its own unfinished update and blocks nobody for good.',
  ['schedules', 'histories', 'crash points', 'configurations'],
  'every interleaving of producers (threads and processes) and the writer thread, full queues, writer restarts, killed producers',
  'The tests have one producer or keys nobody overwrites, so lost, repeated and reordered updates cannot be seen; slot races need several processes at a full queue.',
  ['src/shmq_update.cpp', 'src/async_writer.cpp', 'src/db.cpp', 'src/dict.cpp'],
  [('slot acquisition', 'src/shmq_update.cpp AcquireSlot/PrepareSlot'), ('consumption in order', 'src/async_writer.cpp async_writer_thread')],
  [('queue_index, writer_index, in_use', 'slots of the ring', 'src/drm_base.h, src/async_writer.h')], ['answers of producers, contents at barriers, every value a reader sees'],
  technique='free-running stress of threads and processes with an online monitor (owned keys, monotone versions), exact comparison at barriers, killed producers, ASan/UBSan builds',
  note='Each key has one owner, so every value a reader sees must be a version it issued and never older than one seen before; the schedules are those the machine produced under load.')
p('C12', 'Resource collection is invisible to concurrent readers and producers',
  'While a resource collection runs, in the writer or in the async writer thread, readers keep getting the current entries, queued updates made before, during and after it take effect exactly once, and the final contents are those of the updates alone.',
  ['schedules', 'histories'],
  'every interleaving of a collection with lookups, prefix lookups, iterations and queued updates',
  'The tests collect in a quiet database or only count entries afterwards; updates arriving during a collection go to a second tree and are merged later.',
  ['src/mb_rc.cpp', 'src/async_writer.cpp', 'src/dict.cpp', 'src/detail/search_engine.cpp'],
  [('updates during the run go to the rc tree', 'src/mb_rc.cpp Prepare/ProcessRCTree, src/async_writer.cpp ProcessTask'), ('moving buffers under readers', 'src/mb_rc.cpp DoTask')],
  [('rc_root_offset', 'root of the second tree', 'src/drm_base.h')], ['every answer during the collection, contents after it'],
  technique='controlled-schedule exploration with an online linearizability monitor; free-running stress with forced collections, ASan/UBSan builds',
  note='The explorer runs synchronous collections against readers; the asynchronous ones run free.')
p('C15', 'A backup is a complete and independent copy',
  'A successful Backup produces a database that opens as writer or reader and holds exactly the entries the source had when it was taken (for a queued backup: a state between the request and its completion), and can be updated; neither the source nor an earlier backup is changed by it. A failing backup reports an error.',
  ['histories', 'configurations', 'schedules'],
  'every history before the backup, any number of blocks, mapped or not, with readers, producers and the async writer',
  'The tests back up one small database; several blocks, unmapped blocks, empty databases, queued backups under load and updates after it are not covered.',
  ['src/mb_backup.cpp', 'src/db.cpp', 'src/async_writer.cpp', 'src/rollable_file.cpp'], [('copy of header and blocks', 'src/mb_backup.cpp CopyData')],
  [], ['contents of the backup through handles and through the independent walker'],
  technique='model-based runtime monitor over generated histories, independent walker of the copy, free-running stress with queued backups',
  note='Exact comparison with the model at the moment of the backup.')
p('C16', 'A kept jemalloc database survives any number of restarts',
  'A jemalloc database that is opened again by a writer with jemalloc_keep_db holds exactly the entries it had, whether its last writer closed it or died between two updates, and can be updated without limit on the number of restarts as long as its live data fit: neither entries nor capacity are lost over restarts. Without the option it starts empty.',
  ['histories', 'configurations'],
  'every history of updates and restarts with any number of blocks and any degree of fill',
  'The tests restart a sparse database once or twice; which buffers move, which blocks are reused and what is free depends on the whole history.',
  ['src/mb_rc.cpp', 'src/db.cpp', 'src/rollable_file.cpp', 'src/dict.cpp'],
  [('compaction and evacuation at startup', 'src/mb_rc.cpp StartupShrink/StartupEvacuate'), ('seeding of the allocator', 'src/rollable_file.cpp')],
  [('jemalloc_index_free_start', 'limit of compacted data', 'src/drm_base.h')], ['all lookups after each restart, results of updates, block files'],
  technique='model-based runtime monitor over update and restart histories, killed writer processes, independent walker, ASan/UBSan builds',
  note='The live data stay below a fifth of the capacity in the plateau histories; the other histories run to the limit and accept errors for lack of space only.')
p('C26', 'A full database refuses updates and stays intact',
  'When the index or the data reach the configured number of blocks, Add fails with an error, nothing else changes, and every entry, lookup, iteration and the count stay right; no file beyond the limit is created. A Remove or a resource collection that fails for lack of space changes nothing. After removals, RemoveAll, resource collection or a reopen the database is usable and gives the space of removed values to new ones.',
  ['histories', 'configurations'],
  'every history that reaches the capacity in the index or in the data, at any step of any operation, in any storage mode',
  'No test reaches the limits; an operation that fails in the middle must undo what it has done, and where it fails depends on the history.',
  ['src/dict.cpp', 'src/dict_mem.cpp', 'src/rollable_file.cpp', 'src/mb_rc.cpp', 'src/db.cpp'], [('reservation at the limit', 'src/rollable_file.cpp Reserve/CheckAndOpenFile/Malloc'), ('space checked before removal', 'src/dict.cpp')],
  [], ['return codes, all lookups, block files, tree walker'],
  technique='model-based runtime monitor over histories that fill a small database again and again, tree walker, ASan/UBSan builds',
  note='Which updates fail is not specified; that a failed one changes nothing is compared after every failure and at each checkpoint.')
p('C10', 'One writer at a time, and handles do what their state says',
  'At any moment at most one writer handle is open for a database, whichever threads or processes ask for it, by whatever path, and at the same moment; the others are refused with WRITER_EXIST, '
  'and a refused or failed attempt, or closing a handle twice, changes nothing for anybody. When the writer closes, is destroyed, assigned over, or its process ends in any way, '
  'a new writer can be opened. Readers can be opened, copied and assigned at any moment, fail with NO_DB when there is no database, and every open handle sees exactly what the writers wrote; '
  'a handle which is not open refuses every call.',
  ['histories', 'schedules', 'crash points'],
  'every sequence of opens, copies, assignments, closes, destructions and deaths of any number of threads and processes, also at the same moment, with normal and async writers',
  'The test opens one writer twice in one process. Which lock or mark is left, or released too early, depends on the order of failures, closes and deaths of several handles.',
  ['src/db.cpp', 'src/util/utils.cpp', 'src/resource_pool.cpp'],
  [('writer lock: mark in the process and lock on the file', 'src/db.cpp PreCheckDB/Close'), ('copy and assignment', 'src/db.cpp')],
  [('writer_lock_held', 'this handle owns the lock', 'src/db.h')], ['status of every open, contents seen by every open handle'],
  technique='runtime monitor of all handles of several processes against an exact model of who may write and what is stored, with racing opens and killed processes, ASan/UBSan builds',
  note='Free-running races of opens; every outcome is compared with the model.')
p('C18', 'Invalid calls are refused and change nothing',
  'A call the interface does not allow - key or value lengths out of range, no value, unknown options, a handle which is closed, was never opened, failed to open, or is of the wrong kind, '
  'an impossible backup target, an offset beyond the database, an invalid configuration - returns an error. It does not crash or hang, reads no memory outside its arguments, and does not change, queue or destroy anything: '
  'neither the contents of the database, nor its files, nor what other handles see. Arguments at the limits are accepted and behave as any other.',
  ['inputs', 'configurations', 'handle states'],
  'every call of the DB interface with argument values at and beyond each limit, in every handle state and storage mode, at any point of any history',
  'The tests call the interface as it is meant to be used, with a few oversized keys; nearly no call is tried on a closed or refused handle or with an invalid configuration.',
  ['src/db.cpp', 'src/async_writer.cpp', 'src/shm_queue_mgr.cpp', 'src/drm_base.cpp', 'src/dict.cpp', 'src/mb_backup.cpp', 'src/logger.cpp'],
  [('argument checks', 'src/db.cpp'), ('ValidateConfig', 'src/db.cpp')],
  [], ['return codes, contents and count after each invalid call, files'],
  technique='runtime monitor: generated invalid calls between valid ones, exact model comparison, ASan/UBSan builds',
  note='Which error code is returned is specified only where the documentation or the header names it.')
p('C13', 'Eviction removes the oldest entries, and only when a limit is exceeded',
  'CollectResource with a limit on the number of entries or the size removes entries only if the limit is exceeded. It removes the entries whose last update is oldest, in whole buckets of num_entry_per_bucket updates: '
  'no entry goes while an older one stays, the entries of the last bucket stay, and an entry updated while an asynchronous eviction runs has its new age. The excess decides how much goes: a call removes '
  'most of the excess and at most half of the buckets of a database in which every update added an entry. Nothing else changes: values, count and all lookups of the others are as before.',
  ['histories', 'configurations', 'schedules'],
  'every history of additions, overwrites, removals, RemoveAll and restarts, any bucket size, any number of updates, evictions with any limit, also while updates arrive',
  'The tests evict once from a database filled in order and look at the number of entries; ages after overwrites, repeated evictions, restarts and wrapped bucket numbers are not covered.',
  ['src/mb_rc.cpp', 'src/dict.cpp', 'src/db.cpp', 'src/async_writer.cpp'], [('LRUEviction', 'src/mb_rc.cpp'), ('bucket of an update', 'src/dict.cpp ReserveData')],
  [('eviction_bucket_index', 'oldest bucket', 'src/drm_base.h')], ['contents before and after each eviction'],
  technique='model-based runtime monitor with the age of every entry, free-running asynchronous evictions, tree walker, ASan/UBSan builds',
  note='The number of evicted entries is bounded from both sides only for histories without overwrites; the order is checked always.')
p('C21', 'Databases do not affect each other',
  'What is done to one database - updates, RemoveAll, collection, eviction, backup, failed opens, closing, crash recovery, erasing and creating it again, also with another configuration - changes nothing in any other, '
  'whether they are in sibling or nested directories, share memory caps, the queue directory, the process-wide file pool, or names and inode numbers which were used before, and whether they are used by one thread, '
  'several threads or several processes. Each database behaves exactly as if it was alone.',
  ['histories', 'configurations', 'schedules'],
  'every interleaving of the life cycles of any number of databases of any kind in one process and in several',
  'Every test uses one database at a time. Whether something leaks from one to another through the resource pool, the queue files, re-used inodes or a path prefix depends on what else was opened before, and in what order.',
  ['src/resource_pool.cpp', 'src/shm_queue_mgr.cpp', 'src/db.cpp', 'src/dict.cpp', 'src/drm_base.h', 'src/util/utils.cpp'],
  [('pool keyed by path', 'src/resource_pool.cpp'), ('queue file named after the inode of the header', 'src/resource_pool.cpp OpenFile / src/dict.cpp')],
  [('file_pool', 'mapped files of this process', 'src/resource_pool.h')], ['contents of every database after operations on any other'],
  technique='model-based runtime monitor of several databases at a time, in threads and processes, ASan/UBSan builds',
  note='The process-wide async writer is a singleton by design; one is used at a time in a process.')
p('C20', 'Threads with databases of their own do not race',
  'Threads of one process which use different databases, or handles of their own, need no synchronisation: opening, using, collecting, emptying and closing databases and logging at the same moment has no data race '
  'and gives in each thread the results it would have alone.',
  ['schedules', 'configurations'],
  'every interleaving of threads which use handles of their own, for all kinds of databases except the async writer (one per process)',
  'A race on the process-wide pool, log or allocator maps nearly never shows in a result, and no existing test uses two databases in two threads.',
  ['src/resource_pool.cpp', 'src/logger.cpp', 'src/drm_base.h', 'src/rollable_file.cpp', 'src/db.cpp'],
  [('pool_mutex', 'src/resource_pool.cpp'), ('arena manager map', 'src/rollable_file.cpp'), ('log mutex', 'src/logger.cpp')],
  [], ['happens-before races between threads', 'contents against the model of each thread'],
  technique='ThreadSanitizer over threads with independent databases, and a model-based monitor of the same workload without instrumentation',
  note='Races are decided by happens-before on the executions made, so they are found without having to strike.')

p('C25', 'A process that opens, uses and closes databases keeps nothing of them',
  'Whatever is done with handles - opening, failing to open, being refused, copying, assigning, looking up, iterating to the end or leaving in the middle, updating, collecting, emptying, backing up, closing in any order - '
  'when the handles are gone and the resources of the directory are cleared, the process holds no descriptor, mapping, thread, lock or memory for them; and while handles stay open, reading and opening and closing others '
  'again and again does not accumulate any. So a process can go on for ever.',
  ['histories', 'configurations'],
  'every history of handles and operations, in any storage mode, repeated without limit',
  'A leak does not change any result, so no test sees it; which path leaks (a failed open, an abandoned iterator, a handle assigned over) depends on the history.',
  ['src/db.cpp', 'src/dict.cpp', 'src/resource_pool.cpp', 'src/mmap_file.cpp', 'src/rollable_file.cpp', 'src/shm_queue_mgr.cpp', 'src/mb_pipe.cpp', 'src/iterator.cpp', 'src/mb_data.cpp', 'src/async_writer.cpp'],
  [('ClearResources', 'src/db.cpp'), ('file_pool', 'src/resource_pool.cpp'), ('Close and the failure paths of the constructor', 'src/db.cpp')],
  [], ['descriptors, mappings, mapped bytes, threads, live heap blocks and jemalloc arenas of the process after each repetition'],
  technique='run-time monitor of the resources of the process (counting allocator, /proc/self) over repeated generated histories',
  note='A resource that grows in each of six repetitions after three of warm-up is reported; what is kept once is not.')

p('C24', 'mbc does what the query says, with any bytes, and survives any query',
  'A query of the command line tool - interactive, from a script or with -e - finds, adds, deletes, lists, empties or collects exactly what it says: its expressions mean the bytes their text denotes (quotes, numbers, '
  'nested bin() and hex()), and a text which is no expression is refused. The answer shows the value the database has, and the database afterwards has exactly what the accepted queries stored and removed, '
  'whoever runs the tool: writer, async writer, reader, or client of a writer elsewhere. A query that is wrong says so and changes nothing; no query ends the tool.',
  ['inputs', 'histories', 'configurations'],
  'every text given as a query, every sequence of queries, every byte string as key and value, each role of the tool',
  'No test runs the tool; its parser is hand-written and meets arbitrary text.',
  ['binaries/mbc.cpp', 'binaries/expr_parser.cpp', 'binaries/hexbin.cpp'],
  [('ExprParser::Evaluate', 'binaries/expr_parser.cpp'), ('RunCommand: the queries', 'binaries/mbc.cpp'), ('hex_2_bin', 'binaries/hexbin.cpp')],
  [], ['results of the parser, output of the tool, contents of the database after each run'],
  technique='differential run-time monitor: parser against an independent grammar, the tool as a process against a map, ASan/UBSan builds',
  note='Queries are sequential; lone numbers outside of bin(), and expressions longer than the buffers of the parser, may be refused or not.')

p('C27', 'What the system refuses is reported and damages nothing',
  'When the system refuses to open, allocate, map, read or write a file - no descriptors, no space, no memory, no permission, an I/O error - the call that needed it returns an error; it neither crashes nor reports success. '
  'No entry is lost or changed by it: the refused update is not done, everything else is as before for every handle, also during the refusal; a database whose opening is refused is not erased, a refused backup is reported. '
  'Once the system gives again, the handles and the database work as before. (A kept jemalloc database whose rebuild at the start is refused begins anew, as the header file says.)',
  ['faults', 'histories', 'configurations'],
  'every system call of the library that can fail, at every moment of every history, in each storage mode, with any error and for any time',
  'Tests run where nothing is refused; full disks and exhausted descriptors are met in production only.',
  ['src/file_io.cpp', 'src/mmap_file.cpp', 'src/rollable_file.cpp', 'src/resource_pool.cpp', 'src/db.cpp', 'src/dict.cpp', 'src/dict_mem.cpp', 'src/mb_backup.cpp', 'src/drm_base.cpp'],
  [('InitDB and ReInit', 'src/db.cpp'), ('AllocateFile', 'src/file_io.cpp'), ('OpenFileWithKey', 'src/resource_pool.cpp'), ('OpenAndMapBlockFile', 'src/rollable_file.cpp')],
  [], ['return values, contents and count through writer and reader after each fault'],
  technique='run-time monitor: faults injected into the system calls of the library, exact model comparison, ASan/UBSan builds',
  note='Storage that cannot be written although it was allocated (SIGBUS) is outside.')

p('C28', 'Readers keep working while writers stop, die and start',
  'An open reader needs no attention when the writer closes or is killed and another writer starts, recovers the interrupted update, or compacts and rebuilds a jemalloc database which is kept: '
  'before, during and after, each lookup returns a value which was current during the call, no entry is missed that was present all the time, iterations included. A reader which is killed in the middle of a lookup '
  'neither stops the new writer nor makes it drop the database.',
  ['schedules', 'crash points', 'histories'],
  'every interleaving of the lookups of any number of reader threads and processes with the closing, death, opening, recovery and startup rebuild of writers',
  'The tests restart the writer with no lookup in progress, or one which is stopped at a chosen place. What a restart resets under a lookup in progress - counters, epochs, freed blocks - shows only at the right moment.',
  ['src/db.cpp', 'src/lock_free.cpp', 'src/mb_rc.cpp', 'src/dict.cpp', 'src/drm_base.h', 'src/rollable_file.cpp'],
  [('LockFreeInit', 'src/lock_free.cpp'), ('RunStartupRebuild, reader epochs', 'src/db.cpp, src/mb_rc.cpp'), ('ExceptionRecovery', 'src/dict.cpp')],
  [('lock_free.counter', 'modifications seen by readers', 'src/lock_free.h'), ('reader_epoch_slot', 'lookups in progress', 'src/drm_base.h')], ['answers of the readers with the versions current during the call'],
  technique='online linearizability monitor of free-running reader threads and processes over many restarts and kills, and of a seeded interleaving explorer; ASan build',
  note='Free-running schedules are those of the machine; the explorer covers switch points at every shared access with sequential consistency.')
