SCH = ['schedules', 'histories', 'inputs']
WHY = 'The existing tests run a few threads under whatever schedule the machine happens to give and compare only final counts; the claim is about every interleaving of every operation mix.'
prop('A01', 'ARTOLC: concurrent point operations are linearizable',
  'Every concurrent history of put, get and remove on the adaptive radix tree is equivalent, key by key, to one sequential order that respects real time. Every operation finishes once other threads stop interfering, and no operation touches memory outside live blocks.',
  SCH, 'all interleavings of up to 4 threads, all key shapes (fixed, long shared prefixes, variable length), all node sizes and size transitions', WHY,
  ['ARTOLC/Tree.cpp', 'ARTOLC/N.cpp', 'ARTOLC/N4.cpp', 'ARTOLC/N16.cpp', 'ARTOLC/N48.cpp', 'ARTOLC/N256.cpp'],
  [('optimistic version check with restart', 'ARTOLC/N.cpp readLockOrRestart / readUnlockOrRestart'), ('insert, prefix split, path compression', 'ARTOLC/Tree.cpp insert / remove')])
prop('A02', 'ARTOLC: range lookup returns exactly the range, in order',
  'A range lookup returns keys in ascending order, each at most once, only keys inside the requested range, and each covered key is reported with a value it had, or left out only if it was absent, at some moment during the call. When the result buffer fills up, the lookup says so and names the first key it left out.',
  SCH, 'all ranges and buffer sizes, with concurrent inserts and removes', 'No existing test calls the range lookup of this tree at all.',
  ['ARTOLC/Tree.cpp', 'ARTOLC/N.cpp', 'ARTOLC/N16.cpp'], [('range traversal with version checks', 'ARTOLC/Tree.cpp lookupRange'), ('ordered child enumeration', 'ARTOLC/N*.cpp getChildren')])
prop('A03', 'ARTOLC: nodes are reclaimed only when no operation can reach them',
  'Memory of a removed or replaced tree node is freed only after every operation that could still hold a reference to it has finished, and is freed at most once. This holds however long a thread is delayed at any point, including before its first read of an operation.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings including stalled threads and store buffering, with enough removals to trigger collection', WHY,
  ['ARTOLC/Epoche.cpp', 'ARTOLC/Epoche.h', 'ARTOLC/Tree.cpp'], [('epoch entry and collection', 'ARTOLC/Epoche.cpp enterEpoche / exitEpocheAndCleanup'), ('retirement', 'ARTOLC/Epoche.cpp markNodeForDeletion')])
prop('Q01', 'OptiQL tree: concurrent point operations are linearizable',
  'Every concurrent history of insert (if absent), update, lookup and remove on the OptiQL adaptive radix tree is equivalent, key by key, to one sequential order that respects real time. Each reported success or failure agrees with that order, every operation finishes once other threads stop interfering, and a replaced node is retired exactly once, only when no longer part of the tree.',
  SCH, 'all interleavings of up to 4 threads, all key shapes, node sizes and size transitions, with the queue-based versioned latches', WHY,
  ['OptiQL/Tree.cpp', 'OptiQL/N.cpp', 'OptiQL/N4.cpp', 'OptiQL/N16.cpp', 'OptiQL/N48.cpp', 'OptiQL/N256.cpp', 'OptiQL/latches/OMCSImpl.h'],
  [('optimistic lock coupling with queue-based latches', 'OptiQL/N.cpp, OptiQL/Tree.cpp'), ('insert, grow, shrink, prefix split, update in place', 'OptiQL/Tree.cpp')])
prop('Q02', 'OptiQL tree: range lookup returns exactly the range, in order',
  'A range lookup (bounded, or open ended from a start key) returns keys in ascending order, each at most once, only keys inside the requested range, and each covered key is reported with a value it had, or left out only if it was absent, at some moment during the call. When the result buffer fills up, the first keys of the range are the ones returned.',
  SCH, 'all ranges and buffer sizes, with concurrent inserts, updates and removes', 'No existing test calls the range lookup of this tree at all.',
  ['OptiQL/Tree.cpp', 'OptiQL/N.cpp'], [('range traversal with version checks', 'OptiQL/Tree.cpp lookupRange')])
prop('Q03', 'OptiQL latches: exclusion, hand-over and queue order',
  'Every latch of OptiQL (MCS, optimistic MCS with and without opportunistic reads, centralised and queue-based reader-writer latches) admits at most one exclusive holder and never a shared holder next to it. No release is lost: whenever holders release, every waiter eventually gets the latch. The queue-based latches serve waiters in arrival order, and a try-lock succeeds only on a free latch.',
  ['schedules', 'histories'], 'all interleavings of up to 5 threads including store buffering, spurious CAS failure and stalled holders', 'No existing test exercises the latches alone; the trees use few of the variants and a lost hand-over needs one specific interleaving.',
  ['OptiQL/latches/MCS.h', 'OptiQL/latches/MCSRW.h', 'OptiQL/latches/OMCSImpl.h', 'OptiQL/latches/OMCSOffset.h', 'OptiQL/latches/STDRW.h'],
  [('queue hand-over', 'OptiQL/latches/OMCSImpl.h lock / unlock'), ('reader-writer queue', 'OptiQL/latches/MCSRW.h')])
prop('Q04', 'OptiQL latches: validated optimistic reads are consistent',
  'A version read that later validates saw no half-finished exclusive section, also when the read happens during hand-over between queued writers. Upgrading a version to the exclusive mode succeeds only when nothing changed since the version was read.',
  ['schedules', 'histories'], 'all interleavings of writers, readers and upgraders on one latch, including store buffering', 'A version that is reused or not bumped shows only when a reader straddles exactly the wrong two writers.',
  ['OptiQL/latches/OMCSImpl.h', 'OptiQL/latches/OMCSOffset.h'], [('version word and opportunistic-read bit', 'OptiQL/latches/OMCSImpl.h try_begin_read / validate_read / try_lock')])
prop('T01', 'BTreeOLC: concurrent upserts and lookups are linearizable',
  'Every concurrent history of insert (upsert) and lookup on the optimistic-lock-coupling B+-tree, in both leaf layouts, is equivalent, key by key, to one sequential order that respects real time: lookup of an absent key reports absence, lookup of a stored key returns the whole of one stored value. Every operation finishes once others stop interfering.',
  SCH, 'all interleavings of up to 4 threads over every split of leaves, inner nodes and the root', WHY,
  ['BTreeOLC/BTreeOLC.h', 'BTreeOLC/BTreeOLC_child_layout.h'], [('version check coupling and eager splits', 'BTreeOLC/BTreeOLC.h insert / lookup'), ('root replacement', 'BTreeOLC/BTreeOLC.h makeRoot')])
prop('T02', 'BTreeOLC: a scan returns consecutive keys from its start',
  'A scan returns the values of consecutive keys in ascending order, beginning with the smallest stored key not below the start, at most as many as asked for, and at least one when such a key exists. Each value is one the key had at some moment during the call, and no key in between is skipped.',
  SCH, 'all starts and lengths, with concurrent upserts splitting the leaf that is read', 'The only test inserts ascending keys single-threaded and never scans.',
  ['BTreeOLC/BTreeOLC.h', 'BTreeOLC/BTreeOLC_child_layout.h'], [('scan validation', 'BTreeOLC/BTreeOLC.h scan')])
prop('L01', 'BLinkTree: concurrent point operations are linearizable',
  'Every concurrent history of Insert (if absent), Update and Search on the B-link tree is equivalent, key by key, to one sequential order that respects real time, and the reported success agrees with it. No schedule deadlocks, loses a half-inserted split or fails an internal assertion; the reported depth is the real one; destroying the tree frees every node.',
  SCH, 'all interleavings of up to 4 threads over every split of leaves, inner nodes and the root, both latch types', WHY,
  ['BLinkTree/b_link_tree.h', 'BLinkTree/b_link_node.h', 'BLinkTree/latch.h'], [('move right past a concurrent split', 'BLinkTree/b_link_tree.h Insert / TraverseInner'), ('split and parent insertion', 'BLinkTree/b_link_node.h InnerInsert / LeafInsert')])
prop('L02', 'BLinkTree: scans return exactly their range as one snapshot',
  'ScanFixed returns the first keys not below the start, ScanRange the keys of the half-open interval, ascending and without gaps or duplicates. All pairs of one scan were in the tree together at one moment during the call. The result says whether any key at or above the start exists.',
  SCH, 'all ranges and lengths, with concurrent inserts, updates and splits', 'The only test never scans.',
  ['BLinkTree/b_link_tree.h'], [('latching the scanned leaves until the end', 'BLinkTree/b_link_tree.h ScanFixed / ScanRange')])
prop('L03', 'BLinkTree latches: exclusion and no stuck waiter',
  'The node latches of the B-link tree admit at most one exclusive holder and never a shared holder next to it, however readers that back off overlap with a writer. Releases are never lost and every waiter gets in once the holders leave.',
  ['schedules', 'histories'], 'all interleavings of up to 5 threads', 'No existing test takes a latch from two threads.',
  ['BLinkTree/latch.h'], [('reader count and writer bit in one word', 'BLinkTree/latch.h RSpinSharedLatch')])
WHW = 'The existing tests of this library are benchmarks and sequential smoke programs that never check results under contention, and allocation never fails in them.'
prop('W01', 'Wormhole: concurrent point operations are linearizable',
  'Every concurrent history of put, get, probe, delete, merge and in-place read or update through the quiescent-state, the lock-protected and the simplified interface is equivalent, key by key, to one sequential order that respects real time. An in-place update or merge callback sees exactly one current value and no other update slips in between. Every operation finishes once others stop interfering, touches only live memory, and destroying the map frees everything.',
  SCH, 'all interleavings of up to 4 threads, keys that are prefixes of one another, over every leaf split and merge and every growth of the hash table', WHW,
  ['wormhole/wh.c', 'wormhole/lib.c', 'wormhole/kv.c'], [('leaf lock plus version check after the hash lookup', 'wormhole/wh.c wormhole_jump_leaf_read / _write'), ('two-version meta table and its switch', 'wormhole/wh.c wormhole_split_meta / wormhole_meta_merge')])
prop('W02', 'Wormhole: an iterator walks the live keys in order',
  'Seek positions an iterator at the smallest key not below the given one, and next, peek, skip and in-place access deliver keys in ascending order, each at most once. Each delivered pair is one the map held at some moment during the walk, and a key that was present throughout is never skipped.',
  SCH, 'all starting points, with concurrent puts, deletes, splits and merges, parked and resumed iterators, all delivery styles', WHW,
  ['wormhole/wh.c'], [('leaf read lock held by the iterator; moving to the next leaf', 'wormhole/wh.c wormhole_iter_seek / wormhole_iter_skip1 / wormhole_iter_next')])
prop('W03', 'Wormhole: range deletion removes exactly its range',
  'A range deletion removes keys of its half-open range and no other key, keys deleted during other operations are neither lost nor counted twice, and the reported number is the number of keys it removed.',
  SCH, 'all ranges, with concurrent inserts, deletes, iterators and other range deletions over leaf boundaries', 'No existing test calls it from two threads.',
  ['wormhole/wh.c'], [('leaf by leaf deletion and merge', 'wormhole/wh.c wormhole_delr')])
prop('W04', 'Quiescent-state reclamation: nothing still readable is reclaimed',
  'After a writer publishes a new version and its wait returns, no registered reader can still use the old one, whether readers come, leave, pause or resume meanwhile. The wait returns once every registered reader has reported the new version, paused or left.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of up to 5 readers and writers that register, pause, resume and leave, including delayed stores', WHW,
  ['wormhole/lib.c'], [('registration, report and wait', 'wormhole/lib.c qsbr_register / qsbr_update / qsbr_park / qsbr_resume / qsbr_wait')])
prop('W05', 'Wormhole locks: exclusion, fair release, honest try-lock',
  'The spinlock, mutex and reader-writer lock (including writer-priority and reader-yielding variants and the write-to-read downgrade) admit at most one writer and never a reader next to it. Every waiter gets in once the holders leave, and a try-lock succeeds only when the lock was free for that mode.',
  ['schedules', 'histories'], 'all interleavings of up to 5 threads including spurious CAS failure', 'No existing test takes these locks from two threads.',
  ['wormhole/lib.c'], [('reader count and writer bits in one word', 'wormhole/lib.c rwlock_*')])
prop('W06', 'Wormhole: a failed allocation fails one operation and nothing else',
  'When memory runs out in the middle of a concurrent put or merge, that operation reports failure and leaves the map as it was. Every other operation stays linearizable, no lock stays taken, and nothing leaks or is freed twice.',
  ['schedules', 'histories', 'fault_sequences'], 'every allocation site, every subset of failing allocations, all interleavings of up to 4 threads', 'No existing test lets an allocation fail.',
  ['wormhole/wh.c', 'wormhole/lib.c'], [('undo of a split', 'wormhole/wh.c wormleaf_split_undo'), ('reservation of meta nodes before a change', 'wormhole/wh.c wormhole_slab_reserve')])
prop('W07', 'Wormhole: every interface agrees with an ordered map',
  'Whatever sequence of operations one thread issues through any of the four interfaces, including clean, range deletion, iterator skips and switching interfaces on one map, each result equals that of an ordered map that applied the same successful operations. When an allocation fails, the affected call reports failure and the map stays as it was; a map that could not be created leaves nothing behind.',
  ['inputs', 'histories', 'fault_sequences'], 'all operation sequences, key shapes and failing allocations', 'The tests run a handful of fixed sequences and never let an allocation fail.',
  ['wormhole/wh.c', 'wormhole/kv.c', 'wormhole/lib.c'], [('leaf search, split, merge, meta table', 'wormhole/wh.c whunsafe_* / wormhole_*')])
prop('W08', 'Slab allocator: one owner per object, none lost',
  'However threads interleave allocation and release, an object is handed to one owner at a time, objects do not overlap and keep their alignment, and the count of objects in use is exact. When memory runs out an allocation reports it and everything handed out stays valid; destroying the allocator frees all its memory.',
  ['schedules', 'fault_sequences'], 'all interleavings of up to 5 threads, all object sizes, failing allocations', 'No existing test uses the allocator from two threads.',
  ['wormhole/lib.c'], [('lock-free and locked free lists', 'wormhole/lib.c slab_alloc_safe / slab_free_safe / slab_expand')])
prop('H01', 'HOT: concurrent point operations are linearizable',
  'Every concurrent history of upsert, insert (if absent) and lookup on the height optimized trie, through HotTree and through HOTRowex itself, with integer and string keys, is equivalent, key by key, to one sequential order that respects real time. Upsert says whether the key was new and HOTRowex hands back the value it replaced; every operation, also on an empty or one-key trie, finishes once others stop interfering and touches only live memory.',
  SCH, 'all interleavings of up to 4 threads, all key shapes (dense, sparse, single and multi mask nodes, shared prefixes, keys that are prefixes of one another), over every leaf push-down, node split, parent pull-up and root replacement', WHY,
  ['HOT/hot.h', 'HOT/include/hot/rowex/HOTRowex.hpp', 'HOT/include/hot/rowex/HOTRowexInsertStack.hpp', 'HOT/include/hot/rowex/HOTRowexNode.hpp', 'HOT/include/hot/commons/SparsePartialKeys.hpp'],
  [('lock the affected path, check it is consistent, copy on write', 'HOT/include/hot/rowex/HOTRowexInsertStack.hpp tryLock; HOTRowex.hpp insertForStackRange'), ('in-place replacement of a leaf', 'HOT/include/hot/rowex/HOTRowex.hpp upsert')])
prop('H02', 'HOT: iteration delivers the keys in order, none skipped',
  'Iterators from begin, find, lower_bound and upper_bound deliver keys in ascending order, each at most once, starting at the right key; find delivers the key itself or the end. Each delivered value is one the key had at some moment during the walk, and a key that was present throughout is never skipped, however many keys the walk covers.',
  SCH, 'all starting points and lengths (also beyond one iterator buffer), with concurrent insertions, splits and replacements', 'No existing test iterates over this index.',
  ['HOT/include/hot/rowex/HOTRowexIterator.hpp', 'HOT/include/hot/rowex/HOTRowex.hpp'], [('descent for a bound and buffered continuation', 'HOT/include/hot/rowex/HOTRowexIterator.hpp fillBufferForBoundWithByteKey / operator++')])
prop('H03', 'HOT: nodes are reclaimed only when no operation can reach them',
  'The memory of a replaced trie node is freed only after every operation that could still hold a reference to it has finished, and is freed at most once. This holds however long a thread is delayed at any point, including between choosing its epoch and its first read.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of up to 4 threads including stalls and store buffering, with enough retired nodes for epochs to advance several times', WHY,
  ['HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp', 'HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp'],
  [('epoch entry and advance', 'HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp enterCriticalSection / canAdvance'), ('retirement', 'HOT/include/hot/rowex/HOTRowexInsertStackEntry.hpp markAsObsolete')])
prop('M01', 'MassTree: concurrent point operations are linearizable',
  'Every concurrent history of get, insert, update and remove through unlocked and locked cursors on a Masstree table (leaf width 3, 7 or 15) is equivalent, key by key, to one sequential order that respects real time. Found/not-found results and the old values seen under the lock agree with that order, every operation finishes once others stop interfering, and no operation touches memory outside live blocks.',
  SCH, 'all interleavings of up to 4 threads plus the epoch timer, all key shapes (several 8-byte layers, inline and external suffixes, keys that are prefixes of one another, zero bytes), with leaf and internode splits, new layers, leaf removal and layer collection', 'The existing tests run masstree through one seeded scan test, sequentially; the claim is about every interleaving.',
  ['MassTree/masstree_get.hh', 'MassTree/masstree_insert.hh', 'MassTree/masstree_split.hh', 'MassTree/masstree_remove.hh', 'MassTree/masstree_struct.hh', 'MassTree/nodeversion.hh'],
  [('version check and permutation publish', 'MassTree/masstree_get.hh find_unlocked / find_locked'), ('split and layer creation', 'MassTree/masstree_split.hh make_split, masstree_insert.hh make_new_layer'), ('leaf and layer removal', 'MassTree/masstree_remove.hh remove_leaf / collapse / gc_layer')])
prop('M02', 'MassTree: scans deliver the range in order, none skipped',
  'A forward or reverse scan delivers keys in ascending (descending) order from the right start, with or without the start key itself, each key at most once. Each delivered value is one the key had at some moment during the scan, and a key that was present throughout is never skipped, whatever splits, removals and layer changes happen meanwhile.',
  SCH, 'all starting points (present, absent, prefixes of keys), lengths and directions, with concurrent inserts, updates and removes', 'The existing scan test is sequential.',
  ['MassTree/masstree_scan.hh', 'MassTree/masstree_struct.hh', 'MassTree/btree_leaflink.hh'], [('scan stack, retry after a version change', 'MassTree/masstree_scan.hh find_initial / find_retry / find_next'), ('leaf list', 'MassTree/btree_leaflink.hh')])
prop('M03', 'MassTree: nodes are reclaimed only when no operation can reach them',
  'The memory of a removed node, a replaced suffix bag, a collected layer or a removed value is freed only after every operation that could still hold a reference to it has finished, and is freed at most once. This holds however long a thread is delayed at any point between the start and the end of its read section.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of up to 4 threads with the epoch advancing at any moment, including stalls and store buffering, with enough removals to empty leaves and whole layers', WHY,
  ['MassTree/masstree_remove.hh', 'MassTree/kvthread.hh', 'MassTree/kvthread.cc', 'MassTree/masstree_struct.hh'],
  [('read sections and limbo groups', 'MassTree/kvthread.hh rcu_start / rcu_stop / rcu_quiesce; kvthread.cc hard_rcu_quiesce'), ('retirement of nodes', 'MassTree/masstree_remove.hh, masstree_struct.hh deallocate_rcu')])
prop('M04', 'MassTreeWrapper: linearizable upsert and search, values outlive readers',
  'Every concurrent history of upsert and search through the MassTreeWrapper front end is linearizable per key; upsert says truthfully whether the key existed. Threads may register concurrently; a value replaced by upsert stays readable until every read section that could have found it has ended, and is released at most once.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of up to 4 threads, including their registration, with the epoch advancing at any moment, and stalls', WHY,
  ['MassTree/MassTreeWrapper.h', 'MassTree/kvthread.cc', 'MassTree/kvthread.hh'], [('front end', 'MassTree/MassTreeWrapper.h upsert / search / thread_init'), ('registration and epochs', 'MassTree/kvthread.cc threadinfo::make / min_active_epoch')])
SW = 'The repository does not build the server, so no test runs it at all; what is claimed is about every interleaving of connections, every way the bytes arrive, and every moment at which the process or the machine dies.'
SF = ['MassTree/mtd.cc', 'MassTree/log.cc', 'MassTree/kvrow.hh', 'MassTree/value_bag.hh']
prop('S01', 'MassTree server: replies are linearizable, rows are written whole',
  'Every concurrent history of get, put, replace, remove and scan requests to the server, over TCP (pipelined or not) and UDP, is linearizable per row; a put of several columns is seen whole or not at all, and a column keeps its value until it is written again. A connection gets one reply per request, in the order of the requests and of the right kind, however requests and replies are cut into pieces on the way and whoever else disconnects. A lost datagram loses no more than its own request or reply.',
  ['schedules', 'histories', 'inputs', 'fault_sequences'], 'all interleavings of up to 4 clients with 1 or 2 server threads, with and without logging, rows up to 46 KB (row offsets have 16 bits), fragmentation of every read and write after the greeting, disconnections, datagram loss', SW,
  SF + ['MassTree/kvio.cc', 'MassTree/msgpack.hh', 'MassTree/json.hh'], [('request handling', 'MassTree/mtd.cc onego / tcp_threadfunc / udp_threadfunc'), ('row updates', 'MassTree/kvrow.hh query::run_put / run_replace / run_remove; value_bag.hh update')])
prop('S02', 'MassTree server: restart after a kill recovers a causal state',
  'When the server process dies at any moment, also while it recovers, a server started again on its logs comes up and holds only values that were written. If a write survives, then so does (unless overwritten or removed later) every write and remove that had completed before it began. What had completed several flush intervals (5 s, and longer by as much as a disk or thread was stalled) before the kill survives.',
  ['crash_points', 'schedules', 'histories'], 'kills at any step of up to 3 processes in a row, with up to 3 clients writing through 1 or 2 loggers, any flush latency up to 0.3 s', SW,
  SF, [('logging', 'MassTree/log.cc loginfo::record / loginfo::run'), ('recovery', 'MassTree/log.cc logreplay; mtd.cc recover')])
prop('S03', 'MassTree server: recovery after power loss and disk errors is causal',
  'When the machine loses power at any moment, so that a file keeps what was synced and any prefix of what was written after that, a server started again comes up and holds only values that were written, and if a write survives then so does (unless overwritten or removed later) everything that had completed before it began. What had completed several flush intervals (5 s, and longer by as much as a disk or thread was stalled) before survives. A full disk, a short write or a failed sync of a log or checkpoint stops the server instead of losing what it goes on to acknowledge as settled.',
  ['crash_points', 'fault_sequences', 'schedules', 'histories'], 'power failures at any step of up to 3 processes in a row with torn and lost unsynced writes and directory changes; disk-full, short-write and fsync errors', SW,
  SF + ['MassTree/file.cc'], [('flushing', 'MassTree/log.cc loginfo::run'), ('truncation and rewriting of logs', 'MassTree/log.cc replay_truncate / replay_copy')])
prop('S04', 'MassTree server: checkpoints lose and resurrect nothing',
  'With checkpoints taken at any moment next to the clients\' writes, a server killed or powered off at any moment, also while a checkpoint is written or committed, comes up again from checkpoint and logs with only values that were written; if a write survives, then so does (unless overwritten or removed later) everything that had completed before it began. What had completed several flush intervals (5 s, and longer by as much as a disk or thread was stalled) before survives, and what had been removed stays removed.',
  ['crash_points', 'schedules', 'histories', 'fault_sequences'], 'checkpoints every 0.2 to 2 s, by up to 2 threads, next to up to 3 clients; kills and power failures at any step of up to 3 processes in a row', SW,
  SF + ['MassTree/checkpoint.cc', 'MassTree/checkpoint.hh', 'MassTree/file.cc', 'MassTree/query_masstree.cc'], [('checkpoint', 'MassTree/mtd.cc conc_checkpointer / commit_checkpoint; checkpoint.cc'), ('recovery', 'MassTree/mtd.cc recover / read_checkpoint; log.cc logreplay')])
