prop('L01', 'Every lock taken by an operation is released on every way out',
     'Whatever way an API call ends, successfully or with an error at any point, it leaves no lock held behind, '
     'except the one partition an open cursor stands on, which is released when the cursor moves on, ends or is '
     'freed. A batch that fails half-way releases every partition it had locked, each exactly once. No lock is '
     'released that is not held.',
     ['schedules', 'fault_sequences'],
     'all paths of all API calls, SQL commands and the background worker, through normal returns and through '
     'errors raised at any call that may raise one',
     'Tests inject errors at a dozen points; a lock leaked on any other error path shows up only as a later hang.',
     ['monotone/engine/engine/write.c', 'monotone/engine/engine/engine.c', 'monotone/engine/engine/op.c',
      'monotone/engine/engine/refresh.c', 'monotone/engine/engine/engine_cursor.h', 'monotone/main/main/execute.c',
      'monotone/engine/wal/wal.c'],
     [('scope guards run on normal and exceptional exit', 'monotone/runtime/runtime/guard.h'),
      ('rollback and commit release the partitions of a batch', 'monotone/engine/engine/write.c')],
     'interprocedural lock typestate over the IR, with the exception and guard machinery modelled',
     'Decides, for every path of the control-flow graph of every entry point (per SQL command), that the bag of '
     'held locks at each exit equals the one at entry. Trusts the model of setjmp/guard unwinding and that '
     'restoring a replaced event during rollback allocates nothing; allocation failure is not modelled.')

prop('L02', 'Locks are always acquired in one global order',
     'No set of concurrent API calls, SQL commands and background work can deadlock: locks are acquired in an '
     'order without cycles, and no operation waits for a lock it already holds exclusively.',
     ['schedules'],
     'all pairs of operations running concurrently on any interleaving',
     'A deadlock needs one particular interleaving; the tests run almost everything from one thread.',
     ['monotone/engine/engine/engine.c', 'monotone/engine/engine/op.c', 'monotone/engine/engine/refresh.c',
      'monotone/engine/engine/write.c', 'monotone/engine/engine/lockage.h', 'monotone/main/main/main.c'],
     [('control lock, then engine mutex, then partition locks, then leaf locks', 'monotone/engine/engine/engine.c'),
      ('partition locks wait on the engine mutex', 'monotone/engine/engine/lockage.h')],
     'lock-order graph from the lock typestate, checked for cycles and self-acquisition',
     'The order graph has an edge for every acquisition on any path while another lock class is held; partition '
     'locks of different partitions are one class. Calls made by one thread between two API calls (an open cursor '
     'kept while the same thread runs a command) are outside the graph.')

prop('L03', 'Shared state is only touched under the lock that protects it',
     'The map of partition ranges, the partition a range points to, its memory table and file state, the lists of '
     'storages and clouds, the background queue, the page and context caches and the log are read and changed only '
     'while the locks that protect them are held (or while no other thread can run). Partition files are created, '
     'renamed, deleted, uploaded and downloaded only while the partition is locked for service, storages, clouds '
     'and the pipeline are changed only while all other operations are excluded.',
     ['schedules'],
     'every access on every path of every operation, for any interleaving with the others',
     'The tests are almost all single threaded; a missing lock gives wrong results only under a rare interleaving.',
     ['monotone/engine/engine/engine.c', 'monotone/engine/engine/op.c', 'monotone/engine/engine/refresh.c',
      'monotone/engine/engine/write.c', 'monotone/engine/engine/service.h', 'monotone/main/main/execute.c',
      'monotone/runtime/lib/memory_mgr.h', 'monotone/runtime/lib/cache.h', 'monotone/engine/wal/wal.c'],
     [('engine mutex, partition service and access locks', 'monotone/engine/engine/engine.c'),
      ('exclusive control lock for DDL', 'monotone/main/main/execute.c')],
     'guarded-by analysis: lockset at every listed access, on every path from every entry point',
     'Decides the listed fields and operations (about 45) on all paths. Objects returned by an allocator are '
     'private until the function that allocated them returns; start and stop run before and after all threads.')

prop('D01', 'A write is all or nothing, and in the log before it is acknowledged',
     'A batch of events is applied as a whole or not at all: when anything fails (an oversized key, the memory '
     'limit, the log), every event already applied is undone, the last one first, so that each key has the version '
     'it had before the batch, and the error is reported. With the log enabled a batch is acknowledged and becomes '
     'visible to others only after one record with all of its events, in order, with the next lsn and a checksum '
     'over all of it is appended (and synced with wal_sync_on_write). A record whose write failed is cut off the '
     'log and its lsn is used again; the lsn advances only after a successful write.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every batch, every point at which a write can fail, with every setting of the log options',
     'Tests inject one log error and one sync error into batches of one or two events.',
     ['monotone/engine/engine/write.c', 'monotone/engine/wal/wal.c', 'monotone/engine/wal/log.h',
      'monotone/engine/wal/wal_file.h'],
     [('apply, log, then commit or roll back', 'monotone/engine/engine/write.c'),
      ('record with lsn and crc, cut off on failure', 'monotone/engine/wal/wal.c')],
     'reaching conditions of effects over the IR (BDD dataflow), compared with the specified conditions',
     'Decides under which condition, in which order, with which arguments and over which loop range each effect '
     'happens (restore, remove, follow, append, sync, cut, advance the lsn), with helpers composed in place and '
     'exceptions modelled. What memtable_set and memtable_unset do is R01; the log replay is D02.')

prop('D02', 'Recovery replays exactly what was logged',
     'After a restart with the log enabled every log file is found, the files are read from the oldest to the newest, '
     'and every complete record of each is replayed in order: each of its '
     'events is applied to its partition unless the file of that partition already has it (its lsn is not below '
     'the one of the record), a logged drop removes the partition unless it was created again later, and nothing '
     'is logged again. The lsn continues after the last record, and new records are written behind the old ones. A record that is cut short ends the replay of its '
     'file and is removed from the end of the log, a record of impossible size, with a wrong checksum or of an '
     'unknown type is an error. A record that fails to replay is undone as a whole.',
     ['crash_points', 'histories'],
     'every content of the log files, every state of the partition files at restart',
     'Tests restart cleanly; a torn or corrupted tail, or a partition refreshed between two records of the log, needs '
     'a crash at one particular point.',
     ['monotone/engine/engine/write.c', 'monotone/engine/engine/op.c', 'monotone/main/main/main.c',
      'monotone/engine/wal/wal_file.h', 'monotone/engine/wal/wal_cursor.c', 'monotone/engine/wal/log_write.h'],
     [('replay of records by type', 'monotone/main/main/main.c'),
      ('records newer than the partition file are applied', 'monotone/engine/engine/write.c'),
      ('size and checksum of a record', 'monotone/engine/wal/wal_file.h')],
     'reaching conditions of effects over the IR (BDD dataflow), compared with the specified conditions',
     'Decides conditions, arguments, order and loop ranges of the replay of writes and drops, the reading of a '
     'record, the walk over its events and over the log files, and the cut of the tail. Values computed by crc32 '
     'are not interpreted; that the log files are kept long enough is D03.')

prop('D03', 'Log files are removed only when no event needs them',
     'A log file is removed only if every record in it is older than every event that exists only in memory, in '
     'either memory table of every partition, including events whose record is being written and events of a '
     'memory table whose merge into a file is not complete. Files are named after the first lsn written to them, '
     'removed from the oldest on, and the current one is never removed.',
     ['crash_points', 'schedules', 'histories'],
     'every set of partitions and memory tables, every interleaving of writes, refresh and log collection',
     'Needs a crash after collection while a refresh is running or a write is between memory and log; tests restart '
     'after everything settled.',
     ['monotone/engine/engine/op.c', 'monotone/engine/wal/wal.c', 'monotone/engine/wal/wal_id.h',
      'monotone/engine/io/memtable.c', 'monotone/engine/engine/refresh.c', 'monotone/engine/engine/write.c'],
     [('lowest lsn over all partitions', 'monotone/engine/engine/op.c'),
      ('files below the limit', 'monotone/engine/wal/wal_id.h'),
      ('lsn range of a memory table', 'monotone/engine/io/memtable.c')],
     'reaching conditions and loop ranges over the IR (BDD dataflow with order facts), compared with the specified ones',
     'Decides that the limit is the minimum over both tables of all partitions, which ids the collection takes and '
     'removes, where the lsn range of a table is lowered, kept, moved and released relative to logging and file '
     'completion. The filesystem is not modelled.')

prop('D04', 'A refresh replaces a partition file without losing events',
     'A refresh merges all events of the partition file and of the rotated memory table, events in memory replacing '
     'those in the file and deletes removing them, into a new file marked incomplete, synced as configured; it is '
     'renamed to complete, then the old file is removed, then the new one gets its final name. Readers switch to '
     'the new partition only after its file is written, with the events written meanwhile. The file records the '
     'highest lsn of its events. Left-overs of a failed attempt are removed first, and a failed refresh is reported '
     'and can be repeated. Partitions on the cloud are not refreshed.',
     ['crash_points', 'histories', 'schedules'],
     'every crash or error point during a refresh, every memory table and partition file',
     'Tests inject three errors in one order of steps; most crash points, moves between storages and failed attempts '
     'followed by another are not reached.',
     ['monotone/engine/engine/refresh.c', 'monotone/engine/io/merger.c', 'monotone/engine/io/writer.c'],
     [('order of rename and remove', 'monotone/engine/engine/refresh.c'),
      ('merge of memory and file', 'monotone/engine/io/merger.c'),
      ('write and sync of the file', 'monotone/engine/io/writer.c')],
     'reaching conditions and order of effects over the IR (BDD dataflow with exceptions), compared with the specified ones',
     'Decides order, arguments and conditions of every step with helpers composed in place, including the error '
     'path. The order in which the merge iterator returns events is R03.')

prop('D05', 'A restart brings partition files back to one consistent state',
     'At restart the file names found decide what happens, for every combination that a crash or a failure of '
     'refresh, move, upload or download can leave: incomplete files are removed, whatever else is there, a complete file '
     'is removed while the old one exists and otherwise becomes the partition file, partitions with a file are kept and those without are '
     'forgotten; any other combination is reported as an error. Every remaining partition is opened from its local '
     'file if it has one and from the cloud otherwise, becomes visible, and the lsn continues above it. A state is '
     'read from the same file name it is written under.',
     ['crash_points'],
     'every combination of file states of a partition over all storages',
     'Tests produce three of the states with error injection; the rest need a crash during an upload, download or move.',
     ['monotone/engine/engine/engine_recover.c', 'monotone/cloud/cloud/id.h'],
     [('decision per state', 'monotone/engine/engine/engine_recover.c'),
      ('names of the states', 'monotone/cloud/cloud/id.h')],
     'decision table: reaching conditions per enumerated state over the IR, compared with the specified table',
     'Each of the 31 combinations of files is substituted into the conditions and values of one pass after the other, '
     'and what is removed, kept, forgotten or refused is compared with the table. Directory listing and file system calls are not modelled.')

prop('D06', 'Configuration and DDL survive a restart unchanged',
     'Every statement that creates, drops, alters or renames a cloud or storage, alters the pipeline, or sets an option '
     'that is kept, leaves the configuration file holding the new settings once it has succeeded, and a start reads '
     'the same values back: every setting of every object is written under the name, of the kind and from the field '
     'under which it is read; every object is written and read, in the same order, and as many as were counted. The '
     'file is written beside the old one and then renamed over it, so that a crash leaves one of the two. Clouds are '
     'read before the storages, and storages before the pipeline.',
     ['inputs', 'histories', 'crash_points'],
     'every setting, every statement and every set of objects',
     'Tests restart after a few statements and look at a few of the settings; a setting that is lost or swapped shows '
     'only when it has an unusual value.',
     ['monotone/cloud/cloud/source.h', 'monotone/cloud/cloud/cloud_config.h', 'monotone/engine/storage/tier_config.h',
      'monotone/runtime/lib/decode.h', 'monotone/runtime/config/config.c', 'monotone/runtime/config/var.h',
      'monotone/cloud/cloud/cloud_mgr.c', 'monotone/engine/storage/storage_mgr.c', 'monotone/engine/storage/pipeline.c',
      'monotone/main/main/execute.c'],
     [('names, kinds and fields', 'monotone/cloud/cloud/source.h'),
      ('configuration file', 'monotone/runtime/config/config.c'),
      ('statements', 'monotone/main/main/execute.c')],
     'writer-reader table agreement and must-follow analysis over the IR (BDD reaching conditions)',
     'The tables of keys, kinds and fields are taken from the writers and the readers and compared; every function that '
     'changes an object is followed by the save of its list, every statement that reaches one by the save of the file; '
     'setters are called from those functions only. The JSON text between them is not parsed here, and parsing of '
     'the statements is not part of this property.')

prop('R01', 'The memory table keeps the last event of every key, in key order',
     'A memory table holds at most one event per id and key, the one set last, and holds all of them in the order of '
     'id and key, whatever the order in which they were set, replaced and removed, through any number of page splits. '
     'Setting an event returns the one it replaces; removing one leaves the others; a search for a key finds its '
     'event or the first one above it; a walk from there visits every later event once. Ids are compared as unsigned '
     '64-bit numbers, keys with the same id byte by byte, a shorter key before a longer one which it begins.',
     ['inputs', 'histories'],
     'every sequence of set, unset, seek and walk, for every page fill',
     'Tests set a few thousand events in a handful of orders; an off-by-one at a split or at the last slot of a page '
     'needs one particular sequence.',
     ['monotone/engine/io/memtable.c', 'monotone/engine/io/memtable_iterator.h', 'monotone/engine/io/comparator.h',
      'monotone/engine/io/event.h', 'monotone/engine/io/part.c'],
     [('binary search, split and insertion in pages', 'monotone/engine/io/memtable.c'),
      ('order of events', 'monotone/engine/io/comparator.h')],
     'loop-variable and reaching-condition analysis over the IR (BDD dataflow), compared with the specified ones',
     'Decides the comparison, the page search, the binary search (probe, bounds and their moves), the copied ranges '
     'of split, insertion and removal, the counters and the walk. The page tree itself is R06.')

prop('R02', 'A read of a partition file finds every event at or after a key',
     'The index of a file has one entry per region with its first and last event, regions and the events in them are '
     'in key order, and all events of one id are in one region. A search by key starts with the first event at or '
     'above it, in the region which holds it or in a later one, and the walk goes through the events of a region and '
     'then through the next regions to the end of the file, without leaving out or repeating one.',
     ['inputs'],
     'every file content, every key, present or not, between regions and at the ends',
     'Tests read files of a few regions; a wrong bound shows only for a key that falls on a particular boundary.',
     ['monotone/engine/io/index_iterator.h', 'monotone/engine/io/region_iterator.h', 'monotone/engine/io/part_iterator.h',
      'monotone/engine/io/region.h', 'monotone/engine/io/index.h', 'monotone/engine/io/writer.c',
      'monotone/engine/io/region_writer.h'],
     [('search for the region', 'monotone/engine/io/index_iterator.h'),
      ('search in the region', 'monotone/engine/io/region_iterator.h'),
      ('regions are closed between ids', 'monotone/engine/io/writer.c')],
     'loop-variable and reaching-condition analysis over the IR (BDD dataflow), compared with the specified ones',
     'Decides both binary searches, the iterators, the layout of a region on both sides and where a region ends when '
     'a file is written. That the bytes read are the bytes written is the I properties.')

prop('R03', 'A cursor returns every event once, in order, the newest of each key',
     'A cursor starts with the first event at or above its key and returns the events of all partitions in ascending '
     'order, merging the memory tables and the file of a partition: of events with the same id and key only the one '
     'written last is returned, and none if that is a delete. It continues with the next partition after the last '
     'event of one, up to the last possible id, holding one partition at a time. Flags, id, key and value are returned '
     'as written.',
     ['inputs', 'histories', 'schedules'],
     'every distribution of the versions of a key over memory and file, every set of partitions, gaps included',
     'Tests read data that is in one place or two; a key with versions in both memory tables and the file, or '
     'partitions without a match, are combinations no test lists.',
     ['monotone/engine/io/merge_iterator.h', 'monotone/engine/io/part_cursor.h', 'monotone/engine/engine/engine_cursor.h',
      'monotone/main/api/monotone.c', 'monotone/engine/io/part.h'],
     [('merge of the sources, newest first', 'monotone/engine/io/merge_iterator.h'),
      ('sources of a partition', 'monotone/engine/io/part_cursor.h'),
      ('from partition to partition', 'monotone/engine/engine/engine_cursor.h')],
     'loop-variable and reaching-condition analysis over the IR (BDD dataflow), compared with the specified ones',
     'Decides which source advances, which event is taken, the order of the sources, the step to the next partition '
     'and the conditions under which events are skipped and reported.')

prop('R04', 'An open cursor keeps its place while its partition is written to',
     'When events are inserted before, at or behind the position of an open cursor, when the page it stands on is '
     'split, and when an event is replaced or removed, the cursor stands on the same event as before (or on the one '
     'which replaced it) and goes on from there. Every open cursor of a memory table is told about every change, and '
     'one that is closed is not told any more.',
     ['histories'],
     'every position of a cursor relative to every change of the page it stands on',
     'Tests write through an open cursor in two or three positions.',
     ['monotone/engine/io/memtable_iterator.h', 'monotone/engine/io/memtable.c', 'monotone/engine/io/part_cursor.h'],
     [('cursor position after insert, split and removal', 'monotone/engine/io/memtable_iterator.h'),
      ('all attached cursors are told', 'monotone/engine/io/memtable.c')],
     'case analysis of the position update over the IR (BDD dataflow), compared with the specified cases',
     'Decides the new page, position and event for all cases of page, split and position, the walk over the attached '
     'cursors, and where cursors are attached and detached. The calls made by set and unset are also part of R01.')

prop('R05', 'Every id belongs to at most one partition, and is always found in it',
     'The ranges of partitions never overlap. An id is looked up in the partition whose range holds it, if there is '
     'one; a read which asks for the next partition gets the first that ends at or behind the id. Writing an id '
     'without a partition creates one for the interval of the id, CREATE PARTITION creates them for its range, in '
     'both cases only in the gaps between the existing ones, with no id of the range left out, up to the last '
     'possible id. After a restart every partition has the range recorded in its file.',
     ['inputs', 'histories'],
     'every set of existing ranges, every requested range and id, including 0 and the largest',
     'Tests use a few aligned ranges; touching, nested or partly covered ranges and the largest ids are not reached.',
     ['monotone/engine/io/mapping.h', 'monotone/engine/engine/engine.c', 'monotone/engine/engine/op.c',
      'monotone/engine/engine/engine_recover.c', 'monotone/engine/engine/ref.h'],
     [('lookup of ranges', 'monotone/engine/io/mapping.h'),
      ('partitions fill the gaps', 'monotone/engine/engine/op.c'),
      ('lookup and creation', 'monotone/engine/engine/engine.c')],
     'loop-variable and reaching-condition analysis over the IR (BDD dataflow), compared with the specified ones',
     'Decides the range test, the search and its correction, the gap walk (begin and end of each gap, the step behind '
     'a partition, termination), the created range and its registration. The tree is R06.')

prop('R06', 'The ordered trees keep their nodes linked and in order',
     'The trees that hold the partitions and the pages of a memory table stay ordered: an inserted node is linked on '
     'the side the search ended on, removing a node puts its only child or the next node in its place, rotations '
     'keep the order, every child knows its parent, and first, last, next and previous follow the order.',
     ['histories'],
     'every sequence of insertions and removals',
     'A wrong link shows only for trees of a particular shape.',
     ['monotone/runtime/lib/rbtree.c'],
     [('links of insertion, removal and rotation', 'monotone/runtime/lib/rbtree.c')],
     'link analysis: every pointer store, its condition and value over the IR, compared with the specified ones',
     'Decides every store to a link outside loops and that loops (the repair of the balance) change links only '
     'through the rotations. Colours, that is the depth of the tree, are not decided.')

prop('I01', 'Damaged data is refused, never returned as events',
     'A partition file is used only if its last bytes are an index with the right mark, a version this program knows '
     'and a checksum that matches, and if the size of the file agrees with it. The index data and every region that '
     'was written with a checksum are read in full, and compared with their checksum before they are decrypted, decompressed and used; the checksum covers every byte; the result must have the recorded size, and a region the recorded number of events. '
     'Otherwise, and when decryption or decompression fails, the operation ends with an error.',
     ['inputs', 'faults'],
     'every content of a partition file, and every file size',
     'Tests damage a few bytes at most; a flipped bit anywhere, a cut or extended file cannot be enumerated.',
     ['monotone/engine/io/index_op.c', 'monotone/engine/io/reader.h', 'monotone/runtime/lib/encryption_aes.c',
      'monotone/runtime/lib/compression_zstd.c', 'monotone/runtime/lib/compression_lz4.c'],
     [('index and index data', 'monotone/engine/io/index_op.c'), ('regions', 'monotone/engine/io/reader.h'),
      ('decoders', 'monotone/runtime/lib/encryption_aes.c')],
     'reaching conditions of the normal return over the IR (BDD dataflow), compared with the specified checks',
     'Decides that the functions return normally only if each comparison was made and held, over the right bytes, and '
     'that every failing call of a decoder leads to an error. How often CRC or AES-GCM miss a damage is not decided.')

prop('I02', 'A partition file describes exactly what was written into it',
     'Every event given to the writer of a partition file is in exactly one region, at the offset the region names. '
     'Regions are written one after the other, each recorded in the index with its place, its size as written and '
     'decoded, its number of events and the checksum of the bytes written; then the index data and the index itself, '
     'with sizes, checksums, encoding, times and lsn, follow. What is written is the encrypted, else the compressed, '
     'else the original data, as the storage says, with nothing left over from another region, and the file is synced '
     'if that is configured.',
     ['inputs', 'configurations'],
     'every sequence of events, region size and combination of compression, encryption and checksums',
     'Tests write small partitions with a few of the combinations; a file with many regions under each of them is not '
     'sampled, and a wrong total or checksum shows only when the file is opened again.',
     ['monotone/engine/io/region_writer.h', 'monotone/engine/io/index_writer.h', 'monotone/engine/io/writer.c'],
     [('a region', 'monotone/engine/io/region_writer.h'), ('the index', 'monotone/engine/io/index_writer.h'),
      ('the file', 'monotone/engine/io/writer.c')],
     'stored values and reaching conditions per encoding over the IR (BDD dataflow), compared with the specified ones',
     'Decides, for each combination of compression and encryption, which buffers are encoded, measured, summed and '
     'written, every field of the index, and the order of the steps. The same events are read back by R02 and I01.')

prop('I03', 'What was compressed or encrypted can be restored',
     'Encryption and compression process every byte they are given, in order and exactly once, into a buffer with '
     'room for the worst case, and complete the stream. Encrypted data starts with a fresh random iv and the '
     'authentication tag of all of it, under the 256 bit key of the storage; a shorter or longer key is refused. A '
     'failing call of a library is an error, never taken for a result. A context is used and returned only for the '
     'algorithm it was made for.',
     ['inputs', 'fault_sequences'],
     'every number, size and content of buffers, and every failing library call',
     'Tests compress small, well compressible buffers; incompressible data, library failures and the reuse of pooled '
     'contexts between algorithms are not sampled.',
     ['monotone/runtime/lib/encryption_aes.c', 'monotone/runtime/lib/compression_zstd.c',
      'monotone/runtime/lib/compression_lz4.c', 'monotone/runtime/lib/compression_mgr.c',
      'monotone/runtime/lib/encryption_mgr.c'],
     [('encryption', 'monotone/runtime/lib/encryption_aes.c'), ('compression', 'monotone/runtime/lib/compression_zstd.c'),
      ('pools of contexts', 'monotone/runtime/lib/compression_mgr.c')],
     'loop ranges, buffer offsets and reaching conditions over the IR (BDD dataflow), compared with the specified ones',
     'Decides what is passed to the libraries, where their output goes and which results are accepted. That zstd, lz4 '
     'and AES-GCM restore what they were given is assumed.')

prop('I04', 'Keys and passwords are never shown',
     'The encryption key of a storage and the password of a cloud leave the server only in the saved configuration '
     'file, which only its owner can read. No SHOW command, log message or error message contains them: where '
     'storages and clouds are shown they are left out or masked, and the settings in which they are saved are '
     'secret, and so refused by SHOW. An encrypted storage created without a key gets a random one of 256 bits.',
     ['inputs', 'configurations'],
     'every command, every setting and every message',
     'Tests look at the output of a few SHOW commands; they cannot show that no other output has a secret in it.',
     ['monotone/cloud/cloud/source.h', 'monotone/cloud/cloud/cloud_config.h', 'monotone/runtime/config/config.c',
      'monotone/main/main/execute.c', 'monotone/main/command/parse_storage.c', 'monotone/runtime/lib/random.c'],
     [('what is left out', 'monotone/cloud/cloud/source.h'), ('secret settings', 'monotone/runtime/config/config.c'),
      ('generated keys', 'monotone/main/command/parse_storage.c')],
     'taint analysis from the fields which hold secrets to every function which copies its arguments, over the IR',
     'Decides which functions copy a secret, and that each of their callers either asks for it to be left out or saves '
     'the result in a secret setting. The saved configuration itself is followed by the setting, not by its bytes.')

prop('I05', 'A failed or partial system call is never taken for success',
     'Reads and writes go on after a partial transfer, at the right place, until every byte was transferred, and report '
     'failure otherwise. Every failure to open, measure, read, write, sync, truncate, rename, remove or lock a file, to '
     'create a directory or a thread, to allocate memory, or to make a request to a cloud becomes an error of the '
     'operation. The recorded size of a file changes only by what was written, truncated or measured.',
     ['fault_sequences'],
     'every result of every system call, at every place where one is made',
     'Tests run on a healthy file system; short writes, full disks, failed syncs and failed threads do not occur.',
     ['monotone/runtime/runtime/vfs.c', 'monotone/runtime/runtime/file.h', 'monotone/runtime/runtime/fs.h',
      'monotone/runtime/runtime/allocator.h', 'monotone/cloud/s3/s3_op.c', 'monotone/cloud/s3/s3_request.c'],
     [('transfers', 'monotone/runtime/runtime/vfs.c'), ('files', 'monotone/runtime/runtime/file.h'),
      ('paths', 'monotone/runtime/runtime/fs.h')],
     'checked-result analysis: every caller of a failing function, transitively, over the IR with reaching conditions',
     'Decides at every call that the failing result cannot reach a normal return, unless as a failure result, whose '
     'callers are then checked likewise. Not required: closing, unlocking, log output and the seed from the system. '
     'How the file system behaves is not decided.')

prop('A01', 'A statement does what it says to what it names',
     'Every word of a statement has its meaning: a number is all of its digits, multiplied by its unit if it has one, '
     'names are compared and copied with all of their letters, an option sets the setting it names and no other, and conditions like IF EXISTS are taken as written. A statement is executed by '
     'the operation it names with the names, numbers, conditions and options which were written. The operation '
     'changes the object which has exactly that name, sets exactly the options which were given, and leaves every other object as it is. A statement about a range of ids is applied to every partition which lies inside the range, and to no other. What does not exist (or exists already) is an error unless the condition allows it, as '
     'are trailing words, half conditions and options which cannot be changed.',
     ['inputs', 'configurations'],
     'every statement, option, unit and condition of the language for clouds, storages, partitions and the pipeline',
     'Tests use a few of the options and units, mostly with their default values; swapped or narrowed options, wrong '
     'units and options taken for others are not noticed by them.',
     ['monotone/main/command/lex.c', 'monotone/main/command/parse.c', 'monotone/main/command/parse_misc.h',
      'monotone/main/command/parse_cloud.c', 'monotone/main/command/parse_storage.c',
      'monotone/main/command/parse_partition.c', 'monotone/main/command/parse_pipeline.c',
      'monotone/main/main/execute.c', 'monotone/cloud/cloud/cloud_mgr.c', 'monotone/engine/storage/storage_mgr.c',
      'monotone/cloud/cloud/source.h', 'monotone/cloud/cloud/cloud_config.h'],
     [('words and units', 'monotone/main/command/lex.c'), ('options', 'monotone/main/command/parse_storage.c'),
      ('execution', 'monotone/main/main/execute.c'), ('operations', 'monotone/engine/storage/storage_mgr.c'), ('ranges', 'monotone/engine/engine/op.c')],
     'tables of words, options and executors composed from stored values and reaching conditions over the IR (BDD dataflow)',
     'Decides the composition word - statement - operation - object for each of them against a written table of the '
     'language; digits, comparison and copying of names and the walk over a range of ids are decided loop by loop. Escapes in '
     'strings are not decided, nor are the operations of the engine on a single partition beyond the arguments they get.')

prop('A02', 'What is in use is kept, and what is named exists',
     'A cloud used by a storage, a storage used by the pipeline or which has partitions, and the main storage cannot be '
     'dropped. Renaming a cloud or a storage renames it in every storage or tier which uses it. Every cloud a storage '
     'names and every storage a tier names exists, and is referenced and counted exactly once; a statement which would '
     'name one that is missing, or set a cloud up in a way it cannot be created, fails before anything is changed. A '
     'new pipeline replaces the old one completely or not at all. What its files depend on (path, checksums, encryption) '
     'changes only while a storage is empty, and its cloud only while none of its partitions is there; its partitions '
     'then use the new one.',
     ['inputs', 'histories', 'fault_sequences'],
     'every statement on clouds, storages and the pipeline in every state of the catalog',
     'Tests drop and rename objects with at most one user; several users, failing statements and the state after the '
     'next start are not sampled.',
     ['monotone/main/main/execute.c', 'monotone/cloud/cloud/cloud_mgr.c', 'monotone/engine/storage/storage_mgr.c',
      'monotone/engine/storage/pipeline.c', 'monotone/engine/storage/storage.h', 'monotone/engine/storage/tier.h'],
     [('drops and changes', 'monotone/engine/storage/storage_mgr.c'), ('the pipeline', 'monotone/engine/storage/pipeline.c'),
      ('references', 'monotone/engine/storage/tier.h'), ('renames', 'monotone/main/main/execute.c')],
     'reference-count pairing, list walks and reaching conditions over the IR (BDD dataflow)',
     'Decides every place which changes a reference, a counter, a name or the list of objects. That two storages have '
     'different uuids, and that a cloud can be reached, is not decided.')

prop('C01', 'The last copy of a partition is never lost on its way to or from the cloud',
     'A partition counts as uploaded only after its whole file is in the cloud and a complete copy of its index is '
     'kept locally, and as local only after the whole file is downloaded and checked. Refresh, the background and the '
     'automatic removal of uploaded files remove one copy only while the other one exists, whatever else runs at the '
     'same time: a refresh first brings the file down, then removes the cloud copy, and uploads the new file at the '
     'end; a local file is removed automatically only if it is uploaded and its storage has cloud_drop_local. A drop '
     'removes exactly the copies it names; the partition itself goes (logged first) only when both copies are dropped '
     'and no file is left, and a partition without files counts nothing in its storage. A transfer that fails is '
     'reported and changes nothing about what the partition is known to have.',
     ['schedules', 'fault_sequences', 'crash_points'],
     'all paths of upload, download, refresh, drop and the background actions, for any concurrent operation on the '
     'same partition',
     'The tests move partitions to a mock cloud one at a time; losing both copies needs a second operation between '
     'two steps.',
     ['monotone/engine/engine/op.c', 'monotone/engine/io/part.c', 'monotone/engine/io/part.h', 'monotone/engine/storage/storage.h'],
     [('the state bits ID and ID_CLOUD say which copies exist', 'monotone/engine/io/part.h'),
      ('refresh brings the file down and offloads it', 'monotone/engine/engine/op.c')],
     'guarded effect analysis of the removal, transfer and state changes over the IR',
     'Decides the conditions, order and operands of every removal and state change on all paths. That the state bits '
     'are read under the partition lock is L03; that a file is complete when it is renamed is C02 and D04.')

prop('C02', 'What is sent to a cloud and fetched from it is complete, and is the right object',
     'A download creates a file under a name that does not count (after removing what a failed one left), receives '
     'the whole object into it, syncs it if the storage wants that, and only then gives it its final name; any error '
     'on the way is reported and leaves no file that counts. An upload sends the whole partition file. A read of a '
     'region asks for exactly its bytes, and a shorter answer is an error. Every request names the object by the uuid '
     'of the storage and the id of the partition, is signed over exactly what it asks for, and is an error unless the '
     'cloud says it succeeded.',
     ['inputs', 'fault_sequences'],
     'all paths of the operations of both cloud types, for every partition, size and failing transfer',
     'There is no S3 server in the tests: everything about the requests is untested, and the mock cloud never fails '
     'half-way.',
     ['monotone/cloud/s3/s3.c', 'monotone/cloud/s3/s3_op.c', 'monotone/cloud/s3/s3_request.c', 'monotone/cloud/cloud/mock.c',
      'monotone/cloud/cloud/cloud.h'],
     [('a file has its final name only when it is complete', 'monotone/cloud/s3/s3.c'),
      ('string to sign and url name the same object', 'monotone/cloud/s3/s3_request.c')],
     'effect and operand analysis of the transfer operations, the formatted texts and (bit-provenance dataflow) the signature',
     'Decides order, operands and conditions of all file and request effects and the formatted texts, and '
     'which bit of the digest every character of the signature encodes. Curl and the HMAC are trusted.')

prop('S01', 'Background work is scheduled, done in order by an allowed worker, and ends',
     'Every piece of background work that becomes necessary is scheduled: a partition whose memory table outgrows its '
     'storage is merged, at a checkpoint every partition with events in memory, after a restart every partition which '
     'is not in its cloud yet is uploaded, a full log file is followed by a new one. A scheduled request is taken by '
     'exactly one worker that may do its next step, no request that such a worker could take is overlooked, its steps '
     'are done in order and each exactly once, and a step for another kind of worker is left to it. Rebalance moves the '
     'oldest partition of a tier which is over one of its limits (partitions, size, events, duration) to the storage '
     'of the next tier, and only from the last tier drops it; other partitions stay. All workers are told to end at '
     'shutdown, woken, and waited for before anything is closed.',
     ['schedules', 'inputs'],
     'all paths of the queue, the workers, the pipeline and everything that schedules work, for any number of workers, '
     'requests, tiers and partitions',
     'Tests run the background work by hand, one request at a time, with one kind of worker.',
     ['monotone/engine/engine/service.h', 'monotone/engine/engine/service_req.h', 'monotone/engine/engine/op.c',
      'monotone/engine/engine/worker.c', 'monotone/engine/engine/worker_mgr.c', 'monotone/engine/engine/write.c',
      'monotone/engine/storage/storage.h', 'monotone/main/main/main.c'],
     [('one queue, workers filter by the current action', 'monotone/engine/engine/service.h'),
      ('tiers and their limits', 'monotone/engine/engine/op.c')],
     'reaching conditions and effects over the IR (BDD dataflow), induction analysis of the walks',
     'Decides the conditions and operands of every scheduling, queue and rebalance effect. That a scheduled request is '
     'eventually run needs a fair scheduler; after an error the remaining steps of a request are left out, as the '
     'code intends.')

prop('E01', 'Every failure becomes an error, and every error reaches the caller',
     'Every call of the operating system, of the compression and encryption libraries and of curl whose failure would '
     'leave something undone has its result checked, and a failure becomes an error (the few which do not matter are '
     'listed). Every error unwinds through the cleanups of the functions it leaves to the nearest handler, cleanups '
     'raise none themselves, no handler is left behind by a function that returned, and none is missing: an API '
     'function returns -1 (or NULL) after every error, and only after an error, and never lets one escape; a '
     'background worker ends or reports it. What a handler undoes is what was done: variables which change while an '
     'error may come are in memory when it does. The text of the error is kept and given to the caller.',
     ['fault_sequences', 'inputs'],
     'every call that can fail, failing at every visit on every path, through every handler of the engine and the API',
     'Tests reach the error paths through a handful of injected errors; a failing close, sync or cipher call, or an '
     'error that comes while another is handled, is never seen.',
     ['monotone/main/api/monotone.c', 'monotone/runtime/runtime/exception.h', 'monotone/runtime/runtime/error.h',
      'monotone/runtime/runtime/vfs.c', 'monotone/runtime/runtime/file.h', 'monotone/engine/wal/wal.c', 'monotone/engine/engine/service.h'],
     [('errors are thrown with longjmp to the innermost handler', 'monotone/runtime/runtime/exception.h'),
      ('-1 or NULL is the only sign of failure the caller has', 'monotone/main/api/monotone.c')],
     'interprocedural typestate over the IR with a failing result injected at every call that can fail; may-throw analysis',
     'Decides for every failing call and every throwing callee that an error leaves the API call. Calls whose failure '
     'is tolerated are listed by name. A second error while the first one is being handled is only excluded where the '
     'cleanups cannot throw.')

prop('E02', 'Formatted text prints what was passed and never reads past a buffer',
     'Every message, path, request and log line which is formatted gets as many values as its format has conversions, '
     'each of the size and kind the conversion reads and none cut down to a smaller one; nothing a user supplied (a name, a path) is ever taken for a '
     'format; a text which does not end with a zero is printed with its own size. Every buffer which text is formatted '
     'into is at least as large as the formatting is told, and the length of a text which was cut off is never used as '
     'if it were all there, so that an over-long message or value is cut off instead of leaking or overwriting memory.',
     ['inputs'],
     'every call which formats text, directly or through a function which takes a format, with values of any length',
     'Most formatted texts are error messages of paths no test takes, and none is longer than its buffer in a test.',
     ['monotone/runtime/runtime/buf.h', 'monotone/runtime/runtime/error.h', 'monotone/runtime/runtime/logger.c',
      'monotone/runtime/runtime/log.h', 'monotone/cloud/s3/s3_request.c', 'monotone/cloud/cloud/source.h', 'monotone/runtime/lib/json.c'],
     [('errors carry a formatted text', 'monotone/runtime/runtime/throw.h'),
      ('str_strndup() ends its copy with a zero', 'monotone/runtime/runtime/str.h')],
     'call-site check of formats against IR operand types; interval analysis of formatted lengths; capacity of buffers',
     'Decides all formatting calls. A path longer than PATH_MAX is cut off silently; that is not excluded.')

prop('L04', 'Partition locks have one owner, waiters are woken, memory is accounted for',
     'A partition lock of one kind belongs to one thread at a time; that thread may take it again and it becomes free '
     'only after as many releases. A thread waits only while another one has the lock, every release wakes all '
     'threads which wait, and each of them examines the lock again. With a memory limit a write which needs a page '
     'while none is free and the limit is reached fails or waits, as configured, and no page beyond the limit is '
     'made; waiting writes are woken whenever a page becomes free or memory is given back. Every memory page belongs '
     'to one memory table, the list of free pages or the system; tables never overlap in one, and all pages of a '
     'table come back when it is emptied, each once, so that the numbers of used and free pages are exact.',
     ['schedules', 'inputs', 'histories'],
     'every path of the lock, page and table allocation functions, for any number of threads and pages',
     'A lost wake-up or a lock freed too early needs two threads at the right moment; the tests run one thread.',
     ['monotone/engine/engine/lockage.h', 'monotone/runtime/lib/memory_mgr.h', 'monotone/runtime/lib/heap.h', 'monotone/runtime/runtime/cond_var.h'],
     [('one mutex and condition for all partition locks', 'monotone/engine/engine/lockage.h'),
      ('pages are counted under the lock of the memory manager', 'monotone/runtime/lib/memory_mgr.h')],
     'reaching conditions and effects over the IR (BDD dataflow), loop and dependence analysis of the waits',
     'Decides the conditions and operands of every change of the lock, the page list and the counts. Fairness between '
     'waiting threads is not claimed.')

prop('J01', 'Encoded values and JSON texts are read back as they were written',
     'Settings are kept as encoded values and as JSON text. For every value: the encoder reserves exactly the room it '
     'writes; the decoder of the type accepts the tag that was written, returns the number, length or content that was '
     'written and advances by the same number of bytes; data of another type is refused; skipping a value advances '
     'behind it, with every element of an array and every key and value of a map. Printing a value as JSON and parsing '
     'the text gives the same value again: strings with any quotes and backslashes, integers of either sign, booleans, '
     'null, and arrays and maps with all of their elements. A buffer keeps its content when it grows and always has the '
     'room that was asked for.',
     ['inputs'],
     'every integer, length and tag; every nesting; strings of any content. The digits of floating point numbers are not '
     'covered',
     'Tests encode a few values in the middle of the ranges; an error at the limit of a width, in a rarely used width or '
     'with two neighbouring backslashes is not in them.',
     ['monotone/runtime/lib/data.h', 'monotone/runtime/lib/encode.h', 'monotone/runtime/lib/json.c', 'monotone/runtime/runtime/buf.h'],
     [('tags and widths', 'monotone/runtime/lib/data.h'), ('JSON text', 'monotone/runtime/lib/json.c')],
     'interval dataflow and per-tag specialisation of conditions (BDD) over the IR, encoder and decoder tables compared',
     'The comparisons of an encoder cut the values into intervals on which its effects (tag, width, advance) are '
     'constant; each interval must fit the width and be inverse to the row of the decoder for its tag. Loops by '
     'induction on their header values. Floating point digits are not covered.')

prop('W01', 'An event is returned as it was written, under the id it was given',
     'The id, key, value and flags of an event are returned exactly as they were passed, whatever they contain and '
     'however long they are, up to the limit of a key and of a memory page; what does not fit is refused before '
     'anything is changed. A batch is written as a whole, in the order of its events. In serial mode an event which is '
     'passed without an id gets the next serial number, every number is given out once and in order, an event which has '
     'an id keeps it, and after a restart the numbers continue behind the largest id which is stored, in memory '
     'or in a file.',
     ['inputs', 'histories'],
     'every event, batch and cursor key; every set of partitions, with or without events, at a start',
     'Tests write short keys and values of one shape, and restart with events in the last partition only.',
     ['monotone/engine/io/event.h', 'monotone/main/api/monotone.c', 'monotone/engine/engine/write.c', 'monotone/engine/engine/engine.c',
      'monotone/runtime/config/global.h', 'monotone/runtime/lib/heap.h'],
     [('the layout of events', 'monotone/engine/io/event.h'), ('serial numbers', 'monotone/engine/engine/engine.c')],
     'layout comparison; linear forms of sizes and addresses, reaching conditions and loop induction over the IR',
     'Decides every byte range which is copied into an event and every place which gives out a number. Two threads which '
     'write at one time get different numbers because the counter is incremented atomically; an id given '
     'by the user in serial mode does not move the counter.')

prop('A03', 'A setting has the value it was set to, and SHOW tells what is there',
     'SET gives a setting exactly the value of the statement. An unknown or secret name, a value of another type, zero for '
     'the interval, a setting which cannot be set before the start or (other than wal_rotate_wm, interval, compression, '
     'compression_level and internal state) while running are refused with an error, and nothing changes. A change made '
     'while running is saved unless the setting is not kept in the configuration file. Every setting is defined once, in '
     'its own variable; by default the log is used and synced on rotation, numbering is on, and partitions span three '
     'million ids. On start the settings of memory and logging reach the part they are for; a directory used by another '
     'process is refused; clouds, storages and the log are recovered before work resumes. SHOW returns every object '
     'which was named, in order and as an array if there are several: all settings which are not hidden and as many as '
     'announced, or the setting, storage, cloud or partition which was named. The result of a statement is returned '
     'whole, ending with a zero byte.',
     ['inputs', 'histories'],
     'every SET, SHOW and start, for every setting and object',
     'Tests set and show a few settings; wrong types, states and combinations of objects are not sampled.',
     ['monotone/main/main/execute.c', 'monotone/main/main/main.c', 'monotone/main/command/parse_config.c', 'monotone/runtime/config/config.c',
      'monotone/runtime/config/var.h', 'monotone/engine/engine/engine_show.c'],
     [('SET and SHOW', 'monotone/main/main/execute.c'), ('settings', 'monotone/runtime/config/config.c'), ('variables', 'monotone/runtime/config/var.h'),
      ('words', 'monotone/main/command/parse_config.c'), ('start', 'monotone/main/main/main.c')],
     'decision tables of SET and SHOW compared with the conditions in the IR (BDD dataflow); table of settings read from the IR',
     'Decides who may set what and what reaches whom. What each part shows about itself (the contents of a row of SHOW PARTITIONS) is '
     'decided by no property, except that secrets are not shown (I04). Text settings are read without a lock while they are set; that is not decided.')
