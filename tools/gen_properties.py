#!/usr/bin/env python3
'''Writes /verif/properties.jsonl'''
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


BC = 'src/s3ql/block_cache.py'
FS = 'src/s3ql/fs.py'
DB = 'src/s3ql/database.py'
FSCK = 'src/s3ql/fsck.py'
MOUNT = 'src/s3ql/mount.py'
CE = 'src/s3ql/backends/comprenc.py'
BCOM = 'src/s3ql/backends/common.py'
HTTP = 'src/s3ql/http.py'

p('C01', 'Block cache reads and writes are linearizable under every interleaving',
  'Whatever concurrent mix of block reads, writes, truncations, removals, flushes and cache drops runs while blocks are uploaded, evicted and downloaded again, every read of a block returns exactly the content that some sequential order of the operations (consistent with their real-time order) produces. No interleaving deadlocks, fails an operation, or loses or mixes up block contents.',
  ['schedules', 'programs'], 'all task interleavings (bounded deviations) of small client programs on shared blocks',
  'Unit tests run one fixed schedule per scenario; eviction, upload and removal workers interleave at every await point.',
  [BC, 'src/s3ql/multi_lock.py', 'src/s3ql/_linked_dict.py'],
  [('per-block lock', BC), ('in-transit flag and in-flight upload events', BC), ('LRU eviction', BC)],
  [('cache', 'entries currently on disk', BC), ('in_flight_uploads', 'objects being uploaded', BC)],
  ['BlockCache.get/remove/flush/start_flush/drop/destroy'])

p('C02', 'Deduplication, reference counts and stored objects match exactly',
  'When the cache is quiescent and flushed, every block refers to one stored object whose content hashes to the recorded hash, identical contents share one object, reference counts equal the number of references, and the backend holds exactly the referenced objects. At no time is an object deleted while referenced, nor an existing object overwritten.',
  ['schedules', 'programs'], 'all interleavings of programs that write equal and different contents to several blocks, remove, re-create and flush them',
  'Tests compare refcounts after a handful of sequential histories; races between dedup, dereference and removal need schedules.',
  [BC], [('dedup by hash lookup', BC), ('_deref_obj and removal queue', BC)],
  [('objects', 'one row per stored object', DB), ('inode_blocks', 'block to object map', DB)],
  ['database rows and backend contents at quiescence; every backend write and delete'])

p('C03', 'A crash at any point loses no completed write once fsck has run',
  'If the process dies at any point of any schedule of writes, evictions, uploads, downloads and removals, then running the file system checker on the surviving metadata, cache directory and backend yields a consistent file system in which every block holds the content of its last completed write (or of an operation that was in progress). In particular no block whose write completed before the crash is lost or replaced by older or foreign content.',
  ['crash_points', 'schedules'], 'every scheduler step and every metadata statement of every explored schedule is a crash point',
  'No test kills the cache mid-upload and then runs the checker; the number of crash points times schedules is far beyond unit tests.',
  [BC, FSCK], [('cache files survive until upload is recorded', BC), ('check_cache, check_objects_*', FSCK)],
  [('phys_size = -1', 'object registered, upload not complete', DB), ('hash NULL', 'upload failed', DB)],
  ['state after Fsck.check() on each crash image'])

p('C04', 'A failed upload never loses data',
  'If any upload, download or delete request fails permanently, then every block is either still readable with its correct content from the cache, or is recovered by the checker after the resulting shutdown; a block is never marked clean or deduplicated against data that did not reach the backend.',
  ['fault_sequences', 'schedules'], 'each backend request of each explored schedule fails in turn, followed by shutdown and fsck',
  'Tests inject one failure at one place; the failure must be combined with concurrent dedup, eviction and removal.',
  [BC, FSCK], [('hash cleared on failed upload', BC), ('check_objects_hash', FSCK)], (), ['state after Fsck.check()'])

p('C05', 'File system namespace operations behave like POSIX and keep metadata consistent',
  'Every sequence of create, mkdir, symlink, mknod, link, rename (incl. replace and exchange refusal), unlink, rmdir, xattr and attribute operations returns the POSIX result or errno and leaves the tree that a reference model predicts, both in cache and after everything is flushed. After any sequence the metadata is consistent: link counts, name counts and reachability are exact, deleted-but-open inodes live until forgotten, and the checker finds nothing to repair.',
  ['histories', 'inputs'], 'all operation sequences up to a bounded depth over a small universe of names and inodes',
  'Tests run a few hand-written sequences; name/xattr reference counting errors need particular two- or three-step combinations.',
  [FS, 'src/s3ql/inode_cache.py'], [('_create, _remove, _rename, _replace, link, setxattr, removexattr', FS)],
  [('names.refcount', 'uses by directory entries and xattrs', DB), ('open_inodes', 'kernel lookup counts', FS)],
  ['return values, errno, database rows, Fsck.check()'])

p('C06', 'File contents and sizes equal those of a byte array under any operation sequence',
  'After any sequence of writes, reads, truncations and extensions at any offsets relative to block boundaries, with arbitrary cache evictions in between, every read returns what a plain byte array would, unwritten ranges read as zeros, and the size is exact. Data beyond a truncation point never reappears.',
  ['histories', 'inputs'], 'all operation sequences up to a bounded depth with offsets/lengths around block boundaries, with and without cache drop between steps',
  'Tests sample a few offsets; stale tail data needs shrink-then-extend sequences with eviction in between.',
  [FS, BC], [('read, write, _readwrite, setattr size handling', FS)], (), ['Operations.read/write/setattr/getattr'])

p('C07', 'Concurrent file system requests keep data and metadata consistent',
  'When several requests (create, write, read, unlink, rename, truncate, copy, flush, forget) run concurrently, each completes with an allowed result, no update of size or attributes is lost, and at quiescence metadata and backend are consistent and contain the data of every completed write.',
  ['schedules', 'programs'], 'all interleavings (bounded deviations) of small sets of concurrent requests',
  'File system tests await one request at a time.',
  [FS, BC, 'src/s3ql/inode_cache.py'], [('ordering of database updates and awaits in request handlers', FS)], (),
  ['Operations request handlers; database rows and backend contents at quiescence'])

p('C08', 'A tree copy is an exact and independent snapshot',
  'After s3qlcp the target holds an exact replica (names, attributes, hard links, symlinks, xattrs, contents including not yet uploaded data) of the source as of the copy. Later changes to either side never show in the other, and reference counts stay exact.',
  ['histories', 'inputs', 'schedules'], 'all small source trees x operation sequences before and after the copy, and interleavings with a concurrent writer',
  'Tests copy one tree once; dirty, in-flight and evicted blocks combined with hard links are not covered.',
  [FS, 'src/s3ql/cp.py'], [('copy_tree', FS), ('start_flush', BC)], (), ['tree contents read back through Operations after copy'])

p('C09', 'A locked tree cannot be changed',
  'Once a tree is locked, no request and no sequence of requests (including through hard links, open handles, renames across the boundary, or copies) changes the contents, size, attributes (other than link count and ctime), extended attributes or directory entries of any locked inode. Only tree removal deletes the entries of a locked directory. Copies of locked trees are writable.',
  ['histories', 'inputs'], 'every mutating request with every target inside, outside and across a locked tree, in sequences',
  'Tests try a handful of operations on one locked file.',
  [FS, 'src/s3ql/lock.py'], [('locked flag checks in each mutating handler', FS)], (), ['errno and database rows before/after'])

p('C10', 'Directory listing is complete and duplicate-free under concurrent changes',
  'A directory listing resumed in any pieces returns every entry that exists throughout exactly once, and never returns an entry twice, regardless of creations, removals and renames between the pieces.',
  ['histories', 'inputs'], 'all ways of splitting a listing into pieces combined with all small modification sequences in between',
  'Tests read a directory in one go.',
  [FS], [('readdir cursor', FS)], (), ['readdir replies'])

p('C11', 'fsck repairs any inconsistency, keeps undamaged data, and is idempotent',
  'For any inconsistency in the metadata tables, cache directory or backend object set, the checker completes without crashing, leaves metadata and backend mutually consistent, and reports no further errors when run again. It keeps all data that was not damaged: undamaged files stay at their path with their content, and damaged files are moved to lost+found rather than dropped.',
  ['inputs', 'fault_sequences'], 'every single and pair of row-level corruptions of a reference file system, and every loss/addition of backend objects',
  'One hand-written test per checker routine, one corruption at a time.',
  [FSCK], [('check_* routines', FSCK)], (), ['database, backend and result flags after Fsck.check(), twice'])

p('C12', 'Incremental metadata upload reproduces the database exactly',
  'After any sequence of database changes, checkpoints and incremental metadata uploads, downloading the metadata for an uploaded sequence number reproduces the database file byte for byte. No modified part of the database is ever left out of the next upload.',
  ['histories', 'programs'], 'all sequences up to a bounded depth of insert/update/delete/vacuum-like growth and shrink, checkpoint and upload steps, several block sizes',
  'Tests check one or two update cycles.',
  [DB, 'src/s3ql/_sqlite3ext.cpp', 'src/s3ql/sqlite3ext.pyx'], [('write tracking VFS', 'src/s3ql/_sqlite3ext.cpp'), ('upload_metadata/download_metadata', DB)],
  [('dirty_blocks', 'blocks changed since last upload', 'src/s3ql/_sqlite3ext.cpp')], ['downloaded database bytes'])

p('C13', 'A metadata upload during live writes is a consistent snapshot',
  'While the file system keeps writing to the database during a metadata upload, the uploaded snapshot equals one committed state of the database and matches its recorded checksum and size; changes made during the upload are included in the next one. Writers are not lost and not blocked forever.',
  ['schedules', 'histories'], 'all interleavings (bounded deviations) of an upload with concurrent committing writers and checkpoints',
  'Needs control over when writers commit relative to the block reads.',
  [DB, MOUNT], [('inhibit_writes', DB), ('MetadataUploadTask', MOUNT)], (), ['downloaded snapshot compared with committed states'])

p('C14', 'Expiring old metadata keeps every retained snapshot restorable',
  'After expiring old metadata, every retained sequence number can still be downloaded completely and byte-exactly, obsolete objects are gone, and an interruption at any point leaves every retained snapshot restorable.',
  ['histories', 'crash_points'], 'all small histories of which blocks changed at which sequence numbers with growing and shrinking sizes, times retention counts, times interruption points',
  'Tests use one synthetic layout.',
  [DB], [('expire_objects', DB)], (), ['download of each retained snapshot'])

p('C15', 'Mount, unmount and fsck never use stale metadata, whatever crashes',
  'Across any sequence of mounts, crashes, unmounts and checks on several hosts sharing a backend, a host never continues with metadata older than the newest completed session, never overwrites newer metadata with older, and refuses to mount an unclean or already mounted file system until it has been checked. Sequence numbers strictly increase with each session.',
  ['crash_points', 'histories'], 'all bounded histories of mount/crash/unmount/fsck on two hosts with a crash at every backend or cache-file write',
  'End-to-end tests exercise a few two-step histories without crash points.',
  [MOUNT, FSCK, DB], [('seq_no, is_mounted, needs_fsck handling', MOUNT)], (), ['parameters and database used by each session'])

p('C16', 'Compressed and encrypted objects round-trip exactly',
  'For every content, metadata, compression algorithm and level, and passphrase choice, what is read back equals what was stored, for all lengths around the internal buffer boundaries and however the source and sink split their I/O. Sizes reported equal what is stored.',
  ['inputs', 'configurations'], 'all algorithms x encryption x content classes x lengths around each boundary',
  'Tests use a few fixed contents.',
  [CE, BCOM], [('compress/encrypt pipeline', CE)], (), ['AsyncComprencBackend.write_fh/readinto_fh'])

p('C17', 'Tampered or swapped encrypted objects are always detected',
  'With a passphrase set, any modification of a stored object or of its metadata, exchange of objects or of parts of them between names, rollback of the metadata format, truncation, extension, or substitution by an unencrypted object is reported as corruption (or wrong passphrase), and never yields data different from what was stored under that name. Unencrypted corruption is reported as a corrupted object, never as another failure.',
  ['inputs', 'fault_sequences'], 'every single-byte change, truncation, extension, field substitution and cross-object splice of small stored objects, per algorithm',
  'Tests flip one byte in one object.',
  [CE, BCOM], [('HMAC of metadata, authenticated encryption of data', CE)], (), ['result or exception of readinto_fh/lookup'])

p('C18', 'Local backend stores are atomic and independent',
  'With the local backend, an object is at all times either completely the old or completely the new version, also when several tasks store the same or different keys concurrently or the process dies at any point. Listing returns exactly the stored keys, and interrupted stores leave nothing that is ever listed, read or mistaken for an object.',
  ['schedules', 'crash_points', 'inputs'], 'all interleavings of concurrent stores/reads/deletes, all crash points within a store, keys with special characters',
  'Tests store sequentially.',
  ['src/s3ql/backends/local.py'], [('temporary file and rename', 'src/s3ql/backends/local.py')], (), ['fetch/lookup/list results'])

p('C19', 'Bulk deletion deletes exactly the requested objects and reports the rest',
  'After a bulk deletion returns or fails, the key list contains exactly the keys that may still exist: no key is dropped from the list unless it was deleted, keys outside the list are never deleted, and a successful return means none of them exists. This holds for every backend, batch size and failure position.',
  ['fault_sequences', 'inputs', 'schedules'], 'all backends x batch sizes around the limit x failure kind at every request and per-key result',
  'Tests cover the success path and one failure.',
  [BCOM, 'src/s3ql/backends/s3.py', 'src/s3ql/backends/s3c4.py', 'src/s3ql/backends/swift.py', 'src/s3ql/backends/b2ng.py', 'src/s3ql/backends/gs.py'],
  [('delete_multi', BCOM)], (), ['keys left in the list vs. objects left in the store'])

p('C20', 'Remote backends give exact results in spite of any transient failure',
  'For every sequence of transient server or network failures (error responses, timeouts, connection loss before, during or after a request) within the retry limit, each backend operation finally has the same effect and result as without failures; permanent failures surface as the documented error. A truncated or corrupted transfer is never accepted as success.',
  ['fault_sequences'], 'every fault kind at every request of each operation, pairs of faults',
  'Tests inject single hand-picked failures.',
  ['src/s3ql/backends/s3c.py', 'src/s3ql/backends/s3c4.py', 'src/s3ql/backends/gs.py', 'src/s3ql/backends/swift.py', 'src/s3ql/backends/b2ng.py', BCOM],
  [('retry decorator, is_temp_failure', BCOM), ('checksum verification', 'src/s3ql/backends/s3c.py')], (), ['operation result and server-side object set'])

p('C21', 'HTTP responses are delimited correctly on reused connections',
  'For every way the response byte stream is split by the network, every framing (length, chunked, close-delimited, no body) and every amount of body read by the caller, the client returns exactly the body and headers of the response belonging to its request. A connection whose state is uncertain is never handed to the next request.',
  ['inputs', 'schedules', 'fault_sequences'], 'all split points of the byte stream x framings x partial reads x faults, and interleavings of pool users',
  'Tests use a real server with fixed segmentation.',
  [HTTP], [('connection state machine and pool', HTTP)], (), ['HTTPConnection / pool results'])

p('C22', 'The linked dictionary behaves as an insertion-ordered map even while iterated',
  'Under every sequence of insert, update, delete, pop and move-to-tail, the linked dictionary has the contents and order of a reference ordered map. Iterations that tolerate mutation visit every element present throughout exactly once and terminate.',
  ['histories'], 'all operation sequences up to a bounded depth over three keys with up to two suspended iterators',
  'Tests run fixed sequences.',
  ['src/s3ql/_linked_dict.py'], [('doubly linked list nodes', 'src/s3ql/_linked_dict.py')], (), ['iteration results and mapping contents'])

p('C23', 'Per-key locks are mutually exclusive and always progress',
  'At most one task holds the lock of a key at any time; different keys do not exclude each other; every waiter is eventually served once holders release; cancelling a waiter never leaks or breaks a lock.',
  ['schedules'], 'all interleavings (deviation bounded) of tasks acquiring, trying, releasing and being cancelled on one or two keys',
  'Tests use threads of fixed timing.',
  ['src/s3ql/multi_lock.py'], [('condition variable and key set', 'src/s3ql/multi_lock.py')], (), ['acquire/release order'])

p('C24', 'The inode cache never loses an attribute update',
  'Under any sequence of creating, reading, modifying, deleting, flushing and dropping inodes with any amount of cache pressure, reading an inode always returns the most recent attributes and the database equals them after a flush.',
  ['histories'], 'all operation sequences up to a bounded depth with a cache of one to three slots',
  'Tests fill the cache once.',
  ['src/s3ql/inode_cache.py'], [('LRU slots with write-back', 'src/s3ql/inode_cache.py')], (), ['attributes read, database rows'])

p('C25', 'Stored metadata mappings and parameters serialize losslessly and safely',
  'Every mapping of the supported types survives serialization exactly, distinct mappings have distinct checksummed forms, and every malformed, truncated or hostile input is rejected with the documented error and nothing else. No input causes code execution or unbounded work.',
  ['inputs'], 'all small mappings over a value alphabet; every truncation and single-byte mutation of serialized forms; all short strings over a syntax alphabet',
  'Tests use a few examples.',
  ['src/s3ql/common.py', BCOM], [('freeze/thaw_basic_mapping', 'src/s3ql/common.py'), ('checksum_basic_mapping', BCOM)], (), ['return value or exception'])

p('C26', 'Parallel pipelines process every job exactly once and stop on failure',
  'Whatever the number of workers, buffering and interleaving, a pipeline hands each produced job to exactly one worker, finalizes only after all jobs finished, and on any worker or producer failure or cancellation stops promptly, propagates that failure and never finalizes or hangs.',
  ['schedules', 'fault_sequences'], 'all interleavings of small pipelines with a failure at each position',
  'Tests run trivial pipelines.',
  ['src/s3ql/common.py'], [('ParallelPipeline.run', 'src/s3ql/common.py')], (), ['jobs consumed, finalize calls, exceptions'])

p('C27', 'Backup expiry keeps a backup for every configured age range',
  'For every history of backups and invocation gaps, the expiry tool keeps at least one backup per configured cycle range once one was available, never deletes a backup that a later range still needs, and keeps stable state across runs.',
  ['histories'], 'all backup/invocation histories of bounded length over all small cycle configurations',
  'Tests run a few fixed scenarios.',
  ['contrib/expire_backups.py'], [('process_backups, simulate, upgrade', 'contrib/expire_backups.py')], (), ['which backups remain'])

p('C28', 'Passphrase change and recovery never lose access to the master key',
  'If changing the passphrase or recovering the master key is interrupted at any point, the file system can still be opened with the old or the new passphrase, and after completion with the new one only; backup copies of the key stay usable.',
  ['crash_points', 'fault_sequences'], 'crash or failure at every backend operation of every passphrase-related command and of file system creation',
  'Tests run the commands to completion.',
  ['src/s3ql/adm.py', 'src/s3ql/mkfs.py'], [('order of passphrase object updates', 'src/s3ql/adm.py')], (), ['opening the backend with each passphrase after the interruption'])

p('C29', 'The cache respects its limits and reports its usage exactly',
  'Whenever no request is in progress, the number and size of cached blocks are within the configured limits plus at most the blocks touched by the last concurrent requests; reported usage always equals the files on disk; an entry is never evicted before its data is safely recorded.',
  ['schedules', 'histories'], 'all interleavings of bounded programs with one- and two-entry caches and size limits; all sequential histories to a bounded depth',
  'Tests check limits after a single overflow.',
  [BC], [('CacheDict size bookkeeping, evict', BC)], (), ['get_usage() and cache directory at every quiescent point'])

p('C30', 'Verification reports exactly the missing and corrupted objects',
  's3ql_verify lists every missing and every corrupted object, in metadata and data, and nothing else, for every combination of damage and every worker interleaving and range selection.',
  ['inputs', 'schedules'], 'all subsets of damage kinds over a few objects, all ranges, all interleavings of the parallel checkers',
  'Tests damage one object.',
  ['src/s3ql/verify.py'], [('retrieve_objects pipeline', 'src/s3ql/verify.py')], (), ['output files of missing and corrupted objects'])

p('C31', 'Lost or damaged data objects are contained',
  'Whatever data object is lost or damaged while the file system is mounted, requests that need it fail with EIO and nothing else, wrong data is never returned, the file system becomes read-only once the damage has been noticed, everything that is intact stays readable, work accepted before is not lost, and the mount process neither terminates nor leaves inconsistent metadata.',
  ['fault_sequences', 'histories'], 'every data object x every kind of damage x every point of every request sequence of bounded length',
  'Tests remove one object and read it.',
  [FS, BC], [('_readwrite, setattr error paths', FS), ('BlockCache._get_entry', BC)], (), ['reply to every request; stored state; result of fsck'])

p('C32', 'Reported statistics are exact',
  'The numbers that s3qlstat prints (entries, inodes, blocks, sizes before and after deduplication and compression, metadata size, cache usage) and those of statfs() agree with the actual state of the file system, the cache directory and the stored objects after every sequence of requests, with data in the cache as well as after it was flushed or dropped.',
  ['histories'], 'all request sequences to a bounded depth from several set-ups, in every cache state',
  'Tests look at one line of the output of one run.',
  [FS, BC, 'src/s3ql/statfs.py'], [('extstat, statfs', FS), ('get_usage', BC), ('output', 'src/s3ql/statfs.py')], (), ['printed statistics', 'statfs() reply'])

p('C33', 'Metadata restore, upgrade and shrink-db can be interrupted anywhere',
  'Whatever point s3qladm restore-metadata, upgrade or shrink-db is interrupted at or fails at: the command can be repeated, or fsck.s3ql run, and then the file system contains exactly the files of the last completed session or (restore-metadata) of the chosen snapshot; a partial or outdated database or a cache that belongs to different metadata is never used; changes made on other hosts meanwhile are not discarded; older versions cannot mount an upgraded file system; completed restores must be checked before the file system can be mounted.',
  ['crash_points', 'fault_sequences', 'histories'], 'every command, mount and fsck on two hosts in sequences to a bounded depth, with a power loss and a backend failure at every point',
  'Tests run each command once, to completion, on one host.',
  ['src/s3ql/adm.py', MOUNT, FSCK], [('restore_metadata, upgrade, shrink_db', 'src/s3ql/adm.py'), ('get_metadata', MOUNT), ('choice of local or remote metadata', FSCK)], (), ['files visible after the next mount on every host', 'objects of the backend'])

p('C34', 'Modified data and metadata reach the backend within the configured delays',
  'A block that has not been modified for the dirty-block upload delay is uploaded shortly afterwards, whatever else is read, written, truncated, flushed or removed meanwhile and however long uploads take; the periodic upload does not touch blocks that are still being modified; changes of metadata are published within the metadata backup interval, and an upload requested with s3qlctrl includes every change made before the request; both tasks stop promptly when asked to and never spin.',
  ['histories', 'schedules'], 'all timed histories (virtual time) of requests and waits to a bounded depth, with all schedules of tasks, upload threads and requests within a deviation bound',
  'Tests write one block and wait for the upload, or call the upload directly; nothing runs while other blocks keep changing.',
  [MOUNT, 'src/s3ql/block_cache.py'], [('CommitTask, MetadataUploadTask', MOUNT), ('upload_if_dirty', 'src/s3ql/block_cache.py')], (), ['virtual time at which the stored object contains a modification', 'metadata snapshots of the backend'])

p('C35', 'An encrypted file system reveals nothing to its backend',
  'No object ever given to the backend of an encrypted file system (also by interrupted or failed commands) contains file contents, names, extended attributes, symlink targets, a passphrase or the master key in any encoding; only the key objects can be opened with the passphrase, every other object only with the master key; no nonce, key stream or ciphertext is ever repeated, also for equal contents; different file systems get unrelated random keys.',
  ['histories', 'crash_points', 'fault_sequences'], 'all histories of commands (mkfs, mount with requests, passphrase change, fsck, upgrade...) to a bounded length under every compression algorithm, with an interruption and a failure at every point',
  'Tests check that one encrypted object differs from its plain text and can be decrypted.',
  ['src/s3ql/backends/comprenc.py', 'src/s3ql/mkfs.py', 'src/s3ql/adm.py', 'src/s3ql/database.py'], [('write_fh, ComprencBackend', 'src/s3ql/backends/comprenc.py'), ('key generation', 'src/s3ql/mkfs.py'), ('change_passphrase', 'src/s3ql/adm.py'), ('upload_metadata', 'src/s3ql/database.py')], (), ['every object and name handed to the backend'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as fh:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            fh.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
