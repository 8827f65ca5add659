#!/usr/bin/env python3
# Writes /verif/properties.jsonl
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
I='include/nudb/'
p('C01','A store is an exact map over any history',
 'In every history of inserts, fetches, flushes, closes and reopens without faults, fetching a key that was inserted delivers exactly the bytes inserted for it, and fetching any other key reports key-not-found. This holds for every key size, block size, load factor, value size (from one byte to values larger than every internal buffer) and hash distribution, and wherever the value currently is: pending in memory, committed in this or an earlier session, in a bucket or in a chain of overflow records, at small or multi-gigabyte file offsets.',
 ['histories','inputs','configurations'],'all operation histories x all key/value sizes, block sizes, load factors and hash distributions',
 'The suites insert a few thousand random keys once with block size 4096 and a good hash; long overflow chains, colliding hashes, small blocks, huge values, many reopen boundaries and offsets beyond 32 bits are never combined.',
 [I+'impl/basic_store.ipp',I+'detail/bucket.hpp',I+'detail/pool.hpp',I+'detail/bulkio.hpp',I+'detail/format.hpp'],
 [('lookup order pending, committing, bucket view, key file, overflow chain',I+'impl/basic_store.ipp fetch'),('ordered entries and lower bound search',I+'detail/bucket.hpp'),('split on growth',I+'impl/basic_store.ipp split, commit')],
 obs=['basic_store::fetch','basic_store::insert'])
p('C02','Duplicate keys are always refused, new keys never',
 'An insert whose key is already in the database always fails with the key-exists error and changes nothing, wherever the earlier value is: still pending, being committed, in a bucket, in an overflow record, or stored by an earlier session. An insert of a key that is not in the database is never refused as a duplicate, even when its hash equals that of stored keys.',
 ['histories','inputs','schedules'],'all histories and key sets, including full hash collisions, and every phase of a commit',
 'Tests retry a handful of duplicates right after inserting or reopening; no test has two keys with one hash, an original in an overflow record, or an insert racing a commit.',
 [I+'impl/basic_store.ipp',I+'detail/bucket.hpp'],
 [('existence check over memory, bucket view and disk',I+'impl/basic_store.ipp insert, exists'),('full key comparison after hash match',I+'impl/basic_store.ipp exists')],
 obs=['basic_store::insert'])
p('C03','Concurrent fetches and inserts are linearizable',
 'For every schedule of threads calling fetch and insert on one open store while its data is committed in the background, each call behaves as if it took effect at one instant between its invocation and its return. In particular a value once observable stays observable, of several racing inserts of one key exactly one succeeds, and no fetch ever delivers torn or foreign bytes.',
 ['schedules'],'all interleavings of fetch and insert calls with each other and with every step of background commits',
 'The suites use one thread per store almost everywhere and cannot choose schedules; the windows between publishing new buckets and rewriting the key file last microseconds.',
 [I+'impl/basic_store.ipp',I+'detail/gentex.hpp',I+'detail/mutex.hpp',I+'detail/cache.hpp'],
 [('shared/unique lock over in-memory views',I+'impl/basic_store.ipp'),('generation lock delaying key file writes until old readers finish',I+'detail/gentex.hpp'),('insert serialization',I+'impl/basic_store.ipp insert')],
 state=[('pending and committing sets, published bucket view','what readers consult before the key file',I+'basic_store.hpp')],
 obs=['basic_store::fetch','basic_store::insert','File operations'])
p('C04','A commit is atomic and durable at every crash point',
 'If the process or the machine stops at any point while data is inserted and committed, then after recovery the database contains exactly the values of some prefix of its completed commits: either all or none of each interrupted commit. Every value whose flush or close had completed is present with its exact bytes, and no value that was never inserted appears.',
 ['crash_points','histories'],'all crash points of all histories, with any part of the writes not yet synced lost, torn or reordered between files',
 'The recovery suite fails the nth file operation of one workload and reopens the files as written; it never loses unsynced writes, never tears a write and uses one block size.',
 [I+'impl/basic_store.ipp',I+'impl/recover.ipp',I+'detail/format.hpp'],
 [('rollback log written and synced before the key file changes',I+'impl/basic_store.ipp commit'),('log replay and truncation',I+'impl/recover.ipp')],
 state=[('log header','sizes of key and data file before the commit',I+'detail/format.hpp')],
 obs=['File operations','basic_store::open after a crash'])
p('C05','Recovery can be interrupted and repeated at any point',
 'If recovery itself stops at any point, by a crash or a failed file operation, running it again yields the same database contents as an undisturbed recovery; this holds for any number of interruptions in a row. Running recovery on a database that needs none changes nothing.',
 ['crash_points','fault_sequences'],'all sequences of crash points and file faults inside repeated recoveries of every interrupted commit',
 'The tests run recovery once per injected failure and let it finish.',
 [I+'impl/recover.ipp'],
 [('log cleared only after key and data files are restored and synced',I+'impl/recover.ipp')],
 obs=['recover','basic_store::open'])
p('C06','I/O errors are reported, contained and recoverable',
 'When a file operation fails during an operation, that operation (or, for a background commit, every later operation on the store) reports an error and never false success. No error, wherever it strikes, damages values committed earlier: after closing, the database can be opened again and contains each earlier commit completely and each failed commit either completely or not at all.',
 ['fault_sequences','histories'],'a failure (with any partial effect of a write) of any file operation in any history, single or repeated',
 'Tests inject one failure per run into one workload and only require that a later open works; partial writes and reads that fail, stickiness and results returned after the failure are not checked.',
 [I+'impl/basic_store.ipp',I+'impl/recover.ipp',I+'detail/bulkio.hpp'],
 [('sticky store error',I+'impl/basic_store.ipp flush, close, fetch, insert'),('rollback on reopen',I+'impl/recover.ipp')],
 obs=['every API result','File operations'])
p('C07','Committed bytes of the data file never change',
 'Once a commit has completed, the bytes of the data file up to its size at that time are never overwritten, moved or cut off by any later insert, commit, rekey, verify, visit, crash or recovery; the file only grows, and the only truncation is a rollback to exactly its size before the interrupted operation.',
 ['histories','crash_points'],'all histories and crash points',
 'Tests look at values through the API only and never compare file contents across operations.',
 [I+'impl/basic_store.ipp',I+'impl/recover.ipp',I+'impl/rekey.ipp',I+'detail/bulkio.hpp'],
 [('appending writer starting at the end of file',I+'detail/bulkio.hpp'),('truncation to the logged size',I+'impl/recover.ipp')],
 obs=['data file contents'])
p('C08','After every commit the index is complete, exact and well placed',
 'After every completed commit the key file together with the overflow records indexes each stored value exactly once: every entry lies in the bucket (or overflow chain of the bucket) its hash selects, carries the exact offset, size and hash of its value, and entries within a bucket are in hash order and within capacity. Overflow chains end, refer only to complete overflow records, and belong to one bucket each.',
 ['histories','inputs','configurations'],'all insertion orders, hash distributions, block sizes and load factors, after each commit',
 'Tests run verify once at the end of a few workloads with a good hash and mostly 4096-byte blocks, and verify itself does not check order or placement of all of this.',
 [I+'impl/basic_store.ipp',I+'detail/bucket.hpp',I+'detail/format.hpp'],
 [('bucket insertion, spill and split',I+'detail/bucket.hpp, '+I+'impl/basic_store.ipp')],
 obs=['key and data file contents after each flush'])
p('C09','The index grows exactly with the load',
 'The number of buckets never shrinks and within a session grows by one bucket for each fixed quota of inserted keys (load factor times bucket capacity), independent of how the inserts are divided into commits; buckets are added one at a time at the end of the key file, so that the key file size is always a whole number of blocks. Lookups stay correct at every intermediate bucket count, including non-powers of two.',
 ['histories','configurations'],'all numbers of inserts, commit boundaries, load factors and block sizes',
 'No test looks at the number of buckets.',
 [I+'impl/basic_store.ipp',I+'detail/bucket.hpp'],
 [('load accumulator and threshold',I+'impl/basic_store.ipp open, commit'),('linear hashing bucket selection',I+'detail/bucket.hpp')],
 obs=['key file size'])
p('C10','The on-disk format is the documented one, byte for byte',
 'The data, key and log files written by any operation follow the documented format of version 2 exactly (field order, widths, big endian, zeroed reserved fields and padding, hash truncation, salt fingerprint), so that a reader built from the documentation alone decodes every value and bucket. Databases made of documented bytes are opened, read and extended correctly.',
 ['histories','inputs','configurations'],'all files produced by any history and all parameter values',
 'Tests only read files back with the same code, so a consistent change of format or hash passes unnoticed and breaks existing databases.',
 [I+'detail/format.hpp',I+'detail/stream.hpp',I+'detail/field.hpp',I+'detail/endian.hpp',I+'detail/xxhash.hpp',I+'detail/bucket.hpp','README.md'],
 [('header and record serialization',I+'detail/format.hpp, '+I+'detail/field.hpp'),('hash function',I+'detail/xxhash.hpp')],
 obs=['file contents'])
p('C11','Rekey builds an equivalent index for any parameters',
 'For every database, block size, load factor, item count estimate and buffer size, a successful rekey produces a key file through which exactly the values of the data file are found, with the requested parameters recorded, the identity of the database (uid, application number, key size) unchanged, no log file left, and the data file changed only by appended overflow records. Parameters for which no valid key file exists are refused without touching anything.',
 ['inputs','configurations','histories'],'all databases and all block size, load factor, count and buffer combinations, including repeated rekeys and later inserts',
 'The test rekeys one database with two buffer sizes and block size 256.',
 [I+'impl/rekey.ipp',I+'detail/bucket.hpp',I+'detail/bulkio.hpp'],
 [('multi-pass bucket construction',I+'impl/rekey.ipp')],
 obs=['rekey','files afterwards'])
p('C12','An interrupted rekey is undone or complete, never half',
 'If rekey stops at any point by a crash or I/O error, then recovery, itself interruptible and repeatable, leaves either the finished new index or no key file with the data file exactly as before, so that rekey can be run again and succeeds. No value of the data file is ever lost, and a rekey that reported success survives a power failure.',
 ['crash_points','fault_sequences'],'all crash points and faults in rekey and in the recoveries that follow, with unsynced writes lost',
 'The test fails the nth operation of rekey on one database without losing unsynced writes and without interrupting the recovery.',
 [I+'impl/rekey.ipp',I+'impl/recover.ipp'],
 [('rekey log marks the key file as incomplete',I+'impl/rekey.ipp'),('recovery of a rekey log',I+'impl/recover.ipp')],
 obs=['rekey','recover','files afterwards'])
p('C13','Verify accepts every database the library makes and counts exactly',
 'For every database produced by inserts, commits, rekeys and recoveries, verify succeeds with every buffer size, whichever algorithm is chosen, and reports exactly the true number and size of values, keys, overflow records in use and in total, the overflow histogram and the parameters; both algorithms report the same figures.',
 ['histories','inputs','configurations'],'all databases and buffer sizes',
 'Tests verify a few databases without checking a single reported figure except the algorithm used.',
 [I+'impl/verify.ipp',I+'verify.hpp'],
 [('normal and buffered verification',I+'impl/verify.ipp')],
 obs=['verify result'])
p('C14','Verify reports every index inconsistency',
 'If one index entry, overflow link, bucket count, stored key or record length of a database is altered so that some value is no longer found through the index, is found under a wrong place, size or hash, is indexed twice, or two values share one key, or a file is cut short, verify reports an error with every buffer size instead of success, and it terminates without reading out of bounds.',
 ['inputs','fault_sequences'],'all single corruptions of the listed kinds in all databases, under both algorithms',
 'Tests verify only intact databases.',
 [I+'impl/verify.ipp'],
 [('value to index and index to value cross checks',I+'impl/verify.ipp')],
 obs=['verify result'])
p('C15','Visit delivers every value exactly once, in order',
 'Visiting a data file calls the callback exactly once per stored value, in the order stored, with the exact key and bytes, skipping overflow records wherever they lie; it stops at the first error set by the callback and returns that error. A data file that ends inside a record yields an error after its complete records, never a callback with wrong bytes.',
 ['inputs','histories'],'all data files, including values around and above the read buffer size, overflow records anywhere, and every truncation point',
 'The test visits one database of small values.',
 [I+'impl/visit.ipp',I+'detail/bulkio.hpp'],
 [('sequential record scan',I+'impl/visit.ipp'),('bulk reader',I+'detail/bulkio.hpp')],
 obs=['visit callback sequence'])
p('C16','Create makes a valid empty database or nothing',
 'Create either reports success and leaves a database with exactly the requested parameters that can be opened, used and verified, already durable when it returns; or it reports an error, removes every file it made and touches no file that existed before. Exactly the invalid parameters (key size, block size, load factor out of range) are refused.',
 ['inputs','fault_sequences','configurations'],'all parameter values, pre-existing files and failures of any file operation',
 'The test tries a few bad parameters and one existing file.',
 [I+'impl/create.ipp'],
 [('parameter checks and cleanup',I+'impl/create.ipp')],
 obs=['create result','files afterwards'])
p('C17','Foreign or mismatched files are refused unharmed',
 'Opening, recovering, verifying or rekeying with files that do not belong together or were not made by this library and hash function (wrong type, version, uid, application number, key size, salt fingerprint, block size, or too short) fails with the error for that condition. The data file and key file contents are unchanged afterwards, and a log of another database is never applied. (A key file no longer than its header is what an interrupted rekey leaves: open and recover remove it and report that there is no key file.)',
 ['inputs','configurations'],'all combinations of damaged or foreign header fields in the three files',
 'The test suite builds header structs in memory for a few fields; no test applies a foreign log or checks that files stay unharmed.',
 [I+'detail/format.hpp',I+'impl/recover.ipp',I+'impl/basic_store.ipp',I+'impl/verify.ipp'],
 [('header checks',I+'detail/format.hpp verify')],
 obs=['open, recover, verify, rekey results','files afterwards'])
p('C18','The context flushes every store, one flusher at a time, and quiesces',
 'While a context runs, data inserted into any of its open stores is committed within a bounded number of its periods without further calls; at no time do two threads flush one store, and closing a store returns only when no thread uses it any more. Opening, closing, stopping and restarting in any order never deadlocks, and stopping returns only after all worker threads have left.',
 ['schedules'],'all interleavings of worker threads with opens, closes, inserts, manual flushes, stops and restarts',
 'The context suite sleeps in real time and samples a few schedules; it is not reliable enough to be in the baseline.',
 [I+'impl/context.ipp',I+'context.hpp',I+'detail/store_base.hpp',I+'impl/basic_store.ipp'],
 [('waiting and flushing lists with intermediate state',I+'impl/context.ipp'),('stop handshake',I+'impl/context.ipp stop_all')],
 obs=['API calls and returns','File operations per thread'])
p('C19','Fetch and insert do not wait for commit I/O',
 'While a background commit is blocked in any of its writes or syncs, fetches of any key and inserts of new keys on the same store still complete and return correct results. Readers in progress delay only the rewriting of the key file, never the other way round.',
 ['schedules'],'every file operation of a commit as the point where it is blocked, every key location',
 'Tests never block a commit midway.',
 [I+'impl/basic_store.ipp',I+'detail/gentex.hpp'],
 [('locks released around I/O',I+'impl/basic_store.ipp commit'),('generation lock',I+'detail/gentex.hpp')],
 obs=['completion of fetch and insert while commit I/O is suspended'])
p('C20','A fetch costs at most one key file read plus its chain',
 'A fetch of a pending key performs no file access; any other fetch reads at most one bucket from the key file, at most each overflow record of that bucket once, and data records only of entries whose hash equals that of the key. The cost does not depend on the number of keys in the database.',
 ['histories','inputs'],'all database states and keys',
 'No test counts file accesses.',
 [I+'impl/basic_store.ipp',I+'detail/bucket.hpp'],
 [('single bucket lookup and hash comparison before reading data',I+'impl/basic_store.ipp fetch')],
 obs=['File reads per fetch'])
p('C21','The POSIX file layer is exact under short transfers and signals',
 'Reads and writes of the native file transfer exactly the requested bytes at the requested offset or report an error, however the system divides or interrupts the transfers; a read past the end reports a short read, and every failing system call is reported with its error. Sync and truncate are repeated when interrupted, create refuses an existing file, open never creates one, and no descriptor is leaked, closed twice or used after close.',
 ['fault_sequences','inputs'],'all sequences of partial transfers, interruptions and errors returned by the system',
 'Tests run on a healthy file system where every call transfers everything at once.',
 [I+'impl/posix_file.ipp',I+'posix_file.hpp'],
 [('transfer loops',I+'impl/posix_file.ipp')],
 obs=['system calls issued and results reported'])
p('C22','Closing saves everything and leaves a clean database',
 'A close that reports success has made everything inserted durable, removed the log file and left data and key files that open without recovery with the same contents and the same key size, block size, application number, uid, salt and load factor. Destroying an open store does the same, and opening and closing without inserting changes no byte of either file.',
 ['histories','configurations','crash_points'],'all histories, with power loss right after close',
 'Tests close and reopen but never check the log file, durability or the headers.',
 [I+'impl/basic_store.ipp'],
 [('final commit in close',I+'impl/basic_store.ipp close')],
 obs=['files after close'])
p('C23','The command line tool tells the truth and changes only what it is told to',
 'Each of recover, rekey, verify and visit exits with status zero exactly when the operation succeeded, and otherwise with a nonzero status and a message. info prints the header fields and size of each file given, or a message in its place; verify prints the true figures of the database; visit prints the true number of values and the true histogram of their sizes; none of them changes a file. rekey builds, and recover restores, a database with exactly the values of its data file, also after a process was killed in the middle of a commit or a rekey; wrong or missing arguments, missing files, and an existing key file or log leave every file as it was.',
 ['inputs','configurations','histories'],'databases of every kind, intact, killed in the middle of an operation, without key file or cut short; every command and combination of arguments',
 'There is no test of the tool.',
 ['tools/nudb.cpp',I+'_experimental/util.hpp'],
 [('commands','tools/nudb.cpp admin_tool'),('number formatting',I+'_experimental/util.hpp fdec, fhex, fhist, log2')],
 obs=['exit status','printed figures','files'])
p('C24','Writers wait only when they outrun the disk; memory follows what is pending',
 'An insert is delayed only if more than the burst size is pending since the last commit (counting the bytes of each value and three blocks for its key) and the rate at which it was inserted exceeds the rate the last commit larger than the burst size achieved; if both hold clearly it is delayed, for a bounded time, while fetches and commits go on. Fetches, refused inserts and commits are never delayed. After a commit the memory a store holds does not depend on what was inserted before, with values pending it is proportional to them, and after close nothing is held.',
 ['inputs','configurations','histories'],'any sequence of inserts, fetches, commits and reopens with any sizes, burst sizes, pauses and speeds of the disk',
 'The tests neither control time nor observe delays and memory.',
 [I+'impl/basic_store.ipp',I+'detail/pool.hpp',I+'detail/arena.hpp',I+'detail/cache.hpp'],
 [('pacing',I+'impl/basic_store.ipp insert, flush, set_burst'),('memory',I+'detail/arena.hpp, pool.hpp, cache.hpp')],
 obs=['delay of each insert','live bytes of the library'])
p('C25','User supplied files, hash functions and callbacks are used as documented',
 'Every File object a call uses is constructed from the arguments given to that call. File objects are only opened when not open and only used when open; writes and truncation need a write mode, and a file opened for appending is written only at its end. Only the three paths given are opened or erased, no file is erased while open, and the data file is erased by nothing but a failed create. create, recover, rekey, a close that succeeds and an open that fails leave no file open. The Hasher is constructed with the salt of the database and given only keys, or the eight bytes of the salt. Progress is called with amounts which start at zero, never decrease and never exceed a constant total. A fetch calls its callback once if it reports success and otherwise not at all; a visit whose callback sets an error stops at once and reports that error.',
 ['histories','fault_sequences','crash_points'],'all histories of every function of the library, with any failing file operation and after any kill',
 'The tests use File and Hasher types that do not observe how they are used.',
 [I+'impl/basic_store.ipp',I+'impl/create.ipp',I+'impl/recover.ipp',I+'impl/rekey.ipp',I+'impl/visit.ipp',I+'impl/verify.ipp'],
 [('File requirements','doc/types/File.qbk'),('Hasher requirements','doc/types/Hasher.qbk'),('Progress requirements','doc/types/Progress.qbk')],
 obs=['calls made to File, Hasher, Progress and callbacks'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
print(len(P))
