#!/usr/bin/env python3
# Writes properties.jsonl (one property per line) from the table below.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

S, CR, I, PR, H, CF, FS = 'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'
BT = 'lib/flckbaselist.tcc'

p('C01', 'Named mutexes are mutually exclusive across threads and processes',
  'At any moment at most one thread, among all threads of all processes attached to the same shared file, holds a given named mutex, whichever of the blocking, try and timed calls it used. Every thread that was granted the mutex can release it, and a release of the outermost level is what lets the next thread in.',
  [S, PR, CF], 'all interleavings of lock/try/timed/unlock calls of any number of threads and processes, including the first use that creates the mutex, in every robust and free-unit mode',
  'The multi thread/process tests run one loop per mode under whatever schedule the kernel picks and only count laps; the windows (first-use creation race, unlock racing with lock) are a few instructions wide.',
  [BT, 'lib/flcklistnmtx.cc', 'lib/flckshm.cc', 'lib/fullock.cc'],
  [('compare-and-swap of the owner word', BT + ' fl_lock_mutex/fl_trylock_mutex/fl_unlock_mutex'), ('creation under the list spin lock', 'lib/flckshm.cc named mutex lookup')],
  [('owner word and depth counter', 'process/thread identity of the holder and recursion depth', 'named mutex unit in the shared file')],
  ['return codes of fullock_mutex_*', 'a model of who is between a granted lock and its release'])
p('C02', 'Mutex recursion, ownership and result codes follow one model',
  'A thread that holds a named mutex may lock it again through any of the three lock calls and must unlock it as often before another thread can get it. An unlock by a thread that is not the holder is refused with EPERM and changes nothing, an unlock of a name never used returns EINVAL, a try on a mutex held elsewhere returns EBUSY and a timed lock ETIMEDOUT.',
  [H, I], 'all histories of mutex calls by several threads and processes over several names, including unlock calls by non-holders and of unknown or unlocked names',
  'The simple mutex test takes each lock once from one process; recursion depth, foreign unlocks and their after effects are never exercised.',
  [BT, 'lib/flcklistnmtx.cc', 'lib/flckshm.cc'], [('depth counter next to the owner word', BT), ('owner comparison before a release', BT + ' fl_unlock_mutex')], (),
  ['return codes of fullock_mutex_*', 'which blocked threads are granted the mutex after each call'])
p('C03', 'Reader/writer locks exclude writers from everyone on the same range',
  'On one file, for ranges that are equal, a granted write lock excludes every other granted read or write lock of other threads in all attached processes, and granted read locks only coexist with read locks. Readers do not refuse each other: a read try or timed read is only refused while a writer asks for or holds the range. This holds whichever of the blocking, try and timed calls and whichever descriptor of the file was used.',
  [S, PR, CF], 'all interleavings of read/write lock, try, timed and unlock calls of several threads and processes, with several descriptors of the file or a descriptor-less key, in every robust and free-unit mode',
  'The rwlock tests run fixed loops with one reader/writer mix; unit creation and removal races need particular interleavings.',
  [BT, 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc', 'lib/flcklistlocker.cc', 'lib/flckshm.cc'],
  [('lock word with reader count and writer mark', BT + ' fl_rdlock_rwlock/fl_wrlock_rwlock'), ('units created and freed under the file list spin lock', 'lib/flckshm.cc')],
  [('lock word', 'number of readers or the writer mark', 'offset unit in the shared file'), ('locker records', 'who holds or waits', 'locker list of an offset unit')],
  ['return codes of fullock_rwlock_*', 'a model of who is between a granted lock and its release'])
p('C04', 'Reader/writer lock result codes and status query follow one model',
  'Where ranges are equal, disjoint or all overlap each other, the return codes of the lock, try, timed and unlock calls are those of a reader/writer lock: 0, EBUSY for a try and ETIMEDOUT for a timed call against an incompatible holder, EINVAL for an unlock of something the thread does not hold. The status query answers true exactly when some attached process holds a lock on that range of that file.',
  [H, I], 'all histories of calls by several threads and processes over several files, descriptors and ranges, including superfluous unlocks and status queries of never used, held and released ranges',
  'The simple rwlock tests use one file and the range 0+1; no test calls the status query with more than one range or after a release.',
  ['lib/fullock.cc', 'lib/flckshm.cc', 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc', 'lib/flcklistlocker.cc'],
  [('locker record looked up by thread and descriptor on unlock', 'lib/flcklistofflock.cc'), ('status query walks the units of the file', 'lib/flcklistfilelock.cc')], (),
  ['return codes of fullock_rwlock_*', 'fullock_rwlock_islocked'])
p('C05', 'What is locked is decided by name, by file and by range only',
  'Two threads address the same mutex exactly when their names agree in the first 63 characters, and the same reader/writer lock exactly when their descriptors refer to the same file (however opened or linked), or both are descriptor-less, with ranges that overlap. Locks that differ in name, in file, or - for disjoint ranges - in range never affect each other, nor do descriptor-less locks affect those of files.',
  [I, H], 'all pairs of names (including equal hashes and long common prefixes), files, hard links, descriptors, descriptor-less keys, disjoint, adjacent and overlapping ranges, after any history of other locks',
  'The tests use two fixed names and one file; hash collisions, long names, links and neighbouring ranges never occur.',
  ['lib/flcklistnmtx.cc', 'lib/flckutil.cc', 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc', 'lib/fullock.cc'],
  [('hash followed by name comparison', 'lib/flcklistnmtx.cc'), ('device/inode identity', 'lib/flckshm.cc'), ('range overlap test', 'lib/flcklistofflock.cc')], (),
  ['try lock results from a second process'])
p('C06', 'Everything released becomes available again',
  'Once every holder has released, any waiting or new lock request on a mutex or range is granted: no schedule of lock, try, timed and unlock calls leaves a mutex, a range, or the library itself permanently blocked. A blocked call always returns once the lock it waits for has been released and nobody else takes it.',
  [S, PR, CF], 'all interleavings of programs that take their locks in one global order and release all they took, in every robust and free-unit mode, with small and with ample tables',
  'A hang that needs one interleaving appears as a rare time-out of a loop test at best.',
  [BT, 'lib/flckshm.cc', 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc'],
  [('spin locks with a recorded holder', BT + ' fl_lock_lockid'), ('waiters retry until the lock word is free', BT), ('units protected from removal while in use', 'lib/flcklistofflock.cc')], (),
  ['completion of every call under a fair schedule', 'try locks of a new process afterwards'])
p('C07', 'Condition variables lose no wake-up and wake exactly whom they should',
  'A signal sent while threads wait on a condition releases exactly one of them and a broadcast all of them; each released call returns 0 holding the mutex again, and a waiter that was not signalled does not return 0. A timed wait that returns ETIMEDOUT holds the mutex again and has not consumed a signal.',
  [S, H], 'all interleavings of waiters, timed waiters, signals and broadcasts over several conditions and mutexes in several processes, including a time-out racing with a signal',
  'The condition tests signal in a loop until everybody left, so a lost or doubled wake-up is invisible to them.',
  ['lib/flcklistncond.cc', 'lib/flcklistwaiter.cc', BT, 'lib/flckshm.cc'],
  [('waiter record entered before the mutex is released', 'lib/flcklistncond.cc wait'), ('signal flips one waiting record', 'lib/flcklistncond.cc signal/broadcast')],
  [('waiter record', 'one per waiting thread, waiting or signalled', 'list of the condition unit')],
  ['return codes of fullock_cond_*', 'number of waiters that returned 0 against signals sent'])
p('C08', 'Locks of a killed process are recovered wherever it was killed',
  'When a process is killed at any point, inside or between library calls, and no matter what it held or was waiting for, then in the high robust mode the surviving and later processes still obtain every mutex and every range with the blocking calls, and mutual exclusion among them still holds. The records of the dead process do not remain in the way: after such a recovery non-blocking calls succeed too.',
  [CR, S], 'every instruction at which the victim touches shared state, under random schedules, one or two victims, for mutexes and reader/writer locks, with the victim already reaped or still a zombie',
  'The dead lock tests kill a process that sleeps while holding one lock; a kill inside a library call is never tried.',
  ['lib/flckshm.cc', BT, 'lib/flcklistnmtx.cc', 'lib/flcklistofflock.cc', 'lib/flcklistlocker.cc'],
  [('dead check after a number of spins', 'lib/flckshm.cc robust modes'), ('takeover of spin locks whose holder is dead', BT + ' fl_lock_lockid'), ('forced release', BT)], (),
  ['blocking calls of survivors complete', 'try calls of a fresh process after the recovery'])
p('C09', 'Locks of ended threads and of closed descriptors are recovered',
  'When a thread ends while holding mutexes or reader/writer locks, or a process closes (or reuses for another file) the descriptor of a held reader/writer lock, the lock is recovered for the others in the high robust mode although the process lives on. Locks held through other descriptors or by other threads of that process are untouched.',
  [S, H], 'all programs in which threads end or close descriptors while holding locks, under random schedules, with other threads of the process holding other locks',
  'Only whole-process death is tested.',
  ['lib/flckutil.cc', 'lib/flckshm.cc', 'lib/flcklistofflock.cc'],
  [('liveness of thread and descriptor looked up in the process file system', 'lib/flckutil.cc')], (),
  ['blocking calls of other processes complete', 'locks of live holders still exclude'])
p('C10', 'A live holder is never robbed of its lock',
  'However often and from wherever the check for dead owners runs - by waiting calls, explicitly, or by a process that is not allowed to inspect the holder - a lock whose holder is alive stays held and exclusive until the holder releases it. The same is true for the internal locks of slow but living callers.',
  [S, CF], 'all interleavings of lock programs with dead checks by blocked callers and by explicit checkers, holders as threads of other processes, holders using duplicated descriptors, checkers of another user',
  'A wrongly revoked lock needs a dead check at the right moment of a living holder; the tests never check exclusion while dead checks run.',
  ['lib/flckutil.cc', 'lib/flckshm.cc', BT, 'lib/flcklistofflock.cc'],
  [('existence tests of process, thread and descriptor', 'lib/flckutil.cc'), ('recheck under the list lock before force release', 'lib/flckshm.cc')], (),
  ['exclusion model during dead checks', 'release of the live holder succeeds'])
p('C11', 'Time limits are honoured exactly',
  'A timed call against a lock or condition that does not become available returns ETIMEDOUT, never before its limit and within a bounded number of clock readings after it, for every limit and every position of the start time within a second. If the lock becomes available before, the call returns 0.',
  [I, S], 'all time limits from 0 to several seconds, all start phases of the clock, all kinds of timed calls, all clock steps, with releases before, at and after the limit',
  'The tests measure nothing; they only use one time-out of a fixed length.',
  [BT, 'lib/flckcommon.h', 'lib/flckshm.cc', 'lib/flcklistncond.cc'], [('difference of two clock readings compared with the limit', 'lib/flckcommon.h, ' + BT)], (),
  ['virtual clock of the harness at return'])
p('C12', 'Tables never leak: capacity is exactly what was configured',
  'A request that needs no more entries than were configured for its kind is never refused for lack of room; one beyond the limit is refused with ENOLCK without disturbing anything. After any history in which all locks were released (or their owners died between calls or in a blocked wait and were recovered), the same number of locks as in a fresh shared file can be taken again.',
  [H, CF], 'all histories of locks, refusals, time-outs and recoveries over small tables of every shape, followed by a full refill',
  'The over-limit tests fill one table once; leaks show only after many cycles of particular operations, such as refused or timed out calls.',
  ['lib/flckshm.cc', 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc', 'lib/flcklistlocker.cc', 'lib/flcklistwaiter.cc', BT],
  [('free lists of each unit kind', BT), ('return of units at release', 'lib/flcklistofflock.cc')], (),
  ['return codes under a reference model of table use', 'number of locks obtainable afterwards'])
p('C13', 'The free-unit mode never changes results',
  'Whether internal units are kept, freed per file or freed per range - and however that mode is switched between calls or differs between processes - the sequence of results of every program of lock calls on equal or disjoint ranges is the same.',
  [H, CF], 'all programs of calls, run under every mode and under random switching of the mode',
  'Each mode is only tested with one lock and unlock pair.',
  ['lib/flckshm.cc', 'lib/flcklistfilelock.cc', 'lib/flcklistofflock.cc', 'lib/fullock.cc'], [('conditional freeing of file and range units', 'lib/flckshm.cc')], (),
  ['result sequences compared across modes'])
p('C14', 'A forked child is a lock user of its own',
  'After fork, from whichever thread and whatever the parent holds, the child can use the library at once; it holds none of the locks of the parent, its calls are excluded by and exclude those of the parent, and it cannot release what the parent holds. The death of the child or of the parent affects only the locks that the dead one took.',
  [H, S], 'all programs with forks at any point, from main and other threads, parents holding recursive mutexes, reader or writer locks, nested forks, followed by calls and exits on both sides',
  'The fork test forks once and lets the child take a free lock.',
  ['lib/flckshm.cc', 'lib/fullock.cc', 'lib/flckthread.cc', 'lib/flckutil.cc'], [('fork handlers', 'lib/flckshm.cc'), ('cached thread identity', 'lib/flckutil.cc')], (),
  ['return codes on both sides', 'try locks of a third process'])
p('C15', 'Concurrent start-up always yields one consistent shared file',
  'However many processes attach to a missing, stale, truncated or existing shared file at the same moment, and if some are killed in the middle of it, all others succeed and share the same locks: a lock taken by one excludes all others. An existing file in use is never reset under its users.',
  [S, CR, CF], 'all interleavings of the file system steps of several attaching and detaching processes, kills at any such step, with initial file states missing, empty, truncated, stale and valid',
  'The tests start processes one at a time against a file that exists or not.',
  ['lib/flckshm.cc', 'lib/flckutil.cc'], [('advisory locks on the shared file during creation and while attached', 'lib/flckshminit.cc InitializeShm'), ('temporary file renamed or header verified', 'lib/flckshm.cc')], (),
  ['attach results', 'exclusion between the attached processes'])
p('C16', 'Any configuration is applied or cleanly refused',
  'Every combination of environment variables, directory and file names and table counts, however malformed, leads to a working library with the documented value or default for each setting or to a clean failure, never to a crash, memory error or a damaged shared file. After a refused re-initialisation, a correct one works.',
  [I, CF, H], 'all environment values, path spellings (relative, repeated or trailing slashes, dots, missing parts, unwritable), counts in and out of range, sequences of re-initialisations and settings',
  'Tests set only valid values of few variables.',
  ['lib/flckshm.cc', 'lib/flckutil.cc', 'lib/fullock.cc'], [('parsing of the environment', 'lib/flckshm.cc'), ('range checks of counts', 'lib/flckshm.cc'), ('path normalisation', 'lib/flckutil.cc')], (),
  ['which path the shared file appears at', 'its size', 'results of lock calls', 'sanitizer reports'])
p('C17', 'Unusable library or descriptor: allow and deny modes behave as documented',
  'While the library is not attached, or for a descriptor that is not open, every call returns at once: in the allow modes lock and unlock calls return 0 without locking anything, in the deny modes they fail with an error, and the status query answers accordingly. The retry modes attach again as soon as that is possible, and from then on calls really lock.',
  [CF, H], 'all histories of calls, mode switches, failing and succeeding attachments and good and bad descriptors',
  'No test runs without an attached library.',
  ['lib/fullock.cc', 'lib/flckshm.cc', 'lib/flckshm.h'], [('mode consulted when the shared file is not mapped', 'lib/flckshm.h, lib/fullock.cc')], (),
  ['return codes', 'exclusion against another process'])
p('C18', 'The scoped lock class holds exactly while its nesting says so',
  'Objects of the C++ scoped reader/writer lock class may be nested on one range in one thread in any order of read and write requests: the range is locked from the first successful request until the last object releases it, an outer write lock covers inner requests, and destroying objects in any order leaves nothing locked and nothing dangling. Threads of one process using the class on the same range exclude each other like processes.',
  [H, S], 'all sequences of construction, lock, unlock, descriptor and range change and destruction of several objects in several threads, against a second process',
  'No test in the suite covers more than one object at a time.',
  ['lib/rwlockrcsv.cc', 'lib/rwlockrcsv.h'], [('per-thread stack of nested holders', 'lib/rwlockrcsv.cc')], (),
  ['boolean results', 'try locks of a second process and thread'])
p('C19', 'The background worker recovers dead owners in the low and high robust modes',
  'In the low robust mode a blocked caller is granted a mutex or range whose owner process died, without its own dead check, because some attached process notices the death in the background; the calls of everybody else continue to work meanwhile, and the table entry of a caller that died while it waited for a condition becomes available again. In no mode does the background work keep a process from attaching, changing modes, forking or exiting, and re-initialising or forking leaves no descriptor or thread of a former worker behind.',
  [CF, CR, H], 'owners killed or ending (with and without clean-up) at random moments between calls, one or several attached survivors with the worker, mutexes and reader/writer locks, waiters of conditions that die, mode switches and re-initialisation while waiting',
  'The tests for the automatic recovery fail in this environment and cover one fixed scenario.',
  ['lib/flckthread.cc', 'lib/flckshm.cc'], [('notification on close of the shared file', 'lib/flckthread.cc'), ('check of all owners on notification', 'lib/flckshm.cc CheckProcessDead')], (),
  ['blocked calls of survivors complete', 'descriptors and threads of the process', 'exit completes'])
p('C20', 'Diagnostic messages report without changing anything',
  'Whatever level and file of messages are configured by the environment or by calls, and however they are switched in between, every call gives the same result as with all messages off. The messages are exactly those of the configured level and the more severe ones, one per line with the name of their level, at the end of the configured file or on the standard error if there is none or it can not be used; no message, older text of the file or descriptor is lost by switching.',
  [I, H, CF], 'all histories of succeeding, refused and failing calls in several threads and forked children, with every level, usable and unusable message files, malformed values and switches at any moment',
  'No test looks at a message or runs with the messages on.',
  ['lib/flckdbg.cc', 'lib/flckdbg.h', 'lib/flckshm.cc', 'lib/flcklistofflock.cc', 'lib/flcklistncond.cc', 'lib/flcklistnmtx.cc'], [('level test and output of each message', 'lib/flckdbg.h'), ('level and file from the environment and from calls', 'lib/flckdbg.cc')], (),
  ['results with and without messages', 'contents of the message files and of the standard error', 'open descriptors', 'sanitizer reports'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
