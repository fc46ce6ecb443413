import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
NT="The package has no tests at all; "
C="common/container/"
p("C01","A linked list reads as exactly the sequence its history defines",
 "Read forwards or backwards, a list is exactly the sequence that its insertions, moves, removals, clears and whole-list copies define, and its length agrees; a zero-value list behaves as an empty one. A handle to an element that is not (or is no longer) in the list leads to no neighbour and never changes that list or any other, and appending a list's copy to itself or another list adds exactly the source's elements in order. Removing the first or last element of an empty list panics and changes nothing.",
 ["histories","inputs"],"every sequence of operations on any number of lists and element handles, including stale and foreign handles",
 NT+"a pointer-linking mistake only shows for particular neighbour relations (moving an element next to itself, removing at an end, stale handles) reached by multi-step histories.",
 [C+"list/list.go"],[("ring of elements with a sentinel; every mutation relinks both neighbours","list.go insert/remove/move"),("membership test before every handle operation","list.go Remove/Insert*/Move*")],
 [("root/len","ring sentinel and element count","list.go List"),("list","owner of an element","list.go Element")],["every exported method; walking Front..Next and Back..Prev"])
p("C02","Deque ends and stack top obey double-ended and LIFO order",
 "A deque returns from each end exactly the elements not yet taken, front pops in front-to-back order and back pops in the reverse, each pushed element exactly once; a stack returns elements strictly last-in first-out and its peek shows what the next pop returns. Length and emptiness always agree with the elements held. Popping (or peeking a stack) when empty panics and changes nothing.",
 ["histories"],"every interleaving of pushes and pops at both ends, of every length",
 NT+"order properties quantify over all histories.",
 [C+"deque/deque.go",C+"stack/stack.go",C+"list/list.go"],[("delegation to the linked list","deque.go, stack.go")],None,["exported methods' results"])
p("C03","A set contains exactly the elements added and not since removed",
 "An element is reported as contained exactly when it was added and not removed since; adding a present element or removing an absent one changes nothing. The length is the number of distinct contained elements and emptiness agrees with it. Different sets never influence each other.",
 ["histories","inputs"],"every history of adds and removes over every element domain",
 NT+"membership must follow the whole history.",[C+"set/set.go"],[("map keyed by element","set.go")],None,["exported methods' results"])
p("C04","A binary heap and priority queue always yield a minimum, losing nothing",
 "Peek and pop return an element that no held element is less than under the given order, however the heap was built (initial slice, pushes, removals by position, re-fixing a changed element); elements that compare equal may come in any order. Every element put in comes out exactly once, removal by position removes exactly the element it returns, and the length is the number held. Pop and peek on an empty heap panic and change nothing.",
 ["histories","inputs"],"every initial slice and history of push/pop/peek/remove/fix, with duplicates and any total preorder",
 NT+"a wrong sift only misorders for particular shapes of the tree, several operations later.",
 [C+"heap/heap.go",C+"pqueue/pqueue.go"],[("sift up / sift down after each mutation","heap.go up/down"),("heapify on construction","heap.go init")],
 [("h","implicit binary tree","heap.go Heap")],["results of Pop/Peek/Remove/Len"])
p("C05","An n-ary heap of any arity always yields a minimum, losing nothing",
 "For every arity of at least two, peek and pop return an element that no held element is less than under the given order, and draining the heap yields a sorted sequence, whatever pushes, pops, positional removals and re-fixes came before. Every element put in comes out exactly once and the length is the number held. An arity below two is refused by a panic, and pop and peek on an empty heap panic and change nothing.",
 ["histories","inputs","configurations"],"every arity and every history of push/pop/peek/remove/fix",
 NT+"a child range that is wrong for some arities only misorders with enough elements and a particular order.",
 [C+"heap/heapn.go"],[("sift down over the n children","heapn.go down"),("sift up via (j-1)/n","heapn.go up")],[("n/h","arity and implicit tree","heapn.go HeapN")],["results of Pop/Peek/Remove/Len"])
p("C06","A keyed heap stays one consistent map and heap",
 "At every moment lookup, membership and length describe exactly the last value pushed for each key not since popped or removed, and peek and pop return the entry of a key whose value no other held entry's is less than. Pushing a present key replaces its value and reorders it; removing an absent key changes nothing. Pop and peek when empty panic and change nothing.",
 ["histories","inputs"],"every history of push/update/pop/remove/get over every key set and order",
 NT+"key-to-position bookkeeping goes stale only after particular swaps, and shows later through a different key.",
 [C+"meap/maep.go"],[("position map updated by every swap, push and pop","maep.go swap/push/pop"),("re-sift on update and removal","maep.go Push/Remove/fix")],[("h/m","heap of entries and key-to-position map","maep.go Meap")],["exported methods' results"])
p("C07","A removable heap honours every handle and always yields a minimum",
 "A handle returned by push removes or re-values exactly its own element while that element is held, and is refused (false, nothing changes) once the element has been popped or removed. Peek and pop return an element no other held one is less than, counting re-valued elements by their new value. Every pushed element leaves exactly once and the length is the number held; pop and peek when empty panic and change nothing.",
 ["histories","inputs"],"every history of push/pop/remove/set-value through any handles, live or dead",
 NT+"stored positions go stale only after particular swaps.",
 [C+"reap/reap.go"],[("position stored in each entry, updated by every swap; -1 once removed","reap.go swap/pop")],[("index","position of the entry or -1","reap.go Entry")],["exported methods' results"])
p("C08","Bounded ring buffers are exact FIFO queues of fixed capacity",
 "A bounded ring holds at most its capacity (the requested size, or for the power-of-two ring the least power of two not below it) and returns elements in exactly the order accepted, each once. A bulk write accepts exactly the longest prefix that fits, a bulk read returns exactly the oldest min(asked, held) elements, and length, free space, emptiness and fullness always agree. Pushing when full, popping or peeking when empty, and creating a ring of size zero or above the maximum panic and change nothing; reset empties the ring.",
 ["histories","inputs","configurations"],"every capacity and every history of single and bulk reads and writes, across any number of wrap-arounds",
 NT+"bulk copies go wrong only for particular offsets relative to the end of storage.",
 [C+"ringbuffer/fix/fix.go",C+"ringbuffer/round/roud.go"],[("monotone in/out counters reduced modulo the size","fix.go, roud.go"),("two-part copies across the wrap","MPush/MPop/MPopCopy")],[("in/out","total written / read","Ring")],["exported methods' results"])
p("C09","The growable ring buffer is an exact unbounded FIFO queue",
 "From any initial capacity, zero included, the growable ring accepts every element and returns elements in exactly the order accepted, each once, through single and bulk reads alike. Growing, explicit or implied by a write, never loses, duplicates or reorders what is held, never shrinks the capacity and makes it at least what was asked; length, free space, emptiness and fullness always agree. Pop and peek when empty panic, bulk reads when empty return nothing, and reset empties the ring.",
 ["histories","inputs","configurations"],"every initial capacity and history of single and bulk operations and growths, at every wrap position",
 NT+"a migration mistake shows only when growth happens while the content wraps around the end of storage.",
 [C+"ringbuffer/unbounded/unbounded.go"],[("copy of both halves into the new storage","unbounded.go Grow")],[("in/out/size","counters and capacity","Ring")],["exported methods' results"])
p("C10","A bounded ring is safe for one producer and one consumer",
 "With one goroutine writing and another reading a bounded ring, under every interleaving the reader receives exactly the written elements in order, each once, and never a value that was not written. A write reported as accepted is never overwritten before it is read, and the two sides never race on memory. Each side's view of length and free space is one that held at some moment during the call.",
 ["schedules"],"every interleaving of one producer and one consumer at the granularity of single statements, for all capacities and single/bulk operation mixes",
 "No test runs a ring from two goroutines; an ordering mistake between publishing a counter and writing the slot needs a switch at that exact point.",
 [C+"ringbuffer/fix/fix.go",C+"ringbuffer/round/roud.go"],[("slot is written before the write counter is published and read before the read counter is published","Push/Pop/MPush/MPop/MPopCopy")],[("in/out","shared counters","Ring")],["results of both goroutines' calls"])
p("F01","A bloom filter never denies an element that was added",
 "Once an element has been added, asking for it answers 'possibly present' until the filter is cleared, whatever else is added and whether it is given as a number, bytes or the equal string. A cleared (or new) filter answers 'absent' for everything, and works again as before. Queries change nothing and the reported bit count is constant.",
 ["histories","inputs","configurations"],"every capacity, false-positive rate, random seed choice, element set and history of add/query/clear",
 NT+"the guarantee covers every element, bit position and random seed, not sampled ones.",
 ["common/filter/bloom/bloom.go"],[("add and query derive the same bit positions","bloom.go pos"),("query demands every bit","bloom.go Contains")],[("bits","bit array","bloom.go Filter")],["results of Contains*"])
p("F03","A bloom filter filled to its capacity keeps the configured error rate",
 "Filled with as many different elements as its configured capacity, a filter answers 'possibly present' for elements that were never added no more often than the configured false-positive rate, up to statistical fluctuation. This holds for numbers, bytes and strings alike, for every capacity and rate, and for every random seed the filter may draw.",
 ["inputs","configurations"],"every capacity, rate, seed and set of patternless elements",
 NT+"a rate can only be judged over many filters and queries.",
 ["common/filter/bloom/bloom.go"],[("number of bits and probes computed from capacity and rate","bloom.go New"),("probe positions derived from the seeded hash","bloom.go pos")],[("bits/k","bit array / number of probes","bloom.go Filter")],["share of positive answers for elements never added"])
p("F02","A hasher is a function of content",
 "One hasher returns the same value for equal content every time, whatever was hashed in between, and a string hashes as its bytes do. Contents that differ in any way (any byte, the length) are not systematically given the same value. The input is never modified.",
 ["histories","inputs"],"every sequence of hashed contents, lengths and kinds on one hasher",
 "The two existing tests assert nothing (they only log), so even a constant result passes them.",
 ["common/hash/hash.go"],[("reset before every computation","hash.go Sum64")],None,["results of Sum64/Sum64String"])
L="common/limiter/"
LS="whole time line"
p("L01","The fixed-window limiter admits exactly the quota of each window",
 "A window opens at creation and is replaced, with a fresh quota, by a new one opening at the first attempt made more than one window length after the current one opened. Within a window exactly the first `limit` attempts succeed and all others are refused. Refused attempts consume nothing and delay nothing.",
 ["histories","configurations"],"every limit, window length and sequence of attempt instants, to the nanosecond",
 "One limit, one window and two bursts are tested; boundary instants, long gaps and refused attempts between windows are not.",
 [L+"fixed_window/fixed_window.go"],[("window start and counter reset together","fixed_window.go TryAcquire")],[("counter/lastTime","successes in the window / when it opened","FixedWindowLimiter")],["TryAcquire results under a controlled clock"])
p("L02","The leaky-bucket limiter admits exactly while below its peak level",
 "An attempt succeeds exactly when the level is below the peak, and raises it by one; refused attempts change nothing. The level falls only at an attempt made at least one second after it last fell (or after creation), by the flow rate times the whole seconds elapsed since, never below zero. Hence no period admits more than the peak plus what can have drained in it.",
 ["histories","configurations"],"every peak, rate and sequence of attempt instants, to the nanosecond",
 "One configuration and one attempt pattern are tested; boundary instants, long idle periods and emptying below zero are not.",
 [L+"leaky_bucket/leaky_bucket_limiter.go"],[("drain by whole seconds, clamped at zero, before the decision","leaky_bucket_limiter.go TryAcquire")],[("currentLevel/lastTime","level / last drain","LeakyBucketLimiter")],["TryAcquire results under a controlled clock"])
p("L03","The token-bucket limiter spends each issued token exactly once",
 "The bucket starts empty; an attempt succeeds exactly when a token is present and consumes exactly one, and refused attempts change nothing. Tokens are issued only at an attempt made at least one second after the last issue (or creation): the rate times the whole seconds elapsed since, the total never exceeding the capacity. Hence no period admits more than the capacity plus what can have been issued in it.",
 ["histories","configurations"],"every capacity, rate and sequence of attempt instants, to the nanosecond",
 NT+"idle periods, clamping and boundary instants matter.",
 [L+"token_bucket/token_bucket.go"],[("issue by whole seconds, clamped at capacity, before the decision","token_bucket.go TryAcquire")],[("currentTokens/lastTime","tokens / last issue","TokenBucketLimiter")],["TryAcquire results under a controlled clock"])
p("L04","The sliding-window limiter bounds every run of small windows",
 "Time is divided into aligned small windows; an attempt succeeds exactly when fewer than `limit` attempts have succeeded in the current small window and those before it that together make up one window. Hence no run of that many consecutive small windows ever admits more than `limit`, and refused attempts consume nothing. A window that is not a whole number of small windows, or a small window that is not positive, is refused at creation.",
 ["histories","configurations"],"every limit, window, small window and sequence of attempt instants",
 NT+"the bound is over every sliding run of buckets, including after long gaps.",
 [L+"sliding_window/sliding_window.go"],[("per-small-window counters summed over the trailing window, older ones dropped","sliding_window.go TryAcquire")],[("counters","successes per small window","SlidingWindowLimiter")],["TryAcquire results under a controlled clock"])
p("L05","The sliding-log limiter enforces every one of its strategies at once",
 "An attempt succeeds exactly when every strategy has had fewer than its limit of successes in its own trailing window of small windows; otherwise the error names a strategy that is exhausted, the one with the longest window first. Refused attempts consume nothing, and neither the order in which strategies are given nor their use by other limiters changes any decision. Creation is refused without strategies, when the small window is not positive, when a window is not a whole number of small windows, or when a shorter window does not have a smaller limit.",
 ["histories","configurations"],"every set of strategies, small window and sequence of attempt instants, with strategies shared between limiters",
 NT+"several overlapping windows and shared strategy objects multiply the cases.",
 [L+"sliding_log/sliding_log.go"],[("strategies sorted and validated at creation","NewSlidingLogLimiter"),("per-strategy trailing sums","TryAcquire")],[("counters/strategies","successes per small window / strategies","SlidingLogLimiter")],["TryAcquire errors under a controlled clock"])
p("L06","Every limiter decides as if attempts came one at a time",
 "When any number of goroutines attempt concurrently, the decisions of each of the five limiters are those of some one-at-a-time order of the attempts, each taking effect at an instant between its call and its return. So concurrency never admits more than sequential use could, never refuses what every such order would admit, and no attempt blocks forever. The limiter never races on its own memory.",
 ["schedules"],"every interleaving of concurrent attempts with each other and with the passing of time",
 "No test calls a limiter from two goroutines.",
 [L+x for x in ("fixed_window/fixed_window.go","leaky_bucket/leaky_bucket_limiter.go","token_bucket/token_bucket.go","sliding_window/sliding_window.go","sliding_log/sliding_log.go")],[("one mutex held over clock reading, decision and update","TryAcquire of each limiter")],None,["call/return histories under a controlled scheduler and clock"])
p("M01","The shared map behaves as one atomic map",
 "Concurrent gets, sets, deletes, test-and-sets, lengths and locked iterations on the shared map have the results of some one-at-a-time order consistent with real time; a zero-value map is an empty one. Test-and-set stores and answers nil exactly when the key is absent, and otherwise answers the stored value unchanged (nil included), so of several racing on one absent key exactly one wins. A locked iteration visits every entry present exactly once, and no operation blocks forever.",
 ["schedules","histories"],"every history and interleaving of the locked operations over any keys",
 NT+"atomicity quantifies over schedules.",
 ["help/utils/maps.go"],[("read/write lock around every operation","maps.go")],[("m","entries","maps.go Map")],["call/return histories"])
D="common/timer/delayqueue/delayqueue.go"
p("T01","The delay queue releases each element once, when due, earliest first",
 "No element leaves a delay queue before its delay has passed, each leaves at most once, and each take or successful pop yields an element due no later than any other element then in the queue. A pop finds exactly the elements that are due at that instant (the due instant included) and otherwise reports none and changes nothing; peek shows an earliest element without removing it. This holds under concurrent pushes, pops, takes and channel readers.",
 ["schedules","histories"],"every history of pushes with any delays and every interleaving of consumers, producers and the clock",
 NT+"orders of pushes and expirations, and schedules, cannot be sampled.",
 [D,C+"heap/heap.go"],[("heap ordered by expiry, guarded by a mutex","delayqueue.go"),("expiry compared with the clock before removal","Take/Pop")],[("h","pending entries","DelayQueue")],["results of Push/Take/Pop/Peek/Empty/Channel under a controlled scheduler and clock"])
p("T02","The delay queue never loses a wake-up and never blocks its producers",
 "Whenever nothing is left to run, no push, pop, peek or emptiness call is pending, no take is pending while an element is due, and no take is pending whose context is done. This holds for any number of producers and consumers, whatever takes were cancelled before, and however pushes, expirations and cancellations coincide. Waiting consumes no processor time, and a cancelled channel is closed.",
 ["schedules","fault_sequences"],"every interleaving of producers, consumers, timer expirations and cancellations",
 NT+"a lost wake-up or a stuck producer needs a cancellation or expiration exactly between two steps.",
 [D],[("sleeping/wake-up handshake between push and take","Push/Take"),("timer for the earliest element","Take")],[("sleeping/wakeup","handshake","DelayQueue")],["calls pending at quiescence under a controlled scheduler and clock"])
W=["common/timer/timingwheel/timing_wheel.go","common/timer/timingwheel/bucket.go","common/timer/timingwheel/delayqueue.go"]
p("T03","The timing wheel runs every task exactly once and on time",
 "While the wheel runs, every task scheduled with any delay, from zero to many times a wheel's span, is run exactly once unless stopped, no earlier than one tick before its due time, and by one tick after it once nothing else is left to run. This holds whatever else is scheduled before or at the same time, after any idle period, and under every interleaving. Waiting consumes no processor time.",
 ["schedules","histories","configurations"],"every tick, wheel size, set of delays and scheduling times, and interleaving of schedulers with the running wheel",
 NT+"cascading between wheels, bucket reuse and coincident expirations depend on particular delays and schedules.",
 W+[C+"heap/heap.go",C+"list/list.go"],[("hierarchical wheels with re-insertion on expiry","timing_wheel.go add/advance, bucket.go flush"),("delay queue of buckets","timingwheel/delayqueue.go")],[("buckets/currentTime/overflowWheel","wheel state","TimingWheel")],["which tasks ran and when, under a controlled scheduler and clock"])
p("T04","Stopping a timer is decisive",
 "If stop answers true the task was pending and never runs afterwards; a timer stopped successfully cannot be stopped again. A stop made while the timer is pending and untouched by a concurrent expiry answers true; once the task has been started, or stopped, it answers false. Stopping one timer never disturbs another and never blocks forever.",
 ["schedules","histories"],"every interleaving of stops with expirations, cascades and other timers",
 NT+"the race between stop and expiry needs particular schedules.",
 W,[("bucket pointer checked under the bucket lock","bucket.go remove/flush, Timer.Stop")],[("b","bucket holding the timer","bucket.go Timer")],["stop results and later runs"])
p("T05","A cancelled timing wheel shuts down cleanly",
 "When its context is cancelled the wheel's run loop returns without panicking, whatever expires at the same moment, and leaves no goroutine of its own behind. Scheduling or stopping timers before, during or after the shutdown never blocks and never panics. No waiting task is run once the loop has returned, except one that was due within a tick of being scheduled.",
 ["schedules","fault_sequences"],"every point at which cancellation can arrive and every interleaving with expirations and new timers",
 NT+"shutdown is never exercised.",
 W,[("context checked in the loop and the waiting goroutine","Run, take, channel")],None,["return of Run, leftover goroutines, pending calls"])
p("T06","A recurring schedule runs once for each time it names",
 "A recurring function runs once for each time its schedule names, in that order and until the schedule ends with the zero time, each within one tick before and after the named time once nothing else is left to run. A schedule that names no first time starts nothing. The schedule is asked for the next time from the previous named time, so no drift accumulates, and stopping the timer between runs ends the recurrence.",
 ["histories","schedules"],"every schedule (dense, sparse, past, ending) and stop moment",
 NT+"recurrence spans many ticks and wheels.",
 W,[("task re-inserts its own timer before running the function","timing_wheel.go ScheduleFunc")],None,["run times and arguments given to the schedule"])
G="gorm_tools/"
p("D01","Split insertion stores every record once, in order, within limits",
 "Inserting any number of records in pieces stores every record exactly once, in the given order, each with all of its own fields under their own column names and nothing from other records, whatever differences there are in which fields the records carry (an absent field is stored as null). No statement carries more than 65000 values, and an empty list touches nothing. At the first failing statement insertion stops and the failure is reported, a duplicate being reported as such, with exactly the earlier pieces stored.",
 ["inputs","fault_sequences"],"every record count and shape around the split size and every failing statement",
 NT+"splitting needs tens of thousands of values to show, and failures part-way are never injected.",
 [G+"gorm.go"],[("pieces sized by the number of columns","SplitInsertTableRecords"),("column order fixed once per statement","BatchInsertTableRecords")],None,["statements and resulting table contents at the database driver"])
p("D02","A batch update gives each row exactly its own new values",
 "Updating many rows by id sets exactly the given fields of exactly the given ids to that id's own values and changes nothing else, for any number of rows, in statements of at most 500 rows. Rows whose field sets differ are refused with an error, always and before anything is changed. An empty update does nothing, and the first failing statement stops the update and is reported.",
 ["inputs","fault_sequences"],"every map of ids to field updates around the split size, consistent or not, and every failing statement",
 NT+"map iteration order makes wrong pairings and missed inconsistencies appear only sometimes.",
 [G+"update.go"],[("CASE expression pairing each id with its value","BatchUpdateTableFieldWithoutVersionByID"),("pieces of 500 ids","SplitUpdateTableFieldWithoutVersionByID")],None,["statements and resulting table contents at the database driver"])
p("D03","By-id and by-condition changes touch exactly the matching rows",
 "Deleting, updating or soft-deleting by id or ids, or updating by condition, changes exactly the rows that match (none for an empty id list) and in them exactly the given fields; an update without any condition is refused. Soft deletion sets only the deletion and update times, to the current time. Every database failure is returned to the caller.",
 ["inputs","fault_sequences"],"every table content, id list (empty, duplicate, missing ids) and update map",
 NT+"no test touches a database.",
 [G+"gorm.go"],[("where clause on id or condition","DelByTableNameAndId, UpdateByTableNameAndId(s), UpdateByTableNameAndWhere, SoftDelByTableNameAndId, InsertToTable")],None,["statements and resulting table contents at the database driver"])
U="help/utils/"
p("U01","A resumed chunked upload is assembled exactly or refused",
 "When assembling an uploaded file succeeds, the result is exactly the concatenation, in chunk-number order from zero, of the latest content stored for each of that file's chunks, whatever order they arrived in and however often they were re-sent. This holds when assembly is repeated or follows an assembly interrupted at any point; a gap in the chunk numbers or an unreadable chunk makes it fail and leaves no result. Chunks of other files never mix in, and removing one upload's chunks leaves all others and every finished file.",
 ["histories","crash_points","fault_sequences"],"every order, repetition and omission of chunks over several uploads, with assembly interrupted and retried",
 NT+"crashes, retries and gaps are histories no test builds.",
 [U+"breakpoint_continue.go"],[("one file per chunk in a directory per upload","BreakPointContinue/makeFileContent"),("assembly by chunk number","MakeFile")],None,["files under a scratch working directory"])
p("U02","Zipping and unzipping keeps every file and stays in its directory",
 "Unpacking an archive made from any list of files, however many, recreates each file, under its renamed path, with identical content, and reports exactly the paths it wrote. Unpacking never creates or changes anything outside the destination directory: an archive naming such a path is refused with an error. A missing source file, an unreadable archive, and an archive that cannot be written in full are reported as errors.",
 ["inputs","histories"],"every set of files, contents and entry names, hostile ones included",
 NT+"hostile entry names are never tried.",
 [U+"zip.go"],[("entry path joined below the destination and checked","Unzip"),("path rewriting","ZipFiles")],None,["files under a scratch directory"])
p("U03","File operations act as on an ideal file tree",
 "Copying makes the destination's content equal the source's whatever was there before; moving makes the source disappear and the destination hold its content, creating missing parents; directory creation, deletion, scanning (every file below, each once) and the existence and kind tests agree with the tree, in which symbolic links are followed to what they name but are themselves what is moved, deleted and listed. A failing operation reports an error and changes nothing it was not asked to. Whole-file digests depend on content alone.",
 ["histories","inputs"],"every history of operations over a small tree of files, directories and symbolic links, including overwriting, missing paths, dangling links and loops",
 NT+"overwriting shorter content, missing parents and kind conflicts are never tried.",
 [U+"files.go"],[("direct use of the operating system's calls","CopyFile, FileMove, CreateDir, MkDir, DeLFile, ScanDir, PathExists, FileExist, IsDir, IsFile, FileMd5")],None,["scratch directory contents and results"])
p("U04","CSV rows are appended and read back exactly",
 "Each successful CSV write appends exactly the given row to the file, creating it if needed and leaving earlier rows untouched. Reading the file back returns every row written, in order, with every field intact, whatever commas, quotes, spaces or line feeds it contains. A missing or malformed file reads as nothing.",
 ["histories","inputs"],"every sequence of non-empty rows of any widths and field contents without carriage returns",
 NT+"the row argument is never exercised.",
 [U+"csv.go"],[("append at end, quoting by the csv encoder","WriteCsv"),("csv decoder","ReadCsv")],None,["rows read back from a scratch file"])
p("U14","File helpers leave no file open",
 "When a helper that works on files (copying, digests, CSV reading and writing, chunked upload and assembly, zipping and unzipping) returns, every file it opened is closed again, whether it succeeded or failed and at whatever step. Unpacking and assembling any number of files need only a fixed number of open files at a time.",
 ["histories","fault_sequences"],"every history of operations, failing ones and ones cut short included",
 NT+"a file left open shows only after very many calls.",
 [U+"files.go",U+"csv.go",U+"zip.go",U+"breakpoint_continue.go"],[("closing put off to the return, or done at the end of each turn of a loop","CopyFile, FileMd5, ReadCsv, WriteCsv, MakeFile, BreakPointContinue, ZipFiles, Unzip")],None,["descriptors of the process that name files in a scratch directory"])
p("U05","Encryption round-trips and decryption of anything else is an error",
 "Decrypting what was encrypted under the same key returns exactly the original bytes, for every content length, and never changes the caller's memory around the input. A key of an unsupported size is refused, and decrypting data that is not a whole number of blocks, or whose padding cannot be right, returns an error rather than panicking. Encryption is a function of content and key alone.",
 ["inputs","histories"],"every content length, spare capacity of the caller's buffer, key size and kind of damage",
 NT+"only particular lengths and buffer layouts expose it.",
 [U+"md5.go"],[("padding to the block size","pkcs7Padding/pkcs7UnPadding"),("CBC mode","AesEncrypt/AesDecrypt")],None,["results and caller-visible memory"])
p("U06","Masking never reveals the protected part and never panics",
 "Masked phone numbers, identity and bank-card numbers keep every character outside the masked range in place and show only mask characters inside it; a text not longer than the end of its masked range is returned as it is. Masked names show at most the documented first and last characters, never the whole name, counting characters and not bytes. No masking function panics on any text.",
 ["inputs"],"every length and position, in single- and multi-byte text, of every masking function",
 NT+"boundary lengths and multi-byte names are never tried.",
 [U+"strings.go"],[("position ranges computed from length","HideStar, MaskMobile, MaskCustomerName, MaskIDCard, MaskBackCard")],None,["function results"])
p("U07","Random strings have the asked length and alphabet",
 "A random string has exactly the asked number of characters, each from the asked class (digits, lower case or upper case), or from their union for any other class number. Every character of the class can occur, and for the union every class can. Size zero gives the empty string.",
 ["inputs"],"every size and class number, over the generator's randomness",
 NT+"nothing about the alphabet is asserted.",
 [U+"rand.go"],[("class table and random index","RandStr")],None,["function results"])
p("U08","Shell execution reports output exactly on success and errors on failure",
 "Running a command text returns exactly what it wrote to standard output when it ends successfully, and otherwise an error carrying exactly what it wrote to standard error and no output. Commands see no input of the caller. Concurrent or successive executions never mix their outputs.",
 ["inputs","histories","schedules"],"every sequence and overlap of succeeding and failing command texts with output on either stream",
 NT+"failure exits and mixed streams are never tried.",
 [U+"cmd.go"],[("separate buffers per execution","ShellExec")],None,["function results"])
p("U09","Path and URL guards let nothing out",
 "A text accepted as a path of the same site begins with a slash and leads, when a browser resolves it on a page of the site, to that site: it names no other host and no scheme, whatever spaces, control characters, tabs, line breaks or backslashes it has. Every printable text of a slash followed by anything but a slash or backslash is accepted. A name not reported as malicious stays in the directory it is joined to, and every relative name without two adjacent dots is not reported.",
 ["inputs"],"every text, over all kinds of separators, dots and ignored characters",
 NT+"the guards are only as good as the one text an attacker finds.",
 [U+"files.go"],[("tests of the first two bytes, of absoluteness and of adjacent dots","IsSameSiteURLPath, IsMaliciousPath")],None,["function results"])
p("U10","Text codecs are exact and lose nothing",
 "Base64 encoding gives exactly the padded standard form of the content, the same from text and bytes, and every decoder gives back exactly the content of such a form. Numbers are written in plain decimal and read back as themselves over the whole range; a text that is no decimal number reads as zero. A map of numbers written as JSON reads back as the same map, equal maps are written alike by every writer and different ones differently; a text that is no JSON object reads as the empty map.",
 ["inputs","histories"],"every content, number and map, through every pair of functions",
 NT+"round trips quantify over all contents.",
 [U+"base64.go",U+"ints.go",U+"strings.go",U+"maps.go"],[("delegation to the standard encoders with errors dropped","Base64*, IntToString, StringToInt*, *JsonString*")],None,["function results"])
p("U11","Text helpers build and take apart names exactly",
 "A built URL is one slash, the prefix without outer slashes and then /key/value for each pair in order, leaving out pairs with an empty key or the value 0 and a last value without partner, without a slash at the end. The suffix of a name is what follows its last separator, nothing if there is none; whether a name with an extension is an image is decided by that extension, whatever its case. Making a first letter upper case changes nothing else. A content is recognised as text, image, PDF or video by its first bytes and as no two of these. A switch is on unless it was last set off, and the day's directory names the local date. Cutting a text from one character position up to another gives exactly those characters, and nothing that is not in the text. The current directory is the absolute directory of the running program.",
 ["inputs","histories"],"every text, list of parameters, content start, switch history and day",
 NT+"each depends on boundary positions (first, last, empty, repeated separators) in any script.",
 [U+"url.go",U+"files.go",U+"strings.go",U+"maps.go",U+"times.go",U+"runtime.go"],[("trimming, splitting and joining of texts","BuildUrl, GetSuffixName, IsImage, UpperFirst"),("signature lookup","Is*File"),("default of a missing switch","GetSwitchFromOptions")],None,["function results"])
p("U12","Every digest helper gives the MD5 of the whole content",
 "The digest of a text, of a stream read in any pieces and of a file is the MD5 of exactly its content in lower-case hexadecimal, the same whichever function computes it. A stream or file that cannot be read to its end has no digest: the file's error is returned, and for a stream the empty text.",
 ["inputs","fault_sequences"],"every content length around the block size, every division into reads and every read failure",
 NT+"lengths around block ends and failing readers are never tried.",
 [U+"md5.go",U+"files.go"],[("copying into the hash","Md5, Md5Crypt, ComputeFileMD5, FileMd5")],None,["function results"])
p("N02","Numbers shown to people are right to the last digit shown",
 "A formatted file or byte size differs from the true size by at most half a unit of the last digit shown; a size that is not negative is shown in a unit of which it has at least one and at most 1024 (the smallest and the greatest unit excepted), with two digits or more. Rounding to a number of decimals (or, if negative, of places before the point) gives a nearest such number, for negative numbers too, and a whole number rounded to no decimals is itself at any magnitude.",
 ["inputs"],"every size and every dyadic number around powers, ties and unit boundaries",
 NT+"floating-point boundaries show only for particular numbers.",
 [U+"files.go",U+"math.go"],[("division by powers of 1024, logarithm for the unit","FileSize, FormatByte"),("scaling by a power of ten","Round")],None,["function results"])
p("U13","Reload hangs up the parent process, and says so truthfully",
 "Asking for a reload sends the hang-up signal exactly once to the parent of the calling process and no signal to any other process. It reports success exactly when the signal was sent; when the means to send it are missing or fail it reports an error and nothing was sent.",
 ["histories","faults"],"every environment of the calling process and every repetition",
 NT+"what a signal does shows only in another process.",
 [U+"sys.go"],[("signal to the parent's id","Reload")],None,["signals received by the processes","function results"])
p("N01","Power-of-two, bit and splitting helpers are exact for all widths",
 "For every unsigned width, the power-of-two test is true of exactly the powers of two; rounding up (for a positive number whose result fits) gives the least power of two not below it, rounding down the greatest not above it; and the last set bit is the position, from one, of the highest set bit, zero having none. Splitting n into at most m parts gives a part size of n divided by m rounded up and a last part such that full parts plus the last make exactly n (zero splits into nothing). The binary logarithm of a positive whole number is the greatest exponent whose power of two does not exceed it, exactly; of a positive floating-point number it is its logarithm, exact at powers of two. Minimum, maximum and absolute value agree with the order of the type.",
 ["inputs"],"every value of every unsigned width and every pair for splitting",
 NT+"boundary values of each width matter.",
 ["common/math/math.go"],[("bit tricks over the highest set bit","math.go"),("ceiling division","Split")],None,["function results"])
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../properties.jsonl","w").write("\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n")
print(len(P))
