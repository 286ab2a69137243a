TESTS='The tests replay a few fixed traces at a few sizes and compare totals; '
NOTE='Decided from the compiled IR of the current tree for all inputs and histories within the abstraction described in DESIGN.md; trusts clang, the IR reader and the listed assumptions (evidence file).'
A='libCacheSim/cache/eviction'
P=[]
def add(id,title,statement,q,over,why,files,mech,tech,note=NOTE,na=None):
    d=dict(id=id,title=title,statement=statement,q=q,over=over,why=why,files=files,mech=mech,tech=tech,note=note)
    if na: d['na']=na
    P.append(d)

add('C01','A lookup that asks for no update changes nothing',
 'For every eviction policy, looking up an object with the update flag off never changes anything: not the cached objects, their order, frequencies or queue positions, not sizes or counters, not the ghost or history structures, not the random state and not nested caches. It only reports whether (and where) the object is cached.',
 'every policy, cache state and requested object',['inputs','histories'],
 TESTS+'they hardly use peeking lookups, and a stray update shows only in later evictions.',
 ['libCacheSim/cache/cache.c',A],[('find function of each policy',A)],
 'effect analysis of find specialised to update=false (sparse conditional constant propagation over IR)')
add('C03','Every request is a single lookup that hits, or misses and inserts',
 'Handling one request performs exactly one updating lookup of the requested object and counts exactly one request. It reports a hit exactly when that lookup found the object; on a miss the object is inserted exactly once if it is admitted (admission is always asked first), otherwise not at all, and on a hit nothing is inserted or evicted by the shared request path.',
 'every policy, request sequence and cache state',['inputs','histories'],
 TESTS+'a path that double counts, skips insertion in a rare branch or reports the wrong outcome is only seen if the trace drives it.',
 ['libCacheSim/cache/cache.c',A],[('shared request function','libCacheSim/cache/cache.c'),('get function of each policy',A)],
 'path-sensitive typestate exploration of every get operation')
add('C04','Room is made before anything is inserted',
 'An object is inserted while serving a request, or by a prefetcher, only when occupied bytes + object size + per-object metadata <= cache capacity was established after the last eviction, and objects are evicted for room only while that does not hold. Prefetchers additionally insert only objects that are not already cached and only evict for objects that can fit at all, and probe without side effects.',
 'every policy, capacity, object size and request sequence',['inputs','histories','configurations'],
 TESTS+'off-by-metadata or stale-size comparisons overfill the cache only for particular sizes.',
 ['libCacheSim/cache/cache.c',A,'libCacheSim/cache/prefetch'],[('shared request function','libCacheSim/cache/cache.c'),('prefetch and eviction hooks of the prefetchers','libCacheSim/cache/prefetch')],
 'path-sensitive exploration with linear inequalities compared in normal form')
add('C05','Object and byte counts always match the cached objects',
 'For every policy the reported number of objects and the reported occupied bytes describe the same set of cached objects: every object that enters or leaves changes the count by one and the bytes by exactly its size plus the per-object metadata, on every path. A lookup never adds objects, an insertion adds one, an eviction takes one out (policies that evict in batches: at least never adds), and a cached object\'s stored size never changes.',
 'every policy, operation sequence and object size',['inputs','histories'],
 TESTS+'counters are compared only indirectly; an update missing on one rare path drifts silently.',
 ['libCacheSim/cache/cache.c',A],[('insert/evict/remove primitives','libCacheSim/cache/cache.c'),('object and byte counters, getters of composite policies',A)],
 'path-sensitive counter pairing and net-change analysis over the call graph')
add('C06','Deleting an object removes exactly that object and says so',
 'For every policy that supports deletion, deleting an object id takes out exactly the cached object with that id and returns true, or, when it is not cached (including when only a ghost or history entry exists), returns false and leaves the number of cached objects unchanged. Deletion of an absent id never stops the program.',
 'every policy, cache state and object id',['inputs','histories'],
 TESTS+'deletion is hardly exercised, in particular after ghost entries exist.',
 [A],[('remove function of each policy',A)],
 'path-sensitive net-change and return-value analysis of every remove operation')
add('C07','Cached objects stay in their queues; freed objects are never reachable',
 'In every policy that keeps objects in queues or heaps, an object that leaves the cache is taken out of its queue (or heap) first, an object that enters is put into exactly one, and moves keep it in one; memory of an object that left is never read or written again, and no scan position kept between operations is left pointing at it. The shared queue operations keep forward and backward order, head and tail consistent for queues of any length.',
 'every policy, operation sequence and queue length',['inputs','histories'],
 TESTS+'dangling links need specific queue positions (single element, head, tail, scan position) combined with deletion or eviction to show, and usually do not crash.',
 ['libCacheSim/cache/cacheObj.c',A,'libCacheSim/dataStructure/pqueue.c'],[('queue primitives','libCacheSim/cache/cacheObj.c'),('insert/evict/remove of each policy',A)],
 'shape analysis of queue primitives + per-object typestate (link/table/free) along all paths')
add('C18','Simulations that run concurrently do not influence one another',
 'When several simulations run in parallel threads, each gives the result it would give alone: code that a worker can reach changes no process-wide state except state that only feeds progress reports and logs, calls no library function with hidden shared state (rand, strtok, ...), writes through shared simulation parameters only the result entry of its own work item (or under the lock), and seeds its thread\'s random state with a constant before its first cache operation. The launcher prepares entry k before it queues work item k, changes nothing shared after work is queued, and waits for all workers before freeing shared state or returning.',
 'every number of threads, schedule, set of caches and trace',['schedules','configurations'],
 TESTS+'a race or shared static shows only under particular interleavings, and the results stay plausible.',
 ['libCacheSim/profiler/simulator.c','libCacheSim/cache'],[('simulation workers and launchers','libCacheSim/profiler/simulator.c'),('per-thread random state','libCacheSim/utils/include/mymath.h')],
 'effect analysis of everything reachable from thread entry points + forward slices of shared globals + ordering of the launcher')
add('C19','Simulation accounting counts every request exactly once',
 'In the multi-cache simulator and in the command-line simulation loop, every valid request read from the trace is handed to the cache exactly once before the next one is read, and counts either as warm-up (only the warm-up count changes) or as measured (request count +1, request bytes + its size, and miss count +1 and miss bytes + its size exactly when the cache reported a miss). In the multi-cache simulator the warm-up lasts exactly the given fraction of the requests (or the given time) and nothing counts as warm-up after the first measured request. Results start from zero, and the final object and byte counts in a result are those the cache itself reports, and each result carries the size of the cache that was simulated for it.',
 'every trace, warm-up setting, policy and size',['inputs','configurations'],
 TESTS+'an off-by-one at the warm-up boundary or a skipped request in a rare branch changes totals only for particular traces.',
 ['libCacheSim/profiler/simulator.c','libCacheSim/bin/cachesim/sim.c'],[('simulation worker','libCacheSim/profiler/simulator.c'),('command-line loop','libCacheSim/bin/cachesim/sim.c')],
 'path-sensitive counter typestate per request interval (counters recognised in memory or registers)')
SETUP='python3 -m lcs.build core && python3 -m lcs.build core SUPPORT_TTL && python3 -m lcs.build bin_cachesim'
add('C20','Results depend only on trace, configuration and seed',
 'Apart from the seed that a command-line tool draws when it starts, what a simulation does never depends on the wall clock, process identity, an unseeded random source, the addresses at which memory was allocated, or a value that was never set: clock values reach only diagnostics, unrelated addresses are never ordered or used as numbers, no instruction uses an undefined value on a feasible path, and a policy, reader, prefetcher or other structure starts with every field that is ever read set (directly, by clearing, or from the default parameter string) before it is first read.',
 'every trace, configuration and allocation pattern',['inputs','configurations'],
 TESTS+'uninitialised memory is usually zero in a short test, and clock or address dependence shows only between runs.',
 ['libCacheSim/cache','libCacheSim/traceReader','libCacheSim/profiler','libCacheSim/dataStructure'],[('creation functions of policies, readers and prefetchers','libCacheSim/cache/eviction'),('logging clock','libCacheSim/include/libCacheSim/logging.h')],
 'forward slices of clock/identity sources, must-assign dataflow over creation functions, path-sensitive undefined-value tracking')
R='libCacheSim/traceReader'
add('C14','Every field of a trace record is decoded as its format documents',
 'For every binary trace type with a fixed record layout, reading a record gives each request field exactly the bytes the layout assigns to it (offset, width, sign, bit packing) and no other field any record data; the reader consumes exactly one record of the documented size; a stored next-access time of -1 or INT64_MAX means never again and any other value is kept; a record is passed over only when its size is zero, zero-size requests are ignored and the reader reads forward. For format-string traces each field is read at its own offset with the documented width and sign of its format character. A trace type never reads as another one, also after the reader is cloned.',
 'every record content, trace type and format string',['inputs','configurations'],
 TESTS+'sign extension, narrow fields and rarely used layouts need values the sample traces do not contain.',
 [R],[('readers of each trace type',R+'/customizedReader'),('format-string reader',R+'/generalReader/binary.c'),('dispatch and set-up',R+'/reader.c')],
 'bit-provenance dataflow from the record bytes to every request field, compared with a table of layouts')
add('C15','A trace ends exactly once: complete records, in bounds, up to the cap',
 'Reading a trace delivers each complete record and then reports the end: a request is marked valid exactly when the read reports success; no byte outside the mapped file or outside the decompressed data is ever decoded as part of a record, an incomplete last record is the end of the trace, and compressed traces lose no data at their end; once the number of requests read reaches a positive cap no further record is delivered, and every record delivered counts exactly one request.',
 'every trace length, including truncated files, and every cap',['inputs','configurations'],
 TESTS+'the sample traces are complete and capless runs do not reach the boundary cases.',
 [R],[('read_one_req and per-type readers',R+'/reader.c'),('decompressor',R+'/generalReader/zstdReader.c')],
 'typestate of request validity + dominating bounds comparisons in normal form + counter pairing per path')
add('C16','Rewinding, cloning, peeking and repositioning keep a reader consistent',
 'Resetting a reader puts back every piece of reader, decompressor and sampler state that reading changed, so that reading again gives the same requests. A cloned reader is set up from the same path, type and parameters and starts at the beginning. Each reader option comes from the parameter of the same name. Every repositioning of an uncompressed binary reader leaves the offset on a record boundary. Looking at the first or the last request leaves the reader where it was.',
 'every trace type, reader configuration and reading history',['inputs','histories','configurations'],
 TESTS+'they rewind after full reads of a few traces; sampler, repeat counters and compressed state are hardly rewound.',
 [R],[('reset_reader, clone_reader and repositioning',R+'/reader.c'),('decompressor state',R+'/generalReader/zstdReader.c')],
 'mutated-state versus restored-state effect analysis over all paths + symbolic alignment of offsets')
add('C02','Object ids and byte quantities keep 64 bits everywhere',
 'Two different object ids are never treated as one and no byte quantity wraps because a copy was narrowed: object ids, object sizes, sums of object sizes and cache sizes are carried, stored, compared and printed with all 64 bits through the trace readers, the cache, every eviction, admission and prefetch policy, the simulator and the trace tools, and are never produced from a narrower number. Exempt are hashing and indexing, diagnostics, and the 32-bit size field of the oracleGeneral output format.',
 'every object id, object size and cache size up to 63 bits',['inputs','configurations'],
 TESTS+'ids and sizes in the sample traces fit in 32 bits, so a narrowed copy changes nothing there.',
 ['libCacheSim/cache','libCacheSim/traceReader','libCacheSim/profiler','libCacheSim/bin'],[('object metadata','libCacheSim/include/libCacheSim/cacheObj.h'),('id and size maps of the prefetchers','libCacheSim/cache/prefetch')],
 'whole-program exact-copy dataflow (field-based, interprocedural) with narrowing sites as violations')
add('C08','The object index is an exact map',
 'The chained hash table of the caches behaves as a map from object id to object: a lookup returns the stored object with that id or NULL when there is none, and changes nothing; inserting adds exactly that object to the bucket its id selects, keeping every other object, and raises the object count by one; deleting takes out exactly that object, keeps the rest of its bucket, lowers the count by one only when something was removed, reports whether it was, and releases the object only when the table owns it; growing the table moves every object to its new bucket once and loses none; iteration visits every object exactly once even when the visitor frees it; a random pick is a stored object. Every operation selects the bucket by the same function of id and current table size. Assumes one object per id (callers insert after a failed lookup).',
 'every bucket length, position of the object in its bucket, table size and history of operations',['inputs','histories'],
 TESTS+'with the default table size buckets rarely hold more than two objects and growth is rare, so chain handling and rehashing are hardly exercised.',
 ['libCacheSim/dataStructure/hashtable'],[('find, insert, delete, expand, foreach','libCacheSim/dataStructure/hashtable/chainedHashTableV2.c')],
 'shape analysis of bucket chains (materialise/fold list segments to a fixpoint) against the abstract map')
add('C10','Only oracle policies use the future, and always with current knowledge',
 'An online policy decides without knowing the future: in cache code outside the oracle policies (those named after Belady, the experimental GLCache and MClock) the next-access time of a request or object is only copied from the request into the object, or used where a policy parameter selects its oracle mode, and no cache code reads from a trace. An oracle policy that chooses victims by next-access time records, on every insertion and on every updating lookup that finds the object and keeps it, the next-access time of the current request in what that choice reads (object field and priority in the queue); Belady\'s priority queue puts the object needed furthest in the future first and Belady evicts the object at its head.',
 'every policy, parameter setting and request history',['inputs','histories'],
 TESTS+'a leak of future knowledge makes results look plausibly better, and a stale next-access time only plausibly worse.',
 ['libCacheSim/cache','libCacheSim/dataStructure/pqueue.c'],[('oracle policies','libCacheSim/cache/eviction/Belady.c'),('sampled oracle','libCacheSim/cache/eviction/BeladySize.c'),('generic lookup and insertion','libCacheSim/cache/cache.c')],
 'forward value flow of next-access times + constant propagation per policy mode + must-store path analysis of insert/find')
add('C12','A cloned cache is a fresh cache with the same configuration',
 'Cloning a cache, with the same or another size, gives a cache that the same policy initialiser creates from the original\'s configuration: the requested (or same) size, the same default time to live, object metadata counted exactly when the original counts it, the original\'s parameter string, or none when the original had none, a clone of the original\'s admission policy and of its prefetcher exactly when it has them (the prefetcher for the new size), and the same precomputed stack distances. So every policy initialiser registers itself, creates its cache with the common parameters and the parameter string it was given (kept whole or refused, never shortened, and never changed later), keeps no pointer to the caller\'s string, and charges no per-object metadata when told not to; and every admission policy and prefetcher keeps a copy of its parameter string and clones itself from it.',
 'every policy, admission policy, prefetcher, size and parameter string',['configurations'],
 TESTS+'a clone that silently lost an option gives plausible miss ratios for another configuration.',
 ['libCacheSim/cache/cache.c',A,'libCacheSim/cache/admission','libCacheSim/cache/prefetch'],[('cloning','libCacheSim/cache/cache.c'),('policy initialisers',A),('admission policies','libCacheSim/cache/admission'),('prefetchers','libCacheSim/cache/prefetch')],
 'last-writer path analysis of parameter blocks + constant propagation + value provenance of strings and clone operations')
add('C17','Trace sampling keeps exactly the sampled records, on every pass',
 'With a spatial sampler a reader returns exactly the records whose object id hashes (over all its bytes) to a multiple of the inverse sampling ratio, so that either all or none of the requests of an object are kept, in every pass, clone and thread; with a temporal sampler every n-th record is kept, n being the inverse ratio. Each record read is put to the sampler exactly once, the sampler stays in place afterwards, and a reader, a cloned reader and a reset reader each use their own sampler with fresh counters and the same ratio. A sampler is only created for ratios in (0,1], with the truncated inverse of the ratio, and a ratio given to cachesim or the trace tools reaches the sampler unchanged.',
 'every trace, sampling ratio, and history of reads, resets and clones',['inputs','histories','configurations'],
 TESTS+'sampling is used by no stable test beyond one fixed ratio, and a biased or inconsistent sample still gives plausible miss ratios.',
 [R+'/sampling',R],[('samplers',R+'/sampling/spatial.c'),('read_one_req',R+'/reader.c'),('tools','libCacheSim/bin/cli_reader_utils.c')],
 'path analysis of the sampling decision and counter + typestate of the record/sampler protocol in the reader + provenance of the ratio')

add('C11','Objects enter the cache only as admission and size allow',
 'A missed object is let into a cache exactly when the cache has no admission policy or its admission policy, asked once about that request, admits it, and object size plus per-object metadata is at most the capacity. Policies with limits of their own never let in what this refuses, and refuse more only for objects larger than a part of the cache that insertions fill. The admission policies decide by their rule: size admits exactly objects smaller than the threshold, prob admits when one random draw is below the configured probability, bloom-filter admits exactly ids it has been asked about before; none changes the request. Every documented admission name selects the policy of that name, and other names are errors.',
 'every policy, admission policy, parameter, request history and object size',['inputs','histories','configurations'],
 TESTS+'no stable test uses an admission policy, and a wrong boundary or a bypassed policy still gives plausible miss ratios.',
 ['libCacheSim/cache/cache.c','libCacheSim/cache/admission',A,'libCacheSim/include/libCacheSim/admissionAlgo.h'],[('shared admission function','libCacheSim/cache/cache.c'),('admission policies','libCacheSim/cache/admission'),('can_insert of each policy',A)],
 'path-sensitive decision analysis of boolean functions (linear facts and call results known at every exit)')
add('C13','A name selects the component it names, with its whole interface',
 'The name given for an eviction policy, prefetcher, admission policy or trace type selects exactly the component it stands for, without regard to case, and never another; a name that stands for nothing is refused. Automatic detection returns the trace type the file name carries, for any file name. Every policy, prefetcher and admission policy comes out of its initialiser with its whole interface in place on every path: a policy can be looked up, asked for a request, inserted into, evicted from, deleted from, cloned, freed and asked for its size and (unless it documents that it cannot) its next eviction candidate; a prefetcher can prefetch, observe, be cloned and freed; an admission policy can admit, be cloned and freed. Printed trace type names match the types.',
 'every documented name and every parameter-dependent path of every initialiser',['inputs','configurations'],
 TESTS+'they construct components directly by their C functions, so a name that selects the wrong policy, or an operation that is not set up, goes unseen until a user (or a clone, or a composed policy) calls it.',
 ['libCacheSim/bin/cachesim/cache_init.h','libCacheSim/bin/cli_reader_utils.c','libCacheSim/include/libCacheSim/prefetchAlgo.h','libCacheSim/include/libCacheSim/admissionAlgo.h',A,'libCacheSim/cache/prefetch','libCacheSim/cache/admission'],[('create_cache','libCacheSim/bin/cachesim/cache_init.h'),('trace_type_str_to_enum, detect_trace_type','libCacheSim/bin/cli_reader_utils.c'),('initialisers',A)],
 'must-assignment dataflow over initialisers; constant propagation of each documented name through the name-to-component functions')
add('C24','The prefetcher sees every lookup, request and eviction exactly once',
 'When a cache has a prefetcher, the prefetcher is told of every lookup that updates the cache exactly once, with the request and whether the object was really present (a lookup that asks for no update is not reported); it is asked to prefetch exactly once per request, after the request has been looked up, evicted for and inserted; and each object that is evicted is reported exactly once, after it has left the cache, with the id and size it had. A cache without prefetcher, or a prefetcher without a hook, is served the same. This holds for every eviction policy that keeps its objects in its own index: all of its updating lookups and all of its evictions go through the shared functions that report them.',
 'every policy, prefetcher, request history and eviction',['inputs','histories','configurations'],
 TESTS+'only one policy is tested with prefetchers, so a policy whose evictions or lookups are not reported only leaves the prefetcher with a wrong picture of the cache.',
 ['libCacheSim/cache/cache.c',A,'libCacheSim/include/libCacheSim/prefetchAlgo.h'],[('shared lookup, request and eviction functions','libCacheSim/cache/cache.c'),('evictions and lookups of policies',A)],
 'path-sensitive typestate over hook calls of the shared functions, and must-call analysis over lookup and eviction paths of every policy')
add('C25','An absent object is never dereferenced',
 'Looking up, requesting or deleting an object that is not in a cache is always safe: in every eviction policy, in the shared cache functions, and in prefetchers and admission policies, with or without TTL support and for peeks as well as updating lookups, the pointer that results from looking up the requested object in an index, an inner cache or a side table is read, written or passed on for use only on paths where the object is known to be present.',
 'every policy, lookup mode, request history and residence state (cached, ghost, absent)',['inputs','histories','configurations'],
 TESTS+'whether an absent id reaches the unchecked use depends on lookup mode, ghost state and expiry.',
 ['libCacheSim/cache/cache.c',A,'libCacheSim/cache/prefetch','libCacheSim/cache/admission'],[('shared lookup function','libCacheSim/cache/cache.c'),('lookup and deletion of policies',A)],
 'path-sensitive null-pointer dataflow from lookup results to their uses')
add('C09','A lookup reports exactly the cached objects',
 'A lookup answers "cached" exactly when the object is cached, whether or not it updates the cache: it answers "absent" only when every part of the policy that holds cached objects (its index, or each of its inner caches) was asked for the requested object and does not have it, or has only an entry marked as ghost or history; and it answers "cached" only with the entry that such a part returned (or that was moved within the lookup), never with a ghost, with an entry of a part that is not counted in the cache, or with another object.',
 'every selectable policy with an index or inner caches, lookup mode and residence state',['inputs','histories'],
 TESTS+'a peek that misses objects in one part, or a hit reported for a ghost, shows only in compositions (prefetchers, admission, wrapped policies) and rare states.',
 [A,'libCacheSim/cache/cache.c'],[('lookup of each policy',A)],
 'path-sensitive dataflow: outcomes of index and inner-cache lookups against the answer returned on every path, per lookup mode')
add('C26','Queue sizes match the queued objects',
 'In policies that keep byte or object counts for their own queues (the data and ghost lists of ARC, the segments of SLRU and segmented FIFO, the histories of LeCaR), every operation changes the count of a queue by exactly the sizes plus per-object metadata (or the number) of the objects it puts into that queue minus those it takes out of it, whatever mix of hits, promotions, demotions, evictions and deletions is made, so that the limits decided on these counts concern what is really queued.',
 'every operation and path of every policy with per-queue counts',['inputs','histories'],
 TESTS+'a count that drifts by one deletion or by the metadata size only shifts later decisions and never fails an assertion of the tests.',
 [A],[('queue operations and counters',A)],
 'path-sensitive effect analysis: linear forms of counter updates against queue link effects per queue, with inferred counter/queue pairing')

add('C21','Text traces are read column by column as configured',
 'For csv traces each request field (time, id, size) gets the value of the column configured for it and of no other column: the id as the number in the column when ids are numeric and otherwise as a hash of all bytes of the column, a count column of n meaning n equal requests in total; columns are counted from one in every row. Each read takes exactly one line (and further lines only to pass over requests of size zero when these are to be ignored) and the end is reported only when no line is left. The header line is passed over exactly when the trace has one, at the start and after every rewind, and the configured (otherwise detected) delimiter and header choice are used in every pass; rewinding restarts the parser. Plain-text traces give one id per non-empty line, from the line without its line end. When object sizes are to be ignored every delivered request has size one. Relies on the bundled csv parser to split a line into columns.',
 'every trace content, column assignment, delimiter, header choice and number of passes',['inputs','configurations','histories'],
 TESTS+'the csv samples have one column order, no count column, no empty or zero-size lines and well-formed rows, and are read to the end in one pass.',
 ['libCacheSim/traceReader/generalReader/csv.c','libCacheSim/traceReader/generalReader/txt.c','libCacheSim/traceReader/reader.c'],[('csv callbacks, read, set-up and rewind','libCacheSim/traceReader/generalReader/csv.c'),('plain-text lines','libCacheSim/traceReader/generalReader/txt.c')],
 'path-sensitive typestate and value dataflow over parser callbacks, line reads, set-up and rewind')
add('C22','Basic policies order and evict objects by their rule',
 'FIFO, LRU, MRU, LRU-Prob, Clock and Sieve keep their objects in a queue: a new object is put at its head; a hit moves the object to the head (LRU, MRU; LRU-Prob exactly when its random draw says so) or leaves every object where it is (FIFO, Clock, Sieve); the object evicted is the one at the tail (MRU: the head). Clock: a hit adds one to the object\'s counter unless that is at its maximum, new objects start at zero, eviction moves objects with a count from the tail to the head, each losing one, and evicts a tail object whose counter is zero. Sieve: a hit marks the object, new objects are unmarked; eviction starts where the hand was left (at the tail if nowhere), passes only marked objects, unmarking each, towards the head and on from the tail, evicts an unmarked object and leaves the hand on the one before it; deleting the object under the hand moves the hand to the one before it, and no other deletion moves it. Random evicts a random pick; RandomTwo the one of two random picks that was used no later than the other, the time of use being the request count at insertion and at every hit (RandomLRU keeps it likewise). Size queues every object with its size as priority, renews it on a hit, and evicts the object named by the first entry of its priority queue. FIFO, LRU, MRU, LRU-Prob, Random, RandomTwo and Size report a candidate chosen by the same rule, and asking changes no object and no order.',
 'every sequence of lookups, insertions, evictions, deletions and candidate requests',['inputs','histories'],
 TESTS+'the tests compare miss ratios of a few policies on one trace; deletions, candidates and rare queue states are not driven.',
 ['libCacheSim/cache/eviction/'],[('lookup, insertion, eviction and candidate functions of the basic policies','libCacheSim/cache/eviction/Sieve.c'),('queue and counter of Clock','libCacheSim/cache/eviction/Clock.c')],
 'path-sensitive typestate of queue positions, counters and the hand over the functions installed by each policy')
add('C23','No loop goes round in place',
 'Requests, lookups, evictions, deletions, reading a trace, set-up and analysis do not hang in place: no loop of the library or of its command-line tools can make a round after which everything it decides by is as it was before (its loop variables and the memory its conditions read), since it would then go round for ever, and no loop leaves everything that its ways out depend on unchanged. So every scan moves on to another object, every search changes its range, every wait for room evicts or gives up, and every retry draws anew. (That the number of rounds is bounded is not claimed.)',
 'every input and every state in which a loop is entered',['inputs','histories'],
 TESTS+'a loop that stands still in a rare state (an empty cache, a full bucket, a skipped character) hangs only when that state arises.',
 ['libCacheSim/'],[('all loops of the library','libCacheSim/cache/'),('index chains','libCacheSim/dataStructure/hashtable/chainedHashTableV2.c'),('Sieve candidate search','libCacheSim/cache/eviction/Sieve.c')],
 'loop progress analysis: search for a round whose decisions depend on nothing the round changes')
add('C27','Every parameter sets what it names',
 'Parameter strings ("name=value,name=value") given to eviction policies, admission policies, prefetchers and trace readers configure what they say, for every string. A known name (or one of its synonyms; names are compared without case) sets its own field to its value: never the field of another parameter, never only on some paths, a fraction as a fraction and a number as the plain decimal number. A name the component does not know is refused with an error. Defaults are names the component itself accepts; they are applied first, whatever the user gives replaces them, and parameters the user leaves out keep their defaults; nothing is computed from a parameter before the user\'s value is known and nothing overwrites it afterwards. Parsing (including the request to print the parameters) uses no memory that is not set up yet, and every parameter that is accepted has an effect beyond being printed.',
 'every component with parameters and every parameter string',['inputs','configurations'],
 TESTS+'they pass few parameter strings, mostly complete ones, and a parameter that is lost or mixed up still gives plausible results.',
 ['libCacheSim/cache/eviction','libCacheSim/cache/admission','libCacheSim/cache/prefetch','libCacheSim/bin/cli_reader_utils.c'],[('parameter parsers and set-up of policies','libCacheSim/cache/eviction'),('admission parameters','libCacheSim/cache/admission'),('prefetcher parameters','libCacheSim/cache/prefetch'),('trace parameters','libCacheSim/bin/cli_reader_utils.c')],
 'path-sensitive taint of name and value parts of parameter strings + definite-assignment analysis of set-up functions')
