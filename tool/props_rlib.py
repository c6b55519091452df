prop('R01', 'Growable arrays never touch memory beyond their recorded capacity',
     'Whatever sequence of add, insert, replace, move, delete, expand and set-length operations is applied, a growable array reads, writes, moves and hands out only elements inside the storage it has allocated. Its recorded capacity always matches the allocation and its length never exceeds the capacity.',
     ['inputs', 'histories'], 'all operation sequences, indexes and element sizes', 'Unit tests use small in-range indexes; a boundary element or a growth boundary is never hit.', ['rlib/rarray.c', 'rlib/rarray.h'],
     [('growth', 'rlib/rarray.c r_array_checkexpand'), ('operations', 'rlib/rarray.c r_array_*')],
     'backward must-analysis of "capacity >= needed" plus linear entailment', 'Each access to the element store in each array operation yields an obligation (end offset <= capacity at that point); it is discharged along every backward path by tests, capacity stores, or the proved postcondition of a callee. Writes of bookkeeping fields outside the array module are reported.')
prop('R02', 'Chunked arrays address only chunks they have allocated',
     'Whatever sequence of operations is applied, a chunked array forms element addresses only inside chunks it has allocated, from the chunk number and in-chunk offset of the same index. Its capacity accounts for exactly the elements of its chunks and its length never exceeds it.',
     ['inputs', 'histories'], 'all operation sequences, indexes and element sizes', 'Unit tests stay inside a few chunks.', ['rlib/rcarray.c', 'rlib/rcarray.h', 'rvm/rvmreg.c'],
     [('growth', 'rlib/rcarray.c r_carray_checkexpand'), ('addressing', 'rlib/rcarray.h r_carray_slot')],
     'linear entailment over chunk arithmetic with must-analysis', 'Chunk additions must add exactly the elements per chunk to the capacity; each element address must use idx>>bits and idx&mask of one index that is entailed to be below the capacity.')
prop('R03', 'Intrusive lists stay consistently linked in both directions',
     'Every list primitive (initialise, insert between, insert at head or tail, unlink, delete, splice) leaves exactly the forward and backward links of a consistent circular list: the new or removed node is linked or bypassed in both directions and no other link changes. Navigation (first, last, next, previous) returns the neighbouring node in the named direction and nothing exactly when that neighbour is the list head; the count is the number of nodes. Splicing an empty list changes nothing.',
     ['inputs', 'histories'], 'all lists and operation sequences', 'Tests traverse mostly forward; a wrong backward link shows only on later deletions.', ['rlib/rlist.c', 'rlib/rlist.h'],
     [('primitives', 'rlib/rlist.c r_list_*')],
     'value graph of link cells', 'The set of link cells a primitive writes, and the value left in each at return, are compared with the specified relinking, in any order of statements and through any temporaries. Navigation results are judged per return case.',
     note='Assumes that the neighbours of distinct nodes are distinct cells.')
prop('R04', 'Memory accounting is exact and allocator entry points match their kind',
     'Each library allocation entry point (allocate, zeroed allocate, release, reallocate, array-allocate) is served by the libc function of that kind with at least the requested size; the zeroed allocation clears the whole block. With memory accounting compiled in, the running total changes by exactly the recorded size of the block on every allocation, release and reallocation, and the totals are accessed only while the accounting lock is held, which is released on every return.',
     ['inputs', 'schedules', 'histories'], 'all sizes, call sequences and thread interleavings', 'Single-threaded tests with matched sizes cannot distinguish a leak in the accounting or a race on it.', ['rlib/rmem.c'],
     [('allocator', 'rlib/rmem.c')],
     'lockset analysis and value graph over all paths', 'Dispatch tables are resolved from their initialisers; per return case the net change of the running total is compared symbolically with the recorded header; each access to a total needs the lock in the must-held set.')
prop('R05', 'Reference counts are updated atomically and the last release destroys the object',
     'Every access to a reference count while taking or dropping a reference happens under the object lock, which is released on every return unless the object was destroyed. Taking adds exactly one and returns the new count, dropping subtracts exactly one from a non-zero count and destroys the object exactly when the count reaches zero. The spin lock is acquired only through one successful atomic exchange from free to busy and released by storing free; every library function taking the lock releases it on every return and never re-acquires it while held.',
     ['schedules', 'histories'], 'all interleavings of any number of threads', 'No test runs threads against the counters.', ['rlib/rref.c', 'rlib/rspinlock.c', 'arch/unix/ratomic.c', 'rlib/rmem.c'],
     [('references', 'rlib/rref.c'), ('lock', 'rlib/rspinlock.c')],
     'lockset and value analysis', 'Must/may lockset dataflow over each function that takes the lock; value graph of count updates; path search for returns that skip the update or the destruction.')
prop('R06', 'Zero-terminated key variants behave as the explicit-length operation',
     'Every operation variant that takes a zero-terminated key instead of a key and a length performs the explicit-length operation of the same name with the same arguments and the length of that key, on every path, and returns its result.',
     ['inputs'], 'all keys and containers, all public operations that come in both variants', 'Tests use only one variant of each operation.', ['rlib/rharray.c', 'rlib/rhash.c', 'rlib/rmap.c', 'rvm/rvmcodemap.c', 'rpa/rpacompiler.c', 'rpa/rpavm.c'],
     [('variants', 'functions named *_s')],
     'call-graph and argument correspondence', 'Pairs are found by name and arity over the whole library; the forwarding call must exist on every path, pass argument i as argument i, the length of the key right after it, and its result must be returned.')
prop('R07', 'Keyed collections find exactly what was stored, within their tables',
     'For every key without embedded zero bytes, hash tables and maps store and look up an entry in the bucket selected by the same hash of that key and by the size of the table, which was allocated and initialised for exactly that many buckets. A lookup returns an entry only after a successful comparison of its key, compares every entry of the bucket in the documented direction (head: oldest first, tail: newest first; new entries are appended) and reports a miss only at the end. Map entries are reachable by index only while the index is in range and the entry is not deleted; deleting unlinks the entry from its bucket and from the iteration order, and an added entry always gets the given value, or zeros, never a previous one. Iteration steps through the active entries in insertion order.',
     ['inputs', 'histories'], 'all keys, values and operation sequences', 'Tests use a handful of short keys that seldom share a bucket.', ['rlib/rhash.c', 'rlib/rmap.c', 'rlib/rharray.c', 'rlib/rhash.h', 'rlib/rmap.h'],
     [('hash tables', 'rlib/rhash.c'), ('maps', 'rlib/rmap.c')],
     'value graph, recurrence matching and path search', 'All bucket addresses of the library are enumerated; their index must be hash & mask of the same table. The hash recurrences of map functions are compared as loop recurrences (step, start, bytes covered). Lookups are checked by a path search for rounds that skip the comparison, and per return case for the comparison that justifies it.')
prop('R08', 'UTF-8 and UTF-16 coders are bounded and follow the standard bit layout',
     'For every input, the UTF-8 and UTF-16 decoders read only bytes before the given end, consume at least one and at most the remaining bytes of a non-empty input and report 0 for an empty one. Every sequence with a lead byte and the right continuation bytes (surrogate pair) is decoded as a whole to exactly its payload bits; anything else yields its first byte. For every character and buffer size, the encoders write exactly the standard byte sequence and report its length, or report 0 and write nothing when the character cannot be encoded or does not fit.',
     ['inputs'], 'all byte sequences, all 32-bit characters, all buffer sizes', 'Tests decode a few well-formed characters; truncated sequences and class boundaries are not sampled.', ['rlib/rutf.c'],
     [('UTF-8', 'rlib/rutf.c r_utf8_*'), ('UTF-16', 'rlib/rutf.c r_utf16_*')],
     'trace-partitioned abstract interpretation (bit provenance, intervals)', 'All traces of each coder are interpreted over unknown bytes; a trace carries intervals and known bits. Byte accesses must be covered by the remaining length known at that point, and results must equal the documented arrangement of source bits. Encoders are interpreted once per character class and fit/no-fit.',
     note='Assumes less than 2 GiB of remaining input (the decoders keep the length in an int). Overlong forms and surrogates encoded in UTF-8 are accepted by design.')
prop('R09', 'Case swap is its own inverse',
     'For every character, applying the library\'s case swap (used for case-insensitive matching) to its result gives back the original character. ASCII letters are mapped to the same letter of the other case and all other ASCII characters to themselves, by the case swap and accordingly by the lower and upper mappings.',
     ['inputs'], 'all characters', 'Only a few letters are exercised by tests.', ['rlib/rcharconv.c'],
     [('case mapping', 'rlib/rcharconv.c')],
     'interval partition by abstract interpretation', 'The mapping is partitioned into intervals with a constant distance; the image of every interval must be mapped back by the opposite distance.')
prop('G01', 'The C libraries keep no hidden writable state',
     'Apart from the allocation totals and their lock, no function of rlib, rvm, rpa, rex and of the C JSON parser writes an object of static storage duration (a file-scope or function-local static variable or array), and none keeps, returns or passes on the address of a writable one so that another function could. None calls a function of the C library that keeps state between calls (such as strtok, rand, localtime or setlocale). So what an operation does depends only on the objects it is given, and threads that use different objects do not meet.',
     ['schedules', 'histories'], 'all interleavings of threads that use different objects, all histories of other objects', 'Tests run one thread and mostly one object at a time; a result kept in a static buffer is right as long as nobody else uses the function in between.', ['rlib/rmem.c', 'rlib', 'rvm', 'rpa', 'rex', 'rexjson/rexjson.c'],
     [('totals', 'rlib/rmem.c'), ('all functions', 'rlib, rvm, rpa, rex')],
     'effect and escape analysis of static storage', 'For every writable object of static storage duration, every instruction whose operand is derived from its address by address computations is classified: loads and comparisons are fine, stores are violations, and so are calls that may write through or keep the address (decided by analysing the callee argument), keeping it in memory and returning it. Exempt are the integers that r_debug_get_allocmem and r_debug_get_maxmem report, objects only handed to r_spinlock_*, and initialised tables of a structure type that no function stores into.',
     note='The lock discipline of the totals is R04.')
prop('G02', 'Destroying an object releases everything it owns, once',
     'When an object of the libraries is destroyed (or cleaned up by the base object it extends), every memory block and every sub-object that was allocated or created into its fields is released, on every path, by the releaser that belongs to the way it was made: containers whose elements are owned (names, chunks, automaton states, grammar texts, labels, cached records) release every element first. Nothing is released twice and nothing of a destroyed object is touched afterwards. A living object that replaces or clears such a field releases the previous value, and never keeps a field that names a released one. Destroying a base object runs the cleanup function of its own structure, then frees it.',
     ['histories', 'inputs'], 'all states an object can be in when it is destroyed, reopened or given a new value', 'Tests run without a leak checker and destroy objects in one or two of their states.', ['rlib', 'rvm', 'rpa', 'rex'],
     [('destroyers', 'rlib/r*.c *_cleanup, rex/*_destroy, rvm/*_destroy, rpa/*_destroy'), ('base objects', 'rlib/robject.c')],
     'ownership analysis: escape of fresh values into fields, must-release path search', 'Every store of a fresh allocation or creation into a field of a structure makes that field owned; nothing is listed by hand but the destroyers and the element containers. For each owned field a path search in the destroyer looks for a return reached without passing the value of the field to a releaser (directly or through helpers that always release it), null edges excepted. Creators and releasers are matched by kind. Loops over elements must start at the first and run to the recorded number.',
     note='Allocation failures, the paths on which creators give up, map keys, stack elements of the regular expression compiler, and objects the machine keeps in its registers are outside.')
