prop('P01', 'Matching reads input only inside the given range',
     'Executing a match is refused unless start <= input <= end, and then begins reading at the given input position. Input bytes are read only at positions below the end (the decoders are told the exact end), every successful step advances the reading position by exactly the bytes of the character it read and records it once, in an entry that fits the space reserved for the range. The end of input is marked after the last character, and no step goes beyond that mark.',
     ['inputs', 'histories'], 'all grammars, input texts, encodings and ranges', 'Tests match complete, terminated strings, so a read of one byte past the end finds the terminator and goes unnoticed.', ['rpa/rpastat.c', 'rpa/rpastat.h', 'rpa/rpastatpriv.h'],
     [('range set-up', 'rpa/rpastat.c rpa_stat_init, rpa_stat_exec'), ('stepping', 'rpa/rpastat.c rpa_stat_shift')],
     'linear entailment over path facts, must-analysis and writer enumeration', 'Every load through the reading position, and every call that gets it, yields an obligation (position below the end on all paths to it). The capacity of the character stack is proved from its allocation (size recorded together with the buffer) and from the test before its use. All writers of the range and of the character entries are enumerated; only set-up and stepping may be among them.',
     note='Relies on R08 for the number of bytes a decoder consumes.')
prop('P02', 'Match predicates accept exactly the specified characters',
     'A character, range, bitmap or special-character test succeeds exactly when the current position is not the end of input and the character read there equals the given one, lies in the given inclusive range, has its bit set in the given bitmap word, or is denoted by the given special character (. any, t tab, r carriage return, n newline, others themselves). In case-insensitive mode the first three also succeed when the case swap of the character does; no test changes any state.',
     ['inputs'], 'all characters, arguments and modes', 'Tests sample a few characters; range ends, the end of input and the case-insensitive alternative of ranges are not exercised.', ['rpa/rpastat.c'],
     [('predicates', 'rpa/rpastat.c rpa_stat_matchchr, rpa_stat_matchrng, rpa_stat_matchbitmap, rpa_stat_matchspchr')],
     'decision-diagram equivalence of path conditions', 'The condition under which each predicate returns non-zero is built as a decision diagram over canonical comparisons, with all merges and selects resolved, and must equal the diagram of the specification; any order of tests or use of temporaries gives the same diagram.')
prop('P03', 'Match instructions consume exactly what they match',
     'Every entry of the engine\'s instruction table has the number and name of its instruction. Each character, special-character and range match instruction tests its own predicate with its own operand at the current position and moves the position by one character exactly for each successful test: at most once for the plain (NAN) and optional (OPT) variants, for as long as the test succeeds for the repeating variants (MUL, MOP). It reports in R0 the number of characters consumed, or -1 (NAN, MUL) or 0 (OPT, MOP) for none, and sets the flags to zero after a match and otherwise to N (NAN, MUL) or Z (OPT, MOP). The peeking range test and the bitmap tests never move the position and report failure with N and R0 = -1; only the exit-on-bitmap test also stops the machine, exactly on failure.',
     ['inputs', 'histories'], 'all operands, positions and inputs', 'Tests compare whole-grammar results; a wrong flag or count of one variant at the end of input shows only in particular grammars.', ['rpa/rpavm.c', 'rpa/rpavm.h'],
     [('instructions', 'rpa/rpavm.c rpavm_swi_match*'), ('table', 'rpa/rpavm.c rpavm_swi_table')],
     'path search with ghost counter and decision diagrams', 'Handlers are resolved from the registered table. The number of executed steps is expressed through the program\'s own counters (a loop-carried ghost count); the final R0 and flags must equal their specification in that count on every path. Path searches exclude a step without a match, a match without a step, and a repeating variant that stops early.')
prop('P04', 'The result cache reproduces exactly what was computed',
     'A rule result is stored completely (rule, position, result, number of records and copies of those records) in the bucket selected by rule and position, inside the table, or not at all. A lookup uses the same bucket and returns an entry only when its rule, its position and its execution serial are the requested ones and the cache is enabled; every execution begins by invalidating older results, and only invalidation changes the serial. The cache instructions store R0 with exactly the records made by the rule, and restore the result, its flags, the position advanced by that result and, after dropping the records past R_REC, all the records in order.',
     ['inputs', 'histories'], 'all sequences of rule applications and executions', 'A cache defect shows only when two rule applications collide in a bucket or when a state is reused for another input.', ['rpa/rpacache.c', 'rpa/rpavm.c', 'rpa/rpastat.c'],
     [('cache', 'rpa/rpacache.c'), ('instructions', 'rpa/rpavm.c rpavm_swi_setcache, rpavm_swi_checkcache'), ('invalidation', 'rpa/rpastat.c rpa_stat_exec')],
     'value graph, decision diagrams, loop sweeps and writer enumeration', 'Bucket addresses of both operations are compared symbolically and bounded by the table size; the hit condition is a decision diagram that must imply the key comparison; copying loops must visit every element of the range once, in order. All writers of entries and serial in the library are enumerated.')
prop('P05', 'Records describe the matched text',
     'A start and an end record are appended directly after the current record exactly for rules that emit records and when records are wanted, and become the current record. Their rule name, ids, type, position, input pointer and input offset are those of the rule and of the position given, a start record begins with size 0, an end record has exactly the length of the matched text and that length is also entered in its start record; left-recursive rules are marked. Addresses of records are computed only after the record array has grown. Trimming and a failing mandatory rule drop exactly the records after the current one; the latter also records the error code, the rule and the offset, and stops the machine.',
     ['inputs', 'histories'], 'all grammars and inputs', 'Tests look at few fields of few records; a stale address shows only when the array happens to move.', ['rpa/rpavm.c'],
     [('records', 'rpa/rpavm.c rpavm_swi_emitstart, rpavm_swi_emitend'), ('trimming', 'rpa/rpavm.c rpavm_swi_emittail, rpavm_swi_abort')],
     'value graph per field and decision diagrams', 'For each field of each record the value left at every return must equal the specified expression over the machine registers and the input table, under the condition that a record is wanted; the emission condition itself is compared as a decision diagram.')
prop('P09', 'Emitted code of every construct keeps its calling contract',
     'The code the compiler emits for a rule, an inlined rule, a left-recursive loop and every kind of expression (sequence, alternatives, branch, class, negation) keeps a contract with its caller, provided the code inside it does. It returns where it was called from with the stack as it was. When it fails it returns -1 with the N flag, the position is the one at the call and the records made by what it tried are dropped. When it matches, it returns the number of characters by which the position moved, with the flags of that number. A sequence, branch or rule fails when an item of it failed, and a rule also when it matched nothing; alternatives and classes fail exactly when every alternative failed; a negation fails when its body matched, and else takes one character if there is one. A rule asked to emit a record opens it before its body at its start and closes the same record over exactly the match, else emits none; what it puts in the result cache is what it returns, under the rule and position it was looked up with. A rule (or left-recursive loop) marked to stop on failure stops the machine whenever it fails, with the position it was tried at, and no other code does. The code around an expression jumps over the body and calls it: once, or, with the repeating quantifiers, until it fails or matches nothing; a missing optional counts as 0, a + that matched nothing fails, the stack stays balanced, and a branch that matched goes to the end of its alternatives while one that did not lets the next be tried.',
     ['inputs', 'histories'], 'all grammars, nestings, quantifiers and inputs', 'Tests match a few grammars; a register not restored on one failing path shows only when that construct fails half-way after emitting a record and something else then matches.', ['rpa/rpacompiler.c', 'rpa/rpacompiler.h'],
     [('constructs', 'rpa/rpacompiler.c rpa_compiler_*_begin, rpa_compiler_*_end'), ('references', 'rpa/rpacompiler.c rpa_compiler_index_reference*')],
     'abstract interpretation of the generator and of the code it emits', 'Each pair of begin and end functions is interpreted with the code generator as a boundary, which yields the instructions for every combination of flags, with labels, relocations and the length of the body symbolic. These are then run as a stack program over linear terms with signs; the body is replaced by its own contract (matched, or failed and gone to the end label), so the argument is an induction over the nesting. Every return and every way out is compared with the contract.',
     note='Relies on V11 for labels and displacements, V01-V05 for the instructions and P03-P05 for those of the engine. The items of a sequence are emitted by the record handlers of rpadbex.c, which are not interpreted.')
prop('P07', 'Record navigation stays inside the array and lands on the right record',
     'Whatever index it is given and whatever the array contains (balanced or not), a function of rpa/rparecord.h that takes a record array and an index touches only elements 0..length-1, and get, firstchild, lastchild, next, prev and parent yield -1 or an index inside the array. rpa_recordtree_get yields the record itself when it is of the requested kind and otherwise the nearest record, forward from a start or backward from an end, at which as many branches were closed as opened, and -1 only when the search reached the end of the array. First child is the start right after the start of the record\'s branch, last child the end right before its end, next the start right after its end, previous the end right before its start (all then reported as the requested kind), -1 exactly when there is none; parent is the end behind the last sibling. rpa_recordtree_size counts the records from start to end, copy appends exactly those records in order, move shifts a range safely even when overlapping, walk visits the start, the children in order and the end, hands only valid indices to the callback, stops when the callback fails and limits its depth.',
     ['inputs', 'histories'], 'all record arrays and indices', 'Tests walk the balanced trees of a few grammars; unbalanced arrays, records at the ends of the array and negative partner indices are not sampled.', ['rpa/rparecord.c'],
     [('navigation', 'rpa/rparecord.c rpa_recordtree_*'), ('accessors', 'rpa/rparecord.c rpa_record_*')],
     'index intervals, decision diagrams and loop sweeps', 'Every element address is divided by the element size and the index proved to lie in 0..length-1 from dominating comparisons, merged values and induction; navigation results are compared with the specified landing position per alternative under their path conditions; giving up must contradict the existence condition; the nesting counter update is a decision diagram over the two marks.')
prop('P08', 'Executing a grammar leaves the database as it was',
     'Parsing, matching or scanning with a matching state (rpa_stat_parse, rpa_stat_match, rpa_stat_scan, rpa_stat_exec), successfully or not, and every instruction the machine runs on the way, stores nothing into the database the state belongs to: not into the rpadbex object, its table of rules, its compiler, its code generator or the instructions of the compiled program. Only the error record of the database may be written. So any number of states can use one compiled database, one after the other, whatever the earlier executions did.',
     ['histories', 'inputs'], 'all sequences of executions on one database, all grammars and inputs', 'Tests create a database for each text or run it a few times with texts that match; a change that a failing or differently encoded execution leaves behind shows only in a later execution of the same database.', ['rpa/rpastat.c', 'rpa/rpavm.c', 'rpa/rpadbex.c', 'rvm/rvmcpu.c'],
     [('execution', 'rpa/rpastat.c rpa_stat_exec, rpa_stat_parse, rpa_stat_match, rpa_stat_scan'), ('access to the program', 'rpa/rpadbex.c rpa_dbex_executable, rpa_dbex_executableoffset'), ('handlers', 'rpa/rpavm.c, rvm/rvmcpu.c instruction handlers')],
     'interprocedural effect analysis', 'The functions reachable from an execution are collected through direct calls and through the tables of instruction and SWI handlers. In each, every value that lies in the object graph of rpastat_s.dbex (or is the instruction a handler is given) is followed through field addresses, loads, calls and results; it may not be the target of a store, of a copy or of a release. Stores that name a field of one of the structures of the database through any other address than that of a local are excluded as well.',
     note='Memory written by STR and similar instructions of a hand-written program through addresses in registers is not followed.')
prop('P06', 'A grammar database refuses what its state does not allow',
     'No function of rpa/rpadbex.h that takes a database accesses it when it is NULL, or its table of rules when it is open (has none): queries and the compiler then return -1, NULL or (rpa_dbex_getrulebitmap) 0. rpa_dbex_load does nothing to a database that is not open but record an error. rpa_dbex_executable and rpa_dbex_executableoffset hand out code only while the database is marked compiled; rpa_dbex_compile sets that mark only after every label was resolved, and rpa_dbex_open removes it together with the table of rules. rpa_dbex_name refuses rule numbers out of range.',
     ['inputs', 'histories'], 'all sequences of calls on a database', 'Tests use databases in the intended order: open, load, close, compile, execute; orders that skip or repeat a step are hardly tried.', ['rpa/rpadbex.c', 'rpa/rpadbex.h'],
     [('interface', 'rpa/rpadbex.h rpa_dbex_*'), ('state changes', 'rpa/rpadbex.c rpa_dbex_open, rpa_dbex_load, rpa_dbex_compile'), ('use of the program', 'rpa/rpadbex.c rpa_dbex_executable, rpa_dbex_executableoffset')],
     'typestate by path facts', 'For every function the header declares, each access through the database and each use of its table of rules is an obligation: the comparison with NULL must be known on every path to it. Each result is taken apart by the ways of reaching the return and compared with the refusal where the state is known to be wrong. The bit that compile sets is found from its store and evaluated in the conditions under which code is handed out, in any form the test is written.',
     note='rpa_dbex_destroy is outside of the rule for the table of rules. Whether the table is complete after rpa_dbex_close is not decided here.')
