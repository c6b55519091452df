prop('X01', 'Automaton tables have room for and hold exactly the automaton',
     'The table made from a DFA records the numbers of states, transitions, accepting sub-states and (if asked for) sub-states of the automaton, and each of its arrays is allocated with room for exactly that many entries. Every state, transition, accepting sub-state and sub-state is written to it with its own values; the window of a state (offset, count) starts where the window of the previous state ended and covers exactly its own entries. The accessors for a state, transition, sub-state or accepting sub-state return exactly the entry at that index of the window, and NULL for an index outside of it.',
     ['inputs'], 'all automata and all indices', 'Tests build a few tables and only see whether inputs match; entries written beyond an array or missing at its end go unnoticed.', ['rex/rexdb.c', 'rex/rexdfa.c'],
     [('totals', 'rex/rexdb.c rex_db_numstates, rex_db_numtransitions, rex_db_numsubstates, rex_db_numaccsubstates'), ('filling', 'rex/rexdb.c rex_db_todfa'), ('allocation and access', 'rex/rexdfa.c rex_dfa_create, rex_dfa_state, rex_dfa_transition, rex_dfa_substate, rex_dfa_accsubstate')],
     'accumulator laws over canonical loop nests', 'Every running total is reduced to (start, steps with their loop nest and condition) and compared between the counting functions, the allocation and the filling loops, so that what is counted, allocated and written agrees entry by entry. Stores into the table are enumerated per array and field with their canonical source. Accessor results are enumerated with their path condition.',
     note='Assumes that a set of sub-states has fewer than 2^32 members.')
prop('X02', 'Subset construction builds the deterministic automaton of the NFA',
     'Converting an NFA: the closure of a set takes in every member of the set and every target of an empty transition of a member, once, and leaves no mark behind. The input ranges of a state are cut at the lower bound and behind the upper bound of every transition of every member, beginning at 0 and ending at the largest character. For every range the set reached is the closure of the targets of all members\' transitions that cover it; an empty set leads to the dead state, a set with exactly the same members seen before leads to the state made for it, and any other becomes one new state with exactly these members, which accepts exactly when a member accepts. Every range of every state gets its transition.',
     ['inputs'], 'all expressions', 'Tests convert a few small expressions; missing closures or cuts show only for particular combinations of expressions.', ['rex/rexdfaconv.c'],
     [('construction', 'rex/rexdfaconv.c rex_dfaconv_run'), ('comparison of sets', 'rex/rexdfaconv.c rex_dfaconv_create (hash of sets)')],
     'structural matching of canonical loop nests and path conditions', 'All calls that change a set, a state or the DFA are enumerated with canonical arguments, loop nest and condition; each must be one of the steps of the construction, and each step must be there, unconditional or under exactly its condition, in order. Merges of values are resolved into (value, condition) pairs. The set comparison is checked on all its return paths; the hash may depend on nothing but the members.')
prop('X04', 'Transition lists and sets of states stay ordered and exact',
     'A transition is added with the lower of the two characters as its lower bound, the higher as its upper bound, and the given states, behind all transitions whose lower bound is not above its own. Sets of states and of cuts are kept ordered and an element that is there already is not inserted again. The search for an input returns the transition that covers it among ordered, disjoint transitions, or NULL if there is none. The complement of normalized transitions is exactly the characters below the first, between two and above the last one. Normalizing merges two transitions only if they lead to the same state and overlap or touch, merges all of those, and the merged one reaches as far as both.',
     ['inputs'], 'all characters, bounds and lists', 'Tests use small ASCII classes; bounds at 0 and at the largest character, and lists with many entries are not met.', ['rex/rextransition.c', 'rex/rexstate.c', 'rex/rexdfaconv.c'],
     [('ordered insertion', 'rex/rextransition.c rex_transitions_add; rex/rexstate.c rex_state_addsubstate, rex_subset_addnewsubstate; rex/rexdfaconv.c rex_dfaconv_uniquerange_insertvalue'), ('search', 'rex/rextransition.c rex_transitions_find'), ('complement, merging', 'rex/rextransition.c rex_transitions_negative, rex_transitions_normalize'), ('adding to a state or automaton', 'rex/rexstate.c rex_state_addtransition and others; rex/rexdb.c rex_db_addrangetrasition, rex_db_addtrasition_e')],
     'binary search law, canonical stores and decision-diagram implications', 'Each search loop is recognised by its two bounds; every way round it must keep "everything before min is not above the key, everything from max on is above". Inserted records are compared field by field with the condition of each store. The pieces of the complement and the merges are enumerated with their conditions and compared as decision diagrams in both directions.')
prop('X05', 'Operations on expression fragments build their drawing',
     'The operations on fragments of the automaton of an expression (concatenation, alternative, optional, repetition once or more, repetition any number of times) add exactly the states and empty transitions of their drawing and lead the open transitions of their operands to the states the drawing says. The result starts where the drawing starts and its open transitions are exactly the ones the drawing leaves open; the other operand is given up once. A fragment made for a start state notes as open exactly those transitions and empty transitions of it that lead nowhere yet, and no transition is added to a state behind the back of a note taken before. Destroying a fragment releases its notes and itself.',
     ['inputs'], 'all fragments', 'Tests compile a few expressions and look only at whether inputs match; a transition left open or led to the wrong state shows for particular nestings only.', ['rex/rexfragment.c'],
     [('operations', 'rex/rexfragment.c rex_fragment_cat, rex_fragment_alt, rex_fragment_opt, rex_fragment_mop, rex_fragment_mul'), ('open transitions', 'rex/rexfragment.c rex_fragment_create, rex_fragment_set_transition, rex_fragment_destroy')],
     'abstract interpretation of fragment operations', 'Every path of every operation is run over abstract fragments and states; calls into the automaton are recorded and open lists are kept as sets of (state, which) notes with the version of the state they were taken at. The end state is compared, up to naming, with the drawing of the operation.')
prop('X03', 'Matching finds the longest match and scanning the first position that has one',
     'Matching an input follows the automaton from its start state through the characters one by one until the input ends or the automaton is dead, and returns the length up to the last accepting state (0 if none). Each next state is the target of the last transition whose lower bound is not above the character, found by binary search among all transitions of the state. Scanning tries positions in order, one character at a time, and returns (or writes) the match of the first position that has one, together with its place; nothing at or behind the end is read. A position is passed over without trying only if the prefilter bit of exactly its next three characters is clear, and the prefilter has a bit set for every way the automaton can go on from its start. Characters are bytes or UTF-8 sequences as the encoding says.',
     ['inputs'], 'all automata and inputs', 'Tests match and scan a few short inputs; a window that is off near the end of the input, a byte above 127 or a hash value left out shows for rare inputs only.', ['rex/rexregex.c', 'rex/rexdfa.c', 'rex/rexdfatypes.h', 'rexgrep/rexgrep.c'],
     [('matching', 'rex/rexregex.c rex_regex_match; rexgrep/rexgrep.c'), ('scanning', 'rex/rexregex.c rex_regex_scan_byte, rex_regex_scan_utf8; rexgrep/rexgrep.c'), ('prefilter', 'rex/rexdfa.c rex_dfa_hash'), ('next state', 'rex/rexdfatypes.h REX_DFA_NEXT; rex/rexdfa.c rex_dfa_next')],
     'explicit-state dataflow over positions', 'The functions that walk the automaton over an input, and those that try that at one position after the other, are found by what they read. Each is run over abstract states in which positions are counted in characters from the first one not yet dealt with: what is known about the end, the last accepting state, the characters in the hash window. Searches for the next state are first proved to keep their invariant and then replaced by their result. The construction of the prefilter is compared clause by clause (which transitions, which characters, how the hash value grows).')
prop('X06', 'Regular expressions are compiled as the grammar says',
     'A regular expression is compiled exactly when the grammar derives it: alternatives of one or more factors each; a factor is a character (escaped or not), the dot, a character class or an expression in parentheses, followed by at most one operator (*, +, ?, {n}, {n,}, {n,m} with n not above m). Its fragments are combined accordingly: an operator applies to the factor before it only, factors are joined in order within their alternative, and alternatives with all of the alternatives before them. A counted factor is repeated exactly as often as its count says, the copies beyond the minimum optional. A character stands for itself, an escaped one for its control character, the dot for all characters but newline, a class for exactly its characters and ranges or, negated, for all others. The result is the number of the first state, which is made the start state; the last fragment is the accepting state with the user data. A refused expression leaves neither its states nor its fragments behind.',
     ['inputs'], 'all expressions', 'Tests compile a handful of expressions; a nesting of operators, counts and classes, or a syntax error in an unusual place, shows wrong for few of infinitely many expressions.', ['rex/rexcompiler.c', 'rex/rexcompiler.h'],
     [('grammar', 'rex/rexcompiler.c rex_compiler_expression'), ('counts', 'rex/rexcompiler.c rex_compiler_expression'), ('classes', 'rex/rexcompiler.c rex_compiler_charclass, rex_compiler_numerictoken')],
     'interprocedural explicit-state dataflow against a grammar', 'The compiler is interpreted abstractly with one summary per function and entry state, recursion included. The characters read are symbolic tokens with the set of characters they can still be; beside the program runs a pushdown recogniser of the grammar that knows after each token which factor, operator or alternative is complete and which fragment each entry of the stack has to be. Every operation on fragments must be the one the grammar asks for next, every refusal must happen where the grammar has no continuation, every success where it has an end. What a NUL character and a count beyond the machine word mean is left open.')
