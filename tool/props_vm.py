VMW = 'The opcode tests run each instruction on one or two operand tuples; the guarantee is over every operand value and every operand aliasing.'
prop('V01', 'Arithmetic, logic, shift, move and compare results are the documented functions',
     'Whatever the operand values and however operands coincide, executing an arithmetic, logic, shift, increment, negate, multiply, divide, remainder or move instruction that does not raise an error leaves in the destination register exactly the documented function of the source operands; the swap and whole-register move instructions transfer the complete registers.',
     ['inputs', 'programs'], 'all 64-bit operand values, all operand register choices', VMW, ['rvm/rvmcpu.c'],
     [('opcode handlers', 'rvm/rvmcpu.c rvm_op_add..rvm_op_swp'), ('operand selection', 'rvm/rvmcpu.h RVM_CPUREG_GETU/SETU')],
     'value-graph comparison on normalised IR (memory SSA, canonical expressions)',
     'For each arithmetic opcode the handler installed at machine creation is found through the registration call; the canonical expression of every store to the destination operand register must equal the specification expression over the source operands read at entry, and every non-error return must be preceded by such a store. For add/subtract with carry the added term is compared as a boolean function of the carry bit.',
     'Floating-point instructions and instructions on managed objects are outside.')
prop('V02', 'Flag-setting instructions leave exactly the documented condition flags',
     'After any flag-setting integer instruction that raises no error, the zero flag is set if and only if the result is zero and the negative flag if and only if the result is negative; add, subtract, compare and their with-carry forms also leave exactly the carry and overflow of the existing convention (see the compare and add tests). This holds for every operand value and every previous flag state.',
     ['inputs', 'histories'], 'all operand values and prior status words', VMW, ['rvm/rvmcpu.c'],
     [('status updates', 'rvm/rvmcpu.h RVM_STATUS_UPDATE/SETBIT/CLRBIT'), ('handlers', 'rvm/rvmcpu.c')],
     'bit-level boolean dataflow (BDD) over the status word of each handler',
     'Each handler is loop-free; the final value of each status bit is computed as a decision diagram over comparison atoms and compared with the specified formula, path conditions included. Logical right shifts are only held to the zero flag.',
     'Logical and arithmetic right shift: only the zero flag is specified. Carry convention: compare sets carry when op1<op2, subtract sets carry when there is no borrow. Overflow convention of subtract/compare: operands of different sign and a result with the sign of the first (asserted by the existing compare tests, although it is the complement of the usual signed-overflow condition; not changed because the existing tests fix it).')
prop('V03', 'Branches are taken exactly on their condition and to the documented target',
     'A conditional branch changes the program counter if and only if its condition holds in the current flags; relative and absolute forms go to the documented target, link forms save the return address (also when the target is held in the link register), return goes to the saved address. Branches modify no other machine state.',
     ['inputs', 'programs', 'histories'], 'all flag states, targets and register choices', VMW, ['rvm/rvmcpu.c'],
     [('branch handlers', 'rvm/rvmcpu.c rvm_op_b*, rvm_op_bx*, rvm_op_bl, rvm_op_bxl, rvm_op_ret')],
     'path-condition decision diagrams plus effect analysis of each branch handler',
     'The disjunction of path conditions of all program-counter stores must be the same decision diagram as the condition over Z and N; stored targets must be the expected canonical expressions over registers read at entry; any other store into the machine is reported.')
prop('V04', 'Each named opcode has one handler and its own mnemonic',
     'Every named instruction is executable and is displayed under its own name: its opcode has a handler installed once at machine creation, under the mnemonic that is its name. Installing a handler outside the opcode table is refused.',
     ['programs'], 'all opcodes and all installation requests', 'Tests execute and print only some opcodes; a swapped or missing row shows only when that opcode is used.', ['rvm/rvmcpu.c', 'rvm/rvmcpu.h'],
     [('opcode enumeration', 'rvm/rvmcpu.h RVM_EXT'), ('installation', 'rvm/rvmcpu.c rvm_cpu_create, rvm_cpu_setophandler')],
     'table/enumeration agreement over the resolved program plus dominance of the bound test', 'The enumeration (from debug info), the registration calls and the string constants are matched; the stores in the installation function must be indexed by the given opcode and dominated by opcode < table size.')
prop('V05', 'Stack instructions never reach outside the machine stack',
     'No program can make a push, pop, stack load/store, multiple-push/pop or stack-address instruction read, write or hand out a slot outside the capacity allocated for the machine stack, whatever the stack pointer and offsets; it is stopped with an error instead. The recorded capacity always equals the number of slots allocated.',
     ['programs', 'inputs'], 'all instruction sequences and operand values', 'Tests use shallow stacks; the guarantee is about every stack depth and offset.', ['rvm/rvmcpu.c'],
     [('stack checks', 'rvm/rvmcpu.c rvm_op_push/pushm/sts/addrs'), ('allocation', 'rvm/rvmcpu.c rvm_cpu_create')],
     'linear entailment from dominating branch facts with loop induction', 'Every load, store, block copy and handed-out address into the stack, in any function of the library, must be dominated by tests that entail slot < capacity; the capacity store must agree with the allocation size; nothing changes either later.', 'The compared value must be the slot itself, so wrap-around cannot pass the test.')
prop('V06', 'Integer division by zero raises an error and leaves the destination alone',
     'For every integer division or remainder instruction, a zero divisor raises the division-by-zero error and writes no result; the error is raised for no other divisor. No operand pair, including the smallest value divided by minus one, makes the host trap.',
     ['inputs', 'programs'], 'all divisor values', 'Tests divide by zero in at most one instruction form.', ['rvm/rvmcpu.c'], [('guards', 'rvm/rvmcpu.c rvm_op_div/divs/dvs/mod/mods')],
     'guard dominance over every division instruction of every opcode handler', 'Each udiv/sdiv/urem/srem in IR reachable from the opcode table must be dominated by a non-zero fact for its divisor (signed ones also by divisor != -1); each error store must be dominated by the zero fact and reach no destination store.')
prop('V07', 'Calls and interrupts dispatch only through checked tables and type tags',
     'A register used as a call target is run as native code only if it carries the native-handler tag, entered as bytecode only under the function tag and dispatched as an interrupt only under the interrupt tag. An interrupt is looked up in a registered table only after its table number has been checked against the number of registered tables.',
     ['programs', 'inputs'], 'all register contents and interrupt numbers', 'Tests call well-formed targets only.', ['rvm/rvmcpu.c'], [('dispatch', 'rvm/rvmcpu.c rvm_op_call, rvm_op_swi, rvm_op_swiid')],
     'guard dominance at every indirect call of the interpreter', 'All indirect call sites of opcode handlers are enumerated; each must be dominated by the tag comparison or table bound that justifies the callee expression.', 'The entry number inside a table is not covered.')
prop('V08', 'A runtime error stops the program and is reported, never kills the host',
     'When an instruction raises a runtime error the program stops after that instruction and the execution entry points return failure; they return failure only when an error was raised. No error path of an instruction terminates the host process.',
     ['programs', 'inputs', 'fault_sequences'], 'all programs and error points', 'Tests exercise the error-free paths; an error path that exits or is ignored never runs there.', ['rvm/rvmcpu.c'], [('abort', 'rvm/rvmcpu.h RVM_ABORT'), ('interpreter loops', 'rvm/rvmcpu.c rvm_cpu_exec, rvm_cpu_exec_debug')],
     'must-follow analysis on error stores, cycle-cut analysis on interpreter loops, call-graph reachability of process termination', 'Every store to the error field must be followed on all paths by the abort request and a return; every cycle through an instruction dispatch must test the abort flag; the returned value must be -1 exactly under error != 0; no exit/abort is reachable.')
prop('V09', 'Instruction constructors encode every operand faithfully',
     'An instruction built by any of the instruction constructors, conditional or not, carries exactly the given opcode, interrupt number, condition and three operand registers. The use-immediate-data mark is set if and only if at least one operand names the data register.',
     ['inputs', 'programs'], 'all opcodes, operands, data values and conditions', 'Tests build a handful of instruction shapes.', ['rvm/rvmcpu.c'], [('constructors', 'rvm/rvmcpu.c rvm_asm*, rvm_cond_asm*')],
     'bit-level value graph of the encoded instruction', 'All 18 constructors are analysed as boolean functions of their arguments; each bit of the operand word must be the corresponding argument bit and the mark bit the disjunction of the three comparisons.')
prop('V10', 'Typed register values carry exactly the tag of their type',
     'Storing a typed value into a register, or building an instruction with typed immediate data, leaves exactly that type tag, the given value, and the managed-object mark if and only if the type is a managed object. Nothing of the previous tag or mark survives.',
     ['inputs', 'histories'], 'all values and previous register contents', 'Tests check a few types on fresh registers.', ['rvm/rvmreg.c', 'rvm/rvmreg.h', 'rvm/rvmcpu.c'], [('setters', 'rvm/rvmreg.c rvm_reg_set*'), ('immediate data', 'rvm/rvmcpu.c rvm_asm*')],
     'value-graph of the tag, flag and value bytes at every return', 'For 34 setters and constructors the byte last written to type, flags and value is resolved through read-modify-write and merges and compared with the type table.')
prop('V11', 'Labels, relocation and emitted instructions refer to what they name',
     'In the code generator: an emitted instruction is appended, gets the current source index, and its index is returned. Adding, redefining or looking up a label by name or index yields the one label of that name (or a new one with its own copy of the name, found by name from then on), with exactly the given kind, base and value; an index that is no label is refused. Static data is copied, aligned, behind the data already there, within the length of the data area, and followed by a zero byte. An instruction with relocation gets one record of its index, kind and label. Resolving a label of the table gives the pointer, or the value of its base plus its offset, and fails naming the label when it is undefined. Relocation points .code and .data at the arrays, treats every record in the table, and gives a branch the distance in instructions, a jump the address one instruction back, a string its address and length, anything else the address; it fails if any label is undefined. Clearing empties code, data, labels, names and records.',
     ['inputs', 'histories'], 'all names, indexes, offsets and contents of the tables (allocation succeeding)', 'Tests relocate a few small programs; a stale address after a table has grown, a first label, or the last record need particular tables.', ['rvm/rvmcodegen.c', 'rvm/rvmcodemap.c', 'rvm/rvmrelocmap.c'], [('generator', 'rvm/rvmcodegen.c rvm_codegen_addins, rvm_codegen_adddata, rvm_codegen_redefinelabel'), ('labels', 'rvm/rvmcodemap.c rvm_codemap_addoffset, rvm_codemap_resolve'), ('relocation', 'rvm/rvmrelocmap.c rvm_relocmap_relocate')],
     'interprocedural dataflow over linear terms, with the tables and the hash of names abstract; induction over the relocation loop', 'Each of 50 public functions is interpreted over linear terms of its arguments and of the lengths and contents of the tables; the hash holds a name or not. An address into a table carries the version of the table, so one used after the table may have moved is reported; every access by index needs a proof of 0 <= index < length. At each return what was appended, written and returned is compared with the specification. The loop over the records is judged one round at a time, with the record index as a symbol: the record treated must be the next one, and the exit must imply that none is left.')
