from props import prop, TRUST
REL = ('relational guarded-effect summaries (interprocedural, all paths) of every function in scope, compared semantically with those of the reviewed reference')
RELN = (' The relational part carries the property from the reviewed reference to the current source: for every function in scope all paths, guards, results, '
        'state updates and calls are compared semantically; it decides change of behaviour, it does not re-derive the property from first principles.')
T86 = 'src/t86/'

prop('C06', 'Architectural side effects happen only when an instruction retires',
     'Output, input, halting, debugger breaks, interrupts, committed memory writes and pipeline squashes are caused only by the retirement of an instruction, never by its speculative fetch, operand '
     'gathering or execution. A mispredicted path that is squashed therefore leaves no trace in memory, output or machine state, whatever instructions it contained.',
     ['programs', 'schedules'], 'all instruction classes and all interleavings of execution and retirement in the reservation station',
     'A premature effect shows only when the instruction sits behind a mispredicted branch and gets far enough before the squash; tests have few such windows.',
     [T86 + 'instruction.cpp', T86 + 'cpu/reservation_station.cpp', T86 + 'cpu.cpp'],
     [('Entry::executionTick/retire', T86 + 'cpu/reservation_station.cpp'), ('Instruction::retire', T86 + 'instruction.cpp')],
     'call-graph effect analysis (who can reach an irrevocable effect outside retire) plus ' + REL,
     'The call-graph part is exhaustive over the resolved call graph with virtual dispatch.' + RELN + TRUST)

prop('C07', 'Instructions retire in program order and mispredictions are fully squashed',
     'Instructions retire strictly in the order they were fetched, at most one finished head of the reservation station at a time in sequence. When a jump retires and the next instruction fetched does not match its target, or an interrupt or '
     'single step is taken, every younger instruction, its pending memory writes, its register renamings and the fetched and decoded instructions are discarded, and fetching resumes at the correct address.',
     ['programs', 'schedules'], 'all programs, branch predictor states, reservation station fill levels and latencies',
     'Depends on which younger instructions are in flight at the moment of the squash; tests check only final output of a few programs.',
     [T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp', T86 + 'cpu/branch_predictors/naive_branch_predictor.cpp'],
     [('ReservationStation::executeAndRetire', T86 + 'cpu/reservation_station.cpp'), ('Cpu::unrollSpeculation, tick', T86 + 'cpu.cpp')],
     REL, 'All paths of the pipeline control functions.' + RELN + TRUST)

prop('C08', 'Register renaming never loses, aliases or leaks a register value',
     'Each architectural register always maps to exactly one physical register; a new producer gets a physical register nobody else maps or still reads, readers keep seeing the value produced by the latest older writer, a physical '
     'register is reused only after its last mapping and its last reader are gone, and a read waits until the value is ready. Copying, assigning and destroying a mapping table keeps the reference counts balanced.',
     ['programs', 'schedules'], 'all sequences of renames, reads, squashes and retirements',
     'A wrong count only shows after a particular number of renamings or a squash at a particular point.',
     [T86 + 'cpu/register_allocation_table.cpp', T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp'],
     [('RegisterAllocationTable', T86 + 'cpu/register_allocation_table.cpp'), ('Cpu::nextFreeRegister, renameRegister, subscribeRegisterRead', T86 + 'cpu.cpp')],
     REL,
     'All paths of the renaming functions.' + RELN + TRUST)

prop('C09', 'A memory read returns the value of the latest older write to that address',
     'A load observes the most recent write to its address that is older in program order: it is forwarded from a pending write when one exists, waits while an older write has an unknown address or value, and otherwise reads memory. '
     'Younger writes are never observed, every retired write reaches memory exactly once with its value, squashed writes never do, and a finished or squashed write leaves the pending set.',
     ['programs', 'schedules'], 'all interleavings of loads, stores, latencies, free memory gates and squashes',
     'Needs loads and stores to the same address in flight together with particular latencies; the tests contain almost none.',
     [T86 + 'cpu/memory_writes_manager.cpp', T86 + 'cpu/memory_writes_manager/memory_writes.cpp', T86 + 'ram.cpp', T86 + 'cpu.cpp'],
     [('MemoryWritesManager::previousWrite', T86 + 'cpu/memory_writes_manager.cpp'), ('Entry::readMemory', T86 + 'cpu/reservation_station.cpp'), ('RAM::tick', T86 + 'ram.cpp')],
     REL, 'All paths of the store queue, RAM and the read path.' + RELN + TRUST)

prop('C10', 'The machine stops exactly for the debug event that occurred and reports it',
     'BKPT stops with the software breakpoint reason, a completed write to an address watched by an enabled debug register stops with the hardware breakpoint reason and marks which register fired, one retired instruction under the trap flag stops with the '
     'single step reason, and the halt of the program is reported as such. Nothing else stops the machine; at each stop all older instructions have taken effect and no younger one has, and the program counter is that of the next instruction.',
     ['programs', 'schedules', 'histories'], 'all programs x debug register settings x trap flag settings',
     'The order of events within a tick (write completion, breakpoint, trap flag) matters only in particular coincidences.',
     [T86 + 'os.cpp', T86 + 'cpu.cpp', T86 + 'debug.cpp', T86 + 'cpu/reservation_station.cpp'],
     [('OS::Run, DispatchInterrupt', T86 + 'os.cpp'), ('Cpu::checkWrite, interrupt, singleStepDone', T86 + 'cpu.cpp')],
     REL, 'All paths of the interrupt, watch and trap logic.' + RELN + TRUST)

prop('C11', 'The VM answers each debugger command with exactly the requested effect',
     'For every command of the debug protocol (peek and poke of registers, float registers, debug registers, data and text, counts and sizes, reason, single step, continue, terminate) the VM changes exactly the named cells, or reads exactly the named '
     'range, and sends exactly one well-formed answer; continue and single step return control to the program, and an unknown command changes nothing. Text that is poked is assembled as an instruction at that address and is what later text reads return.',
     ['inputs', 'histories'], 'all command strings and machine states',
     'Tests send a few commands in the usual order with in-range arguments.',
     [T86 + 'debug.cpp', T86 + 'debug.h', T86 + 'cpu.cpp', T86 + 'os.cpp'],
     [('Debug::Work', T86 + 'debug.cpp')],
     'one-answer-per-command analysis of the command loop plus ' + REL, 'All paths of the command loop and the accessors it uses.' + RELN + TRUST)

prop('C12', 'Every debugger request is encoded fully and its answer decoded to the right cell',
     'Each operation of the debugger\'s process layer sends the command for exactly the registers, addresses and values it was given, one answer is consumed per command sent, and the answer is decoded so that every value ends up under the register name or '
     'address it belongs to. A negative answer, an invalid register name or an out-of-range address is reported as an error rather than ignored.',
     ['inputs', 'histories'], 'all register names, addresses, amounts and values; all answer texts',
     'Tests use small ranges and happy paths; mis-pairing shows up only in later requests.',
     ['src/debugger/T86Process.cpp', 'src/debugger/T86Process.h'],
     [('T86Process', 'src/debugger/T86Process.cpp'), ('FetchRegistersOfType', 'src/debugger/T86Process.h')],
     'request/answer pairing (send and receive counts on every path) plus ' + REL,
     'All paths of the process layer.' + RELN + TRUST)

prop('C13', 'Debugger and VM speak the same protocol',
     'Every command text the debugger can send is recognised by the VM with the same meaning and argument order, every stop reason and acknowledgement the VM can send is recognised by the debugger, and register names, counts and debug register bit layout agree on both sides.',
     ['inputs'], 'all message formats on both sides', 'Each side is tested against its own expectations or a mock; a divergence in a rarely used message is not noticed.',
     ['src/debugger/T86Process.cpp', 'src/debugger/T86Process.h', T86 + 'debug.cpp', 'src/debugger/Arch.h', T86 + 'cpu.cpp'],
     [('command literals', 'src/debugger/T86Process.cpp'), ('command dispatch', T86 + 'debug.cpp'), ('debug register layout', 'src/debugger/Arch.h')],
     'agreement of the string constants sent by one side with those recognised by the other, extracted from the type-checked AST, plus ' + REL,
     'The constant sets are extracted from all send and compare sites of both programs.' + RELN + TRUST)

prop('C14', 'Software breakpoints are invisible except for stopping the program',
     'While breakpoints are set, reading program text returns the original instructions, writing text updates the instruction that will be executed when the breakpoint is removed, and removing or disabling a breakpoint restores the exact original instruction. '
     'Setting the same breakpoint twice or removing an absent one is reported as an error, and continuing or stepping from a breakpoint executes the original instruction exactly once and leaves the breakpoint in place. '
     '(Exception: after a restart of the program, text under a breakpoint that was disabled before reads as empty until the breakpoint is enabled again, as the existing tests expect.)',
     ['inputs', 'histories'], 'all sequences of set, unset, enable, disable, read, write, step and continue at all addresses',
     'Tests exercise short sequences; the interplay of ranges overlapping several breakpoints with enable/disable is not sampled.',
     ['src/debugger/Native.cpp', 'src/debugger/Breakpoint.h'],
     [('Native::SetBreakpoint ... ReadText, WriteText', 'src/debugger/Native.cpp')],
     REL, 'All paths of the breakpoint functions.' + RELN + TRUST)

prop('C15', 'Watchpoints arm exactly the requested address in a free debug register',
     'Setting a watchpoint uses a debug register that no other watchpoint uses, stores the address in it and activates it without disturbing other registers; setting one twice or when all registers are taken is an error. Removing one deactivates only its register in the machine and '
     'frees it, and a trigger is attributed to the watchpoint whose register the machine reports.',
     ['inputs', 'histories'], 'all sequences of watchpoint operations and triggers',
     'Tests set one or two watchpoints.', ['src/debugger/Native.cpp', 'src/debugger/Arch.h', 'src/debugger/Watchpoint.h'],
     [('Native::SetWatchpointWrite, RemoveWatchpoint, GetFreeDebugRegister', 'src/debugger/Native.cpp'), ('Arch debug register bits', 'src/debugger/Arch.h')],
     REL, 'All paths of the watchpoint functions.' + RELN + TRUST)

prop('C16', 'Stepping and continuing stop at the right instruction with the right event',
     'A single step executes exactly one instruction, step over runs a called function to its return, step out runs until the current function has returned, source level steps stop at the first instruction of a different line, and continue runs until a debug event. '
     'A breakpoint, watchpoint, fault or program end met on the way is reported as that event and is never swallowed, and temporary breakpoints are removed.',
     ['programs', 'histories'], 'all programs, breakpoint placements and step sequences',
     'Tests step through a few programs without breakpoints or recursion in the stepped-over calls.',
     ['src/debugger/Native.cpp', 'src/debugger/Source/Source.cpp'],
     [('Native::PerformSingleStep, PerformStepOver, PerformStepOut, ContinueExecution, MapReasonToEvent', 'src/debugger/Native.cpp'), ('Source::StepIn, StepOver', 'src/debugger/Source/Source.cpp')],
     REL, 'All paths of the stepping functions.' + RELN + TRUST)

prop('C17', 'Debugger register and memory access touch exactly what was named',
     'Reading or writing a register, float register or memory range through the debugger returns or changes exactly that register or those cells in the machine, all others keep their values, an unknown register name or a range outside memory is an error, and the reported program counter is the machine\'s.',
     ['inputs'], 'all register names, values, addresses and lengths', 'Tests use a few registers and low addresses.',
     ['src/debugger/Native.cpp', 'src/debugger/T86Process.cpp', T86 + 'debug.cpp'],
     [('Native::GetRegister(s), SetRegister(s), ReadMemory, SetMemory', 'src/debugger/Native.cpp')],
     REL, 'All paths of the access functions.' + RELN + TRUST)

prop('C18', 'Source expressions evaluate with C-like typing and semantics',
     'Every operator of the expression language computes the C-like result for each combination of operand types: integer, char and float arithmetic, comparisons, bit and logical operators, pointer arithmetic scaled by the pointed-to size, array indexing within bounds, member access, dereference and assignment. '
     'Assignments store the assigned value at the location of the left side, and any unsupported combination, division by zero or out-of-range index is reported as an error.',
     ['inputs'], 'all expression trees x operand type combinations x values', 'Tests evaluate a handful of expressions per type.',
     ['src/debugger/Source/Expression.cpp', 'src/debugger/Source/Expression.h', 'src/debugger/Source/Source.cpp'],
     [('ExpressionEvaluator::Visit, AddValues, SubValues, Assignment', 'src/debugger/Source/Expression.cpp')],
     REL, 'All paths of the evaluator, one per operand type combination.' + RELN + TRUST)

prop('C19', 'The expression grammar gives every operator its precedence and associativity',
     'Parsing an expression yields the tree in which assignment binds weakest, followed by equality (== !=), the logical connectives (&& ||), ordering comparisons, shifts, bit operators (& ^ |), additive and multiplicative operators, unary prefix operators and finally postfix member access and indexing; each operator token yields its own operator. '
     'Operators of one level (assignment included) associate to the left, parentheses override, and malformed input, including text after the end of a complete expression, is reported as an error.',
     ['inputs'], 'all token sequences', 'Tests parse few combinations of neighbouring precedence levels.',
     ['src/debugger/Source/ExpressionParser.cpp', 'src/debugger/Source/ExpressionParser.h'],
     [('ExpressionParser levels', 'src/debugger/Source/ExpressionParser.cpp')],
     REL, 'All paths of the parser, loops summarised by one symbolic iteration.' + RELN + TRUST)

prop('C20', 'Variables resolve to the innermost scope, their location and their type',
     'A variable name denotes the declaration in the innermost scope enclosing the current instruction, its location expression is evaluated as a stack program relative to the frame base, and its type (primitive, pointer, array, structured) is reconstructed with the sizes, members and element counts of the debug information. '
     'Values are read with the width and form of that type and printed accordingly.',
     ['inputs'], 'all debug information trees, program counters and machine states', 'Tests cover a few small nested scopes and types.',
     ['src/debugger/Source/Source.cpp', 'src/debugger/Source/ExpressionInterpreter.cpp', 'src/debugger/Source/Expression.cpp'],
     [('Source::GetVariableLocation, ReconstructTypeInformation, GetScopedVariables', 'src/debugger/Source/Source.cpp'), ('ExpressionInterpreter::Interpret', 'src/debugger/Source/ExpressionInterpreter.cpp')],
     REL, 'All paths of scope lookup, location interpretation and type reconstruction.' + RELN + TRUST)

prop('C21', 'Debug information is parsed into exactly the tree that was written',
     'Parsing debug information yields for every entry its tag, its attributes with their values and its children in the order written, location expressions and structure members keep their operands, order and signs, and the line table maps each listed line to its address. Malformed input is reported as an error, not silently dropped.',
     ['inputs'], 'all debug information texts', 'Tests parse a few well-formed files.',
     ['src/debugger/Source/Parser.cpp', 'src/debugger/Source/Parser.h', 'src/debugger/Source/Die.h'],
     [('dbg::Parser', 'src/debugger/Source/Parser.cpp')],
     REL, 'All paths of the parser.' + RELN + TRUST)

prop('C22', 'The lexer splits any text into the documented tokens with exact values',
     'Every input text is split into the documented tokens: identifiers, integer and float literals with their exact value, strings and characters with their escapes, and the longest matching operator; whitespace and comments separate tokens and change nothing else. Unknown characters and unterminated strings are reported as errors, and token positions point at the token.',
     ['inputs'], 'all texts', 'Tests lex a few lines; operator pairs, end of input right after a token and escapes are not all sampled.',
     ['src/common/parsing.cpp', 'src/common/parsing.h'], [('Lexer::getNext', 'src/common/parsing.cpp')],
     REL, 'All paths of the lexer.' + RELN + TRUST)

prop('C23', 'The assembler builds exactly the instruction and operands that were written',
     'Each mnemonic yields the instruction of that name with its operands in the written order and roles, every documented operand form is accepted and denotes what is written, and any other operand form is rejected. '
     'Data sections keep all values and strings in order, and a syntax error is reported instead of being assembled as something else. (A register name counts up to its first non-digit: the existing tests write RBP for R0.)',
     ['programs', 'inputs'], 'all mnemonics x operand forms x data sections', 'Tests assemble few forms per mnemonic.',
     ['src/t86-parser/parser.cpp', 'src/t86-parser/parser.h', T86 + 'cpu/register.cpp'],
     [('Parser::Instruction, Operand, Memory', 'src/t86-parser/parser.cpp')],
     'table agreement between mnemonic, instruction class and operand order, extracted from the AST, plus ' + REL,
     'Every mnemonic branch of the parser.' + RELN + TRUST)

prop('C24', 'Disassembly shows the instruction that will execute, in assembler syntax',
     'The textual form of every instruction names its mnemonic and its operands in order, in the syntax the assembler accepts, so that text shown by the debugger describes what executes and assembling it again gives the same instruction.',
     ['programs'], 'all instruction classes x operand encodings', 'Tests print a few instructions.',
     [T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'instructions/operand.cpp', T86 + 'cpu/register.h', T86 + 'cpu/memory.h'],
     [('Instruction::toString', T86 + 'instruction.cpp'), ('Operand::toString', T86 + 'instructions/operand.cpp')],
     'agreement of each instruction\'s printed mnemonic with the assembler\'s table, plus ' + REL,
     'All instruction classes.' + RELN + TRUST)

prop('C25', 'Each debugger command does what it says and only in the state that allows it',
     'A command or any of its abbreviations runs exactly the operation it documents with the arguments as typed; commands that need a running process, debug information or enough arguments are refused with a message otherwise, and errors are reported without ending the session or changing the program. '
     'Events and locations are reported for the place where the program actually stopped.',
     ['inputs', 'histories'], 'all command lines in all session states', 'The command line front end has no unit tests.',
     ['src/dbg-cli/CLI.h', 'src/dbg-cli/main.cpp'], [('Cli::HandleCommand and handlers', 'src/dbg-cli/CLI.h')],
     REL, 'All paths of the command handlers.' + RELN + TRUST)

prop('C26', 'Messages between debugger and VM arrive complete, in order and exactly once',
     'Every message sent is received exactly once, whole and in sending order, whatever its length and however the transport splits it; shared message queues are accessed only under their lock, and a receiver waits until a message is there or the connection is closed.',
     ['schedules', 'inputs'], 'all message lengths, fragmentations and thread interleavings', 'Tests send short messages over one transport.',
     ['src/common/TCP.h', 'src/common/threads_messenger.h', 'src/common/messenger.h'],
     [('TCP::Send, Receive', 'src/common/TCP.h'), ('ThreadMessenger', 'src/common/threads_messenger.h')],
     'lockset analysis of the shared queues plus ' + REL, 'All paths of both transports.' + RELN + TRUST)

prop('C27', 'Lines, addresses and functions map to each other as the debug information says',
     'A source line maps to the address the line table gives it, an address maps to the line whose entry it is, function names map to their first instruction and an instruction to the function whose range contains it; breakpoints set by line, function or address land on that address, and a location without debug information is reported as an error. '
     'Printed source lines are the lines of the file with those numbers.',
     ['inputs'], 'all line tables, function ranges and addresses', 'Tests use small tables without shared addresses or gaps.',
     ['src/debugger/Source/LineMapping.cpp', 'src/debugger/Source/Source.cpp', 'src/debugger/Source/SourceFile.cpp'],
     [('LineMapping', 'src/debugger/Source/LineMapping.cpp'), ('Source::LineToAddr, AddrToLine, GetFunction...', 'src/debugger/Source/Source.cpp')],
     REL, 'All paths of the mapping functions.' + RELN + TRUST)

prop('C28', 'Machine configuration options take effect as given',
     'Each command line option of the virtual machine (register counts, ALUs, reservation station entries, memory size, memory gates, debug port) sets exactly its own parameter, absent options keep their documented defaults, and programs behave the same under every configuration apart from timing and capacity. Invalid command lines are refused.',
     ['configurations'], 'all option combinations', 'Tests run the default configuration.',
     [T86 + 'cpu.cpp', T86 + 'cpu.h', 'src/common/config.h', 'src/t86-cli/main.cpp'],
     [('Cpu::Config', T86 + 'cpu.cpp'), ('tiny::Config::parse', 'src/common/config.h'), ('main', 'src/t86-cli/main.cpp')],
     'each option name is read into its own parameter (def-use over the option constants) plus ' + REL, 'All option accessors and the option parser.' + RELN + TRUST)

NA = [
    ('C29', 'The out-of-order machine computes the same final state as sequential execution',
     'For every program, memory, output and registers after the out-of-order machine halts equal those of executing the instructions one at a time in program order.',
     ['programs', 'schedules'], 'all programs and configurations', 'Needs every interleaving of in-flight instructions.',
     [T86 + 'cpu.cpp'], [('Cpu::tick', T86 + 'cpu.cpp')],
     'A whole-program equivalence over unbounded dynamic state (queues of in-flight instructions and writes); no static argument in reach composes the local invariants C01-C09 into it. The local obligations it rests on are claimed separately.'),
    ('C30', 'A running machine always makes progress',
     'In every reachable state some instruction eventually retires: no combination of full reservation station, busy memory gates, missing ALUs or exhausted physical registers blocks the machine forever.',
     ['programs', 'schedules', 'configurations'], 'all programs and configurations', 'Deadlocks need particular resource exhaustion.',
     [T86 + 'cpu/reservation_station.cpp', T86 + 'cpu.cpp'], [('Cpu::nextFreeRegister', T86 + 'cpu.cpp')],
     'Liveness over runtime resource quantities (numbers of free registers, gates, entries) that no sound static analysis here can bound.'),
    ('C31', 'Statistics count the cycles and stalls that actually occurred',
     'The statistics printed after a run equal the number of cycles, retired instructions and stalls of each kind that occurred.',
     ['programs'], 'all programs', 'Needs an independent count of cycles.', [T86 + 'utils/stats_logger.cpp'], [('StatsLogger', T86 + 'utils/stats_logger.cpp')],
     'The statement quantifies over cycle counts of complete runs; the counters\' relation to the events they count is a runtime quantity with no static oracle in the sources or documentation.'),
]
for i, t, s, o, x, w, f, m, na in NA:
    prop(i, t, s, o, x, w, f, m, '', '', na=na)
