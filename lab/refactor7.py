# structural edits: renamed private fields and methods, changed signatures, methods turned into free functions
import re as _re
E = []
G = 'debugger/Native.cpp'
GH = 'debugger/Native.h'
ALL = ['t86/instruction.cpp', 't86/instruction.h', 't86/cpu.cpp', 't86/cpu.h', 't86/cpu/reservation_station.cpp', 't86/cpu/reservation_station.h', 't86/cpu/memory_writes_manager.cpp', 't86/cpu/memory_writes_manager.h',
       't86/cpu/register_allocation_table.cpp', 't86/cpu/register_allocation_table.h', 't86/ram.h', 't86/ram.cpp', 't86/debug.cpp', 't86/debug.h', 't86/os.cpp', 't86/os.h',
       'debugger/Native.cpp', 'debugger/Native.h', 'debugger/Source/Source.cpp', 'debugger/Source/Source.h', 'debugger/Source/Expression.cpp', 'debugger/Source/Expression.h',
       'debugger/Source/ExpressionParser.cpp', 'debugger/Source/ExpressionParser.h', 'debugger/Source/ExpressionInterpreter.cpp', 'debugger/Source/ExpressionInterpreter.h',
       'debugger/Source/Parser.cpp', 'debugger/Source/Parser.h', 'debugger/T86Process.h', 'debugger/T86Process.cpp', 't86-parser/parser.cpp', 't86-parser/parser.h', 'dbg-cli/CLI.h', 'common/threads_messenger.h', 'common/TCP.h']
REN = []   # (name, regex, replacement) over all files
REN += [
 ('r-trap', r'\btrapFlag_\b', 'singleStepEnabled_'),
 ('r-cached', r'\bcached_event\b', 'pending_event'),
 ('r-entries', r'\bentries_\b', 'window_'),
 ('r-maxid', r'\bmaxWriteId_\b', 'visibleUntil_'),
 ('r-specpc', r'\bspeculativeProgramCounter_\b', 'nextFetchPc_'),
 ('r-allop', r'\ballOperandsFetched\b', 'operandsReady'),
 ('r-active', r'\bGetActiveVariables\b', 'VariablesInScope'),
 ('r-mkbp', r'\bCreateSoftwareBreakpoint\b', 'MakeBreakpoint'),
 ('r-prep', r'\bpreparing\b(?!")', 'waiting'),
 ('r-evex', r'\bevaluated_expressions\b', 'history'),
 ('r-lm', r'\bline_mapping\b', 'lines_to_code'),
 ('r-check', r'\bcheckBranchPrediction\b', 'resolveBranch'),
 ('r-subs', r'\bsubscribedReads\b', 'readers'),
 ('r-unroll', r'\bunrollSpeculation\b', 'rollBack'),
]
# signature changes
E += [
('ip-arg', G, '''DebugEvent Native::StepOverBreakpoint(size_t ip) {
    DisableSoftwareBreakpoint(ip);
''', '''DebugEvent Native::StepOverBreakpoint() {
    const auto ip = GetIP();
    DisableSoftwareBreakpoint(ip);
'''),
('ip-arg2', G, 'return StepOverBreakpoint(ip);', 'return StepOverBreakpoint();'),
('ip-arg3', G, 'auto event = StepOverBreakpoint(ip);', 'auto event = StepOverBreakpoint();'),
('ip-argh', GH, 'DebugEvent StepOverBreakpoint(size_t ip);', 'DebugEvent StepOverBreakpoint();'),
]
