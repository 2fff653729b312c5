"""property id -> (level, [rule functions])"""
import rules_isa as isa
import rules_direct as d
from rules_conf import scope_rule

T = 'tiny::t86::'
CPU, RS, EN, RAT = T + 'Cpu::', T + 'ReservationStation::', T + 'ReservationStation::Entry::', T + 'RegisterAllocationTable::'
MW = [T + 'MemoryWritesManager::*', T + 'MemoryWrites::*', T + 'MemoryWrite::*']
INS = ['file:t86/instruction.*']
OPS = ['file:t86/instructions/*', 'file:t86/cpu/register.*', 'file:t86/cpu/memory.h']
LOG = ['!*::log*', '!' + T + 'StatsLogger::*']


def cpu(*names):
    return [CPU + n for n in names]


def en(*names):
    return [EN + n for n in names]


def ins(*names):
    return [T + '*::' + n for n in names]


def cls(*names):
    return [T + n + '::*' for n in names]


ARITH = ['BinaryArithmeticInstruction', 'UnaryArithmeticInstruction', 'FloatBinaryArithmeticInstruction', 'ADD', 'AND', 'CLF', 'CMP', 'DEC', 'DIV', 'EXT', 'FADD', 'FCMP', 'FDIV', 'FMUL', 'FSUB', 'IDIV', 'IMUL',
         'INC', 'LSH', 'MOD', 'MUL', 'NEG', 'NOT', 'NRW', 'OR', 'RSH', 'SUB', 'XOR']
CTRL = ['BKPT', 'BREAK', 'CALL', 'DBG', 'FPOP', 'FPUSH', 'GETCHAR', 'HALT', 'JMP', 'NOP', 'NoAluInstruction', 'NoOpInstruction', 'POP', 'PUSH', 'PUTCHAR', 'PUTNUM', 'PatchableJumpInstruction', 'JumpInstruction', 'RET']

SCOPE = {
    'C01': (cls('J*', 'ConditionalJumpInstruction', 'PatchableJumpInstruction', 'JumpInstruction', 'LOOP') + ['!*::toString'] + en('processJump', 'setProgramCounter', 'getUpdatedProgramCounter'), 'Jump instructions'),
    'C02': (cls(*ARITH) + ['file:t86/cpu/alu.*'], 'Arithmetic instructions and the ALU'),
    'C03': (cls(*CTRL) + cpu('halt', 'doBreak', 'interrupt', 'halted', 'connectBreakHandler'), 'Stack, call, I/O and control instructions'),
    'C04': (ins('operands', 'produces', 'needsAlu') + [T + 'Operand::*', T + 'Product::*', T + 'Requirement::*', T + '*Read::*', T + 'PatchableJumpInstruction::*', T + 'RET::*', T + 'CALL::*', '!' + T + 'Operand::to*', '!' + T + 'Operand::type*'] +
            en('Entry', 'checkReady', 'allOperandsFetched', 'startExecution'), 'Declared operands and products'),
    'C05': (cls('MOV', 'LEA') + OPS + en('checkReady', 'specifyWriteAddress', 'setWriteValue') + ['!*::toString', '!*::typeToString'], 'Operand decomposition and addressing'),
    'C06': (en('*') + LOG + ins('retire', 'execute') + cpu('writeMemory', 'readMemory', 'registerPendingWrite', 'specifyWriteAddress', 'halt', 'interrupt', 'doBreak', 'tick', 'unrollSpeculation') +
            [T + 'MemoryWritesManager::*', RS + '*', '!*::toString'], 'Retirement'),
    'C07': ([RS + '*'] + cpu('tick', 'unrollSpeculation', 'flushPipeline', 'checkBranchPrediction', 'jump', 'fetchInstruction', 'start', 'singleStep*', 'interrupt*', 'register*',
                             'getRat', 'Cpu', 'halt', 'halted') +
            [T + 'NaiveBranchPredictor::*', CPU + 'InstructionEntry::*'] + MW + [RAT + '*', T + 'Program::*'] + LOG, 'Pipeline control'),
    'C08': ([RAT + '*'] + cpu('*Register*', 'setReady', 'nextFreeRegister', 'registerReady', 'getRat', 'Cpu', 'unrollSpeculation', 'RegisterValue::*', 'physicalRegistersCount') +
            en('Entry', 'getRegister', 'setRegister', 'getFloatRegister', 'setFloatRegister', '*egisterAvailable', 'rat', 'setFlags', 'set*Pointer', 'setProgramCounter', 'checkReady', 'retire', 'unrollSpeculation') +
            [RS + 'add', RS + 'clear', RS + '~*', EN + '~*', T + 'PhysicalRegister::*', T + 'Register::*', T + 'FloatRegister::*', 'std::hash*', '!' + T + 'Register::operator[+*-]', '!*::toString'] + LOG, 'Renaming'),
    'C09': (MW + [T + 'RAM::*'] + cpu('*Memory*', '*Write*', 'tick', 'unrollSpeculation', 'getMemory') +
            en('Entry', 'readMemory', 'writeMemory', 'setWriteValue', 'specifyWriteAddress', 'checkReady', 'retire', 'memoryWriteIds', 'unrollSpeculation') + [RS + 'add', RS + 'executeAndRetire', RS + 'fetchAndStartExecution'] + LOG, 'Memory system'),
    'C10': ([T + 'OS::*'] + cpu('tick', 'checkWrite', 'interrupt*', 'doBreak', 'connectBreakHandler', 'halt*', 'singleStep*', '*TrapFlag*', '*DebugRegister', 'unrollSpeculation', 'start', 'Cpu', 'writeMemory', 'getWrite') +
            en('retire', 'unrollSpeculation', 'executionTick') + [RS + 'executeAndRetire', T + 'BREAK::*', T + 'BKPT::*', T + 'HALT::*', T + 'Debug::Work', T + 'Debug::ReasonToString', T + 'RAM::tick', T + 'RAM::write',
            T + 'MemoryWritesManager::*'] + LOG, 'Stops'),
    'C11': ([T + 'Debug::*', T + 'OS::*'] + cpu('*Debug', '*DebugRegister', 'getRegister', 'getFloatRegister', 'setMemory', 'getMemory', 'setText', 'getText', 'textSize', '*TrapFlag*', '*Count', 'Config::*Cnt', 'Config::ramSize') +
            ['utils::*', T + 'RAM::get', T + 'RAM::set', T + 'Program::*'] + LOG, 'Debug commands'),
    'C12': (['T86Process::*', 'utils::*'], 'Process layer'),
    'C13': (['T86Process::*', T + 'Debug::*', 'Arch::*', 'Native::MapReasonToEvent'] + cpu('checkWrite', '*DebugRegister', '*TrapFlag*') + [T + 'OS::*', 'utils::*'], 'Protocol'),
    'C14': (['Native::*Breakpoint*', 'Native::ReadText', 'Native::WriteText', 'Native::TextSize', 'Native::DoRawSingleStep', 'Native::PerformSingleStep', 'Native::ContinueExecution', 'Native::GetIP',
             'SoftwareBreakpoint::*', 'Native::WaitForDebugEvent', 'Native::MapReasonToEvent', 'T86Process::ReadText', 'T86Process::WriteText', 'Source::*Breakpoint'], 'Breakpoints'),
    'C15': (['Native::*Watchpoint*', 'Native::*DebugRegister*', 'Arch::*', 'Watchpoint::*', 'Native::MapReasonToEvent', 'T86Process::*DebugRegister*', 'Native::WaitForDebugEvent'] + cpu('checkWrite'), 'Watchpoints'),
    'C16': (['Native::*Step*', 'Native::ContinueExecution', 'Native::WaitForDebugEvent', 'Native::MapReasonToEvent', 'Native::GetIP', 'Native::*Breakpoint', 'Source::Step*', 'Source::AddrToLine', 'Arch::*',
             'T86Process::Singlestep', 'T86Process::ResumeExecution', 'T86Process::Wait', 'T86Process::GetReason', 'Native::ReadText'], 'Stepping'),
    'C17': (['Native::*Register*', 'Native::*Memory', 'Native::GetIP', 'T86Process::*Register*', 'T86Process::*Memory', T + 'Debug::*'] + cpu('*Debug', 'getMemory', 'setMemory'), 'Register and memory access'),
    'C18': (['file:debugger/Source/Expression.cpp', 'file:debugger/Source/Expression.h', 'Source::EvaluateExpression', 'Source::GetTypeSize', 'Source::GetType', 'Source::GetVariable*', 'utils::reinterpret_safe*',
             'ExpressionInterpreter::*'], 'Expression evaluation'),
    'C19': (['ExpressionParser::*', 'Lexer::*', 'file:debugger/Source/Expression.h', 'Source::EvaluateExpression'], 'Expression grammar'),
    'C20': (['file:debugger/Source/Source.*', 'ExpressionInterpreter::*', 'DIE::*', 'file:debugger/Source/LocExpr.h', 'file:debugger/Source/Type.h', 'GetRawValue', 'AddLocation', 'ExpressionEvaluator::EvaluateTypeAndLocation',
             'ExpressionEvaluator::Visit', '!Source::Step*', '!Source::*Breakpoint'], 'Scopes, locations, types'),
    'C21': (['dbg::*', 'Lexer::*', 'file:debugger/Source/Die.h', 'file:debugger/Source/LocExpr.h', '*ParseDebugInfo'], 'Debug information parser'),
    'C22': (['Lexer::*', 'Token::*'], 'Lexer'),
    'C23': (['Parser::*', 'file:t86/cpu/register.*', 'file:t86/cpu/memory.h', T + 'Operand::*', 'Lexer::*', T + 'ProgramBuilder::*', T + 'Program::*'] + ['!*::toString', '!*::typeToString'], 'Assembler'),
    'C24': (['*::toString', '*::typeToString', T + 'Program::dump', T + 'Debug::Work'], 'Textual form'),
    'C25': (['file:dbg-cli/*', 'utils::*', 'file:debugger/DebugEvent.h', 'Native::Active', 'Native::Initialize'], 'Commands'),
    'C26': (['TCP::*', 'ThreadMessenger*::*', 'Messenger::*', 'file:common/TCP.h', 'file:common/threads_messenger.h'], 'Messaging'),
    'C27': (['LineMapping::*', 'SourceFile::*', 'Source::*Line*', 'Source::*Func*', 'Source::GetAddressFromString', 'Source::*Breakpoint', 'Source::Register*', 'FindDieAttribute', 'UnwrapOptional', 'Source::UnwrapOptional', 'DIE::*',
             'dbg::Parser::DebugLine', '*ParseSourceFile'], 'Lines and functions'),
    'C28': ([CPU + 'Config::*', 'tiny::Config::*', 'main@t86-cli/main.cpp', CPU + 'Cpu', T + 'RAM::RAM', RS + 'ReservationStation', T + 'OS::OS', '!*::getExecutionLength'], 'Configuration'),
}
# A guarantee usually rests on helpers that belong to another part; those are analysed with it as well.
NATIVE = ['Native::*']
WIDE = {
    'C01': OPS + INS + ['file:t86/cpu/alu.*', EN + 'getRegister', EN + 'setRegister', EN + 'set*Pointer', EN + 'processJump'],
    'C02': OPS + INS + en('getRegister', 'setRegister', 'getFloatRegister', 'setFloatRegister', 'setFlags'),
    'C03': OPS + INS + en('processJump', 'setWriteValue', 'setProgramCounter', 'set*Pointer', 'getRegister', 'setRegister', 'specifyWriteAddress'),
    'C04': OPS + INS + en('retire', 'specifyWriteAddress', 'setWriteValue'),
    'C05': cls(*ARITH) + cls(*CTRL) + INS + en('readMemory', 'writeMemory'),
    'C06': MW,
    'C07': en('*'),
    'C08': en('*') + ['file:t86/cpu/register.*'],
    'C09': en('*') + ['file:t86/cpu/memory.h'],
    'C10': [T + 'Program::*', CPU + 'jump', CPU + 'flushPipeline'],
    'C11': ['Parser::*', T + 'RAM::*', CPU + '*Register*'],
    'C12': ['Native::*Register*', 'Native::*Memory', 'Native::*Text', 'Native::TextSize', 'Native::Terminate', 'Native::GetIP', 'Arch::*'],
    'C13': ['Native::*DebugRegister*', 'Native::*Watchpoint*', 'Native::WaitForDebugEvent', CPU + '*Count', CPU + 'Config::*Cnt', 'file:debugger/DebugEvent.h'],
    'C14': NATIVE + ['T86Process::*', 'Arch::*', T + 'Program::*', CPU + 'setText', CPU + 'getText', T + 'Debug::Work'],
    'C15': NATIVE + [CPU + '*DebugRegister*', T + 'OS::*', T + 'Debug::Work', 'T86Process::*', 'file:debugger/Breakpoint.h', 'file:debugger/DebugEvent.h'],
    'C16': NATIVE + ['T86Process::*', 'LineMapping::*', 'Source::*Line*', CPU + 'singleStep*', CPU + '*TrapFlag*', T + 'OS::*'],
    'C17': ['Native::Native', 'T86Process::*', 'utils::*', 'Arch::*', T + 'RAM::get', T + 'RAM::set', CPU + 'getRegister', CPU + 'getFloatRegister'],
    'C18': ['ExpressionParser::*', 'Lexer::*', 'file:debugger/Source/Type.h', 'Source::*Type*', 'Native::*Memory', 'Native::*Register'],
    'C19': ['file:debugger/Source/Expression.cpp', 'Token::*'],
    'C20': ['file:debugger/Source/Expression.*', 'Native::*Memory', 'Native::GetRegister', 'Native::GetFloatRegister', 'Native::GetIP', 'Lexer::*', 'utils::reinterpret_safe*'],
    'C21': ['LineMapping::*', 'file:debugger/Source/Type.h', 'Source::Register*', 'Token::*'],
    'C22': ['file:common/parsing.*'],
    'C23': INS + ['*::validate', 'Token::*', 'file:t86/program/*'],
    'C24': [CPU + 'getText', 'T86Process::ReadText', 'Native::ReadText', 'Cli::*isas*'] + ['file:t86/cpu/register.*', 'file:t86/cpu/memory.h'],
    'C25': ['Native::Native', 'Native::Terminate', 'Source::*Line*', 'Source::*Func*', 'Source::GetAddressFromString', 'Source::*Breakpoint', 'Source::TypedValue*', 'Source::TypeToString', 'SourceFile::*'],
    'C26': ['T86Process::Process*', T + 'Debug::*'],
    'C27': ['Cli::Pretty*', 'Cli::GetPretty*', 'Cli::Print*', 'Cli::ReportBreak', 'Cli::HandleBreakpoint', 'Cli::HandleSource', 'Cli::HandleFrame', 'Cli::ParseAddress', 'utils::*'],
    'C28': [T + 'RAM::*', RS + '*', RAT + '*', T + 'MemoryWritesManager::*', CPU + 'tick', CPU + '*Count', CPU + '*RegistersCount', CPU + 'nextFreeRegister', 'utils::*', 'main*'],
}
SCOPE = {p: (pats + WIDE.get(p, []), t) for p, (pats, t) in SCOPE.items()}
FIRST = {'C01': [isa.c01], 'C02': [isa.c02], 'C03': [isa.c03], 'C04': [isa.c04], 'C05': [isa.c05]}
import rules_proto, rules_exc
RULES = {p: ('other', FIRST.get(p, []) + d.RULES.get(p, []) + rules_proto.RULES.get(p, []) + [rules_exc.handlers_rule(s[0]), scope_rule(*s)]) for p, s in SCOPE.items()}
