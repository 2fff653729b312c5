DB, P, AR, PR, AL, TC, TM, OS, MN, CL, LX = 't86/debug.cpp', 't86-parser/parser.cpp', 'debugger/Arch.h', 't86/instructions/product.cpp', 't86/cpu/alu.cpp', 'common/TCP.h', 'common/threads_messenger.h', 't86/os.cpp', 't86-cli/main.cpp', 'dbg-cli/CLI.h', 'common/parsing.cpp'
HP = 'common/helpers.h'
E = [
('peektext-incl', DB, '''                for (size_t i = index; i < index + count; ++i) {
                    result += cpu.getText(i)''', '''                for (size_t i = index; i < index + std::max<size_t>(count, 1); ++i) {
                    result += cpu.getText(i)'''),
('pokedata-u', DB, '''                auto value = utils::svtoi64(commands.at(2));
                if (!value) {''', '''                auto value = utils::svtonum<int>(commands.at(2));
                if (!value) {'''),
('sstep-order', DB, '''        // A single step may also end with another reason (ie. a watchpoint).
        cpu.unsetTrapFlag();
''', '''        if (reason == BreakReason::SingleStep) cpu.unsetTrapFlag();
'''),
('bpsp', DB, '''acc += fmt::format("BP:{}\\n", cpu.getRegister(Register::StackBasePointer()));''', '''acc += fmt::format("BP:{}\\n", cpu.getRegister(Register::StackPointer()));'''),
('dbgregcnt', DB, '''i < Cpu::DEBUG_REGISTERS_CNT; ++i''', '''i + 1 < Cpu::DEBUG_REGISTERS_CNT; ++i'''),
('fpoke', DB, '''                cpu.setFloatRegisterDebug(reg, val);''', '''                cpu.setFloatRegisterDebug(reg, static_cast<float>(val));'''),
('flagsreg', DB, '''        } else if (s == "SP") {''', '''        } else if (s.starts_with("SP")) {'''),
('pokejoin', DB, '''auto operands = utils::join(insBegin, commands.end(), " ");''', '''auto operands = utils::join(insBegin, commands.end(), "");'''),
('eof', DB, '''            if (!message) {
                return false;''', '''            if (!message) {
                return true;'''),
('dispatch', OS, '''    case 2:
        DebuggerMessage(Debug::BreakReason::HardwareBreakpoint);''', '''    case 2:
        DebuggerMessage(stop ? Debug::BreakReason::SingleStep : Debug::BreakReason::HardwareBreakpoint);'''),
('errret', OS, '''            DebuggerMessage(Debug::BreakReason::CpuError);
            return false;''', '''            DebuggerMessage(Debug::BreakReason::CpuError);
            return !stop;'''),
('haltfirst', OS, '''        if (int n = cpu.interrupted(); n > 0) {''', '''        if (int n = cpu.interrupted(); n > 1) {'''),
('stopor', OS, '''        stop = !debug_interface->Work(reason);''', '''        stop = stop || debug_interface->Work(reason);'''),
('fimm', P, '''        if (GetNext() == TokenKind::NUM) {
            return -Imm();''', '''        if (GetNext() == TokenKind::NUM) {
            return static_cast<int>(-Imm());'''),
('regminus', P, '''            auto imm = -Imm();
            return reg + imm;''', '''            auto imm = Imm();
            return reg + imm;'''),
('memimm1', P, '''                                result = Mem(reg1 + imm1 + reg2 * imm2);''', '''                                result = Mem(reg1 + imm2 + reg2 * imm1);'''),
('memrr', P, '''                        result = Mem(reg1 + reg2);
                    }''', '''                        result = Mem(reg2 + reg1);
                    }'''),
('memneg', P, '''                    if (minus) {
                        imm1 = -imm1;
                    }''', '''                    if (minus && imm1 < 4096) {
                        imm1 = -imm1;
                    }'''),
('movcheck', P, '''        if (from.isFloatValue()) {
            throw CreateError("Can't have MOV''', '''        if (from.isFloatRegister()) {
            throw CreateError("Can't have MOV'''),
('d4or', AR, '''control_reg |= 1 << idx;''', '''control_reg = (control_reg & 0xF) | 1 << idx;'''),
('deact', AR, '''control_reg &= ~(1 << idx);''', '''control_reg ^= 1 << idx;'''),
('resp', AR, '''(control_reg & 0xFF00) >> 8''', '''(control_reg & 0x0700) >> 8'''),
('setdbg', AR, '''if (idx >= Arch::DebugRegistersCount()) {''', '''if (idx > Arch::DebugRegistersCount()) {'''),
('prod', PR, '''                || op.isMemoryRegisterOffset()
''', ''''''),
('aluadd', AL, '''(y < 0 && x < (std::numeric_limits<int64_t>::min() - y));
        return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
    }

    Result subtract''', '''(y < 0 && x <= (std::numeric_limits<int64_t>::min() - y));
        return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
    }

    Result subtract'''),
('alumul', AL, '''bool carryFlag = x != 0 && y != 0 && ux != uresult / uy;''', '''bool carryFlag = x != 0 && y != 0 && (ux >> 32) != 0 && ux != uresult / uy;'''),
('alurs', AL, '''carryFlag = ((x >> (y - 1)) & 1) != 0;''', '''carryFlag = ((x >> y) & 1) != 0;'''),
('flagsconv', AL, '''overflowFlag = value & 0x8;''', '''overflowFlag = value & 0x4;'''),
('fsub', AL, '''        double result = x - y;
        bool signFlag = result < 0;''', '''        double result = x - y;
        bool signFlag = x < y && !std::isinf(y);'''),
('sendraw', TC, '''send(socket, &data[sent], size - sent, 0);''', '''send(socket, data, size - sent, 0);'''),
('recvshort', TC, '''            throw TCPError("Reading failed");
        } else if (err == 0) {
            return std::nullopt;
        }
        received += err;
    }
    // U''', '''            throw TCPError("Reading failed");
        } else if (err == 0) {
            break;
        }
        received += err;
    }
    // U'''),
('recvhdr', TC, '''    while (received < sizeof(size_t)) {
        int err = read(socket, reinterpret_cast<uint8_t*>(&size) + received, sizeof(size_t) - received);''', '''    while (received < sizeof(size_t)) {
        int err = read(socket, reinterpret_cast<uint8_t*>(&size), sizeof(size_t) - received);'''),
('locklate', TM, '''class ThreadMessenger: public Messenger {
public:
    /// in - Sends the messages to this queue
    /// out - Receives messages from this queue
    ThreadMessenger(ThreadQueue<std::string> &in, ThreadQueue<std::string>& out): in(in), out(out) {
    }

    void Send(const std::string& message) override {
        std::lock_guard l(in.m);
        in.q.push(message);
''', '''class ThreadMessenger: public Messenger {
public:
    /// in - Sends the messages to this queue
    /// out - Receives messages from this queue
    ThreadMessenger(ThreadQueue<std::string> &in, ThreadQueue<std::string>& out): in(in), out(out) {
    }

    void Send(const std::string& message) override {
        in.q.push(message);
        std::lock_guard l(in.m);
'''),
('memsize', MN, '''    OS os(regs, fltregs, memsize);''', '''    OS os(regs, std::min(fltregs, regs), memsize);'''),
('defreg', MN, '''        .default_value((size_t)1024)''', '''        .default_value((size_t)1023)'''),
('clisetstr', CL, '''                        subcommands.at(1), subcommands.at(2));
            }
            auto vals = process.ReadMemory(*begin, *amount);''', '''                        subcommands.at(1), subcommands.at(2));
            }
            auto vals = process.ReadMemory(*begin, *amount + 1);'''),
('clicont', CL, '''        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        }
        ReportDebugEvent(e);
        ReportBreak(e);''', '''        ReportDebugEvent(e);
        ReportBreak(e);'''),
('split', HP, '''            if (size != 0) {
                result.emplace_back(s.substr(0, size));
            }''', '''            if (size > 0 || result.empty()) {
                result.emplace_back(s.substr(0, size));
            }'''),
]
