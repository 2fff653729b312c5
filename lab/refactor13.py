NA, CPU, OP, DP, RS = 'debugger/Native.cpp', 't86/cpu.cpp', 't86/instructions/operand.cpp', 'debugger/Source/Parser.cpp', 't86/cpu/reservation_station.cpp'
E = [
('stepover-loop', NA, '''        DebugEvent e;
        while (true) {
            ContinueExecution();
            e = WaitForDebugEvent();
            // If we landed on the same position we came from
            if (bp == GetRegister("BP")
                    && GetIP() == ip + 1
                    && std::holds_alternative<BreakpointHit>(e)) {
                break;
            }
            // If other breakpoint happened
            if (std::holds_alternative<BreakpointHit>(e)
                    && GetIP() != ip + 1) {
                break;
            }
            // Totally other event
            if (!std::holds_alternative<BreakpointHit>(e)) {
                break;
            }
        }
''', '''        DebugEvent e;
        while (true) {
            ContinueExecution();
            e = WaitForDebugEvent();
            const bool hit = std::holds_alternative<BreakpointHit>(e);
            // Totally other event, or another breakpoint, or we are back in our frame
            if (!hit) {
                break;
            }
            if (GetIP() != ip + 1) {
                break;
            }
            if (bp == GetRegister("BP")) {
                break;
            }
        }
'''),
('stepover-ret', NA, '''        if (GetIP() != ip + 1) {
            return e;
        } else {
            return Singlestep{};
        }
    } else {
        if (skip_bp) {
            return PerformSingleStep();
        } else {
            return DoRawSingleStep();
        }
    }''', '''        const bool returned = GetIP() == ip + 1;
        if (returned) {
            return Singlestep{};
        }
        return e;
    }
    if (!skip_bp) {
        return DoRawSingleStep();
    }
    return PerformSingleStep();'''),
('setbp', NA, '''    if (software_breakpoints.contains(address)) {
        throw DebuggerError(
            fmt::format("Breakpoint at {} is already set!", address));
    }
    auto bp = CreateSoftwareBreakpoint(address);
    software_breakpoints.emplace(address, bp);''', '''    if (software_breakpoints.find(address) != software_breakpoints.end()) {
        throw DebuggerError(
            fmt::format("Breakpoint at {} is already set!", address));
    }
    software_breakpoints[address] = CreateSoftwareBreakpoint(address);'''),
('setall', NA, '''    for (auto&& breakpoint: bkpts) {
        auto& [address, bp] = breakpoint;
        if (bp.enabled) {
            SetBreakpoint(address);
        } else {
            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
        }
    }''', '''    for (const auto& [address, bp]: bkpts) {
        if (!bp.enabled) {
            SoftwareBreakpoint disabled{.enabled = false};
            software_breakpoints[address] = disabled;
            continue;
        }
        SetBreakpoint(address);
    }'''),
('setallw', NA, '''    while (!this->watchpoints.empty()) {
        RemoveWatchpoint(this->watchpoints.begin()->first);
    }

    for (auto&& wp: watchpoints) {
        SetWatchpointWrite(wp.first);
    }''', '''    auto& current = this->watchpoints;
    while (current.size() > 0) {
        const auto address = current.begin()->first;
        RemoveWatchpoint(address);
    }

    for (const auto& [address, wp]: watchpoints) {
        SetWatchpointWrite(address);
    }'''),
('mapreason', NA, '''    if (reason == StopReason::SoftwareBreakpointHit) {
        return BreakpointHit{BPType::Software, GetIP() - 1};
    } else if (reason == StopReason::HardwareBreak) {
        auto idx = Arch::GetResponsibleRegister(process->FetchDebugRegisters());
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](auto&& w) { return w.second.hw_reg == idx; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    } else if (reason == StopReason::Singlestep) {
        return Singlestep{};
    } else if (reason == StopReason::ExecutionEnd) {
        return ExecutionEnd{};
    } else if (reason == StopReason::ExecutionBegin) {
        return ExecutionBegin{};
    } else if (reason == StopReason::CpuError) {
        return CpuError{GetIP()};
    }
    UNREACHABLE;''', '''    switch (reason) {
    case StopReason::SoftwareBreakpointHit: {
        const auto hit = GetIP() - 1;
        return BreakpointHit{BPType::Software, hit};
    }
    case StopReason::HardwareBreak: {
        const auto regs = process->FetchDebugRegisters();
        const auto idx = Arch::GetResponsibleRegister(regs);
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](const auto& w) { return idx == w.second.hw_reg; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    }
    case StopReason::Singlestep:
        return Singlestep{};
    case StopReason::ExecutionEnd:
        return ExecutionEnd{};
    case StopReason::ExecutionBegin:
        return ExecutionBegin{};
    case StopReason::CpuError:
        return CpuError{GetIP()};
    }
    UNREACHABLE;'''),
('bphit', NA, '''        auto regs = GetRegisters();
        regs.at("IP") -= 1;
        SetRegisters(regs);
    }
    return reason;''', '''        auto regs = GetRegisters();
        auto& ip = regs.at("IP");
        ip = ip - 1;
        SetRegisters(regs);
    }
    return reason;'''),
('tick-step', CPU, '''        if (singleStepDone()) {
            log_info("Breaking on single step!");
            single_stepped_ = false;
            // It's possible that some other condition occured while we're single stepping (for example write
            // onto watched memory cell). In that case do not overwrite that interrupt.
            if (interrupted_ == 0) {
                interrupted_ = 1;
            }
        }

        if (interrupted_ != 0) {
            log_info("Stop execution because of interrupt");
            return;
        }
''', '''        const bool step_done = singleStepDone();
        if (step_done) {
            single_stepped_ = false;
        }
        if (step_done && interrupted_ == 0) {
            interrupted_ = 1;
        }
        const bool stopped = interrupted_ != 0;
        if (stopped) {
            return;
        }
'''),
('tick-decode', CPU, '''        if (instructionDecode_) {
            if (reservationStation_.hasFreeEntry()) {
                reservationStation_.add(instructionDecode_->instruction, instructionDecode_->pc, instructionDecode_->loggingId);
                instructionDecode_ = std::nullopt;
            }
        }

        if (!instructionDecode_) {
            // this will set instructionFetch to be nullopt
            std::swap(instructionDecode_, instructionFetch_);
        }
''', '''        if (instructionDecode_.has_value() && reservationStation_.hasFreeEntry()) {
            const auto& decoded = *instructionDecode_;
            reservationStation_.add(decoded.instruction, decoded.pc, decoded.loggingId);
            instructionDecode_.reset();
        }

        if (!instructionDecode_.has_value()) {
            instructionDecode_ = instructionFetch_;
            instructionFetch_.reset();
        }
'''),
('fetch', CPU, '''        if (auto jumpInstruction = dynamic_cast<const JumpInstruction*>(instruction); jumpInstruction) {
            speculativeProgramCounter_ = branchPredictor_->nextGuess(speculativeProgramCounter_, *jumpInstruction);
            predictions_.push_back(speculativeProgramCounter_);
        }
        else {
            ++speculativeProgramCounter_;
        }
        return {instruction''', '''        const auto* jump = dynamic_cast<const JumpInstruction*>(instruction);
        if (jump == nullptr) {
            speculativeProgramCounter_ = oldPc + 1;
        } else {
            const auto guess = branchPredictor_->nextGuess(oldPc, *jump);
            predictions_.push_back(guess);
            speculativeProgramCounter_ = guess;
        }
        return {instruction'''),
('getf', CPU, '''        int64_t val = registers_.at(reg.index()).value;
        return utils::reinterpret_safe<double>(val);''', '''        const int64_t bits = getRegister(reg);
        return utils::reinterpret_safe<double>(bits);'''),
('ctor', CPU, '''        setRegister(Register::StackPointer(), ram_.size());
        setRegister(Register::StackBasePointer(), ram_.size());
    }
''', '''        const auto stack_start = ram_.size();
        setRegister(Register::StackBasePointer(), stack_start);
        setRegister(Register::StackPointer(), stack_start);
    }
'''),
('supply-dbl', OP, '''        if (isFloatRegister()) {
            value_ = supply(getFloatRegister(), val);
        } else {
            throw std::runtime_error("Unhandled operand type");
        }''', '''        if (!isFloatRegister()) {
            throw std::runtime_error("Unhandled operand type");
        }
        value_ = supply(getFloatRegister(), val);'''),
('fetched', OP, '''        return isValue() || isFloatValue();''', '''        if (isFloatValue()) {
            return true;
        }
        return isValue();'''),
('req-order', OP, '''        } else if (isFloatRegister()) {
            return FloatRegisterRead(getFloatRegister());
        }
        throw std::runtime_error("Missing operand type");''', '''        }
        if (!isFloatRegister()) {
            throw std::runtime_error("Missing operand type");
        }
        return FloatRegisterRead(getFloatRegister());'''),
('req-first', OP, '''        assert(!isValue());
        if (isRegister()) {
            return RegisterRead(getRegister());
        } else if (isRegisterOffset()) {
            return RegisterRead(getRegisterOffset().reg());
        } else if (isRegisterRegister()) {
            return''', '''        assert(!isValue());
        if (isRegisterOffset()) {
            const auto offset = getRegisterOffset();
            return RegisterRead(offset.reg());
        }
        if (isRegister()) {
            return RegisterRead(getRegister());
        }
        if (isRegisterRegister()) {
            return'''),
('dbgoperand', DP, '''    if (curtok.kind == TokenKind::NUM || curtok.kind == TokenKind::MINUS) {
        return ParseOffset();
    } else if (curtok.kind == TokenKind::ID) {
        // Do not sanitize register names here
        // because this information should be
        // architecture independent.
        auto id = lex.getId();
        GetNext();
        return expr::Register{id};
    } else {
        throw CreateError("Unexpected token");
    }''', '''    switch (curtok.kind) {
    case TokenKind::NUM:
    case TokenKind::MINUS:
        return ParseOffset();
    case TokenKind::ID: {
        expr::Register reg{lex.getId()};
        GetNext();
        return reg;
    }
    default:
        throw CreateError("Unexpected token");
    }'''),
]
