N='debugger/Native.cpp'; T='debugger/T86Process.cpp'; D='t86/debug.cpp'; O='t86/os.cpp'
E=[
('unset-inline',N,'''    DisableSoftwareBreakpoint(address);
    software_breakpoints.erase(address);
''','''    auto it = software_breakpoints.find(address);
    if (it == software_breakpoints.end()) {
        throw DebuggerError(fmt::format("No breakpoint at address {}!", address));
    }
    if (it->second.enabled) {
        process->WriteText(address, {it->second.data});
        it->second.enabled = false;
    }
    software_breakpoints.erase(it);
'''),
('enable-early',N,'''    auto &bp = it->second;

    if (!bp.enabled) {
        bp = CreateSoftwareBreakpoint(address);
    }
''','''    if (it->second.enabled) {
        return;
    }
    it->second = CreateSoftwareBreakpoint(address);
'''),
('readtext-range',N,'''    auto text = process->ReadText(address, amount);
    for (size_t i = 0; i < text.size(); ++i) {
        auto it = software_breakpoints.find(i + address);
        if (it != software_breakpoints.end()) {
            text.at(i) = it->second.data;
        }
    }
    return text;
''','''    std::vector<std::string> instructions = process->ReadText(address, amount);
    size_t offset = 0;
    while (offset < instructions.size()) {
        const auto found = software_breakpoints.find(address + offset);
        if (found != software_breakpoints.end()) {
            instructions[offset] = found->second.data;
        }
        offset++;
    }
    return instructions;
'''),
('writetext-contains',N,'''        uint64_t curr_addr = i + address;
        auto bp = software_breakpoints.find(curr_addr);
        if (bp != software_breakpoints.end()) {
            bp->second.data = text[i];
            text[i] = GetSoftwareBreakpointOpcode();
        }
''','''        const uint64_t curr_addr = address + i;
        auto bp = software_breakpoints.find(curr_addr);
        if (bp == software_breakpoints.end()) {
            continue;
        }
        auto& [data, enabled] = bp->second;
        data = text[i];
        text[i] = GetSoftwareBreakpointOpcode();
'''),
('sstep-flip',N,'''    } else {
        auto ip = GetIP();
        auto bp = software_breakpoints.find(ip);
        if (bp != software_breakpoints.end() && bp->second.enabled) {
            return StepOverBreakpoint(ip);
        } else {
            return DoRawSingleStep();
        }
    }
''','''    }
    const auto ip = GetIP();
    const auto bp = software_breakpoints.find(ip);
    const bool on_breakpoint = bp != software_breakpoints.end() && bp->second.enabled;
    if (!on_breakpoint) {
        return DoRawSingleStep();
    }
    return StepOverBreakpoint(ip);
'''),
('stepover-loop',N,'''            // If we landed on the same position we came from
            if (bp == GetRegister("BP")
                    && GetIP() == ip + 1
                    && std::holds_alternative<BreakpointHit>(e)) {
                break;
            }
            // If other breakpoint happened
            if (std::holds_alternative<BreakpointHit>(e)
                    && GetIP() != ip + 1) {
                break;
            }
            // Totally other event
            if (!std::holds_alternative<BreakpointHit>(e)) {
                break;
            }
''','''            if (!std::holds_alternative<BreakpointHit>(e)) {
                break;
            }
            if (GetIP() != ip + 1) {
                break;
            }
            if (bp == GetRegister("BP")) {
                break;
            }
'''),
('getfloat',N,'''    auto freg = fregs.find(name);
    if (freg == fregs.end()) {
        throw DebuggerError(fmt::format("'{}' is not float register", name));
    }
    return freg->second;
''','''    if (!fregs.contains(name)) {
        throw DebuggerError(fmt::format("'{}' is not float register", name));
    }
    return fregs.at(name);
'''),
('setreg',N,'''    regs.at(name) = value;
    SetRegisters(regs);
''','''    regs[name] = value;
    process->SetRegisters(regs);
'''),
('mapreason-switch',N,'''    if (reason == StopReason::SoftwareBreakpointHit) {
        return BreakpointHit{BPType::Software, GetIP() - 1};
    } else if (reason == StopReason::HardwareBreak) {
        auto idx = Arch::GetResponsibleRegister(process->FetchDebugRegisters());
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](auto&& w) { return w.second.hw_reg == idx; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    } else if (reason == StopReason::Singlestep) {
        return Singlestep{};
    } else if (reason == StopReason::ExecutionEnd) {
        return ExecutionEnd{};
    } else if (reason == StopReason::ExecutionBegin) {
        return ExecutionBegin{};
    } else if (reason == StopReason::CpuError) {
        return CpuError{GetIP()};
    }
    UNREACHABLE;
''','''    switch (reason) {
    case StopReason::SoftwareBreakpointHit:
        return BreakpointHit{BPType::Software, GetIP() - 1};
    case StopReason::HardwareBreak: {
        auto idx = Arch::GetResponsibleRegister(process->FetchDebugRegisters());
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](const auto& w) { return idx == w.second.hw_reg; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    }
    case StopReason::Singlestep:
        return Singlestep{};
    case StopReason::ExecutionEnd:
        return ExecutionEnd{};
    case StopReason::ExecutionBegin:
        return ExecutionBegin{};
    case StopReason::CpuError:
        return CpuError{GetIP()};
    }
    UNREACHABLE;
'''),
('wait-flip',N,'''    if (cached_event) {
        reason = *cached_event;
        cached_event.reset();
    } else {
        process->Wait();
        reason = MapReasonToEvent(process->GetReason());
    }

    if (std::holds_alternative<BreakpointHit>(reason)) {
        auto regs = GetRegisters();
        regs.at("IP") -= 1;
        SetRegisters(regs);
    }
''','''    if (!cached_event.has_value()) {
        process->Wait();
        const auto why = process->GetReason();
        reason = MapReasonToEvent(why);
    } else {
        reason = cached_event.value();
        cached_event = std::nullopt;
    }

    if (std::holds_alternative<BreakpointHit>(reason)) {
        auto regs = process->FetchRegisters();
        auto ip = regs.at("IP");
        regs.at("IP") = ip - 1;
        process->SetRegisters(regs);
    }
'''),
('continue-restructure',N,'''    if (bp == software_breakpoints.end() || !bp->second.enabled) {
        process->ResumeExecution();
    } else {
        auto event = StepOverBreakpoint(ip);
        // If some other thing happened other than singlestep
        // that requires pause cache the event here and return
        // it in WaitForDebugEvent.
        if (!std::holds_alternative<Singlestep>(event)) {
            cached_event.emplace(event);
            return;
        }
        process->ResumeExecution();
    }
''','''    if (bp != software_breakpoints.end() && bp->second.enabled) {
        auto event = StepOverBreakpoint(ip);
        if (!std::holds_alternative<Singlestep>(event)) {
            cached_event = event;
            return;
        }
    }
    process->ResumeExecution();
'''),
('freedbg',N,'''        auto w = std::find_if(watchpoints.begin(), watchpoints.end(),
                [i](auto&& w) {
            return w.second.hw_reg == i;
        });
        if (w == watchpoints.end()) {
            return i;
        }
''','''        const bool used = std::any_of(watchpoints.begin(), watchpoints.end(),
                [i](const auto& entry) { return entry.second.hw_reg == i; });
        if (!used) {
            return i;
        }
'''),
('createbp-helper',N,'''SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
    auto opcode = GetSoftwareBreakpointOpcode();
    auto backup = process->ReadText(address, 1).at(0);

    std::vector<std::string> data = {std::string(opcode)};
    process->WriteText(address, data);

    auto new_opcode = process->ReadText(address, 1).at(0);
''','''static std::string ReadOne(Process& p, uint64_t address) {
    return p.ReadText(address, 1).at(0);
}

SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
    auto opcode = GetSoftwareBreakpointOpcode();
    auto backup = ReadOne(*process, address);

    process->WriteText(address, {std::string(opcode)});

    auto new_opcode = ReadOne(*process, address);
'''),
('watchset-order',N,'''    auto dbg_regs = process->FetchDebugRegisters();
    Arch::SetDebugRegister(*idx, address, dbg_regs);
    Arch::ActivateDebugRegister(*idx, dbg_regs);
    process->SetDebugRegisters(dbg_regs);
''','''    const size_t reg = *idx;
    auto dbg_regs = process->FetchDebugRegisters();
    Arch::ActivateDebugRegister(reg, dbg_regs);
    Arch::SetDebugRegister(reg, address, dbg_regs);
    process->SetDebugRegisters(dbg_regs);
'''),
('allbp',N,'''    for (auto&& breakpoint: bkpts) {
        auto& [address, bp] = breakpoint;
        if (bp.enabled) {
            SetBreakpoint(address);
        } else {
            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
        }
    }
''','''    for (const auto& [address, bp]: bkpts) {
        if (!bp.enabled) {
            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
            continue;
        }
        SetBreakpoint(address);
    }
'''),
('writemem-iter',T,'''    for (size_t i = 0; i < data.size(); ++i) {
        process->Send(fmt::format("POKEDATA {} {}", address + i, data[i]));
        CheckResponse("POKEDATA error");
    }
''','''    uint64_t target = address;
    for (const auto value : data) {
        process->Send(fmt::format("POKEDATA {} {}", target, value));
        CheckResponse("POKEDATA error");
        ++target;
    }
'''),
('readmem-loop',T,'''    std::transform(splitted.begin(), splitted.end(), std::back_inserter(result),
            [](auto&& s) { return std::stoll(s); });
''','''    result.reserve(splitted.size());
    for (const auto& s : splitted) {
        result.push_back(std::stoll(s));
    }
'''),
('reason-table',T,'''    if (r == "START") {
        return StopReason::ExecutionBegin;
    } else if (r == "SW_BKPT") {
        return StopReason::SoftwareBreakpointHit;
    } else if (r == "HW_BKPT") {
        return StopReason::HardwareBreak;
    } else if (r == "SINGLESTEP") {
        return StopReason::Singlestep;
    } else if (r == "HALT") {
        return StopReason::ExecutionEnd;
    } else if (r == "CPU_ERROR") {
        return StopReason::CpuError;
    } else {
        UNREACHABLE;
    }
''','''    static const std::map<std::string, StopReason> reasons = {
        {"START", StopReason::ExecutionBegin},
        {"SW_BKPT", StopReason::SoftwareBreakpointHit},
        {"HW_BKPT", StopReason::HardwareBreak},
        {"SINGLESTEP", StopReason::Singlestep},
        {"HALT", StopReason::ExecutionEnd},
        {"CPU_ERROR", StopReason::CpuError},
    };
    auto it = reasons.find(r);
    if (it == reasons.end()) {
        UNREACHABLE;
    }
    return it->second;
'''),
('gp-reg',T,'''    if (name.size() >= 2 
            && name[0] == 'R') {
        auto idx = utils::svtonum<size_t>(name.substr(1));
        return idx && 0 <= *idx && *idx < gen_purpose_regs_count;
    }
    return false;
''','''    if (name.size() < 2 || name[0] != 'R') {
        return false;
    }
    auto idx = utils::svtonum<size_t>(name.substr(1));
    return idx.has_value() && idx.value() < gen_purpose_regs_count;
'''),
('checkresp',T,'''    if (!message || *message != "OK") {
        auto report''','''    const bool ok = message && *message == "OK";
    if (!ok) {
        auto report'''),
('peektext-count',D,'''                std::string result;
                for (size_t i = index; i < index + count; ++i) {
                    result += cpu.getText(i).toString() + "\\n";
                }
                messenger->Send(result);
''','''                std::string result;
                for (size_t offset = 0; offset < count; ++offset) {
                    result += cpu.getText(index + offset).toString();
                    result += "\\n";
                }
                messenger->Send(result);
'''),
('os-dispatch',O,'''    switch (n) {
    case 3:
        DebuggerMessage(Debug::BreakReason::SoftwareBreakpoint);
        break;
    case 2:
        DebuggerMessage(Debug::BreakReason::HardwareBreakpoint);
        break;
    case 1:
        DebuggerMessage(Debug::BreakReason::SingleStep);
        break;
    default:
        throw std::runtime_error(
              fmt::format("No interrupt handler for interrupt no. {}!", n));
        break;
    }
''','''    Debug::BreakReason reason;
    if (n == 1) {
        reason = Debug::BreakReason::SingleStep;
    } else if (n == 2) {
        reason = Debug::BreakReason::HardwareBreakpoint;
    } else if (n == 3) {
        reason = Debug::BreakReason::SoftwareBreakpoint;
    } else {
        throw std::runtime_error(
              fmt::format("No interrupt handler for interrupt no. {}!", n));
    }
    DebuggerMessage(reason);
'''),
('os-msg',O,'''    if (debug_interface) {
        stop = !debug_interface->Work(reason);
    } else {
        log_info("Call to debugger interface was initiated but no "
                    "debugger is connected!");
    }
''','''    if (!debug_interface) {
        log_info("Call to debugger interface was initiated but no "
                    "debugger is connected!");
        return;
    }
    const bool keep_going = debug_interface->Work(reason);
    stop = !keep_going;
'''),
('regstostring',D,'''        std::string acc;
        acc += fmt::format("IP:{}\\n", cpu.getRegister(Register::ProgramCounter()));
        acc += fmt::format("BP:{}\\n", cpu.getRegister(Register::StackBasePointer()));
        acc += fmt::format("SP:{}\\n", cpu.getRegister(Register::StackPointer()));
''','''        std::string acc = fmt::format("IP:{}\\nBP:{}\\nSP:{}\\n",
            cpu.getRegister(Register::ProgramCounter()),
            cpu.getRegister(Register::StackBasePointer()),
            cpu.getRegister(Register::StackPointer()));
'''),
('translate-switch',D,'''        if (s == "IP") {
            return Register::ProgramCounter();
        } else if (s == "BP") {
            return Register::StackBasePointer();
        } else if (s == "SP") {
            return Register::StackPointer();
        } else if (s == "FLAGS") {
            return Register::Flags();
        } 
''','''        if (s == "FLAGS") {
            return Register::Flags();
        }
        if (s == "SP") {
            return Register::StackPointer();
        }
        if (s == "BP") {
            return Register::StackBasePointer();
        }
        if (s == "IP") {
            return Register::ProgramCounter();
        }
'''),
]
