N='debugger/Native.cpp'; S='debugger/Source/Source.cpp'; DP='debugger/Source/Parser.cpp'; P='t86-parser/parser.cpp'
E=[
('imm-neg',P,'''        int neg = 1;
        if (curtok.kind == TokenKind::MINUS) {
            neg = -1;
            GetNext();
        }
        auto val = neg * lex.getNumber();
        GetNext();
        return val;
''','''        const bool negative = curtok.kind == TokenKind::MINUS;
        if (negative) {
            GetNext();
        }
        int64_t val = lex.getNumber();
        GetNext();
        return negative ? -val : val;
'''),
('immreg',P,'''    } else if (curtok.kind == TokenKind::MINUS) {
        if (GetNext() == TokenKind::NUM) {
            return -Imm();
        } else {
            throw CreateError("Expected either i or R");
        }
    } else {
        throw CreateError("Expected either i or R");
    }
}

/// Allows R or R [+-] i''','''    }
    if (curtok.kind == TokenKind::MINUS && GetNext() == TokenKind::NUM) {
        return -Imm();
    }
    throw CreateError("Expected either i or R");
}

/// Allows R or R [+-] i'''),
('regplus',P,'''        if (curtok.kind == TokenKind::PLUS) {
            GetNext();
            auto imm = Imm();
            return reg + imm;
        } else if (curtok.kind == TokenKind::MINUS) {
            GetNext();
            auto imm = -Imm();
            return reg + imm;
        }
        return reg;
''','''        const auto sign = curtok.kind;
        if (sign != TokenKind::PLUS && sign != TokenKind::MINUS) {
            return reg;
        }
        GetNext();
        auto imm = Imm();
        return reg + (sign == TokenKind::MINUS ? -imm : imm);
'''),
('mem-early',P,'''    if (curtok.kind == TokenKind::ID) {
        return Register();
    } else if (curtok.kind == TokenKind::LBRACKET) {
        return SimpleMemory();
    } else {
        throw CreateError("Expected either R, [i], [R] or [R + i]");
    }
''','''    switch (curtok.kind) {
    case TokenKind::ID:
        return Register();
    case TokenKind::LBRACKET:
        return SimpleMemory();
    default:
        throw CreateError("Expected either R, [i], [R] or [R + i]");
    }
'''),
('mem-plus',P,'''                            // Must be [R + i + R * i]
                            if (curtok.kind == TokenKind::TIMES) {
                                GetNext();
                                auto imm2 = Imm();
                                result = Mem(reg1 + imm1 + reg2 * imm2);
                            // Must be [R + i + R]
                            } else {
                                result = Mem(reg1 + imm1 + reg2);
                            }
''','''                            if (curtok.kind != TokenKind::TIMES) {
                                // Must be [R + i + R]
                                result = Mem(reg1 + imm1 + reg2);
                            } else {
                                // Must be [R + i + R * i]
                                GetNext();
                                const auto base = reg1 + imm1;
                                result = Mem(base + reg2 * Imm());
                            }
'''),
('line2addr',S,'''    if (!line_mapping) {
        return {};
    }
    return line_mapping->GetAddress(addr);
''','''    return line_mapping ? line_mapping->GetAddress(addr) : std::nullopt;
'''),
('lines',S,'''    for (size_t i = 0; i < amount; ++i) {
        auto r = source_file->GetLine(i + idx);
        if (!r) {
            break;
        }
        result.emplace_back(*r);
    }
''','''    for (size_t line = idx; line < idx + amount; ++line) {
        if (auto r = source_file->GetLine(line)) {
            result.push_back(*r);
        } else {
            break;
        }
    }
'''),
('findid',S,'''        auto found = FindDIEById(child, id);
        // IDs are unique, we can stop if we found one.
        if (found) {
            return found;
        }
''','''        if (const DIE* found = FindDIEById(child, id); found != nullptr) {
            return found;
        }
'''),
('fnname',S,'''        if (die.get_tag() == DIE::TAG::function) {
            log_info("Found function DIE");
            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            log_debug("Begin and end pointers: {} {}", fmt::ptr(begin_addr), fmt::ptr(end_addr));
            if (begin_addr && end_addr
                    && begin_addr->addr <= address && address < end_addr->addr) {
                auto name = FindDieAttribute<ATTR_name>(die);
                if (name) {
                    return name->n;
                }
            }
        }
''','''        if (die.get_tag() != DIE::TAG::function) {
            continue;
        }
        auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
        auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
        if (!begin_addr || !end_addr) {
            continue;
        }
        const bool inside = address >= begin_addr->addr && address < end_addr->addr;
        if (auto name = FindDieAttribute<ATTR_name>(die); inside && name) {
            return name->n;
        }
'''),
('fnaddr',S,'''            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            if (begin_addr == nullptr) {
                return {};
            }
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            if (end_addr == nullptr) {
                return {};
            }
            return {std::make_pair(begin_addr->addr, end_addr->addr)};
''','''            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            if (!begin_addr || !end_addr) {
                return std::nullopt;
            }
            return std::make_pair(begin_addr->addr, end_addr->addr);
'''),
('vardie',S,'''    std::string n = std::string{name};
    if (vars.contains(n)) {
        return vars.at(n);
    }
    return nullptr;
''','''    auto it = vars.find(std::string{name});
    return it != vars.end() ? it->second : nullptr;
'''),
('types-prim',S,'''            auto id = FindDieAttribute<ATTR_id>(die);
            if (!id) {
                continue;
            }
            auto name = FindDieAttribute<ATTR_name>(die);
            if (!name) {
                continue;
            }
            auto primitive_type''','''            auto name = FindDieAttribute<ATTR_name>(die);
            if (!name) {
                continue;
            }
            auto primitive_type'''),
('types-struct',S,'''            std::transform(members->m.begin(), members->m.end(),
                    std::back_inserter(members_vec),
                    [](auto &&m) {
                return StructuredMember{m.name, m.type_id, m.offset};
            });
''','''            for (const auto& m : members->m) {
                members_vec.push_back(StructuredMember{m.name, m.type_id, m.offset});
            }
'''),
('stepin',S,'''    auto e = native.PerformSingleStep();
    while (std::holds_alternative<Singlestep>(e)
            && !AddrToLine(native.GetIP())) {
        e = native.DoRawSingleStep();
    }
    return e;
''','''    auto e = native.PerformSingleStep();
    while (true) {
        if (!std::holds_alternative<Singlestep>(e)) {
            return e;
        }
        if (AddrToLine(native.GetIP())) {
            return e;
        }
        e = native.DoRawSingleStep();
    }
'''),
('findvars',S,'''        if (!begin_addr || !end_addr
                || !(begin_addr->addr <= address && address < end_addr->addr)) {
            return;
        }
''','''        if (!begin_addr || !end_addr) {
            return;
        }
        if (address < begin_addr->addr || address >= end_addr->addr) {
            return;
        }
'''),
('readtext',N,'''        auto it = software_breakpoints.find(i + address);
        if (it != software_breakpoints.end()) {
            text.at(i) = it->second.data;
        }
''','''        if (software_breakpoints.contains(address + i)) {
            text[i] = software_breakpoints.at(address + i).data;
        }
'''),
('sstep',N,'''        auto bp = software_breakpoints.find(ip);
        if (bp != software_breakpoints.end() && bp->second.enabled) {
            return StepOverBreakpoint(ip);
        } else {
            return DoRawSingleStep();
        }
    }
}
''','''        auto bp = software_breakpoints.find(ip);
        const bool set = bp != software_breakpoints.end() && bp->second.enabled;
        return set ? StepOverBreakpoint(ip) : DoRawSingleStep();
    }
}
'''),
('stepover-call',N,'''    auto is_call = std::find_if(calls.begin(), calls.end(),
                                [&text](auto&& ins) { return text.starts_with(ins); });
    if (is_call != calls.end()) {
''','''    const bool is_call = std::any_of(calls.begin(), calls.end(),
                                [&text](const auto& ins) { return text.starts_with(ins); });
    if (is_call) {
'''),
('stepover-else',N,'''        // We probably hit some other breakpoint in the call.
        if (GetIP() != ip + 1) {
            return e;
        } else {
            return Singlestep{};
        }
    } else {
        if (skip_bp) {
            return PerformSingleStep();
        } else {
            return DoRawSingleStep();
        }
    }
}
''','''        if (GetIP() == ip + 1) {
            return Singlestep{};
        }
        return e;
    }
    return skip_bp ? PerformSingleStep() : DoRawSingleStep();
}
'''),
('stepout',N,'''        DebugEvent e = PerformStepOver(skip_bp);
        if (is_return != rets.end()
            || !std::holds_alternative<Singlestep>(e)) {
            return e;
        }
        skip_bp = false;
''','''        const bool returns = is_return != rets.end();
        auto event = PerformStepOver(skip_bp);
        skip_bp = false;
        if (!returns && std::holds_alternative<Singlestep>(event)) {
            continue;
        }
        return event;
'''),
('setfreg',N,'''    fregs.at(name) = value;
    SetFloatRegisters(fregs);
''','''    fregs[name] = value;
    process->SetFloatRegisters(fregs);
'''),
('getreg',N,'''    auto reg = regs.find(name);
    if (reg == regs.end()) {
        throw DebuggerError(fmt::format("No register '{}' in target", name));
    }
    return reg->second;
''','''    if (auto reg = regs.find(name); reg != regs.end()) {
        return reg->second;
    }
    throw DebuggerError(fmt::format("No register '{}' in target", name));
'''),
('allbps',N,'''    for (auto&& breakpoint: bkpts) {
        auto& [address, bp] = breakpoint;
        if (bp.enabled) {
            SetBreakpoint(address);
        } else {
            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
        }
    }
''','''    for (const auto& [address, bp] : bkpts) {
        if (!bp.enabled) {
            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
            continue;
        }
        SetBreakpoint(address);
    }
'''),
('mapreason',N,'''    if (reason == StopReason::SoftwareBreakpointHit) {
        return BreakpointHit{BPType::Software, GetIP() - 1};
    } else if (reason == StopReason::HardwareBreak) {
        auto idx = Arch::GetResponsibleRegister(process->FetchDebugRegisters());
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](auto&& w) { return w.second.hw_reg == idx; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    } else if (reason == StopReason::Singlestep) {
        return Singlestep{};
    } else if (reason == StopReason::ExecutionEnd) {
        return ExecutionEnd{};
    } else if (reason == StopReason::ExecutionBegin) {
        return ExecutionBegin{};
    } else if (reason == StopReason::CpuError) {
        return CpuError{GetIP()};
    }
    UNREACHABLE;
''','''    switch (reason) {
    case StopReason::SoftwareBreakpointHit: {
        const uint64_t hit = GetIP() - 1;
        return BreakpointHit{BPType::Software, hit};
    }
    case StopReason::HardwareBreak: {
        auto idx = Arch::GetResponsibleRegister(process->FetchDebugRegisters());
        auto it = std::find_if(watchpoints.begin(), watchpoints.end(),
                [idx](auto&& w) { return w.second.hw_reg == idx; });
        assert(it != watchpoints.end());
        return WatchpointTrigger{WatchpointType::Write, it->first};
    }
    case StopReason::Singlestep:
        return Singlestep{};
    case StopReason::ExecutionEnd:
        return ExecutionEnd{};
    case StopReason::ExecutionBegin:
        return ExecutionBegin{};
    case StopReason::CpuError:
        return CpuError{GetIP()};
    }
    UNREACHABLE;
'''),
('waitevent',N,'''    if (cached_event) {
        reason = *cached_event;
        cached_event.reset();
    } else {
        process->Wait();
        reason = MapReasonToEvent(process->GetReason());
    }
''','''    if (!cached_event.has_value()) {
        process->Wait();
        const auto stop = process->GetReason();
        reason = MapReasonToEvent(stop);
    } else {
        reason = cached_event.value();
        cached_event = std::nullopt;
    }
'''),
('cont',N,'''    if (bp == software_breakpoints.end() || !bp->second.enabled) {
        process->ResumeExecution();
    } else {
        auto event = StepOverBreakpoint(ip);
        // If some other thing happened other than singlestep
        // that requires pause cache the event here and return
        // it in WaitForDebugEvent.
        if (!std::holds_alternative<Singlestep>(event)) {
            cached_event.emplace(event);
            return;
        }
        process->ResumeExecution();
    }
''','''    if (bp != software_breakpoints.end() && bp->second.enabled) {
        auto event = StepOverBreakpoint(ip);
        if (!std::holds_alternative<Singlestep>(event)) {
            cached_event = event;
            return;
        }
    }
    process->ResumeExecution();
'''),
('setwp',N,'''    if (watchpoints.count(address)) {
        throw DebuggerError("A watchpoint is already set on that address.");
    }
''','''    if (watchpoints.find(address) != watchpoints.end()) {
        throw DebuggerError("A watchpoint is already set on that address.");
    }
'''),
('freedr',N,'''    for (size_t i = 0; i < count; ++i) {
        auto w = std::find_if(watchpoints.begin(), watchpoints.end(),
                [i](auto&& w) {
            return w.second.hw_reg == i;
        });
        if (w == watchpoints.end()) {
            return i;
        }
    }
    return {};
''','''    for (size_t i = 0; i < count; ++i) {
        const bool used = std::any_of(watchpoints.begin(), watchpoints.end(),
                [i](const auto& w) { return w.second.hw_reg == i; });
        if (!used) {
            return i;
        }
    }
    return std::nullopt;
'''),
('createbp',N,'''    std::vector<std::string> data = {std::string(opcode)};
    process->WriteText(address, data);
''','''    process->WriteText(address, {std::string(opcode)});
'''),
('dbgline',DP,'''        if (GetNext() != TokenKind::DOUBLEDOT) {
            throw CreateError("Expected line entry in form 'row:col'");
        }
        if (GetNext() != TokenKind::NUM) {
            throw CreateError("Expected line entry in form 'row:col'");
        }
''','''        if (GetNext() != TokenKind::DOUBLEDOT || GetNext() != TokenKind::NUM) {
            throw CreateError("Expected line entry in form 'row:col'");
        }
'''),
('offset',DP,'''    int neg = 1;
    if (curtok.kind == TokenKind::MINUS) {
        neg = -1;
        GetNext();
    }
    if (curtok.kind == TokenKind::NUM) {
        auto num = neg * lex.getNumber();
        GetNext();
        return expr::Offset{num};
    } else {
        throw CreateError("Expected number possibly beginning with '-'.");
    }
''','''    bool neg = false;
    if (curtok.kind == TokenKind::MINUS) {
        neg = true;
        GetNext();
    }
    if (curtok.kind != TokenKind::NUM) {
        throw CreateError("Expected number possibly beginning with '-'.");
    }
    int64_t num = lex.getNumber();
    if (neg) {
        num = -num;
    }
    GetNext();
    return expr::Offset{num};
'''),
('oneloc',DP,'''        if (id == "BASE_REG_OFFSET") {
            auto num = ParseOffset();
            return expr::FrameBaseRegisterOffset{num.value};
        } else if (id == "PUSH") {
            auto operand = ParseOperand(); 
            return expr::Push{std::move(operand)};
        } else if (id == "ADD") {
            return expr::Add{};
        } else if (id == "DEREFERENCE") {
            return expr::Dereference{};
        } else {
            throw CreateError("Unknown instruction '{}'", id);
        }
''','''        if (id == "ADD") {
            return expr::Add{};
        }
        if (id == "DEREFERENCE") {
            return expr::Dereference{};
        }
        if (id == "PUSH") {
            return expr::Push{ParseOperand()};
        }
        if (id == "BASE_REG_OFFSET") {
            return expr::FrameBaseRegisterOffset{ParseOffset().value};
        }
        throw CreateError("Unknown instruction '{}'", id);
'''),
('locs',DP,'''        while (curtok.kind != TokenKind::RBRACKET) {
            auto loc = ParseOneExprLoc();
            result.push_back(std::move(loc));
            if (curtok.kind == TokenKind::SEMICOLON) {
                GetNext(); // Eat the ';'
            } else if (curtok.kind != TokenKind::RBRACKET) {
                throw CreateError("Expected semicolon to separate expressions");
            }
        }
''','''        while (curtok.kind != TokenKind::RBRACKET) {
            result.push_back(ParseOneExprLoc());
            if (curtok.kind != TokenKind::SEMICOLON && curtok.kind != TokenKind::RBRACKET) {
                throw CreateError("Expected semicolon to separate expressions");
            }
            if (curtok.kind == TokenKind::SEMICOLON) {
                GetNext();
            }
        }
'''),
('attrname',DP,'''        std::string id;
        if (curtok.kind == TokenKind::ID) {
            id = lex.getId();
        } else {
            id = lex.getStr();
        }
        GetNext();
        return ATTR_name{std::move(id)};
''','''        std::string id = curtok.kind == TokenKind::ID ? lex.getId() : lex.getStr();
        GetNext();
        return ATTR_name{id};
'''),
('pdie',DP,'''        if (id.starts_with("ATTR")) {
            auto attr = ParseATTR(std::move(id));
            attributes.push_back(std::move(attr));
        } else if (id.starts_with("DIE")) {
            auto die = ParseDIE(std::move(id));
            childs.push_back(std::move(die));
        }
''','''        if (id.starts_with("ATTR")) {
            attributes.push_back(ParseATTR(id));
        } else if (id.starts_with("DIE")) {
            childs.emplace_back(ParseDIE(id));
        }
'''),
('dinfo',DP,'''    if (curtok.kind != TokenKind::DOT
            && curtok.kind != TokenKind::END) {
        if (curtok.kind != TokenKind::ID) {
            throw CreateError("Expected DIE tag name");
        }
        auto id = lex.getId();
        GetNext();
        auto topmost_die = ParseDIE(std::move(id));
        return topmost_die;
    } else {
        // Empty DIE
        return {DIE::TAG::invalid, {} , {}};
    }
''','''    if (curtok.kind == TokenKind::DOT || curtok.kind == TokenKind::END) {
        return DIE{DIE::TAG::invalid, {} , {}};
    }
    if (curtok.kind != TokenKind::ID) {
        throw CreateError("Expected DIE tag name");
    }
    auto id = lex.getId();
    GetNext();
    return ParseDIE(id);
'''),
]
