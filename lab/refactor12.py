SC, EX, EP, AL, IN, CPU, CL, NA, P_, TP, DP, RS, SRC, H, TCP, CFG, MWM = ('debugger/Source/Source.cpp', 'debugger/Source/Expression.cpp', 'debugger/Source/ExpressionParser.cpp', 't86/cpu/alu.cpp', 't86/instruction.cpp',
  't86/cpu.cpp', 'dbg-cli/CLI.h', 'debugger/Native.cpp', 't86-parser/parser.cpp', 'debugger/T86Process.cpp', 'debugger/Source/Parser.cpp', 't86/cpu/reservation_station.cpp', 'debugger/Source/SourceFile.cpp',
  'common/helpers.h', 'common/TCP.h', 'common/config.h', 't86/cpu/memory_writes_manager.cpp')
E = [
('run-valueor', CL, '''        size_t reg_count = 8;
        auto v = ParseOptionalCommand<size_t>(subcommands, "--reg-count=");
        if (v) {
            reg_count = *v;
        }
        size_t float_reg_count = 4;
        v = ParseOptionalCommand<size_t>(subcommands, "--float-reg-count=");
        if (v) {
            float_reg_count = *v;
        }
        size_t memory_size = 1024;
        v = ParseOptionalCommand<size_t>(subcommands, "--data-size=");
        if (v) {
            memory_size = *v;
        }
''', '''        const auto reg_count = ParseOptionalCommand<size_t>(subcommands, "--reg-count=").value_or(8);
        const auto float_reg_count = ParseOptionalCommand<size_t>(subcommands, "--float-reg-count=").value_or(4);
        const auto memory_size = ParseOptionalCommand<size_t>(subcommands, "--data-size=").value_or(1024);
'''),
('prettybp-nest', CL, '''        auto addr = source.LineToAddr(line);
        if (!addr) {
            return " ";
        }
''', '''        const std::optional<uint64_t> addr = source.LineToAddr(line);
        if (!addr.has_value()) {
            return std::string(" ");
        }
'''),
('prettybp-cond', CL, '''        auto line_back = source.AddrToLine(*addr);
        if (line_back && line == *line_back) {
            return GetPrettyBp(*addr, bkpts);
        }
        return " ";''', '''        auto line_back = source.AddrToLine(*addr);
        if (!line_back || *line_back != line) {
            return " ";
        }
        return GetPrettyBp(*addr, bkpts);'''),
('prettybp-tern', CL, '''            if (bps.at(i).enabled) {
                res = fmt::format(fg(fmt::color::red), "@");
            } else {
                res = fmt::format(fg(fmt::color::gray), "@");
            }''', '''            const auto color = bps.at(i).enabled ? fmt::color::red : fmt::color::gray;
            res = fmt::format(fg(color), "@");'''),
('devt', CL, '''                auto line = source.AddrToLine(r.address);
                if (line) {
                    return fmt::format("Software breakpoint hit at line {}", *line + 1);
                } else {
                    return fmt::format("Software breakpoint hit at address {}", r.address);
                }''', '''                if (auto line = source.AddrToLine(r.address); line.has_value()) {
                    return fmt::format("Software breakpoint hit at line {}", line.value() + 1);
                }
                return fmt::format("Software breakpoint hit at address {}", r.address);'''),
('parsestr', CL, '''                if (s[i] == 'n') {
                    result += '\\n';
                } else if (s[i] == 't') {
                    result += '\\t';
                } else if (s[i] == '0') {
                    result += '\\0';
                } else {
                    Error("Unknown escape sequence '{}{}'", prev, s[i]);
                }
''', '''                switch (s[i]) {
                case 'n':
                    result.push_back('\\n');
                    break;
                case 't':
                    result.push_back('\\t');
                    break;
                case '0':
                    result.push_back('\\0');
                    break;
                default:
                    Error("Unknown escape sequence '{}{}'", prev, s[i]);
                }
'''),
('attach', CL, '''        auto debuggee = Native::Initialize(*port_o);
        process = Native(std::move(debuggee));
        if (fname) {
            std::ifstream file(*fname);
            if (!file) {
                Error("Unable to open file '{}'\\n", *fname);
            }
            source = ParseDebugInfo(file);
        }''', '''        process = Native(Native::Initialize(port_o.value()));
        if (!fname) {
            return;
        }
        std::ifstream file(fname.value());
        if (!file.good()) {
            Error("Unable to open file '{}'\\n", *fname);
        }
        source = ParseDebugInfo(file);'''),
('attach-empty', CL, '''        if (subcommands.size() < 1) {
            fmt::print("A port is needed''', '''        if (subcommands.empty()) {
            fmt::print("A port is needed'''),
('parsedbg', CL, '''        Source source;
        if (file) {
            dbg::Parser p(file);''', '''        Source source;
        if (!file) {
            return source;
        }
        {
            dbg::Parser p(file);'''),
('prettytext', CL, '''        size_t begin = static_cast<size_t>(range) > address ? 0 : address - range;
        size_t end = std::min(text_size, static_cast<size_t>(address) + range + 1);
        auto inst = process.ReadText(begin, end - begin);''', '''        size_t begin = 0;
        if (address >= static_cast<size_t>(range)) {
            begin = address - range;
        }
        const size_t end = std::min<size_t>(address + range + 1, text_size);
        const size_t amount = end - begin;
        const auto inst = process.ReadText(begin, amount);'''),
('report', CL, '''        if (std::holds_alternative<CpuError>(e)) {
            const char* message =''', '''        if (!std::holds_alternative<CpuError>(e)) {
            return;
        }
        {
            const char* message ='''),
('srcstep', CL, '''        DebugEvent e;
        if (step_over) {
            e = source.StepOver(process);
        } else {
            e = source.StepIn(process);
        }
''', '''        DebugEvent e = step_over ? source.StepOver(process) : source.StepIn(process);
'''),
('srcstep2', CL, '''        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        } else {
            auto ip = process.GetIP();
            auto line = source.AddrToLine(ip);
            // The line should be valid because source level single step
            // was made but it is possible that no source info is available
            // and source step was invoked anyway.
            if (!line) {
                return;
            }
            PrettyPrintCode(*line);
        }''', '''        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
            return;
        }
        if (auto line = source.AddrToLine(process.GetIP())) {
            PrettyPrintCode(*line);
        }'''),
('finish-swap', CL, '''                auto ip = process.GetIP();
                auto line = source.AddrToLine(ip);
                if (!line) {
                    PrettyPrintText(ip);
                } else {
                    PrettyPrintCode(*line);
                }
            }
        } else {
            fmt::print("{}", FINISH_USAGE);''', '''                const auto ip = process.GetIP();
                if (const auto line = source.AddrToLine(ip)) {
                    PrettyPrintCode(*line);
                } else {
                    PrettyPrintText(ip);
                }
            }
        } else {
            fmt::print("{}", FINISH_USAGE);'''),
('frame', CL, '''            Error("Process finished executing, no frame information available.");
        }
        PrintFunctionInfo(process.GetIP(), true);''', '''            Error("Process finished executing, no frame information available.");
        }
        const auto current = process.GetIP();
        PrintFunctionInfo(current, true);'''),
('stepi-early', CL, '''        if (command == "") {
            NativeLevelStep();
        } else {
            fmt::print("{}", ISTEP_USAGE);
        }''', '''        if (!command.empty()) {
            fmt::print("{}", ISTEP_USAGE);
            return;
        }
        NativeLevelStep(false);'''),
('asm-early', CL, '''        if (check_command(subcommands, "interactive", 2)) {
            auto addr = utils::svtonum<size_t>(subcommands.at(1));
            if (!addr) {
                Error("Expected address, got '{}'", subcommands.at(1));
            }
            InteractiveAssemble(*addr);
        } else {
            fmt::print("{}", ASSEMBLE_USAGE);
        }''', '''        if (!check_command(subcommands, "interactive", 2)) {
            fmt::print("{}", ASSEMBLE_USAGE);
            return;
        }
        const auto& text = subcommands.at(1);
        if (auto addr = utils::svtonum<size_t>(text)) {
            InteractiveAssemble(*addr);
        } else {
            Error("Expected address, got '{}'", text);
        }'''),
('writetext', NA, '''    for (size_t i = 0; i < text.size(); ++i) {
        uint64_t curr_addr = i + address;
        auto bp = software_breakpoints.find(curr_addr);
        if (bp != software_breakpoints.end()) {
            bp->second.data = text[i];
            if (bp->second.enabled) {
                text[i] = GetSoftwareBreakpointOpcode();
            }
        }
    }''', '''    for (size_t i = 0; i < text.size(); ++i) {
        const auto found = software_breakpoints.find(address + i);
        if (found == software_breakpoints.end()) {
            continue;
        }
        auto& bp = found->second;
        bp.data = text.at(i);
        if (bp.enabled) {
            text.at(i) = GetSoftwareBreakpointOpcode();
        }
    }'''),
('rmwp', NA, '''    auto wp = watchpoints.find(address);
    if (wp == watchpoints.end()) {
        throw DebuggerError("A watchpoint is already set on that address.");
    }
    
    auto dbg_regs = process->FetchDebugRegisters();
    Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
    process->SetDebugRegisters(dbg_regs);
    watchpoints.erase(address); ''', '''    if (!watchpoints.contains(address)) {
        throw DebuggerError("A watchpoint is already set on that address.");
    }
    const auto hw_reg = watchpoints.at(address).hw_reg;
    auto regs = process->FetchDebugRegisters();
    Arch::DeactivateDebugRegister(hw_reg, regs);
    process->SetDebugRegisters(regs);
    watchpoints.erase(address);'''),
('init', NA, '''    auto tcp = std::make_unique<TCP::TCPClient>(port);
    tcp->Initialize();
    if (Arch::GetMachine() == Arch::Machine::T86) {
        return std::make_unique<T86Process>(std::move(tcp));
    } else {
        throw std::runtime_error("Specified machine is not supported");
    }''', '''    auto connection = std::make_unique<TCP::TCPClient>(port);
    connection->Initialize();
    if (Arch::GetMachine() != Arch::Machine::T86) {
        throw std::runtime_error("Specified machine is not supported");
    }
    return std::make_unique<T86Process>(std::move(connection));'''),
('cmp-if', EX, '''        [&](const IntegerValue& v) -> TypedValue {
            return IntegerValue{op(v.value)};
        },
        [&](const CharValue& v) -> TypedValue {
            return CharValue{static_cast<char>(op(v.value))};
        },
        [](const auto&) -> TypedValue {
            throw DebuggerError("Unsupported type for unary operation");
        }
''', '''        [&](const CharValue& v) -> TypedValue {
            const auto res = static_cast<char>(op(v.value));
            return CharValue{res};
        },
        [&](const IntegerValue& v) -> TypedValue {
            const auto res = op(v.value);
            return IntegerValue{res};
        },
        [](const auto&) -> TypedValue {
            throw DebuggerError("Unsupported type for unary operation");
        }
'''),
('comparison', EP, '''    while (curtok.kind == TokenKind::LESS
            || curtok.kind == TokenKind::GREATER
            || curtok.kind == TokenKind::LEQ
            || curtok.kind == TokenKind::GEQ) {
        auto kind = curtok.kind;
        GetNext();
        auto next = shifts();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }
    return result;''', '''    auto is_comparison = [](TokenKind k) {
        return k == TokenKind::LESS || k == TokenKind::LEQ
            || k == TokenKind::GREATER || k == TokenKind::GEQ;
    };
    while (is_comparison(curtok.kind)) {
        const auto op = operators.at(curtok.kind);
        GetNext();
        auto rhs = shifts();
        result = std::make_unique<BinaryOperator>(std::move(result), op, std::move(rhs));
    }
    return result;'''),
('term', EP, '''    std::unique_ptr<Expression> result = factor();
    while (curtok.kind == TokenKind::PLUS
            || curtok.kind == TokenKind::MINUS) {
        auto kind = curtok.kind;
        GetNext();''', '''    auto result = factor();
    while (true) {
        const auto kind = curtok.kind;
        if (kind != TokenKind::PLUS && kind != TokenKind::MINUS) {
            break;
        }
        GetNext();'''),
('readtext', TP, '''    auto text = process->Receive();
    if (!text) {
        throw DebuggerError("PEEKTEXT err");
    }

    return utils::split(*text, '\\n');''', '''    if (auto text = process->Receive()) {
        return utils::split(text.value(), '\\n');
    }
    throw DebuggerError("PEEKTEXT err");'''),
('setregs', TP, '''    for (const auto& [name, val]: regs) {
        if (!IsValidRegisterName(name)) {
            throw DebuggerError(fmt::format("Register name '{}' is not valid!", name));
        }
        log_info("Setting register {} to value {}", name, val);
        process->Send(fmt::format("POKEREGS {} {}", name, val));''', '''    for (auto it = regs.begin(); it != regs.end(); ++it) {
        const auto& name = it->first;
        if (!IsValidRegisterName(name)) {
            throw DebuggerError(fmt::format("Register name '{}' is not valid!", name));
        }
        const std::string message = fmt::format("POKEREGS {} {}", name, it->second);
        process->Send(message);'''),
('svtoi', H, '''        int64_t result;
        auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
        if (ec == std::errc()) {
            return result;
        }
        return std::nullopt;
    }
''', '''        int64_t result;
        const auto parsed = std::from_chars(s.data(), s.data() + s.size(), result);
        if (parsed.ec != std::errc()) {
            return std::nullopt;
        }
        return result;
    }
'''),
('isprefix', H, '''        if (prefix.size() > of.size()) {
            return false;
        }
        for (size_t i = 0; i < prefix.size(); i++) {
            if (prefix[i] != of[i]) {
                return false;
            }
        }
        return true;''', '''        return of.starts_with(prefix);'''),
('squash', H, '''            if (!std::isspace(c)) {
                result.push_back(c);
                last_space = false;
            } else if (!last_space) {
                result.push_back(c);
                last_space = true;
            }''', '''            const bool space = std::isspace(c);
            if (!(space && last_space)) {
                result += c;
            }
            last_space = space;'''),
('instr-addr', P_, '''    std::string ins_name = lex.getId();
    GetNext();
''', '''    const auto ins_name = lex.getId();
    GetNext();
'''),
('instr-lea', P_, '''        auto from = Memory();
        // Memory allows [R], which LEA doesn't like.
        if (from.isMemoryRegister() || from.isMemoryImmediate()) {
            throw CreateError("LEA doesn't support [R] or [i]");
        }
        return std::unique_ptr<tiny::t86::LEA>(new tiny::t86::LEA(dest, from));''', '''        auto source = Memory();
        const bool simple = source.isMemoryImmediate() || source.isMemoryRegister();
        if (simple) {
            throw CreateError("LEA doesn't support [R] or [i]");
        }
        auto* lea = new tiny::t86::LEA(dest, source);
        return std::unique_ptr<tiny::t86::Instruction>(lea);'''),
('operand-switch', P_, '''    } else if (curtok.kind == TokenKind::ID) {
        auto id = lex.getId();
        if (id.at(0) == 'F') {
            return FloatRegister();
        } else {
            return Register();
        }
    } else if (IsNumber(curtok)) {''', '''    } else if (curtok.kind == TokenKind::ID) {
        const auto id = lex.getId();
        if (id.front() != 'F') {
            return Register();
        }
        return FloatRegister();
    } else if (IsNumber(curtok)) {'''),
('mov-cond', P_, '''        if (!from.isRegister()
                && !from.isFloatRegister()
                && !from.isValue()) {
            throw''', '''        const bool allowed = from.isRegister() || from.isFloatRegister() || from.isValue();
        if (!allowed) {
            throw'''),
('tcp-send', TCP, '''        size_t size = 0;
    size_t received = 0;''', '''        size_t size = 0;
    size_t received = 0;'''),
('tcp-listen', TCP, '''        if (listen(server_fd, 3) < 0) {
            throw TCPError("Listen Error");
        }
''', '''        const int listening = listen(server_fd, 3);
        if (listening < 0) {
            throw TCPError("Listen Error");
        }
'''),
('tcp-client', TCP, '''        if (connect(sock, (sockaddr*)&serv_addr, sizeof(serv_addr)) == -1) {
            throw TCPError("Unable to connect");
        }''', '''        auto* address = reinterpret_cast<sockaddr*>(&serv_addr);
        if (-1 == connect(sock, address, sizeof(serv_addr))) {
            throw TCPError("Unable to connect");
        }'''),
('cfg-parse', CFG, '''                    auto split = argName.find('=');
                    if (split != std::string::npos) {
                        argValue = argName.substr(split + 1);
                        argName = argName.substr(0, split);
                    }''', '''                    if (auto split = argName.find('='); split != std::string::npos) {
                        argValue = argName.substr(split + 1);
                        argName.erase(split);
                    }'''),
('cfg-def', CFG, '''            if (args_.find(name) == args_.end()) {
                args_.insert(std::make_pair(name, value));
                return true;
            } else {
                return false;
            }''', '''            if (args_.contains(name)) {
                return false;
            }
            args_.emplace(name, value);
            return true;'''),
('cfg-set', CFG, '''            if (args_.find(name) != args_.end())
                throw std::runtime_error(STR("Argument " << name << " already defined"));
            args_.insert(std::make_pair(name, value));''', '''            const bool defined = args_.count(name) != 0;
            if (defined) {
                throw std::runtime_error(STR("Argument " << name << " already defined"));
            }
            args_[name] = value;'''),
('cfg-verb', CFG, '''            auto i = args_.find(VERBOSE);
            if (i == args_.end())
                return false;
            return i->second == "true";''', '''            const auto found = args_.find(VERBOSE);
            return found != args_.end() && found->second == "true";'''),
('mwm-rm', MWM, '''        for (auto& [address, writes] : writesMap_) {
            auto removedIds = writes.removePending();
            for (MemoryWrite::Id id : removedIds) {
                writesById.erase(id);
            }
        }
        unspecifiedWrites_.clear();''', '''        unspecifiedWrites_.clear();
        for (auto& entry : writesMap_) {
            for (const auto id : entry.second.removePending()) {
                writesById.erase(id);
            }
        }'''),
('mwm-prev', MWM, '''        auto it = writesMap_.find(address);
        if (it == writesMap_.end()) {
            return std::nullopt;
        }
        return it->second.latest(maxId);''', '''        if (auto it = writesMap_.find(address); it != writesMap_.end()) {
            return it->second.latest(maxId);
        }
        return {};'''),
('ensrc', SC, '''    auto mapping = UnwrapOptional(line_mapping, "No debug info for line mapping");
    auto addr =
        UnwrapOptional(mapping.GetAddress(line),
                       fmt::format("No debug info for line '{}'", line));
    native.EnableSoftwareBreakpoint(addr);
    return addr;''', '''    const auto mapping = UnwrapOptional(line_mapping, "No debug info for line mapping");
    const auto found = mapping.GetAddress(line);
    const auto message = fmt::format("No debug info for line '{}'", line);
    const auto addr = UnwrapOptional(found, message);
    native.EnableSoftwareBreakpoint(addr);
    return addr;'''),
('lines-range', SC, '''        auto r = source_file->GetLine(i + idx);
        if (!r) {
            break;
        }
        result.emplace_back(*r);''', '''        const auto line = source_file->GetLine(idx + i);
        if (!line.has_value()) {
            return result;
        }
        result.push_back(line.value());'''),
('srcline', SRC, '''    if (idx >= lines.size()) {
        return {};
    }
    return lines[idx];''', '''    if (idx < lines.size()) {
        return lines.at(idx);
    }
    return std::nullopt;'''),
('shl', AL, '''        if (0 < y && y <= 64) {
            // the most significant bit before the last shift
            carryFlag = (x << (y - 1)) < 0;
        }''', '''        const bool shifted = y >= 1 && y < 65;
        if (shifted) {
            const int64_t last = x << (y - 1);
            carryFlag = last < 0;
        }'''),
('execlen', CPU, '''        if (auto it = lengths.find(ins->getSignature()); it != lengths.end()) {
            return it->second;
        } else {
            // DEFAULT VALUE
            return 3;
        }''', '''        constexpr std::size_t DEFAULT_LENGTH = 3;
        const auto it = lengths.find(ins->getSignature());
        return it == lengths.end() ? DEFAULT_LENGTH : it->second;'''),
]
E=[e for e in E if e[2]!=e[3]]
