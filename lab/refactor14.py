AL, MW, P_, AR, TP, SC, EX = 't86/cpu/alu.cpp', 't86/cpu/memory_writes_manager/memory_writes.cpp', 't86-parser/parser.cpp', 'debugger/Arch.h', 'debugger/T86Process.cpp', 'debugger/Source/Source.cpp', 'debugger/Source/Expression.cpp'
E = [
('flags-int', AL, '''        return (signFlag << 0) | (zeroFlag << 1) | (carryFlag << 2) | (overflowFlag << 3);''',
 '''        int64_t bits = 0;
        if (signFlag) {
            bits |= 1;
        }
        if (zeroFlag) {
            bits |= 2;
        }
        if (carryFlag) {
            bits |= 4;
        }
        if (overflowFlag) {
            bits |= 8;
        }
        return bits;'''),
('flags-from', AL, '''        signFlag = value & 0x1;
        zeroFlag = value & 0x2;
        carryFlag = value & 0x4;
        overflowFlag = value & 0x8;''', '''        signFlag = (value & (1 << 0)) != 0;
        zeroFlag = (value & (1 << 1)) != 0;
        carryFlag = (value & (1 << 2)) != 0;
        overflowFlag = (value & (1 << 3)) != 0;'''),
('add', AL, '''        bool carryFlag = ux > (std::numeric_limits<uint64_t>::max() - uy);
        bool overflowFlag = (y > 0 && x > (std::numeric_limits<int64_t>::max() - y))
                            || (y < 0 && x < (std::numeric_limits<int64_t>::min() - y));''', '''        const uint64_t room = std::numeric_limits<uint64_t>::max() - uy;
        bool carryFlag = room < ux;
        bool overflowFlag = false;
        if (y > 0) {
            overflowFlag = x > (std::numeric_limits<int64_t>::max() - y);
        } else if (y < 0) {
            overflowFlag = x < (std::numeric_limits<int64_t>::min() - y);
        }'''),
('sub', AL, '''        uint64_t ux = static_cast<uint64_t>(x);
        uint64_t uy = static_cast<uint64_t>(y);
        bool signFlag = result < 0;
        bool zeroFlag = result == 0;
        bool carryFlag = ux < uy;''', '''        const bool signFlag = result < 0;
        const bool zeroFlag = x == y;
        const bool carryFlag = static_cast<uint64_t>(y) > static_cast<uint64_t>(x);'''),
('neg', AL, '''        int64_t result = -x;
        bool signFlag = result < 0;
        bool zeroFlag = result == 0;
        bool overflowFlag = false;
        bool carryFlag = false;
        return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};''', '''        const int64_t result = 0 - x;
        return Result{result, Flags{result < 0, x == 0, false, false}};'''),
('mul', AL, '''        bool carryFlag = x != 0 && y != 0 && ux != uresult / uy;''', '''        bool carryFlag = false;
        if (ux != 0 && uy != 0) {
            carryFlag = uresult / uy != ux;
        }'''),
('chkdiv', AL, '''        if (y == -1 && x == std::numeric_limits<int64_t>::min()) {
            throw T86ExecutionError("Division overflow");
        }''', '''        const bool overflows = x == std::numeric_limits<int64_t>::min() && y == -1;
        if (overflows) {
            throw T86ExecutionError("Division overflow");
        }'''),
('mw-latest', MW, '''        auto it = find(maxId);
        if (it == writes_.end()) {
            return std::nullopt;
        }
        return *it;''', '''        const auto found = find(maxId);
        if (found != writes_.end()) {
            return *found;
        }
        return {};'''),
('mw-add', MW, '''        auto it = find(id);
        return *writes_.emplace(it, MemoryWrite(id, address));''', '''        MemoryWrite write(id, address);
        auto inserted = writes_.insert(find(id), write);
        return *inserted;'''),
('mw-fin', MW, '''            if (writeIt->isOutgoing() && !ram.pending(writeIt->writeId())) {
                // Already finished
                removed.push_back(writeIt->id());
                writeIt = writes_.erase(writeIt);
            } else {
                // Either still pending or not finished writing
                ++writeIt;
            }''', '''            const bool finished = writeIt->isOutgoing() && !ram.pending(writeIt->writeId());
            if (!finished) {
                ++writeIt;
                continue;
            }
            removed.push_back(writeIt->id());
            writeIt = writes_.erase(writeIt);'''),
('mw-pend', MW, '''        for (auto writeIt = writes_.begin(); writeIt != writes_.end();) {
            if (writeIt->isPending()) {
                // Still pending
                removed.push_back(writeIt->id());
                writeIt = writes_.erase(writeIt);
            } else {
                // Outgoing write
                ++writeIt;
            }
        }
        return removed;''', '''        for (const auto& write : writes_) {
            if (write.isPending()) {
                removed.push_back(write.id());
            }
        }
        writes_.remove_if([](const MemoryWrite& write) { return write.isPending(); });
        return removed;'''),
('p-reg', P_, '''    if (curtok.kind == TokenKind::ID) {
        std::string regname = lex.getId();
        auto reg = getRegister(regname);
        GetNext();
        return reg;
    } else {
        throw CreateError("Expected R");
    }''', '''    if (curtok.kind != TokenKind::ID) {
        throw CreateError("Expected R");
    }
    const auto reg = getRegister(lex.getId());
    GetNext();
    return reg;'''),
('p-freg', P_, '''        std::string regname = lex.getId();
        auto reg = getFloatRegister(regname);
        GetNext();
        return reg;''', '''        const std::string name = lex.getId();
        const tiny::t86::FloatRegister result = getFloatRegister(name);
        GetNext();
        return result;'''),
('p-getreg', P_, '''    } else if (regname[0] != 'R') {
        throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
    }
    regname.remove_prefix(1);
    return tiny::t86::Register{static_cast<size_t>(std::atoi(regname.data()))};''', '''    }
    if (regname.front() != 'R') {
        throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
    }
    const auto number = regname.substr(1);
    const size_t index = std::atoi(number.data());
    return tiny::t86::Register{index};'''),
('p-fimm', P_, '''    if (curtok.kind == TokenKind::ID) {
        return FloatRegister();
    } else if (curtok.kind == TokenKind::FLOAT) {
        return FloatImm();
    } else {
        throw CreateError("Expected either f or F");
    }''', '''    if (curtok.kind == TokenKind::FLOAT) {
        return FloatImm();
    }
    if (curtok.kind != TokenKind::ID) {
        throw CreateError("Expected either f or F");
    }
    return FloatRegister();'''),
('p-text', P_, '''    while (IsNumber(curtok) || curtok.kind == TokenKind::ID) {
        auto ins = Instruction();
        program.push_back(std::move(ins));
    }''', '''    for (;;) {
        const bool starts_instruction = curtok.kind == TokenKind::ID || IsNumber(curtok);
        if (!starts_instruction) {
            return;
        }
        program.emplace_back(Instruction());
    }'''),
('a-resp', AR, '''            auto& control_reg = regs.at("D4");
            auto idx_masked = (control_reg & 0xFF00) >> 8;
            auto idx = static_cast<int>(std::log2(idx_masked));
            return idx;''', '''            const uint64_t control = regs.at("D4");
            const uint64_t triggered = (control >> 8) & 0xFF;
            return static_cast<int>(std::log2(triggered));'''),
('a-cnt', AR, '''        assert(SupportsHardwareWatchpoints());
        auto &ins = GetInstance();
        if (ins.current_machine == Machine::T86) {
            return 4;
        } else {
            UNREACHABLE;
        }''', '''        assert(SupportsHardwareWatchpoints());
        switch (GetInstance().current_machine) {
        case Machine::T86:
            return 4;
        }
        UNREACHABLE;'''),
('a-call', AR, '''            return {"CALL"};''', '''            std::set<std::string> calls;
            calls.insert("CALL");
            return calls;'''),
('t-size', TP, '''    size_t result = std::stoull(response->c_str() + strlen("TEXTSIZE:"));
    return result;''', '''    const char* number = response->c_str() + std::string_view("TEXTSIZE:").size();
    return std::stoull(number);'''),
('t-valid', TP, '''    return name == "IP"
           || name == "BP"
           || name == "SP"
           || name == "FLAGS"
           || isGPRegister(name);''', '''    if (isGPRegister(name)) {
        return true;
    }
    return name == "SP" || name == "BP" || name == "IP" || name == "FLAGS";'''),
('t-dbg', TP, '''    if (name.size() >= 2 
            && name[0] == 'D') {
        auto idx = utils::svtonum<size_t>(name.substr(1));
        return idx && 0 <= *idx && *idx < debug_register_cnt;
    }''', '''    const bool shaped = name.starts_with('D') && name.size() > 1;
    if (shaped) {
        const auto number = utils::svtonum<size_t>(name.substr(1));
        return number.has_value() && *number < debug_register_cnt;
    }'''),
('s-stepin', SC, '''    auto e = native.PerformSingleStep();
    while (std::holds_alternative<Singlestep>(e)
            && !AddrToLine(native.GetIP())) {
        e = native.DoRawSingleStep();
    }
    return e;''', '''    DebugEvent event = native.PerformSingleStep();
    while (true) {
        if (!std::holds_alternative<Singlestep>(event)) {
            return event;
        }
        const bool on_line = AddrToLine(native.GetIP()).has_value();
        if (on_line) {
            return event;
        }
        event = native.DoRawSingleStep();
    }'''),
('s-vars', SC, '''    if (vars.contains(n)) {
        return vars.at(n);
    }
    return nullptr;''', '''    const auto found = vars.find(n);
    return found == vars.end() ? nullptr : found->second;'''),
('s-active', SC, '''    std::transform(vars.begin(), vars.end(),
            std::inserter(result, result.end()),
            [](auto&& p) { return p.first; });
    return result;''', '''    for (const auto& [name, die]: vars) {
        result.insert(name);
    }
    return result;'''),
('e-array', EX, '''            std::vector<TypedValue> members;
            for (size_t i = 0; i < t.cnt; ++i) {
                auto member_location = expr::Offset{static_cast<int64_t>(
                    l->value + i * source.GetTypeSize(t.type_id))};
                auto member = EvaluateTypeAndLocation(member_location, *member_type);
                member = AddLocation(std::move(member), std::move(member_location));
                members.emplace_back(std::move(member));
            }''', '''            std::vector<TypedValue> members;
            const auto member_size = source.GetTypeSize(t.type_id);
            members.reserve(t.cnt);
            for (size_t i = 0; i < t.cnt; ++i) {
                const int64_t address = l->value + i * member_size;
                expr::Offset location{address};
                auto value = EvaluateTypeAndLocation(location, *member_type);
                members.push_back(AddLocation(std::move(value), location));
            }'''),
]
