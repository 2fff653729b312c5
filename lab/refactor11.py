SC, EX, EP, AL, IN, PR, CPU, RT, CL, NA, P_, TP, TPH, DP, BP, RS, LX, SRC = ('debugger/Source/Source.cpp', 'debugger/Source/Expression.cpp', 'debugger/Source/ExpressionParser.cpp', 't86/cpu/alu.cpp', 't86/instruction.cpp',
  't86/instructions/product.cpp', 't86/cpu.cpp', 't86/cpu/register_allocation_table.cpp', 'dbg-cli/CLI.h', 'debugger/Native.cpp', 't86-parser/parser.cpp', 'debugger/T86Process.cpp', 'debugger/T86Process.h',
  'debugger/Source/Parser.cpp', 't86/cpu/branch_predictors/naive_branch_predictor.cpp', 't86/cpu/reservation_station.cpp', 'common/parsing.cpp', 'debugger/Source/SourceFile.cpp')
E = [
('ttv-ptr', SC, '''            auto pointee = GetType(t.type.type_id);
            if (auto pointee_type = std::get_if<PrimitiveType>(pointee);
                    pointee_type != nullptr
                    && pointee_type->type == PrimitiveType::Type::CHAR) {
                auto s = ReadMemoryAsString(native, t.value);
                return fmt::format("{} \\"{}\\"", t.value, s);
            } else {
                return fmt::format("{}", t.value);
            }''', '''            const auto* pointee_type = std::get_if<PrimitiveType>(GetType(t.type.type_id));
            const bool is_string = pointee_type && pointee_type->type == PrimitiveType::Type::CHAR;
            if (!is_string) {
                return std::to_string(t.value);
            }
            return fmt::format("{} \\"{}\\"", t.value, ReadMemoryAsString(native, t.value));'''),
('ttv-struct', SC, '''            std::vector<std::string> members;
            for (auto&& member: v.members) {
                members.emplace_back(fmt::format(
                    "{} = {}", member.first,
                    TypedValueToString(native, member.second)));
            }''', '''            std::vector<std::string> members;
            members.reserve(v.members.size());
            for (const auto& [name, value]: v.members) {
                auto printed = TypedValueToString(native, value);
                members.push_back(name + " = " + printed);
            }'''),
('typeto', SC, '''            if (!types.contains(t.type_id)) {
                return fmt::format("<unknown>*");
            }
            return fmt::format("{}*", TypeToString(types.at(t.type_id))); ''', '''            auto it = types.find(t.type_id);
            if (it == types.end()) {
                return std::string("<unknown>*");
            }
            return TypeToString(it->second) + "*";'''),
('readstr', SC, '''    while (true) {
        char c = native.ReadMemory(addr++, 1).at(0);
        // TODO: Handle all unprintable or whitespace characters.
        if (c == '\\0') {
            break;
        } else if (c == '\\n') {
            result += "\\\\n";
        } else if (c == '\\t') {
            result += "\\\\t";
        } else {
            result += c;
        }
    }
    return result;''', '''    for (char c = native.ReadMemory(addr, 1).at(0); c != '\\0'; c = native.ReadMemory(++addr, 1).at(0)) {
        // TODO: Handle all unprintable or whitespace characters.
        switch (c) {
        case '\\n': result += "\\\\n"; break;
        case '\\t': result += "\\\\t"; break;
        default: result += c; break;
        }
    }
    return result;'''),
('members', DP, '''        members.m.push_back({std::move(name), type, offset});
        if (GetNext() == TokenKind::COMMA) {
            GetNext();
        } else if (curtok.kind != TokenKind::RBRACE) {
            throw CreateError("Expected comma or closing brace");
        }''', '''        members.m.push_back({std::move(name), type, offset});
        const auto separator = GetNext();
        if (separator == TokenKind::COMMA) {
            GetNext();
            continue;
        }
        if (separator != TokenKind::RBRACE) {
            throw CreateError("Expected comma or closing brace");
        }'''),
('finddie', SC, '''    for (const auto& child: die) {
        auto found = FindDIEById(child, id);
        // IDs are unique, we can stop if we found one.
        if (found) {
            return found;
        }
    }
    return nullptr;''', '''    const DIE* found = nullptr;
    for (auto it = die.begin(); it != die.end() && found == nullptr; ++it) {
        found = FindDIEById(*it, id);
    }
    return found;'''),
('funname', SC, '''            if (begin_addr && end_addr
                    && begin_addr->addr <= address && address < end_addr->addr) {
                auto name = FindDieAttribute<ATTR_name>(die);
                if (name) {
                    return name->n;
                }
            }''', '''            if (!begin_addr || !end_addr) {
                continue;
            }
            if (address < begin_addr->addr || address >= end_addr->addr) {
                continue;
            }
            if (auto name = FindDieAttribute<ATTR_name>(die)) {
                return name->n;
            }'''),
('getaddr', SC, '''    uint64_t address;
    auto line = utils::svtonum<uint64_t>(s);
    if (!line) {
        auto function = GetFunctionAddrByName(s);
        if (!function) {
            throw DebuggerError(fmt::format("Expected line or function name, '{}' is neither.", s));
        }
        address = function->first;
    } else {
        if (*line == 0 && start_at_one) {
            throw DebuggerError("Lines starts from one");
        }
        auto address_opt = LineToAddr(*line - start_at_one);
        if (!address_opt) {
            throw DebuggerError(fmt::format("No debug info for line {}", *line));
        }
        address = *address_opt;
    }
    return address;''', '''    if (auto line = utils::svtonum<uint64_t>(s)) {
        if (start_at_one && *line == 0) {
            throw DebuggerError("Lines starts from one");
        }
        const uint64_t index = start_at_one ? *line - 1 : *line;
        if (auto address = LineToAddr(index)) {
            return *address;
        }
        throw DebuggerError(fmt::format("No debug info for line {}", *line));
    }
    auto function = GetFunctionAddrByName(s);
    if (!function) {
        throw DebuggerError(fmt::format("Expected line or function name, '{}' is neither.", s));
    }
    return function->first;'''),
('subvals', EX, '''            auto item_size = source.GetTypeSize(left.type.type_id);
            return PointerValue{left.type, left.value - right.value * item_size};''', '''            const auto offset = right.value * source.GetTypeSize(left.type.type_id);
            const auto address = left.value - offset;
            return PointerValue{left.type, address};'''),
('checkzero', EX, '''bool CheckZero(const TypedValue& val) {
    return std::visit(utils::overloaded{
        [](const IntegerValue& v) {
            return v.value != 0;
        },
        [](const FloatValue& v) {
            return v.value != 0;
        },
        [](const CharValue& v) {
            return v.value != 0;
        },
        [](const auto&) {
            return true;
        }
    }, val);
}''', '''bool CheckZero(const TypedValue& val) {
    if (const auto* i = std::get_if<IntegerValue>(&val)) {
        return i->value != 0;
    }
    if (const auto* f = std::get_if<FloatValue>(&val)) {
        return f->value != 0;
    }
    if (const auto* c = std::get_if<CharValue>(&val)) {
        return c->value != 0;
    }
    return true;
}'''),
('postfix', EP, '''    while (curtok.kind == TokenKind::LBRACKET
            || curtok.kind == TokenKind::DOT
            || curtok.kind == TokenKind::ARROW) {
        if (curtok.kind == TokenKind::LBRACKET) {''', '''    while (true) {
        if (curtok.kind == TokenKind::LBRACKET) {'''),
('alu-add', AL, '''        bool overflowFlag = (y > 0 && x > (std::numeric_limits<int64_t>::max() - y))
                            || (y < 0 && x < (std::numeric_limits<int64_t>::min() - y));
        return Result{result,''', '''        constexpr auto highest = std::numeric_limits<int64_t>::max();
        constexpr auto lowest = std::numeric_limits<int64_t>::min();
        bool overflowFlag = y > 0 ? x > highest - y : (y < 0 && x < lowest - y);
        return Result{result,'''),
('alu-addc', AL, '''        bool carryFlag = ux > (std::numeric_limits<uint64_t>::max() - uy);''', '''        bool carryFlag = ux + uy < ux;'''),
('alu-div', AL, '''    Result divide(int64_t x, int64_t y) {
        uint64_t ux = static_cast<uint64_t>(x);
        uint64_t uy = static_cast<uint64_t>(y);
        if (uy == 0) {
            throw T86ExecutionError("Division by zero");
        }
        uint64_t uresult = ux / uy;
        int64_t result = static_cast<int64_t>(uresult);
        bool signFlag = result < 0;
        bool zeroFlag = uresult == 0;''', '''    Result divide(int64_t x, int64_t y) {
        if (!y) {
            throw T86ExecutionError("Division by zero");
        }
        const auto result = static_cast<int64_t>(static_cast<uint64_t>(x) / static_cast<uint64_t>(y));
        bool signFlag = result < 0;
        bool zeroFlag = result == 0;'''),
('alu-bit', AL, '''    Result bit_and(int64_t x, int64_t y) {
        int64_t result = x & y;
        bool signFlag = result < 0;
        bool zeroFlag = result == 0;
        bool overflowFlag = false;
        bool carryFlag = false;
        return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
    }''', '''    static Result logicResult(int64_t result) {
        return Result{result, Flags{result < 0, result == 0, false, false}};
    }

    Result bit_and(int64_t x, int64_t y) {
        return logicResult(x & y);
    }'''),
('lea', IN, '''        int64_t address;
        if (mem_.isMemoryRegisterOffset()) {
            assert(operands.size() == 1);
            address = Operand::supply(mem_.getMemoryRegisterOffset(), operands[0].getValue()).index();
        }
        else if (mem_.isMemoryRegisterScaled()) {''', '''        int64_t address;
        const int64_t first = operands.at(0).getValue();
        if (mem_.isMemoryRegisterOffset()) {
            assert(operands.size() == 1);
            address = Operand::supply(mem_.getMemoryRegisterOffset(), first).index();
        }
        else if (mem_.isMemoryRegisterScaled()) {'''),
('movops', IN, '''            const auto& regReg = destination_.getMemoryRegisterRegister().regReg();
            return {value_, regReg.reg1(), regReg.reg2()};''', '''            std::vector<Operand> result{value_};
            const auto& regReg = destination_.getMemoryRegisterRegister().regReg();
            result.emplace_back(regReg.reg1());
            result.emplace_back(regReg.reg2());
            return result;'''),
('call', IN, '''        entry.setProgramCounter(operands[0].getValue());
        entry.specifyWriteAddress(memWriteIds[0], operands[2].getValue() - 1);
        entry.setWriteValue(memWriteIds[0], operands[1].getValue());
        entry.setStackPointer(operands[2].getValue() - 1);''', '''        const auto newSp = operands[2].getValue() - 1;
        entry.specifyWriteAddress(memWriteIds[0], newSp);
        entry.setWriteValue(memWriteIds[0], operands[1].getValue());
        entry.setStackPointer(newSp);
        entry.setProgramCounter(operands[0].getValue());'''),
('product', PR, '''        } else if (op.isMemoryRegister()
                || op.isMemoryRegisterOffset()
                || op.isMemoryRegisterScaled()
                || op.isMemoryRegisterRegister()
                || op.isMemoryRegisterOffsetRegister()
                || op.isMemoryRegisterRegisterScaled()
                || op.isMemoryRegisterOffsetRegisterScaled()) {
            return MemoryRegister();
        } else if (op.isFloatRegister()) {
            return op.getFloatRegister();''', '''        } else if (op.isFloatRegister()) {
            return op.getFloatRegister();
        } else if (op.isMemoryRegister()
                || op.isMemoryRegisterScaled()
                || op.isMemoryRegisterOffset()
                || op.isMemoryRegisterRegister()
                || op.isMemoryRegisterRegisterScaled()
                || op.isMemoryRegisterOffsetRegister()
                || op.isMemoryRegisterOffsetRegisterScaled()) {
            return MemoryRegister{};'''),
('flush', CPU, '''        if (instructionFetch_) {
            StatsLogger::instance().logClearSpeculation(instructionFetch_->loggingId);
            instructionFetch_ = std::nullopt;
        }
        if (instructionDecode_) {
            StatsLogger::instance().logClearSpeculation(instructionDecode_->loggingId);
            instructionDecode_ = std::nullopt;
        }''', '''        for (auto* stage : {&instructionFetch_, &instructionDecode_}) {
            if (*stage) {
                StatsLogger::instance().logClearSpeculation((*stage)->loggingId);
                stage->reset();
            }
        }'''),
('chkbr', CPU, '''        std::size_t predictedDestination = predictions_.front();
        predictions_.pop_front();
        if (predictedDestination != destination) {
            unrollSpeculation(entry.rat());
        }''', '''        const bool mispredicted = predictions_.front() != destination;
        predictions_.pop_front();
        if (mispredicted) {
            unrollSpeculation(entry.rat());
        }'''),
('nextguess', BP, '''    if (destination.isFetched()) {
        return destination.getValue();
    }
    else {
        // Just continue, without any special treatment
        return ++pc;
    }''', '''    return destination.isFetched() ? static_cast<uint64_t>(destination.getValue()) : pc + 1;'''),
('rat-ctor', RT, '''        std::size_t i = 0;
        for (; i < registerCnt; ++i) {
            table_.insert_or_assign(Register{i}, PhysicalRegister{i});
        }
        for (std::size_t j = 0; j < floatRegisterCnt; ++j, ++i) {
            table_.insert_or_assign(FloatRegister{j}, PhysicalRegister{i});
        }''', '''        for (std::size_t r = 0; r < registerCnt; ++r) {
            table_.insert_or_assign(Register{r}, PhysicalRegister{r});
        }
        for (std::size_t j = 0; j < floatRegisterCnt; ++j) {
            table_.insert_or_assign(FloatRegister{j}, PhysicalRegister{registerCnt + j});
        }
        std::size_t i = registerCnt + floatRegisterCnt;'''),
('rat-unm', RT, '''        return std::all_of(table_.begin(), table_.end(), [reg](const auto& mapping) {
            return mapping.second.index() != reg.index();
        });''', '''        for (const auto& [from, physical] : table_) {
            if (physical.index() == reg.index()) {
                return false;
            }
        }
        return true;'''),
('exectick', RS, '''        if (remainingExecutionTime_ != 0) {
            --remainingExecutionTime_;
        }
        // This is done "two-steps" because some instructions might have zero execution tickCount required
        if (remainingExecutionTime_ == 0) {''', '''        if (remainingExecutionTime_ > 0) {
            remainingExecutionTime_ -= 1;
        }
        if (remainingExecutionTime_ > 0) {
            return false;
        }
        {'''),
('readmem', RS, '''        try {
            return cpu_.readMemory(address, maxWriteId_);
        } catch(...) {
            memoryAccessException_ = std::current_exception();
            return {-1};
        }''', '''        std::optional<int64_t> value;
        try {
            value = cpu_.readMemory(address, maxWriteId_);
        } catch(...) {
            memoryAccessException_ = std::current_exception();
            value = -1;
        }
        return value;'''),
('dis-sw', NA, '''    if (bp.enabled) {
        std::vector<std::string> prev_data = {bp.data};
        process->WriteText(address, prev_data);
        bp.enabled = false;
    }''', '''    if (!bp.enabled) {
        return;
    }
    process->WriteText(address, {bp.data});
    bp.enabled = false;'''),
('setallwp', NA, '''    for (auto&& wp: watchpoints) {
        SetWatchpointWrite(wp.first);
    }''', '''    for (const auto& [address, _]: watchpoints) {
        SetWatchpointWrite(address);
    }'''),
('readtext', NA, '''    for (size_t i = 0; i < text.size(); ++i) {
        auto it = software_breakpoints.find(i + address);
        if (it != software_breakpoints.end()) {
            text.at(i) = it->second.data;
        }
    }''', '''    uint64_t current = address;
    for (auto& line : text) {
        if (auto it = software_breakpoints.find(current++); it != software_breakpoints.end()) {
            line = it->second.data;
        }
    }'''),
('parse', P_, '''        if (curtok.kind == TokenKind::ID
                && lex.getId() == "debug_source") {
            return {std::move(program), std::move(data)};
        }
        Section();''', '''        const bool source_section = curtok.kind == TokenKind::ID && lex.getId() == "debug_source";
        if (source_section) {
            return {std::move(program), std::move(data)};
        }
        Section();'''),
('movparse', P_, '''        if (!from.isFloatValue()
                && !from.isFloatRegister()
                && !from.isRegister()
                && !from.isMemoryImmediate()
                && !from.isMemoryRegister()) {''', '''        const bool allowed = from.isFloatValue() || from.isFloatRegister() || from.isRegister()
                || from.isMemoryImmediate() || from.isMemoryRegister();
        if (!allowed) {'''),
('fetchregs', TPH, '''            auto reg = utils::split(line, ':');
            result[reg.at(0)] = *utils::svtonum<T>(reg.at(1));''', '''            const auto parts = utils::split(line, ':');
            const auto value = utils::svtonum<T>(parts.at(1));
            result.insert_or_assign(parts.at(0), *value);'''),
('getreg', TP, '''    auto offset = response->find("VALUE:") + strlen("VALUE:");
    auto str_val = response->substr(offset);
    auto value = std::stoll(response->substr(offset));
    return value;''', '''    constexpr std::string_view prefix = "VALUE:";
    return std::stoll(response->substr(response->find(prefix) + prefix.size()));'''),
('wtext', TP, '''    for (size_t i = 0; i < data.size(); ++i) {
        std::istringstream iss(data[i]);''', '''    size_t i = 0;
    for (auto it = data.begin(); it != data.end(); ++it, ++i) {
        std::istringstream iss(*it);'''),
('pnum', LX, '''    while (true) {
        lookahead = GetChar();
        if (lookahead == '.') {
            is_float = true;

        } else if (!isdigit(lookahead)) {
            break;
        }
        num += lookahead;
    }''', '''    for (lookahead = GetChar(); lookahead == '.' || isdigit(lookahead); lookahead = GetChar()) {
        if (lookahead == '.') {
            is_float = true;
        }
        num += lookahead;
    }'''),
('prettybp', CL, '''        std::string res = " ";
        if (bps.contains(i) > 0) {
            if (bps.at(i).enabled) {
                res = fmt::format(fg(fmt::color::red), "@");
            } else {
                res = fmt::format(fg(fmt::color::gray), "@");
            }
        }
        return res;''', '''        auto it = bps.find(i);
        if (it == bps.end()) {
            return " ";
        }
        auto color = it->second.enabled ? fmt::color::red : fmt::color::gray;
        return fmt::format(fg(color), "@");'''),
('pfi', CL, '''            auto it = vars.begin();
            if (it != vars.end()) {
                variables += "; active variables: " + *it++;
            }
            while (it != vars.end()) {
                variables += ", " + *it++;
            }''', '''            for (const auto& name: vars) {
                variables += variables.empty() ? "; active variables: " : ", ";
                variables += name;
            }'''),
('natstep', CL, '''        DebugEvent e;
        if (step_over) {
            e = process.PerformStepOver();
        } else {
            e = process.PerformSingleStep();
        }''', '''        DebugEvent e = step_over ? process.PerformStepOver() : process.PerformSingleStep();'''),
('popt', CL, '''        if (f_it != commands.end()) {
            auto val = f_it->substr(searched_command.size());
            auto opt = utils::svtonum<size_t>(val);
            if (opt) {
                return *opt;
            }
        }
        return {};''', '''        if (f_it == commands.end()) {
            return {};
        }
        return utils::svtonum<size_t>(f_it->substr(searched_command.size()));'''),
('run-exit', CL, '''        while((line_raw = linenoise(prompt)) != NULL) {
            std::string line = utils::squash_strip_whitespace(line_raw);
            if (line == "") {
                goto FREE_LINE;
            }
            linenoiseHistoryAdd(line_raw);
            try {
                HandleCommand(line);
            } catch (const DebuggerError& err) {
                fmt::print("Error: {}\\n", err.what());
            }
FREE_LINE:
            free(line_raw);
        }''', '''        while((line_raw = linenoise(prompt)) != NULL) {
            std::string line = utils::squash_strip_whitespace(line_raw);
            if (!line.empty()) {
                linenoiseHistoryAdd(line_raw);
                try {
                    HandleCommand(line);
                } catch (const DebuggerError& err) {
                    fmt::print("Error: {}\\n", err.what());
                }
            }
            free(line_raw);
        }'''),
]
