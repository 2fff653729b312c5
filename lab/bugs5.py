INS, EX, EI, SC, SH, CL, NA, TP, PA, EP, HP, MW = 't86/instruction.cpp', 'debugger/Source/Expression.cpp', 'debugger/Source/ExpressionInterpreter.cpp', 'debugger/Source/Source.cpp', 'debugger/Source/Source.h', 'dbg-cli/CLI.h', 'debugger/Native.cpp', 'debugger/T86Process.cpp', 't86-parser/parser.cpp', 'debugger/Source/ExpressionParser.cpp', 'common/helpers.h', 't86/cpu/memory_writes_manager/memory_writes.cpp'
E = [
('lea-swap', INS, '''                    Operand::supply(mem_.getMemoryRegisterRegisterScaled(), operands[0].getValue()),
                    operands[1].getValue()
            ).index();
        }
        else if (mem_.isMemoryRegisterOffsetRegisterScaled()) {
            assert(operands.size() == 2);
            address = Operand::supply(
                    Operand::supply(mem_.getMemoryRegisterOffsetRegisterScaled(), operands[0].getValue()),
                    operands[1].getValue()
            ).index();
        }
        else {
            throw std::runtime_error("Unhandled operand type");
        }
        entry.setRegister(reg_, address);''', '''                    Operand::supply(mem_.getMemoryRegisterRegisterScaled(), operands[1].getValue()),
                    operands[0].getValue()
            ).index();
        }
        else if (mem_.isMemoryRegisterOffsetRegisterScaled()) {
            assert(operands.size() == 2);
            address = Operand::supply(
                    Operand::supply(mem_.getMemoryRegisterOffsetRegisterScaled(), operands[0].getValue()),
                    operands[1].getValue()
            ).index();
        }
        else {
            throw std::runtime_error("Unhandled operand type");
        }
        entry.setRegister(reg_, address);'''),
('mov-freg', INS, '''        if (destination_.isRegister() || destination_.isFloatRegister()) {
            return;''', '''        if (destination_.isRegister() || destination_.isFloatRegister() || entry.memoryWriteIds().size() != 1) {
            return;'''),
('loop-le', INS, '''        entry.operands().emplace_back(res.value);
        if (res.value != 0) {
            entry.setProgramCounter''', '''        entry.operands().emplace_back(res.value);
        if (res.value > 0) {
            entry.setProgramCounter'''),
('call-ret', INS, '''        entry.writeMemory(memWriteIds[0]);
        entry.processJump(true);
    }

    void CALL::execute''', '''        entry.processJump(true);
        entry.writeMemory(memWriteIds[0]);
    }

    void CALL::execute'''),
('fpush-conv', INS, '''utils::reinterpret_safe<int64_t>(opVal));
        entry.setStackPointer(''', '''static_cast<int64_t>(opVal));
        entry.setStackPointer('''),
('addop', EI, 'expr::Offset{rval1 + i2.value}', 'expr::Offset{rval1 + static_cast<int32_t>(i2.value)}'),
('fbase', EI, 'auto loc = bp + ins.offset;', 'auto loc = bp + std::abs(ins.offset);'),
('derefpop', EI, '''auto idx = native.ReadMemory(offset.value, 1)[0];
                            return native.ReadMemory(idx, 1)[0];''', '''return native.ReadMemory(offset.value, 1)[0];'''),
('dieid', SC, '''    if (found_id && found_id->id == id) {''', '''    if (found_id && (found_id->id & 0xff) == (id & 0xff)) {'''),
('rmstr', SC, '''        if (c == '\\0') {
            break;''', '''        if (c == '\\0' || result.size() > 255) {
            break;'''),
('varloc', SC, '''            || location_attr->locs.empty()) {''', '''            || location_attr->locs.size() < 2) {'''),
('vartype', SC, '''    auto type = FindDieAttribute<ATTR_type>(*var);
    if (type == nullptr) {
        return {};
    }

    auto it = types.find(type->type_id);
    if (it == types.end()) {
        return {};
    }
    return types.at(type->type_id);''', '''    auto type = FindDieAttribute<ATTR_type>(*var);
    if (type == nullptr) {
        return {};
    }

    auto it = types.lower_bound(type->type_id);
    if (it == types.end()) {
        return {};
    }
    return it->second;'''),
('tyname', SC, '''        [](const CharValue&) {
            return "char"s; ''', '''        [](const CharValue& v) {
            return v.value < 0 ? "int"s : "char"s; '''),
('arrsuf', SC, '''return fmt::format("{}[]", TypeToString(types.at(t.type_id))); ''', '''return fmt::format("{}[{}]", TypeToString(types.at(t.type_id)), t.cnt); '''),
('arrsize', SH, '''return subtype * t.cnt;''', '''return subtype * (t.cnt ? t.cnt : 1);'''),
('attrlast', SH, '''        if (found != nullptr) {
            return found;
        }
    }
    return nullptr;
}''', '''        if (found != nullptr && it != die.begin_attr()) {
            return found;
        }
    }
    return nullptr;
}'''),
('charop', EX, '''        [&](CharValue&& left, CharValue&& right) -> TypedValue {
            return IntegerValue{op(left.value, right.value)}; 
        },
        [&](auto&&, auto&&) -> TypedValue {
            throw DebuggerError("Unsupported types for operator binary operator");''', '''        [&](CharValue&& left, CharValue&& right) -> TypedValue {
            return CharValue{static_cast<char>(op(left.value, right.value))}; 
        },
        [&](auto&&, auto&&) -> TypedValue {
            throw DebuggerError("Unsupported types for operator binary operator");'''),
('unchar', EX, '''            return CharValue{static_cast<char>(op(v.value))};''', '''            return CharValue{static_cast<char>(op(static_cast<unsigned char>(v.value)))};'''),
('deref32', EX, '''auto loc = expr::Offset{static_cast<int64_t>(ptr.value)};''', '''auto loc = expr::Offset{static_cast<int32_t>(ptr.value)};'''),
('parse-atoi', PA, '''    } else if (regname[0] != 'R') {''', '''    } else if (regname[0] != 'R' && regname[0] != 'r') {'''),
('getreg', PA, '''tiny::t86::Register{static_cast<size_t>(std::atoi(regname.data()))}''', '''tiny::t86::Register{static_cast<size_t>(std::atoi(regname.data()) & 0xff)}'''),
('datastr', PA, '''            data.push_back(0);
            GetNext();''', '''            if (data.empty() || data.back() != 0) data.push_back(0);
            GetNext();'''),
('opF', PA, '''        if (id.at(0) == 'F') {
            return FloatRegister();
        } else {
            return Register();''', '''        if (id.at(0) == 'F' && id.size() == 2) {
            return FloatRegister();
        } else {
            return Register();'''),
('immneg', PA, '''        auto val = neg * lex.getNumber();''', '''        auto val = neg * static_cast<int>(lex.getNumber());'''),
('reportend', CL, '''            Error("Process finished executing, no frame information available.");
        }
        PrintFunctionInfo(process.GetIP(), true);''', '''            Error("Process finished executing, no frame information available.");
        }
        PrintFunctionInfo(process.GetIP() - 1, true);'''),
('srcstep', CL, '''        if (!std::holds_alternative<Singlestep>(e)) {
            ReportDebugEvent(e);
        }
        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        } else {
            auto ip = process.GetIP();
            auto line = source.AddrToLine(ip);''', '''        if (!std::holds_alternative<Singlestep>(e)) {
            ReportDebugEvent(e);
        }
        if (std::holds_alternative<ExecutionEnd>(e) && !step_over) {
            is_running = false;
        } else {
            auto ip = process.GetIP();
            auto line = source.AddrToLine(ip);'''),
('inext', CL, '''        if (command == "") {
            NativeLevelStep(true);''', '''        if (command == "") {
            NativeLevelStep(is_running);'''),
('inext2', CL, '''        if (command == "") {
            NativeLevelStep(true);''', '''        if (command == "") {
            NativeLevelStep(false);'''),
('attachsrc', CL, '''        process = Native(std::move(debuggee));
        if (fname) {
            std::ifstream''', '''        process = Native(std::move(debuggee));
        if (fname && subcommands.size() > 1) {
            std::ifstream'''),
('hwidx', NA, '''return w.second.hw_reg == idx; });
        assert''', '''return w.second.hw_reg >= idx; });
        assert'''),
('cpuerr', NA, '''return CpuError{GetIP()};''', '''return CpuError{GetIP() - 1};'''),
('rmwp', NA, '''    Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
    process->SetDebugRegisters(dbg_regs);
    watchpoints.erase(address); ''', '''    Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
    watchpoints.erase(address); 
    if (!watchpoints.empty()) process->SetDebugRegisters(dbg_regs);'''),
('dbgregs', TP, '''        process->Send(fmt::format("POKEDEBUGREGS {} {}", name, val));
        CheckResponse("POKEDEBUGREGS error");''', '''        if (val == 0) continue;
        process->Send(fmt::format("POKEDEBUGREGS {} {}", name, val));
        CheckResponse("POKEDEBUGREGS error");'''),
('rmpend', MW, '''            if (writeIt->isPending()) {
                // Still pending
                removed''', '''            if (writeIt->isPending() && writeIt->hasValue()) {
                // Still pending
                removed'''),
('assignr', EP, '''        auto next = equality();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }
    return result;
}

std::unique_ptr<Expression> ExpressionParser::equality() {''', '''        auto next = logical();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }
    return result;
}

std::unique_ptr<Expression> ExpressionParser::equality() {'''),
('squash', HP, '''            } else if (!last_space) {
                result.push_back(c);''', '''            } else if (!last_space && c != '\\t') {
                result.push_back(c);'''),
]
