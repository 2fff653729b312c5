S='debugger/Source/Source.cpp'; X='debugger/Source/Expression.cpp'; EP='debugger/Source/ExpressionParser.cpp'; EI='debugger/Source/ExpressionInterpreter.cpp'; P='debugger/Source/Parser.cpp'; LM='debugger/Source/LineMapping.cpp'
E=[
('setbp',S,'''uint64_t Source::SetSourceSoftwareBreakpoint(Native& native, size_t line) const {
    auto mapping = UnwrapOptional(line_mapping, "No debug info for line mapping");
    auto addr =
        UnwrapOptional(mapping.GetAddress(line),
                       fmt::format("No debug info for line '{}'", line));
    native.SetBreakpoint(addr);
    return addr;
}

uint64_t Source::UnsetSourceSoftwareBreakpoint(Native& native, size_t line) const {
    auto mapping = UnwrapOptional(line_mapping, "No debug info for line mapping");
    auto addr =
        UnwrapOptional(mapping.GetAddress(line),
                       fmt::format("No debug info for line '{}'", line));
''','''static uint64_t ResolveLine(const std::optional<LineMapping>& lm, size_t line) {
    if (!lm) {
        throw DebuggerError("No debug info for line mapping");
    }
    auto addr = lm->GetAddress(line);
    if (!addr) {
        throw DebuggerError(fmt::format("No debug info for line '{}'", line));
    }
    return *addr;
}

uint64_t Source::SetSourceSoftwareBreakpoint(Native& native, size_t line) const {
    const uint64_t addr = ResolveLine(line_mapping, line);
    native.SetBreakpoint(addr);
    return addr;
}

uint64_t Source::UnsetSourceSoftwareBreakpoint(Native& native, size_t line) const {
    const uint64_t addr = ResolveLine(line_mapping, line);
'''),
('addr2line',S,'''    auto max = std::max_element(lines.begin(), lines.end());
    if (max == lines.end()) {
        return {};
    }
    return *max;''','''    if (lines.empty()) {
        return std::nullopt;
    }
    return *std::max_element(lines.begin(), lines.end());'''),
('line2addr',S,'''    if (!line_mapping) {
        return {};
    }
    return line_mapping->GetAddress(addr);''','''    return line_mapping ? line_mapping->GetAddress(addr) : std::nullopt;'''),
('linesrange',S,'''    for (size_t i = 0; i < amount; ++i) {
        auto r = source_file->GetLine(i + idx);
        if (!r) {
            break;
        }
        result.emplace_back(*r);
    }
    return result;''','''    size_t i = 0;
    while (i < amount) {
        if (auto r = source_file->GetLine(idx + i); r) {
            result.push_back(*r);
        } else {
            break;
        }
        i++;
    }
    return result;'''),
('getline',S,'''    if (source_file) {
        return source_file->GetLine(line);
    } else {
        return {};
    }''','''    if (!source_file.has_value()) {
        return std::nullopt;
    }
    return source_file->GetLine(line);'''),
('finddie',S,'''    auto found_id = FindDieAttribute<ATTR_id>(die);
    if (found_id && found_id->id == id) {
        return &die;
    }

    for (const auto& child: die) {
        auto found = FindDIEById(child, id);
        // IDs are unique, we can stop if we found one.
        if (found) {
            return found;
        }
    }
    return nullptr;''','''    if (const auto* found_id = FindDieAttribute<ATTR_id>(die);
            found_id != nullptr && id == found_id->id) {
        return &die;
    }
    for (const auto& child: die) {
        if (const DIE* found = FindDIEById(child, id)) {
            return found;
        }
    }
    return nullptr;'''),
('fnname',S,'''        if (die.get_tag() == DIE::TAG::function) {
            log_info("Found function DIE");
            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            log_debug("Begin and end pointers: {} {}", fmt::ptr(begin_addr), fmt::ptr(end_addr));
            if (begin_addr && end_addr
                    && begin_addr->addr <= address && address < end_addr->addr) {
                auto name = FindDieAttribute<ATTR_name>(die);
                if (name) {
                    return name->n;
                }
            }
        }''','''        if (die.get_tag() != DIE::TAG::function) {
            continue;
        }
        auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
        auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
        if (!begin_addr || !end_addr) {
            continue;
        }
        const bool inside = address >= begin_addr->addr && !(address >= end_addr->addr);
        if (!inside) {
            continue;
        }
        if (auto name = FindDieAttribute<ATTR_name>(die); name != nullptr) {
            return name->n;
        }'''),
('fnaddr',S,'''            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            if (begin_addr == nullptr) {
                return {};
            }
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            if (end_addr == nullptr) {
                return {};
            }
            return {std::make_pair(begin_addr->addr, end_addr->addr)};''','''            auto begin_addr = FindDieAttribute<ATTR_begin_addr>(die);
            auto end_addr = FindDieAttribute<ATTR_end_addr>(die);
            if (begin_addr == nullptr || end_addr == nullptr) {
                return std::nullopt;
            }
            return std::make_pair(begin_addr->addr, end_addr->addr);'''),
('vardie',S,'''    auto vars = GetActiveVariables(address);
    std::string n = std::string{name};
    if (vars.contains(n)) {
        return vars.at(n);
    }
    return nullptr;''','''    const auto vars = GetActiveVariables(address);
    if (auto it = vars.find(std::string{name}); it != vars.end()) {
        return it->second;
    }
    return nullptr;'''),
('varloc',S,'''    if (location_attr == nullptr
            || location_attr->locs.empty()) {
        return {};
    }

    auto loc = ExpressionInterpreter::Interpret(location_attr->locs, native);
    return loc;''','''    if (location_attr != nullptr && !location_attr->locs.empty()) {
        return ExpressionInterpreter::Interpret(location_attr->locs, native);
    }
    return {};'''),
('prim',S,'''            types[id->id] = PrimitiveType{.type = *primitive_type, .size = size->size};''','''            PrimitiveType prim{.type = primitive_type.value(), .size = size->size};
            types.insert_or_assign(id->id, prim);'''),
('structt',S,'''            std::transform(members->m.begin(), members->m.end(),
                    std::back_inserter(members_vec),
                    [](auto &&m) {
                return StructuredMember{m.name, m.type_id, m.offset};
            });''','''            for (const auto& m: members->m) {
                members_vec.push_back(StructuredMember{m.name, m.type_id, m.offset});
            }'''),
('typeinfo',S,'''    auto it = types.find(type->type_id);
    if (it == types.end()) {
        return {};
    }
    return types.at(type->type_id);''','''    if (auto it = types.find(type->type_id); it != types.end()) {
        return it->second;
    }
    return std::nullopt;'''),
('stepin',S,'''    auto e = native.PerformSingleStep();
    while (std::holds_alternative<Singlestep>(e)
            && !AddrToLine(native.GetIP())) {
        e = native.DoRawSingleStep();
    }
    return e;''','''    DebugEvent e = native.PerformSingleStep();
    while (true) {
        if (!std::holds_alternative<Singlestep>(e)) {
            break;
        }
        if (AddrToLine(native.GetIP()).has_value()) {
            break;
        }
        e = native.DoRawSingleStep();
    }
    return e;'''),
('findvars',S,'''        if (!begin_addr || !end_addr
                || !(begin_addr->addr <= address && address < end_addr->addr)) {
            return;
        }''','''        if (!begin_addr || !end_addr) {
            return;
        }
        if (address < begin_addr->addr || end_addr->addr <= address) {
            return;
        }'''),
('evalexpr',S,'''    if (cache) {
        evaluated_expressions.emplace_back(eval.YieldResult());
        return {evaluated_expressions.back(), evaluated_expressions.size() - 1};
    }
    return {eval.YieldResult(), 0};''','''    if (!cache) {
        return {eval.YieldResult(), 0};
    }
    const size_t position = evaluated_expressions.size();
    evaluated_expressions.push_back(eval.YieldResult());
    return {evaluated_expressions.back(), position};'''),
('scoped',S,'''    std::transform(vars.begin(), vars.end(),
            std::inserter(result, result.end()),
            [](auto&& p) { return p.first; });
    return result;''','''    for (const auto& [name, die]: vars) {
        result.insert(name);
    }
    return result;'''),
('typetostr',S,'''            if (!types.contains(t.type_id)) {
                return fmt::format("<unknown>*");
            }
            return fmt::format("{}*", TypeToString(types.at(t.type_id))); ''','''            auto it = types.find(t.type_id);
            return it == types.end() ? std::string("<unknown>*")
                                     : TypeToString(it->second) + "*";'''),
('readstr',S,'''        if (c == '\\0') {
            break;
        } else if (c == '\\n') {
            result += "\\\\n";
        } else if (c == '\\t') {
            result += "\\\\t";
        } else {
            result += c;
        }''','''        if (c == '\\0') {
            break;
        }
        switch (c) {
        case '\\n':
            result += "\\\\n";
            break;
        case '\\t':
            result += "\\\\t";
            break;
        default:
            result += c;
            break;
        }'''),
('addrstr',S,'''    uint64_t address;
    auto line = utils::svtonum<uint64_t>(s);
    if (!line) {
        auto function = GetFunctionAddrByName(s);
        if (!function) {
            throw DebuggerError(fmt::format("Expected line or function name, '{}' is neither.", s));
        }
        address = function->first;
    } else {
        if (*line == 0 && start_at_one) {
            throw DebuggerError("Lines starts from one");
        }
        auto address_opt = LineToAddr(*line - start_at_one);
        if (!address_opt) {
            throw DebuggerError(fmt::format("No debug info for line {}", *line));
        }
        address = *address_opt;
    }
    return address;''','''    if (auto line = utils::svtonum<uint64_t>(s); line) {
        if (start_at_one && *line == 0) {
            throw DebuggerError("Lines starts from one");
        }
        auto address_opt = LineToAddr(start_at_one ? *line - 1 : *line);
        if (address_opt) {
            return *address_opt;
        }
        throw DebuggerError(fmt::format("No debug info for line {}", *line));
    }
    auto function = GetFunctionAddrByName(s);
    if (!function.has_value()) {
        throw DebuggerError(fmt::format("Expected line or function name, '{}' is neither.", s));
    }
    return function->first;'''),
('getraw',X,'''    return std::visit(utils::overloaded{
        [&](const expr::Register& reg) {
            return native.GetRegister(reg.name);
        },
        [&](const expr::Offset& offset) {
            return native.ReadMemory(offset.value, 1)[0];
        },
    }, loc);
}

ExpressionEvaluator''','''    if (const auto* reg = std::get_if<expr::Register>(&loc)) {
        return native.GetRegister(reg->name);
    }
    const auto& offset = std::get<expr::Offset>(loc);
    return native.ReadMemory(offset.value, 1)[0];
}

ExpressionEvaluator'''),
('evalprim',X,'''            if (t.type == PrimitiveType::Type::SIGNED) {
                return IntegerValue{utils::reinterpret_safe<int64_t>(raw_value), loc};
            } else if (t.type == PrimitiveType::Type::FLOAT) {
                return FloatValue{utils::reinterpret_safe<double>(raw_value), loc};
            } else if (t.type == PrimitiveType::Type::CHAR) {
                return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
            } else {
                NOT_IMPLEMENTED;
            }''','''            switch (t.type) {
            case PrimitiveType::Type::CHAR:
                return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
            case PrimitiveType::Type::FLOAT:
                return FloatValue{utils::reinterpret_safe<double>(raw_value), loc};
            case PrimitiveType::Type::SIGNED:
                return IntegerValue{utils::reinterpret_safe<int64_t>(raw_value), loc};
            default:
                NOT_IMPLEMENTED;
            }'''),
('evalarr',X,'''            for (size_t i = 0; i < t.cnt; ++i) {
                auto member_location = expr::Offset{static_cast<int64_t>(
                    l->value + i * source.GetTypeSize(t.type_id))};''','''            const auto stride = source.GetTypeSize(t.type_id);
            for (size_t i = 0; i < t.cnt; ++i) {
                auto member_location = expr::Offset{static_cast<int64_t>(
                    l->value + stride * i)};'''),
('visitid',X,'''    if (!loc || !type) {
        throw DebuggerError(fmt::format("Not enough type info about variable '{}'", id.id));
    }
    visitor_value = EvaluateTypeAndLocation(*loc, *type);''','''    if (loc.has_value() && type.has_value()) {
        visitor_value = EvaluateTypeAndLocation(loc.value(), type.value());
        return;
    }
    throw DebuggerError(fmt::format("Not enough type info about variable '{}'", id.id));'''),
('visitev',X,'''    if (e.idx >= evaluated_expressions.size()) {
        throw DebuggerError(fmt::format("No expression ${}", e.idx));
    }
    visitor_value = evaluated_expressions[e.idx];''','''    if (!(e.idx < evaluated_expressions.size())) {
        throw DebuggerError(fmt::format("No expression ${}", e.idx));
    }
    visitor_value = evaluated_expressions.at(e.idx);'''),
('deref',X,'''    if (!std::holds_alternative<PointerValue>(val)) {
        throw DebuggerError("Can only dereference pointers");
    }
    auto ptr = std::get<PointerValue>(std::move(val));
    auto* points_to_type = source.GetType(ptr.type.type_id);
    if (points_to_type == nullptr) {
        throw DebuggerError("Not enough type information");
    }
    log_info("Pointer value: {}", ptr.value);
    auto loc = expr::Offset{static_cast<int64_t>(ptr.value)};
    return EvaluateTypeAndLocation(loc, *points_to_type);''','''    const auto* ptr = std::get_if<PointerValue>(&val);
    if (ptr == nullptr) {
        throw DebuggerError("Can only dereference pointers");
    }
    if (auto* pointee = source.GetType(ptr->type.type_id); pointee != nullptr) {
        return EvaluateTypeAndLocation(expr::Offset{static_cast<int64_t>(ptr->value)}, *pointee);
    }
    throw DebuggerError("Not enough type information");'''),
('addv',X,'''            auto item_size = source.GetTypeSize(right.type.type_id);
            return PointerValue{right.type, left.value * item_size + right.value};''','''            const auto stride = source.GetTypeSize(right.type.type_id);
            const auto moved = right.value + stride * left.value;
            return PointerValue{right.type, moved};'''),
('arracc',X,'''        if (idx->value >= static_cast<int64_t>(av->members.size())) {
            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
        }
        visitor_value = av->members[idx->value];''','''        const auto count = static_cast<int64_t>(av->members.size());
        if (!(idx->value < count)) {
            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, count));
        }
        auto member = av->members[idx->value];
        visitor_value = std::move(member);'''),
('unary',X,'''    switch (op.op) {
    break; case UnaryOperator::Op::Deref:
        visitor_value = Dereference(std::move(target)); 
    break; case UnaryOperator::Op::Not:
        visitor_value = EvaluateUnary(target, std::bit_not{});
    break; case UnaryOperator::Op::LNot:
        visitor_value = EvaluateUnary(target, std::logical_not{});
    break; case UnaryOperator::Op::Negate:
        visitor_value = EvaluateUnary(target, std::negate{});
    }''','''    if (op.op == UnaryOperator::Op::Deref) {
        visitor_value = Dereference(std::move(target));
    } else if (op.op == UnaryOperator::Op::Negate) {
        visitor_value = EvaluateUnary(target, std::negate{});
    } else if (op.op == UnaryOperator::Op::LNot) {
        visitor_value = EvaluateUnary(target, std::logical_not{});
    } else if (op.op == UnaryOperator::Op::Not) {
        visitor_value = EvaluateUnary(target, std::bit_not{});
    }'''),
('assignst',X,'''            for (auto&& [name, val]: left.members) {
                if (!right.members.contains(name)) {
                    throw DebuggerError("Incompatible structured type for assignment");
                }
                result[name] = Assignment(std::move(val), std::move(right.members.at(name)));
            }''','''            for (auto& [name, val]: left.members) {
                auto it = right.members.find(name);
                if (it == right.members.end()) {
                    throw DebuggerError("Incompatible structured type for assignment");
                }
                result[name] = Assignment(std::move(val), std::move(it->second));
            }'''),
('accmem',X,'''    if (!std::holds_alternative<StructuredValue>(base)) {
        throw DebuggerError("Member access can only be used on structured values");
    }
    auto structured = std::get<StructuredValue>(base);
    if (!structured.members.contains(member)) {
        throw DebuggerError(fmt::format("The '{}' doesn't have '{}' member",
                                        structured.name, member));
    }
    return structured.members.at(member);''','''    const auto* structured = std::get_if<StructuredValue>(&base);
    if (!structured) {
        throw DebuggerError("Member access can only be used on structured values");
    }
    const auto it = structured->members.find(member);
    if (it != structured->members.end()) {
        return it->second;
    }
    throw DebuggerError(fmt::format("The '{}' doesn't have '{}' member",
                                    structured->name, member));'''),
('assignp',EP,'''    std::unique_ptr<Expression> result = equality();
    while (curtok.kind == TokenKind::ASSIGN) {
        auto kind = curtok.kind;
        GetNext();
        auto next = equality();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }
    return result;''','''    auto result = equality();
    for (; curtok.kind == TokenKind::ASSIGN;) {
        GetNext();
        auto next = equality();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  BinaryOperator::Op::Assign,
                                                  std::move(next));
    }
    return result;'''),
('factorp',EP,'''    while (curtok.kind == TokenKind::TIMES
            || curtok.kind == TokenKind::MOD
            || curtok.kind == TokenKind::SLASH) {
        auto kind = curtok.kind;
        GetNext();
        auto next = unary();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }''','''    auto isFactorOp = [](TokenKind k) {
        return k == TokenKind::SLASH || k == TokenKind::TIMES || k == TokenKind::MOD;
    };
    while (isFactorOp(curtok.kind)) {
        const auto op = operators.at(curtok.kind);
        GetNext();
        auto rhs = unary();
        result = std::make_unique<BinaryOperator>(std::move(result), op, std::move(rhs));
    }'''),
('unaryp',EP,'''    if (unary_operators.contains(curtok.kind)) {
        auto op = unary_operators.at(curtok.kind);
        GetNext();
        auto e = unary();
        return std::make_unique<UnaryOperator>(std::move(e), op);
    }
    return postfix();''','''    auto it = unary_operators.find(curtok.kind);
    if (it == unary_operators.end()) {
        return postfix();
    }
    GetNext();
    auto operand = unary();
    return std::make_unique<UnaryOperator>(std::move(operand), it->second);'''),
('primaryp',EP,'''    if (curtok.kind == TokenKind::NUM) {
        auto num = lex.getNumber();
        GetNext();
        return std::make_unique<Integer>(num);
    } else if (curtok.kind == TokenKind::FLOAT) {''','''    const auto kind = curtok.kind;
    if (kind == TokenKind::NUM) {
        auto num = lex.getNumber();
        GetNext();
        return std::make_unique<Integer>(num);
    }
    if (kind == TokenKind::FLOAT) {'''),
('addop',EI,'''            auto rval1 = native.GetRegister(r1.name);
            return std::visit(utils::overloaded {
                [&](const expr::Offset& i2) {
                    return expr::Offset{rval1 + i2.value};
                },
                [&](const expr::Register& r2) {
                    auto rval2 = native.GetRegister(r2.name);
                    return expr::Offset{rval1 + rval2};
                },
            }, o2);''','''            const auto lhs = native.GetRegister(r1.name);
            if (auto* i2 = std::get_if<expr::Offset>(&o2)) {
                return expr::Offset{i2->value + lhs};
            }
            const auto& r2 = std::get<expr::Register>(o2);
            return expr::Offset{lhs + native.GetRegister(r2.name)};'''),
('interp',EI,'''                auto bp = native.GetRegister(frame_base_reg_name);
                auto loc = bp + ins.offset;
                s.push(expr::Offset{loc});''','''                s.push(expr::Offset{ins.offset + native.GetRegister(frame_base_reg_name)});'''),
('interp2',EI,'''    vm.Interpret();
    if (vm.s.empty()) {
        throw DebuggerError("Empty stack at the end of location expression evaluation.");
    }
    return vm.s.top();''','''    vm.Interpret();
    if (!vm.s.empty()) {
        return vm.s.top();
    }
    throw DebuggerError("Empty stack at the end of location expression evaluation.");'''),
('getaddr',LM,'''    if (it == location_mapping.end()) {
        return {};
    }
    return it->second;''','''    return it != location_mapping.end() ? std::optional<uint64_t>(it->second) : std::nullopt;'''),
('getlines',LM,'''    return std::accumulate(location_mapping.begin(), location_mapping.end(),
            std::vector<size_t>(), [address](std::vector<size_t> acc, auto&& mapping) {
        if (mapping.second == address) {
            acc.push_back(mapping.first);
        }
        return std::move(acc);
    });''','''    std::vector<size_t> lines;
    for (const auto& [line, addr] : location_mapping) {
        if (addr == address) {
            lines.push_back(line);
        }
    }
    return lines;'''),
('dbgline',P,'''        auto address = lex.getNumber();
        location_mapping[source_line] = address;
        GetNext();''','''        const auto address = lex.getNumber();
        GetNext();
        location_mapping.insert_or_assign(source_line, address);'''),
('dietag',P,'''    if (v == "DIE_function") {
        return DIE::TAG::function;
    } else if (v == "DIE_primitive_type") {
        return DIE::TAG::primitive_type;
    } else if (v == "DIE_structured_type") {
        return DIE::TAG::structured_type;
    } else if (v == "DIE_pointer_type") {
        return DIE::TAG::pointer_type;
    } else if (v == "DIE_array_type") {
        return DIE::TAG::array_type;
    } else if (v == "DIE_variable") {
        return DIE::TAG::variable;
    } else if (v == "DIE_scope") {
        return DIE::TAG::scope;
    } else if (v == "DIE_compilation_unit") {
        return DIE::TAG::compilation_unit;
    } else {
        throw CreateError("Unknown DIE tag '{}'.", v);
    }''','''    static const std::map<std::string_view, DIE::TAG> tags = {
        {"DIE_function", DIE::TAG::function},
        {"DIE_scope", DIE::TAG::scope},
        {"DIE_primitive_type", DIE::TAG::primitive_type},
        {"DIE_structured_type", DIE::TAG::structured_type},
        {"DIE_pointer_type", DIE::TAG::pointer_type},
        {"DIE_array_type", DIE::TAG::array_type},
        {"DIE_variable", DIE::TAG::variable},
        {"DIE_compilation_unit", DIE::TAG::compilation_unit},
    };
    auto it = tags.find(v);
    if (it == tags.end()) {
        throw CreateError("Unknown DIE tag '{}'.", v);
    }
    return it->second;'''),
('offset',P,'''    int neg = 1;
    if (curtok.kind == TokenKind::MINUS) {
        neg = -1;
        GetNext();
    }
    if (curtok.kind == TokenKind::NUM) {
        auto num = neg * lex.getNumber();
        GetNext();
        return expr::Offset{num};
    } else {
        throw CreateError("Expected number possibly beginning with '-'.");
    }''','''    const bool negative = curtok.kind == TokenKind::MINUS;
    if (negative) {
        GetNext();
    }
    if (curtok.kind != TokenKind::NUM) {
        throw CreateError("Expected number possibly beginning with '-'.");
    }
    auto num = lex.getNumber();
    GetNext();
    return expr::Offset{negative ? -num : num};'''),
('exprloc',P,'''        GetNext();
        while (curtok.kind != TokenKind::RBRACKET) {
            auto loc = ParseOneExprLoc();
            result.push_back(std::move(loc));
            if (curtok.kind == TokenKind::SEMICOLON) {
                GetNext(); // Eat the ';'
            } else if (curtok.kind != TokenKind::RBRACKET) {
                throw CreateError("Expected semicolon to separate expressions");
            }
        }
        GetNext();''','''        GetNext();
        while (curtok.kind != TokenKind::RBRACKET) {
            result.emplace_back(ParseOneExprLoc());
            if (curtok.kind == TokenKind::RBRACKET) {
                continue;
            }
            if (curtok.kind != TokenKind::SEMICOLON) {
                throw CreateError("Expected semicolon to separate expressions");
            }
            GetNext();
        }
        GetNext();'''),
('attrname',P,'''        std::string id;
        if (curtok.kind == TokenKind::ID) {
            id = lex.getId();
        } else {
            id = lex.getStr();
        }
        GetNext();
        return ATTR_name{std::move(id)};''','''        std::string id = curtok.kind == TokenKind::ID ? lex.getId() : lex.getStr();
        GetNext();
        return ATTR_name{std::move(id)};'''),
('parse',P,'''        GetNext();
        if (curtok.kind != TokenKind::ID) {
            throw CreateError("Expected section name");
        }
        auto section_name = lex.getId();''','''        if (GetNext() != TokenKind::ID) {
            throw CreateError("Expected section name");
        }
        const std::string section_name = lex.getId();'''),
]
