EXP='debugger/Source/Expression.cpp'
PAR='debugger/Source/ExpressionParser.cpp'
SC='debugger/Source/Source.cpp'
SH='debugger/Source/Source.h'
CLI='dbg-cli/CLI.h'
ASM='t86-parser/parser.cpp'
E=[
('setraw', EXP, '''    std::visit(utils::overloaded {
        [&](const expr::Register& r) {
            native.SetRegister(r.name, value);
        },
        [&](const expr::Offset& r) {
            native.SetMemory(r.value, {*(int64_t*)&value});
        },
    }, loc);
''','''    if (auto reg = std::get_if<expr::Register>(&loc)) {
        native.SetRegister(reg->name, value);
    } else {
        const auto& off = std::get<expr::Offset>(loc);
        native.SetMemory(off.value, {static_cast<int64_t>(value)});
    }
'''),
('assign-level', PAR, '''    while (curtok.kind == TokenKind::ASSIGN) {
        auto kind = curtok.kind;
        GetNext();
        auto next = equality();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));
    }
    return result;
''','''    for (;;) {
        if (curtok.kind != TokenKind::ASSIGN) {
            return result;
        }
        GetNext();
        auto right = equality();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  BinaryOperator::Op::Assign,
                                                  std::move(right));
    }
'''),
('equality-level', PAR, '''    while (curtok.kind == TokenKind::EQ
            || curtok.kind == TokenKind::NEQ) {
        auto kind = curtok.kind;
        GetNext();
        auto next = logical();
''','''    while (!(curtok.kind != TokenKind::NEQ
            && curtok.kind != TokenKind::EQ)) {
        const auto kind = curtok.kind;
        GetNext();
        std::unique_ptr<Expression> next = logical();
'''),
('unary', PAR, '''    if (unary_operators.contains(curtok.kind)) {
        auto op = unary_operators.at(curtok.kind);
        GetNext();
        auto e = unary();
        return std::make_unique<UnaryOperator>(std::move(e), op);
    }
    return postfix();
''','''    auto it = unary_operators.find(curtok.kind);
    if (it == unary_operators.end()) {
        return postfix();
    }
    GetNext();
    return std::make_unique<UnaryOperator>(unary(), it->second);
'''),
('postfix', PAR, '''        } else if (curtok.kind == TokenKind::ARROW) {
            if (GetNext() != TokenKind::ID) {
                throw CreateError("Expected member name after '.'");
            }
            auto member = lex.getId();
            GetNext();
            p = std::make_unique<MemberDereferenceAccess>(std::move(p),
                                                          std::move(member));
        } else {
            break;
        }
''','''        } else {
            if (GetNext() != TokenKind::ID) {
                throw CreateError("Expected member name after '.'");
            }
            auto member = lex.getId();
            GetNext();
            p = std::make_unique<MemberDereferenceAccess>(std::move(p),
                                                          std::move(member));
        }
'''),
('bits-switch', PAR, '''    while (curtok.kind == TokenKind::AND
            || curtok.kind == TokenKind::XOR
            || curtok.kind == TokenKind::OR) {
''','''    auto is_bit = [](TokenKind k) {
        return k == TokenKind::AND || k == TokenKind::OR || k == TokenKind::XOR;
    };
    while (is_bit(curtok.kind)) {
'''),
('stepover', SC, '''    auto e = native.PerformStepOver();
    while (std::holds_alternative<Singlestep>(e)
            && !AddrToLine(native.GetIP())) {
        e = native.PerformStepOver(false);
    }
    return e;
''','''    DebugEvent event = native.PerformStepOver();
    while (true) {
        if (!std::holds_alternative<Singlestep>(event)) {
            return event;
        }
        if (AddrToLine(native.GetIP()).has_value()) {
            return event;
        }
        event = native.PerformStepOver(false);
    }
'''),
('typestr', SC, '''    return std::visit(utils::overloaded {
        [&](const PointerValue& v) {
            return TypeToString(v.type);
        },
        [&](const ArrayValue& v) {
            return TypeToString(v.type);
        },
        [](const CharValue&) {
            return "char"s; 
        },
        [](const IntegerValue&) {
            return "int"s; 
        },
        [](const FloatValue&) {
            return "float"s; 
        },
        [](const StructuredValue& v) {
            return v.name;
        }
    }, v);
''','''    if (auto p = std::get_if<PointerValue>(&v)) {
        return TypeToString(p->type);
    }
    if (auto a = std::get_if<ArrayValue>(&v)) {
        return TypeToString(a->type);
    }
    if (std::holds_alternative<CharValue>(v)) {
        return "char"s;
    }
    if (std::holds_alternative<IntegerValue>(v)) {
        return "int"s;
    }
    if (std::holds_alternative<FloatValue>(v)) {
        return "float"s;
    }
    return std::get<StructuredValue>(v).name;
'''),
('finddie', SH, '''        auto found = std::visit([](auto&& arg) -> const Attr* {
            using T = std::decay_t<decltype(arg)>;
            if constexpr (std::is_same_v<Attr, T>) {
                return &arg;
            } else {
                return nullptr;
            }
        }, *it);
        if (found != nullptr) {
            return found;
        }
''','''        if (const Attr* found = std::get_if<Attr>(&*it)) {
            return found;
        }
'''),
('join', 'common/helpers.h', '''        for (; begin < end; ++begin) {
            res += *begin;
            if (std::next(begin, 1) != end) {
                res += j;
            }
        }
''','''        while (begin < end) {
            res += *begin;
            ++begin;
            if (begin != end) {
                res += j;
            }
        }
'''),
('reason', 't86/debug.cpp', '''        switch (reason) {''','''        const auto why = reason;
        switch (why) {'''),
('svtonum', 'common/helpers.h', '''            auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
            if (ec == std::errc()) {
                return result;
            }
            return std::nullopt;
#ifdef''','''            auto res = std::from_chars(s.data(), s.data() + s.size(), result);
            if (res.ec != std::errc()) {
                return std::nullopt;
            }
            return result;
#ifdef'''),
('imm', ASM, '''        auto val = neg * lex.getNumber();
        GetNext();
        return val;
    } else {
        throw CreateError("Expected i");
    }
''','''        int64_t val = lex.getNumber();
        if (neg < 0) {
            val = -val;
        }
        GetNext();
        return val;
    }
    throw CreateError("Expected i");
'''),
('exitproc', CLI, '''        if (process.Active()) {
            process.Terminate();
            if (t86vm.joinable()) {
                t86vm.join();
            }
        }
''','''        if (!process.Active()) {
            return;
        }
        process.Terminate();
        if (t86vm.joinable()) {
            t86vm.join();
        }
'''),
('inext', CLI, '''        if (command == "") {
            NativeLevelStep(true);
        } else {
            fmt::print("{}", INEXT_USAGE);
        }
''','''        if (!command.empty()) {
            fmt::print("{}", INEXT_USAGE);
            return;
        }
        NativeLevelStep(true);
'''),
('step-guard', CLI, '''    void HandleStep(std::string_view command) {
        if (!process.Active()) {
            Error("No active process.");
        }
        if (!is_running) {
            Error("Process finished executing, it's not possible to continue.");
        }
''','''    void RequireRunning() {
        if (!process.Active()) {
            Error("No active process.");
        }
        if (!is_running) {
            Error("Process finished executing, it's not possible to continue.");
        }
    }

    void HandleStep(std::string_view command) {
        RequireRunning();
'''),
('attach-words', CLI, '''        if (subcommands.size() < 1) {
            Error("A port is needed, use `attach <port>`");
        }
        auto port_o = utils::svtonum<int>(subcommands.at(0));
''','''        auto need = [](size_t have, size_t n) {
            if (have < n) {
                Error("A port is needed, use `attach <port>`");
            }
        };
        need(subcommands.size(), 1);
        auto port_o = utils::svtonum<int>(subcommands.at(0));
'''),
('cmpval', EXP, '''        [&](CharValue&& left, CharValue&& right) -> TypedValue {
            return IntegerValue{op(left.value, right.value)}; 
        },
        [&](PointerValue&& left, PointerValue&& right) -> TypedValue {
            return IntegerValue{op(left.value, right.value)}; 
        },
        [&](auto&&, auto&&) -> TypedValue {
            throw DebuggerError("Unsupported types for comparison operator");
        }
    }, std::move(left), std::move(right));
''','''        [&](PointerValue&& left, PointerValue&& right) -> TypedValue {
            auto res = op(left.value, right.value);
            return IntegerValue{res};
        },
        [&](CharValue&& l, CharValue&& r) -> TypedValue {
            return IntegerValue{op(l.value, r.value)};
        },
        [&](auto&&, auto&&) -> TypedValue {
            throw DebuggerError("Unsupported types for comparison operator");
        }
    }, std::move(left), std::move(right));
'''),
('array-idx', EXP, '''        if (idx->value < 0) {
            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
        }
        if (idx->value >= static_cast<int64_t>(av->members.size())) {
            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
        }
        visitor_value = av->members[idx->value];
''','''        const auto& members = av->members;
        const auto i = idx->value;
        if (i < 0) {
            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", i));
        }
        if (static_cast<int64_t>(members.size()) <= i) {
            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", i, members.size()));
        }
        visitor_value = members[i];
'''),
('checkzero', EXP, '''        [](const IntegerValue& v) {
            return v.value != 0;
        },
''','''        [](const IntegerValue& v) {
            return !(v.value == 0);
        },
'''),
('primtype', EXP, '''            if (t.type == PrimitiveType::Type::SIGNED) {
                return IntegerValue{utils::reinterpret_safe<int64_t>(raw_value), loc};
            } else if (t.type == PrimitiveType::Type::FLOAT) {
                return FloatValue{utils::reinterpret_safe<double>(raw_value), loc};
            } else if (t.type == PrimitiveType::Type::CHAR) {
                return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
            } else {
                NOT_IMPLEMENTED;
            }
''','''            switch (t.type) {
            case PrimitiveType::Type::CHAR:
                return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
            case PrimitiveType::Type::SIGNED:
                return IntegerValue{utils::reinterpret_safe<int64_t>(raw_value), loc};
            case PrimitiveType::Type::FLOAT:
                return FloatValue{utils::reinterpret_safe<double>(raw_value), loc};
            default:
                NOT_IMPLEMENTED;
            }
'''),
('deref', EXP, '''    if (!std::holds_alternative<PointerValue>(val)) {
        throw DebuggerError("Can only dereference pointers");
    }
    auto ptr = std::get<PointerValue>(std::move(val));
    auto* points_to_type = source.GetType(ptr.type.type_id);
    if (points_to_type == nullptr) {
        throw DebuggerError("Not enough type information");
    }
    log_info("Pointer value: {}", ptr.value);
    auto loc = expr::Offset{static_cast<int64_t>(ptr.value)};
    return EvaluateTypeAndLocation(loc, *points_to_type);
''','''    const auto* ptr = std::get_if<PointerValue>(&val);
    if (!ptr) {
        throw DebuggerError("Can only dereference pointers");
    }
    log_info("Pointer value: {}", ptr->value);
    if (auto* pointee = source.GetType(ptr->type.type_id)) {
        return EvaluateTypeAndLocation(expr::Offset{static_cast<int64_t>(ptr->value)}, *pointee);
    }
    throw DebuggerError("Not enough type information");
'''),
]
