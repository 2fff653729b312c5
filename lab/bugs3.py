S='debugger/Source/Source.cpp'; X='debugger/Source/Expression.cpp'; EP='debugger/Source/ExpressionParser.cpp'; EI='debugger/Source/ExpressionInterpreter.cpp'; P='debugger/Source/Parser.cpp'; LM='debugger/Source/LineMapping.cpp'
E=[
('a1',S,'    auto max = std::max_element(','    auto max = std::min_element('),
('a2',S,'''        auto r = source_file->GetLine(i + idx);
        if (!r) {
            break;
        }''','''        auto r = source_file->GetLine(i + idx);
        if (!r || r->empty()) {
            break;
        }'''),
('a3',S,'&& begin_addr->addr <= address && address < end_addr->addr) {\n                auto name','&& begin_addr->addr <= address && address <= end_addr->addr) {\n                auto name'),
('a4',S,'name_attr->n != name','!name_attr->n.starts_with(name)'),
('a5',S,'result.insert_or_assign(name->n, &die);','result.emplace(name->n, &die);'),
('a6',S,'|| !(begin_addr->addr <= address && address < end_addr->addr)','|| !(begin_addr->addr < address && address < end_addr->addr)'),
('a7',S,'e = native.DoRawSingleStep();','e = native.PerformSingleStep();'),
('a8',S,'e = native.PerformStepOver(false);','e = native.PerformStepOver();'),
('a9',S,'evaluated_expressions.size() - 1};','evaluated_expressions.size()};'),
('a10',S,'''            auto arr = ArrayType{.type_id = member_types->type_id,
                                 .cnt = size->size};''','''            auto arr = ArrayType{.type_id = id->id,
                                 .cnt = size->size};'''),
('a11',S,'''        if (types.contains(id->id)) {''','''        if (types.contains(id->id) && die.get_tag() != DIE::TAG::pointer_type) {'''),
('a12',S,'''        if (*line == 0 && start_at_one) {''','''        if (*line == 1 && start_at_one) {'''),
('a13',S,'''std::holds_alternative<CharValue>(v.members.back())''','''std::holds_alternative<CharValue>(v.members.front()) && v.members.size() > 1'''),
('a14',S,'''native.EnableSoftwareBreakpoint(addr);
    return addr;''','''native.EnableSoftwareBreakpoint(addr);
    return line;'''),
('b1',X,'''native.ReadMemory(offset.value, 1)[0];
        },
    }, loc);''','''static_cast<int64_t>(static_cast<uint32_t>(native.ReadMemory(offset.value, 1)[0]));
        },
    }, loc);'''),
('b2',X,'''[](CharValue&& left, CharValue&& right) -> TypedValue {
            return IntegerValue{left.value + right.value};''','''[](CharValue&& left, CharValue&& right) -> TypedValue {
            return IntegerValue{static_cast<char>(left.value + right.value)};'''),
('b3',X,'left.value * item_size + right.value};','left.value + right.value};'),
('b4',X,'''            auto item_size = source.GetTypeSize(left.type.type_id);
            return PointerValue{left.type, left.value - right.value * item_size};''','''            return PointerValue{left.type, left.value - right.value};'''),
('b5',X,'''            if (left.type.type_id != right.type.type_id) {
                throw DebuggerError("Only pointers''','''            if (left.type.size != right.type.size) {
                throw DebuggerError("Only pointers'''),
('b6',X,'''        [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
            return IntegerValue{op(left.value, right.value)};''','''        [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
            return IntegerValue{op((int64_t)left.value, (int64_t)right.value)};'''),
('b7',X,'if (idx->value >= static_cast<int64_t>(av->members.size()))','if (idx->value > static_cast<int64_t>(av->members.size()))'),
('b8',X,'''        [](const CharValue& v) {
            return v.value != 0;
        },
        [](const auto&) {''','''        [](const auto&) {'''),
('b9',X,'l->value + i * source.GetTypeSize(t.type_id))','l->value + i)'),
('b10',X,'expr::Push{expr::Offset{member.offset}},','expr::Push{expr::Offset{member.offset / 8}},'),
('b11',X,'if (e.idx >= evaluated_expressions.size())','if (e.idx > evaluated_expressions.size())'),
('b12',X,'''                                     std::logical_or{},''','''                                     std::logical_and{},'''),
('b13',X,'''                                      std::less_equal{},''','''                                      std::less{},'''),
('b14',X,'''[](auto&& l, auto&& r) { return l >> r; }''','''[](auto&& l, auto&& r) { return (decltype(l + r))((uint64_t)l >> r); }'''),
('b15',X,'''            if (left.name != right.name) {''','''            if (left.size != right.size) {'''),
('b16',X,'''            SetRaw(native, left.loc.value(), right.value);
            left.value = right.value;
            return std::move(left);
        },
        [&](CharValue''','''            SetRaw(native, right.loc.value(), right.value);
            left.value = right.value;
            return std::move(left);
        },
        [&](CharValue'''),
('b17',X,'native.SetMemory(r.value, {*(int64_t*)&value});','native.SetMemory(r.value, {(int64_t)(int32_t)value});'),
('c1',EP,'{TokenKind::LEQ, BinaryOperator::Op::Leq},','{TokenKind::LEQ, BinaryOperator::Op::Less},'),
('c2',EP,'''        auto next = factor();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));''','''        auto next = term();
        result = std::make_unique<BinaryOperator>(std::move(result),
                                                  operators.at(kind),
                                                  std::move(next));'''),
('c3',EP,'std::unique_ptr<Expression> result = shifts();','std::unique_ptr<Expression> result = bit_ops();'),
('c4',EP,'''        GetNext();
        auto e = unary();
        return std::make_unique<UnaryOperator>(std::move(e), op);''','''        GetNext();
        auto e = postfix();
        return std::make_unique<UnaryOperator>(std::move(e), op);'''),
('c5',EP,'''            p = std::make_unique<MemberDereferenceAccess>(''','''            p = std::make_unique<MemberAccess>('''),
('c6',EP,'''            || curtok.kind == TokenKind::XOR
''',''''''),
('c7',EP,'''        if (curtok.kind != TokenKind::RPAREN) {
            throw CreateError("Expected closing parentheses");
        }
''',''''''),
('d1',EI,'''                auto v2 = s.top();
                s.pop();
                auto res''','''                auto v2 = s.top();
                auto res'''),
('d2',EI,'''                auto loc = bp + ins.offset;''','''                auto loc = bp - ins.offset;'''),
('d3',EI,'''                            auto idx = native.ReadMemory(offset.value, 1)[0];
                            return native.ReadMemory(idx, 1)[0];''','''                            return native.ReadMemory(offset.value, 1)[0];'''),
('e1',P,'''        members.m.push_back({std::move(name), type, offset});''','''        members.m.push_back({std::move(name), static_cast<size_t>(offset), static_cast<int64_t>(type)});'''),
('e2',P,'''        location_mapping[source_line] = address;''','''        location_mapping.emplace(source_line, address);'''),
('e3',P,'''        return DIE::TAG::scope;''','''        return DIE::TAG::function;'''),
('e4',P,'''        auto num = neg * lex.getNumber();''','''        auto num = lex.getNumber();'''),
('e5',P,'''        return ATTR_end_addr{static_cast<uint64_t>(num)};''','''        return ATTR_end_addr{static_cast<uint32_t>(num)};'''),
('e6',P,'''            if (curtok.kind == TokenKind::SEMICOLON) {
                GetNext(); // Eat the ';'
            } else if (curtok.kind != TokenKind::RBRACKET) {''','''            if (curtok.kind == TokenKind::SEMICOLON || curtok.kind == TokenKind::COMMA) {
                GetNext(); // Eat the ';'
            } else if (curtok.kind != TokenKind::RBRACKET) {'''),
('e7',P,'''            lex.SetIgnoreMode(false);''','''            lex.SetIgnoreMode(curtok.kind == TokenKind::END);'''),
('e8',P,'''            return expr::FrameBaseRegisterOffset{num.value};''','''            return expr::Push{expr::Offset{num.value}};'''),
('f1',LM,'''        if (mapping.second == address) {''','''        if (mapping.second <= address) {'''),
]
