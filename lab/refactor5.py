I='t86/instruction.cpp'; A='t86/cpu/alu.cpp'; P='t86-parser/parser.cpp'; L='common/parsing.cpp'; LH='common/parsing.h'; T='common/TCP.h'; TM='common/threads_messenger.h'; H='common/helpers.h'; OS='t86/os.cpp'; D='t86/debug.cpp'; C='t86/cpu.cpp'
E=[
# instruction.cpp
('binexec',I,'''        const auto& operands = entry.operands();
        assert(operands.size() == 2);
        Alu::Result binOpRes = op_(operands[0].getValue(), operands[1].getValue());
        entry.setRegister(dest_, binOpRes.value);
        entry.setFlags(binOpRes.flags);
''','''        assert(entry.operands().size() == 2);
        const int64_t lhs = entry.operands().at(0).getValue();
        const int64_t rhs = entry.operands().at(1).getValue();
        const auto [value, flags] = op_(lhs, rhs);
        entry.setFlags(flags);
        entry.setRegister(dest_, value);
'''),
('movretire',I,'''        if (destination_.isRegister() || destination_.isFloatRegister()) {
            return;
        } else {
        // Make sure memory write happens
        const auto& memoryWriteIds = entry.memoryWriteIds();
        assert(memoryWriteIds.size() == 1);
        entry.writeMemory(memoryWriteIds[0]);
        }
''','''        const bool toMemory = !destination_.isRegister() && !destination_.isFloatRegister();
        if (toMemory) {
            assert(entry.memoryWriteIds().size() == 1);
            entry.writeMemory(entry.memoryWriteIds().front());
        }
'''),
('condretire',I,'''        entry.processJump(condition_(operands[1].getValue()));
''','''        const bool taken = condition_(operands[1].getValue());
        entry.processJump(taken);
'''),
('condexec',I,'''        if (condition_(operands[1].getValue())) {
            entry.setProgramCounter(operands[0].getValue());
        }
''','''        if (!condition_(operands[1].getValue())) {
            return;
        }
        entry.setProgramCounter(operands[0].getValue());
'''),
('jle',I,'flags.zeroFlag || flags.signFlag != flags.overflowFlag','!(!flags.zeroFlag && flags.signFlag == flags.overflowFlag)'),
('ja',I,'!(flags.carryFlag || flags.zeroFlag))','!flags.carryFlag && !flags.zeroFlag)'),
('loopx',I,'''        Alu::Result res = Alu::subtract(operands[0].getValue(), 1);
        entry.setRegister(reg_, res.value);
        entry.setFlags(res.flags);
        entry.operands().emplace_back(res.value);
        if (res.value != 0) {
            entry.setProgramCounter(operands[1].getValue());
        }
''','''        const auto target = operands[1].getValue();
        const Alu::Result res = Alu::subtract(operands[0].getValue(), 1);
        entry.setFlags(res.flags);
        entry.setRegister(reg_, res.value);
        entry.operands().push_back(Operand(res.value));
        const bool finished = res.value == 0;
        if (!finished) {
            entry.setProgramCounter(target);
        }
'''),
('push',I,'''        entry.specifyWriteAddress(memWriteIds[0], operands[1].getValue() - 1);
        entry.setWriteValue(memWriteIds[0], operands[0].getValue());
        entry.setStackPointer(operands[1].getValue() - 1);
    }

    void FPUSH''','''        const auto top = operands[1].getValue() - 1;
        const auto id = memWriteIds.front();
        entry.setStackPointer(top);
        entry.specifyWriteAddress(id, top);
        entry.setWriteValue(id, operands[0].getValue());
    }

    void FPUSH'''),
('ret',I,'''        entry.setProgramCounter(operands[0].getValue());
        entry.setStackPointer(operands[1].getValue() + 1);
''','''        const int64_t returnAddress = operands[0].getValue();
        entry.setStackPointer(1 + operands[1].getValue());
        entry.setProgramCounter(returnAddress);
'''),
('leaval',I,'''        if (reg_.isSpecial() || reg_ == Register::StackPointer() || reg_ == Register::StackBasePointer()) {
            throw InvalidOperand(reg_);
        }
''','''        const bool allowed = !reg_.isSpecial()
            && !(reg_ == Register::StackPointer())
            && !(reg_ == Register::StackBasePointer());
        if (allowed) {
            return;
        }
        throw InvalidOperand(reg_);
'''),
('tostring',I,'''        ss << typeToString(type());
        auto operands = signatureOperands();
        auto it = operands.begin();
        if (it != operands.end()) {
            ss << " " + it->toString();
            for (++it; it != operands.end(); ++it) {
                ss << ", " + it->toString();
            }
        }
        return ss.str();
''','''        ss << typeToString(type());
        auto operands = signatureOperands();
        for (size_t i = 0; i < operands.size(); ++i) {
            ss << (i == 0 ? " " : ", ") << operands[i].toString();
        }
        return ss.str();
'''),
# alu
('aluadd',A,'''        int64_t result = x + y;
        uint64_t ux = static_cast<uint64_t>(x);
        uint64_t uy = static_cast<uint64_t>(y);
        bool signFlag = result < 0;
        bool zeroFlag = result == 0;
        bool carryFlag = ux > (std::numeric_limits<uint64_t>::max() - uy);
''','''        const uint64_t ux = static_cast<uint64_t>(x);
        const uint64_t uy = static_cast<uint64_t>(y);
        const uint64_t uresult = ux + uy;
        int64_t result = static_cast<int64_t>(uresult);
        bool signFlag = result < 0;
        bool zeroFlag = !result;
        bool carryFlag = uresult < ux;
'''),
('aluneg',A,'''        int64_t result = -x;
        bool signFlag = result < 0;
''','''        int64_t result = 0 - x;
        bool signFlag = result < 0;
'''),
# parser
('preg',P,'''    if (regname == "BP") {
        return tiny::t86::Register::StackBasePointer();
    } else if (regname == "SP") {
        return tiny::t86::Register::StackPointer();
    } else if (regname == "IP") {
        return tiny::t86::Register::ProgramCounter();
    } else if (regname[0] != 'R') {
        throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
    }
''','''    if (regname == "IP") {
        return tiny::t86::Register::ProgramCounter();
    }
    if (regname == "SP") {
        return tiny::t86::Register::StackPointer();
    }
    if (regname == "BP") {
        return tiny::t86::Register::StackBasePointer();
    }
    if (regname.front() != 'R') {
        throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
    }
'''),
('imm',P,'''        int neg = 1;
        if (curtok.kind == TokenKind::MINUS) {
            neg = -1;
            GetNext();
        }
        auto val = neg * lex.getNumber();
        GetNext();
        return val;
''','''        const bool negative = curtok.kind == TokenKind::MINUS;
        if (negative) {
            GetNext();
        }
        const auto number = lex.getNumber();
        GetNext();
        return negative ? -number : number;
'''),
('register',P,'''tiny::t86::Register Parser::Register() {
    if (curtok.kind == TokenKind::ID) {
        std::string regname = lex.getId();
        auto reg = getRegister(regname);
        GetNext();
        return reg;
    } else {
        throw CreateError("Expected R");
    }
}''','''tiny::t86::Register Parser::Register() {
    if (curtok.kind != TokenKind::ID) {
        throw CreateError("Expected R");
    }
    const auto reg = getRegister(lex.getId());
    GetNext();
    return reg;
}'''),
('simplemem',P,'''                bool minus = curtok.kind == TokenKind::MINUS;
                GetNext();
                auto imm = Imm();
                if (minus) {
                    imm = -imm;
                }
                if (curtok.kind != TokenKind::RBRACKET) {
                    throw CreateError("Expected end of ']'");
                }
                GetNext();
                return tiny::t86::Mem(inner + imm);
''','''                const int sign = curtok.kind == TokenKind::MINUS ? -1 : 1;
                GetNext();
                auto imm = sign * Imm();
                if (curtok.kind != TokenKind::RBRACKET) {
                    throw CreateError("Expected end of ']'");
                }
                GetNext();
                return tiny::t86::Mem(inner + imm);
'''),
('psection',P,'''    if (section_name == "text") {
        Text();
    } else if (section_name == "data") {
        Data();
    } else {
        log_info("Skipping '{}' section", section_name);
        lex.SetIgnoreMode(true);
        while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
            GetNext();
        };
        lex.SetIgnoreMode(false);
    }
''','''    if (section_name == "data") {
        Data();
        return;
    }
    if (section_name == "text") {
        Text();
        return;
    }
    log_info("Skipping '{}' section", section_name);
    lex.SetIgnoreMode(true);
    while (!(curtok.kind == TokenKind::DOT || curtok.kind == TokenKind::END)) {
        GetNext();
    }
    lex.SetIgnoreMode(false);
'''),
('pdata',P,'''            auto string = lex.getStr();
            std::transform(string.begin(), string.end(),
                           std::back_inserter(data),
                           [](auto &&c) { return c; });
            data.push_back(0);
''','''            for (const char c : lex.getStr()) {
                data.push_back(c);
            }
            data.emplace_back(0);
'''),
# lexer
('lexnum',L,'''        if (lookahead == '.') {
            is_float = true;

        } else if (!isdigit(lookahead)) {
            break;
        }
        num += lookahead;
''','''        if (lookahead != '.' && !isdigit(lookahead)) {
            break;
        }
        is_float = is_float || lookahead == '.';
        num.push_back(lookahead);
'''),
('lexstr',L,'''            if (lookahead == 'n') {
                str += '\\n';
            } else if (lookahead == 't') {
                str += '\\t';
            } else if (lookahead == '\\\\') {
                str += '\\\\';
            } else if (lookahead == '\\"') {
                str += '\\"';
            } else {
                throw ParserError(fmt::format("Unknown escape sequence: '\\\\{}'", lookahead));
            }
''','''            switch (lookahead) {
            case 'n':
                str += '\\n';
                break;
            case 't':
                str += '\\t';
                break;
            case '\\\\':
            case '"':
                str += lookahead;
                break;
            default:
                throw ParserError(fmt::format("Unknown escape sequence: '\\\\{}'", lookahead));
            }
'''),
('lexeq',L,'''        GetChar();
        if (lookahead == '=') {
            GetChar();
            return MakeToken(TokenKind::EQ);
        }
        return MakeToken(TokenKind::ASSIGN);
''','''        if (GetChar() != '=') {
            return MakeToken(TokenKind::ASSIGN);
        }
        GetChar();
        return MakeToken(TokenKind::EQ);
'''),
('lexgt',L,'''        GetChar();
        if (lookahead == '=') {
            GetChar();
            return MakeToken(TokenKind::GEQ);
        } else if (lookahead == '>') {
            GetChar();
            return MakeToken(TokenKind::RSHIFT);
        }
        return MakeToken(TokenKind::GREATER);
''','''        GetChar();
        TokenKind kind = TokenKind::GREATER;
        if (lookahead == '=') {
            kind = TokenKind::GEQ;
        } else if (lookahead == '>') {
            kind = TokenKind::RSHIFT;
        }
        if (kind != TokenKind::GREATER) {
            GetChar();
        }
        return MakeToken(kind);
'''),
('lexskip',L,'''    if (lookahead == '#') {
        while (lookahead != EOF && lookahead != '\\n') {
            GetChar();
        }
        if (lookahead == '\\n') {
            GetChar();
        }
        return getNext();
    } else if (isspace(lookahead)) {
        GetChar();
        return getNext();
    }
''','''    if (isspace(lookahead)) {
        GetChar();
        return getNext();
    }
    if (lookahead == '#') {
        while (!(lookahead == EOF || lookahead == '\\n')) {
            GetChar();
        }
        if (lookahead == '\\n') {
            GetChar();
        }
        return getNext();
    }
'''),
('lexchar',LH,'''        if (lookahead == '\\n') {
            row += 1;
            col = 0;
        } else {
            col += 1;
        }
        lookahead = input.get();
        return lookahead;
''','''        const bool newline = lookahead == '\\n';
        row += newline ? 1 : 0;
        col = newline ? 0 : col + 1;
        lookahead = input.get();
        return lookahead;
'''),
('lexid',LH,'''        std::string str{lookahead};
        while (true) {
            GetChar();
            if (!isalnum(lookahead) && lookahead != '_') {
                break;
            }
            str += lookahead;
        }
        id = str;
''','''        std::string name{lookahead};
        GetChar();
        while (isalnum(lookahead) || lookahead == '_') {
            name += lookahead;
            GetChar();
        }
        id = std::move(name);
'''),
# TCP
('sendraw',T,'''    size_t sent = 0;
    while (sent < size) {
        auto res = send(socket, &data[sent], size - sent, 0);
        if (res < 0) {
            throw TCPError("Sending failed");
        }
        sent += res;
    }
''','''    for (size_t sent = 0; sent < size;) {
        const auto count = send(socket, data + sent, size - sent, 0);
        if (count < 0) {
            throw TCPError("Sending failed");
        }
        sent += count;
    }
'''),
('recv',T,'''    std::vector<uint8_t> data(size);
    while (received < size) {
        int err = read(socket, data.data() + received, size - received);
        if (err < 0) {
            throw TCPError("Reading failed");
        } else if (err == 0) {
            return std::nullopt;
        }
        received += err;
    }
    // Unecessary''','''    std::vector<uint8_t> data(size);
    while (received != size) {
        int count = read(socket, &data[received], size - received);
        if (count == 0) {
            return std::nullopt;
        }
        if (count < 0) {
            throw TCPError("Reading failed");
        }
        received += count;
    }
    // Unecessary'''),
('tcpinit',T,'''        if (initialized) {
            throw TCPError("Already initialized");
        }
        static_cast<T*>(this)->Initialize_();
        initialized = true;
''','''        if (!initialized) {
            static_cast<T*>(this)->Initialize_();
            initialized = true;
            return;
        }
        throw TCPError("Already initialized");
'''),
# helpers
('splitv',H,'''        while (!s.empty()) {
            auto size = s.find(delim);
            if (size == s.npos) {
                result.emplace_back(s);
                break;
            }
            if (size != 0) {
                result.emplace_back(s.substr(0, size));
            }
            s.remove_prefix(size + 1);
        }
        return result;
''','''        while (s.size() > 0) {
            const auto pos = s.find(delim);
            if (pos == std::string_view::npos) {
                result.push_back(s);
                return result;
            }
            if (pos > 0) {
                result.push_back(s.substr(0, pos));
            }
            s = s.substr(pos + 1);
        }
        return result;
'''),
('prefix',H,'''        if (prefix.size() > of.size()) {
            return false;
        }
        for (size_t i = 0; i < prefix.size(); i++) {
            if (prefix[i] != of[i]) {
                return false;
            }
        }
        return true;
''','''        if (of.size() < prefix.size()) {
            return false;
        }
        size_t i = 0;
        while (i < prefix.size()) {
            if (prefix.at(i) != of.at(i)) {
                return false;
            }
            ++i;
        }
        return true;
'''),
('squash',H,'''        while (!s.empty() && std::isspace(s.back())) {
            s.remove_suffix(1);
        }
        while (!s.empty() && std::isspace(s.front())) {
            s.remove_prefix(1);
        }
        for (const auto c: s) {
            if (!std::isspace(c)) {
                result.push_back(c);
                last_space = false;
            } else if (!last_space) {
                result.push_back(c);
                last_space = true;
            }
        }
''','''        while (!s.empty() && std::isspace(s.front())) {
            s.remove_prefix(1);
        }
        while (!s.empty() && std::isspace(s.back())) {
            s.remove_suffix(1);
        }
        for (const auto c: s) {
            const bool space = std::isspace(c);
            if (!space || !last_space) {
                result += c;
            }
            last_space = space;
        }
'''),
('os',OS,'''    if (debug_interface) {
        stop = !debug_interface->Work(reason);
    } else {
        log_info("Call to debugger interface was initiated but no "
                    "debugger is connected!");
    }
''','''    if (!debug_interface) {
        log_info("Call to debugger interface was initiated but no debugger is connected!");
        return;
    }
    const bool proceed = debug_interface->Work(reason);
    stop = !proceed;
'''),
]
