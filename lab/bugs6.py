TP, NA, SC, CLI, ASM, EXP = 'debugger/T86Process.cpp', 'debugger/Native.cpp', 'debugger/Source/Source.cpp', 'dbg-cli/CLI.h', 't86-parser/parser.cpp', 'debugger/Source/Expression.cpp'
SP = 'debugger/Source/Parser.cpp'
E = [
('wt-validate', TP, '''            p.Instruction();
            p.CheckEnd();
''', '''            p.Instruction();
'''),
('wt-order', NA, '''    // The process checks the text, nothing is changed if it is wrong.
    process->WriteText(address, text);
''', '''    if (software_breakpoints.empty()) {
        process->WriteText(address, text);
        return;
    }
'''),
('wt-bpdata', NA, '''            bp->second.data = text[i];
            if (bp->second.enabled) {''', '''            if (bp->second.enabled) {
                bp->second.data = text[i];'''),
('member-ref', EXP, '''    auto structured = std::get<StructuredValue>(base);
    if (!structured.members.contains(member)) {''', '''    auto structured = std::get<StructuredValue>(base);
    if (structured.members.lower_bound(member) == structured.members.end()) {'''),
('strescape', 'common/parsing.cpp', '''            } else if (lookahead == 't') {
                str += '\\t';
''', '''            } else if (lookahead == 't') {
                str += ' ';
'''),
('sec-skip', ASM, '''        while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
            GetNext();
        };
        lex.SetIgnoreMode(false);''', '''        while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
            GetNext();
        };'''),
('smem-minus', ASM, '''                bool minus = curtok.kind == TokenKind::MINUS;
                GetNext();
                auto imm = Imm();
                if (minus) {
                    imm = -imm;
                }
                if (curtok.kind != TokenKind::RBRACKET) {
                    throw CreateError("Expected end of ']'");
                }
                GetNext();
                return tiny::t86::Mem(inner + imm);''', '''                bool minus = curtok.kind == TokenKind::MINUS;
                GetNext();
                auto imm = Imm();
                if (minus && imm > 0) {
                    imm = -imm;
                }
                if (curtok.kind != TokenKind::RBRACKET) {
                    throw CreateError("Expected end of ']'");
                }
                GetNext();
                return tiny::t86::Mem(inner + imm);'''),
('parse-srcstop', ASM, '''                && lex.getId() == "debug_source") {
            return {std::move(program), std::move(data)};
        }
        Section();
    }
    CheckEnd();''', '''                && lex.getId().starts_with("debug")) {
            return {std::move(program), std::move(data)};
        }
        Section();
    }
    CheckEnd();'''),
('pdie-child', SP, '''            auto die = ParseDIE(std::move(id));
            childs.push_back(std::move(die));''', '''            auto die = ParseDIE(std::move(id));
            childs.insert(childs.begin(), std::move(die));'''),
('ptag', SP, '''    } else if (v == "DIE_scope") {
        return DIE::TAG::scope;''', '''    } else if (v == "DIE_scope") {
        return DIE::TAG::function;'''),
('poperand', SP, '''    if (curtok.kind == TokenKind::NUM || curtok.kind == TokenKind::MINUS) {
        return ParseOffset();''', '''    if (curtok.kind == TokenKind::NUM) {
        return ParseOffset();'''),
('finish-end', CLI, '''            auto e = process.PerformStepOut();
            if (!std::holds_alternative<Singlestep>(e)) {
                ReportDebugEvent(e);
            }
            if (std::holds_alternative<ExecutionEnd>(e)) {
                is_running = false;
            } else {''', '''            auto e = process.PerformStepOut();
            if (!std::holds_alternative<Singlestep>(e)) {
                ReportDebugEvent(e);
            }
            if (!std::holds_alternative<ExecutionEnd>(e)) {'''),
('cpuerr', CLI, '''            fmt::print("The error probably happened on address '{}'\\n", process.GetIP());
            is_running = false;''', '''            fmt::print("The error probably happened on address '{}'\\n", process.GetIP());'''),
('iasm', CLI, '''            std::string line{line_raw};
            if (line == "") {''', '''            std::string line{line_raw};
            if (line.size() < 4) {'''),
('pstr', CLI, '''                } else if (s[i] == '0') {
                    result += '\\0';''', '''                } else if (s[i] == '0') {
                    result += '0';'''),
('wprem', CLI, '''            auto address = ParseAddress(subcommands.at(1));
            process.RemoveWatchpoint(address);''', '''            auto address = ParseAddress(subcommands.at(1));
            if (process.GetWatchpoints().size() > 1) {
                process.RemoveWatchpoint(address);
            }'''),
('src-zero', CLI, '''            auto begin = std::max(*line - 2, 0l);
            auto end = *line + 2 + 1;''', '''            auto begin = *line - 2;
            auto end = *line + 2 + 1;'''),
('src-from', CLI, '''            auto from_line = line - 1;
            auto amount = subcommands.size() >= 3''', '''            auto from_line = line - 1;
            auto amount = subcommands.size() > 3'''),
('wm-bound', TP, '''    if (address > data_size || data.size() > data_size - address) {
        throw DebuggerError(fmt::format("Writing memory''', '''    if (address > data_size || data.size() > data_size) {
        throw DebuggerError(fmt::format("Writing memory'''),
('setregs', TP, '''        log_info("Setting register {} to value {}", name, val);
        process->Send(fmt::format("POKEREGS {} {}", name, val));
        CheckResponse("POKEREGS error");''', '''        log_info("Setting register {} to value {}", name, val);
        if (val == 0 && name == "FLAGS") {
            continue;
        }
        process->Send(fmt::format("POKEREGS {} {}", name, val));
        CheckResponse("POKEREGS error");'''),
('exec-tick', 't86/cpu/reservation_station.cpp', '''            } catch (...) {
                memoryAccessException_ = std::current_exception();
            }
            state_ = State::retiring;''', '''            } catch (const std::out_of_range&) {
                memoryAccessException_ = std::current_exception();
            }
            state_ = State::retiring;'''),
('readmem-ret', 't86/cpu/reservation_station.cpp', '''        } catch(...) {
            memoryAccessException_ = std::current_exception();
            return {-1};
        }''', '''        } catch(...) {
            return {-1};
        }'''),
('array-neg', EXP, '''        if (idx->value < 0) {
            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
        }
''', ''),
('stepover2', SC, '''        e = native.PerformStepOver(false);
    }
    return e;''', '''        e = native.PerformStepOver();
    }
    return e;'''),
('chr-cast', EXP, '''                return CharValue{utils::reinterpret_safe<char>(raw_value), loc};''', '''                return CharValue{static_cast<char>(raw_value & 0x7f), loc};'''),
('arr-stride', EXP, '''                    l->value + i * source.GetTypeSize(t.type_id))};''', '''                    l->value + i * std::max<size_t>(1, source.GetTypeSize(t.type_id) / 2 * 2))};'''),
('struct-loc', EXP, '''                        expr::Push{loc},
                        expr::Push{expr::Offset{member.offset}},
                        expr::Add{}}, native);''', '''                        expr::Push{loc},
                        expr::Push{expr::Offset{std::max<int64_t>(member.offset, 0)}},
                        expr::Add{}}, native);'''),
]
