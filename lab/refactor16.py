CLI, SC, TP, RS = 'dbg-cli/CLI.h', 'debugger/Source/Source.cpp', 'debugger/T86Process.cpp', 't86/cpu/reservation_station.cpp'
E = [
('parse-helper', SC, '''std::pair<TypedValue, size_t>
Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
    std::istringstream iss(std::move(expression));
    std::unique_ptr<Expression> e; 
    try {
        // The constructor already reads the first token.
        ExpressionParser parser(iss);
        e = parser.ParseExpression();
    } catch (const ParserError& err) {
        throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
    }
''', '''static std::unique_ptr<Expression> ParseText(std::string text) {
    std::istringstream iss(std::move(text));
    try {
        ExpressionParser parser(iss);
        return parser.ParseExpression();
    } catch (const ParserError& err) {
        throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
    }
}

std::pair<TypedValue, size_t>
Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
    std::unique_ptr<Expression> e = ParseText(std::move(expression));
'''),
('run-order', CLI, '''            } catch (const DebuggerError& err) {
                fmt::print("Error: {}\\n", err.what());
            } catch (const ParserError& err) {
                fmt::print("Error: {}\\n", err.what());
            }
''', '''            } catch (const ParserError& err) {
                fmt::print("Error: {}\\n", err.what());
            } catch (const DebuggerError& err) {
                fmt::print("Error: {}\\n", err.what());
            }
'''),
('wtext-helper', TP, '''void T86Process::WriteText(uint64_t address,
                           const std::vector<std::string> &data) {
    // Check everything first so that an error doesn't leave half of it written.
    for (const auto& instruction: data) {
        std::istringstream iss(instruction);
        try {
            // The constructor already reads the first token.
            Parser p(iss);
            p.Instruction();
            p.CheckEnd();
        } catch (const ParserError& err) {
            throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
        }
    }
''', '''static void CheckInstruction(const std::string& instruction) {
    std::istringstream iss(instruction);
    try {
        Parser p(iss);
        p.Instruction();
        p.CheckEnd();
    } catch (const ParserError& err) {
        throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
    }
}

void T86Process::WriteText(uint64_t address,
                           const std::vector<std::string> &data) {
    for (const auto& instruction: data) {
        CheckInstruction(instruction);
    }
'''),
('tick-helper', RS, '''            try {
                instruction_->execute(*this);
            } catch (...) {
                memoryAccessException_ = std::current_exception();
            }
            state_ = State::retiring;
            return true;''', '''            auto keep = [this]() { memoryAccessException_ = std::current_exception(); };
            try {
                instruction_->execute(*this);
            } catch (const std::exception&) {
                keep();
            } catch (...) {
                keep();
            }
            state_ = State::retiring;
            return true;'''),
('findvars', SC, '''    for (const auto& d: die) {
        if (d.get_tag() == DIE::TAG::variable) {
            FindVariables(address, d, result);
        }
    }
    for (const auto& d: die) {
        if (d.get_tag() != DIE::TAG::variable) {
            FindVariables(address, d, result);
        }
    }
''', '''    std::vector<const DIE*> nested;
    for (const auto& d: die) {
        if (d.get_tag() == DIE::TAG::variable) {
            FindVariables(address, d, result);
        } else {
            nested.push_back(&d);
        }
    }
    for (const auto* d: nested) {
        FindVariables(address, *d, result);
    }
'''),
]
