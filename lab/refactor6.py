D='t86/debug.cpp'; CL='dbg-cli/CLI.h'; AR='debugger/Arch.h'; T='common/TCP.h'; TM='common/threads_messenger.h'; TP='debugger/T86Process.cpp'; M='t86-cli/main.cpp'
E=[
# debug.cpp
('svtoidx',D,'''        auto v = utils::svtoi64(s);
        if (!v || *v < 0) {
            throw std::runtime_error(fmt::format("Expected index, got '{}' {}", s, !v));
        }
        return static_cast<size_t>(*v);
''','''        const auto parsed = utils::svtoi64(s);
        if (parsed.has_value() && *parsed >= 0) {
            return static_cast<size_t>(parsed.value());
        }
        throw std::runtime_error(fmt::format("Expected index, got '{}' {}", s, !parsed));
'''),
('dbgregs',D,'''        for (size_t i = 0; i < Cpu::DEBUG_REGISTERS_CNT; ++i) {
            acc += fmt::format("D{}:{}\\n", i, cpu.getDebugRegister(i));
        }
        return acc;
''','''        size_t i = 0;
        while (i != Cpu::DEBUG_REGISTERS_CNT) {
            const auto value = cpu.getDebugRegister(i);
            acc.append(fmt::format("D{}:{}\\n", i, value));
            i++;
        }
        return acc;
'''),
('peekdata',D,'''                for (size_t i = index; i < index + count; ++i) {
                    result += fmt::format("{}\\n", cpu.getMemory(i)); 
                }
''','''                for (size_t i = 0; i < count; ++i) {
                    const auto cell = cpu.getMemory(index + i);
                    result += fmt::format("{}\\n", cell);
                }
'''),
('pokedata',D,'''                auto value = utils::svtoi64(commands.at(2));
                if (!value) {
                    throw std::runtime_error("Expected number as second arg");
                }
                cpu.setMemory(index, *value);
                messenger->Send("OK");
''','''                if (auto value = utils::svtoi64(commands.at(2)); value) {
                    cpu.setMemory(index, *value);
                } else {
                    throw std::runtime_error("Expected number as second arg");
                }
                messenger->Send("OK");
'''),
('sstep',D,'''                cpu.setTrapFlag();
                messenger->Send("OK");
                break; // continue
''','''                messenger->Send("OK");
                cpu.setTrapFlag();
                return true;
'''),
('cmdmerge',D,'''            } else if (command == "PEEKREGS") {
                auto regs = RegistersToString();
                messenger->Send(regs);
            } else if (command == "PEEKFLOATREGS") {
                auto regs = FloatRegistersToString();
                messenger->Send(regs);
''','''            } else if (command == "PEEKFLOATREGS") {
                messenger->Send(FloatRegistersToString());
            } else if (command == "PEEKREGS") {
                messenger->Send(RegistersToString());
'''),
('transfl',D,'''        auto idx = utils::svtonum<size_t>(s.substr(1));
        if (!idx) {
            throw std::runtime_error(fmt::format("Wrong debug register,"
                       " expected D<index>, got '{}'", s));
        }
        return *idx;
''','''        s.remove_prefix(1);
        if (auto idx = utils::svtonum<size_t>(s)) {
            return *idx;
        }
        throw std::runtime_error("Wrong debug register");
'''),
# CLI
('printcode',CL,'''            std::string pretty_rest;
            if (curr_loc && i == *curr_loc) {
                pretty_rest = fmt::format(fg(fmt::color::dark_blue), "->{:>4}:{}\\n", i + 1, *line);
            } else {
                pretty_rest = fmt::format("  {:>4}:{}\\n", i + 1, *line);
            }
''','''            const bool is_current = curr_loc.has_value() && *curr_loc == i;
            std::string pretty_rest = is_current
                ? fmt::format(fg(fmt::color::dark_blue), "->{:>4}:{}\\n", i + 1, *line)
                : fmt::format("  {:>4}:{}\\n", i + 1, *line);
'''),
('printtext',CL,'''            uint64_t curr_addr = i + address;
            auto bp_s = GetPrettyBp(curr_addr, bkpts);
            std::string pretty_rest;
            if (curr_addr == ip) {
''','''            const uint64_t curr_addr = address + i;
            const auto bp_s = GetPrettyBp(curr_addr, bkpts);
            std::string pretty_rest;
            const bool at_ip = ip == curr_addr;
            if (at_ip) {
'''),
('parseaddr',CL,'''        auto loc = utils::svtoi64(address);
        if (!loc || loc < 0) {
            Error("Expected unsigned number, got '{}' instead", address);
        }
        return *loc;
''','''        const auto loc = utils::svtoi64(address);
        const bool valid = loc && *loc >= 0;
        if (!valid) {
            Error("Expected unsigned number, got '{}' instead", address);
        }
        return static_cast<uint64_t>(*loc);
'''),
('reportbreak',CL,'''        auto ip = process.GetIP();
        auto line = source.AddrToLine(ip);
        // If we stopped on a line then print that, otherwise print assembly.
        if (line) {
            PrettyPrintCode(*line);
        } else {
            PrettyPrintText(ip);
        }
''','''        const auto ip = process.GetIP();
        // If we stopped on a line then print that, otherwise print assembly.
        if (const auto line = source.AddrToLine(ip); !line) {
            PrettyPrintText(ip);
        } else {
            PrettyPrintCode(*line);
        }
'''),
('bphelper',CL,'''            process.SetBreakpoint(addr);
            auto line = source.AddrToLine(addr);
            if (!line) {
                fmt::print("Breakpoint set on address {}\\n", addr);
                return;
            }
            auto source_line = source.GetLine(*line);
            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
            if (source_line) {
                fmt::print(": {}\\n", *source_line);
            } else {
                fmt::print("\\n");
            }
''','''            process.SetBreakpoint(addr);
            ReportBp("set on", addr);
'''),
('bphelper2',CL,'''            process.EnableSoftwareBreakpoint(addr);
            auto line = source.AddrToLine(addr);
            if (!line) {
                fmt::print("Breakpoint enabled on address {}\\n", addr);
                return;
            }
            auto source_line = source.GetLine(*line);
            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
            if (source_line) {
                fmt::print(": {}\\n", *source_line);
            } else {
                fmt::print("\\n");
            }
''','''            process.EnableSoftwareBreakpoint(addr);
            ReportBp("enabled on", addr);
'''),
('bphelperdef',CL,'''    void HandleBreakpoint(std::string_view command) {
''','''    void ReportBp(std::string_view what, uint64_t addr) {
        auto line = source.AddrToLine(addr);
        if (!line) {
            fmt::print("Breakpoint {} address {}\\n", what, addr);
            return;
        }
        auto source_line = source.GetLine(*line);
        fmt::print("Breakpoint {} line {} (addr {})", what, *line + 1, addr);
        if (source_line) {
            fmt::print(": {}\\n", *source_line);
        } else {
            fmt::print("\\n");
        }
    }

    void HandleBreakpoint(std::string_view command) {
'''),
('watch',CL,'''            if (watchpoints.size() == 0) {
                fmt::print("No active watchpoints\\n");
                return;
            }

            fmt::print("Active watchpoints:\\n");
            for (auto&& w: watchpoints) {
                auto&& [address, wp] = w;
                fmt::print(" - address {}\\n", address);
            }
''','''            if (watchpoints.empty()) {
                fmt::print("No active watchpoints\\n");
            } else {
                fmt::print("Active watchpoints:\\n");
                for (const auto& [address, wp] : watchpoints) {
                    fmt::print(" - address {}\\n", address);
                }
            }
'''),
('srcstep',CL,'''        DebugEvent e;
        if (step_over) {
            e = source.StepOver(process);
        } else {
            e = source.StepIn(process);
        }
        if (!std::holds_alternative<Singlestep>(e)) {
            ReportDebugEvent(e);
        }
        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        } else {
            auto ip = process.GetIP();
            auto line = source.AddrToLine(ip);
            // The line should be valid because source level single step
            // was made but it is possible that no source info is available
            // and source step was invoked anyway.
            if (!line) {
                return;
            }
            PrettyPrintCode(*line);
        }
''','''        const DebugEvent e = step_over ? source.StepOver(process) : source.StepIn(process);
        if (!std::holds_alternative<Singlestep>(e)) {
            ReportDebugEvent(e);
        }
        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
            return;
        }
        if (auto line = source.AddrToLine(process.GetIP())) {
            PrettyPrintCode(*line);
        }
'''),
('active',CL,'''    void HandleNext(std::string_view command) {
        if (!process.Active()) {
            Error("No active process.");
        }
        if (!is_running) {
            Error("Process finished executing, it's not possible to continue.");
        }
        if (command == "") {
''','''    void RequireRunning() {
        if (!process.Active()) {
            Error("No active process.");
        }
        if (!is_running) {
            Error("Process finished executing, it's not possible to continue.");
        }
    }

    void HandleNext(std::string_view command) {
        RequireRunning();
        if (command.empty()) {
'''),
('finish',CL,'''        if (command == "") {
            auto e = process.PerformStepOut();
            if (!std::holds_alternative<Singlestep>(e)) {
                ReportDebugEvent(e);
            }
            if (std::holds_alternative<ExecutionEnd>(e)) {
                is_running = false;
            } else {
                auto ip = process.GetIP();
                auto line = source.AddrToLine(ip);
                if (!line) {
                    PrettyPrintText(ip);
                } else {
                    PrettyPrintCode(*line);
                }
            }
        } else {
            fmt::print("{}", FINISH_USAGE);
        }
''','''        if (command != "") {
            fmt::print("{}", FINISH_USAGE);
            return;
        }
        auto e = process.PerformStepOut();
        const bool ended = std::holds_alternative<ExecutionEnd>(e);
        if (!std::holds_alternative<Singlestep>(e)) {
            ReportDebugEvent(e);
        }
        if (ended) {
            is_running = false;
            return;
        }
        auto ip = process.GetIP();
        auto line = source.AddrToLine(ip);
        if (line) {
            PrettyPrintCode(*line);
        } else {
            PrettyPrintText(ip);
        }
'''),
('disas',CL,'''            auto amount = subcommands.size() > 2
                ? ParseAddress(subcommands.at(2))
                : text_size - begin;
            auto text = process.ReadText(begin, amount);
''','''            size_t amount = text_size - begin;
            if (subcommands.size() >= 3) {
                amount = ParseAddress(subcommands[2]);
            }
            const auto text = process.ReadText(begin, amount);
'''),
('src',CL,'''            auto begin = std::max(*line - 2, 0l);
            auto end = *line + 2 + 1;
            PrintCode(begin, end);
''','''            const ssize_t begin = *line > 2 ? *line - 2 : 0;
            PrintCode(begin, *line + 3);
'''),
('iasm',CL,'''            std::string line{line_raw};
            if (line == "") {
                free(line_raw);
                break;
            }
            result.push_back(line);
            linenoiseHistoryAdd(line_raw);
            free(line_raw);
''','''            const std::string line(line_raw);
            if (line.empty()) {
                free(line_raw);
                break;
            }
            linenoiseHistoryAdd(line_raw);
            result.emplace_back(line);
            free(line_raw);
'''),
('regset',CL,'''            auto reg = subcommands.at(1);
            auto value = utils::svtoi64(subcommands.at(2));
            if (!value) {
                Error("Expected register value, instead got '{}'", subcommands.at(2));
            }
            process.SetRegister(std::string(reg), *value);
''','''            const std::string reg{subcommands[1]};
            const auto value = utils::svtoi64(subcommands[2]);
            if (!value.has_value()) {
                Error("Expected register value, instead got '{}'", subcommands[2]);
            }
            process.SetRegister(reg, value.value());
'''),
('memset',CL,'''            std::vector<int64_t> values;
            std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                    std::back_inserter(values), [&](auto&& s) { 
                auto v = utils::svtonum<int64_t>(s);
                if (!v) {
                    Error("Expected number, got '{}'", s);
                }
                return *v;
            });
            process.SetMemory(*cell, values);
''','''            std::vector<int64_t> values;
            for (size_t i = 2; i < subcommands.size(); ++i) {
                auto v = utils::svtonum<int64_t>(subcommands[i]);
                if (!v) {
                    Error("Expected number, got '{}'", subcommands[i]);
                }
                values.push_back(*v);
            }
            process.SetMemory(*cell, values);
'''),
('setstr',CL,'''            std::vector<int64_t> data;
            std::transform(unescaped_str.begin(), unescaped_str.end(),
                    std::back_inserter(data), [](auto&& c){ return c; });
            // The terminating zero
''','''            std::vector<int64_t> data(unescaped_str.begin(), unescaped_str.end());
            // The terminating zero
'''),
('memget',CL,'''                for (size_t i = 0; i < vals.size(); ++i) {
                    fmt::print("{}", static_cast<char>(vals[i]));
                    if (i + 1 == vals.size() && vals[i] != '\\n') {
                        fmt::print("\\\\%\\n");
                    }
                }
            } else {
                for (auto&& val: vals) {
                    fmt::print("{}:{}\\n", (*begin)++, val);
                }
            }
''','''                for (auto val : vals) {
                    fmt::print("{}", static_cast<char>(val));
                }
                if (!vals.empty() && vals.back() != '\\n') {
                    fmt::print("\\\\%\\n");
                }
            } else {
                size_t address = *begin;
                for (auto&& val: vals) {
                    fmt::print("{}:{}\\n", address, val);
                    ++address;
                }
            }
'''),
('cont',CL,'''        auto e = process.WaitForDebugEvent();
        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        }
        ReportDebugEvent(e);
        ReportBreak(e);
''','''        const auto e = process.WaitForDebugEvent();
        ReportDebugEvent(e);
        if (std::holds_alternative<ExecutionEnd>(e)) {
            is_running = false;
        }
        ReportBreak(e);
'''),
('hexpr',CL,'''        if (command == "") {
            fmt::print("{}", EXPRESSION_USAGE);
            return;
        }
        auto [val, idx] = source.EvaluateExpression(process, std::string{command});
        fmt::print("({}) ${} = {}\\n", source.TypedValueTypeToString(val),
                                      idx, source.TypedValueToString(process, val));
''','''        if (command.empty()) {
            fmt::print("{}", EXPRESSION_USAGE);
            return;
        }
        const auto result = source.EvaluateExpression(process, std::string(command));
        const auto& val = result.first;
        const auto type = source.TypedValueTypeToString(val);
        const auto text = source.TypedValueToString(process, val);
        fmt::print("({}) ${} = {}\\n", type, result.second, text);
'''),
('hcmd',CL,'''        auto main_command_offset = command.find(' ');
        std::string_view main_command;
        if (main_command_offset == command.npos) {
            main_command = command;
            command = "";
        } else {
            main_command = command.substr(0, main_command_offset);
            command = command.substr(main_command.size() + 1);
        }
''','''        const auto space = command.find(' ');
        const bool has_args = space != std::string_view::npos;
        std::string_view main_command = has_args ? command.substr(0, space) : command;
        command = has_args ? command.substr(space + 1) : std::string_view{""};
'''),
# Arch
('actdbg',AR,'''            // D4 is control register
            auto& control_reg = regs.at("D4");
            // First fourth bits indicate whether the register is active.
            control_reg |= 1 << idx;
''','''            const auto mask = 1 << idx;
            regs.at("D4") = regs.at("D4") | mask;
'''),
('deactdbg',AR,'''            auto& control_reg = regs.at("D4");
            // First fourth bits indicate whether the register is active.
            control_reg &= ~(1 << idx);
''','''            const auto mask = ~(1 << idx);
            auto& control = regs.at("D4");
            control = control & mask;
'''),
('setdbg',AR,'''        if (idx >= Arch::DebugRegistersCount()) {
            throw DebuggerError("Out of bounds: Debug registers");
        }

        if (ins.current_machine == Machine::T86) {
            regs.at(fmt::format("D{}", idx)) = address;
        } else {
            UNREACHABLE;
        }
''','''        if (!(idx < Arch::DebugRegistersCount())) {
            throw DebuggerError("Out of bounds: Debug registers");
        }

        switch (ins.current_machine) {
        case Machine::T86:
            regs.at("D" + std::to_string(idx)) = address;
            return;
        }
        UNREACHABLE;
'''),
# TCP/threads
('tsend',TM,'''class ThreadMessenger: public Messenger {
public:
    /// in - Sends the messages to this queue
    /// out - Receives messages from this queue
    ThreadMessenger(ThreadQueue<std::string> &in, ThreadQueue<std::string>& out): in(in), out(out) {
    }

    void Send(const std::string& message) override {
        std::lock_guard l(in.m);
        in.q.push(message);
        in.cv.notify_one();
    }

    std::optional<std::string> Receive() override {
        std::unique_lock<std::mutex> l(out.m);
        out.cv.wait(l, [this]{ return !this->out.q.empty();});
        auto response = out.q.front();
        out.q.pop();
        return response;
    }
''','''class ThreadMessenger: public Messenger {
public:
    /// in - Sends the messages to this queue
    /// out - Receives messages from this queue
    ThreadMessenger(ThreadQueue<std::string> &in, ThreadQueue<std::string>& out): in(in), out(out) {
    }

    void Send(const std::string& message) override {
        {
            std::unique_lock<std::mutex> lock(in.m);
            in.q.emplace(message);
        }
        in.cv.notify_one();
    }

    std::optional<std::string> Receive() override {
        std::unique_lock<std::mutex> lock(out.m);
        while (out.q.empty()) {
            out.cv.wait(lock);
        }
        std::string response = std::move(out.q.front());
        out.q.pop();
        return response;
    }
'''),
('tcprecv',T,'''    std::optional<std::string> Receive() override {
        if (!initialized) {
            throw TCPError("Call to Receive before Initialize");
        }
        return ::TCP::Receive(sock);
    }
''','''    std::optional<std::string> Receive() override {
        if (initialized) {
            return ::TCP::Receive(sock);
        }
        throw TCPError("Call to Receive before Initialize");
    }
'''),
]
