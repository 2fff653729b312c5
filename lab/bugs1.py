N='debugger/Native.cpp'; T='debugger/T86Process.cpp'; D='t86/debug.cpp'; O='t86/os.cpp'
E=[
('unset-noerase',N,'''    DisableSoftwareBreakpoint(address);
    software_breakpoints.erase(address);
''','''    software_breakpoints.erase(address);
'''),
('enable-flip',N,'''    if (!bp.enabled) {
        bp = CreateSoftwareBreakpoint(address);
    }
''','''    if (!bp.enabled) {
        CreateSoftwareBreakpoint(address);
    }
'''),
('disable-nodata',N,'''        process->WriteText(address, prev_data);
        bp.enabled = false;
''','''        process->WriteText(address, prev_data);
'''),
('readtext-off',N,'''auto it = software_breakpoints.find(i + address);
        if (it != software_breakpoints.end()) {
            text.at(i)''','''auto it = software_breakpoints.find(i + address);
        if (it != software_breakpoints.end() && it->second.enabled) {
            text.at(i)'''),
('writetext-bound',N,'''if (address + text.size() > text_size) {''','''if (address + text.size() >= text_size) {'''),
('sstep',N,'''bp->second.enabled) {
            return StepOverBreakpoint(ip);''','''bp->second.enabled) {
            DisableSoftwareBreakpoint(ip);
            return DoRawSingleStep();'''),
('stepover-bp',N,'''if (bp == GetRegister("BP")
                    && GetIP() == ip + 1''','''if (GetIP() == ip + 1'''),
('stepout',N,'''        skip_bp = false;
    }''','''    }'''),
('setreg',N,'''    regs.at(name) = value;
    SetRegisters(regs);''','''    regs.at(name) = value;'''),
('wait-cached',N,'''        cached_event.reset();
''',''''''),
('wait-ip',N,'''regs.at("IP") -= 1;''','''regs.at("IP") -= 0;'''),
('cont',N,'''            cached_event.emplace(event);
            return;
        }
        process->ResumeExecution();''','''            return;
        }
        process->ResumeExecution();'''),
('wp-act',N,'''    Arch::ActivateDebugRegister(*idx, dbg_regs);
''',''''''),
('freedbg',N,'''            return w.second.hw_reg == i;
        });
        if (w == watchpoints.end())''','''            return w.second.hw_reg == i + 1;
        });
        if (w == watchpoints.end())'''),
('create',N,'''return SoftwareBreakpoint{backup, true};''','''return SoftwareBreakpoint{new_opcode, true};'''),
('stepoverbp',N,'''    EnableSoftwareBreakpoint(ip); 
    return event;''','''    if (std::holds_alternative<Singlestep>(event)) EnableSoftwareBreakpoint(ip); 
    return event;'''),
('setall',N,'''            software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};''','''            SetBreakpoint(address);'''),
('wm-bound',T,'''if (address + data.size() > data_size) {''','''if (address + data.size() > data_size + 1) {'''),
('rm',T,'''process->Send(fmt::format("PEEKDATA {} {}", address, amount));''','''process->Send(fmt::format("PEEKDATA {} {}", address, amount + 1));'''),
('reason',T,'''} else if (r == "HALT") {
        return StopReason::ExecutionEnd;
    } else if (r == "CPU_ERROR") {
        return StopReason::CpuError;''','''} else if (r == "HALT" || r == "CPU_ERROR") {
        return StopReason::ExecutionEnd;'''),
('noresp',T,'''        process->Send(fmt::format("POKEFLOATREGS {} {}", name, val));
        CheckResponse("POKEFLOATREGS error");''','''        process->Send(fmt::format("POKEFLOATREGS {} {}", name, val));'''),
('gp',T,'''*idx < gen_purpose_regs_count;''','''*idx <= gen_purpose_regs_count;'''),
('checkresp',T,'''if (!message || *message != "OK") {''','''if (message && *message != "OK") {'''),
('wait',T,'''if (!message || message != "STOPPED") {''','''if (!message) {'''),
('peek',D,'''result += cpu.getText(i).toString() + "\\n";''','''result += cpu.getText(index).toString() + "\\n";'''),
('trap',D,'''            cpu.unsetTrapFlag();''',''''''),
('regs',D,'''            acc += fmt::format("R{}:{}\\n", i, cpu.getRegister(Register{i}));''','''            acc += fmt::format("R{}:{}\\n", i + 1, cpu.getRegister(Register{i}));'''),
('oserr',O,'''            DebuggerMessage(Debug::BreakReason::CpuError);
            return false;''','''            return false;'''),
('osmsg',O,'''stop = !debug_interface->Work(reason);''','''stop = stop || debug_interface->Work(reason);'''),
('osdisp',O,'''    case 2:
        DebuggerMessage(Debug::BreakReason::HardwareBreakpoint);''','''    case 2:
        DebuggerMessage(Debug::BreakReason::SoftwareBreakpoint);'''),
('trans',D,'''return Register::StackBasePointer();''','''return Register::StackPointer();'''),
]
