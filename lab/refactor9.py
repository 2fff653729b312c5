RS='t86/cpu/reservation_station.cpp'; RM='t86/ram.cpp'; OS='t86/os.cpp'; MM='t86/cpu/memory_writes_manager.cpp'; MW='t86/cpu/memory_writes_manager/memory_writes.cpp'; I='t86/instruction.cpp'
E=[
('retire-merged',RS,'''            if (entry.state() == Entry::State::executing) {
                if (entry.executionTick()) {
                    // finished
                    if (entry.instruction()->needsAlu()) {
                        ++freeAlus_;
                    }
                }
            }
''','''            if (entry.state() != Entry::State::executing) {
                continue;
            }
            const bool finished = entry.executionTick();
            if (finished && entry.instruction()->needsAlu()) {
                freeAlus_ += 1;
            }
'''),
('retire-loop',RS,'''        while (!entries_.empty()) {
            if (entries_.front().state() == Entry::State::retiring) {
                Entry entry = std::move(entries_.front());
                entries_.pop_front();
                entry.logRetirement();
                entry.retire();
            }
            else {
                break;
            }
        }
''','''        while (!entries_.empty() && entries_.front().state() == Entry::State::retiring) {
            Entry done = std::move(entries_.front());
            entries_.pop_front();
            done.logRetirement();
            done.retire();
        }
'''),
('fetch-lambda',RS,'''                                    // COPY the operand, not to mess up the real operand
                                    Operand op = operand;
                                    // supply dummy value
                                    op.supply((int64_t)0);
                                    // Check it still needs another register
                                    if (!op.isFetched()) {
                                        Requirement req = op.requirement();
                                        if (req.isRegisterRead()) {
                                            // Another register
                                            Register r = req.getRegisterRead();
                                            // check if available
                                            if (!entry.registerAvailable(r)) {
                                                // We log this one as well
                                                entry.logStallRegisterFetch(r);
                                            }
                                        }
                                    }
                                    break;
''','''                                    auto logOther = [&entry](Operand op) {
                                        op.supply((int64_t)0);
                                        if (op.isFetched()) {
                                            return;
                                        }
                                        Requirement req = op.requirement();
                                        if (!req.isRegisterRead()) {
                                            return;
                                        }
                                        Register r = req.getRegisterRead();
                                        if (!entry.registerAvailable(r)) {
                                            entry.logStallRegisterFetch(r);
                                        }
                                    };
                                    logOther(operand);
                                    break;
'''),
('fetch-mem',RS,'''                                auto optMemory = entry.readMemory(address);
                                if (optMemory.has_value()) {
                                    operand.supply(optMemory.value());
                                } else {
                                    fetchStall = true;
                                    entry.logStallRAMRead(address);
                                    break;
                                }
''','''                                auto value = entry.readMemory(address);
                                if (!value) {
                                    entry.logStallRAMRead(address);
                                    fetchStall = true;
                                    break;
                                }
                                operand.supply(*value);
'''),
('alu-check',RS,'''                    if (entry.instruction()->needsAlu()) {
                        // No ALU is free
                        if (!freeAlus_) {
                            entry.logStallALU();
                            break;
                        }
                        --freeAlus_;
                    }
''','''                    if (const bool alu = entry.instruction()->needsAlu(); alu && freeAlus_ == 0) {
                        entry.logStallALU();
                        break;
                    } else if (alu) {
                        freeAlus_ = freeAlus_ - 1;
                    }
'''),
('ram-tick',RM,'''        for (auto readIt = reads_.begin(); readIt != reads_.end();) {
            auto& read = readIt->second;
            if (read.remainingCnt == 0) {
                readIt = reads_.erase(readIt);
            } else {
                --read.remainingCnt;
                ++readIt;
            }
        }
''','''        auto readIt = reads_.begin();
        while (readIt != reads_.end()) {
            if (readIt->second.remainingCnt != 0) {
                readIt->second.remainingCnt -= 1;
                ++readIt;
                continue;
            }
            readIt = reads_.erase(readIt);
        }
'''),
('ram-read',RM,'''        if (auto it = reads_.find(address); it != reads_.end()) {
            const auto& read = it->second;
            if (read.remainingCnt == 0) {
                // Ready
                return read.value;
            } else {
                // Waiting to be fetched
                return std::nullopt;
            }
        }

        if (!isBusy()) {
            // Start reading
            assert(reads_.find(address) == reads_.end());
            assert(writes_.find(address) == writes_.end() && "You should not read from address that is being written to");
            reads_[address] = ReadEntry{readLatency(address), mem_.at(address)};
        }

        return std::nullopt;
''','''        auto it = reads_.find(address);
        if (it == reads_.end()) {
            if (!isBusy()) {
                assert(writes_.find(address) == writes_.end() && "You should not read from address that is being written to");
                reads_.emplace(address, ReadEntry{readLatency(address), mem_.at(address)});
            }
            return std::nullopt;
        }
        return it->second.remainingCnt == 0 ? std::optional<int64_t>(it->second.value) : std::nullopt;
'''),
('ram-pending',RM,'''return writesById_.find(id) != writesById_.end();''','''return writesById_.count(id) > 0;'''),
('os-dispatch',OS,'''    switch (n) {
    case 3:
        DebuggerMessage(Debug::BreakReason::SoftwareBreakpoint);
        break;
    case 2:
        DebuggerMessage(Debug::BreakReason::HardwareBreakpoint);
        break;
    case 1:
        DebuggerMessage(Debug::BreakReason::SingleStep);
        break;
    default:
        throw std::runtime_error(
              fmt::format("No interrupt handler for interrupt no. {}!", n));
        break;
    }
''','''    Debug::BreakReason reason;
    if (n == 1) {
        reason = Debug::BreakReason::SingleStep;
    } else if (n == 2) {
        reason = Debug::BreakReason::HardwareBreakpoint;
    } else if (n == 3) {
        reason = Debug::BreakReason::SoftwareBreakpoint;
    } else {
        throw std::runtime_error(
              fmt::format("No interrupt handler for interrupt no. {}!", n));
    }
    DebuggerMessage(reason);
'''),
('os-run',OS,'''        if (int n = cpu.interrupted(); n > 0) {
            log_info("Interrupt {} occurred", n);
            DispatchInterrupt(n);
        }

        if (stop) {
            log_info("OS: stop is set, ending");
            return true;
        }
    }
''','''        const int interrupt = cpu.interrupted();
        if (interrupt >= 1) {
            log_info("Interrupt {} occurred", interrupt);
            DispatchInterrupt(interrupt);
        }

        if (stop) {
            break;
        }
    }
    log_info("OS: stop is set, ending");
    return true;
'''),
('os-msg',OS,'''    if (debug_interface) {
        stop = !debug_interface->Work(reason);
    } else {
        log_info("Call to debugger interface was initiated but no "
                    "debugger is connected!");
    }
''','''    if (!debug_interface) {
        log_info("No debugger is connected!");
        return;
    }
    const bool go_on = debug_interface->Work(reason);
    stop = !go_on;
'''),
('mm-ids',MM,'''            auto removedIds = writes.removeFinished(ram);
            for (MemoryWrite::Id id : removedIds) {
                writesById.erase(id);
            }
''','''            for (auto id : writes.removeFinished(ram)) {
                writesById.erase(id);
            }
'''),
('mm-prev',MM,'''        auto it = writesMap_.find(address);
        if (it == writesMap_.end()) {
            return std::nullopt;
        }
        return it->second.latest(maxId);
''','''        if (auto it = writesMap_.find(address); it != writesMap_.end()) {
            return it->second.latest(maxId);
        }
        return std::nullopt;
'''),
('mm-start',MM,'''        write.setWriteId(ram.write(write.address(), write.value()));''','''        const auto address = write.address();
        const auto value = write.value();
        const auto ramId = ram.write(address, value);
        write.setWriteId(ramId);'''),
('mm-reg',MM,'''        MemoryWrite::Id writeId = ++currentId;
        unspecifiedWrites_.insert(writeId);
        return writeId;
''','''        currentId += 1;
        unspecifiedWrites_.insert(currentId);
        return currentId;
'''),
('mw-latest',MW,'''        if (it == writes_.end()) {
            return std::nullopt;
        }
        return *it;
''','''        return it == writes_.end() ? std::nullopt : std::make_optional(*it);
'''),
('mw-pending',MW,'''            if (writeIt->isPending()) {
                // Still pending
                removed.push_back(writeIt->id());
                writeIt = writes_.erase(writeIt);
            } else {
                // Outgoing write
                ++writeIt;
            }
''','''            if (!writeIt->isPending()) {
                ++writeIt;
                continue;
            }
            removed.emplace_back(writeIt->id());
            writeIt = writes_.erase(writeIt);
'''),
('ins-sig',I,'''        std::vector<Operand::Type> operandTypes;
        operandTypes.reserve(operands.size());
        for (const auto& operand : operands) {
            operandTypes.push_back(operand.getType());
        }
''','''        std::vector<Operand::Type> operandTypes;
        for (std::size_t i = 0; i < operands.size(); ++i) {
            operandTypes.push_back(operands[i].getType());
        }
'''),
('ins-str',I,'''        ss << typeToString(type());
        auto operands = signatureOperands();
        auto it = operands.begin();
        if (it != operands.end()) {
            ss << " " + it->toString();
            for (++it; it != operands.end(); ++it) {
                ss << ", " + it->toString();
            }
        }
''','''        ss << typeToString(type());
        auto operands = signatureOperands();
        const char* sep = " ";
        for (const auto& operand : operands) {
            ss << sep << operand.toString();
            sep = ", ";
        }
'''),
('ins-less',I,'''        return type == other.type && operandTypes == other.operandTypes;
''','''        if (type != other.type) {
            return false;
        }
        return operandTypes == other.operandTypes;
'''),
('bin-exec',I,'''        Alu::Result binOpRes = op_(operands[0].getValue(), operands[1].getValue());
        entry.setRegister(dest_, binOpRes.value);
        entry.setFlags(binOpRes.flags);
''','''        const auto lhs = operands[0].getValue();
        const auto rhs = operands[1].getValue();
        const auto [value, flags] = op_(lhs, rhs);
        entry.setFlags(flags);
        entry.setRegister(dest_, value);
'''),
('mov-two',I,'''            else if (destination_.isMemoryRegisterRegister()) {
                assert(operands.size() == 3);
                address = Operand::supply(
                        Operand::supply(destination_.getMemoryRegisterRegister(), operands[1].getValue()),
                        operands[2].getValue()
                        ).index();
            }
''','''            else if (destination_.isMemoryRegisterRegister()) {
                assert(operands.size() == 3);
                const auto first = operands[1].getValue();
                auto half = Operand::supply(destination_.getMemoryRegisterRegister(), first);
                auto whole = Operand::supply(half, operands[2].getValue());
                address = whole.index();
            }
'''),
('mov-imm',I,'''            const auto& memoryWriteIds = entry.memoryWriteIds();
            assert(memoryWriteIds.size() == 1);
            entry.setWriteValue(memoryWriteIds[0], operands[0].getValue());
        } else {''','''            assert(entry.memoryWriteIds().size() == 1);
            entry.setWriteValue(entry.memoryWriteIds().front(), operands.front().getValue());
        } else {'''),
('lea-order',I,'''        if (mem_.isMemoryRegisterOffset()) {
            return {mem_.getMemoryRegisterOffset().regOffset().reg()};
        }
        else if (mem_.isMemoryRegisterScaled()) {
            return {mem_.getMemoryRegisterScaled().regScaled().reg()};
        }
        else if (mem_.isMemoryRegisterRegister()) {''','''        if (mem_.isMemoryRegisterScaled()) {
            return {mem_.getMemoryRegisterScaled().regScaled().reg()};
        }
        if (mem_.isMemoryRegisterOffset()) {
            const auto& mem = mem_.getMemoryRegisterOffset();
            return {mem.regOffset().reg()};
        }
        if (mem_.isMemoryRegisterRegister()) {'''),
]
