C='t86/cpu.cpp'; R='t86/cpu/reservation_station.cpp'; A='t86/cpu/register_allocation_table.cpp'; W='t86/cpu/memory_writes_manager.cpp'; M='t86/ram.cpp'; MW='t86/cpu/memory_writes_manager/memory_writes.cpp'
E=[
('tick-helper',C,'''        if (singleStepDone()) {
            log_info("Breaking on single step!");
            single_stepped_ = false;
            // It's possible that some other condition occured while we're single stepping (for example write
            // onto watched memory cell). In that case do not overwrite that interrupt.
            if (interrupted_ == 0) {
                interrupted_ = 1;
            }
        }

        if (interrupted_ != 0) {
            log_info("Stop execution because of interrupt");
            return;
        }
''','''        if (single_stepped_) {
            single_stepped_ = false;
            interrupted_ = interrupted_ == 0 ? 1 : interrupted_;
        }
        if (interrupted()) {
            return;
        }
'''),
('tick-decode',C,'''        if (instructionDecode_) {
            if (reservationStation_.hasFreeEntry()) {
                reservationStation_.add(instructionDecode_->instruction, instructionDecode_->pc, instructionDecode_->loggingId);
                instructionDecode_ = std::nullopt;
            }
        }

        if (!instructionDecode_) {
            // this will set instructionFetch to be nullopt
            std::swap(instructionDecode_, instructionFetch_);
        }
''','''        if (instructionDecode_.has_value() && reservationStation_.hasFreeEntry()) {
            const auto& decoded = *instructionDecode_;
            reservationStation_.add(decoded.instruction, decoded.pc, decoded.loggingId);
            instructionDecode_.reset();
        }

        if (!instructionDecode_) {
            instructionDecode_ = instructionFetch_;
            instructionFetch_ = std::nullopt;
        }
'''),
('fetch',C,'''        if (auto jumpInstruction = dynamic_cast<const JumpInstruction*>(instruction); jumpInstruction) {
            speculativeProgramCounter_ = branchPredictor_->nextGuess(speculativeProgramCounter_, *jumpInstruction);
            predictions_.push_back(speculativeProgramCounter_);
        }
        else {
            ++speculativeProgramCounter_;
        }
''','''        const auto* jump = dynamic_cast<const JumpInstruction*>(instruction);
        if (jump == nullptr) {
            speculativeProgramCounter_ = oldPc + 1;
        } else {
            const auto guess = branchPredictor_->nextGuess(oldPc, *jump);
            predictions_.push_back(guess);
            speculativeProgramCounter_ = guess;
        }
'''),
('setreg',C,'''        registers_.at(reg.index()).value = value;
        registers_.at(reg.index()).ready = true;
''','''        auto& physical = registers_.at(reg.index());
        physical.ready = true;
        physical.value = value;
'''),
('setregdbg',C,'''        setRegister(rat_.translate(reg), value);
        if (reg == Register::ProgramCounter()) {
            log_info("Setting PC!");
            speculativeProgramCounter_ = value;
        }
''','''        if (reg == Register::ProgramCounter()) {
            speculativeProgramCounter_ = value;
        }
        setRegister(reg, value);
'''),
('start',C,'''        for (std::size_t i = 0; i < data.size(); ++i) {
            setMemory(i, data[i]);
        }
''','''        std::size_t address = 0;
        for (const auto& cell : data) {
            ram_.set(address++, cell);
        }
'''),
('readmem',C,'''        if (optWrite) {
            // There is a previous write
            if (optWrite->hasValue()) {
                // We already know the value
                return optWrite->value();
            }
            // We don't know the value yet
            return std::nullopt;
        }
        // We need to read it from mem
        return ram_.read(address);
''','''        if (!optWrite.has_value()) {
            return ram_.read(address);
        }
        if (!optWrite->hasValue()) {
            return std::nullopt;
        }
        return optWrite->value();
'''),
('writemem',C,'''        auto write = writesManager_.getWrite(id);
        writesManager_.startWriting(id, ram_);
        checkWrite(write.address());
''','''        const auto address = writesManager_.getWrite(id).address();
        writesManager_.startWriting(id, ram_);
        checkWrite(address);
'''),
('jump',C,'''        uint64_t destination = entry.getUpdatedProgramCounter();
        if (taken) {
            registerBranchTaken(entry.getRegister(Register::ProgramCounter()), destination);
        } else {
            registerBranchNotTaken(entry.getRegister(Register::ProgramCounter()));
        }
''','''        const uint64_t destination = entry.getUpdatedProgramCounter();
        const uint64_t source = entry.getRegister(Register::ProgramCounter());
        if (!taken) {
            registerBranchNotTaken(source);
        } else {
            registerBranchTaken(source, destination);
        }
'''),
('freereg',C,'''        for (std::size_t i = 0; i < physicalRegisterCnt_; ++i) {
            if (rat_.isUnmapped(PhysicalRegister{i}) && registers_.at(i).subscribedReads == 0) {
                return i;
            }
        }
''','''        for (std::size_t i = 0; i < physicalRegisterCnt_; ++i) {
            const bool in_use = registers_.at(i).subscribedReads != 0;
            if (in_use || !rat_.isUnmapped(PhysicalRegister{i})) {
                continue;
            }
            return i;
        }
'''),
('unroll-order',C,'''        // Set correct PC
        speculativeProgramCounter_ = getRegister(Register::ProgramCounter());

        // Remove pending writes
        writesManager_.removePending();
''','''        // Remove pending writes
        writesManager_.removePending();

        // Set correct PC
        speculativeProgramCounter_ = getRegister(rat_.translate(Register::ProgramCounter()));
'''),
('checkwrite',C,'''            auto& control_reg = debug_registers_[DEBUG_CONTROL_REG_IDX];
            if (!(control_reg & (1 << i))) {
                continue;
            }
            if (debug_registers_[i] == address) {
                log_info("Memory write on address '{}' where watchpoint is set", address);
                reinterpret_cast<uint8_t*>(&control_reg)[1] = 1 << i;
                interrupted_ = 2;
            }
''','''            auto& control_reg = debug_registers_[DEBUG_CONTROL_REG_IDX];
            const bool active = control_reg & (1 << i);
            if (active && debug_registers_[i] == address) {
                log_info("Memory write on address '{}' where watchpoint is set", address);
                reinterpret_cast<uint8_t*>(&control_reg)[1] = 1 << i;
                interrupted_ = 2;
            }
'''),
('exec-retire',R,'''            if (entry.state() == Entry::State::executing) {
                if (entry.executionTick()) {
                    // finished
                    if (entry.instruction()->needsAlu()) {
                        ++freeAlus_;
                    }
                }
            }
''','''            if (entry.state() != Entry::State::executing) {
                continue;
            }
            const bool finished = entry.executionTick();
            if (finished && entry.instruction()->needsAlu()) {
                ++freeAlus_;
            }
'''),
('retire-loop',R,'''        while (!entries_.empty()) {
            if (entries_.front().state() == Entry::State::retiring) {
                Entry entry = std::move(entries_.front());
                entries_.pop_front();
                entry.logRetirement();
                entry.retire();
            }
            else {
                break;
            }
        }
''','''        while (!entries_.empty() && entries_.front().state() == Entry::State::retiring) {
            Entry entry = std::move(entries_.front());
            entries_.pop_front();
            entry.logRetirement();
            entry.retire();
        }
'''),
('add-order',R,'''            if (product.isRegister()) {
                Register reg = product.getRegister();
                // We always rename program counter
                if (reg != Register::ProgramCounter()) {
                    cpu_.renameRegister(reg);
                }
            } else if (product.isFloatRegister()) {
                FloatRegister fReg = product.getFloatRegister();
                cpu_.renameFloatRegister(fReg);
            } else if''','''            if (product.isFloatRegister()) {
                cpu_.renameFloatRegister(product.getFloatRegister());
            } else if (product.isRegister()) {
                const Register reg = product.getRegister();
                if (reg == Register::ProgramCounter()) {
                    continue;
                }
                cpu_.renameRegister(reg);
            } else if'''),
('clear',R,'''            if (entry.state() == Entry::State::executing && entry.instruction()->needsAlu()) {
                ++freeAlus_;
            }
            entry.logClearSpeculation();
''','''            entry.logClearSpeculation();
            const bool holds_alu = entry.instruction()->needsAlu() && entry.state() == Entry::State::executing;
            freeAlus_ += holds_alu ? 1 : 0;
'''),
('exectick',R,'''        if (remainingExecutionTime_ == 0) {
            instruction_->execute(*this);
            state_ = State::retiring;
            return true;
        }
        return false;
''','''        if (remainingExecutionTime_ > 0) {
            return false;
        }
        instruction_->execute(*this);
        state_ = State::retiring;
        return true;
'''),
('retire',R,'''        if (cpu_.isTrapFlagSet()) {
            unrollSpeculation();
            cpu_.singleStepped();
        } else if (cpu_.interrupted()) {
            unrollSpeculation();
        }
''','''        const bool stepping = cpu_.isTrapFlagSet();
        if (stepping || cpu_.interrupted() != 0) {
            cpu_.unrollSpeculation(writeRat_);
        }
        if (stepping) {
            cpu_.singleStepped();
        }
'''),
('rename',A,'''        if (auto it = table_.find(from); it != table_.end()) {
            cpu_.unsubscribeRegisterRead(it->second);
        }
        table_.insert_or_assign(from, to);
        cpu_.subscribeRegisterRead(to);
    }

    void RegisterAllocationTable::rename(FloatRegister''','''        const auto it = table_.find(from);
        if (it != table_.end()) {
            cpu_.unsubscribeRegisterRead(it->second);
            it->second = to;
        } else {
            table_.insert_or_assign(from, to);
        }
        cpu_.subscribeRegisterRead(to);
    }

    void RegisterAllocationTable::rename(FloatRegister'''),
('unmapped',A,'''        return std::all_of(table_.begin(), table_.end(), [reg](const auto& mapping) {
            return mapping.second.index() != reg.index();
        });
''','''        for (const auto& mapping : table_) {
            if (mapping.second.index() == reg.index()) {
                return false;
            }
        }
        return true;
'''),
('ratassign',A,'''        if (&other == this) {
            return *this;
        }

        unsubscribeFromReads();

        table_ = other.table_;

        subscribeToReads();

        return *this;
''','''        if (&other != this) {
            unsubscribeFromReads();
            table_ = other.table_;
            subscribeToReads();
        }
        return *this;
'''),
('wm-specify',W,'''        auto& write = getWrite(id);
        write.setValue(value);
''','''        getWrite(id).setValue(value);
'''),
('wm-start',W,'''        MemoryWrite& write = getWrite(id);
        assert(write.isPending() && write.hasValue());
        write.setWriteId(ram.write(write.address(), write.value()));
''','''        MemoryWrite& write = getWrite(id);
        assert(write.hasValue());
        assert(write.isPending());
        const auto ram_id = ram.write(write.address(), write.value());
        write.setWriteId(ram_id);
'''),
('wm-removepend',W,'''            auto removedIds = writes.removePending();
            for (MemoryWrite::Id id : removedIds) {
                writesById.erase(id);
            }
        }
        unspecifiedWrites_.clear();
''','''            for (const auto removed : writes.removePending()) {
                writesById.erase(removed);
            }
        }
        unspecifiedWrites_.clear();
'''),
('mw-latest',MW,'''        auto it = find(maxId);
        if (it == writes_.end()) {
            return std::nullopt;
        }
        return *it;
''','''        const auto it = find(maxId);
        return it != writes_.end() ? std::make_optional(*it) : std::nullopt;
'''),
('mw-removepend',MW,'''            if (writeIt->isPending()) {
                // Still pending
                removed.push_back(writeIt->id());
                writeIt = writes_.erase(writeIt);
            } else {
                // Outgoing write
                ++writeIt;
            }
''','''            if (!writeIt->isPending()) {
                ++writeIt;
                continue;
            }
            removed.push_back(writeIt->id());
            writeIt = writes_.erase(writeIt);
'''),
('ram-read',M,'''            const auto& read = it->second;
            if (read.remainingCnt == 0) {
                // Ready
                return read.value;
            } else {
                // Waiting to be fetched
                return std::nullopt;
            }
''','''            if (it->second.remainingCnt > 0) {
                return std::nullopt;
            }
            return it->second.value;
'''),
('ram-write',M,'''        mem_.at(address) = value;
        WriteId id = writeIdCounter++;
        if (auto''','''        const WriteId id = writeIdCounter++;
        mem_.at(address) = value;
        if (auto'''),
('ram-pending',M,'''return writesById_.find(id) != writesById_.end();''','''return writesById_.count(id) > 0;'''),
]
