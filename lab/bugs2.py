C='t86/cpu.cpp'; R='t86/cpu/reservation_station.cpp'; A='t86/cpu/register_allocation_table.cpp'; W='t86/cpu/memory_writes_manager.cpp'; M='t86/ram.cpp'; MW='t86/cpu/memory_writes_manager/memory_writes.cpp'; WH='t86/cpu/memory_writes_manager.h'
E=[
('tick-step',C,'''            if (interrupted_ == 0) {
                interrupted_ = 1;
            }
''','''            interrupted_ = 1;
'''),
('fetch',C,'''            predictions_.push_back(speculativeProgramCounter_);
''','''            predictions_.push_front(speculativeProgramCounter_);
'''),
('setregdbg',C,'''            log_info("Setting PC!");
            speculativeProgramCounter_ = value;
''',''''''),
('setready',C,'''        registers_.at(reg.index()).value = value;
        registers_.at(reg.index()).ready = true;
''','''        registers_.at(reg.index()).value = value;
'''),
('start',C,'''            setMemory(i, data[i]);''','''            setMemory(i + 1, data[i]);'''),
('readmem',C,'''            // We don't know the value yet
            return std::nullopt;
        }''','''        }'''),
('unspec',C,'''        if (writesManager_.hasUnspecifiedWrites(maxId)) {
            return std::nullopt;
        }
        auto optWrite = writesManager_.previousWrite(address, maxId);''','''        auto optWrite = writesManager_.previousWrite(address, writesManager_.currentMaxWriteId());'''),
('writemem',C,'''        checkWrite(write.address());''','''        if (!trapFlag_) checkWrite(write.address());'''),
('jump',C,'''        if (taken) {
            registerBranchTaken''','''        if (!taken) {
            registerBranchTaken'''),
('pred',C,'''        predictions_.pop_front();
        if''','''        if'''),
('rename',C,'''        rat_.rename(reg, dest);
        registers_.at(dest.index()).ready = false;
    }

    void Cpu::renameFloat''','''        rat_.rename(reg, dest);
    }

    void Cpu::renameFloat'''),
('free',C,'''&& registers_.at(i).subscribedReads == 0) {''','''&& registers_.at(i).subscribedReads <= 1) {'''),
('flush',C,'''        reservationStation_.clear();
        predictions_.clear();''','''        reservationStation_.clear();'''),
('unroll',C,'''        // Remove pending writes
        writesManager_.removePending();''',''''''),
('watch',C,'''i < debug_registers_.size() - 1; ++i''','''i < debug_registers_.size() - 2; ++i'''),
('exec-retire',R,'''                    if (entry.instruction()->needsAlu()) {
                        ++freeAlus_;
                    }
                }''','''                    ++freeAlus_;
                }'''),
('retireorder',R,'''            else {
                break;
            }
        }
    }''','''            else {
                if (entries_.size() > 1 && entries_.back().state() == Entry::State::retiring) {
                    Entry entry = std::move(entries_.back());
                    entries_.pop_back();
                    entry.retire();
                }
                break;
            }
        }
    }'''),
('fetchstart',R,'''                        --freeAlus_;
                    }''','''                    }'''),
('add',R,'''                if (reg != Register::ProgramCounter()) {
                    cpu_.renameRegister(reg);
                }''','''                if (reg != Register::ProgramCounter() && reg != Register::Flags()) {
                    cpu_.renameRegister(reg);
                }'''),
('clear',R,'''            if (entry.state() == Entry::State::executing && entry.instruction()->needsAlu()) {''','''            if (entry.instruction()->needsAlu()) {'''),
('retire',R,'''        if (memoryAccessException_) {
            std::rethrow_exception(memoryAccessException_);
        }
''',''''''),
('retire2',R,'''        } else if (cpu_.interrupted()) {
            unrollSpeculation();
        }''','''        }'''),
('rat',R,'''        return writeRat_;
    }''','''        return readRat_;
    }'''),
('avail',R,'''        return cpu_.registerReady(readRat_.translate(fReg));
    }''','''        return cpu_.registerReady(writeRat_.translate(fReg));
    }'''),
('ratren',A,'''            cpu_.unsubscribeRegisterRead(it->second);
        }
        table_.insert_or_assign(from, to);
        cpu_.subscribeRegisterRead(to);
    }

    PhysicalRegister''','''        }
        table_.insert_or_assign(from, to);
        cpu_.subscribeRegisterRead(to);
    }

    PhysicalRegister'''),
('ratcopy',A,'''            : table_{other.table_}, cpu_{other.cpu_} {
        subscribeToReads();''','''            : table_{other.table_}, cpu_{other.cpu_} {'''),
('ratassign',A,'''        unsubscribeFromReads();

        table_ = other.table_;
''','''        table_ = other.table_;

        unsubscribeFromReads();
'''),
('wmspec',W,'''        std::size_t erased = unspecifiedWrites_.erase(id);''','''        std::size_t erased = unspecifiedWrites_.count(id);'''),
('wmprev',W,'''        return it->second.latest(maxId);''','''        return it->second.latest(currentId);'''),
('wmrem',W,'''        unspecifiedWrites_.clear();''',''''''),
('unspecw',WH,'''unspecifiedWrites_.lower_bound(maxId);''','''unspecifiedWrites_.upper_bound(maxId);'''),
('mwcomp','t86/cpu/memory_writes_manager/memory_writes.h','''return e.id() > i;''','''return e.id() >= i;'''),
('mwremf',MW,'''if (writeIt->isOutgoing() && !ram.pending(writeIt->writeId())) {''','''if (writeIt->isOutgoing()) {'''),
('ramtick',M,'''            if (read.remainingCnt == 0) {
                readIt =''','''            if (read.remainingCnt <= 1) {
                readIt ='''),
('ramread',M,'''        return reads_.size() == gatesCnt_;''','''        return reads_.size() > gatesCnt_;'''),
('ramwrite',M,'''            writesById_.erase(it->second.id);
        }''','''        }'''),
('ramset',M,'''    void RAM::set(std::size_t address, int64_t value) {
        mem_.at(address) = value;''','''    void RAM::set(std::size_t address, int64_t value) {
        mem_.at(address) = static_cast<int32_t>(value);'''),
]
