From e0b08e4173acb44296192ead7a4e93874bf21fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 01/47] fix: LEA Rx, [Ry + Rz] read a non-existent third
 operand

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From 1068caae29fb2361dadaf6602fee62a49c845789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 02/47] fix: PUTNUM printed only the low 32 bits of the
 register

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..5b179cd 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -715,7 +715,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << operands[0].getValue() << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-- 
2.43.0


From beaeb0595537eef677a07a4d2f7376e60e0e4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 03/47] fix: IMUL of the most negative number by -1 killed the
 VM

---
 src/t86/cpu/alu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..6dba8f4 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -80,7 +80,9 @@ namespace tiny::t86::Alu {
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
+        // x * -1 overflows only for the minimum; minimum / -1 would trap on the host
+        bool overflowFlag = y == -1 ? x == std::numeric_limits<int64_t>::min()
+                                    : x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
-- 
2.43.0


From 0f75d25fe27f527ecad758bddbd3230151891ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 04/47] fix: LSH/RSH by zero set the carry flag from an
 undefined shift

---
 src/t86/cpu/alu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 6dba8f4..e98001e 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -137,7 +137,7 @@ namespace tiny::t86::Alu {
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (0 < y && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = (x << (y - 1)) < 0;
         }
@@ -150,7 +150,7 @@ namespace tiny::t86::Alu {
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (0 < y && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = ((x >> (y - 1)) & 1) != 0;
         }
-- 
2.43.0


From c0d749f57da918de7a7a89d5865bad5c936113eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 05/47] fix: removing a watchpoint deactivates its debug
 register in the debuggee

---
 src/debugger/Native.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..d86d180 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -382,6 +382,7 @@ void Native::RemoveWatchpoint(uint64_t address) {
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From c64f61cca36e6b36f6370b9f7677fc32cceae6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 06/47] fix: SetAllWatchpoints no longer erases from the map it
 iterates over

---
 src/debugger/Native.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index d86d180..40084c4 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -273,8 +273,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
-- 
2.43.0


From 5725e40fd5b9e8199af378fef51033c95af38f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 07/47] fix: assigning a float stores its bits, not its integer
 part

---
 src/debugger/Source/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..6608504 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -322,7 +322,7 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(), utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From 096dcd395e19c3a7ad46a8752a72a86ad559e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 08/47] fix: a negative array index in an expression is an
 error

---
 src/debugger/Source/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 6608504..61f9f9c 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -241,6 +241,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
-- 
2.43.0


From 4059dad623fc012302e548ec8d1b767e74128480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 09/47] fix: expressions accept the <= and >= operators

---
 src/debugger/Source/ExpressionParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..b9c83af 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,7 +76,9 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
-            || curtok.kind == TokenKind::GREATER) {
+            || curtok.kind == TokenKind::GREATER
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ) {
         auto kind = curtok.kind;
         GetNext();
         auto next = shifts();
-- 
2.43.0


From 646fac5cc7eb9e5811c2775bd1acdbad032910b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 10/47] fix: SetAllBreakpoints forgets the breakpoints it
 replaces

---
 src/debugger/Native.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 40084c4..0810a82 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -261,6 +261,7 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     for (auto&& bp: software_breakpoints) {
         DisableSoftwareBreakpoint(bp.first);
     }
+    software_breakpoints.clear();
 
     for (auto&& breakpoint: bkpts) {
         auto& [address, bp] = breakpoint;
-- 
2.43.0


From eb9ecc4ad259ca37387b0a3d08f2819c8d1dd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 11/47] fix: a failed send is reported instead of counted as
 sent bytes

---
 src/common/TCP.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..1eecb0d 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -52,7 +52,11 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        auto res = send(socket, &data[sent], size - sent, 0);
+        if (res < 0) {
+            throw TCPError("Sending failed");
+        }
+        sent += res;
     }
 }
 
-- 
2.43.0


From 084cdaab1c189acb3820c8b65aa45e7c601ae1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 12/47] fix: a message length that arrives in pieces is read
 completely

---
 src/common/TCP.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index 1eecb0d..ca3f624 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -73,14 +73,18 @@ inline void Send(int socket, const std::string& s) {
 inline std::optional<std::string> Receive(int socket) {
     // The messages are in form 8b | data
     size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
+    size_t received = 0;
+    while (received < sizeof(size_t)) {
+        int err = read(socket, reinterpret_cast<uint8_t*>(&size) + received, sizeof(size_t) - received);
+        if (err < 0) {
+            throw TCPError("Reading failed");
+        } else if (err == 0) {
+            return std::nullopt;
+        }
+        received += err;
     }
 
-    size_t received = 0;
+    received = 0;
     std::vector<uint8_t> data(size);
     while (received < size) {
         int err = read(socket, data.data() + received, size - received);
-- 
2.43.0


From 1ff1569626a60781adf8c2d142a9091cebf6e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 13/47] fix: pending memory writes keep their place when
 another write to the same address is added

---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..d99c1ea 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -3,6 +3,8 @@
 #include <utility>
 #include <optional>
 #include <set>
+#include <list>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        // References to the elements are handed out by add, so a container
+        // which moves its elements (vector) can't be used.
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From 07077145d994da9bd836fb7395085cd9152ada6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 14/47] fix: [R1 - R2] was assembled as [R1 + R2]

---
 src/t86-parser/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..69e5c59 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -267,6 +267,9 @@ tiny::t86::Operand Parser::Memory() {
                         result = Mem(reg1 + imm1);
                     }
                 } else if (curtok.kind == TokenKind::ID) {
+                    if (minus) {
+                        throw CreateError("Expected i, registers can't be subtracted");
+                    }
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
-- 
2.43.0


From fc8b48f95324ced648364ed44ca416bb05a05694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 15/47] fix: a missing scale in [R1 + R2 * i] is a parse error,
 not a failed assertion

---
 src/t86-parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 69e5c59..9b98a76 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -279,6 +279,8 @@ tiny::t86::Operand Parser::Memory() {
                         if (IsNumber(curtok)) {
                             auto imm = Imm();
                             result = Mem(reg1 + reg2 * imm);
+                        } else {
+                            throw CreateError("Expected 'i'");
                         }
                     // Must be [R + R]
                     } else {
-- 
2.43.0


From 4b01db374291069c9a3c2f55e7ed4e17c1206b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 16/47] fix: a number literal that does not fit is a parser
 error

---
 src/common/parsing.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..2831941 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -1,4 +1,5 @@
 #include "parsing.h"
+#include <stdexcept>
 
 TokenKind Lexer::ParseNumber() {
     bool is_float = false;
@@ -17,7 +18,11 @@ TokenKind Lexer::ParseNumber() {
         float_number = std::stod(num);
         return TokenKind::FLOAT;
     } else {
-        number = std::stoi(num);
+        try {
+            number = std::stoi(num);
+        } catch (const std::out_of_range&) {
+            throw ParserError(fmt::format("{}:{}:Number '{}' is out of range", row, col, num));
+        }
         return TokenKind::NUM;
     }
 }
-- 
2.43.0


From d6b9da8b0c292273a7155f6a27a7ffab0638915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 17/47] fix: GETCHAR at the end of input stored an
 uninitialised value

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 5b179cd..0aa7dcd 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -719,7 +719,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-        char c;
+        char c = 0;
         is_ >> c;
         entry.setRegister(reg_, c);
     }
-- 
2.43.0


From 963a3b1e7456d415b21c009762994e3b79ed82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 18/47] fix: division by zero stops the program with an error
 instead of killing the VM

---
 src/t86/cpu/alu.cpp                 | 15 +++++++++++++++
 src/t86/cpu/reservation_station.cpp |  8 +++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index e98001e..729929d 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -63,9 +64,21 @@ namespace tiny::t86::Alu {
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
+    static void checkSignedDivision(int64_t x, int64_t y) {
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        if (y == -1 && x == std::numeric_limits<int64_t>::min()) {
+            throw T86ExecutionError("Division overflow");
+        }
+    }
+
     Result divide(int64_t x, int64_t y) {
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
+        if (uy == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t uresult = ux / uy;
         int64_t result = static_cast<int64_t>(uresult);
         bool signFlag = result < 0;
@@ -87,6 +100,7 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_divide(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
@@ -176,6 +190,7 @@ namespace tiny::t86::Alu {
     
     // TODO Remove after testing
     Result mod(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x % y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..73a0956 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -275,7 +275,13 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
+            // An error is raised at retire, the instruction may be here
+            // only because of a wrong branch prediction.
+            try {
+                instruction_->execute(*this);
+            } catch (...) {
+                memoryAccessException_ = std::current_exception();
+            }
             state_ = State::retiring;
             return true;
         }
-- 
2.43.0


From d91f01fdb82f7af2e765c53272b7a3acdeb50025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 19/47] fix: `memory set` reports a cell that is not a number

---
 src/dbg-cli/CLI.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..a1b1c43 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -850,6 +850,9 @@ Most often, the correct address will be one below it.)";
         auto subcommands = utils::split_v(command);
         if (check_command(subcommands, "set", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             std::vector<int64_t> values;
             std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                     std::back_inserter(values), [&](auto&& s) { 
-- 
2.43.0


From 3455afef208cb44b6f33ecfe6331b087aca58427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 20/47] fix: `assemble interactive` with a wrong address
 crashed the debugger

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index a1b1c43..813d88c 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -798,7 +798,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
-- 
2.43.0


From 5eca61384403d5782ac01844db863dd979613600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 21/47] fix: `attach` with a wrong port used an empty optional

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 813d88c..ce9a7ab 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1177,7 +1177,7 @@ private:
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
         auto debuggee = Native::Initialize(*port_o);
         process = Native(std::move(debuggee));
-- 
2.43.0


From a4768a52920b32ba5f7859661c72b924e841bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 22/47] fix: breakpoints on a function without line information
 crashed the debugger

---
 src/dbg-cli/CLI.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index ce9a7ab..3bfb0c4 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -470,6 +470,10 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
             auto line = source.AddrToLine(addr);
+            if (!line) {
+                fmt::print("Breakpoint set on address {}\n", addr);
+                return;
+            }
             auto source_line = source.GetLine(*line);
             fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
             if (source_line) {
@@ -481,7 +485,10 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
             auto line = source.AddrToLine(addr);
-            assert(line);
+            if (!line) {
+                fmt::print("Breakpoint removed from address {}\n", addr);
+                return;
+            }
             auto source_line = source.GetLine(*line);
             fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
             if (source_line) {
@@ -493,7 +500,10 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
             auto line = source.AddrToLine(addr);
-            assert(line);
+            if (!line) {
+                fmt::print("Breakpoint enabled on address {}\n", addr);
+                return;
+            }
             auto source_line = source.GetLine(*line);
             fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
             if (source_line) {
@@ -505,7 +515,10 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
             auto line = source.AddrToLine(addr);
-            assert(line);
+            if (!line) {
+                fmt::print("Breakpoint disabled on address {}\n", addr);
+                return;
+            }
             auto source_line = source.GetLine(*line);
             fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
             if (source_line) {
-- 
2.43.0


From 142a5b07c4eef9217a8c799c6078d295365656b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 23/47] fix: a single step that ended on a breakpoint or
 watchpoint left the trap flag set

---
 src/t86/debug.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..46ba012 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -103,10 +103,8 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // A single step may also end with another reason (ie. a watchpoint).
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From f3ece0ea2cbd67c344580815831bb660a7812d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 24/47] fix: a default constructed Cpu took its ALU count for
 float registers and station entries for RAM size

---
 src/t86/cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..6c27002 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -339,8 +339,8 @@ namespace tiny::t86 {
     }
 
     Cpu::Cpu() : Cpu(Cpu::Config::instance().registerCnt(),
-                     Cpu::Config::instance().aluCnt(),
-                     Cpu::Config::instance().reservationStationEntriesCnt()) {}
+                     Cpu::Config::instance().floatRegisterCnt(),
+                     Cpu::Config::instance().ramSize()) {}
 
     MemoryWrite::Id Cpu::registerPendingWrite(Memory::Immediate mem) {
         return writesManager_.registerPendingWrite(mem.index());
-- 
2.43.0


From 79e3ae36fac9004b14b983fc38ad36c00b5f1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 25/47] fix: a disabled breakpoint became live when the
 instruction under it was rewritten

---
 src/debugger/Native.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 0810a82..60aaab4 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -87,7 +87,9 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
         auto bp = software_breakpoints.find(curr_addr);
         if (bp != software_breakpoints.end()) {
             bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+            if (bp->second.enabled) {
+                text[i] = GetSoftwareBreakpointOpcode();
+            }
         }
     }
     process->WriteText(address, text);
-- 
2.43.0


From a4a0db60c2f029310549acc2c40626f5d8890a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 26/47] fix: text after the end of an expression was ignored

---
 src/debugger/Source/ExpressionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..86586f3 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto result = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Unexpected input after the end of the expression");
+        }
+        return result;
     }
 private:
     template<typename ...Args>
-- 
2.43.0


From 6745423bf90fb852c5472288c16e8aee84881316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 27/47] fix: DEREFERENCE kept its operand on the stack and
 dereferenced offsets twice

---
 src/debugger/Source/ExpressionInterpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..384ddfc 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -68,14 +68,14 @@ void ExpressionInterpreter::Interpret() {
             },
             [&](const expr::Dereference& ins) {
                 auto v1 = s.top();
+                s.pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
-- 
2.43.0


From 90fc954d25a86555539e818e6394121c57c51510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 28/47] fix: a variable written after a nested scope shadowed
 the variable of that scope

---
 src/debugger/Source/Source.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..f43fe67 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -326,8 +326,17 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // Variables of this scope first, so that the nested scopes override them
+    // no matter in which order they were written.
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
+    for (const auto& d: die) {
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From 200d209b085c4de2231ac57d922817f99ff3bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 29/47] fix: any token was accepted as the closing backtick of
 a location

---
 src/debugger/Source/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..368e37c 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -145,6 +145,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
         }
+        if (curtok.kind != TokenKind::BACKTICK) {
+            throw CreateError("Expected closing '`'");
+        }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
-- 
2.43.0


From d70320be352882bca5b61e22767d9e1091235478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 30/47] fix: unknown entries of a DIE were silently dropped

---
 src/debugger/Source/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index 368e37c..1dde87d 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -245,6 +245,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected name of an attribute or a DIE");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
@@ -253,6 +256,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected attribute or DIE, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
-- 
2.43.0


From 0a9c4171b06675a3ddf353a5b135848116d2be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 31/47] fix: a minus without a number was assembled with a
 stale number

---
 src/t86-parser/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 9b98a76..461cdb2 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -80,6 +80,9 @@ int64_t Parser::Imm() {
         if (curtok.kind == TokenKind::MINUS) {
             neg = -1;
             GetNext();
+            if (!IsNumber(curtok)) {
+                throw CreateError("Expected a number after '-'");
+            }
         }
         auto val = neg * lex.getNumber();
         GetNext();
-- 
2.43.0


From fd4f530e4a895ca6e00a9086939ff6d1be185ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 32/47] fix: stepping over a call swallowed events at the call
 and at the entry of the function

---
 src/debugger/Native.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 60aaab4..8071ce4 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -127,10 +127,6 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         if (!bp_exists) {
             SetBreakpoint(ip + 1); 
         }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
-        }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
         // because functions with some normal calling convention have to backup
-- 
2.43.0


From e88432afa500baf13e732c47185a01375dbb7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 33/47] fix: stepping over a call swallowed other events that
 stop right behind the call

---
 src/debugger/Native.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 8071ce4..7df1622 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -156,8 +156,9 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         if (!bp_exists) {
             UnsetBreakpoint(ip + 1);
         }
-        // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
+        // We probably hit some other breakpoint in the call or
+        // something else happened (ie. a watchpoint was triggered).
+        if (GetIP() != ip + 1 || !std::holds_alternative<BreakpointHit>(e)) {
             return e;
         } else {
             return Singlestep{};
-- 
2.43.0


From 5673e9cb5e4c51cba08a1b47e5d0b6e05b6c2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 34/47] fix: stepping over a call ran past a disabled
 breakpoint behind the call

---
 src/debugger/Native.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 7df1622..b288ded 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -124,8 +124,11 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
         bool bp_exists = software_breakpoints.contains(ip + 1);
+        bool bp_disabled = bp_exists && !software_breakpoints.at(ip + 1).enabled;
         if (!bp_exists) {
             SetBreakpoint(ip + 1); 
+        } else if (bp_disabled) {
+            EnableSoftwareBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
@@ -155,6 +158,8 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
 
         if (!bp_exists) {
             UnsetBreakpoint(ip + 1);
+        } else if (bp_disabled) {
+            DisableSoftwareBreakpoint(ip + 1);
         }
         // We probably hit some other breakpoint in the call or
         // something else happened (ie. a watchpoint was triggered).
-- 
2.43.0


From 0bbc380f910367fdff99f8ae5b5caaa7780a8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 35/47] fix: stepping out ignored a breakpoint set on a call

---
 src/debugger/Native.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index b288ded..e6e22fe 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -118,6 +118,12 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             "Singlestep is not supported for current architecture");
     }
     auto ip = GetIP();
+    // A breakpoint that should not be skipped is hit instead of stepping.
+    auto current_bp = software_breakpoints.find(ip);
+    if (!skip_bp && current_bp != software_breakpoints.end()
+            && current_bp->second.enabled) {
+        return DoRawSingleStep();
+    }
     auto text = ReadText(ip, 1)[0];
     auto calls = Arch::GetCallInstructions();
     auto is_call = std::find_if(calls.begin(), calls.end(),
-- 
2.43.0


From b8a0b336d4439426ce04126ca81f850e101e45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 36/47] fix: a second decimal point cut a float literal short

---
 src/common/parsing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 2831941..1c01d70 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -7,6 +7,9 @@ TokenKind Lexer::ParseNumber() {
     while (true) {
         lookahead = GetChar();
         if (lookahead == '.') {
+            if (is_float) {
+                throw ParserError(fmt::format("{}:{}:Malformed number '{}.'", row, col, num));
+            }
             is_float = true;
 
         } else if (!isdigit(lookahead)) {
-- 
2.43.0


From ac0778448fb544035420129e0383b93e1c0d7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 37/47] fix: ranges that wrap around the address space passed
 the bounds checks

---
 src/debugger/Native.cpp     | 4 ++--
 src/debugger/T86Process.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e6e22fe..07e3140 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -53,7 +53,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (address > text_size || amount > text_size - address) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,7 +73,7 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (address > text_size || text.size() > text_size - address) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..604a60f 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -35,7 +35,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (address > data_size || data.size() > data_size - address) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -46,7 +46,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (address > data_size || amount > data_size - address) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
-- 
2.43.0


From b3b7c2c25b727ad13e41b76c7247bd02629686ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 38/47] fix: an invalid first token of an expression was not
 reported as an error of the debugger

---
 src/debugger/Source/Source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f43fe67..3b50d97 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -351,9 +351,10 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        // The constructor already reads the first token.
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From 0f4457e41387da033bfad965ab583f9f61960475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 39/47] fix: a syntax error in the debugged program ended the
 debugger

---
 src/dbg-cli/CLI.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 3bfb0c4..e5fa220 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1150,6 +1150,8 @@ Most often, the correct address will be one below it.)";
                 HandleCommand(line);
             } catch (const DebuggerError& err) {
                 fmt::print("Error: {}\n", err.what());
+            } catch (const ParserError& err) {
+                fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
             free(line_raw);
-- 
2.43.0


From a4a63261c2238f1ffbf5215351ec4713b948aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 40/47] fix: `attach` without a port or to a port nobody
 listens on crashed the debugger

---
 src/dbg-cli/CLI.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index e5fa220..41dc703 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1187,14 +1187,18 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
-            return;
+            Error("A port is needed, use `attach <port>`");
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
             Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
+        std::unique_ptr<Process> debuggee;
+        try {
+            debuggee = Native::Initialize(*port_o);
+        } catch (const TCP::TCPError& err) {
+            Error("Unable to attach: {}", err.what());
+        }
         process = Native(std::move(debuggee));
         if (fname) {
             std::ifstream file(*fname);
-- 
2.43.0


From 9ac0084b1e638910d0a28304ea8c3efb6c618b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 41/47] fix: a failed `run` or `attach` left a terminated
 process behind

---
 src/dbg-cli/CLI.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 41dc703..ffacb39 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1008,11 +1008,9 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
             is_running = true;
             process.WaitForDebugEvent();
@@ -1091,6 +1089,9 @@ Most often, the correct address will be one below it.)";
             memory_size = *v;
         }
 
+        // Only now, if something fails above the current process is kept.
+        ExitProcess();
+
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
@@ -1199,6 +1200,7 @@ private:
         } catch (const TCP::TCPError& err) {
             Error("Unable to attach: {}", err.what());
         }
+        ExitProcess();
         process = Native(std::move(debuggee));
         if (fname) {
             std::ifstream file(*fname);
-- 
2.43.0


From a9607bf9eafe3777fe219dd602880770555a9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 42/47] fix: `breakpoint list` printed the number of the
 previous line

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index ffacb39..64ed545 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -543,7 +543,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
-- 
2.43.0


From 72378007d5dc72c1c8441639c2f29d0f98d3bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 43/47] fix: `disassemble range` left out the last instruction
 of the range

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 64ed545..1684076 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -723,7 +723,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("Range '{}' to '{}' is empty", begin, end);
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From 36f1e8f105706dfdae615c2d0599683f422c97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 44/47] fix: an option of the VM that is not a number crashed
 instead of being refused

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..c00c998 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -45,7 +45,7 @@ int main(int argc, char* argv[]) {
 
     try {
         args.parse_args(argc, argv);
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         std::cerr << err.what() << "\n";
         std::cerr << args;
         std::exit(1);
-- 
2.43.0


From a2c54f5facece85944ccde68ee7d385ec53c6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 45/47] fix: the help of `breakpoint` named a subcommand that
 does not exist

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 1684076..478357f 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -87,7 +87,7 @@ breakpoint on instruction at address 1.
 The <loc> can either be a function name or a source line.
 
 - set <loc> = Creates breakpoint at <loc> and enables it.
-- unset <loc> = Removes breakpoint at <loc>.
+- remove <loc> = Removes breakpoint at <loc>.
 - enable <loc> = Enables breakpoint at <loc>.
 - disable <loc> = Disables breakpoint at <loc>.
 - list = Lists existing breakpoints.
-- 
2.43.0


From abaadda6e1cde1f0e0d5922845e60aa7ddab9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 46/47] fix: assembling a malformed instruction over a
 breakpoint lost the original instruction

---
 src/debugger/Native.cpp     | 13 +++++++------
 src/debugger/T86Process.cpp |  7 +++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 07e3140..db6f3bd 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -78,21 +78,22 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
     }
-    // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
+    // The process checks the text, nothing is changed if it is wrong.
+    process->WriteText(address, text);
+    // Some of the code we have rewritten might
+    // be occupied by a breakpoint. Update its
+    // saved data and persist the breakpoint in
+    // the debuggee.
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
         if (bp != software_breakpoints.end()) {
             bp->second.data = text[i];
             if (bp->second.enabled) {
-                text[i] = GetSoftwareBreakpointOpcode();
+                process->WriteText(curr_addr, {std::string(GetSoftwareBreakpointOpcode())});
             }
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 604a60f..49c3467 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -7,8 +7,9 @@
 /// respected.
 void T86Process::WriteText(uint64_t address,
                            const std::vector<std::string> &data) {
-    for (size_t i = 0; i < data.size(); ++i) {
-        std::istringstream iss(data[i]);
+    // Check everything first so that an error doesn't leave half of it written.
+    for (const auto& instruction: data) {
+        std::istringstream iss(instruction);
         Parser p(iss);
         try {
             p.Instruction();
@@ -16,6 +17,8 @@ void T86Process::WriteText(uint64_t address,
         } catch (const ParserError& err) {
             throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
         }
+    }
+    for (size_t i = 0; i < data.size(); ++i) {
         process->Send(fmt::format("POKETEXT {} {}", address + i, data[i]));
         CheckResponse("POKETEXT error");
     }
-- 
2.43.0


From f347c3511a1a438b5fd0e2a157ede409f30dc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 47/47] fix: an invalid first token of an assembled instruction
 was not reported as an error of the debugger

---
 src/debugger/T86Process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 49c3467..258f7b0 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -10,8 +10,9 @@ void T86Process::WriteText(uint64_t address,
     // Check everything first so that an error doesn't leave half of it written.
     for (const auto& instruction: data) {
         std::istringstream iss(instruction);
-        Parser p(iss);
         try {
+            // The constructor already reads the first token.
+            Parser p(iss);
             p.Instruction();
             p.CheckEnd();
         } catch (const ParserError& err) {
-- 
2.43.0

