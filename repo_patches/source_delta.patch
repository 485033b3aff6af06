From 3008b08b0d2bd6ddf467a6651ea93f8712f20504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 01/51] fix: count instructions of blocks with 256 or more
 instructions

DecoderData::instruction_count() returned uint8_t, so that a straight-line
block of 256 instructions counted as none and never used up any budget.
---
 lib/libloong/decoder_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..f370e07 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
-- 
2.43.0


From 77c6c84832a9f18b1c3d7e5062441492ca6f5f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 02/51] fix: end blocks at STOP and at system calls and
 breakpoints with a code

These leave the dispatch loop or read the current PC, but were decoded as the
middle of a block: the PC was the one of the end of the block and the
instructions behind them were counted.
---
 lib/libloong/decoder_cache.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..09465eb 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,11 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls and breakpoints, with any code
+		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
+		if ((instr & 0xFFFFFC00) == Opcode::BREAK) return true;
+		// STOP (MOVE zero, zero) leaves the dispatch loop
+		if (instr == Opcode::OR) return true;
 
 		return false;
 	}
-- 
2.43.0


From ca39efbadcf564314e181b0e931a6defc53632e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 03/51] fix: continue behind a breakpoint that returns

BREAK was dispatched like an instruction in the middle of a block, although
it ends its block: the PC was not advanced and the next block not counted, so
that later branches went to the wrong place.
---
 lib/libloong/decoder_cache.cpp                | 4 ++--
 lib/libloong/tailcall_dispatch.cpp            | 2 +-
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 2 +-
 lib/libloong/threaded_dispatch.cpp            | 2 +-
 lib/libloong/threaded_inaccurate_dispatch.cpp | 2 +-
 lib/libloong/threaded_rewriter.cpp            | 5 ++++-
 6 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 09465eb..8e28eb6 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -50,8 +50,8 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		// System calls
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
-		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+		case InstrId::BREAK: // System call 0
+			return LA64_BC_SYSCALL;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..37f2527 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -136,7 +136,7 @@ namespace loongarch
 		// Make the instruction counter visible
 		counter.apply(MACHINE());
 		// Invoke system call
-		cpu.machine().system_call(cpu.reg(REG_A7));
+		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
 		// Restore counters
 		counter.retrieve_counters(MACHINE());
 		// System calls can change PC
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..51058a3 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -120,7 +120,7 @@ namespace loongarch
 		// Make the current PC visible
 		cpu.registers().pc = pc;
 		// Invoke system call
-		cpu.machine().system_call(cpu.reg(REG_A7));
+		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
 		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
 			return RETURN_VALUES();
 		// System calls can change PC
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..27755fc 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -78,7 +78,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
 	MACHINE().set_max_instructions(max_counter);
-	MACHINE().system_call(REG(REG_A7));
+	MACHINE().system_call(DECODER().instr == Opcode::BREAK ? 0 : REG(REG_A7));
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..72fb8bc 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -75,7 +75,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
 	MACHINE().set_max_instructions(max_counter);
-	MACHINE().system_call(REG(REG_A7));
+	MACHINE().system_call(DECODER().instr == Opcode::BREAK ? 0 : REG(REG_A7));
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..84bf70c 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -23,7 +23,10 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		// Bytecodes with optimized field access
 		case LA64_BC_SYSCALL: {
 			const auto syscall_num = original.whole & 0x3FF;
-			if (syscall_num != 0) {
+			if ((original.whole & 0xFFFFFC00) == Opcode::BREAK) {
+				// BREAK is system call 0, and the code is ignored
+				return Opcode::BREAK;
+			} else if (syscall_num != 0) {
 				bytecode = LA64_BC_SYSCALLIMM;
 				return syscall_num;
 			}
-- 
2.43.0


From 84cfb9f2661c41b0d6109a270fe93e3f4a13c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 04/51] fix: unaligned guest vector accesses must not crash the
 host

Memory::read and write accessed guest memory through pointers to over-aligned
vector types, so that an unaligned vector load or store in the guest was an
unaligned aligned-move in the host: SIGSEGV.
---
 lib/libloong/memory_inline.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..f9e3b77 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// Guest addresses can have any alignment
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,7 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From 3447f9c9b39555eb42177138fa5ec93bbc445e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 05/51] fix: give the same results in every engine for rd=0,
 LSX upper halves, SLTUI, PCADDU18I, ORI, bit-field edges and SYSCALL with a
 code

---
 lib/libloong/bytecode_impl.cpp     | 30 +++++++++++++++++------
 lib/libloong/cpu.cpp               |  1 +
 lib/libloong/decoder_cache.cpp     | 39 ++++++++++++++++++++++--------
 lib/libloong/la_instr_impl.hpp     | 17 ++++++++-----
 lib/libloong/threaded_rewriter.cpp | 26 +++++---------------
 lib/libloong/tr_emit.cpp           |  8 +++---
 6 files changed, 73 insertions(+), 48 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..375bf17 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> ((64 - width) & 63);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -308,8 +308,8 @@ INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> ((32 - width) & 31);
+	REG(fi.rd) = (saddress_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> ((64 - width) & 63)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
@@ -557,8 +557,11 @@ INSTRUCTION(LA64_BC_VLD, la64_vld)
 {
 	auto fi = *(FasterLA64_RI12 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + fi.imm;
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions clear the upper 128 bits
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -577,8 +580,11 @@ INSTRUCTION(LA64_BC_VLDX, la64_vldx)
 {
 	auto fi = *(FasterLA64_R3 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + REG(fi.rk);
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions clear the upper 128 bits
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -602,6 +608,9 @@ INSTRUCTION(LA64_BC_VFADD_D, la64_vfadd_d)
 	// VFADD.D operates on 2 double-precision elements
 	vrd.df[0] = vrj.df[0] + vrk.df[0];
 	vrd.df[1] = vrj.df[1] + vrk.df[1];
+	// LSX instructions clear the upper 128 bits
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -617,6 +626,9 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 
 	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
 	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	// LSX instructions clear the upper 128 bits
+	dst.du[2] = 0;
+	dst.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -1029,6 +1041,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0; // the handlers do not check for rd == 0
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1049,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0; // the handlers do not check for rd == 0
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..fcd65d1 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -149,6 +149,7 @@ namespace loongarch
 	{
 		auto instr = read_current_instruction();
 		execute(instr);
+		m_regs.get(REG_ZERO) = 0; // the handlers do not check for rd == 0
 		increment_pc(4);
 		if (use_instruction_counter) {
 			machine().increment_counter(1);
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 8e28eb6..4b44ee9 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -40,10 +40,37 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		return false;
 	}
 
-	// Determine the bytecode for a given instruction
+	// Loads have an effect even when the result is discarded: they can fault
+	static bool is_integer_load(InstrId id)
+	{
+		switch (id) {
+		case InstrId::LD_D:
+		case InstrId::LD_BU:
+		case InstrId::LD_B:
+		case InstrId::LD_HU:
+		case InstrId::LD_H:
+		case InstrId::LD_WU:
+		case InstrId::LDPTR_D:
+		case InstrId::LDPTR_W:
+		case InstrId::LDX_D:
+		case InstrId::LDX_H:
+		case InstrId::LDX_W:
+		case InstrId::LDX_BU:
+		case InstrId::LDX_HU:
+		case InstrId::LDX_B:
+			return true;
+		default:
+			return false;
+		}
+	}
+
 	// Determine the bytecode for a given instruction using its ID
 	static uint8_t determine_bytecode(InstrId id, const uint32_t instr, const uint16_t handler_idx)
 	{
+		// Loads into the zero register use the regular handler
+		if ((instr & 0x1F) == 0 && is_integer_load(id)) {
+			return LA64_BC_FUNCTION + (handler_idx >> 8);
+		}
 		// Use switch on instruction ID enum instead of re-decoding
 		// This maps InstrId to bytecode, avoiding duplicate decoding logic
 		switch (id) {
@@ -65,15 +92,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				}
 				return LA64_BC_OR;
 			}
-		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+		case InstrId::ORI: return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..654c09e 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> ((64 - width) & 63)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> ((64 - width) & 63);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> ((32 - width) & 31)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> ((32 - width) & 31);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
@@ -647,7 +647,12 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
+		if (const unsigned code = instr.whole & 0x3FF; code != 0) {
+			// System call with the number in the instruction: return to RA
+			cpu.machine().system_call(code);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4;
+			return;
+		}
 		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
 		cpu.machine().system_call(syscall_nr);
 	}
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 84bf70c..36b48ea 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -70,7 +70,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MOVE: {
@@ -200,7 +199,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ST_B: {
@@ -230,13 +228,13 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
 			// No optimization needed - use original instruction bits
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
 			auto fi = *(FasterLA64_RI14 *)&instruction_bits;
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDPTR_W: {
@@ -244,7 +242,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STPTR_D: {
@@ -266,7 +263,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_D: {
@@ -274,7 +270,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MASKEQZ: {
@@ -346,7 +341,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_H: {
@@ -361,7 +355,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_W: {
@@ -384,7 +377,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ADD_W: {
@@ -416,7 +408,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_BSTRINS_D: {
@@ -641,12 +632,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI compares unsigned with the sign-extended immediate
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
@@ -656,7 +647,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_HU: {
@@ -665,7 +655,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LD_WU: {
@@ -674,14 +663,13 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_PCADDU12I:
-			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
-			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
@@ -698,7 +686,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
@@ -715,7 +702,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_SLT: {
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..6eb1e52 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1378,7 +1378,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
 					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (~0U >> ((32 - width) & 31)) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1393,7 +1393,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
 					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = (~0ULL >> ((64 - width) & 63)) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1407,7 +1407,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = ~0U >> ((32 - width) & 31);  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1423,7 +1423,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = ~0ULL >> ((64 - width) & 63);  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From aaede582dc22c6ada2c9fd23470e726c1639691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 06/51] fix: report a reached instruction limit, and deliver
 posted exceptions at STOP and after single-stepping

---
 lib/libloong/cpu.cpp                          |  1 +
 lib/libloong/machine.cpp                      |  9 +++++++++
 lib/libloong/machine.hpp                      | 10 +++++++---
 lib/libloong/threaded_dispatch.cpp            | 12 +++++++-----
 lib/libloong/threaded_inaccurate_dispatch.cpp |  7 ++-----
 5 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index fcd65d1..ea9ce97 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -161,6 +161,7 @@ namespace loongarch
 		while (machine().instruction_counter() < machine().max_instructions()) {
 			step_one(true);
 		}
+		machine().deliver_current_exception();
 	}
 
 	std::string Registers::to_string() const
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..674e942 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -233,6 +233,15 @@ namespace loongarch
 		return cpu.current_execute_segment().is_binary_translated();
 	}
 
+	void Machine::deliver_current_exception()
+	{
+		if (this->has_current_exception()) {
+			const auto ex = this->current_exception();
+			this->clear_current_exception();
+			std::rethrow_exception(ex);
+		}
+	}
+
 	intptr_t Machine::counter_offset() noexcept
 	{
 		return offsetof(Machine, m_counter);
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..9244062 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -54,9 +54,9 @@ namespace loongarch
 		// Execution
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
-		void stop() noexcept { m_max_instructions = 0; }
+		void stop() noexcept { set_max_instructions(0); }
 		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
-		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
+		bool instruction_limit_reached() const noexcept { return m_limit_reached || (m_counter >= m_max_instructions && m_max_instructions != 0); }
 
 		// Instruction counting
 		uint64_t instruction_counter() const noexcept { return m_counter; }
@@ -64,7 +64,9 @@ namespace loongarch
 		void increment_counter(uint64_t val) noexcept { m_counter += val; }
 
 		uint64_t max_instructions() const noexcept { return m_max_instructions; }
-		void set_max_instructions(uint64_t val) noexcept { m_max_instructions = val; }
+		void set_max_instructions(uint64_t val) noexcept { m_max_instructions = val; m_limit_reached = false; }
+		// The run ended because of its instruction limit, which no longer applies
+		void set_instruction_limit_reached() noexcept { m_max_instructions = UINT64_MAX; m_limit_reached = true; }
 
 		// System call interface
 		static void install_syscall_handler(unsigned sysnum, syscall_t* handler);
@@ -175,10 +177,12 @@ namespace loongarch
 		void clear_current_exception() noexcept { m_current_exception = nullptr; }
 		bool has_current_exception() const noexcept { return m_current_exception != nullptr; }
 		auto& current_exception() const noexcept { return m_current_exception; }
+		void deliver_current_exception(); // Throws the current exception, if there is one
 
 	private:
 		uint64_t      m_counter = 0;
 		uint64_t      m_max_instructions = 0;
+		bool          m_limit_reached = false;
 		mutable void* m_userdata = nullptr;
 		std::shared_ptr<MachineOptions> m_options = nullptr;
 		std::unique_ptr<Arena> m_arena;
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 27755fc..70b293c 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -37,6 +37,7 @@ namespace loongarch
 	{
 		constexpr bool TRACE_DISPATCH = false;  // Disable for normal execution
 		machine().set_max_instructions(UINT64_MAX);
+		machine().set_instruction_counter(inscounter);
 
 		// Include computed goto table
 		#include "threaded_bytecode_array.hpp"
@@ -134,6 +135,9 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
 	machine().set_instruction_counter(counter);
+	// The guest stopped by itself: the limit was not reached
+	machine().set_max_instructions(UINT64_MAX);
+	machine().deliver_current_exception();
 	return true;
 }
 
@@ -168,11 +172,9 @@ new_execute_segment:
 stop_execution:
 		m_regs.pc = pc;
 		machine().set_instruction_counter(counter);
-		if (machine().has_current_exception()) {
-			const auto ex = machine().current_exception();
-			machine().clear_current_exception();
-			std::rethrow_exception(ex);
-		}
+		if (max_counter != 0)
+			machine().set_instruction_limit_reached();
+		machine().deliver_current_exception();
 		return max_counter == 0;
 
 check_jump:
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 72fb8bc..7ea8b56 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -119,6 +119,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
+	machine().deliver_current_exception();
 	return;
 }
 
@@ -167,11 +168,7 @@ stop_execution:
 			printf("  [stop_execution] Stopping at PC=0x%lx\n", (unsigned long)pc);
 		}
 		m_regs.pc = pc;
-		if (machine().has_current_exception()) {
-			const auto ex = machine().current_exception();
-			machine().clear_current_exception();
-			std::rethrow_exception(ex);
-		}
+		machine().deliver_current_exception();
 		return;
 
 check_jump:
-- 
2.43.0


From e93f006ea07abb32a0a6334048da52180e252b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 07/51] fix: execute straight-line code longer than 64 KB

---
 lib/libloong/bytecode_impl.cpp           | 10 ++++++++++
 lib/libloong/decoder_cache.cpp           | 10 ++++++++++
 lib/libloong/tailcall_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecodes.hpp      |  2 ++
 5 files changed, 24 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 375bf17..cfff97f 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1053,6 +1053,16 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	NEXT_INSTR();
 }
 
+// LA64_BC_FUNCBLOCK: Regular instruction at the end of a block of maximum length
+INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_ending_block)
+{
+	const auto handler = DECODER().get_handler();
+	REGISTERS().pc = pc;
+	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0;
+	NEXT_BLOCK(4);
+}
+
 // LA64_BC_TRANSLATOR is implemented in each dispatch file separately
 
 INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 4b44ee9..7b6f1bd 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -204,6 +204,10 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		}
 	}
 
+	// Long straight-line code is split into several blocks, with some room left
+	// before block_bytes overflows for instructions that cannot end a block
+	static constexpr uint32_t MAX_BLOCK_BYTES = 32768;
+
 	// Populate decoder cache for an execute segment
 	void populate_decoder_cache(Machine& machine, const MachineOptions& options, std::shared_ptr<DecodedExecuteSegment>& segment,
 		address_t exec_begin, const uint8_t* code, size_t code_size, bool is_initial)
@@ -266,6 +270,12 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
+			} else if (accumulated_bytes >= MAX_BLOCK_BYTES && handler_idx < 256) {
+				// The length of a block is limited: this instruction ends it
+				cache[i].bytecode = LA64_BC_FUNCBLOCK;
+				cache[i].instr = instr;
+				cache[i].block_bytes = 0;
+				accumulated_bytes = 0;
 			} else {
 				// Non-diverging: accumulate bytes to next diverge
 				accumulated_bytes += 4;
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..5160ac0 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -113,6 +113,7 @@
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
+[LA64_BC_FUNCBLOCK] = execute_function_ending_block,
 [LA64_BC_SYSCALL]   = la64_syscall,
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
 [LA64_BC_NOP]       = la64_nop,
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..6f6cd66 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -114,6 +114,7 @@ static constexpr void *computed_opcode[] = {
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
+	[LA64_BC_FUNCBLOCK] = &&execute_function_ending_block,
 	[LA64_BC_SYSCALL]   = &&la64_syscall,
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
 	[LA64_BC_NOP]       = &&la64_nop,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..adef373 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -123,6 +123,7 @@ namespace loongarch
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
+		LA64_BC_FUNCBLOCK,         // Generic handler that also ends a (very long) block
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
@@ -252,6 +253,7 @@ namespace loongarch
 #ifdef LA_BINARY_TRANSLATION
 		case LA64_BC_TRANSLATOR: return "TRANSLATOR";
 #endif
+		case LA64_BC_FUNCBLOCK: return "FUNCBLOCK";
 		case LA64_BC_LIVEPATCH: return "LIVEPATCH";
 		default: return "UNKNOWN";
 		}
-- 
2.43.0


From 6a884fc45e8007a59b172c1d014ecdc56821a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 08/51] fix: conditional branches further than 32 KB

---
 lib/libloong/bytecode_impl.cpp      | 20 ++++++++++----------
 lib/libloong/threaded_bytecodes.hpp | 21 +++++++--------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index cfff97f..1d5c53b 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -460,7 +460,7 @@ INSTRUCTION(LA64_BC_BEQZ, la64_beqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -470,7 +470,7 @@ INSTRUCTION(LA64_BC_BNEZ, la64_bnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -730,7 +730,7 @@ INSTRUCTION(LA64_BC_BCEQZ, la64_bceqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -740,7 +740,7 @@ INSTRUCTION(LA64_BC_BCNEZ, la64_bcnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index adef373..fc9a48d 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -412,15 +412,11 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj : 5;    // register to test (or condition flag for BC*)
+			int32_t offset : 27; // pre-computed offset (sign-extended, already << 2)
 		};
-		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
-		}
+		void set_offset(int32_t offs) { this->offset = offs; }
+		int32_t get_offset() const { return this->offset; }
 	};
 
 	// Optimized format for comparison branches with 16-bit offset (BEQ, BNE, BLT, BGE, BLTU, BGEU)
@@ -429,13 +425,10 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t offset;  // bits [25:10] - offset in instructions (sign-extended)
 		};
-		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
-		}
+		void set_offset(int32_t offs) { this->offset = (int16_t)(offs >> 2); }
+		int32_t get_offset() const { return int32_t(this->offset) << 2; }
 	};
 
 } // namespace loongarch
-- 
2.43.0


From 2994708c30e1017acde8a4a3362fa8d7503e8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 09/51] fix: signed division overflow in the guest must not
 kill the host

---
 lib/libloong/la_instr_impl.hpp | 12 ++++++++----
 lib/libloong/tr_emit.cpp       |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 654c09e..5d56307 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,15 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		// INT32_MIN / -1 overflows, and traps on some hosts
+		if (b == -1) cpu.reg(instr.r3.rd) = static_cast<int64_t>(static_cast<int32_t>(0u - static_cast<uint32_t>(a)));
+		else cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? static_cast<int64_t>(a % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +88,15 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		// INT64_MIN / -1 overflows, and traps on some hosts
+		if (b == -1) cpu.reg(instr.r3.rd) = 0ull - static_cast<uint64_t>(a);
+		else cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 6eb1e52..73bb564 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1030,7 +1030,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == -1) ? (int64_t)(int32_t)(0u - (uint32_t)a) : (b != 0) ? (int64_t)(a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_W:
@@ -1058,7 +1058,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == -1) ? (int64_t)(0ull - (uint64_t)a) : (b != 0) ? (a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_D:
-- 
2.43.0


From ec69abde718da6c6a7ba7dbf360da5d8271f7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 10/51] fix: branches that leave the segment fault only when
 taken, and misaligned jumps fault

---
 lib/libloong/bytecode_impl.cpp                |  7 +++----
 lib/libloong/cpu.cpp                          |  3 +++
 lib/libloong/decoder_cache.cpp                |  5 ++---
 lib/libloong/threaded_bytecodes.hpp           |  2 +-
 lib/libloong/threaded_dispatch.cpp            |  4 ++++
 lib/libloong/threaded_inaccurate_dispatch.cpp |  4 ++++
 lib/libloong/threaded_rewriter.cpp            | 14 +++++++++-----
 7 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 1d5c53b..f6dc40c 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1053,14 +1053,13 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	NEXT_INSTR();
 }
 
-// LA64_BC_FUNCBLOCK: Regular instruction at the end of a block of maximum length
+// LA64_BC_FUNCBLOCK: Any instruction at the end of a block
 INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_ending_block)
 {
-	const auto handler = DECODER().get_handler();
 	REGISTERS().pc = pc;
-	handler(CPU(), la_instruction{DECODER().instr});
+	CPU().execute(la_instruction{DECODER().instr});
 	REG(REG_ZERO) = 0;
-	NEXT_BLOCK(4);
+	NEXT_BLOCK(REGISTERS().pc + 4 - pc);
 }
 
 // LA64_BC_TRANSLATOR is implemented in each dispatch file separately
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index ea9ce97..0b98471 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -147,6 +147,9 @@ namespace loongarch
 
 	void CPU::step_one(bool use_instruction_counter)
 	{
+		if (LA_UNLIKELY(pc() & 0x3)) {
+			trigger_exception(MISALIGNED_INSTRUCTION, pc());
+		}
 		auto instr = read_current_instruction();
 		execute(instr);
 		m_regs.get(REG_ZERO) = 0; // the handlers do not check for rd == 0
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 7b6f1bd..c1cb2aa 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -204,8 +204,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		}
 	}
 
-	// Long straight-line code is split into several blocks, with some room left
-	// before block_bytes overflows for instructions that cannot end a block
+	// Long straight-line code is split into several blocks, as block_bytes is 16-bit
 	static constexpr uint32_t MAX_BLOCK_BYTES = 32768;
 
 	// Populate decoder cache for an execute segment
@@ -270,7 +269,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
-			} else if (accumulated_bytes >= MAX_BLOCK_BYTES && handler_idx < 256) {
+			} else if (accumulated_bytes >= MAX_BLOCK_BYTES) {
 				// The length of a block is limited: this instruction ends it
 				cache[i].bytecode = LA64_BC_FUNCBLOCK;
 				cache[i].instr = instr;
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index fc9a48d..201b2fc 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -123,7 +123,7 @@ namespace loongarch
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
-		LA64_BC_FUNCBLOCK,         // Generic handler that also ends a (very long) block
+		LA64_BC_FUNCBLOCK,         // Generic handler that ends a block (any instruction)
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 70b293c..c325b47 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -58,6 +58,10 @@ namespace loongarch
 			goto new_execute_segment;
 
 continue_segment:
+		if (LA_UNLIKELY(pc & 0x3)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
 		decoder = &exec_decoder[pc >> DecoderCache::SHIFT];
 
 		pc += decoder->block_bytes;
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 7ea8b56..b7113ce 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -56,6 +56,10 @@ namespace loongarch
 			goto new_execute_segment;
 
 continue_segment:
+		if (LA_UNLIKELY(pc & 0x3)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
 		decoder = &exec_decoder[pc >> DecoderCache::SHIFT];
 
 		if constexpr (TRACE_DISPATCH) {
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 36b48ea..3878051 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -36,12 +36,13 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_B:
 		case LA64_BC_BL: {
 			const auto offset = InstructionHelpers::sign_extend_26(original.i26.offs()) << 2;
-			// This is a local branch, so it better be within the segment
+			// Most branches are local, within the segment
 			if (this->is_within(pc + offset)) {
 				// The offset is the optimized instruction
 				return (int32_t)offset;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside the segment: faults when (and if) it is taken
+				bytecode = LA64_BC_FUNCBLOCK;
 				return original.whole;
 			}
 		} break;
@@ -61,7 +62,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside the segment: faults when (and if) it is taken
+				bytecode = LA64_BC_FUNCBLOCK;
 				return original.whole;
 			}
 		} break;
@@ -767,7 +769,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside the segment: faults when (and if) it is taken
+				bytecode = LA64_BC_FUNCBLOCK;
 				return original.whole;
 			}
 		} break;
@@ -782,7 +785,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside the segment: faults when (and if) it is taken
+				bytecode = LA64_BC_FUNCBLOCK;
 				return original.whole;
 			}
 		} break;
-- 
2.43.0


From dddd753e45f579975b84fd0411715d6e267aeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 11/51] fix: BCEQZ and BCNEZ have a 21-bit offset

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 5d56307..7c68fec 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3038,11 +3038,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3052,10 +3048,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From f82be73ac257e941b7d1715b97f98152c5db4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 12/51] fix: an unlimited run does not report an earlier run's
 instruction limit

---
 lib/libloong/threaded_inaccurate_dispatch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index b7113ce..63f129a 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -44,7 +44,9 @@ namespace loongarch
 
 		// Inaccurate mode doesn't track counter/max_counter but needs them for compatibility
 		uint64_t max_counter = UINT64_MAX;
-		//machine().set_max_instructions(max_counter);
+		// Without a limit: forget that an earlier run has reached its limit
+		if (machine().instruction_limit_reached())
+			machine().set_max_instructions(max_counter);
 
 		if constexpr (TRACE_DISPATCH) {
 			printf("[inaccurate_dispatch] Starting at PC=0x%lx, segment [0x%lx, 0x%lx)\n",
-- 
2.43.0


From 184a264c7ad160548f6d5522298c8560a4a6cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 13/51] fix: guest range checks take the length into account

Memory::is_readable/is_writable ignored the length, so memarray,
writable_memarray, memset and copy_to_guest accepted ranges that end far
outside the arena, and the src + len sums in the others could wrap.
---
 lib/libloong/memory.hpp        | 12 ++++++++++--
 lib/libloong/memory_inline.hpp |  6 +++---
 lib/libloong/memory_rw.cpp     |  8 ++++----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..c2afe9c 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -145,12 +145,20 @@ namespace loongarch
 		void use_custom_arena(void* ptr, size_t size);
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
-		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		// The start address only: single accesses may end in the over-allocated area
+		inline bool is_readable(address_t addr) const noexcept {
 			return addr - m_rodata_start < m_arena_end_sub_rodata;
 		}
-		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		inline bool is_writable(address_t addr) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// The whole range
+		inline bool is_readable(address_t addr, size_t size) const noexcept {
+			return is_readable(addr) && size <= m_arena_size - addr;
+		}
+		inline bool is_writable(address_t addr, size_t size) const noexcept {
+			return is_writable(addr) && size <= m_arena_size - addr;
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index f9e3b77..c0aea2b 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -36,7 +36,7 @@ inline void Memory::write(address_t addr, T value)
 			addr &= LA_MASKED_MEMORY_MASK;
 		}
 	} else {
-		if (LA_UNLIKELY(!is_writable(addr, sizeof(T)))) {
+		if (LA_UNLIKELY(!is_writable(addr))) {
 			protection_fault(addr, "Write to read-only memory");
 		}
 	}
@@ -47,7 +47,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > m_arena_size / sizeof(T) || !is_readable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -57,7 +57,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > m_arena_size / sizeof(T) || !is_writable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..3130cb0 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest >= m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 4b31d5ce88666ebd83dbd534fac5f2b0a4f4781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 14/51] fix: mmap and munmap stay within memory, fail with an
 error and hand out zeroes

A guest could map past the end of its arena and was told it succeeded, or
move the mapping pointer below its own stack, brk area and data with munmap
so that later mappings overlapped them. Memory that had been unmapped was
handed out again without being cleared. A stack that does not fit is now
refused when loading.
---
 lib/libloong/elf_loader.cpp     |  6 ++++-
 lib/libloong/linux/syscalls.cpp | 45 ++++++++++++++++---------------
 lib/libloong/memory.cpp         | 48 ++++++++++++++++++++++++++++++---
 lib/libloong/memory.hpp         |  3 +++
 4 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..a78176d 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -163,8 +163,9 @@ void Memory::binary_loader(const MachineOptions& options)
 	// m_stack_address is the TOP of the stack (highest address)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
+	this->m_mmap_begin = this->m_mmap_address;
 
-	if (this->m_heap_address >= options.memory_max) {
+	if (this->m_mmap_address > options.memory_max) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
@@ -178,6 +179,9 @@ void Memory::binary_loader(const MachineOptions& options)
 	if (options.custom_arena_pointer != nullptr &&
 		options.custom_arena_size >= options.memory_max) {
 		this->use_custom_arena(options.custom_arena_pointer, options.custom_arena_size);
+		if (this->m_mmap_address > this->m_arena_size) {
+			throw MachineException(OUT_OF_MEMORY, "Not enough memory for stack and brk", this->m_arena_size);
+		}
 	} else {
 		this->allocate_arena(options.memory_max);
 	}
diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..bd86d93 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -12,6 +12,7 @@ namespace loongarch
 	static constexpr int64_t LA_ENOSYS = 38;
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOTTY = 25;
@@ -593,27 +594,23 @@ namespace loongarch
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
 		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
-			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if ((flags & 0x10) == 0x0) {
-			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
-			// It's within the mmap region - allow
-			machine.set_result(addr);
-		} else {
-			// Fixed address mapping not supported for now
-			machine.set_result(-1);
-		}
-
-		// Anonymous mapping: zero out the memory
-		if (false && machine.template return_value<address_t>() != static_cast<address_t>(-1)) {
-			if (flags & 0x20) { // MAP_ANONYMOUS
-				machine.memory.memset(machine.template return_value<address_t>(), 0, length);
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
+		} else try {
+			if (addr == 0 || (flags & 0x10) == 0x0) {
+				// No fixed flag - force into new allocation
+				machine.set_result(machine.memory.mmap_allocate(length));
+			} else if (addr < machine.memory.mmap_address()
+				&& machine.memory.mmap_fixed(addr, length)) {
+				// It's within the mmap region - allow
+				machine.set_result(addr);
+			} else {
+				// Fixed address mapping not supported for now
+				machine.set_result(-1);
 			}
+		} catch (const MachineException& e) {
+			if (e.type() != OUT_OF_MEMORY) throw;
+			machine.set_result(-LA_ENOMEM);
 		}
 
 		sysprint(machine, "mmap(addr=0x%llx, len=%llu, prot=0x%x, flags=0x%x, fd=%d, offset=%llu) = 0x%llx\n",
@@ -626,8 +623,12 @@ namespace loongarch
 		const auto addr  = machine.cpu.reg(REG_A0);
 		const auto length = machine.cpu.reg(REG_A1);
 
-		machine.memory.mmap_deallocate(addr, length);
-		machine.set_result(0);
+		if (addr % 4096 != 0 || length == 0 || length > SIZE_MAX - 4095) {
+			machine.set_result(-LA_EINVAL);
+		} else {
+			machine.memory.mmap_deallocate(addr, length);
+			machine.set_result(0);
+		}
 		sysprint(machine, "munmap(addr=0x%llx, len=%llu) = %d\n",
 			static_cast<uint64_t>(addr), static_cast<uint64_t>(length),
 			machine.template return_value<int>());
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..2e01897 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -282,18 +282,60 @@ std::string_view Memory::memview(address_t addr, size_t len) const
 	return std::string_view(ptr, len);
 }
 
+static size_t mmap_page_align(size_t size)
+{
+	if (LA_UNLIKELY(size > SIZE_MAX - 4095)) {
+		throw MachineException(OUT_OF_MEMORY, "Mapping size too large", size);
+	}
+	return (size + 4095) & ~size_t(4095);
+}
+
 address_t Memory::mmap_allocate(size_t size)
 {
-	size = (size + 4095) & ~size_t(4095); // Align to page size
+	size = mmap_page_align(size);
 	const address_t result = this->m_mmap_address;
+	// The arena doesn't exist yet while the loader lays out brk and stack
+	const size_t end_of_memory = (m_arena != nullptr) ? m_arena_size : SIZE_MAX;
+	if (LA_UNLIKELY(result > end_of_memory || size > end_of_memory - result)) {
+		throw MachineException(OUT_OF_MEMORY, "Out of memory for mappings", size);
+	}
 	this->m_mmap_address += size;
+	// Hand out zeroes, also when the memory has been in use before
+	if (result < this->m_mmap_used_end) {
+		std::memset(&m_arena[result], 0, std::min(size, this->m_mmap_used_end - result));
+	}
+	this->m_mmap_used_end = std::max(this->m_mmap_used_end, this->m_mmap_address);
 	return result;
 }
 
+bool Memory::mmap_fixed(address_t addr, size_t size)
+{
+	size = mmap_page_align(size);
+	if (addr % 4096 != 0 || addr > m_arena_size || size > m_arena_size - addr) {
+		return false;
+	}
+	// Fixed mappings over the program itself (and its stack) are left as they are
+	if (addr >= this->m_mmap_begin) {
+		// Anything above has never been handed out, or has been given back
+		if (addr > this->m_mmap_address) {
+			return false;
+		}
+		if (addr < this->m_mmap_used_end) {
+			std::memset(&m_arena[addr], 0, std::min(size, this->m_mmap_used_end - addr));
+		}
+	}
+	this->m_mmap_address = std::max(this->m_mmap_address, addr + size);
+	this->m_mmap_used_end = std::max(this->m_mmap_used_end, this->m_mmap_address);
+	return true;
+}
+
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
-	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	// Allow relaxation of mmap area by moving m_mmap_address back,
+	// but never below the first mapping
+	size = mmap_page_align(size);
+	if (addr % 4096 == 0 && addr >= this->m_mmap_begin && addr <= this->m_mmap_address
+		&& size == this->m_mmap_address - addr) {
 		this->m_mmap_address = addr;
 	}
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index c2afe9c..983848a 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -43,6 +43,7 @@ namespace loongarch
 
 		// Memory mapping
 		address_t mmap_allocate(size_t size);
+		bool mmap_fixed(address_t addr, size_t size);
 		void mmap_deallocate(address_t addr, size_t size);
 
 		// Execute segments
@@ -122,6 +123,8 @@ namespace loongarch
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
 		address_t m_mmap_address = 0;
+		address_t m_mmap_begin = 0;    // Where the mappings begin
+		address_t m_mmap_used_end = 0; // Above this nothing has been handed out yet
 
 		// ELF header information for auxv
 		address_t m_elf_phdr_addr = 0;
-- 
2.43.0


From 098e2914a08d12afd481f66c84c0226df3c42254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 15/51] fix: leave a donated arena to its donor, and free the
 arena when loading fails

---
 lib/libloong/memory.cpp | 17 ++++++++++++++---
 lib/libloong/memory.hpp |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 2e01897..160000f 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -21,7 +21,13 @@ Memory::Memory(Machine& machine,
 	  m_main_exec_segment(nullptr)
 {
 	if (!binary.empty()) {
-		binary_loader(options);
+		try {
+			binary_loader(options);
+		} catch (...) {
+			// The destructor will not be called
+			free_arena();
+			throw;
+		}
 	}
 }
 
@@ -38,7 +44,7 @@ Memory::~Memory()
 #ifdef LA_BINARY_TRANSLATION
 	// If the main execute segment is currently background compiling,
 	// wait for it to finish in asynchronously
-	if (m_main_exec_segment && m_main_exec_segment->is_background_compiling()) {
+	if (m_main_exec_segment && m_main_exec_segment->is_background_compiling() && !m_arena_donated) {
 		// Delay freeing the arena until after compilation is done
 		// as the binary translator may be reading from it.
 		auto* arena_ptr = m_arena;
@@ -77,6 +83,7 @@ void Memory::allocate_arena(size_t size)
 	}
 #endif
 	this->m_arena_size = size;
+	this->m_arena_donated = false;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
 }
@@ -110,6 +117,7 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
+	this->m_arena_donated = true; // Not ours to free
 	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
@@ -126,8 +134,11 @@ void Memory::free_arena_internal(uint8_t* arena, size_t size)
 }
 void Memory::free_arena()
 {
-	free_arena_internal(this->m_arena, this->m_arena_size);
+	if (!this->m_arena_donated) {
+		free_arena_internal(this->m_arena, this->m_arena_size);
+	}
 	this->m_arena = nullptr;
+	this->m_arena_donated = false;
 	this->m_arena_size = 0;
 }
 
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 983848a..334bc94 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -102,6 +102,7 @@ namespace loongarch
 		// Single memory arena (mmap'd on POSIX, new[] otherwise)
 		uint8_t* m_arena = nullptr;
 		size_t m_arena_size = 0;
+		bool m_arena_donated = false; // Not ours to free
 
 		// Memory region boundaries
 		address_t m_rodata_start = 0;  // Start of read-only data
-- 
2.43.0


From c787e5c3c80cd92a050ddca9bcba55a4cbd2aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 16/51] fix: heap requests that overflow fail, freeing never
 allocates, and pointers keep 64 bits

A malloc or calloc whose size wrapped around returned a tiny allocation. A
host allocation failure in the middle of a free left two free chunks side by
side, which a later split unlinked. Chunk addresses were cut to 32 bits.
---
 lib/libloong/machine_accelerate.cpp | 3 ++-
 lib/libloong/native/heap.hpp        | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..6c5b98d 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -212,7 +212,8 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
 		const size_t len = count * size;
-		auto data = machine.arena().malloc(len);
+		const bool overflow = size != 0 && len / size != count;
+		auto data = overflow ? 0 : machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
 		if (data != 0) {
diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..0e0d5c2 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -15,7 +15,7 @@ struct Arena;
 
 struct ArenaChunk
 {
-	using PointerType = uint32_t;
+	using PointerType = address_t;
 
 	ArenaChunk() = default;
 	ArenaChunk(ArenaChunk* n, ArenaChunk* p, size_t s, bool f, PointerType d)
@@ -101,6 +101,9 @@ struct Arena
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
+		// Sizes that cannot be rounded up cannot be allocated either
+		if (LA_UNLIKELY(size > SIZE_MAX - (ALIGNMENT-1)))
+			return SIZE_MAX;
 		// The minimum allocation is 8 bytes
 		return std::max(ALIGNMENT, word_align(size));
 	}
@@ -233,6 +236,9 @@ inline ArenaChunk* Arena::new_chunk(Args&&... args)
 		if (m_chunks.size() >= this->m_max_chunks)
 			throw MachineException(INVALID_PROGRAM, "Too many arena chunks", this->m_max_chunks);
 
+		// Make room for every chunk here, so that freeing never allocates
+		if (m_free_chunks.capacity() <= m_chunks.size())
+			m_free_chunks.reserve(2 * (m_chunks.size() + 1));
 		m_chunks.emplace_back(std::forward<Args>(args)...);
 		return &m_chunks.back();
 	}
-- 
2.43.0


From d90f45e4a2930f17d6a35c84a5dfc9769676f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 17/51] fix: guest threads: futex wake masks, 64-bit futex
 words, stale scheduler entries and tgkill results

A plain futex wait recorded no bitset, futex words were compared modulo
2^32, killed threads stayed in the scheduler's lists, exit cleared eight
bytes instead of four and woke nobody, and tgkill on another or unknown
thread gave no result or stopped the machine.
---
 lib/libloong/linux/syscalls_threads.cpp | 51 +++++++++++++++----------
 lib/libloong/posix/threads.cpp          | 29 +++++++++-----
 lib/libloong/posix/threads.hpp          | 10 ++---
 3 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..12cf393 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -6,6 +6,7 @@
 namespace loongarch
 {
 	// Error numbers
+	static constexpr int64_t LA_ESRCH = 3;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
@@ -43,15 +44,19 @@ namespace loongarch
 		if ((futex_op & 0xF) == FUTEX_WAIT || (futex_op & 0xF) == FUTEX_WAIT_BITSET)
 		{
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAIT_BITSET;
+			if (is_bitset && val3 == 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			if (machine.memory.read<uint32_t>(addr) == static_cast<uint32_t>(val)) {
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0u)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
@@ -59,7 +64,8 @@ namespace loongarch
 				"FUTEX: Wait condition EAGAIN... uaddr=0x%llx val=%d, bitset=%d\n",
 				static_cast<unsigned long long>(addr), val, is_bitset);
 			// This thread isn't blocked, but yielding may be necessary
-			machine.threads().suspend_and_yield(-LA_EAGAIN);
+			if (!machine.threads().suspend_and_yield(-LA_EAGAIN))
+				machine.set_result(-LA_EAGAIN);
 			return;
 		} else if ((futex_op & 0xF) == FUTEX_WAKE || (futex_op & 0xF) == FUTEX_WAKE_BITSET) {
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAKE_BITSET;
@@ -106,7 +112,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
@@ -135,7 +141,8 @@ namespace loongarch
 		this->install_syscall_handler(124,
 		[](Machine& machine) {
 			thprint(machine, "%s\n", ">>> sched_yield()");
-			machine.threads().suspend_and_yield();
+			if (!machine.threads().suspend_and_yield())
+				machine.set_result(0);
 		});
 
 		// tgkill (update to work with threads)
@@ -146,23 +153,27 @@ namespace loongarch
 			thprint(machine,
 				">>> tgkill on tid=%d signal=%d\n", tid, sig);
 			auto* thread = machine.threads().get_thread(tid);
-			if (thread != nullptr) {
+			if (thread == nullptr) {
+				machine.set_result(-LA_ESRCH);
+				return;
+			}
+			if (sig != 0 && machine.sigaction(sig).is_unset()) {
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
-						return;
-				} else {
-					// Jump to signal handler and change to altstack, if set
-					machine.signals().enter(machine, sig);
-					thprint(machine,
-						"<<< tgkill signal=%d jumping to 0x%llx (sp=0x%llx)\n",
-						sig,
-						static_cast<unsigned long long>(machine.sigaction(sig).handler),
-						static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
-					return;
-				}
+				const bool myself = (thread == machine.threads().get_thread());
+				if (thread->exit())
+					machine.stop();
+				else if (!myself)
+					machine.set_result(0);
+				return;
 			}
-			machine.stop();
+			// Jump to signal handler and change to altstack, if set
+			machine.set_result(0);
+			machine.signals().enter(machine, sig);
+			thprint(machine,
+				"<<< tgkill signal=%d jumping to 0x%llx (sp=0x%llx)\n",
+				sig,
+				static_cast<unsigned long long>(machine.sigaction(sig).handler),
+				static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
 		});
 
 		// gettid
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..0ffd8d6 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -37,7 +37,9 @@ void MultiThreading::wakeup_next()
 		// resume next thread
 		next->resume();
 	} else {
+		// Everyone is blocked: the main thread escapes
 		auto* next = get_thread(0);
+		std::erase(m_blocked, next);
 		next->resume();
 	}
 }
@@ -76,7 +78,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// and wake a thread that waits for it
+		thr.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
@@ -108,7 +112,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +122,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -143,16 +147,17 @@ Thread* MultiThreading::create(
 		throw MachineException(INVALID_PROGRAM, "Too many threads", this->m_max_threads);
 
 	const int tid = ++this->m_thread_counter;
-	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
-	auto* thread = &it.first->second;
 
-	// flag for write child TID
+	// flag for write child TID (NB: can throw)
 	if (flags & CHILD_SETTID) {
-		machine.memory.write<uint32_t>(ctid, thread->tid);
+		machine.memory.write<uint32_t>(ctid, tid);
 	}
 	if (flags & PARENT_SETTID) {
-		machine.memory.write<uint32_t>(ptid, thread->tid);
+		machine.memory.write<uint32_t>(ptid, tid);
 	}
+
+	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
+	auto* thread = &it.first->second;
 	if (flags & CHILD_CLEARTID) {
 		thread->clear_tid = ctid;
 	}
@@ -162,6 +167,10 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	// Nobody may resume or wake the thread after this
+	const auto same = [tid] (const Thread* t) { return t->tid == tid; };
+	std::erase_if(m_suspended, same);
+	std::erase_if(m_blocked, same);
 	m_threads.erase(tid);
 }
 
@@ -177,7 +186,7 @@ bool MultiThreading::suspend_and_yield(long result)
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
 	if (!m_suspended.empty() || m_threads.size() > 1) {
@@ -200,7 +209,7 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..40ad4be 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,9 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From a4fe3659d17c3aa3d02c18bb998e40eb458aa583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 18/51] fix: signals: exact dispositions, handler argument and
 target thread

The handler address, flags and mask did not read back as set, signals 0
and 1 shared an entry, SIG_IGN was jumped to, an unset alternate stack
was used as address zero, a handler did not get its signal number, and
tgkill on another thread ran the handler in the calling thread.
---
 lib/libloong/linux/syscalls.cpp         | 15 ++++++++++-----
 lib/libloong/linux/syscalls_threads.cpp | 18 ++++++++++++++----
 lib/libloong/posix/signals.cpp          | 22 ++++++++++++++--------
 lib/libloong/posix/signals.hpp          | 14 +++++++++++++-
 4 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index bd86d93..3c510a4 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -371,6 +371,10 @@ namespace loongarch
 		const auto action = machine.sysarg(1);
 		const auto old_action = machine.sysarg(2);
 
+		if (sig < 1 || sig > 64) {
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
 		auto& sigact = machine.sigaction(sig);
 
 		// Kernel sigaction structure (64-bit)
@@ -385,8 +389,8 @@ namespace loongarch
 
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
-			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
+			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler;
+			sa.sa_flags   = sigact.flags;
 			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
@@ -394,7 +398,8 @@ namespace loongarch
 		// Set new action if provided
 		if (action != 0x0) {
 			machine.memory.copy_from_guest(&sa, action, sizeof(sa));
-			sigact.handler  = sa.sa_handler & ~address_t(0x3);
+			sigact.handler  = sa.sa_handler;
+			sigact.flags    = sa.sa_flags;
 			sigact.altstack = (sa.sa_flags & LINUX_SA_ONSTACK) != 0;
 			sigact.mask     = sa.sa_mask;
 		}
@@ -425,8 +430,8 @@ namespace loongarch
 		}
 
 		// Jump to signal handler and change to altstack, if set
-		machine.signals().enter(machine, sig);
 		machine.set_result(0);
+		machine.signals().enter(machine, sig);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -455,8 +460,8 @@ namespace loongarch
 		}
 
 		// Jump to signal handler and change to altstack, if set
-		machine.signals().enter(machine, sig);
 		machine.set_result(0);
+		machine.signals().enter(machine, sig);
 	}
 
 	static void syscall_brk(Machine& machine)
diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 12cf393..54f1566 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -157,17 +157,27 @@ namespace loongarch
 				machine.set_result(-LA_ESRCH);
 				return;
 			}
-			if (sig != 0 && machine.sigaction(sig).is_unset()) {
-				// If the signal is unhandled, exit the thread
-				const bool myself = (thread == machine.threads().get_thread());
+			if (sig == 0 || machine.sigaction(sig).is_ignored()) {
+				machine.set_result(0);
+				return;
+			}
+			const bool myself = (thread == machine.threads().get_thread());
+			// If the signal is unhandled, exit the thread
+			if (machine.sigaction(sig).is_unset()) {
 				if (thread->exit())
 					machine.stop();
 				else if (!myself)
 					machine.set_result(0);
 				return;
 			}
-			// Jump to signal handler and change to altstack, if set
 			machine.set_result(0);
+			if (!myself) {
+				// The other thread enters its handler when it next runs
+				machine.threads().unblock(tid);
+				machine.signals().enter(machine, sig, tid, thread->stored_regs);
+				return;
+			}
+			// Jump to signal handler and change to altstack, if set
 			machine.signals().enter(machine, sig);
 			thprint(machine,
 				"<<< tgkill signal=%d jumping to 0x%llx (sp=0x%llx)\n",
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..d45ac21 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -6,10 +6,7 @@ namespace loongarch
 {
 	SignalAction& Signals::get(int sig)
 	{
-		if (sig == 0) {
-			return signals[0];
-		}
-		else if (sig < 1 || sig > 64) {
+		if (sig < 1 || sig > 64) {
 			throw MachineException(INVALID_PROGRAM,
 				"Signal number out of range", sig);
 		}
@@ -17,21 +14,30 @@ namespace loongarch
 	}
 
 	void Signals::enter(Machine& machine, int sig)
+	{
+		this->enter(machine, sig, machine.gettid(), machine.cpu.registers());
+	}
+
+	void Signals::enter(Machine& machine, int sig, int tid, Registers& regs)
 	{
 		// Ignore signal 0
 		if (sig == 0)
 			return;
 
 		auto& sigact = this->get(sig);
+		if (sigact.is_ignored())
+			return;
 
 		// Switch to alternate stack if configured
 		if (sigact.altstack) {
-			auto& stack = per_thread(machine.gettid()).stack;
-			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
+			auto& stack = per_thread(tid).stack;
+			if (stack.is_set())
+				regs.get(REG_SP) = stack.ss_sp + stack.ss_size;
 		}
 
-		// Jump to handler
-		machine.cpu.jump(sigact.handler-4);
+		// Jump to handler, with the signal number as its argument
+		regs.get(REG_A0) = sig;
+		regs.pc = sigact.handler-4;
 	}
 
 } // namespace loongarch
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..6211a35 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -12,6 +12,12 @@ namespace loongarch
 	// Signal stack configuration (per-thread)
 	struct SignalStack
 	{
+		static constexpr int SS_DISABLE_FLAG = 2;
+
+		bool is_set() const noexcept {
+			return ss_size != 0 && (ss_flags & SS_DISABLE_FLAG) == 0;
+		}
+
 		address_t ss_sp = 0x0;      // Stack pointer
 		int       ss_flags = 0x0;   // Flags (SS_ONSTACK, SS_DISABLE, etc.)
 		address_t ss_size = 0;      // Stack size
@@ -21,14 +27,19 @@ namespace loongarch
 	struct SignalAction
 	{
 		static constexpr address_t SIG_UNSET = ~address_t(0x0);
+		static constexpr address_t SIG_IGNORE = 0x1;
 
 		bool is_unset() const noexcept {
 			return handler == 0x0 || handler == SIG_UNSET;
 		}
+		bool is_ignored() const noexcept {
+			return handler == SIG_IGNORE;
+		}
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		uint64_t flags = 0x0;           // Signal flags (SA_*)
+		uint64_t mask = 0x0;            // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
@@ -49,6 +60,7 @@ namespace loongarch
 	{
 		SignalAction& get(int sig);
 		void enter(Machine& machine, int sig);
+		void enter(Machine& machine, int sig, int tid, Registers& regs);
 
 		auto& per_thread(int tid) { return m_per_thread[tid]; }
 
-- 
2.43.0


From 25d9762ef57bfd2b5881cb63c33096fe7bbd5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 19/51] fix: a dying thread cannot take the wake-up of its own
 exit

---
 lib/libloong/posix/threads.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 0ffd8d6..aaeade0 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -76,21 +76,23 @@ bool Thread::exit()
 	// Copy of reference to thread manager and thread ID
 	auto& thr = this->threading;
 	const int tid = this->tid;
+	const address_t clear_tid = this->clear_tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
-	if (this->clear_tid) {
-		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
-		// and wake a thread that waits for it
-		thr.wakeup_blocked(1, this->clear_tid);
+	if (clear_tid) {
+		threading.machine.memory.write<uint32_t>(clear_tid, 0);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
-		threading.erase_thread(tid);
-
-		// Resume next thread in suspended list
-		// Exiting main thread is a "process exit", so we don't wakeup_next
-		if (exiting_myself) {
-			thr.wakeup_next();
-		}
+		thr.erase_thread(tid);
+	}
+	// Wake a thread that waits for the exit
+	if (clear_tid) {
+		thr.wakeup_blocked(1, clear_tid);
+	}
+	// Resume next thread in suspended list
+	// Exiting main thread is a "process exit", so we don't wakeup_next
+	if (tid != 0 && exiting_myself) {
+		thr.wakeup_next();
 	}
 
 	// tid == 0: Main thread exited
-- 
2.43.0


From 09a0ae4d6b2369adec33fe5ebb65c0ff3903a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 20/51] fix: guest writes report what the host accepted, and
 writev skips nothing

writev silently left out pieces of 1 MB and more, and both calls
reported success when the host's output refused the bytes.
---
 lib/libloong/linux/syscalls.cpp | 26 +++++++++++++++++++-------
 lib/libloong/machine.cpp        |  8 ++++----
 lib/libloong/machine.hpp        |  4 ++--
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 3c510a4..2a7589b 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -11,6 +11,7 @@ namespace loongarch
 	// Error numbers (prefixed to avoid conflicts with system macros)
 	static constexpr int64_t LA_ENOSYS = 38;
 	static constexpr int64_t LA_ENOENT = 2;
+	static constexpr int64_t LA_EIO = 5;
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EINVAL = 22;
@@ -90,8 +91,11 @@ namespace loongarch
 
 		if (fd == 1 || fd == 2) { // stdout or stderr
 			const char* view = machine.memory.template memarray<char>(addr, len);
-			machine.print(view, len);
-			machine.set_result(len);
+			const size_t written = machine.print(view, len);
+			if (written == 0 && len > 0)
+				machine.set_result(-LA_EIO);
+			else
+				machine.set_result(written);
 		} else {
 			machine.set_result(-1);
 		}
@@ -113,20 +117,28 @@ namespace loongarch
 
 		if (fd == 1 || fd == 2) { // stdout or stderr
 			size_t total = 0;
+			bool failed = false;
 			for (size_t i = 0; i < iovcnt; i++) {
 				// Each iovec is { void* iov_base, size_t iov_len }
 				size_t iovec_offset = iov_addr + i * 2 * sizeof(address_t);
 				auto base = machine.memory.template read<address_t>(iovec_offset);
 				auto len = machine.memory.template read<address_t>(iovec_offset + sizeof(address_t));
 
-				// Sanity check on length
-				if (len > 0 && len < 1024 * 1024) {
+				if (len > 0) {
 					const char* view = machine.memory.template memarray<char>(base, len);
-					machine.print(view, len);
-					total += len;
+					const size_t written = machine.print(view, len);
+					total += written;
+					// What is delivered is always a prefix of the request
+					if (written < len) {
+						failed = true;
+						break;
+					}
 				}
 			}
-			machine.set_result(total);
+			if (failed && total == 0)
+				machine.set_result(-LA_EIO);
+			else
+				machine.set_result(total);
 		} else {
 			machine.set_result(-1);
 		}
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 674e942..4982917 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -166,14 +166,14 @@ namespace loongarch
 		return memory.lookup_symbol(addr);
 	}
 
-	void Machine::print(const char* data, size_t len)
+	size_t Machine::print(const char* data, size_t len)
 	{
-		fwrite(data, 1, len, stdout);
+		return fwrite(data, 1, len, stdout);
 	}
 
-	void Machine::print(std::string_view str)
+	size_t Machine::print(std::string_view str)
 	{
-		print(str.data(), str.size());
+		return print(str.data(), str.size());
 	}
 
 	size_t Machine::serialize_to(std::vector<uint8_t>& vec) const
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 9244062..9f66ab3 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -149,8 +149,8 @@ namespace loongarch
 		int deserialize_from(const std::vector<uint8_t>& vec);
 
 		// Print helper
-		void print(const char* data, size_t len);
-		void print(std::string_view str);
+		size_t print(const char* data, size_t len); // Returns bytes accepted by the host
+		size_t print(std::string_view str);
 
 		// Bytecode statistics
 		struct BytecodeStats {
-- 
2.43.0


From fa94f2e087d1b42f049542e1511c278207e2b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 21/51] fix: report unreadable and unknown clocks to the guest

---
 lib/libloong/linux/syscalls.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 2a7589b..05c29de 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -250,12 +250,16 @@ namespace loongarch
 	{
 		auto [clockid, tp] =
 			machine.template sysargs<int, address_t>();
-		if (tp != 0) {
-			struct timespec ts;
-			clock_gettime(clockid, &ts);
-			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
+		struct timespec ts {};
+		if (clock_gettime(clockid, &ts) < 0) {
+			// Unknown or unreadable clock: no time to deliver
+			machine.set_result(-LA_EINVAL);
+		} else {
+			if (tp != 0) {
+				machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
+			}
+			machine.set_result(0);
 		}
-		machine.set_result(0);
 		sysprint(machine, "clock_gettime(clockid=%d, tp=0x%llx) = %d\n",
 			clockid, static_cast<uint64_t>(tp),
 			machine.template return_value<int>());
@@ -282,8 +286,11 @@ namespace loongarch
 			tv_guest.tv_sec = seconds.count();
 			tv_guest.tv_usec = microseconds.count();
 #else
-			struct timeval tv;
-			gettimeofday(&tv, nullptr);
+			struct timeval tv {};
+			if (gettimeofday(&tv, nullptr) < 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			tv_guest.tv_sec = tv.tv_sec;
 			tv_guest.tv_usec = tv.tv_usec;
 #endif
-- 
2.43.0


From 41cec3208015cd9f673fd39bc6e6ad8e301095b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 22/51] fix: host-to-guest calls: preserve the interrupted
 guest also on failure, and pass arguments as the ABI says

---
 lib/libloong/machine_vmcall.hpp | 138 +++++++++++++++++++++++---------
 1 file changed, 101 insertions(+), 37 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..316bb4b 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "machine.hpp"
 #include "guest_datatypes.hpp"
+#include <array>
 #include <string>
 #include <vector>
 #include <type_traits>
@@ -28,20 +29,40 @@ namespace loongarch
 		return stack_push(sp, &value, sizeof(T));
 	}
 
+	// The value of an integer argument in a register: 32-bit values
+	// are sign-extended (also unsigned ones), smaller ones keep their value
+	template <typename T> constexpr
+	inline address_t integer_argument(T value)
+	{
+		if constexpr (sizeof(T) == 4)
+			return static_cast<address_t>(static_cast<int64_t>(static_cast<int32_t>(value)));
+		else
+			return static_cast<address_t>(value);
+	}
+
 	// Setup call arguments according to LoongArch calling convention
+	// The call starts with its stack at @sp
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
-	{		auto& cpu = machine.cpu;
+	inline void setup_call(Machine& machine, address_t exit_addr, address_t sp, Args&&... args)
+	{
+		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
-
 		// Initialize argument registers
-		int iarg = REG_A0; // Integer argument registers: A0-A7
-		int farg = 0;      // Floating-point argument registers: FA0-FA7
+		int iarg = 0; // Integer argument registers: A0-A7
+		int farg = 0; // Floating-point argument registers: FA0-FA7
+
+		// Arguments that do not fit in registers are passed on the stack
+		size_t sarg = 0;
+		std::array<address_t, sizeof...(Args) + 1> stack_args {};
+		const auto push_int = [&] (address_t value) {
+			if (iarg < 8)
+				cpu.reg(REG_A0 + iarg++) = value;
+			else
+				stack_args[sarg++] = value;
+		};
 
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
@@ -50,42 +71,57 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				push_int(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				push_int(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				push_int(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				push_int(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				push_int(integer_argument(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
+				// and when those are used up, to integer registers
 				if constexpr (sizeof(T) == 4) {
-					cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					if (farg < 8) {
+						cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					} else {
+						const float value = args;
+						uint32_t bits;
+						std::memcpy(&bits, &value, sizeof(bits));
+						push_int(bits);
+					}
 				} else if constexpr (sizeof(T) == 8) {
-					cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					if (farg < 8) {
+						cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					} else {
+						const double value = args;
+						uint64_t bits;
+						std::memcpy(&bits, &value, sizeof(bits));
+						push_int(bits);
+					}
 				}
 			}
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				push_int(integer_argument(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
 				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				push_int(struct_addr);
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -94,6 +130,10 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		if (sarg > 0) {
+			// The first stack argument is found at the stack pointer
+			machine.stack_push(sp, stack_args.data(), sarg * sizeof(address_t));
+		}
 		cpu.reg(REG_SP) = sp;
 	}
 
@@ -105,7 +145,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -161,7 +201,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -181,32 +221,56 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Optionally save CPU registers
-		Registers saved_regs;
-		if constexpr (StoreRegs) {
-			saved_regs = cpu.registers();
-		}
-
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
-
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
+		// Optionally save CPU registers and the state of the current run,
+		// and put them back however the call ends
+		struct SavedState {
+			SavedState(Machine& m) : machine(m), regs(m.cpu.registers()), counter(m.m_counter),
+				max_instructions(m.m_max_instructions), limit_reached(m.m_limit_reached),
+				exception(std::move(m.m_current_exception)) { m.clear_current_exception(); }
+			~SavedState() {
+				machine.cpu.registers() = regs;
+				machine.m_counter = counter;
+				machine.m_max_instructions = max_instructions;
+				machine.m_limit_reached = limit_reached;
+				machine.m_current_exception = std::move(exception);
+			}
+			Machine& machine;
+			const Registers regs;
+			const uint64_t counter;
+			const uint64_t max_instructions;
+			const bool limit_reached;
+			std::exception_ptr exception;
+		};
+		bool limit_reached = false;
 
-		// Restore registers if needed
 		if constexpr (StoreRegs) {
+			address_t retval = 0;
+			{
+				SavedState state { *this };
+
+				// Setup the call below the live stack
+				setup_call(*this, exit_addr, cpu.reg(REG_SP), std::forward<Args>(args)...);
+				cpu.registers().pc = func_addr;
+
+				// Execute with instruction limit
+				this->simulate(max_instr, 0);
+				limit_reached = this->instruction_limit_reached();
+				retval = cpu.reg(REG_A0);
+			}
 			// Keep return value in A0
-			const address_t retval = cpu.reg(REG_A0);
-			cpu.registers() = saved_regs;
 			cpu.reg(REG_A0) = retval;
+		} else {
+			// Setup the call
+			setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+			limit_reached = this->instruction_limit_reached();
 		}
 
 		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+			if (limit_reached) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
-- 
2.43.0


From 38109f8f46baa331d60e8ce87ebe9523a0bfd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 23/51] fix: ELF section sizes that wrap around and
 unterminated symbol names read outside the binary

---
 lib/libloong/elf_loader.cpp |  4 ++--
 lib/libloong/memory.cpp     | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index a78176d..21521c2 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -129,7 +129,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start) {
+			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
@@ -239,7 +239,7 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end <= seg_end && text_end >= text_bounds.start) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 160000f..1a3d9b6 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -204,8 +204,11 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	const auto is_within_binary = [this] (const Elf::SectionHeader* section) {
+		return section->offset <= m_binary.size() &&
+			section->size <= m_binary.size() - section->offset;
+	};
+	if (!is_within_binary(symtab) || !is_within_binary(strtab)) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -222,14 +225,16 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		// Only add function symbols with non-zero addresses
 		uint8_t type = Elf::ST_TYPE(sym.info);
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
-			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
-				const char* name = string_table + sym.name;
-				if (name[0] != '\0') {
-					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
+			if (sym.name < strtab->size) {
+				// The name may not be zero-terminated within the string table
+				const char* name_begin = string_table + sym.name;
+				std::string name(name_begin, ::strnlen(name_begin, strtab->size - sym.name));
+				if (!name.empty()) {
+					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), std::move(name)});
 
 					if (false && options.verbose_loader) {
 						fprintf(stderr, "Symbol: 0x%lx %s (size=%lu)\n",
-							(unsigned long)sym.value, name, (unsigned long)sym.size);
+							(unsigned long)sym.value, name_begin, (unsigned long)sym.size);
 					}
 				}
 			}
-- 
2.43.0


From 7642a376cf0fba68d5cdb19fb8384e255652d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 24/51] fix: the table of instruction handlers is shared by
 machines on several threads

---
 lib/libloong/decoder_cache.cpp | 10 +++++++---
 lib/libloong/decoder_cache.hpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index c1cb2aa..aef71a1 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -302,16 +302,20 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		std::lock_guard<std::mutex> lock(m_handlers_mutex);
 		// Search for existing handler
-		for (size_t i = 0; i < m_handlers.size(); ++i) {
+		for (size_t i = 0; i < m_handler_count; ++i) {
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
 		}
 
 		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		if (m_handler_count >= m_handlers.size()) {
+			throw std::runtime_error("DecoderCache: Too many instruction handlers");
+		}
+		m_handlers[m_handler_count] = handler;
+		return static_cast<uint16_t>(m_handler_count++);
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index f370e07..277e864 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
+#include <mutex>
 
 namespace loongarch
 {
@@ -35,7 +36,12 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// Fixed size, as machines on other threads may be using
+		// the handlers while new ones are added
+		static constexpr size_t MAX_HANDLERS = 512;
+		static inline std::array<handler_t, MAX_HANDLERS> m_handlers = {};
+		static inline size_t m_handler_count = 0;
+		static inline std::mutex m_handlers_mutex;
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From 9c190c14cc01bf00ad151227a59324bee36102a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 25/51] fix: decoded code is shared only between equal
 programs, never patched while shared, and dropped when unused

---
 lib/libloong/decoded_exec_segment.cpp | 23 +++++++++
 lib/libloong/decoded_exec_segment.hpp | 16 +++++++
 lib/libloong/decoder_cache.cpp        |  5 +-
 lib/libloong/machine_accelerate.cpp   |  3 +-
 lib/libloong/memory.cpp               | 68 +++++++++++++++++----------
 lib/libloong/memory.hpp               |  2 +
 lib/libloong/shared_exec_segment.hpp  |  7 ++-
 7 files changed, 94 insertions(+), 30 deletions(-)

diff --git a/lib/libloong/decoded_exec_segment.cpp b/lib/libloong/decoded_exec_segment.cpp
index eef3a78..0bf9ef9 100644
--- a/lib/libloong/decoded_exec_segment.cpp
+++ b/lib/libloong/decoded_exec_segment.cpp
@@ -1,5 +1,6 @@
 #include "decoded_exec_segment.hpp"
 #include "machine.hpp"
+#include <algorithm>
 
 namespace loongarch
 {
@@ -33,6 +34,28 @@ namespace loongarch
 	}
 #endif
 
+	std::shared_ptr<DecodedExecuteSegment> DecodedExecuteSegment::make_private(std::shared_ptr<DecodedExecuteSegment> original)
+	{
+		auto copy = std::make_shared<DecodedExecuteSegment>(original->m_exec_begin, original->m_exec_end);
+		if (original->m_decoder_cache.cache) {
+			// The last entry marks the end of the cache
+			const size_t entries = original->m_decoder_cache.size + 1;
+			auto* cache = new DecoderData[entries];
+			std::copy(original->m_decoder_cache.cache, original->m_decoder_cache.cache + entries, cache);
+			copy->set_decoder_cache(cache, original->m_decoder_cache.size);
+		}
+		copy->m_stale = original->m_stale;
+		copy->m_execute_only = original->m_execute_only;
+		copy->m_crc32c_hash = original->m_crc32c_hash;
+#ifdef LA_BINARY_TRANSLATION
+		// The translated code is owned by the original
+		copy->m_is_libtcc = original->m_is_libtcc;
+		copy->m_mappings_base_address = original->m_mappings_base_address;
+#endif
+		copy->m_original = std::move(original);
+		return copy;
+	}
+
 	DecodedExecuteSegment::~DecodedExecuteSegment()
 	{
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index abb413f..2dbd73a 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -2,6 +2,8 @@
 #include "common.hpp"
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
+#include <cstring>
+#include <memory>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
@@ -14,6 +16,17 @@ namespace loongarch
 
 		~DecodedExecuteSegment();
 
+		// Create a copy that can be modified without affecting other
+		// machines that are using the original
+		static std::shared_ptr<DecodedExecuteSegment> make_private(std::shared_ptr<DecodedExecuteSegment> original);
+		bool is_private() const noexcept { return m_original != nullptr; }
+
+		// The instructions this segment was decoded from (when shared)
+		void set_shared_code(const uint8_t* code, size_t size) { m_shared_code.assign(code, code + size); }
+		bool is_shared_code(const uint8_t* code, size_t size) const noexcept {
+			return m_shared_code.size() == size && std::memcmp(m_shared_code.data(), code, size) == 0;
+		}
+
 		// CRC32-C hash for shared segment identification
 		uint32_t crc32c_hash() const noexcept { return m_crc32c_hash; }
 		void set_crc32c_hash(uint32_t hash) noexcept { m_crc32c_hash = hash; }
@@ -97,6 +110,9 @@ namespace loongarch
 		bool m_stale = false;
 		bool m_execute_only = false;
 		uint32_t m_crc32c_hash = 0;
+		std::vector<uint8_t> m_shared_code;
+		// A private copy keeps the original alive
+		std::shared_ptr<DecodedExecuteSegment> m_original;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
 		const char* m_mappings_base_address = nullptr;
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index aef71a1..295892d 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -225,7 +225,9 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		}
 
 		const size_t num_instructions = aligned_size / 4;
+		// Owned by the segment from here on, also if decoding fails
 		auto* cache = new DecoderData[num_instructions + 1];
+		segment->set_decoder_cache(cache, num_instructions);
 		// Guarantee that invalid instruction is handler 0
 		const auto invalid_handler = DecoderData::compute_handler_for(
 			CPU::get_invalid_instruction().handler);
@@ -288,9 +290,6 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		cache[num_instructions].bytecode = LA64_BC_INVALID;
 		cache[num_instructions].handler_idx = 0;
 
-		// Store the cache in the segment
-		segment->set_decoder_cache(cache, num_instructions);
-
 #ifdef LA_BINARY_TRANSLATION
 		// Try to activate binary translation if enabled
 		// Note: Binary translation with shared segments requires compatible arena sizes
diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 6c5b98d..4c4d8d3 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -41,7 +41,8 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 			entry.block_bytes = 0; // Diverges here
 			entry.instr = syscall_number;
 			// Install into decoder cache
-			auto& exec_seg = *machine.memory.exec_segment_for(addr);
+			// Other machines may be using the same decoder cache
+			auto& exec_seg = machine.memory.make_private_execute_segment(addr);
 			exec_seg.set(addr, entry);
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 1a3d9b6..2d72e1f 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -380,22 +380,22 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		auto& entry = shared_cache.get_segment(key);
 
 		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
-
-		if (existing) {
-			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
-			}
+		const auto* code = static_cast<const uint8_t*>(data);
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		if (!entry.segment) {
+			// No existing segment, create one. It is only shared when complete.
+			auto created = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			created->set_shared_code(code, len);
+			populate_decoder_cache(m_machine, options, created, addr, code, len, is_initial);
+			entry.segment = std::move(created);
+		}
+		// Different code can have the same hash
+		if (entry.segment->is_shared_code(code, len)) {
 			segment = entry.segment;
 		}
-	} else {
+	}
+
+	if (!segment) {
 		// Not using shared segments, create a new one
 		segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
 		populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
@@ -425,27 +425,47 @@ void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// If using shared segments, notify the cache before releasing our references
+	// Release our references before asking the cache to remove unused segments
+	std::vector<SegmentKey> keys;
 	if (machine().has_options() && machine().options().use_shared_execute_segments) {
-		auto& shared_cache = get_shared_execute_segments();
-
-		// Remove main segment if unique
 		if (m_main_exec_segment) {
-			SegmentKey key = SegmentKey::from(*m_main_exec_segment, m_arena_size);
-			shared_cache.remove_if_unique(key);
+			keys.push_back(SegmentKey::from(*m_main_exec_segment, m_arena_size));
 		}
-
-		// Remove other segments if unique
 		for (auto& seg : m_exec) {
 			if (seg) {
-				SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-				shared_cache.remove_if_unique(key);
+				keys.push_back(SegmentKey::from(*seg, m_arena_size));
 			}
 		}
 	}
 
 	m_exec.clear();
 	m_main_exec_segment.reset();
+
+	for (const auto& key : keys) {
+		get_shared_execute_segments().remove_if_unique(key);
+	}
+}
+
+DecodedExecuteSegment& Memory::make_private_execute_segment(address_t addr)
+{
+	const auto replace = [this] (std::shared_ptr<DecodedExecuteSegment>& segment) -> auto& {
+		if (!segment->is_private()) {
+			auto copy = DecodedExecuteSegment::make_private(segment);
+			if (&machine().cpu.current_execute_segment() == segment.get()) {
+				machine().cpu.set_execute_segment(*copy);
+			}
+			segment = std::move(copy);
+		}
+		return *segment;
+	};
+	if (m_main_exec_segment && m_main_exec_segment->is_within(addr)) {
+		return replace(m_main_exec_segment);
+	}
+	for (auto& seg : m_exec) {
+		if (seg->is_within(addr)) return replace(seg);
+	}
+	throw MachineException(EXECUTION_SPACE_PROTECTION_FAULT,
+		"No execute segment at address", addr);
 }
 
 void Memory::reset()
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 334bc94..8dc4363 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -53,6 +53,8 @@ namespace loongarch
 			bool is_initial, bool is_likely_jit = false);
 
 		std::shared_ptr<DecodedExecuteSegment> exec_segment_for(address_t pc) const;
+		// The segment at the address, as a copy that no other machine is using
+		DecodedExecuteSegment& make_private_execute_segment(address_t addr);
 		size_t execute_segments_count() const noexcept { return m_exec.size() + (m_main_exec_segment ? 1 : 0); }
 		void evict_execute_segments();
 
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..68c8cc7 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -3,6 +3,7 @@
 #include "decoded_exec_segment.hpp"
 #include <memory>
 #include <mutex>
+#include <tuple>
 #include <unordered_map>
 
 namespace loongarch
@@ -12,6 +13,8 @@ namespace loongarch
 	// - Base address (pc)
 	// - Content hash (crc32c)
 	// - Arena size (for binary translation compatibility)
+	// As different contents can have the same hash, the contents must also be
+	// compared before using a segment (see DecodedExecuteSegment::is_shared_code).
 	struct SegmentKey {
 		address_t pc;
 		uint32_t crc;
@@ -21,11 +24,11 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			return std::tie(pc, crc, arena_size) < std::tie(other.pc, other.crc, other.arena_size);
 		}
 	};
 
-- 
2.43.0


From 19db1db9b6506c2418c4fa7b09c3808cd1843cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 26/51] fix: host replacements of string functions were limited
 to 4096 bytes, ignored terminators and read too far

---
 lib/libloong/machine_accelerate.cpp | 123 ++++++++++++++++++++--------
 1 file changed, 87 insertions(+), 36 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 4c4d8d3..376d169 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -1,7 +1,9 @@
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
 #include "native/heap.hpp"
+#include <algorithm>
 #include <cstdio>
+#include <cstring>
 #include <inttypes.h>
 
 //#define VERBOSE_NATSYS
@@ -48,6 +50,54 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 	}
 }
 
+// How much of a range can be read
+static size_t readable_length(Machine& machine, address_t addr, size_t maxlen)
+{
+	const auto& memory = machine.memory;
+	if (addr < memory.rodata_start() || addr >= memory.arena_size())
+		return 0;
+	return std::min(maxlen, size_t(memory.arena_size() - addr));
+}
+
+[[noreturn]] static void unreadable(address_t addr)
+{
+	throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
+}
+
+// The length of a zero-terminated string, at most maxlen
+static size_t string_length(Machine& machine, address_t addr, size_t maxlen)
+{
+	if (maxlen == 0)
+		return 0;
+	const size_t readable = readable_length(machine, addr, maxlen);
+	const size_t len = (readable > 0) ?
+		::strnlen(machine.memory.template memarray<char>(addr, readable), readable) : 0;
+	if (len == readable && len < maxlen)
+		unreadable(addr + len);
+	return len;
+}
+
+// Compare zero-terminated strings, at most n characters of them
+static int string_compare(Machine& machine, address_t addr1, address_t addr2, size_t n)
+{
+	if (n == 0)
+		return 0;
+	const size_t len1 = readable_length(machine, addr1, n);
+	const size_t len2 = readable_length(machine, addr2, n);
+	const size_t len  = std::min(len1, len2);
+	int result = 0;
+	bool terminated = false;
+	if (len > 0) {
+		const char* s1 = machine.memory.template memarray<char>(addr1, len);
+		const char* s2 = machine.memory.template memarray<char>(addr2, len);
+		result = std::strncmp(s1, s2, len);
+		terminated = (result != 0) || std::memchr(s1, 0, len) != nullptr;
+	}
+	if (!terminated && len < n)
+		unreadable(len1 <= len2 ? addr1 + len : addr2 + len);
+	return result;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -80,9 +130,11 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const int value      = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
-		// Perform native memset
-		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
-		std::memset(dest_ptr, value, n);
+		if (LA_LIKELY(n != 0)) {
+			// Perform native memset
+			uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
+			std::memset(dest_ptr, value, n);
+		}
 
 		machine.set_result(dest);
 	});
@@ -92,10 +144,18 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr1 = machine.cpu.reg(REG_A0);
 		const address_t ptr2 = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
-		// Perform native memcmp
-		const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, n);
-		const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, n);
-		int result = std::memcmp(p1, p2, n);
+		// Perform native memcmp on what is readable of both
+		const size_t len1 = readable_length(machine, ptr1, n);
+		const size_t len2 = readable_length(machine, ptr2, n);
+		const size_t len  = std::min(len1, len2);
+		int result = 0;
+		if (len > 0) {
+			const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, len);
+			const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, len);
+			result = std::memcmp(p1, p2, len);
+		}
+		if (result == 0 && len < n)
+			unreadable(len1 <= len2 ? ptr1 + len : ptr2 + len);
 
 		machine.set_result<int>(result);
 	});
@@ -105,10 +165,12 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const address_t src  = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
-		// Perform native memmove
-		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
-		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memmove(dest_ptr, src_ptr, n);
+		if (LA_LIKELY(n != 0)) {
+			// Perform native memmove
+			uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
+			const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
+			std::memmove(dest_ptr, src_ptr, n);
+		}
 
 		machine.set_result(dest);
 	});
@@ -118,14 +180,21 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr = machine.cpu.reg(REG_A0);
 		const int value     = machine.cpu.reg(REG_A1);
 		const size_t n      = machine.cpu.reg(REG_A2);
-		// Perform native memchr
-		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
-		const void* result = std::memchr(p, value, n);
+		// The memory after a match doesn't have to be readable
+		const size_t len = readable_length(machine, ptr, n);
+		const uint8_t* p = nullptr;
+		const void* result = nullptr;
+		if (len > 0) {
+			p = machine.memory.template memarray<uint8_t>(ptr, len);
+			result = std::memchr(p, value, len);
+		}
 
 		if (result) {
 			const address_t offset = static_cast<const uint8_t*>(result) - p;
 			machine.set_result(ptr + offset);
 		} else {
+			if (len < n)
+				unreadable(ptr + len);
 			machine.set_result<address_t>(0);
 		}
 	});
@@ -133,35 +202,21 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(string_length(machine, str_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		machine.set_result(string_length(machine, str_addr, maxlen));
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(string_compare(machine, str1_addr, str2_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strncmp,
@@ -169,11 +224,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(string_compare(machine, str1_addr, str2_addr, n));
 	});
 
 	// Iterate the symbol table and patch known functions
-- 
2.43.0


From 67e28daae0833b88eacfe18dcaba9ae9b0a9d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 27/51] fix: host-made guest strings and vectors leaked,
 pointed astray or were lost when the guest heap ran out

---
 lib/libloong/guest_datatypes.hpp | 264 ++++++++++++++++++++++---------
 1 file changed, 185 insertions(+), 79 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..b45fbdb 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -37,6 +37,30 @@ struct has_fix_addresses : std::false_type {};
 template <typename T>
 struct has_fix_addresses<T, std::void_t<decltype(std::declval<T>().fix_addresses(std::declval<Machine&>(), std::declval<address_t>()))>> : std::true_type {};
 
+// Allocate memory for elements on the guest heap
+// Throws when the guest heap is exhausted
+inline address_t guest_heap_alloc(Machine& machine, std::size_t elements, std::size_t element_size)
+{
+	address_t addr = 0;
+	if (elements <= SIZE_MAX / element_size)
+		addr = machine.arena().malloc(elements * element_size);
+	if (addr == 0)
+		throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", elements);
+	return addr;
+}
+
+// Frees guest memory unless it was released to its owner
+struct GuestHeapGuard {
+	GuestHeapGuard(Machine& m, address_t a) noexcept : machine(m), addr(a) {}
+	~GuestHeapGuard() { if (addr != 0) machine.arena().free(addr); }
+	GuestHeapGuard(const GuestHeapGuard&) = delete;
+	GuestHeapGuard& operator=(const GuestHeapGuard&) = delete;
+	address_t release() noexcept { const address_t a = addr; addr = 0; return a; }
+
+	Machine& machine;
+	address_t addr;
+};
+
 // View into libstdc++'s std::string
 struct GuestStdString {
 	static constexpr std::size_t SSO = 15;
@@ -89,31 +113,38 @@ struct GuestStdString {
 
 	void set_string(Machine& machine, address_t self, const void* str, std::size_t len, bool use_memarray = true)
 	{
-		this->free(machine);
-
 		if (len <= SSO)
 		{
+			// The source may be a part of this string
+			char buffer[SSO + 1];
+			std::memcpy(buffer, str, len);
+			buffer[len] = '\0';
+			this->free(machine);
 			this->ptr = self + offsetof(GuestStdString, data);
 			this->len = len;
-			std::memcpy(this->data, str, len);
-			this->data[len] = '\0';
+			std::memcpy(this->data, buffer, len + 1);
 		}
 		else
 		{
-			this->ptr = machine.arena().malloc(len+1);
-			this->len = len;
-			this->capacity = len;
+			// The old string is kept when there is no room for the new one
+			if (len == SIZE_MAX)
+				throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", len);
+			GuestHeapGuard guard(machine, guest_heap_alloc(machine, len + 1, 1));
 			if (use_memarray)
 			{
-				char* dst = machine.memory.template writable_memarray<char>(this->ptr, len + 1);
+				char* dst = machine.memory.template writable_memarray<char>(guard.addr, len + 1);
 				std::memcpy(dst, str, len);
 				dst[len] = '\0';
 			}
 			else
 			{
-				machine.memory.copy_to_guest(this->ptr, str, len);
-				machine.memory.template write<uint8_t>(this->ptr + len, 0);
+				machine.memory.copy_to_guest(guard.addr, str, len);
+				machine.memory.template write<uint8_t>(guard.addr + len, 0);
 			}
+			this->free(machine);
+			this->ptr = guard.release();
+			this->len = len;
+			this->capacity = len;
 		}
 	}
 
@@ -185,23 +216,26 @@ struct GuestRustString {
 
 	void set_string(Machine& machine, const void* str, std::size_t length, bool use_memarray = true)
 	{
-		this->free(machine);
-
-		if (length > 0)
+		if (length == 0)
 		{
-			this->ptr = machine.arena().malloc(length);
-			this->capacity = length;
-			this->len = length;
-			if (use_memarray)
-			{
-				char* dst = machine.memory.template writable_memarray<char>(this->ptr, length);
-				std::memcpy(dst, str, length);
-			}
-			else
-			{
-				machine.memory.copy_to_guest(this->ptr, str, length);
-			}
+			this->free(machine);
+			return;
 		}
+		// The old string is kept when there is no room for the new one
+		GuestHeapGuard guard(machine, guest_heap_alloc(machine, length, 1));
+		if (use_memarray)
+		{
+			char* dst = machine.memory.template writable_memarray<char>(guard.addr, length);
+			std::memcpy(dst, str, length);
+		}
+		else
+		{
+			machine.memory.copy_to_guest(guard.addr, str, length);
+		}
+		this->free(machine);
+		this->ptr = guard.release();
+		this->capacity = length;
+		this->len = length;
 	}
 
 	void set_string(Machine& machine, std::string_view str)
@@ -234,13 +268,13 @@ struct GuestStdVector {
 	GuestStdVector(Machine& machine, std::size_t elements)
 		: ptr_begin(0), ptr_end(0), ptr_capacity(0)
 	{
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
+		T* array = this->replace_storage(machine, guest_heap_alloc(machine, elements, sizeof(T)), elements);
 		for (std::size_t i = 0; i < elements; i++) {
 			new (&array[i]) T();
 		}
 		// Set new end only after all elements are constructed
 		this->ptr_end = this->ptr_begin + elements * sizeof(T);
+		this->fix_element_addresses(machine, 0);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<std::string>& vec)
@@ -251,14 +285,17 @@ struct GuestStdVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		auto [array, self] = this->alloc(machine, vec.size());
-		(void)self;
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			T* str = new (&array[i]) T(machine, vec[i]);
-			str->move(this->ptr_begin + i * sizeof(T));
+		T* array = this->replace_storage(machine, guest_heap_alloc(machine, vec.size(), sizeof(T)), vec.size());
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				new (&array[i]) T(machine, this->ptr_begin + i * sizeof(T), vec[i]);
+				// The vector ends after the last constructed element
+				this->ptr_end += sizeof(T);
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
-		// Set new end only after all elements are constructed
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<T>& vec = {})
@@ -319,6 +356,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(std::move(value));
 		this->ptr_end += sizeof(T);
+		this->fix_element_addresses(machine, size() - 1);
 	}
 
 	void push_back(Machine& machine, const T& value) {
@@ -327,6 +365,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(value);
 		this->ptr_end += sizeof(T);
+		this->fix_element_addresses(machine, size() - 1);
 	}
 
 	// Specialization for std::string and std::string_view
@@ -344,6 +383,9 @@ struct GuestStdVector {
 	template <typename U>
 	void push_back(Machine& machine, const std::vector<U>& value) {
 		static_assert(is_guest_stdvector<T>::value, "GuestStdVector: T must be a GuestStdVector itself");
+		// Make room first, as nobody owns the new element until it is in the vector
+		if (size_bytes() >= capacity_bytes())
+			this->increase_capacity(machine);
 		this->push_back(machine, GuestStdVector<U>(machine, value));
 	}
 
@@ -355,12 +397,15 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
+		if (count == 0)
+			return;
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
 		for (std::size_t i = 0; i < count; i++)
 			new (&array[size() + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
+		this->fix_element_addresses(machine, size() - count);
 	}
 
 	void clear(Machine& machine) {
@@ -378,12 +423,16 @@ struct GuestStdVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), size());
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), size());
 	}
 
@@ -396,6 +445,8 @@ struct GuestStdVector {
 			throw std::runtime_error("Guest std::vector has size > capacity");
 		// Copy the vector from guest memory
 		const size_t elements = size();
+		if (elements == 0)
+			return {};
 		const T* array = machine.memory.template memarray<T>(data(), elements);
 		return std::vector<T>(&array[0], &array[elements]);
 	}
@@ -407,6 +458,8 @@ struct GuestStdVector {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			std::vector<std::string> vec;
 			const size_t elements = size();
+			if (elements == 0)
+				return vec;
 			const T* array = machine.memory.template memarray<T>(data(), elements);
 			vec.reserve(elements);
 			for (std::size_t i = 0; i < elements; i++)
@@ -419,18 +472,19 @@ struct GuestStdVector {
 
 	void assign(Machine& machine, const std::vector<T>& vec)
 	{
-		auto [array, self] = alloc(machine, vec.size());
-		(void)self;
-		std::copy(vec.begin(), vec.end(), array);
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
+		this->assign(machine, vec.data(), vec.size());
 	}
 
 	void assign(Machine& machine, const T* values, std::size_t count)
 	{
-		auto [array, self] = alloc(machine, count);
-		(void)self;
+		// The old elements are kept when there is no room for the new ones
+		GuestHeapGuard guard(machine, guest_heap_alloc(machine, count, sizeof(T)));
+		T* array = machine.memory.template writable_memarray<T>(guard.addr, count);
 		std::copy(values, values + count, array);
+		this->free(machine);
+		this->replace_storage(machine, guard.release(), count);
 		this->ptr_end = this->ptr_begin + count * sizeof(T);
+		this->fix_element_addresses(machine, 0);
 	}
 
 	void resize(Machine& machine, std::size_t new_size)
@@ -443,9 +497,11 @@ struct GuestStdVector {
 			if (new_size > capacity())
 				this->reserve(machine, new_size);
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
-			for (std::size_t i = size(); i < new_size; i++)
+			const std::size_t old_size = size();
+			for (std::size_t i = old_size; i < new_size; i++)
 				new (&array[i]) T();
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
+			this->fix_element_addresses(machine, old_size);
 		}
 	}
 
@@ -454,22 +510,21 @@ struct GuestStdVector {
 		if (elements <= capacity())
 			return;
 
-		GuestStdVector<T> old_vec(std::move(*this));
-		// Allocate new memory
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
-		if (!old_vec.empty()) {
-			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
-			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
+		// Allocate new memory, the vector is unchanged when there is none
+		GuestHeapGuard guard(machine, guest_heap_alloc(machine, elements, sizeof(T)));
+		T* array = machine.memory.template writable_memarray<T>(guard.addr, elements);
+		const std::size_t old_size = size();
+		if (old_size > 0) {
+			T* old_array = machine.memory.template writable_memarray<T>(this->data(), old_size);
+			std::copy(old_array, old_array + old_size, array);
 		}
-		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
+		// Free the old memory manually (as we don't want to call the destructor(s))
+		if (this->ptr_begin != 0)
+			machine.arena().free(this->ptr_begin);
+		this->replace_storage(machine, guard.release(), elements);
+		this->ptr_end = this->ptr_begin + old_size * sizeof(T);
 		// Adjust SSO if the vector contains std::string
-		if constexpr (std::is_same_v<T, GuestStdString>) {
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = 0; i < size(); i++)
-				array[i].move(this->ptr_begin + i * sizeof(T));
-		}
+		this->fix_element_addresses(machine, 0);
 	}
 
 	void free(Machine& machine) {
@@ -511,20 +566,31 @@ private:
 		this->reserve(machine, capacity() * 2 + 4);
 	}
 
-	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
-		this->free(machine);
+	// Take over new memory, without freeing what was there
+	T* replace_storage(Machine& machine, address_t addr, std::size_t elements) {
+		this->ptr_begin = addr;
+		this->ptr_end = addr;
+		this->ptr_capacity = addr + elements * sizeof(T);
+		return machine.memory.template writable_memarray<T>(addr, elements);
+	}
 
-		this->ptr_begin = machine.arena().malloc(elements * sizeof(T));
-		this->ptr_end = this->ptr_begin;
-		this->ptr_capacity = this->ptr_begin + elements * sizeof(T);
-		return { machine.memory.template writable_memarray<T>(this->data(), elements), this->data() };
+	// Short strings point into themselves
+	void fix_element_addresses(Machine& machine, std::size_t first) {
+		if constexpr (std::is_same_v<T, GuestStdString>) {
+			if (first >= size())
+				return;
+			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
+			for (std::size_t i = first; i < size(); i++)
+				array[i].move(this->ptr_begin + i * sizeof(T));
+		}
 	}
 
 	void free_element(Machine& machine, std::size_t index) {
+		T* array = machine.memory.template writable_memarray<T>(this->data(), size());
 		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value) {
-			this->at(machine, index).free(machine);
+			array[index].free(machine);
 		} else {
-			this->at(machine, index).~T();
+			array[index].~T();
 		}
 	}
 };
@@ -540,6 +606,8 @@ struct ScopedArenaObject {
 		if (this->m_addr == 0) {
 			throw std::bad_alloc();
 		}
+		// The destructor will not be called if the object cannot be constructed
+		GuestHeapGuard guard(machine, this->m_addr);
 		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 
 		// Construct the object
@@ -551,6 +619,7 @@ struct ScopedArenaObject {
 			// Construct the object in place (as if trivially constructible)
 			new (m_ptr) T{std::forward<Args>(args)...};
 		}
+		guard.release();
 
 		// Fix addresses if the type supports it
 		if constexpr (has_fix_addresses<T>::value) {
@@ -559,8 +628,7 @@ struct ScopedArenaObject {
 	}
 
 	~ScopedArenaObject() {
-		this->free_standard_types();
-		m_machine->arena().free(this->m_addr);
+		this->free_all();
 	}
 
 	T& operator*() { return *m_ptr; }
@@ -571,11 +639,15 @@ struct ScopedArenaObject {
 	ScopedArenaObject& operator=(const ScopedArenaObject&) = delete;
 
 	ScopedArenaObject& operator=(const T& other) {
-		// It's not possible for m_addr to be 0 here, as it would have thrown in the constructor
+		if (&other == this->m_ptr)
+			return *this;
+		// m_addr is 0 when this object has been moved from
 		this->free_standard_types();
 		this->allocate_if_null();
-		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 		new (m_ptr) T(other);
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+		}
 		return *this;
 	}
 
@@ -597,7 +669,9 @@ struct ScopedArenaObject {
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
-		this->free_standard_types();
+		if (&other == this)
+			return *this;
+		this->free_all();
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
@@ -614,6 +688,22 @@ private:
 				throw std::bad_alloc();
 			}
 			this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+			// The object is empty until it is assigned to
+			if constexpr (std::is_default_constructible_v<T>) {
+				new (m_ptr) T();
+				if constexpr (has_fix_addresses<T>::value) {
+					this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+				}
+			}
+		}
+	}
+
+	void free_all() {
+		this->free_standard_types();
+		if (this->m_addr != 0) {
+			m_machine->arena().free(this->m_addr);
+			this->m_addr = 0;
+			this->m_ptr = nullptr;
 		}
 	}
 
@@ -651,7 +741,7 @@ struct GuestRustVector {
 		: len(0), ptr(0), capacity(0)
 	{
 		if (elements > 0) {
-			this->ptr = machine.arena().malloc(elements * sizeof(T));
+			this->ptr = guest_heap_alloc(machine, elements, sizeof(T));
 			this->capacity = elements;
 			this->len = elements;
 			T* array = machine.memory.template writable_memarray<T>(this->ptr, elements);
@@ -669,12 +759,18 @@ struct GuestRustVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = guest_heap_alloc(machine, vec.size(), sizeof(T));
 		this->capacity = vec.size();
-		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			new (&array[i]) T(machine, vec[i]);
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				new (&array[i]) T(machine, vec[i]);
+				// The vector ends after the last constructed element
+				this->len++;
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
 	}
 
@@ -730,21 +826,31 @@ struct GuestRustVector {
 
 	void assign(Machine& machine, const std::vector<T>& vec)
 	{
-		this->free(machine);
-		if (vec.empty())
+		if (vec.empty()) {
+			this->free(machine);
 			return;
-
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		}
+		// The old elements are kept when there is no room for the new ones
+		GuestHeapGuard guard(machine, guest_heap_alloc(machine, vec.size(), sizeof(T)));
+		T* array = machine.memory.template writable_memarray<T>(guard.addr, vec.size());
+		std::copy(vec.begin(), vec.end(), array);
+		this->free(machine);
+		this->ptr = guard.release();
 		this->capacity = vec.size();
 		this->len = vec.size();
-		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		std::copy(vec.begin(), vec.end(), array);
 	}
 
 	void fix_addresses(Machine&, address_t) {} // No-op
 
 	void free(Machine& machine) {
 		if (this->ptr != 0) {
+			if constexpr (std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
+				if (this->len > 0) {
+					T* array = machine.memory.template writable_memarray<T>(this->ptr, this->len);
+					for (std::size_t i = 0; i < this->len; i++)
+						array[i].free(machine);
+				}
+			}
 			machine.arena().free(this->ptr);
 			this->ptr = 0;
 			this->capacity = 0;
-- 
2.43.0


From 8fead16f07b60c6f66cc8ed3f1f2d6169fcbe84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 28/51] fix: backtrace read past its buffer when a symbol name
 of the guest binary was long

---
 lib/libloong/machine_backtrace.cpp | 31 ++++++++++--------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..8116933 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -45,18 +45,13 @@ std::string Machine::backtrace(address_t initial) const
 	if (initial == 0) {
 		initial = cpu.pc();
 	}
-	char buffer[4096];
-	int n = snprintf(buffer, sizeof(buffer),
-		"#-: 0x%016lx %s\n",
-		(unsigned long)initial,
-		lookup_demangled_symbol(initial).c_str());
-
+	// Symbol names come from the guest binary and can have any length
+	char buffer[64];
 	std::string result;
-	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
-	} else {
-		return result;
-	}
+	snprintf(buffer, sizeof(buffer), "#-: 0x%016lx ", (unsigned long)initial);
+	result += buffer;
+	result += lookup_demangled_symbol(initial);
+	result += '\n';
 
 	/// XXX: If the binary has unwinding information, we could use that here
 	/// to do a more reliable backtrace. For now, we will just read the return
@@ -65,16 +60,10 @@ std::string Machine::backtrace(address_t initial) const
 	address_t ra = cpu.reg(REG_RA);
 	size_t depth = 0;
 	while (ra != 0 && depth < 64) {
-		int n = snprintf(buffer, sizeof(buffer),
-			"#%zu: 0x%016lx %s\n",
-			depth,
-			(unsigned long)ra,
-			lookup_demangled_symbol(ra).c_str());
-		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
-		} else {
-			break;
-		}
+		snprintf(buffer, sizeof(buffer), "#%zu: 0x%016lx ", depth, (unsigned long)ra);
+		result += buffer;
+		result += lookup_demangled_symbol(ra);
+		result += '\n';
 		// Read next return address from stack
 		try {
 			ra = memory.template read<address_t>(sp);
-- 
2.43.0


From d349d9dce41c48e40da8ca086bbf2a3760959990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 29/51] fix: growing or appending to a guest vector that the
 guest made up wrote past the end of guest memory

---
 lib/libloong/guest_datatypes.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index b45fbdb..f2c7159 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -401,11 +401,13 @@ struct GuestStdVector {
 			return;
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
+		// The elements can overlap this vector when the guest made it
+		const std::size_t old_size = size();
+		T* array = machine.memory.template writable_memarray<T>(this->data(), old_size + count);
 		for (std::size_t i = 0; i < count; i++)
-			new (&array[size() + i]) T(values[i]);
+			new (&array[old_size + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
-		this->fix_element_addresses(machine, size() - count);
+		this->fix_element_addresses(machine, old_size);
 	}
 
 	void clear(Machine& machine) {
@@ -509,6 +511,9 @@ struct GuestStdVector {
 	{
 		if (elements <= capacity())
 			return;
+		// The guest decides what is in here: more elements than fit must not be copied
+		if (size_bytes() > capacity_bytes())
+			throw std::runtime_error("Guest std::vector has size > capacity");
 
 		// Allocate new memory, the vector is unchanged when there is none
 		GuestHeapGuard guard(machine, guest_heap_alloc(machine, elements, sizeof(T)));
@@ -542,16 +547,18 @@ struct GuestStdVector {
 		(void)self; // Not used for vectors themselves
 		// Fix addresses in elements if they need it
 		if constexpr (std::is_same_v<T, GuestStdString>) {
-			if (this->size() > 0) {
-				T* array = machine.memory.template writable_memarray<T>(this->data(), this->size());
-				for (std::size_t i = 0; i < this->size(); i++) {
+			const std::size_t elements = this->size();
+			if (elements > 0) {
+				T* array = machine.memory.template writable_memarray<T>(this->data(), elements);
+				for (std::size_t i = 0; i < elements; i++) {
 					array[i].fix_addresses(machine, this->data() + i * sizeof(T));
 				}
 			}
 		} else if constexpr (is_guest_stdvector<T>::value) {
-			if (this->size() > 0) {
-				T* array = machine.memory.template writable_memarray<T>(this->data(), this->size());
-				for (std::size_t i = 0; i < this->size(); i++) {
+			const std::size_t elements = this->size();
+			if (elements > 0) {
+				T* array = machine.memory.template writable_memarray<T>(this->data(), elements);
+				for (std::size_t i = 0; i < elements; i++) {
 					array[i].fix_addresses(machine, this->data() + i * sizeof(T));
 				}
 			}
@@ -579,8 +586,9 @@ private:
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			if (first >= size())
 				return;
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = first; i < size(); i++)
+			const std::size_t elements = size();
+			T* array = machine.memory.template writable_memarray<T>(this->data(), elements);
+			for (std::size_t i = first; i < elements; i++)
 				array[i].move(this->ptr_begin + i * sizeof(T));
 		}
 	}
-- 
2.43.0


From 78e5ccb7872227981a2f654e18c1f41292ebca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 30/51] fix: overlapping copies by the guest's memcpy reached
 the host's memcpy

---
 lib/libloong/machine_accelerate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 376d169..3cf11ff 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -117,10 +117,10 @@ void Machine::setup_accelerated_syscalls()
 			machine.set_result(dest);
 			return;
 		}
-		// Perform native memcpy
+		// Perform native memcpy (the guest decides if it overlaps)
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memcpy(dest_ptr, src_ptr, n);
+		std::memmove(dest_ptr, src_ptr, n);
 
 		machine.set_result(dest);
 	});
-- 
2.43.0


From 5d1edd4f52b132e3c5187bb9fd644f22b0a7fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 31/51] fix: report a failed allocation of the empty execute
 segment instead of terminating

---
 lib/libloong/cpu.cpp | 2 +-
 lib/libloong/cpu.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 0b98471..09311ae 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -13,7 +13,7 @@ namespace loongarch
 		return machine().memory;
 	}
 
-	std::shared_ptr<DecodedExecuteSegment>& CPU::empty_execute_segment() noexcept {
+	std::shared_ptr<DecodedExecuteSegment>& CPU::empty_execute_segment() {
 		static std::shared_ptr<DecodedExecuteSegment> empty_shared =
 			std::make_shared<DecodedExecuteSegment>(0, 0);
 		return empty_shared;
diff --git a/lib/libloong/cpu.hpp b/lib/libloong/cpu.hpp
index f73e247..274c3d0 100644
--- a/lib/libloong/cpu.hpp
+++ b/lib/libloong/cpu.hpp
@@ -76,7 +76,7 @@ namespace loongarch
 		};
 		NextExecuteReturn next_execute_segment(address_t pc);
 
-		static std::shared_ptr<DecodedExecuteSegment>& empty_execute_segment() noexcept;
+		static std::shared_ptr<DecodedExecuteSegment>& empty_execute_segment();
 		bool is_executable(address_t addr) const noexcept;
 
 		// Exception handling
-- 
2.43.0


From d31a4a20d8a5b0b74ed591fe9003b7be9f10ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 32/51] fix: install and read the shared system call handlers
 atomically

---
 lib/libloong/machine.cpp        | 8 +++++---
 lib/libloong/machine.hpp        | 4 +++-
 lib/libloong/machine_inline.hpp | 7 ++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 4982917..38858f6 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -22,10 +22,10 @@ namespace loongarch
 					"Unimplemented system call", sysnum);
 			};
 			for (auto& handler : m_syscall_handlers) {
-				handler = [](Machine& m) {
+				handler.store([](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-				};
+				}, std::memory_order_relaxed);
 			}
 		});
 	}
@@ -148,7 +148,9 @@ namespace loongarch
 
 	Machine::syscall_t** Machine::get_syscall_handlers()
 	{
-		return m_syscall_handlers.data();
+		// Binary translated code reads the handlers directly
+		static_assert(sizeof(m_syscall_handlers[0]) == sizeof(syscall_t*));
+		return reinterpret_cast<syscall_t**>(m_syscall_handlers.data());
 	}
 
 	Machine::unknown_syscall_t* Machine::get_unknown_syscall_handler()
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 9f66ab3..5abf3f0 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -2,6 +2,7 @@
 #include "common.hpp"
 #include "cpu.hpp"
 #include "memory.hpp"
+#include <atomic>
 #include <string>
 #include <vector>
 #include <functional>
@@ -189,7 +190,8 @@ namespace loongarch
 		std::unique_ptr<Signals> m_signals;
 		std::unique_ptr<MultiThreading> m_mt;
 		std::exception_ptr m_current_exception = nullptr;
-		static inline std::array<syscall_t*, LA_SYSCALLS_MAX> m_syscall_handlers = {};
+		// Shared by all machines, also those on other threads
+		static inline std::array<std::atomic<syscall_t*>, LA_SYSCALLS_MAX> m_syscall_handlers = {};
 		static inline unknown_syscall_t* m_unknown_syscall_handler = nullptr;
 		static inline rdtime_callback_t* m_rdtime_handler = nullptr;
 
diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..6248ff1 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -12,7 +12,7 @@ namespace loongarch
 	inline void Machine::system_call(unsigned syscall_number)
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
-			auto* handler = m_syscall_handlers[syscall_number];
+			auto* handler = m_syscall_handlers[syscall_number].load(std::memory_order_relaxed);
 			handler(*this);
 			return;
 		}
@@ -22,13 +22,14 @@ namespace loongarch
 
 	inline void Machine::unchecked_system_call(unsigned syscall_number)
 	{
-		m_syscall_handlers[syscall_number](*this);
+		auto* handler = m_syscall_handlers[syscall_number].load(std::memory_order_relaxed);
+		handler(*this);
 	}
 
 	inline void Machine::install_syscall_handler(unsigned syscall_number, syscall_t* handler)
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
-			m_syscall_handlers[syscall_number] = handler;
+			m_syscall_handlers[syscall_number].store(handler, std::memory_order_relaxed);
 		}
 	}
 
-- 
2.43.0


From e609cfc524b488d29658df3643beb435863bd604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 33/51] fix: setup_linux left the guest's stack pointer
 misaligned with an even number of arguments and environment strings

---
 lib/libloong/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 38858f6..7a3bfe8 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -118,6 +118,12 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The stack pointer is 16-byte aligned at process entry: the auxiliary vector keeps
+		// the alignment, and argc, the pointers and their two terminators follow it
+		if ((1 + args.size() + 1 + env.size() + 1) % 2 != 0) {
+			sp -= sizeof(address_t);
+		}
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
-- 
2.43.0


From 8f1cc10c93115d38c87ce305d0f0a8817e4b04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 34/51] fix: arguments that did not fit on the guest's stack
 overwrote what lies below it

---
 lib/libloong/elf_loader.cpp |  1 +
 lib/libloong/machine.cpp    | 10 ++++++++++
 lib/libloong/memory.hpp     |  2 ++
 3 files changed, 13 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 21521c2..c865480 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -162,6 +162,7 @@ void Memory::binary_loader(const MachineOptions& options)
 	// Allocate stack from mmap region (grows downward from top)
 	// m_stack_address is the TOP of the stack (highest address)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
+	this->m_stack_begin = stack_base;
 	this->m_stack_address = stack_base + options.stack_size;
 	this->m_mmap_begin = this->m_mmap_address;
 
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 7a3bfe8..ce44227 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -73,6 +73,16 @@ namespace loongarch
 		address_t sp = cpu.reg(REG_SP);
 		sp &= ~address_t(15);
 
+		// Everything has to fit on the stack: what lies below is the program's own
+		address_t total = 512; // Auxiliary vector, random bytes, terminators and alignment
+		for (const auto& e : env) total += e.size() + 1 + sizeof(address_t);
+		for (const auto& arg : args) total += arg.size() + 1 + sizeof(address_t);
+		const address_t stack_begin = memory.stack_begin();
+		if (total > sp || (sp > stack_begin && sp - total < stack_begin)) {
+			throw MachineException(OUT_OF_MEMORY,
+				"Arguments and environment do not fit on the stack", total);
+		}
+
 		// Push environment variables
 		std::vector<address_t> env_ptrs;
 		for (const auto& e : env) {
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8dc4363..e3b5602 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -62,6 +62,7 @@ namespace loongarch
 		const auto& binary() const noexcept { return m_binary; }
 		address_t start_address() const noexcept { return m_start_address; }
 		address_t stack_address() const noexcept { return m_stack_address; }
+		address_t stack_begin() const noexcept { return m_stack_begin; }
 		void set_stack_address(address_t addr) noexcept { m_stack_address = addr; }
 		address_t exit_address() const noexcept { return m_exit_address; }
 		void set_exit_address(address_t addr) noexcept { m_exit_address = addr; }
@@ -122,6 +123,7 @@ namespace loongarch
 		// Memory layout
 		address_t m_start_address = 0;
 		address_t m_stack_address = 0;
+		address_t m_stack_begin = 0;   // The other end of the stack, if it is ours
 		address_t m_exit_address = 0;
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
-- 
2.43.0


From 3afddd339462275021d638c19351e2187f8ab1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:51 +0000
Subject: [PATCH 35/51] fix: an executable with several executable segments
 could only run code in the last one

---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index c865480..3b145b7 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -254,7 +254,7 @@ void Memory::binary_loader(const MachineOptions& options)
 
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 3d6af4b30a89c67ecaa8c7e368362b5bdf2fce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 36/51] fix: code in executable sections other than .text and
 .iplt could not be run

---
 lib/libloong/elf.hpp        |   3 ++
 lib/libloong/elf_loader.cpp | 100 ++++++++++--------------------------
 2 files changed, 30 insertions(+), 73 deletions(-)

diff --git a/lib/libloong/elf.hpp b/lib/libloong/elf.hpp
index 3bff505..b35b947 100644
--- a/lib/libloong/elf.hpp
+++ b/lib/libloong/elf.hpp
@@ -84,6 +84,9 @@ namespace loongarch
 	static constexpr uint32_t PF_W = 2;
 	static constexpr uint32_t PF_R = 4;
 
+	// Section header flags
+	static constexpr uint64_t SHF_EXECINSTR = 4;
+
 	// Section header types
 	static constexpr uint32_t SHT_NULL = 0;
 	static constexpr uint32_t SHT_SYMTAB = 2;
diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 3b145b7..19cdd95 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -12,12 +12,14 @@ struct TextSegmentBounds {
 	bool found = false;
 };
 
-static TextSegmentBounds find_text_section(std::string_view binary, const Elf::Header* ehdr)
+// The range of all executable sections within a segment
+static TextSegmentBounds find_executable_sections(
+	std::string_view binary, const Elf::Header* ehdr, address_t seg_start, address_t seg_end)
 {
 	TextSegmentBounds bounds;
 
-	// Need section headers to find .text
-	if (ehdr->shoff == 0 || ehdr->shnum == 0 || ehdr->shstrndx >= ehdr->shnum) {
+	// Need section headers to find executable sections
+	if (ehdr->shoff == 0 || ehdr->shnum == 0) {
 		return bounds;
 	}
 
@@ -27,65 +29,25 @@ static TextSegmentBounds find_text_section(std::string_view binary, const Elf::H
 		return bounds;
 	}
 
-	// Get section string table
-	const auto* shstrtab = reinterpret_cast<const Elf::SectionHeader*>(
-		binary.data() + ehdr->shoff + ehdr->shstrndx * sizeof(Elf::SectionHeader));
-
-	if (shstrtab->offset + shstrtab->size >= binary.size()) {
-		return bounds;
-	}
-
-	const char* section_strings = reinterpret_cast<const char*>(binary.data() + shstrtab->offset);
-
-	// Find .text and .iplt sections
+	address_t bounds_end = 0;
 	for (size_t i = 0; i < ehdr->shnum; i++) {
 		const auto* shdr = reinterpret_cast<const Elf::SectionHeader*>(
 			binary.data() + ehdr->shoff + i * sizeof(Elf::SectionHeader));
+		const address_t start = shdr->addr;
+		const address_t end = shdr->addr + shdr->size;
 
-		if (shdr->name < shstrtab->size) {
-			// Verify that the name fits within the string table
-			// in a secure way, by using the actual bounds of the
-			// underlying binary, and not the insecure ELF header.
-			const address_t name_offset = shstrtab->offset + shdr->name;
-			if (name_offset >= binary.size() || name_offset < shstrtab->offset) {
-				continue;
-			}
-			const address_t name_end = name_offset + 6; // ".text" + null terminator
-			if (name_end > binary.size() || name_end < name_offset) {
-				continue;
-			}
-			const char* name = section_strings + shdr->name;
-			if (strcmp(name, ".text") == 0 && shdr->size > 0) {
-				bounds.start = shdr->addr;
-				bounds.size = shdr->size;
-				bounds.found = true;
-				return bounds;
-			} else if (strcmp(name, ".iplt") == 0 && shdr->size > 0) {
-				// .iplt section comes before .text, check if next section is .text
-				if (i + 1 < ehdr->shnum) {
-					const auto* next_shdr = reinterpret_cast<const Elf::SectionHeader*>(
-						binary.data() + ehdr->shoff + (i + 1) * sizeof(Elf::SectionHeader));
-					if (next_shdr->name < shstrtab->size) {
-						const address_t next_name_offset = shstrtab->offset + next_shdr->name;
-						if (next_name_offset >= binary.size() || next_name_offset < shstrtab->offset) {
-							continue;
-						}
-						const address_t next_name_end = next_name_offset + 6; // ".text" + null terminator
-						if (next_name_end > binary.size() || next_name_end < next_name_offset) {
-							continue;
-						}
-						const char* next_name = section_strings + next_shdr->name;
-						if (strcmp(next_name, ".text") == 0 && next_shdr->size > 0) {
-							bounds.start = shdr->addr;
-							bounds.size = next_shdr->size + (next_shdr->addr - shdr->addr);
-							bounds.found = true;
-							return bounds;
-						}
-					}
-				}
-			}
+		// Not only .text: there is also .iplt, and programs can name sections as they like
+		if (!(shdr->flags & Elf::SHF_EXECINSTR) || shdr->size == 0 || start % 4 != 0) {
+			continue;
 		}
+		if (start < seg_start || end > seg_end || end < start) {
+			continue;
+		}
+		bounds.start = bounds.found ? std::min(bounds.start, start) : start;
+		bounds_end = std::max(bounds_end, end);
+		bounds.found = true;
 	}
+	bounds.size = bounds_end - bounds.start;
 
 	return bounds;
 }
@@ -204,9 +166,6 @@ void Memory::binary_loader(const MachineOptions& options)
 			(unsigned long)arena_size / (1024 * 1024));
 	}
 
-	// Find .text section bounds to limit execute segment creation
-	const TextSegmentBounds text_bounds = find_text_section(m_binary, ehdr);
-
 	// Load segments into memory
 	for (size_t i = 0; i < ehdr->phnum; i++) {
 		const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
@@ -233,22 +192,17 @@ void Memory::binary_loader(const MachineOptions& options)
 				size_t exec_size = phdr->filesz & ~size_t(3);
 				size_t file_offset = phdr->offset;
 
-				// Use .text section bounds if available to avoid translating data
+				// Use the bounds of executable sections if available to avoid translating data
+				const TextSegmentBounds text_bounds = find_executable_sections(
+					m_binary, ehdr, phdr->vaddr, phdr->vaddr + phdr->filesz);
 				if (text_bounds.found) {
-					// Check if .text section is within this segment
-					const address_t seg_start = phdr->vaddr;
-					const address_t seg_end = phdr->vaddr + phdr->filesz;
-					const address_t text_end = text_bounds.start + text_bounds.size;
-
-					if (text_bounds.start >= seg_start && text_end <= seg_end && text_end >= text_bounds.start) {
-						exec_vaddr = text_bounds.start;
-						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
-						file_offset = phdr->offset + (text_bounds.start - seg_start);
+					exec_vaddr = text_bounds.start;
+					exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
+					file_offset = phdr->offset + (text_bounds.start - phdr->vaddr);
 
-						if (options.verbose_loader) {
-							fprintf(stderr, "Creating execute segment for .text section: vaddr=0x%lx size=0x%lx\n",
-								(unsigned long)exec_vaddr, (unsigned long)exec_size);
-						}
+					if (options.verbose_loader) {
+						fprintf(stderr, "Creating execute segment for executable sections: vaddr=0x%lx size=0x%lx\n",
+							(unsigned long)exec_vaddr, (unsigned long)exec_size);
 					}
 				}
 
-- 
2.43.0


From 3dfac90c383072ab441387e8dc32efdeb60b9b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:55 +0000
Subject: [PATCH 37/51] fix: the program headers' address given to the guest
 assumed that the lowest segment begins with the ELF header

---
 lib/libloong/elf_loader.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 19cdd95..314eecb 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -71,7 +71,7 @@ void Memory::binary_loader(const MachineOptions& options)
 	// Store ELF header info for auxiliary vector
 	this->m_elf_phentsize = sizeof(Elf::ProgramHeader);
 	this->m_elf_phnum = ehdr->phnum;
-	// phdr address will be set after we know the base address
+	// phdr address will be set when we find the segment that contains it
 	if (ehdr->phnum == 0 || ehdr->phentsize != sizeof(Elf::ProgramHeader) || ehdr->phnum > 256) {
 		throw MachineException(INVALID_PROGRAM, "Invalid program headers in ELF file");
 	}
@@ -94,6 +94,11 @@ void Memory::binary_loader(const MachineOptions& options)
 			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
+			// The program headers are found in the segment that loads them, if any does
+			if (ehdr->phoff >= phdr->offset && phdr->filesz >= elf_phdr_end_address - ehdr->phoff
+				&& ehdr->phoff - phdr->offset <= phdr->filesz - (elf_phdr_end_address - ehdr->phoff)) {
+				this->m_elf_phdr_addr = start + (ehdr->phoff - phdr->offset);
+			}
 			min_addr = std::min(min_addr, start);
 			max_addr = std::max(max_addr, end);
 			if ((phdr->flags & Elf::PF_W) && start < first_writable) {
@@ -111,10 +116,6 @@ void Memory::binary_loader(const MachineOptions& options)
 	this->m_rodata_start = min_addr;
 	this->m_data_start = (first_writable != ~address_t(0)) ? first_writable : max_addr;
 
-	// Set phdr address - it's at base + phoff
-	// For statically linked binaries, phdr is at the file offset from the base
-	this->m_elf_phdr_addr = min_addr + ehdr->phoff;
-
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
 	// mmap starts at end of brk and grows upward
-- 
2.43.0


From 8ded3f6c588f5888ab624113360fe8b5d067bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 38/51] fix: the tail-call dispatchers lost exceptions, limits
 and program counters that the threaded ones keep

---
 lib/libloong/tailcall_dispatch.cpp            | 62 ++++++++++++-------
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 45 +++++++++-----
 2 files changed, 69 insertions(+), 38 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 37f2527..7f34ce5 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -65,11 +65,7 @@ namespace loongarch {
 		printf("TRACE: NEXT_BLOCK PC=0x%lx to 0x%lx (offset %ld)\n", pc, pc+offset, long(offset)); \
 	} \
 	pc += (offset); \
-	d = exec->pc_relative_decoder_cache(pc); \
-	OVERFLOW_CHECK(); \
-	QUICK_EXEC_CHECK() \
-	BEGIN_BLOCK() \
-	EXECUTE_CURRENT()
+	OVERFLOW_CHECKED_JUMP()
 
 #define NEXT_BLOCK_UNCHECKED(len) \
 	pc += (len); \
@@ -79,7 +75,9 @@ namespace loongarch {
 
 #define QUICK_EXEC_CHECK() \
 	if (LA_UNLIKELY(!(pc >= exec->exec_begin() && pc < exec->exec_end()))) \
-		MUSTTAIL return next_execute_segment(d, exec, cpu, pc, counter);
+		MUSTTAIL return next_execute_segment(d, exec, cpu, pc, counter); \
+	if (LA_UNLIKELY(pc & 0x3)) \
+		misaligned_instruction(cpu, pc);
 
 #define UNCHECKED_JUMP() \
 	QUICK_EXEC_CHECK() \
@@ -107,8 +105,15 @@ namespace loongarch {
 
 namespace loongarch
 {
+	[[noreturn]] static void misaligned_instruction(CPU& cpu, address_t pc)
+	{
+		cpu.registers().pc = pc;
+		cpu.trigger_exception(MISALIGNED_INSTRUCTION, pc);
+	}
+
 	static inline DecodedExecuteSegment* resolve_execute_segment(CPU& cpu, address_t& pc)
 	{
+		cpu.registers().pc = pc;
 		auto results = cpu.next_execute_segment(pc);
 		pc = results.pc;
 		return results.exec;
@@ -126,6 +131,8 @@ namespace loongarch
 		(void) d;
 		pc += 4; // Complete STOP instruction
 		counter.stop();
+		// The guest stopped by itself: the limit was not reached
+		MACHINE().set_max_instructions(UINT64_MAX);
 		return RETURN_VALUES();
 	}
 
@@ -137,27 +144,26 @@ namespace loongarch
 		counter.apply(MACHINE());
 		// Invoke system call
 		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
-		// Restore counters
-		counter.retrieve_counters(MACHINE());
+		// Restore max counter (the machine can be stopped by a system call)
+		counter.retrieve_max_counter(MACHINE());
 		// System calls can change PC
-		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		if (LA_UNLIKELY(counter.max() == 0 || pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			OVERFLOW_CHECKED_JUMP();
 		}
-		NEXT_BLOCK(4);
+		NEXT_BLOCK_UNCHECKED(4);
 	}
 
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
-		VIEW_INSTR();
 		// Make the current PC visible
 		cpu.registers().pc = pc;
 		counter.apply(MACHINE());
 		// Execute syscall from verified immediate
 		cpu.machine().system_call(d->instr);
 		// Restore max counter
-		counter.retrieve_counters(MACHINE());
+		counter.retrieve_max_counter(MACHINE());
 		// Return immediately using REG_RA
 		pc = REG(REG_RA);
 		OVERFLOW_CHECKED_JUMP();
@@ -167,6 +173,8 @@ namespace loongarch
 	{
 		// Helper function to change execute segment
 		exec = resolve_execute_segment(cpu, pc);
+		if (LA_UNLIKELY(pc & 0x3))
+			misaligned_instruction(cpu, pc);
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
 		EXECUTE_CURRENT();
@@ -190,27 +198,39 @@ namespace loongarch
 
 	bool CPU::simulate(address_t pc, uint64_t inscounter, uint64_t maxcounter)
 	{
+		machine().set_max_instructions(UINT64_MAX);
+		machine().set_instruction_counter(inscounter);
+
 		InstrCounter counter{inscounter, maxcounter};
 
 		auto* exec = this->m_exec;
+		auto& cpu = *this;
+		bool runnable = true;
 
 		// We need an execute segment matching current PC
 		if (LA_UNLIKELY(!exec->is_within(pc)))
 		{
-			auto results = this->next_execute_segment(pc);
-			exec = results.exec;
-			pc = results.pc;
+			exec = resolve_execute_segment(cpu, pc);
+			runnable = !counter.overflowed();
 		}
 
-		auto* d = exec->pc_relative_decoder_cache(pc);
-		auto& cpu = *this;
+		if (LA_LIKELY(runnable))
+		{
+			if (LA_UNLIKELY(pc & 0x3))
+				misaligned_instruction(cpu, pc);
 
-		BEGIN_BLOCK();
+			auto* d = exec->pc_relative_decoder_cache(pc);
+
+			BEGIN_BLOCK();
 
-		const address_t new_pc = EXECUTE_INSTR();
+			pc = EXECUTE_INSTR();
+		}
 
-		cpu.registers().pc = new_pc;
+		cpu.registers().pc = pc;
 		MACHINE().set_instruction_counter(counter.value());
+		if (counter.max() != 0)
+			MACHINE().set_instruction_limit_reached();
+		MACHINE().deliver_current_exception();
 
 		// Machine stopped normally?
 		return counter.max() == 0;
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 51058a3..270c8da 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -62,10 +62,7 @@ namespace loongarch {
 		printf("TRACE: NEXT_BLOCK PC=0x%lx to 0x%lx (offset %ld)\n", pc, pc+offset, long(offset)); \
 	} \
 	pc += (offset); \
-	d = exec->pc_relative_decoder_cache(pc); \
-	QUICK_EXEC_CHECK() \
-	BEGIN_BLOCK() \
-	EXECUTE_CURRENT()
+	UNCHECKED_JUMP()
 
 #define NEXT_BLOCK_UNCHECKED(len) \
 	pc += (len); \
@@ -75,7 +72,9 @@ namespace loongarch {
 
 #define QUICK_EXEC_CHECK() \
 	if (LA_UNLIKELY(!(pc >= exec->exec_begin() && pc < exec->exec_end()))) \
-		MUSTTAIL return next_execute_segment(d, exec, cpu, pc);
+		MUSTTAIL return next_execute_segment(d, exec, cpu, pc); \
+	if (LA_UNLIKELY(pc & 0x3)) \
+		misaligned_instruction(cpu, pc);
 
 #define UNCHECKED_JUMP() \
 	QUICK_EXEC_CHECK() \
@@ -94,8 +93,15 @@ namespace loongarch {
 
 namespace loongarch
 {
+	[[noreturn]] static void misaligned_instruction(CPU& cpu, address_t pc)
+	{
+		cpu.registers().pc = pc;
+		cpu.trigger_exception(MISALIGNED_INSTRUCTION, pc);
+	}
+
 	static inline DecodedExecuteSegment* resolve_execute_segment(CPU& cpu, address_t& pc)
 	{
+		cpu.registers().pc = pc;
 		auto results = cpu.next_execute_segment(pc);
 		pc = results.pc;
 		return results.exec;
@@ -119,14 +125,15 @@ namespace loongarch
 	{
 		// Make the current PC visible
 		cpu.registers().pc = pc;
+		MACHINE().set_max_instructions(UINT64_MAX);
 		// Invoke system call
 		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
-		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
-			return RETURN_VALUES();
 		// System calls can change PC
-		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0 || pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
+			if (cpu.machine().max_instructions() == 0)
+				return RETURN_VALUES();
 			UNCHECKED_JUMP();
 		}
 		NEXT_BLOCK_UNCHECKED(4);
@@ -134,9 +141,9 @@ namespace loongarch
 
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
-		VIEW_INSTR();
 		// Make the current PC visible
 		cpu.registers().pc = pc;
+		MACHINE().set_max_instructions(UINT64_MAX);
 		// Execute syscall from verified immediate
 		cpu.machine().system_call(d->instr);
 		// Return immediately using REG_RA
@@ -150,6 +157,8 @@ namespace loongarch
 	{
 		// Helper function to change execute segment
 		exec = resolve_execute_segment(cpu, pc);
+		if (LA_UNLIKELY(pc & 0x3))
+			misaligned_instruction(cpu, pc);
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
 		EXECUTE_CURRENT();
@@ -173,26 +182,28 @@ namespace loongarch
 
 	void CPU::simulate_inaccurate(address_t pc)
 	{
-		machine().set_max_instructions(~0ull);
+		// Without a limit: forget that an earlier run has reached its limit
+		if (machine().instruction_limit_reached())
+			machine().set_max_instructions(UINT64_MAX);
 
 		auto* exec = this->m_exec;
+		auto& cpu = *this;
 
 		// We need an execute segment matching current PC
 		if (LA_UNLIKELY(!exec->is_within(pc)))
-		{
-			auto results = this->next_execute_segment(pc);
-			exec = results.exec;
-			pc = results.pc;
-		}
+			exec = resolve_execute_segment(cpu, pc);
+
+		if (LA_UNLIKELY(pc & 0x3))
+			misaligned_instruction(cpu, pc);
 
 		auto* d = exec->pc_relative_decoder_cache(pc);
-		auto& cpu = *this;
 
 		BEGIN_BLOCK();
 
 		const address_t new_pc = EXECUTE_INSTR();
 
 		cpu.registers().pc = new_pc;
+		machine().deliver_current_exception();
 	}
 
 } // loongarch
-- 
2.43.0


From a7695c0abbccfbd8d03cb4c3addf26822888c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 39/51] fix: rt_sigaction used a structure with sa_restorer,
 which LoongArch does not have: masks were lost and 8 bytes behind the guest's
 structure overwritten

---
 lib/libloong/linux/syscalls.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 05c29de..9be667f 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -396,11 +396,10 @@ namespace loongarch
 		}
 		auto& sigact = machine.sigaction(sig);
 
-		// Kernel sigaction structure (64-bit)
+		// Kernel sigaction structure (LoongArch has no sa_restorer)
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
@@ -410,7 +409,6 @@ namespace loongarch
 		if (old_action != 0x0) {
 			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler;
 			sa.sa_flags   = sigact.flags;
-			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
 		}
-- 
2.43.0


From 6496e89b605ed96addca97508f16114c4c8b0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 40/51] fix: a system call's uint8_t, uint16_t or enum result
 did not reach the guest as given

---
 lib/libloong/machine_inline.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index 6248ff1..e57102e 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -42,11 +42,14 @@ namespace loongarch
 	inline void Machine::set_result(const T& value)
 	{
 		if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
-			if constexpr (sizeof(T) < sizeof(address_t) && !std::is_same_v<T, bool>)
-				// Sign-extend all arguments smaller than the word size
-				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<std::make_signed_t<T>>(value));
+			// 32-bit results are sign-extended (also unsigned ones), smaller ones keep their value
+			if constexpr (sizeof(T) == 4)
+				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<int32_t>(value));
 			else
 				cpu.reg(REG_A0) = static_cast<address_t>(value);
+		} else if constexpr (std::is_enum_v<remove_cvref_t<T>>) {
+			// Enums are treated as their underlying integer type
+			set_result(static_cast<std::underlying_type_t<T>>(value));
 		} else if constexpr (std::is_floating_point_v<remove_cvref_t<T>>) {
 			if constexpr (sizeof(T) == 4) {
 				cpu.registers().getfl32(REG_FA0) = static_cast<float>(value);
-- 
2.43.0


From 8621186057847d0d1445cc94b210d9c9dee84bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 41/51] fix: an unhandled system call made with an immediate
 number was reported with the number in A7

---
 lib/libloong/machine.cpp        | 11 +++++++----
 lib/libloong/machine.hpp        |  2 ++
 lib/libloong/machine_inline.hpp |  6 ++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index ce44227..53e1bbb 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -22,10 +22,7 @@ namespace loongarch
 					"Unimplemented system call", sysnum);
 			};
 			for (auto& handler : m_syscall_handlers) {
-				handler.store([](Machine& m) {
-					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
-					m_unknown_syscall_handler(m, sysnum);
-				}, std::memory_order_relaxed);
+				handler.store(unhandled_system_call, std::memory_order_relaxed);
 			}
 		});
 	}
@@ -40,6 +37,12 @@ namespace loongarch
 	{
 	}
 
+	void Machine::unhandled_system_call(Machine& m)
+	{
+		const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
+		m_unknown_syscall_handler(m, sysnum);
+	}
+
 	void Machine::set_options(const std::shared_ptr<MachineOptions> options)
 	{
 		this->m_options = std::move(options);
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5abf3f0..73018d6 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -193,6 +193,8 @@ namespace loongarch
 		// Shared by all machines, also those on other threads
 		static inline std::array<std::atomic<syscall_t*>, LA_SYSCALLS_MAX> m_syscall_handlers = {};
 		static inline unknown_syscall_t* m_unknown_syscall_handler = nullptr;
+		// In the place of all handlers that have not been installed
+		static void unhandled_system_call(Machine& m);
 		static inline rdtime_callback_t* m_rdtime_handler = nullptr;
 
 		void push_argument(address_t& sp, address_t value);
diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index e57102e..15e0f66 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -13,8 +13,10 @@ namespace loongarch
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
 			auto* handler = m_syscall_handlers[syscall_number].load(std::memory_order_relaxed);
-			handler(*this);
-			return;
+			if (LA_LIKELY(handler != unhandled_system_call)) {
+				handler(*this);
+				return;
+			}
 		}
 		// Call unknown syscall handler if registered
 		m_unknown_syscall_handler(*this, syscall_number);
-- 
2.43.0


From 6d19894b8841ca4ead4ae6b916eb4251c2d73817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 42/51] fix: system call handlers installed before the first
 machine was made were lost

---
 lib/libloong/machine.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 53e1bbb..0acf1ec 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -15,14 +15,18 @@ namespace loongarch
 	{
 		cpu.reset();  // Reset CPU after memory is loaded
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
+		// but for those that the host has installed already
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
-			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
-				throw MachineException(UNIMPLEMENTED_SYSCALL,
-					"Unimplemented system call", sysnum);
-			};
+			if (m_unknown_syscall_handler == nullptr) {
+				m_unknown_syscall_handler = [](Machine& m, int sysnum) {
+					throw MachineException(UNIMPLEMENTED_SYSCALL,
+						"Unimplemented system call", sysnum);
+				};
+			}
 			for (auto& handler : m_syscall_handlers) {
-				handler.store(unhandled_system_call, std::memory_order_relaxed);
+				if (handler.load(std::memory_order_relaxed) == nullptr)
+					handler.store(unhandled_system_call, std::memory_order_relaxed);
 			}
 		});
 	}
-- 
2.43.0


From 709e6208d6f5d5c8f68ee22005d6eec6f96a1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 43/51] fix: a debugging run's instruction limit counted the
 instructions of earlier runs

---
 lib/libloong/debug.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..bb237e7 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -8,6 +8,8 @@ namespace loongarch
 {
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
+		// The limit counts from here, as in Machine::simulate
+		this->machine.set_instruction_counter(0);
 		this->machine.set_max_instructions(max_instructions);
 		while (!this->machine.stopped()) {
 			if (this->verbose_instructions)
-- 
2.43.0


From 0bd005178180f4e9c66fd9405428d6ec7bb43710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 44/51] fix: a debugging run did not deliver an exception
 posted by a system call handler

---
 lib/libloong/debug.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index bb237e7..74d119a 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -22,6 +22,7 @@ namespace loongarch
 			if (this->verbose_registers)
 				print_registers();
 		}
+		this->machine.deliver_current_exception();
 	}
 
 	void DebugMachine::decode_and_compare()
-- 
2.43.0


From d22eb29823d742e9b66ecc0ab6bc3a1375037d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:52 +0000
Subject: [PATCH 45/51] fix: laemu took options behind the program's name,
 which are the guest's, for its own

---
 emulator/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 01d7ce0..31d8bf6 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -323,7 +323,7 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 	};
 
 	int opt;
-	while ((opt = getopt_long(argc, argv, "hvstf:m:nTO:", long_options, nullptr)) != -1) {
+	while ((opt = getopt_long(argc, argv, "+hvstf:m:nTO:", long_options, nullptr)) != -1) {
 		switch (opt) {
 		case 'h':
 			print_help(argv[0]);
-- 
2.43.0


From 3bedb2bfde0f5f6112e5c63834faa2b4b602d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:52 +0000
Subject: [PATCH 46/51] fix: laemu reported success for a 32-bit executable,
 which it cannot run

---
 emulator/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 31d8bf6..1ed72fa 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -484,6 +484,7 @@ int main(int argc, char* argv[])
 		// Run program with detected architecture
 		if (is_32bit) {
 			fprintf(stderr, "Error: 32-bit LoongArch is not supported!\n");
+			return 1;
 		} else { // is_64bit
 			return run_program(binary, opts);
 		}
-- 
2.43.0


From 117ab8c70f099c0adeb39a1f6abe6e7720886061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:52 +0000
Subject: [PATCH 47/51] fix: laemu crashed when the memory asked for could not
 be had

---
 emulator/src/main.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 1ed72fa..b6129f2 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -136,6 +136,9 @@ static int run_program(const std::vector<uint8_t>& binary, const EmulatorOptions
 	void* arena_ptr = _aligned_malloc(custom_arena.total_size, 4096u);
 #else
 	void* arena_ptr = mmap(nullptr, custom_arena.total_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+	if (arena_ptr == MAP_FAILED) {
+		arena_ptr = nullptr;
+	}
 #endif
 	if (!arena_ptr) {
 		throw std::runtime_error("Failed to allocate custom arena with aligned_alloc");
@@ -345,7 +348,12 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 			}
 			break;
 		case 'm':
-			opts.memory_max = strtoull(optarg, nullptr, 10) << 20; // Convert MiB to bytes
+			opts.memory_max = strtoull(optarg, nullptr, 10);
+			if (opts.memory_max > (UINT64_MAX >> 21)) {
+				fprintf(stderr, "Error: Memory size too large: %s\n", optarg);
+				exit(1);
+			}
+			opts.memory_max <<= 20; // Convert MiB to bytes
 			break;
 		case 'n':
 			opts.enable_translation = false;
-- 
2.43.0


From 5ec9ec02e7cd95afe8b064bf3c12b2862d7f586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 48/51] fix: with guest threads, a guest that calls abort()
 ended as if it had exited normally

---
 lib/libloong/linux/syscalls_threads.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 54f1566..34da8d3 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -164,6 +164,9 @@ namespace loongarch
 			const bool myself = (thread == machine.threads().get_thread());
 			// If the signal is unhandled, exit the thread
 			if (machine.sigaction(sig).is_unset()) {
+				// No handler - program called abort(), terminate
+				if (sig == 6)
+					throw MachineException(GUEST_ABORT, "Program aborted via abort()");
 				if (thread->exit())
 					machine.stop();
 				else if (!myself)
-- 
2.43.0


From 2b68cb48633dc7a5b97e9858148670e658ff27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 49/51] fix: laemu was aborted when memory ran out while it
 read its command line

---
 emulator/src/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index b6129f2..e351a79 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -457,9 +457,9 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 
 int main(int argc, char* argv[])
 {
-	EmulatorOptions opts = parse_arguments(argc, argv);
-
 	try {
+		EmulatorOptions opts = parse_arguments(argc, argv);
+
 		// Load binary
 		auto binary = load_file(opts.binary_path.c_str());
 
-- 
2.43.0


From cb128ab7fa4cf803c5df812371aa3cf930a82efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:27 +0000
Subject: [PATCH 50/51] fix: the debugger's function call put its ninth and
 further arguments into the wrong registers

---
 lib/libloong/debug.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 74d119a..6fa342a 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -181,10 +181,18 @@ namespace loongarch
 		// Push arguments onto stack
 		address_t sp = this->machine.memory.stack_address();
 		int reg = 0;
+		std::vector<address_t> stack_args;
 		for (const auto& argument : arguments) {
 			address_t arg_addr = this->machine.stack_push(sp, argument.c_str(), argument.size() + 1);
-			this->machine.cpu.reg(REG_A0 + reg++) = arg_addr;
+			if (reg < 8)
+				this->machine.cpu.reg(REG_A0 + reg++) = arg_addr;
+			else
+				stack_args.push_back(arg_addr);
 		}
+		// The first stack argument is found at the stack pointer
+		sp &= ~address_t(0xF);
+		if (!stack_args.empty())
+			this->machine.stack_push(sp, stack_args.data(), stack_args.size() * sizeof(address_t));
 		this->machine.cpu.reg(REG_SP) = sp;
 		// Simulate with debugging
 		simulate(max_instructions);
-- 
2.43.0


From 2d1311543b42be0de75541b764424c66158b9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:50 +0000
Subject: [PATCH 51/51] fix: with masked memory, getrandom with a huge length
 kept the host busy for ever

---
 lib/libloong/linux/syscalls.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 9be667f..6753b19 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -561,8 +561,12 @@ namespace loongarch
 		// int flags = machine.cpu.reg(REG_A2);
 
 		// Fill buffer with pseudo-random data
-		for (size_t i = 0; i < buflen; i++) {
-			machine.memory.template write<uint8_t>(buf_addr + i, static_cast<uint8_t>(i * 17 + 31));
+		if (buflen > 0) {
+			// The buffer is known to fit before anything is written to it
+			auto* buffer = machine.memory.template writable_memarray<uint8_t>(buf_addr, buflen);
+			for (size_t i = 0; i < buflen; i++) {
+				buffer[i] = static_cast<uint8_t>(i * 17 + 31);
+			}
 		}
 
 		machine.set_result(buflen);
-- 
2.43.0

