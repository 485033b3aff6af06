// Minimal LoongArch assembler for generated guest programs.
#pragma once
#include "core.hpp"
namespace la {
using namespace sim;
enum : u32 { ZERO = 0, RA = 1, TP = 2, SP = 3, A0 = 4, A1, A2, A3, A4, A5, A6, A7, T0, T1, T2, T3, T4, T5, T6, T7, T8, R21, FP, S0, S1, S2, S3, S4, S5, S6, S7, S8 };
inline u32 i12(u32 op, u32 rd, u32 rj, i64 imm) { return op | (u32(imm) & 0xfff) << 10 | rj << 5 | rd; }
inline u32 r3(u32 op, u32 rd, u32 rj, u32 rk) { return op | rk << 10 | rj << 5 | rd; }
inline u32 addi_d(u32 rd, u32 rj, i64 v) { return i12(0x02c00000, rd, rj, v); }
inline u32 addi_w(u32 rd, u32 rj, i64 v) { return i12(0x02800000, rd, rj, v); }
inline u32 ori(u32 rd, u32 rj, i64 v) { return i12(0x03800000, rd, rj, v); }
inline u32 andi(u32 rd, u32 rj, i64 v) { return i12(0x03400000, rd, rj, v); }
inline u32 xori(u32 rd, u32 rj, i64 v) { return i12(0x03c00000, rd, rj, v); }
inline u32 lu12i_w(u32 rd, u32 v) { return 0x14000000 | (v & 0xfffff) << 5 | rd; }
inline u32 lu32i_d(u32 rd, u32 v) { return 0x16000000 | (v & 0xfffff) << 5 | rd; }
inline u32 lu52i_d(u32 rd, u32 rj, u32 v) { return i12(0x03000000, rd, rj, v); }
inline u32 add_d(u32 rd, u32 rj, u32 rk) { return r3(0x00108000, rd, rj, rk); }
inline u32 sub_d(u32 rd, u32 rj, u32 rk) { return r3(0x00118000, rd, rj, rk); }
inline u32 or_(u32 rd, u32 rj, u32 rk) { return r3(0x00150000, rd, rj, rk); }
inline u32 xor_(u32 rd, u32 rj, u32 rk) { return r3(0x00158000, rd, rj, rk); }
inline u32 mul_d(u32 rd, u32 rj, u32 rk) { return r3(0x001d8000, rd, rj, rk); }
inline u32 move(u32 rd, u32 rj) { return or_(rd, rj, 0); }
inline u32 nop() { return 0x03400000; }
inline u32 ld_d(u32 rd, u32 rj, i64 v) { return i12(0x28c00000, rd, rj, v); }
inline u32 ld_w(u32 rd, u32 rj, i64 v) { return i12(0x28800000, rd, rj, v); }
inline u32 ld_bu(u32 rd, u32 rj, i64 v) { return i12(0x2a000000, rd, rj, v); }
inline u32 st_d(u32 rd, u32 rj, i64 v) { return i12(0x29c00000, rd, rj, v); }
inline u32 st_w(u32 rd, u32 rj, i64 v) { return i12(0x29800000, rd, rj, v); }
inline u32 st_b(u32 rd, u32 rj, i64 v) { return i12(0x29000000, rd, rj, v); }
inline u32 syscall(u32 n = 0) { return 0x002b0000 | n; }
inline u32 brk_(u32 n = 0) { return 0x002a0000 | n; }
inline u32 stop() { return 0x00150000; }
inline u32 jirl(u32 rd, u32 rj, i64 off) { return 0x4c000000 | (u32(off >> 2) & 0xffff) << 10 | rj << 5 | rd; }
inline u32 ret() { return jirl(0, RA, 0); }
inline u32 b26(u32 op, i64 off) { u32 v = u32(off >> 2); return op | (v & 0xffff) << 10 | ((v >> 16) & 0x3ff); }
inline u32 b(i64 off) { return b26(0x50000000, off); }
inline u32 bl(i64 off) { return b26(0x54000000, off); }
inline u32 b21(u32 op, u32 rj, i64 off) { u32 v = u32(off >> 2); return op | (v & 0xffff) << 10 | rj << 5 | ((v >> 16) & 0x1f); }
inline u32 beqz(u32 rj, i64 off) { return b21(0x40000000, rj, off); }
inline u32 bnez(u32 rj, i64 off) { return b21(0x44000000, rj, off); }
inline u32 bceqz(u32 cj, i64 off) { return b21(0x48000000, cj & 7, off); }
inline u32 bcnez(u32 cj, i64 off) { return b21(0x48000000, (cj & 7) | 8, off); }
inline u32 b16(u32 op, u32 rj, u32 rd, i64 off) { return op | (u32(off >> 2) & 0xffff) << 10 | rj << 5 | rd; }
// conditional branch kinds 0..5: beq bne blt bge bltu bgeu
inline u32 bcc(u32 kind, u32 rj, u32 rd, i64 off) { return b16(0x58000000 + (kind % 6) * 0x04000000, rj, rd, off); }
// 64-bit constant, always 4 instructions
inline void li(std::vector<u32>& c, u32 rd, u64 v) {
	c.push_back(lu12i_w(rd, u32(v >> 12)));
	c.push_back(ori(rd, rd, i64(v & 0xfff)));
	c.push_back(lu32i_d(rd, u32(v >> 32)));
	c.push_back(lu52i_d(rd, rd, u32(v >> 52)));
}
} // namespace la
