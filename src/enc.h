#pragma once
#include "iss.h"
#include <string>
#include <vector>
#include <algorithm>
static inline u32 R(u32 f7, u32 r2, u32 r1, u32 f3, u32 rd, u32 op = 0x33) { return f7 << 25 | r2 << 20 | r1 << 15 | f3 << 12 | rd << 7 | op; }
static inline u32 I(u32 imm, u32 r1, u32 f3, u32 rd, u32 op = 0x13) { return (imm & 0xFFF) << 20 | r1 << 15 | f3 << 12 | rd << 7 | op; }
static inline u32 S(u32 imm, u32 r2, u32 r1, u32 f3) { return ((imm >> 5) & 127) << 25 | r2 << 20 | r1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23; }
static inline u32 B(u32 imm, u32 r2, u32 r1, u32 f3) {
  return ((imm >> 12) & 1) << 31 | ((imm >> 5) & 63) << 25 | r2 << 20 | r1 << 15 | f3 << 12 | ((imm >> 1) & 15) << 8 | ((imm >> 11) & 1) << 7 | 0x63;
}
static inline u32 U(u32 imm20, u32 rd, u32 op) { return imm20 << 12 | rd << 7 | op; }
static inline u32 J(u32 imm, u32 rd) {
  return ((imm >> 20) & 1) << 31 | ((imm >> 1) & 1023) << 21 | ((imm >> 11) & 1) << 20 | ((imm >> 12) & 255) << 12 | rd << 7 | 0x6F;
}
static inline u32 CSR(u32 csr, u32 src, u32 f3, u32 rd) { return csr << 20 | src << 15 | f3 << 12 | rd << 7 | 0x73; }
enum : u32 { ECALL = 0x73, EBREAK = 0x100073, MRET = 0x30200073, WFI = 0x10500073, FENCE = 0x0FF0000F, NOP = 0x13 };
enum : u32 { MSTATUS = 0x300, MIE_ = 0x304, MTVEC = 0x305, MSCRATCH = 0x340, MEPC = 0x341, MCAUSE = 0x342, MIP_ = 0x344 };

struct OpDesc { const char* name; u32 f7, f3; };
static const OpDesc OPS[10] = {{"add", 0, 0}, {"sub", 0x20, 0}, {"sll", 0, 1}, {"slt", 0, 2}, {"sltu", 0, 3}, {"xor", 0, 4}, {"srl", 0, 5}, {"sra", 0x20, 5}, {"or", 0, 6}, {"and", 0, 7}};
static const OpDesc OPIS[6] = {{"addi", 0, 0}, {"slti", 0, 2}, {"sltiu", 0, 3}, {"xori", 0, 4}, {"ori", 0, 6}, {"andi", 0, 7}};
static const OpDesc SHIS[3] = {{"slli", 0, 1}, {"srli", 0, 5}, {"srai", 0x20, 5}};
static const OpDesc LOADS[5] = {{"lb", 1, 0}, {"lh", 2, 1}, {"lw", 4, 2}, {"lbu", 1, 4}, {"lhu", 2, 5}};
static const OpDesc STORES[3] = {{"sb", 1, 0}, {"sh", 2, 1}, {"sw", 4, 2}};
static const OpDesc BRS[6] = {{"beq", 0, 0}, {"bne", 0, 1}, {"blt", 0, 4}, {"bge", 0, 5}, {"bltu", 0, 6}, {"bgeu", 0, 7}};

// operand values: level 0 ~ 70, 1 ~ 200, 2 ~ 1200, 3 ~ 7000
static inline std::vector<u32> values(int level) {
  std::vector<u32> v = {0, 1, 2, 3, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF, 0x80000001, 0x55555555, 0xAAAAAAAA, 0x00FF00FF, 0xFF00FF00, 0x0000FFFF, 0xFFFF0000, 0x12345678, 0xDEADBEEF, 0x9E3779B9, 0x0F0F0F0F, 0xF0F0F0F0};
  auto add = [&](u32 x) { v.push_back(x); };
  for (int i = 0; i < 32; i++) {
    add(1u << i);
    if (level >= 0) add((1u << i) - 1);
    if (level >= 1) { add(~(1u << i)); add(0u - (1u << i)); add((1u << i) + 1); }
  }
  if (level >= 2)
    for (int i = 0; i < 32; i++) for (int j = 0; j < i; j++) { add(1u << i | 1u << j); add(~(1u << i | 1u << j)); }
  if (level >= 3)
    for (int i = 0; i < 32; i++) for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) { add(1u << i | 1u << j | 1u << k); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

struct Sym { u32 word; std::string name; u32 rdata = 0; u8 irq = 0; };
// Representative instruction forms over x1..x7; the driver keeps x8 as a data
// pointer. Every major opcode, every microcode routine, every trap source.
static inline std::vector<Sym> alphabet(bool traps = true, bool writes_ctl = false) {
  std::vector<Sym> a;
  auto p = [&](u32 w, const std::string& n, u32 rd = 0) { a.push_back({w, n, rd}); };
  for (auto& o : OPS) p(R(o.f7, 2, 1, o.f3, 3), std::string(o.name) + " x3,x1,x2");
  p(R(0, 3, 3, 0, 3), "add x3,x3,x3"); p(R(0x20, 3, 1, 0, 1), "sub x1,x1,x3"); p(R(0, 1, 3, 1, 2), "sll x2,x3,x1");
  p(R(0x20, 4, 3, 5, 3), "sra x3,x3,x4"); p(R(0, 0, 3, 5, 5), "srl x5,x3,x0"); p(R(0, 2, 1, 0, 0), "add x0,x1,x2");
  p(R(0x20, 0, 3, 5, 3), "sra x3,x3,x0"); p(R(0, 0, 1, 1, 1), "sll x1,x1,x0"); p(R(0x20, 4, 3, 5, 4), "sra x4,x3,x4");
  for (auto& o : OPIS) p(I(0x7D5, 3, o.f3, 1), std::string(o.name) + " x1,x3,0x7d5");
  p(I(0xFFF, 1, 0, 1), "addi x1,x1,-1"); p(I(0x801, 3, 0, 0), "addi x0,x3,-2047");
  for (auto& o : SHIS) { p(I(o.f7 << 5 | 0, 3, o.f3, 2), std::string(o.name) + " x2,x3,0"); p(I(o.f7 << 5 | 3, 1, o.f3, 3), std::string(o.name) + " x3,x1,3"); }
  p(U(0x89ABC, 3, 0x37), "lui x3"); p(U(0x12345, 2, 0x17), "auipc x2"); p(U(0xFFFFF, 0, 0x37), "lui x0");
  for (auto& o : LOADS) p(I(4, 8, o.f3, 3, 3), std::string(o.name) + " x3,4(x8)", 0x89C4D6E8);
  p(I(7, 8, 0, 2, 3), "lb x2,7(x8)", 0xF3000000); p(I(2, 8, 5, 1, 3), "lhu x1,2(x8)", 0xBEEF1234); p(I(0, 8, 2, 0, 3), "lw x0,0(x8)", 0xFFFFFFFF);
  for (auto& o : STORES) p(S(8, 3, 8, o.f3), std::string(o.name) + " x3,8(x8)");
  p(S(3, 1, 8, 0), "sb x1,3(x8)"); p(S(6, 2, 8, 1), "sh x2,6(x8)"); p(S(0, 0, 8, 2), "sw x0,0(x8)");
  for (auto& o : BRS) p(B(24, 2, 1, o.f3), std::string(o.name) + " x1,x2,+24");
  p(B(16, 0, 0, 0), "beq x0,x0,+16"); p(B(-32, 0, 0, 1), "bne x0,x0,-32"); p(B(-8, 0, 0, 5), "bge x0,x0,-8");
  p(J(40, 1), "jal x1,+40"); p(J(-24, 0), "jal x0,-24"); p(I(0x45, 8, 0, 3, 0x67), "jalr x3,0x45(x8)"); p(I(0x48, 8, 0, 8 - 7, 0x67), "jalr x1,0x48(x8)");
  p(CSR(MSCRATCH, 3, 1, 2), "csrrw x2,mscratch,x3"); p(CSR(MSCRATCH, 1, 2, 3), "csrrs x3,mscratch,x1"); p(CSR(MSCRATCH, 2, 3, 1), "csrrc x1,mscratch,x2");
  p(CSR(MSCRATCH, 0, 2, 3), "csrr x3,mscratch"); p(CSR(MSCRATCH, 3, 1, 0), "csrw mscratch,x3"); p(CSR(MSCRATCH, 21, 5, 3), "csrrwi x3,mscratch,21");
  p(CSR(MSCRATCH, 10, 6, 1), "csrrsi x1,mscratch,10"); p(CSR(MSCRATCH, 31, 7, 2), "csrrci x2,mscratch,31"); p(CSR(MSCRATCH, 9, 5, 0), "csrwi mscratch,9");
  p(CSR(MSTATUS, 0, 2, 3), "csrr x3,mstatus"); p(CSR(MCAUSE, 0, 2, 2), "csrr x2,mcause"); p(CSR(MTVEC, 0, 2, 1), "csrr x1,mtvec"); p(CSR(MEPC, 0, 2, 3), "csrr x3,mepc");
  p(CSR(MIE_, 0, 7, 2), "csrr x2,mie (rci 0)"); p(CSR(0xF11, 0, 2, 3), "csrr x3,mvendorid"); p(CSR(0x301, 1, 1, 3), "csrrw x3,misa,x1"); p(CSR(0xB00, 1, 2, 2), "csrrs x2,mcycle,x1");
  p(FENCE, "fence"); p(WFI, "wfi"); p(CSR(MEPC, 8, 1, 0), "csrw mepc,x8"); p(CSR(MCAUSE, 1, 1, 3), "csrrw x3,mcause,x1");
  if (traps) {
    p(MRET, "mret"); p(ECALL, "ecall"); p(EBREAK, "ebreak"); p(0, "word 0"); p(0xFFFFFFFF, "word ~0"); p(I(5, 8, 1, 3, 3), "lh x3,5(x8)"); p(I(6, 8, 2, 3, 3), "lw x3,6(x8)");
    p(S(7, 1, 8, 1), "sh x1,7(x8)"); p(S(9, 1, 8, 2), "sw x1,9(x8)"); p(B(18, 0, 0, 0), "beq +18 (misaligned)"); p(J(22, 3), "jal x3,+22 (misaligned)");
    p(I(2, 8, 0, 3, 0x67), "jalr x3,2(x8) (misaligned)"); p(CSR(0xF11, 3, 1, 1), "csrrw x1,mvendorid,x3"); p(CSR(0x302, 0, 2, 3), "csrr x3,medeleg"); p(CSR(0x100, 0, 2, 3), "csrr x3,sstatus");
    p(R(1, 2, 1, 0, 3), "mul x3,x1,x2"); p(I(0, 8, 3, 3, 3), "ld x3,0(x8)"); p(0x0000100F, "fence.i");
  }
  if (writes_ctl) {
    p(CSR(MSTATUS, 8, 6, 1), "csrrsi x1,mstatus,8"); p(CSR(MSTATUS, 8, 7, 1), "csrrci x1,mstatus,8"); p(CSR(MSTATUS, 3, 1, 2), "csrrw x2,mstatus,x3");
    p(CSR(MIE_, 9, 2, 2), "csrrs x2,mie,x9"); p(CSR(MIE_, 9, 3, 2), "csrrc x2,mie,x9"); p(CSR(MTVEC, 10, 1, 3), "csrrw x3,mtvec,x10");
    p(CSR(MIP_, 0, 2, 3), "csrr x3,mip"); p(CSR(MIP_, 3, 1, 1), "csrrw x1,mip,x3");
  }
  return a;
}
// every representative form, and interrupts replacing some of them
static inline std::vector<Sym> events() {
  auto a = alphabet(true, true);
  for (u32 x : {(u32)NOP, R(0x20, 2, 1, 5, 3), I(4, 8, 2, 3, 3), S(8, 3, 8, 2), (u32)ECALL, (u32)MRET, 0u, CSR(MSTATUS, 8, 7, 1), I(6, 8, 2, 3, 3), B(18, 0, 0, 0)}) { a.push_back({x, "interrupt line high at " + std::to_string(x), 0x89C4D6E8, 1}); }
  return a;
}
static inline std::vector<u32> pcs() {
  std::vector<u32> v;
  for (int k = 2; k < 32; k++) { v.push_back((1u << k) - 4); v.push_back(1u << k); v.push_back(0u - (1u << k)); v.push_back((1u << k) - 8); }
  for (u32 x : {0x12345678u, 0x55555554u, 0xAAAAAAA8u, 0x00FF00FCu}) v.push_back(x);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
