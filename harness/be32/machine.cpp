// A 32-bit big-endian machine: executes the MIPS32 (release 2) program IMAGE, whose standard input and output it passes on.
// Like the real one it stops at an access to a word that does not lie on a multiple of its size, outside of memory, or to
// read-only memory, and at `break` and `teq` (undefined behaviour detected, division by zero).
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
__asm__(".section .rodata\n.globl image\n.balign 16\nimage: .incbin \"" IMAGE "\"\n.globl imageEnd\nimageEnd: .byte 0\n.text\n");
extern "C" const uint8_t image[], imageEnd[];

static uint8_t *mem;   // 4 GiB of addresses
static uint32_t R[33], HI, LO, cur, threadPointer; static const int SINK = 32;   // writes to register 0 go to 32
[[noreturn]] static void stop(const char *why, uint32_t a, int status) { fprintf(stderr, "machine: %s (%#x) at %#x, return address %#x\n", why, a, cur, R[31]); _exit(status); }
static void onFault(int, siginfo_t *i, void *) {
	uintptr_t a = reinterpret_cast<uintptr_t>(i->si_addr) - reinterpret_cast<uintptr_t>(mem);
	char t[80]; int n = snprintf(t, sizeof t, "machine: no memory at %#llx\n", static_cast<unsigned long long>(a)); if (write(2, t, static_cast<size_t>(n)) < 0) {} _exit(139);
}
static uint16_t g16(const uint8_t *p) { return static_cast<uint16_t>(p[0] << 8 | p[1]); }
static uint32_t g32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
static void p32(uint8_t *p, uint32_t v) { v = __builtin_bswap32(v); memcpy(p, &v, 4); }
static uint32_t ld32(uint32_t a) { if (a & 3) stop("misaligned load", a, 135); return g32(mem + a); }
static void st32(uint32_t a, uint32_t v) { if (a & 3) stop("misaligned store", a, 135); p32(mem + a, v); }
static uint32_t ld16(uint32_t a) { if (a & 1) stop("misaligned load", a, 135); return g16(mem + a); }
static void st16(uint32_t a, uint32_t v) { if (a & 1) stop("misaligned store", a, 135); mem[a] = static_cast<uint8_t>(v >> 8); mem[a + 1] = static_cast<uint8_t>(v); }

enum Op : uint8_t { ILL, NOP, SLL, SRL, SRA, ROTR, SLLV, SRLV, SRAV, ROTRV, JR, JALR, MOVZ, MOVN, SYSCALL, BREAK, MFHI, MTHI, MFLO, MTLO, MULT, MULTU, DIV, DIVU, ADD, ADDU, SUB, SUBU, AND, OR, XOR, NOR, SLT, SLTU,
	TEQ, TNE, TGE, TGEU, TLT, TLTU, BLTZ, BGEZ, BLTZAL, BGEZAL, J, JAL, BEQ, BNE, BLEZ, BGTZ, ADDI, ADDIU, SLTI, SLTIU, ANDI, ORI, XORI, LUI, MADD, MADDU, MUL, MSUB, MSUBU, CLZ, CLO, EXT, INS, WSBH, SEB, SEH, RDHWR,
	LB, LH, LWL, LW, LBU, LHU, LWR, SB, SH, SWL, SW, SWR, SYNC, LL, SC };
struct Ins { Op op; uint8_t s, t, d; int32_t i; };   // d: register written, if any
static Ins decode(uint32_t w, uint32_t pc) {
	uint32_t op = w >> 26, s = w >> 21 & 31, t = w >> 16 & 31, d = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63; int32_t si = static_cast<int16_t>(w), ui = static_cast<int32_t>(w & 0xFFFF);
	auto mk = [](Op o, uint32_t a, uint32_t b, uint32_t c, int32_t i) { return Ins{o, static_cast<uint8_t>(a), static_cast<uint8_t>(b), static_cast<uint8_t>(c == 0 ? SINK : c), i}; };
	int32_t target = static_cast<int32_t>(pc + 4 + static_cast<uint32_t>(si) * 4), far = static_cast<int32_t>(((pc + 4) & 0xF0000000) | (w & 0x3FFFFFF) << 2);
	if (w == 0) return mk(NOP, 0, 0, 0, 0);
	switch (op) {
		case 0: switch (fn) {
			case 0: return mk(SLL, s, t, d, static_cast<int32_t>(sa)); case 2: return mk(s & 1 ? ROTR : SRL, s, t, d, static_cast<int32_t>(sa)); case 3: return mk(SRA, s, t, d, static_cast<int32_t>(sa));
			case 4: return mk(SLLV, s, t, d, 0); case 6: return mk(sa & 1 ? ROTRV : SRLV, s, t, d, 0); case 7: return mk(SRAV, s, t, d, 0);
			case 8: return mk(JR, s, t, d, 0); case 9: return mk(JALR, s, t, d, 0); case 10: return mk(MOVZ, s, t, d, 0); case 11: return mk(MOVN, s, t, d, 0); case 12: return mk(SYSCALL, 0, 0, 0, 0); case 13: return mk(BREAK, 0, 0, 0, 0); case 15: return mk(SYNC, 0, 0, 0, 0);
			case 16: return mk(MFHI, s, t, d, 0); case 17: return mk(MTHI, s, t, d, 0); case 18: return mk(MFLO, s, t, d, 0); case 19: return mk(MTLO, s, t, d, 0);
			case 24: return mk(MULT, s, t, d, 0); case 25: return mk(MULTU, s, t, d, 0); case 26: return mk(DIV, s, t, d, 0); case 27: return mk(DIVU, s, t, d, 0);
			case 32: return mk(ADD, s, t, d, 0); case 33: return mk(ADDU, s, t, d, 0); case 34: return mk(SUB, s, t, d, 0); case 35: return mk(SUBU, s, t, d, 0); case 36: return mk(AND, s, t, d, 0); case 37: return mk(OR, s, t, d, 0); case 38: return mk(XOR, s, t, d, 0); case 39: return mk(NOR, s, t, d, 0);
			case 42: return mk(SLT, s, t, d, 0); case 43: return mk(SLTU, s, t, d, 0);
			case 48: return mk(TGE, s, t, d, 0); case 49: return mk(TGEU, s, t, d, 0); case 50: return mk(TLT, s, t, d, 0); case 51: return mk(TLTU, s, t, d, 0); case 52: return mk(TEQ, s, t, d, 0); case 54: return mk(TNE, s, t, d, 0);
		} break;
		case 1: switch (t) { case 0: return mk(BLTZ, s, t, d, target); case 1: return mk(BGEZ, s, t, d, target); case 16: return mk(BLTZAL, s, t, 31, target); case 17: return mk(BGEZAL, s, t, 31, target); } break;
		case 2: return mk(J, 0, 0, 0, far); case 3: return mk(JAL, 0, 0, 31, far); case 4: return mk(BEQ, s, t, 0, target); case 5: return mk(BNE, s, t, 0, target); case 6: return mk(BLEZ, s, t, 0, target); case 7: return mk(BGTZ, s, t, 0, target);
		case 8: return mk(ADDI, s, t, t, si); case 9: return mk(ADDIU, s, t, t, si); case 10: return mk(SLTI, s, t, t, si); case 11: return mk(SLTIU, s, t, t, si); case 12: return mk(ANDI, s, t, t, ui); case 13: return mk(ORI, s, t, t, ui); case 14: return mk(XORI, s, t, t, ui); case 15: return mk(LUI, s, t, t, static_cast<int32_t>(w << 16));
		case 28: switch (fn) { case 0: return mk(MADD, s, t, d, 0); case 1: return mk(MADDU, s, t, d, 0); case 2: return mk(MUL, s, t, d, 0); case 4: return mk(MSUB, s, t, d, 0); case 5: return mk(MSUBU, s, t, d, 0); case 32: return mk(CLZ, s, t, d, 0); case 33: return mk(CLO, s, t, d, 0); } break;
		case 31: switch (fn) {
			case 0: return mk(EXT, s, t, t, static_cast<int32_t>(sa | (d + 1) << 8)); case 4: return mk(INS, s, t, t, static_cast<int32_t>(sa | (d - sa + 1) << 8));
			case 32: if (sa == 2) return mk(WSBH, s, t, d, 0); if (sa == 16) return mk(SEB, s, t, d, 0); if (sa == 24) return mk(SEH, s, t, d, 0); break;
			case 59: if (d == 29) return mk(RDHWR, s, t, t, 0); break; } break;
		case 32: return mk(LB, s, t, t, si); case 33: return mk(LH, s, t, t, si); case 34: return mk(LWL, s, t, t, si); case 35: return mk(LW, s, t, t, si); case 36: return mk(LBU, s, t, t, si); case 37: return mk(LHU, s, t, t, si); case 38: return mk(LWR, s, t, t, si);
		case 40: return mk(SB, s, t, 0, si); case 41: return mk(SH, s, t, 0, si); case 42: return mk(SWL, s, t, 0, si); case 43: return mk(SW, s, t, 0, si); case 46: return mk(SWR, s, t, 0, si);
		case 48: return mk(LL, s, t, t, si); case 56: return mk(SC, s, t, t, si);
	}
	return mk(ILL, 0, 0, 0, static_cast<int32_t>(w));
}
static uint32_t pageNext = 0x20000000;
static uint32_t kernel(uint32_t n, uint32_t a, uint32_t b, uint32_t c) {
	switch (n) {
		case 3: case 4: { uint64_t e = static_cast<uint64_t>(b) + c; if (e > 0xFFFFFFFFu) stop("bad buffer", b, 139); ssize_t k = n == 3 ? read(static_cast<int>(a), mem + b, c) : write(static_cast<int>(a), mem + b, c); return static_cast<uint32_t>(k); }
		case 90: { uint32_t l = (a + 4095) & ~4095u; if (l < a || l > 0x70000000 - pageNext || mprotect(mem + pageNext, l, PROT_READ | PROT_WRITE)) return 0; uint32_t p = pageNext; pageNext += l; return p; }
		case 91: madvise(mem + a, (b + 4095) & ~4095u, MADV_DONTNEED); if (a + ((b + 4095) & ~4095u) == pageNext) pageNext = a; return 0;
		case 252: if (getenv("MACHINE_COUNT")) fprintf(stderr, "machine: ends\n"); _exit(static_cast<int>(a));
	}
	stop("unknown system call", n, 134);
}
int main() {
	void *m = mmap(nullptr, uint64_t(1) << 32, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { perror("machine"); return 126; }
	mem = static_cast<uint8_t *>(m);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
	// Load
	if (memcmp(image, "\177ELF\1\2\1", 7) || g16(image + 18) != 8) { fprintf(stderr, "machine: not a program for this machine\n"); return 126; }
	uint32_t entry = g32(image + 24), phoff = g32(image + 28); unsigned phnum = g16(image + 44), phsize = g16(image + 42);
	uint32_t lo = 0xFFFFFFFF, hi = 0;
	for (unsigned k = 0; k < phnum; k++) {
		const uint8_t *p = image + phoff + k * phsize; uint32_t type = g32(p), off = g32(p + 4), va = g32(p + 8), fs = g32(p + 16), ms = g32(p + 20), fl = g32(p + 24), al = g32(p + 28);
		if (type == 1) {
			uint32_t a = va & ~4095u, e = (va + ms + 4095) & ~4095u;
			if (mprotect(mem + a, e - a, PROT_READ | PROT_WRITE)) { perror("machine"); return 126; }
			memcpy(mem + va, image + off, fs);
			if (fl & 1) { if (va < lo) lo = va & ~3u; if (va + ms > hi) hi = va + ms; }
		} else if (type == 7) {   // thread-local storage: the pointer is 0x7000 past its start
			if (al < 16) al = 16;
			uint32_t b = (kernel(90, ms + al, 0, 0) + al - 1) / al * al; memcpy(mem + b, image + off, fs); threadPointer = b + 0x7000;
		}
	}
	for (unsigned k = 0; k < phnum; k++) {   // what may not be written
		const uint8_t *p = image + phoff + k * phsize; if (g32(p) != 1 || g32(p + 24) & 2) continue;
		uint32_t a = g32(p + 8) & ~4095u, e = (g32(p + 8) + g32(p + 20) + 4095) & ~4095u; mprotect(mem + a, e - a, PROT_READ);
	}
	if (lo >= hi) return 126;
	std::vector<Ins> code; for (uint32_t a = lo; a + 4 <= hi; a += 4) code.push_back(decode(g32(mem + a), a));
	code.push_back({ILL, 0, 0, 0, 0}); code.push_back({ILL, 0, 0, 0, 0});
	uint32_t n = static_cast<uint32_t>(code.size()) - 2;
	const uint32_t STACK = 0x7FFF0000; if (mprotect(mem + STACK - (8 << 20), 8 << 20, PROT_READ | PROT_WRITE)) { perror("machine"); return 126; }
	R[29] = STACK - 64;
	uint32_t pc = entry, npc = entry + 4;
	#define GO(a) do { uint32_t x_ = (a); if (((x_ - lo) >> 2) >= n || (x_ & 3)) stop("jump to no code", x_, 139); npc = x_; } while (0)
	#define S R[i.s]
	#define T R[i.t]
	#define D R[i.d]
	#define I static_cast<uint32_t>(i.i)
	GO(entry); pc = npc; npc = pc + 4;
	uint64_t acc; int64_t sacc;
	for (;;) {
		const Ins i = code[(pc - lo) >> 2]; cur = pc; pc = npc; npc = pc + 4;
		switch (i.op) {
			case ILL: stop("unknown instruction", I, 132);
			case NOP: case SYNC: break;
			case SLL: D = T << i.i; break; case SRL: D = T >> i.i; break; case SRA: D = static_cast<uint32_t>(static_cast<int32_t>(T) >> i.i); break; case ROTR: D = T >> i.i | T << (32 - i.i & 31); break;
			case SLLV: D = T << (S & 31); break; case SRLV: D = T >> (S & 31); break; case SRAV: D = static_cast<uint32_t>(static_cast<int32_t>(T) >> (S & 31)); break; case ROTRV: { uint32_t k = S & 31; D = T >> k | T << (32 - k & 31); break; }
			case JR: GO(S); break; case JALR: { uint32_t x = S; D = cur + 8; GO(x); break; }
			case MOVZ: if (T == 0) D = S; break; case MOVN: if (T != 0) D = S; break;
			case SYSCALL: R[2] = kernel(R[2], R[4], R[5], R[6]); break;
			case BREAK: stop("trap: undefined behaviour or a failed check", 0, 133);
			case MFHI: D = HI; break; case MTHI: HI = S; break; case MFLO: D = LO; break; case MTLO: LO = S; break;
			case MULT: sacc = static_cast<int64_t>(static_cast<int32_t>(S)) * static_cast<int32_t>(T); HI = static_cast<uint32_t>(static_cast<uint64_t>(sacc) >> 32); LO = static_cast<uint32_t>(sacc); break;
			case MULTU: acc = static_cast<uint64_t>(S) * T; HI = static_cast<uint32_t>(acc >> 32); LO = static_cast<uint32_t>(acc); break;
			case DIV: if (T == 0) { LO = HI = 0xDEADBEEF; break; } if (S == 0x80000000u && T == ~0u) { LO = S; HI = 0; break; } LO = static_cast<uint32_t>(static_cast<int32_t>(S) / static_cast<int32_t>(T)); HI = static_cast<uint32_t>(static_cast<int32_t>(S) % static_cast<int32_t>(T)); break;
			case DIVU: if (T == 0) { LO = HI = 0xDEADBEEF; break; } LO = S / T; HI = S % T; break;
			case ADD: { int32_t x; if (__builtin_add_overflow(static_cast<int32_t>(S), static_cast<int32_t>(T), &x)) stop("overflow", S, 136); D = static_cast<uint32_t>(x); break; }
			case SUB: { int32_t x; if (__builtin_sub_overflow(static_cast<int32_t>(S), static_cast<int32_t>(T), &x)) stop("overflow", S, 136); D = static_cast<uint32_t>(x); break; }
			case ADDI: { int32_t x; if (__builtin_add_overflow(static_cast<int32_t>(S), i.i, &x)) stop("overflow", S, 136); D = static_cast<uint32_t>(x); break; }
			case ADDU: D = S + T; break; case SUBU: D = S - T; break; case AND: D = S & T; break; case OR: D = S | T; break; case XOR: D = S ^ T; break; case NOR: D = ~(S | T); break;
			case SLT: D = static_cast<int32_t>(S) < static_cast<int32_t>(T); break; case SLTU: D = S < T; break;
			case TEQ: if (S == T) stop("trap", S, 133); break; case TNE: if (S != T) stop("trap", S, 133); break;
			case TGE: if (static_cast<int32_t>(S) >= static_cast<int32_t>(T)) stop("trap", S, 133); break; case TGEU: if (S >= T) stop("trap", S, 133); break;
			case TLT: if (static_cast<int32_t>(S) < static_cast<int32_t>(T)) stop("trap", S, 133); break; case TLTU: if (S < T) stop("trap", S, 133); break;
			case BLTZAL: { bool y = static_cast<int32_t>(S) < 0; R[31] = cur + 8; if (y) GO(I); break; } case BGEZAL: { bool y = static_cast<int32_t>(S) >= 0; R[31] = cur + 8; if (y) GO(I); break; }
			case BLTZ: if (static_cast<int32_t>(S) < 0) GO(I); break; case BGEZ: if (static_cast<int32_t>(S) >= 0) GO(I); break; case BLEZ: if (static_cast<int32_t>(S) <= 0) GO(I); break; case BGTZ: if (static_cast<int32_t>(S) > 0) GO(I); break;
			case J: GO(I); break; case JAL: R[31] = cur + 8; GO(I); break; case BEQ: if (S == T) GO(I); break; case BNE: if (S != T) GO(I); break;
			case ADDIU: D = S + I; break; case SLTI: D = static_cast<int32_t>(S) < i.i; break; case SLTIU: D = S < I; break; case ANDI: D = S & I; break; case ORI: D = S | I; break; case XORI: D = S ^ I; break; case LUI: D = I; break;
			case MADD: case MSUB: sacc = static_cast<int64_t>(static_cast<int32_t>(S)) * static_cast<int32_t>(T); acc = static_cast<uint64_t>(HI) << 32 | LO; acc = i.op == MADD ? acc + static_cast<uint64_t>(sacc) : acc - static_cast<uint64_t>(sacc); HI = static_cast<uint32_t>(acc >> 32); LO = static_cast<uint32_t>(acc); break;
			case MADDU: acc = (static_cast<uint64_t>(HI) << 32 | LO) + static_cast<uint64_t>(S) * T; HI = static_cast<uint32_t>(acc >> 32); LO = static_cast<uint32_t>(acc); break;
			case MSUBU: acc = (static_cast<uint64_t>(HI) << 32 | LO) - static_cast<uint64_t>(S) * T; HI = static_cast<uint32_t>(acc >> 32); LO = static_cast<uint32_t>(acc); break;
			case MUL: D = S * T; HI = LO = 0xDEADBEEF; break;
			case CLZ: D = S ? static_cast<uint32_t>(__builtin_clz(S)) : 32; break; case CLO: D = ~S ? static_cast<uint32_t>(__builtin_clz(~S)) : 32; break;
			case EXT: { unsigned sz = I >> 8; D = S >> (I & 31) & (sz == 32 ? ~0u : (1u << sz) - 1); break; }
			case INS: { unsigned sz = I >> 8 & 63, p = I & 31; uint32_t msk = (sz == 32 ? ~0u : (1u << sz) - 1) << p; D = (T & ~msk) | (S << p & msk); break; }
			case WSBH: D = (T & 0x00FF00FF) << 8 | (T >> 8 & 0x00FF00FF); break; case SEB: D = static_cast<uint32_t>(static_cast<int8_t>(T)); break; case SEH: D = static_cast<uint32_t>(static_cast<int16_t>(T)); break;
			case RDHWR: D = threadPointer; break;
			case LB: D = static_cast<uint32_t>(static_cast<int8_t>(mem[S + I])); break; case LBU: D = mem[S + I]; break; case LH: D = static_cast<uint32_t>(static_cast<int16_t>(ld16(S + I))); break; case LHU: D = ld16(S + I); break;
			case LW: case LL: D = ld32(S + I); break;
			case LWL: { uint32_t a = S + I, k = 8 * (a & 3); D = g32(mem + (a & ~3u)) << k | (T & ((1u << k) - 1)); break; }
			case LWR: { uint32_t a = S + I, k = 8 * (3 - (a & 3)); D = g32(mem + (a & ~3u)) >> k | (T & ~(~0u >> k)); break; }
			case SB: mem[S + I] = static_cast<uint8_t>(T); break; case SH: st16(S + I, T); break; case SW: st32(S + I, T); break; case SC: st32(S + I, T); D = 1; break;
			case SWL: { uint32_t a = S + I; for (uint32_t k = a & 3, b = 0; k < 4; k++, b++) mem[a + b] = static_cast<uint8_t>(T >> (24 - 8 * b)); break; }
			case SWR: { uint32_t a = S + I; for (uint32_t k = 0; k <= (a & 3); k++) mem[a - k] = static_cast<uint8_t>(T >> 8 * k); break; }
		}
	}
}
