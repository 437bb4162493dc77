// Instruction-level trace-equality monitor of the machine code as users build it: the operation is single-stepped
// (trap flag) and for every instruction its address and the effective address of its memory operand are recorded.
// The sequences of executions on different secrets must be identical.
#include "ct_ops.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>

static const size_t CAP = size_t(1) << 26;
static uint64_t *ref; static size_t refLen, pos, badAt; static uint64_t badWas, badIs; static bool bad; static int mode; static uint64_t tail, refTail;
static uint64_t nInstr, nMem, nUnknown; static uint8_t unknownBytes[16];

static inline void ev(uint64_t e) {
	tail = pos < CAP ? 0 : (tail ^ e) * 0x9E3779B97F4A7C15ULL + 1;   // beyond the buffer a running hash stands for the events
	if (mode == 1) { if (pos < CAP) ref[pos] = e; }
	else if (pos >= CAP) {}
	else if (!bad && (pos >= refLen || ref[pos] != e)) { bad = true; badAt = pos; badWas = pos < refLen ? ref[pos] : 0; badIs = e; }
	pos++;
}
// Does the instruction at p access memory through a ModRM operand, and where? Understands the integer, SSE and VEX
// encodings that compilers emit; LEA, NOP and prefetches compute but do not access. Returns 0 for none, 1 with the address, -1 if unknown.
static int operand(const uint8_t *p, const greg_t *g, uint64_t &ea) {
	static const int regOf[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
	int rexX = 0, rexB = 0; bool fs = false; int immediates = 0, map = 1; uint8_t op; bool opsize = false;
	for (;; p++) {
		if (*p == 0x66) { opsize = true; continue; }
		if (*p == 0xF2 || *p == 0xF3 || *p == 0x2E || *p == 0x3E || *p == 0x36 || *p == 0x26 || *p == 0x65) continue;
		if (*p == 0x64) { fs = true; continue; }
		if (*p == 0x67) return -1;
		break;
	}
	if ((*p & 0xF0) == 0x40) { rexX = (*p >> 1) & 1; rexB = *p & 1; p++; }
	if (*p == 0xC5) { map = 2; p += 2; op = *p++; }
	else if (*p == 0xC4) { rexX = !(p[1] >> 6 & 1); rexB = !(p[1] >> 5 & 1); map = 1 + (p[1] & 0x1F); p += 3; op = *p++; if (map < 2 || map > 4) return -1; }
	else if (*p == 0x62) {   // EVEX: the displacement is left unscaled, which is immaterial for comparing sequences
		rexX = !(p[1] >> 6 & 1); rexB = !(p[1] >> 5 & 1); map = 1 + (p[1] & 7); p += 4; op = *p++; if (map < 2 || map > 4) return -1;
	}
	else if (*p == 0x0F) { p++; if (*p == 0x38) { map = 3; p++; } else if (*p == 0x3A) { map = 4; p++; } else map = 2; op = *p++; }
	else op = *p++;
	if (map == 1) {
		if (op < 0x40) { if ((op & 7) >= 4) return 0; }                               // ALU with modrm, or immediate forms
		else if (op < 0x60) return 0;                                                 // push, pop
		else if (op == 0x63 || op == 0x69 || op == 0x6B) immediates = op == 0x69 ? 4 : op == 0x6B ? 1 : 0;
		else if (op == 0x68 || op == 0x6A || (op >= 0x70 && op < 0x80)) return 0;
		else if (op == 0x80 || op == 0x83) immediates = 1;
		else if (op == 0x81) immediates = 4;
		else if (op == 0x8D) return 0;                                                // lea
		else if (op >= 0x84 && op <= 0x8F) {}
		else if (op >= 0x90 && op < 0xA4) return op < 0xA0 ? 0 : -1;
		else if (op == 0xA4 || op == 0xA5) { ea = static_cast<uint64_t>(g[REG_RSI]) * 31 + static_cast<uint64_t>(g[REG_RDI]) * 7 + static_cast<uint64_t>(g[REG_RCX]); return 1; }  // movs
		else if (op == 0xAA || op == 0xAB) { ea = static_cast<uint64_t>(g[REG_RDI]) * 7; return 1; }   // stos
		else if (op == 0xA8 || op == 0xA9 || (op >= 0xB0 && op < 0xC0)) return 0;
		else if (op == 0xC0 || op == 0xC1 || op == 0xC6) immediates = 1;
		else if (op == 0xC7) immediates = 4;
		else if (op == 0xC2 || op == 0xC3 || op == 0xC9 || op == 0xCC) return 0;
		else if (op >= 0xD0 && op <= 0xD3) {}
		else if (op >= 0xD8 && op <= 0xDF) {}
		else if (op == 0xE8 || op == 0xE9 || op == 0xEB) return 0;
		else if (op == 0xF6 || op == 0xF7) immediates = (*p >> 3 & 7) < 2 ? (op == 0xF6 ? 1 : 4) : 0;
		else if (op == 0xF5 || op == 0xF8 || op == 0xF9 || op == 0xFC) return 0;
		else if (op == 0xFE || op == 0xFF) {}
		else return -1;
	} else if (map == 2) {
		if (op == 0x05 || op == 0x0B || op == 0x31 || op == 0xA2 || (op >= 0x80 && op < 0x90) || op == 0x77 || (op >= 0xC8 && op <= 0xCF)) return 0;
		if (op == 0x0D || op == 0x18 || op == 0x19 || op == 0x1E || op == 0x1F) return 0;   // nop, prefetch, endbr
		if (op == 0x70 || op == 0x71 || op == 0x72 || op == 0x73 || op == 0xA4 || op == 0xAC || op == 0xBA || op == 0xC2 || op == 0xC4 || op == 0xC5 || op == 0xC6) immediates = 1;
	} else if (map == 4) immediates = 1;
	if (immediates == 4 && opsize) immediates = 2;
	int mod = *p >> 6, rm = *p & 7; p++;
	if (mod == 3) return 0;
	uint64_t base = 0;
	if (rm == 4) {
		uint8_t sib = *p++;
		int idx = (sib >> 3 & 7) | rexX << 3, b = (sib & 7) | rexB << 3;
		if ((sib & 7) == 5 && mod == 0) { int32_t d; std::memcpy(&d, p, 4); p += 4; base = static_cast<uint64_t>(static_cast<int64_t>(d)); }
		else base = static_cast<uint64_t>(g[regOf[b]]);
		if (idx != 4) base += static_cast<uint64_t>(g[regOf[idx]]) << (sib >> 6);
	} else if (rm == 5 && mod == 0) {
		int32_t d; std::memcpy(&d, p, 4); p += 4;
		base = reinterpret_cast<uint64_t>(p) + static_cast<uint64_t>(immediates) + static_cast<uint64_t>(static_cast<int64_t>(d));
	} else base = static_cast<uint64_t>(g[regOf[rm | rexB << 3]]);
	if (mod == 1) base += static_cast<uint64_t>(static_cast<int64_t>(static_cast<int8_t>(*p)));
	else if (mod == 2) { int32_t d; std::memcpy(&d, p, 4); base += static_cast<uint64_t>(static_cast<int64_t>(d)); }
	ea = base ^ (fs ? uint64_t(1) << 59 : 0);
	return 1;
}
static bool tracing;
static void onTrap(int, siginfo_t *, void *u) {
	greg_t *g = static_cast<ucontext_t *>(u)->uc_mcontext.gregs;
	if (!tracing) { g[REG_EFL] &= ~0x100LL; return; }
	uint64_t ip = static_cast<uint64_t>(g[REG_RIP]), ea = 0;
	nInstr++;
	ev(ip);
	int r = operand(reinterpret_cast<const uint8_t *>(ip), g, ea);
	if (r == 1) { nMem++; ev((ea & 0x0FFFFFFFFFFFFFFFULL) | uint64_t(1) << 60); }
	else if (r < 0) { if (!nUnknown++) std::memcpy(unknownBytes, reinterpret_cast<void *>(ip), 15); }
}
__attribute__((noinline)) static void step(int m, void (*f)()) {
	pos = 0; tail = 0; bad = false; okResult = true; mode = m; tracing = true;
	asm volatile("pushfq\n orq $0x100, (%%rsp)\n popfq\n" ::: "memory", "cc");
	f();
	asm volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq\n" ::: "memory", "cc");
	tracing = false;
}
static void stepCase(Ctx &c) {
	if (!ref) {
		ref = static_cast<uint64_t *>(mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (ref == MAP_FAILED) { fprintf(stderr, "HARNESS: mmap\n"); std::_Exit(70); }
		initOps();
		struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO;
		if (sigaction(SIGTRAP, &sa, nullptr)) std::_Exit(70);
	}
	const auto &os = ops();
	const Op &op = os[c.idx % os.size()];
	uint64_t group = c.idx / os.size();
	if (op.weight >= 4 && !c.thorough) { c.hit("left-to-the-thorough-tier"); return; }   // millions of instructions each
	if (op.weight >= 4 && group > 0) return;
	int secrets = op.weight >= 4 ? 2 : op.weight >= 3 ? 4 : op.weight >= 2 ? 6 : 60;
	string text = op.name;
	if (op.weight >= 2 && (text.find("reciprocal") != string::npos || text.find("normalize") != string::npos)) secrets = c.thorough ? 4 : 2;  // half a million instructions each
	static std::vector<bool> warm(os.size());
	if (!warm[c.idx % os.size()]) { for (int i = 0; i < 2; i++) { Rng pub(9, 9, 9), sec(9, 9, static_cast<uint64_t>(i)); op.setup(c, pub, sec, 9); op.run(); } warm[c.idx % os.size()] = true; }
	bool have = false; uint64_t i0 = nInstr, m0 = nMem;
	for (int s = 0; s < secrets; s++) {
		Rng pub(c.seed, 4242, c.idx), sec(c.seed, 777 + s, c.idx);
		op.setup(c, pub, sec, group == 0 ? s : 10 + s);
		string what = describeOperands(op.name, s);
		c.note(what);
		step(have ? 2 : 1, op.run);
		if (nUnknown) { fprintf(stderr, "HARNESS: instruction not understood: %s\n", hexOf(unknownBytes, 15).c_str()); std::_Exit(70); }
		if (!okResult) { c.hit("unsuccessful-execution-skipped"); continue; }
		c.eval(); c.hit(string("exec.") + op.name);
		if (!have) { refLen = pos; refTail = tail; have = true; if (pos < 4) { fprintf(stderr, "HARNESS: no trace events for %s\n", op.name); std::_Exit(70); } continue; }
		c.nontrivial(hashBytes(what.data(), what.size()));
		if (bad || pos != refLen || tail != refTail)
			c.fail(strf("%s: the executed machine code depends on the secret: event %zu of %zu was %#lx, now %#lx (lengths %zu, %zu; base %#lx)", op.name, bad ? badAt : refLen, refLen, bad ? badWas : 0, bad ? badIs : 0, refLen, pos, reinterpret_cast<uint64_t>(&stepCase)));
	}
	c.hit("events.instructions", nInstr - i0); c.hit("events.memory-operands", nMem - m0);
}
static RegisterSuite sStep("step", stepCase);
