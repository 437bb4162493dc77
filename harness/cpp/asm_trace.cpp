// Executes every assembly leaf routine on many secrets at fixed addresses, delimited by stores to vp_mark, so that
// an instruction-level tracer (valgrind lackey) can compare the traces. No other library is linked.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
#define W __attribute__((weak))
	uint32_t asm_Uint256_add(uint32_t *, const uint32_t *, uint32_t) W;
	uint32_t asm_Uint256_subtract(uint32_t *, const uint32_t *, uint32_t) W;
	uint32_t asm_Uint256_shiftLeft1(uint32_t *) W;
	void asm_Uint256_shiftRight1(uint32_t *, uint32_t) W;
	void asm_Uint256_replace(uint32_t *, const uint32_t *, uint32_t) W;
	void asm_Uint256_swap(uint32_t *, uint32_t *, uint32_t) W;
	bool asm_Uint256_equalTo(const uint32_t *, const uint32_t *) W;
	bool asm_Uint256_lessThan(const uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiply256x256eq512(uint32_t *, const uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep0(uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep1(uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep2(uint32_t *, const uint32_t *, const uint32_t *) W;
	volatile uint64_t vp_mark = 0;
}
alignas(64) static uint32_t a[24], b[24], z[24];
static uint64_t st;
static uint64_t rnd() { uint64_t x = (st += 0x9E3779B97F4A7C15ULL); x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
static void fill(uint32_t *p, int mode) { for (int i = 0; i < 24; i++) p[i] = mode == 0 ? 0 : mode == 1 ? 0xFFFFFFFF : mode == 2 ? (i == 0) : (rnd() % 4 == 0 ? (rnd() % 2 ? 0u : 0xFFFFFFFFu) : static_cast<uint32_t>(rnd())); }
__attribute__((noinline)) static void call(int op, uint32_t en) {
	vp_mark = static_cast<uint64_t>(op) + 1;
	switch (op) {
		case 0: asm_Uint256_add(a, b, en); break;
		case 1: asm_Uint256_subtract(a, b, en); break;
		case 2: asm_Uint256_shiftLeft1(a); break;
		case 3: asm_Uint256_shiftRight1(a, en); break;
		case 4: asm_Uint256_replace(a, b, en); break;
		case 5: asm_Uint256_swap(a, b, en); break;
		case 6: asm_Uint256_equalTo(a, b); break;
		case 7: asm_Uint256_lessThan(a, b); break;
		case 8: asm_FieldInt_multiply256x256eq512(z, a, b); break;
		case 9: asm_FieldInt_multiplyBarrettStep0(z, a); break;
		case 10: asm_FieldInt_multiplyBarrettStep1(z, a); break;
		case 11: asm_FieldInt_multiplyBarrettStep2(z, a, b); break;
	}
	vp_mark = 0;
}
int main(int argc, char **argv) {
	st = strtoull(argv[1], nullptr, 10) * 77777;
	int n = atoi(argv[2]);
	void *f[] = {(void *)asm_Uint256_add, (void *)asm_Uint256_subtract, (void *)asm_Uint256_shiftLeft1, (void *)asm_Uint256_shiftRight1, (void *)asm_Uint256_replace, (void *)asm_Uint256_swap,
		(void *)asm_Uint256_equalTo, (void *)asm_Uint256_lessThan, (void *)asm_FieldInt_multiply256x256eq512, (void *)asm_FieldInt_multiplyBarrettStep0, (void *)asm_FieldInt_multiplyBarrettStep1, (void *)asm_FieldInt_multiplyBarrettStep2};
	printf("%lx\n", reinterpret_cast<uintptr_t>(&vp_mark)); fflush(stdout);
	for (int op = 0; op < 12; op++) {
		if (!f[op]) continue;
		for (int i = 0; i < n; i++) {
			fill(a, i < 4 ? i % 4 : static_cast<int>(rnd() % 8)); fill(b, i < 4 ? (i / 2) % 4 : static_cast<int>(rnd() % 8));
			if (rnd() % 4 == 0) memcpy(b, a, sizeof a);
			if (rnd() % 8 == 0) { memcpy(b, a, sizeof a); b[rnd() % 8] ^= 1u << rnd() % 32; }
			call(op, static_cast<uint32_t>(rnd() % 2));
		}
	}
}
