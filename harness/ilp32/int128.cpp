// What clang leaves to a library of operations on 128-bit integers, for library code that uses them (-fforce-enable-int128).
#include <cstdint>
typedef unsigned __int128 U; typedef __int128 I; typedef std::uint64_t W;
union Parts { U v; W w[2]; };
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
enum { HI = 0, LO = 1 };
#else
enum { HI = 1, LO = 0 };
#endif
static U make(W h, W l) { Parts p; p.w[HI] = h; p.w[LO] = l; return p.v; }
static W high(U x) { Parts p; p.v = x; return p.w[HI]; }
static W low(U x) { Parts p; p.v = x; return p.w[LO]; }
static U product(W a, W b) {
	W al = a & 0xFFFFFFFF, ah = a >> 32, bl = b & 0xFFFFFFFF, bh = b >> 32, ll = al * bl, lh = al * bh, hl = ah * bl, mid = (ll >> 32) + (lh & 0xFFFFFFFF) + (hl & 0xFFFFFFFF);
	return make(ah * bh + (lh >> 32) + (hl >> 32) + (mid >> 32), mid << 32 | (ll & 0xFFFFFFFF));
}
static bool less(U a, U b) { return high(a) < high(b) || (high(a) == high(b) && low(a) < low(b)); }
static U minus(U a, U b) { return make(high(a) - high(b) - (low(a) < low(b)), low(a) - low(b)); }
static U divide(U a, U b, U &r) {
	W qh = 0, ql = 0; r = make(0, 0);
	for (int i = 127; i >= 0; i--) {
		bool top = high(r) >> 63, bit = (i >= 64 ? high(a) >> (i - 64) : low(a) >> i) & 1;
		r = make(high(r) << 1 | low(r) >> 63, low(r) << 1 | bit);
		if (top || !less(r, b)) { r = minus(r, b); if (i >= 64) qh |= W(1) << (i - 64); else ql |= W(1) << i; }
	}
	return make(qh, ql);
}
static bool neg(U a) { return high(a) >> 63; }
static U mag(U a) { return neg(a) ? minus(make(0, 0), a) : a; }
extern "C" {
	U __multi3(U a, U b) { U p = product(low(a), low(b)); return make(high(p) + low(a) * high(b) + high(a) * low(b), low(p)); }
	U __ashlti3(U a, int n) { return n == 0 ? a : n >= 64 ? make(low(a) << (n - 64), 0) : make(high(a) << n | low(a) >> (64 - n), low(a) << n); }
	U __lshrti3(U a, int n) { return n == 0 ? a : n >= 64 ? make(0, high(a) >> (n - 64)) : make(high(a) >> n, low(a) >> n | high(a) << (64 - n)); }
	U __ashrti3(U a, int n) { W s = neg(a) ? ~W(0) : 0; return n == 0 ? a : n >= 64 ? make(s, static_cast<W>(static_cast<std::int64_t>(high(a)) >> (n - 64))) : make(static_cast<W>(static_cast<std::int64_t>(high(a)) >> n), low(a) >> n | high(a) << (64 - n)); }
	U __udivti3(U a, U b) { U r; return divide(a, b, r); }
	U __umodti3(U a, U b) { U r; divide(a, b, r); return r; }
	U __divti3(U a, U b) { U r, q = divide(mag(a), mag(b), r); return neg(a) != neg(b) ? minus(make(0, 0), q) : q; }
	U __modti3(U a, U b) { U r; divide(mag(a), mag(b), r); return neg(a) ? minus(make(0, 0), r) : r; }
}
