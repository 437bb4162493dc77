// Hierarchical deterministic keys. The HMAC is intercepted at link time (--wrap) in some cases so that the
// specification's improbable outcomes (IL >= n, child key zero) are reached; the real HMAC runs otherwise.
#include "lib.hpp"
#include "ExtendedPrivateKey.hpp"

using std::string;
static thread_local Bytes *inject = nullptr;     // 64 bytes replacing the next HMAC output
static thread_local uint64_t injected = 0;
extern "C" {
	void __real__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *) __attribute__((weak));
	void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *k, size_t kl, const uint8_t *m, size_t ml, uint8_t *out) {
		if (inject) { std::memcpy(out, inject->data(), 64); injected++; return; }
		__real__ZN6Sha5127getHmacEPKhmS1_mPh(k, kl, m, ml, out);
	}
}

struct RefKey { mpz_class k; Bytes cc, pp; unsigned depth; uint32_t index; bool zero = false; };
static Bytes compressed(const Pt &p) { Bytes b = toBE(p.x, 32); b.insert(b.begin(), mpz_tstbit(p.y.get_mpz_t(), 0) ? 3 : 2); return b; }

static RefKey refChild(const RefKey &par, uint32_t index, const Bytes *force) {
	Bytes pub = compressed(ptMul(ptG(), par.k));
	Bytes msg;
	if (index >> 31) { msg = toBE(par.k, 32); msg.insert(msg.begin(), 0); } else msg = pub;
	for (int s = 24; s >= 0; s -= 8) msg.push_back(static_cast<uint8_t>(index >> s));
	Bytes I = force ? *force : refHmac512(par.cc, msg);
	mpz_class il = fromBE(I.data(), 32);
	RefKey o;
	o.k = modZ(il + par.k, Curve::N);
	if (il >= Curve::N || o.k == 0) { o.zero = true; o.k = 0; o.cc = Bytes(32, 0); o.pp = Bytes(4, 0); o.depth = 0; o.index = 0; return o; }
	Bytes h = refSha256(pub.data(), 33); h = refRipemd160(h.data(), 32);
	o.pp = Bytes(h.begin(), h.begin() + 4);
	o.cc = Bytes(I.begin() + 32, I.end());
	o.depth = par.depth + 1; o.index = index;
	return o;
}
static void compare(Ctx &c, const char *what, const ExtendedPrivateKey &got, const RefKey &want) {
	c.observe(got.privateKey.value, 32); c.observe(got.chainCode, 32);
	CHECK(c, ZU(got.privateKey) == want.k, "%s private key %s, expected %s", what, hexZ(ZU(got.privateKey)).c_str(), hexZ(want.k).c_str());
	CHECK(c, std::equal(want.cc.begin(), want.cc.end(), got.chainCode), "%s chain code %s, expected %s", what, hexOf(got.chainCode, 32).c_str(), hexOf(want.cc).c_str());
	CHECK(c, got.depth == want.depth, "%s depth %u, expected %u", what, got.depth, want.depth);
	CHECK(c, got.index == want.index, "%s index %u, expected %u", what, got.index, want.index);
	CHECK(c, std::equal(want.pp.begin(), want.pp.end(), got.parentPubkeyHash), "%s parent fingerprint %s, expected %s", what, hexOf(got.parentPubkeyHash, 4).c_str(), hexOf(want.pp).c_str());
	if (!want.zero) {
		Pt p = ptMul(ptG(), want.k);
		CHECK(c, ZF(got.publicKey.z) == 1 && affine(got.publicKey) == p, "%s public key %s, expected %s", what, showPoint(got.publicKey).c_str(), showPt(p).c_str());
	} else
		CHECK(c, affine(got.publicKey).inf, "%s: failed derivation carries the public key %s", what, showPoint(got.publicKey).c_str());
}
static uint32_t genIndex(Rng &r) {
	static const uint32_t e[] = {0, 1, 2, 0x7FFFFFFF, 0x7FFFFFFE, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xFF, 0x100, 0xFF00, 0x10000, 0x80FF0000};
	return r.chance(1, 2) ? e[r.below(14)] : r.u32();
}
static void bip32Case(Ctx &c) {
	Rng &r = c.rng;
	if (c.idx % 50 == 0) {
		ExtendedPrivateKey d;
		RefKey z; z.zero = true; z.k = 0; z.cc = Bytes(32, 0); z.pp = Bytes(4, 0); z.depth = 0; z.index = 0;
		compare(c, "default-constructed", d, z);
	}
	RefKey k;
	k.k = genBelow(r, Curve::N - 1) + 1;
	k.cc = r.bytes(32); if (r.chance(1, 6)) std::fill(k.cc.begin(), k.cc.end(), r.chance(1, 2) ? 0 : 0xFF);
	k.pp = r.bytes(4); k.index = genIndex(r); k.depth = r.chance(1, 2) ? r.below(4) : r.below(250);
	c.note("parent key=" + hexZ(k.k) + " chain=" + hexOf(k.cc) + strf(" depth=%u", k.depth));
	Exact cc(r, k.cc), pp(r, k.pp);
	Placed<ExtendedPrivateKey> cur(r, U(k.k), cc.p, static_cast<uint8_t>(k.depth), k.index, pp.p);
	compare(c, "constructed", *cur, k);
	unsigned path = 1 + r.below(2);
	for (unsigned s = 0; s < path && k.depth < 255 && !k.zero; s++) {
		uint32_t idx = genIndex(r);
		Bytes force; bool doForce = r.chance(1, 3);
		if (doForce) {
			mpz_class il;
			switch (r.below(9)) {
				case 0: il = Curve::N - k.k; break;             // child is zero
				case 1: il = Curve::N; break;
				case 2: il = Curve::N + static_cast<long>(r.below(1000)); break;
				case 3: il = Curve::TWO256 - 1 - static_cast<long>(r.below(3)); break;
				case 4: il = 0; break;
				case 5: il = Curve::N - k.k + (r.chance(1, 2) ? 1 : -1); il = modZ(il, Curve::TWO256); break;
				case 6: il = modZ(Curve::TWO256 - k.k + static_cast<long>(r.below(3)) - 1, Curve::TWO256); break;
				case 7: il = Curve::N - 1; break;
				default: il = gen256(r);
			}
			force = toBE(il, 32); Bytes ir = r.bytes(32); force.insert(force.end(), ir.begin(), ir.end());
			c.note(c.describe + " [forced IL=" + hexZ(il) + "]");
		}
		c.note(c.describe + strf(" / child %u%s", idx & 0x7FFFFFFF, idx >> 31 ? "'" : ""));
		uint64_t before = injected;
		if (doForce) { inject = &force; c.muted = true; }
		ExtendedPrivateKey child = cur->getChildKey(idx);
		inject = nullptr;
		bool forced = doForce && injected == before + 1;
		if (doForce && !forced && injected != before) { c.hit("hmac.calls-unexpected"); return; }
		compare(c, "parent after derivation", *cur, k);
		RefKey want = refChild(k, idx, forced ? &force : nullptr);
		compare(c, "child", child, want);
		c.hit(idx >> 31 ? "child.hardened" : "child.normal");
		if (forced) c.hit(want.zero ? "forced.invalid-child" : "forced.valid-child");
		*cur = child; k = want;
	}
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
}
static RegisterSuite sBip("bip32", bip32Case);
