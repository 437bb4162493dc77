// Sha256Hash value type, utilities and byte/string constructors.
#include "lib.hpp"
#include "Sha256Hash.hpp"
#include "Utils.hpp"

using std::string;
static Bytes genHash(Rng &r) {
	Bytes b = toBE(gen256(r), 32);
	return b;
}
static string recase(Rng &r, string s) {
	unsigned mode = r.below(3);
	for (auto &ch : s) if (ch >= 'a' && ch <= 'f' && (mode == 1 || (mode == 2 && r.chance(1, 2)))) ch = static_cast<char>(ch - 32);
	return s;
}
static void typesCase(Ctx &c) {
	Rng &r = c.rng;
	Bytes a = genHash(r), b;
	switch (r.below(4)) {
		case 0: b = a; break;
		case 1: b = a; b[r.below(32)] ^= static_cast<uint8_t>(1u << r.below(8)); break;
		case 2: b = Bytes(a.rbegin(), a.rend()); break;
		default: b = genHash(r);
	}
	if (r.chance(1, 12)) { b = a; size_t i = r.below(32), j = r.below(32); std::swap(b[i], b[j]); }
	c.note("a=" + hexOf(a) + " b=" + hexOf(b));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	Exact ea(r, a), eb(r, b);
	Placed<Sha256Hash> ha(r, ea.p, static_cast<size_t>(32)), hb(r, eb.p, static_cast<size_t>(32));
	CHECK(c, std::equal(a.begin(), a.end(), ha->value), "byte constructor stored %s", hexOf(ha->value, 32).c_str());
	CHECK(c, (*ha == *hb) == (a == b), "operator== gave %d", *ha == *hb);
	CHECK(c, (*hb == *ha) == (a == b), "operator== is asymmetric");
	CHECK(c, (*ha != *hb) == (a != b), "operator!= gave %d", *ha != *hb);
	CHECK(c, *ha == *ha && !(*ha != *ha), "not reflexive");
	c.hit(a == b ? "hash.equal" : "hash.unequal");
	string hex = recase(r, hexOf(Bytes(a.rbegin(), a.rend())));
	Exact es(r, Bytes(hex.c_str(), hex.c_str() + 65));
	Placed<Sha256Hash> hs(r, reinterpret_cast<const char *>(es.p));
	CHECK(c, std::equal(a.begin(), a.end(), hs->value), "hex constructor(%s) stored %s", hex.c_str(), hexOf(hs->value, 32).c_str());
	CHECK(c, *hs == *ha, "hex- and byte-constructed hashes differ");
	c.observe(hs->value, 32);
	{   // Uint256 / FieldInt string and byte constructors
		mpz_class v = gen256(r);
		string h = recase(r, hexZ(v));
		Exact e(r, Bytes(h.c_str(), h.c_str() + 65));
		Placed<Uint256> u(r, reinterpret_cast<const char *>(e.p));
		CHECK(c, ZU(*u) == v, "Uint256(\"%s\") = %s", h.c_str(), hexZ(ZU(*u)).c_str());
		Exact be(r, toBE(v, 32));
		Placed<Uint256> u2(r, static_cast<const uint8_t *>(be.p));
		CHECK(c, ZU(*u2) == v, "Uint256(bytes) = %s, expected %s", hexZ(ZU(*u2)).c_str(), h.c_str());
		Exact o(r, 32);
		u2->getBigEndianBytes(o.p);
		CHECK(c, toBE(v, 32) == Bytes(o.p, o.p + 32), "getBigEndianBytes gave %s", hexOf(o.p, 32).c_str());
		mpz_class w = genBelow(r, Curve::P);
		h = recase(r, hexZ(w));
		Placed<FieldInt> f(r, h.c_str());
		CHECK(c, ZF(*f) == w, "FieldInt(\"%s\") = %s", h.c_str(), hexZ(ZF(*f)).c_str());
		f->getBigEndianBytes(o.p);
		CHECK(c, toBE(w, 32) == Bytes(o.p, o.p + 32), "FieldInt getBigEndianBytes gave %s", hexOf(o.p, 32).c_str());
		Placed<Uint256> u3(r, *f);
		CHECK(c, ZU(*u3) == w, "Uint256(FieldInt) = %s", hexZ(ZU(*u3)).c_str());
	}
	if (c.idx < 600) {   // every character code, and far-out ints
		int ch = c.idx < 512 ? static_cast<int>(c.idx) - 256 : static_cast<int>(r.u32());
		int want = -1;
		if (ch >= '0' && ch <= '9') want = ch - '0'; else if (ch >= 'a' && ch <= 'f') want = ch - 'a' + 10; else if (ch >= 'A' && ch <= 'F') want = ch - 'A' + 10;
		CHECK(c, Utils::parseHexDigit(ch) == want, "parseHexDigit(%d) = %d, expected %d", ch, Utils::parseHexDigit(ch), want);
		c.hit("parseHexDigit");
	}
	{
		uint32_t x = r.chance(1, 2) ? r.u32() : static_cast<uint32_t>(0x01000000UL << r.below(8)) | static_cast<uint32_t>(r.below(256) << (8 * r.below(4)));
		Exact e(r, 4);
		Utils::storeBigUint32(x, e.p);
		CHECK(c, e.p[0] == (x >> 24) && e.p[1] == ((x >> 16) & 255) && e.p[2] == ((x >> 8) & 255) && e.p[3] == (x & 255), "storeBigUint32(0x%08x) = %s", x, hexOf(e.p, 4).c_str());
		// copyBytes: any overlap, zero counts with null or one-past-end pointers
		size_t n = r.below(200);
		Bytes base = r.bytes(n);
		Exact buf(r, base);
		size_t cnt = r.below(n + 1), s = r.below(n - cnt + 1), d = r.below(n - cnt + 1);
		if (r.chance(1, 8)) cnt = 0;
		if (cnt == 0 && r.chance(1, 2)) { Utils::copyBytes(nullptr, r.chance(1, 2) ? nullptr : buf.p, 0); c.hit("copyBytes.null"); }
		else Utils::copyBytes(buf.p + d, buf.p + s, cnt);
		Bytes want = base; if (cnt) std::memmove(want.data() + d, base.data() + s, cnt);
		if (cnt == 0) want = base;
		CHECK(c, std::equal(want.begin(), want.end(), buf.p), "copyBytes(dest+%zu, src+%zu, %zu)", d, s, cnt);
		if (cnt && s != d) c.hit(std::max(s, d) - std::min(s, d) < cnt ? "copyBytes.overlap" : "copyBytes.disjoint");
	}
}
static RegisterSuite sTypes("types", typesCase);
