// Base58Check export and import monitors.
#include "lib.hpp"
#include "Base58Check.hpp"

using std::string;
static const char ALPHA[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

static Bytes genPayload(Rng &r, size_t n) {
	Bytes b = r.bytes(n);
	switch (r.below(8)) {
		case 0: std::fill(b.begin(), b.end(), 0); break;
		case 1: std::fill(b.begin(), b.end(), 0xFF); break;
		case 2: case 3: { size_t z = r.below(n + 1); std::fill(b.begin(), b.begin() + z, 0); break; }
		case 4: { size_t z = r.below(n + 1); std::fill(b.begin() + z, b.end(), 0); break; }
		case 5: { size_t z = r.below(n + 1); std::fill(b.begin(), b.begin() + z, 0xFF); break; }
		default: break;
	}
	return b;
}
// A valid extended key object (real key pair), with the other fields set directly.
static ExtendedPrivateKey baseKey(Rng &r) {
	static const std::vector<ExtendedPrivateKey> pool = [] {
		std::vector<ExtendedPrivateKey> pool;
		uint8_t cc[32] = {}, pp[4] = {};
		for (long k : {1L, 2L, 0x1234567L}) pool.push_back(ExtendedPrivateKey(U(mpz_class(k)), cc, 0, 0, pp));
		pool.push_back(ExtendedPrivateKey(U(Curve::N - 1), cc, 0, 0, pp));
		return pool;
	}();
	return pool[r.below(pool.size())];
}
static uint32_t genIndex(Rng &r) {
	static const uint32_t e[] = {0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xFF, 0x100, 0xFF00, 0x10000};
	return r.chance(1, 2) ? e[r.below(11)] : r.u32();
}
static Bytes xprvPayload(const ExtendedPrivateKey &k) {
	Bytes p = {0x04, 0x88, 0xAD, 0xE4, k.depth};
	p.insert(p.end(), k.parentPubkeyHash, k.parentPubkeyHash + 4);
	for (int s = 24; s >= 0; s -= 8) p.push_back(static_cast<uint8_t>(k.index >> s));
	p.insert(p.end(), k.chainCode, k.chainCode + 32);
	p.push_back(0);
	Bytes b = toBE(ZU(k.privateKey), 32);
	p.insert(p.end(), b.begin(), b.end());
	return p;
}
static string readOut(Ctx &c, const Exact &e) {
	CHECK(c, std::memchr(e.p, 0, e.n) != nullptr, "output is not NUL-terminated within its documented array");
	return string(reinterpret_cast<const char *>(e.p));
}

static void exportCase(Ctx &c) {
	Rng &r = c.rng;
	{
		Bytes h = genPayload(r, 20);
		uint8_t ver = r.chance(1, 2) ? static_cast<uint8_t>(r.below(3) * 0x05) : static_cast<uint8_t>(r.u32());
		if (r.chance(1, 2)) ver = 0;
		c.note(strf("pubkeyHashToBase58Check version=%u hash=%s", ver, hexOf(h).c_str()));
		c.nontrivial(hashBytes(h.data(), 20, ver + 5));
		Exact in(r, h), out(r, 36);
		Base58Check::pubkeyHashToBase58Check(in.p, ver, reinterpret_cast<char *>(out.p));
		Bytes pl = h; pl.insert(pl.begin(), ver);
		string got = readOut(c, out), want = refBase58Check(pl);
		c.observe(got.data(), got.size());
		CHECK(c, got == want, "address: got %s, expected %s", got.c_str(), want.c_str());
		CHECK(c, got.size() >= 25 && got.size() <= 35, "address length %zu outside [25,35]", got.size());
		CHECK(c, std::equal(h.begin(), h.end(), in.p), "input modified");
		c.hit(strf("address.len=%zu", got.size()));
		uint8_t back[20], v2 = static_cast<uint8_t>(~ver); std::memset(back, 0xA5, 20);
		CHECK(c, Base58Check::pubkeyHashFromBase58Check(got.c_str(), back, &v2) && v2 == ver && std::equal(h.begin(), h.end(), back), "address %s does not round-trip", got.c_str());
	}
	{
		mpz_class k = r.chance(1, 4) ? fromBE(genPayload(r, 32).data(), 32) : gen256(r);
		uint8_t ver = r.chance(1, 2) ? 0x80 : r.chance(1, 3) ? 0 : static_cast<uint8_t>(r.u32());
		bool comp = r.chance(1, 2);
		c.note(strf("privateKeyToBase58Check version=%u compressed=%d key=%s", ver, comp, hexZ(k).c_str()));
		c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
		Placed<Uint256> key(r, U(k));
		Exact out(r, 53);
		Base58Check::privateKeyToBase58Check(*key, ver, comp, reinterpret_cast<char *>(out.p));
		Bytes pl = toBE(k, 32); pl.insert(pl.begin(), ver); if (comp) pl.push_back(1);
		string got = readOut(c, out), want = refBase58Check(pl);
		c.observe(got.data(), got.size());
		CHECK(c, got == want, "WIF: got %s, expected %s", got.c_str(), want.c_str());
		CHECK(c, got.size() >= 38 && got.size() <= 52, "WIF length %zu outside [38,52]", got.size());
		CHECK(c, ZU(*key) == k, "key modified");
		c.hit(strf("wif.len=%zu", got.size()));
		Placed<Uint256> back(r, U(Curve::TWO256 - 1 - k)); uint8_t v2 = static_cast<uint8_t>(~ver); bool c2 = !comp;
		CHECK(c, Base58Check::privateKeyFromBase58Check(got.c_str(), *back, &v2, &c2) && v2 == ver && c2 == comp && ZU(*back) == k, "WIF %s does not round-trip", got.c_str());
	}
	{
		bool real = c.idx % 16 == 0;
		mpz_class kv = genBelow(r, Curve::N - 1) + 1;
		Bytes cc = genPayload(r, 32), pp = genPayload(r, 4);
		uint8_t depth = static_cast<uint8_t>(r.chance(1, 3) ? r.below(3) : r.u32());
		uint32_t idx = genIndex(r);
		ExtendedPrivateKey k = real ? ExtendedPrivateKey(U(kv), cc.data(), depth, idx, pp.data()) : baseKey(r);
		if (!real) { k.privateKey = U(kv); std::copy(cc.begin(), cc.end(), k.chainCode); std::copy(pp.begin(), pp.end(), k.parentPubkeyHash); k.depth = depth; k.index = idx; }
		c.note(strf("extendedPrivateKeyToBase58Check depth=%u index=%u key=%s chain=%s parent=%s", depth, idx, hexZ(kv).c_str(), hexOf(cc).c_str(), hexOf(pp).c_str()));
		c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
		Exact out(r, 112);
		Base58Check::extendedPrivateKeyToBase58Check(k, reinterpret_cast<char *>(out.p));
		string got = readOut(c, out), want = refBase58Check(xprvPayload(k));
		c.observe(got.data(), got.size());
		CHECK(c, got == want, "xprv: got %s, expected %s", got.c_str(), want.c_str());
		CHECK(c, got.size() == 111, "xprv length %zu", got.size());
		c.hit("xprv.exported");
		if (real) {
			ExtendedPrivateKey b;
			CHECK(c, Base58Check::extendedPrivateKeyFromBase58Check(got.c_str(), b), "xprv %s does not import", got.c_str());
			CHECK(c, ZU(b.privateKey) == kv && b.depth == depth && b.index == idx && std::equal(cc.begin(), cc.end(), b.chainCode) && std::equal(pp.begin(), pp.end(), b.parentPubkeyHash)
				&& affine(b.publicKey) == ptMul(ptG(), kv), "xprv %s does not round-trip", got.c_str());
			c.hit("xprv.roundtrip");
		}
	}
}
static RegisterSuite sExport("b58export", exportCase);

/*---- Import ----*/
static Bytes withCheck(Bytes p) {
	Bytes h = refSha256(p.data(), p.size()); h = refSha256(h.data(), 32);
	p.insert(p.end(), h.begin(), h.begin() + 4);
	return p;
}
static bool checkOk(const Bytes &full) { return full.size() >= 4 && withCheck(Bytes(full.begin(), full.end() - 4)) == full; }
static char oddChar(Rng &r) {
	static const char bad[] = "0OIl \t\n+-_/=.,\x01\x7f\x80\xff\xb1\xc1@[`{:;";
	switch (r.below(4)) { case 0: return ALPHA[r.below(58)]; case 1: { char ch = static_cast<char>(1 + r.below(255)); return ch; } default: return bad[r.below(sizeof bad - 1)]; }
}
static string mutate(Ctx &c, string s) {
	Rng &r = c.rng;
	unsigned n = 1 + (r.chance(1, 4) ? r.below(3) : 0);
	for (; n > 0; n--) {
		size_t at = s.empty() ? 0 : r.below(s.size());
		switch (r.below(13)) {
			case 0: if (!s.empty()) { s[at] = ALPHA[r.below(58)]; } c.hit("mut.substitute"); break;
			case 1: if (!s.empty()) { s[at] = oddChar(r); } c.hit("mut.odd-char"); break;
			case 2: s.insert(s.begin() + at, r.chance(1, 2) ? oddChar(r) : ALPHA[r.below(58)]); c.hit("mut.insert"); break;
			case 3: if (!s.empty()) s.erase(s.begin() + at); c.hit("mut.delete"); break;
			case 4: if (s.size() > 1) { at = r.below(s.size() - 1); std::swap(s[at], s[at + 1]); } c.hit("mut.transpose"); break;
			case 5: s.insert(0, 1 + r.below(3), '1'); c.hit("mut.extra-leading-1"); break;
			case 6: if (!s.empty() && s[0] == '1') s.erase(0, 1); else s += '1'; c.hit("mut.strip-leading-1"); break;
			case 7: s.resize(r.below(s.size() + 1)); c.hit("mut.truncate"); break;
			case 8: s += s.substr(0, r.below(s.size() + 1)); c.hit("mut.extend"); break;
			case 9: s += " \n\t\r1"[r.below(5)]; c.hit("mut.trailing"); break;
			case 10: s.insert(0, 1, " \n\t\r1"[r.below(5)]); c.hit("mut.leading"); break;
			case 11: if (!s.empty()) { s[at] = static_cast<char>(s[at] ^ (1 << r.below(8))); if (s[at] == 0) s[at] = '1'; } c.hit("mut.bitflip"); break;
			default: s = string(r.below(130), r.chance(1, 2) ? '1' : 'z'); c.hit("mut.constant-string"); break;
		}
	}
	return s;
}
// Adds a multiple of 256^bytes to the value, keeping the digit count within reach (wrap-around forgery).
static string overflow(Ctx &c, const Bytes &full, size_t maxLen) {
	Rng &r = c.rng;
	mpz_class v = fromBE(full.data(), full.size());
	mpz_class room; mpz_ui_pow_ui(room.get_mpz_t(), 58, maxLen);
	mpz_class unit = mpz_class(1) << (8 * full.size());
	mpz_class most = (room - 1 - v) / unit;
	if (most < 1) return refBase58(full);
	mpz_class m = modZ(mpz_class(static_cast<unsigned long>(r.next())), most) + 1;
	if (r.chance(1, 3)) m = 1;
	v += m * unit;
	string s;
	while (sgn(v) > 0) s += ALPHA[mpz_fdiv_q_ui(v.get_mpz_t(), v.get_mpz_t(), 58)];
	for (size_t i = 0; i < full.size() && full[i] == 0 && r.chance(1, 2); i++) s += '1';
	std::reverse(s.begin(), s.end());
	c.hit("mut.wraparound");
	return s;
}
// Strings far longer than any valid one whose length is a valid one modulo 2^8 or 2^16: a valid string followed by
// filler, or digits of a value congruent to the valid one modulo 256^bytes.
static string farTooLong(Ctx &c, const Bytes &full) {
	Rng &r = c.rng;
	string s = refBase58(full);
	size_t len = s.size() + (r.chance(1, 12) ? 65536 : 256 * (1 + r.below(3)));
	if (r.chance(1, 6)) len = s.size() + 1 + r.below(200);
	if (r.chance(1, 2)) { size_t n = len - s.size(); string t(n, r.chance(1, 2) ? '1' : 'z'); c.hit("mut.far-too-long"); return r.chance(1, 3) ? t + s : s + t; }
	mpz_class v = fromBE(full.data(), full.size()), lo; mpz_ui_pow_ui(lo.get_mpz_t(), 58, len - 1);
	mpz_class unit = mpz_class(1) << (8 * full.size()), m = lo / unit + mpz_class(static_cast<unsigned long>(1 + r.below(1u << 30)));
	v += m * unit;
	string t = v.get_str(58), o;   // GMP's digits: 0-9 A-Z a-z
	for (char ch : t) o += ALPHA[ch <= '9' ? ch - '0' : ch <= 'Z' ? ch - 'A' + 10 : ch - 'a' + 36];
	c.hit("mut.wraparound-far-too-long");
	return o;
}
// Payload of a chosen byte length with a good, bad or wrong-position checksum.
static string forge(Ctx &c, const Bytes &payload, size_t maxLen) {
	Rng &r = c.rng;
	Bytes full = withCheck(payload);
	if (r.chance(1, 24)) return farTooLong(c, full);
	switch (r.below(8)) {
		case 0: case 1: return refBase58(full);
		case 2: full[full.size() - 1 - r.below(4)] ^= static_cast<uint8_t>(1u << r.below(8)); c.hit("mut.checksum"); return refBase58(full);
		case 3: full[r.below(full.size())] ^= static_cast<uint8_t>(1u << r.below(8)); c.hit("mut.payload-bit"); return refBase58(full);
		case 4: return overflow(c, full, maxLen);
		case 5: { Bytes h = refSha256(payload.data(), payload.size()); std::copy(h.begin(), h.begin() + 4, full.end() - 4); c.hit("mut.single-sha-checksum"); return refBase58(full); }
		default: return mutate(c, refBase58(full));
	}
}

static void importAddr(Ctx &c, const string &s) {
	Rng &r = c.rng;
	c.note("pubkeyHashFromBase58Check(\"" + s + "\") bytes=" + hexOf(s.data(), s.size()));
	c.nontrivial(hashBytes(s.data(), s.size(), 1));
	Bytes dec; bool ok = s.size() >= 25 && s.size() <= 35 && refBase58Decode(s, dec) && dec.size() == 25 && checkOk(dec);
	Exact str(r, Bytes(s.c_str(), s.c_str() + s.size() + 1));
	Exact out(r, 20, 0xC3);
	uint8_t fillv = static_cast<uint8_t>(r.u32()), ver = fillv; bool nul = r.chance(1, 4);
	bool got = Base58Check::pubkeyHashFromBase58Check(reinterpret_cast<const char *>(str.p), out.p, nul ? nullptr : &ver);
	c.observe(&got, 1); c.observe(out.p, 20);
	CHECK(c, got == ok, "returned %d, expected %d", got, ok);
	if (ok) { CHECK(c, std::equal(out.p, out.p + 20, dec.begin() + 1) && (nul || ver == dec[0]), "decoded hash %s version %u", hexOf(out.p, 20).c_str(), ver); c.hit("addr.accepted"); }
	else { CHECK(c, std::all_of(out.p, out.p + 20, [](uint8_t b) { return b == 0xC3; }) && ver == fillv, "outputs changed although false was returned"); c.hit("addr.rejected"); }
	CHECK(c, std::memcmp(str.p, s.c_str(), s.size() + 1) == 0, "input string modified");
}
static void importWif(Ctx &c, const string &s) {
	Rng &r = c.rng;
	c.note("privateKeyFromBase58Check(\"" + s + "\") bytes=" + hexOf(s.data(), s.size()));
	c.nontrivial(hashBytes(s.data(), s.size(), 2));
	Bytes dec; bool ok = s.size() >= 38 && s.size() <= 52 && refBase58Decode(s, dec) && (dec.size() == 37 || (dec.size() == 38 && dec[33] == 1)) && checkOk(dec);
	Exact str(r, Bytes(s.c_str(), s.c_str() + s.size() + 1));
	mpz_class poison = gen256(r);
	Placed<Uint256> key(r, U(poison));
	uint8_t fillv = static_cast<uint8_t>(r.u32()), ver = fillv; bool fc = r.chance(1, 2), comp = fc; bool n1 = r.chance(1, 4), n2 = r.chance(1, 4);
	bool got = Base58Check::privateKeyFromBase58Check(reinterpret_cast<const char *>(str.p), *key, n1 ? nullptr : &ver, n2 ? nullptr : &comp);
	c.observe(&got, 1); c.observe(key->value, 32);
	CHECK(c, got == ok, "returned %d, expected %d", got, ok);
	if (ok) {
		CHECK(c, ZU(*key) == fromBE(&dec[1], 32) && (n1 || ver == dec[0]) && (n2 || comp == (dec.size() == 38)), "decoded key %s version %u compressed %d", hexZ(ZU(*key)).c_str(), ver, comp);
		c.hit(dec.size() == 38 ? "wif.accepted-compressed" : "wif.accepted-uncompressed");
	} else { CHECK(c, ZU(*key) == poison && ver == fillv && comp == fc, "outputs changed although false was returned"); c.hit(checkOk(dec) && dec.size() == 38 ? "wif.rejected-marker" : "wif.rejected"); }
}
static void importXprv(Ctx &c, const string &s) {
	Rng &r = c.rng;
	c.note("extendedPrivateKeyFromBase58Check(\"" + s + "\") bytes=" + hexOf(s.data(), s.size()));
	c.nontrivial(hashBytes(s.data(), s.size(), 3));
	Bytes dec; bool ok = s.size() == 111 && refBase58Decode(s, dec) && dec.size() == 82 && checkOk(dec);
	bool synt = ok;
	mpz_class k;
	if (ok) { k = fromBE(&dec[46], 32); ok = dec[0] == 4 && dec[1] == 0x88 && dec[2] == 0xAD && dec[3] == 0xE4 && dec[45] == 0 && k > 0 && k < Curve::N; }
	Exact str(r, Bytes(s.c_str(), s.c_str() + s.size() + 1));
	Placed<ExtendedPrivateKey> key(r, baseKey(r));
	key->index = r.u32(); key->depth = static_cast<uint8_t>(r.u32()); std::memset(key->chainCode, 0x77, 32);
	ExtendedPrivateKey before(*key);
	bool got = Base58Check::extendedPrivateKeyFromBase58Check(reinterpret_cast<const char *>(str.p), *key);
	c.observe(&got, 1); c.observe(key->privateKey.value, 32);
	CHECK(c, got == ok, "returned %d, expected %d", got, ok);
	if (ok) {
		uint32_t idx = uint32_t(dec[9]) << 24 | uint32_t(dec[10]) << 16 | uint32_t(dec[11]) << 8 | dec[12];
		CHECK(c, ZU(key->privateKey) == k && key->depth == dec[4] && key->index == idx && std::equal(dec.begin() + 5, dec.begin() + 9, key->parentPubkeyHash)
			&& std::equal(dec.begin() + 13, dec.begin() + 45, key->chainCode), "fields differ from the payload");
		CHECK(c, affine(key->publicKey) == ptMul(ptG(), k), "public key %s does not belong to the private key", showPoint(key->publicKey).c_str());
		c.hit("xprv.accepted");
	} else {
		CHECK(c, ZU(key->privateKey) == ZU(before.privateKey) && key->depth == before.depth && key->index == before.index && std::equal(before.chainCode, before.chainCode + 32, key->chainCode)
			&& std::equal(before.parentPubkeyHash, before.parentPubkeyHash + 4, key->parentPubkeyHash) && key->publicKey == before.publicKey, "object changed although false was returned");
		c.hit(synt ? "xprv.rejected-semantic" : "xprv.rejected");
	}
}
static size_t lenNear(Rng &r, size_t n) { switch (r.below(8)) { case 0: return n - 1; case 1: return n + 1; case 2: return n - 1 - r.below(n); case 3: return n + r.below(4); default: return n; } }

static void importCase(Ctx &c) {
	Rng &r = c.rng;
	{
		Bytes p = genPayload(r, lenNear(r, 21));
		if (r.chance(1, 3) && !p.empty()) p[0] = 0;
		importAddr(c, forge(c, p, 35));
		// The other string kinds must not be taken for an address.
		if (r.chance(1, 6)) importAddr(c, refBase58Check(genPayload(r, r.chance(1, 2) ? 33 : 34)));
	}
	{
		bool comp = r.chance(1, 2);
		Bytes p = genPayload(r, lenNear(r, comp ? 34 : 33));
		if (r.chance(1, 2) && !p.empty()) p[0] = 0x80;
		if (comp && p.size() == 34) p[33] = r.chance(2, 3) ? 1 : static_cast<uint8_t>(r.chance(1, 2) ? r.below(4) : r.u32());
		importWif(c, forge(c, p, 52));
	}
	{
		ExtendedPrivateKey k = baseKey(r);
		mpz_class kv;
		switch (r.below(6)) { case 0: kv = 0; break; case 1: kv = Curve::N + static_cast<long>(r.below(3)); break; case 2: kv = Curve::N - 1 - static_cast<long>(r.below(3)); break; case 3: kv = 1; break; default: kv = gen256(r); }
		k.privateKey = U(kv);
		Bytes cc = genPayload(r, 32), pp = genPayload(r, 4);
		std::copy(cc.begin(), cc.end(), k.chainCode); std::copy(pp.begin(), pp.end(), k.parentPubkeyHash);
		k.depth = static_cast<uint8_t>(r.u32()); k.index = genIndex(r);
		Bytes p = xprvPayload(k);
		switch (r.below(6)) {
			case 0: p[r.below(4)] ^= static_cast<uint8_t>(1u << r.below(r.chance(1, 2) ? 1 : 8)); c.hit("mut.header"); break;
			case 1: p[45] = static_cast<uint8_t>(r.chance(1, 2) ? 1u << r.below(8) : r.u32()); c.hit("mut.key-prefix"); break;
			default: break;
		}
		if (r.chance(1, 8)) p.resize(lenNear(r, 78));
		importXprv(c, forge(c, p, 111));
	}
	if (r.chance(1, 4)) {  // arbitrary strings of every length
		string s; size_t n = r.below(r.chance(1, 2) ? 60 : 140);
		bool clean = r.chance(2, 3);
		for (size_t i = 0; i < n; i++) s += clean ? ALPHA[r.below(58)] : oddChar(r);
		for (auto &ch : s) if (ch == 0) ch = '1';
		importAddr(c, s); importWif(c, s); importXprv(c, s);
		c.hit("random-string");
	}
}
static RegisterSuite sImport("b58import", importCase);
