// Hash monitors: every library hash against an independent implementation, under many call histories.
#include "common.hpp"
#include "steer.hpp"
#include <sys/mman.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"

using std::string;

// A length whose bit count is uniform, below 2^bits.
static size_t logLen(Rng &r, unsigned bits) { return static_cast<size_t>(r.next() & ((uint64_t(1) << r.below(bits + 1)) - 1)); }
// Message lengths concentrated on block and padding boundaries.
static size_t genLen(Ctx &c, size_t block) {
	Rng &r = c.rng;
	if (c.idx < 3 * block) return c.idx;            // every length up to three blocks, once each
	switch (r.below(10)) {
		case 0: return r.below(4);
		case 1: case 2: case 3: { size_t k = block * r.below(12); long d = static_cast<long>(r.below(40)) - 20; return static_cast<size_t>(std::max<long>(0, static_cast<long>(k) + d)); }
		case 4: case 5: case 6: return r.below(4 * block);
		case 7: return r.below(1500);
		case 8: return block * r.below(33);
		default:
			if (r.chance(1, 300)) { c.hit("len.megabytes"); return (size_t(1) << 20) + r.below(size_t(1) << 21); }
			return c.thorough || r.chance(1, 20) ? r.below(70000) : logLen(r, 13);
	}
}
static Bytes genMsg(Rng &r, size_t n) {
	Bytes b = r.bytes(n);
	switch (r.below(6)) {
		case 0: std::fill(b.begin(), b.end(), 0); break;
		case 1: std::fill(b.begin(), b.end(), 0xFF); break;
		case 2: if (n) { size_t z = r.below(n + 1); std::fill(b.begin() + z, b.end(), 0); } break;
		case 3: for (auto &x : b) x |= 0x80; break;
		default: break;
	}
	return b;
}
static void lenEvents(Ctx &c, size_t n, size_t block, size_t lenField) {
	size_t m = n % block;
	c.hit(m == 0 ? "len.mod=0" : m == block - lenField - 1 ? "len.mod=last-fitting" : m == block - lenField ? "len.mod=first-spilling" : m == block - 1 ? "len.mod=block-1" : m == 1 ? "len.mod=1" : "len.mod=other");
	if (n == 0) c.hit("len=0");
	c.hit("blocks", n / block);
}
static void eqBytes(Ctx &c, const char *what, const uint8_t *got, const Bytes &want) {
	c.observe(got, want.size());
	CHECK(c, std::memcmp(got, want.data(), want.size()) == 0, "%s: got %s, expected %s", what, hexOf(got, want.size()).c_str(), hexOf(want).c_str());
}
static const uint8_t *orNull(Rng &r, const Exact &e) { return e.n == 0 && r.chance(1, 2) ? nullptr : e.p; }

// Streaming monitor, generic over the two streaming hashers: a population of live hashers with
// recorded histories; random appends, copies, and finalisations, each finalised digest compared.
template<class H, class Fin> static void streaming(Ctx &c, size_t block, Bytes (*ref)(const uint8_t *, size_t), Fin fin) {
	Rng &r = c.rng;
	struct Live { std::unique_ptr<H> h; Bytes hist; };
	std::vector<Live> live;
	// One long append onto every buffer fill level, in two or three parts.
	{
		Bytes hist;
		H h;
		size_t fill = c.idx % block, parts = 1 + r.below(2);
		for (size_t k = 0; k <= parts; k++) {
			size_t n = k == 0 ? fill + (r.chance(1, 4) ? block * r.below(20) : 0) : r.chance(1, 3) ? block * r.below(40) + r.below(3) : logLen(r, c.thorough && r.chance(1, 8) ? 17 : 12);
			Exact e(r, genMsg(r, n));
			h.append(orNull(r, e), n);
			hist.insert(hist.end(), e.p, e.p + n);
			if (k > 0 && n >= 4 * block) c.hit("stream.long-append");
		}
		c.note(strf("streaming: first append leaves %zu buffered bytes, total %zu", fill, hist.size()));
		uint8_t out[64];
		fin(h, out);
		eqBytes(c, "streaming digest (long appends)", out, ref(hist.data(), hist.size()));
	}
	unsigned steps = 3 + r.below(14);
	auto finish = [&](size_t i) {
		uint8_t out[64];
		fin(*live[i].h, out);
		Bytes want = ref(live[i].hist.data(), live[i].hist.size());
		eqBytes(c, "streaming digest", out, want);
		c.hit("stream.finished");
		live.erase(live.begin() + i);
	};
	for (unsigned s = 0; s < steps; s++) {
		unsigned op = live.empty() ? 0 : r.below(10);
		if (op == 0 && live.size() < 4) { live.push_back(Live{std::unique_ptr<H>(new H()), Bytes()}); c.hit("stream.new"); continue; }
		size_t i = r.below(live.size());
		if (op == 1 && live.size() < 5) {  // fork the hasher mid-stream
			live.push_back(Live{std::unique_ptr<H>(new H(*live[i].h)), live[i].hist}); c.hit("stream.copied");
			continue;
		}
		if (op == 2) { H other; other = *live[i].h; *live[i].h = other; c.hit("stream.assigned"); }
		if (op == 3 && s > 2) { finish(i); continue; }
		// append, sometimes chained
		unsigned chain = 1 + r.below(3);
		H *h = live[i].h.get();
		for (unsigned k = 0; k < chain; k++) {
			size_t n;
			size_t used = live[i].hist.size() % block;
			switch (r.below(6)) {
				case 0: n = 0; c.hit("stream.append0"); break;
				case 1: n = block - used; c.hit("stream.append-to-boundary"); break;
				case 2: n = block - used + block * r.below(3) + r.below(3); break;
				case 3: n = 1; break;
				default: n = r.below(2 * block + 10);
			}
			Exact e(r, genMsg(r, n));
			H &ret = h->append(orNull(r, e), n);
			CHECK(c, &ret == h, "append() did not return the hasher itself");
			live[i].hist.insert(live[i].hist.end(), e.p, e.p + n);
			c.hit("stream.appends");
		}
	}
	while (!live.empty()) finish(r.below(live.size()));
}

template<class F> static void hmacCases(Ctx &c, size_t block, Bytes (*ref)(const Bytes &, const Bytes &), F call, size_t outLen) {
	Rng &r = c.rng;
	size_t kl;
	size_t edges[] = {0, 1, 20, 31, 32, 33, block - 1, block, block + 1, 2 * block - 1, 2 * block, 2 * block + 1, block / 2, 64, 63, 65};
	switch (r.below(3)) { case 0: kl = r.below(3 * block); break; default: kl = edges[r.below(sizeof edges / sizeof *edges)]; }
	size_t ml = r.below(3) ? r.below(3 * block) : genLen(c, block);
	Bytes kb = genMsg(r, kl), mb = genMsg(r, ml);
	if (r.chance(1, 4)) { std::fill(kb.begin(), kb.end(), r.chance(1, 2) ? 0x36 : 0x5C); }
	Exact k(r, kb), m(r, mb);
	c.note(strf("hmac keyLen=%zu msgLen=%zu key=%s", kl, ml, hexOf(kb).substr(0, 400).c_str()));
	uint8_t out[64];
	call(orNull(r, k), kl, orNull(r, m), ml, out);
	eqBytes(c, "HMAC", out, ref(kb, mb));
	c.hit(kl < block ? "hmac.key<block" : kl == block ? "hmac.key=block" : "hmac.key>block");
	if (kl == 0) c.hit("hmac.key=0");
	CHECK(c, std::equal(kb.begin(), kb.end(), k.p) && std::equal(mb.begin(), mb.end(), m.p), "HMAC modified its inputs");
	// key and message in the same storage
	call(k.p, kl, k.p, kl, out);
	eqBytes(c, "HMAC(key=msg)", out, ref(kb, kb));
	(void)outLen;
}

static void sha256Case(Ctx &c) {
	Rng &r = c.rng;
	size_t n = genLen(c, 64);
	Bytes b = genMsg(r, n);
	if (c.idx >= 192 && r.chance(1, 3)) steerSha256(c, b);
	Exact m(r, b);
	c.note(strf("sha256 len=%zu msg=%s", n, hexOf(b).substr(0, 600).c_str()));
	c.nontrivial(hashBytes(b.data(), b.size(), 77 + n));
	lenEvents(c, n, 64, 8);
	Bytes want = refSha256(b.data(), n);
	Sha256Hash h = Sha256::getHash(orNull(r, m), n);
	eqBytes(c, "SHA-256", h.value, want);
	Sha256Hash d = Sha256::getDoubleHash(orNull(r, m), n);
	eqBytes(c, "double SHA-256", d.value, refSha256(want.data(), 32));
	CHECK(c, std::equal(b.begin(), b.end(), m.p), "hashing modified the message");
	streaming<Sha256>(c, 64, refSha256, [](Sha256 &x, uint8_t *o) { Sha256Hash g = x.getHash(); std::memcpy(o, g.value, 32); });
	hmacCases(c, 64, refHmac256, [](const uint8_t *k, size_t kl, const uint8_t *ms, size_t ml, uint8_t *o) { Sha256Hash g = Sha256::getHmac(k, kl, ms, ml); std::memcpy(o, g.value, 32); }, 32);
	{   // compression function on arbitrary chaining values
		uint32_t st[8], ref[8];
		mpz_class v = gen256(r);
		toWords(v, st); std::memcpy(ref, st, 32);
		Bytes blk = genMsg(r, 64);
		Exact e(r, blk);
		c.note("sha256 compress state=" + hexOf(st, 32) + " block=" + hexOf(blk));
		Sha256::compress(st, e.p);
		refSha256Compress(ref, blk.data());
		c.observe(st, 32);
		CHECK(c, std::memcmp(st, ref, 32) == 0, "compress: got %s, expected %s", hexOf(st, 32).c_str(), hexOf(ref, 32).c_str());
		CHECK(c, std::equal(blk.begin(), blk.end(), e.p), "compress modified the block");
		c.hit("compress");
	}
}
static RegisterSuite sSha256("sha256", sha256Case);

static void sha512Case(Ctx &c) {
	Rng &r = c.rng;
	size_t n = genLen(c, 128);
	Bytes b = genMsg(r, n);
	if (c.idx >= 384 && r.chance(1, 3)) steerSha512(c, b);
	Exact m(r, b);
	c.note(strf("sha512 len=%zu msg=%s", n, hexOf(b).substr(0, 600).c_str()));
	c.nontrivial(hashBytes(b.data(), b.size(), 78 + n));
	lenEvents(c, n, 128, 16);
	Exact out(r, 64);
	Sha512::getHash(orNull(r, m), n, out.p);
	eqBytes(c, "SHA-512", out.p, refSha512(b.data(), n));
	CHECK(c, std::equal(b.begin(), b.end(), m.p), "hashing modified the message");
	streaming<Sha512>(c, 128, refSha512, [&r](Sha512 &x, uint8_t *o) { Exact e(r, 64); x.getHash(e.p); std::memcpy(o, e.p, 64); });
	hmacCases(c, 128, refHmac512, [&r](const uint8_t *k, size_t kl, const uint8_t *ms, size_t ml, uint8_t *o) { Exact e(r, 64); Sha512::getHmac(k, kl, ms, ml, e.p); std::memcpy(o, e.p, 64); }, 64);
}
static RegisterSuite sSha512("sha512", sha512Case);

static void simpleHash(Ctx &c, const char *name, size_t block, size_t lenField, size_t outLen,
		void (*f)(const uint8_t *, size_t, uint8_t *), Bytes (*ref)(const uint8_t *, size_t), void (*steer)(Ctx &, Bytes &)) {
	Rng &r = c.rng;
	size_t n = genLen(c, block);
	Bytes b = genMsg(r, n);
	if (c.idx >= 3 * block && r.chance(1, 3)) steer(c, b);
	Exact m(r, b), out(r, outLen);
	c.note(strf("%s len=%zu msg=%s", name, n, hexOf(b).substr(0, 600).c_str()));
	c.nontrivial(hashBytes(b.data(), b.size(), 79 + n));
	lenEvents(c, n, block, lenField);
	f(orNull(r, m), n, out.p);
	Bytes want = ref(b.data(), n);
	eqBytes(c, name, out.p, want);
	CHECK(c, std::equal(b.begin(), b.end(), m.p), "hashing modified the message");
	// A second call on the same input, after other traffic, gives the same digest (no hidden state).
	Bytes other = genMsg(r, r.below(300));
	Exact om(r, other), oo(r, outLen);
	f(om.p, other.size(), oo.p);
	eqBytes(c, "second message", oo.p, ref(other.data(), other.size()));
	f(m.p, n, out.p);
	eqBytes(c, "repeated call", out.p, want);
}
static void ripemdCase(Ctx &c) { simpleHash(c, "ripemd160", 64, 8, 20, Ripemd160::getHash, refRipemd160, steerRipemd); }
static void keccakCase(Ctx &c) { simpleHash(c, "keccak256", 136, 0, 32, Keccak256::getHash, refKeccak256, steerKeccak); }
static RegisterSuite sRip("ripemd160", ripemdCase);
static RegisterSuite sKec("keccak256", keccakCase);

/*---- Very long messages: byte and bit counters beyond 32 bits ----*/
// case idx selects (algorithm, length class); the mapping is sparse, mostly the shared zero page.
struct Big {
	uint8_t *p; size_t n;
	Big(Ctx &c, size_t n_) : n(n_) {
		p = static_cast<uint8_t *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (p == MAP_FAILED) { fprintf(stderr, "HARNESS: cannot map %zu bytes\n", n); std::_Exit(70); }
		for (int i = 0; i < 40; i++) p[c.rng.below(n)] = static_cast<uint8_t>(c.rng.u32());
		p[0] = 1; p[n - 1] = 0x5A;
		for (size_t e : {size_t(1) << 29, size_t(1) << 31, size_t(1) << 32}) if (e < n) { p[e] = 0x11; p[e - 1] = 0x22; }
	}
	~Big() { munmap(p, n); }
};
// The residues of a length modulo the block size at which padding and block loops change their course.
static size_t residueClass(Rng &r, uint64_t k, int algo) {
	size_t block = algo == 1 ? 128 : algo == 3 ? 136 : 64, limit = algo == 1 ? 112 : algo == 3 ? 135 : 56;
	switch (k) { case 0: return block - 1; case 1: return 0; case 2: return limit; case 3: return limit - 1; case 4: return 1; case 5: return block - 2 - r.below(8); default: return r.below(block); }
}
static size_t withResidue(size_t n, Rng &r, uint64_t k, int algo) { size_t block = algo == 1 ? 128 : algo == 3 ? 136 : 64; return n / block * block + residueClass(r, k, algo); }
// Messages of 2^15 to 2^26 bytes, every power of two with every residue class.
static void lengthyCase(Ctx &c, int algo) {
	unsigned e = 15 + static_cast<unsigned>(c.idx / 7 % 11);
	size_t n = withResidue((size_t(1) << e) + c.rng.below(uint64_t(1) << e), c.rng, c.idx % 7, algo);
	uint64_t form = algo < 2 ? (c.idx / 77 + c.rng.below(2)) % 4 : 0;
	c.note(strf("long message: algo=%d len=%zu form=%lu", algo, n, form)); c.nontrivial(n * 8 + algo);
	Bytes m = c.rng.bytes(n), key = c.rng.bytes(c.rng.below(200)); uint8_t out[64];
	auto hash = [&](const Bytes &b) { switch (algo) { case 0: return refSha256(b.data(), b.size()); case 1: return refSha512(b.data(), b.size()); case 2: return refRipemd160(b.data(), b.size()); default: return refKeccak256(b.data(), b.size()); } };
	if (form == 0) {
		switch (algo) {
			case 0: { Sha256Hash h = Sha256::getHash(m.data(), n); std::memcpy(out, h.value, 32); break; }
			case 1: Sha512::getHash(m.data(), n, out); break;
			case 2: Ripemd160::getHash(m.data(), n, out); break;
			default: Keccak256::getHash(m.data(), n, out);
		}
		eqBytes(c, "digest of a long message", out, hash(m));
	} else if (form == 1) {
		Sha256 s; Sha512 t; size_t k = 0;
		while (k < n) { size_t step = std::min<size_t>(n - k, c.rng.chance(1, 2) ? c.rng.below(300) : c.rng.below(n)); if (algo) t.append(&m[k], step); else s.append(&m[k], step); k += step; }
		if (algo) t.getHash(out); else { Sha256Hash h = s.getHash(); std::memcpy(out, h.value, 32); }
		eqBytes(c, "digest of a long message in pieces", out, hash(m));
	} else {
		const Bytes &k = form == 2 ? key : m, &t = form == 2 ? m : key;
		if (algo) Sha512::getHmac(k.data(), k.size(), t.data(), t.size(), out); else { Sha256Hash h = Sha256::getHmac(k.data(), k.size(), t.data(), t.size()); std::memcpy(out, h.value, 32); }
		eqBytes(c, "HMAC of or with a long message", out, algo ? refHmac512(k, t) : refHmac256(k, t));
	}
	static const char *forms[] = {"whole", "pieces", "hmac-message", "hmac-key"};
	c.hit(strf("lengthy.2^%u.%s", e, forms[form]));
}
static void long0(Ctx &c) { lengthyCase(c, 0); } static void long1(Ctx &c) { lengthyCase(c, 1); }
static void long2(Ctx &c) { lengthyCase(c, 2); } static void long3(Ctx &c) { lengthyCase(c, 3); }
static RegisterSuite sL0("long-sha256", long0), sL1("long-sha512", long1), sL2("long-ripemd160", long2), sL3("long-keccak256", long3);
static const size_t BIGLEN[] = {(size_t(1) << 29) + 3, (size_t(1) << 31) + 77, (size_t(1) << 32) + 131};
// Keyed and composed forms: an HMAC of a message or with a key of such a length, a double hash, and appending such a
// length to a partly filled block. Lengths lie where adding the key block carries the bit counter past 32 bits.
static void bigKeyed(Ctx &c, int algo) {
	size_t n = (size_t(1) << 29) - c.rng.below(130), which = (c.idx - 6) % 4;
	if (which == 1 || which == 3) n = (size_t(1) << 29) + c.rng.below(70);
	if (c.idx >= 10) n += size_t(7) << 29;
	c.note(strf("huge keyed message: algo=%d len=%zu form=%zu", algo, n, which));
	c.nontrivial(n * 8 + algo + 4 * which);
	Big b(c, n);
	uint8_t out[64]; size_t block = algo ? 128 : 64, hl = algo ? 64 : 32;
	auto hash = [algo](const uint8_t *m, size_t k) { return algo ? refSha512(m, k) : refSha256(m, k); };
	auto hmac = [&](const Bytes &key, const uint8_t *m, size_t k) {
		Bytes o(64); unsigned ol = 0;
		if (!HMAC(algo ? EVP_sha512() : EVP_sha256(), key.data(), static_cast<int>(key.size()), m, k, o.data(), &ol) || ol != hl) { fprintf(stderr, "HARNESS: HMAC failed\n"); std::_Exit(70); }
		o.resize(hl); return o;
	};
	auto mine = [&](const uint8_t *k, size_t kl, const uint8_t *m, size_t ml) { if (algo) Sha512::getHmac(k, kl, m, ml, out); else { Sha256Hash h = Sha256::getHmac(k, kl, m, ml); std::memcpy(out, h.value, 32); } };
	Bytes small(1 + c.rng.below(3 * block)); for (auto &x : small) x = static_cast<uint8_t>(c.rng.u32());
	switch (which) {
		case 0: mine(small.data(), small.size(), b.p, n); eqBytes(c, "HMAC of a huge message", out, hmac(small, b.p, n)); break;
		case 1: mine(b.p, n, small.data(), small.size()); eqBytes(c, "HMAC with a huge key", out, hmac(hash(b.p, n), small.data(), small.size())); break;
		case 2: case 3: {
			if (which == 2 && algo == 0) { Sha256Hash h = Sha256::getDoubleHash(b.p, n); std::memcpy(out, h.value, 32); eqBytes(c, "huge double SHA-256", out, refSha256(refSha256(b.p, n).data(), 32)); break; }
			// the whole message in one mapping for the oracle: head | huge | tail, appended in three calls
			size_t head = 1 + c.rng.below(block - 1), tailLen = 1 + c.rng.below(block);
			if (algo) { Sha512 s; s.append(b.p, head); s.append(b.p + head, n - head - tailLen); s.append(b.p + (n - tailLen), tailLen); s.getHash(out); }
			else { Sha256 s; s.append(b.p, head); s.append(b.p + head, n - head - tailLen); s.append(b.p + (n - tailLen), tailLen); Sha256Hash h = s.getHash(); std::memcpy(out, h.value, 32); }
			eqBytes(c, "huge append to a partly filled block", out, hash(b.p, n)); break; }
	}
	static const char *forms[] = {"hmac-message", "hmac-key", "double-or-append", "append"};
	c.hit(strf("huge.%s.%s.%zu-half-GiB", algo ? "sha512" : "sha256", forms[which], n >> 29));
}
static void bigCase(Ctx &c, int algo) {
	if (c.idx >= 6) { bigKeyed(c, algo); return; }
	size_t n = BIGLEN[c.idx % 3] + c.rng.below(300);
	if (c.idx % 3 == 0 && c.rng.chance(1, 2)) n = (size_t(1) << 29) + 64 * c.rng.below(4);
	else n = withResidue(n, c.rng, c.rng.below(7), algo);
	c.note(strf("huge message: algo=%d len=%zu", algo, n));
	c.nontrivial(n * 8 + algo);
	Big b(c, n);
	static const char *names[] = {"sha256", "sha512", "ripemd160", "keccak256"};
	uint8_t out[64], out2[64];
	switch (algo) {
		case 0: {
			if (c.idx / 3 % 2 == 0) { Sha256Hash h = Sha256::getHash(b.p, n); std::memcpy(out, h.value, 32); }
			else { Sha256 s; size_t k = 0; while (k < n) { size_t m = std::min(n - k, size_t(1) << 28); s.append(b.p + k, m); k += m; } Sha256Hash h = s.getHash(); std::memcpy(out, h.value, 32); }
			eqBytes(c, "huge SHA-256", out, refSha256(b.p, n)); break; }
		case 1: {
			if (c.idx / 3 % 2 == 0) Sha512::getHash(b.p, n, out);
			else { Sha512 s; size_t k = 0; while (k < n) { size_t m = std::min(n - k, size_t(1) << 28); s.append(b.p + k, m); k += m; } s.getHash(out); }
			eqBytes(c, "huge SHA-512", out, refSha512(b.p, n)); break; }
		case 2: Ripemd160::getHash(b.p, n, out); eqBytes(c, "huge RIPEMD-160", out, refRipemd160(b.p, n)); break;
		default: Keccak256::getHash(b.p, n, out); eqBytes(c, "huge Keccak-256", out, refKeccak256(b.p, n));
	}
	(void)out2;
	c.hit(strf("huge.%s.%zu-GiB", names[algo], n >> 30));
}
static void big0(Ctx &c) { bigCase(c, 0); } static void big1(Ctx &c) { bigCase(c, 1); }
static void big2(Ctx &c) { bigCase(c, 2); } static void big3(Ctx &c) { bigCase(c, 3); }
static RegisterSuite sB0("huge-sha256", big0), sB1("huge-sha512", big1), sB2("huge-ripemd160", big2), sB3("huge-keccak256", big3);
