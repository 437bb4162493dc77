// Concurrency monitor: every other suite's cases run at the same time on several threads (each thread with its
// own objects and its own oracle), plus threads hammering shared read-only objects. One process per case, so the
// first use of every piece of library state happens concurrently. ThreadSanitizer watches the library's accesses.
#include "lib.hpp"
#include <atomic>
#include <thread>
#include "Base58Check.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"

using std::string;
struct Barrier {
	std::atomic<int> waiting{0}; int total;
	explicit Barrier(int n) : total(n) {}
	void wait() { waiting.fetch_add(1); while (waiting.load() < total) std::this_thread::yield(); }
};
static void threadsCase(Ctx &c) {
	Rng &r = c.rng;
	int nt = 3 + static_cast<int>(r.below(6));
	unsigned rounds = c.thorough ? 40 : 14;
	static const char *mix[] = {"uint", "recip", "field", "point", "mul", "sign", "hmacsign", "verify", "sha256", "sha512", "ripemd160", "keccak256", "b58export", "b58import", "bip32", "types"};
	std::vector<const Suite *> avail;
	for (const char *m : mix) for (auto &s : suites()) if (!std::strcmp(s.name, m)) avail.push_back(&s);
	bool same = r.chance(1, 2);      // all threads in lock step on one suite, or a random mixture
	const Suite *fixed = avail[c.idx % avail.size()];
	c.note(strf("threads=%d rounds=%u first=%s same=%d", nt, rounds, fixed->name, same));
	// Expected values for the shared-object operations come from the oracle, before the library is used at all.
	mpz_class d = genBelow(r, Curve::N - 1) + 1, k = genBelow(r, Curve::N - 1) + 1;
	Pt pub = ptMul(ptG(), d);
	Bytes msg = r.bytes(200), key = r.bytes(40);
	Bytes w256 = refSha256(msg.data(), msg.size()), w512 = refSha512(msg.data(), msg.size()), wr = refRipemd160(msg.data(), msg.size()), wk = refKeccak256(msg.data(), msg.size()), wh = refHmac512(key, msg);
	mpz_class z = modZ(fromBE(Bytes(w256.rbegin(), w256.rend()).data(), 32), Curve::N);
	(void)z;
	std::vector<std::unique_ptr<Ctx>> ctx;
	std::vector<std::string> errs(nt);
	std::atomic<uint64_t> sharedOps{0};
	// Shared, never modified after this point (constructed without calling into point arithmetic).
	const Uint256 sd = U(d);
	const CurvePoint sp = CPoint(pub);
	const Sha256Hash sh(w256.data(), 32);
	Barrier bar(nt);
	// Order of the starts and ends of the operations over all threads; relaxed increments order nothing for ThreadSanitizer.
	std::atomic<uint32_t> ticket{0};
	std::vector<std::vector<std::pair<uint32_t, uint32_t>>> spans(nt);
	for (int t = 0; t < nt; t++) {
		ctx.emplace_back(new Ctx());
		Ctx &x = *ctx.back();
		x.quiet = true; x.seed = c.seed; x.thorough = false;
	}
	auto body = [&](int t) {
		Ctx &x = *ctx[t];
		try {
			Rng tr(c.seed, 9000 + t, c.idx);
			bar.wait();
			for (unsigned i = 0; i < rounds; i++) {
				const Suite *s = i == 0 || same ? fixed : avail[tr.below(avail.size())];
				x.suite = s->name; x.idx = 1000 + tr.below(1u << 20);
				x.rng = Rng(c.seed, hashBytes(s->name, std::strlen(s->name)), x.idx);
				uint32_t t0 = ticket.fetch_add(1, std::memory_order_relaxed);
				s->runCase(x);
				spans[t].emplace_back(t0, ticket.fetch_add(1, std::memory_order_relaxed));
				x.cases++;
				if (i % 4 == 3) {
					uint8_t o[64];
					switch (tr.below(8)) {
						case 0: { CurvePoint q = CurvePoint::privateExponentToPublicPoint(sd); CHECK(x, affine(q) == pub, "shared key: wrong public point"); break; }
						case 1: { CurvePoint q = CurvePoint::G; q.multiply(sd); q.normalize(); CHECK(x, affine(q) == pub, "shared base point: wrong product"); break; }
						case 2: { CHECK(x, sp.isOnCurve() && !sp.isZero(), "shared point off curve"); uint8_t cp[33]; sp.toCompressedPoint(cp); CHECK(x, fromBE(cp + 1, 32) == pub.x, "shared point compression"); break; }
						case 3: { Uint256 rr = Uint256::ZERO, ss = Uint256::ZERO; CHECK(x, Ecdsa::signWithHmacNonce(sd, sh, rr, ss) && Ecdsa::verify(sp, sh, rr, ss), "shared key: signature does not verify"); break; }
						case 4: Sha256Hash h = Sha256::getHash(msg.data(), msg.size()); CHECK(x, h == sh, "shared message: SHA-256"); break;
					}
					switch (tr.below(4)) {
						case 0: Sha512::getHash(msg.data(), msg.size(), o); CHECK(x, !std::memcmp(o, w512.data(), 64), "shared message: SHA-512"); break;
						case 1: Ripemd160::getHash(msg.data(), msg.size(), o); CHECK(x, !std::memcmp(o, wr.data(), 20), "shared message: RIPEMD-160"); break;
						case 2: Keccak256::getHash(msg.data(), msg.size(), o); CHECK(x, !std::memcmp(o, wk.data(), 32), "shared message: Keccak"); break;
						default: Sha512::getHmac(key.data(), key.size(), msg.data(), msg.size(), o); CHECK(x, !std::memcmp(o, wh.data(), 64), "shared message: HMAC-SHA-512");
					}
					sharedOps++;
				}
			}
		} catch (const Violation &v) { errs[t] = string(x.suite) + ": " + v.msg + " | " + x.describe; }
	};
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back(body, t);
	for (auto &t : th) t.join();
	for (int t = 0; t < nt; t++) {
		c.evaluations += ctx[t]->evaluations;
		c.hit("thread.cases", ctx[t]->cases);
		c.nontrivial(hashBytes(&t, sizeof t, c.idx * 31 + ctx[t]->evaluations));
	}
	std::vector<uint8_t> order(ticket.load(), 0xFF);   // which thread drew which ticket
	uint64_t overlaps = 0, switches = 0;
	for (int t = 0; t < nt; t++) for (auto &p : spans[t]) { order[p.first] = static_cast<uint8_t>(t); order[p.second] = static_cast<uint8_t>(0x80 | t); }
	for (int t = 0; t < nt; t++) for (int u = 0; u < t; u++) for (auto &p : spans[t]) for (auto &q : spans[u]) overlaps += p.first < q.second && q.first < p.second;
	for (size_t i = 1; i < order.size(); i++) switches += (order[i] & 0x7F) != (order[i - 1] & 0x7F);
	c.hit("overlapping-operation-pairs", overlaps); c.hit("switches-between-threads", switches);
	c.hit(strf("interleaving.%016lx", static_cast<unsigned long>(hashBytes(order.data(), order.size()))));
	c.hit("threads", nt); c.hit("shared-object-ops", sharedOps.load());
	c.hit(string("first-use.") + fixed->name);
	for (int t = 0; t < nt; t++) if (!errs[t].empty()) c.fail(strf("thread %d of %d: ", t, nt) + errs[t]);
}
static RegisterSuite sThr("threads", threadsCase);
