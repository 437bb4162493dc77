// Event log for the cross-implementation check: every case records calls of the C++ library and their results.
#include "lib.hpp"
#include "Base58Check.hpp"
#include "Ecdsa.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include <unistd.h>

using std::string;
static FILE *out;
static void begin(Ctx &) {
	const char *p = getenv("VECTORS_OUT");
	if (!p) { fprintf(stderr, "VECTORS_OUT not set\n"); exit(64); }
	out = fopen((string(p) + "." + std::to_string(getpid())).c_str(), "w");
	if (!out) exit(64);
	setvbuf(out, nullptr, _IOLBF, 1 << 16);
}
static void rec(Ctx &c, const string &call, const string &result) {
	c.eval();
	string op = call.substr(0, call.find(' '));
	c.hit("recorded." + op);
	c.note(call + " = " + result);
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	fprintf(out, "%06lu %s = %s\n", c.idx, call.c_str(), result.c_str());
}
static string hx(const Bytes &b) { return b.empty() ? "-" : hexOf(b); }
static string pt(const CurvePoint &p, char sep) { return hexZ(ZF(p.x)) + sep + hexZ(ZF(p.y)) + sep + hexZ(ZF(p.z)); }
static Bytes msg(Rng &r, size_t block) {
	size_t n;
	switch (r.below(4)) { case 0: n = r.below(3 * block); break; case 1: n = block * r.below(6) + r.below(20); break; case 2: n = block * (1 + r.below(5)) - r.below(20); break; default: n = r.below(600); }
	Bytes b = r.bytes(n);
	if (r.chance(1, 6)) std::fill(b.begin(), b.end(), static_cast<uint8_t>(r.u32()));
	return b;
}
static void vectorsCase(Ctx &c) {
	Rng &r = c.rng;
	switch (c.idx % 16) {
		case 0: { Bytes m = msg(r, 64); Sha256Hash h = Sha256::getHash(m.data(), m.size()); rec(c, "sha256 " + hx(m), hexOf(h.value, 32)); h = Sha256::getDoubleHash(m.data(), m.size()); rec(c, "sha256d " + hx(m), hexOf(h.value, 32)); break; }
		case 1: { Bytes m = msg(r, 128); uint8_t o[64]; Sha512::getHash(m.data(), m.size(), o); rec(c, "sha512 " + hx(m), hexOf(o, 64)); break; }
		case 2: { Bytes m = msg(r, 64); uint8_t o[20]; Ripemd160::getHash(m.data(), m.size(), o); rec(c, "ripemd160 " + hx(m), hexOf(o, 20)); break; }
		case 3: { Bytes m = msg(r, 136); uint8_t o[32]; Keccak256::getHash(m.data(), m.size(), o); rec(c, "keccak256 " + hx(m), hexOf(o, 32)); break; }
		case 4: { Bytes k = msg(r, 64), m = msg(r, 64); Sha256Hash h = Sha256::getHmac(k.data(), k.size(), m.data(), m.size()); rec(c, "hmac256 " + hx(k) + " " + hx(m), hexOf(h.value, 32)); break; }
		case 5: { Bytes k = msg(r, 128), m = msg(r, 128); uint8_t o[64]; Sha512::getHmac(k.data(), k.size(), m.data(), m.size(), o); rec(c, "hmac512 " + hx(k) + " " + hx(m), hexOf(o, 64)); break; }
		case 6: {
			Bytes v = toBE(gen256(r), 32); string t = hexOf(v), orig = t;
			for (auto &ch : t) if (ch >= 'a' && r.chance(1, 2)) ch = static_cast<char>(ch - 32);
			Sha256Hash h(t.c_str()); rec(c, "hashtext " + t, orig + "," + hexOf(h.value, 32)); break;
		}
		case 7: {
			mpz_class a = gen256(r), b = genRelated(r, a); uint32_t en = static_cast<uint32_t>(r.below(2)); string o;
			Uint256 x = U(a), y = U(b); uint32_t k = x.add(y, en); o = std::to_string(k) + hexZ(ZU(x));
			x = U(a); k = x.subtract(y, en); o += "," + std::to_string(k) + hexZ(ZU(x));
			x = U(a); k = x.shiftLeft1(); o += "," + std::to_string(k) + hexZ(ZU(x));
			x = U(a); x.shiftRight1(en); o += "," + hexZ(ZU(x));
			x = U(a); o += "," + std::to_string(x == y) + std::to_string(x < y) + std::to_string(y < x);
			rec(c, "uint " + hexZ(a) + " " + hexZ(b) + " " + std::to_string(en), o); break;
		}
		case 8: {
			mpz_class m, x, g;
			do { m = r.chance(1, 3) ? Curve::P : r.chance(1, 3) ? Curve::N : gen256(r); if (m % 2 == 0) m += 1; x = genBelow(r, m); g = gcd(x, m); } while (m <= 1 || (x != 0 && g != 1));
			Uint256 u = U(x); u.reciprocal(U(m)); rec(c, "recip " + hexZ(x) + " " + hexZ(m), hexZ(ZU(u))); break;
		}
		case 9: {
			mpz_class a = genBelow(r, Curve::P), b = r.chance(1, 3) ? modZ(-a, Curve::P) : genBelow(r, Curve::P); string o; FieldInt y = F(b);
			FieldInt x = F(a); x.add(y); o = hexZ(ZF(x)); x = F(a); x.subtract(y); o += "," + hexZ(ZF(x)); x = F(a); x.multiply2(); o += "," + hexZ(ZF(x));
			x = F(a); x.multiply(y); o += "," + hexZ(ZF(x)); x = F(a); x.square(); o += "," + hexZ(ZF(x));
			rec(c, "field " + hexZ(a) + " " + hexZ(b), o); break;
		}
		case 10: {
			Pt a = r.chance(1, 10) ? Pt() : ptMul(ptG(), genBelow(r, Curve::N)), b;
			switch (r.below(5)) { case 0: b = a; break; case 1: b = ptNeg(a); break; case 2: break; default: b = ptMul(ptG(), genBelow(r, Curve::N)); }
			CurvePoint p = scaled(CPoint(a), 1 + genBelow(r, Curve::P - 1)), q = scaled(CPoint(b), 1 + genBelow(r, Curve::P - 1));
			string call = "addnorm " + pt(p, ' ') + " " + pt(q, ' '); p.add(q); p.normalize(); rec(c, call, pt(p, ',')); break;
		}
		case 11: {
			CurvePoint p = scaled(CPoint(ptMul(ptG(), genBelow(r, Curve::N))), 1 + genBelow(r, Curve::P - 1)); mpz_class k = r.chance(1, 3) ? mpz_class(genBelow(r, Curve::N)) : gen256(r);
			string call = "mulnorm " + pt(p, ' ') + " " + hexZ(k); p.multiply(U(k)); p.normalize(); rec(c, call, pt(p, ','));
			k = 1 + genBelow(r, Curve::N - 1); CurvePoint q = CurvePoint::privateExponentToPublicPoint(U(k)); uint8_t o[33]; q.toCompressedPoint(o); rec(c, "pubkey " + hexZ(k), hexOf(o, 33)); break;
		}
		case 12: case 13: {
			mpz_class d = 1 + genBelow(r, Curve::N - 1), z = gen256(r), k = r.chance(1, 6) ? gen256(r) : mpz_class(genBelow(r, Curve::N));
			if (r.chance(1, 4) && k > 0 && k < Curve::N) {   // solved key: chosen s
				mpz_class rr = modZ(ptMul(ptG(), k).x, Curve::N), s = r.chance(1, 2) ? mpz_class(0) : mpz_class(Curve::N / 2 + static_cast<long>(r.below(5)) - 2);
				if (rr != 0) { d = modZ((s * k - z) * invZ(rr, Curve::N), Curve::N); if (d == 0) d = 1; }
			}
			Bytes zb = toBE(z, 32); Sha256Hash h(zb.data(), 32); Uint256 R, S;
			bool ok = Ecdsa::sign(U(d), h, U(k), R, S);
			rec(c, "sign " + hexZ(d) + " " + hexOf(zb) + " " + hexZ(k), string(ok ? "true" : "false") + "," + hexZ(ok ? ZU(R) : mpz_class(0)) + "," + hexZ(ok ? ZU(S) : mpz_class(0)));
			ok = Ecdsa::signWithHmacNonce(U(d), h, R, S);
			rec(c, "hmacsign " + hexZ(d) + " " + hexOf(zb), string(ok ? "true" : "false") + "," + hexZ(ok ? ZU(R) : mpz_class(0)) + "," + hexZ(ok ? ZU(S) : mpz_class(0)));
			if (!ok) break;
			CurvePoint q = CurvePoint::privateExponentToPublicPoint(U(d));
			mpz_class rz = ZU(R), sz = ZU(S);
			switch (r.below(10)) { case 0: sz = Curve::N - sz; break; case 1: rz = genRelated(r, rz); break; case 2: sz = genRelated(r, sz); break; case 3: zb[r.below(32)] ^= static_cast<uint8_t>(1 << r.below(8)); break;
				case 4: q = scaled(q, 2 + genBelow(r, Curve::P - 2)); break; case 5: q = CurvePoint::ZERO; break; case 6: q.y = F(modZ(ZF(q.y) + 1, Curve::P)); break; case 7: (r.chance(1, 2) ? rz : sz) = r.chance(1, 2) ? mpz_class(0) : Curve::N; break; }
			Sha256Hash h2(zb.data(), 32);
			rec(c, "verify " + pt(q, ' ') + " " + hexOf(zb) + " " + hexZ(rz) + " " + hexZ(sz), Ecdsa::verify(q, h2, U(rz), U(sz)) ? "true" : "false"); break;
		}
		case 14: {
			Bytes h = r.bytes(20); for (size_t i = 0, n = r.below(4) == 0 ? r.below(21) : 0; i < n; i++) h[i] = 0;
			uint8_t ver = static_cast<uint8_t>(r.chance(1, 2) ? 0 : r.u32()); char t[36];
			Base58Check::pubkeyHashToBase58Check(h.data(), ver, t);
			Bytes pay(1, ver); pay.insert(pay.end(), h.begin(), h.end()); rec(c, "b58enc " + hx(pay), t);
			mpz_class k = gen256(r); bool comp = r.chance(1, 2); char w[53];
			Base58Check::privateKeyToBase58Check(U(k), ver, comp, w);
			pay.assign(1, ver); Bytes kb = toBE(k, 32); pay.insert(pay.end(), kb.begin(), kb.end()); if (comp) pay.push_back(1);
			rec(c, "b58enc " + hx(pay), w); break;
		}
		default: {
			Bytes pay = r.bytes(r.chance(3, 4) ? 21 : r.below(30)); if (r.chance(1, 3) && !pay.empty()) for (size_t i = 0, n = r.below(pay.size()); i <= n; i++) pay[i] = 0;
			string s = refBase58Check(pay);
			switch (r.below(6)) { case 0: s[r.below(s.size())] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[r.below(58)]; break; case 1: s[r.below(s.size())] = "0OIl_~!"[r.below(7)]; break; case 2: s.erase(r.below(s.size()), 1); break; case 3: s.insert(r.below(s.size() + 1), 1, "1zA"[r.below(3)]); break; }
			uint8_t o[20], ver = 0; bool ok = Base58Check::pubkeyHashFromBase58Check(s.c_str(), o, &ver);
			rec(c, "b58dec 21 " + (s.empty() ? "-" : s), ok ? hexOf(&ver, 1) + hexOf(o, 20) : "reject"); break;
		}
	}
}
static RegisterSuite reg("vectors", vectorsCase, begin);
