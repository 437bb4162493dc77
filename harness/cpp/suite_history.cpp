// Dependence on anything but the arguments. A process that is forked before the library is first used answers, for every
// call, what the call gives in a pristine process (a fork of its own per call). The monitor makes long histories of calls on
// closely related arguments, in buffers that are used again and again, under changing process state (rounding mode,
// denormal handling, errno, locale, contents of the unused stack), and every result must be the pristine one.
#include "lib.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <locale>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
#include "history_ops.hpp"

/*---- The pristine process ----*/
static int toServer = -1, fromServer = -1; static pid_t serverPid; static const char *otherMachine;
static bool readAll(int fd, void *p, size_t n) { char *c = static_cast<char *>(p); while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= static_cast<size_t>(k); } return true; }
static bool writeAll(int fd, const void *p, size_t n) { const char *c = static_cast<const char *>(p); while (n) { ssize_t k = write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= static_cast<size_t>(k); } return true; }
static bool sendBytes(int fd, const string &s) { uint32_t n = static_cast<uint32_t>(s.size()); return writeAll(fd, &n, 4) && writeAll(fd, s.data(), n); }
static bool recvBytes(int fd, string &s) { uint32_t n; if (!readAll(fd, &n, 4)) return false; s.resize(n); return readAll(fd, &s[0], n); }
static string encode(int op, const Args &a) { string s(1, static_cast<char>(op)); for (auto &b : a) { uint32_t n = static_cast<uint32_t>(b.size()); s.append(reinterpret_cast<char *>(&n), 4); s.append(b.begin(), b.end()); } return s; }
static Args decode(const string &s) { Args a; size_t i = 1; while (i < s.size()) { uint32_t n; std::memcpy(&n, &s[i], 4); i += 4; a.push_back(Bytes(s.begin() + static_cast<long>(i), s.begin() + static_cast<long>(i + n))); i += n; } return a; }
static void serve(int in, int out) {
	string q;
	while (recvBytes(in, q)) {
		pid_t p = fork();
		if (p < 0) _exit(1);
		if (p == 0) {
			Slots s(false); string o = OPS[static_cast<unsigned char>(q[0])].run(decode(q), s);
			sendBytes(out, o); _exit(0);
		}
		int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) sendBytes(out, "\x01the call ends the process");
	}
	_exit(0);
}
static std::vector<string> locales; static std::map<string, std::locale> streamLocales;
extern "C" { void __lsan_disable() __attribute__((weak)); void __lsan_enable() __attribute__((weak)); }
static void forkServer() {
	int a[2], b[2];
	if (pipe(a) || pipe(b)) exit(64);
	pid_t p = fork();
	if (p < 0) exit(64);
	if (p == 0) {
		close(a[1]); close(b[0]);
		if (otherMachine) { dup2(a[0], 0); dup2(b[1], 1); execl(otherMachine, otherMachine, static_cast<char *>(nullptr)); _exit(126); }
		serve(a[0], b[1]);
	}
	close(a[0]); close(b[1]); toServer = a[1]; fromServer = b[0]; serverPid = p;
}
// The answer of the process for another machine; false when it stops instead (`want` says how), or lacks what the library now uses of the C library (`want` empty)
static bool askOther(const string &q, string &want) {
	if (sendBytes(toServer, q) && recvBytes(fromServer, want)) return true;
	close(toServer); close(fromServer);
	int st = 0; while (waitpid(serverPid, &st, 0) < 0 && errno == EINTR) {}
	want = WIFSIGNALED(st) ? strf("stops with signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 77 ? "" : strf("stops with status %d", WEXITSTATUS(st));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 126) exit(64);
	forkServer();
	return false;
}
static void begin(Ctx &) {
	otherMachine = getenv("HISTORY_SERVER");
	forkServer();
	signal(SIGPIPE, SIG_IGN);
	const char *l = getenv("HISTORY_LOCALES"); string t = l ? l : "";
	for (size_t i = 0; i < t.size();) { size_t j = t.find(':', i); if (j == string::npos) j = t.size(); if (setlocale(LC_ALL, t.substr(i, j - i).c_str())) locales.push_back(t.substr(i, j - i)); i = j + 1; }
	setlocale(LC_ALL, "C");
	if (__lsan_disable) __lsan_disable();   // the C library leaks when it makes a locale
	for (auto &n : locales) try { streamLocales.emplace(n, std::locale(n.c_str())); } catch (const std::exception &) {}
	if (__lsan_enable) __lsan_enable();
}

/*---- Ambient state ----*/
__attribute__((noinline, no_sanitize("address"))) static void dirtyStack(unsigned v) { volatile char a[24576]; for (size_t i = 0; i < sizeof a; i++) a[i] = static_cast<char>(v); }
struct Ambient {
	fenv_t env; string name;
	Ambient(Ctx &c, bool on) {
		fegetenv(&env);
		if (!on) { name = "default"; return; }
		Rng &r = c.rng;
		static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; static const char *mn[] = {"nearest", "up", "down", "zero"};
		unsigned m = static_cast<unsigned>(r.below(4)); fesetround(modes[m]); name = string("rounding=") + mn[m];
		if (r.chance(1, 2)) { _mm_setcsr(_mm_getcsr() | 0x8040); name += " flush-denormals"; }
		if (r.chance(1, 2)) { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); cw = static_cast<unsigned short>((cw & ~0x300) | (r.chance(1, 2) ? 0 : 0x200)); __asm__ volatile("fldcw %0" : : "m"(cw)); name += " x87-precision"; c.hit("ambient.x87-precision"); }
		c.hit(string("ambient.rounding-") + mn[m]);
		if (!locales.empty() && r.chance(2, 3)) {
			const string &l = locales[r.below(locales.size())]; setlocale(LC_ALL, l.c_str());
			auto g = streamLocales.find(l);
			if (r.chance(1, 2) && g != streamLocales.end()) std::locale::global(g->second);
			name += " locale=" + l; c.hit("ambient.locale-" + l);
		}
		if (r.chance(1, 2)) dirtyStack(r.u32());
		errno = static_cast<int>(r.below(140));
	}
	~Ambient() { fesetenv(&env); if (name != "default") { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); } }
};

/*---- Related arguments ----*/
static Bytes mutate(Rng &r, Bytes b) {
	size_t n = b.size();
	if (n == 0) return r.bytes(1);
	switch (r.below(12)) {
		case 0: b[0] ^= static_cast<uint8_t>(1 << r.below(8)); break;
		case 1: b[n - 1] ^= static_cast<uint8_t>(1 << r.below(8)); break;
		case 2: b[r.below(n)] ^= static_cast<uint8_t>(1 + r.below(255)); break;
		case 3: std::swap(b[r.below(n)], b[r.below(n)]); break;                       // same bytes in another order
		case 4: for (size_t i = 0; i < n / 2; i++) b[i] = static_cast<uint8_t>(r.u32()); break;
		case 5: for (size_t i = n / 2; i < n; i++) b[i] = static_cast<uint8_t>(r.u32()); break;
		case 6: std::reverse(b.begin(), b.end()); break;
		case 7: for (size_t i = 0; i < n && i < 8; i++) b[i] = static_cast<uint8_t>(r.u32()); break;
		case 8: for (size_t i = n < 8 ? 0 : n - 8; i < n; i++) b[i] = static_cast<uint8_t>(r.u32()); break;
		case 9: if (n >= 8) { size_t i = 4 * r.below(n / 4), j = 4 * r.below(n / 4); for (int k = 0; k < 4; k++) std::swap(b[i + k], b[j + k]); } break;   // words in another order
		case 10: { size_t i = r.below(n); b[i]++; b[r.below(n)]--; break; }                 // same byte sum
		default: { uint8_t d = static_cast<uint8_t>(1 + r.below(255)); b[r.below(n)] ^= d; b[r.below(n)] ^= d; }   // same XOR of the bytes
	}
	return b;
}
struct Pools {
	std::vector<Bytes> m[128];
	Rng &r;
	explicit Pools(Rng &r_) : r(r_) {}
	Bytes fresh(char k) {
		switch (k) {
			case 's': return toBE(genBelow(r, Curve::N - 1) + 1, 32);
			case 'v': return toBE(gen256(r), 32);
			case 'f': return toBE(genBelow(r, Curve::P), 32);
			case 'h': return r.bytes(32);
			case 'b': return r.bytes(1);
			case 'i': { Bytes b = r.bytes(4); if (r.chance(1, 2)) b[0] = b[1] = b[2] = 0; if (r.chance(1, 2)) b[0] ^= 0x80; return b; }
			case 'm': case 'k': { static const size_t l[] = {0, 1, 32, 33, 55, 56, 63, 64, 65, 80, 111, 112, 127, 128, 129, 135, 136, 137, 200, 272}; return r.bytes(r.chance(1, 2) ? l[r.below(20)] : r.below(400)); }
			case 'p': { CurvePoint q = CPoint(r.chance(1, 8) ? Pt() : ptMul(ptG(), genBelow(r, Curve::N - 1) + 1)); return pack(q); }
			case 't': { string s = hexOf(r.bytes(32)); for (auto &ch : s) if (r.chance(1, 3)) ch = static_cast<char>(ch >= 'a' ? ch - 32 : ch); return Bytes(s.begin(), s.end()); }
			default: {   // Base58 text
				Bytes p = payload(k); string s = refBase58Check(p); return Bytes(s.begin(), s.end());
			}
		}
	}
	Bytes payload(char k) {
		Bytes p = r.bytes(k == 'a' ? 21 : k == 'w' ? 33 + r.below(2) : 78);
		if (k == 'w' && p.size() == 34) p[33] = 1;
		if (k == 'x') { static const uint8_t h[] = {0x04, 0x88, 0xAD, 0xE4}; std::memcpy(p.data(), h, 4); Bytes key = fresh('s'); p[45] = 0; std::copy(key.begin(), key.end(), p.begin() + 46); }
		if (r.chance(1, 4)) for (size_t i = 0; i < r.below(6); i++) if (k != 'x') p[i] = 0;
		return p;
	}
	static Bytes pack(const CurvePoint &q) { Bytes o; for (const FieldInt *f : {&q.x, &q.y, &q.z}) { Bytes b = toBE(ZF(*f), 32); o.insert(o.end(), b.begin(), b.end()); } return o; }
	Bytes related(char k, const Bytes &b) {
		switch (k) {
			case 's': {
				mpz_class v = fromBE(b.data(), 32);
				switch (r.below(5)) { case 0: v = Curve::N - v; break; case 1: v = modZ(v * 2, Curve::N); break; case 2: v = modZ(v * Curve::LAMBDA, Curve::N); break; case 3: v = modZ(v + 1, Curve::N); break; default: { Bytes x = mutate(r, b); v = modZ(fromBE(x.data(), 32), Curve::N); } }
				return toBE(v == 0 ? mpz_class(1) : v, 32);
			}
			case 'f': { mpz_class v = fromBE(b.data(), 32); if (r.chance(1, 4)) return toBE(modZ(-v, Curve::P), 32); Bytes x = mutate(r, b); return toBE(modZ(fromBE(x.data(), 32), Curve::P), 32); }
			case 'p': {
				Args a{b}; Slots s(false); CurvePoint q = s.p(b); Pt p = affine(q);
				switch (r.below(6)) {
					case 0: return pack(scaled(CPoint(p), 1 + genBelow(r, Curve::P - 1)));
					case 1: return pack(CPoint(ptNeg(p)));
					case 2: return pack(CPoint(ptAdd(p, p)));
					case 3: return p.inf ? b : pack(CPoint(Pt(modZ(p.x * Curve::BETA, Curve::P), p.y)));   // same y
					case 4: return pack(CurvePoint::ZERO);
					default: return pack(scaled(q, Curve::P - 1));
				}
			}
			case 'm': case 'k': { Bytes x = b; switch (r.below(4)) { case 0: x.push_back(static_cast<uint8_t>(r.chance(1, 2) ? 0 : r.u32())); return x; case 1: if (!x.empty()) x.pop_back(); return x; default: return mutate(r, x); } }
			case 't': { Bytes x = b; size_t i = r.below(64); if (r.chance(1, 2)) { uint8_t ch = x[i]; x[i] = static_cast<uint8_t>(ch >= 'a' ? ch - 32 : ch >= 'A' ? ch + 32 : ch); } else x[i] = static_cast<uint8_t>("0123456789abcdefABCDEF"[r.below(22)]); return x; }
			case 'a': case 'w': case 'x': {
				if (r.chance(1, 3)) {   // a related payload with its own checksum
					Bytes raw; string s(b.begin(), b.end());
					if (refBase58Decode(s, raw) && raw.size() > 4) { raw.resize(raw.size() - 4); size_t i = r.below(raw.size()); raw[i] ^= static_cast<uint8_t>(1 << r.below(8)); s = refBase58Check(raw); return Bytes(s.begin(), s.end()); }
				}
				Bytes x = b; size_t n = x.size(); static const char al[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl \xdd\xfd\xe4";
				switch (r.below(7)) { case 6: x[r.below(n)] ^= 0x80; break; case 0: std::swap(x[r.below(n)], x[r.below(n)]); break; case 1: x[n - 1] = static_cast<uint8_t>(al[r.below(58)]); break; case 2: x[r.below(n)] = static_cast<uint8_t>(al[r.below(sizeof al - 1)]); break; case 3: x[r.below(n)] ^= 0x20; break; case 4: x.pop_back(); break; default: x.push_back('1'); }
				for (auto &ch : x) if (ch == 0) ch = '1';
				return x;
			}
			default: return mutate(r, b);
		}
	}
	const Bytes &draw(char k, char like = 0) {
		std::vector<Bytes> &p = m[static_cast<int>(k)];
		if (p.empty()) {
			p.push_back(fresh(k));
			for (int i = 0; i < 4; i++) p.push_back(related(k, p[r.below(p.size())]));
			if (r.chance(1, 2)) p.push_back(fresh(k));
		}
		(void)like;
		return p[r.below(p.size())];
	}
};
static std::map<string, string> memo;
static void historyCase(Ctx &c) {
	Rng &r = c.rng;
	Pools pools(r);
	int focus[3]; for (int &f : focus) f = static_cast<int>(r.below(NOPS));
	focus[0] = static_cast<int>(c.idx % NOPS);
	memo.clear();
	string trail; int prev = -1;
	std::map<int, Args> last;   // per operation
	for (int step = 0; step < 40; step++) {
		int op = r.chance(2, 3) ? focus[r.below(3)] : static_cast<int>(r.below(NOPS));
		Args a;
		for (const char *k = OPS[op].kinds; *k; k++) {
			a.push_back(pools.draw(*k));
			if (op == 10 && k == OPS[op].kinds + 1 && r.chance(2, 3)) a[1] = a[0];
		}
		auto l = last.find(op);
		if (l != last.end() && r.chance(1, 2)) {   // the previous call of this operation again, but for one argument
			size_t keep = r.below(a.size() + 1);
			for (size_t i = 0; i < a.size(); i++) if (i != keep) a[i] = l->second[i];
			c.hit("calls-differing-in-at-most-one-argument");
		}
		last[op] = a;
		string q = encode(op, a), want;
		auto it = memo.find(q);
		if (it == memo.end()) {
			if (otherMachine) { if (!askOther(q, want)) { CHECK(c, want.empty(), "the process for the other machine %s", want.c_str()); c.hit("not-judged"); continue; } }
			else if (!sendBytes(toServer, q) || !recvBytes(fromServer, want)) { fprintf(stderr, "the pristine process is gone\n"); exit(64); }
			if (want.size() && want[0] == 1 && want.find("ends the process") == string::npos) exit(64);
			it = memo.emplace(q, want).first; c.hit("pristine-executions");
		} else c.hit("repeated-arguments");
		string got, how;
		bool fixed = r.chance(3, 4);
		{ Ambient amb(c, r.chance(1, 2) && !otherMachine); Slots s(fixed); how = amb.name; 
		  string args; for (auto &b : a) args += " " + (b.empty() ? string("-") : hexOf(b));
		  c.note(strf("call %d of a history: ", step) + OPS[op].name + args.substr(0, 2500) + " [" + how + (fixed ? ", reused buffers" : ", new buffers") + "] after" + trail);
		  got = OPS[op].run(a, s); }
		c.observe(got.data(), got.size());
		CHECK(c, got == it->second, "%s gives %s, but %s %s", OPS[op].name, got.substr(0, 700).c_str(), it->second.substr(0, 700).c_str(), otherMachine ? "on the other machine" : "in a process that has made no other call");
		c.hit(string("op.") + OPS[op].name);
		c.nontrivial(hashBytes(q.data(), q.size(), static_cast<uint64_t>(prev + 1) * 2654435761u + 7));
		trail += string(" ") + OPS[op].name; if (trail.size() > 300) trail = trail.substr(trail.size() - 300);
		prev = op;
	}
}
static RegisterSuite reg("history", historyCase, begin);

/*---- Long messages on the other machine ----*/
// Totals around 2^29 bytes (2^32 bits), the place where a bit length kept in a 32-bit word would go wrong.
static void longCase(Ctx &c) {
	Rng &r = c.rng; unsigned kind = static_cast<unsigned>(c.idx % 6);
	uint64_t total = (uint64_t(1) << 29) - 80 + r.below(200);
	if (c.idx / 6 % 4 == 3) total = r.below(uint64_t(1) << 26);
	if (c.idx / 6 % 4 == 2 && kind > 1) total = (uint64_t(1) << 30) - 80 + r.below(200);
	if (c.idx / 6 % 4 == 2 && kind <= 1) total = (uint64_t(1) << 32) - 80 + r.below(200);
	uint32_t piece = static_cast<uint32_t>(1 + r.below(1 << 16)) + (r.chance(1, 3) ? 1 << 20 : 63); uint8_t fill = static_cast<uint8_t>(r.u32());
	static const char *names[] = {"Sha256::append", "Sha512::append", "Ripemd160::getHash", "Keccak256::getHash", "Sha256::getHash", "Sha512::getHash"};
	string q(1, static_cast<char>(255)); q += static_cast<char>(kind);
	q.append(reinterpret_cast<char *>(&total), 8); q.append(reinterpret_cast<char *>(&piece), 4); q += static_cast<char>(fill);
	c.note(strf("%s, %llu bytes, pieces of %u, fill %u", names[kind], static_cast<unsigned long long>(total), piece, fill));
	// both machines work at the same time
	if (!sendBytes(toServer, q)) exit(64);
	std::vector<uint8_t> m; uint8_t out[64]; string got;
	if (kind < 2) {
		m.resize(piece); for (uint32_t i = 0; i < piece; i++) m[i] = static_cast<uint8_t>(fill + i * 7 + (i >> 8));
		Sha256 h; Sha512 g;
		for (uint64_t d = 0; d < total;) { size_t k = static_cast<size_t>(std::min<uint64_t>(piece, total - d)); if (kind == 0) h.append(m.data(), k); else g.append(m.data(), k); d += k; }
		if (kind == 0) got = hexOf(h.getHash().value, 32); else { g.getHash(out); got = hexOf(out, 64); }
	} else {
		size_t t = static_cast<size_t>(total); m.resize(t); for (size_t i = 0; i < t; i += 4096) m[i] = static_cast<uint8_t>(fill + (i >> 12) * 7);
		if (kind == 2) { Ripemd160::getHash(m.data(), t, out); got = hexOf(out, 20); } else if (kind == 3) { Keccak256::getHash(m.data(), t, out); got = hexOf(out, 32); }
		else if (kind == 4) got = hexOf(Sha256::getHash(m.data(), t).value, 32); else { Sha512::getHash(m.data(), t, out); got = hexOf(out, 64); }
	}
	string want;
	if (!recvBytes(fromServer, want)) {
		int st = 0; close(toServer); close(fromServer); while (waitpid(serverPid, &st, 0) < 0 && errno == EINTR) {}
		forkServer();
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { c.hit("not-judged"); return; }
		CHECK(c, false, "%s of %llu bytes: the process for the other machine stops (wait status %d)", names[kind], static_cast<unsigned long long>(total), st);
	}
	CHECK(c, got == want, "%s of %llu bytes gives %s, but %s on the other machine", names[kind], static_cast<unsigned long long>(total), got.c_str(), want.c_str());
	c.hit(string("long.") + names[kind]); if (total >= (uint64_t(1) << 29)) c.hit("messages-of-2^32-bits-or-more");
	c.nontrivial(hashBytes(q.data(), q.size(), 5));
}
static void longBegin(Ctx &) { otherMachine = getenv("HISTORY_SERVER"); if (!otherMachine) exit(64); forkServer(); signal(SIGPIPE, SIG_IGN); }
static RegisterSuite regLong("otherlong", longCase, longBegin);
