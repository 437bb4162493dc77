// Monitor of the operation-counting build: every operation documented as constant-time must report the same number of
// arithmetic operations whatever its operands are, and the report program must print exactly those numbers.
#include "ct_ops.hpp"
#include <fstream>
#include <map>

extern thread_local long long opsCounted;
static const std::map<string, long long> &report() {
	static const std::map<string, long long> v = [] {
		std::map<string, long long> r;
		static const char *const names[][2] = {
			{"uiReplace", "Uint256.replace"}, {"uiSwap", "Uint256.swap"}, {"uiEquals", "Uint256.=="}, {"uiLessThan", "Uint256.<"}, {"uiAdd", "Uint256.add"}, {"uiSubtract", "Uint256.subtract"},
			{"uiShiftLeft1", "Uint256.shiftLeft1"}, {"uiShiftRight1", "Uint256.shiftRight1"}, {"uiReciprocal", "Uint256.reciprocal"}, {"fiReplace", "FieldInt.replace"}, {"fiEquals", "FieldInt.=="},
			{"fiLessThan", "FieldInt.<"}, {"fiAdd", "FieldInt.add"}, {"fiSubtract", "FieldInt.subtract"}, {"fiMultiply2", "FieldInt.multiply2"}, {"fiMultiply", "FieldInt.multiply"}, {"fiSquare", "FieldInt.square"},
			{"fiReciprocal", "FieldInt.reciprocal"}, {"cpReplace", "CurvePoint.replace"}, {"cpIsZero", "CurvePoint.isZero"}, {"cpEquals", "CurvePoint.=="}, {"cpTwice", "CurvePoint.twice"}, {"cpAdd", "CurvePoint.add"},
			{"cpMultiply", "CurvePoint.multiply"}, {"cpNormalize", "CurvePoint.normalize"}, {"cpIsOnCurve", "CurvePoint.isOnCurve"}, {"edSign", "Ecdsa.sign"}};
		const char *p = std::getenv("OPS_REPORT");
		if (!p) return r;
		std::ifstream f(p);
		string line;
		while (std::getline(f, line)) {
			string digits, name;
			for (char ch : line) { if (name.empty() && ch >= '0' && ch <= '9') digits += ch; else if (ch != ' ' && ch != '\r') name += ch; }
			for (const auto &n : names) if (name == n[0] && !digits.empty()) r[n[1]] = std::atoll(digits.c_str());
		}
		return r;
	}();
	return v;
}
static void opsCase(Ctx &c) {
	static bool init;
	if (!init) { initOps(); init = true; report(); }
	static std::map<string, long long> seen;   // operation -> its count, over all cases of the process
	const auto &os = ops();
	const Op &op = os[c.idx % os.size()];
	uint64_t group = c.idx / os.size();
	int secrets = op.weight >= 4 ? (c.thorough ? 40 : 8) : op.weight >= 2 ? 60 : 200;
	for (int s = 0; s < secrets; s++) {
		Rng pub(c.seed, 5252, c.idx), sec(c.seed, 9777 + s, c.idx);
		op.setup(c, pub, sec, group == 0 ? s : 10 + s);
		string what = describeOperands(op.name, s);
		c.note(what);
		opsCounted = 0; okResult = true;
		op.run();
		long long n = opsCounted;
		if (!okResult) { c.hit("unsuccessful-execution-skipped"); continue; }
		c.eval();
		auto it = seen.find(op.name);
		if (it == seen.end()) {
			seen[op.name] = n;
			auto r = report().find(op.name);
			if (r != report().end()) {
				c.hit("compared-with-report");
				if (r->second != n) c.fail(strf("%s: counted %lld operations, but the report program prints %lld", op.name, n, r->second));
			}
		} else {
			c.nontrivial(hashBytes(what.data(), what.size()));
			if (it->second != n) c.fail(strf("%s: the operation count depends on the operands: %lld, before %lld", op.name, n, it->second));
		}
		if (n > 0) c.hit(string("counted.") + op.name);
	}
}
static RegisterSuite sOps("ops", opsCase);
