// Runner: main <suite> --seed S --from A --to B --shard i/n --out result.json [--journal f] [--only idx] [--dict f] [--thorough]
#include "common.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <set>

struct Journal { volatile uint64_t idx; volatile uint64_t seq; char detail[16000]; };
static Journal *journal = nullptr;
static uint64_t watchLast = ~0ULL; static int watchStrikes = 0; static int watchLimit = 6;

void Ctx::note(const std::string &d) {
	describe = d;
	if (journal && !quiet) { size_t n = std::min(d.size(), sizeof(journal->detail) - 1); std::memcpy(journal->detail, d.data(), n); journal->detail[n] = 0; }
}
static void onTimer(int) {  // CPU-time watchdog: one case making no progress for watchLimit * 20 CPU-seconds is a hang
	if (!journal) return;
	if (journal->seq == watchLast) { if (++watchStrikes >= watchLimit) { static const char m[] = "HANG: a case exceeded its CPU budget\n"; ssize_t x = write(2, m, sizeof m - 1); (void)x; _exit(66); } }
	else { watchLast = journal->seq; watchStrikes = 0; }
}
static std::string js(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

int main(int argc, char **argv) {
	if (argc < 2) { for (auto &s : suites()) puts(s.name); return 0; }
	Ctx c; c.suite = argv[1];
	uint64_t from = 0, to = 100, shard = 0, shards = 1; long long only = -1;
	std::string out, jpath; bool memoryOnly = false;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { if (i + 1 >= argc) exit(64); return std::string(argv[++i]); };
		if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
		else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
		else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%lu/%lu", &shard, &shards); }
		else if (a == "--out") out = val();
		else if (a == "--journal") jpath = val();
		else if (a == "--only") only = atoll(val().c_str());
		else if (a == "--dict") extraDictionary(val().c_str());
		else if (a == "--digest") c.digestMode = true;
		else if (a == "--thorough") c.thorough = true;
		else if (a == "--memory-only") memoryOnly = true;
		else if (a == "--watch") watchLimit = atoi(val().c_str());
		else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 64; }
	}
	const Suite *su = nullptr;
	for (auto &s : suites()) if (c.suite == s.name) su = &s;
	if (!su) { fprintf(stderr, "no such suite\n"); return 64; }
	if (!jpath.empty()) {
		int fd = open(jpath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Journal)) != 0) return 64;
		journal = static_cast<Journal *>(mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		close(fd);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTimer; sa.sa_flags = SA_RESTART;
		sigaction(SIGVTALRM, &sa, nullptr);
		struct itimerval it = {{20, 0}, {20, 0}};
		setitimer(ITIMER_VIRTUAL, &it, nullptr);
	}
	if (su->begin) su->begin(c);
	uint64_t stream = hashBytes(c.suite.data(), c.suite.size());
	uint64_t sampleAt = 0, sampleStep = std::max<uint64_t>(1, (to - from) / 3);
	for (uint64_t i = from; i < to; i++) {
		if (only >= 0 ? i != static_cast<uint64_t>(only) : i % shards != shard) continue;
		c.idx = i; c.rng = Rng(c.seed, stream, i); c.describe.clear(); c.muted = false;
		if (journal) { journal->idx = i; journal->seq = journal->seq + 1; journal->detail[0] = 0; }
		c.cases++;
		try { su->runCase(c); }
		catch (const Violation &v) {
			c.violations.push_back({i, v.msg + (c.describe.empty() ? "" : " | case: " + c.describe)});
			if (c.violations.size() >= 5 && !memoryOnly) break;
			if (memoryOnly && c.violations.size() > 5) c.violations.resize(5);
		}
		if (i - from >= sampleAt && c.samples.size() < 3 && !c.describe.empty()) { c.samples.push_back(c.describe.substr(0, 600)); sampleAt = i - from + sampleStep; }
	}
	std::string o = "{\"suite\":" + js(c.suite) + ",\"cases\":" + std::to_string(c.cases) + ",\"evaluations\":" + std::to_string(c.evaluations)
		+ ",\"distinct\":" + std::to_string(c.distinct.size()) + ",\"digest\":\"" + strf("%016lx", c.digest) + "\",\"counts\":{";
	bool f = true;
	for (auto &k : c.counts) { o += (f ? "" : ",") + js(k.first) + ":" + std::to_string(k.second); f = false; }
	o += "},\"samples\":[";
	f = true;
	for (auto &s : c.samples) { o += (f ? "" : ",") + js(s); f = false; }
	o += "],\"violations\":[";
	f = true;
	for (auto &v : c.violations) { o += (f ? "" : ",") + strf("{\"idx\":%lu,\"msg\":", v.first) + js(v.second.substr(0, 6000)) + "}"; f = false; }
	o += "]}\n";
	if (out.empty()) fputs(o.c_str(), stdout);
	else { FILE *fp = fopen(out.c_str(), "w"); if (!fp) return 64; fputs(o.c_str(), fp); fclose(fp); }
	fflush(stdout);
	return c.violations.empty() ? 0 : 3;
}
