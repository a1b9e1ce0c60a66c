// Driver: run / replay / shrink one property.
#include "core.h"
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <cerrno>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

static Tape* g_tape = nullptr;
static Ctx* g_ctx = nullptr;
static char g_crash[512] = "";
static std::vector<std::vector<uint64_t>>* g_before = nullptr;   // the cases this process has run before
static std::string g_beforeDesc;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void dumpTape(const char* why) {          // called from a signal handler or a sanitizer death callback
	if (!g_tape || !g_crash[0]) return;
	int fd = open(g_crash, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) return;
	char b[64];
	int k = snprintf(b, sizeof b, "CRASH %s\n", why);
	(void)!write(fd, b, k);
	if (g_before) for (auto& t : *g_before) {
		(void)!write(fd, "TAPE", 4);
		for (uint64_t v : t) { k = snprintf(b, sizeof b, " %llu", (unsigned long long)v); (void)!write(fd, b, k); }
		(void)!write(fd, "\n", 1);
	}
	(void)!write(fd, "TAPE", 4);
	for (uint64_t v : g_tape->data()) { k = snprintf(b, sizeof b, " %llu", (unsigned long long)v); (void)!write(fd, b, k); }
	(void)!write(fd, "\nCASE\n", 6);
	(void)!write(fd, g_beforeDesc.data(), g_beforeDesc.size());
	if (g_ctx) (void)!write(fd, g_ctx->desc.data(), g_ctx->desc.size());
	(void)!write(fd, "\n", 1);
	close(fd);
}
static void onSignal(int s) {
	dumpTape(s == SIGALRM ? "timeout" : strsignal(s));
	signal(s, SIG_DFL);
	_exit(s == SIGALRM ? 98 : 97);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }
static void onAsan() { dumpTape("sanitizer report"); }
#endif
static void installHandlers() {
	static char stack[1 << 16];
	stack_t ss; ss.ss_sp = stack; ss.ss_size = sizeof stack; ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
#if defined(__SANITIZE_ADDRESS__)
	__asan_set_death_callback(onAsan);
	int sig[] = {SIGALRM, SIGABRT};
#else
	int sig[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
#endif
	for (int s : sig) sigaction(s, &sa, nullptr);
}

struct Outcome { bool failed = false, discarded = false; std::string msg, key, desc; std::vector<uint64_t> tape; std::map<std::string, long> labels; bool nontrivial = false; long checks = 0; };
static std::string g_scratch;
static unsigned g_caseLimit = 150;
static Outcome runCase(const PropInfo& p, Tape& t) {
	Outcome o;
	cleanScratch(g_scratch);
	Ctx c(t, g_scratch);
	g_tape = &t; g_ctx = &c;
	alarm(g_caseLimit);
	try { p.fn(c); }
	catch (const Discard&) { o.discarded = true; }
	catch (const Fail& f) { o.failed = true; o.msg = f.what(); o.key = f.key; }
	catch (const std::exception& e) { o.failed = true; o.msg = std::string("unexpected exception: ") + e.what(); o.key = "exception"; }
	alarm(0);
	g_tape = nullptr; g_ctx = nullptr;
	o.desc = c.desc; o.labels = c.labels; o.nontrivial = c.nontrivial; o.checks = c.checks; o.tape = t.used();
	return o;
}
static std::string js(const std::string& s) {
	std::string r = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r + "\"";
}
typedef std::vector<std::vector<uint64_t>> Tapes;      // cases run one after another in one process; the last one is judged
static void writeTape(std::ostream& f, const std::vector<uint64_t>& t) { f << "TAPE"; for (auto v : t) f << " " << v; f << "\n"; }
static void writeFail(const std::string& path, const PropInfo& p, const Outcome& o) {
	std::ofstream f(path);
	f << "PROPERTY " << p.id << "\n";
	if (g_before) for (auto& t : *g_before) writeTape(f, t);
	writeTape(f, o.tape);
	f << "KEY " << o.key << "\nMESSAGE\n" << o.msg << "\nCASE\n" << g_beforeDesc << o.desc << "\n";
}
static Tapes readTapes(const std::string& path) {
	std::ifstream f(path);
	std::string l;
	Tapes r;
	while (std::getline(f, l)) {
		if (l == "CASE" || l.compare(0, 4, "KEY ") == 0) break;
		if (l.compare(0, 4, "TAPE")) continue;
		std::istringstream s(l.substr(4));
		std::vector<uint64_t> v;
		uint64_t x;
		while (s >> x) v.push_back(x);
		r.push_back(v);
	}
	if (r.empty()) r.push_back({});
	return r;
}
static Outcome runSeq(const PropInfo& p, const Tapes& ts) {
	static Tapes before;
	before.assign(ts.begin(), ts.end() - 1);
	g_before = &before; g_beforeDesc.clear();
	for (auto& b : before) {
		Tape t(b);
		Outcome o = runCase(p, t);
		g_beforeDesc += "--- earlier case in the same process" + std::string(o.failed ? " (fails too: " + o.msg + ")" : "") + "\n" + o.desc + "\n";
	}
	if (!before.empty()) g_beforeDesc += "--- the failing case\n";
	Tape t(ts.back());
	return runCase(p, t);
}
// Cases judged in a process that has run nothing else: the process forks itself for each of them.
enum Verdict { PASSES = 0, FAILS = 1, DIES = 2 };
static Verdict forked(const PropInfo& p, const Tapes& ts, const std::set<std::string>& known, const std::string& dump, std::vector<uint64_t>* used) {
	int fd[2];
	if (pipe(fd)) return PASSES;
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		snprintf(g_crash, sizeof g_crash, "%s", dump.c_str());
		Outcome o = runSeq(p, ts);
		bool bad = o.failed && !known.count(o.key);
		if (bad && !dump.empty()) writeFail(dump, p, o);
		uint64_t n = o.tape.size();
		if (bad) { (void)!write(fd[1], &n, 8); for (auto v : o.tape) (void)!write(fd[1], &v, 8); }
		_exit(bad ? 1 : 0);
	}
	close(fd[1]);
	std::vector<uint64_t> got;
	uint64_t n = 0, v;
	FILE* f = fdopen(fd[0], "r");
	if (fread(&n, 8, 1, f) == 1) while (got.size() < n && fread(&v, 8, 1, f) == 1) got.push_back(v);
	fclose(f);
	int st;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return PASSES;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { if (used) *used = got; return FAILS; }
	if (used) *used = ts.back();
	return DIES;
}
struct Zygote {                                   // forked before the first case
	int to = -1, from = -1;
	static bool rd(int f, void* b, size_t n) { for (size_t k = 0; k < n; ) { ssize_t r = read(f, (char*)b + k, n - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; k += r; } return true; }
	static bool wr(int f, const void* b, size_t n) { for (size_t k = 0; k < n; ) { ssize_t r = write(f, (const char*)b + k, n - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; k += r; } return true; }
	static bool rdv(int f, std::vector<uint64_t>& v) { uint64_t n; if (!rd(f, &n, 8)) return false; v.resize(n); return n == 0 || rd(f, v.data(), 8 * n); }
	static void wrv(int f, const std::vector<uint64_t>& v) { uint64_t n = v.size(); wr(f, &n, 8); if (n) wr(f, v.data(), 8 * n); }
	void start(const PropInfo& p, const std::set<std::string>& known, const std::string& dump) {
		int a[2], b[2];
		if (pipe(a) || pipe(b)) return;
		if (fork() == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			close(a[1]); close(b[0]);
			for (;;) {
				uint64_t n, d;
				if (!rd(a[0], &n, 8) || !rd(a[0], &d, 8)) _exit(0);
				Tapes ts(n);
				for (auto& t : ts) if (!rdv(a[0], t)) _exit(0);
				std::vector<uint64_t> used;
				uint64_t v = forked(p, ts, known, d ? dump : "", &used);
				wr(b[1], &v, 8); wrv(b[1], used);
			}
		}
		close(a[0]); close(b[1]);
		to = a[1]; from = b[0];
	}
	Verdict judge(const Tapes& ts, bool dump, std::vector<uint64_t>* used) {
		uint64_t n = ts.size(), d = dump, v = 0;
		if (to < 0 || !wr(to, &n, 8) || !wr(to, &d, 8)) return PASSES;
		for (auto& t : ts) wrv(to, t);
		std::vector<uint64_t> u;
		if (!rd(from, &v, 8) || !rdv(from, u)) return PASSES;
		if (used) *used = u;
		return (Verdict)v;
	}
};
typedef std::function<Verdict(const Tapes&, bool, std::vector<uint64_t>*)> Judge;
// The smallest sequence that still fails, written by the judging process; false: the failure does not repeat in a process of its own.
static bool reduce(Tapes ts, const Judge& judge, double secs) {
	double end = now() + secs;
	Tapes alone{ts.back()};
	if (judge(alone, false, nullptr) != PASSES) ts = alone;
	else {
		if (ts.size() == 1 || judge(ts, false, nullptr) == PASSES) return false;
		auto without = [&](size_t a, size_t b) {
			Tapes c = ts;
			c.erase(c.begin() + a, c.begin() + b);
			if (judge(c, false, nullptr) == PASSES) return false;
			ts = c;
			return true;
		};
		for (size_t k = 1; k < ts.size() && now() < end; k *= 2) if (ts.size() - 1 > k && without(0, ts.size() - 1 - k)) break;      // the last few are enough
		for (size_t k = std::max<size_t>(1, ts.size() / 2); k >= 1 && now() < end; k /= 2)
			for (size_t i = 0; i + k < ts.size() && now() < end; ) if (!without(i, i + k)) i += k;
		end = now() + secs;
	}
	for (size_t which = ts.size(); which-- > 0; ) {        // the judged case first
		int evals = 0;
		bool lastOne = which + 1 == ts.size();
		std::vector<uint64_t> best = ts[which];
		auto attempt = [&](const std::vector<uint64_t>& cand) {
			if (cand == best) return false;
			evals++;
			Tapes c = ts;
			c[which] = cand;
			std::vector<uint64_t> used;
			if (judge(c, false, &used) == PASSES) return false;
			if (!lastOne) used = cand;
			if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
			best = used; ts[which] = best;
			return true;
		};
		auto more = [&] { return evals < 600 && now() < end; };
		bool progress = true;
		while (progress && more()) {
			progress = false;
			for (size_t len : {best.size() / 2, best.size() / 4}) if (len && more()) { auto c = best; c.resize(len); if (attempt(c)) progress = true; }
			for (size_t k = 16; k >= 1 && more(); k /= 2)
				for (size_t i = 0; i + k <= best.size() && more(); ) {
					auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
					if (attempt(c)) progress = true; else i += k;
				}
			for (size_t k = 8; k >= 1 && more(); k /= 2)
				for (size_t i = 0; i < best.size() && more(); i += k) {
					auto c = best; bool any = false;
					for (size_t j = i; j < std::min(i + k, c.size()); j++) { if (c[j]) any = true; c[j] = 0; }
					if (any && attempt(c)) progress = true;
				}
			for (size_t i = 0; i < best.size() && more(); i++) while (i < best.size() && best[i] > 1 && more()) { auto c = best; c[i] /= 2; if (!attempt(c)) { if (c[i] > 0 && best[i] <= 64) { c = best; c[i]--; if (attempt(c)) { progress = true; continue; } } break; } progress = true; }
		}
	}
	return judge(ts, true, nullptr) != PASSES;
}
static void mkdirs(const std::string& d) { mkdir(d.c_str(), 0755); }

int main(int argc, char** argv) {
	std::map<std::string, std::string> o;
	std::vector<std::string> pos;
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
	if (pos.empty()) return 2;
	if (pos[0] == "list") { for (auto& p : registry()) std::cout << p.id << "\t" << p.rule << "\n"; return 0; }
	const PropInfo* p = nullptr;
	for (auto& x : registry()) if (pos.size() > 1 && x.id == pos[1]) p = &x;
	if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
	g_scratch = o.count("scratch") ? o["scratch"] : "/tmp/pbt_scratch_" + std::to_string(getpid());
	mkdirs(g_scratch);
	if (o.count("limit")) g_caseLimit = std::stoi(o["limit"]);
	installHandlers();
	std::set<std::string> known;
	{ std::istringstream s(o["known"]); std::string k; while (std::getline(s, k, ',')) if (!k.empty()) known.insert(k); }
	// silence the code under test
	int saved = dup(1), saved2 = dup(2);
	if (!o.count("verbose")) {
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
		if (o.count("errlog")) dn = open(o["errlog"].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(dn, 2);
	}

	if (pos[0] == "replay") {
		if (o.count("crash")) snprintf(g_crash, sizeof g_crash, "%s", o["crash"].c_str());
		Outcome r = runSeq(*p, readTapes(pos[2]));
		dup2(saved, 1); dup2(saved2, 2);
		if (r.failed) printf("FAILED key=%s\n%s\n%s\n", r.key.c_str(), r.msg.c_str(), (g_beforeDesc + r.desc).c_str());
		else printf("%s\n%s\n", r.discarded ? "DISCARDED" : "PASSED", o.count("show") ? r.desc.c_str() : "");
		return r.failed ? (known.count(r.key) ? 3 : 1) : 0;
	}
	if (pos[0] == "shrink") {                     // crashing tape: forked shrink, rewrites the file
		std::string file = pos[2];
		Judge here = [&](const Tapes& ts, bool dump, std::vector<uint64_t>* used) { return forked(*p, ts, known, dump ? file : "", used); };
		return reduce(readTapes(file), here, o.count("secs") ? std::stod(o["secs"]) : 40) ? 0 : 4;
	}
	// run
	uint64_t seed = std::stoull(o.count("seed") ? o["seed"] : "1");
	long cases = std::stol(o.count("cases") ? o["cases"] : "100");
	int w = std::stoi(o.count("worker") ? o["worker"] : "0"), W = std::stoi(o.count("workers") ? o["workers"] : "1");
	double end = now() + (o.count("secs") ? std::stod(o["secs"]) : 60);
	std::string out = o["out"];
	snprintf(g_crash, sizeof g_crash, "%s.crash", out.c_str());
	Zygote pristine;
	pristine.start(*p, known, out + ".fail");
	Judge there = [&](const Tapes& ts, bool dump, std::vector<uint64_t>* used) { return pristine.judge(ts, dump, used); };
	Tapes history;
	g_before = &history;
	long evals = 0, disc = 0, checks = 0, nt = 0;
	std::map<std::string, long> labels, knownHits;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	bool failed = false, timeUp = false;
	for (long i = w; i < cases; i += W) {
		if (now() > end) { timeUp = true; break; }
		if (o.count("stop") && access(o["stop"].c_str(), F_OK) == 0) break;
		Rng r(seed * 0x9E3779B97F4A7C15ull ^ fnv(p->id) ^ ((uint64_t)i << 20));
		r.next();
		auto& first = corpus()[p->id];
		Tape t(i < (long)first.size() ? first[i] : std::vector<uint64_t>(), r.next());
		Outcome res = runCase(*p, t);
		if (!res.failed) history.push_back(res.tape);
		if (res.discarded) { disc++; continue; }
		evals++; checks += res.checks;
		for (auto& l : res.labels) labels[l.first] += l.second;
		if (res.nontrivial) { nt++; if (distinct.insert(fnv(res.desc)).second && samples.size() < 2) samples.push_back(res.desc); }
		if (res.failed) {
			if (known.count(res.key)) { knownHits[res.key]++; continue; }
			if (o.count("stop")) std::ofstream(o["stop"]) << "x";
			Tapes ts = history;
			ts.push_back(res.tape);
			writeFail(out + ".fail", *p, res);
			reduce(ts, there, o.count("shrink") ? std::stod(o["shrink"]) : 40);
			failed = true;
			break;
		}
	}
	std::ofstream f(out + ".tmp");
	f << "{\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"nontrivial\":" << nt << ",\"checks\":" << checks << ",\"failed\":" << (failed ? "true" : "false") << ",\"time_up\":" << (timeUp ? "true" : "false") << ",\"labels\":{";
	bool first = true;
	for (auto& l : labels) { f << (first ? "" : ",") << js(l.first) << ":" << l.second; first = false; }
	f << "},\"known\":{";
	first = true;
	for (auto& l : knownHits) { f << (first ? "" : ",") << js(l.first) << ":" << l.second; first = false; }
	f << "},\"hashes\":[";
	first = true;
	for (auto h : distinct) { f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
	f << "],\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << js(samples[i]);
	f << "]}\n";
	f.close();
	rename((out + ".tmp").c_str(), out.c_str());
	return 0;
}
