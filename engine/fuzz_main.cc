// Coverage-guided driver (libFuzzer): the input bytes are the choice tape of one property.
// A failing tape is written where run.py replays and shrinks it with the ordinary driver.
#include "core.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

static const PropInfo* g_prop = nullptr;
static std::string g_scratch, g_out;
static Tape* g_tape = nullptr;
static long g_evals, g_disc, g_nt, g_checks;
static std::set<uint64_t> g_seen;
static std::set<std::string> g_known;
static void dump(const char* why) {
	if (!g_tape) return;
	std::ofstream f(g_out);
	f << why << "\nTAPE";
	for (auto v : g_tape->data()) f << " " << v;
	f << "\n";
}
extern "C" void __asan_set_death_callback(void (*)(void));
static void onDeath() { dump("CRASH sanitizer report or signal"); }
static void stats() {
	std::ofstream f(g_out + ".stats");
	f << g_evals << " " << g_disc << " " << g_nt << " " << g_checks << "\n";
	for (auto h : g_seen) f << std::hex << h << "\n";
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	for (auto& x : registry()) if (x.id == getenv("PBT_FUZZ_ID")) g_prop = &x;
	g_scratch = getenv("PBT_FUZZ_SCRATCH"); g_out = getenv("PBT_FUZZ_OUT");
	mkdir(g_scratch.c_str(), 0755);
	{ std::string k; for (const char* p = getenv("PBT_FUZZ_KNOWN"); p && *p; p++) { if (*p == ',') { g_known.insert(k); k.clear(); } else k += *p; } if (!k.empty()) g_known.insert(k); }
	__asan_set_death_callback(onDeath);
	std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
	atexit(stats);
	return g_prop ? 0 : 1;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	std::vector<uint64_t> v(size / 4);
	for (size_t i = 0; i < v.size(); i++) { uint32_t x; memcpy(&x, data + 4 * i, 4); v[i] = x; }
	Tape t(v);
	cleanScratch(g_scratch);
	Ctx c(t, g_scratch);
	g_tape = &t;
	bool failed = false;
	try { g_prop->fn(c); g_evals++; g_checks += c.checks; if (c.nontrivial) { g_nt++; g_seen.insert(fnv(c.desc)); } }
	catch (const Discard&) { g_disc++; }
	catch (const Fail& f) { failed = !g_known.count(f.key); }
	catch (const std::exception&) { failed = true; }
	if (failed) { dump("FAILED"); stats(); _exit(77); }
	g_tape = nullptr;
	if (g_evals % 256 == 0) stats();
	return 0;
}
