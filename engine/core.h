// Property registry and per-case context.
#pragma once
#include "tape.h"
#include <map>
#include <filesystem>
#include <set>
#include <functional>
#include <Eigen/Dense>

struct Ctx {
	Tape& t;
	std::string scratch;                     // private scratch directory of this worker
	std::string desc;                        // human readable case
	std::map<std::string, long> labels;      // classification counters
	bool nontrivial = false;
	long checks = 0;                         // number of comparisons made
	Ctx(Tape& tp, const std::string& s) : t(tp), scratch(s) {}
	void label(const std::string& l) { labels[l]++; }
};
// nothing that an earlier case wrote may reach this one (so/: compiled classes, found by their content)
inline void cleanScratch(const std::string& dir) {
	if (dir.find("/pbt_") == std::string::npos) return;
	std::error_code ec;
	std::vector<std::filesystem::path> old;
	for (auto& e : std::filesystem::directory_iterator(dir, ec)) if (e.path().filename() != "so") old.push_back(e.path());
	for (auto& p : old) std::filesystem::remove_all(p, ec);
}
struct PropInfo { std::string id; std::function<void(Ctx&)> fn; std::string rule; };
inline std::vector<PropInfo>& registry() { static std::vector<PropInfo> r; return r; }
struct Reg { Reg(const char* id, std::function<void(Ctx&)> f, const char* rule) { registry().push_back({id, f, rule}); } };
// beginnings of the choices of the first cases: situations every run has to contain
inline std::map<std::string, std::vector<std::vector<uint64_t>>>& corpus() { static std::map<std::string, std::vector<std::vector<uint64_t>>> r; return r; }
struct CorpusReg { CorpusReg(const char* id, std::vector<std::vector<uint64_t>> v) { auto& k = corpus()[id]; k.insert(k.end(), v.begin(), v.end()); } };
#define PROP_CAT2(a, b) a##b
#define PROP_CAT(a, b) PROP_CAT2(a, b)
#define CORPUS(id, ...) static CorpusReg PROP_CAT(corpus_, id)(#id, __VA_ARGS__);
#define PROPERTY(id, rule) static void id(Ctx& c); static Reg PROP_CAT(reg_, id)(#id, id, rule); static void id(Ctx& c)

[[noreturn]] inline void fail(const std::string& m, const std::string& key = "") { throw Fail(m, key); }
inline std::string str(const Eigen::MatrixXd& m) {
	std::string s = "[" + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + "]";
	if (m.size() > 400) return s;
	for (int i = 0; i < m.rows(); i++) { s += "\n  "; for (int j = 0; j < m.cols(); j++) s += num(m(i, j)) + " "; }
	return s;
}
// |a-b| <= tol elementwise; catches NaN and shape differences
inline void same(Ctx& c, const std::string& what, const Eigen::MatrixXd& got, const Eigen::MatrixXd& want, double tol, const std::string& key = "") {
	c.checks++;
	if (got.rows() != want.rows() || got.cols() != want.cols()) fail(what + ": shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + ", expected " + std::to_string(want.rows()) + "x" + std::to_string(want.cols()), key);
	for (int i = 0; i < got.rows(); i++) for (int j = 0; j < got.cols(); j++) {
		if (got(i, j) == want(i, j)) continue;
		double d = std::fabs(got(i, j) - want(i, j));
		if (!(d <= tol)) fail(what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j)) + " (tolerance " + num(tol) + ")\ngot " + str(got) + "\nexpected " + str(want), key);
	}
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
