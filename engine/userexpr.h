// User expressions over model quantities.
#pragma once
#include "kit.h"
// expression over model quantities, with its value
struct UserExpr {
	casadi::SX sx; double val; double mag; std::set<std::string> args; std::string text;
};
inline UserExpr genExpr(Ctx& c, Robot& r, const std::map<std::string, Mat>& vals, const std::map<std::string, std::set<std::string>>& deps, int depth) {
	UserExpr e;
	int k = depth == 0 ? c.t.draw(2) : c.t.draw(8);
	if (k == 0) { double v = c.t.real(2); return {casadi::SX(v), v, std::fabs(v), {}, num(v)}; }
	if (k == 1 || k == 2) {
		auto it = vals.begin(); std::advance(it, c.t.draw(vals.size()));
		const Mat& m = it->second;
		int i = c.t.draw(m.rows()), j = c.t.draw(m.cols());
		return {r.model[it->first](i, j), m(i, j), std::fabs(m(i, j)), deps.at(it->first), it->first + "(" + std::to_string(i) + "," + std::to_string(j) + ")"};
	}
	UserExpr a = genExpr(c, r, vals, deps, depth - 1);
	if (k == 3) return {sin(a.sx), std::sin(a.val), 1 + a.mag, a.args, "sin(" + a.text + ")"};
	if (k == 4) return {tanh(a.sx), std::tanh(a.val), 1 + a.mag, a.args, "tanh(" + a.text + ")"};
	UserExpr b = genExpr(c, r, vals, deps, depth - 1);
	b.args.insert(a.args.begin(), a.args.end());
	if (k == 5) return {a.sx + b.sx, a.val + b.val, a.mag + b.mag, b.args, "(" + a.text + "+" + b.text + ")"};
	if (k == 6) return {a.sx - b.sx, a.val - b.val, a.mag + b.mag, b.args, "(" + a.text + "-" + b.text + ")"};
	return {a.sx * b.sx, a.val * b.val, a.mag * b.mag, b.args, "(" + a.text + "*" + b.text + ")"};
}
// description of a user function: usually plain words, sometimes any text
inline std::string genDescr(Tape& t, int k, bool& odd) {
	if (!t.flip(1, 3)) return "user function, number " + std::to_string(k);
	static const std::vector<std::string> parts = {"distance", " ", "\n", "\n\n", "\r\n", "\"", "\\", "\\n", "'", "*/", "/*", "//", "%d", "{", "}", ";", "robot", "thunder_robot", "\t", "#define x", ")\"", "\xc3\xa9", "R\"(", "?\?/", "-", "get_M()", "return 0;"};
	std::string d;
	for (int i = 0, n = t.flip(1, 8) ? 60 : t.range(0, 8); i < n; i++) d += parts[t.draw(parts.size())];
	odd = true;
	return d;
}
