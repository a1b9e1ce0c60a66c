// Building robots through the public entry points of the repository and reading their functions.
#pragma once
#include "core.h"
#include "gen.h"
#include "ref.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <memory>
#include <filesystem>
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "utils.h"

typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd EV;
using thunder_ns::Robot;

inline void writeFile(const std::string& p, const std::string& s) { std::ofstream f(p); f << s; }
namespace fs = std::filesystem;
inline std::string env(const char* k) { const char* v = getenv(k); return v ? v : ""; }
inline std::string readFile(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline EV ev(const Vec& v) { return Eigen::Map<const EV>(v.data(), v.size()); }
inline Vec vec(const Mat& m) { return Vec(m.data(), m.data() + m.size()); }
inline Mat col(const Vec& v) { return Mat(ev(v)); }

struct Bot {
	std::string yaml, file;
	ref::Model m;
	std::unique_ptr<Robot> r;
	std::map<std::string, thunder_ns::fun_obj> f;
	void refresh() { f.clear(); for (auto& x : r->get_functions()) f[x.name] = x; }
	bool has(const std::string& n) const { return f.count(n); }
	// value of a model function; its existence and declared shape are part of the contract
	Mat get(const std::string& n) {
		auto it = f.find(n);
		if (it == f.end()) fail("model function " + n + " does not exist", "missing");
		Mat v = r->get(n);
		if ((int)v.rows() != it->second.out_size[0] || (int)v.cols() != it->second.out_size[1]) fail("model function " + n + " returns " + str(v) + " but declares " + std::to_string(it->second.out_size[0]) + "x" + std::to_string(it->second.out_size[1]));
		return v;
	}
};
inline Bot makeBot(const std::string& yaml, const std::string& file, const std::string& name = "robo", bool kinOnly = false) {
	Bot b;
	b.yaml = yaml; b.file = file;
	writeFile(file, yaml);
	b.m = ref::parse(yaml);
	b.r.reset(new Robot(thunder_ns::robot_from_file(name, file, !kinOnly)));
	if (kinOnly) {
		b.r->init_symb_parameters();
		thunder_ns::compute_kinematics(*b.r, true);
		b.r->update_symb_parameters();
	}
	b.refresh();
	return b;
}
inline Bot makeBot(Ctx& c, const Spec& s, bool kinOnly = false) { std::string y = toYaml(s); c.desc += y; return makeBot(y, c.scratch + "/conf.yaml", "robo", kinOnly); }

// viaSet: use the dedicated setters where they exist
inline void apply(Bot& b, const State& s, bool viaSet = true) {
	Robot& r = *b.r;
	if (viaSet) { r.set_q(ev(s.q)); r.set_dq(ev(s.dq)); r.set_dqr(ev(s.dqr)); r.set_ddqr(ev(s.ddqr)); }
	else { r.set_arg("q", ev(s.q)); r.set_arg("dq", ev(s.dq)); r.set_arg("dqr", ev(s.dqr)); r.set_arg("ddqr", ev(s.ddqr)); }
	r.set_arg("ddq", ev(s.ddq)); r.set_arg("d3q", ev(s.d3q)); r.set_arg("w", ev(s.w));
	if (b.m.ELASTIC) {
		if (viaSet) { r.set_x(ev(s.x)); r.set_dx(ev(s.dx)); r.set_ddx(ev(s.ddx)); r.set_ddxr(ev(s.ddxr)); }
		else { r.set_arg("x", ev(s.x)); r.set_arg("dx", ev(s.dx)); r.set_arg("ddx", ev(s.ddx)); r.set_arg("ddxr", ev(s.ddxr)); }
	}
}

// natural magnitudes, used to scale tolerances
struct Scale { double L, S, mL, v, a, j, g; };
inline double amax(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
inline double asum(const Vec& v) { double m = 0; for (double x : v) m += std::fabs(x); return m; }
inline Scale scaleOf(const ref::Model& m, const State& s) {
	Scale k;
	k.L = 1;
	for (int i = 0; i < m.n; i++) k.L += std::fabs(m.dh[4 * i]) + std::fabs(m.dh[4 * i + 2]) + (m.prism(i) ? std::fabs(s.q[i]) : 0);
	for (int i = 0; i < 3; i++) k.L += std::fabs(m.base[i]) + std::fabs(m.tool[i]);
	k.S = 0; k.mL = 0;
	for (auto& p : m.dyn) {
		double c = k.L + std::fabs(p[1]) + std::fabs(p[2]) + std::fabs(p[3]);
		double mass = std::fabs(p[0]);
		double in = 0; for (int i = 4; i < 10; i++) in += std::fabs(p[i]);
		k.S += mass * c * c + in; k.mL += mass * c;
	}
	k.v = amax(s.dq); k.a = amax(s.ddq); k.j = amax(s.d3q);
	k.g = std::fabs(m.g[0]) + std::fabs(m.g[1]) + std::fabs(m.g[2]);
	return k;
}
inline int joints(const Spec& s, char t) { int k = 0; for (auto& x : s.type) k += x[0] == t; return k; }
inline bool anyFlag(const std::vector<int>& f) { for (int x : f) if (x) return true; return false; }
inline bool someFlag(const std::vector<int>& f) { return anyFlag(f) && std::count(f.begin(), f.end(), 0); }
// classify the configuration for the evidence
inline void classify(Ctx& c, const Spec& s, const ref::Model& m) {
	c.label("n=" + std::to_string(s.n));
	if (joints(s, 'P') && joints(s, 'R')) c.label("mixed R/P");
	else if (joints(s, 'P')) c.label("all prismatic");
	if (s.nSEA() && s.nSEA() < s.n) c.label("mixed rigid/elastic");
	if (m.ELASTIC) c.label("elastic model");
	if (m.Dl_order) c.label("friction");
	bool part = false, any = false;
	for (auto& k : m.symb) { if (someFlag(k.second)) part = true; if (anyFlag(k.second)) any = true; }
	c.label(part ? "partially symbolic" : any ? "symbolic" : "numeric");
	if (asum(Vec(m.base, m.base + 6)) > 0) c.label("base frame");
	if (asum(Vec(m.tool, m.tool + 6)) > 0) c.label("tool frame");
	if (asum(Vec(m.base + 3, m.base + 6)) > 0) c.label("rotated base");
}
inline Mat skew(const Eigen::Vector3d& v) { Mat m(3, 3); m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
template <class T> Mat toMat(const ref::H4<T>& h) { Mat m(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m(i, j) = h.m[i][j]; return m; }
inline std::vector<Tay> traj(const Vec& q, const Vec& dq, const Vec& ddq) { std::vector<Tay> r; for (size_t i = 0; i < q.size(); i++) r.push_back(Tay(q[i], dq[i], ddq.empty() ? 0 : ddq[i] / 2)); return r; }
inline Mat part(const std::vector<Tay>& v, int k, int r, int c) { Vec x; for (auto& t : v) x.push_back(t.c[k] * (k == 2 ? 2 : 1)); return ref::mat(x, r, c); }

typedef std::vector<std::string> Strs;
inline bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }       // conversions of extreme values overflow
// ---- configuration files with other values, damaged ones
inline Spec newValues(Tape& t, Spec s) {                       // same structure and flags, other numbers
	for (auto& x : s.dh) x = t.real();
	for (auto f : {&s.base, &s.tool}) for (auto& x : f->v) x = t.real();
	for (auto& x : s.g) x = t.real(9.81);
	for (auto& l : s.links) { genInertia(t, l.p, t.flip(), t.flip(3, 4)); for (auto& x : l.Dl) x = t.real(2); }
	for (auto& e : s.ej) { for (auto v : {&e.K, &e.D, &e.Dm}) for (auto& x : *v) x = t.real(3); e.Mm = t.real(); }
	return s;
}
inline void collect(const YAML::Node& n, std::set<double>& out) {
	if (n.IsScalar()) { try { out.insert(n.as<double>()); } catch (...) {} try { if (n.as<bool>()) out.insert(1); else out.insert(0); } catch (...) {} }
	else if (n.IsMap()) for (const auto& x : n) collect(x.second, out);
	else if (n.IsSequence()) for (const auto& x : n) collect(x, out);
}
inline std::set<double> numbersOf(const std::string& y) { std::set<double> r; try { collect(YAML::Load(y), r); } catch (...) {} return r; }
inline void listsOf(const YAML::Node& n, const std::string& key, std::map<std::string, std::vector<YAML::Node>>& out) {
	if (n.IsMap()) for (const auto& x : n) listsOf(x.second, x.first.as<std::string>(), out);
	else if (n.IsSequence()) {
		out[key].push_back(n);
		for (const auto& x : n) listsOf(x, key + "/row", out);
	}
}
inline std::string damaged(Tape& t, const std::string& text) {
	YAML::Node y = YAML::Load(text);
	int k = 1 + t.draw(2);
	std::map<std::string, std::vector<YAML::Node>> lists;
	if (t.flip()) listsOf(y, "", lists);           // one list of the file, chosen by its name, with an entry more or less and nothing else wrong
	if (!lists.empty()) {
		k = 0;
		auto it = lists.begin();
		std::advance(it, t.draw(lists.size()));
		YAML::Node n = it->second[t.draw(it->second.size())];
		bool row = n.size() && n[0].IsSequence();
		if (n.size() && t.flip()) n.remove(n.size() - 1);
		else if (row) n.push_back(YAML::Clone(n[0]));
		else n.push_back(t.draw(3) * 0.5);
	}
	for (int i = 0; i < k; i++) {
		YAML::Node n = y;                          // walk down to a node, then damage one of its children
		for (int depth = 0; depth < 6; depth++) {
			if (!n.size()) break;
			std::vector<YAML::Node> keys, vals;
			if (n.IsMap()) for (const auto& x : n) { keys.push_back(x.first); vals.push_back(x.second); }
			else for (const auto& x : n) vals.push_back(x);
			if (vals.empty()) break;
			int j = t.draw(vals.size());
			bool leaf = !vals[j].size() || t.flip(1, 3);
			if (!leaf) { n.reset(vals[j]); continue; }
			int how = t.draw(6);
			if (n.IsMap()) {
				std::string key = keys[j].as<std::string>();
				if (how == 0) n.remove(key);
				else if (how == 1) n[key] = "text";
				else if (how == 2) n[key] = YAML::Node(YAML::NodeType::Null);
				else if (how == 3) n[key] = std::vector<double>{1.25};
				else if (how == 4 && vals[j].IsSequence()) vals[j].push_back(7.5);
				else if (how == 5 && vals[j].IsSequence() && vals[j].size()) { YAML::Node q; for (size_t z = 0; z + 1 < vals[j].size(); z++) q.push_back(vals[j][z]); if (!q.size()) q = std::vector<double>(); n[key] = q; }
				else n.remove(key);
			} else if (n.IsSequence()) {
				if (how < 3) n[j] = "text"; else n.push_back(t.draw(3) * 0.5);
			}
			break;
		}
	}
	YAML::Emitter e;
	e << y;
	std::string r = e.c_str();
	if (t.flip(1, 6) && r.size()) r.resize(t.draw(r.size()));
	return r + "\n";
}
inline std::string regText(const Vec& v, int links) {
	static const char* keys[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	std::string y = "dynamics:\n";
	for (int j = 0; j < links; j++) { y += "  any" + std::to_string(j) + ":\n    inertial:\n"; for (int q = 0; q < 10; q++) y += "      " + std::string(keys[q]) + ": " + num(10 * j + q < (int)v.size() ? v[10 * j + q] : 1.0) + "\n"; }
	return y;
}
