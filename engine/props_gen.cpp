// C19, C20, C21: the generated class.
#include "genkit.h"
#include "userexpr.h"
#include "speller.h"
#include "userDefined.h"
#include <set>
#include <regex>
#include "shim/pybind11/pybind11.h"
namespace py = pybind11;
using namespace ref;

static const Strs jointArgs = {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr"}, elArgs = {"x", "dx", "ddx", "ddxr"};
static const Strs framePars = {"par_DHtable", "par_gravity", "par_world2L0", "par_Ln2EE"};     // reduced to the symbolic entries by load_conf
static const Strs fullPars = {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
static const Strs genPars = {"par_REG", "par_DYN", "par_K", "par_D", "par_Dm", "par_Mm", "par_Dl", "par_DHtable", "par_gravity", "par_world2L0", "par_Ln2EE"};
static bool isIn(const Strs& l, const std::string& s) { return std::count(l.begin(), l.end(), s); }

Vec pickEntries(const Vec& v, const std::vector<int>& f) { Vec r; for (size_t i = 0; i < v.size(); i++) if (i < f.size() && f[i]) r.push_back(v[i]); return r; }
Vec regOf(const Vec& d);
Vec dynOf(const Vec& r);
Vec regOf(const Vec& d) {
	Vec r(d.size());
	for (size_t l = 0; l + 10 <= d.size(); l += 10) {
		double m = d[l], x = d[l + 1], y = d[l + 2], z = d[l + 3];
		double s[10] = {m, m * x, m * y, m * z, d[l + 4] + m * (y * y + z * z), d[l + 5] - m * x * y, d[l + 6] - m * x * z, d[l + 7] + m * (x * x + z * z), d[l + 8] - m * y * z, d[l + 9] + m * (x * x + y * y)};
		for (int k = 0; k < 10; k++) r[l + k] = s[k];
	}
	return r;
}
Vec dynOf(const Vec& r) {
	Vec d(r.size());
	for (size_t l = 0; l + 10 <= r.size(); l += 10) {
		double m = r[l], x = 0, y = 0, z = 0;
		if (m != 0) { x = r[l + 1] / m; y = r[l + 2] / m; z = r[l + 3] / m; }
		double s[10] = {m, x, y, z, r[l + 4] - m * (y * y + z * z), r[l + 5] + m * x * y, r[l + 6] + m * x * z, r[l + 7] - m * (x * x + z * z), r[l + 8] + m * y * z, r[l + 9] - m * (x * x + y * y)};
		for (int k = 0; k < 10; k++) d[l + k] = s[k];
	}
	return d;
}
static double parTol(const Vec& dyn) { double s = 1; for (size_t l = 0; l + 10 <= dyn.size(); l += 10) { double c = std::fabs(dyn[l + 1]) + std::fabs(dyn[l + 2]) + std::fabs(dyn[l + 3]); s = std::max(s, std::fabs(dyn[l]) * (1 + c) * (1 + c) + c); for (int k = 4; k < 10; k++) s = std::max(s, std::fabs(dyn[l + k])); } return 1e-12 * s; }
static Vec randDyn(Tape& t, int n) { Vec v(10 * n); for (int i = 0; i < n; i++) genInertia(t, &v[10 * i], t.flip(), t.flip(3, 4)); return v; }

// what an object of the generated class should hold
struct Want {
	std::map<std::string, Vec> v;
	std::map<std::string, double> tol;           // parameters obtained by a conversion or read from a file
	bool loaded = false;
	void init(const Model& m) {
		v.clear(); tol.clear(); loaded = false;
		for (auto& a : jointArgs) v[a] = Vec(m.n, 0.0);
		for (auto& a : elArgs) v[a] = Vec(m.ne, 0.0);
		v["w"] = Vec(6, 0.0);
		v["par_DYN"] = v["par_REG"] = Vec(10 * m.n, 0.0);
		v["par_Dl"] = Vec(m.Dl_order * m.n, 0.0);
		v["par_K"] = Vec(m.K_order * m.ne, 0.0); v["par_D"] = Vec(m.D_order * m.ne, 0.0); v["par_Dm"] = Vec(m.Dm_order * m.ne, 0.0); v["par_Mm"] = Vec(m.ne, 0.0);
		v["par_DHtable"] = Vec(4 * m.n, 0.0); v["par_gravity"] = Vec(3, 0.0); v["par_world2L0"] = v["par_Ln2EE"] = Vec(6, 0.0);
	}
	void toReg() { v["par_REG"] = regOf(v["par_DYN"]); tol["par_REG"] = parTol(v["par_DYN"]); }
	void toDyn() { v["par_DYN"] = dynOf(v["par_REG"]); tol["par_DYN"] = parTol(v["par_DYN"]); }
	// load_conf of a complete configuration; the flags are those of the robot
	void load(const Model& m, const Model& file, bool hasG, bool upd) {
		for (auto& p : framePars) if (p != "par_gravity" || hasG) v[p] = pickEntries(param(file, p), m.symb.at(p));
		v["par_DYN"] = param(file, "par_DYN"); tol["par_DYN"] = 0;
		if (upd) toReg();
		int nf = file.n;
		(void)nf;
	}
};
static double big(const Mat& m) { double b = 0; for (int i = 0; i < m.size(); i++) if (std::isfinite(m.data()[i])) b = std::max(b, std::fabs(m.data()[i])); return b; }
static void sameVal(Ctx& c, const std::string& what, const Mat& got, const Mat& want, double rel = 1e-10) {
	c.checks++;
	if (got.rows() != want.rows() || got.cols() != want.cols()) fail(what + ": shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + ", expected " + std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
	double tol = rel * std::max(big(got), big(want));
	for (int i = 0; i < got.size(); i++) {
		double a = got.data()[i], b = want.data()[i];
		if (a == b || (std::isnan(a) && std::isnan(b))) continue;
		if (!(std::fabs(a - b) <= tol)) fail(what + ": entry (" + std::to_string(i % got.rows()) + "," + std::to_string(i / got.rows()) + ") is " + num(a) + ", expected " + num(b) + "\ngot " + str(got) + "\nexpected " + str(want));
	}
}
// the model takes the values of an object
static void toModel(GenBot& g, const Want& w) {
	for (auto& a : jointArgs) g.r->set_arg(a, ev(w.v.at(a)));
	g.r->set_arg("w", ev(w.v.at("w")));
	if (g.m.ELASTIC) for (auto& a : elArgs) g.r->set_arg(a, ev(w.v.at(a)));
	for (auto& p : framePars) if (anyFlag(g.m.symb.at(p))) g.r->set_arg(p, ev(w.v.at(p)));
	for (auto& p : fullPars) if (g.m.symb.count(p) && anyFlag(g.m.symb.at(p))) g.r->set_arg(p, ev(pickEntries(w.v.at(p), g.m.symb.at(p))));
	g.r->set_arg("par_REG", ev(w.v.at("par_REG")));
}
// every getter can be evaluated: the frame parameters hold exactly the symbolic entries
static bool evaluable(const GenBot& g, const Want& w) {
	for (auto& p : framePars) { auto& f = g.m.symb.at(p); int k = std::count(f.begin(), f.end(), 1); if (k && (int)w.v.at(p).size() != k) return false; }
	return true;
}
static std::string fileText(const Spec& s) { return toYaml(s); }
// which values a complete file gives; partial friction and elastic sections are completed by zeros on a new object only
static void loadInto(Want& w, const GenBot& g, const Spec& s, bool upd) {
	Model f = parse(fileText(s));
	w.load(g.m, f, s.hasG, upd);
	for (int i = 0; i < s.n; i++) if (s.links[i].hasFric) for (int k = 0; k < g.m.Dl_order; k++) w.v["par_Dl"][i * g.m.Dl_order + k] = s.links[i].Dl[k];
	if (s.elastic) for (int i = 0; i < g.m.ne && i < (int)s.ej.size(); i++) {
		for (int k = 0; k < g.m.K_order; k++) w.v["par_K"][i * g.m.K_order + k] = s.ej[i].K[k];
		for (int k = 0; k < g.m.D_order; k++) w.v["par_D"][i * g.m.D_order + k] = s.ej[i].D[k];
		for (int k = 0; k < g.m.Dm_order; k++) w.v["par_Dm"][i * g.m.Dm_order + k] = s.ej[i].Dm[k];
		w.v["par_Mm"][i] = s.ej[i].Mm;
	}
	w.loaded = true;
}
static const Strs names = {"robo", "R2d2", "my_arm", "robot", "n", "thunder", "q", "myrobot_v2", "RRR"};

static Spec genStruct(Ctx& c, int big = 12, int lng = 0) {
	GenOpt o;
	if (c.t.flip(1, lng ? lng : 2 * big)) { c.label("long robot"); return genLong(c.t, o, 5, 13); }
	o.nmax = c.t.flip(1, big) ? 4 : c.t.flip(1, 3) ? 3 : 2;
	return genSpec(c.t, o);
}
// a value in force in some object, perhaps with one entry changed; empty: take a new one
static Vec inForce(Tape& t, const std::vector<Want>& w, const std::string& q, size_t n) {
	if (!t.flip(1, 3)) return {};
	Vec v = w[t.draw(w.size())].v.at(q);
	if (v.size() != n) return {};
	nearby(t, v);
	return v;
}
static void cmpPars(Ctx& c, GenBot& g, void* p, const Want& w, const std::string& when) {
	for (auto& n : genPars) {
		auto t = w.tol.find(n);
		same(c, n + " " + when, g.lib->par(p, n), col(w.v.at(n)), t == w.tol.end() ? 0 : t->second);
	}
}
static void cmpDims(Ctx& c, GenBot& g, void* p) {
	const Model& m = g.m;
	std::vector<std::pair<std::string, int>> d = {{"n_joints", m.n}, {"get_numJoints", m.n}, {"get_numParDYN", 10 * m.n}, {"get_numParREG", 10 * m.n}, {"numParDYN", 10 * m.n}, {"numParREG", 10 * m.n}, {"ELASTIC", m.ELASTIC}, {"numElasticJoints", m.ne}, {"K_order", m.K_order}, {"D_order", m.D_order}, {"Dl_order", m.Dl_order}, {"Dm_order", m.Dm_order}};
	for (int i = 0; i < m.n; i++) d.push_back({"ela" + std::to_string(i), m.ela[i]});
	for (auto& x : d) { c.checks++; if (g.lib->dim(p, x.first) != x.second) fail(x.first + " of the generated class is " + std::to_string(g.lib->dim(p, x.first)) + ", expected " + std::to_string(x.second), "dims"); }
}
struct Objs { Lib* l; std::vector<void*> p; ~Objs() { for (auto x : p) l->del(x); } };

// ---------------------------------------------------------------- C19
PROPERTY(C19, "random robots and names through the real command line, compiled and loaded; every generated getter against the symbolic model of the same configuration at random states, after load_conf and after changing parameters at run time. Non-trivial: at least one partially symbolic parameter or elastic/friction model, at least 2 joints") {
	Spec s = genStruct(c);
	std::string name = genName(c.t, names);
	c.desc += "name " + name + "\n" + toYaml(s);
	std::string given;
	if (c.t.flip(1, 3)) { Speller sp{c.t}; given = sp.spell(s); c.desc += "--- given to the command line as\n" + given; c.label("another spelling"); }
	GenBot g = makeGen(c, toYaml(s), name, {}, {}, given);
	classify(c, s, g.m);
	Objs o{g.lib.get()};
	void* p = g.lib->make();
	o.p.push_back(p);
	cmpDims(c, g, p);
	bool orig = c.t.flip(1, 3);                 // the user's own file, or the generated one
	g.lib->file(p, "load_conf", orig ? g.file : g.dir + name + "_conf.yaml");
	c.label(orig ? "own file" : "generated file");
	Want w;
	w.init(g.m);
	Spec full = s;
	loadInto(w, g, full, true);
	if (!orig) w.v["par_gravity"] = pickEntries(Vec(s.g, s.g + 3), g.m.symb.at("par_gravity"));
	if (!g.m.symb.at("par_gravity").size()) fail("harness: gravity flags");
	if (!s.hasG && orig && anyFlag(g.m.symb.at("par_gravity"))) fail("harness: gravity");
	bool noG = !s.hasG || (!given.empty() && given.find("gravity") == std::string::npos);      // the file gives no gravity (zero and fixed): it stays as it was
	if (noG) w.v["par_gravity"] = vec(g.lib->par(p, "par_gravity"));
	if (!s.elastic) for (auto q : {"par_K", "par_D", "par_Dm", "par_Mm"}) w.v[q] = vec(g.lib->par(p, q));
	for (auto& n : genPars) {
		double tol = (n == "par_REG" || n == "par_DYN") ? parTol(w.v["par_DYN"]) : 1e-15 * amax(w.v.at(n));
		same(c, n + " after load_conf", g.lib->par(p, n), col(w.v.at(n)), tol);
	}
	int states = 6 + c.t.draw(10);
	bool part = false;
	for (auto& k : g.m.symb) if (someFlag(k.second)) part = true;
	for (int k = 0; k < states; k++) {
		State x = genState(c.t, g.m.n, g.m.ne);
		Vec d4 = genVec(c.t, g.m.n, 1);
		c.desc += show(x);
		w.v["q"] = x.q; w.v["dq"] = x.dq; w.v["ddq"] = x.ddq; w.v["d3q"] = x.d3q; w.v["d4q"] = d4; w.v["dqr"] = x.dqr; w.v["ddqr"] = x.ddqr;
		w.v["x"] = x.x; w.v["dx"] = x.dx; w.v["ddx"] = x.ddx; w.v["ddxr"] = x.ddxr; w.v["w"] = x.w;
		bool both = c.t.flip(1, 3);
		for (auto& a : jointArgs) if (!(both && (a == "q" || a == "dq" || a == "dqr" || a == "ddqr"))) g.lib->set(p, a, w.v[a]);
		if (both) g.lib->args(p, x.q, x.dq, x.dqr, x.ddqr);
		for (auto& a : elArgs) g.lib->set(p, a, w.v[a]);
		g.lib->set(p, "w", x.w);
		if (k % 3 == 2) {                         // other parameter values at run time
			Spec s2 = newValues(c.t, s);
			Model f = parse(toYaml(s2));
			c.desc += "set parameters\n";
			for (auto& q : framePars) { w.v[q] = pickEntries(param(f, q), g.m.symb.at(q)); if (q != "par_gravity" || !noG) g.lib->set(p, q, w.v[q]); else w.v[q] = vec(g.lib->par(p, q)); }
			for (auto& q : fullPars) if (q == "par_DYN" || q == "par_Dl" || (g.m.ELASTIC)) {
				Vec v = param(f, q);
				Vec now = param(g.m, q);
				for (size_t i = 0; i < v.size(); i++) if (!g.m.symb.at(q)[i]) v[i] = now[i];      // only symbolic parameters can change at run time
				v.resize(w.v[q].size(), 0.0);
				c.desc += q + " " + list(v) + "\n";
				w.v[q] = v;
				g.lib->set(p, q, v);
			}
			w.toReg();
		}
		Want now = w;
		for (auto& q : genPars) { now.v[q] = vec(g.lib->par(p, q)); same(c, q + " in force", col(now.v[q]), col(w.v[q]), q == "par_REG" || q == "par_DYN" ? parTol(w.v["par_DYN"]) : 1e-15 * amax(w.v[q])); }
		toModel(g, now);
		for (auto& f : g.f) {
			Mat got = g.lib->fun(p, f.first);
			if ((int)got.rows() != f.second.out_size[0] || (int)got.cols() != f.second.out_size[1]) fail("get_" + f.first + " has another shape than the model function");
			sameVal(c, "get_" + f.first, got, g.get(f.first));
		}
	}
	if (g.m.n >= 2 && (part || g.m.ELASTIC || g.m.Dl_order)) c.nontrivial = true;
}

// ---------------------------------------------------------------- C20
static std::vector<std::string> funNames(const GenBot& g) { Strs r; for (auto& f : g.f) r.push_back(f.first); return r; }
// a new object that was only ever given the last values: its getters must agree to the last bit
static void* freshTwin(GenBot& g, void* p, const Want& w) {
	Lib& l = *g.lib;
	void* q = l.make();
	l.file(q, "load_conf", g.file);
	for (auto& n : genPars) {
		Vec v = vec(l.par(p, n));
		if (vec(l.par(q, n)).size() == v.size()) l.set(q, n, v, 0);
		if (vec(l.par(q, n)) != v) { l.del(q); return nullptr; }
	}
	for (auto& a : jointArgs) l.set(q, a, w.v.at(a));
	for (auto& a : elArgs) l.set(q, a, w.v.at(a));
	l.set(q, "w", w.v.at("w"));
	return q;
}
static void evalSome(Ctx& c, GenBot& g, void* p, const Want& w, int k, const std::string& when, const std::string& dep = "") {
	if (!evaluable(g, w)) return;
	Want now = w;                                 // converted parameters with the object's own rounding
	for (auto& q : genPars) now.v[q] = vec(g.lib->par(p, q));
	toModel(g, now);
	Strs fn = funNames(g);
	if (!dep.empty()) {                           // only functions of this argument
		fn.clear();
		for (auto& f : g.f) if (std::count(f.second.args.begin(), f.second.args.end(), dep)) fn.push_back(f.first);
		if (fn.empty()) return;
	}
	int from = c.t.draw(fn.size());
	void* twin = k == 100 || !dep.empty() || c.t.flip(1, 4) ? freshTwin(g, p, w) : nullptr;
	struct Del { Lib* l; void* p; ~Del() { if (p) l->del(p); } } del{g.lib.get(), twin};
	for (int i = 0; i < k && i < (int)fn.size(); i++) {
		const std::string& f = fn[(from + i * (fn.size() % 7 ? 7 : 1)) % fn.size()];
		Mat got = g.lib->fun(p, f);
		sameVal(c, "get_" + f + " " + when, got, g.get(f));
		if (twin) sameVal(c, "get_" + f + " " + when + ", against a new object with the same values,", got, g.lib->fun(twin, f), 0);
	}
}
static Vec tblRows(const Vec& colMajor, int r, int cc) { Vec v; for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) v.push_back(colMajor[j * r + i]); return v; }

PROPERTY(C20, "call histories (every setter with accepted and refused vectors, setArguments, conversions on and off, load_conf, resizeVariables, copies, getters) on up to three objects of generated classes; every parameter of every object after every step, and generated getters, against a model of plain state. Non-trivial: at least two objects, one refused vector and one accepted parameter set followed by a getter") {
	Spec s = genStruct(c, 20);
	std::string name = genName(c.t, names);
	c.desc += "name " + name + "\n" + toYaml(s);
	GenBot g = makeGen(c, toYaml(s), name);
	classify(c, s, g.m);
	Lib& l = *g.lib;
	Objs o{&l};
	std::vector<Want> w;
	auto add = [&](int from) {
		if (from < 0) { o.p.push_back(l.make()); w.push_back(Want()); w.back().init(g.m); }
		else { o.p.push_back(l.copy(o.p[from])); Want x = w[from]; w.push_back(x); }
	};
	add(-1);
	bool load0 = c.t.flip(3, 4);
	if (load0) { l.file(o.p[0], "load_conf", g.file); loadInto(w[0], g, s, true); }
	cmpPars(c, g, o.p[0], w[0], load0 ? "after load_conf" : "of a new object");
	cmpDims(c, g, o.p[0]);
	int hist = 1 + c.t.draw(6);                   // several histories per compiled class
	int refused = 0, accepted = 0;
	for (int hh = 0; hh < hist; hh++) {
		int steps = c.t.range(1, 40);
		for (int k = 0; k < steps; k++) {
			int i = c.t.draw(o.p.size());
			void* p = o.p[i];
			Want& m = w[i];
			int op = c.t.draw(16);
			std::string d = "object " + std::to_string(i) + ": ", dep;
			auto wrongLen = [&](int right) {
				int n = g.m.n, ne = g.m.ne;
				std::vector<int> q = {0, right - 1, right + 1, 2 * right + 3, 1, 3, 4, 6, n, ne, n + 1, n + ne, 2 * right, right / 2, 4 * n, 10 * n, 10, (int)c.t.draw(40)};
				int x = q[c.t.draw(q.size())];
				return x < 0 || x == right ? right + 1 : x;
			};
			double sc[] = {1, 5, 0.01};
			if (op <= 2) {
				Strs all = jointArgs; all.insert(all.end(), elArgs.begin(), elArgs.end()); all.push_back("w");
				std::string a = all[c.t.draw(all.size())];
				Vec v = inForce(c.t, w, c.t.flip(3, 4) ? a : all[c.t.draw(all.size())], m.v[a].size());
				if (v.empty()) v = genVec(c.t, m.v[a].size(), sc[c.t.draw(3)]);
				d += "set_" + a + " " + list(v);
				l.set(p, a, v); m.v[a] = v; dep = a;
			} else if (op == 3) {
				Strs all = jointArgs; all.insert(all.end(), elArgs.begin(), elArgs.end()); all.push_back("w");
				std::string a = all[c.t.draw(all.size())];
				Vec v(wrongLen(m.v[a].size()), 3.5);
				d += "set_" + a + " with " + std::to_string(v.size()) + " entries (refused)";
				l.set(p, a, v); refused++; dep = a;
			} else if (op == 4) {
				int n = g.m.n, bad = c.t.draw(6);         // 0..3: that vector is wrong
				Vec a[4];
				for (int j = 0; j < 4; j++) a[j] = genVec(c.t, n, 1);
				if (bad < 4) { a[bad].assign(wrongLen(n), 2.5); refused++; }
				else { m.v["q"] = a[0]; m.v["dq"] = a[1]; m.v["dqr"] = a[2]; m.v["ddqr"] = a[3]; }
				d += "setArguments" + (bad < 4 ? " with argument " + std::to_string(bad) + " of length " + std::to_string(a[bad].size()) : list(a[0]) + list(a[1]) + list(a[2]) + list(a[3]));
				l.args(p, a[0], a[1], a[2], a[3]); dep = c.t.pick(Strs{"q", "dq", "dqr", "ddqr"});
			} else if (op == 5 || op == 6) {
				bool R = op == 6;
				int flag = (int)c.t.draw(3) - 1;
				Vec v = inForce(c.t, w, R ? "par_REG" : "par_DYN", 10 * g.m.n);
				if (v.empty()) { v = randDyn(c.t, g.m.n); if (R) v = regOf(v); }
				d += std::string(R ? "set_par_REG " : "set_par_DYN ") + list(v) + " flag " + std::to_string(flag);
				l.set(p, R ? "par_REG" : "par_DYN", v, flag);
				m.v[R ? "par_REG" : "par_DYN"] = v; m.tol.erase(R ? "par_REG" : "par_DYN");
				if (flag != 0) { if (R) m.toDyn(); else m.toReg(); }
				accepted++;
			} else if (op == 7) {
				std::string q = genPars[c.t.draw(genPars.size())];
				Vec v(wrongLen(m.v[q].size()), 1.5);
				int flag = (int)c.t.draw(3) - 1;
				d += "set_" + q + " with " + std::to_string(v.size()) + " entries (refused)";
				l.set(p, q, v, flag); refused++; dep = q;
			} else if (op <= 11) {
				std::string q = genPars[2 + c.t.draw(genPars.size() - 2)];
				Vec v = inForce(c.t, w, q, m.v[q].size());
				if (v.empty()) v = genVec(c.t, m.v[q].size(), 2);
				d += "set_" + q + " " + list(v);
				if (q == "par_DHtable" && (int)v.size() == 4 * g.m.n && c.t.flip()) {
					int r = c.t.flip(3, 4) ? g.m.n : 1;
					d += " as a matrix of " + std::to_string(r) + " rows";
					l.set(p, q, v, -1, r, v.size() / r);
					v = tblRows(v, r, v.size() / r);
				} else l.set(p, q, v);
				m.v[q] = v; accepted++; dep = q;
			} else if (op == 12) {
				Spec s2 = newValues(c.t, s);
				int flag = (int)c.t.draw(3) - 1;
				writeFile(c.scratch + "/h.yaml", toYaml(s2));
				d += "load_conf flag " + std::to_string(flag) + "\n" + toYaml(s2);
				l.file(p, "load_conf", c.scratch + "/h.yaml", flag);
				loadInto(m, g, s2, flag != 0); accepted++;
				m.tol.erase("par_DYN");
			} else if (op == 13 && c.t.flip(1, 3)) {
				d += "resizeVariables";
				l.resize(p); m.init(g.m);
			} else if (op == 14 && o.p.size() < 3) {
				int from = c.t.flip() ? i : -1;
				d += from < 0 ? "a new object" : "copied";
				add(from);
			} else {
				d += "getters";
				evalSome(c, g, p, m, 8, "in a history");
			}
			c.desc += d + "\n";
			for (size_t j = 0; j < o.p.size(); j++) cmpPars(c, g, o.p[j], w[j], "of object " + std::to_string(j) + " after step " + std::to_string(k));
			if (!dep.empty() && c.t.flip(1, 3)) evalSome(c, g, p, m, 2, "after " + d, dep);
			if (c.t.flip(1, 4)) { int j = c.t.draw(o.p.size()); evalSome(c, g, o.p[j], w[j], 3, "of object " + std::to_string(j) + " after step " + std::to_string(k)); }
		}
		if (c.t.flip()) {                             // every argument twice, the second time by almost the same vector
			int j = c.t.draw(o.p.size());
			Strs all = jointArgs; all.insert(all.end(), elArgs.begin(), elArgs.end()); all.push_back("w");
			for (auto& a : all) {
				Vec v(w[j].v[a].size());
				for (auto& x : v) x = c.t.real(2);
				l.set(o.p[j], a, v);
				Vec u = v;
				nearby(c.t, u);
				l.set(o.p[j], a, u); w[j].v[a] = u;
				c.desc += "object " + std::to_string(j) + ": set_" + a + " " + list(v) + " then " + list(u) + "\n";
			}
			c.label("arguments given twice");
		}
		for (size_t j = 0; j < o.p.size(); j++) evalSome(c, g, o.p[j], w[j], 100, "of object " + std::to_string(j) + " at the end");
	}
	if (o.p.size() >= 2 && refused && accepted) c.nontrivial = true;
}

// ---------------------------------------------------------------- C32
static std::string ident(Tape& t) {
	static const char* letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
	std::string n(1, letters[t.draw(52)]);
	for (int i = 0, k = t.draw(10); i < k; i++) { char ch = letters[t.draw(63)]; if (ch != '_' || n.back() != '_') n += ch; }
	while (n.back() == '_') n.pop_back();
	return n;
}
PROPERTY(C32, "random robots to which user functions (expressions over variables, parameters and other model functions, constants, up to 4x4, any names and argument orders) were added while they were built or afterwards; class generated by generate_library and change_to_robot, compiled and loaded; every added getter against direct evaluation of its expression, every getter against the model, at several states and parameter values. Non-trivial: a function of a partially symbolic parameter or of another function") {
	Spec s = genStruct(c, 20);
	std::string name = genName(c.t, names), y = toYaml(s);
	c.desc += "name " + name + "\n" + y;
	GenBot g;
	generate(c, g, y, name);
	g.file = c.scratch + "/conf.yaml";
	bool example = c.t.flip(1, 5);
	Vec q0;
	if (example) { for (int i = 0; i < s.n; i++) q0.push_back(c.t.real(1)); y += "q0: " + list(q0) + "\n"; }
	writeFile(g.file, y);
	g.yaml = y; g.m = parse(y);
	classify(c, s, g.m);
	Bot twin = makeBot(y, g.file);
	State x = genState(c.t, s.n, g.m.ne);
	apply(twin, x);
	c.desc += show(x);
	bool late = c.t.flip();
	c.label(late ? "added to the finished robot" : "added while the robot is built");
	g.r.reset(new Robot(thunder_ns::robot_from_file(name, g.file, late)));
	Robot& r = *g.r;
	if (!late) {
		r.init_symb_parameters();
		thunder_ns::compute_kinematics(r, true); thunder_ns::compute_dynamics(r, true); thunder_ns::compute_regressors(r); thunder_ns::compute_userDefined(r);
	}
	std::map<std::string, Mat> vals;
	std::map<std::string, std::set<std::string>> deps;
	std::map<std::string, Vec> st = {{"q", x.q}, {"dq", x.dq}, {"ddq", x.ddq}, {"d3q", x.d3q}, {"dqr", x.dqr}, {"ddqr", x.ddqr}, {"w", x.w}};
	if (g.m.ELASTIC) { st["x"] = x.x; st["dx"] = x.dx; st["ddx"] = x.ddx; st["ddxr"] = x.ddxr; }
	for (auto& v : st) { vals[v.first] = col(v.second); deps[v.first] = {v.first}; }
	std::set<std::string> partial;
	Strs pars = framePars;
	pars.insert(pars.end(), fullPars.begin(), fullPars.end());
	for (auto& p : pars) {
		bool el = p == "par_K" || p == "par_D" || p == "par_Dm" || p == "par_Mm";
		if ((el && !g.m.ELASTIC) || (p == "par_Dl" && !g.m.Dl_order) || !g.m.symb.count(p)) continue;
		auto fl = g.m.symb.at(p);
		Vec v = late ? pickEntries(param(g.m, p), fl) : param(g.m, p);
		if (v.empty()) continue;
		if (someFlag(fl)) partial.insert(p);
		vals[p] = col(v);
		deps[p] = {};
		if (anyFlag(fl)) deps[p] = {p};
	}
	if (c.t.flip(1, 3)) { vals["par_REG"] = col(vec(twin.r->get_par_REG())); deps["par_REG"] = {"par_REG"}; }
	for (auto& f : twin.f) { vals[f.first] = twin.get(f.first); deps[f.first] = std::set<std::string>(f.second.args.begin(), f.second.args.end()); }
	for (auto it = vals.begin(); it != vals.end();) { if (it->second.size() == 0) it = vals.erase(it); else ++it; }
	struct Added { Mat v, tol; std::string descr; };
	std::map<std::string, Added> added;
	bool nt = false;
	for (int k = 0, steps = c.t.range(1, 6); k < steps; k++) {
		std::string fn = c.t.flip(1, 3) ? "user_f" + std::to_string(k) : ident(c.t);
		if (vals.count(fn) || twin.f.count(fn) || twin.r->model.count(fn) || fn.compare(0, 3, "par") == 0 || fn == "numJoints") continue;
		int rows = c.t.range(1, 4), cols = c.t.range(1, 4);
		casadi::SX ex = casadi::SX::zeros(rows, cols);
		Added a; a.v = Mat::Zero(rows, cols); a.tol = a.v;
		std::set<std::string> args;
		std::string text;
		for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
			if (c.t.flip(1, 6)) continue;
			UserExpr e = genExpr(c, r, vals, deps, c.t.range(0, 3));
			ex(i, j) = e.sx; a.v(i, j) = e.val; a.tol(i, j) = 1e-9 * (1 + e.mag);
			args.insert(e.args.begin(), e.args.end());
			text += "(" + std::to_string(i) + "," + std::to_string(j) + ") = " + e.text + "; ";
		}
		if (!(a.v.array().abs().maxCoeff() < 1e100)) continue;
		Strs al(args.begin(), args.end());
		if (c.t.flip()) std::reverse(al.begin(), al.end());
		if (c.t.flip(1, 4) && !args.count("d4q")) al.push_back("d4q");
		c.desc += "add " + fn + " = " + text + "\n";
		bool odd = false;
		std::string descr = genDescr(c.t, k, odd);
		if (odd) { c.desc += "described by " + std::string(YAML::Dump(YAML::Node(descr))) + "\n"; c.label("description of any text"); }
		if (r.add_function(fn, ex, al, descr) != 1) fail("add_function failed");
		a.descr = descr;
		added[fn] = a;
		vals[fn] = a.v; deps[fn] = std::set<std::string>(al.begin(), al.end());
		for (auto& p : args) if (partial.count(p)) { nt = true; c.label("uses a partially symbolic parameter"); }
		for (auto& f : twin.f) if (text.find(f.first + "(") != std::string::npos) nt = true;
		if (al.empty()) c.label("constant function");
	}
	if (example) {
		if (!thunder_ns::compute_example_fun(r)) fail("the documented example function is refused");
		added["q0_dist"] = {Mat::Constant(1, 1, (ev(x.q) - ev(q0)).norm()), Mat::Constant(1, 1, 1e-11 * (1 + (ev(x.q) - ev(q0)).norm())), "distance from q0"};
		c.label("documented example");
	}
	if (!late) r.update_symb_parameters();
	g.refresh();
	// the class again, with the added functions
	std::string tpl = env("PBT_REPO") + "/src/thunder/thunder_robot_template/thunder_robot.";
	for (auto e : {"h", "cpp"}) fs::copy_file(tpl + e, g.dir + "thunder_" + name + "." + e, fs::copy_options::overwrite_existing);
	r.generate_library(g.dir, name + "_gen", false);
	bool python = c.t.flip(1, 3);
	if (python) { c.desc += "with Python bindings\n"; c.label("Python bindings"); }
	if (!thunder_ns::change_to_robot("robot", name, r, g.dir + "thunder_" + name + ".h", g.dir + "thunder_" + name + ".cpp", python)) fail("change_to_robot reports failure");
	loadLib(c, g, python ? Strs{"-I" + env("PBT_SHIM")} : Strs{});
	if (python) {
		void* op = dlsym(g.lib->h, "pb_open");
		if (!op) fail("the class generated with bindings defines no Python module", "module");
		std::unique_ptr<py::ModuleRec> mod((py::ModuleRec*)((void* (*)())op)());
		for (auto& k : mod->classes) if (k->name == g.cls) for (auto& f : g.f) {
			c.checks++;
			if (!k->methods.count("get_" + f.first)) fail("get_" + f.first + " has no Python binding", "unbound");
			if (k->methods["get_" + f.first][0].doc != f.second.description) fail("the Python documentation of get_" + f.first + " is '" + k->methods["get_" + f.first][0].doc + "', expected '" + f.second.description + "'", "doc");
		}
	}
	Objs o{g.lib.get()};
	void* p = g.lib->make();
	o.p.push_back(p);
	cmpDims(c, g, p);
	g.lib->file(p, "load_conf", g.dir + name + "_conf.yaml");
	Want w;
	w.init(g.m);
	auto put = [&](const State& z) {
		w.v["q"] = z.q; w.v["dq"] = z.dq; w.v["ddq"] = z.ddq; w.v["d3q"] = z.d3q; w.v["dqr"] = z.dqr; w.v["ddqr"] = z.ddqr;
		w.v["x"] = z.x; w.v["dx"] = z.dx; w.v["ddx"] = z.ddx; w.v["ddxr"] = z.ddxr; w.v["w"] = z.w;
		for (auto& a : jointArgs) g.lib->set(p, a, w.v[a]);
		for (auto& a : elArgs) g.lib->set(p, a, w.v[a]);
		g.lib->set(p, "w", w.v["w"]);
	};
	put(x);
	for (auto& a : added) {
		Mat v = g.lib->fun(p, a.first);
		if (v.rows() != a.second.v.rows() || v.cols() != a.second.v.cols()) fail("shape of get_" + a.first);
		for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) { c.checks++; if (!(std::fabs(v(i, j) - a.second.v(i, j)) <= a.second.tol(i, j))) fail("get_" + a.first + "(" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(v(i, j)) + ", expected " + num(a.second.v(i, j))); }
	}
	for (auto& q : genPars) w.v[q] = vec(g.lib->par(p, q));
	for (int k = 0; k < 4; k++) {
		if (k) put(genState(c.t, s.n, g.m.ne));
		if (k >= 2) {                                // other parameters
			Vec v = randDyn(c.t, s.n), now = w.v["par_DYN"];
			for (size_t i = 0; i < v.size(); i++) if (!g.m.symb.at("par_DYN")[i]) v[i] = now[i];
			g.lib->set(p, "par_DYN", v);
			for (auto q : {"par_Dl", "par_K", "par_Mm"}) if (g.m.symb.count(q) && w.v[q].size()) { Vec z = genVec(c.t, w.v[q].size(), 2), n0 = w.v[q]; for (size_t i = 0; i < z.size(); i++) if (i < g.m.symb.at(q).size() && !g.m.symb.at(q)[i]) z[i] = n0[i]; w.v[q] = z; g.lib->set(p, q, z); }
		}
		evalSome(c, g, p, w, 1000, "with user functions");
	}
	if (nt) c.nontrivial = true;
}

// ---------------------------------------------------------------- C30
// three different identifiers close to each other: a long common part, one letter of difference anywhere, other case
static Strs relatedNames(Tape& t) {
	static const char* letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	auto letter = [&](bool first) { return letters[t.draw(first ? 52 : 62)]; };
	std::string base;
	int len = 1 + t.draw(t.flip(1, 3) ? 8 : 40);
	for (int i = 0; i < len; i++) base += letter(i == 0);
	Strs out = {base};
	while (out.size() < 3) {
		std::string n = base;
		switch (t.draw(6)) {
			case 0: n += letter(false); break;
			case 1: n = letter(true) + n; break;
			case 2: { int i = t.draw(len); n[i] = letter(i == 0); break; }
			case 3: for (char& ch : n) ch = std::isupper((unsigned char)ch) ? std::tolower(ch) : std::toupper(ch); break;
			case 4: n += "_" + base; break;
			default: { static const Strs suf = {"_gen", "_conf", "_reg", "_T", "_J", "_M", "_fun", "_par", "_robot"}; n += t.pick(suf); }
		}

		for (int i = 0; std::find(out.begin(), out.end(), n) != out.end(); i++) n += "abc"[i % 3];
		out.push_back(n);
	}
	return out;
}

CORPUS(C30, {{0, 0, 6}})                             // robots X and X_reg
PROPERTY(C30, "two or three random robots with related names, generated one after the other, compiled into one program that includes their headers in any order; interleaved loads, setters, copies and getters on objects of all classes, every parameter and getter against the model of the object's own robot. Non-trivial: a class is evaluated after another one changed, and the robots differ") {
	static const std::vector<Strs> sets = {{"left", "right", "mid"}, {"a", "ab", "b"}, {"robo", "robo2", "robo_2"}, {"arm", "my_arm", "arm_v2"}, {"RRR", "RR", "R"}, {"robot", "robot2", "myrobot"}, {"arm", "arm_reg", "reg"}};
	int k = c.t.flip(1, 5) ? 3 : 2;
	Strs nm = c.t.flip() ? c.t.pick(sets) : relatedNames(c.t);
	int kind = c.t.draw(3);                          // robots of one structure with other numbers, or unrelated ones
	std::vector<Spec> sp;
	std::vector<GenBot> gs(k);
	GenOpt o; o.nmax = 2; o.maxOrder = 2;
	for (int i = 0; i < k; i++) {
		if (i == 0 || kind) sp.push_back(genSpec(c.t, o)); else sp.push_back(newValues(c.t, sp[0]));
		std::string y = toYaml(sp[i]);
		c.desc += "robot " + nm[i] + "\n" + y;
		GenBot& g = gs[i];
		generate(c, g, y, nm[i], {}, "gen" + std::to_string(i));
		g.file = c.scratch + "/conf" + std::to_string(i) + ".yaml";
		writeFile(g.file, y);
		g.yaml = y; g.m = parse(y);
		g.r.reset(new Robot(thunder_ns::robot_from_file(nm[i], g.file, true)));
		g.refresh();
		classify(c, sp[i], g.m);
	}
	std::vector<int> order;
	for (int i = 0; i < k; i++) order.insert(order.begin() + c.t.draw(order.size() + 1), i);
	loadTogether(c, gs, order);
	struct Obj { int k; void* p; Want w; };
	std::vector<Obj> os;
	std::vector<std::unique_ptr<Objs>> keep;
	for (auto& g : gs) keep.emplace_back(new Objs{g.lib.get(), {}});
	auto add = [&](int i, int from) {
		Obj x; x.k = i;
		if (from >= 0) { x.p = gs[i].lib->copy(os[from].p); x.w = os[from].w; }
		else { x.p = gs[i].lib->make(); x.w.init(gs[i].m); }
		keep[i]->p.push_back(x.p);
		os.push_back(x);
	};
	auto load = [&](Obj& x, const Spec& s, const std::string& file, bool upd) { gs[x.k].lib->file(x.p, "load_conf", file, upd); loadInto(x.w, gs[x.k], s, upd); x.w.tol.erase("par_DYN"); };
	for (int i : order) { add(i, -1); cmpDims(c, gs[i], os.back().p); load(os.back(), sp[i], gs[i].file, true); }
	int hist = c.t.range(4, 25), last = -1, crossed = 0;
	for (int h = 0; h < hist; h++) {
		int i = c.t.draw(os.size()), op = c.t.draw(8);
		Obj& x = os[i];
		GenBot& g = gs[x.k];
		std::string d = "object " + std::to_string(i) + " of " + g.name + ": ";
		if (op <= 2) {
			Strs args = jointArgs; args.insert(args.end(), elArgs.begin(), elArgs.end()); args.push_back("w");
			for (auto& a : args) { Vec v = genVec(c.t, x.w.v[a].size(), 2); g.lib->set(x.p, a, v); x.w.v[a] = v; }
			d += "all arguments set";
			last = x.k;
		} else if (op == 3) {
			Spec s2 = newValues(c.t, sp[x.k]);
			std::string f = c.scratch + "/h.yaml";
			writeFile(f, toYaml(s2));
			load(x, s2, f, true);
			d += "load_conf\n" + toYaml(s2);
			last = x.k;
		} else if (op == 4) {
			Vec v = randDyn(c.t, g.m.n);
			g.lib->set(x.p, "par_DYN", v); x.w.v["par_DYN"] = v; x.w.tol.erase("par_DYN"); x.w.toReg();
			d += "set_par_DYN " + list(v);
			last = x.k;
		} else if (op == 5 && os.size() < 6) { int kk = x.k; bool copy = c.t.flip(); add(kk, copy ? i : -1); d += copy ? "copied" : "another object"; if (!copy) load(os.back(), sp[kk], gs[kk].file, true); }
		else { if (last >= 0 && last != x.k) crossed++; evalSome(c, g, x.p, x.w, 10, "next to another class"); d += "getters"; }
		c.desc += d + "\n";
		for (auto& y : os) cmpPars(c, gs[y.k], y.p, y.w, "next to another class");
	}
	for (auto& y : os) evalSome(c, gs[y.k], y.p, y.w, 1000, "at the end, next to another class");
	if (crossed && toYaml(sp[0]) != toYaml(sp[1])) c.nontrivial = true;
}

// ---------------------------------------------------------------- C21
static double wild(Tape& t) {
	switch (t.draw(6)) {
		case 0: return t.real();
		case 1: return (t.flip() ? -1 : 1) / 3.0;
		case 2: { int e = t.range(-30, 30); return t.plain(1) * std::pow(10.0, e); }
		case 3: return (double)t.range(-100000, 100000);
		case 4: return t.plain(1e6) + 1e-9;
		default: return t.plain(1);
	}
}
static Vec wildVec(Tape& t, size_t n) { Vec v(n); for (auto& x : v) x = wild(t); return v; }
struct SavedFile { int kind = 0; std::map<std::string, Vec> v; };      // 1 REG, 2 DYN, 3 all
// a configuration file with some sections, or some links, left out
static std::string sections(const Spec& s, int mask, int links, int joints) {
	YAML::Node y = YAML::Load(toYaml(s)), out;
	for (const auto& kv : y) {
		std::string k = kv.first.as<std::string>();
		int bit = k == "kinematics" ? 1 : k == "Base_to_L0" ? 2 : k == "Ln_to_EE" ? 4 : k == "gravity" ? 8 : k == "dynamics" ? 16 : k == "elastic" ? 32 : 0;
		if (bit && !(mask & bit)) continue;
		if (bit == 16) { int i = 0; for (const auto& l : kv.second) if (i++ < links) out["dynamics"][l.first] = l.second; if (links == 0) continue; }
		else if (bit == 32) {
			for (const auto& e : kv.second) if (e.first.as<std::string>() != "joints") out["elastic"][e.first] = e.second;
			int i = 0;
			for (const auto& l : kv.second["joints"]) if (i++ < joints) out["elastic"]["joints"][l.first] = l.second;
		} else out[k] = kv.second;
	}
	YAML::Emitter e;
	e << out;
	return std::string(e.c_str()) + "\n";
}
static void loadPart(Want& w, const GenBot& g, const Spec& s, int mask, int links, int joints, bool upd) {
	Want all = w;
	loadInto(all, g, s, true);
	auto take = [&](const char* p) { w.v[p] = all.v[p]; };
	if (mask & 1) take("par_DHtable");
	if (mask & 2) take("par_world2L0");
	if (mask & 4) take("par_Ln2EE");
	if (mask & 8) take("par_gravity");
	if ((mask & 16) && links) {
		for (int i = 0; i < links && i < s.n; i++) {
			for (int k = 0; k < 10; k++) w.v["par_DYN"][10 * i + k] = all.v["par_DYN"][10 * i + k];
			for (int k = 0; k < g.m.Dl_order; k++) w.v["par_Dl"][g.m.Dl_order * i + k] = all.v["par_Dl"][g.m.Dl_order * i + k];
		}
		if (upd) w.toReg();
	}
	if (mask & 32) for (int i = 0; i < joints && i < g.m.ne; i++) {
		for (auto q : {std::make_pair("par_K", g.m.K_order), std::make_pair("par_D", g.m.D_order), std::make_pair("par_Dm", g.m.Dm_order), std::make_pair("par_Mm", 1)})
			for (int k = 0; k < q.second; k++) w.v[q.first][q.second * i + k] = all.v[q.first][q.second * i + k];
	}
}
PROPERTY(C21, "save/modify/load histories on objects of generated classes: save_par_REG, save_par_DYN, save_par, load_par_REG, load_conf (saved files, complete, partial and damaged configurations, missing files), values over 60 orders of magnitude; every parameter after every step against a model of the object and of the files, contents of the save_par file read back. Non-trivial: a file is loaded after its parameters were changed, or by another object") {
	Spec s = genStruct(c, 20, 8);
	std::string name = genName(c.t, names);
	c.desc += "name " + name + "\n" + toYaml(s);
	GenBot g = makeGen(c, toYaml(s), name);
	classify(c, s, g.m);
	Lib& l = *g.lib;
	Objs o{&l};
	std::vector<Want> w(2);
	for (int i = 0; i < 2; i++) { o.p.push_back(l.make()); w[i].init(g.m); }
	if (c.t.flip(3, 4)) {
		l.file(o.p[0], "load_conf", g.dir + name + "_conf.yaml");
		loadInto(w[0], g, s, true);
		w[0].tol["par_DYN"] = parTol(w[0].v["par_DYN"]);
		if (!s.hasG) w[0].v["par_gravity"] = vec(l.par(o.p[0], "par_gravity"));
		if (!s.elastic) for (auto q : {"par_K", "par_D", "par_Dm", "par_Mm"}) w[0].v[q] = vec(l.par(o.p[0], q));
	}
	cmpPars(c, g, o.p[0], w[0], "after load_conf of the generated configuration");
	std::map<std::string, SavedFile> files;
	std::map<std::string, int> savedAt;             // step of the save
	int steps = c.t.range(2, 60), changed = -1;
	for (int k = 0; k < steps; k++) {
		int i = c.t.draw(2);
		void* p = o.p[i];
		Want& m = w[i];
		std::string f = c.scratch + "/f" + std::to_string(c.t.draw(3)) + ".yaml";
		int op = c.t.draw(17);
		std::string d = "object " + std::to_string(i) + ": ";
		if (op >= 13) {                               // a damaged configuration: every value stays, or comes from the file
			bool reg = c.t.flip(1, 3);
			int flag = (int)c.t.draw(3) - 1;
			std::string y;
			if (reg) y = damaged(c.t, regText(wildVec(c.t, 10 * g.m.n), g.m.n));
			else y = damaged(c.t, toYaml(newValues(c.t, s)));
			writeFile(c.scratch + "/h.yaml", y);
			d += std::string(reg ? "load_par_REG" : "load_conf") + " flag " + std::to_string(flag) + " of a damaged file\n" + y + "\n";
			c.desc += d;
			l.file(p, reg ? "load_par_REG" : "load_conf", c.scratch + "/h.yaml", flag);
			c.label(reg ? "damaged REG file" : "damaged configuration");
			// the two inertial sets describe the same bodies as before, or both the new ones
			std::string from = reg ? "par_REG" : "par_DYN", to = reg ? "par_DYN" : "par_REG";
			Vec src = vec(l.par(p, from)), dst = vec(l.par(p, to));
			double tl = m.tol.count(to) ? m.tol[to] : 0;
			if (src.size() == 10u * g.m.n && dst.size() == 10u * g.m.n) {
				bool kept = true;
				for (size_t z = 0; z < dst.size(); z++) if (!eq(dst[z], m.v[to][z]) && !(std::fabs(dst[z] - m.v[to][z]) <= tl)) kept = false;
				bool same0 = true;
				for (size_t z = 0; z < src.size(); z++) if (!eq(src[z], m.v[from][z]) && !(std::fabs(src[z] - m.v[from][z]) <= (m.tol.count(from) ? m.tol[from] : 0))) same0 = false;
				if (flag == 0) { c.checks++; if (!kept) fail(to + " changes although the conversion was not asked for"); }
				else if (!same0 || !kept) {
					Want z = m;
					z.v[from] = src;
					if (reg) z.toDyn(); else z.toReg();
					same(c, to + " of the " + from + " left by a damaged file", col(dst), col(z.v[to]), z.tol[to]);
				}
			}
			std::set<double> allowed = numbersOf(y);
			for (auto& q : genPars) {
				Vec now = vec(l.par(p, q));
				const Vec& old = m.v[q];
				std::set<double> ok = allowed;
				double tol = m.tol.count(q) ? m.tol[q] : 0;
				if (isIn(framePars, q)) {
					if (now.size() != old.size() && now.size() > (q == "par_gravity" ? 3u : q == "par_DHtable" ? 4u * g.m.n : 6u)) fail(q + " has " + std::to_string(now.size()) + " entries after a damaged file");
				} else if (now.size() != old.size()) fail(q + " changes its size on a damaged file");
				if (q == to) { if (now != old) { m.v[q] = now; m.tol[q] = flag ? parTol(vec(l.par(p, "par_DYN"))) : tol; } continue; }
				for (auto x : now) {
					bool in = ok.count(x);
					for (double z : old) if (eq(x, z) || std::fabs(x - z) <= tol) in = true;
					c.checks++;
					if (!in) fail(q + " holds " + num(x) + " after a damaged file, a value that is neither in the file nor was there before");
				}
				if (now != old) { m.v[q] = now; m.tol.erase(q); }
			}
			changed = k;
			continue;
		}
		if (op <= 2) {
			std::string q = genPars[c.t.draw(genPars.size())];
			Vec v = inForce(c.t, w, q, m.v[q].size());
			if (v.empty()) v = wildVec(c.t, m.v[q].size());
			int flag = (int)c.t.draw(3) - 1;
			d += "set_" + q + " " + list(v) + " flag " + std::to_string(flag);
			l.set(p, q, v, flag);
			m.v[q] = v; m.tol.erase(q);
			if (flag != 0) { if (q == "par_DYN") m.toReg(); if (q == "par_REG") m.toDyn(); }
			changed = k;
		} else if (op <= 5) {
			const char* ops[] = {"save_par_REG", "save_par_DYN", "save_par"};
			bool bad = c.t.flip(1, 10);
			std::string path = bad ? c.scratch + "/no/such/dir/x.yaml" : f;
			d += std::string(ops[op - 3]) + (bad ? " to a directory that does not exist" : " " + f.substr(f.size() - 7));
			l.file(p, ops[op - 3], path);
			if (!bad) {
				SavedFile x; x.kind = op - 2;
				for (auto& q : genPars) x.v[q] = vec(l.par(p, q));
				files[f] = x; savedAt[f] = k;
				if (op == 5) {
					YAML::Node y = YAML::LoadFile(f);
					for (auto& q : genPars) {
						std::string key = isIn(framePars, q) ? q.substr(4) : q;
						if (!y[key]) fail("save_par does not write " + key);
						same(c, "save_par: " + key, col(y[key].as<Vec>()), col(x.v[q]), 0);
					}
				}
			}
		} else if (op <= 8) {
			auto it = files.find(f);
			int flag = (int)c.t.draw(3) - 1;
			if (it == files.end() || c.t.flip(1, 10)) {
				std::string path = c.scratch + "/missing.yaml";
				d += "load of a missing file";
				l.file(p, c.t.flip() ? "load_conf" : "load_par_REG", path, flag);
			} else if (it->second.kind == 1) {
				d += "load_par_REG " + f.substr(f.size() - 7) + " flag " + std::to_string(flag);
				l.file(p, "load_par_REG", f, flag);
				m.v["par_REG"] = it->second.v["par_REG"]; m.tol.erase("par_REG");
				if (flag != 0) m.toDyn();
				if (changed > savedAt[f]) c.nontrivial = true;
				c.label("REG file loaded");
			} else if (it->second.kind == 2) {
				d += "load_conf " + f.substr(f.size() - 7) + " flag " + std::to_string(flag);
				l.file(p, "load_conf", f, flag);
				m.v["par_DYN"] = it->second.v["par_DYN"]; m.tol.erase("par_DYN");
				m.v["par_Dl"] = it->second.v["par_Dl"];
				if (flag != 0) m.toReg();
				if (changed > savedAt[f]) c.nontrivial = true;
				c.label("DYN file loaded");
			} else {
				d += "load_conf of a save_par file (no section of a configuration)";
				l.file(p, "load_conf", f, flag);
			}
		} else if (op <= 11) {
			Spec s2 = newValues(c.t, s);
			int mask = c.t.flip() ? 63 : c.t.draw(64), links = c.t.flip(2, 3) ? (int)s2.links.size() : (int)c.t.draw(s.n + 1), joints = c.t.flip(2, 3) ? 100 : (int)c.t.draw(s.n + 1);
			if (!s.hasG) mask &= ~8;
			if (!s.elastic) mask &= ~32;
			int flag = (int)c.t.draw(3) - 1;
			std::string y = sections(s2, mask, links, joints);
			writeFile(c.scratch + "/h.yaml", y);
			d += "load_conf flag " + std::to_string(flag) + " of\n" + y;
			l.file(p, "load_conf", c.scratch + "/h.yaml", flag);
			loadPart(m, g, s2, mask, links, joints, flag != 0);
			if ((mask & 16) && links >= g.m.n) m.tol.erase("par_DYN");
			changed = k;
		} else {
			d += "load_par_REG of a file of regressor parameters for " ;
			Vec v = wildVec(c.t, 10 * g.m.n);
			int links = c.t.flip() ? g.m.n : (int)c.t.draw(g.m.n + 2);
			std::string y = regText(v, links);
			if (!links) y = "other: 1\n";
			writeFile(c.scratch + "/h.yaml", y);
			d += std::to_string(links) + " links\n" + y;
			l.file(p, "load_par_REG", c.scratch + "/h.yaml", -1);
			for (int j = 0; j < links && j < g.m.n; j++) for (int q = 0; q < 10; q++) m.v["par_REG"][10 * j + q] = v[10 * j + q];
			if (links >= g.m.n) m.tol.erase("par_REG");
			if (links) m.toDyn();
			changed = k;
		}
		c.desc += d + "\n";
		for (int j = 0; j < 2; j++) cmpPars(c, g, o.p[j], w[j], "of object " + std::to_string(j) + " after step " + std::to_string(k));
	}
	// the generated configuration brings every configured value back
	l.file(o.p[0], "load_conf", g.dir + name + "_conf.yaml");
	Want x = w[0];
	loadInto(x, g, s, true);
	x.tol["par_DYN"] = parTol(x.v["par_DYN"]);
	if (!s.hasG) x.v["par_gravity"] = vec(l.par(o.p[0], "par_gravity"));
	if (!s.elastic) for (auto q : {"par_K", "par_D", "par_Dm", "par_Mm"}) x.v[q] = vec(l.par(o.p[0], q));
	cmpPars(c, g, o.p[0], x, "after reloading the generated configuration");
}

// ---------------------------------------------------------------- C23
static py::Value pv(const Vec& v) { return py::Value(ev(v)); }
PROPERTY(C23, "random robots and names generated with -p, the class compiled with a stand-in for pybind11 that records the module and calls it with Python's rules; call histories through the bindings on one object against the same calls made directly on another; getters also against the symbolic model; the CMake file configured by cmake with stand-ins for its packages. Non-trivial: at least 10 different bound setters and file methods called, one of them with a keyword and one with a default argument") {
	Spec s = genStruct(c, 20);
	static const Strs pyNames = {"robo", "R2d2", "my_arm", "robot", "n", "thunder", "py", "m", "class_x", "pybind", "thunder_py", "def", "arg"};
	std::string name = c.t.pick(pyNames);
	Strs opts = {c.t.flip() ? "-p" : "--python"};
	if (c.t.flip(1, 4)) opts.push_back("-f");
	c.desc += "name " + name + " options " + opts[0] + (opts.size() > 1 ? " -f" : "") + "\n" + toYaml(s);
	GenBot g = makeGen(c, toYaml(s), name, opts, {"-I" + env("PBT_SHIM")});
	classify(c, s, g.m);
	Lib& l = *g.lib;
	Objs o{&l};
	// the CMake project
	if (!fs::exists(g.dir + "CMakeLists.txt")) fail("thunder gen -p writes no CMakeLists.txt", "cmake");
	std::string cm = env("PBT_SHIM") + "/cmake", bd = c.scratch + "/cmk", pyName = "thunder_" + name + "_py";
	fs::remove_all(bd);
	fs::create_directories(bd);
	int rc = runCmd({"cmake", g.dir, "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_YAML-CPP=" + cm + "/yaml-cpp", "-DCMAKE_MODULE_PATH=" + cm}, bd, c.scratch + "/cmk.out", 100);
	if (rc == -1000) throw Discard();
	if (rc) fail("cmake does not configure the generated project\n" + tail(c.scratch + "/cmk.out"), "cmake");
	Strs mods;
	{ std::istringstream i(readFile(bd + "/modules.txt")); std::string x; while (std::getline(i, x)) if (x.size()) mods.push_back(x); }
	if (mods.size() != 1) fail("the generated project has " + std::to_string(mods.size()) + " Python modules", "cmake");
	Strs parts;
	{ std::istringstream i(mods[0]); std::string x; while (std::getline(i, x, ';')) parts.push_back(fs::path(x).filename().string()); }
	if (parts[0] != pyName) fail("the Python module built by cmake is " + parts[0] + ", expected " + pyName, "cmake");
	for (auto f : {"thunder_" + name + ".cpp", name + "_gen.cpp"}) if (!isIn(parts, f)) fail("the Python module is built without " + f, "cmake");
	// the module
	void* op = dlsym(l.h, "pb_open");
	if (!op) fail("the class generated with -p defines no Python module", "module");
	if (!dlsym(l.h, ("PyInit_" + pyName).c_str())) fail("the Python module is not named " + pyName, "module");
	std::unique_ptr<py::ModuleRec> mod((py::ModuleRec*)((void* (*)())op)());
	py::ClassRec* cls = nullptr;
	for (auto& k : mod->classes) if (k->name == g.cls) cls = k.get();
	if (!cls) fail("the Python module has no class " + g.cls, "module");
	if (!cls->make) fail("the Python class cannot be constructed without arguments", "module");
	std::set<std::string> need;
	for (auto& f : g.f) need.insert("get_" + f.first);
	for (auto& a : jointArgs) need.insert("set_" + a);
	for (auto& a : elArgs) need.insert("set_" + a);
	for (auto& q : genPars) { need.insert("set_" + q); need.insert("get_" + q); }
	for (auto a : {"set_w", "setArguments", "resizeVariables", "load_conf", "load_par_REG", "save_par_REG", "save_par_DYN", "save_par", "get_numJoints", "get_numParDYN", "get_numParREG"}) need.insert(a);
	for (auto& x : need) { c.checks++; if (!cls->methods.count(x)) fail("method " + x + " has no Python binding", "unbound"); }
	// object a through Python, object b directly
	std::vector<void*> own;
	struct Del { std::vector<void*>& v; std::function<void(void*)> d; ~Del() { for (auto x : v) d(x); } } del{own, cls->del};
	void* a = cls->make();
	own.push_back(a);
	void* b = l.make();
	o.p.push_back(b);
	typedef std::map<std::string, py::Value> Kw;
	auto call = [&](const std::string& f, const std::vector<py::Value>& pos, const Kw& kw = {}) {
		try { return py::callMethod(cls->methods.at(f), a, pos, kw); }
		catch (py::type_error&) { fail("Python call of " + f + " with " + std::to_string(pos.size()) + " positional and " + std::to_string(kw.size()) + " keyword arguments is refused", "args"); }
	};
	auto compare = [&](const std::string& when) {
		for (auto& q : genPars) same(c, q + " " + when + " (Python against C++)", l.par(a, q), l.par(b, q), 0);
	};
	auto value = [&](const std::string& f, const py::Value& v, const Mat& want) {
		if (v.kind != py::Value::Arr) fail("Python " + f + " returns no matrix");
		sameVal(c, "Python " + f, v.m, want, 0);
	};
	auto getters = [&](int k) {
		Want w;
		for (auto& p : framePars) w.v[p] = vec(l.par(b, p));
		if (evaluable(g, w)) {
			Strs fn = funNames(g);
			int from = c.t.draw(fn.size());
			for (int i = 0; i < k && i < (int)fn.size(); i++) { const std::string& f = fn[(from + i) % fn.size()]; value("get_" + f, call("get_" + f, {}), l.fun(b, f)); }
		}
		for (auto& q : genPars) value("get_" + q, call("get_" + q, {}), l.par(b, q));
		for (auto d : {"get_numJoints", "get_numParDYN", "get_numParREG"}) { py::Value v = call(d, {}); if (v.kind != py::Value::Int || v.i != l.dim(b, d)) fail(std::string("Python ") + d + " differs"); }
	};
	bool load0 = c.t.flip(3, 4);
	if (load0) { call("load_conf", {py::Value(g.file)}); l.file(b, "load_conf", g.file); }
	compare(load0 ? "after load_conf" : "of a new object");
	std::set<std::string> used;
	bool kwUsed = false, defUsed = false;
	int steps = c.t.range(10, 60);
	Want w;
	w.init(g.m);
	for (auto& p : framePars) w.v[p] = vec(l.par(b, p));
	for (int k = 0; k < steps; k++) {
		int op = c.t.draw(12);
		std::string d;
		bool kw = c.t.flip(1, 3);
		if (op <= 3) {
			Strs all = jointArgs; all.insert(all.end(), elArgs.begin(), elArgs.end()); all.push_back("w");
			std::string x = all[c.t.draw(all.size())];
			Vec v = genVec(c.t, w.v[x].size(), 1);
			d = "set_" + x + " " + list(v);
			if (kw && cls->methods["set_" + x][0].params.size()) { call("set_" + x, {}, {{x, pv(v)}}); kwUsed = true; } else call("set_" + x, {pv(v)});
			l.set(b, x, v);
			w.v[x] = v;
			used.insert("set_" + x);
		} else if (op == 4) {
			Vec v[4];
			for (auto& x : v) x = genVec(c.t, g.m.n, 1);
			d = "setArguments";
			static const char* an[4] = {"q", "dq", "dqr", "ddqr"};
			int posn = kw && cls->methods["setArguments"][0].params.size() ? (int)c.t.draw(4) : 4;
			std::vector<py::Value> pos;
			Kw kv;
			for (int i = 0; i < 4; i++) { if (i < posn) pos.push_back(pv(v[i])); else { kv[an[i]] = pv(v[i]); kwUsed = true; } w.v[an[i]] = v[i]; }
			call("setArguments", pos, kv);
			l.args(b, v[0], v[1], v[2], v[3]);
			used.insert(d);
		} else if (op == 5) {
			bool R = c.t.flip();
			int flag = (int)c.t.draw(3) - 1;
			Vec v = randDyn(c.t, g.m.n);
			std::string f = R ? "par_REG" : "par_DYN";
			d = "set_" + f + " flag " + std::to_string(flag);
			std::vector<py::Value> pos{pv(v)};
			Kw kv;
			if (flag >= 0) { if (kw) { kv[R ? "update_DYN" : "update_REG"] = py::Value((bool)flag); kwUsed = true; } else pos.push_back(py::Value((bool)flag)); } else defUsed = true;
			call("set_" + f, pos, kv);
			l.set(b, f, v, flag);
			used.insert("set_" + f);
		} else if (op <= 8) {
			std::string q = genPars[2 + c.t.draw(genPars.size() - 2)];
			Vec v = genVec(c.t, w.v[q].size(), 2);
			d = "set_" + q + " " + list(v);
			call("set_" + q, {pv(v)});
			l.set(b, q, v);
			used.insert("set_" + q);
		} else if (op == 9) {
			Spec s2 = newValues(c.t, s);
			int flag = (int)c.t.draw(3) - 1;
			writeFile(c.scratch + "/h.yaml", toYaml(s2));
			d = "load_conf flag " + std::to_string(flag);
			std::vector<py::Value> pos{py::Value(c.scratch + "/h.yaml")};
			Kw kv;
			if (flag >= 0) { if (kw) { kv["update_REG"] = py::Value((bool)flag); kwUsed = true; } else pos.push_back(py::Value((bool)flag)); } else defUsed = true;
			call("load_conf", pos, kv);
			l.file(b, "load_conf", c.scratch + "/h.yaml", flag);
			for (auto& p : framePars) w.v[p] = vec(l.par(b, p));
			used.insert("load_conf");
		} else if (op == 10) {
			static const char* sv[] = {"save_par_REG", "save_par_DYN", "save_par"};
			std::string f = sv[c.t.draw(3)];
			d = f;
			fs::remove(c.scratch + "/pa.yaml"); fs::remove(c.scratch + "/pb.yaml");
			call(f, {py::Value(c.scratch + "/pa.yaml")});
			l.file(b, f, c.scratch + "/pb.yaml");
			c.checks++;
			if (!fs::exists(c.scratch + "/pa.yaml")) fail("Python " + f + " writes no file");
			if (readFile(c.scratch + "/pa.yaml") != readFile(c.scratch + "/pb.yaml")) fail("Python " + f + " writes another file than the C++ method\n" + readFile(c.scratch + "/pa.yaml") + "\nexpected\n" + readFile(c.scratch + "/pb.yaml"));
			used.insert(f);
			if (f == "save_par_REG" && c.t.flip()) {
				int flag = (int)c.t.draw(3) - 1;
				d += ", then load_par_REG after other values, flag " + std::to_string(flag);
				Vec v = randDyn(c.t, g.m.n);
				for (auto x : {a, b}) l.set(x, "par_REG", v);
				std::vector<py::Value> pos{py::Value(c.scratch + "/pa.yaml")};
				Kw kv;
				if (flag >= 0) { if (kw) { kv["update_DYN"] = py::Value((bool)flag); kwUsed = true; } else pos.push_back(py::Value((bool)flag)); } else defUsed = true;
				py::Value r = call("load_par_REG", pos, kv);
				l.file(b, "load_par_REG", c.scratch + "/pb.yaml", flag);
				if (r.kind != py::Value::Arr) fail("Python load_par_REG returns no vector");
				used.insert("load_par_REG");
			}
		} else if (c.t.flip(1, 6)) {
			d = "resizeVariables";
			call("resizeVariables", {});
			l.resize(b);
			w.init(g.m);
			used.insert(d);
		} else {
			d = "getters";
			getters(6);
		}
		c.desc += d + "\n";
		compare("after step " + std::to_string(k) + " (" + d + ")");
		getters(2);
	}
	getters(1000);
	// the option changes nothing for C++
	if (!load0 || c.t.flip()) l.file(b, "load_conf", g.file);
	for (auto& q : genPars) w.v[q] = vec(l.par(b, q));
	State x = genState(c.t, g.m.n, g.m.ne);
	Vec d4 = genVec(c.t, g.m.n, 1);
	w.v["q"] = x.q; w.v["dq"] = x.dq; w.v["ddq"] = x.ddq; w.v["d3q"] = x.d3q; w.v["d4q"] = d4; w.v["dqr"] = x.dqr; w.v["ddqr"] = x.ddqr; w.v["w"] = x.w;
	w.v["x"] = x.x; w.v["dx"] = x.dx; w.v["ddx"] = x.ddx; w.v["ddxr"] = x.ddxr;
	for (auto& q : jointArgs) l.set(b, q, w.v[q]);
	for (auto& q : elArgs) l.set(b, q, w.v[q]);
	l.set(b, "w", x.w);
	evalSome(c, g, b, w, 100, "of a class generated with -p");
	if (used.size() >= 10 && kwUsed && defUsed) c.nontrivial = true;
	c.label("bound methods called=" + std::to_string(used.size() / 5 * 5) + "+");
}
