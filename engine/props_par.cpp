// C14, C15, C16, C17, C25: parameters, symbolic selectivity, files, configurations, user functions.
#include "kit.h"
#include "userexpr.h"
#include "speller.h"
#include "userDefined.h"
#include <algorithm>
#include <cctype>
#include <unistd.h>
using namespace ref;

static std::map<std::string, Mat> values(Bot& b) { std::map<std::string, Mat> v; for (auto& f : b.f) v[f.first] = b.get(f.first); return v; }
// crude bound of the magnitudes met while evaluating any model function
static double bound(const Model& m, const State& x) {
	Scale k = scaleOf(m, x);
	double v = k.v + amax(x.dqr) + amax(x.dx), a = k.a + amax(x.ddqr) + amax(x.ddx) + amax(x.ddxr), p = 1 + amax(m.Dl) + amax(m.K) + amax(m.D) + amax(m.Dm) + amax(m.Mm);
	double del = 1 + amax(x.x) + amax(x.q) + v;
	double J = (1 + k.L) * (1 + k.L) * (1 + v) * (1 + v) * (1 + a) * (1 + amax(x.w));
	double dyn = (1 + k.S) * (1 + v) * (1 + v) * (1 + v) * (1 + a) * (1 + k.j) * (1 + k.L) * (1 + k.g);
	return m.n * m.n * (J + dyn) + p * std::pow(del, 7);
}
static const char* allPars[] = {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
static Vec pick(const Vec& v, const std::vector<int>& f) { Vec r; for (size_t i = 0; i < v.size(); i++) if (i < f.size() && f[i]) r.push_back(v[i]); return r; }

// ---------------------------------------------------------------- C14
static Vec toReg(const Vec& d) {
	Vec r(d.size());
	for (size_t l = 0; l + 10 <= d.size(); l += 10) {
		double m = d[l], x = d[l + 1], y = d[l + 2], z = d[l + 3];
		double s[10] = {m, m * x, m * y, m * z, d[l + 4] + m * (y * y + z * z), d[l + 5] - m * x * y, d[l + 6] - m * x * z, d[l + 7] + m * (x * x + z * z), d[l + 8] - m * y * z, d[l + 9] + m * (x * x + y * y)};
		for (int k = 0; k < 10; k++) r[l + k] = s[k];
	}
	return r;
}
static Vec toDyn(const Vec& r) {
	Vec d(r.size());
	for (size_t l = 0; l + 10 <= r.size(); l += 10) {
		double m = r[l], x = 0, y = 0, z = 0;
		if (m != 0) { x = r[l + 1] / m; y = r[l + 2] / m; z = r[l + 3] / m; }
		double s[10] = {m, x, y, z, r[l + 4] - m * (y * y + z * z), r[l + 5] + m * x * y, r[l + 6] + m * x * z, r[l + 7] - m * (x * x + z * z), r[l + 8] + m * y * z, r[l + 9] - m * (x * x + y * y)};
		for (int k = 0; k < 10; k++) d[l + k] = s[k];
	}
	return d;
}
static double parTol(const Vec& dyn) { double s = 1; for (size_t l = 0; l + 10 <= dyn.size(); l += 10) { double c = std::fabs(dyn[l + 1]) + std::fabs(dyn[l + 2]) + std::fabs(dyn[l + 3]); s = std::max(s, std::fabs(dyn[l]) * (1 + c) * (1 + c) + c); for (int k = 4; k < 10; k++) s = std::max(s, std::fabs(dyn[l + k])); } return 1e-12 * s; }
static Vec genDyn(Tape& t, int n) { Vec v(10 * n); for (int i = 0; i < n; i++) genInertia(t, &v[10 * i], t.flip(), t.flip(3, 4)); return v; }
static Spec withDyn(Spec s, const Vec& d) { for (int i = 0; i < s.n; i++) for (int k = 0; k < 10; k++) s.links[i].p[k] = d[10 * i + k]; return s; }

PROPERTY(C14, "histories of set_par_DYN, set_par_REG, load_conf_par (with and without conversion), explicit conversions, refused vectors and unrelated arguments on generated robots; both sets after every step against the parallel-axis conversion of the values in force, model functions against the reference with those values. Non-trivial: at least 3 effective updates with non-zero centres of mass and at least one refused vector or reload") {
	GenOpt o; o.nmax = 3;
	int mode = c.t.draw(3);                       // 0 uncomputed robot, 1 all dynamic parameters symbolic, 2 any selectivity
	if (mode == 1 || mode == 2) o.nmax = 2;
	else if (c.t.flip(1, 6)) o.nmax = 12;
	Spec s = genSpec(c.t, o);
	if (mode == 1) for (auto& l : s.links) { l.symb.present = true; l.symb.f.assign(10, 1); }
	std::string yaml = toYaml(s), file = c.scratch + "/conf.yaml";
	c.desc += yaml;
	Bot b;
	if (mode == 0) { writeFile(file, yaml); b.m = parse(yaml); b.r.reset(new Robot(thunder_ns::robot_from_file("robo", file, false))); b.refresh(); }
	else b = makeBot(yaml, file);
	c.label(mode == 0 ? "uncomputed robot" : mode == 1 ? "symbolic dynamics" : "any selectivity");
	classify(c, s, b.m);
	int n = s.n;
	std::vector<int> fl = mode == 0 ? std::vector<int>(10 * n, 1) : b.m.symb["par_DYN"];
	bool full = !std::count(fl.begin(), fl.end(), 0);
	Vec dyn = param(b.m, "par_DYN"), reg = toReg(dyn);
	bool insync = true;
	auto update = [&](const Vec& v) { for (int i = 0; i < 10 * n; i++) if (fl[i]) dyn[i] = v[i]; };
	auto compare = [&](const char* when) {
		same(c, std::string("par_DYN ") + when, b.r->get_par_DYN(), col(dyn), parTol(dyn));
		same(c, std::string("par_REG ") + when, b.r->get_par_REG(), col(reg), parTol(toDyn(reg)) + parTol(dyn));
		if ((int)b.r->get_numParDYN() != 10 * n || (int)b.r->get_numParREG() != 10 * n) fail("number of parameters");
	};
	compare("after loading");
	int steps = c.t.range(1, 14), eff = 0, other = 0;
	std::vector<Vec> before = {dyn};
	auto nextDyn = [&]() {                          // new values, or values of before, perhaps with one entry changed
		Vec v;
		if (c.t.flip(1, 4)) { v = c.t.flip() ? dyn : c.t.pick(before); if (c.t.flip(1, 3)) v[c.t.draw(v.size())] = c.t.real(2); }
		else v = genDyn(c.t, n);
		before.push_back(v);
		return v;
	};
	for (int k = 0; k < steps; k++) {
		int op = c.t.draw(8);
		if (!full && (op == 1 || op == 5)) op = 0;
		std::string nm = "after step " + std::to_string(k) + " op " + std::to_string(op);
		c.desc += "step " + std::to_string(k) + ": ";
		if (op == 0 || op == 7) {
			Vec v = nextDyn();
			c.desc += "set_par_DYN " + list(v) + "\n";
			if (b.r->set_par_DYN(ev(v)) != 1) fail("set_par_DYN refused a vector of the right length");
			update(v); reg = toReg(dyn); insync = true; eff++;
		} else if (op == 1) {
			Vec v = c.t.flip(1, 6) ? reg : toReg(nextDyn());
			c.desc += "set_par_REG " + list(v) + "\n";
			if (b.r->set_par_REG(ev(v)) != 1) fail("set_par_REG refused a vector of the right length");
			reg = v; dyn = toDyn(v); insync = true; eff++;
		} else if (op == 2) {
			Spec s2 = withDyn(s, nextDyn());
			bool upd = c.t.flip(3, 4);
			std::string f2 = c.scratch + "/conf2.yaml";
			writeFile(f2, toYaml(s2));
			Model m2 = parse(toYaml(s2));
			c.desc += "load_conf_par " + std::to_string(upd) + " " + list(param(m2, "par_DYN")) + "\n";
			if (b.r->load_conf_par(f2, upd) != 1) fail("load_conf_par refused a valid file");
			update(param(m2, "par_DYN"));
			if (upd) { reg = toReg(dyn); insync = true; eff++; } else insync = false;
			other++;
		} else if (op == 3) {                       // wrong length: refused, nothing changes
			int len = c.t.pick(std::vector<int>{0, 1, 10 * n - 1, 10 * n + 1, 20 * n});
			if (len == 10 * n) len++;
			Vec v(len, 7.0);
			bool R = c.t.flip();
			c.desc += std::string(R ? "set_par_REG" : "set_par_DYN") + " of length " + std::to_string(len) + "\n";
			if ((R ? b.r->set_par_REG(ev(v)) : b.r->set_par_DYN(ev(v))) != 0) fail("a vector of the wrong length is accepted", "length");
			other++;
		} else if (op == 4) {
			c.desc += "update_inertial_REG\n";
			b.r->update_inertial_REG(); reg = toReg(dyn); insync = true;
		} else if (op == 5) {
			c.desc += "update_inertial_DYN\n";
			b.r->update_inertial_DYN(); dyn = toDyn(reg); insync = true;
		} else {
			c.desc += "set_q, set_arg\n";
			b.r->set_q(ev(genVec(c.t, n, 1))); b.r->set_arg("dq", ev(genVec(c.t, n, 1)));
		}
		compare(nm.c_str());
	}
	if (mode != 0) {                                // the model functions use the values in force
		Model m2 = parse(toYaml(withDyn(s, dyn)));
		State x = genState(c.t, n, m2.ne);
		c.desc += show(x);
		apply(b, x);
		Scale sc = scaleOf(m2, x);
		Pi pi = reg_params(m2);
		double tol = 1e-9 * n * n * (sc.S + 1);
		same(c, "M of the values in force", b.get("M"), mat(massT(m2, kp<double>(m2), pi, x.q), n, n), tol);
		same(c, "G of the values in force", b.get("G"), col(gravT(m2, pi, x.q, m2.g)), tol * (1 + sc.g));
		if (insync) {
			double vr = amax(x.dqr), ar = amax(x.ddqr);
			Mat t1 = b.get("M") * ev(x.ddqr) + b.get("C") * ev(x.dqr) + b.get("G");
			same(c, "Yr get_par_REG", Mat(b.get("Yr") * b.r->get_par_REG()), t1, 1e-9 * n * n * n * ((1 + sc.S) * (ar + vr * sc.v) + (1 + sc.mL) * sc.g) + 1e-12);
		}
	}
	if (eff >= 3 && other >= 1) c.nontrivial = true;
}

// ---------------------------------------------------------------- C15
static std::vector<OptFlags*> flagFields(Spec& s, std::vector<int>& sizes) {
	std::vector<OptFlags*> r;
	auto add = [&](OptFlags& f, int k) { if (k) { r.push_back(&f); sizes.push_back(k); } };
	add(s.dhs, 4 * s.n); add(s.base.symb, 6); add(s.tool.symb, 6);
	if (s.hasG) add(s.gs, 3);
	for (auto& l : s.links) { add(l.symb, 10); if (l.hasFric && s.Dl_order) add(l.fsymb, s.Dl_order); }
	if (s.elastic) for (auto& e : s.ej) { add(e.Ks, s.K_order); add(e.Ds, s.D_order); add(e.Dms, s.Dm_order); }
	return r;
}
static Spec reflag(Tape& t, Spec s) {
	std::vector<int> sz;
	auto f = flagFields(s, sz);
	int kind = t.draw(4);                          // all off, all on, random
	for (size_t i = 0; i < f.size(); i++) *f[i] = genFlags(t, sz[i], kind == 0 ? SYMB_NONE : kind == 1 ? SYMB_ALL : SYMB_ANY);
	if (s.elastic) for (auto& e : s.ej) { e.hasMms = kind != 0; e.Mms = kind == 1 ? 1 : t.draw(2); }
	return s;
}
// s with new values in every entry whose flag is set
static Spec revalue(Tape& t, Spec s) {
	auto on = [](const OptFlags& f, int i) { return f.present && f.f[i]; };
	for (int i = 0; i < 4 * s.n; i++) if (on(s.dhs, i)) s.dh[i] = i % 2 ? t.angle() : t.real(1);
	for (int k = 0; k < 2; k++) { Frame& f = k ? s.tool : s.base; for (int i = 0; i < 6; i++) if (on(f.symb, i)) f.v[i] = i < 3 ? t.real(1) : t.angle(); }
	for (int i = 0; i < 3; i++) if (s.hasG && on(s.gs, i)) s.g[i] = t.real(9.81);
	for (auto& l : s.links) {
		for (int i = 0; i < 10; i++) if (on(l.symb, i)) l.p[i] = i ? t.real(0.5) : t.pos_real(5);
		for (int i = 0; i < s.Dl_order; i++) if (l.fsymb.present && l.fsymb.f[i]) l.Dl[i] = t.real(2);
	}
	if (s.elastic) for (auto& e : s.ej) {
		for (int i = 0; i < s.K_order; i++) if (on(e.Ks, i)) e.K[i] = t.real(10);
		for (int i = 0; i < s.D_order; i++) if (on(e.Ds, i)) e.D[i] = t.real(2);
		for (int i = 0; i < s.Dm_order; i++) if (on(e.Dms, i)) e.Dm[i] = t.real(2);
		if (e.hasMms && e.Mms) e.Mm = t.real(1);
	}
	return s;
}
static void argRule(Ctx& c, Bot& b) {
	for (auto& f : b.f) {
		std::set<std::string> seen;
		for (auto& a : f.second.args) {
			c.checks++;
			if (!seen.insert(a).second) fail(f.first + " lists argument " + a + " twice");
			auto it = b.m.symb.find(a);
			if (a.compare(0, 4, "par_") == 0 && it != b.m.symb.end() && !anyFlag(it->second)) fail(f.first + " lists the numeric parameter " + a + " among its arguments");
		}
	}
}
PROPERTY(C15, "pairs of configurations differing in their symb flags only, and symbolic entries set to new values against the configuration that holds those numbers; every common model function in random states. Non-trivial: the two flag patterns differ, at least one partially symbolic parameter, and at least one symbolic value changed") {
	GenOpt o; o.nmax = c.t.flip(1, 10) ? 3 : 2; o.maxOrder = 3;
	bool lng = c.t.flip(1, 30);
	Spec s = lng ? genLong(c.t, o, 4, 7) : genSpec(c.t, o), s2 = reflag(c.t, s);
	if (lng) c.label("long robot");
	Bot a = makeBot(c, s);
	Bot b = makeBot(toYaml(s2), c.scratch + "/conf2.yaml");
	c.desc += "--- same robot with flags\n" + toYaml(s2);
	classify(c, s, a.m); classify(c, s2, b.m);
	argRule(c, a); argRule(c, b);
	int n = s.n;
	auto agree = [&](Bot& p, Bot& q, const Model& m, const State& x, const char* what) {
		double tol = 1e-11 * bound(m, x);
		for (auto& f : p.f) {
			bool isReg = f.first == "reg_Jdq" || f.first == "reg_JTw" || f.first == "reg_dl" || f.first == "reg_k" || f.first == "reg_d" || f.first == "reg_dm" || f.first == "reg_Mm";
			if (!q.has(f.first)) { if (!isReg) fail(std::string(what) + ": function " + f.first + " exists with one selectivity only"); continue; }
			Mat u = p.get(f.first), v = q.get(f.first);
			if (isReg && &p != &q && u.cols() != v.cols()) continue;      // one column per symbolic parameter
			if (isReg && p.m.symb != q.m.symb) continue;
			same(c, std::string(what) + ": " + f.first, u, v, tol);
		}
	};
	State x = genState(c.t, n, a.m.ne);
	c.desc += show(x);
	apply(a, x); apply(b, x);
	agree(a, b, a.m, x, "same robot, other selectivity");
	agree(b, a, a.m, x, "same robot, other selectivity");
	// set the symbolic entries of b, compare with the configuration holding those numbers
	Spec s3 = revalue(c.t, s2);
	Bot d = makeBot(toYaml(s3), c.scratch + "/conf3.yaml");
	c.desc += "--- new values of the symbolic entries\n" + toYaml(s3);
	State y = genState(c.t, n, a.m.ne);
	c.desc += show(y);
	bool changed = false, part = false;
	for (auto p : allPars) {
		auto fl = b.m.symb[p];
		if (!anyFlag(fl)) continue;
		if (someFlag(fl)) part = true;
		Vec v = ::pick(param(d.m, p), fl), old = ::pick(param(b.m, p), fl);
		same(c, std::string("symbolic entries of ") + p, b.r->get_arg(p), col(old), 0);
		if (v != old) changed = true;
		b.r->set_arg(p, ev(v));
	}
	apply(b, y); apply(d, y);
	agree(b, d, d.m, y, "new values of symbolic entries");
	if (part && changed && a.m.symb != b.m.symb) c.nontrivial = true;
}

// ---------------------------------------------------------------- C16
static double wild(Tape& t) {
	switch (t.draw(10)) {
		case 0: return 0;
		case 1: { double e[] = {1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0, 123456789.123456789, 1.0 / 3, 0.1, 1e22, 9007199254740993.0, 1e-5, 100000, 1e16}; return e[t.draw(15)]; }
		case 2: { uint64_t u = t.draw(0); u = ((uint64_t)t.draw(1u << 31) << 32) | t.draw(1ull << 32); double d; memcpy(&d, &u, 8); return std::isfinite(d) ? d : 1; }
		default: return t.real(10);
	}
}
static void sameArgs(Ctx& c, const std::string& what, Robot& r, const std::map<std::string, Vec>& want, bool exact = true) {
	for (auto& w : want) {
		Vec got = vec(r.get_arg(w.first));
		c.checks++;
		if (got.size() != w.second.size()) fail(what + ": " + w.first + " has length " + std::to_string(got.size()) + ", expected " + std::to_string(w.second.size()));
		for (size_t i = 0; i < got.size(); i++) if (eq(got[i], w.second[i])) continue; else if (exact || !(std::fabs(got[i] - w.second[i]) <= 1e-9 * (1 + std::fabs(w.second[i])))) fail(what + ": " + w.first + "[" + std::to_string(i) + "] is " + num(got[i]) + ", expected " + num(w.second[i]));
	}
}
PROPERTY(C16, "histories of argument changes, save_par (any subset), load_par (all or a subset, same or other robot of the structure), save_par_REG, load_par_REG, load_conf_par (valid and damaged files) and save_conf on generated robots, values over the whole double range; every argument after every step against a model of the arguments and of the files, exactly. Non-trivial: a file is loaded after at least one change made since it was saved, or into another robot") {
	GenOpt o; o.nmax = 2; o.maxOrder = 3;
	bool many = c.t.flip(1, 12);
	if (many) c.label("many joints");
	Spec s = many ? genLong(c.t, o, 5, 14) : genSpec(c.t, o);
	std::string yaml = toYaml(s);
	c.desc += yaml;
	bool comp = c.t.flip(1, 3) && !many;
	std::string written = yaml;
	if (c.t.flip(1, 4)) { Speller sp{c.t}; written = sp.spell(s); c.desc += "--- written as\n" + written; c.label("another spelling"); }
	struct Rob { std::unique_ptr<Robot> r; std::map<std::string, Vec> a; };
	std::vector<Rob> rs(2);
	std::string file = c.scratch + "/conf.yaml";
	writeFile(file, written);
	Model m = parse(yaml);
	std::vector<std::string> names = {"q", "dq", "ddq", "d3q", "dqr", "ddqr", "w", "par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN", "par_REG"};
	if (m.Dl_order) names.push_back("par_Dl");
	if (m.ELASTIC) { for (auto k : {"x", "dx", "ddx", "ddxr", "par_Mm"}) names.push_back(k); if (m.K_order) names.push_back("par_K"); if (m.D_order) names.push_back("par_D"); if (m.Dm_order) names.push_back("par_Dm"); }
	for (auto& r : rs) {
		r.r.reset(new Robot(thunder_ns::robot_from_file("robo", file, comp)));
		for (auto& k : names) r.a[k] = vec(r.r->get_arg(k));
	}
	c.label(comp ? "computed robot" : "uncomputed robot");
	auto flags = m.symb["par_DYN"];
	bool full = !comp || !std::count(flags.begin(), flags.end(), 0);
	std::map<int, std::map<std::string, Vec>> files;          // what each parameter file holds
	std::map<int, Vec> regFiles;
	std::map<int, std::pair<int, int>> stamp;                 // file -> (robot, change counter)
	int changes[2] = {0, 0}, steps = c.t.range(2, 10);
	auto check = [&](const std::string& w) { for (int k = 0; k < 2; k++) sameArgs(c, w + ", robot " + std::to_string(k), *rs[k].r, rs[k].a); };
	auto subset = [&] { std::vector<std::string> l; int k = c.t.draw(3); for (auto& x : names) if (k == 0 || c.t.flip()) l.push_back(x); if (l.empty()) l.push_back(names[c.t.draw(names.size())]); if (c.t.flip()) std::reverse(l.begin(), l.end()); return l; };
	for (int k = 0; k < steps; k++) {
		int op = c.t.draw(10), i = c.t.draw(2), fno = c.t.draw(2);
		Rob& r = rs[i];
		std::string pf = c.scratch + "/par" + std::to_string(fno) + ".yaml", rf = c.scratch + "/reg" + std::to_string(fno) + ".yaml", w;
		if (op <= 1) {
			std::string a = names[c.t.draw(names.size())];
			Vec v = r.a[a];
			for (auto& x : v) x = wild(c.t);
			w = "set_arg " + a + " " + list(v) + " of robot " + std::to_string(i);
			r.r->set_arg(a, ev(v)); r.a[a] = v; changes[i]++;
		} else if (op <= 3) {
			auto l = subset();
			w = "save_par " + std::to_string(fno) + " from robot " + std::to_string(i);
			for (auto& x : l) w += " " + x;
			if (r.r->save_par(pf, l) != 1) fail("save_par failed");
			files[fno].clear();
			for (auto& x : l) files[fno][x] = r.a[x];
			stamp[fno] = {i, changes[i]};
		} else if (op <= 5) {
			if (!files.count(fno)) {
				std::string none = c.scratch + "/missing.yaml";
				w = "load_par of a missing file";
				if (r.r->load_par(none) != 0) fail("load_par of a missing file is reported as success");
			} else if (c.t.flip(1, 3)) {                 // a damaged copy of the file is refused as a whole
				Strs order;
				for (auto& x : files[fno]) order.push_back(x.first);
				if (c.t.flip()) std::reverse(order.begin(), order.end());
				int at = c.t.draw(order.size()), kind = c.t.draw(6);
				std::string y;
				Strs l;
				for (int z = 0; z < (int)order.size(); z++) {
					Vec v = files[fno][order[z]];
					for (auto& e : v) if (c.t.flip()) e = c.t.real(3);
					std::string val = list(v);
					if (z == at) {
						if (kind == 0) { for (int e = c.t.range(1, 3); e > 0; e--) v.push_back(c.t.real(3)); val = list(v); }
						else if (kind == 1) val = v.empty() ? "[abc]" : "[" + val.substr(1, val.size() - 2) + (c.t.flip() ? ", abc]" : ", [1, 2]]");
						else if (kind == 2) { static const char* bad[] = {"abc", "3.5", "{a: 1}", "{0: 1, 1: 2}"}; val = bad[c.t.draw(4)]; }
						else if (kind == 3) y += "no_such_parameter: [1, 2]\n";
					}
					y += order[z] + ": " + val + "\n";
				}
				if (kind == 4) { l = order; l.insert(l.begin() + at, "no_such_parameter"); }
				if (kind == 5) y += "damaged: [1, 2\n";
				std::string f = c.scratch + "/damaged.yaml";
				writeFile(f, y);
				w = "load_par into robot " + std::to_string(i) + " of" + (l.empty() ? "" : " all its entries and no_such_parameter from") + "\n" + y;
				int ok = 0;
				try { ok = r.r->load_par(f, l); } catch (const std::exception&) {}
				if (ok) fail("load_par accepts a damaged file\n" + y, "damaged");
				c.label("refused parameter file");
			} else {
				std::vector<std::string> l;
				if (c.t.flip()) for (auto& x : files[fno]) if (c.t.flip()) l.push_back(x.first);
				w = "load_par " + std::to_string(fno) + " into robot " + std::to_string(i);
				for (auto& x : l) w += " " + x;
				if (r.r->load_par(pf, l) != 1) fail("load_par failed");
				for (auto& x : files[fno]) if (l.empty() || std::count(l.begin(), l.end(), x.first)) r.a[x.first] = x.second;
				if (stamp[fno].first != i || changes[i] != stamp[fno].second) c.nontrivial = true;
			}
		} else if (op == 6) {
			w = "save_par_REG " + std::to_string(fno) + " from robot " + std::to_string(i);
			if (r.r->save_par_REG(rf) != 1) fail("save_par_REG failed");
			regFiles[fno] = r.a["par_REG"];
		} else if (op >= 8) {                           // a configuration's dynamic parameters: all of them, or none when it is refused
			bool bad = op == 9, upd = full && c.t.flip();
			bool hand = !bad && (int)r.a["par_REG"].size() == 10 * m.n && c.t.flip(1, 3);         // regressor parameters written by hand: any number of links, friction or not
			bool reg = hand || (bad && c.t.flip(1, 3));
			Spec s2 = newValues(c.t, s);
			std::string y = toYaml(s2), f = c.scratch + "/other.yaml";
			Vec wantReg = r.a["par_REG"], wantDl = m.Dl_order ? r.a["par_Dl"] : Vec();
			if (hand) {
				static const char* keys[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
				y = c.t.flip(1, 4) ? "# parameters\nversion: 1\ndynamics:\n" : "dynamics:\n";
				int links = c.t.flip() ? m.n : c.t.range(0, m.n + 2);
				for (int j = 0; j < links; j++) {
					y += "  " + std::string(1, "zyxwabcd"[c.t.draw(8)]) + std::to_string(j) + ":\n    inertial:\n";
					int first = c.t.draw(10);
					for (int q0 = 0; q0 < 10; q0++) {
						int q = (q0 + first) % 10;
						double v = c.t.real(2);
						y += "      " + std::string(keys[q]) + ": " + num(v) + "\n";
						if (j < m.n) wantReg[10 * j + q] = v;
					}
					if (c.t.flip()) {
						Vec dl = genVec(c.t, m.Dl_order + (c.t.flip(1, 3) ? 1 : 0), 1);
						y += "    friction:\n      Dl: " + list(dl) + "\n";
						if (j < m.n && m.Dl_order) for (int q = 0, at = 0; q < m.n * m.Dl_order; q++) {
							bool in = !comp || m.symb["par_Dl"][q];
							if (q / m.Dl_order == j && in) wantDl[at] = dl[q % m.Dl_order];
							at += in;
						}
					}
				}
				c.label("load_par_REG of a hand-written file");
			} else if (reg) y = regText(genDyn(c.t, m.n), m.n);
			if (bad) y = damaged(c.t, y);
			writeFile(f, y);
			w = std::string(reg ? "load_par_REG" : "load_conf_par") + " into robot " + std::to_string(i) + (upd ? " with conversion" : "") + " of\n" + y;
			int ok = 0;
			std::string outcome = "refused";
			try { if (reg) r.r->load_par_REG(f, upd); else ok = r.r->load_conf_par(f, upd); } catch (const std::exception& e) { outcome = e.what(); if (!bad) fail(std::string("load_conf_par of a valid file throws: ") + e.what()); }
			if (!bad && !hand && ok != 1) fail("load_conf_par refuses a valid file");
			std::map<std::string, Vec> now;
			for (auto& x : names) now[x] = vec(r.r->get_arg(x));
			static const Strs dynNames = {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
			if (hand) {
				r.a["par_REG"] = wantReg;
				if (m.Dl_order) r.a["par_Dl"] = wantDl;
				changes[i]++;
				c.nontrivial = true;
			} else if (!bad) {
				Model m2 = parse(y);
				for (auto& x : dynNames) if (r.a.count(x)) { Vec v = param(m2, x); r.a[x] = comp ? pick(v, m.symb[x]) : v; }
				changes[i]++;
				c.nontrivial = true;
				c.label("load_conf_par");
			} else if (!reg && ok != 1) c.label("refused damaged file");        // nothing may have changed
			else {                                                            // accepted, or load_par_REG, which does not tell
				std::set<double> in = numbersOf(y);
				in.insert(0);
				Strs touched = reg ? Strs{"par_REG", "par_Dl"} : dynNames;
				bool moved = false;
				for (auto& x : touched) if (r.a.count(x)) {
					c.checks++;
					if (now[x].size() != r.a[x].size()) fail(x + " changes its size on a damaged file", "damaged");
					for (size_t z = 0; z < now[x].size(); z++) {
						if (!eq(now[x][z], r.a[x][z]) && !in.count(now[x][z])) fail(x + " holds " + num(now[x][z]) + ", which is neither in the damaged file nor was there before", "damaged");
						if (!eq(now[x][z], r.a[x][z])) moved = true;
					}
					r.a[x] = now[x];
				}
				if (outcome != "refused" && moved) fail("a file that is refused (" + outcome + ") changes parameters", "damaged");
				if (moved) changes[i]++;
				c.label("accepted damaged file");
			}
			if (upd && (reg || ok == 1)) {                // the other inertial set follows
				std::string from = reg ? "par_REG" : "par_DYN", to = reg ? "par_DYN" : "par_REG";
				bool tame = true;
				for (double x : now["par_REG"]) if (!(std::fabs(x) <= 1e4)) tame = false;
				for (double x : now["par_DYN"]) if (!(std::fabs(x) <= 1e4)) tame = false;
				for (size_t l = 0; l < now["par_REG"].size(); l += 10) if (std::fabs(now["par_REG"][l]) < 1e-2 && now["par_REG"][l] != 0) tame = false;
				bool moved = false;
				for (size_t z = 0; z < now[to].size(); z++) if (!eq(now[to][z], r.a[to][z])) moved = true;
				if (tame && moved) { Vec e = reg ? toDyn(now[from]) : toReg(now[from]); same(c, to + " converted from the loaded file", col(now[to]), col(e), parTol(reg ? e : now[from]) + 1e-8); }
				r.a[to] = now[to];
			}
		} else {
			if (!regFiles.count(fno)) continue;
			bool upd = full && c.t.flip();
			w = "load_par_REG " + std::to_string(fno) + " into robot " + std::to_string(i) + (upd ? " with conversion" : "");
			r.r->load_par_REG(rf, upd);
			r.a["par_REG"] = regFiles[fno];
			c.label("load_par_REG");
			if (upd) {
				Vec d = toDyn(regFiles[fno]), got = vec(r.r->get_par_DYN());
				bool tame = true; for (double x : regFiles[fno]) if (!(std::fabs(x) <= 1e4)) tame = false;
				for (size_t l = 0; l < regFiles[fno].size(); l += 10) if (std::fabs(regFiles[fno][l]) < 1e-2 && regFiles[fno][l] != 0) tame = false;
				if (tame) same(c, "par_DYN converted from the loaded file", col(got), col(d), parTol(d) + 1e-8);
				r.a["par_DYN"] = got;
			}
		}
		c.desc += "step " + std::to_string(k) + ": " + w + "\n";
		check("after step " + std::to_string(k) + " (" + w + ")");
	}
	// the configuration file
	std::string cf = c.scratch + "/saved_conf.yaml";
	if (rs[0].r->save_conf(cf) != 1) fail("save_conf failed");
	Robot r2 = thunder_ns::robot_from_file("robo", cf, false), r1 = thunder_ns::robot_from_file("robo", file, false);
	std::map<std::string, Vec> want;
	for (auto& k : names) want[k] = vec(r1.get_arg(k));
	sameArgs(c, "robot loaded from the saved configuration", r2, want);
	if (r2.get_numJoints() != r1.get_numJoints() || r2.get_jointsType() != r1.get_jointsType() || r2.get_ELASTIC() != r1.get_ELASTIC() || r2.get_Dl_order() != r1.get_Dl_order() || r2.get_K_order() != r1.get_K_order() || r2.get_D_order() != r1.get_D_order() || r2.get_Dm_order() != r1.get_Dm_order() || r2.symb != r1.symb) fail("the saved configuration describes another robot");
}

// ---------------------------------------------------------------- C17
// another spelling of the same configuration
PROPERTY(C17, "each generated robot written twice: canonical file, and another spelling (shuffled keys, flow/block sequences, number formats, quoting, comments, odd names, optional parts omitted or written with their defaults, entries in excess, unused sections); getters and parameters against the description, and every model function of the two robots identical. Non-trivial: at least one optional part omitted or added, at least 2 joints or an elastic or friction model") {
	GenOpt o; o.nmax = 3; o.maxOrder = 3;
	bool compute = c.t.flip(1, 2);
	if (!compute && c.t.flip(1, 6)) o.nmax = 13;
	Spec s = genSpec(c.t, o);
	if (c.t.flip(1, 4)) { Link& l = s.links[s.n - 1]; for (auto& x : l.p) x = 0; l.symb = OptFlags(); l.fsymb = OptFlags(); for (auto& x : l.Dl) x = 0; s.links.resize(s.n); }
	std::string y1 = toYaml(s);
	Speller sp{c.t};
	std::string y2 = sp.spell(s);
	c.desc += y1 + "--- other spelling\n" + y2;
	std::string f1 = c.scratch + "/conf.yaml", f2 = c.scratch + "/conf2.yaml";
	writeFile(f1, y1); writeFile(f2, y2);
	Model m = parse(y1);
	classify(c, s, m);
	Robot a = thunder_ns::robot_from_file("robo", f1, compute), b = thunder_ns::robot_from_file("robo", f2, compute);
	std::vector<Robot*> rs = {&a, &b};
	std::unique_ptr<Robot> fromNode;
	if (!compute) {                                // the same configuration handed over as a node
		fromNode.reset(new Robot(YAML::LoadFile(f2)));
		fromNode->robotName = "robo";
		if (fromNode->load_conf_par(f2) != 1) fail("load_conf_par refuses the file of the robot");
		rs.push_back(fromNode.get());
	}
	for (Robot* r : rs) {
		std::string w = r == &a ? "canonical file" : r == &b ? "other spelling" : "configuration node";
		auto eq = [&](const std::string& k, long got, long want) { c.checks++; if (got != want) fail(w + ": " + k + " is " + std::to_string(got) + ", expected " + std::to_string(want)); };
		eq("numJoints", r->get_numJoints(), s.n); eq("ELASTIC", r->get_ELASTIC(), m.ELASTIC); eq("Dl_order", r->get_Dl_order(), m.Dl_order);
		eq("K_order", r->get_K_order(), m.K_order); eq("D_order", r->get_D_order(), m.D_order); eq("Dm_order", r->get_Dm_order(), m.Dm_order);
		eq("numElasticJoints", r->get_numElasticJoints(), m.ne);
		if (r->get_isElasticJoint() != m.ela) fail(w + ": isElasticJoint");
		if (r->get_jointsType() != s.type) fail(w + ": joint types");
		for (auto p : allPars) {
			bool el = std::string(p) == "par_K" || std::string(p) == "par_D" || std::string(p) == "par_Dm" || std::string(p) == "par_Mm";
			if (el && !m.ELASTIC) continue;
			if (std::string(p) == "par_Dl" && !m.Dl_order) continue;
			Vec v = param(m, p);
			auto fl = m.symb[p];
			fl.resize(v.size(), 0);
			if (std::string(p) == "par_DYN") { same(c, w + ": par_DYN", r->get_par_DYN(), col(v), 0); same(c, w + ": par_REG", r->get_par_REG(), col(toReg(v)), parTol(v)); }
			if (compute) v = ::pick(v, fl);
			same(c, w + ": " + p, r->get_arg(p), col(v), 0);
			auto got = r->symb[p];
			if (got.size() == fl.size() ? got != fl : anyFlag(fl) || anyFlag(got)) fail(w + ": symbolic flags of " + p);
		}
	}
	if (compute) {
		Bot A, B;
		A.r.reset(new Robot(a)); B.r.reset(new Robot(b)); A.m = B.m = m;
		A.refresh(); B.refresh();
		State x = genState(c.t, s.n, m.ne);
		c.desc += show(x);
		apply(A, x); apply(B, x);
		auto va = values(A), vb = values(B);
		if (va.size() != vb.size()) fail("the two spellings give different sets of functions");
		for (auto& v : va) { if (!vb.count(v.first)) fail("function " + v.first + " is missing"); same(c, v.first, vb[v.first], v.second, 0); }
		if (m.g[0] == 0 && m.g[1] == 0 && m.g[2] == 0 && !anyFlag(m.symb["par_gravity"])) same(c, "G without gravity", va["G"], Mat::Zero(s.n, 1), 0);
		c.label("functions compared");
	}
	if ((s.n >= 2 || m.ELASTIC || m.Dl_order) && y1 != y2) c.nontrivial = true;
}

// ---------------------------------------------------------------- C25
PROPERTY(C25, "user expressions (scalars to 3x3 matrices of sums, products, sin, tanh over variables, parameters and other model functions) added before or after the robot is reduced to its symbolic entries, histories of additions, overwrites and refused additions, the documented example; values against direct evaluation, all other functions and arguments unchanged. Non-trivial: an expression that uses a partially symbolic parameter or another function, and at least 2 additions") {
	GenOpt o; o.nmax = 2; o.maxOrder = 2;
	Spec s = genSpec(c.t, o);
	std::string yaml = toYaml(s), file = c.scratch + "/conf.yaml";
	bool example = c.t.flip(1, 5);
	Vec q0;
	int shortQ0 = 0;
	if (example) {
		for (int i = 0; i < s.n; i++) q0.push_back(c.t.real(1));
		int len = s.n;
		if (c.t.flip(1, 4)) { len = c.t.range(0, s.n + 2); if (len < s.n) { q0.resize(len); shortQ0 = 1; } else while ((int)q0.size() < len) q0.push_back(9); }
		yaml += "q0: " + list(q0) + "\n";
		if (len > s.n) q0.resize(s.n);
	}
	c.desc += yaml;
	bool late = c.t.flip();
	c.label(late ? "added to the finished robot" : "added while the robot is built");
	// a finished twin supplies the values of all model quantities
	Bot twin = makeBot(yaml, file);
	Model& m = twin.m;
	State x = genState(c.t, s.n, m.ne);
	apply(twin, x);
	c.desc += show(x);
	std::map<std::string, Mat> base = values(twin);
	Bot b;
	b.m = m; b.yaml = yaml;
	b.r.reset(new Robot(thunder_ns::robot_from_file("robo", file, late)));
	Robot& r = *b.r;
	if (!late) {
		r.init_symb_parameters();
		thunder_ns::compute_kinematics(r, true); thunder_ns::compute_dynamics(r, true); thunder_ns::compute_regressors(r); thunder_ns::compute_userDefined(r);
	}
	// leaves
	std::map<std::string, Mat> vals;
	std::map<std::string, std::set<std::string>> deps;
	std::map<std::string, Vec> st = {{"q", x.q}, {"dq", x.dq}, {"ddq", x.ddq}, {"d3q", x.d3q}, {"dqr", x.dqr}, {"ddqr", x.ddqr}, {"w", x.w}};
	if (m.ELASTIC) { st["x"] = x.x; st["dx"] = x.dx; st["ddx"] = x.ddx; st["ddxr"] = x.ddxr; }
	for (auto& v : st) { vals[v.first] = col(v.second); deps[v.first] = {v.first}; }
	std::set<std::string> partial;
	for (std::string p : allPars) {
		bool el = p == "par_K" || p == "par_D" || p == "par_Dm" || p == "par_Mm";
		if ((el && !m.ELASTIC) || (p == "par_Dl" && !m.Dl_order)) continue;
		Vec v = param(m, p);
		auto fl = m.symb[p];
		if (late) v = ::pick(v, fl);
		if (v.empty()) continue;
		if (someFlag(fl)) partial.insert(p);
		vals[p] = col(v);
		if (anyFlag(fl)) deps[p] = {p}; else deps[p] = {};
	}
	if (c.t.flip(1, 3)) { vals["par_REG"] = col(vec(twin.r->get_par_REG())); deps["par_REG"] = {"par_REG"}; }
	for (auto& f : twin.f) { vals[f.first] = base[f.first]; deps[f.first] = std::set<std::string>(f.second.args.begin(), f.second.args.end()); }
	for (auto it = vals.begin(); it != vals.end();) { if (it->second.size() == 0) it = vals.erase(it); else ++it; }
	struct Added { Mat v, tol; std::vector<std::string> args; std::string descr; };
	std::map<std::string, Added> added;
	int steps = c.t.range(1, 5);
	bool nt = false;
	for (int k = 0; k < steps; k++) {
		std::string name = c.t.flip(1, 6) ? (c.t.flip() ? "M" : "q") : "user_f" + std::to_string(c.t.draw(3));
		bool overwrite = name[0] == 'u' ? c.t.flip(2, 3) : false;
		int rows = c.t.range(1, 3), cols = c.t.range(1, 3);
		casadi::SX ex = casadi::SX::zeros(rows, cols);
		Added a; a.v = Mat::Zero(rows, cols); a.tol = a.v;
		std::set<std::string> args;
		std::string text;
		for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
			if (c.t.flip(1, 6)) continue;                        // structural zero
			UserExpr e = genExpr(c, r, vals, deps, c.t.range(0, 3));
			ex(i, j) = e.sx; a.v(i, j) = e.val; a.tol(i, j) = 1e-9 * (1 + e.mag);
			args.insert(e.args.begin(), e.args.end());
			text += "(" + std::to_string(i) + "," + std::to_string(j) + ") = " + e.text + "; ";
		}
		if (a.v.size() && !(a.v.array().abs().maxCoeff() < 1e100)) continue;
		a.args.assign(args.begin(), args.end());
		if (c.t.flip()) std::reverse(a.args.begin(), a.args.end());
		if (c.t.flip(1, 4) && !args.count("d4q")) a.args.push_back("d4q");       // an argument the expression does not use
		bool odd = false;
		a.descr = genDescr(c.t, k, odd);
		c.desc += "add " + name + (overwrite ? " (overwrite)" : "") + " = " + text + "\n";
		bool exists = added.count(name) || name == "M" || name == "q";
		int ok = r.add_function(name, ex, a.args, a.descr, overwrite);
		if (exists && !overwrite) { if (ok != 0) fail("adding " + name + " again without overwriting is reported as success"); c.label("refused"); continue; }
		if (ok != 1) fail("add_function failed");
		added[name] = a;
		vals[name] = a.v; deps[name] = args;
		for (auto& p : args) if (partial.count(p)) { nt = true; c.label("uses a partially symbolic parameter"); }
		if (text.find("T_") != std::string::npos || text.find("M(") != std::string::npos || text.find("user_f") != std::string::npos) nt = true;
		// overwritten functions keep their old value inside the expressions that used them
	}
	if (shortQ0) {
		c.label("documented example with too few values");
		if (thunder_ns::compute_example_fun(r)) fail("the documented example is accepted with fewer values than joints");
	} else if (example) {
		if (!thunder_ns::compute_example_fun(r)) fail("the documented example function is refused");
		Added a; a.v = Mat::Constant(1, 1, (ev(x.q) - ev(q0)).norm()); a.tol = Mat::Constant(1, 1, 1e-11 * (1 + a.v(0, 0))); a.args = {"q"}; a.descr = "distance from q0";
		added["q0_dist"] = a;
		c.label("documented example");
	}
	if (!late) r.update_symb_parameters();
	b.refresh();
	apply(b, x);
	auto verify = [&](const std::string& when) {
		b.refresh();
		if (b.f.size() != base.size() + added.size()) fail(when + ": the list of functions has " + std::to_string(b.f.size()) + " entries, expected " + std::to_string(base.size() + added.size()));
		for (auto& f : base) same(c, when + ": untouched function " + f.first, b.get(f.first), f.second, 0);
		for (auto& a : added) {
			Mat v = b.get(a.first);
			if (v.rows() != a.second.v.rows() || v.cols() != a.second.v.cols()) fail(when + ": shape of " + a.first);
			for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) { c.checks++; if (!(std::fabs(v(i, j) - a.second.v(i, j)) <= a.second.tol(i, j))) fail(when + ": " + a.first + "(" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(v(i, j)) + ", expected " + num(a.second.v(i, j))); }
			if (b.f[a.first].args != a.second.args) fail(when + ": arguments of " + a.first);
			if (b.f[a.first].description != a.second.descr) fail(when + ": description of " + a.first);
		}
	};
	verify("after adding");
	{                                                         // what get_functions hands out
		std::vector<thunder_ns::fun_obj> fs = r.get_functions(false);
		for (auto& f : fs) {
			c.checks++;
			if (f.expr.size() != r.model[f.name].size() || !casadi::SX::is_equal(f.expr, r.model[f.name], 0)) fail("the expression of " + f.name + " handed out by get_functions is another one", "expression");
		}
		auto& f = fs[c.t.draw(fs.size())];
		std::vector<casadi::DM> val;
		for (auto& a : f.args) val.push_back(casadi::DM(vec(r.get_arg(a))));
		casadi::DM out = casadi::DM::densify(f.fun(val)[0]);
		Mat got = Eigen::Map<const Mat>(out.ptr(), out.size1(), out.size2()), want = b.get(f.name);
		if (want.allFinite()) same(c, "function " + f.name + " handed out by get_functions", got, want, 1e-9 * (1 + (want.size() ? want.array().abs().maxCoeff() : 0)));
	}
	size_t nm = r.model.size();
	Mat z = r.get("no_such_function");
	if (z.size() != 1 || z(0, 0) != 0) fail("an unknown function returns " + str(z));
	if (r.model.size() != nm) fail("asking for an unknown function changes the model");
	verify("after asking for an unknown function");
	// parameters as they were
	for (std::string p : {"par_DYN", "par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity"}) same(c, "argument " + p, r.get_arg(p), twin.r->get_arg(p), 0);
	same(c, "par_REG", r.get_par_REG(), twin.r->get_par_REG(), 0);
	if (nt && added.size() >= 2) c.nontrivial = true;
}
