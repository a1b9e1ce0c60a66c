// C28, C29: the Robot object as plain state, and the model computed piece by piece.
#include "kit.h"
#include "userDefined.h"
#include <algorithm>
using namespace ref;

static std::map<std::string, Mat> all(Bot& b) { std::map<std::string, Mat> v; for (auto& f : b.f) v[f.first] = b.get(f.first); return v; }
static double mag(const Mat& m) { double b = 0; for (int i = 0; i < m.size(); i++) if (std::isfinite(m.data()[i])) b = std::max(b, std::fabs(m.data()[i])); return b; }
static void near(Ctx& c, const std::string& what, const Mat& got, const Mat& want, double rel) { same(c, what, got, want, rel * (1 + std::max(mag(got), mag(want)))); }
static Vec chosen(const Vec& v, const std::vector<int>& f) { Vec r; for (size_t i = 0; i < v.size(); i++) if (i < f.size() && f[i]) r.push_back(v[i]); return r; }

// ---------------------------------------------------------------- C28
typedef std::map<std::string, Vec> Args;
static int callSet(Robot& r, const std::string& a, const Vec& v) {
	EV x = v.empty() ? EV(0) : EV(ev(v));
	if (a == "q") return r.set_q(x);
	if (a == "dq") return r.set_dq(x);
	if (a == "dqr") return r.set_dqr(x);
	if (a == "ddqr") return r.set_ddqr(x);
	if (a == "x") return r.set_x(x);
	if (a == "dx") return r.set_dx(x);
	if (a == "ddx") return r.set_ddx(x);
	return r.set_ddxr(x);
}
static std::string canon(const YAML::Node& n) {
	if (n.IsMap()) { std::string r = "{"; for (const auto& x : n) r += canon(x.first) + ":" + canon(x.second) + ","; return r + "}"; }
	if (n.IsSequence()) { std::string r = "["; for (const auto& x : n) r += canon(x) + ","; return r + "]"; }
	return n.IsScalar() ? n.Scalar() : "~";
}
PROPERTY(C28, "histories of accepted and refused setter calls, set_arg, evaluations (also of unknown functions), copies, assignments, edited and saved configurations on up to four Robot objects of one or two configurations; every argument of every object after every step against plain state, every model function against a robot that only received the last accepted values. Non-trivial: at least two objects alive, one refused vector and one evaluation after a later change") {
	GenOpt o; o.nmax = 3; o.maxOrder = 3;
	int kinds = c.t.flip(1, 3) ? 2 : 1;
	struct Kind { Spec s; Bot twin; Args a0; std::vector<std::string> names, setters; };
	std::vector<Kind> ks(kinds);
	for (int i = 0; i < kinds; i++) {
		Kind& k = ks[i];
		k.s = genSpec(c.t, o);
		c.desc += "configuration " + std::to_string(i) + "\n" + toYaml(k.s);
		k.twin = makeBot(toYaml(k.s), c.scratch + "/conf" + std::to_string(i) + ".yaml", i ? "other" : "robo");
		classify(c, k.s, k.twin.m);
		k.names = {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w"};
		k.setters = {"q", "dq", "dqr", "ddqr"};
		for (auto& a : k.names) k.a0[a] = Vec(a == "w" ? 6 : k.s.n, 0.0);
		if (k.twin.m.ELASTIC) for (auto a : {"x", "dx", "ddx", "ddxr"}) { k.names.push_back(a); k.setters.push_back(a); k.a0[a] = Vec(k.twin.m.ne, 0.0); }
		for (auto& p : k.twin.m.symb) if (p.first.compare(0, 4, "par_") == 0 && p.first != "par_REG" && anyFlag(p.second)) { k.names.push_back(p.first); k.a0[p.first] = chosen(param(k.twin.m, p.first), p.second); }
	}
	struct Obj { int k; std::unique_ptr<Robot> r; Args a; std::string conf; std::map<std::string, thunder_ns::fun_obj> f; };
	std::vector<Obj> os;
	auto fresh = [&](int k) { Obj x; x.k = k; x.r.reset(new Robot(*ks[k].twin.r)); x.a = ks[k].a0; x.conf = toYaml(ks[k].s); os.push_back(std::move(x)); };
	auto build = [&](int k) { Obj x; x.k = k; x.r.reset(new Robot(thunder_ns::robot_from_file("robo", c.scratch + "/conf" + std::to_string(k) + ".yaml", true))); x.a = ks[k].a0; x.conf = toYaml(ks[k].s); os.push_back(std::move(x)); };
	build(0);
	if (kinds > 1) build(1);
	// the twin receives exactly the state of the object
	auto expect = [&](const Obj& x) { Bot& t = ks[x.k].twin; for (auto& a : x.a) t.r->set_arg(a.first, ev(a.second)); };
	auto checkArgs = [&](const std::string& when) {
		for (size_t i = 0; i < os.size(); i++) for (auto& a : os[i].a) {
			Vec got = vec(os[i].r->get_arg(a.first));
			c.checks++;
			if (got != a.second) fail(a.first + " of object " + std::to_string(i) + " " + when + " is " + list(got) + ", expected " + list(a.second));
		}
	};
	auto evaluate = [&](Obj& x, int from, int count, const std::string& when) {
		Bot& t = ks[x.k].twin;
		expect(x);
		std::vector<std::string> fn;
		for (auto& f : t.f) fn.push_back(f.first);
		for (int i = 0; i < count && i < (int)fn.size(); i++) {
			const std::string& f = fn[(from + i * 5) % fn.size()];
			Mat v = x.r->get(f), w = t.get(f);
			near(c, f + " " + when, v, w, 1e-12);
			if (i == 0) near(c, f + " evaluated again " + when, x.r->get(f), v, 0);
		}
	};
	// a value in force somewhere, perhaps with one entry changed, or a new one
	auto value = [&](const std::string& a, size_t n, double sc) {
		if (c.t.flip(1, 4)) {
			const Args& from = os[c.t.draw(os.size())].a;
			auto it = c.t.flip() ? from.find(a) : std::next(from.begin(), c.t.draw(from.size()));
			if (it != from.end() && it->second.size() == n) { Vec v = it->second; nearby(c.t, v); return v; }
		}
		return genVec(c.t, n, sc);
	};
	auto savedConf = [&](Robot& r, const std::string& conf, const std::string& who) {
		std::string f = c.scratch + "/saved.yaml";
		if (r.save_conf(f) != 1) fail("save_conf reports failure");
		std::string got = canon(YAML::LoadFile(f)), want = canon(YAML::Load(conf));
		c.checks++;
		if (got != want) fail("the configuration " + who + " is " + got + ", expected " + want, "configuration");
	};
	auto checkConf = [&](int i) { savedConf(*os[i].r, os[i].conf, "saved by object " + std::to_string(i)); };
	checkArgs("after loading");
	int steps = c.t.range(1, 30), refused = 0, later = 0;
	bool changed = false;
	for (int st = 0; st < steps; st++) {
		int i = c.t.draw(os.size()), op = c.t.draw(18);
		Obj& x = os[i];
		Kind& k = ks[x.k];
		std::string w = "object " + std::to_string(i) + ": ";
		if (op <= 4) {
			std::string a = c.t.pick(k.setters);
			Vec v = value(a, x.a[a].size(), c.t.pick(std::vector<double>{1, 20, 1e-3}));
			w += "set_" + a + " " + list(v);
			if (callSet(*x.r, a, v) != 1) fail("set_" + a + " reports failure for a vector of the right length", "refused");
			x.a[a] = v; changed = true;
		} else if (op <= 6) {
			std::string a = c.t.pick(std::vector<std::string>{"q", "dq", "dqr", "ddqr", "x", "dx", "ddx", "ddxr"});
			int right = a[0] == 'x' || a.find('x') != std::string::npos ? k.twin.m.ne : k.s.n;
			if (a.find('x') != std::string::npos && !k.twin.m.ELASTIC) right = x.r->get_numElasticJoints();
			int len = c.t.pick(std::vector<int>{0, 1, right - 1, right + 1, 2 * right, right + 7});
			if (len == right || len < 0) len = right + 1;
			w += "set_" + a + " with " + std::to_string(len) + " entries instead of " + std::to_string(right);
			if (callSet(*x.r, a, Vec(len, 4.25)) != 0) fail("set_" + a + " accepts " + std::to_string(len) + " entries instead of " + std::to_string(right), "length");
			refused++;
		} else if (op <= 9) {
			std::string a = c.t.pick(k.names);
			Vec v = value(a, x.a[a].size(), 2);
			w += "set_arg " + a + " " + list(v);
			if (x.r->set_arg(a, ev(v)) != 1) fail("set_arg reports failure");
			x.a[a] = v; changed = true;
		} else if (op == 10) {
			int from = c.t.draw(200), n = c.t.range(1, 6);
			w += "evaluate";
			evaluate(x, from, n, "in a history");
			if (changed) later++;
		} else if (op == 11) {
			w += "an unknown function";
			Mat z = x.r->get("no_such_function");
			if (z.size() != 1 || z(0, 0) != 0) fail("an unknown function returns " + str(z));
		} else if (op == 12 && os.size() < 4) {
			int how = c.t.draw(3);
			if (how == 0) { w += "copied"; Obj y; y.k = x.k; y.r.reset(new Robot(*x.r)); y.a = x.a; y.conf = x.conf; os.push_back(std::move(y)); }
			else if (how == 1) { w += "a new object from the same file"; build(x.k); }
			else { w += "a copy of a fresh robot"; for (auto& a : k.a0) k.twin.r->set_arg(a.first, ev(a.second)); fresh(x.k); }
		} else if (op == 13) {
			int j = c.t.draw(os.size());
			w += "assigned to object " + std::to_string(j);
			if (j != i) { *os[j].r = *x.r; os[j].a = x.a; os[j].k = x.k; os[j].conf = x.conf; }
		} else if (op == 14) {
			std::string key = "note" + std::to_string(c.t.draw(2)), val = "n" + std::to_string(st);
			w += "its configuration gets an entry " + key + " " + val;
			x.r->config_yaml[key] = val;
			YAML::Node e = YAML::Load(x.conf);
			e[key] = val;
			x.conf = YAML::Dump(e) + "\n";
		} else if (op == 15) {
			w += "configuration saved";
			checkConf(i);
		} else if (op == 16) {                        // a robot described by a node belongs to itself
			w += "a robot from a node";
			YAML::Node n = YAML::Load(x.conf), other = YAML::Load(toYaml(ks[c.t.draw(kinds)].s));
			Robot r(n), r2(r);
			int how = c.t.draw(4);
			if (how == 0) n["note0"] = "later";
			else if (how == 1) { r2.config_yaml["note1"] = "later"; n["note0"] = "later"; }
			else if (how == 2) r2 = *os[c.t.draw(os.size())].r;
			else if (how == 3) { Robot r3(other); r2 = r3; r3 = *os[c.t.draw(os.size())].r; }
			if (how > 1 && canon(n) != canon(YAML::Load(x.conf))) fail("the node a robot was made from changes to " + canon(n), "configuration");
			savedConf(r, x.conf, "of a robot made from a node");
		} else {
			w += "functions listed";
			auto fs = x.r->get_functions();
			if (fs.size() != k.twin.f.size()) fail("the list of functions changes");
		}
		c.desc += w + "\n";
		checkArgs("after step " + std::to_string(st) + " (" + w + ")");
	}
	for (size_t i = 0; i < os.size(); i++) evaluate(os[i], 0, 1000, "of object " + std::to_string(i) + " at the end");
	for (size_t i = 0; i < os.size(); i++) checkConf(i);
	if (os.size() >= 2 && refused && later) c.nontrivial = true;
}

// ---------------------------------------------------------------- C29
struct Step { const char* name; std::function<int(Robot&)> run; };
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool numbered(const std::string& s, const char* p) { if (!starts(s, p) || s.size() == strlen(p)) return false; for (size_t i = strlen(p); i < s.size(); i++) if (!isdigit(s[i])) return false; return true; }
static bool isFrame(const std::string& f) { return starts(f, "T_"); }
static bool isJac(const std::string& f) { return numbered(f, "J_") || f == "J_ee"; }
static bool isAdv(const std::string& f) { return f == "J_ee_dot" || f == "J_ee_ddot" || f == "J_ee_pinv"; }
static bool isMCG(const std::string& f) { return f == "M" || f == "C" || f == "C_std" || f == "G" || numbered(f, "J_cm_"); }
static bool isDer(const std::string& f) { return f == "M_dot" || f == "M_ddot" || f == "C_dot" || f == "C_ddot" || f == "G_dot" || f == "G_ddot"; }
static bool isEla(const std::string& f) { return f == "k" || f == "d" || f == "dm" || f == "Mm" || numbered(f, "K") || numbered(f, "D") || numbered(f, "Dm"); }
static bool isDl(const std::string& f) { return f == "dl" || numbered(f, "Dl"); }
static bool isYr(const std::string& f) { return f == "Yr" || f == "reg_M" || f == "reg_C" || f == "reg_G"; }
static bool isRegE(const std::string& f) { return f == "reg_k" || f == "reg_d" || f == "reg_dm" || f == "reg_Mm"; }
static bool isRegJ(const std::string& f) { return f == "reg_Jdq" || f == "reg_JTw"; }
PROPERTY(C29, "random sequences (any order, subsets, repetitions) of the public computing functions on a robot that was only loaded, against the robot that robot_from_file computes: every function that exists has the same value, shape, arguments and description, every requested function exists, the robot's parameters and getters are the same. Non-trivial: a computing function runs before the one that provides what it needs, or runs twice") {
	GenOpt o; o.nmax = c.t.flip(1, 8) ? 3 : 2; o.maxOrder = 3;
	Spec s = genSpec(c.t, o);
	Bot twin = makeBot(c, s);
	Model& m = twin.m;
	classify(c, s, m);
	Bot b;
	b.m = m; b.yaml = twin.yaml; b.file = twin.file;
	b.r.reset(new Robot(thunder_ns::robot_from_file("robo", twin.file, false)));
	Robot& r = *b.r;
	r.init_symb_parameters();
	using namespace thunder_ns;
	struct Op { std::string name; std::function<int(Robot&)> run; std::function<bool(const std::string&)> gives; bool needsMissing; int want; };
	std::set<std::string> have;
	std::map<std::string, int> ran;
	int el = m.ELASTIC, fr = m.Dl_order > 0, steps = c.t.range(1, 8);
	bool outOfOrder = false;
	std::set<int> wanted;
	for (int k = 0; k < steps; k++) {
		int op = c.t.draw(15);
		bool adv = c.t.flip();
		std::string n;
		int ok = -1, want = 1;
		bool chain = have.count("chain"), jac = have.count("jac"), mcg = have.count("mcg");
		auto mark = [&](std::initializer_list<const char*> l) { for (auto x : l) have.insert(x); };
		switch (op) {
			case 0: n = "compute_chain"; ok = compute_chain(r); mark({"chain"}); break;
			case 1: n = "compute_jacobians"; outOfOrder |= !chain; ok = compute_jacobians(r); mark({"chain", "jac"}); break;
			case 2: n = "compute_kin_adv"; outOfOrder |= !jac; ok = compute_kin_adv(r); mark({"chain", "jac", "adv"}); break;
			case 3: n = "compute_kinematics"; ok = compute_kinematics(r, adv); mark({"chain", "jac"}); if (adv) mark({"adv"}); break;
			case 4: n = "compute_MCG"; outOfOrder |= !chain; ok = compute_MCG(r); mark({"chain", "mcg"}); break;
			case 5: n = "compute_dyn_derivatives"; outOfOrder |= !mcg; ok = compute_dyn_derivatives(r); mark({"chain", "mcg", "der"}); break;
			case 6: n = "compute_elastic"; ok = compute_elastic(r); want = el; if (el) mark({"ela"}); break;
			case 7: n = "compute_Dl"; ok = compute_Dl(r); want = fr; if (fr) mark({"dl"}); break;
			case 8: n = "compute_dynamics"; outOfOrder |= !chain; ok = compute_dynamics(r, adv); want = -1; mark({"chain", "mcg"}); if (fr) mark({"dl"}); if (el) mark({"ela"}); if (adv) mark({"der"}); break;
			case 9: n = "compute_Yr"; outOfOrder |= !jac; ok = compute_Yr(r); mark({"chain", "jac", "yr"}); break;
			case 10: if (!fr) continue; n = "compute_reg_Dl"; outOfOrder |= !have.count("dl"); ok = compute_reg_Dl(r); mark({"dl", "regdl"}); break;
			case 11: if (!el) continue; n = "compute_reg_elastic"; outOfOrder |= !have.count("ela"); ok = compute_reg_elastic(r); mark({"ela", "rege"}); break;
			case 12: n = "compute_reg_J"; outOfOrder |= !jac; ok = compute_reg_J(r); mark({"chain", "jac", "regj"}); break;
			case 13: n = "compute_regressors"; outOfOrder |= !jac; ok = compute_regressors(r, adv); mark({"chain", "jac", "yr", "regj"}); if (fr) mark({"dl", "regdl"}); if (el) mark({"ela", "rege"}); break;
			default: n = "compute_userDefined"; compute_userDefined(r); ok = 1; break;
		}
		c.desc += n + (op == 3 || op == 8 || op == 13 ? (adv ? "(true)" : "(false)") : "") + "\n";
		if (ran[n]++) outOfOrder = true;
		c.checks++;
		if (want >= 0 && ok != want) fail(n + " returns " + std::to_string(ok) + ", expected " + std::to_string(want), "return");
	}
	r.update_symb_parameters();
	b.refresh();
	State x = genState(c.t, s.n, m.ne);
	c.desc += show(x);
	apply(b, x); apply(twin, x);
	auto need = [&](const char* what, bool (*is)(const std::string&)) {
		if (!have.count(what)) return;
		for (auto& f : twin.f) if (is(f.first)) { c.checks++; if (!b.has(f.first)) fail("function " + f.first + " is missing although it has been computed", "missing"); }
	};
	need("chain", isFrame); need("jac", isJac); need("adv", isAdv); need("mcg", isMCG); need("der", isDer); need("ela", isEla); need("dl", isDl);
	need("yr", isYr); need("rege", isRegE); need("regj", isRegJ);
	if (have.count("regdl") && twin.has("reg_dl") && !b.has("reg_dl")) fail("reg_dl is missing although it has been computed", "missing");
	for (auto& f : b.f) {
		auto t = twin.f.find(f.first);
		if (t == twin.f.end()) fail("function " + f.first + " exists only in the robot computed piece by piece");
		near(c, f.first + " computed piece by piece", b.get(f.first), twin.get(f.first), 1e-11);
		if (f.second.args != t->second.args) fail("arguments of " + f.first + " computed piece by piece");
		if (f.second.description != t->second.description) fail("description of " + f.first + " computed piece by piece");
	}
	for (auto& p : m.symb) if (p.first.compare(0, 4, "par_") == 0 && p.first != "par_REG") {
		bool ep = p.first == "par_K" || p.first == "par_D" || p.first == "par_Dm" || p.first == "par_Mm";
		if ((ep && !el) || (p.first == "par_Dl" && !fr)) continue;
		same(c, p.first + " of the robot computed piece by piece", b.r->get_arg(p.first), twin.r->get_arg(p.first), 0);
	}
	same(c, "par_DYN", b.r->get_par_DYN(), twin.r->get_par_DYN(), 0);
	same(c, "par_REG", b.r->get_par_REG(), twin.r->get_par_REG(), 0);
	if (outOfOrder && b.f.size() > 4) c.nontrivial = true;
}
