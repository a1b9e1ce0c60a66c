// C01..C13: the symbolic model against the reference mechanics.
#include "kit.h"
using namespace ref;
// the tolerances below are relative to the magnitudes of the case; none is sharper than this
static void approx(Ctx& c, const std::string& what, const Mat& got, const Mat& want, double tol, const std::string& key = "") { same(c, what, got, want, tol + 1e-14, key); }

static GenOpt opt(Ctx& c, int nmax = 4) {
	GenOpt o; o.nmax = nmax;
	(void)c;
	return o;
}
// one of the repository's own configurations, as it is or with other values; empty: not there
static std::string shipped(Ctx& c) {
	static const std::vector<std::string> small = {"RRR/RRR", "RRR_sea/seaRRR", "testRobots/R3"}, arms = {"testRobots/R5", "ego/egoRightArm", "franka/franka"};
	int k = c.t.draw(40);
	std::string f = env("PBT_REPO") + "/src/thunder/robots/" + (k < 36 ? small[k % 3] : arms[(k - 36) % 3]) + ".yaml";
	if (!fs::exists(f)) return "";
	c.desc += "shipped configuration " + fs::path(f).filename().string() + "\n";
	std::string text = readFile(f);
	if (!c.t.flip(2, 3)) return text;
	YAML::Node y = YAML::Load(text), z;
	auto other = [&](YAML::Node n, double scale) {          // the same list, some values replaced
		YAML::Node r;
		for (auto x : n) { double v = x.as<double>(); if (c.t.flip(1, 3)) v = c.t.real(scale); r.push_back(num(v)); }
		return r;
	};
	y["Base_to_L0"]["tr"] = other(y["Base_to_L0"]["tr"], 1);
	y["Ln_to_EE"]["tr"] = other(y["Ln_to_EE"]["tr"], 1);
	if (y["gravity"]) y["gravity"]["value"] = other(y["gravity"]["value"], 9.81);
	for (auto l : y["dynamics"]) {
		YAML::Node in = l.second["inertial"], s;
		for (auto q : {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"}) if (c.t.flip(1, 3)) in[q] = num(q[0] == 'm' ? c.t.pos_real(3) : c.t.real(1));
		for (int i = 0; i < 10; i++) s.push_back((int)c.t.draw(2));
		if (c.t.flip()) in["symb"] = s;
		if (l.second["friction"]) l.second["friction"]["Dl"] = other(l.second["friction"]["Dl"], 2);
	}
	YAML::Emitter e;
	e.SetSeqFormat(YAML::Flow);
	e << y;
	c.desc += std::string(e.c_str()) + "\n";
	return e.c_str();
}
// a robot and its model; dynamics pipelines are small, kinematics only may be long
static Bot robot(Ctx& c, Spec& s, GenOpt o, bool kinAllowed = false) {
	bool kin = false, lng = false;
	if (!o.physical && o.friction < 2 && o.elastic < 2 && c.t.flip(1, 40)) {
		std::string y = shipped(c);
		if (!y.empty()) {
			Bot b = makeBot(y, c.scratch + "/conf.yaml");
			s = Spec();
			s.n = b.m.n; s.type = b.m.type;
			classify(c, s, b.m);
			c.label("shipped configuration");
			return b;
		}
	}
	if (kinAllowed && c.t.flip(1, 3)) { kin = true; o.nmax = 12; }
	else if (c.t.flip(1, 60)) o.nmax = c.t.flip(1, 5) ? 8 : 6;
	else if ((lng = c.t.flip(1, 30))) c.label("long robot");
	s = lng ? genLong(c.t, o, 5, 10) : genSpec(c.t, o);
	Bot b = makeBot(c, s, kin);
	classify(c, s, b.m);
	return b;
}
static State state(Ctx& c, Bot& b) {
	State x = genState(c.t, b.m.n, b.m.ne);
	c.desc += show(x);
	apply(b, x, c.t.flip());
	return x;
}

PROPERTY(C01, "random robots (1-12 joints, R/P/SEA mixes, base/tool frames, any symb flags) and joint vectors; every T_i, T_0_i, T_0_ee against the matrix product. Non-trivial: at least 2 joints with a non-zero DH table and non-zero q") {
	Spec s; Bot b = robot(c, s, opt(c), true);
	int n = b.m.n;
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		double tol = 1e-11 * scaleOf(b.m, x).L;
		auto kpd = kp<double>(b.m);
		auto f = fk(b.m, kpd, x.q);
		approx(c, "T_0", b.get("T_0"), toMat(f[0]), tol);
		for (int i = 0; i < n; i++) approx(c, "T_" + std::to_string(i + 1), b.get("T_" + std::to_string(i + 1)), toMat(link(b.m, kpd, i, x.q[i])), tol);
		for (int i = 0; i <= n + 1; i++) approx(c, "T_0_" + std::to_string(i), b.get("T_0_" + std::to_string(i)), toMat(f[i]), tol);
		Mat T = b.get("T_0_ee");
		approx(c, "T_0_ee", T, toMat(f[n + 1]), tol);
		for (int i = 0; i <= n + 1; i++) {
			Mat A = b.get("T_0_" + std::to_string(i)), R = A.block(0, 0, 3, 3);
			approx(c, "R R^T of T_0_" + std::to_string(i), R * R.transpose(), Mat::Identity(3, 3), 1e-11);
			if (!(R.determinant() > 0)) fail("rotation of T_0_" + std::to_string(i) + " has determinant " + num(R.determinant()));
			Mat last(1, 4); last << 0, 0, 0, 1;
			approx(c, "last row", A.row(3), last, 0);
		}
		if (n >= 2 && asum(b.m.dh) > 0 && asum(x.q) > 0) c.nontrivial = true;
	}
}

PROPERTY(C02, "random robots and joint vectors; every J_i, J_cm_i, J_ee, J_{n+1} against dual-number differentiation of the reference kinematics. Non-trivial: at least 2 joints, non-zero q and a non-zero link length or offset") {
	Spec s; Bot b = robot(c, s, opt(c), true);
	int n = b.m.n;
	bool dyn = b.has("M");
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		auto kpd = kp<double>(b.m);
		auto J = jac(b.m, kpd, x.q), Jc = jac(b.m, kpd, x.q, true);
		for (int i = 0; i <= n; i++) approx(c, "J_" + std::to_string(i + 1), b.get("J_" + std::to_string(i + 1)), mat(J[i], 6, n), 1e-11 * sc.L);
		approx(c, "J_ee", b.get("J_ee"), mat(J[n], 6, n), 1e-11 * sc.L);
		for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) approx(c, "later column", b.get("J_" + std::to_string(i + 1)).col(j), Mat::Zero(6, 1), 0);
		if (dyn) for (int i = 0; i < n; i++) {
			const auto& p = b.m.dyn[i];
			double L = sc.L + std::fabs(p[1]) + std::fabs(p[2]) + std::fabs(p[3]);
			approx(c, "J_cm_" + std::to_string(i + 1), b.get("J_cm_" + std::to_string(i + 1)), mat(Jc[i], 6, n), 1e-11 * L);
		}
		if (n >= 2 && asum(x.q) > 0 && sc.L > 1) c.nontrivial = true;
	}
	c.label(dyn ? "with centres of mass" : "kinematics only");
}

PROPERTY(C03, "random robots and trajectories (q,dq,ddq); J_ee_dot and J_ee_ddot against Taylor arithmetic along the trajectory, J_ee_pinv against the damped inverse solved by Eigen, at singular configurations too. Non-trivial: non-zero velocity and J_ee_dot not zero") {
	Spec s; Bot b = robot(c, s, opt(c), true);
	int n = b.m.n;
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		for (int i = 0; i < n; i++) if (b.m.prism(i)) sc.L += 1;
		auto J = jac(b.m, kp<Tay>(b.m), traj(x.q, x.dq, x.ddq))[n];
		double nn = n, v = nn * sc.v, Lv = sc.L + v;   // prismatic velocities change lengths
		approx(c, "J_ee_dot", b.get("J_ee_dot"), part(J, 1, 6, n), 1e-11 * (sc.L * v + v));
		approx(c, "J_ee_ddot", b.get("J_ee_ddot"), part(J, 2, 6, n), 1e-11 * (Lv * v * (1 + v) + (sc.L + 1) * nn * sc.a));
		Mat Je = part(J, 0, 6, n), A = Je * Je.transpose() + 0.02 * Mat::Identity(6, 6);
		Mat want = A.ldlt().solve(Je).transpose();
		double cond = A.norm() / 0.02;
		approx(c, "J_ee_pinv", b.get("J_ee_pinv"), want, 1e-11 * cond * (1 + want.norm()) + 1e-13 * cond * cond * (1 + want.norm()));
		c.label(n < 6 ? "pinv n<6" : n == 6 ? "pinv n=6" : "pinv n>6");
		if (sc.v > 0 && part(J, 1, 6, n).norm() > 1e-6) c.nontrivial = true;
	}
}

static bool movers(const Bot& b, const State& x) { return b.m.n >= 2 && asum(x.q) > 0; }

PROPERTY(C04, "random robots (general inertias, a third physically consistent) and joint vectors; M against the sum of link kinetic energies by unit-velocity Newton-Euler and by centre-of-mass Jacobians, symmetry, positive definiteness for physical robots. Non-trivial: at least 2 joints, non-zero q, non-zero mass") {
	GenOpt o = opt(c); o.physical = c.t.flip(1, 3);
	Spec s; Bot b = robot(c, s, o);
	int n = b.m.n;
	Pi pi = reg_params(b.m);
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		Mat M = b.get("M");
		// kinetic energy, link by link
		auto Jc = jac(b.m, kp<double>(b.m), x.q, true);
		auto f = fk(b.m, kp<double>(b.m), x.q);
		Mat W = Mat::Zero(n, n);
		for (int i = 0; i < n; i++) {
			const auto& p = b.m.dyn[i];
			Mat J = mat(Jc[i], 6, n), R = toMat(f[i + 1]).block(0, 0, 3, 3), I(3, 3);
			I << p[4], p[5], p[6], p[5], p[7], p[8], p[6], p[8], p[9];
			W += p[0] * J.topRows(3).transpose() * J.topRows(3) + J.bottomRows(3).transpose() * (R * I * R.transpose()) * J.bottomRows(3);
		}
		approx(c, "M", M, W, 1e-11 * n * sc.S);
		approx(c, "M by Newton-Euler", M, mat(massT(b.m, kp<double>(b.m), pi, x.q), n, n), 1e-10 * n * sc.S);
		approx(c, "symmetry of M", M, M.transpose(), 1e-12 * n * sc.S);
		if (o.physical) {
			double e = Eigen::SelfAdjointEigenSolver<Mat>(M).eigenvalues()(0);
			// sum of positive semidefinite terms; strictly positive up to rounding
			if (!(e > -1e-11 * sc.S)) fail("M is not positive definite for positive masses and inertias: smallest eigenvalue " + num(e));
			c.label("physical");
		}
		if (movers(b, x) && b.m.dyn[n - 1][0] > 0) c.nontrivial = true;
	}
}

PROPERTY(C05, "random robots and states; C and C_std elementwise against Christoffel symbols from dual-number differentiation of the reference mass matrix, linearity in dq, skew symmetry of M_dot-2C. Non-trivial: at least 2 joints, non-zero velocity, C not zero") {
	Spec s; Bot b = robot(c, s, opt(c));
	int n = b.m.n;
	Pi pi = reg_params(b.m);
	for (int k = 0; k < 2; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		double tol = 1e-10 * n * n * sc.S * sc.v;
		Mat W = mat(corT(b.m, pi, x.q, x.dq), n, n);
		Mat C = b.get("C");
		approx(c, "C", C, W, tol);
		approx(c, "C_std", b.get("C_std"), W, tol);
		if (b.has("M_dot")) { Mat N = b.get("M_dot") - 2 * C; approx(c, "M_dot - 2C + its transpose", N + N.transpose(), Mat::Zero(n, n), tol); }
		Vec d2; double a = c.t.plain(2);
		for (double v : x.dq) d2.push_back(a * v);
		b.r->set_dq(ev(d2));
		approx(c, "C(a dq)", b.get("C"), a * C, tol * (1 + std::fabs(a)));
		b.r->set_dq(ev(x.dq));
		if (n >= 2 && W.norm() > 1e-6 * sc.S * sc.v && sc.v > 0) c.nontrivial = true;
	}
}

PROPERTY(C06, "random robots, base frames and gravity vectors (also none); G against the dual-number gradient of the reference potential energy, linear in gravity when gravity is symbolic. Non-trivial: gravity, mass and G not zero") {
	Spec s; Bot b = robot(c, s, opt(c));
	int n = b.m.n;
	Pi pi = reg_params(b.m);
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		Mat W = col(gravT(b.m, pi, x.q, b.m.g));
		approx(c, "G", b.get("G"), W, 1e-11 * n * sc.mL * sc.g);
		if (sc.g == 0) { approx(c, "G without gravity", b.get("G"), Mat::Zero(n, 1), 0); c.label("no gravity"); }
		if (W.norm() > 1e-9) c.nontrivial = true;
	}
	auto& gs = b.m.symb["par_gravity"];
	if (gs == std::vector<int>(3, 1)) {
		c.label("symbolic gravity");
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		double g2[3]; for (auto& v : g2) v = c.t.real(9.81);
		b.r->set_arg("par_gravity", ev(Vec(g2, g2 + 3)));
		approx(c, "G for changed gravity", b.get("G"), col(gravT(b.m, pi, x.q, g2)), 1e-11 * n * sc.mL * (asum(Vec(g2, g2 + 3))));
	}
}

PROPERTY(C07, "random robots and (q,dq,ddq); M ddq + C dq + G against recursive Newton-Euler, and the power balance d/dt(T+U) = dq^T tau by Taylor arithmetic on reference energies. Non-trivial: at least 2 joints with non-zero q, dq, ddq and torque") {
	Spec s; Bot b = robot(c, s, opt(c));
	int n = b.m.n;
	Pi pi = reg_params(b.m);
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		double tol = 1e-10 * n * n * (sc.S * (sc.a + sc.v * sc.v) + sc.mL * sc.g);
		Mat tau = b.get("M") * ev(x.ddq) + b.get("C") * ev(x.dq) + b.get("G");
		approx(c, "M ddq + C dq + G", tau, col(rnea(b.m, kp<double>(b.m), pi, x.q, x.dq, x.ddq, b.m.g)), tol);
		approx(c, "M ddq + C_std dq + G", Mat(b.get("M") * ev(x.ddq) + b.get("C_std") * ev(x.dq) + b.get("G")), tau, tol);
		// energy along the motion
		auto qt = traj(x.q, x.dq, x.ddq);
		auto f = fk(b.m, kp<Tay>(b.m), qt);
		std::vector<Tay> M = massT(b.m, kp<Tay>(b.m), pi, qt);
		Tay E(0.0);
		std::vector<Tay> v; for (int i = 0; i < n; i++) v.push_back(Tay(x.dq[i], x.ddq[i], 0));
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) E += M[i + n * j] * v[i] * v[j] * Tay(0.5);
		for (int i = 0; i < n; i++) {
			V3<Tay> h{{Tay(pi[i][1]), Tay(pi[i][2]), Tay(pi[i][3])}};
			V3<Tay> mc = f[i + 1].rot(h) + f[i + 1].p() * Tay(pi[i][0]);
			for (int d = 0; d < 3; d++) E += mc[d] * Tay(-b.m.g[d]);
		}
		double p = ev(x.dq).dot(EV(tau.col(0)));
		c.checks++;
		if (!(std::fabs(p - E.c[1]) <= tol * n * std::max(sc.v, 1e-300))) fail("power balance: dq^T tau = " + num(p) + " but dE/dt = " + num(E.c[1]));
		if (movers(b, x) && sc.v > 0 && sc.a > 0 && tau.norm() > 1e-9) c.nontrivial = true;
	}
}

PROPERTY(C08, "random robots and trajectories to the third derivative; M_dot, M_ddot, C_dot, C_ddot, G_dot, G_ddot against Taylor arithmetic. Non-trivial: at least 2 joints, all derivatives non-zero, C_ddot not zero") {
	GenOpt o = opt(c); o.nmax = 4;
	Spec s; Bot b = robot(c, s, o);
	int n = b.m.n;
	Pi pi = reg_params(b.m);
	for (int k = 0; k < 2; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(b.m, x);
		auto qt = traj(x.q, x.dq, x.ddq);
		std::vector<Tay> vt; for (int i = 0; i < n; i++) vt.push_back(Tay(x.dq[i], x.ddq[i], x.d3q[i] / 2));
		auto M = massT(b.m, kp<Tay>(b.m), pi, qt), C = corT(b.m, pi, qt, vt), G = gravT(b.m, pi, qt, b.m.g);
		double v = n * sc.v, a = n * sc.a, j = n * sc.j, t0 = 1e-10 * n * n;
		approx(c, "M_dot", b.get("M_dot"), part(M, 1, n, n), t0 * sc.S * v);
		approx(c, "M_ddot", b.get("M_ddot"), part(M, 2, n, n), t0 * sc.S * (v * v + a));
		approx(c, "C_dot", b.get("C_dot"), part(C, 1, n, n), t0 * sc.S * (v * v + a));
		approx(c, "C_ddot", b.get("C_ddot"), part(C, 2, n, n), t0 * sc.S * (v * v * v + v * a + j));
		approx(c, "G_dot", b.get("G_dot"), part(G, 1, n, 1), t0 * sc.mL * sc.g * v);
		approx(c, "G_ddot", b.get("G_ddot"), part(G, 2, n, 1), t0 * sc.mL * sc.g * (v * v + a));
		if (n >= 2 && v > 0 && a > 0 && j > 0 && part(C, 2, n, n).norm() > 1e-9) c.nontrivial = true;
	}
}

static Mat diagOf(const Vec& p, int rows, int order, int o) { Mat d = Mat::Zero(rows, rows); for (int i = 0; i < rows; i++) d(i, i) = p[i * order + o]; return d; }

// rounding allowed to par*v^p when v is the difference of two numbers of this total size (0: no difference)
static double powTol(double v, double size, int p, double par = 1) {
	double e = 1e-15 * size;
	return std::fabs(par) * (1e-12 * std::pow(std::fabs(v), p) + p * e * std::pow(std::fabs(v) + e, p - 1));
}
// every entry with a tolerance of its own, so that slow motions are judged by their own size
static void each(Ctx& c, const std::string& what, const Mat& got, const Mat& want, const Mat& tol, const std::string& key = "") {
	approx(c, what, got, want, tol.size() ? tol.maxCoeff() : 0, key);
	for (int i = 0; i < want.rows(); i++) for (int j = 0; j < want.cols(); j++)
		if (!(std::fabs(got(i, j) - want(i, j)) <= tol(i, j) + 1e-40)) fail(what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j)) + " (tolerance " + num(tol(i, j)) + ")", key);
}
// sometimes velocities and deflections far below the usual ones
static void slow(Ctx& c, Bot& b, State& x) {
	if (!c.t.flip(1, 3)) return;
	const Model& m = b.m;
	double s = std::vector<double>{1e-3, 1e-5, 1e-7, 1e-8}[c.t.draw(4)];
	for (auto& v : x.dq) if (c.t.flip(2, 3)) v *= s;
	for (int i = 0; i < m.ne; i++) {
		x.dx[i] = c.t.flip(1, 3) ? x.dx[i] * s : x.dq[m.ejoint[i]] + s * c.t.real(1);
		if (c.t.flip()) x.x[i] = x.q[m.ejoint[i]] + s * c.t.real(1);
	}
	c.desc += "slow\n" + show(x);
	apply(b, x, c.t.flip());
}
PROPERTY(C09, "random robots with link friction of order 1-4 (partially symbolic) and velocities of both signs; dl and Dl* against the sign-preserving power law, oddness, dependence on dq_i alone, dissipation. Non-trivial: order at least 2 and a negative velocity with non-zero coefficient") {
	GenOpt o = opt(c, 3); o.friction = 2; o.maxOrder = 5; o.elastic = c.t.flip(1, 4) ? 1 : 0;
	Spec s; Bot b = robot(c, s, o);
	int n = b.m.n, K = b.m.Dl_order;
	c.label("order " + std::to_string(K));
	auto law = [&](const Vec& dq) { Vec r(n, 0.0); for (int i = 0; i < n; i++) for (int q = 0; q < K; q++) r[i] += b.m.Dl[i * K + q] * oddpow(dq[i], q + 1); return r; };
	for (int k = 0; k < 4; k++) {
		State x = state(c, b);
		slow(c, b, x);
		Vec tv(n, 0.0);
		for (int i = 0; i < n; i++) for (int q = 0; q < K; q++) tv[i] += powTol(x.dq[i], 0, q + 1, b.m.Dl[i * K + q]);
		Mat dl = b.get("dl"), tol = col(tv);
		each(c, "dl", dl, col(law(x.dq)), tol);
		Vec neg = x.dq; for (auto& t : neg) t = -t;
		b.r->set_dq(ev(neg));
		each(c, "dl(-dq)", b.get("dl"), -dl, tol);
		for (int i = 0; i < n; i++) if (x.dq[i] < 0 && K >= 2 && b.m.Dl[i * K + 1] != 0) c.nontrivial = true;
	}
	for (int q = 0; q < K; q++) approx(c, "Dl" + std::to_string(q + 1), b.get("Dl" + std::to_string(q + 1)), diagOf(b.m.Dl, n, K, q), 0);
	if (b.has("Dl" + std::to_string(K + 1))) fail("there is a Dl matrix beyond the friction order");
}

PROPERTY(C10, "random elastic robots, rigid and elastic joints mixed in any order, orders 0-4, partially symbolic coefficients; k, d, dm, Mm, K*, D*, Dm* against the joint-indexed power laws. Non-trivial: a rigid joint precedes an elastic one, with non-zero deflection") {
	GenOpt o = opt(c, 4); o.sea = 2; o.elastic = 2; o.friction = c.t.flip(1, 4) ? 1 : 0;
	Spec s; Bot b = robot(c, s, o);
	const Model& m = b.m;
	int e = m.ne;
	bool shifted = false;
	for (int i = 0; i < e; i++) if (m.ejoint[i] != i) shifted = true;
	c.label(shifted ? "elastic index != joint index" : "elastic index == joint index");
	for (int k = 0; k < 4; k++) {
		State x = state(c, b);
		slow(c, b, x);
		Vec kk(e, 0.0), d(e, 0.0), dm(e, 0.0), tk = kk, td = kk, tm = kk;
		double dv = 0;
		for (int i = 0; i < e; i++) {
			int j = m.ejoint[i];
			double del = x.x[i] - x.q[j], v = x.dx[i] - x.dq[j], sx = std::fabs(x.x[i]) + std::fabs(x.q[j]), sv = std::fabs(x.dx[i]) + std::fabs(x.dq[j]);
			dv = std::max(dv, std::fabs(del));
			for (int q = 0; q < m.K_order; q++) { double p = m.K[i * m.K_order + q]; kk[i] += p * std::pow(del, 2 * q + 1); tk[i] += powTol(del, sx, 2 * q + 1, p); }
			for (int q = 0; q < m.D_order; q++) { double p = m.D[i * m.D_order + q]; d[i] += p * oddpow(v, q + 1); td[i] += powTol(v, sv, q + 1, p); }
			for (int q = 0; q < m.Dm_order; q++) { double p = m.Dm[i * m.Dm_order + q]; dm[i] += p * oddpow(x.dx[i], q + 1); tm[i] += powTol(x.dx[i], 0, q + 1, p); }
		}
		if (m.K_order) each(c, "k", b.get("k"), col(kk), col(tk), "elastic-index");
		if (m.D_order) each(c, "d", b.get("d"), col(d), col(td), "elastic-index");
		if (m.Dm_order) each(c, "dm", b.get("dm"), col(dm), col(tm));
		if (shifted && dv > 0) c.nontrivial = true;
	}
	for (int q = 0; q < m.K_order; q++) approx(c, "K" + std::to_string(2 * q + 1), b.get("K" + std::to_string(2 * q + 1)), diagOf(m.K, e, m.K_order, q), 0);
	for (int q = 0; q < m.D_order; q++) approx(c, "D" + std::to_string(q + 1), b.get("D" + std::to_string(q + 1)), diagOf(m.D, e, m.D_order, q), 0);
	for (int q = 0; q < m.Dm_order; q++) approx(c, "Dm" + std::to_string(q + 1), b.get("Dm" + std::to_string(q + 1)), diagOf(m.Dm, e, m.Dm_order, q), 0);
	approx(c, "Mm", b.get("Mm"), diagOf(m.Mm, e, 1, 0), 0);
}

PROPERTY(C11, "random robots and states with dqr, ddqr; Yr, reg_M, reg_C, reg_G column by column against Newton-Euler, Christoffel matrix and potential gradient of the unit parameter, and times the parameters against M ddqr + C dqr + G of the model. Non-trivial: at least 2 joints with non-zero q, dq, dqr, ddqr") {
	Spec s; Bot b = robot(c, s, opt(c, 3));
	const Model& m = b.m;
	int n = m.n;
	for (int k = 0; k < 2; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(m, x);
		double vr = amax(x.dqr), ar = amax(x.ddqr), L = (sc.L + 1) * (sc.L + 1);
		Mat Yr = b.get("Yr"), rM = b.get("reg_M"), rC = b.get("reg_C"), rG = b.get("reg_G");
		Mat wM(n, 10 * n), wC(n, 10 * n), wG(n, 10 * n);
		for (int p = 0; p < 10 * n; p++) {
			Pi pi(n); for (auto& l : pi) l.fill(0);
			pi[p / 10][p % 10] = 1;
			Mat M = mat(massT(m, kp<double>(m), pi, x.q), n, n), C = mat(corT(m, pi, x.q, x.dq), n, n);
			wM.col(p) = M * ev(x.ddqr); wC.col(p) = C * ev(x.dqr); wG.col(p) = col(gravT(m, pi, x.q, m.g));
		}
		double tM = 1e-10 * n * n * L * ar, tC = 1e-10 * n * n * n * L * vr * sc.v, tG = 1e-10 * n * sc.L * sc.g;
		approx(c, "reg_M", rM, wM, tM);
		approx(c, "reg_C", rC, wC, tC);
		approx(c, "reg_G", rG, wG, tG);
		approx(c, "Yr", Yr, wM + wC + wG, tM + tC + tG);
		Vec pv; for (auto& l : reg_params(m)) for (double v : l) pv.push_back(v);
		double tau = 1e-10 * n * n * n * (sc.S * (ar + vr * sc.v) + sc.mL * sc.g);
		Mat t1 = b.get("M") * ev(x.ddqr) + b.get("C") * ev(x.dqr) + b.get("G");
		approx(c, "Yr par_REG", Yr * ev(pv), t1, tau);
		Vec pr = vec(b.r->get_par_REG());
		if (pr.size() != pv.size()) fail("get_par_REG has the wrong length");
		approx(c, "Yr get_par_REG", Yr * ev(pr), t1, tau);
		if (movers(b, x) && sc.v > 0 && vr > 0 && ar > 0) c.nontrivial = true;
	}
}

// expected derivative of a power-law vector with respect to its symbolic coefficients
static Mat regOf(int rows, int order, const std::vector<int>& flags, std::function<double(int, int)> basis) {
	int k = 0; for (int i = 0; i < rows * order; i++) k += flags[i] ? 1 : 0;
	Mat R = Mat::Zero(rows, k);
	int cidx = 0;
	for (int i = 0; i < rows; i++) for (int q = 0; q < order; q++) if (flags[i * order + q]) R(i, cidx++) = basis(i, q);
	return R;
}
PROPERTY(C12, "random robots with friction and elastic coefficients of arbitrary symbolic patterns; reg_dl, reg_k, reg_d, reg_dm, reg_Mm against the basis functions of the power laws, one column per symbolic coefficient, existence rule. Non-trivial: a partially symbolic coefficient vector with non-zero velocity") {
	GenOpt o = opt(c, 3); o.friction = 2; o.sea = c.t.flip(3, 4) ? 2 : 0; o.elastic = 2;
	Spec s; Bot b = robot(c, s, o);
	const Model& m = b.m;
	int n = m.n, e = m.ne;
	auto flags = [&](const char* p, int k) { auto it = m.symb.find(p); std::vector<int> f = it == m.symb.end() ? std::vector<int>() : it->second; f.resize(k, 0); return f; };
	auto fl = flags("par_Dl", n * m.Dl_order), fk_ = flags("par_K", e * m.K_order), fd = flags("par_D", e * m.D_order), fm = flags("par_Dm", e * m.Dm_order), fM = flags("par_Mm", e);
	if (someFlag(fl) || someFlag(fk_) || someFlag(fd) || someFlag(fm) || someFlag(fM)) { c.label("partial coefficients"); }
	auto exist = [&](const char* f, bool want) { c.checks++; if (b.has(f) != want) fail(std::string(f) + (want ? " is missing although a coefficient is symbolic" : " exists although no coefficient is symbolic")); };
	exist("reg_dl", anyFlag(fl));
	exist("reg_k", m.ELASTIC && anyFlag(fk_)); exist("reg_d", m.ELASTIC && anyFlag(fd)); exist("reg_dm", m.ELASTIC && anyFlag(fm)); exist("reg_Mm", m.ELASTIC && anyFlag(fM));
	for (int k = 0; k < 3; k++) {
		State x = state(c, b);
		slow(c, b, x);
		double big = 1;
		for (int i = 0; i < e; i++) { big = std::max(big, std::fabs(x.x[i]) + amax(x.q)); big = std::max(big, std::fabs(x.dx[i]) + amax(x.dq)); }
		big = std::max(big, amax(x.dq));
		auto del = [&](int i) { return x.x[i] - x.q[m.ejoint[i]]; };
		auto vel = [&](int i) { return x.dx[i] - x.dq[m.ejoint[i]]; };
		auto sx = [&](int i) { return std::fabs(x.x[i]) + std::fabs(x.q[m.ejoint[i]]); };
		auto sv = [&](int i) { return std::fabs(x.dx[i]) + std::fabs(x.dq[m.ejoint[i]]); };
		if (anyFlag(fl)) each(c, "reg_dl", b.get("reg_dl"), regOf(n, m.Dl_order, fl, [&](int i, int q) { return oddpow(x.dq[i], q + 1); }), regOf(n, m.Dl_order, fl, [&](int i, int q) { return powTol(x.dq[i], 0, q + 1); }));
		if (m.ELASTIC && anyFlag(fk_)) each(c, "reg_k", b.get("reg_k"), regOf(e, m.K_order, fk_, [&](int i, int q) { return std::pow(del(i), 2 * q + 1); }), regOf(e, m.K_order, fk_, [&](int i, int q) { return powTol(del(i), sx(i), 2 * q + 1); }), "elastic-index");
		if (m.ELASTIC && anyFlag(fd)) each(c, "reg_d", b.get("reg_d"), regOf(e, m.D_order, fd, [&](int i, int q) { return oddpow(vel(i), q + 1); }), regOf(e, m.D_order, fd, [&](int i, int q) { return powTol(vel(i), sv(i), q + 1); }), "elastic-index");
		if (m.ELASTIC && anyFlag(fm)) each(c, "reg_dm", b.get("reg_dm"), regOf(e, m.Dm_order, fm, [&](int i, int q) { return oddpow(x.dx[i], q + 1); }), regOf(e, m.Dm_order, fm, [&](int i, int q) { return powTol(x.dx[i], 0, q + 1); }));
		if (m.ELASTIC && anyFlag(fM)) approx(c, "reg_Mm", b.get("reg_Mm"), regOf(e, 1, fM, [&](int i, int) { return x.ddx[i]; }), 1e-12 * big);
		if ((someFlag(fl) || someFlag(fk_) || someFlag(fd) || someFlag(fm) || someFlag(fM)) && big > 1) c.nontrivial = true;
	}
}

PROPERTY(C13, "random robots with any symbolic pattern of DH, base and tool parameters; reg_Jdq and reg_JTw column by column against dual-number differentiation of the reference Jacobian with respect to that parameter. Non-trivial: at least 2 joints, at least 2 symbolic entries from different parameters, non-zero dq and w") {
	Spec s; Bot b = robot(c, s, opt(c, 4));
	const Model& m = b.m;
	int n = m.n;
	struct P { int kind, i; };
	std::vector<P> ps;
	const char* names[3] = {"par_DHtable", "par_world2L0", "par_Ln2EE"};
	int kinds = 0;
	for (int k = 0; k < 3; k++) { auto f = m.symb.at(names[k]); bool any = false; for (size_t i = 0; i < f.size(); i++) if (f[i]) { ps.push_back({k, (int)i}); any = true; } kinds += any; }
	c.checks++;
	if (b.has("reg_Jdq") != !ps.empty() || b.has("reg_JTw") != !ps.empty()) fail("kinematic regressors exist exactly when a kinematic parameter is symbolic: violated");
	if (ps.empty()) { c.label("no symbolic kinematics"); return; }
	for (int k = 0; k < 2; k++) {
		State x = state(c, b);
		Scale sc = scaleOf(m, x);
		Mat wJ(6, ps.size()), wT(n, ps.size());
		typedef Dual<double> D;
		for (size_t p = 0; p < ps.size(); p++) {
			KP<D> kd = kp<D>(m);
			D& v = ps[p].kind == 0 ? kd.dh[ps[p].i] : ps[p].kind == 1 ? kd.base[ps[p].i] : kd.tool[ps[p].i];
			v.b = 1.0;
			std::vector<D> q(x.q.begin(), x.q.end());
			auto J = jac(m, kd, q)[n];
			Mat dJ(6, n); for (int i = 0; i < 6 * n; i++) dJ(i % 6, i / 6) = J[i].b;
			wJ.col(p) = dJ * ev(x.dq); wT.col(p) = dJ.transpose() * ev(x.w);
		}
		approx(c, "reg_Jdq", b.get("reg_Jdq"), wJ, 1e-11 * n * sc.L * sc.v);
		approx(c, "reg_JTw", b.get("reg_JTw"), wT, 1e-11 * 6 * sc.L * amax(x.w));
		if (n >= 2 && kinds >= 2 && sc.v > 0 && amax(x.w) > 0) c.nontrivial = true;
	}
}
