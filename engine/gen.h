// Random robot configurations and states.
#pragma once
#include "tape.h"
#include <sstream>

typedef std::vector<double> Vec;
typedef std::vector<int> IVec;

struct OptFlags { bool present = false; IVec f; };       // optional symb field
struct Link {
	std::string name;
	double p[10];
	OptFlags symb;
	bool hasFric = false;
	Vec Dl;
	OptFlags fsymb;
};
struct EJoint { std::string name; Vec K, D, Dm; double Mm = 0; OptFlags Ks, Ds, Dms; bool hasMms = false; int Mms = 0; };
struct Frame { double v[6]; OptFlags symb; };
struct Spec {
	int n = 1;
	std::vector<std::string> type;
	Vec dh;
	OptFlags dhs;
	Frame base, tool;
	bool hasG = true; double g[3] = {0, 0, 0}; OptFlags gs;
	int Dl_order = 0; bool writeDl = true;
	bool writeEla = false, elastic = false;
	int K_order = 0, D_order = 0, Dm_order = 0;
	std::vector<EJoint> ej;
	std::vector<Link> links;
	int nSEA() const { int s = 0; for (auto& t : type) s += t.size() > 1; return s; }
};

enum SymbMode { SYMB_NONE, SYMB_ANY, SYMB_ALL };
struct GenOpt {
	int nmin = 1, nmax = 4;
	int sea = 1;            // 0 no SEA joints, 1 sometimes, 2 always at least one
	int elastic = 1;        // 0 never, 1 sometimes (when there are SEA joints), 2 always when SEA joints
	int friction = 1;       // 0 never, 1 sometimes, 2 always
	int maxOrder = 4;
	SymbMode symb = SYMB_ANY;
	bool physical = false;  // positive masses, positive definite inertias
	bool massNonzero = false;
	double len = 1.0;
	bool optional = true;   // omit optional fields sometimes
	bool extraLinks = true; // links beyond n
};

inline OptFlags genFlags(Tape& t, int k, SymbMode mode, bool optional = true) {
	OptFlags o;
	int m = mode == SYMB_NONE ? (int)t.draw(2) : mode == SYMB_ALL ? 2 : (int)t.draw(5);
	if (m == 0 && !optional) m = 1;
	if (m == 0) return o;
	o.present = true;
	o.f.assign(k, 0);
	if (m == 1) return o;
	if (m == 2) o.f.assign(k, 1);
	if (m >= 3) for (auto& x : o.f) x = t.draw(2);
	return o;
}
inline Frame genFrame(Tape& t, const GenOpt& o) {
	Frame f;
	int kind = t.draw(5);
	for (int i = 0; i < 3; i++) f.v[i] = kind == 0 || kind == 4 ? 0.0 : t.real(o.len);
	for (int i = 3; i < 6; i++) f.v[i] = kind <= 1 ? 0.0 : t.angle();
	f.symb = genFlags(t, 6, o.symb, o.optional);
	return f;
}
inline void genInertia(Tape& t, double* p, bool physical, bool nonzero) {
	double ms[] = {1.0, 0.05, 20.0};
	double m = t.pos_real(ms[t.draw(3)]);
	if (!physical && !nonzero && t.flip(1, 15)) m = 0;
	if (!physical && t.flip(1, 10)) { double f[] = {1e-3, 1e-6, 1e-9, -1}; m *= f[t.draw(4)]; }      // very light, or negative as identified parameters may be
	p[0] = m;
	for (int i = 1; i < 4; i++) p[i] = t.real(0.5);
	if (physical) {
		// A A^T + small diagonal, shifted to satisfy the triangle inequality
		double a[3][3];
		for (auto& r : a) for (auto& x : r) x = t.plain(0.3);
		double s[3][3];
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s[i][j] = i == j ? 0.01 : 0; for (int k = 0; k < 3; k++) s[i][j] += a[i][k] * a[j][k]; }
		double tr = s[0][0] + s[1][1] + s[2][2];
		p[4] = tr - s[0][0]; p[5] = -s[0][1]; p[6] = -s[0][2]; p[7] = tr - s[1][1]; p[8] = -s[1][2]; p[9] = tr - s[2][2];
	} else for (int i = 4; i < 10; i++) p[i] = t.real(0.5);
}
inline Spec genSpec(Tape& t, const GenOpt& o) {
	Spec s;
	s.n = t.range(o.nmin, o.nmax);
	int style = t.draw(3);                                   // 0 all revolute, 1 mixed R/P, 2 mixed
	bool sea = o.sea == 2 || (o.sea == 1 && t.flip());
	for (int i = 0; i < s.n; i++) {
		bool P = style > 0 && t.flip(2, 5);
		bool E = sea && t.flip(3, 5);
		s.type.push_back(std::string(P ? "P" : "R") + (E ? "_SEA" : ""));
	}
	if (o.sea == 2 && s.nSEA() == 0) s.type[t.draw(s.n)] += "_SEA";
	for (int i = 0; i < s.n; i++) { s.dh.push_back(t.real(o.len)); s.dh.push_back(t.angle()); s.dh.push_back(t.real(o.len)); s.dh.push_back(t.angle()); }
	s.dhs = genFlags(t, 4 * s.n, o.symb, o.optional);
	s.base = genFrame(t, o);
	s.tool = genFrame(t, o);
	s.hasG = !o.optional || !t.flip(1, 8);
	if (s.hasG) {
		int gk = t.draw(3);
		for (int i = 0; i < 3; i++) s.g[i] = gk == 0 ? (i == 2 ? -9.81 : 0.0) : t.real(9.81);
		s.gs = genFlags(t, 3, o.symb, o.optional);
	}
	bool fric = o.friction == 2 || (o.friction == 1 && t.flip());
	s.Dl_order = fric ? t.range(1, o.maxOrder) : 0;
	s.writeDl = fric || !o.optional || t.flip();
	bool el = s.nSEA() > 0 && (o.elastic == 2 || (o.elastic == 1 && t.flip(2, 3)));
	s.elastic = el;
	s.writeEla = el || (o.optional && t.flip(1, 4));
	if (el) {
		s.K_order = t.range(0, o.maxOrder - 1); s.D_order = t.range(0, o.maxOrder); s.Dm_order = t.range(0, o.maxOrder);
		if (o.elastic == 2 && !t.flip(1, 8)) { s.K_order = std::max(1, s.K_order); }
		int ne = s.nSEA() + (o.extraLinks && t.flip(1, 10) ? 1 : 0);
		for (int i = 0; i < ne; i++) {
			EJoint e;
			e.name = "joint" + std::to_string(i + 1);
			for (int k = 0; k < s.K_order; k++) e.K.push_back(t.real(10));
			for (int k = 0; k < s.D_order; k++) e.D.push_back(t.real(2));
			for (int k = 0; k < s.Dm_order; k++) e.Dm.push_back(t.real(2));
			e.Mm = t.real(1);
			e.Ks = genFlags(t, s.K_order, o.symb, o.optional); e.Ds = genFlags(t, s.D_order, o.symb, o.optional); e.Dms = genFlags(t, s.Dm_order, o.symb, o.optional);
			OptFlags mm = genFlags(t, 1, o.symb, o.optional);
			e.hasMms = mm.present; e.Mms = mm.present ? mm.f[0] : 0;
			s.ej.push_back(e);
		}
	}
	int nl = s.n + (o.extraLinks && t.flip(1, 12) ? 1 : 0);
	for (int i = 0; i < nl; i++) {
		Link l;
		l.name = "link" + std::to_string(i + 1);
		genInertia(t, l.p, o.physical, o.massNonzero);
		l.symb = genFlags(t, 10, o.symb, o.optional);
		// friction data is optional for the loader, with the order given it is mandatory for the parser
		l.hasFric = s.Dl_order > 0 || t.flip(1, 3);
		if (l.hasFric) {
			int k = std::max(1, s.Dl_order) + (t.flip(1, 8) ? 1 : 0);
			for (int j = 0; j < k; j++) l.Dl.push_back(t.real(2));
			if (s.Dl_order > 0) l.fsymb = genFlags(t, s.Dl_order, o.symb, o.optional);
		}
		s.links.push_back(l);
	}
	return s;
}

// robots with many joints whose equations stay short: few revolute joints, mostly zero DH rows, few symbolic geometry entries
inline Spec genLong(Tape& t, GenOpt o, int lo, int hi) {
	o.nmin = lo; o.nmax = hi;
	Spec s = genSpec(t, o);
	int a = t.draw(s.n), b = t.draw(s.n);
	for (int i = 0; i < s.n; i++) {
		s.type[i] = (i == a || i == b ? "R" : "P") + (s.type[i].size() > 1 ? s.type[i].substr(1) : std::string());
		bool keep = t.flip(1, 5);
		for (int k = 0; k < 4; k++) {
			if (!(keep || k == 0 || k == 2)) s.dh[4 * i + k] = 0;
			if (s.dhs.present) s.dhs.f[4 * i + k] = s.dhs.f[4 * i + k] && (k == 0 || k == 2) && keep;
		}
		s.dh[4 * i + 1] = keep && t.flip() ? M_PI_2 : s.dh[4 * i + 1] == 0 ? 0 : t.pick(std::vector<double>{0, M_PI_2, -M_PI_2});
		if (i != a && i != b) s.dh[4 * i + 3] = 0;
	}
	for (auto f : {&s.base, &s.tool}) if (f->symb.present) for (int k = 3; k < 6; k++) f->symb.f[k] = 0;
	return s;
}

inline std::string list(const Vec& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + num(v[i]); return r + "]"; }
inline std::string list(const IVec& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + std::to_string(v[i]); return r + "]"; }

inline std::string toYaml(const Spec& s) {
	static const char* keys[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	std::ostringstream o;
	o << "num_joints: " << s.n << "\ntype_joints: [";
	for (int i = 0; i < s.n; i++) o << (i ? ", " : "") << s.type[i];
	o << "]\n";
	if (s.writeDl) o << "Dl_order: " << s.Dl_order << "\n";
	if (s.writeEla) o << "ELASTIC_MODEL: " << (s.elastic ? "true" : "false") << "\n";
	o << "kinematics:\n  DH: " << list(s.dh) << "\n";
	if (s.dhs.present) o << "  symb: " << list(s.dhs.f) << "\n";
	if (s.hasG) {
		o << "gravity:\n  value: " << list(Vec(s.g, s.g + 3)) << "\n";
		if (s.gs.present) o << "  symb: " << list(s.gs.f) << "\n";
	}
	for (int k = 0; k < 2; k++) {
		const Frame& f = k ? s.tool : s.base;
		o << (k ? "Ln_to_EE:\n" : "Base_to_L0:\n") << "  tr: " << list(Vec(f.v, f.v + 3)) << "\n  ypr: " << list(Vec(f.v + 3, f.v + 6)) << "\n";
		if (f.symb.present) o << "  symb: " << list(f.symb.f) << "\n";
	}
	o << "dynamics:\n";
	for (auto& l : s.links) {
		o << "  " << l.name << ":\n    inertial:\n";
		if (l.symb.present) o << "      symb: " << list(l.symb.f) << "\n";
		for (int k = 0; k < 10; k++) o << "      " << keys[k] << ": " << num(l.p[k]) << "\n";
		if (l.hasFric) {
			o << "    friction:\n      Dl: " << list(l.Dl) << "\n";
			if (l.fsymb.present) o << "      symb: " << list(l.fsymb.f) << "\n";
		}
	}
	if (s.elastic) {
		o << "elastic:\n  K_order: " << s.K_order << "\n  D_order: " << s.D_order << "\n  Dm_order: " << s.Dm_order << "\n  joints:\n";
		for (auto& e : s.ej) {
			o << "    " << e.name << ":\n";
			if (s.K_order) o << "      K: " << list(e.K) << "\n";
			if (s.D_order) o << "      D: " << list(e.D) << "\n";
			if (s.Dm_order) o << "      Dm: " << list(e.Dm) << "\n";
			o << "      Mm: " << num(e.Mm) << "\n";
			if (e.Ks.present && s.K_order) o << "      K_symb: " << list(e.Ks.f) << "\n";
			if (e.Ds.present && s.D_order) o << "      D_symb: " << list(e.Ds.f) << "\n";
			if (e.Dms.present && s.Dm_order) o << "      Dm_symb: " << list(e.Dms.f) << "\n";
			if (e.hasMms) o << "      Mm_symb: " << e.Mms << "\n";
		}
	}
	return o.str();
}

struct State { Vec q, dq, ddq, d3q, dqr, ddqr, x, dx, ddx, ddxr, w; };
inline Vec genVec(Tape& t, int n, double s, bool ang = false) {
	Vec v;
	int kind = t.draw(6);                      // 0: zero vector
	for (int i = 0; i < n; i++) v.push_back(kind == 0 ? 0.0 : ang ? t.angle() : t.real(s));
	return v;
}
// the vector as it is, with one new entry, or with entries a few units in the last place (or a little more) away
inline void nearby(Tape& t, Vec& v) {
	if (v.empty()) return;
	int kind = t.draw(4);
	if (kind == 1) v[t.draw(v.size())] = t.real(2);
	if (kind >= 2) {
		double rel = std::vector<double>{1e-15, 1e-13, 1e-10, 1e-7}[t.draw(4)];
		for (auto& x : v) if (t.flip(2, 3)) x = x == 0 ? (t.flip(1, 4) ? rel : 0.0) : x * (1 + rel * (1 + t.draw(4)));
	}
}
inline State genState(Tape& t, int n, int ne) {
	double vs[] = {1.0, 3.0, 0.1, 20.0, 1e-6};
	double s = vs[t.draw(5)];
	State x;
	x.q = genVec(t, n, 1, true);
	x.dq = genVec(t, n, s); x.ddq = genVec(t, n, s); x.d3q = genVec(t, n, s);
	x.dqr = genVec(t, n, s); x.ddqr = genVec(t, n, s);
	x.x = genVec(t, ne, 1, true); x.dx = genVec(t, ne, s); x.ddx = genVec(t, ne, s); x.ddxr = genVec(t, ne, s);
	x.w = genVec(t, 6, s);
	return x;
}
inline std::string show(const State& s) {
	std::string r;
	auto a = [&](const char* k, const Vec& v) { r += std::string(k) + ": " + list(v) + "\n"; };
	a("q", s.q); a("dq", s.dq); a("ddq", s.ddq); a("d3q", s.d3q); a("dqr", s.dqr); a("ddqr", s.ddqr); a("x", s.x); a("dx", s.dx); a("ddx", s.ddx); a("ddxr", s.ddxr); a("w", s.w);
	return r;
}
