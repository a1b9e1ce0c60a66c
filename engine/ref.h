// Independent reference model. Parses the configuration text itself and uses textbook mechanics plus jets.
#pragma once
#include <yaml-cpp/yaml.h>
#include <Eigen/Dense>
#include <array>
#include <map>
#include <string>
#include <vector>
#include "jets.h"

namespace ref {

struct Model {
	int n = 0, ne = 0;
	std::vector<std::string> type;
	std::vector<int> ela;                         // elastic flag per joint
	std::vector<int> ejoint;                      // joint index of each elastic joint
	std::vector<double> dh;                       // n x (a, alpha, d, theta)
	double base[6], tool[6], g[3];
	std::vector<std::array<double, 10>> dyn;      // m, c(3), barycentric I (xx xy xz yy yz zz)
	int Dl_order = 0, K_order = 0, D_order = 0, Dm_order = 0;
	bool ELASTIC = false;
	std::vector<double> Dl, K, D, Dm, Mm;
	std::map<std::string, std::vector<int>> symb;
	bool prism(int j) const { return type[j][0] == 'P'; }
};

inline std::vector<int> flags(const YAML::Node& n, int k) {
	std::vector<int> v = n ? n.as<std::vector<int>>() : std::vector<int>(k, 0);
	v.resize(k, 0);
	return v;
}
inline Model parse(const std::string& text) {
	YAML::Node y = YAML::Load(text);
	const YAML::Node& c = y;
	Model m;
	m.n = c["num_joints"].as<int>();
	m.type = c["type_joints"].as<std::vector<std::string>>();
	for (int i = 0; i < m.n; i++) {
		int e = m.type[i].size() > 1;
		m.ela.push_back(e);
		if (e) m.ejoint.push_back(i);
	}
	m.ne = m.ejoint.size();
	m.dh = c["kinematics"]["DH"].as<std::vector<double>>();
	m.symb["par_DHtable"] = flags(c["kinematics"]["symb"], 4 * m.n);
	const char* fr[2] = {"Base_to_L0", "Ln_to_EE"};
	for (int f = 0; f < 2; f++) {
		double* o = f ? m.tool : m.base;
		auto t = c[fr[f]]["tr"].as<std::vector<double>>(), a = c[fr[f]]["ypr"].as<std::vector<double>>();
		for (int i = 0; i < 3; i++) { o[i] = t[i]; o[i + 3] = a[i]; }
		m.symb[f ? "par_Ln2EE" : "par_world2L0"] = flags(c[fr[f]]["symb"], 6);
	}
	for (int i = 0; i < 3; i++) m.g[i] = 0;
	if (c["gravity"]) {
		auto g = c["gravity"]["value"].as<std::vector<double>>();
		for (int i = 0; i < 3; i++) m.g[i] = g[i];
		m.symb["par_gravity"] = flags(c["gravity"]["symb"], 3);
	} else m.symb["par_gravity"] = std::vector<int>(3, 0);
	m.Dl_order = c["Dl_order"] ? c["Dl_order"].as<int>() : 0;
	static const char* keys[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	std::vector<int> sd, sf;
	for (const auto& l : c["dynamics"]) {
		if ((int)m.dyn.size() == m.n) break;
		const YAML::Node in = l.second["inertial"];
		std::array<double, 10> p;
		for (int k = 0; k < 10; k++) p[k] = in[keys[k]].as<double>();
		m.dyn.push_back(p);
		for (int s : flags(in["symb"], 10)) sd.push_back(s);
		const YAML::Node fr = l.second["friction"];
		std::vector<double> d(m.Dl_order, 0.0);
		if (fr) { auto q = fr["Dl"].as<std::vector<double>>(); for (int o = 0; o < m.Dl_order; o++) d[o] = q[o]; }
		for (double x : d) m.Dl.push_back(x);
		std::vector<int> f2 = fr ? flags(fr["symb"], m.Dl_order) : std::vector<int>(m.Dl_order, 0);
		for (int s : f2) sf.push_back(s);
	}
	m.symb["par_DYN"] = sd;
	m.symb["par_Dl"] = sf;
	m.ELASTIC = c["ELASTIC_MODEL"] && c["ELASTIC_MODEL"].as<bool>();
	if (m.ELASTIC) {
		const YAML::Node e = c["elastic"];
		m.K_order = e["K_order"].as<int>(); m.D_order = e["D_order"].as<int>(); m.Dm_order = e["Dm_order"].as<int>();
		int i = 0;
		for (const auto& j : e["joints"]) {
			if (i++ == m.ne) break;
			auto rd = [&](const char* k, int o, std::vector<double>& out, const char* sk, const char* arg) {
				if (o > 0) { auto v = j.second[k].as<std::vector<double>>(); for (int q = 0; q < o; q++) out.push_back(v[q]); }
				for (int s : flags(j.second[sk], o)) m.symb[arg].push_back(s);
			};
			rd("K", m.K_order, m.K, "K_symb", "par_K"); rd("D", m.D_order, m.D, "D_symb", "par_D"); rd("Dm", m.Dm_order, m.Dm, "Dm_symb", "par_Dm");
			m.Mm.push_back(j.second["Mm"].as<double>());
			m.symb["par_Mm"].push_back(j.second["Mm_symb"] ? j.second["Mm_symb"].as<int>() : 0);
		}
	}
	return m;
}

// full numeric value of a parameter by its model name
inline std::vector<double> param(const Model& m, const std::string& p) {
	if (p == "par_DHtable") return m.dh;
	if (p == "par_world2L0") return std::vector<double>(m.base, m.base + 6);
	if (p == "par_Ln2EE") return std::vector<double>(m.tool, m.tool + 6);
	if (p == "par_gravity") return std::vector<double>(m.g, m.g + 3);
	if (p == "par_DYN") { std::vector<double> v; for (auto& l : m.dyn) for (double x : l) v.push_back(x); return v; }
	if (p == "par_Dl") return m.Dl;
	if (p == "par_K") return m.K;
	if (p == "par_D") return m.D;
	if (p == "par_Dm") return m.Dm;
	return m.Mm;
}

// ---- small fixed algebra, generic scalar ----
template <class T> struct V3 { T v[3]; T& operator[](int i) { return v[i]; } const T& operator[](int i) const { return v[i]; } };
template <class T> V3<T> operator+(const V3<T>& a, const V3<T>& b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
template <class T> V3<T> operator-(const V3<T>& a, const V3<T>& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
template <class T> V3<T> operator*(const V3<T>& a, const T& s) { return {{a[0] * s, a[1] * s, a[2] * s}}; }
template <class T> V3<T> cross(const V3<T>& a, const V3<T>& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
template <class T> T dot(const V3<T>& a, const V3<T>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
template <class T> struct H4 {                    // homogeneous transform
	T m[4][4];
	H4() { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = T(i == j ? 1.0 : 0.0); }
	V3<T> p() const { return {{m[0][3], m[1][3], m[2][3]}}; }
	V3<T> col(int j) const { return {{m[0][j], m[1][j], m[2][j]}}; }
	V3<T> rot(const V3<T>& x) const { V3<T> r; for (int i = 0; i < 3; i++) r[i] = m[i][0] * x[0] + m[i][1] * x[1] + m[i][2] * x[2]; return r; }
};
template <class T> H4<T> operator*(const H4<T>& a, const H4<T>& b) {
	H4<T> r;
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { T s(0.0); for (int k = 0; k < 4; k++) s += a.m[i][k] * b.m[k][j]; r.m[i][j] = s; }
	return r;
}
template <class T> H4<T> rotAxis(int ax, const T& t) {   // rotation about a coordinate axis
	using std::sin; using std::cos;
	H4<T> r; int i = (ax + 1) % 3, j = (ax + 2) % 3;
	r.m[i][i] = cos(t); r.m[j][j] = cos(t); r.m[i][j] = -sin(t); r.m[j][i] = sin(t);
	return r;
}
template <class T> H4<T> trans(const T& x, const T& y, const T& z) { H4<T> r; r.m[0][3] = x; r.m[1][3] = y; r.m[2][3] = z; return r; }

template <class T> struct KP { std::vector<T> dh; std::vector<T> base, tool; };
template <class T> KP<T> kp(const Model& m) {
	KP<T> k;
	for (double x : m.dh) k.dh.push_back(T(x));
	for (int i = 0; i < 6; i++) { k.base.push_back(T(m.base[i])); k.tool.push_back(T(m.tool[i])); }
	return k;
}
template <class T> H4<T> frame6(const std::vector<T>& f) { return trans(f[0], f[1], f[2]) * rotAxis(2, f[3]) * rotAxis(1, f[4]) * rotAxis(0, f[5]); }
template <class T> H4<T> link(const Model& m, const KP<T>& k, int i, const T& q) {
	T a = k.dh[4 * i], al = k.dh[4 * i + 1], d = k.dh[4 * i + 2], th = k.dh[4 * i + 3];
	if (m.prism(i)) d = d + q; else th = th + q;
	return trans(a, T(0.0), T(0.0)) * rotAxis(0, al) * trans(T(0.0), T(0.0), d) * rotAxis(2, th);
}
// absolute transforms: [0] base, [1..n] links, [n+1] end effector
template <class T> std::vector<H4<T>> fk(const Model& m, const KP<T>& k, const std::vector<T>& q) {
	std::vector<H4<T>> r{frame6(k.base)};
	for (int i = 0; i < m.n; i++) r.push_back(r.back() * link(m, k, i, q[i]));
	r.push_back(r.back() * frame6(k.tool));
	return r;
}

// twist (v of the point with constant local coordinates c, omega), as seen by the dual direction of the transform
template <class T> void twist(const H4<Dual<T>>& h, const double* c, T* out) {
	V3<Dual<T>> cl{{Dual<T>(c[0]), Dual<T>(c[1]), Dual<T>(c[2])}};
	V3<Dual<T>> p = h.p() + h.rot(cl);
	for (int i = 0; i < 3; i++) out[i] = p[i].b;
	auto S = [&](int i, int j) { T s(0.0); for (int k = 0; k < 3; k++) s += h.m[i][k].b * h.m[j][k].a; return s; };
	out[3] = S(2, 1); out[4] = S(0, 2); out[5] = S(1, 0);
}
// Jacobians of frames 1..n+1 (ee); cm: of the centres of mass of links 1..n
template <class T> std::vector<std::vector<T>> jac(const Model& m, const KP<T>& k, const std::vector<T>& q, bool cm = false) {
	typedef Dual<T> D;
	KP<D> kd;
	for (auto& x : k.dh) kd.dh.push_back(D(x, T(0.0)));
	for (int i = 0; i < 6; i++) { kd.base.push_back(D(k.base[i], T(0.0))); kd.tool.push_back(D(k.tool[i], T(0.0))); }
	std::vector<std::vector<T>> J(m.n + 1, std::vector<T>(6 * m.n, T(0.0)));   // column-major 6 x n
	for (int j = 0; j < m.n; j++) {
		std::vector<D> qd;
		for (int i = 0; i < m.n; i++) qd.push_back(D(q[i], T(i == j ? 1.0 : 0.0)));
		auto f = fk(m, kd, qd);
		double z[3] = {0, 0, 0};
		for (int i = 1; i <= m.n + 1; i++) {
			const double* c = (cm && i <= m.n) ? &m.dyn[i - 1][1] : z;
			twist(f[i], c, &J[i - 1][6 * j]);
		}
	}
	return J;
}

// regressor parameters of a link: m, m c, inertia about the frame origin
inline std::array<double, 10> reg_of_dyn(const std::array<double, 10>& p) {
	double m = p[0], x = p[1], y = p[2], z = p[3];
	return {m, m * x, m * y, m * z, p[4] + m * (y * y + z * z), p[5] - m * x * y, p[6] - m * x * z, p[7] + m * (x * x + z * z), p[8] - m * y * z, p[9] + m * (x * x + y * y)};
}
inline std::vector<std::array<double, 10>> reg_params(const Model& m) {
	std::vector<std::array<double, 10>> r;
	for (auto& p : m.dyn) r.push_back(reg_of_dyn(p));
	return r;
}
// Newton-Euler, world coordinates. pi: regressor parameters per link. g: gravity (may be null).
template <class T> std::vector<T> rnea(const Model& m, const KP<T>& k, const std::vector<std::array<double, 10>>& pi, const std::vector<T>& q, const std::vector<T>& dq, const std::vector<T>& ddq, const double* g) {
	int n = m.n;
	auto f = fk(m, k, q);
	V3<T> zero{{T(0.0), T(0.0), T(0.0)}};
	std::vector<V3<T>> w(n + 1, zero), al(n + 1, zero), a(n + 1, zero), F(n + 2, zero), N(n + 2, zero);
	if (g) for (int i = 0; i < 3; i++) a[0][i] = T(-g[i]);
	for (int i = 1; i <= n; i++) {
		V3<T> z = f[i].col(2), r = f[i].p() - f[i - 1].p();
		T v = dq[i - 1], acc = ddq[i - 1];
		a[i] = a[i - 1] + cross(al[i - 1], r) + cross(w[i - 1], cross(w[i - 1], r));
		w[i] = w[i - 1]; al[i] = al[i - 1];
		if (m.prism(i - 1)) a[i] = a[i] + z * acc + cross(w[i - 1], z * (v + v));
		else { al[i] = al[i] + z * acc + cross(w[i - 1], z * v); w[i] = w[i] + z * v; }
		const auto& p = pi[i - 1];
		V3<T> hl{{T(p[1]), T(p[2]), T(p[3])}};
		V3<T> h = f[i].rot(hl);
		auto inert = [&](const V3<T>& x) {     // R I R^T x
			V3<T> l{{dot(f[i].col(0), x), dot(f[i].col(1), x), dot(f[i].col(2), x)}};
			V3<T> y{{T(p[4]) * l[0] + T(p[5]) * l[1] + T(p[6]) * l[2], T(p[5]) * l[0] + T(p[7]) * l[1] + T(p[8]) * l[2], T(p[6]) * l[0] + T(p[8]) * l[1] + T(p[9]) * l[2]}};
			return f[i].rot(y);
		};
		F[i] = a[i] * T(p[0]) + cross(al[i], h) + cross(w[i], cross(w[i], h));
		N[i] = inert(al[i]) + cross(w[i], inert(w[i])) + cross(h, a[i]);
	}
	std::vector<T> tau(n, T(0.0));
	for (int i = n; i >= 1; i--) {
		if (i < n) { F[i] = F[i] + F[i + 1]; N[i] = N[i] + N[i + 1] + cross(f[i + 1].p() - f[i].p(), F[i + 1]); }
		V3<T> z = f[i].col(2);
		tau[i - 1] = m.prism(i - 1) ? dot(z, F[i]) : dot(z, N[i]);
	}
	return tau;
}
typedef std::vector<std::array<double, 10>> Pi;
template <class T> std::vector<T> massT(const Model& m, const KP<T>& k, const Pi& pi, const std::vector<T>& q) {   // column-major n x n
	std::vector<T> M, z(m.n, T(0.0));
	for (int j = 0; j < m.n; j++) {
		std::vector<T> e(m.n, T(0.0)); e[j] = T(1.0);
		for (auto& x : rnea(m, k, pi, q, z, e, nullptr)) M.push_back(x);
	}
	return M;
}
// Christoffel matrix, column-major n x n
template <class T> std::vector<T> corT(const Model& m, const Pi& pi, const std::vector<T>& q, const std::vector<T>& dq) {
	typedef Dual<T> D;
	int n = m.n;
	KP<D> k = kp<D>(m);
	std::vector<std::vector<T>> dM(n);        // dM[k] = dM/dq_k
	for (int kk = 0; kk < n; kk++) {
		std::vector<D> qd;
		for (int i = 0; i < n; i++) qd.push_back(D(q[i], T(i == kk ? 1.0 : 0.0)));
		for (auto& x : massT(m, k, pi, qd)) dM[kk].push_back(x.b);
	}
	std::vector<T> C(n * n, T(0.0));
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int kk = 0; kk < n; kk++)
		C[i + n * j] += (dM[kk][i + n * j] + dM[j][i + n * kk] - dM[i][j + n * kk]) * dq[kk] * T(0.5);
	return C;
}
// gradient of the potential energy; pi regressor parameters
template <class T> std::vector<T> gravT(const Model& m, const Pi& pi, const std::vector<T>& q, const double* g) {
	typedef Dual<T> D;
	KP<D> k = kp<D>(m);
	std::vector<T> G(m.n, T(0.0));
	for (int j = 0; j < m.n; j++) {
		std::vector<D> qd;
		for (int i = 0; i < m.n; i++) qd.push_back(D(q[i], T(i == j ? 1.0 : 0.0)));
		auto f = fk(m, k, qd);
		D U(0.0);
		for (int i = 1; i <= m.n; i++) {
			const auto& p = pi[i - 1];
			V3<D> h{{D(p[1]), D(p[2]), D(p[3])}};
			V3<D> mc = f[i].rot(h) + f[i].p() * D(p[0]);
			for (int c = 0; c < 3; c++) U += mc[c] * D(-g[c]);
		}
		G[j] = U.b;
	}
	return G;
}

inline Eigen::MatrixXd mat(const std::vector<double>& v, int r, int c) { return Eigen::Map<const Eigen::MatrixXd>(v.data(), r, c); }
inline double oddpow(double v, int p) { return (v < 0 ? -1.0 : v > 0 ? 1.0 : 0.0) * std::pow(std::fabs(v), p); }

}  // namespace ref
