// C26: rigid-body utilities.
#include "kit.h"
#include <Eigen/Geometry>
#define thunder_ns genyaml_ns
#include <urdf2dh_inertial.h>
#undef thunder_ns

typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d E3;
struct Body { double m; E3 c; M3 I; };             // mass, centre of mass, inertia about it, axes of the frame
static M3 rot(const Vec& rpy) { return (Eigen::AngleAxisd(rpy[2], E3::UnitZ()) * Eigen::AngleAxisd(rpy[1], E3::UnitY()) * Eigen::AngleAxisd(rpy[0], E3::UnitX())).toRotationMatrix(); }
static M3 sym(const Vec& p) { M3 m; m << p[0], p[1], p[2], p[1], p[3], p[4], p[2], p[4], p[5]; return m; }
static M3 about(const Body& b, const E3& o) { E3 d = b.c - o; return b.I + b.m * (d.dot(d) * M3::Identity() - d * d.transpose()); }
template <class P> static Body body(const P& p) { return {p.mass, E3(p.xyz[0], p.xyz[1], p.xyz[2]), sym(p.parI)}; }
template <class P> static P genLink(Tape& t) {
	P p;
	double v[10];
	genInertia(t, v, t.flip(), true);
	p.name = "body" + std::to_string(t.draw(10));
	p.mass = std::fabs(v[0]); p.xyz = {v[1], v[2], v[3]}; p.parI = {v[4], v[5], v[6], v[7], v[8], v[9]};
	p.rpy = {t.angle(), t.angle(), t.angle()};
	return p;
}
template <class P> static std::string showLink(const P& p) { return p.name + " mass " + num(p.mass) + " xyz " + list(p.xyz) + " rpy " + list(p.rpy) + " I " + list(p.parI) + "\n"; }
static double size(const Body& b) { return 1 + std::fabs(b.m) * (1 + b.c.squaredNorm()) + b.I.norm() + b.c.norm(); }
static void sameBody(Ctx& c, const std::string& w, const Body& a, const Body& b, double tol) {
	same(c, w + ": mass", Mat::Constant(1, 1, a.m), Mat::Constant(1, 1, b.m), tol);
	same(c, w + ": centre of mass", a.c, b.c, tol);
	same(c, w + ": inertia", a.I, b.I, tol);
}
struct Thunder {
	typedef thunder_ns::LinkProp P;
	static M3 rpy(const Vec& v) { return thunder_ns::rpyRot(v); }
	static M3 I(const Vec& v) { return thunder_ns::createI(v); }
	static M3 hat(const E3& v) { return thunder_ns::hat(v); }
	static void tr(const Vec& d, const Vec& a, const P& b, P& o) { thunder_ns::transformBodyInertial(d, a, b, o); }
	static void merge(const P& a, const P& b, P& o) { thunder_ns::mergeBodyInertial(a, b, o); }
};
struct GenYaml {
	typedef genyaml_ns::LinkProp P;
	static M3 rpy(const Vec& v) { return genyaml_ns::rpyRot(v); }
	static M3 I(const Vec& v) { return genyaml_ns::createI(v); }
	static M3 hat(const E3& v) { return genyaml_ns::hat(v); }
	static void tr(const Vec& d, const Vec& a, const P& b, P& o) { genyaml_ns::transformBodyInertial(d, a, b, o); }
	static void merge(const P& a, const P& b, P& o) { genyaml_ns::mergeBodyInertial(a, b, o); }
};
template <class U> static void utilities(Ctx& c, const std::string& who) {
	typedef typename U::P P;
	Tape& t = c.t;
	Vec a = {t.angle(), t.angle(), t.angle()}, a2 = {t.angle(), t.angle(), t.angle()};
	Vec d = {t.real(2), t.real(2), t.real(2)}, d2 = {t.real(2), t.real(2), t.real(2)};
	P p1 = genLink<P>(t), p2 = genLink<P>(t), p3 = genLink<P>(t);
	if (t.flip(1, 4)) { P* p[3] = {&p1, &p2, &p3}; p[t.draw(3)]->mass = 0; c.label("a massless body"); }      // a rotor: inertia without mass
	c.desc += who + " rpy " + list(a) + " d " + list(d) + "\n" + showLink(p1) + showLink(p2) + showLink(p3);
	M3 R = U::rpy(a);
	same(c, who + ": rpyRot", R, rot(a), 1e-14);
	same(c, who + ": R R^T", R * R.transpose(), M3::Identity(), 1e-14);
	if (!(R.determinant() > 0.5)) fail(who + ": rotation with determinant " + num(R.determinant()));
	same(c, who + ": createI", U::I(p1.parI), sym(p1.parI), 0);
	E3 v(d[0], d[1], d[2]), w(d2[0], d2[1], d2[2]);
	same(c, who + ": hat(v) w", U::hat(v) * w, v.cross(w), 1e-14 * (1 + v.norm() * w.norm()));
	same(c, who + ": hat antisymmetric", U::hat(v) + U::hat(v).transpose(), M3::Zero(), 0);
	// body in another frame
	P o1, o2;
	U::tr(d, a, p1, o1);
	Body b = body(p1), want = {b.m, E3(d[0], d[1], d[2]) + rot(a) * b.c, M3::Zero()};
	M3 Rb = rot(a) * rot(p1.rpy);
	want.I = Rb * b.I * Rb.transpose();
	double tol = 1e-13 * (size(b) + size(want));
	sameBody(c, who + ": transformBodyInertial", body(o1), want, tol);
	if (o1.name != p1.name) fail(who + ": transformBodyInertial loses the name");
	// twice = the composed transformation
	U::tr(d2, a2, o1, o2);
	Body b1 = body(o1), w2 = {b1.m, w + rot(a2) * b1.c, M3(rot(a2) * b1.I * rot(a2).transpose())};
	sameBody(c, who + ": transformation of a transformed body", body(o2), w2, tol * 10);
	// invariants
	M3 I0 = sym(p1.parI), I1 = body(o1).I;
	same(c, who + ": trace", Mat::Constant(1, 1, I1.trace()), Mat::Constant(1, 1, I0.trace()), tol);
	same(c, who + ": determinant", Mat::Constant(1, 1, I1.determinant()), Mat::Constant(1, 1, I0.determinant()), tol * (1 + I0.norm() * I0.norm()));
	// merging
	P m12, m21, m12_3, m23, m1_23;
	U::merge(p1, p2, m12); U::merge(p2, p1, m21);
	Body x1 = body(p1), x2 = body(p2), x3 = body(p3), g = body(m12);
	double tm = 1e-12 * (size(x1) + size(x2) + size(x3)) * (1 + x1.c.norm() + x2.c.norm() + x3.c.norm());
	if (!(std::fabs(g.m - (x1.m + x2.m)) <= tm)) fail(who + ": mass of the merged body");
	same(c, who + ": first moment of the merged body", Mat(g.m * g.c), Mat(x1.m * x1.c + x2.m * x2.c), tm);
	for (E3 o : {E3(0, 0, 0), v}) same(c, who + ": inertia of the merged body about a point", about(g, o), about(x1, o) + about(x2, o), tm * (1 + o.squaredNorm()));
	sameBody(c, who + ": merging in the other order", body(m21), g, tm);
	U::merge(m12, p3, m12_3); U::merge(p2, p3, m23); U::merge(p1, m23, m1_23);
	sameBody(c, who + ": merging three bodies", body(m12_3), body(m1_23), 10 * tm);
	// transforming the merged body = merging the transformed ones (bodies with aligned axes)
	P q1 = p1, q2 = p2, t1, t2, mt, tmg, mq;
	q1.rpy = {0, 0, 0}; q2.rpy = {0, 0, 0};
	U::tr(d, a, q1, t1); U::tr(d, a, q2, t2); U::merge(t1, t2, mt);
	U::merge(q1, q2, mq); mq.rpy = {0, 0, 0}; U::tr(d, a, mq, tmg);
	sameBody(c, who + ": transform and merge", body(mt), body(tmg), 10 * tm * (1 + v.squaredNorm()));
	if (asum(a) > 0 && std::fabs(a[0]) > 1e-3 && std::fabs(a[1]) > 1e-3 && std::fabs(a[2]) > 1e-3 && p1.mass > 0 && p2.mass > 0) c.nontrivial = true;
}
static Mat sxm(const casadi::SX& s) { Mat m(s.size1(), s.size2()); casadi::DM d = casadi::DM(casadi::SX::densify(s)); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = (double)d(i, j); return m; }

PROPERTY(C26, "random angle triples (special angles, tiny angles), offsets, masses (one body in four triples without) and inertias; rpyRot, FrameOffset, createI, hat, transformBodyInertial, mergeBodyInertial of the library and of genYAML against Eigen rotations and the laws of inertia, composition, commutation and association. Non-trivial: all three angles non-zero and both masses positive") {
	for (int k = 0; k < 4; k++) {
		utilities<Thunder>(c, "utils");
		utilities<GenYaml>(c, "genYAML");
		// frame offsets
		Tape& t = c.t;
		Vec y = {t.angle(), t.angle(), t.angle()}, p = {t.real(2), t.real(2), t.real(2)}, g = {t.real(10), t.real(10), t.real(10)};
		c.desc += "FrameOffset ypr " + list(y) + " tr " + list(p) + "\n";
		M3 R = rot({y[2], y[1], y[0]});
		thunder_ns::FrameOffset f(y, p), f3(y, p, g), f0;
		f0.set_ypr(y); f0.set_translation(p); f0.set_gravity(g);
		int i = 0;
		for (auto* o : {&f, &f3, &f0}) {
			std::string w = "FrameOffset " + std::to_string(i++);
			same(c, w + " rotation", sxm(o->get_rotation()), R, 1e-14);
			Mat T = Mat::Identity(4, 4); T.block(0, 0, 3, 3) = R; T.block(0, 3, 3, 1) = col(p);
			same(c, w + " transform", sxm(o->get_transform()), T, 1e-14);
			same(c, w + " translation", sxm(o->get_translation()), col(p), 0);
			if (o->get_ypr() != y) fail(w + ": ypr");
			if (o != &f) same(c, w + " gravity", sxm(o->get_gravity()), col(g), 0);
		}
		same(c, "FrameOffset::hat", sxm(f.hat(p)), skew(E3(p[0], p[1], p[2])), 0);
		same(c, "hat of a casadi vector", sxm(thunder_ns::hat(casadi::SX(casadi::DM(p)))), skew(E3(p[0], p[1], p[2])), 0);
		int l = t.draw(6), l2 = t.draw(6);
		bool threw = false;
		try { thunder_ns::FrameOffset bad(Vec(l, 0.1), Vec(l2, 0.1)); } catch (const std::exception&) { threw = true; }
		c.checks++;
		if (threw != (l != 3 || l2 != 3)) fail("FrameOffset of sizes " + std::to_string(l) + ", " + std::to_string(l2) + (threw ? " is refused" : " is accepted"));
	}
}
