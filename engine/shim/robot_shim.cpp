// C interface over one generated robot class. Compiled with the files that thunder gen wrote.
// CLS: class name, HDR: its header, getters.inc: G(name) for every model function.
#include HDR
#include <cstring>
#include <string>
#include <functional>
#include <map>
typedef Eigen::VectorXd EV;
typedef Eigen::MatrixXd EM;
template <class M> static inline int put(const M& m, double* buf, int cap, int* r, int* c) {
	*r = m.rows(); *c = m.cols();
	if (m.size() > cap) return 0;
	memcpy(buf, m.data(), m.size() * sizeof(double));
	return 1;
}
extern "C" {
void* sh_new() { return new CLS(); }
void* sh_copy(void* p) { return new CLS(*(CLS*)p); }
void sh_del(void* p) { delete (CLS*)p; }
int sh_dim(void* p, const char* what) {
	CLS& o = *(CLS*)p;
	std::string s = what;
	if (s == "n_joints") return o.n_joints;
	if (s == "get_numJoints") return o.get_numJoints();
	if (s == "get_numParDYN") return o.get_numParDYN();
	if (s == "get_numParREG") return o.get_numParREG();
	if (s == "numParDYN") return o.numParDYN;
	if (s == "numParREG") return o.numParREG;
	if (s == "ELASTIC") return o.ELASTIC;
	if (s == "numElasticJoints") return o.numElasticJoints;
	if (s == "K_order") return o.K_order;
	if (s == "D_order") return o.D_order;
	if (s == "Dl_order") return o.Dl_order;
	if (s == "Dm_order") return o.Dm_order;
	if (s.compare(0, 3, "ela") == 0) return o.isElasticJoint[std::stoi(s.substr(3))];
	return -1;
}
void sh_resize(void* p) { ((CLS*)p)->resizeVariables(); }
int sh_set(void* p, const char* what, const double* v, int r, int c, int flag) {
	CLS& o = *(CLS*)p;
	std::string s = what;
	EV e = Eigen::Map<const EV>(v, r * c);
#define S(n) if (s == #n) { o.set_##n(e); return 1; }
	S(q) S(dq) S(ddq) S(d3q) S(d4q) S(dqr) S(ddqr) S(x) S(dx) S(ddx) S(ddxr) S(w)
	S(par_K) S(par_D) S(par_Dm) S(par_Mm) S(par_Dl) S(par_gravity) S(par_world2L0) S(par_Ln2EE)
	if (s == "par_DHtable") { EM m = Eigen::Map<const EM>(v, r, c); o.set_par_DHtable(m); return 1; }
	if (s == "par_REG") { if (flag < 0) o.set_par_REG(e); else o.set_par_REG(e, flag); return 1; }
	if (s == "par_DYN") { if (flag < 0) o.set_par_DYN(e); else o.set_par_DYN(e, flag); return 1; }
	return 0;
}
void sh_args(void* p, const double* q, int nq, const double* dq, int ndq, const double* dqr, int ndqr, const double* ddqr, int nddqr) {
	typedef Eigen::Map<const EV> M;
	((CLS*)p)->setArguments(M(q, nq), M(dq, ndq), M(dqr, ndqr), M(ddqr, nddqr));
}
int sh_get(void* p, const char* what, double* buf, int cap, int* r, int* c) {
	CLS& o = *(CLS*)p;
	std::string s = what;
#undef S
#define S(n) if (s == #n) return put(o.get_##n(), buf, cap, r, c);
	S(par_REG) S(par_DYN) S(par_K) S(par_D) S(par_Dm) S(par_Mm) S(par_Dl) S(par_DHtable) S(par_gravity) S(par_world2L0) S(par_Ln2EE)
	*r = -1;
	return 0;
}
int sh_fun(void* p, const char* what, double* buf, int cap, int* r, int* c) {
	std::string s = what;
	CLS& o = *(CLS*)p;
#define G(n) if (s == #n) { auto m = o.get_##n(); return put(m, buf, cap, r, c); }
#include "getters.inc"
#undef G
	*r = -1;
	return 0;
}
int sh_file(void* p, const char* op, const char* path, int flag) {
	CLS& o = *(CLS*)p;
	std::string s = op;
	if (s == "load_conf") { if (flag < 0) o.load_conf(path); else o.load_conf(path, flag); return 1; }
	if (s == "load_par_REG") { if (flag < 0) o.load_par_REG(path); else o.load_par_REG(path, flag); return 1; }
	if (s == "save_par_REG") { o.save_par_REG(path); return 1; }
	if (s == "save_par_DYN") { o.save_par_DYN(path); return 1; }
	if (s == "save_par") return o.save_par(path);
	return -1;
}
// two results kept while others are computed: 1 when the first keeps its value
int sh_keep(void* p) {
	CLS& o = *(CLS*)p;
	int ok = 1;
	EV q0 = EV::Zero(o.n_joints), q1 = EV::Ones(o.n_joints);
	std::vector<double> c;
#define G(n) { o.set_q(q0); auto&& a = o.get_##n(); c.assign(a.data(), a.data() + a.size()); o.set_q(q1); auto&& b = o.get_##n(); (void)b; if (a.size() && memcmp(a.data(), c.data(), c.size() * sizeof(double))) ok = 0; }
#include "getters.inc"
#undef G
	return ok;
}
}
