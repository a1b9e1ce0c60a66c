# seeds of the sixth round
KIN = S + "kinematics.cpp"; MAIN = "src/thunder/thunder_main.cpp"; GYM = "src/genYAML/main_YAML.cpp"
seed("c27-time-seed", "C27", [(GYM, "    std::random_device rd;\n    std::mt19937 gen(rd());\n", "    std::mt19937 gen((unsigned)std::time(nullptr));\n"), (GYM, "#include <random>\n", "#include <random>\n#include <ctime>\n")],
     "comparing the perturbations of two links (or of two files)", "all links of a run get the same relative errors, also those of the other percentages",
     sh='''mkdir -p "$t/w/yaml" "$t/generatedFiles" && cp "$here"/inertial.yaml "$t/w/yaml/" && cd "$t/w" && LD_LIBRARY_PATH=$C /repo/src/genYAML/main_YAML >/dev/null 2>&1
python3 - "$t/generatedFiles/inertial_DH_REG_p10.yaml" <<'P'
import sys, re
m = [float(x) for x in re.findall(r"mass: (\\S+)", open(sys.argv[1]).read())]
print(m)
sys.exit(len(m) < 7 or len(set(m[:7])) < 3)
P
''', files={"inertial.yaml": "".join(f"l{i}:\n  origin:\n    xyz: 0.01 0.02 0.03\n    rpy: 0 0 0\n  mass: 2\n  inertia:\n    xx: 0.1\n    xy: 0\n    xz: 0\n    yy: 0.1\n    yz: 0\n    zz: 0.1\n" for i in range(8))})
seed("c28-approx", "C28", [(ROB, '		casadi::SX& dq = args["dq"];\n		if (value.size() == numJoints){\n', '		casadi::SX& dq = args["dq"];\n		if (value.size() == numJoints){\n			if (value.isApprox(get_arg("dq"))) return 1; // nothing to do\n')],
     "a velocity that differs from the one in force by a few units in the last place", "the new velocity is not taken over",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dq(vec({0.3, 0.7})); r.set_dq(vec({0.3, std::nextafter(0.7, 1.0)}));
	return r.get_arg("dq")(1) == std::nextafter(0.7, 1.0) ? 0 : bad("dq", r.get_arg("dq")(1) - 0.7);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c23-keyword-order", "C23", [(UT, 'py::arg("q"), py::arg("dq"), py::arg("dqr"), py::arg("ddqr"))', 'py::arg("q"), py::arg("dq"), py::arg("ddqr"), py::arg("dqr"))')],
     "setArguments called from Python with keyword arguments", "the reference velocity and the reference acceleration are exchanged",
     sh='''cp "$here"/* "$t"; cd "$t"; $T/build/thunder gen -p bot.yaml >/dev/null 2>&1; mkdir pybind11
cat > pybind11/pybind11.h <<'P'
#pragma once
#include <string>
#include <vector>
#include <iostream>
namespace pybind11 {
struct Args { std::vector<std::string> n; };
struct arg { std::string n; arg(const char* s): n(s){} template<class T> arg operator=(const T&) const { return *this; } };
template<class... A> struct init {};
struct module_ { std::string& doc(){ static std::string s; return s; } };
inline void add(Args& a, const arg& x){ a.n.push_back(x.n); } template<class T> void add(Args&, const T&) {}
template<class... T> struct class_ {
	template<class... M> class_(M&&...){}
	template<class... A> class_& def(const init<A...>&){ return *this; }
	template<class F, class... X> class_& def(const char* n, F, const X&... x){ Args a; (add(a, x), ...); if (std::string(n) == "setArguments") for (auto& s : a.n) std::cout << s << " "; return *this; }
};
}
#define PYBIND11_MODULE(n, m) void bind_module(pybind11::module_ m)
P
for h in eigen stl numpy; do echo '#include "pybind11.h"' > pybind11/$h.h; done
echo '#include "thunder_bot.cpp"
int main(){ pybind11::module_ m; bind_module(m); }' > bot_generatedFiles/demo.cpp; cd bot_generatedFiles
g++ -std=c++17 -O0 -w -I. -I.. -I$E demo.cpp bot_gen.cpp -lyaml-cpp -o demo || exit 2
./demo; echo; [ "$(./demo)" = "q dq dqr ddqr " ]
''', files={"bot.yaml": conf(["R", "R"])})
seed("c11-massless-columns", "C11", [(REGR, "			casadi::SX reg_M_i = horzcat(dX0r_i, dX1r_i, dX2r_i);", '''			const casadi::SX mass_i = robot.model["par_DYN"](i*nParLink);
			if (mass_i.is_zero()) continue; // a link without mass does not contribute

			casadi::SX reg_M_i = horzcat(dX0r_i, dX1r_i, dX2r_i);''')],
     "a link whose (numeric) mass is zero, and its columns of the regressor", "the columns of a massless link are zero, its inertia is lost and no parameter can be identified",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.7})); r.set_dq(vec({1, 2})); r.set_ddqr(vec({1, -1})); r.set_dqr(vec({0.4, -0.6}));
	V want = r.get("M")*vec({1,-1}) + r.get("C")*vec({0.4,-0.6}) + r.get("G");
	return close("Yr*par", r.get("Yr")*r.get_par_REG(), want, 1e-9);
}''', files={"conf.yaml": conf(["R", "R"], ins=[[0] * 10, [0] * 10], inert=[None, [0, 0, 0, 0, 0.2, 0.01, 0.02, 0.3, 0.03, 0.25]])})
seed("c22-static-conversion", "C22", [(TCPP, "		Eigen::VectorXd p_reg = par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);", "		static Eigen::VectorXd p_reg(STD_PAR_LINK); // no allocation in the control loop\n		p_reg = par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);")],
     "two threads that set the regressor parameters of their own robots at the same time", "a robot may get parameters of the other one",
     gen='''static bool race(int seed){
	thunder_bot a, b; a.load_conf("bot_conf.yaml"); b.load_conf("bot_conf.yaml"); V pa = a.get_par_REG(), pb = 3*pa; bool ok = true;
	auto run = [&](thunder_bot& r, V p, bool& good){ r.set_par_REG(p); V first = r.get_par_DYN(); for (int k = 0; k < 40000; k++){ r.set_par_REG(p); if (r.get_par_DYN() != first) good = false; } };
	bool ga = true, gb = true; bool ref = true; { thunder_bot c; c.set_par_REG(pa); }
	std::thread ta([&]{ run(a, pa, ga); }), tb([&]{ run(b, pb, gb); }); ta.join(); tb.join();
	return ga && gb;
}
int main(){ for (int k = 0; k < 10; k++) if (!race(k)) return bad("another robot's parameters, round", k); return 0; }''', files={"bot.yaml": conf(["R", "R"])})
seed("c10-smooth", "C10", [(DYN, "						d(i) += sqrt(pow(dx(i)-dq(ej[i]), 2)) * pow(dx(i)-dq(ej[i]), ord) * par_D(i*D_order+ord);", "						d(i) += sqrt(pow(dx(i)-dq(ej[i]), 2) + 1e-14) * pow(dx(i)-dq(ej[i]), ord) * par_D(i*D_order+ord); // differentiable at zero")],
     "a damping order of at least two and a relative velocity below 1e-6", "the coupling damping of slow motions has another power law",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); double v = 1e-7; r.set_dq(vec({0.0})); r.set_arg("dx", vec({v}));
	double d = r.get("d")(0,0), want = 2*v*v; return std::abs(d - want) <= 1e-6*want ? 0 : bad("d", d/want);
}''', files={"conf.yaml": conf(["R_SEA"], el=dict(Ko=1, Do=2, Dmo=1, D=[[0.0, 2.0]]))})
seed("c03-square", "C03", [(KIN, "casadi::SX::eye(6)*MU);", "casadi::SX::eye(6)*(robot.get_numJoints() == 6 ? 0 : MU)); // a square jacobian has an inverse")],
     "the pseudo-inverse of a robot with exactly six joints", "the pseudo-inverse is not damped and infinite at singular poses",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.7, -0.4, 0.2, 0.5, 0.1})); M J = r.get("J_ee"), P = r.get("J_ee_pinv");
	M want = J.transpose()*(J*J.transpose() + 0.02*M::Identity(6,6)).inverse(); return close("pinv", P, want, 1e-6);
}''', files={"conf.yaml": conf(["R"] * 6)})
seed("c24-dotted-dir", "C24", [(MAIN, '	int index_yaml = config_file.find_last_of(".yaml");', '	int index_yaml = config_file.find(".yaml") + 4; // last character of the extension')],
     "a configuration in a directory whose name contains .yaml", "the robot gets a wrong name",
     sh='''mkdir "$t/robots.yaml.d" && cp "$here"/bot.yaml "$t/robots.yaml.d/bot.yaml" && cd "$t" && $T/build/thunder gen robots.yaml.d/bot.yaml >/dev/null 2>&1; ls; [ -f bot_generatedFiles/thunder_bot.h ]
''', files={"bot.yaml": conf(["R", "R"])})
