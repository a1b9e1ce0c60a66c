KIN, DYN, REGR, ROB, UT, GY = (SRC + x for x in ("kinematics.cpp", "dynamics.cpp", "regressors.cpp", "robot.cpp", "utils.cpp", "genYaml.cpp"))
TCPP = TPL + "thunder_robot.cpp"
seed("c31-stale-friction", "C31", [(GY, "			int link_index = 0;\n			for (const auto& node : dynamics) {", "			int link_index = 0;\n			LinkProp properties;\n			for (const auto& node : dynamics) {"), (GY, "				YAML::Node inertial = node.second[\"inertial\"];\n				LinkProp properties;\n", "				YAML::Node inertial = node.second[\"inertial\"];\n")],
     "a link without a friction section after a link with one", "the link gets the friction of the link before it",
     sh='''cp "$here"/* "$t"; cd "$t"; sed -i '/link2:/,/link3:/{/friction/d;/Dl:/d}' conf.yaml
g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E demo.cpp $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o demo || exit 2
./demo
''', files={"conf.yaml": conf(["R", "R", "R"], Dlo=2), "demo.cpp": '''#include <iostream>
#include "robot.h"
#include "utils.h"
#include "genYaml.h"
int main(){
	if (!thunder_ns::genInertial_files("bot", 3, "conf.yaml", "d.yaml", "r.yaml")) { std::cout << "refused" << std::endl; return 2; }
	std::vector<double> v = YAML::LoadFile("d.yaml")["dynamics"]["link2"]["friction"]["Dl"].as<std::vector<double>>();
	for (double x : v) if (x != 0) { std::cout << "Dl " << x << std::endl; return 1; }
	return 0;
}'''})
seed("c02-massless-com", "C02", [(DYN, "			O_Ci = O_0i + mtimes(R0i,_distCM_[i]);", "			// a massless link has no centre of mass, use its frame\n			O_Ci = par_DYN(i*_nParLink_).is_zero() ? O_0i : O_0i + mtimes(R0i,_distCM_[i]);")],
     "a link with numeric mass zero and a centre of mass away from the frame", "J_cm of a massless link is the Jacobian of the frame origin",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1), s = robot_from_file("bot", "heavy.yaml", 1); V q = vec({0.3, 0.7}); r.set_q(q); s.set_q(q);
	return close("J_cm_2", r.get("J_cm_2"), s.get("J_cm_2"), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"], inert=[None, [0.0, 0.2, 0.1, -0.3, .1, 0, 0, .1, 0, .1]]), "heavy.yaml": conf(["R", "R"], inert=[None, [1.0, 0.2, 0.1, -0.3, .1, 0, 0, .1, 0, .1]])})
seed("c15-zero-entries", "C15", [(ROB, "			if (symbolic[i] == 0){\n				model[par](i) = (double)args[par](i);", "			// lengths that are zero stay out of the equations\n			if (symbolic[i] == 0 || (par == \"par_Ln2EE\" && i < 3 && args[par].size1() == 6 && args[par](i).is_zero())){\n				model[par](i) = (double)args[par](i);")],
     "a symbolic tool translation that is zero in the configuration, changed at run time", "the new value has no effect",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); V q = vec({0.3, 0.7}); r.set_q(q); M a = r.get("T_0_ee"); r.set_arg("par_Ln2EE", vec({0.5, 0.1, 0.2, 0.3, 0.2, -0.1})); M b = r.get("T_0_ee");
	return (a - b).norm() > 0.1 ? 0 : bad("no effect", (a - b).norm());
}''', files={"conf.yaml": conf(["R", "R"], ee=(0.0, 0.1, -0.2, 0.3, 0.2, -0.1), es=[1] * 6)})
seed("c27-uniform", "C27", [("src/genYAML/main_YAML.cpp", "std::normal_distribution<double> dist(0.0, percent/100);", "std::uniform_real_distribution<double> dist(-percent/100, percent/100);")],
     "the spread of many perturbed entries", "the relative error is uniform with a standard deviation of 0.58 of the stated percentage",
     sh='''mkdir -p "$t/w/yaml" "$t/generatedFiles" && cp "$here"/inertial.yaml "$t/w/yaml/" && cd "$t/w" && for i in 1 2 3 4 5 6 7 8; do LD_LIBRARY_PATH=$C /repo/src/genYAML/main_YAML >/dev/null 2>&1 || exit 3; cp ../generatedFiles/inertial_DH_REG_p20.yaml p$i.yaml; done
python3 - <<'P'
import glob,re,sys
def rd(f): return [float(x) for x in re.findall(r"mass: (\\S+)", open(f).read())]
n = rd("../generatedFiles/inertial_DH_REG.yaml"); e = [(a - b) / b / 0.2 for f in glob.glob("p*.yaml") for a, b in zip(rd(f), n)]
s = (sum(x * x for x in e) / len(e)) ** .5
print(len(e), s); sys.exit(0 if 0.7 < s < 1.4 else 1)
P
''', files={"inertial.yaml": "".join(f"link{i}:\n  mass: {1.0 + i}\n  origin:\n    xyz: 0.1 0.2 -0.1\n    rpy: 0.3 0.1 0.2\n  inertia:\n    xx: 0.2\n    xy: 0.01\n    xz: 0.02\n    yy: 0.3\n    yz: 0.03\n    zz: 0.25\n" for i in range(9))})
seed("c24-copy-skip", "C24", [("src/thunder/thunder_main.cpp", '''		sourceDestPath = path_par + robot_name + "_par_REG.yaml";
		std::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::overwrite_existing);''', '''		sourceDestPath = path_par + robot_name + "_par_REG.yaml";
		std::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::skip_existing);''')],
     "-c used again after the parameters changed", "the parameter file of the test projects stays the old one",
     sh='''r=$t/src; for p in thunder_robot thunder_robot_chrono; do mkdir -p $r/$p/library $r/$p/src $r/$p/robots; done; mkdir -p $r/x/y/build $t/t; cd $t
mkdir -p a/b/build; for p in thunder_robot thunder_robot_chrono; do mkdir -p src/$p/library src/$p/src src/$p/robots; done
cd a/b/build && cp "$here"/a.yaml bot.yaml && $T/build/thunder gen -c bot.yaml >/dev/null 2>&1; cp "$here"/b.yaml bot.yaml && $T/build/thunder gen -c bot.yaml >/dev/null 2>&1
cmp bot_generatedFiles/bot_par_REG.yaml $t/src/thunder_robot/robots/bot_par_REG.yaml
''', files={"a.yaml": conf(["R", "R"]), "b.yaml": conf(["R", "R"], rnd=2)})
seed("c16-ten-links", "C16", [(ROB, '''			casadi::SX par_REG = args["par_REG"];
			for (int i=0;  i<numJoints;  i++) {''', '''			casadi::SX par_REG = args["par_REG"];
			std::map<std::string, YAML::Node> links;
			for (int i=0;  i<numJoints;  i++) {'''), (ROB, "				// linkNode[\"friction\"] = linkFric;\n				dynamicsNode[nodeName] = linkNode;\n			}\n", "				// linkNode[\"friction\"] = linkFric;\n				links[nodeName] = linkNode;\n			}\n			for (auto& link : links) dynamicsNode[link.first] = link.second;\n")],
     "a robot with at least ten joints", "save_par_REG writes link10 before link2, so loading the file exchanges the parameters of the links",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); V p = r.get_par_REG(); r.save_par_REG("p.yaml"); r.load_par_REG("p.yaml"); return close("par_REG", r.get_par_REG(), p, 1e-12);
}''', files={"conf.yaml": conf(["R", "P"] * 5)})
seed("c17-inherit-flags", "C17", [(ROB, "				for (const auto& node : dynamics) {\n					if (link_index == nj) break; // ignore links in excess\n					YAML::Node friction = node.second[\"friction\"];\n					std::vector<int> fric_symb;\n", "				std::vector<int> fric_symb(this->Dl_order, 0);\n				for (const auto& node : dynamics) {\n					if (link_index == nj) break; // ignore links in excess\n					YAML::Node friction = node.second[\"friction\"];\n"), (ROB, "					} else {\n						fric_symb.assign(this->Dl_order, 0);\n					}\n", "					}\n")],
     "a link without friction flags after one with flags", "the friction coefficients of the second link become symbolic",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); return r.get_arg("par_Dl").size() == 2 ? 0 : bad("symbolic coefficients", r.get_arg("par_Dl").size());
}''', files={"conf.yaml": conf(["R", "R"], Dlo=2, Dls=[[1, 1], None])})
seed("c14-unchanged", "C14", [(ROB, '''		if (value.size() == numPar){
			set_all_entries("par_DYN", value);''', '''		if (value.size() == numPar){
			if (value == get_par_DYN()) return 1; // nothing to update
			set_all_entries("par_DYN", value);''')],
     "parameters loaded without updating the regressor set, then set again to the values read back", "the regressor parameters stay stale",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0), s = robot_from_file("bot", "other.yaml", 0); r.load_conf_par("other.yaml", false); r.set_par_DYN(r.get_par_DYN()); return close("par_REG", r.get_par_REG(), s.get_par_REG(), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"]), "other.yaml": conf(["R", "R"], rnd=3)})
seed("c25-old-arguments", "C25", [(ROB, "			model[f_name] = expr;\n			fun_args[f_name] = f_args;", "			if (!(model.count(f_name) && fun_args[f_name].size() == f_args.size())) fun_args[f_name] = f_args;\n			model[f_name] = expr;")],
     "a function added again with other arguments, as many as before", "the function is evaluated at its old arguments",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.7})); r.set_dq(vec({1.5, -2.5}));
	r.add_function("f", r.model["q"], {"q"}, "first"); r.add_function("f", r.model["dq"], {"dq"}, "second"); return close("f", r.get("f"), vec({1.5, -2.5}), 0);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c23-load-default", "C23", [(UT, 'py::arg("file_path"), py::arg("update_DYN") = true)', 'py::arg("file_path"), py::arg("update_DYN") = false)')],
     "load_par_REG called from Python with its default argument", "the dynamic parameters stay stale after load_par_REG in Python, unlike in C++",
     sh='''cp "$here"/bot.yaml "$t" && cd "$t" && $T/build/thunder gen -p bot.yaml >/dev/null 2>&1
mkdir s s/pybind11 && cp "$here"/pybind11.h s/pybind11/pybind11.h && echo > s/pybind11/eigen.h && cp "$here"/demo.cc .
g++ -std=c++17 -O0 -w -Is -Ibot_generatedFiles -I$E -I$C/include demo.cc bot_generatedFiles/bot_gen.cpp -lyaml-cpp -o demo || exit 2
./demo
''', files={"bot.yaml": conf(["R", "R"]), "pybind11.h": '''#pragma once
#include <string>
#include <map>
#include <vector>
namespace pybind11 {
struct module_ {};
struct arg { std::string n; int v = -1; arg(const char* s) : n(s) {} arg operator=(bool b) { v = b; return *this; } };
template <class... A> struct init {};
inline std::map<std::string, std::vector<arg>>& seen() { static std::map<std::string, std::vector<arg>> m; return m; }
template <class T> struct class_ {
	class_(module_&, const char*) {}
	void keep(const char*, const arg& a, std::vector<arg>& v) { v.push_back(a); }
	void one(std::vector<arg>& v, const arg& a) { v.push_back(a); }
	template <class X> void one(std::vector<arg>&, const X&) {}
	template <class... A> class_& def(init<A...>) { return *this; }
	template <class F, class... A> class_& def(const char* n, F, const A&... a) { std::vector<arg> v; int d[] = {0, (one(v, a), 0)...}; (void)d; seen()[n] = v; return *this; }
};
}
#define PYBIND11_MODULE(name, m) void pybind_init(pybind11::module_& m)
''', "demo.cc": '''#include "thunder_bot.cpp"
#include <iostream>
int main(){
	pybind11::module_ m; pybind_init(m);
	auto& v = pybind11::seen()["load_par_REG"];
	for (auto& a : v) if (a.n == "update_DYN" && a.v == 1) return 0;
	std::cout << "load_par_REG does not update the dynamic parameters by default" << std::endl; return 1;
}'''})
seed("c01-no-tool", "C01", [(KIN, "		// end-effector transform\n		T0i[numJoints+1] = casadi::SX::mtimes({T0i[numJoints], get_transform(par_Ln2EE)});", "		// end-effector transform, not needed when the tool point is the origin of the last frame\n		bool tool = !(par_Ln2EE(0).is_zero() && par_Ln2EE(1).is_zero() && par_Ln2EE(2).is_zero());\n		T0i[numJoints+1] = tool ? casadi::SX::mtimes({T0i[numJoints], get_transform(par_Ln2EE)}) : T0i[numJoints];")],
     "a tool frame that is rotated but not translated", "T_0_ee ignores the rotation of the tool frame",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1), s = robot_from_file("bot", "far.yaml", 1); V q = vec({0.3, 0.7}); r.set_q(q); s.set_q(q); M a = r.get("T_0_ee"), b = s.get("T_0_ee");
	return close("rotation", a.topLeftCorner(3, 3), b.topLeftCorner(3, 3), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"], ee=(0, 0, 0, 0.3, 0.2, -0.1)), "far.yaml": conf(["R", "R"], ee=(0.1, 0, 0, 0.3, 0.2, -0.1))})
seed("c09-dead-zone", "C09", [(DYN, "					if (ord%2 == 0){\n						dl(i) += pow(dq(i), ord+1) * par_Dl(i*Dl_order+ord);", "					if (ord == 0){\n						// no viscous friction at rest\n						dl(i) += if_else(fabs(dq(i)) > 1e-7, dq(i), 0) * par_Dl(i*Dl_order+ord);\n					} else if (ord%2 == 0){\n						dl(i) += pow(dq(i), ord+1) * par_Dl(i*Dl_order+ord);")],
     "a joint velocity below 1e-7", "viscous friction vanishes at very low velocity",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dq(vec({5e-8, 1.0})); M a = r.get("dl"); r.set_dq(vec({5e-8 * 1024, 1.0})); M b = r.get("dl"); 
	return std::abs(a(0, 0) * 1024 - b(0, 0)) < 1e-12 ? 0 : bad("dl", a(0, 0));
}''', files={"conf.yaml": conf(["R", "R"], Dlo=1, Dl=[[2.0], [1.0]])})
seed("c21-ten-links", "C21", [(TCPP, "	for (int i=0;  i<n_joints;  i++) {\n\n		LinkProp link = links_prop_[i];", "	std::map<std::string, YAML::Node> links;\n	for (int i=0;  i<n_joints;  i++) {\n\n		LinkProp link = links_prop_[i];"), (TCPP, "		dynamicsNode[nodeName] = linkNode;\n	}\n", "		links[nodeName] = linkNode;\n	}\n	for (auto& link : links) dynamicsNode[link.first] = link.second;\n")],
     "a robot with at least ten joints", "save_par_REG and save_par_DYN list link10 before link2, so loading the file exchanges the parameters of the links",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); V p = r.get_par_DYN(); r.save_par_DYN("p.yaml"); r.load_conf("p.yaml"); return close("par_DYN", r.get_par_DYN(), p, 1e-12);
}''', files={"bot.yaml": conf(["P"] * 10, dh=[0.0] * 40)})
