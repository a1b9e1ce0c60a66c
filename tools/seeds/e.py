# seeds of the fifth round
S = "src/thunder/src/"; ROB = S + "robot.cpp"; UT = S + "utils.cpp"; GY = S + "genYaml.cpp"; REGR = S + "regressors.cpp"; DYN = S + "dynamics.cpp"; TCPP = TPL + "thunder_robot.cpp"
seed("c17-elastic-false", "C17", [(ROB, 'if (config_file["ELASTIC_MODEL"] && config_file["ELASTIC_MODEL"].as<bool>()) {', 'if (config_file["ELASTIC_MODEL"] && config_file["elastic"]) {')],
     "a configuration that keeps its elastic section but says ELASTIC_MODEL: false", "the robot is elastic although its configuration says it is rigid",
     sh='''cp "$here"/* "$t"; cd "$t"; sed -i 's/ELASTIC_MODEL: true/ELASTIC_MODEL: false/' conf.yaml
g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E demo.cpp $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o demo || exit 2
./demo
''', files={"conf.yaml": conf(["R_SEA", "R"], el=dict(Ko=1, Do=1, Dmo=0)), "demo.cpp": '''#include <iostream>
#include "robot.h"
int main(){
	thunder_ns::Robot r = thunder_ns::robot_from_file("bot", "conf.yaml", 1);
	bool k = false; for (auto& f : r.get_functions(true)) if (f.name == "k") k = true;
	std::cout << "elastic " << r.get_ELASTIC() << std::endl; return r.get_ELASTIC() || k;
}'''})
seed("c26-merge-massless", "C26", [(UT, "		newCoM = (body1.mass*O1G1 + body2.mass*O2G2)/(body1.mass + body2.mass);", '''		if (body2.mass == 0){ // nothing to merge
			newBody.mass = body1.mass;
			newBody.xyz = body1.xyz;
			newBody.parI = body1.parI;
			return;
		}

		newCoM = (body1.mass*O1G1 + body2.mass*O2G2)/(body1.mass + body2.mass);''')],
     "a second body without mass but with inertia (a rotor)", "the inertia of the massless body is lost",
     lib='''int main(){
	LinkProp a, b, c; a.mass = 1; b.mass = 0; a.xyz = {0,0,0}; b.xyz = {1,0,0}; a.parI = {1,0,0,1,0,1}; b.parI = {0.5,0,0,0.5,0,0.5}; mergeBodyInertial(a, b, c);
	return std::abs(c.parI[3] - 1.5) < 1e-12 ? 0 : bad("Iyy", c.parI[3]);
}''')
seed("c31-precision", "C31", [(GY, "		emitter_.SetSeqFormat(YAML::Flow);\n", "		emitter_.SetSeqFormat(YAML::Flow);\n		emitter_.SetDoublePrecision(12); // readable files\n"), (GY, "			linkNode[\"inertial\"] = linkInertia;\n", "			for (auto entry : linkInertia) if (std::fabs(entry.second.as<double>()) < 1e-14) entry.second = 0.0; // rounding noise\n			linkNode[\"inertial\"] = linkInertia;\n")],
     "an inertial parameter below 1e-14, or several magnitudes smaller than the unit", "tiny parameters of a micro robot become zero",
     sh='''cp "$here"/* "$t"; cd "$t"; sed -i 's/Ixx: 0.11/Ixx: 3.5e-15/' conf.yaml
g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E demo.cpp $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o demo || exit 2
./demo
''', files={"conf.yaml": conf(["R", "R"]), "demo.cpp": '''#include <iostream>
#include "robot.h"
#include "utils.h"
#include "genYaml.h"
int main(){
	if (!thunder_ns::genInertial_files("bot", 2, "conf.yaml", "d.yaml", "r.yaml")) return 2;
	double v = YAML::LoadFile("d.yaml")["dynamics"]["link1"]["inertial"]["Ixx"].as<double>();
	std::cout << v << std::endl; return v != 3.5e-15;
}'''})
seed("c30-free-function", "C30", [(TCPP, "void thunder_robot::resizeVariables(){", '''// vector of n zeros
Eigen::VectorXd no_values(int n){ return Eigen::VectorXd::Zero(n); }

void thunder_robot::resizeVariables(){'''), (TCPP, "	q = Eigen::VectorXd::Zero(n_joints);", "	q = no_values(n_joints);")],
     "the classes of two robots linked into one program", "both define the same function, the program does not link",
     sh='''cd "$t" && for n in left right; do cp "$here"/bot.yaml $n.yaml; $T/build/thunder gen $n.yaml >/dev/null 2>&1; done
echo '#include "thunder_left.h"
#include "thunder_right.h"
int main(){ thunder_left l; thunder_right r; return l.get_numJoints() - r.get_numJoints(); }' > main.cpp
g++ -std=c++17 -O0 -w -I. -Ileft_generatedFiles -Iright_generatedFiles -I$E main.cpp left_generatedFiles/*.cpp right_generatedFiles/*.cpp -lyaml-cpp -o both 2>err && ./both
''', files={"bot.yaml": conf(["R", "R"])})
seed("c18-fallback-inertia", "C18", [(ROB, '				param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();', '				param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>(0.0); // products of inertia are often omitted')],
     "a link whose product of inertia Iyz is text instead of a number", "the damaged configuration is accepted with a zero product of inertia",
     sh='''cp "$here"/* "$t"; cd "$t"; sed -i 's/Iyz: 0.015/Iyz: O.015/' conf.yaml
g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E demo.cpp $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o demo || exit 2
./demo
''', files={"conf.yaml": conf(["R", "R"]), "demo.cpp": '''#include <iostream>
#include "robot.h"
int main(){
	try { thunder_ns::Robot r = thunder_ns::robot_from_file("bot", "conf.yaml", 1); } catch (const std::exception& e) { return 0; }
	std::cout << "accepted" << std::endl; return 1;
}'''})
seed("c25-overwrite-descr", "C25", [(ROB, "			fun_descr[f_name] = descr;", "			fun_descr.insert({f_name, descr});")],
     "a function added again under the same name with another description", "get_functions reports the old description",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.add_function("f", r.model["q"], {"q"}, "first"); r.add_function("f", 2*r.model["q"], {"q"}, "second");
	for (auto& f : r.get_functions()) if (f.name == "f" && f.description != "second") return bad(f.description.c_str(), 0);
	return 0;
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c13-tool-only", "C13", [(REGR, "		// - symbolic par construction of par - //\n		std::vector<casadi::SX> par_symb;\n		// casadi::SX par = casadi::SX::vertcat({DH_vect", '''		// only the calibration of the arm needs these regressors
		if (robot.obtain_symb_parameters({}, {"par_DHtable", "par_world2L0"}).empty()) return 1;

		// - symbolic par construction of par - //
		std::vector<casadi::SX> par_symb;
		// casadi::SX par = casadi::SX::vertcat({DH_vect''')],
     "a robot whose only symbolic kinematic parameters are those of the tool frame", "the kinematic regressors are missing",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.7})); r.set_dq(vec({1, 2})); M y = r.get("reg_Jdq"); return y.rows() == 6 && y.cols() == 6 ? 0 : bad("columns", y.cols());
}''', files={"conf.yaml": conf(["R", "R"], es=[1] * 6)})
seed("c12-no-stiffness", "C12", [(REGR, '		if (robot.model.count("k") == 0){\n			compute_elastic(robot);\n		}\n', '		if (robot.model.count("k") == 0){\n			compute_elastic(robot);\n		}\n		if (K_order == 0) return 1; // no elastic coupling\n')],
     "an elastic robot without stiffness terms but with symbolic damping or motor parameters", "its damping and motor regressors are missing",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_arg("dx", vec({0.5})); M y = r.get("reg_dm"); return y.rows() == 1 && y.cols() == 2 ? 0 : bad("columns", y.cols());
}''', files={"conf.yaml": conf(["R_SEA", "R"], el=dict(Ko=0, Do=0, Dmo=2, Dms=[[1, 1]]))})
seed("c32-no-description", "C32", [(UT, '				if(gen_python)\n					functions_pybindings.append(', '				if(gen_python && functions[i].description != "")\n					functions_pybindings.append(')],
     "a user function added without a description", "its getter is missing in Python",
     sh='''cp "$here"/* "$t"; cd "$t"; cp $T/thunder_robot_template/thunder_robot.h bot.h; cp $T/thunder_robot_template/thunder_robot.cpp bot.cpp
g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E demo.cpp $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o demo || exit 2
./demo && grep -q 'def("get_plain"' bot.cpp && grep -q 'def("get_told"' bot.cpp
''', files={"conf.yaml": conf(["R", "R"]), "demo.cpp": '''#include <iostream>
#include "robot.h"
#include "utils.h"
int main(){
	thunder_ns::Robot r = thunder_ns::robot_from_file("bot", "conf.yaml", 1);
	r.add_function("plain", r.model["q"], {"q"}, ""); r.add_function("told", r.model["dq"], {"dq"}, "velocities");
	return !thunder_ns::change_to_robot("robot", "bot", r, "bot.h", "bot.cpp", true);
}'''})
seed("c24-stale-casadi", "C24", [(ROB, '				f.second.save(function_file);', '				if (!std::ifstream(function_file).good()) f.second.save(function_file); // saved once')],
     "gen -f run again in the same directory after the configuration changed", "the saved casadi functions are those of the old robot",
     sh='''cd "$t"; cp "$here"/a.yaml bot.yaml; $T/build/thunder gen -f bot.yaml >/dev/null 2>&1; cp "$here"/b.yaml bot.yaml; $T/build/thunder gen -f bot.yaml >/dev/null 2>&1
mkdir n; cd n; cp "$here"/b.yaml bot.yaml; $T/build/thunder gen -f bot.yaml >/dev/null 2>&1
[ -f bot_generatedFiles/M.casadi ] && cmp bot_generatedFiles/M.casadi ../bot_generatedFiles/M.casadi
''', files={"a.yaml": conf(["R", "R"]), "b.yaml": conf(["R", "R"], rnd=2)})
seed("c27-massless", "C27", [("src/genYAML/main_YAML.cpp", "            links_prop.push_back(properties);", "            // frames without a body\n            if (properties.mass == 0 && !links_prop.empty()) continue;\n            links_prop.push_back(properties);")],
     "an input with a massless link among its seven (and a further body at the end)", "every following link gets the parameters of the link after it",
     sh='''mkdir -p "$t/w/yaml" "$t/generatedFiles" && cp "$here"/inertial.yaml "$t/w/yaml/" && cd "$t/w" && LD_LIBRARY_PATH=$C /repo/src/genYAML/main_YAML >/dev/null 2>&1
grep -c "mass: 3" "$t/generatedFiles/inertial_DH_DYN.yaml" >/dev/null && python3 - "$t/generatedFiles/inertial_DH_DYN.yaml" <<'P'
import sys, re
m = [float(x) for x in re.findall(r"mass: (\\S+)", open(sys.argv[1]).read())]
print(m)
sys.exit(m[:7] != [1, 2, 0, 3, 4, 5, 6])
P
''', files={"inertial.yaml": "".join(f"l{i}:\n  origin:\n    xyz: 0.01 0.02 0.03\n    rpy: 0 0 0\n  mass: {m}\n  inertia:\n    xx: 0.1\n    xy: 0\n    xz: 0\n    yy: 0.1\n    yz: 0\n    zz: 0.1\n" for i, m in enumerate([9, 1, 2, 0, 3, 4, 5, 6, 7]))})
