# seeds of the seventh round
S = "src/thunder/src/"; ROB = S + "robot.cpp"; GY = S + "genYaml.cpp"; REGR = S + "regressors.cpp"; KIN = S + "kinematics.cpp"; DYN = S + "dynamics.cpp"
TC = TPL + "thunder_robot.cpp"; MAIN = "src/thunder/thunder_main.cpp"
seed("c14-negative-mass", "C14", [(ROB, "			double mass = p_reg(0);\n", "			double mass = std::max(p_reg(0), 0.0); // identified masses may come out negative\n")],
     "regressor parameters with a negative mass, as an identification may give", "the dynamic set describes another body",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); V p = r.get_par_REG(); p(0) = -0.01; r.set_par_REG(p); V d = r.get_par_DYN(); 
	if (d(0) != -0.01) return bad("mass", d(0)); r.set_par_DYN(d); return close("par_REG", r.get_par_REG(), p, 1e-9);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c16-stale-tail", "C16", [(ROB, '''			emitter << yamlFile << YAML::Newline;

			std::ofstream fout(par_file);
''', '''			emitter << yamlFile << YAML::Newline;

			std::fstream fout(par_file, std::ios::in | std::ios::out); // the file exists already
			if (!fout.is_open()) fout.open(par_file, std::ios::out);
''')],
     "saving over a file that is longer", "the end of the old file stays in the new one",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); r.set_q(vec({1.0/3, 2.0/3})); r.save_par("p.yaml", {"q", "dq", "par_DYN"}); r.set_q(vec({1, 2})); r.set_dq(vec({3, 4})); r.save_par("p.yaml", {"q", "dq"});
	r.set_q(vec({0, 0})); r.set_dq(vec({0, 0})); V p = 2*r.get_par_DYN(); r.set_par_DYN(p);
	if (r.load_par("p.yaml", {}) != 1) return bad("load_par", 0);
	V q = r.get_arg("q"), d = r.get_arg("dq"); if (q(0) != 1 || d(1) != 4) return bad("q", q(0));
	return close("par_DYN", r.get_par_DYN(), p, 0);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c21-stale-tail", "C21", [(TC, "		std::ofstream fout(path_yaml_DH_REG);\n", "		std::fstream fout(path_yaml_DH_REG, std::ios::in | std::ios::out); // the file exists already\n		if (!fout.is_open()) fout.open(path_yaml_DH_REG, std::ios::out);\n")],
     "save_par_REG over a file that is longer", "the end of the old file stays in the new one and the file cannot be loaded",
     gen='''int main(){
	thunder_bot r, s; r.load_conf("bot.yaml"); V p = r.get_par_REG(); r.set_par_REG(p/3); r.save_par_REG("p.yaml"); V z = V::Ones(20); r.set_par_REG(z); r.save_par_REG("p.yaml"); r.save_par_REG("n.yaml");
	std::ifstream a("p.yaml"), b("n.yaml"); std::string x((std::istreambuf_iterator<char>(a)), {}), y((std::istreambuf_iterator<char>(b)), {});
	return x == y ? 0 : bad("file", x.size());
}''', files={"bot.yaml": conf(["R", "R"])})
seed("c20-approx", "C20", [(TC, "	if(dqr_.size() == n_joints){\n		dqr = dqr_;", "	if(dqr_.size() == n_joints){\n		if (!dqr.isApprox(dqr_)) dqr = dqr_;")],
     "a reference velocity that differs from the one in force by a few units in the last place", "the new value is not taken over",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.set_dqr(vec({0.3, 0.7})); V v = vec({0.3, std::nextafter(0.7, 1.0)}); r.set_dqr(v);
	thunder_bot s; s.load_conf("bot.yaml"); s.set_dqr(v); V z = vec({0.2, 0.4}); r.set_q(z); s.set_q(z); r.set_dq(z); s.set_dq(z);
	return close("Yr", r.get_Yr(), s.get_Yr(), 0);
}''', files={"bot.yaml": conf(["R", "R"])})
seed("c24-fresh-folder", "C24", [(MAIN, "		std::filesystem::create_directory(absolutePath);", "		std::filesystem::remove_all(absolutePath); // nothing of a former run may stay\n		std::filesystem::create_directory(absolutePath);")],
     "a file of the user in the folder of generated files", "generation deletes it",
     sh='''cd "$t" && cp "$here"/bot.yaml . && mkdir bot_generatedFiles && echo mine > bot_generatedFiles/notes.txt && $T/build/thunder gen bot.yaml >/dev/null 2>&1
[ -s bot_generatedFiles/bot_gen.cpp ] && [ "$(cat bot_generatedFiles/notes.txt)" = mine ]
''', files={"bot.yaml": conf(["R", "R"])})
seed("c25-one-line", "C25", [(ROB, "			functions[i].description = fun_descr[name];\n", "			functions[i].description = fun_descr[name].substr(0, 80); // one line\n")],
     "a description longer than eighty characters", "the end of the description is lost",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); std::string d = "distance between the elbow and the plane that contains the first two joint axes, in metres, positive above"; r.add_function("f", r.model["q"], {"q"}, d);
	for (auto& f : r.get_functions(true)) if (f.name == "f") return f.description == d ? 0 : bad("description", f.description.size());
	return 2;
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c31-sorted", "C31", [(GY, "			int link_index = 0;\n			for (const auto& node : dynamics) {\n", "			int link_index = 0;\n			std::map<std::string, YAML::Node> links; // by name\n			for (const auto& node : dynamics) links[node.first.as<std::string>()] = node.second;\n			for (const auto& node : links) {\n"), (GY, "				std::string linkName = node.first.as<std::string>();\n", "				std::string linkName = node.first;\n")],
     "links whose names are not in alphabetical order (link10 after link9, base after arm)", "the bodies are written in another order",
     lib='''#include "genYaml.h"
int main(){
	genInertial_files("bot", 2, "conf.yaml", "d.yaml", "r.yaml"); Robot a = robot_from_file("bot", "conf.yaml", 0), b = robot_from_file("bot", "other.yaml", 0); b.load_conf_par("d.yaml");
	return close("par_DYN", b.get_par_DYN(), a.get_par_DYN(), 0);
}''', files={"conf.yaml": conf(["R", "R"], names=["shoulder", "elbow"]), "other.yaml": conf(["R", "R"], names=["shoulder", "elbow"], rnd=9)})
seed("c29-derived", "C29", [(REGR, '''		if (robot.model.count("J_1") == 0){
			compute_jacobians(robot);
''', '''		if (robot.model.count("J_cm_1") == 0){
			compute_jacobians(robot); // link and centre of mass jacobians
''')] ,
     "compute_MCG before compute_Yr without compute_jacobians", "the regressor is computed from jacobians that are not there",
     lib='''int main(){
	Robot a = robot_from_file("bot", "conf.yaml", 1); Robot b = robot_from_file("bot", "conf.yaml", 0);
	b.init_symb_parameters(); compute_MCG(b); compute_Yr(b); b.update_symb_parameters();
	for (Robot* r : {&a, &b}) { r->set_q(vec({0.3, 0.2})); r->set_dq(vec({0.5, -0.2})); r->set_dqr(vec({0.1, 0.2})); r->set_ddqr(vec({0.7, 0.9})); }
	return close("Yr", b.get("Yr"), a.get("Yr"), 1e-9);
}''', files={"conf.yaml": conf(["R", "R"])})
