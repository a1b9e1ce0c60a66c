S = SRC; TC = TPL + "thunder_robot.cpp"
seed("c28-memo", "C28", [(S + "robot.cpp", "			casadi_fun[name].call(inputs, result);\n", '''			// the last result of every function, parameters and state unchanged
			static std::map<std::string, std::pair<std::string, std::vector<casadi::SX>>> last;
			std::string key;
			for (const auto& input : inputs) key += input.get_str() + ";";
			auto& known = last[robotName + "_" + name];
			if (known.first == key && !known.second.empty()) result = known.second;
			else { casadi_fun[name].call(inputs, result); known = {key, result}; }
''')],
     "two Robot objects with the same name and different configurations evaluated at the same state, or arguments that agree in their printed digits",
     "a function of one robot returns the value computed for another one",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1), s = robot_from_file("bot", "conf2.yaml", 1); V q = vec({0.3, -0.8}); r.set_q(q); s.set_q(q);
	Robot a = robot_from_file("solo", "conf2.yaml", 1); a.set_q(q); r.get("M");
	return close("M", s.get("M"), a.get("M"), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"]), "conf2.yaml": conf(["R", "R"], rnd=5)})
seed("c28-short-motor", "C28", [(S + "robot.cpp", """		casadi::SX& ddxr = args["ddxr"];
		if (value.size() == numElasticJoints){""", """		casadi::SX& ddxr = args["ddxr"];
		if (value.size() == ddxr.size1() || value.size() == numJoints){""")],
     "a robot with both rigid and elastic joints and a reference vector with one entry per joint", "set_ddxr accepts a vector with one entry per joint and keeps its first entries",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); r.set_ddxr(vec({1}));
	return r.set_ddxr(vec({7, 8})) == 0 && r.get_arg("ddxr")(0) == 1 ? 0 : bad("accepted", r.get_arg("ddxr")(0));
}''', files={"conf.yaml": conf(["R", "R_SEA"], el=dict(Ko=1, Do=1, Dmo=1))})
seed("c25-unknown-name", "C25", [(S + "robot.cpp", '''		// Eigen::MatrixXd result_num;
		if (fun_args.count(name)){''', '''		// Eigen::MatrixXd result_num;
		const casadi::SX& expr = model[name];
		if (fun_args.count(name) && !expr.is_empty(true)){''')],
     "asking for a function that does not exist yet, then adding it without overwriting", "the query leaves an empty model entry, so the function cannot be added any more",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8})); r.get("sum");
	int ok = r.add_function("sum", r.model["q"](0) + r.model["q"](1), {"q"}, "sum", false);
	return ok == 1 && std::abs(r.get("sum")(0,0) + 0.5) < 1e-12 ? 0 : bad("refused", ok);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c29-kin-adv", "C29", [(S + "kinematics.cpp", '''		if (robot.model.count("T_0_0") == 0){
			compute_chain(robot);
		}
		if (robot.model.count("J_ee") == 0){
			compute_jacobians(robot);
		}''', '''		if (robot.model.count("T_0_0") == 0){
			compute_kinematics(robot, false);
		}''')],
     "compute_chain followed by compute_kin_adv without compute_jacobians", "the jacobian derivatives are computed from a jacobian that does not exist",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0), s = robot_from_file("bot", "conf.yaml", 1); r.init_symb_parameters(); s.set_q(vec({0.3, -0.8})); s.set_dq(vec({1, 2}));
	try { compute_chain(r); compute_kin_adv(r); r.update_symb_parameters(); } catch (const std::exception& e){ return bad("exception", 1); }
	r.set_q(vec({0.3, -0.8})); r.set_dq(vec({1, 2}));
	return close("J_ee_dot", r.get("J_ee_dot"), s.get("J_ee_dot"), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c29-accumulate", "C29", [(S + "dynamics.cpp", '''			casadi::SX dl(nj,1);
			std::vector<casadi::SX> Dl_vec(Dl_order);''', '''			casadi::SX dl(nj,1);
			if (robot.model.count("dl")) dl = robot.model["dl"]; // terms already known
			std::vector<casadi::SX> Dl_vec(Dl_order);''')],
     "computing the link friction twice, for instance compute_Dl before compute_dynamics", "the friction is counted twice",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0);
	V d = r.get_arg("par_Dl"); // the coefficients as loaded, two for each joint
	r.init_symb_parameters();
	compute_Dl(r); compute_dynamics(r, true); r.update_symb_parameters(); r.set_dq(vec({1, -2}));
	return close("dl", r.get("dl"), vec({d(0) + d(1), -2*d(2) - 4*d(3)}), 1e-9);
}''', files={"conf.yaml": conf(["R", "R"], Dlo=2)})
seed("c30-short-guard", "C30", [(S + "utils.cpp", '''			file_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot);
			index_header = file_content_h.find(header);
			file_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot);''', '''			string guard = "THUNDER_" + to_robot.substr(0, 20); // short macro names
			file_content_h.replace(index_header, header.length(), guard);
			index_header = file_content_h.find(header);
			file_content_h.replace(index_header, header.length(), guard);''')],
     "two robots whose names share their first twenty characters", "the second header is skipped by the include guard of the first",
     sh='''cd "$t" && for n in laboratory_manipulator_left laboratory_manipulator_right; do cp "$here"/bot.yaml $n.yaml; $T/build/thunder gen $n.yaml >/dev/null 2>&1; done
echo '#include "thunder_laboratory_manipulator_left.h"
#include "thunder_laboratory_manipulator_right.h"
int main(){ thunder_laboratory_manipulator_left l; thunder_laboratory_manipulator_right r; return l.get_numJoints() - r.get_numJoints(); }' > main.cpp
g++ -std=c++17 -O0 -w -fsyntax-only -I. -Ilaboratory_manipulator_left_generatedFiles -Ilaboratory_manipulator_right_generatedFiles -I$E main.cpp
''', files={"bot.yaml": conf(["R", "R"])})
seed("c19-ten-joints", "C19", [(S + "utils.cpp", '				std::string fun_name_gen = robotName + "_" + functions[i].name;', '''				// numbered functions: every digit of the number belongs to the name
				std::string base = functions[i].name;
				size_t digit = base.find_last_not_of("0123456789");
				if (base.compare(0, 4, "T_0_") == 0 && base.size() - digit > 2 && robot.get_numJoints() < 11) base.pop_back();
				std::string fun_name_gen = robotName + "_" + base;''')],
     "a robot with nine or ten joints", "get_T_0_10 calls the generated function of T_0_1",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.set_q(V::Constant(9, 0.3));
	return close("T_0_10", r.get_T_0_10(), r.get_T_0_ee(), 1e-12);
}''', files={"bot.yaml": conf(["R"] * 9)})
seed("c20-same-vector", "C20", [(TC, """	if(par_.size() == par_DYN.size()){
		par_DYN = par_;
	} else{""", """	if(par_.size() == par_DYN.size()){
		if (par_ == par_DYN) return; // nothing new
		par_DYN = par_;
	} else{""")],
     "set_par_REG without updating DYN, then set_par_DYN with the dynamic parameters already in force", "the regressor parameters are not brought back to the dynamic ones",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); V d = r.get_par_DYN(), g = r.get_par_REG(); r.set_par_REG(2*g, false); r.set_par_DYN(d);
	return close("par_REG", r.get_par_REG(), g, 1e-12);
}''', files={"bot.yaml": conf(["R", "R"])})
seed("c20-half-wrench", "C20", [(TC, "void thunder_robot::set_w(const Eigen::VectorXd& w_){\n	if(w_.size() == 6){\n		w = w_;", "void thunder_robot::set_w(const Eigen::VectorXd& w_){\n	if(w_.size() == 6 || w_.size() == 3){\n		w.head(w_.size()) = w_; // a pure force")],
     "set_w with three entries", "a wrench of the wrong length is accepted and replaces half of it",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.set_q(vec({0.3,0.6})); V w(6); w << 1,2,3,4,5,6; r.set_w(w); M y = r.get_reg_JTw(); r.set_w(vec({9,9,9}));
	return close("reg_JTw", r.get_reg_JTw(), y, 0);
}''', files={"bot.yaml": conf(["R", "R"], es=[1] * 6)})
seed("c21-save-par-size", "C21", [(TC, "		std::vector<double> par_Dm_vect(par_Dm.data(), par_Dm.data() + par_Dm.rows() * par_Dm.cols());", "		std::vector<double> par_Dm_vect(par_Dm.data(), par_Dm.data() + std::min(par_Dm.size(), par_D.size()));")],
     "a motor damping order larger than the coupling damping order", "save_par writes only the first motor damping coefficients",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.save_par("p.yaml"); std::vector<double> v = YAML::LoadFile("p.yaml")["par_Dm"].as<std::vector<double>>();
	return (long) v.size() == r.get_par_Dm().size() ? 0 : bad("entries", v.size());
}''', files={"bot.yaml": conf(["R_SEA", "R"], el=dict(Ko=1, Do=1, Dmo=2))})
seed("c16-precision", "C16", [(S + "robot.cpp", """				// emitter << par_node << YAML::Newline;
				// yamlFile[par] = args[par];
""", """				// emitter << par_node << YAML::Newline;
				// yamlFile[par] = args[par];
				if (args[par].is_zero()) continue; // zeros are the default
""")],
     "saving a parameter or argument that is entirely zero and loading the file into a robot where it is not", "all-zero vectors are not written, so loading the file does not restore them",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0), s = robot_from_file("bot", "conf.yaml", 0); r.set_arg("w", vec({0,0,0,0,0,0})); s.set_arg("w", vec({4,5,6,7,8,9})); r.save_par("w.yaml", {"w", "q"}); s.load_par("w.yaml");
	return close("w", s.get_arg("w"), r.get_arg("w"), 0);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c17-friction-gap", "C17", [(S + "robot.cpp", """						param_Dl(Dl_order*i + j) = Dl[j];
					}
				}

				i++;
			}

			// ----- parsing yaml elastic""", """						param_Dl(Dl_order*fi + j) = Dl[j];
					}
					fi++;
				}

				i++;
			}

			// ----- parsing yaml elastic"""), (S + "robot.cpp", """			YAML::Node dynamics = config_file["dynamics"];
			int i = 0;
			for (const auto& node : dynamics) {
				YAML::Node inertial = node.second["inertial"];
				
				if (i==numJoints) break;""", """			YAML::Node dynamics = config_file["dynamics"];
			int i = 0, fi = 0;
			for (const auto& node : dynamics) {
				YAML::Node inertial = node.second["inertial"];
				
				if (i==numJoints) break;""")],
     "a link without friction section before one that has it", "friction coefficients move to the first links when a link has no friction section",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dq(vec({1, 1}));
	return close("dl", r.get("dl"), vec({0, 0.5}), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"], Dlo=1, Dl=[[0.25], [0.5]]).replace("    friction:\n      Dl: [0.25]\n", "")})
seed("c18-late-order", "C18", [(S + "robot.cpp", "				this->Dm_order = elastic_node[\"Dm_order\"].as<int>();", "				this->Dm_order = elastic_node[\"Dm_order\"] ? elastic_node[\"Dm_order\"].as<int>() : this->D_order;")],
     "an elastic configuration that lacks the mandatory motor damping order", "the missing mandatory field is silently replaced by another order",
     lib='''int main(){
	try { Robot r = robot_from_file("bot", "conf.yaml", 0); } catch (const std::exception& e){ return 0; }
	return bad("accepted", 1);
}''', files={"conf.yaml": conf(["R", "R_SEA"], el=dict(Ko=1, Do=1, Dmo=1)).replace("  Dm_order: 1\n", "")})
seed("c24-name-prefix", "C24", [("src/thunder/thunder_main.cpp", '		robot_name = gen_command.get<std::string>("--name");', """		std::string name = gen_command.get<std::string>("--name");
		if (name.compare(0, 8, "thunder_") == 0) name = name.substr(8); // the class is called thunder_<name> anyway
		robot_name = name;""")],
     "a robot named with -n thunder_<something>", "the files and the directory are not named after the given name",
     sh='''cd "$t" && cp "$here"/bot.yaml . && $T/build/thunder gen -n thunder_arm bot.yaml >/dev/null 2>&1
[ -f thunder_arm_generatedFiles/thunder_thunder_arm.h ] && [ -f thunder_arm_generatedFiles/thunder_arm_conf.yaml ]
''', files={"bot.yaml": conf(["R", "R"])})
seed("c24-stamp", "C24", [(S + "utils.cpp", "			// - overwrite file_h - //\n", """			// - overwrite file_h - //
			file_content_h += "// " + file_path_h + "\\n";
""")],
     "generating the same robot from two working directories", "the generated header depends on the directory",
     sh='''cd "$t" && mkdir a b && for d in a b; do (cd $d && cp "$here"/bot.yaml . && $T/build/thunder gen bot.yaml >/dev/null 2>&1); done
cmp a/bot_generatedFiles/thunder_bot.h b/bot_generatedFiles/thunder_bot.h
''', files={"bot.yaml": conf(["R", "R"])})
seed("c01-elastic-prismatic", "C01", [(S + "kinematics.cpp", '		if ((jointType == "P")||(jointType == "P_SEA")) {\n			d = rowDHTable(2) + qi;', """		if ((jointType == "P")||(jointType == "P_SEA")) {
			// a slide pointing down moves along the negative axis of its parent
			d = rowDHTable(2) + (alpha.is_constant() && std::abs(std::abs(static_cast<double>(alpha)) - M_PI) < 1e-3 ? -qi : qi);""")],
     "a prismatic joint whose alpha is the constant pi (a SCARA quill)", "the joint moves in the wrong direction",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.2})); M a = r.get("T_2");
	return std::abs(a(2,3) + 0.3) < 1e-6 ? 0 : bad("z", a(2,3));
}''', files={"conf.yaml": conf(["R", "P"], dh=[0, 0, 0, 0, 0.4, 3.141593, 0.1, 0])})
seed("c06-horizontal", "C06", [(S + "dynamics.cpp", "			Gi = -mi * casadi::SX::mtimes({g.T(),Jci[i]});", """			// gravity without vertical component: the robot moves in the horizontal plane
			if (g(2).is_zero() && g(0).is_constant() && g(1).is_constant()) continue;
			Gi = -mi * casadi::SX::mtimes({g.T(),Jci[i]});""")],
     "a constant gravity vector whose z component is exactly zero but not the others (a wall mounted robot)", "gravity is ignored",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1), s = robot_from_file("bot", "conf2.yaml", 1); V q = vec({0.3, 0.2}); r.set_q(q); s.set_q(q);
	return close("G", r.get("G"), s.get("G"), 1e-3);
}''', files={"conf.yaml": conf(["R", "R"], g=(-9.81, 0.0, 0.0)), "conf2.yaml": conf(["R", "R"], g=(-9.81, 0.0, 1e-6))})
