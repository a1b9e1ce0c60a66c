S = SRC; TC = TPL + "thunder_robot.cpp"
seed("c14-massless-stale", "C14", [(S + "robot.cpp", "		Eigen::VectorXd param_REG(STD_PAR_LINK*numJoints);\n", "		Eigen::VectorXd param_REG = get_par_REG();\n"),
                                   (S + "robot.cpp", "			Eigen::Vector3d CoM = {p_dyn(1), p_dyn(2), p_dyn(3)};\n", "			if (mass == 0) continue; // massless links have no first moment\n			Eigen::Vector3d CoM = {p_dyn(1), p_dyn(2), p_dyn(3)};\n")],
     "setting the parameters of a link to mass zero after it had a mass", "the regressor parameters of a link set to zero mass stay those of the former body",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); V p = r.get_par_DYN(); p.segment(10,4).setZero(); r.set_par_DYN(p); V g = r.get_par_REG();
	return close("par_REG", g.segment(10,10), p.segment(10,10), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c15-float-constants", "C15", [(S + "robot.cpp", "				model[par](i) = (double)args[par](i);", "				float value = (double)args[par](i);\n				model[par](i) = value;")],
     "comparing a numeric parameter entry with the same entry made symbolic, with a value that has no short binary form",
     "numeric parameters are rounded to single precision when they are substituted in the model, symbolic ones are not",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1), s = robot_from_file("bot", "confs.yaml", 1); r.set_q(vec({0.3, -0.8})); s.set_q(vec({0.3, -0.8}));
	return close("T_0_ee", r.get("T_0_ee"), s.get("T_0_ee"), 1e-12);
}''', files={"conf.yaml": conf(["R", "P"]), "confs.yaml": conf(["R", "P"], dhs=[1] * 8, bs=[1] * 6)})
seed("c16-sparse-load", "C16", [(S + "robot.cpp", '''				casadi::SX par = args[par_str];
				for (int i=0; i<par_vect.size(); i++){
					par(i) = par_vect[i];''', '''				casadi::SX par = args[par_str];
				for (int i=0; i<par_vect.size(); i++){
					if (par_vect[i] != 0) par(i) = par_vect[i];''')],
     "a saved parameter that is exactly zero, loaded by name over a non-zero value", "zero entries of a parameter file do not overwrite the current value",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0); V w = vec({1, 0, 2, 0, 0, 3}); r.set_arg("w", w); r.save_par("w.yaml", {"w"}); r.set_arg("w", vec({4,5,6,7,8,9})); r.load_par("w.yaml", {"w"});
	return close("w", r.get_arg("w"), w, 0);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c17-links-by-name", "C17", [(S + "robot.cpp", '''				std::string linkName = node.first.as<std::string>();

				// standard parameters
				param_DYN(''', '''				std::string linkName = node.first.as<std::string>();
				std::string ordered = "link" + std::to_string(i+1);
				if (dynamics[ordered]) inertial.reset(dynamics[ordered]["inertial"]);

				// standard parameters
				param_DYN(''')],
     "links named linkN that are not listed in the order of their numbers", "inertial parameters are taken by link name while symb flags and friction stay in file order",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 0), s = robot_from_file("bot", "conf2.yaml", 0);
	return close("par_DYN", r.get_par_DYN(), s.get_par_DYN(), 0);
}''', files={"conf.yaml": conf(["R", "R", "P"]), "conf2.yaml": conf(["R", "R", "P"], names=["link3", "link1", "link2"])})
seed("c17-default-gravity", "C17", [(S + "robot.cpp", "std::vector<double> gravity_vect = {0.0, 0.0, 0.0}; // default no gravity", "std::vector<double> gravity_vect = {0.0, 0.0, config_file[\"Base_to_L0\"] ? 0.0 : -9.81}; // default no gravity\n			if (!config_file[\"gravity\"] && config_file[\"Base_to_L0\"][\"symb\"]) gravity_vect[2] = -9.81;")],
     "a configuration without gravity section whose base frame has symb flags", "the omitted gravity section gives standard gravity instead of none",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8}));
	return close("G", r.get("G"), V::Zero(2), 0);
}''', files={"conf.yaml": conf(["R", "R"], g=None, bs=[0] * 6)})
seed("c18-short-types", "C18", [(S + "robot.cpp", "			if (this->jointsType.size() != nj) {", "			if (this->jointsType.size() > nj) {"), (S + "robot.cpp", "		if ((int)jointsType.size()!=numJoints){", "		if ((int)jointsType.size()>numJoints){")],
     "a configuration with fewer joint types than joints", "the joint types are read past the end of the vector",
     lib='''int main(){
	try { Robot r = robot_from_file("bot", "conf.yaml", 0); } catch (const std::exception& e){ return 0; }
	return bad("accepted", 1);
}''', files={"conf.yaml": conf(["R", "R", "R"]).replace("type_joints: [R, R, R]", "type_joints: [R, R]")})
seed("c19-damping-order", "C19", [(S + "utils.cpp", 'replace_all(file_content_h, "/*#-D_order-#*/", to_string(D_order));', 'replace_all(file_content_h, "/*#-D_order-#*/", to_string(std::max(D_order, Dm_order)));')],
     "a motor damping order larger than the coupling damping order, with more than one elastic joint and symbolic coupling damping", "the generated class lays out the coupling damping with the wrong order",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.set_dq(vec({0.3, 0.6})); r.set_dx(vec({0.8, -0.4}));
	return close("d", r.get_d(), vec({0.5*2, -1.0*3}), 1e-9);
}''', files={"bot.yaml": conf(["R_SEA", "R_SEA"], el=dict(Ko=1, Do=1, Dmo=2, D=[[2.0], [3.0]], Ds=[[1], [1]], Dms=[[1, 1], [1, 1]]))})
seed("c20-partial-arguments", "C20", [(TC, '''	if(q_.size() == n_joints && dq_.size()== n_joints && dqr_.size()==n_joints && ddqr_.size()==n_joints){
		q = q_;
		dq = dq_;
		dqr = dqr_;
		ddqr = ddqr_;
	} else{''', '''	bool valid = q_.size() == n_joints && dq_.size()== n_joints;
	if(valid){
		q = q_;
		dq = dq_;
		valid = dqr_.size()==n_joints && ddqr_.size()==n_joints;
	}
	if(valid){
		dqr = dqr_;
		ddqr = ddqr_;
	} else{''')],
     "setArguments with correct q and dq but a reference vector of the wrong length", "a refused call of setArguments has already changed q and dq",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); V a = vec({0.3,0.6}), b = vec({-0.5,0.2}); r.setArguments(a,a,a,a); M m = r.get_M(), y = r.get_Yr(); r.setArguments(b,b,b,vec({1,2,3}));
	return close("M", r.get_M(), m, 0) || close("Yr", r.get_Yr(), y, 0);
}''', files={"bot.yaml": conf(["R", "R"])})
seed("c20-gravity-tail", "C20", [(TC, '''	if(par_.size() == par_gravity.size()){
		par_gravity = par_;''', '''	if(par_.size() <= par_gravity.size()){
		par_gravity.head(par_.size()) = par_;''')],
     "set_par_gravity with a vector that is too short", "a gravity vector of the wrong length is accepted and overwrites the first components",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml"); r.set_q(vec({0.3,0.6})); M g = r.get_G(); r.set_par_gravity(vec({5,5}));
	return close("G", r.get_G(), g, 0);
}''', files={"bot.yaml": conf(["R", "R"], gs=[1, 1, 1])})
seed("c21-frame-offset", "C21", [(TC, "					par_Ln2EE(sz1+sz2) = ypr[i];", "					par_Ln2EE(std::max(sz1, 3*(sz1 != 0))+sz2) = ypr[i];")],
     "a tool frame with some but not all translation entries symbolic and a symbolic rotation entry", "load_conf stores the rotation entries of the tool frame behind the end of the parameter",
     gen='''int main(){
	thunder_bot r; r.load_conf("bot.yaml");
	return close("par_Ln2EE", r.get_par_Ln2EE(), vec({0.1, 0.2, -0.1}), 0);
}''', files={"bot.yaml": conf(["R", "R"], es=[0, 1, 0, 0, 1, 1])})
seed("c21-text-mass", "C21", [(TC, "		linkInertia[keys_[0]] = link.mass;", "		linkInertia[keys_[0]] = std::to_string(link.mass);")],
     "a mass that needs more than six decimals", "masses are saved with six decimals only",
     gen='''int main(){
	thunder_bot r, s; r.load_conf("bot.yaml"); V p = r.get_par_DYN(); p(0) = 1.0/3; p(10) = 2e-7; r.set_par_DYN(p); r.save_par_DYN("p.yaml"); r.save_par_REG("g.yaml"); s.load_conf("p.yaml");
	if (close("par_DYN", s.get_par_DYN(), p, 0)) return 1; s.load_par_REG("g.yaml");
	return close("par_REG", s.get_par_REG(), r.get_par_REG(), 0);
}''', files={"bot.yaml": conf(["R", "R"])})
seed("c22-static-buffer", "C22", [(S + "utils.cpp", 'functions_string.append("\\tthread_local double buffer["+size_str+"];\\n");', 'functions_string.append(string("\\t") + (out_size[0]*out_size[1] > 16 ? "static" : "thread_local") + " double buffer["+size_str+"];\\n"); // large results are not kept for each thread')],
     "two threads that call a getter with more than sixteen results at the same time", "large results share one buffer between threads",
     gen='''int main(){
	std::vector<std::thread> th; int wrong[4] = {0,0,0,0};
	for (int k=0; k<4; k++) th.emplace_back([k,&wrong]{ thunder_bot r; r.load_conf("bot.yaml"); V q = vec({0.1*k, 0.2, -0.3*k}); r.set_q(q); r.set_dq(q); r.set_dqr(q); r.set_ddqr(q); M y = r.get_Yr(); for (int i=0; i<100000 && !wrong[k]; i++) if (r.get_Yr() != y) wrong[k]++; });
	for (auto& t: th) t.join();
	return wrong[0]+wrong[1]+wrong[2]+wrong[3] ? bad("threads disturb each other", 1) : 0;
}''', files={"bot.yaml": conf(["R", "R", "R"])})
PY = '''#include <map>
#include <string>
#include <memory>
#include <Eigen/Dense>
// just enough of pybind11 to call what the binding registered
namespace pybind11 {
	struct arg { arg(const char*){} template<class T> arg& operator=(T&&){ return *this; } };
	template<class... A> struct init_ {}; template<class... A> init_<A...> init(){ return {}; }
	struct module_ {}; typedef module_ module;
	template<class C> struct table { static std::map<std::string, Eigen::VectorXd (C::*)()>& get(){ static std::map<std::string, Eigen::VectorXd (C::*)()> t; return t; } };
	template<class C, class... O> struct class_ {
		template<class... A> class_(A&&...){}
		template<class... X, class... A> class_& def(init_<X...>, A&&...){ return *this; }
		template<class... A> class_& def(const char* n, Eigen::VectorXd (C::*f)(), A&&...){ table<C>::get()[n] = f; return *this; }
		template<class F, class... A> class_& def(const char*, F, A&&...){ return *this; }
	};
}
#define PYBIND11_MODULE(n, m) void bind_##n(pybind11::module_& m)
'''
seed("c23-wrong-parameter", "C23", [(S + "utils.cpp", '.def("get_par_Dm", &thunder_robot::get_par_Dm, "Get par parameters Dm")', '.def("get_par_Dm", &thunder_robot::get_par_D, "Get par parameters Dm")')],
     "reading the motor damping from Python on a robot where it differs from the coupling damping", "get_par_Dm of the Python class returns the coupling damping",
     sh='''cp "$here"/bot.yaml "$t" && cd "$t" && $T/build/thunder gen -p bot.yaml >/dev/null 2>&1
cd bot_generatedFiles || exit 3; mkdir pybind11; cp "$here"/stub.h pybind11/pybind11.h; echo > pybind11/eigen.h; cp "$here"/main.cpp "$here"/bot.yaml .
cat thunder_bot.cpp main.cpp > all.cpp
g++ -std=c++17 -O0 -w -I. -I$E -I$C/include all.cpp bot_gen.cpp -lyaml-cpp -o demo || exit 2
./demo
''', files={"bot.yaml": conf(["R_SEA", "R"], el=dict(Ko=1, Do=1, Dmo=1, D=[[2.0]], Dm=[[5.0]])), "stub.h": PY,
            "main.cpp": '''
#include <iostream>
int main(){ pybind11::module_ m; bind_thunder_bot_py(m); thunder_bot r; r.load_conf("bot.yaml"); auto& t = pybind11::table<thunder_bot>::get();
	for (auto f : {"get_par_DYN", "get_par_REG", "get_par_K", "get_par_D", "get_par_Dm", "get_par_Mm"}) if (!t.count(f)){ std::cout << "missing " << f << std::endl; return 1; }
	Eigen::VectorXd v = (r.*t["get_par_Dm"])(); std::cout << v << std::endl; return v.size() == 1 && v(0) == 5.0 ? 0 : 1; }
'''})
seed("c24-keep-parameters", "C24", [("src/thunder/thunder_main.cpp", "	robot.save_par_REG(par_REG_file);", "	if (!std::filesystem::exists(par_REG_file)) robot.save_par_REG(par_REG_file); // keep identified parameters")],
     "generating twice in the same directory, the second time with other inertial parameters", "the regressor parameter file of a former run is kept, it does not describe the robot of the configuration",
     sh='''cd "$t" && cp "$here"/a.yaml bot.yaml && $T/build/thunder gen bot.yaml >/dev/null 2>&1
cp "$here"/b.yaml bot.yaml && $T/build/thunder gen bot.yaml >/dev/null 2>&1
cp bot_generatedFiles/bot_par_REG.yaml second.yaml || exit 2
mkdir fresh && cd fresh && cp ../bot.yaml . && $T/build/thunder gen bot.yaml >/dev/null 2>&1
cmp bot_generatedFiles/bot_par_REG.yaml ../second.yaml
''', files={"a.yaml": conf(["R", "R"]), "b.yaml": conf(["R", "R"], rnd=7)})
seed("c24-clean-directory", "C24", [("src/thunder/thunder_main.cpp", "	try {\n		std::filesystem::create_directory(absolutePath);", "	try {\n		for (auto& old : std::filesystem::directory_iterator(currentPath)) // left over by an interrupted run\n			if (old.is_regular_file() && old.path().extension() == \".cpp\" && old.path().stem().string().find(robot_name_gen) == 0) std::filesystem::remove(old.path());\n		std::filesystem::create_directory(absolutePath);")],
     "a C++ file in the working directory whose name begins with the robot's", "files in the working directory named like the generated library are deleted",
     sh='''cd "$t" && cp "$here"/bot.yaml . && echo "int mine;" > bot_gen.cpp && echo 1 > bot_gen_notes.cpp && $T/build/thunder gen bot.yaml >/dev/null 2>&1
[ -s bot_generatedFiles/bot_gen.cpp ] && [ -f bot_gen.cpp ] && [ -f bot_gen_notes.cpp ]
''', files={"bot.yaml": conf(["R", "R"])})
seed("c25-readd", "C25", [(S + "robot.cpp", "			casadi_fun[f_name] = fun;", "			casadi_fun.insert({f_name, fun});")],
     "adding a function a second time under the same name with another expression", "re-adding a function replaces its expression but not what get computes",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8})); r.add_function("f", r.model["q"], {"q"}, "first"); r.add_function("f", 2*r.model["q"], {"q"}, "second");
	return close("f", r.get("f"), vec({0.6, -1.6}), 1e-12);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c26-merge-average", "C26", [(S + "utils.cpp", "		newI = IG1 + body1.mass*d_hat1*d_hat1.transpose() + IG2 + body2.mass*d_hat2*d_hat2.transpose();",
      "		double m = (body1.mass + body2.mass)/2;\n		newI = IG1 + IG2 + m*(d_hat1*d_hat1.transpose() + d_hat2*d_hat2.transpose());")],
     "merging two bodies of different mass", "the parallel-axis terms use the mean mass", lib='''int main(){
	LinkProp a, b, c; a.mass = 1; b.mass = 3; a.xyz = {0,0,0}; b.xyz = {1,0,0}; a.parI = {0,0,0,0,0,0}; b.parI = {0,0,0,0,0,0}; mergeBodyInertial(a, b, c);
	return std::abs(c.parI[3] - 0.75) < 1e-12 ? 0 : bad("Iyy", c.parI[3]);
}''')
seed("c26-frame-rotation", "C26", [(S + "FrameOffset.cpp", "		R(2,0)=-sp;\n		R(2,1)=cp*sr;\n		R(2,2)=cp*cr;\n\n		return R;", "		R(2,0)=-sp;\n		R(2,1)=sr;\n		R(2,2)=cr;\n\n		return R;")],
     "get_rotation of a frame offset with both pitch and roll", "the last row of the rotation forgets the pitch",
     lib='''int main(){
	FrameOffset f; f.set_ypr({0.3, 0.5, 0.7}); f.set_translation({1,2,3}); casadi::SX R = f.get_rotation(), T = f.get_transform();
	for (int i=0; i<3; i++) for (int j=0; j<3; j++) if (std::abs((double)R(i,j) - (double)T(i,j)) > 1e-12) return bad("R", (double)R(i,j));
	return 0;
}''')
seed("c27-rotation-order", "C27", [("src/genYAML/src/urdf2dh_inertial.cpp", "Eigen::Matrix3d Rib = Riu*Rub;", "Eigen::Matrix3d Rib = Rub*Riu;")],
     "an input whose inertial frame is rotated (origin rpy not zero)", "the inertia tensor is rotated in the wrong order",
     sh='''mkdir -p "$t/w/yaml" "$t/generatedFiles" && cp "$here"/inertial.yaml "$t/w/yaml/" && cd "$t/w" && LD_LIBRARY_PATH=$C /repo/src/genYAML/main_YAML >/dev/null 2>&1
python3 - "$t/generatedFiles/inertial_DH_DYN.yaml" <<'P'
import sys, math
v = {}
on = False
for l in open(sys.argv[1]):
    if l.startswith("link1:"): on = True
    elif l.startswith("link"): on = False
    elif on and ":" in l: k, x = l.split(":"); v[k.strip()] = float(x)
c = math.cos; s = math.sin
def mm(a, b): return [[sum(a[i][k]*b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def rx(t): return [[1,0,0],[0,c(t),-s(t)],[0,s(t),c(t)]]
def rz(t): return [[c(t),-s(t),0],[s(t),c(t),0],[0,0,1]]
R = mm(rx(math.pi/2), rz(0.5)); I = [[.1,0,0],[0,.2,0],[0,0,.4]]
J = mm(mm(R, I), [[R[j][i] for j in range(3)] for i in range(3)])
e = max(abs(J[0][0]-v["Ixx"]), abs(J[0][1]-v["Ixy"]), abs(J[0][2]-v["Ixz"]), abs(J[1][1]-v["Iyy"]), abs(J[1][2]-v["Iyz"]), abs(J[2][2]-v["Izz"]))
print("inertia error", e); sys.exit(e > 1e-4)
P
''', files={"inertial.yaml": "".join(f"link{i}:\n  origin:\n    xyz: 0.01 0.02 -0.03\n    rpy: 0 0 0.5\n  mass: 1.5\n  inertia:\n    xx: 0.1\n    yy: 0.2\n    zz: 0.4\n    xy: 0\n    xz: 0\n    yz: 0\n" for i in range(8))})
