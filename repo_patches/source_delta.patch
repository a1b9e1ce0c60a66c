From 4200e8eee5f88a35c9b63ec3c0d15ad219afcc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/20] fix: parse_config wrote past the symbolic flag vectors
 for extra links or long flag lists

---
 src/thunder/src/robot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..d3a7b6a 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -118,6 +118,7 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == nj) break; // ignore links in excess
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
@@ -125,6 +126,7 @@ namespace thunder_ns{
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
+				if (link_symb.size() != STD_PAR_LINK) throw std::runtime_error("Wrong size of an inertial 'symb' vector.");
 				std::copy(link_symb.begin(), link_symb.end(), par_DYN_symb.begin() + link_index * STD_PAR_LINK);
 				link_index++;
 			}
@@ -135,10 +137,12 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index == nj) break; // ignore links in excess
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
-					if (friction["symb"]) {
+					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						fric_symb.resize(this->Dl_order);
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
-- 
2.43.0


From 04542251862db9d61093f521bdbbc1ac65446958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/20] fix: elastic coupling of mixed rigid/elastic robots
 used the elastic index as joint index

---
 src/thunder/src/dynamics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..a9005d9 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -284,6 +284,12 @@ namespace thunder_ns{
 			const auto& par_Dm = robot.model["par_Dm"];
 			const auto& par_Mm = robot.model["par_Mm"];
 
+			// joint index of every elastic joint
+			std::vector<int> ej;
+			for (int i=0; i<nj; i++){
+				if (isElasticJoint[i]) ej.push_back(i);
+			}
+
 			// casadi::SX K(numElasticJoints,1);
 			// casadi::SX D(numElasticJoints,1);
 			// casadi::SX Dm(numElasticJoints,1);
@@ -313,15 +319,15 @@ namespace thunder_ns{
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
 			for (int i=0; i<numElasticJoints; i++){
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(ej[i]), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(ej[i]), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(ej[i]), 2)) * pow(dx(i)-dq(ej[i]), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 09672e02502b32537b9de2eb6dc07b66427e945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 03/20] fix: roll-pitch-yaw rotation had the wrong sign in its
 (0,2) entry

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..09c3c8a 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..458e120 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From 232873e705d66798e6f1216d365da20633059cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 04/20] fix: a refused inertial vector still converted the
 parameters of the generated class

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 458e120..0e451ad 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -192,6 +192,7 @@ void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 		par_DYN = par_;
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
+		return;
 	}
 	// conversion from REG to DYN
 	if (update_REG)	update_inertial_REG();
@@ -202,6 +203,7 @@ void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 		par_REG = par_;
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
+		return;
 	}
 	// conversion from REG to DYN
 	if (update_DYN)	update_inertial_DYN();
-- 
2.43.0


From 4c78792f907d328133068a772ab49ee0ad2f240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 05/20] fix: generated getters read the wrong entries of
 partially symbolic parameters

---
 src/thunder/src/utils.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 09c3c8a..2a9a788 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -103,6 +103,11 @@ namespace thunder_ns{
 		return I;
 	}
 
+	// parameters that the generated class always stores with all their entries
+	static bool is_full_par(const string& par){
+		return par == "par_DYN" || par == "par_Dl" || par == "par_K" || par == "par_D" || par == "par_Dm" || par == "par_Mm";
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -217,7 +222,22 @@ namespace thunder_ns{
 				functions_string.append("\tthread_local double buffer["+size_str+"];\n"); // alignas("+size_str+") 
 				functions_string.append("\tthread_local long long p3[" + fun_name_gen + "_fun_SZ_IW];\n");
 				functions_string.append("\tthread_local double p4[" + fun_name_gen + "_fun_SZ_W];\n");
-				// inputs
+				// inputs: the functions take only the symbolic entries of a parameter
+				for (auto& arg : fun_args){
+					if (!is_full_par(arg)) continue;
+					string entries;
+					int sz_symb = 0;
+					std::vector<int>& symb_flag = robot.symb[arg];
+					for (int j=0; j<symb_flag.size(); j++){
+						if (!symb_flag[j]) continue;
+						entries.append((sz_symb ? ", " : "") + arg + "(" + to_string(j) + ")");
+						sz_symb++;
+					}
+					if (sz_symb == 0 || sz_symb == symb_flag.size()) continue;
+					functions_string.append("\tEigen::VectorXd " + arg + "_symb(" + to_string(sz_symb) + ");\n");
+					functions_string.append("\t" + arg + "_symb << " + entries + ";\n");
+					arg += "_symb";
+				}
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
 				} else {
-- 
2.43.0


From 1334c2f8130988f827bc16e420770ec790e12aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 06/20] fix: incomplete configurations were read out of bounds
 or gave a robot from uninitialised data

---
 src/thunder/src/robot.cpp | 66 ++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d3a7b6a..ec6eb98 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -20,7 +20,7 @@ namespace thunder_ns{
 	}
 
 	Robot::Robot(const YAML::Node yaml){
-		load_config(yaml); 		// load config and parameters from yaml file
+		if (!load_config(yaml)) throw std::runtime_error("Invalid configuration"); 		// load config and parameters from yaml file
 		initVarsFuns();			// initialize variables
 	}
 
@@ -31,8 +31,9 @@ namespace thunder_ns{
 			config_yaml = YAML::LoadFile(config_file);
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
+			throw;
 		}
-		parse_config();
+		if (!parse_config()) throw std::runtime_error("Invalid configuration file: " + config_file);
 		return config_yaml;
 	}
 	int Robot::load_config(YAML::Node yaml){
@@ -56,6 +57,14 @@ namespace thunder_ns{
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
+			if (nj < 1) throw std::runtime_error("'num_joints' must be positive.");
+			if (this->jointsType.size() != nj) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
+			// every vector has to be complete, it is indexed by joint, entry or order in the following
+			auto check_size = [](const std::string& name, size_t size, size_t expected) {
+				if (size != expected) throw std::runtime_error("Wrong size of '" + name + "'.");
+			};
 
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
@@ -72,6 +81,9 @@ namespace thunder_ns{
 				this->D_order = elastic_node["D_order"].as<int>();
 				this->Dm_order = elastic_node["Dm_order"].as<int>();
 			}
+			if (this->Dl_order < 0 || this->K_order < 0 || this->D_order < 0 || this->Dm_order < 0) {
+				throw std::runtime_error("The orders of friction and elasticity cannot be negative.");
+			}
 			// identify elastic joints
 			this->numElasticJoints = 0;
 			this->isElasticJoint.resize(this->numJoints);
@@ -88,6 +100,7 @@ namespace thunder_ns{
 			YAML::Node kinematics = config_file["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
 			int dh_size = dh_vect.size();
+			check_size("DH", dh_size, 4 * nj);
 			casadi::SX DHtable_numerical(dh_size, 1);
 			for (int i = 0; i < dh_size; i++) {
 				DHtable_numerical(i) = dh_vect[i];
@@ -98,6 +111,7 @@ namespace thunder_ns{
 			if (config_file["gravity"]){
 				gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>();
 			}
+			check_size("gravity value", gravity_vect.size(), 3);
 
 			// Frame Offsets
 			YAML::Node frame_base = config_file["Base_to_L0"];
@@ -108,6 +122,10 @@ namespace thunder_ns{
 			YAML::Node frame_ee = config_file["Ln_to_EE"];
 			Ln_to_EE.set_translation(frame_ee["tr"].as<std::vector<double>>());
 			Ln_to_EE.set_ypr(frame_ee["ypr"].as<std::vector<double>>());
+			check_size("Base_to_L0 tr", Base_to_L0.translation.size(), 3);
+			check_size("Base_to_L0 ypr", Base_to_L0.ypr.size(), 3);
+			check_size("Ln_to_EE tr", Ln_to_EE.translation.size(), 3);
+			check_size("Ln_to_EE ypr", Ln_to_EE.ypr.size(), 3);
 
 
 			// ---- Symbolic Selectivity Vectors ---- //
@@ -182,6 +200,11 @@ namespace thunder_ns{
 
 					i++;
 				}
+				// joints without data are not symbolic
+				par_K_symb.resize(this->numElasticJoints * this->K_order);
+				par_D_symb.resize(this->numElasticJoints * this->D_order);
+				par_Dm_symb.resize(this->numElasticJoints * this->Dm_order);
+				par_Mm_symb.resize(this->numElasticJoints);
 			}
 
 			// ---- Populate the Symbolic Selectivity Map (`symb`) ---- //
@@ -201,14 +224,15 @@ namespace thunder_ns{
 			if (frame_ee["symb"]) this->symb["par_Ln2EE"] = frame_ee["symb"].as<std::vector<int>>();
 			else this->symb["par_Ln2EE"].assign(6, 0);
 
-			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
+			if (config_file["gravity"] && config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
 			else this->symb["par_gravity"].assign(3, 0);
 
+			check_size("kinematics symb", this->symb["par_DHtable"].size(), dh_size);
+			check_size("Base_to_L0 symb", this->symb["par_world2L0"].size(), 6);
+			check_size("Ln_to_EE symb", this->symb["par_Ln2EE"].size(), 6);
+			check_size("gravity symb", this->symb["par_gravity"].size(), 3);
 
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
 			
 			// Define symbolic variables for the model
 			this->model = {
@@ -640,12 +664,17 @@ namespace thunder_ns{
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
 		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
-		casadi::SX param_K(numElasticJoints*K_order,1);
-		casadi::SX param_D(numElasticJoints*D_order,1);
-		casadi::SX param_Dm(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm(numElasticJoints,1);
+		casadi::SX param_DYN = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
+		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
+		casadi::SX param_K = casadi::SX::zeros(numElasticJoints*K_order,1);
+		casadi::SX param_D = casadi::SX::zeros(numElasticJoints*D_order,1);
+		casadi::SX param_Dm = casadi::SX::zeros(numElasticJoints*Dm_order,1);
+		casadi::SX param_Mm = casadi::SX::zeros(numElasticJoints,1);
+		auto read_coefficients = [](const YAML::Node& node, int order) {
+			std::vector<double> coefficients = node.as<std::vector<double>>();
+			if (coefficients.size() < order) throw std::runtime_error("Missing friction or elastic coefficients.");
+			return coefficients;
+		};
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
@@ -672,8 +701,8 @@ namespace thunder_ns{
 				param_DYN(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 				
 				// link friction
-				if (node.second["friction"]){
-					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+				if (Dl_order > 0 && node.second["friction"]){
+					std::vector<double> Dl = read_coefficients(node.second["friction"]["Dl"], Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -692,17 +721,17 @@ namespace thunder_ns{
 					std::string jointName = node.first.as<std::string>();
 					// stiffness
 					if (K_order > 0){
-						std::vector<double> K = node.second["K"].as<std::vector<double>>();
+						std::vector<double> K = read_coefficients(node.second["K"], K_order);
 						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K[j];
 					}
 					// coupling friction
 					if (D_order > 0){
-						std::vector<double> D = node.second["D"].as<std::vector<double>>();
+						std::vector<double> D = read_coefficients(node.second["D"], D_order);
 						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D[j];
 					}
 					// motor friction
 					if (Dm_order > 0){
-						std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
+						std::vector<double> Dm = read_coefficients(node.second["Dm"], Dm_order);
 						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm[j];
 					}
 					// motor inertia
@@ -715,6 +744,7 @@ namespace thunder_ns{
 			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return 0;
 		}
 		args["par_DYN"] = param_DYN;
 		if (Dl_order > 0) args["par_Dl"] = param_Dl;
@@ -1134,7 +1164,7 @@ namespace thunder_ns{
 		Robot robot(file);
 		robot.robotName = robot_name;
 		// --- load parameters --- //
-		robot.load_conf_par(file);
+		if (!robot.load_conf_par(file)) throw std::runtime_error("Invalid parameters in configuration file: " + file);
 		cout<<"Configuration loaded!"<<endl;
 		// --- compute functions --- //
 		if (compute){
-- 
2.43.0


From 44ebc6ce7a987ec983b88d8a9501675b8a3ec6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 07/20] fix: thunder gen aborted on an invalid configuration or
 without HOME

---
 src/thunder/thunder_main.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..a479b7a 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -10,6 +10,7 @@ Command line interface for Thunder, it can generate code for robots
 #include <filesystem>
 #include <stdexcept>
 #include <chrono>
+#include <memory>
 
 #include "utils.h"
 #include "robot.h"
@@ -123,7 +124,14 @@ int main(int argc, char* argv[]){
 	robot_name_gen = robot_name + "_gen";
 
 	// --- Robot creation --- //
-	Robot robot = robot_from_file(robot_name, config_file, 1);
+	std::unique_ptr<Robot> robot_ptr;
+	try {
+		robot_ptr.reset(new Robot(robot_from_file(robot_name, config_file, 1)));
+	} catch (const std::exception& e) {
+		std::cerr << "Invalid configuration: " << e.what() << std::endl;
+		return 0;
+	}
+	Robot& robot = *robot_ptr;
 
 	nj = robot.get_numJoints();
 
@@ -153,8 +161,7 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
+	// Get share directory
 	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
-- 
2.43.0


From e8f09af6fd94bafc97d8874a2c89c51351cfbe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 08/20] fix: setting one inertial parameter set of a Robot left
 the other stale, and partially symbolic sets were read and written out of
 range

---
 src/thunder/library/robot.h |  4 ++
 src/thunder/src/robot.cpp   | 85 ++++++++++++++++++++-----------------
 2 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b966fa3..0d9ba9f 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -73,6 +73,10 @@ namespace thunder_ns{
 			// std::vector<int> gravity_symb;
 			// Input of casadi function //
 			std::map<std::string, casadi::SX> args;
+			// all the entries, numeric ones included, of arguments reduced to the symbolic entries //
+			std::map<std::string, Eigen::VectorXd> all_entries;
+			void set_all_entries(std::string par, const Eigen::VectorXd& value);
+			Eigen::VectorXd get_all_entries(std::string par);
 			std::map<std::string, casadi::Function> casadi_fun;
 			std::map<std::string, std::vector<std::string>> fun_args;
 			std::map<std::string, std::string> fun_descr;
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index ec6eb98..9e9bfd7 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -534,34 +534,52 @@ namespace thunder_ns{
 	}
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
-		casadi::SX& par_DYN = args["par_DYN"];
 		int numPar = STD_PAR_LINK*numJoints;
 		if (value.size() == numPar){
-			for (int i=0; i<numPar; i++){
-				par_DYN(i) = value(i);
-			}
-			return 1;
+			set_all_entries("par_DYN", value);
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
 		// change par_REG
-		update_inertial_REG();
+		return update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
-		casadi::SX& par_REG = args["par_REG"];
 		int numPar = STD_PAR_LINK*numJoints;
 		if (value.size() == numPar){
-			for (int i=0; i<numPar; i++){
-				par_REG(i) = value(i);
-			}
-			return 1;
+			set_all_entries("par_REG", value);
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
+		// change par_DYN
+		return update_inertial_DYN();
+	}
+
+	void Robot::set_all_entries(std::string par, const Eigen::VectorXd& value){
+		// after update_symb_parameters the argument has only the symbolic entries
+		bool only_symb = all_entries.count(par);
+		std::vector<double> entries;
+		for (int i=0; i<value.size(); i++){
+			if (only_symb && !symb[par][i]) continue;
+			entries.push_back(value(i));
+		}
+		args[par] = casadi::SX(entries);
+	}
+
+	Eigen::VectorXd Robot::get_all_entries(std::string par){
+		Eigen::VectorXd arg = get_arg(par);
+		if (!all_entries.count(par)) return arg;
+		Eigen::VectorXd value = all_entries[par];
+		int sz = 0;
+		for (int i=0; i<value.size(); i++){
+			if (symb[par][i]){
+				value(i) = arg(sz);
+				sz++;
+			}
+		}
+		return value;
 	}
 
 
@@ -575,21 +593,11 @@ namespace thunder_ns{
 	}
 
 	Eigen::VectorXd Robot::get_par_DYN(){
-		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
-		Eigen::VectorXd param_DYN(numPar);
-		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
-		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
-		return param_DYN;
+		return get_all_entries("par_DYN");
 	}
 
 	Eigen::VectorXd Robot::get_par_REG(){
-		const casadi::SX& par_REG_casadi = args["par_REG"];
-		int numPar = STD_PAR_LINK*numJoints;
-		Eigen::VectorXd param_REG(numPar);
-		std::vector<casadi::SXElem> res_elements = par_REG_casadi.get_elements();
-		std::transform(res_elements.begin(), res_elements.end(), param_REG.data(), mapFunction);
-		return param_REG;
+		return get_all_entries("par_REG");
 	}
 
 	std::vector<fun_obj> Robot::get_functions(bool onlyNames) {
@@ -664,12 +672,12 @@ namespace thunder_ns{
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
 		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
-		casadi::SX param_K = casadi::SX::zeros(numElasticJoints*K_order,1);
-		casadi::SX param_D = casadi::SX::zeros(numElasticJoints*D_order,1);
-		casadi::SX param_Dm = casadi::SX::zeros(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm = casadi::SX::zeros(numElasticJoints,1);
+		Eigen::VectorXd param_DYN = Eigen::VectorXd::Zero(STD_PAR_LINK*numJoints);
+		Eigen::VectorXd param_Dl = Eigen::VectorXd::Zero(Dl_order*numJoints);
+		Eigen::VectorXd param_K = Eigen::VectorXd::Zero(numElasticJoints*K_order);
+		Eigen::VectorXd param_D = Eigen::VectorXd::Zero(numElasticJoints*D_order);
+		Eigen::VectorXd param_Dm = Eigen::VectorXd::Zero(numElasticJoints*Dm_order);
+		Eigen::VectorXd param_Mm = Eigen::VectorXd::Zero(numElasticJoints);
 		auto read_coefficients = [](const YAML::Node& node, int order) {
 			std::vector<double> coefficients = node.as<std::vector<double>>();
 			if (coefficients.size() < order) throw std::runtime_error("Missing friction or elastic coefficients.");
@@ -746,12 +754,12 @@ namespace thunder_ns{
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 			return 0;
 		}
-		args["par_DYN"] = param_DYN;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
-		if (K_order>0) args["par_K"] = param_K;
-		if (D_order>0) args["par_D"] = param_D;
-		if (Dm_order>0) args["par_Dm"] = param_Dm;
-		if (ELASTIC) args["par_Mm"] = param_Mm;
+		set_all_entries("par_DYN", param_DYN);
+		if (Dl_order > 0) set_all_entries("par_Dl", param_Dl);
+		if (K_order>0) set_all_entries("par_K", param_K);
+		if (D_order>0) set_all_entries("par_D", param_D);
+		if (Dm_order>0) set_all_entries("par_Dm", param_Dm);
+		if (ELASTIC) set_all_entries("par_Mm", param_Mm);
 		if (update_REG) update_inertial_REG();
 		return 1;
 	}
@@ -969,7 +977,7 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		set_all_entries("par_DYN", param_DYN);
 		return 1;
 	}
 
@@ -1002,7 +1010,7 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		set_all_entries("par_REG", param_REG);
 		return 1;
 	}
 
@@ -1139,6 +1147,7 @@ namespace thunder_ns{
 			std::string par_name = par_symb.first;
 			casadi::SX& par_model = model[par_name];
 			casadi::SX& par_arg = args[par_name];
+			all_entries[par_name] = get_arg(par_name);
 			// casadi::SX new_par(sz_original,1);
 			int sz = 0;
 			for (int i=0; i<sz_original; i++){
-- 
2.43.0


From 9324d05ecc9ee3b14238540935b9873d864ac40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 09/20] fix: massless links gave NaN dynamic parameters from
 regressor parameters

---
 src/thunder/src/robot.cpp                            | 3 ++-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 9e9bfd7..aefc2b6 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -964,7 +964,8 @@ namespace thunder_ns{
 		for (int i=0; i<numJoints; i++){
 			Eigen::VectorXd p_reg = param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);
 			double mass = p_reg(0);
-			Eigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};
+			Eigen::Vector3d CoM = Eigen::Vector3d::Zero();
+			if (mass != 0) CoM << p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass; // massless links have no CoM
 			Eigen::Matrix3d I_tmp = mass * (hat(CoM).transpose() * hat(CoM));
 			Eigen::Matrix<double, 6, 1> I_tmp_v;
 			I_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0e451ad..a618a72 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -162,7 +162,8 @@ void thunder_robot::update_inertial_DYN(){
 	for (int i=0; i<n_joints; i++){
 		Eigen::VectorXd p_reg = par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);
 		double mass = p_reg(0);
-		Eigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};
+		Eigen::Vector3d CoM = Eigen::Vector3d::Zero();
+		if (mass != 0) CoM << p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass; // massless links have no CoM
 		Eigen::Matrix3d I_tmp = mass * hat(CoM) * hat(CoM).transpose();
 		Eigen::Matrix<double, 6, 1> I_tmp_v;
 		I_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);
-- 
2.43.0


From c61b8bf383b573427242e9e200f51d9ad3640b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 10/20] fix: Robot::load_par_REG did not read the files written
 by save_par_REG and zeroed all parameters

---
 src/thunder/src/robot.cpp | 45 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index aefc2b6..7244d95 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -766,36 +766,40 @@ namespace thunder_ns{
 
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
-		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
+		// what is not in the file keeps its value
+		Eigen::VectorXd param_REG = get_par_REG();
+		Eigen::VectorXd param_Dl(0);
+		if (Dl_order > 0) param_Dl = get_all_entries("par_Dl");
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
-				
+			for (const auto& node : dynamics) {
+				YAML::Node inertial = node.second["inertial"];
+
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (Dl_order > 0 && node.second["friction"] && node.second["friction"]["Dl"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					if (Dl.size() < Dl_order) throw std::runtime_error("Missing friction coefficients.");
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -807,11 +811,12 @@ namespace thunder_ns{
 			// std::cout<<"\nparam REG \n"<<param_REG<<std::endl;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return args["par_REG"];
 		}
-		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		set_all_entries("par_REG", param_REG);
+		if (Dl_order > 0) set_all_entries("par_Dl", param_Dl);
 		if (update_DYN) update_inertial_DYN();
-		return param_REG;
+		return args["par_REG"];
 	}
 
 	int Robot::load_par(std::string par_file, std::vector<std::string> par_list){
-- 
2.43.0


From 91658b3bf101f619bb69168f3fa06f3e26956f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 11/20] fix: functions added to a finished or partially
 symbolic robot read the wrong parameter entries, par_REG could not be an
 argument

---
 src/thunder/src/robot.cpp       | 5 ++++-
 src/thunder/src/userDefined.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 7244d95..6cfd019 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -360,6 +360,7 @@ namespace thunder_ns{
 		std::vector<int> dqr_symb(numJoints, 1);
 		std::vector<int> ddqr_symb(numJoints, 1);
 		std::vector<int> w_symb(6, 1);
+		std::vector<int> par_REG_symb(STD_PAR_LINK*numJoints, 1);
 		symb.insert({"q", q_symb});
 		symb.insert({"dq", dq_symb});
 		symb.insert({"ddq", ddq_symb});
@@ -368,6 +369,7 @@ namespace thunder_ns{
 		symb.insert({"dqr", dqr_symb});
 		symb.insert({"ddqr", ddqr_symb});
 		symb.insert({"w", w_symb});
+		symb.insert({"par_REG", par_REG_symb});
 		if (ELASTIC){
 			std::vector<int> x_symb(numElasticJoints, 1);
 			std::vector<int> dx_symb(numElasticJoints, 1);
@@ -1049,8 +1051,9 @@ namespace thunder_ns{
 				// casadi::SX par_model_new = casadi::SX::zeros(sz_original);
 				// casadi::SX new_par(sz_original,1);
 				int sz = 0;
+				bool only_symb = all_entries.count(arg); // update_symb_parameters left only the symbolic entries
 				for (int i=0; i<sz_original; i++){
-					if (symb_flag[i]){
+					if (only_symb || symb_flag[i]){
 						par_symb.push_back(par_model(i));
 						// par_model_new(sz) = par_model(i);
 						sz++;
diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index f8cd6f6..7bb5348 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -41,7 +41,7 @@ namespace thunder_ns{
 			casadi::SX q0_dist = casadi::SX::norm_2(q-q0);
 
 			// --- save function into robot --- //
-			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q", "q0"}, {});
+			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q"}, {});
 			if (!robot.add_function("q0_dist", q0_dist, arg_list, "distance from q0")) return 0;
 			// when you create the library, the function "get_q_dist()" into thunder_<robot> will return the distance from q0
 		}
-- 
2.43.0


From a97a2dd7507dc089acfca8122d8dceb78dbc78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 12/20] fix: set_par_DHtable of the generated class aborted on
 a table with one row per joint

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index a618a72..2378a06 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -252,7 +252,9 @@ void thunder_robot::set_par_Dl(const Eigen::VectorXd& par_){
 
 void thunder_robot::set_par_DHtable(const Eigen::MatrixXd& par_){
 	if(par_.size() == par_DHtable.size()){
-		par_DHtable = par_;
+		// row by row, as in the configuration file; a vector is taken as it is
+		Eigen::MatrixXd table = par_.transpose();
+		par_DHtable = Eigen::Map<Eigen::VectorXd>(table.data(), table.size());
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-- 
2.43.0


From 85043325872769ebb8719f37d4678343b077cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 13/20] fix: load_conf of the generated class left parameters
 uninitialised or read out of range on a file with missing values

---
 .../thunder_robot_template/thunder_robot.cpp  | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 2378a06..47ac235 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -364,23 +364,31 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 	return par_REG;
 }
 
+// a file with missing or exceeding values leaves the parameter as it is
+static void check_size(const char* name, bool ok){
+	if (!ok) throw YAML::Exception(YAML::Mark::null_mark(), std::string("wrong number of entries in ") + name);
+}
+
 void thunder_robot::load_conf(std::string file_path, bool update_REG){
 	try {
 		YAML::Node config = YAML::LoadFile(file_path);
 		int index;
 		// --- Parse kinematics --- //
 		if (config["kinematics"]){
-			par_DHtable.resize(n_joints*4);
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
 			// par_DHtable = Eigen::Map<Eigen::VectorXd>(&dh_vect[0], nj*4).reshaped<Eigen::RowMajor>(nj, 4);
+			std::vector<int> symb = DHtable_symb;
 			if (kinematics["symb"]){
-				DHtable_symb = kinematics["symb"].as<std::vector<int>>();
+				symb = kinematics["symb"].as<std::vector<int>>();
 			} else {
 				// no parameters here
 			}
 			int sz = dh_vect.size();
+			check_size("kinematics", sz == n_joints*4 && symb.size() == sz);
+			DHtable_symb = symb;
+			par_DHtable.resize(sz);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
@@ -398,10 +406,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Frame Offsets - //
 		if (config["Base_to_L0"]){
-			par_world2L0.resize(6);
 			YAML::Node frame_base = config["Base_to_L0"];
+			std::vector<int> symb = world2L0_symb;
 			if (frame_base["symb"]){
-				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
+				symb = frame_base["symb"].as<std::vector<int>>();
 			} else {
 				// no parameters here
 			}
@@ -410,6 +418,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// std::cout << "sz: " << sz << std::endl;
 			std::vector<double> tr = frame_base["tr"].as<std::vector<double>>();
 			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
+			check_size("Base_to_L0", tr.size() == 3 && ypr.size() == 3 && symb.size() == 6);
+			world2L0_symb = symb;
+			par_world2L0.resize(6);
 			// Eigen::VectorXd world2L0_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -429,10 +440,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 
 		if (config["Ln_to_EE"]){
-			par_Ln2EE.resize(6);
 			YAML::Node frame_ee = config["Ln_to_EE"];
+			std::vector<int> symb = Ln2EE_symb;
 			if (frame_ee["symb"]){
-				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
+				symb = frame_ee["symb"].as<std::vector<int>>();
 			} else {
 				// no parameters here
 			}
@@ -441,6 +452,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// std::cout << "sz: " << sz << std::endl;
 			std::vector<double> tr = frame_ee["tr"].as<std::vector<double>>();
 			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
+			check_size("Ln_to_EE", tr.size() == 3 && ypr.size() == 3 && symb.size() == 6);
+			Ln2EE_symb = symb;
+			par_Ln2EE.resize(6);
 			// Eigen::VectorXd Ln2EE_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -485,6 +499,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// - link friction - //
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					check_size("Dl", Dl.size() >= Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						par_Dl(Dl_order*index + j) = Dl[j];
 					}
@@ -495,16 +510,19 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Gravity - //
 		if (config["gravity"]){
-			par_gravity.resize(3);
 			YAML::Node gravity_node = config["gravity"];
+			std::vector<int> symb = gravity_symb;
 			if (gravity_node["symb"]){
-				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
+				symb = gravity_node["symb"].as<std::vector<int>>();
 			} else {
 				// no parameters here
 			}
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
 			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
+			check_size("gravity", grav.size() == 3 && symb.size() == 3);
+			gravity_symb = symb;
+			par_gravity.resize(3);
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
 			for (int i=0; i<3; i++){
@@ -527,18 +545,21 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// stiffness
 				for (int j=0; j<K_order; j++){
 					std::vector<double> K = node.second["K"].as<std::vector<double>>();
+					check_size("K", K.size() >= K_order);
 					par_K(K_order*index+j) = K[j];
 					// std::cout<<"K_"<<j<<": "<<K[j] << std::endl;
 				}
 				// coupling friction
 				for (int j=0; j<D_order; j++){
 					std::vector<double> D = node.second["D"].as<std::vector<double>>();
+					check_size("D", D.size() >= D_order);
 					par_D(D_order*index + j) = D[j];
 					// std::cout<<"D_"<<j<<": "<<D[j] << std::endl;
 				}
 				// motor friction
 				for (int j=0; j<Dm_order; j++){
 					std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
+					check_size("Dm", Dm.size() >= Dm_order);
 					par_Dm(Dm_order*index + j) = Dm[j];
 					// std::cout<<"Dm_"<<j<<": "<<Dm[j] << std::endl;
 				}
-- 
2.43.0


From bbf0514abf56ad30bf5bfc7f2cc363b7d865e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 14/20] fix: genYAML refuses an input without the parameters of
 every link

---
 src/genYAML/main_YAML.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 762df04..2df077f 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -140,7 +140,7 @@ int main(){
                 xyzStream >> properties.xyz[0] >> properties.xyz[1] >> properties.xyz[2];
             } else {
                 std::cerr << "Missing 'xyz' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             if (origin["rpy"]) {
@@ -149,7 +149,7 @@ int main(){
                 rpyStream >> properties.rpy[0] >> properties.rpy[1] >> properties.rpy[2];
             } else {
                 std::cerr << "Missing 'rpy' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             links_prop.push_back(properties);
@@ -159,6 +159,11 @@ int main(){
         std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
     }
 
+    if ((int)links_prop.size() <= numTransform){
+        std::cerr << "The inertial parameters of the base and of " << numTransform << " links are required." << std::endl;
+        return 1;
+    }
+
     //-----------------------Convert inertial parameters from URDF to DH----------------------------//
 
     for (int i = 1; i<=numTransform; i++){
-- 
2.43.0


From 0de5bb96deb209e6da587fdd1c918e57283b5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 15/20] fix: load_par_REG and load_conf of the generated class
 given a damaged file left the dynamic and regressor parameters different

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 47ac235..6fd0ca7 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -336,6 +336,7 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 		if (config["dynamics"]){
 			YAML::Node dynamics = config["dynamics"];
 			double mass, m_cmx, m_cmy, m_cmz, xx, xy, xz, yy, yz, zz;
+			Eigen::VectorXd new_REG = par_REG; // a damaged file must not leave REG and DYN different
 			i = 0;
 			for (const auto& node : dynamics) {
 				if (i==n_joints) break;
@@ -352,10 +353,11 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 				yz = inertial["Iyz"].as<double>();
 				zz = inertial["Izz"].as<double>();
 
-				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
+				new_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
 				i++;
 			}
+			par_REG = new_REG;
 			if (update_DYN) update_inertial_DYN();
 		}
 	} catch (const YAML::Exception& e) {
@@ -477,6 +479,8 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		if (config["dynamics"]){
 			YAML::Node dynamics = config["dynamics"];
 			double mass, cmx, cmy, cmz, xx, xy, xz, yy, yz, zz;
+			Eigen::VectorXd new_DYN = par_DYN; // a damaged file must not leave REG and DYN different
+			Eigen::VectorXd new_Dl = par_Dl;
 			index=0;
 			for (const auto& node : dynamics) {
 				if (index==n_joints) break;
@@ -494,18 +498,20 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				yz = inertial["Iyz"].as<double>();
 				zz = inertial["Izz"].as<double>();
 
-				par_DYN.segment(STD_PAR_LINK*index, STD_PAR_LINK) << mass,cmx,cmy,cmz,xx,xy,xz,yy,yz,zz;
+				new_DYN.segment(STD_PAR_LINK*index, STD_PAR_LINK) << mass,cmx,cmy,cmz,xx,xy,xz,yy,yz,zz;
 				
 				// - link friction - //
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					check_size("Dl", Dl.size() >= Dl_order);
 					for (int j=0; j<Dl_order; j++){
-						par_Dl(Dl_order*index + j) = Dl[j];
+						new_Dl(Dl_order*index + j) = Dl[j];
 					}
 				}
 				index++;
 			}
+			par_DYN = new_DYN;
+			par_Dl = new_Dl;
 			if (update_REG) update_inertial_REG();
 		}
 		// - Gravity - //
-- 
2.43.0


From ac833d66b8573921cd76bd5491aa077d03e1c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 16/20] fix: Robot::load_par changed parameters before refusing
 a damaged file

---
 src/thunder/src/robot.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 6cfd019..a9a6d76 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -826,22 +826,23 @@ namespace thunder_ns{
 			// load yaml
 			YAML::Node yamlFile = YAML::LoadFile(par_file);
 			if (par_list.size() == 0){
-				for (const auto& node : yamlFile){
-					std::vector<double> par_vect = node.second.as<std::vector<double>>();
-					casadi::SX& par = args[node.first.as<std::string>()];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+				for (const auto& node : yamlFile) par_list.push_back(node.first.as<std::string>());
+			}
+			// nothing changes unless every parameter can be loaded
+			std::map<std::string, casadi::SX> loaded;
+			for (std::string par_str : par_list){
+				std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
+				if (!args.count(par_str) || par_vect.size() > args[par_str].size1()){
+					std::cerr << "Error while loading parameters: wrong name or size of " << par_str << std::endl;
+					return 0;
 				}
-			} else {
-				for (std::string par_str : par_list){
-					std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
-					casadi::SX& par = args[par_str];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+				casadi::SX par = args[par_str];
+				for (int i=0; i<par_vect.size(); i++){
+					par(i) = par_vect[i];
 				}
+				loaded[par_str] = par;
 			}
+			for (auto& par : loaded) args[par.first] = par.second;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading parameters: " << e.what() << std::endl;
 			return 0;
-- 
2.43.0


From ba5a94ef469323361c849c17a8c0d99970f4b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 17/20] fix: genInertial_files read the friction coefficients
 from the wrong place, overflowed on extra links and accepted missing ones

---
 src/thunder/src/genYaml.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..f199715 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -51,6 +51,7 @@ namespace thunder_ns{
 
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == num_joints) break;
 
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
@@ -75,8 +76,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
-					properties.Dl = Dl;
+					if (friction) properties.Dl = friction["Dl"].as<std::vector<double>>();
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
 					// 	properties.Dl[j] = Dl[j];
@@ -94,6 +94,11 @@ namespace thunder_ns{
 				link_index ++;
 			}
 
+			if (link_index < num_joints){
+				std::cerr << "Missing inertial parameters of link " << link_index+1 << std::endl;
+				return 0;
+			}
+
 			// --- obtain parameters for regressor --- //
 			for(int i=0; i<num_joints; i++){
 
-- 
2.43.0


From eddc2c8cbb35ade8897f92ee135f4963e3b70607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 18/20] fix: compute_example_fun read past the end of a q0 with
 fewer values than joints

---
 src/thunder/src/userDefined.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index 7bb5348..e6d1330 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -32,6 +32,7 @@ namespace thunder_ns{
 		if (robot.config_yaml["q0"]){
 			// --- take q0 from yaml --- //
 			std::vector<double> q0_vect = robot.config_yaml["q0"].as<std::vector<double>>();
+			if ((int)q0_vect.size() < numJoints) return 0;
 			casadi::SX q0(numJoints,1);
 			for (int i=0; i<numJoints; i++){
 				q0(i) = q0_vect[i];
-- 
2.43.0


From 9fdb600642b42b97bb99a26c034a5aa33538fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 19/20] fix: function descriptions with line breaks or quotes
 gave generated code that does not compile

---
 src/thunder/src/utils.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 2a9a788..3c366eb 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -108,6 +108,24 @@ namespace thunder_ns{
 		return par == "par_DYN" || par == "par_Dl" || par == "par_K" || par == "par_D" || par == "par_Dm" || par == "par_Mm";
 	}
 
+	// description of a function inside a one-line comment
+	static string comment_text(string description){
+		for (auto& ch : description) if (ch == '\n' || ch == '\r') ch = ' ';
+		return description;
+	}
+
+	// description of a function inside a string literal
+	static string literal_text(const string& description){
+		string text;
+		for (char ch : description){
+			if (ch == '\n') text.append("\\n");
+			else if (ch == '\r') text.append("\\r");
+			else if (ch == '"' || ch == '\\') text.append(string("\\") + ch);
+			else text.push_back(ch);
+		}
+		return text;
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -167,7 +185,7 @@ namespace thunder_ns{
 			// - insert functions - //
 			string functions_string = "\n";
 			for (int i=0; i<functions.size(); i++){
-				functions_string.append("\t\t// - " + functions[i].description + " - //\n");
+				functions_string.append("\t\t// - " + comment_text(functions[i].description) + " - //\n");
 				functions_string.append("\t\t"+get_ret_type(functions[i])+" get_" + functions[i].name + "();\n\n");
 			}
 			replace_all(file_content_h, "/*#-FUNCTIONS_H-#*/", functions_string);
@@ -214,7 +232,7 @@ namespace thunder_ns{
 				// }
 				// other parts
 				string ret_type = get_ret_type(functions[i]);
-				functions_string.append("// - " + functions[i].description + " - //\n");
+				functions_string.append("// - " + comment_text(functions[i].description) + " - //\n");
 				functions_string.append(ret_type + " thunder_" + to_robot + "::" + fun_name + "(){\n");
 				// functions_string.append("\tEigen::MatrixXd out;\n");
 				// functions_string.append("\tout.resize("+to_string(out_size[0])+","+to_string(out_size[1])+");\n");
@@ -255,7 +273,7 @@ namespace thunder_ns{
 
 				// pybindings
 				if(gen_python)
-					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ functions[i].description +"\")\n");
+					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ literal_text(functions[i].description) +"\")\n");
 			}
 			replace_all(file_content_cpp, "/*#-FUNCTIONS_CPP-#*/", functions_string);
 
-- 
2.43.0


From c27dcd1593131af8ff44729f9d039f268adbd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:24 +0000
Subject: [PATCH 20/20] fix: copies of a Robot shared their configuration, so
 that assigning to one changed what the other saves

---
 src/thunder/library/robot.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index 0d9ba9f..e538e12 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -24,6 +24,15 @@ namespace thunder_ns{
 	// Config load_config(std::string file);
 	Robot robot_from_file(std::string robot_name, std::string file, bool compute = 1);
 	
+	// yaml configuration owned by one robot: copies of a YAML::Node share their content, copies of this do not
+	class ConfigNode : public YAML::Node{
+		public:
+			ConfigNode(){}
+			ConfigNode(const ConfigNode& config) : YAML::Node(YAML::Clone(config)){}
+			ConfigNode& operator=(const ConfigNode& config){ reset(YAML::Clone(config)); return *this; }
+			ConfigNode& operator=(const YAML::Node& config){ reset(YAML::Clone(config)); return *this; }
+	};
+
 	// contain everything related to a robot, uses the other classes to obtain functions
 	class Robot{
 		private:
@@ -114,7 +123,7 @@ namespace thunder_ns{
 			Robot(const std::string config_file);
 			Robot(const YAML::Node yaml);
 			// Robot(const Config conf);
-			YAML::Node config_yaml;
+			ConfigNode config_yaml;
 			YAML::Node load_config(std::string config_file);
 			int load_config(YAML::Node yaml);
 			int init_symb_parameters();
-- 
2.43.0

