S = SRC
# ---------------------------------------------------------------- kinematics
seed("c01-small-angles", "C01", [(S + "kinematics.cpp", "EPSILON = 1e-15;", "EPSILON = 1e-4;")],
     "a numeric twist, offset or frame angle of less than 1e-4 rad in magnitude (or that close to a multiple of pi/2)",
     "sines and cosines below 1e-4 are set to zero, so small misalignments of the frames are lost and the rotations are no longer orthonormal",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.4, -0.9}));
	M T = r.get("T_0_ee"), R = T.block(0,0,3,3);
	Robot s = robot_from_file("bot", "conf0.yaml", 1); s.set_q(vec({0.4, -0.9}));
	M D = T - s.get("T_0_ee"); // 8e-5 rad of twist moves the tool, 1.5 m away
	if (D.cwiseAbs().maxCoeff() < 2e-5) return bad("misalignment lost", D.cwiseAbs().maxCoeff());
	return close("orthonormal", R*R.transpose(), M::Identity(3,3), 1e-9);
}''', files={"conf.yaml": conf(["R", "R"], dh=[0, 0, 0.3, 0, 1.0, 0.00008, 0, 0], ee=(0.5, 1.5, 0, 0, 0, 0), base=(0, 0, 0, 0, 0, 0)),
             "conf0.yaml": conf(["R", "R"], dh=[0, 0, 0.3, 0, 1.0, 0.0, 0, 0], ee=(0.5, 1.5, 0, 0, 0, 0), base=(0, 0, 0, 0, 0, 0))})
seed("c02-psea-axis", "C02", [(S + "dynamics.cpp", '''					Jci_pos(allRows, j) = kj;
				} else if''', '''					Jci_pos(allRows, j) = (jointsType[j] == "P") ? kj : k0; // axis of the drive
				} else if''')],
     "an elastic prismatic joint (P_SEA) followed by a link whose z axis is not parallel to it",
     "the column of an elastic prismatic joint in J_cm_i uses the axis of link i instead of the axis of the joint",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); V q = vec({0.2, -0.7, 0.5}); double h = 1e-5;
	V par = r.get_par_DYN(); r.set_q(q); M J = r.get("J_cm_3");
	for (int j=0; j<3; j++){ V p[2]; for (int s=0; s<2; s++){ V x = q; x(j) += s ? h : -h; r.set_q(x); M T = r.get("T_0_3"); p[s] = T.block(0,3,3,1) + T.block(0,0,3,3)*par.segment(21,3); }
		if (close("J_cm_3", J.block(0,j,3,1), (p[1]-p[0])/(2*h), 1e-6)) return 1; }
	return 0;
}''', files={"conf.yaml": conf(["P_SEA", "R", "R"], el=dict(Ko=1, Do=0, Dmo=0))})
seed("c03-pinv-narrow", "C03", [(S + "kinematics.cpp", "		casadi::SX pinvJn = casadi::SX::mtimes({Jn.T(),invJn_dumped});",
     "		casadi::SX pinvJn = casadi::SX::mtimes({Jn.T(),invJn_dumped});\n		if (Jn.columns() < 3) pinvJn = casadi::SX::mtimes({casadi::SX::inv(casadi::SX::mtimes({Jn.T(),Jn}) + casadi::SX::eye(Jn.columns())*MU*MU),Jn.T()});")],
     "a robot with one or two joints", "the pseudo-inverse of tall Jacobians uses the square of the damping factor",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, 0.001}));
	M J = r.get("J_ee"), P = r.get("J_ee_pinv");
	return close("pinv", P, J.transpose()*(J*J.transpose() + 0.02*M::Identity(6,6)).inverse(), 1e-8);
}''', files={"conf.yaml": conf(["R", "R"], dh=[0, 0, 0, 0, 0.05, 0, 0, 0])})
seed("c13-frame-order", "C13", [(S + "regressors.cpp", '''		// parse world2L0
		for (int i=0; i<par_world2L0.size1(); i++){
			if (world2L0_symb[i]){
				par_symb.push_back(par_world2L0(i));
			}
		}
		// parse Ln2EE
		for (int i=0; i<par_Ln2EE.size1(); i++){
			if (Ln2EE_symb[i]){
				par_symb.push_back(par_Ln2EE(i));
			}
		}''', '''		// parse frames: translations first, then rotations
		for (int h=0; h<2; h++){
			for (int i=3*h; i<3*h+3; i++){
				if (world2L0_symb[i]) par_symb.push_back(par_world2L0(i));
			}
			for (int i=3*h; i<3*h+3; i++){
				if (Ln2EE_symb[i]) par_symb.push_back(par_Ln2EE(i));
			}
		}''')],
     "symbolic rotation of the base frame together with symbolic translation of the tool frame",
     "the columns of reg_Jdq and reg_JTw are not in the order of the parameter vectors (base frame, then tool frame)",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8})); r.set_dq(vec({1.1, -0.6}));
	M R = r.get("reg_Jdq"); V dq = vec({1.1, -0.6}); int c = 0; double h = 1e-6;
	for (std::string p : {"par_world2L0", "par_Ln2EE"}){ V v = r.get_arg(p);
		for (int i=0; i<v.size(); i++, c++){ V d[2]; for (int s=0; s<2; s++){ V x = v; x(i) += s ? h : -h; r.set_arg(p, x); d[s] = r.get("J_ee")*dq; } r.set_arg(p, v);
			if (close("column", R.col(c), (d[1]-d[0])/(2*h), 1e-6)) return 1; } }
	return R.cols() == c ? 0 : bad("columns", R.cols());
}''', files={"conf.yaml": conf(["R", "P"], bs=[0, 0, 0, 1, 0, 0], es=[0, 1, 0, 0, 0, 0])})
# ---------------------------------------------------------------- dynamics
seed("c04-massless-rotor", "C04", [(S + "dynamics.cpp", "			mi = _mass_vec_[i];\n", "			mi = _mass_vec_[i];\n			if (mi.is_zero()) continue; // massless link\n")],
     "a link with numeric mass zero but non-zero rotational inertia (an idealised flywheel)",
     "the rotational kinetic energy of massless links is left out of the mass matrix",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8}));
	M m = r.get("M"); Robot s = robot_from_file("bot", "conf1.yaml", 1); s.set_q(vec({0.3, -0.8})); // the same robot, tiny mass
	return close("M", m, s.get("M"), 1e-6);
}''', files={"conf.yaml": conf(["R", "R"], inert=[None, [0.0, 0.0, 0.0, 0.0, 0.2, 0.01, 0.02, 0.3, -0.01, 0.4]]),
             "conf1.yaml": conf(["R", "R"], inert=[None, [1e-9, 0.0, 0.0, 0.0, 0.2, 0.01, 0.02, 0.3, -0.01, 0.4]])})
seed("c05-product-only", "C05", [(S + "dynamics.cpp", "		C = (C123 + C132 - C231)/2;", "		C = C123 - C231/2;	// C132*dq is C123*dq")],
     "using C as a matrix: with a reference velocity that differs from dq, or in M_dot - 2C",
     "C dq is still the Coriolis torque but C is no longer the Christoffel matrix: M_dot - 2C is not skew-symmetric",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8, 0.4})); r.set_dq(vec({1, -0.5, 0.7}));
	M N = r.get("M_dot") - 2*r.get("C");
	return close("skew", N, -N.transpose(), 1e-9);
}''', files={"conf.yaml": conf(["R", "P", "R"])})
seed("c06-gravity-in-base", "C06", [(S + "dynamics.cpp", "		casadi::SX g = par_gravity;\n", "		casadi::SX g = casadi::SX::mtimes(get_transform(robot.model[\"par_world2L0\"])(casadi::Slice(0,3),casadi::Slice(0,3)), par_gravity);\n"),
                                  (S + "regressors.cpp", "		casadi::SX g = par_gravity;\n", "		casadi::SX g = casadi::SX::mtimes(get_transform(robot.model[\"par_world2L0\"])(casadi::Slice(0,3),casadi::Slice(0,3)), par_gravity);\n")],
     "a base frame rotated about an axis that is not parallel to gravity; dynamics and regressor change together, so their difference stays zero",
     "gravity is taken as given in the base frame instead of the world frame",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); V q = vec({0.3, -0.8}); double h = 1e-5; V par = r.get_par_DYN(), g = vec({0.3, -0.4, -9.7});
	r.set_q(q); V G = r.get("G");
	for (int j=0; j<2; j++){ double U[2]; for (int s=0; s<2; s++){ V x = q; x(j) += s ? h : -h; r.set_q(x); U[s] = 0; for (int i=0; i<2; i++){ M T = r.get("T_0_"+std::to_string(i+1)); V p = T.block(0,3,3,1) + T.block(0,0,3,3)*par.segment(10*i+1,3); U[s] -= par(10*i)*g.dot(p); } }
		if (std::abs(G(j) - (U[1]-U[0])/(2*h)) > 1e-5) return bad("G", G(j)); }
	return 0;
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c08-cddot-jerk", "C08", [(S + "dynamics.cpp", " + casadi::SX::jtimes(dC,ddq,d3q);", " + casadi::SX::jtimes(C,dq,ddq);")],
     "a trajectory with non-zero jerk (or acceleration) when C_ddot is used",
     "the jerk term of C_ddot uses the acceleration instead of the jerk",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); V a = vec({0.3,-0.8}), b = vec({1,0.5}), c = vec({-0.4,0.6}), d = vec({2,-1.5}); double h = 1e-5;
	auto at = [&](double t){ r.set_q(a+b*t+c*t*t/2+d*t*t*t/6); r.set_dq(b+c*t+d*t*t/2); r.set_arg("ddq", c+d*t); r.set_arg("d3q", d); };
	at(h); M p = r.get("C_dot"); at(-h); M m = r.get("C_dot"); at(0);
	return close("C_ddot", r.get("C_ddot"), (p-m)/(2*h), 1e-5);
}''', files={"conf.yaml": conf(["R", "R"])})
seed("c09-high-even-order", "C09", [(S + "dynamics.cpp", "						dl(i) += sqrt(pow(dq(i), 2)) * pow(dq(i), ord) * par_Dl(i*Dl_order+ord);",
     "						dl(i) += sqrt(pow(dq(i), 2)) * (ord == 1 ? dq(i) : pow(sqrt(pow(dq(i), 2)), ord)) * par_Dl(i*Dl_order+ord);")],
     "link friction of order four or more and a negative joint velocity",
     "the fourth order friction term loses its sign: it drives the joint instead of braking it when the joint moves backwards",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dq(vec({0.9, 0.8})); V a = r.get("dl"); r.set_dq(vec({-0.9, -0.8})); V b = r.get("dl");
	return close("odd", a, -b, 1e-9);
}''', files={"conf.yaml": conf(["R", "P"], Dlo=4)})
seed("c10-dm-stride", "C10", [(S + "dynamics.cpp", "					Dm_vec[ord](i,i) = par_Dm(i*Dm_order + ord);", "					Dm_vec[ord](i,i) = par_Dm(std::min(i*D_order, i*Dm_order) + ord);")],
     "at least two elastic joints and a motor damping order larger than the coupling damping order",
     "the motor damping matrices take the coefficients of the wrong joint",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dx(vec({0.7, -0.4}));
	M D1 = r.get("Dm1"), D2 = r.get("Dm2"); V v = vec({0.7, -0.4}), v2 = vec({0.49, -0.16});
	return close("dm", r.get("dm"), D1*v + D2*v2, 1e-9);
}''', files={"conf.yaml": conf(["R_SEA", "R", "P_SEA"], el=dict(Ko=1, Do=1, Dmo=2))})
seed("c07-prismatic-couple", "C07", [(S + "dynamics.cpp", "			Mi = mi * casadi::SX::mtimes({Jci[i].T(), Jci[i]}) + casadi::SX::mtimes({Jwi[i].T(),R0i,Ii,R0i.T(),Jwi[i]});",
     '''			// links up to the first rotoidal joint only translate: no rotational energy
			bool rotates = false;
			for (int j=0; j<i; j++) if (robot.get_jointsType()[j][0] == 'R') rotates = true;
			Mi = mi * casadi::SX::mtimes({Jci[i].T(), Jci[i]});
			if (rotates || i == 0 || robot.get_jointsType()[i][0] == 'P') Mi = Mi + casadi::SX::mtimes({Jwi[i].T(),R0i,Ii,R0i.T(),Jwi[i]});''')],
     "a rotoidal joint preceded only by prismatic joints (gantry with a wrist)",
     "the barycentric inertia of the first rotating link is ignored, so joint torques and power balance are wrong",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8})); M m = r.get("M"); V p = r.get_par_DYN();
	double c = p(11)*p(11) + p(12)*p(12);
	return std::abs(m(1,1) - (p(19) + p(10)*c)) < 1e-9 ? 0 : bad("M22", m(1,1));
}''', files={"conf.yaml": conf(["P", "R"])})
seed("c11-sliding-coriolis", "C11", [(S + "regressors.cpp", """				casadi::SX C = stdCmatrix(M2l_i, q, dq, dq_sel_);
""", """				casadi::SX C(nj, nj);
				// a link which slides adds no rotation of its own
				if (i == 0 || robot.get_jointsType()[i][0] == 'R') C = stdCmatrix(M2l_i, q, dq, dq_sel_);
""")],
     "a prismatic joint after at least two rotoidal ones", "the inertia columns of the sliding link are missing in the Coriolis part of Yr and in reg_C",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_q(vec({0.3, -0.8, 0.4})); r.set_dq(vec({1, -0.5, 0.7})); V dqr = vec({-0.2, 0.9, 0.6}), ddqr = vec({0.3, 0.1, -0.5});
	r.set_dqr(dqr); r.set_ddqr(ddqr); V par = r.get_par_REG();
	return close("Yr", r.get("Yr")*par, r.get("M")*ddqr + r.get("C")*dqr + r.get("G"), 1e-8);
}''', files={"conf.yaml": conf(["R", "R", "P"])})
seed("c12-dm-flags", "C12", [(S + "regressors.cpp", "			if (par_Dm_symb[i]){\n", "			if (par_D.size1() == par_Dm.size1() ? par_D_symb[i] : par_Dm_symb[i]){\n")],
     "different symbolic flags for coupling and motor damping of the same order", "the columns of reg_dm follow the flags of the coupling damping",
     lib='''int main(){
	Robot r = robot_from_file("bot", "conf.yaml", 1); r.set_dx(vec({0.7})); M R = r.get("reg_dm");
	if (R.cols() != 1) return bad("columns", R.cols());
	return std::abs(R(0,0) - 0.49) < 1e-9 ? 0 : bad("reg_dm", R(0,0));
}''', files={"conf.yaml": conf(["R_SEA", "R"], el=dict(Ko=1, Do=2, Dmo=2, Ds=[[1, 0]], Dms=[[0, 1]]))})
