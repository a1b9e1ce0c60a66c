#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
T = "src/thunder/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLROB = "every serial robot (any number of joints, any mix of R/P/R_SEA/P_SEA joints, any DH table, base and tool frame, gravity, inertial parameters and symbolic selectivity) and every state"
W = "The tests run one or two fixed robots at q=1 with zero velocities and assert only finiteness and that the gravity-only regressor and dynamics agree with each other."

p("C01", "Forward kinematics equals the modified-DH chain",
  "For every configured robot and joint vector, each relative transform T_i, each absolute transform T_0_i and T_0_ee equals the product base frame (translation and yaw-pitch-roll), modified-DH link transforms in the order a, alpha, d, theta (revolute joints add q to theta, prismatic joints add q to d) and, for the end effector, the tool frame. Every transform is a rigid motion: orthonormal rotation of determinant one and last row 0 0 0 1.",
  ["inputs", "configurations"], ALLROB, W + " No test compares a transform with anything.",
  [T+"kinematics.cpp", T+"robot.cpp"], [("DHTemplate, get_transform, compute_chain", T+"kinematics.cpp"), ("model/args population from YAML", T+"robot.cpp parse_config")], ["Robot::get(T_*)"])
p("C02", "Jacobians are the exact derivative of the kinematics",
  "For every robot and joint vector, column j of J_i, J_cm_i, J_ee and J_{n+1} is the world-frame linear velocity of the frame origin (of the link's centre of mass for J_cm_i, of the tool point for J_ee) stacked over its angular velocity when joint j moves at unit speed and the others are still. Columns of joints that come after link i are zero.",
  ["inputs", "configurations"], ALLROB, W, [T+"kinematics.cpp", T+"dynamics.cpp"],
  [("compute_jacobians", T+"kinematics.cpp"), ("DHJacCM", T+"dynamics.cpp")], ["Robot::get(J_*)"])
p("C03", "End-effector Jacobian derivatives and damped pseudo-inverse are exact",
  "Along every joint trajectory J_ee_dot and J_ee_ddot are the first and second time derivatives of J_ee, as functions of q, dq and ddq. J_ee_pinv is the damped right pseudo-inverse J^T (J J^T + 0.02 I)^-1 of J_ee, finite also at singular configurations and for robots with fewer or more than six joints.",
  ["inputs", "configurations"], ALLROB + " and every joint velocity and acceleration", W + " J_ee_dot, J_ee_ddot and J_ee_pinv are never evaluated.",
  [T+"kinematics.cpp"], [("compute_kin_adv", T+"kinematics.cpp")], ["Robot::get(J_ee_dot, J_ee_ddot, J_ee_pinv)"])
p("C04", "Mass matrix is the kinetic-energy matrix",
  "For every robot and configuration, one half dq^T M dq is the total kinetic energy of the links with their configured mass, centre of mass and barycentric inertia tensor expressed in the DH frames. M is symmetric, and positive definite when every link has positive mass and positive definite inertia.",
  ["inputs", "configurations"], ALLROB, W, [T+"dynamics.cpp"], [("compute_MCG, createInertialParameters, DHJacCM", T+"dynamics.cpp")], ["Robot::get(M)"])
p("C05", "Coriolis matrix is the Christoffel matrix of M",
  "For every robot, q and dq, C and C_std both equal the Christoffel-symbol Coriolis matrix of the mass matrix: C dq is the centrifugal and Coriolis torque of the mechanism, C is linear in dq, and M_dot - 2C is skew-symmetric. It holds for the matrix itself and not only for its product with dq, because adaptive control multiplies it by the reference velocity.",
  ["inputs", "configurations"], ALLROB, W + " At dq=0 the Coriolis matrix is always zero.", [T+"dynamics.cpp"], [("stdCmatrix, stdCmatrix_classic, dq_select", T+"dynamics.cpp")], ["Robot::get(C, C_std, M_dot)"])
p("C06", "Gravity vector is the gradient of the gravitational potential",
  "For every robot, base frame, gravity vector (given in the world frame) and configuration, G is the gradient with respect to q of the potential energy minus sum of m_i g^T p_cm_i, so that holding torque G keeps the robot at rest. G is linear in gravity and zero when no gravity is configured.",
  ["inputs", "configurations"], ALLROB, W + " They compare G only with the regressor computed from the same transforms.", [T+"dynamics.cpp"], [("compute_MCG", T+"dynamics.cpp")], ["Robot::get(G)"])
p("C07", "M, C and G together are the Newton-Euler inverse dynamics",
  "For every robot and every q, dq, ddq, the torque M ddq + C dq + G equals the joint torque (force for prismatic joints) obtained from Newton's and Euler's laws link by link. Along every motion the power balance holds: the rate of kinetic plus potential energy equals dq^T (M ddq + C dq + G).",
  ["inputs", "configurations"], ALLROB + " and every joint acceleration", W, [T+"dynamics.cpp", T+"kinematics.cpp"], [("compute_MCG", T+"dynamics.cpp")], ["Robot::get(M, C, G)"])
p("C08", "Time derivatives of M, C and G are exact",
  "Along every joint trajectory M_dot, M_ddot, C_dot, C_ddot, G_dot and G_ddot are the first and second total time derivatives of M, C and G, given q and its derivatives up to the third.",
  ["inputs", "configurations"], ALLROB + " and every dq, ddq, d3q", W + " None of the six derivatives is evaluated.", [T+"dynamics.cpp"], [("compute_dyn_derivatives", T+"dynamics.cpp")], ["Robot::get(M_dot, M_ddot, C_dot, C_ddot, G_dot, G_ddot)"])
p("C09", "Link friction model is the odd sign-preserving power law",
  "For every friction order, robot and dq, element i of dl is the sum over ord of Dl_i[ord] times sign(dq_i) |dq_i|^(ord+1), so friction of joint i depends on dq_i alone, is odd, and dissipates when coefficients are non-negative. Dl1, Dl2, ... are the diagonal matrices of the coefficients of each order, in joint order.",
  ["inputs", "configurations"], "every friction order and coefficient list, every joint mix, every dq", W + " dq is always zero, where friction vanishes for any formula.", [T+"dynamics.cpp", T+"robot.cpp"], [("compute_Dl", T+"dynamics.cpp"), ("load_conf_par", T+"robot.cpp")], ["Robot::get(dl, Dl*)"])
p("C10", "Elastic coupling, damping and motor terms refer to the right joint",
  "For every elastic robot, also when rigid and elastic joints are mixed in any order, entry e of k is the sum of K_e[o] (x_e - q_j)^(2o+1), entry e of d the sum of D_e[o] sign(v)|v|^(o+1) with v = dx_e - dq_j, and entry e of dm the same law in dx_e with Dm, where j is the joint index of the e-th elastic joint. Mm and the K1, K3, .., D1, .., Dm1, .. matrices are the diagonal matrices of the configured coefficients in elastic-joint order.",
  ["inputs", "configurations"], "every mix of rigid and SEA joints, every model order, every q, dq, x, dx", W + " The one elastic robot tested has only elastic joints and is tested with x, dx, dq zero.", [T+"dynamics.cpp", T+"robot.cpp"], [("compute_elastic", T+"dynamics.cpp"), ("isElasticJoint", T+"robot.cpp parse_config")], ["Robot::get(k, d, dm, Mm, K*, D*, Dm*)"])
p("C11", "Inertial regressor reproduces the dynamics column by column",
  "For every robot and state, Yr times the regressor parameters (mass, first moment, inertia about the link frame origin of every link) equals M ddqr + C dqr + G, and each of the ten columns of a link is the torque due to that one parameter. reg_M, reg_C and reg_G split it: they give M ddqr, C dqr and G, and sum to Yr.",
  ["inputs", "configurations"], ALLROB + " and every reference velocity and acceleration", W + " With zero velocities and accelerations only four columns per link of the gravity part are ever non-zero.", [T+"regressors.cpp"], [("compute_Yr, createE, createQ", T+"regressors.cpp")], ["Robot::get(Yr, reg_M, reg_C, reg_G)"])
p("C12", "Friction and elastic regressors are exact and linear",
  "For every robot, column c of reg_dl, reg_k, reg_d, reg_dm and reg_Mm is the derivative of dl, k, d, dm and Mm ddx with respect to the c-th symbolic coefficient, in coefficient order, and there is one column per symbolic coefficient. Hence regressor times the symbolic coefficients plus the term with those coefficients at zero gives the term; a regressor exists exactly when its term has a symbolic coefficient.",
  ["inputs", "configurations"], "every symbolic/numeric pattern of coefficients, every order, every state", W + " They run with all velocities and deflections at zero, where these regressors are zero.", [T+"regressors.cpp"], [("compute_reg_Dl, compute_reg_elastic", T+"regressors.cpp")], ["Robot::get(reg_dl, reg_k, reg_d, reg_dm, reg_Mm)"])
p("C13", "Kinematic regressors are the parameter Jacobians of J dq and J^T w",
  "For every robot with symbolic kinematic parameters, reg_Jdq and reg_JTw are the derivatives of J_ee dq and of J_ee^T w with respect to the symbolic entries of the DH table, then of the base frame, then of the tool frame, in table order, one column per symbolic entry.",
  ["inputs", "configurations"], "every symbolic pattern of DH table and frames, every q, dq, w", "No test evaluates these functions.", [T+"regressors.cpp"], [("compute_reg_J", T+"regressors.cpp")], ["Robot::get(reg_Jdq, reg_JTw)"])
p("C14", "Dynamic and regressor parameter sets stay equivalent",
  "Loading a configuration, or setting either the dynamic set (mass, CoM, barycentric inertia) or the regressor set (mass, mass times CoM, inertia about the frame origin) of a robot model, leaves the other set describing the same bodies by the parallel-axis theorem, and converting forth and back returns the same values. A vector of the wrong length is refused and changes neither set, and the sets read back have full length with the values in force.",
  ["inputs", "histories"], "every sequence of loads and sets, every parameter value with non-zero masses, every symbolic selectivity", "No test sets parameters or reads them back.", [T+"robot.cpp"], [("update_inertial_DYN, update_inertial_REG, set_par_DYN, set_par_REG, get_par_DYN, get_par_REG", T+"robot.cpp")], ["Robot::get_par_DYN, get_par_REG, set_par_DYN, set_par_REG, load_conf_par"],
  [("args[par_DYN], args[par_REG]", "values in force of both parameterisations", T+"robot.cpp")])
p("C15", "Symbolic selectivity never changes results",
  "Two configurations that differ only in their symb flags describe the same robot: every function present in both gives the same values in every state. Setting the symbolic entries of a parameter to new values (only those entries, in order) gives the values of the robot whose configuration file holds those numbers, numeric entries stay fixed, and a function lists a parameter among its arguments only if that parameter has a symbolic entry.",
  ["inputs", "configurations"], "every pattern of symb flags over all parameters (none, some, all), every new value", "Tests use a fixed pattern per robot and never change a symbolic parameter.", [T+"robot.cpp"], [("init_symb_parameters, subs_symb_par, obtain_symb_parameters, update_symb_parameters, add_function", T+"robot.cpp")], ["Robot::get, set_arg, get_functions"])
p("C16", "Robot parameter files round-trip",
  "For every robot and every history of argument changes, saving parameters or regressor parameters to a file and loading that file, in the same or in another robot of the same structure, restores exactly the saved values and leaves parameters that are not in the file alone; values survive with full double precision. Saving the configuration yields a file that loads to the same robot; loading the dynamic parameters of a configuration brings exactly its inertial, friction and elastic parameters in force, and a file that is refused changes nothing.",
  ["inputs", "histories"], "every value, every parameter subset, every save/modify/load history", "No test loads what another call saved.", [T+"robot.cpp"], [("save_par, load_par, save_par_REG, load_par_REG, save_conf", T+"robot.cpp")], ["files written, Robot::get_arg, Robot::get"])
p("C17", "Valid configurations mean what they say, optional parts included",
  "Every configuration accepted by the format gives the robot it describes: omitted optional parts (gravity, symb flags, friction, elastic section, orders) take their documented defaults (no gravity, all numeric, no friction, rigid), link and joint entries are taken in file order whatever their names, entries beyond the number of joints are ignored, and equivalent YAML spellings (flow or block style, key order, number formats, comments) give the same robot.",
  ["configurations", "inputs"], "every subset of optional fields, every layout and spelling of the same content", "The tests load a handful of complete hand-written files.", [T+"robot.cpp"], [("parse_config, load_conf_par", T+"robot.cpp")], ["Robot getters and Robot::get"])
p("C18", "Bad configurations are refused cleanly",
  "A configuration file that is missing, is not YAML, lacks a mandatory field, or has a field of the wrong type or length never corrupts memory, crashes by a signal, hangs or yields a robot built from uninitialised data: it is reported through an exception or an error message. Whatever parses yields finite results for finite inputs or an error.",
  ["inputs"], "every byte string and every structural mutation of a valid configuration", "No test feeds a bad configuration.", [T+"robot.cpp", T+"FrameOffset.cpp"], [("parse_config, load_config, load_conf_par", T+"robot.cpp")], ["process outcome under ASan/UBSan, exceptions"])
p("C19", "Generated class computes exactly what the model computes",
  "For every accepted configuration and name the generated C++ compiles, contains one getter per model function, and after load_conf of the generated configuration every getter returns, for all argument values, the value the symbolic model gives, with the same shape. This includes every pattern of symbolic and numeric parameters and parameters changed at run time.",
  ["configurations", "programs", "inputs"], "every robot configuration (structure, orders, symbolic pattern), every argument and parameter value", "Tests generate two fixed robots and compare only gravity with its own regressor at one state.", [T+"utils.cpp", T+"robot.cpp", "src/thunder/thunder_robot_template/thunder_robot.cpp", "src/thunder/thunder_main.cpp"], [("change_to_robot", T+"utils.cpp"), ("generate_library, add_function", T+"robot.cpp"), ("load_conf", "thunder_robot_template/thunder_robot.cpp")], ["generated get_* functions vs Robot::get"])
p("C20", "Generated class parameters and arguments behave as plain state",
  "In every sequence of calls on an object of the generated class, a getter depends only on the last accepted value of each argument and parameter: an accepted set replaces the whole value, a vector of the wrong length changes nothing at all, dynamic and regressor parameters stay equivalent unless the caller asks otherwise, and objects do not influence each other.",
  ["histories", "inputs"], "every sequence of set/get/compute calls over several objects", "The tests set each argument once, with the right size, on one object.", ["src/thunder/thunder_robot_template/thunder_robot.cpp", "src/thunder/thunder_robot_template/thunder_robot.h"], [("set_*, update_inertial_*, resizeVariables", "thunder_robot_template/thunder_robot.cpp")], ["thunder_<robot> getters"])
p("C21", "Generated class parameter files round-trip",
  "For every parameter state of the generated class, save_par_REG followed by load_par_REG and save_par_DYN followed by load_conf restore the saved inertial (and, for the latter, friction) parameters, save_par writes every parameter vector in force, and load_conf of the generated configuration gives the configured values of every parameter. A file lacking a section leaves the corresponding parameters alone, and a damaged file leaves every parameter with its value before or the one in the file, and the dynamic and regressor sets describing the same bodies.",
  ["inputs", "histories"], "every parameter value, every save/modify/load history, every robot structure", "Tests load one configuration file and save nothing.", ["src/thunder/thunder_robot_template/thunder_robot.cpp"], [("save_par_REG, save_par_DYN, save_par, load_par_REG, load_conf, fillInertialYaml", "thunder_robot_template/thunder_robot.cpp")], ["files written, get_par_*"])
p("C22", "Objects of a generated class can be used in different threads",
  "Getters, setters and file methods called concurrently from several threads on different objects give what they give when called alone, with no data race, and a returned matrix keeps its value whatever is called afterwards.",
  ["schedules", "histories"], "every interleaving of calls on distinct objects in several threads; every later call", "No test uses threads or keeps two results.", [T+"utils.cpp"], [("thread_local buffers, return by value in change_to_robot", T+"utils.cpp")], ["generated get_* functions, ThreadSanitizer"])
p("C23", "Python binding exposes the whole generated class",
  "For every robot and name, generation with the Python option produces a binding source that compiles, names the module and class after the robot, and binds every generated getter and every public set/get/load/save method under its own name to that very method; the C++ behaviour of the class is unchanged by the option.",
  ["configurations", "programs"], "every robot configuration and name", "No test generates the Python binding.", [T+"utils.cpp", "src/thunder/thunder_robot_template/CMakeLists.txt"], [("add_bindings_template, change_to_robot, update_cmake", T+"utils.cpp")], ["generated thunder_<name>.cpp compiled against a recording pybind11 stand-in"])
p("C24", "Command line generates exactly the promised files, deterministically",
  "For every path of a valid configuration file (ending in .yaml) and option set, thunder gen creates <name>_generatedFiles in the working directory with the library pair, the class pair, the configuration and the regressor parameters named after the robot (the file's base name, or the -n name), plus a CMake file with -p and one loadable function file per model function with -f, and touches nothing else; with -c, run from the build folder of the source tree, the six files are also copied unchanged to the folders of the two test projects. The content depends only on configuration, name and options; the written configuration and parameter files describe the same robot as the input.",
  ["inputs", "configurations", "histories"], "every path form, name, option combination, configuration, and repeated or overwriting runs", "Tests run one command form for two robots and look only at the exit code.", ["src/thunder/thunder_main.cpp", T+"utils.cpp", T+"robot.cpp"], [("main, copy_to", "src/thunder/thunder_main.cpp"), ("generate_library, save_conf, save_par_REG", T+"robot.cpp")], ["directory tree before and after, file contents"])
p("C25", "Functions added by users become first-class model functions",
  "For every expression over model quantities, adding a function makes it computable by name with the value of that expression at the current arguments and parameters, lists it with its arguments, description and shape, and leaves all other functions unchanged; re-adding replaces it, or is refused without effect when overwriting is disallowed. Asking for an unknown name reports it and does not change the model. The documented example adds the distance from q0, or is refused when q0 has fewer values than joints.",
  ["inputs", "histories", "programs"], "every expression, argument list, symbolic pattern and sequence of additions", "No test adds a function.", [T+"robot.cpp", T+"userDefined.cpp"], [("add_function, get_functions, get", T+"robot.cpp")], ["Robot::get, get_functions"])
p("C26", "Rigid-body utilities obey the laws of mechanics",
  "For every angle triple the roll-pitch-yaw rotation (utility functions and frame offsets alike) is Rz(yaw) Ry(pitch) Rx(roll), a proper rotation; transforming a body's inertial description to another frame and merging two bodies preserve mass, centre of mass and inertia as physics demands, independent of the order of merging.",
  ["inputs"], "every angle, offset, mass and inertia", "Tests never call these functions directly.", [T+"utils.cpp", T+"FrameOffset.cpp", "src/genYAML/src/urdf2dh_inertial.cpp"], [("rpyRot, transformBodyInertial, mergeBodyInertial, createI, hat", T+"utils.cpp"), ("get_rotation, get_transform", T+"FrameOffset.cpp"), ("the same functions", "src/genYAML/src/urdf2dh_inertial.cpp")], ["return values"])
p("C27", "Franka inertial converter writes equivalent parameter files",
  "For every inertial input file, the converter's output gives for each DH link the mass, centre of mass and inertia of the bodies attached to it, re-expressed in the DH frame, in a barycentric file and in a regressor file that agree by the parallel-axis theorem; each entry of a perturbed variant deviates from the nominal one by a zero-mean random relative error of its own (the errors of different entries and links are independent) whose standard deviation is the stated percentage. An input lacking parameters of a link is refused with a non-zero exit.",
  ["inputs"], "every inertial input file", "The tests build the converter but never run it.", ["src/genYAML/main_YAML.cpp", "src/genYAML/src/urdf2dh_inertial.cpp"], [("main", "src/genYAML/main_YAML.cpp")], ["files written in ../generatedFiles"])

p("C28", "A robot model object is plain state",
  "In every history of calls on Robot objects, a model function depends only on the last accepted value of each argument: set_q, set_dq, set_dqr, set_ddqr and, for the elastic joints, set_x, set_dx, set_ddx, set_ddxr replace the whole vector and return 1, or refuse a vector of any other length, return 0 and change nothing. Evaluating a function or asking for an unknown one changes nothing, evaluation is repeatable, arguments start at zero and parameters at the configured values, and copies of a robot, assigned robots and robots of other configurations are independent objects: neither an argument, nor a parameter, nor the configuration that save_conf writes, changes because another robot, or the YAML node it was made from, does.",
  ["histories", "inputs"], "every sequence of set, get, copy and assign calls over several robots, every vector length", "The tests set each argument once, with the right size, on one robot.", [T+"robot.cpp"], [("set_*, set_arg, get_arg, get", T+"robot.cpp")], ["Robot::get, get_arg, return values of set_*"],
  [("args", "values of the arguments in force", T+"robot.cpp"), ("config_yaml", "the configuration save_conf writes", "src/thunder/library/robot.h")])
p("C29", "The model can be computed piece by piece, in any order",
  "For every robot, any sequence of the public computing functions (compute_chain, compute_jacobians, compute_kin_adv, compute_kinematics, compute_MCG, compute_Dl, compute_elastic, compute_dyn_derivatives, compute_dynamics, compute_Yr, compute_reg_Dl, compute_reg_elastic, compute_reg_J, compute_regressors) between init_symb_parameters and update_symb_parameters, repetitions included, provides the functions asked for, computes first whatever they need, and every function has the same value, arguments, shape and description as in the robot that robot_from_file computes; parameters and getters are the same too. compute_Dl and compute_elastic return 0 and add nothing on a robot without friction or elastic joints.",
  ["histories", "configurations"], "every robot and every sequence of computing functions", "The tests call the modules in one fixed order.", [T+"kinematics.cpp", T+"dynamics.cpp", T+"regressors.cpp"], [("compute_*", T+"kinematics.cpp, dynamics.cpp, regressors.cpp"), ("init_symb_parameters, update_symb_parameters", T+"robot.cpp")], ["Robot::get, get_functions"])
p("C30", "Classes generated for different robots live together in one program",
  "For every set of robots with distinct names (names that contain one another included), the generated headers can be included in one source in any order, the generated sources compile and link into one program, and each object answers for its own robot: dimensions, parameters and every getter are those of its own class whatever is done with objects of the other classes.",
  ["configurations", "programs", "histories"], "every set of robots and names, every interleaving of calls on their objects", "The tests link one generated class per program.", [T+"utils.cpp", T+"robot.cpp", "src/thunder/thunder_robot_template/thunder_robot.h"], [("change_to_robot", T+"utils.cpp"), ("generate_library, add_function", T+"robot.cpp")], ["one program with several generated classes"])
p("C31", "Inertial files written from a configuration describe the same bodies",
  "For every configuration with parameters for each of the robot's links, genInertial_files writes a DYN file with exactly the mass, centre of mass, inertia and friction coefficients of the links, and a REG file with mass, first moment and inertia about the link frame's origin (parallel-axis theorem) and the same friction, both listing the links by name in the order of the configuration and nothing beyond the robot's joints. Loading the DYN file with load_conf_par, or the REG file with load_par_REG, gives a robot the inertial and friction parameters of the configuration. A configuration lacking a parameter or a link is refused: 0 is returned and existing files stay as they were.",
  ["inputs", "configurations"], "every configuration: link names and order, friction orders, extra links", "No test calls the function.", [T+"genYaml.cpp"], [("genInertial_files, fillInertialYaml", T+"genYaml.cpp"), ("load_conf_par, load_par_REG", T+"robot.cpp")], ["the two files written", "Robot::get_par_DYN, get_par_REG after loading them"])
p("C32", "Functions added by users become getters of the generated class",
  "For every robot and every function a user adds to it with add_function, while the model is computed or on the finished robot, generate_library and change_to_robot turn it into a getter get_<name> of the generated class: the generated code compiles, the getter has the function's shape and returns, for all argument values and parameters, the value of the user's expression, constants and functions of no argument, of only the symbolic entries of a parameter, or of other model functions included, whatever text describes it; with Python bindings the description is the method's documentation. All other getters stay what they are.",
  ["programs", "inputs", "configurations"], "every expression, name, argument list and symbolic pattern, every argument and parameter value", "No test adds a function, and none generates a class with one.", [T+"robot.cpp", T+"utils.cpp", T+"userDefined.cpp"], [("add_function, generate_library", T+"robot.cpp"), ("change_to_robot", T+"utils.cpp"), ("compute_example_fun", T+"userDefined.cpp")], ["generated get_* functions"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
