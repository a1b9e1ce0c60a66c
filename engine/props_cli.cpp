// C24: what the command line writes, and where.
#include "genkit.h"
#include <casadi/casadi.hpp>
using namespace ref;

typedef std::map<std::string, std::string> Tree;       // path below the root -> kind and content
static Tree snap(const std::string& root) {
	Tree t;
	for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) {
		std::string p = it->path().lexically_relative(root).string();
		if (it->is_symlink()) t[p] = "link " + fs::read_symlink(it->path()).string();
		else if (it->is_directory()) t[p] = "dir";
		else t[p] = "file " + readFile(it->path().string());
	}
	return t;
}
static const Strs ids = {"robo", "R2d2", "my_arm", "robot", "n", "yaml", "lamy", "a", "franka7", "m_y_a_l", "thunder", "x86", "RRR", "yam", "conf", "gen"};
static void sameRobot(Ctx& c, const std::string& what, const Model& a, const Model& b, double rel) {
	c.checks++;
	if (a.n != b.n || a.type != b.type || a.ne != b.ne) fail(what + ": other joints");
	if (a.ELASTIC != b.ELASTIC) fail(what + ": other elastic flag");
	if (a.Dl_order != b.Dl_order) fail(what + ": Dl_order " + std::to_string(a.Dl_order) + ", expected " + std::to_string(b.Dl_order));
	if (b.ELASTIC && (a.K_order != b.K_order || a.D_order != b.D_order || a.Dm_order != b.Dm_order)) fail(what + ": other elastic orders");
	for (auto& s : b.symb) {
		auto it = a.symb.find(s.first);
		if (it == a.symb.end() ? anyFlag(s.second) : it->second != s.second) fail(what + ": other symbolic flags of " + s.first);
		Vec x = param(a, s.first), y = param(b, s.first);
		same(c, what + ": " + s.first, col(x), col(y), rel * (1 + amax(y)));
	}
}
static Vec regRef(const Model& m) {
	Vec r;
	for (auto& p : m.dyn) {
		double k = p[0], x = p[1], y = p[2], z = p[3];
		for (double v : {k, k * x, k * y, k * z, p[4] + k * (y * y + z * z), p[5] - k * x * y, p[6] - k * x * z, p[7] + k * (x * x + z * z), p[8] - k * y * z, p[9] + k * (x * x + y * y)}) r.push_back(v);
	}
	r.resize(10 * m.n, 0.0);
	return r;
}
static Vec regFile(const std::string& text) {
	static const char* keys[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	YAML::Node y = YAML::Load(text);
	Vec r;
	for (const auto& l : y["dynamics"]) for (auto k : keys) r.push_back(l.second["inertial"][k].as<double>());
	return r;
}
struct Run { Strs args; std::string cwd, out, name; bool p = false, f = false, copy = false; };
static std::string shown(const Run& r) { std::string s = "cd " + r.cwd + "; thunder"; for (auto& a : r.args) s += " '" + a + "'"; return s + "\n"; }

PROPERTY(C24, "random command lines (path forms, symbolic links, a configuration it wrote itself, names, option spellings and orders, working directories, earlier outputs of other robots, other environment) of thunder gen on valid and invalid configurations in a scratch tree with bystander files; the whole tree before and after, file set, repeated runs byte by byte, written configuration and regressor file against the input robot, saved functions reloaded and evaluated. Non-trivial: two runs for the same robot from different directories, or over another robot's output") {
	GenOpt o; o.nmax = c.t.flip(1, 4) ? 3 : 2;
	std::string root = c.scratch + "/tree";
	fs::remove_all(root);
	for (auto d : {"home", "tmp", "work", "work/sub", "confs", "confs/with space", "confs/v1.0.yaml.d", "other/deep/er", "proj/src/thunder/build", "proj/src/thunder_robot/library", "proj/src/thunder_robot/src", "proj/src/thunder_robot/robots", "proj/src/thunder_robot_chrono/library", "proj/src/thunder_robot_chrono/src", "proj/src/thunder_robot_chrono/robots"}) fs::create_directories(root + "/" + d);
	for (auto f : {"home/note.txt", "work/keep.cpp", "work/robo_gen.cpp", "confs/readme.md", "other/thunder_robo.h", "other/deep/CMakeLists.txt", "proj/src/thunder_robot/CMakeLists.txt", "proj/src/thunder_robot/robots/old_conf.yaml", "proj/src/thunder_robot_chrono/library/robo_gen.h", "proj/src/thunder/build/thunder_robo.h"}) writeFile(root + "/" + f, std::string("bystander ") + f);
	std::map<std::string, std::string> env1 = {{"HOME", root + "/home"}, {"TMPDIR", root + "/tmp"}, {"LC_ALL", "C"}}, env2 = {{"HOME", root + "/other"}, {"TMPDIR", root + "/tmp"}, {"TZ", "Asia/Tokyo"}, {"LC_ALL", "C.UTF-8"}, {"USER", "somebody"}};
	std::string tmpl = "/usr/local/share/thunder_dynamics/thunder_robot_template";
	Tree tmpl0 = snap(fs::canonical(tmpl).string());
	// robots
	struct Rob { Spec s; std::string yaml, path, base; Model m; };
	std::vector<Rob> rs;
	static const Strs dirs = {"work", "confs", "confs/with space", "confs/v1.0.yaml.d", "work/sub", "other/deep/er"};
	int nr = 1 + c.t.draw(2);
	for (int i = 0; i < nr; i++) {
		Rob r;
		r.s = genSpec(c.t, o);
		r.yaml = toYaml(r.s); r.m = parse(r.yaml);
		r.base = genName(c.t, ids);
		r.path = root + "/" + c.t.pick(dirs) + "/" + r.base + ".yaml";
		if (fs::exists(r.path)) continue;
		writeFile(r.path, r.yaml);
		c.desc += "file " + r.path + "\n" + r.yaml;
		rs.push_back(r);
	}
	classify(c, rs[0].s, rs[0].m);
	static const Strs cwds = {"work", "proj/src/thunder/build", "work/sub", "confs", "other/deep/er", "confs/with space"};
	std::map<std::string, std::map<std::string, std::string>> before;      // robot, name and options -> file -> content
	int runs = 2 + c.t.draw(4);
	int sameTwice = 0;
	Strs used;
	for (int k = 0; k < runs; k++) {
		bool bad = c.t.flip(1, 6);
		size_t ri = c.t.draw(rs.size());
		const Rob& r = rs[ri];
		Run x;
		x.cwd = root + "/" + (c.t.flip(1, 4) ? cwds[1] : c.t.pick(cwds));
		std::string file = r.path;
		if (!bad) {
			int form = c.t.draw(5);
			std::string rel = fs::relative(r.path, x.cwd).string();
			if (form == 0) file = rel;
			else if (form == 1) file = "./" + rel;
			else if (form == 4) {                         // a symbolic link of that name
				file = root + "/other/deep/er/links/" + std::to_string(ri) + "/" + (c.t.flip() ? r.base : "via_" + r.base) + ".yaml";
				fs::create_directories(fs::path(file).parent_path());
				if (!fs::exists(file)) fs::create_symlink(r.path, file);
				c.label("through a symbolic link");
			}
			else if (form == 2) file = root + "/home/../" + fs::relative(r.path, root).string();
		} else {
			int how = c.t.draw(5);
			std::string broken = r.yaml;
			if (how == 0) file = x.cwd + "/missing.yaml";
			else if (how == 1) { broken.erase(broken.find("num_joints"), 10); }
			else if (how == 2) { broken.replace(broken.find("type_joints: ["), 14, "type_joints: [Q, "); }
			else if (how == 3) { size_t p = broken.find("DH: ["); broken.insert(p + 5, "text, "); }
			else broken = "{[";
			if (how) { file = root + "/confs/broken.yaml"; writeFile(file, broken); }
			c.desc += "invalid configuration of kind " + std::to_string(how) + "\n";
		}
		x.name = bad ? r.base : fs::path(file).stem().string();
		x.p = c.t.flip(1, 3); x.f = c.t.flip(1, 3);
		Strs optsv;
		bool named = c.t.flip(1, 2);
		std::vector<Strs> parts = {{file}};
		if (named && used.size() && c.t.flip()) x.name = used[c.t.draw(used.size())];
		else if (named) x.name = genName(c.t, ids);
		if (named) { parts.push_back({c.t.flip() ? "-n" : "--name", x.name}); }
		used.push_back(x.name);
		if (x.p) parts.push_back({c.t.flip() ? "-p" : "--python"});
		if (x.f) parts.push_back({c.t.flip() ? "-f" : "--casadifunc"});
		x.copy = x.cwd == root + "/proj/src/thunder/build" && c.t.flip(2, 3);    // elsewhere it copies outside the working directory's tree
		if (x.copy) parts.push_back({c.t.flip() ? "-c" : "--copy"});
		for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[c.t.draw(i)]);
		x.args = {"gen"};
		for (auto& p : parts) x.args.insert(x.args.end(), p.begin(), p.end());
		c.desc += shown(x);
		if (!bad && c.t.flip(1, 4)) {                   // remains of an interrupted or older run
			std::string d = x.cwd + "/" + x.name + "_generatedFiles/";
			fs::create_directories(d);
			for (auto f : {"thunder_" + x.name + ".h", "thunder_" + x.name + ".cpp", x.name + "_gen.h", x.name + "_gen.cpp", x.name + "_conf.yaml", x.name + "_par_REG.yaml", std::string("CMakeLists.txt"), std::string("M.casadi"), std::string("notes.txt")})
				if (c.t.flip()) { if (r.path != d + f) writeFile(d + f, std::string(c.t.draw(3) * 100000, 'x') + "\nremains: [of, something\n"); }
			c.desc += "(over remains of another run)\n";
			c.label("over damaged files");
		}
		if (x.copy && c.t.flip()) {                     // the test projects hold copies of another robot of this name
			for (auto prj : {"proj/src/thunder_robot/", "proj/src/thunder_robot_chrono/"})
				for (auto f : {"library/thunder_" + x.name + ".h", "src/thunder_" + x.name + ".cpp", "library/" + x.name + "_gen.h", "src/" + x.name + "_gen.cpp", "robots/" + x.name + "_conf.yaml", "robots/" + x.name + "_par_REG.yaml"})
					if (c.t.flip(2, 3)) writeFile(root + "/" + prj + f, std::string(c.t.draw(3) * 50000, 'y') + "\nold: copy\n");
			c.desc += "(over older copies)\n";
			c.label("over older copies");
		}
		Tree t0 = snap(root);
		Strs cmd{env("PBT_CLI")};
		cmd.insert(cmd.end(), x.args.begin(), x.args.end());
		int rc = runCmd(cmd, x.cwd, c.scratch + "/cli.out", 100, c.t.flip() ? env1 : env2);
		if (rc == -1000) throw Discard();
		if (rc < 0) fail("thunder gen ends with signal " + std::to_string(-rc) + "\n" + tail(c.scratch + "/cli.out"), "crash");
		Tree t1 = snap(root);
		std::string od = fs::relative(x.cwd, root).string() + "/" + x.name + "_generatedFiles";
		std::set<std::string> want, copies;
		if (!bad) {
			Bot b;
			b.m = r.m;
			b.r.reset(new Robot(thunder_ns::robot_from_file(x.name, r.path, true)));
			b.refresh();
			for (auto f : {"thunder_" + x.name + ".h", "thunder_" + x.name + ".cpp", x.name + "_gen.h", x.name + "_gen.cpp", x.name + "_conf.yaml", x.name + "_par_REG.yaml"}) want.insert(od + "/" + f);
			if (x.p) want.insert(od + "/CMakeLists.txt");
			if (x.f) for (auto& f : b.f) want.insert(od + "/" + f.first + ".casadi");
			for (auto& w : want) { c.checks++; if (!t1.count(w) || t1[w].compare(0, 5, "file ")) fail("thunder gen does not write " + w + "\n" + tail(c.scratch + "/cli.out"), "missing"); }
			if (x.copy) {
				for (auto prj : {"proj/src/thunder_robot/", "proj/src/thunder_robot_chrono/"})
					for (auto& f : std::vector<std::pair<std::string, std::string>>{{"library/", "thunder_" + x.name + ".h"}, {"src/", "thunder_" + x.name + ".cpp"}, {"library/", x.name + "_gen.h"}, {"src/", x.name + "_gen.cpp"}, {"robots/", x.name + "_conf.yaml"}, {"robots/", x.name + "_par_REG.yaml"}}) {
						std::string w = prj + f.first + f.second;
						c.checks++;
						if (!t1.count(w)) fail("thunder gen -c does not write " + w + "\n" + tail(c.scratch + "/cli.out"), "missing");
						if (t1[w] != t1[od + "/" + f.second]) fail("thunder gen -c: " + w + " is no copy of the generated file", "copy");
						copies.insert(w);
					}
				c.label("copied to the test projects");
			}
			if (x.f) {
				State st = genState(c.t, r.m.n, r.m.ne);
				apply(b, st, false);
				for (auto& f : b.f) {
					if (!c.t.flip(1, 3)) continue;
					casadi::Function fn;
					try { fn = casadi::Function::load(root + "/" + od + "/" + f.first + ".casadi"); } catch (const std::exception& e) { fail("saved function " + f.first + " cannot be loaded: " + e.what(), "casadi"); }
					if (fn.n_in() != (casadi_int)f.second.args.size() || fn.n_out() != 1) fail("saved function " + f.first + " has " + std::to_string(fn.n_in()) + " inputs, expected " + std::to_string(f.second.args.size()), "casadi");
					std::vector<casadi::DM> in;
					for (auto& a : f.second.args) in.push_back(casadi::DM(vec(b.r->get_arg(a))));
					casadi::DM out = casadi::DM::densify(fn(in)[0]);
					Mat got = Eigen::Map<const Mat>(out.ptr(), out.size1(), out.size2()), wantM = b.get(f.first);
					double s = 0;
					bool fin = true;
					for (int i = 0; i < wantM.size(); i++) { if (!std::isfinite(wantM.data()[i])) fin = false; s = std::max(s, std::fabs(wantM.data()[i])); }
					if (fin) same(c, "saved function " + f.first, got, wantM, 1e-9 * s);
				}
				c.label("functions saved");
			}
			const std::string conf = t1[od + "/" + x.name + "_conf.yaml"].substr(5), reg = t1[od + "/" + x.name + "_par_REG.yaml"].substr(5);
			Model cm;
			try { cm = parse(conf); } catch (const std::exception& e) { fail(std::string("the written configuration cannot be read back: ") + e.what() + "\n" + conf, "conf"); }
			sameRobot(c, "written configuration", cm, r.m, 1e-9);
			Vec rv;
			try { rv = regFile(reg); } catch (const std::exception& e) { fail(std::string("the written parameter file cannot be read back: ") + e.what() + "\n" + reg, "conf"); }
			Vec rw = regRef(r.m);
			double rs_ = 1;
			for (size_t l = 0; l < r.m.dyn.size(); l++) { auto& p = r.m.dyn[l]; double q = 1 + std::fabs(p[1]) + std::fabs(p[2]) + std::fabs(p[3]); rs_ = std::max(rs_, std::fabs(p[0]) * q * q); for (int i = 4; i < 10; i++) rs_ = std::max(rs_, std::fabs(p[i])); }
			same(c, "written regressor parameters", col(rv), col(rw), 1e-9 * rs_);
			// the same robot, name and options give the same bytes
			std::string key = std::to_string(ri) + " " + x.name;
			auto& old = before[key];
			bool again = !old.empty();
			for (auto& w : want) {
				std::string f = fs::path(w).filename().string();
				std::string id = f + ((f == "thunder_" + x.name + ".cpp") && x.p ? " -p" : "");
				auto it = old.find(id);
				c.checks++;
				if (it == old.end()) old[id] = t1[w];
				else if (it->second != t1[w]) {
					size_t i = 0;
					while (i < it->second.size() && i < t1[w].size() && it->second[i] == t1[w][i]) i++;
					fail("two runs with the same configuration and name write different " + f + ", from byte " + std::to_string(i) + "\n" + it->second.substr(i > 60 ? i - 60 : 0, 150) + "\nand\n" + t1[w].substr(i > 60 ? i - 60 : 0, 150), "repeat");
				}
			}
			if (again) { sameTwice++; c.label("repeated"); }
			if (t0.count(od)) { c.label("over an earlier output"); c.nontrivial = true; }
			if (c.t.flip(1, 4)) {                         // once more, from the configuration that was just written
				std::string own = (c.t.flip() ? x.cwd + "/" : "") + x.name + "_generatedFiles/" + x.name + "_conf.yaml";
				Strs a{env("PBT_CLI"), "gen", own, "-n", x.name};
				if (x.p) a.push_back("-p");
				if (x.f) a.push_back("-f");
				int rc2 = runCmd(a, x.cwd, c.scratch + "/cli.out", 100, env1);
				if (rc2 == -1000) throw Discard();
				if (rc2 < 0) fail("thunder gen ends with signal " + std::to_string(-rc2) + "\n" + tail(c.scratch + "/cli.out"), "crash");
				c.desc += "then thunder gen " + own + " -n " + x.name + "\n";
				Tree t2 = snap(root);
				std::string cf = od + "/" + x.name + "_conf.yaml";
				for (auto& e : t1) {
					c.checks++;
					if (!t2.count(e.first)) fail("thunder gen with its own output as input removes " + e.first, "own");
					if (e.first == cf) { Model again; try { again = parse(t2[cf].substr(5)); } catch (const std::exception& ex) { fail(std::string("the configuration written over itself cannot be read: ") + ex.what(), "own"); } sameRobot(c, "configuration written over itself", again, r.m, 1e-9); }
					else if (t2[e.first] != e.second) fail("thunder gen with its own output as input changes " + e.first, "own");
				}
				for (auto& e : t2) if (!t1.count(e.first)) fail("thunder gen with its own output as input creates " + e.first, "own");
				t1 = t2;
				c.label("from its own output");
			}
		}
		// nothing else changes
		for (auto& e : t1) {
			if (want.count(e.first) || copies.count(e.first) || (!bad && e.first == od && e.second == "dir")) continue;
			auto it = t0.find(e.first);
			c.checks++;
			if (it == t0.end()) fail((bad ? "an invalid configuration leaves " : "thunder gen also creates ") + e.first, "extra");
			if (it->second != e.second) fail((bad ? "an invalid configuration changes " : "thunder gen changes ") + e.first, "extra");
		}
		for (auto& e : t0) if (!t1.count(e.first)) fail("thunder gen removes " + e.first, "extra");
		if (bad) c.label("invalid configuration");
	}
	if (sameTwice) c.nontrivial = true;
	if (snap(fs::canonical(tmpl).string()) != tmpl0) fail("thunder gen changes its own template", "extra");
}
