// C31: the inertial files written from a configuration.
#include "kit.h"
#include "genYaml.h"
using namespace ref;

static Strs linkNames(const YAML::Node& d) { Strs r; for (const auto& x : d) r.push_back(x.first.as<std::string>()); return r; }
static const char* dynKeys[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
static const char* regKeys[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
// the standard parameters linear in the dynamics: mass, first moment, inertia about the origin of the link frame
static Vec toReg(const double* p) {
	double m = p[0], x = p[1], y = p[2], z = p[3];
	return {m, m * x, m * y, m * z, p[4] + m * (y * y + z * z), p[5] - m * x * y, p[6] - m * x * z, p[7] + m * (x * x + z * z), p[8] - m * y * z, p[9] + m * (x * x + y * y)};
}
static std::string ident(Tape& t) { static const char* l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"; std::string s; for (int i = 0, k = 1 + t.draw(6); i < k; i++) s += l[t.draw(53)]; return s; }

PROPERTY(C31, "random configurations (links with arbitrary names in any order, more links than joints, friction of order 0-4 with longer lists, links without friction) turned into a DYN and a REG inertial file, existing files overwritten; both files read number by number against the configuration, and loaded into robots that had other parameters; damaged configurations and missing links are refused without touching the files. Non-trivial: at least 2 links with non-zero mass and centre of mass, or a refused configuration") {
	Tape& t = c.t;
	GenOpt o; o.nmax = 6;
	Spec s = genSpec(t, o);
	std::set<std::string> used;
	if (t.flip(2, 3)) for (auto& l : s.links) { l.name = ident(t); while (!used.insert(l.name).second) l.name += "x"; }
	double big[] = {1, 1e3, 1e6, 1e-6};
	double k = big[t.draw(4)];
	for (auto& l : s.links) for (auto& x : l.p) x *= k;
	if (t.flip(1, 8)) s.links[t.draw(s.links.size())].hasFric = false;                  // a link without friction
	std::string text = toYaml(s), conf = c.scratch + "/conf.yaml", fd = c.scratch + "/dyn.yaml", fr = c.scratch + "/reg.yaml";
	int bad = t.flip(1, 4) ? 1 + (int)t.draw(3) : 0;
	std::string given = text;
	bool surely = false;
	if (bad == 1) given = damaged(t, text);
	if (bad == 2) { YAML::Node y = YAML::Load(text); int j = t.draw(s.n), q = t.draw(10); YAML::Node in = y["dynamics"][s.links[j].name]["inertial"]; if (t.flip()) in.remove(dynKeys[q]); else in[dynKeys[q]] = "text"; YAML::Emitter e; e << y; given = e.c_str(); surely = true; }
	if (bad == 3) { Spec u = s; u.links.resize(t.draw(s.n)); given = toYaml(u); surely = true; }
	c.desc += given + (bad ? "\ndamaged " + std::to_string(bad) : "");
	writeFile(conf, given);
	std::string old = t.flip() ? "old: [1, 2]\n" : "";
	remove(fd.c_str()); remove(fr.c_str());
	if (!old.empty()) { writeFile(fd, old); writeFile(fr, old); }
	int rc = 0;
	bool thrown = false;
	try { rc = thunder_ns::genInertial_files("robo", s.n, conf, fd, fr); } catch (const std::exception&) { thrown = true; }
	classify(c, s, parse(text));
	if (bad) {
		bool ok = rc == 1 && !thrown;
		c.label(ok ? "damaged, accepted" : "refused");
		c.checks++;
		if (surely && ok) fail("inertial files are written from a configuration without all parameters of the first " + std::to_string(s.n) + " links");
		if (!ok && (readFile(fd) != old || readFile(fr) != old)) fail("a refused configuration changes the inertial files");
		if (!ok) c.nontrivial = true;
		return;
	}
	if (thrown || rc != 1) fail("the inertial files of a good configuration are not written");
	c.label(s.Dl_order ? "friction" : "no friction");
	for (int reg = 0; reg < 2; reg++) {
		YAML::Node y = YAML::LoadFile(reg ? fr : fd);
		std::string what = reg ? "REG file: " : "DYN file: ";
		Strs nm = linkNames(y["dynamics"]);
		if ((int)nm.size() != s.n) fail(what + std::to_string(nm.size()) + " links instead of " + std::to_string(s.n));
		for (int i = 0; i < s.n; i++) {
			const Link& l = s.links[i];
			if (nm[i] != l.name) fail(what + "link " + std::to_string(i + 1) + " is " + nm[i] + " instead of " + l.name);
			YAML::Node in = y["dynamics"][l.name]["inertial"];
			Vec got, want = reg ? toReg(l.p) : Vec(l.p, l.p + 10), d(l.p, l.p + 10);
			for (int q = 0; q < 10; q++) { auto key = reg ? regKeys[q] : dynKeys[q]; if (!in[key].IsDefined()) fail(what + l.name + " has no " + key); got.push_back(in[key].as<double>()); }
			double mag = amax(d);
			same(c, what + l.name, col(got), col(want), reg ? 1e-12 * (mag + std::fabs(l.p[0]) * (1 + 4 * (l.p[1] * l.p[1] + l.p[2] * l.p[2] + l.p[3] * l.p[3]) + std::fabs(l.p[1]) + std::fabs(l.p[2]) + std::fabs(l.p[3]))) : 0);
			if (s.Dl_order) {
				Vec fr = y["dynamics"][l.name]["friction"]["Dl"].as<Vec>(), wf = l.hasFric ? l.Dl : Vec(s.Dl_order, 0.0);
				if ((int)fr.size() < s.Dl_order) fail(what + l.name + " has " + std::to_string(fr.size()) + " friction coefficients");
				fr.resize(s.Dl_order); wf.resize(s.Dl_order);
				same(c, what + l.name + " friction", col(fr), col(wf), 0);
			}
		}
	}
	// the files describe the same bodies as the configuration
	std::string vf = c.scratch + "/ref.yaml", of = c.scratch + "/other.yaml";
	bool whole = true;
	for (auto& l : s.links) if (s.Dl_order && !l.hasFric) whole = false;              // robots need the friction of every link
	if (whole) {
		Spec other = newValues(t, s);
		writeFile(vf, text); writeFile(of, toYaml(other));
		Robot a = thunder_ns::robot_from_file("robo", vf, false), b = thunder_ns::robot_from_file("robo", of, false), d = thunder_ns::robot_from_file("robo", of, false);
		if (b.load_conf_par(fd) != 1) fail("load_conf_par refuses the DYN file");
		same(c, "par_DYN from the DYN file", b.get_par_DYN(), a.get_par_DYN(), 0);
		same(c, "par_REG from the DYN file", b.get_par_REG(), a.get_par_REG(), 0);
		d.load_par_REG(fr);
		Mat g = d.get_par_REG(), w = a.get_par_REG();
		for (int i = 0; i < s.n; i++) {
			const double* p = s.links[i].p;
			double m = std::fabs(p[0]), r2 = p[1] * p[1] + p[2] * p[2] + p[3] * p[3];
			double tol = 1e-12 * (m * (1 + 4 * r2) + amax(Vec(p, p + 10)));
			same(c, "par_REG of " + s.links[i].name + " from the REG file", g.block(10 * i, 0, 10, 1), w.block(10 * i, 0, 10, 1), tol + 1e-12 * m * std::sqrt(r2));
		}
		if (s.Dl_order) {
			same(c, "par_Dl from the DYN file", b.get_arg("par_Dl"), a.get_arg("par_Dl"), 0);
			same(c, "par_Dl from the REG file", d.get_arg("par_Dl"), a.get_arg("par_Dl"), 0);
		}
	}
	int heavy = 0;
	for (int i = 0; i < s.n; i++) { const double* p = s.links[i].p; if (p[0] != 0 && (p[1] != 0 || p[2] != 0 || p[3] != 0)) heavy++; }
	if (heavy >= 2) c.nontrivial = true;
}
