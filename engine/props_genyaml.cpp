// C27: the converter of Franka inertial parameters, run as a program.
#include "genkit.h"

static Eigen::Matrix3d rot(const double* rpy) { using A = Eigen::AngleAxisd; using V = Eigen::Vector3d; return (A(rpy[2], V::UnitZ()) * A(rpy[1], V::UnitY()) * A(rpy[0], V::UnitX())).toRotationMatrix(); }
struct Body { std::string name; double m, I[6], xyz[3], rpy[3]; };
// DH table given in the header of the program and of its output: a, alpha, d
static const double DH[7][3] = {{0, -M_PI_2, 0}, {0, M_PI_2, 0}, {0.0825, M_PI_2, 0}, {-0.0825, -M_PI_2, 0}, {0, M_PI_2, 0}, {0.088, M_PI_2, 0}, {0, 0, 0.107}};
// mass, centre of mass and barycentric inertia in the DH frame of the link
static Vec inDH(const Body& b, int link) {
	Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
	T.translate(Eigen::Vector3d(DH[link][0], 0, DH[link][2]));
	T.rotate(Eigen::AngleAxisd(DH[link][1], Eigen::Vector3d::UnitX()));
	T = T.inverse();
	Eigen::Vector3d c = T * Eigen::Vector3d(b.xyz[0], b.xyz[1], b.xyz[2]);
	Eigen::Matrix3d I;
	I << b.I[0], b.I[1], b.I[2], b.I[1], b.I[3], b.I[4], b.I[2], b.I[4], b.I[5];
	Eigen::Matrix3d R = T.linear() * rot(b.rpy), J = R * I * R.transpose();
	return {b.m, c(0), c(1), c(2), J(0, 0), J(0, 1), J(0, 2), J(1, 1), J(1, 2), J(2, 2)};
}
static Vec toRegOne(const Vec& p) {
	double k = p[0], x = p[1], y = p[2], z = p[3];
	return {k, k * x, k * y, k * z, p[4] + k * (y * y + z * z), p[5] - k * x * y, p[6] - k * x * z, p[7] + k * (x * x + z * z), p[8] - k * y * z, p[9] + k * (x * x + y * y)};
}
static Vec toDynOne(const Vec& r) {
	double k = r[0], x = r[1] / k, y = r[2] / k, z = r[3] / k;
	return {k, x, y, z, r[4] - k * (y * y + z * z), r[5] + k * x * y, r[6] + k * x * z, r[7] - k * (x * x + z * z), r[8] + k * y * z, r[9] - k * (x * x + y * y)};
}
static Eigen::MatrixXd table(const std::string& file, bool reg, const std::vector<Body>& b) {
	static const char* kd[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	static const char* kr[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	YAML::Node y;
	try { y = YAML::LoadFile(file); } catch (const std::exception& e) { fail(fs::path(file).filename().string() + " cannot be read: " + e.what(), "file"); }
	Eigen::MatrixXd t(7, 10);
	if (!y.IsMap() || y.size() != 7) fail(fs::path(file).filename().string() + " does not hold seven links", "file");
	int i = 0;
	for (const auto& l : y) {
		if (l.first.as<std::string>() != b[i + 1].name) fail(fs::path(file).filename().string() + ": link " + std::to_string(i + 1) + " is called " + l.first.as<std::string>(), "file");
		for (int k = 0; k < 10; k++) { auto n = l.second[reg ? kr[k] : kd[k]]; if (!n) fail(fs::path(file).filename().string() + " has no " + (reg ? kr[k] : kd[k]), "file"); t(i, k) = n.as<double>(); }
		i++;
	}
	return t;
}
static std::string fmt(Tape& t, double x) { char b[64]; int k = t.draw(3); snprintf(b, sizeof b, k == 0 ? "%.17g" : k == 1 ? "%.12e" : "%.9f", x); return b; }

PROPERTY(C27, "random inertial files (7 links, base, further bodies; any masses, poses with rotations, inertias, number formats, key orders) converted by the program built from the tree; nominal files against an independent rigid-body computation from the documented DH table, several runs per file; recovered relative errors of the perturbed files pooled over runs, entries and links: range, mean, standard deviation per file and per entry, repetition within a link, between links and between files; files that lack a link or an entry are refused. Non-trivial: at least two links with rotated inertial frames and all ten entries non-zero") {
	std::vector<Body> b;
	int extra = c.t.draw(4);
	bool general = c.t.flip(3, 4);                // every entry well away from zero
	for (int i = 0; i < 8 + extra; i++) {
		Body x;
		x.name = c.t.flip(1, 4) ? "body_" + std::string(1, 'a' + i) : "link" + std::to_string(i);
		x.m = c.t.flip(1, 20) && !general ? 0.0 : 0.1 + c.t.pos_real(5);
		for (int k = 0; k < 3; k++) { x.xyz[k] = general ? (c.t.flip() ? -1 : 1) * (0.02 + c.t.pos_real(0.3)) : c.t.real(0.3); x.rpy[k] = c.t.flip(1, 3) ? 0 : c.t.angle(); }
		for (int k = 0; k < 6; k++) { bool d = k == 0 || k == 3 || k == 5; x.I[k] = general ? (d ? 0.3 + c.t.pos_real(1) : (c.t.flip() ? -1 : 1) * (0.02 + c.t.pos_real(0.1))) : c.t.real(0.5); }
		b.push_back(x);
	}
	// a file, possibly incomplete
	int lack = c.t.flip(1, 8) ? 1 + (int)c.t.draw(3) : 0, where = c.t.draw(8);
	static const char* ik[6] = {"xx", "xy", "xz", "yy", "yz", "zz"};
	std::string y = c.t.flip() ? "# inertial parameters\n" : "";
	std::vector<Body> rd;
	for (size_t i = 0; i < b.size(); i++) {
		Body& x = b[i];
		if (lack == 1 && (int)i == where && b.size() == 8) continue;
		bool drop = lack == 2 && (int)i == where;
		int gone = drop ? (int)c.t.draw(5) : -1;
		auto rnd = [&](double& v) { std::string s = fmt(c.t, v); v = strtod(s.c_str(), nullptr); return s; };
		std::string o = "  origin:\n";
		auto triple = [&](const char* k, double* v) { std::string s = "    " + std::string(k) + ": "; for (int j = 0; j < 3; j++) s += (j ? (c.t.flip(1, 5) ? "  " : " ") : "") + rnd(v[j]); return s + "\n"; };
		std::string a1 = triple("xyz", x.xyz), a2 = triple("rpy", x.rpy);
		if (gone == 0) a1 = ""; 
		if (gone == 1) a2 = "";
		o += c.t.flip() ? a1 + a2 : a2 + a1;
		std::string m = "  mass: " + rnd(x.m) + "\n", in = "  inertia:\n";
		if (gone == 2) m = "";
		int perm = c.t.draw(6);
		for (int k = 0; k < 6; k++) { int j = (k + perm) % 6; std::string s = std::string("    ") + ik[j] + ": " + rnd(x.I[j]) + "\n"; if (!(gone == 3 && j == 4)) in += s; }
		if (gone == 4) in = "";
		int ord = c.t.draw(3);
		y += x.name + ":\n" + (ord == 0 ? o + m + in : ord == 1 ? m + in + o : in + o + m) + (c.t.flip() ? "\n" : "");
	}
	bool refused = lack == 2 || (lack == 1 && b.size() == 8);
	bool none = lack == 3;
	c.desc += y;
	std::string root = c.scratch + "/gy";
	fs::remove_all(root);
	fs::create_directories(root + "/run/yaml");
	fs::create_directories(root + "/generatedFiles");
	if (!none) writeFile(root + "/run/yaml/inertial.yaml", y);
	writeFile(root + "/generatedFiles/other.txt", "bystander");
	static const Strs outs = {"inertial_DH.yaml", "inertial_DH_DYN.yaml", "inertial_DH_REG.yaml", "inertial_DH_REG_p2.yaml", "inertial_DH_REG_p5.yaml", "inertial_DH_REG_p10.yaml", "inertial_DH_REG_p20.yaml"};
	const int pc[4] = {2, 5, 10, 20};
	int runs = refused || none ? 1 : 2 + c.t.draw(30);
	std::vector<double> z[4], zk[4][10];
	int equal = 0;
	Eigen::MatrixXd want(7, 10), wantR(7, 10);
	double scale = 1;
	for (int i = 0; i < 7; i++) {
		Vec d = inDH(b[i + 1], i), r = toRegOne(d);
		for (int k = 0; k < 10; k++) { want(i, k) = d[k]; wantR(i, k) = r[k]; scale = std::max(scale, std::max(std::fabs(d[k]), std::fabs(r[k]))); }
	}
	for (int r = 0; r < runs; r++) {
		std::vector<Vec> errs;                   // one row of normalised errors per perturbed link of this run
		int rc = runCmd({env("PBT_GENYAML")}, root + "/run", c.scratch + "/gy.out", 60);
		if (rc == -1000) throw Discard();
		if (rc < 0) fail("the converter ends with signal " + std::to_string(-rc) + "\n" + tail(c.scratch + "/gy.out"), "crash");
		std::set<std::string> have;
		for (auto& e : fs::directory_iterator(root + "/generatedFiles")) have.insert(e.path().filename().string());
		have.erase("other.txt");
		if (refused || none) {
			c.checks++;
			if (rc == 0) fail(none ? "a missing input file is not refused" : "an incomplete input file is not refused", "refuse");
			if (!have.empty()) fail("a refused input still gives " + *have.begin(), "refuse");
			c.label("refused");
			continue;
		}
		if (rc) fail("the converter refuses a complete input file\n" + tail(c.scratch + "/gy.out"), "refuse");
		for (auto& f : outs) { c.checks++; if (!have.count(f)) fail("the converter does not write " + f, "file"); }
		if (have.size() != outs.size()) fail("the converter writes further files", "file");
		if (readFile(root + "/generatedFiles/other.txt") != "bystander" || readFile(root + "/run/yaml/inertial.yaml") != y) fail("the converter changes other files", "file");
		for (auto f : {"inertial_DH.yaml", "inertial_DH_DYN.yaml"}) same(c, f, table(root + "/generatedFiles/" + f, false, b), want, 1e-11 * scale);
		same(c, "inertial_DH_REG.yaml", table(root + "/generatedFiles/inertial_DH_REG.yaml", true, b), wantR, 1e-11 * scale);
		if (!general) continue;
		for (int p = 0; p < 4; p++) {
			Eigen::MatrixXd t = table(root + "/generatedFiles/" + outs[3 + p], true, b);
			for (int i = 0; i < 7; i++) {
				Vec row;
				for (int k = 0; k < 10; k++) row.push_back(t(i, k));
				Vec d = toDynOne(row), e(10, NAN);
				for (int k = 0; k < 10; k++) {
					c.checks++;
					if (std::fabs(want(i, k)) < 1e-3) continue;       // too small to be recovered
					e[k] = (d[k] / want(i, k) - 1) * 100 / pc[p];
					if (!(std::fabs(e[k]) < 7.5)) fail(outs[3 + p] + ": entry " + std::to_string(k) + " of link " + std::to_string(i + 1) + " is " + num(d[k]) + ", " + num(e[k]) + " standard deviations from the nominal " + num(want(i, k)), "perturb");
					z[p].push_back(e[k]); zk[p][k].push_back(e[k]);
				}
				for (int k = 0; k < 10; k++) for (int j = 0; j < k; j++) if (std::fabs(e[k] - e[j]) < 1e-9) equal++;
				errs.push_back(e);
			}
		}
		int twins = 0;
		for (size_t i = 0; i < errs.size(); i++) for (size_t j = 0; j < i; j++) {
			int n = 0;
			for (int k = 0; k < 10; k++) if (std::fabs(errs[i][k] - errs[j][k]) < 1e-8) n++;
			twins += n >= 2;
			c.checks++;
		}
		if (twins) fail("the perturbations of different links or files are the same", "perturb");
	}
	if (equal >= 4) fail("entries of perturbed links deviate by the same relative error", "perturb");
	// pooled statistics: sample mean and standard deviation of the normalised errors, both within 6.5 of their own standard errors
	auto stat = [&](const std::string& w, const std::vector<double>& v) {
		double n = v.size();
		if (n < 14) return;
		double s = 0, q = 0;
		for (double x : v) s += x;
		for (double x : v) q += x * x;
		c.checks += 2;
		if (std::fabs(s / n) > 6.5 / std::sqrt(n)) fail(w + ": mean relative error is " + num(s / n) + " of the stated standard deviation over " + std::to_string((int)n) + " entries", "perturb");
		double a = 2.0 / (9 * n), hi = std::pow(1 - a + 6.5 * std::sqrt(a), 3), lo = std::pow(std::max(0.0, 1 - a - 6.5 * std::sqrt(a)), 3);   // Wilson-Hilferty bounds of q/n
		if (q / n > hi || q / n < lo) fail(w + ": standard deviation of the relative error is " + num(std::sqrt(q / n)) + " of the stated one over " + std::to_string((int)n) + " entries", "perturb");
	};
	for (int p = 0; p < 4; p++) {
		stat(outs[3 + p], z[p]);
		for (int k = 0; k < 10; k++) stat(outs[3 + p] + " entry " + std::to_string(k), zk[p][k]);
	}
	int rotated = 0;
	for (int i = 1; i < 8; i++) rotated += b[i].rpy[0] != 0 || b[i].rpy[1] != 0 || b[i].rpy[2] != 0;
	if (rotated >= 2 && general && !refused && !none) c.nontrivial = true;
	c.label(general ? "general bodies" : "special bodies");
}
