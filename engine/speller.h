// Other spellings of the same robot description.
#pragma once
#include "kit.h"
using namespace ref;
struct Speller {
	Tape& t;
	int nl = 0;
	std::vector<std::pair<double, std::string>> anchors;          // values that may be written as *name
	std::string numStr(double x) {
		char b[80];
		for (auto& a : anchors) if (a.first == x && !(x == 0 && std::signbit(x) != std::signbit(a.first)) && t.flip(2, 3)) return "*" + a.second;
		switch (t.draw(5)) {
			case 0: return num(x);
			case 1: snprintf(b, sizeof b, "%.17e", x); return b;
			case 2: snprintf(b, sizeof b, "%+.17g", x); return b;
			case 3: if (x == (long)x && std::fabs(x) < 1e6) { snprintf(b, sizeof b, "%ld%s", (long)x, t.flip() ? "." : ".000"); if (x == 0) snprintf(b, sizeof b, "0.0"); return b; } return num(x);
			default: { std::string q = num(x); char d = t.flip() ? '"' : '\''; return std::string(1, d) + q + d; }
		}
	}
	std::string seq(const std::vector<std::string>& v, const std::string& ind) {
		if (v.empty()) return " []\n";
		int k = t.draw(4);
		std::string r;
		if (k == 0) { r = " ["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i]; return r + "]\n"; }
		if (k == 1) { r = " [ "; for (size_t i = 0; i < v.size(); i++) r += (i ? " , " : "") + v[i]; return r + " ]   # comment\n"; }
		if (k == 2) { r = " ["; for (size_t i = 0; i < v.size(); i++) r += (i ? ",\n" + ind + "    " : "\n" + ind + "    ") + v[i]; return r + "]\n"; }
		r = "\n"; for (auto& x : v) r += ind + "  - " + x + "\n"; return r;
	}
	std::string nums(const Vec& v, const std::string& ind) { std::vector<std::string> s; for (double x : v) s.push_back(numStr(x)); return seq(s, ind); }
	std::string ints(const IVec& v, const std::string& ind) { std::vector<std::string> s; for (int x : v) s.push_back(std::to_string(x)); return seq(s, ind); }
	// keys of one mapping in random order
	std::string map(std::vector<std::string> parts) {
		for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[i - 1 - t.draw(i)]);
		std::string r; for (auto& p : parts) r += p + (t.flip(1, 10) ? "\n# note: [ignored\n" : "");
		return r;
	}
	std::string name(const char* what, int i) {
		switch (t.draw(5)) { case 0: return std::string(what) + std::to_string(i + 1); case 1: return "zz" + std::to_string(50 - i); case 2: return "\"the " + std::to_string(i * 7 % 10) + " " + what + std::to_string(i) + "\""; case 3: return std::to_string(9 - i) + std::string(i / 9, '0') + "_" + std::to_string(i); default: return std::string(1, "gfedcbazyx"[i % 10]) + std::to_string(i); }
	}
	std::string key(const std::string& k) { switch (t.draw(6)) { case 0: return "\"" + k + "\":"; case 1: return k + " :"; default: return k + ":"; } }
	// flex: flags left out at the end are 0, those in excess are ignored
	std::string flagsField(const std::string& k, const OptFlags& f, int n, const std::string& ind, bool flex = false) {
		OptFlags g = f;
		if (g.present && !anyFlag(g.f) && t.flip()) g.present = false;            // absent means numeric
		else if (!g.present && t.flip()) { g.present = true; g.f.assign(n, 0); }
		if (flex && g.present && t.flip(1, 4)) {
			if (t.flip()) while (g.f.size() && !g.f.back() && t.flip(3, 4)) g.f.pop_back();
			else for (int i = t.range(1, 3); i; i--) g.f.push_back(1);
		}
		return g.present ? ind + key(k) + ints(g.f, ind) : "";
	}
	std::string spell(Spec s) {
		static const char* keys[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
		std::vector<std::string> top;
		std::string consts;
		if (t.flip(1, 4)) {
			Vec all = s.dh;
			for (auto f : {&s.base, &s.tool}) all.insert(all.end(), f->v, f->v + 6);
			for (int i = 0; i < s.n; i++) all.insert(all.end(), s.links[i].p, s.links[i].p + 10);
			static const char* an[] = {"PI", "PI_2", "a-b", "x1"};
			consts = t.flip() ? "constants:\n" : "# constants\n";
			bool nested = consts[0] == 'c';
			std::vector<std::pair<double, std::string>> as;
			for (int k = 0, n = t.range(1, 4); k < n; k++) {
				double x = all[t.draw(all.size())];
				consts += std::string(nested ? "  " : "") + "c" + std::to_string(k) + ": &" + an[k] + " " + numStr(x) + "\n";
				as.push_back({x, an[k]});
			}
			anchors = as;
		}
		top.push_back(key("num_joints") + " " + std::to_string(s.n) + "\n");
		top.push_back(key("type_joints") + seq(s.type, ""));
		if (s.Dl_order || t.flip()) top.push_back(key("Dl_order") + " " + std::to_string(s.Dl_order) + "\n");
		const char* yes[] = {"true", "True", "TRUE", "yes", "on", "y"}; const char* no[] = {"false", "False", "no", "off", "n"};
		if (s.elastic) top.push_back(key("ELASTIC_MODEL") + " " + yes[t.draw(6)] + "\n");
		else if (t.flip()) top.push_back(key("ELASTIC_MODEL") + " " + no[t.draw(5)] + "\n");
		top.push_back("kinematics:\n" + map({"  " + key("DH") + nums(s.dh, "  "), flagsField("symb", s.dhs, 4 * s.n, "  ")}));
		bool zeroG = !s.g[0] && !s.g[1] && !s.g[2] && !(s.gs.present && anyFlag(s.gs.f));
		bool writeG = s.hasG ? !(zeroG && t.flip()) : t.flip();
		if (writeG) top.push_back("gravity:\n" + map({"  " + key("value") + nums(Vec(s.g, s.g + 3), "  "), flagsField("symb", s.hasG ? s.gs : OptFlags(), 3, "  ")}));
		for (int k = 0; k < 2; k++) {
			Frame& f = k ? s.tool : s.base;
			top.push_back(std::string(k ? "Ln_to_EE" : "Base_to_L0") + ":\n" + map({"  " + key("tr") + nums(Vec(f.v, f.v + 3), "  "), "  " + key("ypr") + nums(Vec(f.v + 3, f.v + 6), "  "), flagsField("symb", f.symb, 6, "  ")}));
		}
		// links: in order, the trailing massless and frictionless ones may be left out, others may follow
		std::vector<Link> ls(s.links.begin(), s.links.begin() + s.n);
		auto blank = [&](const Link& l) { for (double x : l.p) if (x) return false; if (l.symb.present && anyFlag(l.symb.f)) return false; if (l.fsymb.present && anyFlag(l.fsymb.f)) return false; for (int i = 0; i < s.Dl_order; i++) if (l.Dl[i]) return false; return true; };
		while (ls.size() > 1 && blank(ls.back()) && t.flip()) ls.pop_back();
		if ((int)ls.size() == s.n && t.flip(1, 4)) { Link x = ls[t.draw(ls.size())]; x.p[0] += 1; ls.push_back(x); nl++; }
		std::string d = "dynamics:\n";
		for (size_t i = 0; i < ls.size(); i++) {
			Link& l = ls[i];
			std::vector<std::string> in;
			for (int k = 0; k < 10; k++) in.push_back("      " + key(keys[k]) + " " + numStr(l.p[k]) + "\n");
			in.push_back(flagsField("symb", l.symb, 10, "      "));
			std::vector<std::string> parts = {"    inertial:\n" + map(in)};
			bool zero = true; for (int k = 0; k < s.Dl_order; k++) if (l.Dl[k]) zero = false;
			bool fs = l.fsymb.present && anyFlag(l.fsymb.f);
			bool write = s.Dl_order ? !(zero && !fs && t.flip()) : t.flip(1, 4);
			if (write) { Vec dl = l.Dl; if (t.flip(1, 4)) dl.push_back(3); if (dl.empty()) dl = {1}; parts.push_back("    friction:\n" + map({"      " + key("Dl") + nums(dl, "      "), s.Dl_order ? flagsField("symb", l.fsymb, s.Dl_order, "      ", true) : ""})); }
			if (t.flip(1, 6)) parts.push_back("    mesh: model" + std::to_string(i) + ".stl\n");
			d += "  " + name("link", i) + ":\n" + map(parts);
		}
		top.push_back(d);
		if (s.elastic) {
			std::vector<EJoint> es = s.ej;
			int ne = s.nSEA();
			es.resize(ne);
			if (t.flip(1, 4)) { EJoint x = es[t.draw(ne)]; x.Mm += 1; es.push_back(x); }
			std::string j = "  joints:\n";
			for (size_t i = 0; i < es.size(); i++) {
				EJoint& e = es[i];
				std::vector<std::string> in = {"      " + key("Mm") + " " + numStr(e.Mm) + "\n"};
				auto add = [&](const char* k, const char* sk, const Vec& v, const OptFlags& f) { if (v.empty()) return; Vec w = v; if (t.flip(1, 5)) w.push_back(9); in.push_back("      " + key(k) + nums(w, "      ")); in.push_back(flagsField(sk, f, v.size(), "      ", true)); };
				add("K", "K_symb", e.K, e.Ks); add("D", "D_symb", e.D, e.Ds); add("Dm", "Dm_symb", e.Dm, e.Dms);
				if (e.hasMms ? !(e.Mms == 0 && t.flip()) : t.flip()) in.push_back("      " + key("Mm_symb") + " " + std::to_string(e.hasMms ? e.Mms : 0) + "\n");
				j += "    " + name("joint", i) + ":\n" + map(in);
			}
			top.push_back("elastic:\n" + map({"  " + key("K_order") + " " + std::to_string(s.K_order) + "\n", "  " + key("D_order") + " " + std::to_string(s.D_order) + "\n", "  " + key("Dm_order") + " " + std::to_string(s.Dm_order) + "\n", j}));
		} else if (t.flip(1, 4)) top.push_back("elastic:\n  K_order: 2\n  D_order: 1\n  Dm_order: 1\n  joints:\n    j1:\n      K: [1, 2]\n      D: [3]\n      Dm: [4]\n      Mm: 5\n      K_symb: [1,1]\n");   // ignored for a rigid model
		if (t.flip(1, 4)) top.push_back("extra:\n  anything: [1, 2, x]\n");
		if (t.flip(1, 6)) top.push_back("description: \"num_joints: 99\"\n");
		std::string r = t.flip(1, 8) ? "%YAML 1.2\n---\n" : t.flip(1, 6) ? "---\n" : "";
		r += consts + map(top);
		if (t.flip(1, 8)) r += "...\n";
		return r;
	}
};
