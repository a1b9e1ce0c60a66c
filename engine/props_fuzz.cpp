// C18: configurations that are not valid.
#include "kit.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

// every allocation is filled with a chosen byte, so that reading uninitialised memory shows up as a difference between two runs
static unsigned char g_fill = 0x5a;
static void* filled(std::size_t n) { void* p = std::malloc(n ? n : 1); if (p) std::memset(p, g_fill, n); return p; }
void* operator new(std::size_t n) { void* p = filled(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
// why this text cannot be a robot: "" when nothing definite is wrong
static std::string invalid(const std::string& text) {
	YAML::Node y;
	auto need = [](bool ok, const std::string& w) { if (!ok) throw Bad(w); };
	auto reals = [&](const YAML::Node& n, const std::string& w) { need(n.IsDefined(), w + " is missing"); try { return n.as<std::vector<double>>(); } catch (const YAML::Exception&) { throw Bad(w + " is not a list of numbers"); } };
	auto ints = [&](const YAML::Node& n, const std::string& w) { try { return n.as<std::vector<int>>(); } catch (const YAML::Exception&) { throw Bad(w + " is not a list of integers"); } };
	auto integer = [&](const YAML::Node& n, const std::string& w) { need(n.IsDefined(), w + " is missing"); try { return n.as<int>(); } catch (const YAML::Exception&) { throw Bad(w + " is not an integer"); } };
	auto real = [&](const YAML::Node& n, const std::string& w) { need(n.IsDefined(), w + " is missing"); try { return n.as<double>(); } catch (const YAML::Exception&) { throw Bad(w + " is not a number"); } };
	try {
		try { y = YAML::Load(text); } catch (const YAML::Exception&) { throw Bad("not YAML"); }
		const YAML::Node c = y;
		need(c.IsMap(), "no mapping");
		int n = integer(c["num_joints"], "num_joints");
		need(n >= 1, "num_joints is not positive");
		std::vector<std::string> t;
		try { t = c["type_joints"].as<std::vector<std::string>>(); } catch (const YAML::Exception&) { throw Bad("type_joints is not a list"); }
		need((int)t.size() == n, "type_joints has the wrong length");
		int ne = 0;
		for (auto& x : t) { need(x == "R" || x == "P" || x == "R_SEA" || x == "P_SEA", "unknown joint type"); ne += x.size() > 1; }
		auto sub = [](const YAML::Node& n, const char* k) -> const YAML::Node { return n.IsMap() ? n[k] : YAML::Node(YAML::NodeType::Undefined); };
		const YAML::Node kin = c["kinematics"];
		need(kin.IsDefined() && kin.IsMap(), "kinematics is missing");
		need((int)reals(sub(kin, "DH"), "DH").size() == 4 * n, "DH has the wrong length");
		if (kin["symb"].IsDefined()) need((int)ints(kin["symb"], "kinematics symb").size() == 4 * n, "kinematics symb has the wrong length");
		for (auto f : {"Base_to_L0", "Ln_to_EE"}) {
			const YAML::Node fr = c[f];
			need(fr.IsDefined() && fr.IsMap(), std::string(f) + " is missing");
			need(reals(fr["tr"], std::string(f) + " tr").size() == 3, std::string(f) + " tr has the wrong length");
			need(reals(fr["ypr"], std::string(f) + " ypr").size() == 3, std::string(f) + " ypr has the wrong length");
			if (fr["symb"].IsDefined()) need(ints(fr["symb"], std::string(f) + " symb").size() == 6, std::string(f) + " symb has the wrong length");
		}
		const YAML::Node g = c["gravity"];
		if (g.IsDefined()) {
			need(g.IsMap(), "gravity has no value");
			need(reals(g["value"], "gravity value").size() == 3, "gravity has the wrong length");
			if (g["symb"].IsDefined()) need(ints(g["symb"], "gravity symb").size() == 3, "gravity symb has the wrong length");
		}
		int dl = c["Dl_order"].IsDefined() ? integer(c["Dl_order"], "Dl_order") : 0;
		need(dl >= 0, "negative friction order");
		bool el = false;
		if (c["ELASTIC_MODEL"].IsDefined()) { try { el = c["ELASTIC_MODEL"].as<bool>(); } catch (const YAML::Exception&) { throw Bad("ELASTIC_MODEL is not a boolean"); } }
		const YAML::Node dyn = c["dynamics"];
		if (dyn.IsDefined() && dyn.IsMap()) {
			int i = 0;
			for (const auto& l : dyn) {
				if (i++ == n) break;
				need(l.second.IsMap() && l.second["inertial"].IsDefined() && l.second["inertial"].IsMap(), "a link has no inertial data");
				const YAML::Node in = l.second["inertial"];
				for (auto k : {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"}) real(in[k], k);
				if (in["symb"].IsDefined()) need(ints(in["symb"], "inertial symb").size() == 10, "inertial symb has the wrong length");
				const YAML::Node fr = l.second["friction"];
				if (dl > 0 && fr.IsDefined() && fr.IsMap()) {
					need((int)reals(fr["Dl"], "Dl").size() >= dl, "not enough friction coefficients");
					if (fr["symb"].IsDefined()) ints(fr["symb"], "friction symb");
				}
			}
		}
		if (el) {
			const YAML::Node e = c["elastic"];
			need(e.IsDefined() && e.IsMap(), "elastic section is missing");
			int ko = integer(e["K_order"], "K_order"), d = integer(e["D_order"], "D_order"), dm = integer(e["Dm_order"], "Dm_order");
			need(ko >= 0 && d >= 0 && dm >= 0, "negative elastic order");
			const YAML::Node js = e["joints"];
			int i = 0;
			if (js.IsDefined() && js.IsMap()) for (const auto& j : js) {
				if (i++ == ne) break;
				need(j.second.IsMap(), "an elastic joint has no data");
				if (ko) need((int)reals(j.second["K"], "K").size() >= ko, "not enough stiffness coefficients");
				if (d) need((int)reals(j.second["D"], "D").size() >= d, "not enough damping coefficients");
				if (dm) need((int)reals(j.second["Dm"], "Dm").size() >= dm, "not enough motor friction coefficients");
				real(j.second["Mm"], "Mm");
			}
		}
	} catch (const Bad& b) { return b.what(); }
	catch (const YAML::Exception& e) { return ""; }
	return "";
}

// ---- mutations of the document tree
struct Tree { int kind = 0; std::string text; std::vector<std::pair<std::string, Tree>> kids; };   // 0 scalar, 1 sequence, 2 map
static Tree fromNode(const YAML::Node& n) {
	Tree t;
	if (n.IsSequence()) { t.kind = 1; for (const auto& x : n) t.kids.push_back({"", fromNode(x)}); }
	else if (n.IsMap()) { t.kind = 2; for (const auto& x : n) t.kids.push_back({x.first.as<std::string>(), fromNode(x.second)}); }
	else t.text = n.as<std::string>();
	return t;
}
static std::string emit(const Tree& t) {
	if (t.kind == 0) return t.text;
	std::string r = t.kind == 1 ? "[" : "{";
	for (size_t i = 0; i < t.kids.size(); i++) r += (i ? ", " : "") + (t.kind == 2 ? t.kids[i].first + ": " : std::string()) + emit(t.kids[i].second);
	return r + (t.kind == 1 ? "]" : "}");
}
static std::string emitTop(const Tree& t) {                    // block style for the two outer levels: readable, same content
	std::string r;
	for (auto& k : t.kids) {
		if (k.second.kind == 2 && !k.second.kids.empty()) { r += k.first + ":\n"; for (auto& q : k.second.kids) r += "  " + q.first + ": " + emit(q.second) + "\n"; }
		else r += k.first + ": " + emit(k.second) + "\n";
	}
	return r;
}
static void collect(Tree& t, std::vector<Tree*>& v) { v.push_back(&t); for (auto& k : t.kids) collect(k.second, v); }
static std::string junk(Tape& t) {
	static const char* j[] = {"~", "\"\"", "abc", "[]", "{}", "true", "nan", ".nan", ".inf", "-.inf", "1e309", "0x10", "1.5", "-1", "0", "1", "2", "3", "[1, 2, 3]", "[[1], [2]]", "{a: 1}", "\"1\"", "1 2", "R", "R_SEA", "P", "Q_SEA", "99999999999999999999", "\"\\u0000\"", "-0.0", "5e-324", "'[0,0,0]'"};
	return j[t.draw(sizeof j / sizeof *j)];
}
static bool mutate(Tape& t, Tree& root, std::string& what) {
	std::vector<Tree*> all;
	collect(root, all);
	Tree& n = *all[t.draw(all.size())];
	switch (t.draw(10)) {
		case 0: case 1: { if (n.kids.empty()) return false; size_t i = t.draw(n.kids.size()); what += "delete " + n.kids[i].first + "#" + std::to_string(i) + "; "; n.kids.erase(n.kids.begin() + i); return true; }
		case 2: { if (n.kids.empty()) return false; size_t i = t.draw(n.kids.size()); auto k = n.kids[i]; if (n.kind == 2 && t.flip()) k.first += "_copy"; what += "duplicate " + k.first + "; "; n.kids.insert(n.kids.begin() + i, k); return true; }
		case 3: case 4: { std::string j = junk(t); what += "replace by " + j + "; "; n = Tree(); n.text = j; return true; }
		case 5: { if (n.kind != 1) return false; int k = t.range(0, 12); Tree z; z.text = "0"; if (!n.kids.empty()) z = n.kids[0].second; std::vector<std::pair<std::string, Tree>> kk; for (int i = 0; i < k; i++) kk.push_back(i < (int)n.kids.size() ? n.kids[i] : std::make_pair(std::string(), z)); n.kids = kk; what += "resize to " + std::to_string(k) + "; "; return true; }
		case 6: { Tree& m = *all[t.draw(all.size())]; Tree a = n, b = m; if (&n == &root || &m == &root) return false; what += "copy " + emit(b).substr(0, 30) + "; "; n = b; (void)a; return true; }
		case 7: { if (n.kind != 0) return false; int k = t.range(-3, 6); what += n.text + " -> " + std::to_string(k) + "; "; n.text = std::to_string(k); return true; }
		case 8: { if (n.kids.size() < 2) return false; size_t i = t.draw(n.kids.size()), j = t.draw(n.kids.size()); std::swap(n.kids[i], n.kids[j]); what += "swap; "; return true; }
		default: { if (n.kind != 2 || n.kids.empty()) return false; size_t i = t.draw(n.kids.size()); static const char* ks[] = {"symb", "inertial", "friction", "DH", "K", "Mm", "joints", "tr", "", "x"}; std::string k = ks[t.draw(10)]; what += "rename " + n.kids[i].first + " to " + k + "; "; n.kids[i].first = k.empty() ? "\"\"" : k; return true; }
	}
}
// one field, each kind of field as likely as any other: gone, of another type, or of another length
static void classes(Tree& t, const std::string& path, std::map<std::string, std::vector<std::pair<Tree*, size_t>>>& out, int depth = 0) {
	for (size_t i = 0; i < t.kids.size(); i++) {
		bool named = t.kind == 2 && !(path == "/dynamics" || path == "/elastic/joints");
		std::string p = path + "/" + (named ? t.kids[i].first : "*");
		out[p].push_back({&t, i});
		classes(t.kids[i].second, p, out, depth + 1);
	}
}
static void target(Tape& t, Tree& root, std::string& what) {
	std::map<std::string, std::vector<std::pair<Tree*, size_t>>> cl;
	classes(root, "", cl);
	auto it = std::next(cl.begin(), t.draw(cl.size()));
	auto& at = it->second[t.draw(it->second.size())];
	Tree& n = at.first->kids[at.second].second;
	what += it->first + ": ";
	int op = t.draw(8);
	if (n.kind != 0 && op >= 6) {                                 // one entry more or less
		bool more = op == 7 && !n.kids.empty();
		what += more ? "one entry more; " : "one entry less; ";
		if (more) n.kids.push_back(n.kids[t.draw(n.kids.size())]); else if (!n.kids.empty()) n.kids.erase(n.kids.begin() + t.draw(n.kids.size()));
		if (more && n.kind == 2) n.kids.back().first += "_copy";
		return;
	}
	if (op >= 6) { int k = t.range(-2, 5); what += n.text + " -> " + std::to_string(k) + "; "; n.text = std::to_string(k); return; }
	if (op >= 4) { std::string j = junk(t); what += "replaced by " + j + "; "; n = Tree(); n.text = j; return; }
	what += "deleted; ";
	at.first->kids.erase(at.first->kids.begin() + at.second);
}
static std::string bytes(Tape& t, std::string s, std::string& what) {
	int k = t.range(1, 6);
	static const char* tok[] = {"\n", " ", "\t", ":", "-", "[", "]", "{", "}", ",", "&a ", "*a", "!!int ", "#", "\"", "'", "|\n", "---\n", "...\n", "? ", "%", "\xff", "\xc3\x28", "<<: *a", "~", "0", "e9"};
	for (int i = 0; i < k && !s.empty(); i++) {
		size_t p = t.draw(s.size());
		switch (t.draw(6)) {
			case 0: s[p] = (char)t.draw(256); what += "byte; "; break;
			case 1: s.erase(p, 1 + t.draw(8)); what += "cut; "; break;
			case 2: { std::string q = tok[t.draw(sizeof tok / sizeof *tok)]; s.insert(p, q); what += "insert; "; break; }
			case 3: s.resize(p); what += "truncate; "; break;
			case 4: { size_t q = t.draw(s.size()), l = t.draw(60); s.insert(p, s.substr(q, l)); what += "splice; "; break; }
			default: { size_t a = s.rfind('\n', p), b = s.find('\n', p); if (a == std::string::npos) a = 0; if (b == std::string::npos) b = s.size(); s.erase(a, b - a); what += "drop line; "; }
		}
	}
	return s;
}
static bool tooBig(const std::string& text) {                 // sizes that only test the memory of the machine
	try {
		YAML::Node y = YAML::Load(text);
		const YAML::Node c = y;
		if (!c.IsMap()) return false;
		auto big = [](const YAML::Node& n) { try { return n.IsDefined() && n.as<long>() > 12; } catch (const YAML::Exception&) { return false; } };
		if (big(c["Dl_order"])) return true;
		if (c["num_joints"].IsDefined() && c["type_joints"].IsSequence() && c["type_joints"].size() > 4) return true;
		const YAML::Node e = c["elastic"];
		if (e.IsDefined() && e.IsMap()) for (auto k : {"K_order", "D_order", "Dm_order"}) if (big(e[k])) return true;
	} catch (const YAML::Exception&) {}
	return false;
}
static bool tame(const YAML::Node& n) {                        // all numbers finite and of moderate size
	if (n.IsScalar()) { try { double d = n.as<double>(); return std::fabs(d) < 1e3; } catch (const YAML::Exception&) { return true; } }
	if (n.IsSequence() || n.IsMap()) for (const auto& x : n) if (!tame(n.IsMap() ? x.second : (const YAML::Node&)x)) return false;
	return true;
}
struct Result { bool refused = false; std::string msg; std::map<std::string, Mat> v; };
static Result attempt(const std::string& file, const std::string& text, int entry, const State* x, unsigned char fill) {
	Result r;
	g_fill = fill;
	mallopt(M_PERTURB, fill);
	try {
		std::unique_ptr<Robot> b;
		if (entry == 0) b.reset(new Robot(thunder_ns::robot_from_file("robo", file, true)));
		else if (entry == 1) b.reset(new Robot(thunder_ns::robot_from_file("robo", file, false)));
		else if (entry == 2) b.reset(new Robot(YAML::Load(text)));
		else b.reset(new Robot(file));
		int n = b->get_numJoints(), e = b->get_numElasticJoints();
		if (x) {
			Bot q; q.r = std::move(b); q.m.n = n; q.m.ELASTIC = q.r->get_ELASTIC();
			State s = *x;
			for (Vec* v : {&s.q, &s.dq, &s.ddq, &s.d3q, &s.dqr, &s.ddqr}) v->resize(n);
			for (Vec* v : {&s.x, &s.dx, &s.ddx, &s.ddxr}) v->resize(e);
			apply(q, s);
			q.refresh();
			for (auto& f : q.f) r.v[f.first] = q.r->get(f.first);
			b = std::move(q.r);
		}
		r.v["#"] = Mat::Zero(1, 6);
		r.v["#"] << n, e, b->get_Dl_order(), b->get_K_order(), b->get_D_order(), b->get_Dm_order();
		for (auto& s : b->symb) { Mat m(s.second.size(), 1); for (size_t i = 0; i < s.second.size(); i++) m(i, 0) = s.second[i]; r.v["symb " + s.first] = m; }
		for (auto a : {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (b->symb.count(a) && !b->symb[a].empty()) r.v[std::string("arg ") + a] = b->get_arg(a);
		if (entry < 2) { r.v["DYN"] = b->get_par_DYN(); r.v["REG"] = b->get_par_REG(); }
	} catch (const std::exception& e) { r.refused = true; r.msg = e.what(); r.v.clear(); }
	g_fill = 0x5a;
	mallopt(M_PERTURB, 0);
	return r;
}
static bool bitwise(const Mat& a, const Mat& b) {
	if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
	for (int i = 0; i < a.size(); i++) if (!(a.data()[i] == b.data()[i] || (std::isnan(a.data()[i]) && std::isnan(b.data()[i])))) return false;
	return true;
}

PROPERTY(C18, "valid configurations damaged by 1-4 structural mutations or in one field chosen by name (gone, of another type, one entry more or less) (delete, duplicate, resize, retype, swap, rename, copy of other subtrees) or byte mutations, plus arbitrary bytes, missing files and directories, through all four ways of loading a robot and through load_conf_par, load_par_REG, load_par of an existing robot; built with ASan/UBSan and without. No memory error, signal or hang; what certainly is not a robot must be refused; what is accepted must not depend on the content of uninitialised memory and must be finite for finite numbers. Non-trivial: a mutation that a validator written from the format calls invalid, or an accepted mutant whose functions were evaluated") {
	Tape& t = c.t;
	GenOpt o; o.nmax = 2; o.maxOrder = 3;
	int kind = t.draw(14);
	if (kind >= 10) { o.sea = o.elastic = 1 + t.draw(2); o.friction = 1 + t.draw(2); }
	Spec s = genSpec(t, o);
	std::string text = toYaml(s), what, good = text;
	if (kind >= 10) {
		Tree root = fromNode(YAML::Load(text));
		target(t, root, what);
		text = emitTop(root);
	} else if (kind <= 6) {
		Tree root = fromNode(YAML::Load(text));
		int k = t.range(1, kind <= 3 ? 1 : 4);
		for (int i = 0; i < k; i++) for (int tries = 0; tries < 6 && !mutate(t, root, what); tries++) {}
		text = root.kind == 2 ? emitTop(root) : emit(root);
	} else if (kind <= 8) text = bytes(t, text, what);
	else { text.clear(); int k = t.range(0, 60); for (int i = 0; i < k; i++) text += (char)t.draw(256); what = "arbitrary bytes"; }
	std::string file = c.scratch + "/conf.yaml";
	int special = t.draw(40);
	bool nofile = special == 0 || special == 1;
	int entry = t.draw(6);                          // weights: compute often
	if (entry >= 4) entry = 0;
	if (nofile && entry == 2) entry = 1;
	c.desc += "mutations: " + what + "\nentry " + std::to_string(entry) + "\n" + (special == 0 ? "(file does not exist)\n" : special == 1 ? "(a directory)\n" : text);
	if (tooBig(text)) throw Discard();
	writeFile(file, text);
	if (special == 0) file = c.scratch + "/none.yaml";
	if (special == 1) { file = c.scratch + "/dir.yaml"; mkdir(file.c_str(), 0755); }
	std::string why = nofile ? "no file" : invalid(text);
	State x = genState(t, 4, 4);
	bool eval = entry == 0;
	Result a = attempt(file, text, entry, eval ? &x : nullptr, 0x11);
	c.checks++;
	c.label(a.refused ? "refused" : "accepted");
	// the parameters proper are read by robot_from_file only; joint types are checked when the model is computed
	if (!why.empty() && !a.refused) {
		bool late = why == "unknown joint type" && entry != 0;
		bool parOnly = entry >= 2 && (why.find("coefficients") != std::string::npos || why.find("mass") == 0 || why.find("CoM") == 0 || why.find("I") == 0 || why.find("Mm") == 0 || why.find("Dl") == 0 || why.find("K ") == 0 || why.find("D ") == 0 || why.find("Dm ") == 0 || why.find("an elastic joint") == 0 || why.find("a link has no inertial") == 0);
		if (!late && !parOnly) fail("a configuration is accepted although " + why, "accepted");
	}
	Result b = attempt(file, text, entry, eval ? &x : nullptr, 0xee);
	if (a.refused != b.refused) fail("whether the configuration is accepted depends on uninitialised memory", "uninit");
	if (!a.refused) {
		if (a.v.size() != b.v.size()) fail("the functions of the robot depend on uninitialised memory", "uninit");
		for (auto& v : a.v) { c.checks++; if (!b.v.count(v.first) || !bitwise(v.second, b.v[v.first])) fail("the value of " + v.first + " depends on uninitialised memory: " + str(v.second) + " and " + str(b.v[v.first]), "uninit"); }
		bool finite = amax(x.dq) < 1e3;
		if (finite && tame(YAML::Load(text))) for (auto& v : a.v) if (v.second.size() && !v.second.allFinite()) fail("the value of " + v.first + " is not finite although all numbers of the configuration are: " + str(v.second), "finite");
		if (eval) c.label("mutant evaluated");
	}
	if (!why.empty()) c.label("certainly invalid");
	// the same file given to a good robot: refused without effect, or loaded
	if (t.flip(1, 4)) {
		std::string gf = c.scratch + "/good.yaml";
		writeFile(gf, good);
		Robot r = thunder_ns::robot_from_file("robo", gf, false);
		EV d0 = r.get_par_DYN(), g0 = r.get_par_REG();
		int how = t.draw(3);
		bool refused = false;
		try {
			if (how == 0) refused = r.load_conf_par(file) != 1;
			else if (how == 1) { r.load_par_REG(file); refused = false; }
			else refused = r.load_par(file) != 1;
		} catch (const std::exception&) { refused = true; }
		c.label(std::string("into a good robot: ") + (how == 0 ? "load_conf_par" : how == 1 ? "load_par_REG" : "load_par"));
		if (how == 0 && refused) { same(c, "par_DYN after a refused file", r.get_par_DYN(), d0, 0); same(c, "par_REG after a refused file", r.get_par_REG(), g0, 0); }
		if (how == 0 && nofile && !refused) fail("a missing parameter file is accepted");
		if (how == 1 && (nofile || why == "not YAML" || why == "no mapping")) same(c, "par_REG after an unreadable file", r.get_par_REG(), g0, 0);
		if (how == 2 && (nofile || why == "not YAML") && !refused) fail("load_par accepts an unreadable file");
	}
	if (!why.empty() || (!a.refused && eval)) c.nontrivial = true;
}
