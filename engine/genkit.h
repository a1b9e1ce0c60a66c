// Running the command line of the tree under test and loading the class it generates.
#pragma once
#include "kit.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <algorithm>




inline Strs words(const std::string& s) { std::istringstream i(s); Strs r; std::string w; while (i >> w) r.push_back(w); return r; }
// exit status, or -signal, or -1000 on a timeout
inline int runCmd(const Strs& a, const std::string& cwd, const std::string& out, int secs, const std::map<std::string, std::string>& extra = {}) {
	std::vector<char*> av;
	for (auto& s : a) av.push_back(const_cast<char*>(s.c_str()));
	av.push_back(nullptr);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		struct sigaction d; d.sa_handler = SIG_DFL; d.sa_flags = 0; sigemptyset(&d.sa_mask);
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &d, nullptr);
		if (chdir(cwd.c_str())) _exit(126);
		int f = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(f, 1); dup2(f, 2);
		for (auto& e : extra) setenv(e.first.c_str(), e.second.c_str(), 1);
		alarm(secs);
		execvp(av[0], av.data());
		_exit(127);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	kill(-p, SIGKILL);
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? -1000 : -WTERMSIG(st);
	return WEXITSTATUS(st);
}
// the end of a program's output
inline std::string tail(const std::string& path, size_t n = 3000) { std::string s = readFile(path); return s.size() > n ? s.substr(s.size() - n) : s; }

inline int thunderCli(const Strs& args, const std::string& cwd, const std::string& out) { Strs a{env("PBT_CLI")}; a.insert(a.end(), args.begin(), args.end()); return runCmd(a, cwd, out, 100); }

struct Lib {                                      // a generated class loaded into this process
	void* h = nullptr;
	std::string pre;                                // prefix of the shim's functions
	template <class F> F* sym(const char* n) { void* s = dlsym(h, (pre + n).c_str()); if (!s) fail(std::string("harness: symbol ") + n); return (F*)s; }
	std::vector<double> buf = std::vector<double>(20000);
	std::string path;
	void open(const std::string& so) {
		path = so;
		h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) fail(std::string("the generated library cannot be loaded: ") + dlerror(), "link");
	}
	~Lib() { if (h) dlclose(h); }                   // every Lib has its own reference to the library
	void* make() { return sym<void*()>("sh_new")(); }
	void* copy(void* p) { return sym<void*(void*)>("sh_copy")(p); }
	void del(void* p) { sym<void(void*)>("sh_del")(p); }
	int dim(void* p, const std::string& w) { return sym<int(void*, const char*)>("sh_dim")(p, w.c_str()); }
	void set(void* p, const std::string& w, const Vec& v, int flag = -1, int r = -1, int c = 1) {
		double dummy[1] = {0};
		if (!sym<int(void*, const char*, const double*, int, int, int)>("sh_set")(p, w.c_str(), v.empty() ? dummy : v.data(), r < 0 ? (int)v.size() : r, c, flag)) fail("harness: set " + w);
	}
	void args(void* p, const Vec& a, const Vec& b, const Vec& d, const Vec& e) { sym<void(void*, const double*, int, const double*, int, const double*, int, const double*, int)>("sh_args")(p, a.data(), a.size(), b.data(), b.size(), d.data(), d.size(), e.data(), e.size()); }
	Mat read(const char* fn, void* p, const std::string& w) {
		int r = 0, c = 0;
		if (!sym<int(void*, const char*, double*, int, int*, int*)>(fn)(p, w.c_str(), buf.data(), buf.size(), &r, &c)) fail("harness: " + std::string(fn) + " " + w);
		return Eigen::Map<Mat>(buf.data(), r, c);
	}
	Mat par(void* p, const std::string& w) { return read("sh_get", p, w); }
	Mat fun(void* p, const std::string& w) { return read("sh_fun", p, w); }
	int file(void* p, const std::string& op, const std::string& path, int flag = -1) { return sym<int(void*, const char*, const char*, int)>("sh_file")(p, op.c_str(), path.c_str(), flag); }
	void resize(void* p) { sym<void(void*)>("sh_resize")(p); }
	int keep(void* p) { return sym<int(void*)>("sh_keep")(p); }
};

struct GenBot : Bot {
	std::string name, dir, cls;                     // dir: the generated files
	std::shared_ptr<Lib> lib;
};
// the class files as the command line writes them
inline void generate(Ctx& c, GenBot& g, const std::string& yaml, const std::string& name, const Strs& opts = {}, const std::string& sub = "gen") {
	g.name = name;
	std::string cwd = c.scratch + "/" + sub;
	fs::remove_all(cwd);
	fs::create_directories(cwd);
	std::string file = cwd + "/" + name + ".yaml";
	writeFile(file, yaml);
	Strs a{"gen", file};
	a.insert(a.end(), opts.begin(), opts.end());
	int rc = thunderCli(a, cwd, c.scratch + "/cli.out");
	g.dir = cwd + "/" + name + "_generatedFiles/";
	if (rc < 0) fail("thunder gen ends with " + (rc == -1000 ? std::string("a timeout") : "signal " + std::to_string(-rc)) + "\n" + tail(c.scratch + "/cli.out"), "gen");
	for (auto f : {"thunder_" + name + ".h", "thunder_" + name + ".cpp", name + "_gen.h", name + "_gen.cpp", name + "_conf.yaml", name + "_par_REG.yaml"})
		if (!fs::exists(g.dir + f)) fail("thunder gen does not write " + f + " for a valid configuration\n" + tail(c.scratch + "/cli.out"), "gen");
	g.cls = "thunder_" + name;
}
// compiles the generated files with a main or shim source; returns the path of the product (cached by content)
inline std::string compileGen(Ctx& c, const GenBot& g, const std::string& shim, const std::string& product, const Strs& clsFlags, const Strs& genFlags, const Strs& linkFlags, const std::string& pch, const Strs& more = {}) {
	std::string inc;
	for (auto& f : g.f) inc += "G(" + f.first + ")\n";
	uint64_t key = fnv(inc, fnv(readFile(g.dir + "thunder_" + g.name + ".h"), fnv(readFile(g.dir + "thunder_" + g.name + ".cpp"), fnv(readFile(g.dir + g.name + "_gen.cpp")))));
	for (auto& x : clsFlags) key = fnv(x, key);
	key = fnv(readFile(g.dir + g.name + "_gen.h"), fnv(shim, fnv(product, key)));
	char hex[32]; snprintf(hex, sizeof hex, "%016llx", (unsigned long long)key);
	std::string bd = c.scratch + "/so", out = bd + "/" + hex + "_" + product;
	if (fs::exists(out)) return out;
	fs::remove_all(bd);
	fs::create_directories(bd);
	writeFile(g.dir + "getters.inc", inc);
	Strs base{"g++", "-std=gnu++17", "-fPIC", "-fno-gnu-unique"};
	struct Job { Strs cmd; std::string src; };
	std::vector<Job> jobs;
	auto add = [&](const std::string& src, const std::string& obj, const Strs& fl, bool usePch) {
		Strs a = base;
		a.insert(a.end(), fl.begin(), fl.end());
		if (usePch && !pch.empty()) { a.push_back("-include"); a.push_back(pch); }
		a.insert(a.end(), {"-I" + g.dir, "-DCLS=" + g.cls, "-DHDR=\"thunder_" + g.name + ".h\"", "-c", src, "-o", obj});
		jobs.push_back({a, src});
	};
	Strs cf = clsFlags;
	cf.insert(cf.end(), more.begin(), more.end());
	add(g.dir + "thunder_" + g.name + ".cpp", bd + "/cls.o", cf, true);
	add(g.dir + g.name + "_gen.cpp", bd + "/gen.o", genFlags, false);
	add(shim, bd + "/shim.o", cf, true);
	for (size_t i = 0; i < jobs.size(); i++) {
		std::string log = c.scratch + "/cc" + std::to_string(i) + ".out";
		int rc = runCmd(jobs[i].cmd, g.dir, log, 140);
		if (rc == -1000 || rc < 0) throw Discard();     // out of time or memory: not a verdict
		if (rc) fail("the generated code does not compile (" + fs::path(jobs[i].src).filename().string() + ")\n" + readFile(log).substr(0, 3000), "compile");
	}
	Strs l{"g++"};
	l.insert(l.end(), linkFlags.begin(), linkFlags.end());
	l.insert(l.end(), {bd + "/cls.o", bd + "/gen.o", bd + "/shim.o", "-o", out + ".tmp", "-lyaml-cpp", "-lpthread"});
	std::string log = c.scratch + "/ld.out";
	if (runCmd(l, g.dir, log, 100)) fail("the generated code does not link\n" + tail(log), "link");
	for (auto o : {"/cls.o", "/gen.o", "/shim.o"}) fs::remove(bd + o);
	fs::rename(out + ".tmp", out);
	return out;
}
inline void loadLib(Ctx& c, GenBot& g, const Strs& more = {}) {
	Strs cf{"-O0"}, ld{"-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"};
#if defined(__SANITIZE_ADDRESS__)
	cf = {"-O0", "-fsanitize=address", "-fno-omit-frame-pointer"};
	ld = {"-shared", "-Wl,-Bsymbolic", "-fsanitize=address"};
#endif
	std::string so = compileGen(c, g, env("PBT_SHIM") + "/robot_shim.cpp", "class.so", cf, {"-O0"}, ld, env("PBT_PCH"), more);
	g.lib.reset(new Lib());
	g.lib->open(so);
}
// given: the file given to the command line, another spelling of yaml
inline GenBot makeGen(Ctx& c, const std::string& yaml, const std::string& name, const Strs& opts = {}, const Strs& more = {}, const std::string& given = "") {
	GenBot g;
	generate(c, g, given.empty() ? yaml : given, name, opts);
	writeFile(c.scratch + "/conf.yaml", yaml);
	g.yaml = yaml; g.file = c.scratch + "/conf.yaml";
	g.m = ref::parse(yaml);
	g.r.reset(new Robot(thunder_ns::robot_from_file(name, g.file, true)));
	g.refresh();
	loadLib(c, g, more);
	return g;
}
// names of robots: usual ones, pieces that mean something in the templates or paths put together, any letters.
// (no "__": casadi refuses it)
inline std::string genName(Tape& t, const Strs& usual) {
	int how = t.draw(4);
	if (how <= 1) return t.pick(usual);
	static const char* letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	std::string n;
	if (how == 2) {
		static const Strs bits = {"robot", "thunder", "arm", "gen", "conf", "yaml", "par", "REG", "py", "class", "thunder_robot", "generatedFiles", "h", "cpp", "2", "x", "ROBOT", "fun", "int", "n_joints", "M", "reg", "T_0", "_"};
		for (int i = 0, k = 1 + t.draw(3); i < k; i++) {
			std::string b = t.pick(bits);
			if (!n.empty() && n.back() != '_' && t.flip()) n += "_";
			if (b == "_" && (n.empty() || n.back() == '_')) continue;
			n += b;
		}
	} else for (int i = 0, k = 1 + t.draw(t.flip(1, 3) ? 40 : 8); i < k; i++) n += letters[t.draw(62)];
	while (!n.empty() && n.back() == '_') n.pop_back();
	if (n.empty() || std::isdigit((unsigned char)n[0])) n = "r" + n;
	return n;
}
// several generated classes compiled and linked into one library; order: the order in which one source includes their headers
inline void loadTogether(Ctx& c, std::vector<GenBot>& gs, const std::vector<int>& order) {
	std::string bd = c.scratch + "/both", pch = env("PBT_PCH");
	fs::remove_all(bd);
	fs::create_directories(bd);
	Strs base{"g++", "-std=gnu++17", "-fPIC", "-fno-gnu-unique", "-O0"}, objs;
	auto cc = [&](const std::string& src, Strs fl, const std::string& dir, bool usePch) {
		Strs a = base;
		if (usePch) { a.push_back("-include"); a.push_back(pch); }
		a.insert(a.end(), fl.begin(), fl.end());
		std::string o = bd + "/o" + std::to_string(objs.size()) + ".o", log = c.scratch + "/cc.out";
		a.insert(a.end(), {"-c", src, "-o", o});
		int rc = runCmd(a, dir, log, 140);
		if (rc == -1000 || rc < 0) throw Discard();
		if (rc) fail("the generated code does not compile (" + fs::path(src).filename().string() + ")\n" + readFile(log).substr(0, 3000), "compile");
		objs.push_back(o);
	};
	std::string all, sum;
	Strs incs;
	for (int i : order) { all += "#include \"thunder_" + gs[i].name + ".h\"\n"; sum += " + " + gs[i].cls + "().n_joints"; incs.push_back("-I" + gs[i].dir); }
	writeFile(bd + "/both.cpp", all + "extern \"C\" int both_joints() { return 0" + sum + "; }\n");
	for (size_t i = 0; i < gs.size(); i++) {
		GenBot& g = gs[i];
		std::string inc;
		for (auto& f : g.f) inc += "G(" + f.first + ")\n";
		writeFile(g.dir + "getters.inc", inc);
		cc(g.dir + "thunder_" + g.name + ".cpp", {"-I" + g.dir}, g.dir, true);
		cc(g.dir + g.name + "_gen.cpp", {"-I" + g.dir}, g.dir, false);
		Strs fl{"-I" + g.dir, "-DCLS=" + g.cls, "-DHDR=\"thunder_" + g.name + ".h\""};
		for (auto n : {"new", "copy", "del", "dim", "resize", "set", "args", "get", "fun", "file", "keep"}) fl.push_back(std::string("-Dsh_") + n + "=r" + std::to_string(i) + "sh_" + n);
		cc(env("PBT_SHIM") + "/robot_shim.cpp", fl, g.dir, true);
	}
	cc(bd + "/both.cpp", incs, bd, true);
	Strs l{"g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"};
	l.insert(l.end(), objs.begin(), objs.end());
	std::string so = bd + "/both" + std::to_string(getpid()) + "_" + std::to_string(fnv(c.desc) % 1000000) + ".so", log = c.scratch + "/ld.out";
	l.insert(l.end(), {"-o", so, "-lyaml-cpp", "-lpthread"});
	if (runCmd(l, bd, log, 100)) {
		// robots X and X_reg: reg_M of the first and M of the second have the same name X_reg_M_fun
		std::string key = "link", out = readFile(log);
		for (auto& a : gs) for (auto& b : gs) if (b.name == a.name + "_reg") for (auto f : {"M", "C", "G", "dl", "k", "d", "dm", "Mm"}) if (out.find("multiple definition of `" + b.name + "_" + f + "_fun'") != std::string::npos) key = "reg-name";
		fail("the generated classes do not link together\n" + tail(log), key);
	}
	for (size_t i = 0; i < gs.size(); i++) { gs[i].lib.reset(new Lib()); gs[i].lib->pre = "r" + std::to_string(i); gs[i].lib->open(so); }
	int want = 0;
	for (auto& g : gs) want += g.m.n;
	Lib both;
	both.open(so);
	if (both.sym<int()>("both_joints")() != want) fail("the classes included together have " + std::to_string(both.sym<int()>("both_joints")()) + " joints, expected " + std::to_string(want));
}
