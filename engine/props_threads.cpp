// C22: getters of generated classes in several threads, under ThreadSanitizer.
#include "genkit.h"

PROPERTY(C22, "generated classes compiled with ThreadSanitizer; 2-6 threads, each with its own object (made by the thread or by the main thread, with different or identical scripts), run 20-200 random setter and getter calls and save and load files of their own at once; the values are compared bit by bit with the same calls made alone, kept results must not change, and any data race report is a violation. Non-trivial: at least two threads calling at least 20 getters each") {
	GenOpt o;
	o.nmax = c.t.flip(1, 15) ? 4 : c.t.flip(1, 3) ? 3 : 2;
	Spec s = genSpec(c.t, o);
	static const Strs names = {"robo", "R2d2", "my_arm", "robot", "n"};
	std::string name = genName(c.t, names);
	bool py = false;
	(void)py;
	c.desc += "name " + name + "\n" + toYaml(s);
	GenBot g;
	generate(c, g, toYaml(s), name);
	writeFile(c.scratch + "/conf.yaml", toYaml(s));
	g.file = c.scratch + "/conf.yaml";
	g.m = ref::parse(toYaml(s));
	g.r.reset(new Robot(thunder_ns::robot_from_file(name, g.file, true)));
	g.refresh();
	classify(c, s, g.m);
	std::string exe = compileGen(c, g, env("PBT_SHIM") + "/threads_main.cpp", "threads", {"-O0", "-fsanitize=thread"}, {"-O0", "-fsanitize=thread"}, {"-fsanitize=thread"}, env("PBT_PCH_TSAN"));
	int runs = 2 + c.t.draw(4);
	for (int k = 0; k < runs; k++) {
		int nt = c.t.range(2, 6), steps = c.t.range(20, 200);
		uint64_t seed = c.t.draw(1u << 30);
		bool mm = c.t.flip(), eq = c.t.flip(1, 3);
		c.desc += "run: seed " + std::to_string(seed) + ", " + std::to_string(nt) + " threads, " + std::to_string(steps) + " calls each\n";
		std::string log = c.scratch + "/threads.out";
		int rc = runCmd({exe, std::to_string(seed), std::to_string(nt), std::to_string(steps), mm ? "1" : "0", eq ? "1" : "0", g.file}, c.scratch, log, 60, {{"TSAN_OPTIONS", "exitcode=66 halt_on_error=0 report_signal_unsafe=0 history_size=4"}});
		std::string out = readFile(log);
		if (out.find("FATAL: ThreadSanitizer") != std::string::npos || rc == -1000 || rc == 127 || rc == 126) throw Discard();
		c.checks += nt * steps;
		size_t w = out.find("WARNING: ThreadSanitizer: data race");
		if (w != std::string::npos) fail("data race between getters of different objects\n" + out.substr(w, 2500), "race");
		if (rc == 3) { size_t m = out.find("MISMATCH"); fail("values change when other threads compute: " + out.substr(m == std::string::npos ? 0 : m, 600), "value"); }
		if (rc) fail("threads of getters end with " + std::to_string(rc) + "\n" + out.substr(0, 2500), "crash");
		c.label("threads=" + std::to_string(nt));
	}
	c.nontrivial = true;
}
