// Several threads, each with its own object of a generated class: what they compute together is compared
// with what the same calls give alone. argv: seed threads steps
#include HDR
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <thread>
#include <vector>
struct Rnd { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } int draw(int n) { return next() % n; } double real() { return (double)(int64_t)(next() >> 11) / (1ll << 51) - 2; } };
typedef Eigen::VectorXd EV;
static EV rv(Rnd& r, int n) { EV v(n); for (int i = 0; i < n; i++) v(i) = r.real(); return v; }
typedef std::vector<double> Out;
static const char* fnames[] = {
#define G(n) #n,
#include "getters.inc"
#undef G
};
static const int nf = sizeof fnames / sizeof *fnames;
template <class M> static void put(const M& m, Out& o) { o.insert(o.end(), m.data(), m.data() + m.size()); }
static void call(CLS& c, int k, Out& o) {
	int i = 0;
#define G(n) if (i++ == k) { auto m = c.get_##n(); put(m, o); return; }
#include "getters.inc"
#undef G
}
static void state(CLS& c, Rnd& r) {
	int n = c.n_joints, e = c.numElasticJoints;
	switch (r.draw(18)) {
		case 0: case 1: c.set_q(rv(r, n)); break;
		case 2: c.set_dq(rv(r, n)); break;
		case 3: c.set_dqr(rv(r, n)); break;
		case 4: c.set_ddqr(rv(r, n)); break;
		case 5: { EV a = rv(r, n), b = rv(r, n), d = rv(r, n), f = rv(r, n); c.setArguments(a, b, d, f); break; }
		case 6: c.set_ddq(rv(r, n)); break;
		case 7: c.set_d3q(rv(r, n)); break;
		case 8: c.set_d4q(rv(r, n)); break;
		case 9: c.set_w(rv(r, 6)); break;
		case 10: c.set_par_DYN(rv(r, 10 * n)); break;
		case 11: c.set_par_REG(rv(r, 10 * n)); break;
		case 12: c.set_par_K(rv(r, c.get_par_K().size())); c.set_par_D(rv(r, c.get_par_D().size())); break;
		case 13: c.set_par_Dm(rv(r, c.get_par_Dm().size())); c.set_par_Mm(rv(r, c.get_par_Mm().size())); c.set_par_Dl(rv(r, c.get_par_Dl().size())); break;
		case 14: c.set_par_DHtable(rv(r, c.get_par_DHtable().size())); c.set_par_gravity(rv(r, c.get_par_gravity().size())); break;
		case 15: c.set_par_world2L0(rv(r, c.get_par_world2L0().size())); c.set_par_Ln2EE(rv(r, c.get_par_Ln2EE().size())); break;
		default: c.set_x(rv(r, e)); c.set_dx(rv(r, e)); c.set_ddx(rv(r, e)); c.set_ddxr(rv(r, e));
	}
}
static std::string conf;
static void text(const std::string& file, Out& o) {
	std::ifstream f(file);
	uint32_t h = 2166136261u;
	for (char ch; f.get(ch);) h = (h ^ (unsigned char)ch) * 16777619u;
	o.push_back(h);
}
static void pars(CLS& c, Out& o) {
	put(c.get_par_REG(), o); put(c.get_par_DYN(), o); put(c.get_par_DHtable(), o); put(c.get_par_gravity(), o); put(c.get_par_world2L0(), o); put(c.get_par_Ln2EE(), o);
	put(c.get_par_K(), o); put(c.get_par_D(), o); put(c.get_par_Dm(), o); put(c.get_par_Mm(), o); put(c.get_par_Dl(), o);
}
// files of its own
static void files(CLS& c, Rnd& r, const std::string& mine, Out& o) {
	switch (r.draw(5)) {
		case 0: c.save_par(mine); text(mine, o); break;
		case 1: c.save_par_REG(mine); text(mine, o); c.set_par_REG(rv(r, 10 * c.n_joints)); c.load_par_REG(mine); break;
		case 2: c.save_par_DYN(mine); text(mine, o); break;
		case 3: c.load_conf(conf); break;
		default: break;
	}
	pars(c, o);
}
struct Bad { std::atomic<int> cnt{0}; };
static Bad bad;
// a script of one thread; `other` changes nothing that the script computes
static void script(uint64_t seed, int steps, Out& out, CLS* given, bool yields, std::vector<int>& at, const std::string& mine) {
	Rnd r{seed};
	std::unique_ptr<CLS> own(given ? nullptr : new CLS());
	CLS& c = given ? *given : *own;
	for (int k = 0; k < 8; k++) state(c, r);
	for (int s = 0; s < steps; s++) {
		if (r.draw(3) == 0) state(c, r);
		if (r.draw(12) == 0) files(c, r, mine, out);
		int f = r.draw(nf);
		if (yields && (s * 7 + f) % 5 == 0) std::this_thread::yield();
		at.push_back(f);
		size_t before = out.size();
		call(c, f, out);
		out.push_back((double)(out.size() - before));
	}
	// results kept while others are computed, on this and on another object
	CLS o2(c);
	state(o2, r); o2.set_q(rv(r, c.n_joints));
	Out keep, junk;
	for (int k = 0; k < 4; k++) {
		int want = r.draw(nf), i = 0;
#define G(n) if (i++ == want) { auto&& m = c.get_##n(); keep.clear(); put(m, keep); for (int z = 0; z < 3; z++) call(o2, r.draw(nf), junk); c.set_q(rv(r, c.n_joints)); auto&& m2 = c.get_##n(); put(m2, junk); if (keep.size() && memcmp(keep.data(), m.data(), keep.size() * sizeof(double))) { if (!bad.cnt++) fprintf(stderr, "MISMATCH kept result of get_" #n " changes\n"); } }
#include "getters.inc"
#undef G
	}
	out.push_back(keep.size());
}
int main(int argc, char** argv) {
	uint64_t seed = strtoull(argv[1], 0, 10);
	int nt = atoi(argv[2]), steps = atoi(argv[3]);
	conf = argv[6];
	bool mainMakes = atoi(argv[4]), same = atoi(argv[5]);
	std::vector<std::unique_ptr<CLS>> objs(nt);
	if (mainMakes) for (auto& o : objs) o.reset(new CLS());
	std::vector<Out> outs(nt);
	std::vector<std::vector<int>> at(nt);
	std::vector<std::thread> th;
	std::atomic<int> go{0};
	for (int i = 0; i < nt; i++) th.emplace_back([&, i] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); script(same ? seed : seed + i, steps, outs[i], objs[i].get(), true, at[i], "own" + std::to_string(i)); });
	for (auto& t : th) t.join();
	for (int i = 0; i < nt; i++) {
		Out alone;
		std::vector<int> a2;
		CLS fresh;
		script(same ? seed : seed + i, steps, alone, &fresh, false, a2, "own" + std::to_string(i));
		if (alone.size() != outs[i].size() || memcmp(alone.data(), outs[i].data(), alone.size() * sizeof(double))) {
			size_t k = 0; while (k < alone.size() && k < outs[i].size() && !memcmp(&alone[k], &outs[i][k], 8)) k++;
			if (!bad.cnt++) fprintf(stderr, "MISMATCH thread %d, value %zu: together %.17g, alone %.17g\n", i, k, k < outs[i].size() ? outs[i][k] : 0, k < alone.size() ? alone[k] : 0);
		}
	}
	printf("CALLS %d\n", nt * steps);
	return bad.cnt ? 3 : 0;
}
