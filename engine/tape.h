// Choice tape: every random decision of a case is one draw; shrinking and replay work on the tape.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>

struct Rng {                       // splitmix64
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
};

struct Discard {};
struct Fail : std::runtime_error {
	std::string key;              // identifies the kind of failure (used for known findings)
	Fail(const std::string& m, const std::string& k = "") : std::runtime_error(m), key(k) {}
};

class Tape {
	std::vector<uint64_t> v;
	size_t pos = 0;
	bool fresh;                   // true: draw new choices; false: replay, missing choices are 0
	Rng rng;
public:
	explicit Tape(uint64_t seed) : fresh(true), rng(seed) {}
	explicit Tape(const std::vector<uint64_t>& t) : v(t), fresh(false), rng(0) {}
	Tape(const std::vector<uint64_t>& prefix, uint64_t seed) : v(prefix), fresh(true), rng(seed) {}   // given choices first
	const std::vector<uint64_t>& data() const { return v; }
	std::vector<uint64_t> used() const { return std::vector<uint64_t>(v.begin(), v.begin() + std::min(pos, v.size())); }
	// uniform in [0,n); 0 is the simplest value
	uint64_t draw(uint64_t n) {
		if (n == 0) n = 1;
		uint64_t r;
		if (pos < v.size()) r = v[pos] % n;
		else if (fresh) { r = rng.next() % n; v.push_back(r); }
		else r = 0;
		pos++;
		return r;
	}
	bool flip(int num = 1, int den = 2) { return draw(den) >= (uint64_t)(den - num); } // true with num/den, shrinks to false
	int range(int lo, int hi) { return lo + (int)draw(hi - lo + 1); }
	template <class C> const typename C::value_type& pick(const C& c) { return c[draw(c.size())]; }
	// general purpose real, magnitude about s
	double real(double s = 1.0) {
		switch (draw(12)) {
			case 0: return 0.0;
			case 1: return s;
			case 2: return -s;
			case 3: case 4: { int k = (int)draw(21) - 10; return s * k / 10.0; }
			case 5: { double e[] = {1e-3, 1e-6, 1e-9, 1e-12, 1e-14}; double x = e[draw(5)]; return flip() ? -x * s : x * s; }
			default: { int64_t k = (int64_t)draw(2000001) - 1000000; return s * (double)k / 1e6; }
		}
	}
	double plain(double s = 1.0) {   // generic real, never a special value by construction
		int64_t k = (int64_t)draw(2000001) - 1000000;
		return s * (double)k / 1e6;
	}
	double pos_real(double s = 1.0) { return s * (1 + (double)draw(1000000)) / 1e6; }
	double angle() {
		switch (draw(8)) {
			case 0: return 0.0;
			case 1: { double a[] = {M_PI_2, -M_PI_2, M_PI, -M_PI, M_PI_4, 2 * M_PI, 1.57079632679, 3.14159265359, -1.5707963}; return a[draw(9)]; }
			case 2: { double e[] = {1e-4, 1e-8, 1e-15, 5e-16}; return e[draw(4)]; }
			default: return plain(3.2);
		}
	}
};

inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
