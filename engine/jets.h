// Forward-mode differentiation: Dual<T> (one first-order direction) and Tay (time Taylor series to order 2), nestable.
#pragma once
#include <cmath>
#include <vector>

template <class T> struct Dual {
	T a, b;                                    // value, derivative
	Dual() : a(0.0), b(0.0) {}
	Dual(double x) : a(x), b(0.0) {}
	Dual(const T& x, const T& y) : a(x), b(y) {}
	Dual operator-() const { return {-a, -b}; }
	Dual& operator+=(const Dual& o) { a = a + o.a; b = b + o.b; return *this; }
};
template <class T> Dual<T> operator+(const Dual<T>& x, const Dual<T>& y) { return {x.a + y.a, x.b + y.b}; }
template <class T> Dual<T> operator-(const Dual<T>& x, const Dual<T>& y) { return {x.a - y.a, x.b - y.b}; }
template <class T> Dual<T> operator*(const Dual<T>& x, const Dual<T>& y) { return {x.a * y.a, x.a * y.b + x.b * y.a}; }
template <class T> Dual<T> sin(const Dual<T>& x) { using std::sin; using std::cos; return {sin(x.a), cos(x.a) * x.b}; }
template <class T> Dual<T> cos(const Dual<T>& x) { using std::sin; using std::cos; return {cos(x.a), -(sin(x.a) * x.b)}; }

struct Tay {                                  // x(t) = c0 + c1 t + c2 t^2
	double c[3];
	Tay(double x = 0) : c{x, 0, 0} {}
	Tay(double x, double y, double z) : c{x, y, z} {}
	Tay operator-() const { return {-c[0], -c[1], -c[2]}; }
	Tay& operator+=(const Tay& o) { for (int i = 0; i < 3; i++) c[i] += o.c[i]; return *this; }
};
inline Tay operator+(const Tay& x, const Tay& y) { return {x.c[0] + y.c[0], x.c[1] + y.c[1], x.c[2] + y.c[2]}; }
inline Tay operator-(const Tay& x, const Tay& y) { return {x.c[0] - y.c[0], x.c[1] - y.c[1], x.c[2] - y.c[2]}; }
inline Tay operator*(const Tay& x, const Tay& y) { return {x.c[0] * y.c[0], x.c[0] * y.c[1] + x.c[1] * y.c[0], x.c[0] * y.c[2] + x.c[1] * y.c[1] + x.c[2] * y.c[0]}; }
inline Tay sin(const Tay& x) { double s = std::sin(x.c[0]), k = std::cos(x.c[0]); return {s, k * x.c[1], k * x.c[2] - 0.5 * s * x.c[1] * x.c[1]}; }
inline Tay cos(const Tay& x) { double s = std::sin(x.c[0]), k = std::cos(x.c[0]); return {k, -s * x.c[1], -s * x.c[2] - 0.5 * k * x.c[1] * x.c[1]}; }

inline double val(double x) { return x; }
