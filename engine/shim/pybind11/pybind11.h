// Stand-in for pybind11: records what a module binds and lets it be called from C++ with Python's calling rules
// (positional and keyword arguments, defaults, overloads, conversions of numbers and matrices).
#pragma once
#include <eigen3/Eigen/Dense>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define PYBIND11_STANDIN 1

namespace pybind11 {
struct Value {                                    // a Python value
	enum Kind { None, Bool, Int, Float, Str, Arr } kind = None;
	bool b = false; long long i = 0; double d = 0; std::string s; Eigen::MatrixXd m; bool vec = false;
	Value() {}
	Value(bool x) : kind(Bool), b(x) {}
	Value(int x) : kind(Int), i(x) {}
	Value(double x) : kind(Float), d(x) {}
	Value(const std::string& x) : kind(Str), s(x) {}
	Value(const char* x) : kind(Str), s(x) {}
	template <class D> Value(const Eigen::MatrixBase<D>& x) : kind(Arr), m(x), vec(D::ColsAtCompileTime == 1) {}
};
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct NoMatch {};

template <class T, class Enable = void> struct caster;
template <> struct caster<bool> { static bool get(const Value& v) { if (v.kind == Value::Bool) return v.b; if (v.kind == Value::None) return false; throw NoMatch(); } };
template <class T> struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> { static T get(const Value& v) { if (v.kind == Value::Int) return (T)v.i; if (v.kind == Value::Bool) return v.b; throw NoMatch(); } };
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> { static T get(const Value& v) { if (v.kind == Value::Float) return v.d; if (v.kind == Value::Int) return v.i; throw NoMatch(); } };
template <> struct caster<std::string> { static std::string get(const Value& v) { if (v.kind == Value::Str) return v.s; throw NoMatch(); } };
template <class T> struct caster<T, std::enable_if_t<std::is_base_of<Eigen::MatrixBase<T>, T>::value>> {
	static T get(const Value& v) {
		if (v.kind != Value::Arr) throw NoMatch();
		if (T::ColsAtCompileTime == 1 && v.m.cols() != 1) throw NoMatch();
		if (T::RowsAtCompileTime != Eigen::Dynamic && T::RowsAtCompileTime != v.m.rows()) throw NoMatch();
		return T(v.m);
	}
};
inline Value toValue() { return Value(); }
template <class T> Value toValue(const T& x) { return Value(x); }
inline Value toValue(const long& x) { return Value((int)x); }
inline Value toValue(const unsigned& x) { return Value((int)x); }
inline Value toValue(const unsigned long& x) { return Value((int)x); }

struct arg_v;
struct arg {
	const char* name;
	explicit arg(const char* n = "") : name(n) {}
	template <class T> arg_v operator=(T&& x) const;
	arg& noconvert(bool = true) { return *this; }
	arg& none(bool = true) { return *this; }
};
struct arg_v : arg { Value value; arg_v(const char* n, const Value& v) : arg(n), value(v) {} };
template <class T> arg_v arg::operator=(T&& x) const { return arg_v(name, Value(x)); }
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
struct kw_only {}; struct pos_only {}; struct doc { const char* value; doc(const char* v) : value(v) {} };
struct name { const char* value; name(const char* v) : value(v) {} };
struct is_method {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <size_t A, size_t B> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};

struct Param { std::string name; bool hasDefault = false; Value def; };
struct Method {
	std::string doc;
	size_t nargs = 0;                              // without self
	bool isStatic = false;
	std::vector<Param> params;
	std::function<Value(void*, const std::vector<Value>&)> call;
};
struct ClassRec {
	std::string name, doc;
	std::map<std::string, std::vector<Method>> methods;
	std::function<void*()> make;
	std::function<void(void*)> del;
};
struct ModuleRec { std::string name, doc; std::vector<std::unique_ptr<ClassRec>> classes; };
struct module_ { ModuleRec* rec; std::string& doc() { return rec->doc; } template <class... X> module_& def(const char*, X&&...) { return *this; } };
typedef module_ module;

namespace detail {
inline void extra(Method& m, const char* d) { m.doc = d; }
inline void extra(Method& m, const doc& d) { m.doc = d.value; }
inline void extra(Method& m, const arg& a) { m.params.push_back(Param{a.name, false, Value()}); }
inline void extra(Method& m, const arg_v& a) { m.params.push_back(Param{a.name, true, a.value}); }
inline void extra(Method&, const return_value_policy&) {}
inline void extra(Method&, const kw_only&) {}
inline void extra(Method&, const pos_only&) {}
inline void extra(Method&, const is_method&) {}
template <size_t A, size_t B> void extra(Method&, const keep_alive<A, B>&) {}
template <class... T> void extra(Method&, const call_guard<T...>&) {}
inline void extras(Method&) {}
template <class X, class... Y> void extras(Method& m, const X& x, const Y&... y) { extra(m, x); extras(m, y...); }
template <class T> struct is_arg : std::is_base_of<arg, T> {};
template <class... X> constexpr int countArgs() { return (0 + ... + (is_arg<std::decay_t<X>>::value ? 1 : 0)); }

template <class R, class F, class... A, size_t... I> Value invoke(F f, const std::vector<Value>& v, std::index_sequence<I...>) {
	std::tuple<std::decay_t<A>...> t{caster<std::decay_t<A>>::get(v[I])...};
	if constexpr (std::is_void<R>::value) { f(std::get<I>(t)...); return Value(); }
	else return toValue(std::decay_t<R>(f(std::get<I>(t)...)));
}
template <class C, class R, class... A, class F> void bindCall(Method& m, F f) {
	m.nargs = sizeof...(A);
	m.call = [f](void* self, const std::vector<Value>& v) {
		C* o = (C*)self;
		auto g = [&](auto&&... a) -> R { return f(*o, std::forward<decltype(a)>(a)...); };
		return invoke<R, decltype(g), A...>(g, v, std::index_sequence_for<A...>());
	};
}
template <class T> struct fn : fn<decltype(&T::operator())> {};
template <class L, class R, class S, class... A> struct fn<R (L::*)(S, A...) const> { typedef R ret; typedef S self; template <class C, class F> static void bind(Method& m, F f) { static_assert(std::is_same<std::decay_t<std::remove_pointer_t<S>>, C>::value, "self"); bindCall<C, R, A...>(m, [f](C& o, auto&&... a) -> R { if constexpr (std::is_pointer<S>::value) return f(&o, std::forward<decltype(a)>(a)...); else return f(o, std::forward<decltype(a)>(a)...); }); } };
template <class R, class S, class... A> struct fn<R (*)(S, A...)> { template <class C, class F> static void bind(Method& m, F f) { static_assert(std::is_same<std::decay_t<std::remove_pointer_t<S>>, C>::value, "self"); bindCall<C, R, A...>(m, [f](C& o, auto&&... a) -> R { if constexpr (std::is_pointer<S>::value) return f(&o, std::forward<decltype(a)>(a)...); else return f(o, std::forward<decltype(a)>(a)...); }); } };
}
template <class... A> struct init {};
template <class C> class class_ {
	ClassRec* r;
	template <class... X> void add(const char* name, Method m, const X&... x) {
		detail::extras(m, x...);
		static_assert(detail::countArgs<X...>() >= 0, "");
		if (!m.params.empty() && m.params.size() != m.nargs) throw std::logic_error(std::string("binding of ") + name + ": number of py::arg differs from the number of arguments");
		r->methods[name].push_back(m);
	}
public:
	template <class... X> class_(module_& m, const char* name, const X&...) { m.rec->classes.emplace_back(new ClassRec()); r = m.rec->classes.back().get(); r->name = name; r->del = [](void* p) { delete (C*)p; }; }
	template <class... X> class_& def(init<>, const X&...) { r->make = []() -> void* { return new C(); }; return *this; }
	template <class A0, class... A, class... X> class_& def(init<A0, A...>, const X&...) { return *this; }
	template <class R, class B, class... A, class... X> class_& def(const char* name, R (B::*f)(A...), const X&... x) {
		static_assert(std::is_base_of<B, C>::value, "method of another class");
		static_assert(detail::countArgs<X...>() == 0 || detail::countArgs<X...>() == sizeof...(A), "the number of py::arg annotations differs from the number of arguments");
		Method m; detail::bindCall<C, R, A...>(m, [f](C& o, auto&&... a) -> R { return (o.*f)(std::forward<decltype(a)>(a)...); }); add(name, m, x...); return *this;
	}
	template <class R, class B, class... A, class... X> class_& def(const char* name, R (B::*f)(A...) const, const X&... x) {
		static_assert(std::is_base_of<B, C>::value, "method of another class");
		static_assert(detail::countArgs<X...>() == 0 || detail::countArgs<X...>() == sizeof...(A), "the number of py::arg annotations differs from the number of arguments");
		Method m; detail::bindCall<C, R, A...>(m, [f](C& o, auto&&... a) -> R { return (o.*f)(std::forward<decltype(a)>(a)...); }); add(name, m, x...); return *this;
	}
	template <class F, class... X, class = std::enable_if_t<!std::is_member_function_pointer<F>::value>> class_& def(const char* name, F f, const X&... x) { Method m; detail::fn<F>::template bind<C>(m, f); add(name, m, x...); return *this; }
	template <class F, class... X> class_& def_static(const char*, F, const X&...) { return *this; }
	template <class P, class... X> class_& def_readonly(const char*, P, const X&...) { return *this; }
	template <class P, class... X> class_& def_readwrite(const char*, P, const X&...) { return *this; }
	template <class P, class... X> class_& def_property_readonly(const char*, P, const X&...) { return *this; }
	template <class P, class Q, class... X> class_& def_property(const char*, P, Q, const X&...) { return *this; }
};

// Python's call: positional arguments, then keywords, then defaults; overloads in order
inline Value callMethod(const std::vector<Method>& ov, void* self, const std::vector<Value>& pos, const std::map<std::string, Value>& kw) {
	for (auto& m : ov) {
		if (pos.size() > m.nargs) continue;
		std::vector<Value> v = pos;
		size_t used = 0;
		bool ok = true;
		for (size_t i = 0; i < pos.size() && i < m.params.size(); i++) if (kw.count(m.params[i].name)) ok = false;
		for (size_t i = pos.size(); i < m.nargs && ok; i++) {
			if (i >= m.params.size()) { ok = false; break; }
			auto k = kw.find(m.params[i].name);
			if (k != kw.end()) { v.push_back(k->second); used++; }
			else if (m.params[i].hasDefault) v.push_back(m.params[i].def);
			else ok = false;
		}
		if (!ok || used != kw.size()) continue;
		try { return m.call(self, v); } catch (NoMatch&) {}
	}
	throw type_error("incompatible function arguments");
}
}
#define PYBIND11_MODULE(NAME, var, ...) \
	static void pb_init_##NAME(pybind11::module_&); \
	extern "C" __attribute__((visibility("default"))) void* PyInit_##NAME() { auto* r = new pybind11::ModuleRec(); r->name = #NAME; pybind11::module_ m{r}; pb_init_##NAME(m); return r; } \
	extern "C" __attribute__((visibility("default"))) void* pb_open() { return PyInit_##NAME(); } \
	static void pb_init_##NAME(pybind11::module_& var)
