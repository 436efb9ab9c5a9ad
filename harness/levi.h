// Conformance harness of the expression library: slots of typed expressions.
// (every operator is instantiated for every pair of these types for which the library defines it)
#pragma once
#include "vh.h"
#undef eigen_assert
#define eigen_assert(x) do { if (!(x)) { fprintf(stderr, "eigen assertion: %s\n", #x); abort(); } } while (0)
#include <levi/levi.h>
#include <variant>
#include <functional>
namespace lv {
using D = double; using V = Eigen::Vector3d; using R = Eigen::RowVector3d; using M = Eigen::Matrix3d;
using W = Eigen::VectorXd; using X = Eigen::MatrixXd; using N = Eigen::Matrix<double, 3, -1>; using Q = Eigen::Matrix<double, 1, -1>;
template <class T> using E = levi::ExpressionComponent<levi::Evaluable<T>>;
using Slot = std::variant<std::monostate, E<D>, E<V>, E<R>, E<M>, E<W>, E<X>, E<N>, E<Q>>;
template <class T, class... L> constexpr bool in() { return (std::is_same<T, L>::value || ...); }
#define TY(x) typename lv::valueOf<std::decay_t<decltype(x)>>::type
template <class T> constexpr bool listed = in<T, D, V, R, M, W, X, N, Q>();
template <class T> struct valueOf;
template <class Ev> struct valueOf<levi::ExpressionComponent<Ev>> { using type = typename Ev::matrix_type; };
template <class T> constexpr int rowsOf() { if constexpr (std::is_arithmetic<T>::value) return 1; else return T::RowsAtCompileTime; }
template <class T> constexpr int colsOf() { if constexpr (std::is_arithmetic<T>::value) return 1; else return T::ColsAtCompileTime; }
// may an expression of type T be seen as one with these compile time sizes
constexpr bool fit(int a, int b) { return a == b || a == -1 || b == -1; }
template <class T> constexpr bool isD() { return std::is_arithmetic<T>::value; }
// pairs of types whose sum, or product, the library lets one write
template <class A, class B> constexpr bool canAdd() { return (isD<A>() && isD<B>()) || (!isD<A>() && !isD<B>() && fit(rowsOf<A>(), rowsOf<B>()) && fit(colsOf<A>(), colsOf<B>())
    && !((rowsOf<A>() == 1 || rowsOf<B>() == 1) && (colsOf<A>() == 1 || colsOf<B>() == 1))); }
template <class A, class B> constexpr bool canMul() { return isD<A>() || isD<B>() || fit(colsOf<A>(), rowsOf<B>()); }
template <class Ex> void put(Slot& s, const Ex& e) {
    using T = typename valueOf<Ex>::type;
    if constexpr (listed<T>) { E<T> keep = e; s.template emplace<E<T>>(keep); }
    else { E<X> keep = e; s.template emplace<E<X>>(keep); }
}
inline E<X> asX(const Slot& s) {
    E<X> r; bool ok = false;
    std::visit([&](auto& e) { if constexpr (!std::is_same<std::decay_t<decltype(e)>, std::monostate>::value) { E<X> t(e); r = t; ok = true; } }, s);
    if (!ok) { fprintf(stderr, "empty slot\n"); exit(3); }
    return r;
}
// calls f(expression) with the static type of the slot
template <class F> void with(const Slot& s, F f) {
    std::visit([&](auto& e) { if constexpr (!std::is_same<std::decay_t<decltype(e)>, std::monostate>::value) f(e); else { fprintf(stderr, "empty slot\n"); exit(3); } }, s);
}
// calls f(type tag) for the type named by a letter
template <class T> struct Tag { using type = T; };
template <class F> void typed(char c, F f) {
    switch (c) {
    case 'D': f(Tag<D>()); break; case 'V': f(Tag<V>()); break; case 'R': f(Tag<R>()); break; case 'M': f(Tag<M>()); break;
    case 'W': f(Tag<W>()); break; case 'N': f(Tag<N>()); break; case 'Q': f(Tag<Q>()); break; default: f(Tag<X>()); }
}
template <class T> T literal(const vh::J& c) {
    double sc = std::ldexp(1.0, -c["e"].i());
    if constexpr (std::is_arithmetic<T>::value) return c["n"][0].d() * sc;
    else { T m(c["r"].i(), c["c"].i()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = c["n"][i * m.cols() + j].d() * sc; return m; }
}
// do the sizes of a product (with the scalar rule) fit the type the library gives it
inline bool one(const Eigen::Index* d) { return d[0] == 1 && d[1] == 1; }
template <class P, class Ea, class Eb> bool holds(Ea& a, Eb& b) {
    Eigen::Index x[2] = {a.rows(), a.cols()}, y[2] = {b.rows(), b.cols()}, z[2] = {one(x) ? y[0] : x[0], one(y) ? x[1] : y[1]};
    return fit(rowsOf<P>(), z[0]) && fit(colsOf<P>(), z[1]);
}
void add(Slot& dst, const Slot& a, const Slot& b);
void sub(Slot& dst, const Slot& a, const Slot& b);
void mul(Slot& dst, const Slot& a, const Slot& b);
void divide(Slot& dst, const Slot& a, const Slot& b);
void cat(Slot& dst, const Slot& a, const Slot& b, bool horizontal, const std::string& name);
void lit(Slot& dst, const Slot& a, const vh::J& c);
}
