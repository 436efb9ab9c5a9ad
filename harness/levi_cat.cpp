#include "levi.h"
namespace lv {
void cat(Slot& dst, const Slot& a, const Slot& b, bool h, const std::string& name) {
    with(a, [&](auto& x) { with(b, [&](auto& y) {
        using A = typename valueOf<std::decay_t<decltype(x)>>::type; using B = typename valueOf<std::decay_t<decltype(y)>>::type;
        if constexpr (std::is_arithmetic<A>::value || std::is_arithmetic<B>::value) { put(dst, h ? E<X>::Horzcat(asX(a), asX(b), name) : E<X>::Vertcat(asX(a), asX(b), name)); }
        else if (h) {
            if constexpr (rowsOf<A>() == rowsOf<B>() || rowsOf<A>() * rowsOf<B>() < 0) {
                if constexpr (rowsOf<A>() == 3 && rowsOf<B>() == 3) put(dst, E<N>::Horzcat(x, y, name));
                else if constexpr (rowsOf<A>() == 1 && rowsOf<B>() == 1) put(dst, E<Q>::Horzcat(x, y, name));
                else put(dst, E<X>::Horzcat(x, y, name));
            } else put(dst, E<X>::Horzcat(asX(a), asX(b), name));
        } else {
            if constexpr (colsOf<A>() == colsOf<B>() || colsOf<A>() * colsOf<B>() < 0) {
                if constexpr (colsOf<A>() == 1 && colsOf<B>() == 1) put(dst, E<W>::Vertcat(x, y, name));
                else put(dst, E<X>::Vertcat(x, y, name));
            } else put(dst, E<X>::Vertcat(asX(a), asX(b), name));
        } }); });
}
struct Dim { Eigen::Index r, c; Eigen::Index rows() { return r; } Eigen::Index cols() { return c; } };
template <class P, class Ex> bool fits(const vh::J& c, Ex& x, bool left) { Dim d{c["r"].i(), c["c"].i()}; return left ? holds<P>(d, x) : holds<P>(x, d); }
// an operand written as a number or as a matrix
void lit(Slot& dst, const Slot& a, const vh::J& c) {
    const std::string f = c["f"].s; bool left = c["left"].i();
    auto go = [&](auto& x, auto l) {
        using Ex = std::decay_t<decltype(x)>; using L = decltype(l);
        if (f == "add") { if constexpr (canAdd<TY(x), L>()) { if (left) put(dst, l + x); else put(dst, x + l); } else put(dst, left ? literal<X>(c) + asX(a) : asX(a) + literal<X>(c)); }
        else if (f == "sub") { if constexpr (canAdd<TY(x), L>()) { if (left) put(dst, l - x); else put(dst, x - l); } else put(dst, left ? literal<X>(c) - asX(a) : asX(a) - literal<X>(c)); }
        else if (f == "mul") {
            if (left) { bool done = false; if constexpr (canMul<L, TY(x)>()) { if (fits<TY(l * x)>(c, x, true)) { put(dst, l * x); done = true; } } if (!done) put(dst, literal<X>(c) * asX(a)); }
            else { bool done = false; if constexpr (canMul<TY(x), L>()) { if (fits<TY(x * l)>(c, x, false)) { put(dst, x * l); done = true; } } if (!done) put(dst, asX(a) * literal<X>(c)); } }
        else if (left) { using T = typename valueOf<Ex>::type;
            if constexpr (fit(rowsOf<T>(), 1) && fit(colsOf<T>(), 1)) put(dst, l / x); else put(dst, l / asX(a)); }
        else { if constexpr (std::is_arithmetic<L>::value) put(dst, x / l); else put(dst, x / literal<D>(c)); }
    };
    with(a, [&](auto& x) {
        switch (c["ty"].s[0]) { case 'D': go(x, literal<D>(c)); break; case 'V': go(x, literal<V>(c)); break; case 'M': go(x, literal<M>(c)); break;
            default: go(x, literal<X>(c)); } });
}
}
