#include "levi.h"
namespace lv {
void mul(Slot& dst, const Slot& a, const Slot& b) {
    with(a, [&](auto& x) { with(b, [&](auto& y) {
        if constexpr (canMul<TY(x), TY(y)>()) { if (holds<TY(x * y)>(x, y)) { put(dst, x * y); return; } }
        put(dst, asX(a) * asX(b)); }); });
}
void divide(Slot& dst, const Slot& a, const Slot& b) {
    with(a, [&](auto& x) { with(b, [&](auto& y) {
        using T = typename valueOf<std::decay_t<decltype(y)>>::type;
        if constexpr (fit(rowsOf<T>(), 1) && fit(colsOf<T>(), 1)) put(dst, x / y); else put(dst, asX(a) / asX(b)); }); });
}
}
