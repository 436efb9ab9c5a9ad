#include "levi.h"
namespace lv {
void add(Slot& dst, const Slot& a, const Slot& b) {
    with(a, [&](auto& x) { with(b, [&](auto& y) {
        if constexpr (canAdd<TY(x), TY(y)>()) put(dst, x + y); else put(dst, asX(a) + asX(b)); }); });
}
void sub(Slot& dst, const Slot& a, const Slot& b) {
    with(a, [&](auto& x) { with(b, [&](auto& y) {
        if constexpr (canAdd<TY(x), TY(y)>()) put(dst, x - y); else put(dst, asX(a) - asX(b)); }); });
}
}
