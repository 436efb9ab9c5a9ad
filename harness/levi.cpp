#include "levi.h"
using namespace vh;
using namespace lv;
namespace {
// [n, e]: the value is exactly n / 2^e, in lowest terms
std::string dyadic(double v) {
    if (!std::isfinite(v)) return "[0,-1]";
    for (int k = 0; k <= 24; ++k) { double x = std::ldexp(v, k); if (std::fabs(x) > 2e9) break; if (x == std::round(x)) return "[" + std::to_string(long(x)) + "," + std::to_string(v == 0 ? 0 : k) + "]"; }
    return "[1,-1]";
}
template <class T> std::string dump(const T& m) {
    if constexpr (std::is_arithmetic<T>::value) return "[" + dyadic(m) + "]";
    else return list(m.size(), [&](size_t k) { return dyadic(m(k / m.cols(), k % m.cols())); });
}
template <class T> long nrows(const T& m) { if constexpr (std::is_arithmetic<T>::value) return 1; else return m.rows(); }
template <class T> long ncols(const T& m) { if constexpr (std::is_arithmetic<T>::value) return 1; else return m.cols(); }
template <class Ex> Out look(Ex& e) {
    Out o; const auto& m = e.evaluate();
    o.k("r", nrows(m)).k("c", ncols(m)).k("er", long(e.rows())).k("ec", long(e.cols())).k("nul", e.isNull()).k("v", dump(m));
    return o;
}
struct Leaf {          // a variable or a mutable, of any static type
    std::function<void(const J&)> set; std::function<void(Slot&)> leaf; std::shared_ptr<levi::VariableBase> var;
};
struct World {
    std::map<std::string, Leaf> g;
    std::vector<Slot> sl; long serial = 0;
#ifdef LEVI_COMPILED
    levi::DefaultMultipleCompiledOutputPointer sq;
#else
    levi::DefaultMultipleSqueezedOutputPointer sq;
#endif
    size_t nsq = 0;
    World() : sl(13) {}
    void declare(const std::string& n, const J& d, int dim) {
        Leaf f;
        typed(d["ty"].s[0], [&](auto tag) {
            using T = typename decltype(tag)::type;
            auto value = [dim](const J& x) { J c; c.o["r"].n = dim; c.o["c"].n = 1; c.o["n"] = x; return literal<T>(c); };
            if (d["k"].s == "var") {
                if constexpr (colsOf<T>() == 1) {
                    auto v = std::make_shared<levi::ExpressionComponent<levi::EvaluableVariable<T>>>(dim, n);
                    f.set = [v, value](const J& x) { *v = value(x); };
                    f.leaf = [v](Slot& s) { E<T> e = *v; put(s, e); };
                    f.var = v->evaluable().lock();
                }
            } else {
                if constexpr (!std::is_arithmetic<T>::value) {
                    auto v = std::make_shared<levi::ExpressionComponent<levi::MutableEvaluable<T>>>(dim, 1, n);
                    f.set = [v, value](const J& x) { *v = value(x); };
                    f.leaf = [v](Slot& s) { E<T> e = *v; put(s, e); };
                }
            }
        });
        if (!f.set) { fprintf(stderr, "bad declaration\n"); exit(3); }
        g[n] = f;
    }
};
template <class T> void unaryMore(Slot& dst, E<T>& x, const J& c) {
    const std::string f = c["f"].s;
    constexpr int r = rowsOf<T>(), k = colsOf<T>();
    int i = c["i"].i() - 1, j = c["j"].i() - 1;
    if (f == "skew") { if constexpr (fit(r, 3) && fit(k, 1) && !std::is_arithmetic<T>::value) put(dst, x.skew()); else put(dst, E<X>(x).skew()); }
    else if (f == "vee") { if constexpr (fit(r, 3) && fit(k, 3) && !std::is_arithmetic<T>::value) put(dst, x.vee()); else put(dst, E<X>(x).vee()); }
    else if (f == "pow") { if constexpr (fit(r, 1) && fit(k, 1)) put(dst, x.pow(c["i"].i())); else put(dst, E<X>(x).pow(c["i"].i())); }
    else if (f == "row") { if constexpr (std::is_arithmetic<T>::value) put(dst, E<X>(x).row(i)); else put(dst, x.row(i)); }
    else if (f == "col") { if constexpr (std::is_arithmetic<T>::value) put(dst, E<X>(x).col(i)); else put(dst, x.col(i)); }
    else if (f == "el") { if constexpr (std::is_arithmetic<T>::value) put(dst, E<X>(x)(i, j)); else put(dst, x(i, j)); }
    else if (f == "blk") { if constexpr (std::is_arithmetic<T>::value) put(dst, E<X>(x).block(i, j, 1, 1)); else put(dst, x.block(i, j, c["r"].i(), c["c"].i())); }
    else if (f == "fblk") {
        auto go = [&](auto& y) {
            int p = c["r"].i(), q = c["c"].i();
            using Y = typename valueOf<std::decay_t<decltype(y)>>::type; constexpr int yr = rowsOf<Y>(), yk = colsOf<Y>();
            constexpr bool r1 = true, r2 = yr != 1, r3 = yr != 1, c2 = yk != 1;
            if (p == 1 && q == 1) put(dst, y.template block<1, 1>(i, j));
            else if (p == 2 && q == 1) { if constexpr (r2) put(dst, y.template block<2, 1>(i, j)); else exit(3); }
            else if (p == 3 && q == 1) { if constexpr (r3) put(dst, y.template block<3, 1>(i, j)); else exit(3); }
            else if (p == 1 && q == 2) { if constexpr (c2) put(dst, y.template block<1, 2>(i, j)); else exit(3); }
            else if (p == 2 && q == 2) { if constexpr (r2 && c2) put(dst, y.template block<2, 2>(i, j)); else exit(3); }
            else exit(3);
        };
        if constexpr (std::is_arithmetic<T>::value) { E<X> y(x); go(y); } else go(x);
    } else { fprintf(stderr, "unknown operation\n"); exit(3); }
}
// Run-time compilation (property C26) takes the place of squeezing when the harness is built with it.
#ifdef LEVI_COMPILED
std::string freshName() { static long k = 0; ++k; const std::string n = std::to_string(k);
    switch (k % 4) { case 0: return "compiled " + n; case 1: return "compiled_" + n; case 2: return "Compiled" + n; default: return "compiled(" + n + ")"; } }
template <class T> auto flattened(E<T>& x, World&) { return E<X>(x).compile(freshName()); }
#else
template <class T> auto flattened(E<T>& x, World& w) { return x.squeeze("squeezed" + std::to_string(++w.serial)); }
#endif
template <class T> void unary(Slot& dst, E<T>& x, const J& c, World& w) {
    const std::string f = c["f"].s;
    if (f == "neg") put(dst, -x); else if (f == "pos") put(dst, +x); else if (f == "copy") put(dst, x);
    else if (f == "tr") { if constexpr (std::is_arithmetic<T>::value) put(dst, E<X>(x).transpose()); else put(dst, x.transpose()); }
    else if (f == "cast") typed(c["ty"].s[0], [&](auto tag) { using U = typename decltype(tag)::type;
        if constexpr (fit(rowsOf<U>(), rowsOf<T>()) && fit(colsOf<U>(), colsOf<T>())) put(dst, E<U>(x)); else put(dst, E<U>(E<X>(x))); });
    else if (f == "sq") put(dst, flattened(x, w));
    else unaryMore(dst, x, c);
}
void compose(Slot& dst, const World& w, const J& c, bool rows) {
    const J& l = c["l"]; std::string name = "composed" + std::to_string(w.serial);
    E<X> first = asX(w.sl[l[0].i()]); bool fixed = l.size() == 3 && c["fx"].i() && (rows ? first.cols() : first.rows()) == 3;
    if (rows) {
        if (fixed) { std::vector<E<R>> v; for (auto& k : l.a) v.emplace_back(E<R>(asX(w.sl[k.i()]))); put(dst, E<M>::ComposeByRows(v, name)); }
        else { std::vector<E<Q>> v; for (auto& k : l.a) v.emplace_back(E<Q>(asX(w.sl[k.i()]))); put(dst, levi::ComposeByRows(v, name)); }
    } else {
        if (fixed) { std::vector<E<V>> v; for (auto& k : l.a) v.emplace_back(E<V>(asX(w.sl[k.i()]))); put(dst, E<M>::ComposeByCols(v, name)); }
        else { std::vector<E<W>> v; for (auto& k : l.a) v.emplace_back(E<W>(asX(w.sl[k.i()]))); put(dst, levi::ComposeByCols(v, name)); }
    }
}
void asVariable(World& w, const J& c) {
    static const char* names[] = {"y", "y", "y", "w", "w", "", "", "", "s", "t"}; static const int idx[] = {0, 1, 2, 0, 1, 0, 0, 0, 0, 0};
    std::vector<E<Q>> rows;
    for (auto& terms : c["d"].a) {
        std::vector<E<X>> parts;
        for (auto& t : terms.a) { Slot s, e; int k = t[0].i() - 1; w.g[names[k]].leaf(s);
            E<X> x = asX(s); E<X> el = x(idx[k], 0); parts.push_back(t[1].i() == 1 ? el : E<X>(-el)); }
        E<X> sum = parts[0]; for (size_t i = 1; i < parts.size(); ++i) { E<X> n = sum + parts[i]; sum = n; }
        rows.emplace_back(E<Q>(sum));
    }
    auto def = levi::ComposeByRows(rows, "definitionOfA");
    E<X> d = def;
    Leaf f;
    if (c["fx"].i()) { E<V> dv = d;
        auto v = std::make_shared<levi::ExpressionComponent<levi::EvaluableVariable<V>>>(c["k"].s == "dep" ? dv.asVariable() : dv.asIndependentVariable());
        f.leaf = [v](Slot& s) { E<V> e = *v; put(s, e); }; f.var = v->evaluable().lock();
    } else {
        auto v = std::make_shared<levi::ExpressionComponent<levi::EvaluableVariable<W>>>(c["k"].s == "dep" ? d.asVariable() : d.asIndependentVariable());
        f.leaf = [v](Slot& s) { E<W> e = *v; put(s, e); }; f.var = v->evaluable().lock();
    }
    w.g["a"] = f;
}
}
int main(int argc, char** argv) {
#ifdef LEVI_COMPILED // compiled expressions leave their files in a directory of this process
    const std::string script = std::string(argc > 1 ? argv[1] : "/tmp/x"), dir = script + ".d";
    if (system(("rm -rf '" + dir + "' && mkdir -p '" + dir + "'").c_str())) return 3;
    setenv("PATH", (std::string(LEVI_STANDIN) + ":" + getenv("PATH")).c_str(), 1); setenv("VERIF_STANDIN", LEVI_STANDIN_I, 1);
    std::ifstream there(script); if (!there || chdir(dir.c_str())) return 3;
#endif
    std::unique_ptr<World> W_(new World());
    return run(argc, argv, [&](const J& c, Out& o) {
        World& w = *W_; std::string op = c["op"].s;
        auto at = [&](const char* k) -> Slot& { return w.sl.at(c[k].i()); };
        if (op == "reset") W_.reset(new World());
        else if (op == "world") { W_.reset(new World()); World& n = *W_; n.declare("y", c["y"], 3); n.declare("w", c["w"], 2); n.declare("s", c["s"], 1); n.declare("t", c["t"], 1);
            J one; one.t = J::Arr; one.a.resize(1); one.a[0].n = 1; n.g["s"].set(one); n.g["t"].set(one);
            J z; z.t = J::Arr; z.a.resize(3); n.g["y"].set(z); z.a.resize(2); n.g["w"].set(z); }
        else if (op == "set") w.g[c["g"].s].set(c["x"]);
        else if (op == "leaf") w.g[c["g"].s].leaf(at("dst"));
        else if (op == "const") typed(c["ty"].s[0], [&](auto tag) { using T = typename decltype(tag)::type;
            if constexpr (std::is_arithmetic<T>::value) { levi::ExpressionComponent<levi::ConstantEvaluable<T>> k(literal<T>(c)); put(at("dst"), E<T>(k)); }
            else { levi::ExpressionComponent<levi::ConstantEvaluable<T>> k(literal<T>(c), "const" + std::to_string(++w.serial)); put(at("dst"), E<T>(k)); } });
        else if (op == "null") typed(c["ty"].s[0], [&](auto tag) { using T = typename decltype(tag)::type; levi::ExpressionComponent<levi::NullEvaluable<T>> k(c["r"].i(), c["c"].i()); put(at("dst"), E<T>(k)); });
        else if (op == "eye") typed(c["ty"].s[0], [&](auto tag) { using T = typename decltype(tag)::type; 
            if constexpr (std::is_arithmetic<T>::value) { levi::ExpressionComponent<levi::IdentityEvaluable<X>> k(1, 1); put(at("dst"), E<D>(E<X>(k))); }
            else { levi::ExpressionComponent<levi::IdentityEvaluable<T>> k(c["r"].i(), c["c"].i()); put(at("dst"), E<T>(k)); } });
        else if (op == "un") { Slot r; with(at("a"), [&](auto& x) { auto y = x; unary(r, y, c, w); }); at("dst") = std::move(r); }
        else if (op == "bin") { Slot r; std::string f = c["f"].s; const Slot &a = at("a"), &b = at("b");
            if (f == "add") add(r, a, b); else if (f == "sub") sub(r, a, b); else if (f == "mul") mul(r, a, b); else if (f == "div") divide(r, a, b);
            else cat(r, a, b, f == "hcat", f + std::to_string(++w.serial)); at("dst") = std::move(r); }
        else if (op == "lit") { Slot r; lit(r, at("a"), c); at("dst") = std::move(r); }
        else if (op == "rows" || op == "cols") { Slot r; ++w.serial; compose(r, w, c, op == "rows"); at("dst") = std::move(r); }
        else if (op == "deriv") { Slot r; with(at("a"), [&](auto& x) { put(r, x.getColumnDerivative(c["col"].i() - 1, w.g[c["g"].s].var)); }); at("dst") = std::move(r); }
        else if (op == "clear") std::visit([&](auto& x) { if constexpr (!std::is_same<std::decay_t<decltype(x)>, std::monostate>::value) x.clearDerivativesCache(); }, at("a"));
        else if (op == "dep") with(at("a"), [&](auto& x) { o.k("ret", x.isDependentFrom(w.g[c["g"].s].var)); });
        else if (op == "new") with(at("a"), [&](auto& x) { o.k("ret", x.isNew()); });
        else if (op == "drop") at("dst") = std::monostate();
        else if (op == "void") { std::visit([&](auto& x) { using Ex = std::decay_t<decltype(x)>; if constexpr (!std::is_same<Ex, std::monostate>::value) {
            if constexpr (std::is_same<typename valueOf<Ex>::type, X>::value) { E<W> none; x = none; } else { E<X> none; x = none; } } }, at("dst")); at("dst") = std::monostate(); }
        else if (op == "assign") { // into an existing handle of any type
            std::visit([&](auto& d) { using Ed = std::decay_t<decltype(d)>; if constexpr (!std::is_same<Ed, std::monostate>::value) {
                using U = typename valueOf<Ed>::type;
                with(at("a"), [&](auto& x) { using T = typename valueOf<std::decay_t<decltype(x)>>::type;
                    if constexpr (fit(rowsOf<U>(), rowsOf<T>()) && fit(colsOf<U>(), colsOf<T>())) d = x; else { E<X> y(x); d = y; } }); } }, at("dst")); }
        else if (op == "asvar") asVariable(w, c);
        else if (op == "root") { const double e = c["e"].i(); levi::ScalarVariable x("x"); x = std::pow(2.0, e * c["m"].i()); E<double> p = x.pow(1.0 / e); auto q = flattened(p, w);
            X r(1, 1); r.setConstant(E<X>(q).evaluate()(0, 0));
            o.k("obs", long(std::llround(r(0, 0) * std::pow(2.0, 28)))); }
        else if (op == "msq") { levi::DefaultMultipleExpressionsMap m; for (size_t i = 0; i < c["l"].size(); ++i) m["e" + std::to_string(i)] = asX(w.sl.at(c["l"][i].i()));
            w.nsq = m.size();
#ifdef LEVI_COMPILED
            w.sq = levi::CompileMultipleExpressions(m, freshName()); }
#else
            w.sq = levi::SqueezeMultipleExpressions(m); }
#endif
        else if (op == "evalq") { const auto& r = w.sq->evaluate(); o.k("n", r.size());
            o.k("obs", list(w.nsq, [&](size_t i) { auto it = r.find("e" + std::to_string(i)); return it == r.end() ? std::string("[]") : dump(it->second); })); }
        else if (op == "eval") with(at("a"), [&](auto& x) { Out ob;
            auto& y = const_cast<std::decay_t<decltype(x)>&>(x);
            if (c["f"].s == "self") ob = look(y); else if (c["f"].s == "copy") { auto z = y; ob = look(z); } else { E<X> z(y); ob = look(z); }
            o.k("obs", ob.obj()); });
        else if (op == "evalp") { Slot r; with(at("a"), [&](auto& x) { auto y = x; unary(r, y, c, w); }); std::visit([&](auto& x) { if constexpr (!std::is_same<std::decay_t<decltype(x)>, std::monostate>::value) { Out ob = look(x); o.k("obs", ob.obj()); } }, r); }
        else if (op == "all") o.k("obs", list(12, [&](size_t k) { std::string s = "[]"; std::visit([&](auto& x) { if constexpr (!std::is_same<std::decay_t<decltype(x)>, std::monostate>::value) s = dump(x.evaluate()); }, w.sl[k + 1]); return s; }));
        else { fprintf(stderr, "unknown command\n"); exit(3); }
    });
}
