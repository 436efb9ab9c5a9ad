#include "terms.h"
using namespace vh;
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    bool oneShot = argc > 2 && std::string(argv[2]) == "fresh";   // every call on an object of its own
    bool shared = argc > 2 && std::string(argv[2]) == "shared";   // all terms on the same robot data and expressions
    World w; std::map<int, std::unique_ptr<TermObj>> ts;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") { ts.clear(); }
        else if (op == "world") { ts.clear(); w.set(c); }
        else if (op == "term") { auto t = std::make_unique<TermObj>(); t->build(w, c, shared); ts[c["id"].i()] = std::move(t); }
        else {
            TermObj* t = ts.at(c["id"].i()).get(); std::unique_ptr<TermObj> fresh;
            if (oneShot && op != "set") { fresh.reset(new TermObj()); fresh->build(w, t->def); for (auto& s : t->sets) fresh->set(s); t = fresh.get(); }
            if (op == "set") ret = t->set(c);
            else if (op == "bounds") {
                VectorDynSize lo, up; if (!t->con) exit(3);
                lo.resize(t->con->constraintSize()); up.resize(t->con->constraintSize());
                bool hl = t->con->getLowerBound(lo), hu = t->con->getUpperBound(up);
                o.k("lo", hl ? nums(lo, lo.size(), 200) : "[]").k("up", hu ? nums(up, up.size(), 200) : "[]").k("size", t->con->constraintSize()); }
            else if (op == "sparsity") { oc::SparsityStructure s; ret = t->sparsity(c["fn"].s, s);
                o.k("out", list(s.size(), [&](size_t i) { auto e = s[i]; return "[" + std::to_string(e.row + 1) + "," + std::to_string(e.col + 1) + "]"; })); }
            else if (op == "probe") {   // a few entries of the answer
                VectorDynSize x = vec(c["x"]), u = vec(c["u"]), lam = vec(c["lam"]); std::string fn = c["fn"].s;
                auto jr = w.st.getIndexRange("JointsPosition"); for (int k = 0; k < jr.size; ++k) x(jr.offset + k) *= M_PI / 2;
                std::vector<TermObj::E> es; ret = t->eval(w, fn, c["t"].d(), x, u, lam, es);
                std::map<std::pair<size_t, size_t>, double> m; for (auto& e : es) { if (e.i == 0) exit(4); m[{e.i, e.j}] = e.v; }
                auto at = [&](size_t i, size_t j) { auto it = m.find({i, j}); return scaled(it == m.end() ? 0.0 : it->second, c["s"].d(), 1e-4); };
                std::vector<long> r; size_t rows = t->con ? t->con->constraintSize() : 1;
                if (fn == "val") for (size_t i = 1; i <= rows; ++i) r.push_back(at(i, 1));
                else if (fn == "jx" || fn == "ju") for (auto& p : c["probes"].a) for (size_t i = 1; i <= rows; ++i) r.push_back(at(i, p[0].i()));
                else for (auto& p : c["probes"].a) r.push_back(at(p[0].i(), p[1].i()));
                o.k("out", list(r.size(), [&](size_t i) { return std::to_string(r[i]); }));
                if (c.has("nz")) { std::string z; for (auto& e : es) if (std::fabs(e.v) > 1e-9) z += (z.empty() ? "[" : ",[") + std::to_string(e.i) + "," + std::to_string(e.j) + "]"; o.k("nz", "[" + z + "]"); } }
            else if (op == "eval") {
                VectorDynSize x = vec(c["x"]), u = vec(c["u"]), lam = vec(c["lam"]);
                for (auto& l : c["ln"].a) x(l[0].i() - 1) = l[1].d() * std::log(2.0) / l[2].d();
                std::vector<TermObj::E> es; ret = t->eval(w, c["fn"].s, c["t"].d(), x, u, lam, es);
                double s = c["s"].d(); std::string r;
                for (auto& e : es) { long v = scaled(e.v, s, 1e-6); if (v == 0) continue;
                    r += (r.empty() ? "[" : ",[") + std::to_string(e.i) + "," + std::to_string(e.j) + "," + std::to_string(v) + "]"; }
                o.k("out", "[" + r + "]"); }
            else exit(3);
        }
        o.k("ret", ret);
    });
}
