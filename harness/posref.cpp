#include "vh.h"
#include <memory>
#include <new>
#include <DynamicalPlanner/PositionReferenceGenerator.h>
using namespace vh; using namespace DynamicalPlanner; using iDynTree::optimalcontrol::TimeRange;
// fresh heap memory is filled with a pattern, so that forgotten initialisations show deterministically
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0x43, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::unique_ptr<PositionReferenceGenerator> G; bool made = false;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; size_t i = c.has("i") ? size_t(c["i"].i() - 1) : 0;
        if (op == "reset") { G.reset(new PositionReferenceGenerator()); made = false; }
        else if (op == "init") { const J& f = c["f"];
            if (made) G->init(unsigned(c["n"].i()), f[0].d(), f[1].d(), f[2].d());
            else { G.reset(new PositionReferenceGenerator(unsigned(c["n"].i()), f[0].d(), f[1].d(), f[2].d())); made = true; } }
        else if (op == "resize") G->resize(size_t(c["n"].i()));
        else if (op == "pos") { for (unsigned k = 0; k < 3; ++k) (*G)[i].desiredPosition(k) = c["p"][k].d();
            const PositionReferenceGenerator& K = *G; o.k("back", nums(K.at(i).desiredPosition, 3)); }
        else if (op == "range") { if (c["a"].i() <= c["b"].i()) G->at(i).activeRange.setTimeInterval(c["a"].d() / 8, c["b"].d() / 8); }
        else if (op == "instant") G->at(i).activeRange = TimeRange::Instant(c["a"].d() / 8);
        else if (op == "any") G->at(i).activeRange = TimeRange::AnyTime();
        else if (op == "query") { bool v1 = false, v2 = false; double t = c["t"].d() / 8;
            auto w = G->timeVaryingWeight()->get(t, v1); auto p = G->timeVaryingReference()->get(t, v2);
            o.k("valid", bool(v1 && v2 && w.size() == 3)).k("pos", nums(p, 3)).k("w", nums(w, 3, 64.0)); }
    });
}
