#include "vh.h"
#include <DynamicalPlanner/Utilities.h>
using namespace vh; using namespace DynamicalPlanner;
static State mk(const J& j) {
    State s; s.resize(1, j["l"].size()); s.zero(); s.time = j["t"].d() / 16;
    for (int foot = 0; foot < 2; ++foot) { const J& a = j[foot ? "r" : "l"]; auto& v = foot ? s.rightContactPointsState : s.leftContactPointsState;
        for (size_t i = 0; i < a.size(); ++i) for (unsigned k = 0; k < 3; ++k) { v[i].pointPosition(k) = a[i]["p"][k].d(); v[i].pointForce(k) = a[i]["f"][k].d(); } }
    return s;
}
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::unique_ptr<Utilities::SimpleWalkingStateMachine> M; std::shared_ptr<PositionReferenceGenerator> last;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s;
        if (op == "reset") { M.reset(new Utilities::SimpleWalkingStateMachine()); last.reset(); return; }
        bool r = false;
        if (op == "init") { M->setVerbose(c["verb"].i() != 0); iDynTree::Vector3 a, b; for (unsigned k = 0; k < 3; ++k) { a(k) = c["start"][k].d(); b(k) = c["inc"][k].d(); }
            r = M->initialize(a, b, c["sd"].d() / 16, c["H"].d() / 16, c["md"].d() / 16, 1.0, 2.0, 3.0, c["ft"].d(), c["pt"].d()); }
        else if (op == "adv") r = M->advance(mk(c["cur"]), mk(c["fut"]));
        auto g = M->references();
        o.k("ret", r).k("has", bool(g)).k("same", bool(g == last)); last = g;
        if (g) { auto ref = [&](size_t i) { return Out().k("pos", nums(g->at(i).desiredPosition, 3)).k("a", scaled(g->at(i).activeRange.initTime(), 16)).k("b", scaled(g->at(i).activeRange.endTime(), 16)).obj(); };
            o.k("r1", ref(0)).k("r2", ref(1));  }
    });
}
