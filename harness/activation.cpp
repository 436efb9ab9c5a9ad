#include "vh.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
using namespace vh; using namespace DynamicalPlanner::Private;
int main(int argc, char** argv) {
    std::unique_ptr<SmoothingFunction> f(new HyperbolicTangent());
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s;
        if (op == "reset") f.reset(new HyperbolicTangent());
        else if (op == "new") { if (c["kind"].s == "tanh") f.reset(new HyperbolicTangent()); else f.reset(new HyperbolicSecant()); }
        else if (op == "scale") f->setScaling(c["k"].d());
        else if (op == "disable") { if (c["v"].i() == 99) f->disable(); else f->disable(c["v"].d()); }
        else if (op == "eval") { double x = c["a"].d() * std::log(2.0); double v[3] = {f->eval(x), f->evalDerivative(x), f->evalDoubleDerivative(x)};
            o.k("out", list(3, [&](size_t i) { return std::to_string(fixedp(v[i], 4096)); })); }
    });
}
