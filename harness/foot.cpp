#include "vh.h"
#include <memory>
#include <DynamicalPlanner/RectangularFoot.h>
#include <iDynTree/Core/Transform.h>
#include <iDynTree/Core/Wrench.h>
using namespace vh;
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::unique_ptr<DynamicalPlanner::RectangularFoot> F(new DynamicalPlanner::RectangularFoot());
    const double Q = 4096;
    // the caller's vectors live on from one call to the next
    std::vector<iDynTree::Position> p; std::vector<double> a; std::vector<iDynTree::Force> f;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1; 
        if (op == "reset") { p.clear(); a.clear(); f.clear(); F.reset(new DynamicalPlanner::RectangularFoot()); }
        else if (op == "set") ret = F->setFoot(c["xl"].d(), c["yl"].d(), iDynTree::Position(c["tl"][0].d(), c["tl"][1].d(), c["tl"][2].d()));
        else if (op == "points") {
            const J& m = c["rot"]; iDynTree::Rotation R(m[0][0].d(), m[0][1].d(), m[0][2].d(), m[1][0].d(), m[1][1].d(), m[1][2].d(), m[2][0].d(), m[2][1].d(), m[2][2].d());
            ret = F->getPoints(iDynTree::Transform(R, iDynTree::Position(c["pos"][0].d(), c["pos"][1].d(), c["pos"][2].d())), p);
            o.k("out", list(p.size(), [&](size_t i) { return nums(p[i], 3); })); }
        else if (op == "ratios") { F->getNormalRatiosFromCoP(c["cx"].d(), c["cy"].d(), a);
            o.k("out", list(a.size(), [&](size_t i) { return std::to_string(fixedp(a[i], Q)); })); }
        else if (op == "forces") {
            iDynTree::Wrench w; for (int i = 0; i < 3; ++i) { w(i) = c["f"][i].d(); w(3 + i) = c["m"][i].d(); }
            ret = F->getForces(w, f);
            o.k("out", list(f.size(), [&](size_t i) { return list(3, [&](size_t k) { return std::to_string(fixedp(f[i](k), Q)); }); })); }
        o.k("ret", ret);
    });
}
