#include <levi/levi.h>
#include "vh.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/RevoluteJoint.h>
using namespace vh;
using namespace DynamicalPlanner::Private;
static iDynTree::Model tinyModel() {
    iDynTree::Model m; iDynTree::Link l;
    iDynTree::SpatialInertia in(1.0, iDynTree::Position(0,0,0), iDynTree::RotationalInertiaRaw::Zero()); l.setInertia(in);
    m.addLink("base", l); m.addLink("tip", l);
    iDynTree::RevoluteJoint j(iDynTree::Transform::Identity(), iDynTree::Axis(iDynTree::Direction(0,0,1), iDynTree::Position(0,0,0)));
    m.addJoint("base", "tip", "j", &j); return m;
}
int main(int argc, char** argv) {
    std::unique_ptr<TimelySharedKinDynComputations> T(new TimelySharedKinDynComputations());
    std::vector<SharedKinDynComputationsPointer> seen; bool loaded = false;
    iDynTree::Model model = tinyModel();
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") { T.reset(new TimelySharedKinDynComputations()); seen.clear(); loaded = false; }
        else if (op == "load") { ret = T->loadRobotModel(model); loaded = loaded || ret; }
        else if (op == "set") { std::vector<double> v; for (auto& x : c["list"].a) v.push_back(x.d() / 16.0); ret = T->setTimings(v); }
        else if (op == "get") {
            if (!loaded) ret = -1;
            else { auto p = T->get(c["t"].d() / 16.0); ret = 0;
                for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == p) ret = long(i) + 1;
                if (!ret) { seen.push_back(p); ret = long(seen.size()); } } }
        o.k("ret", ret);
    });
}
