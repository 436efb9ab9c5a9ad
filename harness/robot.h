// The robot a specification describes, as a model.
#pragma once
#include "vh.h"
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/RevoluteJoint.h>
namespace vh {
inline iDynTree::Rotation rot(const J& m) { return iDynTree::Rotation(m[0][0].d(), m[0][1].d(), m[0][2].d(), m[1][0].d(), m[1][1].d(), m[1][2].d(), m[2][0].d(), m[2][1].d(), m[2][2].d()); }
inline iDynTree::Position pos(const J& p) { return iDynTree::Position(p[0].d(), p[1].d(), p[2].d()); }
inline std::string frameName(const J& rob, int f) { if (rob.has("names")) return rob["names"][size_t(f - 1)].s; int nl = rob["links"].size(); return f <= nl ? "l" + std::to_string(f) : "f" + std::to_string(f); }
// the robot a world describes: links l1, l2, ... (joint of link i: j<i>), additional frames f<k>
inline iDynTree::Model robotModel(const J& rob) {
    iDynTree::Model m; int i = 0;
    for (auto& k : rob["links"].a) { ++i; std::string n = frameName(rob, i);
        iDynTree::Link l; iDynTree::RotationalInertiaRaw I; double ms = k["m"].d();
        double c[3] = {k["c"][0].d(), k["c"][1].d(), k["c"][2].d()}, c2 = c[0]*c[0] + c[1]*c[1] + c[2]*c[2];
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) I(a, b) = k["I"][a][b].d() + ms * ((a == b ? c2 : 0) - c[a] * c[b]);
        iDynTree::SpatialInertia in(ms, iDynTree::Position(c[0], c[1], c[2]), I); l.setInertia(in); m.addLink(n, l);
        if (k["parent"].i() > 0) { double d[3] = {0, 0, 0}; d[k["ax"].i() - 1] = k["sg"].d();
            iDynTree::RevoluteJoint j(iDynTree::Transform(rot(k["rr"]), pos(k["off"])), iDynTree::Axis(iDynTree::Direction(d[0], d[1], d[2]), pos(k["o"])));
            m.addJoint(frameName(rob, k["parent"].i()), n, "j" + std::to_string(i), &j); }
    }
    int f = i; for (auto& k : rob["frames"].a) { ++f; m.addAdditionalFrameToLink(frameName(rob, k["link"].i()), frameName(rob, f), iDynTree::Transform(rot(k["R"]), pos(k["p"]))); }
    return m;
}
}
