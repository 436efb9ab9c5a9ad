#include "vh.h"
#include "settings_fields.h"
#include <DynamicalPlanner/Settings.h>
#include <iDynTree/Model/RevoluteJoint.h>
#include <iDynTree/Model/FixedJoint.h>
using namespace vh; using namespace DynamicalPlanner; using namespace iDynTree; using namespace iDynTree::optimalcontrol;
static const char* NAMES[] = {"nobody", "root_link", "l_sole", "r_sole", "neck_2", "extra_frame", "tip"};
static Model mk(int dofs) {
    Model m; for (int i = 1; i <= 4; ++i) m.addLink(NAMES[i], Link());
    auto fix = [&](const char* a, const char* b) { FixedJoint j(Transform::Identity()); j.setAttachedLinks(m.getLinkIndex(a), m.getLinkIndex(b)); m.addJoint(std::string("f_") + b, &j); };
    fix("root_link", "l_sole"); fix("root_link", "r_sole"); fix("root_link", "neck_2");
    for (int i = 0; i < dofs; ++i) { std::string n = "arm" + std::to_string(i); m.addLink(n, Link());
        RevoluteJoint j; j.setAttachedLinks(m.getLinkIndex("root_link"), m.getLinkIndex(n)); j.setRestTransform(Transform::Identity()); j.setAxis(Axis(Direction(0, 0, 1), Position(0, 0, 0)), m.getLinkIndex(n), m.getLinkIndex("root_link")); m.addJoint("j" + std::to_string(i), &j); }
    m.addAdditionalFrameToLink("root_link", "extra_frame", Transform::Identity());
    return m;
}
template <class T> struct Refs { std::shared_ptr<T> a, b; std::shared_ptr<T> of(int k) { return k == 0 ? nullptr : k == 1 ? a : b; } int tag(const std::shared_ptr<T>& p) { return !p ? 0 : p == a ? 1 : p == b ? 2 : 9; } };
#define X(f, T) static Refs<TimeVarying##T> ref_##f{std::make_shared<TimeInvariant##T>(), std::make_shared<TimeInvariant##T>()};
REF_FIELDS(X)
#undef X
static const char* COMP[] = {"HyperbolicSecantInequality", "Dynamical", "Classical", "HyperbolicSecantInDynamics"};
static const char* PLAN[] = {"HyperbolicTangentInDynamics", "HyperbolicTangentInequality", "Classical"};
static SettingsStruct read(const J& r) {
    SettingsStruct s; s.robotModel = mk(r["dofs"].i());
#define X(f) s.f = r["n"][#f].d() / (std::string(#f) == "indexOfLateralDirection" ? 1 : 8);
    NUM_FIELDS(X)
#undef X
    s.indexOfLateralDirection = unsigned(r["n"]["indexOfLateralDirection"].i());
#define X(f) s.f = r["b"][#f].i() != 0;
    FLAG_FIELDS(X)
#undef X
#define X(f, T) s.f = ref_##f.of(r["p"][#f].i());
    REF_FIELDS(X)
#undef X
#define X(f) { const J& a = r["w"][#f]; s.f.resize(unsigned(a.size())); for (size_t i = 0; i < a.size(); ++i) s.f(unsigned(i)) = a[i].d(); }
    WEIGHT_FIELDS(X)
#undef X
#define X(f) s.f = NAMES[r["s"][#f].i()];
    FRAME_FIELDS(X)
#undef X
#define X(f) for (unsigned i = 0; i < 3; ++i) s.f(i) = r["x"][#f][i].d();
    VEC_FIELDS(X)
#undef X
    for (int i = 0; i < 4; ++i) if (r["e"]["complementarity"].s == COMP[i]) s.complementarity = i == 0 ? ComplementarityType::HyperbolicSecantInequality : i == 1 ? ComplementarityType::Dynamical : i == 2 ? ComplementarityType::Classical : ComplementarityType::HyperbolicSecantInDynamics;
    for (int i = 0; i < 3; ++i) if (r["e"]["planarComplementarity"].s == PLAN[i]) s.planarComplementarity = i == 0 ? PlanarComplementarityType::HyperbolicTangentInDynamics : i == 1 ? PlanarComplementarityType::HyperbolicTangentInequality : PlanarComplementarityType::Classical;
    for (auto& l : r["q"].a) s.jointsLimits.push_back({l[0].d(), l[1].d()});
    for (auto& l : r["qd"].a) s.jointsVelocityLimits.push_back({l[0].d(), l[1].d()});
    for (auto& l : r["pl"].a) s.leftPointsPosition.push_back(Position(l[0].d(), l[1].d(), l[2].d()));
    for (auto& l : r["pr"].a) s.rightPointsPosition.push_back(Position(l[0].d(), l[1].d(), l[2].d()));
    for (auto& l : r["rl"].a) s.desiredLeftRatios.push_back(l.d() / 8);
    for (auto& l : r["rr"].a) s.desiredRightRatios.push_back(l.d() / 8);
    s.constrainTargetCoMPositionRange = s.comCostActiveRange = s.comVelocityCostActiveRange = s.meanPointPositionCostActiveRange = s.basePositionCostActiveRange = TimeRange::AnyTime();
    return s;
}
static std::string write(const SettingsStruct& s) {
    Out n, b, p, w, f_, x;
#define X(f) n.k(#f, scaled(double(s.f), std::string(#f) == "indexOfLateralDirection" ? 1 : 8));
    NUM_FIELDS(X)
#undef X
#define X(f) b.k(#f, bool(s.f));
    FLAG_FIELDS(X)
#undef X
#define X(f, T) p.k(#f, ref_##f.tag(s.f));
    REF_FIELDS(X)
#undef X
#define X(f) w.k(#f, nums(s.f, s.f.size()));
    WEIGHT_FIELDS(X)
#undef X
#define X(f) { int t = 9; for (int i = 0; i < 6; ++i) if (s.f == NAMES[i]) t = i; f_.k(#f, t); }
    FRAME_FIELDS(X)
#undef X
#define X(f) x.k(#f, nums(s.f, 3));
    VEC_FIELDS(X)
#undef X
    const char* c = s.complementarity == ComplementarityType::HyperbolicSecantInequality ? COMP[0] : s.complementarity == ComplementarityType::Dynamical ? COMP[1] : s.complementarity == ComplementarityType::Classical ? COMP[2] : COMP[3];
    const char* d = s.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInDynamics ? PLAN[0] : s.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInequality ? PLAN[1] : PLAN[2];
    auto lim = [&](const std::vector<std::pair<double, double>>& v) { return list(v.size(), [&](size_t i) { double a[2] = {v[i].first, v[i].second}; return nums(a, 2); }); };
    auto pts = [&](const std::vector<Position>& v) { return list(v.size(), [&](size_t i) { return nums(v[i], 3); }); };
    return Out().k("n", n.obj()).k("b", b.obj()).k("p", p.obj()).k("w", w.obj()).k("s", f_.obj()).k("e", Out().k("complementarity", str(c)).k("planarComplementarity", str(d)).obj())
        .k("x", x.obj()).k("q", lim(s.jointsLimits)).k("qd", lim(s.jointsVelocityLimits)).k("pl", pts(s.leftPointsPosition)).k("pr", pts(s.rightPointsPosition))
        .k("rl", nums(s.desiredLeftRatios, s.desiredLeftRatios.size(), 8)).k("rr", nums(s.desiredRightRatios, s.desiredRightRatios.size(), 8)).k("dofs", int(s.robotModel.getNrOfDOFs())).obj();
}
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::unique_ptr<Settings> S;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s;
        if (op == "reset") S.reset(new Settings());
        else if (op == "set") o.k("ret", S->setFromStruct(read(c["rec"])));
        else if (op == "ctor") S.reset(new Settings(read(c["rec"])));
        else if (op == "defaults") { Model m = mk(c["dofs"].i()); SettingsStruct a = Settings::Defaults(m); Settings t; o.k("ok", t.setFromStruct(a));
            SettingsStruct b = Settings::Defaults(m); bool v1, v2; bool same = true;
            for (auto f : {std::make_pair(a.desiredCoMTrajectory, b.desiredCoMTrajectory), std::make_pair(a.desiredCoMVelocityTrajectory, b.desiredCoMVelocityTrajectory)})
                for (unsigned k = 0; k < 3; ++k) same = same && f.first->get(0, v1)(k) == f.second->get(0, v2)(k);
            o.k("same", same); }
        o.k("valid", S->isValid());
        if (S->isValid()) o.k("rec", write(S->getSettings()));
    });
}
