// The planner's constraints, costs and dynamics behind one interface.
#pragma once
#ifndef POLY_ONLY
#include <levi/levi.h>
#endif
#include "vh.h"
#include "robot.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Constraints.h>
#include <DynamicalPlannerPrivate/Costs.h>
#ifndef POLY_ONLY
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#endif
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/RevoluteJoint.h>
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <iDynTree/DynamicalSystem.h>
namespace vh {
using namespace DynamicalPlanner::Private;
namespace oc = iDynTree::optimalcontrol;
using iDynTree::VectorDynSize; using iDynTree::MatrixDynSize;
template <class B> struct LinRef : B {};
struct LinDouble : oc::TimeVaryingDouble { J r; double v = 0, unit; LinDouble(const J& r, double unit) : r(r), unit(unit) {}
    const double& get(double t, bool& ok) override { ok = true; v = unit * (r["a"][0].d() + r["b"][0].d() * t); return v; } };
struct LinVec : oc::TimeVaryingVector { J r; VectorDynSize v; LinVec(const J& r) : r(r) { v.resize(r["a"].size()); }
    const VectorDynSize& get(double t, bool& ok) override { ok = true; for (size_t i = 0; i < v.size(); ++i) v(i) = r["a"][i].d() + r["b"][i].d() * t; return v; } };
struct LinPos : oc::TimeVaryingPosition { J r; double bad; iDynTree::Position v; LinPos(const J& r, double bad) : r(r), bad(bad) {}
    const iDynTree::Position& get(double t, bool& ok) override { ok = std::fabs(t - bad) > 1e-9; for (size_t i = 0; i < 3; ++i) v(i) = r["a"][i].d() + r["b"][i].d() * t; return v; } };
inline VectorDynSize vec(const J& j) { VectorDynSize v(j.size()); for (size_t i = 0; i < j.size(); ++i) v(i) = j[i].d(); return v; }

// a robot with the given mass and number of joints, for terms which need one but do not depend on its shape
inline iDynTree::Model plainModel(int nj, double mass) {
    iDynTree::Model m;
    auto link = [&](double ms) { iDynTree::Link l; iDynTree::RotationalInertiaRaw I; I.zero(); I(0,0) = I(1,1) = I(2,2) = 0.5; iDynTree::SpatialInertia in(ms, iDynTree::Position(0, 0, 0), I); l.setInertia(in); return l; };
    m.addLink("root_link", link(mass / 2));
    for (int i = 0; i < nj; ++i) { std::string p = i ? "l" + std::to_string(i - 1) : "root_link", n = "l" + std::to_string(i);
        m.addLink(n, link(mass / 2 / nj));
        iDynTree::RevoluteJoint j(iDynTree::Transform(iDynTree::Rotation::Identity(), iDynTree::Position(1, 0, 1)), iDynTree::Axis(iDynTree::Direction(0, i % 2, 1 - i % 2), iDynTree::Position(0, 0, 0)));
        m.addJoint(p, n, "j" + std::to_string(i), &j); }
    return m;
}
struct LinRot : oc::TimeVaryingRotation { J r; iDynTree::Rotation v; LinRot(const J& r) : r(r) {}
    const iDynTree::Rotation& get(double t, bool& ok) override { ok = true; v = rot(r[size_t(std::lround(t))]); return v; } };
struct World {
    VariablesLabeller st, ct; int n = 0, nj = 0; double mass = 1;
    iDynTree::Model model; J robot;
    std::shared_ptr<TimelySharedKinDynComputations> sharedKd;
#ifndef POLY_ONLY
    std::shared_ptr<ExpressionsServer> sharedEs;
#endif
    void set(const J& c) {
        st = VariablesLabeller(); ct = VariablesLabeller();
        for (auto& l : c["slab"].a) if (!st.addLabel(l[0].s, l[1].i())) exit(3);
        for (auto& l : c["clab"].a) if (!ct.addLabel(l[0].s, l[1].i())) exit(3);
        n = c["n"].i(); nj = c["nj"].i(); mass = c["mass"].d(); robot = c["robot"];
        model = c.has("robot") ? robotModel(robot) : plainModel(nj, mass);
#ifndef POLY_ONLY
        sharedEs.reset();
#endif
        sharedKd.reset();
    }
    // one set of robot data and expressions for all the terms of this world, as the planner does
    void share() { if (sharedKd) return; sharedKd = kinDyn();
#ifndef POLY_ONLY
        sharedEs = std::make_shared<ExpressionsServer>(sharedKd);
#endif
    }
    std::shared_ptr<TimelySharedKinDynComputations> kinDyn() const {
        auto k = std::make_shared<TimelySharedKinDynComputations>();
        if (!k->loadRobotModel(model)) exit(3);
        if (robot.has("g")) { iDynTree::Vector3 g; for (int i = 0; i < 3; ++i) g(i) = robot["g"][i].d(); k->setGravity(g); }
        if (!k->setTimings({0.0, 1.0, 2.0, 3.0})) exit(3);
        return k;
    }
};
inline HyperbolicSecant sech(const J& a) { HyperbolicSecant s; s.setScaling(a["k"].d()); if (a["off"].i()) s.disable(a["c"].d()); return s; }
inline HyperbolicTangent tanh_(const J& a) { HyperbolicTangent s; s.setScaling(a["k"].d()); if (a["off"].i()) s.disable(a["c"].d()); return s; }

struct TermObj {
    std::string kind, foot; J def; std::vector<J> sets;   // how it was made
    std::shared_ptr<oc::Constraint> con; std::shared_ptr<oc::Cost> cost; std::shared_ptr<oc::DynamicalSystem> dyn;
    std::map<std::string, MatrixDynSize> mats; std::map<std::string, VectorDynSize> vecs;
    // shared: on the robot data and expressions of the world, otherwise on data of its own
    void build(World& w, const J& c, bool shared = false) {
        def = c; kind = c["kind"].s; foot = c["foot"].s; size_t i = c["pt"].i(); const J& q = c["prm"];
        if (kind == "fc") con.reset(new ContactForceControlConstraints(w.st, w.ct, foot, i, sech(q["sech"]), q["maxd"].d(), q["diss"].d()));
        else if (kind == "fric") con.reset(new ContactFrictionConstraint(w.st, w.ct, foot, i));
        else if (kind == "cc") con.reset(new ClassicalComplementarityConstraint(w.st, w.ct, foot, i, q["tol"].d()));
        else if (kind == "cpc") con.reset(new ClassicalPlanarComplementarityConstraint(w.st, w.ct, foot, i, q["tol"].d()));
        else if (kind == "dc") con.reset(new DynamicalComplementarityConstraint(w.st, w.ct, foot, i, q["gain"].d(), q["ub"].d()));
        else if (kind == "nv") con.reset(new NormalVelocityControlConstraints(w.st, w.ct, foot, i, tanh_(q["tanh"]), q["maxd"].d()));
        else if (kind == "pv") con.reset(new PlanarVelocityControlConstraints(w.st, w.ct, foot, i, tanh_(q["tanh"]), q["mx"].d(), q["my"].d()));
        else if (kind == "qn") { auto* p = new QuaternionNormConstraint(w.st, w.ct); con.reset(p); p->setEqualityTolerance(q["tol"].d()); }
        else if (kind == "frh") con.reset(new FeetRelativeHeightConstraint(w.st, w.ct, q["max"].d()));
#ifndef POLY_ONLY
        else if (kind == "dyn") { auto k = shared ? (w.share(), w.sharedKd) : w.kinDyn(); auto es = shared ? w.sharedEs : std::make_shared<ExpressionsServer>(k);
            dyn.reset(new DynamicalConstraints(w.st, w.ct, k, es, tanh_(q["tanh"]), sech(q["sech"]), q["diss"].d())); }
#endif
        else if (kind == "cost_compl") cost.reset(new ComplementarityCost(w.st, w.ct, foot, i));
        else if (kind == "cost_feetdist") cost.reset(new FeetDistanceCost(w.st, w.ct));
        else if (kind == "cost_yaw") { std::vector<iDynTree::Position> p; for (auto& x : q["pts"].a) p.push_back(iDynTree::Position(x[0].d(), x[1].d(), x[2].d()));
            cost.reset(new FootYawCost(w.st, foot, p)); }
        else if (kind == "cost_mean") cost.reset(new ForceMeanCost(w.st, w.ct, foot, i));
        else if (kind == "cost_ratio") cost.reset(new ForceRatioCost(w.st, w.ct, foot, i));
        else if (kind == "cost_phantom") cost.reset(new PhantomForcesCost(w.st, w.ct, foot, i, sech(q["sech"])));
        else if (kind == "cost_swing") { iDynTree::Vector3 ws; for (int k = 0; k < 3; ++k) ws(k) = q["wts"][k].d(); cost.reset(new SwingCost(w.st, w.ct, foot, i, q["h"].d(), ws)); }
        else if (kind == "cost_point") cost.reset(new MeanPointPositionCost(w.st, w.ct));
        else if (kind == "cost_comvel") cost.reset(new CoMVelocityCost(w.st, w.ct, w.st.getIndexRange("Momentum").offset, w.kinDyn()));
        else if (kind == "cost_postural") cost.reset(new JointsVelocityForPosturalCost(w.st, w.ct, vec(q["jw"]), vec(q["kp"]), std::make_shared<LinVec>(q["ref"])));
#ifndef POLY_ONLY
        else if (w.robot.has("links")) {
            auto k = shared ? (w.share(), w.sharedKd) : w.kinDyn(); auto es = shared ? w.sharedEs : std::make_shared<ExpressionsServer>(k);
            auto fi = [&](const char* name) { auto r = w.model.getFrameIndex(frameName(w.robot, q[name].i())); if (r == iDynTree::FRAME_INVALID_INDEX) exit(3); return r; };
            auto pts = [&](const char* name) { std::vector<iDynTree::Position> p; for (auto& x : q[name].a) p.push_back(pos(x)); return p; };
            if (kind == "com") { auto* p = new CoMPositionConstraint(w.st, w.ct, k, es); con.reset(p); p->setEqualityTolerance(q["tol"].d()); }
            else if (kind == "cpos") { auto* p = new ContactPositionConsistencyConstraint(w.st, w.ct, k, es, fi("frame"), foot, pos(q["pos"]), i); con.reset(p); p->setEqualityTolerance(q["tol"].d()); }
            else if (kind == "mom") { auto* p = new CentroidalMomentumConstraint(w.st, w.ct, k, es); con.reset(p); p->setEqualityTolerance(q["tol"].d()); }
            else if (kind == "lat") { auto* p = new FeetLateralDistanceConstraint(w.st, w.ct, k, es, q["lat"].i(), fi("ref"), fi("other")); con.reset(p); if (!p->setMinimumDistance(q["min"].d())) exit(3); }
            else if (kind == "fori") cost.reset(new FrameOrientationCost(w.st, w.ct, k, es, fi("frame")));
            else if (kind == "fvel") cost.reset(new FrameAngularVelocityCost(w.st, w.ct, k, es, fi("frame"), q["gain"].d()));
            else if (kind == "statt") { auto* p = new StaticTorquesCost(w.st, w.ct, k, fi("lf"), fi("rf"), pts("lp"), pts("rp")); cost.reset(p); if (!p->setWeights(vec(q["wt"]))) exit(3); }
            else { std::cerr << "kind " << kind << "\n"; exit(3); }
        }
#endif
        else { std::cerr << "kind " << kind << "\n"; exit(3); }
        refs(q);
    }
    void refs(const J& q) {
        if (kind == "cost_yaw") static_cast<FootYawCost*>(cost.get())->setDesiredYawTrajectory(std::make_shared<LinDouble>(q["yaw"], M_PI / 2));
        if (kind == "cost_ratio") static_cast<ForceRatioCost*>(cost.get())->setDesiredRatio(q["ratio"].d() / 4);
        if (kind == "cost_comvel") static_cast<CoMVelocityCost*>(cost.get())->setLinearVelocityReference(std::make_shared<LinVec>(q["ref"]));
#ifndef POLY_ONLY
        if (kind == "fori") { auto* p = static_cast<FrameOrientationCost*>(cost.get()); if (!p->setDesiredRotationTrajectory(std::make_shared<LinRot>(q["rots"]))) exit(3); p->setTimeVaryingWeight(std::make_shared<LinDouble>(q["wgt"], 1)); }
        if (kind == "fvel") { if (!static_cast<FrameAngularVelocityCost*>(cost.get())->setDesiredRotationTrajectory(std::make_shared<LinRot>(q["rots"]))) exit(3); }
#endif
        if (kind == "cost_point") { auto* p = static_cast<MeanPointPositionCost*>(cost.get());
            if (!p->setDesiredPositionTrajectory(std::make_shared<LinPos>(q["ref"], q["bad"].d()))) exit(3);
            p->setTimeVaryingWeight(std::make_shared<LinVec>(q["wgt"])); }
    }
    long set(const J& c) {
        sets.push_back(c);
        if (c["what"].s == "mu") return static_cast<ContactFrictionConstraint*>(con.get())->setFrictionCoefficient(c["mn"].d() / c["md"].d());
        if (c["what"].s == "tol") static_cast<QuaternionNormConstraint*>(con.get())->setEqualityTolerance(c["tol"].d());
        else refs(c["prm"]);
        return 1;
    }
    size_t rows(const World& w) const { return con ? con->constraintSize() : dyn ? w.st.size() : 1; }
    // returns the code's answer; entries (1-based row, column, value) of the result which are not zero
    struct E { size_t i, j; double v; };
    long eval(const World& w, const std::string& fn, double t, const VectorDynSize& x, const VectorDynSize& u, const VectorDynSize& lam, std::vector<E>& out) {
        size_t nx = w.st.size(), nu = w.ct.size(), r = rows(w); bool ok = false;
        auto mat = [&](size_t a, size_t b) -> MatrixDynSize& { auto it = mats.find(fn); if (it == mats.end()) { MatrixDynSize m(a, b); m.zero(); it = mats.emplace(fn, m).first; } return it->second; };
        auto vecb = [&](size_t a) -> VectorDynSize& { auto it = vecs.find(fn); if (it == vecs.end()) { VectorDynSize m(a); m.zero(); it = vecs.emplace(fn, m).first; } return it->second; };
        auto emitM = [&](const MatrixDynSize& m, size_t a, size_t b) { if (m.rows() != a || m.cols() != b) { out.push_back({0, 0, double(m.rows())}); return; }
            for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) if (!(m(i, j) == 0)) out.push_back({i + 1, j + 1, m(i, j)}); };
        auto emitV = [&](const VectorDynSize& v, size_t a, bool col) { if (v.size() != a) { out.push_back({0, 0, double(v.size())}); return; }
            for (size_t i = 0; i < a; ++i) if (!(v(i) == 0)) out.push_back(col ? E{i + 1, 1, v(i)} : E{1, i + 1, v(i)}); };
        if (dyn) dyn->setControlInput(u);
        if (fn == "val") {
            if (cost) { double c = 0; ok = cost->costEvaluation(t, x, u, c); if (!(c == 0)) out.push_back({1, 1, c}); }
            else { VectorDynSize& v = vecb(r); ok = con ? con->evaluateConstraint(t, x, u, v) : dyn->dynamics(x, t, v); emitV(v, r, true); }
        } else if (fn == "jx" || fn == "ju") { bool s = fn == "jx"; size_t c = s ? nx : nu;
            if (cost) { VectorDynSize& v = vecb(c); ok = s ? cost->costFirstPartialDerivativeWRTState(t, x, u, v) : cost->costFirstPartialDerivativeWRTControl(t, x, u, v); emitV(v, c, false); }
            else { MatrixDynSize& m = mat(r, c);
                if (con) ok = s ? con->constraintJacobianWRTState(t, x, u, m) : con->constraintJacobianWRTControl(t, x, u, m);
                else ok = s ? dyn->dynamicsStateFirstDerivative(x, t, m) : dyn->dynamicsControlFirstDerivative(x, t, m);
                emitM(m, r, c); }
        } else { size_t a = fn == "huu" ? nu : nx, b = fn == "hxx" ? nx : nu; MatrixDynSize& m = mat(a, b);
            if (cost) ok = fn == "hxx" ? cost->costSecondPartialDerivativeWRTState(t, x, u, m) : fn == "huu" ? cost->costSecondPartialDerivativeWRTControl(t, x, u, m) : cost->costSecondPartialDerivativeWRTStateControl(t, x, u, m);
            else if (con) ok = fn == "hxx" ? con->constraintSecondPartialDerivativeWRTState(t, x, u, lam, m) : fn == "huu" ? con->constraintSecondPartialDerivativeWRTControl(t, x, u, lam, m) : con->constraintSecondPartialDerivativeWRTStateControl(t, x, u, lam, m);
            else ok = fn == "hxx" ? dyn->dynamicsSecondPartialDerivativeWRTState(t, x, lam, m) : fn == "huu" ? dyn->dynamicsSecondPartialDerivativeWRTControl(t, x, lam, m) : dyn->dynamicsSecondPartialDerivativeWRTStateControl(t, x, lam, m);
            emitM(m, a, b); }
        return ok;
    }
    long sparsity(const std::string& fn, oc::SparsityStructure& s) {
        if (cost) return fn == "hxx" ? cost->costSecondPartialDerivativeWRTStateSparsity(s) : fn == "huu" ? cost->costSecondPartialDerivativeWRTControlSparsity(s) : fn == "hxu" ? cost->costSecondPartialDerivativeWRTStateControlSparsity(s) : false;
        if (con) return fn == "jx" ? con->constraintJacobianWRTStateSparsity(s) : fn == "ju" ? con->constraintJacobianWRTControlSparsity(s) : fn == "hxx" ? con->constraintSecondPartialDerivativeWRTStateSparsity(s)
            : fn == "huu" ? con->constraintSecondPartialDerivativeWRTControlSparsity(s) : con->constraintSecondPartialDerivativeWRTStateControlSparsity(s);
        return fn == "jx" ? dyn->dynamicsStateFirstDerivativeSparsity(s) : fn == "ju" ? dyn->dynamicsControlFirstDerivativeSparsity(s) : fn == "hxx" ? dyn->dynamicsSecondPartialDerivativeWRTStateSparsity(s)
            : fn == "huu" ? dyn->dynamicsSecondPartialDerivativeWRTControlSparsity(s) : dyn->dynamicsSecondPartialDerivativeWRTStateControlSparsity(s);
    }
};
}
