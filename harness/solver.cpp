// The planner's Solver driven through an optimizer of ours, which records the problem it is handed.
#include "terms.h"
#include "settings_fields.h"
#include <DynamicalPlanner/Solver.h>
#include <iDynTree/Optimizer.h>
#include <iDynTree/Integrators/ImplicitTrapezoidal.h>
#include <algorithm>
#include <functional>
using namespace vh; using namespace DynamicalPlanner;
using iDynTree::VectorDynSize;
static const double UNIT = M_PI / 2, S = 144000000.0;
static const long INF = 1900000001L;
static double tick(double t) { return 2 * t; }

// ------------------------------------------------------------ canonical layout (order of the specification)
struct Dim { int n, nj; int nx() const { return 12 * n + 16 + nj; } int nu() const { return 12 * n + 7 + nj; } int q() const { return 12 * n + 12; } int s() const { return 12 * n + 16; } };
static std::vector<double> pack(const State& s, double unit = UNIT) {
    std::vector<double> v;
    auto foot = [&](const std::vector<ContactPointState>& f) { for (auto& p : f) { for (int i = 0; i < 3; ++i) v.push_back(p.pointForce(i)); for (int i = 0; i < 3; ++i) v.push_back(p.pointPosition(i)); } };
    foot(s.leftContactPointsState); foot(s.rightContactPointsState);
    for (int i = 0; i < 6; ++i) v.push_back(s.momentumInCoM(i));
    for (int i = 0; i < 3; ++i) v.push_back(s.comPosition(i));
    for (int i = 0; i < 3; ++i) v.push_back(s.worldToBaseTransform.getPosition()(i));
    iDynTree::Vector4 q = s.worldToBaseTransform.getRotation().asQuaternion();
    for (int i = 0; i < 4; ++i) v.push_back(q(i));
    for (unsigned i = 0; i < s.jointsConfiguration.size(); ++i) v.push_back(s.jointsConfiguration(i) / unit);
    return v;
}
static std::vector<double> pack(const Control& s) {
    std::vector<double> v;
    auto foot = [&](const std::vector<ContactPointControl>& f) { for (auto& p : f) { for (int i = 0; i < 3; ++i) v.push_back(p.pointForceControl(i)); for (int i = 0; i < 3; ++i) v.push_back(p.pointVelocityControl(i)); } };
    foot(s.leftContactPointsControl); foot(s.rightContactPointsControl);
    for (int i = 0; i < 3; ++i) v.push_back(s.baseLinearVelocity(i));
    for (int i = 0; i < 4; ++i) v.push_back(s.baseQuaternionDerivative(i));
    for (unsigned i = 0; i < s.jointsVelocity.size(); ++i) v.push_back(s.jointsVelocity(i));
    return v;
}
static State unpack(const std::vector<double>& v, Dim d, double unit = UNIT) {
    State s(d.nj, d.n); s.zero(); size_t k = 0;
    auto foot = [&](std::vector<ContactPointState>& f) { for (auto& p : f) { for (int i = 0; i < 3; ++i) p.pointForce(i) = v[k++]; for (int i = 0; i < 3; ++i) p.pointPosition(i) = v[k++]; } };
    foot(s.leftContactPointsState); foot(s.rightContactPointsState);
    for (int i = 0; i < 6; ++i) s.momentumInCoM(i) = v[k++];
    for (int i = 0; i < 3; ++i) s.comPosition(i) = v[k++];
    iDynTree::Position p; for (int i = 0; i < 3; ++i) p(i) = v[k++];
    iDynTree::Vector4 q; double nq = 0; for (int i = 0; i < 4; ++i) { q(i) = v[k++]; nq += q(i) * q(i); } for (int i = 0; i < 4; ++i) q(i) /= std::sqrt(nq);
    iDynTree::Rotation R; R.fromQuaternion(q); s.worldToBaseTransform = iDynTree::Transform(R, p);
    for (int i = 0; i < d.nj; ++i) s.jointsConfiguration(i) = v[k++] * unit;
    return s;
}
static Control unpackControl(const std::vector<double>& v, Dim d) {
    Control s(d.nj, d.n); size_t k = 0;
    auto foot = [&](std::vector<ContactPointControl>& f) { for (auto& p : f) { for (int i = 0; i < 3; ++i) p.pointForceControl(i) = v[k++]; for (int i = 0; i < 3; ++i) p.pointVelocityControl(i) = v[k++]; } };
    foot(s.leftContactPointsControl); foot(s.rightContactPointsControl);
    for (int i = 0; i < 3; ++i) s.baseLinearVelocity(i) = v[k++];
    for (int i = 0; i < 4; ++i) s.baseQuaternionDerivative(i) = v[k++];
    for (int i = 0; i < d.nj; ++i) s.jointsVelocity(i) = v[k++];
    return s;
}
static std::vector<double> dbl(const J& j) { std::vector<double> v; for (auto& x : j.a) v.push_back(x.d()); return v; }

// ------------------------------------------------------------------------ references, functions of the tick
static J dbl2(const J& r) { J c = r; for (auto& x : c.o["b"].a) x.n *= 2; return c; }
struct TickRot : oc::TimeVaryingRotation { J r; iDynTree::Rotation v; TickRot(const J& r) : r(r) {}
    const iDynTree::Rotation& get(double t, bool& ok) override { ok = true; long k = std::lround(tick(t)); v = rot(r[size_t(((k % 4) + 4) % 4)]); return v; } };
static std::shared_ptr<oc::TimeVaryingVector> tv(const J& r) { return std::make_shared<LinVec>(dbl2(r)); }
static std::shared_ptr<oc::TimeVaryingDouble> td(const J& r, double unit = 1) { return std::make_shared<LinDouble>(dbl2(r), unit); }
static oc::TimeRange range(const J& r) { return r.size() ? oc::TimeRange(r[0].d() / 2, r[1].d() / 2) : oc::TimeRange::AnyTime(); }
static SettingsStruct settingsOf(const J& c) {
    SettingsStruct s{}; J rob = c["robot"]; s.robotModel = robotModel(rob);
    s.minimumDt = c["mind"].d() / 20; s.maximumDt = c["max"].d() / 2; s.controlPeriod = c["P"].d() / 2; s.horizon = c["H"].d() / 2; s.activeControlPercentage = c["act"].d() / 4;
    for (int i = 0; i < 3; ++i) s.gravity(i) = rob["g"][i].d();
    s.updateTolerance = 1e-10; s.floatingBaseName = "l" + std::to_string(rob.has("base") ? rob["base"].i() : 1);
    for (auto& p : c["lp"].a) s.leftPointsPosition.push_back(pos(p));
    for (auto& p : c["rp"].a) s.rightPointsPosition.push_back(pos(p));
    s.leftFrameName = frameName(rob, c["lf"].i()); s.rightFrameName = frameName(rob, c["rf"].i());
    s.referenceFrameNameForFeetDistance = frameName(rob, c["ref"].i()); s.otherFrameNameForFeetDistance = frameName(rob, c["oth"].i()); s.frameForOrientationCost = frameName(rob, c["fr"].i());
    std::string k = c["comp"].s; s.complementarity = k == "fc" ? ComplementarityType::HyperbolicSecantInequality : k == "dc" ? ComplementarityType::Dynamical : k == "cc" ? ComplementarityType::Classical : ComplementarityType::HyperbolicSecantInDynamics;
    k = c["plan"].s; s.planarComplementarity = k == "dyn" ? PlanarComplementarityType::HyperbolicTangentInDynamics : k == "pv" ? PlanarComplementarityType::HyperbolicTangentInequality : PlanarComplementarityType::Classical;
    for (int i = 0; i < 3; ++i) { s.forceMaximumDerivative(i) = c["fmax"][i].d(); s.velocityMaximumDerivative(i) = c["vmax"][i].d(); s.swingCostWeights(i) = c["w_swing"][i].d(); }
    s.normalForceDissipationRatio = c["diss"].d(); s.normalForceHyperbolicSecantScaling = c["ks"].d(); s.complementarityDissipation = c["cgain"].d(); s.dynamicComplementarityUpperBound = c["dcub"].d();
    s.classicalComplementarityTolerance = c["cctol"].d(); s.frictionCoefficient = c["mu"][0].d() / c["mu"][1].d();
    s.planarVelocityHyperbolicTangentScaling = c["kt"].d(); s.normalVelocityHyperbolicSecantScaling = c["kn"].d(); s.classicalPlanarComplementarityTolerance = c["cpctol"].d();
    s.indexOfLateralDirection = unsigned(c["lat"].i()); s.minimumFeetDistance = c["mindist"].d(); s.feetMaximumRelativeHeight = c["frh"].d();
    s.comPositionConstraintTolerance = c["comtol"].d(); s.centroidalMomentumConstraintTolerance = c["momtol"].d(); s.quaternionModulusConstraintTolerance = c["qntol"].d(); s.pointPositionConstraintTolerance = c["pptol"].d();
    s.minimumCoMHeight = c["minh"].d(); s.maximumAngularMomentum = c["maxam"].d();
    for (auto& l : c["jl"].a) s.jointsLimits.push_back({l[0].d() * UNIT, l[1].d() * UNIT});
    for (auto& l : c["jvl"].a) s.jointsVelocityLimits.push_back({l[0].d(), l[1].d()});
    s.constrainTargetCoMPosition = c["box"].i() != 0; s.targetCoMPositionTolerance = td(c["tol_com"]); s.constrainTargetCoMPositionRange = range(c["rg_box"]);
    const J& q = c["c"];
#define COST(name, active, weight) s.active = q[name][0].i() != 0; s.weight = q[name][1].d();
    COST("com", comCostActive, comCostOverallWeight) COST("comvel", comVelocityCostActive, comVelocityCostOverallWeight) COST("fori", frameCostActive, frameCostOverallWeight)
    COST("mean", forceMeanCostActive, forceMeanCostOverallWeight) COST("ratio", forceRatioCostActive, forceRatioCostOverallWeight) COST("jreg", jointsRegularizationCostActive, jointsRegularizationCostOverallWeight)
    COST("jvel", jointsVelocityCostActive, jointsVelocityCostOverallWeight) COST("statt", staticTorquesCostActive, staticTorquesCostOverallWeight) COST("fder", forceDerivativeCostActive, forceDerivativesCostOverallWeight)
    COST("pacc", pointAccelerationCostActive, pointAccelerationCostOverallWeight) COST("swing", swingCostActive, swingCostOverallWeight) COST("phantom", phantomForcesCostActive, phantomForcesCostOverallWeight)
    COST("point", meanPointPositionCostActive, meanPointPositionCostOverallWeight) COST("yawl", leftFootYawCostActive, leftFootYawCostOverallWeight) COST("yawr", rightFootYawCostActive, rightFootYawCostOverallWeight)
    COST("dist", feetDistanceCostActive, feetDistanceCostOverallWeight) COST("post", jointsVelocityForPosturalCostActive, jointsVelocityForPosturalCostOverallWeight) COST("compl", complementarityCostActive, complementarityCostOverallWeight)
    COST("bpos", basePositionCostActive, basePositionCostOverallWeight) COST("bquat", baseQuaternionCostActive, baseQuaternionCostOverallWeight) COST("fvel", frameAngularVelocityCostActive, frameAngularVelocityCostOverallWeight)
    COST("blin", baseLinearVelocityCostActive, baseLinearVelocityCostOverallWeight) COST("bqv", baseQuaternionVelocityCostActive, baseQuaternionVelocityCostOverallWeight) COST("angm", angularMomentumCostActive, angularMomentumCostOverallWeight)
    s.comCostActiveRange = range(c["rg_com"]); s.comVelocityCostActiveRange = range(c["rg_comvel"]); s.meanPointPositionCostActiveRange = range(c["rg_point"]); s.basePositionCostActiveRange = range(c["rg_bpos"]);
    s.comWeights = vec(c["w_com"]); s.comVelocityWeights = vec(c["w_comvel"]); s.jointsRegularizationWeights = vec(c["w_jreg"]); s.jointsVelocityCostWeights = vec(c["w_jvel"]); s.staticTorquesCostWeights = vec(c["w_statt"]);
    s.forceDerivativeWeights = vec(c["w_fder"]); s.pointAccelerationWeights = vec(c["w_pacc"]); s.basePositionCostWeights = vec(c["w_bpos"]); s.baseLinearVelocityCostWeights = vec(c["w_blin"]);
    s.desiredCoMTrajectory = tv(c["r_com"]); s.desiredCoMVelocityTrajectory = tv(c["r_comvel"]); s.desiredRotationTrajectory = std::make_shared<TickRot>(c["rots"]); s.frameCostTimeVaryingWeight = td(c["w_fori"]);
    s.desiredJointsTrajectory = tv(c["r_joints"]); s.desiredJointsVelocityTrajectory = tv(c["r_jvel"]); s.desiredForceDerivativeTrajectory = tv(c["r_fder"]); s.desiredPointAccelerationTrajectory = tv(c["r_pacc"]);
    s.meanPointPositionCostTimeVaryingWeight = tv(c["w_point"]); s.desiredMeanPointPosition = std::make_shared<LinPos>(dbl2(c["r_point"]), -1e9);
    s.desiredLeftFootYaw = td(c["r_yawl"], UNIT); s.desiredRightFootYaw = td(c["r_yawr"], UNIT);
    s.desiredBasePositionTrajectory = tv(c["r_bpos"]); s.desiredBaseQuaternionTrajectory = tv(c["r_bquat"]); s.desiredBaseLinearVelocityTrajectory = tv(c["r_blin"]); s.desiredBaseQuaternionVelocityTrajectory = tv(c["r_bqv"]);
    for (auto& x : c["ratl"].a) s.desiredLeftRatios.push_back(x.d() / 4);
    for (auto& x : c["ratr"].a) s.desiredRightRatios.push_back(x.d() / 4);
    s.desiredSwingHeight = c["swingh"].d(); s.rotationalPIDgain = c["gain"].d();
    s.useConstraintsHessianRegularization = false; s.useCostsHessianRegularization = false;
    return s;
}

// --------------------------------------------------------------------------------------------- the optimizer
struct Stub : iDynTree::optimization::Optimizer {
    double inf; bool refuse = false; bool called = false; std::function<bool(iDynTree::optimization::OptimizationProblem&, VectorDynSize&, bool&)> body; VectorDynSize primal; bool hasPrimal = false;
    Stub(double inf) : inf(inf) {}
    bool isAvailable() const override { return true; }
    bool setProblem(std::shared_ptr<iDynTree::optimization::OptimizationProblem> p) override { if (refuse || !p) return false; m_problem = p; return true; }
    bool solve() override { called = true; hasPrimal = false; if (!m_problem) return false; return body(*m_problem, primal, hasPrimal); }
    bool getPrimalVariables(VectorDynSize& v) override { if (!hasPrimal) return false; v = primal; return true; }
    double minusInfinity() override { return -inf; }
    double plusInfinity() override { return inf; }
};
template <class T, class F> struct Guess : oc::TimeVaryingObject<T> { F f; T v; Guess(F f) : f(f) {} const T& get(double t, bool& ok) override { v = f(t, ok); return v; } };
template <class T, class F> std::shared_ptr<Guess<T, F>> guess(F f) { return std::make_shared<Guess<T, F>>(f); }

// where the planner keeps each component: learnt from the guess it hands over, (Force, Position) order when that is no layout
struct Layout { std::vector<int> x, u; };
static std::map<std::pair<int, int>, Layout> layouts;
static Layout standard(Dim d) {
    Layout l; for (int i = 0; i < d.nx(); ++i) l.x.push_back(i); for (int i = 0; i < d.nu(); ++i) l.u.push_back(i < 12 * d.n ? (i / 6) * 6 + (i % 6 + 3) % 6 : i); return l; }
static Layout layoutOf(const J& c, Dim d) {
    auto key = std::make_pair(d.n, d.nj); auto it = layouts.find(key); if (it != layouts.end()) return it->second;
    Layout l = standard(d);
    Settings set; if (set.setFromStruct(settingsOf(c))) {
        Solver s; auto st = std::make_shared<Stub>(1e19); VectorDynSize got; bool has = false;
        st->body = [&](iDynTree::optimization::OptimizationProblem& p, VectorDynSize&, bool&) { p.prepare(); has = p.getGuess(got); return false; };
        std::vector<double> gx, gu; for (int i = 0; i < d.nx(); ++i) gx.push_back(1000 + i); for (int i = 0; i < d.nu(); ++i) gu.push_back(5000 + i);
        double q[4] = {4, 1, 2, 3}, nq = std::sqrt(30.0); for (int i = 0; i < 4; ++i) gx[d.q() + i] = q[i] / nq;
        std::vector<State> os; std::vector<Control> oc_;
        if (s.setOptimizer(st) && s.specifySettings(set) &&
            s.setGuesses(guess<State>([=](double, bool& ok) { ok = true; return unpack(gx, d, 1); }), guess<Control>([=](double, bool& ok) { ok = true; return unpackControl(gu, d); }))) s.solve(os, oc_);
        if (has && int(got.size()) >= 2 * d.nx() + d.nu()) {
            auto find = [&](const std::vector<double>& g, int off) { std::vector<int> r; for (double v : g) { int k = -1; for (size_t i = 0; i < g.size(); ++i) if (std::fabs(std::fabs(got(off + i)) - v) < 1e-6) k = k == -1 ? int(i) : -2; r.push_back(k); }
                std::vector<int> t = r; std::sort(t.begin(), t.end()); for (size_t i = 0; i < t.size(); ++i) if (t[i] != int(i)) return std::vector<int>(); return r; };
            auto lx = find(gx, d.nx() + d.nu()), lu = find(gu, d.nx()); if (lx.size() && lu.size()) { l.x = lx; l.u = lu; } }
    }
    return layouts[key] = l;
}

int main(int argc, char** argv) {
    if (!getenv("VH_ERR")) std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    std::unique_ptr<Solver> solver; std::map<int, std::shared_ptr<Stub>> stubs; std::shared_ptr<Stub> cur; J cfg; Dim dim{1, 1}; Layout lay;
    std::vector<State> outX; std::vector<Control> outU;
    auto same = [&](const std::vector<State>& a, const std::vector<State>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (pack(a[i]) != pack(b[i]) || a[i].time != b[i].time) return false; return true; };
    auto sameU = [&](const std::vector<Control>& a, const std::vector<Control>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (pack(a[i]) != pack(b[i]) || a[i].time != b[i].time) return false; return true; };
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") { solver.reset(new Solver()); stubs.clear(); cur.reset(); outX.clear(); outU.clear(); }
        else if (op == "spec") {
            Dim d{c["n"].i(), c["nj"].i()}; Layout l = layoutOf(c, d);
            Settings s; long ok = s.setFromStruct(settingsOf(c)); o.k("valid", ok);
            if (cur) cur->refuse = c["refuse"].i() != 0;
            ret = solver->specifySettings(s);
            if (cur) cur->refuse = false;
            cfg = c; dim = d; lay = l; }
        else if (op == "bad") { ret = solver->specifySettings(Settings()); }
        else if (op == "opt") {
            if (c["id"].i() == 0) ret = solver->setOptimizer(nullptr);
            else { auto& s = stubs[c["id"].i()]; if (!s) s = std::make_shared<Stub>(std::pow(10.0, c["inf"].d())); s->refuse = c["refuse"].i() != 0; ret = solver->setOptimizer(s); s->refuse = false; if (ret) cur = s; } }
        else if (op == "integ") { ret = c["null"].i() ? solver->setIntegrator(nullptr) : solver->setIntegrator(std::make_shared<oc::integrators::ImplicitTrapezoidal>()); }
        else if (op == "init") { Dim d{c["n"].i(), c["nj"].i()}; State s = unpack(dbl(c["x"]), d); s.time = c["t"].d() / 2; ret = solver->setInitialState(s); }
        else if (op == "guess") {
            Dim d{c["n"].i(), c["nj"].i()}; std::string k = c["kind"].s; double bad = k == "bad" ? c["at"].d() : -1000; auto gx = dbl(c["x"]), gu = dbl(c["u"]);
            auto gs = guess<State>([=](double t, bool& ok) { ok = std::fabs(tick(t) - bad) > 1e-6; auto v = gx; for (int i = 0; i < d.nx(); ++i) if (i < d.q() || i >= d.q() + 4) v[i] += tick(t); return unpack(v, d); });
            auto gc = guess<Control>([=](double t, bool& ok) { ok = std::fabs(tick(t) - bad) > 1e-6; auto v = gu; for (auto& z : v) z += tick(t); return unpackControl(v, d); });
            if (k == "null_s") ret = solver->setGuesses(nullptr, gc); else if (k == "null_c") ret = solver->setGuesses(gs, nullptr); else ret = solver->setGuesses(gs, gc); }
        else if (op == "solve") {
            auto kept = solver->optimalStates(); auto keptU = solver->optimalControls(); auto prevX = outX; auto prevU = outU;
            if (cur) { cur->called = false;
              cur->body = [&](iDynTree::optimization::OptimizationProblem& p, VectorDynSize& primal, bool& hasPrimal) {
                Dim d = dim; int nx = d.nx(), nu = d.nu(); const J& kinds = c["kinds"]; int M = kinds.size();
                if (!p.prepare()) { o.k("prep", 0); return false; }
                size_t nv = p.numberOfVariables(), want = 0; std::vector<int> xo, uo; for (auto& k : kinds.a) { bool ctl = k.s == "C", lead = ctl && want; if (lead) { uo.push_back(want); want += nu; } xo.push_back(want); want += nx; if (!lead) { uo.push_back(want); if (ctl) want += nu; } } // the transcription's order
                o.k("nvar", nv); o.k("ncon", size_t(p.numberOfConstraints()));
                if (nv != want) return false;
                double inf = cur->inf;
                auto num = [&](double v, double sc) { return v >= inf * (1 - 1e-9) ? INF : v <= -inf * (1 - 1e-9) ? -INF : scaled(v, sc); };
                auto canon = [&](const VectorDynSize& v) { return list(M, [&](size_t m) { std::vector<long> r;
                    for (int i = 0; i < nx; ++i) { double z = v(xo[m] + lay.x[i]); bool big = std::fabs(z) >= inf * (1 - 1e-9); r.push_back(i >= d.s() && !big ? scaled(z / UNIT) : i >= d.q() && i < d.q() + 4 && !big ? scaled(z, 2) : num(z, 1)); }
                    if (kinds[m].s == "C") for (int i = 0; i < nu; ++i) r.push_back(num(v(uo[m] + lay.u[i]), 1));
                    return list(r.size(), [&](size_t i) { return std::to_string(r[i]); }); }); };
                VectorDynSize lo(nv), up(nv), g(nv); bool hl = p.getVariablesLowerBound(lo), hu = p.getVariablesUpperBound(up);
                if (!hl) for (size_t i = 0; i < nv; ++i) lo(i) = -inf; if (!hu) for (size_t i = 0; i < nv; ++i) up(i) = inf;
                o.k("lo", canon(lo)).k("up", canon(up));
                bool hg = p.getGuess(g) && g.size() == nv; o.k("guess", hg ? canon(g) : "[]");
                VectorDynSize cl, cu; p.getConstraintsBounds(cl, cu); int nc = p.numberOfConstraints(), m = (nc - nx * (M - 1)) / M; cl.resize(nc); cu.resize(nc);
                auto pair = [&](double v) { if (!std::isfinite(v) || std::fabs(v) > 1e6) return std::string("[0,") + std::to_string(TOOBIG) + "]"; double h = std::floor(v), l = std::round((v - h) * S); bool ok = std::fabs((v - h) * S - l) < 0.4 && (v == 0 || std::fabs((v - h) * S - l) < 0.1 + std::fabs(v) * 1e-6);
                    if (l >= S) { l -= S; h += 1; } return "[" + std::to_string(long(h)) + "," + std::to_string(ok ? long(l) : INEXACT) + "]"; };
                std::string all; bool first = true;
                for (auto& pt : c["pts"].a) { std::string mode = pt["mode"].s; double unit = mode == "B" ? 1 : UNIT;
                    VectorDynSize v(nv); v.zero();
                    for (int k = 0; k < M; ++k) { for (int i = 0; i < nx; ++i) v(xo[k] + lay.x[i]) = pt["x"][k][i].d() * (i >= d.s() ? unit : 1); if (kinds[k].s == "C") for (int i = 0; i < nu; ++i) v(uo[k] + lay.u[i]) = pt["u"][k][i].d(); }
                    for (auto& l : pt["ln"].a) v(xo[l[0].i() - 1] + lay.x[l[1].i() - 1]) = l[2].d() * std::log(2.0) / l[3].d();
                    if (first) primal = v;
                    Out e; double cost = 0; VectorDynSize r(nc); bool okv = p.setVariables(v), okc = okv && p.evaluateCostFunction(cost), okr = okv && p.evaluateConstraints(r) && int(r.size()) == nc;
                    e.k("ok", okc && okr).k("cost", pair(cost));
                    std::string col, con; int at = 0;
                    for (int k = 0; k < M && okr; ++k) {
                        if (k) { col += (k > 1 ? ",[" : "["); for (int i = 0; i < nx; ++i) { int z = at + lay.x[i]; col += (i ? "," : "") + pair(r(z)); if (cl(z) != 0 || cu(z) != 0) col += ",[0,7]"; } col += "]"; at += nx; }
                        con += k ? ",[" : "[";
                        if (mode != "B") for (int i = 0; i < m; ++i) { std::string a = pair(r(at + i)); a.pop_back(); con += (i ? "," : "") + a + "," + std::to_string(num(cl(at + i), 200)) + "," + std::to_string(num(cu(at + i), 200)) + "]"; }
                        con += "]"; at += m; }
                    e.k("col", "[" + col + "]").k("con", "[" + con + "]");
                    all += (first ? "" : ",") + e.obj(); first = false; }
                o.k("pts", "[" + all + "]");
                if (c["out"].s == "fail") return false;
                hasPrimal = c["out"].s == "ok"; return true; }; }
            ret = solver->solve(outX, outU); o.k("called", cur ? cur->called : false);
            if (!ret) o.k("kept", same(outX, prevX) && sameU(outU, prevU) && same(kept, solver->optimalStates()) && sameU(keptU, solver->optimalControls()));
            else { o.k("kept", same(outX, solver->optimalStates()) && sameU(outU, solver->optimalControls()));
                Dim d = dim;
                auto st = [&](size_t i) { auto v = pack(outX[i]); for (int k = 0; k < 4; ++k) if (d.q() + k < int(v.size())) v[d.q() + k] = 0; return nums(v, v.size()); };
                auto R = [&](size_t i) { std::vector<double> r; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) r.push_back(outX[i].worldToBaseTransform.getRotation()(a, b)); return nums(r, 9); };
                o.k("x", list(outX.size(), st)).k("R", list(outX.size(), R)).k("tx", list(outX.size(), [&](size_t i) { return std::to_string(scaled(tick(outX[i].time))); }));
                o.k("u", list(outU.size(), [&](size_t i) { auto v = pack(outU[i]); return nums(v, v.size()); })).k("tu", list(outU.size(), [&](size_t i) { return std::to_string(scaled(tick(outU[i].time))); })); }
        }
        else exit(3);
        o.k("ret", ret);
    });
}
