// Histories of requests, states and evaluations on ExpressionsServer (specification: Exprs.tla)
#include <levi/levi.h>
#include "robot.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Utilities/levi/MomentumInBaseExpression.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace vh;
using namespace DynamicalPlanner::Private;
static const double Q = std::acos(0.0);
static RobotState stateOf(const J& j) {
    RobotState s; s.s.resize(j["s"].size()); s.s_dot.resize(j["sd"].size());
    for (int i = 0; i < 3; ++i) { s.base_position(i) = j["bp"][i].d(); s.base_linearVelocity(i) = j["bv"][i].d(); }
    for (int i = 0; i < 4; ++i) { s.base_quaternion(i) = j["q"][i].d(); s.base_quaternionVelocity(i) = j["bqd"][i].d(); }
    for (size_t i = 0; i < s.s.size(); ++i) s.s(i) = j["s"][i].d() * Q;
    for (size_t i = 0; i < s.s_dot.size(); ++i) s.s_dot(i) = j["sd"][i].d();
    return s;
}
static Eigen::VectorXd ev(const J& j) { Eigen::VectorXd v(j.size()); for (size_t i = 0; i < j.size(); ++i) v(i) = j[i].d(); return v; }
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    struct Handle { levi::Expression e; std::string kind; int es, parent; };
    J rob; std::shared_ptr<TimelySharedKinDynComputations> tl; std::vector<Handle> hs; std::vector<levi::Variable> tws, dqs, own; std::vector<std::unique_ptr<ExpressionsServer>> es;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        auto time = [&]() { return c["t"].d() / 16; };
        auto setQ = [&](levi::Variable& v, const J& j) { Eigen::VectorXd q = ev(j); q.normalize(); v = q; };
        if (op == "reset") { hs.clear(); es.clear(); tws.clear(); dqs.clear(); own.clear(); tl.reset(); }
        else if (op == "setup") {
            rob = c["rob"]; tl = std::make_shared<TimelySharedKinDynComputations>(); ret = tl->loadRobotModel(robotModel(rob));
            ret = ret && tl->setFloatingBase(frameName(rob, c["base"].i()));
            std::vector<double> l; for (auto& t : c["list"].a) l.push_back(t.d() / 16); ret = ret && tl->setTimings(l);
            for (size_t k = 0; k < c["tws"].size(); ++k) { tws.emplace_back(6, c["twn"][k].s); tws.back() = ev(c["tws"][k]); }
            for (size_t k = 0; k < c["dqs"].size(); ++k) { dqs.emplace_back(4, c["dqn"][k].s); setQ(dqs.back(), c["dqs"][k]); } }
        else if (op == "new") { es.emplace_back(new ExpressionsServer(tl)); own.push_back(es.back()->baseTwist().asVariable()); }
        else if (op == "upd") ret = es.at(c["es"].i() - 1)->updateRobotState(time(), stateOf(c["st"]));
        else if (op == "updt") ret = es.at(c["es"].i() - 1)->updateRobotState(time());
        else if (op == "kd") ret = tl->get(time())->updateRobotState(stateOf(c["st"]));
        else if (op == "tw") tws.at(c["k"].i() - 1) = ev(c["v"]);
        else if (op == "dq") setQ(dqs.at(c["k"].i() - 1), c["v"]);
        else if (op == "cur") { const RobotState& s = es.at(c["es"].i() - 1)->currentState(); Out r;
            r.k("bp", nums(s.base_position, 3)).k("q", nums(s.base_quaternion, 4)).k("s", nums(s.s, s.s.size(), 1 / Q)).k("bv", nums(s.base_linearVelocity, 3))
             .k("bqd", nums(s.base_quaternionVelocity, 4)).k("sd", nums(s.s_dot, s.s_dot.size())); o.k("out", r.obj()); }
        else if (op == "ask") {
            const J& h = c["h"]; int ei = h["es"].i() - 1; ExpressionsServer& x = *es.at(ei); const iDynTree::Model& m = x.model();
            std::string kind = h["kind"].s, via = h["via"].s, B = x.getFloatingBase();
            std::string f = frameName(rob, h["fr"].i()), r = h["ref"].i() > 0 ? frameName(rob, h["ref"].i()) : "";
            const J& st = h["steps"]; int col = st.size() ? st[st.size() - 1][1].i() - 1 : 0; int tw = h["tw"].i();
            auto twist = [&]() { return tw == 0 ? own.at(ei) : tws.at(tw - 1); };
            auto link = [&](const std::string& n) { return m.getLinkIndex(n); };
            auto joint = [&]() { return m.getJointIndex("j" + std::to_string(h["j"].i() + 1)); };
            levi::Expression e;
            if (via == "adjd") e = x.adjointTransformJointsDerivative(r, f, col);
            else if (via == "adwd") e = x.adjointTransformWrenchJointsDerivative(r, f, col);
            else if (via == "absd") e = x.absoluteVelocityJointsDerivative(f, twist());
            else if (via == "comh") e = x.comInBaseHessian(col);
            else if (via == "momdd") e = x.momentumInBaseJointsDoubleDerivative(twist(), col);
            else if (via == "wrot") e = x.worldToBase().rotation();
            else if (kind == "rot") e = x.baseRotation();
            else if (kind == "nq") e = x.normalizedBaseQuaternion();
            else if (kind == "q") e = x.baseQuaternion();
            else if (kind == "bp") e = x.basePosition();
            else if (kind == "bv") e = x.baseLinearVelocity();
            else if (kind == "qd") e = x.baseQuaternionVelocity();
            else if (kind == "s") e = x.jointsPosition();
            else if (kind == "sd") e = x.jointsVelocity();
            else if (kind == "bt") e = x.baseTwist();
            else if (kind == "wpos") e = x.worldToBase().position();
            else if (kind == "wp") e = x.worldToBase() * x.relativePosition(B, f);
            else if (kind == "wr") e = (x.worldToBase() * x.relativeTransform(B, f)).rotation();
            else if (kind == "com") e = x.comInBase();
            else if (kind == "crbi") e = x.compositeRigidBodyInertia();
            else if (kind == "adj") e = x.adjointTransform(r, f);
            else if (kind == "adw") e = x.adjointTransformWrench(r, f);
            else if (kind == "rp") e = x.relativePosition(r, f);
            else if (kind == "rr") e = x.relativeRotation(r, f);
            else if (kind == "rtp") e = x.relativeTransform(r, f).position();
            else if (kind == "rtr") e = x.relativeTransform(r, f).rotation();
            else if (kind == "rq") e = x.relativeQuaternion(r, f);
            else if (kind == "rj") e = x.relativeLeftJacobian(r, f);
            else if (kind == "rv") e = x.relativeVelocity(r, f);
            else if (kind == "av") e = tw == 0 ? x.absoluteVelocity(f) : x.absoluteVelocity(f, twist());
            else if (kind == "qe") e = x.quaternionError(f, dqs.at(h["k"].i() - 1));
            else if (kind == "mom") e = MomentumInBaseExpression(&x, twist());
            else if (kind == "msv") e = x.motionSubSpaceVector(joint(), link(r), link(f));
            else if (kind == "msx") e = x.motionSubSpaceAsCrossProduct(joint(), link(r), link(f));
            else if (kind == "msw") e = x.motionSubSpaceAsCrossProductWrench(joint(), link(r), link(f));
            else if (kind == "li") e = x.linkInertia(link(f));
            else if (kind == "lib") e = x.linkInertiaInBase(link(f));
            else exit(3);
            hs.push_back({e, kind, ei, -1}); }
        else if (op == "der") {
            Handle p = hs.at(c["h"].i() - 1); ExpressionsServer& x = *es.at(p.es); std::string v = c["v"].s; int col = c["col"].i() - 1; levi::Expression e;
            if (v == "q") e = p.e.getColumnDerivative(col, x.baseQuaternion());
            else if (v == "s") e = p.e.getColumnDerivative(col, x.jointsPosition());
            else if (v == "sd") e = p.e.getColumnDerivative(col, x.jointsVelocity());
            else if (v == "bp") e = p.e.getColumnDerivative(col, x.basePosition());
            else if (v == "bv") e = p.e.getColumnDerivative(col, x.baseLinearVelocity());
            else if (v == "qd") e = p.e.getColumnDerivative(col, x.baseQuaternionVelocity());
            else e = p.e.getColumnDerivative(col, tws.at(v[2] - '1'));
            hs.push_back({e, p.kind, p.es, c["h"].i() - 1}); }
        else if (op == "ev") {
            Handle& h = hs.at(c["h"].i() - 1); double s = c["s"].d(); Eigen::MatrixXd M = h.e.evaluate(); std::vector<double> v;
            if (h.kind == "s" ) s /= Q;
            if (h.kind == "rq" || h.kind == "qe") {
                Eigen::Vector4d q = h.parent < 0 ? Eigen::Vector4d(M.col(0)) : Eigen::Vector4d(hs[h.parent].e.evaluate().col(0));
                for (int k = 0; k < M.cols(); ++k) for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j)
                    v.push_back(h.parent < 0 ? 4 * q(i) * q(j) : 4 * (M(i, k) * q(j) + q(i) * M(j, k)));
                if (q(0) < -1e-9) ret = -5;
            } else for (int j = 0; j < M.cols(); ++j) for (int i = 0; i < M.rows(); ++i) v.push_back(M(i, j));
            o.k("out", list(v.size(), [&](size_t i) { return std::to_string(scaled(v[i], s, 1e-4)); })); }
        else exit(3);
        o.k("ret", ret);
    });
}
