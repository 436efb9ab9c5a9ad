// Histories of queries and reconfigurations on SharedKinDynComputations (specification: SharedKin.tla)
#include <levi/levi.h>
#include "robot.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace vh;
using namespace DynamicalPlanner::Private;
static double tolOf(int t) { return t == 0 ? 0.0 : t == 1 ? 1e-8 : t == 2 ? 2.0 : -0.5; }
static const double Q = std::acos(0.0);
static RobotState stateOf(const J& j) {
    RobotState s; s.s.resize(j["s"].size()); s.s_dot.resize(j["sd"].size());
    for (int i = 0; i < 3; ++i) { s.base_position(i) = j["bp"][i].d(); s.base_linearVelocity(i) = j["bv"][i].d(); }
    for (int i = 0; i < 4; ++i) { s.base_quaternion(i) = j["q"][i].d(); s.base_quaternionVelocity(i) = j["bqd"][i].d(); }
    for (size_t i = 0; i < s.s.size(); ++i) s.s(i) = j["s"][i].d() * Q;
    for (size_t i = 0; i < s.s_dot.size(); ++i) s.s_dot(i) = j["sd"][i].d();
    return s;
}
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    struct Obj { std::unique_ptr<SharedKinDynComputations> k; int m = -1; };
    std::vector<J> robs; std::vector<iDynTree::Model> models; std::vector<Obj> objs;
    iDynTree::MatrixDynSize M(2, 3); iDynTree::FreeFloatingGeneralizedTorques tq; iDynTree::LinkWrenches lw;   // outputs, reused
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") { objs.clear(); models.clear(); robs.clear(); M.resize(2, 3); }
        else if (op == "model") { robs.push_back(c["rob"]); models.push_back(robotModel(c["rob"])); }
        else if (op == "new") { Obj x; x.k.reset(new SharedKinDynComputations()); objs.push_back(std::move(x)); }
        else {
            Obj& x = objs.at(c["obj"].i() - 1); SharedKinDynComputations& k = *x.k;
            if (op == "load") { x.m = c["m"].i() - 1; ret = k.loadRobotModel(models.at(x.m)); }
            else if (op == "copy") { Obj y; y.k.reset(new SharedKinDynComputations(k)); y.m = x.m; objs.push_back(std::move(y)); }
            else if (op == "grav") { iDynTree::Vector3 g; for (int i = 0; i < 3; ++i) g(i) = c["g"][i].d() / 100; k.setGravity(g); }
            else if (op == "tol") ret = k.setToleranceForUpdate(tolOf(c["tol"].i()));
            else if (op == "base") ret = k.setFloatingBase("l" + std::to_string(c["link"].i()));
            else if (op == "upd") ret = k.updateRobotState(stateOf(c["st"]));
            else if (op == "same") ret = k.sameState(stateOf(c["st"]));
            else if (op == "cur") { const RobotState& s = k.currentState(); Out r;
                r.k("bp", nums(s.base_position, 3)).k("q", nums(s.base_quaternion, 4)).k("s", nums(s.s, s.s.size(), 1 / Q)).k("bv", nums(s.base_linearVelocity, 3))
                 .k("bqd", nums(s.base_quaternionVelocity, 4)).k("sd", nums(s.s_dot, s.s_dot.size())); o.k("out", r.obj()); }
            else if (op == "cfg") { std::vector<long> v; for (int i = 0; i < 3; ++i) v.push_back(scaled(k.gravity()(i), 100));
                auto num = [](const std::string& s) { return s.size() > 1 && s[0] == 'l' ? atol(s.c_str() + 1) : -1L; };
                v.push_back(num(k.getFloatingBase())); v.push_back(num(k.model().getLinkName(k.traversal().getBaseLink()->getIndex())));
                v.push_back(k.model().getNrOfDOFs()); double t = k.getUpdateTolerance(); v.push_back(t == 0 ? 0 : t < 1e-3 ? 1 : t == 2 ? 2 : -1);
                o.k("out", list(v.size(), [&](size_t i) { return std::to_string(v[i]); })); }
            else if (op == "q") {
                const iDynTree::Model& m = models.at(x.m); std::string kind = c["kind"].s; RobotState st = stateOf(c["st"]);
                iDynTree::FrameVelocityRepresentation rep = c["rep"].s == "body" ? iDynTree::BODY_FIXED_REPRESENTATION : c["rep"].s == "mixed" ? iDynTree::MIXED_REPRESENTATION : iDynTree::INERTIAL_FIXED_REPRESENTATION;
                std::string fn = frameName(robs[x.m], c["fr"].i()), rn = frameName(robs[x.m], c["ref"].i());
                auto fi = m.getFrameIndex(fn), ri = m.getFrameIndex(rn); bool byName = c["by"].s == "name";
                std::vector<double> v; auto put = [&](auto&& a, size_t n) { for (size_t i = 0; i < n; ++i) v.push_back(a(i)); };
                auto transform = [&](const iDynTree::Transform& T) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(T.getRotation()(i, j)); put(T.getPosition(), 3); };
                auto column = [&](size_t rows, size_t cols) { if (M.rows() != rows || M.cols() != cols) { ret = -2; return; } for (size_t i = 0; i < rows; ++i) v.push_back(M(i, c["col"].i() - 1)); };
                size_t n = m.getNrOfDOFs();
                iDynTree::LinkNetExternalWrenches ext(m);
                for (size_t l = 0; l < c["ext"].size(); ++l) { iDynTree::Wrench w; for (int i = 0; i < 6; ++i) w(i) = c["ext"][l][i].d(); ext(l) = w; }
                if (kind == "com") put(k.getCenterOfMassPosition(st), 3);
                else if (kind == "comj") { ret = k.getCenterOfMassJacobian(st, M, rep); column(3, 6 + n); }
                else if (kind == "wt") transform(byName ? k.getWorldTransform(st, fn) : k.getWorldTransform(st, fi));
                else if (kind == "bt") transform(k.getBaseTransform(st));
                else if (kind == "rel") transform(byName ? k.getRelativeTransform(st, rn, fn) : k.getRelativeTransform(st, ri, fi));
                else if (kind == "jac") { if (M.rows() != 6 || M.cols() != 6 + n) M.resize(6, 6 + n);   // this one wants the right size
                    ret = byName ? k.getFrameFreeFloatingJacobian(st, fn, M, rep) : k.getFrameFreeFloatingJacobian(st, fi, M, rep); column(6, 6 + n); }
                else if (kind == "relj") { ret = k.getRelativeJacobian(st, ri, fi, M, rep); column(6, n); }
                else if (kind == "vel") put(byName ? k.getFrameVel(st, fn, rep) : k.getFrameVel(st, fi, rep), 6);
                else if (kind == "veld") { ret = k.getFrameVelJointsDerivative(st, fi, M); column(6, n); }
                else if (kind == "mom") put(k.getLinearAngularMomentum(st, rep), 6);
                else if (kind == "momj") { ret = k.getLinearAngularMomentumJacobian(st, M, rep); column(6, 6 + n); }
                else if (kind == "momd") { ret = k.getLinearAngularMomentumJointsDerivative(st, M); column(6, n); }
                else if (kind == "mm") { ret = k.getFreeFloatingMassMatrix(st, M, rep); column(6 + n, 6 + n); }
                else if (kind == "stat") { ret = byName ? k.getStaticForces(st, ext, tq) : k.getStaticForces(st, ext, tq, lw); put(tq.baseWrench(), 6); put(tq.jointTorques(), n); }
                else if (kind == "statl") { ret = k.getStaticForces(st, ext, tq, lw); put(lw(m.getLinkIndex(fn)), 6); }
                else if (kind == "statd") { ret = k.getStaticForcesJointsDerivative(st, ext, M);
                    if (M.rows() != n || M.cols() != n) ret = -2; else for (size_t i = 0; i < n; ++i) v.push_back(M(i, c["col"].i() - 1)); }
                else exit(3);
                double s = c["s"].d();
                o.k("out", list(v.size(), [&](size_t i) { return std::to_string(scaled(v[i], s, 1e-4)); }));
            }
            else exit(3);
        }
        o.k("ret", ret);
    });
}
