// Initial states: FillDefaultInitialState and SetMinContactPointToZero (specification: Start.tla)
#include <levi/levi.h>
#include "robot.h"
#include <memory>
#include <DynamicalPlanner/Settings.h>
#include <DynamicalPlanner/RectangularFoot.h>
#include <DynamicalPlanner/Utilities.h>
using namespace vh;
using namespace DynamicalPlanner;
static const double Q = std::acos(0.0);
static std::string vec(const iDynTree::VectorDynSize& v, double s) { return nums(v, v.size(), s); }
int main(int argc, char** argv) {
    if (!getenv("VH_ERR")) std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
    State st; Settings set; std::unique_ptr<RectangularFoot> feet[2]; J w;
    auto joints = [](const J& s) { iDynTree::VectorDynSize v(s.size()); for (size_t i = 0; i < s.size(); ++i) v(i) = s[i].d() * Q; return v; };
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") { st = State(); set = Settings(); feet[0].reset(); feet[1].reset(); }
        else if (op == "world") {
            w = c; set = Settings(); st = State(); J rob = c["robot"]; SettingsStruct s = Settings::Defaults(robotModel(rob));
            s.floatingBaseName = frameName(rob, c["fb"].i());
            s.leftFrameName = s.otherFrameNameForFeetDistance = frameName(rob, c["fr"][0].i());
            s.rightFrameName = s.referenceFrameNameForFeetDistance = frameName(rob, c["fr"][1].i());
            s.frameForOrientationCost = s.leftFrameName; s.forceRatioCostActive = false;
            s.gravity.zero(); s.gravity(2) = c["g"].d() / 100;
            for (int k = 0; k < 2; ++k) {
                auto& p = k ? s.rightPointsPosition : s.leftPointsPosition; p.clear();
                for (auto& x : c["pts"][size_t(k)].a) p.push_back(pos(x));
                const J& f = c["foot"][size_t(k)]; feet[k].reset(new RectangularFoot());
                if (f["l"].i() > 0) feet[k]->setFoot(f["l"].d(), f["d"].d(), pos(f["tl"]));
            }
            if (c["bad"].i()) s.minimumDt = -1;
            ret = set.setFromStruct(s);
        }
        else if (op == "put") {
            size_t n = w["pts"][size_t(0)].size(); st.resize(c["s"].size(), n); st.jointsConfiguration = joints(c["s"]);
            iDynTree::Vector4 q; double nq = 0; for (int i = 0; i < 4; ++i) nq += c["q"][i].d() * c["q"][i].d();
            for (int i = 0; i < 4; ++i) q(i) = c["q"][i].d() / std::sqrt(nq);
            st.worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation::RotationFromQuaternion(q), iDynTree::Position(c["bp"][0].d(), c["bp"][1].d(), c["bp"][2].d() / 8));
            st.time = c["t"].d(); for (int i = 0; i < 6; ++i) st.momentumInCoM(i) = c["mom"][i].d(); for (int i = 0; i < 3; ++i) st.comPosition(i) = 5 + i;
            for (size_t i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { auto& p = (k ? st.rightContactPointsState : st.leftContactPointsState)[i];
                for (int j = 0; j < 3; ++j) { p.pointForce(j) = c["f"].d() + 10 * k + double(i) + j; p.pointPosition(j) = -7; } }
        }
        else if (op == "fill") ret = Utilities::FillDefaultInitialState(set, joints(c["s"]), *feet[0], *feet[1], st);
        else if (op == "min") ret = Utilities::SetMinContactPointToZero(set, st);
        o.k("ret", ret);
        if (ret && op != "reset" && op != "world") {
            double M = 0; for (auto& l : w["robot"]["links"].a) M += l["m"].d();
            const double fs = 1000;
            auto points = [&](const std::vector<ContactPointState>& v) { return list(v.size(), [&](size_t i) { return nums(v[i].pointPosition, 3, 8); }); };
            auto forces = [&](const std::vector<ContactPointState>& v) { return list(v.size(), [&](size_t i) { return list(3, [&](size_t k) {
                return std::to_string(fixedp(v[i].pointForce(k), fs)); }); }); };
            double low = 1e9; for (auto v : {&st.leftContactPointsState, &st.rightContactPointsState}) for (auto& p : *v) low = std::min(low, p.pointPosition(2));
            iDynTree::Rotation R = st.worldToBaseTransform.getRotation(); iDynTree::Position p = st.worldToBaseTransform.getPosition();
            o.k("s", vec(st.jointsConfiguration, 1 / Q)).k("t", scaled(st.time)).k("mom", nums(st.momentumInCoM, 6)).k("com", list(3, [&](size_t i) { return std::to_string(scaled(st.comPosition(i), 8 * M, 1e-5)); }))
             .k("bp", nums(p, 3, 8)).k("R", list(3, [&](size_t i) { return list(3, [&](size_t j) { return std::to_string(scaled(R(i, j), 4)); }); }))
             .k("lp", points(st.leftContactPointsState)).k("rp", points(st.rightContactPointsState)).k("lf", forces(st.leftContactPointsState)).k("rf", forces(st.rightContactPointsState))
             .k("low", fixedp(std::max(-1.0, std::min(low, 1.0)), 1e9));
        }
    });
}
