#include "vh.h"
#include <DynamicalPlanner/Utilities.h>
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
using namespace vh; using namespace DynamicalPlanner;
template <class V> static void put(V&& v, const J& a) { for (size_t k = 0; k < a.size(); ++k) v(unsigned(k)) = a[k].d(); }
static std::string mat(const iDynTree::Rotation& R) { return list(3, [&](size_t i) { return list(3, [&](size_t j) { return std::to_string(scaled(R(i, j))); }); }); }
static std::string js(const State& s) {
    auto pts = [&](const std::vector<ContactPointState>& v) { return list(v.size(), [&](size_t i) { return Out().k("f", nums(v[i].pointForce, 3)).k("p", nums(v[i].pointPosition, 3)).obj(); }); };
    return Out().k("l", pts(s.leftContactPointsState)).k("r", pts(s.rightContactPointsState)).k("mom", nums(s.momentumInCoM, 6)).k("com", nums(s.comPosition, 3))
        .k("bp", nums(s.worldToBaseTransform.getPosition(), 3)).k("br", mat(s.worldToBaseTransform.getRotation())).k("q", nums(s.jointsConfiguration, s.jointsConfiguration.size())).k("t", scaled(s.time)).obj();
}
static std::string js(const Control& s) {
    auto pts = [&](const std::vector<ContactPointControl>& v) { return list(v.size(), [&](size_t i) { return Out().k("u", nums(v[i].pointForceControl, 3)).k("v", nums(v[i].pointVelocityControl, 3)).obj(); }); };
    return Out().k("l", pts(s.leftContactPointsControl)).k("r", pts(s.rightContactPointsControl)).k("bv", nums(s.baseLinearVelocity, 3)).k("bq", nums(s.baseQuaternionDerivative, 4))
        .k("q", nums(s.jointsVelocity, s.jointsVelocity.size())).k("t", scaled(s.time)).obj();
}
static void set(State& s, const J& x) {
    s.leftContactPointsState.resize(x["l"].size()); s.rightContactPointsState.resize(x["r"].size()); s.jointsConfiguration.resize(unsigned(x["q"].size()));
    for (size_t i = 0; i < x["l"].size(); ++i) { put(s.leftContactPointsState[i].pointForce, x["l"][i]["f"]); put(s.leftContactPointsState[i].pointPosition, x["l"][i]["p"]); }
    for (size_t i = 0; i < x["r"].size(); ++i) { put(s.rightContactPointsState[i].pointForce, x["r"][i]["f"]); put(s.rightContactPointsState[i].pointPosition, x["r"][i]["p"]); }
    put(s.momentumInCoM, x["mom"]); put(s.comPosition, x["com"]); put(s.jointsConfiguration, x["q"]); s.time = x["t"].d();
    iDynTree::Position p; put(p, x["bp"]); iDynTree::Rotation R; for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) R(i, j) = x["br"][i][j].d();
    s.worldToBaseTransform.setPosition(p); s.worldToBaseTransform.setRotation(R);
}
static void set(Control& s, const J& x) {
    s.leftContactPointsControl.resize(x["l"].size()); s.rightContactPointsControl.resize(x["r"].size()); s.jointsVelocity.resize(unsigned(x["q"].size()));
    for (size_t i = 0; i < x["l"].size(); ++i) { put(s.leftContactPointsControl[i].pointForceControl, x["l"][i]["u"]); put(s.leftContactPointsControl[i].pointVelocityControl, x["l"][i]["v"]); }
    for (size_t i = 0; i < x["r"].size(); ++i) { put(s.rightContactPointsControl[i].pointForceControl, x["r"][i]["u"]); put(s.rightContactPointsControl[i].pointVelocityControl, x["r"][i]["v"]); }
    put(s.baseLinearVelocity, x["bv"]); put(s.baseQuaternionDerivative, x["bq"]); put(s.jointsVelocity, x["q"]); s.time = x["t"].d();
}
struct Ref : iDynTree::optimalcontrol::TimeVaryingVector {
    double c[3], v[3]; iDynTree::VectorDynSize out{3};
    const iDynTree::VectorDynSize& get(double t, bool& ok) override { ok = true; for (unsigned k = 0; k < 3; ++k) out(k) = c[k] + v[k] * t; return out; }
};
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::vector<State> S(2); std::vector<Control> Uc(2); std::shared_ptr<Utilities::TranslatingCoMStateGuess> G;
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; size_t i = c.has("i") ? size_t(c["i"].i() - 1) : 0; bool s = c["w"].s == "s", shown = true;
        if (op == "reset") { S = std::vector<State>(2); Uc = std::vector<Control>(2); G.reset(); shown = false; }
        else if (op == "new") { if (s) S[i] = State(c["nd"].i(), c["np"].i()); else Uc[i] = Control(c["nd"].i(), c["np"].i()); }
        else if (op == "resize") { if (s) S[i].resize(c["nd"].i(), c["np"].i()); else Uc[i].resize(c["nd"].i(), c["np"].i()); }
        else if (op == "zero") { if (s) S[i].zero(); else Uc[i].zero(); }
        else if (op == "set") { if (s) set(S[i], c["x"]); else set(Uc[i], c["x"]); }
        else if (op == "copy") { if (s) S[i] = S[1 - i]; else Uc[i] = Uc[1 - i]; }
        else if (op == "guess") { auto r = std::make_shared<Ref>(); for (size_t k = 0; k < 3; ++k) { r->c[k] = c["c"][k].d(); r->v[k] = c["v"][k].d(); }
            G = std::make_shared<Utilities::TranslatingCoMStateGuess>(r, S[i]); }
        else { shown = false;
            if (op == "same") o.k("ret", s ? S[0].sameSize(S[1]) : Uc[0].sameSize(Uc[1]));
            else if (op == "check") o.k("ret", s ? S[i].checkSize(c["nd"].i(), c["np"].i()) : Uc[i].checkSize(c["nd"].i(), c["np"].i()));
            else if (op == "centroid") { double n = double(S[i].leftContactPointsState.size() + S[i].rightContactPointsState.size()); o.k("sum", nums(S[i].computeFeetCentroid(), 3, n)); }
            else if (op == "forward") { iDynTree::Vector3 d; put(d, c["d"]); double f = S[i].minimumPointForceOnForwardFoot(d); o.k("left", S[i].leftIsForward(d)).k("f2", scaled(f * f)); }
            else if (op == "gget") { bool v = false; const State& x = G->get(c["t"].d(), v); o.k("x", js(x)).k("valid", v); }
            else if (op == "hold") { bool v = false; if (s) { TimeInvariantState T(S[i]); o.k("x", js(T.get(c["t"].d(), v))); } else { TimeInvariantControl T(Uc[i]); o.k("x", js(T.get(c["t"].d(), v))); } o.k("valid", v); }
            else if (op == "expo") { bool v = false; Utilities::ExponentialWeight w(c["a"].d(), c["k"].d() * std::log(2.0), c["c"].d(), c["d"].d()); double y = w.get(c["t"].d(), v); o.k("y", scaled(y, 1024)).k("valid", v); }
        }
        if (shown) o.k("s", list(2, [&](size_t k) { return js(S[k]); })).k("u", list(2, [&](size_t k) { return js(Uc[k]); }));
    });
}
