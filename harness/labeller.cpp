#include "vh.h"
#include <memory>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
using namespace vh;
using DynamicalPlanner::Private::VariablesLabeller;
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    std::unique_ptr<VariablesLabeller> L(new VariablesLabeller());
    const std::vector<std::string> U = {"a","b","c","d","LeftForcePoint0","LeftForcePoint1","","Left","ghost"};
    return run(argc, argv, [&](const J& c, Out& o) {
        std::string op = c["op"].s; long ret = 1;
        if (op == "reset") L.reset(new VariablesLabeller());
        else if (op == "clear") L->clear();
        else if (op == "add") ret = L->addLabel(c["name"].s, c["dim"].i());
        else if (op == "addget") { auto r = L->addLabelAndGetIndexRange(c["name"].s, c["dim"].i());
            ret = r.isValid() ? (r.size == c["dim"].i() ? long(r.offset) : -2) : -1; }
        else if (op == "assign") { iDynTree::VectorDynSize v(L->size()); for (unsigned i = 0; i < v.size(); ++i) v(i) = c["base"].i() + int(i) + 1; *L = v; }
        else if (op == "zero") L->zero();
        else if (op == "poke") (*L)(static_cast<unsigned>(c["i"].i())) = c["v"].d();
        else if (op == "pokelabel") (*L)(c["name"].s)[c["k"].i()] = c["v"].d();
        const VariablesLabeller& K = *L;
        auto dump = [](auto sp) { return list(sp.size(), [&](size_t i) { return std::to_string(scaled(sp[i])); }); };
        Out ob;
        ob.k("size", K.size()).k("n", K.numberOfLabels());
        ob.k("list", list(K.listOfLabels().size(), [&](size_t i) { return str(K.listOfLabels()[i]); }));
        ob.k("values", dump(K.values()));
        ob.k("ranges", list(U.size(), [&](size_t i) { auto r = K.getIndexRange(U[i]);
            return r.isValid() ? "[" + std::to_string(r.offset) + "," + std::to_string(r.size) + "]" : std::string("[-1,-1]"); }));
        ob.k("byrange", list(U.size(), [&](size_t i) { auto r = K.getIndexRange(U[i]);
            return r.isValid() && r.offset + r.size <= long(K.size()) ? dump(K(r)) : std::string("[]"); }));
        ob.k("bylabel", list(U.size(), [&](size_t i) { return dump((*L)(U[i])); }));
        ob.k("constlabel", list(U.size(), [&](size_t i) { return dump(K(U[i])); }));
        ob.k("byindex", list(K.size(), [&](size_t i) { return std::to_string(scaled(K(static_cast<unsigned>(i)))); }));
        o.k("ret", ret).k("obs", ob.obj());
    });
}
