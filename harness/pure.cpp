// The planner's terms asked along histories. Every question is put to a long-lived object (all of them on the same
// robot data and expressions) and, in another process, to an object of the same set-up which was never asked anything
// before and has robot data and expressions of its own.
#include "terms.h"
#include <sys/wait.h>
using namespace vh;
struct Side {
    bool shared; World w; std::map<int, std::unique_ptr<TermObj>> ts; std::vector<VectorDynSize> xs, us, ls;
    Side(bool s) : shared(s) {}
    static std::vector<VectorDynSize> pool(const J& c) { std::vector<VectorDynSize> r; for (auto& p : c.a) { VectorDynSize v = vec(p); for (size_t i = 0; i < v.size(); ++i) v(i) /= 1024; r.push_back(v); } return r; }
    static std::string entries(std::vector<TermObj::E>& es) { std::string r; for (auto& e : es) { long v = fixedp(e.v, 1e4); if (v == 0) continue;
        r += (r.empty() ? "[" : ",[") + std::to_string(e.i) + "," + std::to_string(e.j) + "," + std::to_string(v) + "]"; } return "[" + r + "]"; }
    static bool question(const std::string& op) { return op == "bounds" || op == "sparsity" || op == "ask"; }
    // what changes the set-up
    void change(const J& c) {
        std::string op = c["op"].s;
        if (op == "reset") { ts.clear(); xs.clear(); us.clear(); }
        else if (op == "world") { ts.clear(); w.set(c); xs = pool(c["xs"]); us = pool(c["us"]); ls.clear(); for (auto& l : c["ls"].a) ls.push_back(vec(l)); }
        else if (op == "term") { auto t = std::make_unique<TermObj>(); t->build(w, c, shared); ts[c["id"].i()] = std::move(t); }
        else if (op == "set") ts.at(c["id"].i())->set(c);
        else if (op == "other") { if (shared) other(c); }
        else exit(3);
    }
    // someone else uses the shared robot data and expressions
    void other(const J& c) {
        w.share(); auto k = w.sharedKd->get(c["t"].d() / 4); RobotState rs = k->currentState(); const VectorDynSize &x = xs[c["x"].i() - 1], &u = us[c["u"].i() - 1];
        auto cp = [&](auto& to, const VectorDynSize& from, const iDynTree::IndexRange& r) { for (int i = 0; i < r.size; ++i) to(i) = from(r.offset + i); };
        rs.s.resize(w.nj); rs.s_dot.resize(w.nj);
        cp(rs.s, x, w.st.getIndexRange("JointsPosition")); cp(rs.base_position, x, w.st.getIndexRange("BasePosition")); cp(rs.base_quaternion, x, w.st.getIndexRange("BaseQuaternion"));
        cp(rs.s_dot, u, w.ct.getIndexRange("JointsVelocity")); cp(rs.base_linearVelocity, u, w.ct.getIndexRange("BaseLinearVelocity")); cp(rs.base_quaternionVelocity, u, w.ct.getIndexRange("BaseQuaternionDerivative"));
        if (c["how"].i() == 1) k->updateRobotState(rs); else w.sharedEs->updateRobotState(c["t"].d() / 4, rs);
    }
    std::string answer(const J& c) {
        std::string op = c["op"].s; TermObj* t = ts.at(c["id"].i()).get();
        if (op == "bounds") { VectorDynSize lo(t->con->constraintSize()), up(t->con->constraintSize()); bool hl = t->con->getLowerBound(lo), hu = t->con->getUpperBound(up);
            auto n = [](const VectorDynSize& v, int r) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (s.empty() ? "[" : ",[") + std::to_string(i + 1) + "," + std::to_string(r) + "," + std::to_string(fixedp(v(i), 1e4)) + "]"; return s; };
            std::string a = hl ? n(lo, 1) : "", b = hu ? n(up, 2) : "";
            return "[" + std::to_string(int(hl) + 2 * int(hu)) + ",[" + a + (a.empty() || b.empty() ? "" : ",") + b + "]]"; }
        if (op == "sparsity") { oc::SparsityStructure s; long ret = t->sparsity(c["fn"].s, s); if (!ret) return "[0,[]]";
            return "[1," + list(s.size(), [&](size_t i) { auto e = s[i]; return "[" + std::to_string(e.row + 1) + "," + std::to_string(e.col + 1) + ",1]"; }) + "]"; }
        const VectorDynSize &x = xs[c["x"].i() - 1], &u = us[c["u"].i() - 1]; VectorDynSize lam = ls[c["l"].i() - 1]; lam.resize(t->rows(w));
        std::vector<TermObj::E> a; long r = t->eval(w, c["fn"].s, c["t"].d() / 4, x, u, lam, a);
        return "[" + std::to_string(r) + "," + (r ? entries(a) : "[]") + "]";
    }
};
int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    traceFile();
    int q[2], a[2]; if (pipe(q) || pipe(a)) return 3;
    if (pid_t p = fork(); p < 0) return 3;
    else if (p == 0) {   // the other process: objects are made and configured here, each question is answered in a copy of it
        close(q[1]); FILE* in = fdopen(q[0], "r"); char* line = nullptr; size_t cap = 0; Side s(false);
        while (getline(&line, &cap, in) > 0) { J c = parse(std::string(line));
            if (!Side::question(c["op"].s)) { s.change(c); continue; }
            pid_t k = fork(); if (k < 0) _exit(3);
            if (k == 0) { std::string r = s.answer(c) + "\n"; size_t done = 0; while (done < r.size()) { ssize_t n = write(a[1], r.data() + done, r.size() - done); if (n <= 0) _exit(3); done += n; } _exit(0); }
            int st; waitpid(k, &st, 0); if (st != 0) { std::string r = "[-1,[]]\n"; if (write(a[1], r.data(), r.size()) < 0) _exit(3); } }
        _exit(0);
    }
    close(q[0]); close(a[1]); FILE* to = fdopen(q[1], "w"); FILE* from = fdopen(a[0], "r"); char* line = nullptr; size_t cap = 0;
    Side s(true); std::ifstream in(argv[1]); std::string l;
    while (std::getline(in, l)) { if (l.empty()) continue;
        fprintf(to, "%s\n", l.c_str()); fflush(to);
        Out o; J c = parse(l);
        if (Side::question(c["op"].s)) { o.k("out", s.answer(c));
            ssize_t n = getline(&line, &cap, from); if (n <= 0) return 3; std::string r(line, n - 1); o.k("ref", r); }
        else s.change(c);
        event(l, o); }
    fclose(to); int st; wait(&st); return 0;
}
