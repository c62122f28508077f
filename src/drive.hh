// Builds theory atoms for a Prog and runs the library in the closed environment of mock.hh.
#pragma once
#include "mock.hh"
#include "spec.hh"
#include <clingo-lpx.h>
#include <memory>

struct Cfg {
    bool strict = false, conflicts = false, incremental = false;
    int bounds = 0, select = 0, store = 0; // as in Options
    std::string objective;                 // "", "local", "global", "global,STEP"
    std::string str() const {
        std::string s;
        s += strict ? "strict " : "";
        s += conflicts ? "propagate-conflicts " : "";
        s += bounds == 1 ? "bounds=changed " : bounds == 2 ? "bounds=full " : "";
        s += select == 1 ? "select=match " : select == 2 ? "select=conflict " : "";
        s += store == 1 ? "store=partial " : store == 2 ? "store=total " : "";
        s += objective.empty() ? "" : "objective=" + objective + " ";
        s += incremental ? "incremental " : "";
        return s.empty() ? "default" : s.substr(0, s.size() - 1);
    }
    bool global() const { return objective.rfind("global", 0) == 0; }
    QE step() const {
        auto p = objective.find(',');
        if (p == std::string::npos) { return {}; }
        auto s = objective.substr(p + 1);
        if (s == "e") { return {0, 1}; }
        return {Q(s), 0};
    }
};

class TheoryBuilder {
  public:
    TheoryData d;
    clingo_id_t number(Q const &q) {
        if (q.get_den() == 1) { return integer(q.get_num()); }
        return d.fun("/", {integer(q.get_num()), integer(q.get_den())});
    }
    clingo_id_t integer(mpz_class const &z) {
        if (abs(z) <= 2147483647) { return d.num(static_cast<int>(z.get_si())); }
        return d.sym("\"" + z.get_str() + "\"");
    }
    clingo_id_t term(LTerm const &t) {
        if (t.var < 0) { return number(t.co); }
        auto v = d.sym(var_name(t.var));
        if (t.co == 1) { return v; }
        return d.fun("*", {number(t.co), v});
    }
    clingo_id_t sum(std::vector<LTerm> const &ts) {
        if (ts.empty()) { return d.num(0); }
        auto r = term(ts[0]);
        for (size_t i = 1; i < ts.size(); ++i) { r = d.fun("+", {r, term(ts[i])}); }
        return r;
    }
    //! Program literals: boolean i is 10+i, condition c (a literal) has the id 1000+c or 2000-c.
    static int plit(int l) { return l == 0 ? 9 : l > 0 ? 10 + l : -(10 - l); }
    static int clit(int l) { return l > 0 ? 1000 + l : 2000 - l; }
    //! Map a program literal to a solver literal; solver variable of boolean i is i+1, 1 is true.
    static int solver(int p) {
        if (p == 9) { return 1; }
        if (p >= 2000) { return -(p - 2000 + 1); }
        if (p >= 1000) { return p - 1000 + 1; }
        return p > 0 ? p - 10 + 1 : -(-p - 10 + 1);
    }
    clingo_id_t elem(Elem const &e) {
        MElem m;
        m.tuple.push_back(sum(e.terms));
        if (e.cond != 0) {
            m.condition.push_back(plit(e.cond));
            m.condition_id = clit(e.cond);
        }
        d.elems.push_back(m);
        return d.elems.size() - 1;
    }
    void atom(Atom const &a) {
        MAtom m;
        m.lit = plit(a.lit);
        switch (a.kind) {
            case Atom::SUM: m.term = d.sym("sum"); break;
            case Atom::DIFF: m.term = d.sym("diff"); break;
            case Atom::DOM: m.term = d.sym("dom"); break;
            case Atom::MIN: m.term = d.sym("minimize"); break;
            case Atom::MAX: m.term = d.sym("maximize"); break;
        }
        if (a.kind == Atom::DOM) {
            MElem e;
            e.tuple.push_back(d.fun("..", {number(a.lo), number(a.hi)}));
            d.elems.push_back(e);
            m.elems.push_back(d.elems.size() - 1);
            m.has_guard = true;
            m.op = "=";
            m.guard = d.sym(var_name(a.elems[0].terms[0].var));
        } else if (a.kind == Atom::DIFF) {
            auto const &t = a.elems[0].terms;
            auto op = [&](LTerm const &x, bool neg) { return x.var >= 0 ? d.sym(var_name(x.var)) : number(neg ? Q(-x.co) : x.co); };
            MElem e;
            auto l = op(t[0], false);
            auto r = op(t[1], true);
            e.tuple.push_back(d.fun("-", {l, r}));
            d.elems.push_back(e);
            m.elems.push_back(d.elems.size() - 1);
        } else {
            for (auto const &e : a.elems) { m.elems.push_back(elem(e)); }
        }
        if (a.kind == Atom::SUM || a.kind == Atom::DIFF) {
            m.has_guard = true;
            m.op = rel_str(a.rel);
            m.guard = sum(a.guard.terms);
        }
        d.atoms.push_back(m);
    }
};

inline void configure(clingolpx_theory_t *t, Cfg const &c) {
    auto set = [&](char const *k, char const *v) {
        if (!clingolpx_configure(t, k, v)) { throw Violation{"config", std::string("configure ") + k + "=" + v + " refused: " + (clingo_error_message() ? clingo_error_message() : "")}; }
    };
    static char const *b[] = {"none", "changed", "full"};
    static char const *se[] = {"none", "match", "conflict"};
    static char const *st[] = {"no", "partial", "total"};
    if (c.strict) { set("strict", "yes"); }
    if (c.conflicts) { set("propagate-conflicts", "yes"); }
    if (c.bounds) { set("propagate-bounds", b[c.bounds]); }
    if (c.select) { set("select", se[c.select]); }
    if (c.store) { set("store", st[c.store]); }
    if (!c.objective.empty()) { set("objective", c.objective.c_str()); }
    if (!clingolpx_validate_options(t)) { throw Violation{"config", "validate failed"}; }
}

struct TheoryHandle {
    clingolpx_theory_t *t = nullptr;
    TheoryHandle() { if (!clingolpx_create(&t)) { throw Violation{"error", "create failed"}; } }
    ~TheoryHandle() { if (t != nullptr) { clingolpx_destroy(t); } }
    TheoryHandle(TheoryHandle const &) = delete;
};

//! The answer to a decision on literal fb of boolean i documented for the selected sign heuristic under values v; 0 if
//! the documentation leaves it open.
inline int expected_sign(Prog const &prog, Cfg const &cfg, std::vector<QE> const &v, int i, int fb, std::string *why = nullptr) {
    if (cfg.select == 0) { return fb; }
    int lit = fb > 0 ? i : -i;
    // satisfied and violated constraints of the proposal and its negation
    int sat[2] = {0, 0}, viol[2] = {0, 0};
    auto add = [&](int l, bool holds, Atom const &x) {
        int k = l == lit ? 0 : 1;
        ++(holds ? sat : viol)[k];
        if (why != nullptr) { *why += " " + atom_text(x) + (holds ? " is satisfied" : " is violated"); }
    };
    for (auto const &x : prog.atoms) {
        for (auto const &e : x.elems) { if (std::abs(e.cond) == i) { return 0; } }
        if (x.kind == Atom::MIN || x.kind == Atom::MAX || std::abs(x.lit) != i) { continue; }
        if (x.kind == Atom::DOM) {
            QE val = v[x.elems[0].terms[0].var];
            add(x.lit, holds(val, GE, x.lo), x);
            add(x.lit, holds(val, LE, x.hi), x);
            continue;
        }
        QE lhs, rhs;
        int cnt = 0;
        for (auto const &e : x.elems) {
            if (e.cond != 0) { return 0; }
            for (auto const &tm : e.terms) { lhs += tm.var < 0 ? QE{tm.co} : v[tm.var] * tm.co; cnt += tm.var >= 0; }
        }
        for (auto const &tm : x.guard.terms) { rhs += tm.var < 0 ? QE{tm.co} : v[tm.var] * tm.co; cnt += tm.var >= 0; }
        // constant constraints are not treated as such; values between a strict bound and its epsilon neighbour are open
        if (cnt == 0 || ((x.rel == LT || x.rel == GT) && lhs.c == rhs.c)) { return 0; }
        add(x.lit, holds(lhs, x.rel, rhs), x);
    }
    bool any0 = sat[0] + viol[0] != 0, any1 = sat[1] + viol[1] != 0;
    if (!any0 && !any1) { return fb; }
    if (cfg.select == 1) {
        // the proposal is violated and its negation is not
        if (viol[0] != 0 && viol[1] == 0) { return -fb; }
        // the negation is violated throughout and the proposal is not
        if (viol[0] == 0 && viol[1] != 0 && sat[1] == 0) { return fb; }
        // only the constraints of the negation are satisfied
        if (!any0 && viol[1] == 0) { return -fb; }
        if (!any1 && viol[0] == 0) { return fb; }
        return 0;
    }
    // the proposal is satisfied throughout and its negation is not satisfied
    if (sat[0] != 0 && viol[0] == 0 && sat[1] == 0) { return -fb; }
    if (sat[0] == 0 && viol[0] != 0 && viol[1] == 0) { return fb; }
    if (!any0) { return viol[1] != 0 && sat[1] == 0 ? -fb : viol[1] == 0 ? fb : 0; }
    return 0;
}
