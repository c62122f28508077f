// Specification of a small theory program: used to build the theory atoms given to the code under test, to
// render clingo input text, and by the oracle.
#pragma once
#include "ref.hh"
#include <algorithm>
#include <array>

//! A term co*var, var == -1 stands for a constant.
struct LTerm {
    Q co;
    int var;
};
struct Elem {
    std::vector<LTerm> terms; // summed up
    int cond = 0;             // boolean literal guarding the element (+-(index), 1-based), 0: unconditional
};
struct Atom {
    enum Kind { SUM, DIFF, DOM, MIN, MAX } kind = SUM;
    std::vector<Elem> elems;
    Rel rel = LE;
    Elem guard;    // right hand side of SUM and DIFF
    Q lo, hi;      // DOM only, variable is elems[0].terms[0].var
    int lit = 0;   // boolean literal (+-(index)), objective statements: ignored
};
struct Prog {
    int nvars = 0;                         // theory variables 0..nvars-1
    int nlits = 0;                         // boolean variables 1..nlits
    std::vector<Atom> atoms;
    std::vector<int> facts;                // literals true initially
    std::vector<std::vector<int>> clauses; // additional boolean clauses
    std::string name;
};

//! How variables are named: 0 by identifiers, 1 by symbols of all kinds.
inline int &name_scheme() { static int scheme = 0; return scheme; }
inline std::string var_name(int v) {
    if (v >= 8) { return name_scheme() == 1 ? "q(" + std::to_string(v) + ")" : "x" + std::to_string(v); }
    static char const *mixed[] = {"\"s\"", "f(1,\"a\")", "(1,2)", "\"\"", "g((x,),-2)", "h(-1)", "(x,)", "p(0)"};
    if (name_scheme() == 1) { return mixed[v]; }
    static char const *n[] = {"x", "y", "z", "u", "v", "w", "s", "t"};
    return n[v];
}

inline std::string q_text(Q const &q) {
    std::ostringstream o;
    auto big = [&](mpz_class const &z) {
        if (abs(z) > 2147483647) { o << "\"" << z << "\""; }
        else if (z < 0) { o << "(" << z << ")"; }
        else { o << z; }
    };
    if (q.get_den() == 1) { big(q.get_num()); }
    else { o << "("; big(q.get_num()); o << "/"; big(q.get_den()); o << ")"; }
    return o.str();
}
inline std::string term_text(LTerm const &t) {
    if (t.var < 0) { return q_text(t.co); }
    if (t.co == 1) { return var_name(t.var); }
    return q_text(t.co) + "*" + var_name(t.var);
}
inline std::string elem_text(Elem const &e) {
    std::string s;
    for (auto const &t : e.terms) { s += (s.empty() ? "" : " + ") + term_text(t); }
    return s.empty() ? "0" : s;
}
inline std::string lit_text(int l) { return (l < 0 ? "not " : "") + std::string("b") + std::to_string(std::abs(l)); }
inline std::string atom_text(Atom const &a) {
    std::string s;
    switch (a.kind) {
        case Atom::SUM: s = "&sum"; break;
        case Atom::DIFF: s = "&diff"; break;
        case Atom::DOM: s = "&dom"; break;
        case Atom::MIN: s = "&minimize"; break;
        case Atom::MAX: s = "&maximize"; break;
    }
    s += " { ";
    if (a.kind == Atom::DOM) {
        s += q_text(a.lo) + ".." + q_text(a.hi) + " } = " + var_name(a.elems[0].terms[0].var);
        return s;
    }
    if (a.kind == Atom::DIFF) {
        auto const &t = a.elems[0].terms;
        auto op = [](LTerm const &x, bool neg) {
            if (x.var >= 0) { return var_name(x.var); }
            return q_text(neg ? Q(-x.co) : x.co);
        };
        s += op(t[0], false) + "-" + op(t[1], true) + " }";
    } else {
        bool sep = false;
        for (auto const &e : a.elems) {
            if (sep) { s += "; "; }
            sep = true;
            s += elem_text(e);
            if (e.cond != 0) { s += ": " + lit_text(e.cond); }
        }
        s += " }";
    }
    if (a.kind == Atom::SUM || a.kind == Atom::DIFF) { s += std::string(" ") + rel_str(a.rel) + " " + elem_text(a.guard); }
    return s;
}
inline std::string prog_text(Prog const &p) {
    std::string s;
    for (int i = 1; i <= p.nlits; ++i) { s += "{b" + std::to_string(i) + "}. "; }
    for (int f : p.facts) { s += ":- " + lit_text(-f) + ". "; }
    for (auto const &c : p.clauses) {
        s += ":-";
        bool sep = false;
        for (int l : c) { s += (sep ? ", " : " ") + lit_text(-l); sep = true; }
        s += ". ";
    }
    for (auto const &a : p.atoms) {
        s += atom_text(a);
        if (a.kind != Atom::MIN && a.kind != Atom::MAX && a.lit != 0) { s += " :- " + lit_text(a.lit); }
        s += ". ";
    }
    return s;
}

//! Truth values of the boolean variables, index 1..nlits: 0 unknown, 1 true, -1 false.
using BAss = std::vector<int8_t>;
inline int8_t bval(BAss const &a, int l) { return l > 0 ? a[l] : static_cast<int8_t>(-a[-l]); }

inline bool has_objective(Prog const &p) {
    for (auto const &a : p.atoms) { if (a.kind == Atom::MIN || a.kind == Atom::MAX) { return true; } }
    return false;
}

//! Oracle for one program.
class Oracle {
  public:
    Oracle(Prog const &p) : p_(p) {}
    //! Constraints active under a (partial) assignment: conditional terms with undetermined condition are free.
    LP system(BAss const &a, std::vector<Q> *obj = nullptr) const {
        std::map<std::pair<int, int>, size_t> aux;
        size_t n = p_.nvars;
        for (auto const &at : p_.atoms) {
            for (auto const &e : at.elems) {
                if (e.cond != 0 && bval(a, e.cond) == 0) {
                    for (auto const &t : e.terms) { if (aux.emplace(std::make_pair(t.var, e.cond), n).second) { ++n; } }
                }
            }
        }
        LP lp(n);
        auto collect = [&](std::vector<Elem> const &elems, Elem const *guard, std::vector<Q> &co, Q &rhs) {
            co.assign(n, 0);
            for (auto const &e : elems) {
                int8_t v = e.cond == 0 ? 1 : bval(a, e.cond);
                if (v < 0) { continue; }
                for (auto const &t : e.terms) {
                    if (v == 0) { co[aux.at({t.var, e.cond})] += t.co; }
                    else if (t.var < 0) { rhs -= t.co; }
                    else { co[t.var] += t.co; }
                }
            }
            if (guard != nullptr) {
                for (auto const &t : guard->terms) {
                    if (t.var < 0) { rhs += t.co; }
                    else { co[t.var] -= t.co; }
                }
            }
        };
        if (obj != nullptr) { obj->assign(n, 0); }
        for (auto const &at : p_.atoms) {
            std::vector<Q> co;
            Q rhs = 0;
            switch (at.kind) {
                case Atom::MIN:
                case Atom::MAX:
                    if (obj != nullptr) {
                        collect(at.elems, nullptr, co, rhs);
                        for (size_t i = 0; i < n; ++i) { (*obj)[i] += at.kind == Atom::MAX ? co[i] : Q(-co[i]); }
                    }
                    break;
                case Atom::DOM:
                    if (at.lit == 0 || bval(a, at.lit) > 0) {
                        co.assign(n, 0);
                        co[at.elems[0].terms[0].var] = 1;
                        lp.add(co, LE, at.hi);
                        lp.add(co, GE, at.lo);
                    }
                    break;
                default:
                    if (at.lit == 0 || bval(a, at.lit) > 0) {
                        collect(at.elems, &at.guard, co, rhs);
                        lp.add(co, at.rel, rhs);
                    }
            }
        }
        return lp;
    }
    static uint64_t code(BAss const &a) {
        uint64_t c = 0;
        for (size_t i = 1; i < a.size(); ++i) { c = c * 3 + static_cast<uint64_t>(a[i] + 1); }
        return c;
    }
    bool feasible(BAss const &a) {
        auto [it, ins] = feas_.emplace(code(a), false);
        if (ins) { it->second = system(a).feasible(); ++lps; }
        return it->second;
    }
    LP::Opt const &optimum(BAss const &a) {
        auto [it, ins] = opt_.emplace(code(a), LP::Opt{});
        if (ins) {
            std::vector<Q> obj;
            auto lp = system(a, &obj);
            it->second = lp.maximize(obj);
            ++lps;
        }
        return it->second;
    }
    //! Check that the given values satisfy all active constraints; conditional constraints with undetermined
    //! condition are skipped. Returns an empty string or a description.
    std::string check_values(BAss const &a, std::vector<QE> const &val) const {
        for (auto const &at : p_.atoms) {
            if (at.kind == Atom::MIN || at.kind == Atom::MAX) { continue; }
            if (at.lit != 0 && bval(a, at.lit) <= 0) { continue; }
            if (at.kind == Atom::DOM) {
                auto const &v = val[at.elems[0].terms[0].var];
                if (v < QE{at.lo} || v > QE{at.hi}) { return atom_text(at) + " violated"; }
                continue;
            }
            QE lhs, rhs;
            bool skip = false;
            for (auto const &e : at.elems) {
                int8_t v = e.cond == 0 ? 1 : bval(a, e.cond);
                if (v < 0) { continue; }
                if (v == 0) { skip = true; break; }
                for (auto const &t : e.terms) { lhs += t.var < 0 ? QE{t.co} : val[t.var] * t.co; }
            }
            if (skip) { continue; }
            for (auto const &t : at.guard.terms) { rhs += t.var < 0 ? QE{t.co} : val[t.var] * t.co; }
            if (!holds(lhs, at.rel, rhs)) { return atom_text(at) + " violated (" + lhs.str() + " vs " + rhs.str() + ")"; }
        }
        return "";
    }
    QE objective(BAss const &a, std::vector<QE> const &val) const {
        QE r;
        for (auto const &at : p_.atoms) {
            if (at.kind != Atom::MIN && at.kind != Atom::MAX) { continue; }
            for (auto const &e : at.elems) {
                if (e.cond != 0 && bval(a, e.cond) <= 0) { continue; }
                for (auto const &t : e.terms) {
                    QE v = t.var < 0 ? QE{t.co} : val[t.var] * t.co;
                    r += at.kind == Atom::MAX ? v : -v;
                }
            }
        }
        return r;
    }
    Prog const &prog() const { return p_; }
    uint64_t lps = 0;

  private:
    Prog p_;
    std::map<uint64_t, bool> feas_;
    std::map<uint64_t, LP::Opt> opt_;
};
