// Enumerated families of small programs with exploration bounds.
#pragma once
#include "cycling.hh"
#include "drive.hh"

struct Case {
    Prog prog;
    Cfg cfg;
    struct Step {
        Prog part; // atoms, facts and clauses added in this step
        Prog all;  // everything up to this step
        int nlits; // boolean variables existing in this step
    };
    std::vector<Step> steps;
    int horizon = 6;         // maximum number of events of a history
    int max_undo = 2;        // maximum number of backjumps
    int batch = 0;           // deliver two literals at once: 1 unordered, 2 ordered pairs
    int extend = 0;          // assign further literals on the current level: 1 above root, 2 everywhere
    bool pos = true, neg = false; // decision signs
    bool mid_models = true;  // completing the assignment is possible at every point
    bool bt = true;          // after a model the backtrack level is raised (enumeration)
    bool decide = false;     // check the sign heuristic in every state
};

namespace fam {

using Terms = std::vector<LTerm>;

inline Atom sum(Terms t, Rel r, Q rhs, int lit) {
    Atom a;
    for (auto &x : t) { a.elems.push_back(Elem{{x}, 0}); }
    a.rel = r;
    a.guard.terms.push_back({rhs, -1});
    a.lit = lit;
    return a;
}
inline Atom csum(std::vector<Elem> e, Rel r, Q rhs, int lit) {
    Atom a;
    a.elems = std::move(e);
    a.rel = r;
    a.guard.terms.push_back({rhs, -1});
    a.lit = lit;
    return a;
}
inline Atom obj(Atom::Kind k, std::vector<Elem> e) {
    Atom a;
    a.kind = k;
    a.elems = std::move(e);
    return a;
}
inline Atom obj(Atom::Kind k, Terms t) {
    std::vector<Elem> e;
    for (auto &x : t) { e.push_back(Elem{{x}, 0}); }
    return obj(k, e);
}
inline Atom dom(int v, Q lo, Q hi, int lit) {
    Atom a;
    a.kind = Atom::DOM;
    a.elems.push_back(Elem{{{1, v}}, 0});
    a.lo = lo;
    a.hi = hi;
    a.lit = lit;
    return a;
}
constexpr int X = 0, Y = 1, Z = 2, U = 3, V = 4, W = 5;

//! Replace every variable v by v+d (in unconditional constraints), which moves all solutions and optima by -d.
inline void shift(Prog &p, Q const &d) {
    for (auto &a : p.atoms) {
        if (a.kind == Atom::DOM) { a.lo -= d; a.hi -= d; continue; }
        if (a.kind != Atom::SUM) { continue; }
        Q c = 0;
        for (auto const &e : a.elems) { for (auto const &t : e.terms) { if (t.var >= 0) { c += t.co; } } }
        for (auto &t : a.guard.terms) { if (t.var < 0) { t.co -= c * d; break; } }
    }
}

//! All k-subsets (or multisets) of 0..n-1 in lexicographic order.
inline void subsets(int n, int k, bool multi, std::function<void(std::vector<int> const &)> const &f) {
    std::vector<int> s(k);
    std::function<void(int, int)> rec = [&](int i, int from) {
        if (i == k) { f(s); return; }
        for (int j = from; j < n; ++j) { s[i] = j; rec(i + 1, multi ? j : j + 1); }
    };
    rec(0, 0);
}

inline Cfg cfg(std::string const &s) {
    Cfg c;
    std::istringstream in(s);
    std::string w;
    while (in >> w) {
        if (w == "strict") { c.strict = true; }
        else if (w == "conf") { c.conflicts = true; }
        else if (w == "bc") { c.bounds = 1; }
        else if (w == "bf") { c.bounds = 2; }
        else if (w == "sm") { c.select = 1; }
        else if (w == "sc") { c.select = 2; }
        else if (w == "sp") { c.store = 1; }
        else if (w == "st") { c.store = 2; }
        else if (w == "inc") { c.incremental = true; }
        else if (w.rfind("o:", 0) == 0) { c.objective = w.substr(2); }
        else if (w != "def") { throw std::logic_error("bad cfg " + w); }
    }
    return c;
}
inline std::vector<Cfg> cfgs(std::vector<std::string> const &v) {
    std::vector<Cfg> r;
    for (auto const &s : v) { r.push_back(cfg(s)); }
    return r;
}
//! Options that must not influence the answers: full product.
inline std::vector<Cfg> all_options(bool strict) {
    std::vector<Cfg> r;
    for (int b = 0; b < 3; ++b) { for (int se = 0; se < 3; ++se) { for (int st = 0; st < 3; ++st) { for (int co = 0; co < 2; ++co) {
        Cfg c;
        c.bounds = b;
        c.select = se;
        c.store = st;
        c.conflicts = co != 0;
        c.strict = strict;
        r.push_back(c);
    } } } }
    return r;
}
inline std::vector<Cfg> main_options() { return cfgs({"def", "bc", "bf", "sp", "st", "conf", "bf st conf", "bc sp"}); }

} // namespace fam

inline std::vector<Case> make_cases(std::string const &family, std::string const &tier) {
    using namespace fam;
    bool thorough = tier == "thorough";
    std::vector<Case> out;
    auto with = [&](Case c, std::vector<Cfg> const &cs, size_t rot, size_t n) {
        // n configurations per program, rotating through the list (n = 0: all)
        if (n == 0 || n > cs.size()) { n = cs.size(); }
        for (size_t i = 0; i < n; ++i) {
            c.cfg = cs[(rot + i * (cs.size() / n)) % cs.size()];
            out.push_back(c);
        }
    };
    auto strictify = [](std::vector<Cfg> v) { for (auto &c : v) { c.strict = true; } return v; };
    size_t rot = 0;

    if (family == "bounds" || family == "bounds-strict") {
        // all multisets of bounds over one variable
        bool strict = family == "bounds-strict";
        std::vector<std::pair<Rel, Q>> kinds;
        for (Rel r : strict ? std::vector<Rel>{LE, GE, EQ, LT, GT} : std::vector<Rel>{LE, GE, EQ}) {
            for (int c = 0; c < (strict ? 2 : 3); ++c) { kinds.emplace_back(r, c); }
        }
        auto opts = main_options();
        if (strict) { opts = strictify(opts); }
        for (int k : {2, 3, 4}) {
            if (k == 4 && !thorough && strict) { continue; }
            subsets(static_cast<int>(kinds.size()), k, true, [&](std::vector<int> const &s) {
                Case c;
                c.prog.nvars = 1;
                c.prog.nlits = k;
                int l = 0;
                for (int i : s) { c.prog.atoms.push_back(sum({{(l % 2) != 0 ? 2 : 1, X}}, kinds[i].first, kinds[i].second * ((l % 2) != 0 ? 2 : 1), l + 1)); ++l; }
                c.horizon = thorough ? 7 : k == 2 ? 7 : k == 3 ? 6 : 5;
                c.max_undo = k == 4 && !thorough ? 1 : 2;
                c.batch = k == 4 && !thorough ? 0 : thorough || k == 2 ? 2 : 1;
                c.extend = k < 3 || thorough ? 2 : 1;
                c.mid_models = k < 4;
                with(c, opts, rot++, k < 4 ? (thorough ? 0 : k == 2 ? 3 : 1) : (thorough ? 2 : 1));
            });
        }
    } else if (family == "rows" || family == "rows-strict") {
        bool strict = family == "rows-strict";
        std::vector<Atom> kinds = {
            sum({{1, X}, {1, Y}}, LE, 1, 0),  sum({{1, X}, {1, Y}}, GE, 2, 0),  sum({{1, X}, {-1, Y}}, LE, 0, 0),
            sum({{1, X}, {-1, Y}}, GE, 1, 0), sum({{1, X}, {2, Y}}, EQ, 1, 0),  sum({{1, X}}, LE, 0, 0),
            sum({{1, X}}, GE, 1, 0),          sum({{1, Y}}, EQ, Q(1, 2), 0),    sum({{-2, Y}}, LE, -2, 0),
            sum({{3, Y}}, LE, 1, 0),          sum({{2, X}, {-3, Y}}, EQ, 2, 0), sum({{-1, X}, {-1, Y}}, GE, -2, 0),
        };
        if (strict) {
            for (size_t i = 0; i < kinds.size(); ++i) {
                if (i % 2 == 0 && kinds[i].rel == LE) { kinds[i].rel = LT; }
                if (i % 2 == 1 && kinds[i].rel == GE) { kinds[i].rel = GT; }
            }
            kinds.push_back(sum({{1, X}, {1, Y}}, GE, 1, 0));
            kinds.push_back(sum({{2, X}}, GT, 0, 0));
            kinds.push_back(sum({{1, X}, {-1, Y}}, GT, 0, 0));
        }
        auto opts = main_options();
        if (strict) { opts = strictify(opts); }
        for (int k : {3, 4, 5}) {
            if (k == 5 && !thorough) { continue; }
            subsets(static_cast<int>(kinds.size()), k, false, [&](std::vector<int> const &s) {
                Case c;
                c.prog.nvars = 2;
                c.prog.nlits = k;
                int l = 0;
                for (int i : s) { auto a = kinds[i]; a.lit = ++l; c.prog.atoms.push_back(a); }
                c.horizon = thorough ? (k < 5 ? 7 : 5) : (k == 3 ? 6 : 5);
                c.max_undo = k == 3 || (thorough && k == 4) ? 2 : 1;
                c.batch = k == 3 || thorough ? 1 : 0;
                c.extend = k == 3 ? 1 : 0;
                c.mid_models = k == 3;
                if (strict && !thorough && (s[0] + s[1] + 2 * s[2] + (k == 4 ? s[3] : 0)) % (k == 4 ? 3 : 2) != 0) { return; }
                with(c, opts, rot++, k == 3 ? (thorough ? 0 : 1) : (k == 4 && thorough ? 2 : 1));
            });
        }
    } else if (family == "rows3") {
        std::vector<Atom> kinds = {
            sum({{1, X}, {1, Y}, {1, Z}}, LE, 2, 0),   sum({{1, X}, {-1, Y}, {2, Z}}, GE, 1, 0), sum({{1, X}, {1, Z}}, GE, 3, 0),
            sum({{1, Y}, {-1, Z}}, LE, -1, 0),         sum({{2, X}, {3, Y}, {-1, Z}}, EQ, 4, 0), sum({{1, X}, {-1, Y}}, EQ, 1, 0),
            sum({{1, X}}, LE, 1, 0),                   sum({{1, Y}}, GE, 1, 0),                  sum({{1, Z}}, EQ, 0, 0),
            sum({{1, Z}}, GE, 1, 0),                   sum({{1, X}, {1, Y}}, GE, 2, 0),          sum({{-1, X}, {1, Y}, {1, Z}}, GE, 1, 0),
        };
        auto opts = main_options();
        for (int k : {4, 5}) {
            subsets(static_cast<int>(kinds.size()), k, false, [&](std::vector<int> const &s) {
                if (k == 5 && !thorough && (s[0] + s[1] * 3 + s[2] * 5 + s[3] * 7 + s[4] * 11) % 4 != 0) { return; }
                Case c;
                c.prog.nvars = 3;
                c.prog.nlits = k;
                int l = 0;
                for (int i : s) { auto a = kinds[i]; a.lit = ++l; c.prog.atoms.push_back(a); }
                c.horizon = 5 + (thorough && k == 4 ? 2 : 0);
                c.max_undo = thorough && k == 4 ? 2 : 1;
                c.mid_models = false;
                c.batch = thorough ? 1 : 0;
                with(c, opts, rot++, thorough ? 2 : 1);
            });
        }
    } else if (family == "cond") {
        // conditional elements, including constants and repeated variables
        std::vector<Elem> es = {
            {{{1, X}}, 1}, {{{1, X}}, -1}, {{{2, Y}}, 2}, {{{1, X}, {1, Y}}, 2}, {{{1, Y}}, 0}, {{{1, -1}}, 1}, {{{-3, -1}}, -2}, {{{1, X}, {2, -1}}, 2}, {{{-1, X}}, 2}, {{{1, X}}, 0},
        };
        std::vector<Atom> ctx = {sum({{1, X}}, GE, 1, 0), sum({{1, Y}}, LE, 2, 0), sum({{1, X}}, LE, 1, 4), sum({{1, Y}}, EQ, 1, 4)};
        auto opts = main_options();
        for (int k : {1, 2, 3}) {
            subsets(static_cast<int>(es.size()), k, false, [&](std::vector<int> const &s) {
                bool any = false;
                std::vector<Elem> el;
                for (int i : s) { any = any || es[i].cond != 0; el.push_back(es[i]); }
                if (!any) { return; }
                for (auto [rel, rhs] : std::vector<std::pair<Rel, int>>{{LE, 0}, {GE, 2}, {EQ, 3}}) {
                    if (k == 3 && !thorough && rel == LE) { continue; }
                    Case c;
                    c.prog.nvars = 2;
                    c.prog.nlits = 4;
                    c.prog.atoms = ctx;
                    auto a = csum(el, rel, rhs, 3);
                    c.prog.atoms.push_back(a);
                    c.neg = true;
                    c.horizon = thorough ? 6 : (k < 3 ? 5 : 4);
                    c.max_undo = 1;
                    c.mid_models = k == 1;
                    with(c, opts, rot++, 1 + (thorough ? 1 : 0));
                }
            });
        }
        // the same conditional term in two atoms and in the objective
        for (int i = 0; i < static_cast<int>(es.size()); ++i) {
            for (int j = 0; j < static_cast<int>(es.size()); ++j) {
                if (es[i].cond == 0 && es[j].cond == 0) { continue; }
                Case c;
                c.prog.nvars = 2;
                c.prog.nlits = 4;
                c.prog.atoms = ctx;
                c.prog.atoms.push_back(csum({es[i]}, GE, 1, 3));
                c.prog.atoms.push_back(csum({es[j], {{{1, Y}}, 0}}, LE, 3, -3));
                c.neg = true;
                c.horizon = 4 + (thorough ? 2 : 0);
                c.max_undo = 1;
                c.mid_models = false;
                with(c, opts, rot++, 1);
            }
        }
    } else if (family == "obj" || family == "obj-strict") {
        bool strict = family == "obj-strict";
        std::vector<Atom> kinds = {
            sum({{1, X}, {1, Y}}, LE, 3, 0), sum({{1, X}}, LE, 2, 0), sum({{1, X}, {-1, Y}}, GE, -1, 0), sum({{1, Y}}, LE, 1, 0), sum({{1, X}, {2, Y}}, EQ, 2, 0),
            sum({{1, X}}, GE, 1, 0), sum({{1, Y}}, GE, 0, 0), sum({{2, X}, {1, Y}}, LE, 3, 0), sum({{1, X}, {-1, Y}}, LE, 1, 0),
        };
        if (strict) { for (size_t i = 0; i < kinds.size(); i += 2) { if (kinds[i].rel == LE) { kinds[i].rel = LT; } else if (kinds[i].rel == GE) { kinds[i].rel = GT; } } kinds[3].rel = LT; kinds[5].rel = GT; }
        std::vector<std::vector<Atom>> objs = {
            {obj(Atom::MAX, Terms{{1, X}, {1, Y}})}, {obj(Atom::MIN, Terms{{1, X}, {2, Y}})}, {obj(Atom::MAX, Terms{{1, X}})}, {obj(Atom::MAX, Terms{{3, X}, {-1, Y}})},
            {obj(Atom::MIN, Terms{{-1, X}}), obj(Atom::MAX, Terms{{1, Y}})}, {obj(Atom::MAX, std::vector<Elem>{{{{1, X}}, 1}, {{{-1, Y}}, 0}})}, {obj(Atom::MIN, std::vector<Elem>{{{{1, X}}, -2}, {{{1, X}}, 1}})},
        };
        auto opts = main_options();
        if (strict) { opts = strictify(opts); }
        for (int k : {3, 4}) {
            subsets(static_cast<int>(kinds.size()), k, false, [&](std::vector<int> const &s) {
                for (size_t o = 0; o < objs.size(); ++o) {
                    if (!thorough && k == 4 && (s[0] + s[1] + s[2] + s[3]) % objs.size() != o) { continue; }
                    if (!thorough && k == 3 && strict && (s[0] + s[1] + s[2]) % 2 != static_cast<int>(o) % 2) { continue; }
                    for (int box = 0; box < 4; ++box) { // boxed or not, shifted or not
                        if (box % 2 == 1 && !thorough && k == 4) { continue; }
                        if (!thorough && (box >= 2) != ((o + s[0] + s[1] + s[k - 1]) % 2 == 1)) { continue; }
                        Case c;
                        c.prog.nvars = 2;
                        c.prog.nlits = k;
                        int l = 0;
                        for (int i : s) { auto a = kinds[i]; a.lit = ++l; c.prog.atoms.push_back(a); }
                        if (box % 2 != 0) { c.prog.atoms.push_back(dom(X, -2, 3, 0)); c.prog.atoms.push_back(dom(Y, 0, Q(5, 2), 0)); }
                        if (box >= 2) { shift(c.prog, k == 3 ? 5 : Q(7, 2)); }
                        for (auto const &a : objs[o]) { c.prog.atoms.push_back(a); }
                        c.neg = k == 3;
                        c.horizon = 5 + (thorough ? 1 : 0);
                        c.max_undo = k == 3 ? 2 : 1;
                        if (k == 3 && !thorough) { c.horizon = 4; }
                        with(c, opts, rot++, 1);
                    }
                }
            });
        }
    } else if (family == "global" || family == "global-strict") {
        bool strict = family == "global-strict";
        std::vector<Atom> kinds = {
            sum({{1, X}, {1, Y}}, LE, 2, 0), sum({{1, X}}, LE, 1, 0), sum({{1, X}}, LE, 2, 0), sum({{1, Y}}, LE, 1, 0), sum({{1, X}, {1, Y}}, EQ, 1, 0), sum({{1, X}, {-1, Y}}, LE, 0, 0), sum({{2, X}, {1, Y}}, LE, 3, 0),
        };
        if (strict) { kinds[1].rel = LT; kinds[3].rel = LT; kinds[5].rel = LT; }
        std::vector<std::vector<Atom>> objs = {{obj(Atom::MAX, Terms{{1, X}, {1, Y}})}, {obj(Atom::MIN, Terms{{-1, X}})}, {obj(Atom::MAX, std::vector<Elem>{{{{1, X}}, 1}, {{{1, Y}}, 0}})}};
        std::vector<std::string> steps = strict ? std::vector<std::string>{"global", "global,e", "global,1", "global,1/2"} : std::vector<std::string>{"global", "global,1", "global,1/2"};
        std::vector<std::string> extra = {"def", "bf", "st", "bc sp conf"};
        for (int k : {2, 3}) {
            subsets(static_cast<int>(kinds.size()), k, false, [&](std::vector<int> const &s) {
                for (size_t o = 0; o < objs.size(); ++o) {
                    for (int box = 0; box < 4; ++box) {
                        for (auto const &st : steps) {
                            if (!thorough && (box >= 2) != ((o + s[0] + s[k - 1]) % 2 == 1)) { continue; }
                            Case c;
                            c.prog.nvars = 2;
                            c.prog.nlits = k;
                            int l = 0;
                            for (int i : s) { auto a = kinds[i]; a.lit = ++l; c.prog.atoms.push_back(a); }
                            if (box % 2 != 0) { c.prog.atoms.push_back(dom(X, 0, 3, 0)); c.prog.atoms.push_back(dom(Y, 0, 2, 0)); }
                            if (box >= 2) { shift(c.prog, k == 2 ? 5 : Q(9, 2)); }
                            for (auto const &a : objs[o]) { c.prog.atoms.push_back(a); }
                            c.neg = k == 2 || thorough;
                            c.horizon = k == 2 ? 7 : (thorough ? 6 : 6);
                            c.max_undo = k == 2 ? 3 : 2;
                            auto op = cfgs(extra);
                            for (auto &x : op) { x.strict = strict; x.objective = st; x.incremental = rot % 2 != 0; }
                            if (!thorough && k == 3 && rot % 3 != 0) { ++rot; continue; }
                            with(c, op, rot++, thorough ? 0 : 1);
                        }
                    }
                }
            });
        }
    } else if (family == "const" || family == "const-strict") {
        // constraints without variables (also after simplification): every relation around its bound, in different contexts
        bool strict = family == "const-strict";
        std::vector<std::pair<std::vector<Elem>, int>> lhs = {
            {{}, 0}, {{{{{1, X}}, 0}, {{{-1, X}}, 0}}, 0}, {{{{{2, -1}}, 0}}, 2}, {{{{{0, Y}}, 0}}, 0}, {{{{{1, -1}}, 0}, {{{1, X}, {-3, -1}}, 0}, {{{-1, X}}, 0}}, -2}, {{{{{1, X}}, 2}, {{{-1, X}}, 2}}, 0},
        };
        std::vector<Atom> ctx = {sum({{1, X}}, GE, 1, 2), sum({{1, X}, {1, Y}}, strict ? LT : LE, 2, 3), sum({{1, Y}}, strict ? GT : GE, 1, 1)};
        auto opts = main_options();
        if (strict) { opts = strictify(opts); }
        for (auto const &[es, base] : lhs) {
            for (Rel r : strict ? std::vector<Rel>{LT, GT, LE, GE, EQ} : std::vector<Rel>{LE, GE, EQ}) {
                for (Q d : {Q(-1), Q(-1, 2), Q(0), Q(1)}) {
                    for (int lit : {1, -1, 3, 0}) {
                        if (!thorough && lit == 0 && es.size() > 1) { continue; }
                        Case c;
                        c.prog.nvars = 2;
                        c.prog.nlits = 3;
                        c.prog.atoms = ctx;
                        c.prog.atoms.insert(c.prog.atoms.begin() + static_cast<long>(rot % 3), csum(es, r, base + d, lit));
                        c.neg = true;
                        c.horizon = 4 + (thorough ? 1 : 0);
                        c.max_undo = 1;
                        c.batch = 1;
                        c.extend = 1;
                        c.mid_models = false;
                        with(c, opts, rot++, thorough ? 3 : 1);
                    }
                }
            }
        }
    } else if (family == "multi") {
        // several constraints per literal, complementary literals, unconditional constraints, facts and clauses
        std::vector<Atom> kinds = {
            sum({{1, X}}, LE, 1, 0), sum({{1, X}}, GE, 1, 0), sum({{1, X}}, EQ, 2, 0), sum({{1, X}, {1, Y}}, LE, 2, 0), sum({{1, X}, {-1, Y}}, GE, 1, 0), sum({{1, Y}}, EQ, 0, 0), dom(Y, 0, 1, 0), sum({{1, X}, {1, Y}}, EQ, 1, 0), sum({}, LE, 0, 0), sum({}, GE, 1, 0), sum({}, LT, 1, 0), sum({{1, X}, {-1, X}}, EQ, 1, 0), sum({}, GT, 0, 0), sum({}, LE, -1, 0), sum({}, GE, 0, 0), sum({}, EQ, 0, 0), sum({}, LE, 1, 0), sum({}, GE, -1, 0),
        };
        std::vector<std::vector<int>> lits = {{1, 1, -1, 2}, {1, -1, 2, 2}, {0, 1, -1, 2}, {1, -1, 2, -2}, {1, 1, 1, 2}, {0, 0, 1, 2}, {1, 2, 3, -3}};
        auto opts = main_options();
        for (size_t pat = 0; pat < lits.size(); ++pat) {
            subsets(static_cast<int>(kinds.size()), 4, false, [&](std::vector<int> const &s) {
                int trivial = 0;
                for (int i : s) { trivial += i >= 8 ? 1 : 0; }
                if (trivial > 1) { return; }
                if (!thorough && (s[0] * 1 + s[1] * 3 + s[2] * 5 + s[3] * 7) % 7 != static_cast<int>(pat)) { return; }
                Case c;
                c.prog.nvars = 2;
                c.prog.nlits = 3;
                for (int i = 0; i < 4; ++i) { auto a = kinds[s[i]]; a.lit = lits[pat][i]; if (a.rel == LT || a.rel == GT) { c.cfg.strict = true; } c.prog.atoms.push_back(a); }
                bool strict = c.cfg.strict;
                if (rot % 5 == 1) { c.prog.facts = {3}; }
                if (rot % 5 == 2) { c.prog.clauses = {{-1, 2}}; }
                if (rot % 5 == 3) { c.prog.clauses = {{1, 2, 3}}; }
                c.neg = true;
                c.horizon = 5;
                c.max_undo = 1;
                c.batch = 1;
                c.extend = 2;
                c.mid_models = false;
                with(c, strict ? strictify(opts) : opts, rot++, 1);
            });
        }
    } else if (family == "big") {
        // coefficients beyond 31, 62, 64 bits and fractions with huge denominators
        mpz_class p31("2147483648"), p62("4611686018427387904"), p63("9223372036854775808"), p64("18446744073709551616"), p100("1267650600228229401496703205376");
        std::vector<Q> big = {Q(p31), Q(p62), Q(p63), Q(p64), Q(p100), Q(mpz_class(1), p63), Q(p64, mpz_class(3)), Q(mpz_class(p62 - 1)), Q(mpz_class(p62 + 1)), Q(mpz_class(-p63))};
        auto opts = main_options();
        for (auto const &b1 : big) {
            for (auto const &b2 : big) {
                for (int form = 0; form < 3; ++form) {
                    Case c;
                    c.prog.nvars = 2;
                    c.prog.nlits = 4;
                    auto &at = c.prog.atoms;
                    if (form == 0) {
                        // x >= b1 and x <= b2 and nearby values
                        at.push_back(sum({{1, X}}, GE, b1, 1));
                        at.push_back(sum({{1, X}}, LE, b2, 2));
                        at.push_back(sum({{1, X}}, EQ, b1 - 1, 3));
                        at.push_back(sum({{1, X}}, GE, b2 + Q(1, 7), 4));
                    } else if (form == 1) {
                        at.push_back(sum({{b1, X}, {1, Y}}, GE, b2, 1));
                        at.push_back(sum({{1, X}, {-b2, Y}}, LE, b1, 2));
                        at.push_back(sum({{b2, X}, {b1, Y}}, EQ, 1, 3));
                        at.push_back(sum({{1, X}}, GE, b2, 4));
                    } else {
                        at.push_back(sum({{b1, X}, {b2, Y}}, LE, b1 * b2, 1));
                        at.push_back(sum({{b1 + 1, X}, {b2, Y}}, GE, b1 * b2 + 1, 2));
                        at.push_back(sum({{1, Y}}, EQ, b1, 3));
                        at.push_back(sum({{1, X}, {1, Y}}, EQ, b1 + b2, 4));
                    }
                    c.horizon = 4 + (thorough ? 2 : 0);
                    c.max_undo = 1;
                    c.mid_models = false;
                    with(c, opts, rot++, thorough ? 2 : 1);
                }
            }
        }
    } else if (family == "options") {
        // full option product over selected programs
        std::vector<Prog> progs;
        auto P = [&](int nv, int nl, std::vector<Atom> at) { Prog p; p.nvars = nv; p.nlits = nl; p.atoms = std::move(at); progs.push_back(p); };
        P(2, 3, {sum({{1, X}, {1, Y}}, LE, 1, 1), sum({{1, X}}, GE, 1, 2), sum({{1, Y}}, GE, 1, 3)});
        P(2, 3, {sum({{1, X}, {-1, Y}}, GE, 1, 1), sum({{1, X}}, LE, 1, 2), sum({{1, X}, {1, Y}}, EQ, 2, 3)});
        P(2, 3, {sum({{1, X}, {1, Y}}, LE, 1, 1), sum({{1, X}}, EQ, 1, 2), sum({{1, Y}}, EQ, 1, 3), sum({{1, X}}, LE, 0, -2)});
        P(1, 3, {sum({{1, X}}, LE, 1, 1), sum({{1, X}}, GE, 2, 2), sum({{1, X}}, EQ, 0, 3), sum({{1, X}}, GE, 1, -1)});
        // bounds that touch
        P(1, 3, {sum({{1, X}}, LE, 1, 1), sum({{1, X}}, GE, 1, 2), sum({{1, X}}, EQ, 1, 3), sum({{1, X}}, EQ, 2, -2)});
        P(2, 3, {sum({{1, X}}, GE, 1, 1), sum({{1, X}, {1, Y}}, EQ, 2, 2), sum({{1, Y}}, LE, 1, 3), sum({{1, X}}, LE, 1, 2), sum({{1, Y}}, GE, 1, -1)});
        P(3, 3, {sum({{1, X}, {1, Y}, {1, Z}}, LE, 2, 1), sum({{1, X}, {-1, Y}}, GE, 1, 2), sum({{1, Z}, {1, Y}}, EQ, 3, 3), sum({{1, Y}}, GE, 1, -1)});
        P(2, 3, {csum({{{{1, X}}, 1}, {{{1, Y}}, 2}}, GE, 2, 3), sum({{1, X}}, LE, 1, 0), sum({{1, Y}}, LE, 1, 0)});
        P(2, 2, {sum({{1, X}, {1, Y}}, LE, 2, 1), sum({{1, X}}, LE, 1, 2), sum({{1, X}}, LE, 5, 0), sum({{1, Y}}, LE, 5, 0), obj(Atom::MAX, Terms{{2, X}, {1, Y}})});
        for (size_t i = 0; i < progs.size(); ++i) {
            for (int strict = 0; strict < 2; ++strict) {
                Case c;
                c.prog = progs[i];
                if (strict != 0) { for (auto &a : c.prog.atoms) { if (a.kind == Atom::SUM && a.lit == 1) { a.rel = a.rel == LE ? LT : a.rel == GE ? GT : a.rel; } } }
                c.neg = true;
                c.horizon = 5 + (thorough ? 1 : 0);
                c.max_undo = 1 + (thorough ? 1 : 0);
                c.mid_models = true;
                c.decide = true;
                with(c, all_options(strict != 0), 0, 0);
            }
        }
    } else if (family == "select") {
        std::vector<Atom> kinds = {
            sum({{1, X}}, LE, 1, 0), sum({{-1, X}}, LE, -1, 0), sum({{1, X}}, EQ, 0, 0), sum({{1, X}, {1, Y}}, GE, 1, 0), sum({{1, X}, {-1, Y}}, EQ, 0, 0), sum({{2, Y}}, GE, 1, 0), sum({{1, X}, {1, Y}}, LE, -1, 0), sum({{1, X}, {2, Y}}, LE, 0, 0), sum({{1, Y}}, LT, 0, 0), sum({{1, X}, {1, Y}}, GT, 2, 0),
        };
        std::vector<std::string> sel = {"sm", "sc", "def", "sm bf", "sc st"};
        subsets(static_cast<int>(kinds.size()), 3, false, [&](std::vector<int> const &s) {
            for (int sgn = 0; sgn < 4; ++sgn) {
                Case c;
                c.prog.nvars = 2;
                c.prog.nlits = 4; // the last one has no constraint
                bool strict = false;
                for (int i = 0; i < 3; ++i) { auto a = kinds[s[i]]; strict = strict || a.rel == LT || a.rel == GT; a.lit = ((sgn >> i) & 1) != 0 ? -(i + 1) : i + 1; c.prog.atoms.push_back(a); }
                c.neg = true;
                c.horizon = thorough ? 5 : 4;
                c.max_undo = 1;
                c.mid_models = false;
                c.decide = true;
                auto op = cfgs(sel);
                for (auto &o : op) { o.strict = strict; }
                if (!thorough && (s[0] + s[1] + s[2]) % 2 != sgn % 2) { continue; }
                with(c, op, rot++, thorough ? 0 : 3);
            }
        });
        // several constraints, among them domains, per literal
        kinds.push_back(dom(X, -1, 1, 0));
        kinds.push_back(dom(Y, 1, 2, 0));
        kinds.push_back(dom(X, 1, 3, 0));
        std::vector<std::vector<int>> pats = {{1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {1, -1, 2}, {1, 1, -1}, {1, -1, 1}, {-1, 1, 1}, {-1, -1, 1}, {-1, -1, 2}, {1, 1, 1}, {-1, -1, -1}};
        subsets(static_cast<int>(kinds.size()), 3, false, [&](std::vector<int> const &s) {
            for (auto const &pat : pats) {
                ++rot;
                if (!thorough && rot % 3 != 0) { continue; }
                Case c;
                c.prog.nvars = 2;
                c.prog.nlits = 3;
                bool strict = false;
                for (int i = 0; i < 3; ++i) { auto a = kinds[s[i]]; strict = strict || a.rel == LT || a.rel == GT; a.lit = pat[i]; c.prog.atoms.push_back(a); }
                c.prog.atoms.push_back(sum({{1, X}, {3, Y}}, GE, 2, 3)); // to move to other values
                c.neg = true;
                c.horizon = thorough ? 4 : 3;
                c.max_undo = 1;
                c.mid_models = false;
                c.decide = true;
                auto op = cfgs(sel);
                for (auto &o : op) { o.strict = strict; }
                with(c, op, rot / 3, thorough ? 0 : 2);
            }
        });
    } else if (family == "steps") {
        // incremental solving: constraints, variables and literals added between solve calls
        std::vector<Atom> kinds = {
            sum({{1, X}}, LE, 1, 0), sum({{1, X}}, GE, 1, 0), sum({{1, X}, {1, Y}}, LE, 2, 0), sum({{1, Y}}, EQ, 1, 0), sum({{1, X}, {-1, Z}}, GE, 1, 0), sum({{1, Z}}, GE, 1, 0), sum({{1, X}}, EQ, 2, 0),
        };
        std::vector<std::string> ops = {"inc", "inc bf", "inc st", "inc conf bc", "inc o:global", "inc o:global,1", "def", "inc sp"};
        std::vector<std::vector<int>> lits = {{1, 2, 3, 1}, {1, 2, 3, 4}, {1, 0, -1, 3}, {0, 1, 3, 3}, {1, 2, 0, -2}, {1, 1, 3, -3}};
        subsets(static_cast<int>(kinds.size()), 4, false, [&](std::vector<int> const &s0) {
            std::vector<int> s = s0;
            do {
                // the first two atoms belong to step one, unordered within a step
                if (s[0] > s[1] || s[2] > s[3]) { continue; }
                for (size_t pat = 0; pat < lits.size(); ++pat) {
                    ++rot;
                    if (!thorough && rot % 6 != 0) { continue; }
                    for (int o = 0; o < 2; ++o) {
                        auto cf = cfg(ops[(rot / 6 + o * 3) % ops.size()]);
                        Case c;
                        c.cfg = cf;
                        Prog p1, p2, all;
                        p1.nvars = p2.nvars = all.nvars = 3;
                        auto add = [&](Prog &p, int i) { auto a = kinds[s[i]]; a.lit = lits[pat][i]; p.atoms.push_back(a); };
                        add(p1, 0);
                        add(p1, 1);
                        int n1 = std::max({std::abs(lits[pat][0]), std::abs(lits[pat][1]), 1}), n2 = std::max({n1, std::abs(lits[pat][2]), std::abs(lits[pat][3])});
                        if (cf.global()) { (pat % 3 == 1 ? p2 : p1).atoms.push_back(dom(X, 0, 4, 0)); p1.atoms.push_back(obj(Atom::MAX, Terms{{pat < 3 ? 1 : -1, X}})); }
                        p1.nlits = n1;
                        all = p1;
                        add(p2, 2);
                        add(p2, 3);
                        if (cf.global() && pat % 2 == 0) { p2.atoms.push_back(sum({{1, Y}}, LE, 3, 0)); p2.atoms.push_back(obj(Atom::MIN, Terms{{-1, Y}})); }
                        p2.nlits = n2;
                        c.steps.push_back({p1, p1, n1});
                        for (auto const &a : p2.atoms) { all.atoms.push_back(a); }
                        all.nlits = n2;
                        c.steps.push_back({p2, all, n2});
                        c.prog = all;
                        for (auto &st : c.steps) { st.all.nlits = n2; }
                        c.extend = 2;
                        c.horizon = 5 + (thorough ? 1 : 0);
                        c.max_undo = 1;
                        c.mid_models = cf.global();
                        out.push_back(c);
                    }
                }
            } while (std::next_permutation(s.begin(), s.end()));
        });
        // three steps without new atoms: facts and bounds of earlier steps stay
        for (auto const &o : ops) {
            for (size_t i = 0; i < kinds.size(); ++i) {
                for (size_t j = 0; j < kinds.size(); ++j) {
                    if (i == j) { continue; }
                    Case c;
                    c.cfg = cfg(o);
                    Prog p, e;
                    p.nvars = e.nvars = 3;
                    p.nlits = e.nlits = 2;
                    auto a = kinds[i];
                    a.lit = 1;
                    p.atoms.push_back(a);
                    a = kinds[j];
                    a.lit = 2;
                    p.atoms.push_back(a);
                    if (c.cfg.global()) { p.atoms.push_back(dom(X, (i + j) % 2 == 0 ? 0 : 1, 4, 0)); p.atoms.push_back(obj((i + j) % 2 == 0 ? Atom::MAX : Atom::MIN, Terms{{1, X}})); }
                    c.prog = p;
                    c.steps = {{p, p, 2}, {e, p, 2}, {e, p, 2}};
                    c.extend = 2;
                    c.horizon = 6 + (thorough ? 1 : 0);
                    c.max_undo = 1;
                    c.mid_models = c.cfg.global();
                    out.push_back(c);
                }
            }
        }
    } else if (family == "cycle") {
        // degenerate linear programs known for cycling, all orders of variables and constraints
        struct LPd { int n; std::vector<std::vector<Q>> rows; std::vector<Q> rhs; std::vector<Q> ob; };
        std::vector<LPd> lps = {
            // Beale
            {4, {{Q(1, 4), -60, Q(-1, 25), 9}, {Q(1, 2), -90, Q(-1, 50), 3}, {0, 0, 1, 0}}, {0, 0, 1}, {Q(3, 4), -150, Q(1, 50), -6}},
            // Hoffman / Chvatal
            {4, {{Q(1, 2), Q(-11, 2), Q(-5, 2), 9}, {Q(1, 2), Q(-3, 2), Q(-1, 2), 1}, {1, 0, 0, 0}}, {0, 0, 1}, {10, -57, -9, -24}},
            // Kuhn
            {4, {{-2, -9, 1, 9}, {Q(1, 3), 1, Q(-1, 3), -2}, {2, 3, -1, -12}}, {0, 0, 2}, {2, 3, -1, -12}},
            // Marshall and Suurballe
            {4, {{Q(1, 2), Q(-11, 2), Q(-5, 2), 9}, {Q(1, 2), Q(-3, 2), Q(-1, 2), 1}}, {0, 0}, {1, -7, -1, -2}},
            // Solow
            {4, {{-2, -9, 1, 9}, {Q(1, 3), 1, Q(-1, 3), -2}}, {0, 0}, {2, 2, -8, -2}},
            // Sierksma
            {4, {{1, -2, -3, 4}, {4, -3, -2, 1}, {1, 1, 1, 1}}, {0, 0, 1}, {3, -80, 2, -24}},
        };
        for (size_t li = 0; li < lps.size(); ++li) {
            auto const &lp = lps[li];
            std::vector<int> vp(lp.n);
            for (int i = 0; i < lp.n; ++i) { vp[i] = i; }
            do {
                std::vector<int> rp(lp.rows.size());
                for (size_t i = 0; i < rp.size(); ++i) { rp[i] = static_cast<int>(i); }
                do {
                    for (int form = 0; form < 3; ++form) {
                        if (!thorough && form == 2 && rp[0] != 0) { continue; }
                        Case c;
                        c.prog.nvars = lp.n;
                        c.prog.nlits = 1;
                        auto row = [&](std::vector<Q> const &co) { Terms t; for (int i = 0; i < lp.n; ++i) { if (co[vp[i]] != 0) { t.push_back({co[vp[i]], i}); } } return t; };
                        // the order of variables is determined by their first occurrence
                        if (form == 0) { for (int i = 0; i < lp.n; ++i) { c.prog.atoms.push_back(sum({{1, i}}, GE, 0, 0)); } }
                        for (int r : rp) { c.prog.atoms.push_back(sum(row(lp.rows[r]), LE, lp.rhs[r], 0)); }
                        if (form != 0) { for (int i = 0; i < lp.n; ++i) { c.prog.atoms.push_back(sum({{1, i}}, GE, 0, 0)); } }
                        if (form == 2) { c.prog.atoms.push_back(sum(row(lp.ob), GE, 0, 1)); c.prog.atoms.push_back(sum(row(lp.ob), GE, Q(1, 100), -1)); }
                        else { c.prog.atoms.push_back(obj(form == 0 ? Atom::MAX : Atom::MIN, row(form == 0 ? lp.ob : [&] { auto o = lp.ob; for (auto &q : o) { q = -q; } return o; }()))); }
                        c.horizon = 2;
                        c.max_undo = 1;
                        c.neg = true;
                        with(c, main_options(), rot++, 1);
                    }
                } while (std::next_permutation(rp.begin(), rp.end()));
            } while (std::next_permutation(vp.begin(), vp.end()));
        }
        // programs on which every other selection of pivots loops
        for (auto const &d : cycling()) {
            int m = d[0], n = d[1];
            for (int form = 0; form < 3; ++form) {
                Case c;
                c.prog.nvars = n;
                c.prog.nlits = 2;
                int lit = form == 1 ? 1 : 0;
                auto bound = [&](Terms t, int k, int l, int u) {
                    if ((k & 1) != 0) { c.prog.atoms.push_back(sum(t, GE, l, lit)); }
                    if ((k & 2) != 0) { c.prog.atoms.push_back(sum(t, LE, u, lit)); }
                };
                int const *bs = d.data() + 3 + m * (n + 2);
                auto bounds = [&] {
                    for (int j = 0; j < n; ++j) {
                        // a redundant bound determines the order of variables
                        if (bs[3 * j] == 0) { bound({{1, j}}, 1, -1000, 0); }
                        else { bound({{1, j}}, bs[3 * j], bs[3 * j + 1], bs[3 * j + 2]); }
                    }
                };
                if (form < 2) { bounds(); }
                for (int i = 0; i < m; ++i) {
                    int const *r = d.data() + 3 + i * (n + 2);
                    Terms t;
                    for (int j = 0; j < n; ++j) { if (r[j] != 0) { t.push_back({r[j], j}); } }
                    if (d[2] != 0 && i + 1 == m) {
                        if (form == 0) { c.prog.atoms.push_back(obj(Atom::MAX, t)); }
                        else {
                            for (auto &x : t) { x.co = -x.co; }
                            c.prog.atoms.push_back(obj(Atom::MIN, t));
                        }
                    }
                    else if (form == 2) { c.prog.atoms.push_back(sum(t, r[n] == 1 ? GE : LE, r[n + 1], 1 + i % 2)); }
                    else { bound(t, r[n], r[n + 1], r[n + 1]); }
                }
                if (form == 2) { bounds(); }
                c.horizon = 3;
                c.max_undo = 1;
                c.mid_models = false;
                with(c, main_options(), rot++, thorough ? 0 : 1);
            }
        }
        // cube-like feasibility problems where equalities force many degenerate pivots
        std::vector<Terms> rows = {{{1, X}, {1, Y}}, {{1, Y}, {1, Z}}, {{1, X}, {-1, Z}}, {{1, X}, {1, Y}, {1, Z}}, {{1, X}, {-2, Y}, {1, Z}}, {{2, X}, {-1, Y}, {-1, Z}}};
        subsets(static_cast<int>(rows.size()), 4, false, [&](std::vector<int> const &s) {
            for (int m = 0; m < 81; ++m) {
                Case c;
                c.prog.nvars = 3;
                c.prog.nlits = 2;
                int mm = m;
                for (int i = 0; i < 4; ++i) { Rel r = std::array<Rel, 3>{LE, GE, EQ}[mm % 3]; mm /= 3; c.prog.atoms.push_back(sum(rows[s[i]], r, 0, i == 3 ? 1 : 0)); }
                c.prog.atoms.push_back(sum({{1, X}}, GE, 1, 2));
                c.prog.atoms.push_back(sum({{1, Y}}, LE, 1, 0));
                c.prog.atoms.push_back(obj(Atom::MAX, Terms{{1, X}, {1, Y}, {1, Z}}));
                c.horizon = 4;
                c.max_undo = 1;
                with(c, main_options(), rot++, 1);
            }
        });
    } else { throw std::runtime_error("unknown family " + family); }
    return out;
}
