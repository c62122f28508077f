// Structured programs of the size of small applications: up to 8 theory variables, 8 boolean variables and 30
// constraints. Their parameters run through tables given by a fixed recurrence, numbered by a seed.
#pragma once
#include "families.hh"

namespace fam {

struct Gen {
    uint64_t s;
    explicit Gen(uint64_t seed) : s(seed * 2654435761U + 12345) {}
    int operator()(int lo, int hi) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        return lo + static_cast<int>((s >> 33) % static_cast<uint64_t>(hi - lo + 1));
    }
};

inline Q frac(int n, int d) {
    Q q(n, d);
    q.canonicalize();
    return q;
}

inline char const *const large_kinds[] = {"chain", "shop", "dense", "transport", "bounds", "fractions", "cond", "packed", "klee", "equal", "ties", "mixed"};

inline Prog large_program(std::string const &kind, int seed, bool strict) {
    Gen g(seed);
    Prog p;
    auto &at = p.atoms;
    auto rel = [&](Rel r) { return !strict || g(0, 2) != 0 ? r : r == LE ? LT : r == GE ? GT : r; };
    auto add = [&](Terms t, Rel r, Q rhs, int lit) { at.push_back(sum(std::move(t), rel(r), std::move(rhs), lit)); };
    auto sign = [&](int b) { return g(0, 3) == 0 ? -b : b; };
    if (kind == "chain") {
        // differences along a chain that is closed to cycles
        p.nvars = p.nlits = 8;
        for (int i = 0; i < 7; ++i) { add({{1, i}, {-1, i + 1}}, LE, g(-2, 2), sign(i + 1)); }
        add({{1, 7}, {-1, 0}}, LE, g(-3, 3), sign(8));
        add({{1, 4}, {-1, g(0, 2)}}, LE, g(-2, 1), g(1, 8));
        add({{1, g(5, 7)}, {-1, 1}}, g(0, 1) != 0 ? LE : EQ, g(-2, 1), -g(1, 8));
        at.push_back(dom(g(0, 7), -g(0, 3), g(0, 4), 0));
        if (g(0, 1) != 0) { at.push_back(obj(g(0, 1) != 0 ? Atom::MAX : Atom::MIN, Terms{{1, g(0, 3)}, {-1, g(4, 7)}})); }
    } else if (kind == "shop") {
        // tasks on one machine, one literal per order of two tasks
        p.nvars = 5;
        p.nlits = 6;
        int d[4];
        for (int &x : d) { x = g(1, 4); }
        int b = 0;
        for (int i = 0; i < 4; ++i) {
            for (int j = i + 1; j < 4; ++j) {
                ++b;
                add({{1, i}, {-1, j}}, LE, -d[i], b);
                add({{1, j}, {-1, i}}, LE, -d[j], -b);
            }
        }
        for (int i = 0; i < 4; ++i) {
            at.push_back(sum({{1, i}}, GE, g(0, 2), 0));
            at.push_back(sum({{1, i}, {-1, 4}}, LE, -d[i], 0));
        }
        at.push_back(sum({{1, 4}}, LE, d[0] + d[1] + d[2] + d[3] + g(-1, 2), 0));
        at.push_back(obj(Atom::MIN, Terms{{1, 4}}));
    } else if (kind == "dense") {
        p.nvars = 5;
        p.nlits = 7;
        for (int i = 0; i < 9; ++i) {
            Terms t;
            for (int v = 0; v < 5; ++v) { int c = g(-3, 3); if (c != 0) { t.push_back({Q(c), v}); } }
            if (t.empty()) { t.push_back({1, i % 5}); }
            add(t, std::vector<Rel>{LE, GE, LE, GE, EQ}[g(0, 4)], g(-6, 6), sign(1 + i % 7));
        }
        for (int v = 0; v < 5; ++v) { at.push_back(dom(v, -g(0, 4), g(1, 5), 0)); }
        if (g(0, 1) != 0) { at.push_back(obj(Atom::MAX, Terms{{g(1, 3), 0}, {g(-2, 2), 1}, {g(-2, 2), 2}, {1, 3}})); }
    } else if (kind == "transport") {
        // two supplies, three demands, arcs might be closed
        p.nvars = p.nlits = 6;
        int s0 = g(2, 6), s1 = g(2, 6), d0 = g(1, s0 + s1 - 2), d1 = g(1, s0 + s1 - d0 - 1 > 0 ? s0 + s1 - d0 - 1 : 1);
        at.push_back(sum({{1, 0}, {1, 1}, {1, 2}}, EQ, s0, 0));
        at.push_back(sum({{1, 3}, {1, 4}, {1, 5}}, EQ, s1, 0));
        at.push_back(sum({{1, 0}, {1, 3}}, EQ, d0, 0));
        at.push_back(sum({{1, 1}, {1, 4}}, EQ, d1, 0));
        at.push_back(sum({{1, 2}, {1, 5}}, EQ, s0 + s1 - d0 - d1, 0));
        for (int i = 0; i < 6; ++i) {
            at.push_back(sum({{1, i}}, GE, 0, 0));
            add({{1, i}}, LE, i % 3 == 0 ? frac(1, 2) : Q(0), i + 1);
        }
        Terms c;
        for (int i = 0; i < 6; ++i) { c.push_back({g(0, 4), i}); }
        at.push_back(obj(Atom::MIN, c));
    } else if (kind == "bounds") {
        // many bounds of few variables
        p.nvars = 3;
        p.nlits = 8;
        for (int i = 0; i < 10; ++i) { add({{std::vector<Q>{1, 2, -1, frac(1, 2)}[g(0, 3)], g(0, 1)}}, std::vector<Rel>{LE, GE, EQ}[g(0, 4) % 3], g(-4, 4), sign(1 + i % 8)); }
        add({{1, 0}, {g(-2, 2) == 0 ? 1 : -1, 1}, {1, 2}}, LE, g(-2, 2), g(1, 8));
        add({{1, 2}}, GE, g(-1, 2), -g(1, 8));
    } else if (kind == "fractions") {
        // factors multiply along a chain
        p.nvars = 6;
        p.nlits = 6;
        for (int i = 0; i < 5; ++i) { add({{frac(g(1, 3) * 2 + 1, 8), i}, {frac(-g(1, 7), 9), i + 1}}, g(0, 2) != 0 ? EQ : LE, frac(g(-2, 2), 5), sign(i + 1)); }
        add({{frac(1, 3), 5}, {frac(g(-5, 5), 7), 0}}, GE, frac(g(-3, 3), 11), sign(6));
        at.push_back(dom(0, frac(-g(0, 3), 2), frac(g(1, 5), 3), 0));
        add({{1, 5}}, LE, frac(g(1, 9), 4), g(1, 6));
        add({{1, 3}}, GE, frac(-g(0, 9), 4), -g(1, 6));
        if (g(0, 1) != 0) { at.push_back(obj(Atom::MAX, Terms{{frac(2, 3), 0}, {frac(-1, 7), 5}, {1, 2}})); }
    } else if (kind == "cond") {
        p.nvars = 4;
        p.nlits = 7;
        for (int i = 0; i < 4; ++i) {
            std::vector<Elem> e;
            for (int k = 0; k < 5; ++k) { e.push_back(Elem{{{Q(g(0, 1) != 0 ? g(1, 3) : -g(1, 2)), k == 4 ? -1 : (i + k) % 4}}, g(0, 3) == 0 ? 0 : sign(g(1, 7))}); }
            at.push_back(csum(e, rel(std::vector<Rel>{LE, GE, EQ}[(i + g(0, 1)) % 3]), g(-3, 3), i < 2 ? 0 : sign(5 + i - 1)));
        }
        for (int v = 0; v < 4; ++v) { at.push_back(dom(v, -g(0, 2), g(1, 3), 0)); }
        // the scale of the infinitesimal in conditional strict constraints depends on what is known when preparing
        if (!strict && g(0, 2) != 0) {
            std::vector<Elem> e;
            for (int k = 0; k < 4; ++k) { e.push_back(Elem{{{Q(g(1, 3)), k}}, sign(g(1, 7))}); }
            at.push_back(obj(g(0, 1) != 0 ? Atom::MAX : Atom::MIN, e));
        }
    } else if (kind == "packed") {
        // many constraints per literal
        p.nvars = 4;
        p.nlits = 4;
        for (int i = 0; i < 16; ++i) {
            int v = g(0, 3), w = (v + g(1, 3)) % 4;
            Terms t{{g(1, 2), v}};
            if (i % 3 != 0) { t.push_back({Q(g(0, 1) != 0 ? 1 : -1), w}); }
            add(t, std::vector<Rel>{LE, GE, LE, GE, EQ}[g(0, 4)], g(-5, 5), (i / 4 % 2 == 0 ? 1 : -1) * (1 + i % 4));
        }
        if (g(0, 1) != 0) { at.push_back(obj(Atom::MAX, Terms{{1, 0}, {1, 1}, {-1, 2}})); }
    } else if (kind == "klee") {
        // deformed cubes, where greedy rules visit many vertices
        p.nvars = p.nlits = 5;
        Q e = frac(1, g(2, 4));
        for (int i = 0; i < 5; ++i) {
            at.push_back(i == 0 ? sum({{1, 0}}, GE, 0, 0) : sum({{1, i}, {-e, i - 1}}, GE, 0, 0));
            add(i == 0 ? Terms{{1, 0}} : Terms{{1, i}, {e, i - 1}}, LE, 1, 0);
            add(i == 0 ? Terms{{1, 0}} : Terms{{1, i}, {e, i - 1}}, i % 2 == 0 ? LE : GE, frac(g(1, 3), 4), sign(i + 1));
        }
        at.push_back(obj(g(0, 2) == 0 ? Atom::MIN : Atom::MAX, Terms{{1, 4}, {g(-1, 1), 2}}));
    } else if (kind == "equal") {
        // equations, some of which follow from others
        p.nvars = 6;
        p.nlits = 7;
        for (int i = 0; i < 5; ++i) { add({{1, i}, {g(0, 1) != 0 ? 1 : -1, i + 1}}, EQ, g(-1, 1), sign(i + 1)); }
        add({{1, 0}, {1, 1}, {1, 2}}, EQ, g(-1, 1), sign(6));
        add({{1, 5}, {-1, 0}}, EQ, g(-1, 1), sign(7));
        at.push_back(dom(g(0, 5), -1, 1, 0));
        add({{1, 3}}, GE, g(-1, 1), g(1, 7));
    } else if (kind == "ties") {
        // degenerate vertices and alternative optima
        p.nvars = 5;
        p.nlits = 6;
        for (int v = 0; v < 5; ++v) { at.push_back(sum({{1, v}}, GE, 0, 0)); }
        add({{1, 0}, {1, 1}, {1, 2}}, LE, 1, 0);
        add({{1, 2}, {1, 3}, {1, 4}}, LE, 1, 0);
        for (int i = 0; i < 6; ++i) { add({{1, g(0, 1)}, {g(-1, 1) == 0 ? -1 : 1, 2}, {g(0, 1) != 0 ? 1 : -1, g(3, 4)}}, i % 2 == 0 ? LE : GE, g(0, 1) * (i % 2 == 0 ? 1 : -1), sign(i + 1)); }
        at.push_back(obj(Atom::MAX, Terms{{1, 0}, {1, 1}, {g(1, 2), 2}, {1, 3}, {1, 4}}));
    } else {
        // all kinds of statements over the same variables
        p.nvars = 5;
        p.nlits = 7;
        for (int i = 0; i < 3; ++i) { at.push_back(dom(i, -g(0, 3), g(0, 3), sign(i + 1))); }
        add({{1, 0}, {-1, 1}}, LE, g(-1, 2), sign(4));
        add({{2, 1}, {-3, 2}, {1, 3}}, GE, g(-3, 1), sign(5));
        at.push_back(csum({Elem{{{1, 3}}, sign(1)}, Elem{{{-1, 4}}, sign(6)}, Elem{{{1, 0}}, 0}}, rel(LE), g(-1, 2), sign(7)));
        add({{1, 3}, {1, 4}}, EQ, g(-2, 3), 0);
        add({{1, 4}}, GE, g(-3, 1), sign(2));
        add({{1, 3}}, LE, g(-1, 4), sign(3));
        if (!strict && g(0, 1) != 0) { at.push_back(obj(g(0, 1) != 0 ? Atom::MAX : Atom::MIN, {Elem{{{1, 3}}, sign(4)}, Elem{{{2, 4}}, 0}, Elem{{{-1, 0}}, sign(5)}})); }
    }
    return p;
}

inline char const *const wide_kinds[] = {"chain", "sum", "many", "cond", "star", "objective"};

//! Programs with many variables, constraints or terms over few boolean variables, for limits that depend on size.
inline Prog wide_program(std::string const &kind, int n, bool strict) {
    Prog p;
    p.nvars = n;
    p.nlits = 3;
    auto &at = p.atoms;
    Rel le = strict ? LT : LE;
    if (kind == "chain") {
        for (int i = 0; i + 1 < n; ++i) { at.push_back(sum({{1, i}, {-1, i + 1}}, i % 7 == 3 ? EQ : LE, i % 3 - 1, i == n / 2 ? 1 : i == n - 3 ? -2 : 0)); }
        at.push_back(sum({{1, n - 1}, {-1, 0}}, le, 2, 3));
        at.push_back(sum({{1, 0}}, GE, 1, 0));
        at.push_back(sum({{1, n - 1}}, LE, 5, 2));
    } else if (kind == "sum") {
        Terms t, u;
        for (int i = 0; i < n; ++i) {
            at.push_back(dom(i, -1, i % 4, 0));
            t.push_back({i % 5 == 4 ? -1 : 1, i});
            u.push_back({frac(1, 1 + i % 3), i});
        }
        at.push_back(sum(t, GE, n, 1));
        at.push_back(sum(t, le, n / 4, 2));
        at.push_back(sum(u, LE, frac(n, 2), 3));
    } else if (kind == "many") {
        // many constraints of two variables
        p.nvars = 2;
        for (int i = 0; i < n; ++i) { at.push_back(sum({{1, i % 2}, {frac(1, 2 + i), 1 - i % 2}}, i % 3 == 0 ? GE : LE, i % 3 == 0 ? -i : i + 3, i % 4)); }
        at.push_back(sum({{1, 0}}, GE, 2, 1));
        at.push_back(sum({{1, 0}, {1, 1}}, le, 3, -2));
        at.push_back(sum({{1, 1}}, GE, 2, 3));
    } else if (kind == "cond") {
        std::vector<Elem> e;
        for (int i = 0; i < n; ++i) {
            at.push_back(dom(i, 0, 1, 0));
            e.push_back(Elem{{{1, i}}, i % 4 == 0 ? 0 : i % 4 == 2 ? -(i % 3 + 1) : i % 3 + 1});
        }
        at.push_back(csum(e, GE, n / 2, 0));
        at.push_back(sum({{1, 0}, {1, n - 1}}, le, 1, 2));
    } else if (kind == "star") {
        // one variable in every row
        for (int i = 1; i < n; ++i) { at.push_back(sum({{1, i}, {i % 2 == 0 ? 1 : -1, 0}}, i % 3 == 0 ? GE : LE, i % 5, 0)); at.push_back(dom(i, -3, i % 3, i % 4)); }
        at.push_back(sum({{1, 0}}, GE, 2, 1));
        at.push_back(sum({{1, 0}}, le, 1, 2));
    } else {
        Terms t;
        for (int i = 0; i < n; ++i) {
            at.push_back(sum({{1, i}}, LE, i % 6, i % 9 == 0 ? 1 + i % 3 : 0));
            at.push_back(sum({{1, i}, {1, (i + 1) % n}}, LE, 4, 0));
            t.push_back({1 + i % 2, i});
        }
        at.push_back(obj(Atom::MAX, t));
    }
    return p;
}

//! Programs of the families and the larger ones as cases for the exploration of histories.
inline std::vector<Case> make_all_cases(std::string const &family, std::string const &tier) {
    if (family != "large") { return make_cases(family, tier); }
    bool thorough = tier == "thorough";
    std::vector<Case> out;
    size_t rot = 0;
    auto opts = main_options(), oopts = cfgs({"o:global", "def", "bf o:global", "o:global,1/2", "st", "st o:global", "conf bc sp", "bf o:global,1"});
    for (int seed = 0; seed < (thorough ? 24 : 4); ++seed) {
        for (auto const *kind : large_kinds) {
            ++rot;
            Case c;
            bool strict = seed % 4 == 3;
            c.prog = large_program(kind, seed, strict);
            auto const &o = has_objective(c.prog) ? oopts : opts;
            c.cfg = o[(rot + seed / 8) % o.size()];
            c.cfg.strict = strict;
            c.neg = seed % 2 == 1;
            c.horizon = c.neg ? 3 : 4;
            c.max_undo = 1;
            c.mid_models = false;
            out.push_back(c);
        }
    }
    return out;
}

} // namespace fam
