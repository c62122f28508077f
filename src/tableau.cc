// Tableau: explicit state exploration of all sequences of pivots and element updates over small matrices,
// compared with dense exact matrices after each step.
#include "harness.hh"
#include "ref.hh"
#include <algorithm>
#include <deque>
#include <iterator>
#include <sstream>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <number.hh>
#define private public // the column lists are part of the state of a tableau
#include <tableau.hh>
#undef private

namespace {

enum { C_STATES, C_PIVOTS, C_SETS, C_CELLS, C_SEQ, C_CLOSED, C_CLOSURES };

//! The lazily maintained column lists, which (with the rows) determine the behavior of a tableau.
template <class T> auto columns(T const &t, int) -> decltype(std::vector<std::vector<index_t>>(t.cols_), bool()) {
    (void)t;
    return true;
}
template <class T> bool columns(T const &, long) { return false; }
template <class T> auto add_columns(T const &t, std::string &key, int) -> decltype(std::vector<std::vector<index_t>>(t.cols_), void()) {
    for (auto const &c : t.cols_) {
        key += '|';
        for (auto i : c) { key += static_cast<char>('0' + i); }
    }
}
template <class T> void add_columns(T const &, std::string &, long) {}

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

template <typename T> std::string text(T const &x) { std::ostringstream o; o << x; return o.str(); }
using Mat = std::vector<std::vector<Q>>;

bool same(Integer const &x, mpz_class const &z) {
    if (auto i = x.as_int(); i) { return z == *i; }
    return mpz_class(text(x), 10) == z;
}
//! Compare with a canonical value.
bool same(Rational const &x, Q const &q) { return same(x.num(), q.get_num()) && same(x.den(), q.get_den()); }
mpz_class val(Integer const &x) {
    if (auto i = x.as_int(); i) { return mpz_class(*i); }
    return mpz_class(text(x), 10);
}
bool same(Integer const &num, Integer const &den, Q const &q) {
    auto n = num.as_int(), d = den.as_int();
    if (n && d) { return *d != 0 && q.get_den() * *n == q.get_num() * *d; }
    auto y = val(den);
    return y != 0 && q.get_den() * val(num) == q.get_num() * y;
}
Rational from(Q const &q) { return Rational{q.get_str(), 10}; }

std::string show(Mat const &m) {
    std::string s;
    for (auto const &r : m) { s += s.empty() ? "" : "; "; for (size_t j = 0; j < r.size(); ++j) { s += (j ? " " : "") + r[j].get_str(); } }
    return s;
}

struct Explorer {
    hn::Reporter &rep;
    size_t m, n, depth;
    bool sets;             // also set elements between pivots
    bool traverse;         // traverse columns (which compacts them) on the explored object
    std::vector<Q> values; // for set
    std::string trace;
    std::string const &only; // replay: the trace of operations
    bool replaying() const { return !only.empty(); }

    //! All observations of a tableau compared with the dense matrix.
    void check(Tableau &t, Mat const &a) {
        rep.count(C_STATES);
        static Q const zero(0);
        size_t cells = 0;
        for (size_t i = 0; i <= m; ++i) {
            for (size_t j = 0; j <= n; ++j) {
                Q const &want = i < m && j < n ? a[i][j] : zero;
                cells += want != 0;
                rep.count(C_CELLS);
                auto got = t.get(i, j);
                if (!same(got, want)) { throw Bad("element " + std::to_string(i) + "," + std::to_string(j) + " is " + text(got) + " instead of " + want.get_str()); }
                if (want != 0) {
                    Integer *num = nullptr, *den = nullptr;
                    t.unsafe_get(i, j, num, den);
                    if (!same(*num, *den, want)) { throw Bad("reference to element " + std::to_string(i) + "," + std::to_string(j) + " is " + text(*num) + "/" + text(*den) + " instead of " + want.get_str()); }
                }
            }
        }
        if (t.size() != cells) { throw Bad("size is " + std::to_string(t.size()) + " instead of " + std::to_string(cells)); }
        if (t.empty() != (cells == 0)) { throw Bad("empty is wrong"); }
        for (size_t i = 0; i <= m; ++i) {
            std::vector<char> seen(n + 1, 0);
            t.update_row(i, [&](index_t j, Integer &num, Integer &den) {
                if (j >= n || i >= m || a[i][j] == 0) { throw Bad("row " + std::to_string(i) + " visits zero at " + std::to_string(j)); }
                if (seen[j]++ != 0) { throw Bad("row " + std::to_string(i) + " visits column " + std::to_string(j) + " twice"); }
                if (!same(num, den, a[i][j])) { throw Bad("row " + std::to_string(i) + " has " + text(num) + "/" + text(den) + " at " + std::to_string(j)); }
            });
            for (size_t j = 0; j < n && i < m; ++j) { if (a[i][j] != 0 && seen[j] == 0) { throw Bad("row " + std::to_string(i) + " misses column " + std::to_string(j)); } }
        }
        Tableau c = t;
        Tableau &u = traverse ? t : c;
        for (int pass = 0; pass < 2; ++pass) { // the first traversal may clean up
            for (size_t j = 0; j <= n; ++j) {
                std::vector<char> seen(m + 1, 0);
                u.update_col(j, [&](index_t i, Integer &num, Integer &den) {
                    if (i >= m || j >= n || a[i][j] == 0) { throw Bad("column " + std::to_string(j) + " visits zero at " + std::to_string(i)); }
                    if (seen[i]++ != 0) { throw Bad("column " + std::to_string(j) + " visits row " + std::to_string(i) + " twice"); }
                    if (!same(num, den, a[i][j])) { throw Bad("column " + std::to_string(j) + " has " + text(num) + "/" + text(den) + " at " + std::to_string(i)); }
                });
                for (size_t i = 0; i < m && j < n; ++i) { if (a[i][j] != 0 && seen[i] == 0) { throw Bad("column " + std::to_string(j) + " misses row " + std::to_string(i)); } }
            }
        }
    }
    static Mat pivot(Mat const &a, size_t r, size_t s) {
        Mat b = a;
        Q p = a[r][s];
        for (size_t j = 0; j < a[r].size(); ++j) { b[r][j] = j == s ? Q(1 / p) : Q(-a[r][j] / p); }
        for (size_t i = 0; i < a.size(); ++i) {
            if (i == r) { continue; }
            for (size_t j = 0; j < a[i].size(); ++j) { b[i][j] = j == s ? Q(a[i][s] / p) : Q(a[i][j] + a[i][s] * b[r][j]); }
        }
        return b;
    }
    void explore(Tableau const &t, Mat const &a, size_t d) {
        if (d == depth) { rep.count(C_SEQ); return; }
        auto step = [&](std::string const &name, auto &&f, Mat const &b, int counter) {
            auto size = trace.size();
            trace += name + ".";
            bool go = !replaying() || only.rfind(trace, 0) == 0;
            if (go) {
                rep.begin(trace);
                Tableau u = t;
                f(u);
                rep.count(counter);
                check(u, b);
                explore(u, b, d + 1);
            }
            trace.resize(size);
        };
        for (size_t i = 0; i < m; ++i) {
            for (size_t j = 0; j < n; ++j) {
                if (rep.stopped()) { return; }
                if (a[i][j] != 0) {
                    step("p" + std::to_string(i) + "," + std::to_string(j), [&](Tableau &u) {
                        Integer *num = nullptr, *den = nullptr;
                        u.unsafe_get(i, j, num, den);
                        u.pivot(i, j, *num, *den);
                    }, pivot(a, i, j), C_PIVOTS);
                }
                if (sets) {
                    for (auto const &v : values) {
                        auto b = a;
                        b[i][j] = v;
                        step("s" + std::to_string(i) + "," + std::to_string(j) + "=" + v.get_str(), [&](Tableau &u) { u.set(i, j, from(v)); }, b, C_SETS);
                    }
                }
            }
        }
    }
    //! Everything that determines the further behavior; the rows are read through the interface.
    std::string key(Tableau &t) const {
        std::ostringstream o;
        for (size_t i = 0; i < m; ++i) {
            t.update_row(i, [&](index_t j, Integer &num, Integer &den) { o << j << ':' << num << '/' << den << ' '; });
            o << ';';
        }
        std::string k = o.str();
        add_columns(t, k, 0);
        return k;
    }
    //! Execute an operation: a pivot or a traversal of a column as done by the solver.
    void apply(Tableau &u, Mat &b, char op, size_t i, size_t j) {
        if (op == 'p') {
            b = pivot(b, i, j);
            Integer *num = nullptr, *den = nullptr;
            u.unsafe_get(i, j, num, den);
            u.pivot(i, j, *num, *den);
            rep.count(C_PIVOTS);
        }
        else { u.update_col(j, [](index_t, Integer &, Integer &) {}); }
        check(u, b);
    }
    //! All tableaus reachable by any number of pivots and column traversals.
    void close(Tableau const &t, Mat const &a) {
        if (replaying()) {
            Tableau u = t;
            Mat b = a;
            char op = 0, dot = 0, comma = 0;
            size_t i = 0, j = 0;
            for (std::istringstream in(only); in >> op >> i >> comma >> j >> dot;) { trace += std::string(1, op) + std::to_string(i) + "," + std::to_string(j) + "."; rep.begin(trace); apply(u, b, op, i, j); }
            return;
        }
        if (!columns(t, 0)) { return; } // only the bounded sequences
        struct Node { Tableau t; Mat a; std::string trace; };
        std::unordered_set<std::string> seen;
        std::deque<Node> queue;
        auto add = [&](Tableau &u, Mat const &b, std::string const &tr) {
            if (seen.insert(key(u)).second) { rep.count(C_CLOSED); queue.push_back({u, b, tr}); }
        };
        Tableau c = t;
        add(c, a, "");
        while (!queue.empty()) {
            if (rep.stopped()) { return; }
            Node x = std::move(queue.front());
            queue.pop_front();
            auto step = [&](char op, size_t i, size_t j) {
                trace = x.trace + std::string(1, op) + std::to_string(i) + "," + std::to_string(j) + ".";
                rep.begin(trace);
                Tableau u = x.t;
                Mat b = x.a;
                apply(u, b, op, i, j);
                add(u, b, trace);
            };
            for (size_t j = 0; j < n; ++j) {
                for (size_t i = 0; i < m; ++i) { if (x.a[i][j] != 0) { step('p', i, j); } }
                step('c', 0, j);
            }
        }
        rep.count(C_CLOSURES);
        trace.clear();
    }
    void run(Mat const &a, bool rev) {
        Tableau t;
        // elements are set row by row in either order
        for (size_t i = 0; i < m; ++i) { for (size_t k = 0; k < n; ++k) { auto j = rev ? n - 1 - k : k; if (a[i][j] != 0) { t.set(i, j, from(a[i][j])); } } }
        try {
            rep.begin("init.");
            check(t, a);
            if (depth == 0) { close(t, a); }
            else { explore(t, a, 0); }
        } catch (Bad const &e) { throw Bad("matrix " + show(a) + " after " + (trace.empty() ? "construction" : trace) + ": " + e.what()); }
    }
};

struct Spec {
    size_t m, n, depth;
    std::vector<std::string> vals;
    bool sets, traverse, rev;
    size_t max_nonzero, min_nonzero;
    bool canonical; // skip matrices whose rows are not sorted (row order irrelevant)
};

struct TableauEngine : hn::Engine {
    std::vector<Spec> specs;
    std::vector<std::pair<size_t, uint64_t>> jobs_; // spec, first row index
    size_t rows_of(Spec const &s) { size_t r = 1; for (size_t j = 0; j < s.n; ++j) { r *= s.vals.size(); } return r; }
    TableauEngine(hn::Args const &a) {
        bool t = a.get("tier") == "thorough";
        std::vector<std::string> a2 = {"0", "1"}, a3 = {"0", "1", "-1"}, a4 = {"0", "1", "-2", "1/2"}, a5 = {"0", "1", "-1", "2", "-3/2"}, big = {"0", "1", "4611686018427387904", "-9223372036854775809/2"};
        std::vector<std::string> primes = {"0", "2", "-3", "5/7"};
        specs = {
            {2, 2, t ? 6u : 5u, a5, false, false, false, 9, 0, false},
            {2, 3, t ? 5u : 4u, a4, false, true, true, 9, 0, false},
            {3, 2, t ? 5u : 4u, a4, false, false, true, 9, 0, false},
            {3, 3, t ? 4u : 3u, a3, false, false, false, 9, 0, true},
            {3, 3, t ? 3u : 2u, a4, false, true, true, 9, 0, true},
            {3, 3, t ? 4u : 3u, a2, false, false, true, 9, 0, false},
            {2, 2, 3, big, false, false, false, 9, 0, false},
            {2, 2, t ? 4u : 3u, {"0", "1", "-2", "1/3"}, true, false, false, 9, 0, false},
            {2, 3, t ? 3u : 2u, primes, true, false, true, 9, 0, false},
            {4, 3, t ? 3u : 2u, a2, false, false, false, 16, 0, false},
            {4, 4, t ? 4u : 3u, a2, false, false, false, t ? 9u : 7u, 5, true},
            {5, 2, t ? 4u : 3u, a2, false, false, false, 10, 0, false},
            {5, 2, t ? 4u : 3u, {"0", "2", "-1"}, false, false, false, 10, 7, true},
            {2, 5, t ? 4u : 3u, a3, false, false, true, 10, 7, false},
            {6, 2, t ? 4u : 3u, {"0", "1", "-1"}, false, false, false, 12, 0, true},
            // elements of a row with denominators that have common factors
            {2, 2, t ? 4u : 3u, {"0", "1/2", "-1/4", "5/6"}, true, false, false, 9, 0, false},
            {1, 4, t ? 3u : 2u, {"0", "1/2", "1/4", "-2/3", "1/6"}, true, false, true, 9, 0, false},
            {1, 4, t ? 3u : 2u, {"0", "1/2", "1/4", "-2/3", "1/6"}, true, false, false, 9, 0, false},
            // sequences of any length
            {2, 2, 0, a5, false, false, false, 9, 0, false},
            {2, 3, 0, a4, false, false, false, 9, 0, !t},
            {3, 2, 0, a4, false, false, true, 9, 0, !t},
            {3, 3, 0, t ? a3 : a2, false, false, false, 9, 0, true},
        };
        for (size_t i = 0; i < specs.size(); ++i) {
            size_t r = rows_of(specs[i]);
            for (size_t k = 0; k < r; ++k) { jobs_.emplace_back(i, k); }
        }
    }
    uint64_t jobs() override { return jobs_.size(); }
    std::vector<std::string> counters() override { return {"states", "pivots", "sets", "cells_compared", "sequences", "closure_states", "closures"}; }
    std::string describe(uint64_t j) override {
        auto const &s = specs[jobs_[j].first];
        std::string v;
        for (auto const &x : s.vals) { v += (v.empty() ? "" : ",") + x; }
        return std::to_string(s.m) + "x" + std::to_string(s.n) + " matrices over {" + v + "} with first row " + std::to_string(jobs_[j].second) + ", sequences of " + (s.depth == 0 ? std::string("any number of") : std::to_string(s.depth)) + (s.sets ? " pivots and updates" : " pivots");
    }
    void run(uint64_t j, hn::Reporter &rep, std::string const &only) override {
        auto const &s = specs[jobs_[j].first];
        size_t r = rows_of(s);
        std::vector<Q> vals;
        for (auto const &x : s.vals) { vals.emplace_back(x); }
        std::vector<size_t> rows(s.m, 0);
        rows[0] = jobs_[j].second;
        // case: rows "r0 r1 ...|trace"
        std::string only_rows, only_trace;
        if (auto p = only.find('|'); p != std::string::npos) { only_rows = only.substr(0, p); only_trace = only.substr(p + 1); }
        std::function<void(size_t)> rec = [&](size_t i) {
            if (rep.stopped()) { return; }
            if (i == s.m) {
                std::string id;
                for (auto k : rows) { id += std::to_string(k) + " "; }
                if (!only_rows.empty() && only_rows != id) { return; }
                Mat a(s.m, std::vector<Q>(s.n));
                size_t nz = 0;
                for (size_t x = 0; x < s.m; ++x) { auto k = rows[x]; for (size_t y = 0; y < s.n; ++y) { a[x][y] = vals[k % vals.size()]; nz += k % vals.size() != 0; k /= vals.size(); } }
                if (nz > s.max_nonzero || nz < s.min_nonzero) { return; }
                Explorer e{rep, s.m, s.n, s.depth, s.sets, s.traverse, vals, "", only_trace};
                try { e.run(a, s.rev); }
                catch (std::exception const &ex) { rep.violation("tableau", ex.what(), id + "|" + e.trace); }
                return;
            }
            for (size_t k = s.canonical ? rows[i - 1] : 0; k < r; ++k) { rows[i] = k; rec(i + 1); }
        };
        rec(1);
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    TableauEngine e(a);
    return hn::main_loop(e, a);
}
