// Reference mathematics, independent of the code under test (GMP instead of FLINT, Fourier-Motzkin
// elimination instead of simplex).
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

using Q = mpq_class;

//! Element of the ordered vector space Q + Q*e with 0 < e < every positive rational.
struct QE {
    Q c, k;
    QE(Q c_ = 0, Q k_ = 0) : c(std::move(c_)), k(std::move(k_)) {}
    friend int cmp(QE const &a, QE const &b) {
        int r = ::cmp(a.c, b.c);
        return r != 0 ? r : ::cmp(a.k, b.k);
    }
    friend bool operator<(QE const &a, QE const &b) { return cmp(a, b) < 0; }
    friend bool operator<=(QE const &a, QE const &b) { return cmp(a, b) <= 0; }
    friend bool operator>(QE const &a, QE const &b) { return cmp(a, b) > 0; }
    friend bool operator>=(QE const &a, QE const &b) { return cmp(a, b) >= 0; }
    friend bool operator==(QE const &a, QE const &b) { return cmp(a, b) == 0; }
    friend bool operator!=(QE const &a, QE const &b) { return cmp(a, b) != 0; }
    QE operator+(QE const &o) const { return {c + o.c, k + o.k}; }
    QE operator-(QE const &o) const { return {c - o.c, k - o.k}; }
    QE operator*(Q const &q) const { return {c * q, k * q}; }
    QE operator-() const { return {-c, -k}; }
    QE &operator+=(QE const &o) {
        c += o.c;
        k += o.k;
        return *this;
    }
    std::string str() const {
        std::ostringstream o;
        if (c != 0 || k == 0) { o << c; }
        if (k != 0) {
            if (c != 0) { o << "+"; }
            if (k != 1) { o << k << "*"; }
            o << "e";
        }
        return o.str();
    }
};

inline std::optional<Q> parse_q(std::string const &s) {
    if (s.empty()) { return {}; }
    size_t i = s[0] == '-' ? 1 : 0;
    bool digit = false, slash = false;
    for (size_t j = i; j < s.size(); ++j) {
        if (s[j] >= '0' && s[j] <= '9') { digit = true; }
        else if (s[j] == '/' && digit && !slash) { slash = true; digit = false; }
        else { return {}; }
    }
    if (!digit) { return {}; }
    Q q;
    if (q.set_str(s, 10) != 0 || q.get_den() == 0) { return {}; }
    Q r = q;
    r.canonicalize();
    if (r.get_str() != s) { return {}; } // must be the canonical reduced form
    return r;
}

//! Parse the output format c, c+k*e, c+e, k*e, e. The text must be canonical.
inline std::optional<QE> parse_qe(std::string const &s) {
    if (s.empty()) { return {}; }
    QE r;
    if (s.back() == 'e') {
        std::string rest = s.substr(0, s.size() - 1), k;
        auto p = rest.find('+');
        std::string c = "0";
        if (p != std::string::npos) {
            c = rest.substr(0, p);
            k = rest.substr(p + 1);
        } else {
            k = rest;
        }
        auto qc = parse_q(c);
        if (!qc) { return {}; }
        r.c = *qc;
        if (k.empty()) { r.k = 1; }
        else {
            if (k.back() != '*') { return {}; }
            auto qk = parse_q(k.substr(0, k.size() - 1));
            if (!qk) { return {}; }
            r.k = *qk;
        }
    } else {
        auto qc = parse_q(s);
        if (!qc) { return {}; }
        r.c = *qc;
    }
    if (r.str() != s) { return {}; }
    return r;
}

enum Rel { LE, GE, EQ, LT, GT };
inline char const *rel_str(Rel r) {
    switch (r) {
        case LE: return "<=";
        case GE: return ">=";
        case EQ: return "=";
        case LT: return "<";
        default: return ">";
    }
}
inline bool holds(QE const &lhs, Rel rel, QE const &rhs) {
    int c = cmp(lhs, rhs);
    switch (rel) {
        case LE: return c <= 0;
        case GE: return c >= 0;
        case EQ: return c == 0;
        case LT: return c < 0;
        default: return c > 0;
    }
}

//! A row sum co[i]*x_i (<= or =) rhs over Q_e.
struct Row {
    std::vector<Q> co;
    bool eq;
    QE rhs;
};

//! Linear system over the ordered field extension, decided by elimination.
class LP {
  public:
    LP(size_t n) : n_(n) {}
    //! Strict relations become non-strict ones over Q_e. Rows over a single variable are normalised first
    //! (x < b means x <= b - e), which fixes the scale of the epsilon part.
    void add(std::vector<Q> co, Rel rel, Q rhs) {
        co.resize(n_);
        QE r{rhs, 0};
        if (rel == LT || rel == GT) {
            Q scale = 1;
            int nz = 0;
            for (auto const &c : co) { if (c != 0) { ++nz; scale = abs(c); } }
            if (nz != 1) { scale = 1; }
            r.k = rel == LT ? -scale : scale;
        }
        if (rel == GE || rel == GT) {
            for (auto &c : co) { c = -c; }
            r = -r;
        }
        rows_.push_back({std::move(co), rel == EQ, r});
    }
    void add_ge(std::vector<Q> co, QE rhs) {
        co.resize(n_);
        for (auto &c : co) { c = -c; }
        rows_.push_back({std::move(co), false, -rhs});
    }
    bool feasible() const {
        if (large()) { return certified(std::vector<Q>(n_)).feasible; }
        auto rows = rows_;
        return eliminate(rows, n_, n_);
    }
    struct Opt {
        bool feasible = false, bounded = false;
        QE value;
    };
    //! Supremum of obj over the system.
    Opt maximize(std::vector<Q> obj) const {
        Opt o;
        obj.resize(n_);
        if (large()) { return certified(obj); }
        // z is an additional last variable: z - obj = 0
        std::vector<Row> rows;
        for (auto r : rows_) { r.co.push_back(0); rows.push_back(std::move(r)); }
        Row z{obj, true, QE{}};
        for (auto &c : z.co) { c = -c; }
        z.co.push_back(1);
        rows.push_back(z);
        if (!eliminate(rows, n_ + 1, n_)) { return o; }
        // remaining rows only mention z
        std::optional<QE> up, lo;
        auto upd_up = [&](QE const &v) { if (!up || v < *up) { up = v; } };
        auto upd_lo = [&](QE const &v) { if (!lo || v > *lo) { lo = v; } };
        for (auto const &r : rows) {
            auto const &c = r.co[n_];
            if (c == 0) { continue; }
            QE v = r.rhs * Q(1 / c);
            if (r.eq) { upd_up(v); upd_lo(v); }
            else if (c > 0) { upd_up(v); }
            else { upd_lo(v); }
        }
        if (up && lo && *lo > *up) { return o; }
        o.feasible = true;
        o.bounded = up.has_value();
        if (up) { o.value = *up; }
        return o;
    }

    //! Larger systems are solved by a textbook two phase simplex on dense dictionaries whose answers are not trusted:
    //! a point, a direction or multipliers of the rows have to prove each of them.
    Opt certified(std::vector<Q> const &obj) const {
        std::vector<Row> rows;
        for (auto const &r : rows_) {
            rows.push_back({r.co, false, r.rhs});
            if (r.eq) {
                auto co = r.co;
                for (auto &c : co) { c = -c; }
                rows.push_back({co, false, -r.rhs});
            }
        }
        size_t m = rows.size();
        // columns 0..n_-1: p_j, n_: q where x_j = p_j - q; n_+1: the artificial variable; then slacks
        std::vector<size_t> basic(m), nonbasic(n_ + 2);
        std::vector<std::vector<Q>> a(m, std::vector<Q>(n_ + 2));
        std::vector<QE> b(m);
        for (size_t j = 0; j < n_ + 2; ++j) { nonbasic[j] = j; }
        size_t worst = m;
        for (size_t i = 0; i < m; ++i) {
            basic[i] = n_ + 2 + i;
            for (size_t j = 0; j < n_; ++j) {
                a[i][j] = rows[i].co[j];
                a[i][n_] -= rows[i].co[j];
            }
            a[i][n_ + 1] = -1;
            b[i] = rows[i].rhs;
            if (b[i] < QE{} && (worst == m || b[i] < b[worst])) { worst = i; }
        }
        std::vector<Q> c(n_ + 2);
        QE v;
        auto pivot = [&](size_t i, size_t j) {
            Q f = 1 / a[i][j];
            std::swap(basic[i], nonbasic[j]);
            for (auto &x : a[i]) { x *= f; }
            a[i][j] = f;
            b[i] = b[i] * f;
            for (size_t k = 0; k < m; ++k) {
                if (k == i || a[k][j] == 0) { continue; }
                Q g = a[k][j];
                a[k][j] = 0;
                for (size_t l = 0; l < n_ + 2; ++l) { if (a[i][l] != 0) { a[k][l] -= g * a[i][l]; } }
                b[k] = b[k] - b[i] * g;
            }
            if (c[j] != 0) {
                Q g = c[j];
                c[j] = 0;
                for (size_t l = 0; l < n_ + 2; ++l) { if (a[i][l] != 0) { c[l] -= g * a[i][l]; } }
                v += b[i] * g;
            }
        };
        //! Returns the column that is unbounded or n_ + 2.
        auto optimize = [&](bool art) {
            for (;;) {
                size_t e = n_ + 2, l = m;
                for (size_t j = 0; j < n_ + 2; ++j) { if ((art || nonbasic[j] != n_ + 1) && c[j] > 0 && (e == n_ + 2 || nonbasic[j] < nonbasic[e])) { e = j; } }
                if (e == n_ + 2) { return e; }
                for (size_t i = 0; i < m; ++i) {
                    if (a[i][e] <= 0) { continue; }
                    if (l == m) { l = i; continue; }
                    int s = cmp(b[i] * Q(1 / a[i][e]), b[l] * Q(1 / a[l][e]));
                    if (s < 0 || (s == 0 && basic[i] < basic[l])) { l = i; }
                }
                if (l == m) { return e; }
                pivot(l, e);
            }
        };
        auto require = [](bool x, int line = __builtin_LINE()) { if (!x) { throw std::logic_error("the reference failed to certify its answer in line " + std::to_string(line)); } };
        auto multipliers = [&]() {
            std::vector<Q> y(m);
            for (size_t j = 0; j < n_ + 2; ++j) { if (nonbasic[j] >= n_ + 2) { y[nonbasic[j] - n_ - 2] = -c[j]; } }
            return y;
        };
        //! y >= 0 and the combination of the rows is target <= value.
        auto check = [&](std::vector<Q> const &y, std::vector<Q> const &target, QE const &value) {
            std::vector<Q> sum(n_);
            QE rhs;
            for (size_t i = 0; i < m; ++i) {
                require(y[i] >= 0);
                for (size_t j = 0; j < n_; ++j) { sum[j] += y[i] * rows[i].co[j]; }
                rhs += rows[i].rhs * y[i];
            }
            require(sum == target && rhs == value);
        };
        Opt o;
        if (worst < m) {
            c[n_ + 1] = -1;
            pivot(worst, n_ + 1);
            optimize(true);
            if (v < QE{}) {
                check(multipliers(), std::vector<Q>(n_), v);
                return o;
            }
            for (size_t i = 0; i < m; ++i) {
                if (basic[i] != n_ + 1) { continue; }
                for (size_t j = 0; j < n_ + 2; ++j) { if (a[i][j] != 0) { pivot(i, j); break; } }
                break;
            }
        }
        // the objective in terms of the nonbasic variables
        std::vector<Q> full(n_ + 2 + m);
        for (size_t j = 0; j < n_; ++j) { full[j] = obj[j]; full[n_] -= obj[j]; }
        v = QE{};
        for (size_t j = 0; j < n_ + 2; ++j) { c[j] = full[nonbasic[j]]; }
        for (size_t i = 0; i < m; ++i) {
            if (full[basic[i]] == 0) { continue; }
            v += b[i] * full[basic[i]];
            for (size_t j = 0; j < n_ + 2; ++j) { c[j] -= full[basic[i]] * a[i][j]; }
        }
        size_t e = optimize(false);
        std::vector<QE> p(n_ + 2 + m);
        for (size_t i = 0; i < m; ++i) { p[basic[i]] = b[i]; }
        QE val;
        for (size_t j = 0; j < n_; ++j) { p[j] = p[j] - p[n_]; val += p[j] * obj[j]; }
        for (auto const &r : rows) {
            QE l;
            for (size_t j = 0; j < n_; ++j) { l += p[j] * r.co[j]; }
            require(l <= r.rhs);
        }
        o.feasible = true;
        if (e == n_ + 2) {
            require(val == v);
            check(multipliers(), obj, val);
            o.bounded = true;
            o.value = val;
            return o;
        }
        std::vector<Q> d(n_ + 2 + m);
        d[nonbasic[e]] = 1;
        for (size_t i = 0; i < m; ++i) { d[basic[i]] = -a[i][e]; }
        Q gain;
        for (size_t j = 0; j < n_; ++j) { d[j] -= d[n_]; gain += d[j] * obj[j]; }
        require(gain > 0);
        for (auto const &r : rows) {
            Q l;
            for (size_t j = 0; j < n_; ++j) { l += d[j] * r.co[j]; }
            require(l <= 0);
        }
        return o;
    }

  private:
    bool large() const { return n_ > 4; }
    static void normalise(Row &r) {
        for (auto const &c : r.co) {
            if (c != 0) {
                Q f = r.eq ? Q(1 / c) : Q(1 / abs(c));
                if (f != 1) {
                    for (auto &d : r.co) { d *= f; }
                    r.rhs = r.rhs * f;
                }
                break;
            }
        }
    }
    //! Eliminate variables 0..m-1 of n. Returns false if the system is infeasible.
    static bool eliminate(std::vector<Row> &rows, size_t n, size_t m) {
        for (size_t v = 0; v < m; ++v) {
            // pick an equation mentioning v
            size_t e = rows.size();
            for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].eq && rows[i].co[v] != 0) { e = i; break; } }
            std::vector<Row> next;
            if (e < rows.size()) {
                Row p = rows[e];
                for (size_t i = 0; i < rows.size(); ++i) {
                    if (i == e) { continue; }
                    Row r = rows[i];
                    if (r.co[v] != 0) {
                        Q f = r.co[v] / p.co[v];
                        for (size_t j = 0; j < n; ++j) { r.co[j] -= f * p.co[j]; }
                        r.rhs = r.rhs - p.rhs * f;
                    }
                    next.push_back(std::move(r));
                }
            } else {
                std::vector<Row> pos, neg;
                for (auto &r : rows) {
                    if (r.co[v] == 0) { next.push_back(std::move(r)); }
                    else if (r.co[v] > 0) { pos.push_back(std::move(r)); }
                    else { neg.push_back(std::move(r)); }
                }
                for (auto const &a : pos) {
                    for (auto const &b : neg) {
                        Q fa = -b.co[v], fb = a.co[v];
                        Row r{std::vector<Q>(n), false, a.rhs * fa + b.rhs * fb};
                        for (size_t j = 0; j < n; ++j) { r.co[j] = a.co[j] * fa + b.co[j] * fb; }
                        r.co[v] = 0;
                        next.push_back(std::move(r));
                    }
                }
            }
            // drop trivial and dominated rows
            std::map<std::pair<std::vector<Q>, bool>, QE> best;
            for (auto &r : next) {
                normalise(r);
                bool zero = true;
                for (auto const &c : r.co) { zero = zero && c == 0; }
                if (zero) {
                    if (r.eq ? r.rhs != QE{} : r.rhs < QE{}) { return false; }
                    continue;
                }
                auto key = std::make_pair(r.co, r.eq);
                auto it = best.find(key);
                if (it == best.end()) { best.emplace(key, r.rhs); }
                else if (r.eq) { if (it->second != r.rhs) { return false; } }
                else if (r.rhs < it->second) { it->second = r.rhs; }
            }
            rows.clear();
            for (auto &[key, rhs] : best) { rows.push_back({key.first, key.second, rhs}); }
        }
        for (auto const &r : rows) {
            bool zero = true;
            for (auto const &c : r.co) { zero = zero && c == 0; }
            if (zero && (r.eq ? r.rhs != QE{} : r.rhs < QE{})) { return false; }
        }
        return true;
    }
    size_t n_;
    std::vector<Row> rows_;
};
