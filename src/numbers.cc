// Number arithmetic: every operation on every pair of operands and every sequence of in-place operations up to a
// bound, compared with GMP.
#include "harness.hh"
#include "ref.hh"
#include <algorithm>
#include <clingo.hh>
#include <number.hh>
#include <sstream>

namespace {

enum { C_OPERANDS, C_OPS, C_RESULTS, C_SEQ, C_TEXT };

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- conversion between the reference and the code under test
template <typename T> std::string text(T const &x) { std::ostringstream o; o << x; return o.str(); }

mpz_class val(Integer const &x) {
    auto s = text(x);
    mpz_class z;
    if (z.set_str(s, 10) != 0 || z.get_str() != s) { throw Bad("integer printed as " + s); }
    return z;
}
Q val(Rational const &x) {
    auto s = text(x);
    auto q = parse_q(s);
    if (!q) { throw Bad("rational printed as " + s); }
    if (val(x.num()) != q->get_num() || val(x.den()) != q->get_den()) { throw Bad("numerator or denominator do not fit " + s); }
    return *q;
}
QE val(RationalQ const &x) {
    auto s = text(x);
    auto q = parse_qe(s);
    if (!q) { throw Bad("number printed as " + s); }
    if (x.is_rational() != (q->k == 0)) { throw Bad("is_rational is wrong for " + s); }
    if (x.is_rational() && val(x.as_rational()) != q->c) { throw Bad("as_rational is wrong for " + s); }
    return *q;
}
QE ref(fixed_int x) { return {Q(mpz_class(std::to_string(x)))}; }
QE ref(Integer const &x) { return {Q(val(x))}; }
QE ref(Rational const &x) { return {val(x)}; }
QE ref(RationalQ const &x) { return val(x); }
template <typename T> T from(QE const &q);
template <> fixed_int from<fixed_int>(QE const &q) { return std::stol(q.c.get_str()); }
template <> Integer from<Integer>(QE const &q) { return Integer{q.c.get_str(), 10}; }
template <> Rational from<Rational>(QE const &q) { return Rational{q.c.get_str(), 10}; }
template <> RationalQ from<RationalQ>(QE const &q) { return RationalQ{from<Rational>(q.c), from<Rational>(q.k)}; }
template <typename T> char const *tname();
template <> char const *tname<fixed_int>() { return "fixed_int"; }
template <> char const *tname<Integer>() { return "Integer"; }
template <> char const *tname<Rational>() { return "Rational"; }
template <> char const *tname<RationalQ>() { return "RationalQ"; }

// ---- operands
std::vector<mpz_class> ints(bool thorough) {
    std::vector<std::string> s = {"0", "1", "2", "3", "6", "7", "12", "2147483647", "2147483648", "4294967296", "2305843009213693952", "4611686018427387903", "4611686018427387904", "4611686018427387905", "9223372036854775806", "9223372036854775807",
                                  "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "36893488147419103232", "340282366920938463463374607431768211456", "1000000000000000000000000000000000000001"};
    if (thorough) { for (auto x : {"4", "5", "30", "65536", "2147483646", "2147483649", "4611686018427387902", "9223372036854775805", "27670116110564327421", "18446744073709551617", "170141183460469231731687303715884105728", "1606938044258990275541962092341162602522202993782792835301376"}) { s.push_back(x); } }
    std::vector<mpz_class> r;
    for (auto const &x : s) { mpz_class z(x); r.push_back(z); if (z != 0) { r.push_back(-z); } }
    return r;
}
template <typename T> std::vector<QE> operands(bool thorough);
template <> std::vector<QE> operands<Integer>(bool t) { std::vector<QE> r; for (auto const &z : ints(t)) { r.push_back({Q(z)}); } return r; }
template <> std::vector<QE> operands<fixed_int>(bool t) {
    std::vector<QE> r;
    mpz_class lo("-9223372036854775808"), hi("9223372036854775807");
    for (auto const &z : ints(t)) { if (z >= lo && z <= hi) { r.push_back({Q(z)}); } }
    return r;
}
template <> std::vector<QE> operands<Rational>(bool t) {
    std::vector<QE> r;
    std::set<std::string> seen;
    auto is = ints(t);
    std::vector<mpz_class> dens;
    for (auto x : {"1", "2", "3", "6", "7", "2147483648", "4611686018427387904", "9223372036854775807", "18446744073709551616", "1000000000000000000000000000000000000001"}) { dens.emplace_back(x); }
    for (auto const &d : dens) {
        for (auto const &n : is) {
            if (!t && d != 1 && d != 2 && d != 7 && abs(n) > 12 && (n % 2 == 0)) { continue; }
            Q q(n, d);
            q.canonicalize();
            if (seen.insert(q.get_str()).second) { r.push_back({q}); }
        }
    }
    return r;
}
template <> std::vector<QE> operands<RationalQ>(bool t) {
    std::vector<QE> r;
    std::vector<std::string> c = {"0", "1", "-1", "1/2", "-7/3", "4611686018427387904", "-9223372036854775808", "9223372036854775809/2"}, k = {"0", "1", "-1", "-1/2", "3", "-18446744073709551616", "1/9223372036854775807"};
    if (t) { for (auto x : {"2", "-3", "5/6", "4611686018427387903", "-18446744073709551616/3"}) { c.push_back(x); k.push_back(x); } }
    for (auto const &x : c) { for (auto const &y : k) { r.push_back({Q(x), Q(y)}); } }
    return r;
}

// ---- operations; absent overloads are skipped
#define OP_PRESENT(NAME, EXPR) \
    template <typename A, typename B, typename = void> struct NAME : std::false_type {}; \
    template <typename A, typename B> struct NAME<A, B, std::void_t<decltype(EXPR)>> : std::true_type {};
#define LA std::declval<A const &>()
#define LB std::declval<B const &>()
#define RA std::declval<A &>()
OP_PRESENT(has_add, LA + LB)
OP_PRESENT(has_sub, LA - LB)
OP_PRESENT(has_mul, LA * LB)
OP_PRESENT(has_div, LA / LB)
OP_PRESENT(has_adda, RA += LB)
OP_PRESENT(has_suba, RA -= LB)
OP_PRESENT(has_mula, RA *= LB)
OP_PRESENT(has_diva, RA /= LB)
OP_PRESENT(has_lt, LA < LB)
OP_PRESENT(has_le, LA <= LB)
OP_PRESENT(has_gt, LA > LB)
OP_PRESENT(has_ge, LA >= LB)
OP_PRESENT(has_eq, LA == LB)
OP_PRESENT(has_ne, LA != LB)
OP_PRESENT(has_cmp, compare(LA, LB))

QE qdiv(QE const &a, QE const &b) { return {a.c / b.c, a.k / b.c}; }
QE qmul(QE const &a, QE const &b) { return b.k == 0 ? QE{a.c * b.c, a.k * b.c} : QE{b.c * a.c, b.k * a.c}; }

struct Checker {
    hn::Reporter &rep;
    std::string what;
    template <typename T> void eq(char const *op, T const &got, QE const &want) {
        rep.count(C_RESULTS);
        QE g = ref(got);
        if (g != want) { throw Bad(std::string(op) + " gives " + g.str() + " instead of " + want.str()); }
    }
    void same(char const *op, bool got, bool want) {
        rep.count(C_RESULTS);
        if (got != want) { throw Bad(std::string(op) + " gives " + (got ? "true" : "false")); }
    }
    template <typename T> void unchanged(char const *op, T const &x, QE const &want) {
        if (ref(x) != want) { throw Bad(std::string(op) + " changes its operand to " + ref(x).str()); }
    }
};

int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

//! All operations on one pair of operands.
template <typename A, typename B> void pair_ops(Checker &ck, QE const &x, QE const &y) {
    A const a = from<A>(x);
    B const b = from<B>(y);
    auto &rep = ck.rep;
    rep.count(C_OPERANDS);
    if (ref(a) != x || ref(b) != y) { throw Bad("reading and printing changes the number"); }
#define ARITH(H, OPNAME, OP, WANT) \
    if constexpr (H<A, B>::value) { \
        rep.count(C_OPS, 2); \
        ck.eq(OPNAME, a OP b, WANT); \
        ck.eq(OPNAME " (temporary)", A(a) OP b, WANT); \
        A t = a; \
        auto &&r = std::move(t) OP b; \
        ck.eq(OPNAME " (moved)", r, WANT); \
        ck.unchanged(OPNAME, a, x); \
        ck.unchanged(OPNAME, b, y); \
    }
#define ARITHA(H, OPNAME, OP, WANT) \
    if constexpr (H<A, B>::value) { \
        rep.count(C_OPS); \
        A t = a; \
        auto &r = (t OP b); \
        ck.eq(OPNAME, t, WANT); \
        ck.same(OPNAME " refers to its operand", &r == &t, true); \
        ck.unchanged(OPNAME, b, y); \
    }
    ARITH(has_add, "+", +, x + y)
    ARITHA(has_adda, "+=", +=, x + y)
    ARITH(has_sub, "-", -, x - y)
    ARITHA(has_suba, "-=", -=, x - y)
    if (x.k == 0 || y.k == 0) {
        ARITH(has_mul, "*", *, qmul(x, y))
        ARITHA(has_mula, "*=", *=, qmul(x, y))
    }
    if (y.k == 0 && y.c != 0) {
        if constexpr (!std::is_same_v<A, Integer>) {
            ARITH(has_div, "/", /, qdiv(x, y))
            ARITHA(has_diva, "/=", /=, qdiv(x, y))
        }
    }
    int c = cmp(x, y);
#define COMP(H, OPNAME, OP) \
    if constexpr (H<A, B>::value) { rep.count(C_OPS); ck.same(OPNAME, a OP b, c OP 0); }
    COMP(has_lt, "<", <)
    COMP(has_le, "<=", <=)
    COMP(has_gt, ">", >)
    COMP(has_ge, ">=", >=)
    COMP(has_eq, "==", ==)
    COMP(has_ne, "!=", !=)
    if constexpr (has_cmp<A, B>::value) {
        rep.count(C_OPS);
        int g = sgn(compare(a, b));
        rep.count(C_RESULTS);
        if (g != sgn(c)) { throw Bad("compare gives " + std::to_string(g)); }
    }
    if constexpr (std::is_same_v<A, B>) {
        rep.count(C_OPS, 4);
        A s = a, t = b;
        s.swap(t);
        ck.eq("swap", s, y);
        ck.eq("swap", t, x);
        s = a;
        ck.eq("copy assignment", s, x);
        s = std::move(t);
        ck.eq("move assignment", s, x);
        s = b;
        A u{std::move(s)};
        ck.eq("move construction", u, y);
        s = a;
        ck.eq("assignment to a moved object", s, x);
        A &alias = s;
        s = alias;
        ck.eq("assignment to itself", s, x);
        s.swap(alias);
        ck.eq("swap with itself", s, x);
    }
    if constexpr (std::is_same_v<A, Integer> && std::is_same_v<B, Integer>) {
        rep.count(C_OPS, 3);
        mpz_class g, xa = x.c.get_num(), xb = y.c.get_num();
        mpz_gcd(g.get_mpz_t(), xa.get_mpz_t(), xb.get_mpz_t());
        ck.eq("gcd", gcd(a, b), {Q(g)});
        if (g != 0) {
            auto [gg, ga, gb] = gcd_div(a, b);
            ck.eq("gcd_div", gg, {Q(g)});
            ck.eq("gcd_div first", ga, {Q(mpz_class(xa / g))});
            ck.eq("gcd_div second", gb, {Q(mpz_class(xb / g))});
        }
        if (xb != 0) {
            Integer p = a * b;
            p.divide(b);
            ck.eq("divide", p, x);
        }
        for (long z : {0L, 1L, -3L, 4611686018427387904L}) {
            Integer t{z};
            ck.eq("add_mul", t.add_mul(a, b), QE{Q(mpz_class(std::to_string(z)) + xa * xb)});
            ck.eq("add_mul (moved)", Integer{z}.add_mul(a, b), QE{Q(mpz_class(std::to_string(z)) + xa * xb)});
        }
        if (xb > 0) {
            Q q(xa, xb);
            q.canonicalize();
            ck.eq("quotient of integers", Rational{a, b}, {q});
        } else if (xb < 0) {
            Q q(-xa, -xb);
            q.canonicalize();
            ck.eq("quotient of integers", Rational{a, b}, {q});
        }
    }
}

//! Unary operations and operations of an object with itself.
template <typename A> void unary(Checker &ck, QE const &x) {
    A const a = from<A>(x);
    ck.rep.count(C_OPERANDS);
    ck.rep.count(C_OPS, 4);
    ck.eq("-", -a, -x);
    ck.eq("- (moved)", -A(a), -x);
    A t = a;
    if constexpr (!std::is_same_v<A, RationalQ>) {
        ck.eq("neg", t.neg(), -x);
        ck.same("neg refers to its operand", &t.neg() == &t, true);
        ck.eq("neg neg", t, x);
    }
#define SELF(H, OPNAME, OP, WANT) \
    if constexpr (H<A, A>::value) { ck.rep.count(C_OPS); A s = a; ck.eq(OPNAME " with itself", s OP s, WANT); ck.eq(OPNAME " with itself", a OP a, WANT); }
#define SELFA(H, OPNAME, OP, WANT) \
    if constexpr (H<A, A>::value) { ck.rep.count(C_OPS); A s = a; A &r = s; s OP r; ck.eq(OPNAME " with itself", s, WANT); }
    SELF(has_add, "+", +, x + x)
    SELFA(has_adda, "+=", +=, x + x)
    SELF(has_sub, "-", -, QE{})
    SELFA(has_suba, "-=", -=, QE{})
    if (x.k == 0) {
        SELF(has_mul, "*", *, QE{x.c * x.c})
        SELFA(has_mula, "*=", *=, QE{x.c * x.c})
        if (x.c != 0) {
            SELF(has_div, "/", /, QE{1})
            SELFA(has_diva, "/=", /=, QE{1})
        }
    }
    ck.same("== with itself", a == a, true);
    if constexpr (std::is_same_v<A, Integer>) {
        mpz_class z = x.c.get_num();
        auto i = a.as_int();
        bool fits = z >= mpz_class("-2147483648") && z <= mpz_class("2147483647");
        ck.same("as_int has a value", i.has_value(), fits);
        if (fits) { ck.same("as_int is right", mpz_class(*i) == z, true); }
        for (long y : {0L, 5L, -4611686018427387905L}) {
            mpz_class w(std::to_string(y));
            Integer s = a;
            s.add_mul(s, Integer{y});
            ck.eq("add_mul with itself as factor", s, {Q(z + z * w)});
            s = a;
            s.add_mul(Integer{y}, s);
            ck.eq("add_mul with itself as factor", s, {Q(z + z * w)});
            s = a;
            s.add_mul(s, s);
            ck.eq("add_mul with itself as factors", s, {Q(z + z * z)});
        }
        if (z != 0) { Integer s = a; s.divide(s); ck.eq("divide by itself", s, {1}); }
    }
    if constexpr (std::is_same_v<A, Rational>) {
        ck.eq("num", a.num(), {Q(x.c.get_num())});
        ck.eq("den", a.den(), {Q(x.c.get_den())});
        Rational s = a;
        s.num() *= 6;
        s.den() *= 6;
        s.canonicalize();
        ck.eq("canonicalize", s, x);
        s.num() *= -6;
        s.den() *= -6;
        s.canonicalize();
        ck.eq("canonicalize with negative denominator", s, x);
        ck.eq("conversion", RationalQ{a}, x);
    }
    if constexpr (std::is_same_v<A, RationalQ>) {
        bool threw = false;
        try { static_cast<void>(a.as_rational()); } catch (std::exception const &) { threw = true; }
        ck.same("as_rational refuses epsilon", threw, x.k != 0);
    }
}

//! Sequences of in-place operations on one object; after each the value and its canonical form are compared.
template <typename A> struct Sequences {
    Checker &ck;
    std::vector<QE> args;
    size_t depth;
    std::string trace;
    void go(A const &a, QE const &x, size_t d, std::vector<int> const &only, size_t pos) {
        if (d == depth) { ck.rep.count(C_SEQ); return; }
        int n = 0;
        auto step = [&](std::string const &name, auto &&f, QE const &want) {
            int id = n++;
            if (pos < only.size() && only[pos] != id) { return; }
            auto size = trace.size();
            trace += (trace.empty() ? "" : "; ") + name;
            A t = a;
            f(t);
            ck.rep.count(C_OPS);
            ck.what = trace;
            ck.eq(name.c_str(), t, want);
            go(t, want, d + 1, only, pos + 1);
            trace.resize(size);
        };
        for (auto const &y : args) {
            A b = from<A>(y);
            step("+= " + y.str(), [&](A &t) { t += b; }, x + y);
            step("-= " + y.str(), [&](A &t) { t -= b; }, x - y);
            if (y.k == 0) {
                if constexpr (std::is_same_v<A, RationalQ>) {
                    auto r = from<Rational>(y);
                    step("*= " + y.str(), [&](A &t) { t *= r; }, qmul(x, y));
                    if (y.c != 0) { step("/= " + y.str(), [&](A &t) { t /= r; }, qdiv(x, y)); }
                } else {
                    step("*= " + y.str(), [&](A &t) { t *= b; }, qmul(x, y));
                    if constexpr (std::is_same_v<A, Rational>) { if (y.c != 0) { step("/= " + y.str(), [&](A &t) { t /= b; }, qdiv(x, y)); } }
                    else { step("add_mul " + y.str() + " twice", [&](A &t) { t.add_mul(b, b); }, x + qmul(y, y)); }
                }
            }
        }
        step("negate", [&](A &t) { t = -std::move(t); }, -x);
        step("move", [&](A &t) { A u{std::move(t)}; t = std::move(u); }, x);
        step("copy", [&](A &t) { A u{t}; t = u; }, x);
        step("double", [&](A &t) { t += t; }, x + x);
    }
};

template <typename A> std::vector<QE> seq_args();
template <> std::vector<QE> seq_args<Integer>() { return {{Q("1")}, {Q("-3")}, {Q("4611686018427387904")}, {Q("-18446744073709551616")}}; }
template <> std::vector<QE> seq_args<Rational>() { return {{Q("-1")}, {Q("2/3")}, {Q("4611686018427387904")}, {Q("-1/9223372036854775808")}}; }
template <> std::vector<QE> seq_args<RationalQ>() { return {{Q("-1")}, {Q("2/3")}, {Q("1"), Q("-4611686018427387904")}, {Q("0"), Q("1/2")}}; }

struct Job {
    std::string name;
    std::function<void(hn::Reporter &, std::string const &only)> run;
};

struct Numbers : hn::Engine {
    std::vector<Job> all;
    template <typename A, typename B> void pairs(bool t) {
        auto xs = operands<A>(t), ys = operands<B>(t);
        for (auto const &x : xs) {
            all.push_back({std::string(tname<A>()) + " " + x.str() + " with every " + tname<B>(), [x, ys](hn::Reporter &rep, std::string const &only) {
                for (size_t i = 0; i < ys.size(); ++i) {
                    auto id = std::to_string(i);
                    if (!only.empty() && only != id) { continue; }
                    rep.begin(id);
                    Checker ck{rep, ""};
                    try { pair_ops<A, B>(ck, x, ys[i]); }
                    catch (Bad const &e) { rep.violation("number", std::string(tname<A>()) + " " + x.str() + " and " + tname<B>() + " " + ys[i].str() + ": " + e.what(), id); return; }
                }
            }});
        }
    }
    template <typename A> void unaries(bool t) {
        auto xs = operands<A>(t);
        all.push_back({std::string(tname<A>()) + " unary", [xs](hn::Reporter &rep, std::string const &only) {
            for (size_t i = 0; i < xs.size(); ++i) {
                auto id = std::to_string(i);
                if (!only.empty() && only != id) { continue; }
                rep.begin(id);
                Checker ck{rep, ""};
                try { unary<A>(ck, xs[i]); }
                catch (Bad const &e) { rep.violation("number", std::string(tname<A>()) + " " + xs[i].str() + ": " + e.what(), id); return; }
            }
        }});
    }
    template <typename A> void sequences(bool t) {
        auto args = seq_args<A>();
        std::vector<QE> starts = {{Q("0")}, {Q("1")}, {Q("-4611686018427387904")}, {Q("9223372036854775807")}};
        for (auto const &x : starts) {
            for (int first = 0; first < 20; ++first) {
                for (int second = 0; second < 20; ++second) {
                    all.push_back({std::string(tname<A>()) + " sequences from " + x.str() + " beginning with " + std::to_string(first) + "," + std::to_string(second), [=](hn::Reporter &rep, std::string const &only) {
                        if (!only.empty() && only != "all") { return; }
                        rep.begin("all");
                        Checker ck{rep, ""};
                        Sequences<A> s{ck, args, static_cast<size_t>(t ? 5 : 4), ""};
                        try { s.go(from<A>(x), x, 0, {first, second}, 0); }
                        catch (Bad const &e) { rep.violation("number", std::string(tname<A>()) + " " + x.str() + ": " + ck.what + ": " + e.what(), "all"); }
                    }});
                }
            }
        }
    }
    void texts(bool t) {
        all.push_back({"reading and printing", [t](hn::Reporter &rep, std::string const &only) {
            if (!only.empty() && only != "all") { return; }
            rep.begin("all");
            auto bad = [&](std::string const &m) { rep.violation("text", m, "all"); };
            // every string over the alphabet up to a length
            std::string alpha = "019-/x";
            size_t len = t ? 8 : 6;
            std::string s;
            auto is_int = [](std::string const &x) { size_t i = !x.empty() && x[0] == '-' ? 1 : 0; return x.size() > i && x.find_first_not_of("0123456789", i) == std::string::npos; };
            std::function<void()> rec = [&]() {
                rep.count(C_TEXT);
                bool num = is_int(s);
                std::string out;
                bool ok = true;
                try { out = text(Integer{s, 10}); } catch (std::exception const &) { ok = false; }
#ifdef CLINGOLPX_USE_IMATH
                // what else the constructors accept is left to the math library (this variant uses a stand-in for it)
                if (!num) { ok = num; }
#endif
                // two signs are left to the math library
                if (s.rfind("--", 0) != 0 && ok != num) { bad("integer '" + s + "' is " + (ok ? "accepted" : "refused")); return; }
                if (ok && num && mpz_class(s, 10).get_str() != out) { bad("integer '" + s + "' is read as " + out); return; }
                auto p = s.find('/');
                auto a = s.substr(0, p), b = p == std::string::npos ? "1" : s.substr(p + 1);
                num = is_int(a) && is_int(b);
                bool zero = num && mpz_class(b, 10) == 0;
                // a sign in the denominator is not specified
                if (p == std::string::npos || !(is_int(b) && b[0] == '-')) {
                    ok = true;
                    try { out = text(Rational{s, 10}); } catch (std::exception const &) { ok = false; }
#ifdef CLINGOLPX_USE_IMATH
                    if (!num) { ok = false; }
#endif
                    if (ok != (num && !zero)) { bad("rational '" + s + "' is " + (ok ? "accepted" : "refused")); return; }
                    if (ok) {
                        Q q{mpz_class(a, 10), mpz_class(b, 10)};
                        q.canonicalize();
                        if (q.get_str() != out) { bad("rational '" + s + "' is read as " + out); return; }
                    }
                }
                if (s.size() == len) { return; }
                for (char c : alpha) { s.push_back(c); rec(); s.pop_back(); if (rep.stopped()) { return; } }
            };
            rec();
            // long numbers
            std::vector<size_t> lengths;
            for (size_t n = 1; n <= (t ? 1100 : 150); ++n) { lengths.push_back(n); }
            for (size_t n : {254, 255, 256, 257, 300, 310, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65536, 100000}) { lengths.push_back(n); }
            for (size_t n : lengths) {
                for (char c : {'1', '7', '9'}) {
                    for (auto pre : {"", "-", "0", "-00"}) {
                        rep.count(C_TEXT);
                        std::string x = pre + std::string(n, c) + "0";
                        auto o = text(Integer{x, 10});
                        if (o != mpz_class(x, 10).get_str()) { bad("integer '" + x + "' is read as " + o); return; }
                        auto y = x + "/" + std::string(n, '3');
                        Q q(y, 10);
                        q.canonicalize();
                        o = text(Rational{y, 10});
                        if (o != q.get_str()) { bad("rational '" + y + "' is read as " + o); return; }
                    }
                }
            }
        }});
    }
    Numbers(hn::Args const &a) {
        bool t = a.get("tier") == "thorough";
        auto f = a.get("family");
        if (f == "ops") {
            unaries<Integer>(t);
            unaries<Rational>(t);
            unaries<RationalQ>(t);
            pairs<Integer, fixed_int>(t);
            pairs<Integer, Integer>(t);
            pairs<Rational, fixed_int>(t);
            pairs<Rational, Integer>(t);
            pairs<Rational, Rational>(t);
            pairs<RationalQ, fixed_int>(t);
            pairs<RationalQ, Integer>(t);
            pairs<RationalQ, Rational>(t);
            pairs<RationalQ, RationalQ>(t);
        } else if (f == "seq") {
            sequences<Integer>(t);
            sequences<Rational>(t);
            sequences<RationalQ>(t);
        } else if (f == "text") {
            texts(t);
        } else { throw std::runtime_error("unknown family"); }
    }
    uint64_t jobs() override { return all.size(); }
    std::string describe(uint64_t j) override { return all[j].name; }
    std::vector<std::string> counters() override { return {"operand_tuples", "operations", "results_compared", "sequences", "texts"}; }
    void run(uint64_t j, hn::Reporter &rep, std::string const &only) override {
        try { all[j].run(rep, only); } catch (Bad const &e) { rep.violation("number", e.what(), only); }
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    Numbers e(a);
    return hn::main_loop(e, a);
}
