// Parsing: all expressions, names, numbers and ill-formed inputs up to a size are given to the real clingo with the
// library; the values, names and errors reported are compared with an independent evaluation of the syntax trees.
#include "harness.hh"
#include "ref.hh"
#include <clingo-lpx.h>
#include <clingo.hh>
#include <functional>
#include <memory>

namespace {

enum { C_INPUTS, C_SOLVES, C_VALUES, C_ERRORS, C_SKIPPED, C_PROGRAMS };

struct Bad : std::runtime_error {
    std::string kind;
    Bad(std::string k, std::string const &m) : std::runtime_error(m), kind(std::move(k)) {}
};

// ---------------------------------------------------------------------------------------------------------------
// Syntax trees.

struct Node;
using P = std::shared_ptr<Node const>;
struct Node {
    char op;              // 'i' number, 'd' quoted decimal, 'v' atom (variable or constant), 's' string, 'n' negation, 'f' function, 't' tuple, or + - * /
    std::string text;     // source of leaves, name of functions
    Q val;
    std::vector<P> args;
    std::string canon;    // canonical name of variables
};
P num(std::string const &t) { return std::make_shared<Node>(Node{'i', t, Q(t), {}, ""}); }
P dec(std::string const &t, Q v) { return std::make_shared<Node>(Node{'d', "\"" + t + "\"", std::move(v), {}, ""}); }
P var(std::string const &t, std::string const &c) { return std::make_shared<Node>(Node{'v', t, 0, {}, c}); }
P var(std::string const &t) { return var(t, t); }
P str(std::string const &t) { return std::make_shared<Node>(Node{'s', "\"" + t + "\"", 0, {}, ""}); }
P neg(P a) { return std::make_shared<Node>(Node{'n', "", 0, {std::move(a)}, ""}); }
P bin(char o, P a, P b) { return std::make_shared<Node>(Node{o, "", 0, {std::move(a), std::move(b)}, ""}); }
P fun(std::string const &n, std::vector<P> a) { return std::make_shared<Node>(Node{'f', n, 0, std::move(a), ""}); }
P tup(std::vector<P> a) { return std::make_shared<Node>(Node{'t', "", 0, std::move(a), ""}); }

int prec(Node const &n) {
    switch (n.op) {
        case '+': case '-': return 1;
        case '*': case '/': return 2;
        case 'n': return 3;
        default: return 4;
    }
}
//! Text with the parentheses the usual precedence and associativity require, or all of them.
std::string show(Node const &n, bool full = false) {
    auto paren = [](std::string const &s, bool p) { return p ? "(" + s + ")" : s; };
    auto list = [&] { std::string s; for (auto const &a : n.args) { s += (s.empty() ? "" : ",") + show(*a, full); } return s; };
    switch (n.op) {
        case 'f': return n.text + "(" + list() + ")";
        case 't': return "(" + list() + (n.args.size() == 1 ? ",)" : ")");
        case 'n': return "-" + paren(show(*n.args[0], full), prec(*n.args[0]) <= 3 || (full && prec(*n.args[0]) < 4));
        case '+': case '-': case '*': case '/': {
            auto const &a = *n.args[0], &b = *n.args[1];
            return paren(show(a, full), prec(a) < prec(n) || (full && prec(a) < 4)) + " " + n.op + " " + paren(show(b, full), prec(b) <= prec(n) || (full && prec(b) < 4));
        }
        default: return n.text;
    }
}
std::string operand(Node const &n, int p) { return prec(n) <= p ? "(" + show(n) + ")" : show(n); }

// ---------------------------------------------------------------------------------------------------------------
// Reference semantics.

enum class St { ok, error, unclear };

//! Value of a term as argument of a function: a number or a symbol.
struct Sym {
    St st = St::ok;
    bool number = false;
    Q val;
    bool negative = false, named = false; // functions with a name have a sign
    std::string text;
    std::string str() const { return number ? val.get_str() : (negative ? "-" : "") + text; }
};
Sym eval_sym(Node const &n, bool arg) {
    Sym r;
    auto error = [] { Sym e; e.st = St::error; return e; };
    switch (n.op) {
        case 'i': r.number = true; r.val = n.val; return r;
        case 'd':
            if (!arg) { r.number = true; r.val = n.val; return r; }
            r.text = n.text;
            return r;
        case 's': r.text = n.text; return r;
        case 'v': r.text = n.canon; r.named = true; return r;
        case 'n': {
            auto a = eval_sym(*n.args[0], arg);
            if (a.st != St::ok) { return a; }
            if (a.number) { a.val = -a.val; return a; }
            if (!a.named) { return error(); }
            a.negative = !a.negative;
            return a;
        }
        case 'f': case 't': {
            std::string l;
            for (auto const &x : n.args) {
                auto a = eval_sym(*x, true);
                if (a.st != St::ok) { return a; }
                if (a.number && (a.val.get_den() != 1 || a.val.get_num() > 2147483647 || a.val.get_num() < mpz_class("-2147483648"))) { return error(); }
                l += (l.empty() ? "" : ",") + a.str();
            }
            r.named = n.op == 'f';
            r.text = (n.op == 'f' ? n.text : "") + "(" + l + (n.op == 't' && n.args.size() == 1 ? ",)" : ")");
            return r;
        }
        default: {
            auto a = eval_sym(*n.args[0], arg), b = eval_sym(*n.args[1], arg);
            if (a.st != St::ok) { return a; }
            if (b.st != St::ok) { return b; }
            if (!a.number || !b.number) { return error(); }
            r.number = true;
            if (n.op == '+') { r.val = a.val + b.val; }
            if (n.op == '-') { r.val = a.val - b.val; }
            if (n.op == '*') { r.val = a.val * b.val; }
            if (n.op == '/') { if (b.val == 0) { return error(); } r.val = a.val / b.val; }
            return r;
        }
    }
}
//! Linear form of a term.
struct Lin {
    St st = St::ok;
    bool vars = false; // mentions variables
    std::map<std::string, Q> co;
    Q c;
    bool constant() const { return co.empty(); }
    void clean() { for (auto it = co.begin(); it != co.end();) { it = it->second == 0 ? co.erase(it) : std::next(it); } }
};
Lin eval_lin(Node const &n) {
    Lin r;
    auto stat = [](St s) { Lin e; e.st = s; return e; };
    switch (n.op) {
        case 'i': case 'd': r.c = n.val; return r;
        case 'v': r.co[n.canon] = 1; r.vars = true; return r;
        case 's': r.co[n.text] = 1; r.vars = true; return r;
        case 'f': case 't': {
            auto s = eval_sym(n, false);
            if (s.st != St::ok) { return stat(s.st); }
            r.co[s.str()] = 1;
            r.vars = true;
            return r;
        }
        case 'n': {
            r = eval_lin(*n.args[0]);
            r.c = -r.c;
            for (auto &x : r.co) { x.second = -x.second; }
            return r;
        }
        default: break;
    }
    auto a = eval_lin(*n.args[0]), b = eval_lin(*n.args[1]);
    if (a.st == St::error || b.st == St::error) { return stat(St::error); }
    if (a.st == St::unclear || b.st == St::unclear) { return stat(St::unclear); }
    r.vars = a.vars || b.vars;
    if (n.op == '+' || n.op == '-') {
        r.c = n.op == '+' ? Q(a.c + b.c) : Q(a.c - b.c);
        r.co = a.co;
        for (auto &x : b.co) { if (n.op == '+') { r.co[x.first] += x.second; } else { r.co[x.first] -= x.second; } }
    } else if (n.op == '*') {
        if (a.vars && b.vars) { return stat(a.constant() || b.constant() ? St::unclear : St::error); }
        auto const &l = a.vars ? a : b;
        auto const &k = a.vars ? b : a;
        r.c = l.c * k.c;
        for (auto &x : l.co) { r.co[x.first] = x.second * k.c; }
    } else {
        if (b.vars) { return stat(b.constant() && b.c != 0 ? St::unclear : St::error); }
        if (b.c == 0) { return stat(St::error); }
        r.c = a.c / b.c;
        for (auto &x : a.co) { r.co[x.first] = x.second / b.c; }
    }
    r.clean();
    return r;
}

// ---------------------------------------------------------------------------------------------------------------
// Running programs.

struct Model {
    std::map<std::string, std::string> vals;
    std::string objective;
    bool has_objective = false, bounded = false;
};
struct Run {
    bool error = false;
    std::string message;
    bool sat = false;
    std::vector<Model> models;
};

struct Session {
    clingolpx_theory_t *t = nullptr;
    std::unique_ptr<Clingo::Control> ctl;
    std::string messages;
    hn::Reporter &rep;
    bool failed = false;
    std::string message;
    Session(hn::Reporter &rep, std::string const &text, bool strict, bool ast) : rep(rep) {
        rep.count(C_PROGRAMS);
        if (!clingolpx_create(&t)) { throw Bad("error", "create failed"); }
        if (strict && !clingolpx_configure(t, "strict", "yes")) { throw Bad("error", "configure failed"); }
        ctl = std::make_unique<Clingo::Control>(Clingo::StringSpan{}, [this](Clingo::WarningCode, char const *m) { if (messages.size() < 2000) { messages += std::string(m).substr(0, 500); } }, 20);
        try {
            if (!clingolpx_register(t, ctl->to_c())) { throw Bad("error", "register failed"); }
            if (ast) {
                Clingo::AST::with_builder(*ctl, [&](Clingo::AST::ProgramBuilder &b) {
                    Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node const &n) {
                        auto add = [](clingo_ast_t *ast, void *data) -> bool {
                            auto &b = *static_cast<Clingo::AST::ProgramBuilder *>(data);
                            clingo_ast_acquire(ast);
                            b.add(Clingo::AST::Node{ast});
                            return true;
                        };
                        if (!clingolpx_rewrite_ast(t, n.to_c(), add, &b)) { throw std::runtime_error(clingo_error_message() != nullptr ? clingo_error_message() : "rewrite failed"); }
                    });
                });
            } else { ctl->add("base", {}, text.c_str()); }
            ctl->ground({{"base", {}}});
            if (!clingolpx_prepare(t, ctl->to_c())) { throw Bad("error", "prepare failed"); }
            ctl->configuration()["solve"]["models"] = "2";
        } catch (Bad const &) { throw; }
        catch (std::exception const &e) { failed = true; message = e.what(); }
    }
    ~Session() {
        ctl.reset();
        if (t != nullptr) { clingolpx_destroy(t); }
    }
    Run solve(std::vector<int> const &assume = {}) {
        Run r;
        if (failed) { r.error = true; r.message = message; return r; }
        rep.count(C_SOLVES);
        struct H : Clingo::SolveEventHandler {
            Session &s;
            Run &r;
            H(Session &s, Run &r) : s(s), r(r) {}
            bool on_model(Clingo::Model &m) override {
                Model mod;
                if (!clingolpx_on_model(s.t, m.to_c())) { throw std::runtime_error("on_model failed"); }
                for (auto const &x : m.symbols(Clingo::ShowType::Theory)) {
                    if (x.match("__lpx", 2)) { mod.vals.emplace(x.arguments()[0].to_string(), x.arguments()[1].string()); }
                    if (x.match("__lpx_objective", 2)) { mod.has_objective = true; mod.objective = x.arguments()[0].string(); mod.bounded = x.arguments()[1].number() != 0; }
                }
                r.models.push_back(std::move(mod));
                return true;
            }
        } h(*this, r);
        try {
            auto res = ctl->solve(Clingo::LiteralSpan{assume.data(), assume.size()}, &h, false, false).get();
            r.sat = res.is_satisfiable();
            if (!res.is_satisfiable() && !res.is_unsatisfiable()) { throw Bad("error", "no answer"); }
        } catch (Bad const &) { throw; }
        catch (std::exception const &e) { r.error = true; r.message = e.what(); }
        return r;
    }
};

void expect_error(hn::Reporter &rep, std::string const &text, bool strict, bool ast) {
    Session s(rep, text, strict, ast);
    auto r = s.solve();
    rep.count(C_ERRORS);
    if (!r.error) { throw Bad("accepted", "ill-formed program accepted (" + std::string(r.sat ? "satisfiable" : "unsatisfiable") + "): " + text); }
    if (r.message.empty()) { throw Bad("accepted", "no error message for: " + text); }
    if (!r.models.empty()) { throw Bad("accepted", "model reported for ill-formed program: " + text); }
}
Model one_model(hn::Reporter &rep, std::string const &text, bool strict, bool ast) {
    Session s(rep, text, strict, ast);
    auto r = s.solve();
    auto brief = [&] { return text.size() > 2500 ? text.substr(0, 2500) + "..." : text; };
    if (r.error) { throw Bad("refused", "well-formed program refused: " + r.message.substr(0, 200) + " " + s.messages + ": " + brief()); }
    if (r.models.size() != 1) { throw Bad("value", std::to_string(r.models.size()) + " models instead of one: " + brief()); }
    return r.models[0];
}

// ---------------------------------------------------------------------------------------------------------------
// Enumeration of trees.

std::vector<P> trees(int ops, std::vector<P> const &leaves, std::string const &operators) {
    if (ops == 0) { return leaves; }
    std::vector<P> res;
    for (int l = 0; l < ops; ++l) {
        auto a = trees(l, leaves, operators), b = trees(ops - 1 - l, leaves, operators);
        for (char o : operators) { for (auto const &x : a) { for (auto const &y : b) { res.push_back(bin(o, x, y)); } } }
    }
    return res;
}
//! All trees obtained by negating up to k nodes.
void negations(P const &t, int k, std::vector<P> &out) {
    std::function<std::vector<std::pair<P, int>>(P const &, int)> rec = [&](P const &x, int k) {
        std::vector<std::pair<P, int>> res;
        std::vector<std::pair<P, int>> inner;
        if (x->args.size() == 2 && std::strchr("+-*/", x->op) != nullptr) {
            for (auto const &[a, i] : rec(x->args[0], k)) { for (auto const &[b, j] : rec(x->args[1], k - i)) { inner.emplace_back(i + j == 0 ? x : bin(x->op, a, b), i + j); } }
        } else { inner.emplace_back(x, 0); }
        for (auto const &[a, i] : inner) {
            res.emplace_back(a, i);
            if (i < k) { res.emplace_back(neg(a), i + 1); }
        }
        return res;
    };
    for (auto const &x : rec(t, k)) { out.push_back(x.first); }
}
std::vector<P> forest(int ops, std::vector<P> const &leaves, int negs, std::string const &operators = "+-*/") {
    std::vector<P> res;
    for (auto const &t : trees(ops, leaves, operators)) { negations(t, negs, res); }
    return res;
}

struct Job {
    std::string what;
    std::function<void(hn::Reporter &)> run;
};

struct Parsing : hn::Engine {
    std::vector<Job> jobs_;
    bool thorough;
    std::map<std::string, Q> fixed;

    void chunks(std::string const &what, std::vector<P> ts, size_t size, std::function<void(hn::Reporter &, std::vector<P> const &, bool)> f) {
        for (size_t i = 0, k = 0; i < ts.size(); i += size, ++k) {
            std::vector<P> c(ts.begin() + i, ts.begin() + std::min(ts.size(), i + size));
            jobs_.push_back({what + " from " + show(*c.front()), [c, f, k](hn::Reporter &rep) { f(rep, c, k % 2 == 1); }});
        }
    }
    static std::string quote(Q const &q) { // only for values with denominators 1
        return q.get_str();
    }
    std::string fix() const {
        std::string s;
        for (auto const &[n, v] : fixed) { s += "&sum { " + mpz_class(v.get_den()).get_str() + "*" + n + " } = " + mpz_class(v.get_num()).get_str() + ". "; }
        return s;
    }
    Q at(Lin const &l) const {
        Q r = l.c;
        for (auto const &[n, v] : l.co) { r += v * fixed.at(n); }
        return r;
    }

    // expressions in every position of a constraint
    void expressions(hn::Reporter &rep, std::vector<P> const &ts, bool ast) const {
        std::string text = fix() + "&sum { 3*u } = 1. ";
        std::map<std::string, std::string> want;
        for (auto const &[n, v] : fixed) { want[n] = v.get_str(); }
        want["u"] = "1/3";
        size_t i = 0;
        for (auto const &t : ts) {
            auto l = eval_lin(*t);
            rep.count(C_INPUTS);
            if (l.st == St::unclear) { rep.count(C_SKIPPED); continue; }
            auto s = show(*t);
            if (l.st == St::error) {
                rep.begin(s);
                expect_error(rep, fix() + "&sum { " + s + " } <= z.", false, ast);
                expect_error(rep, fix() + "&sum { z } >= " + s + ".", false, ast);
                continue;
            }
            auto id = std::to_string(i++);
            auto v = at(l);
            text += "&sum { z(" + id + ") } = " + s + ". ";
            text += "&sum { " + s + " - y(" + id + ") } = 0. ";
            text += "&sum { " + show(*t, true) + "; -x(" + id + ") } = 0. ";
            text += "&sum { w + " + operand(*t, 1) + " } = v(" + id + ") + w. ";
            text += "&diff { t(" + id + ") - u } = " + s + ".\n";
            for (auto const *n : {"x(", "y(", "z(", "v("}) { want[n + id + ")"] = v.get_str(); }
            want["t(" + id + ")"] = Q(v + Q(1, 3)).get_str();
        }
        if (i == 0) { return; }
        rep.begin("expressions from " + show(*ts.front()));
        auto m = one_model(rep, text, false, ast);
        compare(rep, ts, m, want);
    }
    static void compare(hn::Reporter &rep, std::vector<P> const &ts, Model const &m, std::map<std::string, std::string> const &want) {
        std::string ctx = ts.empty() ? "" : " (inputs from " + show(*ts.front()) + " to " + show(*ts.back()) + ")";
        for (auto const &[n, v] : want) {
            rep.count(C_VALUES);
            auto it = m.vals.find(n);
            if (it == m.vals.end()) { throw Bad("value", "no value for " + n.substr(0, 200) + ctx); }
            if (it->second != v) { throw Bad("value", n.substr(0, 200) + " is " + it->second.substr(0, 200) + " instead of " + v.substr(0, 200) + ctx); }
        }
        for (auto const &[n, v] : m.vals) { if (n != "w" && want.count(n) == 0) { throw Bad("value", "unexpected variable " + n.substr(0, 200) + ctx); } }
    }
    // expressions in objectives
    void objectives(hn::Reporter &rep, std::vector<P> const &ts, bool ast) const {
        for (auto const &t : ts) {
            auto l = eval_lin(*t);
            rep.count(C_INPUTS);
            if (l.st == St::unclear) { rep.count(C_SKIPPED); continue; }
            auto s = show(*t);
            rep.begin(s);
            for (int min = 0; min < 2; ++min) {
                auto p = fix() + (min != 0 ? "&minimize { " : "&maximize { ") + s + " }.";
                if (l.st == St::error || l.c != 0) { expect_error(rep, p, false, ast); continue; }
                auto m = one_model(rep, p, false, ast);
                if (l.co.empty()) { continue; } // an empty objective may or may not be reported
                auto v = at(l);
                if (min != 0) { v = -v; }
                rep.count(C_VALUES);
                if (!m.has_objective || m.objective != v.get_str() || !m.bounded) { throw Bad("value", "objective " + (m.has_objective ? m.objective : "missing") + " instead of " + v.get_str() + ": " + p); }
            }
        }
    }
    // names of variables
    void names(hn::Reporter &rep, std::vector<P> const &ts, bool ast) const {
        std::string text;
        std::map<std::string, std::string> want;
        int k = 100;
        auto value = [&](std::string const &n) { auto it = want.find(n); if (it == want.end()) { it = want.emplace(n, std::to_string(++k)).first; } return it->second; };
        for (auto const &t : ts) {
            rep.count(C_INPUTS);
            auto s = eval_sym(*t, false);
            auto src = show(*t);
            if (s.st == St::error) {
                rep.begin(src);
                expect_error(rep, "&sum { " + src + " } <= 1.", false, ast);
                expect_error(rep, "&sum { x } <= 1 + " + src + ".", false, ast);
                expect_error(rep, "&diff { x - " + src + " } <= 1.", false, ast);
                expect_error(rep, "&dom { 1..2 } = " + src + ".", false, ast);
                expect_error(rep, "&maximize { x; " + src + " }. &sum { x } <= 1.", false, ast);
                continue;
            }
            auto n = s.str();
            auto v = value(n);
            text += "&sum { " + src + " } = " + v + ". &dom { " + v + ".." + v + " } = " + src + ". ";
            text += "&diff { " + src + " - x } = " + v + "-5. &sum { 2*q } = " + src + "*2 + 2*q - " + v + "*2. ";
        }
        if (want.empty()) { return; }
        want["x"] = "5";
        text += "&sum { x } = 5.";
        rep.begin("names from " + show(*ts.front()));
        auto m = one_model(rep, text, false, ast);
        m.vals.erase("q");
        compare(rep, ts, m, want);
    }
    // one atom per choice: which of them can hold at a given point
    struct Atom { std::string text; bool holds; };
    static void at_point(hn::Reporter &rep, std::string const &facts, std::vector<Atom> const &atoms, bool ast) {
        std::string text = facts;
        for (size_t i = 0; i < atoms.size(); ++i) { text += "{c(" + std::to_string(i) + ")}. " + atoms[i].text + " :- c(" + std::to_string(i) + ").\n"; }
        rep.begin(facts + " " + atoms.front().text);
        Session s(rep, text, true, ast);
        if (s.failed) { throw Bad("refused", "well-formed program refused: " + s.message + " " + s.messages + ": " + text.substr(0, 1000)); }
        for (size_t i = 0; i < atoms.size(); ++i) {
            rep.count(C_INPUTS);
            auto lit = s.ctl->symbolic_atoms()[Clingo::Function("c", {Clingo::Number(static_cast<int>(i))})].literal();
            auto r = s.solve({lit});
            if (r.error) { throw Bad("refused", "well-formed program refused: " + r.message + " " + s.messages + ": " + facts + " " + atoms[i].text); }
            rep.count(C_VALUES);
            if (r.sat != atoms[i].holds) { throw Bad("value", atoms[i].text + " with " + facts + " is " + (r.sat ? "satisfiable" : "unsatisfiable")); }
        }
    }
    static bool rel(Q const &a, std::string const &r, Q const &b) {
        return r == "<=" ? a <= b : r == ">=" ? a >= b : r == "=" ? a == b : r == "<" ? a < b : a > b;
    }
    void add_shortcuts() {
        std::vector<P> ops = {var("x"), var("y"), num("3"), dec("0.5", Q(1, 2)), neg(num("2")), fun("f", {bin('+', num("1"), num("1"))}), dec("-1.5", Q(-3, 2)), num("0")};
        if (thorough) { ops.push_back(bin('/', num("7"), num("2"))); ops.push_back(bin('*', num("2"), dec("0.25", Q(1, 4)))); ops.push_back(var("g(a,-1)", "g(a,-1)")); ops.push_back(tup({num("1"), num("2")})); }
        std::vector<P> rhs = {num("0"), num("1"), dec("0.5", Q(1, 2)), neg(num("2")), bin('-', bin('*', num("2"), num("3")), num("7")), bin('/', num("1"), num("3")), dec("-2.5", Q(-5, 2)), num("3"), neg(bin('-', num("1"), num("2")))};
        std::vector<P> vrhs = {var("x"), bin('-', var("y"), num("1")), bin('*', num("2"), var("x"))};
        for (auto const &v : vrhs) { rhs.push_back(v); }
        std::vector<std::string> rels = {"<=", ">=", "=", "<", ">"};
        std::vector<Q> xs = {Q(0), Q(1, 2), Q(3)}, ys = {Q(1), Q(-5, 2)};
        if (thorough) { xs.push_back(Q(1, 3)); xs.push_back(Q(-2)); ys.push_back(Q(0)); ys.push_back(Q(3)); }
        auto facts = [](std::map<std::string, Q> const &m) {
            std::string s;
            for (auto const &[n, v] : m) { s += "&sum { " + mpz_class(v.get_den()).get_str() + "*" + n + " } = " + mpz_class(v.get_num()).get_str() + ". "; }
            return s;
        };
        int k = 0;
        for (auto const &x : xs) {
            for (auto const &y : ys) {
                std::map<std::string, Q> pt = {{"x", x}, {"y", y}, {"f(2)", Q(5, 2)}, {"g(a,-1)", Q(1)}, {"(1,2)", Q(4)}};
                auto val = [pt](P const &p) { auto l = eval_lin(*p); Q r = l.c; for (auto const &[n, v] : l.co) { r += v * pt.at(n); } return r; };
                for (auto const &a : ops) {
                    for (auto const &b : ops) {
                        std::vector<Atom> atoms;
                        for (auto const &r : rels) {
                            for (auto const &t : rhs) {
                                bool h = rel(val(a) - val(b), r, val(t));
                                // the dictated side of the minus sign only: a-b with a and b operands
                                auto l = "{ " + operand(*a, 1) + " - " + operand(*b, 1) + " } " + r + " " + show(*t);
                                atoms.push_back({"&diff " + l, h});
                                atoms.push_back({"&sum " + l, h});
                            }
                        }
                        auto f = facts(pt);
                        jobs_.push_back({"differences " + show(*a) + " - " + show(*b) + " with " + f, [f, atoms, k](hn::Reporter &rep) { at_point(rep, f, atoms, k % 2 == 1); }});
                        ++k;
                    }
                }
            }
        }
        std::vector<P> bounds = {num("0"), num("1"), neg(num("2")), dec("0.5", Q(1, 2)), dec("-1.5", Q(-3, 2)), bin('+', num("1"), num("1")), bin('/', num("3"), num("2")), bin('-', bin('*', num("2"), num("3")), num("7")), bin('*', num("2"), neg(num("3"))), neg(bin('-', num("1"), num("3")))};
        std::vector<Q> pts = {Q(0), Q(1), Q(-2), Q(1, 2), Q(-3, 2), Q(2), Q(3, 2), Q(-1), Q(-6), Q(1, 3), Q(5), Q(-7)};
        for (auto const &x : pts) {
            for (auto const &n : {P(var("x")), fun("f", {bin('-', num("3"), num("1"))}), tup({var("a"), bin('*', num("1"), num("2"))})}) {
                auto name = eval_sym(*n, false).str();
                std::vector<Atom> atoms;
                for (auto const &l : bounds) {
                    for (auto const &u : bounds) {
                        auto lo = eval_lin(*l).c, hi = eval_lin(*u).c;
                        atoms.push_back({"&dom { " + show(*l) + " .. " + show(*u) + " } = " + show(*n), lo <= x && x <= hi});
                    }
                }
                auto f = facts({{name, x}});
                jobs_.push_back({"domains of " + show(*n) + " with " + f, [f, atoms, k](hn::Reporter &rep) { at_point(rep, f, atoms, k % 2 == 1); }});
                ++k;
            }
        }
        // optima over domains given as facts and over differences
        for (auto const &l : bounds) {
            for (auto const &u : bounds) {
                auto lo = eval_lin(*l).c, hi = eval_lin(*u).c;
                auto lt = show(*l), ut = show(*u);
                jobs_.push_back({"optima over the domain " + lt + ".." + ut, [lo, hi, lt, ut](hn::Reporter &rep) {
                    for (int cond = 0; cond < 2; ++cond) {
                        for (int max = 0; max < 2; ++max) {
                            rep.count(C_INPUTS);
                            auto p = "&dom { " + lt + " .. " + ut + " } = x" + (cond != 0 ? " :- c. {c}. :- not c. " : ". ") + (max != 0 ? "&maximize { x }." : "&minimize { x }.") + " &diff { x - y } <= " + ut + ". &diff { y - x } <= -(" + lt + ").";
                            // x-u <= y <= x-l
                            rep.begin(p);
                            Session s(rep, p, false, cond != 0);
                            auto r = s.solve();
                            if (r.error) { throw Bad("refused", "well-formed program refused: " + r.message + ": " + p); }
                            rep.count(C_VALUES);
                            if (r.sat != (lo <= hi)) { throw Bad("value", std::string(r.sat ? "satisfiable: " : "unsatisfiable: ") + p); }
                            if (!r.sat) { continue; }
                            auto want = max != 0 ? hi : Q(-lo);
                            if (!r.models[0].bounded || r.models[0].objective != want.get_str()) { throw Bad("value", "optimum " + r.models[0].objective + " instead of " + want.get_str() + ": " + p); }
                        }
                    }
                }});
            }
        }
    }
    void add_illformed() {
        auto add = [&](std::string p, bool strict = false) {
            jobs_.push_back({p, [p, strict](hn::Reporter &rep) {
                for (int ast = 0; ast < 2; ++ast) {
                    rep.begin(p);
                    rep.count(C_INPUTS);
                    expect_error(rep, p, strict, ast != 0);
                    // the same as an atom which is not a fact and next to well-formed atoms
                    if (p.rfind("&m", 0) != 0 && p.find(". ") == std::string::npos) {
                        expect_error(rep, "{b}. " + p.substr(0, p.size() - 1) + " :- b. &sum { x; y } <= 3. &dom { 1..2 } = y.", strict, ast != 0);
                    }
                }
            }});
        };
        // terms which are ill-formed wherever they occur
        std::vector<std::string> terms = {"1/0", "1/(1-1)", "x/0", "x/\"0.0\"", "1/x", "2/(x+1)", "1/(2*x)", "x*y", "x*x", "x*(y+1)", "(x+1)*(y+1)", "f(1/2)", "f(1/0)", "f(1/(2-2))", "f(x+1)", "f(2*g(1))", "f(1-\"a\")",
            "f(\"0.5\"+1)", "f(-(1,2))", "f(-\"a\")", "(1/2,1)", "f(2147483647+1)", "f(-2147483647-2)", "f(65536*65536)", "{x}", "[x]", "{}", "f({x})", "f([1])", "x/f(1)", "f(1)*f(1)", "x*\"0.5\"*y", "x*2*y", "f(g(1/2))", "((1/2),)", "f(x*y)",
            "f(1/2,3)", "f(3,1/2)", "-f(1/2)", "f(1,g(2,1/3))", "x/(1/2-\"0.5\")", "x*y/2", "x/2*y", "2*x*(3*y)", "-(x)*(-y)", "(1,2)*(1,2)", "x/(1,2)", "\"a\"*x", "1/\"a\""};
        std::vector<std::pair<std::string, std::string>> wraps = {{"", ""}, {"-(", ")"}, {"", "+1"}, {"1 + ", ""}, {"2*(", ")"}, {"(", ")/2"}, {"f(", ")"}, {"f(1,g(", "))"}, {"(", ",1)"}, {"z - (", ")"}, {"(", ")-z"}, {"2/3*(1+", ")"}};
        std::vector<std::pair<std::string, std::string>> places = {{"&sum { ", " } <= 1."}, {"&sum { x; ", " } >= 1."}, {"&sum { x } <= ", "."}, {"&sum { } = ", "."}, {"&diff { ", " - q } <= 1."}, {"&diff { q - ", " } <= 1."}, {"&diff { x - y } <= ", "."},
            {"&dom { ", "..2 } = x."}, {"&dom { 1.. ", " } = x."}, {"&dom { 1..2 } = ", "."}, {"&maximize { ", " }."}, {"&minimize { x; ", " }. &sum { x } <= 1."}, {"{c}. &sum { ", " : c } <= 1."}, {"{c}. &maximize { ", " : c }."}};
        for (auto const &p : places) {
            for (auto const &w : wraps) {
                for (auto const &t : terms) {
                    auto inner = w.first + t + w.second;
                    // operands of differences need parentheses
                    bool diff = p.first.rfind("&diff {", 0) == 0 && p.second.find('}') != std::string::npos;
                    add(p.first + (diff ? "(" + inner + ")" : inner) + p.second);
                }
            }
        }
        // shapes of atoms
        for (auto const *p : {"&sum { x }.", "&sum { x, y } <= 1.", "&sum { x, 1 : b } <= 1. {b}.", "&sum { : b } <= 1. {b}.", "&sum { x } < 1.", "&sum { x } > 1.", "&sum { x } != 1.", "&sum { x } 1.", "&sum { x } <= .", "&sum(1) { x } <= 1.",
                 "&sum { x..y } <= 1.", "&sum { x + } <= 1.", "&sum { x ** 2 } <= 1.", "&sum { x } <= 1..2.", "&sum { 1..2 } <= x.",
                 "&diff { x - y }.", "&diff { x } <= 1.", "&diff { x + y } <= 1.", "&diff { -x } <= 1.", "&diff { 2*x - y } <= 1.", "&diff { x - 2*y } <= 1.", "&diff { x - y; z - w } <= 1.", "&diff { } <= 1.", "&diff { x - y, 1 } <= 1.", "&diff { x - y : b } <= 1. {b}.", "&diff { 3 } <= 1.",
                 "&diff { x - y - z } <= 1.", "&diff { x*y } <= 1.", "&diff { x/2 } <= 1.", "&diff { f(1) } <= 1.", "&diff { \"a\" } <= 1.", "&diff { x - y } < 1.", "&diff { x - y } > 1.", "&diff { x - (y + z) } <= 1.", "&diff { x - x*y } <= 1.",
                 "&dom { 1..2 }.", "&dom { 1 } = x.", "&dom { x } = x.", "&dom { } = x.", "&dom { 1..2; 3..4 } = x.", "&dom { 1..2, 3 } = x.", "&dom { 1..2 : b } = x. {b}.", "&dom { 1..y } = x.", "&dom { y..1 } = x.", "&dom { 1..\"a\" } = x.", "&dom { a..b } = x.", "&dom { f(1)..2 } = x.",
                 "&dom { 1..2..3 } = x.", "&dom { 1..2 } <= x.", "&dom { 1..2 } = 3.", "&dom { 1..2 } = 1+1.", "&dom { 1..2 } = x+1.", "&dom { 1..2 } = 2*x.", "&dom { (1..2)+1 } = x.", "&dom { -(1..2) } = x.", "&dom { 1..2 } = x..y.", "&dom { (1,2) } = x.", "&dom { (1,2)..3 } = x.", "&dom { {1}..2 } = x.",
                 "&dom { 1..2 } < x.", "&dom { 1..2 } = -1.", "&dom { 1-2 } = x.",
                 "&maximize { 1 }.", "&minimize { 1 }.", "&maximize { x + 1 }. &sum { x } <= 1.", "&maximize { x; 2 }. &sum { x } <= 1.", "&maximize { \"0.5\" }.", "&maximize { -3 }.", "&maximize { x }. &minimize { 1/3 }. &sum { x } <= 1.", "&maximize { x, 1 }.", "&maximize { x } <= 1.", "&maximize { 2*(x-1) }. &sum { x } <= 1.",
                 "&maximize { (x+3)/3 }. &sum { x } <= 1.", "&minimize { x*y }.", "&maximize { x..y }.", "&minimize { x; x*x }.", "&minimize { 2-x }. &sum { x } >= 0.", "&maximize { : c }. {c}.", "&unknown { x } <= 1.", "&sum { x } <= 1 :- &sum { y } <= 1.", "{b}. :- &sum { x } <= 1, b.", "b :- &dom { 1..2 } = x.", "b :- &maximize { x }."}) {
            add(p);
        }
        for (auto const *p : {"&sum { x }.", "&sum { x, y } < 1.", "&sum { x*y } < 1.", "&diff { x + y } < 1.", "&diff { x } > 1.", "&sum { x } < 1/0.", "&sum { x } > y*z.", "&dom { 1..2 } < x.", "&sum { x } != 1.", "&diff { x - y } > y*y."}) { add(p, true); }
    }
    void add_decimals() {
        std::vector<std::pair<std::string, Q>> ds;
        auto value = [](std::string const &s) -> std::optional<Q> {
            size_t i = !s.empty() && s[0] == '-' ? 1 : 0;
            std::string a, b;
            size_t j = i;
            for (; j < s.size() && isdigit(static_cast<unsigned char>(s[j])) != 0; ++j) { a += s[j]; }
            if (a.empty()) { return {}; }
            if (j < s.size()) {
                if (s[j] != '.') { return {}; }
                for (++j; j < s.size() && isdigit(static_cast<unsigned char>(s[j])) != 0; ++j) { b += s[j]; }
                if (b.empty() || j != s.size()) { return {}; }
            }
            Q v(mpz_class(a + b, 10));
            mpz_class d;
            mpz_ui_pow_ui(d.get_mpz_t(), 10, b.size());
            v /= Q(d);
            return i == 1 ? Q(-v) : v;
        };
        size_t len = thorough ? 8 : 7;
        std::function<void(std::string const &)> rec = [&](std::string const &s) {
            if (auto v = value(s)) { ds.emplace_back(s, *v); }
            if (s.size() == len) { return; }
            for (char c : {'0', '1', '7', '.', '-'}) {
                if (c == '-' && !s.empty()) { continue; }
                if (c == '.' && s.find('.') != std::string::npos) { continue; }
                rec(s + c);
            }
        };
        rec("");
        for (auto const *s : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4611686018427387903", "4611686018427387904", "-4611686018427387904.5", "18446744073709551616.0000000000000000000000001", "0.1234567890123456789012345678901234567890",
                 "-0.0000000000000000000000000000000000000001", "2147483648", "-2147483649", "1000000000000000000000000000000", "1.10000000000000000000000000000000000000000", "00000000000000000000000000000000000000001.5", "-0", "-0.0", "-00.500"}) { ds.emplace_back(s, *value(s)); }
        for (size_t n : {100UL, 5000UL, 50000UL, thorough ? 1000000UL : 200000UL}) {
            std::string d;
            for (size_t i = 0; i < n; ++i) { d += static_cast<char>('0' + (i * 7 + 3) % 10); }
            ds.emplace_back(d, *value(d));
            ds.emplace_back("-" + d, *value("-" + d));
            if (n <= 50000) {
                ds.emplace_back("0." + d, *value("0." + d));
                ds.emplace_back("-" + d + "." + d, *value("-" + d + "." + d));
                ds.emplace_back("12." + std::string(n, '0'), 12);
                ds.emplace_back(std::string(n, '0') + "3.25", Q(13, 4));
            }
        }
        // separate jobs for long numbers
        std::vector<std::pair<std::string, Q>> batch;
        int k = 0;
        auto flush = [&] {
            if (batch.empty()) { return; }
            jobs_.push_back({"decimals from \"" + batch.front().first.substr(0, 60) + "\"", [batch, k](hn::Reporter &rep) {
                std::string text;
                std::map<std::string, std::string> want;
                for (size_t i = 0; i < batch.size(); ++i) {
                    auto id = std::to_string(i);
                    auto d = "\"" + batch[i].first + "\"";
                    rep.count(C_INPUTS);
                    text += "&sum { x(" + id + ") } = " + d + ". ";
                    want["x(" + id + ")"] = batch[i].second.get_str();
                    if (batch.size() > 1) {
                        text += "&sum { " + d + " + y(" + id + ") } = 0. &dom { " + d + " .. " + d + " } = z(" + id + "). &diff { v(" + id + ") - " + d + " } = 0. &sum { " + d + "*w(" + id + ") } = " + d + "*2. &sum { u(" + id + ") } = 6/" + (batch[i].second == 0 ? "1" : d) + ". ";
                        want["y(" + id + ")"] = Q(-batch[i].second).get_str();
                        want["z(" + id + ")"] = batch[i].second.get_str();
                        want["v(" + id + ")"] = batch[i].second.get_str();
                        if (batch[i].second != 0) { want["w(" + id + ")"] = "2"; }
                        want["u(" + id + ")"] = batch[i].second == 0 ? "6" : Q(6 / batch[i].second).get_str();
                    }
                }
                rep.begin("decimals from " + batch.front().first.substr(0, 60));
                auto m = one_model(rep, text, false, k % 2 == 1);
                compare(rep, {}, m, want);
            }});
            ++k;
            batch.clear();
        };
        for (auto const &d : ds) {
            if (d.first.size() > 60) { flush(); }
            batch.push_back(d);
            if (batch.size() == 30 || d.first.size() > 60) { flush(); }
        }
        flush();
        // strings that are no decimals are variables
        std::vector<std::string> other;
        std::function<void(std::string const &)> near = [&](std::string const &s) {
            if (!value(s)) { other.push_back(s); }
            if (s.size() == (thorough ? 5 : 4)) { return; }
            for (char c : {'0', '3', '.', '-', '+', ' ', 'e', '/', 'x'}) { near(s + c); }
        };
        near("");
        for (auto const *s : {"inf", "nan", "-inf", "1e10", "0x10", "1_000", "1,5", "#sup", "12.34.56", "1.2e-3", "--12", "1.-25", "-.125", "123456789012345678901234567890.", ".123456789012345678901234567890"}) { other.emplace_back(s); }
        for (size_t i = 0; i < other.size(); i += 40) {
            std::vector<std::string> b(other.begin() + static_cast<long>(i), other.begin() + static_cast<long>(std::min(other.size(), i + 40)));
            jobs_.push_back({"strings that are no decimals from \"" + b.front() + "\"", [b, i](hn::Reporter &rep) {
                std::string text;
                std::map<std::string, std::string> want;
                for (size_t j = 0; j < b.size(); ++j) {
                    text += "&sum { \"" + b[j] + "\" } = " + std::to_string(j + 5) + ". ";
                    want["\"" + b[j] + "\""] = std::to_string(j + 5);
                }
                rep.begin("strings from " + b.front());
                rep.count(C_INPUTS, b.size());
                auto m = one_model(rep, text, false, i / 40 % 2 == 1);
                compare(rep, {}, m, want);
            }});
        }
    }

    Parsing(hn::Args const &a) : thorough(a.get("tier") == "thorough") {
        auto f = a.get("family");
        fixed = {{"x", Q(1009, 13)}, {"y", Q(-7919, 17)}, {"f(2)", Q(104729, 101)}};
        P x = var("x"), y = var("y"), f2 = fun("f", {bin('+', num("1"), num("1"))}), d5 = dec("0.5", Q(1, 2)), d125 = dec("-1.25", Q(-5, 4));
        std::vector<P> all = {num("2"), num("0"), num("3"), d5, d125, x, y, f2}, some = {num("2"), num("0"), dec("1.5", Q(3, 2)), x}, few = {num("2"), x}, mid = {num("3"), d5, x, y, num("0")};
        if (f == "expr") {
            auto go = [this](hn::Reporter &rep, std::vector<P> const &ts, bool ast) { expressions(rep, ts, ast); };
            chunks("expressions", forest(0, all, 2), 30, go);
            chunks("expressions", forest(1, all, 3), 30, go);
            chunks("expressions", forest(2, thorough ? all : mid, 1), 30, go);
            chunks("expressions", forest(3, thorough ? mid : std::vector<P>{num("2"), d5, x}, 0), 30, go);
            if (thorough) { chunks("expressions", forest(2, some, 5), 30, go); chunks("expressions", forest(3, some, 1), 30, go); chunks("expressions", forest(4, few, 0), 30, go); }
        } else if (f == "objective") {
            auto go = [this](hn::Reporter &rep, std::vector<P> const &ts, bool ast) { objectives(rep, ts, ast); };
            chunks("objectives", forest(0, all, 2), 30, go);
            chunks("objectives", forest(1, all, 2), 30, go);
            chunks("objectives", forest(2, thorough ? mid : some, 1), 30, go);
        } else if (f == "names") {
            auto go = [this](hn::Reporter &rep, std::vector<P> const &ts, bool ast) { names(rep, ts, ast); };
            std::vector<P> leaves = {num("2"), num("0"), num("7"), var("a"), str("s"), fun("g", {num("1")}), num("2147483647"), d5, tup({num("1"), num("2")})}, ints = {num("2"), num("0"), num("7"), num("3")};
            // escape sequences, their prefixes, and the empty string
            std::vector<std::string> pieces = {"\\n", "\\\\", "\\\"", "n", " "};
            std::vector<std::string> texts = {""};
            for (size_t i = 0, b = 0; i < (thorough ? 3 : 2); ++i) { for (size_t e = texts.size(); b < e; ++b) { for (auto const &x : pieces) { texts.push_back(texts[b] + x); } } }
            std::vector<P> args;
            for (auto const &t : forest(0, leaves, 2)) { args.push_back(t); }
            for (auto const &t : forest(1, leaves, 1)) { args.push_back(t); }
            for (auto const &t : forest(2, thorough ? std::vector<P>{num("2"), num("0"), num("7"), num("3"), num("65536"), var("a")} : ints, thorough ? 2 : 1)) { args.push_back(t); }
            for (auto const &x : texts) { args.push_back(str(x)); args.push_back(neg(str(x))); args.push_back(tup({str(x), str(texts[1])})); }
            std::vector<P> ns;
            for (auto const &t : args) {
                ns.push_back(fun("f", {t}));
                ns.push_back(fun("h", {num("1"), t}));
                ns.push_back(tup({t}));
                ns.push_back(tup({t, num("1")}));
                ns.push_back(fun("f", {fun("g", {t}), t}));
                ns.push_back(fun("f", {neg(fun("g", {t}))}));
                ns.push_back(fun("f", {neg(neg(fun("g", {t})))}));
                if (thorough) { ns.push_back(tup({fun("f", {tup({t, var("b")})})})); ns.push_back(fun("f", {tup({}), neg(neg(fun("g", {t})))})); }
            }
            // signs in front of signs
            P sign = var("a"), call = fun("g", {neg(fun("g", {num("1")}))}), text = str("s");
            for (int i = 1; i <= 4; ++i) {
                for (P *t : {&sign, &call, &text}) {
                    *t = neg(*t);
                    for (auto const &n : {fun("f", {*t}), fun("h", {*t, neg(*t)}), tup({*t, num("1")}), fun("f", {fun("g", {*t}), var("a")})}) { ns.push_back(n); }
                }
            }
            for (auto const &n : {P(tup({})), P(var("a")), P(fun("f", {tup({})})), P(fun("f", {var("a"), var("b")}))}) { ns.push_back(n); }
            chunks("names", ns, 40, go);
        } else if (f == "shortcuts") { add_shortcuts(); }
        else if (f == "illformed") { add_illformed(); }
        else if (f == "decimals") { add_decimals(); }
        else { throw std::runtime_error("unknown family"); }
    }
    uint64_t jobs() override { return jobs_.size(); }
    std::vector<std::string> counters() override { return {"inputs", "solve_calls", "values_compared", "errors_expected", "inputs_not_judged", "programs"}; }
    std::string describe(uint64_t j) override { return jobs_[j].what; }
    void run(uint64_t j, hn::Reporter &rep, std::string const &) override {
        try { jobs_[j].run(rep); }
        catch (Bad const &e) { rep.violation(e.kind, e.what(), "all"); }
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    Parsing e(a);
    return hn::main_loop(e, a);
}
