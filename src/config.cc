// Enumerates settings and sequences of settings of the theory's options, through the key/value interface and through
// the command line, and compares acceptance, error messages and the observed behaviour with a model of the options.
#include "drive.hh"
#include "families.hh"
#include "harness.hh"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <optional>
#include <unistd.h>

using namespace fam;

namespace {

enum Counter { C_SEQ, C_SETTINGS, C_REFUSALS, C_CLI, C_PROBES, C_EVENTS, C_VALIDATE };

//! The abstract state of the options.
struct Settings {
    bool strict = false, conflicts = false, global = false;
    int bounds = 0, select = 0, store = 0;
    QE step;
    bool valid() const { return strict || !global || step.k == 0; }
    std::string str() const {
        static char const *b[] = {"none", "changed", "full"};
        static char const *se[] = {"none", "match", "conflict"};
        static char const *st[] = {"no", "partial", "total"};
        return std::string("strict=") + (strict ? "yes" : "no") + " propagate-conflicts=" + (conflicts ? "yes" : "no") + " propagate-bounds=" + b[bounds] + " select=" + se[select] + " store=" + st[store] +
               " objective=" + (global ? "global," + step.str() : "local");
    }
};

std::string lower(std::string s) {
    for (auto &c : s) { if (c >= 'A' && c <= 'Z') { c = static_cast<char>(c - 'A' + 'a'); } }
    return s;
}

//! Predicted effect of one setting; returns false if it has to be refused.
bool apply(Settings &s, std::string const &key, std::string const &value) {
    auto v = lower(value);
    auto index = [&](std::vector<char const *> names, int &res) {
        for (size_t i = 0; i < names.size(); ++i) { if (v == names[i]) { res = static_cast<int>(i); return true; } }
        return false;
    };
    auto boolean = [&](bool &res) {
        if (v == "yes" || v == "on" || v == "1") { res = true; return true; }
        if (v == "no" || v == "off" || v == "0") { res = false; return true; }
        return false;
    };
    if (key == "strict") { return boolean(s.strict); }
    if (key == "propagate-conflicts") { return boolean(s.conflicts); }
    if (key == "propagate-bounds") { return index({"none", "changed", "full"}, s.bounds); }
    if (key == "select") { return index({"none", "match", "conflict"}, s.select); }
    if (key == "store") { return index({"no", "partial", "total"}, s.store); }
    if (key == "objective") {
        if (v == "local") { s.global = false; s.step = {}; return true; }
        if (v == "global") { s.global = true; s.step = {}; return true; }
        if (v.rfind("global,", 0) != 0) { return false; }
        v = v.substr(7);
        if (v == "e") { s.global = true; s.step = {0, 1}; return true; }
        size_t i = 0;
        auto digits = [&]() { size_t b = i; while (i < v.size() && v[i] >= '0' && v[i] <= '9') { ++i; } return i > b; };
        if (!digits()) { return false; }
        if (i < v.size()) {
            if (v[i++] != '/' || !digits() || i != v.size()) { return false; }
        }
        Q q;
        try { q = Q(v, 10); } catch (std::invalid_argument const &) { return false; }
        if (q.get_den() == 0) { return false; }
        q.canonicalize();
        s.global = true;
        s.step = {q, 0};
        return true;
    }
    return false;
}

QE read_value(clingo_symbol_t sym) {
    char const *s = nullptr;
    if (!clingo_symbol_string(sym, &s)) { throw Violation{"effect", "value is not a string symbol"}; }
    auto q = parse_qe(s);
    if (!q) { throw Violation{"effect", std::string("bad value ") + s}; }
    return *q;
}

//! A program driven step by step in the closed environment.
struct Probe : Monitor {
    Mock m;
    TheoryBuilder tb;
    clingolpx_theory_t *theory;
    hn::Reporter &rep;
    int n_init = 0;
    bool ok;
    std::vector<std::vector<int>> clauses;
    Probe(clingolpx_theory_t *t, int nlits, std::vector<Atom> const &atoms, hn::Reporter &r) : theory{t}, rep{r} {
        rep.count(C_PROBES);
        m.setup(1, 1);
        m.mon = this;
        if (!clingolpx_register(theory, reinterpret_cast<clingo_control_t *>(&m)) || !m.registered) { throw Violation{"effect", "register failed"}; }
        for (auto const &a : atoms) { tb.atom(a); }
        m.theory = &tb.d;
        m.lit_map = [](int l) { return TheoryBuilder::solver(l); };
        m.nvars = nlits + 1;
        for (auto &x : m.threads) { x.val.resize(nlits + 2, 0); x.lev.resize(nlits + 2, 0); x.root_level = 0; }
        ok = m.init_step();
        ok = ok && th().fixpoint();
        check();
    }
    MThread &th() { return m.threads[0]; }
    void check() {
        if (!m.protocol.empty()) { throw Violation{"effect", "protocol: " + m.protocol.front()}; }
        if (!m.cb_error.empty()) { throw Violation{"effect", "callback failed: " + m.cb_error}; }
    }
    void on_clause(MThread *, std::vector<int> const &c) override { clauses.push_back(c); }
    static int lit(int b) { return b > 0 ? b + 1 : b - 1; }
    int value(int b) { return th().value(lit(b)); }
    bool decide(int b) {
        rep.count(C_EVENTS);
        if (th().value(lit(b)) < 0) { return false; }
        if (th().value(lit(b)) > 0) { return true; }
        uint32_t dl = th().dl();
        th().new_level(lit(b));
        bool r = th().fixpoint();
        check();
        return r && th().dl() == dl + 1 && th().value(lit(b)) > 0;
    }
    void undo(uint32_t l) { rep.count(C_EVENTS); th().undo_to(l); check(); }
    QE var(int v) {
        auto s = clingo_symbol_t{};
        clingo_symbol_create_id(var_name(v).c_str(), true, &s);
        size_t i = 0;
        clingolpx_value_t val;
        if (!clingolpx_lookup_symbol(theory, s, &i)) { throw Violation{"effect", "variable not found"}; }
        clingolpx_assignment_get_value(theory, 0, i, &val);
        return read_value(val.symbol);
    }
    //! Complete the current total assignment; true if it is reported as a model.
    bool model() {
        auto &t = th();
        for (int round = 0; round < 100; ++round) {
            uint32_t dl = t.dl();
            if (!t.fixpoint() || t.dl() != dl) { check(); return false; }
            check();
            if (!t.total()) { throw Violation{"effect", "not total"}; }
            size_t n = t.trail.size();
            t.in_model_check = true;
            t.callback_check();
            t.in_model_check = false;
            check();
            if (!t.resolve_todo() || t.dl() != dl || !t.total()) { return false; }
            if (t.prop != t.wtrail.size() || t.trail.size() != n) { continue; }
            MModel mm{&m, 0, {}};
            rep.count(C_EVENTS);
            if (!clingolpx_on_model(theory, reinterpret_cast<clingo_model_t *>(&mm))) { throw Violation{"effect", "on_model failed"}; }
            return true;
        }
        throw Violation{"effect", "model check does not stabilise"};
    }
    //! Try to find a model in which just the given boolean is true; false if what was learnt excludes it.
    bool reach(int n, int b) {
        for (int round = 0; round < 50; ++round) {
            undo(0);
            if (!th().fixpoint()) { return false; }
            check();
            int i = 0;
            for (; i <= n; ++i) {
                int l = i == 0 ? b : i == b ? b : -i;
                if (value(l) < 0) { return false; }
                if (!decide(l)) { break; }
            }
            if (i > n && model()) { return true; }
        }
        throw Violation{"effect", "search does not end"};
    }
};

Atom at(Terms t, Rel r, Q v, int lit) { return sum(std::move(t), r, std::move(v), lit); }

//! Whether the theory definition admits strict relations.
bool admits_strict(std::string const &def) {
    static std::map<std::string, bool> cache;
    auto it = cache.find(def);
    if (it != cache.end()) { return it->second; }
    using Add = bool(clingo_control_t *, char const *, char const *const *, size_t, char const *);
    static auto *add = reinterpret_cast<Add *>(dlsym(RTLD_NEXT, "clingo_control_add"));
    if (add == nullptr) { throw std::runtime_error("no clingo_control_add"); }
    auto accepts = [&](char const *text) {
        clingo_control_t *c = nullptr;
        auto quiet = [](clingo_warning_t, char const *, void *) {};
        if (!clingo_control_new(nullptr, 0, quiet, nullptr, 20, &c)) { throw std::runtime_error("no control"); }
        clingo_part_t part{"base", nullptr, 0};
        bool r = add(c, "base", nullptr, 0, def.c_str()) && add(c, "base", nullptr, 0, text) && clingo_control_ground(c, &part, 1, nullptr, nullptr);
        clingo_control_free(c);
        return r;
    };
    if (!accepts("&sum { x } <= 2. &sum { x } >= 1. &sum { y } = 1.")) { throw Violation{"effect", "the theory does not accept <=, >= and ="}; }
    bool lt = accepts("&sum { x } < 2."), gt = accepts("&sum { x } > 1.");
    if (lt != gt) { throw Violation{"effect", "only one of < and > is accepted"}; }
    return cache[def] = lt;
}

//! Compare the behaviour of a theory with what its settings document.
void effects(clingolpx_theory_t *t, Settings const &s, hn::Reporter &rep) {
    auto wrong = [](std::string w) { throw Violation{"effect", std::move(w)}; };
    auto n = [](int x) { return std::to_string(x); };
    {   // binary clauses for conflicting bounds of one variable
        Probe p(t, 2, {at({{1, X}}, LE, 1, 1), at({{1, X}}, GE, 2, 2)}, rep);
        bool strict = admits_strict(p.m.added_theory);
        if (strict != s.strict) { wrong(std::string("strict relations are ") + (strict ? "accepted" : "refused")); }
        if (p.m.shared_db.empty() == s.conflicts) { wrong(s.conflicts ? "no clause for conflicting bounds" : "clauses are added although conflicts are not propagated"); }
        p.decide(1);
        if (p.value(2) != (s.conflicts ? -1 : 0)) { wrong("conflicting bound has value " + n(p.value(2))); }
    }
    if (s.strict) {
        Probe p(t, 1, {at({{1, X}}, GT, 1, 1)}, rep);
        if (!p.decide(1) || p.var(X) <= QE(1, 0) || p.var(X) >= QE(Q(1000001, 1000000), 0)) { wrong("x > 1 gives x = " + p.var(X).str()); }
    }
    for (int zero = 0; zero < 2; ++zero) {
        // propagation over rows: with changed values, and with bounds that change no value
        int k = zero != 0 ? 0 : 2;
        Probe p(t, 3, {at({{1, X}}, GE, k, 1), at({{1, Y}}, GE, k, 2), at({{1, X}, {1, Y}}, LE, 2 * k - 1, 3)}, rep);
        if (!p.decide(1) || !p.decide(2)) { wrong("independent bounds conflict"); }
        int expect = (zero != 0 ? s.bounds == 2 : s.bounds > 0) ? -1 : 0;
        if (p.value(3) != expect) { wrong("bound implied by " + std::string(zero != 0 ? "an unchanged" : "a changed") + " row has value " + n(p.value(3))); }
        MStats step, accu;
        clingolpx_on_statistics(t, step.c(), accu.c());
        double b = step.get({"Simplex", "Bounds propagated"});
        if (b >= 0 && (b > 0) != (expect != 0)) { wrong("statistics report " + std::to_string(b) + " propagated bounds"); }
    }
    {   // sign heuristic: x is 0
        Probe p(t, 2, {at({{1, X}}, GE, 2, 1), at({{1, X}}, LE, 1, 2)}, rep);
        for (int b : {1, -1, 2, -2}) {
            clingo_literal_t r = Probe::lit(b);
            if (p.m.prp.decide != nullptr && !p.m.prp.decide(0, reinterpret_cast<clingo_assignment_t const *>(&p.th()), Probe::lit(b), p.m.prp_data, &r)) { wrong("decide failed"); }
            int match = Probe::lit(std::abs(b) == 1 ? -1 : 2);
            int expect = s.select == 0 ? Probe::lit(b) : s.select == 1 ? match : -match;
            if (r != expect) { wrong("the sign heuristic picks " + n(r) + " instead of " + n(expect)); }
        }
    }
    {   // assignments kept over backjumps
        Probe p(t, 2, {at({{1, X}}, GE, 2, 1), at({{1, Y}}, GE, 3, 2)}, rep);
        auto expect = [&](char const *when, int x, int y) {
            if (p.var(X) != QE(x, 0) || p.var(Y) != QE(y, 0)) { wrong(std::string(when) + " x=" + p.var(X).str() + " y=" + p.var(Y).str() + " instead of x=" + n(x) + " y=" + n(y)); }
        };
        p.decide(1);
        expect("after propagation", 2, 0);
        p.undo(0);
        expect("after backjumping from a partial assignment", s.store == 1 ? 2 : 0, 0);
        if (!p.decide(1) || !p.decide(2) || !p.model()) { wrong("no model for compatible bounds"); }
        expect("in a model", 2, 3);
        p.undo(1);
        expect("after backjumping from a model", 2, s.store > 0 ? 3 : 0);
        p.undo(0);
        expect("after backjumping from a model to the top", s.store > 0 ? 2 : 0, s.store > 0 ? 3 : 0);
    }
    {   // objective: boolean i limits the value of x to w[i]
        std::vector<QE> w = {{0}, {-1}, {0}};
        if (s.global && s.step.k != 0) { w.insert(w.end(), {{Q(1, 1000)}, {Q(1, 1000)}, {Q(2, 1000)}}); }
        else if (s.global && s.step.c > 0) {
            Q q = s.step.c;
            w.insert(w.end(), {{q / 2}, {q * Q(99, 100)}, {q}, {q}, {q + q * Q(99, 100)}, {2 * q + 1}, {2 * q + 1}, {0}});
        } else { w.insert(w.end(), {{1}, {Q(3, 2)}, {Q(3, 2)}, {1}, {Q(1001, 1000)}, {100}}); }
        int k = static_cast<int>(w.size());
        std::vector<Atom> as;
        for (int i = 0; i < k; ++i) { as.push_back(at({{1, X}}, LE, w[i].c, i + 1)); }
        as.push_back(at({{1, X}}, LE, Q("10000000000000000000000000000000000000000"), 0));
        as.push_back(obj(Atom::MAX, {{1, X}}));
        Probe p(t, k, as, rep);
        std::optional<QE> best;
        for (int i = 0; i < k; ++i) {
            bool expect = !s.global || !best || w[i] >= *best + s.step;
            bool got = p.reach(k, i + 1);
            if (got) {
                if (p.var(X) != w[i]) { wrong("the objective has value " + p.var(X).str() + " instead of " + w[i].str()); }
            }
            if (got != expect) {
                wrong("a solution with objective value " + w[i].str() + (got ? " is accepted" : " is cut off") + (best ? " after one with " + best->str() : ""));
            }
            if (got) { best = w[i]; }
            p.undo(0);
        }
    }
}

using Setting = std::pair<std::string, std::string>;

struct Seq {
    bool cli = false;
    int base = 0;
    std::vector<Setting> settings;
    std::string str() const {
        std::string r = cli ? "command line" : base != 0 ? "key/value interface after setting everything" : "key/value interface";
        for (auto const &[k, v] : settings) { r += cli ? " --" + k + (v.empty() ? "" : "=" + v) : " [" + k + "]=[" + v + "]"; }
        return r;
    }
};

//! Strings close to the given one.
std::vector<std::string> near(std::string const &v, bool thorough) {
    std::set<std::string> r;
    std::string ins = thorough ? "abcdeghlmnoprsty019,/ -_=" : "aeno01,s-";
    for (size_t i = 0; i <= v.size(); ++i) {
        for (char c : ins) { r.insert(v.substr(0, i) + c + v.substr(i)); }
        if (i < v.size()) {
            r.insert(v.substr(0, i) + v.substr(i + 1));
            r.insert(v.substr(0, i));
            r.insert(v.substr(i));
            for (char c : {'a', 'o', '0', '9'}) { auto x = v; x[i] = c; r.insert(x); }
            auto x = v;
            ++x[i];
            r.insert(x);
            x[i] = static_cast<char>(v[i] ^ 32);
            r.insert(x);
            x[i] = static_cast<char>(v[i] | 128);
            r.insert(x);
        }
        if (i + 1 < v.size()) { auto x = v; std::swap(x[i], x[i + 1]); r.insert(x); }
    }
    r.insert(v + v);
    r.insert(" " + v);
    r.insert(v + " ");
    r.insert(v + "\n");
    return {r.begin(), r.end()};
}

//! All variants of letter case.
std::vector<std::string> cases_of(std::string const &v) {
    std::vector<std::string> r{""};
    for (char c : v) {
        std::vector<std::string> n;
        for (auto const &p : r) {
            n.push_back(p + c);
            if (c >= 'a' && c <= 'z') { n.push_back(p + static_cast<char>(c - 32)); }
        }
        r.swap(n);
    }
    return r;
}

//! What is not documented precisely enough to be judged.
bool unclear(std::string const &key, std::string const &value, bool cli) {
    if (key == "objective") {
        auto v = lower(value);
        if (v.rfind("global,", 0) == 0 && v.find_first_of(" \t\n+-._") != std::string::npos) { return true; }
    }
    if (cli) {
        if (value.empty() || value[0] == '=' || value.find('\n') != std::string::npos) { return true; }
        if (key == "strict" || key == "propagate-conflicts") { return true; }
    }
    return false;
}

std::vector<std::pair<std::string, std::vector<std::string>>> documented() {
    return {
        {"strict", {"yes", "no", "on", "off", "1", "0"}},
        {"propagate-conflicts", {"yes", "no", "on", "off", "1", "0"}},
        {"propagate-bounds", {"none", "changed", "full"}},
        {"select", {"none", "match", "conflict"}},
        {"store", {"no", "partial", "total"}},
        {"objective", {"local", "global", "global,e", "global,0", "global,1", "global,1/2", "global,10/4"}},
    };
}

std::vector<Seq> make_seqs(std::string const &family, bool thorough) {
    std::vector<Seq> out;
    auto add = [&](Seq s) {
        for (auto const &[k, v] : s.settings) { if (unclear(k, v, s.cli) && !(s.cli && v.empty())) { return; } }
        out.push_back(std::move(s));
    };
    auto docs = documented();
    if (family == "values" || family == "cli-values") {
        bool cli = family == "cli-values";
        std::set<std::string> all;
        for (auto const &[k, vs] : docs) { for (auto const &v : vs) { all.insert(v); } }
        for (auto const &v : {"", "true", "false", "2", "-1", "00", "01", "y", "n", "default", "all", "\xc3\xb6"}) { all.insert(v); }
        std::vector<std::string> steps = {"2", "12345678901234567890", "1/12345678901234567890", "123456789012345678901234567890/7", "007", "6/9", "0/5", "1/0", "0/0", "1/", "/1", "/", "1//2", "1/2/3", "", "x", "1e", "e1", "ee",
                                          "1e2", "2e", "0x10", "1,2", "1;", "a/b", "1/b", "1,", ",", "e/2", "inf", "nan", "1/00", "2/01", "epsilon"};
        for (auto const &[k, vs] : docs) {
            std::set<std::string> vals = all;
            for (auto const &v : vs) {
                for (auto const &x : near(v, thorough)) { vals.insert(x); }
                for (auto const &x : cases_of(v)) { vals.insert(x); }
            }
            if (k == "objective") { for (auto const &x : steps) { vals.insert("global," + x); vals.insert("GLOBAL," + x); vals.insert("local," + x); }
                for (char sep = 1; sep < 127; ++sep) { if (sep != ',') { for (auto const *x : {"", "1", "e"}) { vals.insert(std::string("global") + sep + x); } } }
                for (auto const *x : {",,1", ", 1", " ,1", ",1 ", ",1,", ",+1", ",1/2 ", ",e,", ",1,e", ",local"}) { vals.insert(std::string("global") + x); }
            }
            for (auto const &v : vals) {
                for (int b = 0; b < (cli ? 1 : 2); ++b) {
                    if (cli && k == "objective" && lower(v) == "global,e") {
                        add({cli, b, {{"strict", ""}, {k, v}}});
                        add({cli, b, {{k, v}, {"strict", ""}}});
                    }
                    add({cli, b, {{k, v}}});
                }
            }
        }
        if (cli) {
            for (auto const *k : {"strict", "propagate-conflicts"}) { for (auto const *p : {"", "no-"}) { out.push_back({true, 0, {{std::string(p) + k, ""}}}); } }
            for (auto const *k : {"strictt", "no-select", "propagate", "propagate-bound-s", "objectives", "stores", "no-no-strict"}) { out.push_back({true, 0, {{k, "none"}}}); }
        } else {
            std::set<std::string> keys;
            for (auto const &[k, vs] : docs) { for (auto const &x : near(k, thorough)) { keys.insert(x); } auto c = cases_of(k.substr(0, 6)); for (auto const &x : c) { keys.insert(x + k.substr(std::min<size_t>(6, k.size()))); } }
            for (auto const &[k, vs] : docs) { keys.erase(k); keys.insert("--" + k); keys.insert("no-" + k); keys.insert(k + "=yes"); }
            for (auto const *x : {"", "propagate_bounds", "propagate", "bounds", "conflicts", "models", "enable-python", "help", "no"}) { keys.insert(x); }
            for (auto const &k : keys) { for (auto const *v : {"yes", "none", "local"}) { for (int b = 0; b < 2; ++b) { add({false, b, {{k, v}}}); } } }
        }
    } else if (family == "sequences") {
        std::vector<Setting> alpha;
        for (auto const &[k, vs] : docs) {
            for (auto const &v : vs) { if (v != "on" && v != "off" && v != "1" && v != "0" && v != "global,10/4") { alpha.push_back({k, v}); } }
            alpha.push_back({k, "nope"});
        }
        for (auto const *s : {"global,", "global,1/0", "global,x", "local,1"}) { alpha.push_back({"objective", s}); }
        int len = thorough ? 4 : 3;
        std::vector<Setting> cur;
        std::function<void()> rec = [&]() {
            if (!cur.empty()) {
                // longer sequences start from the default only
                if (cur.size() <= 2) { out.push_back({false, 1, cur}); }
                out.push_back({false, 0, cur});
            }
            if (static_cast<int>(cur.size()) == len) { return; }
            for (auto const &a : alpha) { cur.push_back(a); rec(); cur.pop_back(); }
        };
        rec();
        // even longer ones over two valid values and an invalid one per key
        alpha = {{"strict", "yes"}, {"strict", "0"}, {"propagate-conflicts", "on"}, {"propagate-conflicts", "no"}, {"propagate-bounds", "full"}, {"propagate-bounds", "changed"}, {"select", "match"}, {"select", "none"},
                 {"store", "partial"}, {"store", "total"}, {"objective", "global,1/2"}, {"objective", "local"}, {"objective", "global,1/0"}, {"select", "no"}};
        int first = len + 1;
        len = first;
        std::function<void()> more = [&]() {
            if (static_cast<int>(cur.size()) == len) { out.push_back({false, 0, cur}); return; }
            for (auto const &a : alpha) { cur.push_back(a); more(); cur.pop_back(); }
        };
        more();
    } else if (family == "cli") {
        // at most one occurrence per option, in every order
        std::vector<std::vector<Setting>> alpha = {
            {{"strict", ""}, {"no-strict", ""}},
            {{"propagate-conflicts", ""}, {"no-propagate-conflicts", ""}},
            {{"propagate-bounds", "none"}, {"propagate-bounds", "changed"}, {"propagate-bounds", "FULL"}, {"propagate-bounds", "yes"}},
            {{"select", "none"}, {"select", "Match"}, {"select", "conflict"}, {"select", "partial"}},
            {{"store", "no"}, {"store", "partial"}, {"store", "toTal"}, {"store", "none"}},
            {{"objective", "local"}, {"objective", "Global"}, {"objective", "global,3/2"}, {"objective", "global,E"}, {"objective", "global,"}, {"objective", "global,1/0"}},
        };
        size_t len = thorough ? 4 : 3;
        std::vector<Setting> cur;
        std::set<size_t> used;
        std::function<void()> rec = [&]() {
            out.push_back({true, 0, cur});
            if (cur.size() == len) { return; }
            for (size_t i = 0; i < alpha.size(); ++i) {
                if (!used.insert(i).second) { continue; }
                for (auto const &a : alpha[i]) { cur.push_back(a); rec(); cur.pop_back(); }
                used.erase(i);
            }
        };
        rec();
    } else { throw std::runtime_error("unknown family " + family); }
    return out;
}

//! Runs a function with standard output and error captured.
template <class F> std::string captured(F f) {
    std::fflush(stdout);
    std::fflush(stderr);
    static int fd = memfd_create("out", 0);
    if (ftruncate(fd, 0) != 0) { throw std::runtime_error("ftruncate"); }
    lseek(fd, 0, SEEK_SET);
    int o1 = dup(1), o2 = dup(2);
    dup2(fd, 1);
    dup2(fd, 2);
    f();
    std::fflush(stdout);
    std::fflush(stderr);
    dup2(o1, 1);
    dup2(o2, 2);
    close(o1);
    close(o2);
    std::string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = ::read(fd, buf, sizeof(buf))) > 0;) { r.append(buf, n); }
    return r;
}

struct App {
    clingolpx_theory_t *t;
    Settings const &expect;
    hn::Reporter &rep;
    bool called = false;
    std::optional<Violation> v;
    static bool options(clingo_options_t *o, void *d) { return clingolpx_register_options(static_cast<App *>(d)->t, o); }
    static bool validate(void *d) { return clingolpx_validate_options(static_cast<App *>(d)->t); }
    static bool main(clingo_control_t *, char const *const *, size_t, void *d) {
        auto *a = static_cast<App *>(d);
        a->called = true;
        return true;
    }
};

struct ConfigEngine : hn::Engine {
    std::vector<Seq> seqs;
    ConfigEngine(hn::Args const &a) { seqs = make_seqs(a.get("family"), a.get("tier", "quick") == "thorough"); }
    uint64_t jobs() override { return seqs.size(); }
    std::vector<std::string> counters() override { return {"sequences", "settings", "refusals", "command_lines", "probes", "events", "validations"}; }
    std::string describe(uint64_t j) override { return seqs[j].str(); }
    void run(uint64_t j, hn::Reporter &rep, std::string const &) override {
        rep.begin("-");
        rep.count(C_SEQ);
        try { seqs[j].cli ? command_line(seqs[j], rep) : key_value(seqs[j], rep); }
        catch (Violation const &v) { if (rep.counts(v.kind)) { rep.violation(v.kind, v.msg, "-"); } }
    }
    static std::string error() { auto const *s = clingo_error_message(); return s != nullptr ? s : ""; }

    void key_value(Seq const &q, hn::Reporter &rep) {
        // another theory is not affected
        std::unique_ptr<TheoryHandle> other;
        if (q.base != 0) { other = std::make_unique<TheoryHandle>(); }
        TheoryHandle t;
        Settings s;
        std::vector<Setting> base;
        if (q.base != 0) { base = {{"strict", "yes"}, {"propagate-conflicts", "yes"}, {"propagate-bounds", "full"}, {"select", "conflict"}, {"store", "total"}, {"objective", "global,1/2"}}; }
        size_t nb = base.size();
        base.insert(base.end(), q.settings.begin(), q.settings.end());
        for (size_t i = 0; i < base.size(); ++i) {
            auto const &[k, v] = base[i];
            rep.count(C_SETTINGS);
            Settings n = s;
            bool expect = apply(n, k, v);
            if (i < nb && !expect) { throw std::logic_error("base"); }
            clingo_set_error(clingo_error_logic, "nothing was reported");
            bool got = clingolpx_configure(t.t, k.c_str(), v.c_str());
            if (got != expect) { throw Violation{got ? "accepted" : "refused", "setting [" + k + "]=[" + v + "] is " + (got ? "accepted" : "refused: " + error())}; }
            if (got) { s = n; continue; }
            rep.count(C_REFUSALS);
            // the name is given in quotes; it must be the whole name
            if (error().find("'" + k + "'") == std::string::npos && !names(error(), k)) { throw Violation{"message", "refusing [" + k + "]=[" + v + "] reports: " + error()}; }
        }
        rep.count(C_VALIDATE);
        bool valid = clingolpx_validate_options(t.t);
        if (valid != s.valid()) { throw Violation{valid ? "accepted" : "refused", std::string("validation ") + (valid ? "accepts " : "refuses ") + s.str() + (valid ? "" : ": " + error())}; }
        if (!valid) { return; }
        try { effects(t.t, s, rep); }
        catch (Violation &v) { v.msg += " with " + s.str(); throw; }
        try { if (other) { effects(other->t, Settings{}, rep); } }
        catch (Violation &v) { v.msg += " in another theory with default settings"; throw; }
    }
    //! Whether a message contains a name as a word of its own.
    static bool names(std::string const &msg, std::string const &k) {
        auto word = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) != 0 || c == '-' || c == '_'; };
        for (size_t p = msg.find(k); p != std::string::npos && !k.empty(); p = msg.find(k, p + 1)) {
            if ((p == 0 || !word(msg[p - 1])) && (p + k.size() == msg.size() || !word(msg[p + k.size()]))) { return true; }
        }
        return false;
    }

    void command_line(Seq const &q, hn::Reporter &rep) {
        rep.count(C_CLI);
        Settings s;
        bool expect = true;
        std::string bad;
        std::vector<std::string> args;
        for (auto const &[k, v] : q.settings) {
            rep.count(C_SETTINGS);
            args.push_back("--" + k + (v.empty() ? "" : "=" + v));
            if (!expect) { continue; }
            if (k == "strict") { expect = v.empty(); s.strict = true; }
            else if (k == "no-strict") { s.strict = false; }
            else if (k == "propagate-conflicts") { expect = v.empty(); s.conflicts = true; }
            else if (k == "no-propagate-conflicts") { s.conflicts = false; }
            else { expect = apply(s, k, v); }
            if (!expect) { bad = k; }
        }
        if (expect && !s.valid()) { expect = false; bad = "objective"; }
        TheoryHandle t;
        App a{t.t, s, rep, false, {}};
        clingo_application_t app{};
        app.register_options = App::options;
        app.validate_options = App::validate;
        app.main = App::main;
        args.insert(args.begin(), "--outf=3");
        std::vector<char const *> argv;
        for (auto const &x : args) { argv.push_back(x.c_str()); }
        int code = 0;
        auto out = captured([&]() { code = clingo_main(&app, argv.data(), argv.size(), &a); });
        for (auto &c : out) { if (c == '\n') { c = ' '; } }
        if (a.called != expect) { throw Violation{a.called ? "accepted" : "refused", std::string("the command line is ") + (a.called ? "accepted" : "refused") + ": " + out}; }
        if (!a.called) {
            rep.count(C_REFUSALS);
            if (!names(out, bad)) { throw Violation{"message", "refusing option " + bad + " reports: " + out}; }
            return;
        }
        try { effects(t.t, s, rep); }
        catch (Violation &v) { v.msg += " with " + s.str(); throw; }
    }
};
} // namespace
int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    ConfigEngine e(a);
    return hn::main_loop(e, a);
}
