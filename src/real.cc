// Runs the library inside of the real ASP solver: enumerates programs, options, search parameters and sequences of
// multi-shot operations and compares the reported models with the exact oracle. All callbacks are recorded and
// compared with the contract the closed environment of the explorer implements.
#include "drive.hh"
#include "large.hh"
#include "harness.hh"
#include <clingo.hh>
#include <dlfcn.h>
#include <iostream>
#include <mutex>

namespace {

enum Counter { C_RUNS, C_SOLVES, C_MODELS, C_CALLBACKS, C_CLAUSES, C_TRACES, C_MISMATCH, C_LPS, C_ASSIGN, C_OPS, C_STATS, C_FIXPOINTS, C_ENTAILED };

// ---------------------------------------------------------------------------------------------------------------
// Recorder: checks the recorded callbacks of clasp against the contract of the mock.

template <class F> F *real_fn(char const *name) {
    auto *p = dlsym(RTLD_NEXT, name);
    if (p == nullptr) { throw std::logic_error(std::string("no symbol ") + name); }
    return reinterpret_cast<F *>(p);
}

struct Recorder {
    struct Thread {
        std::set<int> watches;
        std::set<int> aux;           // watches of literals added during search
        std::vector<int> delivered;
        std::vector<size_t> marks;   // trail of delivered literals per level with callbacks
        std::vector<uint32_t> levels;
        bool refused = false;
    };
    clingo_propagator_t orig{};
    void *data = nullptr;
    std::vector<Thread> threads;
    bool both = false;
    bool in_init = false;
    uint64_t events = 0, clauses = 0, mismatches = 0, aux_facts = 0;
    std::string first;
    std::mutex mtx;
    bool parallel = false;
    bool models = false; // a model was found in the current call
    bool root = false;   // the root level might be above zero
    //! Literals of the solver that stand for boolean variables (with sign), refreshed when solving starts.
    std::map<int, std::vector<int>> names;
    //! Checks of fixpoints (true literals) and clauses (its literals) against the reference.
    std::function<void(std::vector<int> const &)> on_fixpoint, on_clause;
    std::string bad_kind, bad;
    int nlits = 0;
    void guarded(std::function<void(std::vector<int> const &)> const &f, std::vector<int> const &l) {
        if (!f || !bad.empty() || parallel) { return; }
        try { f(l); }
        catch (Violation const &v) { bad_kind = v.kind; bad = v.msg; }
    }
    void mismatch(std::string s) { ++mismatches; if (first.empty()) { first = std::move(s); } }
};
Recorder *rec = nullptr;
thread_local Recorder::Thread *rthread = nullptr;

struct AssView {
    clingo_assignment_t const *a;
    bool is_true(int l) const { bool r = false; clingo_assignment_is_true(a, l, &r); return r; }
    bool is_false(int l) const { bool r = false; clingo_assignment_is_false(a, l, &r); return r; }
    uint32_t level(int l) const { uint32_t r = 0; clingo_assignment_level(a, l, &r); return r; }
    uint32_t dl() const { return clingo_assignment_decision_level(a); }
};

bool w_init(clingo_propagate_init_t *i, void *) {
    size_t n = static_cast<size_t>(clingo_propagate_init_number_of_threads(i));
    rec->threads.resize(n);
    for (auto &t : rec->threads) {
        // literals true on level 0 are not delivered again in later solve calls
        size_t keep = t.levels.empty() || t.levels[0] != 0 ? 0 : t.levels.size() > 1 ? t.marks[1] : t.delivered.size();
        t.delivered.resize(keep);
        if (keep > 0) { t.marks.resize(1); t.levels.resize(1); } else { t.marks.clear(); t.levels.clear(); }
        for (auto l : t.aux) { t.watches.erase(l); }
        t.aux.clear();
    }
    rec->names.clear();
    auto name = [&](int b) {
        clingo_symbolic_atoms_t const *atoms = nullptr;
        clingo_symbol_t sym = 0;
        clingo_symbolic_atom_iterator_t it = 0;
        bool valid = false;
        clingo_literal_t lit = 0;
        if (!clingo_propagate_init_symbolic_atoms(i, &atoms) || !clingo_symbol_create_id(("b" + std::to_string(b)).c_str(), true, &sym) || !clingo_symbolic_atoms_find(atoms, sym, &it) || !clingo_symbolic_atoms_is_valid(atoms, it, &valid) || !valid
            || !clingo_symbolic_atoms_literal(atoms, it, &lit) || !clingo_propagate_init_solver_literal(i, lit, &lit)) { return; }
        rec->names[lit].push_back(b);
        rec->names[-lit].push_back(-b);
    };
    for (int b = 1; b <= rec->nlits; ++b) { name(b); }
    rec->in_init = true;
    rec->models = false;
    rec->parallel = n > 1;
    bool r = rec->orig.init(i, rec->data);
    rec->in_init = false;
    rec->both = clingo_propagate_init_get_check_mode(i) == clingo_propagator_check_mode_both || clingo_propagate_init_get_check_mode(i) == clingo_propagator_check_mode_fixpoint;
    return r;
}
void enter_level(Recorder::Thread &t, uint32_t dl) {
    if (t.levels.empty() || t.levels.back() < dl) { t.levels.push_back(dl); t.marks.push_back(t.delivered.size()); }
}
bool w_propagate(clingo_propagate_control_t *c, clingo_literal_t const *ch, size_t n, void *) {
    auto &t = rec->threads[clingo_propagate_control_thread_id(c)];
    AssView a{clingo_propagate_control_assignment(c)};
    {
        std::lock_guard<std::mutex> g(rec->mtx);
        ++rec->events;
        if (!t.levels.empty() && t.levels.back() > a.dl()) { rec->mismatch("propagate on a level below one that was not undone"); }
        enter_level(t, a.dl());
        if (n == 0) { rec->mismatch("empty propagation"); }
        for (size_t i = 0; i < n; ++i) {
            if (t.watches.count(ch[i]) == 0) { rec->mismatch("literal delivered without watch"); }
            if (!a.is_true(ch[i])) { rec->mismatch("literal delivered that is not true"); }
            for (auto l : t.delivered) { if (l == ch[i]) { rec->mismatch("literal delivered twice"); } }
            if (a.dl() == 0 && t.aux.count(ch[i]) != 0) { ++rec->aux_facts; }
            t.delivered.push_back(ch[i]);
        }
        t.refused = false;
    }
    rthread = &t;
    bool r = rec->orig.propagate(c, ch, n, rec->data);
    rthread = nullptr;
    if (r && !t.refused) { rec->guarded(rec->on_fixpoint, t.delivered); }
    return r;
}
void w_undo(clingo_propagate_control_t const *c, clingo_literal_t const *ch, size_t n, void *) {
    auto &t = rec->threads[clingo_propagate_control_thread_id(const_cast<clingo_propagate_control_t *>(c))];
    AssView a{clingo_propagate_control_assignment(c)};
    {
        std::lock_guard<std::mutex> g(rec->mtx);
        ++rec->events;
        if (t.levels.empty()) { rec->mismatch("undo without propagation"); }
        else {
            if (t.levels.back() != a.dl()) { rec->mismatch("undo on another level than the last propagation: " + std::to_string(a.dl()) + " instead of " + std::to_string(t.levels.back())); }
            if (t.levels.back() == 0) { rec->mismatch("undo of level 0"); }
            if (n != t.delivered.size() - t.marks.back()) { rec->mismatch("undo of other literals than delivered"); }
            t.delivered.resize(t.marks.back());
            t.marks.pop_back();
            t.levels.pop_back();
        }
    }
    rec->orig.undo(c, ch, n, rec->data);
}
bool w_check(clingo_propagate_control_t *c, void *) {
    auto &t = rec->threads[clingo_propagate_control_thread_id(c)];
    AssView a{clingo_propagate_control_assignment(c)};
    {
        std::lock_guard<std::mutex> g(rec->mtx);
        ++rec->events;
        if (!rec->both && !clingo_assignment_is_total(a.a)) { rec->mismatch("check on a partial assignment"); }
        std::set<int> d(t.delivered.begin(), t.delivered.end());
        for (auto w : t.watches) { if (a.is_true(w) && d.count(w) == 0) { rec->mismatch("check while a watched true literal has not been delivered"); } }
        t.refused = false;
    }
    rthread = &t;
    bool r = rec->orig.check(c, rec->data);
    rthread = nullptr;
    return r;
}
bool w_decide(clingo_id_t t, clingo_assignment_t const *a, clingo_literal_t f, void *, clingo_literal_t *d) { return rec->orig.decide(t, a, f, rec->data, d); }

} // namespace

extern "C" bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool seq) {
    static auto *f = real_fn<bool(clingo_control_t *, clingo_propagator_t const *, void *, bool)>("clingo_control_register_propagator");
    if (rec == nullptr) { return f(c, p, data, seq); }
    rec->orig = *p;
    rec->data = data;
    static clingo_propagator_t wd = {w_init, w_propagate, w_undo, w_check, w_decide};
    static clingo_propagator_t wn = {w_init, w_propagate, w_undo, w_check, nullptr};
    return f(c, p->decide != nullptr ? &wd : &wn, data, seq);
}
extern "C" bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    static auto *f = real_fn<bool(clingo_propagate_init_t *, clingo_literal_t)>("clingo_propagate_init_add_watch");
    if (rec != nullptr) { for (auto &t : rec->threads) { t.watches.insert(l); } }
    return f(i, l);
}
extern "C" bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    static auto *f = real_fn<bool(clingo_propagate_control_t *, clingo_literal_t)>("clingo_propagate_control_add_watch");
    if (rec != nullptr && rthread != nullptr) { rthread->watches.insert(l); rthread->aux.insert(l); }
    return f(c, l);
}
extern "C" bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t ty, bool *res) {
    static auto *f = real_fn<bool(clingo_propagate_control_t *, clingo_literal_t const *, size_t, clingo_clause_type_t, bool *)>("clingo_propagate_control_add_clause");
    if (rec == nullptr) { return f(c, cl, n, ty, res); }
    // the answer predicted by the mock
    AssView a{clingo_propagate_control_assignment(c)};
    bool root_sat = false;
    uint32_t max_false = 0;
    std::set<int> open, tr;
    for (size_t i = 0; i < n; ++i) {
        if (a.is_true(cl[i])) { tr.insert(cl[i]); root_sat = root_sat || a.level(cl[i]) == 0; }
        else if (!a.is_false(cl[i])) { open.insert(cl[i]); }
        else { max_false = std::max(max_false, a.level(cl[i])); }
    }
    bool many = root_sat || tr.size() + open.size() > 1;
    uint32_t tl = tr.empty() ? 0 : a.level(*tr.begin());
    // after a model the backtrack level and with assumptions the root level might be raised: clauses are not refused then
    bool refuse = !many && max_false < a.dl() && (tr.empty() || tl > max_false);
    bool predict = many || !tr.empty() ? !refuse : !refuse && !open.empty();
    bool raised = refuse && (rec->models || rec->root) && (!tr.empty() || !open.empty());
    {
        // relative to what is already known on level 0
        std::vector<int> lits(cl, cl + n);
        for (auto const &[l, b] : rec->names) { if (a.is_true(l) && a.level(l) == 0 && std::find(lits.begin(), lits.end(), l) == lits.end()) { lits.push_back(-l); } }
        rec->guarded(rec->on_clause, lits);
    }
    bool r = f(c, cl, n, ty, res);
    {
        std::lock_guard<std::mutex> g(rec->mtx);
        ++rec->clauses;
        if (rthread != nullptr) {
            if (rthread->refused) { rec->mismatch("clause added after a refused one"); }
            rthread->refused = rthread->refused || !*res;
        }
        if (r && *res != predict && !(raised && *res)) {
            std::ostringstream o;
            o << "add_clause returned " << *res << " instead of " << predict << ", true " << tr.size() << " open " << open.size() << " level " << max_false << " of " << a.dl();
            rec->mismatch(o.str());
        }
    }
    return r;
}

namespace {

// ---------------------------------------------------------------------------------------------------------------
struct Op {
    enum K { GROUND, SOLVE, ASSIGN, RELEASE } k;
    int a = 0, b = 0; // for solve: a > 0 limits the number of models, a < 0 stops in the handler of that model
    std::vector<int> assume;
};
//! What is asked from the ASP solver.
enum class Mode { ENUM, BRAVE, CAUTIOUS, OPT, OPTN, PROJECT };
struct RCase {
    std::vector<Prog> parts;                 // atoms, facts, clauses; nlits: the booleans 1..nlits exist from then on
    std::vector<std::pair<int, std::vector<std::vector<int>>>> defs; // b :- conj1. b :- conj2. (part 0)
    std::set<int> externals;
    Cfg cfg;
    std::vector<std::string> args;
    std::vector<Op> ops;
    bool ast = false;
    int nvars = 0, nlits = 0;
    int names = 0; // see name_scheme()
    Mode mode = Mode::ENUM;
    std::shared_ptr<RCase> other;            // a second session in the same process
    std::string order;                       // interleaving of the operations: a, b, or A to have the rest up to ; performed within the first model
    std::vector<int> weights;                // of the booleans 1..nlits in a minimize statement of the ASP solver
};


std::string part_text(RCase const &c, size_t i) {
    int from = i == 0 ? 1 : c.parts[i - 1].nlits + 1;
    Prog p = c.parts[i];
    std::string s;
    for (int b = from; b <= p.nlits; ++b) {
        bool def = false;
        for (auto const &d : c.defs) { def = def || d.first == b; }
        if (def) { continue; }
        if (c.externals.count(b) != 0) { s += "#external b" + std::to_string(b) + ". "; }
        else { s += "{b" + std::to_string(b) + "}. "; }
    }
    if (i == 0) {
        for (auto const &[b, bodies] : c.defs) {
            for (auto const &body : bodies) {
                s += "b" + std::to_string(b) + (body.empty() ? "" : " :- ");
                bool sep = false;
                for (int l : body) { s += (sep ? ", " : "") + lit_text(l); sep = true; }
                s += ". ";
            }
        }
    }
    p.nlits = 0;
    s += prog_text(p);
    for (int b = from; b <= c.parts[i].nlits; ++b) { s += "#show b" + std::to_string(b) + "/0. "; }
    if (i == 0 && !c.weights.empty()) {
        s += "#minimize{";
        for (size_t b = 1; b <= c.weights.size(); ++b) { s += (b > 1 ? "; " : " ") + std::to_string(c.weights[b - 1]) + "," + std::to_string(b) + ": b" + std::to_string(b); }
        s += "}. ";
    }
    if (i == 0 && c.mode == Mode::PROJECT) { s += "#project b1. "; }
    return s;
}
std::string op_text(Op const &o) {
    switch (o.k) {
        case Op::GROUND: return "ground " + std::to_string(o.a);
        case Op::ASSIGN: return "external b" + std::to_string(o.a) + (o.b > 0 ? " true" : o.b < 0 ? " false" : " free");
        case Op::RELEASE: return "release b" + std::to_string(o.a);
        default: break;
    }
    std::string s = "solve";
    if (o.a > 0) { s += " models=" + std::to_string(o.a); }
    if (o.a < 0) { s += " stop=" + std::to_string(-o.a); }
    for (int l : o.assume) { s += " " + lit_text(l); }
    return s;
}

struct Handler : Clingo::SolveEventHandler {
    std::function<bool(Clingo::Model &)> model;
    std::function<void(Clingo::UserStatistics, Clingo::UserStatistics)> stats;
    std::exception_ptr ex;
    bool on_model(Clingo::Model &m) override {
        if (ex) { return false; }
        try { return model(m); }
        catch (...) { ex = std::current_exception(); return false; }
    }
    void on_statistics(Clingo::UserStatistics s, Clingo::UserStatistics a) override {
        if (ex) { return; }
        try { stats(s, a); } catch (...) { ex = std::current_exception(); }
    }
};

//! Statistics callbacks get the C handles through the wrapped type.
struct StatAccess {
    static double get(Clingo::UserStatistics s, char const *k) {
        if (!s.has_subkey("Simplex")) { return -1; }
        auto m = s["Simplex"];
        return m.has_subkey(k) ? m[k].value() : -1;
    }
};

struct Runner {
    RCase const &c;
    hn::Reporter &rep;
    std::vector<std::string> trace;
    Runner(RCase const &c, hn::Reporter &r) : c(c), rep(r) {}

    static Clingo::Symbol bsym(int b) { return Clingo::Id(("b" + std::to_string(b)).c_str()); }

    Recorder recorder;
    std::unique_ptr<TheoryHandle> theory;
    std::string messages;
    std::unique_ptr<Clingo::Control> control;
    Prog all;
    std::map<int, int> ext; // values of externals: 1, -1, 0 free, 2 released
    std::map<int, size_t> first_index;
    double accu_p = 0, accu_b = 0;
    size_t next = 0;
    std::function<void(int)> hook; // called after each model with the number of models so far

    //! The recorder of the session that is running; sessions might be nested.
    struct Use {
        Recorder *rec_ = rec;
        Recorder::Thread *thread_ = rthread;
        Use(Recorder *r) { rec = r; rthread = nullptr; }
        ~Use() { rec = rec_; rthread = thread_; }
    };
    ~Runner() {
        Use use(&recorder);
        control.reset();
        theory.reset();
    }
    size_t steps() const { return c.ops.size() + 2; }
    void run() { while (next < steps()) { step(); } }
    //! Set up, perform the next operation, or clean up.
    void step() {
        Use use(&recorder);
        size_t n = next++;
        if (n == 0) {
            // assumptions of core guided optimization raise the root level
            for (auto const &x : c.args) { recorder.root = recorder.root || x.find("usc") != std::string::npos; }
            theory = std::make_unique<TheoryHandle>();
            configure(theory->t, c.cfg);
            std::vector<char const *> args;
            for (auto const &a : c.args) { args.push_back(a.c_str()); }
            control = std::make_unique<Clingo::Control>(Clingo::StringSpan{args.data(), args.size()}, [&](Clingo::WarningCode, char const *m) { messages += m; }, 20);
            if (!clingolpx_register(theory->t, control->to_c())) { throw Violation{"error", std::string("register: ") + clingo_error_message()}; }
            (*control).configuration()["solve"]["models"] = "0";
            all.nvars = c.nvars;
            return;
        }
        if (n == steps() - 1) {
            control.reset();
            theory.reset();
            rep.count(C_TRACES, recorder.mismatches == 0 ? 1 : 0);
            rep.count(C_MISMATCH, recorder.mismatches);
            rep.count(C_CALLBACKS, recorder.events);
            rep.count(C_CLAUSES, recorder.clauses);
            if (recorder.aux_facts != 0 && std::getenv("VERIF_AUX") != nullptr) { throw Violation{"conformance", "aux facts"}; }
            if (recorder.mismatches != 0 && std::getenv("VERIF_CONFORM") != nullptr) { throw Violation{"conformance", recorder.first}; }
            return;
        }
        auto &th = *theory;
        auto &ctl = *control;
        auto const &op = c.ops[n - 1];
        {
            rep.count(C_OPS);
            switch (op.k) {
                case Op::GROUND: {
                    auto name = "p" + std::to_string(op.a);
                    auto text = part_text(c, op.a);
                    if (c.ast) {
                        text = "#program " + name + ". " + text;
                        Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
                            Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node const &n) {
                                auto add = [](clingo_ast_t *ast, void *data) -> bool {
                                    auto &b = *static_cast<Clingo::AST::ProgramBuilder *>(data);
                                    clingo_ast_acquire(ast);
                                    b.add(Clingo::AST::Node{ast});
                                    return true;
                                };
                                if (!clingolpx_rewrite_ast(th.t, n.to_c(), add, &b)) { throw Violation{"error", "rewrite_ast failed"}; }
                            });
                        });
                    } else { ctl.add(name.c_str(), {}, text.c_str()); }
                    try { ctl.ground({{"base", {}}, {name.c_str(), {}}}); }
                    catch (std::exception const &e) { throw Violation{"error", std::string("ground: ") + e.what() + " " + messages}; }
                    auto const &p = c.parts[op.a];
                    int from = all.nlits + 1;
                    all.nlits = p.nlits;
                    for (int b = from; b <= p.nlits; ++b) { if (c.externals.count(b) != 0) { ext[b] = -1; } }
                    for (auto const &a : p.atoms) { all.atoms.push_back(a); }
                    for (auto const &a : p.clauses) { all.clauses.push_back(a); }
                    for (auto const &a : p.facts) { all.facts.push_back(a); }
                    break;
                }
                case Op::ASSIGN: {
                    ctl.assign_external(bsym(op.a), op.b > 0 ? Clingo::TruthValue::True : op.b < 0 ? Clingo::TruthValue::False : Clingo::TruthValue::Free);
                    if (ext.count(op.a) != 0 && ext[op.a] != 2) { ext[op.a] = op.b; }
                    break;
                }
                case Op::RELEASE: {
                    ctl.release_external(bsym(op.a));
                    if (ext.count(op.a) != 0) { ext[op.a] = 2; }
                    break;
                }
                case Op::SOLVE: solve(ctl, th, op); break;
            }
        }
    }

    void solve(Clingo::Control &ctl, TheoryHandle &th, Op const &op) {
        rep.count(C_SOLVES);
        if (!clingolpx_prepare(th.t, ctl.to_c())) { throw Violation{"error", "prepare failed"}; }
        Oracle o(all);
        bool has = has_objective(all);
        std::set<uint64_t> seen;
        std::optional<QE> best;
        bool unbounded = false;
        int nmodels = 0;
        auto allowed = [&](BAss const &a) {
            for (auto l : all.facts) { if (bval(a, l) < 0) { return false; } }
            for (auto const &cl : all.clauses) { bool s = false; for (int l : cl) { s = s || bval(a, l) > 0; } if (!s) { return false; } }
            for (auto l : op.assume) { if (bval(a, l) < 0) { return false; } }
            for (auto const &[b, v] : ext) { if (v == 2 ? a[b] > 0 : v != 0 && a[b] != v) { return false; } }
            for (auto const &[b, bodies] : c.defs) {
                bool t = false;
                for (auto const &body : bodies) { bool s = true; for (int l : body) { s = s && bval(a, l) > 0; } t = t || s; }
                if (t != (a[b] > 0)) { return false; }
            }
            return true;
        };
        auto removable = [&](BAss const &a) {
            if (!o.feasible(a)) { return true; }
            if (!c.cfg.global() || !has || nmodels == 0) { return false; }
            auto const &opt = o.optimum(a);
            if (unbounded) { return opt.bounded; }
            return opt.bounded && best.has_value() && opt.value < *best + c.cfg.step();
        };
        auto show = [&](BAss const &a) { std::string s; for (int i = 1; i <= all.nlits; ++i) { s += " " + lit_text(a[i] > 0 ? i : -i); } return s; };
        Handler h;
        bool par = false;
        for (auto const &x : c.args) { par = par || x.rfind("-t", 0) == 0; }
        bool optimize = c.mode == Mode::OPT || c.mode == Mode::OPTN, consequences = c.mode == Mode::BRAVE || c.mode == Mode::CAUTIOUS;
        auto code = [&](BAss const &a) -> uint64_t { return c.mode == Mode::PROJECT ? a[1] > 0 : Oracle::code(a); };
        auto cost = [&](BAss const &a) { int r = 0; for (size_t i = 0; i < c.weights.size(); ++i) { if (a[i + 1] > 0) { r += c.weights[i]; } } return r; };
        BAss last;
        std::optional<int> last_cost;
        h.model = [&](Clingo::Model &m) -> bool {
            rep.count(C_MODELS);
            rec->models = true;
            BAss a(all.nlits + 1, -1);
            for (int b = 1; b <= all.nlits; ++b) { if (m.contains(bsym(b))) { a[b] = 1; } }
            if (!clingolpx_on_model(th.t, m.to_c())) { throw Violation{"error", std::string("on_model: ") + clingo_error_message()}; }
            if (consequences) {
                last = a;
                ++nmodels;
                return true;
            }
            if (!allowed(a)) { throw Violation{"models", "reported model is not an answer set:" + show(a)}; }
            if (optimize) {
                // models before the optimum is known have decreasing costs, the optimal ones are enumerated afterwards
                bool proven = m.optimality_proven();
                if (!proven && last_cost && cost(a) >= *last_cost) { throw Violation{"models", "the cost did not decrease:" + show(a)}; }
                if (proven && last_cost && cost(a) > *last_cost) { throw Violation{"models", "optimal model with larger cost:" + show(a)}; }
                last_cost = cost(a);
                last = a;
            }
            if ((!optimize || (c.mode == Mode::OPTN && m.optimality_proven())) && !seen.insert(code(a)).second) { throw Violation{"models", "model reported twice:" + show(a)}; }
            if (!o.feasible(a)) { throw Violation{"models", "model with unsatisfiable constraints:" + show(a)}; }
            std::vector<QE> v(c.nvars);
            std::vector<bool> got(c.nvars, false);
            std::optional<QE> ob;
            bool bounded = true;
            for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
                if (s.type() != Clingo::SymbolType::Function) { continue; }
                if (s.match("__lpx", 2)) {
                    auto q = s.arguments()[1].type() == Clingo::SymbolType::String ? parse_qe(s.arguments()[1].string()) : std::nullopt;
                    if (!q) { throw Violation{"format", "value not canonical: " + s.to_string()}; }
                    if (!c.cfg.strict && q->k != 0) { throw Violation{"format", "epsilon without strict mode: " + s.to_string()}; }
                    bool f = false;
                    for (int i = 0; i < c.nvars; ++i) {
                        if (s.arguments()[0] == Clingo::parse_term(var_name(i).c_str())) {
                            if (got[i]) { throw Violation{"access", "variable reported twice: " + s.to_string()}; }
                            f = got[i] = true;
                            v[i] = *q;
                        }
                    }
                    if (!f) { throw Violation{"access", "unknown variable: " + s.to_string()}; }
                } else if (s.match("__lpx_objective", 2)) {
                    ob = parse_qe(s.arguments()[0].string());
                    bounded = s.arguments()[1].number() != 0;
                    if (!ob) { throw Violation{"format", "objective not canonical: " + s.to_string()}; }
                }
            }
            for (int i = 0; i < c.nvars; ++i) {
                size_t idx = 0;
                bool f = clingolpx_lookup_symbol(th.t, Clingo::parse_term(var_name(i).c_str()).to_c(), &idx);
                if (f != got[i]) { throw Violation{"access", "lookup and model disagree about " + var_name(i)}; }
                if (!f) { continue; }
                if (first_index.count(i) != 0 && first_index[i] != idx) { throw Violation{"access", "index of " + var_name(i) + " changed between solve calls"}; }
                first_index[i] = idx;
                clingolpx_value_t val;
                if (!clingolpx_assignment_has_value(th.t, m.thread_id(), idx)) { throw Violation{"access", "no value for " + var_name(i)}; }
                clingolpx_assignment_get_value(th.t, m.thread_id(), idx, &val);
                auto q = parse_qe(Clingo::Symbol{val.symbol}.string());
                if (!q || !(*q == v[i])) { throw Violation{"access", "assignment and model disagree about " + var_name(i)}; }
            }
            // whatever has a value can be accessed
            for (size_t i = 0; i < 40; ++i) {
                size_t back = 0;
                if (!clingolpx_assignment_has_value(th.t, m.thread_id(), i)) { continue; }
                if (i == 0) { throw Violation{"access", "index 0 has a value"}; }
                if (!clingolpx_lookup_symbol(th.t, clingolpx_get_symbol(th.t, i), &back) || back != i) { throw Violation{"access", "symbol and index do not correspond for index " + std::to_string(i) + ", which has a value"}; }
                clingolpx_value_t val;
                clingolpx_assignment_get_value(th.t, m.thread_id(), i, &val);
                if (!parse_qe(Clingo::Symbol{val.symbol}.string())) { throw Violation{"access", "value of index " + std::to_string(i) + " is no number"}; }
            }
            auto s = o.check_values(a, v);
            if (!s.empty()) {
                std::string vs;
                for (int i = 0; i < c.nvars; ++i) { vs += " " + var_name(i) + "=" + v[i].str(); }
                throw Violation{"values", "in model" + show(a) + ": " + s + " by" + vs};
            }
            if (has && ob) {
                auto const &opt = o.optimum(a);
                if (o.objective(a, v) != *ob) { throw Violation{"objective", "reported objective " + ob->str() + " is not that of the assignment " + o.objective(a, v).str()}; }
                if (opt.bounded != bounded) { throw Violation{"objective", "boundedness of the objective is wrong in" + show(a)}; }
                if (bounded && opt.value != *ob) { throw Violation{"objective", "reported optimum " + ob->str() + " but the optimum is " + opt.value.str() + " in" + show(a)}; }
                if (c.cfg.global() && !par) {
                    if (unbounded && bounded) { throw Violation{"global", "bounded model after an unbounded one"}; }
                    if (!unbounded && bounded && best && *ob < *best + c.cfg.step()) { throw Violation{"global", "model with objective " + ob->str() + " after one with " + best->str()}; }
                }
                if (bounded && !unbounded && (!best || *ob > *best)) { best = *ob; }
                if (!bounded) { unbounded = true; }
            } else if (!has && ob) { throw Violation{"objective", "objective without objective statement"}; }
            ++nmodels;
            if (hook) { hook(nmodels); }
            return op.a >= 0 || nmodels != -op.a;
        };
        ctl.configuration()["solve"]["models"] = std::to_string(std::max(op.a, 0)).c_str();
        h.stats = [&](Clingo::UserStatistics s, Clingo::UserStatistics a) {
            rep.count(C_STATS);
            // the typed wrapper hides the handle: go through the C interface
            auto *cs = *reinterpret_cast<clingo_statistics_t **>(&s);
            auto *ca = *reinterpret_cast<clingo_statistics_t **>(&a);
            if (!clingolpx_on_statistics(th.t, cs, ca)) { throw Violation{"stats", "on_statistics failed"}; }
            auto p = StatAccess::get(s, "Pivots"), b = StatAccess::get(s, "Bounds propagated"), ap = StatAccess::get(a, "Pivots"), ab = StatAccess::get(a, "Bounds propagated");
            if (p < 0 || b < 0 || ap < 0 || ab < 0) { throw Violation{"stats", "statistics keys missing"}; }
            accu_p += p;
            accu_b += b;
            if (ap != accu_p || ab != accu_b) { throw Violation{"stats", "accumulated statistics " + std::to_string(ap) + "/" + std::to_string(ab) + " are not the sum of the steps " + std::to_string(accu_p) + "/" + std::to_string(accu_b)}; }
        };
        // partial assignment in which the given literals are true
        auto partial = [&](std::vector<int> const &lits, BAss &a, bool &known) {
            a.assign(all.nlits + 1, 0);
            known = true;
            auto facts = rec->names.find(1);
            if (facts != rec->names.end()) { for (int b : facts->second) { a[std::abs(b)] = b > 0 ? 1 : -1; } }
            for (int l : lits) {
                if (std::abs(l) == 1) { known = known && l > 0; continue; } // the constant literals
                auto it = rec->names.find(l);
                if (it == rec->names.end()) { known = false; continue; }
                for (int b : it->second) {
                    if (bval(a, b) < 0) { return false; }
                    a[std::abs(b)] = b > 0 ? 1 : -1;
                }
            }
            return true;
        };
        rec->on_fixpoint = [&](std::vector<int> const &lits) {
            BAss a;
            bool known;
            rep.count(C_FIXPOINTS);
            if (partial(lits, a, known) && !o.feasible(a)) {
                std::string s;
                for (int i = 1; i <= all.nlits; ++i) { if (a[i] != 0) { s += " " + lit_text(a[i] > 0 ? i : -i); } }
                throw Violation{"missed", "propagation succeeded although the constraints are unsatisfiable with" + s};
            }
        };
        rec->on_clause = [&](std::vector<int> const &lits) {
            if (c.cfg.global() && has) { return; }
            BAss a;
            bool known;
            std::vector<int> neg;
            for (int l : lits) { neg.push_back(-l); }
            if (!partial(neg, a, known) || !known) { return; }
            rep.count(C_ENTAILED);
            if (o.feasible(a)) {
                std::string s;
                for (int i = 1; i <= all.nlits; ++i) { if (a[i] != 0) { s += " " + lit_text(a[i] > 0 ? -i : i); } }
                throw Violation{"entailment", "clause is not implied:" + s};
            }
        };
        struct Reset { ~Reset() { rec->on_fixpoint = nullptr; rec->on_clause = nullptr; } } reset;
        rec->nlits = all.nlits;
        std::vector<Clingo::literal_t> as;
        auto atoms = ctl.symbolic_atoms();
        bool contradiction = false;
        for (int l : op.assume) {
            auto it = atoms.find(bsym(std::abs(l)));
            if (it == atoms.end()) { contradiction = contradiction || l > 0; continue; }
            as.push_back(l > 0 ? it->literal() : -it->literal());
        }
        bool sat = false, ex = false;
        if (contradiction) { return; }
        try {
            auto r = ctl.solve(Clingo::LiteralSpan{as.data(), as.size()}, &h, false, false).get();
            sat = r.is_satisfiable();
            ex = r.is_exhausted();
        } catch (std::exception const &e) {
            if (h.ex) { std::rethrow_exception(h.ex); }
            throw Violation{"error", std::string("solve: ") + e.what() + " " + messages};
        }
        if (h.ex) { std::rethrow_exception(h.ex); }
        if (!rec->bad.empty()) { throw Violation{rec->bad_kind, rec->bad}; }
        if (sat != (nmodels > 0)) { throw Violation{"models", "result does not fit the number of models"}; }
        if (op.a != 0 && nmodels == std::abs(op.a)) { return; }
        if (!ex) { throw Violation{"models", "search not exhausted"}; }
        if (consequences || optimize) {
            BAss a(all.nlits + 1, -1), expected;
            std::optional<int> best_cost;
            for (int round = 0; round < 2; ++round) {
                for (uint64_t mask = 0; mask < (1ULL << all.nlits); ++mask) {
                    for (int i = 0; i < all.nlits; ++i) { a[i + 1] = (mask >> i) & 1 ? 1 : -1; }
                    rep.count(C_ASSIGN);
                    if (!allowed(a) || !o.feasible(a)) { continue; }
                    if (round == 0) {
                        if (expected.empty()) { expected = a; }
                        for (int i = 1; i <= all.nlits; ++i) { expected[i] = c.mode == Mode::BRAVE ? std::max(expected[i], a[i]) : std::min(expected[i], a[i]); }
                        best_cost = best_cost ? std::min(*best_cost, cost(a)) : cost(a);
                    } else if (c.mode == Mode::OPTN && cost(a) == *best_cost && seen.count(code(a)) == 0) { throw Violation{"models", "optimal model missing:" + show(a)}; }
                }
            }
            if (expected.empty() != (nmodels == 0)) { throw Violation{"models", nmodels == 0 ? "no model found" : "models of a program without any"}; }
            if (consequences && nmodels > 0 && last != expected) { throw Violation{"models", "consequences" + show(last) + " instead of" + show(expected)}; }
            if (optimize && nmodels > 0 && cost(last) != *best_cost) { throw Violation{"models", "best model has cost " + std::to_string(cost(last)) + " instead of " + std::to_string(*best_cost)}; }
            rep.count(C_LPS, o.lps);
            return;
        }
        // nothing is missing
        BAss a(all.nlits + 1, -1);
        for (uint64_t mask = 0; mask < (1ULL << all.nlits); ++mask) {
            for (int i = 0; i < all.nlits; ++i) { a[i + 1] = (mask >> i) & 1 ? 1 : -1; }
            rep.count(C_ASSIGN);
            if (!allowed(a) || seen.count(code(a)) != 0) { continue; }
            if (!removable(a)) { throw Violation{"models", "model missing:" + show(a) + (c.cfg.global() ? " although the best objective is " + (best ? best->str() : "none") : "")}; }
        }
        rep.count(C_LPS, o.lps);
    }
};

std::vector<std::vector<std::string>> search_args() {
    return {{}, {"--heuristic=Berkmin"}, {"--heuristic=Vmtf"}, {"--heuristic=Unit"}, {"--heuristic=None"}, {"--sign-def=pos"}, {"--sign-def=neg"}, {"--sign-def=rnd", "--seed=3"}, {"--restart-on-model"}, {"--enum-mode=record"}, {"--enum-mode=bt"}, {"--heuristic=None", "--sign-def=pos", "--enum-mode=bt"}, {"--lookahead=atom"}, {"--restarts=F,1"}, {"--deletion=basic,90,activity"}, {"--eq=0"}, {"--heuristic=None", "--sign-def=pos", "--restart-on-model", "--enum-mode=record"}, {"--trans-ext=all"}, {"--rand-freq=1", "--seed=7"}, {"--opt-mode=ignore"}, {"--configuration=crafty"}, {"--configuration=trendy"}, {"--reverse-arcs=3", "--contraction=no"}, {"--local-restarts"}};
}

RCase single(Case const &k, std::vector<std::string> args) {
    RCase c;
    c.parts = {k.prog};
    c.nvars = k.prog.nvars;
    c.nlits = k.prog.nlits;
    c.cfg = k.cfg;
    c.cfg.incremental = false;
    c.args = std::move(args);
    c.ops = {{Op::GROUND, 0, 0, {}}, {Op::SOLVE, 0, 0, {}}};
    return c;
}

std::vector<RCase> make(std::string const &family, std::string const &tier) {
    using namespace fam;
    bool thorough = tier == "thorough";
    std::vector<RCase> out;
    auto sa = search_args();
    size_t rot = 0;
    auto lift = [&](char const *f, size_t per) {
        for (auto const &k : make_cases(f, tier)) {
            if (!k.steps.empty()) { continue; }
            for (size_t i = 0; i < per; ++i) {
                auto c = single(k, sa[(rot * 7 + i * 5) % sa.size()]);
                c.ast = rot % 3 == 0;
                out.push_back(c);
                ++rot;
            }
        }
    };
    if (family == "single") { for (auto f : {"bounds", "rows", "rows3", "multi", "cond", "select"}) { lift(f, thorough ? 8 : 2); } }
    else if (family == "strict") { for (auto f : {"bounds-strict", "rows-strict", "obj-strict"}) { lift(f, thorough ? 8 : 2); } }
    else if (family == "const") { for (auto f : {"const", "const-strict"}) { lift(f, thorough ? 8 : 2); } }
    else if (family == "cond") { lift("cond", thorough ? sa.size() : 8); }
    else if (family == "obj") { for (auto f : {"obj", "obj-strict"}) { lift(f, thorough ? 8 : 2); } }
    else if (family == "global") { for (auto f : {"global", "global-strict"}) { lift(f, thorough ? sa.size() : 6); } }
    else if (family == "big") { lift("big", thorough ? 8 : 3); }
    else if (family == "options") { lift("options", thorough ? sa.size() : 8); }
    else if (family == "asp" || family == "asp-obj") {
        // derived atoms: every pair of bodies over two choices for the conditions of three constraints
        std::vector<std::vector<std::vector<int>>> bodies = {{{1}}, {{-1}}, {{1, 2}}, {{1}, {2}}, {{-1, 2}}, {{-1, -2}}, {{1, -2}, {-1, 2}}, {{}}, {{1, 2}, {-1, -2}}};
        std::vector<Atom> kinds = {sum({{1, X}, {1, Y}}, LE, 1, 0), sum({{1, X}}, GE, 1, 0), sum({{1, Y}}, GE, 1, 0), sum({{1, X}, {-1, Y}}, EQ, 0, 0), sum({{2, X}}, LE, 1, 0), dom(X, 0, Q(1, 2), 0)};
        bool o = family == "asp-obj";
        auto opts = o ? cfgs({"def", "o:global", "bf o:global,1", "st o:local"}) : main_options();
        std::vector<std::vector<std::string>> prepro = {{"--sat-prepro"}, {"--configuration=crafty"}, {"--sat-prepro=2,20,25,120"}, {"--eq=5", "--sat-prepro"}};
        for (auto const &b3 : bodies) { for (auto const &b4 : bodies) { for (auto const &b5 : bodies) {
            subsets(static_cast<int>(kinds.size()), 3, false, [&](std::vector<int> const &s) {
                ++rot;
                RCase c;
                c.nvars = 2;
                c.nlits = 5;
                c.cfg = opts[rot % opts.size()];
                c.args = sa[rot % sa.size()];
                c.defs = {{3, b3}, {4, b4}, {5, b5}};
                Prog p;
                p.nlits = 5;
                p.nvars = 2;
                for (int i = 0; i < 3; ++i) { auto a = kinds[s[i]]; a.lit = 3 + i; p.atoms.push_back(a); }
                if (o) {
                    p.atoms.push_back(dom(X, -1, 2, 0));
                    p.atoms.push_back(dom(Y, -1, 3, 0));
                    p.atoms.push_back(rot % 2 == 0 ? obj(Atom::MAX, Terms{{1, X}, {2, Y}}) : obj(Atom::MIN, Terms{{1, X}, {-1, Y}}));
                    if (rot % 3 != 0) { c.args = prepro[rot % prepro.size()]; }
                }
                c.parts = {p};
                c.ops = {{Op::GROUND, 0, 0, {}}, {Op::SOLVE, 0, 0, {}}};
                out.push_back(c);
            });
        } } }
    } else if (family == "modes") {
        // consequences, optimization by the ASP solver and projection
        struct M { Mode mode; std::vector<std::string> args; };
        std::vector<M> modes = {{Mode::BRAVE, {"--enum-mode=brave"}}, {Mode::CAUTIOUS, {"--enum-mode=cautious"}}, {Mode::OPT, {"--opt-mode=opt"}}, {Mode::OPTN, {"--opt-mode=optN"}}, {Mode::PROJECT, {"--project=auto"}},
                                {Mode::OPT, {"--opt-mode=opt", "--opt-strategy=usc"}}, {Mode::OPTN, {"--opt-mode=optN", "--opt-strategy=usc,oll"}}, {Mode::OPTN, {"--opt-mode=optN", "--restart-on-model"}}, {Mode::PROJECT, {"--project=auto", "--enum-mode=record"}},
                                {Mode::OPT, {"--opt-mode=opt", "--opt-strategy=bb,hier"}}, {Mode::CAUTIOUS, {"--enum-mode=cautious", "--heuristic=None", "--sign-def=pos"}}, {Mode::BRAVE, {"--enum-mode=brave", "--restart-on-model"}}, {Mode::OPT, {"--opt-mode=opt", "--opt-usc-shrink=min", "--opt-strategy=usc"}}};
        std::vector<std::vector<int>> weights = {{1, 2, 1, 1, 1}, {-2, 1, -1, 1, -1}, {-1, -1, -1, -1, -1}};
                for (auto f : {"bounds", "rows", "multi", "cond", "select", "options", "obj", "bounds-strict"}) {
            for (auto const &k : make_cases(f, tier)) {
                if (!k.steps.empty() || k.prog.nlits == 0) { continue; }
                ++rot;
                auto const &m = modes[rot % modes.size()];
                auto c = single(k, m.args);
                if (c.cfg.global()) { continue; }
                c.mode = m.mode;
                if (m.mode == Mode::OPT || m.mode == Mode::OPTN) { c.weights = weights[rot / modes.size() % weights.size()]; c.weights.resize(k.prog.nlits); }
                out.push_back(c);
            }
        }
    } else if (family == "again") {
        // the same program solved again after a solve call that stopped early
        std::vector<std::vector<int>> limits = {{1}, {-1}, {2, 0}, {1, 1}, {0}, {-2, 3}, {-1, 0}};
        for (auto f : {"global", "global-strict", "obj", "rows", "multi", "cond", "select", "options", "bounds-strict"}) {
            for (auto const &k : make_cases(f, tier)) {
                if (!k.steps.empty()) { continue; }
                ++rot;
                auto c = single(k, sa[rot % sa.size()]);
                c.cfg.incremental = true;
                c.ops.pop_back();
                for (int l : limits[rot / sa.size() % limits.size()]) { c.ops.push_back({Op::SOLVE, l, 0, {}}); }
                c.ops.push_back({Op::SOLVE, 0, 0, {}});
                out.push_back(c);
            }
        }
    } else if (family == "pairs") {
        // two sessions in one process: all interleavings of their operations, and one within a model of the other
        std::vector<RCase> base;
        size_t n = 0;
        for (auto f : {"rows", "global", "cond", "bounds-strict", "obj", "multi", "big", "obj-strict", "select"}) {
            auto cs = make_cases(f, tier);
            size_t want = thorough ? 24 : 8;
            for (size_t i = 0; i < want && !cs.empty(); ++i) {
                auto const &k = cs[(i * cs.size() / want + 13 * i) % cs.size()];
                if (!k.steps.empty()) { continue; }
                auto c = single(k, sa[n++ % sa.size()]);
                if (i % 2 == 1) { c.ops.push_back(c.ops.back()); }
                base.push_back(c);
            }
        }
        for (size_t i = 0; i < base.size(); ++i) {
            auto a = base[i];
            auto other = std::make_shared<RCase>(base[(i * 5 + 11) % base.size()]);
            if (!thorough && a.ops.size() + other->ops.size() > 5) { other->ops.pop_back(); }
            a.other = other;
            size_t na = a.ops.size() + 2, nb = other->ops.size() + 2;
            std::string order;
            std::function<void(size_t, size_t)> mix = [&](size_t x, size_t y) {
                if (x == 0 && y == 0) { a.order = order; out.push_back(a); return; }
                if (x > 0) { order.push_back('a'); mix(x - 1, y); order.pop_back(); }
                if (y > 0) { order.push_back('b'); mix(x, y - 1); order.pop_back(); }
            };
            mix(na, nb);
            for (size_t from = 0; from <= nb; ++from) {
                for (size_t to = from + 1; to <= nb; ++to) {
                    a.order = std::string(from, 'b') + "aaA" + std::string(to - from, 'b') + ";" + std::string(na - 3, 'a') + std::string(nb - to, 'b');
                    out.push_back(a);
                }
            }
        }
    } else if (family == "large") {
        // larger programs, at once or in three steps
        int seeds = thorough ? 160 : 32;
        auto opts = main_options(), oopts = cfgs({"o:global", "def", "bf o:global", "o:global,1/2", "st", "st o:global", "conf bc sp", "bf o:global,1"});
        for (int seed = 0; seed < seeds; ++seed) {
            for (auto const *kind : large_kinds) {
                ++rot;
                bool strict = seed % 4 == 3;
                auto p = large_program(kind, seed, strict);
                RCase c;
                c.nvars = p.nvars;
                c.nlits = p.nlits;
                auto const &o = has_objective(p) ? oopts : opts;
                c.cfg = o[(rot + seed / 8) % o.size()];
                if (strict && c.cfg.global() && seed % 8 == 3) { c.cfg.objective = "global,e"; }
                c.cfg.strict = strict;
                c.args = sa[(rot + seed / 24) % sa.size()];
                if (seed % 2 == 0) { c.parts = {p}; c.ops = {{Op::GROUND, 0, 0, {}}, {Op::SOLVE, 0, 0, {}}}; }
                else {
                    int n = 0;
                    for (int i = 1; i <= 3; ++i) {
                        Prog q;
                        q.nvars = p.nvars;
                        q.nlits = p.nlits * i / 3;
                        c.parts.push_back(q);
                    }
                    for (auto const &a : p.atoms) {
                        int m = std::abs(a.lit);
                        for (auto const &e : a.elems) { m = std::max(m, std::abs(e.cond)); }
                        int i = m == 0 ? n++ % 3 : 0;
                        while (c.parts[i].nlits < m) { ++i; }
                        c.parts[i].atoms.push_back(a);
                    }
                    int limits[] = {0, 1, 3, -2};
                    c.ops = {{Op::GROUND, 0, 0, {}}, {Op::SOLVE, limits[seed / 2 % 4], 0, {}}, {Op::GROUND, 1, 0, {}}, {Op::SOLVE, limits[seed / 8 % 4], 0, {}}, {Op::GROUND, 2, 0, {}}, {Op::SOLVE, 0, 0, {}}};
                }
                out.push_back(c);
            }
        }
    } else if (family == "wide") {
        // sizes around powers of two
        std::vector<int> sizes = {17, 33, 65};
        if (thorough) { sizes = {16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257}; }
        auto opts = cfgs({"def", "bf", "st conf", "bc sp"}), oopts = cfgs({"o:global", "def", "o:global,1 bf"});
        for (int n : sizes) {
            for (auto const *kind : wide_kinds) {
                auto const *objective = wide_kinds[5];
                for (int strict = 0; strict < (kind == objective ? 1 : 2); ++strict) {
                    for (auto const &o : kind == objective ? oopts : opts) {
                        ++rot;
                        if (!thorough && n > 40 && rot % 2 == 0) { continue; }
                        auto p = wide_program(kind, n, strict != 0);
                        RCase c;
                        c.nvars = p.nvars;
                        c.nlits = p.nlits;
                        c.cfg = o;
                        c.cfg.strict = strict != 0;
                        c.args = sa[rot % sa.size()];
                        c.parts = {p};
                        c.ops = {{Op::GROUND, 0, 0, {}}, {Op::SOLVE, 0, 0, {}}};
                        out.push_back(c);
                    }
                }
            }
        }
    } else if (family == "multishot") {
        // every sequence of operations up to a bound over three parts
        std::vector<std::vector<Prog>> sets;
        auto P = [&](int nl, std::vector<Atom> at) { Prog p; p.nvars = 3; p.nlits = nl; p.atoms = std::move(at); return p; };
        sets.push_back({P(2, {sum({{1, X}}, LE, 1, 1), sum({{1, X}, {1, Y}}, GE, 3, 2)}), P(3, {sum({{1, Y}}, LE, 1, 3), sum({{1, X}}, GE, 0, 0)}), P(3, {sum({{1, X}, {-1, Z}}, EQ, 1, -1), sum({{1, Z}}, GE, 1, 2)})});
        sets.push_back({P(2, {sum({{1, X}}, LE, 1, 0), sum({{1, X}}, GE, 1, 1), sum({{1, Y}}, EQ, 2, 2)}), P(3, {sum({{1, X}, {1, Y}}, LE, 2, 3)}), P(3, {sum({{1, X}, {1, Y}}, LE, 2, -3), sum({{1, X}}, GE, 2, 1)})});
        {
            auto o1 = P(2, {dom(X, 0, 4, 0), sum({{1, X}}, LE, 2, 1), sum({{1, X}, {1, Y}}, LE, 3, 2), obj(Atom::MAX, Terms{{1, X}})});
            auto o2 = P(3, {sum({{1, Y}}, LE, 3, 0), obj(Atom::MIN, Terms{{-1, Y}}), sum({{1, Y}}, LE, 1, 3)});
            auto o3 = P(3, {sum({{1, X}}, LE, 1, -3)});
            sets.push_back({o1, o2, o3});
        }
        {
            // optima below zero that get worse
            auto o1 = P(2, {dom(X, 1, 4, 0), sum({{1, X}}, GE, 2, 1), sum({{1, X}, {1, Y}}, LE, 3, 2), obj(Atom::MIN, Terms{{1, X}})});
            auto o2 = P(3, {sum({{1, Y}}, LE, 0, 0), obj(Atom::MAX, Terms{{1, Y}}), sum({{1, Y}, {1, X}}, LE, 1, 3)});
            auto o3 = P(3, {sum({{1, X}}, GE, 3, -3)});
            sets.push_back({o1, o2, o3});
        }
        {
            // unbounded at first
            auto o1 = P(2, {sum({{1, X}}, LE, 2, 1), sum({{1, X}, {1, Y}}, LE, 3, 2), obj(Atom::MAX, Terms{{1, X}})});
            auto o2 = P(3, {sum({{1, X}}, LE, 4, 0), sum({{1, X}}, LE, 1, 3)});
            auto o3 = P(3, {sum({{1, X}}, LE, 3, -3)});
            sets.push_back({o1, o2, o3});
        }
        sets.push_back({P(2, {csum({{{{1, X}}, 1}, {{{1, -1}}, 2}}, GE, 1, 0), sum({{1, X}}, LE, 2, 0)}), P(3, {csum({{{{1, X}}, 1}, {{{1, Y}}, 3}}, LE, 0, 0), sum({{1, Y}}, GE, 1, 0)}), P(3, {csum({{{{1, X}}, 1}, {{{2, -1}}, 2}}, LE, 1, 3)})});
        std::vector<std::string> cf = {"def", "bf", "st", "conf bc sp", "sm"};
        std::vector<std::string> cfo = {"o:global", "def", "o:global,1", "st", "bf o:global"};
        for (size_t si = 0; si < sets.size(); ++si) {
            int depth = thorough ? 7 : 6;
            bool o = has_objective(sets[si][0]);
            for (size_t e = 0; e < 3; ++e) {
                std::set<int> ext;
                if (e == 1) { ext = {1}; }
                if (e == 2) { ext = {1, 3}; }
                std::vector<Op> ops{{Op::GROUND, 0, 0, {}}};
                std::function<void(int)> rec = [&](int ng) {
                    if (!ops.empty() && ops.back().k == Op::SOLVE) {
                        ++rot;
                        bool full = static_cast<int>(ops.size()) >= depth;
                        if (full) {
                            RCase c;
                            c.nvars = 3;
                            c.nlits = 3;
                            c.parts = sets[si];
                            c.externals = ext;
                            c.cfg = cfg((o ? cfo : cf)[rot % 5]);
                            c.args = sa[(rot / 5) % sa.size()];
                            c.ops = ops;
                            // some of the solve calls before the last one stop early
                            int limits[] = {0, 1, 0, -1, 2, 0, -2, 1};
                            for (size_t i = 0; i + 1 < ops.size(); ++i) { if (ops[i].k == Op::SOLVE) { c.ops[i].a = limits[(rot / 3 + i) % 8]; } }
                            c.ast = rot % 4 == 0;
                            if (thorough || rot % 2 == 0) { out.push_back(c); }
                        }
                    }
                    if (static_cast<int>(ops.size()) >= depth) { return; }
                    bool last = static_cast<int>(ops.size()) + 1 == depth;
                    int nl = sets[si][ng - 1].nlits;
                    if (!last) {
                        if (ng < 3) { ops.push_back({Op::GROUND, ng, 0, {}}); rec(ng + 1); ops.pop_back(); }
                        bool after_ext = ops.back().k == Op::ASSIGN || ops.back().k == Op::RELEASE;
                        if (!after_ext || ext.size() > 1) {
                            for (int x : ext) {
                                if (x > nl || (after_ext && ops.back().a >= x)) { continue; }
                                for (int v : {1, 0, -1}) { ops.push_back({Op::ASSIGN, x, v, {}}); rec(ng); ops.pop_back(); }
                                if (thorough) { ops.push_back({Op::RELEASE, x, 0, {}}); rec(ng); ops.pop_back(); }
                            }
                        }
                    }
                    for (auto const &as : std::vector<std::vector<int>>{{}, {1}, {-1, 2}, {3}}) {
                        bool ok = true;
                        for (int l : as) { ok = ok && std::abs(l) <= nl; }
                        if (!ok) { continue; }
                        if (ops.back().k == Op::SOLVE && ops.back().assume == as && !as.empty()) { continue; }
                        ops.push_back({Op::SOLVE, 0, 0, as});
                        rec(ng);
                        ops.pop_back();
                    }
                };
                rec(1);
            }
        }
    } else { throw std::runtime_error("unknown family " + family); }
    return out;
}

struct RealEngine : hn::Engine {
    std::vector<RCase> cases;
    static constexpr size_t BATCH = 8;
    RealEngine(hn::Args const &a) { 
        cases = make(a.get("family"), a.get("tier", "quick"));
        for (size_t i = 0; i < cases.size(); ++i) { cases[i].names = i % 5 == 3; }
    }
    uint64_t jobs() override { return (cases.size() + BATCH - 1) / BATCH; }
    std::vector<std::string> counters() override { return {"runs", "solve_calls", "models", "callbacks_recorded", "clauses_recorded", "traces_conforming", "conformance_mismatches", "reference_lps", "assignments_compared", "operations", "statistics", "fixpoints_checked", "clauses_checked"}; }
    std::string text(RCase const &c) {
        name_scheme() = c.names;
        std::string s = "[" + c.cfg.str();
        for (auto const &a : c.args) { s += " " + a; }
        s += "] ";
        for (size_t i = 0; i < c.parts.size(); ++i) { if (c.parts.size() > 1) { s += "PART " + std::to_string(i) + ": "; } s += part_text(c, i); }
        if (c.other != nullptr) { return s + " INTERLEAVED " + c.order + " WITH " + text(*c.other); }
        if (c.ops.size() > 2) { s += " OPS:"; for (auto const &o : c.ops) { s += " " + op_text(o) + ","; } s.pop_back(); }
        return s;
    }
    std::string describe(uint64_t j) override { return text(cases[j * BATCH]); }
    void run(uint64_t j, hn::Reporter &rep, std::string const &only) override {
        for (size_t i = j * BATCH; i < std::min(cases.size(), (j + 1) * BATCH); ++i) {
            auto id = std::to_string(i - j * BATCH);
            if (!only.empty() && only != id) { continue; }
            if (rep.stopped()) { return; }
            rep.begin(id);
            rep.count(C_RUNS);
            name_scheme() = cases[i].names;
            try {
                Runner r(cases[i], rep);
                if (cases[i].other == nullptr) { r.run(); }
                else {
                    Runner o(*cases[i].other, rep);
                    auto const &order = cases[i].order;
                    for (size_t k = 0; k < order.size(); ++k) {
                        if (order[k] == 'b') { o.step(); continue; }
                        if (order[k] == 'A') {
                            size_t e = order.find(';', k);
                            size_t n = e - k - 1;
                            r.hook = [&](int models) { if (models == 1) { for (; n > 0; --n) { o.step(); } } };
                            r.step();
                            r.hook = nullptr;
                            for (; n > 0; --n) { o.step(); }
                            k = e;
                            continue;
                        }
                        r.step();
                    }
                }
            }
            catch (Violation const &v) {
                if (rep.counts(v.kind)) { rep.violation(v.kind, v.msg + " | program: " + text(cases[i]), id); return; }
            }
        }
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    RealEngine e(a);
    return hn::main_loop(e, a);
}
