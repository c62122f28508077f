// Stateless exploration of all callback histories (decisions, batches, backjumps, models, solve steps) of the
// real library up to a bound, with an exact oracle.
#include "drive.hh"
#include "harness.hh"
#include "large.hh"
#include <iostream>
#include <unordered_map>

namespace {

enum Counter { C_PATHS, C_EVENTS, C_CALLBACKS, C_CLAUSES, C_CONFLICTS, C_MODELS, C_VALUES, C_LPS, C_ENTAIL, C_UNDOS, C_DECIDE, C_STEPS, C_MAXDEPTH, C_NODES, C_PROGS };

struct Explorer : Monitor {
    Case const &cs;
    Prog const &p;
    Oracle &orc;
    hn::Reporter &rep;
    Mock m;
    TheoryData *td = nullptr;
    std::vector<std::unique_ptr<TheoryBuilder>> *tbs; // theory atoms per step
    size_t prescribed = 0;      // number of choices replayed from the previous history
    //! States along a replayed prefix have been checked by the history that reached them first.
    bool live() const { return pos >= prescribed; }
    std::unique_ptr<TheoryHandle> theory;
    std::vector<int> choices;   // prescribed and made choices
    std::vector<int> widths;
    size_t pos = 0;
    std::string trace;
    bool keep_trace = false;
    int nlits_now = 0;          // boolean variables known in the current step
    size_t step = 0;
    std::vector<size_t> index;  // api index of variable or 0
    std::optional<QE> best;
    bool unbounded = false;
    int nmodels = 0;
    std::vector<Oracle> *step_oracles;
    std::vector<std::set<std::vector<uint64_t>>> *values_ok;
    std::vector<std::vector<size_t>> *index_cache;
    uint64_t fresh = 0;

    Explorer(Case const &c, Oracle &o, hn::Reporter &r) : cs(c), p(c.prog), orc(o), rep(r) { m.mon = this; }

    void log(std::string const &s) { if (keep_trace) { trace += s + "; "; } }
    int choose(int n) {
        if (n <= 0) { throw std::logic_error("choose from nothing"); }
        if (pos == choices.size()) { choices.push_back(0); widths.push_back(n); ++fresh; }
        else if (pos < widths.size()) {
            if (widths[pos] != n) { throw Violation{"nondeterminism", "replay of a prefix diverged"}; }
        } else { widths.push_back(n); }
        if (choices[pos] >= n) { throw Violation{"nondeterminism", "replay of a prefix diverged (choice out of range)"}; }
        return choices[pos++];
    }

    BAss current(MThread const &t) const {
        BAss a(p.nlits + 1, 0);
        for (int i = 1; i <= nlits_now; ++i) { a[i] = t.value(i + 1); }
        // boolean variables of later steps are false: their constraints do not exist yet
        for (int i = nlits_now + 1; i <= p.nlits; ++i) { a[i] = -1; }
        return a;
    }
    Oracle &oracle() { return cs.steps.empty() ? orc : (*step_oracles)[step]; }

    //! May a total assignment be cut off?
    bool removable(BAss const &a) {
        auto &o = oracle();
        if (!o.feasible(a)) { return true; }
        if (!cs.cfg.global() || !has_objective(o.prog()) || (nmodels == 0)) { return false; }
        auto const &opt = o.optimum(a);
        if (unbounded) { return opt.bounded; }
        return opt.bounded && best.has_value() && opt.value < *best + cs.cfg.step();
    }

    void on_clause(MThread *t, std::vector<int> const &c) override {
        (void)t;
        if (!live()) { return; }
        rep.count(C_CLAUSES);
        BAss a(p.nlits + 1, 0);
        for (int i = nlits_now + 1; i <= p.nlits; ++i) { a[i] = -1; }
        bool taut = false, newlit = false;
        for (int l : c) {
            int v = std::abs(l);
            if (v == 1) { if (l > 0) { taut = true; } continue; }
            if (v > nlits_now + 1) {
                if (m.step_var != 0 && v == m.step_var) { if (l > 0) { taut = true; } continue; }
                if (l > 0) { newlit = true; }
                continue; // auxiliary literal, asserted to be true
            }
            int8_t want = l > 0 ? -1 : 1;
            if (a[v - 1] != 0 && a[v - 1] != want) { taut = true; }
            a[v - 1] = want;
        }
        if (taut || newlit) { return; }
        // all completions
        std::vector<int> open;
        for (int i = 1; i <= nlits_now; ++i) { if (a[i] == 0) { open.push_back(i); } }
        for (uint64_t mask = 0; mask < (1ULL << open.size()); ++mask) {
            for (size_t k = 0; k < open.size(); ++k) { a[open[k]] = (mask >> k) & 1 ? 1 : -1; }
            rep.count(C_ENTAIL);
            if (!removable(a)) {
                std::string s = "clause {";
                for (int l : c) { s += " " + (std::abs(l) == 1 ? std::string(l > 0 ? "true" : "false") : std::abs(l) <= nlits_now + 1 ? lit_text(l > 0 ? l - 1 : l + 1) : "aux" + std::to_string(l)); }
                s += " } is not implied: it excludes the consistent assignment";
                for (int i = 1; i <= nlits_now; ++i) { s += " " + lit_text(a[i] > 0 ? i : -i); }
                if (cs.cfg.global()) { s += " with best objective " + (best ? best->str() : "none") + (unbounded ? " (unbounded seen)" : ""); }
                throw_later("entailment", s);
                return;
            }
        }
    }
    //! Violations found inside of C callbacks are raised afterwards.
    std::unique_ptr<Violation> pending;
    void throw_later(std::string k, std::string msg) { if (!pending) { pending = std::make_unique<Violation>(Violation{std::move(k), std::move(msg)}); } }
    void raise() {
        if (pending) { auto v = *pending; pending.reset(); throw v; }
        if (!m.protocol.empty()) { throw Violation{"protocol", m.protocol.front()}; }
    }

    //! Text and value of symbols seen so far (symbols are interned by clingo).
    static QE const &read(clingo_symbol_t sym, std::string const &var) {
        static std::unordered_map<clingo_symbol_t, QE> cache;
        auto it = cache.find(sym);
        if (it != cache.end()) { return it->second; }
        char const *s = nullptr;
        if (!clingo_symbol_string(sym, &s)) { throw Violation{"access", "value of " + var + " is not a string symbol"}; }
        auto q = parse_qe(s);
        if (!q) { throw Violation{"format", std::string("value of ") + var + " is not in canonical form: " + s}; }
        return cache.emplace(sym, *q).first->second;
    }

    std::vector<clingo_symbol_t> vsyms;
    std::vector<QE> values(uint32_t tid) {
        std::vector<QE> r(p.nvars);
        read_symbols(tid);
        for (int v = 0; v < p.nvars; ++v) {
            if (index[v] == 0) { continue; }
            r[v] = read(vsyms[v], var_name(v));
        }
        return r;
    }
    void read_symbols(uint32_t tid) {
        vsyms.assign(p.nvars, 0);
        for (int v = 0; v < p.nvars; ++v) {
            if (index[v] == 0) { continue; }
            clingolpx_value_t val;
            if (!clingolpx_assignment_has_value(theory->t, tid, index[v])) { throw Violation{"access", "no value for " + var_name(v)}; }
            clingolpx_assignment_get_value(theory->t, tid, index[v], &val);
            if (val.type != clingolpx_value_type_symbol) { throw Violation{"access", "value of " + var_name(v) + " is not a string symbol"}; }
            QE q = read(val.symbol, var_name(v));
            if (!cs.cfg.strict && q.k != 0) { throw Violation{"format", std::string("epsilon without strict mode: ") + q.str()}; }
            vsyms[v] = val.symbol;
        }
    }

    void check_values(MThread &t, char const *where, char const *kind) {
        if (!live()) { return; }
        auto a = current(t);
        read_symbols(t.id);
        rep.count(C_VALUES);
        // results for this combination of truth values and values
        auto &good = (*values_ok)[step];
        std::vector<uint64_t> key{Oracle::code(a)};
        for (auto x : vsyms) { key.push_back(x); }
        if (good.count(key) != 0) { return; }
        auto v = values(t.id);
        auto s = oracle().check_values(a, v);
        if (!s.empty()) {
            std::string vs;
            for (int i = 0; i < p.nvars; ++i) { vs += " " + var_name(i) + "=" + v[i].str(); }
            throw Violation{kind, std::string(where) + ": " + s + " by" + vs};
        }
        good.insert(std::move(key));
    }

    void check_decide(MThread &t) {
        if (cs.cfg.select == 0) {
            if (m.prp.decide == nullptr) { return; }
        }
        if (m.prp.decide == nullptr) { throw Violation{"decide", "no decide callback although a sign heuristic is selected"}; }
        auto a = current(t);
        auto v = values(t.id);
        for (int i = 1; i <= nlits_now; ++i) {
            for (int s : {1, -1}) {
                int fb = s * (i + 1);
                clingo_literal_t r = 0;
                tl_thread = &t;
                if (!m.prp.decide(t.id, reinterpret_cast<clingo_assignment_t const *>(&t), fb, m.prp_data, &r)) { throw Violation{"error", "decide failed"}; }
                rep.count(C_DECIDE);
                if (r != fb && r != -fb) { throw Violation{"decide", "decide returned neither the literal nor its negation"}; }
                std::string why;
                int expect = expected_sign(oracle().prog(), cs.cfg, v, i, fb, &why);
                if (expect != 0 && r != expect) {
                    throw Violation{"decide", std::string("select=") + std::array<char const *, 3>{"none", "match", "conflict"}[cs.cfg.select] + ": proposed " + lit_text(s * i) + " but " + lit_text(r > 0 ? r - 1 : r + 1) + " chosen;" + why};
                }
            }
        }
    }

    void observe(MThread &t, bool ok) {
        raise();
        if (ok) {
            auto a = current(t);
            if (live() && !oracle().feasible(a)) {
                std::string s = "propagation succeeded although the constraints of";
                for (int i = 1; i <= nlits_now; ++i) { if (a[i] > 0) { s += " b" + std::to_string(i); } }
                throw Violation{"missed", s + " are unsatisfiable"};
            }
            check_values(t, "after propagation", "values");
            if (cs.decide) { check_decide(t); }
        }
    }

    //! Top-level conflict: nothing may be left.
    void check_unsat(MThread &t) {
        raise();
        BAss a = current(t);
        // only literals on level 0 (and the root level) count
        std::vector<int> open;
        for (int i = 1; i <= nlits_now; ++i) {
            if (a[i] != 0 && t.lev[i + 1] > t.root_level) { a[i] = 0; }
        }
        // propagated literals are consequences; enumerate all assignments compatible with forced events only
        auto is_forced = [&](int l) { return forced.count(l) != 0 || forced_root.count(l) != 0; };
        for (int i = 1; i <= nlits_now; ++i) { if (!is_forced(i + 1) && !is_forced(-(i + 1))) { open.push_back(i); } else { a[i] = is_forced(i + 1) ? 1 : -1; } }
        for (uint64_t mask = 0; mask < (1ULL << open.size()); ++mask) {
            for (size_t k = 0; k < open.size(); ++k) { a[open[k]] = (mask >> k) & 1 ? 1 : -1; }
            bool ok = true;
            for (auto const &c : p.clauses) {
                bool sat = false;
                for (int l : c) { sat = sat || bval(a, l) > 0; }
                ok = ok && sat;
            }
            if (ok && !removable(a)) {
                std::string s = "the problem was found unsatisfiable although there is a solution for";
                for (int i = 1; i <= nlits_now; ++i) { s += " " + lit_text(a[i] > 0 ? i : -i); }
                throw Violation{"entailment", s};
            }
        }
    }
    std::set<int> forced_root; // same for the root level of the current step
    std::set<int> forced; // solver literals asserted on level 0 by the environment

    void model(MThread &t) {
        raise();
        auto a = current(t);
        check_values(t, "in a model", "values");
        if (live() && !oracle().feasible(a)) { throw Violation{"missed", "model with unsatisfiable constraints"}; }
        rep.count(C_MODELS);
        MModel mm{&m, t.id, {}};
        tl_thread = &t;
        on_sched("on_model");
        if (!clingolpx_on_model(theory->t, reinterpret_cast<clingo_model_t *>(&mm))) { throw Violation{"error", std::string("on_model failed: ") + clingo_error_message()}; }
        raise();
        bool has = has_objective(oracle().prog());
        if (!live() && !has) { ++nmodels; return; }
        read_symbols(t.id);
        // reported symbols
        std::map<std::string, int> seen;
        std::optional<QE> obj;
        bool bounded = true;
        int nobj = 0;
        for (auto s : mm.ext) {
            char const *name = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t n = 0;
            if (clingo_symbol_type(s) != clingo_symbol_type_function || !clingo_symbol_name(s, &name) || !clingo_symbol_arguments(s, &args, &n) || n != 2) { throw Violation{"access", "unexpected symbol in the model"}; }
            if (std::strcmp(name, "__lpx") == 0) {
                char const *vn = nullptr, *vs = nullptr;
                if (clingo_symbol_type(args[0]) != clingo_symbol_type_function || clingo_symbol_type(args[1]) != clingo_symbol_type_string) { throw Violation{"access", "internal variable or bad value reported in the model"}; }
                clingo_symbol_name(args[0], &vn);
                clingo_symbol_string(args[1], &vs);
                bool found = false;
                for (int i = 0; i < p.nvars; ++i) {
                    if (var_name(i) == vn) {
                        found = true;
                        if (seen[vn]++ != 0) { throw Violation{"access", std::string("variable reported twice: ") + vn}; }
                        if (vsyms[i] != args[1]) { throw Violation{"access", std::string("model reports ") + vn + "=" + vs + " but the assignment has " + (index[i] == 0 ? "none" : read(vsyms[i], vn).str())}; }
                    }
                }
                if (!found) { throw Violation{"access", std::string("unknown variable reported: ") + vn}; }
            } else if (std::strcmp(name, "__lpx_objective") == 0) {
                char const *vs = nullptr;
                int b = 0;
                if (!clingo_symbol_string(args[0], &vs) || !clingo_symbol_number(args[1], &b)) { throw Violation{"access", "bad objective symbol"}; }
                ++nobj;
                obj = parse_qe(vs);
                if (!obj) { throw Violation{"format", std::string("objective not canonical: ") + vs}; }
                bounded = b != 0;
            } else { throw Violation{"access", std::string("unexpected symbol ") + name}; }
        }
        for (int i = 0; i < p.nvars; ++i) { if (index[i] != 0 && seen[var_name(i)] != 1) { throw Violation{"access", "variable missing in the model: " + var_name(i)}; } }
        std::string log_obj;
        if (has) {
            bool trivial = true; // all coefficients cancel: no objective reported
            std::vector<Q> o;
            oracle().system(a, &o);
            bool any = any_objective_term();
            for (auto const &q : o) { trivial = trivial && q == 0; }
            if (nobj > 1 || (nobj == 0 && any)) { throw Violation{"objective", "objective value reported " + std::to_string(nobj) + " times"}; }
            if (nobj == 1) {
                auto const &opt = oracle().optimum(a);
                log_obj = obj->str() + (bounded ? "" : " unbounded");
                QE here = oracle().objective(a, values(t.id));
                if (here != *obj) { throw Violation{"objective", "reported objective " + obj->str() + " differs from its value " + here.str() + " under the reported assignment"}; }
                if (bounded != opt.bounded) { throw Violation{"objective", std::string("objective reported ") + (bounded ? "bounded" : "unbounded") + " but it is not"}; }
                if (opt.bounded && *obj != opt.value) { throw Violation{"objective", "reported optimum " + obj->str() + " but the optimum is " + opt.value.str()}; }
                if (cs.cfg.global()) {
                    if (unbounded && bounded) { throw Violation{"global", "bounded model after an unbounded one"}; }
                    if (!unbounded && bounded && best && *obj < *best + cs.cfg.step()) { throw Violation{"global", "model with objective " + obj->str() + " after one with " + best->str()}; }
                    if (bounded && !unbounded) { if (!best || *obj > *best) { best = *obj; } }
                    if (!bounded) { unbounded = true; }
                }
            }
        } else if (nobj != 0) { throw Violation{"objective", "objective reported without objective statement"}; }
        ++nmodels;
        log("model " + log_obj);
    }
    bool any_objective_term() {
        // is there a variable with a non-zero coefficient in the collected objective?
        std::map<std::pair<int, int>, Q> co;
        for (auto const &at : oracle().prog().atoms) {
            if (at.kind != Atom::MIN && at.kind != Atom::MAX) { continue; }
            for (auto const &e : at.elems) { for (auto const &t : e.terms) { co[{t.var, e.cond}] += at.kind == Atom::MAX ? t.co : Q(-t.co); } }
        }
        for (auto const &[k, c] : co) { if (c != 0) { return true; } }
        return false;
    }

    //! Complete the assignment and run the model check like clasp does. Returns: 0 conflict, 1 open, 2 model.
    int complete(MThread &t) {
        for (int round = 0; round < 200; ++round) {
            if (!t.fixpoint()) { return 0; }
            raise();
            if (!t.total()) { return 1; }
            if ((m.check_mode & clingo_propagator_check_mode_total) != 0) {
                size_t n = t.trail.size();
                t.in_model_check = true;
                t.callback_check();
                t.in_model_check = false;
                raise();
                if (!t.resolve_todo()) { return 0; }
                if (!t.total()) { return 1; }
                if (t.prop != t.wtrail.size() || t.trail.size() != n) { continue; }
            }
            model(t);
            return 2;
        }
        throw Violation{"hang", "the model check does not stabilise"};
    }

    void lookup() {
        index.assign(p.nvars, 0);
        for (int v = 0; v < p.nvars; ++v) {
            clingo_symbol_t s;
            clingo_symbol_create_id(var_name(v).c_str(), true, &s);
            size_t i = 0;
            if (clingolpx_lookup_symbol(theory->t, s, &i)) {
                if (i == 0) { throw Violation{"access", "index 0 returned for a variable"}; }
                index[v] = i;
                if (clingolpx_get_symbol(theory->t, i) != s) { throw Violation{"access", "symbol and index do not correspond"}; }
            }
        }
        // variables which occur in some constraint must be known
        for (auto const &at : oracle().prog().atoms) {
            std::map<std::pair<int, int>, Q> co;
            for (auto const &e : at.elems) { for (auto const &t : e.terms) { co[{t.var, e.cond}] += t.co; } }
            for (auto const &t : at.guard.terms) { co[{t.var, 0}] -= t.co; }
            for (auto const &[k, c] : co) {
                if (k.first >= 0 && k.second == 0 && c != 0 && index[k.first] == 0 && at.kind != Atom::MIN && at.kind != Atom::MAX) { throw Violation{"access", "variable " + var_name(k.first) + " has no index"}; }
            }
        }
        // iteration visits exactly the known variables
        size_t it = 0, n = 0;
        clingolpx_assignment_begin(theory->t, 0, &it);
        std::set<size_t> got;
        while (clingolpx_assignment_next(theory->t, 0, &it)) {
            if (++n > 1000) { throw Violation{"access", "iteration does not end"}; }
            if (!got.insert(it).second) { throw Violation{"access", "index visited twice"}; }
        }
        for (int v = 0; v < p.nvars; ++v) { if (index[v] != 0 && got.erase(index[v]) == 0) { throw Violation{"access", "variable not visited by iteration"}; } }
        if (!got.empty()) { throw Violation{"access", "iteration visits an internal variable"}; }
    }

    bool begin_step() {
        // problem variables of this step
        nlits_now = cs.steps.empty() ? p.nlits : cs.steps[step].nlits;
        int n = nlits_now + 1;
        if (cs.cfg.incremental) { ++n; }
        m.step_var = cs.cfg.incremental ? n : 0;
        m.nvars = n;
        for (auto &t : m.threads) { t.val.resize(n + 1, 0); t.lev.resize(n + 1, 0); t.root_level = 0; }
        auto const &sp = cs.steps.empty() ? p : cs.steps[step].part;
        if (tbs->size() <= step) {
            auto tb = std::make_unique<TheoryBuilder>();
            for (auto const &a : sp.atoms) { tb->atom(a); }
            tbs->push_back(std::move(tb));
        }
        m.theory = &(*tbs)[step]->d;
        m.lit_map = [](int l) { return TheoryBuilder::solver(l); };
        for (int f : sp.facts) {
            int l = f > 0 ? f + 1 : f - 1;
            forced.insert(l);
            for (auto &t : m.threads) { if (t.value(l) == 0) { t.assign(l); } else if (t.value(l) < 0) { return false; } }
        }
        for (auto const &c : sp.clauses) {
            std::vector<int> d;
            for (int l : c) { d.push_back(l > 0 ? l + 1 : l - 1); }
            m.shared_db.push_back(d);
        }
        nmodels = 0;
        best.reset();
        unbounded = false;
        rep.count(C_STEPS);
        bool ok = m.init_step();
        raise();
        if (!ok) { return false; }
        if (live() || index_cache->size() <= step) {
            lookup();
            index_cache->resize(std::max(index_cache->size(), step + 1));
            (*index_cache)[step] = index;
        } else { index = (*index_cache)[step]; }
        return true;
    }

    //! Undo with the check that afterwards the values satisfy what is left.
    void backjump(MThread &t, uint32_t k) {
        t.undo_to(k);
        rep.count(C_UNDOS);
        raise();
        check_values(t, "after backjumping", "values");
    }

    void run() {
        theory = std::make_unique<TheoryHandle>();
        configure(theory->t, cs.cfg);
        m.setup(1, 1);
        if (!clingolpx_register(theory->t, reinterpret_cast<clingo_control_t *>(&m)) || !m.registered) { throw Violation{"error", "register failed"}; }
        auto &t = m.threads[0];
        step = 0;
        if (!begin_step()) { check_unsat(t); return; }
        bool ok = t.fixpoint();
        if (ok && cs.cfg.incremental) { t.new_level(m.step_var); t.root_level = 1; ok = t.fixpoint(); }
        observe(t, ok);
        int undos = 0;
        bool was_model = false;
        for (int ev = 0;; ++ev) {
            rep.count(C_EVENTS);
            if (ev > 64) { throw std::logic_error("horizon"); }
            uint32_t root = t.root_level;
            if (!ok && t.dl() <= root) { check_unsat(t); if (!next_step(t, ok)) { return; } was_model = false; continue; }
            // enabled events, simplest first
            struct E { char k; int a, b; };
            std::vector<E> es;
            bool last = ev >= cs.horizon;
            std::vector<int> open;
            for (int v = 2; v <= nlits_now + 1; ++v) { if (t.value(v) == 0) { open.push_back(v); } }
            if (ok && !was_model) {
                if (!last) {
                    for (int v : open) {
                        if (cs.pos) { es.push_back({'D', v, 0}); }
                        if (cs.neg) { es.push_back({'D', -v, 0}); }
                    }
                    if (cs.batch) { for (int v : open) { for (int w : open) { if (v != w && (cs.batch > 1 || v < w)) { es.push_back({'B', v, w}); } } } }
                    if (cs.extend) { for (int v : open) { if (t.dl() > root || cs.extend > 1) { es.push_back({'X', v, 0}); if (cs.neg) { es.push_back({'X', -v, 0}); } } } }
                    if (cs.mid_models) { es.push_back({'T', 0, 0}); }
                    if (undos < cs.max_undo) { for (uint32_t k = root; k < t.dl(); ++k) { es.push_back({'U', static_cast<int>(k), 0}); } }
                } else { es.push_back({'T', 0, 0}); }
            } else {
                // conflict or model: backjump or stop here
                if (!last && undos < cs.max_undo) { for (uint32_t k = root; k < t.dl(); ++k) { es.push_back({'U', static_cast<int>(k), 0}); } }
                if (was_model && t.dl() <= root && !last) {
                    // model on the root level: the search is finished
                    if (!next_step(t, ok)) { return; }
                    was_model = false;
                    continue;
                }
            }
            if (es.empty()) {
                if (!next_step(t, ok)) { return; }
                was_model = false;
                continue;
            }
            if (!cs.steps.empty() && step + 1 < cs.steps.size() && !last) { es.push_back({'S', 0, 0}); }
            auto e = es[choose(static_cast<int>(es.size()))];
            switch (e.k) {
                case 'D':
                    log("decide " + lit_text(e.a > 0 ? e.a - 1 : e.a + 1));
                    t.new_level(e.a);
                    ok = t.fixpoint();
                    observe(t, ok);
                    was_model = false;
                    break;
                case 'B':
                    log("decide b" + std::to_string(e.a - 1) + " with b" + std::to_string(e.b - 1));
                    t.new_level(e.a);
                    t.assign(e.b);
                    ok = t.fixpoint();
                    observe(t, ok);
                    was_model = false;
                    break;
                case 'X':
                    log("assign " + lit_text(e.a > 0 ? e.a - 1 : e.a + 1) + " on level " + std::to_string(t.dl()));
                    if (t.dl() == 0) { forced.insert(e.a); }
                    else if (t.dl() <= root) { forced_root.insert(e.a); }
                    t.assign(e.a);
                    ok = t.fixpoint();
                    observe(t, ok);
                    was_model = false;
                    break;
                case 'U':
                    log("backjump to " + std::to_string(e.a));
                    ++undos;
                    {
                        bool aftermodel = was_model;
                        backjump(t, e.a);
                        if (aftermodel && cs.bt) { t.bt_level = e.a; }
                        ok = t.fixpoint();
                    }
                    observe(t, ok);
                    was_model = false;
                    break;
                case 'T': {
                    log("complete");
                    if (!open.empty()) {
                        t.new_level(-open[0]);
                        for (size_t i = 1; i < open.size(); ++i) { if (t.value(open[i]) == 0) { t.assign(-open[i]); } }
                    }
                    int r = complete(t);
                    raise();
                    ok = r != 0;
                    was_model = r == 2;
                    observe(t, ok);
                    break;
                }
                case 'S':
                    if (!next_step(t, ok)) { return; }
                    was_model = false;
                    break;
            }
        }
    }
    bool next_step(MThread &t, bool &ok) {
        if (cs.steps.empty() || step + 1 >= cs.steps.size()) { return false; }
        if (!ok && t.dl() == 0) { return false; }
        log("next solve step");
        m.end_step();
        raise();
        check_values(t, "after the solve call", "values");
        ++step;
        forced_next();
        if (!begin_step()) { check_unsat(t); return false; }
        ok = t.fixpoint();
        if (ok && cs.cfg.incremental) { t.new_level(m.step_var); t.root_level = 1; ok = t.fixpoint(); }
        observe(t, ok);
        return true;
    }
    void forced_next() { forced_root.clear(); }
};

struct CoreEngine : hn::Engine {
    std::vector<Case> cases;
    std::string family;
    CoreEngine(hn::Args const &a) { cases = fam::make_all_cases(a.get("family"), a.get("tier", "quick")); int less = a.num("less", 0); for (auto &c : cases) { c.horizon = std::max(std::min(3, c.horizon), c.horizon - less); } }
    uint64_t jobs() override { return cases.size(); }
    std::vector<std::string> counters() override {
        return {"histories", "events", "callbacks", "clauses", "conflicts", "models", "value_checks", "reference_lps", "entailment_checks", "backjumps", "decide_checks", "solve_steps", "max_depth", "transitions", "programs"};
    }
    std::string describe(uint64_t j) override {
        auto const &c = cases[j];
        std::string s = "[" + c.cfg.str() + "] ";
        if (c.steps.empty()) { return s + prog_text(c.prog); }
        for (auto const &st : c.steps) { s += "STEP: " + prog_text(st.part) + " "; }
        return s;
    }
    void run(uint64_t j, hn::Reporter &rep, std::string const &only) override {
        auto const &c = cases[j];
        Oracle orc(c.prog);
        std::vector<Oracle> so;
        for (auto const &s : c.steps) { so.emplace_back(s.all); }
        rep.count(C_PROGS);
        std::vector<std::unique_ptr<TheoryBuilder>> tbs;
        std::vector<std::set<std::vector<uint64_t>>> values_ok(std::max<size_t>(1, c.steps.size()));
        std::vector<std::vector<size_t>> index_cache;
        std::vector<int> choices, widths;
        if (!only.empty()) {
            std::istringstream in(only);
            std::string w;
            while (std::getline(in, w, ',')) { if (!w.empty() && w != "-") { choices.push_back(std::stoi(w)); } }
        }
        for (;;) {
            std::string cur;
            for (int x : choices) { cur += std::to_string(x) + ","; }
            rep.begin(cur.empty() ? "-" : cur);
            Explorer e(c, orc, rep);
            e.choices = choices;
            e.widths = widths;
            e.step_oracles = &so;
            e.tbs = &tbs;
            e.values_ok = &values_ok;
            e.index_cache = &index_cache;
            e.prescribed = only.empty() ? choices.size() : 0;
            e.keep_trace = !only.empty();
            bool bad = false;
            Violation v;
            try { e.run(); }
            catch (Violation const &x) { bad = true; v = x; }
            if (bad && rep.counts(v.kind)) {
                std::string cc;
                for (size_t i = 0; i < e.pos; ++i) { cc += std::to_string(e.choices[i]) + ","; }
                rep.violation(v.kind, v.msg + (e.trace.empty() ? "" : " | history: " + e.trace), cc.empty() ? "-" : cc);
                return;
            }
            rep.count(C_PATHS);
            rep.count(C_NODES, e.fresh);
            rep.count(C_CALLBACKS, e.m.threads[0].callbacks);
            rep.count(C_CONFLICTS, e.m.threads[0].conflicts);
            if (!only.empty() || rep.stopped()) { break; }
            // next path
            e.choices.resize(e.pos);
            e.widths.resize(e.pos);
            choices = e.choices;
            widths = e.widths;
            while (!choices.empty() && choices.back() + 1 >= widths.back()) { choices.pop_back(); widths.pop_back(); }
            if (choices.empty()) { break; }
            ++choices.back();
        }
        rep.count(C_LPS, orc.lps);
        for (auto &o : so) { rep.count(C_LPS, o.lps); }
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    CoreEngine e(a);
    return hn::main_loop(e, a);
}
