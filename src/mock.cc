#include "mock.hh"
#include <algorithm>

thread_local MThread *tl_thread = nullptr;
static void nop() {}
void (*mock_lib_enter)() = nop;
void (*mock_lib_leave)() = nop;

void MThread::reset() {
    val.assign(m->nvars + 1, 0);
    lev.assign(m->nvars + 1, 0);
    trail.clear();
    level_begin.assign(1, 0);
    decision.assign(1, 0);
    db.clear();
    watches.clear();
    wtrail.clear();
    wbegin.assign(1, 0);
    check_undo.assign(1, 0);
    prop = 0;
    fix_checked = SIZE_MAX;
    conflict = todo = top_conflict = false;
    bt_level = root_level = 0;
    fresh = 0;
    assign(1);
}

void MThread::assign(int l) {
    int v = std::abs(l);
    ensure(v);
    if (value(l) != 0) { throw std::logic_error("mock: reassigning literal"); }
    val[v] = l > 0 ? 1 : -1;
    lev[v] = dl();
    trail.push_back(l);
    if (watches.count(l) != 0) { wtrail.push_back(l); }
}

void MThread::new_level(int d) {
    level_begin.push_back(trail.size());
    wbegin.push_back(wtrail.size());
    decision.push_back(d);
    check_undo.push_back(0);
    assign(d);
}

bool MThread::unit_propagate() {
    if (conflict) { return false; }
    for (bool changed = true; changed;) {
        changed = false;
        std::vector<std::vector<int>> const *both[] = {&m->shared_db, &db};
        for (auto const *cs : both) {
            for (auto const &c : *cs) {
                int unit = 0;
                bool sat = false;
                int open = 0;
                for (int l : c) {
                    auto v = value(l);
                    if (v > 0) { sat = true; break; }
                    if (v == 0) { ++open; unit = l; }
                }
                if (sat || open > 1) { continue; }
                if (open == 0) { conflict = true; return false; }
                assign(unit);
                changed = true;
            }
        }
    }
    return true;
}

void MThread::undo_to(uint32_t level) {
    while (dl() > level) {
        uint32_t l = dl();
        size_t wb = wbegin[l];
        for (size_t i = level_begin[l]; i < trail.size(); ++i) { val[std::abs(trail[i])] = 0; }
        trail.resize(level_begin[l]);
        conflict = false;
        bool deliver = prop > wb || (m->undo_mode == clingo_propagator_undo_mode_always && check_undo[l]);
        if (deliver && m->prp.undo != nullptr) {
            std::vector<clingo_literal_t> ch(wtrail.begin() + wb, wtrail.begin() + std::max(wb, prop));
            in_callback = true;
            tl_thread = this;
            if (m->mon) { m->mon->on_sched("undo"); }
            ++callbacks;
            mock_lib_enter();
m->prp.undo(reinterpret_cast<clingo_propagate_control_t const *>(this), ch.data(), ch.size(), m->prp_data);
mock_lib_leave();
            in_callback = false;
        }
        if (prop > wb) { prop = wb; }
        wtrail.resize(wb);
        level_begin.pop_back();
        wbegin.pop_back();
        decision.pop_back();
        check_undo.pop_back();
        fix_checked = SIZE_MAX;
    }
    if (bt_level > level) { bt_level = level; }
}

bool MThread::add_clause(std::vector<int> c) {
    // normalise
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    for (int l : c) { if (l > 0 && std::binary_search(c.begin(), c.end(), -l)) { return !conflict; } }
    for (int l : c) { if (value(l) > 0 && lev[std::abs(l)] == 0) { return !conflict; } }
    c.erase(std::remove_if(c.begin(), c.end(), [&](int l) { return value(l) < 0 && lev[std::abs(l)] == 0; }), c.end());
    int unassigned = 0, ntrue = 0, tl = 0, ul = 0;
    uint32_t mx = 0;
    for (int l : c) {
        if (value(l) == 0) { ++unassigned; ul = l; }
        else if (value(l) > 0) { ++ntrue; tl = l; }
        else { mx = std::max(mx, lev[std::abs(l)]); }
    }
    ++clauses_added;
    if (ntrue > 1 || unassigned > 1 || (ntrue == 1 && unassigned > 0)) { db.push_back(c); return true; }
    if (ntrue == 1) {
        if (lev[std::abs(tl)] > mx && mx < dl() && dl() > bt_level && !in_init) {
            todo = true; todo_clause = c; todo_level = mx;
            return false;
        }
        db.push_back(c);
        return true;
    }
    if (mx < dl() && dl() > bt_level && !in_init) {
        todo = true; todo_clause = c; todo_level = mx;
        return false;
    }
    db.push_back(c);
    if (unassigned == 1) { assign(ul); return true; }
    conflict = true;
    ++conflicts;
    return false;
}

bool MThread::resolve_todo() {
    refused = false;
    if (conflict) { todo = false; return false; }
    if (!todo) { return true; }
    todo = false;
    ++backjumps;
    undo_to(std::max(todo_level, bt_level));
    auto c = todo_clause;
    int unassigned = 0, ntrue = 0, ul = 0;
    for (int l : c) {
        if (value(l) == 0) { ++unassigned; ul = l; }
        else if (value(l) > 0) { ++ntrue; }
    }
    // literals above the assertion level vanish with the backjump, aux ones stay
    db.push_back(c);
    if (ntrue == 0 && unassigned == 1) { assign(ul); }
    else if (ntrue == 0 && unassigned == 0) { conflict = true; ++conflicts; return false; }
    return true;
}

bool MThread::callback_propagate() {
    std::vector<clingo_literal_t> ch(wtrail.begin() + prop, wtrail.end());
    prop = wtrail.size();
    if (m->prp.propagate == nullptr) { return true; }
    in_callback = true;
    refused = false;
    tl_thread = this;
    if (m->mon) { m->mon->on_sched("propagate"); }
    ++callbacks;
    mock_lib_enter();
bool ret = m->prp.propagate(reinterpret_cast<clingo_propagate_control_t *>(this), ch.data(), ch.size(), m->prp_data);
mock_lib_leave();
    in_callback = false;
    if (!ret) { m->cb_error = clingo_error_message() ? clingo_error_message() : "?"; throw Violation{"error", "propagate callback failed: " + m->cb_error}; }
    return true;
}

bool MThread::callback_check() {
    if (m->prp.check == nullptr) { return true; }
    in_callback = true;
    refused = false;
    tl_thread = this;
    if (m->mon) { m->mon->on_sched("check"); }
    check_undo[dl()] = 1;
    ++callbacks;
    mock_lib_enter();
bool ret = m->prp.check(reinterpret_cast<clingo_propagate_control_t *>(this), m->prp_data);
mock_lib_leave();
    in_callback = false;
    if (!ret) { m->cb_error = clingo_error_message() ? clingo_error_message() : "?"; throw Violation{"error", "check callback failed: " + m->cb_error}; }
    return true;
}

bool MThread::fixpoint() {
    for (int guard = 0;; ++guard) {
        if (guard > 10000) { throw Violation{"hang", "propagation does not reach a fixpoint"}; }
        if (!unit_propagate()) { return false; }
        if (prop != wtrail.size()) { callback_propagate(); }
        else if ((m->check_mode & clingo_propagator_check_mode_fixpoint) != 0 && fix_checked != trail.size()) {
            fix_checked = trail.size();
            callback_check();
        } else { return true; }
        if (!resolve_todo()) { return false; }
    }
}

void Mock::setup(int n, int nthreads) {
    nvars = n;
    threads.clear();
    threads.resize(nthreads);
    shared_db.clear();
    protocol.clear();
    cb_error.clear();
    check_mode = clingo_propagator_check_mode_total;
    undo_mode = clingo_propagator_undo_mode_default;
    for (int i = 0; i < nthreads; ++i) {
        threads[i].m = this;
        threads[i].id = i;
        threads[i].reset();
    }
}

bool Mock::init_step() {
    auto &t = threads[0];
    t.in_init = true;
    t.todo = false;
    t.refused = false;
    tl_thread = &t;
    if (mon) { mon->on_sched("init"); }
    mock_lib_enter();
bool ret = prp.init(reinterpret_cast<clingo_propagate_init_t *>(this), prp_data);
mock_lib_leave();
    t.in_init = false;
    t.refused = false;
    if (!ret) { cb_error = clingo_error_message() ? clingo_error_message() : "?"; throw Violation{"error", "init callback failed: " + cb_error}; }
    if (t.conflict) { t.top_conflict = true; return false; }
    // literals made true during initialisation hold in all threads
    for (size_t i = 1; i < threads.size(); ++i) {
        auto &o = threads[i];
        for (int l : t.trail) {
            if (o.value(l) == 0) { o.assign(l); }
            else if (o.value(l) < 0) { o.top_conflict = o.conflict = true; return false; }
        }
    }
    return true;
}

void Mock::resize_threads(int n) {
    auto old = static_cast<int>(threads.size());
    threads.resize(n);
    for (int i = old; i < n; ++i) {
        auto &t = threads[i];
        t.m = this;
        t.id = i;
        t.reset();
        for (int l : threads[0].trail) { if (t.value(l) == 0) { t.assign(l); } }
    }
}

void Mock::end_step() {
    for (auto &t : threads) {
        t.undo_to(0);
        // literals introduced during search are removed together with the clauses over them
        int lim = nvars;
        t.db.erase(std::remove_if(t.db.begin(), t.db.end(), [&](std::vector<int> const &c) {
            return std::any_of(c.begin(), c.end(), [&](int l) { return std::abs(l) > lim || (step_var != 0 && std::abs(l) == step_var); });
        }), t.db.end());
        auto gone = [&](int l) { return std::abs(l) > lim; };
        t.trail.erase(std::remove_if(t.trail.begin(), t.trail.end(), gone), t.trail.end());
        size_t del = std::count_if(t.wtrail.begin(), t.wtrail.begin() + t.prop, gone);
        t.wtrail.erase(std::remove_if(t.wtrail.begin(), t.wtrail.end(), gone), t.wtrail.end());
        t.prop -= del;
        for (auto it = t.watches.begin(); it != t.watches.end();) { if (gone(*it)) { it = t.watches.erase(it); } else { ++it; } }
        t.val.resize(nvars + 1);
        t.lev.resize(nvars + 1);
        t.fresh = 0;
        t.bt_level = 0;
        t.fix_checked = SIZE_MAX;
    }
}

// --------------------------------------------------------------------------------------------------------
// C API

static Mock *g_mock_of(void const *p) { return static_cast<Mock *>(const_cast<void *>(p)); }
static MThread *th(void const *p) { return static_cast<MThread *>(const_cast<void *>(p)); }
static bool fail(clingo_error_t code, char const *msg) { clingo_set_error(code, msg); return false; }

extern "C" {

bool clingo_control_add(clingo_control_t *c, char const *, char const *const *, size_t, char const *program) {
    reinterpret_cast<Mock *>(c)->added_theory = program;
    return true;
}
bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool) {
    auto *m = reinterpret_cast<Mock *>(c);
    m->prp = *p;
    m->prp_data = data;
    m->registered = true;
    return true;
}

// init
bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t a, clingo_literal_t *s) {
    *s = g_mock_of(i)->lit_map(a);
    return true;
}
static void add_watch(MThread &t, int l) {
    if (std::abs(l) > static_cast<int>(t.val.size()) - 1 || l == 0) { t.m->protocol_error("watch on unknown literal"); return; }
    if (!t.watches.insert(l).second) { return; }
    // already true on an earlier point: delivered with the next propagation
    if (t.value(l) > 0 && std::find(t.wtrail.begin(), t.wtrail.end(), l) == t.wtrail.end()) { t.wtrail.push_back(l); }
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (auto &t : g_mock_of(i)->threads) { add_watch(t, l); }
    return true;
}
bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t id) {
    auto *m = g_mock_of(i);
    if (id >= m->threads.size()) { return fail(clingo_error_runtime, "invalid thread"); }
    add_watch(m->threads[id], l);
    return true;
}
bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (auto &t : g_mock_of(i)->threads) { t.watches.erase(l); }
    return true;
}
bool clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t id) {
    g_mock_of(i)->threads[id].watches.erase(l);
    return true;
}
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
bool clingo_propagate_init_symbolic_atoms(clingo_propagate_init_t const *, clingo_symbolic_atoms_t const **a) { *a = nullptr; return true; }
bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) {
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(g_mock_of(i)->theory);
    return true;
}
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return g_mock_of(i)->threads.size(); }
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t mode) { g_mock_of(i)->check_mode = mode; }
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return g_mock_of(i)->check_mode; }
void clingo_propagate_init_set_undo_mode(clingo_propagate_init_t *i, clingo_propagator_undo_mode_t mode) { g_mock_of(i)->undo_mode = mode; }
clingo_propagator_undo_mode_t clingo_propagate_init_get_undo_mode(clingo_propagate_init_t const *i) { return g_mock_of(i)->undo_mode; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    return reinterpret_cast<clingo_assignment_t const *>(&g_mock_of(i)->threads[0]);
}
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) {
    auto *m = g_mock_of(i);
    ++m->nvars;
    for (auto &t : m->threads) { t.ensure(m->nvars); }
    *r = m->nvars;
    return true;
}
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *result) {
    auto *m = g_mock_of(i);
    auto &t = m->threads[0];
    std::vector<int> cl(c, c + n);
    for (int l : cl) { if (l == 0 || std::abs(l) > m->nvars) { m->protocol_error("init clause over unknown literal"); } }
    if (t.refused) { m->protocol_error("clause added to a conflicting problem during init"); }
    if (m->mon) { m->mon->on_clause(&t, cl); }
    *result = t.add_clause(cl);
    if (!*result) { t.refused = true; }
    // init clauses are part of the problem
    if (!t.db.empty() && *result) {
        for (auto &d : t.db) { m->shared_db.push_back(d); }
        t.db.clear();
    }
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *result) {
    auto *m = g_mock_of(i);
    *result = m->threads[0].unit_propagate();
    if (!*result) { m->threads[0].refused = true; }
    return true;
}
bool clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t, clingo_weighted_literal_t const *, size_t, clingo_weight_t, clingo_weight_constraint_type_t, bool, bool *) {
    return fail(clingo_error_runtime, "mock: weight constraints not supported");
}
bool clingo_propagate_init_add_minimize(clingo_propagate_init_t *, clingo_literal_t, clingo_weight_t, clingo_weight_t) {
    return fail(clingo_error_runtime, "mock: minimize not supported");
}

// control
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return th(c)->id; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    return reinterpret_cast<clingo_assignment_t const *>(c);
}
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) {
    auto *t = th(c);
    if (t->m->mon) { t->m->mon->on_sched("add_literal"); }
    if (t->refused) { t->m->protocol_error("literal added after a refused clause"); }
    ++t->fresh;
    t->ensure(t->m->nvars + t->fresh);
    *r = t->m->nvars + t->fresh;
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) { add_watch(*th(c), l); return true; }
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return th(c)->watches.count(l) != 0; }
void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { th(c)->watches.erase(l); }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t, bool *result) {
    auto *t = th(c);
    auto *m = t->m;
    std::vector<int> lits(cl, cl + n);
    if (m->mon) { m->mon->on_sched("add_clause"); }
    if (!t->in_callback) { m->protocol_error("clause added outside of a callback"); }
    if (t->refused) {
        // clingo reports an error here
        m->protocol_error("clause added after a refused clause or conflict in the same callback");
        return fail(clingo_error_logic, "Assignment not propagated");
    }
    bool aux = false;
    for (int l : lits) {
        if (l == 0 || std::abs(l) >= static_cast<int>(t->val.size())) { m->protocol_error("clause over unknown literal"); return fail(clingo_error_logic, "unknown literal"); }
        aux = aux || std::abs(l) > m->nvars;
    }
    if (m->mon) { m->mon->on_clause(t, lits); }
    if (aux && m->step_var != 0) { lits.push_back(-m->step_var); }
    *result = t->add_clause(lits);
    if (!*result) { t->refused = true; }
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *result) {
    auto *t = th(c);
    if (t->m->mon) { t->m->mon->on_sched("ctl_propagate"); }
    if (t->conflict || t->todo) { *result = false; t->refused = true; return true; }
    size_t n = t->trail.size();
    *result = t->unit_propagate();
    // in a model check pending propagation ends the check
    if (t->in_model_check && (t->prop != t->wtrail.size() || t->trail.size() != n)) { *result = false; }
    if (!*result) { t->refused = true; }
    return true;
}

// assignment
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return th(a)->dl(); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *a) { return th(a)->root_level; }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return th(a)->conflict; }
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return l != 0 && std::abs(l) < static_cast<int>(th(a)->val.size()); }
static bool known(MThread *t, clingo_literal_t l) {
    if (l == 0 || std::abs(l) >= static_cast<int>(t->val.size())) {
        t->m->protocol_error("query of unknown literal " + std::to_string(l));
        clingo_set_error(clingo_error_logic, "invalid literal");
        return false;
    }
    return true;
}
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    if (!known(th(a), l)) { return false; }
    *r = th(a)->value(l) == 0 ? UINT32_MAX : th(a)->lev[std::abs(l)];
    return true;
}
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t level, clingo_literal_t *r) {
    auto *t = th(a);
    if (level > t->dl()) { return fail(clingo_error_logic, "invalid level"); }
    *r = level == 0 ? 1 : t->decision[level];
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!known(th(a), l)) { return false; }
    *r = th(a)->value(l) != 0 && th(a)->lev[std::abs(l)] == 0;
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!known(th(a), l)) { return false; }
    *r = th(a)->value(l) > 0;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!known(th(a), l)) { return false; }
    *r = th(a)->value(l) < 0;
    return true;
}
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    if (!known(th(a), l)) { return false; }
    auto v = th(a)->value(l);
    *r = v == 0 ? clingo_truth_value_free : v > 0 ? clingo_truth_value_true : clingo_truth_value_false;
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { return th(a)->val.size() - 1; }
bool clingo_assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *r) { (void)a; *r = static_cast<int>(o) + 1; return true; }
bool clingo_assignment_is_total(clingo_assignment_t const *a) { return th(a)->total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *r) { *r = th(a)->trail.size(); return true; }
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *r) { *r = th(a)->level_begin.at(l); return true; }
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *r) {
    auto *t = th(a);
    *r = l + 1 < t->level_begin.size() ? t->level_begin[l + 1] : t->trail.size();
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *r) { *r = th(a)->trail.at(o); return true; }

// theory atoms
static TheoryData const &td(clingo_theory_atoms_t const *a) { return *reinterpret_cast<TheoryData const *>(a); }
bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) { *r = td(a).terms.at(t).type; return true; }
bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) { *r = td(a).terms.at(t).number; return true; }
bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) { *r = td(a).terms.at(t).name.c_str(); return true; }
bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) {
    auto const &x = td(a).terms.at(t).args;
    *r = x.data();
    *n = x.size();
    return true;
}
static bool put(char *s, size_t n, std::string const &x) { if (x.size() + 1 > n) { return fail(clingo_error_runtime, "size"); } std::strcpy(s, x.c_str()); return true; }
bool clingo_theory_atoms_term_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *n) { *n = 2; return true; }
bool clingo_theory_atoms_term_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *s, size_t n) { return put(s, n, "?"); }
bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r, size_t *n) {
    auto const &x = td(a).elems.at(e).tuple;
    *r = x.data();
    *n = x.size();
    return true;
}
bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **r, size_t *n) {
    auto const &x = td(a).elems.at(e).condition;
    *r = x.data();
    *n = x.size();
    return true;
}
bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t *r) { *r = td(a).elems.at(e).condition_id; return true; }
bool clingo_theory_atoms_element_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *n) { *n = 2; return true; }
bool clingo_theory_atoms_element_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *s, size_t n) { return put(s, n, "?"); }
bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) { *n = td(a).atoms.size(); return true; }
bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t *r) { *r = td(a).atoms.at(i).term; return true; }
bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t const **r, size_t *n) {
    auto const &x = td(a).atoms.at(i).elems;
    *r = x.data();
    *n = x.size();
    return true;
}
bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t i, bool *r) { *r = td(a).atoms.at(i).has_guard; return true; }
bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t i, char const **c, clingo_id_t *t) {
    auto const &x = td(a).atoms.at(i);
    if (!x.has_guard) { return fail(clingo_error_logic, "no guard"); }
    *c = x.op.c_str();
    *t = x.guard;
    return true;
}
bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_literal_t *r) { *r = td(a).atoms.at(i).lit; return true; }
bool clingo_theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *n) { *n = 2; return true; }
bool clingo_theory_atoms_atom_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *s, size_t n) { return put(s, n, "?"); }

// model
bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) { *id = reinterpret_cast<MModel const *>(m)->thread; return true; }
bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    auto *x = reinterpret_cast<MModel *>(m);
    x->ext.insert(x->ext.end(), s, s + n);
    return true;
}

bool clingo_model_type(clingo_model_t const *, clingo_model_type_t *t) { *t = clingo_model_type_stable_model; return true; }
bool clingo_model_number(clingo_model_t const *, uint64_t *n) { *n = 1; return true; }
bool clingo_model_is_true(clingo_model_t const *m, clingo_literal_t l, bool *r) {
    auto *x = reinterpret_cast<MModel const *>(m);
    *r = x->m->threads.at(x->thread).value(l) > 0;
    return true;
}
bool clingo_model_symbols_size(clingo_model_t const *m, clingo_show_type_bitset_t show, size_t *n) {
    *n = (show & clingo_show_type_theory) != 0 ? reinterpret_cast<MModel const *>(m)->ext.size() : 0;
    return true;
}
bool clingo_model_symbols(clingo_model_t const *m, clingo_show_type_bitset_t show, clingo_symbol_t *s, size_t n) {
    auto const &e = reinterpret_cast<MModel const *>(m)->ext;
    if ((show & clingo_show_type_theory) == 0) { return true; }
    if (n < e.size()) { return fail(clingo_error_runtime, "size"); }
    std::copy(e.begin(), e.end(), s);
    return true;
}

// statistics: the object is an MStats tree with root 0
static MStats &ms(clingo_statistics_t const *s) { return *reinterpret_cast<MStats *>(const_cast<clingo_statistics_t *>(s)); }
static MStats::Node &sn(clingo_statistics_t const *s, uint64_t k) { return ms(s).nodes.at(k); }
bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *key) { *key = 0; return true; }
bool clingo_statistics_type(clingo_statistics_t const *s, uint64_t key, clingo_statistics_type_t *type) { *type = sn(s, key).type; return true; }
bool clingo_statistics_array_size(clingo_statistics_t const *s, uint64_t key, size_t *n) { *n = sn(s, key).kids.size(); return true; }
bool clingo_statistics_array_at(clingo_statistics_t const *s, uint64_t key, size_t i, uint64_t *sub) { *sub = sn(s, key).kids.at(i).second; return true; }
bool clingo_statistics_array_push(clingo_statistics_t *s, uint64_t key, clingo_statistics_type_t type, uint64_t *sub) {
    *sub = ms(s).nodes.size();
    ms(s).nodes.push_back({type, 0, {}});
    sn(s, key).kids.emplace_back("", *sub);
    return true;
}
bool clingo_statistics_map_size(clingo_statistics_t const *s, uint64_t key, size_t *n) { *n = sn(s, key).kids.size(); return true; }
bool clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t key, char const *name, bool *r) {
    *r = false;
    for (auto &[n, id] : sn(s, key).kids) { *r = *r || n == name; }
    return true;
}
bool clingo_statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t key, size_t i, char const **name) { *name = sn(s, key).kids.at(i).first.c_str(); return true; }
bool clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t key, char const *name, uint64_t *sub) {
    for (auto &[n, id] : sn(s, key).kids) { if (n == name) { *sub = id; return true; } }
    return fail(clingo_error_runtime, "key not found");
}
bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t key, char const *name, clingo_statistics_type_t type, uint64_t *sub) {
    for (auto &[n, id] : sn(s, key).kids) {
        if (n == name) {
            if (sn(s, id).type != type) { return fail(clingo_error_logic, "redefinition error"); }
            *sub = id;
            return true;
        }
    }
    *sub = ms(s).nodes.size();
    ms(s).nodes.push_back({type, 0, {}});
    sn(s, key).kids.emplace_back(name, *sub);
    return true;
}
bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t key, double *v) { *v = sn(s, key).value; return true; }
bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t key, double v) { sn(s, key).value = v; return true; }
}
