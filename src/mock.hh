// A closed environment for the theory propagator: it provides the part of clingo's C API the library calls,
// captures the propagator the library registers and drives its callbacks the way clasp does. All
// nondeterminism (decisions, batching, backjumps, models, interleaving of threads) is left to the explorer.
//
// The contract implemented here follows clasp's ClingoPropagator:
//  - propagate() gets the watched literals that became true since the last call, in trail order;
//  - add_clause() returns true if the clause is satisfied, non-unit, or unit on the current level; it returns
//    false if the clause is conflicting or unit on a lower level; the latter is resolved after the callback by
//    backjumping; after false, no further clause may be added in the same callback;
//  - undo() is called per level on which literals were delivered;
//  - check() is called on total assignments and, if requested, on every propagation fixpoint.
#pragma once
#include <clingo.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

struct MTerm {
    int type; // clingo_theory_term_type
    int number = 0;
    std::string name;
    std::vector<clingo_id_t> args;
};
struct MElem {
    std::vector<clingo_id_t> tuple;
    std::vector<clingo_literal_t> condition;
    clingo_literal_t condition_id = 0;
};
struct MAtom {
    clingo_id_t term;
    std::vector<clingo_id_t> elems;
    bool has_guard = false;
    std::string op;
    clingo_id_t guard = 0;
    clingo_literal_t lit = 0;
};
//! Theory data of one step.
struct TheoryData {
    std::vector<MTerm> terms;
    std::vector<MElem> elems;
    std::vector<MAtom> atoms;
    clingo_id_t num(int n) { terms.push_back({clingo_theory_term_type_number, n, "", {}}); return terms.size() - 1; }
    clingo_id_t sym(std::string s) { terms.push_back({clingo_theory_term_type_symbol, 0, std::move(s), {}}); return terms.size() - 1; }
    clingo_id_t fun(std::string s, std::vector<clingo_id_t> a) {
        terms.push_back({clingo_theory_term_type_function, 0, std::move(s), std::move(a)});
        return terms.size() - 1;
    }
};

struct Violation {
    std::string kind, msg;
};

struct Mock;

struct MThread {
    Mock *m = nullptr;
    uint32_t id = 0;
    std::vector<int8_t> val;        // by variable
    std::vector<uint32_t> lev;      // by variable
    std::vector<int> trail;
    std::vector<size_t> level_begin; // trail index per level
    std::vector<int> decision;       // by level
    std::vector<std::vector<int>> db; // clauses added by this thread
    std::set<int> watches;
    std::vector<int> wtrail;         // watched literals, in order
    std::vector<size_t> wbegin;      // by level
    size_t prop = 0;                 // delivered prefix of wtrail
    size_t fix_checked = SIZE_MAX;   // trail size of last fixpoint check
    std::vector<char> check_undo;    // by level: check called there (undo mode always)
    bool conflict = false;
    bool todo = false;               // clause refused, resolved by backjump after the callback
    std::vector<int> todo_clause;
    uint32_t todo_level = 0;
    uint32_t bt_level = 0;
    uint32_t root_level = 0;
    bool in_callback = false, in_model_check = false, in_init = false;
    bool refused = false;            // a clause was refused in the current callback
    int fresh = 0;                   // number of aux variables
    bool top_conflict = false;
    uint64_t callbacks = 0, clauses_added = 0, conflicts = 0, backjumps = 0;

    uint32_t dl() const { return static_cast<uint32_t>(level_begin.size() - 1); }
    int8_t value(int l) const {
        int v = std::abs(l);
        if (v >= static_cast<int>(val.size())) { return 0; }
        return l > 0 ? val[v] : static_cast<int8_t>(-val[v]);
    }
    bool total() const { for (size_t v = 1; v < val.size(); ++v) { if (val[v] == 0) { return false; } } return true; }
    void ensure(int v) { if (v >= static_cast<int>(val.size())) { val.resize(v + 1, 0); lev.resize(v + 1, 0); } }
    void assign(int l);
    void new_level(int decision);
    bool unit_propagate();
    void undo_to(uint32_t level);
    bool fixpoint();
    bool resolve_todo();
    bool add_clause(std::vector<int> c);
    bool callback_propagate();
    bool callback_check();
    void reset();
};

//! A statistics object: a tree of maps and values with root 0.
struct MStats {
    struct Node { int type; double value = 0; std::vector<std::pair<std::string, uint64_t>> kids; };
    std::vector<Node> nodes{{clingo_statistics_type_map, 0, {}}};
    clingo_statistics_t *c() { return reinterpret_cast<clingo_statistics_t *>(this); }
    //! Value at a path, or -1.
    double get(std::vector<std::string> const &path) const {
        uint64_t k = 0;
        for (auto const &p : path) {
            bool f = false;
            for (auto const &[n, id] : nodes.at(k).kids) { if (n == p) { k = id; f = true; break; } }
            if (!f) { return -1; }
        }
        return nodes.at(k).type == clingo_statistics_type_value ? nodes[k].value : -1;
    }
};

struct MModel {
    Mock *m;
    uint32_t thread;
    std::vector<clingo_symbol_t> ext;
};

//! Observation of the calls made by the theory; overridden by the explorers.
struct Monitor {
    virtual ~Monitor() = default;
    virtual void on_clause(MThread *t, std::vector<int> const &c) { (void)t; (void)c; }
    virtual void on_sched(char const *what) { (void)what; }
};

struct Mock {
    TheoryData *theory = nullptr;
    std::function<int(int)> lit_map;  // program literal -> solver literal
    clingo_propagator_t prp{};
    void *prp_data = nullptr;
    bool registered = false;
    std::vector<MThread> threads;
    std::vector<std::vector<int>> shared_db;
    int check_mode = clingo_propagator_check_mode_total;
    int undo_mode = clingo_propagator_undo_mode_default;
    int nvars = 1; // problem variables incl. 1 = true
    bool incremental = false;
    int step_var = 0;
    Monitor *mon = nullptr;
    std::string added_theory;
    std::vector<std::string> protocol; // protocol violations
    std::string cb_error;              // callback returned false

    void protocol_error(std::string s) { protocol.push_back(std::move(s)); }
    //! Create control + thread states for a problem with variables 1..n (1 is the true constant).
    void setup(int n, int nthreads);
    //! Begin a (further) solve step: initialises the theory. Returns false on a top level conflict.
    bool init_step();
    void end_step();
    //! Change the number of threads between steps; new threads start with the literals fixed in the first one.
    void resize_threads(int n);
};

extern thread_local MThread *tl_thread;
//! Called before and after the library is entered from the environment.
extern void (*mock_lib_enter)();
extern void (*mock_lib_leave)();
