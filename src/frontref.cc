// Reference for the front ends: drives the C library directly (clingo's own loader instead of the rewriting pipeline, the assignment
// interface instead of the symbols in the model) and prints models the way the front ends are documented to.
#include <algorithm>
#include <clingo-lpx.h>
#include <clingo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace {

[[noreturn]] void die() { std::fprintf(stderr, "*** ERROR: (reference): %s\n", clingo_error_message()); std::exit(99); }
void check(bool ok) { if (!ok) { die(); } }

std::string text(clingo_symbol_t s) {
    size_t n = 0;
    check(clingo_symbol_to_string_size(s, &n));
    std::string r(n, 0);
    check(clingo_symbol_to_string(s, &r[0], n));
    r.resize(n - 1);
    return r;
}

struct Ref {
    clingolpx_theory_t *t = nullptr;
    bool objective = true;
    std::vector<std::pair<clingo_symbol_t, std::string>> values; // of the last model
};

char const *name(void *) { return "clingo-lpx"; }
char const *version(void *) {
    static std::string v;
    int a = 0, b = 0, c = 0;
    clingolpx_version(&a, &b, &c);
    v = std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
    return v.c_str();
}

std::vector<clingo_symbol_t> symbols(clingo_model_t const *m, clingo_show_type_bitset_t type) {
    size_t n = 0;
    check(clingo_model_symbols_size(m, type, &n));
    std::vector<clingo_symbol_t> r(n);
    check(clingo_model_symbols(m, type, r.data(), n));
    std::sort(r.begin(), r.end(), [](auto a, auto b) { return clingo_symbol_is_less_than(a, b); });
    return r;
}

// Reads the values when the model is found; printing it might be deferred.
void read_values(clingo_model_t const *m, Ref *ref) {
    uint32_t thread = 0;
    check(clingo_model_thread_id(m, &thread));
    ref->values.clear();
    size_t it = 0;
    clingolpx_assignment_begin(ref->t, thread, &it);
    while (clingolpx_assignment_next(ref->t, thread, &it)) {
        if (!clingolpx_assignment_has_value(ref->t, thread, it)) { continue; }
        clingolpx_value_t v;
        clingolpx_assignment_get_value(ref->t, thread, it, &v);
        char const *s = nullptr;
        check(clingo_symbol_string(v.symbol, &s));
        ref->values.emplace_back(clingolpx_get_symbol(ref->t, it), s);
    }
}

bool print_model(clingo_model_t const *m, clingo_default_model_printer_t, void *, void *data) {
    auto *ref = static_cast<Ref *>(data);
    bool sep = false;
    for (auto s : symbols(m, clingo_show_type_shown)) {
        std::printf("%s%s", sep ? " " : "", text(s).c_str());
        sep = true;
    }
    std::printf("\nAssignment:\n");
    auto &ass = ref->values;
    std::sort(ass.begin(), ass.end(), [](auto const &a, auto const &b) { return clingo_symbol_is_less_than(a.first, b.first); });
    sep = false;
    for (auto const &[s, v] : ass) {
        std::printf("%s%s=%s", sep ? " " : "", text(s).c_str(), v.c_str());
        sep = true;
    }
    if (ref->objective) {
        for (auto s : symbols(m, clingo_show_type_theory)) {
            char const *n = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t k = 0;
            if (clingo_symbol_type(s) != clingo_symbol_type_function || !clingo_symbol_name(s, &n) || std::strcmp(n, "__lpx_objective") != 0) { continue; }
            check(clingo_symbol_arguments(s, &args, &k));
            char const *v = nullptr;
            int b = 0;
            check(k == 2 && clingo_symbol_string(args[0], &v) && clingo_symbol_number(args[1], &b));
            std::printf("\nOptimization: %s [%s]", v, b == 1 ? "bounded" : "unbounded");
        }
    }
    std::printf("\n");
    std::fflush(stdout);
    return true;
}

bool on_event(clingo_solve_event_type_t type, void *event, void *data, bool *go) {
    auto *ref = static_cast<Ref *>(data);
    *go = true;
    if (type == clingo_solve_event_type_model) {
        auto *m = static_cast<clingo_model_t *>(event);
        read_values(m, ref);
        return clingolpx_on_model(ref->t, m);
    }
    if (type == clingo_solve_event_type_statistics) {
        auto **s = static_cast<clingo_statistics_t **>(event);
        return clingolpx_on_statistics(ref->t, s[0], s[1]);
    }
    return true;
}

bool run(clingo_control_t *ctl, char const *const *files, size_t n, void *data) {
    auto *ref = static_cast<Ref *>(data);
    if (!clingolpx_register(ref->t, ctl)) { return false; }
    if (n == 0) { if (!clingo_control_load(ctl, "-")) { return false; } }
    for (size_t i = 0; i < n; ++i) { if (!clingo_control_load(ctl, files[i])) { return false; } }
    clingo_part_t part{"base", nullptr, 0};
    if (!clingo_control_ground(ctl, &part, 1, nullptr, nullptr)) { return false; }
    if (!clingolpx_prepare(ref->t, ctl)) { return false; }
    clingo_solve_handle_t *h = nullptr;
    if (!clingo_control_solve(ctl, 0, nullptr, 0, on_event, ref, &h)) { return false; }
    clingo_solve_result_bitset_t r = 0;
    bool ok = clingo_solve_handle_get(h, &r);
    return clingo_solve_handle_close(h) && ok;
}

// ---- use as a library -------------------------------------------------------------------------------------------------
// Runs a script of library calls (one per line, fields separated by tabs) and prints what they return; see api() in frontpy.py.

struct Slot {
    clingolpx_theory_t *t = nullptr;
    clingo_control_t *c = nullptr;
    std::vector<std::string> look;
    size_t limit = 0, models = 0;
};

clingo_symbol_t parse(std::string const &s) {
    clingo_symbol_t r = 0;
    check(clingo_parse_term(s.c_str(), nullptr, nullptr, 20, &r));
    return r;
}

std::string value(Slot &s, uint32_t thread, size_t idx) {
    clingolpx_value_t v;
    clingolpx_assignment_get_value(s.t, thread, idx, &v);
    switch (v.type) {
        case clingolpx_value_type_int: { return "int " + std::to_string(v.int_number); }
        case clingolpx_value_type_double: { return "double"; }
        default: { return text(v.symbol); }
    }
}

void look(Slot &s, bool model, uint32_t thread) {
    for (auto const &l : s.look) {
        size_t idx = 0;
        std::printf("  look %s:", l.c_str());
        if (!clingolpx_lookup_symbol(s.t, parse(l), &idx)) { std::printf(" none\n"); continue; }
        std::printf(" %zu %s", idx, text(clingolpx_get_symbol(s.t, idx)).c_str());
        if (model) {
            bool has = clingolpx_assignment_has_value(s.t, thread, idx);
            std::printf(" %d %s", has ? 1 : 0, has ? value(s, thread, idx).c_str() : "-");
        }
        std::printf("\n");
    }
}

void line(char const *what, std::vector<std::string> v, bool sort) {
    if (sort) { std::sort(v.begin(), v.end()); }
    std::printf("  %s", what);
    for (auto const &x : v) { std::printf(" %s", x.c_str()); }
    std::printf("\n");
}

std::vector<std::string> texts(std::vector<clingo_symbol_t> const &v) {
    std::vector<std::string> r;
    for (auto s : v) { r.emplace_back(text(s)); }
    return r;
}

void statistics(clingo_statistics_t *s, uint64_t key, std::string const &path) {
    clingo_statistics_type_t type = 0;
    check(clingo_statistics_type(s, key, &type));
    size_t n = 0;
    if (type == clingo_statistics_type_value) {
        double d = 0;
        check(clingo_statistics_value_get(s, key, &d));
        std::printf("  stat %s=%.0f\n", path.c_str(), d);
    } else if (type == clingo_statistics_type_array) {
        check(clingo_statistics_array_size(s, key, &n));
        for (size_t i = 0; i < n; ++i) {
            uint64_t k = 0;
            check(clingo_statistics_array_at(s, key, i, &k));
            statistics(s, k, path + "." + std::to_string(i));
        }
    } else if (type == clingo_statistics_type_map) {
        check(clingo_statistics_map_size(s, key, &n));
        std::map<std::string, uint64_t> keys;
        for (size_t i = 0; i < n; ++i) {
            char const *name = nullptr;
            uint64_t k = 0;
            check(clingo_statistics_map_subkey_name(s, key, i, &name));
            check(clingo_statistics_map_at(s, key, name, &k));
            keys.emplace(name, k);
        }
        for (auto const &[name, k] : keys) { statistics(s, k, path + "." + name); }
    }
}

bool on_api_event(clingo_solve_event_type_t type, void *event, void *data, bool *go) {
    auto &s = *static_cast<Slot *>(data);
    *go = true;
    if (type == clingo_solve_event_type_model) {
        auto *m = static_cast<clingo_model_t *>(event);
        uint32_t thread = 0;
        check(clingo_model_thread_id(m, &thread));
        std::printf("  model\n");
        if (!clingolpx_on_model(s.t, m)) { return false; }
        line("shown", texts(symbols(m, clingo_show_type_shown)), true);
        line("theory", texts(symbols(m, clingo_show_type_theory)), true);
        std::vector<std::string> ass;
        size_t it = 0;
        clingolpx_assignment_begin(s.t, thread, &it);
        while (clingolpx_assignment_next(s.t, thread, &it)) { ass.emplace_back(text(clingolpx_get_symbol(s.t, it)) + "=" + value(s, thread, it)); }
        line("assignment", ass, false);
        look(s, true, thread);
        if (++s.models == s.limit) { *go = false; }
    }
    if (type == clingo_solve_event_type_statistics) {
        auto **st = static_cast<clingo_statistics_t **>(event);
        if (!clingolpx_on_statistics(s.t, st[0], st[1])) { return false; }
        for (size_t i = 0; i < 2; ++i) {
            uint64_t root = 0;
            check(clingo_statistics_root(st[i], &root));
            statistics(st[i], root, i == 0 ? "step" : "accu");
        }
    }
    return true;
}

bool command(std::map<std::string, Slot> &slots, Slot *&s, std::vector<std::string> const &f) {
    auto const &c = f[0];
    if (c == "use") { s = &slots[f[1]]; return true; }
    if (c == "new") {
        std::vector<char const *> args;
        for (size_t i = 1; i < f.size(); ++i) { args.emplace_back(f[i].c_str()); }
        return clingolpx_create(&s->t) && clingo_control_new(args.data(), args.size(), [](clingo_warning_t, char const *, void *) {}, nullptr, 20, &s->c);
    }
    if (c == "drop") {
        clingo_control_free(s->c);
        bool ok = clingolpx_destroy(s->t);
        *s = Slot{};
        return ok;
    }
    if (c == "version") {
        int a = 0, b = 0, d = 0;
        clingolpx_version(&a, &b, &d);
        std::printf("  %d %d %d\n", a, b, d);
        return true;
    }
    if (c == "conf") { return clingolpx_configure(s->t, f[1].c_str(), f.size() > 2 ? f[2].c_str() : ""); }
    if (c == "validate") { return clingolpx_validate_options(s->t); }
    if (c == "register") { return clingolpx_register(s->t, s->c); }
    if (c == "add") { return clingo_control_add(s->c, "base", nullptr, 0, f.size() > 1 ? f[1].c_str() : ""); }
    if (c == "ground") {
        std::vector<clingo_symbol_t> args;
        for (size_t i = 2; i < f.size(); ++i) { args.emplace_back(parse(f[i])); }
        clingo_part_t part{f[1].c_str(), args.data(), args.size()};
        return clingo_control_ground(s->c, &part, 1, nullptr, nullptr);
    }
    if (c == "prepare") { return clingolpx_prepare(s->t, s->c); }
    if (c == "assign") {
        clingo_symbolic_atoms_t const *atoms = nullptr;
        clingo_symbolic_atom_iterator_t it = 0;
        bool valid = false;
        check(clingo_control_symbolic_atoms(s->c, &atoms));
        check(clingo_symbolic_atoms_find(atoms, parse(f[1]), &it));
        check(clingo_symbolic_atoms_is_valid(atoms, it, &valid));
        if (!valid) { return true; }
        clingo_literal_t lit = 0;
        check(clingo_symbolic_atoms_literal(atoms, it, &lit));
        if (f[2] == "release") { return clingo_control_release_external(s->c, lit); }
        return clingo_control_assign_external(s->c, lit, f[2] == "true" ? clingo_truth_value_true : f[2] == "false" ? clingo_truth_value_false : clingo_truth_value_free);
    }
    if (c == "look") { s->look.assign(f.begin() + 1, f.end()); look(*s, false, 0); return true; }
    if (c == "solve") {
        s->limit = std::stoul(f[1]);
        s->models = 0;
        std::vector<clingo_literal_t> ass;
        for (size_t i = 2; i < f.size(); ++i) {
            bool neg = f[i][0] == '-';
            clingo_symbolic_atoms_t const *atoms = nullptr;
            clingo_symbolic_atom_iterator_t it = 0;
            bool valid = false;
            clingo_literal_t lit = 0;
            check(clingo_control_symbolic_atoms(s->c, &atoms));
            check(clingo_symbolic_atoms_find(atoms, parse(f[i].substr(neg ? 1 : 0)), &it));
            check(clingo_symbolic_atoms_is_valid(atoms, it, &valid));
            if (!valid) { continue; }
            check(clingo_symbolic_atoms_literal(atoms, it, &lit));
            ass.emplace_back(neg ? -lit : lit);
        }
        clingo_solve_handle_t *h = nullptr;
        if (!clingo_control_solve(s->c, 0, ass.data(), ass.size(), on_api_event, s, &h)) { return false; }
        clingo_solve_result_bitset_t r = 0;
        bool ok = clingo_solve_handle_get(h, &r);
        ok = clingo_solve_handle_close(h) && ok;
        if (ok) { std::printf("  result %d %d\n", (r & clingo_solve_result_satisfiable) ? 1 : (r & clingo_solve_result_unsatisfiable) ? 0 : -1, (r & clingo_solve_result_exhausted) ? 1 : 0); }
        return ok;
    }
    std::fprintf(stderr, "*** ERROR: (reference): unknown command %s\n", c.c_str());
    std::exit(99);
}

int api(char const *file) {
    std::ifstream in(file);
    std::map<std::string, Slot> slots;
    Slot *s = &slots[""];
    std::string l;
    while (std::getline(in, l)) {
        std::vector<std::string> f;
        std::replace(l.begin(), l.end(), '\x01', '\n');
        std::istringstream is(l);
        for (std::string x; std::getline(is, x, '\t');) { f.emplace_back(x); }
        if (f.empty()) { continue; }
        std::printf("%s\n", f[0].c_str());
        if (!command(slots, s, f)) {
            std::printf("  error\n");
            if (f[0] != "conf") { break; }
        }
        std::fflush(stdout);
    }
    for (auto &[name, x] : slots) {
        if (x.c != nullptr) { clingo_control_free(x.c); }
        if (x.t != nullptr) { clingolpx_destroy(x.t); }
    }
    return 0;
}

} // namespace

int main(int argc, char **argv) {
    if (argc == 3 && std::strcmp(argv[1], "--api") == 0) { return api(argv[2]); }
    Ref ref;
    ref.objective = std::getenv("FRONT_PYTHON") == nullptr;
    check(clingolpx_create(&ref.t));
    clingo_application_t app{};
    app.program_name = name;
    app.version = version;
    app.main = run;
    app.printer = print_model;
    app.register_options = [](clingo_options_t *o, void *d) { return clingolpx_register_options(static_cast<Ref *>(d)->t, o); };
    app.validate_options = [](void *d) { return clingolpx_validate_options(static_cast<Ref *>(d)->t); };
    int r = clingo_main(&app, argv + 1, argc - 1, &ref);
    clingolpx_destroy(ref.t);
    return r;
}
