// Exploration of the interleavings of several solver threads: the real library runs in fibers under a controlled
// scheduler which switches at synchronisation operations (and, on demand, at every call of the solver interface).
// Built with ThreadSanitizer, the fibers are threads for the race detector, and the scheduler itself does not order
// anything.
#include "drive.hh"
#include "families.hh"
#include "harness.hh"
#include <iostream>
#include <map>
#include <memory>
#include <pthread.h>
#include <ucontext.h>
#include <unordered_map>

#ifdef __SANITIZE_THREAD__
extern "C" {
void *__tsan_create_fiber(unsigned flags);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
void *__tsan_get_current_fiber();
void __tsan_acquire(void *);
void __tsan_release(void *);
void __tsan_read8(void *);
void __tsan_write8(void *);
void AnnotateIgnoreReadsBegin(char const *, int);
void AnnotateIgnoreReadsEnd(char const *, int);
void AnnotateIgnoreWritesBegin(char const *, int);
void AnnotateIgnoreWritesEnd(char const *, int);
}
namespace {
void ts_ignore() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
void ts_heed() { AnnotateIgnoreReadsEnd(__FILE__, __LINE__); AnnotateIgnoreWritesEnd(__FILE__, __LINE__); }
void ts_acquire(void *p) { __tsan_acquire(p); }
void ts_release(void *p) { __tsan_release(p); }
} // namespace
// FLINT is not instrumented: announce the accesses to its operands
#define RZ(x) __tsan_read8((void *)(x))
#define WZ(x) __tsan_write8((void *)(x))
#define RQ(x) (RZ(x), RZ((char *)(x) + 8))
#define WQ(x) (WZ(x), WZ((char *)(x) + 8))
#define FLINT_WRAP(ret, name, sig, args, ann) extern "C" ret __real_##name sig; extern "C" ret __wrap_##name sig { ann; return __real_##name args; }
using P = void *;
FLINT_WRAP(void, fmpq_add, (P r, P a, P b), (r, a, b), (RQ(a), RQ(b), WQ(r)))
FLINT_WRAP(void, fmpq_sub, (P r, P a, P b), (r, a, b), (RQ(a), RQ(b), WQ(r)))
FLINT_WRAP(void, fmpq_mul, (P r, P a, P b), (r, a, b), (RQ(a), RQ(b), WQ(r)))
FLINT_WRAP(void, fmpq_div, (P r, P a, P b), (r, a, b), (RQ(a), RQ(b), WQ(r)))
FLINT_WRAP(void, fmpq_add_si, (P r, P a, long b), (r, a, b), (RQ(a), WQ(r)))
FLINT_WRAP(void, fmpq_mul_fmpz, (P r, P a, P b), (r, a, b), (RQ(a), RZ(b), WQ(r)))
FLINT_WRAP(void, fmpq_div_fmpz, (P r, P a, P b), (r, a, b), (RQ(a), RZ(b), WQ(r)))
FLINT_WRAP(int, fmpq_cmp, (P a, P b), (a, b), (RQ(a), RQ(b)))
FLINT_WRAP(int, fmpq_cmp_si, (P a, long b), (a, b), (RQ(a)))
FLINT_WRAP(P, fmpq_get_str, (P s, int b, P a), (s, b, a), (RQ(a)))
FLINT_WRAP(void, fmpq_set_si, (P r, long a, unsigned long b), (r, a, b), (WQ(r)))
FLINT_WRAP(void, fmpq_canonicalise, (P r), (r), (WQ(r)))
FLINT_WRAP(void, fmpz_set, (P r, P a), (r, a), (RZ(a), WZ(r)))
FLINT_WRAP(void, fmpz_neg, (P r, P a), (r, a), (RZ(a), WZ(r)))
FLINT_WRAP(void, fmpz_mul, (P r, P a, P b), (r, a, b), (RZ(a), RZ(b), WZ(r)))
FLINT_WRAP(void, fmpz_addmul, (P r, P a, P b), (r, a, b), (RZ(a), RZ(b), WZ(r)))
FLINT_WRAP(void, fmpz_divexact, (P r, P a, P b), (r, a, b), (RZ(a), RZ(b), WZ(r)))
FLINT_WRAP(void, fmpz_gcd, (P r, P a, P b), (r, a, b), (RZ(a), RZ(b), WZ(r)))
FLINT_WRAP(int, fmpz_equal, (P a, P b), (a, b), (RZ(a), RZ(b)))
FLINT_WRAP(int, fmpz_equal_si, (P a, long b), (a, b), (RZ(a)))
FLINT_WRAP(int, fmpz_cmp_si, (P a, long b), (a, b), (RZ(a)))
FLINT_WRAP(int, fmpz_fits_si, (P a), (a), (RZ(a)))
#else
namespace {
void ts_ignore() {}
void ts_heed() {}
void ts_acquire(void *) {}
void ts_release(void *) {}
} // namespace
#endif

namespace {

enum Counter { C_SCHEDULES, C_SWITCHES, C_CALLBACKS, C_CLAUSES, C_MODELS, C_VALUES, C_ENTAIL, C_NODES, C_SYNC, C_STEPS, C_STATS, C_PIVOTS, C_PROGS, C_DIVES, C_MAXPRE };

// ---- scheduler -------------------------------------------------------------------------------------------
struct Sched;
Sched *g_sched = nullptr; // set while fibers run
uint64_t g_pivots = 0;
bool g_pivot_hook = false;

struct Fiber {
    ucontext_t ctx{};
    void *stack = nullptr;
    void *tsan = nullptr;
    std::function<void()> job;
    enum State { Idle, Ready, Blocked, Done } state = Idle;
    void const *wait = nullptr;
    int kind = 0;
    std::unique_ptr<Violation> error;
    char token = 0;
};

struct Abandon {};

struct Sched {
    std::vector<std::unique_ptr<Fiber>> fibers;
    ucontext_t main{};
    void *main_tsan = nullptr;
    int cur = -1;
    int budget = 0, used = 0;
    int order = 0; // how to continue with another fiber: 0 any, 1 the next index, 2 the previous one
    bool abandon = false;
    std::unique_ptr<Violation> error;
    std::function<int(int)> choose;
    std::function<void(int)> switched;
    uint64_t switches = 0, syncs = 0;
    char token = 0;
    struct Lock { int readers = 0; int writer = -1; };
    std::map<void const *, Lock> locks;

    static void entry(int lo, int hi) {
        auto *s = reinterpret_cast<Sched *>((static_cast<uintptr_t>(static_cast<unsigned>(hi)) << 32) | static_cast<unsigned>(lo));
        ts_ignore(); // except when in the library
        for (;;) {
            auto &f = *s->fibers[s->cur];
            ts_acquire(&s->token);
            try { f.job(); }
            catch (Violation const &v) { f.error = std::make_unique<Violation>(v); }
            catch (std::exception const &e) { f.error = std::make_unique<Violation>(Violation{"exception", e.what()}); }
            ts_release(&f.token);
            f.state = Fiber::Done;
            s->next();
        }
    }
    void prepare(int n) {
        while (static_cast<int>(fibers.size()) < n) {
            auto f = std::make_unique<Fiber>();
            size_t sz = 512 << 10;
            f->stack = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            getcontext(&f->ctx);
            f->ctx.uc_stack.ss_sp = f->stack;
            f->ctx.uc_stack.ss_size = sz;
            f->ctx.uc_link = nullptr;
            auto p = reinterpret_cast<uintptr_t>(this);
            makecontext(&f->ctx, reinterpret_cast<void (*)()>(entry), 2, static_cast<int>(p & 0xffffffffU), static_cast<int>(p >> 32));
#ifdef __SANITIZE_THREAD__
            f->tsan = __tsan_create_fiber(0);
#endif
            fibers.push_back(std::move(f));
        }
    }
    void jump(int to) {
        int from = cur;
        if (from == to) { return; }
        cur = to;
        ++switches;
        ucontext_t *a = from < 0 ? &main : &fibers[from]->ctx;
        ucontext_t *b = to < 0 ? &main : &fibers[to]->ctx;
#ifdef __SANITIZE_THREAD__
        __tsan_switch_to_fiber(to < 0 ? main_tsan : fibers[to]->tsan, 1);
#endif
        swapcontext(a, b);
    }
    std::vector<int> ready() {
        std::vector<int> r;
        for (size_t i = 0; i < fibers.size(); ++i) { if (fibers[i]->state == Fiber::Ready) { r.push_back(static_cast<int>(i)); } }
        return r;
    }
    //! With many threads only a neighbour comes next.
    void restrict(std::vector<int> &r) const {
        if (order == 0) { return; }
        int k = r.front();
        if (order == 1) { for (int x : r) { if (x > cur) { k = x; break; } } }
        else { k = r.back(); for (int x : r) { if (x < cur) { k = x; } } }
        r.assign(1, k);
    }
    //! Continue with some fiber after the current one blocked or finished.
    void next() {
        bool stop = false;
        for (auto &f : fibers) { stop = stop || f->error != nullptr; }
        auto r = ready();
        if (r.empty() || stop) { jump(-1); return; }
        restrict(r);
        int k = 0;
        try { k = choose(static_cast<int>(r.size())); }
        catch (Violation const &v) { error = std::make_unique<Violation>(v); jump(-1); return; }
        jump(r[k]);
    }
    //! Possibly preempt the current fiber.
    void point() {
        ++syncs;
        if (used >= budget) { return; }
        auto r = ready();
        r.erase(std::find(r.begin(), r.end(), cur));
        if (r.empty()) { return; }
        restrict(r);
        int k = 0;
        try { k = choose(static_cast<int>(r.size()) + 1); }
        catch (Violation const &v) { error = std::make_unique<Violation>(v); jump(-1); return; }
        if (k > 0) { ++used; jump(r[k - 1]); }
    }
    bool available(Lock const &l, bool write) const { return write ? l.writer < 0 && l.readers == 0 : l.writer < 0; }
    void acquire(void const *o, bool write) {
        point();
        for (;;) {
            auto &l = locks[o];
            if (available(l, write)) {
                if (write) { l.writer = cur; } else { ++l.readers; }
                return;
            }
            auto &f = *fibers[cur];
            f.state = Fiber::Blocked;
            f.wait = o;
            next();
        }
    }
    bool try_acquire(void const *o, bool write) {
        point();
        auto &l = locks[o];
        if (!available(l, write)) { return false; }
        if (write) { l.writer = cur; } else { ++l.readers; }
        return true;
    }
    void release(void const *o) {
        auto &l = locks[o];
        if (l.writer >= 0) { l.writer = -1; } else if (l.readers > 0) { --l.readers; }
        for (auto &f : fibers) { if (f->state == Fiber::Blocked && f->wait == o) { f->state = Fiber::Ready; } }
    }
    //! Run all jobs; throws what the fibers threw.
    void run(std::vector<std::function<void()>> jobs) {
#ifdef __SANITIZE_THREAD__
        main_tsan = __tsan_get_current_fiber();
#endif
        prepare(static_cast<int>(jobs.size()));
        locks.clear();
        error.reset();
        for (size_t i = 0; i < fibers.size(); ++i) {
            fibers[i]->error.reset();
            fibers[i]->state = i < jobs.size() ? Fiber::Ready : Fiber::Idle;
            if (i < jobs.size()) { fibers[i]->job = jobs[i]; }
        }
        ts_release(&token);
        g_sched = this;
        cur = -1;
        next();
        g_sched = nullptr;
        std::unique_ptr<Violation> v = std::move(error);
        bool blocked = false;
        for (auto &f : fibers) {
            if (f->error && !v) { v = std::move(f->error); }
            blocked = blocked || f->state == Fiber::Blocked;
            ts_acquire(&f->token);
        }
        if (v) {
            // the remaining fibers are never resumed
            for (auto &f : fibers) { f.release(); }
            fibers.clear();
            throw *v;
        }
        if (blocked) {
            for (auto &f : fibers) { f.release(); }
            fibers.clear();
            throw Violation{"deadlock", "the threads wait for each other"};
        }
    }
};

} // namespace

// ---- interposed synchronisation --------------------------------------------------------------------------
extern "C" {
#define WRAP_LOCK(name, type, write) \
    int __real_##name(type *m); \
    int __wrap_##name(type *m) { if (g_sched != nullptr) { ts_ignore(); g_sched->acquire(m, write); ts_heed(); } return __real_##name(m); }
#define WRAP_TRY(name, type, write) \
    int __real_##name(type *m); \
    int __wrap_##name(type *m) { if (g_sched != nullptr) { ts_ignore(); bool ok = g_sched->try_acquire(m, write); ts_heed(); if (!ok) { return EBUSY; } } return __real_##name(m); }
#define WRAP_UNLOCK(name, type) \
    int __real_##name(type *m); \
    int __wrap_##name(type *m) { int r = __real_##name(m); if (g_sched != nullptr) { ts_ignore(); g_sched->release(m); ts_heed(); } return r; }
WRAP_LOCK(pthread_mutex_lock, pthread_mutex_t, true)
WRAP_TRY(pthread_mutex_trylock, pthread_mutex_t, true)
WRAP_UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
WRAP_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, false)
WRAP_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, true)
WRAP_TRY(pthread_rwlock_tryrdlock, pthread_rwlock_t, false)
WRAP_TRY(pthread_rwlock_trywrlock, pthread_rwlock_t, true)
WRAP_UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
// counts the pivots independently of the statistics
void __real__ZN7Tableau5pivotEjjR7IntegerS1_(void *, uint32_t, uint32_t, void *, void *) __attribute__((weak));
void __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, uint32_t i, uint32_t j, void *a, void *d) {
    ts_ignore();
    ++g_pivots;
    g_pivot_hook = true;
    ts_heed();
    __real__ZN7Tableau5pivotEjjR7IntegerS1_(t, i, j, a, d);
}
}

namespace {

//! What a thread does in a step: a sequence of dives to total assignments.
struct Script {
    std::vector<int> targets; // bit masks over the boolean variables
    int learn = -1;           // level 0 literals become known before this dive (-1: never)
    bool stay = false;        // keep the first decision between the dives
};
struct TCase {
    Case c;                   // program, options and steps
    std::vector<int> facts;   // boolean literals learnt on level 0
    std::vector<std::vector<Script>> scripts; // per step and thread
    int budget = 2;
    int points = 0;           // 1: also at callbacks, 2: at every call
    bool drain = true;
    int order = 0;            // see Sched::order
    std::string str() const {
        std::string s;
        for (size_t i = 0; i < scripts.size(); ++i) {
            s += " step " + std::to_string(i + 1) + ":";
            for (size_t j = 0; j < scripts[i].size(); ++j) {
                s += " thread " + std::to_string(j) + " dives";
                for (int t : scripts[i][j].targets) { s += " " + std::to_string(t); }
                if (scripts[i][j].learn >= 0) { s += " learns before " + std::to_string(scripts[i][j].learn); }
                if (scripts[i][j].stay) { s += " stays"; }
                s += ";";
            }
        }
        return s;
    }
};

struct Explorer : Monitor {
    TCase const &tc;
    Case const &cs;
    Prog const &p;
    std::vector<Oracle> &orcs;
    hn::Reporter &rep;
    Sched &sched;
    Mock m;
    std::vector<std::unique_ptr<TheoryBuilder>> &tbs;
    std::unique_ptr<TheoryHandle> theory;
    std::vector<int> choices, widths;
    size_t pos = 0;
    uint64_t fresh = 0;
    std::string trace;
    bool keep_trace = false;
    size_t step = 0;
    int nlits_now = 0;
    std::vector<size_t> index;
    bool in_step = false;
    struct Best { std::optional<QE> best; bool unbounded = false; bool any = false; };
    Best started, completed;
    std::vector<Best> began; // per thread: completed models when its last check began
    pthread_mutex_t model_lock = PTHREAD_MUTEX_INITIALIZER;
    MStats accu;
    uint64_t sum_pivots = 0, sum_bounds = 0, lo_bounds = 0, hi_bounds = 0;
    std::vector<std::set<std::vector<uint64_t>>> &values_ok;

    Explorer(TCase const &t, std::vector<Oracle> &o, std::vector<std::unique_ptr<TheoryBuilder>> &b, std::vector<std::set<std::vector<uint64_t>>> &vo, hn::Reporter &r, Sched &s)
    : tc(t), cs(t.c), p(t.c.prog), orcs(o), rep(r), sched(s), tbs(b), values_ok(vo) { m.mon = this; }

    void log(MThread const *t, std::string const &s) { if (keep_trace) { trace += (t != nullptr ? "[" + std::to_string(t->id) + "] " : "") + s + "; "; } }
    int choose(int n) {
        if (n == 1) { return 0; }
        if (pos == choices.size()) { choices.push_back(0); widths.push_back(n); ++fresh; }
        else if (pos < widths.size()) { if (widths[pos] != n) { throw Violation{"nondeterminism", "replay of a prefix diverged"}; } }
        else { widths.push_back(n); }
        if (choices[pos] >= n) { throw Violation{"nondeterminism", "replay of a prefix diverged (choice out of range)"}; }
        return choices[pos++];
    }
    Oracle &oracle() { return orcs[step]; }

    BAss current(MThread const &t) const {
        BAss a(p.nlits + 1, 0);
        for (int i = 1; i <= nlits_now; ++i) { a[i] = t.value(i + 1); }
        for (int i = nlits_now + 1; i <= p.nlits; ++i) { a[i] = -1; }
        return a;
    }
    bool removable(BAss const &a) {
        auto &o = oracle();
        if (!o.feasible(a)) { return true; }
        if (!cs.cfg.global() || !has_objective(o.prog()) || !started.any) { return false; }
        auto const &opt = o.optimum(a);
        if (started.unbounded) { return opt.bounded; }
        return opt.bounded && started.best && opt.value < *started.best + cs.cfg.step();
    }

    void on_sched(char const *what) override {
        if (!in_step) { return; }
        ts_ignore();
        bool callback = std::strcmp(what, "propagate") == 0 || std::strcmp(what, "check") == 0 || std::strcmp(what, "undo") == 0;
        if (callback) {
            // the environment is in charge: the library has not been entered yet
            if (std::strcmp(what, "check") == 0) { began[tl_id()] = completed; }
            rep.count(C_CALLBACKS);
        }
        if (g_sched != nullptr && (tc.points > 1 || (tc.points == 1 && callback))) { MThread *save = tl_thread; g_sched->point(); tl_thread = save; }
        ts_heed();
    }
    int tl_id() { return static_cast<int>(tl_thread->id); }

    void on_clause(MThread *t, std::vector<int> const &c) override {
        ts_ignore();
        on_clause_(t, c);
        ts_heed();
    }
    void on_clause_(MThread *t, std::vector<int> const &c) {
        rep.count(C_CLAUSES);
        BAss a(p.nlits + 1, 0);
        for (int i = nlits_now + 1; i <= p.nlits; ++i) { a[i] = -1; }
        bool taut = false, newlit = false, open_lit = false;
        for (int l : c) {
            int v = std::abs(l);
            if (t->value(l) >= 0) { open_lit = true; }
            if (v == 1) { if (l > 0) { taut = true; } continue; }
            if (v > nlits_now + 1) {
                if (m.step_var != 0 && v == m.step_var) { if (l > 0) { taut = true; } continue; }
                if (l > 0) { newlit = true; }
                continue;
            }
            int8_t want = l > 0 ? -1 : 1;
            if (a[v - 1] != 0 && a[v - 1] != want) { taut = true; }
            a[v - 1] = want;
        }
        if (!t->in_init && !(newlit && c.size() == 1)) {
            ++hi_bounds;
            if (c.size() > 1 && open_lit) { ++lo_bounds; }
        }
        if (taut || newlit) { return; }
        std::vector<int> open;
        for (int i = 1; i <= nlits_now; ++i) { if (a[i] == 0) { open.push_back(i); } }
        for (uint64_t mask = 0; mask < (1ULL << open.size()); ++mask) {
            for (size_t k = 0; k < open.size(); ++k) { a[open[k]] = (mask >> k) & 1 ? 1 : -1; }
            rep.count(C_ENTAIL);
            if (!removable(a)) {
                std::string s = "clause {";
                for (int l : c) { s += " " + (std::abs(l) <= nlits_now + 1 && std::abs(l) > 1 ? lit_text(l > 0 ? l - 1 : l + 1) : std::to_string(l)); }
                s += " } of thread " + std::to_string(t->id) + " excludes the consistent assignment";
                for (int i = 1; i <= nlits_now; ++i) { s += " " + lit_text(a[i] > 0 ? i : -i); }
                if (cs.cfg.global()) { s += " with best objective " + (started.best ? started.best->str() : "none") + (started.unbounded ? " (unbounded seen)" : ""); }
                if (!pending) { pending = std::make_unique<Violation>(Violation{"entailment", s}); }
                return;
            }
        }
    }
    std::unique_ptr<Violation> pending;
    void raise() {
        if (pending) { auto v = *pending; pending.reset(); throw v; }
        if (!m.protocol.empty()) { throw Violation{"protocol", m.protocol.front()}; }
    }

    static QE const &read(clingo_symbol_t sym) {
        static std::unordered_map<clingo_symbol_t, QE> cache;
        auto it = cache.find(sym);
        if (it != cache.end()) { return it->second; }
        char const *s = nullptr;
        if (!clingo_symbol_string(sym, &s)) { throw Violation{"access", "value is not a string symbol"}; }
        auto q = parse_qe(s);
        if (!q) { throw Violation{"format", std::string("value is not in canonical form: ") + s}; }
        return cache.emplace(sym, *q).first->second;
    }
    std::vector<clingo_symbol_t> symbols(uint32_t tid) {
        std::vector<clingo_symbol_t> r(p.nvars, 0);
        for (int v = 0; v < p.nvars; ++v) {
            if (index[v] == 0) { continue; }
            clingolpx_value_t val;
            ts_heed();
            bool has = clingolpx_assignment_has_value(theory->t, tid, index[v]);
            if (has) { clingolpx_assignment_get_value(theory->t, tid, index[v], &val); }
            ts_ignore();
            if (!has) { throw Violation{"access", "no value for " + var_name(v)}; }
            if (val.type != clingolpx_value_type_symbol) { throw Violation{"access", "value of " + var_name(v) + " is not a symbol"}; }
            r[v] = val.symbol;
        }
        return r;
    }
    std::vector<QE> values(std::vector<clingo_symbol_t> const &syms) {
        std::vector<QE> r(p.nvars);
        for (int v = 0; v < p.nvars; ++v) { if (index[v] != 0) { r[v] = read(syms[v]); } }
        return r;
    }
    void check_values(MThread &t, char const *where) {
        auto a = current(t);
        auto syms = symbols(t.id);
        rep.count(C_VALUES);
        auto &good = values_ok[step];
        std::vector<uint64_t> key{Oracle::code(a)};
        for (auto x : syms) { key.push_back(x); }
        if (good.count(key) != 0) { return; }
        auto v = values(syms);
        auto s = oracle().check_values(a, v);
        if (!s.empty()) {
            std::string vs;
            for (int i = 0; i < p.nvars; ++i) { vs += " " + var_name(i) + "=" + v[i].str(); }
            throw Violation{"values", "thread " + std::to_string(t.id) + " " + where + ": " + s + " by" + vs};
        }
        good.insert(std::move(key));
    }
    //! Values between callbacks. Solvers read values in models, one model at a time, which model() does; asking several
    //! threads for values at once is not part of the interface, so that the race detector must not see it.
    void peek(MThread &t, char const *where) {
#ifdef __SANITIZE_THREAD__
        static_cast<void>(t);
        static_cast<void>(where);
#else
        check_values(t, where);
#endif
    }
    void observe(MThread &t, bool ok) {
        raise();
        if (!ok) { return; }
        auto a = current(t);
        if (!oracle().feasible(a)) {
            std::string s = "propagation of thread " + std::to_string(t.id) + " succeeded although the constraints of";
            for (int i = 1; i <= nlits_now; ++i) { if (a[i] > 0) { s += " b" + std::to_string(i); } }
            throw Violation{"missed", s + " are unsatisfiable"};
        }
        peek(t, "after propagation");
    }

    void model(MThread &t) {
        auto a = current(t);
        if (!oracle().feasible(a)) { throw Violation{"missed", "model with unsatisfiable constraints"}; }
        rep.count(C_MODELS);
        bool has = has_objective(oracle().prog());
        auto const *opt = has ? &oracle().optimum(a) : nullptr;
        if (has && cs.cfg.global()) {
            auto const &b = began[t.id];
            if (b.unbounded && opt->bounded) { throw Violation{"stale", "bounded model of thread " + std::to_string(t.id) + " although an unbounded one was complete before its check began"}; }
            if (!b.unbounded && b.best && opt->bounded && opt->value < *b.best + cs.cfg.step()) {
                throw Violation{"stale", "model of thread " + std::to_string(t.id) + " with optimum " + opt->value.str() + " although one with " + b.best->str() + " was complete before its check began"};
            }
        }
        // models are reported one after the other
        pthread_lock();
        tl_thread = &t;
        check_values(t, "in a model");
        if (has) {
            if (opt->bounded) { if (!started.unbounded && (!started.best || opt->value > *started.best)) { started.best = opt->value; } }
            else { started.unbounded = true; }
            started.any = true;
        }
        MModel mm{&m, t.id, {}};
        on_sched("on_model");
        ts_heed();
        bool ret = clingolpx_on_model(theory->t, reinterpret_cast<clingo_model_t *>(&mm));
        ts_ignore();
        if (!ret) { throw Violation{"error", std::string("on_model failed: ") + (clingo_error_message() ? clingo_error_message() : "")}; }
        raise();
        auto syms = symbols(t.id);
        std::set<std::string> seen;
        bool obj_seen = false;
        for (auto s : mm.ext) {
            char const *name = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t n = 0;
            if (clingo_symbol_type(s) != clingo_symbol_type_function || !clingo_symbol_name(s, &name) || !clingo_symbol_arguments(s, &args, &n) || n != 2) { throw Violation{"access", "unexpected symbol in the model"}; }
            if (std::strcmp(name, "__lpx") == 0) {
                char const *vn = nullptr;
                clingo_symbol_name(args[0], &vn);
                for (int i = 0; i < p.nvars; ++i) {
                    if (var_name(i) == vn) {
                        if (!seen.insert(vn).second) { throw Violation{"access", "variable reported twice"}; }
                        if (syms[i] != args[1]) { throw Violation{"access", "the model does not report the values of the thread that found it"}; }
                    }
                }
            } else if (std::strcmp(name, "__lpx_objective") == 0) {
                char const *vs = nullptr;
                int b = 0;
                if (!clingo_symbol_string(args[0], &vs) || !clingo_symbol_number(args[1], &b)) { throw Violation{"access", "bad objective symbol"}; }
                auto q = parse_qe(vs);
                obj_seen = true;
                if (!has || !q) { throw Violation{"objective", "unexpected objective"}; }
                if ((b != 0) != opt->bounded) { throw Violation{"objective", "thread " + std::to_string(t.id) + ": objective reported as " + (b != 0 ? "bounded" : "unbounded")}; }
                if (opt->bounded && *q != opt->value) { throw Violation{"objective", "thread " + std::to_string(t.id) + " reports objective " + q->str() + " but the optimum is " + opt->value.str()}; }
                if (*q != oracle().objective(a, values(syms))) { throw Violation{"objective", "objective differs from its value under the reported assignment"}; }
            }
        }
        for (int i = 0; i < p.nvars; ++i) { if (index[i] != 0 && seen.count(var_name(i)) == 0) { throw Violation{"access", "variable missing in the model: " + var_name(i)}; } }
        (void)obj_seen;
        completed = started;
        log(&t, "model " + (opt != nullptr ? (opt->bounded ? opt->value.str() : std::string("unbounded")) : std::string()));
        pthread_unlock();
    }
    // the lock around model callbacks belongs to the solver
    void pthread_lock() { if (g_sched != nullptr) { pthread_mutex_lock(&model_lock); } }
    void pthread_unlock() { if (g_sched != nullptr) { pthread_mutex_unlock(&model_lock); } }

    int complete(MThread &t) {
        for (int round = 0; round < 200; ++round) {
            if (!t.fixpoint()) { return 0; }
            raise();
            if (!t.total()) { return 1; }
            if ((m.check_mode & clingo_propagator_check_mode_total) != 0) {
                size_t n = t.trail.size();
                t.in_model_check = true;
                t.callback_check();
                t.in_model_check = false;
                raise();
                if (!t.resolve_todo()) { return 0; }
                if (!t.total()) { return 1; }
                if (t.prop != t.wtrail.size() || t.trail.size() != n) { continue; }
            }
            model(t);
            return 2;
        }
        throw Violation{"hang", "the model check does not stabilise"};
    }

    //! Returns false on a conflict on the root level.
    bool dive(MThread &t, int target, bool stay) {
        rep.count(C_DIVES);
        uint32_t root = t.root_level;
        bool ok = t.fixpoint();
        observe(t, ok);
        if (!ok) { if (t.dl() <= root) { return false; } t.undo_to(root); return true; }
        for (int i = 0; i < nlits_now && ok; ++i) {
            int v = i + 2;
            if (t.value(v) != 0) { continue; }
            int l = (target >> i) & 1 ? v : -v;
            if (m.prp.decide != nullptr) {
                clingo_literal_t r = 0;
                tl_thread = &t;
                ts_heed();
                bool ret = m.prp.decide(t.id, reinterpret_cast<clingo_assignment_t const *>(&t), l, m.prp_data, &r);
                ts_ignore();
                if (!ret || std::abs(r) != std::abs(l)) { throw Violation{"decide", "decide returned another variable"}; }
#ifndef __SANITIZE_THREAD__
                std::string why;
                int expect = expected_sign(oracle().prog(), cs.cfg, values(symbols(t.id)), i + 1, l, &why);
                if (expect != 0 && r != expect) { throw Violation{"decide", "thread " + std::to_string(t.id) + ": proposed " + lit_text(l > 0 ? l - 1 : l + 1) + " but " + lit_text(r > 0 ? r - 1 : r + 1) + " chosen;" + why}; }
#endif
            }
            log(&t, "decide " + lit_text(l > 0 ? l - 1 : l + 1));
            t.new_level(l);
            ok = t.fixpoint();
            observe(t, ok);
        }
        if (ok) {
            int r = complete(t);
            raise();
            ok = r != 0;
            observe(t, ok);
        }
        if (!ok && t.dl() <= root) { return false; }
        t.undo_to(stay ? std::min(root + 1, ok ? t.dl() : t.dl() - 1) : root);
        raise();
        peek(t, "after backjumping");
        return true;
    }
    void thread(uint32_t tid) {
        auto &t = m.threads[tid];
        auto const &s = tc.scripts[step][tid];
        bool ok = t.fixpoint();
        if (ok && cs.cfg.incremental) { t.new_level(m.step_var); t.root_level = 1; ok = t.fixpoint(); }
        observe(t, ok);
        if (!ok) { check_unsat(t); return; }
        for (size_t d = 0; d < s.targets.size(); ++d) {
            if (s.learn == static_cast<int>(d)) {
                log(&t, "learns");
                t.undo_to(0);
                for (int f : tc.facts) { int l = f > 0 ? f + 1 : f - 1; if (t.value(l) == 0) { t.assign(l); } }
                bool ok2 = t.fixpoint();
                if (ok2 && cs.cfg.incremental) { t.new_level(m.step_var); t.root_level = 1; ok2 = t.fixpoint(); }
                observe(t, ok2);
                if (!ok2) { if (t.dl() == 0) { check_unsat(t); } return; }
            }
            if (!dive(t, s.targets[d], s.stay && d + 1 < s.targets.size())) { check_unsat(t); return; }
        }
    }
    void check_unsat(MThread &t) {
        raise();
        // everything compatible with the facts must be removable
        BAss a(p.nlits + 1, 0);
        std::set<int> fixed;
        for (size_t s = 0; s <= step; ++s) { for (int f : (cs.steps.empty() ? p : cs.steps[s].part).facts) { fixed.insert(f); } }
        for (int f : tc.facts) { if (t.value(f > 0 ? f + 1 : f - 1) > 0) { fixed.insert(f); } }
        for (uint64_t mask = 0; mask < (1ULL << nlits_now); ++mask) {
            bool ok = true;
            for (int i = 1; i <= p.nlits; ++i) { a[i] = i <= nlits_now && ((mask >> (i - 1)) & 1) ? 1 : -1; }
            for (int f : fixed) { ok = ok && bval(a, f) > 0; }
            if (ok && !removable(a)) {
                std::string s = "thread " + std::to_string(t.id) + " found the problem unsatisfiable although there is a solution for";
                for (int i = 1; i <= nlits_now; ++i) { s += " " + lit_text(a[i] > 0 ? i : -i); }
                throw Violation{"entailment", s};
            }
        }
    }
    void lookup() {
        index.assign(p.nvars, 0);
        for (int v = 0; v < p.nvars; ++v) {
            clingo_symbol_t s;
            clingo_symbol_create_id(var_name(v).c_str(), true, &s);
            size_t i = 0;
            if (clingolpx_lookup_symbol(theory->t, s, &i)) { index[v] = i; }
        }
    }
    bool begin_step() {
        nlits_now = cs.steps.empty() ? p.nlits : cs.steps[step].nlits;
        int n = nlits_now + 1;
        if (cs.cfg.incremental) { ++n; }
        m.step_var = cs.cfg.incremental ? n : 0;
        m.nvars = n;
        for (auto &t : m.threads) { t.val.resize(n + 1, 0); t.lev.resize(n + 1, 0); t.root_level = 0; }
        if (m.threads.size() != tc.scripts[step].size()) { m.resize_threads(static_cast<int>(tc.scripts[step].size())); }
        auto const &sp = cs.steps.empty() ? p : cs.steps[step].part;
        if (tbs.size() <= step) {
            auto tb = std::make_unique<TheoryBuilder>();
            for (auto const &a : sp.atoms) { tb->atom(a); }
            tbs.push_back(std::move(tb));
        }
        m.theory = &tbs[step]->d;
        m.lit_map = [](int l) { return TheoryBuilder::solver(l); };
        for (int f : sp.facts) {
            int l = f > 0 ? f + 1 : f - 1;
            for (auto &t : m.threads) { if (t.value(l) == 0) { t.assign(l); } else if (t.value(l) < 0) { return false; } }
        }
        for (auto const &c : sp.clauses) {
            std::vector<int> d;
            for (int l : c) { d.push_back(l > 0 ? l + 1 : l - 1); }
            m.shared_db.push_back(d);
        }
        started = completed = {};
        began.assign(m.threads.size(), {});
        lo_bounds = hi_bounds = 0;
        g_pivots = 0;
        rep.count(C_STEPS);
        bool ok = m.init_step();
        raise();
        if (!ok) { return false; }
        lookup();
        return true;
    }
    void statistics() {
        MStats st;
        ts_heed();
        clingolpx_on_statistics(theory->t, st.c(), accu.c());
        ts_ignore();
        rep.count(C_STATS);
        rep.count(C_PIVOTS, g_pivots);
        double sp = st.get({"Simplex", "Pivots"}), sb = st.get({"Simplex", "Bounds propagated"});
        double ap = accu.get({"Simplex", "Pivots"}), ab = accu.get({"Simplex", "Bounds propagated"});
        auto str = [](double d) { return std::to_string(static_cast<long long>(d)); };
        if (sp < 0 || sb < 0 || ap < 0 || ab < 0) { throw Violation{"statistics", "statistics are missing"}; }
        sum_pivots += static_cast<uint64_t>(sp);
        sum_bounds += static_cast<uint64_t>(sb);
        if (g_pivot_hook && sp != static_cast<double>(g_pivots)) { throw Violation{"statistics", "step " + std::to_string(step + 1) + " reports " + str(sp) + " pivots but there were " + std::to_string(g_pivots)}; }
        if (sb < static_cast<double>(lo_bounds) || sb > static_cast<double>(hi_bounds) || (cs.cfg.bounds == 0 && sb != 0)) {
            throw Violation{"statistics", "step " + std::to_string(step + 1) + " reports " + str(sb) + " propagated bounds but there were between " + std::to_string(lo_bounds) + " and " + std::to_string(hi_bounds)};
        }
        if (ap != static_cast<double>(sum_pivots) || ab != static_cast<double>(sum_bounds)) {
            throw Violation{"statistics", "accumulated statistics " + str(ap) + "/" + str(ab) + " differ from the sums " + std::to_string(sum_pivots) + "/" + std::to_string(sum_bounds)};
        }
    }
    void run() {
        theory = std::make_unique<TheoryHandle>();
        configure(theory->t, cs.cfg);
        m.setup(1, static_cast<int>(tc.scripts[0].size()));
        if (!clingolpx_register(theory->t, reinterpret_cast<clingo_control_t *>(&m)) || !m.registered) { throw Violation{"error", "register failed"}; }
        sched.choose = [this](int n) { return choose(n); };
        sched.budget = tc.budget;
        sched.used = 0;
        sched.order = tc.order;
        for (step = 0; step < tc.scripts.size(); ++step) {
            if (step > 0) { log(nullptr, "next step"); }
            if (!begin_step()) { check_unsat(m.threads[0]); return; }
            in_step = true;
            std::vector<std::function<void()>> jobs;
            for (uint32_t i = 0; i < m.threads.size(); ++i) { jobs.push_back([this, i] { thread(i); }); }
            sched.run(jobs);
            raise();
            if (tc.drain) {
                for (auto &t : m.threads) {
                    if (t.conflict) { continue; }
                    for (int target = 0; target < (1 << nlits_now); ++target) { if (!dive(t, target, false)) { check_unsat(t); break; } }
                }
                raise();
                // nothing worth keeping may be left
                if (cs.cfg.global() && has_objective(oracle().prog())) {
                    for (auto &t : m.threads) { if (!t.conflict && tc.facts.empty()) { nothing_left(); } }
                }
            }
            in_step = false;
            statistics();
            m.end_step();
            raise();
            for (auto &t : m.threads) { if (t.conflict) { return; } }
        }
    }
    void nothing_left() {
        BAss a(p.nlits + 1, -1);
        for (uint64_t mask = 0; mask < (1ULL << nlits_now); ++mask) {
            for (int i = 1; i <= nlits_now; ++i) { a[i] = (mask >> (i - 1)) & 1 ? 1 : -1; }
            bool sat = true;
            for (auto const &c : p.clauses) { bool s = false; for (int l : c) { s = s || bval(a, l) > 0; } sat = sat && s; }
            for (int f : p.facts) { sat = sat && bval(a, f) > 0; }
            if (!sat || removable(a)) { continue; }
            auto const &opt = oracle().optimum(a);
            if (cs.cfg.step() == QE{} && started.best && opt.bounded && opt.value == *started.best) { continue; }
            if (!opt.bounded && started.unbounded) { continue; }
            throw Violation{"global", "all assignments were tried but the best objective " + (started.best ? started.best->str() : std::string("none")) + " is not optimal"};
        }
    }
};

// ---- families --------------------------------------------------------------------------------------------
std::vector<std::vector<int>> orders(int n, int k) {
    std::vector<std::vector<int>> r;
    std::vector<int> cur;
    std::function<void()> rec = [&] {
        if (static_cast<int>(cur.size()) == k) { r.push_back(cur); return; }
        for (int i = 0; i < n; ++i) { if (std::find(cur.begin(), cur.end(), i) == cur.end()) { cur.push_back(i); rec(); cur.pop_back(); } }
    };
    rec();
    return r;
}

std::vector<TCase> make_tcases(std::string const &family, std::string const &tier) {
    using namespace fam;
    bool thorough = tier == "thorough";
    std::vector<TCase> out;
    size_t rot = 0;
    if (family == "objective" || family == "objective3") {
        bool three = family == "objective3";
        struct P { std::vector<Atom> atoms; std::vector<Atom> ob; };
        std::vector<std::vector<Atom>> bodies = {
            {sum({{1, X}}, LE, 1, 1), sum({{1, X}}, LE, 2, 2), sum({{1, X}}, LE, 3, 0)},
            {sum({{1, X}, {1, Y}}, LE, 2, 1), sum({{1, X}}, LE, 1, 2), dom(X, 0, 3, 0), dom(Y, 0, 2, 0)},
            {sum({{1, X}}, LE, 2, 1), sum({{1, X}}, LE, 1, 2), sum({{1, X}}, LE, 4, -1)},
            {sum({{1, X}}, LE, 1, 1), sum({{1, Y}}, LE, 1, 2), sum({{1, Y}}, LE, 2, 0)},        // unbounded without b1
            {sum({{1, X}}, LE, 1, 1), sum({{1, X}}, LE, 2, -1), sum({{1, X}}, GE, 2, 2)},
            {sum({{1, X}}, LE, -3, 1), sum({{1, X}}, LE, -2, 2), sum({{1, X}}, LE, -1, 0)},     // negative optima
            {sum({{1, X}, {1, Y}}, EQ, 1, 1), sum({{1, X}, {-1, Y}}, LE, 0, 2), dom(X, -1, 2, 0), dom(Y, -1, 3, 0)},
        };
        std::vector<std::vector<Atom>> obs = {{obj(Atom::MAX, Terms{{1, X}})}, {obj(Atom::MIN, Terms{{-1, X}, {-1, Y}})}};
        std::vector<std::string> opts = {"o:global", "o:global,1", "strict o:global,e", "o:global bf", "o:global,1/2 st", "o:global sp bc", "strict o:global,1 conf", "o:global sm"};
        auto ords = orders(4, 2);
        for (size_t b = 0; b < bodies.size(); ++b) {
            for (size_t o = 0; o < obs.size(); ++o) {
                if (o == 1 && (b == 0 || b == 2 || b == 4 || b == 5)) { continue; }
                for (size_t op = 0; op < opts.size(); ++op) {
                    for (size_t i = 0; i < ords.size(); ++i) {
                        for (size_t j = 0; j < ords.size(); ++j) {
                            ++rot;
                            if (!thorough && rot % (three ? 29 : 7) != 0) { continue; }
                            if (thorough && three && rot % 5 != 0) { continue; }
                            TCase t;
                            t.c.prog.nvars = 2;
                            t.c.prog.nlits = 2;
                            t.c.prog.atoms = bodies[b];
                            for (auto a : obs[o]) { t.c.prog.atoms.push_back(a); }
                            t.c.cfg = cfg(opts[op]);
                            t.c.cfg.incremental = rot % 3 == 0;
                            t.scripts = {{{ords[i], -1, rot % 4 == 1}, {ords[j], -1, rot % 5 == 2}}};
                            if (three) { t.scripts[0].push_back({{ords[(i + j + 1) % ords.size()][0]}, -1, false}); t.scripts[0][0].targets.resize(1); }
                            t.budget = thorough ? 3 : 2;
                            out.push_back(t);
                        }
                    }
                }
            }
        }
    } else if (family == "facts") {
        // literals become known on level 0 at different times in different threads
        std::vector<Atom> kinds = {sum({{1, X}}, GE, 2, 0), sum({{1, X}}, LE, 1, 0), sum({{1, X}, {1, Y}}, LE, 0, 0), sum({{1, X}, {-1, Y}}, GE, 1, 0), sum({{1, Y}}, EQ, 3, 0)};
        std::vector<std::string> opts = {"def", "bc", "conf", "st", "inc", "inc bf", "inc o:global,1", "sp inc"};
        std::vector<std::vector<int>> facts = {{1}, {2}, {1, 2}, {-1}};
        std::vector<std::vector<int>> threads = {{2, 2}, {1, 2}, {2, 1}, {2, 2, 2}, {3, 3}};
        for (size_t i = 0; i < kinds.size(); ++i) {
            for (size_t j = 0; j < kinds.size(); ++j) {
                if (i == j) { continue; }
                for (auto const &f : facts) {
                    for (int when = 0; when < 81; ++when) {
                        for (auto const &nt : threads) {
                            ++rot;
                            if (nt.size() * 2 > 4 && !thorough && rot % 3 != 0) { continue; }
                            if (!thorough && rot % 5 != 0) { continue; }
                            TCase t;
                            t.c.cfg = cfg(opts[rot % opts.size()]);
                            Prog p, e;
                            p.nvars = e.nvars = 2;
                            p.nlits = e.nlits = 2;
                            auto a = kinds[i];
                            a.lit = 1;
                            p.atoms.push_back(a);
                            a = kinds[j];
                            a.lit = 2;
                            p.atoms.push_back(a);
                            p.atoms.push_back(sum({{1, X}}, LE, 5, 0));
                            if (t.c.cfg.global()) { p.atoms.push_back(obj(Atom::MAX, Terms{{1, X}})); }
                            t.c.prog = p;
                            // the facts have to be consistent with the constraints
                            Oracle o(p);
                            BAss ba(3, -1);
                            for (int x : f) { ba[std::abs(x)] = x > 0 ? 1 : -1; }
                            if (!o.feasible(ba)) { continue; }
                            for (size_t s = 0; s < nt.size(); ++s) { t.c.steps.push_back({s == 0 ? p : e, p, 2}); }
                            t.facts = f;
                            // targets compatible with the facts
                            std::vector<int> tg;
                            for (int m = 0; m < 4; ++m) {
                                bool ok = true;
                                for (int x : f) { ok = ok && (((m >> (std::abs(x) - 1)) & 1) != 0) == (x > 0); }
                                if (ok) { tg.push_back(m); }
                            }
                            int w = when;
                            for (size_t s = 0; s < nt.size(); ++s) {
                                std::vector<Script> sc;
                                for (int k = 0; k < nt[s]; ++k) {
                                    Script x;
                                    x.targets = {tg[static_cast<size_t>(k) % tg.size()], tg[(k + 1) % tg.size()]};
                                    x.learn = w % 3 - 1;
                                    w = k < 2 ? w / 3 : w;
                                    sc.push_back(x);
                                }
                                t.scripts.push_back(sc);
                            }
                            t.budget = thorough ? 2 : 1;
                            t.drain = false;
                            out.push_back(t);
                        }
                    }
                }
            }
        }
    } else if (family == "mixed" || family == "signs") {
        // no shared objective: the threads must not influence each other at all
        std::vector<std::vector<Atom>> bodies = {
            {sum({{1, X}, {1, Y}}, LE, 1, 1), sum({{1, X}}, GE, 2, 2), sum({{1, Y}}, GE, 0, 0)},
            {sum({{1, X}, {1, Y}}, GE, 2, 1), sum({{1, X}, {-1, Y}}, LE, 0, 2), sum({{1, Y}}, LE, 3, 0)},
            {sum({{1, X}}, EQ, 1, 1), sum({{1, X}}, EQ, 2, -1), sum({{1, X}, {1, Y}}, EQ, 3, 2)},
            {csum({{{{1, X}}, 1}, {{{1, Y}}, 0}}, GE, 2, 2), sum({{1, Y}}, LE, 1, 0), sum({{1, X}}, LE, 4, 0)},
        };
        std::vector<std::string> opts = {"def", "bf", "bc st", "sm", "sc sp", "o:local", "o:local st bf", "conf", "strict o:local", "o:global bf"};
        if (family == "signs") { opts = {"sm", "sc", "sm o:local", "sc bf"}; }
        auto ords = orders(4, 2);
        for (size_t b = 0; b < bodies.size(); ++b) {
            for (size_t op = 0; op < opts.size(); ++op) {
                for (size_t i = 0; i < ords.size(); ++i) {
                    for (size_t j = 0; j < ords.size(); ++j) {
                        ++rot;
                        if (rot % (thorough ? 3 : family == "signs" ? 5 : 11) != 0) { continue; }
                        TCase t;
                        t.c.cfg = cfg(opts[op]);
                        t.c.prog.nvars = 2;
                        t.c.prog.nlits = 2;
                        t.c.prog.atoms = bodies[b];
                        if (!t.c.cfg.objective.empty()) { t.c.prog.atoms.push_back(obj(Atom::MAX, Terms{{1, X}, {1, Y}})); }
                        t.scripts = {{{ords[i], -1, rot % 2 == 1}, {ords[j], -1, rot % 3 == 1}}};
                        t.budget = thorough ? 2 : 1;
                        t.points = 2;
                        out.push_back(t);
                    }
                }
            }
        }
    } else if (family == "wide") {
        // many threads, whose number changes from step to step
        std::vector<std::vector<Atom>> bodies = {
            {sum({{1, X}, {1, Y}}, GE, 2, 1), sum({{1, X}, {-1, Y}}, LE, 0, 2), sum({{1, Y}}, LE, 3, 0)},
            {sum({{1, X}}, LE, 1, 1), sum({{1, X}}, LE, 2, 2), sum({{1, X}}, LE, 3, 0), sum({{1, Y}, {1, X}}, LE, 5, -1)},
            {sum({{1, X}}, LE, -3, 1), sum({{1, X}, {1, Y}}, LE, -2, 2), sum({{1, X}}, LE, -1, 0), sum({{1, Y}}, GE, 1, -2)},
        };
        std::vector<std::string> opts = {"def", "bf", "bc st", "o:local", "o:global", "o:global,1 bf", "sm o:local", "conf sc", "inc o:global,1/2", "sp inc"};
        std::vector<std::vector<int>> counts = {{4}, {5}, {8}, {9}, {16}, {17}, {33}, {64}, {1, 5}, {5, 1}, {2, 9, 4}, {17, 3, 18}, {64, 2, 64}};
        auto ords = orders(4, 2);
        for (size_t b = 0; b < bodies.size(); ++b) {
            for (size_t op = 0; op < opts.size(); ++op) {
                for (auto const &n : counts) {
                    for (int order = 1; order <= 2; ++order) {
                        for (size_t i = 0; i < (thorough ? ords.size() : 5); ++i) {
                            int most = *std::max_element(n.begin(), n.end());
                            ++rot;
                            if (!thorough && most > 20 && rot % 3 != 0) { continue; }
                            TCase t;
                            t.c.cfg = cfg(opts[op]);
                            Prog p, e;
                            p.nvars = e.nvars = 2;
                            p.nlits = e.nlits = 2;
                            p.atoms = bodies[b];
                            if (!t.c.cfg.objective.empty()) { p.atoms.push_back(obj(Atom::MAX, Terms{{1, X}})); }
                            t.c.prog = p;
                            if (n.size() > 1) { for (size_t s = 0; s < n.size(); ++s) { t.c.steps.push_back({s == 0 ? p : e, p, 2}); } }
                            for (size_t s = 0; s < n.size(); ++s) {
                                std::vector<Script> sc;
                                for (int k = 0; k < n[s]; ++k) {
                                    auto const &o = ords[(i * 5 + rot + static_cast<size_t>(k) * 7 + s) % ords.size()];
                                    sc.push_back({{o[0]}, -1, false});
                                    if (most < 10) { sc.back().targets.push_back(o[1]); }
                                }
                                t.scripts.push_back(sc);
                            }
                            t.order = order;
                            t.budget = most < 10 ? 1 : 0;
                            if (thorough && most < 20) { ++t.budget; }
                            t.drain = false;
                            out.push_back(t);
                        }
                    }
                }
            }
        }
    } else { throw std::runtime_error("unknown family " + family); }
    return out;
}

struct ThreadEngine : hn::Engine {
    std::vector<TCase> cases;
    int pre;
    Sched sched;
    ThreadEngine(hn::Args const &a) {
        cases = make_tcases(a.get("family"), a.get("tier", "quick"));
        pre = a.num("preempt", -1);
        int points = a.num("points", -1), every = a.num("every", 1);
        if (every > 1) { std::vector<TCase> c; for (size_t i = 0; i < cases.size(); i += every) { c.push_back(cases[i]); } cases.swap(c); }
        for (auto &c : cases) { if (pre >= 0) { c.budget = pre; } if (points >= 0) { c.points = points; } }
        mock_lib_enter = ts_heed;
        mock_lib_leave = ts_ignore;
    }
    uint64_t jobs() override { return cases.size(); }
    std::vector<std::string> counters() override {
        return {"schedules", "context_switches", "callbacks", "clauses", "models", "value_checks", "entailment_checks", "transitions", "sync_points", "solve_steps", "statistics_checks", "pivots", "programs", "dives", "max_preemptions"};
    }
    std::string describe(uint64_t j) override {
        auto const &t = cases[j];
        std::string s = "[" + t.c.cfg.str() + "] " + prog_text(t.c.prog);
        for (int f : t.facts) { s += "learnt: " + lit_text(f) + " "; }
        return s + t.str();
    }
    void run(uint64_t j, hn::Reporter &rep, std::string const &only) override {
        ts_ignore();
        run_(j, rep, only);
        ts_heed();
    }
    //! Fibers must not exist when the race detector forks, so this happens in the worker.
    void calibrate() {
        if (calibrated) { return; }
        calibrated = true;
        // is the pivot counter bound to the code?
        TCase t;
        t.c.prog.nvars = 2;
        t.c.prog.nlits = 1;
        t.c.prog.atoms = {fam::sum({{1, 0}, {1, 1}}, GE, 1, 1)};
        t.scripts = {{{{1}, -1, false}}};
        t.drain = false;
        hn::Shared *sh = static_cast<hn::Shared *>(calloc(1, sizeof(hn::Shared)));
        hn::Reporter rep{sh, &sh->slot[0], 0, ""};
        std::vector<Oracle> so{Oracle(t.c.prog)};
        std::vector<std::unique_ptr<TheoryBuilder>> tbs;
        std::vector<std::set<std::vector<uint64_t>>> vo(1);
        try { Explorer e(t, so, tbs, vo, rep, sched); e.run(); } catch (Violation const &) {}
        free(sh);
    }
    bool calibrated = false;
    void run_(uint64_t j, hn::Reporter &rep, std::string const &only) {
        calibrate();
        auto const &c = cases[j];
        std::vector<Oracle> so;
        if (c.c.steps.empty()) { so.emplace_back(c.c.prog); }
        for (auto const &s : c.c.steps) { so.emplace_back(s.all); }
        rep.count(C_PROGS);
        std::vector<std::unique_ptr<TheoryBuilder>> tbs;
        std::vector<std::set<std::vector<uint64_t>>> vo(so.size());
        std::vector<int> choices, widths;
        if (!only.empty()) {
            std::istringstream in(only);
            std::string w;
            while (std::getline(in, w, ',')) { if (!w.empty() && w != "-") { choices.push_back(std::stoi(w)); } }
        }
        for (;;) {
            std::string cur;
            for (int x : choices) { cur += std::to_string(x) + ","; }
            rep.begin(cur.empty() ? "-" : cur);
            auto *ep = new Explorer(c, so, tbs, vo, rep, sched);
            auto &e = *ep;
            e.choices = choices;
            e.widths = widths;
            e.keep_trace = !only.empty();
            bool bad = false;
            Violation v;
            uint64_t sw = sched.switches, sy = sched.syncs;
            try { e.run(); }
            catch (Violation const &x) { bad = true; v = x; g_sched = nullptr; }
            if (bad && rep.counts(v.kind)) {
                std::string cc;
                for (size_t i = 0; i < e.pos; ++i) { cc += std::to_string(e.choices[i]) + ","; }
                rep.violation(v.kind, v.msg + (e.trace.empty() ? "" : " | history: " + e.trace), cc.empty() ? "-" : cc);
                return;
            }
            rep.count(C_SCHEDULES);
            rep.count(C_NODES, e.fresh + 1);
            rep.count(C_SWITCHES, sched.switches - sw);
            rep.count(C_SYNC, sched.syncs - sy);
            if (!only.empty() || rep.stopped()) { break; }
            e.choices.resize(e.pos);
            e.widths.resize(e.pos);
            choices = e.choices;
            widths = e.widths;
            if (!bad) { delete ep; } // otherwise suspended threads may refer to it
            while (!choices.empty() && choices.back() + 1 >= widths.back()) { choices.pop_back(); widths.pop_back(); }
            if (choices.empty()) { break; }
            ++choices.back();
        }
    }
};

} // namespace

int main(int argc, char **argv) {
    hn::Args a(argc, argv);
    auto *e = new ThreadEngine(a);
    int ret = hn::main_loop(*e, a);
    std::cout.flush();
    _exit(ret);
}
