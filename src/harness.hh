// Job runner shared by all engines: distributes jobs over worker processes, notices crashes and hangs,
// replays a violation before reporting it and writes a JSON summary.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace hn {

constexpr int MAX_WORKERS = 64;
constexpr int NCOUNT = 24;

struct Slot {
    std::atomic<uint64_t> start_ms; // start of current case, 0: idle
    std::atomic<uint64_t> job;
    char current[3000];             // description of the current case
    uint64_t count[NCOUNT];
    char vkind[64];
    char vmsg[6000];
    char vcase[3000];
    std::atomic<int> violated;
};
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    Slot slot[MAX_WORKERS];
};

inline uint64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

//! Processor time used by a process in milliseconds.
inline uint64_t cpu_ms(pid_t pid) {
    std::ifstream in("/proc/" + std::to_string(pid) + "/stat");
    std::string line;
    std::getline(in, line);
    auto p = line.rfind(')');
    if (p == std::string::npos) { return 0; }
    std::istringstream fields(line.substr(p + 1));
    std::string f;
    uint64_t ticks = 0;
    for (int i = 3; i <= 15 && fields >> f; ++i) { if (i >= 14) { ticks += std::stoull(f); } }
    return ticks * 1000 / sysconf(_SC_CLK_TCK);
}

//! Decides whether a process hangs. A process that gets no processor time on a busy machine does not, unless it goes
//! on for much longer (it could be blocked).
struct Watch {
    uint64_t start = 0, cpu = 0;
    bool hangs(pid_t pid, uint64_t begin, uint64_t limit) {
        if (begin != start) { start = begin; cpu = 0; fresh = true; }
        uint64_t t = now_ms();
        if (t < begin + limit / 4) { return false; }
        if (fresh) { cpu = cpu_ms(pid); fresh = false; }
        if (t < begin + limit) { return false; }
        return t > begin + limit * 5 || cpu_ms(pid) > cpu + limit / 4;
    }
    bool fresh = true;
};

struct Reporter {
    Shared *sh;
    Slot *slot;
    int only_kinds = 0;
    std::string filter; // comma separated kinds which count (empty: all)
    void begin(std::string const &c) {
        std::strncpy(slot->current, c.c_str(), sizeof(slot->current) - 1);
        slot->start_ms.store(now_ms(), std::memory_order_relaxed);
    }
    void count(int i, uint64_t n = 1) { slot->count[i] += n; }
    bool counts(std::string const &kind) const {
        if (filter.empty() || kind == "crash" || kind == "hang" || kind == "exception" || kind == "nondeterminism") { return true; }
        return ("," + filter + ",").find("," + kind + ",") != std::string::npos;
    }
    void violation(std::string const &kind, std::string const &msg, std::string const &cs) {
        if (slot->violated.load() != 0 || !counts(kind)) { return; }
        std::strncpy(slot->vkind, kind.c_str(), sizeof(slot->vkind) - 1);
        std::strncpy(slot->vmsg, msg.c_str(), sizeof(slot->vmsg) - 1);
        std::strncpy(slot->vcase, cs.c_str(), sizeof(slot->vcase) - 1);
        slot->violated.store(1);
    }
    bool stopped() const { return sh->stop.load(std::memory_order_relaxed) != 0 || slot->violated.load() != 0; }
};

struct Engine {
    virtual ~Engine() = default;
    virtual uint64_t jobs() = 0;
    //! Explore job j. If only is non-empty, just run the given case of the job.
    virtual void run(uint64_t j, Reporter &rep, std::string const &only) = 0;
    virtual std::string describe(uint64_t j) = 0;
    virtual std::vector<std::string> counters() = 0;
};

struct Args {
    std::map<std::string, std::string> kv;
    Args(int argc, char **argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.rfind("--", 0) != 0) { continue; }
            auto p = a.find('=');
            if (p == std::string::npos) { kv[a.substr(2)] = "1"; }
            else { kv[a.substr(2, p - 2)] = a.substr(p + 1); }
        }
    }
    std::string get(std::string const &k, std::string d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    long num(std::string const &k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : std::stol(it->second); }
};

inline std::string jesc(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else { r += static_cast<char>(c); }
    }
    return r + "\"";
}

struct Outcome {
    std::string kind, msg, cs;
    uint64_t job = 0;
    bool found = false;
};

//! Run one job (or one case) in a child; returns the violation if there is any.
inline Outcome run_child(Engine &e, Shared *sh, uint64_t job, std::string const &only, std::string const &filter, uint64_t limit_ms, bool whole) {
    Outcome o;
    auto &s = sh->slot[MAX_WORKERS - 1];
    std::memset(static_cast<void *>(&s), 0, sizeof(Slot));
    int saved = sh->stop.exchange(0);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Reporter rep{sh, &s, 0, filter};
        s.job = job;
        try { e.run(job, rep, only); }
        catch (std::exception const &ex) { rep.violation("exception", ex.what(), s.current); }
        _exit(s.violated.load() ? 3 : 0);
    }
    uint64_t t0 = now_ms();
    int st = 0;
    bool killed = false;
    Watch watch;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) { break; }
        usleep(2000);
        uint64_t ref = whole && s.start_ms.load() != 0 ? s.start_ms.load() : t0;
        if (watch.hangs(pid, ref, limit_ms)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
    }
    sh->stop = saved;
    o.job = job;
    if (s.violated.load() != 0) { o.found = true; o.kind = s.vkind; o.msg = s.vmsg; o.cs = s.vcase; }
    else if (killed) { o.found = true; o.kind = "hang"; o.msg = "the call did not return within " + std::to_string(limit_ms) + " ms"; o.cs = s.current; }
    else if (WIFSIGNALED(st)) { o.found = true; o.kind = "crash"; o.msg = std::string("terminated by signal ") + strsignal(WTERMSIG(st)); o.cs = s.current; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { o.found = true; o.kind = "crash"; o.msg = "process exited with code " + std::to_string(WEXITSTATUS(st)); o.cs = s.current; }
    return o;
}

inline int main_loop(Engine &e, Args const &a) {
    auto t0 = now_ms();
    std::string filter = a.get("kinds");
    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(static_cast<void *>(sh), 0, sizeof(Shared));
    uint64_t n = e.jobs();
    if (a.kv.count("replay") != 0) {
        // replay=JOB:CASE
        auto r = a.get("replay");
        auto p = r.find(':');
        uint64_t j = std::stoull(r.substr(0, p));
        std::string cs = p == std::string::npos ? "" : r.substr(p + 1);
        std::cout << "job " << j << ": " << e.describe(j) << "\ncase: " << cs << std::endl;
        auto o = run_child(e, sh, j, cs, "", 60000, true);
        if (o.found) { std::cout << "VIOLATION " << o.kind << ": " << o.msg << "\n"; return 1; }
        std::cout << "no violation\n";
        return 0;
    }
    if (a.kv.count("list") != 0) {
        for (uint64_t j = 0; j < n; ++j) { std::cout << j << ": " << e.describe(j) << "\n"; }
        return 0;
    }
    uint64_t from = a.num("from", 0), to = a.num("to", n);
    if (to > n) { to = n; }
    int workers = a.num("workers", 8);
    uint64_t case_limit = a.num("case-ms", 20000), cap = a.num("cap-s", 600) * 1000;
    // which jobs ran to their end
    uint64_t total = to > from ? to - from : 0;
    auto *finished = static_cast<std::atomic<char> *>(mmap(nullptr, total + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<uint64_t> todo;
    // every how manieth job to run
    uint64_t stride = a.num("stride", 1);
    for (uint64_t j = from + stride / 2; j < to; j += stride) { todo.push_back(j); }
    uint64_t selected = todo.size();
    std::vector<pid_t> pids(workers, 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            auto &s = sh->slot[w];
            Reporter rep{sh, &s, 0, filter};
            for (;;) {
                if (sh->stop.load() != 0) { break; }
                uint64_t i = sh->next.fetch_add(1);
                if (i >= todo.size()) { break; }
                s.job = todo[i];
                s.current[0] = 0;
                s.start_ms = now_ms();
                try { e.run(todo[i], rep, ""); }
                catch (std::exception const &ex) { rep.violation("exception", ex.what(), s.current); }
                s.start_ms = 0;
                if (s.violated.load() != 0) { sh->stop = 1; break; }
                if (sh->stop.load() == 0) { finished[todo[i] - from] = 1; }
            }
            _exit(0);
        }
        pids[w] = pid;
    };
    bool capped = false;
    std::vector<Outcome> confirmed;
    std::vector<std::string> unconfirmed;
    auto names = e.counters();
    std::vector<uint64_t> tot(names.size(), 0);
    // another round follows if what stopped a round could not be reproduced
    for (int round = 0; round < 20 && !todo.empty(); ++round) {
    sh->next = 0;
    sh->stop = 0;
    for (int w = 0; w < workers; ++w) {
        sh->slot[w].violated = 0;
        sh->slot[w].start_ms = 0;
        spawn(w);
    }
    std::vector<Outcome> suspects;
    std::vector<Watch> watch(workers);
    int alive = workers;
    while (alive > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < workers; ++w) {
                if (pids[w] != p) { continue; }
                pids[w] = 0;
                --alive;
                auto &s = sh->slot[w];
                if ((WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) && s.job != UINT64_MAX) {
                    Outcome o;
                    o.found = true;
                    o.job = s.job;
                    o.cs = s.current;
                    o.kind = "crash";
                    o.msg = WIFSIGNALED(st) ? std::string("terminated by signal ") + strsignal(WTERMSIG(st)) : "process exited with code " + std::to_string(WEXITSTATUS(st));
                    suspects.push_back(o);
                    sh->stop = 1;
                }
            }
            continue;
        }
        usleep(5000);
        for (int w = 0; w < workers; ++w) {
            auto &s = sh->slot[w];
            uint64_t b = s.start_ms.load();
            if (pids[w] != 0 && b != 0 && watch[w].hangs(pids[w], b, case_limit)) {
                Outcome o;
                o.found = true;
                o.job = s.job;
                o.cs = s.current;
                o.kind = "hang";
                suspects.push_back(o);
                sh->stop = 1;
                kill(pids[w], SIGKILL);
                s.start_ms = 0;
                s.job = UINT64_MAX;
            }
        }
        if (now_ms() > t0 + cap && !capped) { capped = true; sh->stop = 1; }
    }
    for (int w = 0; w < workers; ++w) {
        auto &s = sh->slot[w];
        if (s.violated.load() != 0) {
            Outcome o;
            o.found = true;
            o.kind = s.vkind;
            o.msg = s.vmsg;
            o.cs = s.vcase;
            o.job = s.job;
            suspects.push_back(o);
        }
    }
    // confirm by replay: first the case alone, then the whole job
    std::sort(suspects.begin(), suspects.end(), [](auto const &x, auto const &y) { return x.job < y.job; });
    for (auto const &o : suspects) {
        if (!confirmed.empty()) { break; }
        uint64_t lim = case_limit * 3;
        Outcome r;
        std::string how = "case";
        if (!o.cs.empty()) { r = run_child(e, sh, o.job, o.cs, filter, lim, true); }
        if (!r.found) { how = "job"; r = run_child(e, sh, o.job, "", filter, lim, true); }
        if (r.found) {
            if (r.cs.empty()) { r.cs = o.cs; }
            r.msg += how == "job" ? " [reproduced by the whole job]" : "";
            confirmed.push_back(r);
        } else {
            unconfirmed.push_back(o.kind + " in job " + std::to_string(o.job) + " case " + o.cs + ": " + o.msg);
            finished[o.job - from] = 1; // the whole job ran when it was repeated
        }
    }
    if (!confirmed.empty() || capped) { break; }
    std::vector<uint64_t> left;
    for (auto j : todo) { if (finished[j - from] == 0) { left.push_back(j); } }
    todo.swap(left);
    }
    uint64_t done = 0;
    for (uint64_t j = 0; j < total; ++j) { done += finished[j] != 0; }
    for (int w = 0; w < workers; ++w) { for (size_t i = 0; i < names.size(); ++i) { tot[i] += sh->slot[w].count[i]; } }
    std::ostringstream js;
    js << "{\"jobs_total\":" << selected << ",\"jobs_done\":" << done << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall_ms\":" << now_ms() - t0;
    js << ",\"counters\":{";
    for (size_t i = 0; i < names.size(); ++i) { js << (i ? "," : "") << jesc(names[i]) << ":" << tot[i]; }
    js << "},\"samples\":[";
    bool sep = false;
    for (uint64_t j : {from, from + (to - from) / 3, from + 2 * (to - from) / 3}) {
        if (j < to) { js << (sep ? "," : "") << jesc(e.describe(j)); sep = true; }
    }
    js << "],\"violations\":[";
    sep = false;
    for (auto const &o : confirmed) {
        js << (sep ? "," : "") << "{\"kind\":" << jesc(o.kind) << ",\"msg\":" << jesc(o.msg) << ",\"job\":" << o.job << ",\"case\":" << jesc(o.cs) << ",\"describe\":" << jesc(e.describe(o.job)) << "}";
        sep = true;
    }
    js << "],\"unconfirmed\":[";
    sep = false;
    for (auto const &o : unconfirmed) { js << (sep ? "," : "") << jesc(o); sep = true; }
    js << "]}";
    auto out = a.get("out");
    if (out.empty()) { std::cout << js.str() << std::endl; }
    else { std::ofstream(out) << js.str() << std::endl; }
    return confirmed.empty() ? 0 : 1;
}

} // namespace hn
