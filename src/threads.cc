// Exploration of the interleavings of two solver threads.
#include "threads.hh"
#include <condition_variable>
#include <mutex>
#include <thread>

namespace core {

using mock::Solver;

namespace {

//! Each thread executes a deterministic script and records everything it sees.
struct Script {
    // variant 0: lowest literal first, positive first; variant 1: highest literal first, negative first
    int variant{0};
    int max_nodes{1000};
    std::vector<std::string> log;
    System *sys{nullptr};
    int nv{0};
    uint32_t tid{0};
    int nodes{0};
    bool dead{false};             // found out that there is no solution

    void note(Solver &s) {
        std::string r = "state";
        for (auto l : s.trail) { r += " " + std::to_string(l) + "@" + std::to_string(s.var_level(l)); }
        auto vals = sys->values(tid, nv);
        for (int i = 1; i <= nv; ++i) { r += vals[i] ? " v" + std::to_string(i) + "=" + std::to_string(*vals[i]) : " -"; }
        if (sys->prob->prop.decide != nullptr) {
            for (int v = 2; v <= static_cast<int>(sys->prob->nvars); ++v) {
                for (lit_t l : {v, -v}) {
                    lit_t out = 0;
                    if (s.value(v) == 0 && sys->prob->prop.decide(tid, reinterpret_cast<clingo_assignment_t *>(&s), l, sys->prob->prop_data, &out)) { r += " d" + std::to_string(out); }
                }
            }
        }
        log.push_back(r);
    }
    void late(Solver &s) {
        log.push_back("late conflict");
        dead = dead || s.level() == 0;
    }
    void dfs(Solver &s) {
        note(s);
        if (++nodes > max_nodes) { return; }
        if (s.total()) { log.push_back("total"); return; }
        int n = static_cast<int>(sys->prob->nvars);
        for (int i = 2; i <= n; ++i) {
            int v = variant == 0 ? i : n + 2 - i;
            if (s.value(v) != 0) { continue; }
            auto lv = s.level();
            for (int sg : {1, -1}) {
                if (s.value(v) != 0) { continue; }
                lit_t l = (variant == 0 ? sg : -sg) * v;
                log.push_back("decide " + std::to_string(l));
                if (s.decide(l)) { dfs(s); }
                else { log.push_back(s.P->error.empty() ? "conflict" : "error " + s.P->error); }
                s.backtrack(lv);
                if (!s.fixpoint()) { late(s); return; }
                note(s);
            }
            return;
        }
    }
    void path(Solver &s) {
        // two passes over all literals without exploring alternatives
        note(s);
        int n = static_cast<int>(sys->prob->nvars);
        for (int pass : {0, 1}) {
            for (int i = 2; i <= n; ++i) {
                int v = (variant == 0) == (pass == 0) ? i : n + 2 - i;
                if (s.value(v) != 0) { continue; }
                lit_t l = pass == 0 ? v : -v;
                log.push_back("decide " + std::to_string(l));
                if (!s.decide(l)) {
                    log.push_back(s.P->error.empty() ? "conflict" : "error " + s.P->error);
                    auto lv = s.level() - 1;
                    s.backtrack(lv);
                    if (!s.fixpoint()) { late(s); s.backtrack(0); return; }
                }
                note(s);
            }
            s.backtrack(s.level() > 1 ? s.level() / 2 : 0);
            if (!s.fixpoint()) { late(s); s.backtrack(0); return; }
            note(s);
        }
        s.backtrack(0);
    }
    void run(Solver &s, bool full) {
        bool ok = s.fixpoint();
        if (!ok) { log.push_back("top conflict"); dead = true; return; }
        if (full) { dfs(s); } else { path(s); }
        s.backtrack(0);
    }
};

//! Hands control between two OS threads at scheduling points.
struct Baton : mock::Observer {
    std::mutex m;
    std::condition_variable cv;
    int turn{0};
    bool done[2]{false, false};
    uint64_t count[2]{0, 0};
    std::vector<std::pair<int, uint64_t>> switches; // (thread, point) at which that thread is preempted, in order
    size_t next{0};
    Script *scripts[2]{nullptr, nullptr};
    bool active{false};

    void wait(int t) {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return turn == t; });
    }
    void give(int t) {
        std::unique_lock<std::mutex> l(m);
        turn = t;
        cv.notify_all();
    }
    void point(Solver &s, char const *) override {
        if (!active) { return; }
        int t = static_cast<int>(s.tid);
        uint64_t c = count[t]++;
        if (next < switches.size() && switches[next].first == t && switches[next].second == c) {
            ++next;
            if (!done[1 - t]) {
                give(1 - t);
                wait(t);
            }
        }
    }
    void finish(int t) {
        std::unique_lock<std::mutex> l(m);
        done[t] = true;
        turn = 1 - t;
        cv.notify_all();
    }
    void on_clause(Solver &s, Clause const &c) override {
        auto *sc = scripts[s.tid];
        if (sc == nullptr) { return; }
        std::string r = "clause";
        Clause d = c;
        std::sort(d.begin(), d.end());
        for (auto l : d) { r += " " + std::to_string(l); }
        sc->log.push_back(r);
    }
};

//! The configuration a thread effectively has.
std::vector<std::pair<std::string, std::string>> effective(std::vector<std::pair<std::string, std::string>> const &c, int tid) {
    std::vector<std::pair<std::string, std::string>> r, own;
    for (auto &kv : c) {
        auto p = kv.second.find(',');
        if (p == std::string::npos || kv.first == "add-mutexes") { r.push_back(kv); }
        else if (atoi(kv.second.c_str() + p + 1) == tid) { own.emplace_back(kv.first, kv.second.substr(0, p)); }
    }
    r.insert(r.end(), own.begin(), own.end());
    return r;
}

std::string join(std::vector<std::string> const &v, size_t around) {
    std::string r;
    for (size_t i = around > 2 ? around - 2 : 0; i < v.size() && i <= around + 1; ++i) { r += (i == around ? " >>> " : " | ") + v[i]; }
    return r;
}

void compare(std::vector<std::string> const &a, std::vector<std::string> const &b, int t, std::string const &how) {
    if (a == b) { return; }
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    throw Violation("threads", "thread " + std::to_string(t) + " " + how + " behaves differently than alone: got" + join(a, i) + "; alone" + join(b, i));
}

//! The statistics of a thread that do not depend on time.
std::vector<std::string> thread_stats(System &y, uint32_t threads) {
    mock::Stats st, ac;
    if (!clingodl_on_statistics(y.theory, reinterpret_cast<clingo_statistics_t *>(&st), reinterpret_cast<clingo_statistics_t *>(&ac))) { throw Violation("callback", "on_statistics failed"); }
    std::vector<std::string> ret;
    for (uint32_t tid = 0; tid < threads; ++tid) {
    std::string r = "statistics";
    for (auto *x : {&st, &ac}) {
        for (auto k : {"True edges", "False edges", "False edges (inverse)", "False edges (partial)", "False edges (partial+)", "Edges added", "Edges skipped",
                       "Edges propagated", "Cost consistency", "Cost forward", "Cost backward"}) {
            auto const *n = x->find({"DifferenceLogic", "Thread", std::to_string(tid), k});
            r += " " + (n != nullptr ? std::to_string(static_cast<long long>(n->value)) : std::string("-"));
        }
    }
    ret.push_back(r);
    }
    return ret;
}

} // namespace

void run_threads(Scenario const &sc, Results &res, bool free_running) {
    auto tok = Limits::parse(sc.extra);
    bool full = tok.max_neg != 0;     // neg=0: straight scripts
    int preemptions = tok.depth;
    int nv = num_vars(sc);
    size_t steps = sc.steps.size();   // steps before one of the threads finds that there is no solution
    res.add("scenarios");
    std::vector<std::string> alone[2];
    for (int t : {0, 1}) {
        Scenario one = sc;
        one.threads = 1;
        one.config = effective(sc.config, t);
        Baton obs;
        Script s;
        s.variant = t;
        obs.scripts[0] = &s;
        System y(one, &obs);
        s.sys = &y;
        s.nv = nv;
        for (size_t i = 0; i < steps; ++i) {
            y.add_step(one, one.steps[i]);
            s.log.push_back("step");
            bool ok = y.prob->init();
            if (!y.prob->error.empty()) { throw Violation("callback", y.prob->error); }
            s.nodes = 0;
            if (ok) { s.run(*y.prob->solvers[0], full); }
            s.log.push_back(thread_stats(y, 1)[0]);
            if (!ok || s.dead) { steps = i + 1; }
        }
        alone[t] = s.log;
        for (auto &x : s.log) { uint64_t h = std::hash<std::string>{}(x); res.outcome(h); }
        res.add("states", s.log.size());
    }
    if (steps < sc.steps.size()) {
        // both logs end with the last common step
        for (int t : {0, 1}) {
            size_t k = 0, i = 0;
            for (; i < alone[t].size(); ++i) { if (alone[t][i] == "step" && k++ == steps) { break; } }
            alone[t].resize(i);
        }
    }
    uint64_t points[2] = {0, 0};
    auto execute = [&](int first, std::vector<std::pair<int, uint64_t>> const &sw) {
        Baton obs;
        Script s[2];
        System y(sc, &obs);
        for (int t : {0, 1}) {
            s[t].variant = t;
            s[t].sys = &y;
            s[t].nv = nv;
            s[t].tid = t;
            obs.scripts[t] = &s[t];
        }
        obs.switches = sw;
        for (size_t i = 0; i < steps; ++i) {
            obs.active = false;
            y.add_step(sc, sc.steps[i]);
            for (int t : {0, 1}) { s[t].log.push_back("step"); s[t].nodes = 0; }
            bool ok = y.prob->init();
            if (!y.prob->error.empty()) { throw Violation("callback", y.prob->error); }
            obs.turn = first;
            obs.done[0] = obs.done[1] = false;
            obs.active = !free_running;
            y.prob->points = true;
            std::exception_ptr err[2];
            if (ok) {
                auto body = [&](int t) {
                    if (!free_running) { obs.wait(t); }
                    try { s[t].run(*y.prob->solvers[t], full); } catch (...) { err[t] = std::current_exception(); }
                    if (!free_running) { obs.finish(t); }
                };
                std::thread a(body, 0), b(body, 1);
                a.join();
                b.join();
            }
            for (int t : {0, 1}) { if (err[t]) { std::rethrow_exception(err[t]); } }
            auto st = thread_stats(y, 2);
            for (int t : {0, 1}) { s[t].log.push_back(st[t]); }
        }
        std::string how = "under schedule start=" + std::to_string(first);
        for (auto &x : sw) { how += " preempt(" + std::to_string(x.first) + "@" + std::to_string(x.second) + ")"; }
        for (int t : {0, 1}) { compare(s[t].log, alone[t], t, free_running ? "running freely" : how); points[t] = obs.count[t]; }
        if (obs.active && obs.next != sw.size() ) { res.add("infeasible_switches"); }
        res.add("schedules");
        res.add("transitions", points[0] + points[1]);
    };
    if (free_running) {
        for (int i = 0; i < 3; ++i) { execute(0, {}); }
        return;
    }
    for (int first : {0, 1}) {
        execute(first, {});
        uint64_t n0 = points[first], n1 = points[1 - first];
        res.n["max_points"] = std::max<uint64_t>(res.n["max_points"], std::max(n0, n1));
        if (preemptions < 1) { continue; }
        for (uint64_t i = 0; i < n0; ++i) {
            execute(first, {{first, i}});
            if (preemptions < 2) { continue; }
            for (uint64_t j = 0; j < n1; ++j) { execute(first, {{first, i}, {1 - first, j}}); }
        }
    }
}

} // namespace core
