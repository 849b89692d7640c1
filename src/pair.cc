// Two theory objects in one process: every interleaving of their operations gives each the trace it has alone.
#include "pair.hh"
#include <atomic>
#include <exception>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern "C" {
// part of the race detector's run-time library
__attribute__((weak)) void AnnotateIgnoreSyncBegin(char const *file, int line);
__attribute__((weak)) void AnnotateIgnoreSyncEnd(char const *file, int line);
}

namespace core {

using mock::Solver;

namespace {

//! The string representation of a symbol (representations as numbers differ between processes).
std::string const &show(clingo_symbol_t sym) {
    static thread_local std::map<clingo_symbol_t, std::string> memo;
    auto it = memo.find(sym);
    if (it != memo.end()) { return it->second; }
    size_t n = 0;
    clingo_symbol_to_string_size(sym, &n);
    std::vector<char> buf(n);
    clingo_symbol_to_string(sym, buf.data(), n);
    return memo[sym] = buf.data();
}

struct Inst {
    static constexpr int OPS_N = 7;
    Scenario sc;
    std::unique_ptr<mock::Problem> prob;
    clingodl_theory_t *theory{nullptr};
    std::ostringstream trace;
    int nv{0};
    bool dead{false};
    bool dead_step{false};
    bool first{false};

    explicit Inst(Scenario s) : sc{std::move(s)}, nv{num_vars(sc)} {}
    Inst(Inst const &) = delete;
    ~Inst() { if (theory != nullptr) { clingodl_destroy(theory); } }

    void req(bool ok, char const *what) {
        if (!ok) {
            char const *m = clingo_error_message();
            trace << "[" << what << " failed: " << (m != nullptr ? m : "?") << "]";
            dead = true;
        }
    }
    void state(Solver &s) {
        trace << "@" << s.level() << ":";
        for (auto l : s.trail) { trace << l << ","; }
        trace << "=";
        size_t idx = 0;
        clingodl_assignment_begin(theory, s.tid, &idx);
        while (clingodl_assignment_next(theory, s.tid, &idx)) {
            clingodl_value_t v;
            clingodl_assignment_get_value(theory, s.tid, idx, &v);
            trace << show(clingodl_get_symbol(theory, idx)) << ":" << (v.type == clingodl_value_type_int ? v.int_number : v.double_number) << ",";
        }
        if (prob->prop.decide != nullptr) {
            for (int v = 2; v <= static_cast<int>(prob->nvars); ++v) {
                for (lit_t l : {v, -v}) {
                    lit_t out = 0;
                    if (s.value(v) == 0 && prob->prop.decide(s.tid, reinterpret_cast<clingo_assignment_t *>(&s), l, prob->prop_data, &out)) { trace << "d" << out; }
                }
            }
        }
    }
    void dfs(Solver &s) {
        state(s);
        auto level = s.level();
        lit_t v = 0;
        for (int i = 2; i <= static_cast<int>(prob->nvars) && v == 0; ++i) { if (s.val[i] == 0) { v = i; } }
        if (v == 0) {
            mock::Model m{s.tid, {}};
            req(clingodl_on_model(theory, reinterpret_cast<clingo_model_t *>(&m)), "on_model");
            trace << "M";
            for (auto x : m.symbols) { trace << show(x) << ","; }
            return;
        }
        for (lit_t l : {v, -v}) {
            if (s.val[v] != 0) { continue; }
            bool ok = s.decide(l);
            if (!prob->error.empty()) { trace << "[" << prob->error << "]"; dead = true; }
            if (ok) { dfs(s); }
            else { trace << "x"; }
            s.backtrack(level);
            if (!s.fixpoint()) { trace << "X"; return; }
        }
    }
    void step(size_t i) {
        for (int k = 0; k < sc.steps[i].nlits; ++k) { prob->new_var(); }
        prob->data.clear();
        for (auto &c : sc.steps[i].cons) { add_con(prob->data, c, sc.rdl, sc.scale); }
        trace << "|step";
        dead_step = !prob->init();
        if (!prob->error.empty()) { trace << "[" << prob->error << "]"; dead = true; }
        auto &s = *prob->solvers[0];
        dead_step = dead_step || !s.fixpoint();
        trace << (dead_step ? "!" : "");
    }
    void op(int k) {
        if (dead) { return; }
        switch (k) {
            case 0:
                req(clingodl_create(&theory), "create");
                if (sc.rdl) { req(clingodl_configure(theory, "rdl", "yes"), "rdl"); }
                for (auto &c : sc.config) { req(clingodl_configure(theory, c.first.c_str(), c.second.c_str()), "configure"); }
                break;
            case 1:
                prob = std::make_unique<mock::Problem>();
                prob->set_threads(sc.threads);
                prob->multi = sc.steps.size() > 1;
                req(clingodl_register(theory, prob->ctl()), "register");
                trace << prob->added_programs;
                break;
            case 2: step(0); break;
            case 3:
                if (!dead_step) {
                    auto &s = *prob->solvers[0];
                    for (int i = 2; i <= static_cast<int>(prob->nvars); ++i) {
                        if (s.val[i] == 0) {
                            first = s.decide(i);
                            if (first) { state(s); }
                            break;
                        }
                    }
                }
                break;
            case 4:
                if (!dead_step) {
                    auto &s = *prob->solvers[0];
                    if (first) { dfs(s); }
                    s.backtrack(0);
                    if (s.fixpoint()) { dfs(s); }
                }
                break;
            case 5:
                if (sc.steps.size() > 1 && !dead_step) {
                    step(1);
                    if (!dead_step) { dfs(*prob->solvers[0]); }
                }
                break;
            case 6: {
                mock::Stats st, ac;
                req(clingodl_on_statistics(theory, reinterpret_cast<clingo_statistics_t *>(&st), reinterpret_cast<clingo_statistics_t *>(&ac)), "statistics");
                auto n = [&](mock::Stats &x, std::vector<std::string> const &p) { auto const *y = x.find(p); return y != nullptr ? y->value : -1; };
                for (auto *x : {&st, &ac}) {
                    for (auto k2 : {"CCs", "Mutexes", "Edges", "Variables"}) { trace << n(*x, {"DifferenceLogic", k2}) << ","; }
                    for (auto k2 : {"True edges", "False edges", "False edges (inverse)", "False edges (partial)", "False edges (partial+)", "Edges added", "Edges skipped",
                                    "Edges propagated", "Cost consistency", "Cost forward", "Cost backward"}) {
                        trace << n(*x, {"DifferenceLogic", "Thread", "0", k2}) << ",";
                    }
                }
                req(clingodl_destroy(theory), "destroy");
                theory = nullptr;
                break;
            }
        }
    }
};

std::string compute(Scenario const &sc) {
    Inst x(sc);
    for (int k = 0; k < Inst::OPS_N; ++k) { x.op(k); }
    return x.trace.str();
}

//! A process forked before the library is used for the first time; it forks a fresh process for each scenario.
struct Zygote {
    int to{-1}, from{-1};
    pid_t pid{-1};

    static bool put(int fd, void const *p, size_t n) {
        for (auto const *c = static_cast<char const *>(p); n > 0;) {
            auto r = write(fd, c, n);
            if (r <= 0) { return false; }
            c += r;
            n -= r;
        }
        return true;
    }
    static bool get(int fd, void *p, size_t n) {
        for (auto *c = static_cast<char *>(p); n > 0;) {
            auto r = read(fd, c, n);
            if (r <= 0) { return false; }
            c += r;
            n -= r;
        }
        return true;
    }
    static bool send(int fd, std::string const &s) {
        uint64_t n = s.size();
        return put(fd, &n, sizeof(n)) && put(fd, s.data(), n);
    }
    static bool receive(int fd, std::string &s) {
        uint64_t n = 0;
        if (!get(fd, &n, sizeof(n))) { return false; }
        s.resize(n);
        return get(fd, &s[0], n);
    }
    Zygote() {
        int a[2], b[2];
        if (pipe(a) != 0 || pipe(b) != 0) { throw std::runtime_error("pipe failed"); }
        pid = fork();
        if (pid == 0) {
            close(a[1]);
            close(b[0]);
            alarm(0);
            for (std::string s; receive(a[0], s);) {
                auto c = fork();
                if (c == 0) {
                    alarm(60);
                    std::string r;
                    try { r = compute(Scenario::parse(s)); }
                    catch (std::exception const &e) { r = std::string("exception ") + e.what(); }
                    send(b[1], r);
                    _exit(0);
                }
                int st = 0;
                waitpid(c, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { send(b[1], "crash"); }
            }
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = b[0];
    }
};

//! The trace of a theory object that is the only one its process ever sees.
std::string solo(Scenario const &sc) {
    static std::map<std::string, std::string> memo;
    static Zygote zygote;
    auto key = sc.str();
    auto it = memo.find(key);
    if (it != memo.end()) { return it->second; }
    std::string r;
    if (!Zygote::send(zygote.to, key) || !Zygote::receive(zygote.from, r)) { throw std::runtime_error("no answer from the helper process"); }
    if (memo.size() > 5000) { memo.clear(); }
    return memo[key] = r;
}

//! Run the operations of two objects on two threads in the given order.
//!
//! The race detector does not see how the threads are ordered: two accesses to the same memory in different threads
//! are reported no matter in which order they happen to be performed.
void run_threads(Inst &x, Inst &y, std::string const &ord) {
    std::atomic<int> pos{0};
    std::exception_ptr err[2];
    auto run = [&](int t) {
        if (AnnotateIgnoreSyncBegin != nullptr) { AnnotateIgnoreSyncBegin(__FILE__, __LINE__); }
        int k = 0;
        auto n = static_cast<int>(ord.size());
        while (k < Inst::OPS_N) {
            int p = pos.load();
            if (p >= n) { break; }
            if (ord[p] - '0' != t) {
                syscall(SYS_futex, reinterpret_cast<int *>(&pos), FUTEX_WAIT_PRIVATE, p, nullptr, nullptr, 0);
                continue;
            }
            if (!err[t]) {
                try { (t == 0 ? x : y).op(k); } catch (...) { err[t] = std::current_exception(); }
            }
            ++k;
            ++pos;
            syscall(SYS_futex, reinterpret_cast<int *>(&pos), FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0);
        }
        if (AnnotateIgnoreSyncEnd != nullptr) { AnnotateIgnoreSyncEnd(__FILE__, __LINE__); }
    };
    std::thread a(run, 0), b(run, 1);
    a.join();
    b.join();
    for (auto &e : err) { if (e) { std::rethrow_exception(e); } }
}

} // namespace

void run_pair(Scenario const &a, Scenario const &b, std::string const &order, bool threads, Results &res) {
    std::string sa = solo(a), sb = solo(b);
    res.add("scenarios");
    auto run = [&](std::string const &ord) {
        set_current("PAIR " + a.str() + "##" + b.str() + "##" + ord);
        Inst x(a), y(b);
        int i = 0, j = 0;
        if (threads) { run_threads(x, y, ord); }
        else { for (char c : ord) { if (c == '0') { x.op(i++); } else { y.op(j++); } } }
        res.add("interleavings");
        res.add("transitions", ord.size());
        res.add("states", ord.size());
        auto diff = [&](char const *who, std::string const &got, std::string const &want) {
            if (got == want) { return; }
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p]) { ++p; }
            p = p > 30 ? p - 30 : 0;
            Violation v("interference", std::string("the ") + who + " theory object behaves differently next to another one: ..." + got.substr(p, 120) + " instead of ..." + want.substr(p, 120));
            v.replay = "PAIR " + a.str() + "##" + b.str() + "##" + ord;
            throw v;
        };
        diff("first", x.trace.str(), sa);
        diff("second", y.trace.str(), sb);
        res.outcome(std::hash<std::string>{}(sa + sb));
    };
    if (!order.empty()) { run(order); return; }
    std::string ord(2 * Inst::OPS_N, '0');
    std::fill(ord.begin() + Inst::OPS_N, ord.end(), '1');
    do { run(ord); } while (std::next_permutation(ord.begin(), ord.end()));
}

} // namespace core
