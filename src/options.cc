// Option values: all strings over small alphabets and all short sequences of settings. The effect of a setting is
// observed by running probe problems on all threads; it has to be the one of a theory whose options are set globally
// and canonically to what a reference grammar reads.
#include "options.hh"
#include <chrono>
#include <cctype>

#define EXP extern "C" __attribute__((visibility("default")))

namespace core {

using mock::Solver;

namespace {

//! Stand-in for the option parser of clingo.
struct Registry {
    struct Opt { bool (*parse)(char const *, void *){nullptr}; void *data{nullptr}; bool multi{false}; bool *flag{nullptr}; std::string help; };
    std::map<std::string, Opt> opts;
};

} // namespace

EXP bool clingo_options_add(clingo_options_t *o, char const *, char const *name, char const *help, bool (*parse)(char const *, void *), void *data, bool multi, char const *) {
    reinterpret_cast<Registry *>(o)->opts[name] = {parse, data, multi, nullptr, help};
    return true;
}
EXP bool clingo_options_add_flag(clingo_options_t *o, char const *, char const *name, char const *help, bool *target) {
    reinterpret_cast<Registry *>(o)->opts[name] = {nullptr, nullptr, false, target, help};
    return true;
}

namespace {

// ------------------------------------------------------------------ reference grammar
struct Thread { std::optional<int> mode, sort; std::optional<uint64_t> root, budget; };
struct Ref {
    int mode{0}, sort{1};
    uint64_t root{0}, budget{0};
    std::map<uint64_t, Thread> threads;
    uint64_t mutex{0};
    std::optional<uint64_t> cutoff;
    int heuristic{0};
    bool rdl{false}, shift{false}, cc{true};
};
char const *const MODE[] = {"no", "inverse", "partial", "partial+", "zero", "full"};
char const *const SORT[] = {"no", "weight", "weight-reversed", "potential", "potential-reversed"};
char const *const HEUR[] = {"none", "min", "max"};

std::string lower(std::string s) { for (auto &c : s) { c = static_cast<char>(tolower(static_cast<unsigned char>(c))); } return s; }

std::optional<uint64_t> number(std::string const &s) {
    if (s.empty()) { return std::nullopt; }
    unsigned __int128 r = 0;
    for (char c : s) {
        if (c < '0' || c > '9') { return std::nullopt; }
        r = r * 10 + static_cast<unsigned>(c - '0');
        if (r > std::numeric_limits<uint64_t>::max()) { return std::nullopt; }
    }
    return static_cast<uint64_t>(r);
}
template <size_t N> std::optional<int> word(std::string const &s, char const *const (&words)[N]) {
    for (size_t i = 0; i < N; ++i) { if (lower(s) == words[i]) { return static_cast<int>(i); } }
    return std::nullopt;
}
//! Apply the setting; returns false if it has to be rejected.
bool apply(Ref &r, std::string const &key, std::string const &val) {
    auto p = val.find(',');
    auto first = val.substr(0, p);
    std::optional<uint64_t> second;
    if (p != std::string::npos) {
        second = number(val.substr(p + 1));
        if (!second) { return false; }
    }
    if (key == "propagate" || key == "sort-edges" || key == "propagate-root" || key == "propagate-budget") {
        if (second && *second >= 64) { return false; }
        if (key == "propagate" || key == "sort-edges") {
            auto w = key == "propagate" ? word(first, MODE) : word(first, SORT);
            if (!w) { return false; }
            if (second) { (key == "propagate" ? r.threads[*second].mode : r.threads[*second].sort) = *w; }
            else { (key == "propagate" ? r.mode : r.sort) = *w; }
        } else {
            auto n = number(first);
            if (!n) { return false; }
            if (second) { (key == "propagate-root" ? r.threads[*second].root : r.threads[*second].budget) = *n; }
            else { (key == "propagate-root" ? r.root : r.budget) = *n; }
        }
        return true;
    }
    if (key == "add-mutexes") {
        auto n = number(first);
        if (!n) { return false; }
        r.mutex = *n;
        r.cutoff = second;
        return true;
    }
    if (key == "dl-heuristic") {
        if (lower(val) == "no") { r.heuristic = 0; return true; }
        auto w = word(val, HEUR);
        if (!w) { return false; }
        r.heuristic = *w;
        return true;
    }
    auto v = lower(val);
    bool yes = v == "yes" || v == "on" || v == "1";
    if (!yes && v != "no" && v != "off" && v != "0") { return false; }
    if (key == "rdl") { r.rdl = yes; return true; }
    if (key == "shift-constraints") { r.shift = yes; return true; }
    if (key == "compute-components") { r.cc = yes; return true; }
    return false;
}

// ------------------------------------------------------------------ probes
struct Op {
    std::string key, val;
    char via{'c'}; // c: configure, o: option callback
};
using Ops = std::vector<Op>;

std::string enc(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        if (isalnum(c) || c == '-' || c == '_' || c == '.') { r += static_cast<char>(c); }
        else { char b[4]; snprintf(b, sizeof(b), "%%%02x", c); r += b; }
    }
    return r;
}
std::string dec(std::string const &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else { r += s[i]; }
    }
    return r;
}
std::string show(Ops const &ops, int threads) {
    std::string s = "CFG " + std::to_string(threads);
    for (auto &o : ops) { s += std::string(" ") + o.via + enc(o.key) + "=" + enc(o.val); }
    return s;
}

struct Recorder : mock::Observer {
    std::ostringstream *out{nullptr};
    std::set<Clause> init;
    void on_clause(Solver &, Clause const &c) override {
        *out << "(";
        for (auto l : c) { *out << l << ","; }
        *out << ")";
    }
    void on_init_clause(mock::Problem &, Clause const &c) override {
        auto d = c;
        std::sort(d.begin(), d.end());
        init.insert(d);
    }
};

struct Probe {
    int lits;
    std::vector<Con> cons;
};
std::vector<Probe> const &probes() {
    static std::vector<Probe> ps = [] {
        std::vector<Probe> r;
        for (unsigned seed : {1U, 2U, 3U}) {
            // fixed graphs where each literal activates several edges
            Probe p;
            uint64_t x = seed * 7919;
            auto next = [&](uint64_t m) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return static_cast<int>((x >> 33) % m); };
            int vars = 3 + static_cast<int>(seed);
            p.lits = 5 + static_cast<int>(seed);
            for (int l = 2; l < 2 + p.lits; ++l) {
                for (int k = 0; k < (seed == 1 ? 3 : 2); ++k) {
                    int u = next(vars + 1), v = next(vars);
                    if (v >= u) { ++v; }
                    p.cons.push_back({u, v, LE, next(5) - 2, false, l});
                }
            }
            r.push_back(p);
        }
        // two components
        Probe c;
        c.lits = 4;
        c.cons = {{1, 2, LE, -1, false, 2}, {2, 1, LE, -1, false, 3}, {3, 4, LE, -2, false, 4}, {4, 3, LE, 1, false, 5}, {3, 0, LE, 1, false, 2}};
        r.push_back(c);
        return r;
    }();
    return ps;
}

struct Finger {
    std::string global;
    std::vector<std::string> threads;
};

[[noreturn]] void fail(std::string const &m) { throw Violation("options", m); }

//! Configure a theory with the given settings and check the results of the calls.
clingodl_theory_t *make(Ops const &ops, Ref *ref) {
    clingodl_theory_t *th = nullptr;
    if (!clingodl_create(&th)) { fail("create failed"); }
    struct Guard { clingodl_theory_t *&t; bool keep{false}; ~Guard() { if (!keep) { clingodl_destroy(t); } } } guard{th};
    Registry reg;
    bool any = false;
    for (auto &o : ops) { any = any || o.via == 'o'; }
    if (any) {
        if (!clingodl_register_options(th, reinterpret_cast<clingo_options_t *>(&reg))) { fail("registering options failed"); }
    }
    for (auto &o : ops) {
        Ref next = ref != nullptr ? *ref : Ref{};
        bool want = apply(next, o.key, o.val);
        bool got = false;
        if (o.via == 'c') {
            clingo_set_error(clingo_error_success, nullptr);
            got = clingodl_configure(th, o.key.c_str(), o.val.c_str());
            if (!got && (clingo_error_code() == clingo_error_success || clingo_error_message() == nullptr || *clingo_error_message() == '\0')) {
                fail("no error set for rejected value '" + o.val + "' of " + o.key);
            }
        } else {
            auto it = reg.opts.find(o.key);
            if (it == reg.opts.end()) { fail("option " + o.key + " not registered"); }
            if (it->second.parse != nullptr) { got = it->second.parse(o.val.c_str(), it->second.data); }
            else { got = want; if (want) { auto v = lower(o.val); *it->second.flag = v == "yes" || v == "on" || v == "1"; } }
        }
        if (got != want) { fail(std::string(got ? "accepted" : "rejected") + " value '" + o.val + "' of " + o.key); }
        if (want && ref != nullptr) { *ref = next; }
    }
    guard.keep = true;
    return th;
}

struct Node {
    clingodl_theory_t *th;
    mock::Problem &prob;
    std::ostringstream &out;
    int budget{80};
    void dfs(Solver &s) {
        if (budget-- <= 0) { return; }
        out << "@" << s.level() << ":";
        for (auto l : s.trail) { out << l << ","; }
        if (prob.prop.decide != nullptr) {
            for (int v = 2; v <= static_cast<int>(prob.nvars); ++v) {
                for (lit_t l : {v, -v}) {
                    lit_t d = 0;
                    if (s.value(v) == 0 && prob.prop.decide(s.tid, reinterpret_cast<clingo_assignment_t *>(&s), l, prob.prop_data, &d)) { out << "d" << d; }
                }
            }
        }
        size_t idx = 0;
        clingodl_assignment_begin(th, s.tid, &idx);
        while (clingodl_assignment_next(th, s.tid, &idx)) {
            clingodl_value_t v;
            clingodl_assignment_get_value(th, s.tid, idx, &v);
            out << "=" << v.type << ":" << (v.type == clingodl_value_type_int ? v.int_number : v.double_number);
        }
        auto level = s.level();
        lit_t v = 0;
        for (int i = 2; i <= static_cast<int>(prob.nvars) && v == 0; ++i) { if (s.val[i] == 0) { v = i; } }
        if (v == 0) { return; }
        for (lit_t l : {v, -v}) {
            if (s.val[v] != 0) { continue; }
            bool ok = s.decide(l);
            if (!prob.error.empty()) { fail("callback failed: " + prob.error); }
            if (ok) { dfs(s); } else { out << "x"; }
            s.backtrack(level);
            if (!s.fixpoint()) { out << "X"; return; }
        }
    }
};

std::string shifted(clingodl_theory_t *th) {
    std::string r;
    struct Data { clingodl_theory_t *th; std::string *r; } d{th, &r};
    clingo_ast_parse_string(":- &diff { a - b } <= 1, p.", [](clingo_ast_t *ast, void *p) {
        auto *d = static_cast<Data *>(p);
        return clingodl_rewrite_ast(d->th, ast, [](clingo_ast_t *a, void *q) {
            size_t n = 0;
            if (!clingo_ast_to_string_size(a, &n)) { return false; }
            std::vector<char> buf(n);
            if (!clingo_ast_to_string(a, buf.data(), n)) { return false; }
            *static_cast<Data *>(q)->r += buf.data();
            return true;
        }, d);
    }, &d, nullptr, nullptr, nullptr, 0);
    return r;
}

Finger finger(Ops const &ops, int threads, Ref *ref) {
    Finger f;
    f.threads.resize(threads);
    int n = 0;
    for (auto &p : probes()) {
        Ref tmp;
        auto *th = make(ops, n == 0 ? ref : &tmp);
        struct Guard { clingodl_theory_t *t; ~Guard() { clingodl_destroy(t); } } guard{th};
        std::ostringstream global;
        if (n == 0) { global << shifted(th); }
        Recorder rec;
        std::ostringstream out;
        rec.out = &out;
        mock::Problem prob;
        prob.set_threads(threads);
        prob.obs = &rec;
        if (!clingodl_register(th, prob.ctl())) { fail("register failed"); }
        global << (prob.prop.decide != nullptr ? "D" : "d");
        for (int k = 0; k < p.lits; ++k) { prob.new_var(); }
        for (auto &c : p.cons) { add_con(prob.data, c, false, 1); }
        bool ok = prob.init();
        if (!prob.error.empty()) { fail("init failed: " + prob.error); }
        global << ok << "C";
        for (auto &c : rec.init) { for (auto l : c) { global << l << ","; } global << ";"; }
        for (int t = 0; t < threads && ok; ++t) {
            auto &s = *prob.solvers[t];
            if (!s.fixpoint()) { out << "!"; }
            else { Node{th, prob, out}.dfs(s); }
            s.backtrack(0);
            f.threads[t] += out.str();
            out.str("");
        }
        mock::Stats st, ac;
        if (!clingodl_on_statistics(th, reinterpret_cast<clingo_statistics_t *>(&st), reinterpret_cast<clingo_statistics_t *>(&ac))) { fail("statistics failed"); }
        auto const *x = st.find({"DifferenceLogic", "CCs"});
        auto const *y = st.find({"DifferenceLogic", "Mutexes"});
        global << "#" << (x != nullptr ? x->value : -1) << "," << (y != nullptr ? y->value : -1);
        f.global += global.str();
        ++n;
    }
    return f;
}

//! The settings of one thread as global settings.
Ops canonical(Ref const &r, uint64_t t) {
    Thread th;
    auto it = r.threads.find(t);
    if (it != r.threads.end()) { th = it->second; }
    // beyond the number of levels, constraints, or costs all limits have the same effect
    auto lim = [](uint64_t x, uint64_t m) { return std::to_string(std::min(x, m)); };
    Ops o;
    o.push_back({"propagate", MODE[th.mode.value_or(r.mode)]});
    o.push_back({"sort-edges", SORT[th.sort.value_or(r.sort)]});
    o.push_back({"propagate-root", lim(th.root.value_or(r.root), 100)});
    o.push_back({"propagate-budget", lim(th.budget.value_or(r.budget), 1000000)});
    o.push_back({"add-mutexes", lim(r.mutex, 1000) + (r.cutoff ? "," + lim(*r.cutoff, 10000) : "")});
    o.push_back({"dl-heuristic", HEUR[r.heuristic]});
    o.push_back({"rdl", r.rdl ? "yes" : "no"});
    o.push_back({"shift-constraints", r.shift ? "yes" : "no"});
    o.push_back({"compute-components", r.cc ? "yes" : "no"});
    return o;
}
Finger const &expected(Ref const &r, uint64_t t) {
    static std::map<std::string, Finger> memo;
    auto ops = canonical(r, t);
    auto key = show(ops, 1);
    auto it = memo.find(key);
    if (it == memo.end()) { it = memo.emplace(key, finger(ops, 1, nullptr)).first; }
    return it->second;
}

void run(Ops const &ops, int threads, Results &res) {
    auto str = show(ops, threads);
    set_current(str);
    try {
        Ref ref;
        auto got = finger(ops, threads, &ref);
        for (int t = 0; t < threads; ++t) {
            auto &want = expected(ref, t);
            if (got.global != want.global) { fail("effect differs: " + got.global + " expected " + want.global); }
            if (got.threads[t] != want.threads[0]) { fail("effect of options on thread " + std::to_string(t) + " of " + std::to_string(threads) + " differs"); }
            res.outcome(std::hash<std::string>{}(got.threads[t]));
        }
        res.add("states", threads);
        res.add("transitions", ops.size());
        res.add("scenarios");
    } catch (Violation &v) {
        v.replay = str;
        v.msg += " (" + str + ")";
        throw;
    }
}

struct Stop {};

} // namespace

void replay_options(std::string const &s, Results &res) {
    std::istringstream in(s);
    std::string kw, tok;
    int threads = 1;
    in >> kw >> threads;
    Ops ops;
    while (in >> tok) {
        auto p = tok.find('=');
        ops.push_back({dec(tok.substr(1, p - 1)), dec(tok.substr(p + 1)), tok[0]});
    }
    run(ops, threads, res);
}

void check_options(Args const &args, int w, int nw, Results &res) {
    auto t0 = std::chrono::steady_clock::now();
    uint64_t idx = 0;
    bool T = args.tier == "thorough";
    auto mine = [&] {
        if (idx++ % nw != static_cast<uint64_t>(w)) { return false; }
        if (stop_requested()) { throw Stop{}; }
        std::chrono::duration<double> d = std::chrono::steady_clock::now() - t0;
        if (args.limit > 0 && d.count() > args.limit) { res.n["capped"] = 1; throw Stop{}; }
        return true;
    };
    try {
        // registered options
        if (mine()) {
            set_current("CFG 1");
            clingodl_theory_t *th = nullptr;
            clingodl_create(&th);
            Registry reg;
            if (!clingodl_register_options(th, reinterpret_cast<clingo_options_t *>(&reg))) { fail("registering options failed"); }
            for (auto k : {"propagate", "propagate-root", "propagate-budget", "add-mutexes", "sort-edges", "dl-heuristic", "rdl", "shift-constraints", "compute-components"}) {
                if (reg.opts.count(k) == 0) { fail(std::string("option not registered: ") + k); }
            }
            for (auto k : {"propagate", "propagate-root", "propagate-budget", "sort-edges"}) { if (!reg.opts[k].multi) { fail(std::string("option cannot be given for several threads: ") + k); } }
            for (auto k : {"rdl", "shift-constraints"}) { if (reg.opts[k].flag == nullptr || *reg.opts[k].flag) { fail(std::string("wrong default: ") + k); } }
            if (reg.opts["compute-components"].flag == nullptr || !*reg.opts["compute-components"].flag) { fail("wrong default: compute-components"); }
            clingodl_destroy(th);
            run({}, 3, res);
        }
        std::string const big = "18446744073709551615", over = "18446744073709551616";
        std::vector<std::string> words{"no", "inverse", "partial", "+", "zero", "full", ",", "0", "1", "63", "64", "-", " ", "NO", "Full", "f", "x"};
        std::vector<std::string> sorts{"no", "weight", "-reversed", "potential", "-", ",", "0", "1", "63", "64", " ", "WEIGHT", "-Reversed", "w", "none"};
        std::vector<std::string> nums{"0", "1", "2", "10", big, over, "36893488147419103232", "4294967296", ",", "63", "64", "-", "+", " ", "x"};
        std::vector<std::string> heur{"no", "none", "min", "max", "MIN", "Max", ",", "0", "m", "ne", " ", "1", "-"};
        std::vector<std::string> bools{"yes", "no", "on", "off", "0", "1", "YES", "nO", "On", " ", ",", "true", "y", "2", "f"};
        std::vector<std::pair<std::string, std::vector<std::string> const *>> keys{{"propagate", &words}, {"sort-edges", &sorts}, {"propagate-root", &nums}, {"propagate-budget", &nums}, {"add-mutexes", &nums}, {"dl-heuristic", &heur}, {"rdl", &bools}, {"shift-constraints", &bools}, {"compute-components", &bools}};
        // every string of up to n tokens; rejected ones are collected to check that they have no effect
        for (auto &[key, toks] : keys) {
            bool flag = toks == &bools;
            Ops rejected;
            int depth = T ? 4 : toks == &heur || flag ? 3 : 4;
            std::function<void(std::string, int)> rec = [&](std::string s, int d) {
                // quick: strings of four tokens contain a comma
                if (d < depth) { for (auto &t : *toks) { rec(s + t, d + 1); } }
                else if (d > 3 && !T && s.find(',') == std::string::npos) { return; }
                if (!mine()) { return; }
                Ref r;
                bool ok = apply(r, key, s);
                char via = flag || idx % 16 < 8 ? 'c' : 'o';
                if (ok) { run({{key, s, via}}, s.find(',') == std::string::npos || key == "add-mutexes" ? 2 : s.size() > 2 && s.substr(s.size() - 2) == "63" ? 64 : 3, res); }
                else {
                    res.add("rejected");
                    rejected.push_back({key, s, via});
                    if (rejected.size() >= 40) {
                        auto base = Ops{{key, flag ? "yes" : toks == &heur ? "max" : toks == &nums ? "2" : toks == &sorts ? "potential" : "partial+", 'c'}};
                        if (!flag && toks != &heur && key != "add-mutexes") { base.push_back({key, toks == &nums ? "1,1" : toks == &sorts ? "no,1" : "full,1", 'c'}); }
                        auto all = base;
                        all.insert(all.end(), rejected.begin(), rejected.end());
                        try { run(all, 3, res); }
                        catch (Violation const &) {
                            for (auto &o : rejected) { auto one = base; one.push_back(o); run(one, 3, res); }
                            throw;
                        }
                        rejected.clear();
                    }
                }
            };
            rec("", 0);
            for (auto &o : rejected) { run({{key, flag ? "yes" : toks == &heur ? "min" : toks == &nums ? "1" : toks == &sorts ? "no" : "zero", 'c'}, o}, 2, res); }
        }
        for (auto k : {"", "propagat", "propagate2", "propagate ", "root", "minimize-variable", "add-mutex", "dl-heuristics", "sort_edges", "threads"}) { if (mine()) { run({{k, "no", 'c'}, {k, "1", 'c'}, {k, "", 'c'}}, 2, res); } }
        // sequences of settings, through either interface
        std::vector<Op> rep;
        for (auto v : {"no", "zero", "full", "inverse,0", "full,1", "PARTIAL+,2", "partial,63", "full,64", "full,"}) { rep.push_back({"propagate", v}); }
        for (auto v : {"0", "2", "1,1", "100,0", "3,2", "x"}) { rep.push_back({"propagate-root", v}); }
        for (auto v : {"0", "3", "1,0", "0,1", "8,2", "1,"}) { rep.push_back({"propagate-budget", v}); }
        for (auto v : {"no", "potential", "weight-reversed,0", "potential-reversed,1", "weight,2", "weights"}) { rep.push_back({"sort-edges", v}); }
        for (auto v : {"0", "2", "3,1", "2,500", "1,x"}) { rep.push_back({"add-mutexes", v}); }
        for (auto v : {"min", "max", "none", "m"}) { rep.push_back({"dl-heuristic", v}); }
        for (auto k : {"rdl", "shift-constraints", "compute-components"}) { for (auto v : {"yes", "no", "maybe"}) { rep.push_back({k, v}); } }
        size_t n = 0;
        auto seq = [&](std::vector<Op> ops) {
            if (!mine()) { return; }
            for (auto &o : ops) { Ref r; o.via = (n++ % 3 == 0 && (apply(r, o.key, o.val) || (o.key != "rdl" && o.key != "shift-constraints" && o.key != "compute-components"))) ? 'o' : 'c'; }
            if (res.samples.size() < 2) { res.samples.push_back(show(ops, 3)); }
            run(ops, 3, res);
        };
        for (auto &a : rep) {
            for (auto &b : rep) {
                seq({a, b});
                for (auto &c : rep) {
                    if (a.key == b.key && b.key == c.key) { seq({a, b, c}); if (T) { for (auto &d : rep) { if (d.key == a.key) { seq({a, b, c, d}); } } } }
                    else if (T || (a.key == c.key && a.key != b.key)) { seq({a, b, c}); }
                }
            }
        }
    } catch (Stop const &) { }
}

} // namespace core
