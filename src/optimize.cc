// Minimization of a variable: all sets of attainable values and all orders in which the solver can find models.
#include "e2e.hh"
#include <limits>

namespace e2e {

using namespace core;

namespace {

struct OptScen {
    std::string text, var;
    Config opts;
    Strings args;
    double factor{1};
    std::optional<int> initial;
    std::string expected;    // value, unsat, or error
    std::optional<int> minimum; // minimum without initial bound
    int limit{100};          // maximum number of solve calls

    std::string str() const {
        std::ostringstream o;
        o << text << "@@" << var << "@@" << show_config(opts) << "@@";
        for (auto &a : args) { o << a << " "; }
        o << "@@" << factor << "@@" << (initial ? std::to_string(*initial) : "-") << "@@" << expected << "@@" << (minimum ? std::to_string(*minimum) : "-") << "@@" << limit;
        return o.str();
    }
    static OptScen parse(std::string const &s) {
        Strings f;
        for (size_t p = 0;;) {
            auto q = s.find("@@", p);
            f.push_back(s.substr(p, q == std::string::npos ? q : q - p));
            if (q == std::string::npos) { break; }
            p = q + 2;
        }
        OptScen r;
        r.text = f.at(0);
        r.var = f.at(1);
        r.opts = parse_config(f.at(2));
        std::istringstream in(f.at(3));
        std::string a;
        while (in >> a) { r.args.push_back(a); }
        r.factor = std::stod(f.at(4));
        if (f.at(5) != "-") { r.initial = std::stoi(f[5]); }
        r.expected = f.at(6);
        if (f.at(7) != "-") { r.minimum = std::stoi(f[7]); }
        r.limit = std::stoi(f.at(8));
        return r;
    }
};

//! Monitors the optimization.
class Handler : public Clingo::SolveEventHandler {
  public:
    Handler(OptScen const &sc, clingodl_theory_t *theory, Clingo::Symbol var) : sc{sc}, theory{theory}, var{var} {}
    bool on_model(Clingo::Model &m) override {
        if (!clingodl_on_model(theory, m.to_c())) { throw std::runtime_error("on_model failed"); }
        if (calls > sc.limit) { fail("no end after " + std::to_string(calls) + " solve calls"); throw std::runtime_error("too many solve calls"); }
        std::optional<int> val;
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) {
            if (s.match("dl", 2) && s.arguments()[0] == var) { val = s.arguments()[1].number(); }
        }
        if (!val) { fail("model without value for the variable"); return false; }
        if (last && *val >= *last) { fail("value " + std::to_string(*val) + " found after " + std::to_string(*last)); }
        if (sc.initial && *val > *sc.initial) { fail("value " + std::to_string(*val) + " above the initial bound"); }
        if (sc.minimum && *val < *sc.minimum) { fail("value " + std::to_string(*val) + " below the minimum"); }
        last = val;
        trace = hash_mix(trace, static_cast<uint64_t>(*val));
        return true;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        // clingo ends the process after errors here
        try { check_statistics(step, accu); } catch (std::exception const &e) { fail(std::string("exception: ") + e.what()); }
        if (calls > 2 * sc.limit) { throw std::runtime_error("too many solve calls"); } // ends the process
    }
    void check_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) {
        if (!clingodl_on_statistics(theory, step.to_c(), accu.to_c())) { throw std::runtime_error("on_statistics failed"); }
        ++calls;
        trace = hash_mix(trace, 7);
        for (auto *r : {&step, &accu}) {
            auto d = (*r)["DifferenceLogic"];
            bool has = d.has_subkey("Optimization");
            if (has != last.has_value() || (has && d["Optimization"].value() != *last)) { fail("wrong optimization value in statistics"); }
            if (d.has_subkey("Lower bound") && sc.minimum && d["Lower bound"].value() > *sc.minimum) {
                fail("lower bound " + std::to_string(d["Lower bound"].value()) + " exceeds the minimum " + std::to_string(*sc.minimum));
            }
            if (d.has_subkey("Lower bound")) { lower = true; }
        }
    }
    void fail(std::string s) { if (msg.empty()) { msg = std::move(s); } }

    OptScen const &sc;
    clingodl_theory_t *theory;
    Clingo::Symbol var;
    std::optional<int> last;
    std::string msg;
    int calls{0};
    bool lower{false};
    uint64_t trace{1};
};

void run_opt(OptScen const &sc, Results &res) {
    auto str = "OPT " + sc.str();
    set_current(str);
    auto bad = [&](std::string const &m) {
        Violation v("optimize", m + " minimizing " + sc.var + " in " + sc.text);
        v.replay = str;
        throw v;
    };
    Session s{sc.opts, sc.args};
    s.add(sc.text);
    s.ground("base");
    ClingoDL::OptimizerConfig cfg;
    cfg.symbol = Clingo::parse_term(sc.var.c_str());
    cfg.factor = sc.factor;
    cfg.active = true;
    if (sc.initial) { cfg.has_initial = true; cfg.initial = *sc.initial; }
    Handler h{sc, s.theory, cfg.symbol};
    std::string err;
    try { ClingoDL::Optimizer{cfg, h, s.theory}.solve(*s.ctl); }
    catch (std::exception const &e) { err = e.what(); }
    if (!h.msg.empty()) { bad(h.msg); }
    if (sc.expected == "error") {
        if (err.empty()) { bad("no error reported"); }
    } else {
        if (!err.empty()) { bad("error: " + err); }
        auto got = h.last ? std::to_string(*h.last) : "unsat";
        if (got != sc.expected) { bad("result " + got + " instead of " + sc.expected); }
    }
    if (h.lower) { res.add("runs_with_lower_bound"); }
    res.add("scenarios");
    res.add("states");
    res.add("transitions", h.calls);
    res.outcome(h.trace);
}

//! A program where the variable takes exactly the values in the set, models are found in order of preference.
std::string choice(std::vector<int> const &vals, std::vector<int> const &pref, std::string const &var, int shape) {
    std::ostringstream o;
    int n = static_cast<int>(vals.size());
    o << "1 {e(1.." << n << ")} 1. ";
    for (int i = 0; i < n; ++i) {
        switch (shape) {
            case 0: o << "&diff { " << var << " } = " << vals[i] << " :- e(" << i + 1 << "). "; break;
            case 1: o << "&diff { " << var << " - y } = " << vals[i] - 1 << " :- e(" << i + 1 << "). "; break;
            case 2: o << "&diff { " << var << " } >= " << vals[i] << " :- e(" << i + 1 << "). "; break;
            default: o << ":- e(" << i + 1 << "), &diff { " << var << " } != " << vals[i] << ". "; break;
        }
    }
    if (shape == 1) { o << "&diff { y } = 1. "; }
    if (shape == 2) { o << "&diff { " << var << " } >= " << *std::min_element(vals.begin(), vals.end()) << ". "; }
    int prio = 2 * n + 1;
    for (auto p : pref) { o << "#heuristic e(" << (std::find(vals.begin(), vals.end(), p) - vals.begin()) + 1 << "). [" << prio-- << ",true] "; }
    return o.str();
}

} // namespace

void check_optimize(Ctx &x, std::string const &) {
    auto T = x.thorough;
    size_t k = 0;
    auto run = [&](OptScen const &sc) {
        if (!x.mine()) { return; }
        x.sample(sc.str());
        run_opt(sc, x.res);
    };
    auto expect = [](OptScen &sc, std::vector<int> const &vals) {
        sc.expected = "unsat";
        sc.minimum = *std::min_element(vals.begin(), vals.end());
        if (!sc.initial || *sc.minimum <= *sc.initial) { sc.expected = std::to_string(*sc.minimum); }
        sc.limit = 4 * static_cast<int>(vals.size()) + 10;
    };
    std::vector<double> factors{1, 1.5, 2, 3, 10, 1000000, std::numeric_limits<int>::max()};
    std::vector<Config> opts;
    for (auto o : {"", "propagate:full", "propagate:zero propagate-root:1", "propagate:partial+ dl-heuristic:min", "dl-heuristic:max sort-edges:potential add-mutexes:2", "compute-components:no", "shift-constraints:yes propagate:inverse propagate-budget:1"}) { opts.push_back(parse_config(o)); }
    // all sets of values, all decreasing sequences of models: this covers every choice a solver can make
    // because models have decreasing values and the next one depends on the previous ones only via the bounds
    auto sets = [&](std::vector<int> const &range, size_t maxsize, std::vector<std::optional<int>> const &inits, int stride) {
        int n = static_cast<int>(range.size());
        for (int m = 1; m < (1 << n); ++m) {
            std::vector<int> vals;
            for (int i = 0; i < n; ++i) { if ((m >> i) & 1) { vals.push_back(range[i]); } }
            if (vals.size() > maxsize) { continue; }
            std::sort(vals.begin(), vals.end(), std::greater<>());
            for (int d = m;; d = (d - 1) & m) {
                std::vector<int> pref;
                for (int i = 0; i < n; ++i) { if ((d >> i) & 1) { pref.push_back(range[i]); } }
                std::sort(pref.begin(), pref.end(), std::greater<>());
                // the smallest value is the last one anyway
                for (auto f : factors) {
                    for (auto &in : inits) {
                        if (k++ % stride != 0) { continue; }
                        OptScen sc;
                        sc.var = k % 5 == 0 ? "f(1)" : k % 7 == 0 ? "(a,2)" : "x";
                        sc.args = {"1", "--heuristic=Domain"};
                        sc.opts = opts[k % 11 < opts.size() ? k % 11 : 0];
                        sc.factor = f;
                        sc.initial = in;
                        sc.text = choice(vals, pref, sc.var, in ? 0 : static_cast<int>(k % 4 == 2 ? 0 : k % 4));
                        expect(sc, vals);
                        run(sc);
                    }
                }
                if (d == 0) { break; }
            }
        }
    };
    std::vector<std::optional<int>> none{std::nullopt};
    sets({-3, -2, -1, 0, 1, 2}, 6, none, 1);
    sets({-2, -1, 0, 1, 2}, 5, {-3, -2, -1, 0, 1, 2, 3}, 1);
    if (T) { sets({-4, -3, -2, -1, 0, 1, 2, 3}, 8, none, 1); }
    sets({-20, -9, -8, 0, 1, 7, 15, 100}, T ? 8 : 6, none, 1);
    sets({-1000000000, -999999999, -1000, -1, 0, 1, 999999999, 1000000000}, T ? 8 : 5, none, 1);
    sets({-1000000000, -1000, 0, 1000000000}, 4, {-1000000001, -1000000000, 0, 1073741823}, 1);
    // dense ranges where the values are only bounded by constraints
    for (int lo = -6; lo <= 6; ++lo) {
        for (int start = lo; start <= (T ? 40 : 20); ++start) {
            for (auto f : factors) {
                for (auto &o : opts) {
                    OptScen sc;
                    sc.var = "x";
                    sc.args = {"1"};
                    sc.opts = o;
                    sc.factor = f;
                    sc.text = "{a}. &diff{y} >= " + std::to_string(start) + " :- not a. &diff{x-y} >= 0 :- not a. &diff{x} >= " + std::to_string(lo) + ". :- a, &diff{x} > " + std::to_string((lo + start) / 2) + ".";
                    sc.minimum = lo;
                    sc.expected = std::to_string(lo);
                    sc.limit = 4 * (start + 10) + 50;
                    run(sc);
                }
            }
        }
    }
    // makespan of schedules, several search configurations and threads
    {
        std::vector<Strings> argss{{"1"}, {"1", "-t2"}, {"1", "--configuration=jumpy"}, {"1", "--configuration=crafty", "--save-progress=1"}, {"0", "-t3"}, {"1", "--sat-prepro=2"}, {"1", "--opt-mode=ignore", "--sign-def=rnd", "--seed=7"}};
        for (int n = 2; n <= (T ? 5 : 4); ++n) {
            for (int m = 0; m < (1 << n); ++m) {
                int sum = 0;
                std::ostringstream o;
                for (int i = 1; i <= n; ++i) {
                    int d = 1 + 2 * ((m >> (i - 1)) & 1);
                    sum += d;
                    o << "&diff{s(" << i << ")} >= 0. &diff{mk-s(" << i << ")} >= " << d << ". ";
                    for (int j = 1; j < i; ++j) {
                        int e = 1 + 2 * ((m >> (j - 1)) & 1);
                        o << "{b(" << i << "," << j << ")}. &diff{s(" << i << ")-s(" << j << ")} >= " << e << " :- b(" << i << "," << j << "). &diff{s(" << j << ")-s(" << i << ")} >= " << d << " :- not b(" << i << "," << j << "). ";
                    }
                }
                for (int slack : {0, 1, 5}) {
                    for (auto f : factors) {
                        for (auto &a : argss) {
                            if (k++ % (1) != 0) { continue; }
                            OptScen sc;
                            sc.var = "mk";
                            sc.args = a;
                            sc.opts = opts[k % opts.size()];
                            sc.factor = f;
                            sc.text = o.str();
                            if (slack > 0) { sc.text += "&diff{mk-t} >= " + std::to_string(slack) + ". &diff{t} >= 0. &diff{t-s(1)} >= 0. "; }
                            // t starts with the first task, which can be moved to the front
                            int d1 = 1 + 2 * (m & 1);
                            (void)d1;
                            sc.minimum = std::max(sum, slack);
                            sc.expected = std::to_string(*sc.minimum);
                            sc.limit = 8 * sum + 50;
                            run(sc);
                        }
                    }
                }
            }
        }
    }
    // general programs: the minimum is the smallest bound the reference semantics can satisfy
    {
        std::vector<int> all{LE, GE, LT, EQ, NE};
        for (auto &r : Strings{"HHF", "HBH", "FHH", "HHH", "FBF", "NSF"}) {
            int n = 0;
            for_each_cons(2, 3, {-1, 2}, all, [&](std::vector<Con> const &c) {
                if (n++ % (T ? 5 : 23) != 0) { return; }
                for (auto &f : {1.0, 2.0, 10.0}) {
                    for (int fac = 0; fac < 2; ++fac) {
                        if (!x.mine()) { continue; }
                        auto p = make_prog(c, r);
                        int const lo = -8, hi = 12;
                        auto fact = [](Prog &q, Con c) { q.cons.push_back(c); Stm s; s.head = HEAD_DIFF; s.idx = static_cast<int>(q.cons.size()) - 1; q.stms.push_back(s); };
                        fact(p, {1, 0, GE, lo + fac});
                        int min = lo - 1;
                        bool found = false;
                        for (int b = lo; b <= hi && !found; ++b) {
                            auto q = p;
                            fact(q, {1, 0, LE, b});
                            if (!reference(q, 0, {}).empty()) { min = b; found = true; }
                        }
                        OptScen sc;
                        sc.var = "v1";
                        sc.args = {"1"};
                        sc.opts = opts[(n + fac) % opts.size()];
                        sc.factor = f;
                        sc.text = p.text(0);
                        for (auto &ch : sc.text) { if (ch == '\n') { ch = ' '; } }
                        for (size_t pos; (pos = sc.text.find("#program s0.")) != std::string::npos;) { sc.text.replace(pos, 12, ""); }
                        if (found) { sc.minimum = min; sc.expected = std::to_string(min); }
                        else { sc.expected = "unsat"; }
                        sc.limit = 200;
                        x.sample(sc.str());
                        run_opt(sc, x.res);
                    }
                }
            });
        }
    }
    // not supported: unknown and real valued variables, variables without value
    for (auto &o : opts) {
        for (auto f : factors) {
            OptScen sc;
            sc.args = {"1"};
            sc.opts = o;
            sc.factor = f;
            sc.expected = "error";
            sc.text = "&diff{x} >= 1.";
            sc.var = "y";
            run(sc);
            sc.text = "{a}. &diff{y-x} <= 1 :- a. &diff{x} >= 1. &diff{y-z} <= 2 :- a. :- a.";
            sc.args = {"1", "--heuristic=Domain"};
            run(sc);
            sc.args = {"1"};
            sc.opts.emplace_back("rdl", "yes");
            sc.var = "x";
            sc.text = "&diff{x} >= \"1.5\".";
            run(sc);
        }
    }
}

void replay_optimize(std::string const &s, Results &res) { run_opt(OptScen::parse(s), res); }

} // namespace e2e
