// Entry point of the mock based checks.
#include "families.hh"
#include "options.hh"
#include "pair.hh"
#include "threads.hh"
#include <chrono>
#include <cmath>
#include <fstream>
#include <iostream>

using namespace core;

namespace {

void run_one(Scenario const &sc, Results &res, bool free_running = false) {
    set_current(sc.str());
    auto lim = Limits::parse(sc.extra);
    try {
        if (lim.kind == "ops") { Explorer(sc, res).run_ops(); }
        else if (lim.kind == "thr") { run_threads(sc, res, free_running); }
        else { Explorer(sc, res).run(); }
    } catch (Violation &v) {
        v.replay = sc.str();
        throw;
    } catch (std::exception const &e) {
        Violation v("exception", e.what());
        v.replay = sc.str();
        throw v;
    }
}

struct Stop {};

//! Enumeration context of one worker.
struct Ctx {
    Args const &args;
    int w, nw;
    Results &res;
    bool thorough;
    bool tsan{false};
    uint64_t idx{0};
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    std::vector<Config> configs;
    std::vector<int> beh{0};   // bit 0: forget learnt clauses, bit 1: one literal per call, bit 2: jump on asserting clauses
    Limits lim{};

    //! Run the scenario under all current configurations and solver behaviours.
    void operator()(Scenario sc) {
        if (idx++ % nw != static_cast<uint64_t>(w)) { return; }
        if (stop_requested()) { throw Stop{}; }
        if (args.limit > 0 && (idx / nw) % 16 == 0) {
            std::chrono::duration<double> d = std::chrono::steady_clock::now() - t0;
            if (d.count() > args.limit) { res.n["capped"] = 1; throw Stop{}; }
        }
        for (auto const &c : configs) {
            sc.config = c;
            for (int b : beh) {
                sc.forget = (b & 1) != 0;
                sc.chunk = (b & 2) != 0 ? 1 : 0;
                auto l = lim;
                l.jump = (b & 4) != 0;
                sc.extra = l.str();
                if (res.samples.size() < 2 && (idx / nw) % 37 == 1) { res.samples.push_back(sc.str()); }
                run_one(sc, res, tsan);
            }
        }
    }
    //! Like graphs but for all orders of the constraints in the program.
    void sequences(int V, int E, std::vector<int> const &weights, std::vector<std::string> const &patterns) {
        for_each_sequence(V, E, weights, [&](GVec const &g) {
            for (auto const &p : patterns) { (*this)(make_scenario(g, p)); }
        });
    }
    void graphs(int V, int E, std::vector<int> const &weights, std::vector<std::string> const &patterns) {
        for_each_graph(V, E, weights, [&](GVec const &g) {
            for (auto const &p : patterns) { (*this)(make_scenario(g, p)); }
        });
    }
};

std::vector<Config> cfgs(std::initializer_list<char const *> l) {
    std::vector<Config> r;
    for (auto x : l) { r.push_back(cfg(x)); }
    return r;
}

using V = std::vector<int>;
using P = std::vector<std::string>;

// literal patterns with shared, negated, fact and strict literals (see families.hh)
P const PAT3{"ooo", "oso", "ono", "oof", "ofo", "obo", "boo", "oob", "goG", "lgo", "onn", "oSo", "ooN", "bbo"};
P const PAT3S{"ooo", "oso", "ono", "oof", "obo", "ooN", "goG"};
P const PAT4{"oooo", "ooso", "oono", "ooof", "oobo"};

//! Large structured topologies: long paths, wide heaps, ladders, components.
void structured(Ctx &x) {
    auto keep = x.lim;
    auto beh = x.beh;
    x.lim.all_orders = false;
    // cycles of length 4..: every decision order, all decisions positive (and one deviation)
    x.lim.max_neg = x.thorough ? 1 : 0;
    x.beh = {0};
    for_each_cycle(4, {{0, -1}, {1, -2, 0}, {-1, 1, -1, 0}}, false, true, std::ref(x));
    for_each_cycle(5, {{0, 0, -1, 1, -1}, {2, -1, -1, 1, -1}}, false, true, std::ref(x));
    for_each_tail(3, {{0, 0, -1}, {1, 0, -2}}, std::ref(x));
    x.lim.max_neg = 1;
    for_each_cycle(4, {{0, -1, 1, -1}}, true, false, std::ref(x));
    for_each_cycle(7, {{0, -1, 1, -1, 2, -2, 0}}, false, false, std::ref(x));
    if (x.thorough) {
        x.lim.max_neg = 0;
        for_each_cycle(6, {{0, 0, -1, 1, -1, 0}, {3, -1, -1, -1, -1, 0}, {-1, -1, -1, -1, -1, 4}}, false, true, std::ref(x));
        x.lim.max_neg = 1;
        for_each_cycle(5, {{0, -1, 1, -1, 1}, {-2, 1, 1, 1, -1}}, true, false, std::ref(x));
        for_each_cycle(9, {{0, -1, 1, -1, 2, -2, 0, 1, -1}}, false, false, std::ref(x));
    }
    x.lim.max_neg = 0;
    for (bool z : {false, true}) {
        for_each_fan(3, 1, z, std::ref(x));
        for_each_fan(6, x.thorough ? 1 : 5, z, std::ref(x));
        if (x.thorough) { for_each_fan(8, 41, z, std::ref(x)); for_each_fan(22, 1 << 30, z, std::ref(x)); }
        for_each_cascade(3, 1, z, std::ref(x));
        for_each_cascade(6, x.thorough ? 1 : 5, z, std::ref(x));
        if (x.thorough) { for_each_cascade(7, 3, z, std::ref(x)); }
        for_each_deep(26, x.thorough ? 1 : 3, z, std::ref(x));
        if (x.thorough) { for_each_deep(11, 1, z, std::ref(x)); for_each_deep(88, 17, z, std::ref(x)); }
        for_each_ladder(x.thorough ? 4 : 3, z, std::ref(x));
    }
    x.lim = keep;
    x.beh = beh;
}

//! The graph families most mode specific checks share.
void core_families(Ctx &x) {
    auto keep = x.lim;
    x.beh = {0, 1, 6};
    x.graphs(2, 3, {-2, -1, 0, 1, 2}, PAT3);
    x.graphs(3, 3, {-1, 0, 1}, PAT3S);
    x.beh = {0};
    x.graphs(3, 4, {-1, 0, 1}, {"oooo"});
    // sums over paths leave the range of the weights
    x.graphs(3, 3, {-715827000, 1, 715827000}, {"ooo", "bob"});
    x.graphs(2, 3, {-1073741000, 0, 1073741000}, {"ooo", "obb"});
    structured(x);
    if (x.thorough) {
        x.beh = {0, 1, 6, 3, 5};
        x.graphs(3, 3, {-2, -1, 0, 1, 2}, PAT3);
        x.beh = {0, 1};
        x.graphs(2, 4, {-2, -1, 0, 1, 2}, PAT4);
        x.graphs(3, 4, {-1, 0, 1}, PAT4);
        x.lim.all_orders = false;
        x.beh = {0, 6};
        x.graphs(2, 5, {-1, 0, 1}, {"ooooo"});
        x.graphs(3, 5, {-1, 0, 1}, {"ooooo"});
        x.graphs(4, 4, {-1, 0, 1}, {"oooo"});
    }
    x.lim = keep;
}

//! Constraints connected by clauses: several literals become true at once, derived clauses conflict with the program.
void clausal_families(Ctx &x) {
    auto keep = x.lim;
    auto beh = x.beh;
    x.lim.kind = "dfs";
    x.beh = {0};
    auto clauses = [](int n, bool ternary) {
        std::vector<Clause> r;
        for (int i = 2; i < n + 2; ++i) {
            for (int j = i + 1; j < n + 2; ++j) {
                for (int m = 0; m < 4; ++m) { r.push_back({m & 1 ? i : -i, m & 2 ? j : -j}); }
                if (ternary) {
                    for (int k = j + 1; k < n + 2; ++k) { for (int m = 0; m < 8; ++m) { r.push_back({m & 1 ? i : -i, m & 2 ? j : -j, m & 4 ? k : -k}); } }
                }
            }
        }
        return r;
    };
    auto one = [&](GVec const &g, std::string const &pat, std::vector<Clause> const &cs) {
        auto sc = make_scenario(g, pat);
        for (auto &c : cs) {
            sc.steps[0].clauses = {c};
            x(sc);
        }
    };
    auto two = [&](GVec const &g, std::string const &pat, std::vector<Clause> const &cs) {
        auto sc = make_scenario(g, pat);
        for (size_t i = 0; i < cs.size(); ++i) {
            for (size_t j = i + 1; j < cs.size(); ++j) {
                sc.steps[0].clauses = {cs[i], cs[j]};
                x(sc);
            }
        }
    };
    x.lim.all_orders = true;
    x.lim.max_free_orders = 2;
    auto c3 = clauses(3, true), b3 = clauses(3, false), b4 = clauses(4, false), c4 = clauses(4, true);
    for_each_sequence(1, 4, {-1, 0}, [&](GVec const &g) { one(g, "oooo", b4); });
    for_each_sequence(2, 3, {-1, 0}, [&](GVec const &g) { one(g, "ooo", c3); });
    for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { two(g, "ooo", b3); one(g, "oob", b3); });
    for_each_graph(3, 3, {-1, 0}, [&](GVec const &g) { one(g, "ooo", b3); });
    x.lim.max_free_orders = 1;
    for_each_graph(2, 4, {-1, 1}, [&](GVec const &g) { one(g, "oooo", b4); });
    // triangles with doubled edges
    x.lim.all_orders = false;
    std::vector<int> const W[] = {{1, 2, 0, -2, -3}, {-1, -1, 2, -2, -1}, {0, 1, 0, -1, -1}};
    for (auto const &w : W) {
        for (int zero = x.thorough ? -1 : 0; zero < 3; ++zero) {
            int v[3];
            int next = 1;
            for (int i = 0; i < 3; ++i) { v[i] = i == zero ? 0 : next++; }
            Con cs[] = {{v[0], v[1], LE, w[0], false, 0}, {v[0], v[1], LE, w[1], false, 0}, {v[1], v[2], LE, w[2], false, 0}, {v[2], v[0], LE, w[3], false, 0}, {v[2], v[0], LE, w[4], false, 0}};
            std::vector<int> p{0, 1, 2, 3, 4};
            do {
                std::vector<Con> c;
                for (auto i : p) { c.push_back(cs[i]); }
                auto sc = ordered_scenario(c);
                for (int i = 2; i < 7; ++i) {
                    for (int j = 2; j < 7; ++j) {
                        if (i == j) { continue; }
                        sc.steps[0].clauses = {{-i, j}};
                        x(sc);
                        if (x.thorough && i < j) { sc.steps[0].clauses = {{i, j}}; x(sc); sc.steps[0].clauses = {{-i, -j}}; x(sc); }
                    }
                }
            } while (std::next_permutation(p.begin(), p.end()));
        }
    }
    x.lim.all_orders = true;
    if (x.thorough) {
        x.lim.max_free_orders = 3;
        for_each_sequence(1, 4, {-1, 0}, [&](GVec const &g) { one(g, "oooo", c4); two(g, "oooo", b4); });
        for_each_graph(2, 4, {-1, 0, 1}, [&](GVec const &g) { one(g, "oooo", c4); });
        for_each_graph(3, 4, {-1, 0}, [&](GVec const &g) { one(g, "oooo", b4); });
        for_each_sequence(2, 3, {-1, 0, 1}, [&](GVec const &g) { two(g, "ooo", b3); });
    }
    x.lim = keep;
    x.beh = beh;
}

//! Small instances of every feature that can influence a property: steps, threads, fixed literals, relations, real
//! numbers, the order of constraints, and options besides the mode.
void wide_families(Ctx &x) {
    clausal_families(x);
    auto keep = x.lim;
    auto configs = x.configs;
    auto beh = x.beh;
    auto multi = [&](GVec const &g, std::string const &pat, int n, char const *what) { for_each_multishot(make_scenario(g, pat), n, what, std::ref(x)); };
    x.lim.kind = "dfs";
    x.beh = {0};
    x.lim.max_free_orders = 2;
    x.lim.all_orders = true;
    for_each_graph(2, 2, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"oo", "of", "fo", "on", "ff", "os"}) { multi(g, pat, 2, "pcate"); } });
    for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo"}) { multi(g, pat, 2, "p"); } multi(g, "ooo", 3, "pt"); });
    for_each_graph(3, 3, {-1, 0}, [&](GVec const &g) { multi(g, "ooo", 2, "p"); });
    // all orders of the constraints
    x.lim.max_free_orders = 3;
    x.sequences(2, 3, {-1, 1}, {"ooo", "obn"});
    x.sequences(3, 3, {-1, 0}, {"ooo"});
    // relations
    int ops[] = {LE, GE, LT, GT, EQ, NE};
    for (int op : ops) {
        for (bool strict : {false, true}) {
            for (int w : {-1, 0, 1}) {
                for (lit_t lit : {1, 2, -2}) {
                    for (auto [u, v] : {std::pair<int, int>{1, 2}, {1, 0}, {0, 2}}) {
                        for (int w2 : {-1, 0}) {
                            x(ordered_scenario({Con{u, v, op, w, strict, lit}, Con{2, 1, LE, w2, false, 3}, Con{2, 0, LE, 1, false, 4}}));
                            x(ordered_scenario({Con{2, 1, LE, w2, false, 2}, Con{u, v, op, w, strict, lit == 1 ? 3 : lit}}));
                        }
                    }
                }
            }
        }
    }
    // real numbers
    auto real = [&](GVec const &g, std::string const &pat, double scale, bool steps) {
        auto sc = make_scenario(g, pat);
        sc.rdl = true;
        sc.scale = scale;
        x(sc);
        if (steps) { for_each_multishot(sc, 2, "p", std::ref(x)); }
    };
    for_each_graph(2, 3, {-1, 0, 1}, [&](GVec const &g) { real(g, "ooo", 0.5, false); real(g, "ono", 0.25, false); });
    for_each_graph(3, 3, {-3, 1}, [&](GVec const &g) { real(g, "oof", 0.125, false); });
    for_each_graph(2, 2, {-1, 1}, [&](GVec const &g) { real(g, "oo", 0.5, true); });
    // options besides the mode
    auto with = [&](std::initializer_list<char const *> extra) {
        x.configs.clear();
        for (auto &c : configs) {
            for (auto e : extra) {
                auto d = c;
                for (auto &kv : cfg(e)) { d.push_back(kv); }
                x.configs.push_back(d);
            }
        }
    };
    with({"add-mutexes:2,1000", "add-mutexes:3,5", "compute-components:no", "sort-edges:no", "sort-edges:weight", "sort-edges:weight-reversed", "sort-edges:potential", "sort-edges:potential-reversed", "dl-heuristic:min", "dl-heuristic:max"});
    x.lim.max_free_orders = 6;
    for_each_graph(2, 3, {-1, 0}, [&](GVec const &g) { for (auto pat : {"ooo", "ono", "osf"}) { x(make_scenario(g, pat)); } });
    for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { x(make_scenario(g, "ooo")); });
    with({"add-mutexes:2,1000", "compute-components:no"});
    x.lim.max_free_orders = 2;
    for_each_graph(2, 2, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"oo", "of", "on"}) { multi(g, pat, 2, "pct"); } });
    x.configs = configs;
    x.lim = keep;
    x.beh = beh;
}

std::vector<Config> const MODES_AND_LIMITS = cfgs({"propagate:no", "propagate:inverse", "propagate:partial", "propagate:partial+", "propagate:zero", "propagate:full",
                                                   "propagate:no propagate-root:2", "propagate:zero propagate-root:1", "propagate:partial propagate-budget:1",
                                                   "propagate:zero propagate-budget:3 sort-edges:potential-reversed", "propagate:full sort-edges:weight-reversed",
                                                   "propagate:partial+ sort-edges:no propagate-root:1 propagate-budget:2"});

void check(Ctx &x) {
    auto const &p = x.args.prop;
    x.configs = modes();
    auto const std_modes = modes();
    if (p == "C01") {
        x.lim.oracles = O_CONS | O_LEAF;
        x.configs = x.thorough ? MODES_AND_LIMITS : std_modes;
        core_families(x);
        wide_families(x);
        // equality and inequality constraints and multi-shot extensions
        x.beh = {0};
        x.graphs(2, 3, {-1, 1}, {"oof", "sof"});
    }
    else if (p == "C02") {
        x.lim.oracles = O_CLAUSE | O_LEAF;
        x.configs = MODES_AND_LIMITS;
        x.beh = {0, 1, 6};
        x.graphs(2, 3, {-2, -1, 0, 1, 2}, PAT3S);
        x.graphs(3, 3, {-1, 0, 1}, x.thorough ? PAT3 : P{"ooo", "ono", "oof"});
        x.configs = std_modes;
        x.beh = {0};
        x.graphs(3, 4, {-1, 0, 1}, {"oooo"});
        structured(x);
        wide_families(x);
        if (x.thorough) { x.configs = MODES_AND_LIMITS; core_families(x); }
    }
    else if (p == "C03") {
        x.lim.oracles = O_VALUE;
        x.configs = std_modes;
        auto c = cfgs({"propagate:no compute-components:no", "propagate:full compute-components:no", "propagate:no sort-edges:potential", "propagate:zero sort-edges:no"});
        x.configs.insert(x.configs.end(), c.begin(), c.end());
        x.beh = {0, 6};
        x.graphs(2, 3, {-2, -1, 0, 1, 2}, PAT3);
        x.graphs(3, 3, {-1, 0, 1}, PAT3S);
        x.configs = std_modes;
        core_families(x);
        wide_families(x);
        x.beh = {0};
        x.lim.all_orders = false;
        for_each_components(2, {-1, 1}, 2, std::ref(x));
    }
    else if (p == "C04") {
        x.lim.kind = "ops";
        x.lim.oracles = O_EXACT | O_CONS | O_VALUE | O_CLAUSE | O_FULL | O_ZERO | O_INV | O_API;
        x.configs = std_modes;
        auto c = cfgs({"propagate:no propagate-root:2", "propagate:zero propagate-root:2", "propagate:partial propagate-budget:2", "propagate:zero propagate-budget:3"});
        x.configs.insert(x.configs.end(), c.begin(), c.end());
        x.lim.depth = 4;
        x.beh = {1, 4};
        x.graphs(2, 3, {-1, 0, 1}, {"ooo", "ono"});
        x.lim.depth = 5;
        x.beh = {1};
        x.configs = std_modes;
        x.graphs(2, 3, {-1, 1}, {"ooo"});
        x.graphs(3, 3, {-1, 1}, {"ooo"});
        // exact comparison along depth first histories on larger graphs
        x.lim.kind = "dfs";
        x.configs = std_modes;
        x.beh = {1};
        x.graphs(3, 4, {-1, 1}, {"oooo"});
        structured(x);
        wide_families(x);
        if (x.thorough) {
            x.lim.kind = "ops";
            x.configs = std_modes;
            x.lim.depth = 6;
            x.beh = {1};
            x.graphs(2, 3, {-1, 0, 1}, {"ooo", "ono", "oso"});
            x.lim.depth = 5;
            x.beh = {0, 1, 4, 5};
            x.graphs(3, 3, {-1, 0, 1}, {"ooo", "oob"});
            x.lim.depth = 4;
            x.beh = {1, 3};
            x.graphs(3, 4, {-1, 1}, {"oooo"});
        }
    }
    else if (p == "C05") {
        x.lim.oracles = O_FULL | O_CLAUSE;
        x.configs = cfgs({"propagate:full", "propagate:full sort-edges:potential-reversed compute-components:no"});
        core_families(x);
        wide_families(x);
        x.configs = cfgs({"propagate:full sort-edges:weight-reversed", "propagate:full sort-edges:no", "propagate:no propagate-root:9 sort-edges:weight-reversed"});
        clausal_families(x);
        x.configs = cfgs({"propagate:full"});
        x.beh = {0};
        x.graphs(2, 4, {-2, -1, 0, 1}, {"oooo", "ooob", "onoo"});
        x.lim.kind = "ops";
        x.lim.depth = 5;
        x.beh = {1};
        x.graphs(3, 3, {-1, 0, 1}, {"ooo"});
    }
    else if (p == "C06") {
        x.lim.oracles = O_ZERO | O_CLAUSE;
        x.configs = cfgs({"propagate:zero", "propagate:zero propagate-root:1", "propagate:zero propagate-budget:2", "propagate:zero compute-components:no"});
        core_families(x);
        wide_families(x);
        x.configs = cfgs({"propagate:zero sort-edges:weight-reversed", "propagate:zero sort-edges:no"});
        clausal_families(x);
        x.configs = cfgs({"propagate:zero", "propagate:zero propagate-root:1", "propagate:zero propagate-budget:2", "propagate:zero compute-components:no"});
        x.beh = {0, 1};
        x.lim.all_orders = true;
        x.lim.max_free_orders = 5;
        for_each_components(2, {-1, 0}, 2, std::ref(x));
        x.lim.all_orders = false;
        x.lim.max_neg = 2;
        x.beh = {0};
        for_each_components(x.thorough ? 3 : 2, {-1, 1}, x.thorough ? 2 : 3, std::ref(x));
        x.lim.max_neg = -1;
        x.lim.kind = "ops";
        x.lim.depth = 5;
        x.beh = {1};
        x.graphs(2, 3, {-1, 0, 1}, {"ooo"});
    }
    else if (p == "C07") {
        x.lim.oracles = O_INV | O_CLAUSE;
        x.configs = cfgs({"propagate:inverse", "propagate:partial", "propagate:partial+", "propagate:full"});
        core_families(x);
        wide_families(x);
        x.beh = {0, 1, 6};
        x.graphs(2, 4, {-2, -1, 0, 1}, {"oooo", "oooN"});
        x.lim.kind = "ops";
        x.lim.depth = 5;
        x.beh = {1};
        x.graphs(2, 3, {-1, 0, 1}, {"ooo"});
    }
    else if (p == "C10") {
        x.lim.kind = "thr";
        x.lim.oracles = O_ALL;
        x.beh = {0};
        auto pairs = cfgs({"propagate:full", "propagate:zero", "propagate:partial+", "propagate:inverse propagate:full,1", "propagate:no propagate:zero,1 propagate-root:1,0",
                           "propagate:partial propagate-budget:2,1 sort-edges:potential,0 sort-edges:weight-reversed,1", "propagate:full,0 propagate:partial+,1",
                           "propagate-root:2,1 propagate:zero,0", "dl-heuristic:min propagate:full,0"});
        auto sorted = cfgs({"propagate:no sort-edges:weight,0 sort-edges:weight-reversed,1", "propagate:full sort-edges:potential-reversed,0 sort-edges:weight,1",
                            "propagate:partial,0 propagate:zero,1 sort-edges:no,1", "propagate:zero,0 propagate:no,1 propagate-budget:1,1", "propagate:no,0 propagate:full,1 propagate-root:1,0"});
        auto each = [&](GVec const &g, std::string const &pat) {
            auto sc = make_scenario(g, pat);
            sc.threads = 2;
            x(sc);
        };
        auto multi = [&](GVec const &g, std::string const &pat, int n) {
            auto sc = make_scenario(g, pat);
            sc.threads = 2;
            for_each_multishot(sc, n, "p", std::ref(x));
        };
        if (x.tsan) {
            x.configs = pairs;
            x.lim.max_neg = -1;
            for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { each(g, "ooo"); });
            x.configs.resize(4);
            for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { multi(g, "fof", 2); });
            if (x.thorough) {
                x.configs = pairs;
                for_each_graph(3, 3, {-1, 0, 1}, [&](GVec const &g) { each(g, "ooo"); });
                for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "foo", "ofo"}) { multi(g, pat, 2); } });
            }
            return;
        }
        // complete searches, one preemption
        x.configs = pairs;
        x.lim.max_neg = -1;
        x.lim.depth = 1;
        for_each_graph(2, 2, {-1, 1}, [&](GVec const &g) { each(g, "oo"); });
        if (!x.thorough) { x.configs = cfgs({"propagate:no propagate:full,1"}); }
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { each(g, "ooo"); });
        // straight runs, one preemption: shared literals, facts, negated literals, thread specific order
        x.lim.max_neg = 0;
        x.configs = pairs;
        x.configs.insert(x.configs.end(), sorted.begin(), sorted.end());
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"oss", "onf"}) { each(g, pat); } });
        // several steps: each thread continues from its own facts
        x.configs = cfgs({"propagate:no", "propagate:full", "propagate:partial,0 propagate:zero,1 sort-edges:no,1", "propagate:no,0 propagate:full,1 propagate-root:1,0"});
        for_each_graph(2, 2, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"oo", "of", "fo", "ff", "os"}) { multi(g, pat, 2); } });
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { multi(g, "ofo", 2); });
        // two preemptions
        x.lim.depth = 2;
        x.configs = pairs;
        if (!x.thorough) { x.configs.resize(5); }
        for_each_graph(2, 2, {-1, 1}, [&](GVec const &g) { each(g, "oo"); });
        if (x.thorough) {
            x.configs = pairs;
            x.configs.insert(x.configs.end(), sorted.begin(), sorted.end());
            for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { each(g, "ooo"); });
            x.lim.depth = 1;
            for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo", "foo", "oof", "oss"}) { multi(g, pat, 2); } multi(g, "oof", 3); });
            for_each_graph(3, 3, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"oso", "oof", "ono"}) { each(g, pat); } });
            x.configs = pairs;
            x.lim.max_neg = -1;
            for_each_graph(3, 3, {-1, 0, 1}, [&](GVec const &g) { each(g, "ooo"); });
        }
    }
    else if (p == "C24") {
        x.lim.oracles = O_DECIDE | O_LEAF | O_VALUE;
        x.configs = cfgs({"dl-heuristic:min", "dl-heuristic:max", "dl-heuristic:min propagate:full", "dl-heuristic:max propagate:partial", "propagate:no"});
        x.beh = {0, 1};
        x.graphs(2, 3, {-2, -1, 0, 1, 2}, PAT3);
        x.graphs(3, 3, {-1, 0, 1}, PAT3S);
        wide_families(x);
        if (x.thorough) { core_families(x); }
    }
    else if (p == "C25") {
        x.lim.oracles = O_ROOT | O_CLAUSE | O_LEAF | O_VALUE | O_CONS | O_INV | O_ZERO;
        std::vector<Config> all;
        for (auto m : {"no", "inverse", "partial", "partial+", "zero", "full"}) {
            for (auto l : {"propagate-root:1", "propagate-root:2", "propagate-root:3", "propagate-budget:1", "propagate-budget:2", "propagate-budget:8", "propagate-budget:1000000", "propagate-root:1 propagate-budget:2"}) {
                all.push_back(cfg(std::string("propagate:") + m + " " + l));
            }
        }
        x.configs = all;
        x.beh = {0, 1};
        x.graphs(2, 3, {-1, 0, 1}, {"ooo", "ono", "obo"});
        x.configs = cfgs({"propagate:no propagate-root:1", "propagate:no propagate-root:2", "propagate:no propagate-root:3", "propagate:zero propagate-root:2", "propagate:partial propagate-root:2",
                          "propagate:inverse propagate-budget:1", "propagate:zero propagate-budget:2", "propagate:partial+ propagate-budget:4",
                          "propagate:no propagate-budget:1000000", "propagate:zero propagate-budget:18446744073709551615"});
        x.beh = {0, 6};
        x.graphs(3, 3, {-1, 0, 1}, {"ooo", "oof", "ono"});
        x.lim.kind = "ops";
        x.lim.depth = 5;
        x.beh = {1};
        x.graphs(2, 3, {-1, 1}, {"ooo", "ono"});
        x.lim.kind = "dfs";
        x.beh = {0};
        structured(x);
        wide_families(x);
        if (x.thorough) {
            x.configs = all;
            x.beh = {0, 1, 6};
            x.graphs(3, 3, {-1, 0, 1}, PAT3S);
            x.beh = {0};
            x.graphs(3, 4, {-1, 1}, {"oooo"});
            structured(x);
        }
    }
    else if (p == "C09") {
        x.lim.oracles = O_CONS | O_CLAUSE | O_VALUE | O_FULL | O_ZERO | O_INV | O_LEAF | O_ROOT;
        auto multi = [&](GVec const &g, std::string const &pat, int n, char const *what) { for_each_multishot(make_scenario(g, pat), n, what, std::ref(x)); };
        auto more = cfgs({"propagate:full", "propagate:zero", "propagate:no", "propagate:partial+ propagate-root:2", "propagate:no compute-components:no", "propagate:no add-mutexes:2,1000"});
        x.beh = {0};
        x.configs = more;
        for_each_graph(2, 2, {-2, -1, 0, 1, 2}, [&](GVec const &g) { for (auto pat : {"oo", "of", "fo", "os", "on", "ob", "ff"}) { multi(g, pat, 2, "pcate"); } });
        x.lim.max_free_orders = 2;
        for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "foo", "ofo", "oof"}) { multi(g, pat, 2, "p"); } });
        for_each_graph(2, 3, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "off"}) { multi(g, pat, 3, "p"); } });
        x.configs = cfgs({"propagate:full", "propagate:no"});
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "oof"}) { multi(g, pat, 2, "cat"); multi(g, pat, 3, "ct"); } });
        for_each_graph(3, 3, {-2, 1}, [&](GVec const &g) { for (auto pat : {"fff", "ffo", "bbb"}) { multi(g, pat, 3, "p"); } });
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { multi(g, "ooo", 2, "b"); });
        for_each_graph(1, 4, {-1, 0}, [&](GVec const &g) { multi(g, "oooo", 2, "b"); });
        x.beh = {6};
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { multi(g, "ooo", 2, "pc"); });
        if (x.thorough) {
            x.configs = modes();
            auto c = more;
            x.configs.insert(x.configs.end(), c.begin(), c.end());
            x.beh = {0, 6, 1};
            for_each_graph(2, 3, {-2, -1, 0, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "oof", "ono", "bob"}) { multi(g, pat, 2, "pcat"); multi(g, pat, 3, "pt"); } });
            x.beh = {0};
            for_each_graph(3, 3, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "oof", "fob"}) { multi(g, pat, 2, "pca"); multi(g, pat, 3, "p"); } });
            x.configs = more;
            for_each_graph(3, 4, {-1, 1}, [&](GVec const &g) { for (auto pat : {"oooo", "ofof"}) { multi(g, pat, 2, "p"); } });
        }
    }
    else if (p == "C11") {
        x.lim.oracles = O_MUTEX | O_CLAUSE | O_LEAF;
        x.lim.max_free_orders = 2;
        x.configs = cfgs({"add-mutexes:1,1000 propagate:no", "add-mutexes:2,1000 propagate:no", "add-mutexes:3,1000 propagate:full", "add-mutexes:2,1 propagate:no", "add-mutexes:3,3 propagate:no",
                          "add-mutexes:4,1000 propagate:zero", "add-mutexes:2 propagate:partial", "add-mutexes:2,2 compute-components:no propagate:no", "add-mutexes:18446744073709551615,1000 propagate:no"});
        x.beh = {0};
        x.graphs(2, 2, {-2, -1, 0, 1, 2}, {"oo", "on", "os", "of", "fo", "bo", "bb", "ff"});
        x.graphs(2, 3, {-2, -1, 0, 1, 2}, PAT3);
        x.graphs(3, 3, {-1, 0, 1}, PAT3);
        x.graphs(3, 4, {-1, 0}, {"oooo", "ofoo", "oofo", "osoo", "oSoo"});
        for_each_graph(2, 3, {-1, 0}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo", "ono"}) { for_each_multishot(make_scenario(g, pat), 2, "pc", std::ref(x)); } });
        if (x.thorough) {
            for_each_graph(3, 3, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo", "ono", "oos"}) { for_each_multishot(make_scenario(g, pat), 2, "pc", std::ref(x)); } });
            x.graphs(3, 4, {-1, 0, 1}, {"oooo", "ofoo", "ooos", "onoo", "fofo"});
            x.lim.oracles = O_MUTEX | O_CLAUSE;
            x.lim.max_neg = 0;
            x.graphs(4, 4, {-1, 0, 1}, {"oooo"});
            x.graphs(2, 5, {-1, 0}, {"ooooo"});
            x.graphs(3, 5, {-1, 0}, {"ooooo"});
        }
    }
    else if (p == "C12") {
        x.lim.oracles = O_LEAF | O_VALUE | O_CONS | O_CLAUSE;
        x.configs = cfgs({"propagate:no", "propagate:full", "propagate:zero propagate-root:1", "propagate:partial add-mutexes:2"});
        x.beh = {0, 1};
        // every relation in head and body form, with every kind of literal, next to other constraints
        auto rel = [&](int u, int v, int w, int op, bool strict, lit_t lit) { return Con{u, v, op, w, strict, lit}; };
        std::vector<std::pair<int, int>> ends{{1, 2}, {1, 0}, {0, 1}, {1, 1}, {0, 0}};
        std::vector<int> ws = x.thorough ? V{-2, -1, 0, 1, 2} : V{-1, 0, 1};
        for (auto [u, v] : ends) {
            for (int op = 0; op < 6; ++op) {
                for (bool strict : {false, true}) {
                    for (int w : ws) {
                        for (lit_t lit : {1, -1, 2, -2}) {
                            x(ordered_scenario({rel(u, v, w, op, strict, lit)}));
                            for (auto [u2, v2] : ends) {
                                if (u2 == v2) { continue; }
                                for (int op2 = 0; op2 < 6; ++op2) {
                                    for (bool s2 : {false, true}) {
                                        for (int w2 : {-1, 0, 1}) {
                                            // own literal, the same literal, the complement
                                            for (lit_t l2 : {3, 2, -2}) {
                                                if (l2 != 3 && std::abs(lit) == 1) { continue; }
                                                auto sc = ordered_scenario({rel(u, v, w, op, strict, lit), rel(u2, v2, w2, op2, s2, l2)});
                                                sc.steps[0].nlits = 2;
                                                if (std::abs(lit) == 1 || l2 == 3 || x.thorough || w2 == 0) { x(sc); }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // three constraints
        x.beh = {0};
        x.configs = cfgs({"propagate:no", "propagate:full"});
        for (int op = 0; op < 6; ++op) {
            for (int op2 = 0; op2 < 6; ++op2) {
                for (int k = 0; k < 8; ++k) {
                    for (int w : {-1, 0, 1}) {
                        x(ordered_scenario({rel(1, 2, w, op, k & 1, 2), rel(2, 0, 0, op2, k & 2, 3), rel(0, 1, -1, LE, k & 4, 4)}));
                        x(ordered_scenario({rel(1, 2, w, op, k & 1, 2), rel(2, 3, 1, op2, k & 2, -2), rel(3, 1, -1, LE, k & 4, 3)}));
                        x(ordered_scenario({rel(1, 2, w, op, k & 1, 1), rel(2, 3, 1, op2, k & 2, 1), rel(3, 1, -1, NE, k & 4, 1)}));
                    }
                }
            }
        }
        // relations added in a later step, for literals of an earlier one
        for (int op = 0; op < 6; ++op) {
            for (int op2 = 0; op2 < 6; ++op2) {
                for (int k = 0; k < 4; ++k) {
                    for (lit_t l : {2, 3, -2}) {
                        for_each_multishot(ordered_scenario({rel(1, 2, 0, op, k & 1, 2), rel(2, 1, 1, op2, k & 2, l)}), 2, "pca", std::ref(x));
                    }
                }
            }
        }
    }
    else if (p == "C19") {
        x.lim.oracles = O_API;
        x.configs = cfgs({"propagate:no", "propagate:full", "propagate:zero", "propagate:no compute-components:no", "propagate:partial propagate-root:1"});
        x.beh = {0, 1};
        x.graphs(2, 3, {-1, 0, 1}, PAT3S);
        x.graphs(3, 3, {-1, 1}, {"ooo", "oof", "obo"});
        x.lim.max_free_orders = 2;
        x.beh = {0};
        for_each_components(2, {-1, 1}, 2, std::ref(x));
        x.configs = cfgs({"propagate:no", "propagate:full"});
        for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo"}) { for_each_multishot(make_scenario(g, pat), 2, "pet", std::ref(x)); } });
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "ooo"), 3, "pct", std::ref(x)); });
        for_each_graph(2, 3, {-3, 2}, [&](GVec const &g) {
            auto sc = make_scenario(g, "ooo");
            sc.rdl = true;
            sc.scale = 0.25;
            x(sc);
            for_each_multishot(sc, 2, "p", std::ref(x));
        });
        wide_families(x);
        if (x.thorough) { x.lim.all_orders = true; x.lim.max_free_orders = 6; core_families(x); }
    }
    else if (p == "C20") {
        x.lim.oracles = O_STAT;
        x.configs = modes();
        auto c = cfgs({"propagate:no propagate-root:1", "propagate:partial propagate-budget:2", "propagate:no propagate-budget:1", "propagate:full add-mutexes:2,1000", "propagate:no add-mutexes:3", "propagate:zero compute-components:no"});
        x.configs.insert(x.configs.end(), c.begin(), c.end());
        x.beh = {0, 1};
        x.graphs(2, 3, {-2, -1, 0, 1}, {"ooo", "oof", "obo", "ono"});
        x.beh = {0};
        x.graphs(3, 3, {-1, 1}, {"ooo", "oof", "fbo"});
        x.lim.max_free_orders = 2;
        x.configs = cfgs({"propagate:no", "propagate:full", "propagate:inverse", "propagate:zero add-mutexes:2"});
        for_each_graph(2, 2, {-1, 0, 1}, [&](GVec const &g) { for (auto pat : {"oo", "of", "bo"}) { for_each_multishot(make_scenario(g, pat), 2, "pet", std::ref(x)); } });
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "oof"}) { for_each_multishot(make_scenario(g, pat), 2, "ptc", std::ref(x)); for_each_multishot(make_scenario(g, pat), 3, "pt", std::ref(x)); } });
        clausal_families(x);
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "ooo"), 2, "b", std::ref(x)); });
        // edges found false only by the stronger modes, in one step and in several
        x.configs = modes();
        for_each_tail(3, {{0, 0, -1}, {1, 0, -2}}, std::ref(x));
        x.lim.max_neg = 1;
        for_each_tail(4, {{0, 1, 0, -2}}, std::ref(x));
        x.lim.max_neg = -1;
        for_each_tail(3, {{0, 0, -1}}, [&](Scenario const &s) { for_each_multishot(s, 2, "e", std::ref(x)); });
        // sequences of thread counts
        for (int a = 1; a <= 3; ++a) {
            for (int b = 1; b <= 3; ++b) {
                for (int d = 1; d <= 3; ++d) {
                    for (int e = 1; e <= (x.thorough ? 3 : 1); ++e) {
                        for_each_graph(2, 2, {-1, 1}, [&](GVec const &g) {
                            auto sc = make_scenario(g, "oo");
                            sc.steps.resize(4);
                            std::swap(sc.steps[1].cons, sc.steps[0].cons);
                            sc.steps[0].cons.push_back(sc.steps[1].cons.back());
                            sc.steps[1].cons.pop_back();
                            sc.steps[2].cons = sc.steps[0].cons;
                            int t[] = {a, b, d, e};
                            for (int k = 0; k < 4; ++k) { sc.steps[k].threads = t[k]; }
                            x(sc);
                        });
                    }
                }
            }
        }
        if (x.thorough) {
            x.lim.max_free_orders = 6;
            x.configs = modes();
            x.configs.insert(x.configs.end(), c.begin(), c.end());
            x.beh = {0, 1};
            x.graphs(3, 3, {-1, 0, 1}, {"ooo", "oof", "obo", "ono"});
            x.beh = {0};
            x.graphs(3, 4, {-1, 1}, {"oooo"});
            for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "ooo"), 3, "pct", std::ref(x)); });
        }
    }
    else if (p == "C21") {
        // every interleaving of the operations of two theory objects with different options
        auto opts = cfgs({"", "propagate:full", "propagate:zero sort-edges:potential-reversed", "dl-heuristic:min", "dl-heuristic:max propagate:partial", "propagate:no,0 propagate-root:1,0 add-mutexes:2,100",
                          "compute-components:no propagate:inverse", "propagate-budget:1 propagate:partial+ shift-constraints:no"});
        std::vector<GVec> gs{{{1, 2, -1}, {2, 0, 0}, {0, 1, -2}}, {{1, 2, 1}, {2, 1, -2}, {1, 0, 3}}, {{2, 1, -1}, {1, 3, 0}, {3, 2, 0}}};
        auto inst = [&](size_t o, size_t g, bool rdl, bool two) {
            auto sc = make_scenario(gs[g], "oob");
            if (rdl) { sc = make_scenario(gs[g], "ooG"); sc.rdl = true; sc.scale = 0.5; }
            if (two) {
                sc.steps.resize(2);
                sc.steps[1].cons = {sc.steps[0].cons.back()};
                sc.steps[0].cons.pop_back();
                sc.steps[1].nlits = 1;
                --sc.steps[0].nlits;
            }
            sc.config = opts[o];
            return sc;
        };
        uint64_t n = 0;
        for (size_t o1 = 0; o1 < opts.size(); ++o1) {
            for (size_t o2 = 0; o2 < opts.size(); ++o2) {
                for (size_t g1 = 0; g1 < gs.size(); ++g1) {
                    for (size_t g2 = 0; g2 < gs.size(); ++g2) {
                        for (int r = 0; r < 4; ++r) {
                            bool pick = x.tsan ? o1 == o2 && g1 != g2 && (x.thorough || (o1 + g1 * 3 + g2 + r) % 8 == 0) : x.thorough || (o1 + o2 * 3 + g1 * 5 + g2 * 7 + r) % 6 == 0;
                            if (!pick || n++ % x.nw != static_cast<uint64_t>(x.w)) { continue; }
                            if (stop_requested()) { throw Stop{}; }
                            std::chrono::duration<double> d = std::chrono::steady_clock::now() - x.t0;
                            if (x.args.limit > 0 && d.count() > x.args.limit) { x.res.n["capped"] = 1; throw Stop{}; }
                            run_pair(inst(o1, g1, (r & 1) != 0, true), inst(o2, g2, (r & 2) != 0, g2 != 1), "", x.tsan, x.res);
                            if (x.res.samples.empty()) { x.res.samples.push_back("all interleavings of " + inst(o1, g1, (r & 1) != 0, true).str() + " and " + inst(o2, g2, (r & 2) != 0, g2 != 1).str()); }
                        }
                    }
                }
            }
        }
    }
    else if (p == "C22") {
        x.lim.oracles = O_CONS | O_CLAUSE | O_VALUE | O_LEAF | O_API;
        x.configs = cfgs({"propagate:no", "propagate:full", "propagate:zero", "propagate:partial+", "propagate:inverse propagate-root:1", "propagate:no add-mutexes:2,1000 sort-edges:potential-reversed"});
        auto real = [&](Scenario sc, double scale) { sc.rdl = true; sc.scale = scale; x(sc); };
        x.beh = {0};
        for (double s : {0.5, 0.125}) {
            for_each_graph(2, 3, {-5, -1, 0, 3}, [&](GVec const &g) { for (auto pat : {"ooo", "ono", "oof"}) { real(make_scenario(g, pat), s); } });
            for_each_graph(3, 3, {-3, 1}, [&](GVec const &g) { real(make_scenario(g, "ooo"), s); });
        }
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { real(make_scenario(g, "ooo"), 1e9); real(make_scenario(g, "ooo"), 1048576.5); });
        // relations
        std::vector<std::pair<int, int>> ends{{1, 2}, {2, 1}, {1, 0}, {0, 2}};
        for (int op = 0; op < 6; ++op) {
            for (int op2 = 0; op2 < 6; ++op2) {
                for (auto [u, v] : ends) {
                    for (auto [u2, v2] : ends) {
                        for (int w : {-3, 0, 2}) {
                            for (int w2 : {-2, 0, 3}) {
                                for (lit_t l : {1, 2}) {
                                    real(ordered_scenario({{u, v, op, w, false, l}, {u2, v2, op2, w2, false, l + 1}}), 0.5);
                                }
                            }
                        }
                        if (op < 4 && op2 < 4) {
                            for (int op3 = 0; op3 < 4; ++op3) { for (int w : {-1, 0}) { real(ordered_scenario({{u, v, op, w, false, 2}, {u2, v2, op2, 1, false, 3}, {2, 3, op3, 0, false, 4}, {3, 1, LE, -1, false, 5}}), 0.25); } }
                        }
                    }
                }
            }
        }
        if (x.thorough) {
            x.beh = {0, 6};
            for_each_graph(3, 4, {-3, 1}, [&](GVec const &g) { real(make_scenario(g, "oooo"), 0.0625); });
            for_each_graph(3, 3, {-5, 0, 3}, [&](GVec const &g) { for (auto pat : {"ooo", "lGo", "ono"}) { real(make_scenario(g, pat), 0.375); } });
            x.beh = {0};
            for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { auto sc = make_scenario(g, "ooo"); sc.rdl = true; sc.scale = 0.5; for_each_multishot(sc, 2, "pca", std::ref(x)); });
        }
    }
    else if (p == "C23") {
        x.lim.oracles = O_CC | O_LEAF | O_VALUE | O_CONS;
        x.lim.max_free_orders = 2;
        x.configs = cfgs({"propagate:no", "propagate:no compute-components:no", "propagate:zero", "propagate:zero compute-components:no", "propagate:full"});
        x.beh = {0};
        x.graphs(3, 3, {-1, 0, 1}, {"ooo", "oof", "obo", "ono"});
        x.graphs(4, 3, {-1, 1}, {"ooo", "off"});
        x.graphs(3, 4, {-1}, {"oooo", "ofof"});
        for_each_components(2, {-1, 1}, 2, std::ref(x));
        for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { for (auto pat : {"ooo", "ofo", "fff"}) { for_each_multishot(make_scenario(g, pat), 2, "pe", std::ref(x)); } });
        // components of all larger constraint graphs in every order of the constraints (without search)
        x.configs = cfgs({"propagate:no"});
        x.sequences(x.thorough ? 6 : 5, 5, {1}, {"f"});
        x.sequences(4, 4, {1}, {"f"});
        x.configs = cfgs({"propagate:no", "propagate:zero", "propagate:no compute-components:no"});
        for_each_graph(4, 4, {-1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "oooo"), 2, "p", std::ref(x)); });
        for_each_graph(3, 3, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "ooo"), 3, "pc", std::ref(x)); });
        if (x.thorough) {
            x.beh = {0, 6};
            x.graphs(4, 4, {-1, 1}, {"oooo"});
            for_each_components(3, {-1, 1}, 2, std::ref(x));
            for_each_graph(3, 4, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "oooo"), 3, "p", std::ref(x)); });
            for_each_graph(4, 4, {-1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "oooo"), 3, "p", std::ref(x)); });
        }
    }
    else if (p == "C26") {
        // all solver histories with the sanitizers; the assignment interface is queried in every state
        x.lim.oracles = O_API | O_DECIDE | O_STAT;
        x.configs = cfgs({"propagate:full dl-heuristic:min", "propagate:zero propagate-root:1 dl-heuristic:max", "propagate:partial+ add-mutexes:3,1000 sort-edges:potential", "propagate:partial propagate-budget:2", "propagate:inverse compute-components:no"});
        x.lim.max_free_orders = 3;
        x.beh = {0, 7};
        x.graphs(2, 3, {-1, 0, 1}, {"ooo", "oso", "oof", "bob"});
        x.beh = {0};
        for_each_graph(2, 2, {-1, 1}, [&](GVec const &g) { for (auto pat : {"oo", "of"}) { for_each_multishot(make_scenario(g, pat), 2, "pcate", std::ref(x)); } });
        for_each_graph(2, 3, {-1, 1}, [&](GVec const &g) { for_each_multishot(make_scenario(g, "ooo"), 3, "pt", std::ref(x)); });
        x.configs = cfgs({"propagate:full", "propagate:zero", "propagate:partial+"});
        structured(x);
        x.lim.kind = "ops";
        x.lim.depth = 4;
        x.beh = {1};
        x.graphs(2, 3, {-1, 1}, {"ooo"});
        if (x.thorough) {
            x.graphs(3, 3, {-1, 1}, {"ooo", "oob"});
            x.lim.kind = "dfs";
            x.configs = modes();
            x.lim.max_free_orders = 6;
            core_families(x);
        }
    }
    else { throw std::runtime_error("unknown property"); }
}

} // namespace

int main(int argc, char **argv) {
    Args args;
    std::string probe;
    bool tsan = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--prop") { args.prop = next(); }
        else if (a == "--tier") { args.tier = next(); }
        else if (a == "--out") { args.out = next(); }
        else if (a == "--replay") { args.replay = next(); }
        else if (a == "--workers") { args.workers = std::stoi(next()); }
        else if (a == "--limit") { args.limit = std::stod(next()); }
        else if (a == "--skip") { next(); }
        else if (a == "--tsan") { tsan = true; }
        else if (a == "--only") { args.only = std::stoi(next()); }
    }
    if (!args.replay.empty()) {
        std::ifstream f(args.replay);
        std::string line;
        std::getline(f, line);
        Results res;
        try {
            if (line.compare(0, 5, "PAIR ") == 0) {
                auto p = line.find("##"), q = line.rfind("##");
                run_pair(Scenario::parse(line.substr(5, p - 5)), Scenario::parse(line.substr(p + 2, q - p - 2)), line.substr(q + 2), tsan, res);
            }
            else if (line.compare(0, 4, "CFG ") == 0) { replay_options(line, res); }
            else { run_one(Scenario::parse(line), res, tsan); }
        } catch (Violation const &v) {
            std::cout << v.kind << ": " << v.msg << "\n";
            return 1;
        }
        std::cout << "no violation\n";
        return 0;
    }
    return run_workers(args, [&](int w, int nw, Results &res) {
        Ctx x{args, w, nw, res, args.tier == "thorough"};
        x.tsan = tsan;
        if (args.prop == "C18") { check_options(args, w, nw, res); return; }
        try { check(x); } catch (Stop const &) { }
    });
}
