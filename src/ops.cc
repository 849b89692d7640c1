// Exploration of all sequences of decide / backjump operations.
#include "explore.hh"

namespace core {

using mock::Solver;

namespace {

struct State {
    bool conflict{false};
    std::vector<std::optional<double>> values;
    std::set<lit_t> trail;
};

std::string show(State const &s) {
    std::string r = s.conflict ? "conflict" : "literals";
    for (auto l : s.trail) { r += " " + std::to_string(l); }
    r += " values";
    for (size_t i = 1; i < s.values.size(); ++i) { r += " v" + std::to_string(i) + "=" + (s.values[i] ? std::to_string(*s.values[i]) : "none"); }
    return r;
}

} // namespace

void Explorer::run_ops() {
    res.add("scenarios");
    std::map<std::vector<lit_t>, State> fresh;
    int nv = num_vars(sc);
    auto snapshot = [&](System &y, Solver &s) {
        State st;
        st.values = y.values(0, nv);
        st.trail = {s.trail.begin(), s.trail.end()};
        return st;
    };
    auto reference = [&](std::vector<lit_t> const &stack) -> State const & {
        auto it = fresh.find(stack);
        if (it != fresh.end()) { return it->second; }
        System y(sc);
        y.add_step(sc, sc.steps[0]);
        y.prob->init();
        auto &s = *y.prob->solvers[0];
        State st;
        bool ok = s.fixpoint();
        for (auto l : stack) {
            if (!ok) { break; }
            if (s.is_true(l)) { continue; }
            if (s.is_false(l)) { ok = false; break; }
            ok = s.decide(l);
        }
        if (!y.prob->error.empty()) { throw Violation("callback", "fresh instance: " + y.prob->error); }
        if (ok) { st = snapshot(y, s); }
        st.conflict = !ok;
        res.add("fresh_instances");
        return fresh.emplace(stack, std::move(st)).first->second;
    };
    bool canonical = (mode == "no" || mode == "inverse" || mode == "zero" || mode == "full") && root == 0 && budget == 0;
    std::vector<int> choice, options;
    size_t checked = 0; // prefix length already checked
    for (;;) {
        sys = std::make_unique<System>(sc, this);
        ref = Reference{};
        for (auto &c : sc.config) { if (c.first == "compute-components") { ref.cc = c.second != "no"; } }
        path.clear();
        if (!init_step_(0)) { return; }
        auto &s = *sys->prob->solvers[0];
        bool ok = s.fixpoint();
        check_error_(s);
        if (!ok) { return; }
        if (checked == 0 && choice.empty()) { node_(s); }
        options.clear();
        for (size_t d = 0; ok && d < static_cast<size_t>(lim.depth); ++d) {
            // menu of operations
            std::vector<int> menu; // > 0: decide literal code, <= 0: backjump to level -x
            for (int v = 2; v <= static_cast<int>(sys->prob->nvars); ++v) {
                if (s.value(v) == 0) { menu.push_back(2 * v); menu.push_back(2 * v + 1); }
            }
            for (int k = static_cast<int>(s.level()) - 1; k >= 0; --k) { menu.push_back(-k); }
            if (menu.empty()) { break; }
            if (choice.size() <= d) { choice.push_back(0); }
            if (choice[d] >= static_cast<int>(menu.size())) { throw Violation("nondeterminism", "replay of an operation sequence diverged"); }
            options.push_back(menu.size());
            int op = menu[choice[d]];
            res.add("transitions");
            if (op > 0) {
                lit_t l = (op & 1) != 0 ? -(op / 2) : op / 2;
                path.push_back(std::to_string(l));
                std::vector<lit_t> stack;
                for (uint32_t k = 1; k <= s.level(); ++k) { stack.push_back(s.trail[s.lim[k]]); }
                stack.push_back(l);
                if (!s.decide(l)) {
                    check_error_(s);
                    res.add("conflicts");
                    if (d >= checked && (oracles & O_EXACT) && sc.forget && canonical && !s.pending) {
                        auto &f = reference(stack);
                        if (!f.conflict) { fail_("history", "conflict, but a fresh instance given the same decisions has " + show(f)); }
                    }
                    // chronological backtracking until there is no conflict
                    do {
                        if (s.level() == 0) { ok = false; break; }
                        auto pend = s.pending;
                        auto pc = s.pending_clause;
                        s.backtrack(s.level() - 1);
                        if (pend && !sc.forget) { s.learnt.push_back(pc); }
                    } while (!s.fixpoint());
                    check_error_(s);
                    path.push_back("conflict:level" + std::to_string(s.level()));
                }
            } else {
                path.push_back("jump" + std::to_string(-op));
                s.backtrack(-op);
                while (!s.fixpoint()) {
                    check_error_(s);
                    if (s.level() == 0) { ok = false; break; }
                    s.backtrack(s.level() - 1);
                }
                check_error_(s);
            }
            if (!ok) { break; }
            if (d < checked) { continue; }
            node_(s);
            if (s.total()) { res.add("leaves"); if (oracles & O_API) { check_api_(s, true); } }
            if ((oracles & O_EXACT) && sc.forget) {
                std::vector<lit_t> stack;
                for (uint32_t k = 1; k <= s.level(); ++k) { stack.push_back(s.trail[s.lim[k]]); }
                auto &f = reference(stack);
                res.add("fresh_comparisons");
                if (canonical) {
                    auto now = snapshot(*sys, s);
                    if (f.conflict || f.trail != now.trail || f.values != now.values) {
                        fail_("history", "state is " + show(now) + " but a fresh instance given the same decisions has " + show(f));
                    }
                }
            }
        }
        res.add("sequences");
        // next sequence
        size_t len = options.size();
        choice.resize(len);
        while (len > 0 && choice[len - 1] + 1 >= options[len - 1]) { --len; }
        if (len == 0) { return; }
        choice.resize(len);
        ++choice[len - 1];
        checked = len - 1;
    }
}

} // namespace core
