#include "mock.hh"
#include <algorithm>

using namespace mock;

namespace mock {

clingo_id_t TheoryData::num(int n) { terms.push_back({clingo_theory_term_type_number, n, "", {}}); return terms.size() - 1; }
clingo_id_t TheoryData::sym(std::string const &s) { terms.push_back({clingo_theory_term_type_symbol, 0, s, {}}); return terms.size() - 1; }
clingo_id_t TheoryData::fun(std::string const &s, std::vector<clingo_id_t> args) {
    terms.push_back({clingo_theory_term_type_function, 0, s, std::move(args)}); return terms.size() - 1;
}
clingo_id_t TheoryData::tup(std::vector<clingo_id_t> args) {
    terms.push_back({clingo_theory_term_type_tuple, 0, "", std::move(args)}); return terms.size() - 1;
}
void TheoryData::atom(char const *name, std::vector<clingo_id_t> elem_terms, char const *op, clingo_id_t guard, lit_t lit) {
    Atom a;
    a.term = sym(name);
    for (auto t : elem_terms) {
        elems.push_back({{t}, {}});
        a.elems.push_back(elems.size() - 1);
    }
    a.guard = op != nullptr;
    a.op = op != nullptr ? op : "";
    a.guard_term = guard;
    a.lit = lit;
    atoms.push_back(a);
}
std::string TheoryData::str(clingo_id_t t) const {
    auto const &x = terms[t];
    switch (x.type) {
        case clingo_theory_term_type_number: return std::to_string(x.number);
        case clingo_theory_term_type_symbol: return x.name;
        default: {
            std::string r = x.name + "(";
            for (size_t i = 0; i < x.args.size(); ++i) { r += (i ? "," : "") + str(x.args[i]); }
            return r + ")";
        }
    }
}

Problem::Problem() { set_threads(1); }

void Problem::set_threads(int n) {
    threads = n;
    if (static_cast<int>(solvers.size()) > n) { solvers.resize(n); }
    while (static_cast<int>(solvers.size()) < n) {
        auto s = std::make_unique<Solver>();
        s->P = this;
        s->tid = solvers.size();
        s->lim.push_back(0);
        s->levels.emplace_back();
        s->resize(nvars);
        s->assign(1);
        if (!solvers.empty()) { // top-level facts are shared with new threads
            for (auto l : solvers[0]->trail) { if (s->value(l) == 0) { s->assign(l); } }
        }
        solvers.emplace_back(std::move(s));
    }
}

lit_t Problem::new_var() {
    ++nvars;
    for (auto &s : solvers) { s->resize(nvars); }
    return static_cast<lit_t>(nvars);
}

void Solver::resize(size_t n) {
    val.resize(n + 1, 0);
    lvl.resize(n + 1, 0);
    watch.resize(2 * (n + 1), 0);
}

bool Solver::total() const {
    // multi-shot: the literal of the step is decided first
    return trail.size() == P->nvars && !(P->multi && level() == 0);
}

void Solver::assign(lit_t l) {
    int v = l < 0 ? -l : l;
    if (val[v] != 0) { throw Misuse("harness: assigned twice"); }
    val[v] = l < 0 ? -1 : 1;
    lvl[v] = level();
    trail.push_back(l);
    if (watch[idx(l)]) { queue.push_back(l); }
}

bool Solver::clause_propagate(Clause const &c, bool &changed) {
    lit_t free = 0;
    for (auto l : c) {
        int v = value(l);
        if (v > 0) { return true; }
        if (v == 0) {
            if (free != 0 && free != l) { return true; }
            free = l;
        }
    }
    if (free == 0) { return false; }
    assign(free);
    changed = true;
    return true;
}

bool Solver::unit_propagate() {
    bool changed = true;
    while (changed) {
        changed = false;
        for (auto const &c : P->clauses) {
            if (!clause_propagate(c, changed)) { conflict = true; return false; }
        }
        for (auto const &c : learnt) {
            if (!clause_propagate(c, changed)) { conflict = true; return false; }
        }
    }
    return true;
}

bool Solver::add_clause(Clause const &c) {
    // normalize
    Clause d;
    for (auto l : c) {
        if (l == 0 || static_cast<size_t>(l < 0 ? -l : l) > P->nvars) { throw Misuse("invalid literal in clause"); }
        if (std::find(d.begin(), d.end(), l) == d.end()) { d.push_back(l); }
    }
    for (auto l : d) {
        if (std::find(d.begin(), d.end(), -l) != d.end()) { return true; }
    }
    lit_t free = 0;
    int nfree = 0;
    bool sat = false;
    uint32_t max_level = 0;
    for (auto l : d) {
        int v = value(l);
        if (v > 0) { sat = true; }
        else if (v == 0) { ++nfree; free = l; }
        else { max_level = std::max(max_level, var_level(l)); }
    }
    if (sat || nfree > 1) {
        learnt.push_back(d);
        return true;
    }
    if (nfree == 1) {
        if (max_level < level() && P->obs && P->obs->backjump_asserting(*this, d, max_level)) {
            pending = true;
            pending_clause = d;
            pending_level = max_level;
            return false;
        }
        learnt.push_back(d);
        assign(free);
        return true;
    }
    learnt.push_back(d);
    conflict = true;
    return false;
}

bool Solver::decide(lit_t l) {
    lim.push_back(trail.size());
    levels.emplace_back();
    if (P->forget) { /* learnt clauses are dropped in backtrack */ }
    if (l != 0) { assign(l); }
    return fixpoint();
}

bool Solver::fixpoint() {
    auto *ctl = reinterpret_cast<clingo_propagate_control_t *>(this);
    for (;;) {
        if (conflict || pending) { return false; }
        if (!unit_propagate()) { return false; }
        if (!queue.empty()) {
            size_t n = P->chunk > 0 ? std::min<size_t>(P->chunk, queue.size()) : queue.size();
            std::vector<lit_t> changes(queue.begin(), queue.begin() + n);
            queue.erase(queue.begin(), queue.begin() + n);
            auto &li = levels.back();
            li.undo = true;
            li.delivered.insert(li.delivered.end(), changes.begin(), changes.end());
            ++P->n_prop;
            if (P->obs) { P->obs->on_deliver(*this, changes); }
            if (P->obs) { P->obs->point(*this, "propagate"); }
            in_callback = true;
            bool ok = P->prop.propagate == nullptr || P->prop.propagate(ctl, changes.data(), changes.size(), P->prop_data);
            in_callback = false;
            if (!ok) {
                if (raised) { std::rethrow_exception(raised); }
                char const *m = clingo_error_message();
                P->error = std::string("propagate failed: ") + (m ? m : "?");
                return false;
            }
            if (P->obs) { P->obs->point(*this, "propagate-return"); }
            continue;
        }
        bool tot = total();
        bool call = ((P->check_mode & clingo_propagator_check_mode_fixpoint) != 0) ||
                    ((P->check_mode & clingo_propagator_check_mode_total) != 0 && tot);
        if (call && P->prop.check != nullptr) {
            auto before = trail.size();
            ++P->n_check;
            if (P->obs) { P->obs->point(*this, "check"); }
            in_callback = true;
            bool ok = P->prop.check(ctl, P->prop_data);
            in_callback = false;
            if (!ok) {
                if (raised) { std::rethrow_exception(raised); }
                char const *m = clingo_error_message();
                P->error = std::string("check failed: ") + (m ? m : "?");
                return false;
            }
            if (P->obs) { P->obs->point(*this, "check-return"); }
            if (conflict || pending) { return false; }
            if (trail.size() != before || !queue.empty()) { continue; }
            // clauses may have become unit
            bool changed = false;
            for (auto const &c : learnt) {
                if (!clause_propagate(c, changed)) { conflict = true; return false; }
            }
            if (changed) { continue; }
        }
        return true;
    }
}

void Solver::backtrack(uint32_t target) {
    auto *ctl = reinterpret_cast<clingo_propagate_control_t *>(this);
    while (level() > target) {
        auto &li = levels.back();
        if (li.undo) {
            ++P->n_undo;
            if (P->obs) { P->obs->point(*this, "undo"); }
            if (P->prop.undo) {
                in_callback = true;
                P->prop.undo(ctl, li.delivered.data(), li.delivered.size(), P->prop_data);
                in_callback = false;
            }
        }
        auto start = lim.back();
        while (trail.size() > start) {
            auto l = trail.back();
            trail.pop_back();
            val[l < 0 ? -l : l] = 0;
        }
        lim.pop_back();
        levels.pop_back();
    }
    conflict = false;
    pending = false;
    queue.clear();
    if (P->forget) { learnt.clear(); }
}

bool Problem::add_static(Clause const &c) {
    // evaluated at top level in all threads
    Clause d;
    for (auto l : c) {
        if (l == 0 || static_cast<size_t>(l < 0 ? -l : l) > nvars) { throw Misuse("invalid literal in clause"); }
        if (std::find(d.begin(), d.end(), l) == d.end()) { d.push_back(l); }
    }
    for (auto l : d) {
        if (std::find(d.begin(), d.end(), -l) != d.end()) { return true; }
    }
    auto &s0 = *solvers[0];
    Clause e;
    for (auto l : d) {
        if (s0.is_true(l)) { return true; }
        if (!s0.is_false(l)) { e.push_back(l); }
    }
    if (e.empty()) { top_conflict = true; return false; }
    if (e.size() == 1) {
        for (auto &s : solvers) { if (s->value(e[0]) == 0) { s->assign(e[0]); } }
        return true;
    }
    clauses.push_back(e);
    return true;
}

bool Problem::init() {
    ++n_init;
    if (top_conflict) { return false; }
    // top-level unit propagation happens before init is called
    for (auto &s : solvers) {
        if (s->level() != 0) { throw Misuse("harness: init above level 0"); }
        if (!s->unit_propagate()) { top_conflict = true; return false; }
    }
    check_mode = check_mode; // kept between steps, as in clingo
    in_init = true;
    bool ok = prop.init == nullptr || prop.init(reinterpret_cast<clingo_propagate_init_t *>(this), prop_data);
    in_init = false;
    if (!ok) {
        if (raised) { std::rethrow_exception(raised); }
        char const *m = clingo_error_message();
        error = std::string("init failed: ") + (m ? m : "?");
        return false;
    }
    return !top_conflict;
}

std::string Stats::dump(uint64_t n) const {
    auto const &x = nodes[n];
    std::string r;
    if (x.type == clingo_statistics_type_map) {
        r = "{";
        for (auto &k : x.kids) { r += k.first + ":" + dump(k.second) + ","; }
        return r + "}";
    }
    if (x.type == clingo_statistics_type_array) {
        r = "[";
        for (auto &k : x.arr) { r += dump(k) + ","; }
        return r + "]";
    }
    return std::to_string(x.value);
}

Stats::Node const *Stats::find(std::vector<std::string> const &path) const {
    uint64_t n = 0;
    for (auto const &p : path) {
        auto const &x = nodes[n];
        bool found = false;
        if (x.type == clingo_statistics_type_map) {
            for (auto const &k : x.kids) { if (k.first == p) { n = k.second; found = true; break; } }
        }
        else if (x.type == clingo_statistics_type_array) {
            size_t i = std::stoul(p);
            if (i < x.arr.size()) { n = x.arr[i]; found = true; }
        }
        if (!found) { return nullptr; }
    }
    return &nodes[n];
}

} // namespace mock

#define EXP extern "C" __attribute__((visibility("default")))
#define S(x) (*reinterpret_cast<Solver *>(const_cast<std::remove_const_t<std::remove_pointer_t<decltype(x)>> *>(x)))
#define SP(x) (mock_point(S(x)))
#define PR(x) (*reinterpret_cast<Problem *>(const_cast<std::remove_const_t<std::remove_pointer_t<decltype(x)>> *>(x)))
#define TD(x) (*reinterpret_cast<TheoryData *>(const_cast<std::remove_const_t<std::remove_pointer_t<decltype(x)>> *>(x)))

namespace {
Solver &mock_point(Solver &s) {
    if (s.P->points && s.in_callback && s.P->obs) { s.P->obs->point(s, "query"); }
    return s;
}
bool bad(char const *msg) {
    clingo_set_error(clingo_error_runtime, msg);
    return false;
}
bool valid_lit(Solver &s, lit_t l) {
    return l != 0 && static_cast<size_t>(l < 0 ? -l : l) <= s.P->nvars;
}
} // namespace

// ------------------------------------------------------------------ assignment
EXP uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return SP(a).level(); }
EXP uint32_t clingo_assignment_root_level(clingo_assignment_t const *) { return 0; }
EXP bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return SP(a).conflict; }
EXP bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return valid_lit(SP(a), l); }
EXP bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    if (!valid_lit(SP(a), l)) { return bad("Invalid literal"); }
    if (S(a).value(l) == 0) { return bad("level of free literal"); }
    *r = S(a).var_level(l);
    return true;
}
EXP bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t lv, clingo_literal_t *r) {
    auto &s = SP(a);
    if (lv > s.level()) { return bad("Invalid decision level"); }
    *r = lv == 0 ? 1 : s.trail[s.lim[lv]];
    return true;
}
EXP bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!valid_lit(SP(a), l)) { return bad("Invalid literal"); }
    *r = S(a).value(l) != 0 && S(a).var_level(l) == 0;
    return true;
}
EXP bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!valid_lit(SP(a), l)) { return bad("Invalid literal"); }
    *r = S(a).is_true(l);
    return true;
}
EXP bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (!valid_lit(SP(a), l)) { return bad("Invalid literal"); }
    *r = S(a).is_false(l);
    return true;
}
EXP bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    if (!valid_lit(SP(a), l)) { return bad("Invalid literal"); }
    int v = S(a).value(l);
    *r = v == 0 ? clingo_truth_value_free : (v > 0 ? clingo_truth_value_true : clingo_truth_value_false);
    return true;
}
EXP size_t clingo_assignment_size(clingo_assignment_t const *a) { return SP(a).P->nvars; }
EXP bool clingo_assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *l) {
    if (o >= SP(a).P->nvars) { return bad("Invalid offset"); }
    *l = static_cast<lit_t>(o + 1);
    return true;
}
EXP bool clingo_assignment_is_total(clingo_assignment_t const *a) { return SP(a).total(); }
EXP bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) { *n = SP(a).trail.size(); return true; }
EXP bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t lv, uint32_t *o) {
    if (lv > SP(a).level()) { return bad("Invalid level"); }
    *o = S(a).lim[lv];
    return true;
}
EXP bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t lv, uint32_t *o) {
    auto &s = SP(a);
    if (lv > s.level()) { return bad("Invalid level"); }
    *o = lv == s.level() ? s.trail.size() : s.lim[lv + 1];
    return true;
}
EXP bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *l) {
    if (o >= SP(a).trail.size()) { return bad("Invalid offset"); }
    *l = S(a).trail[o];
    return true;
}

// ------------------------------------------------------------------ init
EXP bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t a, clingo_literal_t *r) {
    auto &p = PR(i);
    auto it = p.lit_map.find(a < 0 ? -a : a);
    *r = it == p.lit_map.end() ? a : (a < 0 ? -it->second : it->second);
    return true;
}
namespace {
void watch(Solver &s, lit_t l, bool init) {
    auto &w = s.watch[Solver::idx(l)];
    if (w) { return; }
    w = 1;
    if (init && s.is_true(l)) {
        bool seen = false;
        for (auto &li : s.levels) {
            for (auto x : li.delivered) { seen = seen || x == l; }
        }
        for (auto x : s.queue) { if (x == l) { return; } }
        if (!seen || s.P->redeliver) { s.queue.push_back(l); }
    }
}
} // namespace
EXP bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    auto &p = PR(i);
    if (!valid_lit(*p.solvers[0], l)) { return bad("Invalid literal"); }
    for (int t = 0; t < p.threads; ++t) { watch(*p.solvers[t], l, true); }
    return true;
}
EXP bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) {
    auto &p = PR(i);
    if (!valid_lit(*p.solvers[0], l)) { return bad("Invalid literal"); }
    if (static_cast<int>(t) >= p.threads) { return bad("Invalid thread id"); }
    watch(*p.solvers[t], l, true);
    return true;
}
EXP bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    auto &p = PR(i);
    for (int t = 0; t < p.threads; ++t) { p.solvers[t]->watch[Solver::idx(l)] = 0; }
    return true;
}
EXP bool clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t t) {
    PR(i).solvers[t]->watch[Solver::idx(l)] = 0;
    return true;
}
EXP bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
EXP bool clingo_propagate_init_symbolic_atoms(clingo_propagate_init_t const *, clingo_symbolic_atoms_t const **) { return bad("mock: no symbolic atoms"); }
EXP bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) {
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(&PR(i).data);
    return true;
}
EXP int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return PR(i).threads; }
EXP void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { PR(i).check_mode = m; }
EXP clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return PR(i).check_mode; }
EXP clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    return reinterpret_cast<clingo_assignment_t const *>(PR(i).solvers[0].get());
}
EXP bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) {
    *r = PR(i).new_var();
    PR(i).aux.push_back(*r);
    return true;
}
EXP bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) {
    auto &p = PR(i);
    Clause d(c, c + n);
    for (auto l : d) {
        if (!valid_lit(*p.solvers[0], l)) { return bad("Invalid literal"); }
    }
    if (p.obs) {
        try { p.obs->on_init_clause(p, d); }
        catch (...) { p.raised = std::current_exception(); return bad("harness: violation"); }
    }
    ++p.n_clause;
    *r = p.top_conflict ? false : p.add_static(d);
    return true;
}
EXP bool clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t, clingo_weighted_literal_t const *, size_t, clingo_weight_t, clingo_weight_constraint_type_t, bool, bool *) { return bad("mock: weight constraint"); }
EXP bool clingo_propagate_init_add_minimize(clingo_propagate_init_t *, clingo_literal_t, clingo_weight_t, clingo_weight_t) { return bad("mock: minimize"); }
EXP bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) {
    auto &p = PR(i);
    *r = true;
    for (auto &s : p.solvers) {
        if (!s->unit_propagate()) { p.top_conflict = true; *r = false; }
    }
    return true;
}

// ------------------------------------------------------------------ control
EXP clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return SP(c).tid; }
EXP clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    return reinterpret_cast<clingo_assignment_t const *>(c);
}
EXP bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *) { static_cast<void>(c); return bad("mock: add_literal during search"); }
EXP bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    auto &s = SP(c);
    if (!valid_lit(s, l)) { return bad("Invalid literal"); }
    if (s.P->obs) { s.P->obs->on_add_watch(s, l); }
    s.watch[Solver::idx(l)] = 1;
    return true;
}
EXP bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return SP(c).watch[Solver::idx(l)] != 0; }
EXP void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    auto &s = SP(c);
    if (s.P->obs) { s.P->obs->on_remove_watch(s, l); }
    s.watch[Solver::idx(l)] = 0;
}
EXP bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t, bool *r) {
    auto &s = S(c);
    if (!s.in_callback) { throw Misuse("add_clause outside of callback"); }
    if (s.P->obs) { s.P->obs->point(s, "add_clause"); }
    // the solver refuses further clauses after it has reported a conflict
    if (s.conflict || s.pending) { return bad("Invalid addClause() on conflicting assignment"); }
    Clause d(cl, cl + n);
    ++s.P->n_clause;
    for (auto l : d) {
        if (!valid_lit(s, l)) { return bad("Invalid literal"); }
    }
    if (s.P->obs) {
        try { s.P->obs->on_clause(s, d); }
        catch (...) { s.raised = std::current_exception(); return bad("harness: violation"); }
    }
    *r = s.add_clause(d);
    return true;
}
EXP bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    auto &s = S(c);
    if (s.P->obs) { s.P->obs->point(s, "propagate()"); }
    *r = (s.conflict || s.pending) ? false : s.unit_propagate();
    return true;
}

// ------------------------------------------------------------------ theory atoms
EXP bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) { *n = TD(a).atoms.size(); return true; }
EXP bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) { *r = TD(a).terms[t].type; return true; }
EXP bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) {
    if (TD(a).terms[t].type != clingo_theory_term_type_number) { return bad("no number"); }
    *r = TD(a).terms[t].number;
    return true;
}
EXP bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) { *r = TD(a).terms[t].name.c_str(); return true; }
EXP bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) {
    *r = TD(a).terms[t].args.data();
    *n = TD(a).terms[t].args.size();
    return true;
}
EXP bool clingo_theory_atoms_term_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t t, size_t *n) { *n = TD(a).str(t).size() + 1; return true; }
EXP bool clingo_theory_atoms_term_to_string(clingo_theory_atoms_t const *a, clingo_id_t t, char *s, size_t n) { snprintf(s, n, "%s", TD(a).str(t).c_str()); return true; }
EXP bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r, size_t *n) {
    *r = TD(a).elems[e].tuple.data();
    *n = TD(a).elems[e].tuple.size();
    return true;
}
EXP bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **r, size_t *n) {
    *r = TD(a).elems[e].cond.data();
    *n = TD(a).elems[e].cond.size();
    return true;
}
EXP bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *, clingo_id_t, clingo_literal_t *r) { *r = 1; return true; }
EXP bool clingo_theory_atoms_element_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *n) { *n = 2; return true; }
EXP bool clingo_theory_atoms_element_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *s, size_t n) { snprintf(s, n, "e"); return true; }
EXP bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t *t) { *t = TD(a).atoms[i].term; return true; }
EXP bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t const **e, size_t *n) {
    *e = TD(a).atoms[i].elems.data();
    *n = TD(a).atoms[i].elems.size();
    return true;
}
EXP bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t i, bool *r) { *r = TD(a).atoms[i].guard; return true; }
EXP bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t i, char const **c, clingo_id_t *t) {
    if (!TD(a).atoms[i].guard) { return bad("no guard"); }
    *c = TD(a).atoms[i].op.c_str();
    *t = TD(a).atoms[i].guard_term;
    return true;
}
EXP bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_literal_t *l) { *l = TD(a).atoms[i].lit; return true; }
EXP bool clingo_theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *n) { *n = 2; return true; }
EXP bool clingo_theory_atoms_atom_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *s, size_t n) { snprintf(s, n, "a"); return true; }

// ------------------------------------------------------------------ control object
EXP bool clingo_control_add(clingo_control_t *c, char const *, char const *const *, size_t, char const *prg) {
    PR(c).added_programs += prg;
    return true;
}
EXP bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool) {
    auto &x = PR(c);
    x.prop = *p;
    x.prop_data = data;
    x.registered = true;
    ++x.registrations;
    return true;
}

// ------------------------------------------------------------------ model
#define MO(x) (*reinterpret_cast<Model *>(const_cast<clingo_model_t *>(x)))
EXP bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) { *id = MO(m).tid; return true; }
EXP bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    MO(m).symbols.insert(MO(m).symbols.end(), s, s + n);
    return true;
}

// ------------------------------------------------------------------ statistics
#define ST(x) (*reinterpret_cast<Stats *>(const_cast<clingo_statistics_t *>(x)))
EXP bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *k) { *k = 0; return true; }
EXP bool clingo_statistics_type(clingo_statistics_t const *s, uint64_t k, clingo_statistics_type_t *t) { *t = ST(s).nodes[k].type; return true; }
EXP bool clingo_statistics_array_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = ST(s).nodes[k].arr.size(); return true; }
EXP bool clingo_statistics_array_at(clingo_statistics_t const *s, uint64_t k, size_t o, uint64_t *r) {
    if (o >= ST(s).nodes[k].arr.size()) { return bad("statistics: out of range"); }
    *r = ST(s).nodes[k].arr[o];
    return true;
}
EXP bool clingo_statistics_array_push(clingo_statistics_t *s, uint64_t k, clingo_statistics_type_t t, uint64_t *r) {
    ST(s).nodes.emplace_back();
    ST(s).nodes.back().type = t;
    *r = ST(s).nodes.size() - 1;
    ST(s).nodes[k].arr.push_back(*r);
    return true;
}
EXP bool clingo_statistics_map_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = ST(s).nodes[k].kids.size(); return true; }
EXP bool clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t k, char const *name, bool *r) {
    *r = false;
    for (auto &x : ST(s).nodes[k].kids) { if (x.first == name) { *r = true; } }
    return true;
}
EXP bool clingo_statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t k, size_t o, char const **name) {
    *name = ST(s).nodes[k].kids[o].first.c_str();
    return true;
}
EXP bool clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t k, char const *name, uint64_t *r) {
    for (auto &x : ST(s).nodes[k].kids) { if (x.first == name) { *r = x.second; return true; } }
    return bad("statistics: key not found");
}
EXP bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t k, char const *name, clingo_statistics_type_t t, uint64_t *r) {
    for (auto &x : ST(s).nodes[k].kids) { if (x.first == name) { *r = x.second; return true; } }
    ST(s).nodes.emplace_back();
    ST(s).nodes.back().type = t;
    *r = ST(s).nodes.size() - 1;
    ST(s).nodes[k].kids.emplace_back(name, *r);
    return true;
}
EXP bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t k, double *v) { *v = ST(s).nodes[k].value; return true; }
EXP bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t k, double v) {
    ST(s).nodes[k].value = v;
    return true;
}
