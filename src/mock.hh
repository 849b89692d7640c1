// A model-checkable stand-in for the solver side of the clingo C API.
//
// The harness executable defines the clingo_propagate_*, clingo_assignment_*,
// clingo_theory_atoms_*, clingo_model_*, clingo_statistics_* and
// clingo_control_{add,register_propagator} functions itself, so that the real
// clingo-dl library code (compiled from /repo) runs against a solver whose
// every choice is made by the explorer. Symbols and ASTs still come from the
// real libclingo.
#pragma once
#include <clingo.h>
#include <atomic>
#include <exception>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace mock {

using lit_t = int32_t;
using Clause = std::vector<lit_t>;

//! Thrown for misuse of the solver interface by the code under test (or harness bugs).
struct Misuse : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// ---------------------------------------------------------------- theory data
struct TheoryData {
    struct Term {
        int type;
        int number;
        std::string name;
        std::vector<clingo_id_t> args;
    };
    struct Elem {
        std::vector<clingo_id_t> tuple;
        std::vector<lit_t> cond;
    };
    struct Atom {
        clingo_id_t term;
        std::vector<clingo_id_t> elems;
        bool guard;
        std::string op;
        clingo_id_t guard_term;
        lit_t lit;
    };
    std::vector<Term> terms;
    std::vector<Elem> elems;
    std::vector<Atom> atoms;
    clingo_id_t num(int n);
    clingo_id_t sym(std::string const &s);
    clingo_id_t fun(std::string const &s, std::vector<clingo_id_t> args);
    clingo_id_t tup(std::vector<clingo_id_t> args);
    void atom(char const *name, std::vector<clingo_id_t> elem_terms, char const *op, clingo_id_t guard, lit_t lit);
    std::string str(clingo_id_t t) const;
    void clear() { terms.clear(); elems.clear(); atoms.clear(); }
};

struct Problem;

//! Counter that does not synchronize threads.
struct Counter {
    std::atomic<uint64_t> n{0};
    void operator++() { n.fetch_add(1, std::memory_order_relaxed); }
    operator uint64_t() const { return n.load(std::memory_order_relaxed); }
};

// ---------------------------------------------------------------- one solver thread
struct Solver {
    Problem *P{nullptr};
    uint32_t tid{0};
    std::vector<int8_t> val;       // by var: 0 free, 1 true, -1 false
    std::vector<uint32_t> lvl;     // by var
    std::vector<lit_t> trail;
    std::vector<uint32_t> lim;     // lim[l] = trail offset of level l; lim[0] = 0
    std::vector<uint8_t> watch;    // by literal index
    std::vector<lit_t> queue;      // literals to deliver
    struct LevelInfo {
        bool undo{false};
        std::vector<lit_t> delivered;
    };
    std::vector<LevelInfo> levels;
    std::vector<Clause> learnt;
    bool conflict{false};
    bool in_callback{false};
    bool pending{false}; // asserting clause below the current level; needs a backjump
    Clause pending_clause;
    uint32_t pending_level{0};
    std::exception_ptr raised; // by an observer

    static size_t idx(lit_t l) { return 2 * static_cast<size_t>(l < 0 ? -l : l) + (l < 0 ? 1 : 0); }
    uint32_t level() const { return static_cast<uint32_t>(lim.size()) - 1; }
    int value(lit_t l) const { return l < 0 ? -val[-l] : val[l]; }
    bool is_true(lit_t l) const { return value(l) > 0; }
    bool is_false(lit_t l) const { return value(l) < 0; }
    uint32_t var_level(lit_t l) const { return lvl[l < 0 ? -l : l]; }
    bool total() const;
    void resize(size_t nvars);
    void assign(lit_t l);
    bool unit_propagate();
    bool clause_propagate(Clause const &c, bool &changed);
    bool fixpoint();
    bool decide(lit_t l); // 0: the literal of the step
    void backtrack(uint32_t level);
    bool add_clause(Clause const &c);
};

// ---------------------------------------------------------------- observation hooks
struct Observer {
    virtual ~Observer() = default;
    //! A clause added by the theory during search (before it is integrated).
    virtual void on_clause(Solver &, Clause const &) {}
    //! A clause added during initialization.
    virtual void on_init_clause(Problem &, Clause const &) {}
    //! Choice: integrate an asserting clause below the current level by jumping back?
    virtual bool backjump_asserting(Solver &, Clause const &, uint32_t) { return false; }
    //! A scheduling point (entry of a solver call made by the theory / return of a callback).
    virtual void point(Solver &, char const *) {}
    //! Literals about to be passed to the propagate callback.
    virtual void on_deliver(Solver &, std::vector<lit_t> const &) {}
    virtual void on_add_watch(Solver &, lit_t) {}
    virtual void on_remove_watch(Solver &, lit_t) {}
};

// ---------------------------------------------------------------- shared problem
struct Problem {
    TheoryData data;
    int threads{1};
    size_t nvars{1}; // var 1 is the true constant
    std::vector<Clause> clauses;
    std::vector<std::unique_ptr<Solver>> solvers;
    clingo_propagator_t prop{};
    void *prop_data{nullptr};
    bool registered{false};
    int registrations{0};
    clingo_propagator_check_mode_t check_mode{clingo_propagator_check_mode_total};
    bool top_conflict{false};
    bool in_init{false};
    bool redeliver{false};   // deliver already true literals again when re-watched in a later step
    int chunk{0};            // 0: deliver all pending literals at once, n: at most n per call
    std::exception_ptr raised; // by an observer
    bool multi{false};       // multi-shot mode: assignments are never total on level 0
    bool forget{false};      // drop learnt clauses on backtracking
    Observer *obs{nullptr};
    std::string added_programs;
    std::string error;       // non-empty if a callback failed
    Counter n_prop, n_check, n_undo, n_init, n_clause;
    bool points{false};      // report every solver call as a scheduling point
    std::map<lit_t, lit_t> lit_map; // program literal -> solver literal (identity if absent)
    std::vector<lit_t> aux;         // literals created by the theory in init
    Problem();
    lit_t new_var();
    void set_threads(int n);
    //! Run the init callback. Returns false on a top-level conflict.
    bool init();
    bool add_static(Clause const &c);
    clingo_control_t *ctl() { return reinterpret_cast<clingo_control_t *>(this); }
};

struct Model {
    uint32_t tid;
    std::vector<clingo_symbol_t> symbols;
};

struct Stats {
    struct Node {
        int type{0};
        double value{0};
        std::vector<std::pair<std::string, uint64_t>> kids; // map
        std::vector<uint64_t> arr;
    };
    std::vector<Node> nodes;
    Stats() { nodes.emplace_back(); nodes[0].type = clingo_statistics_type_map; }
    std::string dump(uint64_t n = 0) const;
    Node const *find(std::vector<std::string> const &path) const;
};

} // namespace mock
