// Exhaustive exploration of the real propagator under the mock solver.
#pragma once
#include "core.hh"

namespace core {

//! Reference view of a scenario: constraints expanded to reference edges, components, canonical values.
struct Reference {
    struct Part { std::vector<int> comp; int ncomp{0}; };
    int nv{0};
    size_t step_start{0};            // first edge of the current step
    std::set<int> used;              // variables that occur in constraints
    bool cc{true};
    double eps{1};
    double scale{1};
    std::vector<REdge> edges;        // all edges of all steps so far (single literal constraints only)
    std::vector<char> incl_lo, incl_hi; // included in the component computation (two readings, see DESIGN)
    std::vector<Con> complex_cons;   // != and body =, which need auxiliary literals
    std::vector<std::vector<REdge>> complex_edges; // both halves of complex constraints (for components)
    void add(Scenario const &sc, StepDef const &st, mock::Solver const &s);
    void after_init(mock::Solver const &s);
    Part components(bool lo) const;
    //! Canonical values for the given true edges (nullopt = no value).
    std::vector<std::optional<double>> canonical(std::vector<REdge> const &true_edges, Part const &p) const;
    static std::vector<REdge> expand(Con const &c, double scale, double eps, bool &complex);
};

struct Limits {
    bool all_orders{true};    // branch over every free variable (else: lowest free variable only)
    int max_free_orders{6};   // switch to fixed order above this many free variables
    int max_neg{-1};          // maximum number of negative decisions on a path (-1: unlimited)
    int depth{0};             // length of operation sequences (run_ops)
    bool jump{false};         // integrate asserting clauses by jumping back
    unsigned oracles{O_ALL};
    std::string kind{"dfs"};
    //! Settings are kept in the extra field of a scenario to make it self contained.
    static Limits parse(std::string const &extra);
    std::string str() const;
};

class Explorer : public mock::Observer {
  public:
    Explorer(Scenario const &sc, Results &res);
    void run();        //!< DFS over all decision histories, all steps
    void run_ops();    //!< all operation sequences (decide / backjump) up to the bound in sc.extra
  private:
    // observer
    void on_clause(mock::Solver &s, Clause const &c) override;
    void on_deliver(mock::Solver &s, std::vector<lit_t> const &c) override;
    void point(mock::Solver &s, char const *what) override;
    void on_init_clause(mock::Problem &p, Clause const &c) override;
    bool backjump_asserting(mock::Solver &, Clause const &, uint32_t) override;

    bool dfs_(mock::Solver &s, int neg);
    void check_init_(size_t i, std::vector<int8_t> const &before);
    void check_stats_(size_t i);
    void check_error_(mock::Solver &s);
    void node_(mock::Solver &s);
    void leaf_(mock::Solver &s);
    void check_values_(mock::Solver &s, std::vector<REdge> const &te);
    void check_api_(mock::Solver &s, bool leaf);
    void simulate_(mock::Solver const &s, std::vector<mock::lit_t> const &c);
    void check_decide_(mock::Solver &s);
    void check_leaves_(StepDef const &st);
    void fail_(char const *kind, std::string const &msg);
    std::string state_(mock::Solver const &s) const;
    std::vector<REdge> true_edges_(mock::Solver const &s) const;
    bool init_step_(size_t i);
    size_t active_(size_t step) const;

  public:
    Scenario sc;
    Results &res;
    Limits lim;
    unsigned oracles{O_ALL};
    std::unique_ptr<System> sys;
    Reference ref;
    Reference::Part part_lo, part_hi;
    std::string mode{"no"};
    std::vector<std::string> thread_mode;
    long root{0}, budget{0};
    double budget_limit{0};
    bool within_budget{false}; // the budget is larger than the effort of any history
    std::string heuristic{"no"};
    bool ok_jump{false};
    std::map<Clause, bool> clause_memo;
    std::map<std::vector<int8_t>, std::multiset<std::vector<double>>> leaves; // per total assignment of program literals
    std::set<std::vector<int8_t>> full_leaves;
    size_t nprog{1}; // program literals (1..nprog), rest is auxiliary
    std::vector<char> is_aux;
    std::vector<lit_t> lmap{0, 1};
    size_t cur_step{0};
    std::vector<std::string> path;
    std::vector<Clause> init_clauses; // added by the theory in the current step (without auxiliary literals)
    uint64_t mutex_size{0}, mutex_cutoff{10};
    uint64_t cycle_clauses{0}, prop_clauses{0};
    std::vector<std::map<std::string, double>> accu_stats;
    double accu_mutexes{0};
    size_t max_comp{0};
    double expected_added{0};
    double expected_skipped{0};
    bool skipped_known{true};
    struct Sim {
        bool known{true};
        std::vector<std::vector<mock::lit_t>> groups;
        double propagated{0}, yes{0}, no{0};
    } sim;
};

} // namespace core
