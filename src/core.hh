// Scenarios, reference semantics and worker framework shared by the mock based checks.
#pragma once
#include "mock.hh"
#include <clingo-dl.h>
#include <algorithm>
#include <array>
#include <climits>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>

namespace core {

using mock::Clause;
using mock::lit_t;

// ------------------------------------------------------------------ results / reporting
struct Results {
    std::map<std::string, uint64_t> n;
    std::vector<std::string> samples;
    std::set<uint64_t> outcomes; // hashes of distinct observed outcomes (capped)
    void add(std::string const &k, uint64_t v = 1) { n[k] += v; }
    void outcome(uint64_t h) { if (outcomes.size() < 200000) { outcomes.insert(h); } }
};

//! A violation: message plus scenario (self contained replay string).
struct Violation : std::exception {
    std::string kind, msg, replay;
    Violation(std::string k, std::string m) : kind{std::move(k)}, msg{std::move(m)} {}
    char const *what() const noexcept override { return msg.c_str(); }
};

// which oracles are active
enum Oracle : unsigned {
    O_CONS = 1,       // conflict-free fixpoint => true constraints consistent, values satisfy them
    O_CLAUSE = 2,     // emitted clauses are entailed; leaf set exact
    O_VALUE = 4,      // values are canonical
    O_FULL = 8,       // completeness, mode full
    O_ZERO = 16,      // completeness, mode zero
    O_INV = 32,       // completeness, inverse
    O_ROOT = 64,      // completeness below the root limit
    O_API = 128,      // assignment interface coherent
    O_DECIDE = 256,   // heuristic contract
    O_MUTEX = 512,    // clauses added during initialization
    O_CC = 1024,      // number of components
    O_STAT = 2048,    // statistics
    O_EXACT = 4096,   // operation sequences: same as a fresh instance
    O_LEAF = 8192,    // set of accepted assignments is exact
    O_ALL = 0xffff,
};

// ------------------------------------------------------------------ scenarios
// Variables of the theory: 0 is the constant 0, i>0 is the symbol v<i>.
struct Con {
    int u, v;      // u - v
    int op;        // index into ops
    int w;
    bool strict;   // body form
    lit_t lit;
    bool operator<(Con const &o) const {
        return std::tie(u, v, op, w, strict, lit) < std::tie(o.u, o.v, o.op, o.w, o.strict, o.lit);
    }
};
extern char const *const OPS[6]; // <= >= < > = !=
enum { LE, GE, LT, GT, EQ, NE };

struct StepDef {
    std::vector<Con> cons;
    std::vector<Clause> clauses;  // program clauses added in this step
    int nlits{0};                 // number of new boolean variables in this step
    std::vector<lit_t> assume;    // decided first (assumptions / externals)
    int threads{0};               // number of threads from this step on (0: unchanged)
};

struct Scenario {
    std::vector<std::pair<std::string, std::string>> config;
    std::vector<StepDef> steps;
    int threads{1};
    int chunk{0};
    bool forget{false};
    bool redeliver{false};
    bool rdl{false};
    double scale{1};              // weights are w * scale in rdl mode (written as strings)
    std::string extra;            // explorer specific (e.g. operation sequence)
    std::string str() const;
    static Scenario parse(std::string const &s);
};

// a reference edge: u - v <= w under literal lit
template <class W> struct REdgeT {
    int u, v;
    W w;
    lit_t lit;
};
using REdge = REdgeT<double>;

//! Detect a negative cycle; n vertices.
bool has_negative_cycle(std::vector<REdge> const &edges, int n);
//! Least non-negative solution (val >= 0) of the edges; edges must be consistent.
std::vector<double> least_solution(std::vector<REdge> const &edges, int n);
//! Shortest distances d[u][v] from u to v where edge (u,v,w) goes u->v.
std::vector<std::vector<double>> floyd(std::vector<REdge> const &edges, int n);

// ------------------------------------------------------------------ system under test
//! One theory object attached to a mock problem.
struct System {
    std::unique_ptr<mock::Problem> prob;
    clingodl_theory_t *theory{nullptr};
    explicit System(Scenario const &sc, mock::Observer *obs = nullptr);
    System(System const &) = delete;
    ~System();
    void add_step(Scenario const &sc, StepDef const &st);
    //! Values of v1..vn by symbol lookup (nullopt if no value).
    std::vector<std::optional<double>> values(uint32_t tid, int nv) const;
};

clingo_symbol_t var_symbol(int i);
int num_vars(Scenario const &sc);
clingo_id_t add_con(mock::TheoryData &td, Con const &c, bool rdl, double scale);

// ------------------------------------------------------------------ worker framework
struct Args {
    std::string prop, tier, replay, out;
    int seed{1};
    int workers{8};
    int only{-1};
    double scale{1};
    double limit{0};      // soft time limit in seconds
};
//! Current scenario for crash reports (shared memory).
void set_current(std::string const &s);
//! Distributes work; run(worker, nworkers, results) in forked processes. Returns exit code.
//! True if another worker found a violation.
bool stop_requested();
int run_workers(Args const &args, std::function<void(int, int, Results &)> const &run);

inline uint64_t hash_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    return h;
}

} // namespace core
