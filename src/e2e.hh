// End-to-end harness: the real library together with the real clingo, programs enumerated, answers compared with brute force.
#pragma once
#include "core.hh"
#include <chrono>
#include <clingo-dl-app/app.hh>
#include <clingo.hh>

namespace e2e {

using core::Results;
using core::Violation;
using core::REdge;
using core::Args;
using Config = std::vector<std::pair<std::string, std::string>>;
using Strings = std::vector<std::string>;
using Values = std::map<std::string, double>;

struct Stop {};

//! One observed answer.
struct Answer {
    std::string atoms;  // sorted regular atoms
    Values values;      // dl/2 symbols
    bool operator<(Answer const &o) const { return std::tie(atoms, values) < std::tie(o.atoms, o.values); }
    bool operator==(Answer const &o) const { return std::tie(atoms, values) == std::tie(o.atoms, o.values); }
};
std::string show(Answer const &a);
std::string show(std::vector<Answer> const &a);

//! A control with an attached theory.
class Session : private Clingo::SolveEventHandler {
  public:
    Session(Config const &opts, Strings const &args);
    Session(Session const &) = delete;
    ~Session() override;
    void add(std::string const &text);
    void ground(char const *part, std::vector<Clingo::Symbol> const &params = {});
    //! Compute all answers (sorted).
    std::vector<Answer> solve(std::vector<clingo_literal_t> const &assume = {});

    clingodl_theory_t *theory{nullptr};
    std::unique_ptr<Clingo::Control> ctl;
    bool check_api{true};
    bool stats{true};
    int models{0};
    std::string warnings;

  private:
    bool on_model(Clingo::Model &m) override;
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override;
    std::vector<Answer> answers_;
    std::string api_error_;
};

//! A constraint u - v op w over vertices (0 is the constant 0).
struct Con {
    int u{0}, v{0}, op{0}, w{0};
    auto tie() const { return std::tie(u, v, op, w); }
    bool operator<(Con const &o) const { return tie() < o.tie(); }
    bool operator==(Con const &o) const { return tie() == o.tie(); }
};
enum Kind { ATOM_E, ATOM_DIFF, ATOM_Q };
struct BLit { int kind{0}, idx{0}, sign{0}; };
enum Head { HEAD_NONE, HEAD_DIFF, HEAD_X, HEAD_TRUE }; // without and with effect; idx selects the notation
struct Stm { int head{0}, idx{0}; std::vector<BLit> body; int step{0}; };
struct Prog {
    int ne{0}, nq{0};
    double scale{1}; // not 1: real valued, weights written as strings
    bool rdl{false};
    std::vector<Con> cons;
    std::vector<Stm> stms;
    std::string str() const;
    static Prog parse(std::string const &s);
    std::string con(int i) const;
    std::string text(int step) const;
    int steps() const;
    int nvars() const;
};

struct RefAnswer {
    Answer ans;                 // with canonical values for the components of all constraints
    std::vector<Values> other;  // canonical values for finer components (constraints that are false initially may be ignored)
};
//! Answers of the accumulated program up to and including the given step; q[i] is the value of external i.
std::vector<RefAnswer> reference(Prog const &p, int step, std::vector<bool> const &q, bool cc = true);
//! Compare; returns an empty string if equal.
std::string compare(std::vector<Answer> const &got, std::vector<RefAnswer> const &want, Results &res);

//! Enumeration context.
struct Ctx {
    Args const &args;
    int w, nw;
    Results &res;
    bool thorough;
    uint64_t idx{0};
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    //! True if the next item belongs to this worker.
    bool mine();
    void sample(std::string const &s) { if (res.samples.size() < 2 && idx % 37 == 1) { res.samples.push_back(s); } }
};

//! Enumerate multisets of constraints with the given weights; vertex 0 is the constant 0.
void for_each_cons(int V, int E, std::vector<int> const &weights, std::vector<int> const &ops, std::function<void(std::vector<Con> const &)> const &fn);
//! Build a program from constraints and a role per constraint (see e2e.cc).
Prog make_prog(std::vector<Con> const &cons, std::string const &roles);

Strings split(std::string const &s, char sep);
Config parse_config(std::string const &s);
std::string show_config(Config const &c);

// families; each returns true if the property is handled
void check_answers(Ctx &x, std::string const &prop);   // C08 C09 C12 C16 C21 C22
void check_expr(Ctx &x, std::string const &prop);      // C13 C14
void check_rewrite(Ctx &x, std::string const &prop);   // C15
void check_optimize(Ctx &x, std::string const &prop);  // C17
void check_life(Ctx &x, std::string const &prop);      // C26
// replay one scenario given by its string
void replay_answers(std::string const &s, Results &res);
void replay_expr(std::string const &s, Results &res);
void replay_rewrite(std::string const &s, Results &res);
void replay_optimize(std::string const &s, Results &res);
void replay_life(std::string const &s, Results &res);

} // namespace e2e
