// Enumerators of bounded input spaces.
#pragma once
#include "explore.hh"

namespace core {

struct GEdge {
    int u, v, w;
    bool operator<(GEdge const &o) const { return std::tie(u, v, w) < std::tie(o.u, o.v, o.w); }
    bool operator==(GEdge const &o) const { return std::tie(u, v, w) == std::tie(o.u, o.v, o.w); }
};
using GVec = std::vector<GEdge>;

//! All multisets of E edges over vertices 0..V with the given weights, up to renaming of 1..V.
void for_each_graph(int V, int E, std::vector<int> const &weights, std::function<void(GVec const &)> const &fn);

//! Literal patterns, one character per edge:
//! o own variable, s same literal as the previous edge, n negation of the previous literal,
//! f fact, b own variable in strict (body) form, S same literal as the first edge, N negation of the first,
//! g >= form of the edge, l < form (weight + 1), G > form
//! All sequences of E edges (in every order) over at most V variables and 0, up to renaming; variables are numbered by first occurrence.
void for_each_sequence(int V, int E, std::vector<int> const &weights, std::function<void(GVec const &)> const &fn);
Scenario make_scenario(GVec const &g, std::string const &pattern);

using Config = std::vector<std::pair<std::string, std::string>>;
Config cfg(std::string const &s); //!< "a:b c:d"

//! Options under exploration.
std::vector<Config> modes();

} // namespace core

namespace core {

using Emit = std::function<void(Scenario const &)>;

//! A scenario from edges given in decision order (lowest literal first), one literal per edge.
Scenario ordered_scenario(std::vector<Con> const &cons);

//! Cycles v0 -> v1 -> ... with the given weights, one chord, under all (or rotated) decision orders.
//! If zero >= 0, vertex number zero of the cycle is the constant 0.
void for_each_cycle(int len, std::vector<std::vector<int>> const &weights, bool chord, bool all_perms, Emit const &fn);

//! A cycle with an edge into its first vertex: the cycle's edges need no change of the values until the tail edge is added. All orders.
void for_each_tail(int len, std::vector<std::vector<int>> const &weights, Emit const &fn);

//! Star with k middle vertices: s -> m_i (weights a permutation), m_i -> t (two choices), trigger x -> s, closing edges t -> x, t -> s.
//! The heap of the cycle detection and of both shortest path computations holds all middle vertices.
void for_each_fan(int k, int stride, bool zero_source, Emit const &fn);

//! Fan whose middle vertices have different potentials before the trigger.
void for_each_cascade(int k, int stride, bool zero_source, Emit const &fn);

//! Wide fan in which one middle vertex is improved while it is somewhere in a heap with several levels.
void for_each_deep(int k, int stride, bool zero_source, Emit const &fn);

//! Ladders: two parallel chains with rungs, weights alternate; long shortest paths with ties.
void for_each_ladder(int n, bool zero_source, Emit const &fn);

//! Several components, each with bounds against 0 and inner edges.
void for_each_components(int ncomp, std::vector<int> const &weights, int per_comp, Emit const &fn);

//! Split the constraints of one scenario over two steps in all ways (bitmask given), adding step specifics.
void for_each_split(Scenario const &sc, Emit const &fn);

//! Distribute the constraints of a scenario over several steps in all ways; what selects the step specifics:
//! p plain, c a literal of an earlier step is fixed by a clause, a literals are assumed with changing signs,
//! b two literals are connected by a clause, t the number of threads changes, e a last step without constraints.
void for_each_multishot(Scenario const &sc, int nsteps, std::string const &what, Emit const &fn);

} // namespace core
