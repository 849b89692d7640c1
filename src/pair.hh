#pragma once
#include "explore.hh"
namespace core {
//! All interleavings of the operations on two theory objects; "order" restricts to one interleaving (a string of 0/1).
void run_pair(Scenario const &a, Scenario const &b, std::string const &order, bool threads, Results &res);
} // namespace core
