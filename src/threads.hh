#pragma once
#include "explore.hh"
namespace core {
//! All schedules of two threads with up to depth=<n> preemptions; neg=0 selects straight scripts.
void run_threads(Scenario const &sc, Results &res, bool free_running);
} // namespace core
