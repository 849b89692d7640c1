#pragma once
#include "explore.hh"
namespace core {
//! Enumerates option values and sequences of them.
void check_options(Args const &args, int w, int nw, Results &res);
void replay_options(std::string const &s, Results &res);
} // namespace core
