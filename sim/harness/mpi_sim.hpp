#pragma once
#include "mpi.h"
#include "rt.hpp"
namespace sim { namespace mpisim {
struct Config {
    int ranks = 2;
    size_t eager_max = 64;      // standard-mode sends up to this size are buffered
    bool mixed = false;         // decide per message whether to buffer it
    bool leak_check = true;
};
Config random_config(int max_ranks);
// run fn on every rank of a simulated machine and wait for all of them
void world(const Config& c, const std::function<void(int)>& fn);
int  my_rank();
struct Totals { long sent, delivered, transferred, withdrawn, undelivered; };
Totals totals();
}}
