// Search workloads shared by the checks.
#pragma once
#include "monitor.h"

namespace vm {
    struct SearchOpts {
        std::vector<Alg> algs = {UCT, PUCT, MENTS, DBMENTS, RENTS, TENTS, DENTS, EST};
        int quick = 200, thorough = 2500;
        int max_threads = 8;         // 1: always single threaded
        double p_multi = 0.4;        // share of cases with several workers
        double p_interleave = 0.0;   // share of cases advanced by the deterministic interleaver
        int max_trials = 200;
        bool values = true;
        int tt = 0;                  // 0: random, 1: always, -1: never
        bool vary_scale = true;
        bool ties = false;           // many equal values
        bool monitored = true;
        bool deterministic_ok = true;
        std::function<void(World&, long trials, Rng&, int threads)> at_rest;   // after every search call
        std::function<void(AlgCfg&, GenOpts&, Rng&)> tweak;
    };
    void search_cases(Ctx& c, const SearchOpts& o);
    // advance several trials in turns on one thread, following the same protocol as a worker
    void interleave(World& w, Rng& r, int trials, int width);
    Spec negated(const Spec&);
    // actions the configured criterion allows a node to recommend
    struct Rec { std::vector<int> best, near; bool uniform = false; };
    Rec recommended(World& w, ThtsDNode& d);
    void stat(const char* prop, const char* what, const Pit3& p);
    void stat_classes(const char* prop, const char* what, const Pit3* p);
}
