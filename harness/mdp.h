// Generated finite problems (MDPs and two-player games) and the environment that exposes them to the library.
#pragma once
#include "core.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_manager.h"
#include "thts_types.h"

namespace vm {
    using namespace thts;
    struct Outcome { int s2; double p; };

    struct Spec {
        int n = 0, init = 0;
        std::vector<char> sink;
        std::vector<std::vector<int>> acts;                        // legal action ids per state (sorted)
        std::map<std::pair<int,int>, std::vector<Outcome>> tr;
        std::map<std::pair<int,int>, double> rew;
        std::map<std::tuple<int,int,int>, double> obs_rew;         // extra reward that depends on the outcome
        std::vector<double> heur;
        std::vector<std::map<int,double>> prior;
        int skind = 0, akind = 0;
        double rscale = 1.0;
        std::string desc() const;
        double reward(int s, int a, int o) const {
            double r = rew.at({s, a});
            if (o >= 0) { auto it = obs_rew.find({s, a, o}); if (it != obs_rew.end()) r += it->second; }
            return r;
        }
        double prob(int s, int a, int o) const { for (auto& x : tr.at({s, a})) if (x.s2 == o) return x.p; return 0.0; }
        bool legal(int s, int a) const { for (int x : acts[s]) if (x == a) return true; return false; }
        uint64_t hash() const;
    };
    struct GenOpts {
        int min_states = 3, max_states = 14, max_actions = 4, max_branch = 3;
        bool layered = true;         // acyclic: every walk ends in a sink
        double rscale = 1.0;
        bool obs_rewards = false;
        bool integer_rewards = false;
        bool differing_actions = true;
        bool zero_sink_reward = false;
        bool ties = false;           // rewards from a tiny set, so that values tie
        bool deterministic = false;
        bool uneven_probs = true;
        double prior_scale = 1.0;    // priors sum to this
        bool prior_zeros = false;
        double roffset = 0.0;        // added to every reward (in units of rscale)
        bool chain = false;          // long corridors: successors are close by and few states end the walk
    };
    Spec gen_spec(Rng& r, const GenOpts& o);

    struct Mon;   // monitor.h

    std::shared_ptr<const State> mk_state(const Spec&, int s);
    std::shared_ptr<const Action> mk_action(const Spec&, int a);
    int state_id(const Spec&, const Observation& s);     // -1 if not a state of this problem
    int action_id(const Spec&, const Action& a);

    class MonEnv : public ThtsEnv {
        public:
            Spec spec;
            Mon* mon = nullptr;
            int yield_pct = 0;                            // probability (in %) of a scheduling perturbation per call
            bool fresh_objects = true;                    // every call returns new but equal objects
            mutable std::atomic<long> calls{0};
            std::function<void(int,int,int)> on_reward;   // (s,a,o) for every reward query with an outcome
            std::function<void(const char*,int,int)> on_call;
            mutable std::mutex ctx_mu; mutable std::shared_ptr<ThtsEnvContext> last_default;   // default contexts are compared with each other
            explicit MonEnv(const Spec& s) : ThtsEnv(true), spec(s) {}
            void perturb() const;
            std::shared_ptr<const State> get_initial_state_itfc() const override;
            bool is_sink_state_itfc(std::shared_ptr<const State> state) const override;
            std::shared_ptr<ActionVector> get_valid_actions_itfc(std::shared_ptr<const State> state) const override;
            std::shared_ptr<StateDistr> get_transition_distribution_itfc(
                std::shared_ptr<const State> state, std::shared_ptr<const Action> action) const override;
            std::shared_ptr<const State> sample_transition_distribution_itfc(
                std::shared_ptr<const State> state, std::shared_ptr<const Action> action, RandManager& rm) const override;
            double get_reward_itfc(std::shared_ptr<const State> state, std::shared_ptr<const Action> action,
                std::shared_ptr<const Observation> observation = nullptr) const override;
            std::shared_ptr<ThtsEnvContext> sample_context_itfc(std::shared_ptr<const State> state) const override;
    };

    double mon_heuristic(std::shared_ptr<const State> s, std::shared_ptr<ThtsEnv> env);
    std::shared_ptr<ActionPrior> mon_prior(std::shared_ptr<const State> s, std::shared_ptr<ThtsEnv> env);

    // exact solution of the finite-horizon problem; two_player: odd steps minimise
    struct Solved { double v; std::vector<int> best; std::map<int,double> q; };
    Solved solve(const Spec& sp, int s, int depth, int max_depth, bool two_player, int timestep, bool use_heur);
}
