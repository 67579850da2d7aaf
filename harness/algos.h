// Binding of the generic monitors to one algorithm of the library (one translation unit per algorithm).
#pragma once
#include "monitor.h"
#include "helper_templates.h"
#include "algorithms/common/decaying_temp.h"

namespace vm {
    inline double no_heuristic(std::shared_ptr<const State>, std::shared_ptr<ThtsEnv>) { return 0.0; }
    inline TempDecayFnPtr decay_fn(int k) { return k == 1 ? decayed_temp_inv_sqrt : k == 2 ? decayed_temp_inv_log : k == 3 ? decayed_temp_sigmoid : nullptr; }
    // the bits of AlgCfg::set; the seed is always given
    inline bool given(const AlgCfg& c, int k) { return c.set >> k & 1; }
    inline void fill_common(ThtsManagerArgs& a, const AlgCfg& c) {
        a.seed = c.seed;
        if (given(c, 0)) a.max_depth = c.max_depth;
        if (given(c, 1)) a.mcts_mode = c.mcts;
        if (given(c, 2)) a.is_two_player_game = c.two_player;
        if (given(c, 3)) a.use_transposition_table = c.tt;
        if (given(c, 4)) a.num_transposition_table_mutexes = c.tt_mutexes;
        if (given(c, 5)) { if (c.heur == 1) a.heuristic_fn = mon_heuristic; else if (c.heur == 2) a.heuristic_fn = nullptr; else if (c.full) a.heuristic_fn = no_heuristic; }
        if (given(c, 6)) { if (c.prior) a.prior_fn = mon_prior; else if (c.full) a.prior_fn = nullptr; }
    }
    template <class Args> void fill_uct(Args& a, const AlgCfg& c) {
        fill_common(a, c);
        if (given(c, 7)) a.bias = c.bias;
        if (given(c, 8)) a.heuristic_psuedo_trials = c.pseudo;
        if (given(c, 9)) a.recommend_most_visited = c.rec_mv;
        if (given(c, 10)) a.epsilon_exploration = c.eps;
    }
    template <class Args> void fill_ments(Args& a, const AlgCfg& c) {
        fill_common(a, c);
        if (given(c, 9)) a.recommend_most_visited = c.rec_mv;
        if (given(c, 12)) a.temp = c.temp;
        if (given(c, 13)) a.prior_policy_search_weight = c.ppsw;
        if (given(c, 14)) a.epsilon = c.epsilon;
        if (given(c, 15)) a.root_node_epsilon = c.root_eps;
        if (given(c, 16)) a.max_explore_prob = c.max_explore;
        if (given(c, 17)) a.temp_decay_fn = decay_fn(c.decay);
        if (given(c, 18)) a.temp_decay_min_temp = c.min_temp;
        if (given(c, 19)) a.temp_decay_visits_scale = c.vscale;
        if (given(c, 20)) a.temp_decay_root_node_visits_scale = c.root_vscale;
        if (given(c, 21)) a.default_q_value = c.defq;
        if (given(c, 22)) a.shift_pseudo_q_values = c.shift;
        if (given(c, 23)) a.psuedo_q_value_offset = c.offset;
        if (given(c, 24)) a.recommend_visit_threshold = c.rec_thresh;
    }
    template <class Args> void fill_dents(Args& a, const AlgCfg& c) {
        fill_ments(a, c);
        if (given(c, 27)) a.value_temp_decay_fn = decay_fn(c.vdecay);
        if (given(c, 28)) a.value_temp_init = c.vtemp;
        if (given(c, 29)) a.value_temp_decay_min_temp = c.vmin;
        if (given(c, 30)) a.value_temp_decay_visits_scale = c.vvscale;
        if (given(c, 31)) a.value_temp_decay_root_node_visits_scale = c.vroot;
        if (given(c, 32)) a.use_dp_value = c.use_dp;
    }
    // internal helpers of the library are used where they exist; their absence only narrows what is compared
    template <class N> bool policy_of(const N& n, ActionDistr& d, ThtsEnvContext& ctx) {
        if constexpr (requires { n.compute_action_distribution(d, ctx); }) { n.compute_action_distribution(d, ctx); return true; } else return false;
    }
    template <class B> int nb_of(const B& b) { if constexpr (requires { b.num_backups; }) return b.num_backups; else return 0; }
    template <class N> double lent_of(const N& n) { if constexpr (requires { n.local_entropy; }) return n.local_entropy; else return 0; }
    template <class A> struct OpsT : Ops {
        std::shared_ptr<ThtsManager> make_manager(const AlgCfg& c, std::shared_ptr<ThtsEnv> env) override {
            typename A::Args a(env); A::fill(a, c); return std::make_shared<typename A::M>(a);
        }
        std::pair<std::shared_ptr<ThtsManager>, std::shared_ptr<ThtsManager>> make_managers(const AlgCfg& c, const AlgCfg& later, std::shared_ptr<ThtsEnv> env) override {
            typename A::Args a(env); A::fill(a, c); auto x = std::make_shared<typename A::M>(a), y = std::make_shared<typename A::M>(a); AlgCfg l = later; l.set = ~0ull; A::fill(a, l); return {x, y};
        }
        std::shared_ptr<ThtsDNode> make_root(std::shared_ptr<ThtsManager> m, std::shared_ptr<const State> s, int d, int t, bool monitored) override {
            auto mm = std::static_pointer_cast<typename A::M>(m);
            if (monitored) return std::make_shared<MonD<A>>(mm, s, d, t);
            return std::make_shared<typename A::D>(mm, s, d, t);
        }
        DStat dstat(const ThtsDNode& n0) override {
            auto& n = static_cast<const typename A::D&>(n0);
            DStat s; s.visits = n0.num_visits; s.heur = n0.heuristic_value; A::fill_d(s, n); return s;
        }
        CStat cstat(const ThtsCNode& n0) override {
            auto& n = static_cast<const typename A::C&>(n0);
            CStat s; s.visits = n0.num_visits; A::fill_c(s, n); return s;
        }
        bool policy(const ThtsDNode& n0, ActionDistr& d, ThtsEnvContext& ctx) override { return A::policy(static_cast<const typename A::D&>(n0), d, ctx); }
        double temp(const ThtsDNode& n0) override { auto& n = static_cast<const typename A::D&>(n0); (void)n; if constexpr (requires { n.get_temp(); }) return n.get_temp(); else return NAN; }
        double value_temp(const ThtsDNode& n0) override { auto& n = static_cast<const typename A::D&>(n0); (void)n; if constexpr (requires { n.get_value_temp(); }) return n.get_value_temp(); else return NAN; }
        double value_temp(const ThtsCNode& n0) override { auto& n = static_cast<const typename A::C&>(n0); (void)n; if constexpr (requires { n.get_value_temp(); }) return n.get_value_temp(); else return NAN; }
        const std::type_info& dtype(bool m) override { return m ? typeid(MonD<A>) : typeid(typename A::D); }
        const std::type_info& ctype(bool m) override { return m ? typeid(MonC<A>) : typeid(typename A::C); }
        std::shared_ptr<ThtsLogger> make_logger() override { return A::logger(); }
    };
}
