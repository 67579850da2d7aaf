#include "search.h"
#include <sched.h>

namespace vm {
    void interleave(World& w, Rng& r, int trials, int width) {
        struct T {
            std::shared_ptr<ThtsEnvContext> ctx; std::shared_ptr<ThtsDNode> d; std::shared_ptr<ThtsCNode> cn; std::shared_ptr<const Action> a;
            std::vector<std::pair<std::shared_ptr<ThtsDNode>, std::shared_ptr<ThtsCNode>>> path; std::vector<double> rew;
            std::vector<double> before, after; double ra = 0, tot = 0; int phase = 0; bool fresh = false;
        };
        std::vector<T> run; int started = 0;
        w.mon.interleaved = true;
        while (started < trials || !run.empty()) {
            if (started < trials && ((int)run.size() < width) && (run.empty() || r.b(0.5))) {
                T t; t.ctx = w.env->sample_context_itfc(w.root->state); t.d = w.root; run.push_back(std::move(t)); started++; continue;
            }
            int k = r.i(0, (int)run.size() - 1); T& t = run[k];
            if (t.phase == 0) {                       // decision node: visit and choose, or stop
                bool stop = t.d->is_leaf() || (w.cfg.mcts && t.fresh);
                t.d->lock();
                t.d->visit_itfc(*t.ctx);
                if (stop) {
                    t.rew.push_back(t.d->heuristic_value); t.d->unlock();
                    for (double x : t.rew) t.tot += x;
                    t.before = t.rew; t.ra = t.before.back(); t.after.push_back(t.ra); t.before.pop_back(); t.phase = 2;
                    if (t.path.empty()) run.erase(run.begin() + k);
                    continue;
                }
                t.a = t.d->select_action_itfc(*t.ctx); t.cn = t.d->get_child_node_itfc(t.a); t.d->unlock(); t.phase = 1;
            } else if (t.phase == 1) {                // action node: visit and sample
                t.cn->lock(); int b = t.cn->get_num_children();
                t.cn->visit_itfc(*t.ctx);
                auto o = t.cn->sample_observation_itfc(*t.ctx);
                if (t.cn->get_num_children() > b) t.fresh = true;
                auto nd = t.cn->get_child_node_itfc(o); t.cn->unlock();
                t.rew.push_back(w.env->get_reward_itfc(t.d->state, t.a, o));
                t.path.push_back({t.d, t.cn}); t.d = nd; t.phase = 0;
            } else if (t.phase == 2) {                // back up an action node
                double x = t.before.back(); t.before.pop_back(); t.after.push_back(x); t.ra += x;
                auto c = t.path.back().second; c->lock(); c->backup_itfc(t.before, t.after, t.ra, t.tot, *t.ctx); c->unlock(); t.phase = 3;
            } else {                                  // back up a decision node
                auto d = t.path.back().first; d->lock(); d->backup_itfc(t.before, t.after, t.ra, t.tot, *t.ctx); d->unlock();
                t.path.pop_back(); t.phase = 2;
                if (t.path.empty()) run.erase(run.begin() + k);
            }
        }
        w.mon.interleaved = false;
    }

    void search_cases(Ctx& c, const SearchOpts& o) {
        int n = c.n(o.quick, o.thorough);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 1000 + k));
            Alg a = o.algs[k % o.algs.size()];
            GenOpts g; g.layered = r.b(0.75); g.obs_rewards = r.b(0.3); g.integer_rewards = r.b(0.2); g.ties = o.ties ? r.b(0.8) : r.b(0.1);
            g.max_states = r.pick({4, 8, 14}); g.max_actions = r.pick({1, 2, 3, 4}); g.differing_actions = r.b(0.7); g.deterministic = o.deterministic_ok && r.b(0.15);
            if (o.vary_scale) g.rscale = r.pick({1.0, 1.0, 1.0, 1e-3, 1e3, 1e6});
            if (a == TENTS) g.rscale = std::min(g.rscale, 1e3);
            CfgOpts co; co.allow_tt = o.tt >= 0; co.vscale = r.b(0.7) ? g.rscale : 1.0;
            AlgCfg cfg = gen_cfg(r, a, co);
            if (o.tt == 1) cfg.tt = true;
            if (!g.layered && (!cfg.mcts || cfg.max_depth > 50)) cfg.max_depth = r.i(1, 6);
            if (!cfg.mcts && cfg.max_depth > 50 && r.b()) cfg.max_depth = r.i(2, 5);
            if (r.b(0.02)) cfg.max_depth = 0;
            Rng r2(mix(c.seed, 77000 + k));
            bool lng = r2.b(0.025), wide = r2.b(0.08);
            if (wide) { g.max_actions = r2.pick({6, 9, 16}); g.max_branch = r2.pick({3, 6, 9}); g.max_states = 20; c.count("cases_wide"); }
            if (cfg.prior && cfg.ppsw == 0 && r2.b(0.35)) { if (is_uct(a)) { g.prior_scale = r2.pick({0.2, 1.0, 5.0}); g.prior_zeros = r2.b(); } else { g.prior_scale = r2.pick({0.01, 30.0, 1e35}); g.prior_zeros = r2.b(); } c.count("cases_unnormalised_prior"); }
            Rng r3(mix(c.seed, 99000 + k));
            bool huge = r3.b(0.004) && !wide, deep = !wide && !lng && !huge && r3.b(0.05);
            if (deep) {   // corridors of many decisions, walked to the end from the first trial on or grown step by step
                g.chain = true; g.max_actions = r3.pick({1, 2, 3}); g.max_branch = r3.pick({1, 2}); g.min_states = 20; g.max_states = r3.pick({30, 60, 120});
                if (g.layered) cfg.max_depth = 1 << 30; else { cfg.mcts = false; cfg.max_depth = r3.i(15, 40); }
                c.count("cases_deep");
            }
            if (r3.b(0.15)) g.roffset = r3.pick({-20.0, -2.0, 2.0, 20.0});
            if (o.tweak) o.tweak(cfg, g, r);
            if (cfg.ppsw != 0) { g.prior_scale = 1; g.prior_zeros = false; }
            Spec sp = gen_spec(r, g);
            if (r.b(0.02)) { sp.init = sp.n - 1; }          // start in a terminal state
            int root_t = r.b(0.3) ? r.i(1, 3) : 0;
            bool inter = r.b(o.p_interleave);
            int threads = inter ? 1 : (o.max_threads > 1 && r.b(o.p_multi)) ? r.i(2, o.max_threads) : 1;
            World w(sp, cfg, o.monitored, root_t);
            w.mon.single = threads == 1; w.mon.check_values = o.values;
            w.env->yield_pct = threads > 1 ? r.pick({0, 10, 40}) : 0;
            if (k < 3) c.sample(cat("case ", k, ": ", w.desc(), " threads=", threads, inter ? " interleaved" : ""));
            long total = 0; int calls = r.i(1, 3);
            if (inter) {
                for (int q = 0; q < calls; q++) { int m = r.i(1, o.max_trials / 2); interleave(w, r, m, r.i(2, 5)); total += m; if (o.at_rest) o.at_rest(w, total, r, threads); }
                c.count("cases_interleaved");
            } else {
                g_phase = "pool";
                ThtsPool pool(w.mgr, w.root, threads);
                for (int q = 0; q < calls; q++) {
                    int m = r.b(0.1) ? r.i(0, 2) : r.i(1, o.max_trials);
                    if (huge && q == 0) { m = r3.i(8000, 15000); c.count("cases_very_long"); }
                    else if (deep) m = std::min(m, 60);
                    else if (lng && q == 0) { m = r2.i(1500, 3000); c.count("cases_long"); }
                    g_phase = "run_trials"; pool.run_trials(m); total += m;
                    if (o.at_rest) o.at_rest(w, total, r, threads);
                }
                g_phase = "destroy pool";
            }
            c.count(cat("cases_", alg_name[a])); c.count(threads > 1 ? "cases_multi_thread" : "cases_one_thread");
            if (cfg.tt) c.count("cases_with_table"); if (cfg.two_player) c.count("cases_two_player");
            if (w.mon.max_running > 1) c.count("cases_with_concurrent_trials");
            c.count("trials", total);
        }
        g_phase = "done";
    }
    Spec negated(const Spec& s) {
        Spec n = s;
        for (auto& x : n.rew) x.second = -x.second;
        for (auto& x : n.obs_rew) x.second = -x.second;
        for (auto& x : n.heur) x = -x;
        return n;
    }
}
