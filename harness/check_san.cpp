// P05, P06, P07: workloads judged by the sanitizers, the lock watch and the hang detector.
#include "search.h"
#include "locks.h"
#include "mc_eval.h"
#include <algorithm>
#include <limits>
#include <thread>
#include <unistd.h>

namespace vm {
    static const double FOREVER = std::numeric_limits<double>::max();
    template <class M> static std::string tables(M& m) { std::ostringstream o; if constexpr (requires { m.dmaps[0]; }) { for (auto& t : m.dmaps) o << t; } else if constexpr (requires { m.dmap; }) o << m.dmap; return o.str(); }

    struct StressOpts { int max_threads = 8, trials = 120; double p_tt = 0.5; bool eval = true, two_pools = true; };
    // One random history of everything a user may do with one manager. Only library code runs in the workers.
    static void stress(Ctx& c, Rng& r, Alg a, const StressOpts& o, std::string& hist, const std::function<void(World&)>& at_rest = nullptr) {
        GenOpts g; g.layered = r.b(0.7); g.obs_rewards = r.b(0.3); g.max_states = r.pick({4, 6, 10, 14}); g.max_actions = r.pick({1, 2, 3, 4}); g.max_branch = r.pick({2, 3, 4}); g.deterministic = r.b(0.15); g.ties = r.b(0.2);
        CfgOpts co; AlgCfg cfg = gen_cfg(r, a, co); cfg.tt = r.b(o.p_tt); cfg.tt_mutexes = r.pick({1, 2, 3, 8}); if (!g.layered && (!cfg.mcts || cfg.max_depth > 50)) cfg.max_depth = r.i(1, 5); if (!cfg.mcts && cfg.max_depth > 50) cfg.max_depth = r.i(2, 5);
        if (r.b(0.06)) { g.chain = true; g.layered = true; g.min_states = 20; g.max_states = 60; g.max_actions = 2; cfg.max_depth = 1 << 30; c.count("cases_deep"); }
        World w(gen_spec(r, g), cfg, false, r.i(0, 1)); const Spec& sp = w.env->spec;
        hist = w.desc(); int T = o.max_threads; int rounds = r.i(1, 3); bool concurrent = false;
        for (int q = 0; q < rounds; q++) {
            int threads = r.b(0.85) ? r.i(2, T) : 1; w.env->yield_pct = r.pick({0, 5, 30}); concurrent |= threads > 1;
            std::shared_ptr<ThtsLogger> log = r.b(0.5) ? (r.b(0.2) ? std::make_shared<ThtsLogger>() : ops(a).make_logger()) : nullptr;
            if (log) { if (r.b(0.7)) log->set_trials_delta(r.i(1, 10)); if (r.b(0.5)) log->set_runtime_delta(1e-5); }
            std::shared_ptr<ThtsDNode> root2; std::unique_ptr<ThtsPool> second;
            {
                g_phase = "make pool"; ThtsPool pool(w.mgr, w.root, threads, log);
                if (o.two_pools && r.b(0.2)) { root2 = ops(a).make_root(w.mgr, mk_state(sp, sp.init), 0, w.root->decision_timestep, false); second = std::make_unique<ThtsPool>(w.mgr, root2, r.i(1, 3)); second->run_trials(r.i(1, o.trials), FOREVER, false); hist += " second-pool"; }
                int calls = r.i(1, 3);
                for (int k = 0; k < calls; k++) {
                    int m = r.b(0.1) ? r.i(-1, 2) : r.i(1, o.trials); g_phase = "run_trials"; c.count("trials", std::max(m, 0));
                    switch (r.i(0, 5)) {
                        case 0: case 1: pool.run_trials(m); hist += cat(" b", m); break;
                        case 2: pool.run_trials(m, FOREVER, false); g_phase = "join"; pool.join(); hist += cat(" n", m, "j"); break;
                        case 3: pool.run_trials(m, FOREVER, false); if (r.b()) usleep(r.i(0, 300)); pool.run_trials(r.i(0, 20)); hist += cat(" n", m, "b"); break;
                        case 4: pool.run_trials(1000000, r.r(0, 0.004)); hist += " t"; break;
                        default: {
                            pool.run_trials(m, FOREVER, false); hist += cat(" n", m, "s");
                            if (r.b()) { try { pool.set_new_env(w.mgr, w.root, log); } catch (const std::runtime_error&) { c.count("retarget_refused"); } }
                            std::thread other([&] { pool.join(); }); pool.join(); other.join();
                        }
                    }
                    if (r.b(0.1)) { pool.set_new_env(w.mgr, w.root, log); hist += " same"; }
                }
                if (r.b(0.15)) { pool.run_trials(o.trials, FOREVER, false); hist += " abandoned"; }     // destroyed while working
                g_phase = "destroy pool";
            }
            if (second) { g_phase = "join second"; second->join(); second.reset(); }
            g_phase = "rest"; c.eval();
            auto ctx = w.env->ThtsEnv::sample_context_itfc(w.root->state);
            if (!sp.acts[sp.init].empty()) w.root->recommend_action_itfc(*ctx);
            std::string txt = w.root->get_pretty_print_string(r.i(0, 3)); if (cfg.tt) tables(*w.mgr);
            if (log) { std::ostringstream os; log->write_to_ostream(os); }
            if (o.eval && r.b(0.5)) {
                RandManager rm(r.i(0, 5)); EvalPolicy pol(w.root, w.env, rm); MCEvaluator ev(w.env, pol, r.pick({0, 1, 5, 20}), rm); g_phase = "run_rollouts"; int n = r.i(1, 25), t = r.i(1, T); ev.run_rollouts(n, t);
                ev.get_mean_return(); if (n > 1) ev.get_stddev_return(); c.count("rollouts", n); hist += " eval"; g_phase = "rest";
            }
            if (at_rest) { at_rest(w); if (root2) { auto keep = w.root; w.root = root2; at_rest(w); w.root = keep; } }
            c.saw(mix(tree_hash(*w.mon.op, sp, w.root), hstr(hist)));
            if (r.b(0.4)) { root2.reset(); w.new_root(w.root->decision_timestep); hist += " new-root"; }
        }
        c.count(cat("cases_", alg_name[a])); if (cfg.tt) c.count("cases_with_table"); if (concurrent) c.count("cases_multi_thread");
    }

    // ---- P05 ---------------------------------------------------------------------------------------------------
    static void p05(Ctx& c) {
        c.rule = "random histories of searches, overlapping calls, loggers, two pools per manager, tables and evaluations, 2-8 workers, under ThreadSanitizer; distinct by resulting tree and history";
        int n = c.n(64, 800);
        for (long k = 0; k < n; k++) { if (c.skip_case(k)) continue; Rng r(mix(c.seed, 81000 + k)); std::string h; stress(c, r, (Alg)(k % NALG), StressOpts(), h); if (k < 3) c.sample(h); }
    }
    static Reg r05("P05", p05);

    // ---- P06 ---------------------------------------------------------------------------------------------------
    static std::string lock_name(World& w, const void* m) {
        std::string s; const Spec& sp = w.env->spec;
        walk(w.root, [&](ThtsDNode& d) { if ((const void*)&d.get_lock() == m) s = cat("decision node (state ", state_id(sp, *d.state), ", step ", d.decision_timestep, ")"); },
            [&](ThtsCNode& n) { if ((const void*)&n.get_lock() == m) s = cat("action node (state ", state_id(sp, *n.state), ", action ", action_id(sp, *n.action), ", step ", n.decision_timestep, ")"); });
        return s.empty() ? "another lock" : s;
    }
    static void p06(Ctx& c) {
        c.rule = "random histories of concurrent searches with delays injected while locks are held; all nested acquisitions recorded and searched for compatible cycles; distinct by resulting tree and history";
        int n = c.n(240, 3000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 82000 + k)); Alg a = (Alg)(k % NALG); std::string h; StressOpts o; o.p_tt = 0.75; o.eval = r.b(0.2); o.two_pools = true; o.max_threads = r.pick({3, 8});
            LockWatch::start(r.pick({0, 10, 50}));
            // a graph is only meaningful while no lock is destroyed: it is searched before every tree is released
            stress(c, r, a, o, h, [&](World& w) {
                bool was_cycle = false;
                for (auto& cy : LockWatch::cycles(3)) {
                    bool known = true; std::string d; for (auto m : cy) { std::string nm = lock_name(w, m); if (nm == "another lock") known = false; d += (d.empty() ? "" : " -> ") + nm; }
                    (void)known; was_cycle = true;
                    c.violate("P06", cat("lock order cycle|", alg_name[a]), cat("locks are taken in orders that admit a cycle: ", d, " -> back, in ", h));
                }
                (void)was_cycle;
                c.count("acquisitions", LockWatch::acquisitions()); c.count("nested_acquisitions", LockWatch::nested()); c.count("order_edges", LockWatch::edges());
                LockWatch::stop();
                walk(w.root, [&](ThtsDNode& d) { c.count("locks_tried"); if (!d.get_lock().try_lock()) c.violate("P06", cat("lock not released|", alg_name[a]), cat("a decision node is still locked when no trial is running, in ", h)); else d.get_lock().unlock(); },
                    [&](ThtsCNode& d) { c.count("locks_tried"); if (!d.get_lock().try_lock()) c.violate("P06", cat("lock not released|", alg_name[a]), cat("an action node is still locked when no trial is running, in ", h)); else d.get_lock().unlock(); });
                LockWatch::start(r.pick({0, 10, 50}));
            });
            LockWatch::stop(); if (k < 3) c.sample(h);
        }
    }
    static Reg r06("P06", p06);

    // ---- P07 ---------------------------------------------------------------------------------------------------
    static void p07(Ctx& c) {
        c.rule = "random histories of everything a user may do with managers, pools, trees, loggers, tables, evaluators and printing, under memory and undefined-behaviour checkers; nodes counted after release; distinct by resulting tree and history";
        int n = c.n(120, 1500);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 83000 + k)); std::string h; StressOpts o; o.max_threads = 4; std::vector<std::weak_ptr<ThtsDNode>> ds; std::vector<std::weak_ptr<ThtsCNode>> cs;
            stress(c, r, (Alg)(k % NALG), o, h, [&](World& w) {
                walk(w.root, [&](ThtsDNode& d) { ds.push_back(std::static_pointer_cast<ThtsDNode>(d.shared_from_this())); }, [&](ThtsCNode& d) { cs.push_back(std::static_pointer_cast<ThtsCNode>(d.shared_from_this())); });
            });
            long left = 0; for (auto& x : ds) left += !x.expired(); for (auto& x : cs) left += !x.expired(); c.count("nodes_released", (long)(ds.size() + cs.size()));
            if (left) c.violate("P07", "nodes kept alive", cat(left, " nodes are alive after the last reference to tree, pool and manager is gone, in ", h));
            if (k < 3) c.sample(h);
        }
        // order of destruction: tree, manager, environment and pool released in any order
        int m = c.n(80, 800);
        for (long k = 0; k < m; k++) {
            if (c.skip_case(100000 + k)) continue;
            Rng r(mix(c.seed, 84000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.max_states = 8; AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.max_depth = r.i(1, 5); cfg.tt = r.b(0.6); Spec sp = gen_spec(r, g);
            auto env = std::make_shared<MonEnv>(sp); auto mgr = ops(a).make_manager(cfg, env); auto root = ops(a).make_root(mgr, mk_state(sp, sp.init), 0, 0, false); auto log = r.b() ? ops(a).make_logger() : nullptr; if (log) log->set_trials_delta(2);
            auto pool = std::make_unique<ThtsPool>(mgr, root, r.i(1, 3), log); pool->run_trials(r.i(1, 60));
            std::weak_ptr<ThtsDNode> wr = root; std::weak_ptr<ThtsManager> wm = mgr; std::weak_ptr<MonEnv> we = env; std::shared_ptr<ThtsDNode> sub;
            if (r.b(0.3)) for (auto& x : root->children) for (auto& y : x.second->children) sub = y.second;          // keep a subtree only
            std::vector<int> order{0, 1, 2, 3}; for (int q = 3; q > 0; q--) std::swap(order[q], order[r.i(0, q)]); std::string h = cat(alg_name[a], " release order");
            for (int x : order) { h += cat(" ", x); g_phase = "release"; if (x == 0) env.reset(); else if (x == 1) mgr.reset(); else if (x == 2) root.reset(); else { if (r.b(0.3)) pool->run_trials(r.i(1, 20)); pool.reset(); } }
            c.eval(); c.saw(mix(hstr(h), k)); c.count("release_orders");
            if (sub) {
                if (wm.expired()) { /* nodes own their manager */ c.violate("P07", "manager gone", "the manager of a living subtree is gone"); }
                else { if (!sp.acts[state_id(sp, *sub->state)].empty()) { auto ctx = static_cast<MonEnv&>(*sub->thts_manager->thts_env).ThtsEnv::sample_context_itfc(sub->state); sub->recommend_action_itfc(*ctx); } sub->get_pretty_print_string(2); }
                sub.reset(); c.count("subtrees_kept");
            }
            if (!wr.expired() || !wm.expired() || !we.expired()) c.violate("P07", "objects kept alive", cat("root, manager or environment is still alive after everything is released: ", h));
        }
    }
    // loggers before, without and after a search: written empty, used with no pool, re-used
    static void p07_loggers(Ctx& c) {
        for (int a = 0; a < NALG; a++) for (int kind = 0; kind < 2; kind++) {
            Rng r(mix(c.seed, 85000 + a)); std::shared_ptr<ThtsLogger> l = kind ? std::make_shared<ThtsLogger>() : ops((Alg)a).make_logger(); c.eval(); c.count("loggers_written_empty");
            { std::ostringstream os; l->write_to_ostream(os); } l->size(); l->add_origin_entry(); { std::ostringstream os; l->write_to_ostream(os); }
            l = kind ? std::make_shared<ThtsLogger>() : ops((Alg)a).make_logger(); l->trial_completed(); l->should_log(); l->update_prior_runtime(); l->reset_start_time(); { std::ostringstream os; l->write_to_ostream(os); }
        }
    }
    static void p07all(Ctx& c) { p07_loggers(c); p07(c); }
    static Reg r07("P07", p07all);
    // every other workload, for the memory and undefined-behaviour checkers only
    void call_check(const char* id);
    template <int K> static void p07x(Ctx& c) {
        static const std::vector<const char*> sets[] = {{"P28", "P29", "P30", "P33", "P34", "P25"}, {"P31", "P32", "P35", "P24"}, {"P10:raw", "P12:raw", "P13", "P16", "P23"}, {"P01", "P03", "P04"}, {"P30:threads"}};
        double keep = c.scale; std::string rules; c.scale = keep * 0.2;
        for (auto id : sets[K]) { call_check(id); rules += cat(rules.empty() ? "" : " | ", id, ": ", c.rule); }
        c.scale = keep; c.rule = "the workloads of other properties under memory and undefined-behaviour checkers: " + rules;
    }
    static Reg r07a("P07:helpers", p07x<0>), r07b("P07:tools", p07x<1>), r07c("P07:search", p07x<2>), r07d("P07:pool", p07x<3>);
    static Reg r05b("P05:rng", p07x<4>);
}
