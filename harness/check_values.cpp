// P24, P25, P27: zero-sum symmetry, temperature schedules, convergence.
#include "search.h"
#include "algorithms/common/decaying_temp.h"
#include <algorithm>
#include <climits>

namespace vm {
    // ---- P24 ---------------------------------------------------------------------------------------------------
    struct Twin {
        World &a, &b; double sign; long nodes = 0; const char* rel; bool failed = false; double vtol;
        void bad(const char* key, const std::string& d) { if (failed) return; failed = true; C().violate("P24", cat(key, "|", rel, "|", alg_name[a.cfg.alg]), cat(d, " (", rel, ") in ", a.desc(), " vs ", b.desc())); }
        bool same(double x, double y, double mag) { return close(x, sign * y, vtol * (1 + mag)); }
        void d(ThtsDNode& x, ThtsDNode& y, std::set<const void*>& seen, int dt) {
            if (failed || !seen.insert(&x).second) return;
            nodes++; C().eval();
            const Spec& sp = *a.mon.spec; int s = state_id(sp, *x.state);
            if (s != state_id(*b.mon.spec, *y.state)) return bad("tree shape", "different states at the same place");
            if (y.decision_timestep - x.decision_timestep != dt) return bad("time step", "time steps differ from the roots' difference");
            bool ox = x.is_opponent(), oy = y.is_opponent();
            if (ox != a.mon.opp(x.decision_timestep) || oy != b.mon.opp(y.decision_timestep)) return bad("role of a decision node", cat("decision node at step ", x.decision_timestep, "/", y.decision_timestep, " reports opponent=", ox, "/", oy));
            if (x.is_two_player_game() != a.cfg.two_player || y.is_two_player_game() != b.cfg.two_player) return bad("game mode", "a node misreports the game mode");
            DStat p = a.mon.op->dstat(x), q = b.mon.op->dstat(y); double m = std::max(std::fabs(p.avg), std::max(std::fabs(p.soft), std::max(std::fabs(p.dp), std::fabs(p.emp))));
            if (p.visits != q.visits || p.nb != q.nb || p.dp_nb != q.dp_nb || p.emp_nb != q.emp_nb || p.ent_nb != q.ent_nb) return bad("visits", cat("visits/backups ", p.visits, "/", p.nb, " and ", q.visits, "/", q.nb, " at state ", s, " depth ", x.decision_depth));
            if (!same(p.avg, q.avg, m) || !same(p.soft, q.soft, m) || !same(p.dp, q.dp, m) || !same(p.emp, q.emp, m) || !same(p.ent, q.ent, std::fabs(p.ent)) || !same(p.heur, q.heur, 0))
                return bad("values of a decision node", cat("state ", s, " depth ", x.decision_depth, ": avg ", p.avg, "/", q.avg, " soft ", p.soft, "/", q.soft, " dp ", p.dp, "/", q.dp, " mean ", p.emp, "/", q.emp, " entropy ", p.ent, "/", q.ent));
            if (x.get_num_children() != y.get_num_children()) return bad("tree shape", cat("state ", s, ": ", x.get_num_children(), " and ", y.get_num_children(), " actions tried"));
            for (int k : sp.acts[s]) {
                auto cx = child_of(x, sp, k), cy = child_of(y, *b.mon.spec, k);
                if (!cx != !cy) return bad("tree shape", cat("action ", k, " of state ", s, " tried in one only"));
                if (!cx) continue;
                nodes++; C().eval();
                if (cx->is_opponent() != ox || cy->is_opponent() != oy || cx->is_two_player_game() != a.cfg.two_player) return bad("role of an action node", "an action node's role differs from its decision's");
                CStat u = a.mon.op->cstat(*cx), v = b.mon.op->cstat(*cy); double w = std::max(std::fabs(u.avg), std::max(std::fabs(u.soft), std::max(std::fabs(u.dp), std::fabs(u.emp))));
                if (u.visits != v.visits || u.nb != v.nb || u.dp_nb != v.dp_nb || u.emp_nb != v.emp_nb || u.ent_nb != v.ent_nb) return bad("visits", cat("action ", k, " of state ", s, ": ", u.visits, " and ", v.visits, " visits"));
                if (!same(u.avg, v.avg, w) || !same(u.soft, v.soft, w) || !same(u.dp, v.dp, w) || !same(u.emp, v.emp, w) || !same(u.ent, v.ent, std::fabs(u.ent)))
                    return bad("values of an action node", cat("state ", s, " action ", k, ": avg ", u.avg, "/", v.avg, " soft ", u.soft, "/", v.soft, " dp ", u.dp, "/", v.dp, " mean ", u.emp, "/", v.emp, " entropy ", u.ent, "/", v.ent));
                for (int o = 0; o < sp.n; o++) {
                    auto dx = child_of(*cx, sp, o), dy = child_of(*cy, *b.mon.spec, o);
                    if (!dx != !dy) return bad("tree shape", cat("outcome ", o, " of action ", k, " of state ", s, " reached in one only"));
                    if (dx) d(*dx, *dy, seen, dt);
                }
            }
            if (sp.acts[s].empty()) return;
            Rec rec = recommended(a, x);
            if (rec.near.size() != 1) return;                 // random choice: not compared
            auto ca = a.env->ThtsEnv::sample_context_itfc(x.state), cb = b.env->ThtsEnv::sample_context_itfc(y.state);
            int ra = action_id(sp, *x.recommend_action_itfc(*ca)), rb = action_id(sp, *y.recommend_action_itfc(*cb));
            if (ra != rb) return bad("recommendation", cat("state ", s, " depth ", x.decision_depth, ": actions ", ra, " and ", rb, " recommended"));
        }
    };
    static void p24(Ctx& c) {
        c.rule = "pairs of searches with equal seeds: mirrored games, shifted even time steps, one-player at odd and even steps; whole trees compared; distinct by tree contents";
        int n = c.n(320, 4000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 7000 + k)); Alg a = (Alg)(k % NALG); int rel = r.i(0, 4);  // 0-2 mirror, 3 shift by two, 4 one player
            GenOpts g; g.layered = r.b(0.8); g.obs_rewards = r.b(0.3); g.max_states = r.pick({4, 8, 14}); g.max_actions = r.pick({2, 3, 4}); g.deterministic = r.b(0.2); g.rscale = r.pick({1.0, 1.0, 1e-2, 1e2});
            CfgOpts co; co.vscale = g.rscale; AlgCfg cfg = gen_cfg(r, a, co); cfg.two_player = rel != 4;
            if (!g.layered && (!cfg.mcts || cfg.max_depth > 50)) cfg.max_depth = r.i(2, 6);
            bool deep = Rng(mix(c.seed, 8000 + k)).b(0.05); if (deep) { g.chain = true; g.layered = true; g.min_states = 20; g.max_states = 40; g.max_actions = 2; cfg.max_depth = 1 << 30; c.count("pairs_deep"); }
            Spec sp = gen_spec(r, g); int t0 = r.i(0, 2), t1 = rel <= 2 ? t0 + r.pick({1, 3}) : rel == 3 ? t0 + 2 : t0 + r.pick({1, 2});
            AlgCfg cfg2 = cfg; if (rel <= 2) cfg2.defq = -cfg.defq;
            World A(sp, cfg, false, t0), B(rel <= 2 ? negated(sp) : sp, cfg2, false, t1);
            int trials = r.i(20, 250), calls = r.i(1, 2);
            Twin t{A, B, rel <= 2 ? -1.0 : 1.0, 0, rel <= 2 ? "mirrored game" : rel == 3 ? "time shifted by two" : "one player at other time steps", false, 1e-8};
            {
                ThtsPool pa(A.mgr, A.root, 1), pb(B.mgr, B.root, 1);
                for (int q = 0; q < calls && !t.failed; q++) {
                    pa.run_trials(trials); pb.run_trials(trials);
                    std::set<const void*> seen; t.d(*A.root, *B.root, seen, t1 - t0);
                }
            }
            c.count(cat("pairs_", alg_name[a])); c.count(cat("pairs ", t.rel)); c.count("nodes_compared", t.nodes);
            c.saw(tree_hash(*A.mon.op, *A.mon.spec, A.root));
            if (k < 3) c.sample(cat(t.rel, ": ", A.desc(), " trials=", trials));
        }
    }
    static Reg r24("P24", p24);

    // ---- P25 ---------------------------------------------------------------------------------------------------
    static void p25(Ctx& c) {
        c.rule = "schedule functions and node temperatures over visit counts from 0 to INT_MAX, scales from 1e-9 to 1e6 and all initial/minimum pairs; distinct by (schedule, parameters)";
        TempDecayFnPtr fs[4] = {nullptr, decayed_temp_inv_sqrt, decayed_temp_inv_log, decayed_temp_sigmoid};
        auto bad = [&](const char* key, const std::string& d) { c.violate("P25", key, d); };
        std::vector<double> ms{0}; for (double x = 1e-12; x < 1e18; x *= 1.7) ms.push_back(x);
        for (int k = 1; k <= 3; k++) {
            double prev = INFINITY;
            for (double m : ms) {
                double v = fs[k](m); c.eval();
                if (!close(v, ref_decay(k, m), 1e-12 * (1 + 0) + 1e-10 * ref_decay(k, m))) bad("schedule function", cat("schedule ", k, " at ", m, " is ", v, ", documented ", ref_decay(k, m)));
                if (!(v >= 0 && v <= 1 + 1e-12) || v > prev * (1 + 1e-12)) bad("schedule shape", cat("schedule ", k, " at ", m, " is ", v, " after ", prev));
                prev = v;
            }
            if (!close(fs[k](0), 1.0, 1e-12)) bad("schedule start", cat("schedule ", k, " starts at ", fs[k](0)));
        }
        int n = c.n(4000, 60000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); int f = r.i(1, 3); double init = std::exp(r.r(-12, 12)), mn = r.b(0.2) ? init * r.r(1, 3) : init * std::exp(r.r(-15, 0)), sc = std::exp(r.r(-20, 14));
            std::vector<int> vs{0, 1, 2, 3, INT_MAX}; for (int q = 0; q < 12; q++) vs.push_back((int)(std::exp(r.r(0, 21.4)))); std::sort(vs.begin(), vs.end());
            double prev = INFINITY;
            for (int v : vs) {
                double t = compute_decayed_temp(fs[f], init, mn, v, sc); c.eval();
                double want = std::max(mn, init * ref_decay(f, sc * (double)v));
                if (!close(t, want, 1e-9 * want)) bad("decayed temperature", cat("schedule ", f, " init ", init, " min ", mn, " scale ", sc, " visits ", v, ": ", t, ", documented ", want));
                if (!(t > 0) || !std::isfinite(t) || t < mn || t > prev * (1 + 1e-12)) bad("decayed temperature range", cat("schedule ", f, " init ", init, " min ", mn, " scale ", sc, " visits ", v, ": ", t, " after ", prev));
                if (v == 0 && !close(t, std::max(init, mn), 1e-9 * t)) bad("initial temperature", cat("schedule ", f, " init ", init, " min ", mn, ": starts at ", t));
                prev = t;
            }
            c.saw(mix(mix(f, hstr(cat(init))), hstr(cat(mn, sc))));
        }
        // temperatures the nodes use
        int w = c.n(240, 3000);
        for (long k = 0; k < w; k++) {
            if (c.skip_case(1000000 + k)) continue;
            Rng r(mix(c.seed, 900000 + k)); Alg a = r.pick({MENTS, DBMENTS, RENTS, TENTS, DENTS, EST, DENTS}); GenOpts g; g.max_states = 8;
            AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.max_depth = 1 << 30; cfg.vscale = std::exp(r.r(-8, 3)); cfg.vvscale = std::exp(r.r(-8, 3)); if (r.b()) cfg.root_vscale = std::exp(r.r(-8, 3)); if (r.b()) cfg.vroot = std::exp(r.r(-8, 3));
            World wd(gen_spec(r, g), cfg, false, r.i(0, 2));
            { ThtsPool pool(wd.mgr, wd.root, 1); pool.run_trials(r.i(5, 60)); }
            auto one = [&](const char* what, double got, double want, long N, int depth) {
                if (std::isnan(want)) return; c.eval(); if (std::isnan(got)) { c.count("temperature_not_readable"); return; }
                if (!close(got, want, 1e-9 * std::fabs(want) + 1e-200)) bad(what, cat(what, " with ", N, " visits at depth ", depth, " is ", got, ", documented ", want, " in ", wd.desc()));
            };
            walk(wd.root, [&](ThtsDNode& d) {
                int keep = d.num_visits; bool root = d.decision_depth == 0;
                for (int N : {keep, 0, 1, r.i(2, 1000), r.i(1000, 2000000000)}) {
                    d.num_visits = N;
                    one("temperature of a node", wd.mon.op->temp(d), ref_temp(cfg, N, root), N, d.decision_depth);
                    if (a == DENTS) one("value temperature of a node", wd.mon.op->value_temp(d), ref_vtemp(cfg, N, root), N, d.decision_depth);
                    c.count("node_temperatures");
                }
                d.num_visits = keep;
            }, nullptr);
            c.count(cat("trees_", alg_name[a])); c.saw(mix(k, tree_hash(*wd.mon.op, *wd.mon.spec, wd.root)));
            if (k < 3) c.sample(wd.desc());
        }
    }
    static Reg r25("P25", p25);
    // temperatures as they take effect in policies and values, judged by the policy and value monitors
    static void p25b(Ctx& c) {
        c.rule = "random searches with decaying temperatures; policies and values recomputed with the documented schedule; distinct by (problem, state, visit number, action)";
        SearchOpts o; o.quick = 120; o.max_threads = 1; o.vary_scale = false; o.max_trials = 200;
        o.tweak = [](AlgCfg& g, GenOpts&, Rng& r) { g.prior = false; g.ppsw = 0; g.decay = r.i(1, 3); g.vdecay = r.i(1, 3); g.epsilon = r.pick({0.0, 0.05}); g.root_eps = -1; g.vtemp = r.pick({0.5, 2.0}); };
        std::string keep = c.prop;
        o.algs = {MENTS, DBMENTS, DENTS, EST}; c.prop = "P18"; search_cases(c, o);
        o.algs = {MENTS, DBMENTS}; c.prop = "P17"; search_cases(c, o);
        o.algs = {RENTS}; o.quick = 40; c.prop = "P19"; search_cases(c, o);
        c.prop = keep; for (auto& v : c.viols) v.prop = keep;
    }
    static Reg r25b("P25:effect", p25b);

    // ---- P27 ---------------------------------------------------------------------------------------------------
    static void p27(Ctx& c) {
        c.rule = "small problems with a clear best action, solved exactly, searched with exploration on; distinct by problem and algorithm";
        int n = c.n(320, 4000); std::map<int, long> fail, vfail, tot; std::map<int, std::string> why, vwhy;
        for (long k = 0; k < n; k++) {
            Rng r(mix(c.seed, 31000 + k)); Alg a = (Alg)(k % NALG); Spec sp; Solved so; AlgCfg cfg = gen_cfg(r, a, CfgOpts());
            cfg.two_player = r.b(); cfg.max_depth = r.i(2, 3); cfg.heur = r.pick({0, 1, 2}); cfg.tt = r.b(0.3); cfg.prior = false; cfg.ppsw = 0; cfg.shift = false; cfg.rec_thresh = r.pick({0, 3}); int t0 = r.i(0, 1);
            cfg.defq = 0; cfg.offset = 0; cfg.max_explore = 1.0; cfg.epsilon = r.pick({0.5, 1.0}); cfg.root_eps = -1; cfg.decay = 0; cfg.pseudo = r.pick({0, 1});
            cfg.temp = a == TENTS ? 0.2 : a == RENTS ? 0.02 : 0.08; cfg.vtemp = r.pick({0.0, 0.2}); cfg.vdecay = 1; cfg.vvscale = 1.0; cfg.vroot = -1; cfg.vmin = 0.0; 
            if (is_uct(a)) { cfg.bias = r.pick({-1.0, 2.0}); cfg.eps = r.pick({0.1, 0.3}); if (a == PUCT) cfg.puct_power = r.pick({0.5, 0.8}); }
            bool ok = false; double gap = 0;
            for (int q = 0; q < 400 && !ok; q++) {
                GenOpts g; g.min_states = 4; g.max_states = 7; g.max_actions = 3; g.max_branch = 2; g.layered = true; g.differing_actions = a == RENTS ? false : r.b(); g.deterministic = r.b(0.5);
                sp = gen_spec(r, g); for (auto& h : sp.heur) h = std::max(-1.0, std::min(1.0, h));
                if (sp.acts[sp.init].size() < 2) continue;
                so = solve(sp, sp.init, 0, cfg.max_depth, cfg.two_player, t0, cfg.heur == 1);
                gap = INFINITY; for (auto& x : so.q) if (std::find(so.best.begin(), so.best.end(), x.first) == so.best.end()) gap = std::min(gap, std::fabs(x.second - so.v));
                ok = std::isfinite(gap) && gap >= 0.5;
            }
            if (!ok || c.skip_case(k)) continue;
            int threads = r.b(0.3) ? r.i(2, 8) : 1; int trials = 4000;
            World w(sp, cfg, false, t0); { ThtsPool pool(w.mgr, w.root, threads); g_phase = "run_trials"; pool.run_trials(trials); g_phase = "rest"; }
            auto ctx = w.env->ThtsEnv::sample_context_itfc(w.root->state);
            int act = action_id(sp, *w.root->recommend_action_itfc(*ctx)); tot[a]++; c.eval(); c.count(cat("searches_", alg_name[a])); if (threads > 1) c.count("searches_multi_thread");
            c.saw(mix(sp.hash(), a));
            if (k < 3) c.sample(cat(w.desc(), " optimal value ", so.v, " gap ", gap, " threads=", threads));
            if (std::find(so.best.begin(), so.best.end(), act) == so.best.end()) { fail[a]++; why[a] = cat("action ", act, " recommended, optimal value ", so.v, ", gap ", gap, ", ", threads, " threads, in ", w.desc()); }
            if (has_dp(a) && (a == DBMENTS || cfg.use_dp)) { double v = w.mon.op->dstat(*w.root).dp; c.count("values_compared"); if (std::fabs(v - so.v) > 0.25) { vfail[a]++; vwhy[a] = cat("root value ", v, ", optimal value ", so.v, ", in ", w.desc()); } }
            if (a == MENTS || a == DBMENTS || a == TENTS) { double v = w.mon.op->dstat(*w.root).soft; c.count("values_compared"); if (std::fabs(v - so.v) > 0.6) { vfail[a]++; vwhy[a] = cat("root soft value ", v, ", optimal value ", so.v, ", in ", w.desc()); } }
        }
        for (auto& x : tot) {
            c.notes.push_back(cat(alg_name[x.first], ": ", fail[x.first], " of ", x.second, " recommendations not optimal, ", vfail[x.first], " values off"));
            if (c.only_case >= 0 ? fail[x.first] > 0 : fail[x.first] > std::max(1.0, 0.04 * x.second)) c.violate("P27", cat("recommended action|", alg_name[x.first]), cat(fail[x.first], " of ", x.second, " searches of small problems do not recommend an optimal action, e.g. ", why[x.first]));
            if (c.only_case >= 0 ? vfail[x.first] > 0 : vfail[x.first] > std::max(1.0, 0.04 * x.second)) c.violate("P27", cat("root value|", alg_name[x.first]), cat(vfail[x.first], " of ", x.second, " searches of small problems are far from the optimal value, e.g. ", vwhy[x.first]));
        }
    }
    static Reg r27("P27", p27);

    // ---- P37 ---------------------------------------------------------------------------------------------------
    static void p37(Ctx& c) {
        c.rule = "searches with a random part of the options given against searches with every option given (declared defaults for the omitted ones), equal seeds, whole trees and recommendations compared; distinct by (algorithm, options given, tree)";
        int n = c.n(500, 6000); long apart = 0, compared = 0; std::map<int, long> seen_omitted;
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 41000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.layered = true; g.max_states = r.pick({6, 10, 14}); g.max_actions = r.pick({2, 3, 4}); int m = r.i(20, 160);
            bool deep = k % 61 == 60; if (deep) { g.chain = true; g.min_states = 150; g.max_states = 700; g.max_actions = 2; g.max_branch = 1; m = 6; c.count("cases_deep"); }
            AlgCfg cfg = gen_cfg(r, a, CfgOpts()); uint64_t set = 0; int mode = r.i(0, 3);            // nothing given; one omitted; one given; any part
            if (mode == 1) set = ~0ull & ~(1ull << r.i(0, NOPTS - 1)); else if (mode == 2) set = 1ull << r.i(0, NOPTS - 1); else if (mode == 3) for (int q = 0; q < NOPTS; q++) if (r.b(r.pick({0.2, 0.8}))) set |= 1ull << q;
            if (r.b(0.15)) { cfg.decay = r.i(1, 3); cfg.vscale = r.pick({1e3, 1e9, 1e15}); cfg.vvscale = cfg.vscale; set |= 1ull << 17 | 1ull << 19 | 1ull << 30; }       // decays all the way down
            if (deep) { cfg.mcts = false; set |= 2; if (r.b(0.8)) set &= ~1ull; }
            if (cfg.ppsw > 0 && (set >> 13 & 1) && !(set >> 6 & 1)) set |= 1ull << 6;                 // the weight of a prior needs a prior
            AlgCfg some = cfg, all = omitted(cfg, set); some.set = set; 
            if (all.ppsw > 0 && !all.prior) continue;
            Spec sp = gen_spec(r, g); int t0 = r.i(0, 2); auto env = std::make_shared<MonEnv>(sp); g_phase = "run_trials";
            auto run = [&](std::shared_ptr<ThtsManager> mg) {
                auto root = ops(a).make_root(mg, mk_state(sp, sp.init), 0, t0, false); { ThtsPool pool(mg, root, 1); pool.run_trials(m); }
                std::string s = tree_dump(ops(a), sp, root);
                if (!sp.acts[sp.init].empty()) { auto ctx = env->ThtsEnv::sample_context_itfc(root->state); for (int q = 0; q < 3; q++) s += cat(" rec ", action_id(sp, *root->recommend_action_itfc(*ctx))); for (auto& x : root->children) for (auto& y : x.second->children) if (!y.second->is_leaf() && !deep) s += cat(" ", action_id(sp, *y.second->recommend_action_itfc(*ctx))); }
                return s + (deep ? "" : root->get_pretty_print_string(1));
            };
            AlgCfg other = gen_cfg(r, a, CfgOpts()); auto two = ops(a).make_managers(some, other, env);
            std::string want = run(ops(a).make_manager(all, env)), got = run(two.first), got2 = run(two.second); c.eval(3); c.count(cat("searches_", alg_name[a])); c.saw(mix(mix(a, set), hstr(want)));
            std::string d = cat("options given ", set, ", ", m, " trials, first step ", t0, ", meaning ", alg_name[a], " ", all.desc(), " | ", sp.desc()); if (k < 3) c.sample(d);
            if (got != want) c.violate("P37", cat("omitted options|", alg_name[a]), cat("a search with some options omitted differs from one with the declared defaults given: ", d));
            else if (got2 != want) c.violate("P37", cat("arguments used twice|", alg_name[a]), cat("the second manager made from the same arguments searches differently: ", d));
            compared++; if (!deep) { std::string o = run(ops(a).make_manager(cfg, env)); if (o != want) apart++; }
        }
        c.count("options_that_mattered", apart); c.notes.push_back(cat("the omitted options would have changed the tree in ", apart, " of ", compared, " searches"));
    }
    static Reg r37("P37", p37);
}
