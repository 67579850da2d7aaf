// P08-P23, P26, P36: properties of the trials, the tree and its values.
#include "search.h"
#include <algorithm>
#include <climits>

namespace vm {
    void stat(const char* prop, const char* what, const Pit3& p) {
        C().count(cat(what, "_draws"), p.id.n);
        double w = p.worst();
        C().notes.push_back(cat(what, ": ", p.id.n, " draws, largest bin deviation ", w, " sigma"));
        if (w > 6.0) C().violate(prop, cat("distribution of ", what), cat(what, " deviate by ", w, " standard deviations from the specified distribution over ", p.id.n, " draws"));
    }
    extern const char* acc_class[];
    void stat_classes(const char* prop, const char* what, const Pit3* p) {
        double w = 0; long m = LONG_MAX;
        for (int k = 0; k < Acc::NC; k++) {
            double x = p[k].worst(); w = std::max(w, x); m = std::min(m, p[k].id.n);
            if (x > 6.0) C().violate(prop, cat("distribution of ", what, "|", acc_class[k]), cat(what, " (", acc_class[k], ") deviate by ", x, " standard deviations from the specified distribution over ", p[k].id.n, " draws"));
        }
        C().notes.push_back(cat(what, " split into ", Acc::NC, " classes (smallest ", m, " draws): largest bin deviation ", w, " sigma"));
    }
    static void rest_all(World& w, long trials) {
        check_tree_counts(w.mon, w.root, trials);
        check_tree_structure(w.mon, w.root, true);
        if (w.mon.done != trials) C().violate("P11", "trials", cat(w.mon.done.load(), " trials were completed, ", trials, " requested"));
    }
    static void p08(Ctx& c) { c.rule = "random problem, configuration, thread count and budgets; a case's trial is distinct by its event sequence"; SearchOpts o; o.values = false; o.quick = 240; search_cases(c, o); }
    static Reg r08("P08", p08), r09("P09", p08);
    static void p10(Ctx& c) {
        c.rule = "random problem, configuration, thread count and budgets; a case's trial is distinct by its event sequence"; SearchOpts o; o.values = false; o.quick = 240;
        o.at_rest = [](World& w, long, Rng&, int) { check_tree_structure(w.mon, w.root, true); };
        search_cases(c, o);
    }
    static Reg r10("P10", p10);
    static void p11(Ctx& c) {
        c.rule = "random search, all nodes counted at rest; distinct by (trials, nodes)"; SearchOpts o; o.values = false; o.p_multi = 0.6; o.quick = 240;
        o.at_rest = [](World& w, long t, Rng&, int) { rest_all(w, t); };
        search_cases(c, o);
    }
    static Reg r11("P11", p11);
    // visit conservation on trees built by the library's own, unmonitored nodes
    static void p11u(Ctx& c) {
        c.rule = "random search with the library's own nodes, conservation of visits checked at rest"; SearchOpts o; o.values = false; o.monitored = false; o.p_multi = 0.8; o.quick = 160; o.max_trials = 400;
        o.at_rest = [](World& w, long trials, Rng&, int threads) {
            int ps = w.mon.pseudo();
            auto bad = [&](const char* key, const std::string& d) { C().violate("P11", cat(key, "|", alg_name[w.cfg.alg]), cat(d, " with ", threads, " threads in ", w.desc())); };
            if (w.root->num_visits != trials + ps) bad("root visits", cat("root has ", w.root->num_visits, " visits after ", trials, " trials"));
            std::map<const void*, long> in; std::map<const void*, int> links; std::map<const void*, ThtsDNode*> ds;
            walk(w.root, [&](ThtsDNode& d) {
                C().eval(); ds[&d] = &d;
                long sum = 0; for (auto& x : d.children) sum += x.second->num_visits;
                bool root = &d == w.root.get();
                long own = d.num_visits - ps - sum;
                if (d.is_leaf()) return;
                if (w.cfg.mcts && !w.cfg.tt && own != (root ? 0 : 1)) bad("conservation at a decision node", cat("a decision node has ", d.num_visits, " visits, its action nodes ", sum));
                if (!w.cfg.mcts && own != 0) bad("conservation at a decision node", cat("a decision node has ", d.num_visits, " visits, its action nodes ", sum));
                if (own < 0) bad("conservation at a decision node", cat("a decision node has ", d.num_visits, " visits, its action nodes ", sum));
            }, [&](ThtsCNode& n) {
                C().eval();
                long sum = 0; for (auto& y : n.children) { sum += y.second->num_visits - ps; links[y.second.get()]++; }
                if (!w.cfg.tt && sum != n.num_visits) bad("conservation at an action node", cat("an action node has ", n.num_visits, " visits, its outcomes ", sum));
                if (w.cfg.tt && sum < n.num_visits) bad("conservation at an action node", cat("an action node has ", n.num_visits, " visits, its outcomes only ", sum));
            });
            if (w.cfg.tt) { // per time step: all action node visits arrive in the next step's decision nodes
                std::map<int, long> cv, dv;
                walk(w.root, [&](ThtsDNode& d) { if (&d != w.root.get()) dv[d.decision_timestep] += d.num_visits - ps; }, [&](ThtsCNode& n) { cv[n.decision_timestep + 1] += n.num_visits; });
                if (cv != dv) bad("conservation per time step", "visits of action nodes and of the decision nodes one step later differ");
            }
            C().saw(mix(trials, ds.size()));
        };
        search_cases(c, o);
    }
    static Reg r11u("P11:raw", p11u);
    static void p12(Ctx& c) {
        c.rule = "random search, whole tree compared with the problem at rest; distinct by tree contents"; SearchOpts o; o.values = false; o.quick = 240;
        o.at_rest = [](World& w, long, Rng&, int) { check_tree_structure(w.mon, w.root, true); C().saw(tree_hash(*w.mon.op, *w.mon.spec, w.root)); };
        search_cases(c, o);
    }
    static Reg r12("P12", p12);
    static void p12u(Ctx& c) {
        c.rule = "random search with the library's own nodes, whole tree compared with the problem at rest; distinct by tree contents"; SearchOpts o; o.values = false; o.quick = 160; o.monitored = false;
        o.at_rest = [](World& w, long, Rng&, int) { check_tree_structure(w.mon, w.root, false); C().saw(tree_hash(*w.mon.op, *w.mon.spec, w.root)); };
        search_cases(c, o);
        // trees put together by hand: children created in any order, repeatedly, without any visit
        int n = c.n(160, 1600);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(200000 + k)) continue;
            Rng r(mix(c.seed, 600000 + k)); GenOpts g; g.max_states = 10; g.max_actions = 4; g.layered = true; Alg a = (Alg)(k % NALG);
            AlgCfg cfg = gen_cfg(r, a, CfgOpts()); World w(gen_spec(r, g), cfg, false, r.i(0, 2)); const Spec& sp = *w.mon.spec;
            std::vector<std::shared_ptr<ThtsDNode>> ds{w.root}; std::map<const void*, std::set<int>> made_a; std::map<const void*, std::set<int>> made_o;
            int steps = r.i(5, 60);
            for (int q = 0; q < steps; q++) {
                auto d = ds[r.i(0, (int)ds.size() - 1)]; int s = state_id(sp, *d->state); if (d->is_leaf() || sp.acts[s].empty()) continue;
                int act = sp.acts[s][r.i(0, (int)sp.acts[s].size() - 1)]; bool had = d->has_child_node_itfc(mk_action(sp, act)); c.eval();
                if (had != (made_a[d.get()].count(act) > 0)) c.violate("P12", "lookup", cat("an action node is ", had ? "present" : "missing", " although it was ", had ? "not created" : "created", " in ", w.desc()));
                auto cn = d->create_child_node_itfc(mk_action(sp, act)); made_a[d.get()].insert(act);
                if (d->get_num_children() != (int)made_a[d.get()].size()) c.violate("P12", "child count", cat("a decision node counts ", d->get_num_children(), " action nodes, ", made_a[d.get()].size(), " were created in ", w.desc()));
                auto& tr = sp.tr.at({s, act}); int s2 = tr[r.i(0, (int)tr.size() - 1)].s2; std::shared_ptr<const Observation> ob = mk_state(sp, s2);
                bool hado = cn->has_child_node_itfc(ob); if (hado != (made_o[cn.get()].count(s2) > 0)) c.violate("P12", "lookup", cat("a decision node is ", hado ? "present" : "missing", " although it was ", hado ? "not created" : "created", " in ", w.desc()));
                std::shared_ptr<ThtsDNode> was = hado ? cn->get_child_node_itfc(ob) : nullptr;
                auto e = cn->create_child_node_itfc(ob); made_o[cn.get()].insert(s2);
                if (was && was != e) c.violate("P12", "create again", cat("creating an existing decision node made another one in ", w.desc()));
                if (cn->create_child_node_itfc(mk_state(sp, s2)) != e || cn->get_child_node_itfc(ob) != e) c.violate("P12", "create again", cat("creating an existing decision node made another one in ", w.desc()));
                if (cn->get_num_children() != (int)made_o[cn.get()].size()) c.violate("P12", "child count", cat("an action node counts ", cn->get_num_children(), " decision nodes, ", made_o[cn.get()].size(), " were created in ", w.desc()));
                ds.push_back(e);
            }
            if (r.b()) { ThtsPool pool(w.mgr, w.root, r.i(1, 3)); pool.run_trials(r.i(1, 60)); }
            check_tree_structure(w.mon, w.root, false); C().saw(tree_hash(*w.mon.op, *w.mon.spec, w.root)); c.count("trees_built_by_hand");
        }
    }
    static Reg r12u("P12:raw", p12u), r10u("P10:raw", p12u);

    // P13: shared-node table
    static void p13(Ctx& c) {
        c.rule = "random search with and without the shared-node table, one to eight threads; distinct by tree contents"; SearchOpts o; o.values = false; o.monitored = false; o.quick = 200; o.p_multi = 0.7;
        o.tweak = [](AlgCfg& cfg, GenOpts& g, Rng& r) { cfg.tt = r.b(0.8); int ms = r.pick({6, 10}); if (!g.chain) { g.max_states = ms; g.max_branch = 3; } };
        o.at_rest = [](World& w, long, Rng& r, int) {
            check_tree_structure(w.mon, w.root, false); C().saw(tree_hash(*w.mon.op, *w.mon.spec, w.root));
        };
        search_cases(c, o);
        // manager re-use: release a tree, build another with the same manager; nothing is shared and nothing is kept alive
        int n = c.n(80, 800);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(100000 + k)) continue;
            Rng r(mix(c.seed, 500000 + k)); GenOpts g; g.max_states = 10; g.layered = true; Alg a = (Alg)(k % NALG);
            AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.tt = true;
            World w(gen_spec(r, g), cfg, false);
            std::vector<std::weak_ptr<ThtsDNode>> old; std::set<const void*> old_ptr;
            int rounds = r.i(2, 4);
            for (int q = 0; q < rounds; q++) {
                for (auto& x : old) if (x.lock()) { c.violate("P13", "tree kept alive", cat("decision nodes of a released tree are still alive in ", w.desc())); break; }
                old.clear();
                bool keep = r.b(0.3); std::shared_ptr<ThtsDNode> kept;
                { ThtsPool pool(w.mgr, w.root, r.i(1, 4)); pool.run_trials(r.i(5, 120)); }
                check_tree_structure(w.mon, w.root, false); c.eval();
                walk(w.root, [&](ThtsDNode& d) { old.push_back(std::static_pointer_cast<ThtsDNode>(d.shared_from_this())); }, nullptr);
                c.count("nodes_released", (long)old.size());
                (void)keep; (void)kept;
                w.new_root();
                if (w.root->num_visits != w.mon.pseudo() || w.root->get_num_children() != 0) c.violate("P13", "new root not fresh", "a new root shares state with an old tree");
            }
            c.saw(mix(k, old.size()));
        }
    }
    static Reg r13("P13", p13);

    static void value_check(Ctx& c, std::vector<Alg> algs, std::function<void(AlgCfg&, GenOpts&, Rng&)> tweak = nullptr, int quick = 240, double multi = 0.25, double inter = 0.3) {
        SearchOpts o; o.algs = algs; o.quick = quick; o.p_multi = multi; o.p_interleave = inter; o.tweak = tweak;
        o.at_rest = [](World& w, long, Rng&, int) { if (!w.cfg.tt) check_tree_values(w.mon, w.root); };
        search_cases(c, o);
    }
    static void p14(Ctx& c) { c.rule = "random searches incl. interleaved trials; every node's value recomputed from the observed returns after each backup; distinct by (expected value, state)"; value_check(c, {UCT, PUCT}); }
    static Reg r14("P14", p14);
    static void p15(Ctx& c) {
        c.rule = "random searches incl. interleaved trials; every selection compared with the recomputed upper confidence values; distinct by (problem, state, visit number, action)";
        SearchOpts o; o.algs = {UCT, PUCT}; o.quick = 300; o.max_threads = 1; o.p_interleave = 0.25; o.ties = true; o.max_trials = 150;
        search_cases(c, o);
        stat("P15", "choices among exact ties", acc().tie); stat("P15", "random exploration choices", acc().sel);
        double z = acc().in_var > 0 ? std::fabs(acc().in_obs - acc().in_exp) / std::sqrt(acc().in_var) : 0;
        c.notes.push_back(cat("exploration: ", acc().in_n, " selections, greedy share off by ", z, " sigma"));
        if (z > 6) c.violate("P15", "exploration rate", cat("random exploration happened at the wrong rate: ", acc().in_obs, " greedy choices of ", acc().in_n, ", expected ", acc().in_exp));
    }
    static Reg r15("P15", p15);
    static void p17(Ctx& c) { c.rule = "random searches incl. interleaved trials at several value scales; soft Bellman equations recomputed after each backup; distinct by (expected value, state)"; value_check(c, {MENTS, DBMENTS, MENTS, DBMENTS, RENTS, TENTS}); }
    static Reg r17("P17", p17);
    static void p18(Ctx& c) {
        c.rule = "random single-thread and interleaved searches; the policy of every selection recomputed; distinct by (problem, state, visit number, action)";
        SearchOpts o; o.algs = {MENTS, DBMENTS, DENTS, EST, RENTS, TENTS}; o.quick = 240; o.max_threads = 1; o.p_interleave = 0.25; o.max_trials = 150;
        search_cases(c, o); stat("P18", "selected actions", acc().sel); stat_classes("P18", "selected actions", acc().selc);
    }
    static Reg r18("P18", p18);
    static void p19(Ctx& c) {
        c.rule = "random single-thread and interleaved RENTS searches; policies and values recomputed with the previous decision's policy of the same trial; distinct by (problem, state, visit number, action)";
        SearchOpts o; o.algs = {RENTS}; o.quick = 200; o.max_threads = 1; o.p_interleave = 0.5; o.max_trials = 150;
        o.tweak = [](AlgCfg& cfg, GenOpts& g, Rng& r) { if (r.b(0.6)) { g.differing_actions = false; g.max_actions = 4; } };
        search_cases(c, o); stat("P19", "selected actions", acc().sel); stat_classes("P19", "selected actions", acc().selc);
    }
    static Reg r19("P19", p19);
    static void p20(Ctx& c) {
        c.rule = "random single-thread and interleaved TENTS searches; sparsemax policies and values recomputed; distinct by (problem, state, visit number, action)";
        SearchOpts o; o.algs = {TENTS}; o.quick = 200; o.max_threads = 1; o.p_interleave = 0.3; o.max_trials = 150; o.ties = true;
        o.at_rest = [](World& w, long, Rng&, int) { if (!w.cfg.tt) check_tree_values(w.mon, w.root); };
        search_cases(c, o); stat("P20", "selected actions", acc().sel); stat_classes("P20", "selected actions", acc().selc);
    }
    static Reg r20("P20", p20);
    static void p21(Ctx& c) { c.rule = "random searches incl. interleaved trials; dynamic programming equations recomputed after each backup; distinct by (expected value, state)"; value_check(c, {DBMENTS, DENTS, EST}, [](AlgCfg& g, GenOpts&, Rng& r) { g.use_dp = r.b(0.9); }); }
    static Reg r21("P21", p21);
    static void p22(Ctx& c) { c.rule = "random searches incl. interleaved trials; entropy and value estimates recomputed after each backup; distinct by (expected value, state)"; value_check(c, {DENTS, EST, DENTS}, [](AlgCfg& g, GenOpts&, Rng& r) { g.use_dp = r.b(0.5); }); }
    static Reg r22("P22", p22);
    // the ranking of actions used by DENTS and EST is what their search policy is computed from
    static void p22pol(Ctx& c) {
        c.rule = "random DENTS and EST searches; ranking of actions read back through the search policy; distinct by (problem, state, visit number, action)";
        std::string keep = c.prop; c.prop = "P18";
        SearchOpts o; o.algs = {DENTS, EST}; o.quick = 120; o.max_threads = 1; o.max_trials = 150;
        o.tweak = [](AlgCfg& g, GenOpts&, Rng& r) { g.use_dp = r.b(); g.max_explore = std::min(g.max_explore, 0.5); };
        search_cases(c, o); stat("P18", "selected actions", acc().sel); stat_classes("P18", "selected actions", acc().selc);
        c.prop = keep; for (auto& v : c.viols) v.prop = keep;
    }
    static Reg r22p("P22:policy", p22pol);
    static void p26(Ctx& c) {
        c.rule = "random searches with heuristics and priors; every node created is compared with the user's functions; distinct by (state, heuristic)";
        std::atomic<long> sinks{0};
        SearchOpts o; o.quick = 240; o.p_interleave = 0.2;
        o.tweak = [](AlgCfg& g, GenOpts&, Rng& r) { g.prior = r.b(0.6); g.heur = r.pick({0, 1, 1, 1, 2}); if (!is_uct(g.alg)) { g.shift = r.b(); if (!g.prior) g.ppsw = 0; } };
        o.at_rest = [&](World& w, long, Rng&, int) {
            if (w.mon.heur_sink_calls > 0) C().count("heuristic_calls_at_sinks", w.mon.heur_sink_calls);
            walk(w.root, [&](ThtsDNode& d) { C().saw(mix(hstr(cat(d.heuristic_value)), dbase(d).sid)); if (d.heuristic_value != w.mon.true_heur(dbase(d).sid)) C().violate("P26", "heuristic changed", "a node's heuristic value changed during search"); }, nullptr);
        };
        search_cases(c, o);
    }
    static Reg r26("P26", p26);
    // effect of priors and heuristics on selection and returns, judged by the selection and backup monitors
    static void p26b(Ctx& c) {
        c.rule = "random searches with priors; selections and backup arguments judged with the prior and heuristic of the node's own state";
        SearchOpts o; o.quick = 160; o.max_threads = 1; o.vary_scale = false;
        o.tweak = [](AlgCfg& g, GenOpts&, Rng& r) { g.prior = true; g.heur = 1; g.eps = 0; if (!is_uct(g.alg)) g.shift = r.b(); };
        std::string keep = c.prop;
        for (const char* p : {"P15", "P18", "P09"}) { c.prop = p; search_cases(c, o); }
        c.prop = keep; for (auto& v : c.viols) v.prop = keep;
    }
    static Reg r26b("P26:effect", p26b);
    static void p36(Ctx& c) {
        c.rule = "random searches of all algorithms; each sampled outcome transformed by the problem's own distribution in three orderings; distinct by (problem, state, action, outcome)";
        SearchOpts o; o.values = false; o.quick = 240; o.p_multi = 0.3; o.max_trials = 300; o.deterministic_ok = false;
        o.tweak = [](AlgCfg& g, GenOpts& s, Rng& r) { s.max_branch = r.pick({2, 3, 4, 4}); if (r.b(0.6)) g.mcts = false; };
        search_cases(c, o); stat("P36", "sampled outcomes", acc().smp); stat_classes("P36", "sampled outcomes", acc().smpc);
    }
    static Reg r36("P36", p36);
    // long sequences: one action node asked again and again, and searches of problems without choices
    static void p36l(Ctx& c) {
        c.rule = "action nodes sampled tens of thousands of times directly, and long searches of problems with one action per state by 1-4 workers; frequencies overall, by position in the sequence and after each outcome";
        int n = c.n(24, 240);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); Alg al = (Alg)(k % NALG); GenOpts g; g.max_actions = 1; g.min_states = 6; g.max_states = 12; g.max_branch = r.pick({2, 3, 5}); g.layered = true;
            Spec sp; for (int tries = 0; tries < 50; tries++) { sp = gen_spec(r, g); if (!sp.acts[sp.init].empty() && sp.tr.at({sp.init, sp.acts[sp.init][0]}).size() > 1) break; }
            if (sp.acts[sp.init].empty()) continue;
            int a = sp.acts[sp.init][0]; auto& tr = sp.tr.at({sp.init, a}); if (tr.size() < 2) continue;
            if (r.b(0.4)) { double rest = 1 - tr[0].p, tiny = r.pick({0.01, 0.002}); if (rest > 0) { for (size_t j = 1; j < tr.size(); j++) tr[j].p *= (1 - tiny) / rest; tr[0].p = tiny; } }
            AlgCfg cfg = gen_cfg(r, al, CfgOpts()); cfg.mcts = r.b(); 
            { World w(sp, cfg, false); auto ctx = w.env->ThtsEnv::sample_context_itfc(w.root->state);
              std::vector<double> p; std::map<int,int> idx; for (auto& t : tr) { idx[t.s2] = (int)p.size(); p.push_back(t.p); } Deep d(p);
              w.root->visit_itfc(*ctx); if (!child_of(*w.root, sp, a)) w.root->create_child_node_itfc(mk_action(sp, a)); auto cn = child_of(*w.root, sp, a); long N = 40000; bool ok = cn != nullptr;
              for (long q = 0; q < N && ok; q++) { cn->visit_itfc(*ctx); auto o = cn->sample_observation_itfc(*ctx); int s2 = o ? state_id(sp, *o) : -1; if (!idx.count(s2)) { c.violate("P36", "impossible outcome", "an outcome of probability zero was sampled"); ok = false; } else d.add(idx[s2]); }
              c.eval(N); c.count("long_sequence_draws", N); std::string v = d.verdict(); if (!v.empty()) c.violate("P36", cat("frequency in a long sequence|", alg_name[al]), cat(v, " in ", w.desc())); c.saw(mix(sp.hash(), al)); }
            { World w(sp, cfg, false); int T = r.pick({1, 1, 2, 4}); int N = 6000; { ThtsPool pool(w.mgr, w.root, T); pool.run_trials(N); }
              walk(w.root, nullptr, [&](ThtsCNode& x) {
                  int s = state_id(sp, *x.state), b = action_id(sp, *x.action); if (cfg.tt && x.decision_depth > 0) return;
                  for (auto& t : sp.tr.at({s, b})) {
                      auto ch = child_of(x, sp, t.s2);
                      double got = ch ? ch->num_visits - w.mon.pseudo() : 0, e = x.num_visits * t.p, sd = std::sqrt(e * (1 - t.p)); c.eval();
                      (void)e; (void)sd; if (count_sigma((long)got, x.num_visits, t.p) > 7.0) c.violate("P36", cat("frequency in a search|", alg_name[al]), cat("an outcome of probability ", t.p, " came ", got, " times of ", x.num_visits, " with ", T, " threads in ", w.desc()));
                  } });
              c.count("long_search_trials", N); }
            // an outcome of probability 1e-9 does not come in a few hundred trials, however long it has been missing
            { Spec rare = sp; auto& rt = rare.tr.at({rare.init, a}); double rest = 1 - rt[0].p; if (rest <= 0) continue; for (size_t j = 1; j < rt.size(); j++) rt[j].p *= (1 - 1e-9) / rest; rt[0].p = 1e-9;
              for (int q = 0; q < 3; q++) {
                  AlgCfg rc = cfg; rc.seed = r.i(1, 1 << 30); World w(rare, rc, false); int N = r.pick({70, 300, 1100}); { ThtsPool pool(w.mgr, w.root, r.pick({1, 1, 3})); pool.run_trials(N); }
                  auto cn = child_of(*w.root, rare, a); c.eval(); c.count("trials_without_the_rare_outcome", N);
                  if (cn && child_of(*cn, rare, rt[0].s2)) c.violate("P36", cat("rare outcome|", alg_name[al]), cat("an outcome of probability 1e-9 was reached within ", N, " trials in ", w.desc()));
              } }
        }
    }
    static Reg r36l("P36:long", p36l);

    // P16 / P23: recommendations
    static void best_set(const Vals& v, std::vector<int>& best) {
        double m = -INFINITY; for (auto& x : v) m = std::max(m, x.second);
        for (auto& x : v) if (x.second == m) best.push_back(x.first);
    }
    Rec recommended(World& w, ThtsDNode& d) {
        Rec out;
        const Spec& sp = *w.mon.spec; const AlgCfg& c = w.cfg; int s = state_id(sp, *d.state);
        if (sp.acts[s].empty()) return out;
        double sg = w.mon.opp(d.decision_timestep) ? -1 : 1;
        Vals cand; bool& uniform = out.uniform;
        auto all = [&](Vals& v) { for (int a : sp.acts[s]) v[a] = 0; };
        if (c.rec_mv) {
            for (int a : sp.acts[s]) if (auto ch = child_of(d, sp, a)) cand[a] = ch->num_visits;
        } else if (is_uct(c.alg)) {
            for (int a : sp.acts[s]) if (auto ch = child_of(d, sp, a)) cand[a] = sg * w.mon.op->cstat(*ch).avg;
        } else {
            Vals thr, rest;
            for (int a : sp.acts[s]) {
                auto ch = child_of(d, sp, a);
                if (!has_soft(c.alg) || c.alg == DBMENTS) {
                    if (!ch) continue;
                    CStat st = w.mon.op->cstat(*ch);
                    double v = sg * (c.alg == DBMENTS || c.use_dp ? st.dp : st.emp);
                    if (ch->num_visits >= c.rec_thresh) thr[a] = v; else rest[a] = v;
                } else {
                    double v = ch ? sg * w.mon.op->cstat(*ch).soft : c.prior ? ref_prior_q(c, sp, s, a) : sg * c.defq;
                    if (ch && ch->num_visits >= c.rec_thresh) thr[a] = v; else rest[a] = v;
                }
            }
            cand = thr.empty() ? rest : thr;
        }
        if (cand.empty()) { all(cand); uniform = true; }
        std::vector<int>& best = out.best; best_set(cand, best);
        // values that differ only by rounding may be ranked either way by an equivalent computation
        double m = -INFINITY, mag = 1; for (auto& x : cand) { m = std::max(m, x.second); mag = std::max(mag, std::fabs(x.second)); }
        std::vector<int>& near = out.near; for (auto& x : cand) if (x.second >= m - 1e-12 * mag) near.push_back(x.first);
        return out;
    }
    static void rec_node(const char* prop, World& w, ThtsDNode& d, Rng& r) {
        const Spec& sp = *w.mon.spec; const AlgCfg& c = w.cfg; int s = state_id(sp, *d.state);
        if (sp.acts[s].empty()) return;
        Rec rec = recommended(w, d); auto& best = rec.best; auto& near = rec.near; bool uniform = rec.uniform;
        auto ctx = w.env->ThtsEnv::sample_context_itfc(d.state);
        for (int k = 0; k < 3; k++) {
            C().eval();
            auto act = d.recommend_action_itfc(*ctx);
            int a = act ? action_id(sp, *act) : -1;
            if (!sp.legal(s, a)) { C().violate(prop, cat("illegal recommendation|", alg_name[c.alg]), cat("recommended action ", a, " is not legal in state ", s, " in ", w.desc())); return; }
            if (std::find(near.begin(), near.end(), a) == near.end()) {
                C().violate(prop, cat("recommendation|", alg_name[c.alg]), cat("recommended action ", a, " at depth ", d.decision_depth, " (", d.num_visits, " visits) is not the best by the configured criterion in ", w.desc()));
                return;
            }
            if (best.size() > 1 && near.size() == best.size()) { Vals pr; for (int x : best) pr[x] = 1; 
                double u = acc().aux(); int idx = std::find(best.begin(), best.end(), a) - best.begin();
                (uniform ? acc().sel : acc().tie).id.add((idx + u) / best.size()); }
            C().saw(mix(mix(sp.hash(), s), mix(d.num_visits, a)));
        }
    }
    static void recommend(Ctx& c, const char* prop, std::vector<Alg> algs) {
        c.rule = "random searches; every decision node asked for a recommendation three times; distinct by (problem, state, visits, action)";
        SearchOpts o; o.algs = algs; o.quick = 200; o.values = false; o.monitored = false; o.ties = true; o.max_trials = 120;
        o.at_rest = [&](World& w, long, Rng& r, int) {
            std::string before = tree_dump(*w.mon.op, *w.mon.spec, w.root);
            walk(w.root, [&](ThtsDNode& d) { rec_node(prop, w, d, r); }, nullptr);
            if (tree_dump(*w.mon.op, *w.mon.spec, w.root) != before) C().violate(prop, "recommendation changed the tree", cat("asking for recommendations changed the tree in ", w.desc()));
        };
        search_cases(c, o);
        stat(prop, "recommendations among ties", acc().tie); stat(prop, "recommendations with nothing tried", acc().sel);
    }
    static void p16(Ctx& c) { recommend(c, "P16", {UCT, PUCT}); }
    static void p23(Ctx& c) { recommend(c, "P23", {MENTS, DBMENTS, RENTS, TENTS, DENTS, EST}); }
    static Reg r16("P16", p16), r23("P23", p23);
}
