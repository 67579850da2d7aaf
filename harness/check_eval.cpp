// P31, P32, P35: Monte Carlo evaluation, loggers, inspection.
#include "search.h"
#include "mc_eval.h"
#include "algorithms/uct/uct_decision_node.h"
#include <algorithm>
#include <climits>
#include <cstring>

namespace vm {
    // ---- P31 ---------------------------------------------------------------------------------------------------
    struct Step { int s, a, o; };
    struct Episodes {
        std::mutex mu; std::vector<std::vector<Step>> done;
        struct Local { Episodes* own = nullptr; std::vector<Step> cur; ~Local() { flush(); }
            void flush() { if (own && !cur.empty()) { std::lock_guard<std::mutex> g(own->mu); own->done.push_back(cur); } cur.clear(); } };
        static Local& local() { static thread_local Local l; return l; }
        void start() { auto& l = local(); if (l.own != this) { l.cur.clear(); l.own = this; } l.flush(); }
        void step(int s, int a, int o) { auto& l = local(); if (l.own != this) { l.cur.clear(); l.own = this; } l.cur.push_back({s, a, o}); }
    };
    template <class E> static bool returns_of(E& e, std::vector<double>& out) { if constexpr (requires { e.sampled_returns.size(); }) { out.assign(e.sampled_returns.begin(), e.sampled_returns.end()); return true; } else return false; }

    struct Tracker {       // follows an episode through the tree
        World& w; ThtsDNode* cur; Pit3& outside; Pit3& ties; long in = 0, out = 0;
        bool judge(int s, int a, const std::string& d) {
            const Spec& sp = w.env->spec;
            if (!cur) { out++; auto& L = sp.acts[s]; int idx = std::find(L.begin(), L.end(), a) - L.begin(); if (L.size() > 1) outside.id.add((idx + acc().aux()) / L.size()); return true; }
            in++; Rec r = recommended(w, *cur);
            if (std::find(r.near.begin(), r.near.end(), a) == r.near.end()) {
                C().violate("P31", cat("not the recommended action|", alg_name[w.cfg.alg]), cat("inside the tree at depth ", cur->decision_depth, " action ", a, " was taken, which the node does not recommend, ", d)); return false;
            }
            if (r.best.size() > 1 && r.best.size() == r.near.size()) { int idx = std::find(r.best.begin(), r.best.end(), a) - r.best.begin(); ties.id.add((idx + acc().aux()) / r.best.size()); }
            return true;
        }
        void move(int a, int o) { if (!cur) return; auto c = child_of(*cur, w.env->spec, a); auto d = c ? child_of(*c, w.env->spec, o) : nullptr; cur = d.get(); }
    };

    // Nodes of a user's own algorithm that keep notes in the context of the episode they are asked in.
    struct Notes { long episode; int steps; };
    static thread_local long t_episode = 0;
    struct NoteC;
    struct NoteD : UctDNode {
        static inline std::atomic<long> asked{0};
        NoteD(std::shared_ptr<UctManager> m, std::shared_ptr<const State> s, int d, int t, std::shared_ptr<const UctCNode> p = nullptr) : UctDNode(m, s, d, t, p) {}
        std::shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& ctx) const override {
            asked++; std::shared_ptr<Notes> n; try { n = ctx.get_value_ptr<Notes>("notes of the policy"); } catch (const std::exception&) {}
            if (!n) { n = std::make_shared<Notes>(Notes{t_episode, 0}); ctx.put_value("notes of the policy", n); }
            if (n->episode != t_episode || n->steps != decision_depth)
                C().violate("P31", "context of an episode", cat("the policy is asked at step ", decision_depth, " of an episode with a context that holds the notes of step ", n->steps, n->episode != t_episode ? " of another episode" : ""));
            n->steps++;
            return UctDNode::recommend_action_itfc(ctx);
        }
        std::shared_ptr<ThtsCNode> create_child_node_helper_itfc(std::shared_ptr<const Action> a) const override;
    };
    struct NoteC : UctCNode {
        NoteC(std::shared_ptr<UctManager> m, std::shared_ptr<const State> s, std::shared_ptr<const Action> a, int d, int t, std::shared_ptr<const UctDNode> p) : UctCNode(m, s, a, d, t, p) {}
        std::shared_ptr<ThtsDNode> create_child_node_helper_itfc(std::shared_ptr<const Observation> o, std::shared_ptr<const State> = nullptr) const override {
            return std::make_shared<NoteD>(std::static_pointer_cast<UctManager>(thts_manager), std::static_pointer_cast<const State>(o), decision_depth + 1, decision_timestep + 1, std::static_pointer_cast<const UctCNode>(shared_from_this()));
        }
    };
    std::shared_ptr<ThtsCNode> NoteD::create_child_node_helper_itfc(std::shared_ptr<const Action> a) const {
        return std::make_shared<NoteC>(std::static_pointer_cast<UctManager>(thts_manager), state, a, decision_depth, decision_timestep, std::static_pointer_cast<const UctDNode>(shared_from_this()));
    }
    static void rollout_contexts(Ctx& c) {
        int n = c.n(60, 800);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(200000 + k)) continue;
            Rng r(mix(c.seed, 178000 + k)); GenOpts g; g.layered = true; g.max_states = 12; AlgCfg cfg = gen_cfg(r, UCT, CfgOpts()); cfg.max_depth = 1 << 30; cfg.mcts = false;
            World w(gen_spec(r, g), cfg, false); const Spec& sp = w.env->spec;
            auto root = std::make_shared<NoteD>(std::static_pointer_cast<UctManager>(w.mgr), mk_state(sp, sp.init), 0, 0);
            { ThtsPool pool(w.mgr, root, 1); pool.run_trials(r.i(1, 80)); }
            w.env->on_call = [&](const char* f, int, int) { if (f[0] == 'c') { static std::atomic<long> next{0}; t_episode = ++next; } };
            RandManager rm(r.i(1, 1 << 30)); EvalPolicy pol(root, w.env, rm); MCEvaluator ev(w.env, pol, r.pick({3, 100}), rm);
            ev.run_rollouts(r.i(1, 40), r.pick({1, 2, 4})); c.eval(); w.env->on_call = nullptr;
        }
        c.count("recommendations_with_notes", NoteD::asked.load());
    }

    static void p31(Ctx& c) {
        c.rule = "random searched trees evaluated with random rollout counts, thread counts and length limits; every episode recorded at the environment; distinct by episode";
        int n = c.n(200, 2500); static Pit3 outside, ties;
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 41000 + k)); Alg a = (Alg)(k % NALG);
            GenOpts g; g.layered = r.b(0.6); g.obs_rewards = r.b(0.4); g.max_states = r.pick({4, 8, 14}); g.max_actions = r.pick({1, 2, 3, 4}); g.deterministic = r.b(0.15); g.ties = r.b(0.3); g.rscale = r.pick({1.0, 1.0, 1e-3, 1e5});
            CfgOpts co; co.vscale = g.rscale; AlgCfg cfg = gen_cfg(r, a, co); if (!g.layered && (!cfg.mcts || cfg.max_depth > 50)) cfg.max_depth = r.i(1, 5);
            bool deep = Rng(mix(c.seed, 42000 + k)).b(0.08); if (deep) { g.chain = true; g.layered = true; g.min_states = 30; g.max_states = 150; g.max_actions = std::min(g.max_actions, 3); g.max_branch = 2; c.count("cases_deep"); }
            bool longer = deep && Rng(mix(c.seed, 42500 + k)).b(0.4); if (longer) { g.min_states = 200; g.max_states = 700; }
            Spec sp = gen_spec(r, g); if (r.b(0.03)) sp.init = sp.n - 1;
            World w(sp, cfg, false); { ThtsPool pool(w.mgr, w.root, 1); int t = r.pick({0, 1, 10, 100}); if (t) pool.run_trials(t); }
            std::string before = tree_dump(*w.mon.op, sp, w.root);
            RandManager rm(r.b(0.5) ? 1 + (int)(r.next() % 2000000000) : 0);
            int maxlen = r.pick({0, 1, 2, 3, 5, 12, 60}); if (!g.layered && maxlen > 12) maxlen = 25; if (deep) maxlen = r.pick({20, 60, 300}); if (longer) maxlen = Rng(mix(c.seed, 42600 + k)).pick({130, 260, 400, 1000, 100000});
            Episodes eps; std::atomic<long> illegal{0};
            w.env->on_call = [&](const char* f, int, int) { if (f[0] == 'i' || f[0] == 'c') eps.start(); };
            w.env->on_reward = [&](int s, int act, int o) { eps.step(s, act, o); };
            EvalPolicy pol(w.root, w.env, rm); MCEvaluator ev(w.env, pol, maxlen, rm);
            long want = 0; int calls = r.i(1, 3), maxthr = 1; std::string plan;
            if (r.b(0.3)) {           // a policy already in use by the caller is not disturbed and does not matter
                auto ctx = w.env->ThtsEnv::sample_context_itfc(nullptr); if (!sp.acts[sp.init].empty()) { auto x = pol.get_action(mk_state(sp, sp.init), *ctx); pol.update_step(x, mk_state(sp, sp.tr.at({sp.init, action_id(sp, *x)})[0].s2)); }
            }
            for (int q = 0; q < calls; q++) {
                int m = r.pick({0, 1, 2, 7, 30, 100}); if (Rng(mix(c.seed, 43000 + k * 5 + q)).b(0.02)) m = 1500; int t = r.pick({1, 1, 2, 3, 8, 16}); maxthr = std::max(maxthr, t); want += m; plan += cat(m, " rollouts on ", t, " threads; ");
                w.env->yield_pct = t > 1 ? r.pick({0, 20}) : 0; g_phase = "run_rollouts"; ev.run_rollouts(m, t); g_phase = "rest";
            }
            eps.start(); w.env->on_call = nullptr; w.env->on_reward = nullptr;
            std::string d = cat("limit ", maxlen, ", ", plan, "in ", w.desc()); if (k < 3) c.sample(d);
            auto bad = [&](const char* key, const std::string& t) { c.violate("P31", key, cat(t, ", ", d)); };
            bool none = maxlen == 0 || sp.sink[sp.init]; std::vector<double> mine;
            if (none) { if (!eps.done.empty()) bad("steps taken", "steps were taken although none is allowed"); mine.assign(want, 0.0); }
            for (auto& e : eps.done) {
                c.eval(); double ret = 0; Tracker tr{w, w.root.get(), outside, ties}; bool ok = true; int s = sp.init; uint64_t h = k;
                for (size_t q = 0; q < e.size() && ok; q++) {
                    auto& x = e[q];
                    if (x.s != s) { bad("episode continuity", cat("step ", q, " starts in state ", x.s, " after reaching ", s)); ok = false; break; }
                    if (sp.sink[s]) { bad("step after a terminal state", cat("step ", q, " was taken in terminal state ", s)); ok = false; break; }
                    if (!sp.legal(s, x.a) || sp.prob(s, x.a, x.o) <= 0) { bad("illegal step", cat("action ", x.a, " outcome ", x.o, " in state ", s)); ok = false; break; }
                    ok = tr.judge(s, x.a, d); if (!ok) break;
                    tr.move(x.a, x.o); ret += sp.reward(s, x.a, x.o); s = x.o; h = mix(h, mix(x.a, x.o));
                }
                if (!ok) break;
                if ((int)e.size() > maxlen) bad("episode too long", cat(e.size(), " steps taken"));
                if ((int)e.size() < maxlen && !sp.sink[s]) bad("episode too short", cat("stopped after ", e.size(), " steps in state ", s, " which is not terminal"));
                c.count("steps_in_tree", tr.in); c.count("steps_outside_tree", tr.out); c.saw(h); mine.push_back(ret);
            }
            c.count("episodes", (long)eps.done.size()); if (maxthr > 1) c.count("multi_thread_cases");
            if ((long)mine.size() != want) bad("number of episodes", cat(mine.size(), " episodes were run, ", want, " requested"));
            std::vector<double> got;
            if (returns_of(ev, got)) {
                if ((long)got.size() != want) bad("number of returns", cat(got.size(), " returns recorded, ", want, " requested"));
                std::sort(got.begin(), got.end()); std::sort(mine.begin(), mine.end());
                for (size_t q = 0; q < got.size() && q < mine.size(); q++) if (!close(got[q], mine[q], 1e-9 * (1 + std::fabs(mine[q])))) { bad("recorded returns", cat("the recorded returns are not those of the episodes (", got[q], " vs ", mine[q], ")")); break; }
            }
            if (want >= 1 && mine.size() == (size_t)want) {
                long double m = 0, v = 0; double mag = 0; for (double x : mine) { m += x; mag = std::max(mag, std::fabs(x)); } m /= want; for (double x : mine) v += (x - m) * (x - m);
                double gm = ev.get_mean_return(); c.eval(); if (!close(gm, (double)m, 1e-9 * (1 + mag))) bad("mean", cat("reported mean ", gm, ", mean of the returns ", (double)m));
                if (want >= 2) { double sd = std::sqrt((double)(v / (want - 1))), gs = ev.get_stddev_return(); if (!close(gs, sd, 1e-6 * (1e-3 * mag + sd) + 1e-9)) bad("standard deviation", cat("reported ", gs, ", of the returns ", sd)); }
                if (want >= 1 && !close(ev.get_mean_return(), gm, 1e-9 * (1 + mag))) bad("mean", "asking for the mean changes it");
            }
            if (tree_dump(*w.mon.op, sp, w.root) != before) bad("evaluation changed the tree", "the tree differs after evaluation");
        }
        stat("P31", "random actions outside the tree", outside); stat("P31", "recommended actions among ties", ties);
        // the policy object driven directly: leaving the tree, resetting and copying at any time
        int m = c.n(300, 4000);
        for (long k = 0; k < m; k++) {
            if (c.skip_case(100000 + k)) continue;
            Rng r(mix(c.seed, 77000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.layered = false; g.max_states = 8; g.max_actions = r.pick({2, 3, 4}); AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.max_depth = r.i(1, 5);
            World w(gen_spec(r, g), cfg, false); const Spec& sp = w.env->spec; { ThtsPool pool(w.mgr, w.root, 1); pool.run_trials(r.i(1, 60)); }
            RandManager rm(k + 1); std::unique_ptr<EvalPolicy> pol = std::make_unique<EvalPolicy>(w.root, w.env, rm); auto ctx = w.env->ThtsEnv::sample_context_itfc(nullptr);
            Tracker tr{w, w.root.get(), outside, ties}; int s = sp.init;
            for (int q = 0; q < 40; q++) {
                if (sp.sink[s] || r.b(0.08)) { pol->reset(); tr.cur = w.root.get(); s = sp.init; if (sp.sink[s]) break; c.count("policy_resets"); }
                if (r.b(0.05)) { pol = std::make_unique<EvalPolicy>(*pol); tr.cur = w.root.get(); s = sp.init; c.count("policy_copies"); if (sp.sink[s]) break; }
                int act = action_id(sp, *pol->get_action(mk_state(sp, s), *ctx)); c.eval();
                if (!sp.legal(s, act)) { c.violate("P31", "illegal action", cat("action ", act, " in state ", s, " by the policy in ", w.desc())); break; }
                if (!tr.judge(s, act, cat("policy driven directly in ", w.desc()))) break;
                if (r.b(0.3)) act = sp.acts[s][r.i(0, (int)sp.acts[s].size() - 1)];      // the caller may take another action
                auto& L = sp.tr.at({s, act}); int o = L[r.i(0, (int)L.size() - 1)].s2;
                pol->update_step(mk_action(sp, act), mk_state(sp, o)); tr.move(act, o); s = o;
            }
        }
        stat("P31", "random actions outside the tree", outside);
        rollout_contexts(c);
    }
    static Reg r31("P31", p31);

    // ---- P32 ---------------------------------------------------------------------------------------------------
    struct Csv { std::vector<std::string> head; std::vector<std::vector<double>> rows; bool ok = true; std::string raw; };
    static Csv parse_csv(ThtsLogger& l) {
        std::ostringstream os; l.write_to_ostream(os); Csv c; c.raw = os.str(); std::istringstream is(c.raw); std::string line; bool first = true;
        while (std::getline(is, line)) {
            std::vector<std::string> f; std::string x; std::istringstream ls(line); while (std::getline(ls, x, ',')) f.push_back(x);
            if (!line.empty() && line.back() == ',') f.push_back("");
            if (first) { c.head = f; first = false; continue; }
            std::vector<double> row; for (auto& y : f) { char* e; row.push_back(strtod(y.c_str(), &e)); if (y.empty() || *e) c.ok = false; } c.rows.push_back(row);
        }
        return c;
    }
    static void p32(Ctx& c) {
        c.rule = "random searches with each logger on a controlled clock; entries compared with a simulation of the documented intervals and the root at that trial; distinct by (intervals, trial)";
        int n = c.n(240, 3000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 51000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.max_states = 8; AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.max_depth = r.i(1, 4);
            World w(gen_spec(r, g), cfg, true); w.mon.check_values = false; int kind = r.b(0.2) ? 1 : 0; int threads = r.b(0.35) ? r.i(2, 8) : 1; w.mon.single = threads == 1;
            std::shared_ptr<ThtsLogger> log = kind == 1 ? std::make_shared<ThtsLogger>() : ops(a).make_logger();
            std::vector<std::string> head{"runtime", "num_visits"};
            if (kind == 0) { head.push_back("num_backups"); if (is_uct(a)) head.push_back("avg_return"); else { head.push_back("soft_value"); if (has_dp(a)) head.push_back("dp_value"); } }
            int td = r.b(0.7) ? r.pick({1, 2, 3, 7, 10, 50}) : 0; double rd = (r.b(0.6) && threads == 1) || (!td && threads == 1) ? r.i(3, 900) * 1e-3 + 0.37e-6 : 0; bool slow = r.b(0.25);
            VClock::reset(true);
            if (td) log->set_trials_delta(td); if (rd) log->set_runtime_delta(rd);
            std::vector<double> when; std::vector<DStat> at; double clock = 0; Rng rt(r.next()); std::mutex mu; long total = 0;
            // single threaded: virtual time passes inside trials only, less than the interval per trial
            w.mon.on_begin = [&](MonContext&) { std::lock_guard<std::mutex> gd(mu); long ns = rd ? rt.i(1, (int)(rd * 1e6 * (slow ? 0.9 : 0.2)) - 1) * 1000l : rt.i(0, 100000) * 1000l; VClock::ns += ns; clock += ns * 1e-9; };
            w.mon.on_end = [&](MonContext&) { if (threads > 1) return; when.push_back(clock); at.push_back(ops(a).dstat(*w.root)); };
            std::string d; 
            {
                ThtsPool pool(w.mgr, w.root, threads, log); int calls = r.i(1, 4);
                for (int q = 0; q < calls; q++) {
                    int m = r.pick({0, 1, 3, 20, 60}); d += cat(m, " "); VClock::advance(r.r(0, 3)); g_phase = "run_trials";
                    if (r.b(0.25)) { pool.run_trials(m, 1e9, false); pool.join(); } else pool.run_trials(m);
                    total += m;
                }
            }
            VClock::reset(false); g_phase = "rest";
            d = cat("budgets ", d, "trials delta ", td, " runtime delta ", rd, " threads ", threads, " logger ", kind == 1 ? "plain" : "own", " in ", w.desc()); if (k < 3) c.sample(d);
            auto bad = [&](const char* key, const std::string& t) { c.violate("P32", cat(key, "|", kind == 1 ? "plain" : alg_name[a]), cat(t, ", ", d)); };
            Csv csv = parse_csv(*log); c.eval(); c.count("entries", (long)csv.rows.size()); c.count(threads > 1 ? "cases_multi_thread" : "cases_one_thread");
            if (parse_csv(*log).raw != csv.raw) bad("writing twice", "writing the log a second time gives something else");
            if (csv.head != head) { bad("header", cat("header of ", csv.head.size(), " columns: ", csv.raw.substr(0, 80))); continue; }
            if (!csv.ok) { bad("columns", cat("a line is not numeric: ", csv.raw.substr(0, 200))); continue; }
            bool wide = true; for (auto& x : csv.rows) if (x.size() != head.size()) wide = false;
            if (!wide) { bad("columns", "a line does not have the columns of the header"); continue; }
            if ((int)csv.rows.size() != log->size()) { bad("lines", cat(csv.rows.size(), " lines, ", log->size(), " entries")); continue; }
            if (csv.rows.empty()) { bad("origin", "there is no origin entry"); continue; }
            for (double x : csv.rows[0]) if (x != 0) { bad("origin", "the first entry is not all zero"); break; }
            for (size_t q = 1; q < csv.rows.size(); q++) if (csv.rows[q][0] < csv.rows[q - 1][0] || csv.rows[q][1] < csv.rows[q - 1][1]) { bad("order", "runtime or visits decrease"); break; }
            if (threads > 1) {
                long want = 1 + (td ? total / td : 0);
                if ((long)csv.rows.size() != want) bad("number of entries", cat(csv.rows.size(), " entries, ", want, " expected after ", total, " trials"));
                for (size_t q = 1; q < csv.rows.size(); q++) {
                    double v = csv.rows[q][1] - w.mon.pseudo(); long due = (long)q * td;      // trials completed by then; others may be under way
                    if (v < due || v > std::min<long>(total, due + threads)) { bad("visits in an entry", cat("entry ", q, " has ", v, " visits, due after ", due, " trials")); break; }
                    if (csv.rows[q][0] > clock + 1e-4 * (1 + clock)) { bad("runtime in an entry", cat("entry ", q, " has runtime ", csv.rows[q][0], " of ", clock)); break; }
                    c.saw(mix(mix(td, q), (uint64_t)v));
                }
                continue;
            }
            if ((long)when.size() != total) { bad("trials", cat(when.size(), " trials seen, ", total, " requested")); continue; }
            std::vector<int> due; long last = 0; double next = rd; for (int q = 0; q < total; q++) { bool hit = false; if (td && q + 1 - last >= td) { hit = true; last = q + 1; } if (rd && when[q] >= next) { hit = true; next += rd; } if (hit) due.push_back(q); }
            if (csv.rows.size() != due.size() + 1) { bad("number of entries", cat(csv.rows.size(), " entries, ", due.size() + 1, " expected")); continue; }
            for (size_t q = 0; q < due.size(); q++) {
                auto& row = csv.rows[q + 1]; DStat& s = at[due[q]]; c.eval(); c.saw(mix(mix(td, hstr(cat(rd))), due[q]));
                auto near = [&](double x, double y) { return std::fabs(x - y) <= 1e-5 * std::fabs(y) + 1e-12; };
                if (!near(row[0], when[due[q]])) { bad("runtime in an entry", cat("entry ", q + 1, " after trial ", due[q] + 1, " has runtime ", row[0], ", search time so far ", when[due[q]])); break; }
                if (row[1] != s.visits) { bad("visits in an entry", cat("entry ", q + 1, " due after trial ", due[q] + 1, " has ", row[1], " visits, the root ", s.visits)); break; }
                bool ok = true; if (kind == 0) { ok = row[2] == s.nb && near(row[3], is_uct(a) ? s.avg : s.soft); if (has_dp(a)) ok = ok && near(row[4], s.dp); }
                if (!ok) { bad("statistics in an entry", cat("entry ", q + 1, " after trial ", due[q] + 1, " differs from the root: ", row[2], " ", row[3])); break; }
            }
        }
        VClock::reset(false);
        // one logger across pools and roots: still one origin entry, counters carry on
        int m = c.n(60, 600);
        for (long k = 0; k < m; k++) {
            if (c.skip_case(200000 + k)) continue;
            Rng r(mix(c.seed, 61000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.max_states = 6; AlgCfg cfg = gen_cfg(r, a, CfgOpts()); cfg.max_depth = 3;
            World w(gen_spec(r, g), cfg, false); auto log = ops(a).make_logger(); int td = r.i(1, 5), t1 = r.i(0, 30), t2 = r.i(0, 30); log->set_trials_delta(td);
            { ThtsPool p(w.mgr, w.root, r.i(1, 4), log); p.run_trials(t1); } { ThtsPool p(w.mgr, w.root, r.i(1, 4), log); p.run_trials(t2); }
            c.eval(); if (log->size() != 1 + (t1 + t2) / td) c.violate("P32", cat("entries across pools|", alg_name[a]), cat(log->size(), " entries after ", t1, "+", t2, " trials at an interval of ", td));
            Csv csv = parse_csv(*log); int zeros = 0; for (auto& x : csv.rows) if (x.size() > 1 && x[1] == 0) zeros++; if (zeros > 1) c.violate("P32", "several origins", "the origin entry appears more than once");
        }
    }
    static Reg r32("P32", p32);

    // ---- P35 ---------------------------------------------------------------------------------------------------
    struct PNode { char type; std::string val; long visits; bool cut = false; std::map<std::string, std::unique_ptr<PNode>> ch; int dup = 0; };
    struct PParse {
        const std::string& t; size_t p = 0; bool fail = false; std::string why;
        bool eat(const char* s) { size_t n = strlen(s); if (t.compare(p, n, s) == 0) { p += n; return true; } return false; }
        std::unique_ptr<PNode> err(const char* w) { if (!fail) { fail = true; why = cat(w, " at ", p, ": ", t.substr(p, 40)); } return nullptr; }
        std::unique_ptr<PNode> node(int ind) {
            auto n = std::make_unique<PNode>(); if (eat("D(vl=")) n->type = 'D'; else if (eat("C(vl=")) n->type = 'C'; else return err("node expected");
            size_t e = t.find(",#v=", p); if (e == std::string::npos) return err("visits expected"); n->val = t.substr(p, e - p); p = e + 4;
            char* end; n->visits = strtol(t.c_str() + p, &end, 10); p = end - t.c_str(); if (!eat(")[")) return err("bracket expected");
            if (eat("...")) n->cut = true;
            while (!fail) {
                if (eat("],")) return n;
                if (!eat("\n")) return err("line break expected"); int tabs = 0; while (eat("|\t")) tabs++;
                if (eat("],")) { if (tabs != ind) return err("indentation of the end"); return n; }
                if (tabs != ind + 1) return err("indentation");
                const char* close = n->type == 'D' ? "\"->" : "}->"; if (!eat(n->type == 'D' ? "\"" : "{")) return err("label expected");
                size_t q = t.find(close, p); if (q == std::string::npos) return err("label end expected"); std::string lab = t.substr(p, q - p); p = q + 3;
                auto c = node(ind + 1); if (fail) return nullptr; if (n->ch.count(lab)) n->dup++; n->ch[lab] = std::move(c);
            }
            return nullptr;
        }
    };
    struct PCompare {
        World& w; std::string why; long shown = 0;
        bool bad(const std::string& s) { if (why.empty()) why = s; return false; }
        bool value(const std::string& v, double want) { char* e; double x = strtod(v.c_str(), &e); return e != v.c_str() && (*e == 0 || *e == '(') && (x == want || std::fabs(x - want) <= 1e-5 * std::fabs(want)); }
        double dval(const DStat& s) { Alg a = w.cfg.alg; return is_uct(a) ? s.avg : a == DBMENTS ? s.dp : has_emp(a) ? (w.cfg.use_dp ? s.dp : s.emp) : s.soft; }
        double cval(const CStat& s) { Alg a = w.cfg.alg; return is_uct(a) ? s.avg : a == DBMENTS ? s.dp : has_emp(a) ? (w.cfg.use_dp ? s.dp : s.emp) : s.soft; }
        bool d(PNode& p, ThtsDNode& n, int depth) {
            shown++; C().eval(); DStat s = w.mon.op->dstat(n);
            if (p.type != 'D') return bad("an action node where a decision node is");
            if (p.visits != s.visits) return bad(cat("visits ", p.visits, " shown, ", s.visits, " in the node")); if (!value(p.val, dval(s))) return bad(cat("value ", p.val, " shown, ", dval(s), " in the node"));
            if (depth == 0) { if (!p.ch.empty()) return bad("nodes below the requested depth are shown"); if (p.cut != !n.is_leaf()) return bad(cat("cut-off mark ", p.cut, " on a ", n.is_leaf() ? "leaf" : "node that is not a leaf")); return true; }
            if (p.cut) return bad("cut-off mark above the requested depth");
            if (p.dup || (int)p.ch.size() != n.get_num_children()) return bad(cat(p.ch.size(), " actions shown, ", n.get_num_children(), " in the tree"));
            for (auto& x : n.children) { auto it = p.ch.find(x.first->get_pretty_print_string()); if (it == p.ch.end()) return bad("an action is not shown"); if (!c(*it->second, *x.second, depth)) return false; }
            return true;
        }
        bool c(PNode& p, ThtsCNode& n, int depth) {
            shown++; C().eval(); CStat s = w.mon.op->cstat(n);
            if (p.type != 'C') return bad("a decision node where an action node is");
            if (p.visits != s.visits) return bad(cat("visits ", p.visits, " shown, ", s.visits, " in the node")); if (!value(p.val, cval(s))) return bad(cat("value ", p.val, " shown, ", cval(s), " in the node"));
            if (p.dup || (int)p.ch.size() != n.get_num_children()) return bad(cat(p.ch.size(), " outcomes shown, ", n.get_num_children(), " in the tree"));
            for (auto& x : n.children) { auto it = p.ch.find(x.first->get_pretty_print_string()); if (it == p.ch.end()) return bad("an outcome is not shown"); if (!d(*it->second, *x.second, depth - 1)) return false; }
            return true;
        }
    };
    template <class M> static std::string print_tables(M& m) { std::ostringstream o; if constexpr (requires { m.dmaps[0]; }) { for (auto& t : m.dmaps) o << t; } else if constexpr (requires { m.dmap; }) o << m.dmap; return o.str(); }
    static void p35(Ctx& c) {
        c.rule = "random searched trees (one to four threads) printed to depths 0 to 4 from decision and action nodes, parsed back and compared; all queries; distinct by printed text";
        int n = c.n(260, 3000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, 71000 + k)); Alg a = (Alg)(k % NALG); GenOpts g; g.layered = r.b(0.6); g.max_states = r.pick({4, 8, 12}); g.max_actions = r.pick({1, 2, 3}); g.rscale = r.pick({1.0, 1e-4, 1e4, 1e9}); if (a == TENTS) g.rscale = std::min(g.rscale, 1e4);
            CfgOpts co; co.vscale = g.rscale; AlgCfg cfg = gen_cfg(r, a, co); if (!g.layered || r.b(0.3)) cfg.max_depth = r.i(0, 4);
            bool deep = Rng(mix(c.seed, 72000 + k)).b(0.06); if (deep) { g.chain = true; g.layered = true; g.min_states = 14; g.max_states = 40; g.max_actions = 1; g.max_branch = r.pick({1, 2}); cfg.max_depth = 1 << 30; c.count("cases_deep"); }
            World w(gen_spec(r, g), cfg, false, r.i(0, 2)); const Spec& sp = w.env->spec;
            { ThtsPool pool(w.mgr, w.root, r.i(1, 4)); int t = r.pick({0, 1, 5, 40, 150}); if (deep) t = 12; if (t) pool.run_trials(t); }
            std::string before = tree_dump(*w.mon.op, sp, w.root);
            auto bad = [&](const char* key, const std::string& t) { c.violate("P35", cat(key, "|", alg_name[a]), cat(t, " in ", w.desc())); };
            auto show = [&](const std::string& txt, int depth, ThtsDNode* dn, ThtsCNode* cn) {
                PParse ps{txt}; auto t = ps.node(0); if (!ps.fail && ps.p != txt.size()) { ps.fail = true; ps.why = "text after the end"; }
                if (ps.fail) return bad("printed form", cat("the printed tree cannot be read: ", ps.why));
                PCompare pc{w}; bool ok = dn ? pc.d(*t, *dn, depth) : pc.c(*t, *cn, depth + 1 - 0);
                c.count("nodes_shown", pc.shown); c.saw(hstr(txt)); if (!ok) bad("printed content", cat(pc.why, " (depth ", depth, ")"));
            };
            for (int depth = 0; depth <= 4; depth++) show(w.root->get_pretty_print_string(depth), depth, w.root.get(), nullptr);
            if (deep && !cfg.tt) for (int depth : {9, 10, 17, 60}) show(w.root->get_pretty_print_string(depth), depth, w.root.get(), nullptr);
            for (auto& x : w.root->children) {
                for (int depth = 0; depth <= 2; depth++) { std::string t = x.second->get_pretty_print_string(depth); show(t, depth, nullptr, x.second.get()); }
                for (auto& y : x.second->children) show(y.second->get_pretty_print_string(1), 1, y.second.get(), nullptr);
            }
            walk(w.root, [&](ThtsDNode& d) {
                int s = state_id(sp, *d.state); c.eval(); c.count("nodes_queried");
                bool sink = sp.sink[s], leaf = sink || d.decision_depth >= cfg.max_depth;
                if (d.is_sink() != sink || d.is_leaf() != leaf) bad("leaf query", cat("sink ", d.is_sink(), " leaf ", d.is_leaf(), " for state ", s, " at depth ", d.decision_depth));
                if (d.is_root_node() != (d.decision_depth == 0)) bad("root query", "a node misreports being the root");
                if (d.is_two_player_game() != cfg.two_player || d.is_opponent() != w.mon.opp(d.decision_timestep)) bad("role query", "a node misreports the player to move");
                if (d.get_num_visits() != w.mon.op->dstat(d).visits || d.get_num_children() != (int)d.children.size()) bad("count query", "visit or child count is wrong");
                for (int q = 0; q < 5; q++) {
                    auto act = mk_action(sp, q); bool has = false; for (auto& x : d.children) if (action_id(sp, *x.first) == q) has = true;
                    if (d.has_child_node_itfc(act) != has) bad("child query", cat("existence of action ", q, " misreported"));
                    bool threw = false; try { auto ch = d.get_child_node_itfc(act); if (!has || action_id(sp, *ch->action) != q) bad("child query", "wrong child returned"); } catch (const std::exception&) { threw = true; } if (threw == has) bad("child query", cat("asking for action ", q, " ", threw ? "fails" : "succeeds"));
                }
                if (!sp.acts[s].empty()) { auto ctx = w.env->ThtsEnv::sample_context_itfc(d.state); d.recommend_action_itfc(*ctx); }
            }, [&](ThtsCNode& d) {
                c.eval(); c.count("nodes_queried"); int s = state_id(sp, *d.state), act = action_id(sp, *d.action);
                if (d.is_two_player_game() != cfg.two_player || d.is_opponent() != w.mon.opp(d.decision_timestep)) bad("role query", "an action node misreports the player to move");
                if (d.get_num_children() != (int)d.children.size()) bad("count query", "child count of an action node is wrong");
                for (int o = 0; o < sp.n; o++) {
                    std::shared_ptr<const Observation> ob = mk_state(sp, o); bool has = false; for (auto& x : d.children) if (state_id(sp, *x.first) == o) has = true;
                    if (d.has_child_node_itfc(ob) != has) bad("child query", cat("existence of outcome ", o, " of action ", act, " in state ", s, " misreported"));
                    bool threw = false; try { auto ch = d.get_child_node_itfc(ob); if (!has || state_id(sp, *ch->state) != o) bad("child query", "wrong outcome returned"); } catch (const std::exception&) { threw = true; } if (threw == has) bad("child query", "asking for an outcome gives the wrong result");
                }
            });
            if (tree_dump(*w.mon.op, sp, w.root) != before) bad("inspection changed the tree", "the tree differs after printing and querying it");
            if (cfg.tt) { std::string t = print_tables(*w.mgr); c.eval(); c.count("tables_printed"); w.root.reset(); std::string t2 = print_tables(*w.mgr); w.new_root(); (void)t2; }
            if (k < 2) c.sample(w.desc());
        }
    }
    static Reg r35("P35", p35);
}
