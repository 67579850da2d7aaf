// P01-P04: the worker pool seen from outside. Trials are counted where they enter and leave the environment.
#include "search.h"
#include <chrono>
#include <thread>
#include <unistd.h>

namespace vm {
    static World* small_world(Rng& r, bool monitored, Alg* only = nullptr) {
        GenOpts g; g.max_states = r.pick({4, 8}); g.max_actions = 3; g.layered = true;
        Alg a = only ? *only : (Alg)r.i(0, NALG - 1);
        AlgCfg c = gen_cfg(r, a, CfgOpts());
        if (!c.mcts) c.max_depth = std::min(c.max_depth, 4);
        World* w = new World(gen_spec(r, g), c, monitored);
        w->mon.check_values = false; w->mon.single = false;
        w->env->yield_pct = r.pick({0, 5, 30});
        return w;
    }
    static long root_trials(World& w) { return w.root->num_visits - w.mon.pseudo(); }
    static std::shared_ptr<ThtsLogger> maybe_logger(World& w, Rng& r) {
        if (!r.b(0.4)) return nullptr;
        auto l = ops(w.cfg.alg).make_logger(); l->set_trials_delta(r.i(1, 20)); return l;
    }
    // a short while in which a stray worker would betray itself
    static void linger(Rng& r) { if (r.b(0.3)) usleep(r.i(0, 1500)); else for (int k = r.i(0, 40); k > 0; k--) sched_yield(); }

    // ---- P01 ---------------------------------------------------------------------------------------------------
    static void p01(Ctx& c) {
        c.rule = "random histories of search calls on one pool (blocking and not, any budget, 1-12 workers, noisy schedules); distinct by (history, thread interleaving of trial starts)";
        int n = c.n(500, 6000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); std::unique_ptr<World> w(small_world(r, r.b(0.7)));
            bool mon = w->monitored; int threads = r.pick({1, 1, 2, 3, 4, 8, 12}); if (r.b(0.02)) threads = 40;
            auto log = maybe_logger(*w, r);
            if (k < 3) c.sample(cat("threads=", threads, " ", w->desc()));
            // with the clock standing still no limit, however short, is ever reached
            bool still = r.b(0.3); if (still) VClock::reset(true);
            std::string hist = still ? "(clock stopped) " : ""; uint64_t h = 0; std::mutex hm;
            w->mon.on_begin = [&](MonContext&) { std::lock_guard<std::mutex> g(hm); h = mix(h, (uint64_t)(std::hash<std::thread::id>()(std::this_thread::get_id()))); };
            {
                ThtsPool pool(w->mgr, w->root, threads, log);
                int calls = r.i(1, 6);
                for (int q = 0; q < calls; q++) {
                    long before = root_trials(*w), b0 = w->mon.begun;
                    int kind = r.i(0, 6); long lo, hi;
                    int m = r.b(0.15) ? r.i(-5, 0) : r.b(0.3) ? r.i(1, threads) : r.b(0.01) ? r.i(2000, 6000) : r.i(1, 150);
                    g_phase = "run_trials";
                    if (kind <= 2) { pool.run_trials(m); lo = hi = std::max(m, 0); hist += cat("b", m, " "); }
                    else if (kind == 3) { pool.run_trials(m, std::numeric_limits<double>::max(), false); if (r.b()) linger(r); g_phase = "join"; pool.join(); lo = hi = std::max(m, 0); hist += cat("n", m, "j "); }
                    else if (kind == 4) {   // a second request replaces the rest of the first one's budget
                        int m2 = r.i(0, 60); pool.run_trials(m, std::numeric_limits<double>::max(), false); linger(r); pool.run_trials(m2); lo = m2; hi = m2 + std::max(m, 0); hist += cat("n", m, "b", m2, " ");
                    } else if (kind == 5) {   // a limited search may leave budget unused; none of it may turn up later
                        double lim = r.pick({0.0, -1.0, 1e-9, 1e-7, 1e-5, 2e-4, 0.01, 0.3, 1.0, 1e6, 1e12}); if (!still && lim > 0.1 && lim < 1e5) lim = 1e6; pool.run_trials(m, lim, r.b()); g_phase = "join"; pool.join(); hi = std::max(m, 0); lo = lim > 1 || still ? hi : 0; if (lim <= 0) lo = hi = 0; hist += cat("t", m, "/", lim, " ");
                    } else { pool.join(); lo = hi = 0; hist += "j "; }
                    if (r.b(0.5)) linger(r);
                    long did = root_trials(*w) - before;
                    c.eval();
                    if (did < lo || did > hi) c.violate("P01", did < lo ? "too few trials" : "too many trials", cat("history '", hist, "' with ", threads, " threads: the last step performed ", did, " trials, expected ", lo, hi != lo ? cat(" to ", hi) : "", "; ", w->desc()));
                    if (mon) {
                        long begun = w->mon.begun - b0;
                        if (begun != did) c.violate("P01", "trials and root visits", cat("history '", hist, "': ", begun, " trials were started but the root was visited ", did, " times"));
                        if (w->mon.done != w->mon.begun) c.violate("P01", "unfinished trials", cat("history '", hist, "': ", w->mon.begun - w->mon.done, " trials not finished"));
                        // every trial that walked anywhere at all is backed up through the root exactly once
                        NodeShadow& sh = dbase(*w->root).sh; long want = sh.started - sh.ended;
                        if (sh.backups != want) c.violate("P01", "trials and root backups", cat("history '", hist, "': ", want, " trials went on below the root but it was backed up ", sh.backups, " times"));
                    }
                }
                g_phase = "destroy pool";
            }
            if (still) { VClock::reset(false); c.count("histories_with_stopped_clock"); }
            c.count("search_calls_histories"); c.count("trials", root_trials(*w)); c.count(cat("threads_", threads));
            if (w->mon.max_running > 1) c.count("histories_with_concurrent_trials");
            c.saw(mix(hstr(hist), h));
        }
    }
    static Reg r01("P01", p01);

    // ---- P02 ---------------------------------------------------------------------------------------------------
    static void idle_check(World& w, const char* who, Rng& r, const std::string& what) {
        long run = w.mon.running, b = w.mon.begun;
        C().eval();
        if (run) C().violate("P02", cat(who, " returned too early"), cat(who, " returned while ", run, " trials were running (", what, ")"));
        linger(r);
        if (w.mon.begun != b) C().violate("P02", cat("trial started after ", who), cat(who, " had returned but ", w.mon.begun - b, " more trials started (", what, ")"));
    }
    static void p02(Ctx& c) {
        c.rule = "the clock jumps past the limit at the k-th clock reading, for every k of a range, over thread counts and call forms; plus random noisy schedules; distinct by (k, threads, form, trials run)";
        // (a) limit expiring at every possible reading
        int K = c.n(60, 400);
        for (int form = 0; form < 5; form++) for (int threads : {1, 2, 4}) for (int k = 1; k <= K; k++) {
            long id = form * 1000000 + threads * 100000 + k;
            if (c.skip_case(id)) continue;
            Rng r(mix(c.seed, id)); std::unique_ptr<World> w(small_world(r, true));
            if (r.b(0.7)) w->env->yield_pct = 0;
            int budget = r.b(0.7) ? 600 : r.i(1, 40);
            std::string what = cat("limit expires at clock reading ", k, ", budget ", budget, ", ", threads, " threads, form ", form);
            VClock::reset(true);
            std::shared_ptr<ThtsLogger> log = r.b(0.2) ? ops(w->cfg.alg).make_logger() : nullptr;
            {
                ThtsPool pool(w->mgr, w->root, threads, log);
                if (r.b()) linger(r);
                VClock::jump_ns = 10000000000ll; VClock::jump_at = VClock::reads + k;
                // past the jump a run that does not notice the limit would go on for very long: let time move on
                VClock::per_read_ns = 0;
                std::vector<std::thread> js;
                g_phase = "run_trials with a limit";
                if (form == 0) { pool.run_trials(budget, 1.0); idle_check(*w, "run_trials", r, what); }
                else {
                    pool.run_trials(budget, 1.0, false);
                    if (form >= 3) for (int j = 0; j < 3; j++) js.emplace_back([&pool, &w, &what, j, k] { Rng rr(mix(k, j)); pool.join(); idle_check(*w, "join (one of several)", rr, what); });
                    if (form != 4) { g_phase = "join"; pool.join(); idle_check(*w, "join", r, what); }
                    for (auto& j : js) j.join();
                    if (form == 2) { // a second search after the first one expired
                        long b = w->mon.begun; VClock::jump_at = -1; g_phase = "second run_trials"; pool.run_trials(7, 1.0); c.eval();
                        if (w->mon.begun != b + 7) c.violate("P02", "second search", cat("a search after an expired one ran ", w->mon.begun - b, " of 7 trials"));
                        idle_check(*w, "run_trials", r, what);
                    }
                }
                g_phase = "destroy pool";
            }
            if (w->mon.running) c.violate("P02", "destructor returned too early", what);
            c.count("expiry_points"); c.saw(mix(id, w->mon.begun)); if (w->mon.begun) c.count("expiry_points_with_trials");
            VClock::reset(false);
        }
        // (b) noisy schedules, slow trials, several waiters, destruction with work left
        int n = c.n(300, 4000);
        for (long k = 0; k < n; k++) {
            long id = 10000000 + k;
            if (c.skip_case(id)) continue;
            Rng r(mix(c.seed, id)); std::unique_ptr<World> w(small_world(r, true));
            int threads = r.pick({1, 2, 3, 6, 8}); std::string what = cat("noisy history ", k, ", ", threads, " threads");
            int slow = r.pick({0, 50, 300}); auto seed = r.next();
            w->mon.on_end = [&, seed, slow](MonContext& x) { if (slow && mix(seed, x.trial_no) % 7 == 0) usleep(slow); };
            std::atomic<long> at_destroy{-1};
            {
                ThtsPool pool(w->mgr, w->root, threads, maybe_logger(*w, r));
                int calls = r.i(0, 4);   // with none, the pool is built and destroyed at once
                for (int q = 0; q < calls; q++) {
                    int m = r.i(0, 60); double lim = r.b(0.5) ? std::numeric_limits<double>::max() : r.r(0.0, 0.003);
                    std::vector<std::thread> js;
                    g_phase = "waiting";
                    if (r.b()) { pool.run_trials(m, lim); idle_check(*w, "run_trials", r, what); }
                    else {
                        pool.run_trials(m, lim, false);
                        int extra = r.i(0, 3);
                        for (int j = 0; j < extra; j++) js.emplace_back([&pool, &w, &what, j, k] { Rng rr(mix(k, j)); pool.join(); idle_check(*w, "join (one of several)", rr, what); });
                        if (r.b(0.4)) linger(r);
                        pool.join(); idle_check(*w, "join", r, what);
                        for (auto& j : js) j.join();
                    }
                }
                if (r.b(0.3)) { pool.run_trials(2000000, 60.0, false); linger(r); c.count("destroyed_with_work_left"); }
                g_phase = "destroy pool";
            }
            c.eval();
            if (w->mon.running) c.violate("P02", "destructor returned too early", cat("the pool was destroyed while ", w->mon.running.load(), " trials were running, ", what));
            long b = w->mon.begun; linger(r);
            if (w->mon.begun != b) c.violate("P02", "trial after destruction", what);
            c.count("noisy_histories"); c.saw(mix(id, w->mon.begun));
        }
    }
    static Reg r02("P02", p02);

    // ---- P03 ---------------------------------------------------------------------------------------------------
    static void p03(Ctx& c) {
        c.rule = "virtual clock advanced inside trials; exact count for one worker, at most one late start per worker otherwise; distinct by (limit, step, budget, threads, trials)";
        int n = c.n(900, 9000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); std::unique_ptr<World> w(small_world(r, true)); int threads = r.b(0.5) ? 1 : r.pick({2, 4, 8});
            VClock::reset(true);
            double dt = r.pick({0.25, 0.5, 1.0, 0.125, 16.0, 1024.0, 1.0 / 512, 1e-3, 1e-5, 1e-6, 1e6}); bool exact = (dt > 0.1 && dt < 1e5) || dt == 1.0 / 512; bool at_start = r.b(); bool all_same = threads == 1 || r.b();
            std::atomic<int64_t> t0{0}; std::atomic<long> late{0}; std::atomic<bool> limited{false}; std::atomic<int64_t> lim_ns{0};
            (void)all_same;
            auto check_start = [&] { if (limited && VClock::ns.load() - t0.load() >= lim_ns.load() && ++late == 2000) { c.violate("P03", "trial started after the limit", cat("2000 trials started after the limit of ", lim_ns.load() * 1e-9, " s on ", threads, " threads")); finish_now(); } };
            std::atomic<int> hold{0}; std::atomic<bool> release{false};
            w->mon.on_begin = [&](MonContext&) { check_start(); if (at_start) VClock::advance(dt); if (hold > 0) { hold--; while (!release) usleep(20); } };
            w->mon.on_end = [&](MonContext&) { if (!at_start) VClock::advance(dt); };
            {
                ThtsPool pool(w->mgr, w->root, threads, maybe_logger(*w, r));
                int calls = r.i(1, 5);
                for (int q = 0; q < calls; q++) {
                    int steps = r.i(0, 40); double half = exact ? r.pick({0.0, 0.0, 0.5, 0.25}) : 0.5;      // decimal steps are not exact in binary
                    double lim = (steps - half) * dt; int kind = r.i(0, 9); int budget = r.b(0.6) ? 1000000 : r.i(0, 60);
                    if (kind == 0) lim = 0; if (kind == 1) lim = -dt * r.i(1, 3);
                    long want = lim <= 0 ? 0 : (long)std::ceil(lim / dt);
                    bool unlimited = kind >= 8; if (unlimited) { budget = r.i(0, 60); lim = r.pick({1e300, std::numeric_limits<double>::max(), 1e18}); want = budget; }
                    VClock::advance(r.b(0.5) ? dt * r.i(0, 1000) : 0);          // time between calls does not count
                    long before = w->mon.begun; late = 0; lim_ns = unlimited ? INT64_MAX : (int64_t)(lim * 1e9); t0 = VClock::ns.load(); limited = !unlimited;
                    g_phase = "run_trials with a limit";
                    if (r.b(0.8)) pool.run_trials(budget, lim); else { pool.run_trials(budget, lim, false); pool.join(); }
                    limited = false; long did = w->mon.begun - before; int64_t el = VClock::ns.load() - t0.load();
                    want = std::min<long>(want, budget); c.eval(); c.count("limited_calls");
                    std::string what = cat("limit ", lim, " s, each trial takes ", dt, " s", at_start ? " (counted at its start)" : " (counted at its end)", ", budget ", budget, ", ", threads, " threads: ", did, " trials");
                    if (threads == 1) {
                        if (did != want) c.violate("P03", did > want ? "trial started after the limit" : "stopped before the limit", cat(what, ", expected ", want));
                    } else {
                        if (late > threads) c.violate("P03", "trial started after the limit", cat(what, ", ", late.load(), " of them started after the limit"));
                        if (did < budget && !unlimited && lim > 0 && el < lim_ns) c.violate("P03", "stopped before the limit", cat(what, ", stopped after ", el * 1e-9, " s"));
                        if ((lim <= 0 && did > 0) || (unlimited && did != budget)) c.violate("P03", lim <= 0 ? "trial started after the limit" : "stopped before the limit", what);
                        if (did > budget) c.violate("P03", "budget exceeded", what);
                    }
                    if (w->mon.done != w->mon.begun || root_trials(*w) != w->mon.begun) c.violate("P03", "trial in progress not completed", cat(what, ", ", w->mon.done.load(), " finished, root visits ", root_trials(*w)));
                    c.saw(mix(mix(hstr(cat(lim, " ", dt)), budget), mix(threads, did)));
                    if (k < 3) c.sample(what);
                }
                // a call made while an earlier one is at work brings its own limit
                if (r.b(0.3)) {
                    limited = false; hold = threads; int lim1 = threads == 1 ? r.pick({1, 5, 50, 1000}) : r.pick({50, 1000}); pool.run_trials(1000000, lim1 * dt + 0.5 * dt, false);
                    for (int q = 0; q < 20000 && hold > 0; q++) usleep(50);
                    if (hold <= 0) {
                        int steps = r.i(0, 20); double lim = (steps + 0.5) * dt; int budget = r.b(0.8) ? 1000000 : r.i(0, 30); VClock::advance(r.b() ? dt * r.i(0, 3) : 0);
                        // trials that were already running when the call came are not counted
                        long before = w->mon.begun; late = 0; lim_ns = (int64_t)(lim * 1e9); t0 = VClock::ns.load(); limited = true;
                        pool.run_trials(budget, lim, false); release = true; g_phase = "join after two calls"; pool.join(); limited = false;
                        long did = w->mon.begun - before; c.eval(); c.count("overlapping_limited_calls");
                        std::string what = cat("limit ", lim1 + 0.5, " steps, then ", steps + 0.5, " steps while ", threads, " trials were running, each trial takes ", dt, " s", at_start ? " (counted at its start)" : " (counted at its end)", ", budget ", budget, ", ", threads, " threads: ", did, " trials");
                        long want = std::min<long>(budget, steps + 1 - (at_start ? 0 : 1)); 
                        if (threads == 1 && did != want) c.violate("P03", did > want ? "trial started after the limit" : "stopped before the limit", cat(what, ", expected ", want));
                        if (late > threads) c.violate("P03", "trial started after the limit", cat(what, ", ", late.load(), " of them started after the limit"));
                        if (did > budget) c.violate("P03", "budget exceeded", what);
                    } else { release = true; pool.join(); c.count("overlap_not_reached"); }
                    hold = 0; release = false;
                }
            }
            VClock::reset(false);
        }
    }
    static Reg r03("P03", p03);

    // ---- P04 ---------------------------------------------------------------------------------------------------
    static std::string dump(World& w) { return tree_dump(*w.mon.op, *w.mon.spec, w.root); }
    static void p04(Ctx& c) {
        c.rule = "random histories of searching, re-targeting between three problems and re-targeting attempts while trials are pending or held inside a trial; distinct by history";
        int n = c.n(400, 5000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); std::unique_ptr<World> ws[3]; std::shared_ptr<ThtsLogger> lg[3]; long want[3] = {0, 0, 0}; int entries[3] = {0, 0, 0}; std::string old[3];
            std::atomic<bool> hold{false}; std::atomic<int> held{0};
            for (int i = 0; i < 3; i++) {
                ws[i].reset(small_world(r, true)); World* w = ws[i].get();
                if (r.b(0.6)) { lg[i] = ops(w->cfg.alg).make_logger(); lg[i]->set_trials_delta(r.i(1, 5)); }
                w->mon.on_begin = [&](MonContext&) { if (hold) { held++; while (hold) usleep(50); held--; } };
            }
            int cur = 0, threads = r.pick({1, 2, 4}); std::string hist = cat("threads ", threads, ": ");
            for (int i = 0; i < 3; i++) old[i] = dump(*ws[i]);
            auto verify = [&](const char* after) {
                for (int i = 0; i < 3; i++) {
                    c.eval();
                    if (ws[i]->mon.begun != want[i] || root_trials(*ws[i]) != want[i]) c.violate("P04", "trials on the wrong tree", cat(hist, "after ", after, " tree ", i, " has ", root_trials(*ws[i]), " trials, expected ", want[i], " (searching tree ", cur, ")"));
                    if (i != cur) {
                        if (dump(*ws[i]) != old[i]) c.violate("P04", "inactive tree changed", cat(hist, "after ", after, " tree ", i, " changed while tree ", cur, " was searched"));
                        if (lg[i] && lg[i]->size() != entries[i]) c.violate("P04", "inactive logger used", cat(hist, "after ", after, " logger ", i, " got entries"));
                    }
                }
            };
            {
                ThtsPool pool(ws[0]->mgr, ws[0]->root, threads, lg[0]);
                if (r.b(0.2)) linger(r);
                int steps = r.i(2, 8);
                for (int q = 0; q < steps; q++) {
                    int kind = r.i(0, 5);
                    if (kind == 5) {   // ended by its time limit with budget left over: finished all the same
                        long b0 = ws[cur]->mon.begun; g_phase = "run_trials"; pool.run_trials(100000000, r.pick({0.0, 0.0005, 0.002})); want[cur] += ws[cur]->mon.begun - b0; hist += "timed "; c.count("timed_searches");
                    } else if (kind <= 1) { int m = r.i(0, 40); g_phase = "run_trials"; pool.run_trials(m); want[cur] += m; hist += cat("run", m, " "); }
                    else if (kind <= 3) {
                        old[cur] = dump(*ws[cur]); if (lg[cur]) entries[cur] = lg[cur]->size();
                        int nx = r.i(0, 2); g_phase = "set_new_env"; hist += cat("env", nx, " ");
                        try { pool.set_new_env(ws[nx]->mgr, ws[nx]->root, lg[nx]); cur = nx; }
                        catch (const std::exception& e) { c.violate("P04", "idle pool refused", cat(hist, "re-targeting an idle pool was refused: ", e.what())); }
                    } else {
                        // trials held inside: budget left over (more trials than workers) or none left (only running ones)
                        bool left = r.b(); int m = left ? threads + r.i(1, 20) : r.i(1, threads);
                        hold = true; g_phase = "hold"; pool.run_trials(m, std::numeric_limits<double>::max(), false);
                        while (held < std::min(m, threads)) usleep(20);
                        int nx = (cur + 1 + r.i(0, 1)) % 3; bool refused = false;
                        old[nx] = dump(*ws[nx]); if (lg[nx]) entries[nx] = lg[nx]->size();
                        try { pool.set_new_env(ws[nx]->mgr, ws[nx]->root, lg[nx]); } catch (const std::exception&) { refused = true; }
                        hold = false; g_phase = "join"; pool.join(); hist += cat(left ? "busy" : "last", m, "->", nx, refused ? "refused " : "accepted ");
                        c.count(left ? "refusals_with_budget_left" : "refusals_with_trials_running");
                        if (!refused) { c.violate("P04", left ? "accepted with trials left" : "accepted with trials running", cat(hist, "re-targeting was accepted while a search was in progress")); break; }
                        want[cur] += m;
                    }
                    verify("this step");
                    if (r.b(0.1)) linger(r);
                }
            }
            verify("destruction"); c.count("histories"); c.saw(hstr(hist)); if (k < 3) c.sample(hist);
        }
        // re-targeting into a subtree of the searched tree and back: the same nodes go on being used
        n = c.n(120, 1500);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(100000 + k)) continue;
            Rng r(mix(c.seed, 300000 + k)); Alg al = (Alg)(k % NALG); std::unique_ptr<World> w; 
            for (int t = 0; t < 20; t++) { w.reset(small_world(r, false, &al)); if (!w->root->is_leaf()) break; }
            if (w->root->is_leaf()) continue;
            int threads = r.pick({1, 2, 4}); ThtsPool pool(w->mgr, w->root, threads); pool.run_trials(r.i(3, 60));
            for (int q = 0; q < 4; q++) {
                std::vector<std::shared_ptr<ThtsDNode>> cand{w->root};
                if (al != RENTS && !w->cfg.tt) for (auto& x : w->root->children) for (auto& y : x.second->children) if (!y.second->is_leaf()) cand.push_back(y.second);
                auto t = cand[r.i(0, (int)cand.size() - 1)]; bool sub = t != w->root; int m = r.i(0, 40); c.eval();
                std::map<const void*, long> before; walk(w->root, [&](ThtsDNode& d) { before[&d] = d.num_visits; }, nullptr);
                std::set<const void*> in; walk(t, [&](ThtsDNode& d) { in.insert(&d); }, nullptr);
                pool.set_new_env(w->mgr, t); g_phase = "run_trials"; pool.run_trials(m);
                std::map<const void*, long> after; walk(w->root, [&](ThtsDNode& d) { after[&d] = d.num_visits; }, nullptr);
                if (t->num_visits != before[t.get()] + m) c.violate("P04", "trials on the wrong tree", cat(m, " trials requested, the ", sub ? "subtree's" : "tree's", " root gained ", t->num_visits - before[t.get()], " visits with ", threads, " threads in ", w->desc()));
                for (auto& x : before) { auto it = after.find(x.first); if (it == after.end()) { c.violate("P04", "tree not continued", cat("a node of the tree disappeared during a later search in ", w->desc())); break; }
                    if (it->second < x.second || (!in.count(x.first) && it->second != x.second)) { c.violate("P04", "inactive tree changed", cat("visits outside the searched subtree changed in ", w->desc())); break; } }
                c.count(sub ? "subtree_searches" : "continued_searches"); c.saw(mix(mix(k, q), m));
            }
        }
    }
    // one problem searched in turn under different managers: what a re-targeted pool builds is what a new pool builds
    static void p04_fresh(Ctx& c) {
        int n = c.n(200, 2500);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(200000 + k)) continue;
            Rng r(mix(c.seed, 310000 + k)); GenOpts g; g.max_states = r.pick({5, 9, 14}); g.layered = r.b(0.6); Spec sp = gen_spec(r, g); auto env = std::make_shared<MonEnv>(sp); std::unique_ptr<ThtsPool> pool; std::string h; int stages = r.i(2, 4); Alg prev = (Alg)(k % NALG); AlgCfg pc;
            for (int q = 0; q < stages; q++) {
                // often the same configuration with one switch turned
                AlgCfg cfg = q && r.b(0.6) ? pc : gen_cfg(r, q && r.b(0.5) ? prev : (Alg)r.i(0, NALG - 1), CfgOpts());
                if (q) switch (r.i(0, 4)) { case 0: cfg.mcts = !cfg.mcts; break; case 1: cfg.max_depth = r.i(1, 5); break; case 2: cfg.two_player = !cfg.two_player; break; case 3: cfg.seed = r.i(1, 1000000); break; default: cfg.mcts = !cfg.mcts; cfg.max_depth = r.i(1, 5); }
                if (!g.layered && cfg.max_depth > 50) cfg.max_depth = r.i(1, 6);
                pc = cfg; prev = cfg.alg; int m = r.i(1, 60), t0 = r.i(0, 2); std::string got, want; h += cat(alg_name[cfg.alg], cfg.mcts ? " mcts" : " full", " depth<=", cfg.max_depth, " ", m, " trials; ");
                auto make = [&](std::shared_ptr<ThtsManager>& mg, std::shared_ptr<ThtsDNode>& rt) { mg = ops(cfg.alg).make_manager(cfg, env); rt = ops(cfg.alg).make_root(mg, mk_state(sp, sp.init), 0, t0, false); };
                std::shared_ptr<ThtsManager> mg, mg2; std::shared_ptr<ThtsDNode> rt, rt2; make(mg, rt); make(mg2, rt2); g_phase = "run_trials";
                if (!pool) pool = std::make_unique<ThtsPool>(mg, rt, 1); else pool->set_new_env(mg, rt);
                pool->run_trials(m); { ThtsPool fresh(mg2, rt2, 1); fresh.run_trials(m); }
                c.eval(); c.count("trees_against_a_new_pool"); got = tree_dump(ops(cfg.alg), sp, rt); want = tree_dump(ops(cfg.alg), sp, rt2); c.saw(hstr(got));
                if (got != want) { c.violate("P04", "re-targeted pool differs from a new one", cat("a pool re-targeted to another manager built a different tree than a new pool: ", h, "on ", sp.desc())); break; }
            }
        }
    }
    static void p04all(Ctx& c) { p04(c); p04_fresh(c); }
    static Reg r04("P04", p04all);
}
