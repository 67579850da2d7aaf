#include "monitor.h"
#include "thts_types.h"
#include <algorithm>
#include <typeindex>

namespace vm {
    const char* alg_name[] = {"uct", "puct", "ments", "dbments", "rents", "tents", "dents", "est"};
    Ops* make_ops_uct(); Ops* make_ops_puct(); Ops* make_ops_ments(); Ops* make_ops_dbments();
    Ops* make_ops_rents(); Ops* make_ops_tents(); Ops* make_ops_dents(); Ops* make_ops_est();
    Ops& ops(Alg a) {
        static Ops* t[NALG] = {make_ops_uct(), make_ops_puct(), make_ops_ments(), make_ops_dbments(), make_ops_rents(), make_ops_tents(), make_ops_dents(), make_ops_est()};
        return *t[a];
    }
    std::atomic<long> MonDBase::live{0}, MonCBase::live{0};
    Acc& acc() { static Acc a; return a; }
    static thread_local MonContext* tl_ctx = nullptr;

    std::string AlgCfg::desc() const {
        std::ostringstream o;
        o << "depth<=" << max_depth << (mcts ? " mcts" : " full") << (two_player ? " game" : "") << (tt ? cat(" table/", tt_mutexes) : "")
          << " seed=" << seed << " heur=" << heur << (prior ? " prior" : "");
        if (is_uct(alg)) o << " bias=" << bias << " pseudo=" << pseudo << " rec_mv=" << rec_mv << " eps=" << eps << " power=" << puct_power;
        else {
            o << " T=" << temp << " ppsw=" << ppsw << " eps=" << epsilon << " reps=" << root_eps << " maxexp=" << max_explore << " decay=" << decay << "/"
              << min_temp << "/" << vscale << "/" << root_vscale << " defq=" << defq << " shift=" << shift << "/" << offset << " thr=" << rec_thresh << " rec_mv=" << rec_mv;
            if (has_emp(alg)) o << " vT=" << vtemp << " vdecay=" << vdecay << "/" << vmin << "/" << vvscale << "/" << vroot << " use_dp=" << use_dp;
        }
        return o.str();
    }

    AlgCfg gen_cfg(Rng& r, Alg a, const CfgOpts& o) {
        AlgCfg c; c.alg = a;
        c.max_depth = r.b(0.5) ? (1 << 30) : r.i(1, 6);
        c.mcts = r.b(0.6); c.two_player = o.allow_two && r.b(0.4);
        c.tt = o.allow_tt && r.b(0.4); c.tt_mutexes = r.pick({1, 1, 2, 4, 7});
        c.seed = 1 + (int)(r.next() % 2000000000);
        c.heur = r.pick({0, 1, 1, 2}); c.prior = o.allow_prior && r.b(0.4);
        double S = o.vscale;
        if (is_uct(a)) {
            c.bias = r.b(0.4) ? -1.0 : r.pick({0.0, 0.5, 1.4, 10.0}) * S;
            c.pseudo = r.pick({0, 0, 1, 5}); c.rec_mv = r.b(); c.eps = o.allow_eps0 && r.b(0.6) ? 0.0 : r.pick({0.1, 0.3, 0.9});
            c.puct_power = r.pick({0.5, 0.5, 0.25, 0.8, 1.0});
            Rng v(mix(c.seed, 91));                                  // values between the usual ones
            if (v.b(0.4)) { if (c.bias > 0) c.bias = S * std::exp(v.r(-4, 3)); if (c.eps > 0) c.eps = v.r(0.01, 1.0); if (c.pseudo) c.pseudo = v.pick({1, 2, 3, 17, 60}); c.puct_power = v.r(0.1, 1.2); }
            return c;
        }
        c.temp = S * r.pick({0.05, 0.3, 1.0, 1.0, 5.0, 100.0});
        c.ppsw = c.prior && r.b() ? r.pick({0.2, 0.9}) : 0.0;
        c.epsilon = r.b(0.25) ? 0.0 : r.pick({0.05, 0.5, 1.0, 3.0});
        c.root_eps = r.b(0.3) ? r.pick({0.2, 2.0}) : -1.0;
        c.max_explore = r.b(0.3) ? r.pick({0.1, 0.5}) : 1.0;
        if (o.allow_decay && r.b(0.5)) c.decay = r.i(1, 3);
        c.min_temp = S * r.pick({1e-3, 0.02, 0.5}); c.vscale = r.pick({0.01, 0.3, 1.0}); c.root_vscale = r.b(0.4) ? r.pick({0.005, 2.0}) : -1.0;
        c.defq = r.b() ? 0.0 : S * r.r(-2, 2); c.shift = r.b(0.3); c.offset = r.b() ? 0.0 : r.r(-1, 1);
        c.rec_thresh = r.pick({0, 0, 3, 20}); c.rec_mv = r.b(0.3);
        c.vdecay = r.i(0, 3); c.vtemp = S * r.pick({0.0, 0.1, 1.0, 3.0}); c.vmin = S * r.pick({0.0, 1e-3, 0.1}); c.vvscale = r.pick({0.02, 0.5, 1.0});
        c.vroot = r.b(0.4) ? r.pick({0.01, 2.0}) : -1.0; c.use_dp = r.b(0.6);
        Rng v(mix(c.seed, 92));                                      // values between the usual ones
        if (v.b(0.4)) {
            c.temp = S * std::exp(v.r(-3, 4.6)); if (c.ppsw > 0) c.ppsw = v.r(0.02, 1.0); if (c.epsilon > 0) c.epsilon = std::exp(v.r(-5, 1.3)); if (c.root_eps > 0) c.root_eps = std::exp(v.r(-5, 1.3));
            if (v.b()) c.max_explore = v.b(0.2) ? 0.0 : v.r(0, 1) * v.r(0, 1); c.min_temp = S * std::exp(v.r(-7, -0.5)); c.vscale = std::exp(v.r(-5, 1)); if (c.root_vscale > 0) c.root_vscale = std::exp(v.r(-5, 1));
            c.offset = v.r(-3, 3); c.rec_thresh = v.pick({0, 1, 2, 5, 11}); if (c.vtemp > 0) c.vtemp = S * std::exp(v.r(-3, 2)); c.vvscale = std::exp(v.r(-5, 1)); if (c.vroot > 0) c.vroot = std::exp(v.r(-5, 1));
        }
        return c;
    }

    AlgCfg omitted(const AlgCfg& c, uint64_t set) {
        AlgCfg d = c; bool u = is_uct(c.alg); d.set = ~0ull; d.full = true; auto off = [&](int k) { return !(set >> k & 1); };
        // the defaults declared in the managers' argument structures
        if (off(0)) d.max_depth = std::numeric_limits<int>::max(); if (off(1)) d.mcts = true; if (off(2)) d.two_player = false; if (off(3)) d.tt = false; if (off(4)) d.tt_mutexes = 1; if (off(5)) d.heur = 0; if (off(6)) d.prior = false;
        if (off(7)) d.bias = -1.0; if (off(8)) d.pseudo = 0; if (off(9)) d.rec_mv = u; if (off(10)) d.eps = 0.0; if (off(11)) d.puct_power = 0.5;
        if (off(12)) d.temp = 1.0; if (off(13)) d.ppsw = 0.0; if (off(14)) d.epsilon = 0.5; if (off(15)) d.root_eps = -1.0; if (off(16)) d.max_explore = 1.0; if (off(17)) d.decay = 0; if (off(18)) d.min_temp = 1.0e-6;
        if (off(19)) d.vscale = 1.0; if (off(20)) d.root_vscale = -1.0; if (off(21)) d.defq = 0.0; if (off(22)) d.shift = false; if (off(23)) d.offset = 0.0; if (off(24)) d.rec_thresh = 0;
        if (off(27)) d.vdecay = 1; if (off(28)) d.vtemp = 1.0; if (off(29)) d.vmin = 1.0e-6; if (off(30)) d.vvscale = 1.0; if (off(31)) d.vroot = -1.0; if (off(32)) d.use_dp = true;
        return d;
    }

    // ---- shadows -----------------------------------------------------------------------------------------------
    MonDBase& dbase(const ThtsDNode& n) { return const_cast<MonDBase&>(dynamic_cast<const MonDBase&>(n)); }
    MonCBase& cbase(const ThtsCNode& n) { return const_cast<MonCBase&>(dynamic_cast<const MonCBase&>(n)); }
    std::shared_ptr<ThtsCNode> child_of(const ThtsDNode& n, const Spec& sp, int a) {
        auto k = mk_action(sp, a); return n.has_child_node_itfc(k) ? n.get_child_node_itfc(k) : nullptr;
    }
    std::shared_ptr<ThtsDNode> child_of(const ThtsCNode& n, const Spec& sp, int s2) {
        std::shared_ptr<const Observation> k = mk_state(sp, s2); return n.has_child_node_itfc(k) ? n.get_child_node_itfc(k) : nullptr;
    }

    // ---- reference formulas ------------------------------------------------------------------------------------
    double ref_decay(int kind, double x) {
        switch (kind) {
            case 1: return 1.0 / std::sqrt(1.0 + x);
            case 2: return 1.0 / std::log(std::exp(1.0) + x);
            case 3: return (1.0 + std::exp(-5.0)) / (1.0 + std::exp(x - 5.0));
            default: return 1.0;
        }
    }
    static double sched(int kind, double init, double mn, double scale, double root_scale, long N, bool root) {
        if (!kind) return init;
        if (root && root_scale > 0) scale = root_scale;
        return std::max(mn, init * ref_decay(kind, scale * N));
    }
    double ref_temp(const AlgCfg& c, int N, bool root) { return sched(c.decay, c.temp, c.min_temp, c.vscale, c.root_vscale, N, root); }
    double ref_vtemp(const AlgCfg& c, int N, bool root) { return sched(c.vdecay, c.vtemp, c.vmin, c.vvscale, c.vroot, N, root); }
    double ref_log_weight(double w) { return w <= 1e-32 ? -32.0 : w >= 1e32 ? 32.0 : std::log(w); }
    double ref_prior_q(const AlgCfg& c, const Spec& sp, int s, int a) {
        double q = ref_log_weight(sp.prior[s].at(a));
        if (c.shift) { double m = 0; for (auto& x : sp.prior[s]) m += ref_log_weight(x.second); q += c.offset - m / sp.prior[s].size(); }
        return q;
    }
    static double val_of(Mon& m, const ThtsCNode& c) { CStat s = m.op->cstat(c); return m.cfg.use_dp ? s.dp : s.emp; }

    Vals ref_q(Mon& m, ThtsDNode& n, long N) {
        const Spec& sp = *m.spec; const AlgCfg& c = m.cfg; Vals q;
        int s = dbase(n).sid; double opp = m.opp(n.decision_timestep) ? -1.0 : 1.0;
        for (int a : sp.acts[s]) {
            auto ch = child_of(n, sp, a);
            if (ch) {
                CStat st = m.op->cstat(*ch);
                if (c.alg == DENTS) q[a] = opp * (val_of(m, *ch) + ref_vtemp(c, N, n.decision_depth == 0) * st.ent);
                else if (c.alg == EST) q[a] = opp * val_of(m, *ch);
                else q[a] = opp * st.soft;
            }
            else if (c.prior) q[a] = ref_prior_q(c, sp, s, a);
            else q[a] = opp * c.defq;
        }
        return q;
    }
    Vals ref_sparsemax(const Vals& z) {
        std::vector<double> v; for (auto& x : z) v.push_back(x.second);
        std::sort(v.rbegin(), v.rend());
        double sum = 0, tau = 0;
        for (size_t k = 0; k < v.size(); k++) { sum += v[k]; if (1.0 + (k + 1) * v[k] > sum) tau = (sum - 1.0) / (k + 1); }
        Vals p; for (auto& x : z) p[x.first] = std::max(0.0, x.second - tau);
        return p;
    }
    double ref_spmax(const Vals& z) {
        // conjugate of sparsemax: max_p <p,z> - (|p|^2 - 1)/2
        Vals p = ref_sparsemax(z); double r = 0.5;
        for (auto& x : z) { double q = p[x.first]; r += q * x.second - 0.5 * q * q; }
        return r;
    }
    double ref_lse(const Vals& q, double T) {
        double mx = -INFINITY; for (auto& x : q) mx = std::max(mx, x.second / T);
        double s = 0; for (auto& x : q) s += std::exp(x.second / T - mx);
        return T * (mx + std::log(s));
    }
    Vals ref_own_policy(Mon& m, ThtsDNode& n, const Vals& q, long N, const Vals* parent, bool& degenerate) {
        double T = ref_temp(m.cfg, N, n.decision_depth == 0); degenerate = false;
        if (m.cfg.alg == TENTS) { Vals z; for (auto& x : q) z[x.first] = x.second / T; return ref_sparsemax(z); }
        double mx = -INFINITY; for (auto& x : q) mx = std::max(mx, x.second / T);
        Vals w; double s = 0;
        for (auto& x : q) {
            double v = std::exp(x.second / T - mx);
            if (m.cfg.alg == RENTS && n.decision_depth > 0 && parent) { auto it = parent->find(x.first); v *= it == parent->end() ? 0.0 : it->second; }
            w[x.first] = v; s += v;
        }
        if (s > 0 && s < 1e-13) degenerate = true;      // underflow guard of the code may or may not apply
        if (s <= 0) { for (auto& x : w) x.second = 1.0 / w.size(); return w; }
        for (auto& x : w) x.second /= s;
        return w;
    }
    Vals ref_mixed_policy(Mon& m, ThtsDNode& n, const Vals& own, long N) {
        const AlgCfg& c = m.cfg; const Spec& sp = *m.spec; int s = dbase(n).sid;
        double e = n.decision_depth == 0 && c.root_eps > 0 ? c.root_eps : c.epsilon;
        double lam = e <= 0 ? 0.0 : N <= 0 ? c.max_explore : std::min(c.max_explore, e / std::log(N + 1.0));
        double lt = c.ppsw > 0 ? c.ppsw / std::log(N + 3.0) : 0.0;
        Vals p;
        for (auto& x : own) {
            double v = (1 - lam) * ((1 - lt) * x.second + (lt > 0 ? lt * sp.prior[s].at(x.first) : 0.0)) + lam / own.size();
            if (v >= 1e-16) p[x.first] = v;
        }
        return p;
    }

    static double vmaxabs(const Vals& v) { double m = 0; for (auto& x : v) m = std::max(m, std::fabs(x.second)); return m; }

    void ref_eqs_d(Mon& m, ThtsDNode& n, long N, const Vals* parent, std::vector<Eq>& out) {
        const AlgCfg& c = m.cfg; const Spec& sp = *m.spec; MonDBase& b = dbase(n); DStat st = m.op->dstat(n);
        bool opp = m.opp(n.decision_timestep); double sg = opp ? -1.0 : 1.0; bool root = n.decision_depth == 0;
        double h = m.true_heur(b.sid);
        if (is_uct(c.alg)) {
            double den = m.pseudo() + b.sh.backups;
            double want = den > 0 ? (m.pseudo() * h + (double)b.sh.ret_sum) / den : h;
            out.push_back({"P14", "decision node mean return", st.avg, want, 1e-9 * (1 + b.sh.ret_abs + std::fabs(h))});
            return;
        }
        Vals q = ref_q(m, n, N); double T = ref_temp(c, N, root); double qm = vmaxabs(q);
        if (c.alg == MENTS || c.alg == DBMENTS) out.push_back({"P17", "soft value of a decision node", st.soft, sg * ref_lse(q, T), 1e-9 * (1 + qm + T)});
        if (c.alg == RENTS && (root || parent)) {
            bool deg; Vals own = ref_own_policy(m, n, q, N, parent, deg); (void)own;
            double mx = -INFINITY, s = 0; for (auto& x : q) mx = std::max(mx, x.second / T);
            for (auto& x : q) { double w = std::exp(x.second / T - mx); if (!root) { auto it = parent->find(x.first); w *= it == parent->end() ? 0 : it->second; } s += w; }
            if (s > 1e-13) out.push_back({"P19", "soft value of a RENTS decision node", st.soft, sg * T * (mx + std::log(s)), 1e-8 * (1 + qm + T)});
        }
        if (c.alg == TENTS) {
            Vals z; for (auto& x : b.tents_q) z[x.first] = x.second / T;
            double zm = vmaxabs(z);
            out.push_back({"P20", "TENTS decision node value", st.soft, sg * T * ref_spmax(z), T * (1e-9 * (1 + zm) + 1e-13 * zm * zm)});
        }
        if (c.alg == DBMENTS || (has_emp(c.alg) && c.use_dp)) {
            bool any = false; double best = 0;
            for (int a : sp.acts[b.sid]) {
                auto ch = child_of(n, sp, a);
                if (!ch || cbase(*ch).sh.backups == 0) continue;
                double v = m.op->cstat(*ch).dp;
                if (!any || (opp ? v < best : v > best)) best = v;
                any = true;
            }
            if (any) out.push_back({"P21", "dynamic programming value of a decision node", st.dp, best, 1e-12 * (1 + std::fabs(best))});
        }
        if (has_emp(c.alg) && !c.use_dp)
            out.push_back({"P22", "mean return estimate of a decision node", st.emp, (h + (double)b.sh.ret_sum) / (1.0 + b.sh.backups), 1e-9 * (1 + b.sh.ret_abs + std::fabs(h))});
        if (c.alg == DENTS) {
            bool deg; Vals p = ref_mixed_policy(m, n, ref_own_policy(m, n, q, N, nullptr, deg), N);
            double H = 0, sub = 0, mag = 1;
            for (auto& x : p) H -= x.second * std::log(x.second);
            for (auto& x : p) { auto ch = child_of(n, sp, x.first); if (ch) { double e = m.op->cstat(*ch).ent; sub += x.second * e; mag += std::fabs(e); } }
            out.push_back({"P22", "subtree entropy of a decision node", st.ent, sg * H + sub, (1e-9 + 1e-14 * qm / T) * mag});
            double v = c.use_dp ? st.dp : st.emp, vt = ref_vtemp(c, N, root);
            out.push_back({"P22", "value plus entropy of a decision node", st.soft, v + vt * st.ent, 1e-9 * (1 + std::fabs(v) + vt * std::fabs(st.ent))});
        }
    }
    void ref_eqs_c(Mon& m, ThtsCNode& n, std::vector<Eq>& out) {
        const AlgCfg& c = m.cfg; const Spec& sp = *m.spec; MonCBase& b = cbase(n); CStat st = m.op->cstat(n);
        double mean = b.sh.backups ? (double)b.sh.ret_sum / b.sh.backups : 0.0;
        if (is_uct(c.alg)) { if (b.sh.backups) out.push_back({"P14", "action node mean return", st.avg, mean, 1e-9 * (1 + b.sh.ret_abs)}); return; }
        double rew = sp.rew.at({b.sid, b.aid});
        double w = 0, soft = 0, dw = 0, dp = 0, ew = 0, ent = 0, mag = std::fabs(rew), emag = 1;
        for (auto& o : sp.tr.at({b.sid, b.aid})) {
            auto ch = child_of(n, sp, o.s2);
            if (!ch) continue;
            DStat d = m.op->dstat(*ch); NodeShadow& s = dbase(*ch).sh;
            double k = s.backups + s.leaf_visits;
            if (k > 0) { w += k; soft += k * d.soft; mag = std::max(mag, std::fabs(d.soft)); }
            dw += k + 1; dp += (k + 1) * d.dp; mag = std::max(mag, std::fabs(d.dp));
            ew += k + 1; ent += (k + 1) * d.ent; emag = std::max(emag, std::fabs(d.ent));
        }
        if (has_soft(c.alg)) {
            double want = rew + (w > 0 ? soft / w : 0.0);
            out.push_back({"P17", "soft value of an action node", st.soft, want, 1e-9 * (1 + mag)});
            if (c.alg == RENTS) out.push_back({"P19", "soft value of an action node", st.soft, want, 1e-9 * (1 + mag)});
            if (c.alg == TENTS) out.push_back({"P20", "soft value of an action node", st.soft, want, 1e-9 * (1 + mag)});
        }
        if (c.alg == DBMENTS || (has_emp(c.alg) && c.use_dp)) out.push_back({"P21", "dynamic programming value of an action node", st.dp, rew + dp / dw, 1e-9 * (1 + mag)});
        if (has_emp(c.alg) && !c.use_dp) out.push_back({"P22", "mean return estimate of an action node", st.emp, mean, 1e-9 * (1 + b.sh.ret_abs)});
        if (c.alg == DENTS) {
            out.push_back({"P22", "subtree entropy of an action node", st.ent, ent / ew, 1e-9 * emag});
            double v = c.use_dp ? st.dp : st.emp, vt = ref_vtemp(c, b.sh.at_last_backup, false);
            out.push_back({"P22", "value plus entropy of an action node", st.soft, v + vt * st.ent, 1e-9 * (1 + std::fabs(v) + vt * std::fabs(st.ent))});
        }
    }
    static void judge(Mon& m, const std::vector<Eq>& eqs, const char* when, int sid, int aid, int depth) {
        for (auto& e : eqs) {
            if (!C().want(e.prop)) continue;
            C().eval();
            if (close(e.got, e.want, e.tol)) continue;
            C().violate(e.prop, cat(e.what, "|", alg_name[m.cfg.alg]), cat(e.what, " is ", e.got, " but the equation gives ", e.want, " (", when, ", state ", sid, " action ", aid, " depth ", depth,
                ") in ", alg_name[m.cfg.alg], " ", m.cfg.desc(), " | ", m.spec->desc()));
        }
    }

    // ---- trial level events ------------------------------------------------------------------------------------
    void Mon::bad_env_arg(const char* where) {
        C().violate("P08", cat("environment asked about something outside the problem: ", where), cat("the environment was called with a state or action that is not legal there: ", where));
        C().violate("P26", cat("environment asked about something outside the problem: ", where), cat("callback given a foreign state: ", where));
    }
    MonContext::~MonContext() { mon->trial_end(*this); if (tl_ctx == this) tl_ctx = nullptr; }
    void Mon::trial_begin(MonContext& c, int s) {
        c.root_state = s; c.trial_no = begun.fetch_add(1);
        long r = running.fetch_add(1) + 1, mx = max_running.load();
        while (r > mx && !max_running.compare_exchange_weak(mx, r)) {}
        tl_ctx = &c; c.thread_tag = &tl_ctx;
        if (on_begin) on_begin(c);
    }
    void Mon::trial_end(MonContext& c) {
        check_trial(c);
        if (on_end) on_end(c);
        done++; running--;
    }
    MonContext* Mon::ctx_of(ThtsEnvContext& x, const char* where) {
        MonContext* c = dynamic_cast<MonContext*>(&x);
        if (!c) { C().violate("P08", "node called with a foreign context", cat(where, " was not given the context sampled for the trial")); return tl_ctx; }
        if (interleaved) { tl_ctx = c; return c; }
        if (c != tl_ctx) { C().violate("P08", "node called with another trial's context", cat(where, " was given the context of another trial")); return tl_ctx ? tl_ctx : c; }
        return c;
    }
    void Mon::init_d(ThtsDNode& n, MonDBase& b) {
        b.sid = state_id(*spec, *n.state);
        if (b.sid < 0) { C().violate("P12", "node for a foreign state", "decision node whose state is not a state of the problem"); b.sid = 0; }
        b.leaf = spec->sink[b.sid] || n.decision_depth >= cfg.max_depth;
        if (tl_ctx) tl_ctx->created++;
        // P26: the heuristic of the node's own state, zero at terminal states or without one
        double h = true_heur(b.sid); DStat st = op->dstat(n);
        bool sink = spec->sink[b.sid];
        if (C().want("P26")) {
            C().eval();
            auto bad = [&](const char* what, double got, double want) { C().violate("P26", cat(what, "|", alg_name[cfg.alg]), cat(what, " is ", got, ", expected ", want, " at state ", b.sid, sink ? " (terminal)" : "", " in ", alg_name[cfg.alg], " ", cfg.desc())); };
            if (n.heuristic_value != h) bad("heuristic value of a new decision node", n.heuristic_value, h);
            if (is_uct(cfg.alg) && st.avg != h) bad("initial value of a new decision node", st.avg, h);
            if (has_soft(cfg.alg) && st.soft != h) bad("initial value of a new decision node", st.soft, h);
            if (has_dp(cfg.alg) && st.dp != h) bad("initial value of a new decision node", st.dp, h);
            if (has_emp(cfg.alg) && st.emp != h) bad("initial value of a new decision node", st.emp, h);
        }
        if (n.num_visits != pseudo()) C().violate("P11", cat("initial visits|", alg_name[cfg.alg]), cat("a new decision node starts with ", n.num_visits, " visits, expected ", pseudo()));
        if (cfg.alg == TENTS) { Vals q = ref_q(*this, n, 0); for (auto& x : q) b.tents_q[x.first] = x.second; }
        if (cfg.alg == DENTS && C().want("P22")) {
            std::vector<Eq> e; DStat d = op->dstat(n);
            Vals q = ref_q(*this, n, 0); bool deg; Vals p = ref_mixed_policy(*this, n, ref_own_policy(*this, n, q, 0, nullptr, deg), 0);
            double H = 0; for (auto& x : p) H -= x.second * std::log(x.second);
            e.push_back({"P22", "initial subtree entropy of a decision node", d.ent, opp(n.decision_timestep) ? -H : H, 1e-9});
            judge(*this, e, "at creation", b.sid, -1, n.decision_depth);
        }
    }
    void Mon::init_c(ThtsCNode& n, MonCBase& b) {
        b.sid = state_id(*spec, *n.state); b.aid = action_id(*spec, *n.action);
        if (b.sid < 0 || !spec->legal(b.sid, b.aid)) { C().violate("P12", "node for an illegal action", "action node for an action that is not legal in its state"); b.sid = std::max(b.sid, 0); }
        if (n.num_visits != 0) C().violate("P11", "initial visits of an action node", cat("a new action node starts with ", n.num_visits, " visits"));
        if (has_soft(cfg.alg)) {
            double s = op->cstat(n).soft;
            if (s != cfg.defq) for (const char* p : {"P17", "P26"}) C().violate(p, "initial value of an action node", cat("a new action node starts at ", s, ", expected the default ", cfg.defq));
        }
    }
    void Mon::on_visit_d(ThtsDNode& n, MonDBase& b, ThtsEnvContext& x) {
        MonContext* c = ctx_of(x, "visit of a decision node");
        Ev e; e.k = Ev::VD; e.node = &n; e.sid = b.sid; e.depth = n.decision_depth; e.leaf = b.leaf; e.fresh = b.sh.started == 0; e.sh = &b.sh;
        if (c) c->evs.push_back(e);
        b.sh.started++;
        if (b.leaf) b.sh.leaf_visits++;
    }
    void Mon::post_visit_d(ThtsDNode& n, MonDBase& b, int before) {
        if (C().want("P11")) C().eval();
        if (n.num_visits != before + 1) C().violate("P11", cat("visit of a decision node|", alg_name[cfg.alg]), cat("one visit changed the visit count from ", before, " to ", n.num_visits, b.leaf ? " (leaf)" : "", n.decision_depth == 0 ? " (root)" : ""));
    }
    void Mon::on_visit_c(ThtsCNode& n, MonCBase& b, ThtsEnvContext& x) {
        MonContext* c = ctx_of(x, "visit of an action node");
        Ev e; e.k = Ev::VC; e.dnode = false; e.node = &n; e.sid = b.sid; e.aid = b.aid; e.depth = n.decision_depth; e.sh = &b.sh;
        if (c) c->evs.push_back(e);
        b.sh.started++;
    }
    void Mon::post_visit_c(ThtsCNode& n, MonCBase& b, int before) {
        if (C().want("P11")) C().eval();
        if (n.num_visits != before + 1) C().violate("P11", cat("visit of an action node|", alg_name[cfg.alg]), cat("one visit changed the visit count from ", before, " to ", n.num_visits));
    }

    static void pit3(Pit3& p, const Vals& probs, int chosen, const std::map<int,long>& cnt) {
        struct It { int id; double p; long c; };
        std::vector<It> v; double tot = 0;
        for (auto& x : probs) { auto it = cnt.find(x.first); v.push_back({x.first, x.second, it == cnt.end() ? 0 : it->second}); tot += x.second; }
        if (v.size() < 2) return;
        double u = acc().aux();
        auto put = [&](Pit& q) { double f = 0; for (auto& x : v) { if (x.id == chosen) { q.add((f + u * x.p) / tot); return; } f += x.p; } };
        put(p.id);
        std::stable_sort(v.begin(), v.end(), [](const It& a, const It& b) { return a.p < b.p; }); put(p.prob);
        std::sort(v.begin(), v.end(), [](const It& a, const It& b) { return a.id < b.id; });
        std::stable_sort(v.begin(), v.end(), [](const It& a, const It& b) { return a.c < b.c; }); put(p.cnt);
    }

    const char* acc_class[Acc::NC] = {"visit 0 mod 8", "visit 1 mod 8", "visit 2 mod 8", "visit 3 mod 8", "visit 4 mod 8", "visit 5 mod 8", "visit 6 mod 8", "visit 7 mod 8", "at the root", "one below the root", "deeper",
        "own moves", "opponent moves", "no child yet", "some children", "all children", "two options", "three options", "four or more options", "with prior", "without prior", "after 100 visits"};
    static std::vector<int> classes(long visits, int depth, bool opp, int have, int all, bool prior) {
        std::vector<int> v{(int)(visits % 8), depth <= 0 ? 8 : depth == 1 ? 9 : 10, opp ? 12 : 11, have == 0 ? 13 : have < all ? 14 : 15, all <= 2 ? 16 : all == 3 ? 17 : 18, prior ? 19 : 20};
        if (visits > 100) v.push_back(21);
        return v;
    }
    void Mon::pre_select(ThtsDNode& n, MonDBase& b, ThtsEnvContext& x, SelPre& p) {
        p.nchildren = n.get_num_children();
        MonContext* c = ctx_of(x, "action selection");
        if (b.leaf) C().violate("P10", "a leaf chose an action", cat("action selection at a ", spec->sink[b.sid] ? "terminal" : "depth-limited", " node"));
        if (!single || !check_values || b.leaf) return;
        long N = b.sh.started + pseudo();
        if (is_uct(cfg.alg)) {
            std::vector<int> untried;
            for (int a : spec->acts[b.sid]) if (!child_of(n, *spec, a)) untried.push_back(a);
            p.have = true;
            if (!cfg.prior && !untried.empty()) { p.argmax = untried; return; }
            double bias = cfg.bias, sg = opp(n.decision_timestep) ? -1 : 1;
            if (bias == -1.0) { bias = 0.001; for (int a : spec->acts[b.sid]) if (auto ch = child_of(n, *spec, a)) bias = std::max(bias, std::fabs(op->cstat(*ch).avg)); }
            Vals u; double best = -INFINITY, mag = 1; std::map<int, std::tuple<double,long,double>> sig;
            for (int a : spec->acts[b.sid]) {
                auto ch = child_of(n, *spec, a); long k = ch ? cbase(*ch).sh.started : 0;
                double NN = std::max(1.0, (double)N), kk = std::max(1.0, (double)k);
                double t = cfg.alg == UCT ? std::sqrt(std::log(NN) / kk) : std::pow(NN, cfg.puct_power) / kk;
                double pr = cfg.prior ? spec->prior[b.sid].at(a) : 1.0, av = ch ? op->cstat(*ch).avg : 0.0;
                u[a] = sg * av + bias * t * pr; sig[a] = {av, k, pr};
                best = std::max(best, u[a]); mag = std::max(mag, std::max(std::fabs(av), bias * t));
            }
            for (auto& y : u) if (y.second >= best - 1e-10 * mag) p.argmax.push_back(y.first);
            p.exact_tie = p.argmax.size() > 1;
            for (int a : p.argmax) if (sig[a] != sig[p.argmax[0]]) p.exact_tie = false;
            return;
        }
        const Vals* par = nullptr;
        if (cfg.alg == RENTS && n.decision_depth > 0) {
            if (!c || !c->policy_at_depth.count(n.decision_depth - 1)) return;
            par = &c->policy_at_depth[n.decision_depth - 1];
        }
        Vals q = ref_q(*this, n, N); bool deg = false;
        if (cfg.alg == TENTS && interleaved) { // another trial may be between its two backups here
            for (auto& y : q) if (b.tents_q[y.first] != y.second) return;
        }
        Vals own = ref_own_policy(*this, n, q, N, par, deg);
        if (deg) { C().count("policies_skipped_underflow"); if (c) c->policy_at_depth.erase(n.decision_depth); return; }
        p.ref = ref_mixed_policy(*this, n, own, N); p.have = true;
        // compare with the distribution the library itself computes
        const char* props[3] = {"P18", cfg.alg == RENTS ? "P19" : cfg.alg == TENTS ? "P20" : "P18", "P18"};
        ActionDistr d;
        if (op->policy(n, d, x)) {
            Vals got; double sum = 0; bool bad = false; std::string why;
            for (auto& y : d) {
                int a = action_id(*spec, *y.first);
                if (!spec->legal(b.sid, a)) { bad = true; why = "mass on an illegal action"; }
                got[a] = y.second; sum += y.second;
                if (!(y.second >= 0)) { bad = true; why = "negative or undefined probability"; }
            }
            double zm = vmaxabs(q) / ref_temp(cfg, N, n.decision_depth == 0), tol = 1e-9 + 1e-14 * zm;
            if (!close(sum, 1.0, 1e-9)) { bad = true; why = cat("probabilities sum to ", sum); }
            if (!bad) for (int a : spec->acts[b.sid]) {
                double g = got.count(a) ? got[a] : 0, w = p.ref.count(a) ? p.ref[a] : 0;
                if (!close(g, w, tol)) { bad = true; why = cat("action ", a, " has probability ", g, ", expected ", w); }
            }
            if (C().want("P18") || C().want(props[1])) C().eval();
            if (bad) for (int k = 0; k < 2; k++) C().violate(props[k], cat("search policy|", alg_name[cfg.alg]),
                cat("search policy at depth ", n.decision_depth, " with N=", N, ": ", why, " in ", alg_name[cfg.alg], " ", cfg.desc(), " | ", spec->desc()));
        }
        if (c) c->policy_at_depth[n.decision_depth] = p.ref;
    }
    void Mon::post_select(ThtsDNode& n, MonDBase& b, ThtsEnvContext& x, SelPre& p, const Action& act) {
        MonContext* c = ctx_of(x, "action selection");
        int a = action_id(*spec, act);
        Ev e; e.k = Ev::SEL; e.node = &n; e.sid = b.sid; e.id = a; e.depth = n.decision_depth; e.leaf = b.leaf; e.before_children = p.nchildren; e.after_children = n.get_num_children();
        bool legal = spec->legal(b.sid, a);
        if (legal) { auto ch = child_of(n, *spec, a); e.next = ch ? static_cast<const void*>(ch.get()) : nullptr; }
        if (c) { c->evs.push_back(e); c->sel_at_depth[n.decision_depth] = a; }
        if (!legal) { C().violate("P08", "illegal action", cat("action ", a, " chosen in state ", b.sid, " where it is not legal")); C().violate("P15", "illegal action", "an illegal action was chosen"); return; }
        if (!p.have) return;
        if (is_uct(cfg.alg)) {
            bool in = std::find(p.argmax.begin(), p.argmax.end(), a) != p.argmax.end();
            if (C().want("P15")) {
                C().eval();
                C().saw(mix(mix(spec->hash(), b.sid), mix(b.sh.started, a)));
                if (cfg.eps == 0) {
                    if (!in) C().violate("P15", cat("selection|", alg_name[cfg.alg], cfg.prior ? "|prior" : ""), cat("action ", a, " chosen at visit ", b.sh.started, " of state ", b.sid, " (depth ", n.decision_depth, ") does not maximise the upper confidence value in ", alg_name[cfg.alg], " ", cfg.desc(), " | ", spec->desc()));
                } else {
                    double pin = (1 - cfg.eps) + cfg.eps * p.argmax.size() / spec->acts[b.sid].size();
                    std::lock_guard<std::mutex> g(acc().mu);
                    acc().in_obs += in; acc().in_exp += pin; acc().in_var += pin * (1 - pin); acc().in_n++;
                }
                if (p.exact_tie && in) { Vals pr; for (int k : p.argmax) pr[k] = 1.0; pit3(acc().tie, pr, a, b.sel_count); }
                if (cfg.eps > 0 && !in) { Vals pr; for (int k : spec->acts[b.sid]) if (std::find(p.argmax.begin(), p.argmax.end(), k) == p.argmax.end()) pr[k] = 1.0; pit3(acc().sel, pr, a, b.sel_count); }
            }
        } else {
            const char* own = cfg.alg == RENTS ? "P19" : cfg.alg == TENTS ? "P20" : "P18";
            if (C().want("P18") || C().want(own)) {
                C().eval();
                C().saw(mix(mix(spec->hash(), b.sid), mix(b.sh.started, a)));
                if (!p.ref.count(a)) for (const char* pp : {"P18", own}) C().violate(pp, cat("selection|", alg_name[cfg.alg]), cat("action ", a, " was chosen although its probability is zero in ", alg_name[cfg.alg], " ", cfg.desc()));
                else {
                    pit3(acc().sel, p.ref, a, b.sel_count);
                    for (int k : classes(b.sh.started, n.decision_depth - root_depth, opp(n.decision_timestep), p.nchildren, (int)spec->acts[b.sid].size(), cfg.prior)) pit3(acc().selc[k], p.ref, a, b.sel_count);
                }
            }
        }
        b.sel_count[a]++;
    }
    void Mon::post_sample(ThtsCNode& n, MonCBase& b, ThtsEnvContext& x, int before, const Observation& o) {
        MonContext* c = ctx_of(x, "outcome sampling");
        int s2 = state_id(*spec, o);
        Ev e; e.k = Ev::SMP; e.dnode = false; e.node = &n; e.sid = b.sid; e.aid = b.aid; e.id = s2; e.depth = n.decision_depth; e.before_children = before; e.after_children = n.get_num_children();
        double p = s2 >= 0 ? spec->prob(b.sid, b.aid, s2) : 0;
        if (p > 0) { auto ch = child_of(n, *spec, s2); e.next = ch ? static_cast<const void*>(static_cast<ThtsDNode*>(ch.get())) : nullptr; }
        if (c) c->evs.push_back(e);
        if (!(p > 0)) { C().violate("P08", "impossible outcome", cat("outcome ", s2, " sampled after action ", b.aid, " in state ", b.sid, " has probability zero")); C().violate("P36", "impossible outcome", "an outcome of probability zero was sampled"); return; }
        if (C().want("P36")) {
            C().eval(); C().saw(mix(mix(spec->hash(), b.sid), mix(b.aid, s2)));
            Vals pr; for (auto& t : spec->tr.at({b.sid, b.aid})) pr[t.s2] = t.p;
            if (pr.size() > 1) {
                pit3(acc().smp, pr, s2, b.smp_count);
                for (int k : classes(b.sh.started, n.decision_depth - root_depth, opp(n.decision_timestep), before, (int)pr.size(), cfg.prior)) pit3(acc().smpc[k], pr, s2, b.smp_count);
            }
        }
        b.smp_count[s2]++;
    }

    // ---- backups -----------------------------------------------------------------------------------------------
    struct Walk { std::vector<int> s, a, o; std::vector<const void*> d, cn; std::vector<NodeShadow*> dsh, csh; const void* fin = nullptr; int fin_s = -1; NodeShadow* fsh = nullptr; bool ok = true; };
    static Walk walk_of(const MonContext& c) {
        Walk w;
        for (auto& e : c.evs) {
            if (e.k == Ev::VD) { w.fin = e.node; w.fin_s = e.sid; w.fsh = e.sh; }
            else if (e.k == Ev::SEL) { w.s.push_back(e.sid); w.a.push_back(e.id); w.d.push_back(e.node); w.dsh.push_back(w.fsh); }
            else if (e.k == Ev::VC) { w.cn.push_back(e.node); w.csh.push_back(e.sh); }
            else if (e.k == Ev::SMP) w.o.push_back(e.id);
        }
        if (w.s.size() != w.o.size() || w.s.size() != w.cn.size() || !w.fin) w.ok = false;
        for (size_t i = 0; i < w.s.size() && w.ok; i++) if (w.o[i] < 0 || !w.dsh[i] || !(w.o[i] >= 0 && w.a[i] >= 0 && !w.s.empty())) w.ok = false;
        return w;
    }
    double Mon::true_after(MonContext& c, int step) const {
        Walk w = walk_of(c); double r = true_heur(w.fin_s);
        for (int j = (int)w.s.size() - 1; j >= step; j--) r += spec->legal(w.s[j], w.a[j]) ? spec->reward(w.s[j], w.a[j], w.o[j]) : 0;
        return r;
    }
    void Mon::pre_backup(bool dnode, const void* node, ThtsEnvContext& x, const std::vector<double>& rb, const std::vector<double>& ra, double after, double total) {
        MonContext* c = ctx_of(x, "backup");
        if (!c) return;
        Ev e; e.k = dnode ? Ev::BD : Ev::BC; e.dnode = dnode; e.node = node; e.ret_after = after; e.ret = total;
        Walk w = walk_of(*c); int K = w.s.size(), step = K - 1 - c->n_back / 2; bool expect_d = c->n_back % 2;
        c->n_back++; e.id = -1;
        c->evs.push_back(e);
        if (C().want("P09")) C().eval();
        if (!w.ok) { c->evs.back().id = -2; return; }
        if (step < 0) { C().violate("P09", "too many backups", cat("more than one backup per walked node (walk of ", K, " steps)")); return; }
        if (expect_d != dnode || node != (dnode ? w.d[step] : w.cn[step])) { C().violate("P09", "backup order", cat("backup number ", c->n_back, " of a walk of ", K, " steps went to the wrong node")); return; }
        c->evs.back().id = step;
        std::vector<double> R; double mag = 1;
        for (int j = 0; j < K; j++) { R.push_back(spec->reward(w.s[j], w.a[j], w.o[j])); mag += std::fabs(R.back()); }
        double h = true_heur(w.fin_s), aft = h, tot = h; mag += std::fabs(h);
        for (int j = step; j < K; j++) aft += R[j];
        for (double v : R) tot += v;
        std::string why;
        bool okb = (int)rb.size() == step, oka = (int)ra.size() == K - step + 1;
        for (int j = 0; okb && j < step; j++) okb = rb[j] == R[j];
        if (oka) oka = ra[0] == h;
        for (int j = 0; oka && j < K - step; j++) oka = ra[j + 1] == R[K - 1 - j];
        if (!okb) why += "rewards before the node are wrong; ";
        if (!oka) why += "rewards after the node are wrong; ";
        if (!close(after, aft, 1e-9 * mag)) why += cat("return from the node on is ", after, ", really ", aft, "; ");
        if (!close(total, tot, 1e-9 * mag)) why += cat("whole return is ", total, ", really ", tot, "; ");
        if (!why.empty()) C().violate("P09", cat("backup arguments|", dnode ? "D" : "C"), cat(why, "step ", step, " of ", K, " in ", alg_name[cfg.alg], " ", cfg.desc()));
    }
    static void finite(Mon& m, double v, const char* p, const char* what) {
        if (!C().want(p)) return;
        if (!std::isfinite(v)) C().violate(p, cat(what, " not finite|", alg_name[m.cfg.alg]), cat(what, " became ", v, " in ", alg_name[m.cfg.alg], " ", m.cfg.desc(), " | ", m.spec->desc()));
    }
    void Mon::post_backup_d(ThtsDNode& n, MonDBase& b, ThtsEnvContext& x, double) {
        MonContext* c = ctx_of(x, "backup");
        if (c && !c->evs.empty() && c->evs.back().id >= 0) {
            double r = true_after(*c, c->evs.back().id);
            b.sh.backups++; b.sh.ret_sum += r; b.sh.ret_abs = std::max(b.sh.ret_abs, std::fabs(r)); b.sh.at_last_backup = b.sh.started;
        } else b.sh.backups++;
        DStat st = op->dstat(n);
        if (has_soft(cfg.alg)) { finite(*this, st.soft, "P17", "soft value"); if (cfg.alg == RENTS) finite(*this, st.soft, "P19", "soft value"); if (cfg.alg == TENTS) finite(*this, st.soft, "P20", "value"); }
        if (cfg.alg == DENTS || cfg.alg == EST) { finite(*this, st.ent, "P22", "subtree entropy"); finite(*this, st.dp, "P22", "dp value"); finite(*this, st.emp, "P22", "mean return"); }
        if (cfg.alg == TENTS && single && c && c->sel_at_depth.count(n.decision_depth)) {
            long N = b.sh.started; Vals q = ref_q(*this, n, N); int a = c->sel_at_depth[n.decision_depth];
            b.tents_q[a] = q[a];
        }
        if (!single || !check_values) return;
        const Vals* par = nullptr;
        if (cfg.alg == RENTS && n.decision_depth > 0 && c && c->policy_at_depth.count(n.decision_depth - 1)) par = &c->policy_at_depth[n.decision_depth - 1];
        std::vector<Eq> eqs; ref_eqs_d(*this, n, b.sh.started, par, eqs);
        judge(*this, eqs, "after its backup", b.sid, -1, n.decision_depth);
        for (auto& e : eqs) if (C().want(e.prop)) { C().saw(mix(hstr(cat(e.want)), b.sid)); break; }
    }
    void Mon::post_backup_c(ThtsCNode& n, MonCBase& b, ThtsEnvContext& x, double) {
        MonContext* c = ctx_of(x, "backup");
        if (c && !c->evs.empty() && c->evs.back().id >= 0) {
            double r = true_after(*c, c->evs.back().id);
            b.sh.backups++; b.sh.ret_sum += r; b.sh.ret_abs = std::max(b.sh.ret_abs, std::fabs(r)); b.sh.at_last_backup = b.sh.started;
        } else b.sh.backups++;
        if (!single || !check_values) return;
        std::vector<Eq> eqs; ref_eqs_c(*this, n, eqs);
        judge(*this, eqs, "after its backup", b.sid, b.aid, n.decision_depth);
        for (auto& e : eqs) if (C().want(e.prop)) { C().saw(mix(hstr(cat(e.want)), b.sid * 31 + b.aid)); break; }
    }

    void Mon::check_trial(MonContext& c) {
        auto& v = c.evs; size_t i = 0;
        auto p8 = [&](const char* key, const std::string& d) { C().violate("P08", key, cat(d, " (trial ", c.trial_no, ", ", alg_name[cfg.alg], " ", cfg.desc(), ")")); };
        if (C().want("P08") || C().want("P10") || C().want("P09")) {
            C().eval();
            uint64_t h = spec->hash(); for (auto& e : v) h = mix(h, (uint64_t)e.k * 131 + e.id * 7 + e.sid); C().saw(h);
        }
        if (root && c.root_state >= 0 && c.root_state != dbase(*static_cast<const ThtsDNode*>(root)).sid) p8("context of another state", "the trial's context was sampled for a state that is not the root's");
        const void* want = root; int wsid = -1, K = 0; bool ok = true; int newlinks = 0;
        const Ev* fin = nullptr; bool last_new = false;
        for (;;) {
            if (i >= v.size() || v[i].k != Ev::VD || (want && v[i].node != want)) { p8("walk", cat("expected a visit of ", K ? "the sampled outcome's" : "the root", " node at event ", i)); ok = false; break; }
            if (wsid >= 0 && v[i].sid != wsid) { p8("walk", "the node reached is not the sampled outcome's"); ok = false; break; }
            const Ev* dv = &v[i++];
            if (i >= v.size() || v[i].k == Ev::BC || v[i].k == Ev::BD) { fin = dv; break; }
            if (v[i].k != Ev::SEL || v[i].node != dv->node) { p8("walk", "a visited decision node did not choose an action next"); ok = false; break; }
            // P10: this node continued the walk
            if (dv->leaf) C().violate("P10", "walk continued past a leaf", cat("a trial went on from a leaf at depth ", dv->depth));
            if (cfg.mcts && last_new) C().violate("P10", "walk continued past a new node", cat("in tree-search mode a trial went on after adding a node at depth ", dv->depth, " (", alg_name[cfg.alg], ")"));
            const Ev* sel = &v[i++];
            if (!spec->legal(dv->sid, sel->id)) { ok = false; break; }
            if (i >= v.size() || v[i].k != Ev::VC || v[i].node != sel->next || v[i].sid != dv->sid || v[i].aid != sel->id) { p8("walk", "the chosen action's node was not the next node visited"); ok = false; break; }
            const void* cn = v[i++].node;
            if (i >= v.size() || v[i].k != Ev::SMP || v[i].node != cn) { p8("walk", "a visited action node did not sample an outcome next"); ok = false; break; }
            const Ev* smp = &v[i++];
            if (smp->id < 0 || !(spec->prob(dv->sid, sel->id, smp->id) > 0)) { ok = false; break; }
            bool link = smp->after_children > smp->before_children;
            if (smp->after_children > smp->before_children + 1) C().violate("P10", "several outcomes added at once", "one sample added more than one outcome node");
            if (link) newlinks++;
            want = smp->next; wsid = smp->id; K++;
            if (!want) { p8("walk", "the sampled outcome has no node"); ok = false; break; }
            // with the shared-node table a new link may lead to a node that existed before
            bool fresh = i < v.size() && v[i].k == Ev::VD && v[i].fresh;
            last_new = link && (!cfg.tt || fresh);
            if (cfg.tt && link && !fresh) last_new = false;
            if (i < v.size() && v[i].k == Ev::VD) { /* continues above */ }
            if (link) c.policy_at_depth.erase(-1);
            const_cast<Ev*>(smp)->fresh = link;
        }
        if (ok && fin) {
            bool ended_on_link = K > 0 && newlinks > 0;
            if (ended_on_link) { ended_on_link = false; for (size_t j = i; j-- > 0;) if (v[j].k == Ev::SMP) { ended_on_link = v[j].fresh; break; } }
            bool good = fin->leaf || (cfg.mcts && ended_on_link);
            if (!good) C().violate("P10", "trial ended early", cat("a trial ended at an inner node of depth ", fin->depth, cfg.mcts ? " that it did not add" : " in full-length mode", " (", alg_name[cfg.alg], " ", cfg.desc(), ")"));
            if (cfg.mcts && c.created > 1) C().violate("P10", "several nodes added", cat("one trial in tree-search mode created ", c.created, " decision nodes"));
            fin->sh->ended++;
            int nb = 0; for (; i < v.size(); i++) {
                if (v[i].k == Ev::BC || v[i].k == Ev::BD) nb++;
                else { p8("walk", "a node was visited after the backups began"); C().violate("P09", "visit after backup", "selection events after the backups began"); }
            }
            if (nb != 2 * K) C().violate("P09", "number of backups", cat(nb, " backups for a walk with ", K, " decisions"));
        }
        uint64_t h = trace_hash.load(); uint64_t th = 7; for (auto& e : v) th = mix(th, (uint64_t)e.k * 131 + e.id * 7 + e.sid);
        trace_hash = mix(h, th);
        C().count("trials_monitored"); C().count("events_monitored", (long)v.size());
    }
    void Mon::check_child_ref_c(const ThtsDNode& p, const Action& a, const ThtsCNode& m, const std::type_info& want) {
        if (!C().want("P12")) return;
        C().eval();
        std::string why;
        if (std::type_index(typeid(m)) != std::type_index(want)) why += "wrong node class; ";
        if (m.decision_depth != p.decision_depth || m.decision_timestep != p.decision_timestep) why += "wrong depth or time step; ";
        if (m.thts_manager != p.thts_manager) why += "another manager; ";
        if (state_id(*spec, *m.state) != dbase(p).sid) why += "wrong state; ";
        if (action_id(*spec, *m.action) != action_id(*spec, a)) why += "wrong action; ";
        if (parent_ptr(m.parent).get() != &p) why += "wrong parent; ";
        if (!why.empty()) C().violate("P12", cat("new action node|", alg_name[cfg.alg]), cat("a new action node has ", why, alg_name[cfg.alg]));
    }
    void Mon::check_child_ref_d(const ThtsCNode& p, const Observation& o, const ThtsDNode& m, const std::type_info& want) {
        if (!C().want("P12")) return;
        C().eval();
        std::string why;
        if (std::type_index(typeid(m)) != std::type_index(want)) why += "wrong node class; ";
        if (m.decision_depth != p.decision_depth + 1 || m.decision_timestep != p.decision_timestep + 1) why += "wrong depth or time step; ";
        if (m.thts_manager != p.thts_manager) why += "another manager; ";
        if (state_id(*spec, *m.state) != state_id(*spec, o)) why += "wrong state; ";
        if (parent_ptr(m.parent).get() != &p) why += "wrong parent; ";
        if (!why.empty()) C().violate("P12", cat("new decision node|", alg_name[cfg.alg]), cat("a new decision node has ", why, alg_name[cfg.alg]));
    }

    // ---- whole tree --------------------------------------------------------------------------------------------
    void walk(const std::shared_ptr<ThtsDNode>& root, const std::function<void(ThtsDNode&)>& fd, const std::function<void(ThtsCNode&)>& fc) {
        std::set<const void*> seen; std::vector<ThtsDNode*> st{root.get()}; seen.insert(root.get());
        while (!st.empty()) {
            ThtsDNode* d = st.back(); st.pop_back();
            if (fd) fd(*d);
            for (auto& x : d->children) {
                if (fc) fc(*x.second);
                for (auto& y : x.second->children) if (seen.insert(y.second.get()).second) st.push_back(y.second.get());
            }
        }
    }
    static void dump(Ops& op, const Spec& sp, ThtsDNode& d, std::set<const void*>& seen, std::ostream& o, int ind) {
        DStat s = op.dstat(d);
        auto pad = [&]() { for (int k = 0; k < ind; k++) o << ' '; };
        pad(); o << "D" << state_id(sp, *d.state) << " t" << d.decision_timestep << " v" << s.visits << " nb" << s.nb << "," << s.dp_nb << "," << s.ent_nb << "," << s.emp_nb << " " << s.avg << " " << s.soft << " " << s.dp << " " << s.ent << " " << s.lent << " " << s.emp << "\n";
        if (!seen.insert(&d).second) return;
        std::map<int, ThtsCNode*> cs; for (auto& x : d.children) cs[action_id(sp, *x.first)] = x.second.get();
        for (auto& x : cs) {
            CStat c = op.cstat(*x.second);
            pad(); o << " C" << x.first << " v" << c.visits << " nb" << c.nb << "," << c.dp_nb << "," << c.ent_nb << "," << c.emp_nb << " " << c.avg << " " << c.soft << " " << c.dp << " " << c.ent << " " << c.emp << "\n";
            std::map<int, ThtsDNode*> ds; for (auto& y : x.second->children) ds[state_id(sp, *y.first)] = y.second.get();
            for (auto& y : ds) dump(op, sp, *y.second, seen, o, ind + 2);
        }
    }
    std::string tree_dump(Ops& op, const Spec& sp, const std::shared_ptr<ThtsDNode>& root) {
        std::ostringstream o; o.precision(17); std::set<const void*> seen; dump(op, sp, *root, seen, o, 0); return o.str();
    }
    uint64_t tree_hash(Ops& op, const Spec& sp, const std::shared_ptr<ThtsDNode>& root) { return hstr(tree_dump(op, sp, root)); }

    void check_tree_values(Mon& m, const std::shared_ptr<ThtsDNode>& root) {
        std::vector<Eq> eqs;
        walk(root, [&](ThtsDNode& d) {
            MonDBase& b = dbase(d); eqs.clear();
            if (!is_uct(m.cfg.alg) && b.sh.backups == 0) return;
            if (m.cfg.alg == TENTS && !m.single) return;
            ref_eqs_d(m, d, b.sh.at_last_backup, nullptr, eqs);
            judge(m, eqs, "at rest", b.sid, -1, d.decision_depth);
        }, [&](ThtsCNode& c) {
            MonCBase& b = cbase(c); eqs.clear();
            if (b.sh.backups == 0) return;
            ref_eqs_c(m, c, eqs);
            judge(m, eqs, "at rest", b.sid, b.aid, c.decision_depth);
        });
    }
    void check_tree_counts(Mon& m, const std::shared_ptr<ThtsDNode>& root, long trials) {
        auto bad = [&](const char* key, const std::string& d) { C().violate("P11", cat(key, "|", alg_name[m.cfg.alg]), cat(d, " in ", alg_name[m.cfg.alg], " ", m.cfg.desc(), " | ", m.spec->desc())); };
        MonDBase& rb = dbase(*root);
        if (root->num_visits != trials + m.pseudo()) {
            bad("root visits", cat("the root has ", root->num_visits, " visits after ", trials, " trials"));
        }
        (void)rb;
        std::map<const void*, long> from_parents; std::map<const void*, long> d_visits; std::map<const void*, int> links;
        walk(root, [&](ThtsDNode& d) {
            MonDBase& b = dbase(d); C().eval();
            if (d.num_visits != b.sh.started + m.pseudo()) bad("decision node visits", cat("a decision node at depth ", d.decision_depth, " has ", d.num_visits, " visits but was visited by ", b.sh.started, " trials"));
            long sum = 0; for (auto& x : d.children) sum += x.second->num_visits;
            if (sum + b.sh.ended != b.sh.started) bad("conservation at a decision node", cat("a decision node visited ", b.sh.started, " times has action nodes visited ", sum, " times and ", b.sh.ended, " trials ending there"));
            if (d.num_visits != d.get_num_visits()) bad("visit query", "get_num_visits disagrees with the visit count");
            d_visits[&d] = b.sh.started;
        }, [&](ThtsCNode& c) {
            MonCBase& b = cbase(c); C().eval();
            if (c.num_visits != b.sh.started) bad("action node visits", cat("an action node has ", c.num_visits, " visits but was visited by ", b.sh.started, " trials"));
            long sum = 0; for (auto& x : b.smp_count) sum += x.second;
            if (sum != c.num_visits) bad("conservation at an action node", cat("an action node with ", c.num_visits, " visits sampled ", sum, " outcomes"));
            for (auto& y : c.children) { auto it = b.smp_count.find(state_id(*m.spec, *y.first)); from_parents[static_cast<ThtsDNode*>(y.second.get())] += it == b.smp_count.end() ? 0 : it->second; }
        });
        for (auto& x : from_parents) if (d_visits[x.first] != x.second) bad("conservation over outcomes", cat("a decision node was reached ", x.second, " times through its parents but counts ", d_visits[x.first], " visits"));
        C().saw(mix(trials, from_parents.size() * 977 + d_visits.size()));
    }
    void check_tree_structure(Mon& m, const std::shared_ptr<ThtsDNode>& root, bool monitored) {
        const Spec& sp = *m.spec;
        auto bad = [&](const char* p, const char* key, const std::string& d) { C().violate(p, cat(key, "|", alg_name[m.cfg.alg]), cat(d, " in ", alg_name[m.cfg.alg], " ", m.cfg.desc(), " | ", sp.desc())); };
        std::map<const void*, int> parents; std::map<std::pair<int,int>, const void*> by_id; std::map<const void*, std::pair<int,int>> id_of;
        std::type_index dt(m.op->dtype(monitored)), ct(m.op->ctype(monitored));
        long nodes = 0;
        walk(root, [&](ThtsDNode& d) {
            nodes++;
            int s = state_id(sp, *d.state);
            if (s < 0) { bad("P12", "state", "a decision node has a foreign state"); return; }
            C().eval();
            if (std::type_index(typeid(d)) != dt) bad("P12", "class", "a decision node of another class hangs in the tree");
            if (d.thts_manager != root->thts_manager) bad("P12", "manager", "a node belongs to another manager");
            bool leaf = sp.sink[s] || d.decision_depth >= m.cfg.max_depth;
            if (leaf && d.get_num_children() > 0) bad("P10", "leaf with children", cat("a ", sp.sink[s] ? "terminal" : "depth-limited", " node has ", d.get_num_children(), " action nodes"));
            if (d.is_leaf() != leaf) bad("P10", "is_leaf", "is_leaf is wrong");
            if (d.is_leaf() != leaf || d.is_sink() != (bool)sp.sink[s] || d.is_opponent() != m.opp(d.decision_timestep) || d.is_root_node() != (d.decision_depth == 0)) bad("P35", "role query", "a role query of a decision node is wrong");
            if (d.decision_depth - root->decision_depth != d.decision_timestep - root->decision_timestep) bad("P12", "depth", "depth and time step have drifted apart");
            std::set<int> seen;
            for (auto& x : d.children) {
                ThtsCNode& c = *x.second; int a = action_id(sp, *x.first);
                if (!sp.legal(s, a)) { bad("P12", "illegal action", cat("action node for action ", a, " which is not legal in state ", s)); continue; }
                if (!seen.insert(a).second) bad("P12", "duplicate action", "two action nodes for the same action");
                if (std::type_index(typeid(c)) != ct) bad("P12", "class", "an action node of another class hangs in the tree");
                if (c.thts_manager != root->thts_manager) bad("P12", "manager", "a node belongs to another manager");
                if (action_id(sp, *c.action) != a || state_id(sp, *c.state) != s) bad("P12", "key", "an action node is filed under another action or state");
                if (c.decision_depth != d.decision_depth || c.decision_timestep != d.decision_timestep) bad("P12", "depth", "an action node's depth or time step differs from its decision node's");
                if (!m.cfg.tt && parent_ptr(c.parent).get() != &d) bad("P12", "parent", "an action node's parent link is wrong");
                if (c.is_opponent() != m.opp(c.decision_timestep)) bad("P35", "role query", "is_opponent of an action node is wrong");
                auto key = mk_action(sp, a); int before = d.get_num_children();
                if (!d.has_child_node_itfc(key) || d.get_child_node_itfc(key).get() != &c) bad("P12", "lookup", "looking an action up by an equal key does not find its node");
                if (d.create_child_node_itfc(key).get() != &c || d.get_num_children() != before) bad("P12", "create again", "creating an existing action node made another one");
                std::set<int> so;
                for (auto& y : c.children) {
                    ThtsDNode& e = *y.second; int s2 = state_id(sp, *y.first);
                    if (s2 < 0 || !(sp.prob(s, a, s2) > 0)) { bad("P12", "impossible outcome", "a decision node hangs below an outcome of probability zero"); continue; }
                    if (!so.insert(s2).second) bad("P12", "duplicate outcome", "two decision nodes for the same outcome");
                    if (state_id(sp, *e.state) != s2) bad("P12", "key", "a decision node is filed under another outcome");
                    if (e.decision_depth != c.decision_depth + 1 && !m.cfg.tt) bad("P12", "depth", "depth does not increase by one per decision");
                    if (e.decision_timestep != c.decision_timestep + 1) { bad("P12", "time step", "time step does not increase by one per decision"); bad("P13", "time step", "a node is shared across time steps"); }
                    if (!m.cfg.tt && parent_ptr(e.parent).get() != &c) bad("P12", "parent", "a decision node's parent link is wrong");
                    parents[&e]++;
                    std::pair<int,int> id(c.decision_timestep, s2);
                    if (m.cfg.tt) {
                        auto it = by_id.find(id);
                        if (it != by_id.end() && it->second != &e) bad("P13", "two nodes for one outcome", cat("outcome ", s2, " at time step ", id.first, " has two decision nodes although the shared-node table is on"));
                        by_id[id] = &e;
                        auto jt = id_of.find(&e);
                        if (jt != id_of.end() && jt->second != id) bad("P13", "one node for two outcomes", "one decision node stands for different outcomes or time steps");
                        id_of[&e] = id;
                    }
                    std::shared_ptr<const Observation> ok = mk_state(sp, s2); int b2 = c.get_num_children();
                    if (!c.has_child_node_itfc(ok) || c.get_child_node_itfc(ok).get() != &e) bad("P12", "lookup", "looking an outcome up by an equal key does not find its node");
                    if (c.create_child_node_itfc(ok).get() != &e || c.get_num_children() != b2) bad("P12", "create again", "creating an existing decision node made another one");
                }
                if (so.size() != c.children.size() || (int)so.size() != c.get_num_children()) bad("P12", "child count", "an action node's child count is wrong");
            }
            if ((int)seen.size() != d.get_num_children()) bad("P12", "child count", "a decision node's child count is wrong");
        }, nullptr);
        if (!m.cfg.tt) for (auto& x : parents) if (x.second > 1) bad("P13", "shared without table", "a node has two parents although the shared-node table is off");
        if (m.cfg.tt) { long shared = 0; for (auto& x : parents) if (x.second > 1) shared++; C().count("shared_nodes", shared); }
        C().count("nodes_walked", nodes);
    }

    World::World(const Spec& sp, const AlgCfg& c, bool mon_, int root_t) : cfg(c), monitored(mon_) {
        env = std::make_shared<MonEnv>(sp);
        mon.spec = &env->spec; mon.cfg = c; mon.op = &ops(c.alg);
        if (monitored) env->mon = &mon;
        mgr = ops(c.alg).make_manager(c, env);
        new_root(root_t);
    }
    void World::new_root(int t, int depth) {
        root = ops(cfg.alg).make_root(mgr, mk_state(env->spec, env->spec.init), depth, t, monitored);
        mon.root = root.get(); mon.root_t = t; mon.root_depth = depth;
    }
    World::~World() { root.reset(); mgr.reset(); env.reset(); }
}
