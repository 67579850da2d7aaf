#include "mdp.h"
#include "monitor.h"
#include "helper_templates.h"
#include <algorithm>
#include <sched.h>
#include <unistd.h>

namespace vm {
    std::string Spec::desc() const {
        std::ostringstream o;
        o << "states=" << n << " init=" << init << " skind=" << skind << " akind=" << akind << " sinks=";
        for (int s = 0; s < n; s++) if (sink[s]) o << s << ",";
        o << " edges=";
        int k = 0;
        for (auto& e : tr) {
            if (k++ > 12) { o << "..."; break; }
            o << e.first.first << "-a" << e.first.second << "(r" << rew.at(e.first) << ")->";
            for (auto& x : e.second) o << x.s2 << ":" << x.p << " ";
            o << ";";
        }
        return o.str();
    }
    uint64_t Spec::hash() const { return hstr(desc()); }

    Spec gen_spec(Rng& r, const GenOpts& o) {
        Spec sp;
        sp.n = r.i(o.min_states, std::max(o.min_states, o.max_states));
        sp.skind = r.i(0, 3); sp.akind = r.i(0, 2);     // own types with colliding hashes included
        sp.rscale = o.rscale;
        sp.sink.assign(sp.n, 0); sp.acts.resize(sp.n); sp.heur.resize(sp.n); sp.prior.resize(sp.n);
        // states 0..n-1; in layered problems transitions only go to higher numbers
        sp.sink[sp.n - 1] = 1;
        for (int s = 1; s < sp.n - 1; s++) if (r.b(0.2) && !o.chain) sp.sink[s] = 1;
        int nact_all = r.i(1, o.max_actions);
        auto rnd_rew = [&]() {
            double x;
            if (o.ties) x = r.i(-1, 1);
            else if (o.integer_rewards) x = r.i(-5, 5);
            else x = r.r(-1, 1);
            return (x + o.roffset) * o.rscale;
        };
        for (int s = 0; s < sp.n; s++) {
            sp.heur[s] = rnd_rew();
            if (sp.sink[s]) continue;
            int na = o.differing_actions ? r.i(1, o.max_actions) : nact_all;
            std::set<int> ids;
            int pool = o.differing_actions ? o.max_actions + 2 : nact_all;
            while ((int)ids.size() < na) ids.insert(o.differing_actions ? r.i(0, pool - 1) : (int)ids.size());
            sp.acts[s].assign(ids.begin(), ids.end());
            double ps = 0; std::map<int,double> pr;
            for (int a : sp.acts[s]) {
                int nb = o.deterministic ? 1 : r.i(1, o.max_branch);
                std::set<int> succ;
                int lo = o.layered ? s + 1 : 0, hi = o.layered ? std::min(sp.n - 1, s + (o.chain ? 2 : std::max(4, o.max_branch + 1))) : sp.n - 1;
                for (int k = 0; k < nb; k++) succ.insert(r.i(lo, hi));
                std::vector<Outcome> v; double tot = 0;
                for (int s2 : succ) { double w = o.uneven_probs ? r.r(0.05, 1.0) : 1.0; v.push_back({s2, w}); tot += w; }
                double acc = 0;
                for (size_t k = 0; k < v.size(); k++) {
                    // dyadic probabilities that sum to one exactly
                    double q = std::round(v[k].p / tot * 1024.0) / 1024.0;
                    if (q <= 0) q = 1.0 / 1024;
                    v[k].p = q; acc += q;
                }
                size_t big = 0; for (size_t k = 1; k < v.size(); k++) if (v[k].p > v[big].p) big = k;
                v[big].p += 1.0 - acc;
                sp.tr[{s, a}] = v;
                sp.rew[{s, a}] = rnd_rew();
                if (o.obs_rewards) for (auto& x : v) if (r.b()) sp.obs_rew[{s, a, x.s2}] = rnd_rew();
                double w = r.b(0.1) ? 1e-3 : r.r(0.05, 1.0);
                pr[a] = w; ps += w;
            }
            for (auto& x : pr) sp.prior[s][x.first] = o.prior_zeros && pr.size() > 1 && r.b(0.3) ? 0.0 : x.second / ps * o.prior_scale;
        }
        return sp;
    }

    // a problem's own types: few distinct hash values, equality by contents
    struct OwnState : public State {
        int id; OwnState(int id) : id(id) {}
        size_t hash() const override { return id & 1; }
        bool equals_itfc(const Observation& o) const override { auto* p = dynamic_cast<const OwnState*>(&o); return p && p->id == id; }
        std::string get_pretty_print_string() const override { return cat("own", id); }
    };
    struct OwnAction : public Action {
        int id; OwnAction(int id) : id(id) {}
        size_t hash() const override { return 5; }
        bool equals_itfc(const Action& o) const override { auto* p = dynamic_cast<const OwnAction*>(&o); return p && p->id == id; }
        std::string get_pretty_print_string() const override { return cat("own", id); }
    };
    std::shared_ptr<const State> mk_state(const Spec& sp, int s) {
        switch (sp.skind) {
            case 3: return std::make_shared<const OwnState>(s);
            case 0: return std::make_shared<const IntState>(s * 7 - 3);
            case 1: return std::make_shared<const IntPairState>(s % 3, s / 3);
            default: return std::make_shared<const Int3TupleState>(s % 2, (s / 2) % 2, s / 4);
        }
    }
    static const char* anames[] = {"left", "right", "up", "down", "stay", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13", "a14", "a15", "", " ", "a", "A5"};
    static const int NNAMES = sizeof(anames) / sizeof(anames[0]);
    std::shared_ptr<const Action> mk_action(const Spec& sp, int a) {
        if (sp.akind == 0) return std::make_shared<const IntAction>(a * 3 - 2);
        if (sp.akind == 2) return std::make_shared<const OwnAction>(a);
        return std::make_shared<const StringAction>(anames[a % NNAMES]);
    }
    int state_id(const Spec& sp, const Observation& s) {
        int v = -1;
        if (sp.skind == 0) { auto* p = dynamic_cast<const IntState*>(&s); if (p && (p->state + 3) % 7 == 0) v = (p->state + 3) / 7; }
        else if (sp.skind == 3) { auto* p = dynamic_cast<const OwnState*>(&s); if (p) v = p->id; }
        else if (sp.skind == 1) { auto* p = dynamic_cast<const IntPairState*>(&s); if (p) v = p->state.first + 3 * p->state.second; }
        else { auto* p = dynamic_cast<const Int3TupleState*>(&s); if (p) v = std::get<0>(p->state) + 2 * std::get<1>(p->state) + 4 * std::get<2>(p->state); }
        return (v >= 0 && v < sp.n) ? v : -1;
    }
    int action_id(const Spec& sp, const Action& a) {
        if (sp.akind == 0) { auto* p = dynamic_cast<const IntAction*>(&a); return (p && (p->action + 2) % 3 == 0) ? (p->action + 2) / 3 : -1; }
        if (sp.akind == 2) { auto* p = dynamic_cast<const OwnAction*>(&a); return p ? p->id : -1; }
        auto* p = dynamic_cast<const StringAction*>(&a);
        if (p) for (int k = 0; k < NNAMES; k++) if (p->action == anames[k]) return k;
        return -1;
    }

    static thread_local uint64_t tl_noise = 0;
    void MonEnv::perturb() const {
        if (!yield_pct) return;
        if (!tl_noise) tl_noise = mix((uint64_t)(uintptr_t)&tl_noise, 77) | 1;
        tl_noise ^= tl_noise << 13; tl_noise ^= tl_noise >> 7; tl_noise ^= tl_noise << 17;
        int k = tl_noise % 100;
        if (k < yield_pct) { if ((tl_noise >> 20) % 8 == 0) usleep((tl_noise >> 24) % 60); else sched_yield(); }
    }
    std::shared_ptr<const State> MonEnv::get_initial_state_itfc() const { if (on_call) on_call("init", -1, -1); return mk_state(spec, spec.init); }
    bool MonEnv::is_sink_state_itfc(std::shared_ptr<const State> s) const {
        int k = state_id(spec, *s);
        if (k < 0) { if (mon) mon->bad_env_arg("is_sink_state"); return true; }
        return spec.sink[k];
    }
    std::shared_ptr<ActionVector> MonEnv::get_valid_actions_itfc(std::shared_ptr<const State> s) const {
        auto v = std::make_shared<ActionVector>();
        int k = state_id(spec, *s);
        if (k < 0) { if (mon) mon->bad_env_arg("get_valid_actions"); return v; }
        if (on_call) on_call("actions", k, -1);
        for (int a : spec.acts[k]) v->push_back(mk_action(spec, a));
        return v;
    }
    std::shared_ptr<StateDistr> MonEnv::get_transition_distribution_itfc(std::shared_ptr<const State> s, std::shared_ptr<const Action> a) const {
        perturb();
        auto d = std::make_shared<StateDistr>();
        int k = state_id(spec, *s), j = action_id(spec, *a);
        if (k < 0 || !spec.legal(k, j)) { if (mon) mon->bad_env_arg("get_transition_distribution"); d->insert_or_assign(mk_state(spec, spec.init), 1.0); return d; }
        for (auto& o : spec.tr.at({k, j})) d->insert_or_assign(mk_state(spec, o.s2), o.p);
        return d;
    }
    std::shared_ptr<const State> MonEnv::sample_transition_distribution_itfc(std::shared_ptr<const State> s, std::shared_ptr<const Action> a, RandManager& rm) const {
        perturb();
        int k = state_id(spec, *s), j = action_id(spec, *a);
        if (k < 0 || !spec.legal(k, j)) { if (mon) mon->bad_env_arg("sample_transition_distribution"); return mk_state(spec, spec.init); }
        if (on_call) on_call("step", k, j);
        double u = rm.get_rand_uniform(), c = 0;
        const auto& v = spec.tr.at({k, j});
        for (auto& o : v) { c += o.p; if (u < c) return mk_state(spec, o.s2); }
        return mk_state(spec, v.back().s2);
    }
    double MonEnv::get_reward_itfc(std::shared_ptr<const State> s, std::shared_ptr<const Action> a, std::shared_ptr<const Observation> o) const {
        perturb();
        int k = state_id(spec, *s), j = action_id(spec, *a), q = o ? state_id(spec, *o) : -1;
        if (k < 0 || !spec.legal(k, j)) { if (mon) mon->bad_env_arg("get_reward"); return 0.0; }
        if (on_reward && o) on_reward(k, j, q);
        return spec.reward(k, j, q);
    }
    std::shared_ptr<ThtsEnvContext> MonEnv::sample_context_itfc(std::shared_ptr<const State> s) const {
        if (on_call) on_call("context", s ? state_id(spec, *s) : -1, -1);
        if (!mon) return std::make_shared<ThtsEnvContext>();
        auto c = std::make_shared<MonContext>(mon);
        mon->trial_begin(*c, s ? state_id(spec, *s) : -1);
        if (C().want("P08") || C().want("P19")) {
            auto d = ThtsEnv::sample_context_itfc(s); std::lock_guard<std::mutex> g(ctx_mu);
            if (!d || d == last_default) for (auto p : {"P08", "P19"}) C().violate(p, "trials share a context", "the default context of a trial is that of another trial");
            last_default = d;
        }
        perturb();
        return c;
    }

    double mon_heuristic(std::shared_ptr<const State> s, std::shared_ptr<ThtsEnv> env) {
        auto& e = static_cast<MonEnv&>(*env);
        int k = state_id(e.spec, *s);
        if (k < 0) { if (e.mon) e.mon->bad_env_arg("heuristic"); return 0.0; }
        if (e.spec.sink[k] && e.mon) e.mon->heur_sink_calls++;
        return e.spec.heur[k];
    }
    std::shared_ptr<ActionPrior> mon_prior(std::shared_ptr<const State> s, std::shared_ptr<ThtsEnv> env) {
        auto& e = static_cast<MonEnv&>(*env);
        auto p = std::make_shared<ActionPrior>();
        int k = state_id(e.spec, *s);
        if (k < 0) { if (e.mon) e.mon->bad_env_arg("prior"); return p; }
        for (auto& x : e.spec.prior[k]) p->insert_or_assign(mk_action(e.spec, x.first), x.second);
        return p;
    }

    Solved solve(const Spec& sp, int s, int depth, int max_depth, bool two_player, int t, bool use_heur) {
        Solved r; r.v = 0;
        if (sp.sink[s]) return r;
        if (depth >= max_depth) { r.v = use_heur ? sp.heur[s] : 0.0; return r; }
        bool opp = two_player && (t & 1);
        bool first = true;
        for (int a : sp.acts[s]) {
            double q = sp.rew.at({s, a});
            for (auto& o : sp.tr.at({s, a})) {
                auto it = sp.obs_rew.find({s, a, o.s2});
                q += o.p * ((it == sp.obs_rew.end() ? 0.0 : it->second) + solve(sp, o.s2, depth + 1, max_depth, two_player, t + 1, use_heur).v);
            }
            r.q[a] = q;
            if (first || (opp ? q < r.v : q > r.v)) r.v = q;
            first = false;
        }
        for (auto& x : r.q) if (std::fabs(x.second - r.v) < 1e-9) r.best.push_back(x.first);
        return r;
    }
}
