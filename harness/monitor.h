// Online monitors: subclasses of the library's own nodes that record every visit, choice, sample and backup at the
// virtual interface, and check them against an independently written reference.
#pragma once
#include "core.h"
#include "mdp.h"
#include "thts.h"
#include "thts_chance_node.h"
#include "thts_decision_node.h"
#include "thts_logger.h"
#include <typeinfo>

namespace vm {
    enum Alg { UCT, PUCT, MENTS, DBMENTS, RENTS, TENTS, DENTS, EST, NALG };
    extern const char* alg_name[];
    inline bool is_uct(Alg a) { return a == UCT || a == PUCT; }
    inline bool has_soft(Alg a) { return a == MENTS || a == DBMENTS || a == RENTS || a == TENTS; }
    inline bool has_dp(Alg a) { return a == DBMENTS || a == DENTS || a == EST; }
    inline bool has_emp(Alg a) { return a == DENTS || a == EST; }

    struct AlgCfg {
        Alg alg = UCT;
        int max_depth = 1 << 30;
        bool mcts = true, two_player = false, tt = false;
        int tt_mutexes = 1;
        int seed = 1;
        int heur = 0;        // 0: library default (zero), 1: problem heuristic, 2: none
        bool prior = false;
        // UCT / PUCT
        double bias = -1.0; int pseudo = 0; bool rec_mv = true; double eps = 0.0; double puct_power = 0.5;
        // MENTS family
        double temp = 1.0, ppsw = 0.0, epsilon = 0.5, root_eps = -1.0, max_explore = 1.0;
        int decay = 0; double min_temp = 1e-6, vscale = 1.0, root_vscale = -1.0;
        double defq = 0.0; bool shift = false; double offset = 0.0; int rec_thresh = 0;
        // DENTS / EST
        int vdecay = 1; double vtemp = 1.0, vmin = 1e-6, vvscale = 1.0, vroot = -1.0; bool use_dp = true;
        uint64_t set = ~0ull; bool full = false;    // which options are given at all (bit per option, see algos.h); full: absent functions are given too
        std::string desc() const;
    };
    struct CfgOpts { bool allow_tt = true, allow_two = true, allow_prior = true, allow_decay = true, allow_eps0 = true; double vscale = 1.0; };
    AlgCfg gen_cfg(Rng& r, Alg a, const CfgOpts& o);
    static const int NOPTS = 33;
    AlgCfg omitted(const AlgCfg& c, uint64_t set);  // the configuration meant when only the options in set are given: declared defaults otherwise

    struct DStat { int visits = 0, nb = 0, dp_nb = 0, ent_nb = 0, emp_nb = 0; double avg = 0, soft = 0, dp = 0, ent = 0, lent = 0, emp = 0, heur = 0; };
    struct CStat { int visits = 0, nb = 0, dp_nb = 0, ent_nb = 0, emp_nb = 0; double avg = 0, soft = 0, dp = 0, ent = 0, emp = 0; };

    struct Ops {
        virtual ~Ops() = default;
        virtual std::shared_ptr<ThtsManager> make_manager(const AlgCfg&, std::shared_ptr<ThtsEnv>) = 0;
        // two managers from one arguments object that is changed to a third configuration afterwards
        virtual std::pair<std::shared_ptr<ThtsManager>, std::shared_ptr<ThtsManager>> make_managers(const AlgCfg&, const AlgCfg& later, std::shared_ptr<ThtsEnv>) = 0;
        virtual std::shared_ptr<ThtsDNode> make_root(std::shared_ptr<ThtsManager>, std::shared_ptr<const State>, int depth, int timestep, bool monitored) = 0;
        virtual DStat dstat(const ThtsDNode&) = 0;
        virtual CStat cstat(const ThtsCNode&) = 0;
        virtual bool policy(const ThtsDNode&, ActionDistr&, ThtsEnvContext&) = 0;   // false if the algorithm has none
        virtual double temp(const ThtsDNode&) = 0;                                  // NAN if the algorithm has none
        virtual double value_temp(const ThtsDNode&) = 0;
        virtual double value_temp(const ThtsCNode&) = 0;
        virtual const std::type_info& dtype(bool monitored) = 0;
        virtual const std::type_info& ctype(bool monitored) = 0;
        virtual std::shared_ptr<ThtsLogger> make_logger() = 0;
    };
    Ops& ops(Alg a);

    // random manager with scheduling noise is provided by the environment; managers are the library's own
    struct MonDBase;
    struct MonCBase;

    // What really happened at a node, counted at the interface. Updated under the node's own lock.
    struct NodeShadow { long started = 0; std::atomic<long> ended{0}; long backups = 0, leaf_visits = 0, at_last_backup = 0; long double ret_sum = 0; double ret_abs = 0; };
    struct Ev {
        enum K { VD, SEL, VC, SMP, BC, BD } k;
        const void* node; int id = -1;               // id: action chosen / outcome sampled
        bool dnode = true; int sid = -1, aid = -1, depth = 0; bool leaf = false, fresh = false;
        int before_children = 0, after_children = 0;
        const void* next = nullptr;                  // child the choice or sample leads to
        NodeShadow* sh = nullptr;
        std::vector<double> rb, ra; double ret_after = 0, ret = 0;
    };
    class MonContext : public ThtsEnvContext {
        public:
            Mon* mon; int root_state = -1;
            std::vector<Ev> evs;
            long trial_no = -1;
            std::map<int, std::map<int,double>> policy_at_depth;    // reference policy used at each depth of this trial
            std::map<int,int> sel_at_depth;
            const void* thread_tag = nullptr;
            int created = 0;                                         // decision nodes created during this trial
            int n_back = 0;                                          // backups seen so far
            explicit MonContext(Mon* m) : mon(m) {}
            ~MonContext() override;
    };

    struct MonDBase {
        static std::atomic<long> live;
        NodeShadow sh; Mon* mon = nullptr; int sid = -1; bool leaf = false;
        std::map<int,double> tents_q;     // action values the node knows (as of the last backup)
        std::map<int,long> sel_count;
        bool is_tents_init = false;
        MonDBase() { live++; }
        virtual ~MonDBase() { live--; }
    };
    struct MonCBase {
        static std::atomic<long> live;
        NodeShadow sh; Mon* mon = nullptr; int sid = -1, aid = -1;
        std::map<int,long> smp_count;
        MonCBase() { live++; }
        virtual ~MonCBase() { live--; }
    };

    struct Mon {
        Spec* spec = nullptr; AlgCfg cfg; Ops* op = nullptr;
        bool single = true;                 // one worker: value equations may be checked right after each backup
        bool check_values = true;
        bool interleaved = false;           // several trials are advanced in turns by one thread (no thread check)
        std::mutex mu;
        std::atomic<long> begun{0}, done{0}, heur_sink_calls{0};
        std::atomic<long> running{0};
        std::atomic<long> max_running{0};
        const void* root = nullptr; int root_depth = 0, root_t = 0;
        std::function<void(MonContext&)> on_begin, on_end;
        std::atomic<uint64_t> trace_hash{0};

        bool opp(int timestep) const { return cfg.two_player && (timestep & 1); }
        void bad_env_arg(const char* where);
        double true_after(MonContext&, int step) const;               // return from decision `step` of the walk on
        double true_heur(int sid) const { return cfg.heur == 1 && !spec->sink[sid] ? spec->heur[sid] : 0.0; }
        int pseudo() const { return is_uct(cfg.alg) && cfg.heur != 2 ? cfg.pseudo : 0; }
        void trial_begin(MonContext&, int s);
        void trial_end(MonContext&);
        void init_d(ThtsDNode&, MonDBase&);
        void init_c(ThtsCNode&, MonCBase&);
        MonContext* ctx_of(ThtsEnvContext&, const char* where);
        void on_visit_d(ThtsDNode&, MonDBase&, ThtsEnvContext&);
        void post_visit_d(ThtsDNode&, MonDBase&, int visits_before);
        void pre_select(ThtsDNode&, MonDBase&, ThtsEnvContext&, struct SelPre&);
        void post_select(ThtsDNode&, MonDBase&, ThtsEnvContext&, SelPre&, const Action&);
        void on_visit_c(ThtsCNode&, MonCBase&, ThtsEnvContext&);
        void post_visit_c(ThtsCNode&, MonCBase&, int visits_before);
        void post_sample(ThtsCNode&, MonCBase&, ThtsEnvContext&, int before, const Observation&);
        void pre_backup(bool dnode, const void* node, ThtsEnvContext&, const std::vector<double>& rb, const std::vector<double>& ra, double after, double total);
        void post_backup_d(ThtsDNode&, MonDBase&, ThtsEnvContext&, double after);
        void post_backup_c(ThtsCNode&, MonCBase&, ThtsEnvContext&, double after);
        void check_trial(MonContext&);
        void check_child_ref_c(const ThtsDNode& parent, const Action& a, const ThtsCNode& made, const std::type_info& expect);
        void check_child_ref_d(const ThtsCNode& parent, const Observation& o, const ThtsDNode& made, const std::type_info& expect);
    };
    struct SelPre { int nchildren = 0; bool have = false, exact_tie = false; std::vector<int> argmax; std::map<int,double> ref; };

    // reference formulas -----------------------------------------------------------------------------------------
    typedef std::map<int,double> Vals;
    double ref_decay(int kind, double x);
    double ref_temp(const AlgCfg&, int visits, bool root);
    double ref_vtemp(const AlgCfg&, int visits, bool root);
    double ref_log_weight(double w);
    double ref_prior_q(const AlgCfg&, const Spec&, int s, int a);
    struct Eq { const char* prop; const char* what; double got, want, tol; };
    void ref_eqs_d(Mon&, ThtsDNode&, long N, const Vals* parent, std::vector<Eq>&);
    void ref_eqs_c(Mon&, ThtsCNode&, std::vector<Eq>&);
    Vals ref_q(Mon&, ThtsDNode&, long N);                                         // from the mover's point of view
    Vals ref_own_policy(Mon&, ThtsDNode&, const Vals& q, long N, const Vals* parent, bool& degenerate);
    Vals ref_mixed_policy(Mon&, ThtsDNode&, const Vals& own, long N);
    Vals ref_sparsemax(const Vals& z);
    double ref_spmax(const Vals& z);
    double ref_lse(const Vals& q, double T);
    MonDBase& dbase(const ThtsDNode&);
    MonCBase& cbase(const ThtsCNode&);
    std::shared_ptr<ThtsCNode> child_of(const ThtsDNode&, const Spec&, int a);     // null if absent
    std::shared_ptr<ThtsDNode> child_of(const ThtsCNode&, const Spec&, int s2);

    // Statistics of choices and samples, shared by the cases of one run. Each is fed with the probability integral
    // transform of the choice, under three orderings (by identity, by probability, by how often chosen before).
    struct Pit3 { Pit id, prob, cnt; double worst() const { return std::max(id.worst(), std::max(prob.worst(), cnt.worst())); } };
    struct Acc {
        Pit3 sel, smp, tie, lag;
        static constexpr int NC = 22; Pit3 selc[NC], smpc[NC];            // the same draws, split by what was known before the draw
        std::mutex mu; double in_obs = 0, in_exp = 0, in_var = 0; long in_n = 0; double eps_obs_off = 0;
        std::vector<double> last_u; std::atomic<uint64_t> v{1};
        double aux() { return Rng(v.fetch_add(1)).u(); }             // auxiliary uniform for randomised transforms
    };
    Acc& acc();
    // value equations of every node of a finished, table-free search (any number of threads)
    void check_tree_values(Mon&, const std::shared_ptr<ThtsDNode>& root);
    // visit, count and structure conservation at rest
    void check_tree_counts(Mon&, const std::shared_ptr<ThtsDNode>& root, long trials);
    void check_tree_structure(Mon&, const std::shared_ptr<ThtsDNode>& root, bool monitored);

    // monitored node classes -------------------------------------------------------------------------------------
    inline Mon* mon_of(ThtsManager& m) { return static_cast<MonEnv&>(*m.thts_env).mon; }

    // the parent link, whichever kind of pointer holds it
    template <class P> auto parent_ptr(const P& p) { if constexpr (requires { p.lock(); }) return p.lock(); else return p; }

    template <class A> class MonC;
    template <class A> class MonD : public A::D, public MonDBase {
        public:
            MonD(std::shared_ptr<typename A::M> m, std::shared_ptr<const State> s, int dd, int dt, std::shared_ptr<const typename A::C> parent = nullptr)
                : A::D(m, s, dd, dt, parent) { mon = mon_of(*m); mon->init_d(*this, *this); }
            void visit_itfc(ThtsEnvContext& ctx) override {
                int v = this->num_visits;
                mon->on_visit_d(*this, *this, ctx);
                A::D::visit_itfc(ctx);
                mon->post_visit_d(*this, *this, v);
            }
            std::shared_ptr<const Action> select_action_itfc(ThtsEnvContext& ctx) override {
                SelPre p; mon->pre_select(*this, *this, ctx, p);
                std::shared_ptr<const Action> a = A::D::select_action_itfc(ctx);
                mon->post_select(*this, *this, ctx, p, *a);
                return a;
            }
            void backup_itfc(const std::vector<double>& rb, const std::vector<double>& ra, const double after, const double total, ThtsEnvContext& ctx) override {
                mon->pre_backup(true, static_cast<ThtsDNode*>(this), ctx, rb, ra, after, total);
                A::D::backup_itfc(rb, ra, after, total, ctx);
                mon->post_backup_d(*this, *this, ctx, after);
            }
            std::shared_ptr<ThtsCNode> create_child_node_helper_itfc(std::shared_ptr<const Action> a) const override {
                std::shared_ptr<ThtsCNode> ref = A::D::create_child_node_helper_itfc(a);
                mon->check_child_ref_c(*this, *a, *ref, typeid(typename A::C));
                auto par = std::static_pointer_cast<const typename A::D>(parent_ptr(ref->parent));
                return std::make_shared<MonC<A>>(std::static_pointer_cast<typename A::M>(ref->thts_manager), ref->state, ref->action,
                    ref->decision_depth, ref->decision_timestep, par);
            }
    };
    template <class A> class MonC : public A::C, public MonCBase {
        public:
            MonC(std::shared_ptr<typename A::M> m, std::shared_ptr<const State> s, std::shared_ptr<const Action> a, int dd, int dt, std::shared_ptr<const typename A::D> parent = nullptr)
                : A::C(m, s, a, dd, dt, parent) { mon = mon_of(*m); mon->init_c(*this, *this); }
            void visit_itfc(ThtsEnvContext& ctx) override {
                int v = this->num_visits;
                mon->on_visit_c(*this, *this, ctx);
                A::C::visit_itfc(ctx);
                mon->post_visit_c(*this, *this, v);
            }
            std::shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& ctx) override {
                int before = this->get_num_children();
                auto o = A::C::sample_observation_itfc(ctx);
                mon->post_sample(*this, *this, ctx, before, *o);
                return o;
            }
            void backup_itfc(const std::vector<double>& rb, const std::vector<double>& ra, const double after, const double total, ThtsEnvContext& ctx) override {
                mon->pre_backup(false, static_cast<ThtsCNode*>(this), ctx, rb, ra, after, total);
                A::C::backup_itfc(rb, ra, after, total, ctx);
                mon->post_backup_c(*this, *this, ctx, after);
            }
            std::shared_ptr<ThtsDNode> create_child_node_helper_itfc(std::shared_ptr<const Observation> o, std::shared_ptr<const State> ns = nullptr) const override {
                std::shared_ptr<ThtsDNode> ref = A::C::create_child_node_helper_itfc(o, ns);
                mon->check_child_ref_d(*this, *o, *ref, typeid(typename A::D));
                auto par = std::static_pointer_cast<const typename A::C>(parent_ptr(ref->parent));
                return std::make_shared<MonD<A>>(std::static_pointer_cast<typename A::M>(ref->thts_manager), ref->state, ref->decision_depth, ref->decision_timestep, par);
            }
    };

    // One search instance: problem, environment, manager, root, monitor
    struct World {
        std::shared_ptr<MonEnv> env;
        AlgCfg cfg; Mon mon;
        std::shared_ptr<ThtsManager> mgr;
        std::shared_ptr<ThtsDNode> root;
        bool monitored;
        World(const Spec& sp, const AlgCfg& c, bool monitored = true, int root_t = 0);
        ~World();
        void new_root(int root_t = 0, int depth = 0);
        std::string desc() const { return cat(alg_name[cfg.alg], " ", cfg.desc(), " | ", env->spec.desc()); }
    };
    // visit all nodes reachable from the root once
    void walk(const std::shared_ptr<ThtsDNode>& root, const std::function<void(ThtsDNode&)>& fd, const std::function<void(ThtsCNode&)>& fc);
    uint64_t tree_hash(Ops&, const Spec&, const std::shared_ptr<ThtsDNode>& root);
    std::string tree_dump(Ops&, const Spec&, const std::shared_ptr<ThtsDNode>& root);
}
