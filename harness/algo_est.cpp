#include "algos.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/ments/dbments_logger.h"
namespace vm {
    struct A_est {
        typedef EstDNode D; typedef EstCNode C; typedef DentsManager M; typedef DentsManagerArgs Args;
        static void fill(Args& a, const AlgCfg& c) { fill_dents(a, c); }
        static void fill_d(DStat& s, const D& n) { s.nb = nb_of<MentsDNode>(n); s.soft = n.soft_value; s.dp_nb = nb_of<DPDNode>(n); s.dp = n.dp_value; s.ent_nb = nb_of<EntDNode>(n); s.ent = n.subtree_entropy; s.lent = lent_of(n); s.emp_nb = nb_of<EmpNode>(n); s.emp = n.avg_return; }
        static void fill_c(CStat& s, const C& n) { s.nb = nb_of<MentsCNode>(n); s.soft = n.soft_value; s.dp_nb = nb_of<DPCNode>(n); s.dp = n.dp_value; s.ent_nb = nb_of<EntCNode>(n); s.ent = n.subtree_entropy; s.emp_nb = nb_of<EmpNode>(n); s.emp = n.avg_return; }
        static bool policy(const D& n, ActionDistr& d, ThtsEnvContext& ctx) { return policy_of(n, d, ctx); }
        static std::shared_ptr<ThtsLogger> logger() { return std::make_shared<DBMentsLogger>(); }
    };
    Ops* make_ops_est() { return new OpsT<A_est>(); }
}
