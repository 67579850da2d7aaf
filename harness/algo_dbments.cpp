#include "algos.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_logger.h"
namespace vm {
    struct A_dbments {
        typedef DBMentsDNode D; typedef DBMentsCNode C; typedef MentsManager M; typedef MentsManagerArgs Args;
        static void fill(Args& a, const AlgCfg& c) { fill_ments(a, c); }
        static void fill_d(DStat& s, const D& n) { s.nb = nb_of<MentsDNode>(n); s.soft = n.soft_value; s.dp_nb = nb_of<DPDNode>(n); s.dp = n.dp_value; }
        static void fill_c(CStat& s, const C& n) { s.nb = nb_of<MentsCNode>(n); s.soft = n.soft_value; s.dp_nb = nb_of<DPCNode>(n); s.dp = n.dp_value; }
        static bool policy(const D& n, ActionDistr& d, ThtsEnvContext& ctx) { return policy_of(n, d, ctx); }
        static std::shared_ptr<ThtsLogger> logger() { return std::make_shared<DBMentsLogger>(); }
    };
    Ops* make_ops_dbments() { return new OpsT<A_dbments>(); }
}
