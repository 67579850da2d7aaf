#include "algos.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_logger.h"
namespace vm {
    struct A_ments {
        typedef MentsDNode D; typedef MentsCNode C; typedef MentsManager M; typedef MentsManagerArgs Args;
        static void fill(Args& a, const AlgCfg& c) { fill_ments(a, c); }
        static void fill_d(DStat& s, const D& n) { s.nb = nb_of<MentsDNode>(n); s.soft = n.soft_value; }
        static void fill_c(CStat& s, const C& n) { s.nb = nb_of<MentsCNode>(n); s.soft = n.soft_value; }
        static bool policy(const D& n, ActionDistr& d, ThtsEnvContext& ctx) { return policy_of(n, d, ctx); }
        static std::shared_ptr<ThtsLogger> logger() { return std::make_shared<MentsLogger>(); }
    };
    Ops* make_ops_ments() { return new OpsT<A_ments>(); }
}
