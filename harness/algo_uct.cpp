#include "algos.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_logger.h"
namespace vm {
    struct A_uct {
        typedef UctDNode D; typedef UctCNode C; typedef UctManager M; typedef UctManagerArgs Args;
        static void fill(Args& a, const AlgCfg& c) { fill_uct(a, c); }
        static void fill_d(DStat& s, const D& n) { s.nb = nb_of<std::remove_cvref_t<decltype(n)>>(n); s.avg = n.avg_return; }
        static void fill_c(CStat& s, const C& n) { s.nb = nb_of<std::remove_cvref_t<decltype(n)>>(n); s.avg = n.avg_return; }
        static bool policy(const D& n, ActionDistr& d, ThtsEnvContext& ctx) { return false; }
        static std::shared_ptr<ThtsLogger> logger() { return std::make_shared<UctLogger>(); }
    };
    Ops* make_ops_uct() { return new OpsT<A_uct>(); }
}
