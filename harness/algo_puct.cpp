#include "algos.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/uct/uct_logger.h"
namespace vm {
    struct A_puct {
        typedef PuctDNode D; typedef PuctCNode C; typedef PuctManager M; typedef PuctManagerArgs Args;
        static void fill(Args& a, const AlgCfg& c) { fill_uct(a, c); if (given(c, 11)) a.puct_power = c.puct_power; }
        static void fill_d(DStat& s, const D& n) { s.nb = nb_of<std::remove_cvref_t<decltype(n)>>(n); s.avg = n.avg_return; }
        static void fill_c(CStat& s, const C& n) { s.nb = nb_of<std::remove_cvref_t<decltype(n)>>(n); s.avg = n.avg_return; }
        static bool policy(const D& n, ActionDistr& d, ThtsEnvContext& ctx) { return false; }
        static std::shared_ptr<ThtsLogger> logger() { return std::make_shared<UctLogger>(); }
    };
    Ops* make_ops_puct() { return new OpsT<A_puct>(); }
}
