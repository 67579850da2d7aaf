#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (kept as data so the list stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

POOL = "src/thts.cpp"
p("P01", "A search call runs exactly its trial budget",
  "A blocking search call with a budget of n trials and no time limit performs exactly n complete trials: the root is visited n more times than before, and each trial is one selection walk followed by its backups. Neither the number of worker threads nor how their steps interleave, nor earlier or later search calls on the same pool, changes the count; a budget of zero or less performs none.",
  ["schedules", "histories", "configurations"], "all thread counts, all interleavings of workers, all sequences of search calls (blocking or not) on one pool",
  "The pool's own thread tests are excluded as unreliable and the integration tests never count trials; no test varies the interleaving.",
  [POOL, "include/thts.h"], [("budget taken one at a time under the work lock", POOL + ":worker_fn"), ("budget set by a search call", POOL + ":run_trials")],
  [("trials_remaining", "trials not yet taken by a worker", "include/thts.h")], ["root visit count after a blocking call", "start/end events of trials at the environment boundary"])
p("P02", "Waiting for a search always returns, and only when the search is idle",
  "Whenever the trial budget or the time limit of a search is exhausted, every blocking search call and every join returns, and destroying the pool returns too, whatever the interleaving. None of them returns while a trial of that search is still running, and no trial runs or starts after they have returned until a new search is requested.",
  ["schedules", "histories"], "all interleavings of workers, waiters and clock advances, including a limit expiring at any point between two steps",
  "A lost wake-up needs a time limit to expire between two particular instructions; tests run a handful of schedules on an unlimited clock.",
  [POOL], [("condition variable protocol between workers and waiters", POOL + ":worker_fn"), ("waiting", POOL + ":join"), ("shutdown", POOL + ":~ThtsPool")],
  [("num_threads_working", "workers inside a trial", "include/thts.h")], ["return of run_trials/join/destructor versus in-flight trial events"])
p("P03", "No trial starts after the time limit has passed",
  "A search call with a time limit starts no trial once that much time has elapsed since the call, and keeps starting trials until then while budget remains. Trials already in progress are completed and counted normally, and a zero or negative limit starts none.",
  ["schedules", "inputs", "fault_sequences"], "all limits, budgets, thread counts and clock behaviours during the run",
  "Tests use no time limits; the limit's effect depends on when the clock is read relative to trial starts.",
  [POOL], [("deadline test against the wall clock", POOL + ":work_left"), ("deadline set", POOL + ":run_trials")], (), ["virtual clock value at every trial start"])
p("P04", "A pool can be re-used and re-targeted without mixing searches",
  "After a search has finished, giving the pool a new problem and root makes every later trial run on the new root, environment and logger only, leaving the old tree untouched; further search calls on an unchanged root continue the same tree. Re-targeting while a search still has trials to run or running is refused with an exception and changes nothing.",
  ["histories", "schedules"], "all sequences of search, join and re-target calls and all interleavings with workers",
  "There is one placeholder test of re-targeting; histories of several searches on one pool are not run.",
  [POOL], [("refuse while working, otherwise swap", POOL + ":set_new_env")], (), ["visit counts of old and new root", "exception from the re-target call"])

p("P05", "Concurrent search is free of data races",
  "Searching with any number of worker threads, with any of the provided algorithms, options, loggers and the shared-node table, and evaluating a finished tree with several rollout threads, never performs two unsynchronised conflicting accesses to memory.",
  ["schedules", "configurations"], "all interleavings of up to 8 workers over all eight algorithms and their options",
  "Tests are not run under a race detector, and a race rarely changes a test's outcome.",
  [POOL, "src/thts_decision_node.cpp", "src/thts_chance_node.cpp", "src/algorithms", "src/mc_eval.cpp", "include/thts_manager.h"],
  [("per-node mutexes held across visit/select/backup", POOL + ":run_selection_phase"), ("children locked while their values are read", "src/thts_decision_node.cpp:lock_all_children"), ("table mutexes", "src/thts_chance_node.cpp:create_child_node_itfc"), ("random generator mutex", "include/thts_manager.h:RandManager")], (), ["ThreadSanitizer reports"])
p("P06", "Concurrent search cannot deadlock",
  "With any number of worker threads and any algorithm, with or without sharing of nodes between parents, workers never wait for each other in a cycle: locks are always acquired in an order that admits no cycle and every acquired lock is released by the end of the trial.",
  ["schedules", "configurations"], "all interleavings, all algorithms, trees and shared-node graphs",
  "A cyclic wait needs two threads to be inside two particular backups at once; no test with shared nodes runs more than one thread.",
  ["src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "include/algorithms/common", "src/algorithms"],
  [("locking of all children of a node", "src/thts_chance_node.cpp:lock_all_children"), ("dynamic programming and entropy backups lock children", "include/algorithms/common/dp_chance_node.h:backup_dp")], (), ["order of lock acquisitions per thread", "locks still held at quiescence"])
p("P07", "No operation of the library corrupts memory or has undefined behaviour",
  "For every valid use of the public interface - building, searching, recommending, printing, logging, sampling, evaluating, re-using managers and pools, and destroying trees while their manager lives on - there is no out-of-bounds, use-after-free or uninitialised access, no undefined arithmetic, no leak of nodes once the last reference is gone, and no unexpected termination.",
  ["inputs", "configurations", "histories"], "all problems, options and call sequences within the documented preconditions",
  "The test build has no sanitizers, and its fixtures keep every object alive to the end.",
  ["src", "include"], [("shared ownership of nodes, weak parent links", "include/thts_decision_node.h"), ("per-trial context owned by the trial", POOL + ":run_thts_trial")], (), ["AddressSanitizer, LeakSanitizer and UBSan reports", "count of live nodes after release"])

p("P08", "Every trial is a legal walk of the problem from the root",
  "Each trial starts at the root and alternates choosing an action that is legal in the current state with sampling an outcome that the problem gives positive probability, ending in exactly one final node. Every node on the walk is visited exactly once per trial, before any choice or sample at that node, with the one context object sampled for that trial.",
  ["inputs", "configurations", "schedules"], "all problems, algorithms, options, trials and interleavings",
  "Tests check hand-made mock trees of two levels and final values of integration runs, not the events of every trial.",
  [POOL], [("selection phase loop", POOL + ":run_selection_phase"), ("context per trial", POOL + ":run_thts_trial")], (), ["visit/select/sample events at the node boundary, environment calls"])
p("P09", "Each walked node is backed up once, bottom-up, with its exact returns",
  "After the walk, every action node and decision node on it receives exactly one backup, deepest first and an action node before the decision node that chose it; no other node receives one. Each is told the trial's true rewards before and after it, their sum from that node on including the final node's heuristic value, and the whole trial's return.",
  ["inputs", "configurations", "schedules"], "all problems, walk lengths including zero, algorithms and interleavings",
  "One unit test passes a fixed two-step path through the backup phase; real reward sequences are never reconstructed.",
  [POOL], [("backup phase", POOL + ":run_backup_phase")], (), ["backup calls with their arguments, rewards reported by the environment"])
p("P10", "Trees grow one outcome per trial, and never past a leaf",
  "With tree-search mode on, a trial adds at most one new decision node and stops there, so it ends at a newly added node, a terminal state or the depth limit; with the mode off it always continues to a terminal state or the depth limit. Decision nodes at a terminal state or at the depth limit never choose an action or gain children.",
  ["inputs", "configurations", "histories"], "all problems, depth limits including zero, modes and trial numbers",
  "Tests check the stop predicate on mocks only.",
  [POOL, "src/thts_decision_node.cpp"], [("stop predicate", POOL + ":should_continue_selection_phase"), ("leaf test", "src/thts_decision_node.cpp:is_leaf")], (), ["nodes created per trial, kind of final node"])
p("P11", "Visit counts are conserved through the tree",
  "At rest, a node's visit count equals the number of trials whose walk contained it: an action node's visits equal the sum of its outcomes' visits from it, a decision node's visits equal its action nodes' visits plus the trials that ended there, and the root's equal the trials run, on top of any configured initial pseudo-visits. No visit is lost or double counted under any concurrency.",
  ["schedules", "histories", "configurations"], "all algorithms, thread counts, budgets and interleavings",
  "No test sums counts over a tree, and lost updates only appear under particular interleavings.",
  ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp", POOL], [("counting in visit", "src/thts_decision_node.cpp:visit_itfc")], [("num_visits", "visits of a node", "include/thts_decision_node.h")], ["counts read at quiescence versus event log"])
p("P12", "The tree mirrors the problem",
  "Every action node hanging off a decision node corresponds to a distinct legal action of its state and every decision node below it to a distinct outcome with positive probability, looked up by value rather than object identity; depth and time step increase by exactly one per decision and every node belongs to the same algorithm and manager as the root. Asking for an existing child returns the same node, and creating it again changes nothing.",
  ["inputs", "configurations", "histories"], "all problems, state/action representations, algorithms, repeated child creations",
  "Tests look at one or two levels of a fixed grid with shared pointers that are identical objects.",
  ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp", "src/algorithms"], [("child creation", "src/thts_decision_node.cpp:create_child_node_itfc"), ("per algorithm child factories", "src/algorithms/*:create_child_node_helper")], (), ["walk of the finished tree"])
p("P13", "With the shared-node table, equal outcomes at a time step are one node",
  "When the shared-node table is enabled, all paths that reach the same observation at the same time step lead to one and the same decision node, and different observations or time steps never share one, under any number of threads and table locks; when disabled no node has two parents. The table does not keep trees alive, and after a tree is released the manager can build and search a new one that shares nothing with it.",
  ["schedules", "histories", "configurations"], "all problems with converging paths, thread counts, numbers of table mutexes, histories of trees per manager",
  "One mock test inspects table insertions; no test releases a tree or uses threads with the table.",
  ["src/thts_chance_node.cpp", "include/thts_manager.h"], [("table lookup and insertion", "src/thts_chance_node.cpp:create_child_node_itfc")], [("dmap", "(time step, observation) to node", "include/thts_manager.h")], ["identity of nodes reached by different paths"])

p("P14", "UCT and PUCT values are the averages of the returns backed up",
  "After any trials, the value of each decision and action node of UCT and PUCT is the arithmetic mean of the returns obtained from that node on in the trials backed up through it, where a decision node additionally counts its heuristic value as the configured number of pseudo-trials.",
  ["inputs", "histories", "schedules"], "all sequences and magnitudes of returns, pseudo-trial counts, interleavings",
  "Unit tests average a few hand-picked numbers; integration tests compare printed trees loosely.",
  ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/uct_chance_node.cpp"], [("running mean", "src/algorithms/uct/uct_decision_node.cpp:backup_average_return")], (), ["node values at rest versus logged returns"])
p("P15", "UCT and PUCT select by the documented upper confidence rule",
  "Without a prior, untried actions are chosen before any tried one is repeated; otherwise the chosen action maximises value (negated for the opponent) plus bias times exploration term times prior if given, where UCT's term is sqrt(log N / n) and PUCT's is N^power / n with counts of at least one, and the automatic bias is the largest absolute child value but at least 0.001. With exploration probability epsilon a uniformly random legal action is chosen instead, and ties are broken uniformly.",
  ["inputs", "configurations", "histories"], "all node states reachable by search, all biases, priors, epsilons, player sides",
  "Tests compute a few formula values and one selection on a fixed tree.",
  ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/puct_decision_node.cpp"], [("ucb values and selection", "src/algorithms/uct/uct_decision_node.cpp:select_action_ucb"), ("puct term", "src/algorithms/uct/puct_decision_node.cpp:compute_ucb_term")], (), ["state before each selection and the action chosen"])
p("P16", "UCT and PUCT recommend the configured best action",
  "The recommended action is always legal; it is a most visited child, or, when so configured, a child with the best average return for the player to move (lowest for the opponent), ties broken at random, and a uniformly random legal action only when nothing has been tried. Recommending never changes the tree.",
  ["inputs", "configurations", "histories"], "all trees produced by search, both options, both players, partially expanded nodes",
  "Tests check single hand-built nodes.",
  ["src/algorithms/uct/uct_decision_node.cpp"], [("recommendations", "src/algorithms/uct/uct_decision_node.cpp:recommend_action")], (), ["recommended action versus child statistics"])
p("P17", "MENTS values satisfy the soft Bellman equations",
  "After each backup of MENTS or DB-MENTS, a decision node's soft value equals the temperature times the log-sum-exp of its action values over the temperature (its negated, mirrored form for the opponent), with untried actions taking their default or prior-derived value, and an action node's soft value is its reward plus the average of its outcomes' soft values weighted by how often each was backed up. Computed values are finite whenever the inputs are, at every value scale and temperature.",
  ["inputs", "configurations", "histories"], "all value magnitudes, temperatures, priors, player sides and backup histories",
  "Unit tests evaluate one or two nodes at moderate magnitudes.",
  ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/ments_chance_node.cpp"], [("soft backup", "src/algorithms/ments/ments_decision_node.cpp:backup_soft"), ("chance backup", "src/algorithms/ments/ments_chance_node.cpp:backup_soft")], (), ["values before and after every backup"])
p("P18", "Entropy-based search policies are proper mixes as documented",
  "In every visited node of the entropy-based algorithms the action probabilities are non-negative, sum to one (up to dropping masses below 1e-16) and equal (1-lambda) times the algorithm's own policy, mixed with the prior by the configured decaying weight when enabled, plus lambda times uniform, where lambda is epsilon / log(N+1) capped at the configured maximum and the root may use its own epsilon. For MENTS, DB-MENTS, DENTS and EST the own policy is Boltzmann in the action values over the current temperature, and the actions search takes are distributed accordingly.",
  ["inputs", "configurations", "histories"], "all reachable node states, epsilons including zero, temperatures, priors, value scales",
  "Tests compare one or two distributions and never the sampled actions.",
  ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp", "src/algorithms/est/est_decision_node.cpp"], [("action distribution", "src/algorithms/ments/ments_decision_node.cpp:compute_action_distribution")], (), ["distribution at each selection, frequency of selected actions"])
p("P19", "RENTS regularises towards the policy used one decision earlier in the trial",
  "In RENTS each non-root node's policy and backup weigh every action by the probability that the search policy of the previous decision in the same trial gave that action (zero if it had none, uniform if nothing is left), the root's being plain Boltzmann; the soft value is temperature times the log of the weighted exponential sum. Concurrent trials never see each other's policies.",
  ["inputs", "schedules", "configurations"], "all problems incl. differing action sets, depths, interleavings of trials",
  "Tests use one fixed context on one node.",
  ["src/algorithms/ments/rents/rents_decision_node.cpp"], [("policy passed through the trial context", "src/algorithms/ments/rents/rents_decision_node.cpp:get_parent_distr_from_context"), ("weights", "src/algorithms/ments/rents/rents_decision_node.cpp:compute_action_weights")], (), ["policies recorded along each trial"])
p("P20", "TENTS policies and values follow sparsemax",
  "In TENTS the search policy is the sparsemax projection of the action values over temperature (mixed with uniform like the other entropy algorithms), so it gives zero own-policy mass to clearly worse actions, and a decision node's value after a backup is temperature times the sparsemax conjugate of the action values known to the node at their latest backups, mirrored for the opponent.",
  ["inputs", "configurations", "histories"], "all value vectors incl. ties, scales, temperatures, player sides, backup orders",
  "Tests use one fixed set of values.",
  ["src/algorithms/ments/tents/tents_decision_node.cpp"], [("sorted value cache", "src/algorithms/ments/tents/tents_decision_node.cpp:update_maps"), ("sparsemax", "src/algorithms/ments/tents/tents_decision_node.cpp:spmax")], (), ["policy and value at each selection and backup"])
p("P21", "Dynamic-programming values are Bellman backups of the explored tree",
  "In DB-MENTS, and in DENTS and EST when so configured, after each backup a decision node's value is the maximum (minimum for the opponent) over its backed-up actions' values and an action node's value is its reward plus the average of its outcomes' values weighted by their backup counts, a fresh decision node standing for its heuristic value with weight one and terminal or depth-limited nodes gaining weight with every visit.",
  ["inputs", "configurations", "histories"], "all problems, histories of backups, player sides, value signs",
  "Tests back up a few fixed children.",
  ["src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/dp_chance_node.cpp"], [("dp backups", "src/algorithms/common/dp_decision_node.cpp:backup_dp_impl")], (), ["values around every backup"])
p("P22", "DENTS adds decaying subtree entropy to values; EST uses values alone",
  "In DENTS a node's subtree entropy after a backup is its current search policy's entropy (negated for the opponent) plus the policy-weighted subtree entropy of its actions, whose own is the backup-weighted average over outcomes, and actions are ranked by value estimate plus the current value temperature times subtree entropy. The value estimate is the dynamic-programming value or the mean backed-up return, as configured; EST ranks by that estimate only, and all these numbers stay finite.",
  ["inputs", "configurations", "histories"], "all problems, options, temperatures, epsilons incl. zero, histories",
  "Tests check isolated entropy sums.",
  ["src/algorithms/common/ent_decision_node.cpp", "src/algorithms/common/ent_chance_node.cpp", "src/algorithms/ments/dents", "src/algorithms/est"], [("entropy backups", "src/algorithms/common/ent_decision_node.cpp:backup_ent_impl"), ("value mix", "src/algorithms/ments/dents/dents_decision_node.cpp:get_soft_q_value")], (), ["values around every backup"])
p("P23", "Entropy algorithms recommend by their configured criterion",
  "MENTS, RENTS and TENTS recommend the legal action with the best soft value, DB-MENTS the best dynamic-programming value, DENTS and EST the best dynamic-programming or mean value as configured, each for the player to move, preferring actions with at least the configured number of visits when any has that many; with the most-visited option all recommend a most visited child. Ties are random, the action is always legal, and recommending does not change the tree.",
  ["inputs", "configurations", "histories"], "all trees produced by search, thresholds, options, player sides, partially expanded nodes",
  "Tests check single hand-built nodes.",
  ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/dbments_decision_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp", "src/algorithms/common/emp_node.cpp", "src/algorithms/common/dp_decision_node.cpp"], [("recommendations", "src/algorithms/ments/ments_decision_node.cpp:recommend_action")], (), ["recommended action versus child statistics"])
p("P24", "Two-player search is zero-sum symmetric",
  "In two-player mode odd time steps belong to the opponent, who treats every value with the opposite sign; in one-player mode nobody does. Consequently searching a game whose rewards are all negated and whose players are swapped, with mirrored heuristics and defaults and the same random choices, visits the same tree, recommends the same actions and yields exactly negated values in every algorithm.",
  ["inputs", "configurations", "histories"], "all games, algorithms, options, trial counts",
  "One small game is checked for one player's result only.",
  ["src/thts_decision_node.cpp", "src/algorithms"], [("opponent test", "src/thts_decision_node.cpp:is_opponent"), ("sign coefficients", "src/algorithms/*")], (), ["pairs of mirrored searches compared node by node"])
p("P25", "Decaying temperatures start at the initial value and fall to the floor",
  "Every temperature schedule gives the initial temperature at zero visits (raised to the configured minimum if below it), never increases with visits, never falls below the minimum, and is finite and positive for every visit count and positive scale; with no schedule the temperature is constant, and the root's own visit scale applies to the root only.",
  ["inputs", "configurations"], "all schedules, visit counts up to the integer limit, scales, initial and minimum temperatures",
  "Tests sample a few visit counts per schedule.",
  ["src/algorithms/common/decaying_temp.cpp", "src/algorithms/ments/ments_decision_node.cpp"], [("decay functions", "src/algorithms/common/decaying_temp.cpp"), ("floor", "src/algorithms/common/decaying_temp.cpp:compute_decayed_temp")], (), ["temperature in use at nodes"])
p("P26", "Heuristics and priors are applied to the node's own state and only there",
  "A new decision node's initial value is the heuristic of its own state, exactly zero at terminal states or without a heuristic, and the final node's heuristic is what a trial adds to its return; a prior supplied by the user is evaluated for the node's own state and shapes untried actions' values as the (optionally mean-shifted) log prior in entropy algorithms and scales exploration in UCT and PUCT.",
  ["inputs", "configurations"], "all problems, heuristics, priors incl. zero and huge weights, algorithms",
  "Tests use constant or no heuristics.",
  ["src/thts_decision_node.cpp", "src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/ments/ments_decision_node.cpp"], [("heuristic at construction", "src/thts_decision_node.cpp:ThtsDNode"), ("prior at construction", "src/algorithms/ments/ments_decision_node.cpp:MentsDNode")], (), ["initial values of nodes, arguments of heuristic and prior calls"])
p("P27", "Given enough trials, search finds the best action",
  "On any finite problem small enough to be explored fully, with exploration enabled and temperatures small against the value gaps (and, for RENTS, the same actions everywhere), the recommended root action after enough trials is an optimal action and the value-based algorithms' root value approaches the optimal value (minimax value in two-player mode); more threads do not change this.",
  ["inputs", "configurations", "schedules"], "all small problems and games with a clear optimum, all algorithms with suitable parameters",
  "Integration tests cover two fixed problems.",
  ["src/algorithms", POOL], [("selection plus backup of each algorithm", "src/algorithms")], (), ["recommendation and root value versus exact dynamic programming"])
p("P28", "Weighted sampling and arg-max tie-breaking are exact and total",
  "Sampling from weights returns each key with probability proportional to its weight, never returns a key of zero weight, and always returns some key for any valid distribution (masses summing to one, or any non-negative weights with positive sum when declared unnormalised), whatever the random draw; a draw that falls into mass missing from one, or runs past one because of excess mass, is rejected with an exception. Choosing a best key returns a key with the maximal value, uniformly among ties, for all values including infinities.",
  ["inputs"], "all finite weight maps of any scale and size and every random draw in [0,1)",
  "Tests use two weight maps and ten draws.",
  ["src/helper_templates.cc"], [("inverse cdf sampling", "src/helper_templates.cc:sample_from_distribution"), ("arg max", "src/helper_templates.cc:get_max_key_break_ties_randomly")], (), ["returned key versus exact interval of the draw"])
p("P29", "Distribution objects sample what they were last told",
  "A categorical distribution (with or without the constant-time table), a discrete uniform distribution and a mixture draw every key with exactly its share of the current weights; after changing one weight, adding a key, or replacing the weights, draws follow the new weights as soon as the configured refresh interval says so and never touch removed keys or invalid memory.",
  ["inputs", "histories"], "all weight maps and all sequences of updates and samples",
  "Tests draw from a few fixed distributions and one same-size update.",
  ["src/distributions/categorical_distribution.cc", "src/distributions/discrete_uniform_distribution.cc", "src/distributions/mixed_distribution.cc"], [("alias table", "src/distributions/categorical_distribution.cc:reconstruct_alias_table")], (), ["exact probabilities recovered by driving the random source"])
p("P30", "Random draws are in range and seeded single-threaded search is reproducible",
  "Integer draws lie in the requested half-open range and hit every value, real draws lie in [0,1), and both are safe to use from many threads. With a non-zero seed a single-threaded search of the same problem performs exactly the same sequence of choices and builds the same tree in every run, and different seeds lead to different choices.",
  ["inputs", "configurations", "schedules"], "all ranges, seeds, algorithms, problems",
  "Tests replace the random source by mocks.",
  ["include/thts_manager.h"], [("seeded generators", "include/thts_manager.h:RandManager")], (), ["draw values, full traces of repeated searches"])
p("P31", "Monte Carlo evaluation runs the requested rollouts of the tree's policy",
  "Evaluating a policy for n rollouts on t threads records exactly n returns, each the sum of rewards of one legal episode from the initial state that follows the tree's recommended actions while inside the tree and random legal actions outside it, and takes at most the configured number of steps. Each episode has a context of its own, which lives as long as the episode. The reported mean and standard deviation are those of the recorded returns.",
  ["inputs", "schedules", "configurations"], "all problems incl. endless ones, step limits, rollout and thread counts, partially built trees",
  "There are no tests of evaluation.",
  ["src/mc_eval.cpp", "include/mc_eval.h"], [("rollout loop", "src/mc_eval.cpp:run_rollout"), ("policy following the tree", "src/mc_eval.cpp:update_step"), ("work split", "src/mc_eval.cpp:thread_run_rollouts")], (), ["environment calls per rollout, recorded returns"])
p("P32", "Loggers record the search at the configured intervals",
  "A logger attached to a search records an all-zero origin entry once and then one entry every configured number of completed trials and every configured amount of search time, across successive search calls, and no others; each entry carries the accumulated search time, which never decreases, and the root's statistics at that moment. Written out, there is one header and one line per entry with every column of the logger's kind.",
  ["histories", "schedules", "configurations"], "all interval settings, thread counts, sequences of search calls and clock behaviours",
  "There are no tests of loggers.",
  ["src/thts_logger.cpp", POOL, "src/algorithms/uct/uct_logger.cpp", "src/algorithms/ments/ments_logger.cpp", "src/algorithms/ments/dbments_logger.cpp"], [("log decision", "src/thts_logger.cpp:should_log"), ("calls from the pool", POOL + ":try_log")], (), ["csv output versus recorded trials and virtual clock"])
p("P33", "States, actions and observations behave as values",
  "The provided state and action types compare equal exactly when they have the same type and contents, equality is an equivalence relation consistent with hashing and with use as keys through shared pointers, and the hash and printed form depend on the contents only. Combining hashes is deterministic and order-sensitive, so that different states collide only by chance. Values of equal hash that differ, a user's own types included, stay distinct wherever they serve as keys.",
  ["inputs"], "all contents including negative, extreme and empty ones and mixed types",
  "Tests compare a few instances.",
  ["src/thts_types.cpp", "include/thts_types.h", "src/helper_templates.cc"], [("virtual equality and hashing", "src/thts_types.cpp")], (), ["equality, hash and map behaviour over generated values"])
p("P34", "Trial contexts and default observations do exactly what they say",
  "A context returns for each key the very object last stored under it, keeps constant and mutable entries apart, and forgets a key exactly when erased; reading an absent key fails without disturbing others. The context a problem samples by default is fresh and empty for every trial. For fully observable problems the default observation of a transition is the next state with certainty, and for others the missing model is reported as an error.",
  ["inputs", "histories"], "all sequences of put, get and erase on any keys; all states",
  "Tests store a couple of keys.",
  ["src/thts_env_context.cpp", "include/thts_env_context.h", "src/thts_env.cpp"], [("key/value maps", "src/thts_env_context.cpp"), ("default observation model", "src/thts_env.cpp")], (), ["results versus a model map"])
p("P35", "Inspecting a tree reports it faithfully and leaves it unchanged",
  "Printing a tree to a depth, querying counts, children, roles and leaves, and asking for recommendations never change any statistic or create nodes. The printed form shows exactly the nodes down to the requested depth with their values and visit counts, and marks a cut-off subtree.",
  ["inputs", "histories"], "all trees and depths, all algorithms",
  "Tests compare the printed form of one tree.",
  ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp"], [("pretty printing", "src/thts_decision_node.cpp:get_pretty_print_string_helper")], (), ["snapshots of the whole tree before and after"])
p("P36", "Search samples outcomes with the problem's own probabilities",
  "In every algorithm the outcome sampled after an action follows the problem's transition distribution for that state and action, independently of values and of earlier samples, so every possible outcome is eventually explored and none gets a biased share.",
  ["inputs", "configurations"], "all transition distributions, algorithms and trial counts",
  "Tests sample from near-deterministic grids.",
  ["src/algorithms/uct/uct_chance_node.cpp", "src/algorithms/ments/ments_chance_node.cpp", "src/helper_templates.cc"], [("outcome sampling", "src/algorithms/uct/uct_chance_node.cpp:sample_observation_random")], (), ["outcome counts per action node versus probabilities"])
p("P37", "Options take effect exactly as given; omitted ones have declared defaults",
  "A manager built from an arguments object behaves according to every option given there, each independently of the others, and according to the declared default for every option left out: leaving an option out and giving its default produce the same search with the same seed. A manager keeps its options when the arguments object is changed or used again afterwards.",
  ["inputs", "configurations"], "all algorithms and all subsets and values of their options",
  "Tests set a few options and read none back through a search.",
  ["include/thts_manager.h", "include/algorithms/uct/uct_manager.h", "include/algorithms/uct/puct_manager.h", "include/algorithms/ments/ments_manager.h", "include/algorithms/ments/dents/dents_manager.h"], [("defaults and copying of options", "include/thts_manager.h:ThtsManagerArgs")], (), ["whole trees of searches with options omitted versus all options given"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    print(len(P))
