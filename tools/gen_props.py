#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list stays uniform).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

IV = "src/cycle_safe.rs"; GE = "src/generic.rs"; EC = "src/generic/equiv_classes.rs"
BA = "src/basic.rs"; DS = "src/deep_safe.rs"; WS = "src/wide_safe.rs"; RO = "src/robust.rs"; UT = "src/utils.rs"

p("C01", "Cycle-safe comparison gives the exact verdict on every graph",
  "The cycle-safe comparisons (the cycle_safe and robust functions, with or without precheck, and the generic interleave with any queue, stack or call-stack recursion) answer 'equivalent' exactly when no sequence of edge indexes leads the two roots to a pair of non-identical nodes that differ locally or in number of edges. This holds for every finite graph with any cycles and any sharing, inside one graph or between the two, and no matter which random numbers are drawn and which phase limits are configured.",
  ["inputs", "configurations", "histories"],
  "every finite (cyclic, shared, overlapping) pair of graphs, every value labelling, every sequence of random numbers, every admissible choice of the phase limits, each recursion mode",
  "The suite compares cyclic and shared graphs only when they are equal and with a handful of fixed shapes and one pseudo-random stream; a wrong 'equal' that needs a particular sharing pattern, edge position or phase alignment is never sampled.",
  [IV, GE, EC, RO],
  [("equivalence classes of already-compared nodes", EC), ("phase interleaving", IV), ("comparison main loop", GE)],
  ["return value of cycle_safe::equiv, cycle_safe::precheck_equiv, robust::equiv, robust::precheck_equiv and of the generic API"])

p("C02", "Acyclic comparisons give the exact verdict and agree with each other",
  "For every pair of finite acyclic graphs (trees and DAGs, with any sharing) the basic, deep-safe and wide-safe comparisons all terminate and answer 'equivalent' exactly when the two unfoldings agree locally and in number of edges at every position. All variants, including the cycle-safe ones and the limited ones with an ample limit, therefore agree on whether two acyclic graphs are equivalent.",
  ["inputs", "configurations"],
  "every pair of finite acyclic graphs, every labelling, all recursion modes",
  "The suite compares a few fixed shapes, nearly always equal ones; whether each variant notices a single difference at an arbitrary position of an arbitrary shape is a statement over all shapes and labellings.",
  [BA, DS, WS, GE, UT],
  [("call-stack recursion", BA), ("lazy queue", DS), ("lazy stack", WS), ("edge iteration", GE)],
  ["return values of basic::equiv, deep_safe::equiv, wide_safe::equiv and of the limited_equiv functions"])

p("C03", "Cycle-safe comparison always ends, after work linear in the graph size",
  "On every finite graph, however cyclic or shared, the cycle-safe comparisons return after comparing a number of node pairs that is at most a constant (fixed by the phase limits and the node degree) times the number of branch nodes, for every sequence of random numbers and every configuration with a slow limit of at least 1. In particular redefining only the precheck limit, however small, as the documentation permits, yields such a configuration and terminates on cyclic inputs.",
  ["inputs", "configurations", "histories"],
  "every finite graph, every random-number sequence, every documented choice of the limits (including precheck limits below 10)",
  "Tests run fixed shapes with the default limits and the default generator; termination and the linear bound quantify over all shapes, all random sequences and all limits.",
  [IV, EC, GE],
  [("phase ticker", IV), ("each slow step merges classes or adds a node", EC)],
  ["number of Node::equiv_modulo_edges calls before return"])

p("C04", "The result is that of the first difference in the documented order",
  "When the graphs are not equivalent, the value returned is exactly the value produced by the first differing pair of nodes in the documented traversal order - depth-first preorder for the basic and wide-safe comparisons (and for cycle_safe on acyclic graphs), breadth-first for the deep-safe and robust comparisons, edges in index order - handed back unchanged, where a node with fewer edges than its counterpart is Less. A differing number of edges counts at the position of the first missing edge, after the preceding siblings (and, depth-first, their descendants), or at the node itself if one of the two has no edges at all. No node is compared after that first difference has been found.",
  ["inputs", "configurations", "histories"],
  "every graph pair (acyclic ones for depth-first order, arbitrary ones for breadth-first), every labelling with several simultaneous differences, every user-defined comparison value, every random sequence",
  "Ordering tests use a few tiny acyclic inputs with a single difference; which of several differences is reported first needs shapes with at least two differences in every relative position, including cyclic ones.",
  [GE, BA, DS, WS, RO, IV, UT],
  [("early return of a non-equivalent result", GE), ("queue order", DS), ("stack order", WS), ("edge-count comparison", GE)],
  ["returned Cmp value of all public comparison functions with Cmp = Ordering or a user-defined type"])

p("C05", "Swapping the two inputs exactly mirrors the result",
  "For every pair of graphs whose local comparison is antisymmetric, comparing (b, a) yields the reversed ordering of comparing (a, b), after the same number of comparisons, in every variant, when the random numbers drawn are the same. With boolean results the verdict is symmetric.",
  ["inputs", "configurations", "histories"],
  "every graph pair, every labelling, every (shared) random sequence, every variant",
  "Antisymmetry relates two runs on all inputs; the suite checks the two directions on a handful of tiny inputs only and never on cyclic or shared graphs.",
  [GE, EC, IV, DS, WS, BA],
  [("symmetric treatment of both sides", GE), ("symmetric class merging", EC)],
  ["pairs of runs of the public functions with the arguments swapped"])

p("C06", "Graph ordering is a consistent total preorder",
  "For every three finite acyclic graphs and every variant, the ordering obtained with a totally ordered local comparison is reflexive, and transitive: if the first is not greater than the second and the second not greater than the third then the first is not greater than the third, with equality only if both are equal. Likewise equivalence is transitive across three graphs, including cyclic ones with the cycle-safe variants.",
  ["inputs"],
  "every triple of graphs, every labelling, every variant",
  "Transitivity relates three runs over all triples of inputs; no test compares three graphs pairwise except for a few integers.",
  [GE, DS, WS, BA, IV],
  [("first difference in a fixed position order", GE)],
  ["triples of runs of the public functions"])

p("C07", "The precheck never changes the outcome",
  "Running the limited precheck first returns the same outcome as the interleaved comparison alone, whether the precheck finishes, finds a difference or is aborted at any point by its limit, for every limit from 0 up, every combination of precheck and interleave recursion modes that converts, and every graph including cyclic ones. Nothing left pending by an aborted precheck influences the subsequent comparison.",
  ["inputs", "configurations", "crash_points"],
  "every graph pair, every abort point (precheck limit), every convertible pair of recursion modes",
  "Tests use the default limit (400) and equal graphs, so the abort happens at a single kind of point; leftovers of the aborted queue or stack matter only for particular shapes, limits and later differences.",
  [GE, IV, RO, DS, WS, BA],
  [("reset of the recursion mode on hand-over", GE), ("reset of queue/stack", DS)],
  ["return value of precheck_equiv functions and of generic::precheck_interleave::equiv"])

p("C08", "Limited comparisons abort exactly when the limit is exceeded",
  "With limit L the limited comparisons return the same result as the unlimited one if that one needs to traverse at most L pairs of nodes (counting the roots, leaves and identical pairs), and otherwise return the limit error having examined the first L pairs and no more. This holds for every limit of every supported unsigned integer type, including 0 and the maximum, and makes limited comparisons terminate on every graph including cyclic ones.",
  ["inputs", "configurations"],
  "every graph pair including cyclic ones, every limit of u8, u16, u32, u64, u128 and usize, each recursion mode",
  "The suite checks a dozen hard-coded (shape, limit) combinations for the call-stack variant with u32 only.",
  [BA, DS, WS],
  [("limit ticker", BA), ("comparison main loop", GE)],
  ["return value and callback counts of basic::limited_equiv, deep_safe::limited_equiv, wide_safe::limited_equiv"])

p("C09", "Node implementations are called only as documented",
  "Per traversed pair, edges are requested with consecutive indexes starting from the index type's default value, at most twice per index and never past the first index at which an edge is missing, and the local comparison is called exactly once per pair of non-identical nodes with the left graph's node first. Edge results at the same index of both nodes are always paired with each other and the left one stays on the left.",
  ["inputs", "configurations", "histories"],
  "every graph pair including ones with differing edge counts at any index, every variant, every random sequence",
  "Test nodes ignore how often and with which indexes they are called; violations matter to nodes that generate edges on demand or have side effects and need particular shapes (e.g. differing edge counts at a later index).",
  [GE, UT, DS, WS, BA],
  [("edge iteration", GE), ("peeking whether a sub-iterator is exhausted", UT)],
  ["calls of Node::get_edge and Node::equiv_modulo_edges"])

p("C10", "Edge indexes advance exactly through every index type's range",
  "Each supported primitive integer index advances by exactly one and reports exhaustion exactly at its maximum, and a comparison of nodes whose edges use every index value of a small type (such as all 256 values of an 8-bit index) compares every edge once and then ends. No index is skipped, repeated or wrapped.",
  ["inputs"],
  "every value of every provided integer index type; nodes with up to as many edges as the index type can represent; difference at any edge",
  "Tests never use more than a few edges per node, so the end of an index type's range and a difference at an arbitrary index are not reached.",
  ["src/like_anticipated.rs", GE],
  [("Step::increment", "src/like_anticipated.rs"), ("exhaustion ends edge iteration", GE)],
  ["Step::increment, comparisons over wide nodes"])

p("C11", "Shared-structure table is exactly the equivalence closure",
  "After any history of node pairs recorded by the slow phase, a pair is reported as already known exactly when it follows from the recorded pairs by reflexivity of recorded nodes, symmetry and transitivity. Reporting a pair as unknown records it, and no answer depends on the order of the two nodes.",
  ["histories", "inputs"],
  "every sequence of recorded pairs over any set of node identities",
  "One scripted sequence of seven keys is tested; the merge paths depend on the complete history (which side was seen, weights, link shortening).",
  [EC],
  [("union with weights", EC), ("link shortening", EC)],
  ["skip/descend decisions of the slow phase (DescendMode::do_edges of the interleave mode in always-slow configuration)"])

p("C12", "Class links stay shallow, so lookups and destruction cannot recurse deeply",
  "For every history of recorded pairs the chain of links from any recorded node to its class representative has length at most the base-2 logarithm of the number of classes ever created, so lookups are fast and releasing the table never recurses deeply. No cycle of links ever forms and everything is released when the comparison ends.",
  ["histories"],
  "every history of recorded pairs, over the premade table and over user-supplied tables and shared-ownership types",
  "Only the answers are tested, not the shape of the link forest; a union in the wrong direction or a forgotten weight gives the same answers until the recursion overflows on particular long histories.",
  [EC],
  [("weights decide the direction of links", EC)],
  ["links visible through a custom equiv_classes::Rc/Table"])

p("C13", "Phases of the interleave follow the configured limits",
  "The interleaved comparison is in the slow phase first and stays there until it has descended into the configured number of consecutive branch pairs that were not already known; it then descends without recording for one more than the drawn random number of pairs, and then is slow again, where each already-known pair is skipped and restarts the slow count. This holds for every admissible pair of limits up to the extremes of 16 bits, with no overflow or panic.",
  ["histories", "configurations"],
  "every sequence of known/unknown pairs and every random draw; limits 0..=65534 (fast) and 1..=65535 (slow)",
  "Phase boundaries are invisible in the results that the suite checks (equal graphs), and only default limits are used.",
  [IV],
  [("ticker", IV)],
  ["recorded table operations and descend decisions of the interleave mode with custom limits, generator and table"])

p("C14", "Every random-number generator stays in range for every state and bound",
  "Each provided random-number generator returns a value strictly below the requested non-zero bound for every internal state and every 16-bit bound, without panicking. Every value below the bound that the scheme can produce is a legal draw, so no comparison result depends on generator quality.",
  ["inputs", "configurations"],
  "every generator state (64 or 128 bits) and every bound 1..=65535, for each of the three optional generators",
  "No test calls a generator with other than the default bound, and two of the three generators are never exercised by the suite.",
  ["src/cycle_safe/modes/interleave/random/wyrng.rs", "src/cycle_safe/modes/interleave/random/oorandom.rs", "src/cycle_safe/modes/interleave/random/fastrand.rs"],
  [("rand_upto", "src/cycle_safe/modes/interleave/random")],
  ["NumberGenerator::rand_upto"])

p("C15", "Reference identity is a lawful equality, hash and order",
  "Reference identities are equal exactly when the references point to the same object (same address and, for slices and trait objects, same metadata), equal identities hash equally, and all comparison operators agree with one total order that is consistent with that equality. The pointee's own equality, hash and order are never consulted.",
  ["inputs"],
  "every pair and triple of references, thin or fat, into the same or different allocations, for every smart pointer",
  "A few pointer pairs are tested; agreement of all seven operators for all address and metadata combinations is not.",
  [UT],
  [("pointer comparison", UT)],
  ["PartialEq, Eq, Hash, PartialOrd and Ord of utils::RefId"])

p("C16", "Pending work is kept lazily and everything is released",
  "The queue and stack variants never hold a pending entry for an exhausted set of siblings: the stack variants keep at most one entry per level that still has an unvisited sibling, so a list with its tail edge last needs constant memory, and the queue variants need constant memory for wide-but-lazy or deep single-path graphs. Every node handle obtained during a comparison is dropped exactly once and nothing remains allocated afterwards, also when the comparison ends early or with an error.",
  ["inputs", "histories", "configurations"],
  "every graph shape, early difference or abort at every point, each queue/stack variant",
  "The lazy tests measure a few fixed shapes on equal graphs only; retention that depends on shape, early exit or abort is not observed.",
  [UT, DS, WS, GE],
  [("exhausted sub-iterators are removed before returning the last item", UT)],
  ["number of live node handles and live heap bytes during and after a comparison"])

p("C17", "Call-stack usage of the deep-safe variants is independent of depth",
  "The deep-safe, wide-safe and robust comparisons use an amount of call-stack that does not depend on the depth, width, sharing or labelling of the graphs, for the limited and prechecked versions as well. Only the variants documented as using the call-stack may recurse.",
  ["inputs", "configurations"],
  "every graph shape up to the bound incl. long chains, every variant built on a queue or stack",
  "Tests compare equal million-node chains of two shapes; recursion in another code path (e.g. on differing counts, on skip, on table release) is only exposed by other shapes.",
  [DS, WS, RO, GE, UT],
  [("loop instead of recursion", GE), ("explicit queue/stack", UT)],
  ["call-stack depth observed from Node callbacks"])

p("C18", "Custom modes are obeyed and their errors abort immediately",
  "An error from a custom recursion or descend mode ends the comparison at once and is returned converted, with no further callback, at whichever step it happens; a 'do not traverse' or 'do not descend' answer skips exactly that pair or exactly its descendants. In the prechecked comparison an error of the precheck's recursion is returned without starting the interleaved comparison, and an error of the latter is returned as is.",
  ["fault_sequences", "inputs", "configurations"],
  "every step at which a custom mode may fail or answer 'skip', every graph shape",
  "One custom-mode test exists without failures; error at every possible step over all shapes is not sampled.",
  [GE],
  [("error propagation", GE), ("precheck error routing", GE)],
  ["results and callback traces of generic::equiv::Equiv and generic::precheck_interleave::equiv with custom modes"])

p("C19", "Identical nodes are never examined and everything equals itself",
  "Whenever a pair of nodes has equal identities the comparison treats it as equivalent without asking for their edges or comparing them locally, in every variant and at every position, even if such nodes would report themselves as different. Consequently every graph, cyclic or not, equals itself in constant time in all variants, and parts shared at the same position by both graphs cost one step.",
  ["inputs", "configurations", "histories"],
  "every graph with any nodes shared between the two sides, adversarial local comparison on identical nodes, every variant",
  "Sharing between the two compared graphs and nodes whose comparison with themselves is not 'equal' are hardly tested.",
  [GE],
  [("identity check before comparison", GE)],
  ["callback counts on pairs of identical nodes"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
