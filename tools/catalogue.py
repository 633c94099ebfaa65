#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/catalogue.py)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
A = "rustfst/src/algorithms/"
F = "rustfst/src/fst_impls/"
S = "rustfst/src/semirings/"
T = "rustfst/src/fst_traits/"
P = []
def p(id, title, st, over, q, why, files, mech):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Composition computes the weighted composition of the two relations",
  "Composing A and B, statically or lazily and with any of the relation-preserving composition filters (auto, sequence, alternate sequence, match), yields exactly the weighted relation (x,z) -> sum over y of A(x,y)*B(y,z), each pair of epsilon paths counted once. The null, trivial and no-match filters give the relation their own documented restriction or redundancy defines, a connected result has no useless states, and operands sorted on neither matching side are refused with an error.",
  ["inputs", "configurations"], "all pairs of transducers over one semiring (any epsilons, cycles, arc multiplicities), all filters, matchers and the connect option",
  "tests compose a few fixed pairs; double counting of epsilon paths or a filter state slip needs particular epsilon placements and a non-idempotent semiring",
  [A + "compose/compose_static.rs", A + "compose/compose_fst_op.rs", A + "compose/compose_filters", A + "compose/matchers/sorted_matcher.rs", A + "compose/compose_state_tuple.rs"],
  [("composition filters", A + "compose/compose_filters"), ("match side choice", A + "compose/compose_fst_op.rs"), ("state table", A + "compose/compose_state_tuple.rs")])

p("C02", "Look-ahead composition equals ordinary composition",
  "Composition through a look-ahead matcher (label reachability, arc look-ahead, with weight and label pushing filters) produces the same weighted relation as plain composition of the same machines. Label relabelling done to prepare look-ahead is a bijection applied consistently to both machines.",
  ["inputs", "configurations"], "all pairs of transducers, look-ahead on either side, pushing filters on or off",
  "tests use two hand-made examples compared with recorded results; reachability interval mistakes need particular state graphs",
  [A + "compose/label_reachable.rs", A + "compose/interval_set.rs", A + "compose/state_reachable.rs", A + "compose/lookahead_filters", A + "compose/lookahead_matchers", A + "compose/matcher_fst.rs"],
  [("interval sets of reachable labels", A + "compose/label_reachable.rs"), ("push filters", A + "compose/lookahead_filters")])

p("C03", "Sigma matching treats the sigma label as any symbol",
  "Composing with a sigma matcher gives the composition one would get after expanding every sigma transition into one transition per symbol it may match (all symbols, or the allowed set; never epsilon), next to the ordinary transitions of the state, rewriting the label on the matched side or on both sides as the rewrite mode asks; the result declares only properties it has.",
  ["inputs", "configurations"], "all machines with sigma transitions, all allowed-label sets, both match sides and the rewrite modes",
  "tests cover a couple of fixed machines",
  [A + "compose/matchers/sigma_matcher.rs"], [("sigma matcher", A + "compose/matchers/sigma_matcher.rs")])

p("C04", "Union, concatenation and closure compute the rational operations",
  "Union, concatenation and Kleene star/plus, in place or lazily, give exactly the sum, Cauchy product and star/plus of the operands' weighted relations, including when an operand is empty or has no start state, and leave the other operand unchanged.",
  ["inputs"], "all transducers over every semiring, including machines without start state or finals and starts with incoming transitions",
  "tests compare a few machines; the result depends on start-state cycles, final start states and epsilon wiring",
  [A + "union", A + "concat", A + "closure"], [("in-place wiring", A + "union/union_static.rs"), ("lazy replace grammar", A + "union/union_fst.rs")])

p("C05", "Replace substitutes sub-machines for their non-terminals",
  "Replacing non-terminal labels in a root machine by their machines, statically or lazily, gives the weighted relation obtained by recursively expanding every call transition into the called machine (call label rewritten to epsilon or kept as asked); a root that is not defined is refused.",
  ["inputs"], "all grammars without recursion (the recursive case is refused or unbounded), any nesting, empty sub-machines and weights",
  "tests expand one or two grammars; return states and nested prefixes need nested and repeated calls to show",
  [A + "replace"], [("stack prefix table", A + "replace/state_table.rs"), ("lazy expansion", A + "replace/replace_fst_op.rs")])

p("C06", "Inversion, projection, reversal, relabelling and mapping are exact morphisms",
  "Invert swaps the tapes, project copies one, relabelling substitutes labels pairwise, transition mapping and weight/FST conversion rewrite exactly the labels and weights they name, all on every transition and final weight and nothing else. Reversal maps each pair (x,y) to its mirror image with the same total weight.",
  ["inputs", "configurations"], "all transducers and all mapper, pair list and conversion choices",
  "tests check samples and mostly one mapper per file",
  [A + "inversion.rs", A + "projection.rs", A + "reverse.rs", A + "relabel_pairs.rs", A + "tr_map.rs", A + "tr_mappers", A + "weight_convert.rs", A + "weight_converters", A + "fst_convert.rs"],
  [("arc/final mapping", A + "tr_map.rs"), ("superinitial state", A + "reverse.rs")])

p("C07", "Epsilon removal preserves the relation and removes every epsilon transition",
  "Removing epsilons, in place or lazily, leaves the weighted relation unchanged and yields a machine with no transition that is epsilon on both tapes; the in-place version is also trimmed of useless states.",
  ["inputs"], "all transducers whose epsilon cycles have a defined closure in the semiring",
  "tests use a few machines over tropical weights; path weights through epsilon chains and cycles and multiplicities need other machines",
  [A + "rm_epsilon", A + "shortest_distance.rs"], [("epsilon-closure by shortest distance", A + "rm_epsilon/rm_epsilon_state.rs")])

p("C08", "Determinization preserves the relation and yields a deterministic machine",
  "Determinizing an acceptor, or a transducer in functional, non-functional or disambiguating mode, terminates on determinizable input with a machine that has at most one transition per state and input label and the same weighted relation (the best output per input when disambiguating). Determinizing an acceptor makes no more states than there are reachable weighted subsets. A transducer mapping one input to several outputs is reported as an error in functional mode.",
  ["inputs", "configurations"], "all determinizable acceptors and transducers, all determinization types",
  "tests sample a few machines and compare with recorded output; subset residual weights and strings are only stressed by particular ambiguity patterns",
  [A + "determinize", A + "factor_weight", S + "gallic_weight.rs", S + "string_weight.rs"], [("weighted subset construction", A + "determinize/determinize_fsa_op.rs"), ("common divisors", A + "determinize/divisors.rs")])

p("C09", "Minimization preserves the relation and reaches the minimal size",
  "Minimizing a deterministic machine (or, when allowed, a non-deterministic one) leaves its weighted relation unchanged; a non-deterministic machine is refused unless allowed. An acceptor never gains states (except one start state when the total weight cannot be absorbed because the start state is re-entered), and for deterministic epsilon-free tropical acceptors the result has exactly as many states as there are distinguishable residual weighted languages.",
  ["inputs", "configurations"], "all deterministic acceptors and transducers, cyclic and acyclic, weighted and unweighted; non-deterministic input when allowed and refused otherwise",
  "tests compare fixed examples; partition refinement errors need particular class splits",
  [A + "minimize.rs", A + "partition.rs", A + "encode"], [("Hopcroft and acyclic refinement", A + "minimize.rs"), ("partition", A + "partition.rs")])

p("C10", "Weight and label pushing and reweighting preserve the relation",
  "Pushing weights towards the initial or final states, pushing labels, and reweighting by potentials leave the weighted relation unchanged (up to the removed total weight or common affix when that is asked for). After pushing towards the start every other useful state is stochastic: its outgoing and final weights sum to one.",
  ["inputs", "configurations"], "all weighted machines with defined distances, both directions, every push option",
  "tests compare recorded results of fixed machines",
  [A + "push.rs", A + "reweight.rs", A + "shortest_distance.rs"], [("potentials", A + "push.rs"), ("reweight", A + "reweight.rs")])

p("C11", "Shortest-distance algorithms return the exact sums over all paths",
  "The single-source distances, their reverse and the all-pairs distances equal, for every state, the semiring sum of the weights of all paths from the start (to the final states, between the pair).",
  ["inputs"], "all machines over idempotent and non-idempotent semirings, acyclic and (where closures exist) cyclic, with any queue choice",
  "tests compare a few graphs; re-enqueueing mistakes only show when a state's distance changes after it was dequeued",
  [A + "shortest_distance.rs", A + "all_pairs_shortest_distance.rs", A + "queues"], [("relaxation loop", A + "shortest_distance.rs"), ("Kleene closure", A + "all_pairs_shortest_distance.rs")])

p("C12", "Shortest path returns true best paths, n-best exactly the n best",
  "The shortest-path result of a machine is a machine whose paths are paths of the input with their weights; the best one has the minimal weight, asking for n gives exactly the n smallest path weights (all of them if there are fewer), and in unique mode the n best distinct strings.",
  ["inputs", "configurations"], "all tropical machines with non-negative weights, all n, unique or not",
  "tests use fixed n and machines; ties, cycles and zero-weight paths matter",
  [A + "shortest_path.rs", A + "queues"], [("single source tree", A + "shortest_path.rs"), ("n-shortest search", A + "shortest_path.rs")])

p("C13", "Trimming, sorting and arc merging reorganise without changing meaning",
  "Connect keeps exactly the useful states and transitions; transition, state and topological sorting permute and produce the promised order; summing or deduplicating parallel transitions keeps their (total) weight; condensation maps states to strongly connected components; final-epsilon removal and super-final states keep the relation.",
  ["inputs"], "all machines, including unreachable parts, duplicates, missing start, self loops",
  "tests sample; unreachable states and odd orders rarely appear",
  [A + "connect.rs", A + "tr_sort.rs", A + "state_sort.rs", A + "top_sort.rs", A + "tr_sum.rs", A + "tr_unique.rs", A + "condense.rs", A + "rm_final_epsilon.rs", A + "add_super_final_state.rs", A + "visitors", A + "dfs_visit.rs"],
  [("DFS visitors", A + "visitors")])

p("C14", "Encoding followed by decoding is the identity",
  "Encoding labels and/or weights yields an acceptor over a table that maps one code to one (labels, weight) key, and decoding with that table gives back the original weighted relation; encoded machines carry neither weights nor output labels beyond what the mode leaves.",
  ["inputs", "configurations"], "all machines and the encode modes, including non-trivial final weights and several machines sharing a table",
  "tests round-trip fixed machines",
  [A + "encode"], [("encode table", A + "encode/table.rs")])

p("C15", "Declared FST properties are never false, whatever the mutation history",
  "After any sequence of mutations through the public API, every property a VectorFst reports as known is true of its actual states and transitions, and recomputing the properties from scratch agrees.",
  ["histories"], "all interleavings of add/delete state, start, final, transition, sorting and transition-iterator mutations",
  "tests check one mutation at a time; a stale bit needs a particular sequence of mutations",
  ["rustfst/src/fst_properties", F + "vector_fst", "rustfst/src/trs_iter_mut.rs"], [("mutate_properties", "rustfst/src/fst_properties/mutate_properties.rs"), ("compute properties", "rustfst/src/fst_properties/compute_fst_properties.rs")])

p("C16", "Properties reported on algorithm results are true of the results",
  "Every property bit that an algorithm or lazy FST reports as known on its result holds of that result, whatever the operands and whatever properties were known about them.",
  ["inputs", "histories"], "all operations, all operands and any knowledge of operand properties",
  "tests rarely look at property bits, and wrong bits later select wrong algorithms",
  ["rustfst/src/fst_properties", A], [("property transfer functions", "rustfst/src/fst_properties/mutate_properties.rs")])

p("C17", "VectorFst behaves as a mutable transition table with value-semantics clones",
  "Any history of constructions, mutations, deletions, clones and reads behaves like the obvious table of states, final weights and ordered transitions: reads return what was last written, deleting states renumbers the rest in order and drops dangling transitions, iterator mutations stick, out-of-range access is an error, and changing one clone never changes another.",
  ["histories"], "all mutation histories over several clones, checked and unchecked accessors agreeing",
  "tests exercise single calls; sharing bugs need an interleaving of clones and mutations",
  [F + "vector_fst", F + "const_fst", "rustfst/src/trs.rs", "rustfst/src/trs_iter_mut.rs", "rustfst/src/tr.rs"], [("Arc make_mut copy on write", F + "vector_fst/mutable_fst.rs")])

p("C18", "Lazy FSTs denote one fixed machine for every access order and thread schedule",
  "A lazy FST answers every query (start, final weight, transitions, counts) the same way regardless of the order, repetition or thread from which states are visited and of which cache it uses, and fully computing it gives the machine those answers describe.",
  ["schedules", "histories"], "all access orders and interleavings of concurrent readers, for every lazy operation and cache kind",
  "tests expand from the start state in a single thread",
  [A + "lazy", A + "compose/compose_fst.rs", A + "replace/replace_fst.rs", A + "closure/closure_fst.rs"], [("cache", A + "lazy/cache"), ("lazy fst", A + "lazy/lazy_fst.rs")])

p("C19", "Writing then reading an FST gives back the same FST",
  "Serialising a vector, const or symbol-table-bearing FST to binary or text, and reading it back (also across the vector/const formats), yields the same states, start, finals, transitions, weights and symbols.",
  ["inputs"], "all machines representable in the format, all weight types with a serial form",
  "tests round-trip a few fixtures",
  [F + "vector_fst/serializable_fst.rs", F + "const_fst/serializable_fst.rs", "rustfst/src/parsers", T + "serializable_fst.rs"], [("binary and text readers/writers", "rustfst/src/parsers")])

p("C20", "Malformed files are rejected with an error, never a crash",
  "Loading a truncated or corrupted binary or text FST or symbol table returns an error (or a well-formed value when the bytes still spell one) and never panics, aborts, hangs or yields a machine with dangling references.",
  ["inputs", "crash_points"], "every truncation point and byte corruption of every serialised form",
  "tests only read valid files",
  ["rustfst/src/parsers", F + "vector_fst/serializable_fst.rs", F + "const_fst/serializable_fst.rs", "rustfst/src/symbol_table.rs"], [("nom parsers", "rustfst/src/parsers")])

p("C21", "A symbol table is a bijection between symbols and dense labels",
  "After any history of additions and merges a symbol table maps each symbol to one label and back, labels are handed out densely in insertion order with epsilon at 0, re-adding returns the old label, and iteration, equality, and text/binary round trips agree with that map.",
  ["histories"], "all sequences of add/merge/lookup/serialise operations over several tables",
  "tests do a handful of insertions",
  ["rustfst/src/symbol_table.rs"], [("two maps kept in step", "rustfst/src/symbol_table.rs")])

p("C22", "Every weight type satisfies the semiring laws it advertises",
  "For every weight type, plus is associative and commutative with zero, times is associative with one and annihilated by zero, times distributes over plus on the sides the type declares, and the declared idempotence, path, commutativity, division, reversal, closure and quantisation properties hold; the number types declare the distributivity and commutativity (tropical and boolean also the idempotence and path property) that the algorithms ask for; equality and hashing agree.",
  ["inputs"], "all triples of weights of every weight type, including zero, one, infinities, products, strings, gallic and union weights",
  "tests check a few constants",
  [S], [("semiring impls", S)])

p("C23", "Isomorphism and equality tests decide exactly what they name",
  "The isomorphism test answers true exactly for deterministic machines equal up to renumbering of states and order of transitions; equality is exact structural equality.",
  ["inputs"], "all pairs of machines, permuted, mutated or unrelated",
  "tests compare a couple of pairs",
  [A + "isomorphic.rs", F + "vector_fst/data_structure.rs"], [("paired traversal", A + "isomorphic.rs")])

p("C24", "Random generation only produces paths of the machine",
  "Every path produced by random generation is a successful path of the input with its labels, the requested number of draws is honoured, and a fixed seed reproduces the same output.",
  ["inputs", "configurations"], "all machines, selectors, seeds, path counts and length limits",
  "tests draw a few samples",
  [A + "randgen"], [("sampler", A + "randgen")])

p("C25", "Work queues deliver every enqueued state once, in their discipline's order",
  "For every queue discipline a history of enqueue, update, dequeue and clear hands out exactly the enqueued states, in the order the discipline promises (FIFO, LIFO, state order, topological order, shortest first, component order), and emptiness is reported exactly.",
  ["histories"], "all histories of queue operations of all queue kinds",
  "tests barely touch queues directly",
  [A + "queues", A + "queue.rs"], [("queues", A + "queues")])

p("C26", "Path enumeration and label/string conversions are exact",
  "Iterating over the paths of an acyclic machine yields every successful path exactly once with its labels and weight, string paths spell them through the symbol tables, and building a machine from labels or strings and reading it back is the identity.",
  ["inputs"], "all acyclic machines and all label sequences",
  "tests enumerate a few machines",
  [T + "paths_iterator.rs", "rustfst/src/fst_path.rs", "rustfst/src/string_path.rs", "rustfst/src/utils"], [("DFS over paths", T + "paths_iterator.rs")])

p("C27", "Pipelines of meaning-preserving operations preserve the relation",
  "Any sequence of optimisation, epsilon removal, determinization, minimisation, pushing, sorting, encoding and trimming, each applied where its precondition holds, leaves the weighted relation unchanged, whatever property knowledge earlier steps left behind.",
  ["histories", "inputs"], "all sequences of such operations on all machines",
  "tests apply one operation to a fresh machine; stale properties or invariants broken by one step only hurt the next",
  [A, "rustfst/src/fst_properties"], [("property-driven dispatch", A + "optimize.rs")])

p("C28", "The C interface gives the same results as the Rust library",
  "Every operation reached through the C interface has the same effect and result as the corresponding library call, reports failure through its status code instead of unwinding, and leaves non-consumed handles usable.",
  ["histories"], "all histories of C interface calls",
  "the C interface has no Rust tests",
  ["rustfst-ffi/src"], [("wrap()", "rustfst-ffi/src/lib.rs")])

p("C37", "The Python package gives the same results as the library",
  "Every method and function of the Python package has the same effect and result as the corresponding library operation on every history of calls: machines and symbol tables read back through the package are the ones built, in-place operations change exactly their object, results keep the symbol tables the operation prescribes, and failures are raised as ValueError without ending the process.",
  ["histories"], "all histories of calls to the Python package",
  "the package's own tests need a built wheel and sample single calls",
  ["rustfst-python/rustfst", "rustfst-ffi/src"], [("check_ffi_error()", "rustfst-python/rustfst/ffi_utils.py"), ("class VectorFst", "rustfst-python/rustfst/fst/vector_fst.py")])

p("C29", "The command line tools compute what the library computes",
  "Each command line subcommand reads its input files, applies the named operation with the given options and writes a machine with the weighted relation the specification gives that operation, exiting with an error for unreadable input.",
  ["inputs", "configurations"], "all subcommands, options and input files",
  "the CLI has no tests",
  ["rustfst-cli/src"], [("subcommands", "rustfst-cli/src/cmds")])

p("C30", "Weight factoring preserves the relation and leaves factored weights",
  "Factoring transition and final weights into chains of transitions leaves the weighted relation unchanged and every resulting weight unfactorable.",
  ["inputs", "configurations"], "all machines and factor options, string and gallic factor iterators",
  "tests only reach it through determinization",
  [A + "factor_weight"], [("factor iterators", A + "factor_weight/factor_iterators")])

p("C31", "Symbol tables stay with the tape they describe",
  "The symbol tables attached to an operand follow its tapes into the result: operations that keep the tapes (trimming, sorting, epsilon removal, pushing, minimization, determinization, shortest paths, encoding, conversion, serialization, ...) keep both tables, inversion exchanges them, projection gives both tapes the table of the tape it keeps, composition takes the input table of the first and the output table of the second operand, union, concatenation and replacement take those of the first operand listed, in lazy and eager form alike and also for empty results; relabelling by tables leaves exactly the new tables it was told to attach.",
  ["inputs", "configurations", "operation sequences"], "all machines with 0, 1 or 2 attached tables per operand, eager and lazy forms",
  "tests compare machines with an equality that ignores symbol tables",
  [A + "inversion.rs", A + "projection.rs", A + "lazy/lazy_fst.rs", "rustfst/src/fst_traits/mutable_fst.rs"], [("set_symts_from_fst", "rustfst/src/fst_traits/mutable_fst.rs"), ("compute", A + "lazy/lazy_fst.rs")])

p("C32", "A drawing shows exactly the machine",
  "The DOT file drawn for a machine with a start state shows every state exactly once (its number, a double circle iff it is final, bold iff it is the start, its final weight), the start state first, and every transition exactly once with its source, target, labels and weight: labels are spelt by the attached symbol table of their tape and by number without one, output labels are left out for acceptors, weights are left out when hidden or when they are one and ones are hidden, whatever the layout options; a label missing from its table is reported as an error, and a machine without start draws as nothing.",
  ["inputs", "configurations"], "all machines, symbol tables and drawing options, vector and constant machines",
  "tests only check that drawing does not fail",
  ["rustfst/src/fst_traits/serializable_fst.rs", "rustfst/src/drawing_config.rs"], [("draw", "rustfst/src/fst_traits/serializable_fst.rs")])

p("C33", "A lazy machine can be saved part-way and resumed",
  "Writing the cache and the operation state of a partly explored lazy composition to files, reading them back and carrying on from them is invisible: every answer given before and after the interruption, in whatever order states are asked for and however often this is repeated, is an answer of one and the same machine with one numbering of its states, and that machine is the composition, for every composition filter (including the label- and weight-pushing look-ahead filters) and both caches.",
  ["inputs", "histories", "configurations"], "all machine pairs, exploration orders and interruption points, all filters, hash and vector caches",
  "tests save one fixed machine",
  [A + "lazy/cache", A + "lazy/state_table.rs", A + "compose/compose_fst_op.rs", A + "compose/filter_states"], [("write/read", A + "lazy/cache"), ("StateTable", A + "lazy/state_table.rs")])

p("C34", "Weights multiply in path order, also when they do not commute",
  "Over string and gallic weights, whose product is not commutative, every operation defined for them multiplies weights in the order of the path: union, concatenation, closure, trimming, sorting, adding a super-final state and path enumeration keep the weight of every path, reversal reverses it, summing operations (arc merging, epsilon removal, final-epsilon removal, shortest distance) give the ordered sums, weight pushing in either direction keeps every path's product (up to the removed total weight), and determinization of a machine with one output per input keeps it.",
  ["inputs"], "all machines over the seven string and gallic weight types (bounded alphabet, size and word length)",
  "tests use commutative weights almost everywhere",
  [A + "rm_final_epsilon.rs", A + "reweight.rs", A + "push.rs", A + "shortest_distance.rs", A + "rm_epsilon", A + "reverse.rs", A + "determinize", "rustfst/src/fst_path.rs"], [("reweight", A + "reweight.rs"), ("rm_final_epsilon", A + "rm_final_epsilon.rs")])

p("C35", "Matchers find exactly the transitions that match a label",
  "Asked for a label at a state of a machine sorted on the matched side, a matcher delivers exactly the transitions with that label there; for epsilon also the loop that stays in place; for 'no label' the transitions that consume nothing. A sigma matcher adds the sigma transitions, rewritten, for every symbol sigma may match; a multi-epsilon matcher, whatever labels were added to and removed from its set, treats exactly the labels of the set as further epsilons (listing their transitions, or answering a loop). Look-ahead matchers match like the matcher they wrap. A matcher declares itself usable only on sorted machines, and a state with sigma transitions requires to drive the matching.",
  ["inputs", "histories"], "all machines, sides, requested labels, sets of allowed symbols and histories of the multi-epsilon set (bounded alphabet and size)",
  "tests exercise matchers only through whole compositions with at most one extra epsilon",
  [A + "compose/matchers/sorted_matcher.rs", A + "compose/matchers/sigma_matcher.rs", A + "compose/matchers/multi_eps_matcher.rs", A + "compose/lookahead_matchers"], [("MultiEpsMatcher::iter", A + "compose/matchers/multi_eps_matcher.rs"), ("SortedMatcher::iter", A + "compose/matchers/sorted_matcher.rs")])

p("C36", "Look-ahead questions are answered exactly",
  "An interval set holds exactly the points of the intervals put into it: after normalisation it lists their maximal runs, counts them, and answers membership. State reachability answers, for every state and final state not on a cycle, whether the one reaches the other. Label reachability answers, for every state and label, whether the label can be read after epsilons, and whether a final state can be reached by epsilons; looking ahead into another machine finds exactly the span of its transitions that can be continued, their total weight, and a unique continuation only when there is one.",
  ["inputs", "histories"], "all machines and pairs of machines, cyclic ones included, all histories of interval sets (bounded alphabet and size)",
  "over-permissive look-ahead changes no composition result and is invisible to tests of compositions",
  [A + "compose/interval_set.rs", A + "compose/label_reachable.rs", A + "compose/state_reachable.rs", A + "compose/interval_reach_visitor.rs", A + "compose/lookahead_matchers/label_lookahead_matcher.rs"], [("LabelReachable::reach", A + "compose/label_reachable.rs"), ("IntervalSet::normalize", A + "compose/interval_set.rs")])

TECH = {}
def main():
    claimed = [x["id"] for x in P if x["id"] in plans.PLANS]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            if x["id"] in plans.DROPPED:
                continue
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "checks": [dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique="TLA+ specification checked with TLC; trace validation of the real code against it" + plans.TECH.get(i, ""),
                           level=plans.LEVEL.get(i, "model_checking"),
                           level_note=plans.NOTE.get(i, plans.DEFNOTE)) for i in claimed],
           "not_applicable": [dict(property=x["id"], reason=plans.NA.get(x["id"], "check not built yet")) for x in P
                              if x["id"] not in plans.PLANS and x["id"] not in plans.DROPPED],
           "notes": "TLA+ with TLC. One specification (spec/RustFst.tla and the modules it extends); every check drives the real library with generated histories, records each call, and lets TLC decide whether the recorded behaviour is one the specification allows."}
    if plans.HOOKS:
        man["hooks"] = plans.HOOKS
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        for a in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), (x["id"], a)
    print(len(P), "properties,", len(claimed), "claimed")
main()
