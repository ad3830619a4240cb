#!/usr/bin/env python3
# Source of properties.jsonl (run once by hand after editing; the checks do not run it).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T="tests fix a handful of concrete operands; "
p("C01","Union denotes set union","For any SDDs with the same structure (flat or hierarchical, over any supported set of values), the union of two or more of them contains an assignment exactly when at least one operand contains it, whatever the number and order of the operands.",
  ["inputs","histories"],"every pair/tuple of compatible SDDs, every assignment",T+"union must be right for every overlap pattern of valuations and successors",
  ["sdd/dd/sum.hh","sdd/dd/square_union.hh","sdd/dd/nary.hh","sdd/dd/alpha.hh"],[("sum_op_impl partition refinement","sdd/dd/sum.hh"),("square_union merges equal successors","sdd/dd/square_union.hh")],["operator+","sum(begin,end)"])
p("C02","Intersection denotes set intersection","For any SDDs with the same structure, the intersection of two or more of them contains an assignment exactly when every operand contains it.",
  ["inputs","histories"],"every pair/tuple of compatible SDDs, every assignment",T+"intersection must be right for every overlap pattern",
  ["sdd/dd/intersection.hh","sdd/dd/nary.hh"],[("intersection_op_impl","sdd/dd/intersection.hh")],["operator&","intersection(begin,end)"])
p("C03","Difference denotes set difference","For any two SDDs with the same structure, their difference contains an assignment exactly when the left operand contains it and the right one does not.",
  ["inputs","histories"],"every pair of compatible SDDs, every assignment",T+"difference must be right for every overlap pattern",
  ["sdd/dd/difference.hh"],[("difference_visitor","sdd/dd/difference.hh")],["operator-"])
p("C04","SDDs are canonical: same set if and only if same handle","Two SDDs with the same structure compare equal exactly when they contain the same assignments, however each was built and whatever happened in between. Every node of a result is in canonical form: its arcs carry non-empty, pairwise disjoint valuations and lead to pairwise distinct, non-empty successors.",
  ["inputs","histories"],"every set, every two ways of building it with the set operations",T+"equality is pointer equality, so it depends on every construction history giving the same partition",
  ["sdd/dd/definition.hh","sdd/dd/node.hh","sdd/dd/alpha.hh","sdd/dd/square_union.hh","sdd/mem/unique_table.hh"],[("unification in the unique table","sdd/mem/unique_table.hh"),("node equality and hash","sdd/dd/node.hh")],["operator== on SDD","iteration over node arcs"])
p("C05","Incompatible operands raise an error and change nothing","Combining two non-empty SDDs with a set operation raises the incompatibility error, instead of returning a value, whenever the operation meets two parts of different structure (different variables, flat against hierarchical, a terminal against a level), be it at the root, inside a nested level or after a common prefix; afterwards every existing SDD, including the target of a compound assignment, is unchanged, and every later operation gives the same results as if the failed operation had not been attempted.",
  ["inputs","fault_sequences","histories"],"every incompatible pair or tuple of operands at any depth, every later operation",T+"the failure may occur at any depth of a recursion that has already used caches, arena and tables",
  ["sdd/dd/check_compatibility.hh","sdd/dd/top.hh","sdd/mem/cache.hh","sdd/dd/nary.hh"],[("check_compatibility","sdd/dd/check_compatibility.hh"),("cache rollback on exception","sdd/mem/cache.hh")],["exception sdd::top","operations after it"])
p("C06","size() counts the assignments exactly","The size of an SDD is exactly the number of assignments it contains, as an unbounded integer: 0 for the empty set, 1 for the terminal one.",
  ["inputs"],"every SDD, flat or hierarchical",T+"counts depend on the sharing of nodes and on the sizes of all valuations",
  ["sdd/dd/count_combinations.hh","sdd/values/size.hh"],[("count_combinations_visitor with a memo table","sdd/dd/count_combinations.hh")],["SDD::size()"])
p("C07","Path enumeration lists exactly the assignments","Iterating over the paths of a non-empty SDD yields a family of products of value sets, one set per flat level in traversal order, which are pairwise disjoint and whose union is exactly the set of assignments of the SDD.",
  ["inputs"],"every SDD, flat or hierarchical",T+"the enumeration is a coroutine with a hand-kept stack over shared nodes",
  ["sdd/dd/path_generator.hh","sdd/dd/path_generator_fwd.hh","sdd/dd/sdd_stack.hh"],[("paths visitor and path stack","sdd/dd/path_generator.hh")],["SDD::paths()"])
p("C08","Construction denotes the product of its valuations","An SDD built from a variable, a valuation and a successor contains exactly the assignments made of a value of the valuation followed by an assignment of the successor (none when either is empty); an SDD built from an order and an initializer contains exactly the product of the initial values, at the place the order gives to every identifier.",
  ["inputs","configurations"],"every valuation, every successor, every order shape, every initializer",T+"only a few orders and values are built",
  ["sdd/dd/definition.hh","sdd/order/order.hh"],[("create_node","sdd/dd/definition.hh")],["SDD constructors"])
p("C09","flat_set behaves as a mathematical set","Sets of values of the flat_set type implement set algebra: construction from any sequence, insertion, erasure, search, bounds, union, intersection and difference give the mathematical result, iteration is strictly increasing, iterators returned by an insertion designate the inserted value, and two flat_sets compare equal exactly when they hold the same values.",
  ["inputs","histories"],"every sequence of values and of operations",T+"unification and shared storage make every result depend on the sets alive at that time",
  ["sdd/values/flat_set.hh","sdd/values_manager.hh"],[("unification of sorted vectors","sdd/values/flat_set.hh")],["sdd::values::flat_set"])
p("C10","bitset behaves as a mathematical set of small integers","Sets of values of the bitset type implement set algebra over the integers below their capacity: construction, insertion, test, size, shifts, union, intersection and difference give the mathematical result, and equality and ordering are those of the sets.",
  ["inputs"],"every content of the words",T+"only a few bit patterns are tried",
  ["sdd/values/bitset.hh"],[("std::bitset operations","sdd/values/bitset.hh")],["sdd::values::bitset"])
p("C11","Equal objects hash equally and ordering is strict","For every hashable public type (value sets, SDDs, orders and order identifiers, homomorphisms), equal objects have equal hashes, equality is an equivalence, and where an ordering is offered it is a strict weak ordering consistent with equality.",
  ["inputs"],"every pair and triple of objects","hash containers silently lose entries when this fails; tests never compare hashes of distinct equal objects",
  ["sdd/util/hash.hh","sdd/values/bitset.hh","sdd/values/flat_set.hh","sdd/order/order.hh","sdd/order/order_identifier.hh","sdd/dd/definition.hh"],[("std::hash specializations","sdd/**")],["std::hash<...>, operator==, operator<"])
p("C12","Elementary and combined homomorphisms mean what they say","Identity returns its operand, a constant returns its SDD on any non-empty operand and the empty set on the empty one, cons prefixes its operand's images with a level, composition applies its operands from right to left, and a sum returns the union of the images; every application distributes over the union of operands and returns a canonical SDD.",
  ["inputs","programs"],"every operand, every combination of operations to a given depth",T+"combinations of operators and operands are unbounded",
  ["sdd/hom/identity.hh","sdd/hom/constant.hh","sdd/hom/cons.hh","sdd/hom/composition.hh","sdd/hom/sum.hh","sdd/hom/evaluation.hh"],[("evaluation visitor","sdd/hom/evaluation.hh")],["homomorphism::operator()"])
p("C13","A function homomorphism maps exactly one level","A user function on a set of values attached to an identifier transforms, in every assignment, exactly the values at that identifier's level and leaves all other levels alone, whether it is declared a selector, a shifter or neither; assignments whose image is empty disappear. The result is the canonical SDD of these assignments.",
  ["inputs","programs"],"every operand, every position of the identifier in the order, every function",T+"few functions and positions are tried",
  ["sdd/hom/function.hh","sdd/hom/evaluation.hh","sdd/hom/context.hh"],[("skip predicate and level dispatch","sdd/hom/function.hh")],["function(order, id, f)"])
p("C14","A local homomorphism acts inside one hierarchical level only","Applying a homomorphism locally to an identifier of the list of levels it is evaluated on transforms exactly the nested part at that identifier's level by it and leaves the other levels alone; assignments whose nested image is empty disappear. The result is the canonical SDD of these assignments.",
  ["inputs","programs"],"every operand, every nested homomorphism, every position of the identifier",T+"few nested homomorphisms and partitions are tried",
  ["sdd/hom/local.hh"],[("selector fast path and square union","sdd/hom/local.hh")],["local(id, order, hom)"])
p("C15","An inductive homomorphism follows its definition","A user inductive homomorphism is applied by unfolding its definition level by level on the operand: the result is the union, over the levels and valuations, of the homomorphism it returns applied to the successor, its terminal value on the terminal, and nothing where it says to stop; levels it declares skipped are left unchanged.",
  ["inputs","programs"],"every operand, every inductive definition",T+"few inductive homomorphisms are tried",
  ["sdd/hom/inductive.hh"],[("inductive operator()","sdd/hom/inductive.hh")],["inductive(...)"])
p("C16","Fixpoint returns the least fixpoint reached from its operand","Applying a fixpoint returns the first value of the sequence x, h(x), h(h(x)), ... that is equal to its own image; the result is stable under the homomorphism.",
  ["inputs","programs"],"every operand and every homomorphism whose iteration terminates",T+"few transition relations are iterated",
  ["sdd/hom/fixpoint.hh"],[("iteration until stable","sdd/hom/fixpoint.hh")],["fixpoint(h)"])
p("C17","Conditionals and intersections of selectors filter exactly","if_then_else(p, a, b) returns a applied to the assignments kept by the selector p united with b applied to the others; the intersection of selectors keeps exactly the assignments that all of them keep. Exactly the combinations of selectors are accepted as a predicate, others being refused with an error, as are sums and intersections without operand.",
  ["inputs","programs"],"every operand, every selectors p, every a and b",T+"few predicates and operands are tried",
  ["sdd/hom/if_then_else.hh","sdd/hom/intersection.hh"],[("evaluation of if_then_else and intersection","sdd/hom/if_then_else.hh")],["if_then_else","intersection(homs)"])
p("C18","Rewriting a homomorphism never changes what it computes","For any order and any homomorphism built for it, the rewritten (saturated) homomorphism returns on every SDD of that order the same result as the original one.",
  ["inputs","programs"],"every homomorphism built from the public constructors, every order shape, every operand",T+"the saturation rules depend on positions, skips and nesting; tests compare a few rewritten terms syntactically",
  ["sdd/hom/rewrite.hh","sdd/hom/saturation_sum.hh","sdd/hom/saturation_fixpoint.hh","sdd/hom/saturation_intersection.hh"],[("rewrite visitor partitions operands by level","sdd/hom/rewrite.hh")],["rewrite(order, h)"])
p("C19","Homomorphism handles identify equal operations","Building the same homomorphism twice gives equal handles, different operations give different handles, and the algebraic simplifications made while building (identity in compositions, single or duplicate operands, local identity, and the like) yield handles with unchanged meaning.",
  ["inputs","programs"],"every pair of homomorphisms built from the public constructors",T+"few pairs are compared",
  ["sdd/hom/definition.hh","sdd/hom/sum.hh","sdd/hom/composition.hh","sdd/hom/local.hh","sdd/hom/consolidate.hh"],[("unification and smart constructors","sdd/hom/*.hh")],["operator== on homomorphism"])
p("C20","A failing or interrupted evaluation leaves the library intact","When a user function, inductive definition or initializer throws, or incompatible operands are met, during an evaluation, that exception reaches the caller; afterwards every existing handle, the same evaluation tried again and every later evaluation give the same results as if the failed evaluation had not been attempted, and the failed evaluation keeps no memory.",
  ["fault_sequences","histories","inputs"],"every evaluation step at which a failure can happen, every later evaluation",T+"failure points are not enumerated by the tests",
  ["sdd/mem/cache.hh","sdd/hom/evaluation.hh","sdd/hom/context.hh","sdd/dd/top.hh"],[("cache entry removal on exception","sdd/mem/cache.hh")],["exceptions from homomorphism::operator()"])
p("C21","The operation cache returns only what the operation computes","For any sequence of lookups, evictions, failures and clears and any capacity, the value the cache gives for an operation is the value that operation computes, an entry being recomputed when it is no longer stored.",
  ["histories","inputs","configurations","fault_sequences"],"every sequence of requests, every capacity, every hash value",T+"eviction and clear combinations are hardly reached",
  ["sdd/mem/cache.hh","sdd/mem/cache_entry.hh","sdd/mem/lru_list.hh"],[("LRU eviction","sdd/mem/cache.hh")],["mem::cache::operator()"])
p("C22","Results do not depend on cache sizes, table sizes or cache resets","Any computation on SDDs and homomorphisms gives the same results whatever the configured sizes of the tables, caches and temporary buffer, and whatever resets of the homomorphism cache happen in between.",
  ["configurations","histories","inputs"],"every configuration of sizes, every point of reset",T+"tests run with one huge configuration in which nothing is ever evicted",
  ["sdd/conf/default_configurations.hh","sdd/mem/cache.hh","sdd/mem/unique_table.hh","sdd/mem/linear_alloc.hh","sdd/manager.hh"],[("configuration sizes","sdd/conf/default_configurations.hh"),("reset_hom_cache","sdd/manager.hh")],["results under different configurations"])
p("C23","Nodes live exactly as long as they are referenced","A handle always designates the same set until it is reassigned, whatever copies, moves, swaps, assignments (including to itself) and destructions are made of other handles; no access ever touches released memory, and data that nothing references any more is released.",
  ["histories","inputs"],"every sequence of copies, moves, swaps, assignments and destructions",T+"a single reference-count error shows only in specific sequences",
  ["sdd/mem/ptr.hh","sdd/mem/unique.hh","sdd/mem/unique_table.hh","sdd/internal_manager.hh"],[("intrusive reference counting","sdd/mem/ptr.hh"),("deletion handler erases from the table","sdd/mem/unique_table.hh")],["handles, live heap blocks"])
p("C24","The hash table is a set under insertion, removal and growth","For any sequence of insertions and removals and any hash values, an element is found exactly when an equal element was inserted and not removed, the size is the number of elements, and growing loses or duplicates nothing.",
  ["histories","inputs"],"every sequence, every assignment of hash values (including full collisions)",T+"few sequences, real hashes",
  ["sdd/mem/hash_table.hh"],[("chained buckets and rehash","sdd/mem/hash_table.hh")],["mem::hash_table"])
p("C25","Temporary arena blocks never overlap","Blocks handed out by the temporary arena that are live at the same time never overlap and lie in the buffer or on the heap when the buffer is full; rewinding gives back exactly what was allocated since the mark.",
  ["histories","inputs"],"every sequence of allocations, releases and rewinds, every size",T+"exhaustion and fallback are not reached by tests",
  ["sdd/mem/linear_alloc.hh"],[("bump allocation with heap fallback and rewinder","sdd/mem/linear_alloc.hh")],["mem::linear_alloc, mem::rewinder"])
p("C26","Size rounding returns the next power of two","Rounding a size returns the smallest power of two that is not smaller, for every size up to the largest power of two of the type.",
  ["inputs"],"every 32- and 64-bit size",T+"tests sample a few sizes",
  ["sdd/util/next_power.hh"],[("bit smearing","sdd/util/next_power.hh")],["util::next_power_of_2"])
p("C27","An order reflects the builder it was made from","An order built from a builder has the same shape and identifiers, gives every level a distinct position in depth-first order, numbers the variables of each list of levels consecutively down to zero, finds every identifier at its node, knows which levels lie inside which, and lists the flat identifiers in order; two orders are equal exactly when their shapes and identifiers are.",
  ["inputs","configurations"],"every builder tree, every identifiers",T+"few trees are tried",
  ["sdd/order/order.hh","sdd/order/order_node.hh","sdd/order/order_identifier.hh"],[("recursive numbering","sdd/order/order.hh")],["order accessors"])
p("C28","Bad identifiers are reported, never mistaken","Building an order in which a user identifier occurs twice raises the duplicate error naming it and building one without duplicates does not; looking up an identifier that is not in the order raises the not-found error naming it.",
  ["inputs"],"every builder tree, every identifiers",T+"few trees are tried",
  ["sdd/order/order.hh","sdd/order/order_error.hh"],[("unicity set","sdd/order/order.hh")],["duplicate_identifier_error, identifier_not_found_error"])
p("C29","Order builders compose without side effects","Pushing, nesting and concatenating builders give the expected tree (size, height, sequence of identifiers) and never change a builder other than the one operated on.",
  ["inputs","histories"],"every sequence of builder operations",T+"builders share structure, so aliasing shows only in sequences",
  ["sdd/order/order_builder.hh"],[("persistent linked nodes","sdd/order/order_builder.hh")],["order_builder"])
p("C30","Order strategies keep every identifier, in order","Flattening a builder keeps exactly its flat identifiers in the same order on one level; grouping by a given number (at least two) of identifiers per hierarchy keeps the identifiers and the user's hierarchies in the same order, and the top list of levels as well as every level it creates has at most that number of entries; neither changes its operand, and grouping by zero or one returns the builder as it is.",
  ["inputs","configurations"],"every builder, every group size",T+"few sizes are tried",
  ["sdd/order/strategies/flatten.hh","sdd/order/strategies/identifiers_per_hierarchy.hh"],[("packetize","sdd/order/strategies/identifiers_per_hierarchy.hh")],["flatten, identifiers_per_hierarchy"])
p("C31","FORCE returns a permutation, the best it went through","The FORCE ordering heuristic returns an order holding exactly the vertices' identifiers, each once, for any hypergraph, in an order whose total span is the smallest of all the orders it computed during its iterations; a list of vertices in which an identifier occurs twice is refused with an error.",
  ["inputs","configurations"],"every hypergraph",T+"few hypergraphs are tried",
  ["sdd/order/strategies/force.hh","sdd/order/strategies/force_hypergraph.hh","sdd/order/strategies/force_hyperedge.hh","sdd/order/strategies/force_vertex.hh"],[("iteration on centers of gravity","sdd/order/strategies/force.hh")],["force::worker"])
p("C32","One live manager per configuration","Initializing a configuration that is already initialized raises an error and disturbs nothing; once the last copy of a manager is gone the configuration can be initialized again and everything it had allocated has been released; two different configurations that are initialized at the same time never interfere: sharing a type of values that keeps a global state is refused with the same error, which disturbs nothing.",
  ["histories","configurations"],"every sequence of initializations, manager copies, destructions and operations",T+"tests keep one manager per process",
  ["sdd/manager.hh","sdd/internal_manager.hh","sdd/values_manager.hh"],[("global pointers","sdd/manager.hh")],["init(), manager"])
p("C33","Statistics describe the SDD they are given","The node, arc, size-in-bytes and statistics tools report, for any SDD, each distinct node exactly once, arcs grouped by their number per node, and the same totals whatever the order of traversal.",
  ["inputs"],"every SDD, flat or hierarchical",T+"one or two diagrams are measured",
  ["sdd/tools/nodes.hh","sdd/tools/arcs.hh","sdd/tools/size.hh","sdd/tools/sdd_statistics.hh"],[("visitors with a visited set","sdd/tools/*.hh")],["tools::nodes, tools::arcs, tools::size"])
p("C34","Printed text and DOT graphs describe the object faithfully","The text printed for a set of values, an SDD, an order or a homomorphism, and the DOT graph written for an SDD or a homomorphism, describe that object and no other: the text is well formed, each set names each of its values once, each order each of its levels with its identifier and variable, each node of a DOT graph is declared once with one arc per arc of the object, and reading the description back gives the same set, SDD, order or homomorphism. For homomorphisms this concerns those built by the user: identity, function, local, composition, sum, fixpoint and if-then-else and, in text, intersection, constant and cons too.",
  ["inputs"],"every set, SDD, order and homomorphism",T+"no test reads the output back",
  ["sdd/dd/definition.hh","sdd/dd/node.hh","sdd/dd/stack.hh","sdd/values/flat_set.hh","sdd/values/bitset.hh","sdd/order/order.hh","sdd/hom/*.hh (operator<<)","sdd/tools/dot/sdd.hh","sdd/tools/dot/homomorphism.hh"],[("ostream visitors","sdd/tools/dot")],["operator<<","tools::dot"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
