#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "tree_iterators_rs/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))
ITER = [S+"bfs_iterators", S+"dfs_preorder_iterators", S+"dfs_inorder_iterators", S+"dfs_postorder_iterators"]
TR = "assumes the bounded shapes are representative; trusts rustc and the reference model (plain recursion over an explicit tree)"

p("C01", "Traversals visit every node exactly once, in the documented order",
  "For any n-ary or binary tree, owned, mutably borrowed or borrowed, breadth-first, pre-order, in-order and post-order iteration yields the value of every node exactly once, in the order that traversal is defined to have. Iteration then ends, borrowed trees are left unchanged, and in-place changes made through mutable iteration land on exactly the yielded nodes.",
  ["inputs"], "every tree shape, every node implementation, every ownership mode, every traversal order",
  "The tests run each traversal on three or four hand-written trees; a queue, stack or sibling-cursor slip that needs another shape (empty children between siblings, one-sided binary nodes, deep then wide) is outside them.",
  ITER+[S+"prelude.rs"],
  [("queue of sibling iterators", S+"bfs_iterators/mod.rs: bfs_next"), ("stack of sibling iterators", S+"dfs_preorder_iterators/mod.rs: dfs_preorder_next, "+S+"dfs_postorder_iterators/mod.rs: dfs_postorder_next"), ("right-child stack and moving node", S+"dfs_inorder_iterators/mod.rs: dfs_inorder_next")],
  "exhaustive enumeration of tree shapes on the real code against a recursive reference model", "every shape up to the bound, every traversal, three n-ary and two binary node implementations; "+TR)
p("C02", "leaves() yields exactly the leaves not yet passed, in order",
  "Calling leaves() on a traversal that has already yielded any number of elements gives exactly the leaves among the elements still to come, in the order of that traversal (left to right for the depth-first orders, by level for breadth-first), each exactly once.",
  ["inputs", "histories"], "every tree shape, every traversal and ownership mode, every number of elements consumed before leaves()",
  "The tests call leaves() mostly on a fresh iterator and on one tree shape; the state carried over from a half-finished traversal differs at every point of every shape.",
  [S+"leaves_iterators", *ITER], [("remaining traversal state is moved into a leaves iterator", S+"leaves_iterators/depth_first, "+S+"leaves_iterators/breadth_first"), ("fn leaves", S+"*_iterators/{owned,mut_borrow,borrow}.rs")],
  "exhaustive enumeration of shapes x switch points on the real code against a reference model", "every shape up to the bound and every switch point; "+TR)
p("C03", "attach_ancestors() yields the exact root-to-node value stack",
  "With attach_ancestors(), each step yields the values of all nodes on the path from the root to the current node, in that order, for every traversal and ownership mode. Calling leaves() on it at any point yields the remaining leaves, each with its own exact ancestor stack.",
  ["inputs", "histories"], "every tree shape, traversal, ownership mode, and every point at which leaves() is called",
  "The stack must be popped and pushed by the right amount for every possible move between consecutive nodes; a few fixed trees exercise a few of those moves.",
  [*ITER, S+"leaves_iterators"], [("ancestors stack maintenance", S+"*_iterators/mod.rs: *_ancestors_streaming_iterator_impl"), ("breadth-first parents tree", S+"bfs_iterators/mod.rs: bfs_ancestors_advance_iterator, "+S+"leaves_iterators/ancestors_breadth_first")],
  "exhaustive enumeration of shapes x switch points on the real code against a reference model", "every shape up to the bound; in-place modifications must stay visible in later ancestor stacks; "+TR)
p("C04", "attach_context() reports exact path, depth, ancestors and children",
  "With attach_context(), every step reports the node's ancestors' values, its path of child indexes from the root (0 and 1 for left and right), its depth, and - wherever children are documented as available - exactly its children in order. Values changed through the context stay changed in later contexts.",
  ["inputs"], "every tree shape, traversal, ownership mode and node implementation",
  "Path, depth, ancestors and children are four pieces of state that must be moved in step; the tests compare them on one tree per node kind.",
  [*ITER, S+"tree_context.rs"], [("path and ancestors bookkeeping", S+"*_iterators/mod.rs: *_context_streaming_iterator_impl"), ("accessors", S+"tree_context.rs")],
  "exhaustive enumeration of tree shapes on the real code against a reference model", "every shape up to the bound; "+TR)
p("C05", "Editing children through a context redirects the traversal accordingly",
  "When the children handed out by an owned or mutable context of a breadth-first or pre-order traversal are edited (removed, replaced, added, swapped), the traversal goes on in the edited collection, with paths, ancestors and order as if the tree had had those children; nodes already passed are not revisited. Edits made to a mutably borrowed tree's own child collections, and to the values of children, are still in the tree afterwards.",
  ["inputs", "histories"], "every tree shape, traversal, ownership mode; every edit, or pair or triple of edits, at every step",
  "The tests edit at one or two places of one tree; the outcome depends on when the traversal reads the children and on the state of its queue or stack at that step.",
  [*ITER, S+"tree_context.rs", "tree_iterators_rs/doc_files/tree_context_children.md"], [("children taken from the context on the following advance", S+"*_iterators/mod.rs: *_context_streaming_iterator_impl")],
  "exhaustive enumeration of shapes x edit plans on the real code against a reference model", "every plan of up to 3 edits within the bounds; "+TR)
p("C06", "at_path finds exactly the node a path addresses, or nothing",
  "For every tree and path, at_path returns the value at the node reached by following the child indexes, and None exactly when some index does not exist; the empty path is the root, and for collections the first index selects the tree (an empty path selects nothing). The paths reported by attach_context address their own nodes.",
  ["inputs"], "every tree or collection shape, every path including out-of-range indexes and over-long paths, every ownership mode",
  "Each test follows a handful of paths; the interesting ones are near misses: one past the last child, through a missing binary child, one step past a leaf, very large indexes.",
  [S+"prelude.rs", "tree_iterators_rs/doc_files/at_path.md"], [("at_path loops", S+"prelude.rs: fn at_path")],
  "exhaustive enumeration of shapes x paths on the real code against a reference model", "every path over a small index alphabet (plus usize::MAX) up to height+1 (+2 for collections); "+TR)
p("C07", "map and map_path keep the shape and map every value once, in pre-order",
  "Mapping a tree produces a tree of the same shape whose node values are the closure's results; the closure is called exactly once per node, in pre-order, and map_path hands it the node's exact path. This holds for every ownership mode and for each tree of a collection, and the source is otherwise untouched.",
  ["inputs"], "every tree shape, node implementation and ownership mode",
  "Stale or shifted paths appear only at particular moves (returning from a deep subtree to a sibling); tests compare a single tree.",
  [S+"prelude.rs", S+"tree_iterators"], [("map stages and collect_tree", S+"tree_iterators/map.rs, map_path.rs, mod.rs: collect_tree")],
  "exhaustive enumeration of tree shapes on the real code against a reference model", "every shape up to the bound, direct methods and the equivalent pipelines; "+TR)
p("C08", "fold and fold_path combine children before parents, exactly once",
  "Folding calls the closure exactly once per node in post-order, hands it the results of exactly that node's children in their order (or left and right slots, absent children as None), and fold_path also hands it the node's exact path; the root's result is returned. For collections this holds for each tree, with paths prefixed by the tree's index.",
  ["inputs"], "every tree shape, node implementation and ownership mode",
  "The result stack must be split at the right place for every mix of leaf and inner siblings; one tree per test samples that.",
  [S+"tree_iterators/mod.rs", S+"prelude.rs"], [("fold stack", S+"tree_iterators/mod.rs: fold_tree, fold_path")],
  "exhaustive enumeration of tree shapes on the real code against a reference model", "the fold rebuilds the tree, so any misattributed child shows; "+TR)
p("C09", "prune and prune_path remove exactly the selected subtrees",
  "Pruning removes exactly the subtrees rooted at nodes for which the closure returns true and keeps everything else in shape and order; pruning the root gives None. The closure is called once per surviving or removed-root node in pre-order and never for descendants of a removed node, and prune_path hands it the node's exact path in the original tree. For collections this holds for each tree, with paths prefixed by the tree's index.",
  ["inputs"], "every tree shape and every set of nodes to prune, every ownership mode",
  "Skipping a subtree is a stack operation whose correctness depends on what follows it; two-to-the-n prune sets per shape cannot be sampled by a few cases.",
  [S+"tree_iterators", S+"prelude.rs"], [("prune_current_subtree and the prune stages", S+"tree_iterators/prune.rs, prune_path.rs, mod.rs")],
  "exhaustive enumeration of shapes x prune sets on the real code against a reference model", "every subset of nodes for every shape up to the bound; "+TR)
p("C10", "prune_depth keeps exactly the nodes down to the limit",
  "prune_depth(d) keeps exactly the nodes at depth at most d, in unchanged shape and order, for every d including 0 and limits beyond the tree's height, for single trees and for each tree of a collection; values are untouched.",
  ["inputs"], "every tree shape, every limit, every ownership mode",
  "Off-by-one errors at the limit show only for particular pairs of limit and shape.",
  [S+"tree_iterators/prune_depth.rs", S+"tree_iterators/mod.rs"], [("prune_depth stage", S+"tree_iterators/prune_depth.rs")],
  "exhaustive enumeration of shapes x limits on the real code against a reference model", "every limit up to height+2 and usize::MAX; "+TR)
p("C11", "Pipelines of stages equal applying the stages one after another",
  "Any chain of map, map_path, prune, prune_path and prune_depth on a tree, consumed by iterating, collecting or folding, gives what applying the stages one at a time to whole trees gives. Each stage's closure sees exactly the nodes that reach it, in pre-order, with the path each node has in the tree arriving at that stage; current_path and current_depth agree.",
  ["inputs", "programs"], "every chain of stages up to a length, every prune set and depth limit, every tree shape, every ownership mode, every way of consuming it",
  "Each stage keeps its own path counters that have to agree with what earlier stages removed; tests compose a few stages on one tree.",
  [S+"tree_iterators"], [("per-stage path counters", S+"tree_iterators/prune.rs, prune_path.rs"), ("path-tracking source", S+"dfs_preorder_iterators/mod.rs: dfs_preorder_next_with_path_tracking")],
  "exhaustive enumeration of stage chains x shapes on the real code against a compositional reference model", "every chain up to the stated length with every parameter; stages are carried in boxes that implement the crate's public traits; "+TR,
  state=[("current_path", "path of the last yielded node in the tree the stage outputs", S+"tree_iterators/*.rs")])
p("C12", "Collection traversals visit tree after tree with exact contexts",
  "The *_each traversals of a collection yield the elements of each tree in turn, in the collection's order, exactly as the traversal of that tree alone would; with attach_context() paths are prefixed by the tree's index while ancestors and depth stay relative to the tree. Empty collections yield nothing.",
  ["inputs"], "every collection of trees, every supported container, every traversal and ownership mode",
  "State must be reset at each tree boundary; the tests use a fixed collection of like trees.",
  [S+"collection_iterators.rs", S+"prelude.rs"], [("per-tree inner iterator and tree index", S+"collection_iterators.rs")],
  "exhaustive enumeration of forests x containers on the real code against a reference model", "every forest up to the bound in Vec, arrays, slices, iterators and a user-implemented collection; "+TR)
p("C13", "Collection map, fold and prune methods act on each tree lazily and exactly",
  "map, map_path, fold, fold_path, prune, prune_path and prune_depth _each give one result per tree (pruned-away roots give none) equal to the single-tree operation, with closure paths prefixed by the tree's index (in the collection that stage receives). Taking only some results yields exactly the first ones.",
  ["inputs", "histories"], "every collection, container, prune set, depth limit, and number of results taken",
  "Tree boundaries inside the shared iterator are where elements get lost or attributed to the neighbour; tests use one collection.",
  [S+"tree_collection_iterators", S+"prelude.rs"], [("tree boundary detection while collecting and folding", S+"tree_collection_iterators/trees.rs, fold.rs, fold_path.rs")],
  "exhaustive enumeration of forests x parameters x consumption prefixes on the real code against a reference model", "every forest up to the bound; "+TR)
p("C14", "Collection pipelines equal applying their stages one after another",
  "Any chain of map, map_path, prune, prune_path and prune_depth over a collection, consumed by iterating, collecting into trees or folding, gives what applying the stages one at a time to the whole collection gives, with each stage's closure seeing exactly the nodes that reach it and the paths they have there.",
  ["inputs", "programs"], "every chain of stages up to a length, every parameter, every collection and container, every way of consuming it",
  "As for single trees, plus whole trees disappearing from the collection between stages.",
  [S+"tree_collection_iterators"], [("per-stage path counters", S+"tree_collection_iterators/prune.rs, prune_path.rs"), ("path-tracking collection source", S+"dfs_preorder_iterators/{owned,mut_borrow,borrow}.rs: *CollectionIteratorWithPathTracking")],
  "exhaustive enumeration of stage chains x forests on the real code against a compositional reference model", "every chain up to the stated length with every parameter; "+TR)
p("C15", "Every owned value is dropped exactly once, whatever happens",
  "Values moved into the library are dropped exactly once, never leaked and never dropped twice: when iteration completes, when any iterator, pipeline or partial result is abandoned at any point, and when a user closure or a user node's accessor panics at any call.",
  ["inputs", "histories", "fault_sequences"], "every tree or collection, every API, every abandonment point, a panic at every call of a closure or accessor",
  "Leaks are invisible to functional tests, and unsafe storage (MaybeUninit, raw pointers) makes both leaks and double drops possible at specific points only.",
  [*ITER, S+"collection_iterators.rs", S+"tree_iterators", S+"tree_collection_iterators"], [("context storage of values and children", S+"*_iterators/{owned,mut_borrow,borrow}.rs")],
  "exhaustive enumeration of abandonment and panic points on the real code with drop-tracking values", "every value is tracked from construction to drop; "+TR)
p("C16", "attach_context and attach_ancestors refuse exactly once iteration has begun",
  "attach_context() and attach_ancestors() succeed on an iterator that has not yielded anything and panic on one that has yielded at least one element, for every traversal and ownership mode; the refusal drops every value exactly once.",
  ["inputs", "histories"], "every tree and collection, every traversal, every number of elements consumed before attaching",
  "The documented panic is checked by tests for a single position; a forgotten flag shows as silently wrong paths instead.",
  [*ITER, S+"collection_iterators.rs", "tree_iterators_rs/doc_files/attach_context.md"], [("started check", S+"*_iterators/*.rs: attach_context, attach_ancestors")],
  "exhaustive enumeration of shapes x attach points on the real code", "every attach point up to one past the end; "+TR)
p("C17", "Nodes are expanded lazily, and at most once",
  "A node's value-and-children accessor is called at most once per traversal, and top-down traversals (breadth-first, pre-order, map, prune, depth limits and path lookup) never expand a node or visit a child that is not needed for what they have yielded, so they also work on infinitely deep or wide trees and on infinite collections. A node's children iterator is not asked again once it has ended.",
  ["inputs", "histories"], "every finite tree shape, every infinite tree (deep or wide) given by a small automaton and infinite collections of them, every number of elements consumed",
  "Eager expansion gives the same values on the finite trees tests use; only counting accessor calls or an infinite tree tells the difference.",
  [*ITER, S+"prelude.rs"], [("one accessor call per node", S+"*_iterators/mod.rs")],
  "exhaustive enumeration of shapes and automaton-defined infinite trees with counted expansions", "finite shapes and automata up to the bound; at-most-once is checked exactly, laziness as an upper bound, so lazier code is never an alarm; "+TR)
p("C18", "Safe use never causes undefined behaviour",
  "No sequence of calls to the public, safe API - including abandoning iterators, calling leaves() anywhere and editing children - performs an invalid memory access, aliases a unique reference, reads an uninitialised or dead value, or drops a value twice.",
  ["inputs", "histories"], "every small tree, every traversal, transform and ownership mode, every abandonment point",
  "The iterators keep raw pointers, MaybeUninit slots and lifetime-extended references; undefined behaviour often gives right answers in a test run.",
  [*ITER, S+"collection_iterators.rs", S+"leaves_iterators", S+"tree_iterators"], [("unsafe blocks", S+"bfs_iterators/mod.rs, "+S+"dfs_postorder_iterators, "+S+"dfs_inorder_iterators, "+S+"tree_iterators/map_path.rs")],
  "exhaustive enumeration of small histories executed under the Miri interpreter, plus native alias and drop monitors", "every history of the stated bounds runs under Miri (Stacked Borrows); two known unsound interfaces are listed as known findings; "+TR)
p("C19", "Tree and BinaryTree behave as plain values",
  "Two trees are equal exactly when they have the same shape and equal values; clones (clone, clone_from, cloned()) are equal to and independent of the source; default trees have no children; and with the serde feature a tree survives serialisation and deserialisation unchanged in the documented field format.",
  ["inputs"], "every pair of small labelled trees, every shape",
  "No test compares, clones or serialises more than single examples.",
  [S+"prelude.rs"], [("derives and cloned()", S+"prelude.rs: struct Tree, struct BinaryTree")],
  "exhaustive enumeration of trees and pairs of trees against a reference model", "every pair of two-label trees up to the bound; built with the serde feature; "+TR)
p("C20", "Every way of driving an iterator tells the same story as next()",
  "size_hint never contradicts what is yielded, and nth, skip, take, count, last, fold, for_each, by_ref and collect give what repeated calls to next() would; streaming iterators give the same for advance/get, next, next_mut, nth, count and for_each, and get() repeats the current element until advanced. An iterator that has ended stays ended: driving it further yields nothing and does not panic.",
  ["inputs", "histories"], "every tree and collection, every iterator, every point at which the driving method changes",
  "Tests drive iterators with for loops or while-let from the start; an overridden or wrongly specialised method is only seen when called at the right point.",
  [*ITER, S+"leaves_iterators", S+"collection_iterators.rs", S+"tree_iterators"], [("Iterator and StreamingIterator impls", S+"**: impl Iterator, impl StreamingIterator")],
  "exhaustive enumeration of shapes x consuming methods x switch points on the real code", "differential against next(); "+TR)
p("C21", "Traversals and transforms need no call stack per level, sibling or tree",
  "Every traversal (breadth-first, pre-, in- and post-order, with leaves(), ancestors or contexts) and map, fold, prune, prune_depth, pipelines and at_path run to completion on trees far deeper or wider, and collections far longer, than the call stack could serve by recursion, however they are driven (next, nth, for_each, count, ...), and give the same results there as on small trees.",
  ["inputs"], "every deep or wide tree shape and long collection, every traversal and transform, every ownership mode",
  "The tests' trees are six levels deep; a recursive step anywhere works on those and overflows the stack on a deep, lopsided tree.",
  [*ITER, S+"leaves_iterators", S+"tree_iterators", "tree_iterators_rs/README.md"], [("explicit stacks and queues instead of recursion", S+"*_iterators/mod.rs"), ("documented: does not use recursion", "tree_iterators_rs/README.md: dfs_inorder, dfs_postorder")],
  "exhaustive enumeration of spine-generated deep trees on the real code under a bounded call stack", "every spine repeating a word of steps, and every fork of two, at a depth whose recursion cannot fit the stack given; unoptimised build; dropping trees (the tree's own destructor) and abandoned iterators are outside; "+TR)
p("C22", "Traversals and transforms are independent of one another and of the past",
  "Traversals in progress at the same time, of one shared tree or of several trees in any ownership mode, may be advanced in any order, and whole operations or single steps may run inside the closures of another, each giving what it gives alone. Any sequence of operations on a tree (walks that modify and are abandoned, child edits, at_path edits, map, prune, prune_depth, fold, pipelines, collections, clones, closures that panic) has exactly the effect of the operations one after another, and leaves a tree that every traversal reads like a newly built one.",
  ["histories", "inputs"], "every order of steps of two or three traversals, every operation inside every closure call of another, every sequence of operations up to a depth, on every small tree",
  "The tests run one operation at a time on a tree made for it; anything kept between calls, shared between iterators, or left behind by an abandoned walk needs two of them.",
  [*ITER, S+"tree_iterators", S+"tree_collection_iterators", S+"leaves_iterators", S+"prelude.rs"], [("all state lives in the iterator value", S+"**: struct *Iterator*"), ("mutable walks hand out the tree's own nodes", S+"prelude.rs: get_value_and_children_iter_mut")],
  "exhaustive enumeration of interleavings, nestings and operation sequences on the real code; differential against solo runs and a reference model", "bounded numbers of nodes, iterators and operations; closures and steps are the switch points (the crate has no threads); "+TR)
p("C23", "What happens depends on the tree's shape, never on the types involved",
  "Every traversal, transform and pipeline does the same - the same elements, order, paths, ancestors, closure calls and result shapes - whatever the type of the node values (zero-sized, large, heap-owning, not comparable), of what closures return, or of the children collection (vectors, ring buffers, maps, boxed or dynamically typed iterators, iterators whose size is not known in advance). No type makes an operation lose, repeat or reorder a node or a result.",
  ["inputs"], "every small tree shape and collection, a wide range of value, result and children types, every operation",
  "Tests use integer values in Tree and BinaryTree almost throughout; code that looks at sizes, capacities, size hints or destructors is right for those and wrong for a type no test uses.",
  [*ITER, S+"tree_iterators", S+"tree_collection_iterators", S+"leaves_iterators", S+"prelude.rs"], [("generic over values, children and results", S+"prelude.rs: trait OwnedTreeNode, MutBorrowedTreeNode, BorrowedTreeNode")],
  "exhaustive enumeration of shapes x operations on the real code, differential between instantiations", "every instantiation is compared with Tree<u32> and BinaryTree<u32>, which the other checks compare with the model; the list of types is fixed; post-order contexts over children collections that have a destructor are a known finding of C18 and left to it; "+TR)

CLAIMED = os.environ.get("SKIP", "").split(",")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        a = dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]])
        if x["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in x["state"]]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="No hooks in /repo: everything is checked through the public API. Fixes and known findings are listed in known_findings.txt.")
for x in P:
    if x["id"] in CLAIMED:
        m["not_applicable"].append(dict(property=x["id"], reason="the check is not finished yet"))
        continue
    m["checks"].append(dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough", technique=x["technique"], level="model_checking", level_note=x["note"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
