//! Editing the child collection handed out by attach_context() while the traversal is running.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::collections::LinkedList;


/// one edit of the children collection of the node the traversal is at
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Remove(usize),
    Insert(usize, bool),
    Clear,
    Reverse,
    /// modify the value of the child in that slot
    Touch(usize),
    /// edit the children of the child in that slot
    Sub(usize, Edit),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    Remove(usize),
    Insert(usize),
    Clear,
}

/// which edits a children type supports
#[derive(Clone, Copy)]
struct Can {
    insert: bool,
    remove_first_only: bool,
    reverse: bool,
    /// reach into the children
    sub: bool,
}
const ALL: Can = Can { insert: true, remove_first_only: false, reverse: true, sub: true };

fn new_tree(base: u32, big: bool, binary: bool) -> M {
    let mut m = M { id: base, binary, ..M::default() };
    if big {
        m.kids.push(M { id: base + 1, slot: binary as usize, binary, ..M::default() });
    }
    m
}

fn edits(m: &M) -> Vec<Edit> {
    let mut v = vec![];
    for k in &m.kids {
        v.push(Edit::Remove(k.slot));
    }
    if m.binary {
        v.extend((0..2).filter(|s| m.kids.iter().all(|k| k.slot != *s)).map(Edit::Insert));
    } else {
        v.extend((0..=m.kids.len()).map(Edit::Insert));
    }
    if m.kids.len() > 1 {
        v.push(Edit::Clear);
    }
    v
}

impl Op {
    /// for large trees: at the first children, and around a few numbers
    fn some(self) -> bool {
        match self {
            Op::Remove(i) | Op::Insert(i, _) | Op::Touch(i) | Op::Sub(i, _) => [0, 1, 2, 7, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256].contains(&i),
            Op::Clear | Op::Reverse => true,
        }
    }
}
fn options(m: &M, can: Can) -> Vec<Op> {
    let mut v = vec![];
    let n = m.kids.len();
    if m.binary {
        for s in 0..2 {
            let has = m.kids.iter().any(|k| k.slot == s);
            if has {
                v.push(Op::Remove(s));
            } else if can.insert {
                v.push(Op::Insert(s, false));
                v.push(Op::Insert(s, true));
            }
        }
        if n > 0 {
            v.push(Op::Reverse);
        }
        if n == 2 {
            v.push(Op::Clear);
        }
    } else {
        for i in 0..n {
            if i == 0 || !can.remove_first_only {
                v.push(Op::Remove(i));
            }
        }
        if can.insert {
            for i in 0..=n {
                v.push(Op::Insert(i, false));
                v.push(Op::Insert(i, true));
            }
        }
        if n > 0 {
            v.push(Op::Clear);
        }
        if can.reverse && n > 1 {
            v.push(Op::Reverse);
        }
    }
    if can.sub {
        for k in &m.kids {
            v.push(Op::Touch(k.slot));
            v.extend(edits(k).into_iter().map(|e| Op::Sub(k.slot, e)));
        }
    }
    v
}

fn edit_model(m: &mut M, e: Edit, base: u32) {
    match e {
        Edit::Remove(s) => m.kids.retain(|k| k.slot != s),
        Edit::Insert(s) if m.binary => {
            let mut t = new_tree(base, false, true);
            t.slot = s;
            m.kids.push(t);
            m.kids.sort_by_key(|k| k.slot);
        }
        Edit::Insert(i) => m.kids.insert(i, new_tree(base, false, false)),
        Edit::Clear => m.kids.clear(),
    }
    m.slots_from_position();
}
/// a shallow edit (Touch and Sub go through `reach`)
fn apply_model(m: &mut M, op: Op, base: u32) {
    match op {
        Op::Remove(s) => m.kids.retain(|k| k.slot != s),
        Op::Insert(s, big) if m.binary => {
            let mut t = new_tree(base, big, true);
            t.slot = s;
            m.kids.push(t);
            m.kids.sort_by_key(|k| k.slot);
        }
        Op::Insert(i, big) => m.kids.insert(i, new_tree(base, big, false)),
        Op::Clear => m.kids.clear(),
        Op::Reverse if m.binary => {
            m.kids.iter_mut().for_each(|k| k.slot = 1 - k.slot);
            m.kids.reverse();
        }
        Op::Reverse => m.kids.reverse(),
        Op::Touch(_) | Op::Sub(..) => unreachable!(),
    }
    m.slots_from_position();
}
fn reach(child: &mut M, op: Op, base: u32) {
    match op {
        Op::Touch(_) => child.touched += 1,
        Op::Sub(_, e) => edit_model(child, e, base),
        _ => unreachable!(),
    }
}

/// nodes whose own children can be edited
trait Node: Build {
    fn edit(&mut self, e: Edit, base: u32);
    fn touch(&mut self);
}
macro_rules! vec_node {
    ($N:ty) => {
        impl Node for $N {
            fn edit(&mut self, e: Edit, base: u32) {
                match e {
                    Edit::Remove(i) => drop(self.children.remove(i)),
                    Edit::Insert(i) => self.children.insert(i, Self::build(&new_tree(base, false, false))),
                    Edit::Clear => self.children.clear(),
                }
            }
            fn touch(&mut self) {
                Obs::touch(&mut self.value);
            }
        }
    };
}
vec_node!(Tree<V>);
vec_node!(INode);
impl Node for LNode {
    fn edit(&mut self, e: Edit, base: u32) {
        match e {
            Edit::Remove(i) => list_remove(&mut self.children, i),
            Edit::Insert(i) => list_insert(&mut self.children, i, Self::build(&new_tree(base, false, false))),
            Edit::Clear => self.children.clear(),
        }
    }
    fn touch(&mut self) {
        Obs::touch(&mut self.value);
    }
}
macro_rules! bin_node {
    ($N:ty, $s:ident => $l:expr, $r:expr) => {
        impl Node for $N {
            fn edit(&mut self, e: Edit, base: u32) {
                let $s = self;
                match e {
                    Edit::Remove(0) => drop($l.take()),
                    Edit::Remove(_) => drop($r.take()),
                    Edit::Insert(0) => $l = Some(Box::new(<$N>::build(&new_tree(base, false, true)))),
                    Edit::Insert(_) => $r = Some(Box::new(<$N>::build(&new_tree(base, false, true)))),
                    Edit::Clear => {
                        $l = None;
                        $r = None;
                    }
                }
            }
            fn touch(&mut self) {
                Obs::touch(&mut self.value);
            }
        }
    };
}
bin_node!(BinaryTree<V>, s => s.left, s.right);
bin_node!(CBin, s => s.kids[0], s.kids[1]);

fn list_remove(l: &mut LinkedList<LNode>, i: usize) {
    let mut tail = l.split_off(i);
    tail.pop_front();
    l.append(&mut tail);
}
fn list_insert(l: &mut LinkedList<LNode>, i: usize, n: LNode) {
    let mut tail = l.split_off(i);
    l.push_back(n);
    l.append(&mut tail);
}
fn at<N: Node>(n: &mut N, op: Op, base: u32) {
    match op {
        Op::Touch(_) => n.touch(),
        Op::Sub(_, e) => n.edit(e, base),
        _ => unreachable!(),
    }
}

trait KidMut: KidObs {
    fn can() -> Can;
    fn apply(&mut self, op: Op, base: u32);
}
macro_rules! vec_kids {
    ($N:ty, $($t:ty),*) => { $(impl KidMut for $t {
        fn can() -> Can { ALL }
        fn apply(&mut self, op: Op, base: u32) {
            match op {
                Op::Remove(i) => drop(self.remove(i)),
                Op::Insert(i, big) => self.insert(i, <$N>::build(&new_tree(base, big, false))),
                Op::Clear => self.clear(),
                Op::Reverse => self.reverse(),
                Op::Touch(i) | Op::Sub(i, _) => at(&mut self[i], op, base),
            }
        }
    })* };
}
vec_kids!(Tree<V>, Vec<Tree<V>>, &mut Vec<Tree<V>>);
macro_rules! list_kids {
    ($($t:ty),*) => { $(impl KidMut for $t {
        fn can() -> Can { ALL }
        fn apply(&mut self, op: Op, base: u32) {
            match op {
                Op::Remove(i) => list_remove(self, i),
                Op::Insert(i, big) => list_insert(self, i, LNode::build(&new_tree(base, big, false))),
                Op::Clear => self.clear(),
                Op::Reverse => {
                    let mut r = LinkedList::new();
                    while let Some(x) = self.pop_front() { r.push_front(x); }
                    self.append(&mut r);
                }
                Op::Touch(i) | Op::Sub(i, _) => at(self.iter_mut().nth(i).unwrap(), op, base),
            }
        }
    })* };
}
list_kids!(LinkedList<LNode>, &mut LinkedList<LNode>);
impl KidMut for Kids {
    fn can() -> Can {
        Can { insert: false, remove_first_only: true, reverse: true, sub: true }
    }
    fn apply(&mut self, op: Op, base: u32) {
        match op {
            Op::Remove(_) => drop(self.0.next()),
            Op::Reverse => self.0.as_mut_slice().reverse(),
            Op::Touch(i) | Op::Sub(i, _) => at(&mut self.0.as_mut_slice()[i], op, base),
            _ => *self = Strict(vec![].into_iter(), false),
        }
    }
}
impl KidMut for Opaque<std::slice::IterMut<'_, INode>> {
    fn can() -> Can {
        Can { insert: false, remove_first_only: true, reverse: false, sub: false }
    }
    fn apply(&mut self, op: Op, _: u32) {
        match op {
            Op::Remove(_) => drop(self.next()),
            _ => while self.next().is_some() {},
        }
    }
}
macro_rules! bin_kids {
    ($N:ty) => {
        impl KidMut for [Option<$N>; 2] {
            fn can() -> Can { ALL }
            fn apply(&mut self, op: Op, base: u32) {
                match op {
                    Op::Remove(i) => drop(self[i].take()),
                    Op::Insert(i, big) => self[i] = Some(<$N>::build(&new_tree(base, big, true))),
                    Op::Clear => *self = [None, None],
                    Op::Reverse => self.swap(0, 1),
                    Op::Touch(i) | Op::Sub(i, _) => at(self[i].as_mut().unwrap(), op, base),
                }
            }
        }
        impl<'a> KidMut for [Option<&'a mut $N>; 2] {
            fn can() -> Can { Can { insert: false, ..ALL } }
            fn apply(&mut self, op: Op, base: u32) {
                match op {
                    Op::Remove(i) => drop(self[i].take()),
                    Op::Clear => *self = [None, None],
                    Op::Reverse => self.swap(0, 1),
                    Op::Touch(i) | Op::Sub(i, _) => at(&mut **self[i].as_mut().unwrap(), op, base),
                    Op::Insert(..) => unreachable!(),
                }
            }
        }
    };
}
bin_kids!(BinaryTree<V>);
bin_kids!(CBin);

type Plan = Vec<(usize, Op)>;
fn order(f: &[M], o: Order) -> Vec<u32> {
    f.iter().flat_map(|m| m.order(o)).collect()
}
fn find(f: &[M], id: u32) -> &M {
    f.iter().find_map(|m| m.find(id)).unwrap()
}
fn find_mut(f: &mut [M], id: u32) -> &mut M {
    f.iter_mut().find_map(|m| m.find_mut(id)).unwrap()
}
fn base(n: usize) -> u32 {
    // beyond the ids of the largest tree
    1000 + 10 * n as u32
}
/// What the traversal sees, and what becomes of the tree itself, as edit number `n` is made at a
/// step. Where the handed out collection is not the tree's own (`through` is false) only what is
/// reached through a child is an edit of the tree.
fn step_model(trav: &mut [M], tree: &mut [M], through: bool, o: Order, n: usize, step: usize, op: Op) {
    let id = order(trav, o)[step];
    match op {
        Op::Touch(s) | Op::Sub(s, _) => {
            let child = find(trav, id).kids.iter().find(|k| k.slot == s).unwrap().id;
            reach(find_mut(trav, child), op, base(n));
            reach(find_mut(tree, child), op, base(n));
        }
        _ => {
            apply_model(find_mut(trav, id), op, base(n));
            if through {
                apply_model(find_mut(tree, id), op, base(n));
            }
        }
    }
}
/// what the traversal sees before every edit and after the last, and what the tree is in the end
fn plan_model(f: &[M], o: Order, through: bool, plan: &[(usize, Op)]) -> (Vec<Vec<M>>, Vec<M>) {
    let (mut trav, mut tree) = (f.to_vec(), f.to_vec());
    let mut seen = vec![trav.clone()];
    for (n, (step, op)) in plan.iter().enumerate() {
        step_model(&mut trav, &mut tree, through, o, n, *step, *op);
        seen.push(trav.clone());
    }
    (seen, tree)
}

/// every plan of at most `depth` edits at distinct steps
fn plans(f: &[M], o: Order, can: Can, depth: usize) -> Vec<Plan> {
    fn rec(cur: &[M], o: Order, can: Can, depth: usize, from: usize, pre: &mut Plan, out: &mut Vec<Plan>) {
        if depth == 0 {
            return;
        }
        let ids = order(cur, o);
        for step in if ids.len() <= 30 { (from..ids.len()).collect() } else { cuts(ids.len() - 1) } {
            if step >= ids.len() {
                continue;
            }
            for op in options(find(cur, ids[step]), can) {
                if ids.len() > 30 && !op.some() {
                    continue;
                }
                let mut next = cur.to_vec();
                step_model(&mut next, &mut cur.to_vec(), true, o, pre.len(), step, op);
                pre.push((step, op));
                out.push(pre.clone());
                rec(&next, o, can, depth - 1, step + 1, pre, out);
                pre.pop();
            }
        }
    }
    let mut out = vec![];
    rec(f, o, can, depth, 0, &mut vec![], &mut out);
    out
}

fn marked(m: &M, out: &mut std::collections::HashMap<u32, u32>) {
    out.insert(m.id, m.touched);
    m.kids.iter().for_each(|k| marked(k, out));
}
/// `coll`: the trees are in a collection, paths start with the tree's index
fn drive<S, T: Obs, C: KidMut>(it: &mut S, seen: &[Vec<M>], coll: bool, o: Order, plan: &[(usize, Op)], st: &mut Stats) -> Result<(), String>
where
    S: StreamingIteratorMut<Item = TreeContext<T, C>>,
{
    let fin = seen.last().unwrap();
    let (want, infos) = if coll { want_forest(fin, o) } else { want(&fin[0], o) };
    let mut marks = std::collections::HashMap::new();
    fin.iter().for_each(|m| marked(m, &mut marks));
    let touched = |id: u32| marks[&id];
    let mut i = 0;
    while let Some(s) = it.next_mut() {
        st.step();
        let got: Vec<u32> = s.ancestors().iter().map(|v| v.id()).collect();
        st.sees(got.iter().copied());
        let Some(id) = want.get(i) else { return Err(format!("step {i}: yielded {got:?} after the last node")) };
        let w = &infos[id];
        if got != w.anc {
            return Err(format!("step {i}: ancestors {got:?}, expected {:?}", w.anc));
        }
        if s.path() != w.path {
            return Err(format!("step {i} (node {id}): path {:?}, expected {:?}", s.path(), w.path));
        }
        for v in s.ancestors() {
            if v.touched() != touched(v.id()) {
                return Err(format!("step {i} (node {id}): value {} shows {} modifications, expected {}", v.id(), v.touched(), touched(v.id())));
            }
        }
        if let Some(n) = plan.iter().position(|p| p.0 == i) {
            let k = s.children().kids().unwrap();
            let w: Vec<(usize, u32)> = find(&seen[n], *id).kids.iter().map(|k| (k.slot, k.id)).collect();
            if k != w {
                return Err(format!("step {i} (node {id}) before the edit: children {k:?}, expected {w:?}"));
            }
            s.children_mut().apply(plan[n].1, base(n));
            st.step();
        }
        let k = s.children().kids().unwrap();
        if k != w.kids {
            return Err(format!("step {i} (node {id}): children {k:?}, expected {:?}", w.kids));
        }
        i += 1;
    }
    if i != want.len() {
        return Err(format!("ended after {i} of {} nodes {want:?}", want.len()));
    }
    Ok(())
}

macro_rules! one {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($v:ident = $prep:expr) => $it:expr, $c:ident, $f:ident, $d:ident, $coll:expr, $can:ident) => {
        for p in &plans($f, $order, <$N as NodeCan>::$can(), $d) {
            $c.case(&|| format!("{}.attach_context() with child edits {:?} on {}", $label, p, forest_str($f)), &mut |st| {
                let (seen, tree) = plan_model($f, $order, one!(@through $own, $N), p);
                #[allow(unused_mut)]
                let mut $v = $prep;
                let mut it = $it.attach_context();
                drive(&mut it, &seen, $coll, $order, p, st)?;
                drop(it);
                one!(@after $own, $v, tree);
                Ok(())
            });
        }
    };
    // an owned tree is gone afterwards: what the traversal sees is all there is
    (@through owned, $N:ty) => { true };
    (@through muts, $N:ty) => { <$N as NodeCan>::THROUGH };
    (@after owned, $($x:tt)*) => {};
    (@after muts, $v:ident, $tree:ident) => {
        let got: Vec<M> = $v.iter().map(|t| Build::back(t)).collect();
        if got != $tree {
            return Err(format!("what was traversed is {} afterwards, expected {}", forest_str(&got), forest_str(&$tree)));
        }
    };
}
trait NodeCan {
    /// the collection handed out by a mutable context is the tree's own
    const THROUGH: bool;
    fn can_mut() -> Can;
    fn can_owned() -> Can;
}
macro_rules! node_can {
    ($N:ty, $wt:expr, $o:ty, $m:ty) => {
        impl NodeCan for $N {
            const THROUGH: bool = $wt;
            fn can_mut() -> Can { <$m>::can() }
            fn can_owned() -> Can { <$o>::can() }
        }
    };
}
node_can!(Tree<V>, true, Vec<Tree<V>>, &mut Vec<Tree<V>>);
node_can!(LNode, true, LinkedList<LNode>, &mut LinkedList<LNode>);
node_can!(INode, false, Kids, Opaque<std::slice::IterMut<'static, INode>>);
node_can!(BinaryTree<V>, false, [Option<BinaryTree<V>>; 2], [Option<&'static mut BinaryTree<V>>; 2]);
node_can!(CBin, false, [Option<CBin>; 2], [Option<&'static mut CBin>; 2]);

/// one tree
macro_rules! single {
    ($N:ty, $nm:literal, ($c:ident, $f:ident, $d:ident)) => {
        one!(owned, concat!($nm, ".bfs()"), Order::Bfs, $N, (v = build_vec::<$N>($f)) => v.pop().unwrap().bfs(), $c, $f, $d, false, can_owned);
        one!(owned, concat!($nm, ".dfs_preorder()"), Order::Pre, $N, (v = build_vec::<$N>($f)) => v.pop().unwrap().dfs_preorder(), $c, $f, $d, false, can_owned);
        one!(muts, concat!($nm, ".bfs_iter_mut()"), Order::Bfs, $N, (v = build_vec::<$N>($f)) => v[0].bfs_iter_mut(), $c, $f, $d, false, can_mut);
        one!(muts, concat!($nm, ".dfs_preorder_iter_mut()"), Order::Pre, $N, (v = build_vec::<$N>($f)) => v[0].dfs_preorder_iter_mut(), $c, $f, $d, false, can_mut);
    };
}
/// collections of trees
macro_rules! cb {
    (refs, $($x:tt)*) => {};
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $d:ident) => {
        if $g {
            one!(owned, format!("{}.bfs_each()", $label), Order::Bfs, $N, ($v = $prep) => $coll.bfs_each(), $c, $f, $d, true, can_owned);
            one!(owned, format!("{}.dfs_preorder_each()", $label), Order::Pre, $N, ($v = $prep) => $coll.dfs_preorder_each(), $c, $f, $d, true, can_owned);
        }
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $d:ident) => {
        if $g {
            one!(muts, format!("{}.bfs_each_iter_mut()", $label), Order::Bfs, $N, ($v = $prep) => $coll.bfs_each_iter_mut(), $c, $f, $d, true, can_mut);
            one!(muts, format!("{}.dfs_preorder_each_iter_mut()", $label), Order::Pre, $N, ($v = $prep) => $coll.dfs_preorder_each_iter_mut(), $c, $f, $d, true, can_mut);
        }
    };
}
fn single_nary(c: &mut Ctx, f: &[M], d: usize) {
    single!(Tree<V>, "Tree", (c, f, d));
    single!(LNode, "LNode", (c, f, d));
    single!(INode, "INode", (c, f, d));
}
fn single_binary(c: &mut Ctx, f: &[M], d: usize) {
    single!(BinaryTree<V>, "BinaryTree", (c, f, d));
    single!(CBin, "CBin", (c, f, d));
}
fn nary(c: &mut Ctx, f: &[M], d: usize) {
    nary_colls!(cb, f, (c, f, d));
}
fn binary(c: &mut Ctx, f: &[M], d: usize) {
    bin_colls!(cb, f, (c, f, d));
}

pub fn run(c: &mut Ctx) {
    for (n, d) in [c.pick((9, 1), (11, 1), (3, 1)), c.pick((5, 2), (7, 2), (2, 2)), c.pick((3, 3), (4, 3), (1, 1))] {
        c.bound(format!("every n-ary and binary tree shape with <= {n} nodes, every plan of at most {d} edit(s) at distinct steps"));
        for s in 1..=n {
            for m in nary_shapes(s) {
                if c.mine() {
                    single_nary(c, &[m], d);
                }
            }
            for m in binary_shapes(s) {
                if c.mine() {
                    single_binary(c, &[m], d);
                }
            }
        }
    }
    for (n, d) in [c.pick((6, 1), (8, 1), (2, 1)), c.pick((4, 2), (5, 2), (0, 1)), c.pick((2, 3), (3, 3), (0, 1))] {
        c.bound(format!("every collection of n-ary or binary trees with <= {n} nodes in total x every container, every plan of at most {d} edit(s) at distinct steps"));
        for s in 1..=n {
            for f in &nary_forests(s) {
                if c.mine() {
                    nary(c, f, d);
                }
            }
            for f in &binary_forests(s) {
                if c.mine() {
                    binary(c, f, d);
                }
            }
        }
    }
    if c.tier == Tier::Miri {
        return;
    }
    let sizes = c.pick(vec![12, 17, 33, 65, 130], vec![12, 15, 16, 17, 24, 32, 33, 34, 65, 66, 130, 258], vec![]);
    c.bound(format!("15 families of larger trees of the sizes {sizes:?} x every single edit (at a few dozen steps and children of trees with more than 30 nodes)"));
    for m in nary_families_of(&sizes) {
        if c.mine() {
            single_nary(c, &[m], 1);
        }
    }
    for m in binary_families_of(&sizes) {
        if c.mine() {
            single_binary(c, &[m], 1);
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C05", &[], run);
}
