//! Laziness: a node is asked for its value and children at most once, and top-down APIs ask no node
//! they do not need, so they also work on trees that are infinite.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::cell::Cell;
use std::collections::{BTreeSet, VecDeque};

/// number of expansions per node, and the set of expanded nodes allowed by `ok`
fn check(ids: impl Iterator<Item = u32>, ok: impl Fn(u32) -> bool, all: bool) -> Result<(), String> {
    for i in ids {
        let n = mc::track::calls(i);
        if n > 1 {
            return Err(format!("node {i} was asked for its children {n} times"));
        }
        if n == 0 && all {
            return Err(format!("node {i} was never asked for its children"));
        }
        if n == 1 && !ok(i) {
            return Err(format!("node {i} was expanded although neither it nor its parent was reached"));
        }
    }
    Ok(())
}
/// top-down orders may expand yielded nodes and children of yielded nodes only
fn reach(m: &M, o: Order, k: usize) -> impl Fn(u32) -> bool {
    let seen: BTreeSet<u32> = m.order(o).into_iter().take(k).collect();
    let parents: std::collections::HashMap<u32, Option<u32>> = m.infos().into_iter().map(|i| (i.id, i.anc.iter().rev().nth(1).copied())).collect();
    move |id| !matches!(o, Order::Bfs | Order::Pre) || seen.contains(&id) || parents[&id].is_none_or(|p| seen.contains(&p))
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        let n = $m.size();
        for k in if n <= 12 { (0..=n + 1).collect() } else { cuts(n) } {
            $c.case(&|| format!("{} after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it;
                for v in it.by_ref().take(k) {
                    st.step();
                    st.see(Obs::id(&v) as u64);
                }
                check(0..n as u32, reach($m, $order, k), k > n)?;
                // leaves() from here on
                for v in it.leaves() {
                    st.step();
                    st.see(Obs::id(&v) as u64);
                }
                check(0..n as u32, |_| true, k >= n)
            });
            $c.case(&|| format!("{}.attach_context() after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_context();
                for _ in 0..k {
                    st.step();
                    match it.next() {
                        Some(x) => st.see(Obs::id(x.ancestors().last().unwrap()) as u64),
                        None => break,
                    }
                }
                check(0..n as u32, reach($m, $order, k), k > n)
            });
            $c.case(&|| format!("{}.attach_ancestors() after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_ancestors();
                for _ in 0..k {
                    st.step();
                    match it.next() {
                        Some(x) => st.see(Obs::id(x.last().unwrap()) as u64),
                        None => break,
                    }
                }
                check(0..n as u32, reach($m, $order, k), k > n)?;
                if k <= n {
                    let mut it = it.leaves();
                    while let Some(x) = it.next() {
                        st.step();
                        st.see(Obs::id(x.last().unwrap()) as u64);
                    }
                }
                check(0..n as u32, |_| true, k > n)
            });
        }
    };
}
fn in_mask(mask: u128, i: u32) -> bool {
    mask >> i & 1 == 1
}
fn masked(mask: u128) -> String {
    format!("({:?})", (0..128).filter(|i| in_mask(mask, *i)).collect::<Vec<u32>>())
}
/// every set of few nodes; of more nodes: none, each on its own, every other and every third of the first ones
fn masks(n: u32) -> Vec<u128> {
    if n <= 12 {
        return (0..1 << n).collect();
    }
    let mut out: Vec<u128> = [0, 0x5555, 0x9249_2492_4924].into();
    out.extend((0..n).map(|i| 1 << i));
    out
}
macro_rules! transforms {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $K:ty, $fold:path) => {
        let n = $m.size() as u32;
        transforms!(@ $c, $m, $N, $nm, "map", |t| t.map(|v| v), |_| true, true);
        transforms!(@ $c, $m, $N, $nm, "map_mut", |t| t.map_mut(|v| v.id()), |_| true, true);
        transforms!(@ $c, $m, $N, $nm, "map_ref", |t| t.map_ref(|v| v.id()), |_| true, true);
        transforms!(@ $c, $m, $N, $nm, "fold", |t| t.fold(|k: $K, v| $fold(k, v.id(), 0)), |_| true, true);
        transforms!(@ $c, $m, $N, $nm, "fold_mut", |t| t.fold_mut(|k: $K, v| $fold(k, v.id(), 0)), |_| true, true);
        transforms!(@ $c, $m, $N, $nm, "fold_ref", |t| t.fold_ref(|k: $K, v| $fold(k, v.id(), 0)), |_| true, true);
        for d in 0..=$m.height() {
            let deep: BTreeSet<u32> = $m.infos().into_iter().filter(|i| i.path.len() > d).map(|i| i.id).collect();
            transforms!(@ $c, $m, $N, $nm, format!("prune_depth({d})"), |t| t.prune_depth(d), |i| !deep.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("prune_depth_mut({d})"), |t| t.prune_depth_mut(d), |i| !deep.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("prune_depth_ref({d})"), |t| t.prune_depth_ref(d), |i| !deep.contains(&i), false);
        }
        for mask in masks(n) {
            let infos = $m.infos();
            // strict descendants of pruned nodes must never be asked for their children
            let below: BTreeSet<u32> = infos.iter().filter(|i| i.anc[..i.anc.len() - 1].iter().any(|a| in_mask(mask, *a))).map(|i| i.id).collect();
            transforms!(@ $c, $m, $N, $nm, format!("prune{}", masked(mask)), |t| t.prune(|v| in_mask(mask, v.id())), |i| !below.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("prune_mut{}", masked(mask)), |t| t.prune_mut(|v| in_mask(mask, v.id())), |i| !below.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("prune_ref{}", masked(mask)), |t| t.prune_ref(|v| in_mask(mask, v.id())), |i| !below.contains(&i), false);
        }
        for i in $m.infos() {
            let on: BTreeSet<u32> = i.anc.iter().copied().collect();
            let p = &i.path;
            transforms!(@ $c, $m, $N, $nm, format!("at_path({p:?})"), |t| t.at_path(p).map(|n| n.nid()), |i| on.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("at_path_mut({p:?})"), |t| t.at_path_mut(p).map(|n| n.nid()), |i| on.contains(&i), false);
            transforms!(@ $c, $m, $N, $nm, format!("at_path_ref({p:?})"), |t| t.at_path_ref(p).map(|n| n.nid()), |i| on.contains(&i), false);
        }
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $name:expr, |$t:ident| $e:expr, $ok:expr, $all:expr) => {
        $c.case(&|| format!("{}.{} on {}", $nm, $name, $m), &mut |st| {
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            st.step();
            drop($e);
            check(0..$m.size() as u32, $ok, $all)
        });
    };
}

// ---- collections: a later tree is not touched before it is needed ---------------------------
macro_rules! meth {
    ($label:expr, $guard:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $m:ident) => {
        if $guard {
            for k in if $n <= 12 { (0..=$n).collect() } else { cuts($n) } {
                $c.case(&|| format!("{}.{}() after {k} on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let mut it = $coll.$m();
                    for v in it.by_ref().take(k) {
                        st.step();
                        st.see(Obs::id(&v) as u64);
                    }
                    let ok = current_tree($f, k);
                    check(0..$n as u32, |i| i <= ok, false)
                });
                $c.case(&|| format!("{}.{}().attach_context() after {k} on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let mut it = $coll.$m().attach_context();
                    for _ in 0..k {
                        st.step();
                        if let Some(x) = it.next() {
                            st.see(Obs::id(x.ancestors().last().unwrap()) as u64);
                        }
                    }
                    let ok = current_tree($f, k);
                    check(0..$n as u32, |i| i <= ok, false)
                });
            }
        }
    };
}
/// the last id that may be expanded after `k` elements: that of the tree of the k-th element, or of
/// the next one
fn current_tree(f: &[M], k: usize) -> u32 {
    let mut end = 0;
    for t in f {
        end += t.size();
        if k < end {
            break;
        }
    }
    // one tree of look-ahead: its root only
    end as u32
}
macro_rules! coll {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each, dfs_preorder_each, dfs_postorder_each, dfs_inorder_each);
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, dfs_inorder_each_iter_mut);
    };
    (refs, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, dfs_inorder_each_iter);
    };
    (@go $k:ident, $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $a:ident, $b:ident, $d:ident, $e:ident) => {
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $a);
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $b);
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $d);
        coll!(@$k $label, $g, ($v = $prep) => $coll, $c, $f, $n, $e);
    };
    (@nary $($x:tt)*) => {};
    (@bin $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $e:ident) => {
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $e);
    };
}
fn nary_c(c: &mut Ctx, f: &[M], n: usize) {
    colls_for!(coll, nary, f, INode, "INode", slice, (c, f, n));
}
fn binary_c(c: &mut Ctx, f: &[M], n: usize) {
    colls_for!(coll, bin, f, CBin, "CBin", array, (c, f, n));
}

// ---- infinite trees ----------------------------------------------------------------------------
// A tree automaton: the children of a node in state s are nodes in the states rules[s]; a wide state
// repeats its row forever.
type Row = Vec<Option<usize>>;
#[derive(Debug)]
struct Rules {
    rows: Vec<Row>,
    wide: u32,
}
thread_local! {
    /// the longest prefix looked at
    static FAR: Cell<usize> = const { Cell::new(12) };
    static FUEL: Cell<usize> = const { Cell::new(0) };
    static PULLS: Cell<usize> = const { Cell::new(0) };
    static NODES: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(vec![]) };
}
fn burn(f: &'static std::thread::LocalKey<Cell<usize>>, what: &str) {
    f.with(|f| {
        if f.get() == 0 {
            panic!("{what} far more of an infinite tree than was asked for");
        }
        f.set(f.get() - 1);
    });
}
#[derive(Clone)]
struct Inf {
    rules: std::rc::Rc<Rules>,
    st: usize,
    path: Vec<usize>,
}
impl Inf {
    fn start(r: &std::rc::Rc<Rules>, st: usize, path: Vec<usize>) -> Self {
        Inf { rules: r.clone(), st, path }
    }
    fn root(r: &std::rc::Rc<Rules>) -> Self {
        fuel();
        Inf::start(r, 0, vec![])
    }
    fn kid(&self, i: usize) -> Option<Inf> {
        let row = &self.rules.rows[self.st];
        let i0 = if self.rules.wide >> self.st & 1 == 1 && !row.is_empty() { i % row.len() } else { i };
        row.get(i0).copied().flatten().map(|st| {
            let mut path = self.path.clone();
            path.push(i);
            Inf { rules: self.rules.clone(), st, path }
        })
    }
    /// the children (of a wide node: as many as any prefix looked at can need)
    fn kids(&self) -> Vec<Inf> {
        let row = self.rules.rows[self.st].len();
        let n = if self.rules.wide >> self.st & 1 == 1 { far() * row } else { row };
        (0..n).filter_map(|i| self.kid(i)).collect()
    }
}
fn set_far(states: usize) {
    FAR.with(|f| f.set(if states == 1 { 70 } else { 12 }));
}
fn far() -> usize {
    FAR.with(|f| f.get())
}
fn fuel() {
    FUEL.with(|f| f.set(33 * far()));
    PULLS.with(|f| f.set(125 * far()));
    NODES.with(|n| n.borrow_mut().clear());
}
/// Nodes reached by reference are made when they are reached and live until the next case.
fn keep<'a, N: 'static>(n: N) -> &'a mut N {
    let mut b = Box::new(n);
    let p: *mut N = &mut *b;
    NODES.with(|n| n.borrow_mut().push(b as Box<dyn std::any::Any>));
    // SAFETY: freed when the next case starts; every reference is gone by then
    unsafe { &mut *p }
}
type Val = (usize, Vec<usize>);
#[derive(Clone)]
struct INary(Inf);
struct Kids(Inf, usize);
impl Iterator for Kids {
    type Item = INary;
    fn next(&mut self) -> Option<INary> {
        burn(&PULLS, "visited");
        let k = self.0.kid(self.1)?;
        self.1 += 1;
        Some(INary(k))
    }
}
struct KidsRef<'a>(Kids, std::marker::PhantomData<&'a INary>);
impl<'a> Iterator for KidsRef<'a> {
    type Item = &'a INary;
    fn next(&mut self) -> Option<&'a INary> {
        self.0.next().map(|n| &*keep(n))
    }
}
impl std::iter::FusedIterator for KidsRef<'_> {}
struct KidsMut<'a>(Kids, std::marker::PhantomData<&'a mut INary>);
impl<'a> Iterator for KidsMut<'a> {
    type Item = &'a mut INary;
    fn next(&mut self) -> Option<&'a mut INary> {
        self.0.next().map(keep)
    }
}
impl std::iter::FusedIterator for KidsMut<'_> {}
impl OwnedTreeNode for INary {
    type OwnedValue = Val;
    type OwnedChildren = Kids;
    fn get_value_and_children(self) -> (Val, Kids) {
        burn(&FUEL, "expanded");
        (val(&self.0), Kids(self.0, 0))
    }
}
impl<'a> MutBorrowedTreeNode<'a> for INary {
    type MutBorrowedValue = Val;
    type MutBorrowedChildren = KidsMut<'a>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (Val, KidsMut<'a>) {
        burn(&FUEL, "expanded");
        (val(&self.0), KidsMut(Kids(self.0.clone(), 0), std::marker::PhantomData))
    }
}
impl<'a> BorrowedTreeNode<'a> for INary {
    type BorrowedValue = Val;
    type BorrowedChildren = KidsRef<'a>;
    fn get_value_and_children_iter(&'a self) -> (Val, KidsRef<'a>) {
        burn(&FUEL, "expanded");
        (val(&self.0), KidsRef(Kids(self.0.clone(), 0), std::marker::PhantomData))
    }
}
#[derive(Clone)]
struct IBin(Inf);
impl OwnedBinaryTreeNode for IBin {
    type OwnedValue = Val;
    fn get_value_and_children_binary(self) -> (Val, [Option<Self>; 2]) {
        burn(&FUEL, "expanded");
        (val(&self.0), [self.0.kid(0).map(IBin), self.0.kid(1).map(IBin)])
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for IBin {
    type MutBorrowedValue = Val;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (Val, [Option<&'a mut Self>; 2]) {
        burn(&FUEL, "expanded");
        (val(&self.0), [self.0.kid(0).map(|k| keep(IBin(k))), self.0.kid(1).map(|k| keep(IBin(k)))])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for IBin {
    type BorrowedValue = Val;
    fn get_value_and_children_binary_iter(&'a self) -> (Val, [Option<&'a Self>; 2]) {
        burn(&FUEL, "expanded");
        (val(&self.0), [self.0.kid(0).map(|k| &*keep(IBin(k))), self.0.kid(1).map(|k| &*keep(IBin(k)))])
    }
}
/// An infinite collection: trees that start in the states of the row, over and over again.
struct Coll<N>(std::rc::Rc<Rules>, Row, usize, fn(Inf) -> N);
impl<N> Iterator for Coll<N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        burn(&PULLS, "visited");
        let i = self.2;
        self.2 += 1;
        Some((self.3)(Inf::start(&self.0, self.1[i % self.1.len()].unwrap(), vec![i])))
    }
}
struct CollRef<N>(Coll<N>);
impl<N: 'static> Iterator for CollRef<N> {
    type Item = &'static N;
    fn next(&mut self) -> Option<&'static N> {
        self.0.next().map(|n| &*keep(n))
    }
}
struct CollMut<N>(Coll<N>);
impl<N: 'static> Iterator for CollMut<N> {
    type Item = &'static mut N;
    fn next(&mut self) -> Option<&'static mut N> {
        self.0.next().map(keep)
    }
}

impl<N: OwnedTreeNode> OwnedIntoIteratorOfTrees<N> for Coll<N> {}
impl<N: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<N> for Coll<N> {}
impl<N: MutBorrowedTreeNode<'static>> MutBorrowedIntoIteratorOfTrees<'static, N> for CollMut<N> {}
impl<N: MutBorrowedBinaryTreeNode<'static>> MutBorrowedIntoIteratorOfBinaryTrees<'static, N> for CollMut<N> {}
impl<N: BorrowedTreeNode<'static>> BorrowedIntoIteratorOfTrees<'static, N> for CollRef<N> {}
impl<N: BorrowedBinaryTreeNode<'static>> BorrowedIntoIteratorOfBinaryTrees<'static, N> for CollRef<N> {}

fn val(n: &Inf) -> Val {
    (n.st, n.path.clone())
}
fn model_bfs(roots: Vec<Inf>, k: usize) -> Vec<Val> {
    let mut out = vec![];
    for r in roots {
        let mut q: VecDeque<Inf> = [r].into();
        while out.len() < k {
            let Some(n) = q.pop_front() else { break };
            q.extend(n.kids());
            out.push(val(&n));
        }
    }
    out
}
/// preorder prefix of the tree cut below depth `d`, without subtrees whose root state is in `cut`
fn model_pre(roots: Vec<Inf>, k: usize, d: usize, cut: u32) -> Vec<Val> {
    let mut st = roots;
    st.reverse();
    let top = st.first().map_or(0, |n| n.path.len());
    let mut out = vec![];
    while let (Some(n), true) = (st.pop(), out.len() < k) {
        if cut >> n.st & 1 == 1 {
            continue;
        }
        if n.path.len() - top < d {
            st.extend(n.kids().into_iter().rev());
        }
        out.push(val(&n));
    }
    out
}
fn same(got: Vec<Val>, want: Vec<Val>, st: &mut Stats) -> Result<(), String> {
    st.steps(got.len());
    st.sees(got.iter().map(|v| v.0 as u32));
    if got != want {
        return Err(format!("yielded {got:?}, expected {want:?}"));
    }
    Ok(())
}
macro_rules! prefix {
    (@ctx $it:expr, $k:ident) => {{
        let mut it = $it;
        let mut out: Vec<Val> = vec![];
        while out.len() < $k {
            match it.next() {
                Some(x) => {
                    let v = x.ancestors().last().unwrap().clone();
                    if x.path() != v.1 || x.ancestors().iter().enumerate().any(|(i, a)| a.1[..] != v.1[..i]) {
                        return Err(format!("path {:?}, ancestors {:?} of {v:?}", x.path(), x.ancestors()));
                    }
                    out.push(v);
                }
                None => break,
            }
        }
        out
    }};
    (@ctxe $it:expr, $k:ident) => {{
        let mut it = $it;
        let mut out: Vec<Val> = vec![];
        while out.len() < $k {
            match it.next() {
                Some(x) => {
                    let v = x.ancestors().last().unwrap().clone();
                    if x.path() != v.1 || x.ancestors().iter().enumerate().any(|(i, a)| a.1[..] != v.1[..i + 1]) {
                        return Err(format!("path {:?}, ancestors {:?} of {v:?}", x.path(), x.ancestors()));
                    }
                    out.push(v);
                }
                None => break,
            }
        }
        out
    }};
    (@anc $it:expr, $k:ident) => {{
        let mut it = $it;
        let mut out: Vec<Val> = vec![];
        while out.len() < $k {
            match it.next() {
                Some(x) => out.push(x.last().unwrap().clone()),
                None => break,
            }
        }
        out
    }};
}
fn cut_tree(n: &Inf, d: usize) -> (Val, Vec<(usize, M)>, M) {
    let kids: Vec<(usize, M)> = if d == 0 {
        vec![]
    } else {
        (0..n.rules.rows[n.st].len()).filter_map(|i| n.kid(i).map(|k| (i, cut_tree(&k, d - 1).2))).collect()
    };
    let m = M { id: n.st as u32, kids: kids.iter().map(|k| k.1.clone()).collect(), ..M::default() };
    (val(n), kids, m)
}
fn plain_n(t: &Tree<Val>) -> M {
    M { id: t.value.0 as u32, kids: t.children.iter().map(plain_n).collect(), ..M::default() }
}
fn plain_b(t: &BinaryTree<Val>) -> M {
    M { id: t.value.0 as u32, kids: [&t.left, &t.right].into_iter().flatten().map(|k| plain_b(k)).collect(), ..M::default() }
}
fn kids_n(m: &mut M, kids: Vec<M>) {
    m.kids = kids;
}
fn kids_b(m: &mut M, kids: [Option<M>; 2]) {
    m.kids = kids.into_iter().flatten().collect();
}
fn trees(got: Vec<M>, roots: Vec<Inf>, k: usize, st: &mut Stats) -> Result<(), String> {
    let want: Vec<M> = roots.into_iter().take(k).map(|r| cut_tree(&r, 2).2).collect();
    st.steps(got.len());
    st.sees(got.iter().map(|m| m.size() as u32));
    if got != want {
        return Err(format!("yielded {}, expected {}", forest_str(&got), forest_str(&want)));
    }
    Ok(())
}
macro_rules! infinite {
    ($c:ident, $r:ident, $N:ident, $nm:literal, $ps:ident, $pl:path) => {
        infinite!(@flavour $c, $r, $N, $nm, $ps, $pl, bfs, dfs_preorder, into_pipeline, prune_depth, at_path);
        infinite!(@flavour $c, $r, $N, $nm, $ps, $pl, bfs_iter_mut, dfs_preorder_iter_mut, into_pipeline_mut, prune_depth_mut, at_path_mut);
        infinite!(@flavour $c, $r, $N, $nm, $ps, $pl, bfs_iter, dfs_preorder_iter, into_pipeline_ref, prune_depth_ref, at_path_ref);
    };
    (@flavour $c:ident, $r:ident, $N:ident, $nm:literal, $ps:ident, $pl:path, $bfs:ident, $pre:ident, $pipe:ident, $depth:ident, $at:ident) => {
        let one = |r: &std::rc::Rc<Rules>| vec![Inf::root(r)];
        infinite!(@walks $c, $r, $nm, $bfs, $pre, $pipe, map_tree, one, |r| $N(Inf::root(r)));
        for d in 0..=3usize {
            // a wide node above the limit has infinitely many children to keep
            if $r.wide == 0 || d == 0 {
                infinite!(@ $c, $r, $nm, format!(".{}({d})", stringify!($depth)), |r| $N(Inf::root(r)), |t, _st| {
                    let got = $pl(&t.$depth(d));
                    let want = cut_tree(&Inf::root($r), d).2;
                    _st.step();
                    _st.see(got.size() as u64);
                    if got != want { Err(format!("result {got}, expected {want}")) } else { Ok(()) }
                });
            }
        }
        for p in $ps.iter().cloned().chain(($r.wide != 0).then(|| vec![40, 40])).chain((0..3).filter(|_| far() > 12).map(|i| vec![i; far()])) {
            infinite!(@ $c, $r, $nm, format!(".{}({p:?})", stringify!($at)), |r| $N(Inf::root(r)), |t, _st| {
                let got = t.$at(&p).map(|n| val(&n.0));
                let mut want = Some(Inf::root($r));
                for i in &p { want = want.and_then(|w| w.kid(*i)); }
                let want = want.map(|w| val(&w));
                _st.step();
                _st.see(got.is_some() as u64);
                if got != want { Err(format!("yielded {got:?}, expected {want:?}")) } else { Ok(()) }
            });
        }
    };
    (@walks $c:ident, $r:ident, $nm:expr, $bfs:ident, $pre:ident, $pipe:ident, $map:ident, $roots:expr, $mk:expr) => {
        let roots = $roots;
        for k in [1usize, 3, 7, 12].into_iter().chain((far() > 12).then(far)) {
            infinite!(@ $c, $r, $nm, format!(".{}() first {k}", stringify!($bfs)), $mk, |t, _st| { same(t.$bfs().take(k).collect(), model_bfs(roots($r), k), _st) });
            infinite!(@ $c, $r, $nm, format!(".{}() first {k}", stringify!($pre)), $mk, |t, _st| { same(t.$pre().take(k).collect(), model_pre(roots($r), k, usize::MAX, 0), _st) });
            infinite!(@ $c, $r, $nm, format!(".{}().attach_context() first {k}", stringify!($bfs)), $mk, |t, _st| { same(prefix!(@ctx t.$bfs().attach_context(), k), model_bfs(roots($r), k), _st) });
            infinite!(@ $c, $r, $nm, format!(".{}().attach_context() first {k}", stringify!($pre)), $mk, |t, _st| { same(prefix!(@ctx t.$pre().attach_context(), k), model_pre(roots($r), k, usize::MAX, 0), _st) });
            infinite!(@ $c, $r, $nm, format!(".{}().attach_ancestors() first {k}", stringify!($bfs)), $mk, |t, _st| { same(prefix!(@anc t.$bfs().attach_ancestors(), k), model_bfs(roots($r), k), _st) });
            infinite!(@ $c, $r, $nm, format!(".{}().attach_ancestors() first {k}", stringify!($pre)), $mk, |t, _st| { same(prefix!(@anc t.$pre().attach_ancestors(), k), model_pre(roots($r), k, usize::MAX, 0), _st) });
            infinite!(@pipes $c, $r, $nm, $pipe, $map, k, roots, $mk);
        }
    };
    (@pipes $c:ident, $r:ident, $nm:expr, $pipe:ident, $map:ident, $k:ident, $roots:ident, $mk:expr) => {
        let k = $k;
        infinite!(@ $c, $r, $nm, format!(".{}() first {k}", stringify!($pipe)), $mk, |t, _st| { same(t.$pipe().$map(|v| v).take(k).collect(), model_pre($roots($r), k, usize::MAX, 0), _st) });
        infinite!(@ $c, $r, $nm, format!(".{}().prune_depth(2) first {k}", stringify!($pipe)), $mk, |t, _st| { same(t.$pipe().prune_depth(2).take(k).collect(), model_pre($roots($r), k, 2, 0), _st) });
        // the pruned tree may have fewer than k nodes although it is reached through infinite ones
        if (0..$r.rows.len()).all(|s| $r.wide >> s & 1 == 0 || $r.rows[s].iter().any(|x| *x != Some(1))) {
            infinite!(@ $c, $r, $nm, format!(".{}().prune(states 1) first {k}", stringify!($pipe)), $mk, |t, _st| { same(t.$pipe().prune(|v| v.0 == 1).take(k).collect(), model_pre($roots($r), k, usize::MAX, 2), _st) });
        }
    };
    (@ $c:ident, $r:ident, $nm:expr, $name:expr, $mk:expr, |$t:ident, $st:ident| $body:block) => {
        $c.case(&|| format!("{}{} on the automaton {:?}", $nm, $name, $r), &mut |$st| {
            let mk: &dyn Fn(&std::rc::Rc<Rules>) -> _ = &$mk;
            #[allow(unused_mut)]
            let mut $t = mk($r);
            $body
        });
    };
}
/// infinite collections of (mostly infinite) trees that start in the states 0, 1, .. in turn, or in the last state
macro_rules! infinite_coll {
    ($c:ident, $r:ident, $N:ident, $nm:literal, $pl:path, $kids:path, $owned_depth:tt) => {
        let n = $r.rows.len();
        let rows: Vec<Row> = vec![(0..n).map(Some).collect(), vec![Some(n - 1)]];
        for row in &rows {
            // a collection of nothing but pruned trees has no first element
            let roots = |r: &std::rc::Rc<Rules>| -> Vec<Inf> {
                fuel();
                (0..far() * row.len()).map(|i| Inf::start(r, row[i % row.len()].unwrap(), vec![i])).collect()
            };
            let coll = |r: &std::rc::Rc<Rules>| { fuel(); Coll(r.clone(), row.clone(), 0, $N) };
            for k in [1usize, 3, 7, 12].into_iter().chain((far() > 12).then(far)) {
                infinite_coll!(@ $c, $r, $N, $nm, row, roots, k, bfs_each, dfs_preorder_each, into_pipeline, $owned_depth, at_path, $pl, $kids, coll);
                infinite_coll!(@ $c, $r, $N, $nm, row, roots, k, bfs_each_iter, dfs_preorder_each_iter, into_pipeline_ref, [prune_depth_each_ref], at_path_ref, $pl, $kids, |r: &std::rc::Rc<Rules>| CollRef(coll(r)));
                infinite_coll!(@ $c, $r, $N, $nm, row, roots, k, bfs_each_iter_mut, dfs_preorder_each_iter_mut, into_pipeline_mut, [prune_depth_each_mut], at_path_mut, $pl, $kids, |r: &std::rc::Rc<Rules>| CollMut(coll(r)));
            }
        }
    };
    (@ $c:ident, $r:ident, $N:ident, $nm:literal, $row:ident, $roots:ident, $k:ident, $bfs:ident, $pre:ident, $pipe:ident, [$($depth:tt)+], $at:ident, $pl:path, $kids:path, $mk:expr) => {
        let nm = format!("{} collection {:?}", $nm, $row);
        infinite!(@ $c, $r, nm, format!(".{}() first {}", stringify!($bfs), $k), $mk, |t, _st| { same(t.$bfs().take($k).collect(), model_bfs($roots($r), $k), _st) });
        infinite!(@ $c, $r, nm, format!(".{}() first {}", stringify!($pre), $k), $mk, |t, _st| { same(t.$pre().take($k).collect(), model_pre($roots($r), $k, usize::MAX, 0), _st) });
        infinite!(@ $c, $r, nm, format!(".{}().attach_context() first {}", stringify!($bfs), $k), $mk, |t, _st| { same(prefix!(@ctxe t.$bfs().attach_context(), $k), model_bfs($roots($r), $k), _st) });
        infinite!(@ $c, $r, nm, format!(".{}().attach_context() first {}", stringify!($pre), $k), $mk, |t, _st| { same(prefix!(@ctxe t.$pre().attach_context(), $k), model_pre($roots($r), $k, usize::MAX, 0), _st) });
        infinite!(@ $c, $r, nm, format!(".{}() at_path [{}, 0]", stringify!($at), $k), $mk, |t, _st| {
            let got = t.$at(&[$k, 0]).map(|n| val(&n.0));
            let want = $roots($r).swap_remove($k % $row.len());
            let want = want.kid(0).map(|w| (w.st, vec![$k, 0]));
            _st.step();
            _st.see(got.is_some() as u64);
            if got != want { Err(format!("yielded {got:?}, expected {want:?}")) } else { Ok(()) }
        });
        if $r.wide == 0 {
            infinite!(@ $c, $r, nm, format!(".{}(2) first {}", stringify!($($depth)+), $k), $mk, |t, _st| {
                trees(t.$($depth)+(2).into_iter().take($k).map(|t| $pl(&t)).collect(), $roots($r), $k, _st)
            });
            infinite!(@ $c, $r, nm, format!(".{}().prune_depth(2).trees() first {}", stringify!($pipe), $k), $mk, |t, _st| {
                trees(t.$pipe().prune_depth(2).trees().into_iter().take($k).map(|t| $pl(&t)).collect(), $roots($r), $k, _st)
            });
            infinite!(@ $c, $r, nm, format!(".{}().prune_depth(2).fold_trees() first {}", stringify!($pipe), $k), $mk, |t, _st| {
                let fold = |kids: _, v: Val| { let mut m = M { id: v.0 as u32, ..M::default() }; $kids(&mut m, kids); m };
                trees(t.$pipe().prune_depth(2).fold_trees(fold).take($k).collect(), $roots($r), $k, _st)
            });
        }
        if $row.iter().any(|s| *s != Some(1)) {
            infinite!(@pipes $c, $r, nm, $pipe, map_trees, $k, $roots, $mk);
        }
    };
}
fn lists(states: usize, max: usize) -> Vec<Vec<Option<usize>>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<Option<usize>>> = vec![vec![]];
    for _ in 0..max {
        level = level.iter().flat_map(|l| (0..states).map(move |s| { let mut l = l.clone(); l.push(Some(s)); l })).collect();
        out.extend(level.iter().cloned());
    }
    out
}
fn pairs(states: usize) -> Vec<Vec<Option<usize>>> {
    let o: Vec<Option<usize>> = [None].into_iter().chain((0..states).map(Some)).collect();
    o.iter().flat_map(|a| o.iter().map(move |b| vec![*a, *b])).collect()
}
fn automata(states: usize, rhs: &[Vec<Option<usize>>], f: &mut dyn FnMut(&Vec<Row>)) {
    fn rec(n: usize, rhs: &[Vec<Option<usize>>], cur: &mut Vec<Row>, f: &mut dyn FnMut(&Vec<Row>)) {
        if n == 0 {
            return f(cur);
        }
        for r in rhs {
            cur.push(r.clone());
            rec(n - 1, rhs, cur, f);
            cur.pop();
        }
    }
    rec(states, rhs, &mut vec![], f)
}

pub fn run(c: &mut Ctx) {
    STRICT.store(true, std::sync::atomic::Ordering::Relaxed);
    let n = c.pick(9, 10, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes of user-implemented nodes x every traversal x every number of elements, expansions counted per node"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources_for!(cb, LNode, "LNode", (c, m));
                nary_sources_for!(cb, INode, "INode", (c, m));
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                bin_sources_for!(cb, CBin, "CBin", (c, m));
            }
        }
    }
    let sizes = c.pick(vec![12, 17, 33, 65, 130, 258], family_sizes(300), vec![]);
    c.bound(format!("the same on 15 families of larger trees of the sizes {sizes:?}"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            nary_sources_for!(cb, LNode, "LNode", (c, m));
            nary_sources_for!(cb, INode, "INode", (c, m));
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            bin_sources_for!(cb, CBin, "CBin", (c, m));
        }
    }
    let n = c.pick(8, 9, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes x map/fold/prune (every set)/prune_depth (every limit)/at_path (every node)"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                transforms!(c, m, LNode, "LNode", Vec<M>, fold_nary);
                transforms!(c, m, INode, "INode", Vec<M>, fold_nary);
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                transforms!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
            }
        }
    }
    let n = c.pick(7, 8, 3);
    c.bound(format!("every collection of user-implemented trees with <= {n} nodes in total x every container x every traversal x every number of elements"));
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_c(c, f, s);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_c(c, f, s);
            }
        }
    }
    let sizes = c.pick(vec![17, 40], vec![12, 17, 33, 40, 65, 100], vec![]);
    c.bound(format!("the transforms on 15 families of trees of the sizes {sizes:?}, with sets of none, one, every other or every third node"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            transforms!(c, m, LNode, "LNode", Vec<M>, fold_nary);
            transforms!(c, m, INode, "INode", Vec<M>, fold_nary);
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            transforms!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
        }
    }
    let many = c.pick(70, 140, 0);
    if many > 0 {
        c.bound(format!("collections of two families of trees of the sizes 17 and 33, and of {many} trees of 1, 2 or 1 to 3 nodes"));
        type Shapes = fn(usize) -> Vec<M>;
        // trees of 1 node, trees of 2 nodes, every shape of at most 3 nodes in turn
        let long = |shapes: Shapes| -> Vec<Vec<M>> {
            let all: Vec<M> = (1..=3).flat_map(shapes).collect();
            [shapes(1), shapes(2), all].iter().map(|l| l.iter().cycle().take(many).cloned().collect()).collect()
        };
        let twos = |a: Vec<M>, b: Vec<M>| -> Vec<Vec<M>> { a.into_iter().zip(b).map(|(a, b)| vec![a, b]).collect() };
        for f in long(nary_shapes).into_iter().chain(twos(nary_families_of(&[17]), nary_families_of(&[33]))) {
            let f = &number_forest(f);
            if c.mine() {
                nary_c(c, f, f.iter().map(|t| t.size()).sum());
            }
        }
        for f in long(binary_shapes).into_iter().chain(twos(binary_families_of(&[17]), binary_families_of(&[33]))) {
            let f = &number_forest(f);
            if c.mine() {
                binary_c(c, f, f.iter().map(|t| t.size()).sum());
            }
        }
    }
    // paths over {0, 1, 2} up to length 4
    let mut ps: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..c.pick(4, 5, 2) {
        let to = ps.len();
        for i in from..to {
            for a in 0..3 {
                let mut p = ps[i].clone();
                p.push(a);
                ps.push(p);
            }
        }
        from = to;
    }
    let ps = &ps;
    let plan: Vec<(usize, usize)> = c.pick(vec![(1, 3), (2, 3), (3, 2)], vec![(1, 4), (2, 4), (3, 3)], vec![(2, 1)]);
    for (states, max) in plan {
        c.bound(format!("every (mostly infinite) n-ary tree defined by an automaton with {states} states and at most {max} children per node, prefixes of up to 12 elements (70 with one state)"));
        automata(states, &lists(states, max), &mut |rows| {
            if c.mine() {
                set_far(states);
                let r = &std::rc::Rc::new(Rules { rows: rows.clone(), wide: 0 });
                infinite!(c, r, INary, "INary", ps, plain_n);
            }
        });
    }
    let plan: Vec<(usize, usize)> = c.pick(vec![(1, 2), (2, 2)], vec![(1, 3), (2, 3), (3, 1)], vec![(2, 1)]);
    for (states, max) in plan {
        c.bound(format!("the same with every non-empty set of the {states} states having infinitely many children (at most {max}, over and over), and infinite collections of such trees"));
        automata(states, &lists(states, max), &mut |rows| {
            for wide in 0..1u32 << states {
                // only rows with children can be repeated
                if (0..states).any(|s| wide >> s & 1 == 1 && rows[s].is_empty()) {
                    continue;
                }
                if c.mine() {
                    set_far(states);
                    let r = &std::rc::Rc::new(Rules { rows: rows.clone(), wide });
                    if wide != 0 {
                        infinite!(c, r, INary, "INary", ps, plain_n);
                    }
                    infinite_coll!(c, r, INary, "INary", plain_n, kids_n, [prune_depth_each::<()>]);
                }
            }
        });
    }
    for states in 1..=c.pick(3, 3, 1) {
        c.bound(format!("every (mostly infinite) binary tree defined by an automaton with {states} states, prefixes of up to 12 elements (70 with one state); infinite collections of such trees with at most 2 states"));
        automata(states, &pairs(states), &mut |rows| {
            if c.mine() {
                set_far(states);
                let r = &std::rc::Rc::new(Rules { rows: rows.clone(), wide: 0 });
                infinite!(c, r, IBin, "IBin", ps, plain_b);
                if states <= 2 {
                    infinite_coll!(c, r, IBin, "IBin", plain_b, kids_b, [prune_depth_each]);
                }
            }
        });
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C17", &["a node may be looked at one level ahead of the traversal; expansion counts are taken inside user-implemented nodes"], run);
}
