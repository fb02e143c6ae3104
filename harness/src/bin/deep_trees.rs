//! Traversals and transforms use no call stack per level of the tree: they run to the end on trees
//! many times deeper than the call stack they are given could serve.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use streaming_iterator::StreamingIterator;

/// One level of a spine: leaves before and after the node the spine continues in (at most one each;
/// for binary trees the position of the continuation and whether the other side holds a leaf).
type Step = u8;
/// a tree as children lists, nodes numbered in pre-order
struct Shape {
    name: String,
    kids: Vec<Vec<(usize, u32)>>,
    parent: Vec<u32>,
    depth: Vec<u32>,
    slot: Vec<usize>,
}
impl Shape {
    fn new(name: String) -> Shape {
        Shape { name, kids: vec![vec![]], parent: vec![u32::MAX], depth: vec![0], slot: vec![0] }
    }
    fn add(&mut self, p: u32, slot: usize) -> u32 {
        let id = self.kids.len() as u32;
        self.kids.push(vec![]);
        self.parent.push(p);
        self.depth.push(self.depth[p as usize] + 1);
        self.slot.push(slot);
        self.kids[p as usize].push((slot, id));
        id
    }
    /// hang a spine with the word repeated under `p`; later leaves are added once the spine ends, which
    /// is what pre-order numbering asks for
    fn spine(&mut self, binary: bool, p: u32, word: &[Step], levels: usize) {
        let mut at = p;
        let mut pending = vec![];
        for i in 0..levels {
            let s = word[i % word.len()];
            if binary {
                let (side, other) = ((s & 1) as usize, s & 2 != 0);
                if other && side == 1 {
                    self.add(at, 0);
                }
                pending.push((at, (other && side == 0).then_some(1)));
                at = self.add(at, side);
            } else {
                let mut n = self.kids[at as usize].len();
                if s & 1 != 0 {
                    self.add(at, n);
                    n += 1;
                }
                pending.push((at, (s & 2 != 0).then_some(n + 1)));
                at = self.add(at, n);
            }
        }
        while let Some((at, slot)) = pending.pop() {
            if let Some(slot) = slot {
                self.add(at, slot);
            }
        }
    }
    fn order(&self, o: Order) -> Vec<u32> {
        let mut out = vec![];
        match o {
            Order::Pre => out.extend(0..self.kids.len() as u32),
            Order::Bfs => {
                out.push(0);
                let mut i = 0;
                while i < out.len() {
                    out.extend(self.kids[out[i] as usize].iter().map(|k| k.1));
                    i += 1;
                }
            }
            Order::Post => {
                // reversed pre-order with the children from right to left
                let mut s = vec![0];
                while let Some(n) = s.pop() {
                    out.push(n);
                    s.extend(self.kids[n as usize].iter().map(|k| k.1));
                }
                out.reverse();
            }
            Order::In => {
                let mut s = vec![(0u32, false)];
                while let Some((n, seen)) = s.pop() {
                    if seen {
                        out.push(n);
                        continue;
                    }
                    let k = &self.kids[n as usize];
                    s.extend(k.iter().filter(|k| k.0 == 1).map(|k| (k.1, false)));
                    s.push((n, true));
                    s.extend(k.iter().filter(|k| k.0 == 0).map(|k| (k.1, false)));
                }
            }
        }
        out
    }
    fn leaf(&self, id: u32) -> bool {
        self.kids[id as usize].is_empty()
    }
    /// (value, depth) of every node
    fn rows(&self, ids: &[u32]) -> Vec<(u32, u32)> {
        ids.iter().map(|i| (*i, self.depth[*i as usize])).collect()
    }
    /// remaining leaves once `k` elements of the traversal are gone
    fn leaves(&self, o: Order, k: usize) -> Vec<u32> {
        let ids = self.order(o);
        let taken: std::collections::HashSet<u32> = ids[..k].iter().copied().collect();
        let ord = if matches!(o, Order::Bfs) { Order::Bfs } else { Order::Pre };
        self.order(ord).into_iter().filter(|i| self.leaf(*i) && !taken.contains(i)).collect()
    }
    fn deepest(&self) -> (Vec<usize>, u32) {
        let n = (0..self.kids.len()).max_by_key(|i| self.depth[*i]).unwrap();
        let mut path = vec![];
        let mut at = n;
        while at != 0 {
            path.push(self.slot[at]);
            at = self.parent[at] as usize;
        }
        path.reverse();
        (path, n as u32)
    }
}

trait Val {
    fn v(&self) -> u32;
}
impl Val for u32 {
    fn v(&self) -> u32 {
        *self
    }
}
impl Val for &u32 {
    fn v(&self) -> u32 {
        **self
    }
}
impl Val for &mut u32 {
    fn v(&self) -> u32 {
        **self
    }
}
trait Make: Sized {
    fn make(s: &Shape) -> Self;
}
impl Make for Tree<u32> {
    fn make(s: &Shape) -> Self {
        let mut nodes: Vec<Option<Self>> = (0..s.kids.len()).map(|i| Some(Tree { value: i as u32, children: vec![] })).collect();
        for i in (1..nodes.len()).rev() {
            let mut n = nodes[i].take().unwrap();
            n.children.reverse();
            nodes[s.parent[i] as usize].as_mut().unwrap().children.push(n);
        }
        let mut root = nodes[0].take().unwrap();
        root.children.reverse();
        root
    }
}
impl Make for BinaryTree<u32> {
    fn make(s: &Shape) -> Self {
        let mut nodes: Vec<Option<Self>> = (0..s.kids.len()).map(|i| Some(BinaryTree { value: i as u32, left: None, right: None })).collect();
        for i in (1..nodes.len()).rev() {
            let n = nodes[i].take().map(Box::new);
            let p = nodes[s.parent[i] as usize].as_mut().unwrap();
            *(if s.slot[i] == 0 { &mut p.left } else { &mut p.right }) = n;
        }
        nodes[0].take().unwrap()
    }
}
/// (value, depth) in pre-order of a result tree, without recursion
trait Flat {
    fn flat(&self) -> Vec<(u32, u32, usize)>;
}
impl<T: Val> Flat for Tree<T> {
    fn flat(&self) -> Vec<(u32, u32, usize)> {
        let mut out = vec![];
        let mut s = vec![(self, 0, 0)];
        while let Some((t, d, slot)) = s.pop() {
            out.push((t.value.v(), d, slot));
            s.extend(t.children.iter().enumerate().rev().map(|(i, k)| (k, d + 1, i)));
        }
        out
    }
}
impl<T: Val> Flat for BinaryTree<T> {
    fn flat(&self) -> Vec<(u32, u32, usize)> {
        let mut out = vec![];
        let mut s = vec![(self, 0, 0)];
        while let Some((t, d, slot)) = s.pop() {
            out.push((t.value.v(), d, slot));
            s.extend(t.right.as_deref().map(|k| (k, d + 1, 1)));
            s.extend(t.left.as_deref().map(|k| (k, d + 1, 0)));
        }
        out
    }
}
impl<T: Flat> Flat for Option<T> {
    fn flat(&self) -> Vec<(u32, u32, usize)> {
        self.as_ref().map(|t| t.flat()).unwrap_or_default()
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self) -> Vec<(u32, u32, usize)> {
        self.iter().flat_map(|t| t.flat()).collect()
    }
}
trait Sum {
    fn sum(self) -> u64;
}
impl Sum for Vec<u64> {
    fn sum(self) -> u64 {
        self.into_iter().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b))
    }
}
impl Sum for [Option<u64>; 2] {
    fn sum(self) -> u64 {
        self.into_iter().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b.unwrap_or(17)))
    }
}
fn fold_of(s: &Shape, binary: bool) -> u64 {
    let mut res = vec![0u64; s.kids.len()];
    for i in (0..s.kids.len()).rev() {
        let k = &s.kids[i];
        let kids = if binary {
            let g = |x| k.iter().find(|k| k.0 == x).map(|k| res[k.1 as usize]);
            [g(0), g(1)].sum()
        } else {
            k.iter().map(|k| res[k.1 as usize]).collect::<Vec<_>>().sum()
        };
        res[i] = kids.wrapping_mul(7).wrapping_add(i as u64);
    }
    res[0]
}

const BIG: usize = 1 << 29;
/// run `f` on a call stack of `kb` KiB
fn small<T: Send, R: Send>(kb: usize, t: T, f: impl FnOnce(T) -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(kb << 10).spawn_scoped(s, move || f(t)).map_err(|e| format!("thread: {e}"))?.join().map_err(|p| {
            format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
        })
    })
}
/// building, reading back and dropping may recurse: do that where there is room
fn big<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(BIG).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| panic!("the harness thread failed")))
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{what}: {} elements, expected {}; element {i} is {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)))
}
macro_rules! keep {
    (owned, $t:ident) => {
        ()
    };
    ($o:ident, $t:ident) => {
        $t
    };
}
macro_rules! small_case {
    ($c:ident, $sh:ident, $N:ty, $kb:expr, $own:ident, $label:expr, ($t:ident) => $run:expr, |$r:ident| $check:expr) => {
        $c.case(&|| format!("{} on {}", $label, $sh.name), &mut |st| {
            let n = big(|| -> Result<usize, String> {
                let t = <$N>::make($sh);
                #[allow(unused_mut)]
                let ($r, _back) = small($kb, t, |mut $t| {
                    let r = $run;
                    (r, keep!($own, $t))
                })?;
                let n = $sh.kids.len();
                $check?;
                Ok(n)
            })?;
            st.steps(n);
            st.see(n as u64);
            Ok(())
        });
    };
}
macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $sh:ident, $kb:expr, $bfs:expr) => {
        if !$bfs {
            small_case!($c, $sh, $N, $kb, $own, $label, ($t) => { let mut o = vec![]; for v in $it { o.push(v.v()); } o }, |r| same("values", &r, &$sh.order($order)));
            // the ways of driving an iterator that it may implement on its own
            small_case!($c, $sh, $N, $kb, $own, format!("{} for_each", $label), ($t) => { let mut o = vec![]; ($it).for_each(|v| o.push(v.v())); o }, |r| same("values", &r, &$sh.order($order)));
            small_case!($c, $sh, $N, $kb, $own, format!("{} count", $label), ($t) => ($it).count(), |r| same("count", &[r], &[$sh.kids.len()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{} last", $label), ($t) => ($it).last().map(|v| v.v()), |r| same("last", &[r], &[$sh.order($order).last().copied()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{} nth", $label), ($t) => { let n = $sh.kids.len() - 1; ($it).nth(n).map(|v| v.v()) }, |r| same("nth", &[r], &[$sh.order($order).last().copied()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{} all", $label), ($t) => { let mut n = 0; ($it).all(|_| { n += 1; true }); n }, |r| same("count", &[r], &[$sh.kids.len()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{} leaves() for_each", $label), ($t) => { let mut o = vec![]; ($it).leaves().for_each(|v| o.push(v.v())); o }, |r| same("leaves", &r, &$sh.leaves($order, 0)));
            small_case!($c, $sh, $N, $kb, $own, format!("{} leaves() all", $label), ($t) => { let mut o = vec![]; ($it).leaves().all(|v| { o.push(v.v()); true }); o }, |r| same("leaves", &r, &$sh.leaves($order, 0)));
            for k in [0, 1, $sh.kids.len() / 2, $sh.kids.len()] {
                small_case!($c, $sh, $N, $kb, $own, format!("{} taken {k} .leaves()", $label), ($t) => {
                    let mut it = $it;
                    for _ in 0..k { it.next(); }
                    let mut o = vec![]; for v in it.leaves() { o.push(v.v()); } o
                }, |r| same("leaves", &r, &$sh.leaves($order, k)));
            }
        }
        if matches!($order, Order::Bfs) == $bfs {
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_ancestors()", $label), ($t) => {
                let mut it = $it.attach_ancestors();
                let mut o = vec![]; while let Some(a) = it.next() { o.push((a.last().unwrap().v(), a.len() as u32 - 1)); } o
            }, |r| same("ancestors", &r, &$sh.rows(&$sh.order($order))));
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_context()", $label), ($t) => {
                let mut it = $it.attach_context();
                let mut o = vec![];
                while let Some(x) = it.next() { o.push((x.ancestors().last().unwrap().v(), x.depth() as u32, x.path().len(), x.path().last().copied().unwrap_or(0))); } o
            }, |r| same("contexts", &r, &$sh.rows(&$sh.order($order)).into_iter().map(|(i, d)| (i, d, d as usize, $sh.slot[i as usize])).collect::<Vec<_>>()));
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_ancestors() count", $label), ($t) => ($it).attach_ancestors().count(), |r| same("count", &[r], &[$sh.kids.len()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_context() count", $label), ($t) => ($it).attach_context().count(), |r| same("count", &[r], &[$sh.kids.len()]));
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_ancestors() for_each", $label), ($t) => { let mut o = vec![]; ($it).attach_ancestors().for_each(|a| o.push(a.last().unwrap().v())); o }, |r| same("ancestors", &r, &$sh.order($order)));
            small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_context() nth", $label), ($t) => {
                // to the end: dropping a breadth-first iterator that stopped on the way is left to its destructor
                let mut it = ($it).attach_context();
                let last = it.nth($sh.kids.len() - 1).map(|x| x.ancestors().last().unwrap().v());
                (last, it.nth(0).is_none())
            }, |r| same("nth", &[r], &[($sh.order($order).last().copied(), true)]));
            for k in [0, 1, $sh.kids.len() / 2, $sh.kids.len() - 1] {
                small_case!($c, $sh, $N, $kb, $own, format!("{}.attach_ancestors() taken {k} .leaves()", $label), ($t) => {
                    let mut it = $it.attach_ancestors();
                    for _ in 0..k { it.advance(); }
                    let mut it = it.leaves();
                    let mut o = vec![]; while let Some(a) = it.next() { o.push((a.last().unwrap().v(), a.len() as u32 - 1)); } o
                }, |r| same("leaves with ancestors", &r, &$sh.rows(&$sh.leaves($order, k))));
            }
        }
    };
}
macro_rules! trans {
    ($c:ident, $sh:ident, $N:ty, $nm:literal, $kb:expr, $bin:expr, $K:ty) => {
        trans!(@one $c, $sh, $N, $nm, $kb, $bin, $K, owned, (t) => t, "", map, map_path, prune, prune_path, prune_depth, fold, fold_path, into_pipeline, at_path);
        trans!(@one $c, $sh, $N, $nm, $kb, $bin, $K, muts, (t) => t, "_mut", map_mut, map_path_mut, prune_mut, prune_path_mut, prune_depth_mut, fold_mut, fold_path_mut, into_pipeline_mut, at_path_mut);
        trans!(@one $c, $sh, $N, $nm, $kb, $bin, $K, refs, (t) => t, "_ref", map_ref, map_path_ref, prune_ref, prune_path_ref, prune_depth_ref, fold_ref, fold_path_ref, into_pipeline_ref, at_path_ref);
    };
    (@one $c:ident, $sh:ident, $N:ty, $nm:literal, $kb:expr, $bin:expr, $K:ty, $own:ident, ($t:ident) => $e:expr, $sfx:literal, $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $prune_depth:ident, $fold:ident, $fold_path:ident, $pipe:ident, $at:ident) => {{
        let all = || (0..$sh.kids.len()).map(|i| (i as u32, $sh.depth[i], $sh.slot[i])).collect::<Vec<_>>();
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".map", $sfx), ($t) => $t.$map(|v| v.v()), |r| same("mapped", &r.flat(), &all()));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".map_path", $sfx), ($t) => $t.$map_path(|p: &[usize], v| (p.len() as u32) << 20 | v.v()), |r| same("mapped", &r.flat(), &all().into_iter().map(|(i, d, s)| (d << 20 | i, d, s)).collect::<Vec<_>>()));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".prune", $sfx), ($t) => { let x = $t.$prune(|_| false); x.map(|x| mapped!($bin, x)) }, |r| same("pruned", &r.flat(), &all()));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".prune_path", $sfx), ($t) => { let x = $t.$prune_path(|_: &[usize], _| false); x.map(|x| mapped!($bin, x)) }, |r| same("pruned", &r.flat(), &all()));
        // every leaf but the last is pruned: long runs of pruned siblings in wide trees
        let keep: Vec<(u32, u32)> = {
            let last = $sh.kids.len() as u32 - 1;
            $sh.rows(&$sh.order(Order::Pre)).into_iter().filter(|r| !$sh.leaf(r.0) || r.0 == last).collect()
        };
        let last = $sh.kids.len() as u32 - 1;
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".into_pipeline", $sfx, " prune leaves"), ($t) => { let mut o = vec![]; let mut it = $t.$pipe().prune(|v| $sh.leaf(v.v()) && v.v() != last); while let Some(v) = it.next() { o.push((v.v(), it.current_depth() as u32)); } o }, |r| same("kept", &r, &keep));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".into_pipeline", $sfx, " prune_path leaves for_each"), ($t) => { let mut o = vec![]; $t.$pipe().map_tree(|v| v.v()).prune_path(|_, v| $sh.leaf(*v) && *v != last).map_path(|p, v| (v, p.len() as u32)).for_each(|r| o.push(r)); o }, |r| same("kept", &r, &keep));
        let lim = $sh.depth.iter().max().unwrap() / 2;
        // (dropping the subtrees an owned tree loses recurses: that is the tree's own destructor)
        if $sfx != "" {
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".prune_depth", $sfx), ($t) => { let n = $t.$pipe().prune_depth(lim as usize).count(); n }, |r| same("kept", &[r], &[$sh.depth.iter().filter(|d| **d <= lim).count()]));
        }
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".prune_depth", $sfx, " beyond the height"), ($t) => { let x = $t.$prune_depth(usize::MAX); mapped!($bin, x) }, |r| same("kept", &r.flat(), &all()));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".fold", $sfx), ($t) => $t.$fold(|k: $K, v| k.sum().wrapping_mul(7).wrapping_add(v.v() as u64)), |r| same("folded", &[r], &[fold_of($sh, $bin)]));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".fold_path", $sfx), ($t) => $t.$fold_path(|k: $K, p: &[usize], v| k.sum().wrapping_mul(7).wrapping_add(v.v() as u64).wrapping_add(p.len() as u64 & 0)), |r| same("folded", &[r], &[fold_of($sh, $bin)]));
        small_case!($c, $sh, $N, $kb, $own, concat!($nm, ".into_pipeline", $sfx, " map, prune, map_path, prune_path, count"), ($t) => { let n = $t.$pipe().map_tree(|v| v.v()).prune(|_| false).map_path(|_, v| v).prune_path(|_, _| false).count(); n }, |r| same("counted", &[r], &[$sh.kids.len()]));
    }};
}
macro_rules! mapped {
    ($bin:expr, $x:expr) => {
        $x.map(|v| v.v())
    };
}
macro_rules! at {
    ($c:ident, $sh:ident, $N:ty, $nm:literal, $kb:expr) => {
        let (path, id) = $sh.deepest();
        if !$sh.name.contains("fork") {
            small_case!($c, $sh, $N, $kb, owned, concat!($nm, ".at_path"), (t) => t.at_path(&path).map(|t| t.value), |r| same("found", &[r], &[Some(id)]));
        }
        small_case!($c, $sh, $N, $kb, muts, concat!($nm, ".at_path_mut"), (t) => t.at_path_mut(&path).map(|t| t.value), |r| same("found", &[r], &[Some(id)]));
        small_case!($c, $sh, $N, $kb, refs, concat!($nm, ".at_path_ref"), (t) => t.at_path_ref(&path).map(|t| t.value), |r| same("found", &[r], &[Some(id)]));
    };
}

// ---- long collections ------------------------------------------------------------------------
macro_rules! long_case {
    ($c:ident, $n:expr, $mk:expr, $kb:expr, $label:expr, |$v:ident| $run:expr, $want:expr) => {
        $c.case(&|| format!("{} on {} trees of one node", $label, $n), &mut |st| {
            let v: Vec<_> = (0..$n as u32).map($mk).collect();
            #[allow(unused_mut)]
            let (got, _v) = small($kb, v, |mut $v| { let r = $run; r })?;
            st.steps($n);
            st.see(got.len() as u64);
            same("elements", &got, &$want)
        });
    };
}
macro_rules! long_colls {
    ($c:ident, $n:expr, $mk:expr, $kb:expr, $nm:literal, ($($each:ident, $mut_:ident, $ref_:ident);+)) => {
        let all: Vec<u32> = (0..$n as u32).collect();
        $(
            long_colls!(@walk $c, $n, $mk, $kb, $nm, $each, all, |v| v);
            long_colls!(@walk $c, $n, $mk, $kb, $nm, $mut_, all, |v| v.iter_mut());
            long_colls!(@walk $c, $n, $mk, $kb, $nm, $ref_, all, |v| v.iter());
        )+
        long_colls!(@pipe $c, $n, $mk, $kb, $nm, into_pipeline, all, |v| v);
        long_colls!(@pipe $c, $n, $mk, $kb, $nm, into_pipeline_mut, all, |v| v.iter_mut());
        long_colls!(@pipe $c, $n, $mk, $kb, $nm, into_pipeline_ref, all, |v| v.iter());
    };
    (@walk $c:ident, $n:expr, $mk:expr, $kb:expr, $nm:literal, $m:ident, $all:ident, |$v:ident| $e:expr) => {
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m)), |$v| { let mut o = vec![]; for x in ($e).$m() { o.push(x.v()); } (o, ()) }, $all);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " for_each"), |$v| { let mut o = vec![]; ($e).$m().for_each(|x| o.push(x.v())); (o, ()) }, $all);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " context"), |$v| { let mut o = vec![]; let mut it = ($e).$m().attach_context(); while let Some(x) = it.next() { o.push(x.path()[0] as u32); } drop(it); (o, ()) }, $all);
    };
    (@pipe $c:ident, $n:expr, $mk:expr, $kb:expr, $nm:literal, $m:ident, $all:ident, |$v:ident| $e:expr) => {
        let last = $n as u32 - 1;
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " map_trees trees"), |$v| { let mut o = vec![]; for x in ($e).$m().map_trees(|v| v.v()).map_path(|_, v| v).trees() { o.push(x.value); } (o, ()) }, $all);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " prune, prune_path trees"), |$v| { let mut o = vec![]; for x in ($e).$m().map_trees(|v| v.v()).prune(|v| *v != last && *v % 2 == 0).prune_path(|_, v| *v != last).prune_depth(1).trees() { o.push(x.value); } (o, ()) }, [last]);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " prune fold_trees"), |$v| { let mut o = vec![]; for x in ($e).$m().map_trees(|v| v.v()).prune(|v| *v != last).fold_trees(|_, v| v) { o.push(x); } (o, ()) }, [last]);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " prune_path fold_path"), |$v| { let mut o = vec![]; for x in ($e).$m().map_trees(|v| v.v()).prune_path(|_, v| *v != last).fold_path(|_, _, v| v) { o.push(x); } (o, ()) }, [last]);
        long_case!($c, $n, $mk, $kb, concat!($nm, " ", stringify!($m), " fold_path"), |$v| { let mut o = vec![]; for x in ($e).$m().fold_path(|_, p, _| p[0] as u32) { o.push(x); } (o, ()) }, $all);
    };
}

fn words(max: usize) -> Vec<Vec<Step>> {
    let mut out: Vec<Vec<Step>> = vec![];
    for len in 1..=max {
        for x in 0..4usize.pow(len as u32) {
            out.push((0..len).map(|i| (x >> (2 * i) & 3) as Step).collect());
        }
    }
    out
}
fn shapes(binary: bool, max: usize, levels: usize) -> Vec<Shape> {
    let kind = if binary { "binary" } else { "n-ary" };
    let w = |w: &[Step]| w.iter().map(|s| s.to_string()).collect::<String>();
    let mut out = vec![];
    for word in words(max) {
        let mut s = Shape::new(format!("{kind} spine of {levels} levels repeating {}", w(&word)));
        s.spine(binary, 0, &word, levels);
        out.push(s);
    }
    if !binary {
        let mut s = Shape::new(format!("{kind} root with {} leaves", 4 * levels));
        for i in 0..4 * levels {
            s.add(0, i);
        }
        out.push(s);
        let mut s = Shape::new(format!("{kind} root with {levels} nodes that have one leaf each"));
        for i in 0..levels {
            let x = s.add(0, i);
            s.add(x, 0);
        }
        out.push(s);
    }
    for a in words(1) {
        for b in words(1) {
            let mut s = Shape::new(format!("{kind} fork of two spines of {levels} levels repeating {} and {}", w(&a), w(&b)));
            let x = s.add(0, 0);
            s.spine(binary, x, &a, levels);
            let x = s.add(0, 1);
            s.spine(binary, x, &b, levels);
            out.push(s);
        }
    }
    out
}

fn deep(c: &mut Ctx, max: usize, levels: usize, kb: usize, chains: bool) {
    for ref sh in shapes(false, max, levels) {
        if (!chains || sh.kids.len() == levels + 1) && c.mine() {
            nary_sources_for!(cb, Tree<u32>, "Tree", (c, sh, kb, false));
            trans!(c, sh, Tree<u32>, "Tree", kb, false, Vec<u64>);
            at!(c, sh, Tree<u32>, "Tree", kb);
        }
    }
    for ref sh in shapes(true, max, levels) {
        if (!chains || sh.kids.len() == levels + 1) && c.mine() {
            bin_sources_for!(cb, BinaryTree<u32>, "BinaryTree", (c, sh, kb, false));
            trans!(c, sh, BinaryTree<u32>, "BinaryTree", kb, true, [Option<u64>; 2]);
            at!(c, sh, BinaryTree<u32>, "BinaryTree", kb);
        }
    }
}

pub fn run(c: &mut Ctx) {
    let (max, levels, kb) = c.pick((2, 1_500, 64), (3, 20_000, 96), (1, 2_000, 96));
    c.bound(format!("every spine of {levels} levels repeating a word of <= {max} of 4 steps, and every fork of two spines repeating one step, n-ary and binary, on a call stack of {kb} KiB"));
    deep(c, max, levels, kb, false);
    let (levels, chains) = c.pick((66_000, true), (66_000, false), (0, true));
    if levels > 0 {
        c.bound(format!("{} of {levels} levels repeating one step, {kb} KiB", if chains { "chains" } else { "spines and forks" }));
        deep(c, 1, levels, kb, chains);
    }
    let n = c.pick(4_000, 50_000, 2_000);
    c.bound(format!("collections of {n} trees: every traversal and pipelines that prune nearly all of them, {kb} KiB"));
    if c.mine() {
        long_colls!(c, n, |i| Tree { value: i, children: vec![] }, kb, "Vec<Tree>", (bfs_each, bfs_each_iter_mut, bfs_each_iter; dfs_preorder_each, dfs_preorder_each_iter_mut, dfs_preorder_each_iter; dfs_postorder_each, dfs_postorder_each_iter_mut, dfs_postorder_each_iter));
    }
    if c.mine() {
        long_colls!(c, n, |i| BinaryTree { value: i, left: None, right: None }, kb, "Vec<BinaryTree>", (bfs_each, bfs_each_iter_mut, bfs_each_iter; dfs_preorder_each, dfs_preorder_each_iter_mut, dfs_preorder_each_iter; dfs_postorder_each, dfs_postorder_each_iter_mut, dfs_postorder_each_iter; dfs_inorder_each, dfs_inorder_each_iter_mut, dfs_inorder_each_iter));
    }
    // breadth-first contexts and ancestors walk up and down between levels, so these take quadratic time
    let (max, levels, kb) = c.pick((1, 700, 40), (2, 2_000, 40), (1, 500, 40));
    c.bound(format!("breadth-first ancestors and contexts: spines and forks of {levels} levels, words of <= {max} steps, {kb} KiB"));
    for ref sh in shapes(false, max, levels) {
        if c.mine() {
            nary_sources_for!(cb, Tree<u32>, "Tree", (c, sh, kb, true));
        }
    }
    for ref sh in shapes(true, max, levels) {
        if c.mine() {
            bin_sources_for!(cb, BinaryTree<u32>, "BinaryTree", (c, sh, kb, true));
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C21", &[], run);
}
