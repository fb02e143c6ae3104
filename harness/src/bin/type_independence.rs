//! What a traversal or transform does depends on the shape of the tree alone: the types of the values,
//! of the children collections and of what closures return make no difference.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::collections::{BTreeMap, VecDeque};
use std::iter::FusedIterator;
use std::rc::Rc;

/// a value as a number
trait Key {
    fn k(&self) -> u32;
}
impl<T: Key> Key for &T {
    fn k(&self) -> u32 {
        (**self).k()
    }
}
impl<T: Key> Key for &mut T {
    fn k(&self) -> u32 {
        (**self).k()
    }
}
trait Val: Key + Sized {
    fn mk(id: u32) -> Self;
    /// what is left of `id` in a value made from it
    fn of(id: u32) -> u32 {
        id
    }
}
macro_rules! vals {
    ($($T:ty, |$i:ident| $mk:expr, |$s:ident| $k:expr, |$o:ident| $of:expr;)*) => { $(
        impl Key for $T { fn k(&self) -> u32 { let $s = self; $k } }
        impl Val for $T { fn mk($i: u32) -> Self { $mk } fn of($o: u32) -> u32 { $of } }
    )* };
}
#[derive(Clone)]
#[repr(align(64))]
struct Big([u64; 40]);
#[derive(Clone)]
struct Unit;
/// without size, but with a destructor
struct ZeroDrop;
thread_local! { static ZEROS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
impl Drop for ZeroDrop {
    fn drop(&mut self) {
        ZEROS.set(ZEROS.get() - 1);
    }
}
vals! {
    u32, |i| i, |s| *s, |o| o;
    (), |i| { let _ = i; }, |s| { let _ = s; 0 }, |o| { let _ = o; 0 };
    Unit, |i| { let _ = i; Unit }, |s| { let _ = s; 0 }, |o| { let _ = o; 0 };
    ZeroDrop, |i| { let _ = i; ZEROS.set(ZEROS.get() + 1); ZeroDrop }, |s| { let _ = s; 0 }, |o| { let _ = o; 0 };
    bool, |i| i % 2 == 1, |s| *s as u32, |o| o % 2;
    u8, |i| i as u8, |s| *s as u32, |o| o as u8 as u32;
    char, |i| char::from_u32(i).unwrap(), |s| *s as u32, |o| o;
    u128, |i| i as u128, |s| *s as u32, |o| o;
    std::num::NonZeroU8, |i| std::num::NonZeroU8::new(i as u8 + 1).unwrap(), |s| s.get() as u32 - 1, |o| o;
    Option<bool>, |i| (i % 3 != 2).then_some(i % 3 == 1), |s| match s { None => 2, Some(b) => *b as u32 }, |o| o % 3;
    String, |i| "x".repeat(i as usize), |s| s.len() as u32, |o| o;
    Box<u32>, |i| Box::new(i), |s| **s, |o| o;
    Rc<u32>, |i| Rc::new(i), |s| **s, |o| o;
    Option<Box<u32>>, |i| Some(Box::new(i)), |s| **s.as_ref().unwrap(), |o| o;
    Vec<u32>, |i| vec![i], |s| s[0], |o| o;
    Big, |i| Big([i as u64; 40]), |s| s.0[39] as u32, |o| o;
    Tree<u32>, |i| Tree { value: i, children: vec![Tree { value: 99, children: vec![] }] }, |s| s.value, |o| o;
    f64, |i| if i % 2 == 0 { i as f64 } else { f64::NAN }, |s| if s.is_nan() { 1 } else { *s as u32 }, |o| if o % 2 == 0 { o } else { 1 };
}

// ---- nodes over other children collections, and with values made on the fly ---------------------
macro_rules! coll_node {
    ($G:ident, $Kids:ty, |$b:ident| $make:expr, $Own:ty, |$o:ident| $into:expr, $Mut:ty, |$x:ident| $iter_mut:expr, $Ref:ty, |$y:ident| $iter:expr) => {
        struct $G(u32, $Kids);
        impl OwnedTreeNode for $G {
            type OwnedValue = String;
            type OwnedChildren = $Own;
            fn get_value_and_children(self) -> (String, $Own) {
                let $o = self.1;
                (String::mk(self.0), $into)
            }
        }
        impl<'a> MutBorrowedTreeNode<'a> for $G {
            type MutBorrowedValue = (&'a mut u32, u32);
            type MutBorrowedChildren = $Mut;
            fn get_value_and_children_iter_mut(&'a mut self) -> ((&'a mut u32, u32), $Mut) {
                let k = self.0;
                let $x = &mut self.1;
                ((&mut self.0, k), $iter_mut)
            }
        }
        impl<'a> BorrowedTreeNode<'a> for $G {
            type BorrowedValue = u32;
            type BorrowedChildren = $Ref;
            fn get_value_and_children_iter(&'a self) -> (u32, $Ref) {
                let $y = &self.1;
                (self.0, $iter)
            }
        }
        impl Make for $G {
            fn make(m: &M) -> Self {
                let $b = m.kids.iter().map(Self::make);
                $G(m.id, $make)
            }
        }
    };
}
impl Key for (&mut u32, u32) {
    fn k(&self) -> u32 {
        assert_eq!(*self.0, self.1);
        self.1
    }
}
coll_node!(Deque, VecDeque<Deque>, |b| wrapped(b.collect()), VecDeque<Deque>, |o| o, &'a mut VecDeque<Deque>, |x| x, &'a VecDeque<Deque>, |y| y);
coll_node!(BMap, BTreeMap<u32, BMap>, |b| b.map(|k| (k.0, k)).collect(), std::collections::btree_map::IntoValues<u32, BMap>, |o| o.into_values(), std::collections::btree_map::ValuesMut<'a, u32, BMap>, |x| x.values_mut(), std::collections::btree_map::Values<'a, u32, BMap>, |y| y.values());
coll_node!(Boxed, Vec<Box<Boxed>>, |b| b.map(Box::new).collect(), std::iter::Map<std::vec::IntoIter<Box<Boxed>>, fn(Box<Boxed>) -> Boxed>, |o| o.into_iter().map(|k| *k), std::iter::Map<std::slice::IterMut<'a, Box<Boxed>>, fn(&'a mut Box<Boxed>) -> &'a mut Boxed>, |x| x.iter_mut().map(|k| &mut **k), std::iter::Map<std::slice::Iter<'a, Box<Boxed>>, fn(&'a Box<Boxed>) -> &'a Boxed>, |y| y.iter().map(|k| &**k));
coll_node!(Dyn, Vec<Dyn>, |b| b.collect(), Box<dyn Iterator<Item = Dyn>>, |o| Box::new(o.into_iter()), Box<dyn FusedIterator<Item = &'a mut Dyn> + 'a>, |x| Box::new(x.iter_mut()), Box<dyn FusedIterator<Item = &'a Dyn> + 'a>, |y| Box::new(y.iter()));
coll_node!(Slots, [Option<Box<Slots>>; 5], |b| { let mut b = b; [(); 5].map(|_| b.next().map(Box::new)) },
    std::iter::FlatMap<std::array::IntoIter<Option<Box<Slots>>, 5>, Option<Slots>, fn(Option<Box<Slots>>) -> Option<Slots>>, |o| o.into_iter().flat_map(|k| k.map(|k| *k)),
    std::iter::FilterMap<std::slice::IterMut<'a, Option<Box<Slots>>>, fn(&'a mut Option<Box<Slots>>) -> Option<&'a mut Slots>>, |x| x.iter_mut().filter_map(|k| k.as_deref_mut()),
    std::iter::FilterMap<std::slice::Iter<'a, Option<Box<Slots>>>, fn(&'a Option<Box<Slots>>) -> Option<&'a Slots>>, |y| y.iter().filter_map(|k| k.as_deref()));

/// a ring buffer whose contents wrap around its end
fn wrapped<T>(kids: Vec<T>) -> VecDeque<T> {
    let mut d = VecDeque::with_capacity(kids.len());
    let half = kids.len() / 2;
    let mut back = kids;
    let tail = back.split_off(half);
    for k in back.into_iter().rev() {
        d.push_front(k);
    }
    d.extend(tail);
    d
}

trait Make {
    fn make(m: &M) -> Self;
}
impl<T: Val> Make for Tree<T> {
    fn make(m: &M) -> Self {
        Tree { value: T::mk(m.id), children: m.kids.iter().map(Self::make).collect() }
    }
}
impl<T: Val> Make for BinaryTree<T> {
    fn make(m: &M) -> Self {
        let side = |s: usize| m.kids.iter().find(|k| k.slot == s).map(|k| Box::new(Self::make(k)));
        BinaryTree { value: T::mk(m.id), left: side(0), right: side(1) }
    }
}

// ---- observing ----------------------------------------------------------------------------------
/// what was seen: of values of the tree (or made from them by a closure), and numbers
#[derive(Default)]
struct Log {
    rows: Vec<(&'static str, &'static str, Vec<(u32, bool, Vec<usize>)>)>,
}
impl Log {
    fn open(&mut self, source: &'static str, what: &'static str) {
        self.rows.push((source, what, vec![]));
    }
    fn tree(&mut self, v: &impl Key, p: &[usize]) {
        self.rows.last_mut().unwrap().2.push((v.k(), false, p.to_vec()));
    }
    fn made(&mut self, v: &impl Key, p: &[usize]) {
        self.rows.last_mut().unwrap().2.push((v.k(), true, p.to_vec()));
    }
}
/// a result tree, in pre-order
trait Shown {
    type X: Key;
    fn each(&self, at: &mut Vec<usize>, f: &mut dyn FnMut(&Self::X, &[usize]));
}
impl<X: Key> Shown for Tree<X> {
    type X = X;
    fn each(&self, at: &mut Vec<usize>, f: &mut dyn FnMut(&X, &[usize])) {
        f(&self.value, at);
        for (i, k) in self.children.iter().enumerate() {
            at.push(i);
            k.each(at, f);
            at.pop();
        }
    }
}
impl<X: Key> Shown for BinaryTree<X> {
    type X = X;
    fn each(&self, at: &mut Vec<usize>, f: &mut dyn FnMut(&X, &[usize])) {
        f(&self.value, at);
        for (i, k) in [&self.left, &self.right].into_iter().enumerate() {
            if let Some(k) = k {
                at.push(i);
                k.each(at, f);
                at.pop();
            }
        }
    }
}
/// the results of folding the children
trait Folded<U> {
    fn slots(self) -> Vec<(usize, U)>;
}
impl<U> Folded<U> for Vec<U> {
    fn slots(self) -> Vec<(usize, U)> {
        self.into_iter().enumerate().collect()
    }
}
impl<U> Folded<U> for [Option<U>; 2] {
    fn slots(self) -> Vec<(usize, U)> {
        self.into_iter().enumerate().filter_map(|(i, u)| Some((i, u?))).collect()
    }
}

macro_rules! walks {
    ($own:ident, $l:expr, $o:expr, $N:ty, ($t:ident) => $e:expr, $log:ident, $m:ident, $ctx:tt) => {{
        #![allow(unused_mut)]
        $log.open($l, "plain");
        { let mut $t = <$N>::make($m); for v in $e { $log.tree(&v, &[]); } }
        for i in 0..=$m.size() {
            $log.open($l, "leaves after some steps");
            let mut $t = <$N>::make($m);
            let mut it = $e;
            for _ in 0..i { it.next(); }
            for v in it.leaves() { $log.tree(&v, &[i]); }
            $log.open($l, "leaves with ancestors after some steps");
            let mut $t = <$N>::make($m);
            let mut it = $e.attach_ancestors();
            for _ in 0..i { it.advance(); }
            let mut it = it.leaves();
            while let Some(a) = it.next() { for v in a { $log.tree(v, &[i]); } }
        }
        $log.open($l, "ancestors");
        {
            let mut $t = <$N>::make($m);
            let mut it = $e.attach_ancestors();
            let mut i = 0;
            while let Some(a) = it.next() { for v in a { $log.tree(v, &[i]); } i += 1; }
        }
        $log.open($l, "context");
        walks!(@ctx $ctx, $o, $N, ($t) => $e, $log, $m);
    }};
    // post-order contexts of nodes whose children have a destructor: a known finding of C18
    (@ctx no_post, $o:expr, $N:ty, ($t:ident) => $e:expr, $log:ident, $m:ident) => {
        if $o != Order::Post { walks!(@ctx all, $o, $N, ($t) => $e, $log, $m); }
    };
    (@ctx all, $o:expr, $N:ty, ($t:ident) => $e:expr, $log:ident, $m:ident) => {{
        let mut $t = <$N>::make($m);
        let mut it = $e.attach_context();
        while let Some(x) = it.next() {
            for v in x.ancestors() { $log.tree(v, x.path()); }
            $log.tree(&x.ancestors()[0], &[x.depth()]);
        }
    }};
}
macro_rules! each_walks {
    ($l:literal, ($v:ident = $prep:expr) => [$($e:expr),*], $log:ident, $ctx:tt) => { $({
        #![allow(unused_mut)]
        $log.open($l, stringify!($e));
        { let mut $v = $prep; for v in $e { $log.tree(&v, &[]); } }
        each_walks!(@ctx $ctx, $l, ($v = $prep) => $e, $log);
    })* };
    (@ctx all, $l:literal, ($v:ident = $prep:expr) => $e:expr, $log:ident) => {{
        $log.open($l, stringify!($e.attach_context()));
        let mut $v = $prep;
        let mut it = $e.attach_context();
        while let Some(x) = it.next() { for v in x.ancestors() { $log.tree(v, x.path()); } }
    }};
    (@ctx none, $($r:tt)*) => {};
}
// closures decide by their number of calls, so that values need not tell nodes apart
macro_rules! ops {
    ($l:literal, $K:ident, $U:ty, ($t:ident = $prep:expr), $log:ident, $masks:expr,
     $map:ident, $map_path:ident, $fold:ident, $fold_path:ident, $prune:ident, $prune_path:ident, $depth:ident, $pipe:ident) => {{
        #![allow(unused_mut)]
        $log.open($l, stringify!($map));
        { let mut $t = $prep; let r = $t.$map(|v| { $log.tree(&v, &[]); <$U>::mk(v.k()) }); r.each(&mut vec![], &mut |x, p| $log.made(x, p)); }
        $log.open($l, stringify!($map_path));
        { let mut $t = $prep; let r = $t.$map_path(|p: &[usize], v| { $log.tree(&v, p); <$U>::mk(v.k()) }); r.each(&mut vec![], &mut |x, p| $log.made(x, p)); }
        $log.open($l, stringify!($fold));
        { let mut $t = $prep; let r = $t.$fold(|k: $K<$U>, v| { for (i, u) in k.slots() { $log.made(&u, &[i]); } $log.tree(&v, &[]); <$U>::mk(v.k()) }); $log.made(&r, &[]); }
        $log.open($l, stringify!($fold_path));
        { let mut $t = $prep; let r = $t.$fold_path(|k: $K<$U>, p: &[usize], v| { for (i, u) in k.slots() { $log.made(&u, &[i]); } $log.tree(&v, p); <$U>::mk(v.k()) }); $log.made(&r, &[]); }
        for mask in $masks {
            $log.open($l, stringify!($prune));
            { let mut n = 0; let mut $t = $prep; let r = $t.$prune(|v| { n += 1; $log.tree(v, &[]); mask.rotate_right(n - 1) & 1 == 1 }); if let Some(r) = r { r.each(&mut vec![], &mut |x, p| $log.tree(x, p)); } }
            $log.open($l, stringify!($prune_path));
            { let mut n = 0; let mut $t = $prep; let r = $t.$prune_path(|p: &[usize], v| { n += 1; $log.tree(v, p); mask.rotate_right(n - 1) & 1 == 1 }); if let Some(r) = r { r.each(&mut vec![], &mut |x, p| $log.tree(x, p)); } }
            $log.open($l, concat!(stringify!($pipe), " of map_path, prune, prune_path, prune_depth and map_tree"));
            {
                let (mut n, mut k) = (0, 0);
                let log = std::cell::RefCell::new(&mut *$log);
                let mut $t = $prep;
                let r = $t.$pipe()
                    .map_path(|p, v| { log.borrow_mut().tree(&v, p); (<$U>::mk(v.k()), v) })
                    .prune(|v| { n += 1; log.borrow_mut().made(&v.0, &[]); mask.rotate_right(n - 1) & 1 == 1 })
                    .prune_path(|p, v| { k += 1; log.borrow_mut().made(&v.0, p); mask.rotate_right(k + 2) & 1 == 1 })
                    .prune_depth(2)
                    .map_tree(|v| { log.borrow_mut().tree(&v.1, &[]); v.0 })
                    .collect_tree();
                if let Some(r) = r { r.each(&mut vec![], &mut |x, p| log.borrow_mut().made(x, p)); }
            }
        }
        for d in 0..4 {
            $log.open($l, stringify!($depth));
            let mut $t = $prep;
            $t.$depth(d).each(&mut vec![], &mut |x, p| $log.tree(x, p));
        }
    }};
}
macro_rules! each_ops {
    ($l:literal, $K:ident, $U:ty, ($t:ident = $prep:expr) => $c:expr, $log:ident, $masks:expr,
     $map:ident, $map_path:ident, $fold:ident, $fold_path:ident, $prune:ident, $prune_path:ident, ($($depth:tt)*), $pipe:ident) => {{
        #![allow(unused_mut)]
        $log.open($l, stringify!($map));
        { let log = std::cell::RefCell::new(&mut *$log); let mut $t = $prep; for r in $c.$map(|v| { log.borrow_mut().tree(&v, &[]); <$U>::mk(v.k()) }) { r.each(&mut vec![], &mut |x, p| log.borrow_mut().made(x, p)); } }
        $log.open($l, stringify!($map_path));
        { let log = std::cell::RefCell::new(&mut *$log); let mut $t = $prep; for r in $c.$map_path(|p: &[usize], v| { log.borrow_mut().tree(&v, p); <$U>::mk(v.k()) }) { r.each(&mut vec![], &mut |x, p| log.borrow_mut().made(x, p)); } }
        $log.open($l, stringify!($fold));
        { let log = std::cell::RefCell::new(&mut *$log); let mut $t = $prep; for r in $c.$fold(|k: $K<$U>, v| { for (i, u) in k.slots() { log.borrow_mut().made(&u, &[i]); } log.borrow_mut().tree(&v, &[]); <$U>::mk(v.k()) }) { log.borrow_mut().made(&r, &[]); } }
        $log.open($l, stringify!($fold_path));
        { let log = std::cell::RefCell::new(&mut *$log); let mut $t = $prep; for r in $c.$fold_path(|k: $K<$U>, p: &[usize], v| { for (i, u) in k.slots() { log.borrow_mut().made(&u, &[i]); } log.borrow_mut().tree(&v, p); <$U>::mk(v.k()) }) { log.borrow_mut().made(&r, &[]); } }
        for mask in $masks {
            $log.open($l, stringify!($prune));
            { let log = std::cell::RefCell::new(&mut *$log); let mut n = 0; let mut $t = $prep; for r in $c.$prune(|v| { n += 1; log.borrow_mut().tree(v, &[]); mask.rotate_right(n - 1) & 1 == 1 }) { r.each(&mut vec![], &mut |x, p| log.borrow_mut().tree(x, p)); } }
            $log.open($l, stringify!($prune_path));
            { let log = std::cell::RefCell::new(&mut *$log); let mut n = 0; let mut $t = $prep; for r in $c.$prune_path(|p: &[usize], v| { n += 1; log.borrow_mut().tree(v, p); mask.rotate_right(n - 1) & 1 == 1 }) { r.each(&mut vec![], &mut |x, p| log.borrow_mut().tree(x, p)); } }
            $log.open($l, concat!(stringify!($pipe), " of map_path, prune, prune_path, prune_depth and map_trees"));
            {
                let (mut n, mut k) = (0, 0);
                let log = std::cell::RefCell::new(&mut *$log);
                let mut $t = $prep;
                for r in $c.$pipe()
                    .map_path(|p, v| { log.borrow_mut().tree(&v, p); (<$U>::mk(v.k()), v) })
                    .prune(|v| { n += 1; log.borrow_mut().made(&v.0, &[]); mask.rotate_right(n - 1) & 1 == 1 })
                    .prune_path(|p, v| { k += 1; log.borrow_mut().made(&v.0, p); mask.rotate_right(k + 2) & 1 == 1 })
                    .prune_depth(2)
                    .map_trees(|v| { log.borrow_mut().tree(&v.1, &[]); v.0 })
                    .trees() { r.each(&mut vec![], &mut |x, p| log.borrow_mut().made(x, p)); }
            }
        }
        for d in 0..4 {
            $log.open($l, "prune_depth_each");
            let mut $t = $prep;
            for r in $c.$($depth)*(d) { r.each(&mut vec![], &mut |x, p| $log.tree(x, p)); }
        }
    }};
}
fn masks(m: &M) -> Vec<u32> {
    // over and over for trees with more than 32 nodes
    if m.size() > 12 { vec![0, 1 << 9, 0x9249_2490] } else if m.size() <= 4 { (0..1 << m.size()).collect() } else { vec![0, 0b10, 0b100, 0b1010, 0b11110, 1 << (m.size() - 1)] }
}
macro_rules! observe {
    (nary, $N:ty, $U:ty, $m:ident, $ctx:tt) => {{
        let mut log_ = Log::default();
        let log = &mut log_;
        nary_sources_for!(walks, $N, "", (log, $m, $ctx));
        ops!("owned", Vec, $U, (t = <$N>::make($m)), log, masks($m), map, map_path, fold, fold_path, prune, prune_path, prune_depth, into_pipeline);
        ops!("mut", Vec, $U, (t = <$N>::make($m)), log, masks($m), map_mut, map_path_mut, fold_mut, fold_path_mut, prune_mut, prune_path_mut, prune_depth_mut, into_pipeline_mut);
        ops!("ref", Vec, $U, (t = <$N>::make($m)), log, masks($m), map_ref, map_path_ref, fold_ref, fold_path_ref, prune_ref, prune_path_ref, prune_depth_ref, into_pipeline_ref);
        let f = || vec![<$N>::make($m), <$N>::make(&M::leaf(1)), <$N>::make($m)];
        each_walks!("each", (v = f()) => [v.bfs_each(), v.dfs_preorder_each(), v.dfs_postorder_each(), (&mut v).bfs_each_iter_mut(), (&mut v).dfs_preorder_each_iter_mut(), (&v).bfs_each_iter(), (&v).dfs_preorder_each_iter()], log, all);
        each_walks!("each", (v = f()) => [(&mut v).dfs_postorder_each_iter_mut(), (&v).dfs_postorder_each_iter()], log, none);
        each_ops!("owned", Vec, $U, (v = f()) => v, log, masks($m), map_each, map_path_each, fold_each, fold_path_each, prune_each, prune_path_each, (prune_depth_each::<()>), into_pipeline);
        each_ops!("mut", Vec, $U, (v = f()) => (&mut v), log, masks($m), map_each_mut, map_path_each_mut, fold_each_mut, fold_path_each_mut, prune_each_mut, prune_path_each_mut, (prune_depth_each_mut), into_pipeline_mut);
        each_ops!("ref", Vec, $U, (v = f()) => (&v), log, masks($m), map_each_ref, map_path_each_ref, fold_each_ref, fold_path_each_ref, prune_each_ref, prune_path_each_ref, (prune_depth_each_ref), into_pipeline_ref);
        log_
    }};
    (bin, $N:ty, $U:ty, $m:ident, $ctx:tt) => {{
        let mut log_ = Log::default();
        let log = &mut log_;
        bin_sources_for!(walks, $N, "", (log, $m, $ctx));
        ops!("owned", Two, $U, (t = <$N>::make($m)), log, masks($m), map, map_path, fold, fold_path, prune, prune_path, prune_depth, into_pipeline);
        ops!("mut", Two, $U, (t = <$N>::make($m)), log, masks($m), map_mut, map_path_mut, fold_mut, fold_path_mut, prune_mut, prune_path_mut, prune_depth_mut, into_pipeline_mut);
        ops!("ref", Two, $U, (t = <$N>::make($m)), log, masks($m), map_ref, map_path_ref, fold_ref, fold_path_ref, prune_ref, prune_path_ref, prune_depth_ref, into_pipeline_ref);
        let f = || vec![<$N>::make($m), <$N>::make(&M { binary: true, ..M::leaf(1) }), <$N>::make($m)];
        each_walks!("each", (v = f()) => [v.bfs_each(), v.dfs_preorder_each(), v.dfs_inorder_each(), v.dfs_postorder_each(), (&mut v).bfs_each_iter_mut(), (&mut v).dfs_preorder_each_iter_mut(), (&mut v).dfs_inorder_each_iter_mut(), (&mut v).dfs_postorder_each_iter_mut(), (&v).bfs_each_iter(), (&v).dfs_preorder_each_iter(), (&v).dfs_inorder_each_iter(), (&v).dfs_postorder_each_iter()], log, all);
        each_ops!("owned", Two, $U, (v = f()) => v, log, masks($m), map_each, map_path_each, fold_each, fold_path_each, prune_each, prune_path_each, (prune_depth_each), into_pipeline);
        each_ops!("mut", Two, $U, (v = f()) => (&mut v), log, masks($m), map_each_mut, map_path_each_mut, fold_each_mut, fold_path_each_mut, prune_each_mut, prune_path_each_mut, (prune_depth_each_mut), into_pipeline_mut);
        each_ops!("ref", Two, $U, (v = f()) => (&v), log, masks($m), map_each_ref, map_path_each_ref, fold_each_ref, fold_path_each_ref, prune_each_ref, prune_path_each_ref, (prune_depth_each_ref), into_pipeline_ref);
        log_
    }};
}
type Two<U> = [Option<U>; 2];

fn nary<T: Val, U: Val>(m: &M) -> Log {
    observe!(nary, Tree<T>, U, m, all)
}
fn bin<T: Val, U: Val>(m: &M) -> Log {
    observe!(bin, BinaryTree<T>, U, m, all)
}
macro_rules! coll_fns {
    ($($f:ident, $G:ty, $ctx:tt;)*) => { $(fn $f(m: &M) -> Log { observe!(nary, $G, u32, m, $ctx) })* };
}
coll_fns!(deque, Deque, all; bmap, BMap, all; boxed, Boxed, no_post; dynamic, Dyn, no_post; slots, Slots, no_post;);

type Kind = (&'static str, fn(&M) -> Log, fn(u32) -> u32, fn(u32) -> u32);
fn compare(c: &mut Ctx, kinds: &[Kind], m: &M) {
    let reference = (kinds[0].1)(m);
    for (name, f, of, made) in kinds {
        c.case(&|| format!("everything on {name} of the shape {m}"), &mut |st| {
            ZEROS.set(0);
            let got = f(m);
            for (g, w) in got.rows.iter().zip(&reference.rows) {
                st.steps(g.2.len());
                st.sees(g.2.iter().map(|r| r.0));
                let post_ctx = g.1 == "context" && g.2.is_empty();
                let want: Vec<_> = w.2.iter().map(|(k, b, p)| (if *b { made(of(*k)) } else { of(*k) }, *b, p.clone())).collect();
                if (g.0, g.1) != (w.0, w.1) || g.2 != want && !post_ctx {
                    let i = g.2.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(g.2.len().min(want.len()));
                    return Err(format!("{} {}: observation {i} is {:?}, with {} it is {:?}", g.0, g.1, g.2.get(i), kinds[0].0, want.get(i)));
                }
            }
            if got.rows.len() != reference.rows.len() {
                return Err(format!("{} operations instead of {}", got.rows.len(), reference.rows.len()));
            }
            if ZEROS.get() != 0 {
                return Err(format!("{} values without size were not dropped exactly once", ZEROS.get()));
            }
            Ok(())
        });
    }
}
macro_rules! kinds {
    ($f:ident, $nm:literal, [$($T:ty),*], [$($A:ty => $B:ty),*]) => { vec![
        (concat!($nm, "<u32>"), $f::<u32, u32> as fn(&M) -> Log, u32::of as fn(u32) -> u32, u32::of as fn(u32) -> u32),
        $((concat!($nm, "<", stringify!($T), ">"), $f::<$T, u32>, <$T>::of, u32::of),)*
        $((concat!($nm, "<", stringify!($A), "> to ", stringify!($B)), $f::<$A, $B>, <$A>::of, <$B>::of),)*
    ] };
}
pub fn run(c: &mut Ctx) {
    let mut k: Vec<Kind> = kinds!(nary, "Tree", [(), ZeroDrop, bool, char, u128, Option<bool>, String, Option<Box<u32>>, Rc<u32>, Big, Tree<u32>, f64], [u32 => (), u32 => ZeroDrop, u32 => String, Box<u32> => Big, Unit => Unit, u8 => u8, Vec<u32> => Vec<u32>, std::num::NonZeroU8 => Option<Box<u32>>]);
    k.extend([
        ("a node over a VecDeque, values made on the fly", deque as fn(&M) -> Log, u32::of as fn(u32) -> u32, u32::of as fn(u32) -> u32),
        ("a node over the values of a BTreeMap", bmap, u32::of, u32::of),
        ("a node over a Vec of boxes", boxed, u32::of, u32::of),
        ("a node over boxed dyn iterators", dynamic, u32::of, u32::of),
        ("a node over an array of optional boxes", slots, u32::of, u32::of),
    ]);
    let n = c.pick(8, 9, 3);
    c.bound(format!("every traversal (leaves and ancestors after every number of steps), transform, pipeline and collection API on every n-ary shape with <= {n} nodes (<= 5 children) x {} types of values, results and children collections", k.len()));
    for s in 1..=n {
        for m in nary_shapes(s).iter().filter(|m| max_kids(m) <= 5) {
            if c.mine() {
                compare(c, &k, m);
            }
        }
    }
    let sizes = c.pick(vec![17, 40, 70], vec![12, 17, 33, 40, 66, 70, 130, 258], vec![]);
    c.bound(format!("the same on 15 families of larger trees of the sizes {sizes:?} (some children collections only up to 5 children)"));
    let wide: Vec<Kind> = k.iter().filter(|k| !k.0.contains("array")).copied().collect();
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            compare(c, if max_kids(m) <= 5 { &k } else { &wide }, m);
        }
    }
    let k: Vec<Kind> = kinds!(bin, "BinaryTree", [(), ZeroDrop, bool, char, u128, Option<bool>, String, Option<Box<u32>>, Rc<u32>, Big, Tree<u32>, f64], [u32 => (), u32 => ZeroDrop, u32 => String, Box<u32> => Big, Unit => Unit, u8 => u8, Vec<u32> => Vec<u32>, std::num::NonZeroU8 => Option<Box<u32>>]);
    let n = c.pick(7, 8, 3);
    c.bound(format!("the same on every binary shape with <= {n} nodes x {} types of values and results", k.len()));
    for s in 1..=n {
        for m in &binary_shapes(s) {
            if c.mine() {
                compare(c, &k, m);
            }
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            compare(c, &k, m);
        }
    }
}
fn max_kids(m: &M) -> usize {
    m.kids.iter().map(max_kids).max().unwrap_or(0).max(m.kids.len())
}

#[allow(dead_code)]
fn main() {
    main_for("C23", &[], run);
}
