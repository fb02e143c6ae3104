//! Small exhaustive histories for an interpreter that detects undefined behaviour (Miri). Values are
//! heap allocated, everything handed out is read and, where allowed, written, and references are kept
//! for as long as their lifetimes allow. The oracle is the interpreter; results are only compared
//! where that is free.
//!
//! usage: mcmiri SHARD NSHARDS BOUND   runs every case whose number is SHARD modulo NSHARDS
//!        mcmiri --case N BOUND        runs case N alone and prints its name
#![allow(unused_mut, unused_variables)]
use std::collections::LinkedList;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Bfs,
    Pre,
    In,
    Post,
}
#[path = "../../harness/src/sources.rs"]
mod sources;

pub type B = Box<u32>;

/// an explicit tree; binary: kids has two slots
#[derive(Clone)]
struct M {
    id: u32,
    kids: Vec<Option<M>>,
}
impl M {
    fn size(&self) -> usize {
        1 + self.kids.iter().flatten().map(|k| k.size()).sum::<usize>()
    }
    fn height(&self) -> usize {
        self.kids.iter().flatten().map(|k| k.height() + 1).max().unwrap_or(0)
    }
    fn show(&self, binary: bool) -> String {
        let k: Vec<String> = self.kids.iter().map(|k| k.as_ref().map_or("-".into(), |k| k.show(binary))).collect();
        if self.kids.iter().all(|k| k.is_none()) {
            format!("{}", self.id)
        } else if binary {
            format!("{}[{}]", self.id, k.join(","))
        } else {
            format!("{}({})", self.id, k.join(" "))
        }
    }
    fn number(&mut self, n: &mut u32) {
        self.id = *n;
        *n += 1;
        self.kids.iter_mut().flatten().for_each(|k| k.number(n));
    }
}
fn forests(n: usize) -> Vec<Vec<M>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        for kids in forests(first - 1) {
            for rest in forests(n - first) {
                let mut f = vec![M { id: 0, kids: kids.iter().cloned().map(Some).collect() }];
                f.extend(rest);
                out.push(f);
            }
        }
    }
    out
}
fn nary(n: usize) -> Vec<M> {
    numbered(forests(n - 1).into_iter().map(|f| M { id: 0, kids: f.into_iter().map(Some).collect() }).collect())
}
fn bin_opt(n: usize) -> Vec<Option<M>> {
    if n == 0 {
        return vec![None];
    }
    let mut out = vec![];
    for l in 0..n {
        for a in bin_opt(l) {
            for b in bin_opt(n - 1 - l) {
                out.push(Some(M { id: 0, kids: vec![a.clone(), b] }));
            }
        }
    }
    out
}
fn binary(n: usize) -> Vec<M> {
    numbered(bin_opt(n).into_iter().flatten().collect())
}
fn numbered(mut v: Vec<M>) -> Vec<M> {
    v.iter_mut().for_each(|m| m.number(&mut 0));
    v
}

// ---- nodes -------------------------------------------------------------------------------------
pub struct LNode {
    value: B,
    children: LinkedList<LNode>,
}
impl OwnedTreeNode for LNode {
    type OwnedValue = B;
    type OwnedChildren = LinkedList<LNode>;
    fn get_value_and_children(self) -> (B, Self::OwnedChildren) {
        (self.value, self.children)
    }
}
impl<'a> MutBorrowedTreeNode<'a> for LNode {
    type MutBorrowedValue = &'a mut B;
    type MutBorrowedChildren = &'a mut LinkedList<LNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut B, Self::MutBorrowedChildren) {
        (&mut self.value, &mut self.children)
    }
}
impl<'a> BorrowedTreeNode<'a> for LNode {
    type BorrowedValue = &'a B;
    type BorrowedChildren = &'a LinkedList<LNode>;
    fn get_value_and_children_iter(&'a self) -> (&'a B, Self::BorrowedChildren) {
        (&self.value, &self.children)
    }
}
/// children handed out as an iterator
pub struct INode {
    value: B,
    children: Vec<INode>,
}
impl OwnedTreeNode for INode {
    type OwnedValue = B;
    type OwnedChildren = std::vec::IntoIter<INode>;
    fn get_value_and_children(self) -> (B, Self::OwnedChildren) {
        (self.value, self.children.into_iter())
    }
}
impl<'a> MutBorrowedTreeNode<'a> for INode {
    type MutBorrowedValue = &'a mut B;
    type MutBorrowedChildren = std::slice::IterMut<'a, INode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut B, Self::MutBorrowedChildren) {
        (&mut self.value, self.children.iter_mut())
    }
}
impl<'a> BorrowedTreeNode<'a> for INode {
    type BorrowedValue = &'a B;
    type BorrowedChildren = std::slice::Iter<'a, INode>;
    fn get_value_and_children_iter(&'a self) -> (&'a B, Self::BorrowedChildren) {
        (&self.value, self.children.iter())
    }
}
trait Build {
    fn build(m: &M) -> Self;
    /// read the whole subtree
    fn sum(&self) -> u32;
    /// write the whole subtree
    fn bump(&mut self);
}
macro_rules! nary_build {
    ($N:ident) => {
        impl Build for nary_build!(@ $N) {
            fn build(m: &M) -> Self {
                $N { value: Box::new(m.id), children: m.kids.iter().flatten().map(Self::build).collect() }
            }
            fn sum(&self) -> u32 {
                *self.value + self.children.iter().map(|k| k.sum()).sum::<u32>()
            }
            fn bump(&mut self) {
                *self.value += 1;
                self.children.iter_mut().for_each(|k| k.bump());
            }
        }
    };
    (@ Tree) => { Tree<B> };
    (@ $N:ident) => { $N };
}
nary_build!(Tree);
nary_build!(LNode);
nary_build!(INode);
impl Build for BinaryTree<B> {
    fn build(m: &M) -> Self {
        let k = |i: usize| m.kids[i].as_ref().map(|k| Box::new(Self::build(k)));
        BinaryTree { value: Box::new(m.id), left: k(0), right: k(1) }
    }
    fn sum(&self) -> u32 {
        *self.value + [&self.left, &self.right].into_iter().flatten().map(|k| k.sum()).sum::<u32>()
    }
    fn bump(&mut self) {
        *self.value += 1;
        [&mut self.left, &mut self.right].into_iter().flatten().for_each(|k| k.bump());
    }
}

/// values, by value or by reference
trait Val {
    fn get(&self) -> u32;
    fn put(&mut self) {}
}
impl Val for B {
    fn get(&self) -> u32 {
        **self
    }
    fn put(&mut self) {
        **self += 1;
    }
}
impl Val for &B {
    fn get(&self) -> u32 {
        ***self
    }
}
impl Val for &mut B {
    fn get(&self) -> u32 {
        ***self
    }
    fn put(&mut self) {
        ***self += 1;
    }
}
/// children collections handed out by contexts
trait Kids {
    fn read(&self) -> u32;
    fn write(&mut self) {}
    fn take_first(&mut self) {}
    fn take_last(&mut self) {}
    fn add(&mut self) {}
    /// remove all children of the last child
    fn trim(&mut self) {}
}
macro_rules! seq_kids {
    ($N:ty, $T:ty, $r:ty, $m:ty, |$v:ident| $first:expr, $last:expr, $push:expr) => {
        impl Kids for $T { seq_kids!(@rw); seq_kids!(@ed $v, $first, $last, $push); }
        impl Kids for $m { seq_kids!(@rw); seq_kids!(@ed $v, $first, $last, $push); }
        impl Kids for $r { fn read(&self) -> u32 { self.iter().map(|k| k.sum()).sum() } }
    };
    (@rw) => {
        fn read(&self) -> u32 { self.iter().map(|k| k.sum()).sum() }
        fn write(&mut self) { self.iter_mut().for_each(|k| k.bump()) }
    };
    (@ed $v:ident, $first:expr, $last:expr, $push:expr) => {
        fn take_first(&mut self) { let $v = self; $first }
        fn take_last(&mut self) { let $v = self; $last }
        fn add(&mut self) { let $v = self; $push }
        fn trim(&mut self) { if let Some(k) = self.iter_mut().last() { k.children.clear() } }
    };
}
seq_kids!(Tree<B>, Vec<Tree<B>>, &Vec<Tree<B>>, &mut Vec<Tree<B>>, |v| if !v.is_empty() { drop(v.remove(0)) }, drop(v.pop()),
    v.push(Tree { value: Box::new(100), children: vec![Tree { value: Box::new(101), children: vec![] }] }));
seq_kids!(LNode, LinkedList<LNode>, &LinkedList<LNode>, &mut LinkedList<LNode>, |v| drop(v.pop_front()), drop(v.pop_back()),
    v.push_back(LNode { value: Box::new(100), children: LinkedList::new() }));
impl Kids for std::vec::IntoIter<INode> {
    fn read(&self) -> u32 { self.as_slice().iter().map(|k| k.sum()).sum() }
    fn write(&mut self) { self.as_mut_slice().iter_mut().for_each(|k| k.bump()) }
    fn take_first(&mut self) { drop(self.next()) }
    fn take_last(&mut self) { drop(self.next_back()) }
    fn trim(&mut self) { if let Some(k) = self.as_mut_slice().last_mut() { k.children.clear() } }
}
impl Kids for std::slice::Iter<'_, INode> {
    fn read(&self) -> u32 { self.as_slice().iter().map(|k| k.sum()).sum() }
    fn take_first(&mut self) { self.next(); }
    fn take_last(&mut self) { self.next_back(); }
}
impl Kids for std::slice::IterMut<'_, INode> {
    fn read(&self) -> u32 { self.as_slice().iter().map(|k| k.sum()).sum() }
    fn take_first(&mut self) { self.next(); }
    fn take_last(&mut self) { self.next_back(); }
}
impl Kids for [Option<BinaryTree<B>>; 2] {
    fn read(&self) -> u32 { self.iter().flatten().map(|k| k.sum()).sum() }
    fn write(&mut self) { self.iter_mut().flatten().for_each(|k| k.bump()) }
    fn take_first(&mut self) { self[0] = None }
    fn take_last(&mut self) { self[1] = None }
    fn add(&mut self) {
        for k in self.iter_mut() {
            if k.is_none() { *k = Some(BinaryTree { value: Box::new(100), left: None, right: Some(Box::new(BinaryTree { value: Box::new(101), left: None, right: None })) }) }
        }
    }
    fn trim(&mut self) { for k in self.iter_mut().flatten() { k.left = None; k.right = None; } }
}
impl Kids for [Option<&BinaryTree<B>>; 2] {
    fn read(&self) -> u32 { self.iter().flatten().map(|k| k.sum()).sum() }
    fn take_first(&mut self) { self[0] = None }
    fn take_last(&mut self) { self[1] = None }
}
impl Kids for [Option<&mut BinaryTree<B>>; 2] {
    fn read(&self) -> u32 { self.iter().flatten().map(|k| k.sum()).sum() }
    fn write(&mut self) { self.iter_mut().flatten().for_each(|k| k.bump()) }
    fn take_first(&mut self) { self[0] = None }
    fn take_last(&mut self) { self[1] = None }
    fn trim(&mut self) { for k in self.iter_mut().flatten() { k.left = None; k.right = None; } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ed {
    Look,
    First,
    Last,
    Add,
    Trim,
}
const EDS: [Ed; 4] = [Ed::First, Ed::Last, Ed::Add, Ed::Trim];
fn edit<K: Kids>(k: &mut K, e: Ed) {
    match e {
        Ed::Look => k.write(),
        Ed::First => k.take_first(),
        Ed::Last => k.take_last(),
        Ed::Add => k.add(),
        Ed::Trim => k.trim(),
    }
}

// ---- enumeration -------------------------------------------------------------------------------
struct Run {
    shard: usize,
    nshards: usize,
    only: Option<usize>,
    list: bool,
    no: usize,
    done: usize,
    steps: usize,
    seen: u32,
    panics: usize,
    bound: usize,
    /// leave out, at the largest size, what differs least from what is explored anyway
    lean: bool,
}
impl Run {
    fn case(&mut self, name: &dyn Fn() -> String, f: &mut dyn FnMut(&mut Run)) {
        self.no += 1;
        match self.only {
            Some(n) if n != self.no => return,
            None if self.no % self.nshards != self.shard => return,
            _ => {}
        }
        if self.list {
            println!("CASE {} {}", self.no, name());
            return;
        }
        if self.only.is_some() {
            println!("CASE {} {}", self.no, name());
        } else {
            println!("@{}", self.no);
        }
        let _ = std::io::stdout().flush();
        self.done += 1;
        // a panic is not undefined behaviour; other checks decide results
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            self.panics += 1;
        }
    }
    fn step(&mut self, v: u32) {
        self.steps += 1;
        self.seen = self.seen.wrapping_mul(31).wrapping_add(v);
    }
}

/// plain iteration: abandoned after k, everything yielded is kept to the end and used again; then the
/// rest as leaves; driven by nth() and fold()
macro_rules! plain {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident) => {
        for k in 0..=$m.size() {
            $r.case(&|| format!("{} keeping {k} elements, then leaves(), on {}", $label, $s), &mut |r| {
                let mut $t = <$N>::build($m);
                {
                    let mut it = $it;
                    let mut kept: Vec<_> = it.by_ref().take(k).collect();
                    let mut rest: Vec<_> = it.leaves().collect();
                    for v in kept.iter_mut().chain(rest.iter_mut()) {
                        v.put();
                        r.step(v.get());
                    }
                }
                plain!(@again $own, $t, r);
            });
        }
        $r.case(&|| format!("{} collected, on {}", $label, $s), &mut |r| {
            let mut $t = <$N>::build($m);
            {
                let mut all: Vec<_> = $it.collect();
                for v in all.iter_mut() {
                    v.put();
                    r.step(v.get());
                }
            }
            plain!(@again $own, $t, r);
        });
    };
    (@again owned, $t:ident, $r:ident) => {};
    (@again $o:ident, $t:ident, $r:ident) => { $r.step($t.sum()); };
}
macro_rules! context {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident) => {
        context!(@$own $label, $order, $N, ($t) => $it, $r, $m, $s);
        for k in 0..=$m.size() {
            $r.case(&|| format!("{}.attach_ancestors() for {k}, then leaves(), on {}", $label, $s), &mut |r| {
                let mut $t = <$N>::build($m);
                {
                    let mut it = $it.attach_ancestors();
                    for _ in 0..k {
                        if let Some(a) = context!(@next $own it) {
                            context!(@touch $own a);
                            for v in a.iter() {
                                r.step(v.get());
                            }
                        }
                    }
                    let mut it = it.leaves();
                    while let Some(a) = context!(@next $own it) {
                        context!(@touch $own a);
                        for v in a.iter() {
                            r.step(v.get());
                        }
                    }
                }
                plain!(@again $own, $t, r);
            });
        }
    };
    (@next refs $it:ident) => { $it.next() };
    (@next $o:ident $it:ident) => { $it.next_mut() };
    (@touch refs $a:ident) => {};
    (@touch $o:ident $a:ident) => { $a.iter_mut().for_each(|v| v.put()); };
    (@refs $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident) => {
        for k in 1..=$m.size() {
            $r.case(&|| format!("{}.attach_context() for {k} on {}", $label, $s), &mut |r| {
                let mut $t = <$N>::build($m);
                let mut kept = vec![];
                {
                    let mut it = $it.attach_context();
                    for _ in 0..=k {
                        if let Some(c) = it.next() {
                            for v in c.ancestors() {
                                r.step(v.get());
                                kept.push(*v);
                            }
                            r.step(c.children().read());
                        }
                    }
                }
                for v in kept {
                    r.step(v.get());
                }
            });
        }
    };
    (@owned $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident) => {
        if matches!($order, Order::Bfs | Order::Pre) {
            context!(@mutable owned, $label, $order, $N, ($t) => $it, $r, $m, $s, owned_edit);
        } else {
            context!(@mutable owned, $label, $order, $N, ($t) => $it, $r, $m, $s, no_edit);
        }
    };
    (@muts $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident) => {
        context!(@mutable muts, $label, $order, $N, ($t) => $it, $r, $m, $s, owned_edit);
    };
    (@mutable $own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $r:ident, $m:ident, $s:ident, $ed:ident) => {
        let n = $m.size();
        // run to the end with one edit at step `at`; and abandon right after the edit
        for at in 0..n {
            for e in std::iter::once(Ed::Look).chain(EDS) {
                if (e == Ed::Look || stringify!($ed) == "no_edit") && !(e == Ed::Look && at == 0) { continue; }
                for full in [true, false] {
                    if $r.lean && n == $r.bound && !(full && matches!(e, Ed::Look | Ed::Trim)) { continue; }
                    $r.case(&|| format!("{}.attach_context(), {e:?} at step {at}, {}, on {}", $label, if full { "to the end" } else { "abandoned" }, $s), &mut |r| {
                        let mut $t = <$N>::build($m);
                        {
                            let mut it = $it.attach_context();
                            let mut i = 0;
                            while let Some(c) = it.next_mut() {
                                for v in c.ancestors_mut() {
                                    v.put();
                                    r.step(v.get());
                                }
                                context!(@kids $ed, c, r, i, at, e);
                                for v in c.ancestors_mut() {
                                    v.put();
                                    r.step(v.get());
                                }
                                if !full && i == at { break; }
                                i += 1;
                                if i > 40 { break; }
                            }
                        }
                        plain!(@again $own, $t, r);
                    });
                }
            }
        }
    };
    (@kids no_edit, $c:ident, $r:ident, $i:ident, $at:ident, $e:ident) => {};
    (@kids owned_edit, $c:ident, $r:ident, $i:ident, $at:ident, $e:ident) => {
        $r.step($c.children().kids_read());
        $c.children_mut().kids_edit(if $i == $at { $e } else { Ed::Look });
        $r.step($c.children().kids_read());
    };
}
/// lets the macros name the methods for children types that have none
trait KidsX {
    fn kids_read(&self) -> u32;
    fn kids_edit(&mut self, e: Ed);
}
impl<K: Kids> KidsX for K {
    fn kids_read(&self) -> u32 {
        self.read()
    }
    fn kids_edit(&mut self, e: Ed) {
        edit(self, e)
    }
}
impl Kids for () {
    fn read(&self) -> u32 {
        0
    }
}

macro_rules! transforms {
    ($N:ty, $nm:literal, $r:ident, $m:ident, $s:ident, $K:ty) => {
        let n = $m.size();
        transforms!(@ $N, $nm, $r, $m, $s, "map", r, t, { r.step(t.map(|v| v).sum()) });
        transforms!(@ $N, $nm, $r, $m, $s, "map_path", r, t, { r.step(t.map_path(|p, v| Box::new(p.iter().sum::<usize>() as u32 + *v)).sum()) });
        transforms!(@ $N, $nm, $r, $m, $s, "map_mut", r, t, { let x = t.map_mut(|v| v); for v in x.dfs_preorder() { **v += 1; r.step(**v) }; r.step(t.sum()) });
        transforms!(@ $N, $nm, $r, $m, $s, "map_path_mut", r, t, { let x = t.map_path_mut(|p, v| { **v += p.len() as u32; v }); for v in x.dfs_preorder() { **v += 1; r.step(**v) }; r.step(t.sum()) });
        transforms!(@ $N, $nm, $r, $m, $s, "map_path_ref", r, t, { let x = t.map_path_ref(|p, v| (p.len(), v)); for v in x.bfs_iter() { r.step(**v.1) }; r.step(t.sum()) });
        transforms!(@ $N, $nm, $r, $m, $s, "fold", r, t, { let x = t.fold(|k: $K, v| { Box::new(*v + k.into_iter().map(Val0::val).sum::<u32>()) }); r.step(*x) });
        transforms!(@ $N, $nm, $r, $m, $s, "fold_path_mut", r, t, { let x = t.fold_path_mut(|k: $K, p, v| { **v += p.len() as u32; Box::new(**v + k.into_iter().map(Val0::val).sum::<u32>()) }); r.step(*x); r.step(t.sum()) });
        for cut in 0..n as u32 {
            transforms!(@ $N, $nm, $r, $m, $s, format!("prune{{{cut}}}"), r, t, { if let Some(x) = t.prune(|v| **v == cut) { r.step(x.sum()) } });
            transforms!(@ $N, $nm, $r, $m, $s, format!("prune_path_mut{{{cut}}}"), r, t, { if let Some(x) = t.prune_path_mut(|p, v| ***v == cut) { for v in x.dfs_preorder() { **v += 1; r.step(**v) } }; r.step(t.sum()) });
            transforms!(@ $N, $nm, $r, $m, $s, format!("pipeline map_path prune_path{{{cut}}} map_path"), r, t, { if let Some(x) = t.into_pipeline().map_path(|p, v| Box::new(*v + p.len() as u32)).prune_path(|p, v| p.len() as u32 == cut).map_path(|p, v| { let _ = p.len(); v }).collect_tree() { r.step(x.sum()) } });
        }
        for d in 0..=$m.height() {
            transforms!(@ $N, $nm, $r, $m, $s, format!("prune_depth_mut({d})"), r, t, { for v in t.prune_depth_mut(d).bfs() { **v += 1; r.step(**v) }; r.step(t.sum()) });
        }
        transforms!(@ $N, $nm, $r, $m, $s, "at_path_mut", r, t, { if let Some(n) = t.at_path_mut(&[0]) { n.bump(); } if let Some(n) = t.at_path_mut(&[1, 0]) { n.bump(); } r.step(t.sum()) });
    };
    (@ $N:ty, $nm:literal, $r:ident, $m:ident, $s:ident, $name:expr, $rr:ident, $t:ident, $body:block) => {
        $r.case(&|| format!("{}.{} on {}", $nm, $name, $s), &mut |$rr| {
            let mut $t = <$N>::build($m);
            $body
        });
    };
}
trait Val0 {
    fn val(self) -> u32;
}
impl Val0 for B {
    fn val(self) -> u32 {
        *self
    }
}
impl Val0 for Option<B> {
    fn val(self) -> u32 {
        self.map_or(0, |b| *b)
    }
}

macro_rules! coll {
    ($N:ty, $nm:literal, $r:ident, $f:ident, $s:ident, [$($own:ident $meth:ident $via:ident;)*]) => { $(
        for k in 0..=$f.iter().map(|m| m.size()).sum::<usize>() {
            $r.case(&|| format!("Vec<{}>.{}() keeping {k} on {}", $nm, stringify!($meth), $s), &mut |r| {
                let mut c: Vec<$N> = $f.iter().map(<$N>::build).collect();
                let mut kept: Vec<_> = coll!(@$via c).$meth().take(k).collect();
                for v in kept.iter_mut() {
                    v.put();
                    r.step(v.get());
                }
            });
            $r.case(&|| format!("Vec<{}>.{}().attach_context() for {k} on {}", $nm, stringify!($meth), $s), &mut |r| {
                let mut c: Vec<$N> = $f.iter().map(<$N>::build).collect();
                let mut it = coll!(@$via c).$meth().attach_context();
                for _ in 0..=k {
                    if let Some(c) = coll!(@next $own it) {
                        coll!(@use $own c, r);
                    }
                }
            });
        }
    )* };
    (@own $c:ident) => { $c };
    (@mutv $c:ident) => { $c.iter_mut() };
    (@refv $c:ident) => { $c.iter() };
    (@next refs $it:ident) => { $it.next() };
    (@next $o:ident $it:ident) => { $it.next_mut() };
    (@use refs $c:ident, $r:ident) => {
        for v in $c.ancestors() { $r.step(v.get()); }
        $r.step($c.children().read());
    };
    (@use ownx $c:ident, $r:ident) => {
        for v in $c.ancestors_mut() { v.put(); $r.step(v.get()); }
    };
    (@use $o:ident $c:ident, $r:ident) => {
        for v in $c.ancestors_mut() { v.put(); $r.step(v.get()); }
        $c.children_mut().kids_edit(Ed::Look);
        $r.step($c.children().kids_read());
        for v in $c.ancestors_mut() { v.put(); $r.step(v.get()); }
    };
}

fn all_nary(r: &mut Run, m: &M) {
    let s = m.show(false);
    let s = &s;
    nary_sources_for!(plain, Tree<B>, "Tree", (r, m, s));
    nary_sources_for!(context, Tree<B>, "Tree", (r, m, s));
    if !(r.lean && m.size() == r.bound) {
        nary_sources_for!(context, LNode, "LNode", (r, m, s));
    }
    nary_sources_for!(context, INode, "INode", (r, m, s));
    transforms!(Tree<B>, "Tree", r, m, s, Vec<B>);
}
fn all_bin(r: &mut Run, m: &M) {
    let s = m.show(true);
    let s = &s;
    bin_sources_for!(plain, BinaryTree<B>, "BinaryTree", (r, m, s));
    bin_sources_for!(context, BinaryTree<B>, "BinaryTree", (r, m, s));
    transforms!(BinaryTree<B>, "BinaryTree", r, m, s, [Option<B>; 2]);
}
fn all_coll(r: &mut Run, f: &[M], g: &[M]) {
    let s = f.iter().map(|m| m.show(false)).collect::<Vec<_>>().join(" ; ");
    coll!(Tree<B>, "Tree", r, f, s, [owned bfs_each own; owned dfs_preorder_each own; ownx dfs_postorder_each own;
        muts bfs_each_iter_mut mutv; muts dfs_preorder_each_iter_mut mutv; muts dfs_postorder_each_iter_mut mutv;
        refs bfs_each_iter refv; refs dfs_preorder_each_iter refv; refs dfs_postorder_each_iter refv;]);
    let s = g.iter().map(|m| m.show(true)).collect::<Vec<_>>().join(" ; ");
    coll!(BinaryTree<B>, "BinaryTree", r, g, s, [owned bfs_each own; owned dfs_preorder_each own; ownx dfs_postorder_each own; ownx dfs_inorder_each own;
        muts bfs_each_iter_mut mutv; muts dfs_preorder_each_iter_mut mutv; muts dfs_postorder_each_iter_mut mutv; muts dfs_inorder_each_iter_mut mutv;
        refs bfs_each_iter refv; refs dfs_preorder_each_iter refv; refs dfs_postorder_each_iter refv; refs dfs_inorder_each_iter refv;]);
    for take in 0..=f.len() {
        r.case(&|| format!("Vec<Tree> map_path_each, fold_path_each, prune_path_each taking {take} of {}", f.len()), &mut |r| {
            let c = || -> Vec<Tree<B>> { f.iter().map(Tree::build).collect() };
            c().map_path_each(|p: &[usize], v| Box::new(*v + p.len() as u32)).take(take).for_each(|t| r.step(t.sum()));
            c().fold_path_each(|k: Vec<B>, p: &[usize], v| Box::new(*v + p.len() as u32 + k.len() as u32)).take(take).for_each(|t| r.step(*t));
            c().prune_path_each(|p: &[usize], v: &B| p.len() == 2).take(take).for_each(|t| r.step(t.sum()));
            let mut c = c();
            c.iter_mut().map_path_each_mut(|p: &[usize], v| { **v += p.len() as u32; v }).take(take).for_each(|t| t.dfs_preorder().for_each(|v| { **v += 1; r.step(**v) }));
            c.iter().for_each(|t| r.step(t.sum()));
        });
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let only = (a[1] == "--case").then(|| a[2].parse().unwrap());
    let list = a[1] == "--list";
    let (shard, nshards) = if list { (0, 1) } else if only.is_some() { (0, 1) } else { (a[1].parse().unwrap(), a[2].parse().unwrap()) };
    let bound: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run { shard, nshards, only, list, no: 0, done: 0, steps: 0, seen: 0, panics: 0, bound, lean: a.get(4).is_some_and(|x| x == "lean") };
    for n in 1..=bound {
        for m in &nary(n) {
            all_nary(&mut r, m);
        }
        for m in &binary(n) {
            all_bin(&mut r, m);
        }
    }
    for n in 1..bound {
        let f = forests(n);
        for mut f in f {
            let mut next = 0;
            f.iter_mut().for_each(|m| m.number(&mut next));
            let g: Vec<M> = f.iter().map(|m| to_binary(m)).collect();
            all_coll(&mut r, &f, &g);
        }
    }
    println!("DONE cases={} steps={} total={} panics={} outcome={:08x}", r.done, r.steps, r.no, r.panics, r.seen);
}
/// a binary tree of the same size: first child goes right, next sibling left
fn to_binary(m: &M) -> M {
    fn seq(k: &[Option<M>], id: u32) -> Option<M> {
        let (first, rest) = k.split_first()?;
        let f = first.as_ref().unwrap();
        Some(M { id: f.id, kids: vec![seq(rest, 0), seq(&f.kids, 0)] })
    }
    M { id: m.id, kids: vec![None, seq(&m.kids, 0)] }
}
