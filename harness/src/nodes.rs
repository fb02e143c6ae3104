//! Node types under test: the crate's own `Tree` and `BinaryTree`, and user-implemented nodes.
use crate::model::M;
use crate::track::{Obs, V};
use std::collections::LinkedList;
use std::iter::FusedIterator;
use tree_iterators_rs::prelude::*;

/// n-ary node over a `LinkedList`, as in the crate's documentation.
#[derive(Debug)]
pub struct LNode {
    pub value: V,
    pub children: LinkedList<LNode>,
}
impl OwnedTreeNode for LNode {
    type OwnedValue = V;
    type OwnedChildren = LinkedList<LNode>;
    fn get_value_and_children(self) -> (V, Self::OwnedChildren) {
        crate::track::expanded(self.value.id);
        (self.value, self.children)
    }
}
impl<'a> MutBorrowedTreeNode<'a> for LNode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = &'a mut LinkedList<LNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Self::MutBorrowedChildren) {
        crate::track::expanded(self.value.id);
        (&mut self.value, &mut self.children)
    }
}
impl<'a> BorrowedTreeNode<'a> for LNode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = &'a LinkedList<LNode>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Self::BorrowedChildren) {
        crate::track::expanded(self.value.id);
        (&self.value, &self.children)
    }
}

/// n-ary node whose children collection is itself an iterator which gives no size hint.
#[derive(Debug)]
pub struct INode {
    pub value: V,
    pub children: Vec<INode>,
}
#[derive(Debug)]
pub struct Opaque<I>(pub I);
impl<I: Iterator> Iterator for Opaque<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
impl<I: FusedIterator> FusedIterator for Opaque<I> {}
/// whether asking a children iterator for more after its end is an error
pub static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// An iterator that need not be asked again after it has ended: it is not fused.
#[derive(Debug)]
pub struct Strict<I>(pub I, pub bool);
impl<I: Iterator> Iterator for Strict<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        assert!(!self.1 || !STRICT.load(std::sync::atomic::Ordering::Relaxed), "a children iterator was asked for more after it had ended");
        let r = self.0.next();
        self.1 = r.is_none();
        r
    }
}
pub type Kids = Strict<std::vec::IntoIter<INode>>;
impl OwnedTreeNode for INode {
    type OwnedValue = V;
    type OwnedChildren = Kids;
    fn get_value_and_children(self) -> (V, Self::OwnedChildren) {
        crate::track::expanded(self.value.id);
        (self.value, Strict(self.children.into_iter(), false))
    }
}
impl<'a> MutBorrowedTreeNode<'a> for INode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = Opaque<std::slice::IterMut<'a, INode>>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Self::MutBorrowedChildren) {
        crate::track::expanded(self.value.id);
        (&mut self.value, Opaque(self.children.iter_mut()))
    }
}
impl<'a> BorrowedTreeNode<'a> for INode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = Opaque<std::slice::Iter<'a, INode>>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Self::BorrowedChildren) {
        crate::track::expanded(self.value.id);
        (&self.value, Opaque(self.children.iter()))
    }
}

/// user-implemented binary node
#[derive(Debug)]
pub struct CBin {
    pub value: V,
    pub kids: [Option<Box<CBin>>; 2],
}
impl OwnedBinaryTreeNode for CBin {
    type OwnedValue = V;
    fn get_value_and_children_binary(self) -> (V, [Option<Self>; 2]) {
        crate::track::expanded(self.value.id);
        (self.value, self.kids.map(|k| k.map(|b| *b)))
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for CBin {
    type MutBorrowedValue = &'a mut V;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut V, [Option<&'a mut Self>; 2]) {
        let [l, r] = &mut self.kids;
        crate::track::expanded(self.value.id);
        (&mut self.value, [l.as_deref_mut(), r.as_deref_mut()])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for CBin {
    type BorrowedValue = &'a V;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a V, [Option<&'a Self>; 2]) {
        let [l, r] = &self.kids;
        crate::track::expanded(self.value.id);
        (&self.value, [l.as_deref(), r.as_deref()])
    }
}

// ---- building and reading back ------------------------------------------------------------

pub trait Build {
    fn build(m: &M) -> Self;
    fn back(&self) -> M;
    fn nid(&self) -> u32;
}
fn nary<'a, T: Build + 'a>(v: &V, kids: impl Iterator<Item = &'a T>) -> M {
    let kids = kids
        .enumerate()
        .map(|(i, k)| {
            let mut k = k.back();
            k.slot = i;
            k
        })
        .collect();
    M { id: v.id(), touched: v.touched, slot: 0, binary: false, kids }
}
impl Build for Tree<V> {
    fn build(m: &M) -> Self {
        Tree { value: V::new(m.id), children: m.kids.iter().map(|k| Self::build(k)).collect() }
    }
    fn back(&self) -> M {
        nary(&self.value, self.children.iter())
    }
    fn nid(&self) -> u32 {
        self.value.id()
    }
}
impl Build for LNode {
    fn build(m: &M) -> Self {
        LNode { value: V::new(m.id), children: m.kids.iter().map(|k| Self::build(k)).collect() }
    }
    fn back(&self) -> M {
        nary(&self.value, self.children.iter())
    }
    fn nid(&self) -> u32 {
        self.value.id()
    }
}
impl Build for INode {
    fn build(m: &M) -> Self {
        INode { value: V::new(m.id), children: m.kids.iter().map(|k| Self::build(k)).collect() }
    }
    fn back(&self) -> M {
        nary(&self.value, self.children.iter())
    }
    fn nid(&self) -> u32 {
        self.value.id()
    }
}
fn bin<T: Build>(v: &V, kids: [Option<&T>; 2]) -> M {
    let mut out = Vec::new();
    for (i, k) in kids.into_iter().enumerate() {
        if let Some(k) = k {
            let mut k = k.back();
            k.slot = i;
            out.push(k);
        }
    }
    M { id: v.id(), touched: v.touched, slot: 0, binary: true, kids: out }
}
fn side<T: Build>(m: &M, s: usize) -> Option<Box<T>> {
    m.kids.iter().find(|k| k.slot == s).map(|k| Box::new(T::build(k)))
}
impl Build for BinaryTree<V> {
    fn build(m: &M) -> Self {
        BinaryTree { value: V::new(m.id), left: side(m, 0), right: side(m, 1) }
    }
    fn back(&self) -> M {
        bin(&self.value, [self.left.as_deref(), self.right.as_deref()])
    }
    fn nid(&self) -> u32 {
        self.value.id()
    }
}
impl Build for CBin {
    fn build(m: &M) -> Self {
        CBin { value: V::new(m.id), kids: [side(m, 0), side(m, 1)] }
    }
    fn back(&self) -> M {
        bin(&self.value, [self.kids[0].as_deref(), self.kids[1].as_deref()])
    }
    fn nid(&self) -> u32 {
        self.value.id()
    }
}

/// result trees of the transformation APIs, over any observable value
pub trait Res {
    fn model(&self) -> M;
}
impl<T: Obs> Res for Tree<T> {
    fn model(&self) -> M {
        let kids = self
            .children
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let mut k = k.model();
                k.slot = i;
                k
            })
            .collect();
        M { id: self.value.id(), touched: self.value.touched(), slot: 0, binary: false, kids }
    }
}
impl<T: Obs> Res for BinaryTree<T> {
    fn model(&self) -> M {
        let mut kids = Vec::new();
        for (i, k) in [&self.left, &self.right].into_iter().enumerate() {
            if let Some(k) = k {
                let mut k = k.model();
                k.slot = i;
                kids.push(k);
            }
        }
        M { id: self.value.id(), touched: self.value.touched(), slot: 0, binary: true, kids }
    }
}

/// children handed out by `TreeContext::children`
pub trait KidObs {
    /// (slot, id) of every child, or None where the API documents them as unavailable
    fn kids(&self) -> Option<Vec<(usize, u32)>>;
}
macro_rules! kid_list {
    ($($t:ty),*) => { $(impl KidObs for $t {
        fn kids(&self) -> Option<Vec<(usize, u32)>> {
            Some(self.iter().enumerate().map(|(i, k)| (i, k.nid())).collect())
        }
    })* };
}
kid_list!(Vec<Tree<V>>, &Vec<Tree<V>>, &mut Vec<Tree<V>>, LinkedList<LNode>, &LinkedList<LNode>, &mut LinkedList<LNode>);
macro_rules! kid_iter {
    ($($t:ty),*) => { $(impl KidObs for $t {
        fn kids(&self) -> Option<Vec<(usize, u32)>> {
            Some(self.0.as_slice().iter().enumerate().map(|(i, k)| (i, k.nid())).collect())
        }
    })* };
}
kid_iter!(Kids, Opaque<std::slice::Iter<'_, INode>>, Opaque<std::slice::IterMut<'_, INode>>);
fn slots<T>(a: &[Option<T>; 2], f: impl Fn(&T) -> u32) -> Option<Vec<(usize, u32)>> {
    Some(a.iter().enumerate().filter_map(|(i, k)| k.as_ref().map(|k| (i, f(k)))).collect())
}
macro_rules! kid_arr {
    ($($t:ty),*) => { $(impl KidObs for [Option<$t>; 2] {
        fn kids(&self) -> Option<Vec<(usize, u32)>> { slots(self, |k| k.nid()) }
    })* };
}
kid_arr!(BinaryTree<V>, &BinaryTree<V>, &mut BinaryTree<V>, CBin, &CBin, &mut CBin);
impl KidObs for () {
    fn kids(&self) -> Option<Vec<(usize, u32)>> {
        None
    }
}

pub fn build_vec<N: Build>(f: &[M]) -> Vec<N> {
    f.iter().map(|m| N::build(m)).collect()
}
pub fn build_arr<N: Build, const K: usize>(f: &[M]) -> [N; K] {
    let Ok(a) = <[N; K]>::try_from(build_vec::<N>(f)) else { panic!("array length") };
    a
}
/// user-implemented collection whose iterator gives no size hint
pub struct Odd<N>(pub Vec<N>);
impl<N> IntoIterator for Odd<N> {
    type Item = N;
    type IntoIter = Opaque<std::vec::IntoIter<N>>;
    fn into_iter(self) -> Self::IntoIter {
        Opaque(self.0.into_iter())
    }
}
impl<N: OwnedTreeNode> OwnedIntoIteratorOfTrees<N> for Odd<N> {}
impl<N: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<N> for Odd<N> {}
