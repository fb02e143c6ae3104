//! The native half of the memory-safety check (the other half runs under Miri, see /verif/miri):
//! * a monitor for unique references: whatever a mutable context lets the caller keep (a child, the
//!   children collection, a value) must not be handed out again, in any form, while it is kept;
//! * children collections with a destructor are dropped exactly once.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::collections::BTreeSet;

fn under(m: &M, id: u32) -> BTreeSet<u32> {
    m.find(id).unwrap().infos().into_iter().map(|i| i.id).collect()
}
const AGAIN: &str = "a unique reference kept by the caller is handed out again";

/// what the caller keeps
#[derive(Clone, Copy, Debug, PartialEq)]
enum Keep {
    Child(usize),
    All,
    Value,
}

/// take something out of a context; the ids of the nodes the kept reference gives access to
trait Kept<T>: KidObs + Sized {
    fn keep(&mut self, k: Keep, spare: &mut Vec<Self>, out: &mut Vec<Self>) -> Option<Vec<u32>>;
}
macro_rules! kept_bin {
    ($N:ty) => {
        impl<'a, T> Kept<T> for [Option<&'a mut $N>; 2] {
            fn keep(&mut self, k: Keep, _: &mut Vec<Self>, out: &mut Vec<Self>) -> Option<Vec<u32>> {
                let got = match k {
                    Keep::Child(i) => {
                        let mut a = [None, None];
                        a[i] = Some(self.get_mut(i)?.take()?);
                        a
                    }
                    Keep::All => std::mem::replace(self, [None, None]),
                    Keep::Value => return None,
                };
                let ids = got.kids()?.into_iter().map(|k| k.1).collect();
                out.push(got);
                Some(ids)
            }
        }
    };
}
kept_bin!(BinaryTree<V>);
kept_bin!(CBin);
macro_rules! kept_coll {
    ($C:ty) => {
        impl<'a, T> Kept<T> for &'a mut $C {
            fn keep(&mut self, k: Keep, spare: &mut Vec<Self>, out: &mut Vec<Self>) -> Option<Vec<u32>> {
                if k != Keep::All {
                    return None;
                }
                let got = std::mem::replace(self, spare.pop()?);
                let ids = got.kids()?.into_iter().map(|k| k.1).collect();
                out.push(got);
                Some(ids)
            }
        }
    };
}
kept_coll!(Vec<Tree<V>>);
kept_coll!(std::collections::LinkedList<LNode>);
impl<'a, T> Kept<T> for Opaque<std::slice::IterMut<'a, INode>> {
    fn keep(&mut self, k: Keep, _: &mut Vec<Self>, out: &mut Vec<Self>) -> Option<Vec<u32>> {
        let got = match k {
            Keep::Child(0) => Opaque(std::slice::from_mut(self.0.next()?).iter_mut()),
            Keep::All => std::mem::replace(self, Opaque([].iter_mut())),
            _ => return None,
        };
        let ids = got.kids()?.into_iter().map(|k| k.1).collect();
        out.push(got);
        Some(ids)
    }
}

/// Walk a mutable context iterator; at step `at` keep `k`; everything handed out later must be
/// disjoint from it. Only identities are read, and only through the values the tree itself owns.
fn alias<'a, S, C>(it: &mut S, m: &M, at: usize, k: Keep, spare_v: &'a mut V, spare: &mut Vec<C>, st: &mut Stats) -> Result<(), String>
where
    S: StreamingIteratorMut<Item = TreeContext<&'a mut V, C>>,
    C: Kept<&'a mut V>,
{
    let mut kept_kids = vec![];
    let mut spare_v = Some(spare_v);
    let mut kept_value = None;
    let mut owned: BTreeSet<u32> = BTreeSet::new();
    let mut i = 0;
    while let Some(c) = it.next_mut() {
        st.step();
        // first: does what we get now overlap with what we kept?
        let anc: Vec<u32> = c.ancestors().iter().map(|v| v.id()).collect();
        st.sees(anc.iter().copied());
        let kids: Vec<u32> = c.children().kids().unwrap().into_iter().map(|k| k.1).collect();
        let reach: BTreeSet<u32> = kids.iter().flat_map(|k| under(m, *k)).collect();
        if anc.iter().any(|a| owned.contains(a)) || reach.iter().any(|a| owned.contains(a)) {
            return Err(AGAIN.into());
        }
        if i == at {
            match k {
                Keep::Value => {
                    let id = *anc.last().unwrap();
                    let v = c.ancestors_mut().last_mut().unwrap();
                    kept_value = Some(std::mem::replace(v, spare_v.take().unwrap()));
                    owned.insert(id);
                }
                k => match c.children_mut().keep(k, spare, &mut kept_kids) {
                    Some(ids) => owned.extend(ids.into_iter().flat_map(|i| under(m, i))),
                    None => return Ok(()),
                },
            }
        }
        i += 1;
        if i > 2 * m.size() {
            break;
        }
    }
    drop(kept_value);
    drop(kept_kids);
    Ok(())
}

trait Spare: Sized + 'static {
    type Kids;
    fn spare() -> Vec<Self::Kids> {
        vec![]
    }
}
impl Spare for Tree<V> {
    type Kids = Vec<Tree<V>>;
    fn spare() -> Vec<Self::Kids> {
        vec![vec![]]
    }
}
impl Spare for LNode {
    type Kids = std::collections::LinkedList<LNode>;
    fn spare() -> Vec<Self::Kids> {
        vec![Default::default()]
    }
}

macro_rules! cb {
    (muts, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident, $spare:ident) => {
        for at in 0..$m.size() {
            for k in [Keep::Child(0), Keep::Child(1), Keep::All, Keep::Value] {
                $c.case(&|| format!("{}.attach_context() keeping {k:?} at step {at} on {}", $label, $m), &mut |st| {
                    let mut v = V::new(999);
                    cb!(@$spare pool, $N);
                    let mut $t = <$N>::build($m);
                    let mut it = $it.attach_context();
                    alias(&mut it, $m, at, k, &mut v, cb!(@$spare use pool), st)
                });
            }
        }
    };
    ($own:ident, $($x:tt)*) => {};
    (@refs $p:ident, $N:ty) => { let mut $p = <$N as Spare>::spare(); };
    (@refs use $p:ident) => { &mut $p.iter_mut().collect() };
    (@none $p:ident, $N:ty) => {};
    (@none use $p:ident) => { &mut vec![] };
}

// ---- children collections with a destructor --------------------------------------------------
pub struct DNode {
    value: V,
    children: Vec<DNode>,
}
pub struct Kids<I> {
    it: I,
    tok: V,
}
pub struct KidsIter<I> {
    it: I,
    #[allow(dead_code)]
    tok: V,
}
impl<I: Iterator> IntoIterator for Kids<I> {
    type Item = I::Item;
    type IntoIter = KidsIter<I>;
    fn into_iter(self) -> KidsIter<I> {
        KidsIter { it: self.it, tok: self.tok }
    }
}
impl<I: Iterator> Iterator for KidsIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
}
impl<I: std::iter::FusedIterator> std::iter::FusedIterator for KidsIter<I> {}
impl DNode {
    fn build(m: &M) -> DNode {
        DNode { value: V::new(m.id), children: m.kids.iter().map(DNode::build).collect() }
    }
}
impl OwnedTreeNode for DNode {
    type OwnedValue = V;
    type OwnedChildren = Kids<std::vec::IntoIter<DNode>>;
    fn get_value_and_children(self) -> (V, Self::OwnedChildren) {
        let tok = V::new(1000 + self.value.id());
        (self.value, Kids { it: self.children.into_iter(), tok })
    }
}
impl<'a> MutBorrowedTreeNode<'a> for DNode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = Kids<std::slice::IterMut<'a, DNode>>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Self::MutBorrowedChildren) {
        let tok = V::new(1000 + self.value.id());
        (&mut self.value, Kids { it: self.children.iter_mut(), tok })
    }
}
impl<'a> BorrowedTreeNode<'a> for DNode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = Kids<std::slice::Iter<'a, DNode>>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Self::BorrowedChildren) {
        let tok = V::new(1000 + self.value.id());
        (&self.value, Kids { it: self.children.iter(), tok })
    }
}
fn once() -> Result<(), String> {
    if mc::track::bad().is_some() {
        return Err("a value or a children collection was dropped twice".into());
    }
    if mc::track::live() != 0 {
        return Err("a value or a children collection was never dropped".into());
    }
    Ok(())
}
macro_rules! drops {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in 0..=$m.size() + 1 {
            $c.case(&|| format!("{} abandoned after {k} on {}", $label, $m), &mut |st| {
                {
                    #[allow(unused_mut)]
                    let mut $t = DNode::build($m);
                    let kept: Vec<_> = $it.take(k).collect();
                    st.steps(kept.len());
                    st.sees(kept.iter().map(|v| v.id()));
                }
                once()
            });
            $c.case(&|| format!("{} then leaves() after {k} on {}", $label, $m), &mut |st| {
                {
                    #[allow(unused_mut)]
                    let mut $t = DNode::build($m);
                    let mut it = $it;
                    let kept: Vec<_> = it.by_ref().take(k).collect();
                    let leaves: Vec<_> = it.leaves().collect();
                    st.steps(kept.len() + leaves.len());
                    st.sees(leaves.iter().map(|v| v.id()));
                }
                once()
            });
            $c.case(&|| format!("{}.attach_context() abandoned after {k} on {}", $label, $m), &mut |st| {
                {
                    #[allow(unused_mut)]
                    let mut $t = DNode::build($m);
                    let mut it = $it.attach_context();
                    for _ in 0..k {
                        st.step();
                        if let Some(x) = it.next() {
                            st.sees(x.ancestors().iter().map(|v| v.id()));
                        }
                    }
                }
                once()
            });
            $c.case(&|| format!("{}.attach_ancestors() for {k}, then leaves() on {}", $label, $m), &mut |st| {
                {
                    #[allow(unused_mut)]
                    let mut $t = DNode::build($m);
                    let mut it = $it.attach_ancestors();
                    for _ in 0..k {
                        st.step();
                        if let Some(x) = it.next() {
                            st.sees(x.iter().map(|v| v.id()));
                        }
                    }
                    let mut it = it.leaves();
                    while let Some(x) = it.next() {
                        st.sees(x.iter().map(|v| v.id()));
                    }
                }
                once()
            });
        }
    };
}

pub fn run(c: &mut Ctx) {
    let n = c.pick(9, 11, 3);
    c.bound(format!("aliasing monitor: every n-ary and binary tree shape with <= {n} nodes x every mutable context iterator x every step x every kind of kept reference"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources_for!(cb, Tree<V>, "Tree", (c, m, refs));
                nary_sources_for!(cb, LNode, "LNode", (c, m, refs));
                nary_sources_for!(cb, INode, "INode", (c, m, none));
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                bin_sources_for!(cb, BinaryTree<V>, "BinaryTree", (c, m, none));
                bin_sources_for!(cb, CBin, "CBin", (c, m, none));
            }
        }
    }
    let n = c.pick(9, 11, 3);
    c.bound(format!("children collections with a destructor: every n-ary tree shape with <= {n} nodes x every traversal x every abandonment point"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources_for!(drops, DNode, "DNode", (c, m));
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C18", &["the interpreter half of this check runs under Miri's Stacked Borrows model", "two unsound interfaces are recorded as known findings"], run);
}
