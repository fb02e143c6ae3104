//! Reference model: plain recursive trees and textbook definitions over them.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Order {
    Bfs,
    Pre,
    In,
    Post,
}

/// A model tree. `slot` is the index in the parent's child collection; for binary trees 0 = left,
/// 1 = right. `touched` is only used when a real tree is converted back.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct M {
    pub id: u32,
    pub touched: u32,
    pub slot: usize,
    pub binary: bool,
    pub kids: Vec<M>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info {
    pub id: u32,
    pub path: Vec<usize>,
    pub anc: Vec<u32>,
    pub kids: Vec<(usize, u32)>,
}

impl M {
    pub fn leaf(id: u32) -> M {
        M { id, ..M::default() }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn height(&self) -> usize {
        self.kids.iter().map(|k| k.height() + 1).max().unwrap_or(0)
    }
    /// number the nodes in preorder starting at `next`
    pub fn number(&mut self, next: &mut u32) {
        self.id = *next;
        *next += 1;
        for k in &mut self.kids {
            k.number(next);
        }
    }
    pub fn slots_from_position(&mut self) {
        for (i, k) in self.kids.iter_mut().enumerate() {
            if !self.binary {
                k.slot = i;
            }
            k.slots_from_position();
        }
    }
    pub fn order(&self, o: Order) -> Vec<u32> {
        let mut out = Vec::new();
        match o {
            Order::Pre => self.pre(&mut out),
            Order::Post => self.post(&mut out),
            Order::In => self.ino(&mut out),
            Order::Bfs => {
                let mut level: Vec<&M> = vec![self];
                while !level.is_empty() {
                    let mut next = Vec::new();
                    for n in level {
                        out.push(n.id);
                        next.extend(n.kids.iter());
                    }
                    level = next;
                }
            }
        }
        out
    }
    fn pre(&self, out: &mut Vec<u32>) {
        out.push(self.id);
        self.kids.iter().for_each(|k| k.pre(out));
    }
    fn post(&self, out: &mut Vec<u32>) {
        self.kids.iter().for_each(|k| k.post(out));
        out.push(self.id);
    }
    fn ino(&self, out: &mut Vec<u32>) {
        for k in self.kids.iter().filter(|k| k.slot == 0) {
            k.ino(out);
        }
        out.push(self.id);
        for k in self.kids.iter().filter(|k| k.slot == 1) {
            k.ino(out);
        }
    }
    pub fn infos(&self) -> Vec<Info> {
        let mut out = Vec::new();
        self.infos_into(&mut Vec::new(), &mut Vec::new(), &mut out);
        out
    }
    pub fn infos_into(&self, path: &mut Vec<usize>, anc: &mut Vec<u32>, out: &mut Vec<Info>) {
        anc.push(self.id);
        out.push(Info {
            id: self.id,
            path: path.clone(),
            anc: anc.clone(),
            kids: self.kids.iter().map(|k| (k.slot, k.id)).collect(),
        });
        for k in &self.kids {
            path.push(k.slot);
            k.infos_into(path, anc, out);
            path.pop();
        }
        anc.pop();
    }
    pub fn at(&self, path: &[usize]) -> Option<&M> {
        match path.split_first() {
            None => Some(self),
            Some((i, rest)) => match self.kids.get(*i) {
                Some(k) if k.slot == *i => k.at(rest),
                _ if !self.binary && self.kids.len() > 1000 => None,
                _ => self.kids.iter().find(|k| k.slot == *i)?.at(rest),
            },
        }
    }
    pub fn find(&self, id: u32) -> Option<&M> {
        if self.id == id {
            return Some(self);
        }
        self.kids.iter().find_map(|k| k.find(id))
    }
    pub fn find_mut(&mut self, id: u32) -> Option<&mut M> {
        if self.id == id {
            return Some(self);
        }
        self.kids.iter_mut().find_map(|k| k.find_mut(id))
    }
    pub fn leaf_ids(&self) -> Vec<u32> {
        self.infos().iter().filter(|i| i.kids.is_empty()).map(|i| i.id).collect()
    }
    /// forget values touched
    pub fn clean(&self) -> M {
        M { touched: 0, kids: self.kids.iter().map(|k| k.clean()).collect(), ..self.clone() }
    }
}

impl fmt::Display for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.id)?;
        if self.touched != 0 {
            write!(f, "*{}", self.touched)?;
        }
        if self.binary {
            if !self.kids.is_empty() {
                write!(f, "[")?;
                for s in 0..2 {
                    if s == 1 {
                        write!(f, ",")?;
                    }
                    match self.kids.iter().find(|k| k.slot == s) {
                        Some(k) => write!(f, "{k}")?,
                        None => write!(f, "-")?,
                    }
                }
                write!(f, "]")?;
            }
        } else if !self.kids.is_empty() {
            write!(f, "(")?;
            let plain = |k: &M| k.kids.is_empty() && k.touched == 0;
            let mut i = 0;
            while i < self.kids.len() {
                if i > 0 {
                    write!(f, " ")?;
                }
                // long rows of leaves with consecutive ids: first..last
                let run = self.kids[i..].iter().enumerate().take_while(|(j, k)| plain(k) && k.id == self.kids[i].id + *j as u32).count();
                if run > 8 {
                    write!(f, "{}..{}", self.kids[i].id, self.kids[i + run - 1].id)?;
                    i += run;
                } else {
                    write!(f, "{}", self.kids[i])?;
                    i += 1;
                }
            }
            write!(f, ")")?;
        }
        Ok(())
    }
}

/// every ordered tree with exactly n nodes
pub fn nary_shapes(n: usize) -> Vec<M> {
    if n == 0 {
        return vec![];
    }
    forests(n - 1, &|k| nary_shapes(k))
        .into_iter()
        .map(|kids| finish(M { kids, ..M::default() }))
        .collect()
}
fn finish(mut m: M) -> M {
    m.slots_from_position();
    m.number(&mut 0);
    m
}
/// every sequence of non-empty trees with n nodes in total
fn forests(n: usize, tree: &dyn Fn(usize) -> Vec<M>) -> Vec<Vec<M>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=n {
        let rest = forests(n - first, tree);
        for t in tree(first) {
            for r in &rest {
                let mut v = vec![t.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn binary_opt(n: usize) -> Vec<Option<M>> {
    if n == 0 {
        return vec![None];
    }
    let mut out = Vec::new();
    for l in 0..n {
        let rights = binary_opt(n - 1 - l);
        for left in binary_opt(l) {
            for right in &rights {
                let mut kids = Vec::new();
                if let Some(mut k) = left.clone() {
                    k.slot = 0;
                    kids.push(k);
                }
                if let Some(mut k) = right.clone() {
                    k.slot = 1;
                    kids.push(k);
                }
                out.push(Some(M { binary: true, kids, ..M::default() }));
            }
        }
    }
    out
}
/// every binary tree with exactly n nodes
pub fn binary_shapes(n: usize) -> Vec<M> {
    binary_opt(n).into_iter().flatten().map(finish).collect()
}
/// every forest of n-ary trees with n nodes in total, ids continuing from tree to tree
pub fn nary_forests(n: usize) -> Vec<Vec<M>> {
    number_forests(forests(n, &|k| nary_shapes(k)))
}
pub fn binary_forests(n: usize) -> Vec<Vec<M>> {
    number_forests(forests(n, &|k| binary_shapes(k)))
}
fn number_forests(mut fs: Vec<Vec<M>>) -> Vec<Vec<M>> {
    for f in &mut fs {
        let mut next = 0;
        for t in f.iter_mut() {
            t.slot = 0;
            t.slots_from_position();
            t.number(&mut next);
        }
    }
    fs
}
/// one collection of these trees
pub fn number_forest(f: Vec<M>) -> Vec<M> {
    number_forests(vec![f]).remove(0)
}
pub fn forest_str(f: &[M]) -> String {
    let mut out = vec![];
    let mut i = 0;
    while i < f.len() {
        // long rows of leaves with consecutive ids: first;..;last
        let run = f[i..].iter().enumerate().take_while(|(j, k)| k.kids.is_empty() && k.touched == 0 && k.id == f[i].id + *j as u32).count();
        if run > 8 {
            out.push(format!("{};..;{}", f[i].id, f[i + run - 1].id));
            i += run;
        } else {
            out.push(f[i].to_string());
            i += 1;
        }
    }
    format!("<{}>", out.join(" ; "))
}
/// infos of all trees of a forest, paths prefixed by the tree's index
pub fn forest_infos(f: &[M]) -> Vec<Info> {
    let mut out = Vec::new();
    for (i, t) in f.iter().enumerate() {
        t.infos_into(&mut vec![i], &mut vec![], &mut out);
    }
    out
}

// ---- parametric families of larger trees -------------------------------------------------------
// Exhaustive enumeration of all shapes stops around a dozen nodes. These families go on: every
// member for every listed size, so that anything that depends on a width, a depth or a buffer
// length (growth of a stack, a wrap-around, a counter that is too narrow) is inside the bound.

/// every size from 12 to 40, then the sizes around powers of two up to 300
pub fn family_sizes(max: usize) -> Vec<usize> {
    (12..=40).chain([63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300]).filter(|n| *n <= max).collect()
}
fn node(kids: Vec<M>) -> M {
    M { kids, ..M::default() }
}
fn chain(n: usize, end: Vec<M>) -> M {
    // n nodes in a row, the last one with children `end`
    let mut t = node(end);
    for _ in 1..n {
        t = node(vec![t]);
    }
    t
}
fn leaves(n: usize) -> Vec<M> {
    (0..n).map(|_| node(vec![])).collect()
}
fn heap(i: usize, n: usize, k: usize) -> M {
    node((k * i + 1..=k * i + k).filter(|j| *j < n).map(|j| heap(j, n, k)).collect())
}
/// a spine of `n` nodes; each carries `before` leaves to the left and `after` to the right of the next
fn spine(n: usize, before: usize, after: usize) -> M {
    let mut t = node(vec![]);
    for _ in 1..n {
        let mut kids = leaves(before);
        kids.push(t);
        kids.extend(leaves(after));
        t = node(kids);
    }
    t
}
pub fn nary_families(max: usize) -> Vec<M> {
    nary_families_of(&family_sizes(max))
}
pub fn binary_families(max: usize) -> Vec<M> {
    binary_families_of(&family_sizes(max))
}
pub fn nary_families_of(sizes: &[usize]) -> Vec<M> {
    let mut out = vec![];
    for &n in sizes {
        let r = (n as f64).sqrt() as usize;
        out.push(chain(n, vec![])); // one branch
        out.push(node(leaves(n - 1))); // star
        out.push(chain(n / 2, leaves(n - n / 2))); // broom
        out.push(spine(n / 2, 1, 0)); // combs
        out.push(spine(n / 2, 0, 1));
        out.push(spine(n / 3, 1, 1));
        out.push(heap(0, n, 2)); // complete trees
        out.push(heap(0, n, 3));
        out.push(heap(0, n, r)); // bushy
        out.push(node((0..r).map(|_| chain(r, vec![])).collect())); // spider
        out.push(node((0..r).map(|i| chain(i + 1, vec![])).collect())); // stairs up
        out.push(node((0..r).map(|i| chain(r - i, vec![])).collect())); // stairs down
        out.push(node((0..r).map(|i| node(leaves(if i % 2 == 0 { r } else { 0 }))).collect())); // every other
        out.push(node(vec![node(leaves(n / 2 - 1)), chain(n / 2, vec![])])); // wide, then deep
        out.push(node(vec![chain(n / 2, vec![]), node(leaves(n / 2 - 1))])); // deep, then wide
    }
    out.into_iter().map(finish).collect()
}
fn bin(l: Option<M>, r: Option<M>) -> M {
    let mut kids = vec![];
    for (slot, k) in [(0, l), (1, r)] {
        if let Some(mut k) = k {
            k.slot = slot;
            kids.push(k);
        }
    }
    M { binary: true, kids, ..M::default() }
}
/// a row of n nodes; `left(i)` says on which side node i hangs its successor, `leaf(i)` whether it
/// has a leaf on the other side
fn bin_row(n: usize, left: impl Fn(usize) -> bool, leaf: impl Fn(usize) -> bool) -> M {
    let mut t = bin(None, None);
    for i in (0..n - 1).rev() {
        let other = leaf(i).then(|| bin(None, None));
        t = if left(i) { bin(Some(t), other) } else { bin(other, Some(t)) };
    }
    t
}
fn bin_heap(i: usize, n: usize, skip: impl Fn(usize) -> bool + Copy) -> M {
    let sub = |j: usize| (j < n && !skip(j)).then(|| bin_heap(j, n, skip));
    bin(sub(2 * i + 1), sub(2 * i + 2))
}
pub fn binary_families_of(sizes: &[usize]) -> Vec<M> {
    let mut out = vec![];
    for &n in sizes {
        let h = n / 2;
        out.push(bin_row(n, |_| true, |_| false)); // left and right chains, zigzags
        out.push(bin_row(n, |_| false, |_| false));
        out.push(bin_row(n, |i| i % 2 == 0, |_| false));
        out.push(bin_row(n, |i| i % 4 < 2, |_| false));
        out.push(bin_row(n, |i| i < h, |_| false));
        out.push(bin_row(n, |i| i >= h, |_| false));
        out.push(bin_row(h, |_| true, |_| true)); // combs
        out.push(bin_row(h, |_| false, |_| true));
        out.push(bin_row(h, |i| i % 2 == 0, |_| true));
        out.push(bin_row(h, |i| i % 3 == 0, |i| i % 2 == 0));
        out.push(bin_heap(0, n, |_| false)); // complete trees, with holes
        out.push(bin_heap(0, n, |j| j % 5 == 3));
        out.push(bin(Some(bin_row(h, |_| true, |_| false)), Some(bin_row(h, |_| false, |_| false)))); // two arms
        out.push(bin(Some(bin_row(h, |_| false, |_| false)), Some(bin_row(h, |_| true, |_| false))));
        out.push(bin(Some(bin_heap(0, h, |_| false)), Some(bin_row(h, |_| true, |_| false))));
    }
    out.into_iter().map(finish).collect()
}
/// collections: many small trees, and a few large ones
fn forest_families(max: usize, fams: Vec<M>, unit: fn() -> M, two: fn() -> M) -> Vec<Vec<M>> {
    let mut out = vec![];
    for n in family_sizes(max) {
        out.push((0..n).map(|_| unit()).collect());
        out.push((0..n / 2).map(|_| two()).collect());
        out.push((0..n / 2).map(|i| if i % 2 == 0 { unit() } else { two() }).collect());
    }
    for m in fams {
        out.push(vec![m.clone()]);
        out.push(vec![m.clone(), m.clone()]);
        // many of them: a collection that has been through large trees before
        if [20, 40].contains(&m.size()) {
            out.push((0..40).map(|_| m.clone()).collect());
        }
        if m.size() == 100 {
            out.push((0..40).map(|i| if i % 2 == 0 { m.clone() } else { unit() }).collect());
        }
        out.push(vec![unit(), m.clone(), two(), m]);
    }
    number_forests(out)
}
pub fn nary_forest_families(max: usize, tree_max: usize) -> Vec<Vec<M>> {
    forest_families(max, nary_families(tree_max), || node(vec![]), || finish(node(leaves(2))))
}
pub fn binary_forest_families(max: usize, tree_max: usize) -> Vec<Vec<M>> {
    forest_families(max, binary_families(tree_max), || bin(None, None), || bin(Some(bin(None, None)), Some(bin(None, None))))
}
const WIDE: usize = 66_000;
/// the children (or trees) of a giant that are not just leaves
pub fn special(i: usize) -> bool {
    [0, 1, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, WIDE - 1].contains(&i)
}
/// wider than any 16 bit counter: a star in which some of the children have children
pub fn nary_giants() -> Vec<M> {
    vec![finish(node((0..WIDE).map(|i| node(leaves(if special(i) { 2 } else { 0 }))).collect()))]
}
pub fn nary_forest_giants() -> Vec<Vec<M>> {
    number_forests(vec![(0..WIDE).map(|i| node(leaves(if special(i) { 2 } else { 0 }))).collect()])
}
pub fn binary_forest_giants() -> Vec<Vec<M>> {
    let one = || Some(bin(None, None));
    number_forests(vec![(0..WIDE).map(|i| if special(i) { bin(one(), one()) } else { bin(None, None) }).collect()])
}
/// every n-ary shape with at most `n` nodes, then every family member with at most `fam` nodes
/// (and the giants with the full families)
pub fn nary_all(n: usize, fam: usize) -> impl Iterator<Item = M> {
    (1..=n).flat_map(nary_shapes).chain(nary_families(fam)).chain(if fam >= 300 { nary_giants() } else { vec![] })
}
pub fn binary_all(n: usize, fam: usize) -> impl Iterator<Item = M> {
    (1..=n).flat_map(binary_shapes).chain(binary_families(fam))
}
pub fn nary_forests_all(n: usize, fam: usize, tree_fam: usize) -> impl Iterator<Item = Vec<M>> {
    (0..=n).flat_map(nary_forests).chain(nary_forest_families(fam, tree_fam)).chain(if fam >= 300 { nary_forest_giants() } else { vec![] })
}
pub fn binary_forests_all(n: usize, fam: usize, tree_fam: usize) -> impl Iterator<Item = Vec<M>> {
    (0..=n).flat_map(binary_forests).chain(binary_forest_families(fam, tree_fam)).chain(if fam >= 300 { binary_forest_giants() } else { vec![] })
}
pub fn fam_str(fam: usize) -> String {
    format!("plus 15 families of larger trees (chains, zigzags, stars, brooms, combs, spiders, stairs, complete and bushy trees; every size 12..=40 and those around 64, 100, 128, 200, 256, 300, up to {fam} nodes){}", if fam >= 300 { " and a tree with 66000 siblings" } else { "" })
}
/// the numbers of elements after which to do something else: all of them for trees of up to 66
/// nodes, otherwise those around the start, the end, the quarters and the powers of two
pub fn cuts(n: usize) -> Vec<usize> {
    if n <= 66 {
        return (0..=n + 1).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n / 4, n / 2 - 1, n / 2, n / 2 + 1, 3 * n / 4, n - 2, n - 1, n, n + 1];
    if n > WIDE {
        v = vec![0, 257, 65_535, 65_537, n];
    }
    v.retain(|k| *k <= n + 1);
    v.sort();
    v.dedup();
    v
}
