//! Tree pipelines: a type-erased carrier so chains of any length can be enumerated at run time,
//! and the reference semantics of a chain of stages over a forest.
use crate::model::M;
use crate::nodes::Res;
use crate::runner::Stats;
use crate::track::Obs;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use tree_iterators_rs::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    Map,
    MapPath,
    /// prune the nodes whose id is in the mask
    Prune(u32),
    PrunePath(u32),
    Depth(usize),
    /// the consumer calls prune_current_subtree() at these nodes (only as the last stage of a model
    /// chain, for `Term::Cut`)
    Cut(u32),
}
impl fmt::Display for St {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            St::Map => write!(f, ".map"),
            St::MapPath => write!(f, ".map_path"),
            St::Prune(m) => write!(f, ".prune{}", ids(*m)),
            St::PrunePath(m) => write!(f, ".prune_path{}", ids(*m)),
            St::Depth(d) => write!(f, ".prune_depth({d})"),
            St::Cut(m) => write!(f, " cut at {}", ids(*m)),
        }
    }
}
// Sets of nodes are `u32`s: bit i stands for the node with id i; with the top bit set, for the nodes
// whose id leaves the remainder `r` modulo `k` (for trees of any size), or for all the others.
const FIELD: u32 = (1 << 14) - 1;
pub fn every(k: u32, r: u32) -> u32 {
    assert!(k <= FIELD && r <= FIELD);
    1 << 31 | r << 14 | k
}
pub fn all_but(k: u32, r: u32) -> u32 {
    1 << 30 | every(k, r)
}
/// the nodes whose id is at least `n`
pub fn from(n: u32) -> u32 {
    every(0, n)
}
#[inline]
pub fn has(set: u32, id: u32) -> bool {
    if set >> 31 == 1 {
        let (k, r) = (set & FIELD, set >> 14 & FIELD);
        if k == 0 { id >= r } else { (id % k == r) != (set >> 30 & 1 == 1) }
    } else {
        id < 31 && set >> id & 1 == 1
    }
}
/// sets of nodes for trees of any size; none contains the root of a single tree
pub fn big_sets() -> Vec<u32> {
    (2..=5).flat_map(|k| (1..k).map(move |r| every(k, r))).chain([every(250, 7), every(40, 33), all_but(300, 0), all_but(16000, 0)]).collect()
}
pub fn ids(m: u32) -> String {
    if m >> 31 == 1 {
        return match (m & FIELD, m >> 14 & FIELD, m >> 30 & 1) {
            (0, r, _) => format!("{{ids >= {r}}}"),
            (k, r, 0) => format!("{{ids = {r} mod {k}}}"),
            (k, r, _) => format!("{{ids != {r} mod {k}}}"),
        };
    }
    format!("{{{}}}", (0..32).filter(|i| m >> i & 1 == 1).map(|i| i.to_string()).collect::<Vec<_>>().join(","))
}
pub fn chain_str(c: &[St]) -> String {
    c.iter().map(|s| s.to_string()).collect()
}
/// every stage over ids `0..n`, depths `0..=maxd`
pub fn stages(n: usize, maxd: usize) -> Vec<St> {
    let mut v = vec![St::Map, St::MapPath];
    v.extend((0..=maxd).map(St::Depth));
    for m in 0..1u32 << n {
        v.push(St::Prune(m));
        v.push(St::PrunePath(m));
    }
    v
}

pub type Row = (u32, Vec<usize>);
pub type Log = Rc<RefCell<Vec<Vec<Row>>>>;

/// what a chain must do to a forest
#[derive(Default)]
pub struct Out {
    /// closure calls of every stage, in order (path empty where the closure gets none)
    pub logs: Vec<Vec<Row>>,
    /// nodes leaving the last stage in preorder, with the path they have there
    pub rows: Vec<Row>,
    /// rows in postorder
    pub post: Vec<Row>,
    pub forest: Vec<M>,
    /// how often each node was modified in place by map stages
    pub touched: BTreeMap<u32, u32>,
}

/// a few stages of every kind, for trees of any size
pub fn big_stages() -> Vec<St> {
    let mut v = vec![St::Map, St::MapPath];
    v.extend([0, 1, 2, 5, 11, 32, 70].map(St::Depth));
    for m in [every(2, 1), every(3, 1), every(3, 2), every(5, 4)] {
        v.push(St::Prune(m));
        v.push(St::PrunePath(m));
    }
    v
}

/// the chains for giants
pub fn giant_chains() -> Vec<Vec<St>> {
    let s = [St::MapPath, St::Prune(every(2, 1)), St::PrunePath(every(3, 2)), St::Prune(every(251, 3)), St::Depth(1)];
    let mut out = vec![vec![], vec![St::Map]];
    chains(&s, 1, &mut |c| out.push(c.to_vec()));
    chains(&s[..3], 2, &mut |c| out.push(c.to_vec()));
    out
}

/// `coll`: the forest is a collection whose trees are addressed by index
pub fn model_chain(forest: &[M], chain: &[St], coll: bool) -> Out {
    let mut o = Out { logs: vec![vec![]; chain.len()], ..Out::default() };
    let mut cnt = vec![0; chain.len() + 1];
    let base = vec![vec![]; chain.len() + 1];
    for (i, t) in forest.iter().enumerate() {
        let slot = if coll { Some(i) } else { None };
        if let Some(m) = go(t, chain, coll, slot, &base, &mut cnt, &mut o) {
            o.forest.push(m);
        }
    }
    o
}
fn go(t: &M, chain: &[St], coll: bool, slot: Option<usize>, parent: &[Vec<usize>], cnt: &mut [usize], o: &mut Out) -> Option<M> {
    let mut paths = parent.to_vec();
    let mut cut = false;
    let mut seg = |i: usize, paths: &mut Vec<Vec<usize>>| {
        if let Some(s) = slot {
            // binary trees keep their slots; siblings of n-ary trees close ranks
            paths[i].push(if t.binary { s } else { cnt[i] });
        }
        cnt[i] += 1;
        paths[i].len()
    };
    for (i, s) in chain.iter().enumerate() {
        let len = seg(i, &mut paths);
        let depth = len - coll as usize;
        match s {
            St::Map => {
                o.logs[i].push((t.id, vec![]));
                *o.touched.entry(t.id).or_default() += 1;
            }
            St::MapPath => {
                o.logs[i].push((t.id, paths[i].clone()));
                *o.touched.entry(t.id).or_default() += 1;
            }
            St::Prune(m) | St::PrunePath(m) => {
                let p = if matches!(s, St::Prune(_)) { vec![] } else { paths[i].clone() };
                o.logs[i].push((t.id, p));
                if has(*m, t.id) {
                    return None;
                }
            }
            St::Depth(d) => cut |= depth == *d,
            St::Cut(m) => cut |= has(*m, t.id),
        }
    }
    let last = chain.len();
    seg(last, &mut paths);
    let row = (t.id, paths[last].clone());
    o.rows.push(row.clone());
    let mut m = M { id: t.id, binary: t.binary, touched: o.touched.get(&t.id).copied().unwrap_or(0), ..M::default() };
    if let (Some(s), true) = (paths[last].last(), slot.is_some()) {
        m.slot = *s;
    }
    if !cut {
        let mut cnt = vec![0; chain.len() + 1];
        for k in &t.kids {
            if let Some(k) = go(k, chain, coll, Some(k.slot), &paths, &mut cnt, o) {
                m.kids.push(k);
            }
        }
    }
    o.post.push(row);
    Some(m)
}

pub trait Erased<T>: Iterator<Item = T> {
    fn path(&self) -> &[usize];
    fn depth(&self) -> usize;
    fn cut(&mut self);
}

fn new_log(c: &[St]) -> Log {
    Rc::new(RefCell::new(vec![vec![]; c.len()]))
}
// the closures of stage i: they write the log
fn mapper<T: Obs>(i: usize, log: &Log) -> impl FnMut(T) -> T {
    let log = log.clone();
    move |mut v: T| {
        log.borrow_mut()[i].push((v.id(), vec![]));
        v.touch();
        v
    }
}
fn path_mapper<T: Obs>(i: usize, log: &Log) -> impl FnMut(&[usize], T) -> T {
    let log = log.clone();
    move |p: &[usize], mut v: T| {
        log.borrow_mut()[i].push((v.id(), p.to_vec()));
        v.touch();
        v
    }
}
fn pruner<T: Obs>(i: usize, log: &Log, m: u32) -> impl FnMut(&T) -> bool {
    let log = log.clone();
    move |v: &T| {
        log.borrow_mut()[i].push((v.id(), vec![]));
        has(m, v.id())
    }
}
fn path_pruner<T: Obs>(i: usize, log: &Log, m: u32) -> impl FnMut(&[usize], &T) -> bool {
    let log = log.clone();
    move |p: &[usize], v: &T| {
        log.borrow_mut()[i].push((v.id(), p.to_vec()));
        has(m, v.id())
    }
}

macro_rules! carrier {
    ($Box:ident, $Wrap:ident, $Base:ident, $Trait:ident, $map:ident) => {
        struct $Wrap<T, C, I: $Trait<T, C>>(I, PhantomData<(T, C)>);
        impl<T, C, I: $Trait<T, C>> Iterator for $Wrap<T, C, I> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.next()
            }
        }
        impl<T, C, I: $Trait<T, C>> Erased<T> for $Wrap<T, C, I> {
            fn path(&self) -> &[usize] {
                self.0.current_path()
            }
            fn depth(&self) -> usize {
                self.0.current_depth()
            }
            fn cut(&mut self) {
                self.0.prune_current_subtree()
            }
        }
        pub struct $Box<'a, T>(Box<dyn Erased<T> + 'a>);
        impl<'a, T> Iterator for $Box<'a, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.next()
            }
        }
        impl<'a, T> $Base<T, ()> for $Box<'a, T> {
            fn current_path(&self) -> &[usize] {
                self.0.path()
            }
            fn current_depth(&self) -> usize {
                self.0.depth()
            }
            fn prune_current_subtree(&mut self) {
                self.0.cut()
            }
        }
        impl<'a, T> $Trait<T, ()> for $Box<'a, T> {}
        impl<'a, T: Obs + 'a> $Box<'a, T> {
            pub fn new<C: 'a, I: $Trait<T, C> + 'a>(i: I) -> Self {
                $Box(Box::new($Wrap(i, PhantomData)))
            }
            fn stage(self, i: usize, s: St, log: &Log) -> Self {
                match s {
                    St::Map => $Box::new(self.$map(mapper(i, log))),
                    St::MapPath => $Box::new(self.map_path(path_mapper(i, log))),
                    St::Prune(m) => $Box::new(self.prune(pruner(i, log, m))),
                    St::PrunePath(m) => $Box::new(self.prune_path(path_pruner(i, log, m))),
                    St::Depth(d) => $Box::new(self.prune_depth(d)),
                    St::Cut(_) => unreachable!(),
                }
            }
            /// the chain applied to this source, and the log its closures write
            pub fn chain(mut self, c: &[St]) -> (Self, Log) {
                let log = new_log(c);
                for (i, s) in c.iter().enumerate() {
                    self = self.stage(i, *s, &log);
                }
                (self, log)
            }
        }
    };
}
carrier!(NBox, NWrap, TreeIteratorBase, TreeIterator, map_tree);
carrier!(BBox, BWrap, TreeIteratorBase, BinaryTreeIterator, map_tree);
carrier!(NCBox, NCWrap, TreeCollectionIteratorBase, TreeCollectionIterator, map_trees);
carrier!(BCBox, BCWrap, TreeCollectionIteratorBase, BinaryTreeCollectionIterator, map_trees);

/// how a chain is consumed
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Term {
    Iterate,
    Collect,
    Fold,
    FoldPath,
    /// iterate, calling prune_current_subtree() at these nodes
    Cut(u32),
}
pub const TERMS: [Term; 4] = [Term::Iterate, Term::Collect, Term::Fold, Term::FoldPath];

pub fn fold_nary(kids: Vec<M>, id: u32, touched: u32) -> M {
    let mut kids = kids;
    for (i, k) in kids.iter_mut().enumerate() {
        k.slot = i;
    }
    M { id, touched, slot: 0, binary: false, kids }
}
pub fn fold_bin(kids: [Option<M>; 2], id: u32, touched: u32) -> M {
    let mut out = vec![];
    for (i, k) in kids.into_iter().enumerate() {
        if let Some(mut k) = k {
            k.slot = i;
            out.push(k);
        }
    }
    M { id, touched, slot: 0, binary: true, kids: out }
}

pub fn rows_str(r: &[Row]) -> String {
    r.iter().map(|(i, p)| format!("{i}@{p:?}")).collect::<Vec<_>>().join(" ")
}

pub fn check_logs(want: &Out, chain: &[St], log: &Log) -> Result<(), String> {
    for (i, l) in log.borrow().iter().enumerate() {
        if *l != want.logs[i] {
            return Err(format!("closure of stage {i} ({}) was called with {}, expected {}", chain[i], rows_str(l), rows_str(&want.logs[i])));
        }
    }
    Ok(())
}
fn top(f: &[M], touches: bool) -> Vec<M> {
    f.iter()
        .map(|m| {
            let mut m = if touches { m.clone() } else { m.clean() };
            m.slot = 0;
            m
        })
        .collect()
}
fn same(got: Vec<M>, want: &[M], touches: bool) -> Result<(), String> {
    let want = top(want, touches);
    let got = top(&got, true);
    if got != want {
        return Err(format!("result {}, expected {}", crate::forest_str(&got), crate::forest_str(&want)));
    }
    Ok(())
}
fn post(got: &[Row], want: &Out, paths: bool) -> Result<(), String> {
    let want: Vec<Row> = want.post.iter().map(|(i, p)| (*i, if paths { p.clone() } else { vec![] })).collect();
    if got != want {
        return Err(format!("fold closure was called with {}, expected {}", rows_str(got), rows_str(&want)));
    }
    Ok(())
}

/// Consume a pipeline as `$term` says and compare. A macro, so that the methods of the concrete type
/// of the pipeline are the ones called.
macro_rules! finish {
    ($it:expr, $log:ident, $chain:ident, $term:ident, $want:ident, $touches:ident, $st:ident, $T:ty, [$map:ident, $K:ty, $fold:path, $coll:literal, $collect:ident, $foldm:ident]) => {{
            #[allow(unused_mut)]
            let mut it = $it;
            $st.steps($want.rows.len());
            match $term {
                Term::Iterate | Term::Cut(_) => {
                    let mut got = vec![];
                    while let Some(v) = it.next() {
                        got.push((v.id(), it.current_path().to_vec()));
                        let d = got.last().unwrap().1.len() - $coll as usize;
                        if it.current_depth() != d {
                            return Err(format!("current_depth {} at path {:?}", it.current_depth(), it.current_path()));
                        }
                        if got.len() > $want.rows.len() {
                            break;
                        }
                        if let (Term::Cut(m), Some(r)) = ($term, got.last()) {
                            if has(m, r.0) {
                                it.prune_current_subtree();
                            }
                        }
                    }
                    $st.sees(got.iter().map(|r| r.0));
                    $st.sees(got.iter().flat_map(|r| r.1.iter().map(|x| *x as u32)));
                    if got != $want.rows {
                        return Err(format!("yielded {}, expected {}", rows_str(&got), rows_str(&$want.rows)));
                    }
                }
                Term::Collect => {
                    let got: Vec<M> = it.$collect().into_iter().map(|t| t.model()).collect();
                    same(got, &$want.forest, $touches)?;
                }
                Term::Fold => {
                    let mut calls: Vec<Row> = vec![];
                    let got: Vec<M> = it
                        .$foldm(|k: $K, v: $T| {
                            calls.push((v.id(), vec![]));
                            $fold(k, v.id(), v.touched())
                        })
                        .into_iter()
                        .collect();
                    post(&calls, $want, false)?;
                    same(got, &$want.forest, $touches)?;
                }
                Term::FoldPath => {
                    let mut calls: Vec<Row> = vec![];
                    let got: Vec<M> = it
                        .fold_path(|k: $K, p: &[usize], v: $T| {
                            calls.push((v.id(), p.to_vec()));
                            $fold(k, v.id(), v.touched())
                        })
                        .into_iter()
                        .collect();
                    post(&calls, $want, true)?;
                    same(got, &$want.forest, $touches)?;
                }
            }
            check_logs($want, $chain, $log)
    }};
}
macro_rules! stage {
    ($it:expr, $i:expr, $log:ident, $chain:ident, [$map:ident, $($k:tt)*], |$n:ident| $then:expr) => {
        match $chain[$i] {
            St::Map => {
                let $n = $it.$map(mapper($i, $log));
                $then
            }
            St::MapPath => {
                let $n = $it.map_path(path_mapper($i, $log));
                $then
            }
            St::Prune(m) => {
                let $n = $it.prune(pruner($i, $log, m));
                $then
            }
            St::PrunePath(m) => {
                let $n = $it.prune_path(path_pruner($i, $log, m));
                $then
            }
            St::Depth(d) => {
                let $n = $it.prune_depth(d);
                $then
            }
            St::Cut(_) => unreachable!(),
        }
    };
}
macro_rules! terminals {
    ($name:ident, $direct:ident, $term:ident, $Box:ident, $Trait:ident, $k:tt) => {
        /// run one chain to its end and compare everything observable with the model
        pub fn $name<'a, T: Obs + 'a>(src: $Box<'a, T>, chain: &[St], term: Term, want: &Out, touches: bool, st: &mut Stats) -> Result<(), String> {
            let (it, log) = src.chain(chain);
            $term(it, &log, chain, term, want, touches, st)
        }
        fn $term<T: Obs, C, I: $Trait<T, C>>(it: I, log: &Log, chain: &[St], term: Term, want: &Out, touches: bool, st: &mut Stats) -> Result<(), String> {
            finish!(it, log, chain, term, want, touches, st, T, $k)
        }
        /// the same, for chains of at most two stages, with every stage and terminal applied to the
        /// concrete type of the stage before it (so that a stage which treats another kind of stage
        /// specially is exercised as such)
        pub fn $direct<T: Obs, C, I: $Trait<T, C>>(it: I, chain: &[St], term: Term, want: &Out, touches: bool, st: &mut Stats) -> Result<(), String> {
            let log = &new_log(chain);
            match chain.len() {
                0 => $term(it, log, chain, term, want, touches, st),
                1 => stage!(it, 0, log, chain, $k, |a| finish!(a, log, chain, term, want, touches, st, T, $k)),
                _ => stage!(it, 0, log, chain, $k, |a| stage!(a, 1, log, chain, $k, |b| finish!(b, log, chain, term, want, touches, st, T, $k))),
            }
        }
    };
}
terminals!(run_nary, direct_nary, term_nary, NBox, TreeIterator, [map_tree, Vec<M>, fold_nary, false, collect_tree, fold_tree]);
terminals!(run_binary, direct_binary, term_binary, BBox, BinaryTreeIterator, [map_tree, [Option<M>; 2], fold_bin, false, collect_tree, fold_tree]);
terminals!(run_nary_coll, direct_nary_coll, term_nary_coll, NCBox, TreeCollectionIterator, [map_trees, Vec<M>, fold_nary, true, trees, fold_trees]);
terminals!(run_binary_coll, direct_binary_coll, term_binary_coll, BCBox, BinaryTreeCollectionIterator, [map_trees, [Option<M>; 2], fold_bin, true, trees, fold_trees]);

/// the source tree after the chain, for modes that modify in place
pub fn touched_model(m: &M, o: &Out) -> M {
    let mut m = m.clone();
    fn set(m: &mut M, o: &Out) {
        m.touched = o.touched.get(&m.id).copied().unwrap_or(0);
        m.kids.iter_mut().for_each(|k| set(k, o));
    }
    set(&mut m, o);
    m
}

/// every chain of exactly `len` stages
pub fn chains(all: &[St], len: usize, f: &mut dyn FnMut(&[St])) {
    fn rec(all: &[St], len: usize, cur: &mut Vec<St>, f: &mut dyn FnMut(&[St])) {
        if cur.len() == len {
            return f(cur);
        }
        for s in all {
            cur.push(*s);
            rec(all, len, cur, f);
            cur.pop();
        }
    }
    rec(all, len, &mut vec![], f)
}
